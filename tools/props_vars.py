VA, VT, VU, RV, RU, PR, EX, SY = ('probayes/variable.py', 'probayes/vtypes.py', 'probayes/variable_utils.py', 'probayes/rv.py',
                              'probayes/rv_utils.py', 'probayes/prob.py', 'probayes/expression.py', 'probayes/sympy_prob.py')
FORM_B = 'all four combinations of inclusive/exclusive limits, in either order and as a tuple; limits in [-100,100] at least 0.01 apart'
prop('C15', 'Variable sets contain exactly the declared values',
     'A variable accepts exactly the values of its declared set: for floats every value between the limits, honouring which '
     'limit is exclusive and regardless of the order they are given in; for integers and booleans exactly the listed members, '
     'also element by element for arrays with repeated values. The variable type, limits and length follow from the set.',
     ['inputs', 'configurations'], 'every pair of limits, every inclusivity, every tested value, scalar or array',
     'Tests check two ranges with sampled values.',
     [VA, VT, RV], [('Variable.vset, vtype, _eval_vlims, _eval_ulims, inside, __contains__', 'variable.py'), ('eval_vtype', 'vtypes.py')],
     FORM_B + '; infinite limits; 8 integer sets; arrays of 1-3 values', 'other integer sets; larger arrays')
prop('C16', 'Evaluating a variable yields the requested values of its set',
     'Asking for n values of a float variable gives n equally spaced values over its range that leave out exclusive limits (the '
     'midpoint for one value of a closed range); asking for -n or 0 gives n random values or one scalar within the limits. For '
     'integers and booleans: n members in order, cycling; one random member; or n members drawn evenly; and the whole set by default. Given '
     'values are returned unchanged, and infinite ranges are refused.',
     ['inputs', 'configurations'], 'every pair of limits, inclusivity, number of values and random draw',
     'Tests sample one call per range.',
     [VA, VT, 'probayes/distribution.py'], [('Variable.evaluate', 'variable.py'), ('uniform', 'vtypes.py uniform()')],
     FORM_B + '; n from -6 to 20', 'larger n; the distribution of random draws',
     ['random draws are arbitrary values of the documented range'])
prop('C17', 'Deltas move values as declared and bounded ones stay inside',
     'Applying a delta adds exactly a scalar delta, at most its size for a list and plus or minus its size for a tuple; an '
     'explicit delta (zero included) takes precedence over the default; scaling multiplies default deltas by the length of the variable. With '
     'bounds, a step from inside the set stays inside it and is the plain step whenever that is inside, otherwise it is clamped at '
     'an inclusive limit or stays where it was at an exclusive one. Booleans are toggled.',
     ['inputs', 'configurations', 'histories'], 'every value, delta, limit pair, inclusivity, container and random draw, scalar or array',
     'Tests take a few bounded random steps on one closed range.',
     [VA, RV], [('Variable.set_delta, eval_delta, apply_delta', 'variable.py')],
     FORM_B + '; arrays of 1-3 values; float, int and bool', 'the distribution of random deltas; tuple deltas of booleans; integer sets with gaps',
     ['random draws are arbitrary values of the documented range'])
prop('C18', 'Transformed variables are spaced and stepped in transformed space',
     'With a monotonic transformation set, requested values are equally spaced in the transformed space and mapped back by the '
     'inverse, deltas are added in the transformed space, the length is that of the transformed range, while membership and bounds '
     'stay those of the untransformed values. Transformations of non-floats or malformed pairs are refused.',
     ['inputs', 'configurations'], 'every monotonic transformation (uninterpreted), limit pair, inclusivity and delta',
     'Tests use one logarithm.',
     [VA, EX, RV], [('Variable.set_ufun, evaluate, apply_delta, _eval_ulims', 'variable.py'), ('Expression', 'expression.py')],
     FORM_B + '; logarithm, exponential, linear increasing and decreasing, and an arbitrary increasing function; up to 6 values',
     'symbolic (sympy) transformations; functions that are not monotonic',
     ['the arbitrary function pair is not assumed to be exactly inverse'])
PS_B = 'scales: linear, coefficient, log, zero log offset, positive and negative log offset'
prop('C19', 'Uniform probabilities: reciprocal length inside, zero outside',
     'Unless told otherwise a random variable is uniformly distributed: evaluating it gives one over the number of members (or the '
     'length of the range, in transformed space if transformed) for every value inside its set and zero (a log of practically minus '
     'infinity on log scales) for every other one, consistently with which limits are exclusive and after the set is changed; an '
     'explicit constant probability takes the place of that density. Over a whole finite set the probabilities sum to one.',
     ['inputs', 'configurations'], 'every pair of limits, inclusivity, tested values, transformation and scale',
     'Tests sample one or two ranges with values that are mostly inside.',
     [RV, RU, VA], [('RV.set_default_prob, eval_prob, __call__', 'rv.py'), ('uniform_prob', 'rv_utils.py')],
     FORM_B + '; ' + PS_B + '; arrays of 1-3 values; linear and arbitrary increasing transformations; 5 integer sets',
     'larger arrays and other integer sets')
prop('C20', 'Bernoulli variables give p to True and 1-p to False',
     'A boolean variable with probability p assigns p to True and 1 - p to False on whichever scale the probability was given, for '
     'single values, arrays and the default evaluation over both, including p of exactly zero or one, and again after it is set anew.',
     ['inputs', 'configurations'], 'every p from 0 to 1, scale and combination of values',
     'Tests use one value of p on one scale.',
     [RV, SY, PR, EX], [('RV.set_prob', 'rv.py'), ('bernoulli_prob', 'sympy_prob.py')],
     PS_B + '; p in [0,1] except within 1e-4 of a half (which the code may round to a half); up to three values',
     'larger arrays', ['sympy expressions are evaluated exactly (reals for doubles)'])
prop('C22', 'Transitions look up, evaluate and sample p(successor | predecessor)',
     'Stepping a variable with a declared transition gives, for every predecessor and successor value, exactly the declared conditional '
     'probability: the entry of the transition matrix (columns predecessors, rows successors, both ordered by value), the value of the '
     'transition function with its arguments mapped by the declared order or difference, or the constant if both values are in '
     'the set and zero otherwise; the second of two transitions applies in reverse. Sampled successors are those that the cumulative '
     'probabilities select and carry their own conditional probability. Successors lie along the first axis, predecessors along the next.',
     ['inputs', 'configurations'], 'every transition matrix or function, value, random draw and scale',
     'Only examples exercise transitions; tests do not.',
     [RV, RU, EX], [('RV.set_tran, set_tfun, eval_step, eval_tran, step', 'rv.py'), ('matrix_cond_sample, lookup_square_matrix, uniform_prob', 'rv_utils.py'),
                    ('Expression._call', 'expression.py')],
     'sets of 2-5 values, up to two predecessors by three successors; ' + PS_B, 'larger sets; undeclared (default) transitions')
RF_, RFU, FI, SD_, SDU, DE, OP = ('probayes/rf.py', 'probayes/rf_utils.py', 'probayes/field.py', 'probayes/sd.py', 'probayes/sd_utils.py',
                                  'probayes/dependence.py', 'probayes/ops.py')
prop('C23', 'Fields multiply independent probabilities, one axis per variable',
     'Evaluating a field of random variables gives, at every combination of the given values, the product of the probabilities of each '
     'variable (zero as soon as one value lies outside its set) whichever scales they and the field use, with one axis per '
     'array-valued variable in the order of the field and one shared axis for values given jointly; over whole finite sets it '
     'sums to one. A joint function or multivariate density set for the field is evaluated at exactly those values, its components in '
     'the order of the variables; identically distributed values multiply; proposals carry primed names and their own probability.',
     ['inputs', 'configurations'], 'every value, scale combination, probability function, axis arrangement and calling form',
     'No test calls a field; examples only run.',
     [RF_, RFU, FI, RV, PR], [('RF.set_prob, eval_prob, __call__, propose, _eval_iid', 'rf.py'), ('rv_prod_rule', 'rf_utils.py'),
                              ('Field.parse_args, evaluate', 'field.py'), ('Prob.eval_prob', 'prob.py')],
     'one to four variables (float, integer, boolean, arbitrary function), up to three values each; ' + PS_B,
     'larger fields and arrays')
prop('C24', 'Dependences evaluate conditionals, joints, naive products and posteriors',
     'A dependence of leafs on roots has exactly those leafs, roots and edges, however it is declared (operators, fields or '
     'several arguments). Evaluating it gives, at every combination of values, the declared conditional probability with leafs '
     'marginal and roots conditioning; with joint=True that times the prior of the roots, once; with iid=True the product over the '
     'observations for each condition. Dependences with common leafs combine to the product of their conditionals, and '
     'conditionalising a joint gives Bayes posterior. All of it holds whichever scale each of them uses.',
     ['inputs', 'configurations'], 'every value, conditional probability function (uninterpreted), prior, scale combination and axis arrangement',
     'Tests never evaluate a dependence; examples only run.',
     [SD_, SDU, DE, OP, RF_, RV, FI], [('SD.set_prob, __call__', 'sd.py'), ('arch_prob', 'sd_utils.py'), ('Dependence.def_deps, _refresh', 'dependence.py'),
      ('and_op, or_op', 'ops.py'), ('RF.eval_prob, _eval_iid', 'rf.py')],
     'two to four variables with up to three values each; ' + PS_B,
     'serial chains (whose value the code defines as that of the last dependence alone); explicit add_deps')
SP_, SPU, CC = 'probayes/sp.py', 'probayes/sp_utils.py', 'probayes/cond_cov.py'
prop('C26', 'Metropolis chains accept with probability min(1, p(new)/p(current))',
     'With Metropolis scores every step of a chain scores the ratio of the probability of the proposal over that of the current '
     'state, at most one, whichever scales the process and its variables use; it is accepted if and only if the score reaches the '
     'uniform threshold, the first proposal unconditionally; proposals start from the last accepted state; each record holds the '
     'current and proposed probabilities at the values they belong to, and the state (v) is the proposal if accepted and the current '
     'state otherwise. The same holds for unnormalised posteriors of parameters given data.',
     ['inputs', 'histories', 'configurations'], 'every density (uninterpreted), start, move, threshold draw, scale and history of decisions',
     'No test runs a sampler; a chain converging slightly wrongly looks like any other.',
     [SP_, SPU, SD_, RF_, FI], [('SP.next, set_scores, set_thresh, set_update', 'sp.py'), ('metropolis_scores, metropolis_thresh, metropolis_update', 'sp_utils.py'),
      ('SD.sample, _sample_tran', 'sd.py'), ('RF.step', 'rf.py')],
     'chains of up to 4 steps (5 thorough) over one or two variables; one or two observations; ' + PS_B + '; densities in [0.05,1] or zero',
     'longer chains', ['threshold draws are arbitrary values in [0,1)'])
prop('C27', 'Hastings chains correct for asymmetric proposals',
     'With Hastings scores the acceptance probability is min(1, p(new) q(current|new) / (p(current) q(new|current))), where the second '
     'of the two transition functions declared gives the reverse probability q(current|new) of the very same pair of states, and the '
     'Metropolis ratio if a single symmetric one is declared, on every scale. A process of one variable follows the transitions declared '
     'for that variable, the entries of an asymmetric matrix serving both directions.',
     ['inputs', 'histories', 'configurations'], 'every density and pair of proposal functions (uninterpreted), start, move, draw and scale',
     'No test runs a sampler.',
     [SP_, SPU, SD_, RF_], [('hastings_scores', 'sp_utils.py'), ('RF.reval_tran, eval_tran, step', 'rf.py'), ('SD._sample_tran', 'sd.py')],
     'chains of up to 3 steps over one or two variables; ' + PS_B + '; densities in [0.05,1] or zero', 'longer chains',
     ['threshold draws are arbitrary values in [0,1)'])
prop('C28', 'Samplers walk exactly as far as asked and keep their own state',
     'A sampler with a stop yields that many samples, then resets and ends; walking an endless sampler in pieces draws exactly the steps '
     'asked for and yields one unbroken chain; samplers of the same process never disturb each other; counters and last accepted '
     'samples follow each step; refused proposals leave the state as it was; resetting starts from the initial values again. '
     'Summaries list scores, thresholds, updates and values of every sample not refused (update False), in order. Proposal densities '
     'are evaluated at the values proposed, which are the values the probability is evaluated at.',
     ['inputs', 'histories', 'configurations'], 'every start, move, decision history and interleaving of samplers',
     'No test runs a sampler.',
     [SP_, SPU, SD_, RF_, 'probayes/pd_utils.py'], [('SP.next, sampler, walk, reset, __call__', 'sp.py'), ('sample_generator', 'sp_utils.py'), ('SD._sample_prop', 'sd.py'),
      ('summate', 'pd_utils.py')],
     'up to 5 steps, two samplers', 'longer histories')
prop('C25', 'Fields step every variable by the deltas declared',
     'Stepping a field adds to each variable the delta declared for it, however it is declared: one number, a list of signed '
     'uniform bounds, a dictionary per variable, a Delta object, a function, or a triangular matrix that correlates independent '
     'deltas. scale=True multiplies by the length of each variable except where overridden; a spherical delta (tuple) has exactly that '
     'norm; bounded deltas never leave the sets of the variables; explicitly given deltas take precedence over defaults; the transition '
     'probability is evaluated at exactly the predecessor and the successor. Subfields and one-variable fields keep the deltas of '
     'their variables.',
     ['inputs', 'configurations'], 'every value, delta, limit, random draw and form of delta',
     'Tests never step a field; examples only run.',
     [FI, RF_, VA, VU, SD_], [('Field.set_delta, eval_delta, apply_delta, subfield', 'field.py'), ('RF.step, set_tran, eval_step', 'rf.py'),
                              ('Variable.apply_delta', 'variable.py')],
     'one to three variables with arbitrary limits (open, closed or half-open), one or two values each',
     'scaled spherical deltas; larger fields', ['random draws are arbitrary values within the bounds the code asks for'])
prop('C29', 'Gibbs steps sample each variable from its conditional given the others',
     'A step of a field with a conditional sampling function, or with multivariate normal transitions, samples the variables one after '
     'another in the order of the field, or as many at a time as asked cyclically, each given the present values of all the others '
     'including those just sampled; the rest stay as they are. Normal conditionals have the regression mean and the '
     'conditional variance of the covariance given, and a draw u gives the value at the u-th part of the conditional probability '
     'between the limits of the variable, which it never leaves. Every step of a Gibbs chain is accepted and records the probability '
     'of its values, with parameters given data too.',
     ['inputs', 'histories', 'configurations'], 'every mean, covariance, limit, value, draw and conditional function; any order values are given in',
     'No test samples conditionally; a chain from slightly wrong conditionals looks like any other.',
     [CC, RF_, RFU, SP_, SPU, SD_], [('CondCov.__init__, interp', 'cond_cov.py'), ('sample_cond_cov', 'rf_utils.py'),
                                    ('RF.set_tran, set_tfun, eval_tfun, eval_step, step', 'rf.py'), ('gibbs_*', 'sp_utils.py')],
     'two or three variables (three: covariances proportional to a fixed one), up to 4 steps; the normal law is any increasing distribution '
     'function with its inverse', 'explicit conditionals (input dictionaries), which set_tfun does not accept',
     ['draws are arbitrary values in [0,1)'])
EXP, FUN, FUU, EXR = 'probayes/expression.py', 'probayes/functional.py', 'probayes/functional_utils.py', 'probayes/expr.py'
prop('C30', 'Expressions bind arguments as declared',
     'A function wrapped in an expression is called once per call with exactly the values given: positional, keywords or a dictionary, '
     'after default arguments declared with it; order moves each named value to its position or new name (names may be exchanged) and drops '
     'those mapped to None, delta passes differences of primed and unprimed values, whatever the signature. Tuples and dictionaries of '
     'functions are called by index (-1 the last) or key, and values in place of functions returned. Symbolic expressions take values by '
     'name, symbol or position in order of names, whatever the assumptions and names of the symbols; invertible ones invert exactly. '
     'Contradictory declarations are refused.',
     ['inputs', 'configurations'], 'every value and mapping of three arguments to positions and names',
     'Tests try a handful of one-argument functions at one value and no mapping.',
     [EXP, EXR, 'probayes/func.py', PR], [('Expression.set_expr, set_order, set_delta, _set_partials, _call', 'expression.py'),
                                          ('Expr.__call__, collate_symbols', 'expr.py'), ('Func._call', 'func.py')],
     'three arguments; up to two functions; expressions in one or two symbols (polynomial, rational, log, exp)', 'other sympy functions')
prop('C31', 'Functionals evaluate each output from its own inputs',
     'Each function of a functional is found by its output, by name, object or several of them, and evaluates to its own expression or '
     'function of exactly the inputs it depends on; other inputs may be given or not and are not passed on, other functions are not called. '
     'Dependences of symbolic functions are those of their symbols; the output variable then stands for its expression. Outputs '
     'declared twice, mixtures and unknown variables are refused.',
     ['inputs', 'configurations'], 'every value and form of declaration and call', 'Tests try two one-symbol expressions at one value.',
     [FUN, FUU, EXP, VA], [('Functional.add_func, _set_partials, __getitem__', 'functional.py'), ('parse_identifiers', 'functional_utils.py'),
                           ('Variable.dexpr', 'variable.py')],
     'up to three outputs and three inputs', 'functionals of dependences (Dependence.add_func), which are unfinished in the code')
prop('C32', 'Frequency tables count observations and look up by value',
     'The counts of boolean observations are, for every combination of values, the number of observations with that combination; relative '
     'frequencies add the baseline to every count and sum to one. The function returned gives the frequency at any mixture of given and '
     'free labels, in whatever order the variables are declared, alone or as the probability of a joint or dependent field. Slicing '
     'probabilities by values selects those at matching values and nothing where a value is absent, and refuses other keys or values. '
     'Integers and binary digits convert both ways.',
     ['inputs', 'configurations'], 'every table of observations, baseline, probability table and value within the bounds',
     'One example uses it with random observations and asserts nothing.',
     ['probayes/likelihoods.py', RFU, RF_, FI], [('bool_perm_freq, int_to_bin, bin_to_int', 'likelihoods.py'), ('slice_by_keyvals', 'rf_utils.py'),
                                                ('RF.eval_prob (passdims)', 'rf.py')],
     'up to 3 rows and 3 columns of observations; probability tables up to 2x3x2', 'duplicate values to slice by; larger tables')
prop('C34', 'Fields hold their variables by name and evaluate them jointly',
     'A field holds the variables it is given, in that order and whatever form they are given in, one of each name: another of the same name '
     'is refused, as is anything but a variable or a random variable in a field of others. They are found by name or position; fields of '
     'the same names are equal; the length of a field is the Euclidean norm of theirs. A call of a field without probabilities gives '
     'exactly its variables with the values given or requested, each on an axis of its own unless a scalar, in the order of the field whatever '
     'the order they are given in; variables given jointly share one axis, which is then no other variable\'s, even if one of them is a scalar.',
     ['inputs', 'configurations'], 'every limit and value, every form of building a field and of asking for values within the bounds',
     'No test calls a field of variables without probabilities.',
     [FI, VA, 'probayes/variable_utils.py', 'probayes/ops.py'],
     [('Field.set_vars, add_var, _refresh, parse_args, evaluate, __call__, __getitem__, __eq__', 'field.py'), ('Variable.evaluate', 'variable.py'),
      ('and_op', 'ops.py')],
     'two or three variables, up to four values each', 'fields of dependences')
prop('C33', 'Distribution objects act as their own density, cumulative law and sampler',
     'A probability set from a scipy or sympy distribution gives, at every value and whatever the form it is given in, the density (or mass) '
     'of that distribution with the declared parameters, and its logarithm on log scales, also for joint distributions of several symbols in '
     'fields and dependences. Its cumulative function and inverse, and those set explicitly, keep those parameters; asking the variable for n or -n values '
     'gives values whose cumulative probabilities are evenly spaced, or drawn uniformly, between those of the limits; samples are drawn '
     'from that distribution. For symbolic distributions the log density is the log of the density and the inverse undoes the '
     'cumulative function. Integer variables take their members.',
     ['inputs', 'configurations'], 'every value, parameter, limit pair, cumulative function (uninterpreted) and draw',
     'Tests evaluate the normal and binomial distributions at fixed values with fixed parameters.',
     [PR, SY, RV, EX, EXR], [('Prob.set_prob, _set_partials, eval_prob, set_pfun, set_sfun', 'prob.py'), ('SympyProb.distr', 'sympy_prob.py'),
                             ('RV.evaluate, set_pfun', 'rv.py'), ('Expression._partial_call', 'expression.py')],
     'linear and logarithmic scales; two parameters; up to three values; sympy distributions: normal, exponential, uniform, logistic, Laplace, '
     'Pareto, Rayleigh, Gumbel and discrete ones', 'other sympy distributions; coefficients and log offsets together with distribution objects')
