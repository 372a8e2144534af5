""" What each check specifies and against what oracle """
NOTES = {
 'C01': 'every cell of the table is a symbolic probability; `PD.marginalise/marginal` run and every cell of the result (looked up by the values of the remaining '
        'variables, not by position) must equal the sum of the operand cells with those values. Names, dims and values are compared with the declared ones. '
        'Tests cannot reach it because aligned, symmetric tables hide permuted axes.',
 'C02': 'each cell of the conditional times the summed denominator must equal the joint cell; slices must sum to one; chains of conditionalise and product return the operand.',
 'C03': 'oracle: product over operands of the cell matching the values; conditions/marginals by set algebra on the names. The scale of the result must denote the same product, '
        'for symbolic offsets and coefficients.',
 'C04': 'division is checked by multiplying back cell by cell (polynomial identity), plus Bayes rule assembled from prior, likelihood and evidence.',
 'C05': 'conversion between symbolic coefficients and offsets; exp/log are atoms with their axioms (inverse, sum, monotone), so `exp(log p + c) = p e^c` is decided for every p and c.',
 'C06': 'probabilities are represented as e^{u-K} with K arbitrarily large (K symbolic and above any float range): an intermediate whose exponent is unbounded below is flushed to 0 as floats do, and '
        'the result must still be the exact one. Shows log-scale paths never leave the log domain.',
 'C07': 'expected value of each variable = sum of value*probability / sum of probability over symbolic values and probabilities; variables sharing axes and conditionals included.',
 'C08': 'the returned value v is located among symbolic increasing values, and the interpolated cumulative probability at v must equal the quantile; monotone in q.',
 'C09': 'slices by symbolic values: the solver decides which entries match (including repeated and absent values); the result holds exactly those with their probabilities.',
 'C10': 'sorting of symbolic values (z3 decides the order on each path), re-axing by every permutation, renaming and rescaling: the table {values -> probability} is unchanged.',
 'C11': 'the multiset of (values, probability) of the operands is that of the aggregate; incompatible operands raise.',
 'C12': 'the redistributed cell equals joint * new marginal / old marginal; sums over the variable equal the new marginal.',
 'C13': 'layouts/names declared well formed keep value-axis alignment; malformed ones (size, dims, names, parentheses) raise.',
 'C14': 'a model of the HDF5 file (`symx/fakeh5.py`: groups, datasets, attributes; replay uses real h5py) stores what the real writer writes; the real reader must return equal distributions in order.',
 'C15': 'membership/interval arithmetic of symbolic limits (closed/open/infinite), of bool and int sets: `v in set` as evaluated must agree with the declaration for every v.',
 'C16': 'values evaluated for None, {n}, {-n}, scalars and arrays: inside the set, evenly spaced between the limits or drawn uniformly (draws symbolic), discrete sets as multiples.',
 'C17': 'the stepped value equals value+delta in the declared metric for every delta form; bounded steps stay inside for every draw; deltas of sets are within their range.',
 'C18': 'with an arbitrary increasing transform (uninterpreted, with its inverse) spacing and steps are taken in transformed space; log transforms with axioms.',
 'C19': '1/length inside and 0 outside for every interval and value; cardinality for discrete sets; on every scale.',
 'C20': 'p for True, 1-p for False for symbolic p on every scale, arrays and default values.',
 'C21': 'i.i.d. products equal the product over samples of the conditional cell; counts {n} add up.',
 'C22': 'transition matrices, functions and constants: every looked-up/evaluated cell must equal the declared one, sampled successors must lie at the inverse of the cumulative probability.',
 'C23': 'joint probability at symbolic values equals the product of the probabilities of the variables (uninterpreted density functions), with one axis per varying variable; multivariate densities get '
        'their values in declared order (scipy multivariate_normal replaced by an uninterpreted density in symbolic runs).',
 'C24': 'conditionals, naive products, posteriors and chains of dependences against the formula on uninterpreted conditional probability functions.',
 'C25': 'each variable moves by exactly its own delta; linear maps of deltas multiply by the given matrix; bounded variables stay inside.',
 'C26': 'chains of 2-4 proposals with arbitrary draws: accepted iff u < min(1, p(new)/p(current)), states copied exactly.',
 'C27': 'same with q(pred|succ)/q(succ|pred); independence, asymmetric functions, matrices and rejections.',
 'C28': 'walk/next/reset/interleaved samplers: number of draws consumed and the states seen are those of an independently simulated recursion on the same draws.',
 'C29': 'conditional mean and covariance from the symbolic covariance (Schur complement) for every conditioned variable and order; scipy.stats.norm is replaced by an arbitrary increasing law with its inverse.',
 'C30': 'an uninterpreted function records which argument carries which value: arguments must be bound as declared for every order/delta mapping and calling convention; sympy expressions are lambdified on symbolic values.',
 'C31': 'each output of a functional must equal its own expression at its own inputs; functions record their calls.',
 'C32': 'every boolean table within the bounds (each cell a solver variable): counts and frequencies against tallies, smoothing by a symbolic baseline, and slices of symbolic probabilities by symbolic values.',
 'C33': 'scipy.stats objects are given an arbitrary (uninterpreted) density, cumulative function and inverse taking the parameters, so a parameter lost, swapped or put before the value '
        'shows as another application of the function; quantile requests must land at the inverse of evenly spaced or drawn probabilities. Expressions that sympy derives for eleven families are '
        'evaluated on symbolic values (exp/log axioms; erf an arbitrary increasing function with its inverse) against the textbook density, and the inverse must undo the cumulative function.',
}
