""" Source of properties.jsonl, MANIFEST.json and symx/meta.py's bounds.
Run `python3 tools/props.py` after editing; the outputs are committed. """
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REALS = 'all real probabilities in (0,1] (some cells also exactly 0) '
P = {}


def prop(id, title, statement, over, text, why, files, mech, bounds, outside, assume=(), design=''):
  P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files,
               mech=mech, bounds=bounds, outside=outside, assume=list(assume), design=design)


PD, PU, PS, DI = ('probayes/pd.py', 'probayes/pd_utils.py', 'probayes/pscales.py', 'probayes/distribution.py')
SCALE_B = 'scales: linear 1.0, linear coefficient 2.5, log, log with offset +0.75, log with offset -0.75'
SHAPE_B = 'up to 3 axes of length up to 3, variables in any axis order, with singletons and variables sharing an axis'

prop('C01', 'Marginals obey the sum rule',
     'Marginalising variables out of a joint distribution gives, for every combination of values of the remaining '
     'variables, the sum of the joint probabilities over the removed variables, on whatever probability scale it is '
     'stored. Variables, values, axes and the marginal/conditional split of the result stay aligned with the '
     'probabilities, and the operand is unchanged.',
     ['inputs', 'configurations'], 'every probability table and every axis order, shared axis, singleton and scale within the bounds',
     'Tests marginalise a few uniform tables whose axes are in key order on the linear scale.',
     [PD, PS], [('PD.marginalise', 'pd.py marginalise()'), ('PD.marginal', 'pd.py marginal()'), ('sum_prob', 'pscales.py')],
     SHAPE_B + '; ' + REALS + '; ' + SCALE_B, 'larger tables; rounding; removing all variables')
prop('C02', 'Conditioning obeys the chain rule',
     'Conditioning a joint distribution on some of its variables gives probabilities whose product with the marginal '
     'of those variables is the joint, for every combination of values and on every scale. Each slice of the result '
     'for fixed conditions sums to one.',
     ['inputs', 'configurations'], 'every probability table with positive mass, every subset of variables and axis order within the bounds',
     'Tests condition uniform or symmetric tables where misaligned axes are invisible.',
     [PD, PS], [('PD.conditionalise', 'pd.py conditionalise()'), ('div_prob', 'pscales.py')],
     SHAPE_B + '; ' + REALS + '; ' + SCALE_B, 'larger tables; rounding; conditioning on events of zero mass')
prop('C03', 'Products of distributions multiply matching values',
     'The product of distributions holds, for every combination of values, the product of the operand probabilities at '
     'those values, whichever axes the operands store them on and whichever scales they use. A condition that is '
     'another operand\'s marginal becomes marginal, other conditions stay conditions, a requested scale is honoured, and '
     'incompatible operands are refused.',
     ['inputs', 'configurations'], 'every pair or triple of tables, axis order and scale combination within the bounds',
     'Tests multiply a few aligned tables on one scale.',
     [PU, PS, PD], [('product', 'pd_utils.py product()'), ('prod_rule, prod_pscale', 'pscales.py')],
     '2 or 3 operands over up to 3 axes of length up to 3; ' + REALS + '; ' + SCALE_B, 'larger tables; rounding')
prop('C04', 'Division inverts multiplication (Bayes rule)',
     'Dividing a joint distribution by a marginal of it gives the conditional, with values and axes aligned whatever '
     'order each operand stores them in, so that multiplying back returns the joint. Incompatible divisors are refused.',
     ['inputs', 'configurations'], 'every joint table, divisor layout and scale combination within the bounds',
     'Tests divide tables whose axes happen to line up.',
     [PD, PS], [('PD.__truediv__', 'pd.py'), ('div_prob', 'pscales.py')],
     SHAPE_B + '; ' + REALS + '; ' + SCALE_B, 'larger tables; rounding; divisors below 1e-300')
prop('C05', 'Scale conversions preserve the probability',
     'Converting probabilities between linear and logarithmic scales, with any coefficient or offset, keeps the '
     'probability they denote; converting there and back returns the original; scale factors of products combine to '
     'the scale of the product. Zero probabilities become the documented most-negative log probability and back.',
     ['inputs'], 'every probability, coefficient and offset within the bounds, scalars and arrays',
     'Tests convert a handful of numbers between two scales.',
     [PS], [('rescale, log_prob, exp_logp, logp_offs, prob_coef, prod_pscale, prod_rule, div_prob', 'pscales.py')],
     'scalars and arrays up to 2x2; symbolic coefficients in (0.01,100) and offsets in (-5,5)', 'rounding; overflow beyond 1e300')
prop('C06', 'Log-scale results survive very small probabilities',
     'On a log scale, adding a constant to all log probabilities (including constants so negative that the linear '
     'probabilities are not representable) shifts marginals by that constant and leaves conditionals, quotients, expectations '
     'and quantiles unchanged; nothing underflows to zero or fails.',
     ['inputs'], 'every log-probability table and every shift within the bounds, with machine underflow of exp modelled',
     'Tests use log probabilities of moderate size only.',
     [PS, PD], [('sum_prob, rel_prob, div_prob', 'pscales.py'), ('PD.marginalise, conditionalise, expectation, quantile', 'pd.py')],
     'tables up to 2x2 and 3; log probabilities within +-20 of a shift in [-5000, 0]; exp underflows below -745', 'rounding within the representable range')
prop('C07', 'Expectations are probability-weighted means',
     'The expectation of a variable is the mean of its values (or of a given power of them) weighted by the normalised '
     'probabilities, separately for every combination of conditions, whatever the scale, axis order or overall '
     'normalisation. Singletons keep their value and conditions are returned unchanged.',
     ['inputs', 'configurations'], 'every table, value and layout within the bounds',
     'Tests take expectations of uniform tables on one axis.',
     [PD, PS], [('PD.expectation', 'pd.py expectation()')],
     SHAPE_B + '; values in [-5,5]; powers 1-3; ' + SCALE_B, 'larger tables; rounding')
prop('C08', 'Quantiles lie where the cumulative probability says',
     'A quantile of a distribution lies between the adjacent values at which the cumulative normalised probability '
     'brackets the requested fraction, whatever the overall normalisation and scale; singletons return their value, and values in no order only their number.',
     ['inputs'], 'every probability table, ascending values and fraction within the bounds',
     'Tests take medians of uniform tables.',
     [PD, PS], [('PD.quantile', 'pd.py quantile()')],
     'one axis up to 4 values and two axes up to 2x3; ' + SCALE_B, 'larger tables; rounding; the interpolation formula inside a bracket')
prop('C09', 'Slicing by value selects exactly the matching entries',
     'Asking a distribution for given values of some variables returns exactly the entries carrying those values, with '
     'every other variable, axis and probability still aligned, and with the sliced axes dropped unless they are to be '
     'kept or match several entries. Unknown variables and non-scalar requests are refused and the operand is unchanged.',
     ['inputs', 'configurations'], 'every table, layout and request within the bounds, including symbolic values that may coincide',
     'Tests slice one or two small distributions by one variable.',
     [PD], [('PD.__call__', 'pd.py')], SHAPE_B + '; up to 3 symbolic values that may repeat', 'larger tables')
prop('C10', 'Sorting, re-axing, renaming and rescaling keep the distribution',
     'Sorting by a variable, reassigning axes, renaming variables, changing scale and looking variables up never change '
     'which probability belongs to which combination of values. Sorting puts the chosen values in ascending order, '
     'reassigned axes are those asked for, and renaming onto an existing variable is refused.',
     ['inputs', 'configurations'], 'every table, value order, axis permutation and scale within the bounds',
     'Tests sort one distribution; axis reassignment of distributions with probabilities is untested.',
     [PD, DI], [('PD.sorted, redim, rekey, rescaled', 'pd.py'), ('Distribution.lookup, redim, rekey, singleton', 'distribution.py')],
     SHAPE_B + '; up to 3 symbolic distinct values; ' + SCALE_B, 'larger tables; ties when sorting')
prop('C11', 'Aggregating distributions keeps every sample once',
     'Adding up single samples gives a list with every sample\'s values and probability once and in order; adding '
     'distributions over different ranges of one variable joins them along that variable with everything else aligned. '
     'Distributions that differ in scale, in variables or along more than one axis are refused.',
     ['inputs', 'histories'], 'every sequence of up to 6 samples or 3 distributions within the bounds',
     'Tests only add up samples; joining distributions is untested.',
     [PU, PD], [('summate', 'pd_utils.py summate()'), ('PD.__add__', 'pd.py')],
     '1-6 samples of up to 5 variables; 2-3 distributions of up to 3 axes; ' + SCALE_B, 'more samples; larger tables')
prop('C12', 'Redistribution over new marginals conserves probability',
     'Redistributing a distribution over new variables puts each probability into the bin that its new values fall '
     'into (outer bins taking what lies beyond them), so that every bin holds the sum of what belongs to it and nothing is lost or counted twice. '
     'Conditions, their values and the scale are kept.',
     ['inputs', 'configurations'], 'every table and every assignment of new values to bins within the bounds',
     'No test exercises it.',
     [PD], [('PD.remarginalise', 'pd.py remarginalise()')],
     'up to 4 entries, up to 3 bins per new variable, up to 2 new variables, conditions singleton or on an axis; ' + SCALE_B,
     'larger tables; unsorted bin edges')
prop('C13', 'Distributions are well formed or refused',
     'A distribution is built only if values, axes, name and probabilities fit together: each variable lies along its '
     'own axis, variables sharing an axis have equal length, the shape is that of the axes, and probabilities have that '
     'shape. Anything else is refused, and the caller\'s data are not changed.',
     ['inputs', 'configurations'], 'every assignment of sizes and axes to up to 3 variables and every probability shape within the bounds',
     'Tests construct a few well-formed distributions.',
     [DI, PD, PU], [('Distribution.dims', 'distribution.py'), ('PD.prob, PD.dims, PD.name', 'pd.py'), ('str_margcond', 'pd_utils.py')],
     'up to 3 variables, sizes 1-3, axes 0-2 or none; probability arrays of rank 0-3 and length 1-3', 'larger layouts')
prop('C14', 'Persisted distributions come back as they were',
     'Writing distributions to a file and reading them back, or serialising and deserialising them, returns the same '
     'variables, values, axes, conditions, probabilities and scale, for several distributions and auxiliary arrays in one file. '
     'Writing does not alter the distribution being written, which remains usable.',
     ['inputs', 'configurations', 'histories'], 'every table, layout and scale within the bounds',
     'No test exercises reading or writing files.',
     [PU, DI, PD], [('serialise, deserialise, write_serialised, read_serialised, write_dist, read_dist', 'pd_utils.py'),
                    ('serialise', 'distribution.py, pd.py')],
     SHAPE_B + '; ' + SCALE_B + '; up to 4 distributions per file', 'file corruption, concurrent access; order of the distributions in a file; '
     'two distributions of the same name in one file',
     ['h5py is replaced by an in-memory model (groups, datasets, attributes, name-ordered iteration) during symbolic execution; every '
      'explored path is also replayed on the real h5py'])
prop('C21', 'Products over independent samples multiply all of them',
     'The product of a distribution along the axis of independent samples is the product of their probabilities for '
     'every combination of the other variables, on every scale, and is labelled by the number of samples. Products of such sample sets add '
     'their counts and multiply their probabilities, and sets under different conditions are refused.',
     ['inputs', 'configurations'], 'every table, axis order and scale within the bounds',
     'Tests take the product of one axis on a unit scale.',
     [PD, PU], [('PD.prod', 'pd.py prod()'), ('product', 'pd_utils.py product()')],
     SHAPE_B + '; ' + SCALE_B + '; 2-3 sample sets', 'larger tables; rounding')

NA = {}


def load():
  import importlib.util
  d = os.path.join(HERE, 'tools')
  for f in sorted(os.listdir(d)):
    if f.startswith('props_') and f.endswith('.py'):
      src = open(os.path.join(d, f)).read()
      exec(compile(src, f, 'exec'), globals())


def main():
  load()
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for i in sorted(P):
      p = P[i]
      assert len(p['title']) <= 80, p['title']
      f.write(json.dumps({
          'id': i, 'title': p['title'], 'statement': p['statement'],
          'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
          'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
  tech = ('solver-based checking: the current source is executed symbolically (AST-instrumented import of /repo/probayes), '
          'z3 decides every branch and obligation for all values within the bounds; counterexamples are replayed on the real code')
  man = {'version': 1,
         'setup_cmd': 'python3 run_check.py --selftest',
         'checks': [{'property': i, 'quick_cmd': 'python3 run_check.py {} --tier quick'.format(i),
                     'thorough_cmd': 'python3 run_check.py {} --tier thorough'.format(i),
                     'technique': tech, 'level': 'model_checking',
                     'level_note': 'bounded: ' + P[i]['bounds'] + '. Outside: ' + P[i]['outside'] + '.',
                     'evidence_file': 'evidence/{}.json'.format(i)} for i in sorted(P) if i not in NA],
         'not_applicable': [{'property': i, 'reason': r} for i, r in sorted(NA.items())],
         'notes': 'Engine in symx/, scenarios in checks/, driver run_check.py; see DESIGN.md.'}
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
  with open(os.path.join(HERE, 'symx', 'meta.json'), 'w') as f:
    json.dump({i: {'bounds': P[i]['bounds'], 'outside': P[i]['outside'], 'assumptions': P[i]['assume']} for i in sorted(P)}, f, indent=1)
    f.write('\n')


if __name__ == '__main__':
  main()
