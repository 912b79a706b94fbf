"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=['src/jpt/' + f for f in files],
                          mechanism=[dict(name=n, where='src/jpt/' + w) for n, w in mechanism],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where='src/jpt/' + w) for n, m, w in state]
    P.append(d)


prop('C01', 'Interval and real-set operations agree with point-set semantics',
     'For every pair of intervals or unions of intervals, the results of union, intersection, difference, complement, '
     'simplification and chopping contain exactly the real numbers that the set-theoretic operation prescribes, in every '
     'combination of open, closed, degenerate and unbounded ends. The predicates for membership, containment (of non-empty sets), '
     'intersection, disjointness, emptiness and equality answer exactly as the corresponding statements about the two '
     'point sets, and simplification yields pairwise disjoint, non-adjacent, sorted parts.',
     ['inputs', 'histories'],
     'all pairs of interval/real-set values, and all sequences of set operations applied to previous results',
     'The tests fix a few dozen pairs; the end types (open/closed), touching ends, unbounded ends and the internal '
     'decomposition of a union multiply to far more cases than they sample, and results are re-used as operands.',
     ['base/intervals.pyx'],
     [('RealSet.simplify/union/intersection/difference/complement', 'base/intervals.pyx'),
      ('ContinuousSet.union/intersection/difference/complement/contains_interval/intersects', 'base/intervals.pyx')],
     ['ContinuousSet', 'RealSet'])

prop('C02', 'Set values are immutable, extensionally equal, and survive serialization',
     'No set operation changes its operands or the shared constants, so a set means the same before and after it was '
     'used. Two sets holding the same points compare equal and, being equal, have equal hashes, whatever their '
     'notation or decomposition; parsing the printed form, JSON, pickling and copying return an equal set, and '
     'modifying a copy never affects the original.',
     ['inputs', 'histories'],
     'all set values over a finite endpoint alphabet and all operation sequences up to the explored depth',
     'Aliasing shows only when an operand is looked at again after another operation on it; tests look at the result.',
     ['base/intervals.pyx'],
     [('copying constructors, __eq__/__hash__, to_json/from_json, parse/pfmt', 'base/intervals.pyx')],
     ['ContinuousSet', 'RealSet', 'EMPTY', 'R'])

prop('C03', 'Arithmetic on piecewise functions is pointwise',
     'For any two piecewise functions and scalars, the sum, difference, product, maximum, minimum and scaling evaluate at every '
     'point to the same operation applied to the values of the operands there, undefined exactly where an operand is '
     'undefined. Comparison against a threshold returns exactly the set of points where it holds, differentiation and '
     'integration are inverse up to constants, and none of these operations changes its operands.',
     ['inputs', 'histories'],
     'all pairs of piecewise functions over a small alphabet of breakpoints and coefficients; sequences of operations',
     'Breakpoints of both operands interleave in many orders, with touching, missing and unbounded pieces; tests check '
     'a few hand-made pairs against literal results.',
     ['base/functions.pyx'],
     [('PiecewiseFunction.add/mul/__sub__/maximum/minimum/eq/lt/gt/differentiate/integrate', 'base/functions.pyx')],
     ['PiecewiseFunction.eval/at'])

prop('C04', 'Restructuring a piecewise function preserves its values',
     'Cropping, splitting, overwriting, stretching, shifting, mirroring, rounding off redundant pieces, copying and '
     'serializing a piecewise function yield a function whose pieces are disjoint and ordered and whose value at every '
     'point is the one the operation prescribes in terms of the original function. Scalar evaluation, vectorized evaluation and '
     'piece lookup agree at every point, including points outside the domain and on breakpoints.',
     ['inputs', 'histories'],
     'all piecewise functions over a small alphabet, all positions relative to their breakpoints, operation sequences',
     'Off-by-one-piece errors appear only for particular positions relative to breakpoints and for particular domains.',
     ['base/functions.pyx'],
     [('crop/split/overwrite_at/stretch/xshift/xmirror/simplify/copy/to_json/multi_eval/idx_at', 'base/functions.pyx')],
     ['PiecewiseFunction'])

prop('C05', 'Learned numeric distributions are valid and faithful to the data',
     'For every data sample, the learned cumulative distribution is non-decreasing, is 0 left of the smallest and 1 '
     'right of the largest observation, and with vanishing approximation tolerance passes through the empirical '
     'distribution of the observations. The density is non-negative and consistent with the cumulative distribution, '
     'the quantile function is its inverse, and neither the order of the observations nor the choice of rows outside the sample '
     'influences the result.',
     ['inputs', 'configurations'],
     'all samples of up to a bounded size over a small value grid (with ties), all row subsets, several precisions',
     'Ties, single observations, sub-selections of rows and approximation tolerance interact; tests fit a handful of samples.',
     ['distributions/quantile/quantiles.pyx', 'distributions/quantile/cdfreg.pyx', 'distributions/univariate/numeric.py'],
     [('QuantileDistribution.fit', 'distributions/quantile/quantiles.pyx'), ('CDFRegressor.fit', 'distributions/quantile/cdfreg.pyx')],
     ['Numeric.fit/cdf/pdf/ppf'])

prop('C06', 'Restricting a univariate distribution is Bayesian conditioning',
     'Restricting a numeric, integer or symbolic distribution to an event of positive probability yields the distribution '
     'that assigns to every event B the probability of the intersection of B with the event, divided by the probability of the event. '
     'Restricting to an impossible event is reported as unsatisfiable, and the original distribution is never changed.',
     ['inputs', 'histories'],
     'all distributions fitted to bounded samples, all events over an alphabet of intervals, unions and label sets',
     'Tests crop a few distributions at a few places; unions of intervals, events at the support boundary and repeated '
     'restriction are sampled at best.',
     ['distributions/univariate/numeric.py', 'distributions/univariate/integer.py',
      'distributions/univariate/multinomial.py', 'distributions/quantile/quantiles.pyx'],
     [('Numeric.crop', 'distributions/univariate/numeric.py'), ('QuantileDistribution.crop', 'distributions/quantile/quantiles.pyx'),
      ('Integer.crop', 'distributions/univariate/integer.py'), ('Multinomial.crop', 'distributions/univariate/multinomial.py')],
     ['Distribution.crop', 'Distribution.p'])

prop('C07', 'Merging distributions yields the weighted mixture',
     'Merging distributions of one domain with weights that sum to one gives, for every event, the weighted sum of the '
     'events\' probabilities under the parts, for numeric (continuous and point-mass), integer and symbolic domains alike. '
     'The merged distribution is again normalized, does not depend on the order of the parts, and the parts are unchanged; '
     'weights that do not sum to one are refused.',
     ['inputs'],
     'all tuples of up to three distributions over a small alphabet with all weight vectors over a small grid',
     'The sweep over breakpoints has special cases for ties, jumps and zero weights which only particular combinations of parts reach.',
     ['distributions/quantile/quantiles.pyx', 'distributions/univariate/numeric.py',
      'distributions/univariate/integer.py', 'distributions/univariate/multinomial.py'],
     [('QuantileDistribution.merge', 'distributions/quantile/quantiles.pyx'),
      ('Multinomial.merge/update', 'distributions/univariate/multinomial.py'),
      ('Integer.merge', 'distributions/univariate/integer.py')],
     ['Distribution.merge', 'Distribution.update'])

prop('C08', 'Univariate statistics agree with the distribution\'s own probabilities',
     'Expectation, variance and moments of a numeric or integer distribution equal those computed from its density or '
     'probabilities, in the units of the user\'s data. The most probable states are exactly the maximizers of the density or '
     'probability, and the k most probable states are listed without duplicates in strictly decreasing order of probability '
     'and, taken together, cover the whole support.',
     ['inputs'],
     'all distributions fitted to bounded samples over small alphabets, including scaled domains and point masses',
     'Units, ties between states and degenerate distributions multiply; tests check literal values of a few.',
     ['distributions/univariate/numeric.py', 'distributions/univariate/integer.py', 'distributions/univariate/multinomial.py'],
     [('expectation/variance/moment/mpe/k_mpe', 'distributions/univariate/')],
     ['Distribution.expectation/variance/moment/mpe/k_mpe'])

prop('C09', 'Internal values and user-facing labels translate without loss',
     'For every domain type, converting a label, a set of labels or an interval to its internal representation and back '
     'returns the same object, distinct labels stay distinct, and an element lies in a set before translation exactly if it does after. '
     'Every user-facing answer of a distribution equals the internal answer for the translated arguments, so scaling a numeric '
     'domain or re-ordering its labels never changes a probability.',
     ['inputs', 'configurations'],
     'all label sets up to a bounded size in every order, all scalings over a small grid, all sets and intervals over them',
     'Tests use naturally ordered labels starting at simple values; offsets, negative bounds and unordered labels are rarely combined with set-valued queries.',
     ['distributions/utils.py', 'distributions/univariate/numeric.py', 'distributions/univariate/integer.py',
      'distributions/univariate/multinomial.py', 'variables.py'],
     [('label2value/value2label', 'distributions/univariate/'), ('DataScaler/OrderedDictProxy', 'distributions/utils.py'),
      ('label_assignment/value_assignment', 'variables.py')],
     ['Distribution.label2value/value2label', 'LabelAssignment', 'ValueAssignment'])

prop('C10', 'A learned tree partitions the data and describes each part exactly',
     'For every training set and hyper-parameter choice, the regions of the leaves are disjoint and cover the whole value space, '
     'each training row lies in exactly one of them, and a leaf\'s weight is the fraction of the rows in it while its symbolic and integer '
     'distributions are the relative frequencies of these rows. No leaf has fewer rows than the required minimum (unless it is the root), '
     'none is deeper than the maximal depth, splits occur only on feature variables, and learning neither depends on the row order nor modifies the given data.',
     ['inputs', 'configurations'],
     'all data sets up to a bounded number of rows over small domains of mixed type, all small hyper-parameter combinations',
     'Tests check sizes and a few fixed trees; wrong boundaries or mis-assigned rows show only for particular value patterns (ties, constants, missing categories).',
     ['trees.py', 'learning/impurity.pyx'],
     [('JPT.fit/learn/c45', 'trees.py'), ('Impurity', 'learning/impurity.pyx'), ('Node.path', 'trees.py')],
     ['JPT.fit', 'JPT.leaves', 'Node.path'])

prop('C11', 'Every split is the best admissible split of its node',
     'For every data set and every node, the reported best split has the largest impurity improvement, as computed directly from the '
     'definitions of variance and Gini impurity over the dependent target variables, among all splits that leave enough rows on both sides. '
     'A node is left unsplit exactly if no admissible split improves by at least the required minimum.',
     ['inputs', 'configurations'],
     'all small data matrices over small value sets, all feature/target/dependency selections, all minimum sizes',
     'The implementation scans incrementally with shared buffers; errors surface for particular value orders, ties, '
     'variable selections, or on the second call on the same object.',
     ['learning/impurity.pyx', 'trees.py'],
     [('Impurity.compute_best_split and variance/gini updates', 'learning/impurity.pyx'), ('JPT.c45', 'trees.py')],
     ['Impurity.compute_best_split', 'JPT.fit'])

prop('C12', 'Probability queries satisfy the laws of conditional probability',
     'For every model, query and evidence of positive probability, the answer equals the ratio of the probability of query and '
     'evidence holding together to the probability of the evidence, computed directly from the leaf regions, weights and distributions. Consequently '
     'answers lie in [0, 1], add up over disjoint events, equal 1 for what the evidence implies and 0 for what it contradicts, '
     'and do not depend on how the query is written (names or variable objects, lists, sets, intervals).',
     ['inputs'],
     'all query/evidence pairs over small event alphabets on all models learned from small data sets',
     'Tests compare a few queries with literals; overlaps of query and evidence on one variable and interplay with tree paths need systematic combination.',
     ['trees.py'],
     [('JPT.infer', 'trees.py'), ('JPT.bind', 'trees.py')],
     ['JPT.infer'])

prop('C13', 'Posteriors and expectations agree with conditional probabilities',
     'For every evidence of positive probability, the posterior distribution of each variable assigns to every event the same '
     'probability as the conditional probability query for that event, and the reported expectations are the expectations of these posteriors. '
     'With single-value evidence on continuous variables the leaves are weighted by their density at that value, and the posterior of the observed variable is certain about it.',
     ['inputs'],
     'all evidence over small event alphabets, all variables and query events, on all models from small data sets',
     'The posterior is assembled from cropped leaf distributions by a merge; only comparing it with an independent oracle for all events shows a lost or mis-weighted leaf.',
     ['trees.py', 'distributions/quantile/quantiles.pyx'],
     [('JPT.posterior/expectation', 'trees.py')],
     ['JPT.posterior', 'JPT.expectation', 'JPT.infer'])

prop('C14', 'A conditioned model is the conditional distribution',
     'Conditioning a model on evidence of positive probability gives a model whose answer to any query equals the original model\'s '
     'answer given the same evidence, whose leaf weights sum to one, and which can be conditioned again, stored and queried like any learned model. '
     'Conditioning step by step on parts of the evidence gives the same result as conditioning on all of it at once.',
     ['inputs', 'histories'],
     'all evidence over small event alphabets, all splits of it into successive steps, all queries',
     'Tests condition once and look at structure; agreement with inference and repeated conditioning are not covered.',
     ['trees.py'],
     [('JPT.conditional_jpt', 'trees.py'), ('Leaf.conditional_leaf', 'trees.py')],
     ['JPT.conditional_jpt', 'JPT.infer'])

prop('C15', 'Queries never change a model, its copies or the caller\'s arguments',
     'Whatever sequence of queries is put to a model, successful or failing, the model afterwards equals the model before and gives '
     'the same answer to every query as a fresh model would. Results, copies and conditioned models share no state with the model: '
     'changing them never affects it, and the arguments passed to a query are unchanged.',
     ['histories', 'inputs'],
     'all sequences of queries up to a bounded depth over a menu covering every kind of query and evidence',
     'A unit test asks one question and looks at the answer; corruption appears in the answers to later, different questions.',
     ['trees.py', 'distributions/univariate/numeric.py', 'distributions/univariate/integer.py', 'distributions/univariate/multinomial.py'],
     [('JPT.infer/posterior/expectation/mpe/kmpe/conditional_jpt/likelihood/...', 'trees.py'), ('Distribution.crop/copy', 'distributions/univariate/')],
     ['JPT'])

prop('C16', 'Most probable explanations are optimal, complete and correctly ordered',
     'The most probable explanation returned for any evidence is a maximizer of the joint density among the atomic regions of the model '
     'consistent with the evidence, with its correct likelihood. The enumeration of the k most probable explanations terminates and lists every atomic state with positive '
     'likelihood exactly once per leaf, in non-increasing order of likelihood, each with the product of the likelihoods of its parts.',
     ['inputs'],
     'all products of up to three small distributions of mixed types, and all small models with all evidence',
     'Branch-and-bound with a queue of pruned states has orders of expansion that depend on ties and costs; tests run one model.',
     ['inference/mpe.py', 'trees.py', 'base/utils.py'],
     [('MPESolver.solve', 'inference/mpe.py'), ('JPT.mpe/kmpe', 'trees.py'), ('Heap', 'base/utils.py')],
     ['MPESolver', 'JPT.mpe', 'JPT.kmpe'])

prop('C17', 'Models, variables and distributions survive persistence unchanged',
     'Writing any model, variable or distribution to JSON, pickle or a file and reading it back yields an object that equals the original, '
     'including every setting and hyper-parameter, and answers every query identically. This holds for unfitted, fitted, pruned and conditioned models, '
     'through real JSON text, and repeatedly.',
     ['inputs', 'configurations', 'histories'],
     'all settings over small grids, models of all variable-type mixes, all sequences of persistence operations up to a bound',
     'Equality tests use default settings; a dropped setting or parameter shows only if it differs from the default.',
     ['trees.py', 'variables.py', 'distributions/univariate/', 'distributions/quantile/quantiles.pyx', 'base/functions.pyx', 'base/intervals.pyx'],
     [('to_json/from_json/__getstate__/__setstate__/save/load', 'trees.py'), ('Variable.from_json', 'variables.py')],
     ['JPT.to_json/from_json/save/load', 'Variable.to_json/from_json', 'Distribution.to_json/from_json'])

prop('C18', 'Impossible evidence and invalid queries are always reported',
     'Evidence has a reported probability of zero exactly if every query conditioned on it is refused: each kind of query then raises an '
     'unsatisfiability error, or returns nothing if the caller asked for that, and never returns numbers. Queries mentioning unknown variables, '
     'foreign variable objects or values outside a domain are rejected, and a rejected query leaves the model usable.',
     ['inputs', 'histories'],
     'all evidence over small event alphabets for each kind of query, on all models from small data sets',
     'Whether evidence is possible is decided in several separate places; tests use a few clearly impossible cases.',
     ['trees.py', 'base/errors.py', 'variables.py'],
     [('fail_on_unsatisfiability', 'trees.py'), ('Unsatisfiability', 'base/errors.py'), ('JPT.bind', 'trees.py')],
     ['JPT.infer/posterior/expectation/mpe/kmpe/conditional_jpt'])

prop('C19', 'Densities, likelihoods and leaf assignment describe the same model',
     'For every fully specified world the point density, the row-wise likelihood and the weighted leaf densities computed by hand coincide, and '
     'the leaf assigned to a world is the one whose region contains it, also on split boundaries. '
     'The leaves reported as applicable to evidence are exactly those whose region meets it, and training rows always have positive likelihood.',
     ['inputs'],
     'all worlds over a grid that includes every split point and support boundary, for all models from small data sets',
     'Boundary points have probability zero under random testing, and the functions involved use separate region tests.',
     ['trees.py'],
     [('JPT.pdf/likelihood/encode/apply', 'trees.py'), ('Leaf.parallel_likelihood', 'trees.py'), ('Node.contains', 'trees.py')],
     ['JPT.pdf', 'JPT.likelihood', 'JPT.encode', 'JPT.apply'])

prop('C20', 'Sampling draws exactly from the described distribution',
     'For every outcome of the random number generator, a drawn sample is a possible world: it lies in the support, has positive density and obeys the '
     'restrictions of the sampled set, distribution or model. Over all generator outcomes, each value or piece is drawn '
     'in proportion to its probability, and exactly the requested number of samples is returned.',
     ['inputs', 'configurations'],
     'all outcomes of a discretized random source, on all distributions, sets and models over small alphabets',
     'Tests draw once with a random seed and check loosely; an outcome of small probability is never seen.',
     ['base/sampling.py', 'base/intervals.pyx', 'distributions/quantile/quantiles.pyx', 'distributions/univariate/', 'trees.py'],
     [('sample', 'distributions/univariate/'), ('wsample/wchoice', 'base/sampling.py'), ('RealSet.sample', 'base/intervals.pyx'), ('JPT.sample', 'trees.py')],
     ['*.sample'])

prop('C21', 'Structural edits leave a valid model',
     'Pruning and re-weighting operations on a fitted model leave weights summing to one, leaf regions that still '
     'partition the value space, consistent parent, child and path information, and a model that can be queried, stored and edited again. '
     'In a pruned leaf, each variable has exactly the mixture of its distributions in the leaves it replaces, so no variable\'s marginal probabilities change.',
     ['histories', 'configurations'],
     'all sequences of structural edits up to a bounded depth on models from small data sets',
     'Edits are exercised singly on one model; corrupted links are noticed only by later operations.',
     ['trees.py'],
     [('JPT.prune/multiply_by_leaf_prior/normalize', 'trees.py')],
     ['JPT.prune', 'JPT.multiply_by_leaf_prior', 'JPT.normalize'])

prop('C22', 'Sequence models give the exact marginals of the chain they encode',
     'A fitted sequence model has the observed leaf frequencies and leaf-to-leaf transition frequencies. For every evidence sequence of any length, the '
     'models of the single time steps are the exact marginals of the documented chain (one factor per step with the leaf probabilities given the evidence of that step, one factor per '
     'transition), returned in the order of the time steps; impossible sequences are refused, the fitted model stays as it was, and it survives JSON.',
     ['inputs', 'histories'],
     'all small training sequences, all evidence sequences of bounded length over a small alphabet, lengths beyond ten',
     'Tests use two or three time steps and one template tree.',
     ['sequential_trees.py'],
     [('SequentialJPT.fit/ground/independent_marginals/posterior', 'sequential_trees.py')],
     ['SequentialJPT'])

prop('C23', 'Variable maps and assignments behave as ordered dictionaries of variables',
     'Under every sequence of insertions, deletions, updates, copies and set-like combinations, a variable map holds exactly the pairs a plain dictionary keyed by variable name would, '
     'is accessible by name and by variable alike, and iterates in insertion order. Copies are equal and independent, hashing agrees with equality, '
     'and label and value assignments accept exactly the values of the variable\'s domain and convert into each other without loss.',
     ['histories', 'inputs'],
     'all operation sequences up to a bounded depth over two or three variables and a few values of each kind',
     'Operation sequences with interleaved copies and deletions are not enumerated by tests.',
     ['variables.py'],
     [('VariableMap', 'variables.py'), ('LabelAssignment/ValueAssignment', 'variables.py')],
     ['VariableMap', 'LabelAssignment', 'ValueAssignment'])

prop('C24', 'Priority queue and weighting helpers keep their contracts',
     'Under every sequence of pushes, pops, deletions and lookups the priority queue returns elements in order of their keys, first-in first-out among equals, and '
     'holds exactly the elements added and not removed. Normalization keeps proportions and yields a distribution or refuses the input, and the interval and set conversions of user '
     'input represent exactly the values given.',
     ['histories', 'inputs'],
     'all operation sequences up to a bounded length over few keys (with ties); all short vectors over a small grid',
     'A broken heap order becomes visible only after particular delete/pop sequences.',
     ['base/utils.py', 'base/sampling.py'],
     [('Heap', 'base/utils.py'), ('normalized', 'base/utils.py'), ('list2interval/list2set/list2intset', 'base/utils.py')],
     ['Heap', 'normalized', 'list2interval', 'pairwise'])

prop('C25', 'Approximation of a distribution function keeps it a distribution function',
     'Approximating a learned cumulative distribution by fewer pieces preserves its limits 0 and 1, its monotonicity and its support, never uses more pieces than '
     'allowed or than before, and replaces pieces only while the permitted error is not exceeded. Approximating a model\'s distributions leaves the original unchanged.',
     ['inputs', 'configurations'],
     'all distribution functions fitted to bounded samples, all piece limits and a grid of error bounds',
     'The algorithm deletes pieces from a queue in data-dependent order; tests approximate one or two functions.',
     ['base/functions.pyx', 'base/utils.py', 'distributions/univariate/numeric.py'],
     [('PLFApproximator', 'base/functions.pyx'), ('Numeric.approximate', 'distributions/univariate/numeric.py')],
     ['PiecewiseFunction.approximate', 'Numeric.approximate'])

prop('C26', 'Similarities and distances of distributions obey their axioms',
     'For any two distributions over one domain, the similarity is symmetric, lies in [0, 1], is 1 for a distribution and itself and 0 for disjoint supports, and equals the shared '
     'probability mass as defined; divergences are non-negative and zero for equal arguments. Comparing distributions for equality is an equivalence '
     'relation that distinguishes distributions giving different probabilities, and comparing never changes them.',
     ['inputs'],
     'all pairs and triples of distributions over small alphabets for each domain type',
     'Axioms quantify over all pairs; tests evaluate a few literals.',
     ['distributions/univariate/', 'base/functions.pyx', 'trees.py'],
     [('similarity/jaccard_similarity/kl_divergence/__eq__', 'distributions/univariate/')],
     ['Distribution.similarity', 'Distribution.__eq__', 'Numeric.kl_divergence'])

prop('C27', 'Learning sees the same data whatever its container',
     'The variables inferred from a table have the types and exactly the value sets of its columns, and a model learned from a data frame, from a row array with the same columns, or after '
     'permuting the columns of the frame or its index labels is the same model. Internal encoding of every cell is the encoding of its label, the '
     'caller\'s table is never modified, and values outside a variable\'s domain are refused rather than silently mapped.',
     ['inputs', 'configurations'],
     'all small tables over mixed column types, all column permutations, index permutations and container types',
     'Tests mostly pass one well-formed frame whose columns are already in order.',
     ['trees.py', 'variables.py'],
     [('JPT._preprocess_data', 'trees.py'), ('infer_from_dataframe', 'variables.py')],
     ['infer_from_dataframe', 'JPT.fit', 'JPT.likelihood'])

prop('C28', 'The sum of two distributions is the distribution of the sum',
     'Adding two independent integer distributions gives exactly the probability of every sum of their values, and adding two numeric distributions gives a distribution function that '
     'agrees with the exact one wherever the shape of its density changes and at every point mass. The result is again a valid distribution whose support is the sum of the supports, '
     'does not depend on the order of the operands, can be added to again, and the operands are unchanged.',
     ['inputs', 'histories'],
     'all pairs (and triples) of distributions over small alphabets of point masses and density pieces or integer domains',
     'Tests add one or two pairs of uniform densities; point masses, gaps and different widths multiply to many cases.',
     ['base/functions.pyx', 'distributions/univariate/numeric.py', 'distributions/univariate/integer.py'],
     [('PiecewiseFunction.convolution', 'base/functions.pyx'), ('Numeric.__add__', 'distributions/univariate/numeric.py'), ('Integer.add', 'distributions/univariate/integer.py')],
     ['Numeric.__add__', 'Integer.__add__', 'Integer.add'])

prop('C29', 'Printed descriptions name exactly the region they stand for',
     'The text given for a restriction of a variable, for an edge or a node of a tree and for the path of a leaf, in both notations, read in the terms of the labels of the user\'s data, '
     'describes exactly the values admitted: for every variable type, scaled domain and integer range, every interval, union, single value and value set. A world satisfies the text of '
     'exactly the leaf the model assigns it to, and a refusal of impossible evidence quotes the evidence that was given. Printed distributions name every value with its probability, '
     'and intervals and piecewise functions built from their printed form are the ones that were printed.',
     ['inputs', 'configurations'],
     'all restrictions over small alphabets, all small learned models, worlds and pieces of evidence',
     'Tests compare seven strings of one numeric and one Boolean variable; scaled domains, integer ranges, edges, paths and error messages are not read.',
     ['variables.py', 'trees.py', 'base/utils.py', 'base/functions.pyx', 'distributions/univariate/multinomial.py', 'distributions/univariate/integer.py'],
     [('Variable.str', 'variables.py'), ('DecisionNode.str_edge', 'trees.py'), ('format_path', 'base/utils.py'), ('JPT.conditional_jpt', 'trees.py')],
     ['NumericVariable.str', 'IntegerVariable.str', 'SymbolicVariable.str', 'Leaf.format_path', 'DecisionNode.str_edge'])

prop('C30', 'Blurred single values stand for the surrounding share of the prior',
     'Single-value evidence on a continuous variable with a blur setting is treated exactly like evidence of an interval that contains the value and whose ends lie half the blur below and '
     'above it in terms of prior probability (cut at the ends of the observed range), for scaled and unscaled variables alike. Without blur the value itself is used, intervals and other '
     'variables are never blurred, and every kind of query treats the value like that interval.',
     ['inputs', 'configurations'],
     'all small learned models, blur widths and evidence values, in label and value space',
     'The tests blur by 1 % in models of continuous data only; quantiles at point masses, gaps, borders and in scaled domains are not reached.',
     ['trees.py'],
     [('JPT._preprocess_query/bind', 'trees.py')],
     ['JPT.bind', 'JPT.infer', 'JPT.posterior', 'JPT.conditional_jpt'])


prop('C31', 'A Gaussian holds exactly the statistics of the data it was given',
     'After every history of updates, retractions, copies and refits, the mean, covariance and weights of a Gaussian are the weighted statistics of exactly the data points it currently holds, '
     'in any dimension and for any order; copies evolve independently of their original. Batch construction, incremental updates and every container form (scalars, lists, arrays) agree, '
     'scaling, shifting and adding Gaussians act on mean and covariance as on the random variables, the density and distribution function are those of the parameters, and '
     'impossible requests are refused.',
     ['histories', 'inputs'],
     'all sequences of updates, retractions, copies and refits up to a bound over small weighted data sets in 1-3 dimensions',
     'Tests update and retract one random data set once; retractions to one or no point, weights, copies and refits are not reached.',
     ['distributions/univariate/gaussian.py'],
     [('Gaussian', 'distributions/univariate/gaussian.py')],
     ['Gaussian.update', 'Gaussian.retract', 'Gaussian.update_all', 'Gaussian.estimate', 'Gaussian.copy', 'Gaussian.cdf', 'Gaussian.pdf'])


# statements refined while the checks were built
STATEMENTS = {
    'C02': 'No set operation changes its operands or the shared constants, so a set means the same before and after it was used. Two sets holding the same points compare equal and, being '
           'equal, have equal hashes, whatever their notation or decomposition. Reading back the printed form of an interval, JSON, pickling and copying return an equal set, '
           'and modifying a copy never affects the original.',
    'C06': 'Restricting a numeric, integer or symbolic distribution to an event of positive probability yields the distribution that assigns to every event B the probability of the '
           'intersection of B with the event, divided by the probability of the event; restricting to a single value of positive density yields certainty about that value. Restricting to an '
           'impossible event is reported as unsatisfiable, and the original distribution is never changed.',
    'C08': 'Expectation, variance and moments of a numeric or integer distribution equal those computed from its density or probabilities, in the units of the user\'s data. The most '
           'probable states are exactly the maximizers of the density or probability, and the k most probable states are listed without duplicates in strictly decreasing order of probability '
           'and, taken together, cover the whole support of the density.',
    'C11': 'For every data set and every node, the reported best split has the largest impurity improvement, as computed directly from the definitions of variance and Gini impurity over the '
           'target variables that may depend on the split variable, among all splits that leave enough rows on both sides. A node is left unsplit exactly if no admissible split improves by '
           'at least the required minimum.',
    'C13': 'For every evidence of positive probability, the posterior distribution of each variable assigns to every event the same probability as the conditional probability query for '
           'that event, and the reported expectations are the expectations of these posteriors. With single-value evidence on continuous variables the leaves are weighted by the mass of that '
           'value or else by their density at it, and the posterior of the observed variable is certain about it.',
    'C18': 'Evidence has a reported probability of zero exactly if every query conditioned on it is refused: each kind of query then raises an error that reports the unsatisfiability, or '
           'returns nothing if the caller asked for that, and never returns numbers. Queries mentioning unknown variables, bound assignments of foreign variables or values outside a domain '
           'are rejected, and a rejected query leaves the model usable.',
    'C19': 'For every fully specified world the point density, the row-wise likelihood and the weighted leaf densities computed by hand coincide, and the leaf assigned to a world is the one '
           'whose region contains it, also on split boundaries. The leaves reported as applicable to evidence are exactly those whose region meets it, and the rows a model was trained on '
           'have positive likelihood.',
    'C23': 'Under every sequence of insertions, deletions, updates, copies and set-like combinations, a variable map holds exactly the pairs a plain dictionary keyed by variable name would, '
           'is accessible by name and by variable alike, and iterates in insertion order. Copies are equal and independent and hashing agrees with equality. Label and value assignments accept '
           'exactly the values of the variable\'s domain, convert into each other without loss and survive JSON.',
    'C25': 'Approximating a piecewise constant or linear function or a learned distribution keeps the function\'s outer boundaries, and for distributions the limits 0 and 1, monotonicity, '
           'support and point masses. The result never has more pieces than before, no more than the permitted number (of at least three) if one is given, and pieces are only replaced while '
           'the mean absolute error of the replaced piece stays within the bound. Approximating a model\'s distributions leaves the original unchanged.',
    'C27': 'The variables inferred from a table have the types and exactly the value sets of its columns and the settings asked for, and a model learned from a data frame, from a row array '
           'with the same columns, from separate columns or after changing the index labels is the same model, while a frame in another column order is refused or gives the same model. '
           'Internal encoding of every cell is the encoding of its label, the caller\'s table is never modified, and values outside a variable\'s domain are refused rather than silently mapped.',
}
for d in P:
    d['statement'] = STATEMENTS.get(d['id'], d['statement'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            assert len(d['title']) <= 80, d['title']
            f.write(json.dumps(d) + '\n')
    print(len(P))
