P = [
('C01','15 s','Every interval over three alphabets of end points (small integers; tiny and negative; 1e17-sized, where x±1 is absorbed) with all open/closed/unbounded/degenerate forms; every ordered pair; every real set written as 1–3 intervals in every order; all canonical real sets pairwise; closure under operations (breadth-first until no new point set appears).',
 'atom masks: union = `|`, intersection = `&`, … Predicates follow from the masks. Results must also be sorted, disjoint and non-adjacent after `simplify`.',
 'Intervals closed at infinity (a notation the constructors reject elsewhere), containment *of empty sets* (answers differ by notation, no user-visible consequence), `RealSet.intersections` with overlapping constituents (documented precondition).',
 'tests use a few dozen hand-picked pairs; the fixed defects concerned pairs sharing one end point with different openness, or an unbounded and an empty operand.'),
('C02','7 s','Every operation on every value and every pair, operands snapshotted before and after; results are overwritten afterwards to expose aliasing; the shared constants (`R`, `EMPTY`, …) likewise; all notations of each of the point sets over two end points for equality and hash; parsing, JSON, pickle, copies.',
 'snapshots; equality of atom masks.',
 '—',
 'aliasing shows only if a result is modified and the operand used again.'),
('C03','13 s','All pairs of functions with up to 3–4 pieces over {absent, undefined, constant, linear} in five relative layouts of the break points × {+,−,·,max,min,scalars}; thresholds of every comparison; integrals over all pairs of bounds; histories of two operations; hinge, jump, impulse and Gaussian functions at and around their knots.',
 'pointwise evaluation at break points, their float neighbours and a quarter grid; exact piecewise integrals in `Fraction`.',
 'Pieces are closed left, open right (what every constructor of the library produces).',
 'undefined or missing pieces on one side, coinciding break points.'),
('C04','8 s','All functions over 3 break points × 6 piece kinds; crop/overwrite with all intervals over 7 positions and all end kinds; all split points; stretch, shift, mirror, round, simplify, JSON, pickle; all operation sequences of depth 2 (3).',
 '`plfmodel` transformed by the definition of each operation; scalar, vector evaluation and piece lookup compared; operands and copies checked for sharing.',
 '—', 'split inside a copy, shifts of unbounded pieces, sequences.'),
('C05','3 s','All multisets of up to 5–6 (7) observations over 3–4 values at seven scales (huge, tiny, adjacent), four tolerances; all orders; all row selections.',
 'empirical distribution; inverse by search; density = derivative of the CDF.',
 'Non-finite observations (refused, C27). The density of a CDF with jumps represents point masses only if it consists of one.',
 'ties, adjacent floats and large offsets.'),
('C06','11 s','All atom/segment weight patterns over three points, learned samples, all probability vectors over ≤4 values; all intervals over a 7-point grid with all ends, unions of two, all value sets; restriction twice.',
 'Bayes rule on the measure.', 'Events with a mass below 1e-12.', 'events that cut pieces, touch point masses with open/closed ends, rare events.'),
('C07','8 s','All ordered pairs at four relative positions, weights {0,¼,½,¾,1}…, triples in all orders, updates, invalid weights, scaled domains.',
 'mixture of measures.', '—', 'overlap patterns of supports, point masses inside the other part\'s segments, weights of 0.'),
('C08','2 s','All atom/segment patterns over 3–4 points, merges, learned samples, four affine scalings; discrete: all weight vectors, single probabilities read and assigned, impulses; Boolean values; k-MPE for every k.',
 'moments of the measure; maximizers by enumeration.', 'Order of equally probable states.', 'ties, close levels, k beyond the number of levels.'),
('C09','13 s','All orders of ≤4 labels of six kinds, all integer ranges in [−3,3], six scalings; all intervals and pairs of intervals; twin domains (unscaled, re-ordered); fitting labels directly, by row and column selection; whole columns through the scaler.',
 'a direct translation table; the twin\'s answers.', 'Labels that Python itself considers equal (1, 1.0, True).', 'half-infinite intervals, unions, negative scales.'),
('C10','9 s','All multisets of ≤4–5 rows of eleven schemas × 40 hyper-parameter settings × targets/features; all row orders; deep trees from 64 patterns; refits; containers; adjacent floats.',
 'partition of a grid of worlds meeting every cell and boundary; relative frequencies counted from the rows.', 'Adjacent observations outside the normal float range.', 'split points between adjacent values; min_samples_leaf as fraction; re-use of a model.'),
('C11','14 s','All data sets × hyper-parameters × dependency maps; every node of every tree: all admissible splits scored exactly; the split search also driven directly on all row ranges in all orders of two calls.',
 'variance and Gini from the definitions in `Fraction`; ties within 1e-9 accepted.', 'Row-order check skips the schema of 1e6-sized values (rounding decides ties).',
 'independent targets, constant columns, leftover buffers of an earlier call. KNOWN finding `mean-improvement`, see section 4.'),
('C12','67 s','All multisets of ≤3 rows × nine schemas × hyper-parameters × all query/evidence pairs over an event alphabet (split points, gaps, unions, sets, singles) × all ways of writing them; 64 deep trees; models with extreme weights; conditioned models.',
 'ratio of masses in the mixture.', 'Evidence below 1e-12. Single-value evidence whose probability is zero is refused by `infer` by design (posteriors use densities, C13).',
 'combinations of queried and observed sets on the same variable, split boundaries, rare leaves.'),
('C13','24 s','As C12 with single values on continuous variables; every posterior as a distribution.', 'Bayes rule; weights by mass, else by density.', '`JPT.expectation` by default includes observed variables (as documented).',
 'evidence on several variables with mixed mass/density.'),
('C14','35 s','All models × evidence × second evidence; each result queried, conditioned again, stored, copied, printed, pruned.', 'conditioned mixture, leaf by leaf and query by query.',
 'Evidence of mass <1e-12 (rounding noise) and single-value evidence that arises only from intersecting two steps.', 'two-step histories and re-use of the result.'),
('C15','18 s','All sequences (depth 2; 3 thorough) over an alphabet of ~45 successful and failing operations on real models; complete state compared after each; everything reachable from the result is destroyed.',
 'deep structural snapshot of model, copies and arguments; answers of a battery of queries.', '—', 'state leaking from one query into a later one.'),
('C16','27 s','All models × evidence × k; all products of small distributions for the solver.', 'full enumeration of atomic states.', 'Leaves and pieces cut down to rounding noise.', 'ties, plateaus, termination, completeness.'),
('C17','60 s','≈500 distributions, all domains and variables with all settings, all small models and derived models × {JSON text, pickle protocols, files by name/handle, copy, deepcopy} × once, twice, mixed; copies learn again.',
 'structural comparison, equality, battery of answers (1e-12 relative).', 'User-defined subclasses of the types and `Gaussian`. JSON may contain `Infinity` (Python\'s dialect).', 'a setting that is lost shows only when it differs from its default and the copy is used.'),
('C18','39 s','All models × evidence incl. outside the support, in gaps, empty, never observed × all query kinds × both ways of reporting; malformed assignments × query kinds; densities asked for regions instead of worlds.', 'probability of the evidence in the mixture.',
 '`reverse`/`apply` on unknown values return nothing by design; a reversed list of integers `[1, 0]` is a range and hence empty.', 'evidence of probability zero that is not outside of a domain.'),
('C19','24 s','All models (learned, pruned, conditioned, re-weighted) × all worlds on a grid with split points and neighbours × containers and orders.', 'hand computation from the leaves.', 'Frames with permuted columns (refused).', 'worlds on the split points.'),
('C20','13 s','All intervals and unions over 5–6 end points incl. adjacent floats; all weight vectors; all measures; models; several rows of several variables with exact independence; each path of generator outcomes.', 'accumulated path weights against the probabilities; support.',
 'Sampling unbounded intervals and overlapping unions (documented preconditions). If an edit draws from a generator that is not controlled, only support and counts are checked.', 'exact proportions cannot be tested by sampling; boundary outcomes of the generator have probability ~2⁻⁵³.'),
('C21','41 s','All sequences of ≤2 (3) edits (prune at thresholds, with approximation, re-weight, normalize, condition, copy, JSON) on all small models and on trees of all shapes with ≤4 leaves (constructed by hand, so that shapes the learner seldom produces occur).', 'the edit on the reference mixture; node-by-node links, paths, indices.',
 'The similarity deciding what to prune is the library\'s own (C26); joint probabilities change by pruning by design.', 'sequences of edits, unbalanced shapes.'),
('C22','33 s','All sequences of length 3–5, pairs of sequences, five schemas; all evidence sequences over an event alphabet.', 'sum over all leaf sequences.', 'The semantics is the documented factor chain, not an HMM with the leaf prior as initial distribution.', 'impossible transitions, order of steps, re-use.'),
('C23','12 s','All reachable states of two maps under 30–45 operations up to depth 5 (12); all candidate values for acceptance and conversion.', 'ordered dictionaries.', 'Different variables of the same name in one map.', 'histories.'),
('C24','5 s','All heaps of ≤7 elements over 3 keys with deletions at all positions, all sequences of 7 (8) operations; all weight vectors ≤4 over 9 weights; all bounds.', 'sorted lists; exact sums.', 'Iteration order of the heap; overflowing vectors (refused).', 'deletion in the middle, ties.'),
('C25','13 s','All step/linear functions and distributions over small grids × piece limits × error bounds.', 'reference of the documented greedy procedure where unambiguous; invariants in all cases.', '`Numeric.approximate` works on the CDF.', 'gaps, equal pieces, point masses.'),
('C26','6 s','All pairs of discrete distributions over ≤4 values; all pairs of measures, fits, functions, small models.', 'shared mass of the measures.', 'Equality of differently written equal measures. The divergence is the expected |p−q| over cells (pinned by tests).', 'disjoint/touching supports, point masses in segments.'),
('C27','14 s','All multisets of ≤3 rows of seven schemas × 14 containers × column orders × index labels; every foreign cell at every position; inference of types with all settings.', 'the model of the plain rows; counting.', 'A user-given domain of another type than the column.', 'unusual dtypes, index labels, missing values at each position.'),
('C28','3 s','All pairs of measures on seven shifted/scaled grids, fits, integer distributions and chains.', 'exact convolution.', 'Between knots the density is rectified: the value must lie between exact and chord. Sums of `ScaledNumeric`.', 'point masses, different spacing.'),
('C29','8 s','All restrictions (intervals, unions of two, value sets, scalars; both notations) of variables over 4 numeric, 7 integer and 10 symbolic domains; all small models: every edge, node, path and all worlds on a grid; ~100 pieces of evidence each × 10 kinds of queries; the same trees restricted to every leaf region and value set; all small discrete distributions, symbolic domains and printed functions in all orders of their pieces.',
 'an independent reader turns the text back into a region, which is compared with the restriction, with the leaf the model itself assigns to each world, or with the evidence given.', 'Empty restrictions; labels that contain the separators ` v `, ` ^ `; numbers finer than the three decimals printed; symbolic sets of more than ten values (abbreviated by design).', 'internal values and labels differ only for scaled domains and integer domains not starting at 0.'),
('C30','31 s','All multisets of ≤4 (5) rows × five blur widths × nine values × scaled/unscaled.', 'quantiles of the prior measure; the same query with the interval.', 'Outside of the observed range only "contains the value" is demanded.', 'values in gaps and on point masses.'),
('C31','9 s','All sequences of ≤6 (7) updates/retractions/copies/refits over six alphabets of weighted points in 1-3 dimensions; all data sets of ≤5 points as lists and arrays; scalings, shifts, sums and functions over a grid.', 'exact rational weighted statistics of the multiset of points held.', '`MultiVariateGaussian` in multivariate.py (the module cannot be imported: it needs a module that does not exist); statistics below the documented 1e-15 threshold.', 'retraction down to one or no point, copies and refits in the middle of a history.'),
]

import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = {json.loads(l)['id']: json.loads(l) for l in open(root + '/properties.jsonl')}
seeds = {}
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
MISSED = json.load(open(here + '/design/missed.json'))
out = [open(here + '/design/head.md').read()]
assert {p[0] for p in P} == set(props), {p[0] for p in P} ^ set(props)
for pid, cost, space, oracle, excl, why in P:
    out.append('### %s — %s (%s)\n' % (pid, props[pid]['title'], cost))
    out.append('* **Explored:** %s\n* **Oracle:** %s\n* **Excluded:** %s\n* **Beyond tests:** %s\n* **Planted bugs caught:** %s\n' % (
        space, oracle, excl, why, ', '.join('`%s`' % s for s, _ in seeds.get(pid, [])) or '—'))
tail = open(here + '/design/tail.md').read()
rows = ['| bug | caught by | needs | history |', '|---|---|---|---|']
for pid in sorted(seeds):
    for s, m in seeds[pid]:
        rows.append('| `%s` | %s | %s | %s |' % (s, pid, m['needs'].replace('|', '/'), ('*missed first*: ' + MISSED[s]) if s in MISSED else 'caught'))
tail = tail.replace('## 6. What', '\n'.join(rows) + '\n\n## 6. What')
out.append('## 3. Where properties meet\n\nA defect in a lower layer usually violates several properties: a wrong intersection (C01) also shows in C06, C12, C14. '
           'The planted bugs were written for one property each and are judged by the check of that property.\n')
out.append(tail)
open(root + '/DESIGN.md', 'w').write('\n'.join(out))
