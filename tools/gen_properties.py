"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    for s in (title,):
        assert len(s) <= 80, (id, len(s))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe or [], 'hook_needed': None}})
FMT = 'segeval/format.py'; BED = 'segeval/similarity/distance/multipleboundary.py'
SIM = 'segeval/similarity/__init__.py'; BS = 'segeval/similarity/boundary.py'; SS = 'segeval/similarity/segmentation.py'
WGT = 'segeval/similarity/weight.py'; UT = 'segeval/util/__init__.py'; CMP = 'segeval/compute.py'; MTH = 'segeval/util/math.py'
PK = 'segeval/window/pk.py'; WD = 'segeval/window/windowdiff.py'; WIN = 'segeval/window/__init__.py'; ML = 'segeval/ml/__init__.py'
AGR = 'segeval/agreement/__init__.py'; PI = 'segeval/agreement/pi.py'; KAP = 'segeval/agreement/kappa.py'; BIAS = 'segeval/agreement/bias.py'
DAT = 'segeval/data/__init__.py'; JSN = 'segeval/data/jsonutils.py'; TSV = 'segeval/data/tsv.py'; INIT = 'segeval/__init__.py'

p('F01', 'Masses and position labels convert into each other without loss',
  'Converting any sequence of positive segment masses to position labels gives one label per unit, numbered 1, 2, ... by segment, and converting the labels back gives exactly the same masses. Converting any sequence of position labels to masses gives the lengths of its maximal runs of equal labels, so the masses are positive and sum to the number of units, whatever the labels are.',
  ['inputs'], 'every mass sequence and every label sequence, including repeated, non-consecutive and non-integer labels',
  'The tests convert about ten fixed sequences; a slip at a particular mass, segment count or label pattern is invisible to them.',
  [FMT], [('run-length encoding of labels', FMT + ':convert_positions_to_masses'), ('label expansion', FMT + ':convert_masses_to_positions')])
p('F02', 'All encodings of a segmentation denote the same boundaries',
  'The boundary string of a mass sequence has one set per gap between adjacent units, holding boundary type 1 exactly at the ends of all segments but the last and nothing elsewhere. An NLTK-style string converts to masses whose segments end exactly at its boundary symbols (for any one-character symbol), with one unit more than it has characters.',
  ['inputs'], 'every mass sequence and every NLTK string with every boundary symbol',
  'Six fixed strings are tested; leading, trailing and adjacent boundaries and other symbols are hardly sampled.',
  [FMT], [('boundary placement at cumulative mass', FMT + ':boundary_string_from_masses'), ('split at symbol', FMT + ':convert_nltk_to_masses')])
p('F03', 'Metric results do not depend on the encoding of the segmentations',
  'For every pair of segmentations of the same text, boundary similarity, segmentation similarity, boundary statistics and the confusion matrix give the same result whether the pair is given as masses, position labels, an NLTK string or boundary sets, and Pk and WindowDiff do so for masses, position labels and NLTK strings. A dataset declared in one of those formats gives the same pairwise values and agreement as the same dataset in another.',
  ['inputs', 'configurations'], 'every pair of segmentations, each encoding and metric',
  'Each metric is tested in a non-mass format on one or two fixed pairs, never compared across formats over the input space.',
  [SIM, PK, WD, AGR, FMT], [('format dispatch in similarity', SIM + ':__boundary_statistics__'), ('format dispatch in Pk', PK + ':__pk__'), ('format dispatch in WindowDiff', WD + ':__window_diff__'), ('format dispatch in agreement', AGR + ':__potential_boundaries__, __boundaries__')])
p('E01', 'Boundary edit distance accounts for every difference exactly once',
  'For any two boundary strings of equal length and any transposition span, the reported edits explain exactly the boundaries placed by only one side: per boundary type, each such boundary is either one addition (labelled with the side that has it), one half of a substitution, or one end of a transposition, and boundaries present on both sides cause no edit. Hence #differences = additions + 2 x substitutions + 2 x transpositions, and there are no edits exactly when the two strings are equal.',
  ['inputs'], 'every pair of boundary strings, any number of boundary types, any n_t >= 1',
  'A dozen fixed pairs are tested; interactions of transpositions, substitutions and additions at shared positions form a combinatorial space.',
  [BED], [('candidate edits per position', BED + ':__optional_set_edits__'), ('transpositions consume candidates', BED + ':__transpositions__'), ('residual additions/substitutions', BED + ':__additions_substitutions_sets__')])
p('E02', 'Near misses are exactly the admissible transpositions, shortest first',
  'A transposition always joins a boundary that only one side has with the same-type boundary that only the other side has, at most n_t - 1 positions apart, and no boundary takes part in two transpositions. Candidates are taken shortest span first and, for equal spans, from the start of the text; a candidate is left out only if it overlaps an already taken one of its type or if both of its ends are currently explained as substitutions. Hence with n_t = 1 there are no transpositions.',
  ['inputs', 'configurations'], 'every pair of boundary strings and every n_t',
  'Seven fixed scenarios exist; greedy order, span limits and the substitution rule matter only for particular multi-boundary patterns.',
  [BED], [('greedy scan by span then position', BED + ':__transpositions__'), ('overlap rule', BED + ':__overlaps_existing__'), ('substitution rule', BED + ':__has_substitutions__')])
p('E03', 'Boundary-type confusions are paired maximally and at minimal distance',
  'At every position, after transpositions are removed, the unmatched types of the two sides are paired into as many substitutions as the smaller side has types, the pairing has the least possible total ordinal distance, each substitution names a type of the first string followed by one of the second, and the surplus types become additions of the side that has them.',
  ['inputs'], 'every pair of boundary-type sets at a position (any sizes, any ordinal types)',
  'Two set pairs are tested; optimality over all pairings cannot be seen from them.',
  [BED], [('minimum over pairings', BED + ':__additions_substitutions_sets__')])
p('E04', 'Edit scripts are the same in both directions',
  'Exchanging the two boundary strings leaves the transpositions unchanged, leaves the numbers of additions and substitutions and the total substitution distance unchanged, and turns additions of side a into additions of side b; consequently boundary similarity and segmentation similarity do not depend on the order of their two segmentations.',
  ['inputs'], 'every pair of segmentations in any format, every n_t, default weights',
  'Symmetry is a relation between two runs; the tests compare fixed single runs.',
  [BED, BS, SS], [('side-labelled additions', BED + ':__additions_substitutions_sets__'), ('similarity from edit counts', BS + ':__boundary_similarity__')])
p('S01', 'Boundary similarity equals its definition and lies in [0, 1]',
  'Boundary similarity is 1 minus the weighted edits divided by the number of edits plus matching boundaries, where an addition costs 1, a transposition costs its span divided by n_t and a substitution its type distance divided by one more than the largest distance between types present. It lies in [0, 1], is 1 exactly for identical segmentations (including two without any boundary) and 0 when boundaries exist but none is matched, near-missed or confused.',
  ['inputs', 'configurations'], 'every pair of segmentations of one text, any boundary types, any n_t >= 1',
  'About twenty fixed pairs are tested and no pair without boundaries at all.',
  [BS, SIM, WGT], [('ratio', BS + ':__boundary_similarity__'), ('weighted edits', SIM + ':__boundary_statistics__'), ('weights', WGT)])
p('S02', 'Segmentation similarity equals its definition and lies in [0, 1]',
  'Segmentation similarity is 1 minus the weighted edits divided by the number of potential boundaries, i.e. the gaps between units times the boundary types in use (at least one). It lies in [0, 1] and is 1 exactly for identical segmentations, including two without any boundary.',
  ['inputs', 'configurations'], 'every pair of segmentations of one text, any boundary types, any n_t >= 1',
  'All tested values have a single boundary type and at least one boundary.',
  [SS, SIM], [('ratio over potential boundaries', SS + ':__segmentation_similarity__'), ('potential boundaries', SIM + ':__boundary_statistics__')])
p('S03', 'Boundary statistics agree with the segmentations and the edits',
  'For every pair, the statistics list one match per boundary placed by both sides and one full miss per boundary placed by only one, count all boundaries of both sides, report gaps x types as potential boundaries and exactly the types in use (type 1 if there are none), give the same edits as the boundary edit distance, and a total edit count that is the sum of the weighted additions, substitutions and transpositions under the weights in force.',
  ['inputs', 'configurations'], 'every pair of segmentations, n_t and triple of weighting functions',
  'One fixed pair is compared in full.',
  [SIM, 'segeval/similarity/distance/__init__.py'], [('statistics', SIM + ':__boundary_statistics__'), ('types in use', 'segeval/similarity/distance/__init__.py:identify_types')])
p('S04', 'Edit weights scale with distance and never exceed the plain counts',
  'The unscaled weights equal the number of edits; the scaled transposition weight is the sum of spans divided by the maximum span given, and the scaled substitution weight is the sum of type distances divided by (largest - smallest type + 1). All are additive over lists of edits, independent of direction, and a scaled weight lies between 0 and the number of edits whenever every distance is within the stated maximum.',
  ['inputs'], 'every list of edits and every maximum',
  'Two fixed lists are tested.',
  [WGT], [('weight functions', WGT)])
p('G01', 'one_minus complements and return_parts decomposes every metric',
  'For boundary similarity, segmentation similarity, Pk and WindowDiff, one_minus gives exactly 1 minus the plain value, as a number that can be combined with other results and summarized, also under the unscaled weights. return_parts gives a tuple beginning with a numerator and denominator whose quotient is the plain value (when the denominator is positive), with or without one_minus.',
  ['inputs', 'configurations'], 'every pair of segmentations, metric, weight choice and option combination',
  'Each option is tested on one or two fixed pairs, not in combination with the exported unscaled weights.',
  [BS, SS, PK, WD], [('value/parts selection', BS + ':__boundary_similarity__'), ('value/parts selection', SS), ('value/parts selection', PK), ('value/parts selection', WD)])
p('G02', 'Incomparable or unsupported inputs are rejected, never scored',
  'Comparing two segmentations of different total length raises the segmentation metric error in every metric and format, as does an unsupported format, boundary sets given to a window metric, or two datasets in different formats; no number is ever returned. Two segmentations of equal length in a supported format are never rejected.',
  ['inputs', 'configurations'], 'every pair of segmentations (equal and unequal lengths), format and metric',
  'One unequal pair per metric is tested.',
  [SIM, PK, WD, UT], [('length check', SIM + ':__boundary_statistics__'), ('length check', PK), ('length check', WD), ('dataset format check', UT + ':__fnc_metric__')])
p('G03', 'Metrics leave their inputs untouched and are repeatable',
  'Computing any metric or agreement coefficient on segmentations, datasets or confusion matrices never changes the segmentations, datasets (items, coders, masses, properties) or option defaults, and computing it again - also after other metrics or other options were used - gives the same result.',
  ['inputs', 'histories'], 'every input and every sequence of metric calls',
  'Tests run each metric once on shared samples and do not compare inputs before and after.',
  [UT, BED, SIM, ML, AGR], [('keyword defaults copied per call', UT + ':__fnc_metric__'), ('working sets copied', BED + ':__optional_set_edits__')])
p('C01', 'The boundary confusion matrix accounts for every comparison outcome',
  'For every hypothesis and reference, the diagonal cell of a boundary type holds its number of matches plus its near misses weighted by the transposition weight in force, the cell of two different types (hypothesis type, reference type) holds their substitutions, each addition is counted once in the cell pairing its type with None (row None for one side, column None for the other), and no other cell is non-zero.',
  ['inputs', 'configurations'], 'every pair of segmentations, n_t and weights',
  'One multi-type pair is tested cell by cell.',
  [SIM], [('matrix filling', SIM + ':__boundary_confusion_matrix__')])
p('C02', 'Precision, recall and F-measure equal their definitions in [0, 1]',
  'For every confusion matrix of non-negative numbers, precision of a class is its diagonal over its predicted (row) total, recall its diagonal over its actual (column) total, and F-measure (1+b^2)PR/(b^2 P+R), each 0 when its diagonal is 0; micro-averages pool numerators and denominators over all classes and macro-averages take the mean over all classes. All lie in [0, 1], F lies between P and R, and a mapping of matrices gives one value per label.',
  ['inputs', 'configurations'], 'every matrix (any classes, integer or decimal cells), class, beta and averaging method',
  'Five fixed two-class matrices are tested.',
  [ML], [('precision', ML + ':__precision__'), ('recall', ML + ':__recall__'), ('F-measure', ML + ':__fmeasure__'), ('averaging', ML + ':__value_micro_macro__')])
p('C03', 'Confusion matrices stay consistent under any history of use',
  'After any interleaving of cell assignments, increments, reads and class-set or precision/recall/F-measure queries, each cell holds the value last stored in it (0 if none), the class set is exactly the set of labels of all stored or read cells, statistics reflect the current cells, and distinct matrices never influence each other.',
  ['histories'], 'every sequence of writes, reads and queries on one or several matrices',
  'The class-set cache and default cells are exercised by one straight-line history.',
  [ML], [('dirty flag', ML + ':_InnerConfusionMatrix.__setitem__'), ('cached class set', ML + ':ConfusionMatrix.classes'), ('auto-created rows', ML + ':ConfusionMatrix.__getitem__')])
p('W01', 'Pk equals the fraction of windows whose end points disagree',
  'For every hypothesis and reference of n units and window size k < n, Pk is the number of i in 0..n-k-1 for which exactly one of the two places units i and i+k in the same segment, divided by n - k, and 0 when no window fits. It lies in [0, 1], is 0 for identical segmentations, is symmetric for a given window size, and never exceeds WindowDiff for the same window size.',
  ['inputs', 'configurations'], 'every pair of segmentations and window size',
  'Around twenty fixed pairs are tested, all with small integer labels and windows that fit.',
  [PK], [('window scan', PK + ':__pk__')])
p('W02', 'WindowDiff equals the fraction of windows with differing boundary counts',
  'For every hypothesis and reference of n units and window size k < n, WindowDiff is the number of i in 0..n-k-1 for which the numbers of boundaries between units i and i+k differ, divided by n - k, and 0 when no window fits. It lies in [0, 1], is 0 for identical segmentations and is symmetric for a given window size; labels are compared by value.',
  ['inputs', 'configurations'], 'every pair of segmentations and window size, including texts no longer than the window',
  'Fixed pairs with windows that fit; no text at most as long as its window.',
  [WD], [('window scan', WD + ':__window_diff__'), ('paired windows', WD + ':__create_paired_window__')])
p('W03', 'Window size is half the mean reference segment length, at least two',
  'The computed window size is half the mean segment length rounded with the given rounding function, and never below 2; for a dataset the mean is taken over all segments of all coders of all items, in mass and position format alike. Pk and WindowDiff without an explicit window size behave exactly as with the window size of their reference (not of their hypothesis).',
  ['inputs', 'configurations'], 'every reference segmentation or dataset and rounding function',
  'Three window sizes are tested and never the one used inside a metric.',
  [WIN, PK, WD], [('window size', WIN + ':__compute_window_size__'), ('default window', PK), ('default window', WD)])
p('W04', 'Edge-corrected WindowDiff weighs boundaries near the ends correctly',
  'With the Lamprier et al. correction, WindowDiff for window size k counts the windows with differing boundary counts after both ends of both segmentations are extended by k units outside the text, over n + k windows normalised by n + k + 1, so that every interior boundary is covered by the same number of windows. It lies in [0, 1], is 0 for identical segmentations, symmetric for a given window size, and accepts any sequence of labels.',
  ['inputs', 'configurations'], 'every pair of segmentations and window size',
  'Two fixed pairs and aggregate values over sample datasets.',
  [WD], [('phantom units', WD + ':__create_paired_window__')])
p('D01', 'Pairwise metrics on a dataset compare every coder pair of every item',
  'Any metric on one dataset returns exactly one entry per item and unordered pair of its coders (one per ordered pair when permuted), keyed by item and both coder names, and its value is what the metric returns for those two segmentations in that order with the same options in the dataset\'s format, whatever format is passed beside it. Items may have different coders and no pair crosses items.',
  ['inputs', 'configurations'], 'every dataset (any items, coders, codings), metric and option',
  'Sample datasets are only checked in aggregate (mean, count).',
  [CMP, UT], [('pair enumeration', CMP + ':compute_pairwise_values'), ('argument dispatch', UT + ':__fnc_metric__')])
p('D02', 'Comparing two datasets pairs all coders on the shared items',
  'Any metric on two datasets returns exactly one entry per item present in both and per pair of a coder of the first and a coder of the second, keyed item, first coder, second coder, whose value is what the metric returns for the first dataset\'s segmentation as hypothesis and the second\'s as reference with the same options. Items in only one dataset contribute nothing.',
  ['inputs', 'configurations'], 'every pair of datasets, including disjoint and partially shared items and coder names in common',
  'One pair of sample datasets with one item is spot-checked.',
  [CMP, UT], [('cross product', CMP + ':compute_pairwise_values')])
p('D03', 'A metric gives the same result however its arguments are passed',
  'Every metric gives the same result whether its two segmentations (or two datasets) are passed by position or as the keywords hypothesis and reference in any order, and its dataset by position or as the keyword dataset, with the same options in force. Tuples and lists of masses are interchangeable, a lone integer counts as a single segment of that many units, and calls with too few or too many segmentations are rejected with the segmentation metric error.',
  ['inputs', 'configurations'], 'every pair of segmentations or datasets, each metric, option and way of passing them',
  'The argument handling shared by all metrics is tested once, with a stand-in metric and fixed arguments.',
  [UT, AGR], [('argument dispatch of all metrics', UT + ':__fnc_metric__'), ('argument dispatch of agreement', AGR + ':__fnc_metric__')])
p('A01', 'Actual agreement pools all coder pairs and items and lies in [0, 1]',
  'Actual agreement is the sum of the comparison metric\'s numerators over the sum of its denominators, over every unordered pair of coders and every item, with the options given (comparison function, n_t, weights). It lies in [0, 1], is 1 when all coders agree on everything (also when nobody placed a boundary), and does not depend on the order or names of coders and items; return_parts gives these numerators, denominators, potential boundaries and per-coder boundary counts.',
  ['inputs', 'configurations'], 'every fully coded dataset with any options',
  'Five sample datasets are tested.',
  [AGR], [('pooling', AGR + ':__actual_agreement_linear__')])
p('A02', 'Pi and kappa equal (observed - expected) / (1 - expected) agreement',
  'Pi and kappa equal (A - E)/(1 - E) where A is the actual agreement; for pi E is the squared mean proportion of potential boundaries placed over all coders, pairs and items, and for kappa E is the mean over coder pairs of the product of the two coders\' overall proportions. They never exceed 1, equal 1 under complete agreement, do not depend on the order or names of coders and items, return (A, E) as parts, and reject datasets whose items have unequal numbers of coders.',
  ['inputs', 'configurations'], 'every fully coded dataset whose expected agreement is below 1, including items nobody segmented',
  'Five sample datasets are tested, none with an item left unsegmented by a pair of coders.',
  [PI, KAP, AGR], [('pi', PI + ':__fleiss_pi_linear__'), ('kappa', KAP + ':__fleiss_kappa_linear__')])
p('A03', 'Annotator bias is the difference of the two expected agreements',
  'Annotator bias equals pi\'s expected agreement minus kappa\'s expected agreement on the same dataset with the same options, return_parts gives exactly these two, and for two coders and one item it is a quarter of the squared difference of their boundary proportions, hence non-negative and 0 when they place equally many boundaries.',
  ['inputs', 'configurations'], 'every fully coded dataset',
  'Five sample datasets are tested.',
  [BIAS, PI, KAP], [('bias', BIAS + ':__artstein_poesio_bias_linear__')])
p('M01', 'Summaries report population mean, deviation, variance and error',
  'Summarizing a non-empty mapping of numbers gives the arithmetic mean, population standard deviation, population variance, standard error (deviation over the square root of the count) and the count of its values. The variance is never negative and is 0 exactly when all values are equal, the mean lies between the extremes, and results do not depend on the order of the values.',
  ['inputs'], 'every non-empty collection of numeric values (integers or decimals)',
  'One list of eight integers is tested.',
  [MTH, CMP], [('statistics', MTH), ('summary', CMP + ':summarize')])
p('I01', 'Adding datasets merges codings and never overwrites one',
  'a + b and a += b hold exactly the codings of both, with the union of items and of coders; if both hold a coding for the same item and coder the data error is raised instead of overwriting either. Properties, boundary types and format of a sum are those of the left operand. a + b changes neither operand, and a later change to the result does not show in the operands of a + b. Adding more to a after a += b leaves b as it was.',
  ['inputs', 'histories'], 'every pair of datasets, overlapping in any way, and every sequence of additions',
  'Three pairs of one-item datasets are tested.',
  [DAT], [('merge', DAT + ':Dataset.__iadd__'), ('copy and merge', DAT + ':Dataset.__add__')])
p('I02', 'Dataset copies are complete and independent',
  'A copy of a dataset equals it in items, codings, coders, properties, boundary types and boundary format, and no later change to either - of codings, items, coders, properties or types - is visible in the other.',
  ['inputs', 'histories'], 'every dataset and every later modification of copy or original',
  'Copy is only used in passing by one test.',
  [DAT], [('deep copy', DAT + ':Dataset.copy')])
p('I03', 'Writing a dataset to JSON and reading it back preserves it',
  'Reading a JSON file written from any mass dataset with string names gives the same items, coders and masses as tuples, the dataset\'s properties, and the set of its coders, so that every metric and agreement coefficient gives the same result on it. Writing does not change the dataset; a file without items, with a missing or different segmentation type, or that is not JSON is rejected with the data error; given a folder, output.json in it is written.',
  ['inputs'], 'every mass dataset and every kind of malformed header',
  'One sample is read and written; agreement is never computed on a loaded dataset.',
  [JSN, DAT], [('serialise', JSN + ':output_linear_mass_json'), ('load', JSN + ':input_linear_mass_json')])
p('I04', 'Reading TSV files preserves every coding',
  'Reading a delimited mass file gives one item named after the file, one coder per data row under its first field, and the remaining fields as integer masses in order, for any delimiter stated; the position variant gives the masses of the labelled runs. A file coding one coder twice is rejected with the data error. The dataset lists exactly those coders, so agreement can be computed on it.',
  ['inputs'], 'every table of rows and every delimiter',
  'One file per reader is tested.',
  [TSV, DAT], [('mass reader', TSV + ':input_linear_mass_tsv'), ('position reader', TSV + ':input_linear_positions_tsv')])
p('I05', 'Loading a folder tree collects exactly its data files',
  'Loading a folder tree reads every file of the requested type (by extension, whatever its case) at every depth and no other file, and names each item by its folder path below the root and its own name joined by commas; all codings and coders are present, the codings of one item spread over several files are combined, and duplicates of one coder for one item raise the data error. Separate loads do not influence each other.',
  ['inputs', 'histories'], 'every folder tree (any depth, mixed files and folders) and sequence of loads',
  'One tree of the repository itself is loaded once.',
  [DAT], [('recursive load', DAT + ':load_nested_folders_dict'), ('merge', DAT + ':Dataset.__iadd__')])
p('I06', 'A dataset holds exactly what it was created with',
  'A dataset has exactly the items, codings, coders, properties, boundary types and boundary format it was created with (no properties, type 1 and masses where not given), and an item that is not there yet is empty and can be filled. Its properties and types are its own: later changes to those passed do not show in it nor the other way round, and separate datasets share nothing. Agreement on a plain dictionary of codings equals agreement on the dataset made from it.',
  ['inputs', 'histories'], 'every mapping of items to codings, every set of types, format and properties',
  'The tests construct datasets from fixed dictionaries and hardly look at anything but the codings.',
  [DAT, AGR], [('construction', DAT + ':Dataset.__init__'), ('coders', DAT + ':get_coders')])
p('P01', 'Every public name can be imported first and in any order',
  'In a fresh interpreter, each public name of the package can be accessed or imported as the first one, and in any order, always giving the object its defining module holds.',
  ['histories', 'configurations'], 'every order of first accesses to public names',
  'The tests run in one process that imports names in one fixed order.',
  [INIT, UT, CMP], [('lazy attribute import', INIT + ':module.__getattr__'), ('mutual imports', UT)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for r in P:
        f.write(json.dumps(r) + '\n')
print(len(P))
