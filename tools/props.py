NOTE = ('Sound up to the abstraction for the obligations marked discharged: every path through the code that the entry points reach is '
        'merged into one value graph and compared with the definition for all argument values. Assumes mpmath/sympy numbers are exact, '
        'the stated shapes of the arguments (small concrete lengths, unbounded symbolic entries), and the library models of engine/models.py. '
        'Obligations listed as undecided in the evidence are not covered.')

PROPS = [
 dict(id='C01', title='LHS adjustments keep value, parameters and target consistent',
  statement='After any sequence of sign flips, integer shifts, canonicalisations, queries and re-initialisations, the value a left-hand side '
  'reports equals its formula applied to the parameters it reports, and equals the originally constructed value with exactly those flips and '
  'shifts applied. Copies are independent of the original, and the value is NaN exactly when the formula has no normal value. '
  'The canonical form of a rational function is in lowest terms, with the free coefficient of its polynomial quotient moved into the added integer up to its ceiling.',
  over=['inputs', 'histories'], quant='all integer parameters, target constants and operation sequences up to length 3, both LHS families',
  why='tests build a few evaluators with fixed parameters and short fixed sequences; the guarantee is about every parameter tuple and order of operations',
  files=['lhs_evaluators.py'], mech=[('evaluator methods', 'lhs_evaluators.py ULCDEvaluator, RationalFuncEvaluator')], note=NOTE),
 dict(id='C02', title='Refinement keeps exactly the clicks agreeing at the required accuracy',
  statement='Refining keeps a click iff its continued fraction has a usable value and its leading digits agree, at the required accuracy and under '
  'the chosen truncation, with those of its left-hand side. The left-hand side of a kept click is made equal to that value up to sign and nearest integer and then canonicalised; '
  'order, polynomials, post-processing function and convergence information of kept clicks are unchanged.',
  over=['inputs'], quant='all values, coefficients and accuracies, click lists up to length 2, both refinement methods and truncation modes',
  why='no test runs a refinement; its branches on signs, undefined values and agreement depend on every click',
  files=['enum_params.py', 'cont_fracs.py'], mech=[('refinement', 'enum_params.py MITM._refine_clicks, compare_dec_with_accuracy')], note=NOTE),
 dict(id='C03', title='Clicks are exactly the pairs agreeing on the leading digits',
  statement='Looking for clicks reports each non-degenerate left-hand side once per stored entry whose key has the same leading digits as the (truncated) absolute value of the left-hand side, '
  'in enumeration order, with an evaluator of its own; nothing of an earlier search is kept, and the table is not changed. '
  'A left-hand side is degenerate iff u = -l = 1 or -1 (ULCD), or its quotient in lowest terms is a constant or zero (rational).',
  over=['inputs', 'histories'], quant='all values and keys, up to 2 left-hand sides and 2 entries, repeated searches',
  why='tests never search a table; exactness is about every value and key',
  files=['enum_params.py', 'decimal_hashtable.py'], mech=[('click search', 'enum_params.py MITM.find_clicks')], note=NOTE),
 dict(id='C04', title='The table stores every usable value exactly once under its digits',
  statement='Building or extending the table stores, for every enumerated polynomial pair and selected post-processing function, one entry under the digits of the (truncated) absolute value, '
  'skips undefined values, and never stores the same entry twice when asked not to replicate; building never disturbs entries already there.',
  over=['inputs', 'histories'], quant='all coefficients and post-processing functions, up to 2 pairs, build followed by extend',
  why='tests build no table', files=['enum_params.py', 'decimal_hashtable.py'], mech=[('table building', 'enum_params.py MITM.build_hashtable, _iter_hashtable / extend')], note=NOTE),
 dict(id='C05', title='A digit-keyed table finds exactly the same-digits entries',
  statement='Every access form of the digit-keyed table (indexing, membership, get, setdefault, assignment, deletion, with number or string keys) addresses the entry whose number has the same '
  'leading digits at the accuracy of the table; other entries and the stored parameters are not affected.',
  over=['inputs', 'histories'], quant='all numbers, accuracies and operation sequences of length up to 3',
  why='tests read and write a few literal keys', files=['decimal_hashtable.py'], mech=[('digit keys', 'decimal_hashtable.py DecimalHashTable')], note=NOTE),
 dict(id='C06', title='Entries stored at an earlier accuracy stay reachable',
  statement='After the accuracy of a table is changed, an entry stored before the change is still found by its number through every access form, and storing under it again '
  'replaces it instead of duplicating it.',
  over=['inputs', 'histories'], quant='all numbers and accuracies, store - change accuracy - access histories',
  why='tests never change the accuracy of a table', files=['decimal_hashtable.py'], mech=[('accuracy update', 'decimal_hashtable.py DecimalHashTable.update_accuracy, _manipulate_key')], note=NOTE),
 dict(id='C07', title='Saving, loading and joining tables loses and duplicates nothing',
  statement='Copying, pickling, appending and joining digit-keyed tables keeps every entry of every source under its own digits and merges equal keys without duplicates. '
  'The joining script writes the union of all its input files to the output, refuses to overwrite an existing output, and leaves its inputs alone.',
  over=['inputs', 'histories'], quant='all entries and accuracies, up to 3 tables of up to 2 entries',
  why='tests never save or join tables', files=['decimal_hashtable.py', 'join_hashtables.py', 'enum_params.py'],
  mech=[('merge', 'decimal_hashtable.py append_dict / join_hashtables.py')], note=NOTE),
 dict(id='C08', title='Convergents follow the recurrence of the continued fraction',
  statement='The convergent p/q reported after n iterations is the finite continued fraction a0 + b1/(a1 + b2/(...)) of the given interlaced '
  'polynomials, for logged and unlogged evaluation, and every form of giving the coefficients (flat list, interlaced list, evaluator) denotes the same sequence. '
  'The reported result is p/q, or NaN when it is undefined.',
  over=['inputs'], quant='all coefficient values, interlace counts up to 3 and a symbolic step of the recurrence',
  why='tests compare a handful of known continued fractions with their constants numerically',
  files=['cont_fracs.py', 'utils.py', 'basic_representation_types.py'], mech=[('recurrence', 'cont_fracs.py ContFrac.gen_iterations'), ('coefficient evaluation', 'utils.py MathOperations.subs_in_polynom')], note=NOTE),
 dict(id='C09', title='Extending, logging and reusing an evaluation equals a fresh evaluation',
  statement='Evaluating i iterations and then adding j gives exactly the convergent, result and executed count of a fresh evaluation of i+j, with and without '
  'logging, and nothing of an earlier evaluation survives a restart or re-initialisation. A known exponential convergence rate reduces the number of iterations exactly to '
  'what the required accuracy needs, never otherwise.',
  over=['inputs', 'histories'], quant='all coefficients; histories of up to 3 blocks and re-initialisations',
  why='tests run one evaluation per object, so state leaking between evaluations is never observed',
  files=['cont_fracs.py'], mech=[('iteration state', 'cont_fracs.py ContFrac.gen_iterations, add_iterations, reinitialize')], note=NOTE),
 dict(id='C10', title='A zero numerator stops the evaluation',
  statement='With zero numerators disallowed, evaluation raises the zero-numerator error iff one of the partial numerators it has to use is zero, and '
  'otherwise returns the ordinary convergent; an object that was stopped evaluates correctly after re-initialisation.',
  over=['inputs', 'histories'], quant='all coefficients, 0 to 3 iterations, interlace counts up to 2, stop followed by reuse',
  why='no test gives polynomials with roots at an iterated index together with reuse',
  files=['cont_fracs.py'], mech=[('zero check', 'cont_fracs.py ContFrac.gen_iterations / ZeroB')], note=NOTE),
 dict(id='C11', title='Plain enumeration yields every polynomial pair of the ranges exactly once',
  statement='The plain enumerator yields every pair of polynomials whose coefficients lie in the given ranges exactly once, in lexicographic order, interlaces of equal polynomials '
  'collapsed to one, pairs with a forbidden numerator root left out when roots are not allowed; each pair comes with a continued fraction of exactly its own coefficients.',
  over=['inputs'], quant='all range bounds (one- and two-element ranges with symbolic ends, one arbitrary range), up to 3 coefficients and 2 interlaces',
  why='tests compare enumerations of a few literal ranges', files=['enum_poly_params.py'], mech=[('enumeration', 'enum_poly_params.py NormalPolyParams / polys_generator')], note=NOTE),
 dict(id='C12', title='Indexed and sparse enumerations describe the intended polynomials',
  statement='Indexed parameters (a_0, a_1, ...) stand for the polynomial sum of a_i (x+i)^n, expanded exactly; sparse enumeration yields every placement of the given number of coefficients '
  'exactly once, each with its own continued fraction.',
  over=['inputs'], quant='all coefficients and evaluation points, exponents up to 3, placements up to 4 positions',
  why='tests check a few literal expansions', files=['enum_poly_params.py'], mech=[('expansion and placement', 'enum_poly_params.py IndexedParameterEnumPolyParams, SparseParameterEnumPolyParams')], note=NOTE),
 dict(id='C13', title='Pairs are dropped for integer roots exactly when the numerator has one',
  statement='When numerator roots are not allowed, a pair is dropped iff one of its numerator polynomials of degree up to two is zero or has a non-zero integer root; the click filter drops a click iff a numerator has a '
  'numerically positive integer root. Everything else is kept unchanged and in order.',
  over=['inputs'], quant='all coefficients, polynomials of degree 0 to 2, up to 2 interlaces and clicks',
  why='tests check a few polynomials', files=['enum_poly_params.py', 'enum_params.py'], mech=[('integer root test', 'enum_poly_params.py _does_have_integer_roots; enum_params.py filter_pos_integer_roots_numerators')], note=NOTE),
 dict(id='C14', title='Announced enumeration lengths equal the number of candidates',
  statement='The length every enumerator announces (polynomial pairs of the plain, indexed and sparse kind, left-hand sides of both families) is the number of candidates its ranges describe, also when it is asked again or reused.',
  over=['inputs'], quant='all range bounds and steps, up to 3 coefficients and interlaces',
  why='tests never compare the announced with the described length', files=['enum_poly_params.py', 'lhs_evaluators.py'], mech=[('length computation', 'enum_poly_params.py polys_generator; lhs_evaluators.py __len__')], note=NOTE),
 dict(id='C15', title='ULCD enumeration yields exactly the legal parameters with their values',
  statement='The ULCD enumerator yields exactly the (u, l, c, d) of the given ranges (an integer, a pair or a triple each) with l and d non-zero and |c| < |d|, once each and in order, each carrying the value (u/x + x/l + c)/d; enumerating again gives the same.',
  over=['inputs'], quant='all range bounds of one- and two-element ranges plus one arbitrary range per parameter',
  why='tests enumerate no left-hand sides', files=['lhs_evaluators.py'], mech=[('enumeration', 'lhs_evaluators.py ULCDEnumerator.generator')], note=NOTE),
 dict(id='C16', title='Rational-function enumeration yields exactly the usable quotients',
  statement='The rational-function enumerator yields exactly the quotients of polynomials with coefficients in the ranges that are neither zero nor constant over constant, respect the requested degree order and have normal values, once each and in order, each with its value.',
  over=['inputs'], quant='all range bounds, numerators of degree up to 2 and denominators up to 1',
  why='tests enumerate no left-hand sides', files=['lhs_evaluators.py'], mech=[('enumeration', 'lhs_evaluators.py RationalFuncEnumerator.generator')], note=NOTE),
 dict(id='C17', title='The uniqueness filter keeps the first click of every equivalence class',
  statement='Filtering unique clicks keeps, unchanged and in order, exactly the clicks that are not equivalent to an earlier one; filtering again changes nothing.',
  over=['inputs'], quant='every equivalence relation on up to 4 clicks',
  why='tests filter no click lists; the result depends on the whole relation', files=['enum_params.py'], mech=[('uniqueness filter', 'enum_params.py MITM.filter_uniq_params')], note=NOTE),
 dict(id='C18', title='Clicks are equivalent exactly when they state the same identity',
  statement='Two clicks with ULCD left-hand sides are equivalent iff they have the same continued fraction up to the sign of a and, without post-processing, parameters equal up to a positive scaling '
  '(u, l, c, d) ~ (ru, l/r, rc, rd) and signs, or are entirely equal under a post-processing function. Two rational clicks are equivalent iff the fraction agrees up to the sign of a and the quotients differ by a constant, the second one '
  'inverted when the post-processing functions are inverse to each other. Left-hand sides of different kinds are never equivalent.',
  over=['inputs'], quant='all parameters, coefficients, polynomial contents and post-processing indices; fractions with one or two interlaces',
  why='tests compare a few literal pairs', files=['lhs_evaluators.py', 'postprocfuncs.py'], mech=[('equivalence test', 'lhs_evaluators.py ULCDEvaluator.is_equiv, RationalFuncEvaluator.is_equiv')], note=NOTE),
 dict(id='C19', title='Convergence filters keep exactly the clicks that pass',
  statement='The exponential-convergence filter keeps exactly the clicks whose continued fraction passes the convergence-ratio test; the approach-type filter keeps exactly the clicks whose type is in the whitelist (or not in the blacklist), attaches the estimate to them, '
  'skips those it cannot estimate and refuses contradictory lists. Kept clicks are unchanged and in order.',
  over=['inputs'], quant='all click lists of up to 3 clicks, all outcomes of the estimates, all coefficients for the ratio test',
  why='tests run no filter on click lists', files=['enum_params.py', 'cont_fracs.py'], mech=[('filters', 'enum_params.py filter_only_exp_convergence, filter_clicks_by_approach_type; cont_fracs.py is_convergence_fast')], note=NOTE),
 dict(id='C20', title='An interrupted or failing stage loses no clicks',
  statement='When a filtering stage is interrupted or fails part-way, the clicks found so far are still there as they were before the stage; a search interrupted in its third refinement still exports the clicks of the last finished stage, and the clicks are saved even when the document cannot be produced.',
  over=['faults', 'histories'], quant='every interruption point of every stage on up to 3 clicks; every configuration of the pipeline',
  why='tests interrupt nothing', files=['enum_params.py', 'main.py'], mech=[('stage outcome replaced only at the end', 'enum_params.py MITM filters'), ('interrupt handling', 'main.py main')], note=NOTE),
 dict(id='C21', title='The search pipeline applies every stage with its configured parameters',
  statement='A search enumerates, stores or loads its table, finds clicks and applies every refinement and filter in the documented order, each with the parameters configured for it and on the outcome of the stage before, and exports what the last stage kept; '
  'an unknown constant or table operation is refused before anything is read or written.',
  over=['inputs', 'configurations'], quant='all configuration values, the three table operations, table-only or full search, several constants',
  why='no test runs main', files=['main.py'], mech=[('stage sequence', 'main.py main')], note=NOTE),
 dict(id='C22', title='Target constants have the right value and name',
  statement='Every target constant the search offers (pi, e, phi, Apery, Euler-Mascheroni, Feigenbaum, percolation, zeta at 2 to 20) agrees with the named mathematical constant to 97 digits (pi and e to 148), is the one the configuration names, '
  'and is reported under that name with its index; asking a generator for a precision sets that working precision.',
  over=['inputs'], quant='every offered constant and index, every asked precision', why='tests use one or two of the constants at one precision',
  files=['gen_consts.py', 'main.py'], mech=[('constant generators', 'gen_consts.py')], note=NOTE),
 dict(id='C23', title='Post-processing functions are the functions their names say',
  statement='Every post-processing function is the mathematical function its name says, sits at the index stored tables refer to, has the listed function as its inverse pair exactly when they are reciprocal, refuses what it is not defined for by an error value, '
  'and leaves the working precision as it found it.',
  over=['inputs'], quant='every registered function and index, every argument', why='tests apply one or two functions to a literal',
  files=['postprocfuncs.py'], mech=[('function registry', 'postprocfuncs.py POSTPROC_FUNCS, EVALUATED_POSTPROC_FUNCS, INVERSE_POSTPROC_PAIRS')], note=NOTE),
 dict(id='C24', title='Every equation written for a click states its identity',
  statement='The LaTeX equation of a click reads back as the identity the click stands for: the left-hand side in the target constant (with its name and index), the post-processing function, and the continued fraction with the polynomials of the click evaluated term by term; clicks that divide by zero are skipped, no other.',
  over=['inputs'], quant='all parameters and coefficients (digit strings with sign), depths up to 3, up to 3 clicks', why='tests compare a few literal strings',
  files=['enum_params.py', 'latex.py', 'lhs_evaluators.py', 'postprocfuncs.py'], mech=[('LaTeX output', 'enum_params.py get_results_as_eqns; latex.py latex_cont_frac; lhs_evaluators.py get_latex_exp; postprocfuncs.py POSTPROC_FUNCS_LATEX')], note=NOTE),
 dict(id='C25', title='A configuration file means what it spells',
  statement='Every option of a configuration file has the value its text spells in the type of that option (integers, ranges, booleans in any case, none, registered polynomial, left-hand-side and post-processing names, paths with their case kept), '
  'options left out have the documented defaults or are None, "auto" resolves by table operation, and text that spells no legal value is refused.',
  over=['inputs', 'configurations'], quant='every option, all integer values, every spelling class', why='tests read no configuration file',
  files=['configfile.py'], mech=[('option parsing', 'configfile.py ConfigParser')], note=NOTE),
 dict(id='C26', title='A configuration written by the program reads back the same',
  statement='The configuration file stored with the results of a search, and the files written for the parts of a distributed search, read back as the configuration they were written from, up to the table file and (for parts) the ranges.',
  over=['inputs', 'configurations'], quant='every option with all its values, all table operations, 2 and 4 parts', why='no test writes a configuration file',
  files=['configfile.py', 'main.py', 'distribute_run.py'], mech=[('writing options', 'configfile.py param_to_string, set; main.py; distribute_run.py')], note=NOTE),
 dict(id='C27', title='Tables are never overwritten and the newest one is read',
  statement='Generating or expanding a table writes the version after the newest stored version of that table and never an existing file; using or expanding reads the newest stored version; versions compare as numbers, an unversioned file is the oldest, '
  'files of other tables play no role, and the first table of a name gets the given or the first version.',
  over=['inputs', 'histories'], quant='all version numbers of up to 3 stored versions in any order, names with special characters, the three table operations', why='tests touch no table files',
  files=['configfile.py'], mech=[('file versions', 'configfile.py _gen_hashtable_filename')], note=NOTE),
 dict(id='C28', title='A distributed search covers its ranges exactly once',
  statement='Splitting a search into 2^k parts yields 2^k configuration files whose ranges are not empty and together contain every point of the given ranges exactly once, with a table file of its own for each part; a number of parts that is no power of 2, or more parts than points, is refused.',
  over=['inputs'], quant='all range bounds of up to 3 coefficients and 2 interlaces, 1, 2 and 4 parts', why='tests split nothing',
  files=['distribute_run.py'], mech=[('splitting', 'distribute_run.py split_params, main')], note=NOTE),
 dict(id='C29', title='The exported table of results tells every click',
  statement='Exporting results writes one file with the target and then, in the order of the results, one row for each: its two polynomials, post-processing function, left-hand-side parameters, convergence, and the decimal digits, at the working precision, of its continued fraction and of its left-hand side; the results themselves are not changed, and exporting again to the same file replaces it.',
  over=['inputs'], quant='up to 3 results, all parameters and values', why='tests export nothing',
  files=['enum_params.py'], mech=[('CSV export', 'enum_params.py export_to_csv')], note=NOTE),
 dict(id='C30', title='Redefined settings govern the rest of a search',
  statement='After the settings of a stored search are redefined, the next step uses exactly the new target, enumeration, ranges, precision and post-processing functions, on the left-hand sides the table already holds.',
  over=['inputs', 'histories'], quant='every setting with all its values', why='tests redefine nothing',
  files=['enum_params.py'], mech=[('redefinition', 'enum_params.py redefine_settings')], note=NOTE),
 dict(id='C31', title='Convergence of an ideal sequence is estimated as what it is',
  statement='A continued fraction whose convergents approach their limit geometrically is reported exponential with that rate and scale, at every cutoff and step; one whose even and odd convergents differ in kind is reported mixed or undefined, one that settled is reported fast only when earlier terms settled too, '
  'and a slow one is reported by the lines fitted to the logarithms of its differences.',
  over=['inputs'], quant='all limits and scales, of sequences at given rates, cutoffs and steps', why='tests estimate a few known fractions at the default cutoffs',
  files=['cont_fracs.py'], mech=[('approach estimation', 'cont_fracs.py estimate_approach_type_and_params')], note=NOTE),
 dict(id='C32', title='Cleaning a table drops exactly the entries with integer roots',
  statement='The cleaning program writes, next to the given table file and without changing it, a table holding in their order exactly those entries none of whose b polynomials (up to degree 2) is zero or has an integer root other than 0, with all its settings; keys left without entries disappear.',
  over=['inputs', 'histories'], quant='all entries of tables of up to 3 keys, about 30 polynomials in all combinations of keeping and dropping', why='tests clean no table',
  files=['fix_hashtable_filter_init_b_root.py'], mech=[('cleaning', 'fix_hashtable_filter_init_b_root.py main')], note=NOTE),
 dict(id='C33', title='The clock, the report document and the batch tools do what they say',
  statement='The clock gives the time since its previous reading and since its start; the report document holds every equation once, unescaped and in order; running a folder runs each of its configuration files once and no other file; grouping yields the items in blocks with the last one filled up; '
  'an enumerator restores its own precision; polynomial evaluation and the greatest common divisor of positive numbers (in either order) are exact.',
  over=['inputs', 'histories'], quant='all readings of a clock, up to 4 equations, file lists, up to 7 items in blocks of up to 9, all coefficients of degree up to 4', why='tests use none of these tools',
  files=['utils.py', 'latex.py', 'run_distributed_configs.py', 'enum_poly_params.py'], mech=[('tools', 'utils.py MeasureRuntime, grouper, MathOperations; latex.py generate_latex; run_distributed_configs.py main; enum_poly_params.py reset_precision')], note=NOTE),
]
NA = [
 dict(id='C90', title='The reported convergence class is the true one', statement='The estimated approach type (exponential, super-exponential, polynomial) of a continued fraction is its true asymptotic convergence class.',
  quant='all polynomial continued fractions', why='tests classify a few known examples', files=['cont_fracs.py'], mech=[('curve fitting', 'cont_fracs.py estimate_approach_type_and_params')],
  reason='decided by least-squares fits on numerically computed errors; whether a fit picks the right asymptotic class depends on runtime numbers that no static argument bounds'),
 dict(id='C91', title='Every true identity in range is found', statement='Every identity between a left-hand side and a continued fraction in the enumerated ranges is reported by the search.',
  quant='all ranges, constants and precisions', why='tests run no search end to end', files=['enum_params.py', 'decimal_hashtable.py'], mech=[('digit keys', 'decimal_hashtable.py')],
  reason='depends on how fast each continued fraction numerically converges and on truncated digits agreeing near rounding boundaries; runtime quantities outside a value-flow abstraction with exact reals'),
 dict(id='C92', title='Working precision suffices for the digits compared', statement='The rounding error accumulated in evaluating continued fractions never reaches the digits used for table keys and comparisons.',
  quant='all evaluations', why='tests fix one precision', files=['cont_fracs.py', 'enum_params.py'], mech=[('precision settings', 'enum_poly_params.py set_precision')],
  reason='needs numerical error bounds on runs of the recurrence over unbounded coefficients; the static analysis treats numbers as exact'),
]
