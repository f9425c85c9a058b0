'''Writes ../properties.jsonl (kept as a script so that the statements are easy to edit).'''
import json, pathlib
KE, KX, KR, MO, UT = ('GPy_ABCD/KernelExpressions/', 'GPy_ABCD/KernelExpansion/', 'GPy_ABCD/Kernels/', 'GPy_ABCD/Models/', 'GPy_ABCD/Util/')
P = []
def prop(id, title, statement, over, text, why, files, mech, observe = ()):
    P.append(dict(id = id, title = title, statement = statement, quantifier = dict(over = over, text = text), why_tests_cant = why,
                  anchors = dict(files = files, mechanism = [dict(name = n, where = w) for n, w in mech], observe_at = list(observe), hook_needed = None)))

prop('C01', 'Every kernel expression simplifies to its documented normal form',
     'However a kernel expression is nested, ordered, or built up step by step, simplifying it gives the one normal form that the documented rules define: nested sums and products flattened and singletons unwrapped; in sums WN and C idempotent and C absorbed by an offset-bearing LIN; in products WN replacing every base kernel but LIN, C dropped as the identity, and SE idempotent. '
     'Simplifying again changes nothing, and the order in which terms were given never matters.',
     ['inputs', 'programs'], 'all expression trees (any nesting, multiplicity and order of WN, C, LIN, SE, PER under sums, products, change-points and change-windows)',
     'test_kernelExpressions.py simplifies a few dozen hand-written trees; confluence and idempotence quantify over all trees and all orders.',
     [KE + 'commutative_base.py', KE + 'commutatives.py', KE + 'change.py', KE + 'base.py', KX + 'grammar.py'],
     [('simplify / simplify_base_terms / absorb_homogeneous_composites / absorb_singletons / extract_if_singleton', KE + 'commutative_base.py, commutatives.py, change.py'), ('standardise_singleton_root', KX + 'grammar.py')])
prop('C02', 'Expression equality, printed forms and queries are purely structural',
     'Two expressions compare equal exactly when they are the same kernel up to the order of the terms of sums and products, and equality is an equivalence relation that ignores where in a tree they sit. '
     'Evaluating the repr of an expression gives an equal expression, and reading back its printed form (with the usual precedence) gives the same kernel. Queries (base kernel contained, stationarity, number of terms) answer according to that structure.',
     ['inputs'], 'all pairs of expressions, in all term orders',
     'Tests compare a handful of pairs; they cannot show that no two different expressions collide or that no two equal ones differ, on which the de-duplication of the whole search rests.',
     [KE + 'commutative_base.py', KE + 'change.py', UT + 'genericUtil.py'],
     [('__eq__ via eq_elems on composite terms', KE + 'commutative_base.py'), ('__str__ / __repr__ / contains_base / is_stationary / term_count', KE)])
prop('C03', 'Expression trees stay well-formed and operations never alter their operands',
     'After any sequence of constructing, expanding, node-replacing, copying and pickling operations, every node of the resulting tree names its actual parent and the actual root, the root has no parent, and no node occurs twice in it. '
     'Neither these nor any other documented operator modify the expressions they are given, and trees made by construction, expansion, node replacement and copying share no structure with them; replacing one node of a tree changes exactly that node, even when equal nodes occur elsewhere in the tree.',
     ['histories', 'programs'], 'all operation sequences over all expressions',
     'Parent/root links are checked by tests on a few fixed trees after one operation; aliasing only shows after further operations on the earlier results.',
     [KE + 'base.py', KE + 'commutative_base.py', KE + 'change.py', KX + 'kernelExpressionOperations.py', KX + 'grammar.py'],
     [('set_root / set_parent / _set_all_parents / new_tree_with_self_replaced / reassign_child', KE), ('deepcopy in constructors and new_composite', KE), ('POLICY comment: no operator modifies its arguments', KX + 'kernelExpressionOperations.py')])
prop('C04', 'Each production rule yields exactly its documented rewrites',
     'Expanding an expression with a production rule yields, up to simplification, exactly the expressions obtained by applying that rule\'s documented rewrite (e.g. S -> S + B, S -> S * B, B -> B\', S -> CP(S, B), S -> CW(S, C), S -> S * (B + C), S -> B, S + S2 -> S) once, at each place of the expression it applies to, including the base-kernel leaves, for every base kernel it ranges over: none missing, none extra.',
     ['inputs', 'programs'], 'all production rules, at all positions of all expressions',
     'test_grammar.py pins the expansion of a few expressions; a rewrite missing at one position of one shape silently removes models from every search.',
     [KX + 'grammar.py', KX + 'kernelExpressionOperations.py', KE + 'change.py', KE + 'base.py'],
     [('production rules and deep_apply', KX + 'grammar.py'), ('add / multiply / swap_base / one_change / both_changes / replace_node / remove_a_term / higher_curves', KX + 'kernelExpressionOperations.py'), ('traverse + reassign_child', KE)])
prop('C05', 'Expansion is duplicate-free, canonical, closed and history-independent',
     'Whatever sequence of expansions leads to an expression, expanding it with any group of rules gives a list without duplicates of independent, fully simplified root expressions which is the union of what each rule gives alone, does not depend on rule order, on earlier expansions or on how the expression was produced, and leaves the expanded expression as it was. '
     'Every expression so reached can itself be expanded and turned into a kernel.',
     ['histories', 'programs'], 'all expansion histories from all start kernels, for all rule groups',
     'Tests expand single expressions once; the search relies on arbitrarily deep expansion of expressions that were themselves produced by expansion.',
     [KX + 'grammar.py', KX + 'kernelExpressionOperations.py', KE + 'base.py'],
     [('expand / expand_node / roots / standardise_singleton_root / unique', KX + 'grammar.py'), ('default groups of start kernels and production rules', KX + 'grammar.py')])
prop('C06', "An expression's kernel computes exactly the expression's formula",
     'For every expression and every value of the parameters, the covariance function built from it equals the formula the expression denotes (sums, products, and sigmoid-weighted change-points and change-windows of the base covariances) evaluated with the parameters that the fitted expression reports for each of its terms. '
     'Every free parameter of the kernel is attributed to exactly one term, and a product has exactly one free variance for all of its base factors.',
     ['inputs', 'programs'], 'all expressions (any multiplicity of equal terms), all parameter values, all input points',
     'Tests only print kernels; mismatching two equal-typed terms or detaching a sub-kernel needs particular shapes (repeated kinds at several levels) and distinct parameter values to show.',
     [KE + 'commutatives.py', KE + 'change.py', KE + 'commutative_base.py', KX + 'kernelOperations.py', KR + 'changeOperators.py', KR + 'baseKernels.py'],
     [('to_kernel', KE), ('match_up_fit_parameters / get_param_dict / base_k_param_names', KE + ', ' + KX + 'kernelOperations.py'), ('ChangeKernelBase.K', KR + 'changeOperators.py')])
prop('C07', 'The sum-of-products form is the same covariance as the fitted kernel',
     'The expanded form used to describe a fitted model is always a sum of products of base kernels and sigmoids only, with exactly the components given by distributing products and changes over sums, one overall variance per component, and one set of parameters per factor. '
     'Evaluated with those parameters it is the same covariance function as the fitted kernel, and computing it does not alter the model.',
     ['inputs', 'programs'], 'all expressions and all fitted parameter values',
     'By-inspection tests print the form of six expressions; parameter absorption (variances multiplying, C dropping, WN absorbing, SE lengthscales combining) depends on every combination of factors meeting in a product.',
     [KE + 'commutatives.py', KE + 'change.py', KX + 'kernelOperations.py', MO + 'model.py'],
     [('sum_of_prods_form / new_bases_with_parameters / simplify_base_terms_params / multiply_pure_prods_with_params / add_sum_of_prods_terms', KE + 'commutatives.py, change.py')])
prop('C08', 'The natural-language interpretation states the fitted components faithfully',
     'For every fitted expression, the interpretation is produced without error, announces the true number of components, and describes each component by its actual kinds of factors (all of them) with the fitted parameters, rounded: periods and lengthscales of every periodic factor, lengthscale of smooth ones, order and roots of linear ones, the interval(s) it applies to, and its overall variance. '
     'It states change slopes exactly when they are fitted parameters.',
     ['inputs', 'programs', 'configurations'], 'all expressions and all fitted parameter values',
     'Tests print a few interpretations for a human to look at; nothing compares them with the model.',
     [KX + 'kernelInterpretation.py', KE + 'base.py'],
     [('base_factors_interpretation / first_term_interpretation / postmodifier_interpretation', KX + 'kernelInterpretation.py'), ('get_interpretation', KE + 'base.py')])
prop('C09', 'Reducing sigmoids to intervals is set intersection',
     'For any collection of ascending, descending, indicator and reversed-indicator sigmoids multiplying a component, the reported intervals are disjoint, in increasing order, non-empty, and their union is exactly the intersection of the regions where the individual sigmoids are on; each finite end carries the slope of a sigmoid that has its edge there. '
     'An empty intersection is reported as such, and no collection makes the reduction fail.',
     ['inputs'], 'all multisets of the four sigmoid kinds with all relative orders (and coincidences) of their edges',
     'The tests fix about twenty combinations; the number of relative orders of edges grows factorially and several of the code\'s branches are reached by no test.',
     [KX + 'kernelInterpretation.py'],
     [('S_overlap / Sr_overlap / SI_overlap / SIr_overlap / simplify_sigmoidal_intervals / intersect_*', KX + 'kernelInterpretation.py'), ('sigmoids_to_intervals', KX + 'kernelInterpretation.py')])
prop('C10', 'Every kernel is the covariance its documentation states',
     'For all parameter values and inputs, the linear-with-offset, purely-periodic, sigmoid and sigmoid-indicator kernels (plain and reversed) and the change-point and change-window kernels (also those with shifted sides or of three parts) equal their documented formulas, including across the numerical regimes of the periodic kernel, which join continuously. '
     'Each is symmetric and positive semi-definite, its diagonal agrees with the full matrix, and the cross-covariance of two input sets is the corresponding block of the joint matrix.',
     ['inputs'], 'all parameter values (incl. regime boundaries and extremes) and input sets (incl. coincident points and different sizes)',
     'The regress/show scripts plot kernels; no test asserts a value.',
     [KR + 'linearOffsetKernel.py', KR + 'periodicKernel.py', KR + 'sigmoidalKernels.py', KR + 'changeOperators.py', KR + 'linearKernel.py'],
     [('K / Kdiag / _phi and the numba helpers', KR), ('regime switch of the periodic kernel', KR + 'periodicKernel.py')])
prop('C11', 'Kernel gradients are the derivatives of the covariance',
     'For every kernel, parameter value, input sets and upstream gradient (a symmetric one, as GP inference gives, where the second input set is omitted), the gradient of each parameter equals the derivative of the weighted sum of covariances with respect to it; the only approximation is the documented one that location, slope and width of change kernels are driven by their second side\'s sigmoid alone. '
     'In expressions every parameter receives its gradient, however deep its term is.',
     ['inputs', 'programs'], 'all kernels, parameter values and regimes, input sets (same or different) and upstream gradients; all expressions',
     'No test checks a gradient; a wrong one only shows as worse fits.',
     [KR + 'linearOffsetKernel.py', KR + 'periodicKernel.py', KR + 'sigmoidalKernels.py', KR + 'changeOperators.py'],
     [('update_gradients_full', KR)])
prop('C12', 'Kernels never answer from a stale state',
     'After any sequence of parameter changes (single or whole-vector), randomisations, copies, pickles, covariance, diagonal and gradient evaluations on any inputs, a kernel\'s covariance is that of a freshly built kernel with the same parameter values. '
     'A copy is equal to and independent of its original.',
     ['histories'], 'all histories of parameter updates and evaluations of all kernels',
     'Kernels cache covariances and propagate change parameters to hidden sigmoids by callbacks; staleness needs an evaluate-change-evaluate history, which no test performs.',
     [KR + 'changeOperators.py', KR + 'sigmoidalKernels.py', KR + 'linearOffsetKernel.py', KR + 'periodicKernel.py'],
     [('Cache_this', KR), ('parameters_changed of change kernels', KR + 'changeOperators.py')])
prop('C13', 'Model search follows its stated protocol for every possible scoring',
     'Whatever scores the fitted models get, each round expands exactly the best not-yet-expanded models (as many as that round\'s beam), fits exactly the new expressions which no earlier round tested, each once, and never expands a model twice. '
     'The results are all the tested models by increasing score, the models of each round by increasing score, all tested expressions, and the partition of the models into expanded and not expanded; this holds for any numbers of rounds and any beam list (whose last value repeats), and when expansion yields nothing new.',
     ['histories', 'inputs'], 'all orders (with ties) in which the models of each round may score, all beams, rounds and start kernels',
     'The real search depends on numerical fits; checkModelSearch.py runs one search for a human to read.',
     [MO + 'modelSearch.py', UT + 'genericUtil.py'],
     [('explore_model_space / model_search_rounds', MO + 'modelSearch.py'), ('diff / unique / flatten', UT + 'genericUtil.py')])
prop('C14', 'Continuing a search equals having searched longer, and searches are isolated',
     'Running some rounds and continuing from the returned results for more rounds gives the same results as one search of all those rounds, for every split, and leaves the results it continued from as they were. '
     'No search affects another one: the default arguments, the exported groups of start kernels and rules, and the caller\'s lists and data are unchanged by it, and repeating a search with the same scores repeats its results.',
     ['histories'], 'all splits of rounds and sequences of searches and continuations, over all scorings',
     'No test runs a search at all, let alone two.',
     [MO + 'modelSearch.py', KX + 'grammar.py'],
     [('model_search_rounds taking the outputs of explore_model_space', MO + 'modelSearch.py'), ('module-level default start kernels and rules', KX + 'grammar.py')])
prop('C15', 'Failed fits are retried exactly as configured',
     'For every pattern of failing and succeeding fit attempts, a model is fitted by its first successful attempt if that is within one plus the allowed number of retries, and otherwise the last error is raised; no attempt is made after a success, one warning is given per retry, and every attempt starts afresh with the same data, expression, restarts and optimiser. '
     'Interrupts are never retried, and a retried model is indistinguishable from one that never failed.',
     ['fault_sequences'], 'all sequences of attempt outcomes (success, numerical errors, interrupts), all retry limits',
     'Fits fail rarely and numerically; no test injects a failure.',
     [MO + 'modelSearch.py', MO + 'model.py'],
     [('fit_one_model', MO + 'modelSearch.py')])
prop('C16', 'Fitting in parallel is indistinguishable from fitting in sequence',
     'For every list of expressions, every order in which concurrent fits finish and every pattern of failing attempts, the parallel fitter returns one fitted model per expression, in the order given, each equal to the one the sequential fitter returns (expression, data, parameters, score, predictions and interpretation), or raises an error exactly when the sequential one does.',
     ['schedules', 'fault_sequences'], 'all completion orders of concurrent fits, all patterns of failed attempts, any number of expressions (also none, and more than processors)',
     'Completion order is up to the operating system; no test uses the parallel fitter.',
     [MO + 'modelSearch.py', MO + 'model.py'],
     [('fit_mods_parallel_processes (chunked asynchronous pool map)', MO + 'modelSearch.py'), ('pickling of models', MO + 'model.py')])
prop('C17', 'A model always answers for its latest fit',
     'After any sequence of fits and refits (with or without given restarts), parameter reports, interpretations, expanded forms, scores, predictions, copies and pickles, everything a model reports is what a freshly created model with the same data, expression and last fitted parameters reports. '
     'Before the first fit the reports that need one raise an error, a fit without any known number of restarts is refused, and the model\'s expression and data are never altered.',
     ['histories'], 'all sequences of model operations up to a depth, for all outcomes of the optimiser',
     'A model caches its expanded form and score; only histories that refit in between can reveal stale answers, and no test fits twice.',
     [MO + 'model.py', KX + 'kernelOperations.py'],
     [('fit / sum_of_prods_kex cache / interpret / compute_utility cache / predict', MO + 'model.py')])
prop('C18', 'Scores are the stated criteria of the right quantities',
     'For every fitted model, BIC, AIC and AICc are the standard formulas of its log-likelihood, its number of data points and its number of freely estimated parameters (those of its expression, with one variance per product of base kernels, plus the noise variance), so that at equal likelihood fewer parameters always score better (AICc where it is defined: with at least two data points more than parameters). '
     'LA_LOO is the mean log predictive density of each point given the others. The score a model stores is the one computed last (for the model as it then is), with that criterion\'s name.',
     ['inputs', 'programs'], 'all log-likelihoods, data sizes and parameter counts; all expressions',
     'No test computes a score; a wrong count biases every search.',
     [UT + 'modelUtil.py', MO + 'model.py', KE + 'commutatives.py'],
     [('BIC / AIC / AICc', UT + 'modelUtil.py'), ('_ll / _n / _k / compute_utility', MO + 'model.py')])
prop('C19', 'Predictions are those of the Gaussian process the model denotes',
     'For every expression, parameter values and data, the predicted mean, covariance (full or marginal, with or without observation noise) and lower and upper quantiles equal the closed-form posterior of a Gaussian process with the expression\'s covariance and the fitted noise, at any prediction points, including the training ones and in any order. '
     'The reported quantiles are the requested ones, low below high.',
     ['inputs', 'programs'], 'all expressions, parameters, data sets, prediction points and prediction options',
     'No test predicts.',
     [MO + 'model.py', KE, KR],
     [('predict', MO + 'model.py'), ('covariance functions', KR)])
prop('C20', 'The generic list, fold and interval utilities meet their definitions',
     'For all arguments, the exported generic helpers (consumption fold, partition, grouping, first match, flattening, unique, multiset equality and difference, topological sort, unzip, mapping zip, chunking, dictionary update, interval overlap) return what their definitions say, keep element order where they promise to, work for elements that only support equality, and (unless documented) leave their arguments unmodified.',
     ['inputs'], 'all small lists (with duplicates), predicates and graphs',
     'They have no tests of their own.',
     [UT + 'genericUtil.py'], [('each function', UT + 'genericUtil.py')])
prop('C21', 'Synthetic data generators produce the functions they describe',
     'For all component functions, change locations and inputs, generated change-point and change-window data follow the first function outside and the second inside the change region (ends included in the second), are continuous at the changes when lining up is requested, are scaled by the given weight, and without noise are exactly that, each function being asked only where it is followed (lined up, also at the changes); inputs may be one-dimensional and are returned as columns.',
     ['inputs'], 'all functions, change locations relative to the inputs, weights and flags',
     'They have no tests of their own.',
     [UT + 'dataAndPlottingUtil.py'], [('cp_f_maker / cw_f_maker / generate_*', UT + 'dataAndPlottingUtil.py')])
prop('C22', 'The guarantees hold under every core configuration',
     'For every combination of the core configuration flags (SE included or not, linear kernel with or without offset, pure or full periodic kernel, fixed or fitted change slopes, shared or independent window sides) and every hash seed: the same normal forms and rewrites (with the stated differences), kernels that compute the expression\'s formula with attributed parameters (except the shift of independent sides, which expressions do not represent), and interpretations which match them (and, but for windows with independent sides, whose expanded form is that of plain ones, expanded forms with the same covariance).',
     ['configurations', 'inputs'], 'all flag combinations and hash seeds, over all small expressions',
     'The flags are read once at import: a test run sees one of the 32 configurations.',
     ['GPy_ABCD/config.py', KR + 'baseKernels.py', KX + 'grammar.py', KX + 'kernelInterpretation.py', KX + 'kernelOperations.py', KE + 'commutatives.py'],
     [('flags read at import', 'GPy_ABCD/config.py and its importers')])
prop('C23', 'Entry points accept every documented form of their inputs',
     'Data given as lists, one-dimensional arrays or columns, and start kernels given by name, as expressions or mixed, lead to the same fits and (also continued) searches; things which are no known kernel are refused with an error before any fit is made, malformed beams before any expansion. '
     'Fitting a single expression through the convenience function is the same as fitting, scoring and interpreting it by hand.',
     ['inputs'], 'all documented input forms, in all combinations',
     'No test calls the entry points.',
     [MO + 'modelSearch.py', UT + 'modelUtil.py', KX + 'grammar.py'],
     [('shape normalisation', MO + 'modelSearch.py, ' + UT + 'modelUtil.py'), ('pseudo_to_real_kex / make_simple_kexs', KX + 'grammar.py')])
prop('C24', 'Sampled curves of a kernel are draws from its prior',
     'For every kernel, limits and number of curves, the plot of sample curves shows exactly that many curves, each over 500 even points of the limits and each an unaltered draw from the zero-mean Gaussian process with that kernel\'s covariance at the parameters it then has (white noise included): freshly randomised ones for each curve, or the same for all of them if so asked. '
     'Saving samples leaves exactly one picture per kernel, with its name, in the given folder.',
     ['inputs'], 'all kernels, limits, numbers of curves and flags; all lists of kernels and forms of folder',
     'Plots are never looked at by tests; these functions have none.',
     [UT + 'kernelUtil.py', KR], [('sampleCurves / saveKernelSamples', UT + 'kernelUtil.py')])
prop('C25', 'Benchmark tables state what was measured',
     'For all functions and (positive) run times, the comparison table has one row per function by increasing mean run time, with the mean, the mean without the first run, the ratios of both to the best function\'s and to the previous row\'s, and the first three run times; every function is called exactly the requested number of times with the shared or its own arguments; '
     'merging tables gives the table of all their functions and alters none; comparisons of compiled versions hold exactly the versions asked for.',
     ['inputs', 'schedules'], 'all tuples of run times, all ways of passing arguments, all splits of tables',
     'Run times are up to the machine; the benchmarking functions have no tests.',
     [UT + 'benchmarking.py'], [('timethis / compare_implementations / numba_comparisons / merge_bench_tables', UT + 'benchmarking.py')])
prop('C26', 'The log of a search states what the search did',
     'For every search and every scoring of its models, the log states the start, and for every round how many models are new and, best first, the best of the new ones, the best of all so far and the best of those not yet expanded, then the best overall: the models it lists are those of the results, none is listed twice or out of order. '
     'Logging or not, whole or continued, the results are the same.',
     ['histories', 'schedules'], 'all scorings (with ties) of all searches of the bound, whole and continued',
     'Which models are where depends on every score; no test reads the log.',
     [MO + 'modelSearch.py'], [('print_k_list and the verbose branches', MO + 'modelSearch.py')])

if __name__ == '__main__':
    out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
    out.write_text(''.join(json.dumps(p) + '\n' for p in P))
    print(len(P), 'properties')
