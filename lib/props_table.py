TESTS = ('The suite fits a handful of random forests on one seeded data set and compares a few entry points on a few '
         'rows (often one implementation against another). ')

prop('C01', 'A loaded tree model represents exactly the model it was built from',
     'For every supported way of handing a tree model to the explainer (tree dictionaries, scikit-learn trees, forests, isolation forests and boosting, XGBoost and LightGBM models and dumps, ranger forests), the trees held by the explainer reproduce the raw output of that model on every row, including values equal to a threshold and, where the library takes them, missing values. '
     'The leaf boxes it derives partition the feature space: every row falls in exactly one leaf box per tree, the one its tree routes it to, and each leaf lists exactly the variables on its path.',
     ['inputs', 'configurations'], 'all models of the supported kinds, node orders, depths, class counts, and rows',
     TESTS + 'No test looks at the loaded trees, so every import path except the forest class used is unexercised.',
     [B, T], [('per-library loaders', B + ' BaseTree.__init__, SingleTree'), ('leaf boxes', B + ' get_partition_leaves/leaves box construction')],
     'property-based testing: generated and fitted models, differential against the model itself',
     'Exploration. Models of libraries that are not installed (CatBoost, GPBoost, pyspark, imblearn, skopt, pyod) are stand-ins answering in the documented format; ngboost and econml are not reached.')

prop('C02', 'Leaf-estimator Shapley values are the exact Shapley values of the leaf game',
     'For every tree model, background data, row and grouping of the variables, the Shapley values returned are those of the game whose value at a coalition is the leaf estimate of E[f(x) | x_S]; every member of a group receives the value of the group. '
     'Hence they sum, over players, to the prediction at the row minus the mean prediction on the background when the row shares its leaves with background rows, and a variable on which no tree splits gets zero.',
     ['inputs', 'configurations'], 'all forests, background data, rows, groupings',
     TESTS + 'The Shapley tests compare two implementations of the same formula on one forest.',
     [T, K], [('shap_values', T), ('per-leaf subset sum', K + ' shap_values_leaves_pa')],
     'property-based testing against a brute-force Shapley model; metamorphic efficiency/dummy relations',
     'Exploration; forests of at most 4 trees, depth 4, 7 variables; the oracle enumerates every coalition of the full game.')

prop('C03', 'Every Shapley implementation variant returns the same values',
     'The sequential, cached, cached-sequential and pure-Python computations of the Shapley values return the values of the default computation, for every grouping of the variables (the cached ones for the grouping their cache was built for); the normalized ones (default, cached, cached-sequential) agree with each other and equal the Shapley values of the game in which, within each tree, the leaf probabilities compatible with a coalition are normalized to one. '
     'The answer does not depend on which constructor options (cache, normalized cache, multi-threading) were used.',
     ['inputs', 'configurations'], 'all forests, data, rows, groupings, constructor options',
     TESTS + 'Caches and groupings are compared on one model each at most.',
     [T, B, K, KN, KC, PY], [('shap_values_nopa / _cache / _cache_nopa / _normalized* / py_shap_values', T), ('caches', KC)],
     'property-based testing: differential between variants and against a brute-force Shapley model',
     'Exploration; same bounds as C02.')

prop('C04', 'Active Shapley values share the prediction among the active variables only',
     'Given active variables S and null variables N, the Active Shapley values are the Shapley values of the game restricted to the players in S, in which every non-empty coalition also conditions on N and the empty one is the unconditional mean; null variables get zero. '
     'With per-row sets, each row gets the values for its own sets, a row for which all variables are active gets its ordinary Shapley values, and the sequential variants agree.',
     ['inputs', 'configurations'], 'all forests, data, rows, partitions of the variables into S and N, groupings',
     TESTS + 'Two seeded comparisons between implementations.',
     [T, K, KN, PY], [('shap_values_acv, shap_values_acv_adap, *_nopa, py_shap_values_acv', T)],
     'property-based testing against a brute-force Shapley model of the restricted game',
     'Exploration; rows whose null coordinates no background row shares within a leaf are outside the domain (the estimator has no data there).')

prop('C05', 'Conditional expectations given a subset follow the stated estimator',
     'The conditional expectation E[f(X) | X_S = x_S] returned is, for the leaf estimator, the sum over trees and leaves compatible with x_S of the leaf value times the share of the background compatible with the leaf on S that lies in the leaf; for the normalized one the same with these shares normalized to one per tree; for the discrete one the mean of f over background rows equal to x on S. '
     'Points on a leaf boundary count where the tree routes them, a leaf the data cannot reach contributes nothing, and sequential variants agree.',
     ['inputs'], 'all forests, data, rows, subsets (including empty and full)',
     TESTS + 'compute_exp is compared with a Python transcription on continuous data, where no value meets a threshold.',
     [T, K, KN], [('compute_exp, compute_exp_cat, compute_exp_normalized, *_nopa', T)],
     'property-based testing against a reference estimator',
     'Exploration; integer grid data with thresholds on and between the data values.')

prop('C06', 'Same Decision Probability of tree classifiers is the leaf / discrete estimate',
     'For a tree classifier, the SDP of a row given S is the estimate obtained from the forest mean of the predicted class given x_S (leaf probabilities normalized to one within each tree) over the whole background, over the rows with the same decision and over the rows with another one: (all - other) / (same - other); it is 1 for the full set and 0 for the empty one. '
     'The discrete estimator does so with the background rows equal to x on S and stays in [0, 1]; sequential variants return the same.',
     ['inputs', 'configurations'], 'all tree classifiers, data, rows, subsets',
     TESTS + 'SDP tests compare against a Python transcription on one seeded forest.',
     [T, K, KN, US], [('compute_sdp_clf, compute_sdp_clf_cat, *_nopa', T)],
     'property-based testing against a reference estimator',
     'Exploration; binary boosted models go through the sigmoid approximation the library documents, compared with the reference using its stored leaf values.')

prop('C07', 'Same Decision Probability of tree regressors is the leaf / discrete estimate',
     'For a tree regressor and a tolerance, the SDP of a row given S is (other - all) / (other - same) where each term estimates E[(f(X) - f(x))^2 | x_S] over the background rows beyond the tolerance, all of them, and those within it, from the leaf probabilities (including the cross terms between trees). '
     'The discrete estimator does so with the background rows equal to x on S; sequential variants return the same.',
     ['inputs'], 'all tree regressors, data, rows, tolerances, subsets', TESTS, [T, K, KN],
     [('compute_sdp_reg, compute_sdp_reg_cat, *_nopa', T)], 'property-based testing against a reference estimator',
     'Exploration.')

prop('C08', 'Minimal sufficient explanations of tree models are smallest and sufficient',
     'The explanation reported for a row is a union of players (variables or groups) of smallest cardinality whose SDP, as the explainer itself computes it, reaches the level; among those of that size it has the largest SDP, and the SDP reported is that of the set reported. '
     'When no such set of the searched sizes exists (at most half of the variables with early stop, or the searched sub-space) the best set seen is returned and its SDP is below the level; the global importance of a variable is the fraction of rows with an explanation that contains it.',
     ['inputs', 'configurations'], 'all tree models, data, rows, levels, groupings, starting sizes, stop option, search spaces',
     TESTS + 'Only shapes and a comparison on one model are checked.', [T, K, KN],
     [('importance_sdp_clf(_greedy,_search,_nopa,_ptrees), importance_sdp_reg(_cat)(_nopa)', T)],
     'property-based testing: exhaustive search over coalitions as oracle, the explainer\'s own SDP as value',
     'Exploration; at most 5 variables for exhaustive search, 11-12 for the search-space variant.')

prop('C09', 'Swing Shapley values are the Shapley values of the sufficiency game',
     'Swing values are the Shapley values of the game that pays 1 when the SDP of the coalition reaches the threshold and 0 otherwise, so they sum to 1 minus the payment of the empty coalition over the players; the positive and negative swing counts reported are the numbers of coalitions a player makes sufficient or insufficient.',
     ['inputs'], 'all tree classifiers, data, rows, thresholds, groupings', 'No test exercises these entry points.', [T, K, PY],
     [('swing_sv_clf, swing_sv_clf_nopa, demo_swing_sv_clf', T)], 'property-based testing against brute force',
     'Exploration.')

prop('C10', 'Marginal SDP and its search agree with their definition',
     'The marginal SDP of a row given S is the share of background rows whose decision, after replacing their S coordinates by those of the row, agrees with the decision at the row (within the tolerance for regression); the search over subsets returns a smallest set reaching the level with its SDP.',
     ['inputs'], 'all models with predict / predict_proba, data, rows, subsets, levels', 'One smoke test at most.', [T, US],
     [('compute_msdp_clf/reg, importance_msdp_*', T)], 'property-based testing against a reference with the sampling seeded',
     'Exploration.')

prop('C11', 'Null coalitions partition the variables',
     'For every table of sufficient variables with sizes, the helpers that derive null coalitions return for each row exactly the variables that are not sufficient, each once, and the sufficient ones unchanged, in the form the Active Shapley functions consume.',
     ['inputs'], 'all tables of index sets with sizes, including empty and full sets', 'Called on one table only.', [U],
     [('get_null_coalition, get_active_null_coalition_list', U)], 'property-based testing against set semantics', 'Exploration.')

prop('C12', 'Projected-forest estimates equal the averages over the projected cells',
     'For a row and a subset S, the SDP, anti-SDP, interval probability, conditional distribution, mean and quantiles returned by the projected-forest estimators are averages over the trees of the corresponding statistic of the training outputs in the cell of the row, obtained by walking the tree level by level and dropping the training rows on the other side of every split on S met along the branches reachable by x_S; as soon as a cell holds fewer rows than the minimal size, the splits of the tree not yet visited are left out. '
     'An empty cell contributes nothing, so SDP and anti-SDP sum to the share of the trees whose cell holds rows; results lie in [0,1], and S = all variables with minimal size one gives the cell of the tree itself.',
     ['inputs', 'configurations'], 'all forests, training data, rows, subsets, minimal sizes, classification and regression',
     TESTS, [T, AX, K, PY], [('compute_sdp_rf, compute_ddp_rf, compute_cdp_rf, compute_cdf_rf, compute_exp_rf, compute_quantile_rf', T + ', ' + AX)],
     'property-based testing against a reference projected forest', 'Exploration.')

prop('C13', 'Sufficient rules contain the row and describe its cell',
     'The rule returned with the SDP of a row is a box over the variables, unbounded outside S, which contains the row; the SDP returned with it equals that of the same estimator without rules; and every row that satisfies the rule has the same SDP given S as the row explained.',
     ['inputs', 'configurations'], 'all forests, training data, rows, subsets, minimal sizes', TESTS, [T, AX, K, BA],
     [('compute_sdp_rule, compute_ddp_rule, compute_cdp_rule', T + ', ' + AX)],
     'property-based testing: reference boxes plus metamorphic relation (sample the rule, recompute)', 'Exploration.')

prop('C14', 'Projected-forest weights are a distribution reproducing the estimates',
     'The weights attached to a row are non-negative, sum over the training rows to the share of the trees whose cell holds rows (one when none is empty), and the weighted share of training outputs agreeing (or not) with the row equals the estimate returned with them; weights conditioned on or intervened by boxes only give mass to rows in the cell the boxes select. The counterfactual (cdp) estimates are the share of the target: the class asked for, or outputs in the interval asked for.',
     ['inputs'], 'all forests, training data, rows, subsets, conditions', TESTS, [AX, K], [('compute_*_weights', AX)],
     'property-based testing against a reference projected forest', 'Exploration.')

prop('C16', 'Agnostic sufficient and divergent explanations are smallest and correct',
     'For each row the explanation reported is a smallest subset of the search space whose SDP (or, for divergent explanations, whose complement\'s anti-SDP) reaches the level, with the largest value at that size; the value reported is the value of that set; rows with none get the best set seen and a value below the level; the importance of a variable is the fraction of explained rows whose explanation contains it.',
     ['inputs', 'configurations'], 'all forests, training data, rows, levels, minimal sizes, stop options', TESTS, [AX, T, K],
     [('importance_sdp_rf, importance_ddp_rf, importance_cdp_rf, importance_ddp_intv', AX)],
     'property-based testing: exhaustive search with the explainer\'s own values as oracle', 'Exploration.')

prop('C17', 'All sufficient explanations are exactly the inclusion-minimal sufficient sets',
     'The enumeration of sufficient explanations of a row returns every inclusion-minimal subset of the search space whose SDP reaches the level and nothing else, with the SDP of each; the same holds for the contrastive enumeration, with the anti-SDP in place of the SDP. The frequencies returned, and the local importance derived from them (defined when there is an explanation), are those of the variables among the explanations.',
     ['inputs'], 'all forests, training data, rows, levels', TESTS, [AX, T, K], [('sufficient_expl_rf, sufficient_cxpl_rf, compute_local_sdp', AX)],
     'property-based testing against exhaustive enumeration', 'Exploration.')

prop('C18', 'Extended sufficient rules stay sound',
     'The maximal rules grown from a row\'s rule contain the row\'s own rule, and every training row inside a returned rule has the sufficiency the rule promises; the randomized enlargement never returns a rule that loses the original box or admits a training row known to be insufficient.',
     ['inputs', 'histories'], 'all forests, training data, rows, seeds', 'Smoke tests only.', [AX, T, U, K],
     [('compute_sdp_maxrules', AX), ('rules_by_annealing, extend_partition', U)],
     'property-based testing: invariant over the rule and the training rows', 'Exploration.')

prop('C19', 'Global rules answer with the best admissible rule',
     'After the global rules are fitted, the prediction for a row is the output of a rule that contains the row on its variables, covers at least the required share of the training data and has the best quality among such rules, and is undefined when there is none; the coverage and accuracy attached to a rule are those measured on the training data (accuracy of the majority output for a binary classifier, mean squared error in regression), and a rule without training rows is never used.',
     ['inputs', 'histories'], 'all rule sets, rows, coverage and accuracy bounds', 'One smoke test.', [AX, U],
     [('fit_global_rules, predict_global_rules', AX), ('compute_rules_metrics, global_rules_model', U)],
     'property-based testing against a reference rule list', 'Exploration.')

prop('C20', 'Explanations are pure functions of their arguments',
     'Explaining rows together, separately, in another order, repeatedly, or after any other calls gives the same answers, and no call modifies the arrays or lists it is given; refitting an explainer leaves no trace of the previous data.',
     ['histories', 'inputs', 'schedules'], 'all sequences of API calls on an explainer, all batch splits, thread schedules of the parallel kernels',
     'Tests make one call per object.', [T, AX, BA, K], [('parallel loops with per-row buffers', K), ('caches', KC), ('fit', BA)],
     'stateful property-based testing: random histories, metamorphic batch/permutation relations, run with several OpenMP threads',
     'Exploration; thread schedules are sampled by repetition, not enumerated.')

prop('C21', 'Counterfactual rules keep their promises',
     'The divergent set of a row is the one the explainer\'s search returns, and with its complement partitions the variables. A counterfactual rule returned for a row (or region) changes only the variables of its divergent set: the others are fixed at the values of the row (or bounded by the sufficient rule of the region), and on the divergent set it holds the rule of some training row with the target decision; '
     'the probability and the weights returned with it are the projected-forest probability of the target and weights given exactly this rule; unless it is the only one, this probability reaches the level; at least one rule is returned and no returned rule lies in another one. Samples drawn differ from the row on the divergent set only, and lie in the most probable rule.',
     ['inputs', 'histories'], 'all forests, training data, rows, targets some training row has, levels, search efforts, seeds', 'No test exercises this module.', [CR, UC],
     [('run_*_divergent_set, run_*_counterfactual_rules, run_sampling_*', CR), ('get_compatible_leaf(_reg), return_counterfactuals(_reg), remove_in_wsdp', UC)], 'property-based testing: reference projected forest and invariants over the returned rules', 'Exploration.')

prop('C22', 'Calls that make no sense are refused and leave no trace',
     'ACXplainer and the projected-forest methods of ACVTree refuse, with an exception and whatever the arguments are otherwise, a call in which rows and outputs, training rows and their outputs, or rows and subsets differ in number, or in which rows or outputs are missing, infinite, absent or of the wrong dimension; so do fitting, asking an explainer (or its global rules) before it is fitted, and handing over a model that is not a fitted model of a supported kind. '
     'They never answer such a call, read past an array or crash, and the explainer answers right calls afterwards as if the refused ones had not been made.',
     ['inputs', 'histories'], 'all calls with one such defect, in all histories', 'Tests make no such call; the kernels behind them run without bounds checks.', [AX, T, BA, B],
     [('check_X_y, check_consistent_length', AX), ('check_is_explainer, predict_global_rules', AX)],
     'stateful property-based testing: fault injection into the arguments, differential against a new explainer', 'Exploration.')

prop('C23', 'The toy experiments and the statistical helpers compute what they state',
     'For Gaussian and Gaussian-mixture inputs with linear outputs, the experiment classes return the exact conditional and marginal expectations of the linear model and the Shapley values built on them, whatever the order in which the variables of a subset or a group are listed; their Monte Carlo estimates agree with the exact values, and the rows they draw given x_S with the conditional law, up to the sampling error. '
     'The estimators of E[tree(x) | x_S] they offer (path-dependent, leaf, compatible-leaves, interventional, exact Gaussian, Monte Carlo) equal their definitions on the data given, where a leaf holds the points above its lower and up to its upper bounds, and the Shapley values are those of the chosen estimator. '
     'The helpers do what their names state: conditional and marginal Gaussian laws and samples, refilling a tree with new data, weighted percentiles, quantile bins, the generated data set and its encodings, true/false discovery rates, clusters of variables, counting and merging equal rules, loading the packaged data. '
     'The synthetic models give the stated probabilities, do not depend on variables outside their ground truth (syn1 to syn3), and the expectations, same-decision probabilities, predictions, Shapley values and swings computed under the true model (syn4, syn7) or given the bins of some variables are those of their definitions up to the sampling error.',
     ['inputs', 'configurations'], 'all Gaussian laws and mixtures, coefficients, rows, subsets in any order, groupings, trees and data',
     'No test imports the experiments.', ['experiments/exp_linear.py', 'experiments/exp_linear_gmm.py', 'experiments/exp_linear_gmm_ohe.py', 'experiments/exp_syn.py',
                                         'experiments/shap_linear.py', 'experiments/utils.py', U, 'acv_data/data_loader.py'],
     [('cond_exp_tree, linear_shap, tree_shap', 'experiments/'), ('condMVN, sampleMVN, weighted_percentile, rules_frequency, unique_rules', U)],
     'property-based testing against closed forms and brute-force definitions', 'Exploration. The R function behind the exact Gaussian estimators is replaced by a stand-in.')

prop('C24', 'A copied or saved explainer answers as the original and lives on its own',
     'A copy of an ACVTree or ACXplainer (copy, deepcopy, pickle at any protocol, joblib, save_model followed by load_model), made at any moment of its life, exists and answers every method exactly as an explainer newly built and brought to the same state; using, fitting again or giving other global rules to one of them (for a deep copy or a saved one) never changes the answers of the other.',
     ['inputs', 'histories'], 'all explainers, ways of copying, and histories of calls, copies and fits', 'No test copies or saves an explainer.', [T, B, AX, BA, U, UC, K, KC, KN],
     [('save_model, load_model', U), ('save_model, load_model', UC), ('leaves_cache', KC)],
     'stateful property-based testing, differential against a new explainer', 'Exploration.')

prop('C25', 'The web application shows what the explainer computes on the data compiled',
     'After compile_ACXplainers with any ACXplainer, training rows and rows to explain (frames or arrays, any column names and values), the pages show exactly that explainer\'s answers on exactly those data: for every row offered, its sufficient explanations (named by their columns) with their SDP at the level chosen, the share of them in which each variable occurs, the row with the chosen explanation highlighted, the rule and, on demand, the maximal rule of that explanation with its coverage and accuracy, or that there is none; and the waterfall of its Shapley values. '
     'A waterfall labels every amount with its own variable and value, largest absolute amounts first, sums the ones not shown into the last bar, and marks the base value and the base value plus all amounts.',
     ['inputs', 'configurations'], 'all explainers, data, column names, choices of page, row, explanation and level; all values to plot', 'No test imports the application.',
     ['acv_app/app.py', 'acv_app/sdp_app.py', 'acv_app/sv_app.py', 'acv_app/plots.py'],
     [('compile_ACXplainers, main', 'acv_app/app.py'), ('write_pg', 'acv_app/sdp_app.py'), ('write_pg', 'acv_app/sv_app.py'), ('waterfall', 'acv_app/plots.py')],
     'property-based testing: scripted visits on a recording stand-in for streamlit, differential against the explainer',
     'Exploration. streamlit and the styling of frames are stand-ins.')
