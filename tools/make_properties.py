"""Writes /verif/properties.jsonl (kept as a script so that the entries stay reviewable)."""
import json, os
F = 'bayesian_decision_tree/'
B, BP, BH, C, R, U, HO = (F + f for f in ('base.py', 'base_perpendicular.py', 'base_hyperplane.py', 'classification.py',
                                         'regression.py', 'utils.py', 'hyperplane_optimization.py'))
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=hook)))


prop('C01', 'Perpendicular trees make the greedy MAP split at every node',
     'In a fitted, unpruned perpendicular tree every split node uses the axis-parallel threshold, halfway between two adjacent distinct training '
     'values of that node, whose posterior (split prior, shrinking with depth as partition_prior^(1+level) and shared evenly by the '
     'admissible thresholds of each feature, times the marginal likelihoods of both sides) is highest among all admissible thresholds of '
     'all features and exceeds the posterior of not splitting. A node is a leaf exactly when no admissible threshold exceeds not splitting, '
     'or (below the root) when it holds one training point or only one distinct target. This holds for classification and regression, any '
     'prior, partition prior, delta and split precision.',
     ['inputs', 'configurations'], 'all training sets (duplicates, ties, constant features, many classes, adjacent floats, large n) and all model settings',
     'Tests fit three hand-made two-feature data sets with one symmetric prior; the optimum over all thresholds of all features at every depth is never computed.',
     [BP, C, R, U], [('split search', BP + '::_fit'), ('split likelihoods', C + '::_compute_log_p_data_split'), ('split likelihoods', R + '::_compute_log_p_data_split'), ('no-split likelihood', C + '::_compute_log_p_data_no_split')],
     [('split_dimension_, split_value_', 'the chosen split', BP)], ['fitted tree structure'])
prop('C02', 'Node posteriors and predictions are the exact conjugate update',
     'With delta=0 the posterior at every node of every model (perpendicular or hyperplane, pruned or not) is exactly the conjugate update '
     'of the model\'s prior by the training targets that fall into that node: Dirichlet counts added to the prior for classification, the '
     'Normal-gamma update for regression. predict_proba returns the normalised Dirichlet posterior, regression predict the posterior mean, '
     'and the raw leaf data the prior and posterior, of the leaf each row falls into.',
     ['inputs', 'configurations'], 'all training sets, priors (any positive asymmetric values, any sequence type), partition priors, all four models',
     'Tests compare a handful of probabilities for symmetric [1,1] priors and never check regression posteriors beyond one mean.',
     [B, C, R], [('posterior', C + '::_compute_posterior'), ('posterior', R + '::_compute_posterior_internal'), ('leaf lookup', B + '::_predict')],
     [('posterior_', 'posterior parameters of a node', B), ('n_data_', 'number of training points of a node', B)], ['predict', 'predict_proba', '_get_raw_leaf_data', 'posterior_'])
prop('C03', 'The tree partitions the training data and prediction follows it',
     'Every split separates its node\'s training points into two non-empty sets whose sizes add up, recursively, and every leaf reports the '
     'number of training points it holds. Presenting the training rows for prediction sends each of them to exactly the leaf it was counted '
     'in during training, and any other row reaches the leaf to which the same conditions (below the threshold, or behind the hyperplane, '
     'means first child) lead. Reported depth, number of leaves and node levels agree with the actual structure of the tree.',
     ['inputs', 'configurations'], 'all training sets (duplicate rows, ties, adjacent or huge floats, sparse, more than 65536 rows) and all four models',
     'Tests look at depth and counts of three tiny trees; agreement between the training and the prediction route is never checked on other data.',
     [B, BP, BH], [('training partition', BP + '::_fit'), ('training partition', BH + '::_fit'), ('prediction partition', BP + '::_compute_child1_and_child2_indices'), ('prediction partition', BH + '::_compute_child1_and_child2_indices'), ('counts', B + '::_update_n_leaves')],
     [('n_data_', 'training points in node', B), ('level', 'depth of node', B)], ['get_depth', 'get_n_leaves', 'n_data_', '_get_raw_leaf_data'])
prop('C04', 'Results do not depend on how the data is represented',
     'The same numbers give the same fitted tree and the same predictions whether X is a list, a tuple, an array of any numeric dtype or '
     'memory layout, a CSR or CSC matrix or a DataFrame, and whether y is a list, tuple, array of any numeric dtype, column vector, Series '
     'with any index or one-column DataFrame. The representation used for predicting is independent of the one used for fitting. Feature '
     'names (given explicitly, from DataFrame columns, or x0, x1, ...) and verbose only affect labels and output.',
     ['inputs', 'configurations'], 'all numeric data sets crossed with all documented representations of X and y, all four models',
     'Tests use float64 data in four X representations and plain float arrays for y, on four data sets.',
     [B, BP, BH], [('input normalisation', B + '::_normalize_data_and_feature_names'), ('dtype normalisation', B + '::_ensure_float64'), ('sparse column access', BP + '::_to_array')],
     (), ['fit', 'predict', 'predict_proba', 'prediction_paths', 'feature_importance'])
prop('C05', 'Queries are row-wise, repeatable and free of side effects',
     'The prediction, class probabilities, raw leaf data and prediction path of a row depend only on that row and the fitted model: any '
     'batch, order, subset or repetition of rows gives each row the same result as querying it alone, and results come back in input order. '
     'Neither fit nor any query modifies the arrays passed in, and no query changes the model.',
     ['inputs', 'histories'], 'all fitted models and all batches of query rows, including training rows, threshold values, repeated and single rows, dense and sparse',
     'Tests query four to six fixed rows; batch independence and immutability are not asserted.',
     [B, BP, BH], [('re-assembly of child results', B + '::_predict'), ('re-assembly of paths', BP + '::_update_prediction_paths')],
     (), ['predict', 'predict_proba', 'prediction_paths', '_get_raw_leaf_data'])
prop('C06', 'Predictions are coherent and within range',
     'predict_proba returns one row per sample and one column per class, every entry strictly between 0 and 1 for two or more classes, rows '
     'summing to 1, and predict returns the class with the highest probability (the lowest such class on ties), always one of 0..n_classes-1. '
     'A regression prediction is finite and, with delta=0, lies between the smallest and the largest of the prior mean and the training targets. '
     'The number of distinct predictions never exceeds the number of leaves.',
     ['inputs', 'configurations'], 'all training sets, all finite query rows (far outside the training range too), 2 and more classes, all four models',
     'Tests only use two classes and six query points.',
     [B, C, R], [('class decision', C + '::_predict_leaf'), ('probabilities', C + '::_compute_posterior_mean'), ('posterior mean', R + '::_compute_posterior_mean')],
     (), ['predict', 'predict_proba'])
prop('C07', 'Pruning removes exactly the redundant splits',
     'With prune=True the fitted tree equals the tree fitted with prune=False after repeatedly merging sibling leaves that make the same '
     'prediction until no such siblings remain; nothing else changes. A merged node keeps the posterior and count of all its training '
     'points. With a symmetric Dirichlet prior and delta=0, class predictions of the pruned and the unpruned tree agree on every input.',
     ['inputs', 'configurations'], 'all training sets and settings, trees of any depth (cascading merges), all four models',
     'One random data set with one merge of two leaves is tested; cascades, multiclass and regression are not.',
     [B], [('prune', B + '::_prune'), ('erase split', B + '::_erase_split_info_base')], (), ['fitted tree structure', 'predict'])
prop('C08', 'Feature importance is the normalised log-likelihood gain per feature',
     'For a tree with at least one split the feature importance is a non-negative vector with one entry per feature summing to 1. For a '
     'perpendicular tree entry i is proportional to the sum, over the splits on feature i, of the increase in log posterior of splitting over '
     'not splitting; for a hyperplane tree each split\'s increase is spread over the features in proportion to the absolute components of '
     'its unit normal before normalising. Splits removed by pruning contribute nothing.',
     ['inputs', 'configurations'], 'all training sets and settings that give at least one split, all four models, pruned or not',
     'Tests only compare importances of mirrored data to one decimal.',
     [B, BP, BH], [('accumulation', BP + '::_update_feature_importance'), ('accumulation', BH + '::_update_feature_importance'), ('normalisation', B + '::feature_importance')],
     (), ['feature_importance'])
prop('C09', 'Prediction paths replay to the leaf that predicts the row',
     'For every row, prediction_paths returns, from the root down, one (feature index, feature name, threshold, side) step per split the row '
     'passes, where side is True exactly if the row\'s value of that feature is greater than or equal to the threshold. Following these steps '
     'in the tree ends at a leaf, the leaf whose prediction predict returns for the row. Names are those of the training data.',
     ['inputs', 'configurations'], 'all perpendicular trees of any depth and all batches of rows in any representation',
     'Tests cover trees of depth at most two, where rows can be addressed by position by accident.',
     [BP], [('path construction', BP + '::_update_prediction_paths')], (), ['prediction_paths'])
prop('C10', 'Hyperplane splits are the best of all directions tried',
     'Evaluating a direction returns the negated highest log posterior over all admissible positions along it (only between training points '
     'whose projections differ by more than the split precision; the negated no-split value if there is none), up to floating-point resolution. A fitted node\'s '
     'split is the best direction and position tried by its optimizer if that beats not splitting, otherwise the node is a leaf; the stored '
     'unit normal and origin induce exactly the training partition that was scored, the origin being midway between the two points it '
     'separates. Among directions with the same score the one with the larger total distance of the points to the hyperplane is kept.',
     ['inputs', 'configurations', 'histories'], 'all training sets, settings and sequences of directions an optimizer may try, dense or sparse, unit-hypercube or plain search space',
     'Tests only check that a well separated data set is split somewhere in the gap.',
     [HO, BH], [('objective', HO + '::HyperplaneOptimizationFunction.compute'), ('use of the optimum', BH + '::_fit')],
     [('best_hyperplane_normal_, best_hyperplane_origin_', 'the chosen split', BH)], ['HyperplaneOptimizer.solve', 'fitted tree structure'])
prop('C11', 'The hypercube maps uniformly onto the (half) hypersphere',
     'Every point of the unit hypercube [0,1]^D, corners and faces included, maps to a finite unit vector in D+1 dimensions, with '
     'non-negative first component for the half sphere. The map is measure preserving up to a constant factor: it stretches volume equally '
     'everywhere, covers the whole (half) sphere and does not overlap, so uniform points stay uniform. Each point maps the same alone or in a batch, and inputs are not modified.',
     ['inputs'], 'all points of hypercubes of every dimension, both the full and the half sphere, single points and batches',
     'Tests count points per quadrant for five dimensions with tolerances of 1 to 3 percent, which cannot see distortions inside quadrants or at other dimensions.',
     [U], [('mapping', U + '::hypercube_to_hypersphere_surface')], (), ['hypercube_to_hypersphere_surface'])
prop('C12', 'The quasi-random sequence is the R_d additive recurrence',
     'For every dimension d >= 1 the generator terminates for each point and yields, in order, the points (0.5 + n*alpha) mod 1, n = 1, 2, ..., in '
     '[0,1)^d, with alpha_i the inverse powers of the unique positive root of x^(d+1) = x + 1. The sequence has low discrepancy: in one '
     'and two dimensions long prefixes fill the space more evenly than random points. Dimension 0 is rejected with a ValueError, and independent generators do not interfere.',
     ['inputs', 'histories'], 'all dimensions, all prefixes, several generators advanced in any interleaving',
     'No test covers the sequence.',
     [U], [('generator', U + '::r2_series_generator')], (), ['r2_series_generator', 'QuasiRandomHyperplaneOptimizer'])
prop('C13', 'Recorded node evidence is the exact Bayesian model evidence',
     'For every split node of every model the recorded no-split and best-split log probabilities equal the log of the partition prior '
     'term plus the exact marginal likelihood (Dirichlet-categorical or Normal-gamma, as given by the chain rule of predictive '
     'probabilities) of the node\'s targets and of its two children\'s targets. The recorded best split always exceeds the recorded '
     'no-split value. Leaves record nothing.',
     ['inputs', 'configurations'], 'all training sets, any number of classes, all priors (tiny to huge, asymmetric), any depth, all four models',
     'No test looks at likelihood values.',
     [C, R, U], [('marginal likelihood', C + '::_compute_log_p_data'), ('marginal likelihood', R + '::_compute_log_p_data'), ('beta function', U + '::multivariate_betaln')],
     [('log_p_data_no_split_, best_log_p_data_split_', 'recorded log probabilities', BP)], ['fitted node attributes'])
prop('C14', 'A model is a function of its settings and last successful fit',
     'After any history of fits on other data, failed fits, queries, parameter changes, cloning, copying and pickling, a model fitted on a '
     'training set behaves exactly like a fresh model with the same settings fitted once on that set, and repeating a fit reproduces the '
     'same tree. A rejected fit or query leaves an earlier fitted model usable and unchanged. Copies and pickles predict identically, in other processes too, clones are unfitted with equal settings, and models sharing '
     'an optimizer or prior object do not influence each other.',
     ['histories', 'configurations'], 'all sequences of fit, bad fit, predict, set_params, clone, deepcopy, pickle on interacting models of all four kinds',
     'Every test fits each model once.',
     [B, BP, BH, HO], [('state reset', BP + '::_erase_split_info'), ('state reset', BH + '::_fit'), ('seeding', HO + '::ScipyOptimizer.solve')],
     (), ['fit', 'predict', 'sklearn.clone', 'pickle', 'str(model)'])
prop('C15', 'Invalid use is rejected with ValueError',
     'Querying an unfitted model, querying with the wrong number of features, fitting with X and y of different length, X of more than two '
     'or y of more than one (non-trivial) dimension, class labels other than exactly 0..n_classes-1, or (non-numeric or extended-precision) data that cannot be '
     'converted to floats without loss raises a ValueError. Valid input of the documented kinds never raises.',
     ['inputs', 'configurations'], 'all invalid shapes, labels and query dimensions in all representations, before and after fitting, all four models; all valid data sets',
     'Tests try a dozen fixed bad inputs.',
     [B, C, R], [('checks', B + '::fit'), ('checks', B + '::_ensure_is_fitted'), ('label check', C + '::_check_target')], (), ['fit', 'predict', 'predict_proba', 'prediction_paths', 'feature_importance', 'get_depth', 'get_n_leaves'])
prop('C16', 'Models work as scikit-learn estimators',
     'Models can be cloned, have all constructor parameters readable and settable (with effect on the next fit), and work with '
     'scikit-learn\'s cross-validation, grid search, pipelines, ensembles and scorers on arrays and pandas objects. The results equal those of fitting '
     'and evaluating the model by hand on the same folds, and score is accuracy for classification and R^2 for regression.',
     ['inputs', 'configurations'], 'all data sets, fold assignments, parameter grids, scorers; all four models',
     'No test involves scikit-learn tools although the README promises full compatibility.',
     [B, C, R, BH], [('estimator interface', B + '::BaseTree'), ('classes_', C + '::classes_')], (), ['get_params', 'set_params', 'clone', 'cross_val_score', 'GridSearchCV', 'score'])
prop('C17', 'The printed tree is a faithful rendering of the model',
     'The string form of a fitted model has one line per leaf and one labelled split per internal node, in depth-first order with the '
     'correct nesting. Parsing it back and following its conditions for any row reaches a line showing the count, the prediction and, for classification, the class '
     'probabilities that the model gives for that row. An unfitted model prints as unfitted.',
     ['inputs', 'configurations'], 'all trees of any shape and depth, feature names, pruned or not, all four models',
     'Tests print models but never look at the text.',
     [BP, BH], [('rendering', BP + '::_str'), ('rendering', BH + '::_str')], (), ['str(model)'])
prop('C18', 'Perpendicular trees respect the symmetries of the feature space',
     'Shuffling training rows or permuting features does not change a perpendicular tree beyond the corresponding relabelling, and '
     'neither do strictly increasing changes of a feature\'s scale (with split precision 0) as far as the partition of the training data is concerned; '
     'mirroring a feature swaps the sides of its splits. Feature importances transform accordingly. Exact ties between equally good splits '
     'may be resolved differently.',
     ['inputs', 'configurations'], 'all training sets and settings crossed with all row/feature permutations, increasing transforms and mirrorings',
     'Only mirroring of one data set is tested, comparing importances to one decimal.',
     [BP, C, R], [('split search', BP + '::_fit')], (), ['fitted tree structure', 'predict', 'feature_importance'])
prop('C19', 'Every bundled optimizer explores its search space properly',
     'On any valid data set (one feature, sparse, duplicates, integer data, pure nodes) each bundled optimizer terminates, only evaluates points of its '
     'search space (the unit hypercube, or finite directions), performs the number of evaluations asked for where one is given, '
     'is deterministic for a given seed, and leaves the global random state alone. The data seen by an optimizer is that of the node being '
     'split. The random searches differ between seeds, cover all directions, and two-point search only uses directions between two points of different classes. Gradient descent, slow '
     'annealing and differential evolution (with its default parameters) do go downhill: on a linear or quadratic objective they arrive near the minimum.',
     ['inputs', 'configurations'], 'all data sets, seeds and optimizer parameters for the seven bundled optimizers (OptunaOptimizer through a stand-in for the optuna package), both hyperplane models',
     'Tests run four optimizers with one seed each on easy data and only look at the resulting tree.',
     [HO, BH], [('search loops', HO + '::solve')], (), ['HyperplaneOptimizer.solve', 'function evaluations'])
prop('C20', 'delta controls how priors strengthen down the tree',
     'A child node\'s prior is its parent\'s prior updated with the child\'s training targets weighted by delta: with delta=0 all nodes '
     'share the model\'s prior, with delta=1 it is the full conjugate posterior of the child\'s data. The child\'s own split decision and '
     'posterior are based on that prior, in perpendicular and in hyperplane trees alike. The prior given by the user is never modified.',
     ['inputs', 'configurations'], 'all training sets with at least one split, all priors and deltas in [0,1], all four models',
     'All tests use delta=0.',
     [BP, BH, C, R], [('child priors', BP + '::_fit'), ('child priors', BH + '::_fit'), ('weighting', C + '::_compute_posterior'), ('weighting', R + '::_compute_posterior_internal')],
     [('prior', 'prior of a node', B)], ['_get_raw_leaf_data', 'prior', 'posterior_'])
prop('C21', 'Default settings work and equal their explicit counterparts',
     'Every model can be fitted on any valid data set with default settings. Omitting the prior is equivalent to passing the weak default '
     'one: max(1, n//100) pseudo-observations of each class for classification, [0, k, k/2, k/2] with k = max(1, n//100) for regression; '
     'omitted partition_prior, delta, prune, split_precision and optimizer are equivalent to 0.99, 0, False, 0 and differential evolution with a fixed seed.',
     ['inputs', 'configurations'], 'all data sets of all sizes and numbers of classes and features, all four models',
     'No test uses a default prior.',
     [B, C, R, BH], [('default prior', C + '::_get_prior'), ('default prior', R + '::_get_prior'), ('default optimizer', BH + '::_fit')], (), ['fit', 'predict', 'fitted tree structure'])
prop('C22', 'No split separates points closer than split_precision',
     'At every split the distance along the split direction between the two training points next to it is greater than split_precision, '
     'so training points joined by steps not greater than split_precision (in particular duplicates, with the default 0) are never separated. With a precision at least as large as the spread of the data the '
     'tree is a single leaf, and thresholds whose gap exceeds the precision all stay available.',
     ['inputs', 'configurations'], 'all training sets and split precisions, perpendicular and hyperplane models',
     'No test sets split_precision.',
     [BP, HO], [('admissible splits', BP + '::_fit'), ('admissible splits', HO + '::HyperplaneOptimizationFunction.compute')], (), ['fitted tree structure'])
prop('C23', 'Trees respect the symmetries of the target space',
     'Shifting and scaling regression targets together with the prior (mu -> s*mu+c, beta -> s^2*beta) yields the same tree with predictions '
     's*pred+c, for offsets far larger than the spread of the targets too. Permuting the class labels together with the prior permutes '
     'predicted probabilities and leaves the tree unchanged. Exact ties between equally good splits may be resolved differently.',
     ['inputs', 'configurations'], 'all training sets and settings, all scales s != 0 and offsets c, all label permutations, all four models',
     'No test relates fits on transformed targets.',
     [C, R], [('sufficient statistics', R + '::_compute_log_p_data_split'), ('class counts', C + '::_compute_log_p_data_split')], (), ['fitted tree structure', 'predict', 'predict_proba'])
prop('C24', 'Perpendicular and hyperplane trees agree along the feature axes',
     'A hyperplane model whose optimizer tries exactly the directions of the feature axes (in any order, orientation, length or repetition), or which is '
     'fitted on a single feature with any optimizer, finds the same tree as the perpendicular model with the same settings: the same splits, node '
     'sizes, levels, log posteriors, posteriors, predictions, probabilities and feature importances. Exact ties between equally good splits may be resolved differently.',
     ['inputs', 'configurations'], 'all training sets without gaps at rounding level, all model settings, classification and regression',
     'Tests fit both kinds of tree separately and never compare them.',
     [BP, BH, HO], [('axis-parallel search', BP + '::_fit'), ('search along a direction', HO + '::HyperplaneOptimizationFunction.compute'), ('hyperplane split', BH + '::_fit')],
     (), ['fitted tree structure', 'predict', 'predict_proba', 'feature_importance'])
prop('C25', 'Hyperplane trees respect the symmetries of the feature space',
     'Rotating, reflecting, scaling or shifting the training points, together with the candidate directions and the split precision, and shuffling the '
     'training rows only transforms the splits of a hyperplane tree accordingly: tree shape, node sizes, posteriors and the predictions of transformed '
     'rows stay the same. Exact ties may be resolved differently.',
     ['inputs', 'configurations'], 'all training sets (up to rounding), orthogonal maps, scales, shifts and row orders, model settings; searches whose candidate directions do not depend on the data values',
     'No test fits a hyperplane tree on transformed features.',
     [BH, HO], [('split search', BH + '::_fit'), ('search along a direction', HO + '::HyperplaneOptimizationFunction.compute')], (), ['fitted tree structure', 'predict', 'feature_importance'])
prop('C26', 'A larger partition prior only refines the tree',
     'Of two unpruned models that differ in partition_prior only, the tree of the smaller one is a top part of the tree of the larger one: wherever the '
     'former splits the latter makes the same split, nodes hold the same points and posteriors, and the log posteriors of splitting and of not splitting '
     'differ by exactly the change of the prior terms log(p^(1+level)) and log(1-p^(1+level)), and where only the latter splits, splitting does not pay with the smaller partition prior. Exact ties may be resolved differently. For hyperplane '
     'trees this holds for searches whose candidates do not depend on the scores.',
     ['inputs', 'configurations'], 'all training sets, all pairs of partition priors in (0,1), priors, deltas and split precisions, all four models',
     'No test relates fits with different partition priors.',
     [B, BP, BH, C, R], [('no-split prior', C + '::_compute_log_p_data_no_split'), ('split prior', BP + '::_fit'), ('split prior', HO + '::HyperplaneOptimizationFunction.compute')],
     (), ['fitted tree structure'])

prop('C27', 'Models can be fitted and queried concurrently',
     'Fits of different models and queries of fitted models may run at the same time in several threads, interleaved at any point, also if the models '
     'share training data, prior and optimizer objects (as scikit-learn\'s ensembles and searches do): every fit gives the tree and every query gives '
     'the result that it gives alone. Querying a model while it is being fitted is not covered.',
     ['schedules', 'inputs'], 'all interleavings of fits of distinct models and queries of fitted models, all four models and all bundled optimizers, shared or separate data, priors and optimizers',
     'Tests run everything sequentially; a test cannot choose the point at which another thread takes over.',
     [B, BP, BH, HO], [('query recursion', B + '::_predict'), ('path recursion', BP + '::_update_prediction_paths'), ('fit recursion', BH + '::_fit'), ('random state of a search', HO + '::solve')],
     (), ['fit', 'predict', 'predict_proba', 'prediction_paths', 'feature_importance', 'str(model)'])

prop('C28', 'Models are calibrated on data generated from their own assumptions',
     'If targets are generated as the model assumes (parameters drawn from its prior, one set per region, targets from the parameters), then over many such '
     'data sets: the recorded log posteriors of splitting and of not splitting differ by the true log odds of two regions against one; predicted class '
     'probabilities equal the frequencies of new targets and new regression targets follow the predictive distribution of their leaf, half of them above '
     'the prediction; and data of a single region are split at the root with probability at most p/(1-p) for partition prior p (times the number of directions tried '
     'over the number of features for hyperplane trees), however many features and thresholds there are, while data of two regions stay whole with probability '
     'at most (1-p)/p times the number of thresholds.',
     ['inputs', 'configurations'], 'all priors, partition priors, numbers of classes, features and points, all four models, delta 0',
     'A statement about averages over data sets drawn from the prior; tests fit a few fixed data sets.',
     [B, C, R, BP, BH], [('evidence', C + '::_compute_log_p_data_split'), ('evidence', R + '::_compute_log_p_data_split'), ('posterior', R + '::_compute_posterior_internal'), ('multivariate beta', U + '::multivariate_betaln')],
     (), ['fitted tree structure', 'predict', 'predict_proba', '_get_raw_leaf_data'])

prop('C29', 'Verbose training reports exactly the nodes that are searched',
     'fit with verbose=True prints one line per node that is searched for a split (the root, and every other node with several points whose targets '
     'differ), no node before its parent, with the level of the node, its side (root; LHS and RHS of perpendicular, back and front of hyperplane splits) and its '
     'number of training points. Without verbose fit prints nothing, queries never do, and verbose does not change the tree.',
     ['inputs', 'configurations'], 'all training sets and representations, all four models, all settings',
     'No test looks at what is printed.',
     [B, BP, BH], [('report', BP + '::_fit'), ('report', BH + '::_fit')], (), ['standard output of fit'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    print(len(P))
