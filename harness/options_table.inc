{da_handle_linmod, "mixed precision", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_linmod, "optim method", 's', 0.0, 0, 0.0, 0, "auto|bfgs|cg|chol|cholesky|coord|lbfgs|lbfgsb|qr|sparse_cg|svd", "auto"},
{da_handle_linmod, "low precision convergence tol", 'r', 0.0, 2, 0.0, 0, "", "0.001"},
{da_handle_linmod, "scaling", 's', 0.0, 0, 0.0, 0, "auto|centering|no|none|scale|scale only|standardise|standardize", "auto"},
{da_handle_linmod, "print options", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_linmod, "storage order", 's', 0.0, 0, 0.0, 0, "c|column-major|f|fortran|row-major", "column-major"},
{da_handle_linmod, "check data", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_linmod, "optim dual gap tol", 'r', 0.0, 1, 0.0, 0, "", "0.0001"},
{da_handle_linmod, "print level", 'i', 0.0, 2, 5.0, 2, "", "0.0"},
{da_handle_linmod, "optim convergence tol", 'r', 0.0, 1, 1.0, 1, "", "0.0001"},
{da_handle_linmod, "intercept", 'i', 0.0, 2, 1.0, 2, "", "0.0"},
{da_handle_linmod, "optim iteration limit", 'i', 1.0, 2, 0.0, 0, "", "10000.0"},
{da_handle_linmod, "low precision iteration limit", 'i', 1.0, 2, 0.0, 0, "", "5000.0"},
{da_handle_linmod, "optim progress factor", 'r', 0.0, 2, 0.0, 0, "", "?"},
{da_handle_linmod, "alpha", 'r', 0.0, 2, 1.0, 2, "", "0.0"},
{da_handle_linmod, "optim coord skip min", 'i', 2.0, 2, 0.0, 0, "", "2.0"},
{da_handle_linmod, "optim coord skip max", 'i', 10.0, 2, 0.0, 0, "", "100.0"},
{da_handle_linmod, "debug", 'i', 0.0, 2, 3.0, 2, "", "0.0"},
{da_handle_linmod, "logistic constraint", 's', 0.0, 0, 0.0, 0, "reference category|rsc|ssc|symmetric|symmetric side", "ssc"},
{da_handle_linmod, "optim time limit", 'r', 0.0, 1, 0.0, 0, "", "1000000.0"},
{da_handle_linmod, "lambda", 'r', 0.0, 2, 0.0, 0, "", "0.0"},
{da_handle_pca, "power normalization", 's', 0.0, 0, 0.0, 0, "lu|none|qr", "qr"},
{da_handle_pca, "power iterations", 'i', -1.0, 2, 0.0, 0, "", "-1.0"},
{da_handle_pca, "degrees of freedom", 's', 0.0, 0, 0.0, 0, "biased|unbiased", "unbiased"},
{da_handle_pca, "pca method", 's', 0.0, 0, 0.0, 0, "correlation|covariance|svd", "covariance"},
{da_handle_pca, "whiten", 'i', 0.0, 2, 1.0, 2, "", "0.0"},
{da_handle_pca, "seed", 'i', -1.0, 2, 0.0, 0, "", "0.0"},
{da_handle_pca, "store u", 'i', 0.0, 2, 1.0, 2, "", "0.0"},
{da_handle_pca, "n_components", 'i', 0.0, 2, 0.0, 0, "", "1.0"},
{da_handle_pca, "svd solver", 's', 0.0, 0, 0.0, 0, "auto|gesdd|gesvd|gesvdx|randomized|syevd", "auto"},
{da_handle_pca, "check data", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_pca, "n_oversamples", 'i', 0.0, 2, 0.0, 0, "", "10.0"},
{da_handle_pca, "storage order", 's', 0.0, 0, 0.0, 0, "c|column-major|f|fortran|row-major", "column-major"},
{da_handle_kmeans, "low precision convergence tolerance", 'r', 0.0, 2, 0.0, 0, "", "0.01"},
{da_handle_kmeans, "convergence tolerance", 'r', 0.0, 2, 0.0, 0, "", "0.0001"},
{da_handle_kmeans, "normalize data", 's', 0.0, 0, 0.0, 0, "no|yes", "yes"},
{da_handle_kmeans, "storage order", 's', 0.0, 0, 0.0, 0, "c|column-major|f|fortran|row-major", "column-major"},
{da_handle_kmeans, "n_init", 'i', 1.0, 2, 0.0, 0, "", "10.0"},
{da_handle_kmeans, "low precision max_iter", 'i', 1.0, 2, 0.0, 0, "", "200.0"},
{da_handle_kmeans, "check data", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_kmeans, "max_iter", 'i', 1.0, 2, 0.0, 0, "", "300.0"},
{da_handle_kmeans, "seed", 'i', -1.0, 2, 0.0, 0, "", "0.0"},
{da_handle_kmeans, "initialization method", 's', 0.0, 0, 0.0, 0, "afk-mc2|k-means++|random|random partitions|supplied", "k-means++"},
{da_handle_kmeans, "algorithm", 's', 0.0, 0, 0.0, 0, "elkan|hartigan-wong|lloyd|macqueen", "lloyd"},
{da_handle_kmeans, "mixed precision", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_kmeans, "n_clusters", 'i', 1.0, 2, 0.0, 0, "", "1.0"},
{da_handle_kmeans, "afk-mc2 samples", 'i', 1.0, 2, 0.0, 0, "", "50.0"},
{da_handle_kmeans, "distance", 's', 0.0, 0, 0.0, 0, "cosine|euclidean", "euclidean"},
{da_handle_kmeans, "empty clusters", 's', 0.0, 0, 0.0, 0, "error|ignore|split", "ignore"},
{da_handle_dbscan, "power", 'r', 0.0, 2, 0.0, 0, "", "2.0"},
{da_handle_dbscan, "metric", 's', 0.0, 0, 0.0, 0, "cityblock|cosine|euclidean|l1|l2|manhattan|minkowski|sqeuclidean", "euclidean"},
{da_handle_dbscan, "algorithm", 's', 0.0, 0, 0.0, 0, "auto|ball tree|brute|kd tree", "auto"},
{da_handle_dbscan, "leaf size", 'i', 1.0, 2, 0.0, 0, "", "30.0"},
{da_handle_dbscan, "eps", 'r', 0.0, 2, 0.0, 0, "", "0.0001"},
{da_handle_dbscan, "min samples", 'i', 1.0, 2, 0.0, 0, "", "5.0"},
{da_handle_dbscan, "check data", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_dbscan, "storage order", 's', 0.0, 0, 0.0, 0, "c|column-major|f|fortran|row-major", "column-major"},
{da_handle_decision_tree, "maximum bins", 'i', 2.0, 2, 65535.0, 2, "", "256.0"},
{da_handle_decision_tree, "histogram", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_decision_tree, "category split strategy", 's', 0.0, 0, 0.0, 0, "one-vs-all|ordered", "ordered"},
{da_handle_decision_tree, "storage order", 's', 0.0, 0, 0.0, 0, "c|column-major|f|fortran|row-major", "column-major"},
{da_handle_decision_tree, "check data", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_decision_tree, "feature threshold", 'r', 0.0, 2, 0.0, 0, "", "1e-05"},
{da_handle_decision_tree, "node minimum samples", 'i', 1.0, 2, 0.0, 0, "", "2.0"},
{da_handle_decision_tree, "predict probabilities", 's', 0.0, 0, 0.0, 0, "no|yes", "yes"},
{da_handle_decision_tree, "detect categorical data", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_decision_tree, "scoring function", 's', 0.0, 0, 0.0, 0, "cross-entropy|entropy|gini|misclass|misclassification|misclassification-error", "gini"},
{da_handle_decision_tree, "maximum depth", 'i', 0.0, 2, 29.0, 2, "", "29.0"},
{da_handle_decision_tree, "seed", 'i', -1.0, 2, 0.0, 0, "", "-1.0"},
{da_handle_decision_tree, "maximum features", 'i', 0.0, 2, 0.0, 0, "", "0.0"},
{da_handle_decision_tree, "minimum split score", 'r', 0.0, 2, 1.0, 2, "", "0.0"},
{da_handle_decision_tree, "category tolerance", 'r', 0.0, 2, 1.0, 1, "", "1e-05"},
{da_handle_decision_tree, "maximum categories", 'i', 2.0, 2, 0.0, 0, "", "50.0"},
{da_handle_decision_tree, "minimum impurity decrease", 'r', 0.0, 2, 0.0, 0, "", "0.0"},
{da_handle_decision_forest, "maximum tree threads", 'i', 0.0, 2, 0.0, 0, "", "0.0"},
{da_handle_decision_forest, "category split strategy", 's', 0.0, 0, 0.0, 0, "one-vs-all|ordered", "ordered"},
{da_handle_decision_forest, "maximum bins", 'i', 2.0, 2, 65535.0, 2, "", "256.0"},
{da_handle_decision_forest, "histogram", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_decision_forest, "feature threshold", 'r', 0.0, 2, 0.0, 0, "", "1e-05"},
{da_handle_decision_forest, "storage order", 's', 0.0, 0, 0.0, 0, "c|column-major|f|fortran|row-major", "column-major"},
{da_handle_decision_forest, "check data", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_decision_forest, "minimum split score", 'r', 0.0, 2, 1.0, 2, "", "1e-05"},
{da_handle_decision_forest, "maximum features", 'i', 0.0, 2, 0.0, 0, "", "0.0"},
{da_handle_decision_forest, "number of trees", 'i', 1.0, 2, 0.0, 0, "", "100.0"},
{da_handle_decision_forest, "seed", 'i', -1.0, 2, 0.0, 0, "", "-1.0"},
{da_handle_decision_forest, "node minimum samples", 'i', 1.0, 2, 0.0, 0, "", "2.0"},
{da_handle_decision_forest, "maximum depth", 'i', 0.0, 2, 29.0, 2, "", "29.0"},
{da_handle_decision_forest, "scoring function", 's', 0.0, 0, 0.0, 0, "cross-entropy|entropy|gini|misclass|misclassification|misclassification-error", "gini"},
{da_handle_decision_forest, "minimum impurity decrease", 'r', 0.0, 2, 0.0, 0, "", "0.0"},
{da_handle_decision_forest, "block size", 'i', 1.0, 2, 0.0, 0, "", "256.0"},
{da_handle_decision_forest, "features selection", 's', 0.0, 0, 0.0, 0, "all|custom|log2|proportion|sqrt", "sqrt"},
{da_handle_decision_forest, "bootstrap", 's', 0.0, 0, 0.0, 0, "no|yes", "yes"},
{da_handle_decision_forest, "bootstrap samples factor", 'r', 0.0, 1, 1.0, 2, "", "1.0"},
{da_handle_decision_forest, "proportion features", 'r', 0.0, 1, 1.0, 2, "", "0.1"},
{da_handle_nlls, "ralfit model", 's', 0.0, 0, 0.0, 0, "gauss-newton|hybrid|quasi-newton|tensor-newton", "hybrid"},
{da_handle_nlls, "print level", 'i', 0.0, 2, 5.0, 2, "", "1.0"},
{da_handle_nlls, "derivative test tol", 'r', 0.0, 1, 10.0, 2, "", "0.0001"},
{da_handle_nlls, "ralfit iteration limit", 'i', 1.0, 2, 0.0, 0, "", "100.0"},
{da_handle_nlls, "lbfgsb memory limit", 'i', 1.0, 2, 1000.0, 2, "", "11.0"},
{da_handle_nlls, "lbfgsb iteration limit", 'i', 1.0, 2, 0.0, 0, "", "10000.0"},
{da_handle_nlls, "coord iteration limit", 'i', 1.0, 2, 0.0, 0, "", "100000.0"},
{da_handle_nlls, "monitoring frequency", 'i', 0.0, 2, 0.0, 0, "", "0.0"},
{da_handle_nlls, "check derivatives", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_nlls, "ralfit nlls method", 's', 0.0, 0, 0.0, 0, "aint|galahad|linear solver|more-sorensen|powell-dogleg", "galahad"},
{da_handle_nlls, "optim method", 's', 0.0, 0, 0.0, 0, "bfgs|coord|lbfgs|lbfgsb|ralfit", "ralfit"},
{da_handle_nlls, "ralfit convergence step size", 'r', 0.0, 1, 1.0, 1, "", "?"},
{da_handle_nlls, "coord restart", 'i', 0.0, 2, 0.0, 0, "", "2147483647.0"},
{da_handle_nlls, "ralfit convergence rel tol grd", 'r', 0.0, 1, 1.0, 1, "", "?"},
{da_handle_nlls, "coord skip max", 'i', 10.0, 2, 0.0, 0, "", "100.0"},
{da_handle_nlls, "coord skip min", 'i', 2.0, 2, 0.0, 0, "", "2.0"},
{da_handle_nlls, "check data", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_nlls, "storage order", 's', 0.0, 0, 0.0, 0, "c|column-major|f|fortran|row-major", "column-major"},
{da_handle_nlls, "ralfit globalization method", 's', 0.0, 0, 0.0, 0, "reg|regularization|tr|trust-region", "trust-region"},
{da_handle_nlls, "ralfit convergence abs tol fun", 'r', 0.0, 1, 1.0, 1, "", "?"},
{da_handle_nlls, "print options", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_nlls, "debug", 'i', 0.0, 2, 3.0, 2, "", "0.0"},
{da_handle_nlls, "regularization term", 'r', 0.0, 2, 0.0, 0, "", "0.0"},
{da_handle_nlls, "finite differences step", 'r', 0.0, 1, 10.0, 1, "", "?"},
{da_handle_nlls, "lbfgsb convergence tol", 'r', 0.0, 1, 1.0, 1, "", "?"},
{da_handle_nlls, "lbfgsb progress factor", 'r', 0.0, 2, 0.0, 0, "", "?"},
{da_handle_nlls, "regularization power", 's', 0.0, 0, 0.0, 0, "cubic|quadratic", "quadratic"},
{da_handle_nlls, "infinite bound size", 'r', 1000.0, 1, 0.0, 0, "", "1e+20"},
{da_handle_nlls, "time limit", 'r', 0.0, 1, 0.0, 0, "", "1000000.0"},
{da_handle_nlls, "coord convergence tol", 'r', 0.0, 1, 1.0, 1, "", "?"},
{da_handle_nlls, "coord optimality tol", 'r', 0.0, 2, 0.0, 0, "", "?"},
{da_handle_nlls, "ralfit convergence rel tol fun", 'r', 0.0, 1, 1.0, 1, "", "?"},
{da_handle_nlls, "coord skip tol", 'r', -1.0, 2, 0.0, 0, "", "?"},
{da_handle_nlls, "ralfit convergence abs tol grd", 'r', 0.0, 1, 1.0, 1, "", "?"},
{da_handle_nn, "weights", 's', 0.0, 0, 0.0, 0, "distance|uniform", "uniform"},
{da_handle_nn, "metric", 's', 0.0, 0, 0.0, 0, "cityblock|cosine|euclidean|euclidean_gemm|inner product|l1|l2|manhattan|minkowski|sqeuclidean|sqeuclidean_gemm", "euclidean"},
{da_handle_nn, "algorithm", 's', 0.0, 0, 0.0, 0, "auto|ball tree|brute|kd tree", "auto"},
{da_handle_nn, "radius", 'r', 0.0, 2, 0.0, 0, "", "1.0"},
{da_handle_nn, "outlier target", 'r', 0.0, 0, 0.0, 0, "", "0.0"},
{da_handle_nn, "minkowski parameter", 'r', 0.0, 1, 0.0, 0, "", "2.0"},
{da_handle_nn, "outlier handling", 's', 0.0, 0, 0.0, 0, "manual|most frequent|none", "none"},
{da_handle_nn, "outlier label", 'i', 0.0, 0, 0.0, 0, "", "0.0"},
{da_handle_nn, "leaf size", 'i', 1.0, 2, 0.0, 0, "", "30.0"},
{da_handle_nn, "number of neighbors", 'i', 1.0, 2, 0.0, 0, "", "5.0"},
{da_handle_nn, "check data", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_nn, "storage order", 's', 0.0, 0, 0.0, 0, "c|column-major|f|fortran|row-major", "column-major"},
{da_handle_svm, "mixed precision", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_svm, "low precision convergence tolerance", 'r', 0.0, 2, 0.0, 0, "", "0.01"},
{da_handle_svm, "tau", 'r', 0.0, 2, 0.0, 0, "", "?"},
{da_handle_svm, "kernel", 's', 0.0, 0, 0.0, 0, "linear|poly|polynomial|rbf|sigmoid", "rbf"},
{da_handle_svm, "storage order", 's', 0.0, 0, 0.0, 0, "c|column-major|f|fortran|row-major", "column-major"},
{da_handle_svm, "n_folds", 'i', 1.0, 2, 0.0, 0, "", "5.0"},
{da_handle_svm, "low precision max_iter", 'i', 0.0, 2, 0.0, 0, "", "80000.0"},
{da_handle_svm, "check data", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_svm, "cache size", 'r', -1.0, 2, 0.0, 0, "", "-1.0"},
{da_handle_svm, "degree", 'i', 1.0, 2, 0.0, 0, "", "3.0"},
{da_handle_svm, "c", 'r', 0.0, 1, 0.0, 0, "", "1.0"},
{da_handle_svm, "max_iter", 'i', 0.0, 2, 0.0, 0, "", "100000.0"},
{da_handle_svm, "nu", 'r', 0.0, 1, 1.0, 2, "", "0.5"},
{da_handle_svm, "coef0", 'r', 0.0, 0, 0.0, 0, "", "0.0"},
{da_handle_svm, "tolerance", 'r', 0.0, 1, 0.0, 0, "", "0.001"},
{da_handle_svm, "gamma", 'r', -1.0, 2, 0.0, 0, "", "-1.0"},
{da_handle_svm, "max_ws_size", 'i', -1.0, 2, 0.0, 0, "", "-1.0"},
{da_handle_svm, "predict probabilities", 'i', 0.0, 2, 1.0, 2, "", "0.0"},
{da_handle_svm, "seed", 'i', -1.0, 2, 0.0, 0, "", "0.0"},
{da_handle_svm, "epsilon", 'r', 0.0, 2, 0.0, 0, "", "0.1"},
{da_handle_interpolation, "check data", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_interpolation, "cubic spline type", 's', 0.0, 0, 0.0, 0, "clamped zero|custom|hermite|natural", "natural"},
{da_handle_interpolation, "storage order", 's', 0.0, 0, 0.0, 0, "c|column-major|f|fortran|row-major", "column-major"},
{da_handle_approx_nn, "algorithm", 's', 0.0, 0, 0.0, 0, "auto|ivfflat", "ivfflat"},
{da_handle_approx_nn, "train fraction", 'r', 0.0, 1, 1.0, 2, "", "1.0"},
{da_handle_approx_nn, "k-means_iter", 'i', 1.0, 2, 0.0, 0, "", "10.0"},
{da_handle_approx_nn, "metric", 's', 0.0, 0, 0.0, 0, "cosine|euclidean|inner product|sqeuclidean", "sqeuclidean"},
{da_handle_approx_nn, "seed", 'i', -1.0, 2, 0.0, 0, "", "0.0"},
{da_handle_approx_nn, "n_probe", 'i', 1.0, 2, 0.0, 0, "", "1.0"},
{da_handle_approx_nn, "n_list", 'i', 1.0, 2, 0.0, 0, "", "1.0"},
{da_handle_approx_nn, "number of neighbors", 'i', 1.0, 2, 0.0, 0, "", "5.0"},
{da_handle_approx_nn, "check data", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_approx_nn, "storage order", 's', 0.0, 0, 0.0, 0, "c|column-major|f|fortran|row-major", "column-major"},
{da_handle_kernel_pca, "coef0", 'r', 0.0, 0, 0.0, 0, "", "1.0"},
{da_handle_kernel_pca, "kernel", 's', 0.0, 0, 0.0, 0, "linear|poly|precomputed|rbf|sigmoid", "linear"},
{da_handle_kernel_pca, "storage order", 's', 0.0, 0, 0.0, 0, "c|column-major|f|fortran|row-major", "column-major"},
{da_handle_kernel_pca, "n_oversamples", 'i', 0.0, 2, 0.0, 0, "", "10.0"},
{da_handle_kernel_pca, "n_components", 'i', 0.0, 2, 0.0, 0, "", "0.0"},
{da_handle_kernel_pca, "degree", 'i', 1.0, 2, 0.0, 0, "", "3.0"},
{da_handle_kernel_pca, "check data", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_kernel_pca, "fit inverse transform", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_kernel_pca, "gamma", 'r', 0.0, 0, 0.0, 0, "", "-1.0"},
{da_handle_kernel_pca, "remove zero eig", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_kernel_pca, "power normalization", 's', 0.0, 0, 0.0, 0, "lu|none|qr", "qr"},
{da_handle_kernel_pca, "alpha", 'r', 0.0, 1, 0.0, 0, "", "1.0"},
{da_handle_kernel_pca, "copy data", 's', 0.0, 0, 0.0, 0, "no|yes", "yes"},
{da_handle_kernel_pca, "eigensolver", 's', 0.0, 0, 0.0, 0, "auto|randomized|syevd", "auto"},
{da_handle_kernel_pca, "power iterations", 'i', -1.0, 2, 0.0, 0, "", "-1.0"},
{da_handle_kernel_pca, "seed", 'i', -1.0, 2, 0.0, 0, "", "0.0"},
{da_handle_tsne, "mixed precision", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_tsne, "init", 's', 0.0, 0, 0.0, 0, "pca|random|supplied", "pca"},
{da_handle_tsne, "low precision max_iter", 'i', 1.0, 2, 0.0, 0, "", "200.0"},
{da_handle_tsne, "check data", 's', 0.0, 0, 0.0, 0, "no|yes", "no"},
{da_handle_tsne, "n_components", 'i', 1.0, 2, 3.0, 2, "", "2.0"},
{da_handle_tsne, "max_iter", 'i', 1.0, 2, 0.0, 0, "", "1000.0"},
{da_handle_tsne, "seed", 'i', -1.0, 2, 0.0, 0, "", "0.0"},
{da_handle_tsne, "perplexity", 'r', 1.0, 2, 0.0, 0, "", "30.0"},
{da_handle_tsne, "n_iter_without_progress", 'i', 0.0, 2, 0.0, 0, "", "300.0"},
{da_handle_tsne, "early exaggeration", 'r', 1.0, 2, 0.0, 0, "", "12.0"},
{da_handle_tsne, "storage order", 's', 0.0, 0, 0.0, 0, "c|column-major|f|fortran|row-major", "column-major"},
{da_handle_tsne, "learning rate", 'r', 0.0, 0, 0.0, 0, "", "-1.0"},
{da_handle_tsne, "min_grad_norm", 'r', 0.0, 2, 0.0, 0, "", "1e-07"},
{da_handle_tsne, "theta", 'r', 0.0, 2, 1.0, 2, "", "0.5"},
{da_handle_tsne, "low precision min_grad_norm", 'r', 0.0, 2, 0.0, 0, "", "0.0001"},
{DATASTORE, "datastore precision", 's', 0.0, 0, 0.0, 0, "double|single", "double"},
{DATASTORE, "datatype", 's', 0.0, 0, 0.0, 0, "auto|boolean|double|float|integer|string", "auto"},
{DATASTORE, "use header row", 'i', 0.0, 2, 1.0, 2, "", "0.0"},
{DATASTORE, "skip empty lines", 'i', 0.0, 2, 1.0, 2, "", "0.0"},
{DATASTORE, "delimiter", 's', 0.0, 0, 0.0, 0, "", ","},
{DATASTORE, "warn for missing data", 'i', 0.0, 2, 1.0, 2, "", "0.0"},
{DATASTORE, "thousands", 's', 0.0, 0, 0.0, 0, "", ""},
{DATASTORE, "quote character", 's', 0.0, 0, 0.0, 0, "", "\""},
{DATASTORE, "decimal", 's', 0.0, 0, 0.0, 0, "", "."},
{DATASTORE, "scientific notation character", 's', 0.0, 0, 0.0, 0, "", "e"},
{DATASTORE, "skip footer", 'i', 0.0, 2, 1.0, 2, "", "0.0"},
{DATASTORE, "skip rows", 's', 0.0, 0, 0.0, 0, "", ""},
{DATASTORE, "comment", 's', 0.0, 0, 0.0, 0, "", "#"},
{DATASTORE, "whitespace delimiter", 'i', 0.0, 2, 1.0, 2, "", "0.0"},
{DATASTORE, "escape character", 's', 0.0, 0, 0.0, 0, "", "\\"},
{DATASTORE, "line terminator", 's', 0.0, 0, 0.0, 0, "", ""},
{DATASTORE, "integers as floats", 'i', 0.0, 2, 1.0, 2, "", "0.0"},
{DATASTORE, "row start", 'i', 0.0, 2, 0.0, 0, "", "0.0"},
{DATASTORE, "storage order", 's', 0.0, 0, 0.0, 0, "column-major|row-major", "column-major"},
{DATASTORE, "skip initial space", 'i', 0.0, 2, 1.0, 2, "", "0.0"},
{DATASTORE, "double quote", 'i', 0.0, 2, 1.0, 2, "", "0.0"},
