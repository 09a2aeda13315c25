PBT = "property-based testing: seeded generators against "
FUZZ = "generated-input search; nothing outside the generated sizes is claimed; "


prop("C01", "Statistics equal their definitions for any shape, layout and scale",
     "For every data matrix, every axis, storage order, leading dimension and degrees of freedom, the means, variances, skewness, kurtosis, moments, quantiles, five-point summaries, covariance and correlation matrices returned by the library equal their mathematical definitions up to rounding. Standardizing and undoing the standardization returns the data, and padding, inputs and everything outside the documented outputs stay untouched. Invalid arguments are rejected with the documented status and nothing is written.",
     ["inputs", "configurations"], "all matrices (including constant, tiny, huge-offset, tied and one-row data), axes, orders, leading dimensions, quantile types and dofs",
     "The tests compare a dozen fixed matrices; quantile types, axes, offsets, strides and ties multiply far beyond them.",
     [C + "basic_statistics"], [("moment kernels", C + "basic_statistics/moment_statistics.cpp"), ("quantiles by partial selection", C + "basic_statistics/order_statistics.cpp"), ("standardize", C + "basic_statistics")],
     PBT + "extended-precision definitions", FUZZ + "matrices up to a few hundred rows in float and double against long double formulas with rounding-error bounds.")

prop("C02", "Containers behave as their mathematical models after any history",
     "After any sequence of operations, the data store returns exactly the cells, labels, selections and missing-value masks that a plain table subjected to the same operations holds, whatever the block layout, types, storage orders or concatenations. An operation that fails reports an error and leaves the contents as they were. The interval map, interval set, growing vector and column cache used internally agree with their set, list and LRU models.",
     ["histories", "inputs"], "all operation sequences over stores with blocks of mixed types, and over the internal containers, including failing operations",
     "Tests replay a few scripted histories; the block and interval bookkeeping depends on the order and overlap of operations.",
     [C + "data_management", C + "utilities"], [("column blocks", C + "data_management/data_store.hpp"), ("interval map", C + "data_management/interval_map.hpp"), ("interval set", C + "data_management/interval_set.cpp"), ("cache", C + "utilities/da_cache.hpp"), ("vector", C + "utilities/da_vector.hpp")],
     "stateful model-based testing: random histories against table, set and LRU models", FUZZ + "histories of up to about 40 operations on small tables and intervals.")

prop("C03", "Reading a CSV file yields exactly the table that was written",
     "For every table and every supported dialect (delimiter, quotes, escapes, comments, line terminators, whitespace, skipped rows, header), loading the file returns the same rows, columns, headings, types and values, with numbers within a few units in the last place of their text. Malformed input (ragged rows, unparsable numbers) gives the documented error or missing value, never a silently different table.",
     ["inputs", "configurations"], "all tables of numbers and text printed under all combinations of reader options",
     "The tests read a fixed set of small files; quoting, chunk boundaries and options interact.",
     [C + "csv"], [("tokenizer", C + "csv/tokenizer.c"), ("number parsing", C + "csv/char_to_num.hpp"), ("type inference and loading", C + "csv/csv_reader.hpp")],
     "round trip: a generated table is printed in a generated dialect and read back; reference parser", FUZZ + "tables up to a few thousand cells plus streams that cross the read chunk.")

prop("C04", "Untrusted files never corrupt memory",
     "Loading any sequence of bytes as a CSV file or as a saved model returns a status: it never reads or writes outside allocated memory, never leaks control into undefined behaviour and never hangs. A model file that was truncated, or of another version or precision, is rejected and the handle stays usable.",
     ["inputs", "fault_sequences"], "all byte sequences, in particular truncations, mutations and splices of valid files",
     "Tests use well-formed files and a few hand-made corruptions; the input space of a parser is unbounded.",
     [C + "csv", C + "utilities"], [("tokenizer", C + "csv/tokenizer.c"), ("model reader", C + "utilities/model_persistence.cpp")],
     "fuzzing: structured mutation of valid files under AddressSanitizer and UndefinedBehaviorSanitizer", FUZZ + "bytes of files up to a few kilobytes; the library is compiled with ASan and UBSan.")

prop("C05", "Options accept exactly their documented domain and keep what was set",
     "Setting an option succeeds exactly when the name exists, the type matches and the value lies in its range or list (after the documented normalisation of spaces and case), and a later get returns that value. A rejected set returns the documented error and changes nothing. Options of a handle stay independent of those of other handles.",
     ["histories", "inputs", "configurations"], "all sequences of sets and gets over every option of every handle type, in and out of range, right and wrong types",
     "Tests set a handful of options; bounds, open and closed ends and tied lists exist for over a hundred.",
     [C + "utilities"], [("option registry", C + "utilities/options.hpp"), ("registration", "source/core/**/*_options.hpp")],
     "stateful model-based testing: an option registry model against random histories", FUZZ + "histories on every handle type against a registry model and the tables of documented bounds.")

prop("C06", "Every call sequence on a handle ends in the documented status",
     "A handle that is null, of the wrong type, of the wrong precision, not yet trained or reused after an error answers every call with the documented status and never crashes, and a failed call leaves earlier results and later successful calls as if it had not happened. Result queries report the needed size when the array is too small, write exactly that many entries otherwise and are repeatable. Errors stay retrievable through the handle until the next call.",
     ["histories", "inputs"], "all sequences of API calls (valid or not) on handles of all types and both precisions",
     "Tests try each error once from a fresh handle; the order of calls and reuse after errors is open-ended.",
     [C + "utilities", "source/include"], [("C wrappers", C + "**/*_public.cpp"), ("handle", C + "utilities/da_handle.cpp"), ("basic handler", C + "utilities/basic_handle.hpp")],
     "stateful testing: random API call sequences with invalid arguments against a handle state model", FUZZ + "sequences of up to about 30 calls on small problems, under AddressSanitizer.")

prop("C07", "A saved model behaves identically after loading",
     "For every model type, configuration and training set, saving a trained model and loading it into a fresh handle gives a handle whose predictions, transforms, results and options equal those of the original bit for bit. Saving a loaded model yields the same file.",
     ["inputs", "configurations", "histories"], "all supported model types, option settings and training sets, and repeated save and load",
     "Tests save one model per type; each field that can be forgotten matters only under some option.",
     [C + "utilities"], [("archive", C + "utilities/model_persistence.hpp"), ("serialize and deserialize members", C + "**")],
     "round trip: save, load, and compare all observable behaviour of the two handles", FUZZ + "small training sets over the option space of every persistable model.")

prop("C08", "Pairwise distances and kernels equal their definitions",
     "For all matrices, metrics, kernel functions, storage orders, leading dimensions and thread counts, each entry of the returned distance or kernel matrix equals the metric's definition up to rounding, distances are never negative or NaN for finite data, and the matrix of a data set with itself is symmetric with a zero diagonal. Nothing outside the output is written.",
     ["inputs", "configurations", "schedules"], "all shapes across the blocking boundaries, metrics, Minkowski powers, degrees, orders and thread counts",
     "Tests compare small fixed matrices, below every blocking and vector-width boundary.",
     [C + "metrics", C + "kernel_functions"], [("distance kernels", C + "metrics"), ("kernel functions", C + "kernel_functions")],
     PBT + "extended-precision definitions", FUZZ + "shapes up to about 1100 rows, across the block sizes, in both precisions.")

prop("C09", "Nearest-neighbour searches are exact and predictions follow from them",
     "For every data set, metric, algorithm (brute force, k-d tree, ball tree), leaf size and layout, the k-nearest and radius searches return exactly the neighbours that exhaustive comparison finds, with correct distances, no duplicates and in ascending order. Classification probabilities, labels and regression targets are the weighted votes and means over those neighbours, including the documented treatment of outliers. The same holds after data, labels or options of the handle are replaced.",
     ["inputs", "configurations", "histories"], "all training sets (with duplicates and ties), queries, metrics, algorithms, leaf sizes, k, radii, weights and handle histories",
     "Tests use small fixed sets in which pruning, block boundaries, ties and handle reuse hardly occur.",
     [C + "nearest_neighbors"], [("brute force", C + "nearest_neighbors/nearest_neighbors.cpp"), ("k-d tree", C + "nearest_neighbors/kd_tree.cpp"), ("ball tree", C + "nearest_neighbors/ball_tree.cpp"), ("heap and tree loops", C + "nearest_neighbors/binary_tree.cpp"), ("radius search", C + "nearest_neighbors/radius_neighbors.cpp")],
     PBT + "an exhaustive-search reference", FUZZ + "sets up to about 1100 points, 8 features; points within rounding of a boundary may fall on either side.")

prop("C10", "Approximate neighbour indices return valid, improving, exact-at-limit answers",
     "For every training set and option setting, the approximate index returns distinct in-range neighbours in order with distances equal to those of the metric, and with every list probed it returns the exact nearest neighbours. Data added to the index is found as if it had been there from the start of the search.",
     ["inputs", "configurations", "histories"], "all training sets, metrics, list counts, probe counts and add sequences",
     "Tests check recall on one data set; list assignment errors only lose some neighbours for some queries.",
     [C + "approximate_neighbors"], [("inverted lists", C + "approximate_neighbors")],
     PBT + "an exhaustive search restricted to the probed lists", FUZZ + "sets up to a few hundred points.")

prop("C11", "k-means ends at a consistent clustering that never got worse",
     "For every data set, algorithm, initialisation and seed, the returned labels assign each point to a nearest returned centre, the centres are the means of their points at convergence, the inertia equals the sum of squared distances, and inertia never exceeds that of the initial centres. All algorithms agree on well separated data, and predict, transform and the reported sizes agree with the centres.",
     ["inputs", "configurations"], "all data sets, cluster counts, algorithms, initialisation methods, seeds and iteration limits",
     "Tests run a few fixed data sets per algorithm; the bounds used to skip distance computations fail only on particular geometry.",
     [C + "clustering"], [("Lloyd, Elkan, Hartigan-Wong, MacQueen", C + "clustering/kmeans")],
     PBT + "the fixed-point and inertia invariants and a reference Lloyd iteration", FUZZ + "sets up to a few hundred points in up to 8 dimensions.")

prop("C12", "DBSCAN clusters are the density-connected components",
     "For every data set, eps, minimum count, metric and algorithm, core points are exactly those with enough neighbours within eps, two core points share a label exactly when they are density-connected, border points carry the label of a neighbouring core point and all others are noise. Algorithms, layouts and thread counts agree, and cluster numbers are consecutive from zero.",
     ["inputs", "configurations", "schedules"], "all data sets, eps, minimum samples, metrics, algorithms, leaf sizes and thread counts",
     "Tests compare a few labelled sets; blocking, merging across threads and pruning need other shapes.",
     [C + "clustering", C + "nearest_neighbors"], [("DBSCAN", C + "clustering/dbscan"), ("radius neighbours", C + "nearest_neighbors/radius_neighbors.cpp")],
     PBT + "a union-find reference", FUZZ + "sets up to about 600 points; points within rounding of eps are placed on neither side.")

prop("C13", "Principal components reproduce the decomposition of the data",
     "For every matrix, method, scaling and solver, the components are orthonormal, ordered by variance, their variances equal those of the projected data, scores equal the projection, and the leading k components are optimal to rounding. Transforming and inverting gives the rank-k approximation and the identity at full rank; kernel PCA equals the eigen-decomposition of the centred kernel matrix.",
     ["inputs", "configurations"], "all matrices (tall, wide, rank-deficient, constant columns), component counts, methods and layouts",
     "Tests compare fixed matrices with stored components; shape, rank and method interact.",
     [C + "factorization"], [("PCA", C + "factorization/pca"), ("kernel PCA", C + "factorization/kernel_pca")],
     PBT + "a Jacobi eigensolver reference and algebraic invariants", FUZZ + "matrices up to about 60 by 40.")

prop("C14", "Linear models return the minimiser of their objective",
     "For every design matrix, response, regularisation and solver that the documentation allows, the returned coefficients satisfy the optimality (subgradient) conditions of the documented objective to the requested tolerance, hence all solvers agree, and predictions are X times the coefficients plus the intercept. Unsupported combinations are refused with the documented status.",
     ["inputs", "configurations"], "all shapes, ranks, scalings, intercept settings, l1 and l2 penalties and solvers",
     "Tests compare stored coefficients on a few data sets; scaling, intercept and penalty interact in each solver.",
     [C + "linear_model"], [("linear model", C + "linear_model"), ("coordinate descent", C + "optimization/coord.hpp")],
     PBT + "optimality conditions of the documented objective, and a differential between solvers", FUZZ + "problems up to about 60 by 20.")

prop("C15", "Logistic regression returns the optimum of the penalised likelihood",
     "For every labelled data set, class count, constraint form, penalty and intercept setting, the gradient of the documented penalised likelihood vanishes at the returned coefficients to tolerance, predicted probabilities are those of the model and sum to one, and predicted labels are the most probable classes.",
     ["inputs", "configurations"], "all data sets, class counts, rsc and ssc forms, penalties, intercepts and layouts",
     "Tests compare stored coefficients for a few sets.",
     [C + "linear_model"], [("logistic loss", C + "linear_model/nln_optim_callbacks.hpp")],
     PBT + "the gradient of the documented objective and a reference model", FUZZ + "problems up to about 80 by 8 with up to 5 classes.")

prop("C16", "Support vector machines satisfy the optimality conditions",
     "For every data set, kernel, C, nu and epsilon, the returned dual coefficients, supports and biases satisfy the Karush-Kuhn-Tucker conditions of the documented problem to tolerance, decision values equal the kernel expansion, and predictions and one-against-one votes follow from them. Support counts and indices are consistent with the training data.",
     ["inputs", "configurations"], "all data sets, four problem types, kernels, parameters, shapes and layouts",
     "Tests compare fixed data sets with another library; working-set and cache decisions depend on the data.",
     [C + "svm"], [("decomposition solver", C + "svm")],
     PBT + "KKT conditions and an exact kernel expansion", FUZZ + "problems up to about 120 points.")

prop("C17", "A decision tree is the greedy optimum of its criterion and predicts by it",
     "For every training set, criterion, depth and sample limits and split method, each node splits where the documented impurity decrease is largest among the candidate thresholds, no split violates a limit, and each leaf predicts the majority class and class frequencies of the training samples that reach it. Predictions, probabilities, scores and result queries describe that same tree, for any layout and after refits and save and load.",
     ["inputs", "configurations", "histories"], "all training sets (ties, constant and categorical features, duplicated rows, infinities excluded), criteria, limits, histogram settings and layouts",
     "Tests check accuracy on a few sets, which a wrong threshold, count or limit often leaves unchanged.",
     [C + "decision_forest"], [("tree growing and scoring", C + "decision_forest/tree/decision_tree.cpp"), ("impurity and split scores", C + "decision_forest/common/scoring.cpp"), ("histograms", C + "decision_forest/common/histogram.cpp"), ("sorting", C + "decision_forest/common/idx_sorting.cpp")],
     PBT + "a reference CART implementation and tree invariants recovered from predictions", FUZZ + "sets up to a few hundred samples, 8 features, 6 classes.")

prop("C18", "A random forest is the vote of trees grown on its bootstrap samples",
     "For every training set and option setting, the forest's probabilities are the mean of its trees' and its labels their documented vote, the result depends only on data, options and seed and not on threads or layout (apart from choices between equally good splits when several threads work on one tree), and with one tree, no bootstrap and all features it equals the decision tree. Score is the fraction of correctly predicted labels.",
     ["inputs", "configurations", "schedules", "histories"], "all training sets, tree counts, bootstrap and feature options, seeds, thread counts and block sizes",
     "Tests check accuracy on a few sets and one thread count; aggregation blocks and races need other sizes and schedules.",
     [C + "decision_forest"], [("forest", C + "decision_forest/forest/decision_forest.cpp"), ("bootstrap", C + "decision_forest/forest/decision_forest.cpp")],
     PBT + "single-tree differential, permutation and thread metamorphic relations", FUZZ + "sets up to about 1500 samples and 40 trees.")

prop("C19", "Nonlinear least squares ends at points that are feasible, improved and as reported",
     "For every smooth least-squares problem and option setting, the nonlinear least-squares solver terminates, ends with success only inside the bounds and never above the starting objective, and reports the residual, gradient norm and counts of the point it returns. Without bounds, a successful solve by the trust-region methods ends where the documented gradient or function tests hold or where no further progress is possible. Callbacks that fail stop the solve with the documented status, and a failed fit leaves the coefficients as they were.",
     ["inputs", "configurations", "fault_sequences"], "all generated residual families, models, methods, norms, regularisations, bounds, weights and failing callbacks",
     "Tests solve a handful of fixed problems with few option combinations.",
     [C + "nlls", C + "optimization", "external/RALFit"], [("RALFit", "external/RALFit/libRALFit/src"), ("wrapper", C + "nlls")],
     PBT + "stationarity, bound, descent and bookkeeping invariants", FUZZ + "problems up to 12 parameters and 60 residuals.")

prop("C20", "A cubic spline interpolates its sites with the promised smoothness",
     "For every increasing set of sites, values and boundary conditions, the spline passes through all values, is continuous with continuous first and (for the spline method) second derivatives, satisfies its boundary conditions and reproduces cubics. Hermite splines match the given derivatives. Evaluation and derivatives agree with the coefficients for any query order and batching, and extrapolation follows the end pieces.",
     ["inputs", "configurations", "histories"], "all sites (uniform and not), values, dimensions, boundary conditions, derivative orders and query sets",
     "Tests interpolate a few fixed curves; uneven spacing, few sites and boundary combinations are hardly covered.",
     [C + "interpolation"], [("cubic spline", C + "interpolation/cubic_spline"), ("cell search", C + "interpolation/interpolation.cpp")],
     PBT + "a dense linear-system reference in extended precision", FUZZ + "up to about 300 sites and 5 dimensions.")

prop("C21", "t-SNE returns a reproducible embedding whose divergence is as reported",
     "For every data set and option setting, the embedding is finite, has the requested shape and, for a given seed and initialisation, is reproducible. The reported divergence equals that of the returned embedding under the documented perplexity-calibrated similarities, and optimisation does not leave it above that of the start.",
     ["inputs", "configurations"], "all data sets, perplexities, dimensions, methods, initialisations and seeds",
     "Tests run two small sets and check shapes.",
     [C + "dimension_reduction"], [("t-SNE", C + "dimension_reduction")],
     PBT + "a reference divergence in extended precision", FUZZ + "sets up to about 120 points.")

prop("C22", "Splits, shuffles and array utilities lose and invent nothing",
     "For every array and size, a train/test split partitions the rows exactly, keeps proportions per class when stratified, is reproducible from its seed, and with given indices places each row where they say. Switching the storage order is a lossless transposition, and the data checks flag exactly the arrays that contain NaN.",
     ["inputs", "configurations"], "all shapes, types, layouts, train and test sizes, class distributions and seeds",
     "Tests split a few arrays; rounding of class shares and layouts multiplies the cases.",
     [C + "utilities"], [("splits", C + "utilities/train_test_split.cpp"), ("order switching", C + "utilities/da_utils.cpp")],
     PBT + "partition, proportion and round-trip invariants", FUZZ + "arrays up to a few hundred rows.")

prop("C23", "Answers do not depend on layout, padding, thread count or earlier use",
     "For every model and training set, row-major and column-major inputs, any leading dimension, any number of threads and a handle that was used before give the same answer as a fresh single-threaded column-major handle, exactly where nothing is computed in another order and to rounding elsewhere, as far as the answer is determined by the data (a fit with several optima, stopped by a tolerance or decided by ties keeps its status). Repeating a seeded fit gives identical results.",
     ["configurations", "schedules", "histories", "inputs"], "all model types, layouts, paddings, thread counts 1 to 8 and prior uses of the handle",
     "Tests run each model once per layout and one thread count.",
     ["source/core"], [("array checks and copies", C + "utilities/basic_handle.hpp"), ("thread loops", C + "**")],
     "metamorphic testing: the same problem under generated layouts, paddings, thread counts and handle histories", FUZZ + "small and medium problems for every model type.")

prop("C24", "Every instruction-set variant gives the same answers",
     "For every input, the scalar, AVX and AVX2 variants of the kernels of k-means (Lloyd, Elkan), support vector machines, kernel functions and t-SNE return the same results up to rounding (for support vector machines up to the stopping tolerance), with the same statuses.",
     ["configurations", "inputs"], "all kernels with selectable vector variants, over sizes around every vector width",
     "Tests run on whichever single variant the machine selects.",
     ["source/core", "source/include"], [("dispatch", C + "dynamic_dispatch"), ("vector kernels", C + "**/*_kernels.cpp")],
     PBT + "differential comparison of every variant with the scalar one", FUZZ + "The build of the check is generic (AVX2): AVX-512 and half-precision variants are not covered.")
