"""Source of /verif/properties.jsonl (tools/gen.py writes it)."""
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=None)))


p("C01", "Batch model calls equal the in-order per-instance loop",
  "For every model, data matrix and optional label vector, fitting, scoring or fit-scoring the whole matrix has the same effect and yields the same scores, row by row and in order, as handing the rows one at a time to the per-instance calls, each row together with its own label. "
  "Fit-scoring one instance equals fitting it and then scoring it (the seasonal ESD models score the window ending in the instance just fitted), and all fit calls return the model itself.",
  ["inputs", "histories", "configurations"],
  "all models (and all user subclasses of the model base class), matrices of any length >= 0, with and without labels, any split into batch and per-instance calls",
  "The tests run each model once on one data set and check the shape of the result; none compares the batch path with the per-instance path over arbitrary data, labels, and mixtures of both.",
  ["pysad/core/base_model.py", "pysad/utils/__init__.py", "pysad/models/"],
  [("BaseModel.fit/score/fit_score loop over _iterate", "pysad/core/base_model.py"), ("_iterate", "pysad/utils/__init__.py")],
  ["return values of fit, score, fit_score, fit_score_partial", "arguments received by a recording subclass"])

p("C02", "Batch transform calls equal the in-order per-instance loop",
  "For every transformer, postprocessor, probability calibrator and score ensembler, fitting, transforming or fit-transforming a whole array has the same effect and yields the same outputs, element by element and in order, as the per-instance calls; fit calls return the object itself. "
  "Fit-transforming one instance equals fitting it and then transforming it (the two time-series decomposers instead transform the instance as the newest member of their window).",
  ["inputs", "histories", "configurations"],
  "all transformers/postprocessors/calibrators/ensemblers and user subclasses, arrays of any length, any mixture of batch and per-instance calls",
  "Tests call the batch helpers on one data set and mostly check shapes; agreement with the per-instance protocol for any array and any prior history is not checked.",
  ["pysad/core/base_transformer.py", "pysad/core/base_postprocessor.py", "pysad/transform/"],
  [("BaseTransformer batch helpers", "pysad/core/base_transformer.py"), ("BasePostprocessor batch helpers", "pysad/core/base_postprocessor.py")],
  ["return values of fit, transform, fit_transform, fit_transform_partial"])

p("C03", "Statistics equal batch recomputation over the live values",
  "After any sequence of updates and removals of present values, every univariate statistic (count, sum, sum of squares, average, variance, minimum, maximum, median, and the absolute-value wrapper around any of them) reports the statistic of exactly the multiset of values added and not yet removed; the variance is the population variance and never negative, and reading a statistic changes nothing. "
  "With nothing live, the minimum is +infinity, the maximum -infinity, and count, sum and sum of squares are 0.",
  ["inputs", "histories"],
  "any interleaving of update, remove (of a live value) and get, any finite values including duplicates, negatives, and values of very different magnitude",
  "Tests add and remove a handful of fixed values in one order; they cannot cover all interleavings, duplicates of the extreme or median value, or round-off.",
  ["pysad/statistics/"],
  [("per-meter update/remove/get", "pysad/statistics/*.py")],
  ["get() after every operation"],
  [("lst / sum / num_items", "live values or their aggregate", "pysad/statistics/*.py")])

p("C04", "Sliding windows reflect exactly the last W items",
  "A window of size W always contains exactly the last min(n, W) items given to it, in arrival order, and an unlimited window contains all of them. "
  "A running statistic of window size W always equals the wrapped statistic, built with the given keyword arguments, of exactly the last min(n, W) values.",
  ["inputs", "histories", "configurations"],
  "any item sequence, any W >= 1, any statistic class incl. user-defined and parameterised ones, reads at any time",
  "Tests use one window size and one short sequence; eviction errors show up only for particular lengths, duplicates, or after wrap-around.",
  ["pysad/utils/window.py", "pysad/statistics/running_statistic.py"],
  [("append-and-trim", "pysad/utils/window.py"), ("update + remove oldest", "pysad/statistics/running_statistic.py")],
  ["Window.get()", "RunningStatistic.get()"])

p("C05", "Evaluation metrics equal evaluation of the whole history",
  "After any sequence of (true label, prediction) updates, precision, recall, area under ROC and area under precision-recall equal their textbook values computed on all pairs seen so far, independent of how often and when the value was read. "
  "Asking for the area under ROC while only one class has been seen raises a ValueError and leaves the metric usable.",
  ["inputs", "histories"],
  "any sequence of binary labels with binary or real predictions (ties included), reads interleaved anywhere",
  "Tests evaluate a couple of fixed sequences at the end only; ties, degenerate classes and interleaved reads are not covered.",
  ["pysad/evaluation/metrics.py"],
  [("history lists handed to sklearn", "pysad/evaluation/metrics.py")],
  ["get() after each update"])

p("C06", "Windowed metric is the mean over consecutive windows",
  "A windowed metric of window size W evaluates the wrapped metric, built afresh with the given keyword arguments, separately on each consecutive block of W updates and reports the mean over the completed blocks; a trailing partial block is included as one more block exactly when ignoring it was switched off, and is the whole answer while no block is complete. "
  "Reading the value never changes later values.",
  ["inputs", "histories", "configurations"],
  "any W >= 1, any update sequence, both settings of the partial-block flag, any metric class with and without keyword arguments, reads interleaved anywhere",
  "Tests use a few window sizes with one stream and mostly compare shapes of the result; the boundary cases (exact multiples, partial last block, kwargs) vary with history.",
  ["pysad/evaluation/windowed_metric.py"],
  [("block counter and average meter", "pysad/evaluation/windowed_metric.py")],
  ["get() after each update"])

p("C07", "Streamers deliver every instance exactly once with its own label",
  "Iterating an array, list or data frame yields every instance exactly once, unchanged, each paired with its own label when labels are given: in the original order without shuffling, in a random permutation (every order possible) with shuffling. "
  "The inputs are left unmodified, every new iteration starts from scratch, and labels of a different length are rejected with an error rather than silently truncated.",
  ["inputs", "histories", "configurations"],
  "arrays/lists/data frames of any length and dtype, any index or column layout, with and without labels, shuffling on and off, repeated and interleaved iteration",
  "Tests iterate one small array; pairing under shuffling, non-default data-frame indices, interleaved iterators and mismatched lengths depend on the input.",
  ["pysad/utils/array_streamer.py", "pysad/utils/pandas_streamer.py", "pysad/utils/__init__.py"],
  [("index list, shuffled or not", "pysad/utils/array_streamer.py"), ("to_numpy + array streamer", "pysad/utils/pandas_streamer.py")],
  ["the yielded instances and labels"])

p("C08", "Loading a data file returns exactly what was stored",
  "For every feature matrix and label vector written as a MATLAB file with entries X and y, or as a comma-separated text file with the label in the last column, loading gives back the same features (instances x features) and the same labels (one-dimensional), including files with a single instance. "
  "The data iterator yields exactly those pairs, in file order when not shuffled and in a permutation when shuffled, and with a seed the order is a function of the file and the seed alone, whatever happens between creating and consuming the iterator.",
  ["inputs", "configurations", "histories"],
  "any numeric matrix with at least one row and one feature, entries that are not finite included, both formats, any seed",
  "Tests load two bundled data sets and check shapes; single-row files, single-feature files and the seed's effect are not covered.",
  ["pysad/utils/data.py", "pysad/utils/array_streamer.py"],
  [("loadmat / loadtxt and column split", "pysad/utils/data.py"), ("seeded shuffle", "pysad/utils/data.py")],
  ["get_data and get_iterator results"])

p("C09", "Score postprocessors track the statistic of the scores seen",
  "After fitting any sequence of scores, the average, maximum and median postprocessors return the average, maximum and median of all scores fitted so far, and the z-score postprocessor returns (score - mean) / population standard deviation of them; the running variants do the same over exactly the last W fitted scores. "
  "Transforming never changes what later calls return.",
  ["inputs", "histories", "configurations"],
  "any finite score sequence, any W >= 1, transforms interleaved with fits, transforming scores that were never fitted",
  "Tests compare with numpy on one random sequence and one window size.",
  ["pysad/transform/postprocessing/postprocessors.py", "pysad/transform/postprocessing/running_postprocessors.py"],
  [("meters and running meters", "pysad/transform/postprocessing/*.py")],
  ["transform_partial / fit_transform_partial results"])

p("C10", "Probability calibrators implement their definitions",
  "The conformal calibrator returns the fraction of retained scores that are strictly greater than the transformed score, and the Gaussian-tail calibrator returns the normal distribution function of the score under the mean and population standard deviation of the retained scores (standard deviation 1 when the variance is not positive). "
  "Retained means the last W fitted scores when windowed and all fitted scores otherwise; outputs always lie in [0, 1], and transforming never changes what later calls return.",
  ["inputs", "histories", "configurations"],
  "any finite score sequence incl. ties and constants, any W >= 1, windowed and not, transforms at any time after the first fit",
  "Tests check that results lie in [0,1] on one stream; the value for every history, tie and window position is not checked.",
  ["pysad/transform/probability_calibration/conformal_prediction.py", "pysad/transform/probability_calibration/gaussian_tail.py"],
  [("window comparison", "pysad/transform/probability_calibration/conformal_prediction.py"), ("running mean/variance and erfc", "pysad/transform/probability_calibration/gaussian_tail.py")],
  ["transform_partial / fit_transform_partial / batch results"])

p("C11", "Score ensemblers combine each instance's scores by their rule",
  "For every vector of detector scores, the average (optionally weighted), maximum and median ensemblers return that combination of the scores of this instance only; combining does not depend on, or change, anything seen before. "
  "The average-of-maximum and maximum-of-average ensemblers split the detectors into buckets and return the mean of the bucket maxima, respectively the maximum of the bucket means.",
  ["inputs", "configurations", "histories"],
  "any number of detectors, any finite scores incl. ties and negatives, any weights, bucket counts, static and dynamic buckets, batches of any length",
  "Tests combine one random score matrix; agreement with the definition for every vector, weight and bucket layout is not checked.",
  ["pysad/transform/ensemble/ensemblers.py"],
  [("reshape to one row and delegate to score combination", "pysad/transform/ensemble/ensemblers.py")],
  ["transform_partial / transform / fit_transform results"])

p("C12", "Instance scalers normalise each instance on its own",
  "The identity scaler returns the instance unchanged, the standard scaler returns it with zero mean and unit population standard deviation, and the unit-norm scaler returns it divided by its norm of the requested order, so the result has norm 1; each output is a positive affine (respectively scalar) rescaling of its input. "
  "The result depends only on the instance itself, not on other instances or earlier calls.",
  ["inputs", "histories", "configurations"],
  "any finite non-degenerate instance of any length and magnitude, any norm order (1, 2, other p, infinity), any order of calls",
  "Tests check one matrix with one norm order.",
  ["pysad/transform/preprocessing/identity_scaler.py", "pysad/transform/preprocessing/instance_standard_scaler.py", "pysad/transform/preprocessing/instance_unit_norm_scaler.py"],
  [("per-instance formulas", "pysad/transform/preprocessing/*.py")],
  ["transform results"])

p("C13", "A projector applies one fixed linear map of its family",
  "Every projector maps all instances of a stream through one and the same linear map into the requested number of components, whatever the batch layout and history, so equal instances have equal projections and sums map to sums. "
  "The hash projector's map is the same in every run and process: entry (component k, feature i) is -c, +c or 0 according to whether the 32-bit Murmur3 hash of the decimal feature index with seed k, scaled to [0, 1], is at most half the density, at most the density, or larger, with c = sqrt(1/density)/sqrt(components); the sparse random projector's nonzero entries have that same form, and the Gaussian projector's entries are independent draws with mean 0 and variance 1/components.",
  ["inputs", "histories", "configurations"],
  "any number of features and components >= 1, any density, any instances and call order",
  "Tests only check output shapes.",
  ["pysad/transform/projection/streamhash_projector.py", "pysad/transform/projection/random_projector.py"],
  [("hash-derived matrix", "pysad/transform/projection/streamhash_projector.py"), ("projection matrix fitted once", "pysad/transform/projection/random_projector.py")],
  ["transform results on unit vectors and arbitrary instances"])

p("C14", "Seasonal-trend decomposer removes running trend and seasonal mean",
  "Fit-transforming the n-th instance returns it minus the mean of the last T instances including it, minus the mean of all such detrended values recorded at its phase (n modulo the season length, itself included); a detrended value is recorded only once T instances have been seen, and the seasonal part is 0 while none is recorded. "
  "Plain fitting records the same state, and plain transforming is the forecast version: it subtracts the current trend and the seasonal mean of the next phase without changing any state.",
  ["inputs", "histories", "configurations"],
  "any season length >= 1, trend window >= 1 (default: the season length), any number of features, any mixture of fit, transform and fit-transform calls",
  "Tests run a handful of short sequences; the phase/window bookkeeping depends on the whole history.",
  ["pysad/transform/preprocessing/seasonal_trend_decomposer.py"],
  [("trend deque and per-phase sums", "pysad/transform/preprocessing/seasonal_trend_decomposer.py")],
  ["results of fit_transform_partial, transform_partial, transform, fit_transform"])

p("C15", "STL residuals and seasonal ESD follow their definition on the last window",
  "The STL residual transformer returns, for the newest value, value - STL seasonal component - median, computed on exactly the last W values (0 while fewer than two periods are available); its plain transform uses the fitted values plus the given one without storing it. "
  "The seasonal ESD models return the test statistic of the newest value when the generalised ESD test on those residuals (mean/standard deviation, or median/scaled MAD in the hybrid variant) declares it one of at most the allowed number of anomalies at the given level, and 0 otherwise or before the window is full.",
  ["inputs", "histories", "configurations"],
  "any univariate finite stream, period >= 2, window >= 2 periods, number of anomalies, level, robust or not, any mixture of calls",
  "Tests plant a few spikes in one series; exact statistic, selection count, and window content vary with every input.",
  ["pysad/transform/preprocessing/modified_stl_residual.py", "pysad/models/seasonal_esd.py"],
  [("sliding window + STL", "pysad/transform/preprocessing/modified_stl_residual.py"), ("iterative removal with critical values", "pysad/models/seasonal_esd.py")],
  ["transform_partial, fit_transform_partial, transform_window, score_partial, fit_score_partial"])

p("C16", "Reference-window models refit on exactly the right instances",
  "A reference-window model always scores with a fresh detector, built with the given keyword arguments, that was fitted on exactly the right instances and labels in arrival order: without an initial window, all instances so far while fewer than W were seen, and afterwards the last W instances as of the most recent sliding boundary (a multiple of the sliding size not below W; until the first of these it stays with the first W-1 instances); with an initial window, that window extended by the stream at every sliding boundary and cut to its last W. "
  "The isolation-forest stream model is this with its forest, and the one-fit model fits once on the initial data and never again; the score is the detector's decision value for that single instance.",
  ["inputs", "histories", "configurations"],
  "any window size >= 2, sliding size >= 1, with/without initial window and labels, any stream length, scores at any time",
  "Tests run a few window/slide combinations with a real detector and look at shapes; which instances the detector was fitted on is never observed.",
  ["pysad/models/integrations/reference_window_model.py", "pysad/models/integrations/one_fit_model.py", "pysad/models/integrations/pyod_model.py", "pysad/models/iforest_asd.py"],
  [("current/reference window bookkeeping", "pysad/models/integrations/reference_window_model.py")],
  ["fit and decision calls received by a recording detector class", "score_partial results"])

p("C17", "Deviation models equal their formulas over the whole history",
  "The standard-deviation model scores a value as (value - mean or median) / (population standard deviation + 1e-10) of all values fitted so far, and the median-absolute-deviation model as (value - median) / (b * MAD + 1e-10), where MAD is the median of each fitted value's absolute distance to the median at the time it was fitted; the absolute value is taken unless switched off. "
  "Scoring never changes later scores.",
  ["inputs", "histories", "configurations"],
  "any finite univariate stream incl. constant ones, all option combinations, scores of any value at any time after the first fit",
  "Tests only check that the models run on one stream.",
  ["pysad/models/standard_absolute_deviation.py", "pysad/models/median_absolute_deviation.py", "pysad/statistics/"],
  [("meters combined by formula", "pysad/models/standard_absolute_deviation.py"), ("running median of deviations", "pysad/models/median_absolute_deviation.py")],
  ["score_partial results"])

p("C18", "Half-space trees score by reference-window mass in nested half-spaces",
  "The score of an instance is minus the sum, over trees and over the nodes from root to leaf on its path, of 2^depth times the number of reference-window instances in that node, where every tree halves the current cell of the given feature ranges at its midpoint along some feature (values at or below the midpoint go to the lower half) down to the maximum depth. "
  "The reference window is the current window until the first one is complete, and afterwards exactly the last completed window of W instances, so the order of instances inside a window does not matter and older windows are forgotten; instances given at construction count as fitted first.",
  ["inputs", "histories", "configurations"],
  "any feature ranges, W, depth, number of trees, any stream and query points, queries at any time",
  "Tests check output shapes with one configuration; mass accounting across window switches depends on the history.",
  ["pysad/models/half_space_trees.py"],
  [("mass update, window switch, path scoring", "pysad/models/half_space_trees.py")],
  ["score_partial results"])

p("C19", "RS-Hash scores by decayed counts of the grid cells hit",
  "After fitting an instance, the score is the mean over components of log(1 + the exponentially decayed number of earlier instances in the same grid cell), each earlier instance weighing 2^(-decay * age) with age in instances. "
  "So an instance equal to earlier ones and far from all others scores log(1 + sum of 2^(-decay * age)), an instance in cells never hit before scores 0, features whose range is empty (minimum equals maximum) do not matter while another feature has a range, and the number of hash functions does not change the score.",
  ["inputs", "histories", "configurations"],
  "any stream over well-separated points, any decay, component count, number of hash functions, feature ranges",
  "Tests check output shapes only; decay accumulates over arbitrary histories.",
  ["pysad/models/rs_hash.py"],
  [("timestamped decayed counters", "pysad/models/rs_hash.py")],
  ["score_partial results after fit_partial"])

p("C20", "xStream scores by bin counts of the last completed window",
  "Each chain bins the hash-projected instance into ever finer cells and scores it minus the minimum over levels d of log2(1 + number of reference-window instances in its cell at level d) + d; the model's score is the mean over chains. "
  "The reference window is the current window until the first one is complete and afterwards exactly the last completed window of W instances, counted in the same cells used to look instances up; order inside a window does not matter and older windows are forgotten.",
  ["inputs", "histories", "configurations"],
  "any W, depth, chains, components; streams over points separated by more than a cell width, where the score has a closed form; arbitrary streams for the order and forgetting parts",
  "Tests check output shapes with one configuration; counts and window switches depend on the history.",
  ["pysad/models/xstream.py"],
  [("half-space chain count sketches", "pysad/models/xstream.py")],
  ["score_partial results"])

p("C21", "Exact-STORM score is the neighbour fraction in the sliding window",
  "The score is the fraction, among the last W fitted instances without the most recent one, of those whose Euclidean distance to the scored instance is strictly smaller than the radius, and 0 while there is none. "
  "Scoring never changes later scores.",
  ["inputs", "histories", "configurations"],
  "any stream, W >= 1, radius > 0, dimension, queries at any time, duplicates and instances exactly at the radius",
  "Tests check output shapes only.",
  ["pysad/models/exact_storm.py", "pysad/utils/window.py"],
  [("window + distance count", "pysad/models/exact_storm.py")],
  ["score_partial results"])

p("C22", "Random cut forest scores by displacement among the last T instances",
  "Each tree holds exactly the last T fitted instances (T the tree size), and the score is the mean over trees of the collusive displacement of the scored instance, which is taken from the leaf of an equal instance if the tree's lookup finds one and otherwise by inserting it and removing it again. "
  "So one tree agrees with a random cut tree over exactly those instances given the same draws, an instance far from all of them scores their number min(n, T), equal instances only score 0, and instances older than T have no influence.",
  ["inputs", "histories", "configurations"],
  "any stream with duplicates, T >= 1, number of trees, queries at any time",
  "Tests check output shapes on a stream shorter than the tree size, so forgetting is never exercised.",
  ["pysad/models/robust_random_cut_forest.py"],
  [("insert / forget by running index", "pysad/models/robust_random_cut_forest.py")],
  ["score_partial results"])

p("C23", "KitNet equals an independent reimplementation of its algorithm",
  "For every stream, the model gives 0 during feature mapping; afterwards it scores with the ensemble of autoencoders on the correlation-clustered feature groups (of at most the given size) and the output autoencoder, trained online with min-max scaling during exactly the anomaly-detector grace period and frozen afterwards. "
  "Scores agree with an independent reimplementation of that algorithm, are never negative, and scoring never changes later scores.",
  ["inputs", "histories", "configurations"],
  "any finite stream, number of features >= 1, grace periods, group size, learning rate, hidden ratio; scores at any time",
  "Tests run one configuration and check the output shape.",
  ["pysad/models/kitnet.py", "pysad/models/kitnet_model/"],
  [("grace-period state machine", "pysad/models/kitnet_model/KitNET.py"), ("correlation clustering", "pysad/models/kitnet_model/corClust.py"), ("online autoencoder", "pysad/models/kitnet_model/dA.py")],
  ["score_partial / fit_score_partial results"])

p("C24", "kNN-CAD equals an independent reimplementation of its algorithm",
  "With probation period p, the score is 0 for the first p-1 values; afterwards it is the share of the retained nonconformity scores that are strictly smaller than that of the latest 19-value lag vector, where nonconformity is the sum of the 27 smallest squared Mahalanobis-type distances to the training vectors and training, calibration and score sets slide as in the published algorithm. "
  "A score of at least 0.9965 raises an alarm, after which the next p/5 (rounded down) scores are 0.5.",
  ["inputs", "histories", "configurations"],
  "any finite univariate stream, any probation period >= 48, scoring after each fit or skipping scores",
  "Tests run one configuration and check the output shape.",
  ["pysad/models/knn_cad.py"],
  [("lag vectors, sliding training/calibration sets", "pysad/models/knn_cad.py")],
  ["score_partial results"])

p("C25", "Relative entropy model tests the last window against the first one",
  "The score is 0 until W values were fitted; afterwards it is 0 when the histogram of the last W values agrees with that of the first W values, and -1 otherwise, where agreement means that 2W times the relative entropy of the former with respect to the latter is below the 0.99 quantile of the chi-squared distribution with (bins-1) degrees of freedom. "
  "Values are binned by their position in the given range counted in bin widths and rounded up to an integer 0..N for N bins, the two topmost integers sharing the last bin; scoring never changes later scores.",
  ["inputs", "histories", "configurations"],
  "any univariate stream within the given range, number of bins >= 2, W >= 1, any query time",
  "Tests check output shapes only.",
  ["pysad/models/relative_entropy.py"],
  [("sliding histogram and hypothesis test", "pysad/models/relative_entropy.py")],
  ["score_partial results"])

p("C26", "LODA scores with fixed sparse projections and the latest histogram",
  "Every score is built from one log-histogram weight per random cut, each either that of the filled bin or that of an empty bin of the histogram of the most recently fitted instance, so it takes only the values (k*L + (m-k)*H)/m^2 for an integer k, with m cuts and L, H fixed by the number of bins. "
  "The cuts' projection directions are drawn once, keep about the square root of the number of features nonzero components and never degenerate: however many instances were fitted, instances far from the last fitted one score H/m (three bins or more), and a model of one cut separates a suitable line through the last instance into a low and a high region.",
  ["inputs", "histories", "configurations"],
  "any finite stream, number of features, bins >= 2, cuts >= 1, any number of fits before scoring",
  "Tests check output shapes; degeneration shows only after several fits and only in score values.",
  ["pysad/models/loda.py"],
  [("projection initialisation and histogram per cut", "pysad/models/loda.py")],
  ["score_partial results"])

p("C27", "INQMAD scores with the current state, not a stale one",
  "The score of an instance is the squared similarity between its normalised random Fourier features and those of the most recently fitted instance, divided by the squared number of fitted instances; fits after the first score are always reflected. "
  "The random features depend only on the constructor arguments, so two models with equal arguments and equal streams give equal scores.",
  ["inputs", "histories", "configurations"],
  "any finite stream, feature dimension, number of random features, gamma, any interleaving of fits and scores",
  "Tests check output shapes; a score computed from stale state is well-shaped.",
  ["pysad/models/inqmad.py"],
  [("density matrix update and collapse", "pysad/models/inqmad.py")],
  ["score_partial results"])

p("C28", "LoOP model equals the static local outlier probability reference",
  "For every initial data set with at least one more instance than neighbours, scoring an instance gives the local outlier probability of that instance against the initial data, with the given neighbour count and extent, as computed by the underlying LoOP implementation; it lies in [0, 1]. "
  "Fitting further instances and scoring in any order never change later scores.",
  ["inputs", "histories", "configurations"],
  "any initial data, neighbour counts, extents, query sequence",
  "Tests check output shapes with one configuration.",
  ["pysad/models/loop.py"],
  [("delegation to a model fitted once", "pysad/models/loop.py")],
  ["score_partial results"])

p("C29", "Scoring and reading never change later results",
  "For every model, inserting any number of extra score calls (for any instances) anywhere in a stream leaves all other scores and all later results unchanged, given the same random draws; the same holds for transform calls of transformers, postprocessors, calibrators and ensemblers and for reading statistics, windows and metrics. "
  "Exceptions are the models documented otherwise: the perfect and random models, and the alarm suppression of kNN-CAD.",
  ["histories", "inputs", "configurations"],
  "all components, any history of fit/update calls, any placement and content of extra reads",
  "Tests use one fixed call pattern per component; a leak from scoring into state is visible only when two call patterns are compared.",
  ["pysad/models/", "pysad/transform/", "pysad/statistics/", "pysad/evaluation/"],
  [("score_partial/transform_partial/get write no state", "pysad/**")],
  ["two copies fed the same history with different reads"])

p("C30", "Equal seeds give equal runs",
  "For every model, transformer, score ensembler and streamer, fixing the seed and then constructing and driving it through any sequence of calls gives exactly the same results every time within a process, and the same in a new process, whatever ran before. "
  "Fixing the seed determines both the standard library's and numpy's global random draws.",
  ["configurations", "histories", "inputs"],
  "any seed, component, configuration, data and prior activity",
  "Tests check the seeding helper itself on a few draws, not whole runs of each component after arbitrary prior activity or in another process.",
  ["pysad/utils/__init__.py", "pysad/models/", "pysad/transform/"],
  [("all randomness comes from the seeded global generators or fixed seeds", "pysad/**")],
  ["two runs compared value by value"])

p("C31", "Instances of a component never influence each other",
  "Two or more objects of the same or of different classes, driven in any interleaving, give exactly the results each would give alone with its own random draws; constructing or driving one never changes another. "
  "This also holds for several objects built from the same constructor argument objects.",
  ["histories", "configurations", "schedules"],
  "all models, transformers, statistics, metrics; any interleaving of two or more live objects, shared constructor arguments",
  "Tests create one object at a time, so class-level or shared mutable state is never exercised.",
  ["pysad/models/", "pysad/transform/", "pysad/statistics/", "pysad/evaluation/", "pysad/utils/"],
  [("all state is per instance", "pysad/**")],
  ["interleaved versus separate runs"])

p("C32", "Caller-owned data is never modified",
  "No construction, fit, score, transform, update, iteration or loading call modifies any array, list or data frame the caller passed in, and scores, transformed instances and metric values handed out earlier do not change when later calls are made. "
  "Reusing the caller's buffer read-only (arrays marked non-writeable) works and gives the same results.",
  ["inputs", "histories"],
  "all components, any input arrays incl. read-only and non-contiguous ones, any history",
  "Tests never compare inputs before and after a call.",
  ["pysad/models/", "pysad/transform/", "pysad/evaluation/", "pysad/utils/"],
  [("inputs are copied or only read", "pysad/**")],
  ["bytes of every argument before and after each call, earlier results at the end"])

p("C33", "Unsupervised models ignore labels",
  "For every unsupervised model, the scores for a stream are identical whether no labels are given or any class labels are given, in per-instance as well as batch calls. "
  "Only the perfect model and wrappers around supervised detectors use labels.",
  ["inputs", "histories", "configurations"],
  "all unsupervised models, any stream and any two label sequences",
  "Tests pass one label vector and never compare with another.",
  ["pysad/models/"],
  [("y is an ignored argument", "pysad/models/*.py")],
  ["scores of runs differing only in labels"])

p("C34", "Every score of a finite stream is one finite number",
  "For every model, any finite stream of its documented input type (including constant, duplicate-laden, negative, large- and small-scale data) is fitted and scored without error, each per-instance score converts to exactly one finite float, and batch calls return a one-dimensional float array with one finite entry per instance. "
  "Scores with a documented range stay in it: probabilities and fractions in [0, 1], absolute deviations, reconstruction errors and displacements non-negative, mass-based scores non-positive.",
  ["inputs", "histories", "configurations"],
  "all models, configurations, finite streams of any shape of distribution",
  "Tests use one well-behaved data set, so degenerate but legal streams (constant values, duplicates) are never tried.",
  ["pysad/models/", "pysad/core/base_model.py"],
  [("guards against zero variance, empty windows, untrained parts", "pysad/models/*.py")],
  ["types, shapes, finiteness and range of every score"])

p("C35", "Windowed components use bounded memory on endless streams",
  "The memory held by every window-, tree-size- or grace-period-limited component (windows, running statistics and postprocessors, windowed calibrators, windowed metrics, time-series decomposers, and the streaming models that promise a window) is bounded by a function of its parameters and the number of features, not of the length of the stream. "
  "After warm-up, feeding more instances does not make it grow.",
  ["histories", "configurations", "inputs"],
  "all such components, stream lengths beyond several windows, any parameters",
  "Tests stop after a few hundred instances and never look at retained state.",
  ["pysad/utils/window.py", "pysad/statistics/running_statistic.py", "pysad/models/", "pysad/transform/", "pysad/evaluation/windowed_metric.py"],
  [("trimming of buffers", "pysad/**")],
  ["size of everything reachable from the object at growing stream lengths"])

p("C36", "Higher scores mean more anomalous",
  "For every model that orders instances, after fitting a stream of normal instances from one region, an instance far outside that region gets a score at least as high as the normal instances, and strictly higher where the model can tell them apart. "
  "This is the common contract that lets scores of all models be evaluated, thresholded and ensembled alike.",
  ["inputs", "configurations", "histories"],
  "all models with score orientation, any location/scale of the normal region, dimension, and direction of the outlier",
  "Tests check shapes; orientation is never asserted.",
  ["pysad/core/base_model.py", "pysad/models/"],
  [("sign and direction of each model's score", "pysad/models/*.py")],
  ["score of an outlier versus scores of normal instances"])

p("C37", "Baseline models behave as advertised",
  "The null model always scores 0.5, the random model scores are in [0, 1) and vary, and the perfect model returns exactly the labels in the order they were fitted, each once, whether it is driven per instance or in batches, and rejects an instance without a label. "
  "None of them depends on the features.",
  ["inputs", "histories"],
  "any stream, any label values, any interleaving of fits and scores that never scores more than was fitted",
  "Tests drive each baseline over one stream.",
  ["pysad/models/null_model.py", "pysad/models/random_model.py", "pysad/models/perfect_model.py"],
  [("constant / uniform draw / label queue", "pysad/models/*.py")],
  ["score results"])

p("C38", "Range helpers return exact per-feature and global bounds",
  "For every data matrix the per-feature helper returns the exact minimum and maximum of each column, and for every array of any shape the scalar helper returns the exact global minimum and maximum; both leave the array unchanged. "
  "Bounds are attained by the data, so every value lies between them.",
  ["inputs"],
  "any non-empty numeric array, any shape, dtype and memory layout",
  "Tests check a few fixed arrays.",
  ["pysad/utils/__init__.py"],
  [("column-wise / global min and max", "pysad/utils/__init__.py")],
  ["returned bounds"])

p("C39", "Copied or pickled components continue exactly like the original",
  "Copying a component in the middle of a stream (deep copy, or saving and loading with pickle) gives a component that continues exactly like the original would have, given the same further instances and random draws; the original continues as if it had never been copied, and from then on neither influences the other. "
  "Copies can be copied again, before the first and after any number of instances.",
  ["histories", "inputs", "configurations"],
  "every model, transformer, postprocessor, calibrator, ensembler, statistic, window and metric (the random cut forest is left out, as the trees of the underlying library cannot be copied, and INQMAD is only deep-copied), any point of any stream",
  "No test copies or reloads a component; state shared between original and copy, or lost on copying, shows only in later results after a copy at a particular point.",
  ["pysad/models/", "pysad/transform/", "pysad/statistics/", "pysad/evaluation/", "pysad/utils/window.py"],
  [("all state is held in instance attributes", "pysad/models/*.py"), ("tied decoder weights", "pysad/models/kitnet_model/dA.py")],
  ["results of the original, the copies and an uncopied run"])

p("C40", "Invalid arguments and calls are rejected and leave no trace",
  "The time-series components reject invalid construction with a ValueError exactly when an argument is outside its documented limits (period at least 2, window at least two periods, season length and trend window at least 1, between 1 and 0.49 window-sizes anomalies, level strictly between 0 and 1, statistic 'mean' or 'median'), and accept every valid combination including the limits themselves. "
  "Calls that cannot be served (an instance that is not a single value for a univariate component, partial calls without a window, too few values for a decomposition, a missing label for the perfect model, labels of another length in a batch) raise an error, and later results are the same as if the rejected call had never been made.",
  ["inputs", "histories", "configurations"],
  "any combination of constructor arguments around their limits; invalid calls at any point of any stream",
  "Tests try one or two invalid values per constructor on fresh objects; they do not try the limits, combinations, or the state after a rejected call.",
  ["pysad/models/seasonal_esd.py", "pysad/transform/preprocessing/modified_stl_residual.py", "pysad/transform/preprocessing/seasonal_trend_decomposer.py", "pysad/models/standard_absolute_deviation.py", "pysad/models/median_absolute_deviation.py", "pysad/models/perfect_model.py", "pysad/utils/array_streamer.py"],
  [("argument checks in constructors and partial calls", "pysad/models/seasonal_esd.py"), ("length check before the first instance", "pysad/utils/array_streamer.py")],
  ["exceptions raised", "results after a rejected call"])
