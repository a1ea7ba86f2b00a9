#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit titles, statements, anchors)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
F="featselect/"
p("C01","Progress and highscore can be read safely while a search runs",
 "While a branch-and-bound search is running, other goroutines may read its progress (best score, number explored, pruned volume) and its highscore list (length, best score, all scores, JSON form) at any moment without a data race. Each progress reading returns three values that were published together. Every such method releases its lock on every way out and can never deadlock against itself.",
 ["schedules"],"every interleaving of the search's goroutines with any number of readers",
 "The one search test runs without the race detector, reads the highscore only after the search has finished, and progress is only tested from a single goroutine.",
 [F+"searchProgress.go",F+"highscore.go",F+"optimize.go","cmd/bnb.go"],
 [("lock around the three progress fields",F+"searchProgress.go SearchProgress.Set/Get"),("lock around the highscore list",F+"highscore.go Highscore methods")],
 ["SearchProgress.Get","Highscore.BestScore, Len, Scores, MarshalJSON"])
p("C02","Parallel workers share no unsynchronised mutable state",
 "Goroutines started by the parallel searches, lasso paths, covariance thresholding and kappa sampling write only to memory they own: memory they allocated themselves, a work item that was handed to exactly one worker, or state protected by a lock. No worker writes to memory that another worker or the caller can touch at the same time.",
 ["schedules"],"every interleaving of the workers of each pool with each other and with the collecting goroutine",
 "The tests are not run under the race detector and one run sees a handful of schedules; a race that usually writes equal values never fails an assertion.",
 [F+"optimize.go",F+"lassoCrdDesc.go",F+"thresholdCov.go",F+"covarianceMatrix.go",F+"cohens_kappa.go","cmd/bnb.go"],
 [("hand-over of work through channels",F+"lassoCrdDesc.go LassoCrdDescPath, "+F+"optimize.go SelectModel, "+F+"thresholdCov.go L2ConsistentCovTO, "+F+"cohens_kappa.go CalculateCohenSequence")],
 ["results of the parallel routines"])
p("C03","Every work item handed to a worker yields exactly one result",
 "In every worker pool, each item of work taken by a worker produces exactly the messages its collector waits for, on every path through the worker: one result per lasso, threshold, kappa or scoring job, and for an expanded search node one outcome (scored or pruned) per child followed by one readiness signal. Each message received by a collector is counted exactly once and a collector returns only when it has counted all it asked for.",
 ["schedules","inputs"],"every work item, every branch through a worker, every completion order",
 "A missing or duplicated message on a rarely taken branch shows as a hang or an early return only for particular inputs and schedules.",
 [F+"optimize.go",F+"lassoCrdDesc.go",F+"thresholdCov.go",F+"cohens_kappa.go"],
 [("one send per loop turn in the workers",F+"optimize.go ScoreWorker, CreateChildNodes; "+F+"lassoCrdDesc.go PerformLassoCrd; "+F+"thresholdCov.go PerformNormDiffWork; "+F+"cohens_kappa.go CohensKappaWorker"),("receive counters of the collectors",F+"lassoCrdDesc.go LassoCrdDescPath, "+F+"thresholdCov.go L2ConsistentCovTO, "+F+"cohens_kappa.go CalculateCohenSequence")],
 ["termination and completeness of the parallel routines"])
p("C04","Worker pools are shut down by the call that started them",
 "Every parallel routine tells all its workers to stop before it returns, by closing the channel they take work from exactly once and after the last send on it, on every normal way out. No worker closes a channel, nothing is sent on or closed again after a channel has been closed, and a worker's readiness signal cannot block forever once the search has returned.",
 ["schedules","histories"],"every normal exit of every parallel routine; any number of calls in one process",
 "Leaked goroutines and late sends do not fail an assertion; the tests never count goroutines.",
 [F+"optimize.go",F+"lassoCrdDesc.go",F+"thresholdCov.go",F+"cohens_kappa.go","cmd/bnb.go"],
 [("close of the work channels",F+"optimize.go SelectModel end; "+F+"lassoCrdDesc.go LassoCrdDescPath; "+F+"thresholdCov.go L2ConsistentCovTO; "+F+"cohens_kappa.go CalculateCohenSequence")],
 ["number of goroutines after the call returns"])
p("C05","Branch and bound returns only when every subtree is accounted for",
 "A branch-and-bound search returns only when its queue is empty and each child it has generated has been scored or pruned; the caller's starting model itself is also scored. Every node that comes back from scoring and still has undecided features is queued for expansion, every newly created model that was scored is offered to the highscore list, and each expanded node gives exactly two children: one keeping and one flipping the next undecided feature.",
 ["schedules","inputs"],"all data sets, all starting models, all completion orders",
 "The only search test compares one best score on one 7x5 data set with an empty starting model.",
 [F+"optimize.go",F+"node.go"],
 [("in-progress counter and exit test",F+"optimize.go SelectModel"),("both children per parent",F+"optimize.go CreateChildNodes"),("child construction",F+"node.go GetChildNode")],
 ["highscore list after SelectModel"])
p("B01","Subtrees are pruned only when a valid bound justifies it",
 "Branch and bound discards a subtree only if its lower bound plus the user's cutoff exceeds the best criterion value found so far (never before any model has been scored), if its model has as many features as there are data points, or if the queue limit is exceeded, in which case only nodes above the mean lower bound go. The lower bound combines the fewest features in the subtree with the residual of its largest model, the upper bound the most features with the residual of its smallest, where largest and smallest agree with the model on all decided features and select all, respectively none, of the rest.",
 ["inputs"],"all data sets, decided prefixes, cutoffs and queue limits",
 "Bounds are tested on two tiny matrices and only the upper one; pruning is only seen through one best score with cutoff zero.",
 [F+"optimize.go",F+"criteria.go"],
 [("pruning test",F+"optimize.go CreateChild, CleanQueue, RemoveLeastPromising"),("bounds",F+"criteria.go BoundsAIC, BoundsAICC"),("extreme models of a subtree",F+"optimize.go Gcs, Lcs")],
 ["highscore list after SelectModel","BoundsAIC, BoundsAICC"])
p("M01","Reported features, coefficients and score belong to one and the same fit",
 "In every entry reported by branch and bound, exhaustive search, and simulated annealing (its final answer as well as its list of best models), the coefficients are the least-squares fit of exactly the reported features, and the score is the negated criterion of that fit, evaluated with its number of features, the number of data points and its residual sum of squares. Simulated annealing undoes every proposal it does not accept, so the model it continues from and finally reports is always the last accepted one. Orthogonal matching pursuit stores each fitted coefficient at the position of its own feature.",
 ["inputs","histories"],"all data sets, all sequences of accepted and rejected proposals, all evictions from the list of best models",
 "Tests compare scores or one final model; no test relates coefficients, features and score inside the stored entries, least of all after an eviction.",
 [F+"optimize.go",F+"simmulatedAnnealing.go",F+"saScore.go",F+"orthogonalMatchingPursuit.go"],
 [("scoring of a node",F+"optimize.go ScoreWorker, BruteForceSelect"),("accept/undo",F+"simmulatedAnnealing.go SelectModelSA"),("replacement of the worst entry",F+"saScore.go SAScore.Insert")],
 ["Highscore JSON","SARes","OmpResult"])
p("M02","Feature masks, index lists and coefficient vectors describe the same features",
 "Every conversion between a boolean feature mask, a list of feature numbers, a bit-packed model, a sparse or full coefficient vector and a reduced design matrix keeps exactly the selected features, in ascending feature order, with the k-th coefficient or column belonging to the k-th selected feature. The number of features of a mask is the number of its set flags.",
 ["inputs"],"all masks, selections and sizes",
 "Each conversion is tested on one to five literal examples.",
 [F+"util.go",F+"node.go",F+"saScore.go",F+"orthogonalMatchingPursuit.go",F+"model.go",F+"optimize.go",F+"subview.go",F+"simmulatedAnnealing.go"],
 [("conversions",F+"util.go GetDesignMatrix, Selected2Model, FullCoeffVector, WeightedAveragedCoeff; "+F+"node.go MarshalJSON, UnmarshalJSON, ToSparseCoeff; "+F+"saScore.go NewSAItem; "+F+"orthogonalMatchingPursuit.go SelectedFeatures; "+F+"model.go Model; "+F+"optimize.go NumFeatures; "+F+"subview.go IndexedColView")],
 ["selected/coeff arrays in the JSON output"])
p("H01","Lists of best models stay sorted, bounded and never lose the best",
 "The highscore list holds its entries in descending score order, never holds more than its maximum, and only ever drops the entry with the lowest score, so the best score never decreases. The simulated-annealing list never exceeds its capacity, holds no selection twice, and when full replaces exactly its worst entry, only by a better one, and then determines the new worst and best entries. A list of any positive capacity accepts its first entry.",
 ["histories"],"every sequence of insertions with every order of scores and every capacity",
 "One sequence of four, respectively five, insertions is tested.",
 [F+"highscore.go",F+"saScore.go"],
 [("ordered insertion with eviction",F+"highscore.go Highscore.Insert"),("replacement of the worst",F+"saScore.go SAScore.Insert, Exists")],
 ["Highscore.Scores","SAScore.Items, BestItem, WorstItem"])
p("K01","Information criteria follow their definitions and stay finite",
 "For k features, n data points and residual sum of squares L, AIC is 2k + n ln L, AICc is AIC plus (2k^2+2k)/(n-k-1) with the denominator replaced by 1 once k >= n-1, and BIC is k ln n + n ln L. A residual at or below the documented minimum is treated as that minimum, so a perfect fit gives a finite value, and the denominator is never zero or negative. The residual sum of squares is the sum of squared differences between prediction and data.",
 ["inputs"],"all k, n and L",
 "AIC is tested at one point; AICc and BIC have no value of their own in any test, nor does a perfect fit.",
 [F+"criteria.go",F+"fit.go"],
 [("criteria",F+"criteria.go Aic, Aicc, Bic, RssTol"),("residual",F+"fit.go Rss, Predict, PredictOne")],
 ["Aic, Aicc, Bic, Rss"])
p("K02","Covariance estimates, thresholds and penalty terms follow their definitions",
 "The empirical covariance is X'X/n, the identity estimator is the identity matrix of the number of features, the thresholded estimator is X'X/n with every entry smaller in magnitude than the threshold set to zero and all others kept, and CovarianceMatrix is X'X/n minus the outer product of the column means. The threshold operator zeroes exactly the entries smaller in magnitude than its threshold and counts them; the grid search compares the thresholded first matrix with the unchanged second. Soft thresholding shrinks a value towards zero by the threshold and never past it. The penalty terms are zero for pure lasso and lambda times the coefficient for the elastic net, CLasso remembers the last coefficients it was given, and the covariance-times-coefficients product stays equal to its definition when one coefficient changes.",
 ["inputs"],"all matrices, coefficient vectors, thresholds and feature numbers",
 "Most of these routines are tested at one small matrix, or not at all (identity, elastic net, the update of the product).",
 [F+"covarianceMatrix.go",F+"thresholdCov.go",F+"lassoCorrections.go",F+"lassoCrdDesc.go"],
 [("covariance",F+"covarianceMatrix.go Get; "+F+"thresholdCov.go CovarianceMatrix, Apply, CalculateFNormDiff"),("penalties",F+"lassoCorrections.go"),("coordinate descent",F+"lassoCrdDesc.go SoftThreshold, MulSlice, UpdateCovDotBeta")],
 ["Empirical.Get, SparseThresholded.Get, ThresholdOperator.Apply, SoftThreshold, UpdateCovDotBeta"])
p("K03","Path scores, model weights and derived matrices follow their definitions",
 "Each score along a path is the criterion of that node's own features and coefficients on the stored data, and the extracted path of a feature holds its coefficient at every node, zero where it is not selected. Model weights are proportional to exp(-(AIC - smallest AIC)) and add up to one; the cross-validation score divides each squared residual by one minus its own leverage; a regularisation grid is log-spaced from its first to its last value; the log2 count of pruned models adds the two counts. Unions keep the first slice and add each missing element once, places of extremes are those of the first extreme, rearranged matrices hold the requested columns first and each other column once in the original order, and each column of a power-expanded matrix is the product of the powers it stands for.",
 ["inputs"],"all paths, score lists, data sets and column orders",
 "Tests sample one or two short inputs per routine; several routines have no value of their own in any test.",
 [F+"lassoPlot.go",F+"util.go",F+"fit.go",F+"lazyPowerMat.go",F+"orthogonalMatchingPursuit.go",F+"sliceVec.go"],
 [("path",F+"lassoPlot.go GetCriteria, ExtractPath, MaxMinFeatNo"),("weights and grids",F+"util.go WeightsFromAIC, Logspace, NewLog2Pruned, RearrangeDense, UnionInt; "+F+"fit.go Gcv, DenumMatrixGcv"),("powers",F+"lazyPowerMat.go GetCol, FullMatrix")],
 ["GetCriteria, ExtractPath, WeightsFromAIC, Gcv, RearrangeDense, LazyPowerMatrix.GetCol"])
p("L01","Pseudo-inverses discard negligible singular values",
 "Every routine that inverts singular values of a design matrix (the least-squares fit, both pseudo-inverses and the estimator behind the LARS algorithm) uses the reciprocal, respectively the reciprocal square, of a singular value only when that value exceeds its tolerance, and uses exactly zero in its place otherwise. Nearly dependent features therefore never blow up or leak into a solution.",
 ["inputs"],"all design matrices, in particular rank-deficient ones and ones with fewer rows than columns",
 "No test has a rank-deficient design in any of these routines.",
 [F+"fit.go",F+"util.go",F+"lasso_cd.go"],
 [("truncation",F+"fit.go Fit; "+F+"util.go PseudoInverse, PseudoInverseXTX; "+F+"lasso_cd.go MorsePenroseCD.C, SetActiveSet")],
 ["Fit, PseudoInverse, PseudoInverseXTX, LassoLars"])
p("L02","Lasso path nodes list sorted features with aligned coefficients",
 "Each node of a lasso path, from LARS or coordinate descent, lists its active features in ascending order with the coefficient of each at the same position, as its own copy that later steps do not change. A coordinate-descent path places the node for each regularisation value by that value's position in the given grid, largest first, and a LARS path never increases the regularisation from one node to the next. In coordinate descent a feature is listed exactly when its coefficient is non-zero.",
 ["inputs","histories"],"all data sets and all sequences of features joining and leaving; all grids",
 "Path tests look at the last node of one five-feature data set in which features join and leave in a fixed order.",
 [F+"lasso_lars.go",F+"lassoCrdDesc.go"],
 [("sorting of the active set and copy into the node",F+"lasso_lars.go LassoLars, NewLassoLarsNode"),("collection of non-zero coefficients, placement of nodes",F+"lassoCrdDesc.go PerformLassoCrd, LassoCrdDescPath")],
 ["lasso JSON output"])
p("N01","Normalisation is undone exactly",
 "Normalising a data set subtracts from each feature and from the target its own mean and divides by its own standard deviation (n-1), remembering both as they were before the change; a constant first feature is marked as intercept and a constant feature elsewhere is refused. Converting a lasso path back to original units multiplies each coefficient by target deviation over its own feature's deviation, computes the intercept from the normalised coefficients as target mean minus target deviation times the sum of coefficient times mean over deviation, and puts it in front as feature 0 exactly when the data has an intercept column.",
 ["inputs"],"all data sets and paths",
 "One 3x2 matrix is normalised in a test; the way back is only seen through one noiseless polynomial.",
 [F+"normalized_dataset.go",F+"lasso_lars.go",F+"util.go"],
 [("normalisation",F+"normalized_dataset.go NewNormalizedData"),("way back",F+"normalized_dataset.go LinearNormalizationTransformation, LinearTransformationBias; "+F+"lasso_lars.go Path2Unnormalized"),("mean, deviation",F+"util.go Mean, Std")],
 ["coefficients in the lasso JSON output"])
p("E01","Analyses never modify the caller's data",
 "Fitting, scoring, searching, tracing lasso paths, resampling and evaluating, saving or plotting results never change the caller's design matrix, target values, data set, model, path, weights, starting point or tuning options. The only routines that change an argument are the in-place normalisations and conversions, thresholding and absolute value, whose purpose that is, and the updates of a collector or accumulator (highscore, progress, estimator, correction, running product, union) passed in for that purpose.",
 ["inputs","histories"],"every exported routine, all inputs, any sequence of calls on the same data",
 "Tests build fresh data for each call and do not compare arguments before and after.",
 [F+"optimize.go",F+"simmulatedAnnealing.go",F+"fit.go",F+"criteria.go",F+"util.go",F+"nestedLasso.go",F+"lassoCrdDesc.go",F+"lasso_lars.go",F+"lassoPlot.go",F+"csvIO.go",F+"thresholdCov.go",F+"covarianceMatrix.go",F+"cohens_kappa.go",F+"orthogonalMatchingPursuit.go","cmd/lasso.go"],
 [("copies before in-place work",F+"nestedLasso.go NestedLasso; "+F+"thresholdCov.go CalculateFNormDiff; cmd/lasso.go lassoFit")],
 ["arguments after the call","Dset in the lasso and nested-lasso JSON output"])
p("E02","Copies, subsets, nodes and rows returned to the caller are independent",
 "Data set copies and subsets, search nodes and their children, path nodes, design matrices, index and coefficient vectors, random row splits and the rows of a product share no storage with the arguments they were made from nor with one another. Changing one of them never changes an input or another result.",
 ["inputs","histories"],"all sizes and shapes; any later modification",
 "Tests compare values once; sharing shows only after a later write, and in the product only from the fourth factor on.",
 [F+"csvIO.go",F+"node.go",F+"lasso_lars.go",F+"util.go",F+"thresholdCov.go",F+"optimize.go",F+"orthogonalMatchingPursuit.go",F+"saScore.go",F+"lazyPowerMat.go"],
 [("deep copies",F+"csvIO.go Copy, GetSubset; "+F+"node.go NewNode, GetChildNode; "+F+"lasso_lars.go NewLassoLarsNode; "+F+"util.go GetDesignMatrix, IterProduct, FullCoeffVector")],
 ["returned values"])
p("D01","A feature keeps its number from file to result",
 "Design-matrix column i is always the i-th column of the table that is not the target column: when a table is loaded, when it is written back, when a feature number is turned into a name or a name into a number, and when a subset of features is taken. Target values always come from, and go back to, the target column, which counts from the end if negative.",
 ["inputs"],"all numbers of columns and target positions, including first and last",
 "Two target positions of a three-column table are tested for loading; other operations have one to three literal cases.",
 [F+"csvIO.go",F+"nestedLasso.go"],
 [("skip of the target column",F+"csvIO.go ParseCSV, SaveHandle, GetFeatName, FeatNoByName, GetSubset"),("mapping by name",F+"nestedLasso.go MapSelectionByName")],
 ["Dataset.X, Y, Names"])
p("D02","Table cells are loaded as the numbers they are or refused",
 "Every cell of a table row is loaded as the number written there, with or without surrounding blanks as in the documented example. A cell that is not a number, like a malformed row, is refused with an error and never silently replaced by zero or any other value, and no row is skipped.",
 ["inputs"],"all files",
 "One three-line well-formed table without blanks is tested.",
 [F+"csvIO.go"],
 [("parsing of cells",F+"csvIO.go ParseCSV")],
 ["Dataset.X, Y"])
p("D03","What is written as JSON is read back into the same fields",
 "For every type with its own JSON form (search node, highscore list, data set), each field that is written is read back into the field it came from, under one unique name, so that decoding the encoded form restores it; decoding replaces the previous content of every such field of the receiver, including a receiver that was never initialised. Matrix entries are written and read in the same order. Types written without a form of their own keep every exported field, each under one unique name.",
 ["inputs","histories"],"all values of the types, all receivers",
 "One literal value per type is round-tripped, with distinguishable values only in some of the fields.",
 [F+"node.go",F+"highscore.go",F+"csvIO.go"],
 [("codec pairs",F+"node.go Node.MarshalJSON/UnmarshalJSON; "+F+"highscore.go Highscore.MarshalJSON/UnmarshalJSON; "+F+"csvIO.go Dataset.MarshalJSON/UnmarshalJSON")],
 ["JSON files"])
p("D04","Malformed stored results are refused, not crashed on or half read",
 "Decoding a stored search node, highscore list, data set or lasso path checks every count and index found in the input before using it and returns, or for the path loader raises, an error for inconsistent content. It never indexes, sizes memory or builds a matrix with an unchecked number from the file, and never hands back a partially or not at all decoded value as if it were complete.",
 ["inputs"],"all byte sequences",
 "Only output of the program itself is decoded in tests.",
 [F+"node.go",F+"highscore.go",F+"csvIO.go",F+"lassoPlot.go"],
 [("decoders",F+"node.go Node.UnmarshalJSON; "+F+"highscore.go Highscore.UnmarshalJSON; "+F+"csvIO.go Dataset.UnmarshalJSON; "+F+"lassoPlot.go LassoLarsPathFromJSON, LassoLarsPathFromBytes")],
 ["json.Unmarshal into these types, LassoLarsPathFromBytes"])
p("X01","Failed reads and writes are reported, never mistaken for success",
 "When opening, reading, encoding, creating or writing a file or figure fails, no command line tool goes on as if it had succeeded: it reports the failure and says that results were written only after the write succeeded. A result that could not be encoded is never written over an existing file, a data file that cannot be read ends the tool with a message instead of a crash, and a failed tool ends with a non-zero status.",
 ["fault_sequences","inputs"],"every failing file operation in every tool",
 "The tools have no tests and none injects an I/O failure.",
 ["cmd/bnb.go","cmd/lasso.go","cmd/sasearch.go","cmd/root.go","cmdDepreciated/goselect-nestedlasso/main.go","cmdDepreciated/goselect-plotlasso/main.go","cmdDepreciated/goselect-cohenlasso/main.go",F+"csvIO.go",F+"lassoPlot.go"],
 [("error checks","cmd/*.go, cmdDepreciated/*/main.go, "+F+"csvIO.go ReadCSV, Save, SaveHandle; "+F+"lassoPlot.go LassoLarsPathFromJSON")],
 ["exit status, messages and output files of the tools"])
p("X02","Every command line option takes effect as documented",
 "Each option a tool declares is read under its declared name and type after the command line has been parsed, and its value reaches exactly the part of the computation it is documented for: data file, target column, output path, cutoff, queue limit, sweeps, regularisation range and count, algorithm, covariance estimator, tolerance, samples, kept fraction, figure prefix, extension and axis range. An unknown algorithm or estimator name is refused instead of producing an empty result.",
 ["configurations"],"all combinations of options and values",
 "The tools have no tests; the smoke targets use defaults for nearly all options.",
 ["cmd/bnb.go","cmd/lasso.go","cmd/sasearch.go","cmdDepreciated/goselect-cohenlasso/main.go","cmdDepreciated/goselect-mem/main.go","cmdDepreciated/goselect-nestedlasso/main.go","cmdDepreciated/goselect-plotlasso/main.go","cliHelp.json",F+"optimize.go"],
 [("declaration, reading and passing on of options","cmd/*.go Run functions and init; cmdDepreciated/*/main.go main")],
 ["behaviour of the tools"])
p("R01","Degenerate but valid data never yields NaN or infinity",
 "A constant target or array, an all-zero lasso solution, two selections that both contain every feature, or an empty selection give finite normalised values, penalties, kappa values and convergence decisions. Every division by a computed spread, sum of squared coefficients, largest coefficient or chance agreement is protected against a zero divisor; kappa is the agreement of two selections corrected for chance, and one where agreement by chance is complete. Coordinate descent recognises the all-zero solution as converged.",
 ["inputs"],"all valid data sets, in particular constant targets, very strong regularisation and saturated selections",
 "No test uses degenerate data.",
 [F+"normalized_dataset.go",F+"util.go",F+"lassoCrdDesc.go",F+"cohens_kappa.go"],
 [("guards of the divisions",F+"normalized_dataset.go NewNormalizedData; "+F+"util.go NormalizeArray, Std, CohenKappa; "+F+"lassoCorrections.go CLasso.Deriv; "+F+"lassoCrdDesc.go LassoCrdDesc")],
 ["NormalizedData, CohenKappa, LassoCrdDesc"])
p("R02","Parallel results are filed under the job they answer",
 "The result of every parallel job is stored, averaged, compared and logged under the regularisation value, grid point or target it was computed for, whatever order the workers finish in. The identity travels with the work item into its result unchanged, is never inferred from the order of arrival, and each job is handed out exactly once.",
 ["schedules"],"all completion orders",
 "With equal-cost jobs the completion order in tests is almost always the submission order.",
 [F+"lassoCrdDesc.go",F+"thresholdCov.go",F+"cohens_kappa.go"],
 [("job identity in the messages",F+"lassoCrdDesc.go LassoCrdWorkload.lambIdx, LassoRes; "+F+"thresholdCov.go Workload.gr, ValueGridPt; "+F+"cohens_kappa.go CohensKappaWorkload")],
 ["LassoCrdDescPath, L2ConsistentCovTO, CalculateCohenSequence"])
# not claimed
p("Z01","Branch and bound finds the model with the lowest AICc",
 "For every data set and queue limit large enough, the best score of a branch-and-bound search equals that of an exhaustive search.",
 ["inputs"],"all data sets","One 7x5 data set is compared.",
 [F+"optimize.go",F+"criteria.go"],[("search",F+"optimize.go SelectModel")])
p("Z02","Lasso solutions satisfy their optimality conditions",
 "Every coordinate-descent solution and every node of a LARS path satisfies the KKT conditions of the lasso problem within the tolerance.",
 ["inputs"],"all data sets and regularisation values","Two data sets are used.",
 [F+"lassoCrdDesc.go",F+"lasso_lars.go"],[("solvers",F+"lassoCrdDesc.go LassoCrdDesc; "+F+"lasso_lars.go LassoLars")])
p("Z03","Simulated annealing terminates",
 "Simulated annealing ends for every data set and cost function.",
 ["inputs","histories"],"all data sets and random sequences","One data set with one seed.",
 [F+"simmulatedAnnealing.go"],[("cooling schedule",F+"simmulatedAnnealing.go SelectModelSA")])
p("Z04","Least-squares fits minimise the residual",
 "Fit returns the coefficients of smallest norm among those that minimise the residual sum of squares, to numerical accuracy.",
 ["inputs"],"all matrices","A few small matrices are tested.",
 [F+"fit.go"],[("SVD fit",F+"fit.go Fit")])
p("Z05","The covariance threshold minimises the resampled norm difference",
 "The threshold chosen for the sparse covariance minimises the mean norm difference over the sampled partitions.",
 ["inputs","schedules"],"all data sets and partitions","The test only checks that it runs.",
 [F+"thresholdCov.go"],[("grid search",F+"thresholdCov.go L2ConsistentCovTO")])
p("Z06","Saved tables keep full numerical precision",
 "A data set that is saved as a table and loaded again has the same numbers.",
 ["inputs"],"all data sets","One table with small integers is written.",
 [F+"csvIO.go"],[("writer",F+"csvIO.go SaveHandle")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
