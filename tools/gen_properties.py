import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or [],hook_needed=hook)))
NOREACH="None of the four passing tests trains anything (the tests/ data is not in the repository); "
p("C01","A fitted tree partitions its rows and respects its size limits",
 "For every finite dataset and tree options, each internal node of a fitted tree sends exactly the rows whose split-feature value is <= the threshold to the left child and all others to the right, both children hold at least max(1, floor(MinChildWeight)) rows, no leaf is deeper than MaxDepth, and only allowed columns are split on (at every level). Each node's reported sample count and branch count match the rows and nodes below it, and predicting any vector returns the value of the leaf those thresholds lead to. Fitting never crashes, also when neighbouring feature values are adjacent floats, huge, denormal or tied.",
 ["inputs","configurations"],"every feature matrix of finite floats (ties, adjacent floats, +-MaxFloat, denormals), every row subset, allowed-column set, MaxDepth, MinChildWeight, both tree kinds",
 NOREACH+"a fitted tree is never inspected, and boundary values of the midpoint threshold cannot be sampled by a handful of examples.",
 ["tree.go","utils/math.go"],[("findBetterSplit / maybeInsertChildNode","tree.go"),("PredictSingle","tree.go")],
 [("threshold, splitFeatureIndex, samples, nsamples, branches","node state","tree.go: Tree")],["Tree.JNode(id,true), Leftf, Rightf","Tree.Predict/PredictSingle"])
p("C02","XGBoost trees take the best regularised split and the optimal leaf weight",
 "For every gradient/hessian vector, rows, Lambda >= 0, Gamma of either sign, MinChildWeight and MaxDepth, every node of an xgboost tree has value -G/(H+Lambda) over its rows (0, like any term of the gain, when H+Lambda vanishes); a node is split, at a threshold halfway between two consecutive distinct values, iff depth remains and some admissible split has gain 0.5*[GL^2/(HL+Lambda)+GR^2/(HR+Lambda)-G^2/(H+Lambda)]-Gamma/2 > 0. The split taken has the maximal gain over all allowed features and thresholds that leave floor(MinChildWeight) rows on each side, and the score it reports is that gain.",
 ["inputs","configurations"],"every data/gradient/hessian/regularisation combination, up to rounding",
 NOREACH+"optimality over all candidate splits is a universally quantified claim per node.",
 ["tree.go"],[("NewTree eq. 5","tree.go"),("findBetterSplit eq. 7","tree.go")],[("bestScoreSoFar","gain of the split","tree.go")],["Tree.JNode"])
p("C03","Gradient-boosting trees minimise squared error; leaves are means/Newton steps",
 "For every target vector, every node of a regular (non-xgboost) tree has as value the mean target of its rows, and is split, halfway between two consecutive distinct values, iff depth remains and some admissible split (floor(MinChildWeight) rows each side, allowed column) exists; the split taken has the largest squared-error reduction and reports minus that reduction as score. In a regular gradient-boosting ensemble the leaves hold instead the Newton step, sum of negative gradients over sum of hessians of the leaf's rows (0 when the hessian sum vanishes), and stay finite for any learning rate and number of rounds.",
 ["inputs","configurations"],"every data/target combination, loss, learning rate, rounds",
 NOREACH+"optimality is per node over all candidates; saturation of the hessian needs long trainings.",
 ["tree.go","xgb.go"],[("findBetterSplit","tree.go"),("updateLeaves","xgb.go")],[("bestScoreSoFar, value","","tree.go")],["Tree.JNode","JSONMultiClass","utils.LossFunc passed in Options"])
p("C04","A prediction is the softmax of base score plus the class's scaled trees",
 "For every trained or reloaded ensemble and every input vector, the probabilities returned equal softmax over classes of BaseScore + LearningRate * (sum over all boosting rounds of the output of that class's tree), with the trees, rate, base score and classes as exported by the model's own JSON. The predicted class is the first class with the highest probability, and if the caller supplies a long enough slice it is filled with those probabilities; without one the result is a new slice that later predictions leave alone.",
 ["inputs","configurations"],"every model (both kinds, any rounds/classes/early stop/subsampling) and every finite input vector",
 NOREACH+"an equality over all models and inputs.",
 ["multiclass.go","tree.go","utils/loss_acti.go"],[("PredictSingle, PredictSingleClass","multiclass.go"),("SoftMaxDense","utils/loss_acti.go")],[("b [][]*Tree","trees by round and class","multiclass.go")],["PredictSingle","PredictSingleClass","JSONMultiClass"])
p("C05","Boosting fits each tree to the loss at the ensemble built so far",
 "During training, round after round and class after class, the loss is evaluated for class k with k's one-hot labels and with exactly the probabilities (softmax of base score plus scaled outputs of all trees built so far, on every training row), and the tree built for that step is fitted to the gradients and hessians the loss returned. Without early stopping or undersized subsamples there are exactly Rounds rounds with one tree per class, and the ensemble that training returns predicts the probabilities training ended with.",
 ["inputs","configurations","histories"],"every dataset, options, loss function; every step of the training history",
 NOREACH+"the property relates the whole training history to the resulting model.",
 ["xgb.go"],[("NewMultiClass loop","xgb.go"),("AddToCol/DenseCol","utils/math.go")],[("rawPred, probs","running scores","xgb.go")],["calls on Options.Loss (an interface supplied by the caller)","JSONMultiClass"])
p("C06","Predicted probabilities always form a valid distribution",
 "For every trained or reloaded model, whatever its options (also extreme learning rates, many rounds, or an ensemble with no trees, as long as the summed scores stay finite) and every finite input vector, the prediction has one entry per class, each finite and in [0,1], summing to 1 within rounding. The softmax functions give a valid distribution that preserves the order of the scores, for every finite score vector however large, whether or not a destination (which can be the scores themselves) is supplied.",
 ["inputs","configurations"],"every model and input; every finite score vector incl. +-1e308",
 NOREACH+"overflow and saturation only appear for particular score magnitudes.",
 ["utils/loss_acti.go","multiclass.go"],[("SoftMax","utils/loss_acti.go"),("PredictSingle","multiclass.go")],None,["PredictSingle","utils.SoftMax","utils.SoftMaxDense"])
p("C07","Early stopping halts only the stalled class and keeps the others intact",
 "With EarlyStop = E > 0, a class stops receiving trees right after the first tree whose training loss is <= 1e-6, or after E consecutive trees none of which lowered its loss below the previous one's, and not before; with E = 0 it never stops. Stopping one class changes nothing for the others: they keep receiving trees up to Rounds, and every tree keeps contributing to the class it was trained for, in the returned model and in its saved form.",
 ["histories","configurations","inputs"],"every sequence of training losses per class, every E, every number of classes and rounds",
 NOREACH+"the outcome depends on the whole per-class loss history.",
 ["xgb.go","multiclass.go"],[("stopped / roundsNoProgress / prevloss","xgb.go"),("PredictSingle class attribution","multiclass.go")],[("stopped","classes that are done","xgb.go")],["calls on Options.Loss","PredictSingle","Rounds(class)"])
p("C08","Row and column subsampling draws what the options ask for",
 "SubSample(n,p) returns strictly increasing indexes in [0,n), each included with probability p independently (all of them for p=1). In an xgboost ensemble each tree is fitted only on rows and columns drawn that way for its round (all rows when SubSample is 1, all columns when ColSubSample is 1 or no column was drawn), rounds whose row draw has fewer than MinSample rows, or none, are skipped and no other round is, and fresh draws, of rows and of columns independently, are made every round of every training; regular gradient boosting always uses all rows and columns.",
 ["inputs","configurations","histories"],"every n, p, MinSample, dataset shape and round",
 "TestSubSample only prints; nothing checks which rows and columns a tree saw.",
 ["xgb.go","tree.go"],[("SubSample","xgb.go"),("AllowedColumns propagation","tree.go: clone")],[("sampleIndexes, sampleCols","draws of the round","xgb.go")],["SubSample","node values under a caller-supplied loss with power-of-two gradients (decode to row sets)","JSON split features"])
p("C09","Class labels, class count and round count describe the model faithfully",
 "For every label multiset, ClassLabels() is the distinct training labels in order of first appearance (a private copy), Classes() their number, the one-hot encoding has a single 1 per row in the column of that row's label, and class index i in every prediction refers to ClassLabels()[i]. Rounds(c) is the number of trees class c received, and -1 for an index beyond the classes; renaming labels by any injective map changes nothing but the labels.",
 ["inputs"],"every label vector (negative, huge, sparse ints) and every model, also reloaded",
 NOREACH+"label handling is never asserted.",
 ["multiclass.go","utils/libsvm.go"],[("oneHotEncodeDense/distinctElements","utils/libsvm.go"),("Classes, Rounds, ClassLabels","multiclass.go")],[("classLabels","","multiclass.go")],["ClassLabels","Classes","Rounds","OHELabels","OHEKeys"])
p("C10","Saving a model as JSON and loading it back preserves it exactly",
 "For every trained model of either kind, writing it as JSON and reading it back yields a model whose predicted probabilities are bit-identical for every input vector, and whose class labels, class count, per-class rounds, feature-importance ranking and own JSON output are the same. The same holds for single trees through the tree-level functions; a node packed on its own carries its row numbers exactly when asked for them.",
 ["inputs","configurations"],"every model x every input vector",
 "The JSON tests cannot run here and only print accuracies.",
 ["xjson.go","utils/json.go"],[("JSONMultiClass/UnJSONMultiClass","xjson.go"),("JSONTree/UnJSONTree","utils/json.go")],None,["JSONMultiClass","UnJSONMultiClass","utils.JSONTree","utils.UnJSONTree"])
p("C11","A damaged or cut-short model file is never taken for a different model",
 "If a saved model is cut at any byte, loading either returns an error or yields exactly the model made of the first k complete rounds, and never panics; a read error other than end of file, an unknown activation name, an unparsable line or a value of the wrong type is reported as an error. If any write fails while saving, or the model or tree holds a number JSON cannot express (NaN, infinite), saving returns an error.",
 ["crash_points","fault_sequences"],"every truncation offset of every model file, every failing write, every failing read",
 "No test injects a fault or truncates a file.",
 ["xjson.go","utils/json.go"],[("UnJSONMultiClass error paths","xjson.go"),("JSONMultiClass error paths","xjson.go")],None,["UnJSONMultiClass over truncated/erroring readers","JSONMultiClass over failing writers"])
p("C12","Datasets survive LibSVM and CSV writing and reading, row for row",
 "For every dataset (also one without rows) whose feature names hold no separator, quote or outer blank, reading back its LibSVM or CSV text (any separator, with or without header, with or without final newline, LF or CRLF) gives the same number of rows and columns in the same order, the same integer labels (-1 when the dataset has none) and feature names, and values equal within the 4 printed decimals; LibSVM terms are numbered from 1, in column order. Reading any well-formed text gives exactly the numbers written in it, one row per non-blank data line, from a file or any reader however it chunks the bytes.",
 ["inputs"],"every dataset, text layout and chunking of the reader",
 "TestCSV/TestLibSVM cannot run here and only print.",
 ["utils/libsvm.go","utils/csv.go"],[("ParseLibSVMFromReader","utils/libsvm.go"),("ParseCSVFromReader, CSV","utils/csv.go")],None,["DataBunch.LibSVM/CSV","Parse*FromReader","DataBunchFrom*File"])
p("C13","Malformed or failing input is reported, never silently dropped or a crash",
 "Reading LibSVM or CSV data returns an error, and no dataset, whenever a label is not an integer, a value is not a number or is out of range (1e999), a LibSVM term (of a row or of the header) does not have exactly one colon, a row has a different number of features than the first, the file does not exist, or the underlying reader fails before end of file. No byte sequence makes the readers crash.",
 ["inputs","fault_sequences"],"every byte sequence and every read-fault position",
 "No test feeds malformed input.",
 ["utils/libsvm.go","utils/csv.go"],[("parseLibSVMLine","utils/libsvm.go"),("recordsToData","utils/csv.go")],None,["Parse*FromReader","DataBunchFrom*File"])
p("C14","Cross-validation folds partition the data with labels attached",
 "For every dataset and requested fold number, exactly n train/test pairs are produced and then nil: the test sets are disjoint, jointly contain every sample once and have at least two samples each, each train set is exactly the complement of its test set, and every row keeps its own label and the feature names. n is the requested number (5 if not positive), reduced just enough, and with an error, when folds would hold fewer than two samples, and 0 with an error and never a crash when even two folds are impossible or a single one is requested; the assignment of samples to folds is drawn anew, uniformly at random, on every call; with copies requested, changing a fold does not change the original.",
 ["inputs","configurations"],"every dataset size, fold number and random draw",
 "No test calls the sampler with checkable data.",
 ["utils/stat.go"],[("CrossValidationSamples","utils/stat.go"),("fillDataBunch, fillRemaining","utils/stat.go")],[("folds","index sets","utils/stat.go")],["CrossValidationSamples and the returned sampler"])
p("C15","Cross-validation reports the mean held-out accuracy of models never shown it",
 "Cross-validating trains one fresh model per fold, with the given options, on exactly the samples outside that fold, and returns the mean over folds of the percentage of held-out samples given their own label; a model never sees its test samples, and a fold whose model has no tree counts as 0. In concurrent mode exactly one error, one accuracy and one options value are delivered, equal to what the call returns and to the options given; too little data gives an error in both modes.",
 ["inputs","configurations"],"every dataset, fold number and option set",
 "The cv tests cannot run here; leakage needs a dataset built to expose it.",
 ["cv/cv.go","utils/stat.go"],[("MultiClassCrossValidation","cv/cv.go")],None,["MultiClassCrossValidation return value and channels","calls on Options.Loss during training"])
p("C16","Grid search evaluates every grid point once and returns the best",
 "For every search space and any NCPUs (values below 1 count as 1), Grid cross-validates each hyperparameter combination of the grid exactly once, with exactly those hyperparameters, every other setting at the default of its kind of boosting, and the given fold number and dataset, never more than NCPUs at a time. It returns the highest accuracy observed, the options that produced it, and the list of all accuracies.",
 ["configurations","schedules","inputs"],"every grid shape x NCPUs x completion order",
 "The grid tests cannot run here; nothing counts the evaluations.",
 ["cv/cv.go"],[("Grid loops and rescueConcValues","cv/cv.go")],[("cpus","jobs in flight","cv/cv.go")],["Grid return values","cross-validation start/end events (verif hook)"],"start/end trace of MultiClassCrossValidation, behind build tag verif")
p("C17","Gradient searches return the best options they evaluated, inside the bounds",
 "GradientGrid and HybridGradientGrid return a best accuracy together with an options value that was cross-validated, with the requested number of folds, and obtained exactly that accuracy; later search steps do not alter it, and with central differences no candidate of an ascent obtained more. The accuracies returned are strictly increasing and end in the best one, settings outside the search (other than the base score) keep their defaults, and every hyperparameter of the returned options lies (up to rounding) within the caller's search space, with the kind of boosting and EarlyStop requested.",
 ["configurations","schedules","histories"],"every search space, dataset, step count and random perturbation",
 "The gradient-search tests cannot run here and only print.",
 ["cv/grad.go","cv/hybrid.go"],[("CompareAccs","cv/grad.go, cv/hybrid.go"),("fuzzOptions","cv/grad.go")],[("finaloptions, bestacc","incumbent","cv/grad.go")],["return values","cross-validation trace (verif hook)"],"start/end trace of MultiClassCrossValidation, behind build tag verif")
p("C18","Searches terminate and leave no goroutine or blocked sender behind",
 "Every Grid, GradientGrid, HybridGradientGrid, GradStep, ParamaterGradStep and concurrent cross-validation call returns or delivers its results, for any valid search space, any NCPUs and also on errors (too little data), and once it has, no goroutine started by it remains. A step sends exactly one options value on its output channel.",
 ["schedules","configurations","fault_sequences"],"every search space, NCPUs not dividing the grid size, central/forward differences, error paths",
 "No test counts goroutines.",
 ["cv/cv.go","cv/grad.go","cv/hybrid.go"],[("rescueConcValues","cv/cv.go"),("ParamaterGradStep","cv/grad.go")],None,["goroutine profile before/after","output channels"])
p("C19","Shared models, datasets and feature sets are safe for concurrent use",
 "Any number of goroutines may predict, compute accuracies and confusions, rank features, save and load the same model, train on or cross-validate the same dataset (also with the same options value), and add to the same feature set, without data races, and each gets the result it would get alone. The searches, which do this internally, are race-free too, and concurrent additions to a feature set are all counted.",
 ["schedules"],"every interleaving of those calls",
 "No test runs two goroutines on one object or under the race detector.",
 ["multiclass.go","tree.go","xgb.go","cv/grad.go","cv/cv.go"],[("Feats.Add mutex","tree.go"),("per-goroutine options clones","cv/grad.go"),("fold copies","utils/stat.go")],None,["Go race detector reports","results compared with sequential ones"])
p("C20","Training, prediction and searches never modify their inputs",
 "Fitting trees or ensembles, predicting, accuracies, confusions, feature importances, saving, cross-validation and the searches leave the caller's feature rows, labels, feature names, gradient/hessian/target vectors, row-index and column lists, boosting options, tree options and search options unchanged, element for element, so that all of these can be used again.",
 ["inputs","configurations","histories"],"every input and call sequence",
 "No test compares inputs before and after.",
 ["xgb.go","tree.go","utils/math.go","utils/stat.go","cv/cv.go"],[("copying in SampleMatrix/MemArgSort/fillDataBunch","utils")],None,["deep snapshots before and after each call"])
p("C21","Accuracy and confusion matrix count every labelled sample exactly once",
 "For every model and labelled dataset, Accuracy is 100 times the fraction of samples whose predicted label is their own (also for labels unknown to the model). The confusion matrix entry (i,j) is the number of samples with label i predicted as label j in ClassLabels order, its rows sum to the label counts, and TopN lists, per label, the most frequently predicted classes in non-increasing order of count with those counts (all classes when N exceeds their number), and are nil for an unknown label; matrices returned earlier keep their counts; printed summaries show the same numbers.",
 ["inputs"],"every model x dataset x N",
 "The confu tests cannot run here and only print.",
 ["confu/confu.go","multiclass.go"],[("MCConfusions, Matrix, TopNForLabelM","confu/confu.go"),("Accuracy","multiclass.go")],[("matrix","cached counts","confu/confu.go")],["Accuracy","Matrix","TopNForLabelM","TopNPerLabel","PrintTopN"])
p("C22","Feature importance adds up every split's gain and ranks it correctly",
 "For every model or tree with at least one split, the feature importance lists exactly the features used in some split, each once, with a score equal to the sum of the scores of all splits on it over all trees, most important first (largest gain for xgboost, most negative for regular boosting), and its text names that kind of boosting. Merging or adding to feature sets sums per feature, in any order, and merging sets of different kinds of boosting sums them too, leaving the receiver's kind.",
 ["inputs","configurations","histories"],"every model and every sequence of additions",
 "TestFeatures cannot run here and only prints.",
 ["tree.go","multiclass.go"],[("FeatureImportance, Feats","tree.go")],[("feat, gains","","tree.go: Feats")],["Feats.String/Len/Less/Swap","JSONMultiClass"])
p("C23","Options clone, compare and validate consistently",
 "Cloning boosting or grid options gives an independent value in which every setting is the same. Equal is true for an options value and itself or its clone, and false as soon as any single setting differs, in either direction. For finite settings, Check accepts exactly positive Rounds and LearningRate, SubSample and ColSubSample in (0,1], Lambda and Gamma >= 0, MinChildWeight >= 1, MaxDepth >= 2 and MinSample >= 1.",
 ["inputs","configurations"],"every options value and every single-field change",
 "No test calls Clone, Equal or Check.",
 ["options.go","cv/cv.go"],[("Clone, Equal, Check","options.go"),("GridOptions.Clone","cv/cv.go")],None,["Clone","Equal","Check"])
p("C24","Loss functions are consistent: gradients, hessians and loss agree",
 "For every label and probability matrix (also views of larger ones) both losses return the mean squared difference as loss, label minus probability as negative gradient and exactly the opposite as gradient; the hessian is all ones for the squared error and p*(1-p) for the other one. Results are written to and returned in the destination when one is supplied, freshly allocated otherwise (and not changed by later evaluations), and the inputs are left unchanged.",
 ["inputs"],"every matrix shape and content, with and without destination",
 "No test calls a loss.",
 ["utils/loss_acti.go"],[("SQErrLoss, MSELoss","utils/loss_acti.go")],None,["LossFunc methods"])
p("C25","Numeric kernels (sort, sample, transpose, columns) obey their definitions",
 "For every slice ArgSort/MemArgSort/Slice sorting return the ascending values together with the permutation that produces them, without touching the source; SampleSlice/SampleMatrix pick exactly the requested elements in order, TransposeFloats swaps indexes, DenseCol reads and AddToCol adds to exactly one column (also of a matrix view) and reject a column out of range or an addend of the wrong length, ToOnes sets only the matrix's own entries. ClassesFromProbs is the first row maximum, LogOddsFromProbs is log(p/(rowsum-p)), and Normalization divides by the sum (also in place). Freshly allocated results are not changed by later calls.",
 ["inputs"],"every slice/matrix, index list, view",
 "The three utils tests use one input each and assert two results.",
 ["utils/math.go","utils/sorter.go","utils/loss_acti.go","xgb.go"],[("MemArgSort, SampleMatrix, DenseCol, AddToCol","utils/math.go")],None,["exported functions of utils"])
p("C26","Without subsampling, training is deterministic and history-independent",
 "Training twice on the same data with the same options (no row or column subsampling, or regular boosting) gives models with identical JSON, whatever else the process trained, predicted or loaded before or concurrently. Repeated predictions of one model on one vector are bit-identical, and multiplying a feature by a power of two, in data and inputs alike, leaves every predicted probability unchanged.",
 ["histories","schedules","inputs"],"every dataset, options, preceding/concurrent activity",
 "No test trains twice.",
 ["xgb.go","tree.go"],[("scratch buffers in/val, grads reuse","xgb.go, tree.go")],[("tin, tval, grads","shared scratch","xgb.go")],["JSONMultiClass","PredictSingle"])
p("C27","Label-name files are read completely or rejected",
 "Reading a name map returns exactly the number-name pairs of the file, one per non-blank line, for the given separator (blank space by default), with or without a final newline. A line without a number and a name, or a missing file, gives an error and no map; no content makes it crash. The simple name map gives each label its decimal form.",
 ["inputs"],"every file content and separator",
 "TestConfu cannot run here and would read one file.",
 ["confu/confu.go"],[("ReadNameMap, MakeSimpleNameMap","confu/confu.go")],None,["ReadNameMap","MakeSimpleNameMap"])
p("C28","A gradient step changes only tunable parameters and stays in bounds",
 "Starting from options inside the search space, a single-parameter step delivers options that differ from the given ones in at most that parameter, and a full step in at most Gamma, Lambda, SubSample, ColSubSample, LearningRate and Rounds; all values stay finite and within the search space, for any step size, delta, central or forward differences. A single-parameter step never modifies the options passed in; a full step given an output channel delivers there the options it returns, leaving those passed in unchanged.",
 ["configurations","inputs","schedules"],"every starting point, search space, step size and dataset",
 "TestGradStep cannot run here and only prints.",
 ["cv/grad.go"],[("ParamaterGradStep, checkAgainstOptions, GradStep","cv/grad.go")],None,["ParamaterGradStep","GradStep"])
p("C29","With WriteBest, the search leaves a loadable model of its best options on disk",
 "When WriteBest is set, every time a search finds a new best accuracy a model file named after that accuracy appears in the working directory; whatever file was there before, it then loads without error and is a model of those options trained on all the data (class labels, learning rate, base score, row fraction, at most that many rounds; without subsampling exactly the model that training again gives), and predicts valid distributions. Without WriteBest no file is written.",
 ["configurations","histories"],"every search space, dataset, NCPUs, all three searches",
 "The WriteBest tests cannot run here and never read the file back.",
 ["cv/cv.go","cv/grad.go","cv/hybrid.go"],[("writeBest","cv/cv.go")],None,["files in a scratch working directory","UnJSONMultiClass"])
p("C30","The printed form of a tree shows its splits and leaves in order",
 "For every fitted tree and any list of feature names (missing, short or complete), printing never crashes and lists, in pre-order and indented by depth, each split's feature (its name when the list has one, else its zero-based index) and threshold, its branch for True and then the one for False, and each leaf's value and training rows; numbers have 3 decimals.",
 ["inputs"],"every tree and name list",
 "TestXTree cannot run here and only prints.",
 ["tree.go"],[("Print, feature","tree.go")],None,["Tree.Print"])
p("C31","Gradient searches climb: parameters move with the accuracy seen on both sides",
 "A gradient step cross-validates, from the given options, options in which only the one tunable parameter is raised by the given fraction of its value (and, for central differences, also options in which it is lowered by it). The parameter goes up only when the raised side is more accurate than the lowered one (than the current accuracy, for forward differences), down only when it is less accurate, stays when both are equal or it could not be evaluated, and does move when there is a difference and room in the search space. A full step combines the six single-parameter steps taken from the same options. GradientGrid starts one ascent at the middle of the search space for each MinChildWeight and MaxDepth of the grid, HybridGradientGrid for each MinChildWeight, MaxDepth, Rounds and Lambda, and an ascent ends after NSteps steps, or earlier after exactly three in a row that change nothing; the options reached by a step that changes any are cross-validated.",
 ["configurations","inputs","schedules"],"every starting point, search space, step size, delta and dataset",
 "The gradient tests cannot run here and only print what they find; no test looks at the direction of a step.",
 ["cv/grad.go","cv/hybrid.go"],[("ParamaterGradStep, GradStep","cv/grad.go"),("GradientGrid","cv/grad.go"),("HybridGradientGrid","cv/hybrid.go")],None,["ParamaterGradStep","GradStep","GradientGrid","HybridGradientGrid"])
p("C32","Printed options, datasets and matrices show every value in its place",
 "For every options value, String names the kind of boosting and shows every setting before its own tag (rounds r, depth md, learning rate lr, minimum child weight mcw and, for xgboost, subsample ss, base score bs, gamma gam, lambda lam, column subsample css), to 3 decimals. A printed dataset has one line with the feature names and one per sample, with its own label (-1 without labels) and all its values to 4 decimals in order; a nil dataset prints as nothing. A printed matrix shows each entry exactly, one line per row, also for a view of a larger matrix.",
 ["inputs"],"every options value, dataset and matrix",
 "Tests print these texts but never compare them.",
 ["options.go","utils/libsvm.go","utils/math.go"],[("Options.String","options.go"),("DataBunch.String","utils/libsvm.go"),("PrintDenseMatrix","utils/math.go")],None,["Options.String","DataBunch.String","PrintDenseMatrix"])
p("C33","Defaults are fresh and valid, and verbosity changes nothing but the output",
 "Each call to a default-options constructor returns a new value equal to the others whatever was done to them, with XGB set as its name says (the plain DefaultOptions and DefaultGridOptions are the xgboost ones), quiet and valid. Training or cross-validating without options, or with nil ones, uses the defaults. A training prints nothing unless Verbose is set; Verbose adds one line per trained tree with its round, class and loss, and neither it nor a tree's Debug option ever changes the model.",
 ["inputs","histories","configurations"],"every dataset, every option setting, every history of changes to earlier defaults",
 "No test compares a verbose with a quiet training, nor models made without options with anything.",
 ["options.go","xgb.go","multiclass.go","tree.go","cv/cv.go"],[("DefaultXOptions, DefaultGOptions, DefaultOptions","options.go"),("NewMultiClass","multiclass.go"),("DefaultXGridOptions, MultiClassCrossValidation","cv/cv.go")],None,["Default*Options","NewMultiClass","standard output"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
