#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
S = "src/neural_network/StraightforwardNeuralNetwork.cpp"
H = "include/snn/neural_network/StraightforwardNeuralNetwork.hpp"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))


prop("C01", "Stopping an asynchronous training is prompt, final and exclusive",
     "stopTrainingAsync (and the destructor, and starting a new training) returns after the training has finished at most the batch it is on and one evaluation, however it is interleaved with the start and the progress of the training. Once it has returned the network is idle and nothing learns, evaluates, saves or changes it until the next start. At any time at most one training runs on a network.",
     ["schedules", "histories"],
     "every interleaving of start, stop, restart and destruction with the training thread, including a stop before the new thread has run, during an evaluation, between two batches, and after the training ended by itself; every sequence of such calls",
     "the tests start one asynchronous training, wait for an epoch or an accuracy and stop it: the stop always lands in the middle of a training that has long started",
     [S, H],
     [("startTrainingAsync / stopTrainingAsync", S), ("continueTraining", S), ("~StraightforwardNeuralNetwork", S)],
     [("wantToStopTraining, isIdle", "the stop request and the idle flag shared with the training thread", H)],
     ["isTraining()", "weights and statistics after the stop", "examples presented to the first layer, by thread and time"])

prop("C02", "The training status is truthful and operations unsafe in training are refused",
     "isTraining() is true from the return of startTrainingAsync (or the beginning of train) until the training is stopped or ends, and false otherwise. Saving, copying, evaluating, exporting bitmaps of, or synchronously training a network that is in training throws, leaves no file and does not disturb the training; a start or a training refused because of its data or its batch size changes nothing, in particular not a training in progress.",
     ["schedules", "histories"],
     "every interleaving of the status reads and of the refused calls with the training thread, from the instant startTrainingAsync returns",
     "the tests check saveAs during a training once, at one lucky instant; nothing checks that refused calls have no effect",
     [S, H],
     [("isTraining", S), ("the isIdle guards of saveAs, evaluate, train, saveFeatureMapsAsBitmap, saveFilterLayersAsBitmap and the copy constructor", S), ("validData before stopTrainingAsync", S)],
     [("isIdle", "no training in progress", H)],
     ["isTraining()", "exceptions", "files of the working directory", "the sequence of examples learned"])

prop("C03", "waitFor judges the current training only, and returns when it should",
     "waitFor returns as soon as its condition is met by the training in progress and not before: an epoch count is the number of epochs completed by this training, never by an earlier one, and an accuracy or a mean absolute error is that of an evaluation already completed. It also returns, within a bounded time, when the training ends because of a NaN or a failure.",
     ["schedules", "histories"],
     "every interleaving of waitFor with the training thread, including a wait that begins before the training thread has run, on a network which was trained, loaded or copied before; every condition on epochs, accuracy, error and their combinations",
     "the tests wait once per network, on networks that were never trained before, and only look at the final accuracy",
     [S, "src/neural_network/Wait.cpp"],
     [("waitFor", S), ("setTrainingValues", S), ("Wait::isOver", "src/neural_network/Wait.cpp")],
     [("epoch", "current epoch of the training", H)],
     ["return of waitFor against the epochs and evaluations observed in the layers"])

prop("C04", "Time limits are kept whatever the clock and the slowness of the steps",
     "A wait or a training with a time limit never ends because of the limit before that time has elapsed, and ends once it has: waitFor within its polling interval, train after at most the step (batch or evaluation) in progress. Adjustments of the system's clock do not matter, and the limit is counted from the call.",
     ["schedules", "fault_sequences", "inputs"],
     "every limit in ms, s or min, clock jumps forward and backward at any instant, steps and evaluations of any duration, stalled threads and sleeps that oversleep",
     "the tests run on the real clock without adjustments and compare a few seconds with a large tolerance",
     ["src/neural_network/Wait.cpp", "include/snn/neural_network/Wait.hpp", S],
     [("Wait::startClock, Wait::isOver", "src/neural_network/Wait.cpp"), ("waitFor, continueTraining", S)],
     [("start", "start of the wait on the monotonic clock", "include/snn/neural_network/Wait.hpp")],
     ["simulated time at the return of waitFor and train and at each example"])

prop("C05", "A training ends at the first instant its stop condition holds, and not before",
     "train learns as long as its condition is false and stops before the next batch when it is true, where || is met by any of its criteria, && by all of them, repeated criteria are combined likewise (the easiest for ||, the hardest for &&), and an expression mixing both is refused. Evaluations take place before the first epoch and after every evaluationFrequency-th epoch (never if 0), and a criterion on accuracy or error is judged on the latest of them; N epochs mean exactly N complete passes.",
     ["inputs", "histories", "schedules"],
     "every expression of _ep, _acc, _mae, _ms, _s and _min criteria, every history of accuracies and errors over the evaluations, every evaluation frequency and batch size, on new and already trained networks",
     "the tests use a handful of || expressions and check that the final accuracy is reached, not that the training stopped then",
     ["src/neural_network/Wait.cpp", S],
     [("Wait::operator||, Wait::operator&&, Wait::isOver", "src/neural_network/Wait.cpp"), ("trainSync, continueTraining", S)],
     [("epochs, accuracy, mae, duration, op", "the combined criteria", "include/snn/neural_network/Wait.hpp")],
     ["batches and evaluations observed in the layers against the condition on the recorded history"])

prop("C06", "Every epoch presents every example once, with its own label, in a fresh order",
     "In each epoch on non temporal data every training example is learned exactly once with its own expected output (with batches of B: floor(n/B) disjoint groups of B examples, each learned as the mean of its examples and expected outputs), and the order is drawn again for each epoch. Every evaluation presents every test example exactly once, in order, and judges it against its own label. Training never alters the data: inputs and labels keep their values and pairing, at any index, shuffled or not, and unshuffle restores the original order.",
     ["schedules", "histories", "inputs"],
     "every size, batch size and problem type, every seed, every sequence of trainings stopped and restarted at any point on the same data, and readers of the data between trainings",
     "the tests only look at the accuracy reached, which hides an example presented twice, forgotten or given another's label",
     [S, "src/data/Data.cpp", "src/data/ProblemComposite.cpp", "src/data/CompositeForNonTemporalData.cpp", "src/data/CompositeForClassification.cpp"],
     [("trainSync, evaluate", S), ("getTrainingData, getTrainingOutputs", "src/data/Data.cpp"), ("shuffle", "src/data/CompositeForNonTemporalData.cpp")],
     [("shuffledIndexes", "the order of the training examples", "include/snn/data/Set.hpp")],
     ["inputs received by the first layer, errors received by the last one", "public accessors of Data"])

prop("C07", "Temporal data keep their order and their windows while training and evaluating",
     "Sequential data are presented in order in every epoch and evaluation, with the temporal reset exactly at the first step of each sequence, every step is learned in training and only the last one of each sequence is judged in evaluation. For time series with R recurrences, every example that is learned has just been preceded, since a reset, by its predecessors in the series (R of them, or all of them when it is among the first ones), with its own expected output, every example is learned within any R+1 consecutive epochs, and evaluations go through the whole test series once, in order, with one reset at its beginning. New data, and data that have been unshuffled, are in their order, each example to be learned, with a reset at the first step of each sequence (or of the series) only.",
     ["schedules", "histories", "inputs"],
     "every number and lengths of sequences, every series length and number of recurrences, every seed, trainings stopped at any point and restarted on the same data",
     "the tests check the accuracy of a few series; a window mixing two places of the series only makes learning a little worse",
     ["src/data/CompositeForTimeSeries.cpp", "src/data/CompositeForTemporalData.cpp", "src/data/Data.cpp", S],
     [("CompositeForTimeSeries::shuffle", "src/data/CompositeForTimeSeries.cpp"), ("Data::flatten", "src/data/Data.cpp"), ("trainSync, evaluate", S)],
     [("offset, needToTrainOnData, areFirstDataOfTemporalSequence", "the windows of the epoch", "src/data/CompositeForTimeSeries.cpp")],
     ["inputs and temporal resets received by the first layer, errors received by the last one"])

prop("C08", "A saved network loads in another process as the same network",
     "A network saved and then loaded in a new process, whatever the locale of either, has the same outputs, statistics, best statistics, counters, settings and summary as the saved one, also when some are NaN or infinite, and is equal to it. Trained further on the same data with the same random draws, the loaded network evolves exactly as the original does: the weights, momenta and internal states are all part of the file.",
     ["programs", "histories", "inputs"],
     "every architecture (all layer types, activations and layer optimizers), every history before the save (training stopped at any point, evaluations, NaN), any number of save and load generations, a process restart in between",
     "the tests compare a saved and loaded network with ==, which does not compare statistics, on few architectures, in the same process, and never continue the training",
     [S, H, "include/snn/neural_network/NeuralNetwork.hpp", "include/snn/neural_network/StatisticAnalysis.hpp", "include/snn/neural_network/layer/neuron/Neuron.hpp", "include/snn/neural_network/layer/Layer.hpp"],
     [("serialize of every class", H), ("saveSync, loadFrom", S)],
     [], ["public getters, outputs, summary and weights before the save, after the load in a new process, and after further training"])

prop("C09", "A crash during a save leaves the previous file or the new one, complete",
     "If the process dies at any instant of a save (saveAs or an auto save), the file of that name is either as it was before (or absent if it was) or completely the new network. The next process can load it and can save again under the same name.",
     ["crash_points", "fault_sequences"],
     "every crash point of a save: before and after every operation on files and in the middle of every write, on first and repeated saves, after an earlier crash left its debris, with short writes",
     "no test crashes a process; a save interrupted halfway needs a kill in a window of microseconds",
     [S],
     [("saveSync: temporary file then rename", S)],
     [("autoSaveFilePath + .tmp", "the file being written", S)],
     ["the file after the crash, in a new process"])

prop("C10", "A save that fails is reported and keeps the previous file",
     "A saveAs that returns has written a complete, loadable file; when the disk is full, or a file cannot be created, written, closed or put in place, it throws instead, the previous file of that name is intact and loads, the network is unchanged and still usable, no other file is left, and a later save with the fault gone succeeds.",
     ["fault_sequences", "histories"],
     "every operation on files of a save failing with any error, once or persistently, writes that are short or interrupted, a disk that fills up at any byte, missing or unwritable directories",
     "no test makes a write fail; a full disk cannot be produced by the tests",
     [S],
     [("saveSync: checks of the stream, rename, clean up", S)],
     [], ["exception or return of saveAs, the files afterwards, the network afterwards"])

prop("C11", "A file that is missing, unreadable, truncated or not a network is refused",
     "loadFrom of a file that does not exist, cannot be read (at any point), was cut at any byte, or does not hold a network throws an exception: it never returns a network other than the one saved, never crashes, hangs or exhausts the memory of the process, which can load an intact file right afterwards.",
     ["inputs", "fault_sequences"],
     "every truncation point of files of every architecture, read errors at any read, open failures, files of arbitrary text or bytes, empty files and directories",
     "the only test loads an intact file",
     [S],
     [("loadFrom", S)], [], ["result of loadFrom"])

prop("C12", "The auto saved file holds the best network so far, ready for use",
     "With autoSaveWhenBetter, whenever an evaluation has completed the auto save file holds the network as it was at the evaluation with the best accuracy so far (the earliest one if equal), whatever happens later to the training, and a training stopped or killed at any instant leaves such a file. Loaded, that network is idle, reproduces this accuracy when evaluated on the same test data, and can be trained, saved, copied and evaluated.",
     ["schedules", "crash_points", "histories"],
     "every sequence of accuracies over the evaluations, several trainings in a row, stops and crashes at any instant, including during an auto save",
     "the test of auto save loads the file once after a training of fixed length and does not use the network afterwards",
     [S, "src/neural_network/StatisticAnalysis.cpp"],
     [("evaluate: globalClusteringRateIsBetterThanMax then saveSync", S), ("loadFrom resets the training flags", S), ("stopTesting", "src/neural_network/StatisticAnalysis.cpp")],
     [("globalClusteringRateIsBetterThanMax", "the evaluation just finished is the best", "include/snn/neural_network/StatisticAnalysis.hpp")],
     ["the file at each evaluation and after a crash, loaded in a new process"])

prop("C13", "A failure during training is reported, contained and recoverable",
     "When memory runs out, a thread cannot be created, an auto save fails or the data turn out to be wrong during a training, the process survives, the caller of train, startTrainingAsync or the next stopTrainingAsync gets the exception (once), and the destructor is safe. The network is then idle, waits on it return, and a later training with the fault gone works normally.",
     ["fault_sequences", "schedules"],
     "every allocation of a training failing, thread creation failing, every disk fault during an auto save, wrong labels, in synchronous and asynchronous trainings, followed by a stop, a wait, a restart or the destruction",
     "no test makes an allocation, a thread or a disk fail",
     [S],
     [("train, trainAsync, startTrainingAsync: catch and reset", S), ("stopTrainingAsync rethrows", S)],
     [("trainingError", "exception of the training thread", H)],
     ["exceptions, isTraining(), a later training"])

prop("C14", "Networks used in parallel do not influence each other",
     "Networks with their own data that are created, trained, evaluated, saved and used at the same time in different threads end up exactly as if each had been alone, for the same random draws of each thread; they may be evaluated on the same data at the same time. No library state shared between instances makes the result of one depend on the others.",
     ["schedules"],
     "every interleaving, at the granularity of memory accesses, of two or three instances of any architecture, problem and kind of data, in their own threads and with asynchronous trainings",
     "the tests use one network at a time",
     ["include/snn/tools/Tools.hpp", "src/tools/Tools.cpp", "src/neural_network/layer/neuron/activation_function/ActivationFunction.cpp", "src/data/CompositeForNonTemporalData.cpp", S],
     [("thread local random generator", "include/snn/tools/Tools.hpp"), ("state held per instance", H)],
     [("tools::rng, activationFunctions", "state shared by all instances", "include/snn/tools/Tools.hpp")],
     ["weights, statistics and outputs of each instance alone and in parallel"])

prop("C15", "A temporal reset makes the past irrelevant",
     "The outputs computed for a sequence that starts with a temporal reset depend on the weights and on the sequence only, not on what the network was given before, in inference, evaluations or trainings, stopped anywhere. Without a reset the state carries over from one step to the next and is untouched by other networks and copies.",
     ["histories", "schedules"],
     "every history of inferences, evaluations and trainings stopped at any point before the reset, for simple recurrent and gated recurrent layers, alone or stacked with other layers",
     "the tests compute each sequence once, from a given initial state",
     ["src/neural_network/layer/neuron/RecurrentNeuron.cpp", "src/neural_network/layer/neuron/GatedRecurrentUnit.cpp", "src/neural_network/NeuralNetwork.cpp"],
     [("RecurrentNeuron::reset, GatedRecurrentUnit::reset", "src/neural_network/layer/neuron/RecurrentNeuron.cpp")],
     [("lastOutput, previousOutput", "recurrent state", "include/snn/neural_network/layer/neuron/RecurrentNeuron.hpp")],
     ["computeOutput after a reset against a network with the same weights and no past"])

prop("C16", "Evaluating or using a network does not change what it learns or knows",
     "For networks without recurrent layers, evaluations (within a training or by evaluate) and inferences change neither the weights nor what any later training learns: with the same random draws the weights are the same with and without them. Evaluations and inferences repeated without learning in between give the same results.",
     ["histories", "schedules"],
     "every architecture of feed-forward layers and optimizers (dropout included), every evaluation frequency, inferences and evaluations inserted anywhere between trainings, trainings stopped at any point",
     "the tests never compare two trainings",
     [S, "src/neural_network/NeuralNetwork.cpp", "include/snn/neural_network/layer/Layer.tpp", "src/neural_network/optimizer/Dropout.cpp"],
     [("output versus outputForTraining", "src/neural_network/NeuralNetwork.cpp"), ("applyAfterOutputForTesting", "src/neural_network/optimizer/Dropout.cpp")],
     [], ["weights, outputs and statistics of two runs"])

prop("C17", "The best results are the extremes over all evaluations of the network",
     "After every completed evaluation the best accuracy, weighted accuracy and F1 score are the highest, and the lowest mean absolute and root mean squared errors the lowest, of all completed evaluations of the network. They survive stops, further trainings, saving, loading and copying, and are not changed by an evaluation that was interrupted by a NaN or a failure.",
     ["histories", "schedules", "crash_points"],
     "every history of evaluations in and out of trainings, stops, failures, copies, saves and reloads in a new process",
     "the tests never look at the best results over several evaluations",
     ["src/neural_network/StatisticAnalysis.cpp", "include/snn/neural_network/StatisticAnalysis.hpp", S],
     [("stopTesting", "src/neural_network/StatisticAnalysis.cpp")],
     [("globalClusteringRateMax and the other extremes", "best results", "include/snn/neural_network/StatisticAnalysis.hpp")],
     ["public getters at the end of every evaluation"])

prop("C18", "A NaN ends the training, is visible, and spoils nothing saved",
     "When the network outputs a NaN or an infinite value during a training or an evaluation, nothing more is learned from that point on, the training ends by itself within the step in progress, the network reports it (hasNan, NaN statistics, not training), waits return, and the auto saved file and the best results stay those of earlier evaluations. The network can still be stopped, copied, saved, loaded and destroyed.",
     ["schedules", "histories", "inputs"],
     "a NaN at any example of any training or evaluation, in synchronous and asynchronous trainings, together with stops, waits and restarts at any instant",
     "one test checks that a NaN ends a synchronous training",
     [S, "src/neural_network/NeuralNetwork.cpp", "src/neural_network/StatisticAnalysis.cpp"],
     [("hasNan checks of trainSync, evaluate, waitFor", S), ("outputNan", "src/neural_network/NeuralNetwork.cpp"), ("setResultsAsNan", "src/neural_network/StatisticAnalysis.cpp")],
     [("outputNan", "a NaN was output", "include/snn/neural_network/NeuralNetwork.hpp")],
     ["examples observed in the layers after the NaN, public getters, the auto save file"])

prop("C19", "A copy is the same network, and independent of the original",
     "A copy of an idle network equals it in outputs, statistics, best results, counters and settings, and evolves exactly as the original does when trained on the same data with the same random draws. Nothing done to one of them, including changing its optimizer, training it in parallel or destroying it, has any effect on the other.",
     ["schedules", "histories", "programs"],
     "every architecture and history before the copy, every order and interleaving of training, using, saving and destroying the original and copies, copies of copies",
     "the tests copy fresh networks and compare with ==, once",
     [S, "src/neural_network/NeuralNetwork.cpp", "include/snn/neural_network/layer/Layer.tpp"],
     [("copy constructors, clone of layers and optimizers", "src/neural_network/NeuralNetwork.cpp")],
     [], ["weights, outputs, statistics of both"])

prop("C22", "The statistics are those of the latest complete evaluation",
     "At any time after a first evaluation, whoever reads them and whatever is in progress, each statistic is that of the latest complete evaluation (direct or in a training), computed from its outputs and labels only: nothing of earlier evaluations, of evaluations that failed half way, of other data sets, of the training, or of the copy or file the network comes from. Accuracy is the proportion of judged test examples that are right (highest output on the class, the first of equal ones; every output on the right side of the separator, one that is equal to it being below; every error within the precision, or equal to it), weighted accuracy and F1 score the means over the outputs of the recall and of the F1 score at the separator, mean absolute and root mean squared error those of the sum over the outputs of absolute or squared errors. In sequences only the last step is judged.",
     ["histories", "schedules", "fault_sequences", "inputs"],
     "every sequence of trainings, evaluations of several data sets of different sizes and kinds, stops and failures at any point, saves and copies, with any interleaving of readers and of networks evaluated with the same data",
     "the tests compare some accuracies with expected ranges at the end of a training, never values, never during an evaluation",
     ["src/neural_network/StatisticAnalysis.cpp", S, "src/data/Data.cpp"],
     [("startTesting, stopTesting, evaluateOnceFor*, compute*", "src/neural_network/StatisticAnalysis.cpp"), ("evaluate", S)],
     [("clusters, numberOfDataWellClassified, numberOfDataMisclassified", "counts of the evaluation in progress", "include/snn/neural_network/StatisticAnalysis.hpp")],
     ["values of the getters in every thread against those computed from the outputs of the last layer and the labels given"])

prop("C25", "It uses only its own memory and gives back what it took",
     "Whatever is asked of networks and data, in whatever order and in however many threads, including calls that are refused, calls that fail and settings changed while a network learns, nothing is read or written outside of memory in use, no object is used after its end, and no result depends on memory that was not written before. Once networks and data are destroyed, the memory, the threads and the open files they took are given back, whatever happened before; only what a failed load had begun to build is not (a known finding).",
     ["histories", "schedules", "fault_sequences", "inputs", "programs"],
     "every architecture and history: trainings, evaluations, resets, copies, saves, failed and successful loads, inferences with inputs of any size, data of any shape (empty, ragged or mismatched ones too), exports as bitmaps, changes of settings during a training, failing allocations, several networks in parallel",
     "the tests are not run under a memory checker, use the library as expected and never fail half way",
     ["src/neural_network", "src/data", "src/tools"],
     [("inputs and outputs given by the user", S), ("owning pointers of layers and optimizers", "include/snn/neural_network/layer/Layer.hpp")],
     [], ["every instrumented access against the blocks in use; results of the same life with other initial memory; bytes, threads and files left after it"])

prop("C26", "An exported bitmap is complete and shows what it is asked to show",
     "saveFeatureMapsAsBitmap, saveFilterLayersAsBitmap and saveData2DAsBitmap return only once every bitmap they are to write is there, complete and of the right size: one for each filter layer in two dimensions (path_layer_<l>.bmp; the feature maps only of layers with weights), or one for the test example (path_input<i>.bmp). It shows the outputs of the layer for that example, the sum of the weights of each filter at each place (through tanh(w/2), as a shade), or the example, as they are at that time, whatever was done before and whatever was in the file; filters are in a grid, row by row, with a black line between them. If any of these files cannot be created, written or closed, or memory lacks, the export throws. No other file is written, the network does not change, exports of layers are refused while the network learns, and once the fault is gone the same export works.",
     ["histories", "fault_sequences", "schedules", "inputs", "programs"],
     "every architecture with filter layers, history of trainings, copies and loads, test example and path, failures of any file operation or allocation of an export, exports during a training, several networks exporting in parallel",
     "the tests that export bitmaps are disabled, need files that are not in the repository, and look at no pixel",
     ["src/neural_network/NeuralNetworkVisualization.cpp", S, "src/external_library/bitmap/BitmapImage.hpp"],
     [("saveAsBitmap, getWeights", "src/neural_network/NeuralNetworkVisualization.cpp"), ("save*AsBitmap, validTestingData", S), ("save_image", "src/external_library/bitmap/BitmapImage.hpp")],
     [], ["files of the scratch directory; each bitmap against a picture computed from the weights, the outputs of a copy or the data"])

prop("C27", "A training is the sum of its steps, and dropout drops whole sequences",
     "After any training (blocking or not, of data of any nature, in batches or not, evaluated meanwhile or not, stopped at any instant, continued, of a network copied or loaded before), the weights and the number of learned examples are exactly those of a network that was given the same examples one by one, in the same order, through the single-example call: nothing else that a training does (starting, stopping, epochs, evaluations, waits) changes what is learned. An output that dropout drops is 0, stays dropped until the next start of a sequence and teaches nothing; the others are unchanged; outside of trainings nothing is dropped and every output is multiplied by 1 - p.",
     ["histories", "schedules", "inputs", "programs"],
     "every architecture, history, batch size, frequency of evaluations and instant of a stop, with dropout drawn in whatever thread trains",
     "the tests check that accuracies are reached after whole trainings; no two ways of learning are compared",
     [S, "src/neural_network/NeuralNetwork.cpp", "src/neural_network/optimizer/Dropout.cpp"],
     [("trainSync", S), ("trainOnce, backpropagationAlgorithm", "src/neural_network/NeuralNetwork.cpp"), ("applyAfterOutput*, applyBeforeBackpropagation", "src/neural_network/optimizer/Dropout.cpp")],
     [], ["weights and counter after each operation against those of the twin; outputs of each layer at each presentation"])

prop("C28", "What is random is drawn anew, independently and in the right proportions",
     "Two networks do not start with the same weights, nor two neurons of a layer. Each epoch of non-temporal data, and each epoch of the windows of a time series, is in an order drawn uniformly among all, whatever the orders before. At each start of a sequence in a training, each output of a layer with dropout p is dropped with probability p, whatever the other outputs, the earlier draws and the other networks. All this in whatever thread networks are created and trained, one after the other or at the same time, blocking or not, also after copies and loads.",
     ["schedules", "histories", "programs"],
     "every seed of the system's entropy, number of threads, interleaving, architecture, size of data and probability",
     "the tests use whatever was drawn and look at no draw",
     ["include/snn/tools/Tools.hpp", "src/tools/Tools.cpp", "src/neural_network/optimizer/Dropout.cpp", "src/data/CompositeForNonTemporalData.cpp", "src/neural_network/layer/neuron/Neuron.cpp"],
     [("rng", "include/snn/tools/Tools.hpp"), ("shuffle", "src/data/CompositeForNonTemporalData.cpp"), ("applyAfterOutputForTraining", "src/neural_network/optimizer/Dropout.cpp"), ("randomInitializeWeight", "src/neural_network/layer/neuron/Neuron.cpp")],
     [("rng", "one generator in each thread and translation unit", "include/snn/tools/Tools.hpp")],
     ["counts of draws against what chance gives less than once in 1e15 times (Bernstein's inequality)"])

prop("C29", "Comparing networks tells whether they are the same",
     "A network is equal (==, and not !=, in either order) to itself and to a copy or a reload of it, for as long as both go through the same operations with the same random draws. Networks that differ in their layers, in the optimizers of their layers, in a weight, in the learning rate or the momentum, or in the automatic save, are different. Two networks that are equal answer and learn alike from the next temporal reset on, with the same draws. A comparison of any two networks, whatever they are, changes neither, reads nothing but them, and can be made by several threads at the same time. (Networks with weights that are not finite are apart.)",
     ["histories", "programs", "schedules"],
     "every pair of architectures, alike or not, every history of trainings, steps, copies, reloads and settings on one or both, with the draws given to each, comparisons in both orders by parallel threads",
     "the tests compare a network with its own reload or copy; a comparison that forgets something, or that reads past the end of the smaller network, passes them all",
     ["src/neural_network/NeuralNetwork.cpp", S, "include/snn/neural_network/layer/Layer.tpp", "src/neural_network/layer/FilterLayer.cpp", "src/neural_network/layer/neuron/Neuron.cpp"],
     [("operator== of the network", S), ("operator== of each layer", "include/snn/neural_network/layer/Layer.tpp"), ("operator== of each neuron", "src/neural_network/layer/neuron/Neuron.cpp"), ("operator== of each layer optimizer", "src/neural_network/optimizer/Dropout.cpp")],
     [], ["results of == and != against the recorded histories, the declared architectures, the weights and settings, and the future of copies of both"])

prop("C30", "A call that is refused or fails leaves everything as it was",
     "A call that a network refuses (an input, an expected output, a batch, data or an index that does not fit, a file that holds no network, or what it does not do while it learns) changes neither the network, nor its data, nor the files. A computation, an evaluation, a copy, a save, a load, an export or an unshuffle that fails because there is no memory left or because the disk fails changes neither the network nor the data, and does the same as always once it is called again and the reason is gone: from then on the network learns, answers and saves exactly as if the call had never been made. (Excluded: what is left of a training or a learning step that fails in its course, the last outputs that a failed computation leaves in a network with memory, and an evaluation that is complete when its automatic save fails.)",
     ["faults", "histories", "inputs", "programs", "schedules"],
     "every call that can be refused or can fail, at every point of every history, and every allocation or file operation of it that can fail",
     "the tests check that a few calls throw, not what is left behind; nothing in them makes an allocation or a write fail in the middle of a call and goes on with the network",
     [S, "src/neural_network/NeuralNetwork.cpp", "src/data/CompositeForTimeSeries.cpp", "src/neural_network/NeuralNetworkVisualization.cpp", "src/neural_network/layer/neuron/CircularData.cpp"],
     [("checks before anything is changed", S), ("the inputs kept for the next learning step", "src/neural_network/layer/neuron/CircularData.cpp"), ("unshuffle", "src/data/CompositeForTimeSeries.cpp")],
     [], ["the network, its data and the files before and after a call that throws, and the whole rest of the history, outputs and files included, against the same history without the calls that were refused or failed"])

NA = [
    ("C20", "The outputs are those of the declared architecture",
     "For any weights and inputs, each layer computes its documented function (fully connected, locally connected, convolution, pooling, recurrent, gated recurrent, with its activation and optimizers).",
     ["inputs", "programs"], "every architecture and input", "the tests compute a few small layers by hand",
     ["src/neural_network/layer/FullyConnected.cpp", "src/neural_network/layer/Convolution1D.cpp"], [("computeOutput", "src/neural_network/layer")],
     "a pure function of the weights and inputs: no schedule, clock, fault or history to simulate; only input generation against a reference, which is another technique"),
    ("C21", "Learning steps follow the gradient with momentum and regularization",
     "One learning step changes every weight by the learning rate times the gradient of the squared error plus the momentum term, modified by the declared layer optimizers.",
     ["inputs", "programs"], "every architecture, input and expected output", "the tests check that accuracies are reached",
     ["src/neural_network/optimizer/StochasticGradientDescent.cpp"], [("updateWeights", "src/neural_network/optimizer/StochasticGradientDescent.cpp")],
     "a pure function of the network's state and one example: numerical, nothing to schedule or to fail"),
    ("C23", "Wrong architectures and wrong data are refused, right ones accepted",
     "Creating a network or data with inconsistent shapes, sizes or parameters throws, and the shapes and numbers of parameters of a valid network are those of its architecture.",
     ["inputs", "programs"], "every architecture and data set", "the tests try some wrong architectures",
     ["src/neural_network/layer/LayerFactory.cpp", "src/data/Data.cpp"], [("LayerFactory::build, isValid", "src/neural_network/layer/LayerFactory.cpp")],
     "a pure function of the arguments: no schedule, clock, fault or history"),
    ("C24", "Normalization maps each input to the given range and nothing else",
     "normalize(min, max) maps every component of the training inputs linearly onto [min, max] and applies the same map to the test inputs.",
     ["inputs"], "every data set and range", "the tests check one small data set",
     ["src/data/Data.cpp"], [("normalize", "src/data/Data.cpp")],
     "a pure function of the data: no schedule, clock, fault or history"),
]
for id, t, st, ov, q, w, f, m, r in NA:
    prop(id, t, st, ov, q, w, f, m)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps(p) + "\n")
