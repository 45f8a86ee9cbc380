#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of claimed and not-applicable properties)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "The chosen policy is always one of the region's policies",
 "For a region with N >= 1 policies, every policy index handed to the application is an integer in 0..N-1, whatever the features, the measured times and the sequence of executions and trainings so far. This holds for the models Static, Random, RoundRobin, DecisionTree, RandomForest, PolicyNet and DatasetMap as long as the measurements they were trained on carry policy indices in 0..N-1 (models read from a file excepted; PolicyNet is given non-negative features that fit a 64-bit integer and, once trained, as many as it was trained with).",
 ["inputs", "histories", "configurations"],
 "all N >= 1, all feature vectors, all datasets whose policies lie in 0..N-1, every model kind, before and after any number of trainings",
 "the tests run two models (Static, DecisionTree) with at most 4 policies and never check the range; the guarantee is about every model, policy count and history",
 ["src/models/Static.cpp","src/models/Random.cpp","src/models/RoundRobin.cpp","src/models/DatasetMap.cpp","src/models/DecisionTree.cpp","src/models/RandomForest.cpp","src/models/PolicyNet.cpp","src/models/impl/DecisionTreeImpl.cpp","src/models/impl/RandomForestImpl.cpp","src/ModelFactory.cpp","src/Region.cpp"],
 [("getIndex of every policy model", "src/models/*.cpp"), ("tree evaluation returns a class seen in training", "DecisionTreeImpl::evaluate_tree"), ("vote counting over num_classes", "RandomForestImpl::predict"), ("Static policy clamped at creation", "ModelFactory::createPolicyModel")],
 [("policy_count", "number of policies of the region", "PolicyModel::policy_count"), ("classes", "labels seen in training", "DecisionTreeImpl::classes")],
 ["Apollo::Region::getPolicyIndex", "PolicyModel::getIndex"])

prop("C02", "RoundRobin visits all policies cyclically",
 "The k-th policy chosen (k = 0, 1, 2, ...) by a freshly created RoundRobin model with N policies is k mod N, independently of the features passed. Hence any N consecutive choices visit every policy exactly once.",
 ["inputs", "histories"], "all N >= 1, all call counts k, all feature vectors",
 "a test sees finitely many calls and small N; it is an invariant of the model's state over unbounded histories",
 ["src/models/RoundRobin.cpp", "include/apollo/models/RoundRobin.h"],
 [("last_policy advanced modulo policy_count", "RoundRobin::getIndex"), ("last_policy starts at -1", "RoundRobin::RoundRobin")],
 [("last_policy", "last policy chosen", "RoundRobin::last_policy")], ["RoundRobin::getIndex"])

prop("C03", "The Static model always selects the configured policy",
 "A Static model configured with policy=P selects P on every call when 0 <= P < N; when no policy is given, or P >= N, it selects policy 0 on every call; a negative P is rejected when the model is created. No features, measurement or training changes its choice.",
 ["inputs", "configurations", "histories"], "all integers P, all N >= 1, all call sequences",
 "the simple test prints PASSED whatever policy is chosen",
 ["src/ModelFactory.cpp", "src/models/Static.cpp", "include/apollo/models/Static.h"],
 [("policy parameter parsed, range-checked and clamped", "ModelFactory::createPolicyModel"), ("constant choice", "Static::getIndex")],
 [("policy_choice", "the fixed policy", "Static::policy_choice")], ["ModelFactory::createPolicyModel", "Static::getIndex"])

prop("C04", "Measurements accumulate per (features, policy) as a moving average",
 "Recording a metric m for a (feature vector, policy) pair not yet in a dataset stores m; recording it for a pair already stored with value v replaces v by 0.5*v + 0.5*m. Every other pair keeps its presence and value, the dataset size is the number of distinct pairs recorded since it was last cleared, listing a dataset yields every pair exactly once with its stored value, and merging one dataset into another (a different one) has the effect of recording each of its entries once. (No feature is NaN.)",
 ["inputs", "histories"], "all datasets (any number of entries), all feature vectors, policies and metrics, all insertion sequences",
 "no test inspects a dataset; frame conditions quantify over all other keys",
 ["src/Dataset.cpp", "include/apollo/Dataset.h"],
 [("lookup then emplace or average", "Dataset::insert(features, policy, metric)"), ("entry-by-entry merge", "Dataset::insert(Dataset&)"), ("listing in key order", "Dataset::toVectorOfTuples")],
 [("data", "map (features, policy) -> averaged metric", "Dataset::data")], ["Dataset::size", "Dataset::toVectorOfTuples", "Dataset::insert"])

prop("C05", "Training labels are the fastest measured policy per feature vector",
 "Reducing a dataset to training labels yields exactly one label for every distinct feature vector in it and none for any other; the label is the policy with the smallest stored metric for those features (the lowest policy index on ties). The feature list, the label list and the features-to-(policy, metric) map agree entry by entry, and a DatasetMap model trained on the dataset chooses exactly that label for each recorded feature vector. (No feature is NaN.)",
 ["inputs", "histories"], "all datasets: any number of entries, feature vectors, policies, metrics",
 "the tests only see the end-to-end effect for 4 features x 4 policies with well separated timings",
 ["src/Dataset.cpp", "src/models/DatasetMap.cpp"],
 [("min-reduction over the sorted map", "Dataset::findMinMetricPolicyByFeatures"), ("lookup of the reduced map", "DatasetMap::train, DatasetMap::getIndex")],
 [("best_policies", "features -> (policy, metric)", "DatasetMap::best_policies")], ["Dataset::findMinMetricPolicyByFeatures", "DatasetMap::getIndex"])

prop("C06", "Storing and loading a dataset reproduces it exactly",
 "Writing any dataset with Dataset::store and reading the text back with Dataset::load into an empty dataset gives the same set of (features, policy) pairs with exactly the same feature and metric values, for any number of entries and any number of features per entry (finite, non-subnormal values).",
 ["inputs", "histories"], "all datasets with finite non-subnormal values, any entry count, any feature count",
 "no test stores or loads a dataset; equality is over all values and sizes",
 ["src/Dataset.cpp", "src/helpers/Parser.cpp"],
 [("text format writer", "Dataset::store"), ("text format reader", "Dataset::load"), ("tokenizer and number parsing", "Parser")],
 [("data", "map (features, policy) -> averaged metric", "Dataset::data")], ["Dataset::store", "Dataset::load", "APOLLO_PERSISTENT_DATASETS"])

prop("C07", "A trained decision tree reproduces its training data up to its depth",
 "A tree trained on samples with one label per distinct feature vector has depth at most max_depth, every training sample is routed by prediction to a leaf whose training samples it belonged to, and each leaf predicts the most frequent label among its samples (the lowest on ties). In particular, when max_depth is at least the number of distinct feature vectors minus one, the tree predicts for every training feature vector exactly its label.",
 ["inputs", "configurations"], "all non-empty training sets with finite features and consistent labels, all max_depth",
 "apollo-test covers one 1-feature, 4-class set (and fails at the pinned commit)",
 ["src/models/impl/DecisionTreeImpl.cpp", "src/models/impl/DecisionTreeImpl.h"],
 [("recursive construction", "DecisionTreeImpl::build_tree"), ("split selection, threshold between the two sides", "DecisionTreeImpl::split"), ("majority label", "DecisionTreeImpl::Node::Node"), ("class counts and Gini impurity", "DecisionTreeImpl::get_count_per_class, compute_gini"), ("routing", "DecisionTreeImpl::evaluate_tree")],
 [("root / Node", "the tree", "DecisionTreeImpl::root"), ("data", "training samples, permuted in place", "DecisionTreeImpl::data")], ["DecisionTreeImpl::predict", "DecisionTree::getIndex"])

prop("C08", "Tree and forest models explore until trained, then use the classifier",
 "Until it is trained or loaded, a DecisionTree or RandomForest model reports itself trainable and returns exactly what its exploration model chooses; training it or loading a model file makes it non-trainable, and from then on every choice is the prediction of the classifier for the given features and the exploration model is never consulted again. Training uses the labels reduced from the dataset it is given.",
 ["histories", "inputs"], "all sequences of choose / train / load on either model kind, all features",
 "one sequence (explore, train once, use) of one model kind is tested, and it fails at the pinned commit",
 ["src/models/DecisionTree.cpp", "src/models/RandomForest.cpp"],
 [("trainable flag", "DecisionTree::train/load/getIndex/isTrainable, RandomForest::train/load/getIndex/isTrainable")],
 [("trainable", "still exploring", "DecisionTree::trainable, RandomForest::trainable")], ["DecisionTree::getIndex", "RandomForest::getIndex", "isTrainable"])

prop("C09", "Saving and loading a tree or forest preserves every prediction",
 "A decision tree or random forest that has been trained, saved to a file and loaded back into a model predicts the same class as the original for every feature vector (features, and the training features its thresholds come from, finite and not subnormal).",
 ["inputs", "histories"], "all trained trees and forests (any shape, thresholds, classes), all feature vectors",
 "no test saves or loads a model",
 ["src/models/impl/DecisionTreeImpl.cpp", "src/models/impl/RandomForestImpl.cpp", "src/helpers/Parser.cpp", "src/helpers/OutputFormatter.h"],
 [("writer", "DecisionTreeImpl::output_tree/output_node, RandomForestImpl::output_rfc"), ("reader", "DecisionTreeImpl::parse_tree/parse_node/parse_data, RandomForestImpl::parse_rfc")],
 [("Node", "tree node fields", "DecisionTreeImpl::Node")], ["DecisionTreeImpl::save/load", "RandomForestImpl::save/load"])

prop("C10", "A random forest is a majority vote over trees built from the training data",
 "Training a forest replaces whatever trees it had by exactly the configured number of trees, each built from as many samples as the training set has, every one of them a (features, label) pair of the training set. A forest's prediction is the class that most of its trees predict, the lowest such class on ties.",
 ["inputs", "histories", "configurations"], "all training sets, all numbers of trees and classes, all features, repeated training",
 "no test runs RandomForest",
 ["src/models/impl/RandomForestImpl.cpp"],
 [("bootstrap sampling", "RandomForestImpl::train, RandomForestImpl constructors"), ("vote", "RandomForestImpl::predict")],
 [("rfc", "the trees", "RandomForestImpl::rfc")], ["RandomForestImpl::train", "RandomForestImpl::predict"])

prop("C11", "Each region execution is recorded exactly once under its features and policy",
 "Every begin/end pair of a region advances the region's execution index and the global execution count by exactly one and, when the region's model is trainable or datasets are persistent, records exactly one measurement whose key is the features set since that begin together with the policy last chosen for that execution and whose value is the metric of that execution; otherwise it records nothing. Features never leak from one execution into the next.",
 ["histories", "inputs", "configurations"], "all interleavings of begin/setFeature/getPolicyIndex/end calls that follow the API, all features, metrics, models",
 "the tests never look at the dataset or the counters",
 ["src/Region.cpp", "include/apollo/Region.h"],
 [("context creation clears features", "Region::createRegionContext"), ("index and timer start", "Region::begin"), ("recording", "Region::collectContext"), ("policy stored in context", "Region::getPolicyIndex")],
 [("idx", "executions begun", "Region::idx"), ("region_executions", "executions ended, all regions", "Apollo::region_executions"), ("dataset", "measurements", "Region::dataset")], ["Region::dataset", "Region::idx", "exit message of ~Apollo"])

prop("C12", "Automatic training happens exactly when its trigger says so",
 "After each recorded execution of a region whose model is trainable: if a global period G is set and the total number of executions is a multiple of G, all regions are trained; otherwise if a per-region period R is set and the region's execution count is a multiple of R, that region is trained; otherwise if a minimum M > 0 of training data is set and the region's dataset holds at least M entries, that region is trained; in all other cases nothing is trained. A region is never trained on an empty dataset, nor, with one model per region, when its model is not trainable unless forced. Periods are non-negative.",
 ["histories", "configurations"], "all settings of G, R, M, all counter values and dataset sizes",
 "no test sets any trigger",
 ["src/Region.cpp", "src/Apollo.cpp"],
 [("trigger evaluation", "Region::autoTrain"), ("guards", "Region::train"), ("train all", "Apollo::train")],
 [("min_training_data", "M", "Region::min_training_data")], ["Region::train", "APOLLO_GLOBAL_TRAIN_PERIOD", "APOLLO_PER_REGION_TRAIN_PERIOD"])

prop("C13", "Model specification strings are parsed and applied exactly",
 "A specification 'Name,k1=v1,k2,...' selects model Name with exactly the listed parameters (text up to the first '=' is the key, the rest the value, a key without '=' has an empty value, the first occurrence of a key wins); a key the model does not define aborts. Parameters reach the model they configure and omitted ones take the documented defaults (max_depth 2, num_trees 10, explore RoundRobin, lr 0.01, beta 0.5, beta1 0.5, beta2 0.9).",
 ["inputs", "configurations"], "all specification strings, all parameter subsets",
 "the tests use two fixed strings",
 ["src/Region.cpp", "src/ModelFactory.cpp"],
 [("parser", "Region::parsePolicyModel"), ("key validation", "validate"), ("parameter wiring", "ModelFactory::createPolicyModel")],
 [("model_name, model_params", "parsed specification", "Region")], ["Region::model_name", "Region::model_params", "ModelFactory::createPolicyModel"])

prop("C14", "The synchronous timer measures elapsed monotonic seconds",
 "After start and then stop, the metric reported by the synchronous timer is the monotonic-clock time of the last stop minus that of the last start, in seconds including the sub-second part; it is always available, and reading it changes nothing.",
 ["inputs", "histories"], "all clock readings, all start/stop/read sequences",
 "tests cannot control the clock; they see a few wall-clock intervals",
 ["src/timers/TimerSync.cpp", "src/timers/TimerSync.h"],
 [("clock readings", "TimerSync::start, TimerSync::stop"), ("difference", "TimerSync::isDone")],
 [("exec_time_begin, exec_time_end", "seconds", "TimerSync")], ["Timer::isDone"])

prop("C15", "PolicyNet's network computes its layers exactly and never goes stale",
 "For every batch size, layer sizes and parameter values, a fully connected layer's output for a sample is its weight matrix times that sample plus bias, independent of the other samples in the batch and of earlier calls, ReLU is applied element-wise, and the backward pass accumulates the matching gradients, all without touching memory outside the arrays. Action probabilities used for a choice are those of the current network: none computed before the latest training or loading of that model is reused.",
 ["inputs", "histories"], "all sizes, batch sizes, parameter values, call histories",
 "no test runs PolicyNet",
 ["src/models/PolicyNet.cpp"],
 [("layer forward/backward/step", "FCLayer"), ("activation", "ReLU, Softmax"), ("probability cache", "PolicyNet::getIndex, train, load")],
 [("actionProbabilityMap", "cache keyed by encoded features", "PolicyNet")], ["PolicyNet::getIndex"])

prop("C16", "Collective training adds exactly the other ranks' measurements",
 "In collective training every measurement packed by a rank is recovered by every other rank with the same features, policy, region name and metric, is recorded once in the receiving rank's region of that name if it exists, and a rank's own measurements are not recorded again. The computed message size covers everything packed. (Each measurement has as many features as its region declares.)",
 ["inputs", "histories", "configurations"], "all rank counts, regions, datasets",
 "the MPI tests run local training only",
 ["src/Apollo.cpp"],
 [("packing", "get_mpi_pack_measure_size, packMeasurements"), ("exchange and unpacking", "Apollo::gatherCollectiveTrainingData")],
 [("dataset", "measurements", "Region::dataset")], ["Region::dataset after Apollo::train"])

prop("C17", "The Kokkos connector maps policies to candidate values one to one",
 "For tuning variables with non-empty finite integer candidate ranges (positive step) or sets, every candidate offered lies within the declared range or set, every value of the range that is reachable from its first admissible value in whole steps is offered, and the mapping from policy index to the tuple of chosen candidates is a bijection between 0..N-1 and the product of the candidate sets.",
 ["inputs"], "all integer ranges (open or closed ends, any positive step), all candidate set sizes, all policy indices",
 "the connector is compiled but no test calls it",
 ["src/connectors/kokkos/kokkos-connector.cpp"],
 [("range counting", "count_range_slices"), ("range expansion", "form_set_from_range"), ("mixed-radix decoding", "kokkosp_request_values")],
 [("candidate_values, candidate_set_size", "declared candidates", "VariableDatabaseData")], ["kokkosp_request_values"])

prop("C18", "Contradictory configurations are rejected at start-up",
 "The runtime starts only when exactly one of collective and local training and exactly one of single-model and per-region modelling is enabled, and never with collective training in a build without MPI; it aborts otherwise. Every documented setting takes the value given in its environment variable, or its default when unset: local training, one model per region, no training periods or minimum, model 'Static,policy=0', output directory .apollo with datasets, traces and models below it, retraining thresholds 2.0 (time) and 0.5 (region), and every trace and store option off.",
 ["configurations"], "all combinations of settings",
 "the tests unset every APOLLO_* variable",
 ["src/Apollo.cpp", "src/Config.cpp"],
 [("settings and checks", "Apollo::Apollo")], [("Config::*", "settings", "Config")], ["Apollo::instance"])

prop("C19", "Reading a model or dataset file never leaves the token buffer",
 "Whatever the text being read (no NUL characters), each token delivered by the parser is exactly the next maximal run of non-whitespace characters outside '#' comment lines, and the parser never writes outside its fixed token buffer: a run too long for it, or cut off by the end of the text, may stop the program instead.",
 ["inputs"], "all input texts",
 "no test reads a file; the input space is unbounded",
 ["src/helpers/Parser.cpp", "src/helpers/Parser.h"],
 [("tokenizer", "Parser::getNextToken"), ("number consumption", "Parser::parse")], [("buffer, token", "current token", "Parser")], ["Parser::getNextToken"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
