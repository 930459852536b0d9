#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids, titles, statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

prop("P01", "Population bound and numerosity accounting",
 "After every completed learning or prediction call the summed numerosity of all rules never exceeds the configured maximum, every rule has numerosity of at least one, and the reported macro and micro counts equal what is actually in the population. "
 "Between two observations total numerosity changes only by covering, offspring insertion and deletion: set subsumption and updates conserve it, each offspring adds exactly one, and deletion removes copies only while the limit is exceeded. "
 "No rule is ever lost, duplicated or left in a match or action set after it has been removed.",
 ["inputs", "histories", "configurations"],
 "every sequence of fit/predict/score/RL calls, every parameter setting (population size, subsumption, covering pressure, offspring count) and every random seed",
 "the unit tests run single operators on hand-made sets and the Python tests only check end metrics; none checks counts across a long history or at the limit",
 ["xcsf/clset.c", "xcsf/ea.c", "xcsf/cl.c"],
 [("set add / validate / enforce-limit", "clset.c: clset_add, clset_validate, clset_pset_enforce_limit, clset_pset_del"), ("offspring insertion", "ea.c: ea_add, ea_subsume")],
 [("pset.size, pset.num", "macro and micro counts of the population", "xcsf.h: struct Set"), ("num", "numerosity of a rule", "xcsf.h: struct Cl")],
 ["return of each matching, update, evolutionary and trial operation"])

prop("P02", "Match set is exactly the matching rules, and match counters are exact",
 "For every input the match set contains precisely those rules of the population whose condition is satisfied by the input, each once, for interval, ellipsoid, ternary, tree, graph, neural and always-match conditions alike. "
 "Every rule tested has its seen-samples counter raised by exactly one and its matched-samples counter raised by one exactly when it matched, in training, validation and prediction alike; the running mean match-set size and generality statistic follow their definitions. "
 "Testing a match changes nothing else about a rule.",
 ["inputs", "histories", "configurations"],
 "every input vector (boundaries included), every condition representation, every population reached by a run",
 "tests try a handful of inputs per condition type, mostly interior points, and never compare the whole set with the rules' conditions over a run",
 ["xcsf/clset.c", "xcsf/cl.c", "xcsf/cond_rectangle.c", "xcsf/cond_ellipsoid.c", "xcsf/cond_ternary.c", "xcsf/cond_gp.c", "xcsf/cond_dgp.c", "xcsf/cond_neural.c", "xcsf/cond_dummy.c"],
 [("match set construction", "clset.c: clset_match"), ("counters", "cl.c: cl_match"), ("condition semantics", "cond_*.c: cond_*_match")],
 [("age / mtotal", "samples seen / matched", "xcsf.h: struct Cl"), ("mset_size, mfrac", "running statistics", "xcsf.h: struct XCSF")],
 ["return of matching"])

prop("P03", "Covering creates exactly the rules needed, and they match",
 "Whenever covering is enabled and some action is advocated by no matching rule, matching ends with every action advocated by at least one matching rule, and a new rule is created only for an action that was missing. "
 "Each new rule matches the input that triggered it, advocates the missing action, and starts with numerosity one, no experience, the configured initial error and fitness, the current time and a set-size estimate of the match set. "
 "When nothing is missing, or covering is disabled, no rule is created or removed.",
 ["inputs", "histories", "configurations"],
 "every input, number of actions, population limit (including limits that force deletions inside covering) and condition/action representation",
 "tests cover single condition operators; no test drives covering at the population limit or with several actions",
 ["xcsf/clset.c", "xcsf/cl.c", "xcsf/rule_dgp.c", "xcsf/rule_neural.c", "xcsf/act_integer.c", "xcsf/act_neural.c"],
 [("covering loop", "clset.c: clset_cover, clset_action_coverage"), ("rule covering", "cl.c: cl_cover; cond_*_cover; act_*_cover")],
 [("mset", "match set", "xcsf.h: struct XCSF")], ["return of matching"])

prop("P04", "System prediction is the fitness-weighted mean and actions follow it",
 "For every input and action the system prediction equals the mean of the predictions of the matching rules advocating that action weighted by their fitness, and is zero for an action nobody advocates. "
 "The greedy choice always is an action of maximal prediction, the explored choice always is an action advocated by some matching rule, exploration happens only while exploring and with the configured probability, and ties and random choices are uniform. "
 "Every matching rule advocates a valid action, the one its action part (integer or network) says for the input.",
 ["inputs", "histories", "configurations"],
 "every input, number of actions and outputs, prediction/action representation and random seed",
 "tests check one two-action array; weighting over runs, ties, uncovered actions and selection frequencies are not checked",
 ["xcsf/pa.c", "xcsf/xcs_rl.c", "xcsf/act_integer.c", "xcsf/act_neural.c", "xcsf/rule_dgp.c", "xcsf/rule_neural.c"],
 [("prediction array", "pa.c: pa_build"), ("action choice", "pa.c: pa_best_action, pa_rand_action; xcs_rl.c: xcs_rl_decision")],
 [("pa, nr", "prediction array and fitness sums", "xcsf.h: struct XCSF")], ["return of prediction-array construction and of a decision"])

prop("P05", "Rule reinforcement follows the XCSF update equations",
 "When a set of rules is reinforced with a target, each member's experience rises by one and its error and set-size estimates move by the exact sample mean while it is inexperienced and by the learning rate afterwards, the error being the configured loss between the rule's own prediction and the target. "
 "Each member's fitness then moves by the learning rate towards its share of the set's numerosity-weighted relative accuracy, accuracy being one up to the target error and the power-law value beyond it. "
 "No rule outside the set is changed, and nothing is reinforced during prediction, scoring or validation.",
 ["inputs", "histories", "configurations"],
 "every set reached by a run, every target, loss, learning rate, target error and accuracy parameter",
 "tests check two hand-made updates; regimes (inexperienced/experienced, accurate/inaccurate, numerosity above one) are not crossed",
 ["xcsf/clset.c", "xcsf/cl.c"],
 [("update", "cl.c: cl_update, cl_acc, cl_update_fit; clset.c: clset_update, clset_update_fit")],
 [("err, fit, exp, size", "rule statistics", "xcsf.h: struct Cl")], ["return of set update"])

prop("P06", "Deletion picks victims by the deletion policy",
 "While rules exist that have never matched within their probation, deletion removes only such rules; otherwise a victim is drawn with probability proportional to its set-size estimate times numerosity, scaled up by the mean fitness over its own fitness for sufficiently experienced rules whose fitness is a small fraction of the mean. "
 "When compaction is enabled and the system error is below target, the structurally larger of two such draws is removed. "
 "Each deletion removes one copy, and a rule disappears from the population exactly when its last copy is removed.",
 ["inputs", "histories", "configurations"],
 "every population over its limit, every deletion parameter, every draw",
 "no test checks deletion frequencies or the never-matched priority",
 ["xcsf/clset.c", "xcsf/cl.c"],
 [("deletion", "clset.c: clset_pset_never_match, clset_pset_roulette, clset_pset_del; cl.c: cl_del_vote")],
 [("size, num, fit, exp, age, mtotal", "vote inputs", "xcsf.h: struct Cl")], ["return of limit enforcement, matching and evolutionary steps"])

prop("P07", "The evolutionary algorithm triggers and breeds as specified",
 "Each reinforcement of a set during exploration advances the system clock by one, and breeding happens exactly when the numerosity-weighted mean time since the set's members last bred reaches the configured threshold; the members' time stamps are then reset and no other rule's are. "
 "The two parents come from the set with the configured fitness-based selection probabilities, the configured number of offspring is produced, and every offspring starts with numerosity one, no experience, the parents' set-size estimate and time, and the reduced (averaged if recombined) parental error and per-copy fitness. "
 "An offspring the operators left unmodified becomes an extra copy of its parent, and a modified one is inserted unless subsumed.",
 ["inputs", "histories", "configurations"],
 "every set and clock value, threshold, offspring count, selection type, crossover probability, reduction factor and seed",
 "the EA test runs one invocation on a two-rule population and only checks counts",
 ["xcsf/ea.c", "xcsf/clset.c", "xcsf/cl.c"],
 [("EA", "ea.c: ea, ea_select*, ea_init_offspring, ea_add"), ("clock", "clset.c: clset_mean_time, clset_set_times")],
 [("time", "system clock / last EA time", "xcsf.h")], ["return of the evolutionary step"])

prop("P08", "Subsumption only by accurate, experienced, more general rules",
 "A rule is absorbed (by set subsumption or at insertion of offspring) only by a rule that is sufficiently experienced, has error below the target, advocates the same action and is at least as general: for interval and ternary conditions it accepts every input the absorbed rule accepts, and for ellipsoids it contains the ends of all axes of the absorbed ellipsoid. "
 "Set subsumption is done by a maximally general eligible rule, absorbs every member it generalises, and transfers exactly their numerosity; offspring subsumption adds exactly one copy, trying the offspring's own parent, then the other parent, then any eligible member of the set. "
 "With subsumption disabled nothing is absorbed.",
 ["inputs", "histories", "configurations"],
 "every pair of conditions of the same representation, every set reached by a run, every subsumption parameter",
 "tests check a few condition pairs for generality and never compare generality with acceptance of inputs",
 ["xcsf/clset.c", "xcsf/ea.c", "xcsf/cl.c", "xcsf/cond_rectangle.c", "xcsf/cond_ellipsoid.c", "xcsf/cond_ternary.c", "xcsf/act_integer.c"],
 [("eligibility", "cl.c: cl_subsumer, cl_general"), ("absorption", "clset.c: clset_subsumption; ea.c: ea_subsume")],
 [], ["return of set update and evolutionary step"])

prop("P09", "Genetic operators keep conditions valid and only recombine or perturb",
 "Covering, random creation, crossover, mutation and condition learning always leave interval, ellipsoid and ternary conditions well formed: centres and bounds produced by creation and mutation lie in the configured input range, spreads stay positive, ternary strings keep their length and alphabet, and self-adaptive mutation rates stay in their legal range. "
 "Crossover of two offspring only exchanges genes at the same position, so the two together carry exactly the parents' genes, and happens with the configured probability. "
 "An operator reports no change only if the rule's genotype is unchanged, and copies share no state with their originals.",
 ["inputs", "histories", "configurations"],
 "every genotype reachable by operator sequences, every range/spread/probability setting",
 "tests call each operator once or twice on one genotype",
 ["xcsf/cond_rectangle.c", "xcsf/cond_ellipsoid.c", "xcsf/cond_ternary.c", "xcsf/act_integer.c", "xcsf/sam.c", "xcsf/cl.c"],
 [("operators", "cond_*_{init,cover,copy,crossover,mutate,update}"), ("rates", "sam.c")],
 [], ["return of each operator"])

prop("P10", "Tree and graph rules stay well formed and compute their definition",
 "Every tree condition reachable by creation, crossover and mutation is a complete prefix expression within its size limits over the configured inputs, constants and functions, and its value for any input is the value of that expression; the rule matches exactly when it exceeds one half. "
 "Every dynamical graph keeps a legal number of functions, states, connections, cycle count and node functions, its next states follow from the fuzzy-logic node functions applied synchronously for the node cycle count, and it resets to its initial states before an input unless configured to be stateful. "
 "Graph rules advocate the action encoded by their action nodes.",
 ["inputs", "histories", "configurations"],
 "every genotype reachable by operator sequences and every input sequence",
 "tests evaluate one hand-written tree and one hand-written graph",
 ["xcsf/gp.c", "xcsf/dgp.c", "xcsf/cond_gp.c", "xcsf/cond_dgp.c", "xcsf/rule_dgp.c"],
 [("trees", "gp.c: tree_eval, tree_crossover, tree_mutate"), ("graphs", "dgp.c: graph_update, graph_mutate")],
 [], ["return of matching and of each operator"])

prop("P11", "Constant, linear and quadratic predictors compute and learn as defined",
 "A constant predictor returns its stored value and learns by the sample mean while inexperienced and by the learning rate afterwards; linear and quadratic predictors return the weighted sum over offset, inputs and (for quadratic) all input products. "
 "Normalised least-mean-squares moves each weight by the learning rate times the output error times its feature over the squared feature norm plus offset; recursive least squares updates weights and gain matrix by its recurrence. "
 "A predictor's outputs depend only on its own weights and the input, each output dimension independently, and learning rates stay within their configured range.",
 ["inputs", "histories", "configurations"],
 "every input/target sequence, dimension, polynomial type and parameter setting",
 "tests check single steps on one input each",
 ["xcsf/pred_constant.c", "xcsf/pred_nlms.c", "xcsf/pred_rls.c", "xcsf/prediction.c"],
 [("predictors", "pred_*_{compute,update,mutate,copy}")],
 [], ["return of prediction and update"])

prop("P12", "Neural networks propagate, learn and restructure consistently",
 "The output of a network for any input is the composition of its layers' definitions (fully connected, dropout, noise, softmax, recurrent, LSTM, convolutional, pooling, upsampling), with dropout and noise inactive outside training and acting with their configured probability and strength in training, and recurrent layers keeping their memory from one input to the next. "
 "A gradient step of a feed-forward network moves every active weight and bias of trainable layers along the negative gradient of the squared output error with the configured rate, momentum and decay, and leaves non-trainable layers unchanged; errors pass through softmax layers unaltered. "
 "Growth, shrinkage, connection and weight mutation change only what a layer's options allow, keep layers dimensionally consistent, within their configured limits and finite, keep the weights of the connections that remain in a fully connected layer, and report whether anything changed. "
 "Copies have the same weights, structure and mutation rates and start with no pending updates and cleared memory; saved networks restore exactly, memory and pending updates included. "
 "Inserting a hidden layer into the prediction networks, or exchanging their last layers for class outputs, keeps every other layer as it was, and all rules of the model, those created later included, then have networks whose outputs fit the model.",
 ["inputs", "histories", "configurations"],
 "every architecture of the supported layers, every input/target sequence and every sequence of evolutionary operators",
 "tests check single layers with one fixed input",
 ["xcsf/neural.c", "xcsf/neural_layer_connected.c", "xcsf/neural_layer_recurrent.c", "xcsf/neural_layer_lstm.c", "xcsf/neural_layer_convolutional.c", "xcsf/neural_layer_maxpool.c", "xcsf/neural_layer_avgpool.c", "xcsf/neural_layer_upsample.c", "xcsf/neural_layer_softmax.c", "xcsf/neural_layer_dropout.c", "xcsf/neural_layer_noise.c", "xcsf/neural_activations.c", "xcsf/pred_neural.c", "xcsf/xcsf.c"],
 [("forward/backward/update/mutate/resize", "neural_layer_*.c")],
 [], ["return of propagate, learn, mutate, copy"])

prop("P13", "Multi-step credit assignment reinforces the right set with the right target",
 "In a sequence of decision and update steps, each non-final step reinforces exactly the rules that matched the previous state and advocated the action taken there, with the previous reward plus the discounted best current prediction, and the final step additionally reinforces the current action set with the final reward alone. "
 "Single-step training calls reinforce exactly the matching rules advocating the given action with the given reward. "
 "No credit crosses trial boundaries, breeding happens only when exploring, and the reported per-step error and running system error follow their definitions.",
 ["inputs", "histories", "configurations"],
 "every sequence of trials of any length, states, actions, rewards, discount factors, including deletions of rules between steps",
 "the RL tests check end performance on one environment",
 ["xcsf/xcs_rl.c", "xcsf/clset.c", "xcsf/pybind_wrapper.cpp"],
 [("RL loop", "xcs_rl.c")],
 [("prev_aset, prev_reward, prev_pred, prev_state", "memory of the previous step", "xcsf.h")], ["return of each RL call"])

prop("P14", "Built-in environments implement their problems",
 "In maze problems the percept is the encoding of the eight surrounding cells on a torus, moves displace the agent by one cell in the chosen direction unless blocked, food or goal ends the trial with the maximal reward and any other move yields none, and each trial restarts on a free cell. "
 "In (real) multiplexer problems a state is a vector in the unit interval of k address and 2^k data inputs, k being the largest that fits the given size, an input above one half counting as one; the reward is maximal exactly when the action equals the addressed data bit and zero otherwise, and every trial is one step. "
 "Mazes larger than the supported size are refused and data-file problems present exactly the rows and columns of the files, whatever their line lengths, line ends or a missing final newline.",
 ["inputs", "histories", "configurations"],
 "every maze file, position and action; every multiplexer size and state; every data file",
 "tests check one maze cell, one multiplexer state",
 ["xcsf/env_maze.c", "xcsf/env_mux.c", "xcsf/env_csv.c"],
 [("environments", "env_*.c")], [], ["return of each environment call"])

prop("P15", "Saved and pickled models restore to the same model",
 "Saving a model to a file (or pickling it) and loading it into a fresh or an already used instance restores every parameter, the whole population in order and the counters that are part of the model, so that the restored model gives the same predictions and exports the same description as the saved one. "
 "This holds for every condition, prediction and action representation and any stage of training, and saving does not alter the saved model. "
 "A restored model continues to learn without error.",
 ["inputs", "histories", "configurations"],
 "every configuration of representations and parameters, every training history before and after",
 "tests save and load single default configurations",
 ["xcsf/xcsf.c", "xcsf/param.c", "xcsf/clset.c", "xcsf/cl.c", "xcsf/cond_*.c", "xcsf/pred_*.c", "xcsf/neural*.c", "xcsf/gp.c", "xcsf/dgp.c", "xcsf/pybind_wrapper.cpp"],
 [("serialisation", "*_save / *_load; pybind_wrapper.cpp: serialize/deserialize")],
 [], ["return of save and load"])

prop("P16", "Stored populations are independent snapshots restored unchanged",
 "Storing the population takes an independent copy of every rule (condition, action, prediction and statistics; not a learner's working memory such as momentum or an RLS gain matrix): later training does not affect it. "
 "Retrieving replaces the current population by the stored one, so predictions are those the model gave when it was stored, and consumes it; retrieving with nothing stored changes nothing and storing again replaces the earlier snapshot. "
 "This holds for every rule representation and any interleaving of training, storing and retrieving.",
 ["inputs", "histories", "configurations"],
 "every interleaving of fit/store/retrieve/predict and every representation",
 "one Python test stores and retrieves once",
 ["xcsf/xcsf.c", "xcsf/cl.c"],
 [("store/retrieve", "xcsf.c: xcsf_store_pset, xcsf_retrieve_pset; cl.c: cl_init_copy; *_copy")],
 [], ["return of store and retrieve"])

prop("P17", "JSON population export and import agree with the rules",
 "The exported description of a population lists every rule once, in order, with its exact statistics, condition, action and prediction content. "
 "Inserting an exported population into an empty model of the same configuration gives rules with the same statistics, conditions, actions and predictions, hence the same behaviour, to the precision of the text format and for every representation that can be imported, in the order they were exported; inserting further rules keeps existing ones untouched and never leaves the population over its limit. "
 "A population file given at construction is loaded the same way.",
 ["inputs", "histories", "configurations"],
 "every population and representation",
 "tests import one hand-written classifier per representation",
 ["xcsf/clset.c", "xcsf/cl.c", "xcsf/cond_*.c", "xcsf/pred_*.c", "xcsf/act_*.c", "xcsf/rule_*.c"],
 [("export/import", "*_json_export / *_json_import")], [], ["return of export and insert"])

prop("P18", "Parameters are validated, reported and restored faithfully",
 "Every parameter set by constructor, parameter dictionary, setter, or JSON takes exactly the given value if legal; an illegal value never takes effect (it is rejected with an error, or replaced by the nearest legal value with a warning); unset parameters keep their documented defaults. "
 "What the model reports (internal parameters, JSON export) is what is in effect, and importing an exported description reproduces it. "
 "Setting one parameter changes no other. The same holds for the layers of every configured network, and all rules see all inputs in whatever order parameters are given.",
 ["inputs", "histories", "configurations"],
 "every parameter, legal and illegal value, and order of setting",
 "tests set a few parameters",
 ["xcsf/param.c", "xcsf/ea.c", "xcsf/condition.c", "xcsf/prediction.c", "xcsf/action.c", "xcsf/neural_layer_args.c", "xcsf/pybind_wrapper.cpp"],
 [("setters", "param_set_*, ea_param_set_*, cond_param_set_*, pred_param_set_*, action_param_*"), ("JSON", "param_json_export / import")],
 [], ["return of every setter and export"])

prop("P19", "Runs are reproducible from the seed, whatever the thread count",
 "Two models built with the same parameters and the same non-negative seed and driven by the same calls produce identical populations, predictions and metrics, regardless of what ran earlier in the process and of the configured number of threads. "
 "Different seeds give different runs. ",
 ["inputs", "histories", "configurations", "schedules"],
 "every call sequence, every number of threads and interleaving of parallel loops, every earlier history of the process",
 "one Python test repeats one default configuration",
 ["xcsf/utils.c", "xcsf/clset.c", "xcsf/pa.c", "xcsf/pybind_wrapper.cpp"],
 [("seeding", "utils.c: rand_init_seed; rand_normal"), ("parallel loops", "clset.c, pa.c")], [], ["after each call"])

prop("P20", "Training visits the requested samples and reports true metrics",
 "A fit call performs the configured number of trials, presenting training rows in order and wrapping around (or uniformly at random when shuffling), and continues the count across epochs; warm start keeps population and counters while a cold start begins from a fresh population and time. "
 "The recorded metrics per epoch are the trial count, the mean loss of the system's prediction before learning over the epoch's samples, validation loss over the validation data, population sizes and statistics at the epoch's end, and the running system error is the exponential average of trial losses. "
 "Score returns the mean loss over exactly the given rows or the requested number of sampled rows.",
 ["inputs", "histories", "configurations"],
 "every data set size, trial and epoch count, warm/cold sequence, shuffle setting",
 "tests check that a fit runs and metrics exist",
 ["xcsf/xcs_supervised.c", "xcsf/pybind_wrapper.cpp"],
 [("fit loop", "xcs_supervised.c: xcs_supervised_fit; pybind_wrapper.cpp: fit, update_metrics")], [], ["each trial and end of fit"])

prop("P21", "Early stopping and checkpoints act exactly when they should",
 "Early stopping ends training at the first epoch at which the monitored metric has not improved by more than the minimum delta for more trials than the patience, counted only after the start-from trial, and never before; with restoring enabled the population in effect afterwards is the one of the best epoch. "
 "The checkpoint callback writes a loadable model file exactly at epochs where its saving interval has elapsed (and, when saving only the best, only if the monitored metric improved), containing the model at that epoch; when saving not only the best, the final model is saved at the end. "
 "Both treat lower metric values as better and leave training otherwise unchanged, apart from the random numbers drawn to keep a copy.",
 ["inputs", "histories", "configurations"],
 "every metric sequence, patience, delta, start, frequency and restore setting",
 "tests check that callbacks run once",
 ["xcsf/pybind_callback_earlystop.h", "xcsf/pybind_callback_checkpoint.h", "xcsf/pybind_wrapper.cpp"],
 [("callbacks", "pybind_callback_*.h: run, finish")], [], ["each epoch and end of fit"])

prop("P22", "Predicting and scoring never change the learned model",
 "Predict, score and validation leave every rule's condition, action, prediction parameters, error, fitness, numerosity, experience, set size and time unchanged and neither reinforce nor breed; with a default prediction supplied they also create and delete no rule, and inputs matched by no rule then receive exactly that default. "
 "Each predicted row depends only on that row and the model: predicting rows together, apart or again gives the same values. "
 "Predictions have one row per input and one value per output and action.",
 ["inputs", "histories", "configurations"],
 "every trained model, every batch and order of inputs",
 "tests predict once after training",
 ["xcsf/xcs_supervised.c", "xcsf/pybind_wrapper.cpp", "xcsf/pa.c"],
 [("exploit trials", "xcs_supervised.c: xcs_supervised_predict, xcs_supervised_score")], [], ["return of predict and score"])

prop("P23", "Loss functions equal their definitions",
 "For every prediction and target vector, mean absolute, mean squared, root mean squared, cross-entropy, binary cross-entropy, one-hot classification and Huber losses return the value of their definition averaged or summed over all outputs as documented. "
 "They are non-negative, zero for a perfect prediction (up to the logarithm's guard), finite for finite inputs, and the loss in use is the configured one.",
 ["inputs", "configurations"],
 "every pair of vectors of every dimension and every Huber delta",
 "tests check one vector per loss",
 ["xcsf/loss.c"],
 [("losses", "loss.c")], [], ["return of a loss evaluation"])

prop("P24", "Python data is read by value, and malformed data is rejected",
 "Fit, score, predict and the reinforcement calls use the numerical values of the given arrays whatever their memory layout, slicing or integer type, never modify them and never depend on them after the call returns. "
 "Arrays whose number of rows or columns does not fit the model are rejected with an error and leave the model unchanged and usable.",
 ["inputs", "histories", "configurations"],
 "every array shape, stride, order and dtype and every following use",
 "tests pass contiguous double arrays of the right shape only",
 ["xcsf/pybind_wrapper.cpp"],
 [("data import", "pybind_wrapper.cpp: load_input, predict, set_cover, decision, update")], [], ["return or exception of each Python call"])

prop("P25", "Memory is owned once, never used after release, and all returned",
 "No sequence of library calls (training, predicting, reinforcement, breeding, deletion, saving, loading, storing, retrieving, exporting, inserting, parameter setting, environments, networks) reads or writes memory it does not own or that was released. "
 "Every rule, network, tree, graph and buffer has one owner and is released exactly once: rules are released when deleted, replaced or rejected, and once a model, its parameters and its environment are freed nothing the calls allocated is left; repeating a Python call does not accumulate memory. "
 "Copies share no memory with their originals.",
 ["inputs", "histories", "configurations"],
 "every sequence of library calls, representation and configuration, on models released at the end",
 "tests run uninstrumented and never compare what was allocated with what was released",
 ["xcsf/clset.c", "xcsf/cl.c", "xcsf/ea.c", "xcsf/xcsf.c", "xcsf/param.c", "xcsf/cond_*.c", "xcsf/pred_*.c", "xcsf/act_*.c", "xcsf/rule_*.c", "xcsf/neural*.c", "xcsf/gp.c", "xcsf/dgp.c", "xcsf/env_*.c"],
 [("rule lifetime", "cl.c: cl_init, cl_free; clset.c: clset_kill, clset_free; ea.c: ea_subsume"), ("copies", "*_copy"), ("release", "xcsf.c: xcsf_free; param.c: param_free; env_*_free; neural_free")],
 [], ["end of each replayed history"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
