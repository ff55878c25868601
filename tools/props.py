EXH = ("Bounded-exhaustive: every history in the stated bounds is executed on the real code in /repo and compared step by step "
       "with an independent reference model; nothing is sampled. Outside the bounds no claim is made. Trusts: the reference model "
       "in /verif/mc, CPython, numpy/pandas/joblib. ")

prop("P01", "LCM: exactly the closed frequent itemsets, with exact supports",
     "For every transactional database and every absolute or relative minimum support, mining closed itemsets returns each closed "
     "itemset (one that no further item can extend without losing transactions) whose support reaches the threshold exactly once, and nothing else. "
     "The reported support is the number of transactions containing the itemset and the reported transaction ids are exactly those "
     "transactions, whatever the item type, the container format or repeated items in a transaction.",
     ["inputs", "configurations"], "all databases, item types, container formats and thresholds (absolute and relative)",
     "The tests mine three or four hand-written databases at one threshold; completeness, closedness and uniqueness quantify over all databases and thresholds.",
     ["skmine/itemsets/lcm.py", "skmine/utils.py"],
     "prefix-preserving closure extension over per-item bitmaps, min_supp conversion from relative to absolute",
     "bounded-exhaustive enumeration of databases x thresholds on the real miner against a closure-lattice reference",
     EXH + "Bounds: all sequences of transactions over 3 items, multisets over 4 items, structured families up to 131k transactions.")

prop("P02", "LCMMax: exactly the maximal frequent itemsets, with exact supports",
     "For every transactional database and every absolute or relative minimum support, mining maximal itemsets returns each frequent "
     "itemset without frequent proper superset exactly once, and nothing else, with its exact support and transaction ids.",
     ["inputs", "configurations"], "all databases, item types, container formats and thresholds",
     "Two tests check one database each; maximality must hold for every lattice shape.",
     ["skmine/itemsets/lcm.py", "skmine/utils.py"], "post-filter of closed itemsets through filter_maximal",
     "bounded-exhaustive enumeration of databases x thresholds on the real miner against a lattice reference",
     EXH + "Same enumeration as P01.")

prop("P03", "Frequent itemset miners: options are pure views, histories do not leak",
     "Transaction-id output, lexicographic ordering, maximum length, file output and number of jobs change only the presentation or the "
     "selection they document: the same itemsets with the same supports come out in memory and in the file, each filtered by length as documented. "
     "A miner can be refitted, re-parameterised and reused in any order, several miners can be alive at once, and no call modifies the caller's data or unrelated files.",
     ["inputs", "configurations", "histories"], "all option combinations and all call sequences on several live miners",
     "Tests try single options on one database, never their combinations nor sequences of calls.",
     ["skmine/itemsets/lcm.py", "skmine/base.py"], "transform options, per-job temporary output files, joblib parallelism",
     "exhaustive option product and all operation sequences up to a depth on the real miners against a reference model",
     EXH)

prop("P04", "SLIM: the fitted code table encodes the training data without loss",
     "After fitting on any database, in any accepted format and with any parameters (pruning, time limit, declared items, output file), every item "
     "occurrence of the training data is covered by exactly one itemset of the code table, and reconstructing from the code table gives back every transaction, in order. "
     "The discovered table lists itemsets contained in the transactions they are reported for.",
     ["inputs", "configurations"], "all databases, input formats and parameter settings",
     "Tests reconstruct one toy database; losslessness must hold for every database and for every point where the search stops.",
     ["skmine/itemsets/slim.py", "skmine/utils.py"], "code table of bitmaps, standard cover order, pruning, time limit",
     "bounded-exhaustive enumeration of databases x formats x parameters on the real code with an exact-cover oracle",
     EXH)

prop("P05", "SLIM: sizes are correctly accounted and compression never gets worse",
     "For every database the data and model sizes reported after fitting are those of the code table that is actually returned, computed from "
     "its usages. The code table is never larger in total than the one made of single items, it is in the documented order, and with pruning no itemset with zero usage other than single items is kept.",
     ["inputs", "configurations"], "all databases, pruning on and off",
     "Tests compare a few sizes on one dataset; the accounting is incremental and must agree with the definition after any search path.",
     ["skmine/itemsets/slim.py"], "incremental candidate evaluation, update of data_size_ and model_size_, pruning loop",
     "bounded-exhaustive enumeration of databases; reference MDL model recomputes cover and sizes of each result",
     EXH + "Sizes compared at relative 2e-4 (the code uses single precision).")

prop("P06", "SLIM: interactive insertion and refitting never corrupt the model",
     "From any state of an interactive session, evaluating any itemset gives the exact sizes and usages it would lead to and leaves the model unchanged; inserting it installs "
     "exactly these, and the code table still partitions the data. Candidates generated are unions of two used itemsets occurring together, best estimated gain first, without those already seen; fitting never accepts one "
     "that makes the total larger. A model that is fitted again, after any history of fits and queries, is equal to a fresh model "
     "fitted on the same data, and queries do not change the model.",
     ["histories", "inputs"], "all sequences of insertions, queries and refits",
     "Tests perform one insertion on one database; the property is about all reachable code tables.",
     ["skmine/itemsets/slim.py", "skmine/base.py"], "prefit/evaluate/update, cached supports, reset on fit",
     "explicit-state breadth-first search over reachable code tables of the real object, plus all operation sequences up to a depth",
     EXH + "States are canonical code tables; every transition is executed on the real object and checked against the reference model.")

prop("P07", "SLIM: covers and code lengths of new data follow the code table",
     "For any fitted model and any new transactions, the cover of a transaction uses non-overlapping itemsets of the code table contained in it, taken greedily in code table "
     "order, and leaves uncovered only what no remaining itemset can cover. Code lengths and decision values derive from the usages of that cover, "
     "and each row of the answer depends only on its own transaction and comes in the order of the input.",
     ["inputs"], "all models and all batches of new transactions, including unknown items",
     "Tests encode two or three transactions with one model.",
     ["skmine/itemsets/slim.py"], "cover in code table order, Laplace-smoothed code lengths",
     "bounded-exhaustive enumeration of models x all subsets of items as new data against a greedy-cover reference",
     EXH)

prop("P08", "SLIM classifier: predicts the class that compresses the transaction best",
     "The classifier learns one code table per class, from the transactions of that class only, and for every transaction predicts the label whose own code table gives "
     "the shortest code. The result does not depend on the batch in which a transaction is predicted, on the order of training rows or on the type of labels; the score is the fraction of correct predictions. "
     "SLIM itself, given a table and a binary target as one-vs-rest wrappers do, learns from the positive rows only.",
     ["inputs", "configurations", "histories"], "all training sets, label types, parameters, batches and refits",
     "Tests use one training set with separable classes.",
     ["skmine/itemsets/slim_classifier.py", "skmine/itemsets/slim.py"], "per-class SLIM models, arg-min of code lengths",
     "bounded-exhaustive enumeration of labelled databases against per-class reference models",
     EXH)

prop("P09", "SLIM vectorizer: features are the most used itemsets that apply",
     "Transforming a batch gives one row per transaction and at most k columns, the most used learnt itemsets made of items present in the batch, most used first. A cell is non-zero exactly when the "
     "itemset takes part in the cover of that transaction by those columns (1 in one-hot mode, the relative usage of the itemset in codes mode), and stop items never influence the model nor appear in a column.",
     ["inputs", "configurations"], "all training sets, batches, k, strategies and stop lists",
     "Tests vectorize one small corpus with a fixed k.",
     ["skmine/feature_extraction/slim_vectorizer.py", "skmine/itemsets/slim.py"], "top-k usage selection, cover of new data, stop item filtering",
     "bounded-exhaustive enumeration of training sets x batches x parameters against a reference model",
     EXH)

prop("P10", "MBD-LLBorder: borders and patterns are exactly the emerging itemsets",
     "For every pair of collections, the intervals between left and right borders contain exactly the itemsets whose relative support is at least min_growth_rate*min_supp in the "
     "collection of the larger label and below min_supp in the other one. Discovering patterns returns, as a set, exactly the itemsets of at least min_size items lying strictly between "
     "a left and a right border, whatever the type of the target, the order of the rows and the number of jobs.",
     ["inputs", "configurations"], "all pairs of collections, thresholds, growth rates and minimum sizes",
     "The tests check one worked example from the paper and that discover returns a Series.",
     ["skmine/emerging/mbdldorber.py", "skmine/utils.py", "skmine/itemsets/lcm.py"], "border differential between two families of maximal itemsets",
     "bounded-exhaustive enumeration of pairs of databases x parameters against brute-force support counting over the whole lattice",
     EXH)

prop("P11", "MDLP discretizer: cut points obey the MDL criterion and transform applies them",
     "For every numeric column and target, the learnt cut points are exactly those accepted by the recursive minimum-description-length criterion: each lies halfway between two "
     "adjacent distinct values of the column and fitting does not depend on row order, on the other columns or on the container. Transforming replaces each value by the bin it falls in with respect "
     "to the cut points of its own column, keeps rows, index and columns, and is monotone in the value.",
     ["inputs", "configurations"], "all columns of numbers, all labellings, all containers, column orders and dtypes",
     "Tests discretize the iris dataset only and compare with stored numbers.",
     ["skmine/preprocessing/mdlp_discretization.py"], "recursive entropy split with MDL stopping criterion; np.searchsorted-like binning",
     "bounded-exhaustive enumeration of labelled columns against an exact (rational/high precision) reference of the criterion",
     EXH)

prop("P12", "Periodic patterns: patterns plus residuals are exactly the input occurrences",
     "For any event log, indexed by integers or by datetimes of any resolution, in any order and with or without repeated lines, the occurrences rebuilt from the discovered patterns together with the residuals are "
     "exactly the occurrences of the log: none is invented, none is lost, none is both covered and residual. Sorting options change only the order, querying and refitting do not change the answer, and the caller's data are not modified.",
     ["inputs", "configurations", "histories"], "all event logs, time units, orders and parameters",
     "Tests reconstruct a few canned logs; losslessness must hold for any log and after any sequence of queries.",
     ["skmine/periodic/cycles.py", "skmine/periodic/pattern.py", "skmine/periodic/pattern_collection.py", "skmine/periodic/extract_patterns.py", "skmine/periodic/data_sequence.py"],
     "greedy selection of candidate cycles and their nesting/concatenation with shift corrections; time scale removal",
     "bounded-exhaustive enumeration of event logs (all subsets of a time grid, structured families) on the real miner with a set oracle",
     EXH)

prop("P13", "Periodic patterns: the pattern table is a faithful, self-contained description",
     "For any event log each row of the table returned by transform describes one pattern: decoding its start time, displayed tree (repetitions, periods, distances, events) and shift corrections, in the time unit of the input, gives "
     "exactly the occurrences that reconstruct returns for that pattern id. Rows are in chronological order unless asked otherwise, the sum of corrections adds up the corrections, repeated calls agree, and the patterns "
     "do not depend on row order, on repeated lines, on the origin of time, nor (with automatic time scale) on a common factor of all times.",
     ["inputs", "configurations"], "all event logs, time units, time origins and table options",
     "Tests compare column types and the table of one log.",
     ["skmine/periodic/cycles.py", "skmine/periodic/pattern.py", "skmine/periodic/pattern_collection.py"],
     "autoscaling of times and its inverse, string rendering of pattern trees, shift corrections relative to preceding occurrences",
     "bounded-exhaustive enumeration of event logs; an independent decoder of the table against the occurrences of each pattern, and metamorphic equivariance",
     EXH)

prop("P14", "Periodic patterns: each pattern pays for itself, code lengths are exact",
     "For any event log the reported code lengths of patterns, residuals and of the whole are those of the MDL encoding (events, repetitions, periods, start, distances, corrections). Each selected pattern covers at least three occurrences that no previous one covers and "
     "costs less than listing them, so that the total is never larger than without patterns. A simple cycle uses the period that minimises its corrections, only simple cycles come out when complex patterns are disabled, and a perfect cycle is always recognised when that is shorter.",
     ["inputs", "configurations"], "all event logs, with and without complex patterns",
     "Tests check individual cost functions on hand-made dictionaries, not that the mined result obeys them for every log.",
     ["skmine/periodic/pattern.py", "skmine/periodic/class_patterns.py", "skmine/periodic/run_mine.py", "skmine/periodic/extract_cycles.py", "skmine/periodic/pattern_collection.py"],
     "code length of pattern trees, dynamic programming and folding for simple cycles, greedy cover-based selection",
     "bounded-exhaustive enumeration of event logs; a reference model recomputes every code length and the gain of every selected pattern",
     EXH)

prop("P15", "Periodic patterns: selections partition the data, export and import are lossless",
     "For any fitted model and any selection of pattern ids, reconstruct gives the union of the occurrences of these patterns and get_residuals gives exactly all other occurrences of the data. "
     "Exporting the patterns and importing them, into a fresh miner or one holding another model, whatever the time unit, type of events (text or integer) and number of patterns (including none), gives a model that answers every "
     "query the same way, with the same pattern ids, and that can be exported again to the same file content.",
     ["inputs", "histories", "configurations"], "all event logs, selections of patterns and export/import sequences",
     "Tests export and import one log with one pattern of text events.",
     ["skmine/periodic/cycles.py", "skmine/periodic/pattern_collection.py", "skmine/periodic/data_sequence.py"],
     "JSON serialisation of pattern trees and data, id-based selection, merge-based complement",
     "bounded-exhaustive enumeration of event logs x all selections of patterns, and export/import histories, with a set oracle",
     EXH)

prop("P16", "GraphMDL: the rewritten graph describes the data graph without loss",
     "For every labelled directed graph or multigraph (edges with a text label, vertices with zero, one or several labels), fitting ends and the code table with its rewritten graph describe exactly that graph: "
     "expanding the pattern embeddings along their ports gives back every vertex label and every edge, no edge twice; patterns are used only where they occur, and wherever they occur free of earlier patterns. "
     "This holds whenever the time limit stops the search and after any sequence of fits, with or without time limit, on several miners, which equal fresh ones; the caller's graph is never modified.",
     ["inputs", "configurations", "histories", "schedules"], "all labelled directed (multi)graphs, stopping moments and histories of fits and code table edits",
     "Tests cover two hand-made graphs and never rebuild the data from the result.",
     ["skmine/graph/graphmdl/graph_mdl.py", "skmine/graph/graphmdl/code_table.py", "skmine/graph/graphmdl/code_table_row.py", "skmine/graph/graphmdl/candidate.py", "skmine/graph/graphmdl/utils.py"],
     "subgraph monomorphisms, cover marks on the data graph, ports of the rewritten graph, greedy search with pruning and time limit",
     "bounded-exhaustive enumeration of graphs, of every stopping moment (controlled clock), of fit histories and of code table edits on the real code; isomorphism oracle on the decoded rewriting",
     EXH)

prop("P17", "GraphMDL: description lengths are exact, patterns are those in use",
     "For every labelled directed graph or multigraph the initial description length is that of describing each edge and vertex label alone, and the final one is that of the code table and rewritten graph actually returned "
     "(label codes, pattern structures, ports, prequential codes). The final length is never above the initial one, and is below it as soon as merging two neighbouring elements saves space; a chain, cycle or small tree whose labels all differ, repeated apart, is found as one pattern. "
     "patterns() returns exactly the patterns and single elements used by the rewriting, each once and each occurring in the graph, and discover() displays them.",
     ["inputs"], "all labelled directed (multi)graphs",
     "Tests compare description lengths of one graph within 10%.",
     ["skmine/graph/graphmdl/graph_mdl.py", "skmine/graph/graphmdl/code_table.py", "skmine/graph/graphmdl/label_codes.py", "skmine/graph/graphmdl/utils.py"],
     "two-part code of GraphMDL+ with prequential codes, greedy acceptance of merges, pruning",
     "bounded-exhaustive enumeration of graphs on the real miner; a reference model recomputes every code length, and every pair of neighbours is tried as the only pattern",
     EXH)

prop("P18", "Datasets: files are read faithfully and the cache survives interruptions",
     "Reading a file of transactions or events gives exactly one entry per line, with its items or event and time, whatever the separator, type of items, line ends, blank lines and repeated separators; return_y splits the label from the items. "
     "Whatever point a fetch is interrupted at (process killed, disk full, connection lost, server unavailable) and whatever other process fetches the same dataset meanwhile, the next fetch gives the complete dataset, "
     "and later ones give it again from the cache without network; each data_home has its own cache.",
     ["inputs", "crash_points", "schedules", "histories"], "all files, all interruption points, all interleavings of two fetches, all sequences of fetches",
     "Tests fetch from the network or mock it; none interrupts a download or fetches concurrently.",
     ["skmine/datasets/fimi.py", "skmine/datasets/periodic.py", "skmine/datasets/_base.py"],
     "line parsing, cache lookup by existence of the file, writing of downloaded content",
     "fault injection: exhaustive enumeration of crash points, torn writes and interleavings of file system operations on the real fetchers against a loopback server, and bounded-exhaustive enumeration of file contents",
     EXH)

prop("P19", "Datasets: generators keep their promises for every random outcome",
     "make_transactions gives exactly n_transactions transactions of distinct integer items in [item_start, item_start + n_items), whatever is drawn, with sizes around density x n_items. make_classification gives exactly n_samples samples, shared between classes "
     "according to weights (each class within one sample), items of each class drawn from its own alphabet shifted by class_sep x n_items_per_class per class, and each sample keeps its label when shuffled. The same random_state (int or RandomState) gives the same result, without touching numpy's global state; "
     "densities outside ]0, 1[ and inconsistent weights are rejected. describe and describe_logs give exact counts, averages and density for any dataset or log (integers or dates).",
     ["inputs", "configurations", "schedules"], "all random outcomes, sizes, densities, weights, separations and datasets",
     "Tests draw a few datasets with default parameters and compare averages within 2 units.",
     ["skmine/datasets/_samples_generator.py", "skmine/datasets/utils.py"],
     "binomial sizes clipped to the number of items, per-class alphabets, shuffling of samples with labels",
     "exhaustive exploration of all outcomes of the random generator (scripted RandomState, depth-first), and bounded-exhaustive enumeration of parameters and datasets",
     EXH)

prop("P20", "Callbacks see each result once, as announced, and never alter the miner",
     "Attaching CallBacks to an object makes each call of a named method call its callback exactly once, after the method and in order of attachment, with the result: (self), (self, result), (self, *result) or the result alone, "
     "tuples being unpacked when the callback takes several values and passed whole otherwise, lists and other values always whole. The method returns the same object as without callbacks, other objects and methods are not affected, errors of the method "
     "or of the callback reach the caller unchanged. Collections with values that are not callable, callbacks that assign to self, or names that are not methods are rejected without any effect; collections cannot be modified. mdl_prints reports new sizes exactly when their total improves on the miner's.",
     ["inputs", "histories"], "all callbacks, returned values, sequences of attachments and calls",
     "Tests attach one callback to one method.",
     ["skmine/callbacks.py"],
     "signature inspection, wrapping of bound methods, source inspection",
     "bounded-exhaustive enumeration of callback signatures x results, and of all histories of attachments and calls, with an expected call log",
     EXH)

prop("P21", "Utilities are exact on every input and leave it unchanged",
     "filter_maximal and filter_minimal keep exactly the itemsets without proper superset (subset) in the family; bron_kerbosch gives each maximal clique of three or more nodes once; intersect2d gives the sorted common rows and their first positions; "
     "sliding_window_view gives every window as a read-only view and rejects impossible ones; _check_min_supp, _check_growth_rate and _check_random_state accept exactly the announced values; _check_D_y gives a positional frame with the same values and rejects missing "
     "or infinite ones; supervised_to_unsupervised keeps the rows with a label. None modifies its input or global options.",
     ["inputs"], "all families of itemsets, graphs, arrays and parameters",
     "Tests use one or two examples for each.",
     ["skmine/utils.py"],
     "sorted containers keyed by length, recursive clique search, strided views, pandas options",
     "bounded-exhaustive enumeration of families, graphs, arrays and windows, each compared with the definition",
     EXH)

prop("P22", "Estimators: parameters say it all, copies and pickles are faithful",
     "For every miner (LCM, LCMMax, SLIM, SLIMVectorizer, SlimClassifier, MBDLLBorder, MDLPDiscretizer, PeriodicPatternMiner, GraphMDL) get_params returns what was given to the constructor or set_params, and the documented default of what was not, before and after fit; unknown parameters are rejected. "
     "After any sequence of set_params, fit, clone, copy.deepcopy and pickle, fitting gives what a fresh estimator with these parameters gives; copies and pickles of a fitted estimator answer queries like the original, "
     "and fit_transform / fit_discover equal fit followed by transform / discover.",
     ["histories", "configurations"], "all parameter values and sequences of operations",
     "Tests check get_params of a dummy miner.",
     ["skmine/base.py", "skmine/itemsets/slim.py", "skmine/itemsets/lcm.py", "skmine/itemsets/slim_classifier.py", "skmine/feature_extraction/slim_vectorizer.py", "skmine/emerging/mbdldorber.py", "skmine/preprocessing/mdlp_discretizer.py",
      "skmine/periodic/cycles.py", "skmine/graph/graphmdl/graph_mdl.py"],
     "parameter introspection, fitted attributes bound to the instance",
     "exhaustive enumeration of parameter combinations and of all histories of set_params, fit, clone, copy and pickle up to a depth, compared with fresh estimators",
     EXH)
