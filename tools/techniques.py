bfs = "explicit-state exploration of all operation histories on the real code against a reference model"
tech["C01"] = (bfs, "Decides graph contents after every history within the bounds, double removals and edits of removed elements included.")
tech["C02"] = (bfs, "Every adjacency view of every node is compared in every reached state.")
tech["C03"] = (bfs + ", with enumerated map iteration orders", "Every label subset is looked up in every reached state.")
tech["C04"] = (bfs + ", with the index declared at every point", "Lookups are compared with a scan in every reached state.")
tech["C05"] = (bfs + "; all queries in every state", "Every combination of labels and property conditions is asked in every reached state, without and with indexes.")
enum = "exhaustive enumeration of bounded executions of the real code against a reference model"
tech["C06"] = (enum + ": every iterator of a graph zoo, all interleavings of iterator pairs", "Every iterator constructor is driven to its end and beyond; pairs are advanced in every interleaving.")
tech["C07"] = (enum + ": every read, and every read nested in every callback of every read", "The complete observable state of the graph is compared before and after.")
tech["C08"] = (bfs + " over two graphs; caller aliasing enumerated", "Every illegal edge attempt is made in every reached state.")
tech["C09"] = (enum + ": all small graphs up to isomorphism x all pattern shapes", "Match multisets and paths are compared with brute-force assignment.")
tech["C10"] = (enum + ": all small graphs up to isomorphism x all patterns with a variable-length relationship", "Match multisets and paths are compared with brute-force trail enumeration.")
tech["C11"] = (enum + ": all variable namings and all supplied subsets", "Match multisets with symbol values are compared with brute-force assignment.")
tech["C12"] = (enum + ": all ways of building each small graph x all patterns and their mirror images, compared with one another", "Indexes, creation orders, edit histories and unrelated elements are enumerated; they move the start of the search.")
tech["C13"] = (enum + ": all small graphs x starts x first edges x filters x bounds; stopping at every callback", "Callback multisets are compared with brute-force trail enumeration.")
tech["C14"] = (enum + ": all operation sequences on paths", "Every path made in a sequence is compared with its reference sequence at the end of every prefix.")
tech["C15"] = (enum + ": all cursor operation sequences on all small graphs", "Every listing and the recorded path are compared after every operation.")
tech["C16"] = (enum + ": all small graphs x codecs x layouts x map iteration orders, encoded, parsed by a reference reader and decoded into every target", "The document is checked against the documented layout; the decoded graph is compared up to isomorphism by brute force.")
tech["C17"] = (enum + ": all ways of writing each small graph; all truncations, reader faults, chunkings and single edits of a set of documents", "The verdict and the graph are compared with a reference reading of the document.")
tech["C18"] = (enum + ": every failing write call, write position and callback call, for all small graphs and ways of output", "Each run's result is compared with whether the fault was actually hit; a reported success is checked for a complete document.")
tech["C19"] = (enum + ": all copies of all small graphs into all targets, every single edit afterwards; " + bfs + " over two graphs", "The correspondence is followed element by element; both graphs are observed completely, lookups and indexes included.")
tech["C20"] = (enum + ": all small graphs x mapped nodes x sequences of copies sharing a correspondence", "The set of copied elements is compared with a reference reachability computation.")
tech["C21"] = (enum + ": all pairs of small graphs x equivalence relations, and every point of cancellation", "The answer is compared with brute force over all node assignments.")
tech["C22"] = (enum + ": all pairs and triples of values in all representations", "The answer is compared with a reference order on value trees.")
tech["C23"] = (bfs + ", to a fixpoint of the states (memory sharing included)", "Every query is made on every set in every state.")
tech["C24"] = (bfs, "Iteration, membership, size and label lookups are compared after every history.")
tech["C25"] = (enum + ": all small graphs x all excluded nodes and edges; all short edge labels", "The document is read back by a DOT parser and compared up to isomorphism.")
tech["C26"] = ("exhaustive enumeration of pairs of operations on the real code under a controlled scheduler, with a vector-clock conflict monitor: without a conflict all interleavings of a pair are equivalent to the executed ones (partial order reduction)", "Every pair is run one after the other and inside of one another's callbacks without a happens-before edge between the goroutines; results are compared with running alone.")
tech["C27"] = (enum + ": all pairs and triples of patterns on all small graphs, chained through symbols", "The matches of the chain are compared with brute-force assignment.")
tech["C28"] = (enum + ": every operation given up or failing at every callback and byte; all sequences of uses of one value", "Everything observable afterwards is compared with a reference; each use is compared with a fresh one.")
