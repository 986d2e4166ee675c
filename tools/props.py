import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Graph contents follow the mutation history",
"After any sequence of node and edge creations, detaches, removals, relabelings and property changes, enumerating the graph yields exactly the live nodes and edges, each once, with the labels, properties and endpoints that history gives them, and the reported node and edge counts agree. Removing or editing an element that was already removed neither brings it back nor disturbs any other element.",
["histories"],"every sequence of mutations, from every reachable graph",
"TestGraphCRUD runs one history (ten nodes, one removal from the middle); removal of the last node, re-adding after removal, relabeling, double removal and their combinations are never run.",
["graph.go","node.go","edge.go","list.go","edgemap.go","indexes.go"],
[("doubly linked node list","list.go nodeList"),("edge map keyed by label with single-edge shortcut","edgemap.go edgeMap.add/remove"),("graph mutators","graph.go FastNewNode, FastNewEdge, detachRemoveNode, setEdgeLabel, removeEdge")],
[("allNodes","insertion-ordered list of the nodes of the graph","graph.go Graph"),("allEdges","all edges grouped by label","graph.go Graph")],
["Graph.GetNodes","Graph.GetEdges","Graph.NumNodes","Graph.NumEdges","Node.GetLabels","Node.GetProperty","Edge.GetLabel","Edge.GetFrom","Edge.GetTo"])

p("C02","Adjacency views agree with the edge set",
"At every point of every history each live edge is listed exactly once among the outgoing edges of its source and exactly once among the incoming edges of its target, for unfiltered, single-label and any-of-labels access alike, and no other edge is listed. Next/previous node lists, edges between two nodes, sources and sinks agree with that edge set, and detaching or removing a node removes exactly its incident edges.",
["histories"],"every sequence of edge creations, removals, relabelings and node detaches/removals, including self loops and parallel edges",
"No test checks incoming or outgoing edges after a removal or relabeling, and none uses parallel edges of several labels on one node together with removals.",
["node.go","edge.go","edgemap.go","list.go","graph.go","alg.go"],
[("three intrusive lists per edge","edge.go Edge.listElements, list.go edgeList"),("connect/disconnect","graph.go connect, disconnect, detachNode"),("derived views","node.go NextNodesWith/PrevNodesWith, alg.go Sources/Sinks/EdgesBetweenNodes")],
[("incoming/outgoing","per-node edge maps","node.go Node")],
["Node.GetEdges","Node.GetEdgesWithLabel","Node.GetEdgesWithAnyLabel","NextNodesWith","PrevNodesWith","Sources","Sinks","EdgesBetweenNodes"])

p("C03","Label lookups are exact",
"Looking nodes up by a set of labels returns exactly the live nodes carrying all of them (every node for the empty set), and looking edges up by a set of labels returns exactly the live edges carrying one of them, each once, whatever sequence of creations, relabelings and removals led there.",
["histories"],"every history of label assignments, creations and removals; every set of labels asked for",
"TestNodeMap only adds nodes; no test changes or clears labels and then looks up, and edge relabeling is untested.",
["maps.go","graph.go","edgemap.go","node.go","edge.go"],
[("label to node-set map","maps.go NodeMap.Add/Replace/Remove/IteratorAllLabels"),("edge label lists","edgemap.go iteratorLabel, iteratorAnyLabel"),("relabeling","graph.go setNodeLabels, setEdgeLabel")],
[("nodesByLabel","nodes indexed by label","indexes.go graphIndex")],
["Graph.GetNodesWithAllLabels","Graph.GetEdgesWithAnyLabel","Node.HasLabel"])

p("C04","Property indexes are transparent",
"Declaring an ordered or hash index on a node or edge property, at any point of any history, never changes which nodes or edges a property lookup returns: the result always equals a scan of the live elements, also after properties are overwritten or removed and elements are detached, removed, copied or created. This holds for values of one comparable kind per property, including values that expose a native value.",
["histories","configurations"],"every history of property edits, creations and removals, every choice of index kind and moment of declaring it",
"TestBtreeNodeIndex and TestHashNodeIndex insert sixty nodes and look up one value; no test updates, removes or adds an index to a populated graph, and edge indexes are never used.",
["indexes.go","hashindex.go","btreeindex.go","sets.go","graph.go"],
[("index maintenance on create/remove/edit","indexes.go addNodeToIndex, removeNodeFromIndex, addEdgeToIndex, removeEdgeFromIndex; graph.go setNodeProperty, setEdgeProperty, removeNodeProperty, removeEdgeProperty, removeEdge"),("reindex on declaration","indexes.go NodePropertyIndex, EdgePropertyIndex"),("index structures","hashindex.go, btreeindex.go")],
[("nodeProperties/edgeProperties","property name to index","indexes.go graphIndex")],
["Graph.GetNodesWithProperty","Graph.GetEdgesWithProperty","Graph.FindNodes","Graph.FindEdges","Graph.AddNodePropertyIndex","Graph.AddEdgePropertyIndex"])

p("C05","Find queries select exactly the matching elements",
"A node search by labels and property values returns exactly the live nodes that have all the labels and equal property values, and an edge search returns exactly the live edges that have one of the labels and equal property values, each once; an empty label set or property map puts no condition. The filter predicates offered for the same arguments accept exactly the same elements.",
["inputs","configurations"],"every combination of labels and property values asked for, on every graph and index configuration",
"Graph.FindNodes and Graph.FindEdges are not called by any test.",
["graph.go","properties.go","indexes.go"],
[("candidate choice by estimated size, then filter","graph.go FindNodes, FindEdges"),("filters","graph.go GetNodeFilterFunc, GetEdgeFilterFunc"),("value equality","properties.go ComparePropertyValue")],
None,["Graph.FindNodes","Graph.FindEdges","GetNodeFilterFunc","GetEdgeFilterFunc"])

p("C06","Iterators are complete, bounded and independent",
"Every node or edge iterator of the library yields each element of its result exactly as often as the result contains it and then keeps answering that nothing is left; its size estimate is either unknown or at least the number of elements it yields. Any number of iterators over the same unchanged graph may be advanced in any interleaving without affecting each other, and draining an iterator into a slice returns exactly what was left.",
["schedules","inputs"],"every graph, every kind of iterator, every interleaving of the steps of two iterators",
"Tests drain one iterator at a time and look at the size estimate of one index lookup only.",
["itr.go","edgemap.go","list.go","maps.go","hashindex.go","btreeindex.go","sets.go","node.go","graph.go"],
[("iterator combinators","itr.go filterIterator, funcIterator, MultiIterator, withSize, makeUniqueIterator"),("list cursors","list.go edgeListIterator, nodeListIterator; edgemap.go allEdgesItr, singleEdgeIterator; itr.go listIterator"),("label map cursor","maps.go nodeMapIterator")],
None,["Iterator.Next","Iterator.Value","Iterator.MaxSize","NodeSlice","EdgeSlice"])

p("C07","Reading never changes a graph",
"Lookups, iterations, pattern searches, path collection, encoding, rendering, copying from a graph and isomorphism checks leave every observable content of the graph as it was, and editing what they return (label sets, slices, paths) does not alter the graph. A read started from inside a callback of another read returns what it would return alone and does not disturb the outer one.",
["schedules","histories"],"every pair of reads, one after the other or one nested at any callback of the other, followed by any mutation, on every graph",
"Tests call each read once and do not look at the graph afterwards; no test nests reads.",
["graph.go","node.go","stringset.go","pattern.go","planprocessors.go","vpathitr.go","path.go","clone.go","json.go","dotrenderer.go","alg.go"],
[("copy-on-write label sets","stringset.go Clone, Add, Remove"),("per-run match state","pattern.go MatchPlan.Run, MatchContext"),("path copies handed to callbacks","vpathitr.go, path.go Clone")],
None,["all read operations of Graph, Node, Edge, Pattern, JSON, DOTRenderer"])

p("C08","Graphs own their elements and are isolated",
"An edge can only be created between two nodes that currently belong to the graph; any other attempt panics and leaves every graph unchanged. Identifiers of live nodes are unique and stable within a graph, and so are those of live edges; operations on one graph never affect another, and later changes the caller makes to maps, slices or sets it passed to the copying constructors and setters do not show in the graph.",
["histories"],"every history over two graphs, including attempts to connect foreign or removed nodes",
"No test creates two graphs and mixes their nodes, checks identifiers, or edits arguments after the call.",
["graph.go","node.go","edge.go","stringset.go"],
[("ownership test","graph.go FastNewEdge, cloneEdge"),("id counter","graph.go idBase"),("argument copies","graph.go NewNode, NewEdge, setNodeLabels")],
[("idBase","next identifier","graph.go Graph")],
["Graph.NewEdge","Node.GetGraph","Edge.GetGraph","Node.GetID","Edge.GetID"])

p("C09","Fixed-length pattern matching is exact",
"For a pattern whose relationships have length one, the search reports exactly the assignments of graph nodes and edges to the pattern elements that satisfy every label, property and direction condition, each assignment once, and nothing else. Each reported path is connected and lists the matched nodes and edges from the first to the last pattern element; the head and tail node lists are the first and last nodes of those paths without repetition.",
["inputs"],"every graph and every pattern of alternating node and length-one edge elements",
"The pattern tests use lines, circles and lines with self loops of at most ten nodes and about a dozen patterns, mostly checking only counts.",
["pattern.go","planprocessors.go","graph.go","path.go"],
[("plan construction","pattern.go GetPlan, getFastestElement, estimateNodeSize, estimateEdgeSize"),("plan steps","planprocessors.go iterateNodes, iterateEdges, iterateConnectedEdges, iterateConnectedNodes"),("path assembly","pattern.go GetCurrentPath")],
None,["Pattern.Run","Pattern.FindPaths","Pattern.FindNodes","DefaultMatchAccumulator.GetHeadNodes","DefaultMatchAccumulator.GetTailNodes"])

p("C10","Variable-length pattern matching is exact",
"A relationship with a minimum and maximum length matches exactly the connected sequences of at least one edge whose length lies within the bounds (unbounded where a bound is -1), whose edges all satisfy the label and property conditions, follow the required direction and are not repeated within that relationship. Every such combination is reported exactly once, with the full path in pattern order, wherever in the pattern the relationship stands and whichever element the search starts from.",
["inputs"],"every graph (cycles, self loops, parallel edges included) and every pattern with one or more variable-length relationships",
"Tests cover a single variable-length relationship on lines and circles and never look at the assembled path when the search runs towards the left.",
["pattern.go","planprocessors.go","vpathitr.go","path.go"],
[("path enumeration","vpathitr.go CollectAllPaths"),("variable path step","planprocessors.go iterateConnectedEdges.Run, iterateConnectedNodes.Run"),("path assembly","pattern.go GetCurrentPath")],
None,["Pattern.Run","Pattern.FindPaths","Path.GetNode","Path.GetEdge"])

p("C11","Pattern variables bind consistently",
"In every reported match a variable used for several nodes, or for several relationships of length one, of a pattern denotes one and the same node or edge, a variable supplied by the caller only takes values from the supplied set, and the reported symbol values are exactly the elements matched at those places. Using a supplied node set as an edge variable, a supplied edge set as a node variable, or one variable for a node and a relationship, never yields a match. Looking for paths, looking for nodes (the heads of the matches) and running the pattern find the same matches and fail alike.",
["inputs"],"every graph, every pattern that names elements, every set of supplied symbols",
"Two tests supply a node symbol; none repeats a variable defined by the pattern itself, supplies edges, or has more than one candidate after the repeated variable.",
["pattern.go","planprocessors.go","sets.go"],
[("local symbol table","pattern.go recordStepResult, resetStepResult"),("constraints","pattern.go isConstrainedNodes, isConstrainedEdges"),("captured values","pattern.go CaptureSymbolValues")],
[("LocalSymbols","variables bound so far in this match","pattern.go MatchContext")],
["Pattern.Run","MatchAccumulator.StoreResult","DefaultMatchAccumulator.Symbols"])

p("C12","Pattern results do not depend on the search plan",
"The set of matches of a pattern in a graph is the same whatever indexes are declared, whatever order nodes and edges were created in, and whatever unrelated elements the graph also holds; mirroring the pattern (reversing its elements and directions) yields the mirrored matches.",
["configurations","inputs"],"every graph and pattern, every index configuration, insertion order and amount of unrelated content",
"Tests run a few patterns with and without one ordered index on graphs where the search always starts from a node.",
["pattern.go","planprocessors.go","indexes.go","edgemap.go"],
[("start element choice","pattern.go getFastestElement, estimateNodeSize, estimateEdgeSize"),("forward and backward steps","pattern.go GetPlan")],
None,["Pattern.FindPaths"])

p("C13","Path collection enumerates every trail once",
"Collecting paths from a node calls back exactly once for every connected edge sequence that starts with one of the given first edges, follows the given direction, passes the edge filter, repeats no edge and has a length within the bounds, and for no other. It stops as soon as the callback asks to, and what the callback does to the path it receives does not influence the remaining enumeration.",
["inputs"],"every graph, start node, direction, filter, length bound and stopping point",
"TestCollectAllPaths runs one graph and asserts nothing about the result.",
["vpathitr.go","path.go","itr.go"],
[("recursive enumeration with edge repetition check","vpathitr.go CollectAllPaths"),("unique first edges","itr.go makeUniqueIterator")],
None,["CollectAllPaths"])

p("C14","Paths behave as node-edge sequences",
"A path built by any sequence of appending elements, appending paths, slicing, cloning and removing the last edge always equals the corresponding alternating sequence of nodes and edges: counts, first, last, n-th node, n-th edge, emptiness and prefix tests agree with it, and appending something that does not start where the path ends panics. Removing the first edge of a path drops it from the path and, as documented, removes that edge from the graph. Other operations on a path change neither the graph, nor the argument paths, nor previously taken clones and slices.",
["histories","inputs"],"every sequence of path operations over every pair of paths",
"TestAppend and TestPathHasPrefix assert nothing, TestPathSlice checks two slices.",
["path.go"],
[("single-node versus edge-list representation","path.go Path.only, Path.path"),("mutators","path.go Append, AppendPath, RemoveLast, Slice, Clone")],
[("only/path","either a lone node or a list of directed edge steps","path.go Path")],
["Path.Append","Path.AppendPath","Path.Slice","Path.RemoveLast","Path.GetNode","Path.HasPrefixPath"])

p("C15","Cursor navigation is faithful",
"A cursor lists exactly the edges and neighbour nodes of its current node for the requested direction and label (each neighbour once, nothing when it points nowhere). Pushing an edge moves it to the edge's target and extends the recorded path; popping undoes the last push, moving the cursor back and leaving the graph unchanged.",
["histories"],"every sequence of set, start, push and pop operations on every graph",
"TestPathBasic performs a single push.",
["cursor.go","itr.go","path.go"],
[("cursor moves","cursor.go PushToPath, PopFromPath"),("neighbour iterator","itr.go nodesFromEdgesIterator")],
[("node/path","current position and recorded path","cursor.go Cursor")],
["Cursor.Edges","Cursor.Nodes","Cursor.PushToPath","Cursor.PopFromPath","Cursor.GetPath"])

p("C16","JSON encoding round-trips",
"Encoding any graph, with edges embedded or separate, produces one valid JSON document of the documented layout, and decoding it reproduces a graph isomorphic to the original with the same labels, edge labels and (JSON-normalised or custom-marshaled) properties. Custom property marshalers and unmarshalers see every property exactly once and may rename, drop or replace it.",
["inputs","configurations"],"every graph with JSON-representable property values, both layouts, every order in which nodes may be written",
"TestEncode round-trips one two-node graph with embedded edges and ignores the decoded content; the separate layout is never used.",
["json.go"],
[("encoder","json.go Encode"),("decoder with pending-edge queue","json.go Decode, addNode, addEdge")],
[("nodeMap/edgeQueue","node indexes and edges awaiting their nodes","json.go")],
["JSON.Encode","JSON.Decode"])

p("C17","JSON decoding accepts valid and rejects broken input",
"Decoding succeeds on every valid document whatever the order of its nodes and edges sections, node numbering, forward references, extra unknown members or chunking of the input, and always builds the same graph. A truncated or malformed document, a reader error, a failing property unmarshaler or an edge naming an unknown node always makes decoding return an error and never panics or hangs.",
["inputs","fault_sequences"],"every arrangement of a document, every truncation point, every read failure and chunk boundary",
"The decoder is only run on two well-formed fixture files and one encoder output.",
["json.go"],
[("token loop skipping unknown members","json.go Decode"),("edge queue and dangling edge error","json.go Decode, ErrInvalidGraph")],
None,["JSON.Decode"])

p("C18","Output and callback failures are reported",
"If writing any part of an encoded or rendered graph fails, or a property marshaler, node renderer or edge renderer returns an error, or a property value cannot be represented, the operation returns that error instead of reporting success. A success result means the complete document was written.",
["fault_sequences"],"every position at which the writer or a callback can fail, for every graph and layout",
"Tests write into memory buffers that never fail.",
["json.go","dotrenderer.go"],
[("error returns after each write","json.go Encode; dotrenderer.go Render, RenderNodesEdges")],
None,["JSON.Encode","DOTRenderer.Render"])

p("C19","Graph copies are faithful and independent",
"Copying a graph into another adds exactly one node per copied source node and one edge per source edge whose endpoints were copied, with equal labels and the transformed properties, returns the node correspondence, keeps the target's previous content, and makes the copies visible to the target's indexes and label lookups. Afterwards neither graph is affected by changes to the other.",
["inputs","histories"],"every source and target graph, every property transformation and node selection, every later mutation of either side",
"TestClone copies one chain and checks it with a permissive isomorphism test.",
["clone.go","graph.go","properties.go"],
[("copy loop","clone.go CopyGraphf, CopyGraph"),("element cloning","graph.go cloneNode, cloneEdge; properties.go clone")],
None,["CopyGraph","CopyGraphf","CopyNode","CopyEdge","CloneEdge"])

p("C20","Subgraph copies contain exactly what is reachable",
"Copying a subgraph from a node copies exactly the nodes reachable from it along edge directions through nodes that are not already mapped, together with exactly the edges leaving the newly copied nodes, each once, and extends the given correspondence accordingly. Nothing else is added to the target and the source is unchanged.",
["inputs","histories"],"every graph (cycles, self loops, parallel edges, shared parts), every start node and every sequence of copies sharing a correspondence",
"CopySubgraph is not called by any test.",
["clone.go","graph.go"],
[("depth-first copy with node map","clone.go CopySubgraph, CopyNode, CopyEdge")],
None,["CopySubgraph"])

p("C21","Isomorphism checking decides correctly",
"The isomorphism check answers yes exactly when there is a one-to-one correspondence between the nodes of both graphs, and between their edges, that respects all edge endpoints and the given node and edge equivalence relations. A cancelled context may only lead to the context's error or the correct answer.",
["inputs","fault_sequences"],"every pair of graphs and every pair of equivalence relations, every point of cancellation",
"TestClone only asks for a positive answer on chains with distinct nodes; no negative case and no parallel edges or symmetric nodes.",
["alg.go"],
[("enumeration of candidate node assignments","alg.go CheckIsomorphism next, buildNodeEquivalence"),("edge check","alg.go isIsomorphism")],
None,["CheckIsomorphism"])

p("C22","Property values are totally ordered",
"Comparison of property values of one comparable kind (integers, strings, and lists of them in any of the supported representations, nested or not, possibly wrapped to expose a native value) is reflexive, antisymmetric and transitive, orders lists lexicographically, and reports equality exactly for equal contents. Comparing values of different kinds panics rather than returning an answer.",
["inputs"],"every pair and triple of supported values",
"Comparison has no test of its own.",
["properties.go"],
[("type dispatch","properties.go ComparePropertyValue")],
None,["ComparePropertyValue"])

p("C23","String sets have value semantics",
"Every sequence of set operations on string sets yields exactly the mathematical result for membership, subset, equality, size, listing and JSON round trip, and a set never changes because another set it was copied from, added to or passed to is modified.",
["histories"],"every sequence of operations over several sets that may have been copied from one another",
"String sets have no tests; sharing between copies is never exercised.",
["stringset.go"],
[("copy on write","stringset.go Clone, Add, AddSet, Remove")],
[("M","member map, shared between clones","stringset.go StringSet")],
["StringSet methods"])

p("C24","Node sets, edge sets and label maps behave as sets",
"A node set or edge set (of elements of one graph) contains exactly the elements added and not removed since, each once, in iteration, slice, size and membership. A label-to-node map yields, by label set and in total, exactly the nodes added (or relabeled) and not removed, each once, and is empty exactly when it holds no node.",
["histories"],"every sequence of add, remove and relabel operations",
"TestNodeMap adds thirty nodes and collects the result in a map, so duplicates and removals go unnoticed; the sets are untested.",
["sets.go","maps.go"],
[("hash map plus linked list","sets.go fastSet"),("label map","maps.go NodeMap")],
None,["NodeSet","EdgeSet","NodeMap"])

p("C25","DOT rendering lists the graph exactly",
"Rendering a graph writes a well-formed digraph in which every rendered node has its own identifier and appears once, and every edge between rendered nodes appears once between the identifiers of its endpoints with its label; nodes excluded by the renderer, and edges touching them, do not appear. Rendering a single node or edge shows just that element, or does and reports what the given renderer decides.",
["inputs"],"every graph, every selection of excluded nodes and edges, every edge label",
"The renderer is not called by any test.",
["dotrenderer.go"],
[("id assignment and edge loop","dotrenderer.go RenderNodesEdges"),("default renderers","dotrenderer.go DefaultDOTNodeRender, DefaultDOTEdgeRender")],
None,["DOTRenderer.Render","DOTRenderer.RenderNodesEdges","DOTRenderer.RenderNode","DOTRenderer.RenderEdge"])
p("C26","Reading goroutines and separate graphs do not interfere",
"Any number of goroutines may read one graph that nobody changes, and goroutines may work on different graphs (also when these are copies of one another, or patterns, supplied sets, label sets and conditions are shared for reading): under every schedule each of them gets exactly what it would get alone, and no memory is accessed by two of them at once with one of them writing.",
["schedules"],"every graph, every pair of operations of two goroutines, every interleaving of their steps",
"No test starts a goroutine; a hidden cache, a lazily filled field or a package-level scratch buffer passes every sequential test.",
["graph.go","node.go","edge.go","list.go","edgemap.go","maps.go","indexes.go","pattern.go","planprocessors.go","path.go","itr.go","json.go","dotrenderer.go","clone.go","alg.go","sets.go"],
[("per-graph state only","graph.go Graph, indexes.go graphIndex"),("state of a search kept in its plan","pattern.go GetPlan, MatchPlan.Run; planprocessors.go"),("state of an iteration kept in its iterator","itr.go, list.go, maps.go nodeMapIterator"),("label sets shared copy-on-write","stringset.go Clone; graph.go FastNewNode, setNodeLabels")],
None,["results of every operation","memory accesses, by vector clocks"])

p("C27","Search results can be supplied to further searches",
"The nodes, relationships and paths a search reports can be added to pattern symbols, in any way and order, and supplied to another search, inside of the first one or after it: its matches are then exactly those of the second pattern that use only what was supplied. A symbol lists exactly the distinct nodes or edges added to it. Running a pattern through its plan gives the same, and the plan's current path and captured symbol values are those of the match being reported.",
["inputs","histories"],"every graph, every sequence of patterns sharing names, every way of adding the results to symbols",
"One test supplies a single node; none supplies relationships or paths that were found, a set with duplicates, or runs a search inside of another with its results.",
["pattern.go","planprocessors.go","sets.go"],
[("symbols","pattern.go PatternSymbol.Add, AddNode, AddPath, NodeSlice, EdgeSlice"),("supplied symbols as conditions and starting points","pattern.go isConstrainedNodes, isConstrainedEdges, estimateNodeSize, estimateEdgeSize"),("captured values","pattern.go MatchPlan.CaptureSymbolValues, GetCurrentPath")],
None,["PatternSymbol","Pattern.Run","Pattern.GetPlan","MatchPlan.Run","MatchPlan.GetCurrentPath","MatchPlan.CaptureSymbolValues","Pattern.GetSymbolNames"])

p("C28","Failed, abandoned and repeated uses leave no trace",
"A read that is stopped early, or given up by a panic of the caller's callback, leaves the graph and every later read as if it had not happened. A decode or copy that fails or is given up leaves the elements that were there, and whatever it added, consistent in every view, and the graph remains usable. Patterns, supplied symbols, JSON codecs, renderers and accumulators can be used any number of times, after successful, failed and abandoned uses, with the result that a fresh one would give.",
["fault_sequences","histories"],"every operation given up or failing at every point, every sequence of uses of one value",
"Tests use every value once and never fail or stop an operation; what is left behind is not looked at.",
["graph.go","pattern.go","planprocessors.go","json.go","clone.go","dotrenderer.go","alg.go","itr.go"],
[("search state in the plan, made per search","pattern.go Pattern.Run, GetPlan"),("decoding node by node into the graph","json.go Decode, addNode, addEdge"),("copying element by element","clone.go CopyGraphf, CopySubgraph"),("codec used by value","json.go JSON.Encode, Decode")],
None,["every read of the graph after the use","JSON.Decode","JSON.Encode","DOTRenderer.Render","Pattern.Run","CopyGraph"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
for x in P:
    assert len(x['title'])<=80
