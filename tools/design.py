#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md (between the BEGIN and END marks).

usage: design.py MC      MC: a built checker, asked for bounds and assumptions
The table of planted bugs is made from tools/seeds*.py and tools/seedresults.txt
(the output of `seedlib.py check`)."""
import json, os, re, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
desc = json.loads(subprocess.run([sys.argv[1], '-describe'], capture_output=True, text=True, check=True).stdout)

# id -> (what is enumerated and how, oracle, why this reaches what the tests cannot, quick time in s on 8 cores)
D = {}
def P(id, how, oracle, why, cost): D[id] = (how, oracle, why, cost)

P('C01', 'Breadth first over histories of graph mutations (`c01.go`), alphabets chosen so that each has a few interacting operations; from the empty graph and from populated seeds. Every state is observed completely.',
  '`model.go`: a list of nodes and edges with labels and properties, edited by the same operations.',
  'Counts, the linked lists of nodes and edges and the label maps only go wrong after particular orders of removal and re-creation (the first repaired defect needed the removal of the last node), and tests follow a handful of orders.', 18)
P('C02', 'As C01, observing every adjacency view: direction x (all, one label, any subset of labels), next/previous nodes, edges between pairs, sources and sinks.',
  'The edge list of the reference, filtered.', 'Loops, parallel edges and label sets interact with two lists per edge and two maps per node; the views disagree only in rare states.', 55)
P('C03', 'As C01 with alphabets of relabelings; every subset of the labels in use and of absent ones is looked up in every state, with the map iteration inside of the lookup started at different places.',
  'Scan of the reference.', 'A lookup iterates a map of labels and intersects sets; which set drives the intersection depends on map order and on sizes.', 28)
P('C04', 'Histories in which the declaration of the index is one of the operations, so that it happens at every point; values of every comparable kind and representation.',
  'Scan of the reference by value equality (a separate definition of it, see C22).', 'The index must follow every path by which a property, an element or a graph can change: 20 operations x their orders.', 23)
P('C05', 'In every state of a set of histories all combinations of label subsets and property conditions are asked, through FindNodes/FindEdges and through the predicates.',
  'Scan of the reference.', 'The search picks the index or label set with the smallest estimate: every combination of sizes must be met.', 52)
P('C06', 'All constructors of iterators over a zoo of graphs; interleavings of two (three) iterators are enumerated as schedules of Next calls.',
  'The elements the same constructor yields when it is run alone, which are compared with the reference.', 'Iterators share list nodes and cached state of the graph; only interleaved use shows that.', 3)
P('C07', 'Every read (29 kinds), every ordered pair, and every read started inside of each callback of each other read; the full observation and the structural fingerprint of the content are compared.',
  'The observation before; the result of the read run alone.', 'Reentrancy and hidden writes need two cooperating calls.', 12)
P('C08', 'Histories over two graphs with cross-graph operations, every illegal edge in every state, every edit of an argument after the call.',
  'Two reference models.', 'Ownership is violated by sequences over two graphs which no test has.', 12)
P('C09', 'All graphs up to isomorphism x all patterns of a shape; parametrised families of larger graphs.',
  'Brute force assignment of elements to pattern positions (`graphs.go`).', 'The matcher starts in the middle of a pattern and works in both directions depending on sizes in the graph; every start has its own code path.', 39)
P('C10', 'As C09 with variable-length relationships, all bounds of a set.', 'Brute force enumeration of trails.', 'As C09; the number of paths grows quickly, tests look at one or two.', 23)
P('C11', 'All ways of giving names to the positions of a pattern, all supplied subsets of nodes or edges.', 'Brute force assignment with bound names.', 'Binding and unbinding happens while backtracking; errors show only when a later branch is explored.', 50)
P('C12', 'All ways of building one graph (index, order, detours over deleted elements, noise) x patterns, and the mirrored pattern.', 'The matches must be the same (metamorphic), and those of the brute force.', 'The plan depends on everything that is varied here.', 32)
P('C13', 'All graphs x start x first edges x direction x filter x bounds, stopping at each callback, editing the path in each callback.', 'Brute force enumeration of trails.', 'Sharing between the paths given to callbacks only shows for particular shapes.', 12)
P('C14', 'All sequences of path operations on several paths at once; all paths alive are compared after each.', 'A list of nodes and directed edges.', 'Slices share memory: an append to one path changes another one only for particular capacities, lengths and orders.', 9)
P('C15', 'All sequences of cursor operations.', 'A stack of nodes.', 'Pop after push after failed moves.', 15)
P('C16', 'All graphs x codecs x layouts x map orders, encoded, read by a JSON reader of the harness, decoded into different graphs.', 'The layout documented in the source; isomorphism by brute force.', 'Names and values that need escaping, shared values, marshalers that drop or rename.', 16)
P('C17', 'All ways of writing a document for each small graph; every truncation, chunking, reader fault and single edit of base documents.', 'A reference reading with encoding/json over the whole document.', 'The decoder is a hand written token machine: every token position has to be hit with every kind of token.', 10)
P('C18', 'Every output is run with a fault at every write call and at every byte, sticky and not, and with a failing callback at every call.', 'Was the fault hit? Then the error must be reported; is the document whole?', 'One unchecked error return is invisible unless that very write fails.', 6)
P('C19', 'All copies of all small graphs into all targets; every single edit afterwards; histories over two graphs.', 'Correspondence element by element; two reference models.', 'Shared labels, shared property maps and index entries show only after later edits.', 44)
P('C20', 'All graphs x start x mapped nodes x sequences of copies with one correspondence.', 'Reference reachability.', 'Already mapped nodes cut the traversal: cycles through them are what matters.', 35)
P('C21', 'All pairs of graphs of equal size up to isomorphism x relations; structured larger pairs; cancellation at every question.', 'Brute force over all node assignments.', 'Backtracking search with pruning: wrong answers need symmetric pairs.', 24)
P('C22', 'All pairs and triples of values in all representations.', 'Order on value trees.', 'Transitivity and mixed representations need triples.', 1)
P('C23', 'Histories of set operations on 2 and 3 sets to a fixpoint.', 'Mathematical sets.', 'Aliasing between sets needs copy, then edit.', 3)
P('C24', 'Histories of set and label map operations to a fixpoint or depth.', 'Mathematical sets; reference label map.', 'Removal orders in the internal lists and maps.', 10)
P('C25', 'All graphs x all subsets of excluded elements; all short labels over special characters.', 'A DOT parser in the harness; isomorphism.', 'Identifiers and exclusions interact; escaping.', 2)
P('C26', 'All ordered pairs of programs in two goroutines, under the schedules "one after the other" and "inside of the k-th callback", handed over without a happens-before edge. See "Concurrency" below.', 'The results of running alone; the race detector as the monitor of conflicts.', 'A data race shows in a test only by luck, and only if two goroutines run at all (no test has any).', 60)
P('C27', 'All pairs and triples of patterns, chained through symbols in every way, over all small graphs.', 'Brute force with supplied sets.', 'Symbols carry sets built by one search into the choice of the plan of another.', 18)
P('C28', 'Every operation stopped or given up (by a panic of the callback that the caller recovers) at every callback; every decode failing at every byte, value and callback; all sequences of uses of one codec, renderer, pattern, supplied set or accumulator.', 'The observation before, the reference taken over the elements left in the graph; a fresh codec, pattern, ...', 'Leftover state shows in the second use, after a particular first one.', 27)

out = ['| | property | quick (s) |', '|---|---|---|']
for p in props: out.append('| %s | %s | %s |' % (p['id'], p['title'], D[p['id']][3]))
out.append('')
for p in props:
    how, oracle, why, cost = D[p['id']]; d = desc[p['id']]
    out += ['### %s %s' % (p['id'], p['title']), '', '*Enumerated.* ' + how, '', '*Oracle.* ' + oracle, '',
            '*Bounds.* ' + d['Bounds'] + '.', '']
    if d['Assume']: out += ['*Assumed.* ' + ' '.join(d['Assume']), '']
    out += ['*Beyond tests.* ' + why, '']
sections = {'properties': '\n'.join(out)}

sys.path.insert(0, here + '/tools'); import seedlib
res = {}
if os.path.exists(here + '/tools/seedresults.txt'):
    for l in open(here + '/tools/seedresults.txt'):
        m = re.match(r'(\S+)\s+(C\d\d) rc=\d+ (\w+)', l)
        if m: res[m[1]] = (m[2], m[3])
out = ['| planted bug | needs | check | result |', '|---|---|---|---|']
for i, s in seedlib.load().items():
    r = res.get(i, (s['prop'], 'not run'))
    out.append('| %s | %s | %s | %s |' % (i, s['needs'].replace('|', '\\|'), r[0], r[1].lower()))
sections['seeds'] = '\n'.join(out) + '\n'
t = open(here + '/DESIGN.md').read()
for k, v in sections.items():
    b, e = '<!-- BEGIN %s -->\n' % k, '<!-- END %s -->' % k
    i, j = t.index(b) + len(b), t.index(e)
    t = t[:i] + v + t[j:]
open(here + '/DESIGN.md', 'w').write(t)
