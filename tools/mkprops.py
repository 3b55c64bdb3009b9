#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
DG='src/graph/default_graph.rs'; DF='src/traversal/depth_first.rs'; BF='src/traversal/breadth_first.rs'
CO='src/selection/components.rs'; PA='src/matching/pairing.rs'; GR='src/matching/greedy.rs'
MM='src/matching/maximum_matching.rs'; BL='src/matching/blossom.rs'; FO='src/matching/forest.rs'; MA='src/matching/marker.rs'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":list(over),"text":qtext},
      "why_tests_cant":why,"anchors":{"files":list(files),
        "state":[{"name":n,"meaning":m,"where":w} for n,m,w in state],
        "mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":list(observe),"hook_needed":hook}})

p("C01","Graph queries agree with the whole construction history",
 "After any sequence of accepted additions, starting from an empty graph or from any accepted conversion, every query of a DefaultGraph (emptiness, order, size, nodes, neighbors, degree, has_node, edges, has_edge) describes exactly the nodes and undirected edges added so far. Nodes, each node's neighbors, and edges are iterated in the order in which they were added; degree is the number of neighbors listed; and an edge, including an edge from a node to itself, appears once in edges and once in the neighbors of each of its endpoints.",
 ["histories"],"all sequences of add_node/add_edge calls over arbitrary usize ids, after any starting construction",
 "Unit tests look at one to three nodes with ids 0..2 after at most five calls; nothing checks all views together, ids far from 0, long histories, or adding to a graph that came from a conversion.",
 [DG,"src/graph/graph.rs"],[("add_node / add_edge keep four structures in step",DG),("Graph impl reads them",DG)],
 [("indices","id to row index",DG),("adjacency","neighbors per row",DG),("nodes","ids in order",DG),("edges","edges in order",DG)],
 ["Graph trait methods of DefaultGraph"])
p("C02","Refused graph mutations tell the truth and change nothing",
 "add_node fails exactly when the id is already a member (DuplicateNode with that id), and add_edge fails exactly when an end is not a member (MissingNode naming an absent end) or the edge already exists in either direction (DuplicateEdge with the ends as given). A refused call leaves every query result and iteration order of the graph as it was, so the history can continue as though the call had not been made.",
 ["histories"],"all interleavings of accepted and refused add_node/add_edge calls",
 "The tests make one refused call on a one- or two-node graph and never look at the graph afterwards or continue using it.",
 [DG],[("membership and duplicate checks precede every write",DG)],[("indices","membership",DG),("adjacency","existing edges",DG)],
 ["add_node / add_edge results, and all queries after an error"])
p("C03","Adjacency lists are accepted exactly when valid, and reproduced",
 "Converting adjacency lists succeeds exactly when every listed neighbor is a row, no row lists a neighbor twice, and listing is mutual. On success node ids are 0..n in order, each node's neighbors are its row verbatim, and edges lists each edge once, lower id first, in row order (an entry of a row for itself is an edge from the node to itself); on failure the error names a defect that is really present (MissingNode of an id beyond the rows, DuplicateEdge of a repeated entry, or MissingEdge of the direction that is absent).",
 ["inputs"],"all vectors of vectors of usize, valid or not",
 "Three invalid two-row inputs and small valid ones are tested; combinations of defects, late rows, large ids and loops are not.",
 [DG],[("TryFrom<Vec<Vec<usize>>>: validation scan and edge collection",DG)],(),["DefaultGraph::try_from(Vec<Vec<usize>>)"])
p("C04","Edge lists build the graph that adding the edges one by one builds",
 "Converting a list of edges succeeds exactly when no undirected edge is repeated in either direction, and otherwise fails with DuplicateEdge naming the first repetition as written. On success the nodes are the ids mentioned in order of first mention, the edges are the list verbatim, and all queries equal those of a graph built by adding each new node and then each edge in turn.",
 ["inputs"],"all vectors of (usize, usize)",
 "Three lists of at most three edges are tested, with ids 0..4.",
 [DG],[("TryFrom<Vec<(usize, usize)>>",DG)],(),["DefaultGraph::try_from(Vec<(usize, usize)>)"])
p("C05","Graph equality means same nodes and same undirected edges",
 "Two DefaultGraphs compare equal exactly when they have the same set of node ids and the same set of undirected edges, whatever route, order or edge direction built them. Equality is therefore reflexive, symmetric and transitive, and any one-node or one-edge difference makes the graphs unequal in both directions of comparison.",
 ["inputs"],"all pairs of graphs, in particular pairs of equal order and size that differ in one node or edge",
 "Four pairs of tiny graphs are compared; equal-size near misses and different construction routes are not.",
 [DG],[("PartialEq for DefaultGraph compares counts, then membership both of nodes and edges",DG)],(),["== and != on DefaultGraph"])
p("C06","Asking about an absent node is an error, never a wrong answer or a panic",
 "For every id that is not in the graph, has_node is false and neighbors, degree, has_edge (in either position) and starting a depth-first or breadth-first traversal all return MissingNode naming an absent id; has_edge names the first argument when that one is absent. For ids that are in the graph none of these calls returns an error.",
 ["inputs"],"all graphs and all usize ids, present or absent",
 "Only single absent ids on empty or one-node graphs are tested, and no test starts a breadth-first traversal at an absent node.",
 [DG,DF,BF],[("index_for and contains_key lookups",DG),("new propagates the neighbors error",DF),("new propagates the neighbors error",BF)],(),["Result values of Graph queries and traversal constructors"])
p("C07","Depth-first traversal reports every reachable edge exactly once",
 "A depth-first traversal from any root reports each undirected edge of the root's connected component exactly once, in one of its two directions, and nothing else. Consequently every node reachable from the root is entered exactly once by a step without the cut flag, except the root.",
 ["inputs"],"all finite undirected graphs, neighbor orders and roots",
 "The tests pin 13 hand-written graphs with one neighbor order and one or two roots each; whether pending edges are kept right when a cycle closes depends on the whole neighbor order and stack content.",
 [DF],[("stack of pending edges, pruned when a back edge is found",DF)],[("nodes","visited nodes",DF),("stack","pending edges",DF)],["DepthFirst as an iterator of Step"])
p("C08","Depth-first steps are in depth-first order with truthful cut flags",
 "Every depth-first step leaves the most recently entered node that still has unreported edges. A step without the cut flag enters a node for the first time; a step with the cut flag leads back to the step's own source or one of its ancestors on the current path.",
 ["inputs"],"all finite undirected graphs, neighbor orders and roots",
 "Thirteen fixed expected outputs on graphs of at most eight nodes are compared.",
 [DF],[("LIFO stack of pending edges and visited set",DF)],[("nodes","visited nodes",DF),("stack","pending edges",DF)],["DepthFirst as an iterator of Step"])
p("C09","Breadth-first traversal reports every reachable edge exactly once",
 "A breadth-first traversal from any root reports each undirected edge of the root's connected component exactly once, in one of its two directions, and nothing else. Consequently every node reachable from the root is entered exactly once by a step without the cut flag, except the root.",
 ["inputs"],"all finite undirected graphs, neighbor orders and roots",
 "The tests pin 16 hand-written graphs with one neighbor order and at most two roots each.",
 [BF],[("queue of pending edges filled when a node is entered",BF)],[("nodes","visited nodes",BF),("queue","pending edges",BF)],["BreadthFirst as an iterator of Step"])
p("C10","Breadth-first steps are in level order, along shortest paths",
 "Breadth-first steps leave nodes in the order in which those nodes were entered, so nodes are entered in non-decreasing distance from the root, and following uncut steps back to the root gives a shortest path. A step has the cut flag exactly when its target was entered before.",
 ["inputs"],"all finite undirected graphs, neighbor orders and roots",
 "Sixteen fixed expected outputs on graphs of at most eight nodes are compared; none measures distance.",
 [BF],[("FIFO queue and visited set",BF)],[("nodes","visited nodes",BF),("queue","pending edges",BF)],["BreadthFirst as an iterator of Step"])
p("C11","Traversals follow neighbor order, are repeatable and stay finished",
 "In both traversals the steps that leave one node take their targets in that node's neighbor order. Traversing again from the same root, or advancing several traversals of one graph alternately, gives the same steps each time, and a traversal that has ended keeps returning nothing.",
 ["inputs","histories"],"all graphs, roots, and interleavings of several traversals of one graph",
 "Tests collect one traversal at a time to the end, and the examples fix the order on a dozen small graphs.",
 [DF,BF],[("neighbors pushed reversed on a stack",DF),("neighbors pushed in order on a queue",BF)],(),["Iterator::next of DepthFirst and BreadthFirst"])
p("C12","Traversal steps depend only on the root's component and its neighbor order",
 "Renaming node ids renames the steps and changes nothing else; adding or removing other components, or changing the order in which the graph lists nodes and edges, changes no step. Any implementation of the Graph trait that lists the same neighbors in the same order gives the same steps as DefaultGraph.",
 ["inputs","configurations"],"all graphs, all injective renamings to usize ids including 0 and the maximum, all surrounding graphs, all Graph implementations",
 "All tests use DefaultGraph with ids 0..n-1 and connected graphs.",
 [DF,BF],[("only Graph::neighbors and a visited set are consulted",DF),("only Graph::neighbors and a visited set are consulted",BF)],(),["step sequences of paired traversals"])
p("C13","A depth-first traversal can be turned into a faithful table or graph",
 "For every root with at least one neighbor, the table made from a depth-first traversal lists the nodes of the root's component in the order entered, root first, and all its edges as stepped; and the graph made from the traversal has exactly those nodes and edges in those orders. That graph equals the root's component of the original graph, and the conversion never fails on a fresh traversal. Made from a traversal that was already advanced, a table holds the remaining steps and, after at most one other node, the nodes they enter, and so does a graph if the conversion succeeds.",
 ["inputs"],"all graphs, neighbor orders and non-isolated roots",
 "Three tables and two graphs, on paths, a triangle and a star, are tested.",
 [DF,DG],[("into_table",DF),("TryFrom<DepthFirst>",DG)],(),["DepthFirst::into_table, DefaultGraph::try_from(DepthFirst)"])
p("C14","Components partition the nodes",
 "The components of a graph together contain every node of the graph exactly once and no other node, and none is empty. They are yielded in the order of each component's first node in the graph's node order, and nothing follows after the last.",
 ["inputs"],"all finite undirected graphs, node orders and neighbor orders",
 "Six graphs made of disjoint paths and one triangle are tested, with components in consecutive id ranges.",
 [CO,DF,DG],[("visited set and a depth-first traversal per unvisited node",CO)],[("visited","nodes already yielded",CO)],["iterator returned by components"])
p("C15","Each component is the whole connected piece around its nodes",
 "Every component is connected and contains exactly the edges that the graph has among the component's nodes; no edge of the graph joins two components. The component is itself a consistent graph: its counts, neighbors, degrees and edges agree with one another and with the degrees in the original.",
 ["inputs"],"all finite undirected graphs, node orders and neighbor orders",
 "Only one test component has a cycle (a triangle); branched and multi-cycle components are not tested.",
 [CO,DF,DG],[("component built from the traversal's steps",CO),("TryFrom<DepthFirst>",DG)],(),["graphs returned by components"])
p("C16","A pairing is always a matching, and the latest pair wins",
 "After any sequence of pair calls on distinct nodes, each node has at most one mate and mates are mutual; pairing two nodes dissolves any earlier pair either belonged to and leaves all other pairs intact. order counts the paired nodes, has_node tells whether a node is paired, edges lists each pair once with the lower id first, two pairings are equal exactly when they hold the same pairs, and mate panics for an unpaired node.",
 ["histories"],"all sequences of pair calls with two distinct usize ids",
 "Histories of at most three calls on ids 0..3 are tested, and the state is inspected with only some of the accessors.",
 [PA],[("insert removes the stale half of a replaced pair",PA)],[("pairs","symmetric map node to mate",PA)],["Pairing::order, has_node, mate, edges, =="])
p("C17","Augmenting applies exactly the given path",
 "Augmenting a pairing with an even number of distinct nodes pairs the first with the second, the third with the fourth and so on, dissolves every earlier pair that touched the path, and leaves pairs off the path alone. Along an augmenting path of the pairing this adds exactly one pair and unpairs no node; a path with an odd number of nodes is refused by a panic that leaves the pairing unchanged.",
 ["inputs","histories"],"all pairings and all paths of distinct nodes, alternating or not",
 "Two even paths of four nodes and one odd path are tested.",
 [PA],[("augment pairs consecutive nodes",PA)],[("pairs","symmetric map node to mate",PA)],["Pairing::augment followed by the accessors"])
p("C18","Greedy matching is a matching of the graph",
 "For every graph, every pair that the greedy matching holds is an edge of that graph between two different nodes, and no node is in two pairs.",
 ["inputs"],"all finite undirected graphs with arbitrary ids, node orders and neighbor orders",
 "Eight graphs of at most six nodes, all paths, stars or an even cycle, are tested.",
 [GR],[("an edge is taken only while both ends are free",GR)],[("nodes","ends already used",GR)],["Pairing returned by greedy"])
p("C19","Greedy matching is maximal",
 "For every graph the greedy matching leaves no edge between two different nodes with both ends unpaired. Hence it holds at least half as many pairs as a maximum matching.",
 ["inputs"],"all finite undirected graphs with arbitrary ids, node orders and neighbor orders",
 "The tested graphs have no odd cycle and no edge whose first end is free while the second is taken.",
 [GR,CO,DF],[("every edge of every component is offered once",GR)],[("nodes","ends already used",GR)],["Pairing returned by greedy"])
p("C20","Maximum matching returns a matching of the graph",
 "Starting from any matching of the graph, maximum_matching returns normally and leaves a pairing in which every pair is an edge of the graph between two different nodes and mates are mutual.",
 ["inputs"],"all finite undirected graphs with arbitrary ids, node and neighbor orders, and all starting matchings",
 "Fifteen hand-picked graphs are tested, most bipartite or with one odd cycle; paths through blossoms entered at unusual places, and nested blossoms, are hardly reached.",
 [MM,BL,PA,FO,MA],[("lift expands a contracted blossom",BL),("augment",PA),("even_path joins two tree paths",MM)],(),["the Pairing after maximum_matching"])
p("C21","Maximum matching finds a matching of maximum size",
 "For every graph, maximum_matching started from an empty pairing or from the greedy matching ends with as many pairs as any matching of that graph can have.",
 ["inputs"],"all finite undirected graphs with arbitrary ids, node orders and neighbor orders",
 "Expected matchings are written out for fifteen graphs; maximality over all odd-cycle structures, nested blossoms and neighbor orders is not sampled.",
 [MM,BL,FO,MA],[("alternating forest search",MM),("contraction of odd cycles",BL),("marking of searched nodes and edges",MA)],(),["Pairing::order after maximum_matching"])
p("C22","Any starting matching is completed without unpairing a node",
 "Started from any matching of the graph, maximum_matching ends with a matching of maximum size in which every node that was paired at the start is still paired. Applied to a matching that is already maximum, it changes nothing.",
 ["inputs","histories"],"all graphs and all matchings of them as the starting point",
 "Three tests start from a non-empty matching.",
 [MM,BL,PA],[("each augmentation exchanges pairs along one path or blossom",MM),("contract_pairing and lift carry the pairing through a contraction",BL)],(),["Pairing before and after maximum_matching"])
p("C23","Matching does not depend on ids, orders, surroundings or Graph implementation",
 "Renaming nodes to any distinct usize ids (including 0 and the maximum), reordering nodes, neighbors or edges, or supplying the graph through another implementation of the Graph trait never changes the size of the maximum matching found and never makes a matching call fail. The size found for a disjoint union is the sum of the sizes found for its parts.",
 ["inputs","configurations"],"all graphs and all renamings, reorderings, Graph implementations and disjoint unions",
 "All tests use DefaultGraph with small consecutive ids and one order.",
 [MM,BL,GR],[("the contracted node gets an id no node of the graph has",MM),("algorithms are generic over Graph",MM)],(),["Pairing::order of paired runs"])
p("C24","Large and extreme graphs are handled without exhausting the stack",
 "Traversals, tables, components and greedy matching complete with correct results on graphs of tens of thousands of nodes of any shape (long chains, large cycles, deep trees, wide hubs, many components) using an amount of stack that does not grow with the graph. Maximum matching completes on graphs of several hundred nodes, including deeply nested odd cycles.",
 ["inputs"],"all shapes of large graph within memory",
 "The largest tested graph has 60 nodes.",
 [DF,BF,CO,GR,MM,BL],[("explicit stack and queue instead of recursion",DF),("explicit stack and queue instead of recursion",BF),("one component at a time",CO)],(),["results of all algorithms on large graphs, run on a small thread stack"])
p("C25","Components and matchings are reproducible and local",
 "Calling components, greedy or maximum_matching again on the same graph (and the same starting pairing), or on another Graph implementation that lists the same nodes, neighbors and edges in the same order, gives the same components with the same nodes, neighbors and edges in the same order, and the same pairs; component iterators that are advanced in turns do not influence one another. Renaming ids renames the components and the greedy pairs accordingly, and within a connected piece neither depends on what the other pieces of the graph are.",
 ["inputs","configurations"],"all finite undirected graphs, renamings, implementations with equal reports, and disjoint surroundings",
 "Every test calls each function once on one DefaultGraph and compares with one expected value; hash seeds, other implementations and surroundings are never varied against one another.",
 [CO,GR,MM,PA],[("components in the graph's node order, built from the traversal",CO),("greedy walks nodes and neighbors in the graph's order",GR),("forest search in the graph's order",MM)],[("pairs","hash map whose iteration order must not matter",PA)],["graphs returned by components, Pairing after greedy and maximum_matching"])
p("C26","Graphs survive every round trip between representations",
 "A graph rebuilt from what it reports equals the original: by adding its nodes and then its edges, from its edge list plus its isolated nodes, from its neighbor lists with ids replaced by positions (which then read back verbatim), and from the union of its components. The component of a root rebuilt from the table of a depth-first traversal, from the graph of a depth-first traversal or from breadth-first steps equals the one that components reports, and the only component of a component is equal to itself.",
 ["inputs"],"all finite undirected graphs, node orders and neighbor orders",
 "Constructors, accessors, traversals and components are each tested alone against literals; no test feeds the output of one into another and compares.",
 [DG,DF,BF,CO],[("TryFrom adjacency and edge lists",DG),("add_node, add_edge",DG),("TryFrom<DepthFirst> and into_table",DF),("component construction",CO)],[("adjacency","neighbors in insertion order",DG)],["DefaultGraph constructors, accessors and ==, components, DepthFirst, BreadthFirst"])
p("C27","Traversals and components work on demand, with few queries",
 "A traversal that has been advanced by some steps has asked the graph for the neighbors only of its root and of nodes its steps have reached (looking at most one step ahead), and an iterator of components that has been advanced has asked only for the neighbors of nodes in the components it has reached. However far they run, traversals, components and greedy matching ask for the neighbors of one node only a small fixed number of times, so the work they cause in a Graph implementation grows in proportion to the nodes, and no node outside the root's component is ever asked about.",
 ["inputs","configurations"],"all finite undirected graphs, roots, and lengths of the prefix taken",
 "The tests only collect whole traversals of DefaultGraph; nothing observes what is asked of the graph, so eager or repeated work passes.",
 [DF,BF,CO,GR],[("the stack and queue hold what has been reached",DF),("neighbors are queued when a node is first visited",BF),("a component is built when it is asked for",CO)],[("stack","edges still to be followed",DF),("queue","edges still to be followed",BF)],["calls a traversal makes to a Graph implementation"])
p("C28","Graphs and pairings can be read from several threads at once",
 "DefaultGraph, Pairing, Error and Step can be sent to and shared between threads, and any number of threads that query one graph and one pairing, traverse the graph, split it into components, match it or compare it at the same time each get the answers that a single thread gets.",
 ["schedules","inputs"],"all graphs, all mixes of read-only calls, and all interleavings of threads",
 "No test uses a second thread.",
 [DG,PA,DF,BF,CO,GR,MM],[("queries take &self and keep nothing",DG),("mate, has_node and edges keep nothing",PA)],(),["results of concurrent read-only calls"])
p("C29","Iterators yield the same items however they are driven",
 "The iterators of nodes, neighbors, edges, traversal steps, components and pairs keep the contract of Iterator: whether items are taken by next, nth, skip, step_by, take, fold, collect, count or last, and in whatever mixture, they are the same items in the same order, and size_hint never excludes the true number of items left; asked beyond the last item, by next or nth, they keep returning nothing.",
 ["inputs","histories"],"all graphs and pairings, and all ways of advancing an iterator",
 "The tests only collect the iterators whole.",
 [DG,DF,BF,CO,PA],[("nodes, neighbors, edges",DG),("next",DF),("next",BF),("next",CO),("edges",PA)],(),["iterators returned by the public functions"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
