#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
G='src/gimpy/graph.py'; T='src/gimpy/tree.py'; C='src/gimpy/global_constants.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
HIST="every sequence of public operations on one graph object, every graph those operations can build"
SMOKE="The existing tests run %s on a handful of seeded random graphs without asserting anything about the result, so only a crash is noticed."

p('C01','Every view of a graph shows the same graph, whatever was added or deleted',
 "After any sequence of node and edge insertions and deletions on a directed or undirected graph, the node list, edge list, neighbor, in-neighbor and out-neighbor lists, membership and edge tests, the node and edge counts and the printed representation (a line for each node, with its neighbors) all describe one and the same graph. It is the graph obtained by applying the successful operations in order: adding an edge also adds its missing endpoints, and deleting a node deletes exactly the node and the edges incident to it (self loops included). In an undirected graph an edge can be tested, read, changed and deleted under either orientation. The node and edge lists belong to the caller: the graph can be changed while going through one, and changing one changes no graph.",
 ['histories','inputs'],"all operation histories; directed and undirected graphs; node names of any hashable kind",
 "Tests only build graphs, never delete and re-add in mixed orders, and assert nothing about adjacency.",
 [G],[('add_node/del_node/add_edge/del_edge','Graph, graph.py:281-395'),('views','get_node_list, get_edge_list, get_neighbors, get_in_neighbors, get_out_neighbors, check_edge, __contains__, get_node_num, get_edge_num, __repr__')],
 ['the public query methods after every operation'],
 [dict(name='node set, edge set, adjacency',meaning='the abstract graph',where='Graph.nodes, edge_attr, neighbors, in_neighbors')])
p('C02','A rejected operation raises an exception and leaves the graph unchanged',
 "Adding a node that exists, adding an edge that exists (in an undirected graph also in the opposite orientation) and deleting a node or an edge that does not exist raise an exception. So do asking for the connected components of a directed graph, for the residual graph of an undirected graph, and for a negative cycle where there is none. After any such exception the nodes, edges, adjacency and all attributes are exactly what they were before the call.",
 ['histories','inputs'],"all reachable graphs, every invalid call at every point of a history",
 "No test performs an invalid operation.",
 [G],[('duplicate and existence checks','add_node, add_edge, del_node, del_edge'),('type checks','label_components, create_residual_graph, floyd_warshall_get_cycle')],
 ['exception or not, and the full projection of the graph before and after'])
p('C03','Attributes belong to one node, one edge or one graph only',
 "Reading an attribute of a node or edge returns the value most recently given to that attribute of that node or edge, at creation or later, and nothing else; an attribute never set reads as None on a node. Setting an attribute, or adding, deleting and re-adding elements, changes no other attribute, no other node or edge, and no other graph, and a re-added node or edge starts with the attributes it is given then. Both orientations of an undirected edge share one set of attributes.",
 ['histories','inputs'],"all histories of creation, update, deletion and re-creation over several nodes, edges and graphs",
 "Tests set attributes and never read back unrelated ones; sharing through a default object would not show.",
 [G,C],[('attribute dictionaries','Node.attr, Graph.edge_attr, DEFAULT_*_ATTRIBUTES'),('accessors','get/set_node_attr, get/set_edge_attr, Node.get_attr/set_attr')],
 ['get_node_attr, get_edge_attr, Node.get_attr'])
p('C04','A search finds exactly what is reachable, and paths that exist',
 "A depth-first or breadth-first search without a destination returns a predecessor tree that covers exactly the nodes reachable from the source along arcs (against them when searching in reverse), uses only existing arcs and leads back to the source from every covered node; for depth-first search it is a depth-first tree. With a destination it returns a simple path from source to destination made of existing arcs (in search direction), or None if there is none. If a component number is given, exactly the nodes found get it, and otherwise no component label changes.",
 ['inputs','histories'],"all directed and undirected graphs (self loops and isolated nodes included), all sources and destinations, whatever algorithms ran before on the same graph",
 SMOKE%'the searches',
 [G],[('search','Graph.search, process_edge_search, graph.py:974-1241'),('bfs','Graph.bfs')],['return value and component attributes'])
p('C05','Breadth-first search measures the fewest arcs',
 "With algorithm 'BFS' or 'UnweightedSPT', forwards or in reverse, a path returned for a destination has the fewest arcs possible. Without a destination every path in the returned predecessor tree has the fewest arcs possible, each reached node's 'distance' attribute is that number, and it is None for nodes that are not reachable.",
 ['inputs','histories'],"all directed and undirected graphs, sources, destinations and earlier runs on the same graph",
 SMOKE%'BFS',[G],[('search with a Queue','Graph.search, process_edge_search')],['return value, node attribute distance'])
p('C06','Dijkstra returns cheapest paths for nonnegative costs',
 "With algorithm 'Dijkstra' on a graph whose edges all have nonnegative 'cost' (directed forwards or in reverse, or undirected), a path returned for a destination has minimum total cost, and None is returned exactly when there is no path. Without a destination the returned predecessor tree covers exactly the reachable nodes and every path in it has minimum total cost, and each reached node's 'priority' attribute is that cost.",
 ['inputs','histories'],"all graphs with nonnegative integer or fractional costs, ties and zero costs included, all sources and destinations",
 SMOKE%'Dijkstra',[G],[('search with a PriorityQueue','Graph.search, process_edge_dijkstra, process_node_search')],['return value, node attribute priority'])
p('C07','Prim and Kruskal return minimum spanning trees',
 "On an undirected graph with any edge costs, minimum_spanning_tree_prim and search with algorithm 'Prim' return, as predecessors, a spanning tree of the source's connected component whose total cost is minimum. minimum_spanning_tree_kruskal returns edges of the graph that form a spanning forest (a tree in each connected component) of minimum total cost.",
 ['inputs','histories'],"all undirected graphs, connected or not, negative and equal costs included, after any earlier algorithm runs",
 SMOKE%'Prim and Kruskal',[G],[('prim','minimum_spanning_tree_prim, process_edge_prim'),('kruskal','minimum_spanning_tree_kruskal, DisjointSet')],['return values'])
p('C08','Component labels match connectivity',
 "After labelling the components of an undirected graph, two nodes have the same 'component' label exactly when a path connects them. The labels are 0 to k-1 where k is the number of connected components, which the graph also reports as its number of components, however often the graph was labelled or changed before.",
 ['inputs','histories'],"all undirected graphs, repeated labelling between changes of the graph",
 "test_label_components.py labels one graph and asserts nothing.",[G],[('label_components','Graph.label_components')],['component attribute, num_components'])
p('C09','Strong component labels match mutual reachability',
 "After labelling the strong components of a directed graph (label_strong_component or tarjan), two nodes have the same 'component' label exactly when each can reach the other, the labels are 0 to k-1 and the graph reports k components, also when it is done again after the graph was changed. The same partition results from depth-first searches of the transposed graph, started with a new component number each in order of decreasing finish time of a depth-first search of the whole graph.",
 ['inputs','histories'],"all directed graphs, repeated labelling between changes of the graph",
 "test_strong_components.py labels one graph and asserts nothing.",[G],[('tarjan','Graph.tarjan, strong_connect, label_strong_component'),('kosaraju','Graph.dfs with transpose and component')],['component attribute, num_components'])
p('C10','Depth-first discovery and finish times describe a depth-first forest',
 "Depth-first searches (dfs) from undiscovered nodes, passing on the returned counters, give every node reached distinct consecutive discovery and finish times, such that the intervals describe a forest of existing arcs, which is also what the predecessor dictionary holds if one is passed, and no arc leads from a node to one that is both discovered and finished later. A search discovers exactly the undiscovered nodes reachable through undiscovered nodes and gives them the component number passed. If an order list is passed, the finished nodes are put in front of it in order of finishing, so that for an acyclic graph every arc points forwards in it.",
 ['inputs','histories'],"all directed and undirected graphs, any sequence of roots",
 "Only one directed example runs dfs and nothing is asserted.",[G],[('dfs','Graph.dfs')],['disc_time and finish_time attributes, returned counters, order list, pred'])
p('C11','Augmenting-path max_flow returns a maximum flow',
 "On a directed graph whose arcs have nonnegative capacities and do not occur in both directions, max_flow with algorithm 'DFS' or 'BFS' between two different nodes leaves a 'flow' on every arc that is between zero and its capacity and conserved at every node except the two. Its value is the maximum possible, whatever flow or labels earlier runs left behind.",
 ['inputs','histories'],"all such networks (zero capacities, arcs into the source and out of the sink, disconnected sinks), repeated runs with other terminals",
 SMOKE%'max_flow',[G],[('augmenting path loop','Graph.max_flow')],['flow attribute of every arc'])
p('C12','Preflow-push returns a maximum flow under every selection rule',
 "On a directed graph whose arcs have nonnegative capacities and do not occur in both directions, max_flow_preflowpush between two different nodes terminates for each of its rules 'FIFO', 'SAP' and 'HighestLabel'. It leaves a 'flow' on every arc that is between zero and its capacity, is conserved at every node except the two (no excess remains), and has the maximum possible value.",
 ['inputs','histories','schedules'],"all such networks, all three orders of choosing active nodes, repeated runs with other terminals",
 SMOKE%'preflow-push',[G],[('push and relabel','max_flow_preflowpush, process_edge_flow, relabel')],['flow attribute of every arc'])
p('C13','Cycle canceling solves the minimum cost flow problem or says it is infeasible',
 "For a connected directed network without antiparallel arcs, min_cost_flow with algorithm 'cycle_canceling' (and cycle_canceling itself) terminates. If a flow exists that respects all capacities and satisfies all demands exactly, it leaves such a flow of minimum total cost in the 'flow' attributes; costs may be negative. Otherwise (also when total supply and demand differ) it reports that the problem is infeasible and it never reports this for a feasible problem.",
 ['inputs','histories'],"all such networks with integer or fractional data, zero demands, zero capacities and negative costs included",
 "Tests compare a few seeded instances with a solver; infeasible, zero-demand and degenerate inputs do not occur.",[G],[('cycle_canceling','cycle_canceling, find_feasible_flow, create_residual_graph, get_negative_cycle, augment_cycle')],['flow attributes, printed message, return value'])
p('C14','Network simplex solves minimum cost flow for every root and pivot rule',
 "For a connected directed network without antiparallel arcs, min_cost_flow with algorithm 'simplex' (the default) terminates for pivot rules 'dantzig' and 'first_eligible' and for every root node, also with node names that are not small integers. If a flow exists that respects all capacities and satisfies all demands exactly, it leaves such a flow of minimum total cost in the 'flow' attributes; costs may be negative. Otherwise (also when total supply and demand differ) it reports that the problem is infeasible and it never reports this for a feasible problem.",
 ['inputs','histories','configurations'],"all such networks, pivot rules, roots and node names; degenerate instances included",
 "Tests compare a few seeded instances with node names 0..n and default options with a solver.",[G],[('network simplex','network_simplex, simplex_find_tree, simplex_connect, simplex_search, simplex_compute_potentials, simplex_select_entering_arc, simplex_determine_leaving_arc, simplex_remove_arc')],['flow attributes, printed message, return value'])
p('C15','All-pairs shortest distances, paths and negative cycles are right',
 "On a directed graph with any arc costs, floyd_warshall reports validity exactly if there is no cycle of negative cost. If valid, each distance is the minimum cost of a path ('infinity' if there is none, 0 from a node to itself) and floyd_warshall_get_path returns a path of that cost without repeated nodes, or None. If not valid, floyd_warshall_get_cycle and get_negative_cycle return an existing cycle without repeated nodes whose total cost is negative (through the given node, if floyd_warshall_get_cycle is given one with a negative distance to itself); get_negative_cycle returns None if there is none.",
 ['inputs'],"all directed graphs with negative, zero and positive costs, self loops included",
 "No test calls these methods except through cycle canceling on a few instances.",[G],[('floyd_warshall','floyd_warshall, floyd_warshall_get_path, floyd_warshall_get_cycle, get_negative_cycle')],['return values'])
p('C16','Label correcting returns shortest paths or a negative cycle',
 "On a directed graph with any arc costs, fifo_label_correcting terminates and returns True with predecessors if no cycle of negative cost is reachable from the source: then every reachable node's 'distance' attribute is the minimum cost of a path to it and the predecessors form paths of that cost, and other nodes are labelled 'inf' and have no predecessor. Otherwise it returns False with an existing cycle without repeated nodes whose total cost is negative.",
 ['inputs','histories'],"all directed graphs with negative, zero and positive costs, self loops included, all sources, repeated runs",
 "No test calls it.",[G],[('fifo_label_correcting','fifo_label_correcting, label_correcting_check_cycle, label_correcting_get_cycle')],['return value, distance attribute'])
p('C17','Shortest paths in acyclic graphs are right for any costs',
 "On a directed acyclic graph with any arc costs (negative ones included), acyclic_shortest_path from a source returns, for a reachable destination, a path of minimum total cost. Without a destination it returns predecessors for exactly the other nodes reachable from the source, and every path they form has minimum total cost, whatever searches ran on the graph before.",
 ['inputs','histories'],"all acyclic graphs, sources and destinations, repeated runs",
 "No test calls it.",[G],[('acyclic_shortest_path','Graph.acyclic_shortest_path, dfs')],['return value'])
p('C18','Disjoint sets merge and are found as a partition',
 "After any sequence of adding sets, unions and finds on a DisjointSet, find gives two items the same representative exactly if they were added together or joined by unions, and the representative is a member of the set. union returns True exactly if the two items were in different sets, and otherwise changes nothing; finding changes no set. With optimisation on, an item is never more than log2(size of its set) links away from its representative, and directly linked to it after it was found.",
 ['histories'],"all sequences of add, union and find, with and without optimisation",
 "Only Kruskal uses it in tests, with optimisation off and nothing asserted.",[G],[('DisjointSet','DisjointSet.add, union, find')],['return values, neighbors of the items'])
p('C19','Trees keep parent, children, level and side consistent',
 "After any sequence of adding a root, children (in a binary tree left and right children) and deleting leaves of a binary tree, each node's parent, its list of children, its level and, in a binary tree, its left and right child and its side describe the same tree, the one obtained by the successful operations in order. Adding a child with a name that is in the tree, to a node that is not in the tree, or to an occupied side raises an exception and changes nothing, and the side freed by deleting a leaf can be used again.",
 ['histories'],"all sequences of insertions, rejected insertions and leaf deletions, any hashable names",
 "Tests build one fixed tree.",[T],[('Tree','add_root, add_child, get_children, get_parent'),('BinaryTree','add_left_child, add_right_child, get_left_child, get_right_child, del_node')],['the query methods'])
p('C20','Tree traversals visit every node of the subtree once, in the stated order',
 "Traversing a tree or binary tree with dfs, bfs or traverse, from the root or from a given node, visits each node of that subtree exactly once and no other node, parents before children. dfs finishes one subtree before it begins the next; bfs visits level by level, in a binary tree left to right for priority 'L' and right to left for 'R', and in every tree the children of an earlier node before those of a later one. print_nodes prints the nodes of a binary subtree in 'pre', 'in' or 'post' order, left subtree first for priority 'L' and right subtree first for 'R'.",
 ['inputs','configurations'],"all trees and binary trees, start nodes, orders and priorities",
 "Tests run them on one fixed tree and assert nothing.",[T],[('traverse','Tree.traverse, BinaryTree.traverse, dfs, bfs'),('print_nodes','BinaryTree.print_nodes')],['nodes highlighted in calls of display, printed output'])
p('C21','Expression trees are printed and evaluated correctly',
 "For a binary tree whose inner nodes have two children and are labelled + - * or / (by their 'label' attribute or else their name) and whose leaves are integers, postordereval returns the value of the expression, zero and negative intermediate results included. printexp prints the expression fully parenthesised, left operand before the operator before the right operand.",
 ['inputs'],"all such expression trees without division by zero",
 "Tests evaluate one expression and assert nothing.",[T],[('postordereval','BinaryTree.postordereval'),('printexp','BinaryTree.printexp')],['return value, printed output'])
p('C22','The DOT text of a graph describes exactly the graph',
 "to_string (and write with format 'dot') gives text that is valid in the DOT language and, read as such, has the graph's type and name, each node once, each edge once with its endpoints (in order if directed), and each attribute of nodes and edges and each Graphviz graph attribute with the value it has in the graph. This holds for names and values that need quoting: spaces, punctuation, quotes, non-ASCII letters, DOT keywords, numbers and the empty string. (Values already in DOT's double quotes or angle brackets are passed through; backslashes are not covered.)",
 ['inputs','histories'],"all graphs and all strings or numbers as names and attribute values (without backslashes or line ends), after any history of changes",
 "Tests write or display a few graphs with harmless names and compare nothing.",[G,C],[('to_string','Graph.to_string, edge_to_string, Node.to_string'),('quoting','global_constants.quote_if_necessary, needs_quotes')],['to_string, write'])
p('C23','Clusters are rendered as subgraphs with their nodes, edges and attributes',
 "For disjoint clusters created with create_cluster, the DOT text of a directed or undirected graph contains one subgraph per cluster, with a name of its own, the cluster's attributes and default node attributes, exactly the cluster's nodes and the edges between them, and everything else outside; still each node and each edge occurs once. Creating a cluster changes neither the arguments nor another cluster nor another graph, changing the arguments afterwards does not change the cluster, and a second cluster with an explicitly given existing name raises an exception. Deleting a node also removes it from its cluster.",
 ['histories','inputs'],"all sequences of graph changes and cluster creations, several graphs",
 "test_cluster.py renders one directed graph and asserts nothing.",[G],[('create_cluster','Graph.create_cluster'),('to_string','Graph.to_string')],['to_string'])
p('C24','Degrees and diameter are those of the graph',
 "get_degrees returns for every node the number of edge ends at it (in plus out in a directed graph), and in a directed graph get_in_degrees and get_out_degrees the numbers of incoming and outgoing arcs. get_diameter of an undirected graph with at least one node returns the largest number of edges on a shortest path between two nodes, or 'infinity' if the graph is not connected.",
 ['inputs','histories'],"all directed and undirected graphs, after any history",
 "No test calls them.",[G],[('degrees','get_degrees, get_in_degrees, get_out_degrees'),('diameter','get_diameter')],['return values'])
p('C25','Page rank solves the page rank equations',
 "page_rank of a directed graph returns a rank for every node and, given enough iterations and a small enough tolerance, each rank equals (1-d)/n plus d times the sum, over the nodes with an arc to it, of their rank divided by their number of outgoing arcs, where d is the damping factor and n the number of nodes. When it stops because of its tolerance (also with all parameters at their defaults), the errors of these equations add up to at most the tolerance. An empty graph gives an empty result.",
 ['inputs'],"all directed graphs (dangling nodes and self loops included) and damping factors",
 "No test calls it.",[G],[('page_rank','Graph.page_rank')],['return value'])
p('C26','Hamiltonian search succeeds exactly if a Hamiltonian path exists',
 "hamiltonian from a source returns True exactly if there is a path along arcs that starts at the source and visits every node once (ending at the destination if one is given), and False otherwise, also when it is called again on the same graph. When it returns True, a predecessor dictionary passed to it describes such a path.",
 ['inputs','histories'],"all directed and undirected graphs, sources and destinations, repeated calls",
 "No test calls it.",[G],[('hamiltonian','Graph.hamiltonian')],['return value, pred'])
p('C27','Random graphs obey their parameters and are reproducible',
 "random adds nodes 0 to n-1 and edges between different ones only, with the given node and edge attributes and no others of their kind, and a label equal to the cost exactly if labels are asked for. A non-Euclidean graph has at most the upper degree bound of edges added per node as tail when degrees are given and costs within the length range when one is given, is complete for density 1 and empty for density 0 and, unless parallel arcs are allowed, has no two arcs between the same nodes. In a Euclidean graph the nodes lie in the square of the given size and costs are the rounded (when degrees are given, scaled) distances; with the closest neighbors selected, each node is joined to its closest nodes, at least as many as the lower degree bound. The same parameters and seed give the same graph, and the seed matters: with ten nodes and half of all edges or two to four per node, no graph is without edges, and among the graphs of several seeds costs differ and, if parallel arcs are allowed, some arcs occur in both directions.",
 ['configurations','inputs'],"all parameter combinations (Euclidean or not, degree range or density, directed or undirected) and seeds",
 "Tests use it as an input generator with a few parameter sets and do not look at the graphs.",[G],[('random','Graph.random')],['resulting nodes, edges and attributes'])
p('C28','Algorithms leave the problem data of the graph intact',
 "Running any search, labelling, spanning tree, shortest path, flow, minimum cost flow, degree, diameter, ranking, Hamiltonian or rendering method leaves the graph's nodes, edges and adjacency, the costs, existing capacities and demands, and attributes the user defined for their own purposes unchanged, also when the problem is infeasible or the result negative. Auxiliary nodes and arcs that a method adds are gone when it returns.",
 ['inputs','histories'],"all algorithms on all graphs meeting their preconditions, in any order on the same graph",
 "Tests never compare a graph before and after a run.",[G],[('auxiliary nodes of find_feasible_flow','find_feasible_flow, del_node'),('attribute writes of the algorithms','search, max_flow, network_simplex, ...')],['full projection before and after every call'])
p('C29','Residual graphs, cycle capacities and augmentation agree with the flow',
 "create_residual_graph of a directed network without self loops and antiparallel arcs, with a flow that respects the capacities, returns exactly the arcs with spare capacity (with that capacity and their cost) and, reversed, the arcs with flow (with the flow as capacity and the negated cost). find_cycle_capacity of a cycle returns the smallest capacity on it. augment_cycle by an amount (whether there is room for it or not) adds the amount to the flow of arcs traversed forwards and subtracts it on arcs traversed backwards, and changes no other flow. get_simplex_solution_graph returns a directed graph with all the nodes and exactly the arcs whose flow is strictly between zero and the capacity.",
 ['inputs','histories'],"all networks and flows, all cycles",
 "They run only inside cycle canceling on a few instances.",[G],[('residual graph','create_residual_graph'),('cycles','find_cycle_capacity, augment_cycle'),('solution graph','get_simplex_solution_graph')],['return values, flow attributes'])
p('C30','Results depend on the calls and the graph, not on the process',
 "The same calls with the same arguments on objects built in the same way give the same results, down to the order of nodes and edges, the choice among equally good answers, the printed lines and the rendered text. It does not matter which other graphs, trees, disjoint sets or searches existed or ran before in the process (whether they ended early, failed or were rejected), nor whether the process hashes strings in another way. Seeded random graphs are included.",
 ['histories','configurations'],"all sequences of calls on one or several objects, in any order with other sequences in one process, all values of PYTHONHASHSEED",
 "Tests run once, in one order and with one hash seed.",[G,T,C],[('default arguments and class attributes','search, traverse, Graph.__init__, Tree.__init__, add_node, add_edge'),('iteration order','get_node_list, get_edge_list, neighbors, to_string')],['everything observed in two runs of the same session'])
p('C31','The display mode governs the pictures of one call and changes no result',
 "An algorithm or traversal of a graph or tree that is given a display mode draws its pictures in that mode, none with 'off'; without the argument it uses the object's own mode. When the call returns the object's display mode is what it was, and the result, the printed lines and what is left in the graph are the same as without pictures (colors of nodes highlighted by traversals aside). Each picture drawn shows the nodes and edges the graph has, is made by the program of the graph's layout (or the one given to write) in the format asked for, and is what the file, or the window of mode 'PIL', 'matplotlib' or 'xdot', then shows. display with nodes to highlight shows these nodes, and no others, in red, and later pictures do not; a traversal highlights each node of its subtree in one picture. Drawing leaves no temporary files, also when Graphviz is missing or fails, and a missing Graphviz stops no algorithm.",
 ['inputs','histories','configurations'],"all sequences of mode changes, calls with and without display argument (nested and recursive ones included), displays and changes of the graph, on graphs, trees and binary trees, with Graphviz present, missing and failing, in modes off, file, PIL, matplotlib and xdot",
 "Tests switch the display off or to modes that are not installed and look at no picture; they never ask for the mode afterwards.",[G,T],[('display','Graph.display, write, create, set_display_mode'),('display argument','search, dfs, hamiltonian, minimum_spanning_tree_prim, minimum_spanning_tree_kruskal, max_flow, max_flow_preflowpush, min_cost_flow, network_simplex, Tree.traverse, BinaryTree.traverse, print_nodes, printexp')],['what the layout program is given, the files written, display mode, results of a copy that is not displayed'])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
