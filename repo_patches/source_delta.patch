From 676e05f88962505fd136a541d58c7f0e8a7b3ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 01/37] fix: del_node on undirected graphs and on nodes with
 self loops

An undirected graph has no in_neighbors and stores an edge under only one
orientation, so deleting a node always raised (KeyError or AttributeError)
after it had already removed some of the edges. Self loops also changed the
adjacency list while it was being iterated over.
---
 src/gimpy/graph.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 1d3638e..374dda2 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -316,18 +316,19 @@ class Graph(object):
         '''
         if name not in self.neighbors:
             raise Exception('Node %s does not exist!' %str(name))
-        for n in self.neighbors[name]:
-            del self.edge_attr[(name, n)]
-            if self.graph_type == UNDIRECTED_GRAPH:
-                self.neighbors[n].remove(name)
-            else:
+        if self.graph_type == UNDIRECTED_GRAPH:
+            # a self loop is listed twice among the neighbors
+            for n in set(self.neighbors[name]):
+                self.del_edge((name, n))
+        else:
+            for n in list(self.neighbors[name]):
+                del self.edge_attr[(name, n)]
                 self.in_neighbors[n].remove(name)
-        if self.graph_type is DIRECTED_GRAPH:
             for n in self.in_neighbors[name]:
                 del self.edge_attr[(n, name)]
                 self.neighbors[n].remove(name)
+            del self.in_neighbors[name]
         del self.neighbors[name]
-        del self.in_neighbors[name]
         del self.nodes[name]
 
     def add_edge(self, name1, name2, **attr):
-- 
2.43.0


From 2a54fd225e941d6f9678fd36b19a52cff706ff24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 02/37] fix: compare graph types by value, not by identity

A type string equal to 'digraph' or 'graph' that is a different object (read
from a file, unpickled, built at run time) gave a graph for which some methods
took the directed branch and others the undirected one.
---
 src/gimpy/graph.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 374dda2..ebe0c38 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -229,7 +229,7 @@ class Graph(object):
         # adjacency list of nodes, it is a dictionary of lists
         self.neighbors = {}
         # if the graph is undirected we do not need in_neighbor
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             self.in_neighbors = {}
         self.nodes = {}
         self.edge_connect_symbol = EDGE_CONNECT_SYMBOL[self.graph_type]
@@ -270,7 +270,7 @@ class Graph(object):
         if isinstance(item, tuple):
             name1 = item[0]
             name2 = item[1]
-            if self.graph_type is DIRECTED_GRAPH:
+            if self.graph_type == DIRECTED_GRAPH:
                 return (name1, name2) in self.edge_attr
             else:
                 return ((name1, name2) in self.edge_attr or
@@ -297,7 +297,7 @@ class Graph(object):
         if name in self.neighbors:
             raise MultipleNodeException
         self.neighbors[name] = list()
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             self.in_neighbors[name] = list()
         self.nodes[name] = Node(name, **attr)
         return self.nodes[name]
@@ -350,7 +350,7 @@ class Graph(object):
         '''
         if (name1, name2) in self.edge_attr:
             raise MultipleEdgeException
-        if self.graph_type is UNDIRECTED_GRAPH and (name2,name1) in self.edge_attr:
+        if self.graph_type == UNDIRECTED_GRAPH and (name2,name1) in self.edge_attr:
             raise MultipleEdgeException
         self.edge_attr[(name1,name2)] = copy.deepcopy(DEFAULT_EDGE_ATTRIBUTES)
         for a in attr:
@@ -360,7 +360,7 @@ class Graph(object):
         if name2 not in self.nodes:
             self.add_node(name2)
         self.neighbors[name1].append(name2)
-        if self.graph_type is UNDIRECTED_GRAPH:
+        if self.graph_type == UNDIRECTED_GRAPH:
             self.neighbors[name2].append(name1)
         else:
             self.in_neighbors[name2].append(name1)
@@ -377,7 +377,7 @@ class Graph(object):
         Post:
             self.edge_attr, self.neighbors and self.in_neighbors are updated.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             try:
                 del self.edge_attr[e]
             except KeyError:
@@ -433,7 +433,7 @@ class Graph(object):
         Return:
             Returns True if edge exists, False otherwise.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             return (name1, name2) in self.edge_attr
         else:
             return ((name1, name2) in self.edge_attr or
@@ -508,7 +508,7 @@ class Graph(object):
         Return:
             Value of edge attribute attr.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             return self.edge_attr[(n,m)][attr]
         else:
             try:
@@ -546,7 +546,7 @@ class Graph(object):
         Post:
             Edge attribute will be updated.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             self.edge_attr[(n,m)][attr] = value
         else:
             try:
@@ -1547,7 +1547,7 @@ class Graph(object):
         Return:
             Returns residual graph, which is a Graph instance.
         '''
-        if self.graph_type is UNDIRECTED_GRAPH:
+        if self.graph_type == UNDIRECTED_GRAPH:
             raise Exception('residual graph is defined for directed graphs.')
         residual_g = Graph(type = DIRECTED_GRAPH)
         for e in self.get_edge_list():
-- 
2.43.0


From d34ef12a238dd6c1c8bec7fa08a204cd45c77eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 03/37] fix: get_degrees of directed graphs, degrees and
 diameter of default graphs

get_degrees returned None for directed graphs, and all of these methods raised
KeyError on a graph that was created without an explicit type.
---
 src/gimpy/graph.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index ebe0c38..d2509fd 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3371,7 +3371,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] is not DIRECTED_GRAPH:
+        if self.graph_type != DIRECTED_GRAPH:
             for n in self.get_node_list():
                 degree[n] = len(self.get_neighbors(n))
             return degree
@@ -3379,6 +3379,7 @@ After installation, ensure that the PATH variable is properly set.''')
             for n in self.get_node_list():
                 degree[n] = (len(self.get_in_neighbors(n)) +
                              len(self.get_out_neighbors(n)))
+            return degree
 
     def get_in_degrees(self):
         '''
@@ -3391,7 +3392,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] is not DIRECTED_GRAPH:
+        if self.graph_type != DIRECTED_GRAPH:
             print('This function only works for directed graphs')
             return
         for n in self.get_node_list():
@@ -3409,7 +3410,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] is not DIRECTED_GRAPH:
+        if self.graph_type != DIRECTED_GRAPH:
             print('This function only works for directed graphs')
             return
         for n in self.get_node_list():
@@ -3429,7 +3430,7 @@ After installation, ensure that the PATH variable is properly set.''')
             Returns diameter of the graph.
         '''
 
-        if self.attr['type'] is not UNDIRECTED_GRAPH:
+        if self.graph_type != UNDIRECTED_GRAPH:
             print('This function only works for undirected graphs')
             return
         diameter = 'infinity'
-- 
2.43.0


From e3933683af7caa1c12e2c05a86c69a7882a46469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 04/37] fix: search on graphs with self loops

A self loop made a node its own predecessor, so a DFS for a destination behind
it never returned, and Dijkstra and Prim returned a predecessor for the
source.
---
 src/gimpy/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index d2509fd..cda35dd 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1066,7 +1066,8 @@ class Graph(object):
                 break
             self.display()
             for n in neighbors[current]:
-                if self.get_node(n).get_attr('color') != 'green':
+                # a self loop leads nowhere new
+                if n != current and self.get_node(n).get_attr('color') != 'green':
                     if reverse:
                         self.set_edge_attr(n, current, 'color', 'yellow')
                     else:
-- 
2.43.0


From be6d5f8ed6fa9311898afbfd97a992833512de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 05/37] fix: reverse search with Dijkstra and Prim

search(reverse = True) follows arcs backwards, but these two algorithms looked
up the cost of the forward arc, which raised KeyError or used the cost of
another arc.
---
 src/gimpy/graph.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index cda35dd..b1e55da 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1045,7 +1045,7 @@ class Graph(object):
         self.display()
         pred = {}
         self.process_edge_search(None, source, pred, q, component, algo,
-                                 **kargs)
+                                 reverse = reverse, **kargs)
         found = True
         if source != destination:
             found = False
@@ -1074,7 +1074,7 @@ class Graph(object):
                         self.set_edge_attr(current, n, 'color', 'yellow')
                     self.display()
                     self.process_edge_search(current, n, pred, q, component,
-                                             algo, **kargs)
+                                             algo, reverse = reverse, **kargs)
                     if reverse:
                         self.set_edge_attr(n, current, 'color', 'black')
                     else:
@@ -1110,7 +1110,8 @@ class Graph(object):
         if isinstance(q, PriorityQueue):
             self.get_node(node).set_attr('priority', q.get_priority(node))
 
-    def process_edge_dijkstra(self, current, neighbor, pred, q, component):
+    def process_edge_dijkstra(self, current, neighbor, pred, q, component,
+                              reverse = False):
         '''
         API: process_edge_dijkstra(self, current, neighbor, pred, q, component)
         Description:
@@ -1133,8 +1134,9 @@ class Graph(object):
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
             return
+        edge = (neighbor, current) if reverse else (current, neighbor)
         new_estimate = (q.get_priority(current) +
-                        self.get_edge_attr(current, neighbor, 'cost'))
+                        self.get_edge_attr(edge[0], edge[1], 'cost'))
         if neighbor not in pred or new_estimate < q.get_priority(neighbor):
             pred[neighbor] = current
             self.get_node(neighbor).set_attr('color', 'red')
@@ -1143,7 +1145,8 @@ class Graph(object):
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
 
-    def process_edge_prim(self, current, neighbor, pred, q, component):
+    def process_edge_prim(self, current, neighbor, pred, q, component,
+                          reverse = False):
         '''
         API: process_edge_prim(self, current, neighbor, pred, q, component)
         Description:
@@ -1166,7 +1169,8 @@ class Graph(object):
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
             return
-        new_estimate = self.get_edge_attr(current, neighbor, 'cost')
+        edge = (neighbor, current) if reverse else (current, neighbor)
+        new_estimate = self.get_edge_attr(edge[0], edge[1], 'cost')
         if not neighbor in pred or new_estimate < q.get_priority(neighbor):
             pred[neighbor] = current
             self.get_node(neighbor).set_attr('color', 'red')
@@ -1197,10 +1201,12 @@ class Graph(object):
         '''
         if algo == 'Dijkstra':
             return self.process_edge_dijkstra(current, neighbor, pred, q,
-                                              component)
+                                              component,
+                                              kargs.get('reverse', False))
         if algo == 'Prim':
             return self.process_edge_prim(current, neighbor, pred, q,
-                                          component)
+                                          component,
+                                          kargs.get('reverse', False))
         neighbor_node = self.get_node(neighbor)
         if current == None:
             neighbor_node.set_attr('distance', 0)
-- 
2.43.0


From 20b8bda540017f759fad2a0398d4e81dad13840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 06/37] fix: search without a component number keeps existing
 component labels

The source lost its 'component' label in every search that was not given a
component number, and get_diameter erased the labels of all nodes. The label
is still set, together with those of the other nodes, when one is given.
---
 src/gimpy/graph.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index b1e55da..878a394 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1018,11 +1018,9 @@ class Graph(object):
         if algo == 'DFS':
             if q is None:
                 q = Stack()
-            self.get_node(source).set_attr('component', component)
         elif algo == 'BFS' or algo == 'UnweightedSPT':
             if q is None:
                 q = Queue()
-            self.get_node(source).set_attr('component', component)
         elif algo in ['Dijkstra', 'Prim']:
             if q is None:
                 q = PriorityQueue()
-- 
2.43.0


From b7b4a6b4047a3e67d96facfed18facf64fbcdf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 07/37] fix: minimum_spanning_tree_prim when a node has an
 alternative edge

PriorityQueue.peek(key) returns the item, not the entry, so comparing with
peek(n)[0] raised TypeError as soon as a queued node was reached again. Nodes
left green by an earlier algorithm were skipped, a self loop gave the source a
predecessor, and the default queue was shared between calls.
---
 src/gimpy/graph.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 878a394..02eaf7f 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1247,7 +1247,7 @@ class Graph(object):
         self.display()
 
     def minimum_spanning_tree_prim(self, source, display = None,
-                                   q = PriorityQueue()):
+                                   q = None):
         '''
         API: minimum_spanning_tree_prim(self, source, display = None,
                                         q = PriorityQueue())
@@ -1268,13 +1268,17 @@ class Graph(object):
             display = self.attr['display']
         else:
             self.set_display_mode(display)
+        if q is None:
+            q = PriorityQueue()
         if isinstance(q, PriorityQueue):
             addToQ = q.push
             removeFromQ = q.pop
-            peek = q.peek
+            get_priority = q.get_priority
             isEmpty = q.isEmpty
         neighbors = self.get_neighbors
         pred = {}
+        for n in self.get_node_list():
+            self.set_node_attr(n, 'color', 'black')
         addToQ(source)
         done = False
         while not isEmpty() and not done:
@@ -1284,11 +1288,11 @@ class Graph(object):
                 self.set_edge_attr(pred[current], current, 'color', 'green')
             self.display()
             for n in neighbors(current):
-                if self.get_node_attr(n, 'color') != 'green':
+                if n != current and self.get_node_attr(n, 'color') != 'green':
                     self.set_edge_attr(current, n, 'color', 'yellow')
                     self.display()
                     new_estimate = self.get_edge_attr(current, n, 'cost')
-                    if not n in pred or new_estimate < peek(n)[0]:
+                    if not n in pred or new_estimate < get_priority(n):
                         pred[n] = current
                         self.set_node_attr(n, 'color', 'red')
                         self.set_node_attr(n, 'label', new_estimate)
-- 
2.43.0


From d5ffd2e8ca3d8ffba14e63fb4013c2845da3e272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 08/37] fix: hamiltonian calls itself and finds paths

It recursed into a method that does not exist, never accepted a path when no
destination was given (a path through n nodes has n-1 edges), and did not
clear the marks left by an earlier call.
---
 src/gimpy/graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 02eaf7f..886fd39 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -900,13 +900,14 @@ class Graph(object):
         if (distance == 0):
             for i in self.get_node_list():
                 self.get_node(i).set_attr('label', '-')
+                self.get_node(i).set_attr('visited', None)
             self.display()
 
         if destination != None:
             if source == destination and distance == self.get_node_num() - 1:
                 return True
         else:
-            if distance == self.get_node_num():
+            if distance == self.get_node_num() - 1:
                 return True
 
         self.get_node(source).set_attr('visited', True)
@@ -918,8 +919,8 @@ class Graph(object):
         for i in self.get_neighbors(source):
             if self.get_node(i).get_attr('visited') is None:
                 pred[i] = source
-                if (self.tsp(i, destination, distance+1, display = display, 
-                            pred = pred)):
+                if (self.hamiltonian(i, destination, distance+1,
+                                     display = display, pred = pred)):
                     return True
         if source in pred: # this is the original source node
             self.get_node(source).set_attr('color', 'black')            
-- 
2.43.0


From c3182fe1c6d62768482126bb957c3c489d4fc06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 09/37] fix: acyclic_shortest_path from a source that does not
 reach all nodes

It raised IndexError unless every node was reachable from the source, KeyError
if the source had incoming arcs, and IndexError when it was called again or
after a depth-first search.
---
 src/gimpy/graph.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 886fd39..549bacc 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -946,18 +946,17 @@ class Graph(object):
         self.search(root, display = display, component = component, q = Queue())
 
     def acyclic_shortest_path(G, source, destination = None):
-        dist = {}
+        dist = {source: 0}
         pred = {}
         order = []
         found = False
+        for m in G.get_node_list():
+            G.get_node(m).set_attr('disc_time', None)
         G.dfs(source, topological_order = order)
-        for j in range(len(G.get_node_list())):
-            m = order[j]
+        for m in order:
             if m == destination:
                 found = True
                 break
-            if len(G.get_in_neighbors(m)) == 0: 
-                dist[m] = 0
             for n in G.get_out_neighbors(m):
                 estimate = dist[m] + G.get_edge_attr(m ,n, "cost")
                 if n not in dist or dist[n] > estimate:
-- 
2.43.0


From ad508f08cad44ac8162438c55d20877121723872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 10/37] fix: tarjan discards the indices of an earlier run

A second call found every node already indexed, so it kept the components of
the first call, whatever had been added or removed since, and reported 0
components.
---
 src/gimpy/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 549bacc..d4f1a80 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -737,6 +737,8 @@ class Graph(object):
         index = 0
         component = 0
         q = []
+        for n in self.get_node_list():
+            self.set_node_attr(n, 'index', None)
         for n in self.get_node_list():
             if self.get_node_attr(n, 'index') is None:
                 index, component = self.strong_connect(q, n, index, component)
-- 
2.43.0


From 6b1a45f3ccec5eb06c1be84d1af3dac7044d740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 11/37] fix: floyd_warshall on graphs with self loops

A self loop with a positive cost became the distance from a node to itself,
and one with a negative cost made floyd_warshall_get_cycle raise KeyError.
---
 src/gimpy/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index d4f1a80..ead1767 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2110,13 +2110,15 @@ After installation, ensure that the PATH variable is properly set.''')
         for i in nl:
             distance[(i,i)] = 0
         for e in el:
-            distance[(e[0],e[1])] = self.get_edge_cost(e)
+            if e[0] != e[1] or self.get_edge_cost(e) < 0:
+                distance[(e[0],e[1])] = self.get_edge_cost(e)
         # == end of distance initialization
         # initialize next
         nextn = {}
         for i in nl:
             for j in nl:
-                if i==j or distance[(i,j)]=='infinity':
+                if (distance[(i,j)]=='infinity' or
+                    (i==j and distance[(i,j)]>=0)):
                     nextn[(i,j)] = None
                 else:
                     nextn[(i,j)] = i
-- 
2.43.0


From a9d9b493b4a9d760bde0a355acf585c34da14ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 12/37] fix: floyd_warshall_get_path repeats no node

Every node inside the path was listed three or more times, and asking for the
path from a node to itself raised KeyError.
---
 src/gimpy/graph.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index ead1767..0f96540 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2160,12 +2160,11 @@ After installation, ensure that the PATH variable is properly set.''')
         '''
         if distance[(i,j)]=='infinity':
             return None
+        if i==j:
+            return [i]
         k = nextn[(i,j)]
         path = self.floyd_warshall_get_path
-        if i==k:
-            return [i, j]
-        else:
-            return path(distance, nextn, i,k) + [k] + path(distance, nextn, k,j)
+        return path(distance, nextn, i,k) + [j]
 
     def floyd_warshall_get_cycle(self, distance, nextn, element = None):
         '''
-- 
2.43.0


From d717068cf65521e5754e0f21832855a05dd69a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 13/37] fix: get_negative_cycle on a graph without nodes

The residual graph of a network whose arcs all have capacity zero is empty, so
cycle canceling raised IndexError on it.
---
 src/gimpy/graph.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 0f96540..b5abc1d 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2068,8 +2068,6 @@ After installation, ensure that the PATH variable is properly set.''')
             Returns a list of nodes in the cycle if a negative cycle exists,
             returns None otherwise.
         '''
-        nl = self.get_node_list()
-        i = nl[0]
         (valid, distance, nextn) = self.floyd_warshall()
         if not valid:
             cycle = self.floyd_warshall_get_cycle(distance, nextn)
-- 
2.43.0


From 46762f45dcebddf1a83e9bcb1e1b9c73c863eb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 14/37] fix: fifo_label_correcting under Python 3

Unlabelled nodes have distance 'inf', a string, and comparing it with a number
raises TypeError.
---
 src/gimpy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index b5abc1d..0ea1514 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2260,7 +2260,7 @@ After installation, ensure that the PATH variable is properly set.''')
                 distance_j = self.get_node(j).get_attr('distance')
                 distance_i = self.get_node(i).get_attr('distance')
                 c_ij = self.get_edge_attr(i, j, 'cost')
-                if distance_j > distance_i + c_ij:
+                if distance_j == 'inf' or distance_j > distance_i + c_ij:
                     self.get_node(j).set_attr('distance', distance_i+c_ij)
                     if j in pred:
                         pred[j] = i
-- 
2.43.0


From 6e15db54e2edd469cbf4b8eb2de7420a221e3aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 15/37] fix: find_feasible_flow without supply, and with more
 demand than supply

When no node has supply (or none has demand) the auxiliary node did not exist,
and min_cost_flow raised KeyError. When demand exceeded supply the problem was
reported as feasible with a flow that does not satisfy the demand.
---
 src/gimpy/graph.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 0ea1514..9ad1b06 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1639,6 +1639,8 @@ class Graph(object):
         # establish a feasible flow in the network, to do this add nodes s and
         # t and solve a max flow problem.
         nl = self.get_node_list()
+        self.add_node('s')
+        self.add_node('t')
         for i in nl:
             b_i = self.get_node(i).get_attr('demand')
             if b_i > 0:
@@ -1658,6 +1660,13 @@ class Graph(object):
                 self.del_node('s')
                 self.del_node('t')
                 return False
+        for i in self.in_neighbors['t']:
+            flow = self.get_edge_attr(i, 't', 'flow')
+            capacity = self.get_edge_attr(i, 't', 'capacity')
+            if flow != capacity:
+                self.del_node('s')
+                self.del_node('t')
+                return False
         # remove node 's' and node 't'
         self.del_node('s')
         self.del_node('t')
-- 
2.43.0


From 604a005daa4ad49fc9161574f6b221c79d5ea683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 16/37] fix: network simplex with any node names

Node names were compared by identity, which loops forever or gives wrong
potentials for names that are equal but not the same object (integers above
256, strings), and were converted to int, which fails for other names.
---
 src/gimpy/graph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 9ad1b06..8d38e42 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2894,8 +2894,8 @@ After installation, ensure that the PATH variable is properly set.''')
                 depth[n] = depth[current]+1
                 q.append(n)
         for i in range(len(sequence)-1):
-            self.get_node(sequence[i]).set_attr('thread', int(sequence[i+1]))
-        self.get_node(sequence[-1]).set_attr('thread', int(sequence[0]))
+            self.get_node(sequence[i]).set_attr('thread', sequence[i+1])
+        self.get_node(sequence[-1]).set_attr('thread', sequence[0])
         for n in pred:
             self.get_node(n).set_attr('pred', pred[n])
             self.get_node(n).set_attr('depth', depth[n])
@@ -2959,7 +2959,7 @@ After installation, ensure that the PATH variable is properly set.''')
         pred = {nl[0]:None}
         for n in nl:
             self.get_node(n).set_attr('component', None)
-        component_nr = int(nl[0])
+        component_nr = nl[0]
         self.get_node(nl[0]).set_attr('component', component_nr)
         while True:
             while q:
@@ -2999,7 +2999,7 @@ After installation, ensure that the PATH variable is properly set.''')
                     depth = {n:0}
                     pred = {n:None}
                     visited = []
-                    component_nr = int(n)
+                    component_nr = n
                     self.get_node(n).set_attr('component', component_nr)
                     flag = True
                     break
@@ -3052,7 +3052,7 @@ After installation, ensure that the PATH variable is properly set.''')
         '''
         self.get_node(root).set_attr('potential', 0)
         j = t.get_node(root).get_attr('thread')
-        while j is not root:
+        while j != root:
             i = t.get_node(j).get_attr('pred')
             potential_i = self.get_node(i).get_attr('potential')
             if (i,j) in self.edge_attr:
@@ -3084,7 +3084,7 @@ After installation, ensure that the PATH variable is properly set.''')
         cycle = []
         li = [k]
         lj = [j]
-        while i is not j:
+        while i != j:
             depth_i = t.get_node(i).get_attr('depth')
             depth_j = t.get_node(j).get_attr('depth')
             if depth_i > depth_j:
-- 
2.43.0


From ab1db28925a238cef671bdfa031c99929cda7e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:15 +0000
Subject: [PATCH 17/37] fix: network simplex with arcs of capacity zero

The flow on such an arc is at its lower and at its upper bound, so it can
violate neither optimality condition. Letting it enter the tree reversed the
pivot cycle, and the algorithm pivoted forever or raised UnboundLocalError.
---
 src/gimpy/graph.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 8d38e42..45c9dff 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2705,6 +2705,8 @@ After installation, ensure that the PATH variable is properly set.''')
                 potential_i = self.get_node(e[0]).get_attr('potential')
                 potential_j = self.get_node(e[1]).get_attr('potential')
                 capacity_ij = self.edge_attr[e]['capacity']
+                if capacity_ij == 0:
+                    continue
                 c_ij = self.edge_attr[e]['cost']
                 cpi_ij = c_ij - potential_i + potential_j
                 if flow_ij==0:
@@ -2730,6 +2732,8 @@ After installation, ensure that the PATH variable is properly set.''')
                 potential_i = self.get_node(e[0]).get_attr('potential')
                 potential_j = self.get_node(e[1]).get_attr('potential')
                 capacity_ij = self.edge_attr[e]['capacity']
+                if capacity_ij == 0:
+                    continue
                 c_ij = self.edge_attr[e]['cost']
                 cpi_ij = c_ij - potential_i + potential_j
                 if flow_ij==0:
@@ -2766,6 +2770,9 @@ After installation, ensure that the PATH variable is properly set.''')
             potential_i = self.get_node(e[0]).get_attr('potential')
             potential_j = self.get_node(e[1]).get_attr('potential')
             capacity_ij = self.edge_attr[e]['capacity']
+            if capacity_ij == 0:
+                # the flow is both at its lower and at its upper bound
+                continue
             c_ij = self.edge_attr[e]['cost']
             cpi_ij = c_ij - potential_i + potential_j
             if flow_ij==0:
-- 
2.43.0


From bc02efb9e6ed174820015cea8674a800170d8176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 18/37] fix: create_cluster keeps clusters apart

The name chosen for a cluster was stored in the default argument (or in the
caller's dictionary), so the next unnamed cluster, even of another graph, got
the same name and replaced it, and a duplicate name was never detected. The
caller's node list was shared with the graph.
---
 src/gimpy/graph.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 45c9dff..e2b4858 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3492,18 +3492,22 @@ After installation, ensure that the PATH variable is properly set.''')
             A cluster will be created. Attributes of the nodes in the cluster
             may change.
         '''
+        cluster_attrs = copy.deepcopy(cluster_attrs)
         if 'name' in cluster_attrs:
-            if 'name' in self.cluster:
+            if cluster_attrs['name'] in self.cluster:
                 raise Exception('A cluster with name %s already exists!' %cluster_attrs['name'])
             else:
                 name = cluster_attrs['name']
         else:
             name = 'c%d' %self.attr['cluster_count']
+            while name in self.cluster:
+                self.attr['cluster_count'] += 1
+                name = 'c%d' %self.attr['cluster_count']
             self.attr['cluster_count'] += 1
             cluster_attrs['name'] = name
         #cluster_attrs['name'] =
-        self.cluster[name] = {'node_list':node_list,
-                              'attrs':copy.deepcopy(cluster_attrs),
+        self.cluster[name] = {'node_list':list(node_list),
+                              'attrs':cluster_attrs,
                               'node_attrs':copy.deepcopy(node_attrs)}
 
 
-- 
2.43.0


From 7b199f06e54abae1d9ccf6d13bc63d2ff6599936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 19/37] fix: del_node removes the node from its clusters

A graph could not be rendered any more after deleting a node that is in a
cluster.
---
 src/gimpy/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index e2b4858..20046ca 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -330,6 +330,9 @@ class Graph(object):
             del self.in_neighbors[name]
         del self.neighbors[name]
         del self.nodes[name]
+        for c in self.cluster:
+            if name in self.cluster[c]['node_list']:
+                self.cluster[c]['node_list'].remove(name)
 
     def add_edge(self, name1, name2, **attr):
         '''
-- 
2.43.0


From f2f8abfa88253aaef638cc12283129fa43908bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 20/37] fix: render clusters of undirected graphs

An edge inside a cluster was looked up under both orientations, which raised
KeyError because it is stored under one of them only.
---
 src/gimpy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 20046ca..bee6bf3 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -673,7 +673,7 @@ class Graph(object):
             # process cluster edges
             for n in self.cluster[c]['node_list']:
                 for m in self.cluster[c]['node_list']:
-                    if self.check_edge(n,m):
+                    if (n,m) in self.edge_attr:
                         data = self.edge_to_string((n,m))
                         graph.append(data + ';\n')
                         processed_edges[(n,m)]=None
-- 
2.43.0


From 7ea7e4dc0d16a36c7ee6c48fcc1f86276b0061eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 21/37] fix: quote names and attribute values of graphs and
 clusters

Cluster attributes other than the label were written as they are, so a value
that is not a string raised TypeError and one with a space or a '#' gave
invalid DOT, as did such a graph or cluster name and a graph attribute that is
neither a string nor a number.
---
 src/gimpy/graph.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index bee6bf3..8fdb681 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -640,28 +640,29 @@ class Graph(object):
         '''
         graph = list()
         processed_edges = {}
-        graph.append('%s %s {\n' %(self.graph_type, self.name))
+        graph.append('%s %s {\n' %(self.graph_type,
+                                  quote_if_necessary(str(self.name))))
         for a in self.attr:
             if a not in GRAPH_ATTRIBUTES:
                 continue
             val = self.attr[a]
             if val is not None:
-                graph.append( '%s=%s' % (a, quote_if_necessary(val)) )
+                graph.append( '%s=%s' % (a, quote_if_necessary(str(val))) )
             else:
                 graph.append(a)
             graph.append( ';\n' )
         # clusters
         for c in self.cluster:
-            graph.append('subgraph cluster_%s {\n' %c)
+            graph.append('subgraph %s {\n' %quote_if_necessary('cluster_%s' %c))
             for a in self.cluster[c]['attrs']:
                 if a=='label':
-                    graph.append(a+'='+quote_if_necessary(self.cluster[c]['attrs'][a])+';\n')
+                    graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['attrs'][a]))+';\n')
                     continue
-                graph.append(a+'='+self.cluster[c]['attrs'][a]+';\n')
+                graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['attrs'][a]))+';\n')
             if len(self.cluster[c]['node_attrs'])!=0:
                 graph.append('node [')
             for a in self.cluster[c]['node_attrs']:
-                graph.append(a+'='+self.cluster[c]['node_attrs'][a])
+                graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['node_attrs'][a])))
                 graph.append(',')
             if len(self.cluster[c]['node_attrs'])!=0:
                 graph.pop()
-- 
2.43.0


From 63a0c88c5e7c119929089f79b2b3ad3c5c405716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 22/37] fix: quote everything that is not a DOT identifier

Commas, colons and embedded quotes, DOT keywords and the empty string were
written without quotes. A label such as '12:30' or '1,2' or an empty one made
the whole graph unreadable for Graphviz, a node called 'node' disappeared, and
nodes 'a:x' and 'a:y' became one node.
---
 src/gimpy/global_constants.py | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/gimpy/global_constants.py b/src/gimpy/global_constants.py
index 316819c..f01479d 100644
--- a/src/gimpy/global_constants.py
+++ b/src/gimpy/global_constants.py
@@ -120,10 +120,8 @@ DOT2TEX_TEMPLATE = r'''
 
 # following globals and two methods are from pydot
 DOT_KEYWORDS = ['graph', 'subgraph', 'digraph', 'node', 'edge', 'strict']
-ID_RE_ALPHA_NUMS = re.compile('^[_a-zA-Z][a-zA-Z0-9_,]*$', re.UNICODE)
-ID_RE_ALPHA_NUMS_WITH_PORTS = re.compile('^[_a-zA-Z][a-zA-Z0-9_,:\"]*[a-zA-Z0-9_,\"]+$', re.UNICODE)
-ID_RE_NUM = re.compile('^[0-9,]+$', re.UNICODE)
-ID_RE_WITH_PORT = re.compile('^([^:]*):([^:]*)$', re.UNICODE)
+ID_RE_ALPHA_NUMS = re.compile('^[_a-zA-Z][a-zA-Z0-9_]*$', re.UNICODE)
+ID_RE_NUM = re.compile('^[0-9]+$', re.UNICODE)
 ID_RE_DBL_QUOTED = re.compile('^\".*\"$', re.S|re.UNICODE)
 ID_RE_HTML = re.compile('^<.*>$', re.S|re.UNICODE)
 
@@ -135,7 +133,7 @@ def quote_if_necessary(s):
     if not isinstance(s, basestring):
         return s
     if not s:
-        return s
+        return '""'
     if needs_quotes(s):
         replace = {'"'  : r'\"',
                    "\n" : r'\n',
@@ -151,24 +149,14 @@ def needs_quotes(s):
     It will check whether the string is solely composed
     by the characters allowed in an ID or not.
     If the string is one of the reserved keywords it will
-    need quotes too but the user will need to add them
-    manually.
+    need quotes too.
     """
-    # If the name is a reserved keyword it will need quotes but pydot
-    # can't tell when it's being used as a keyword or when it's simply
-    # a name. Hence the user needs to supply the quotes when an element
-    # would use a reserved keyword as name. This function will return
-    # false indicating that a keyword string, if provided as-is, won't
-    # need quotes.
-    if s in DOT_KEYWORDS:
-        return False
+    if s.lower() in DOT_KEYWORDS:
+        return True
     chars = [ord(c) for c in s if ord(c)>0x7f or ord(c)==0]
     if chars and not ID_RE_DBL_QUOTED.match(s) and not ID_RE_HTML.match(s):
         return True
-    for test_re in [ID_RE_ALPHA_NUMS, ID_RE_NUM, ID_RE_DBL_QUOTED, ID_RE_HTML, ID_RE_ALPHA_NUMS_WITH_PORTS]:
+    for test_re in [ID_RE_ALPHA_NUMS, ID_RE_NUM, ID_RE_DBL_QUOTED, ID_RE_HTML]:
         if test_re.match(s):
             return False
-    m = ID_RE_WITH_PORT.match(s)
-    if m:
-        return needs_quotes(m.group(1)) or needs_quotes(m.group(2))
     return True
-- 
2.43.0


From 2bf12a8fbfc535e53cd8635e9e2660635afd1afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 23/37] fix: Tree.dfs, bfs and traverse from the root of the
 tree

Without a root argument they started from the root Node object instead of its
name, which raised KeyError.
---
 src/gimpy/tree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 169f471..6a2621b 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -118,7 +118,7 @@ class Tree(Graph):
             display: Display argument.
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
         if display == None:
             display = self.attr['display']
         self.traverse(root, display, Stack())
@@ -137,7 +137,7 @@ class Tree(Graph):
             display: Display argument.
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
         if display == None:
             display = self.attr['display']
         self.traverse(root, display, Queue())
@@ -159,7 +159,7 @@ class Tree(Graph):
             Queue().
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
         if display == None:
             display = self.attr['display']
         if isinstance(q, Queue):
-- 
2.43.0


From 93f51ba6831e60cf0dc6b1f4f8cc79016a80b7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 24/37] fix: BinaryTree keeps its children when adding a child
 fails

The parent was linked to the new child before the child was added, so a name
that is already in the tree raised an exception but left another node linked
as the child.
---
 src/gimpy/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 6a2621b..c43e4d8 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -223,8 +223,8 @@ class BinaryTree(Tree):
             msg = "Right child already exists for node " + str(parent)
             raise Exception(msg)
         attrs['direction'] = 'R'
-        self.set_node_attr(parent, 'Rchild', n)
         self.add_child(n, parent, **attrs)
+        self.set_node_attr(parent, 'Rchild', n)
 
     def add_left_child(self, n, parent, **attrs):
         '''
@@ -242,8 +242,8 @@ class BinaryTree(Tree):
             msg = "Right child already exists for node " + str(parent)
             raise Exception(msg)
         attrs['direction'] = 'L'
-        self.set_node_attr(parent, 'Lchild', n)
         self.add_child(n, parent, **attrs)
+        self.set_node_attr(parent, 'Lchild', n)
 
     def get_right_child(self, n):
         '''
-- 
2.43.0


From b98aeaa190d0f4a6903dde9d9d2a23112a9d9901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 25/37] fix: BinaryTree.del_node of the root

The root has no parent, and looking that up raised AttributeError.
---
 src/gimpy/tree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index c43e4d8..47d22d8 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -290,7 +290,9 @@ class BinaryTree(Tree):
             n: Node name.
         '''
         parent = self.get_node_attr(n, 'parent')
-        if self.get_node_attr(n, 'direction') == 'R':
+        if parent is None:
+            self.root = None
+        elif self.get_node_attr(n, 'direction') == 'R':
             self.set_node_attr(parent, 'Rchild', None)
         else:
             self.set_node_attr(parent, 'Lchild', None)
-- 
2.43.0


From fb5deaacac88191a385a4cd6c9ff4deaa33b2b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 26/37] fix: expression trees with zero values and with names
 such as 0

postordereval took a subexpression that evaluates to zero for a missing one and
then failed on the operator, and printexp and postordereval skipped children
whose name is 0 or empty.
---
 src/gimpy/tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 47d22d8..69fa0fd 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -438,7 +438,7 @@ class BinaryTree(Tree):
             root = self.root
         if display == None:
             display = self.attr['display']
-        if self.get_left_child(root):
+        if self.get_left_child(root) is not None:
             if display:
                 self.display(highlight = [root])
             print('(', end=' ')
@@ -457,7 +457,7 @@ class BinaryTree(Tree):
         sys.stdout.flush()
         if display:
                 self.display(highlight = [root])
-        if self.get_right_child(root):
+        if self.get_right_child(root) is not None:
             self.printexp(display, self.get_right_child(root))
             print(')', end=' ')
             sys.stdout.flush()
@@ -473,7 +473,7 @@ class BinaryTree(Tree):
                  '/':operator.truediv}
         res1 = None
         res2 = None
-        if self.get_left_child(root):
+        if self.get_left_child(root) is not None:
             if display:
                 self.display(highlight = [root])
             res1 = self.postordereval(display, self.get_left_child(root))
@@ -490,9 +490,9 @@ class BinaryTree(Tree):
         sys.stdout.flush()
         if display:
                 self.display(highlight = [root])
-        if self.get_right_child(root):
+        if self.get_right_child(root) is not None:
             res2 = self.postordereval(display, self.get_right_child(root))
-        if res1 and res2:
+        if res1 is not None and res2 is not None:
             result = opers[root_label](res1 , res2)
             print('=', result)
             sys.stdout.flush()
-- 
2.43.0


From 875ff2785c9e1eefbf76d0b20cfdb71d8b56de67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 27/37] fix: random without labels and without lengths

With add_labels = False every edge was added twice, which raised
MultipleEdgeException, and with length_range = None a degree range gave a
graph without edges.
---
 src/gimpy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 8fdb681..35bf283 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3252,8 +3252,8 @@ After installation, ensure that the PATH variable is properly set.''')
                                 self.add_edge(m, n, cost = length, **edge_format)
                                 if add_labels:
                                     self.set_edge_attr(m, n, 'label', str(length))
-                                else:
-                                    self.add_edge(m, n, **edge_format)
+                            else:
+                                self.add_edge(m, n, **edge_format)
                         i += 1
             elif density != None:
                 for m in range(numnodes):
-- 
2.43.0


From 0f5c1af590accbeb1947e927277a3e5f7875c6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 28/37] fix: random Euclidean graphs with random or many
 neighbors

node_selection = 'random' raised NameError because no neighbor was chosen
before its distance was computed (and would have looped forever once no edge
could be added), and 'closest' raised IndexError when the degree exceeds the
number of other nodes.
---
 src/gimpy/graph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 35bf283..e6ad4a5 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3292,6 +3292,7 @@ After installation, ensure that the PATH variable is properly set.''')
                     neighbors = []
                     if node_selection == 'random':
                         while i < degree:
+                            n = random.randint(0, numnodes-1)
                             length = round((((self.get_node(n).get_attr('locationx') -
                                               self.get_node(m).get_attr('locationx')) ** 2 +
                                              (self.get_node(n).get_attr('locationy') -
@@ -3299,11 +3300,11 @@ After installation, ensure that the PATH variable is properly set.''')
                                            0)
                             if (((m,n) not in self.edge_attr and m != n) and
                                 (parallel_allowed or (n, m) not in self.edge_attr)):
-                                neighbors.append(random.randint(0, numnodes-1))
+                                neighbors.append(n)
                                 self.add_edge(m, n, cost = int(length), **edge_format)
                                 if add_labels:
                                     self.set_edge_attr(m, n, 'label', str(int(length)))
-                                i += 1
+                            i += 1
                     elif node_selection == 'closest':
                         lengths = []
                         for n in range(numnodes):
@@ -3313,7 +3314,7 @@ After installation, ensure that the PATH variable is properly set.''')
                                                         self.get_node(m).get_attr('locationy')) ** 2) ** 0.5)*scale_cost,
                                                      0)))
                         lengths.sort(key = lambda l : l[1])
-                        for i in range(degree+1):
+                        for i in range(min(degree+1, numnodes)):
                             if not (lengths[i][0] == m or self.check_edge(m, lengths[i][0])):
                                 self.add_edge(m, lengths[i][0], cost = int(lengths[i][1]), **edge_format)
                                 if add_labels:
-- 
2.43.0


From 83dc9cad507313cd6486a0a2ddde9df9c94aa840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 29/37] fix: floyd_warshall_get_cycle returns a negative cycle

Once a negative cycle is known, further updates of nextn follow it, and the
cycle read from nextn could have cost zero or more. Cycle canceling then
augmented along it forever.
---
 src/gimpy/graph.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index e6ad4a5..867cece 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2134,6 +2134,10 @@ After installation, ensure that the PATH variable is properly set.''')
                 else:
                     nextn[(i,j)] = i
         # == end of next initialization
+        # a negative self loop is a negative cycle
+        for i in nl:
+            if distance[(i,i)] < 0:
+                return (False, distance, nextn)
         # compute shortest distance
         for k in nl:
             for i in nl:
@@ -2146,13 +2150,12 @@ After installation, ensure that the PATH variable is properly set.''')
                     elif distance[(i,j)] > distance[(i,k)] + distance[(k,j)]:
                         distance[(i,j)] = distance[(i,k)] + distance[(k,j)]
                         nextn[(i,j)] = nextn[(k,j)]
+                if distance[(i,i)] < 0:
+                    # shortest distances are not valid, graph has negative
+                    # cycle. Stop here, further updates would follow the
+                    # cycle and nextn would no longer lead to it.
+                    return (False, distance, nextn)
         # == end of compute shortest distance
-        # check if graph has negative cycles
-        for i in nl:
-            if distance[(i,i)] < 0:
-                # shortest distances are not valid
-                # graph has negative cycle
-                return (False, distance, nextn)
         return (True, distance, nextn)
 
     def floyd_warshall_get_path(self, distance, nextn, i, j):
@@ -2211,7 +2214,8 @@ After installation, ensure that the PATH variable is properly set.''')
         if k==element:
             return cycle
         else:
-            return self.floyd_warshall_get_cycle(distance, nextn, k)
+            # the path from i to i leads into a negative cycle without i
+            return cycle[1:cycle.index(k)+1]
 
     def find_cycle_capacity(self, cycle):
         '''
-- 
2.43.0


From ff5cb4c80d5e55a76e7407600f16b54ed0ed96c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:54 +0000
Subject: [PATCH 30/37] fix: quote names of node and edge attributes

---
 src/gimpy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 867cece..bbe4df4 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -171,7 +171,7 @@ class Node(object):
         flag = False
         for a in self.attr:
             flag = True
-            node.append(a)
+            node.append(quote_if_necessary(str(a)))
             node.append('=')
             node.append(quote_if_necessary(str(self.attr[a])))
             node.append(', ')
@@ -620,7 +620,7 @@ class Graph(object):
             return ''.join(edge)
         edge.append('  [')
         for a in self.edge_attr[e]:
-            edge.append(a)
+            edge.append(quote_if_necessary(str(a)))
             edge.append('=')
             edge.append(quote_if_necessary(str(self.edge_attr[e][a])))
             edge.append(', ')
-- 
2.43.0


From 089240303acc6cab41aa3e30a0686a0c2a9a97f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:54 +0000
Subject: [PATCH 31/37] fix: a graph attribute that is None is not rendered as
 a node

---
 src/gimpy/graph.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index bbe4df4..1ffef54 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -648,9 +648,7 @@ class Graph(object):
             val = self.attr[a]
             if val is not None:
                 graph.append( '%s=%s' % (a, quote_if_necessary(str(val))) )
-            else:
-                graph.append(a)
-            graph.append( ';\n' )
+                graph.append( ';\n' )
         # clusters
         for c in self.cluster:
             graph.append('subgraph %s {\n' %quote_if_necessary('cluster_%s' %c))
-- 
2.43.0


From 843c805e92f8b925aae8e9a89ff240faf8fd61d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:11 +0000
Subject: [PATCH 32/37] fix: tarjan() sets num_components on an empty graph

---
 src/gimpy/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 1ffef54..535bd6e 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -738,6 +738,7 @@ class Graph(object):
         '''
         index = 0
         component = 0
+        self.num_components = 0
         q = []
         for n in self.get_node_list():
             self.set_node_attr(n, 'index', None)
-- 
2.43.0


From f6950e1099a31baf79a44cc65c32fd185e01e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:14 +0000
Subject: [PATCH 33/37] fix: algorithms given a display mode for one call
 restore the mode of the graph

---
 src/gimpy/graph.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 535bd6e..740f47a 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -830,6 +830,7 @@ class Graph(object):
         '''
         if pred == None:
             pred = {}
+        old_display = self.attr['display']
         if display == None:
             display = self.attr['display']
         else:
@@ -876,6 +877,7 @@ class Graph(object):
         self.get_node(root).set_attr('label', label)
         self.get_node(root).set_attr('color', 'green')
         self.display()
+        self.set_display_mode(old_display)
         finish_count += 1
         return disc_count, finish_count
 
@@ -897,6 +899,7 @@ class Graph(object):
         '''
         if pred == None:
             pred = {}
+        old_display = self.attr['display']
         if display == None:
             display = self.attr['display']
         else:
@@ -910,9 +913,11 @@ class Graph(object):
 
         if destination != None:
             if source == destination and distance == self.get_node_num() - 1:
+                self.set_display_mode(old_display)
                 return True
         else:
             if distance == self.get_node_num() - 1:
+                self.set_display_mode(old_display)
                 return True
 
         self.get_node(source).set_attr('visited', True)
@@ -926,6 +931,7 @@ class Graph(object):
                 pred[i] = source
                 if (self.hamiltonian(i, destination, distance+1,
                                      display = display, pred = pred)):
+                    self.set_display_mode(old_display)
                     return True
         if source in pred: # this is the original source node
             self.get_node(source).set_attr('color', 'black')            
@@ -933,6 +939,7 @@ class Graph(object):
             self.display()
             self.get_node(source).set_attr('visited', None)
             self.get_node(source).set_attr('label', '-')
+        self.set_display_mode(old_display)
         return False
 
     def bfs(self, root, display = None, component = None):
@@ -1016,6 +1023,7 @@ class Graph(object):
             If there is no path returns predecessor tree in dictionary form.
             See description section.
         '''
+        old_display = self.attr['display']
         if display == None:
             display = self.attr['display']
         else:
@@ -1031,6 +1039,7 @@ class Graph(object):
                 q = PriorityQueue()
         else:
             print("Unknown search algorithm...exiting")
+            self.set_display_mode(old_display)
             return
         neighbors = self.neighbors
         if self.graph_type == DIRECTED_GRAPH and reverse:
@@ -1085,6 +1094,7 @@ class Graph(object):
             q.remove(current)
             self.get_node(current).set_attr('color', 'green')
             self.display()
+        self.set_display_mode(old_display)
         if found:
             path = [destination]
             current = destination
@@ -1269,6 +1279,7 @@ class Graph(object):
         Return:
             Returns predecessor tree in dictionary format.
         '''
+        old_display = self.attr['display']
         if display == None:
             display = self.attr['display']
         else:
@@ -1307,6 +1318,7 @@ class Graph(object):
                     self.set_edge_attr(current, n, 'color', 'black')
             self.set_node_attr(current, 'color', 'green')
             self.display()
+        self.set_display_mode(old_display)
         return pred
 
     def minimum_spanning_tree_kruskal(self, display = None, components = None):
@@ -1324,6 +1336,7 @@ class Graph(object):
             Returns list of edges where edges are tuples in (source,sink)
             format.
         '''
+        old_display = self.attr['display']
         if display == None:
             display = self.attr['display']
         else:
@@ -1349,6 +1362,7 @@ class Graph(object):
                 self.set_edge_attr(e[0], e[1], 'color', 'black')
                 self.display()
             components.display()
+        self.set_display_mode(old_display)
         return edges
 
     def max_flow_preflowpush(self, source, sink, algo = 'FIFO', display = None):
@@ -1370,6 +1384,7 @@ class Graph(object):
         Post:
             The 'flow' attribute of each arc gives a maximum flow.
         '''
+        old_display = self.attr['display']
         if display == None:
             display = self.attr['display']
         else:
@@ -1458,6 +1473,7 @@ class Graph(object):
                     q.push(n)
                 elif algo == 'HighestLabel':
                     q.push(n, -self.get_node_attr(n, 'distance'))
+        self.set_display_mode(old_display)
 
     def process_edge_flow(self, source, sink, i, j, algo, q):
         '''
@@ -2409,6 +2425,7 @@ After installation, ensure that the PATH variable is properly set.''')
         if not self.find_feasible_flow():
             return False
         t = self.simplex_find_tree()
+        old_display = self.attr['display']
         self.set_display_mode(display)
         # mark spanning tree arcs
         self.simplex_mark_st_arcs(t)
@@ -2444,6 +2461,7 @@ After installation, ensure that the PATH variable is properly set.''')
             t.simplex_search(root, 1)
             # compute potentials
             self.simplex_compute_potentials(t, root)
+        self.set_display_mode(old_display)
         return True
 
     def simplex_mark_leaving_arc(self, p, q):
-- 
2.43.0


From f5692390535871a492afb99cc406813ea2432060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:29 +0000
Subject: [PATCH 34/37] fix: traversals and expressions of trees draw in the
 display mode they are given

---
 src/gimpy/tree.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 69fa0fd..c84901b 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -158,10 +158,14 @@ class Tree(Graph):
             q: Queue data structure instance. It is either a Stack() or
             Queue().
         '''
+        old_display = None
         if root == None:
             root = self.root.name
         if display == None:
             display = self.attr['display']
+        else:
+            old_display = self.attr['display']
+            self.attr['display'] = display
         if isinstance(q, Queue):
             addToQ = q.enqueue
             removeFromQ = q.dequeue
@@ -176,6 +180,8 @@ class Tree(Graph):
                 self.display(highlight = [current])
             for n in self.get_children(current):
                 addToQ(n)
+        if old_display:
+            self.attr['display'] = old_display
 
 
 class BinaryTree(Tree):
@@ -434,10 +440,14 @@ class BinaryTree(Tree):
             self.attr['display'] = old_display
 
     def printexp(self, display = None, root = None):
+        old_display = None
         if root == None:
             root = self.root
         if display == None:
             display = self.attr['display']
+        else:
+            old_display = self.attr['display']
+            self.attr['display'] = display
         if self.get_left_child(root) is not None:
             if display:
                 self.display(highlight = [root])
@@ -463,12 +473,18 @@ class BinaryTree(Tree):
             sys.stdout.flush()
             if display:
                 self.display(highlight = [root])
+        if old_display:
+            self.attr['display'] = old_display
 
     def postordereval(self, display = None, root = None):
+        old_display = None
         if root == None:
             root = self.root
         if display == None:
             display = self.attr['display']
+        else:
+            old_display = self.attr['display']
+            self.attr['display'] = display
         opers = {'+':operator.add, '-':operator.sub, '*':operator.mul,
                  '/':operator.truediv}
         res1 = None
@@ -500,9 +516,11 @@ class BinaryTree(Tree):
                 self.display(highlight = [root])
             print(result, end=' ')
             sys.stdout.flush()
-            return result
         else:
-            return int(root_label) 
+            result = int(root_label)
+        if old_display:
+            self.attr['display'] = old_display
+        return result
 
 if __name__ == '__main__':
 
-- 
2.43.0


From a547410857ca8b97d7c36306bff3c7629773a4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 35/37] fix: nodes highlighted in a file do not stay
 highlighted

---
 src/gimpy/graph.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 740f47a..8dbb145 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1844,7 +1844,6 @@ After installation, ensure that the PATH variable is properly set.''')
             else:
                 with open(basename+'.'+format, "w+b") as f:
                     self.write(f, self.get_layout(), format)
-            return
         elif self.attr['display'] == 'PIL':
             if PIL_INSTALLED:
                 tmp_fd, tmp_name = tempfile.mkstemp()
-- 
2.43.0


From f5b4635c033f97031a31989725456fde257e1a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:03 +0000
Subject: [PATCH 36/37] fix: no temporary file is left when Graphviz is missing
 or fails

---
 src/gimpy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 8dbb145..04d58ac 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1762,12 +1762,12 @@ Graphviz must be installed and in your search path.
 Please visit http://www.graphviz.org/ for information on installation.
 After installation, ensure that the PATH variable is properly set.''')
             return None
+        finally:
+            os.remove(tmp_name)
 
         
         p.check_returncode()
 
-        os.remove(tmp_name)
-            
         if p.stderr:
             print(p.stderr)
         return p.stdout
-- 
2.43.0


From 92fe19297b694aa024144e0a76e4ae7145de1d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:02 +0000
Subject: [PATCH 37/37] fix: display in PIL and matplotlib modes leaves no
 temporary file when Graphviz is missing or fails

The image is only opened if there is one.
---
 src/gimpy/graph.py | 64 +++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 04d58ac..6a556d7 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1848,11 +1848,16 @@ After installation, ensure that the PATH variable is properly set.''')
             if PIL_INSTALLED:
                 tmp_fd, tmp_name = tempfile.mkstemp()
                 tmp_file = os.fdopen(tmp_fd, 'w+b')
-                self.write(tmp_file, self.get_layout(), format)
-                tmp_file.close()
-                im = PIL_Image.open(tmp_name)
-                im.show()
-                os.remove(tmp_name)
+                try:
+                    self.write(tmp_file, self.get_layout(), format)
+                    tmp_file.close()
+                    # the file is empty if Graphviz is missing
+                    if os.path.getsize(tmp_name) > 0:
+                        im = PIL_Image.open(tmp_name)
+                        im.show()
+                finally:
+                    tmp_file.close()
+                    os.remove(tmp_name)
             else:
                 print('Error: PIL not installed. Display disabled.')
                 self.attr['display'] = 'off'
@@ -1860,28 +1865,33 @@ After installation, ensure that the PATH variable is properly set.''')
             if MATPLOTLIB_INSTALLED and PIL_INSTALLED:
                 tmp_fd, tmp_name = tempfile.mkstemp()
                 tmp_file = os.fdopen(tmp_fd, 'w+b')
-                self.write(tmp_file, self.get_layout(), format)
-                tmp_file.close()
-                im = PIL_Image.open(tmp_name)
-                fig = plt.figure(1)
-                fig.canvas.mpl_connect('close_event', handle_close)
-                plt.clf()
-                plt.axis('off')
-                plt.imshow(im, interpolation='bilinear' #resample=True
-                           #extent = (0, 100, 0, 100)
-                )
-                if wait_for_click == True:
-                    plt.draw()
-                    try:
-                        if plt.waitforbuttonpress(timeout = 10000):
-                            plt.close()
-                            exit()
-                    except:
-                        exit()
-                else:
-                    plt.show(block=pause)
-                im.close()
-                os.remove(tmp_name)
+                try:
+                    self.write(tmp_file, self.get_layout(), format)
+                    tmp_file.close()
+                    # the file is empty if Graphviz is missing
+                    if os.path.getsize(tmp_name) > 0:
+                        im = PIL_Image.open(tmp_name)
+                        fig = plt.figure(1)
+                        fig.canvas.mpl_connect('close_event', handle_close)
+                        plt.clf()
+                        plt.axis('off')
+                        plt.imshow(im, interpolation='bilinear' #resample=True
+                                   #extent = (0, 100, 0, 100)
+                        )
+                        if wait_for_click == True:
+                            plt.draw()
+                            try:
+                                if plt.waitforbuttonpress(timeout = 10000):
+                                    plt.close()
+                                    exit()
+                            except:
+                                exit()
+                        else:
+                            plt.show(block=pause)
+                        im.close()
+                finally:
+                    tmp_file.close()
+                    os.remove(tmp_name)
             else:
                 print('Warning: Either matplotlib or Pillow is not installed. Display disabled.')
                 self.attr['display'] = 'off'
-- 
2.43.0

