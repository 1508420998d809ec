From db69764629e3a6c58da5882d8c51259a5af23617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 01/23] fix: propagate evidence in every component of a join
 forest

---
 pybbn/pptc/propagator.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pybbn/pptc/propagator.py b/pybbn/pptc/propagator.py
index 773b188..1385438 100644
--- a/pybbn/pptc/propagator.py
+++ b/pybbn/pptc/propagator.py
@@ -18,13 +18,18 @@ class Propagator(object):
         cliques = join_tree.get_cliques()
         cliques = sorted(cliques, key=lambda c: c.id)
         # cliques = sorted(cliques, key=lambda c: c.get_sid())
-        x = cliques[0]
 
+        # the join tree may be a forest; propagate over every connected component
+        roots = []
         join_tree.unmark_cliques()
-        Propagator.collect_evidence(join_tree, x)
+        for x in cliques:
+            if not x.is_marked():
+                Propagator.collect_evidence(join_tree, x)
+                roots.append(x)
 
         join_tree.unmark_cliques()
-        Propagator.distribute_evidence(join_tree, x)
+        for x in roots:
+            Propagator.distribute_evidence(join_tree, x)
 
         return join_tree
 
-- 
2.43.0


From 2cc212e7f91c3d65a667143b3f0f5a8b5d7b1f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 02/23] fix: keep isolated cliques when a join tree is
 deserialized

---
 pybbn/graph/jointree.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index a67e2f9..1d782b8 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -492,11 +492,10 @@ class JoinTree(Ug):
         edges = [JtEdge(sepsets[e]) for e in d["jt"]["edges"]]
 
         jt = JoinTree()
-        if len(edges) > 0:
-            for e in edges:
-                jt.add_edge(e)
-        else:
-            jt.nodes = cliques
+        for clique in cliques.values():
+            jt.add_node(clique)
+        for e in edges:
+            jt.add_edge(e)
 
         jt.parent_info = {int(k): v for k, v in d["jt"]["parent_info"].items()}
         return jt
-- 
2.43.0


From 42112bcc25e8b133cec9dad9275f9317c3356c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 03/23] fix: drop stale clique assignments before building a
 new join tree

---
 pybbn/pptc/inferencecontroller.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pybbn/pptc/inferencecontroller.py b/pybbn/pptc/inferencecontroller.py
index c32813b..b8cee43 100644
--- a/pybbn/pptc/inferencecontroller.py
+++ b/pybbn/pptc/inferencecontroller.py
@@ -22,6 +22,10 @@ class InferenceController(JoinTreeListener):
         :param bbn: BBN graph.
         :return: Join tree.
         """
+        # clique assignments of an earlier join tree do not carry over
+        for node in bbn.get_nodes():
+            node.metadata.pop("parent.clique", None)
+
         PotentialInitializer.init(bbn)
 
         ug = Moralizer.moralize(bbn)
-- 
2.43.0


From a450781b00e87f902caa7ca0d80cad6235b74a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 04/23] fix: virtual evidence with a single certain value is
 not an observation

---
 pybbn/graph/jointree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 1d782b8..54f9b8c 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -795,7 +795,7 @@ class Evidence(object):
         for k, v in values.items():
             if 1.0 == v:
                 one += 1
-            else:
+            elif 0.0 == v:
                 zero += 1
 
         return 1 == one and len(values) - 1 == zero
-- 
2.43.0


From 6d4ccbafd191abc0e7e1b04e163af74cc03e99e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 05/23] fix: set_observation toggles only when the same value
 is already observed

---
 pybbn/graph/jointree.py | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index 54f9b8c..e17f490 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -385,27 +385,19 @@ class JoinTree(Ug):
         :param evidence: Evidence.
         :return: This join tree.
         """
+        evidence.validate()
         potentials = self.evidences[evidence.node.id]
 
-        pvalues = []
-        for v, potential in potentials.items():
-            entry = potential.entries[0]
-            p = entry.value
-            if 1.0 == p:
-                pvalues.append(v)
-
-        cvalues = []
-        for v, likelihood in evidence.values.items():
-            if 1.0 == likelihood:
-                cvalues.append(v)
-
-        if 1 == len(pvalues):
-            last_value = pvalues[0]
-            curr_value = cvalues[0]
-            if last_value == curr_value:
-                self.unobserve([evidence.node])
-            else:
-                self.update_evidences([evidence])
+        last = Evidence.__convert__(potentials)
+        curr = evidence.values
+
+        if (
+            Evidence.__is_observed__(last)
+            and Evidence.__is_observed__(curr)
+            and Evidence.__get_observed_value__(last)
+            == Evidence.__get_observed_value__(curr)
+        ):
+            self.unobserve([evidence.node])
         else:
             self.update_evidences([evidence])
 
-- 
2.43.0


From 58e53b6a328431cce28bb9238b7da00c104bd941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 06/23] fix: sort sampled nodes topologically for every id
 assignment

---
 pybbn/sampling/sampling.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 7793a81..783abb3 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -1,7 +1,6 @@
 import bisect
 import copy
 import itertools
-from functools import cmp_to_key
 
 import numpy as np
 
@@ -123,15 +122,15 @@ class LogicSampler(object):
             SortableNode(node.id, set(self.bbn.get_parents_ordered(node.id)))
             for node in self.bbn.get_nodes()
         ]
-        id_sorter = lambda x, y: -1 if x < y else 1 if x > y else 0
-        pa_sorter = lambda x, y: (
-            -1
-            if x.node_id in y.parent_ids
-            else 1 if y.node_id in x.parent_ids else id_sorter(x.node_id, y.node_id)
-        )
-        nodes = sorted(nodes, key=cmp_to_key(pa_sorter))
-        nodes = [n.node_id for n in nodes]
-        return nodes
+        nodes = sorted(nodes, key=lambda n: n.node_id)
+
+        # repeatedly take the smallest id whose parents have all been taken
+        ordered = []
+        while len(nodes) > 0:
+            node = next(n for n in nodes if n.parent_ids.issubset(ordered))
+            nodes.remove(node)
+            ordered.append(node.node_id)
+        return ordered
 
     def get_samples(self, evidence={}, n_samples=100, seed=37):
         """
-- 
2.43.0


From d40051cdc5413234dfcfbd8b85817868545532b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:27 +0000
Subject: [PATCH 07/23] fix: reject samples that disagree with evidence on the
 last sampled node

---
 pybbn/sampling/sampling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 783abb3..2228d7d 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -147,16 +147,19 @@ class LogicSampler(object):
         while True:
             sample = copy.deepcopy(evidence)
 
+            accepted = True
+
             probs = np.random.uniform(0.0, 1.0, size=n)
             for p, node_id in zip(probs, self.nodes):
                 table = self.tables[node_id]
                 val = table.get_value(p, sample=sample)
 
                 if node_id in evidence and val != evidence[node_id]:
+                    accepted = False
                     break
                 sample[node_id] = val
 
-            if len(sample) == n:
+            if accepted:
                 samples.append(sample)
 
             if len(samples) == n_samples:
-- 
2.43.0


From f1941965d87abba4591e3d1cd506154f2f6748f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 08/23] fix: sample from CPT rows in the parent order used by
 inference

---
 pybbn/sampling/sampling.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 2228d7d..d3bf86f 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -27,16 +27,18 @@ class Table(object):
     of node values.
     """
 
-    def __init__(self, node, parents=[]):
+    def __init__(self, node, parents=[], sort_parents=True):
         """
         Ctor.
 
         :param node: BBN node.
         :param parents: List of parent BBN nodes.
+        :param sort_parents: Whether the rows of the node's CPT are indexed by the parents sorted by id (default)
+        or by the parents in the order given.
         """
         self.node = node
-        self.parents = sorted(parents, key=lambda n: n.id)
-        self.parent_ids = [p.id for p in parents]
+        self.parents = sorted(parents, key=lambda n: n.id) if sort_parents else parents
+        self.parent_ids = [p.id for p in self.parents]
 
         if len(parents) == 0:
             self.probs = np.array([node.probs]).cumsum()
@@ -104,12 +106,15 @@ class LogicSampler(object):
         :return: Dictionary of node ID to Table.
         """
         tables = [node for node in self.bbn.get_nodes()]
-        tables = [(node, self.bbn.get_parents_ordered(node.id)) for node in tables]
+        tables = [(node, self.bbn.parents.get(node.id, [])) for node in tables]
         tables = [
             (node, [self.bbn.get_node(pa_id) for pa_id in parents])
             for node, parents in tables
         ]
-        tables = {node.id: Table(node, parents) for node, parents in tables}
+        tables = {
+            node.id: Table(node, parents, sort_parents=False)
+            for node, parents in tables
+        }
         return tables
 
     def __topological_sort__(self):
-- 
2.43.0


From eecd0fc610cd80243aa6a4a36769eab2dcbbf03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:51 +0000
Subject: [PATCH 09/23] fix: add edges in the parent order used to estimate the
 CPTs

---
 pybbn/graph/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 0e1c453..51f38c1 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -223,7 +223,7 @@ class Factory(object):
 
         for ch, parents in structure.items():
             ch_node = nodes[ch]
-            for pa in parents:
+            for pa in sorted(parents):
                 pa_node = nodes[pa]
 
                 edge = Edge(pa_node, ch_node, EdgeType.DIRECTED)
-- 
2.43.0


From fefe09aba040f4d82d07ed980c5d05010bf769ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:54 +0000
Subject: [PATCH 10/23] fix: derive node ids from the structure and not from
 the data values

---
 pybbn/graph/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 51f38c1..1c38826 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -205,7 +205,7 @@ class Factory(object):
             return cpts
 
         n2v = get_profile(df)
-        n2i = get_n2i(df)
+        n2i = get_n2i(structure)
         n2c = {n: get_cpt(n, structure[n], n2v, df) for n in structure}
 
         bbn = Bbn()
-- 
2.43.0


From 829d4365ecccbeb0a0fd82580b49111b6464ddfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:09 +0000
Subject: [PATCH 11/23] fix: weight ACE strata by the joint probability of the
 parents

---
 pybbn/causality/ace.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybbn/causality/ace.py b/pybbn/causality/ace.py
index 08cf8d7..8b0d5d5 100644
--- a/pybbn/causality/ace.py
+++ b/pybbn/causality/ace.py
@@ -1,6 +1,4 @@
 import itertools
-import operator
-from functools import reduce
 
 from pybbn.graph.jointree import EvidenceBuilder
 from pybbn.pptc.inferencecontroller import InferenceController
@@ -49,11 +47,13 @@ class Ace(object):
             return posteriors[y][y_val]
 
         def get_z_prob(z):
+            # chain rule, as the variables in z may depend on each other
+            prob = 1.0
             self.jt.unobserve_all()
-            posteriors = self.jt.get_posteriors()
-            probs = [posteriors[n][v] for n, v in z]
-            probs = reduce(operator.mul, probs, 1)
-            return probs
+            for n, v in z:
+                prob *= self.jt.get_posteriors()[n][v]
+                self.jt.update_evidences(get_evidences([(n, v)]))
+            return prob
 
         n2i = self.bbn.get_n2i()
         i2n = self.bbn.get_i2n()
-- 
2.43.0


From 48b75d0d8d7e808c03649e0be2df673f5581181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 12/23] fix: remove incident edges together with a node

---
 pybbn/graph/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pybbn/graph/graph.py b/pybbn/graph/graph.py
index 49b1d6f..3c68772 100644
--- a/pybbn/graph/graph.py
+++ b/pybbn/graph/graph.py
@@ -144,6 +144,10 @@ class Graph(object):
         self.edge_map.pop(id, None)
         self.neighbors.pop(id, None)
 
+        incident = [k for k, e in self.edges.items() if id in (e.i.id, e.j.id)]
+        for k in incident:
+            del self.edges[k]
+
         for k, v in self.edge_map.items():
             if id in v:
                 v.remove(id)
-- 
2.43.0


From a2a53e9cdca560e6ef0f4466c8cfff64a86ae27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:15 +0000
Subject: [PATCH 13/23] fix: match observed values with the means of the same
 variables

---
 pybbn/gaussian/inference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/gaussian/inference.py b/pybbn/gaussian/inference.py
index 4e40de0..90a8a64 100644
--- a/pybbn/gaussian/inference.py
+++ b/pybbn/gaussian/inference.py
@@ -121,7 +121,7 @@ class GaussianInference(object):
         z_index = [self.I[name] for name, _ in observations]
         y_index = [i for i in range(self.E.shape[1]) if i not in z_index]
 
-        m_Z = np.array([m for i, m in enumerate(self.M) if i in z_index])
+        m_Z = np.array([self.M[i] for i in z_index])
         m_Y = np.array([m for i, m in enumerate(self.M) if i in y_index])
 
         z = np.array([o for _, o in observations])
-- 
2.43.0


From 852f7bac8ca06ba482b831de0f36a756ebf51824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 14/23] fix: serialize generated parameter shapes as plain
 integers

---
 pybbn/generator/bbngenerator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index 9632457..dab6d9b 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -321,7 +321,11 @@ def to_json(g, params, pretty=False):
         "nodes": list(g.nodes),
         "edges": [{"pa": e[0], "ch": e[1]} for e in g.edges],
         "parameters": [
-            {"node": k, "params": list(v["params"].flatten()), "shape": v["shape"]}
+            {
+                "node": k,
+                "params": list(v["params"].flatten()),
+                "shape": [int(size) for size in v["shape"]],
+            }
             for k, v in params.items()
         ],
     }
-- 
2.43.0


From 739ccf2a79546bdeaea5f153cbeb42d73a5b639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 15/23] fix: estimate CPTs for values and names that are not
 query-safe strings

---
 pybbn/graph/factory.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pybbn/graph/factory.py b/pybbn/graph/factory.py
index 1c38826..b25299e 100644
--- a/pybbn/graph/factory.py
+++ b/pybbn/graph/factory.py
@@ -183,14 +183,13 @@ class Factory(object):
 
                 for values in domains:
                     probs = []
-                    denom_q = " and ".join(
-                        [f'{n}=="{v}"' for n, v in zip(domain_names, values)]
-                    )
+                    # compare the values themselves, which need not be strings
+                    denom_df = df
+                    for pa, pa_value in zip(domain_names, values):
+                        denom_df = denom_df[denom_df[pa] == pa_value]
                     for v in n2v[name]:
-                        numer_q = f'{name}=="{v}" and {denom_q}'
-
-                        numer = df.query(numer_q).shape[0] / n
-                        denom = df.query(denom_q).shape[0] / n
+                        numer = denom_df[denom_df[name] == v].shape[0] / n
+                        denom = denom_df.shape[0] / n
 
                         if denom == 0:
                             prob = 1e-5
-- 
2.43.0


From ef19b61f06d722185a9b234e094b1c4fd787af15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:04 +0000
Subject: [PATCH 16/23] fix: keep propagating evidence on a deep-copied join
 tree

---
 pybbn/graph/jointree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybbn/graph/jointree.py b/pybbn/graph/jointree.py
index e17f490..d07855f 100644
--- a/pybbn/graph/jointree.py
+++ b/pybbn/graph/jointree.py
@@ -42,6 +42,7 @@ class JoinTree(Ug):
         jt.potentials = potentials
         jt.evidences = evidences
         jt.parent_info = parent_info
+        jt.listener = self.listener
         return jt
 
     def get_posteriors(self):
-- 
2.43.0


From 216d072fd0107d6744be30dd493149a06c189edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:18 +0000
Subject: [PATCH 17/23] fix: check edges between plain nodes of a Bbn instead
 of raising

---
 pybbn/graph/dag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 7b12247..35fbc4e 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -152,7 +152,7 @@ class Bbn(Dag):
         """
         if isinstance(edge.i, BbnNode) and isinstance(edge.j, BbnNode):
             return True
-        return Dag.__shouldadd__(edge)
+        return Dag.__shouldadd__(self, edge)
 
     @staticmethod
     def to_csv(bbn, path):
-- 
2.43.0


From c2e7a24169f54bbcd8b5d6d87350f88ca326d8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:12 +0000
Subject: [PATCH 18/23] fix: forget a removed node as a parent of its children

---
 pybbn/graph/dag.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 35fbc4e..0b45af7 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -143,6 +143,19 @@ class Bbn(Dag):
         if edge.i.id not in self.parents[edge.j.id]:
             self.parents[edge.j.id].append(edge.i.id)
 
+    def remove_node(self, id):
+        """
+        Removes a node from the BBN.
+
+        :param id: Node id.
+        """
+        Dag.remove_node(self, id)
+
+        self.parents.pop(id, None)
+        for parents in self.parents.values():
+            if id in parents:
+                parents.remove(id)
+
     def __shouldadd__(self, edge):
         """
         Checks if the specified directed edge should be added.
-- 
2.43.0


From 487dffeaaafb03eca2673b8ec207a5330d27f20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:11 +0000
Subject: [PATCH 19/23] fix: keep the recorded parent order when converting a
 generated network

---
 pybbn/generator/bbngenerator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pybbn/generator/bbngenerator.py b/pybbn/generator/bbngenerator.py
index dab6d9b..729a516 100644
--- a/pybbn/generator/bbngenerator.py
+++ b/pybbn/generator/bbngenerator.py
@@ -384,10 +384,12 @@ def convert_for_exact_inference(g, p):
         bbn.add_node(n)
         bbn_nodes[id] = n
 
-    for e in g.edges:
-        pa = bbn_nodes[e[0]]
-        ch = bbn_nodes[e[1]]
-        bbn.add_edge(Edge(pa, ch, EdgeType.DIRECTED))
+    # the rows of a CPT are indexed by the parents in the order recorded with it
+    for node in g.nodes:
+        for parent in p[node].get("parents", g.predecessors(node)):
+            pa = bbn_nodes[parent]
+            ch = bbn_nodes[node]
+            bbn.add_edge(Edge(pa, ch, EdgeType.DIRECTED))
 
     return bbn
 
-- 
2.43.0


From 8c7799f7c63f52e4b85926c2f2d174c05e8e112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:17 +0000
Subject: [PATCH 20/23] fix: sampler rows of parent values with commas never
 share a key

---
 pybbn/sampling/sampling.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index d3bf86f..74df0b4 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -46,13 +46,7 @@ class Table(object):
             cartesian = list(
                 itertools.product(*[node.variable.values for node in self.parents])
             )
-            get_kv = lambda i, v: f"{i}={v}"
-            keys = [
-                ",".join(
-                    [get_kv(node.id, val) for node, val in zip(self.parents, values)]
-                )
-                for values in cartesian
-            ]
+            keys = [self.__get_key__(values) for values in cartesian]
             n = len(node.variable.values)
 
             probs = [node.probs[i : i + n] for i in range(0, len(node.probs), n)]
@@ -70,11 +64,21 @@ class Table(object):
         if not self.has_parents():
             index = bisect.bisect(self.probs, prob)
         else:
-            k = ",".join([f"{i}={sample[i]}" for i in self.parent_ids])
-            probs = self.probs[k]
+            probs = self.probs[self.__get_key__([sample[i] for i in self.parent_ids])]
             index = bisect.bisect(probs, prob)
         return self.node.variable.values[index]
 
+    def __get_key__(self, values):
+        """
+        Gets the key of the specified parent values. Commas inside a value are escaped so that different values
+        never have the same key.
+
+        :param values: Values, one for each parent.
+        :return: Key.
+        """
+        esc = lambda v: f"{v}".replace("\\", "\\\\").replace(",", "\\,")
+        return ",".join([f"{i}={esc(v)}" for i, v in zip(self.parent_ids, values)])
+
     def has_parents(self):
         """
         Checks if the node associated with this table has parents.
-- 
2.43.0


From f384ba229a3afa66b7eb07bec6306a01f7267991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:19 +0000
Subject: [PATCH 21/23] fix: node ids of a separation set

---
 pybbn/graph/node.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybbn/graph/node.py b/pybbn/graph/node.py
index 6399f34..ac9c7f2 100644
--- a/pybbn/graph/node.py
+++ b/pybbn/graph/node.py
@@ -227,6 +227,7 @@ class SepSet(Clique):
         sid = "-".join(str(x) for arr in [lhs, intersection, rhs] for x in arr)
         Node.__init__(self, sid)
         self.nodes = [x for x in left.nodes if x.id in intersection]
+        self.node_ids = set([node.id for node in self.nodes])
         self.marked = False
 
         self.left = left
-- 
2.43.0


From 67fb7db279bc158dd4eba83b7728eec9daabffe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:21 +0000
Subject: [PATCH 22/23] fix: a Bbn refuses edges that close a directed cycle

Bbn skipped the acyclicity check of Dag for edges between BbnNodes, so
self-loops, reversed edges and longer directed cycles were accepted.
---
 pybbn/graph/dag.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/pybbn/graph/dag.py b/pybbn/graph/dag.py
index 0b45af7..dc2c0f6 100644
--- a/pybbn/graph/dag.py
+++ b/pybbn/graph/dag.py
@@ -156,17 +156,6 @@ class Bbn(Dag):
             if id in parents:
                 parents.remove(id)
 
-    def __shouldadd__(self, edge):
-        """
-        Checks if the specified directed edge should be added.
-
-        :param edge: Directed edge.
-        :return: A boolean indicating if the directed edge should be added.
-        """
-        if isinstance(edge.i, BbnNode) and isinstance(edge.j, BbnNode):
-            return True
-        return Dag.__shouldadd__(self, edge)
-
     @staticmethod
     def to_csv(bbn, path):
         """
-- 
2.43.0


From 7495c4af654054efab5908b4b1da7a08963b3f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:18 +0000
Subject: [PATCH 23/23] fix: asking a sampler for no samples ends

---
 pybbn/sampling/sampling.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pybbn/sampling/sampling.py b/pybbn/sampling/sampling.py
index 74df0b4..332a88b 100644
--- a/pybbn/sampling/sampling.py
+++ b/pybbn/sampling/sampling.py
@@ -153,7 +153,7 @@ class LogicSampler(object):
         np.random.seed(seed)
         n = len(self.nodes)
         samples = []
-        while True:
+        while len(samples) < n_samples:
             sample = copy.deepcopy(evidence)
 
             accepted = True
@@ -171,7 +171,4 @@ class LogicSampler(object):
             if accepted:
                 samples.append(sample)
 
-            if len(samples) == n_samples:
-                break
-
         return samples
-- 
2.43.0

