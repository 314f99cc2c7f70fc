From 72e693f134f8bdff7833309b187b68cd76becea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 01/25] fix: query no longer removes disconnected nodes from
 the queried model

---
 pycid/core/causal_bayesian_network.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index fc623b5..39d3ab8 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -165,9 +165,11 @@ class CausalBayesianNetwork(BayesianNetwork):
             *[nx.node_connected_component(undirected, var) for var in query]
         )
         context = {k: v for k, v in context.items() if k in connected_nodes}
-        for node in list(cbn.nodes):
-            if node not in connected_nodes:
-                cbn.remove_node(node)
+        disconnected_nodes = [node for node in cbn.nodes if node not in connected_nodes]
+        if disconnected_nodes and cbn is self:
+            cbn = self.copy()  # never remove nodes from the queried model itself
+        for node in disconnected_nodes:
+            cbn.remove_node(node)
         if not nx.is_connected(cbn.to_undirected()):
             raise ValueError(f"query {query} contains nodes in disconnected components")
 
-- 
2.43.0


From bfbf7b2452b694b7e8abbf548c8d57e6f1b48285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 02/25] fix: quantitative_voc leaves the analysed CID unchanged

---
 pycid/analyze/value_of_control.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycid/analyze/value_of_control.py b/pycid/analyze/value_of_control.py
index 1658630..5dbb83c 100644
--- a/pycid/analyze/value_of_control.py
+++ b/pycid/analyze/value_of_control.py
@@ -60,6 +60,7 @@ def quantitative_voc(cid: CID, node: str) -> float:
     if node not in cid.nodes:
         raise KeyError(f"{node} is not present in the cid")
 
+    cid = cid.copy()  # leave the original CID unchanged
     # optimal policy in the original CID.
     cid.impute_optimal_policy()
     ev1: float = cid.expected_utility({})
-- 
2.43.0


From 29d0c1101780d13ca855a0b40c0e3e846b4d3b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 03/25] fix: models do not share role lists with their caller
 or with mechanism graphs

---
 pycid/core/macid_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 94c97b1..fcbbd25 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -86,8 +86,9 @@ class MACIDBase(CausalBayesianNetwork):
         """
         super().__init__(edges=edges, **kwargs)
 
-        self.agent_decisions = dict(agent_decisions) if agent_decisions else {}
-        self.agent_utilities = dict(agent_utilities) if agent_utilities else {}
+        # copy the lists, so that changing the role of a node does not affect the given lists
+        self.agent_decisions = {agent: list(nodes) for agent, nodes in (agent_decisions or {}).items()}
+        self.agent_utilities = {agent: list(nodes) for agent, nodes in (agent_utilities or {}).items()}
 
         self.decision_agent = {node: agent for agent, nodes in self.agent_decisions.items() for node in nodes}
         self.utility_agent = {node: agent for agent, nodes in self.agent_utilities.items() for node in nodes}
-- 
2.43.0


From 80a6159e4b9af94373bb40f9161632b21112eebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 04/25] fix: copies keep agents that have only decisions or
 only utilities

---
 pycid/core/cid.py        | 9 ++++++---
 pycid/core/macid.py      | 9 ++++++---
 pycid/core/macid_base.py | 9 ++++++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/pycid/core/cid.py b/pycid/core/cid.py
index a909828..2d0c38c 100644
--- a/pycid/core/cid.py
+++ b/pycid/core/cid.py
@@ -74,10 +74,13 @@ class CID(MACIDBase):
         new = CID()
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
-        for agent in self.agents:
-            for decision in self.agent_decisions[agent]:
+        new.agent_decisions = {agent: [] for agent in self.agent_decisions}
+        new.agent_utilities = {agent: [] for agent in self.agent_utilities}
+        for agent, decisions in self.agent_decisions.items():
+            for decision in decisions:
                 new.make_decision(decision, agent)
-            for utility in self.agent_utilities[agent]:
+        for agent, utilities in self.agent_utilities.items():
+            for utility in utilities:
                 new.make_utility(utility, agent)
         return new
 
diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index a20a4d9..d9bb28c 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -214,9 +214,12 @@ class MACID(MACIDBase):
         new = MACID()
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
-        for agent in self.agents:
-            for decision in self.agent_decisions[agent]:
+        new.agent_decisions = {agent: [] for agent in self.agent_decisions}
+        new.agent_utilities = {agent: [] for agent in self.agent_utilities}
+        for agent, decisions in self.agent_decisions.items():
+            for decision in decisions:
                 new.make_decision(decision, agent)
-            for utility in self.agent_utilities[agent]:
+        for agent, utilities in self.agent_utilities.items():
+            for utility in utilities:
                 new.make_utility(utility, agent)
         return new
diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index fcbbd25..1a4e6a1 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -427,10 +427,13 @@ class MACIDBase(CausalBayesianNetwork):
         new = MACIDBase()
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
-        for agent in self.agents:
-            for decision in self.agent_decisions[agent]:
+        new.agent_decisions = {agent: [] for agent in self.agent_decisions}
+        new.agent_utilities = {agent: [] for agent in self.agent_utilities}
+        for agent, decisions in self.agent_decisions.items():
+            for decision in decisions:
                 new.make_decision(decision, agent)
-            for utility in self.agent_utilities[agent]:
+        for agent, utilities in self.agent_utilities.items():
+            for utility in utilities:
                 new.make_utility(utility, agent)
         return new
 
-- 
2.43.0


From 457a37c6ac33274fa5ca1426406ed681dc42ac08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 05/25] fix: sufficient_recall accepts agents without decisions

---
 pycid/core/macid_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 1a4e6a1..e20059f 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -275,7 +275,7 @@ class MACIDBase(CausalBayesianNetwork):
             agents = [agent]
 
         for a in agents:
-            rg = RelevanceGraph(self, self.agent_decisions[a])
+            rg = RelevanceGraph(self, self.agent_decisions.get(a, []))
             if not rg.is_acyclic():
                 return False
         return True
-- 
2.43.0


From 2543f330151f28d377d3dbf224ae30b44ff923a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 06/25] fix: mechanism graphs reject nodes whose name ends with
 mec

---
 pycid/core/macid_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index e20059f..28584f5 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -476,8 +476,8 @@ class MechanismGraph(MACIDBase):
         )
 
         for node in cid.nodes:
-            if node[:-3] == "mec":
-                raise ValueError("can't create a mechanism graph when node {node} already ends with mec")
+            if node[-3:] == "mec":
+                raise ValueError(f"can't create a mechanism graph when node {node} already ends with mec")
             self.add_node(node + "mec")
             self.add_edge(node + "mec", node)
         # TODO: adapt the parameterization from cid as well
-- 
2.43.0


From f73e10d955c8e77319b3a727d6d7719269f6835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 07/25] fix: d-connection queries on (MA)CIDs work without
 observed nodes

---
 pycid/core/macid_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 28584f5..1f8dbaf 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -420,7 +420,9 @@ class MACIDBase(CausalBayesianNetwork):
     def active_trail_nodes(
         self, variables: Union[str, List[str], Tuple[str, ...]], observed: Optional[Iterable[str]] = None, **kwargs: Any
     ) -> Dict[str, Set[str]]:
-        return super().active_trail_nodes(variables, list(observed), **kwargs)  # type: ignore
+        return super().active_trail_nodes(  # type: ignore
+            variables, list(observed) if observed is not None else None, **kwargs
+        )
 
     def copy_without_cpds(self) -> MACIDBase:
         """copy the MACIDBase object without its CPDs"""
-- 
2.43.0


From 52f13d8fb42c4722545fdc35bb22973f248b26e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 08/25] fix: queries on (MA)CIDs accept contexts on nodes with
 a TabularCPD

---
 pycid/core/macid_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 1f8dbaf..d7b12dc 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -159,7 +159,7 @@ class MACIDBase(CausalBayesianNetwork):
         intervention: Interventions to apply. A dictionary mapping node => outcome.
         """
         for variable, outcome in context.items():
-            if outcome not in self.get_cpds(variable).domain:
+            if outcome not in self.model.domain[variable]:
                 raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
 
         intervention = intervention or {}
-- 
2.43.0


From 0805a09d76b9343dc957b241579977bf6b3157de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 09/25] fix: EFG export handles chance nodes with unobserved
 parents

---
 pycid/export/gambit.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index ed81d65..0cc904a 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -68,10 +68,11 @@ def macid_to_efg(
             # get current node
             cur_node = _get_cur_node(game, node_idx)
             parents = macid.get_parents(node)
-            parents_actions = {parent: node_idx_to_state[node_idx][parent] for parent in parents}
+            state = node_idx_to_state[node_idx]
 
             # if the node is a decision, consider infosets
             if node in decisions_in_sg:
+                parents_actions = {parent: state[parent] for parent in parents}
                 # get agent and domain
                 agent = macid.decision_agent[node]
                 player = agent_to_player[agent]
@@ -95,8 +96,10 @@ def macid_to_efg(
                     state_info.update({node: action})
                     node_idx_to_state[node_idx + (action_idx,)] = state_info
             else:
-                # otherwise is a chance node
-                factor = macid.query([node], context=parents_actions)
+                # otherwise is a chance node. If some of its parents are not in the game tree (because no
+                # decision observes them), then it depends on everything that precedes it in the tree
+                in_tree = all(parent in state for parent in parents)
+                factor = macid.query([node], context={p: state[p] for p in parents} if in_tree else state)
                 move = cur_node.append_move(game.players.chance, factor.cardinality)
                 # add state info
                 actions = macid.model.domain[node]
-- 
2.43.0


From 808bdd458b6c7485669d6b4a546cd3eeac90cda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 10/25] fix: EFG information sets of different decisions with
 the same parents stay separate

---
 pycid/export/gambit.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 0cc904a..b405135 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -18,7 +18,7 @@ def macid_to_efg(
     macid: MACIDBase,
     decisions_in_sg: Optional[Union[KeysView[str], Set[str]]] = None,
     agents_in_sg: Optional[Iterable[Hashable]] = None,
-) -> Tuple[pygambit.Game, Mapping[Tuple[Hashable, Tuple[Tuple[Any, Any], ...]], pygambit.Infoset]]:
+) -> Tuple[pygambit.Game, Mapping[Tuple[str, Tuple[Tuple[Any, Any], ...]], pygambit.Infoset]]:
     """
     Creates a pygambit EFG from a MACID:
     1) Finds the MACID nodes needed for the EFG (decision nodes and informational parents S = {D u Pa_D})
@@ -32,7 +32,7 @@ def macid_to_efg(
     - agents_in_sg: The agents to include in the EFG. If None, all agents are included.
     Returns:
     - game: The pygambit game object. This can be used for further manipulation of the game within pygambit.
-    - parents_to_infoset: A mapping from (agent, (parent, instantiation), ...) to pygambit infoset.
+    - parents_to_infoset: A mapping from (decision, (parent, instantiation), ...) to pygambit infoset.
     """
 
     # can use on a subgame if copying, else do the whole game
@@ -52,8 +52,8 @@ def macid_to_efg(
 
     agent_to_player = _add_players(game, agents_in_sg)
 
-    # key is instantiation of parents, value is pygambit infoset
-    parents_to_infoset: Dict[Tuple[Hashable, Tuple[Tuple[Any, Any], ...]], pygambit.Infoset] = defaultdict(dict)
+    # key is decision and instantiation of its parents, value is pygambit infoset
+    parents_to_infoset: Dict[Tuple[str, Tuple[Tuple[Any, Any], ...]], pygambit.Infoset] = defaultdict(dict)
     # nodes referenced in the game tree. Root has node_idx (0,), rest are (0, n, m, ...)
     # state is a dict of node_idx:state of partial instantiations of nodes
     node_idx_to_state: Dict[Tuple[int, ...], Dict[str, Any]] = defaultdict(dict)
@@ -77,7 +77,7 @@ def macid_to_efg(
                 agent = macid.decision_agent[node]
                 player = agent_to_player[agent]
                 actions = macid.model.domain[node]
-                parents_actions_tuple = (agent, tuple(parents_actions.items()))  # hashable
+                parents_actions_tuple = (node, tuple(parents_actions.items()))  # hashable
                 # check if this matches an existing infoset
                 if parents_actions_tuple in parents_to_infoset:
                     cur_infoset = parents_to_infoset[parents_actions_tuple]
@@ -178,14 +178,14 @@ def pygambit_ne_solver(
 
 def behavior_to_cpd(
     macid: MACIDBase,
-    parents_to_infoset: Mapping[Tuple[Hashable, Tuple[Tuple[str, Any], ...]], pygambit.Infoset],
+    parents_to_infoset: Mapping[Tuple[str, Tuple[Tuple[str, Any], ...]], pygambit.Infoset],
     behavior: pygambit.lib.libgambit.MixedStrategyProfile,
     decisions_in_sg: Optional[Union[KeysView[str], Set[str]]] = None,
 ) -> List[StochasticFunctionCPD]:
     """Convert a pygambit behavior strategy to list of CPDs for each decision node.
     Args:
     - macid: The MACID object relating to the behavior strategy.
-    - parents_to_infoset: A mapping from (agent, (parent, instantiation), ...) to pygambit infoset.
+    - parents_to_infoset: A mapping from (decision, (parent, instantiation), ...) to pygambit infoset.
     - behavior: The pygambit behavior strategy.
     - decisions_in_sg: The decisions in the subgame. If None, use all decisions in the MACID.
     Returns:
@@ -194,7 +194,7 @@ def behavior_to_cpd(
 
     def _action_prob_given_parents(node: Any, **pv: Outcome) -> Mapping[str, float]:
         """Takes the parent instantiation and outputs the prob from the infoset"""
-        pv_tuple = (macid.decision_agent[node], tuple(pv.items()))
+        pv_tuple = (node, tuple(pv.items()))
         # get the infoset for the node
         infoset = parents_to_infoset[pv_tuple]
         # if the infoset does not exist, this is not a valid parent instantiation
-- 
2.43.0


From 31430dd7c64f396f2816f7e5ced2872f94600722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:24 +0000
Subject: [PATCH 11/25] fix: RandomCPD is reproducible for every given seed,
 including 0 and across processes

---
 pycid/random/random_cpd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycid/random/random_cpd.py b/pycid/random/random_cpd.py
index c270836..836646c 100644
--- a/pycid/random/random_cpd.py
+++ b/pycid/random/random_cpd.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import contextlib
+import zlib
 from typing import Iterator, Mapping, Optional, Sequence
 
 import numpy as np
@@ -39,12 +40,14 @@ class RandomCPD:
 
         seed: Set the random seed
         """
-        self.seed = seed or np.random.randint(0, 10000)
+        self.seed = seed if seed is not None else np.random.randint(0, 10000)
         self.smoothness = smoothness
         self.domain = domain or [0, 1]
 
     def __call__(self, **parent_values: Outcome) -> Mapping[Outcome, float]:
-        with temp_seed(self.seed + hash(frozenset(parent_values.items())) % 2**31 - 1):
+        # unlike hash, crc32 gives the same value in every process
+        context = zlib.crc32(repr(sorted(parent_values.items())).encode())
+        with temp_seed((self.seed + context) % 2**32):
             prob_vec = np.random.dirichlet(np.ones(len(self.domain)) * self.smoothness, size=1).flat  # type: ignore
         return {self.domain[i]: prob for i, prob in enumerate(prob_vec)}  # type: ignore
 
-- 
2.43.0


From 18a7f5354fa944f581ac5f07739f78d8458cbe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 12/25] fix: random_dag respects max_in_degree when adding
 edges

---
 pycid/random/random_dag.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycid/random/random_dag.py b/pycid/random/random_dag.py
index 9f41596..05993d7 100644
--- a/pycid/random/random_dag.py
+++ b/pycid/random/random_dag.py
@@ -45,7 +45,9 @@ def random_dag(number_of_nodes: int = 5, edge_density: float = 0.4, max_in_degre
 
     # Then add edges until desired density is reached
     maximum_number_of_edges = number_of_nodes * (number_of_nodes - 1) / 2
-    while dag.number_of_edges() < int(edge_density * maximum_number_of_edges):
-        add_random_edge(dag, node_names)
+    # the i'th node has i possible parents, of which max_in_degree can be used
+    possible_number_of_edges = sum(min(i, max_in_degree) for i in range(number_of_nodes))
+    while dag.number_of_edges() < min(int(edge_density * maximum_number_of_edges), possible_number_of_edges):
+        add_random_edge(dag, node_names, max_in_degree)
 
     return dag
-- 
2.43.0


From 62814020f62062e75e34a40049cc0b2cf8772bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 13/25] fix: the CPDs of a copied model no longer depend on the
 original model

---
 pycid/core/causal_bayesian_network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 39d3ab8..3ba9bb8 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -250,7 +250,10 @@ class CausalBayesianNetwork(BayesianNetwork):
         """copy the MACIDBase object"""
         model_copy = self.copy_without_cpds()
         for v in self.model:
-            model_copy.model[v] = self.model[v].copy() if hasattr(self.model[v], "copy") else self.model[v]
+            relationship = self.model[v].copy() if hasattr(self.model[v], "copy") else self.model[v]
+            if isinstance(relationship, StochasticFunctionCPD):
+                relationship.cbn = model_copy  # so that later changes to self don't affect the copy
+            model_copy.model[v] = relationship
         return model_copy
 
     def _get_color(self, node: str) -> Union[np.ndarray, str]:
-- 
2.43.0


From 1514236d674c009f8d7a28937ff2bad62a20bd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 14/25] fix: one-shot iterables are accepted wherever an
 iterable is

---
 pycid/core/causal_bayesian_network.py | 2 ++
 pycid/core/macid.py                   | 1 +
 pycid/core/macid_base.py              | 2 ++
 pycid/core/relevance_graph.py         | 1 +
 4 files changed, 6 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 3ba9bb8..04ad454 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -88,6 +88,7 @@ class CausalBayesianNetwork(BayesianNetwork):
         edges: A set of directed edges. Each is a pair of node labels (tail, head).
         """
         if edges is not None:
+            edges = list(edges)  # edges may be a one-shot iterator
             for edge in edges:
                 if not isinstance(edge, tuple) or len(edge) != 2 or not all(isinstance(node, str) for node in edge):
                     raise ValueError(f"The edge {edge} is not a tuple of two strings.")
@@ -148,6 +149,7 @@ class CausalBayesianNetwork(BayesianNetwork):
 
         intervention: Interventions to apply. A dictionary mapping node => outcome.
         """
+        query = list(query)  # query may be a one-shot iterator
         for variable, outcome in context.items():
             if outcome not in self.model.domain[variable]:
                 raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index d9bb28c..baa5994 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -63,6 +63,7 @@ class MACID(MACIDBase):
         Returns:
         - the subgame (MACID) object
         """
+        active_subgame_decs = list(active_subgame_decs)  # may be a one-shot iterator
         # find the nodes that are r-relevant for the active_subgame_decs
         r_nodes = [node for node in self.nodes if self.is_r_reachable(active_subgame_decs, node)]
         # adds the dection nodes to this set
diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index d7b12dc..61c71f1 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -158,6 +158,7 @@ class MACIDBase(CausalBayesianNetwork):
 
         intervention: Interventions to apply. A dictionary mapping node => outcome.
         """
+        query = list(query)  # query may be a one-shot iterator
         for variable, outcome in context.items():
             if outcome not in self.model.domain[variable]:
                 raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
@@ -245,6 +246,7 @@ class MACIDBase(CausalBayesianNetwork):
             decisions = [decisions]
         if isinstance(nodes, str):
             nodes = [nodes]
+        nodes = list(nodes)  # nodes may be a one-shot iterator
         mg = MechanismGraph(self)
         for decision in decisions:
             for node in nodes:
diff --git a/pycid/core/relevance_graph.py b/pycid/core/relevance_graph.py
index cf83a94..bab66a5 100644
--- a/pycid/core/relevance_graph.py
+++ b/pycid/core/relevance_graph.py
@@ -25,6 +25,7 @@ class RelevanceGraph(nx.DiGraph):
         super().__init__()
         if decisions is None:
             decisions = cid.decisions
+        decisions = list(decisions)  # decisions may be a one-shot iterator
         self.add_nodes_from(decisions)
         dec_pair_perms = list(itertools.permutations(decisions, 2))
         for dec_pair in dec_pair_perms:
-- 
2.43.0


From 87061377d22aecf79a9837ece42239e0db96ec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 15/25] fix: expected_value returns the values in the order of
 the given variables

---
 pycid/core/causal_bayesian_network.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 04ad454..c7b09cc 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -204,8 +204,8 @@ class CausalBayesianNetwork(BayesianNetwork):
         context: Dict[str, Outcome],
         intervention: Optional[Dict[str, Outcome]] = None,
     ) -> List[float]:
-        """Compute the expected value of a real-valued variable for a given context,
-        under an optional intervention
+        """Compute the expected value of real-valued variables for a given context,
+        under an optional intervention. The values are in the same order as the variables.
 
         Parameters
         ----------
@@ -215,6 +215,7 @@ class CausalBayesianNetwork(BayesianNetwork):
 
         intervention: Interventions to apply. A dictionary mapping node => value.
         """
+        variables = list(variables)
         factor = self.query(variables, context, intervention=intervention)
         factor.normalize()  # make probs add to one
 
@@ -232,7 +233,8 @@ class CausalBayesianNetwork(BayesianNetwork):
                         variables, context, idx, prob
                     )
                 )
-        return ev.tolist()  # type: ignore
+        # the factor has its own variable order
+        return [float(ev[factor.variables.index(variable)]) for variable in variables]
 
     def sample(self, seed: Optional[int] = None) -> Dict[str, Outcome]:
         """
-- 
2.43.0


From 77a3e3bbe48089692abebba9282379e2e8aff636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 16/25] fix: decisions without downstream utilities can be
 optimised

---
 pycid/core/causal_bayesian_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index c7b09cc..e94c712 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -216,6 +216,8 @@ class CausalBayesianNetwork(BayesianNetwork):
         intervention: Interventions to apply. A dictionary mapping node => value.
         """
         variables = list(variables)
+        if not variables:
+            return []  # e.g. the utilities of a decision that affects no utility
         factor = self.query(variables, context, intervention=intervention)
         factor.normalize()  # make probs add to one
 
-- 
2.43.0


From 63461464d30d702a5dec19597647bec74280cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 17/25] fix: removing a node also removes its role,
 relationship and domain

---
 pycid/core/causal_bayesian_network.py | 7 +++++++
 pycid/core/macid_base.py              | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index e94c712..17d039d 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -107,6 +107,13 @@ class CausalBayesianNetwork(BayesianNetwork):
         if v in self.model and isinstance(self.get_cpds(v), ConstantCPD):
             self.model[v] = self.model[v]
 
+    def remove_node(self, node: str) -> None:
+        """removes a node, its edges, and its CPD from the CBN"""
+        super().remove_node(node)
+        if node in self.model:  # the relationship had not been converted to a CPD
+            del self.model[node]
+        self.model.domain.pop(node, None)
+
     def add_cpds(self, *cpds: TabularCPD, **relationships: Relationship) -> None:
         """
         Add the given CPDs and initialize StochasticFunctionCPDs
diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 61c71f1..11cd3f6 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -139,6 +139,12 @@ class MACIDBase(CausalBayesianNetwork):
             agent = self.utility_agent.pop(node)
             self.agent_utilities[agent].remove(node)
 
+    def remove_node(self, node: str) -> None:
+        """removes a node, its role, its edges, and its CPD from the (MA)CID"""
+        if node in self.nodes():
+            self.make_chance(node)
+        super().remove_node(node)
+
     def add_cpds(self, *cpds: TabularCPD, **relationships: Union[Relationship, List[Outcome]]) -> None:
         super().add_cpds(*cpds, **relationships)
 
-- 
2.43.0


From 0395aa1e392c9aff6316df7cb3a5f7ac79ca6fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 18/25] fix: removing a CPD also forgets its domain

---
 pycid/core/causal_bayesian_network.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 17d039d..13be0a8 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -36,6 +36,7 @@ class CausalBayesianNetwork(BayesianNetwork):
             self.domain: Dict[str, List[Outcome]] = {}
 
         def __setitem__(self, variable: str, relationship: Relationship) -> None:
+            old_domain = self.domain.get(variable, None)
             # Update the keys
             if variable in self.keys():
                 self.__delitem__(variable)
@@ -49,7 +50,6 @@ class CausalBayesianNetwork(BayesianNetwork):
 
             # add cpd to BayesianNetwork, and update domain dictionary
             BayesianNetwork.add_cpds(self.cbn, cpd)
-            old_domain = self.domain.get(variable, None)
             self.domain[variable] = cpd.state_names[variable]
 
             # if the domain has changed, update all descendants, and sync the state_names
@@ -62,6 +62,7 @@ class CausalBayesianNetwork(BayesianNetwork):
 
         def __delitem__(self, variable: str) -> None:
             super().__delitem__(variable)
+            self.domain.pop(variable, None)
             try:
                 BayesianNetwork.remove_cpds(self.cbn, variable)
             except ValueError:
@@ -112,7 +113,6 @@ class CausalBayesianNetwork(BayesianNetwork):
         super().remove_node(node)
         if node in self.model:  # the relationship had not been converted to a CPD
             del self.model[node]
-        self.model.domain.pop(node, None)
 
     def add_cpds(self, *cpds: TabularCPD, **relationships: Relationship) -> None:
         """
@@ -198,11 +198,11 @@ class CausalBayesianNetwork(BayesianNetwork):
         intervention: Interventions to apply. A dictionary mapping node => value.
         """
         for variable in intervention:
+            new_dist = {outcome: 0 for outcome in self.model.domain[variable]}
+            new_dist[intervention[variable]] = 1
             del self.model[variable]
             for p in self.get_parents(variable):  # remove ingoing edges
                 self.remove_edge(p, variable)
-            new_dist = {outcome: 0 for outcome in self.model.domain[variable]}
-            new_dist[intervention[variable]] = 1
             self.model[variable] = new_dist
 
     def expected_value(
-- 
2.43.0


From c8d8b1bd0edd7124f5bdb560f3bf26d615cbc5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 19/25] fix: get_motif of the first node does not look at the
 last node of the path

---
 pycid/core/get_paths.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pycid/core/get_paths.py b/pycid/core/get_paths.py
index 0ceda45..cc40d80 100644
--- a/pycid/core/get_paths.py
+++ b/pycid/core/get_paths.py
@@ -92,6 +92,13 @@ def get_motif(cbn: CausalBayesianNetwork, path: Sequence[str], idx: int) -> str:
     if len(path) == idx + 1:
         return "endpoint"
 
+    # the first node has no predecessor, so only the direction of the first edge matters
+    elif idx == 0 and cbn.has_edge(path[0], path[1]):
+        return "forward"
+
+    elif idx == 0 and cbn.has_edge(path[1], path[0]):
+        return "backward"
+
     elif cbn.has_edge(path[idx - 1], path[idx]) and cbn.has_edge(path[idx], path[idx + 1]):
         return "forward"
 
-- 
2.43.0


From 634d1dde79fc9933c215ca1d512683f7e11fa0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 20/25] fix: frontdoor trails and motifs of single-node paths

---
 pycid/core/get_paths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycid/core/get_paths.py b/pycid/core/get_paths.py
index cc40d80..8e690a3 100644
--- a/pycid/core/get_paths.py
+++ b/pycid/core/get_paths.py
@@ -124,7 +124,7 @@ def get_motifs(cbn: CausalBayesianNetwork, path: Sequence[str]) -> List[str]:
 
     shapes = []
     for i in range(len(path)):
-        if i == 0:
+        if i == 0 and len(path) > 1:
             if path[i] in cbn.get_parents(path[i + 1]):
                 shapes.append("forward")
             else:
@@ -236,7 +236,7 @@ def is_active_indirect_frontdoor_trail(
             raise KeyError(f"The node {node} is not in the (MA)CID")
 
     for path in find_all_undir_paths(cbn, start_node, end_node):
-        is_frontdoor_path = path[0] in cbn.get_parents(path[1])
+        is_frontdoor_path = len(path) > 1 and path[0] in cbn.get_parents(path[1])
         not_blocked_by_observed = is_active_path(cbn, path, observed)
         contains_collider = "collider" in get_motifs(cbn, path)
         # default is False since if w = [], any unobserved collider blocks path
-- 
2.43.0


From af0ec604f4824c218ee4e2325d81b340892d5333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 21/25] fix: signaling considers every backdoor path, not an
 arbitrary one

---
 pycid/analyze/reasoning_patterns.py | 40 +++++++++++++----------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index d28cdfe..ec5a328 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -1,4 +1,4 @@
-from typing import Any, Dict, List, Optional, Set, Union
+from typing import Any, Dict, Iterator, List, Optional, Set, Union
 
 import networkx as nx
 
@@ -52,19 +52,15 @@ def _directed_effective_path_not_through_set_y(
     )
 
 
-def _effective_backdoor_path_not_blocked_by_set_w(
+def _effective_backdoor_paths_not_blocked_by_set_w(
     mb: MACIDBase, start: str, finish: str, effective_set: Set[str], w: Optional[Set[str]] = None
-) -> Optional[List[str]]:
-    """
-    Returns the effective backdoor path not blocked if we condition on nodes in set w.
-    If no such path exists, this returns None.
-    """
+) -> Iterator[List[str]]:
+    """Iterate over the effective backdoor paths not blocked if we condition on nodes in set w."""
     for path in find_all_undir_paths(mb, start, finish):
         is_backdoor_path = path[1] in mb.get_parents(path[0])
         not_blocked_by_w = is_active_path(mb, path, w)
         if is_backdoor_path and not_blocked_by_w and _path_is_effective(mb, path, effective_set):
-            return path
-    return None
+            yield path
 
 
 def _effective_undir_path_not_blocked_by_set_w(
@@ -167,21 +163,21 @@ def signaling(macid: MACID, decision: str, effective_set: Set[str]) -> bool:
                 cond_nodes = {decision_b}
                 cond_nodes.update(node for node in macid.get_parents(decision_b) if node not in decision_descendants)
 
-                path = _effective_backdoor_path_not_blocked_by_set_w(macid, decision, u_b, effective_set, cond_nodes)
-                if not path:
-                    continue
+                # any of the backdoor paths can be used for signaling
+                for path in _effective_backdoor_paths_not_blocked_by_set_w(
+                    macid, decision, u_b, effective_set, cond_nodes
+                ):
+                    try:
+                        key_node = _get_key_node(macid, path)
+                    except ValueError:
+                        continue
 
-                if _get_key_node(macid, path):
-                    key_node = _get_key_node(macid, path)
-                else:
-                    return False
+                    key_node_descendants = set(nx.descendants(macid, key_node))
+                    cond_nodes2 = {decision}
+                    cond_nodes2.update(node for node in macid.get_parents(decision) if node not in key_node_descendants)
 
-                key_node_descendants = set(nx.descendants(macid, key_node))
-                cond_nodes2 = {decision}
-                cond_nodes2.update(node for node in macid.get_parents(decision) if node not in key_node_descendants)
-
-                if _effective_undir_path_not_blocked_by_set_w(macid, key_node, u, effective_set, cond_nodes2):
-                    return True
+                    if _effective_undir_path_not_blocked_by_set_w(macid, key_node, u, effective_set, cond_nodes2):
+                        return True
     else:
         return False
 
-- 
2.43.0


From 247b6e952d67bb036cb65399458f5af8e98975c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 22/25] fix: fork nodes need not be effective for a path to be
 effective

---
 pycid/analyze/reasoning_patterns.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index ec5a328..d3e5f4a 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -34,8 +34,11 @@ def _effective_undir_path_exists(mb: MACIDBase, start: str, finish: str, effecti
 
 
 def _path_is_effective(mb: MACIDBase, path: List[str], effective_set: Set[str]) -> bool:
-    """Check whether a path is effective."""
-    dec_nodes_in_path = set(mb.decisions).intersection(set(path[1:]))  # exclude first node of the path
+    """Check whether a path is effective, i.e. whether all decision nodes in the path,
+    except possibly the initial node, and except fork nodes, are effective."""
+    dec_nodes_in_path = {
+        node for i, node in enumerate(path) if i > 0 and node in mb.decisions and get_motif(mb, path, i) != "fork"
+    }
     # all([]) evaluates to true => this covers case where path has no decision nodes
     return all(dec_node in effective_set for dec_node in dec_nodes_in_path)
 
-- 
2.43.0


From 64f10a330ad4e68cd38ca0e86ce928e2293cd5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 23/25] fix: revealing/denying requires an effective frontdoor
 path

---
 pycid/analyze/reasoning_patterns.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index d3e5f4a..12838f1 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -7,7 +7,7 @@ from pycid.core.get_paths import (
     find_all_dir_paths,
     find_all_undir_paths,
     get_motif,
-    is_active_indirect_frontdoor_trail,
+    get_motifs,
     is_active_path,
 )
 from pycid.core.macid import MACID
@@ -81,6 +81,19 @@ def _effective_undir_path_not_blocked_by_set_w(
         return None
 
 
+def _effective_indirect_frontdoor_path_exists(
+    mb: MACIDBase, start: str, finish: str, effective_set: Set[str], w: Set[str]
+) -> bool:
+    """Check whether an effective indirect frontdoor path exists that is not blocked if we condition on nodes in w."""
+    return any(
+        path[0] in mb.get_parents(path[1])
+        and "collider" in get_motifs(mb, path)
+        and is_active_path(mb, path, w)
+        and _path_is_effective(mb, path, effective_set)
+        for path in find_all_undir_paths(mb, start, finish)
+    )
+
+
 def direct_effect(macid: MACID, decision: str) -> bool:
     """Check whether a decision in motivated by a direct effect reasoning pattern.
 
@@ -218,7 +231,7 @@ def revealing_or_denying(macid: MACID, decision: str, effective_set: Set[str]) -
             for u_b in agent_b_utils:
                 cond_nodes = {decision_b}
                 cond_nodes.update(node for node in macid.get_parents(decision_b) if node not in decision_descendants)
-                if is_active_indirect_frontdoor_trail(macid, decision, u_b, cond_nodes):
+                if _effective_indirect_frontdoor_path_exists(macid, decision, u_b, effective_set, cond_nodes):
                     return True
     else:
         return False
-- 
2.43.0


From 5abc2de060212a4900de7116227ab40f289ca846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:19 +0000
Subject: [PATCH 24/25] fix: the extensive form keeps its payoffs when the
 agents are a one-shot iterable

---
 pycid/export/gambit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index b405135..0bf5f1e 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -40,6 +40,7 @@ def macid_to_efg(
         decisions_in_sg = macid.decisions
     if agents_in_sg is None:
         agents_in_sg = macid.agents
+    agents_in_sg = list(agents_in_sg)
 
     # choose only relevant nodes
     game_tree_nodes = set(
-- 
2.43.0


From 2384b881414355fb89c019bfe961a8cbe2faa275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:52 +0000
Subject: [PATCH 25/25] fix: solve games in which a deciding agent has no
 relevant utility

---
 pycid/core/macid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index baa5994..b0e5b6a 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -81,7 +81,8 @@ class MACID(MACIDBase):
             else:
                 sg_agents_decs[agent] = [node]
         # finds the utilities_agents mapping in this subgame
-        sg_agents_utils: Dict[AgentLabel, List[str]] = {}
+        # (a deciding agent may have no utility node in the subgame)
+        sg_agents_utils: Dict[AgentLabel, List[str]] = {agent: [] for agent in sg_agents_decs}
         for node in set(r_nodes).intersection(set(self.utilities)):
             agent = self.utility_agent[node]
             if agent in sg_agents_utils:
-- 
2.43.0

