From 9e15eed132574d695976b69607a915208693706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 01/68] fix: query no longer deletes the nodes disconnected
 from it from the model

---
 pycid/core/causal_bayesian_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index fc623b5..19f676a 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -165,6 +165,8 @@ class CausalBayesianNetwork(BayesianNetwork):
             *[nx.node_connected_component(undirected, var) for var in query]
         )
         context = {k: v for k, v in context.items() if k in connected_nodes}
+        if cbn is self and not connected_nodes.issuperset(cbn.nodes):
+            cbn = self.copy()  # leave self intact
         for node in list(cbn.nodes):
             if node not in connected_nodes:
                 cbn.remove_node(node)
-- 
2.43.0


From 3280027b7cfbee3d5a7913e75afee7a12e72a376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 02/68] fix: expected_value returns the values in the order of
 the requested variables

---
 pycid/core/causal_bayesian_network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 19f676a..7563f48 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -213,6 +213,7 @@ class CausalBayesianNetwork(BayesianNetwork):
 
         intervention: Interventions to apply. A dictionary mapping node => value.
         """
+        variables = list(variables)
         factor = self.query(variables, context, intervention=intervention)
         factor.normalize()  # make probs add to one
 
@@ -230,7 +231,8 @@ class CausalBayesianNetwork(BayesianNetwork):
                         variables, context, idx, prob
                     )
                 )
-        return ev.tolist()  # type: ignore
+        # the factor lists its variables in an arbitrary order
+        return [float(ev[factor.variables.index(variable)]) for variable in variables]
 
     def sample(self, seed: Optional[int] = None) -> Dict[str, Outcome]:
         """
-- 
2.43.0


From 2efe08e4f74dbe0dcfff4482ca1204985567c940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 03/68] fix: MACIDBase.query accepts context on nodes with a
 plain TabularCPD

---
 pycid/core/macid_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 94c97b1..eb4d563 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -158,7 +158,7 @@ class MACIDBase(CausalBayesianNetwork):
         intervention: Interventions to apply. A dictionary mapping node => outcome.
         """
         for variable, outcome in context.items():
-            if outcome not in self.get_cpds(variable).domain:
+            if outcome not in self.model.domain[variable]:
                 raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
 
         intervention = intervention or {}
-- 
2.43.0


From 289de76e5b1f7b3d7369079c48dc6863a7e93be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 04/68] fix: create_subgame accepts a plain TabularCPD on a
 parent of the subgame

---
 pycid/core/macid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index a20a4d9..3765ba2 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -107,7 +107,7 @@ class MACID(MACIDBase):
             cpd.marginalize(macid_copy.get_parents(node))
             marginalised_probs = cpd.get_values()
             unpack_probs = [item for sublist in marginalised_probs for item in sublist]
-            sg_macid.model[node] = dict(zip(cpd.domain, unpack_probs))
+            sg_macid.model[node] = dict(zip(macid_copy.model.domain[node], unpack_probs))
 
         # copy over the cpds for everything else
         for node in set(sg_macid.nodes) - parents_for_marginalisation_of_original_cpd:
-- 
2.43.0


From f17c1ad687ef1677e123de56884ab4d96b0fcf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 05/68] fix: a rounding error in a distribution no longer gives
 an unspecified outcome a negative probability

---
 pycid/core/cpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 7c04a98..5faa4b7 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -96,7 +96,7 @@ class StochasticFunctionCPD(TabularCPD):
             """Complete a probability dictionary with probabilities for missing outcomes"""
             prob_dictionary = {key: value for key, value in prob_dictionary.items() if value is not None}
             missing_outcomes = set(self.domain) - set(prob_dictionary.keys())
-            missing_prob_mass = 1 - sum(prob_dictionary.values())  # type: ignore
+            missing_prob_mass = max(0.0, 1 - sum(prob_dictionary.values()))  # type: ignore
             for outcome in missing_outcomes:
                 prob_dictionary[outcome] = missing_prob_mass / len(missing_outcomes)
             return prob_dictionary
-- 
2.43.0


From 8b08c91ec3e5d3afcfb2363b79b3e3d12f2883d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 06/68] fix: ConstantCPD and DecisionDomain objects follow
 added and removed edges

---
 pycid/core/causal_bayesian_network.py |  4 +++-
 pycid/core/cpd.py                     | 15 +++++++++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 7563f48..83d8f52 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -73,7 +73,9 @@ class CausalBayesianNetwork(BayesianNetwork):
                 cpd.store_state_names(None, None, dict(self.domain))
 
         def to_tabular_cpd(self, variable: str, relationship: Relationship) -> TabularCPD:
-            if isinstance(relationship, TabularCPD):
+            if isinstance(relationship, ConstantCPD):
+                return relationship.copy(self.cbn)  # fit it to the current parents
+            elif isinstance(relationship, TabularCPD):
                 return relationship
             elif isinstance(relationship, Callable):  # type: ignore
                 return StochasticFunctionCPD(variable, relationship, self.cbn)  # type: ignore
diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 5faa4b7..64efd44 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -227,8 +227,19 @@ class ConstantCPD(StochasticFunctionCPD):
         domain: Optional[Sequence[Outcome]] = None,
         label: Optional[str] = None,
     ):
+        self.dictionary = dictionary
         super().__init__(variable, lambda **pv: dictionary, cbn, domain=domain, label=label or str(dictionary))
 
+    def copy(self, cbn: Optional[CausalBayesianNetwork] = None) -> ConstantCPD:
+        """Copy the CPD, fitted to the current parents of the variable in cbn (by default the CPD's own cbn)"""
+        return ConstantCPD(
+            str(self.variable),
+            self.dictionary,
+            cbn if cbn is not None else self.cbn,
+            domain=list(self.force_domain) if self.force_domain else None,
+            label=self.label,
+        )
+
 
 class DecisionDomain(ConstantCPD):
     """DecisionDomain is used to specify the domain for a decision
@@ -249,8 +260,8 @@ class DecisionDomain(ConstantCPD):
         """
         super().__init__(variable, {}, cbn, domain, label=f"Dec({domain})")
 
-    def copy(self) -> DecisionDomain:
-        return DecisionDomain(str(self.variable), self.cbn, domain=list(self.domain))
+    def copy(self, cbn: Optional[CausalBayesianNetwork] = None) -> DecisionDomain:
+        return DecisionDomain(str(self.variable), cbn if cbn is not None else self.cbn, domain=list(self.domain))
 
     def __repr__(self) -> str:
         return f"<DecisionDomain {self.variable}:{self.domain}>"
-- 
2.43.0


From b80cfc31320bbab51400b68081b5318254378da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 07/68] fix: an intervention keeps the order of the variable's
 domain

---
 pycid/core/causal_bayesian_network.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 83d8f52..c005217 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -194,9 +194,14 @@ class CausalBayesianNetwork(BayesianNetwork):
             del self.model[variable]
             for p in self.get_parents(variable):  # remove ingoing edges
                 self.remove_edge(p, variable)
-            new_dist = {outcome: 0 for outcome in self.model.domain[variable]}
+            domain = list(self.model.domain[variable])
+            new_dist = {outcome: 0 for outcome in domain}
             new_dist[intervention[variable]] = 1
-            self.model[variable] = new_dist
+            if len(new_dist) == len(domain):
+                # keep the order of the domain, which the CPDs of the children are aligned with
+                self.model[variable] = ConstantCPD(variable, new_dist, self, domain=domain)
+            else:
+                self.model[variable] = new_dist
 
     def expected_value(
         self,
-- 
2.43.0


From 83553021fa6a14f5d977bbaad1fb0348e984f091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 08/68] fix: create_subgame keeps the order of the domain of
 the subgame's parents

---
 pycid/core/macid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 3765ba2..3f2742d 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -7,7 +7,7 @@ from typing import Any, Dict, Iterable, List, Optional, Tuple
 import networkx as nx
 from pgmpy.factors.discrete import TabularCPD
 
-from pycid.core.cpd import DecisionDomain, StochasticFunctionCPD
+from pycid.core.cpd import ConstantCPD, DecisionDomain, StochasticFunctionCPD
 from pycid.core.macid_base import AgentLabel, MACIDBase
 from pycid.core.relevance_graph import CondensedRelevanceGraph
 from pycid.export.gambit import behavior_to_cpd, macid_to_efg, pygambit_ne_solver
@@ -107,7 +107,8 @@ class MACID(MACIDBase):
             cpd.marginalize(macid_copy.get_parents(node))
             marginalised_probs = cpd.get_values()
             unpack_probs = [item for sublist in marginalised_probs for item in sublist]
-            sg_macid.model[node] = dict(zip(macid_copy.model.domain[node], unpack_probs))
+            domain = list(macid_copy.model.domain[node])
+            sg_macid.model[node] = ConstantCPD(node, dict(zip(domain, unpack_probs)), sg_macid, domain=domain)
 
         # copy over the cpds for everything else
         for node in set(sg_macid.nodes) - parents_for_marginalisation_of_original_cpd:
-- 
2.43.0


From bd3415f2c5ff94dec88dfb1a215e9e79703638a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 09/68] fix: a copy no longer depends on later changes to the
 model it was copied from

---
 pycid/core/causal_bayesian_network.py | 5 ++++-
 pycid/export/gambit.py                | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index c005217..071f2d8 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -259,7 +259,10 @@ class CausalBayesianNetwork(BayesianNetwork):
         """copy the MACIDBase object"""
         model_copy = self.copy_without_cpds()
         for v in self.model:
-            model_copy.model[v] = self.model[v].copy() if hasattr(self.model[v], "copy") else self.model[v]
+            relationship = self.model[v].copy() if hasattr(self.model[v], "copy") else self.model[v]
+            if isinstance(relationship, StochasticFunctionCPD):
+                relationship.cbn = model_copy  # later changes to self do not concern the copy
+            model_copy.model[v] = relationship
         return model_copy
 
     def _get_color(self, node: str) -> Union[np.ndarray, str]:
diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index ed81d65..fa67e4e 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -191,7 +191,7 @@ def behavior_to_cpd(
 
     def _action_prob_given_parents(node: Any, **pv: Outcome) -> Mapping[str, float]:
         """Takes the parent instantiation and outputs the prob from the infoset"""
-        pv_tuple = (macid.decision_agent[node], tuple(pv.items()))
+        pv_tuple = (macid.decision_agent[node], tuple((p, pv[p]) for p in macid.get_parents(node)))
         # get the infoset for the node
         infoset = parents_to_infoset[pv_tuple]
         # if the infoset does not exist, this is not a valid parent instantiation
-- 
2.43.0


From 13cbf6c42957f1c16da93e9aa6ab58121a78b90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 10/68] fix: copies keep agents with only decisions or only
 utilities

---
 pycid/core/cid.py        | 9 ++++++---
 pycid/core/macid.py      | 9 ++++++---
 pycid/core/macid_base.py | 9 ++++++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/pycid/core/cid.py b/pycid/core/cid.py
index a909828..5968ff3 100644
--- a/pycid/core/cid.py
+++ b/pycid/core/cid.py
@@ -74,10 +74,13 @@ class CID(MACIDBase):
         new = CID()
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
-        for agent in self.agents:
-            for decision in self.agent_decisions[agent]:
+        for agent, decisions in self.agent_decisions.items():
+            new.agent_decisions.setdefault(agent, [])
+            for decision in decisions:
                 new.make_decision(decision, agent)
-            for utility in self.agent_utilities[agent]:
+        for agent, utilities in self.agent_utilities.items():
+            new.agent_utilities.setdefault(agent, [])
+            for utility in utilities:
                 new.make_utility(utility, agent)
         return new
 
diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 3f2742d..d184764 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -215,9 +215,12 @@ class MACID(MACIDBase):
         new = MACID()
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
-        for agent in self.agents:
-            for decision in self.agent_decisions[agent]:
+        for agent, decisions in self.agent_decisions.items():
+            new.agent_decisions.setdefault(agent, [])
+            for decision in decisions:
                 new.make_decision(decision, agent)
-            for utility in self.agent_utilities[agent]:
+        for agent, utilities in self.agent_utilities.items():
+            new.agent_utilities.setdefault(agent, [])
+            for utility in utilities:
                 new.make_utility(utility, agent)
         return new
diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index eb4d563..95f1675 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -426,10 +426,13 @@ class MACIDBase(CausalBayesianNetwork):
         new = MACIDBase()
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
-        for agent in self.agents:
-            for decision in self.agent_decisions[agent]:
+        for agent, decisions in self.agent_decisions.items():
+            new.agent_decisions.setdefault(agent, [])
+            for decision in decisions:
                 new.make_decision(decision, agent)
-            for utility in self.agent_utilities[agent]:
+        for agent, utilities in self.agent_utilities.items():
+            new.agent_utilities.setdefault(agent, [])
+            for utility in utilities:
                 new.make_utility(utility, agent)
         return new
 
-- 
2.43.0


From ecdd32c07f5ca4f8525c361ad91d9fd92c886479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 11/68] fix: a (MA)CID does not modify the lists of nodes it
 was created from

---
 pycid/core/macid_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 95f1675..6ddc335 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -86,8 +86,9 @@ class MACIDBase(CausalBayesianNetwork):
         """
         super().__init__(edges=edges, **kwargs)
 
-        self.agent_decisions = dict(agent_decisions) if agent_decisions else {}
-        self.agent_utilities = dict(agent_utilities) if agent_utilities else {}
+        # the lists are copied too, since make_decision and make_utility modify them
+        self.agent_decisions = {agent: list(nodes) for agent, nodes in (agent_decisions or {}).items()}
+        self.agent_utilities = {agent: list(nodes) for agent, nodes in (agent_utilities or {}).items()}
 
         self.decision_agent = {node: agent for agent, nodes in self.agent_decisions.items() for node in nodes}
         self.utility_agent = {node: agent for agent, nodes in self.agent_utilities.items() for node in nodes}
-- 
2.43.0


From bcbcd2062e23d0198e9493fcbb241480432c86e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 12/68] fix: removing a decision or utility node from a (MA)CID
 removes its role too

---
 pycid/core/macid_base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 6ddc335..c7832fb 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -139,6 +139,14 @@ class MACIDBase(CausalBayesianNetwork):
             agent = self.utility_agent.pop(node)
             self.agent_utilities[agent].remove(node)
 
+    def remove_node(self, node: str) -> None:
+        """Remove the node, and its role as a decision or utility node, from the (MA)CID"""
+        super().remove_node(node)
+        if node in self.decision_agent:
+            self.agent_decisions[self.decision_agent.pop(node)].remove(node)
+        if node in self.utility_agent:
+            self.agent_utilities[self.utility_agent.pop(node)].remove(node)
+
     def add_cpds(self, *cpds: TabularCPD, **relationships: Union[Relationship, List[Outcome]]) -> None:
         super().add_cpds(*cpds, **relationships)
 
-- 
2.43.0


From 9a7439c846148f85d1f542d98edf233e56a1f237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 13/68] fix: quantitative_voc no longer modifies the CID it is
 given

---
 pycid/analyze/value_of_control.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycid/analyze/value_of_control.py b/pycid/analyze/value_of_control.py
index 1658630..6495ed7 100644
--- a/pycid/analyze/value_of_control.py
+++ b/pycid/analyze/value_of_control.py
@@ -60,6 +60,7 @@ def quantitative_voc(cid: CID, node: str) -> float:
     if node not in cid.nodes:
         raise KeyError(f"{node} is not present in the cid")
 
+    cid = cid.copy()  # leave the original CID intact
     # optimal policy in the original CID.
     cid.impute_optimal_policy()
     ev1: float = cid.expected_utility({})
-- 
2.43.0


From 8ef3acf29f4949d001c7af2daf35fd4b5e0c14ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 14/68] fix: RandomCPD treats 0 as a seed

---
 pycid/random/random_cpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/random/random_cpd.py b/pycid/random/random_cpd.py
index c270836..359ec7f 100644
--- a/pycid/random/random_cpd.py
+++ b/pycid/random/random_cpd.py
@@ -39,7 +39,7 @@ class RandomCPD:
 
         seed: Set the random seed
         """
-        self.seed = seed or np.random.randint(0, 10000)
+        self.seed = seed if seed is not None else np.random.randint(0, 10000)
         self.smoothness = smoothness
         self.domain = domain or [0, 1]
 
-- 
2.43.0


From 72881cbe466deff32151426ad03ee0cf125efe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 15/68] fix: random_dag respects max_in_degree when it adds
 edges, and ends when the density is out of reach

---
 pycid/random/random_dag.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycid/random/random_dag.py b/pycid/random/random_dag.py
index 9f41596..b26a1f3 100644
--- a/pycid/random/random_dag.py
+++ b/pycid/random/random_dag.py
@@ -45,7 +45,9 @@ def random_dag(number_of_nodes: int = 5, edge_density: float = 0.4, max_in_degre
 
     # Then add edges until desired density is reached
     maximum_number_of_edges = number_of_nodes * (number_of_nodes - 1) / 2
-    while dag.number_of_edges() < int(edge_density * maximum_number_of_edges):
-        add_random_edge(dag, node_names)
+    reachable_number_of_edges = sum(min(i, max_in_degree) for i in range(number_of_nodes))
+    target = min(int(edge_density * maximum_number_of_edges), reachable_number_of_edges)
+    while dag.number_of_edges() < target:
+        add_random_edge(dag, node_names, max_in_degree)
 
     return dag
-- 
2.43.0


From c10b711ab318c83ff6f817856bc668a39c13ce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 16/68] fix: expected utility and optimal decisions with no or
 with disconnected utility nodes

---
 pycid/core/macid_base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index c7832fb..4ace30c 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -209,7 +209,11 @@ class MACIDBase(CausalBayesianNetwork):
 
         agent: Evaluate the utility of this agent.
         """
-        return sum(self.expected_value(self.agent_utilities[agent], context, intervention=intervention))
+        # one utility at a time, since they may lie in disconnected components
+        return sum(
+            self.expected_value([utility], context, intervention=intervention)[0]
+            for utility in self.agent_utilities[agent]
+        )
 
     def get_valid_order(self, nodes: Optional[Iterable[str]] = None) -> List[str]:
         """Get a topological order of the specified set of nodes (this may not be unique).
@@ -403,7 +407,7 @@ class MACIDBase(CausalBayesianNetwork):
             eu = {}
             for d in domain:
                 parent_values[decision] = d
-                eu[d] = sum(copy.expected_value(descendant_utility_nodes, parent_values))
+                eu[d] = sum(copy.expected_value([utility], parent_values)[0] for utility in descendant_utility_nodes)
             return max(eu, key=eu.get)  # type: ignore
 
         self.add_cpds(StochasticFunctionCPD(decision, opt_policy, self, domain=domain, label="opt"))
-- 
2.43.0


From af63e41a035bbffe051a0ae3aadbbea4abdaac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 17/68] fix: optimal_pure_policies keeps policies that tie at
 an expected utility of 0

---
 pycid/core/macid_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 4ace30c..c8d408d 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -359,7 +359,8 @@ class MACIDBase(CausalBayesianNetwork):
         for policy in macid.pure_policies(decisions):
             macid.add_cpds(*policy)
             expected_utility = macid.expected_utility({}, agent=agent)
-            if math.isclose(expected_utility, max_utility, rel_tol=rel_tol):
+            # the absolute tolerance keeps ties at 0, where rounding errors are relatively large
+            if math.isclose(expected_utility, max_utility, rel_tol=rel_tol, abs_tol=1e-12):
                 optimal_policies.append(policy)
             elif expected_utility > max_utility:
                 optimal_policies = [policy]
-- 
2.43.0


From 1fbf0a7cad485c25e340bca6195ef6c546f1b3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 18/68] fix: MechanismGraph detects names that clash with a
 mechanism node

---
 pycid/core/macid_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index c8d408d..40419ee 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -489,8 +489,8 @@ class MechanismGraph(MACIDBase):
         )
 
         for node in cid.nodes:
-            if node[:-3] == "mec":
-                raise ValueError("can't create a mechanism graph when node {node} already ends with mec")
+            if node + "mec" in cid.nodes:
+                raise ValueError(f"can't create a mechanism graph when there already is a node {node}mec")
             self.add_node(node + "mec")
             self.add_edge(node + "mec", node)
         # TODO: adapt the parameterization from cid as well
-- 
2.43.0


From cb9584cbb856bde05381bc6f991714a4ee580818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 19/68] fix: decisions of one agent with the same parents no
 longer share an information set in the EFG

---
 pycid/export/gambit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index fa67e4e..086220b 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -32,7 +32,7 @@ def macid_to_efg(
     - agents_in_sg: The agents to include in the EFG. If None, all agents are included.
     Returns:
     - game: The pygambit game object. This can be used for further manipulation of the game within pygambit.
-    - parents_to_infoset: A mapping from (agent, (parent, instantiation), ...) to pygambit infoset.
+    - parents_to_infoset: A mapping from (decision, (parent, instantiation), ...) to pygambit infoset.
     """
 
     # can use on a subgame if copying, else do the whole game
@@ -76,7 +76,7 @@ def macid_to_efg(
                 agent = macid.decision_agent[node]
                 player = agent_to_player[agent]
                 actions = macid.model.domain[node]
-                parents_actions_tuple = (agent, tuple(parents_actions.items()))  # hashable
+                parents_actions_tuple = (node, tuple(parents_actions.items()))  # hashable
                 # check if this matches an existing infoset
                 if parents_actions_tuple in parents_to_infoset:
                     cur_infoset = parents_to_infoset[parents_actions_tuple]
@@ -182,7 +182,7 @@ def behavior_to_cpd(
     """Convert a pygambit behavior strategy to list of CPDs for each decision node.
     Args:
     - macid: The MACID object relating to the behavior strategy.
-    - parents_to_infoset: A mapping from (agent, (parent, instantiation), ...) to pygambit infoset.
+    - parents_to_infoset: A mapping from (decision, (parent, instantiation), ...) to pygambit infoset.
     - behavior: The pygambit behavior strategy.
     - decisions_in_sg: The decisions in the subgame. If None, use all decisions in the MACID.
     Returns:
@@ -191,7 +191,7 @@ def behavior_to_cpd(
 
     def _action_prob_given_parents(node: Any, **pv: Outcome) -> Mapping[str, float]:
         """Takes the parent instantiation and outputs the prob from the infoset"""
-        pv_tuple = (macid.decision_agent[node], tuple((p, pv[p]) for p in macid.get_parents(node)))
+        pv_tuple = (node, tuple((p, pv[p]) for p in macid.get_parents(node)))
         # get the infoset for the node
         infoset = parents_to_infoset[pv_tuple]
         # if the infoset does not exist, this is not a valid parent instantiation
-- 
2.43.0


From b5313f18791704ad75df8f4345590ac22c7f97d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 20/68] fix: behavior_to_cpd accepts infosets that the agent's
 own earlier actions rule out

---
 pycid/export/gambit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 086220b..c1ee93a 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -198,6 +198,9 @@ def behavior_to_cpd(
         # TODO this was needed previously, but probably not needed anymore
         if not infoset:
             return {}
+        # an infoset the agent's own earlier actions rule out has no action probs: any decision will do there
+        if not sum(float(prob) for prob in behavior[infoset]) > 0:
+            return {}
         # get the action probs for the infoset
         action_probs = {macid.model.domain[node][i]: float(prob) for i, prob in enumerate(behavior[infoset])}
         return action_probs
-- 
2.43.0


From 7f963885d81b000cefa09dfef7ff14d01ffdf442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 21/68] fix: macid_to_efg accepts chance nodes whose parents
 are not in the game tree

---
 pycid/export/gambit.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index c1ee93a..d4af7ac 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -57,6 +57,8 @@ def macid_to_efg(
     # nodes referenced in the game tree. Root has node_idx (0,), rest are (0, n, m, ...)
     # state is a dict of node_idx:state of partial instantiations of nodes
     node_idx_to_state: Dict[Tuple[int, ...], Dict[str, Any]] = defaultdict(dict)
+    # nodes of the game tree that chance moves with probability 0 lead to
+    impossible: Set[Tuple[int, ...]] = set()
     # get cardinality of each node
     num_children = [1] + [len(macid.model.domain[node]) for node in sorted_game_tree_nodes]
     range_num_children = [list(range(x)) for x in num_children]
@@ -67,11 +69,11 @@ def macid_to_efg(
         for node_idx in itertools.product(*range_num_children[:i]):
             # get current node
             cur_node = _get_cur_node(game, node_idx)
-            parents = macid.get_parents(node)
-            parents_actions = {parent: node_idx_to_state[node_idx][parent] for parent in parents}
 
             # if the node is a decision, consider infosets
             if node in decisions_in_sg:
+                parents = macid.get_parents(node)
+                parents_actions = {parent: node_idx_to_state[node_idx][parent] for parent in parents}
                 # get agent and domain
                 agent = macid.decision_agent[node]
                 player = agent_to_player[agent]
@@ -94,20 +96,28 @@ def macid_to_efg(
                     state_info = node_idx_to_state[node_idx].copy()
                     state_info.update({node: action})
                     node_idx_to_state[node_idx + (action_idx,)] = state_info
+                    if node_idx in impossible:
+                        impossible.add(node_idx + (action_idx,))
             else:
-                # otherwise is a chance node
-                factor = macid.query([node], context=parents_actions)
-                move = cur_node.append_move(game.players.chance, factor.cardinality)
-                # add state info
+                # otherwise is a chance node, which depends on the whole history since some of its
+                # parents may not be in the game tree
                 actions = macid.model.domain[node]
-                for action_idx, prob in enumerate(factor.values):
+                if node_idx in impossible:
+                    probs = [1 / len(actions)] * len(actions)
+                else:
+                    probs = macid.query([node], context=node_idx_to_state[node_idx]).values
+                move = cur_node.append_move(game.players.chance, len(actions))
+                # add state info
+                for action_idx, prob in enumerate(probs):
+                    if node_idx in impossible or prob < 1e-12:
+                        impossible.add(node_idx + (action_idx,))
                     move.actions[action_idx].label = str(actions[action_idx])
                     move.actions[action_idx].prob = pygambit.Decimal(prob)
                     state_info = node_idx_to_state[node_idx].copy()
                     state_info.update({node: actions[action_idx]})
                     node_idx_to_state[node_idx + (action_idx,)] = state_info
 
-    game = _add_payoffs(macid, game, range_num_children, node_idx_to_state, agents_in_sg)
+    game = _add_payoffs(macid, game, range_num_children, node_idx_to_state, agents_in_sg, impossible)
 
     return game, parents_to_infoset
 
@@ -243,6 +253,7 @@ def _add_payoffs(
     range_num_children: List[List],
     node_idx_to_state: Dict[Tuple[int, ...], Dict[str, Any]],
     agents_in_sg: Iterable[Hashable],
+    impossible: Set[Tuple[int, ...]],
 ) -> pygambit.Game:
     """add payoffs to the game as leave nodes"""
     for node_idx in itertools.product(*range_num_children):
@@ -251,7 +262,7 @@ def _add_payoffs(
         # name outcome as a string of the node_idx
         payoff_tuple = game.outcomes.add(str(node_idx))
         for i, agent in enumerate(agents_in_sg):
-            payoff = macid.expected_utility(context=context, agent=agent)
+            payoff = 0 if node_idx in impossible else macid.expected_utility(context=context, agent=agent)
             payoff_tuple[i] = pygambit.Decimal(payoff)
         cur_node.outcome = payoff_tuple
 
-- 
2.43.0


From ffc31f738a345d1f6e665c327cbb66990d9d7542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 22/68] fix: subgames of decisions that have no effect on their
 agent's utility

---
 pycid/core/macid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index d184764..d02a8d2 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -87,8 +87,11 @@ class MACID(MACIDBase):
                 sg_agents_utils[agent].append(node)
             else:
                 sg_agents_utils[agent] = [node]
+        for agent in sg_agents_decs:
+            sg_agents_utils.setdefault(agent, [])
         # instantiate the skeleton of this MAID
         sg_macid = MACID(edges=edges_sg, agent_decisions=sg_agents_decs, agent_utilities=sg_agents_utils)
+        sg_macid.add_nodes_from(r_nodes_plus_decs)  # the decisions may have neither parents nor relevant nodes
 
         # random initialise decisions not already instantiated that aren't active in this subgame.
         # (this is to ensure that they are all "fully mixed - i.e., every action is chosen with positive probability")
-- 
2.43.0


From 4ec53740973e300c1835b976b381a469b5209df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 23/68] fix: reasoning patterns: fork nodes do not make a path
 ineffective

---
 pycid/analyze/reasoning_patterns.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index d28cdfe..7a43356 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -34,8 +34,9 @@ def _effective_undir_path_exists(mb: MACIDBase, start: str, finish: str, effecti
 
 
 def _path_is_effective(mb: MACIDBase, path: List[str], effective_set: Set[str]) -> bool:
-    """Check whether a path is effective."""
+    """Check whether a path is effective (all its decisions, except the initial node and fork nodes, are effective)."""
     dec_nodes_in_path = set(mb.decisions).intersection(set(path[1:]))  # exclude first node of the path
+    dec_nodes_in_path -= {node for i, node in enumerate(path[1:-1], start=1) if get_motif(mb, path, i) == "fork"}
     # all([]) evaluates to true => this covers case where path has no decision nodes
     return all(dec_node in effective_set for dec_node in dec_nodes_in_path)
 
-- 
2.43.0


From 6a4c61e1059631c1e8a1f38a060f3695346b7411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 24/68] fix: signaling considers every unblocked backdoor path,
 not an arbitrary one of them

---
 pycid/analyze/reasoning_patterns.py | 37 ++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index 7a43356..0784713 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -1,4 +1,4 @@
-from typing import Any, Dict, List, Optional, Set, Union
+from typing import Any, Dict, Iterator, List, Optional, Set, Union
 
 import networkx as nx
 
@@ -60,12 +60,18 @@ def _effective_backdoor_path_not_blocked_by_set_w(
     Returns the effective backdoor path not blocked if we condition on nodes in set w.
     If no such path exists, this returns None.
     """
+    return next(_effective_backdoor_paths_not_blocked_by_set_w(mb, start, finish, effective_set, w), None)
+
+
+def _effective_backdoor_paths_not_blocked_by_set_w(
+    mb: MACIDBase, start: str, finish: str, effective_set: Set[str], w: Optional[Set[str]] = None
+) -> Iterator[List[str]]:
+    """Iterate over the effective backdoor paths not blocked if we condition on nodes in set w."""
     for path in find_all_undir_paths(mb, start, finish):
         is_backdoor_path = path[1] in mb.get_parents(path[0])
         not_blocked_by_w = is_active_path(mb, path, w)
         if is_backdoor_path and not_blocked_by_w and _path_is_effective(mb, path, effective_set):
-            return path
-    return None
+            yield path
 
 
 def _effective_undir_path_not_blocked_by_set_w(
@@ -168,21 +174,20 @@ def signaling(macid: MACID, decision: str, effective_set: Set[str]) -> bool:
                 cond_nodes = {decision_b}
                 cond_nodes.update(node for node in macid.get_parents(decision_b) if node not in decision_descendants)
 
-                path = _effective_backdoor_path_not_blocked_by_set_w(macid, decision, u_b, effective_set, cond_nodes)
-                if not path:
-                    continue
+                for path in _effective_backdoor_paths_not_blocked_by_set_w(
+                    macid, decision, u_b, effective_set, cond_nodes
+                ):
+                    try:
+                        key_node = _get_key_node(macid, path)
+                    except ValueError:  # the path is directed from u_b to decision
+                        continue
 
-                if _get_key_node(macid, path):
-                    key_node = _get_key_node(macid, path)
-                else:
-                    return False
+                    key_node_descendants = set(nx.descendants(macid, key_node))
+                    cond_nodes2 = {decision}
+                    cond_nodes2.update(node for node in macid.get_parents(decision) if node not in key_node_descendants)
 
-                key_node_descendants = set(nx.descendants(macid, key_node))
-                cond_nodes2 = {decision}
-                cond_nodes2.update(node for node in macid.get_parents(decision) if node not in key_node_descendants)
-
-                if _effective_undir_path_not_blocked_by_set_w(macid, key_node, u, effective_set, cond_nodes2):
-                    return True
+                    if _effective_undir_path_not_blocked_by_set_w(macid, key_node, u, effective_set, cond_nodes2):
+                        return True
     else:
         return False
 
-- 
2.43.0


From 5a4a216222c5c5121ae68e4594383065062ce16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 25/68] fix: revealing_or_denying requires an effective
 indirect front-door path

---
 pycid/analyze/reasoning_patterns.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pycid/analyze/reasoning_patterns.py b/pycid/analyze/reasoning_patterns.py
index 0784713..a875ec8 100644
--- a/pycid/analyze/reasoning_patterns.py
+++ b/pycid/analyze/reasoning_patterns.py
@@ -7,7 +7,7 @@ from pycid.core.get_paths import (
     find_all_dir_paths,
     find_all_undir_paths,
     get_motif,
-    is_active_indirect_frontdoor_trail,
+    get_motifs,
     is_active_path,
 )
 from pycid.core.macid import MACID
@@ -225,8 +225,13 @@ def revealing_or_denying(macid: MACID, decision: str, effective_set: Set[str]) -
             for u_b in agent_b_utils:
                 cond_nodes = {decision_b}
                 cond_nodes.update(node for node in macid.get_parents(decision_b) if node not in decision_descendants)
-                if is_active_indirect_frontdoor_trail(macid, decision, u_b, cond_nodes):
-                    return True
+                for path in find_all_undir_paths(macid, decision, u_b):
+                    is_frontdoor_path = path[0] in macid.get_parents(path[1])
+                    is_indirect = "collider" in get_motifs(macid, path)
+                    not_blocked = is_active_path(macid, path, cond_nodes)
+                    if is_frontdoor_path and is_indirect and not_blocked:
+                        if _path_is_effective(macid, path, effective_set):
+                            return True
     else:
         return False
 
-- 
2.43.0


From b75ca719c42301a67e056ed4c280f81d0ccb94ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:07 +0000
Subject: [PATCH 26/68] fix: quantitative_voc of a utility node keeps counting
 its utility

---
 pycid/analyze/value_of_control.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycid/analyze/value_of_control.py b/pycid/analyze/value_of_control.py
index 6495ed7..fb62f8c 100644
--- a/pycid/analyze/value_of_control.py
+++ b/pycid/analyze/value_of_control.py
@@ -64,7 +64,11 @@ def quantitative_voc(cid: CID, node: str) -> float:
     # optimal policy in the original CID.
     cid.impute_optimal_policy()
     ev1: float = cid.expected_utility({})
-    cid.make_decision(node)
+    if node in cid.utilities:
+        # a controlled utility node still counts as a utility, and is best fixed at its largest value
+        cid.intervene({node: max(cid.model.domain[node])})
+    else:
+        cid.make_decision(node)
     # optimal policy in the modified CID where the agent can now decide the CPD for node.
     cid.impute_optimal_policy()
     ev2: float = cid.expected_utility({})
-- 
2.43.0


From 75c2bcff2bc3412d701e986562100c8fdb92fd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 27/68] fix: random (MA)CIDs with sufficient recall always have
 it

---
 pycid/random/random_macidbase.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycid/random/random_macidbase.py b/pycid/random/random_macidbase.py
index 113b29e..4fa196f 100644
--- a/pycid/random/random_macidbase.py
+++ b/pycid/random/random_macidbase.py
@@ -95,6 +95,9 @@ def random_macidbase(
 
             if sufficient_recall:
                 _add_sufficient_recalls(mb)
+                if not mb.sufficient_recall():
+                    # edges added for one pair of decisions can undo the recall of another: resample
+                    continue
                 if not _check_max_in_degree(mb, max_in_degree):
                     # adding edges for sufficient recall requirement violates max_in_degree: resample a new random DAG
                     continue
-- 
2.43.0


From b1536b0a71691fa01bfa20c6e0ebabfacf1d1954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 28/68] fix: is_active_indirect_frontdoor_trail from a node to
 itself

---
 pycid/core/get_paths.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycid/core/get_paths.py b/pycid/core/get_paths.py
index 0ceda45..45a8b3d 100644
--- a/pycid/core/get_paths.py
+++ b/pycid/core/get_paths.py
@@ -229,6 +229,8 @@ def is_active_indirect_frontdoor_trail(
             raise KeyError(f"The node {node} is not in the (MA)CID")
 
     for path in find_all_undir_paths(cbn, start_node, end_node):
+        if len(path) < 2:  # must have path of at least 2 nodes
+            continue
         is_frontdoor_path = path[0] in cbn.get_parents(path[1])
         not_blocked_by_observed = is_active_path(cbn, path, observed)
         contains_collider = "collider" in get_motifs(cbn, path)
-- 
2.43.0


From 53b39539ce3a03ba93599a0865f592c8543c9c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 29/68] fix: query keeps the outcome names when a clique has no
 CPD of its own

---
 pycid/core/causal_bayesian_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 071f2d8..b1a0344 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -176,6 +176,9 @@ class CausalBayesianNetwork(BayesianNetwork):
             raise ValueError(f"query {query} contains nodes in disconnected components")
 
         bp = BeliefPropagation(cbn)
+        for clique_factor in bp.junction_tree.factors:  # a clique without a CPD of its own lacks the state names
+            names = {variable: cbn.model.domain[variable] for variable in clique_factor.variables}
+            clique_factor.store_state_names(None, None, names)
 
         with np.errstate(invalid="ignore"):  # Suppress numpy warnings for 0/0
             factor = bp.query(query, context, show_progress=False)
-- 
2.43.0


From bef10652d3233f1e2e3f9de928506a7c7f66890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 30/68] fix: impute_optimal_decision accepts decision contexts
 that have probability 0

---
 pycid/core/macid_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 40419ee..0d01e0c 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -408,7 +408,10 @@ class MACIDBase(CausalBayesianNetwork):
             eu = {}
             for d in domain:
                 parent_values[decision] = d
-                eu[d] = sum(copy.expected_value([utility], parent_values)[0] for utility in descendant_utility_nodes)
+                try:
+                    eu[d] = sum(copy.expected_value([utility], parent_values)[0] for utility in descendant_utility_nodes)
+                except RuntimeError:  # the decision context has probability 0, so every choice is optimal
+                    eu[d] = 0
             return max(eu, key=eu.get)  # type: ignore
 
         self.add_cpds(StochasticFunctionCPD(decision, opt_policy, self, domain=domain, label="opt"))
-- 
2.43.0


From 8581958039cd43bed32d948a9cfb3a9534869e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:14 +0000
Subject: [PATCH 31/68] fix: impute_conditional_expectation_decision accepts
 decision contexts that have probability 0

---
 pycid/core/macid_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 0d01e0c..bb957a5 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -426,7 +426,10 @@ class MACIDBase(CausalBayesianNetwork):
             if y in pv:
                 return pv[y]  # type: ignore
             else:
-                return copy.expected_value([y], pv)[0]
+                try:
+                    return copy.expected_value([y], pv)[0]
+                except RuntimeError:  # the decision context has probability 0, so any value does
+                    return copy.expected_value([y], {})[0]
 
         self.add_cpds(**{decision: cond_exp_policy})
 
-- 
2.43.0


From b75dc693c90a17a24af6a7aabd44d574d4652335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 32/68] fix: a mechanism can be added after a parent's
 mechanism was removed

---
 pycid/core/cpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 64efd44..3eea178 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -103,7 +103,7 @@ class StochasticFunctionCPD(TabularCPD):
 
         card = len(self.domain)
         evidence = cbn.get_parents(self.variable)
-        evidence_card = [cbn.get_cardinality(p) for p in evidence]
+        evidence_card = [len(cbn.model.domain[p]) for p in evidence]
         probability_list = []
         for pv in self.parent_values():
             probabilities = complete_prob_dictionary(self.stochastic_function(**pv))
-- 
2.43.0


From ddbf86df2bfdfa0ca91eb95d454f8648a3b6f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 33/68] fix: removing an edge from an unspecified parent
 completes a constant mechanism

---
 pycid/core/causal_bayesian_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index b1a0344..4d92d26 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 import collections
-from typing import Any, Callable, Dict, Iterable, List, Mapping, Optional, Set, Tuple, Union
+from typing import Any, Callable, Dict, Iterable, List, Mapping, Optional, Sequence, Set, Tuple, Union
 
 import matplotlib.pyplot as plt
 import networkx as nx
@@ -99,7 +99,7 @@ class CausalBayesianNetwork(BayesianNetwork):
     def remove_edge(self, u: str, v: str) -> None:
         """removes an edge u to v that exists from the CBN"""
         super().remove_edge(u, v)
-        if v in self.model and isinstance(self.get_cpds(v), ConstantCPD):
+        if v in self.model and isinstance(self.model[v], (ConstantCPD, Mapping, Sequence)):
             self.model[v] = self.model[v]
 
     def add_edge(self, u: str, v: str, **kwargs: Any) -> None:
-- 
2.43.0


From bc4bc8e99cc334ca5d4c5c8581ba63bbf9f52ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 34/68] fix: copies of ConstantCPD and DecisionDomain keep the
 names of the parents' states

---
 pycid/core/cpd.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index 3eea178..bb6a633 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -232,13 +232,16 @@ class ConstantCPD(StochasticFunctionCPD):
 
     def copy(self, cbn: Optional[CausalBayesianNetwork] = None) -> ConstantCPD:
         """Copy the CPD, fitted to the current parents of the variable in cbn (by default the CPD's own cbn)"""
-        return ConstantCPD(
+        new = ConstantCPD(
             str(self.variable),
             self.dictionary,
             cbn if cbn is not None else self.cbn,
             domain=list(self.force_domain) if self.force_domain else None,
             label=self.label,
         )
+        if cbn is None:
+            new.store_state_names(None, None, self.state_names)  # including the names of the parents' states
+        return new
 
 
 class DecisionDomain(ConstantCPD):
@@ -261,7 +264,10 @@ class DecisionDomain(ConstantCPD):
         super().__init__(variable, {}, cbn, domain, label=f"Dec({domain})")
 
     def copy(self, cbn: Optional[CausalBayesianNetwork] = None) -> DecisionDomain:
-        return DecisionDomain(str(self.variable), cbn if cbn is not None else self.cbn, domain=list(self.domain))
+        new = DecisionDomain(str(self.variable), cbn if cbn is not None else self.cbn, domain=list(self.domain))
+        if cbn is None:
+            new.store_state_names(None, None, self.state_names)  # including the names of the parents' states
+        return new
 
     def __repr__(self) -> str:
         return f"<DecisionDomain {self.variable}:{self.domain}>"
-- 
2.43.0


From 8800d219dfb2f5ada72a46acf98d0109e9c552ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 35/68] fix: a model with an unfinished ConstantCPD can be
 copied

---
 pycid/core/causal_bayesian_network.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 4d92d26..a4e1c38 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -262,9 +262,11 @@ class CausalBayesianNetwork(BayesianNetwork):
         """copy the MACIDBase object"""
         model_copy = self.copy_without_cpds()
         for v in self.model:
-            relationship = self.model[v].copy() if hasattr(self.model[v], "copy") else self.model[v]
-            if isinstance(relationship, StochasticFunctionCPD):
-                relationship.cbn = model_copy  # later changes to self do not concern the copy
+            relationship = self.model[v]
+            if hasattr(relationship, "copy") and not isinstance(relationship, ConstantCPD):
+                relationship = relationship.copy()  # (of a ConstantCPD, each model makes its own copy when it can)
+                if isinstance(relationship, StochasticFunctionCPD):
+                    relationship.cbn = model_copy  # later changes to self do not concern the copy
             model_copy.model[v] = relationship
         return model_copy
 
-- 
2.43.0


From 0e437fd4363deaeb3da7bd824fd3b82b0cbe29e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 36/68] fix: a copy keeps the mechanisms of the children of a
 variable whose mechanism was removed

---
 pycid/core/causal_bayesian_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index a4e1c38..5d96d43 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -261,6 +261,8 @@ class CausalBayesianNetwork(BayesianNetwork):
     def copy(self) -> CausalBayesianNetwork:
         """copy the MACIDBase object"""
         model_copy = self.copy_without_cpds()
+        # including the domains of variables whose mechanism was removed, which children may have been fitted to
+        model_copy.model.domain = {variable: list(domain) for variable, domain in self.model.domain.items()}
         for v in self.model:
             relationship = self.model[v]
             if hasattr(relationship, "copy") and not isinstance(relationship, ConstantCPD):
-- 
2.43.0


From 587c5990cb27b773a484075153a5fc659dec2469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 37/68] fix: removing a node also removes a mechanism that has
 no CPD yet

A mechanism whose parents were not ready stayed in the model after its node was removed,
so that the model could not be copied, and queries on other components failed.
---
 pycid/core/causal_bayesian_network.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 5d96d43..990c8cf 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -108,6 +108,13 @@ class CausalBayesianNetwork(BayesianNetwork):
         if v in self.model and isinstance(self.get_cpds(v), ConstantCPD):
             self.model[v] = self.model[v]
 
+    def remove_node(self, node: str) -> None:
+        """removes a node from the CBN, along with its edges, mechanism and domain"""
+        super().remove_node(node)
+        if node in self.model:  # its mechanism may not have been compiled to a CPD yet
+            del self.model[node]
+        self.model.domain.pop(node, None)
+
     def add_cpds(self, *cpds: TabularCPD, **relationships: Relationship) -> None:
         """
         Add the given CPDs and initialize StochasticFunctionCPDs
-- 
2.43.0


From 886a7d3e298fb7f58818ab2a30b438931ea5a0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 38/68] fix: query ignores unfinished mechanisms in unconnected
 parts of the graph

Removing the parent of a CPD marginalises the CPD, which failed with a KeyError when the
parent had no domain yet, although the query did not concern either of them.
---
 pycid/core/causal_bayesian_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 990c8cf..42160f5 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -176,7 +176,7 @@ class CausalBayesianNetwork(BayesianNetwork):
         context = {k: v for k, v in context.items() if k in connected_nodes}
         if cbn is self and not connected_nodes.issuperset(cbn.nodes):
             cbn = self.copy()  # leave self intact
-        for node in list(cbn.nodes):
+        for node in reversed(list(nx.topological_sort(cbn))):  # children first, so that no CPD is marginalised
             if node not in connected_nodes:
                 cbn.remove_node(node)
         if not nx.is_connected(cbn.to_undirected()):
-- 
2.43.0


From 48ff6f5982646deb9e5969575774ecbec8fc83a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 39/68] fix: is_s_reachable accepts a set of decisions as its
 second argument

The check that d2 is a decision failed with a TypeError or AssertionError for the iterables
that the signature allows.
---
 pycid/core/macid_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index bb957a5..9e643bd 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -242,7 +242,8 @@ class MACIDBase(CausalBayesianNetwork):
         D2′ to U given Pa(D)∪{D}, where a path is active in a MAID if it is active in the same graph, viewed as a BN.
 
         """
-        assert d2 in self.decisions
+        d2 = [d2] if isinstance(d2, str) else list(d2)
+        assert all(d in self.decisions for d in d2)
         return self.is_r_reachable(d1, d2)
 
     def is_r_reachable(self, decisions: Union[str, Iterable[str]], nodes: Union[str, Iterable[str]]) -> bool:
-- 
2.43.0


From 87009be8b4a05a690e369ab6aa9fc548aa96f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 40/68] fix: quantitative_voc of a utility node that influences
 other nodes

Fixing the node at its largest value is best only when nothing depends on it.
---
 pycid/analyze/value_of_control.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pycid/analyze/value_of_control.py b/pycid/analyze/value_of_control.py
index fb62f8c..07a2cd4 100644
--- a/pycid/analyze/value_of_control.py
+++ b/pycid/analyze/value_of_control.py
@@ -64,7 +64,16 @@ def quantitative_voc(cid: CID, node: str) -> float:
     # optimal policy in the original CID.
     cid.impute_optimal_policy()
     ev1: float = cid.expected_utility({})
-    if node in cid.utilities:
+    if node in cid.utilities and cid.get_children(node):
+        # a controlled utility node still counts as a utility, through a copy of its value
+        value = node + "_value"
+        while value in cid.nodes:
+            value += "_"
+        cid.add_edge(node, value)
+        cid.make_decision(node)
+        cid.make_utility(value)
+        cid.add_cpds(**{value: lambda **pv: pv[node]})
+    elif node in cid.utilities:
         # a controlled utility node still counts as a utility, and is best fixed at its largest value
         cid.intervene({node: max(cid.model.domain[node])})
     else:
-- 
2.43.0


From 3e41a8a05d61e9c85cb9377fab1e18f43cc4d391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 41/68] fix: requisite_graph removes nonrequisite links until
 none is left

One pass over the decisions in reverse order is enough with a single agent, but with several
agents a link can become nonrequisite once a link to an earlier decision is removed.
---
 pycid/analyze/requisite_graph.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pycid/analyze/requisite_graph.py b/pycid/analyze/requisite_graph.py
index 2e70d90..783960a 100644
--- a/pycid/analyze/requisite_graph.py
+++ b/pycid/analyze/requisite_graph.py
@@ -43,8 +43,13 @@ def requisite_graph(cid: MACIDBase) -> MACIDBase:
     requisite_graph = cid.copy()
     decisions = cid.get_valid_order()
 
-    for decision in reversed(decisions):
-        non_requisite_nodes = set(cid.get_parents(decision)) - set(requisite_list(requisite_graph, decision))
-        for nr in non_requisite_nodes:
-            requisite_graph.remove_edge(nr, decision)
+    removed = True
+    while removed:  # with several agents, a link may become nonrequisite when one to an earlier decision is removed
+        removed = False
+        for decision in reversed(decisions):
+            parents = requisite_graph.get_parents(decision)
+            non_requisite_nodes = set(parents) - set(requisite_list(requisite_graph, decision))
+            for nr in non_requisite_nodes:
+                requisite_graph.remove_edge(nr, decision)
+                removed = True
     return requisite_graph
-- 
2.43.0


From b3244b42962db7b62d49d7ad3e4bb56bdecbd83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:00 +0000
Subject: [PATCH 42/68] fix: the expected value of a variable in the context is
 its value there

---
 pycid/core/causal_bayesian_network.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 42160f5..f0792ed 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -231,6 +231,15 @@ class CausalBayesianNetwork(BayesianNetwork):
         intervention: Interventions to apply. A dictionary mapping node => value.
         """
         variables = list(variables)
+        unknown = [variable for variable in variables if variable not in context]
+        if len(unknown) < len(variables):  # the value of the other variables is given by the context
+            for variable, outcome in context.items():
+                if outcome not in self.model.domain[variable]:
+                    raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
+            values = self.expected_value(unknown, context, intervention=intervention) if unknown else []
+            known = {**context, **dict(zip(unknown, values))}
+            return [float(known[variable]) for variable in variables]
+
         factor = self.query(variables, context, intervention=intervention)
         factor.normalize()  # make probs add to one
 
-- 
2.43.0


From fb521410abec8137835761d96ebd3284e061589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 43/68] fix: behavior_to_cpd accepts probabilities that a
 solver rounds out of [0, 1]

---
 pycid/export/gambit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index d4af7ac..6b208c3 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -212,7 +212,10 @@ def behavior_to_cpd(
         if not sum(float(prob) for prob in behavior[infoset]) > 0:
             return {}
         # get the action probs for the infoset
-        action_probs = {macid.model.domain[node][i]: float(prob) for i, prob in enumerate(behavior[infoset])}
+        # the numerical solvers may be off by a rounding error, which must not take a probability out of [0, 1]
+        action_probs = {
+            macid.model.domain[node][i]: min(max(float(prob), 0.0), 1.0) for i, prob in enumerate(behavior[infoset])
+        }
         return action_probs
 
     def _wrapped_partial(func: Callable, *args: str) -> Callable:
-- 
2.43.0


From 91fc805cc9223a866464930973dab8a9c419b1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:25 +0000
Subject: [PATCH 44/68] fix: get_spe keeps unrelated decisions fully mixed, so
 that every context of a subgame is solved

---
 pycid/core/macid.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index d02a8d2..e4474a3 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -9,7 +9,7 @@ from pgmpy.factors.discrete import TabularCPD
 
 from pycid.core.cpd import ConstantCPD, DecisionDomain, StochasticFunctionCPD
 from pycid.core.macid_base import AgentLabel, MACIDBase
-from pycid.core.relevance_graph import CondensedRelevanceGraph
+from pycid.core.relevance_graph import CondensedRelevanceGraph, RelevanceGraph
 from pycid.export.gambit import behavior_to_cpd, macid_to_efg, pygambit_ne_solver
 
 Outcome = Any
@@ -166,11 +166,17 @@ class MACID(MACIDBase):
         spes: List[List[StochasticFunctionCPD]] = [[]]
 
         macid = self.copy()
+        relevance_graph = RelevanceGraph(macid)
         # backwards induction over the sccs in the condensed relevance graph (handling tie-breaks)
         for scc in reversed(CondensedRelevanceGraph(macid).get_scc_topological_ordering()):
+            relevant_decs = {d for dec in scc for d in nx.descendants(relevance_graph, dec)}
             extended_spes = []
             for partial_profile in spes:
-                macid.add_cpds(*partial_profile)
+                # the decisions that the scc does not rely on must be fully mixed, lest they rule out
+                # some of its decision contexts
+                for dec in macid.decisions:
+                    macid.impute_random_decision(dec)
+                macid.add_cpds(*(cpd for cpd in partial_profile if cpd.variable in relevant_decs))
                 ne_in_sg = macid.get_ne_in_sg(decisions_in_sg=scc, solver=solver)
                 for ne in ne_in_sg:
                     extended_spes.append(partial_profile + list(ne))
-- 
2.43.0


From 471aead5f7cd919b38beaa79f909a6e8d1aeb4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:36 +0000
Subject: [PATCH 45/68] fix: random_dag refuses a maximal in degree of zero
 instead of sampling forever

---
 pycid/random/random_dag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycid/random/random_dag.py b/pycid/random/random_dag.py
index b26a1f3..d6e3d80 100644
--- a/pycid/random/random_dag.py
+++ b/pycid/random/random_dag.py
@@ -20,6 +20,8 @@ def add_random_edge(dag: DAG, node_order: List[str], max_in_degree: int = 4) ->
 def random_dag(number_of_nodes: int = 5, edge_density: float = 0.4, max_in_degree: int = 4) -> DAG:
     """Create a connected, random directed acyclic graph (DAG), with the given number of nodes,
     the given edge density, and with no node exceeding having too high in degree"""
+    if number_of_nodes < 1 or (number_of_nodes > 1 and max_in_degree < 1):
+        raise ValueError(f"There is no connected DAG with {number_of_nodes} nodes and in degree {max_in_degree}")
     node_names = [f"X{i}" for i in range(number_of_nodes)]
     dag = DAG()
 
-- 
2.43.0


From 93b02efeae9c0760e0ffc92cc46cdbb22c1bffb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:36 +0000
Subject: [PATCH 46/68] fix: random diagrams of a single node have that node

---
 pycid/random/random_cid.py       | 2 ++
 pycid/random/random_macid.py     | 1 +
 pycid/random/random_macidbase.py | 1 +
 3 files changed, 4 insertions(+)

diff --git a/pycid/random/random_cid.py b/pycid/random/random_cid.py
index 35fd38a..ed9d664 100644
--- a/pycid/random/random_cid.py
+++ b/pycid/random/random_cid.py
@@ -63,6 +63,7 @@ def random_cid(
     )
 
     dag = DAG(mb.edges)
+    dag.add_nodes_from(mb.nodes)  # a single node has no edges
     decision_nodes = mb.decisions
     utility_nodes = mb.utilities
 
@@ -73,6 +74,7 @@ def random_cid(
     dag = nx.relabel_nodes(dag, node_name_change_map)
 
     cid = CID(dag.edges, decisions=list(dec_name_change.values()), utilities=list(util_name_change.values()))
+    cid.add_nodes_from(dag.nodes)
 
     if add_cpds:
         add_random_cpds(cid)
diff --git a/pycid/random/random_macid.py b/pycid/random/random_macid.py
index 92f8867..bd89839 100644
--- a/pycid/random/random_macid.py
+++ b/pycid/random/random_macid.py
@@ -63,6 +63,7 @@ def random_macid(
         max_resampling_attempts=max_resampling_attempts,
     )
     macid = MACID(mb.edges, agent_decisions=mb.agent_decisions, agent_utilities=mb.agent_utilities)
+    macid.add_nodes_from(mb.nodes)  # a single node has no edges
 
     if add_cpds:
         add_random_cpds(macid)
diff --git a/pycid/random/random_macidbase.py b/pycid/random/random_macidbase.py
index 4fa196f..425ce8f 100644
--- a/pycid/random/random_macidbase.py
+++ b/pycid/random/random_macidbase.py
@@ -92,6 +92,7 @@ def random_macidbase(
 
             dag = nx.relabel_nodes(dag, node_name_change_map)
             mb = MACIDBase(dag.edges, agent_decisions=agent_decisions, agent_utilities=agent_utilities)
+            mb.add_nodes_from(dag.nodes)  # a single node has no edges
 
             if sufficient_recall:
                 _add_sufficient_recalls(mb)
-- 
2.43.0


From d617e60895e454a4806cb54cfd0b5714369db8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 47/68] fix: RandomCPD with a small smoothness gives a
 distribution instead of NaN

---
 pycid/random/random_cpd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycid/random/random_cpd.py b/pycid/random/random_cpd.py
index 359ec7f..12c399d 100644
--- a/pycid/random/random_cpd.py
+++ b/pycid/random/random_cpd.py
@@ -46,6 +46,8 @@ class RandomCPD:
     def __call__(self, **parent_values: Outcome) -> Mapping[Outcome, float]:
         with temp_seed(self.seed + hash(frozenset(parent_values.items())) % 2**31 - 1):
             prob_vec = np.random.dirichlet(np.ones(len(self.domain)) * self.smoothness, size=1).flat  # type: ignore
+            if not np.isfinite(prob_vec).all():  # the smoothness is so small that the draw underflows
+                prob_vec = np.eye(len(self.domain))[np.random.randint(len(self.domain))]
         return {self.domain[i]: prob for i, prob in enumerate(prob_vec)}  # type: ignore
 
     def __name__(self) -> str:
-- 
2.43.0


From 889853cadef6d0c3e864cfa83f4044c530fbb30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:53 +0000
Subject: [PATCH 48/68] fix: RandomCPD with a given seed agrees between
 interpreters, whatever the seed

---
 pycid/random/random_cpd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycid/random/random_cpd.py b/pycid/random/random_cpd.py
index 12c399d..2fd764f 100644
--- a/pycid/random/random_cpd.py
+++ b/pycid/random/random_cpd.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import contextlib
+import zlib
 from typing import Iterator, Mapping, Optional, Sequence
 
 import numpy as np
@@ -44,7 +45,9 @@ class RandomCPD:
         self.domain = domain or [0, 1]
 
     def __call__(self, **parent_values: Outcome) -> Mapping[Outcome, float]:
-        with temp_seed(self.seed + hash(frozenset(parent_values.items())) % 2**31 - 1):
+        # unlike hash, the checksum is the same in every interpreter
+        assignment = zlib.crc32(repr(sorted(parent_values.items(), key=lambda item: item[0])).encode())
+        with temp_seed((self.seed + assignment) % 2**32):
             prob_vec = np.random.dirichlet(np.ones(len(self.domain)) * self.smoothness, size=1).flat  # type: ignore
             if not np.isfinite(prob_vec).all():  # the smoothness is so small that the draw underflows
                 prob_vec = np.eye(len(self.domain))[np.random.randint(len(self.domain))]
-- 
2.43.0


From a6adaf28a7f3c22e413adee00cd4b017df55f90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:37 +0000
Subject: [PATCH 49/68] fix: an agent with only decisions or only utilities can
 be analysed like any other

---
 pycid/core/macid_base.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 9e643bd..7dc664d 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -90,6 +90,10 @@ class MACIDBase(CausalBayesianNetwork):
         self.agent_decisions = {agent: list(nodes) for agent, nodes in (agent_decisions or {}).items()}
         self.agent_utilities = {agent: list(nodes) for agent, nodes in (agent_utilities or {}).items()}
 
+        # an agent may have only decisions or only utilities
+        for agent in {**self.agent_utilities, **self.agent_decisions}:
+            self._add_agent(agent)
+
         self.decision_agent = {node: agent for agent, nodes in self.agent_decisions.items() for node in nodes}
         self.utility_agent = {node: agent for agent, nodes in self.agent_utilities.items() for node in nodes}
 
@@ -108,24 +112,24 @@ class MACIDBase(CausalBayesianNetwork):
         """The set of all agents"""
         return self.agent_utilities.keys()
 
+    def _add_agent(self, agent: AgentLabel) -> None:
+        self.agent_decisions.setdefault(agent, [])
+        self.agent_utilities.setdefault(agent, [])
+
     def make_decision(self, node: str, agent: AgentLabel = 0) -> None:
         """ "Turn a chance or utility node into a decision node.
         - agent specifies which agent the decision node should belong to in a MACID.
         """
         self.make_chance(node)
-        if agent not in self.agent_decisions:
-            self.agent_decisions[agent] = [node]
-        else:
-            self.agent_decisions[agent].append(node)
+        self._add_agent(agent)
+        self.agent_decisions[agent].append(node)
         self.decision_agent[node] = agent
 
     def make_utility(self, node: str, agent: AgentLabel = 0) -> None:
         """ "Turn a chance or utility node into a decision node."""
         self.make_chance(node)
-        if agent not in self.agent_utilities:
-            self.agent_utilities[agent] = [node]
-        else:
-            self.agent_utilities[agent].append(node)
+        self._add_agent(agent)
+        self.agent_utilities[agent].append(node)
         self.utility_agent[node] = agent
 
     def make_chance(self, node: str) -> None:
-- 
2.43.0


From 6a2f357d19b3f51df90f797f17c800cc22412fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:37 +0000
Subject: [PATCH 50/68] fix: samples of nodes whose parents have integer
 outcomes come from the right distribution

---
 pycid/core/causal_bayesian_network.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index f0792ed..77dee58 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -9,7 +9,6 @@ import numpy as np
 from pgmpy.factors.discrete import TabularCPD
 from pgmpy.inference.ExactInference import BeliefPropagation
 from pgmpy.models import BayesianNetwork
-from pgmpy.sampling import BayesianModelSampling
 
 from pycid.core.cpd import ConstantCPD, Outcome, ParentsNotReadyException, StochasticFunctionCPD
 
@@ -264,8 +263,18 @@ class CausalBayesianNetwork(BayesianNetwork):
         """
         Generates a sample from the joint distribution, and returns it as a dictionary {variable: outcome}
         """
-        sampled_df = BayesianModelSampling(self).forward_sample(size=1, seed=seed, show_progress=False)
-        return {var: sampled_df[var][0] for var in sampled_df.columns}
+        # (pgmpy's forward_sample takes the state numbers of parents for state names when outcomes are integers)
+        self.check_model()
+        if seed is not None:
+            np.random.seed(seed)
+        sample: Dict[str, Outcome] = {}
+        for node in nx.topological_sort(self):
+            cpd = self.get_cpds(node)
+            parent_states = tuple(cpd.state_names[parent].index(sample[parent]) for parent in cpd.variables[1:])
+            probabilities = cpd.values[(slice(None), *parent_states)]
+            idx = np.random.choice(len(probabilities), p=probabilities / probabilities.sum())
+            sample[node] = cpd.state_names[node][idx]
+        return {node: sample[node] for node in self.nodes if node not in self.latents}
 
     def copy_without_cpds(self) -> CausalBayesianNetwork:
         """copy the CausalBayesianNetwork object"""
-- 
2.43.0


From fd5afa191d129ca6b125bf124162fd04796f4e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 51/68] fix: admits_voi_list refuses the diagrams that
 admits_voi refuses, also when there is nothing to list

---
 pycid/analyze/value_of_information.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pycid/analyze/value_of_information.py b/pycid/analyze/value_of_information.py
index 1a3fc10..6a66e15 100644
--- a/pycid/analyze/value_of_information.py
+++ b/pycid/analyze/value_of_information.py
@@ -38,8 +38,7 @@ def admits_voi_list(cid: CID, decision: str) -> List[str]:
     """
     Return the list of nodes with possible value of information for decision.
     """
-    non_descendants = set(cid.nodes) - set(nx.descendants(cid, decision)) - {decision}
-    return [x for x in non_descendants if admits_voi(cid, decision, x)]
+    return [x for x in list(cid.nodes) if admits_voi(cid, decision, x)]
 
 
 def quantitative_voi(cid: CID, decision: str, node: str) -> float:
-- 
2.43.0


From 83008f7cfdb5fe4441e7b5c78eab7c363d7f329c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 52/68] fix: is_r_reachable refuses unknown nodes, and takes
 any iterable

---
 pycid/core/macid_base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 7dc664d..fcdc8bb 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -258,10 +258,11 @@ class MACIDBase(CausalBayesianNetwork):
         if a newly added parent 𝑉ˆ of 𝑉 satisfies 𝑉ˆ ̸⊥ 𝑼^𝑖 ∩ Desc_𝐷 | Fa_𝐷 .
         - If a node V is r-reachable from a decision D that means D strategically or probabilisticaly relies on V.
         """
-        if isinstance(decisions, str):
-            decisions = [decisions]
-        if isinstance(nodes, str):
-            nodes = [nodes]
+        decisions = [decisions] if isinstance(decisions, str) else list(decisions)
+        nodes = [nodes] if isinstance(nodes, str) else list(nodes)
+        for node in decisions + nodes:
+            if node not in self.nodes:
+                raise KeyError(f"The node {node} is not in the (MA)CID")
         mg = MechanismGraph(self)
         for decision in decisions:
             for node in nodes:
-- 
2.43.0


From de828ec3a16d24594a798d43858fd9b8616c1b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 53/68] fix: a refused intervention leaves the model as it was

---
 pycid/core/causal_bayesian_network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 77dee58..131324b 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -199,6 +199,10 @@ class CausalBayesianNetwork(BayesianNetwork):
         ----------
         intervention: Interventions to apply. A dictionary mapping node => value.
         """
+        for variable in intervention:
+            if variable not in self.model or variable not in self.model.domain:
+                raise KeyError(f"There is no mechanism for {variable} to intervene on")
+
         for variable in intervention:
             del self.model[variable]
             for p in self.get_parents(variable):  # remove ingoing edges
-- 
2.43.0


From 1ddb8069268c2af114abe519b08ce09cbb139795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 54/68] fix: a model keeps edges that are given by an iterator

---
 pycid/core/causal_bayesian_network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 131324b..7db580f 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -89,6 +89,7 @@ class CausalBayesianNetwork(BayesianNetwork):
         edges: A set of directed edges. Each is a pair of node labels (tail, head).
         """
         if edges is not None:
+            edges = list(edges)
             for edge in edges:
                 if not isinstance(edge, tuple) or len(edge) != 2 or not all(isinstance(node, str) for node in edge):
                     raise ValueError(f"The edge {edge} is not a tuple of two strings.")
-- 
2.43.0


From 9e3b0a1de654b55916270d655fc940601ce118da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 55/68] fix: active trails can be asked for without
 observations, or with a single one

---
 pycid/core/macid_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index fcdc8bb..9df984f 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -445,6 +445,10 @@ class MACIDBase(CausalBayesianNetwork):
     def active_trail_nodes(
         self, variables: Union[str, List[str], Tuple[str, ...]], observed: Optional[Iterable[str]] = None, **kwargs: Any
     ) -> Dict[str, Set[str]]:
+        if observed is None:
+            observed = []
+        elif isinstance(observed, str):
+            observed = [observed]
         return super().active_trail_nodes(variables, list(observed), **kwargs)  # type: ignore
 
     def copy_without_cpds(self) -> MACIDBase:
-- 
2.43.0


From 2d0ebd99c98c04d7dad2c27f50abf0540315ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 56/68] fix: queries, subgames and relevance graphs take any
 iterable

---
 pycid/core/causal_bayesian_network.py | 1 +
 pycid/core/macid.py                   | 1 +
 pycid/core/macid_base.py              | 1 +
 pycid/core/relevance_graph.py         | 3 +--
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 7db580f..fc63904 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -157,6 +157,7 @@ class CausalBayesianNetwork(BayesianNetwork):
 
         intervention: Interventions to apply. A dictionary mapping node => outcome.
         """
+        query = list(query)
         for variable, outcome in context.items():
             if outcome not in self.model.domain[variable]:
                 raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index e4474a3..02e10b9 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -63,6 +63,7 @@ class MACID(MACIDBase):
         Returns:
         - the subgame (MACID) object
         """
+        active_subgame_decs = list(active_subgame_decs)
         # find the nodes that are r-relevant for the active_subgame_decs
         r_nodes = [node for node in self.nodes if self.is_r_reachable(active_subgame_decs, node)]
         # adds the dection nodes to this set
diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 9df984f..35558ba 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -170,6 +170,7 @@ class MACIDBase(CausalBayesianNetwork):
 
         intervention: Interventions to apply. A dictionary mapping node => outcome.
         """
+        query = list(query)
         for variable, outcome in context.items():
             if outcome not in self.model.domain[variable]:
                 raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
diff --git a/pycid/core/relevance_graph.py b/pycid/core/relevance_graph.py
index cf83a94..c393940 100644
--- a/pycid/core/relevance_graph.py
+++ b/pycid/core/relevance_graph.py
@@ -23,8 +23,7 @@ class RelevanceGraph(nx.DiGraph):
 
     def __init__(self, cid: MACIDBase, decisions: Optional[Iterable[str]] = None):
         super().__init__()
-        if decisions is None:
-            decisions = cid.decisions
+        decisions = list(cid.decisions if decisions is None else decisions)
         self.add_nodes_from(decisions)
         dec_pair_perms = list(itertools.permutations(decisions, 2))
         for dec_pair in dec_pair_perms:
-- 
2.43.0


From 0b5ed2b6c696d60e8690e0bf513ac348fa31032e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 57/68] fix: an exported game keeps the payoffs when the agents
 are given by an iterator

---
 pycid/export/gambit.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pycid/export/gambit.py b/pycid/export/gambit.py
index 6b208c3..aea111a 100644
--- a/pycid/export/gambit.py
+++ b/pycid/export/gambit.py
@@ -38,8 +38,7 @@ def macid_to_efg(
     # can use on a subgame if copying, else do the whole game
     if decisions_in_sg is None:
         decisions_in_sg = macid.decisions
-    if agents_in_sg is None:
-        agents_in_sg = macid.agents
+    agents_in_sg = list(macid.agents if agents_in_sg is None else agents_in_sg)
 
     # choose only relevant nodes
     game_tree_nodes = set(
-- 
2.43.0


From c7bd3e54c8c810bbb81290c43a7b1ceaed99dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 58/68] fix: any callable can be a mechanism, also one that has
 neither a name nor source code

---
 pycid/core/cpd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index bb6a633..c1b33db 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -138,7 +138,7 @@ class StochasticFunctionCPD(TabularCPD):
         sl = ""
         try:
             sl = getsourcelines(function)[0][0]
-        except OSError:
+        except (OSError, TypeError):
             lambda_pos = -1  # Could not find source
         else:
             var_pos = sl.find(self.variable)
-- 
2.43.0


From 91988cf51c8c5c9be392c468530cb086347b826c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 59/68] fix: expected_value refuses interventions on unknown
 variables, also for variables in the context

---
 pycid/core/causal_bayesian_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index fc63904..2409019 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -241,6 +241,9 @@ class CausalBayesianNetwork(BayesianNetwork):
             for variable, outcome in context.items():
                 if outcome not in self.model.domain[variable]:
                     raise ValueError(f"The outcome {outcome} is not in the domain of {variable}")
+            for variable in intervention or {}:
+                if variable not in self.model.domain:
+                    raise KeyError(f"There is no mechanism for {variable} to intervene on")
             values = self.expected_value(unknown, context, intervention=intervention) if unknown else []
             known = {**context, **dict(zip(unknown, values))}
             return [float(known[variable]) for variable in variables]
-- 
2.43.0


From 39b7a72434a8e0507d9318fdc98ade962f50ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 60/68] fix: optimal_pure_policies of no decisions, given by an
 iterator

---
 pycid/core/macid_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index 35558ba..d82e278 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -344,9 +344,9 @@ class MACIDBase(CausalBayesianNetwork):
         - rel_tol: is the relative tolerance. It is the amount of error allowed, relative to the larger
         absolute value of the two values it is comparing (the two utilities.)
         """
+        decisions = set(decisions)
         if not decisions:
             return []
-        decisions = set(decisions)
         try:
             (agent,) = {self.decision_agent[d] for d in decisions}
         except ValueError as e:
-- 
2.43.0


From 8933b8e63d5b587668fbba0d7ff653004d8c53a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:03 +0000
Subject: [PATCH 61/68] fix: get_ne looks for the equilibria of the whole
 MACID, where some contexts may not arise

---
 pycid/core/macid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 02e10b9..9bbdde9 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -137,6 +137,7 @@ class MACID(MACIDBase):
         - If the MACID being operated on already has function CPDs for some decision nodes, it is
         assumed that these have already been optimised and so these are not changed.
         """
+        full_macid = decisions_in_sg is None
         if decisions_in_sg is None:
             decisions_in_sg = self.decisions
         else:
@@ -146,7 +147,8 @@ class MACID(MACIDBase):
         # We exploit the fact that we only need to create an EFG correspondsing to the MACID subgame
         # we don't need to create an EFG for the full MACID
         # - the macid_to_efg transformation is exponential in the number of MACID nodes
-        sg_macid = self.create_subgame(decisions_in_sg)
+        # - but for NE in the full MACID, which contexts can arise at all depends on the other nodes, too
+        sg_macid = self.copy() if full_macid else self.create_subgame(decisions_in_sg)
         # pygambit NE solver
         efg, parents_to_infoset = macid_to_efg(sg_macid, decisions_in_sg, agents_in_sg)
         ne_behavior_strategies = pygambit_ne_solver(efg, solver_override=solver)
-- 
2.43.0


From e01d7c25a5d4d8f0dcc0777186e87815de176651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 62/68] fix: in battle_of_the_sexes the decisions and payoffs
 belong to the player they are named after

---
 pycid/examples/story_macids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycid/examples/story_macids.py b/pycid/examples/story_macids.py
index 095c308..67fdbe7 100644
--- a/pycid/examples/story_macids.py
+++ b/pycid/examples/story_macids.py
@@ -63,8 +63,8 @@ def battle_of_the_sexes() -> MACID:
     """
     macid = MACID(
         [("D_F", "U_F"), ("D_F", "U_M"), ("D_M", "U_M"), ("D_M", "U_F")],
-        agent_decisions={"M": ["D_F"], "F": ["D_M"]},
-        agent_utilities={"M": ["U_F"], "F": ["U_M"]},
+        agent_decisions={"F": ["D_F"], "M": ["D_M"]},
+        agent_utilities={"F": ["U_F"], "M": ["U_M"]},
     )
 
     d_f_domain = ["O", "F"]
-- 
2.43.0


From 52940e1e52e35320f95b6a2c0962ded4b7c4ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:54 +0000
Subject: [PATCH 63/68] fix: requisite recognises latent utilities

---
 pycid/analyze/requisite_graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycid/analyze/requisite_graph.py b/pycid/analyze/requisite_graph.py
index 783960a..1795543 100644
--- a/pycid/analyze/requisite_graph.py
+++ b/pycid/analyze/requisite_graph.py
@@ -23,7 +23,9 @@ def requisite(cid: MACIDBase, decision: str, node: str) -> bool:
     descended_agent_utilities = set(agent_utilities).intersection(nx.descendants(cid, decision))
     family_d = [decision] + cid.get_parents(decision)
     conditioning_nodes = [i for i in family_d if i != node]
-    return any(cid.is_dconnected(node, u_node, conditioning_nodes) for u_node in descended_agent_utilities)
+    # (also when the utilities are latent variables)
+    connected_nodes = cid.active_trail_nodes(node, observed=conditioning_nodes, include_latents=True)[node]
+    return any(u_node in connected_nodes for u_node in descended_agent_utilities)
 
 
 def requisite_list(cid: MACIDBase, decision: str) -> List[str]:
-- 
2.43.0


From 565d9f0e2640db2c3804878f3e3522a2e4d8d02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:54 +0000
Subject: [PATCH 64/68] fix: copies keep the set of latent variables

---
 pycid/core/causal_bayesian_network.py | 1 +
 pycid/core/cid.py                     | 1 +
 pycid/core/macid.py                   | 1 +
 pycid/core/macid_base.py              | 1 +
 4 files changed, 4 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 2409019..2f6b103 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -290,6 +290,7 @@ class CausalBayesianNetwork(BayesianNetwork):
         new = CausalBayesianNetwork()
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
+        new.latents = set(self.latents)
         return new
 
     def copy(self) -> CausalBayesianNetwork:
diff --git a/pycid/core/cid.py b/pycid/core/cid.py
index 5968ff3..f6abefc 100644
--- a/pycid/core/cid.py
+++ b/pycid/core/cid.py
@@ -74,6 +74,7 @@ class CID(MACIDBase):
         new = CID()
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
+        new.latents = set(self.latents)
         for agent, decisions in self.agent_decisions.items():
             new.agent_decisions.setdefault(agent, [])
             for decision in decisions:
diff --git a/pycid/core/macid.py b/pycid/core/macid.py
index 9bbdde9..16b06ec 100644
--- a/pycid/core/macid.py
+++ b/pycid/core/macid.py
@@ -227,6 +227,7 @@ class MACID(MACIDBase):
         new = MACID()
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
+        new.latents = set(self.latents)
         for agent, decisions in self.agent_decisions.items():
             new.agent_decisions.setdefault(agent, [])
             for decision in decisions:
diff --git a/pycid/core/macid_base.py b/pycid/core/macid_base.py
index d82e278..3d4ef61 100644
--- a/pycid/core/macid_base.py
+++ b/pycid/core/macid_base.py
@@ -457,6 +457,7 @@ class MACIDBase(CausalBayesianNetwork):
         new = MACIDBase()
         new.add_nodes_from(self.nodes)
         new.add_edges_from(self.edges)
+        new.latents = set(self.latents)
         for agent, decisions in self.agent_decisions.items():
             new.agent_decisions.setdefault(agent, [])
             for decision in decisions:
-- 
2.43.0


From e12ef95d3f89de51aea390c0b6908e4b3911ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:13 +0000
Subject: [PATCH 65/68] Revert "fix: in battle_of_the_sexes the decisions and
 payoffs belong to the player they are named after"

This reverts commit e01d7c25a5d4d8f0dcc0777186e87815de176651.
---
 pycid/examples/story_macids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycid/examples/story_macids.py b/pycid/examples/story_macids.py
index 67fdbe7..095c308 100644
--- a/pycid/examples/story_macids.py
+++ b/pycid/examples/story_macids.py
@@ -63,8 +63,8 @@ def battle_of_the_sexes() -> MACID:
     """
     macid = MACID(
         [("D_F", "U_F"), ("D_F", "U_M"), ("D_M", "U_M"), ("D_M", "U_F")],
-        agent_decisions={"F": ["D_F"], "M": ["D_M"]},
-        agent_utilities={"F": ["U_F"], "M": ["U_M"]},
+        agent_decisions={"M": ["D_F"], "F": ["D_M"]},
+        agent_utilities={"M": ["U_F"], "F": ["U_M"]},
     )
 
     d_f_domain = ["O", "F"]
-- 
2.43.0


From efa620f959f55a704b824e115f57b3f2d29ec78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:46 +0000
Subject: [PATCH 66/68] fix: the name of a random mechanism is a string, not a
 method

---
 pycid/random/random_cpd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycid/random/random_cpd.py b/pycid/random/random_cpd.py
index 2fd764f..cc517f2 100644
--- a/pycid/random/random_cpd.py
+++ b/pycid/random/random_cpd.py
@@ -53,5 +53,6 @@ class RandomCPD:
                 prob_vec = np.eye(len(self.domain))[np.random.randint(len(self.domain))]
         return {self.domain[i]: prob for i, prob in enumerate(prob_vec)}  # type: ignore
 
+    @property
     def __name__(self) -> str:
         return f"RandomCPD({self.domain})"
-- 
2.43.0


From 5b95f4b3139a6832f0b69b1e98f12c9109e564bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:46 +0000
Subject: [PATCH 67/68] fix: a copy of a mechanism keeps its label

---
 pycid/core/cpd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycid/core/cpd.py b/pycid/core/cpd.py
index c1b33db..9c42c90 100644
--- a/pycid/core/cpd.py
+++ b/pycid/core/cpd.py
@@ -191,6 +191,7 @@ class StochasticFunctionCPD(TabularCPD):
             self.cbn,
             domain=list(self.force_domain) if self.force_domain else None,
             state_names=self.state_names,
+            label=self.label,
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From 2f7ab2b37aaf515796fb436e5681b706504cd438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:10 +0000
Subject: [PATCH 68/68] fix: removing several edges refits the mechanisms like
 removing one

---
 pycid/core/causal_bayesian_network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycid/core/causal_bayesian_network.py b/pycid/core/causal_bayesian_network.py
index 2f6b103..2e6c0d3 100644
--- a/pycid/core/causal_bayesian_network.py
+++ b/pycid/core/causal_bayesian_network.py
@@ -102,6 +102,12 @@ class CausalBayesianNetwork(BayesianNetwork):
         if v in self.model and isinstance(self.model[v], (ConstantCPD, Mapping, Sequence)):
             self.model[v] = self.model[v]
 
+    def remove_edges_from(self, ebunch: Iterable[Tuple[str, str]]) -> None:
+        """removes those of the given edges that exist from the CBN"""
+        for u, v, *_ in list(ebunch):
+            if self.has_edge(u, v):
+                self.remove_edge(u, v)
+
     def add_edge(self, u: str, v: str, **kwargs: Any) -> None:
         """adds an edge from u to v to the CBN"""
         super().add_edge(u, v, **kwargs)
-- 
2.43.0

