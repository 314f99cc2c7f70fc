"""Reference definitions: reachability, relevance graphs, sufficient recall, valid orders."""
import itertools

import networkx as nx

from pycid.core.macid_base import MechanismGraph
from pycid.core.relevance_graph import CondensedRelevanceGraph, RelevanceGraph


def ref_r_reachable(m, decisions, nodes):
    """some node's mechanism is d-connected, given the family of one of the decisions, to a utility of the decision's
    agent that is a descendant of the decision"""
    g = MechanismGraph(m)
    for d in decisions:
        owner = m.decision_agent[d]
        fam = {d}.union(m.get_parents(d))
        for n in nodes:
            for u in m.agent_utilities[owner]:
                if u in nx.descendants(m, d) and g.is_dconnected(n + "mec", u, fam):
                    return True
    return False


def ref_r_reachable_one(m, d, n):
    g = MechanismGraph(m)
    owner = m.decision_agent[d]
    return any(
        u in nx.descendants(m, d) and g.is_dconnected(n + "mec", u, [d] + m.get_parents(d)) for u in m.agent_utilities[owner]
    )


def ref_s_reachable(m, d1, d2):
    assert d2 in m.decisions
    return m.is_r_reachable(d1, d2)


def ref_sufficient_recall(m, agent=None):
    if agent is None:
        for a in m.agents:
            if not RelevanceGraph(m, m.agent_decisions.get(a, [])).is_acyclic():
                return False
        return True
    if agent not in m.agents:
        raise ValueError()
    return RelevanceGraph(m, m.agent_decisions.get(agent, [])).is_acyclic()


def ref_valid_order(m, nodes=None):
    if not nx.is_directed_acyclic_graph(m):
        raise ValueError()
    wanted = m.decisions if nodes is None else nodes
    for n in wanted:
        if n not in m.nodes:
            raise KeyError()
    return [n for n in nx.topological_sort(m) if n in wanted]


def ref_relevance_graph(self, m, decisions=None):
    super(RelevanceGraph, self).__init__()
    if decisions is None:
        decisions = m.decisions
    decisions = list(decisions)
    self.add_nodes_from(decisions)
    for a, b in itertools.permutations(decisions, 2):
        if m.is_s_reachable(a, b):
            self.add_edge(a, b)


def ref_condensed(self, m):
    super(CondensedRelevanceGraph, self).__init__()
    con = nx.condensation(RelevanceGraph(m))
    self.add_nodes_from(con.nodes)
    self.add_edges_from(con.edges)
    self.graph["mapping"] = con.graph["mapping"]


def ref_scc_order(self):
    return [self.get_decisions_in_scc()[s] for s in nx.topological_sort(self)]


def ref_decisions_in_scc(self):
    out = {}
    for d, s in self.graph["mapping"].items():
        out[s] = out.get(s, []) + [d]
    return out


def ref_is_acyclic(self):
    return nx.is_directed_acyclic_graph(self)


def ref_sccs(self):
    return list(nx.strongly_connected_components(self))
