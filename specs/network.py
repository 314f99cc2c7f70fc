"""Reference definitions: the Bayesian network layer (CPD registry, copies, queries, interventions, expected values).
Only read by the analyser, never run."""
import collections
from collections.abc import Mapping
from typing import Callable

import networkx as nx
import numpy as np
from pgmpy.factors.discrete import TabularCPD
from pgmpy.inference.ExactInference import BeliefPropagation
from pgmpy.models import BayesianNetwork
from pgmpy.sampling import BayesianModelSampling

from pycid.core.causal_bayesian_network import CausalBayesianNetwork
from pycid.core.cpd import ConstantCPD, ParentsNotReadyException, StochasticFunctionCPD


# ---- the registry of relationships


def ref_model_init(self, cbn, args, kwargs):
    super(CausalBayesianNetwork.Model, self).__init__(*args, **kwargs)
    self.cbn = cbn
    self.domain = {}


def ref_setitem(self, v, rel):
    """the new relationship replaces the old one, its CPD (if its parents are ready) is registered and its domain
    recorded; the children with a relationship are recomputed when the domain is not the one it was"""
    before = self.domain.get(v)
    if v in self.keys():
        self.__delitem__(v)
    super(CausalBayesianNetwork.Model, self).__setitem__(v, rel)
    try:
        table = self.to_tabular_cpd(v, rel)
    except ParentsNotReadyException:
        return
    BayesianNetwork.add_cpds(self.cbn, table)
    self.domain[v] = table.state_names[v]
    if not before or before != self.domain[v]:
        for ch in self.cbn.get_children(v):
            if ch in self.keys():
                self.__setitem__(ch, self[ch])
    self.sync_state_names()


def ref_delitem(self, v):
    super(CausalBayesianNetwork.Model, self).__delitem__(v)
    self.domain.pop(v, None)
    try:
        BayesianNetwork.remove_cpds(self.cbn, v)
    except ValueError:
        pass


def ref_sync(self):
    for c in self.cbn.get_cpds():
        c.store_state_names(None, None, dict(self.domain))


def ref_to_tabular(self, v, rel):
    if isinstance(rel, TabularCPD):
        return rel
    if isinstance(rel, Callable):
        return StochasticFunctionCPD(v, rel, self.cbn)
    if isinstance(rel, Mapping):
        return ConstantCPD(v, rel, self.cbn)
    return None


# ---- the network


def ref_init(self, edges=None, kwargs=None):
    if edges is not None:
        edges = list(edges)
        for e in edges:
            if not (isinstance(e, tuple) and len(e) == 2 and all(isinstance(n, str) for n in e)):
                raise ValueError()
    self.model = self.Model(self)
    super(CausalBayesianNetwork, self).__init__(ebunch=edges, **kwargs)


def ref_remove_edge(self, a, b):
    super(CausalBayesianNetwork, self).remove_edge(a, b)
    if b in self.model:
        if isinstance(self.get_cpds(b), ConstantCPD):
            self.model[b] = self.model[b]


def ref_add_edge(self, a, b, kwargs):
    super(CausalBayesianNetwork, self).add_edge(a, b, **kwargs)
    if b in self.model:
        if isinstance(self.get_cpds(b), ConstantCPD):
            self.model[b] = self.model[b]


def ref_remove_node(self, n):
    super(CausalBayesianNetwork, self).remove_node(n)
    if n in self.model:
        del self.model[n]


def ref_add_cpds(self, cpds, relationships):
    for c in cpds:
        self.model[c.variable] = c
    self.model.update(relationships)


def ref_remove_cpds(self, cpds):
    for c in cpds:
        if isinstance(c, TabularCPD):
            name = c.variable
        else:
            name = c
        del self.model[name]


def ref_is_scm(self):
    for n in self:
        if self.get_parents(n):
            for p in self.get_cpds(n).values.flatten():
                if not np.isclose(p, 0) and not np.isclose(p, 1):
                    return False
    return True


def ref_query(self, query, context, intervention=None):
    """refused for outcomes outside the domain; the intervention acts on a copy; the parts of the network that are not
    connected to the query are left out of a copy; the context is restricted to what is connected"""
    for v in context:
        if context[v] not in self.model.domain[v]:
            raise ValueError()
    net = self
    if intervention:
        net = self.copy()
        net.intervene(intervention)
    und = net.to_undirected()
    near = {n for q in query for n in nx.node_connected_component(und, q)}
    far = [n for n in net.nodes if n not in near]
    if far and net is self:
        net = self.copy()
    for n in far:
        net.remove_node(n)
    if not nx.is_connected(net.to_undirected()):
        raise ValueError()
    evidence = {k: context[k] for k in context if k in near}
    inference = BeliefPropagation(net)
    with np.errstate(invalid="ignore"):
        return inference.query(query, evidence, show_progress=False)


def ref_intervene(self, intervention):
    """all of the mass on the chosen outcome, and no ingoing edges"""
    for v, value in intervention.items():
        dist = {o: 0 for o in self.model.domain[v]}
        dist[value] = 1
        del self.model[v]
        for p in self.get_parents(v):
            self.remove_edge(p, v)
        self.model[v] = dist


def ref_expected_value(self, variables, context, intervention=None):
    variables = list(variables)
    if not variables:
        return []
    factor = self.query(variables, context, intervention=intervention)
    factor.normalize()
    total = np.array([0.0 for _ in factor.variables])
    for idx, prob in np.ndenumerate(factor.values):
        total += prob * np.array([factor.state_names[v][idx[i]] for i, v in enumerate(factor.variables)])
        if np.isnan(total).any():
            raise RuntimeError()
    return [float(total[factor.variables.index(v)]) for v in variables]


def ref_sample(self, seed=None):
    frame = BayesianModelSampling(self).forward_sample(size=1, seed=seed, show_progress=False)
    return {v: frame[v][0] for v in frame.columns}


def ref_copy_without_cpds(self):
    new = CausalBayesianNetwork()
    new.add_nodes_from(self.nodes)
    new.add_edges_from(self.edges)
    return new


def ref_copy(self):
    new = self.copy_without_cpds()
    for v in self.model:
        if hasattr(self.model[v], "copy"):
            rel = self.model[v].copy()
        else:
            rel = self.model[v]
        if isinstance(rel, StochasticFunctionCPD):
            rel.cbn = new
        new.model[v] = rel
    return new
