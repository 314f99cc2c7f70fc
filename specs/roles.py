"""Reference definitions: agents, roles and policies of (multi-agent) influence diagrams."""
import itertools
import math
from collections.abc import Sequence
from functools import lru_cache
from warnings import warn

import networkx as nx
import numpy as np

from pycid.core.cid import CID
from pycid.core.causal_bayesian_network import CausalBayesianNetwork
from pycid.core.cpd import DecisionDomain, StochasticFunctionCPD
from pycid.core.macid import MACID
from pycid.core.macid_base import MACIDBase, MechanismGraph


def ref_model_setitem(self, v, rel):
    if isinstance(rel, (DecisionDomain, Sequence)):
        if v not in self.cbn.decisions:
            warn("")
    super(MACIDBase.Model, self).__setitem__(v, rel)


def ref_model_to_tabular(self, v, rel):
    if isinstance(rel, Sequence):
        return DecisionDomain(v, self.cbn, rel)
    return super(MACIDBase.Model, self).to_tabular_cpd(v, rel)


def ref_init(self, edges=None, agent_decisions=None, agent_utilities=None, kwargs=None):
    super(MACIDBase, self).__init__(edges=edges, **kwargs)
    self.agent_decisions = {a: list(ns) for a, ns in (agent_decisions or {}).items()}
    self.agent_utilities = {a: list(ns) for a, ns in (agent_utilities or {}).items()}
    self.decision_agent = {n: a for a, ns in self.agent_decisions.items() for n in ns}
    self.utility_agent = {n: a for a, ns in self.agent_utilities.items() for n in ns}


def ref_decisions(self):
    return self.decision_agent.keys()


def ref_utilities(self):
    return self.utility_agent.keys()


def ref_agents(self):
    return self.agent_utilities.keys()


def ref_make_decision(self, n, agent=0):
    self.make_chance(n)
    if agent in self.agent_decisions:
        self.agent_decisions[agent].append(n)
    else:
        self.agent_decisions[agent] = [n]
    self.decision_agent[n] = agent


def ref_make_utility(self, n, agent=0):
    self.make_chance(n)
    if agent in self.agent_utilities:
        self.agent_utilities[agent].append(n)
    else:
        self.agent_utilities[agent] = [n]
    self.utility_agent[n] = agent


def ref_make_chance(self, n):
    if n not in self.nodes():
        raise KeyError()
    if n in self.decisions:
        owner = self.decision_agent.pop(n)
        self.agent_decisions[owner].remove(n)
    elif n in self.utilities:
        owner = self.utility_agent.pop(n)
        self.agent_utilities[owner].remove(n)


def ref_remove_node(self, n):
    if n in self.nodes():
        self.make_chance(n)
    super(MACIDBase, self).remove_node(n)


def ref_add_cpds(self, cpds, relationships):
    super(MACIDBase, self).add_cpds(*cpds, **relationships)


def ref_query(self, query, context, intervention=None):
    """refused when the outcome is outside the domain, or when the answer depends on a decision without a policy"""
    query = list(query)
    for v in context:
        if context[v] not in self.model.domain[v]:
            raise ValueError()
    intervention = intervention or {}
    mech = MechanismGraph(self)
    for v in intervention:
        for p in self.get_parents(v):
            mech.remove_edge(p, v)
    fixed = [*context.keys(), *intervention.keys()]
    for d in self.decisions:
        for q in query:
            if mech.is_dconnected(d + "mec", q, observed=fixed):
                policy = self.get_cpds(d)
                if not policy or isinstance(policy, DecisionDomain):
                    raise ValueError()
    return super(MACIDBase, self).query(query, context, intervention)


def ref_expected_utility(self, context, intervention=None, agent=0):
    return sum(self.expected_value(self.agent_utilities[agent], context, intervention=intervention))


def ref_pure_decision_rules(self, decision):
    domain = self.model.domain[decision]
    parents = self.get_parents(decision)
    cards = [self.get_cardinality(p) for p in parents]
    contexts = int(np.prod(cards))

    def position(pv):
        out = 0
        for i, p in enumerate(parents):
            numbers = self.get_cpds(p).name_to_no[p]
            out += numbers[pv[p]] * int(np.prod(cards[:i]))
        assert 0 <= out <= contexts
        return out

    for choice in itertools.product(domain, repeat=contexts):

        def rule(fixed=choice):
            return lambda **pv: fixed[position(pv)]

        yield StochasticFunctionCPD(decision, rule(), self, domain=domain)


def ref_pure_policies(self, decisions):
    rules = [self.pure_decision_rules(d) for d in decisions]
    return itertools.product(*rules)


def ref_optimal_pure_policies(self, decisions, rel_tol=1e-09):
    if not decisions:
        return []
    decisions = set(decisions)
    try:
        (owner,) = {self.decision_agent[d] for d in decisions}
    except ValueError:
        raise ValueError()
    m = self.copy()
    for d in m.decisions:
        if d in decisions:
            continue
        if isinstance(m.get_cpds(d), DecisionDomain) and not m.is_s_reachable(decisions, d):
            m.impute_random_decision(d)
    best, value = [], float("-inf")
    for policy in m.pure_policies(decisions):
        m.add_cpds(*policy)
        eu = m.expected_utility({}, agent=owner)
        if math.isclose(eu, value, rel_tol=rel_tol):
            best.append(policy)
        elif eu > value:
            best, value = [policy], eu
    return best


def ref_optimal_pure_decision_rules(self, d):
    return [p[0] for p in self.optimal_pure_policies([d])]


def ref_impute_random_decision(self, d):
    try:
        domain = self.model.domain[d]
    except KeyError:
        raise ValueError()
    self.model[d] = StochasticFunctionCPD(
        d, lambda **pv: {o: 1 / len(domain) for o in domain}, self, domain, label="random_decision"
    )


def ref_impute_fully_mixed(self):
    for d in self.decisions:
        self.impute_random_decision(d)


def ref_remove_all_decision_rules(self):
    for d in self.decisions:
        self.model[d] = self.model.domain[d]


def ref_impute_optimal_decision(self, d):
    """the outcome with the largest expected value of the agent's utilities downstream, in a frozen copy"""
    self.impute_random_decision(d)
    domain = self.model.domain[d]
    mine = self.agent_utilities[self.decision_agent[d]]
    affected = list(set(mine).intersection(nx.descendants(self, d)))
    frozen = self.copy()

    @lru_cache(maxsize=1000)
    def opt_policy(**pv):
        eu = {}
        for o in domain:
            pv[d] = o
            eu[o] = sum(frozen.expected_value(affected, pv))
        return max(eu, key=eu.get)

    self.add_cpds(StochasticFunctionCPD(d, opt_policy, self, domain=domain, label="opt"))


def ref_impute_conditional_expectation(self, d, y):
    frozen = self.copy()

    @lru_cache(maxsize=1000)
    def cond_exp_policy(**pv):
        if y in pv:
            return pv[y]
        return frozen.expected_value([y], pv)[0]

    self.add_cpds(**{d: cond_exp_policy})


def ref_active_trail_nodes(self, variables, observed=None, kwargs=None):
    return super(MACIDBase, self).active_trail_nodes(variables, None if observed is None else list(observed), **kwargs)


def _structure(new, self):
    new.add_nodes_from(self.nodes)
    new.add_edges_from(self.edges)
    new.agent_decisions = {a: [] for a in self.agent_decisions}
    new.agent_utilities = {a: [] for a in self.agent_utilities}
    for a, ds in self.agent_decisions.items():
        for d in ds:
            new.make_decision(d, a)
    for a, us in self.agent_utilities.items():
        for u in us:
            new.make_utility(u, a)
    return new


def ref_macidbase_copy(self):
    return _structure(MACIDBase(), self)


def ref_cid_copy(self):
    return _structure(CID(), self)


def ref_macid_copy(self):
    return _structure(MACID(), self)


def ref_mechanism_graph(self, m):
    super(MechanismGraph, self).__init__(edges=m.edges(), agent_decisions=m.agent_decisions, agent_utilities=m.agent_utilities)
    for n in m.nodes:
        if n[-3:] == "mec":
            raise ValueError()
        self.add_node(n + "mec")
        self.add_edge(n + "mec", n)


# ---- CID


def ref_cid_init(self, edges=None, decisions=None, utilities=None, kwargs=None):
    super(CID, self).__init__(
        edges=edges,
        agent_decisions={0: [] if decisions is None else decisions},
        agent_utilities={0: [] if utilities is None else utilities},
        **kwargs,
    )


def ref_impute_optimal_policy(self):
    import random

    self.impute_random_policy()
    if not self.sufficient_recall():
        self.add_cpds(*random.choice(self.optimal_policies()))
    else:
        for d in reversed(self.get_valid_order(self.decisions)):
            self.impute_optimal_decision(d)


def ref_optimal_policies(self):
    return self.optimal_pure_policies(self.decisions)


def ref_solve(self):
    m = self.copy()
    m.impute_optimal_policy()
    return {d: m.get_cpds(d) for d in m.decisions}
