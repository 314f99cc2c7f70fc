"""Reference definitions: subgames, equilibria and the export to extensive-form games."""
import copy
import itertools
from collections import defaultdict
from functools import partial, update_wrapper
from warnings import warn

import networkx as nx
import pygambit

from pycid.core.cpd import DecisionDomain, StochasticFunctionCPD
from pycid.core.macid import MACID
from pycid.core.relevance_graph import CondensedRelevanceGraph
from pycid.export.gambit import behavior_to_cpd, macid_to_efg, pygambit_ne_solver


def ref_get_ne(self, solver=None):
    return self.get_ne_in_sg(solver=solver)


def ref_create_subgame(self, decs):
    decs = list(decs)
    relevant = [n for n in self.nodes if self.is_r_reachable(decs, n)]
    core = {*relevant, *decs}
    edges = [e for e in self.edges if e[1] in core]
    by_agent = {}
    for d in decs:
        a = self.decision_agent[d]
        if a in by_agent:
            by_agent[a].append(d)
        else:
            by_agent[a] = [d]
    utils = {a: [] for a in by_agent}
    for u in set(relevant).intersection(set(self.utilities)):
        a = self.utility_agent[u]
        if a in utils:
            utils[a].append(u)
        else:
            utils[a] = [u]
    sub = MACID(edges=edges, agent_decisions=by_agent, agent_utilities=utils)
    m = self.copy()
    for d in m.decisions:
        if isinstance(m.get_cpds(d), DecisionDomain):
            if not m.is_s_reachable(decs, d):
                m.impute_random_decision(d)
    outer = set(sub.nodes) - core
    for n in outer:
        cpd = m.get_cpds(n)
        cpd.marginalize(m.get_parents(n))
        probs = [p for row in cpd.get_values() for p in row]
        sub.model[n] = dict(zip(cpd.domain, probs))
    for n in set(sub.nodes) - outer:
        sub.model[n] = m.get_cpds(n)
    return sub


def ref_get_ne_in_sg(self, decs=None, solver=None):
    decs = self.decisions if decs is None else set(decs)
    agents = list({self.decision_agent[d] for d in decs})
    sub = self.create_subgame(decs)
    game, infosets = macid_to_efg(sub, decs, agents)
    profiles = pygambit_ne_solver(game, solver_override=solver)
    return [behavior_to_cpd(sub, infosets, p, decs) for p in profiles]


def ref_get_spe(self, solver=None):
    profiles = [[]]
    m = self.copy()
    order = CondensedRelevanceGraph(m).get_scc_topological_ordering()
    for scc in reversed(order):
        longer = []
        for done in profiles:
            m.add_cpds(*done)
            for ne in m.get_ne_in_sg(decisions_in_sg=scc, solver=solver):
                longer.append(done + list(ne))
        profiles = longer
    return profiles


def ref_decs_in_each_subgame(self):
    con = CondensedRelevanceGraph(self)
    sccs = con.nodes
    subsets = list(itertools.chain.from_iterable(itertools.combinations(sccs, r) for r in range(1, len(sccs) + 1)))
    closed = copy.deepcopy(subsets)
    for s in subsets:
        for n in s:
            if s in closed and not nx.descendants(con, n).issubset(s):
                closed.remove(s)
    return [set(itertools.chain.from_iterable([con.get_decisions_in_scc()[c] for c in s])) for s in closed]


def ref_joint_pure_policies(self, decs):
    return list(itertools.product(*[self.pure_decision_rules(d) for d in decs]))


def ref_policy_profile_assignment(self, policy):
    out = {d: None for d in self.decisions}
    for cpd in policy:
        out[cpd.variable] = cpd
    return out


# ---- extensive-form games


def at(game, idx):
    cur = game.root
    if len(idx) == 1:
        return cur
    for k in idx[1:]:
        cur = cur.children[k]
    return cur


def ref_macid_to_efg(m, decs=None, agents=None):
    if decs is None:
        decs = m.decisions
    if agents is None:
        agents = m.agents
    agents = list(agents)
    wanted = set(list(decs) + [p for d in decs for p in m.get_parents(d)])
    order = m.get_valid_order(wanted)
    game = pygambit.Game.new_tree()
    players = {}
    for a in agents:
        players[a] = game.players.add(a)
    infosets = defaultdict(dict)
    states = defaultdict(dict)
    sizes = [1] + [len(m.model.domain[n]) for n in order]
    ranges = [list(range(k)) for k in sizes]
    for i, node in enumerate(order, start=1):
        for idx in itertools.product(*ranges[:i]):
            cur = at(game, idx)
            parents = m.get_parents(node)
            state = states[idx]
            if node in decs:
                seen = {p: state[p] for p in parents}
                player = players[m.decision_agent[node]]
                actions = m.model.domain[node]
                key = (node, tuple(seen.items()))
                if key in infosets:
                    infoset = infosets[key]
                    cur.append_move(infoset)
                else:
                    infoset = cur.append_move(player, len(actions))
                    infoset.label = node
                    infosets[key] = infoset
                for j, action in enumerate(actions):
                    infoset.actions[j].label = str(action)
                    after = states[idx].copy()
                    after.update({node: action})
                    states[idx + (j,)] = after
            else:
                known = all(p in state for p in parents)
                factor = m.query([node], context={p: state[p] for p in parents} if known else state)
                move = cur.append_move(game.players.chance, factor.cardinality)
                actions = m.model.domain[node]
                for j, prob in enumerate(factor.values):
                    move.actions[j].label = str(actions[j])
                    move.actions[j].prob = pygambit.Decimal(prob)
                    after = states[idx].copy()
                    after.update({node: actions[j]})
                    states[idx + (j,)] = after
    for idx in itertools.product(*ranges):
        cur = at(game, idx)
        context = states[idx]
        outcome = game.outcomes.add(str(idx))
        for i, a in enumerate(agents):
            outcome[i] = pygambit.Decimal(m.expected_utility(context=context, agent=a))
        cur.outcome = outcome
    return game, infosets


def ref_gambit_file(m, filename='macid.efg'):
    game, _ = macid_to_efg(m)
    with open(filename, "w") as f:
        f.write(game.write())
    return True


def ref_ne_solver(game, override=None):
    two = len(game.players) == 2
    if override is None:
        solver = "enummixed" if two else "enumpure"
    elif not two and override in ["enummixed", "lcp", "lp"]:
        warn("")
        solver = "enumpure"
    else:
        solver = override
    if solver == "enummixed":
        found = pygambit.nash.enummixed_solve(game, rational=False)
    elif solver == "enumpure":
        found = pygambit.nash.enumpure_solve(game)
        if override is None and len(found) == 0:
            warn("")
            found = pygambit.nash.simpdiv_solve(game)
    elif solver == "lcp":
        found = pygambit.nash.lcp_solve(game, rational=False)
    elif solver == "lp":
        found = pygambit.nash.lp_solve(game, rational=False)
    elif solver == "simpdiv":
        found = pygambit.nash.simpdiv_solve(game)
    elif solver == "ipa":
        found = pygambit.nash.ipa_solve(game)
    elif solver == "gnm":
        found = pygambit.nash.gnm_solve(game)
    else:
        raise ValueError()
    return [x if solver in ["lp", "lcp"] else x.as_behavior() for x in found]


def ref_behavior_to_cpd(m, infosets, behavior, decs=None):
    def _action_prob_given_parents(node, **pv):
        infoset = infosets[(node, tuple(pv.items()))]
        if not infoset:
            return {}
        return {m.model.domain[node][i]: float(p) for i, p in enumerate(behavior[infoset])}

    if decs is None:
        decs = m.decisions
    out = []
    for d in decs:
        func = partial(_action_prob_given_parents, d)
        update_wrapper(func, _action_prob_given_parents)
        out.append(StochasticFunctionCPD(variable=d, stochastic_function=func, cbn=m, domain=m.model.domain[d]))
    return out
