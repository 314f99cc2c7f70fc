"""Reference definitions for the graphical criteria (written from the papers cited in the docstrings, not from the code).
They are only ever read by the analyser, never run."""
import networkx as nx

from pycid.analyze.requisite_graph import requisite, requisite_graph, requisite_list
from pycid.analyze.value_of_control import admits_dir_voc, admits_indir_voc, admits_voc
from pycid.analyze.value_of_information import admits_voi
from pycid.analyze.response_incentive import admits_ri
from pycid.analyze.instrumental_control_incentive import admits_ici
from pycid.analyze.effects import total_effect
from pycid.core.get_paths import find_all_dir_paths, is_active_backdoor_trail


def _is_dec(m, x):
    return x in m.decisions


def ref_requisite(m, d, x):
    """X in Pa(D), X d-connected to a utility of D's agent that D can affect, given Fa(D) minus X"""
    if not m.has_edge(x, d):
        raise KeyError()
    owner = m.decision_agent[d]
    cond = {n for n in [d] + m.get_parents(d) if n != x}
    for u in m.agent_utilities[owner]:
        if u in nx.descendants(m, d) and m.is_dconnected(x, u, cond):
            return True
    return False


def ref_requisite_list(m, d):
    out = []
    for p in m.get_parents(d):
        if requisite(m, d, p):
            out.append(p)
    return out


def ref_requisite_graph(m):
    g = m.copy()
    for d in reversed(m.get_valid_order()):
        for p in [p for p in m.get_parents(d) if p not in requisite_list(g, d)]:
            g.remove_edge(p, d)
    return g


def _single(m):
    if len(m.agents) > 1:
        raise ValueError()


def _node(m, x):
    if x not in m.nodes:
        raise KeyError()


def _recall(m):
    if not m.sufficient_recall():
        raise ValueError()


def ref_admits_voi(m, d, x):
    _single(m)
    _node(m, x)
    _node(m, d)
    _recall(m)
    if x == d or x in nx.descendants(m, d):
        return False
    g = m.copy_without_cpds()
    g.add_edge(x, d)
    return requisite_graph(g).has_edge(x, d)


def ref_admits_ri(m, d, x):
    _single(m)
    _node(m, x)
    _node(m, d)
    _recall(m)
    return x != d and d in nx.descendants(requisite_graph(m), x)


def ref_admits_ici(m, d, x):
    _single(m)
    _node(m, x)
    _node(m, d)
    for u in m.utilities:
        for p in find_all_dir_paths(m, d, u):
            if x in p:
                return True
    return False


def ref_admits_voc(m, x):
    _single(m)
    _node(m, x)
    _recall(m)
    if x in m.decisions:
        return False
    g = requisite_graph(m)
    return any(x == u or u in nx.descendants(g, x) for u in m.utilities)


def ref_admits_dir_voc(m, x):
    _single(m)
    _node(m, x)
    if not admits_voc(m, x):
        return False
    g = requisite_graph(m)
    for u in m.utilities:
        for p in find_all_dir_paths(g, x, u):
            if all(n not in m.decisions for n in p):
                return True
    return False


def ref_admits_indir_voc(m, d, x):
    _single(m)
    _node(m, x)
    _node(m, d)
    _recall(m)
    if not admits_voc(m, x):
        return False
    g = requisite_graph(m)
    fam = {n for n in [d] + m.get_parents(d) if n != x}
    for u in m.utilities:
        if (u == x or u in nx.descendants(g, x)) and is_active_backdoor_trail(g, x, u, fam):
            for p in find_all_dir_paths(g, x, u):
                if d in p:
                    return True
    return False


def ref_admits_voi_list(m, d):
    return [x for x in m.nodes if x != d and x not in nx.descendants(m, d) and admits_voi(m, d, x)]


def ref_admits_voc_list(m):
    return [x for x in m.nodes if admits_voc(m, x)]


def ref_admits_dir_voc_list(m):
    return [x for x in m.nodes if admits_dir_voc(m, x)]


def ref_admits_indir_voc_list(m, d):
    return [x for x in m.nodes if admits_indir_voc(m, d, x)]


def ref_admits_ri_list(m, d):
    return [x for x in m.nodes if admits_ri(m, d, x)]


def ref_admits_ici_list(m, d):
    return [x for x in m.nodes if admits_ici(m, d, x)]


def ref_quantitative_voi(m, d, x):
    if x not in m.nodes:
        raise KeyError()
    if x == d or x in nx.descendants(m, d):
        raise ValueError()
    g = m.copy()
    g.add_edge(x, d)
    g.impute_optimal_policy()
    informed = g.expected_utility({})
    g.remove_all_decision_rules()
    g.remove_edge(x, d)
    g.impute_optimal_policy()
    return informed - g.expected_utility({})


def ref_quantitative_voc(m, x):
    if x not in m.nodes:
        raise KeyError()
    g = m.copy()
    g.impute_optimal_policy()
    base = g.expected_utility({})
    g.make_decision(x)
    g.impute_optimal_policy()
    return g.expected_utility({}) - base


def ref_total_effect(m, a, x, a0=0, a1=1):
    hi = m.expected_value([x], {}, intervention={a: a1})
    lo = m.expected_value([x], {}, intervention={a: a0})
    return hi[0] - lo[0]


def ref_introduced_total_effect(m, a, d, y, a0=0, a1=1, adapt=True):
    on_d = total_effect(m, a, d, a0, a1)
    on_y = total_effect(m, a, y, a0, a1)
    if adapt and on_y < 0:
        return -on_d - -on_y
    return on_d - on_y
