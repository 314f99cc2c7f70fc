"""Reference definitions of the reasoning patterns (Pfeffer and Gal, 2007)."""
import networkx as nx

from pycid.analyze.reasoning_patterns import direct_effect, manipulation, revealing_or_denying, signaling
from pycid.core.get_paths import (
    directed_decision_free_path,
    find_all_dir_paths,
    find_all_undir_paths,
    get_motif,
    get_motifs,
    is_active_path,
)


def _effective(m, path, eff):
    for i, n in enumerate(path):
        if i > 0 and n in m.decisions and n not in eff and get_motif(m, path, i) != "fork":
            return False
    return True


def ref_path_is_effective(m, path, eff):
    return _effective(m, path, eff)


def ref_direct_effect(m, d):
    return any(directed_decision_free_path(m, d, u) for u in m.agent_utilities[m.decision_agent[d]])


def _responders(m, d, eff):
    return [b for b in m.decisions if b != d and b in eff and directed_decision_free_path(m, d, b)]


def ref_manipulation(m, d, eff):
    for n in eff:
        if n not in m.nodes:
            raise KeyError()
    own = m.agent_utilities[m.decision_agent[d]]
    for b in _responders(m, d, eff):
        other = m.agent_utilities[m.decision_agent[b]]
        helps = any(_effective(m, p, eff) for u in own for p in find_all_dir_paths(m, b, u))
        moves = any(b not in p and _effective(m, p, eff) for v in other for p in find_all_dir_paths(m, d, v))
        if helps and moves:
            return True
    return False


def _given(m, b, d):
    """b and the observations of b that d does not influence"""
    return {b} | {p for p in m.get_parents(b) if p not in nx.descendants(m, d)}


def ref_revealing_or_denying(m, d, eff):
    for n in eff:
        if n not in m.nodes:
            raise KeyError()
    own = m.agent_utilities[m.decision_agent[d]]
    for b in _responders(m, d, eff):
        if not any(_effective(m, p, eff) for u in own for p in find_all_dir_paths(m, b, u)):
            continue
        for v in m.agent_utilities[m.decision_agent[b]]:
            for p in find_all_undir_paths(m, d, v):
                if (
                    m.has_edge(p[0], p[1])
                    and "collider" in get_motifs(m, p)
                    and is_active_path(m, p, _given(m, b, d))
                    and _effective(m, p, eff)
                ):
                    return True
    return False


def _key_node(m, path):
    for n in path[1:-1]:
        if get_motif(m, path, path.index(n)) == "fork":
            return n
    raise ValueError()


def ref_key_node(m, path):
    for i in range(1, len(path) - 1):
        if get_motif(m, path, i) == "fork":
            return path[i]
    raise ValueError()


def ref_key_node2(m, path):
    return _key_node(m, path)


def ref_signaling(m, d, eff):
    for n in eff:
        if n not in m.nodes:
            raise KeyError()
    own = m.agent_utilities[m.decision_agent[d]]
    for b in _responders(m, d, eff):
        for u in own:
            if not any(_effective(m, p, eff) for p in find_all_dir_paths(m, b, u)):
                continue
            for v in m.agent_utilities[m.decision_agent[b]]:
                for p in find_all_undir_paths(m, d, v):
                    if not (m.has_edge(p[1], p[0]) and is_active_path(m, p, _given(m, b, d)) and _effective(m, p, eff)):
                        continue
                    try:
                        key = _key_node(m, p)
                    except ValueError:
                        continue
                    if any(
                        is_active_path(m, q, _given(m, d, key)) and _effective(m, q, eff)
                        for q in find_all_undir_paths(m, key, u)
                    ):
                        return True
    return False


def ref_get_reasoning_patterns(m):
    out = {"dir_effect": [], "sig": [], "manip": [], "rev_den": []}
    eff = set(m.decisions)
    while True:
        kept = {
            d
            for d in eff
            if direct_effect(m, d) or manipulation(m, d, eff) or signaling(m, d, eff) or revealing_or_denying(m, d, eff)
        }
        if len(kept) == len(eff):
            break
        eff = kept
    for d in eff:
        if direct_effect(m, d):
            out["dir_effect"].append(d)
        elif signaling(m, d, eff):
            out["sig"].append(d)
        elif manipulation(m, d, eff):
            out["manip"].append(d)
        elif revealing_or_denying(m, d, eff):
            out["rev_den"].append(d)
    return out
