"""Reference definitions of path activity and motifs."""
import networkx as nx

from pycid.core.get_paths import (
    directed_decision_free_path,
    find_active_path,
    find_all_dir_paths,
    find_all_undir_paths,
    get_motif,
    get_motifs,
    is_active_path,
)


def _known(g, names):
    for n in names:
        if n not in g.nodes:
            raise KeyError()


def ref_get_motif(g, path, i):
    """the shape of the path around its i-th node"""
    for n in path:
        if n not in g.nodes:
            raise KeyError()
    last = len(path) - 1
    if i > last:
        raise IndexError()
    if i == last:
        return "endpoint"
    if i == 0:
        if g.has_edge(path[0], path[1]):
            return "forward"
        if g.has_edge(path[1], path[0]):
            return "backward"
    into = g.has_edge(path[i - 1], path[i])
    out = g.has_edge(path[i], path[i + 1])
    back_into = g.has_edge(path[i], path[i - 1])
    back_out = g.has_edge(path[i + 1], path[i])
    if into and out:
        return "forward"
    if back_into and back_out:
        return "backward"
    if into and back_out:
        return "collider"
    if back_into and out:
        return "fork"
    raise RuntimeError()


def ref_get_motifs(g, path):
    for n in path:
        if n not in g.nodes:
            raise KeyError()
    out = []
    for i in range(len(path)):
        if len(path) > 1 and i == 0:
            if g.has_edge(path[i], path[i + 1]):
                out.append("forward")
            else:
                out.append("backward")
        else:
            out.append(get_motif(g, path, i))
    return out


def ref_path_edges(g, path):
    out = []
    for i in range(len(path) - 1):
        if g.has_edge(path[i], path[i + 1]):
            out.append((path[i], path[i + 1]))
        elif g.has_edge(path[i + 1], path[i]):
            out.append((path[i + 1], path[i]))
    return out


def ref_is_active_path(g, path, observed=None):
    """no chain or fork node is observed, and every collider has an observed descendant (or is observed)"""
    seen = set() if observed is None else observed
    for n in path:
        if n not in g.nodes:
            raise KeyError()
    for n in seen:
        if n not in g.nodes:
            raise KeyError()
    if len(path) < 3:
        return True
    for n in path[1:-1]:
        shape = get_motif(g, path, path.index(n))
        if n in seen and (shape == "fork" or shape == "forward" or shape == "backward"):
            return False
        if shape == "collider" and n not in seen and not any(m in seen for m in nx.descendants(g, n)):
            return False
    return True


def ref_frontdoor(g, a, b, observed=None):
    seen = set() if observed is None else observed
    for n in [a, b]:
        if n not in g.nodes:
            raise KeyError()
    for n in seen:
        if n not in g.nodes:
            raise KeyError()
    return any(
        len(p) > 1 and g.has_edge(p[0], p[1]) and "collider" in get_motifs(g, p) and is_active_path(g, p, seen)
        for p in find_all_undir_paths(g, a, b)
    )


def ref_backdoor(g, a, b, observed=None):
    seen = set() if observed is None else observed
    for n in [a, b]:
        if n not in g.nodes:
            raise KeyError()
    for n in seen:
        if n not in g.nodes:
            raise KeyError()
    return any(
        len(p) > 1 and g.has_edge(p[1], p[0]) and is_active_path(g, p, seen) for p in find_all_undir_paths(g, a, b)
    )


def ref_decision_free(g, a, b):
    for n in [a, b]:
        if n not in g.nodes:
            raise KeyError()
    for p in find_all_dir_paths(g, a, b):
        if not any(n in g.decisions for n in p[1:-1]):
            return True
    return False


def ref_active_neighbours(g, path, observed):
    """the nodes an active path can be extended with"""
    end = path[-1]
    arrived_forward = len(path) > 1 and g.has_edge(path[-2], end)
    opened = any(end == o or o in nx.descendants(g, end) for o in observed)
    out = set()
    for n in g.nodes:
        if n in path:
            continue
        if g.has_edge(n, end) and n not in observed and (opened or not arrived_forward):
            out.add(n)
        if g.has_edge(end, n) and end not in observed:
            out.add(n)
    return out


def ref_find_active_path(g, a, b, observed=set()):
    for n in [a, b]:
        if n not in g.nodes:
            raise KeyError()
    for n in observed:
        if n not in g.nodes:
            raise KeyError()
    if b in observed:
        raise ValueError()
    try:
        return next(ref_dfs(a, b, lambda path: ref_active_neighbours(g, path, observed)))
    except StopIteration:
        raise ValueError()


def ref_find_all_dir_paths(g, a, b):
    for n in [a, b]:
        if n not in g.nodes:
            raise KeyError()
    return ref_dfs(a, b, lambda path: g.get_children(path[-1]))


def ref_find_all_undir_paths(g, a, b):
    for n in [a, b]:
        if n not in g.nodes:
            raise KeyError()
    return ref_dfs(
        a, b, lambda path: {n for n in g.nodes if (g.has_edge(path[-1], n) or g.has_edge(n, path[-1])) and n not in path}
    )


def ref_dfs(start, end, successors):
    if start == end:
        yield [start]
        return
    path = [start]
    stack = [iter(successors(path))]
    while stack:
        try:
            nxt = next(stack[-1])
        except StopIteration:
            path.pop()
            stack.pop()
            continue
        if nxt == end:
            yield path + [nxt]
            continue
        path.append(nxt)
        stack.append(iter(successors(path)))
