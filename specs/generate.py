"""Reference definitions: random generation."""
import contextlib
import random
import zlib

import networkx as nx
import numpy as np
from pgmpy.base import DAG
from pgmpy.base.DAG import DAG as DAG2

from pycid.core.cid import CID
from pycid.core.get_paths import find_active_path, get_motif
from pycid.core.macid import MACID
from pycid.core.macid_base import MACIDBase, MechanismGraph
from pycid.random.random_cid import random_cid
from pycid.random.random_cpd import RandomCPD, temp_seed
from pycid.random.random_dag import add_random_edge, random_dag
from pycid.random.random_macid import random_macid
from pycid.random.random_macidbase import _add_sufficient_recalls, add_random_cpds, random_macidbase


@contextlib.contextmanager
def ref_temp_seed(seed):
    state = np.random.get_state()
    np.random.seed(seed)
    try:
        yield
    finally:
        np.random.set_state(state)


def ref_cpd_init(self, domain=None, smoothness=1.0, seed=None):
    self.seed = np.random.randint(0, 10000) if seed is None else seed
    self.smoothness = smoothness
    self.domain = domain or [0, 1]


def ref_cpd_call(self, pv):
    context = zlib.crc32(repr(sorted(pv.items())).encode())
    with temp_seed((self.seed + context) % 2**32):
        probs = np.random.dirichlet(np.ones(len(self.domain)) * self.smoothness, size=1).flat
    return {self.domain[i]: p for i, p in enumerate(probs)}


def ref_add_random_edge(dag, order, max_in_degree=4):
    a, b = random.sample(order, 2)
    if order.index(a) < order.index(b) and dag.in_degree(b) < max_in_degree:
        dag.add_edge(a, b)
    elif order.index(b) < order.index(a) and dag.in_degree(a) < max_in_degree:
        dag.add_edge(b, a)


def ref_random_dag(n=5, density=0.4, max_in_degree=4):
    names = [f"X{i}" for i in range(n)]
    dag = DAG()
    seen = list()
    rest = list(names)
    node = random.choice(rest)
    rest.remove(node)
    seen.append(node)
    dag.add_node(node)
    while rest:
        node = random.choice(rest)
        other = random.choice(seen)
        if names.index(node) < names.index(other) and dag.in_degree(other) < max_in_degree:
            dag.add_edge(node, other)
        elif names.index(other) < names.index(node):
            dag.add_edge(other, node)
        else:
            continue
        rest.remove(node)
        seen.append(node)
    most = n * (n - 1) / 2
    possible = sum(min(i, max_in_degree) for i in range(n))
    while dag.number_of_edges() < min(int(density * most), possible):
        add_random_edge(dag, names, max_in_degree)
    return dag


def ref_random_cid(n=8, decs=1, utils=1, add_cpds=True, sufficient_recall=False, density=0.4, max_in_degree=4, attempts=1000):
    mb = random_macidbase(
        number_of_nodes=n,
        agent_decisions_num=(decs,),
        agent_utilities_num=(utils,),
        add_cpds=False,
        sufficient_recall=sufficient_recall,
        edge_density=density,
        max_in_degree=max_in_degree,
        max_resampling_attempts=attempts,
    )
    dec_names = {old: "D" + str(i) for i, old in enumerate(mb.decisions)}
    util_names = {old: "U" + str(i) for i, old in enumerate(mb.utilities)}
    dag = nx.relabel_nodes(DAG2(mb.edges), {**dec_names, **util_names})
    cid = CID(dag.edges, decisions=list(dec_names.values()), utilities=list(util_names.values()))
    if add_cpds:
        add_random_cpds(cid)
    return cid


def ref_random_macid(n=10, decs=(1, 2), utils=(2, 1), add_cpds=False, sufficient_recall=False, density=0.4, max_in_degree=4, attempts=5000):
    mb = random_macidbase(
        number_of_nodes=n,
        agent_decisions_num=decs,
        agent_utilities_num=utils,
        add_cpds=False,
        sufficient_recall=sufficient_recall,
        edge_density=density,
        max_in_degree=max_in_degree,
        max_resampling_attempts=attempts,
    )
    macid = MACID(mb.edges, agent_decisions=mb.agent_decisions, agent_utilities=mb.agent_utilities)
    if add_cpds:
        add_random_cpds(macid)
    return macid


def ref_random_cids(nodes=(10, 15), decs=(2, 4), utils=(2, 4), add_cpds=True, sufficient_recall=True, density=0.4, n=10):
    out = []
    while len(out) < n:
        a = random.randint(*nodes)
        b = random.randint(*decs)
        c = random.randint(*utils)
        cid = random_cid(
            number_of_nodes=a,
            number_of_decisions=b,
            number_of_utilities=c,
            add_cpds=add_cpds,
            sufficient_recall=sufficient_recall,
            edge_density=density,
        )
        if cid.sufficient_recall():
            out.append(cid)
    return out


def ref_random_macids(nodes=(13, 17), decs=(1, 3), utils=(1, 3), add_cpds=True, sufficient_recall=False, density=0.4, n=10):
    out = []
    while len(out) < n:
        a = random.randint(*nodes)
        k = random.randint(1, 3)
        b = tuple(random.choices(range(*decs), k=k))
        c = tuple(random.choices(range(*utils), k=k))
        macid = random_macid(
            number_of_nodes=a,
            agent_decisions_num=b,
            agent_utilities_num=c,
            add_cpds=add_cpds,
            sufficient_recall=sufficient_recall,
            edge_density=density,
        )
        if macid.sufficient_recall():
            out.append(macid)
    return out


def ref_add_random_cpds(m):
    out = {}
    for n in m.nodes:
        if n in m.decisions:
            out[n] = [0, 1]
        else:
            out[n] = RandomCPD()
    m.add_cpds(**out)


def ref_check_max_in_degree(m, bound):
    for n in m.nodes:
        if m.in_degree(n) > bound:
            return False
    return True


def ref_add_sufficient_recall(m, d1, d2, u):
    if d2 in m._get_ancestors_of(d1):
        raise ValueError()
    mg = MechanismGraph(m)
    while mg.is_dconnected(d1 + "mec", u, observed=mg.get_parents(d2) + [d2]):
        path = find_active_path(mg, d1 + "mec", u, {d2, *mg.get_parents(d2)})
        if path is None:
            raise RuntimeError()
        while True:
            i = random.randrange(1, len(path) - 1)
            if get_motif(mg, path, i) != "collider" and d2 not in mg._get_ancestors_of(path[i]):
                m.add_edge(path[i], d2)
                mg.add_edge(path[i], d2)
                break


def ref_add_sufficient_recalls(m):
    """every decision recalls what matters to it of the earlier decisions of its agent"""
    for a in m.agents:
        decs = m.agent_decisions[a]
        for u in m.agent_utilities[a]:
            for i, x in enumerate(decs):
                for y in decs[i + 1 :]:
                    if x in m._get_ancestors_of(y):
                        if u in nx.descendants(m, y):
                            ref_add_sufficient_recall(m, x, y, u)
                    elif u in nx.descendants(m, x):
                        ref_add_sufficient_recall(m, y, x, u)


def ref_random_macidbase(n=10, decs=(1, 2), utils=(2, 1), add_cpds=False, sufficient_recall=False, density=0.4, max_in_degree=4, attempts=5000):
    if len(decs) != len(utils):
        raise ValueError()
    for _ in range(attempts):
        dag = random_dag(number_of_nodes=n, edge_density=density, max_in_degree=max_in_degree)
        barren = [x for x in dag.nodes if not list(dag.successors(x))]
        if sum(utils) > len(barren):
            continue
        np.random.shuffle(barren)
        source = iter(barren)
        old = {a: [next(source) for _ in range(k)] for a, k in enumerate(utils)}
        used = set()
        names, dec_names, util_names = {}, {}, {}
        for a in old.keys():
            free = set().union(*[set(dag._get_ancestors_of(u)) for u in old[a]]) - set(old[a]) - used
            if decs[a] > len(free):
                break
            chosen = random.sample(list(free), decs[a])
            used.update(chosen)
            us = {x: "U^" + str(a) + "_" + str(i) for i, x in enumerate(old[a])}
            ds = {x: "D^" + str(a) + "_" + str(i) for i, x in enumerate(chosen)}
            util_names[a] = list(us.values())
            dec_names[a] = list(ds.values())
            names.update(**us, **ds)
        else:
            rest = [x for x in dag.nodes if x not in names.keys()]
            names.update({x: "X_" + str(i) for i, x in enumerate(rest)})
            dag = nx.relabel_nodes(dag, names)
            m = MACIDBase(dag.edges, agent_decisions=dec_names, agent_utilities=util_names)
            if sufficient_recall:
                _add_sufficient_recalls(m)
                if not ref_check_max_in_degree(m, max_in_degree):
                    continue
            if add_cpds:
                add_random_cpds(m)
            return m
        continue
    else:
        raise ValueError()
