"""Reference definitions: conditional probability distributions given by functions."""
import inspect
import itertools
from collections.abc import Mapping

import numpy as np
from pgmpy.factors.discrete import TabularCPD

from pycid.core.cpd import ConstantCPD, DecisionDomain, ParentsNotReadyException, StochasticFunctionCPD


def ref_init(self, variable, func, cbn, domain=None, state_names=None, label=None):
    self.variable = variable
    self.func = func
    self.cbn = cbn
    if state_names is not None and domain is not None:
        assert state_names[variable] == domain
    assert isinstance(domain, (list, type(None)))
    self.force_domain = domain
    assert isinstance(label, (str, type(None)))
    self.label = self.compute_label(func) if label is None else label
    self.check_function_arguments_match_parent_names()
    if self.force_domain:
        if not set(self.possible_values()).issubset(self.force_domain):
            raise ValueError()
    self.domain = self.force_domain if self.force_domain else self.possible_values()

    def complete(dist):
        dist = {k: v for k, v in dist.items() if v is not None}
        missing = set(self.domain) - set(dist.keys())
        mass = 1 - sum(dist.values())
        for o in missing:
            dist[o] = mass / len(missing)
        return dist

    evidence = cbn.get_parents(variable)
    rows = []
    for pv in self.parent_values():
        probs = complete(self.stochastic_function(**pv))
        rows.append([probs[o] for o in self.domain])
    table = np.array(rows).T
    if not np.allclose(table.sum(axis=0), 1, rtol=0, atol=0.01):
        raise ValueError()
    if (table < 0).any() or (table > 1).any():
        raise ValueError()
    super(StochasticFunctionCPD, self).__init__(
        variable,
        len(self.domain),
        table,
        evidence,
        [cbn.get_cardinality(p) for p in evidence],
        state_names={variable: self.domain} if state_names is None else state_names,
    )


def ref_stochastic_function(self, pv):
    out = self.func(**pv)
    if isinstance(out, Mapping):
        return out
    return {out: 1}


def ref_check_arguments(self):
    sig = inspect.signature(self.stochastic_function).parameters
    if "VAR_KEYWORD" in [p.kind.name for p in sig.values()]:
        return
    if set(sig) != set(self.cbn.get_parents(self.variable)):
        raise ValueError()


def ref_parent_values(self):
    lists = []
    try:
        for p in self.cbn.get_parents(self.variable):
            lists.append(self.cbn.model.domain[p])
    except KeyError:
        raise ParentsNotReadyException()
    for values in itertools.product(*lists):
        yield {p: values[i] for i, p in enumerate(self.cbn.get_parents(self.variable))}


def ref_possible_values(self):
    return sorted(set().union(*[self.stochastic_function(**pv).keys() for pv in self.parent_values()]))


def ref_copy(self):
    domain = None
    if self.force_domain:
        domain = list(self.force_domain)
    return StochasticFunctionCPD(str(self.variable), self.func, self.cbn, domain=domain, state_names=self.state_names)


def ref_constant_init(self, variable, dictionary, cbn, domain=None, label=None):
    super(ConstantCPD, self).__init__(variable, lambda **pv: dictionary, cbn, domain=domain, label=label or str(dictionary))


def ref_domain_init(self, variable, cbn, domain):
    super(DecisionDomain, self).__init__(variable, {}, cbn, domain, label=f"Dec({domain})")


def ref_domain_copy(self):
    return DecisionDomain(str(self.variable), self.cbn, domain=list(self.domain))


def ref_bernoulli(p):
    return {0: 1 - p, 1: p}


def ref_discrete_uniform(domain):
    return {o: 1 / len(domain) for o in domain}


def ref_noisy_copy(value, probability=0.9, domain=None):
    dist = dict.fromkeys(domain) if domain else {}
    dist[value] = probability
    return dist
