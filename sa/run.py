"""Runs the obligations of one property and reports."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
from dataclasses import dataclass, field
from typing import Any, Callable, Dict, List, Optional, Tuple

from sa import models
from sa.compare import ERRORS, Timeout, BASELINE, check_entry, prims_in, summarise
from sa.entries import ENTRIES, SPECS
from sa.loader import AnalysisBroken, Program
from sa.prims import Prims
from sa.terms import reset

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES_DIR = os.path.join(HERE, "rules")


@dataclass
class Finding:
    prop: str
    rule: str
    construct: str  # stable key: rule and construct, no line numbers
    where: str
    message: str
    path: List[str] = field(default_factory=list)

    @property
    def key(self) -> str:
        return f"{self.rule}:{self.construct}"


@dataclass
class RuleResult:
    rule: str
    text: str  # the rule in one sentence
    instances: int
    floor: int
    samples: List[str]
    findings: List[Finding]
    functions: List[str] = field(default_factory=list)
    undecided: List[str] = field(default_factory=list)
    skipped: str = ""


RULES: List[Tuple[Tuple[str, ...], Callable[[Program], RuleResult]]] = []


def rule(props: str):
    def deco(f):
        RULES.append((tuple(props.split()), f))
        return f

    return deco


def load_rules() -> None:
    if RULES or not os.path.isdir(RULES_DIR):
        return
    if RULES_DIR not in sys.path:
        sys.path.insert(0, RULES_DIR)
    for n in sorted(os.listdir(RULES_DIR)):
        if n.endswith(".py") and not n.startswith("_"):
            importlib.import_module(n[:-3])


# ---------------------------------------------------------------- reference comparison

_prog: Optional[Program] = None
CAP = {"quick": 200, "thorough": 400}  # seconds of processor time for one entry
DEADLINE = {"quick": 780, "thorough": 3400}  # seconds for a whole check; what is not settled by then is undecided
MEMORY = 3_500_000_000


def _alarm(*_):
    raise Timeout()


def _entry_job(i: int, cap: int) -> Dict[str, Any]:
    e = ENTRIES[i]
    out: Dict[str, Any] = {"i": i, "target": e.target, "label": e.label, "private": e.opts.get("private", False)}
    t0 = time.time()
    reset()
    models.SLOTS.clear()
    models.COMPILED.clear()
    models.POOL.clear()
    models.HINTS.clear()
    models.HINTS.update((f"p{k}", w) for k, w in enumerate(e.opts.get("hint", "").split()) if w != "_")
    try:
        f = _prog.func(e.target)
    except AnalysisBroken as x:
        out.update(status="vanished", what=str(x))
        return out
    ref = _prog.func(e.spec)
    out["where"] = f"{f.module.path}:{f.node.lineno}"
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, cap)
    try:
        res = check_entry(_prog, f, ref, e.kinds, e.opts)
        out.update(
            status=res.status, what=res.what, detail=res.detail, analysed=sorted(res.analysed), sites=res.call_sites,
            prims=sorted(res.refprims),
        )
    except Timeout:
        out.update(status="undecided", what="time limit", detail=f"{cap} s", analysed=[], sites=0, prims=[])
    except ERRORS as x:
        out.update(status="undecided", what="analysis", detail=f"{type(x).__name__}: {x}", analysed=[], sites=0, prims=[])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    out["s"] = round(time.time() - t0, 2)
    return out


def _rule_job(k: int, cap: int):
    props, f = RULES[k]
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, cap)
    try:
        r = f(_prog)
        return ("ok", r)
    except AnalysisBroken as x:
        return ("broken", f"{f.__name__}: {x}")
    except Timeout:
        return ("broken", f"{f.__name__}: time limit")
    except Exception as x:  # noqa
        return ("broken", f"{f.__name__}: {type(x).__name__}: {x}\n{traceback.format_exc()[-1500:]}")
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _job(j):
    kind, k, cap = j
    return kind, k, (_entry_job(k, cap) if kind == "entry" else _rule_job(k, cap))


def _limit_memory() -> None:
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))


def by_name() -> Dict[str, List[int]]:
    out: Dict[str, List[int]] = {}
    for i, e in enumerate(ENTRIES):
        n = e.target.split(":")[1]
        out.setdefault(n.split(".")[-1], []).append(i)
        if n.endswith(".__init__"):
            out.setdefault(n.split(".")[-2], []).append(i)
    return out


def run(prop: str, tier: str) -> Tuple[List[Dict[str, Any]], List[Any]]:
    global _prog
    load_rules()
    _prog = Program(extra=SPECS)
    cap = CAP[tier]
    todo = [("entry", i, cap) for i, e in enumerate(ENTRIES) if prop in e.props]
    todo += [("rule", k, cap * 3) for k, (ps, _) in enumerate(RULES) if prop in ps]
    names = by_name()
    seen = {(k, i) for k, i, _ in todo}
    entries: List[Dict[str, Any]] = []
    rules: List[Any] = []
    n = min(8, max(1, os.cpu_count() or 1))
    end = time.time() + DEADLINE[tier]
    with mp.get_context("fork").Pool(n, initializer=_limit_memory, maxtasksperchild=8) as pool:
        while todo:
            new = []
            results = pool.imap_unordered(_job, todo)
            left = {(kind, k) for kind, k, _ in todo}
            for _ in range(len(todo)):
                try:
                    kind, k, r = results.next(timeout=max(0.1, end - time.time()))
                except mp.TimeoutError:
                    break
                left.discard((kind, k))
                if kind == "rule":
                    rules.append((k, r))
                    continue
                entries.append(r)
                if ENTRIES[k].opts.get("cone", True):
                    for p in r.get("prims", ()):
                        for j in names.get(p, ()):
                            if ("entry", j) not in seen:
                                seen.add(("entry", j))
                                new.append(("entry", j, cap))
            for kind, k in left:
                if kind == "entry":
                    e = ENTRIES[k]
                    entries.append({
                        "i": k, "target": e.target, "label": e.label, "private": e.opts.get("private", False), "status": "undecided",
                        "what": "time limit", "detail": f"{DEADLINE[tier]} s for the whole check", "analysed": [], "sites": 0, "s": 0,
                    })
                else:
                    rules.append((k, ("broken", f"{RULES[k][1].__name__}: time limit")))
            todo = [] if left else new
    entries.sort(key=lambda r: r["i"])
    rules.sort(key=lambda r: r[0])
    return entries, [r for _, r in rules]


# ---------------------------------------------------------------- report


def known() -> Dict[str, List[str]]:
    out: Dict[str, List[str]] = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property="):
                rest = line[len("known: property="):].strip()
                pid, key = rest.split(" ", 1)
                out.setdefault(pid, []).append(key)
    return out


def main(prop: str, tier: str) -> int:
    t0 = time.time()
    broken: List[str] = []
    findings: List[Finding] = []
    try:
        entries, rules = run(prop, tier)
    except AnalysisBroken as x:
        print(f"analysis broken: {x}")
        return 2
    counts = {"same": 0, "different": 0, "undecided": 0, "vanished": 0}
    functions: set = set()
    undecided: List[str] = []
    samples: List[str] = []
    sites = 0
    for r in entries:
        counts[r["status"]] += 1
        functions |= set(r.get("analysed", ()))
        sites += r.get("sites", 0)
        name = r["target"] + (f" ({r['label']})" if r["label"] else "")
        if r["status"] == "vanished":
            if not r["private"]:
                broken.append(r["what"])
            continue
        if r["status"] == "different":
            findings.append(Finding(prop, "agrees-with-reference", name, r["where"], f"{r['what']}: {r['detail']}"))
        elif r["status"] == "undecided":
            undecided.append(f"{name}: {r['what']}: {r['detail'][:160]}")
        samples.append(f"{name}: {r['status']}")
    rule_cov = []
    for st, r in rules:
        if st == "broken":
            broken.append(r)
            continue
        functions |= set(r.functions)
        if r.instances < r.floor:
            broken.append(f"rule {r.rule}: {r.instances} instances, expected at least {r.floor}")
        for f in r.findings:
            if f.prop in (prop, "*"):
                f.prop = prop
                findings.append(f)
        undecided += [f"{r.rule}: {u}" for u in r.undecided]
        rule_cov.append({"rule": r.rule, "text": r.text, "instances": r.instances, "floor": r.floor, "samples": r.samples[:6]})
    kn = known().get(prop, [])
    new = []
    for f in findings:
        if f.key in kn:
            print(f"KNOWN-FINDING: property={prop} {f.key} {f.message[:200]}")
        else:
            new.append(f)
    ev_dir = os.path.join(HERE, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    replay = os.path.join(ev_dir, f"{prop}.report.txt")
    with open(replay, "w") as fh:
        for f in new:
            fh.write(f"{f.where}: [{f.rule}] {f.construct}\n  {f.message}\n" + "".join(f"    {p}\n" for p in f.path) + "\n")
        for u in undecided:
            fh.write(f"undecided: {u}\n")
        for b in broken:
            fh.write(f"broken: {b}\n")
    obligations = sum(counts.values()) + sum(c["instances"] for c in rule_cov)
    expl = (
        f"Static: {counts['same'] + counts['different'] + counts['undecided']} functions were summarised by abstract interpretation "
        f"of their source and compared with the summary of a reference definition ({counts['same']} equal, "
        f"{counts['different']} different, {counts['undecided']} not decided); {len(rule_cov)} dedicated rules were applied to "
        f"{sum(c['instances'] for c in rule_cov)} constructs."
    )
    evidence = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": expl, "obligations": obligations,
            "discharged": obligations - len(new) - len(undecided) - counts["vanished"],
            "functions_analysed": len(functions), "functions": sorted(functions), "call_sites": sites,
            "compared": dict(counts), "rules": rule_cov, "undecided": undecided, "samples": samples[:12] or [c["rule"] for c in rule_cov],
        },
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(ev_dir, f"{prop}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1)
    for f in new:
        print(f"{f.where}: [{f.rule}] {f.construct}")
        print("  " + f.message[:3000].replace("\n", "\n  "))
        for p in f.path[:20]:
            print("    " + p)
    for u in undecided:
        print("undecided:", u[:300])
    print(expl)
    if new:
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if broken:
        for b in broken:
            print("analysis broken:", b)
        return 2
    return 0
