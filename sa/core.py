"""Harness shared by every check: obligations, violations, known findings, evidence."""
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback

from . import interp
from .index import REPO, AnalysisBroken, Index

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, prop, tier, ix=None):
        self.prop = prop
        self.tier = tier
        self.ix = ix or Index()
        self.obligations = []
        self.violations = []
        self.counts = {}
        self.rules = []
        self.functions = set()
        self.undecided = []

    def part(self, name, fn, *a):
        """Run one independent part of a rule; what it cannot decide is reported, and does not hide the other parts."""
        try:
            return fn(self, *a)
        except AnalysisBroken as e:
            self.undecided.append({"part": name, "reason": str(e)})
        except TimeoutError:
            raise
        except Exception as e:  # noqa: BLE001 - an analyser failure is reported as undecided, never as a verdict
            self.undecided.append({"part": name, "reason": "analyser failure: " + "".join(traceback.format_exception_only(type(e), e)).strip()
                                   + " @ " + traceback.format_tb(e.__traceback__)[-1].strip().replace("\n", " ")})

    # -- bookkeeping
    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, where, what):
        self.obligations.append((where, what, True))

    def bad(self, key, where, msg, path=None):
        """A violation, identified by `key` (stable: property rule + construct, no line numbers)."""
        self.obligations.append((where, key, False))
        if key not in [v["key"] for v in self.violations]:
            self.violations.append({"key": key, "where": where, "message": msg, "path": path.describe()[:4000] if path is not None else None})

    def check(self, cond, key, where, msg, path=None):
        if cond:
            self.ok(where, key)
        else:
            self.bad(key, where, msg, path)
        return cond

    def need(self, cond, msg):
        if not cond:
            raise AnalysisBroken(msg)

    def paths(self, func, **opts):
        ps = interp.paths_of(self.ix, func, **opts)
        self.functions.add(func.qual)
        for p in ps[:1]:
            self.functions |= p.interp.inlined
        self.count("paths", len(ps))
        return ps


def _alarm(*_):
    raise TimeoutError


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def run_property(prop, tier):
    t0 = time.time()
    meta = json.load(open(os.path.join(VERIF, "sa", "meta.json")))[prop]
    ctx = Ctx(prop, tier)
    mod = importlib.import_module(f"sa.rules.{prop.lower()}")
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(os.environ.get("VERIF_LIMIT_S", "600")))
    try:
        parts = getattr(mod, "PARTS", None)
        if parts is None:
            parts = [("all", mod.run)]
        for name, fn in parts:
            ctx.part(name, fn)
    except TimeoutError:
        ctx.undecided.append({"part": "rest", "reason": "time limit reached"})
    finally:
        signal.alarm(0)
    known = {(k["property"], k["key"]): k for k in load_known() if k["status"] == "known"}
    fresh, listed = [], []
    for v in ctx.violations:
        (listed if (prop, v["key"]) in known else fresh).append(v)
    for v in listed:
        print(f"KNOWN-FINDING: property={prop} {v['key']}: {v['message']} ({v['where']})")
    replay = None
    if fresh:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, f"{prop}.json")
        with open(replay, "w") as f:
            json.dump({"property": prop, "violations": fresh, "repo": REPO}, f, indent=1)
        for v in fresh:
            print(f"  [{v['key']}] {v['where']}: {v['message']}")
            if v["path"]:
                print(f"     path: {v['path'][:1500]}")
        print(f"VIOLATION property={prop} replay={replay}")
    write_evidence(ctx, meta, tier, time.time() - t0, len(fresh), len(listed))
    for u in ctx.undecided:
        print(f"UNDECIDED: property={prop} part={u['part']}: {u['reason']}")
    if not fresh:
        print(f"{prop}: {len(ctx.obligations)} obligations over {len(ctx.functions)} functions, "
              f"{ctx.counts.get('paths', 0)} abstract paths: held ({time.time() - t0:.1f}s)")
    return 1 if fresh else 0


def write_evidence(ctx, meta, tier, wall, nfresh, nlisted):
    good = sum(1 for o in ctx.obligations if o[2])
    cov = {
        "rules": ctx.rules,
        "functions_analysed": len(ctx.functions),
        "function_list": sorted(ctx.functions)[:400],
        "modules_consulted": sorted(ctx.ix.consulted),
        "abstract_paths": ctx.counts.get("paths", 0),
        "obligations": len(ctx.obligations),
        "discharged": good,
        "violations": nfresh,
        "known_findings": nlisted,
        "undecided": ctx.undecided,
        "counts": ctx.counts,
        "sites": sorted({f"{w} :: {k}" for w, k, _ in ctx.obligations})[:300],
        "checker_cmd": f"python3 /verif/check.py {ctx.prop}",
        "trusted_base": ["CPython ast parser", "the abstract interpreter /verif/sa/interp.py", "the rule module /verif/sa/rules/" + ctx.prop.lower() + ".py"],
        "explanation": meta["explanation"],
    }
    ev = {"property": ctx.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": meta["level"],
          "coverage": cov, "wall_s": round(wall, 3)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{ctx.prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)


def main(argv):
    if argv[1] == "--selftest":
        ix = Index()
        n = sum(1 for _ in ix.all_funcs())
        print(f"indexed {len(ix.modules)} modules, {n} functions")
        return 0 if n > 500 else 3
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    try:
        return run_property(prop, tier)
    except AnalysisBroken as e:
        print(f"ANALYSIS-ERROR property={prop}: {e}", file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-ERROR property={prop}: internal error", file=sys.stderr)
        return 3
