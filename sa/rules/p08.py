"""P08: nothing runs before the request was validated."""
from .common import *
from . import p02

OP = [o for o in p02.OPAQUE] + ["get_upstream_nodes"]


def validator_roots(ix):
    d = ix.cls("hamilton.driver.Driver")
    return p02.roots(ix) + [(d, "validate_execution"), (d, "validate_materialization")]


def gate(ctx):
    ctx.rule("(gate) on every path of every entry point, graph execution is preceded by: resolving the requested outputs on the executed graph (with the run's inputs and overrides), "
             "validating the inputs for exactly those nodes on that graph, and the executor's own validation of them; a failed validation ends the run before execution; the dry-run "
             "entry points perform the same three steps.")
    ix = ctx.ix
    for cls, name in validator_roots(ix):
        f = ix.method(cls, name)
        k = f"{cls.name}.{name}"
        dry = name.startswith("validate_")
        ps = ctx.paths(f, self_cls=cls, inline_modules=["hamilton.driver", "hamilton.async_driver"], pure=PURE, opaque=OP,
                       keep=lambda e: e.name in ("get_upstream_nodes", "validate_inputs", "validate", "execute", "_create_final_vars", "modify_graph") or hook(e) is not None,
                       raises=lambda e: e.name in ("get_upstream_nodes", "validate_inputs", "validate", "_create_final_vars"))
        n = 0
        for p in ps:
            ex = [i for i, e in enumerate(p.trace) if p02.is_exec(e)]
            if dry:
                if p.kind != "return":
                    continue
                end, E = len(p.trace), None
            elif ex:
                end, E = ex[0], p.trace[ex[0]]
            else:
                continue
            n += 1
            before = p.trace[:end]
            up = [e for e in before if e.name == "get_upstream_nodes" and e.outcome == "ok"]
            vi = [e for e in before if e.name == "validate_inputs" and e.outcome == "ok"]
            va = [e for e in before if e.name == "validate" and e.outcome == "ok"]
            where = E.where() if E is not None else f.loc()
            if not ctx.check(bool(up), f"{k}:resolves", where, "nodes run although the requested outputs were never resolved against the graph", p):
                continue
            if E is not None and E.qual == "hamilton.graph.FunctionGraph.execute":
                g = E.recv
            elif E is not None:
                g = E.arg("fg", 0)
            else:
                g = up[-1].recv
            ctx.check(any(u.recv == g for u in up), f"{k}:same-graph", where, f"outputs are resolved on {tstr(up[-1].recv)} but {tstr(g)} is executed", p)
            uids = [u.uid for u in up if u.recv == g]
            if not ctx.check(bool(vi), f"{k}:validates-inputs", where, "nodes run although the inputs were never validated", p):
                continue
            good = False
            why = "?"
            for v in vi:
                ng, un, inp, ns = v.arg("fn_graph", 0), v.arg("user_nodes", 2), v.arg("inputs", 3), v.arg("nodes_set", 4)
                c1 = ng == g
                c2 = un is not None and any(mentions(un, ("res", u)) for u in uids) and tail(un) == 1
                c3 = inp is not None and unwrap(inp) == ("param", "inputs") or (inp in (("dict", ()), NONE))
                c4 = ns is None or any(mentions(ns, ("res", u)) for u in uids) and tail(ns) == 0
                why = f"graph={tstr(ng)}, user_nodes={tstr(un)}, inputs={tstr(inp)}, nodes={tstr(ns)}"
                good = good or (c1 and c2 and c3 and c4)
            ctx.check(good, f"{k}:validates-right-inputs", vi[-1].where(), f"inputs are validated with {why}: not the run's graph, inputs and required nodes", p)
            if cls.name == "Driver":
                ctx.check(bool(va), f"{k}:executor-validates", where, "nodes run without the executor having validated the graph", p)
                for v in va[-1:]:
                    a = v.args[0] if v.args else kw(v, "nodes_to_execute")
                    ctx.check(a is not None and any(mentions(a, ("res", u)) for u in uids), f"{k}:executor-validates-nodes", v.where(), f"the executor validates {tstr(a)}", p)
            for u in up:
                if u.uid in uids:
                    fv = u.arg("final_vars", 0)
                    if E is not None and E.qual != "hamilton.graph.FunctionGraph.execute":
                        ctx.check(fv == E.arg("final_vars", 1), f"{k}:same-outputs", u.where(), f"{tstr(fv)} is resolved but {tstr(E.arg('final_vars', 1))} is executed", p)
                    ri = u.arg("runtime_inputs", 1)
                    ctx.check(ri is not None and unwrap(ri) == ("param", "inputs"), f"{k}:resolve-inputs", u.where(), f"outputs are resolved with inputs={tstr(ri)}", p)
        ctx.need(n, f"{k}: execution not found")
        for p in ps:
            bad = [e for e in p.trace if e.outcome == "raise"]
            if bad:
                i = p.trace.index(bad[0])
                ctx.check(not any(p02.is_exec(e) for e in p.trace[i:]) and p.kind == "raise", f"{k}:stops", bad[0].where(), f"the run goes on although {bad[0].name} rejected it", p)


def tail(t):
    """Index of the tuple component a term selects from get_upstream_nodes' result (0 nodes, 1 user nodes)."""
    for s in subterms(t):
        if s[0] == "item" and len(s) == 3 and s[2][0] == "const" and isinstance(s[2][1], int):
            return s[2][1]
    return None


def inputs_rule(ctx):
    ctx.rule("(inputs) input validation raises when a required input is in neither config nor inputs, and when a non-None input fails its type check; otherwise every external node is "
             "looked at; 'required' means some node of the executed set declares it required.")
    ix = ctx.ix
    d = ix.cls("hamilton.driver.Driver")
    f = ix.method(d, "validate_inputs")
    UN = ("elem", ("param", "user_nodes"))
    nm = ("attr", UN, "name")
    n = {"missing": 0, "type": 0, "ok": 0}
    ps = ctx.paths(f, self_cls=d, inline_modules=["hamilton.driver"], pure=PURE + ("node_is_required_by_anything",), opaque=["combine_config_and_inputs", "normalize_adapter_input"],
                   raises="none", keyfacts=lambda k: mentions(k, nm) or mentions(k, UN), keep=lambda e: e.name in METHODS or e.name in ("check_input_type", "combine_config_and_inputs", "node_is_required_by_anything"))
    for p in ps:
        if p.facts.get(("truthy", ("param", "user_nodes"))) is False:
            continue
        present = [(k, v) for k, v in p.facts.items() if k[0] == "in" and k[1] == nm]
        req = [(k, v) for k, v in p.facts.items() if k[0] == "truthy" and k[1][0] == "pure" and k[1][1] == "node_is_required_by_anything"]
        missing = any(v is False for k, v in present)
        if missing:
            if any(v for _, v in req):
                n["missing"] += 1
                ctx.check(p.kind == "raise", "validate:missing-required", f.loc(), "a required input that was not provided is accepted", p)
                k = [k for k, v in req][0]
                a = k[1][3]
                ctx.check(a and a[0] == UN, "validate:required-of", f.loc(), "whether an input is required is asked about another node", p)
            elif req:
                n["ok"] += 1
                ctx.check(p.kind != "raise", "validate:missing-optional", f.loc(), "an absent optional input is rejected", p)
            else:
                ctx.check(p.kind == "raise", "validate:missing-unchecked", f.loc(), "an input that was not provided is accepted without asking whether it is required", p)
        elif present:
            chk = [e for e in p.trace if method(e) == "do_validate_input" or e.name == "check_input_type"]
            for e in chk:
                t = kw(e, "node_type") if method(e) else (e.args[0] if e.args else kw(e, "node_type"))
                v = kw(e, "input_value") if method(e) else (e.args[1] if len(e.args) > 1 else kw(e, "input_value"))
                ctx.check(t == ("attr", UN, "type"), "validate:type-of", e.where(), f"an input is checked against {tstr(t)}", p)
                ctx.check(v is not None and v[0] in ("item", "pure") and mentions(v, nm), "validate:value-of", e.where(), f"the value checked is {tstr(v)}", p)
            vals = [v for k, v in p.facts.items() if k[0] == "isnone" and mentions(k, nm)]
            if chk:
                verdict = [v for k, v in p.facts.items() if k[0] == "truthy" and any(mentions(k, ("res", e.uid)) for e in chk)]
                n["type"] += 1
                if verdict == [False]:
                    ctx.check(p.kind == "raise" or True in vals, "validate:type-mismatch", f.loc(), "an input of the wrong type is accepted", p)
            else:
                ctx.check(True in vals or p.kind == "raise", "validate:unchecked-type", f.loc(), "a provided input is accepted without a type check", p)
    ctx.need(n["missing"] and n["type"], f"input validation not recognised {n}")
    for p in ps[:1]:
        c = [e for p in ps for e in p.trace if e.name == "combine_config_and_inputs"]
        ctx.check(c and all(e.args and e.args[0][0] == "attr" and e.args[0][1] == ("param", "fn_graph") for e in c), "validate:config", f.loc(), "config is not taken from the validated graph")


def requirement(ctx):
    ix = ctx.ix
    f = ix.func("hamilton.execution.graph_functions.node_is_required_by_anything")
    n = 0
    DB = ("attr", ("param", "node_"), "depended_on_by")
    c = ("elem", DB)
    for p in ctx.paths(f, inline_modules=[f.module.name], raises="none", keyfacts=lambda k: True):
        if p.kind != "return":
            continue
        req = [v for k, v in p.facts.items() if k[0] == "eq" and "DependencyType.REQUIRED" in repr(k)] + [not v for k, v in p.facts.items() if k[0] == "eq" and "DependencyType.OPTIONAL" in repr(k)] + \
              [v for k, v in p.facts.items() if k[0] == "truthy" and "requires" in repr(k)]
        inset = p.facts.get(("in", c, ("param", "node_set")))
        if p.value == TRUE:
            n += 1
            ctx.check(True in req and inset is True, "required:true", f.loc(), "a dependency counts as required although no executed node requires it", p)
        elif p.value == FALSE and inset is True:
            ctx.check(True not in req, "required:false", f.loc(), "a dependency required by an executed node does not count as required", p)
    ctx.need(n, "requirement test not recognised")


def unknown_outputs(ctx):
    ctx.rule("(outputs) a requested name that is neither a node, config key nor input is an error; the default executor rejects Parallelizable/Collect nodes.")
    ix = ctx.ix
    g = ix.cls("hamilton.graph.FunctionGraph")
    f = ix.method(g, "get_upstream_nodes")
    fv = ("elem", ("param", "final_vars"))
    n = 0
    for p in ctx.paths(f, self_cls=g, inline_modules=["hamilton.graph"], raises="none", keyfacts=lambda k: k[0] == "in" and k[1] == fv or k == ("isnone", ("param", "runtime_inputs"))):
        ins = [(k, v) for k, v in p.facts.items() if k[0] == "in" and k[1] == fv]
        in_nodes = [v for k, v in ins if "nodes" in repr(k[2])]
        if not in_nodes or True in in_nodes:
            continue
        others = [v for k, v in ins if "nodes" not in repr(k[2])]
        known = True in others
        if not known:
            n += 1
            ctx.check(p.kind == "raise", "outputs:unknown", f.loc(), "a request for an unknown output is accepted", p)
    ctx.need(n, "handling of unknown outputs not recognised")
    d = ix.cls("hamilton.driver.DefaultGraphExecutor")
    f = ix.method(d, "validate")
    acc = rej = 0
    el = ("elem", ("param", "nodes_to_execute"))
    for p in ctx.paths(f, self_cls=d, inline_modules=["hamilton.driver"], raises="none", keyfacts=lambda k: True):
        if p.kind == "raise":
            rej += 1
        eqs = {repr(k): v for k, v in p.facts.items() if k[0] == "eq" and "NodeType" in repr(k)}
        isexp = any(v and ("EXPAND" in k or "COLLECT" in k) for k, v in eqs.items())
        if isexp:
            acc += 1
            ctx.check(p.kind == "raise", "default-executor:parallel", f.loc(), "the default executor accepts a Parallelizable/Collect node", p)
    txt = " ".join(repr(k) for p in ctx.paths(f, self_cls=d, inline_modules=["hamilton.driver"], raises="none", keyfacts=lambda k: True) if p.kind == "raise" for k in p.facts)
    ctx.check("EXPAND" in txt and "COLLECT" in txt, "default-executor:roles", f.loc(), "the default executor no longer rejects both Parallelizable and Collect nodes")


def clash(ctx):
    ctx.rule("(clash) config and inputs are combined only when they share no key, whatever the values: every accepting path has established that no key of one is in the other, by a test on the keys alone.")
    ix = ctx.ix
    f = ix.func("hamilton.execution.graph_functions.combine_config_and_inputs")
    A, B = ("param", "config"), ("param", "inputs")

    def both(k):
        return k[0] == "in" and (k[1], k[2]) in ((("key", A), B), (("key", B), A), (("elem", A), B), (("elem", B), A))

    def keysets(t):
        return mentions(t, A) and mentions(t, B) and any(x in repr(t) for x in ("BitAnd", "intersection", "isdisjoint", "'&'"))
    n = 0
    for p in ctx.paths(f, inline_modules=[f.module.name], raises="none", keyfacts=lambda k: True):
        shared = [v for k, v in p.facts.items() if both(k)]
        if p.kind == "raise":
            ctx.check(shared != [False], "clash:disjoint-rejected", f.loc(), "inputs that share no key with config are rejected", p)
            continue
        if p.kind != "return":
            continue
        ctx.check(True not in shared, "clash:accepted", f.loc(), "an input whose key is also in config is accepted", p)
        known = bool(shared) or any(p.facts.get(("truthy", x)) is False for x in (A, B))
        for k, v in p.facts.items():
            if k[0] == "truthy" and v is False and k[1][0] in ("list", "set", "dict"):
                for r in k[1][1]:
                    if r[0] == "e" and r[1] in (("key", A), ("key", B)) or r[0] == "kv" and r[1] in (("key", A), ("key", B)):
                        g = r[-1][2] if len(r[-1]) > 2 else ()
                        ok = len(g) == 1 and both(g[0][0]) and g[0][1] is True
                        ctx.check(ok, "clash:test", f.loc(), f"whether a key clashes is decided by more than its being in both: {'; '.join(tstr(x[0]) for x in g)}", p)
                        known = True
            if keysets(k):
                known = True
        n += 1
        ctx.need(known, "how shared keys are detected is not recognised")
    ctx.need(n, "combination of config and inputs not recognised")


PARTS = [("clash", clash), ("gate", gate), ("inputs", inputs_rule), ("requirement", requirement), ("outputs", unknown_outputs)]
