"""P25: lifecycle adapters are called as they declare, with what happened; the built-in ones neither change nor hide it."""
from ..interp import is_const
from .common import *
from .p15 import SELFT
from .p21 import ev_of
from .p24 import D, L, T, V, entries, items, names, paths

B, API, DEF = "hamilton.lifecycle.base.", "hamilton.lifecycle.api.", "hamilton.lifecycle.default."
KINDS = {"base_hook": ("hook", "HOOKS"), "base_method": ("method", "METHODS"), "base_validator": ("validator", "VALIDATORS")}


def own_class(ctx, m):
    c = ctx.ix.cls(m)
    ctx.need(c is not None, f"{m} is gone")
    return c


def marks(ctx):
    """{(kind, sync?): the class attribute that marks an adapter class}, as the decorators of `lifecycle` set them."""
    c = own_class(ctx, B + "lifecycle")
    out = {}
    for deco, (kind, reg) in KINDS.items():
        f = ctx.ix.find_method(c, deco)
        ctx.need(f is not None, f"lifecycle.{deco} is gone")
        K = V("clazz")
        for p in paths(ctx, f, c, bind={names(f)[-1]: const("meth")}, assume={("isnone", at_(K, "meth")): False, ("isnone", V("fn")): False}):
            ctx.need(p.kind == "return" and p.value[0] in ("clos", "partial"), f"lifecycle.{deco} does not return a decorator")
            n = 0
            for q in p.invoke(p.value, args=(K,), raises="none", keep=lambda e: True, keyfacts=lambda k: True, attrs={(K, "meth"): V("fn")}, opaque=["validate_hook_fn", "validate_method_fn", "validate_validator_fn"]):
                if q.kind != "return":
                    ctx.check(q.facts.get(("hasattr", K, const("meth"))) is not True, f"mark:{deco}:rejected", f.loc(), f"@lifecycle.{deco}(name) rejects a class that has the method", q)
                    continue
                n += 1
                ctx.check(q.value == K, f"mark:{deco}:class", f.loc(), f"@lifecycle.{deco} gives {tstr(q.value)[:60]} instead of the class", q)
                co = [(e, q.facts.get(("truthy", ("res", e.uid)))) for e in q.trace if e.name == "iscoroutinefunction"]
                sets = [e for e in q.trace if e.kind == "setattr" and e.recv == K]
                adds = [e for e in q.trace if e.kind in ("call", "mut") and e.name == "add" and registry(e)]
                ctx.need(len(sets) == 1 and len(adds) == 1, f"@lifecycle.{deco} marks the class in a way the analysis does not follow")
                sync = not (co and co[0][1]) if kind != "validator" else True
                ctx.check(list(sets[0].args)[-1:] == [const("meth")] and list(adds[0].args) == [const("meth")], f"mark:{deco}:name", f.loc(), f"@lifecycle.{deco}(name) records {tstr(sets[0].args[-1])[:40]} / {tstr(adds[0].args[0])[:40]}", q)
                want = B + f"REGISTERED_{'SYNC' if sync else 'ASYNC'}_{reg}"
                ctx.check(registry(adds[0]) == want, f"mark:{deco}:registry", f.loc(), f"a{' ' if sync else 'n a'}synchronous {kind} is registered in {registry(adds[0])}", q)
                prev = out.setdefault((kind, sync), sets[0].name)
                ctx.check(prev == sets[0].name, f"mark:{deco}:attr", f.loc(), f"the mark of a {kind} is not always the same attribute", q)
            ctx.need(n, f"@lifecycle.{deco} never returns")
    ctx.check(len(set(out.values())) == len(out), "mark:distinct", f"{c.module.rel}:1", f"different kinds of lifecycle methods share a mark: {sorted(out.items())}")
    return out


def registry(e):
    q = e.recv[1] if e.recv is not None and e.recv[0] == "global" else e.qual.rpartition(".")[0] if e.qual else ""
    return q if q.startswith(B + "REGISTERED_") else ""


def declared(ctx):
    ctx.rule("(declared) lifecycle.base_hook / base_method / base_validator mark a class with the method's name and register it, the asynchronous ones apart from the synchronous ones; every base class names a method it has, once.")
    marks(ctx)
    import ast
    n = 0
    seen = {}
    for c in [c for m in ctx.ix.modules.values() for c in m.classes.values()]:
        for d in c.node.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr in KINDS:
                a = d.args[0].value if d.args and isinstance(d.args[0], ast.Constant) else None
                ctx.need(isinstance(a, str), f"{c.qual}: the lifecycle name is not a literal")
                g = c.methods.get(a) or ctx.ix.find_method(c, a)
                n += 1
                ctx.check(g is not None, f"declared:{c.name}", f"{c.module.rel}:{c.node.lineno}", f"{c.name} is marked for {a}, which it does not have")
                if g is None:
                    continue
                k = (a, isinstance(g.node, ast.AsyncFunctionDef), d.func.attr)
                ctx.check(k not in seen, f"declared:twice:{c.name}", f"{c.module.rel}:{c.node.lineno}", f"{c.name} and {seen.get(k)} both declare {'async ' if k[1] else ''}{a}")
                seen[k] = c.name
    ctx.need(n >= 10, f"only {n} lifecycle base classes found")
    ctx.count("lifecycle base classes", n)


# adapters a1 and a4 (class c1), a2 (class c2, a subclass of c3), a3 (class c4): what each class in the MRO is marked with
MRO = {"a1": ("c1", "o"), "a2": ("c2", "c3", "o"), "a3": ("c4", "c1", "o"), "a4": ("c1", "o")}


def world(ctx, tags, order):
    mk = marks(ctx)
    at, assume = {(SELFT, "_adapters"): L(*[V(a) for a in order])}, {}
    for c in ("c1", "c2", "c3", "c4", "o"):
        for key, attr in mk.items():
            v = tags.get(c, {}).get(key)
            assume[("hasattr", V(c), const(attr))] = v is not None
            at[(V(c), attr)] = const(v) if v is not None else NONE
    for a in MRO:
        at[(V(a), "__class__")] = V(MRO[a][0])
        at[(V(MRO[a][0]), "__mro__")] = T(*[V(x) for x in MRO[a]])
        for b in MRO:
            if a != b:
                assume[("is", V(a), V(b))] = assume[("eq", ("pure", "id", None, (V(a),), ()), ("pure", "id", None, (V(b),), ()))] = False
    return at, assume


def returns(e):
    if e.name == "getmro" and e.args:
        t = e.args[0]
        a = [x for x in MRO if t in (V(MRO[x][0]), ("attr", V(x), "__class__"), ("type", V(x)))]
        return T(*[V(x) for x in MRO[a[0]]]) if a else None
    if e.name == "mro" and e.recv is not None:
        a = [x for x in MRO if e.recv in (V(MRO[x][0]), ("attr", V(x), "__class__"), ("type", V(x)))]
        return T(*[V(x) for x in MRO[a[0]]]) if a else None
    return None


def ids(p):
    """Facts about id()s of different adapters being equal: impossible."""
    return any(v and k[0] == "eq" and all(any(mentions(x, V(a)) for a in MRO) and "id" in str(x) for x in k[1:3]) for k, v in p.facts.items())


def collected(ctx):
    ctx.rule("(collected) an adapter is called for exactly the hooks and validators its class or a base class is marked for, once, in the order the adapters were given, two equal adapters being two; a second adapter implementing the same method is rejected, sync and async apart.")
    ix = ctx.ix
    c = own_class(ctx, B + "LifecycleAdapterSet")
    H, M, VA = ("hook", True), ("method", True), ("validator", True)
    AH, AM = ("hook", False), ("method", False)
    cases = [
        ({"c1": {H: "h"}, "c2": {H: "h", AH: "g"}, "c3": {H: "k"}, "c4": {AH: "g"}}, ("a1", "a2", "a3")),
        ({"c1": {H: "h"}, "c2": {AH: "g"}, "c3": {H: "h"}}, ("a2", "a1")),
        ({"c1": {H: "h", AH: "g"}}, ("a4", "a1")),
        ({"c1": {M: "m"}}, ("a4", "a1")),
        ({"c1": {AM: "m"}}, ("a1", "a4")),
        ({"c1": {VA: "v"}}, ("a1", "a4")),
        ({"c1": {M: "m", AM: "n"}, "c2": {M: "k"}, "c3": {AM: "l"}}, ("a1", "a2")),
        ({"c1": {M: "m"}, "c2": {M: "m"}}, ("a1", "a2")),
        ({"c1": {AM: "m"}, "c3": {AM: "m"}}, ("a1", "a2")),
        ({"c1": {M: "m"}, "c2": {AM: "m"}}, ("a1", "a2")),
        ({"c2": {M: "m"}, "c3": {M: "m"}}, ("a2",)),
        ({"c1": {VA: "v"}, "c2": {VA: "v"}, "c3": {VA: "w"}, "c4": {}}, ("a3", "a2", "a1")),
        ({"c1": {VA: "v"}, "c2": {VA: "w"}, "c3": {VA: "v"}}, ("a1", "a2")),
        ({}, ("a1", "a2")),
        ({}, ()),
    ]
    f = ix.find_method(c, "__init__")
    for i, (tags, order) in enumerate(cases):
        at, assume = world(ctx, tags, order)
        at.pop((SELFT, "_adapters"))
        want = {}
        for key, slot in ((H, "sync_hooks"), (AH, "async_hooks"), (M, "sync_methods"), (AM, "async_methods"), (VA, "sync_validators")):
            d = want[slot] = {}
            for a in order:
                for k in MRO[a]:
                    n = tags.get(k, {}).get(key)
                    if n and a not in d.setdefault(n, []):
                        d[n].append(a)
        clash = any(len(v) > 1 for s in ("sync_methods", "async_methods") for v in want[s].values())
        k = 0
        for p in paths(ctx, f, c, attrs=at, assume=assume, bind={f.node.args.vararg.arg if f.node.args.vararg else "adapters": T(*[V(a) for a in order])}, returns=returns):
            if ids(p):
                continue
            k += 1
            eq = [k for k, v in p.facts.items() if v and k[0] == "eq" and all(x in [V(a) for a in MRO] for x in k[1:3])]
            how = " that compare equal" if eq else ""
            if p.kind == "raise":
                ctx.check(clash, f"collected:rejected:{i}", f.loc(), f"adapters {order}{how} marked {tags} are rejected", p)
                continue
            ctx.check(not clash, f"collected:clash:{i}", f.loc(), f"two adapters{how} implementing the same lifecycle method are accepted ({ {s: v for s, v in want.items() if 'methods' in s} })", p)
            if clash:
                continue
            for slot, w in want.items():
                got = entries(p.final(SELFT, slot) or NONE)
                ctx.need(got is not None and all(is_const(x) for x in got), f"LifecycleAdapterSet.{slot} is not a table the analysis knows")
                g = {}
                for name, v in got.items():
                    it = items(v)
                    ctx.need(it is not None and all(x[0] == "sym" for x in it), f"LifecycleAdapterSet.{slot} does not hold lists the analysis knows")
                    g[name[1]] = [x[1] for x in it]
                if "validators" in slot:
                    same = {k: sorted(v) for k, v in g.items()} == {k: sorted(v) for k, v in w.items()}
                else:
                    same = g == w
                ctx.check(same, f"collected:{slot}:{i}", f.loc(), f"adapters {list(order)}{how} whose classes are marked {({a: [tags.get(x, {}) for x in MRO[a]] for a in order})}: {slot} is {g}, not {w}", p)
        ctx.need(k, "LifecycleAdapterSet() has no path")
    # an adapter given twice is one adapter
    at, assume = world(ctx, {"c1": {H: "h"}, "c2": {H: "h"}, "c3": {VA: "v"}}, ())
    at.pop((SELFT, "_adapters"))
    for p in paths(ctx, f, c, attrs=at, assume=assume, bind={f.node.args.vararg.arg: T(V("a1"), V("a2"), V("a1"))}, returns=returns):
        if ids(p):
            continue
        ctx.need(p.kind == "return", "LifecycleAdapterSet(a, b, a) raises")
        g = entries(p.final(SELFT, "sync_hooks") or NONE)
        it = items(g[const("h")]) if g and const("h") in g else None
        ctx.need(it is not None, "LifecycleAdapterSet.sync_hooks is not a table the analysis knows")
        ctx.check(it == [V("a1"), V("a2")], "collected:twice", f.loc(), f"LifecycleAdapterSet(a1, a2, a1) calls {[x[1] for x in it]} for a hook both implement", p)


def asks(ctx):
    ctx.rule("(asks) does_hook, does_method and does_validation answer yes exactly when an adapter implements it in the asked kind (sync, async, either when not said); a name that is not a lifecycle name of that kind is an error.")
    ix = ctx.ix
    c = own_class(ctx, B + "LifecycleAdapterSet")
    for m, what in (("does_hook", "hooks"), ("does_method", "methods")):
        f = ix.find_method(c, m)
        nm, asy = names(f)[1:3]
        n = 0
        for which, val in (("either", NONE), ("async", TRUE), ("sync", FALSE)):
            for has_s in (0, 1):
                for has_a in (0, 1):
                    at = {(SELFT, "sync_" + what): D({"h": L(V("a1"))} if has_s else {"z": L(V("a1"))}), (SELFT, "async_" + what): D({"h": L(V("a2"))} if has_a else {})}
                    for p in paths(ctx, f, c, attrs=at, bind={nm: const("h"), asy: val}):
                        R = {k: p.facts.get(("in", const("h"), ("global", B + f"REGISTERED_{k}_{what.upper()}"))) for k in ("SYNC", "ASYNC")}
                        asked = {"either": ("SYNC", "ASYNC"), "async": ("ASYNC",), "sync": ("SYNC",)}[which]
                        if p.kind == "raise":
                            ctx.check(any(R[k] is False for k in asked), f"{m}:raises:{which}", f.loc(), f"{m}(name, {which}) of a registered name raises", p)
                            continue
                        n += 1
                        ctx.check(all(R[k] is True for k in asked), f"{m}:unknown:{which}", f.loc(), f"{m}(name, {which}) accepts a name that is not registered for it", p)
                        want = {"either": has_s or has_a, "async": has_a, "sync": has_s}[which]
                        ctx.need(p.value in (TRUE, FALSE), f"{m} returns {tstr(p.value)[:60]}")
                        ctx.check((p.value == TRUE) == bool(want), f"{m}:{which}:{has_s}{has_a}", f.loc(), f"{m}(name, {which}) answers {p.value == TRUE} when a sync adapter {'has' if has_s else 'does not have'} it and an async one {'has' if has_a else 'does not have'} it", p)
        ctx.need(n >= 12, f"{m} never answers")
    f = ix.find_method(c, "does_validation")
    for has in (0, 1):
        for p in paths(ctx, f, c, attrs={(SELFT, "sync_validators"): D({"v": L(V("a1"))} if has else {"z": L(V("a1"))})}, bind={names(f)[1]: const("v")}):
            reg = p.facts.get(("in", const("v"), ("global", B + "REGISTERED_SYNC_VALIDATORS")))
            if p.kind == "raise":
                ctx.check(reg is False, "does_validation:raises", f.loc(), "does_validation of a registered validator raises", p)
                continue
            ctx.check(p.value == const(bool(has)), f"does_validation:{has}", f.loc(), f"does_validation answers {tstr(p.value)} when an adapter {'has' if has else 'does not have'} it", p)


def spread(e, f):
    kw = f.node.args.kwarg
    return not e.args and not e.kwargs and kw is not None and list(e.spreads) == [("param", "**" + kw.arg)]


def called(ctx):
    ctx.rule("(called) calling a hook calls every adapter collected for it exactly once, in order, with all arguments, async ones awaited, and lets an adapter's error through; calling a method gives the adapter's answer; calling a validator reports every failure with its message and adapter, and successes when asked to.")
    ix = ctx.ix
    c = own_class(ctx, B + "LifecycleAdapterSet")
    A1, A2, A3 = V("a1"), V("a2"), V("a3")
    at = {(SELFT, "sync_hooks"): D({"h": L(A1, A2), "x": L(A3)}), (SELFT, "async_hooks"): D({"h": L(A3, A2), "y": L(A1)}), (SELFT, "sync_methods"): D({"h": L(A1), "x": L(A2)}), (SELFT, "async_methods"): D({"h": L(A3), "x": L(A2)}),
          (SELFT, "sync_validators"): D({"h": L(A1, A2), "x": L(A3)}), (SELFT, "_adapters"): L(A1, A2)}
    for m, want in (("call_all_lifecycle_hooks_sync", {"h": (A1, A2), "x": (A3,), "y": ()}), ("call_all_lifecycle_hooks_async", {"h": (A3, A2), "x": (), "y": (A1,)}), ("call_all_lifecycle_hooks_sync_and_async", {"h": (A1, A2, A3, A2), "x": (A3,), "y": (A1,)})):
        f = ix.find_method(c, m)
        for name, who in want.items():
            for p in paths(ctx, f, c, attrs=at, bind={names(f)[1]: const(name)}):
                ctx.check(p.kind == "return", f"{m}:{name}:raises", f.loc(), f"{m} raises of itself for a hook {'nobody' if not who else 'some adapter'} implements", p)
                es = [e for e in p.trace if e.kind == "call" and e.name == name and e.recv in (A1, A2, A3)]
                got = [e.recv for e in es]
                if m.endswith("sync_and_async"):
                    ok = sorted(map(str, got)) == sorted(map(str, who))
                else:
                    ok = got == list(who)
                ctx.check(ok, f"{m}:{name}", f.loc(), f"{m} of a hook collected for {[x[1] for x in who]} calls {[x[1] for x in got]}", p)
                ctx.check(all(spread(e, f) for e in es), f"{m}:{name}:arguments", f.loc(), f"{m} does not hand every argument to the adapters", p)
                if m != "call_all_lifecycle_hooks_sync":
                    n_sync = 0 if m.endswith("hooks_async") else len(want_sync(at, name))
                    g = [e for e in p.trace if e.name in ("gather", "wait", "TaskGroup") and e.awaited]
                    if not g:
                        later = [e for e in es if not e.awaited]
                    else:
                        held = [x for e in g for x in e.args]
                        later = [e for e in es if not e.awaited and ("res", e.uid) not in held and not any(mentions(x, ("res", e.uid)) for x in held) and not any(mentions(s, ("res", e.uid)) for e2 in g for s in e2.spreads)]
                        ex = [e for e in g if e.kwargs.get("return_exceptions") not in (None, FALSE)]
                        ctx.check(not ex, f"{m}:{name}:errors", f.loc(), f"{m} swallows the errors of async adapters", p)
                    ctx.check(len(later) <= n_sync, f"{m}:{name}:awaited", f.loc(), f"{m} does not await the async adapters", p)
            for p in paths(ctx, f, c, attrs=at, bind={names(f)[1]: const(name)}, raises=lambda e, name=name: e.name == name or e.name == "gather"):
                if any(e.outcome == "raise" and e.name == name for e in p.trace):
                    ctx.check(p.kind == "raise", f"{m}:{name}:error", f.loc(), f"{m} swallows the error of an adapter", p)
    for m, table in (("call_lifecycle_method_sync", "SYNC"), ("call_lifecycle_method_async", "ASYNC")):
        f = ix.find_method(c, m)
        for name, who in (("h", A1 if table == "SYNC" else A3), ("x", A2)):
            for p in paths(ctx, f, c, attrs=at, bind={names(f)[1]: const(name)}):
                reg = p.facts.get(("in", const(name), ("global", B + f"REGISTERED_{table}_METHODS")))
                if p.kind == "raise":
                    ctx.check(reg is False, f"{m}:{name}:raises", f.loc(), f"{m} rejects a registered method an adapter implements", p)
                    continue
                e = ev_of(p, p.value[1]) if p.value[0] == "res" else None
                ctx.check(e is not None and e.name == name and e.recv == who and spread(e, f) and (table == "SYNC" or e.awaited), f"{m}:{name}", f.loc(), f"{m} gives {tstr(p.value)[:60]} and not the adapter's {'awaited ' if table == 'ASYNC' else ''}answer to all arguments", p)
                ctx.check(sum(x.name == name and x.recv in (A1, A2, A3) for x in p.trace) == 1, f"{m}:{name}:once", f.loc(), f"{m} calls the method more than once", p)
    f = ix.find_method(c, "call_all_validators_sync")
    only = ("param", names(f)[2])
    VR = ix.cls(B + "ValidationResult")
    for p in paths(ctx, f, c, attrs=at, bind={names(f)[1]: const("h")}):
        ctx.need(p.kind == "return", "call_all_validators_sync raises")
        out = items(p.value)
        ctx.need(out is not None, "call_all_validators_sync does not return a list the analysis knows")
        es = {e.recv: e for e in p.trace if e.kind == "call" and e.name == "h" and e.recv in (A1, A2)}
        ctx.check(set(es) == {A1, A2} and all(spread(e, f) for e in es.values()), "validators:called", f.loc(), f"of the validators a1, a2 {sorted(x[1] for x in es)} are called with all arguments", p)
        rep = {}
        for x in out:
            fl = fields_of(p, x)
            ctx.need(fl is not None, f"a validation result is {tstr(x)[:80]}")
            ctx.check(fl.get("validator") in (A1, A2), "validators:who", f.loc(), f"the validator of a reported result is {tstr(fl.get('validator') or NONE)[:40]}", p)
            rep.setdefault(fl["validator"], []).append(fl)
        want_ok = p.facts.get(("truthy", only))
        for a, e in es.items():
            r = ("res", e.uid)
            ok = p.facts.get(("truthy", ("item", r, const(0))))
            if ok is None:
                ok = {TRUE: True, FALSE: False}.get(("item", r, const(0)))
            fls = rep.get(a, [])
            if ok is None and want_ok is not False or ok is True and want_ok is None:
                ctx.bad("validators:wanted", f.loc(), f"a validator's result is {'' if fls else 'not '}reported without regard to {'its verdict' if ok is None else 'whether successes are wanted'}", p)
                continue
            want = 1 if ok is False or want_ok is False else 0
            ctx.check(len(fls) == want, f"validators:reported:{ok}:{want_ok}", f.loc(), f"a validator that {'passes' if ok else 'fails'} is reported {len(fls)} times, when only failures are {'' if want_ok else 'not '}wanted", p)
            for fl in fls:
                ctx.check(fl.get("success") in (("item", r, const(0)), const(ok)) and fl.get("error") == ("item", r, const(1)), "validators:verdict", f.loc(), f"the reported verdict is ({tstr(fl.get('success') or NONE)}, {tstr(fl.get('error') or NONE)}) and not the validator's own", p)
    f = ix.find_method(c, "ainit")
    for p in paths(ctx, f, c, attrs=at):
        for a in (A1, A2):
            has = p.facts.get(("hasattr", a, const("ainit")))
            n = sum(e.name == "ainit" and e.recv == a and e.awaited for e in p.trace)
            ctx.check(p.kind == "return" and n == (1 if has else 0), f"ainit:{has}", f.loc(), f"an adapter {'with' if has else 'without'} ainit() has it awaited {n} times", p)


def want_sync(at, name):
    for k, v in at[(SELFT, "sync_hooks")][2]:
        if k == const(name):
            return v[2]
    return ()


def fields_of(p, x):
    if x[0] == "inst":
        return {k[1][1]: k[2] for k in x[1] if k[0] == "kv"}
    e = ev_of(p, x[1]) if x[0] == "res" else None
    if e is not None and e.kind == "new":
        return {n: e.arg(n, i) for i, n in enumerate(("success", "error", "validator"))}
    return None


def P(n):
    return ("param", n)


def at_(b, n):
    return ("attr", b, n)


def told(ctx):
    ctx.rule("(told) the user-facing hooks are told what happened: every argument of run_before_*/run_after_*/run_to_* is the attribute of the node, graph, task or run it is named after; the answer of a method is handed back; the execution path is the upstream nodes that are not inputs.")
    ix = ctx.ix
    N = P("node_")
    node = {"node_name": at_(N, "name"), "node_tags": at_(N, "tags"), "node_kwargs": P("kwargs"), "node_return_type": at_(N, "type"), "task_id": P("task_id"), "run_id": P("run_id")}
    graph = ("from_graph", P("graph"))
    task = {"run_id": P("run_id"), "task_id": P("task_id"), "nodes": ("from_nodes",)}
    table = [
        ("ResultBuilder", "do_build_result", "build_result", None, True),
        ("GraphAdapter", "do_node_execute", "execute_node", [N, P("kwargs")], True),
        ("GraphAdapter", "do_validate_input", "check_input_type", [P("node_type"), P("input_value")], True),
        ("GraphAdapter", "do_check_edge_types_match", "check_node_type_equivalence", [P("type_from"), P("type_to")], True),
        ("NodeExecutionHook", "pre_node_execute", "run_before_node_execution", {**node, "node_input_types": ("types",)}, False),
        ("NodeExecutionHook", "post_node_execute", "run_after_node_execution", {**node, "result": P("result"), "error": P("error"), "success": P("success")}, False),
        ("GraphExecutionHook", "pre_graph_execute", "run_before_graph_execution", {"graph": graph, "final_vars": P("final_vars"), "inputs": P("inputs"), "overrides": P("overrides"), "execution_path": ("path",), "run_id": P("run_id")}, False),
        ("GraphExecutionHook", "post_graph_execute", "run_after_graph_execution", {"graph": graph, "success": P("success"), "error": P("error"), "results": P("results"), "run_id": P("run_id")}, False),
        ("TaskExecutionHook", "pre_task_execute", "run_before_task_execution", {**task, "inputs": P("inputs"), "overrides": P("overrides")}, False),
        ("TaskExecutionHook", "post_task_execute", "run_after_task_execution", {**task, "results": P("results"), "success": P("success"), "error": P("error")}, False),
        ("EdgeConnectionHook", "do_check_edge_types_match", "check_edge_types_match", {"type_from": P("type_from"), "type_to": P("type_to")}, True),
        ("EdgeConnectionHook", "do_validate_input", "validate_input", {"node_type": P("node_type"), "input_value": P("input_value")}, True),
        ("NodeExecutionMethod", "do_node_execute", "run_to_execute_node", {"node_name": at_(N, "name"), "node_tags": at_(N, "tags"), "node_callable": at_(N, "callable"), "node_kwargs": P("kwargs"), "task_id": P("task_id"), "is_expand": ("role", "EXPAND"), "is_collect": ("role", "COLLECT")}, True),
        ("StaticValidator", "validate_node", "run_to_validate_node", {"node": ("from_node", P("created_node"))}, True),
        ("StaticValidator", "validate_graph", "run_to_validate_graph", {"graph": graph}, True),
        ("GraphConstructionHook", "post_graph_construct", "run_after_graph_construction", {"graph": graph, "config": P("config")}, False),
    ]
    n1, n2, n3 = V("n1"), V("n2"), V("n3")
    at = {(N, "input_types"): D({"p": T(V("tp"), V("kp")), "q": T(V("tq"), V("kq"))}), **{(n, "name"): const(n[1]) for n in (n1, n2, n3)}}
    assume = {("eq", a, b): False for a in (n1, n2, n3) for b in (n1, n2, n3) if a != b}
    for cn, m, user, want, ret in table:
        c = own_class(ctx, API + cn)
        f = ix.find_method(c, m)
        ctx.need(f is not None, f"{cn}.{m} is gone")
        g = ix.find_method(c, user)
        ctx.need(g is not None, f"{cn}.{user} is gone")
        bind = {"nodes": L(n1, n2)} if "nodes" in names(f) else {}
        k = 0
        for p in paths(ctx, f, c, opaque=[user], attrs=at, assume=assume, bind=bind, returns=lambda e: T(L(n1, n2, n3), L(n1)) if e.name == "get_upstream_nodes" else None):
            k += 1
            es = [e for e in p.trace if e.kind in ("call", "callv") and e.name == user]
            where = f"{cn}.{m}"
            ctx.check(p.kind == "return" and len(es) == 1 and es[0].recv == SELFT, f"{where}:called", f.loc(), f"{where} calls {user} {len(es)} times", p)
            if len(es) != 1:
                continue
            e = es[0]
            if ret:
                ctx.check(p.value == ("res", e.uid), f"{where}:answer", f.loc(), f"{where} gives {tstr(p.value)[:60]} and not the answer of {user}", p)
            if want is None:
                ctx.check(not e.args and not e.kwargs and list(e.spreads) == [P("outputs")], f"{where}:outputs", f.loc(), f"{where} does not hand the outputs to {user}", p)
                continue
            ns = [x for x in names(g) if x != "self"]
            if isinstance(want, list):
                want = dict(zip(ns, want))
            ctx.need(not e.spreads, f"{where} hands arguments on in a way the analysis does not follow")
            got = dict(zip(ns, e.args))
            got.update(e.kwargs)
            for w, spec in want.items():
                ctx.check(w in got and means(ctx, p, got[w], spec, (n1, n2, n3)), f"{where}:{w}", f.loc(), f"{where} tells {user} {w}={tstr(got[w])[:70] if w in got else 'nothing'}", p)
        ctx.need(k, f"{cn}.{m} has no path")


def means(ctx, p, t, spec, nodes):
    n1, n2, n3 = nodes
    if spec[0] in ("from_graph", "from_node"):
        e = ev_of(p, t[1]) if t[0] == "res" else None
        return e is not None and e.name == spec[0] and [*e.args, *e.kwargs.values()] == [spec[1]]
    if spec == ("types",):
        return entries(t) == {const("p"): V("tp"), const("q"): V("tq")}
    if spec == ("path",):
        it = items(t)
        ctx.need(it is not None, f"the execution path is {tstr(t)[:80]}")
        up = [e for e in p.trace if e.name == "get_upstream_nodes"]
        if not (len(up) == 1 and up[0].recv == P("graph") and [up[0].arg("final_vars", 0), up[0].arg("runtime_inputs", 1) or up[0].arg("inputs", 1), up[0].arg("runtime_overrides", 2) or up[0].arg("overrides", 2)] == [P("final_vars"), P("inputs"), P("overrides")]):
            return False
        return sorted(it) == [const("n2"), const("n3")]
    if spec == ("from_nodes",):
        it = items(t)
        ctx.need(it is not None, f"the nodes of the task are {tstr(t)[:80]}")
        es = [ev_of(p, x[1]) if x[0] == "res" else None for x in it]
        return [list(e.args) if e is not None and e.name == "from_node" else None for e in es] == [[n1], [n2]]
    if spec[0] == "role":
        role = at_(P("node_"), "node_role")
        v = [v for k, v in p.facts.items() if k[0] == "eq" and role in k[1:3] and any(x[0] == "global" and x[1].endswith("." + spec[1]) for x in k[1:3])]
        other = [v for k, v in p.facts.items() if k[0] == "eq" and role in k[1:3] and v and not any(x[0] == "global" and x[1].endswith("." + spec[1]) for x in k[1:3])]
        if t[0] == "cmp" or t[0] == "eq":
            return True
        return t == const(v[0]) if v else t == FALSE and bool(other)
    return t == spec


def described(ctx):
    ctx.rule("(described) a node and a graph are described to the user as they are: name, type, tags, documentation, origin, whether it is an input, exactly the required and exactly the optional dependencies and their defaults; the graph's description holds every node once.")
    ix = ctx.ix
    G = "hamilton.graph_types."
    c = own_class(ctx, G + "HamiltonNode")
    f = ix.find_method(c, "from_node")
    n = P(names(f)[0])
    DT = "hamilton.node.DependencyType."
    at = {(n, "input_types"): D({"p": T(V("tp"), ("global", DT + "REQUIRED")), "q": T(V("tq"), ("global", DT + "OPTIONAL")), "r": T(V("tr"), ("global", DT + "REQUIRED"))}), (n, "default_parameter_values"): D({"q": V("dq")})}
    want = {"name": at_(n, "name"), "type": at_(n, "type"), "tags": at_(n, "tags"), "is_external_input": at_(n, "user_defined"), "originating_functions": at_(n, "originating_functions"), "documentation": at_(n, "documentation")}
    assume = {("eq", ("global", DT + a), ("global", DT + b)): a == b for a in ("REQUIRED", "OPTIONAL") for b in ("REQUIRED", "OPTIONAL")}
    for p in paths(ctx, f, None, attrs=at, assume=assume):
        ctx.need(p.kind == "return", "HamiltonNode.from_node raises")
        new = [e for e in p.trace if e.kind == "new" and e.name == "HamiltonNode"]
        ctx.need(len(new) == 1, "HamiltonNode.from_node does not build one HamiltonNode")
        order = ["name", "type", "tags", "is_external_input", "originating_functions", "documentation", "required_dependencies", "optional_dependencies", "optional_dependencies_default_values"]
        got = {k: new[0].arg(k, i) for i, k in enumerate(order)}
        for k, w in want.items():
            ctx.check(got[k] == w, f"described:{k}", f.loc(), f"the {k} of a described node is {tstr(got[k] or NONE)[:60]}", p)
        for k, w in (("required_dependencies", ["p", "r"]), ("optional_dependencies", ["q"])):
            it = items(got[k] or NONE)
            ctx.need(it is not None, f"the {k} of a described node are {tstr(got[k] or NONE)[:60]}")
            ctx.check(sorted(x[1] for x in it) == w, f"described:{k}", f.loc(), f"the {k} of a node with required p, r and optional q are {sorted(str(x[1]) for x in it)}", p)
        d = got["optional_dependencies_default_values"]
        ctx.check(d == at_(n, "default_parameter_values") or entries(d or NONE) == {const("q"): V("dq")}, "described:defaults", f.loc(), f"the defaults of a described node are {tstr(d or NONE)[:60]}", p)
    c = own_class(ctx, G + "HamiltonGraph")
    f = ix.find_method(c, "from_graph")
    g = P(names(f)[0])
    for p in paths(ctx, f, None, attrs={(g, "nodes"): D({"a": V("na"), "b": V("nb")})}, opaque=["from_node"]):
        ctx.need(p.kind == "return", "HamiltonGraph.from_graph raises")
        new = [e for e in p.trace if e.kind == "new" and e.name == "HamiltonGraph"]
        ctx.need(len(new) == 1, "HamiltonGraph.from_graph does not build one HamiltonGraph")
        it = items(new[0].arg("nodes", 0) or NONE)
        ctx.need(it is not None, "the nodes of the described graph are not a list the analysis knows")
        es = [ev_of(p, x[1]) if x[0] == "res" else None for x in it]
        ctx.check(sorted(str(list(e.args)) if e is not None and e.name == "from_node" else "?" for e in es) == sorted([str([V("na")]), str([V("nb")])]), "described:graph", f.loc(), f"the description of a graph with nodes a, b holds {[tstr(x)[:40] for x in it]}", p)


def filters(ctx):
    ctx.rule("(filters) a node filter of None lets every node through, a name exactly that node, a list exactly its names, a function what it answers for the node's name and tags; anything else is an error.")
    f = ctx.ix.func(DEF + "should_run_node")
    nm, tags, flt = names(f)
    A = ("str", "list", "callable")
    def run(val, n="a", **kw):
        return paths(ctx, f, bind={nm: const(n), flt: val}, **kw)
    for val in (const("a"), const("abc"), L(const("a")), L(const("abc"), const("b"))):
        for p in run(val, "ab"):
            ctx.check(p.kind == "return" and p.value == FALSE, f"filters:part:{tstr(val)[:30]}", f.loc(), f"node 'ab' with node_filter={tstr(val)} gives {tstr(p.value)[:50]}", p)
    for val, want in ((NONE, True), (const("a"), True), (const("b"), False), (const("ab"), False), (L(const("a"), const("b")), True), (L(const("b")), False), (L(), False), (L(const("ab")), False)):
        for p in run(val):
            if any(k[0] == "isinstance" and k[2][-1] in ("list", "str") and not v and val[0] == "known" for k, v in p.facts.items()):
                ctx.need(False, "should_run_node tests a list in a way the analysis does not follow")
            ctx.check(p.kind == "return" and p.value == const(want), f"filters:{tstr(val)[:30]}", f.loc(), f"node 'a' with node_filter={tstr(val)} gives {tstr(p.value)[:50]}", p)
    W = V("W")
    for p in run(W, assume={("isnone", W): False}):
        isa = {k[2][-1]: v for k, v in p.facts.items() if k[0] == "isinstance" and k[1] == W}
        call = p.facts.get(("callable", W))
        if call and not any(isa.values()):
            e = ev_of(p, p.value[1]) if p.value[0] == "res" else None
            ctx.check(e is not None and [*e.args, *e.kwargs.values()] == [const("a"), P(tags)], "filters:function", f.loc(), f"a filter function is not asked with the node's name and tags, its answer handed back ({tstr(p.value)[:60]})", p)
        elif call is False and not any(isa.values()):
            ctx.check(p.kind == "raise", "filters:invalid", f.loc(), f"an invalid filter gives {tstr(p.value)[:50]}", p)


def builtin(ctx):
    ctx.rule("(builtin) the built-in execution methods run the node's function on exactly its arguments and give what it gives; FunctionInputOutputTypeChecker raises exactly when a checked value does not match and leaves a failed node's error alone; PrintLn only forgets the timer it started; GracefulErrorAdapter gives the sentinel exactly for the errors named, and for nodes whose input is the sentinel.")
    ix = ctx.ix
    n = 0
    for q, m in (("hamilton.base.DefaultAdapter", "do_node_execute"), ("hamilton.base.SimplePythonDataFrameGraphAdapter", "do_node_execute"), ("hamilton.base.SimplePythonGraphAdapter", "do_node_execute"), (DEF + "PDBDebugger", "do_node_execute"), ("hamilton.plugins.h_narwhals.NarwhalsAdapter", "do_node_execute"),
                 ("hamilton_sdk.driver.DefaultExecutionMethod", "do_node_execute"), ("hamilton.plugins.h_dask.DaskGraphAdapter", "do_node_execute"), ("hamilton.plugins.h_ray.RayWorkflowGraphAdapter", "do_node_execute"), ("hamilton.plugins.h_ray.RayGraphAdapter", "do_remote_execute"), ("hamilton.plugins.h_spark.SparkKoalasGraphAdapter", "do_node_execute")):
        c = own_class(ctx, q)
        f = ix.find_method(c, m)
        fn = at_(P("node_"), "callable") if m == "do_node_execute" else P("execute_lifecycle_for_node")
        kws = P("kwargs") if m == "do_node_execute" else P("**kwargs")
        k = 0
        for p in paths(ctx, f, c, inline_modules=["hamilton.lifecycle", "hamilton.base", c.module.name]):
            if p.kind == "raise":
                continue
            k += 1
            e = ev_of(p, p.value[1]) if p.value[0] == "res" else None
            ctx.check(e is not None, f"{c.name}:gives", f.loc(), f"{c.name} gives {tstr(p.value)[:60]} for a node, not what its function gives", p)
            if e is None:
                continue
            ctx.check(list(e.spreads) == [kws], f"{c.name}:arguments", f.loc(), f"{c.name} does not run the node on exactly its arguments ({[tstr(s)[:50] for s in e.spreads]})", p)
            ctx.check(comes_from(p, e, fn), f"{c.name}:function", f.loc(), f"{c.name} does not run the node's own function", p)
            extra = set(e.kwargs) - {"dask_key_name"}
            ctx.check(not extra and all(mentions(a, fn) or a == P("node_") for a in e.args), f"{c.name}:extra", f.loc(), f"{c.name} runs the node with extra arguments {sorted(extra)}", p)
        ctx.need(k, f"{q} never gives a value")
        n += 1
    ctx.count("execution methods", n)


def debugger(ctx):
    ctx.rule("(debugger) PDBDebugger stops exactly at the nodes its filter picks, before, during and after exactly as asked for, and shows there the node's own name, arguments and result.")
    ix = ctx.ix
    c = own_class(ctx, DEF + "PDBDebugger")
    f = ix.find_method(c, "__init__")
    flags = {"before": "run_before_node_execution", "during": "run_to_execute_node", "after": "run_after_node_execution"}
    ctx.need(set(flags) <= set(names(f)), "PDBDebugger takes other options")
    kept = {}
    for p in paths(ctx, f, c):
        for k in flags:
            got = [e for e in p.trace if e.kind == "setattr" and e.args[-1:] == (P(k),)]
            ctx.check(len(got) == 1, f"debugger:{k}", f.loc(), f"PDBDebugger({k}=...) is not kept, once", p)
            kept[k] = got[0].name if got else None
    for k, m in flags.items():
        g = ix.find_method(c, m)
        seen = set()
        for p in paths(ctx, g, c, opaque=["should_run_node"]):
            if p.kind == "raise":
                continue
            ans = [e for e in p.trace if e.name == "should_run_node"]
            on = {p.facts.get(("truthy", ("res", e.uid))) for e in ans}
            flag = p.facts.get(("truthy", at_(SELFT, kept[k] or "?")))
            stops = [e for e in p.trace if e.kind == "call" and (e.qual or "").split(".")[0] == "pdb"]
            want = True if on == {True} and flag else False if False in on or flag is False else None
            ctx.check(want is not None, f"debugger:{k}:asks", g.loc(), f"PDBDebugger.{m} does not depend on both its filter and {k}=", p)
            if want is not None:
                seen.add(want)
                ctx.check(bool(stops) == want, f"debugger:{k}:stops", g.loc(), f"PDBDebugger {'does not stop' if want else 'stops'} at a node that is {'picked' if want else 'not picked'} ({k})", p)
            for e in ans:
                ctx.check([*e.args, *e.kwargs.values()] == [P("node_name"), P("node_tags"), at_(SELFT, "node_filter")], f"debugger:{k}:filter", e.where(), "the filter is not asked about the node", p)
            if k == "during":
                e = ev_of(p, p.value[1]) if p.value[0] == "res" else None
                own = e is not None and list(e.spreads) == [P("node_kwargs")] and not e.kwargs and (e.recv == P("node_callable") and not e.args or list(e.args) == [P("node_callable")] or e.name == "node_callable" and not e.args)
                ctx.check(own, "debugger:during:runs", g.loc(), f"PDBDebugger gives {tstr(p.value)[:60]}, not what the node gives on its arguments", p)
            if stops:
                put = [e for e in p.trace if e.kind == "setattr" and e.name == "CONTEXT"]
                shown = answers_of(put[-1].args[-1]) if put else {}
                ctx.check(all(v == P(n) or v == P("**" + n) for n, v in shown.items()), f"debugger:{k}:context", g.loc(), f"PDBDebugger.CONTEXT shows {[n for n, v in shown.items() if v not in (P(n), P('**' + n))]} as something else", p)
                ctx.check(k != "during" or not put or {"node_name", "node_kwargs"} <= set(shown), f"debugger:{k}:context", g.loc(), "PDBDebugger.CONTEXT lacks the node's name or arguments", p)
        ctx.need(seen == {True, False} or not seen, f"PDBDebugger.{m} is not recognised")


def ray(ctx):
    ctx.rule("(ray) the options a node is run with on Ray are those its tags give, each under its own name, and no other tag.")
    f = ctx.ix.func("hamilton.plugins.h_ray.parse_ray_remote_options_from_tags")
    tags = D({"ray_remote.num_cpus": const("2"), "ray_remotely": const("3"), "owner": const("4"), "ray_remote.a.b": const("5")})
    for p in paths(ctx, f, None, bind={f.params()[0]: tags}):
        got = entries(p.value)
        if got is None:
            ctx.check(not is_const(p.value), "ray:options", f.loc(), f"the options a node is run with are {tstr(p.value)[:50]}", p)
            ctx.need(False, "the options a node is run with are not told exactly")
            continue
        ctx.need(all(is_const(k) for k in got), "the names of the options a node is run with are not told exactly")
        ctx.check(set(got) == {const("num_cpus"), const("a.b")}, "ray:names", f.loc(), f"tags ray_remote.num_cpus, ray_remote.a.b, ray_remotely and owner give options {[tstr(k) for k in got]}", p)
        for k, v in got.items():
            e = ev_of(p, v[1]) if v[0] == "res" else None
            own = {const("num_cpus"): const("2"), const("a.b"): const("5")}.get(k)
            ctx.check(own is None or is_const(v) and str(v[1]) == own[1] or e is not None and e.args[:1] == (own,), "ray:values", f.loc(), f"option {tstr(k)} is {tstr(v)[:40]}, not what its tag says", p)


def answers_of(t):
    b = entries(t)
    return {} if b is None else {k[1]: v for k, v in b.items() if is_const(k)}


def comes_from(p, e, fn, depth=4):
    if e.kind == "call" and e.recv is not None and at_(e.recv, e.name) == fn:
        return True
    if e.recv is not None and (mentions(e.recv, fn) or fn[0] == "attr" and e.recv == fn[1] and e.kind == "callv"):
        return True
    if any(mentions(a, fn) for a in e.args):
        return True
    if any(captures(p, a, fn) for a in e.args):
        return True
    if depth and e.recv is not None and e.recv[0] == "res":
        e2 = ev_of(p, e.recv[1])
        return e2 is not None and comes_from(p, e2, fn, depth - 1)
    return False


def captures(p, a, fn):
    """A closure whose call runs fn."""
    if a[0] not in ("clos", "partial"):
        return False
    K = V("ARGS")
    for q in p.invoke(a, spreads=(K,), raises="none", keep=lambda e: True, keyfacts=lambda k: True):
        e = ev_of(q, q.value[1]) if q.value[0] == "res" else None
        if e is None or not (e.recv is not None and at_(e.recv, e.name) == fn or e.recv == fn or fn[0] == "param" and (e.recv == fn or e.name == fn[1])) or list(e.spreads) != [K]:
            return False
    return True


def checker(ctx):
    ctx.rule("(checker) FunctionInputOutputTypeChecker raises exactly when it is to check and an input, or the result of a node that succeeded, is not an instance of the declared type.")
    ix = ctx.ix
    c = own_class(ctx, DEF + "FunctionInputOutputTypeChecker")
    for args, flag in (("check_input", "check_input"), ("check_output", "check_output")):
        f = ix.find_method(c, "__init__")
        for p in paths(ctx, f, c):
            ctx.check(p.final(SELFT, flag) == P(args), f"checker:{flag}", f.loc(), f"{flag}= becomes {tstr(p.final(SELFT, flag) or NONE)}", p)
    f = ix.find_method(c, "run_before_node_execution")
    ctx.need(f is not None and {"node_kwargs", "node_input_types"} <= set(names(f)), "FunctionInputOutputTypeChecker.run_before_node_execution has other parameters")
    for p in paths(ctx, f, c, bind={"node_kwargs": D({"a": V("va"), "b": V("vb")}), "node_input_types": D({"a": V("ta"), "b": V("tb"), "c": V("tc")})}):
        on = p.facts.get(("truthy", at_(SELFT, "check_input")))
        ans = verdicts(p)
        wrong = [k for k in ans if k not in ((V("va"), V("ta")), (V("vb"), V("tb")))]
        ctx.check(not wrong, "checker:pairs", f.loc(), f"the checker compares {[(tstr(a)[:20], tstr(b)[:20]) for a, b in wrong]}", p)
        if p.kind == "raise":
            ctx.check(on is True and any(v is False for v in ans.values()), "checker:input:raises", f.loc(), f"inputs that match are rejected (check_input {on}, verdicts {list(ans.values())})", p)
        else:
            ctx.need(on is not None, "the checker does not ask whether to check inputs")
            ctx.check(not on or len(ans) == 2 and all(v is True for v in ans.values()), "checker:input:passes", f.loc(), f"inputs pass unchecked or although they do not match ({len(ans)} of 2 checked, {list(ans.values())})", p)
    f = ix.find_method(c, "run_after_node_execution")
    ctx.need(f is not None and {"result", "success", "node_return_type"} <= set(names(f)), "FunctionInputOutputTypeChecker.run_after_node_execution has other parameters")
    for ok in (True, False):
        for p in paths(ctx, f, c, bind={"success": const(ok), "error": NONE if ok else V("err")}, assume={("isnone", V("err")): False}):
            on = p.facts.get(("truthy", at_(SELFT, "check_output")))
            ans = verdicts(p)
            wrong = [k for k in ans if k != (P("result"), P("node_return_type"))]
            ctx.check(not wrong, "checker:result:pairs", f.loc(), f"the checker compares {[(tstr(a)[:20], tstr(b)[:20]) for a, b in wrong]}", p)
            if p.kind == "raise":
                ctx.check(on is True and ok and list(ans.values()) == [False], f"checker:result:raises:{ok}", f.loc(), "the error of a node that failed is replaced by one of the type checker" if not ok else "a result that matches is rejected", p)
            else:
                ctx.check(not on or not ok or list(ans.values()) == [True], "checker:result:passes", f.loc(), "a result that does not match its declared type passes", p)


def verdicts(p):
    return {tuple(e.args[:2]): p.facts.get(("truthy", ("res", e.uid))) for e in p.trace if e.kind == "call" and e.name == "check_instance"}


def timers(ctx):
    ctx.rule("(timers) what PrintLn notes before a node it finds and forgets after the same node, with and without a task; it reports success as success and failure as failure.")
    ix = ctx.ix
    c = own_class(ctx, DEF + "PrintLn")
    pre, post = ix.find_method(c, "run_before_node_execution"), ix.find_method(c, "run_after_node_execution")
    T_ = at_(SELFT, "timer_dict")
    for task in (NONE, const("t1")):
        keys = {}
        for f, ok in ((pre, None), (post, True), (post, False)):
            for p in paths(ctx, f, c, bind={"node_name": const("a"), "task_id": task, **({"success": const(ok)} if ok is not None else {})}, opaque=["should_run_node"], returns=lambda e: TRUE if e.name == "should_run_node" else None):
                ctx.need(p.kind == "return", f"PrintLn.{f.name} raises")
                for e in p.trace:
                    if e.recv == T_ and e.kind in ("setitem", "delitem", "call", "mut"):
                        k = "set" if e.kind == "setitem" or e.name in ("setdefault",) else "del" if e.kind == "delitem" or e.name in ("pop",) else "get"
                        keys.setdefault((f.name, k), set()).add(e.args[0] if e.args else NONE)
                if f is post:
                    said = [e for e in p.trace if e.name == "print_fn"]
                    ctx.check(len(said) == 1, "timers:said", f.loc(), f"PrintLn reports a finished node {len(said)} times", p)
                    txt = str(said[0].args) if said else ""
                    ctx.check(("Success" in txt) == ok and ("Failure" in txt) == (not ok), "timers:status", f.loc(), f"a node that {'succeeded' if ok else 'failed'} is not reported so", p)
        s = keys.get((pre.name, "set"), set())
        ctx.need(len(s) == 1, "PrintLn does not note one start time per node")
        for (who, k), v in keys.items():
            ctx.check(v == s, f"timers:{k}:{'task' if task != NONE else 'no task'}", f"{c.module.rel}:{post.node.lineno}", f"PrintLn notes the start of node a{' of task t1' if task != NONE else ''} under {[tstr(x) for x in s]} and {'forgets' if k == 'del' else 'looks up'} {[tstr(x) for x in v]}")
        ctx.ok(f"timers:{tstr(task)}", "keys agree")


def graceful(ctx):
    ctx.rule("(graceful) GracefulErrorAdapter runs the node unless it may not see sentinels and one of its inputs equals the sentinel; it gives the sentinel (as the only element for a Parallelizable) for the errors named and lets every other error through; it gives the node's own value otherwise; with try_all_parallel the elements made before the error are kept, without it they are not.")
    ix = ctx.ix
    c = own_class(ctx, DEF + "GracefulErrorAdapter")
    f = ix.find_method(c, "__init__")
    for p in paths(ctx, f, c):
        for n in ("error_to_catch", "sentinel_value", "try_all_parallel", "allow_injection"):
            ctx.check(p.final(SELFT, n) == P(n), f"graceful:{n}", f.loc(), f"{n}= becomes {tstr(p.final(SELFT, n) or NONE)}", p)
    f = ix.find_method(c, "run_to_execute_node")
    S = at_(SELFT, "sentinel_value")
    fn = P("node_callable")
    for expand in (False, True):
        for p in paths(ctx, f, c, bind={"is_expand": const(expand), "node_kwargs": D({"a": V("va"), "b": V("vb")})}, raises=lambda e: e.kind in ("callv", "call") and (e.recv is not None and mentions(e.recv, fn) or e.name in ("node_callable", "gen_func"))):
            es = [e for e in p.trace if e.kind in ("callv", "call") and (e.recv is not None and mentions(e.recv, fn) or e.name in ("node_callable", "gen_func")) and e.name != "keywords"]
            allow = p.facts.get(("truthy", at_(SELFT, "allow_injection"))) is True and any(v and k[0] == "eq" and "hamilton.error_sentinel" in str(k) for k, v in p.facts.items())
            hit = [k for k, v in p.facts.items() if v and k[0] == "eq" and S in k[1:3] and (V("va") in k[1:3] or V("vb") in k[1:3])]
            only = [S]
            if not es:
                ctx.need(p.kind == "return", "GracefulErrorAdapter raises of itself")
                ctx.check(bool(hit) and not allow, f"graceful:skipped:{expand}", f.loc(), "a node none of whose inputs is the sentinel, or that may see it, is not run", p)
                ok = p.value == S if not expand else items(p.value) == only
                ctx.check(ok, f"graceful:skipped:value:{expand}", f.loc(), f"a {'Parallelizable ' if expand else ''}node with a sentinel input gives {tstr(p.value)[:60]}", p)
                continue
            e = es[0]
            ctx.check(not hit or allow, f"graceful:run:{expand}", f.loc(), "a node that may not see sentinels is run on one", p)
            for v in (V("va"), V("vb")):
                out = any(x is False and k[0] == "eq" and mentions(k, S) and mentions(k, v) for k, x in p.facts.items())
                ctx.check(allow or out or bool(hit), f"graceful:tested:{expand}", f.loc(), f"a node that may not see sentinels is run without looking whether {v[1][1:]} is one", p)
            sent = {**dict(e.kwargs)}
            ctx.check(len(es) == 1 and (set(sent.items()) == {("a", V("va")), ("b", V("vb"))} or list(e.spreads) == [D({"a": V("va"), "b": V("vb")})]) and not e.args, f"graceful:arguments:{expand}", f.loc(), f"the node is not run once on exactly its arguments ({sorted(sent)})", p)
            raised = [x for x in es if x.outcome == "raise"]
            if not raised:
                if not expand:
                    ctx.check(p.kind == "return" and p.value == ("res", e.uid), "graceful:value", f.loc(), f"a node that succeeds gives {tstr(p.value)[:60]}", p)
                continue
            caught = p.kind == "return"
            if caught:
                ok = p.value == S if not expand else items(p.value) == only
                ctx.check(ok, f"graceful:error:{expand}", f.loc(), f"a {'Parallelizable ' if expand else ''}node that raises a named error gives {tstr(p.value)[:60]}", p)
                named = [v for k, v in p.facts.items() if k[0] == "excis" and k[2] == ("self.error_to_catch",)]
                ctx.check(named == [True], f"graceful:other:{expand}", f.loc(), "an error that is not of the named kind is swallowed", p)
    # a generator that fails after two elements
    r1, r2 = V("r1"), V("r2")
    for both in (True, False):
        for p in paths(ctx, f, c, bind={"is_expand": TRUE, "node_kwargs": D({})}, attrs={(SELFT, "try_all_parallel"): const(both)}, returns=lambda e: ("failing", (r1, r2)) if e.recv is not None and mentions(e.recv, fn) or e.name in ("node_callable", "gen_func") else None):
            if not any(e.kind == "iterfail" for e in p.trace):
                ctx.need(p.kind == "return" and False, "the elements of a Parallelizable are taken in a way the analysis does not follow")
            if p.kind == "raise":
                named = [v for k, v in p.facts.items() if k[0] == "excis" and k[2] == ("self.error_to_catch",)]
                ctx.check(named == [False], "graceful:parallel:raises", f.loc(), "a named error of a Parallelizable is let through", p)
                continue
            it = items(p.value)
            ctx.need(it is not None, f"a failing Parallelizable gives {tstr(p.value)[:60]}")
            ctx.check(it == ([r1, r2, S] if both else [S]), f"graceful:parallel:{both}", f.loc(), f"a Parallelizable that fails after two elements gives {[tstr(x)[:30] for x in it]} with try_all_parallel={both}", p)


PARTS = [("declared", declared), ("collected", collected), ("asks", asks), ("called", called), ("told", told), ("described", described), ("filters", filters), ("builtin", builtin), ("debugger", debugger), ("ray", ray), ("checker", checker), ("timers", timers), ("graceful", graceful)]
