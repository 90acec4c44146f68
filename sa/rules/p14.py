"""P14: every decorator takes effect exactly once, in order, on its targets, and changes nothing it is given."""
import ast

from .common import *
from .effects import Effects

B = "hamilton.function_modifiers.base."
FN, CONFIG, NODES = ("param", "fn"), ("param", "config"), ("param", "nodes")
SELF = ("param", "self")
NONE_ = const(None)
STAGES = ["resolve", "generate", "inject", "expand", "transform", "decorate_nodes"]


def lifecycle_names(ctx):
    """{class: lifecycle name} of all project decorator classes, read off get_lifecycle_name."""
    ix = ctx.ix
    out = {}
    for c in ix.subclasses_of(B + "NodeTransformLifecycle"):
        f = ix.find_method(c, "get_lifecycle_name")
        if f is None or any(d and d.split(".")[-1] == "abstractmethod" for d in f.decorators):
            continue
        vals = {p.value for p in ctx.paths(f, self_cls=c, raises="none")}
        if len(vals) == 1:
            v = vals.pop()
            out[c] = v[1] if v[0] == "const" else None
    return out


def names_known(ctx):
    ctx.rule("(kinds) every decorator class belongs to a lifecycle stage that graph construction applies; the stages collected from a function are exactly those it applies.")
    ix = ctx.ix
    names = lifecycle_names(ctx)
    ctx.need(len(names) >= 20, "decorator classes not found")
    ctx.count("decorator classes", len(names))
    need = {"resolve": "resolve", "generate": "generate_nodes", "inject": "transform_dag", "expand": "transform_dag", "transform": "transform_dag", "decorate_nodes": "transform_dag", "dynamic": "resolve"}
    for c, n in names.items():
        ctx.check(n in need, f"kinds:{c.name}", c.loc(), f"decorator {c.name} belongs to stage {n!r}, which no graph construction applies")
        if n in need and not abstract(ix, c):
            ctx.check(ix.find_method(c, need[n]) is not None, f"kinds:{c.name}:method", c.loc(), f"decorator {c.name} is in stage {n!r} but has no {need[n]}")


def abstract(ix, c):
    return any(b.split(".")[-1] == "ABC" for b in getattr(c, "base_names", ())) or any(d and d.split(".")[-1] == "abstractmethod" for m in c.methods.values() for d in m.decorators) or bool(list(ix.subclasses_of(c.qual)))


def record(ctx):
    ctx.rule("(record) decorating a function validates it, adds the decorator after those already recorded for the stage and returns the same function; a second decorator of a kind that allows one is rejected.")
    ix = ctx.ix
    c = ix.cls(B + "NodeTransformLifecycle")
    f = ix.method(c, "__call__")
    n = r = 0
    for p in ctx.paths(f, self_cls=c, raises="none", inline_modules=[f.module.name]):
        val = [e for e in p.trace if e.name == "validate" and e.recv == SELF]
        has = [v for k, v in p.facts.items() if k[0] == "hasattr" and k[1] == FN]
        multi = [v for k, v in p.facts.items() if k[0] == "truthy" and "allows_multiple" in repr(k[1])]
        if p.kind == "return":
            n += 1
            ctx.check(len(val) >= 1, "record:validated", f.loc(), "a function is decorated without being validated", p)
            ctx.check(p.value == FN, "record:returns", f.loc(), "decorating returns something else than the function", p)
            sets = [e for e in p.trace if e.kind == "setattr" and e.recv == FN]
            ctx.check(len(sets) == 1, "record:once", f.loc(), f"the decorator is recorded {len(sets)} times", p)
            if len(sets) == 1:
                v = sets[0].args[-1]
                els = v[1] if v[0] in ("list", "tuple") else None
                ctx.need(els is not None, "recorded value not recognised")
                own = [i for i, x in enumerate(els) if x[0] == "e" and x[1] == SELF]
                ctx.check(len(own) == 1, "record:self", f.loc(), "the decorator is not recorded exactly once", p)
                if has and has[0]:
                    old = [i for i, x in enumerate(els) if x[0] == "spread"]
                    ctx.check(len(old) == 1, "record:keeps", f.loc(), "decorators recorded before are dropped", p)
                    ctx.check(not old or not own or old[0] < own[0], "record:order", f.loc(), "a decorator is recorded before those applied earlier", p)
            if has and has[0] and multi:
                ctx.check(multi[0], "record:single", f.loc(), "a second decorator of a kind that allows one is accepted", p)
        elif p.kind == "raise":
            r += 1
            ctx.check(bool(has) and has[0], "record:rejects-only-second", f.loc(), "the first decorator of a kind is rejected", p)
    ctx.need(n >= 2, "recording of decorators not recognised")
    ctx.check(r >= 1, "record:single", f.loc(), "a second decorator of a kind that allows one is accepted")


def collected(ctx):
    ctx.rule("(collect) the decorators of a function are those recorded for each stage plus one for each dynamic decorator, grouped by their own stage; a stage without decorators falls back to its default.")
    ix = ctx.ix
    f = ix.func(B + "get_node_decorators")
    n = d = k = 0
    seen = set()
    for p in ctx.paths(f, raises="none", inline_modules=[f.module.name]):
        if p.kind != "return":
            continue
        n += 1
        ctx.need(p.value[0] == "dict", "collection of decorators not recognised")
        keys = [r[1][1] for r in p.value[1] if r[0] == "kv" and r[1][0] == "const"]
        ctx.check(set(keys) == set(STAGES), "collect:stages", f.loc(), f"stages {sorted(set(STAGES) ^ set(keys))} are collected but not applied, or not collected", p)
        for e in p.trace:
            for a in list(e.args) + [s for s in e.spreads]:
                for t in subterms(a):
                    if t[0] == "attr" and t[1] == FN:
                        seen.add(t[2])
                    if t[0] == "pure" and t[1] == "getattr" and t[3][:1] == (FN,) and t[3][1][0] == "const":
                        seen.add(t[3][1][1])
        dyn = [e for e in p.trace if e.name == "resolve" and mentions(e.recv, ("attr", FN, "dynamic"))]
        if p.facts.get(("truthy", ("attr", FN, "dynamic"))):
            d += 1
            ctx.check(len(dyn) == 1, "collect:dynamic", f.loc(), "a dynamic decorator is not resolved", p)
            for e in dyn:
                ctx.check(CONFIG in e.args or CONFIG in e.kwargs.values(), "collect:dynamic-config", e.where(), "a dynamic decorator is resolved without the configuration", p)
                used = any(mentions(a, ("res", e.uid)) for e2 in p.trace if e2 is not e and e2.kind in ("call", "mut") for a in e2.args)
                ctx.check(used or mentions(p.value, ("res", e.uid)), "collect:dynamic-used", e.where(), "the decorator a dynamic decorator resolves to is dropped", p)
        recs = p.value[1]
        for g in (e for e in p.trace if e.name == "get_lifecycle_name"):
            own = [i for i, r in enumerate(recs) if r[0] == "kv" and r[1] == ("res", g.uid)]
            ctx.check(len(own) == 1, "collect:recorded", g.where(), "a decorator of the function is not collected (or the default of its stage is used instead)", p)
            for i in own:
                ctx.check(mentions(recs[i][2], g.recv), "collect:own-stage", g.where(), "a decorator is filed under the stage of another", p)
                ctx.check(all(x[0] == "kv" and x[1][0] != "const" for x in recs[i + 1:]), "collect:defaults", f.loc(), "the default of a stage replaces the decorators of the function", p)
                k += 1
    ctx.need(k, "grouping of decorators by stage not recognised")
    ctx.need(n and d, "collection of decorators not recognised")
    ctx.need(seen & set(STAGES), "where the recorded decorators are read is not recognised")
    ctx.check(set(STAGES) <= seen, "collect:all-stages", f.loc(), f"decorators recorded for {sorted(set(STAGES) - seen)} are never read")


def stages(ctx):
    ctx.rule("(stages) the nodes of a function are made by applying each collected decorator exactly once, in the order resolve, generate, inject, expand, transform, decorate; each gets what the previous one produced, the resolved function and "
             "its own part of the configuration; a function a resolver turns down yields no nodes; the nodes handed out are those of the last decorator, marked with the function they come from.")
    ix = ctx.ix
    f = ix.func(B + "resolve_nodes")
    two, n, empties = set(), 0, 0
    for p in ctx.paths(f, raises="none", inline_modules=[f.module.name], unroll=2, max_paths=20000,
                       opaque=["get_node_decorators", "filter_config", "_add_original_function_to_nodes", "transform_dag", "resolve", "generate_nodes"],
                       keep=lambda e: e.name in ("get_node_decorators", "filter_config", "_add_original_function_to_nodes", "transform_dag", "resolve", "generate_nodes")):
        g = [e for e in p.trace if e.name == "get_node_decorators"]
        ctx.need(len(g) == 1, "collection of decorators not found")
        D = ("res", g[0].uid)
        ctx.check(g[0].args[:2] == (FN, CONFIG) or (g[0].bound or {}).get("config") == CONFIG, "stages:config", g[0].where(), "the decorators are not looked up with the graph's configuration", p)
        ev = [(stage_of(e.recv, D), e) for e in p.trace if e.name in ("resolve", "generate_nodes", "transform_dag")]
        ctx.need(all(s is not None for s, _ in ev), "decorator application not recognised")
        if p.kind != "return":
            continue
        order = [STAGES.index(s) for s, _ in ev]
        ctx.check(order == sorted(order), "stages:order", f.loc(), f"decorators are applied in the order {[s for s, _ in ev]}", p)
        recvs = [e.recv for _, e in ev]
        ctx.check(len(set(recvs)) == len(recvs), "stages:once", f.loc(), "a decorator is applied twice", p)
        for s, e in ev:
            L = ("item", D, const(s))
            seqs = [e.recv] + [x[1] for x in e.loops]
            for t in seqs:
                if not mentions(t, L):
                    continue
                ctx.check(not any(x[0] == "pure" and x[1] in ("reversed", "sorted") or x[0] == "slice" and x[3] != NONE_ for x in subterms(t)), f"stages:{s}-order", e.where(), f"decorators of stage {s} are not applied in the order they were recorded", p)
                ctx.check(not any(x[0] == "slice" and (x[1] != NONE_ or x[2] != NONE_) for x in subterms(t)), f"stages:{s}-all", e.where(), f"some decorators of stage {s} are not applied", p)
            if any(t[0] == "nth" for t in subterms(e.recv)):
                two.add(s)
        cur_fn, cur = FN, None
        excluded = False
        for s, e in ev:
            fc = next((x for x in p.trace if x.name == "filter_config" and any(("res", x.uid) == a for a in list(e.args) + list(e.kwargs.values()))), None)
            ctx.check(fc is not None and CONFIG in fc.args and e.recv in fc.args or passes(e, CONFIG), "stages:own-config", e.where(), "a decorator is not given its own part of the configuration", p)
            if s == "resolve":
                ctx.check(passes(e, cur_fn), "stages:resolve-chain", e.where(), "a resolver is not given the function the previous one resolved to", p)
                cur_fn = ("res", e.uid)
                none = p.facts.get(("isnone", cur_fn))
                if none:
                    excluded = True
                elif none is None:
                    ctx.bad("stages:excluded", e.where(), "a function a resolver turns down is not left out", p)
                continue
            ctx.check(not excluded, "stages:excluded", e.where(), "a function a resolver turns down still yields nodes", p)
            ctx.check(passes(e, cur_fn), "stages:function", e.where(), "a decorator is applied with another function than the resolved one", p)
            if cur is not None:
                ctx.check(any(unwrap(a) == cur for a in list(e.args[:1]) + [e.kwargs.get("nodes")] if a is not None), "stages:chain", e.where(), "a decorator does not get the nodes the previous one produced", p)
            cur = ("res", e.uid)
        if excluded:
            empties += 1
            ctx.check(p.value[0] in ("list", "tuple", "set") and not p.value[1], "stages:excluded", f.loc(), "a function a resolver turns down still yields nodes", p)
            continue
        n += 1
        ctx.check(any(s == "generate" for s, _ in ev), "stages:generate", f.loc(), "nodes are handed out without being generated", p)
        for s in STAGES:
            t = p.facts.get(("truthy", ("item", D, const(s))))
            if t:
                ctx.check(any(x == s for x, _ in ev), f"stages:{s}-applied", f.loc(), f"decorators of stage {s} are not applied", p)
        orig = [e for e in p.trace if e.name == "_add_original_function_to_nodes"]
        ctx.check(len(orig) == 1 and passes(orig[0], cur) and passes(orig[0], cur_fn) and unwrap(p.value) == ("res", orig[0].uid), "stages:result", f.loc(), "the nodes handed out are not those the last decorator produced, marked with their function", p)
    ctx.need(n and empties, "application of decorators not recognised")
    for s in ("resolve", "inject", "transform", "decorate_nodes"):
        ctx.check(s in two, f"stages:{s}-all", f.loc(), f"only one decorator of stage {s} is applied")
    f = ix.func(B + "_add_original_function_to_nodes")
    k = 0
    for p in ctx.paths(f, raises="none", inline_modules=[f.module.name], keyfacts=lambda kk: True):
        cw = [e for e in p.trace if e.name == "copy_with"]
        for e in cw:
            k += 1
            v = e.kwargs.get("originating_functions")
            ctx.check(e.recv == ("elem", NODES) and v is not None and mentions(v, FN), "stages:origin", e.where(), "a node is not marked with the function it comes from", p)
            has = p.facts.get(("isnone", ("attr", ("elem", NODES), "originating_functions")))
            if has is not True and v is not None and not p.facts.get(("truthy", ("attr", ("elem", NODES), "originating_functions"))) is False:
                ctx.check(mentions(v, ("attr", ("elem", NODES), "originating_functions")), "stages:origin-kept", e.where(), "functions a node came from before are forgotten", p)
            ctx.check(set(e.kwargs) <= {"originating_functions", "include_refs"}, "stages:origin-only", e.where(), "marking a node with its function changes something else", p)
    ctx.need(k, "marking of nodes not recognised")


def passes(e, t):
    return t is not None and any(unwrap(a) == t for a in list(e.args) + list(e.kwargs.values()))


def stage_of(t, D):
    for x in subterms(t):
        if x[0] == "item" and x[1] == D and x[2][0] == "const":
            return x[2][1]
    return None


def targets(ctx):
    ctx.rule("(targets) a transforming decorator transforms each of its targets exactly once and keeps every other node as it is; targets that do not exist are an error; without a target the final nodes are meant. "
             "An injecting decorator adds its nodes and re-routes exactly the nodes that use the injected parameters.")
    ix = ctx.ix
    c = ix.cls(B + "NodeTransformer")
    n = 0
    for k in [c] + list(ix.subclasses_of(B + "NodeTransformer")):
        f = ix.find_method(k, "transform_dag")
        if f is None or not k.module.name.startswith("hamilton"):
            continue
        seen_two = False
        for p in ctx.paths(f, self_cls=k, raises="none", inline_modules=[f.module.name], opaque=["select_nodes", "transform_node"], unroll=2):
            s = [e for e in p.trace if e.name == "select_nodes"]
            if p.kind != "return":
                continue
            ctx.need(len(s) == 1, f"{k.name}.transform_dag not recognised")
            S = ("res", s[0].uid)
            ctx.check(passes(s[0], NODES) and passes(s[0], ("attr", SELF, "target")), f"targets:{k.name}:selected", s[0].where(), "the targets are not selected among the given nodes by the decorator's target", p)
            tr = [e for e in p.trace if e.name == "transform_node"]
            n += 1
            ctx.need(p.value[0] in ("list", "tuple"), "result of transform_dag not recognised")
            recs = p.value[1]
            seen_two = seen_two or len(tr) > 1
            for e in tr:
                ctx.check(any(mentions(a, S) for a in e.args), f"targets:{k.name}:only-targets", e.where(), "a node that is not a target is transformed", p)
                hit = [r for r in recs if mentions(r, ("res", e.uid))]
                ctx.check(len(hit) == 1, f"targets:{k.name}:result", f.loc(), "the result of transforming a target is not in the graph (or twice)", p)
            ctx.check(len({e.args[0] for e in tr if e.args}) == len(tr), f"targets:{k.name}:once", f.loc(), "a target is transformed twice", p)
            if p.facts.get(("truthy", S)):
                ctx.check(bool(tr), f"targets:{k.name}:all", f.loc(), "a target is not transformed", p)
            kept = [r for r in recs if r[0] == "e" and r[1] == ("elem", NODES)]
            ctx.check(len(kept) == 1, f"targets:{k.name}:others", f.loc(), "nodes that are not targets are not kept", p)
            for r in kept:
                EL, NM = ("elem", NODES), ("attr", ("elem", NODES), "name")
                names = ("attr", ("elem", S), "name")
                neg = guard_has(r, lambda kk, v: v is False and kk[0] == "in" and (kk[1] == EL and mentions(kk[2], S) or kk[1] == NM and mentions(kk[2], names) and not any(x[0] in ("call", "pure", "item", "meth") and mentions(x, names) for x in subterms(kk[2]))))
                if not neg:
                    ctx.need(not guard_has(r, lambda kk, v: mentions(kk, S)), "which nodes are kept is not recognised")
                ctx.check(neg, f"targets:{k.name}:kept-not-target", f.loc(), "a target is kept untransformed beside its transformation, or another node is dropped", p)
        if k.qual != c.qual and ix.find_method(k, "transform_targets").qual != ix.find_method(c, "transform_targets").qual:
            continue
        ctx.check(seen_two, f"targets:{k.name}:every", f.loc(), "only one of the targets is transformed")
    ctx.need(n, "transform_dag not recognised")
    select(ctx, c)
    inject(ctx)


def select(ctx, c):
    ix = ctx.ix
    f = ix.method(c, "select_nodes")
    T = ("param", "target")
    NAME = ("attr", ("elem", NODES), "name")
    kinds = set()
    for p in ctx.paths(f, self_cls=c, raises="none", inline_modules=[f.module.name]):
        isnone = p.facts.get(("isnone", T))
        ell = [v for k, v in p.facts.items() if k[0] == "eq" and mentions(k, T) and "Ellipsis" in repr(k)]
        strs = p.facts.get(("isinstance", T, ("global", "str")))
        if strs is None:
            strs = next((v for k, v in p.facts.items() if k[0] == "isinstance" and k[1] == T and "str" in repr(k[2])), None)
        if isnone is False and strs:
            if p.kind == "return":
                kinds.add("str")
                recs = p.value[1] if p.value[0] in ("list", "tuple") else ()
                ok = len(recs) == 1 and recs[0][1] == ("elem", NODES) and guard_has(recs[0], lambda k, v: v and k[0] == "eq" and set(k[1:]) == {NAME, T})
                ctx.check(ok, "select:name", f.loc(), "a target given by name does not select exactly the node of that name", p)
                ctx.check(any(v and k[0] == "truthy" and k[1] == p.value for k, v in p.facts.items()) or any(k[0] in ("eq", "lt") and "len" in repr(k) for k in p.facts), "select:missing", f.loc(), "a target that does not exist is ignored", p)
        elif isnone is False and p.kind == "return" and ell and ell[0]:
            kinds.add("all")
            ctx.check(unwrap(p.value) == NODES, "select:all", f.loc(), "a decorator on everything does not select all nodes", p)
        elif isnone is False and p.kind == "return" and strs is False:
            kinds.add("many")
            recs = p.value[1] if p.value[0] in ("list", "tuple") else ()
            ok = len(recs) == 1 and recs[0][1] == ("elem", NODES) and guard_has(recs[0], lambda k, v: v and k[0] == "in" and k[1] == NAME and unwrap(k[2]) == T)
            ctx.check(ok, "select:names", f.loc(), "targets given by name do not select exactly the nodes of those names", p)
            cnt = any(v and k[0] == "eq" and "len" in repr(k) for k, v in p.facts.items())
            sub = any("Sub" in repr(k) or "issubset" in repr(k) or "difference" in repr(k) for k in p.facts)
            ctx.check(cnt or sub, "select:missing", f.loc(), "targets that do not exist are ignored", p)
        elif isnone and p.kind == "return" and p.value[0] in ("list", "tuple") and p.value[1]:
            has = any(v and k[0] == "truthy" and k[1][0] == "attr" and k[1][2] == "input_types" for k, v in p.facts.items())
            for r in p.value[1]:
                if r[0] != "e" or r[1] != ("elem", NODES):
                    continue
                dep = guard_has(r, lambda k, v: v is False and k[0] == "in" and k[1] == NAME and "input_types" in repr(k[2]))
                pos = guard_has(r, lambda k, v: v is True and k[0] == "in" and k[1] == NAME and "input_types" in repr(k[2]))
                if dep:
                    kinds.add("final")
                ctx.check(not pos and (dep or not has), "select:final", f.loc(), "a node that others of the same function depend on is taken for a final one", p)
    ctx.need({"str", "all", "many", "final"} <= kinds, f"selection of targets not recognised {kinds}")


def inject(ctx):
    ix = ctx.ix
    c = ix.cls(B + "NodeInjector")
    f = ix.method(c, "transform_dag")
    n = 0
    for p in ctx.paths(f, self_cls=c, raises="none", inline_modules=[f.module.name], opaque=["inject_nodes", "find_injectable_params", "reassign_inputs"]):
        if p.kind != "return":
            continue
        i = [e for e in p.trace if e.name == "inject_nodes"]
        ctx.need(len(i) == 1 and p.value[0] in ("list", "tuple"), "injection not recognised")
        R = ("res", i[0].uid)
        NEW, MAP = ("item", R, const(0)), ("item", R, const(1))
        fp = [e for e in p.trace if e.name == "find_injectable_params"]
        ctx.check(len(fp) == 1 and passes(fp[0], NODES) and passes(i[0], ("res", fp[0].uid)) and passes(i[0], CONFIG) and passes(i[0], FN), "inject:params", i[0].where(), "the injecting decorator is not asked with the parameters of the given nodes", p)
        recs = p.value[1]
        new = [r for r in recs if r[0] == "spread" and r[1] == NEW]
        ctx.check(len(new) == 1, "inject:added", f.loc(), "the injected nodes are not added (exactly once)", p)
        if not p.facts.get(("truthy", NODES)):
            continue
        n += 1
        own = [r for r in recs if r not in new]
        ctx.check(len(own) == 1, "inject:kept", f.loc(), "a node is dropped or duplicated by an injecting decorator", p)
        for r in own:
            ri = [e for e in p.trace if e.name == "reassign_inputs" and r[1] == ("res", e.uid)]
            if ri:
                ctx.check(ri[0].recv == ("elem", NODES) and (ri[0].kwargs.get("input_names") == MAP or ri[0].args[:1] == (MAP,)), "inject:rename", ri[0].where(), "a node is re-routed by another map than the injected parameters", p)
            else:
                ctx.check(r[1] == ("elem", NODES), "inject:kept", f.loc(), "a node is replaced by something else", p)
                off = any(v is False and mentions(k, ("elem", NODES)) and mentions(k, MAP) for k, v in p.facts.items()) or any(v is False and k == ("truthy", MAP) for k, v in p.facts.items())
                ctx.check(off, "inject:rename-all", f.loc(), "a node that uses an injected parameter is not re-routed", p)
    ctx.need(n, "injection not recognised")
    f = ix.method(c, "find_injectable_params")
    k = 0
    IT = ("attr", ("elem", NODES), "input_types")
    for p in ctx.paths(f, self_cls=c, raises="none", inline_modules=[f.module.name]):
        if p.kind != "return" or p.value[0] != "dict":
            continue
        for r in p.value[1]:
            if r[0] != "kv":
                continue
            k += 1
            ctx.check(r[1] == ("key", IT), "inject:free-params", f.loc(), "what can be injected are not the inputs of the nodes", p)
            guard = any(v is False and kk[0] == "in" and kk[1] == ("key", IT) for kk, v in p.facts.items()) or guard_has(r, lambda kk, v: v is False and kk[0] == "in" and kk[1] == ("key", IT))
            ctx.check(guard, "inject:free-only", f.loc(), "an input another node of the function provides can be injected over", p)
    ctx.need(k, "find_injectable_params not recognised")


def copies(ctx):
    ctx.rule("(copies) copying a node keeps each constructor field not overridden, lets overrides win, and shares neither tags nor input types with the original.")
    ix = ctx.ix
    c = ix.cls("hamilton.node.Node")
    init = ix.method(c, "__init__")
    fields = [a.arg for a in init.node.args.args + init.node.args.kwonlyargs][1:]
    src = field_sources(ctx, c, init, fields)
    f = ix.method(c, "copy_with")
    n = 0
    OV = ("param", "**overrides")
    for p in ctx.paths(f, self_cls=c, raises="none", inline_modules=[f.module.name]):
        if p.kind != "return":
            continue
        new = [e for e in p.trace if e.kind == "new" and e.name == "Node"]
        ctx.need(len(new) == 1, "copy_with not recognised")
        e = new[0]
        n += 1
        got = {}
        over = False
        for t in list(e.spreads):
            for L in dict_layers(t):
                if L[0] == "kv" and L[1][0] == "const":
                    got[L[1][1]] = L[2]
                elif L == OV:
                    over = True
        got.update({k: v for k, v in (e.bound or e.kwargs).items()})
        ctx.check(over or OV in e.spreads, "copy:overrides", f.loc(), "overrides given for a copy are ignored", p)
        order(ctx, f)
        for fld in fields:
            if fld == "namespace" and fld not in got:
                continue  # the full name is carried by `name`
            v = got.get(fld)
            ctx.check(v is not None, f"copy:{fld}", f.loc(), f"a copied node loses its {fld}", p)
            if v is None:
                continue
            want = src.get(fld)
            ctx.check(want is None or any(mentions(v, w) for w in want) or fld == "optional_values" and v[0] == "dict" and not v[1], f"copy:{fld}-own", f.loc(), f"the {fld} of a copied node is {tstr(v)}", p)
            if fld in ("tags", "input_types"):
                ctx.check(v[0] in ("dict", "copy"), f"copy:{fld}-independent", f.loc(), f"a copied node shares its {fld} with the original: changing one changes the other", p)
        ctx.check(any(e2.uid in repr(p.value) for e2 in new), "copy:returned", f.loc(), "the copy is not what is returned", p)
    ctx.need(n, "copy_with not recognised")


def order(ctx, f):
    """Overrides must come after the copied fields in the dict handed to the constructor."""
    for p in ctx.paths(f, self_cls=ctx.ix.cls("hamilton.node.Node"), raises="none", inline_modules=[f.module.name]):
        for e in p.trace:
            if e.kind == "mut" and e.name == "update" and e.recv is not None and e.recv[0] == "dict":
                recs = e.recv[1]
                ov = [i for i, r in enumerate(recs) if r[0] == "spread" and r[1] == ("param", "**overrides")]
                kv = [i for i, r in enumerate(recs) if r[0] == "kv"]
                if ov and kv:
                    ctx.check(ov[-1] > max(kv), "copy:overrides-win", f.loc(), "a copied field wins over an override", p)


def field_sources(ctx, c, init, fields):
    """{ctor field: terms of self that hold it}, read off the constructor."""
    out = {}
    for p in ctx.paths(init, self_cls=c, raises="none", inline_modules=[init.module.name]):
        for e in p.trace:
            if e.kind == "setattr" and e.recv == SELF:
                for fld in fields:
                    if any(mentions(a, ("param", fld)) for a in e.args):
                        out.setdefault(fld, set()).add(("attr", SELF, e.name))
    out.setdefault("input_types", set()).add(("attr", SELF, "_input_types"))
    return out


def untouched(ctx):
    ctx.rule("(effects) no decorator changes the nodes it is given (tags, input types, names, callables) or the lists it is given them in; changes are made on copies.")
    ix = ctx.ix
    mods = lambda m: m.startswith("hamilton.function_modifiers") or m == "hamilton.node" or m.startswith("hamilton.plugins.h_") or m == "hamilton.models"
    eff = Effects(ctx, mods)
    n = 0
    METHODS = ("expand_node", "transform_node", "decorate_node", "inject_nodes", "transform_dag", "transform_targets", "generate_nodes", "validate_node", "select_nodes", "compliment")
    for c in ix.subclasses_of(B + "NodeTransformLifecycle"):
        for m in METHODS:
            f = c.methods.get(m) if hasattr(c, "methods") else None
            if f is None or any(d and d.split(".")[-1] == "abstractmethod" for d in f.decorators):
                continue
            n += 1
            try:
                out = eff.of(f, c)
            except RecursionError:
                ctx.need(False, f"recursion in {f.qual}")
            for (r, ch), (w, p) in out.items():
                if r[0] != "param" or r[1] == "self":
                    continue
                if r[1] in ("node_", "nodes", "targets", "all_nodes", "nodes_to_transform", "params", "config", "configuration"):
                    ctx.bad(f"effects:{c.name}.{m}:{r[1]}.{'.'.join(ch)}", w, f"{c.name}.{m} changes {r[1]}.{'.'.join(ch)}, which it was given", p)
                    continue
            ctx.ok(f.loc(), f"effects:{c.name}.{m}")
    ctx.need(n >= 20, f"decorator methods not found ({n})")
    for q, why in eff.broken:
        ctx.undecided.append({"part": f"effects of {q}", "reason": why})


def rebuild(ctx):
    ctx.rule("(rebuild) a resolver that renames the function it is given gives it the same name however often the graph is built: the suffix is taken off the name the function was defined with, once.")
    ix = ctx.ix
    n = 0
    for c in ix.subclasses_of(B + "NodeResolver"):
        f = c.methods.get("resolve")
        if f is None:
            continue
        for p in ctx.paths(f, self_cls=c, raises="none", inline_modules=[f.module.name, "hamilton.function_modifiers.base"], opaque=["does_resolve"]):
            for e in p.trace:
                if e.kind != "setattr" or e.recv != FN or e.name != "__name__":
                    continue
                n += 1
                v = e.args[-1]
                cur = ("attr", FN, "__name__")
                if v == cur or not mentions(v, cur):
                    continue
                once = any(k[0] == "hasattr" and k[1] == FN and val is False for q in p.trace[:p.trace.index(e) + 1] for k, val in q.nfacts.items())
                ctx.check(once, f"rebuild:{c.name}", e.where(), "each time a graph is built the function's name is cut once more: a second graph from the same module has other nodes", p)
    ctx.need(n, "renaming of resolved functions not found")


PARTS = [("kinds", names_known), ("record", record), ("collect", collected), ("stages", stages), ("targets", targets), ("copies", copies), ("effects", untouched), ("rebuild", rebuild)]
