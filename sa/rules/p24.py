"""P24: materializers, extractors and registered adapters are wired as declared."""
from ..interp import is_const
from .common import *
from .p15 import SELFT
from .p21 import ev_of

DA, A, M, DR = "hamilton.io.data_adapters.", "hamilton.function_modifiers.adapters.", "hamilton.io.materialization.", "hamilton.driver."
MISSING = ("global", "dataclasses.MISSING")


def names(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def V(n):
    return ("sym", n)


def L(*xs):
    return ("known", "list", xs)


def T(*xs):
    return ("known", "tuple", xs)


def D(d):
    return ("known", "dict", tuple((const(k) if isinstance(k, str) else k, v) for k, v in d.items()))


def paths(ctx, f, c=None, **kw):
    ctx.functions.add(f.qual)
    kw = {**dict(raises="none", inline_modules=[f.module.name], keyfacts=lambda k: True, keep=lambda e: True, keyev=lambda e: True, max_paths=20000), **kw}
    return ctx.paths(f, self_cls=c, **kw)


def items(t):
    """The elements of a list, tuple or set value when it has exactly known ones."""
    if t[0] in ("list", "tuple", "set") and all(e[0] == "e" and not e[2][1] for e in t[1]):
        return [e[1] for e in t[1]]
    return None


def entries(t):
    if t[0] == "dict" and all(e[0] == "kv" and not e[3][1] for e in t[1]):
        return {e[1]: e[2] for e in t[1]}
    return None


def answers(p, name):
    """What the calls named `name` answered on a path: {(receiver, args): True/False}, from the tests made on their results."""
    out = {}
    for e in p.trace:
        if e.kind == "call" and e.name == name:
            v = p.facts.get(("truthy", ("res", e.uid)))
            if v is not None:
                out[(e.recv,) + tuple(e.args) + tuple(v2 for _, v2 in sorted(e.kwargs.items()))] = v
    return out


def registered(ctx):
    ctx.rule("(registered) registering an adapter appends it to the loaders of its name exactly when it can load and to the savers of its name exactly when it can save.")
    f = ctx.ix.func("hamilton.registry.register_adapter")
    a = ("param", names(f)[0])
    for p in paths(ctx, f, pure=["name"]):
        if p.kind != "return":
            continue
        for able, reg in (("can_load", "LOADER_REGISTRY"), ("can_save", "SAVER_REGISTRY")):
            can = answers(p, able).get((a,))
            at = ("item", ("global", "hamilton.registry." + reg), ("pure", "name", a, (), ()))
            n = sum(e.kind in ("call", "mut") and e.name == "append" and e.recv == at and list(e.args) == [a] for e in p.trace)
            other = [e for e in p.trace if e.name in ("append", "extend", "insert", "[]=", "setdefault") and e.recv is not None and mentions(e.recv, ("global", "hamilton.registry." + reg)) and not (e.name == "append" and e.recv == at)]
            for e in other:
                lost = e.name == "[]=" and not mentions(e.args[-1], ("global", "hamilton.registry." + reg)) or e.name == "insert" and list(e.args[:1]) == [const(0)]
                ctx.check(not lost, f"register:{able}:order", f.loc(), f"registering an adapter in {reg} {'drops the ones registered before' if e.name == '[]=' else 'puts it before the ones registered earlier'}", p)
            other = [e for e in other if not (e.name == "[]=" and not mentions(e.args[-1], ("global", "hamilton.registry." + reg)) or e.name == "insert" and list(e.args[:1]) == [const(0)])]
            ctx.need(not other, f"the registry is filled in a way the analysis does not follow ({other[0].where() if other else ''})")
            ctx.need(can is not None, f"register_adapter adds to {reg} without asking {able}()")
            ctx.check(n == (1 if can else 0), f"register:{able}:{can}", f.loc(), f"an adapter for which {able}() is {can} is added {n} times to {reg}[its name]", p)


def choose(ctx):
    ctx.rule("(choose) of the adapters registered under a name the one used is the last registered that applies to the type; one declared for Any is used only when no other applies, and the last such; none is chosen when none applies.")
    f = ctx.ix.func(A + "resolve_adapter_class")
    ctx.need(len(names(f)) == 2, "resolve_adapter_class(type, adapters) has other parameters")
    ty, ls = names(f)
    n = 0
    for size in (0, 1, 3):
        K = [V(x) for x in "ABC"[:size]]
        for p in paths(ctx, f, bind={ls: L(*K)}):
            n += 1
            ctx.need(p.kind == "return", "resolve_adapter_class raises")
            ap = answers(p, "applies_to")
            fits = {k: ap.get((k, ("param", ty))) for k in K}
            anys = {}
            for e in p.trace:
                if e.kind == "call" and e.name == "applicable_types" and e.recv in K:
                    r = ("res", e.uid)
                    v = [v for k, v in p.facts.items() if k[0] == "in" and k[2] == r and k[1] == ("global", "typing.Any")]
                    if v:
                        anys[e.recv] = v[0]
            for k in K:
                if all(x in (False,) for x in (fits[k],)) and anys.get(k) is None:
                    pass
            if p.value == NONE:
                ok = all(fits[k] is False for k in K) and all(anys.get(k) is False for k in K)
            elif p.value in K:
                i = K.index(p.value)
                ok = fits[p.value] is True and all(fits[k] is False for k in K[i + 1:])
                ok = ok or all(fits[k] is False for k in K) and anys.get(p.value) is True and all(anys.get(k) is False for k in K[i + 1:])
            else:
                ctx.need(False, f"resolve_adapter_class returns {tstr(p.value)[:80]}")
            ctx.check(ok, "choose", f.loc(), f"of the adapters A, B, C (registered in this order; applying: {show(fits)}; declared for Any: {show(anys)}) {tstr(p.value)} is used", p)
    ctx.count("orders", n)


def show(d):
    return ", ".join(f"{tstr(k)[5:-1]}={v}" for k, v in d.items())


def arguments(ctx):
    ctx.rule("(arguments) an adapter's required arguments are exactly its dataclass fields without a default and without a default factory, its optional ones exactly the others; a None or falsy default is a default.")
    ix = ctx.ix
    c = ix.cls(DA + "AdapterCommon")
    fs = [("req", MISSING, MISSING), ("five", const(5), MISSING), ("none", NONE, MISSING), ("zero", const(0), MISSING), ("made", MISSING, V("factory")), ("req2", MISSING, MISSING)]
    at, assume = {}, {}
    for n, d, df in fs:
        at[(V(n), "name")], at[(V(n), "default")], at[(V(n), "default_factory")] = const(n), d, df
    for x in (const(5), const(0), NONE, V("factory")):
        assume[("eq", x, MISSING)] = assume[("eq", MISSING, x)] = False
    assume[("isnone", MISSING)] = assume[("isnone", V("factory"))] = False
    assume[("truthy", MISSING)] = assume[("truthy", V("factory"))] = True
    need = {n for n, d, df in fs if d == MISSING and df == MISSING}
    for m, want in (("get_required_arguments", need), ("get_optional_arguments", {n for n, _, _ in fs} - need)):
        f = ix.find_method(c, m)
        k = 0
        for p in paths(ctx, f, c, attrs=at, assume=assume, returns=lambda e: T(*[V(n) for n, _, _ in fs]) if e.name == "fields" else None, pure=["get_type_hints", "get"], keyfacts=lambda k: k[0] != "in"):
            if p.kind != "return":
                continue
            got = entries(p.value)
            ctx.need(got is not None and all(is_const(x) for x in got), f"{m}() does not return a table the analysis knows")
            k += 1
            ctx.check({x[1] for x in got} == want, f"arguments:{m}", f.loc(), f"{m}() of an adapter with fields a) no default b) defaults 5, None, 0 c) a default factory gives {sorted(x[1] for x in got)}, not {sorted(want)}", p)
        ctx.need(k, f"{m}() never returns")
    for name, want in (("DataLoader", ("can_load",)), ("DataSaver", ("can_save",)), ("AdapterCommon", ())):
        for m in ("can_load", "can_save"):
            k = ix.cls(DA + name)
            f = ix.find_method(k, m)
            for p in paths(ctx, f, k):
                ctx.check(p.kind == "return" and p.value == const(m in want), f"able:{name}.{m}", f.loc(), f"{name}.{m}() is {tstr(p.value)}", p)


def validated(ctx):
    ctx.rule("(validated) an adapter is used only with every required argument given and no argument it does not have; a loader is built only from a class that can load, a saver only from one that can save, from exactly the resolved arguments.")
    ix = ctx.ix
    c = ix.cls(A + "AdapterFactory")
    f = ix.find_method(c, "validate")
    tables = {"get_required_arguments": {"r", "s"}, "get_optional_arguments": {"o", "u"}}
    for given, ok in (((), 0), (("r",), 0), (("r", "s"), 1), (("r", "s", "o"), 1), (("s", "r", "u", "o"), 1), (("r", "s", "x"), 0), (("r", "o"), 0), (("r", "s", "o", "x"), 0), (("o",), 0), (("x",), 0), (("r", "x", "s", "y"), 0)):
        ps = paths(ctx, f, c, attrs={(SELFT, "kwargs"): D({k: V("v" + k) for k in given})}, returns=lambda e: D({k: V("t" + k) for k in sorted(tables[e.name])}) if e.name in tables else None)
        ctx.need(all(p.kind in ("return", "raise") for p in ps) and len({p.kind for p in ps}) == 1, f"validate() is not decided for the arguments {given}")
        ctx.check((ps[0].kind == "return") == bool(ok), f"validate:{','.join(given)}", f.loc(), f"an adapter requiring r and s, with optional o and u, given {list(given)} is {'accepted' if not ok else 'rejected'}", ps[0])
    for m, able in (("create_loader", "can_load"), ("create_saver", "can_save")):
        f = ix.find_method(c, m)
        n = 0
        for p in paths(ctx, f, c):
            can = answers(p, able).get((("attr", SELFT, "adapter_cls"),))
            ctx.need(can is not None, f"{m}() does not ask {able}()")
            if not can:
                ctx.check(p.kind == "raise", f"{m}:unable", f.loc(), f"{m}() builds an adapter whose {able}() is False", p)
                continue
            n += 1
            ctx.need(p.kind == "return", f"{m}() raises for an able adapter")
            e = ev_of(p, p.value[1]) if p.value[0] == "res" else None
            ns = names(f)[1:] + ([f.node.args.kwarg.arg] if f.node.args.kwarg else [])
            ctx.need(len(ns) == 1, f"{m}() takes something else than the resolved arguments")
            kws = ("param", ns[0])
            ok = e is not None and (e.name == "adapter_cls" and e.recv == SELFT or e.recv is None and e.name == "adapter_cls") and not e.args and not e.kwargs and list(e.spreads) in ([kws], [("param", "**" + kws[1])])
            ctx.check(ok, f"{m}:built", f.loc(), f"{m}() does not return adapter_cls(**resolved arguments) but {tstr(p.value)[:80]}", p)
        ctx.need(n, f"{m}() never builds")


def applies(ctx):
    ctx.rule("(applies) a loader applies to a type exactly when one of the types it declares is a subclass of that type; a saver exactly when the type is a subclass of one of the types it declares, or is the union of all of them.")
    ix = ctx.ix
    for name, first in (("DataLoader", "declared"), ("DataSaver", "asked")):
        c = ix.cls(DA + name)
        f = ix.find_method(c, "applies_to")
        ty = ("param", names(f)[1])
        for size in (0, 1, 2):
            K = [V(f"T{i + 1}") for i in range(size)]
            uni = ("item", ("global", "typing.Union"), ("tuple", tuple(("e", k, ("L", ())) for k in K)))
            for p in paths(ctx, f, c, returns=lambda e: L(*K) if e.name == "applicable_types" else None, pure=["applicable_types"] if False else ()):
                ctx.need(p.kind == "return", f"{name}.applies_to raises")
                ans = answers(p, "custom_subclass_check")
                ans.update(answers(p, "issubclass"))
                wrong = [k for k in ans if (k[1] if first == "asked" else k[2]) != ty or (k[2] if first == "asked" else k[1]) not in K]
                ctx.check(not wrong, f"applies:{name}:direction", f.loc(), f"{name}.applies_to asks whether {tstr(wrong[0][1]) if wrong else ''} is a subclass of {tstr(wrong[0][2]) if wrong else ''}", p)
                if wrong:
                    continue
                by = {(k[2] if first == "asked" else k[1]): v for k, v in ans.items()}
                union = any(v and k[0] == "eq" and ty in k[1:3] and any(mentions(x, ("global", "typing.Union")) for x in k[1:3]) and all(mentions(k, t) for t in K) for k, v in p.facts.items())
                val = truth_of(p)
                ctx.need(val is not None, f"{name}.applies_to returns {tstr(p.value)[:60]}")
                ok = (any(by.values()) or union and name == "DataSaver" and size > 1) if val else all(by.get(k) is False for k in K)
                ctx.check(ok, f"applies:{name}:{val}", f.loc(), f"{name}.applies_to answers {val} when it declares {[tstr(k)[5:-1] for k in K]} and the subclass checks gave {show(by)}", p)
        f = ix.find_method(c, "applicable_types")


def truth_of(p):
    if p.value in (TRUE, FALSE):
        return p.value == TRUE
    if p.value[0] == "res":
        return p.facts.get(("truthy", p.value))
    return None


def given(ctx):
    ctx.rule("(given) an argument of a materializer or extractor that is a dependency (source(), value()) is kept, any other becomes value(argument); none is lost, renamed or mixed up.")
    ix = ctx.ix
    f = ix.func(M + "process_kwargs")
    SD = ("global", ix.cls("hamilton.function_modifiers.dependencies.SingleDependency").qual)
    for p in paths(ctx, f, bind={names(f)[0]: D({"a": V("va"), "b": V("vb")})}):
        ctx.need(p.kind == "return", "process_kwargs raises")
        got = entries(p.value)
        ctx.need(got is not None, "process_kwargs does not return a table the analysis knows")
        ctx.check({k[1] for k in got} == {"a", "b"}, "given:keys", f.loc(), f"arguments a and b become {sorted(str(k[1]) for k in got)}", p)
        for k, v in got.items():
            if k[1] not in ("a", "b"):
                continue
            is_dep = p.facts.get(("isinstance", V("v" + k[1]), SD))
            ctx.need(is_dep is not None, f"process_kwargs does not ask whether {k[1]} is a dependency")
            wrapped = False
            if v[0] == "res":
                e = ev_of(p, v[1])
                wrapped = e is not None and e.name == "value" and [*e.args, *e.kwargs.values()] == [V("v" + k[1])]
            ctx.check(v == V("v" + k[1]) if is_dep else wrapped, f"given:{'dependency' if is_dep else 'literal'}", f.loc(), f"argument {k[1]}, {'a' if is_dep else 'not a'} dependency, becomes {tstr(v)[:60]}", p)
    for name, fields in (("ExtractorFactory", (("target", 0), ("loaders", 1))), ("MaterializerFactory", (("id", 0), ("savers", 1), ("result_builder", 2), ("dependencies", 3)))):
        c = ix.cls(M + name)
        f = ix.find_method(c, "__init__")
        kws = [n for n in ("data_loader_kwargs", "data_saver_kwargs") if n in (f.node.args.kwarg.arg if f.node.args.kwarg else "",)]
        ctx.need(f.node.args.kwarg is not None, f"{name}() takes no keyword arguments")
        kw = ("param", "**" + f.node.args.kwarg.arg)
        for p in paths(ctx, f, c, opaque=["process_kwargs"]):
            ctx.need(p.kind == "return", f"{name}() raises")
            for n, i in fields:
                ctx.check(p.final(SELFT, n) == ("param", n), f"{name}:{n}", f.loc(), f"{name} keeps {tstr(p.final(SELFT, n))[:60]} as its {n}", p)
            proc = [e for e in p.trace if e.name == "process_kwargs"]
            ok = len(proc) == 1 and [*proc[0].args, *proc[0].kwargs.values()] == [kw] and any(p.final(SELFT, n) == ("res", proc[0].uid) for n in ("data_loader_kwargs", "data_saver_kwargs"))
            ctx.check(ok, f"{name}:kwargs", f.loc(), f"{name} does not keep process_kwargs(of its arguments)", p)


def extractor(ctx):
    ctx.rule("(extractor) an extractor adds the loader nodes for its target, of the target's type and from its own loaders and arguments; a target the graph does not have is an error.")
    ix = ctx.ix
    c = ix.cls(M + "ExtractorFactory")
    f = ix.find_method(c, "generate_nodes")
    fg = ("param", names(f)[1])
    tgt, nodes = ("attr", SELFT, "target"), ("attr", fg, "nodes")
    node = ("item", nodes, tgt)
    n = 0
    for p in paths(ctx, f, c, attrs={(node, "name"): tgt}, assume={("isnone", node): False}):
        there = p.facts.get(("in", tgt, nodes))
        if p.kind == "raise":
            ctx.check(there is not True, "extractor:rejected", f.loc(), "an extractor for a node of the graph is rejected", p)
            continue
        n += 1
        ctx.check(there is True, "extractor:unknown", f.loc(), "an extractor whose target is not in the graph is accepted", p)
        e = ev_of(p, p.value[1]) if p.value[0] == "res" else None
        ctx.need(e is not None and e.name == "get_loader_nodes", f"generate_nodes returns {tstr(p.value)[:60]}")
        d = [x for x in p.trace if x.kind == "new" and x.name == "LoadFromDecorator"]
        ok = len(d) == 1 and (d[0].arg("loader_classes", 0), d[0].arg("inject_", 1)) == (("attr", SELFT, "loaders"), tgt) and list(d[0].spreads) == [("attr", SELFT, "data_loader_kwargs")] and e.recv is not None and mentions_uid(e.recv, d[0].uid)
        ctx.check(ok, "extractor:decorator", f.loc(), "the loader nodes are not made from the extractor's own loaders, target and arguments", p)
        a = (e.arg("inject_parameter", 0), e.arg("load_type", 1), e.arg("namespace", 2))
        ctx.check(a[0] == tgt and a[1] == ("attr", node, "type") and a[2] in (None, NONE), "extractor:call", f.loc(), f"the loader nodes are made for ({', '.join(tstr(x)[:50] if x else '-' for x in a)})", p)
    ctx.need(n, "generate_nodes never returns")


def mentions_uid(t, uid):
    return t == ("ctor", uid) or isinstance(t, tuple) and any(mentions_uid(x, uid) for x in t if isinstance(x, tuple)) or t == ("res", uid)


def materializer(ctx):
    ctx.rule("(materializer) a materializer saves what its dependencies give: every dependency must be in the graph; with combine= a join node takes exactly the dependencies, with their types, and gives build_result of their values; without it there must be exactly one dependency; the saver node is made from the materializer's own savers, id and arguments for that node.")
    ix = ctx.ix
    c = ix.cls(M + "MaterializerFactory")
    g = ix.find_method(c, "_resolve_dependencies")
    f = ix.find_method(c, "generate_nodes")
    fg = ("param", names(f)[1])
    nodes, RB = ("attr", fg, "nodes"), ("attr", SELFT, "result_builder")
    tot = 0
    for deps in ((), ("d1",), ("d1", "d2", "d3"), ("d2", "d1")):
        at = {(SELFT, "dependencies"): L(*[const(d) for d in deps])}
        N = {d: ("item", nodes, const(d)) for d in deps}
        for d in deps:
            at[(N[d], "name")], at[(N[d], "type")] = const(d), V("type " + d)
        for p in paths(ctx, f, c, attrs=at):
            there = {d: p.facts.get(("in", const(d), nodes)) for d in deps}
            none = p.facts.get(("isnone", RB))
            if p.kind == "raise":
                bad = any(v is False for v in there.values()) or none is not False and len(deps) != 1
                ctx.check(bad, f"materializer:rejected:{len(deps)}", f.loc(), f"a materializer of {list(deps)}, all in the graph, {'without' if none else 'with'} combine= is rejected", p)
                continue
            tot += 1
            ctx.check(all(v is True for v in there.values()), "materializer:unknown", f.loc(), f"a materializer whose dependencies are not all in the graph is accepted ({there})", p)
            ctx.need(none is not None or True, "")
            out = items(p.value)
            ctx.need(out is not None, f"generate_nodes returns {tstr(p.value)[:80]}")
            joins = [e for e in p.trace if e.kind == "new" and e.name == "Node"]
            if none is True or none is None and not joins:
                ctx.check(none is True and len(deps) == 1 and not joins, "materializer:single", f.loc(), f"without combine= {len(deps)} dependencies are accepted", p)
                src = N[deps[0]] if deps else None
            else:
                ctx.need(len(joins) == 1, f"{len(joins)} join nodes")
                j = joins[0]
                ctx.check(none is False, "materializer:join", f.loc(), "a join node is made without combine=", p)
                it = entries(j.arg("input_types", 5) or ("const", None))
                ctx.need(it is not None, "the join node's inputs are not a table the analysis knows")
                want = {const(d): V("type " + d) for d in deps}
                ctx.check(it == want, "materializer:inputs", f.loc(), f"the join node of {list(deps)} takes {{{', '.join(tstr(k) + ': ' + tstr(v) for k, v in it.items())}}}", p)
                ty = j.arg("typ", 1)
                e = ev_of(p, ty[1]) if ty is not None and ty[0] == "res" else None
                ctx.check(e is not None and e.name == "output_type" and e.recv == RB, "materializer:type", f.loc(), f"the join node's type is {tstr(ty)[:60] if ty else None}, not combine's output type", p)
                K = ("sym", "VALUES")
                for q in p.invoke(j.arg("callabl", 3), spreads=(K,), raises="none", keep=lambda e: True, keyfacts=lambda k: True):
                    b = ev_of(q, q.value[1]) if q.value[0] == "res" else None
                    ctx.check(q.kind == "return" and b is not None and b.name == "build_result" and b.recv == RB and not b.args and not b.kwargs and list(b.spreads) == [K], "materializer:built", f.loc(),
                              f"the join node gives {tstr(q.value)[:60]}, not combine.build_result(**values)", q)
                nm = j.arg("name", 0)
                ctx.check(nm is not None and mentions(nm, ("attr", SELFT, "id")) and nm != ("attr", SELFT, "id"), "materializer:joinname", f.loc(), "the join node's name does not come from the materializer's id, or is the id itself", p)
                src = [x for x in out if mentions_uid(x, j.uid)]
                ctx.check(len(src) == 1, "materializer:joinkept", f.loc(), "the join node is not among the nodes generated", p)
                src = src[0] if src else None
            dec = [e for e in p.trace if e.kind == "new" and e.name == "SaveToDecorator"]
            ctx.need(len(dec) == 1, "the saver node is not made by one SaveToDecorator")
            d = dec[0]
            a = (d.arg("saver_classes_", 0), d.arg("output_name_", 1))
            ctx.check(a == (("attr", SELFT, "savers"), ("attr", SELFT, "id")) and list(d.spreads) == [("attr", SELFT, "data_saver_kwargs")], "materializer:decorator", f.loc(), f"the saver node is made from ({', '.join(tstr(x)[:40] if x else '-' for x in a)}, **{[tstr(x)[:40] for x in d.spreads]})", p)
            mk = [e for e in p.trace if e.name == "create_saver_node"]
            ctx.need(len(mk) == 1, "create_saver_node is not called once")
            ctx.check(("res", mk[0].uid) in out and len(out) == 1 + len(joins), "materializer:saver", f.loc(), "the nodes generated are not the join node (if any) and the saver node", p)
            if src is not None:
                got = mk[0].arg("node_", 0)
                fn = mk[0].arg("fn", 2)
                ctx.check(got is not None and same_node(got, src), "materializer:saved", f.loc(), f"the saver node saves {tstr(got)[:60] if got else None}, not {tstr(src)[:60]}", p)
    ctx.need(tot, "generate_nodes never returns")
    f = ix.find_method(c, "sanitize_dependencies")
    for p in paths(ctx, f, c, opaque=["convert_output_values"], inline_modules=[f.module.name]):
        ctx.need(p.kind == "return", "sanitize_dependencies raises")
        cv = [e for e in p.trace if e.name == "convert_output_values"]
        mk = [e for e in p.trace if e.kind == "new" and e.name == "MaterializerFactory"]
        ctx.need(len(cv) == 1 and len(mk) == 1 and mentions_uid(p.value, mk[0].uid), "sanitize_dependencies does not return one new materializer")
        e = mk[0]
        ok = (e.arg("id", 0), e.arg("savers", 1), e.arg("result_builder", 2), e.arg("dependencies", 3)) == tuple(("attr", SELFT, x) for x in ("id", "savers", "result_builder")) + (("res", cv[0].uid),) and list(e.spreads) == [("attr", SELFT, "data_saver_kwargs")]
        ctx.check(ok and list(cv[0].args) == [("attr", SELFT, "dependencies"), ("param", names(f)[1])], "materializer:sanitized", f.loc(), "resolving a materializer's dependencies changes something else about it", p)


def same_node(a, b):
    return a == b or a[0] == "inst" and b[0] == "inst" and a[3] == b[3]


def partials(ctx):
    ctx.rule("(to/from_) for every registered name to.<name> and from_.<name> exist, accept every argument of every adapter of that name, and make a factory of all the adapters registered under that name with the arguments given; a name registered later is found on access.")
    ix = ctx.ix
    f = ix.func(M + "_set_materializer_attrs")
    regs = {"SAVER_REGISTRY": L(T(const("csv"), L(V("S1"), V("S2"))), T(const("db"), L(V("S3")))), "LOADER_REGISTRY": L(T(const("csv"), L(V("L1"))))}
    fields = {"S1": ("p", "q"), "S2": ("p", "r"), "S3": ("kwargs",), "L1": ("l",)}

    def ret(e):
        if e.name == "items" and e.qual:
            return regs.get(e.qual.split(".")[-2])
        if e.name == "fields" and e.args and e.args[0][0] == "sym":
            return T(*[V(f"{e.args[0][1]}.{n}") for n in fields[e.args[0][1]]])
        return {"signature": V("SIG"), "bind": V("BOUND"), "Parameter": None}.get(e.name)

    assume = {("issubclass", V(k), ("global", DA + ("DataSaver" if k[0] == "S" else "DataLoader"))): True for k in fields}
    at = {(V(f"{k}.{n}"), "name"): const(n) for k, ns in fields.items() for n in ns}
    old = ("id", "dependencies", "combine", "kwargs")
    for n in old:
        at[(V("P_" + n), "name")] = const(n)
        at[(V("P_" + n), "kind")] = ("global", "inspect.Parameter." + ("VAR_KEYWORD" if n == "kwargs" else "POSITIONAL_OR_KEYWORD"))
    at[(V("SIG"), "parameters")] = D({n: V("P_" + n) for n in old})
    at[(V("BOUND"), "args")], at[(V("BOUND"), "kwargs")] = T(V("ID"), V("DEPS"), V("COMB")), D({"p": V("vp"), "r": V("vr")})
    n = 0
    for p in paths(ctx, f, attrs=at, assume=assume, returns=ret, known_limit=12):
        ctx.need(p.kind == "return", "_set_materializer_attrs raises")
        made = {e.uid: e.arg("name", 0) for e in p.trace if e.name == "Parameter"}
        kinds = {e.uid: e.arg("kind", 1) for e in p.trace if e.name == "Parameter"}
        # what a made parameter answers about itself is what it was made with
        if any(k[0] == "eq" and any(x[0] == "attr" and x[1][0] == "res" and x[1][1] in made and
                                    v != (made[x[1][1]] == y if x[2] == "name" else kinds[x[1][1]] == y if x[2] == "kind" else v) for x, y in ((k[1], k[2]), (k[2], k[1]))) for k, v in p.facts.items()):
            continue
        n += 1
        sets = {}
        for e in p.trace:
            if e.kind == "setattr" and e.recv is not None and e.recv[0] == "global" and e.recv[1] in (M + "Materialize", M + "Extract", M + "to", M + "from_") and len(e.args) == 2:
                sets[(e.recv[1][len(M):], e.args[0])] = e.args[1]
        for tgt, key, kls, new, par in (("Materialize", "csv", ("S1", "S2"), "MaterializerFactory", ("savers", 1)), ("Materialize", "db", ("S3",), "MaterializerFactory", ("savers", 1)), ("Extract", "csv", ("L1",), "ExtractorFactory", ("loaders", 1))):
            clos = sets.pop((tgt, const(key)), None)
            k = f"partials:{tgt}.{key}"
            ctx.check(clos is not None, k, f.loc(), f"the name {key} registered with {', '.join(kls)} is not set on {tgt}", p)
            if clos is None:
                continue
            for q in p.invoke(clos, spreads=(V("KW"),), raises="none", keep=lambda e: True, keyfacts=lambda k: True):
                mk = [e for e in q.trace if e.kind == "new" and e.name in ("MaterializerFactory", "ExtractorFactory")]
                ctx.need(q.kind == "return" and len(mk) == 1, f"calling {tgt}.{key} does not make one factory")
                e = mk[0]
                ctx.check(e.name == new and mentions_uid(q.value, e.uid), k + ":made", f.loc(), f"{tgt}.{key}(...) makes a {e.name}", q)
                if e.name != new:
                    continue
                got = items(e.arg(*par) or ("const", None))
                ctx.check(got == [V(x) for x in kls], k + ":adapters", f.loc(), f"{tgt}.{key}(...) is wired to {[tstr(x) for x in got or ()]}, not to {list(kls)}", q)
                want = {"id": V("ID"), "dependencies": V("DEPS"), "result_builder": V("COMB"), "p": V("vp"), "r": V("vr")} if new == "MaterializerFactory" else {"target": V("ID"), "p": V("vp"), "r": V("vr")}
                have_n = ["id", "savers", "result_builder", "dependencies"] if new == "MaterializerFactory" else ["target", "loaders"]
                have = {**dict(zip(have_n, e.args)), **e.kwargs}
                have.pop(par[0], None)
                ctx.check(have == want and not e.spreads, k + ":arguments", f.loc(), f"{tgt}.{key}(...) hands on {{{', '.join(a + '=' + tstr(b)[:30] for a, b in have.items())}}}", q)
                b = [x for x in q.trace if x.name == "bind"]
                ctx.need(len(b) == 1, f"{tgt}.{key} does not bind its arguments to one signature")
                ctx.check(list(b[0].spreads) == [V("KW")], k + ":bound", f.loc(), f"{tgt}.{key}(...) does not bind the arguments it is given", q)
                rp = b[0].recv
                ps = dict(rp[4]).get("parameters") if rp is not None and rp[0] == "pure" and rp[1] == "replace" else None
                ps = items(ps) if ps is not None else None
                ctx.need(ps is not None, "the signature's parameters are not known")
                have_n = [at.get((x, "name"), made.get(x[1]) if x[0] == "res" else None) for x in ps]
                ctx.need(all(x is not None and is_const(x) for x in have_n), "the signature's parameters are not known")
                have_n = [x[1] for x in have_n]
                want = ["id", "dependencies", "combine"] + list(dict.fromkeys(n for c in kls for n in fields[c]))
                ctx.check(sorted(have_n) == sorted(want), k + ":signature", f.loc(), f"{tgt}.{key} with adapters whose options are {[fields[c] for c in kls]} accepts {have_n}", q)
        ctx.check(not sets, "partials:extra", f.loc(), f"{[(t, tstr(k)) for (t, k) in sets]} is set though nothing of that name is registered", p)
    ctx.need(n, "no path of _set_materializer_attrs is consistent")
    for meta, reg in (("materialization_meta__", "SAVER_REGISTRY"), ("extractor_meta__", "LOADER_REGISTRY")):
        c = ix.cls(M + meta)
        f = ix.find_method(c, "__getattr__")
        item = ("param", names(f)[1])
        late = 0
        for p in paths(ctx, f, c, opaque=["_set_materializer_attrs"], raises=lambda e: e.name == "__getattribute__"):
            found = [e for e in p.trace if e.name == "__getattribute__"]
            if not found or found[0].outcome == "ok":
                continue
            known = p.facts.get(("in", item, ("global", "hamilton.registry." + reg)))
            wrong = [k[2][1] for k in p.facts if k[0] == "in" and k[1] == item and k[2][0] == "global" and k[2][1].startswith("hamilton.registry.") and k[2][1] != "hamilton.registry." + reg]
            ctx.check(not wrong, f"late:{meta}:registry", f.loc(), f"a name registered later is looked for in {wrong}, not in {reg}", p)
            late += bool(wrong)
            if known is False:
                ctx.check(p.kind == "raise", f"late:{meta}:unknown", f.loc(), "an adapter name that is not registered is found", p)
            elif known is True:
                again = [e for e in p.trace if e.name == "_set_materializer_attrs"]
                ctx.check(len(again) == 1 and len(found) > 1, f"late:{meta}:refresh", f.loc(), "a name registered later is not set up before it is looked up again", p)
                if p.kind == "return":
                    late += 1
                    ctx.check(p.value == ("res", found[-1].uid) and list(found[-1].args) == [item], f"late:{meta}:value", f.loc(), f"the name registered later gives {tstr(p.value)[:60]}", p)
        ctx.need(late, f"{meta}.__getattr__ never finds a name registered later")


def graphed(ctx):
    ctx.rule("(graph) modifying a graph adds every materializer's nodes to it, then every extractor's, generated from the graph that already has the materializers; an extractor's node replaces the node it loads; all edges are connected anew; config and adapter stay.")
    ix = ctx.ix
    f = ix.func(M + "modify_graph")
    fg, mf, xf = names(f)[:3]
    mats, exts = [V("M1"), V("M2")], [V("X1"), V("X2")]
    node = {("M1", 0): "m1", ("M2", 0): "m2j", ("M2", 1): "m2", ("X1", 0): "x1", ("X2", 0): "x2", ("X2", 1): "x2b"}

    def ret(e):
        if e.name == "generate_nodes" and e.recv in mats + exts:
            return L(*[V(n) for (k, _), n in node.items() if k == e.recv[1]])
        return {"with_nodes": V("WITH"), "update_dependencies": V("CONNECTED")}.get(e.name)

    at = {(V(n), "name"): const(n) for n in node.values()}
    tot = 0
    for p in paths(ctx, f, bind={mf: L(*mats), xf: L(*exts)}, attrs=at, returns=ret):
        if p.kind == "raise":
            # duplicate detection is P13's; with the distinct names here it cannot apply, but the analysis does not count
            continue
        tot += 1
        gen = {e.recv: e for e in p.trace if e.name == "generate_nodes"}
        ctx.check(set(gen) == set(mats + exts), "graph:asked", f.loc(), "not every materializer and extractor is asked for its nodes", p)
        wn = [e for e in p.trace if e.name == "with_nodes"]
        ctx.need(len(wn) == 1, "the materializer nodes are not added by one with_nodes")
        new = entries(wn[0].args[0] if wn[0].args else next(iter(wn[0].kwargs.values())))
        ctx.need(new is not None, "the materializer nodes are not a table the analysis knows")
        ctx.check(wn[0].recv == ("param", fg) and new == {const(n): V(n) for n in ("m1", "m2j", "m2")}, "graph:materializers", f.loc(), f"the nodes added are {[tstr(k) for k in new]}", p)
        for x in exts:
            if x in gen:
                ctx.check(list(gen[x].args) == [V("WITH")], "graph:extractors-from", f.loc(), f"an extractor's nodes are generated from {tstr(gen[x].args[0])[:40] if gen[x].args else None}, not from the graph with the materializers", p)
        for x in mats:
            if x in gen:
                ctx.check(list(gen[x].args) == [("param", fg)], "graph:materializers-from", f.loc(), "a materializer's nodes are not generated from the graph given", p)
        ud = [e for e in p.trace if e.name == "update_dependencies"]
        ctx.need(len(ud) == 1 and ud[0].args and ud[0].args[0][0] in ("dict", "copy"), f"the edges are not connected by one update_dependencies of a table")
        recs = ud[0].args[0][1]
        base = [r for r in recs if r[0] == "spread"]
        rest = {r[1]: r[2] for r in recs if r[0] == "kv"}
        ctx.check(len(base) == 1 and recs[0] == base[0] and base[0][1] == ("attr", V("WITH"), "nodes") and rest == {const(n): V(n) for n in ("x1", "x2", "x2b")}, "graph:all", f.loc(),
                  f"the graph is made of {[tstr(r[1])[:40] for r in recs]}, not of the nodes with the materializers overlaid by the extractors' nodes", p)
        fgs = [e for e in p.trace if e.kind == "new" and e.name == "FunctionGraph"]
        ctx.need(len(fgs) == 1 and mentions_uid(p.value, fgs[0].uid), "modify_graph does not return one new graph")
        e = fgs[0]
        same = (("attr", ("param", fg)), ("attr", V("WITH")))
        okc = all(e.arg(n, i) in [s + (n,) for s in same] for n, i in (("config", 1), ("adapter", 2)))
        ctx.check(e.arg("nodes", 0) == V("CONNECTED") and okc, "graph:made", f.loc(), "the new graph has not the connected nodes, or another config or adapter", p)
        second = ud[0].arg("adapter", 1)
        ctx.check(second in [s + ("adapter",) for s in same], "graph:adapter", f.loc(), "the edges are connected with another adapter", p)
    ctx.need(tot, "modify_graph never returns")


def outputs(ctx):
    ctx.rule("(outputs) what is asked for is resolved to node names in the order given, one by one: a string is a name, an object with a name gives it, a function of one of the driver's modules gives its name; anything else, or a function of another module, is an error that is raised.")
    ix = ctx.ix
    f = ix.func("hamilton.common.convert_output_value")
    x, ms = (("param", n) for n in names(f)[:2])
    rows = set()
    for p in paths(ctx, f):
        ctx.need(p.kind == "return", "convert_output_value raises")
        pair = items(p.value)
        ctx.need(pair is not None and len(pair) == 2, f"convert_output_value returns {tstr(p.value)[:60]}")
        is_str = p.facts.get(("isinstance", x, ("global", "str")), p.facts.get(("isinstance", x, ("builtin", "str"))))
        if is_str is None:
            is_str = next((v for k, v in p.facts.items() if k[0] == "isinstance" and k[1] == x and k[2][-1] == "str"), None)
        named = p.facts.get(("hasattr", x, const("name")))
        fn = next((v for k, v in p.facts.items() if k[0] == "isinstance" and k[1] == x and k[2][-1] != "str" or k[0] == "callable" and k[1] == x), None)
        ours = p.facts.get(("in", ("attr", x, "__module__"), ms))
        name, err = pair
        if err != NONE:
            row = "foreign" if fn else "other"
            ctx.need(is_str is not None and named is not None and fn is not None, f"convert_output_value decides on something else ({', '.join(tstr(k)[:40] for k in p.facts)})")
            ok = name == NONE and is_str is False and named is False and (fn is False or ours is False)
        elif name == x:
            row, ok = "string", is_str is True
        elif name == ("attr", x, "name"):
            row, ok = "named", named is True and is_str is False
        elif name == ("attr", x, "__name__"):
            row = "function"
            ctx.need(ours is not None or not any(k[0] == "in" and k[2] == ms for k in p.facts), "the function's module is looked up in a way the analysis does not follow")
            ok = fn is True and ours is True and is_str is False and named is False
        else:
            ctx.check(name != NONE, "output:lost", f.loc(), "an output is neither resolved nor reported", p)
            ctx.need(name == NONE, f"convert_output_value gives {tstr(name)[:60]}")
            continue
        rows.add(row)
        ctx.check(ok, f"output:{row}", f.loc(), f"an output becomes ({tstr(name)[:40]}, error {tstr(err)[:40]}) when string={is_str}, has a name={named}, function={fn}, of the driver's modules={ours}", p)
    ctx.need(len(rows) == 5 or ctx.violations, f"only the cases {sorted(rows)} are distinguished")
    f = ix.func("hamilton.common.convert_output_values")
    res = {"a": ("A", None), "b": (None, "B"), "c": ("C", None), "d": ("", None)}
    for given_, in ((("a", "c"),), (("c", "a"),), (("a", "b", "c"),), ((),), (("b",),), (("a", "a"),)):
        def ret(e):
            if e.name == "convert_output_value" and e.args and e.args[0][0] == "sym" and e.args[0][1] in res:
                n, er = res[e.args[0][1]]
                return T(const(n), const(er))
            return None

        for p in paths(ctx, f, bind={names(f)[0]: L(*[V(k) for k in given_])}, opaque=["convert_output_value"], returns=ret):
            ctx.check(all(list(e.args[1:]) + list(e.kwargs.values()) == [("param", names(f)[1])] for e in p.trace if e.name == "convert_output_value"), "outputs:modules", f.loc(), "outputs are not resolved against the modules given", p)
            if p.kind == "raise":
                ctx.check("b" in given_, f"outputs:raise:{''.join(given_)}", f.loc(), "outputs that all resolve are rejected", p)
                continue
            got = items(p.value)
            ctx.need(got is not None, f"convert_output_values returns {tstr(p.value)[:60]}")
            ctx.check("b" not in given_, "outputs:error", f.loc(), "an output that does not resolve is not reported", p)
            if "b" not in given_:
                ctx.check(got == [const(res[k][0]) for k in given_], f"outputs:order:{''.join(given_)}", f.loc(), f"the outputs {list(given_)} become {[tstr(x) for x in got]}", p)


def driven(ctx):
    ctx.rule("(driver) materialize() splits what it is given into materializers (dependencies resolved) and extractors, in order; runs exactly the additional variables and the materializers' ids on the modified graph with the caller's inputs and overrides; returns each materializer's metadata under its id and each additional variable under its name. with_materializers keeps every one of them and the driver builds its graph with them.")
    ix = ctx.ix
    c = ix.cls(DR + "Driver")
    f = ix.find_method(c, "_process_materializers")
    F = [V("M1"), V("X1"), V("M2"), V("X2")]
    MF, XF = M + "MaterializerFactory", M + "ExtractorFactory"
    assume = {("isinstance", x, ("global", k)): (x[1][0] == k[len(M)]) if k == MF else (x[1][0] == "X") for x in F for k in (MF, XF)}
    for p in paths(ctx, f, c, bind={names(f)[1]: T(*F)}, assume=assume, returns=lambda e: V("s" + e.recv[1]) if e.name == "sanitize_dependencies" and e.recv in F else None):
        ctx.need(p.kind == "return", "_process_materializers raises")
        pair = items(p.value)
        ctx.need(pair is not None and len(pair) == 2 and all(items(x) is not None for x in pair), f"_process_materializers returns {tstr(p.value)[:60]}")
        ctx.check([items(x) for x in pair] == [[V("sM1"), V("sM2")], [V("X1"), V("X2")]], "driver:split", f.loc(), f"materializers M1, extractor X1, materializer M2, extractor X2 are split into {tstr(p.value)[:120]}", p)
        for e in p.trace:
            if e.name == "sanitize_dependencies":
                ok = len(e.args) == 1 and e.args[0][0] == "set" and len(e.args[0][1]) == 1 and e.args[0][1][0][1] == ("attr", ("elem", ("attr", SELFT, "graph_modules")), "__name__")
                ctx.check(ok, "driver:modules", f.loc(), f"dependencies are resolved against {tstr(e.args[0])[:60] if e.args else None}, not the names of the driver's modules", p)
    f = ix.find_method(c, "materialize")
    ctx.need(f is not None and f.node.args.vararg is not None, "Driver.materialize(*materializers, ...) is gone")

    for fv in (("v1", "v2"), ("v1", "m1"), ()):
        materialized(ctx, c, f, fv)
    built(ctx, c)


def materialized(ctx, c, f, wanted):
    def ret(e):
        if e.name == "_process_materializers":
            return T(L(V("M1"), V("M2")), L(V("X1")))
        if e.name == "_create_final_vars":
            return L(*[const(x) for x in wanted])
        return {"modify_graph": V("GRAPH"), "execute": V("RAW"), "__raw_execute": V("RAW"), "_Driver__raw_execute": V("RAW"), "raw_execute": V("RAW")}.get(e.name)

    at = {(V("M1"), "id"): const("m1"), (V("M2"), "id"): const("m2")}
    n = 0
    pub = ("inputs", "overrides", "additional_vars")
    for p in paths(ctx, f, c, attrs=at, assume={("isnone", V("GRAPH")): False, ("truthy", V("GRAPH")): True}, returns=ret, keyfacts=lambda k: False, keyev=lambda e: e.name in ("execute", "modify_graph"),
                   opaque=["_process_materializers", "_create_final_vars", "modify_graph", "_perform_graph_validations", "validate_inputs", "capture_execute_telemetry", "__raw_execute", "_Driver__raw_execute", "raw_execute"]):
        if p.kind != "return":
            continue
        n += 1
        pm = [e for e in p.trace if e.name == "_process_materializers"]
        ctx.check(len(pm) == 1 and list(pm[0].args) == [("param", "*" + f.node.args.vararg.arg)], "driver:given", f.loc(), "not all materializers given are processed", p)
        cf = [e for e in p.trace if e.name == "_create_final_vars"]
        ctx.need(len(cf) == 1, "the additional variables are not resolved once")
        a = [*cf[0].args, *cf[0].kwargs.values()]
        ctx.check(a == [("param", "additional_vars")] or p.facts.get(("isnone", ("param", "additional_vars"))) is not False and a == [("list", ())], "driver:vars", f.loc(), "not the additional variables are resolved", p)
        mg = [e for e in p.trace if e.name == "modify_graph"]
        ctx.need(len(mg) == 1, "the graph is not modified once")
        e = mg[0]
        got = (e.arg("fn_graph", 0), items(e.arg("materializer_factories", 1) or NONE), items(e.arg("extractor_factories", 2) or NONE))
        ctx.check(got == (("attr", SELFT, "graph"), [V("M1"), V("M2")], [V("X1")]), "driver:graph", f.loc(), "the graph is not modified by the materializers and extractors given", p)
        ex = [e for e in p.trace if e.name in ("execute", "__raw_execute", "_Driver__raw_execute", "raw_execute")]
        ctx.need(len(ex) == 1, "the graph is not executed once")
        e = ex[0]
        if e.name == "execute":
            g, fv, ins, ov = e.arg("fg", 0), e.arg("final_vars", 1), e.arg("inputs", 3), e.arg("overrides", 2)
        else:
            g, fv, ins, ov = e.arg("_fn_graph", 4), e.arg("final_vars", 0), e.arg("inputs", 3), e.arg("overrides", 1)
        ctx.check(g == V("GRAPH"), "driver:executed", f.loc(), f"{tstr(g)[:40] if g else 'the driver own graph'} is executed, not the modified graph", p)
        ctx.need(items(fv) is not None, "the nodes requested are not a list the analysis knows")
        ctx.check(set(items(fv)) == {const(x) for x in wanted + ("m1", "m2")}, "driver:requested", f.loc(), f"the nodes requested are {tstr(fv)[:100]}, not the additional variables and the materializers", p)
        if e.name != "execute":
            ctx.check((ins, ov) == (("param", "inputs"), ("param", "overrides")), "driver:inputs", f.loc(), "the graph is not executed with the caller's inputs and overrides", p)
        out = items(p.value)
        ctx.need(out is not None and len(out) == 2, f"materialize returns {tstr(p.value)[:60]}")
        for name, t, want in (("materializers' metadata", out[0], ("m1", "m2")), ("additional variables", out[1], wanted)):
            d = entries(t)
            ctx.need(d is not None, f"the {name} returned are not a table the analysis knows")
            ctx.check(d == {const(k): ("item", V("RAW"), const(k)) for k in want}, f"driver:returned:{name.split()[0]}", f.loc(), f"the {name} returned are {{{', '.join(tstr(k) + ': ' + tstr(v)[:40] for k, v in d.items())}}}", p)
    ctx.need(n, "materialize never returns")


def built(ctx, c):
    ix = ctx.ix
    MF, XF = M + "MaterializerFactory", M + "ExtractorFactory"
    b = ix.cls(DR + "Builder")
    f = ix.find_method(b, "with_materializers")
    F = [V("M1"), V("X1")]
    MS = ("attr", SELFT, "materializers")
    n = 0
    for p in paths(ctx, f, b, bind={f.node.args.vararg.arg: T(*F)}, assume={**{("isinstance", x, ("global", k)): (x[1][0] == "M") == (k == MF) for x in F for k in (MF, XF)}, **{("truthy", x): True for x in F}}, attrs={(SELFT, "materializers"): L(V("OLD"))}):
        if p.kind != "return":
            mixed = [k for k, v in p.facts.items() if k[0] == "isinstance" and v is False and k[1] in F and not (k[2][0] == "global")]
            continue
        n += 1
        got = items(p.final(SELFT, "materializers"))
        ctx.need(got is not None, "the builder's materializers are not a list the analysis knows")
        ctx.check(got == [V("OLD")] + F and p.value == SELFT, "driver:builder", f.loc(), f"the builder, which had OLD, keeps {[tstr(x) for x in got]} after with_materializers(M1, X1)", p)
    ctx.need(n, "with_materializers never returns")
    f = ix.find_method(b, "build")
    n = 0
    for p in paths(ctx, f, b, keyfacts=lambda k: False, keyev=lambda e: e.kind == "new" and e.name == "Driver"):
        for e in p.trace:
            if e.kind == "new" and e.name == "Driver":
                n += 1
                ctx.check(e.arg("_materializers", 5) == MS, "driver:build", f.loc(), f"the driver is built with the materializers {tstr(e.arg('_materializers', 5))[:40] if e.arg('_materializers', 5) else None}", p)
    ctx.need(n, "Builder.build makes no Driver")
    f = ix.find_method(c, "__init__")
    n = 0
    for p in paths(ctx, f, c, opaque=["_process_materializers", "modify_graph", "_perform_graph_validations", "capture_constructor_telemetry", "normalize_adapter_input", "from_modules"], keyfacts=lambda k: mentions(k, ("param", "_materializers")),
                   keyev=lambda e: e.name in ("modify_graph", "_process_materializers"), returns=lambda e: T(V("MS"), V("XS")) if e.name == "_process_materializers" else V("GRAPH") if e.name == "modify_graph" else None):
        if p.kind != "return":
            continue
        t = p.facts.get(("truthy", ("param", "_materializers")))
        if t is False or p.facts.get(("isnone", ("param", "_materializers"))):
            continue
        n += 1
        pm = [e for e in p.trace if e.name == "_process_materializers"]
        mg = [e for e in p.trace if e.name == "modify_graph"]
        ok = len(pm) == 1 and [*pm[0].args, *pm[0].kwargs.values()] == [("param", "_materializers")] and len(mg) == 1 and (mg[0].arg("materializer_factories", 1), mg[0].arg("extractor_factories", 2)) == (V("MS"), V("XS"))
        ctx.check(ok and p.final(SELFT, "graph") == V("GRAPH"), "driver:init", f.loc(), "a driver built with materializers does not have the graph modified by all of them", p)
    ctx.need(n, "Driver.__init__ never handles materializers")


PARTS = [("registered", registered), ("choose", choose), ("arguments", arguments), ("validated", validated), ("applies", applies), ("given", given), ("extractor", extractor), ("materializer", materializer),
         ("partials", partials), ("graph", graphed), ("outputs", outputs), ("driver", driven)]

