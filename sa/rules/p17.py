"""P17: configuration decides which functions, steps and decorators apply, and how."""
import ast

from .common import *
from .p15 import FM, SELFT, canon, facts, flat, guards_of, merged, opts

CFG = ("param", "CFG")
POWER = "hamilton.enable_power_user_mode"


# ---------------------------------------------------------------- the four conditions

def truth_cases(v, fs):
    """[(facts, does the condition hold for one key)] a boolean result stands for and how the keys are combined; None when not recognised."""
    v = canon(v)
    quants = [(k[1], b) for k, b in fs.items() if k[0] == "truthy" and k[1][0] == "pure" and k[1][1] in ("all", "any")]
    neg = False
    if v[0] == "not":
        v, neg = v[1], True
    elif v in (TRUE, FALSE) and len(quants) == 1:
        v, neg = canon(quants[0][0]), (v == TRUE) != quants[0][1]
        fs = {k: b for k, b in fs.items() if k[1] != quants[0][0]}
    if v in (TRUE, FALSE):
        return "once", [(fs, (v == TRUE) != neg)]
    if v[0] == "pure" and v[1] in ("all", "any") and len(v[3]) == 1 and v[3][0][0] in ("list", "set", "tuple"):
        out = []
        for r in v[3][0][1]:
            if r[0] != "e" or r[1] not in (TRUE, FALSE):
                return None, None
            out.append(({**fs, **guards_of(r)}, (r[1] == TRUE) != neg))
        return "every" if (v[1] == "all") != neg else "some", out
    return None, None


def conditions(ctx):
    ctx.rule("(conditions) when/when_not/when_in/when_not_in hold iff for every key given the configured value (None when absent) equals / differs from / is among / is not among what was given, and they declare every key they read.")
    ix = ctx.ix
    C = ix.cls(FM + "configuration.ConfigResolver")
    for nm in ("when", "when_not", "when_in", "when_not_in"):
        f = ix.method(C, nm)
        ctx.need(f.node.args.kwarg, f"ConfigResolver.{nm}: parameters not recognised")
        M = ("param", "**" + f.node.args.kwarg.arg)
        key, val = ("key", M), ("val", M)
        item = ("item", CFG, key)
        n = 0
        for p in ctx.paths(f, self_cls=C, inline_modules=[f.module.name], **opts()):
            if p.kind != "return":
                continue
            es = [e for e in p.trace if e.kind == "new" and e.name == "ConfigResolver"]
            ctx.need(len(es) == 1, f"ConfigResolver.{nm} not recognised")
            cb, used = es[0].arg("resolves", 0), canon(es[0].arg("config_used", 1))
            ctx.need(cb is not None and cb[0] in ("clos", "func", "partial", "lambda"), f"ConfigResolver.{nm}: condition not recognised")
            u = flat(used)
            ctx.check(len(u) == 1 and u[0][1] in (("pure", "keys", M, (), ()), M, key) or used == M, f"when:{nm}:declares", es[0].where(), f"the keys declared as read are {tstr(used)[:80]}", p)
            for q in p.invoke(cb, args=(CFG,), raises="none", keep=lambda e: True, keyfacts=lambda k: True):
                if q.kind != "return":
                    continue
                quant, cs = truth_cases(q.value, {k: v for k, v in q.facts.items() if k not in p.facts})
                ctx.need(cs is not None, f"ConfigResolver.{nm}: condition {tstr(q.value)[:100]} not recognised")
                ctx.check(quant != "some", f"when:{nm}:every", f.loc(), f"{nm} holds as soon as one of the keys given decides", q)
                if quant == "some":
                    n += 2
                    continue
                covered = set()
                for fs, truth in cs:
                    fs = {canon(k): v for k, v in fs.items()}
                    present = fs.get(("in", key, CFG))
                    if nm in ("when", "when_not"):
                        rel = next((v for k, v in fs.items() if k[0] == "eq" and {k[1], k[2]} == {item, val}), None)
                        if rel is None and present is False:
                            rel = next((v for k, v in fs.items() if k == ("isnone", val) or k[0] == "eq" and {k[1], k[2]} == {NONE, val}), None)
                        if rel is None and present is None:
                            rel = next((v for k, v in fs.items() if k[0] == "eq" and val in k[1:3] and any(mentions(x, CFG) for x in k[1:3])), None)
                    else:
                        rel = fs.get(("in", item, val))
                        if rel is None and present is False:
                            rel = fs.get(("in", NONE, val))
                    if rel is None:
                        if quant == "once" and truth and not any(mentions(k, key) or mentions(k, val) for k in fs if k[0] != "truthy"):
                            continue  # no keys given
                        if present is False and not any(mentions(k, val) for k in fs):
                            covered |= {(False, True), (False, False)}
                            ctx.bad(f"when:{nm}", f.loc(), f"an absent key makes {nm} {'hold' if truth else 'fail'} whatever was asked for", q)
                            continue
                        ctx.need(False, f"ConfigResolver.{nm}: case {[(tstr(k), v) for k, v in fs.items()]} not recognised")
                    n += 1
                    covered |= {(x, rel) for x in ((True, False) if present is None else (present,))}
                    exp = rel if nm in ("when", "when_in") else not rel
                    ctx.check(truth == exp, f"when:{nm}", f.loc(), f"{nm} {'holds' if truth else 'fails'} with a value that {'matches' if rel else 'does not match'} ({'absent' if present is False else 'present'})", q)
                if quant == "every":
                    # a key left out of the list counts as satisfied
                    for present, rel in sorted({(x, r) for x in (True, False) for r in (True, False)} - covered):
                        ctx.check(rel if nm in ("when", "when_in") else not rel, f"when:{nm}:skips", f.loc(), f"{nm} ignores a key that is {'configured' if present else 'absent'}", q)
            for x in ast.walk(f.node):
                if isinstance(x, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in x.ops) and not any(isinstance(y, ast.Constant) for y in [x.left] + x.comparators):
                    ctx.bad(f"when:{nm}:identity", f.loc(), f"{nm} compares by identity: {ast.unparse(x)}", p)
        ctx.need(n >= 2, f"ConfigResolver.{nm} not recognised")
    f = ix.method(C, "__call__")
    for p in ctx.paths(f, self_cls=C, **opts()):
        if p.kind == "return":
            es = [e for e in p.trace if e.kind in ("call", "callv")]
            ctx.need(len(es) == 1, "ConfigResolver.__call__ not recognised")
            ctx.check(canon(p.value) == ("res", es[0].uid) and [canon(a) for a in es[0].args] == [("param", "config")] and (es[0].name == "resolves"), "when:call", f.loc(), "a condition is not evaluated on the configuration", p)
    f = ix.method(C, "optional_config")
    for p in ctx.paths(f, self_cls=C, **opts()):
        if p.kind == "return":
            v = canon(p.value)
            ctx.need(v[0] == "dict" and len(v[1]) == 1, "ConfigResolver.optional_config not recognised")
            r = v[1][0]
            ctx.check(r[1] == ("elem", ("attr", SELFT, "_config_used")) and r[2] == NONE and not guards_of(r), "when:optional", f.loc(), "a key the condition reads is not declared (None when absent)", p)


# ---------------------------------------------------------------- config.when*

def config_decorator(ctx):
    ctx.rule("(config) config.when* decide by the condition of the same name on the keys given, rename to the name given and declare those keys; a function stays in the graph iff its condition holds; undeclared keys mean the whole configuration is passed.")
    ix = ctx.ix
    C = ix.cls(FM + "configuration.config")
    for nm in ("when", "when_not", "when_in", "when_not_in"):
        f = ix.method(C, nm)
        M = ("param", "**" + f.node.args.kwarg.arg)
        pars = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
        n = 0
        for p in ctx.paths(f, self_cls=C, **opts()):
            if p.kind != "return":
                continue
            cs = [e for e in p.trace if e.kind == "call" and e.name in ("when", "when_not", "when_in", "when_not_in")]
            es = [e for e in p.trace if e.kind == "new" and e.name == "config"]
            ctx.need(len(cs) == 1 and len(es) == 1, f"config.{nm} not recognised")
            n += 1
            R = ("res", cs[0].uid)
            ctx.check(cs[0].name == nm, f"config:{nm}:condition", cs[0].where(), f"config.{nm} decides by {cs[0].name}", p)
            ctx.check([canon(s) for s in cs[0].spreads] == [M], f"config:{nm}:keys", cs[0].where(), "the keys given are not those of the condition", p)
            ctx.check(canon(es[0].arg("resolves", 0)) == R, f"config:{nm}:resolves", es[0].where(), "the decorator does not decide by its condition", p)
            if "name" in pars:
                ctx.check(canon(es[0].arg("target_name", 1) or NONE) == ("param", "name"), f"config:{nm}:name", es[0].where(), "the name given is not used", p)
            u = es[0].arg("config_used", 2)
            ok = u is None or u == NONE or (lambda L: len(L) == 1 and L[0][1] in (("attr", R, "optional_config"), ("attr", R, "_config_used"), M, ("key", M), ("pure", "keys", M, (), ())))(flat(u)) or canon(u) in (M, ("attr", R, "_config_used"), ("attr", R, "optional_config"))
            ctx.check(ok, f"config:{nm}:declares", es[0].where(), f"the keys declared as read are {tstr(u or NONE)[:80]}", p)
        ctx.need(n, f"config.{nm} not recognised")
    U = ("attr", SELFT, "_config_used")
    f = ix.method(C, "required_config")
    for p in ctx.paths(f, self_cls=C, **opts()):
        if p.kind == "return":
            if p.facts.get(("isnone", U)) is not False:
                ctx.check(p.value == NONE or p.value == U, "config:required", f.loc(), "a condition reading unknown keys is given a filtered configuration", p)
            else:
                ctx.check(p.value == ("list", ()) or p.value == NONE, "config:required", f.loc(), f"keys of a condition are required: {tstr(p.value)[:60]}", p)
    f = ix.method(C, "optional_config")
    for p in ctx.paths(f, self_cls=C, **opts()):
        if p.kind == "return" and p.facts.get(("isnone", U)) is False:
            v = canon(p.value)
            ctx.need(v[0] == "dict" and len(v[1]) == 1, "config.optional_config not recognised")
            r = v[1][0]
            ctx.check(r[1] == ("elem", U) and r[2] == NONE and not guards_of(r), "config:optional", f.loc(), "a key the condition reads is not passed on (None when absent)", p)
    f = ix.method(C, "resolve")
    n = 0
    for p in ctx.paths(f, self_cls=C, **{**opts(), "opaque": ["_get_function_name"]}):
        if p.kind != "return":
            continue
        cs = [e for e in p.trace if e.kind in ("call", "callv") and e.name in ("does_resolve",) or e.kind == "callv" and mentions(e.recv, ("attr", SELFT, "does_resolve"))]
        ctx.check(len(cs) == 1, "config:resolve", f.loc(), f"the condition is evaluated {len(cs)} times", p)
        if len(cs) != 1:
            continue
        n += 1
        ctx.check([canon(a) for a in cs[0].args] == [("param", "config")], "config:resolve", cs[0].where(), "the condition is not evaluated on the configuration", p)
        R = ("res", cs[0].uid)
        t = p.facts.get(("truthy", R))
        if t is None:
            t = next((not v for k, v in p.facts.items() if k == ("eq", R, FALSE)), None)
        ctx.need(t is not None, "config.resolve not recognised")
        ctx.check(p.value == (("param", "fn") if t else NONE), "config:resolve", f.loc(), f"a function whose condition {'holds' if t else 'fails'} {'is dropped' if t else 'is kept'}", p)
    ctx.need(n, "config.resolve not recognised")
    C = ix.cls(FM + "configuration.hamilton_exclude")
    f = ix.method(C, "resolve")
    for p in ctx.paths(f, self_cls=C, **opts()):
        ctx.check(p.kind == "return" and p.value == NONE, "exclude", f.loc(), "an excluded function gives nodes", p)


# ---------------------------------------------------------------- what a decorator sees of the configuration

def filtering(ctx):
    ctx.rule("(filter) a decorator sees the whole configuration when it declares nothing, else exactly the keys it requires and its optional ones, configured value first, default otherwise; a required key that is missing is an error; nothing given is changed.")
    ix = ctx.ix
    f = ix.func(FM + "base.resolve_config")
    CF, RQ, OP = (("param", f.node.args.args[i].arg) for i in (1, 2, 3))
    n = 0

    def optional_source(t):
        """Does this collection range over the optional keys (perhaps with the global default added)?"""
        t = canon(t)
        return mentions(t, OP)

    for p in ctx.paths(f, inline_modules=[f.module.name], **{**opts(), "keep": lambda e: True}):
        for e in p.trace:
            if e.kind in ("setitem", "mut", "delitem") and e.recv is not None and canon(e.recv) in (CF, OP, RQ):
                ctx.bad("filter:mutates", e.where(), f"resolving a decorator's configuration changes {tstr(e.recv)}", p)
        none = p.facts.get(("isnone", RQ))
        if none is None:
            t = p.facts.get(("truthy", RQ))
            if t is False and p.kind == "return" and canon(p.value) == CF:
                ctx.bad("filter:exact", f.loc(), "a decorator that requires no key sees the whole configuration, without its defaults", p)
                continue
            none = False if t is True else None
        if none is True:
            ctx.check(p.kind == "return" and canon(p.value) == CF, "filter:all", f.loc(), "a decorator that declares nothing does not see the whole configuration", p)
            n += 1
            continue
        miss = [(k, v) for k, v in p.facts.items() if k[0] == "truthy" and mentions(k, RQ) and k[1] != RQ]
        miss += [(k, not v) for k, v in p.facts.items() if k[0] == "in" and k[2] == CF and k[1] == ("elem", RQ)]
        ctx.need(none is False, "resolve_config: required keys not recognised")
        if p.kind == "raise":
            ctx.check(any(v for k, v in miss), "filter:missing", f.loc(), "resolving a decorator's configuration fails although no required key is missing", p)
            continue
        if p.kind != "return":
            continue
        n += 1
        ctx.check(not any(v for k, v in miss), "filter:missing", f.loc(), "a missing required key is not reported", p)
        v = canon(p.value)
        ctx.need(v[0] == "dict" or v[0] == "copy", "resolve_config: result not recognised")
        req = opt = False
        for r in v[1]:
            if r[0] == "spread":
                ctx.check(canon(r[1]) != CF, "filter:exact", f.loc(), "a decorator sees keys it did not declare", p)
                ctx.need(False, "resolve_config: result not recognised")
            k, val, gs = canon(r[1]), canon(r[2]), {canon(a): b for a, b in {**p.facts, **guards_of(r)}.items()}
            there = gs.get(("in", k, CF))
            conf = ("item", CF, k)
            if k == ("elem", RQ):
                req = True
                ctx.check(val == conf, "filter:required", f.loc(), f"a required key has the value {tstr(val)[:80]}", p)
                g2 = {a: b for a, b in guards_of(r).items()}
                ctx.check(all(a == ("in", k, CF) and b is True for a, b in g2.items()), "filter:required", f.loc(), "a required key is not passed on", p)
            elif k == const(POWER) or k[0] == "global" and k[1].endswith("ENABLE_POWER_USER_MODE"):
                if p.facts.get(("isnone", OP)) is not False:
                    opt = True
                if there is True:
                    ctx.check(val == conf, "filter:optional", f.loc(), f"a configured optional key has the value {tstr(val)[:80]}", p)
            else:
                src = k[1] if k[0] in ("elem", "key") else None
                ctx.need(src is not None and optional_source(src), f"resolve_config: key {tstr(k)[:80]} not recognised")
                opt = True
                if there is True:
                    ctx.check(val == conf, "filter:optional", f.loc(), f"a configured optional key has the value {tstr(val)[:80]}", p)
                elif there is False:
                    ctx.check(val[0] in ("item", "val") and mentions(val, OP) and not mentions(val, CF), "filter:default", f.loc(), f"an absent optional key has the value {tstr(val)[:80]}, not its default", p)
                else:
                    d = val[0] == "pure" and val[1] == "get" and val[2] == CF and val[3][0] == k
                    ctx.check(d or val == conf and False, "filter:optional", f.loc(), f"an optional key has the value {tstr(val)[:80]} whether configured or not", p)
        if p.facts.get(("truthy", RQ)) is not False:
            ctx.check(req, "filter:required", f.loc(), "required keys are not passed on", p)
        if p.facts.get(("isnone", OP)) is False and p.facts.get(("truthy", OP)) is not False:
            dup = any(k[0] == "in" and k[1][0] in ("elem", "key") and optional_source(k[1]) and canon(k[2]) != CF and not optional_source(k[2]) and v for k, v in p.facts.items())
            ctx.check(opt or dup, "filter:optional", f.loc(), "optional keys are not passed on", p)
    ctx.need(n >= 2, "resolve_config not recognised")
    f = ix.func(FM + "base.filter_config")
    for p in ctx.paths(f, opaque=["resolve_config"], **opts()):
        if p.kind != "return":
            continue
        D = ("param", f.node.args.args[1].arg)
        es = [e for e in p.trace if e.name == "resolve_config"]
        rq = [e for e in p.trace if e.name == "required_config" and e.recv == D]
        op = [e for e in p.trace if e.name == "optional_config" and e.recv == D]
        ctx.need(len(es) == 1 and len(rq) == 1 and len(op) == 1, "filter_config not recognised")
        g = ix.func(FM + "base.resolve_config")
        names_ = [a.arg for a in g.node.args.args]
        got = [canon(es[0].arg(names_[i], i)) for i in (1, 2, 3)]
        ctx.check(got == [("param", f.node.args.args[0].arg), ("res", rq[0].uid), ("res", op[0].uid)], "filter:declared", es[0].where(), "a decorator's configuration is not filtered by what it declares", p)
        ctx.check(canon(p.value) == ("res", es[0].uid), "filter:declared", f.loc(), "a decorator is not given its filtered configuration", p)


# ---------------------------------------------------------------- decorators declare what they read

WHOLE = {"resolve_nodes", "collect_nodes", "resolves", "resolve"}


def declared_reads(ctx):
    ctx.rule("(reads) every key a decorator looks up in the configuration it is given is one it declares (required or optional), and a decorator that hands its configuration on to other functions' decorators or to conditions declares nothing (so it sees everything), the keys the user listed, or the keys of all those conditions.")
    ix = ctx.ix
    seen = 0
    for C in sorted(ix.subclasses_of(FM + "base.NodeTransformLifecycle"), key=lambda c: c.qual):
        if not C.module.name.startswith(FM) and not C.module.name.startswith("hamilton.plugins."):
            continue
        for name, f in sorted(C.methods.items()):
            ps = [a.arg for a in f.node.args.args]
            par = next((a for a in ps if a in ("config", "configuration")), None)
            if par is None or name == "__init__":
                continue
            if C.name in ("resolve", "DynamicResolver", "resolve_from_config"):
                continue  # resolved on the whole configuration, decided below
            keys, whole = [], []
            for x in ast.walk(f.node):
                if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == par:
                    keys.append((x.slice, x))
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("get", "pop", "setdefault") and isinstance(x.func.value, ast.Name) and x.func.value.id == par and x.args:
                    keys.append((x.args[0], x))
                elif isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)) and isinstance(x.comparators[0], ast.Name) and x.comparators[0].id == par:
                    keys.append((x.left, x))
                elif isinstance(x, ast.Call):
                    fn = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "")
                    if fn in WHOLE and any(isinstance(y, ast.Name) and y.id == par for a in list(x.args) + [k.value for k in x.keywords] for y in ast.walk(a)):
                        whole.append(x)
            if not keys and not whole:
                continue
            decl = {}
            for which in ("required_config", "optional_config"):
                g = ix.method(C, which)
                ctx.need(g is not None, f"{C.name}.{which} not found")
                decl[which] = [canon(p.value) for p in ctx.paths(g, self_cls=C, **opts()) if p.kind == "return"]
            loc = lambda x: f"{f.loc().split(':')[0]}:{x.lineno} in {f.qual}"
            everything = NONE in decl["required_config"] and len(decl["required_config"]) == 1
            for k, x in keys:
                seen += 1
                if everything:
                    continue
                if isinstance(k, ast.Attribute) and isinstance(k.value, ast.Name) and k.value.id == "self":
                    t = ("attr", SELFT, k.attr)
                elif isinstance(k, ast.Constant):
                    t = const(k.value)
                elif isinstance(k, (ast.Name, ast.Attribute)) and ast.unparse(k).endswith("ENABLE_POWER_USER_MODE"):
                    continue
                else:
                    ctx.need(False, f"{f.qual}: key {ast.unparse(k)} not recognised")
                ok = all(v[0] in ("list", "tuple", "set") and any(r[0] == "e" and canon(r[1]) == t for r in v[1]) for v in decl["required_config"]) \
                    or any(v[0] == "dict" and any(r[0] == "kv" and canon(r[1]) == t for r in v[1]) for v in decl["optional_config"])
                ctx.check(ok, f"reads:{C.name}", loc(x), f"{C.name} looks up {ast.unparse(k)} without declaring it, so it never sees it")
            for x in whole:
                seen += 1
                user = all(v == ("attr", SELFT, "config_required") for v in decl["required_config"])
                TR = ("attr", SELFT, "transforms")
                conds = any(v[0] == "dict" and any(r[0] == "spread" and mentions(r[1], ("elem", TR)) and tstr(r[1]).endswith("optional_config") for r in v[1]) for v in decl["optional_config"]) \
                    and all(v[0] == "dict" for v in decl["optional_config"])
                ctx.check(everything or user or conds, f"reads:{C.name}", loc(x), f"{C.name} decides by configuration keys it does not declare, so they are always absent")
    ctx.need(seen >= 6, "configuration lookups of decorators not recognised")
    # the merge of the steps' keys misses none
    for cn in ("pipe_input", "pipe_output"):
        C = ix.cls(FM + "macros." + cn)
        f = ix.method(C, "optional_config")
        for p in ctx.paths(f, self_cls=C, **opts()):
            if p.kind != "return":
                continue
            T = ("attr", SELFT, "transforms")
            Rv = ("attr", ("elem", T), "resolvers")
            if p.facts.get(("truthy", T)) is False or p.facts.get(("truthy", Rv)) is False:
                continue
            v = canon(p.value)
            if v == ("attr", ("elem", Rv), "optional_config"):
                ctx.bad(f"reads:{cn}:all", f.loc(), "only the keys of one condition are declared", p)
                continue
            ctx.need(v[0] == "dict", f"{cn}.optional_config not recognised")
            ctx.check(any(r[0] == "spread" and r[1] == ("attr", ("elem", Rv), "optional_config") and not guards_of(r) or r[0] == "kv" and mentions(r[1], ("elem", Rv)) and not any(k[0] != "dictlike" for k in guards_of(r)) for r in v[1]), f"reads:{cn}:all", f.loc(), "keys read by a step's condition are not declared", p)
    C = ix.cls(FM + "recursive.with_columns_base")
    f = ix.method(C, "__init__")
    for p in ctx.paths(f, self_cls=C, opaque=["collect_functions"], **opts()):
        if p.kind == "return":
            es = [e for e in p.trace if e.kind == "setattr" and e.name == "config_required" and e.recv == SELFT]
            ctx.need(len(es) == 1, "with_columns: config_required not recognised")
            ctx.check(canon(es[0].args[0]) == ("param", "config_required"), "reads:with_columns", es[0].where(), "the keys listed by the user are not the ones declared", p)


# ---------------------------------------------------------------- decorators made from configuration

def delayed(ctx):
    ctx.rule("(delayed) @resolve builds its decorator only in power-user mode, from exactly the parameters of the given function: all required ones (missing ones are an error) and the optional ones that are configured.")
    ix = ctx.ix
    C = ix.cls(FM + "delayed.resolve")
    f = ix.method(C, "resolve")
    CF = ("param", "config")
    RQ, OP = ("attr", SELFT, "_required_config"), ("attr", SELFT, "_optional_config")
    n = 0
    for p in ctx.paths(f, self_cls=C, inline_modules=[f.module.name], **opts()):
        mode = next((v for k, v in p.facts.items() if k[0] == "truthy" and POWER in tstr(k) or k[0] == "truthy" and "ENABLE_POWER_USER_MODE" in tstr(k)), None)
        miss = p.facts.get(("in", ("elem", RQ), CF)) is False or any(k[0] == "truthy" and mentions(k[1], RQ) and k[1] != RQ and v for k, v in p.facts.items())
        absent = any(k[0] == "in" and k[2] == CF and POWER in tstr(k[1]) and v is False for k, v in p.facts.items())
        if p.kind == "raise":
            ctx.check(mode is not True or miss, "delayed:fails", f.loc(), "@resolve fails although power-user mode is on and no key is missing", p)
            continue
        if p.kind != "return":
            continue
        ctx.check(mode is True, "delayed:mode", f.loc(), "@resolve works without power-user mode", p)
        ctx.check(not miss, "delayed:missing", f.loc(), "@resolve goes on although a required key is missing", p)
        es = [e for e in p.trace if e.kind in ("call", "callv") and (e.name == "decorate_with" or mentions(e.recv or NONE, ("attr", SELFT, "decorate_with")))]
        ctx.need(len(es) == 1, "@resolve: call of the given function not recognised")
        n += 1
        ctx.check(canon(p.value) == ("res", es[0].uid), "delayed:result", f.loc(), "the decorator made is not the one applied", p)
        recs = []
        for s in es[0].spreads:
            s = canon(s)
            recs += [s] if s[0] in ("genkv", "kv") else [r for r in s[1]] if s[0] == "dict" else [None]
        ctx.need(None not in recs, "@resolve: arguments not recognised")
        req = opt = False
        for r in recs:
            ctx.need(r[0] in ("genkv", "kv"), "@resolve: arguments not recognised")
            k, v = canon(r[1]), canon(r[2])
            src = k[1] if k[0] in ("elem", "key") else k
            if src == RQ:
                req = True
                ctx.check(v == ("item", CF, k) and not guards_of(r), "delayed:required", es[0].where(), f"a required parameter is {tstr(v)[:60]}", p)
            elif src == OP:
                opt = True
                there = {**p.facts, **guards_of(r)}.get(("in", k, CF))
                ok = v == ("item", CF, k) if there is True else v in (("val", OP), ("item", OP, k)) if there is False else False
                ctx.check(ok, "delayed:optional", es[0].where(), f"an optional parameter that is {'configured' if there else 'absent'} is {tstr(v)[:60]}", p)
            else:
                ctx.bad("delayed:extra", es[0].where(), f"the function is given {tstr(k)[:60]}, which it does not declare", p)
        if p.facts.get(("truthy", RQ)) is not False:
            ctx.check(req, "delayed:required", es[0].where(), "required parameters are not passed", p)
        there = next((v for k, v in p.facts.items() if k[0] == "in" and k[2] == CF and k[1] in (("elem", OP), ("key", OP))), None)
        if there is True:
            ctx.check(opt, "delayed:optional", es[0].where(), "a configured optional parameter is not passed", p)
    ctx.need(n, "@resolve not recognised")
    f = ix.func(FM + "delayed.extract_and_validate_params")
    n = 0
    for p in ctx.paths(f, **opts()):
        if p.kind != "return":
            continue
        v = canon(p.value)
        ctx.need(v[0] == "tuple" and len(v[1]) == 2, "extract_and_validate_params not recognised")
        rq, op = canon(v[1][0][1]), canon(v[1][1][1])
        ctx.need(rq[0] == "list" and op[0] == "dict", "extract_and_validate_params not recognised")
        n += 1
        for r in op[1]:
            ctx.need(r[0] == "kv" and r[1][0] == "key", "extract_and_validate_params: optional parameters not recognised")
            ctx.check(r[2] == ("attr", ("val", r[1][1]), "default"), "delayed:default", f.loc(), f"the default of an optional parameter is {tstr(r[2])[:60]}", p)
        fs = {k: v for k, v in p.facts.items() if tstr(k).count("default") and tstr(k).count("empty")}
        for r in list(rq[1]) + list(op[1]):
            fs2 = {**fs, **{k: v for k, v in guards_of(r).items() if "default" in tstr(k)}}
            eq = next((b for a, b in fs2.items() if a[0] in ("eq", "is")), None)
            if eq is None and any(k[0] in ("truthy", "isnone") and k[1][0] == "attr" and k[1][2] == "default" for k in {**p.facts, **guards_of(r)}):
                ctx.bad("delayed:kinds", f.loc(), "whether a parameter has a default is decided by the default's value", p)
                continue
            ctx.need(eq is not None, "extract_and_validate_params: kinds not recognised")
            ctx.check(eq is (r in rq[1]), "delayed:kinds", f.loc(), f"a parameter {'without' if eq else 'with'} default is {'required' if r in rq[1] else 'optional'}", p)
    ctx.need(n, "extract_and_validate_params not recognised")


PARTS = [("conditions", conditions), ("config", config_decorator), ("filter", filtering), ("reads", declared_reads), ("delayed", delayed)]
