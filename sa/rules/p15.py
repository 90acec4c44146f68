"""P15: nodes made by decorators bind their own parameters."""
import ast

from .common import *

FM = "hamilton.function_modifiers."
K = ("param", "KW")
ISCO = "iscoroutinefunction"
ALIAS = {"_input_types": "input_types", "_callable": "callable", "_name": "name", "_type": "type", "_doc": "documentation"}


def canon(t):
    """Normalise spelling differences: private fields, copies, iteration over keys, D[key(D)]."""
    if not isinstance(t, tuple):
        return t
    t = tuple(canon(x) for x in t)
    if not t:
        return t
    if t[0] == "attr" and len(t) == 3 and t[2] in ALIAS:
        t = ("attr", t[1], ALIAS[t[2]])
    if t[0] == "pure" and len(t) > 3 and t[1] in ("keys", "items", "list", "tuple", "sorted", "iter", "dict", "copy"):
        inner = t[2] if t[2] is not None else (t[3][0] if len(t[3]) == 1 else None)
        if inner is not None and t[1] != "sorted":
            t = ("pure", "keys", inner, (), ()) if t[1] == "keys" else inner if t[1] in ("list", "tuple", "dict", "copy", "iter") else t
    u = unwrap(t)
    if u != t:
        t = u
    if t[0] == "elem" and t[1][0] == "pure" and t[1][1] == "keys":
        t = ("key", t[1][2])
    if t[0] == "item" and t[2] == ("key", t[1]):
        t = ("val", t[1])
    return t


def guards_of(r):
    L = r[-1]
    return dict(L[2]) if isinstance(L, tuple) and L and L[0] == "L" and len(L) > 2 else {}


def facts(d):
    out = {}
    for k, v in d.items():
        k = canon(k)
        out[k] = v
    return out


def contradict(a, b):
    return any(k in b and b[k] != v for k, v in a.items())


def lookup(v):
    """The name under which a value is taken from the keyword arguments of the node, through layered dicts."""
    v = canon(v)
    if v[0] == "item":
        base = v[1]
        if base == K:
            return v[2]
        L = dict_layers(base)
        if L and L[-1] == K:
            return v[2]
    return None


def fields(e):
    return e.bound or e.kwargs


def made(p):
    """(event, callable term) for each node the path builds with a callable of its own."""
    for e in p.trace:
        if e.name in ("copy_with", "Node"):
            cb = fields(e).get("callabl")
            if cb is not None:
                yield e, cb


def returned(v, e):
    """Is the node built by event e among the elements of the returned collection?"""
    return v[0] in ("list", "tuple") and any(r[0] == "e" and (strip_await(r[1]) == ("res", e.uid) or r[1][0] == "inst" and ("ctor", e.uid) in r[1][1]) for r in v[1])


def is_fn(t):
    while t[0] == "partial":
        t = t[1]
    return t[0] in ("clos", "func")


def calls(q, users):
    """Calls of the wrapped user function on an invoked path."""
    out = []
    for e in q.trace:
        if e.kind == "call" and e.recv is not None and ("attr", canon(e.recv), ALIAS.get(e.name, e.name)) in users:
            out.append(e)
        elif e.kind == "callv" and canon(e.recv) in users:
            out.append(e)
    return out


def opts(extra=()):
    return dict(raises="none", pure=[ISCO], keyfacts=lambda k: True)


# ---------------------------------------------------------------- agreement of declared inputs and lookups

def declared(IT, wrapped):
    """[(declared name, parameter of the wrapped callable whose type it carries, facts)] or None"""
    IT = canon(IT)
    if IT == ("attr", wrapped, "input_types"):
        return [(("key", IT), ("key", IT), {})]
    X = ("attr", wrapped, "input_types")
    out = []
    if IT[0] != "dict":
        return None
    for r in IT[1]:
        if r[0] == "spread":
            s = declared(r[1], wrapped)
            if s is None:
                return None
            out += s
            continue
        if r[0] != "kv":
            return None
        D, V, g = r[1], r[2], facts(guards_of(r))
        if V == ("val", X):
            P = ("key", X)
        elif V[0] == "item" and V[1] == X:
            P = V[2]
        else:
            return None
        M = next((x[1] for x in (D, P) if x[0] in ("key", "val") and x[1][0] == "dict"), None)
        if M is not None:
            for m in M[1]:
                if m[0] != "kv":
                    return None
                sub = {("key", M): m[1], ("val", M): m[2]}
                out.append((sub.get(D, D), sub.get(P, P), {**g, **facts(guards_of(m))}))
        else:
            out.append((D, P, g))
    return out


def bindings(e):
    """[(parameter, name looked up, facts)] of one call, plus the other layers [(position, term)]; None when unknown"""
    pairs, rest = [], []
    for i, s in enumerate(e.spreads):
        s = canon(s)
        if s[0] == "genkv":
            k, v, g = s[1], s[2], facts(guards_of(s))
            n = lookup(v)
            if n is not None:
                pairs.append((k, n, g, i))
            elif v == ("val", K) and k == ("key", K):
                pairs.append((k, k, g, i))
            elif v == ("val", K) and k[0] == "item" and k[2] == ("key", K) and k[1][0] == "dict":
                for m in k[1][1]:
                    if m[0] != "kv":
                        return None
                    pairs.append((m[2], m[1], {**g, **facts(guards_of(m))}, i))
            else:
                rest.append((i, s))
        elif s == K:
            pairs.append((("key", K), ("key", K), {}, i))
        else:
            rest.append((i, s))
    for k, v in e.kwargs.items():
        n = lookup(v)
        if n is not None:
            pairs.append((const(k), n, {}, 99))
        else:
            rest.append((99, ("kv", const(k), v)))
    return pairs, rest


def agreement(ctx, k, cls, name, users, wrapped, opaque=(), skip_layers=()):
    """The names a generated node declares are the names its callable reads, for the parameters whose types they carry."""
    ix = ctx.ix
    f = ix.method(cls, name) if cls is not None else ix.func(name)
    seen = 0
    for p in ctx.paths(f, self_cls=cls, inline_modules=[f.module.name], opaque=list(opaque), **opts()):
        if p.kind != "return":
            continue
        for e, cb in made(p):
            if not is_fn(cb):
                continue
            w = wrapped(e, p)
            IT = fields(e).get("input_types")
            IT = ("attr", w, "input_types") if IT is None else IT
            D = declared(IT, w)
            ctx.need(D is not None, f"{k}: declared inputs {tstr(IT)[:120]} not recognised")
            pf = facts(p.facts)
            us = [canon(u) for u in users(w)]
            got = []
            for q in p.invoke(cb, spreads=(K,), raises="none", keep=lambda e: True, keyfacts=lambda k: True):
                cs = calls(q, us)
                if q.kind != "return" and not cs:
                    continue
                ctx.check(len(cs) == 1, f"{k}:calls-once", e.where(), f"the generated node calls the decorated function {len(cs)} times", q)
                if not cs:
                    continue
                b = bindings(cs[0])
                ctx.need(b is not None, f"{k}: arguments of the call not recognised")
                qf = facts(q.facts)
                for P, N, g, i in b[0]:
                    got.append((P, N, {**qf, **g}, q, cs[0]))
                for i, s in b[1]:
                    ctx.need(s in skip_layers, f"{k}: argument {tstr(s)[:100]} not recognised")
                    ctx.check(all(j < i for _, _, _, j in b[0]), f"{k}:bound-values-win", cs[0].where(), f"{tstr(s)} is overridden by what the run provides under the same name", q)
            ident = any(P == N == ("key", K) and not any(mentions(x, ("key", K)) for x in F) for P, N, F, _, _ in got)
            for P, N, F, q, c in got:
                if P == N == ("key", K):
                    continue
                seen += 1
                Fd = {**pf, **F}
                match = [d for d in D if d[1] == P and not contradict({**pf, **d[2]}, F)]
                ok = any(d[0] == N for d in match)
                # names reached through the same mapping but under another spelling stay undecided
                if not match and any(d[0] == N and not contradict({**pf, **d[2]}, F) for d in D):
                    ctx.check(False, f"{k}:lookup", c.where(), f"the value named {tstr(N)} is handed on as {tstr(P)}, not as the parameter it is declared for", q)
                    continue
                ctx.need(match, f"{k}: parameter {tstr(P)[:80]} is not among the declared ones")
                ctx.check(ok, f"{k}:lookup", c.where(), f"parameter {tstr(P)} takes the value named {tstr(N)}, but the node declares {', '.join(tstr(d[0]) for d in match)} for it", q)
                bad = [d for d in match if d[0] != N]
                ctx.check(not bad or not ok, f"{k}:lookup", c.where(), f"parameter {tstr(P)} takes the value named {tstr(N)} also where the node declares {tstr(bad[0][0]) if bad else ''}", q)
            for Dn, P, g in D:
                if any(v is True and kk[0] == "in" and kk[2] in skip_layers for kk, v in g.items()):
                    continue
                has = any(P == gp and Dn == gn and not contradict({**pf, **g}, F) for gp, gn, F, _, _ in got) or (ident and Dn == P)
                ctx.check(has, f"{k}:declared-unused", e.where(), f"the node declares {tstr(Dn)} but never hands it on as {tstr(P)}", p)
                seen += has
    ctx.need(seen, f"{k}: no binding recognised")


def reassign(ctx):
    ctx.rule("(rename) where a node's inputs are renamed (Node.reassign_inputs, subdag namespacing, a subdag's final node), the names declared as its inputs are exactly the names its callable reads, each for the parameter "
             "whose type it carries; values bound in advance are not declared and win over anything of the same name.")
    ix = ctx.ix
    N = ix.cls("hamilton.node.Node")
    IV = ("param", "input_values")
    agreement(ctx, "reassign_inputs", N, "reassign_inputs", lambda w: [("attr", SELFT, "callable")], lambda e, p: SELFT, skip_layers=(IV, ("dict", ())))
    f = ix.method(N, "reassign_inputs")
    n = 0
    for p in ctx.paths(f, self_cls=N, inline_modules=[f.module.name], **opts()):
        for e, cb in made(p):
            if p.facts.get(("isnone", IV)) is not False:
                continue
            for r in canon(fields(e)["input_types"])[1]:
                n += 1
                g = facts(guards_of(r))
                if r[0] == "kv":
                    ctx.check(any(k[0] == "in" and k[2] == IV and v is False and k[1] == ("key", ("attr", SELFT, "input_types")) for k, v in {**facts(p.facts), **g}.items()), "reassign_inputs:bound-not-declared", e.where(),
                              "a parameter bound to a value is still declared as an input", p)
            for q in p.invoke(cb, spreads=(K,), raises="none", keep=lambda e: True, keyfacts=lambda k: True):
                for c in calls(q, [("attr", SELFT, "callable")]):
                    b = bindings(c)
                    ctx.check(b is None or any(canon(s) == IV for _, s in b[1]), "reassign_inputs:bound-passed", c.where(), "values bound to parameters are not passed to the function", q)
    ctx.need(n, "reassign_inputs: bound values not recognised")
    S = ix.cls(FM + "recursive.subdag")
    agreement(ctx, "subdag.add_namespace", S, "add_namespace", lambda w: [("attr", w, "callable")], lambda e, p: canon(e.recv))
    agreement(ctx, "subdag.add_final_node", S, "add_final_node", lambda w: [("param", "fn"), ("attr", w, "callable")], lambda e, p: canon(e.recv))

# ---------------------------------------------------------------- parameterize

KINDS = ("UPSTREAM", "LITERAL", "GROUPED_LIST", "GROUPED_DICT")
NOT = "none"


def kind_of(t):
    n = t[1] if t[0] == "global" else ""
    return n.rsplit(".", 1)[1] if isinstance(n, str) and "ParametrizedDependencySource." in n else None


def filed(t, sp):
    """Which kinds of replacement a mapping of parameters holds (a set), or None when it is not one."""
    t = canon(t)
    if t[0] == "item" and t[1] in sp and kind_of(t[2]):
        return {kind_of(t[2])}
    if t[0] == "dict":
        out = set()
        for r in t[1]:
            k = filed(r[1], sp) if r[0] == "spread" else None
            if k is None:
                return None
            out |= k
        return out
    if t in sp.values():
        return set(KINDS)
    return None


def kinds_under(fs, x, sp):
    """The kinds of replacement parameter x may have where these facts hold."""
    out = {*KINDS, NOT}
    for k, v in fs.items():
        if k[0] == "in" and k[1] == x:
            s = filed(k[2], sp)
            if s is not None:
                out = out & s if v else out - s
        if k[0] == "eq" and k[1][0] == "pure" and k[1][1] == "get_dependency_type":
            r = k[1][2]
            if r[0] == "item" and r[2] == x and filed(r[1], sp) and kind_of(k[2]):
                out = out & {kind_of(k[2])} if v else out - {kind_of(k[2])}
    return out


def entry_of(t, x, sp):
    """Kinds when t is the replacement given for parameter x."""
    t = canon(t)
    return filed(t[1], sp) if t[0] == "item" and t[2] == x else None


def parameterize(ctx):
    ctx.rule("(parameterize) each generated node declares, for every parameter of the decorated function, what its replacement says: the source's name, the names of the sources of a group, nothing for a literal, the parameter itself "
             "when nothing replaces it; and its callable hands on, under that parameter, the value of that source, the literal, the group's members in order (or by key), or the value of the parameter itself.")
    ix = ctx.ix
    C = ix.cls(FM + "expanders.parameterize")
    f = ix.method(C, "expand_node")
    IT = ("attr", ("param", "node_"), "input_types")
    X = ("key", IT)
    PZ = ("attr", SELFT, "parameterization")
    seen = set()
    seen_d = set()
    for p in ctx.paths(f, self_cls=C, inline_modules=[f.module.name], opaque=["format_doc_string", "split_parameterizations"], raises="none",
                       pure=[ISCO, "get_dependency_type"], keyfacts=lambda k: True):
        if p.kind != "return":
            continue
        ms = list(made(p))
        if p.facts.get(("truthy", PZ)) is False:
            continue
        ctx.need(len(ms) == 1, f"parameterize: {len(ms)} nodes built for one parameterization")
        e, cb = ms[0]
        sps = [s for s in p.trace if s.name == "split_parameterizations"]
        sp = {("res", s.uid): canon(s.arg("parameterizations", 0)) for s in sps}
        pf = facts(p.facts)
        ctx.check(returned(p.value, e), "parameterize:node-dropped", e.where(), "a generated node is not among those returned", p)
        nm = canon(fields(e).get("name", NONE))
        hold = [v for k, v in pf.items() if k[0] == "eq" and k[1] == ("key", PZ) and k[2][0] == "const"]
        ctx.check(nm == (("attr", ("param", "node_"), "name") if hold and hold[0] else ("key", PZ)), "parameterize:name", e.where(), f"the generated node is called {tstr(nm)}, not by the name its parameterization gives", p)
        # what it declares
        D = canon(fields(e).get("input_types", IT))
        ctx.need(D[0] == "dict", f"parameterize: declared inputs {tstr(D)[:100]} not recognised")
        if pf.get(("truthy", IT)) is not False:
            recs = D[1]
            if not recs:
                ks = kinds_under(pf, X, sp)
                ctx.need(ks == {NOT, *KINDS} or not (unknown(pf, X, sp) and ks & {"UPSTREAM", NOT}), "parameterize: condition on a parameter not recognised")
                up = [k for k, v in pf.items() if v is True and k[0] == "eq" and k[1][0] == "pure" and k[1][1] == "get_dependency_type" and k[1][2][0] in ("elem", "val") and k[2] == ("global", DEPS + "UPSTREAM") and mentions(k[1][2], X)]
                ctx.check(not up, "parameterize:undeclared", e.where(), "a source in a group is left out of the inputs the node declares", p)
                if ks != {NOT, *KINDS}:
                    lost = ks & {"UPSTREAM", NOT}
                    ctx.check(not lost, "parameterize:undeclared", e.where(), f"a parameter ({', '.join(sorted(lost))}) is left out of the inputs the node declares", p)
            for r in recs:
                ctx.need(r[0] == "kv", f"parameterize: declared input {tstr(r)[:100]} not recognised")
                fs = {**pf, **facts(guards_of(r))}
                ks = kinds_under(fs, X, sp)
                n, v = r[1], r[2]
                what = None
                if n == X and v == ("val", IT):
                    what = {NOT}
                elif n[0] == "attr" and n[2] == "source" and entry_of(n[1], X, sp) is not None and v == ("val", IT):
                    what = {"UPSTREAM"} & entry_of(n[1], X, sp)
                elif n[0] == "attr" and n[2] == "source" and n[1][0] in ("elem", "val"):
                    S = n[1][1]
                    S = S[2] if S[0] == "pure" and S[1] == "values" else S
                    if S[0] == "attr" and S[2] == "sources" and entry_of(S[1], X, sp) is not None:
                        what = {"GROUPED_LIST" if n[1] == ("elem", S) else "GROUPED_DICT"} & entry_of(S[1], X, sp)
                        ctx.check(fs.get(("eq", ("pure", "get_dependency_type", n[1], (), ()), ("global", DEPS + "UPSTREAM"))) is True or any(k[0] == "isinstance" and k[1] == n[1] for k in fs), "parameterize:group-literal-declared", e.where(),
                                  "a literal member of a group is declared as an input", p)
                ctx.need(what, f"parameterize: declared input {tstr(n)[:80]} not recognised")
                seen_d |= what
                wrong = ks - what
                ctx.need(not wrong or not unknown(fs, X, sp), "parameterize: condition on a parameter not recognised")
                ctx.check(not wrong, "parameterize:declared", e.where(), f"a parameter replaced by {', '.join(sorted(wrong))} is declared as input {tstr(n)}", p)
        # what it hands on
        us = [("attr", ("param", "node_"), "callable")]
        for q in p.invoke(cb, spreads=(K,), raises="none", keep=lambda e: True, keyfacts=lambda k: True):
            if q.kind != "return":
                continue
            cs = calls(q, us)
            ctx.check(len(cs) == 1, "parameterize:calls-once", e.where(), f"the generated node calls the decorated function {len(cs)} times", q)
            if len(cs) != 1:
                continue
            qf = facts(q.facts)
            if qf.get(("truthy", ("pure", "keys", IT, (), ()))) is False or qf.get(("truthy", IT)) is False:
                continue
            ks = kinds_under(qf, X, sp)
            vals = []
            for s in cs[0].spreads:
                s = canon(s)
                ctx.need(s[0] == "genkv", f"parameterize: argument {tstr(s)[:100]} not recognised")
                vals.append(s)
            if not vals:
                free = [k for k, v in qf.items() if k[0] == "in" and k[2] == K and v is False]
                okk = set()
                for k in free:
                    if k[1] == X:
                        okk.add(NOT)
                    elif k[1][0] == "attr" and k[1][2] == "source" and entry_of(k[1][1], X, sp):
                        okk |= {"UPSTREAM"}
                if ks == {NOT, *KINDS} and not okk:
                    continue
                gone = [k for k, v in qf.items() if (k[0] == "isnone" and v is True or k[0] == "truthy" and v is False) and lookup(k[1]) is not None]
                ctx.check(not gone, "parameterize:value-dropped", cs[0].where(), "a value that was given is not handed to the decorated function when it is None or empty", q)
                if gone:
                    continue
                ctx.need(ks <= okk or not unknown(qf, X, sp), "parameterize: condition on a parameter not recognised")
                ctx.check(ks <= okk, "parameterize:unbound", cs[0].where(), f"a parameter ({', '.join(sorted(ks - okk))}) is not handed to the decorated function", q)
                continue
            for s in vals:
                k, v, fs = s[1], s[2], {**qf, **facts(guards_of(s))}
                ctx.need(k == X or k[0] == "key", f"parameterize: argument name {tstr(k)[:80]} not recognised")
                ks = kinds_under(fs, k, sp)
                what = None
                n = lookup(v)
                if n == k:
                    what = {NOT}
                elif n is not None and n[0] == "attr" and n[2] == "source" and entry_of(n[1], k, sp):
                    what = {"UPSTREAM"} & entry_of(n[1], k, sp)
                elif v[0] == "attr" and v[2] == "value" and entry_of(v[1], k, sp):
                    what = {"LITERAL"} & entry_of(v[1], k, sp)
                elif v[0] in ("list", "dict"):
                    what = {"GROUPED_LIST" if v[0] == "list" else "GROUPED_DICT"}
                    for r in v[1]:
                        if not member(ctx, r, v[0], fs, k, sp, cs[0], q):
                            what = None
                ctx.need(what, f"parameterize: value {tstr(v)[:120]} not recognised")
                seen |= what
                wrong = ks - what
                ctx.need(not wrong or not unknown(fs, k, sp), "parameterize: condition on a parameter not recognised")
                ctx.check(not wrong, "parameterize:value", cs[0].where(), f"a parameter replaced by {', '.join(sorted(wrong))} is handed {tstr(v)[:120]}", q)
    for w in (*KINDS, NOT):
        ctx.check(w in seen, f"parameterize:{w}:unsupported", f.loc(), f"no generated node hands on a parameter of kind {w}")
        ctx.check(w in seen_d or w == "LITERAL", f"parameterize:{w}:undeclared", f.loc(), f"no generated node declares a parameter of kind {w}")
    # filing of the replacements
    f = ix.method(C, "split_parameterizations")
    P = ("param", "parameterizations")
    n = 0
    for p in ctx.paths(f, self_cls=C, pure=["get_dependency_type"], raises="none", keyfacts=lambda k: True):
        if p.kind != "return" or p.facts.get(("truthy", P)) is False:
            continue
        v = p.value
        if v == ("dict", ()) and not p.trace:
            continue
        ctx.need(v[0] == "dict", "split_parameterizations: result not recognised")
        for r in v[1]:
            n += 1
            ctx.need(r[0] == "kv" and r[2][0] == "dict" and all(x[0] == "kv" for x in r[2][1]), "split_parameterizations: result not recognised")
            T = ("pure", "get_dependency_type", ("val", P), (), ())
            each = r[1][0] in ("elem", "global") and all(guard_has(x, lambda k, v: v is True and k[0] == "eq" and set(k[1:]) == {T, r[1]}) for x in r[2][1])
            ctx.need(r[1] == T or each or r[1][0] == "pure", "split_parameterizations: result not recognised")
            ctx.check((r[1] == T or each) and all(x[1:3] == (("key", P), ("val", P)) for x in r[2][1]), "parameterize:filing", f.loc(),
                      "a replacement is not filed under its own parameter and kind", p)
    ctx.need(n, "split_parameterizations not recognised")


DEPS = FM + "dependencies.ParametrizedDependencySource."


def unknown(fs, x, sp):
    """Is there a condition on x that the classification does not understand?"""
    for k in fs:
        if not mentions(k, x) or k[0] in ("truthy", "dictlike", "isinstance") and not (k[0] == "isinstance" and k[1][0] == "item"):
            continue
        if k[0] == "in" and (k[2] == K or k[1] == x and filed(k[2], sp) is not None):
            continue
        if k[0] == "eq" and k[1][0] == "pure" and k[1][1] == "get_dependency_type":
            continue
        return True
    return False


def member(ctx, r, how, fs, x, sp, c, q):
    """One member of a group handed on: True when recognised."""
    v = canon(r[-2])
    fs = {**fs, **facts(guards_of(r))}
    n = lookup(v)
    t = n if n is not None else v
    if t[0] != "attr" or t[2] not in ("source", "value"):
        return False
    m, fld = t[1], t[2]
    if m[0] not in ("elem", "val"):
        return False
    S = m[1]
    if S[0] != "attr" or S[2] != "sources" or entry_of(S[1], x, sp) is None:
        return False
    up = fs.get(("eq", ("pure", "get_dependency_type", m, (), ()), ("global", DEPS + "UPSTREAM")))
    if up is None:
        up = next((v for k, v in fs.items() if k[0] == "isinstance" and k[1] == m and "UpstreamDependency" in repr(k[2])), None)
    lit = fs.get(("eq", ("pure", "get_dependency_type", m, (), ()), ("global", DEPS + "LITERAL")))
    if up is None and lit is not None:
        up = not lit
    ctx.need(up is not None, "parameterize: kind of a group's member not recognised")
    ctx.check((n is not None and fld == "source") if up else (n is None and fld == "value"), "parameterize:group-member", c.where(),
              f"a member of a group that is {'an upstream source' if up else 'a literal'} is handed on as {tstr(v)[:100]}", q)
    cond = [k for k in fs if mentions(canon(k), v)]
    ctx.check(not cond, "parameterize:group-all", c.where(), f"a member of a group is handed on or not depending on its value: {tstr(cond[0])[:100] if cond else ''}", q)
    if how == "dict":
        ctx.check(r[0] == "kv" and canon(r[1]) == ("key", S), "parameterize:group-key", c.where(), "a member of a group is handed on under another key", q)
        return r[0] == "kv"
    ctx.check(r[0] == "e" and m == ("elem", S) and not any(x.kind == "mut" and x.name in ("insert", "reverse", "sort") for x in q.trace), "parameterize:group-order", c.where(), "the members of a group are not handed on in their order", q)
    return True


def factories(ctx):
    ctx.rule("(specs) source(), value() and group() make the dependency they are named after around exactly what they were given, and each kind of dependency reports itself as that kind.")
    ix = ctx.ix
    for cn, kind in (("LiteralDependency", "LITERAL"), ("UpstreamDependency", "UPSTREAM"), ("GroupedListDependency", "GROUPED_LIST"), ("GroupedDictDependency", "GROUPED_DICT")):
        C = ix.cls(FM + "dependencies." + cn)
        f = ix.method(C, "get_dependency_type")
        for p in ctx.paths(f, self_cls=C, raises="none"):
            if p.kind == "return":
                ctx.check(kind_of(p.value) in (kind, None), f"specs:{cn}", f.loc(), f"{cn} reports itself as {tstr(p.value)}", p)
    for fn, par, cn, fld in (("value", "literal_value", "LiteralDependency", "value"), ("source", "dependency_on", "UpstreamDependency", "source")):
        f = ix.func(FM + "dependencies." + fn)
        G = ("param", par)
        n = 0
        for p in ctx.paths(f, raises="none", keyfacts=lambda k: True):
            if p.kind != "return":
                continue
            n += 1
            if p.value[0] != "inst":
                isin = [k[2][1].rsplit(".", 1)[-1] for k, v in p.facts.items() if k[0] == "isinstance" and k[1] == G and v and k[2][0] == "global"]
                ctx.check(p.value == G and isin == [cn], f"specs:{fn}", f.loc(), f"{fn}() hands back {tstr(p.value)}", p)
                continue
            ctx.check(p.value[2].endswith("." + cn), f"specs:{fn}", f.loc(), f"{fn}() makes a {p.value[2]}", p)
            ctx.check(inst_field(p.value, fld) == G, f"specs:{fn}:given", f.loc(), f"{fn}() is built around {tstr(inst_field(p.value, fld) or NONE)}", p)
        ctx.need(n, f"{fn}() not recognised")
    f = ix.func(FM + "dependencies.group")
    A, KD = ("param", "*dependency_args"), ("param", "**dependency_kwargs")
    for p in ctx.paths(f, opaque=["_validate_group_params"], raises="none", keyfacts=lambda k: True):
        if p.kind != "return":
            continue
        ctx.need(p.value[0] == "inst", "group(): result not recognised")
        cn = p.value[2].rsplit(".", 1)[-1]
        got = canon(inst_field(p.value, "sources") or NONE)
        want = A if cn == "GroupedListDependency" else KD
        ctx.check(got == want, "specs:group:given", f.loc(), f"group() makes a {cn} around {tstr(got)}", p)
        ctx.check(p.facts.get(("truthy", want)) is not False and p.facts.get(("truthy", A if want == KD else KD)) is not True, "specs:group", f.loc(), f"group() makes a {cn} out of the other kind of arguments", p)


def inst_field(t, name):
    for r in t[1]:
        if r[0] == "kv" and r[1] == const(name):
            return r[2]
    return None

# ---------------------------------------------------------------- extraction

def extraction(ctx):
    ctx.rule("(extract) a node made by extract_columns / extract_fields depends on exactly the node it extracts from, takes from its value the element it is named after, and fails only where that element is absent; the node "
             "extracted from keeps calling the decorated function once with everything it was given, returns what that returns, and has fill_with put (whatever its value, unless None) exactly under the names it lacks.")
    ix = ctx.ix
    FILL = ("attr", SELFT, "fill_with")
    for cn in ("extract_columns", "extract_fields"):
        C = ix.cls(FM + "expanders." + cn)
        f = ix.method(C, "transform_node")
        BN = ("attr", ("param", "node_"), "name")
        nn = nb = 0
        anyfill = False
        for p in ctx.paths(f, self_cls=C, inline_modules=[f.module.name], **opts()):
            if p.kind != "return":
                continue
            ctx.need(p.value[0] == "list", f"{cn}: result not recognised")
            for e, cb in made(p):
                ctx.check(returned(p.value, e), f"{cn}:node-dropped", e.where(), "a generated node is not among those returned", p)
                qs = p.invoke(cb, spreads=(K,), raises="none", keep=lambda e: True, keyfacts=lambda k: True)
                if e.name == "copy_with":
                    nb += 1
                    ctx.check(set(fields(e)) <= {"self", "callabl", "include_refs"} and canon(e.recv or NONE) == ("param", "node_"), f"{cn}:base", e.where(), "the node extracted from is not the decorated node with a wrapped callable", p)
                    filled = False
                    for q in qs:
                        cs = calls(q, [("attr", ("param", "node_"), "callable")])
                        if q.kind == "raise" and "AssertionError" not in repr(q.value):
                            continue
                        ctx.check(len(cs) == 1 and [canon(x) for x in cs[0].spreads] == [K] and not cs[0].kwargs, f"{cn}:base-call", e.where(), "the decorated function is not called once with everything the node was given", q)
                        if len(cs) != 1:
                            continue
                        R = ("res", cs[0].uid)
                        on = q.facts.get(("isnone", FILL))
                        if q.kind == "return":
                            lay = [strip_await(x) for x in dict_layers(q.value)]
                            if len(lay) > 1 and lay[-1] == R and on is False and all(x[0] == "kv" and x[2] == FILL for x in lay[:-1]):
                                filled = True
                                continue
                            ctx.need(strip_await(q.value) == R or not mentions(q.value, R), f"{cn}: value {tstr(q.value)[:80]} not recognised")
                            ctx.check(strip_await(q.value) == R, f"{cn}:base-value", e.where(), f"the node extracted from returns {tstr(q.value)[:80]} instead of what the decorated function returned", q)
                        ctx.check(q.facts.get(("truthy", FILL)) is None, f"{cn}:fill-falsy", e.where(), "fill_with is ignored when it is falsy (0, '')", q)
                        fills = [x for x in q.trace if x.name == "fill_with_scalar" or x.kind == "setitem" and strip_await(x.recv) == R]
                        miss = [k[1] for k, v in q.facts.items() if k[0] == "in" and strip_await(k[2]) == R and v is False]
                        has = [k[1] for k, v in q.facts.items() if k[0] == "in" and strip_await(k[2]) == R and v is True]
                        for x in fills:
                            a = [strip_await(y) for y in x.args] if x.kind == "setitem" else [strip_await(y) for y in x.args][1:] + [v for v in x.kwargs.values()]
                            absent = [k[1] for k, v in x.nfacts.items() if k[0] == "in" and strip_await(k[2]) == R and v is False]
                            for lp in x.loops:
                                if lp[1][0] in ("list", "set", "tuple"):
                                    absent += [r[1] for r in lp[1][1] if r[0] == "e" and guard_has(r, lambda k, v: k[0] == "in" and strip_await(k[2]) == R and v is False)]
                            ctx.check(on is False and a and a[0] in absent and FILL in a, f"{cn}:fill", x.where(), "fill_with is put under a name the result has, or something else is put", q)
                            filled = True
                        if on is False and miss:
                            ctx.check(len(fills) == 1, f"{cn}:fill", e.where(), "a missing element is not filled although fill_with is given", q)
                        if has:
                            ctx.check(not fills, f"{cn}:fill", e.where(), "an element that is present is overwritten with fill_with", q)
                    anyfill = anyfill or filled
                else:
                    nn += 1
                    b = fields(e)
                    nm = canon(b.get("name", NONE))
                    it = canon(b.get("input_types", NONE))
                    ctx.need(it[0] == "dict", f"{cn}: inputs {tstr(it)[:80]} not recognised")
                    ctx.check(len(it[1]) == 1 and it[1][0][0] == "kv" and it[1][0][1] == BN, f"{cn}:depends", e.where(), f"the extracted node depends on {tstr(it)[:80]}, not on the node it is extracted from alone", p)
                    for q in qs:
                        frame = ("item", K, BN)
                        qf = facts(q.facts)
                        if q.kind == "return":
                            v = canon(strip_await(q.value))
                            g = next((x for x in q.trace if v == ("res", x.uid)), None)
                            if g is not None and g.name == "get_column":
                                got = (canon(g.arg("df", 0)), canon(g.arg("column_name", 1)))
                            elif v[0] == "item":
                                got = v[1:]
                            else:
                                ctx.need(v[0] not in ("pure", "res", "attr"), f"{cn}: extracted value {tstr(v)[:80]} not recognised")
                                got = (v, NONE)
                            ctx.check(got == (frame, nm), f"{cn}:extracts", e.where(), f"the node named {tstr(nm)} yields {tstr(got[0])}[{tstr(got[1])}]", q)
                        else:
                            ctx.check(any(k[0] == "in" and v is False and k[1] == nm for k, v in qf.items()), f"{cn}:fails", e.where(), "the extracted node fails although its element is present", q)
        ctx.need(nn and nb, f"{cn} not recognised")
        ctx.check(anyfill, f"{cn}:fill", f.loc(), "fill_with is never put")


# ---------------------------------------------------------------- loops and closures

def bound_in(nodes):
    out = set()
    for n in nodes:
        stack = [n]
        while stack:
            x = stack.pop()
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(x.name)
                continue
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            stack += ast.iter_child_nodes(x)
    return out


def free_names(fn):
    a = fn.args
    own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else [])}
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    comp = {y.id for b in body for x in ast.walk(b) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)}
    own |= bound_in(body) | comp
    return {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} - own


IMMEDIATE = {"sorted", "min", "max", "map", "filter", "sort", "groupby", "reduce", "any", "all", "next", "sum", "list", "dict", "set", "tuple"}


def capture(ctx, only=None):
    ctx.rule("(capture) a function defined inside a loop and handed on (as a node's callable, in a list) does not read a variable that the loop assigns anew: each node's callable has its own iteration's values.")
    n = 0
    for mod in sorted(ctx.ix.modules):
        if only is not None and mod not in only:
            continue
        if not mod.startswith("hamilton.") or mod.startswith("hamilton.plugins.h_experiments") or "contrib" in mod:
            continue
        m = ctx.ix.modules[mod]
        par = {c: x for x in ast.walk(m.tree) for c in ast.iter_child_nodes(x)}

        def visit(x, loops):
            nonlocal n
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                if loops:
                    n += 1
                    fr = free_names(x)
                    for lp in loops:
                        b = bound_in([lp.target] + lp.body) if isinstance(lp, (ast.For, ast.AsyncFor)) else bound_in(lp.body) if isinstance(lp, ast.While) else {
                            y.id for g in lp.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                        hit = fr & b
                        if hit:
                            ctx.check(not escapes(x, lp, par), f"capture:{mod}:{getattr(x, 'name', 'lambda')}:{','.join(sorted(hit))}", f"{m.rel}:{x.lineno}",
                                      f"{getattr(x, 'name', 'the lambda')} reads {', '.join(sorted(hit))}, which the loop around it assigns anew: every function made in the loop sees the last value")
                for c in ast.iter_child_nodes(x):
                    visit(c, [])
                return
            if isinstance(x, ast.ClassDef):
                loops = []
            if isinstance(x, (ast.For, ast.AsyncFor, ast.While, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
                loops = loops + [x]
            for c in ast.iter_child_nodes(x):
                visit(c, loops)
        visit(m.tree, [])
    ctx.count("functions_in_loops", n)
    ctx.ok("hamilton", "capture:scanned")


def escapes(fn, loop, par):
    """Is the function kept beyond the iteration that defines it?"""
    if isinstance(fn, ast.Lambda):
        x = par.get(fn)
        while isinstance(x, (ast.keyword, ast.Starred)):
            x = par.get(x)
        if isinstance(x, ast.Call):
            nm = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "")
            return nm in ("Node", "copy_with", "append", "partial", "add", "insert", "setdefault")
        return isinstance(x, (ast.ListComp, ast.DictComp, ast.SetComp, ast.Tuple, ast.List, ast.Dict))
    inside = set(ast.walk(fn))
    for x in ast.walk(loop):
        if isinstance(x, ast.Name) and x.id == fn.name and isinstance(x.ctx, ast.Load) and x not in inside:
            up = par.get(x)
            if isinstance(up, ast.Call) and up.func is x:
                continue
            while isinstance(up, (ast.keyword, ast.Starred)):
                up = par.get(up)
            if isinstance(up, ast.Call):
                nm = up.func.attr if isinstance(up.func, ast.Attribute) else getattr(up.func, "id", "")
                if nm in IMMEDIATE:
                    continue
            return True
    return False


# ---------------------------------------------------------------- steps and pipes

APF = {"fn": "fn", "args": "args", "kwargs": "kwargs", "target_fn": "target_fn", "_resolvers": "resolvers", "_name": "name", "_namespace": "namespace", "_target": "target"}
ELLIPSIS = ("const", Ellipsis, "ellipsis")


def steps(ctx):
    ctx.rule("(steps) refining a step (when*, named, namespaced, on_output) changes what it names and keeps everything else; a step applies iff all its conditions hold; its arguments are bound as sources, literals or plain values to the "
             "parameters they are given for; the steps of a pipe that apply each become one node, in order, the first fed the piped value and each next one the node before it; what follows the pipe reads the last of them.")
    ix = ctx.ix
    M = FM + "macros."
    A = ix.cls(M + "Applicable")
    # the constructor keeps what it is given
    f = ix.method(A, "__init__")
    for p in ctx.paths(f, self_cls=A, inline_modules=[f.module.name], raises="none", keyfacts=lambda k: True):
        if p.kind != "return":
            continue
        for par, fld in APF.items():
            w = [e for e in p.trace if e.kind == "setattr" and e.name == fld and e.recv == SELFT]
            ctx.need(w, f"Applicable.{fld} not set")
            v = canon(w[-1].args[-1])
            ok = v == ("param", par) or par == "_resolvers" and p.facts.get(("isnone", ("param", par))) is True or v[0] == "dict" and all(r[0] == "kv" and r[1:3] == (("key", ("param", par)), ("val", ("param", par))) for r in v[1])
            ctx.check(ok, f"steps:init:{fld}", w[-1].where(), f"a step's {fld} is set to {tstr(v)[:80]}", p)
    # copies
    for mname, changed in (("_with_resolvers", "_resolvers"), ("namespaced", "_namespace"), ("named", "_name"), ("on_output", "_target"), ("when", None), ("when_not", None), ("when_in", None), ("when_not_in", None)):
        f = ix.method(A, mname)
        for p in ctx.paths(f, self_cls=A, inline_modules=[f.module.name], raises="none", keyfacts=lambda k: True):
            if p.kind != "return":
                continue
            es = [e for e in p.trace if e.kind == "new" and e.name == "Applicable"]
            cr = [e for e in p.trace if e.name in ("copy", "deepcopy", "replace")]
            ctx.need(len(es) == 1 and not cr, f"Applicable.{mname}: copy not recognised")
            e = es[0]
            ctx.check(p.value[0] == "inst" and ("ctor", e.uid) in p.value[1], f"steps:{mname}:returned", e.where(), "the refined step is not what is returned", p)
            b = e.bound or e.kwargs
            for par, fld in APF.items():
                own = ("attr", SELFT, fld)
                v = b.get(par)
                if par == changed or changed is None and par == "_resolvers" or mname == "named" and par == "_namespace":
                    if par == "_resolvers":
                        if changed is None:
                            r = [x for x in p.trace if x.name in ("when", "when_not", "when_in", "when_not_in") and x.kind == "call"]
                            ctx.need(len(r) == 1, f"Applicable.{mname}: condition not recognised")
                            ctx.check(r[0].name == mname, f"steps:{mname}:condition", r[0].where(), f"{mname} adds the condition of {r[0].name}", p)
                            ctx.check([canon(x)[-1].lstrip("*") for x in r[0].spreads] == [f.node.args.kwarg.arg], f"steps:{mname}:condition", r[0].where(), f"{mname} does not pass its conditions on", p)
                            new = ("res", r[0].uid)
                            ctx.check(v is not None and mentions(v, new), f"steps:{mname}:resolvers", e.where(), "the new condition is not kept", p)
                        ctx.check(v is not None and mentions(v, own), f"steps:{mname}:resolvers", e.where(), "conditions given before are dropped", p)
                    elif mname == "named" and par == "_namespace":
                        ns = ("param", "namespace")
                        if p.facts.get(("isnone", ns)) is True:
                            ctx.check(v in (NONE, ns), "steps:named:namespace", e.where(), "named(namespace=None) does not drop the namespace", p)
                        elif v == own:
                            ctx.check(not any(k[0] in ("eq", "is") and ns in k[1:] and vv is False and k[2] != NONE for k, vv in p.facts.items()), "steps:named:namespace", e.where(), "a namespace given to named() is ignored", p)
                        else:
                            ctx.check(v == ns and not any(k[0] in ("eq", "is") and ns in k[1:] and vv is True for k, vv in p.facts.items()), "steps:named:namespace", e.where(), f"named() sets the namespace {tstr(v or NONE)}", p)
                    else:
                        par_in = ("param", {"_namespace": "namespace", "_name": "name", "_target": "target"}[par])
                        keeps = v == own and p.facts.get(("isnone", par_in)) is True
                        ctx.check(v == par_in or keeps, f"steps:{mname}:{fld}", e.where(), f"{mname}() sets {fld} to {tstr(v or NONE)}", p)
                else:
                    ctx.check(v is not None and canon(v) == own, f"steps:{mname}:keeps-{fld}", e.where(), f"{mname}() loses the step's {fld}", p)
    # conditions
    f = ix.method(A, "resolves")
    RS = ("attr", SELFT, "resolvers")
    for p in ctx.paths(f, self_cls=A, raises="none", keyfacts=lambda k: True, unroll=2):
        if p.kind != "return":
            continue
        cs = [e for e in p.trace if e.kind == "callv" and mentions(e.recv, ("elem", RS))]
        v = p.value
        if v[0] == "pure" and v[1] in ("all", "any"):
            ctx.check(v[1] == "all" and mentions(v, RS), "steps:resolves", f.loc(), f"a step applies according to {tstr(v)[:80]}", p)
            continue
        ctx.need(v in (TRUE, FALSE), f"Applicable.resolves: result {tstr(v)[:80]} not recognised")
        hold = [p.facts.get(("truthy", ("res", e.uid))) for e in cs]
        for e in cs:
            ctx.check(e.args == (("param", "config"),), "steps:resolves:config", e.where(), "a condition is not evaluated on the configuration", p)
        if p.facts.get(("truthy", RS)) is not False:
            ctx.need(cs, "Applicable.resolves: conditions not recognised")
            ctx.check((v == TRUE) == all(h is True for h in hold), "steps:resolves", f.loc(), f"a step {'applies' if v == TRUE else 'does not apply'} although a condition {'fails' if v == TRUE else 'holds'}", p)
        else:
            ctx.check(v == TRUE, "steps:resolves", f.loc(), "a step without conditions does not apply", p)
    bind_args(ctx, A)
    chain(ctx)
    pipes(ctx)


def bind_args(ctx, A):
    f = ctx.ix.method(A, "bind_function_args")
    CP = ("param", "current_param")
    n = 0
    for p in ctx.paths(f, self_cls=A, raises="none", opaque=["source"], keyfacts=lambda k: True):
        if p.kind != "return":
            continue
        b = [e for e in p.trace if e.name == "bind"]
        ctx.need(len(b) == 1 and p.value[0] == "tuple" and len(p.value[1]) == 2, "bind_function_args: result not recognised")
        given = canon(b[0].kwargs.get("__none__", NONE))
        sp = [canon(x) for x in b[0].spreads]
        ctx.check(("attr", SELFT, "kwargs") in sp or any(mentions(x, ("attr", SELFT, "kwargs")) for x in sp), "steps:bind:kwargs", b[0].where(), "the step's keyword arguments are not bound", p)
        pos = b[0].args
        flat = canon(("tuple", tuple(("e", x, ("L", ())) for x in pos)))
        ctx.check(mentions((pos, tuple(sp)), ("attr", SELFT, "args")), "steps:bind:args", b[0].where(), "the step's positional arguments are not bound", p)
        src = [e for e in p.trace if e.name == "source" and e.kind == "call"]
        if p.facts.get(("isnone", CP)) is False:
            ctx.check(len(src) == 1 and src[0].args[:1] == (CP,) and mentions((pos, tuple(sp)), ("res", src[0].uid)), "steps:bind:piped", b[0].where(), "the piped value is not bound", p)
            if len(src) == 1:
                first = _first(pos, sp)
                ctx.need(first is not None and (first[0] == "res" or first == ("attr", SELFT, "args")), "bind_function_args: order of arguments not recognised")
                ctx.check(first == ("res", src[0].uid), "steps:bind:first", b[0].where(), "the piped value is not the first argument of the step", p)
        if p.facts.get(("isnone", CP)) is True:
            ctx.check(not src, "steps:bind:piped", b[0].where(), "a value is piped into a step that takes none", p)
        ups, lits = (canon(r[1]) for r in p.value[1])
        B = ("res", b[0].uid)
        for which, d in (("source", ups), ("literal", lits)):
            ctx.need(d[0] == "dict", "bind_function_args: result not recognised")
            for r in d[1]:
                ctx.need(r[0] == "kv" and r[1][0] == "key" and mentions(r[1], B), "bind_function_args: binding not recognised")
                n += 1
                D = r[1][1]
                V = ("val", D)
                fs = {**facts(p.facts), **facts(guards_of(r))}
                isin = {k[2][1].rsplit(".", 1)[-1]: v for k, v in fs.items() if k[0] == "isinstance" and k[1] == V and k[2][0] == "global"}
                v = r[2]
                if which == "source":
                    ctx.check(v == ("attr", V, "source") and isin.get("UpstreamDependency") is True, "steps:bind:source", f.loc(), f"a parameter is bound to the node named {tstr(v)[:80]}", p)
                elif isin.get("UpstreamDependency") is True:
                    ctx.bad("steps:bind:source", f.loc(), "a source is bound as if it were a value", p)
                elif isin.get("LiteralDependency") is True:
                    ctx.check(v == ("attr", V, "value"), "steps:bind:literal", f.loc(), f"a literal is bound as {tstr(v)[:80]}", p)
                else:
                    ctx.need("LiteralDependency" in isin or v != V, "bind_function_args: kinds not recognised")
                    ctx.check(v == V, "steps:bind:plain", f.loc(), f"a plain value is bound as {tstr(v)[:80]}", p)
        if not ups[1] and not lits[1]:
            D = [k[1] for k, v in p.facts.items() if k[0] == "truthy" and v is False and mentions(k[1], B)]
            ctx.check(bool(D), "steps:bind:dropped", f.loc(), "an argument of the step is not bound", p)
    ctx.need(n, "bind_function_args: no binding recognised")


def _first(pos, sp):
    """First positional argument of a call whose positionals may come as *tuples."""
    for t in (*pos, *sp):
        while isinstance(t, tuple) and t:
            if t[0] in ("tuple", "list") and t[1]:
                r = t[1][0]
                if r[0] == "e":
                    return r[1]
                t = r[1]
                continue
            if t[0] in ("star", "spread"):
                t = t[1]
                continue
            return t
    return None


def chain(ctx):
    f = ctx.ix.func(FM + "macros.chain_transforms")
    T = ("param", "target_arg")
    n2 = 0
    for p in ctx.paths(f, raises="none", keyfacts=lambda k: True, unroll=2, max_paths=4000):
        if p.kind != "return":
            continue
        ctx.need(p.value[0] == "tuple" and len(p.value[1]) == 2, "chain_transforms: result not recognised")
        nodes, last = p.value[1][0][1], p.value[1][1][1]
        prev = T
        made_ = []
        for e in p.trace:
            if e.kind == "call" and e.name == "resolves":
                ctx.check(e.args[:1] == (("param", "config"),), "chain:config", e.where(), "a step's conditions are not evaluated on the configuration", p)
            if e.kind == "call" and e.name == "bind_function_args":
                ok = [x for x in p.trace if x.name == "resolves" and x.recv == e.recv]
                pre = prefiltered(e, p)
                ctx.check(pre or ok and all(e.nfacts.get(("truthy", ("res", x.uid))) is True for x in ok) or e.nfacts.get(("truthy", ("attr", e.recv, "resolvers"))) is False, "chain:condition", e.where(), "a step is chained although its conditions were not found to hold", p)
                got = e.arg("current_param", 0)
                ctx.check(got == prev, "chain:fed", e.where(), f"a step of the pipe is fed {tstr(got or NONE)[:80]} instead of {'the piped value' if prev == T else 'the step before it'}", p)
                ap = e.recv
                fr = [x for x in p.trace[:p.trace.index(e)] if x.name == "from_fn" and x.args[:1] and x.args[0][0] == "attr" and x.args[0][2] == "fn"]
            if e.kind == "call" and e.name == "reassign_inputs":
                b = e.bound or e.kwargs
                names_, vals_ = b.get("input_names"), b.get("input_values")
                bf = [x for x in p.trace[:p.trace.index(e)] if x.name == "bind_function_args"]
                ctx.need(bf, "chain_transforms: binding not recognised")
                R = ("res", bf[-1].uid)
                ctx.check(names_ == ("item", R, const(0)) and vals_ == ("item", R, const(1)), "chain:bound", e.where(), "the node of a step is not given the arguments bound for it", p)
                made_.append(e)
                prev = ("attr", e.recv, "name")
                # the node stands for the step's own function
                src = _origin(p, e.recv)
                ctx.need(src is not None, "chain_transforms: node of a step not recognised")
                own = bf[-1].recv
                ctx.check(src[0] == "attr" and src[2] == "fn" and (src[1] == own or _same_step(p, src[1], own)), "chain:function", e.where(), f"the node of a step runs {tstr(src)[:80]}", p)
        res = [r for r in p.trace if r.kind == "call" and r.name == "resolves" and p.facts.get(("truthy", ("res", r.uid))) is True]
        free = any(k[0] == "truthy" and k[1][0] == "attr" and k[1][2] == "resolvers" for k in p.facts)
        ctx.check(len(made_) == len(res) or free or any(prefiltered(e, p) for e in made_), "chain:one-node-per-step", f.loc(), f"{len(res)} steps apply and {len(made_)} nodes are made", p)
        if nodes[0] == "list":
            es = [r[1] for r in nodes[1] if r[0] == "e"]
            ctx.check(all(("res", e.uid) in es for e in made_), "chain:dropped", f.loc(), "the node of a step is not among those returned", p)
        if last[0] == "attr" and last[1][0] == "item" and last[1][2] == const(-1) and last[1][1][0] == "list" and last[1][1][1]:
            last = ("attr", last[1][1][1][-1][1], "name")
        ctx.check(last == prev or made_ and last == ("attr", ("res", made_[-1].uid), "name"), "chain:last", f.loc(), f"the pipe ends in {tstr(last)[:80]} instead of the last step that applies", p)
        n2 += len(made_) == 2
    ctx.need(n2, "chain_transforms: two chained steps not recognised")
    # steps that run functions of one name get nodes of different names
    for names_ in (("step", "step"), ("step", "step", "step"), ("step", "other", "step"), ("_step", "_step")):
        sts = [("sym", f"step{i}") for i in range(len(names_))]
        fns = [("sym", f"fn{i}") for i in range(len(names_))]
        attrs = {}
        for s, g, n in zip(sts, fns, names_):
            attrs.update({(s, "fn"): g, (s, "name"): NONE, (g, "__name__"): const(n)})
        seen = 0
        for p in ctx.paths(f, raises="none", keyfacts=lambda k: True, attrs=attrs, max_paths=4000, assume={("is", ("param", "namespace"), const(...)): True},
                           bind={"transforms": ("known", "list", tuple(sts)), "namespace": const(...)}, returns=lambda e: const(True) if e.name == "resolves" else None):
            if p.kind != "return":
                continue
            got = [e.kwargs["name"] for e in p.trace if e.name == "copy_with" and "name" in e.kwargs] or [e.arg("name", 1) for e in p.trace if e.name == "from_fn"]
            if len(got) != len(names_) or not all(x[0] == "const" for x in got):
                continue
            seen += 1
            ctx.check(len(set(got)) == len(got), "chain:names", f.loc(), f"steps with the functions {list(names_)} all become the node {got[-1][1]}", p)
        ctx.need(seen, "chain_transforms: names of the steps not recognised")


def prefiltered(e, p):
    """Does the event lie in a loop over steps already selected by their conditions?"""
    asked = {("res", x.uid) for x in p.trace if x.name == "resolves"}
    return any(guard_has(r, lambda k, v: k[0] == "truthy" and k[1][0] == "res" and "resolves" in k[1][1] and v is True)
               for lp in e.loops for t in subterms(lp[1]) if isinstance(t, tuple) and t and t[0] in ("list", "tuple") and len(t) > 1 and isinstance(t[1], tuple) for r in t[1] if isinstance(r, tuple) and r and r[0] == "e")


def _origin(p, t):
    """The function a node term was made from, through copy_with."""
    for _ in range(6):
        e = next((x for x in p.trace if t == ("res", x.uid)), None)
        if e is None:
            return None
        if e.name == "from_fn":
            return e.arg("fn", 0)
        if e.name == "copy_with":
            t = e.recv
            continue
        return None
    return None


def _same_step(p, a, b):
    """Same step up to namespaced()."""
    def root(t):
        for _ in range(4):
            e = next((x for x in p.trace if t == ("res", x.uid) and x.name == "namespaced"), None)
            if e is None:
                return t
            t = e.recv
        return t
    return root(a) == root(b)


def pipes(ctx):
    ix = ctx.ix
    C = ix.cls(FM + "macros.pipe_input")
    f = ix.method(C, "inject_nodes")
    n = 0
    for p in ctx.paths(f, self_cls=C, raises="none", keyfacts=lambda k: True, unroll=2):
        if p.kind != "return":
            continue
        ctx.need(p.value[0] == "tuple" and len(p.value[1]) == 2, "pipe_input: result not recognised")
        nodes, ren = canon(p.value[1][0][1]), canon(p.value[1][1][1])
        for e in [e for e in p.trace if e.kind == "call" and e.name == "chain_transforms"]:
            n += 1
            R = ("res", e.uid)
            par = canon(e.arg("target_arg", 0))
            tr = canon(e.arg("transforms", 1))
            ctx.check(tr[0] == "item" and tr[2] == par or tr[0] == "val" and par == ("key", tr[1]), "pipe_input:steps", e.where(), f"the parameter {tstr(par)[:60]} is piped through the steps of {tstr(tr)[:60]}", p)
            ctx.check(canon(e.arg("config", 3)) == ("param", "config") and canon(e.arg("fn", 4)) == ("param", "fn"), "pipe_input:config", e.where(), "the steps are not resolved for this function and configuration", p)
            ctx.check(mentions(nodes, ("item", R, const(0))), "pipe_input:nodes", e.where(), "the nodes of the steps are dropped", p)
            ctx.need(ren[0] == "dict", "pipe_input: renaming not recognised")
            ctx.check(any(r[0] == "kv" and canon(r[1]) == par and r[2] == ("item", R, const(1)) for r in ren[1]), "pipe_input:reads-last", e.where(), "the function does not read its parameter from the last step", p)
    ctx.need(n, "pipe_input.inject_nodes not recognised")
    # pipe_output
    C = ix.cls(FM + "macros.pipe_output")
    f = ix.method(C, "transform_node")
    N = ("param", "node_")
    n = 0
    for p in ctx.paths(f, self_cls=C, raises="none", pure=[ISCO], keyfacts=lambda k: True):
        if p.kind != "return":
            continue
        ch = [e for e in p.trace if e.kind == "call" and e.name == "chain_transforms"]
        fi = [e for e in p.trace if e.kind == "call" and e.name == "_filter_individual_target"]
        v = p.value
        ctx.need(v[0] == "list" and fi, "pipe_output: result not recognised")
        F = ("res", fi[0].uid)
        if not ch:
            ctx.check([r[1] for r in v[1]] == [N], "pipe_output:untouched", f.loc(), "a node without steps is changed", p)
            ctx.check(p.facts.get(("truthy", F)) is False or any(k[0] in ("eq", "lt", "gt") and mentions(k, F) for k in p.facts), "pipe_output:skipped", f.loc(), "a node with steps is left as it is", p)
            continue
        e = ch[0]
        R = ("res", e.uid)
        raw = [x for x in p.trace if x.name == "copy_with" and x.recv == N]
        ctx.need(len(raw) == 1, "pipe_output: raw node not recognised")
        rawt = ("res", raw[0].uid)
        rn = fields(raw[0]).get("name")
        ctx.check(rn is not None and rn != ("attr", N, "name") and set(fields(raw[0])) <= {"self", "name", "include_refs"}, "pipe_output:raw", raw[0].where(), "the piped node is not kept under a name of its own", p)
        ctx.check(e.arg("target_arg", 0) in (("attr", rawt, "name"), rn), "pipe_output:fed", e.where(), f"the first step is fed {tstr(e.arg('target_arg', 0) or NONE)}", p)
        tr = e.arg("transforms", 1)
        ctx.check(mentions(tr, F), "pipe_output:steps", e.where(), "the steps of the pipe are dropped", p)
        ctx.check(tr[0] in ("tuple", "list") and tr[1] and tr[1][0] == ("spread", F, ("L", ())) and len(tr[1]) == 2 or tr[0] == "op", "pipe_output:steps-first", e.where(), "the steps are not chained before the final one", p)
        if [r[1] for r in v[1]] == [N]:
            ctx.check(any(k[0] in ("eq", "lt", "gt") and mentions(k, ("item", R, const(0))) for k in p.facts), "pipe_output:skipped", f.loc(), "a node with steps is left as it is", p)
            continue
        n += 1
        lastn = [x for x in p.trace if x.name == "copy_with" and x.recv == ("item", ("item", R, const(0)), const(-1))]
        ctx.need(len(lastn) == 1, "pipe_output: final node not recognised")
        fin = fields(lastn[0])
        ctx.check(fin.get("name") in (("attr", N, "name"), ("fstr", ("attr", N, "name"))), "pipe_output:final-name", lastn[0].where(), f"the piped result is called {tstr(fin.get('name', NONE))} instead of the function's name", p)
        flat = [r[1] for r in v[1]]
        sl = [x[2] for x in flat[1:-1] if x[0] == "item" and x[2][0] == "slice"]
        ctx.check(all(x[1] in (NONE, const(0)) and x[2] in (NONE, const(-1)) and x[3] in (NONE, const(1)) for x in sl), "pipe_output:nodes", f.loc(), "nodes of the pipe are dropped", p)
        ctx.check(flat[0] == rawt and flat[-1] == ("res", lastn[0].uid) and any(mentions(x, ("item", R, const(0))) for x in flat[1:-1]), "pipe_output:nodes", f.loc(), "nodes of the pipe are dropped", p)
    ctx.need(n, "pipe_output.transform_node not recognised")
    f = ix.method(C, "_filter_individual_target")
    TR = ("elem", ("attr", SELFT, "transforms"))
    TG = ("attr", TR, "target")
    for p in ctx.paths(f, self_cls=C, raises="none", keyfacts=lambda k: True):
        if p.kind != "return" or p.facts.get(("truthy", ("attr", SELFT, "transforms"))) is False:
            continue
        ctx.need(p.value[0] in ("tuple", "list"), "pipe_output: selection not recognised")
        sel = any(r[1] == TR for r in p.value[1])
        nm = ("attr", N, "name")
        hit = [v for k, v in p.facts.items() if k in (("eq", TG, nm), ("eq", nm, TG), ("in", nm, TG))]
        if not hit and not any(k[0] == "isinstance" and k[1] == TG for k in p.facts) and p.facts.get(("isnone", TG)) is None:
            raise AnalysisBroken("pipe_output: selection of steps not recognised")
        want = hit[0] if hit else True
        ctx.check(sel == want, "pipe_output:selection", f.loc(), f"a step meant for {'this' if want else 'another'} output is {'left out' if want else 'applied'}", p)


# ---------------------------------------------------------------- does, static nodes, loaders and savers

def replacing(ctx):
    ctx.rule("(does) @does calls the replacing function once with the decorated function's defaults, overridden by what the run provides, each mapped argument under the name it is mapped to and every other under its own.")
    ix = ctx.ix
    C = ix.cls(FM + "macros.does")
    f = ix.method(C, "generate_nodes")
    MAP = ("attr", SELFT, "argument_mapping")
    n = 0
    for p in ctx.paths(f, self_cls=C, inline_modules=[f.module.name], **opts()):
        for e, cb in made(p):
            for q in p.invoke(cb, spreads=(K,), raises="none", keep=lambda e: True, keyfacts=lambda k: True):
                cs = calls(q, [("attr", SELFT, "replacing_function")])
                ctx.check(len(cs) == 1 or q.kind != "return", "does:calls-once", e.where(), f"the replacing function is called {len(cs)} times", q)
                if len(cs) != 1:
                    continue
                c = cs[0]
                ctx.check(q.kind != "return" or strip_await(q.value) == ("res", c.uid), "does:value", c.where(), "the node does not return what the replacing function returns", q)
                own = mapped = False
                for s in c.spreads:
                    s = canon(s)
                    ctx.need(s[0] == "genkv", f"does: argument {tstr(s)[:100]} not recognised")
                    k, v, g = s[1], s[2], {**facts(q.facts), **facts(guards_of(s))}
                    if k[0] == "key" and v == ("val", k[1]):
                        own = True
                        D = k[1]
                        ctx.need(D[0] == "dict" and mentions(D, K), f"does: arguments {tstr(D)[:100]} not recognised")
                        ex = [x for x, y in g.items() if x[0] == "in" and x[1] == k and y is False and mentions(x[2], MAP)]
                        ctx.check(len(ex) == 1 and set(g) - set(facts(q.facts)) <= set(ex), "does:own", c.where(), "arguments are dropped, or a mapped argument is also passed under its own name", q)
                        ctx.check(all("val" in names_of(x[2]) or mentions(x[2], ("pure", "values", MAP, (), ())) for x in ex), "does:own", c.where(), "the arguments left out are not those that are mapped", q)
                        layers(ctx, D, c, q)
                    elif k == ("key", MAP) and v[0] == "item" and v[2] == ("val", MAP):
                        mapped = True
                        layers(ctx, v[1], c, q)
                    elif k == ("key", MAP) and v[0] == "const":
                        ctx.bad("does:mapped", c.where(), f"a mapped argument is passed as {tstr(v)}", q)
                        mapped = True
                    elif k == ("val", MAP):
                        ctx.bad("does:direction", c.where(), "the argument mapping is applied the wrong way round", q)
                    else:
                        raise AnalysisBroken(f"does: argument {tstr(s)[:100]} not recognised")
                ctx.check(own, "does:own", c.where(), "arguments that are not mapped are not passed", q)
                if q.facts.get(("truthy", MAP)) is not False:
                    ctx.check(mapped, "does:mapped", c.where(), "mapped arguments are not passed", q)
                n += 1
    ctx.need(n, "does not recognised")


def names_of(t):
    return {x[0] for x in subterms(t) if isinstance(x, tuple) and x and isinstance(x[0], str)}


def has_default(t):
    return any(isinstance(x, tuple) and len(x) == 3 and x[0] == "attr" and x[2] == "default" for x in subterms(t))


def layers(ctx, D, c, q):
    L = dict_layers(D)
    ctx.need(K in L, f"does: arguments {tstr(D)[:100]} not recognised")
    ctx.check(L[-1] == K, "does:precedence", c.where(), "the decorated function's defaults win over what the run provides", q)
    dfl = [x for x in L[:-1] if x[0] == "kv" and has_default(x[2])]
    ctx.check(bool(dfl) or any(has_default(x) for x in L[:-1]), "does:defaults", c.where(), "the decorated function's defaults are not passed", q)
    for x in dfl:
        ctx.check(x[2] == ("attr", ("val", x[1][1]), "default") if x[1][0] == "key" else True, "does:defaults", c.where(), "a default is passed for another parameter", q)


def static_nodes(ctx):
    ctx.rule("(static) a static node returns exactly the value it was made with and needs nothing; an identity node depends on its source alone and returns that node's value.")
    ix = ctx.ix
    f = ix.func(FM + "recursive.create_static_node")
    n = 0
    for p in ctx.paths(f, inline_modules=[f.module.name], **opts()):
        for e, cb in made(p):
            n += 1
            b = fields(e)
            ctx.check(canon(b.get("input_types", NONE)) == ("dict", ()), "static:inputs", e.where(), "a static node depends on other nodes", p)
            ctx.check(b.get("name") == ("param", "name") and b.get("namespace") == ("param", "namespace") and b.get("tags") == ("param", "tags") and b.get("typ") == ("param", "typ"), "static:identity", e.where(), "a static node is not made under the name, type, namespace and tags given", p)
            for q in p.invoke(cb, raises="none", keep=lambda e: True, keyfacts=lambda k: True):
                ctx.check(q.kind == "return" and q.value == ("param", "value"), "static:value", e.where(), f"a static node returns {tstr(q.value)[:80]}", q)
    f = ix.func(FM + "recursive.create_identity_node")
    for p in ctx.paths(f, inline_modules=[f.module.name], **opts()):
        for e, cb in made(p):
            n += 1
            b = fields(e)
            it = canon(b.get("input_types", NONE))
            ctx.check(it[0] == "dict" and [r[1] for r in it[1]] == [("param", "from_")], "identity:inputs", e.where(), "an identity node does not depend on its source alone", p)
            ctx.check(b.get("name") == ("param", "name") and b.get("namespace") == ("param", "namespace") and b.get("tags") == ("param", "tags") and b.get("typ") == ("param", "typ"), "identity:identity", e.where(), "an identity node is not made under the name, type, namespace and tags given", p)
            for q in p.invoke(cb, spreads=(K,), raises="none", keep=lambda e: True, keyfacts=lambda k: True):
                ctx.check(q.kind == "return" and mentions(q.value, K), "identity:value", e.where(), f"an identity node returns {tstr(q.value)[:80]}", q)
                v = canon(q.value)
                ctx.need(v[0] == "item" and v[1] == K and v[2] == ("param", "from_") or v[0] == "item" and v[2] in (const(0), const(-1)) or v[0] in ("pure", "only", "val", "elem"), f"identity node: value {tstr(v)[:80]} not recognised")
    ctx.need(n >= 2, "static/identity nodes not recognised")


def io_nodes(ctx):
    ctx.rule("(io) the arguments of load_from / save_to given as source() are declared under the source's name and passed, under the argument's own name, over the literal ones; the data saved is the node's value; the loaded data "
             "reaches the parameter it is injected into; which arguments are sources and which are literals is decided argument by argument.")
    ix = ctx.ix
    f = ix.func(FM + "adapters.resolve_kwargs")
    KP = ("param", "kwargs")
    n = 0
    for p in ctx.paths(f, raises="none", keyfacts=lambda k: True):
        if p.kind != "return":
            continue
        ctx.need(p.value[0] == "tuple" and len(p.value[1]) == 2, "resolve_kwargs: result not recognised")
        dep, res = (canon(r[1]) for r in p.value[1])
        ctx.need(dep[0] == "dict" and res[0] == "dict", "resolve_kwargs: result not recognised")
        for which, d in (("source", dep), ("value", res)):
            for r in d[1]:
                ctx.need(r[0] == "kv", "resolve_kwargs: result not recognised")
                n += 1
                fs = {**facts(p.facts), **facts(guards_of(r))}
                isin = {k[2][1].rsplit(".", 1)[-1]: v for k, v in fs.items() if k[0] == "isinstance" and k[1] == ("val", KP) and k[2][0] == "global"}
                up, lit = isin.get("UpstreamDependency"), isin.get("LiteralDependency")
                ctx.check(r[1] == ("key", KP), "io:resolve:name", f.loc(), f"an argument is filed under {tstr(r[1])[:60]}", p)
                if which == "source":
                    ctx.check(up is True and r[2] == ("attr", ("val", KP), "source"), "io:resolve:source", f.loc(), f"an argument is taken from the node named {tstr(r[2])[:60]}", p)
                elif up is True:
                    ctx.bad("io:resolve:source", f.loc(), "a source is passed on as a value", p)
                else:
                    ctx.need(lit is not None or up is False, "resolve_kwargs: kinds not recognised")
                    ctx.check(r[2] == (("attr", ("val", KP), "value") if lit else ("val", KP)), "io:resolve:value", f.loc(), f"a literal argument is passed on as {tstr(r[2])[:60]}", p)
        if not dep[1] and not res[1]:
            ctx.check(p.facts.get(("truthy", KP)) is False, "io:resolve:dropped", f.loc(), "an argument is neither a source nor a value", p)
    ctx.need(n, "resolve_kwargs not recognised")
    for cn, mn, create, do in (("LoadFromDecorator", "get_loader_nodes", "create_loader", "load_data"), ("SaveToDecorator", "create_saver_node", "create_saver", "save_data")):
        C = ix.cls(FM + "adapters." + cn)
        f = ix.method(C, mn)
        n = 0
        for p in ctx.paths(f, self_cls=C, inline_modules=[f.module.name], opaque=["resolve_adapter_class", "AdapterFactory", "resolve_kwargs"], **opts()):
            if p.kind != "return":
                continue
            rk = [e for e in p.trace if e.name == "resolve_kwargs"]
            ctx.need(len(rk) == 1, f"{cn}: resolve_kwargs not recognised")
            ctx.check(canon(rk[0].arg("kwargs", 0)) == ("attr", SELFT, "kwargs"), f"io:{cn}:kwargs", rk[0].where(), "the arguments given to the decorator are not the ones resolved", p)
            D, V = ("item", ("res", rk[0].uid), const(0)), ("item", ("res", rk[0].uid), const(1))
            fac = [e for e in p.trace if e.name == "AdapterFactory"]
            loader = None
            for e, cb in made(p):
                b = fields(e)
                qs = p.invoke(cb, spreads=(K,), raises="none", keep=lambda e: True, keyfacts=lambda k: True)
                if not any(x.name == create for q in qs for x in q.trace):
                    if loader is None:
                        continue
                    # the node that picks the data out of (data, metadata)
                    LN = ("attr", ("inst", (("ctor", loader.uid),), "hamilton.node.Node", None), "name")
                    it = canon(b.get("input_types", NONE))
                    ctx.need(it[0] == "dict" and len(it[1]) == 1, f"{cn}: inputs of the selecting node not recognised")
                    dn = it[1][0][1]
                    ctx.check(mentions(dn, ("ctor", loader.uid)) and dn[0] == "attr" and dn[2] == "name", f"io:{cn}:select-depends", e.where(), "the node that selects the loaded data does not depend on the one that loads it", p)
                    for q in qs:
                        ctx.check(q.kind == "return" and (canon(q.value) == ("item", ("item", K, dn), const(0)) or canon(q.value)[0] == "item" and canon(q.value)[2] == const(0) and mentions(q.value, ("pure", "values", K, (), ()))), f"io:{cn}:select", e.where(), f"the injected value is {tstr(q.value)[-120:]}, not the loaded data", q)
                    continue
                loader = e
                n += 1
                it = canon(b.get("input_types", NONE))
                ctx.need(it[0] == "dict", f"{cn}: declared inputs not recognised")
                both = set()
                data = None
                for r in it[1]:
                    ctx.need(r[0] == "kv", f"{cn}: declared inputs not recognised")
                    k, v = r[1], r[2]
                    if k[0] == "item" and k[1] == D:
                        tail = v[1][-1][1] if v[0] == "tuple" else NONE
                        ctx.check(k[2][0] == "key" and v[0] == "tuple" and v[1][0][1] == ("val", k[2][1]), f"io:{cn}:declared", e.where(), "an argument's source is declared with another argument's type", p)
                        gs = {kk: vv for kk, vv in facts(guards_of(r)).items()}
                        ctx.check(all(kk == ("in", k[2], D) and vv is True for kk, vv in gs.items()), f"io:{cn}:declared", e.where(), "an argument given as a source is not declared as an input", p)
                        src = next((x.name for x in p.trace if k[2] == ("key", ("res", x.uid))), "")
                        both.add(src)
                        want = {"get_optional_arguments": "OPTIONAL", "get_required_arguments": "REQUIRED"}.get(src)
                        ctx.check(want is None or tail[0] == "global" and tail[1].endswith("." + want), f"io:{cn}:optional", e.where(), "an optional argument's source is required, or a required one's optional", p)
                    elif k in (("val", D),):
                        both |= {"get_optional_arguments", "get_required_arguments"}
                    else:
                        data = k
                ctx.check({"get_optional_arguments", "get_required_arguments"} <= both, f"io:{cn}:declared", e.where(), "sources of optional or of required arguments are not declared", p)
                for q in qs:
                    if q.kind != "return":
                        continue
                    cr = [x for x in q.trace if x.name == create]
                    ld = [x for x in q.trace if x.name == do]
                    ctx.check(len(cr) == 1 and len(ld) == 1, f"io:{cn}:once", e.where(), f"{do} runs {len(ld)} times", q)
                    if len(cr) != 1 or len(ld) != 1:
                        continue
                    lay = [canon(x) for x in cr[0].spreads]
                    lay = [y for x in lay for y in (dict_layers(x) if x[0] in ("dict", "copy") else [x])]
                    ctx.check(V in lay, f"io:{cn}:literals", cr[0].where(), "literal arguments are not passed", q)
                    dep = [x for x in lay if x != V]
                    ctx.need(len(dep) == 1 and dep[0][0] in ("genkv", "kv"), f"{cn}: arguments not recognised")
                    ctx.check(dep[0][1] == ("key", D) and dep[0][2] == ("item", K, ("val", D)), f"io:{cn}:sources", cr[0].where(), f"argument {tstr(dep[0][1])[:60]} takes the value {tstr(dep[0][2])[:60]}", q)
                    gs = facts(guards_of(dep[0]))
                    ctx.check(all(kk == ("in", ("val", D), K) and vv is True for kk, vv in gs.items()), f"io:{cn}:sources", cr[0].where(), "an argument whose source was provided is not passed", q)
                    ctx.check(strip_await(q.value) == ("res", ld[0].uid) and ld[0].recv == ("res", cr[0].uid), f"io:{cn}:value", ld[0].where(), f"the node does not return what {do} returns", q)
                    if do == "save_data":
                        a = canon(ld[0].args[0]) if ld[0].args else None
                        ctx.check(a is not None and a[0] == "item" and a[1] == K and a[2] == data, f"io:{cn}:data", ld[0].where(), f"what is saved is {tstr(a or NONE)[:80]}, and the node depends on {tstr(data or NONE)[:60]}", q)
                        T = ("attr", SELFT, "target")
                        want = ("attr", ("param", "node_"), "name") if p.facts.get(("isnone", T)) is True else T
                        ctx.check(data == want, f"io:{cn}:target", e.where(), f"the node saves {tstr(data or NONE)[:60]}", p)
        ctx.need(n, f"{cn} not recognised")
    C = ix.cls(FM + "adapters.SaveToDecorator")
    f = ix.method(C, "transform_node")
    for p in ctx.paths(f, self_cls=C, raises="none"):
        if p.kind == "return":
            es = [e for e in p.trace if e.name == "create_saver_node"]
            ctx.need(p.value[0] in ("list", "tuple") and len(es) == 1, "save_to: result not recognised")
            got = [r[1] for r in p.value[1]]
            ctx.check(("param", "node_") in got and ("res", es[0].uid) in got, "io:save_to:keeps", f.loc(), "the saved node or its saver is dropped", p)
    C = ix.cls(FM + "adapters.LoadFromDecorator")
    f = ix.method(C, "inject_nodes")
    for p in ctx.paths(f, self_cls=C, raises="none"):
        if p.kind == "return":
            es = [e for e in p.trace if e.name == "get_loader_nodes"]
            sel = [e for e in p.trace if e.name == "_select_param_to_inject"]
            ctx.need(p.value[0] == "tuple" and len(es) == 1 and len(sel) == 1, "load_from: result not recognised")
            R, IP = ("res", es[0].uid), ("res", sel[0].uid)
            nodes, ren = canon(p.value[1][0][1]), canon(p.value[1][1][1])
            ctx.check(canon(es[0].arg("inject_parameter", 0)) == IP and canon(es[0].arg("load_type", 1)) == ("item", ("param", "params"), IP), "io:load_from:type", es[0].where(), "the loader is not chosen for the parameter injected into", p)
            ctx.need(ren[0] == "dict" and len(ren[1]) == 1, "load_from: renaming not recognised")
            ctx.check(ren[1][0][1] == IP and ren[1][0][2] == ("attr", ("item", R, const(1)), "name"), "io:load_from:injects", f.loc(), f"parameter {tstr(ren[1][0][1])[:50]} reads {tstr(ren[1][0][2])[:60]}", p)
            got = [r[1] for r in nodes[1]] if nodes[0] in ("list", "tuple") else []
            ctx.check(nodes == R or ("item", R, const(0)) in got and ("item", R, const(1)) in got, "io:load_from:nodes", f.loc(), "a node of the loader is dropped", p)


# ---------------------------------------------------------------- subdags and the decorators written in terms of others

def flat(t):
    """Leaves of a concatenation of collections."""
    t = canon(t)
    if t[0] in ("list", "tuple", "set"):
        out = []
        for r in t[1]:
            out += flat(r[1]) if r[0] == "spread" else [("one", canon(r[1]))]
        return out
    if t[0] == "op" and t[1] == "Add":
        return flat(t[2]) + flat(t[3])
    return [("all", t)]


def merged(t):
    """Layers of a dict made by merging others, lowest precedence first."""
    t = canon(t)
    if t[0] == "dict" and all(r[0] == "spread" for r in t[1]):
        return [x for r in t[1] for x in merged(r[1])]
    if t[0] == "copy":
        return merged(t[1])
    return [t]


def subdags(ctx):
    ix = ctx.ix
    S = ix.cls(FM + "recursive.subdag")
    f = ix.method(S, "generate_nodes")
    want = ["collect_nodes", "add_namespace", "_create_additional_static_nodes", "add_final_node"]
    A = lambda n: ("attr", SELFT, n)
    n = 0
    for p in ctx.paths(f, self_cls=S, inline_modules=[f.module.name], opaque=want, **opts()):
        if p.kind != "return":
            continue
        n += 1
        ev = {}
        for w in want:
            es = [e for e in p.trace if e.name == w]
            ctx.need(len(es) == 1, f"subdag: {w} not called once")
            ev[w] = es[0]
        c, a, s, z = (ev[w] for w in want)
        ns = canon(a.arg("namespace", 1))
        ctx.check(merged(c.arg("config", 0)) == [("param", "configuration"), A("config")], "subdag:config", c.where(), "the functions of the subdag are not resolved with the driver's configuration overridden by the subdag's", p)
        ctx.check(canon(c.arg("subdag_functions", 1)) == A("subdag_functions"), "subdag:functions", c.where(), "not all functions of the subdag give nodes", p)
        ctx.check(canon(a.arg("nodes", 0)) == ("res", c.uid) and canon(a.arg("inputs", 2)) == A("inputs") and canon(a.arg("config", 3)) == A("config"), "subdag:namespace", a.where(), "nodes, inputs or configuration of the subdag are not renamed into its namespace", p)
        ctx.check(canon(s.arg("namespace", 1)) == ns and canon(z.arg("namespace", 2)) == ns, "subdag:one-namespace", z.where(), "inputs or result of the subdag are put in another namespace than its nodes", p)
        ctx.check(canon(s.arg("nodes", 0)) == ("res", a.uid), "subdag:static", s.where(), "types of the inputs are not those the namespaced nodes declare", p)
        ctx.check(canon(z.arg("fn", 0)) == ("param", "fn"), "subdag:final", z.where(), "the decorated function does not become the subdag's result", p)
        for nm, at, got in (("namespace", A("namespace"), ns), ("name", A("final_node_name"), canon(z.arg("node_name", 1)))):
            none = p.facts.get(("isnone", at))
            if none is None:
                none = not p.facts[("truthy", at)] if ("truthy", at) in p.facts else None
            if none is not None:
                ctx.check(got == (("attr", ("param", "fn"), "__name__") if none else at), f"subdag:{nm}", f.loc(), f"the subdag's {nm} is {tstr(got)[:60]}", p)
        leaves = flat(p.value)
        for w, kind in (("add_namespace", "all"), ("_create_additional_static_nodes", "all"), ("add_final_node", "one")):
            ctx.check(leaves.count((kind, ("res", ev[w].uid))) == 1, "subdag:all-nodes", f.loc(), f"what {w} gives is not part of the subdag exactly once", p)
    ctx.need(n, "subdag.generate_nodes not recognised")
    f = ix.method(S, "collect_nodes")
    n = 0
    for p in ctx.paths(f, self_cls=S, opaque=["resolve_nodes"], **opts()):
        if p.kind != "return":
            continue
        rs = [e for e in p.trace if e.name == "resolve_nodes"]
        for e in rs:
            n += 1
            ctx.check(canon(e.arg("fn", 0)) == ("elem", ("param", "subdag_functions")) and canon(e.arg("config", 1)) == ("param", "config"), "subdag:resolved", e.where(), "a function of the subdag is resolved with another configuration", p)
            if p.facts.get(("truthy", ("res", e.uid))) is False:
                continue
            L = flat(p.value)
            cs = [x for x in p.trace if x.name == "copy_with" and canon(x.recv) == ("elem", ("res", e.uid))]
            ctx.need(len(cs) <= 1, "collect_nodes: copies not recognised")
            ok = ("one", ("res", cs[0].uid)) in L or ("all", ("res", e.uid)) in L if cs else ("all", ("res", e.uid)) in L or ("one", ("elem", ("res", e.uid))) in L
            if cs and not ok:
                ok = any(mentions(x[1], ("res", cs[0].uid)) for x in L)
            ctx.check(ok, "subdag:collected", f.loc(), "a node of a function in the subdag is dropped", p)
            if not cs:
                continue
            ctx.check(set(cs[0].kwargs) <= {"tags"} and not cs[0].args, "subdag:unchanged", cs[0].where(), f"collecting the subdag's nodes changes {sorted(set(cs[0].kwargs) - {'tags'})}", p)
        if not rs:
            ctx.check(p.facts.get(("truthy", ("param", "subdag_functions"))) is False, "subdag:collected", f.loc(), "functions of the subdag give no nodes", p)
    ctx.need(n, "subdag.collect_nodes not recognised")
    f = ix.method(S, "_create_additional_static_nodes")
    INP, CFG = A("inputs"), A("config")
    n = 0
    for p in ctx.paths(f, self_cls=S, inline_modules=[f.module.name], **{**opts(), "pure": [ISCO, "get_dependency_type"]}):
        if p.kind != "return":
            continue
        kind = {}
        for k, v in p.facts.items():
            if k[0] == "eq" and mentions(k, ("val", INP)):
                for nm in ("LITERAL", "UPSTREAM"):
                    if nm in tstr(k):
                        kind[nm] = v
            elif k[0] == "isinstance" and k[1] == ("val", INP):
                kind["LITERAL" if "Literal" in tstr(k[2]) else "UPSTREAM" if "Upstream" in tstr(k[2]) else "?"] = v
        got = {"inputs": [], "config": []}
        for e, cb in made(p):
            b = fields(e)
            nm = b.get("name", NONE)
            which = "inputs" if nm == ("key", INP) else "config" if nm == ("key", CFG) else None
            ctx.need(which, "subdag: names of the nodes of the inputs not recognised")
            got[which].append((e, cb, b))
            ctx.check(canon(b.get("namespace", NONE)) == ("tuple", (("e", ("param", "namespace"), ("L", (), ())),)) or canon(b.get("namespace", NONE))[0] == "tuple" and flat(b["namespace"]) == [("one", ("param", "namespace"))], "subdag:inputs:namespace", e.where(), "an input of the subdag is not in its namespace", p)
        have_in = p.facts.get(("truthy", INP)) is not False
        have_cfg = p.facts.get(("truthy", CFG)) is not False
        if have_cfg:
            ctx.check(len(got["config"]) == 1, "subdag:config:node", f.loc(), "an entry of the subdag's configuration gives no node", p)
        if have_in and kind.get("LITERAL"):
            ctx.check(len(got["inputs"]) == 1, "subdag:inputs:node", f.loc(), "a literal input of the subdag gives no node", p)
        used = next((v for k, v in p.facts.items() if k[0] == "in" and mentions(k[1], ("key", INP)) and mentions(k[1], ("param", "namespace"))), None)
        if have_in and kind.get("UPSTREAM") and p.facts.get(("truthy", ("param", "nodes"))) is not False and used is not False and p.facts.get(("truthy", ("attr", ("elem", ("param", "nodes")), "input_types"))) is not False:
            ctx.check(len(got["inputs"]) == 1, "subdag:inputs:node", f.loc(), "an input of the subdag that is used gives no node", p)
        for which in got:
            for e, cb, b in got[which]:
                it = canon(b.get("input_types", NONE))
                lit = which == "config" or kind.get("LITERAL") is True
                ctx.need(lit or kind.get("UPSTREAM") or kind.get("LITERAL") is False, "subdag: kinds of inputs not recognised")
                if lit:
                    n += 1
                    val = ("val", CFG) if which == "config" else ("attr", ("val", INP), "value")
                    ctx.check(it == ("dict", ()), "subdag:literal:inputs", e.where(), "a literal of the subdag depends on a node", p)
                    for q in p.invoke(cb, raises="none", keep=lambda e: True, keyfacts=lambda k: True):
                        ctx.check(q.kind == "return" and canon(q.value) == val, "subdag:literal", e.where(), f"a literal of the subdag is {tstr(q.value)[-80:]}", q)
                else:
                    n += 1
                    src = ("attr", ("val", INP), "source")
                    ctx.need(it[0] == "dict" and len(it[1]) == 1, "subdag: inputs of a source not recognised")
                    ctx.check(it[1][0][1] == src, "subdag:source:inputs", e.where(), f"a source of the subdag reads {tstr(it[1][0][1])[:60]}", p)
                    for q in p.invoke(cb, spreads=(K,), raises="none", keep=lambda e: True, keyfacts=lambda k: True):
                        v = canon(q.value)
                        ok = v == ("item", K, src) or v == ("only", K) or mentions(v, ("val", K)) or mentions(v, ("pure", "values", K, (), ()))
                        ctx.check(q.kind == "return" and ok, "subdag:source", e.where(), f"an input of the subdag is {tstr(q.value)[-80:]}, not the value of its source", q)
    ctx.need(n, "subdag inputs not recognised")
    C = ix.cls(FM + "recursive.parameterized_subdag")
    f = ix.method(C, "_gather_subdag_generators")
    PZ = A("parameterization")
    E = ("val", PZ)
    n = 0
    for p in ctx.paths(f, self_cls=C, opaque=["subdag"], **opts()):
        if p.kind != "return" or p.facts.get(("truthy", PZ)) is False:
            continue
        es = [e for e in p.trace if e.name == "subdag"]
        ctx.check(len(es) == 1, "psubdag:each", f.loc(), f"an entry of parameterized_subdag gives {len(es)} subdags", p)
        if len(es) != 1:
            continue
        e = es[0]
        n += 1
        kw = e.kwargs
        ctx.check(canon(kw.get("namespace", NONE)) == ("key", PZ) and canon(kw.get("final_node_name", NONE)) == ("key", PZ), "psubdag:name", e.where(), "a subdag is not named by its key", p)
        ctx.check([canon(x) for x in e.args] == [("star", A("load_from"))], "psubdag:functions", e.where(), "a subdag is not made of the given functions", p)
        for nm in ("inputs", "config"):
            has = p.facts.get(("in", const(nm), E))
            L = merged(kw.get(nm, NONE))
            own = [x for x in L if x != A(nm)]
            ctx.check(A(nm) in L, f"psubdag:{nm}", e.where(), f"the common {nm} are dropped", p)
            if has is False:
                ctx.check(not own or own == [("dict", ())], f"psubdag:{nm}", e.where(), f"{nm} of a subdag are {tstr(kw[nm])[:80]}", p)
            else:
                ctx.check(L == [A(nm), ("item", E, const(nm))], f"psubdag:{nm}", e.where(), f"{nm} of a subdag are {tstr(kw.get(nm, NONE))[:80]}, not the common ones overridden by its own", p)
        nm = "external_inputs"
        has = p.facts.get(("in", const(nm), E))
        ctx.check(canon(kw.get(nm, NONE)) == (A(nm) if has is False else ("item", E, const(nm))), "psubdag:external", e.where(), "external inputs of a subdag are not its own, or else the common ones", p)
        ctx.check(any(mentions(x[1], ("ctor", e.uid)) or x[1] == ("res", e.uid) for x in flat(p.value)), "psubdag:each", f.loc(), "a subdag is dropped", p)
    ctx.need(n, "parameterized_subdag not recognised")
    f = ix.method(C, "generate_nodes")
    for p in ctx.paths(f, self_cls=C, opaque=["_gather_subdag_generators"], **opts()):
        if p.kind != "return":
            continue
        gs = [e for e in p.trace if e.name == "_gather_subdag_generators"]
        es = [e for e in p.trace if e.name == "generate_nodes"]
        ctx.need(len(gs) == 1, "parameterized_subdag.generate_nodes not recognised")
        if p.facts.get(("truthy", ("res", gs[0].uid))) is False:
            continue
        ctx.need(len(es) == 1, "parameterized_subdag.generate_nodes not recognised")
        ctx.check([canon(x) for x in es[0].args] == [("param", "fn"), ("param", "config")] or canon(es[0].arg("fn", 0)) == ("param", "fn"), "psubdag:generate", es[0].where(), "a subdag is generated for another function or configuration", p)
        ctx.check(flat(p.value) == [("all", ("res", es[0].uid))] or mentions(p.value, ("res", es[0].uid)), "psubdag:generate", f.loc(), "nodes of a subdag are dropped", p)
    with_columns(ctx)


def with_columns(ctx):
    ix = ctx.ix
    C = ix.cls(FM + "recursive.with_columns_base")
    f = ix.method(C, "inject_nodes")
    n = 0
    for p in ctx.paths(f, self_cls=C, inline_modules=[f.module.name], opaque=["prune_nodes", "add_namespace", "contains_duplicates"], **opts()):
        if p.kind != "return":
            continue
        ev = {}
        for w in ("get_initial_nodes", "get_subdag_nodes", "prune_nodes", "chain_subdag_nodes", "add_namespace"):
            es = [e for e in p.trace if e.name == w]
            ctx.need(len(es) == 1, f"with_columns: {w} not called once")
            ev[w] = es[0]
        n += 1
        g, s, pr, ch, ns = ev.values()
        init, gen = ("item", ("res", g.uid), const(0)), ("item", ("res", g.uid), const(1))
        ctx.check(set(flat(pr.arg("nodes", 0))) == {("all", gen), ("all", ("res", s.uid))}, "withcols:nodes", pr.where(), "initial nodes or those of the functions are dropped", p)
        ctx.check(canon(pr.arg("select", 1)) == ("attr", SELFT, "select"), "withcols:select", pr.where(), "nodes are not selected by `select`", p)
        ctx.check(canon(ch.arg("inject_parameter", 1)) == init and canon(ch.arg("generated_nodes", 2)) == ("res", pr.uid), "withcols:chain", ch.where(), "the columns appended are not the selected ones, or not to the injected dataframe", p)
        ctx.check(canon(ns.arg("nodes", 0)) == ("item", ("res", ch.uid), const(0)), "withcols:namespace", ns.where(), "the nodes put in the namespace are not those of the chain", p)
        space = canon(ns.arg("namespace", 1))
        v = canon(p.value)
        ctx.need(v[0] == "tuple" and len(v[1]) == 2, "with_columns: result not recognised")
        nodes, ren = canon(v[1][0][1]), canon(v[1][1][1])
        ctx.check(nodes == ("res", ns.uid), "withcols:result", f.loc(), "the nodes injected are not those in the namespace", p)
        ctx.need(ren[0] == "dict" and len(ren[1]) == 1 and ren[1][0][0] == "kv", "with_columns: renaming not recognised")
        cur = ("item", ("res", ch.uid), const(1))
        ctx.check(ren[1][0][1] == init and ren[1][0][2] == ("fstr", space, const("."), cur), "withcols:renaming", f.loc(), f"parameter {tstr(ren[1][0][1])[:50]} reads {tstr(ren[1][0][2])[:80]}", p)
    ctx.need(n, "with_columns not recognised")


def constructors(ctx):
    """Decorators defined by translating their arguments into those of another decorator."""
    ix = ctx.ix

    def pairs(ps, cn):
        """(path, __init__ event, [key, value, L]) handed to the parent constructor"""
        for p in ps:
            if p.kind != "return":
                continue
            es = [e for e in p.trace if e.name == "__init__" and e.kind == "call"]
            ctx.need(len(es) == 1 and not es[0].args, f"{cn}: call of the parent's constructor not recognised")
            out = []
            for s in es[0].spreads:
                s = canon(s)
                for x in ([s] if s[0] in ("genkv", "kv") else s[1] if s[0] == "dict" else [None]):
                    ctx.need(x is not None and x[0] in ("genkv", "kv"), f"{cn}: arguments not recognised")
                    out.append(x)
            yield p, es[0], out

    C = ix.cls(FM + "expanders.parameterize_values")
    f = ix.method(C, "__init__")
    AO = ("param", "assigned_output")
    kinds = {"parameterize_values": AO, "parameterize_sources": ("param", "**parameterization"), "parametrized_input": ("param", "variable_inputs")}
    for cn, M in kinds.items():
        C = ix.cls(FM + "expanders." + cn)
        f = ix.method(C, "__init__")
        n = 0
        for p, e, xs in pairs(ctx.paths(f, self_cls=C, opaque=["value", "source"], **opts()), cn):
            if not xs:
                ctx.check(p.facts.get(("truthy", M)) is False, f"ctor:{cn}", f.loc(), "the parameterizations given are dropped", p)
                continue
            for x in xs:
                n += 1
                mk = {("res", y.uid): y for y in p.trace if y.name in ("value", "source")}
                key, val = canon(x[1]), canon(x[2])
                inner = canon(val[1][0][1]) if val[0] == "tuple" and val[1] else val
                ctx.need(inner[0] == "dict" and len(inner[1]) == 1 and inner[1][0][0] == "kv", f"{cn}: parameterization not recognised")
                pk, pv = canon(inner[1][0][1]), canon(inner[1][0][2])
                ctx.need(pv in mk, f"{cn}: dependency not recognised")
                how, arg = mk[pv].name, canon(mk[pv].args[0]) if mk[pv].args else NONE
                if cn == "parameterize_values":
                    exp = (("item", ("key", M), const(0)), ("param", "parameter"), "value", ("val", M))
                elif cn == "parameterize_sources":
                    exp = (("key", M), ("key", ("val", M)), "source", ("val", ("val", M)))
                else:
                    exp = (("item", ("val", M), const(0)), ("param", "parameter"), "source", ("key", M))
                ctx.check((key, pk, how, arg) == exp, f"ctor:{cn}", e.where(), f"node {tstr(key)[:50]} is given {tstr(pk)[:50]} = {how}({tstr(arg)[:50]})", p)
        ctx.need(n, f"{cn} not recognised")
    C = ix.cls(FM + "expanders.parameterize")
    f = ix.method(C, "__init__")
    PM = ("param", "**parametrization")
    n = 0
    for p in ctx.paths(f, self_cls=C, **opts()):
        if p.kind != "return":
            continue
        es = [e for e in p.trace if e.kind == "setattr" and e.name == "parameterization" and e.recv == SELFT]
        ctx.need(len(es) == 1 and canon(es[0].args[0])[0] == "dict", "parameterize: stored parameterization not recognised")
        for r in canon(es[0].args[0])[1]:
            ctx.need(r[0] == "kv", "parameterize: stored parameterization not recognised")
            n += 1
            gs = facts(guards_of(r))
            tup = next((v for k, v in gs.items() if k[0] == "isinstance" and k[1] == ("val", PM)), None)
            ctx.need(tup is not None, "parameterize: stored parameterization not recognised")
            ctx.check(r[1] == ("key", PM) and r[2] == (("item", ("val", PM), const(0)) if tup else ("val", PM)), "ctor:parameterize", es[0].where(), f"node {tstr(r[1])[:40]} is parameterized with {tstr(r[2])[:60]}", p)
    ctx.need(n >= 2, "parameterize.__init__ not recognised")
    C = ix.cls(FM + "expanders.inject")
    f = ix.method(C, "__init__")
    for p in ctx.paths(f, self_cls=C, **opts()):
        if p.kind != "return":
            continue
        es = [e for e in p.trace if e.name == "__init__" and e.kind == "call"]
        ctx.need(len(es) == 1 and not es[0].args, "inject: call of the parent's constructor not recognised")
        vals = [canon(v) for v in es[0].kwargs.values()] + [canon(s[2]) for s in es[0].spreads if canon(s)[0] == "kv"]
        ctx.check(len(vals) == 1 and merged(vals[0]) == [("param", "**key_mapping")], "ctor:inject", es[0].where(), "inject does not pass on the dependencies it was given", p)
    C = ix.cls(FM + "expanders.parameterize_extract_columns")
    f = ix.method(C, "expand_node")
    EC = ("attr", SELFT, "extract_config")
    EL = ("elem", EC)
    n = 0
    for p in ctx.paths(f, self_cls=C, inline_modules=[f.module.name], opaque=["parameterize", "extract_columns", "expand_node", "transform_node"], **opts()):
        if p.kind != "return" or p.facts.get(("truthy", EC)) is False:
            continue
        pz = [e for e in p.trace if e.kind == "new" and e.name == "parameterize"]
        xc = [e for e in p.trace if e.kind == "new" and e.name == "extract_columns"]
        ex = [e for e in p.trace if e.name == "expand_node"]
        tr = [e for e in p.trace if e.name == "transform_node"]
        ctx.need(len(pz) == len(xc) == len(ex) == len(tr) == 1, "parameterize_extract_columns not recognised")
        n += 1
        s = [canon(x) for x in pz[0].spreads]
        ctx.need(len(s) == 1 and s[0][0] in ("genkv", "kv", "dict"), "parameterize_extract_columns: parameterization not recognised")
        kv = s[0] if s[0][0] != "dict" else s[0][1][0]
        ctx.check(canon(kv[2]) == ("attr", EL, "input_mapping"), "ctor:pec:mapping", pz[0].where(), "the inputs are not those of the extraction", p)
        ctx.check(mentions(kv[1], ("idx", EC)), "ctor:pec:unique", pz[0].where(), "the intermediate dataframes of two extractions have the same name", p)
        ctx.check([canon(a) for a in xc[0].args] == [("star", ("attr", EL, "outputs"))], "ctor:pec:columns", xc[0].where(), "the columns extracted are not those of the extraction", p)
        ctx.check(mentions(tr[0].args[0], ("res", ex[0].uid)), "ctor:pec:chain", tr[0].where(), "the columns are not extracted from the parameterized node", p)
        ctx.check(("all", ("res", tr[0].uid)) in flat(p.value), "ctor:pec:dropped", f.loc(), "the nodes of an extraction are dropped", p)
        re_ = p.facts.get(("truthy", ("attr", SELFT, "reassign_columns")))
        cw = [e for e in p.trace if e.name == "copy_with"]
        ctx.need(re_ is not None, "parameterize_extract_columns: reassign_columns not recognised")
        base = canon(ex[0].args[0])
        ctx.check(base == (("res", cw[0].uid) if re_ and len(cw) == 1 else ("param", "node_")), "ctor:pec:reassign", ex[0].where(), "columns are not reassigned as asked", p)
        if re_ and len(cw) == 1:
            cb = cw[0].kwargs.get("callabl")
            ctx.need(cb is not None, "parameterize_extract_columns: wrapper not recognised")
            for q in p.invoke(cb, spreads=(K,), raises="none", keep=lambda e: True, keyfacts=lambda k: True):
                if q.kind != "return":
                    continue
                cl = calls(q, {("attr", ("param", "node_"), "callable")})
                st = [e for e in q.trace if e.kind == "setattr" and e.name == "columns"]
                ctx.check(len(cl) == 1, "ctor:pec:once", cw[0].where(), f"the function runs {len(cl)} times", q)
                if len(cl) == 1:
                    R = ("res", cl[0].uid)
                    ctx.check(len(st) == 1 and strip_await(st[0].recv) == R and canon(st[0].args[0]) == ("attr", EL, "outputs"), "ctor:pec:renamed", cw[0].where(), "the columns of the result are not named as asked", q)
                    ctx.check(strip_await(q.value) == R, "ctor:pec:result", cw[0].where(), "the function's dataframe is not what is passed on", q)
    ctx.need(n, "parameterize_extract_columns not recognised")


SELFT = ("param", "self")
PARTS = [("rename", reassign), ("parameterize", parameterize), ("specs", factories), ("extract", extraction), ("capture", capture), ("steps", steps), ("does", replacing), ("static", static_nodes), ("io", io_nodes), ("subdags", subdags), ("constructors", constructors)]
