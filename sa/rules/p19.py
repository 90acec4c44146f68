"""P19: a cache key identifies the computation: the node, its code and the data of every dependency."""
from .common import *
from .p15 import SELFT, canon, guards_of

MOD = "hamilton.caching.adapter"
AD = MOD + ".HamiltonCacheAdapter"
RUN, TASK, NODE, KW = ("param", "run_id"), ("param", "task_id"), ("param", "node_"), ("param", "kwargs")
NAME = ("attr", NODE, "name")
DEF = ("attr", NODE, "default_parameter_values")
UNH = "<unhashable>"


def slot(store, name, task=None):
    t = ("item", ("item", ("attr", SELFT, store), RUN), name)
    return ("item", t, task) if task is not None else t


def adapter(ctx, name, opaque=(), **kw):
    C = ctx.ix.cls(AD)
    f = ctx.ix.method(C, name)
    ctx.need(f is not None, f"{AD}.{name} is gone")
    o = dict(raises="none", keyfacts=lambda k: True, keep=lambda e: e.name != "_log_event", max_paths=60000)
    o.update(kw)
    return f, ctx.paths(f, self_cls=C, inline_modules=[MOD], opaque=["_log_event", *opaque], **o)


def behaviours(p, name, facts=None):
    """Caching behaviours of node `name` this path is taken for."""
    B = slot("behaviors", name)
    out = {"DEFAULT", "RECOMPUTE", "DISABLE", "IGNORE"}
    for k, v in (p.facts if facts is None else facts).items():
        if k[0] == "eq" and B in k[1:3]:
            o = tstr(k[2] if k[1] == B else k[1]).rsplit(".", 1)[-1]
            out = out & {o} if v else out - {o}
    return out


def is_hash(p, t, of):
    """t is the fingerprint of a value satisfying `of`."""
    return any(("res", e.uid) == t and e.name == "hash_value" and len(e.args) == 1 and of(e.args[0]) for e in p.trace)


def unique(p, t):
    return any(e.name in ("uuid4", "uuid1", "token_hex", "token_urlsafe") and mentions(t, ("res", e.uid)) for e in p.trace)


def unhashable(p, more=()):
    return any(k[0] == "eq" and v and any(x == const(UNH) for x in k[1:3]) for k, v in [*p.facts.items(), *dict(more).items()])


def version_of(p, t, val, more=()):
    """Is t a data version of the value val: its fingerprint, or something unique when it has none."""
    return is_hash(p, t, lambda x: canon(x) == canon(val)) or unique(p, t) and unhashable(p, more)


def layers(t):
    """[(source dict, facts under which an entry is taken)] lowest precedence first, of a merged dict."""
    t0 = t
    if t[0] in ("dict", "copy"):
        out = []
        for r in t[1]:
            if r[0] == "spread":
                x = r[1]
                if x[0] == "genkv" and x[1][0] == "key" and x[2] == ("val", x[1][1]):
                    out.append((x[1][1], guards_of(x) if x[-1] and x[-1][0] == "L" else {}))
                else:
                    out += layers(x)
            elif r[0] == "kv" and r[1][0] == "key" and r[2] in (("val", r[1][1]), ("item", r[1][1], r[1])):
                out.append((r[1][1], guards_of(r)))
            else:
                return [(t0, None)]
        return out
    return [(t, {})]


def resolved(ctx, p, D, where, key):
    """D holds what the node is called with: the arguments passed and, for those not passed, the defaults."""
    ls = layers(D)
    names_ = [a for a, _ in ls]
    ctx.need(all(a in (KW, DEF) for a in names_), f"{where}: arguments {tstr(D)[:120]} not recognised")
    ctx.check(KW in names_, key + ":arguments", where, "the arguments the node is called with are not considered", p)
    inside = lambda q: q[0] == "in" and q[1] == ("key", DEF) and {a for a, _ in layers(q[2])} == {KW}
    given = next((x for q, x in p.facts.items() if inside(q)), None)
    if p.facts.get(("truthy", DEF)) is not False:
        first = DEF in names_ and names_.index(DEF) < len(names_) - 1 - names_[::-1].index(KW)
        g = next((g for a, g in ls if a == DEF), {}) or {}
        only_missing = given is False or any(inside(q) and x is False for q, x in g.items())
        ctx.check(DEF not in names_ or first or only_missing, key + ":default-wins", where, "a default value replaces the argument that was passed", p)
        ctx.check(DEF in names_ or given is True, key + ":defaults", where, "the default values of arguments that are not passed are left out", p)


def key_part(ctx):
    ctx.rule("(key) Before a node that takes part in caching runs, its key is made from its name, its code version and, for each argument it is called with (defaults included), a version of that argument's data: the version recorded for the dependency in this run, else the fingerprint of the value; item by item, in order, for a collected dependency; a constant only for an ignored dependency and a unique value only for a disabled or unhashable one.")
    f, ps = adapter(ctx, "pre_node_execute")
    n = 0
    for p in ps:
        if p.kind != "return":
            continue
        b = behaviours(p, NAME)
        makes = [e for e in p.trace if e.name == "create_cache_key"]
        sets = [e for e in p.trace if e.kind == "setitem" and mentions(e.recv, ("attr", SELFT, "cache_keys"))]
        if not b & {"DEFAULT", "RECOMPUTE"}:
            continue
        ctx.check(len(makes) == 1, "key:made", f.loc(), f"{len(makes)} keys are made for a cached node", p)
        if len(makes) != 1:
            continue
        e = makes[0]
        K = ("res", e.uid)
        ctx.check(e.arg("node_name", 0) == NAME, "key:name", e.where(), f"the key is made for {tstr(e.arg('node_name', 0))[:60]}, not the node", p)
        ctx.check(e.arg("code_version", 1) == slot("code_versions", NAME), "key:code", e.where(), f"the key has {tstr(e.arg('code_version', 1))[:60]} instead of the code version of the node in this run", p)
        ctx.check(any(x.args[1] == K and x.args[0] in (NAME, TASK) for x in sets), "key:kept", e.where(), "the key is not recorded for the node", p)
        deps = e.arg("dependencies_data_versions", 2)
        ctx.need(deps is not None and deps[0] == "dict", f"{f.qual}: dependencies of the key not recognised")
        recs = deps[1]
        ctx.need(all(r[0] == "kv" for r in recs), f"{f.qual}: dependencies of the key not recognised: {tstr(deps)[:100]}")
        for r in recs:
            k, v = r[1], r[2]
            ctx.need(k[0] == "key", f"{f.qual}: dependency {tstr(k)[:60]} not recognised")
            D = k[1]
            val = ("val", D)
            if any(q[0] == "eq" and x and k in q[1:3] and any(y[0] == "global" and y[1].startswith(MOD) for y in q[1:3]) for q, x in p.facts.items()):
                continue   # the name of a dependency is never a private object of the module
            resolved(ctx, p, D, f.loc(), "key")
            n += 1
            db = behaviours(p, k, {**p.facts, **guards_of(r)})
            rec = slot("data_versions", k)
            coll = next((x for q, x in p.facts.items() if q[0] == "eq" and k in q[1:3] and ("attr", NODE, "collect_dependency") in q[1:3]), None)
            if v[0] == "const":
                ctx.check(db == {"IGNORE"}, "key:constant", e.where(), f"a dependency that is not ignored enters the key as the constant {v[1]!r}", p)
            elif unique(p, v):
                ctx.check(db <= {"DISABLE"} or unhashable(p), "key:random", e.where(), "the key has a random part for a dependency that is neither disabled nor unhashable", p)
            elif v == rec:
                expand = p.facts.get(("isnone", TASK)) is not True and any(q[0] == "eq" and x and mentions(q, k) and "EXPAND" in tstr(q) for q, x in p.facts.items())
                ctx.check(not expand, "key:expand", e.where(), "an item of an expanded dependency enters the key as the version of the whole", p)
                ctx.check(p.facts.get(("isinstance", rec, ("builtin", "dict"))) is not True, "key:task", e.where(), "the versions of every task enter the key", p)
                ctx.check(coll is not True, "key:collected", e.where(), "the collected items enter the key as the version of one of them", p)
            elif v == ("item", rec, TASK):
                ctx.check(coll is not True, "key:collected", e.where(), "the collected items enter the key as the version of one of them", p)
            elif is_hash(p, v, lambda x: x == val):
                pass
            elif coll is True and any(q[0] == "truthy" and x is False and q[1][0] == "val" for q, x in p.facts.items()) and is_hash(p, v, lambda x: x in (("list", ()), ("tuple", ()))):
                pass
            elif coll is True and is_hash(p, v, lambda x: x[0] in ("list", "tuple") and x[1] and all(r[0] == "e" and version_of(p, r[1], ("elem", val), guards_of(r)) and not guards_skip(p, r) for r in x[1])):
                pass
            elif is_hash(p, v, lambda x: mentions(x, ("elem", val)) or any(mentions(x, ("res", y.uid)) and y.args and mentions(y.args[0], ("elem", val)) for y in p.trace if y.name == "hash_value")):
                h = next(y for y in p.trace if ("res", y.uid) == v)
                x = h.args[0]
                ctx.check(not any(s[0] == "pure" and s[1] in ("sorted", "set", "frozenset") for s in subterms(x) if isinstance(s, tuple) and len(s) > 1) and x[0] != "set", "key:order", h.where(), "the key of a collecting node does not depend on the order of the items", p)
                ctx.need(x[0] in ("list", "tuple", "pure", "set"), f"{f.qual}: collected items not recognised")
                if x[0] in ("list", "tuple") and not (not x[1] and p.facts.get(("truthy", val)) is False):
                    ctx.check(all(not guards_skip(p, y) and version_of(p, y[1], ("elem", val), guards_of(y)) for y in x[1]) and x[1], "key:items", h.where(), "an item of a collected dependency is not part of the key", p)
            elif v[0] == "item" and v[2][0] == "slice" and (v[1] in (rec, ("item", rec, TASK)) or version_of(p, v[1], val)):
                ctx.check(False, "key:cut", e.where(), "only a part of the version of a dependency is part of the key", p)
            elif any(v[:1] == ("item",) and s == slot("data_versions", o) for s in subterms(v) for o in (NAME,)):
                ctx.check(False, "key:other", e.where(), f"a dependency enters the key as {tstr(v)[:80]}, the version of another node", p)
            elif is_hash(p, v, lambda x: mentions(x, val) and x[0] == "pure" and x[1] in ("type", "len", "bool", "id")):
                ctx.check(False, "key:lossy", e.where(), "the key depends on a dependency's type or size, not its value", p)
            elif unhashable(p) and v[0] == "fstr" and not mentions(v, ("attr", SELFT, "data_versions")) and not any(s[0] == "res" for s in subterms(v) if isinstance(s, tuple) and s):
                ctx.check(False, "key:unhashable", e.where(), f"different unhashable values of a dependency enter the key alike, as {tstr(v)[:80]}", p)
            else:
                ctx.need(not mentions(v, val) and not mentions(v, ("attr", SELFT, "data_versions")) and not any(mentions(v, ("res", y.uid)) and any(mentions(a, val) for a in y.args) for y in p.trace),
                         f"{f.qual}: version {tstr(v)[:100]} of a dependency not recognised")
                ctx.check(False, "key:value", e.where(), f"a dependency enters the key as {tstr(v)[:80]}, which its data does not determine", p)
        dicts = [k[1] for k, x in p.facts.items() if k[0] == "truthy" and k[1][0] == "dict" and layers(k[1]) and any(a in (KW, DEF) for a, _ in layers(k[1])) and x]
        if not recs:
            empty = any(k[0] == "truthy" and x is False and (k[1] == KW or any(a == KW for a, _ in layers(k[1]))) for k, x in p.facts.items())
            ctx.check(empty or not dicts and p.facts.get(("truthy", KW)) is False, "key:dependencies", e.where(), "a dependency is missing from the key", p)
    ctx.need(n, "no dependency of a key was recognised")
    ctx.count("dependency versions in keys", n)


def guards_skip(p, r):
    """A record taken only under a condition on the value (rather than one that tells hashable from unhashable)."""
    return any(not (k[0] == "eq" and any(x == const(UNH) for x in k[1:3])) for k in guards_of(r))


def roles(p, facts=None):
    return {k: v for k, v in p.facts.items() if k == ("isnone", TASK) or k[0] == "eq" and (TASK in k[1:3] and NAME in k[1:3] or "NodeType." in tstr(k) and mentions(k, NAME))}


def compatible(a, b):
    return all(b.get(k, v) == v for k, v in a.items())


def slots_part(ctx):
    ctx.rule("(slots) The key looked up when a node runs is the one made for it just before, also within tasks; the data version looked up after it ran, or by nodes that depend on it, is the one recorded for it; each of the nodes and tasks of a run has its own.")
    pf, pre = adapter(ctx, "pre_node_execute")
    df, do = adapter(ctx, "do_node_execute")
    qf, post = adapter(ctx, "post_node_execute")

    def writes(ps, store):
        out = {}
        for p in ps:
            if p.kind != "return":
                continue
            for e in p.trace:
                if e.kind == "setitem" and e.recv is not None and mentions(e.recv, ("attr", SELFT, store)) and e.args[1] != ("dict", ()):
                    out[(frozenset(roles(p).items()), ("item", e.recv, e.args[0]))] = (p, e)
        return out

    def reads(ps, store, find):
        out = {}
        for p in ps:
            if p.kind != "return":
                continue
            for e in p.trace:
                t = find(e)
                if t is not None and mentions(t, ("attr", SELFT, store)):
                    out[(frozenset(roles(p).items()), t)] = (p, e)
        return out

    def lookup(e):
        if e.name in ("get", "set", "exists") and e.recv is not None and mentions(e.recv, ("attr", SELFT, "metadata_store")):
            return e.arg("cache_key", 0)
        return None

    def result(e):
        if e.name in ("get", "set", "exists") and e.recv is not None and mentions(e.recv, ("attr", SELFT, "result_store")):
            return e.arg("data_version", 0)
        return None
    for store, W, R in (("cache_keys", writes(pre, "cache_keys"), {**reads(do, "cache_keys", lookup), **reads(post, "cache_keys", lookup)}),
                        ("data_versions", writes(do, "data_versions"), reads(post, "data_versions", result))):
        wr = [(p, any(e.kind == "setitem" and e.recv == slot0(store) and e.args[1] == ("dict", ()) and e.args[0] == NAME for e in p.trace), e)
              for p in (pre if store == "cache_keys" else do) if p.kind == "return" for e in p.trace if e.kind == "setitem" and e.recv == ("item", slot0(store), NAME)]
        ctx.check(not wr or any(not r for _, r, _ in wr), f"slots:{store}:reset", wr[0][2].where() if wr else "", "recording the entry of a task drops those of the others", wr[0][0] if wr else None)
        ctx.need(W, f"no write of {store} recognised")
        ctx.need(R, f"no use of {store} recognised")
        n = 0
        for (rf, rt), (rp, re_) in R.items():
            for (wf, wt), (wp, we) in W.items():
                if compatible(dict(rf), dict(wf)):
                    n += 1
                    ctx.check(rt == wt, f"slots:{store}", re_.where(), f"what is recorded as {tstr(wt)[:80]} is looked up as {tstr(rt)[:80]}", rp)
        ctx.need(n, f"no matching write and use of {store}")
        for (wf, wt), (wp, we) in W.items():
            ctx.check(mentions(wt, NAME), f"slots:{store}:own", we.where(), "nodes share one entry", wp)
            ctx.check(mentions(wt, RUN), f"slots:{store}:run", we.where(), "runs share one entry", wp)
            d = dict(wf)
            inside = d.get(("isnone", TASK)) is False and all(v is False for k, v in d.items())
            ctx.check(not inside or mentions(wt, TASK), f"slots:{store}:task", we.where(), "the tasks of an expanded node share one entry", wp)


def start_part(ctx):
    ctx.rule("(start) When a run starts, its versions and keys are empty, every input and every override gets the version of the value passed, and the code versions are those of this run's graph.")
    f, ps = adapter(ctx, "pre_graph_execute", opaque=["resolve_behaviors", "resolve_code_versions"])
    IN, OV = ("param", "inputs"), ("param", "overrides")
    n = 0
    for p in ps:
        if p.kind != "return":
            continue
        fresh = {}
        for i, e in enumerate(p.trace):
            if e.kind == "setitem" and e.recv[0] == "attr" and e.recv[1] == SELFT and e.args[0] == RUN:
                fresh[e.recv[2]] = (i, e)
        for s in ("data_versions", "cache_keys"):
            ctx.check(s in fresh and fresh[s][1].args[1] == ("dict", ()), f"start:{s}", f.loc(), f"a run does not start with empty {s}", p)
        ctx.check("_fn_graphs" in fresh and fresh["_fn_graphs"][1].args[1] == ("param", "graph"), "start:graph", f.loc(), "the run is not tied to its graph", p)
        for s, src in (("code_versions", "resolve_code_versions"), ("behaviors", "resolve_behaviors")):
            es = [e for e in p.trace if e.name == src]
            ctx.check(s in fresh and len(es) == 1 and fresh[s][1].args[1] == ("res", es[0].uid), f"start:{s}", f.loc(), f"the {s} of the run are not resolved for it", p)
            for e in es:
                a = e.arg("run_id", 0)
                ctx.check(a == RUN, f"start:{s}:run", e.where(), f"the {s} are resolved for another run", p)
                g = fresh.get("_fn_graphs")
                ctx.check(g is None or g[0] < p.trace.index(e), f"start:{s}:graph", e.where(), f"the {s} are resolved before the graph of the run is known", p)
        cs = [e for e in p.trace if e.name == "resolve_code_versions"]
        for e in cs:
            for a in ("final_vars", "inputs", "overrides"):
                ctx.check(e.arg(a, 99) in (("param", a), None), "start:selection", e.where(), f"code versions are resolved for other {a}", p)
        for D, what in ((IN, "input"), (OV, "override")):
            if p.facts.get(("truthy", D)) is False:
                continue
            w = [(i, e) for i, e in enumerate(p.trace) if e.kind == "setitem" and e.recv == ("item", ("attr", SELFT, "data_versions"), RUN) and e.args[0] == ("key", D)]
            ctx.check(len(w) >= 1, f"start:{what}", f.loc(), f"an {what} gets no data version", p)
            for i, e in w:
                n += 1
                ctx.check(version_of(p, e.args[1], ("val", D)), f"start:{what}:value", e.where(), f"the version of an {what} is {tstr(e.args[1])[:80]}", p)
                ctx.check("data_versions" not in fresh or fresh["data_versions"][0] < i, f"start:{what}:order", e.where(), f"the version of an {what} is cleared again", p)
        ini = [e for e in p.trace if e.name == "initialize" and mentions(e.recv, ("attr", SELFT, "metadata_store"))]
        ctx.check(len(ini) == 1 and (ini[0].args or tuple(ini[0].kwargs.values()))[0] == RUN, "start:store", f.loc(), "the metadata store is not told of the run", p)
    ctx.need(n, "no input or override recognised")


def code_part(ctx):
    ctx.rule("(code) The code version of a node is computed from the source of the function it comes from; only comments, and a docstring at the start of a function, leave it unchanged.")
    ix = ctx.ix
    f, ps = adapter(ctx, "resolve_code_versions")
    n = 0
    for p in ps:
        if p.kind != "return" or p.value[0] != "dict":
            ctx.need(p.kind == "raise" or p.value == ("dict", ()), f"{f.qual}: {tstr(p.value)[:80]} not recognised") if p.kind == "return" else None
            continue
        for r in p.value[1]:
            ctx.need(r[0] == "kv", f"{f.qual}: not recognised")
            N = r[1]
            made = [e for e in p.trace if e.name == "from_node" and r[2] == ("attr", ("res", e.uid), "version")]
            ctx.need(len(made) == 1, f"{f.qual}: version {tstr(r[2])[:80]} not recognised")
            a = made[0].args[0] if made[0].args else next(iter(made[0].kwargs.values()))
            own = a == ("item", ("attr", slot0("_fn_graphs"), "nodes"), N) or N == ("attr", a, "name")
            ctx.check(own, "code:own", made[0].where(), f"the code version of a node is that of {tstr(a)[:80]}", p)
            src = r[1][1] if r[1][0] == "attr" else r[1]
            ctx.need(src[0] == "elem", f"{f.qual}: nodes not recognised")
            src = canon(src[1])
            get = [e for e in p.trace if e.name == "get_nodes" and ("res", e.uid) == src]
            ups = [e for e in p.trace if e.name == "get_upstream_nodes"]
            if not get:
                ctx.need(ups and mentions(src, ("item", ("res", ups[0].uid), const(0))), f"{f.qual}: nodes {tstr(src)[:80]} not recognised")
                dropped = src[0] == "op" and src[1] == "Sub"
                left = canon(src[2]) if dropped else src
                ctx.check(left == ("item", ("res", ups[0].uid), const(0)) or mentions(left, ("item", ("res", ups[0].uid), const(0))), "code:selection", f.loc(), "nodes that run have no code version", p)
                for a, nm in zip(("final_vars", "inputs", "overrides"), range(3)):
                    v = ups[0].args[nm] if len(ups[0].args) > nm else ups[0].kwargs.get(a)
                    ctx.check(v is None or v == ("param", a) or v in (("dict", ()), ("list", ())), "code:selection", ups[0].where(), f"nodes are selected for other {a}", p)
            n += 1
    ctx.need(n, "no code version recognised")
    H = ix.cls("hamilton.graph_types.HamiltonNode")
    v = ix.method(H, "version")
    OF = ("attr", SELFT, "originating_functions")
    hashed = 0
    for p in ctx.paths(v, self_cls=H, inline_modules=["hamilton.graph_types"], opaque=["hash_source_code"], raises="none", keyfacts=lambda k: True):
        if p.kind != "return":
            continue
        hs = [e for e in p.trace if e.name == "hash_source_code"]
        if p.facts.get(("isnone", OF)) is True or p.facts.get(("truthy", OF)) is False:
            continue
        hashed += 1
        ctx.check(len(hs) >= 1 and any(mentions(p.value, ("res", e.uid)) for e in hs), "code:hash", v.loc(), f"the version of a node with a function is {tstr(p.value)[:80]}", p)
        for e in hs:
            ctx.check(mentions(e.args[0] if e.args else e.kwargs.get("source"), OF), "code:function", e.where(), "the version is not computed from the function of the node", p)
            ctx.check(all(e.args[0] != ("item", OF, const(i)) for i in (-1, 1, 2)) if e.args else True, "code:first", e.where(), "the version is computed from code of the framework", p)
    ctx.need(hashed, "HamiltonNode.version not recognised")
    h = ix.func("hamilton.graph_types.hash_source_code")
    S = ("param", h.node.args.args[0].arg)
    for p in ctx.paths(h, inline_modules=["hamilton.graph_types"], raises="none", keyfacts=lambda k: True, keep=lambda e: True):
        if p.kind != "return":
            continue
        dg = [e for e in p.trace if e.name in ("hexdigest", "digest")]
        ctx.need(len(dg) == 1 and mentions(p.value, ("res", dg[0].uid)), f"{h.qual}: digest not recognised")
        fed = [a for e in p.trace if ("res", e.uid) == dg[0].recv or e.name == "update" and e.recv == dg[0].recv for a in e.args]
        ctx.need(fed, f"{h.qual}: digest not recognised")
        srcs = [S] + [("res", e.uid) for e in p.trace if e.name == "getsource" and mentions(e.args[0], S)]
        chain = set(srcs)
        for _ in range(4):
            for e in p.trace:
                if e.kind == "call" and e.name in ("parse", "unparse", "dedent", "cleandoc") and any(mentions(a, c) for a in e.args for c in chain):
                    chain.add(("res", e.uid))
        ctx.check(any(mentions(a, c) for a in fed for c in chain), "code:source", h.loc(), f"what is hashed is {tstr(fed[0])[:80]}, not the source", p)
        ctx.check(not any(s[0] in ("item", "slice") for a in fed for s in subterms(a) if isinstance(s, tuple) and s), "code:whole", h.loc(), "only a part of the source is hashed", p)
        for e in p.trace:
            if e.kind in ("setattr", "setitem", "delitem", "delattr") or e.kind in ("mut",) and e.name in ("pop", "clear", "remove"):
                body = ("attr", e.recv, "body")
                first = ("item", body, const(0))
                doc = e.kind == "setattr" and e.name == "body" and e.args[0][0] == "item" and e.args[0][1] == body and e.args[0][2] == ("slice", const(1), NONE, NONE)
                ctx.need(e.kind == "setattr", f"{h.qual}: change of the syntax tree not recognised")
                ctx.check(doc, "code:stripped", e.where(), f"code other than a docstring is removed before hashing ({tstr(e.args[0])[:60]})", p)
                expr = any(k[0] == "isinstance" and k[1] == first and x and "Expr" in tstr(k[2]) for k, x in e.nfacts.items())
                text = any(k[0] == "isinstance" and mentions(k[1], ("attr", first, "value")) and x and tstr(k[2]).rsplit(".", 1)[-1].strip("')") in ("Str", "str", "Constant") for k, x in e.nfacts.items()) \
                    or any(k[0] in ("isnone", "truthy") and "get_docstring" in tstr(k) for k in e.nfacts)
                only_const = text and not any("Str" in tstr(k[2]) or "str" in tstr(k[2]) for k, x in e.nfacts.items() if k[0] == "isinstance" and mentions(k[1], ("attr", first, "value")) and x) and not any("get_docstring" in tstr(k) for k in e.nfacts)
                ctx.check((expr or any("get_docstring" in tstr(k) for k in e.nfacts)) and text and not only_const, "code:docstring", e.where(), "the first statement of a function is removed before hashing though it may be no docstring", p)


def slot0(store):
    return ("item", ("attr", SELFT, store), RUN)


def holds(p, k, x, ch):
    """Truth of condition k about the character x when it is ch; None if unknown."""
    if k[0] in ("truthy",):
        for e in p.trace:
            if ("res", e.uid) == k[1] and e.recv == x and not e.args and e.name.startswith("is"):
                return bool(getattr(ch, e.name)())
        if k[1][0] == "pure" and k[1][2] == x and not k[1][3] and k[1][1].startswith("is"):
            return bool(getattr(ch, k[1][1])())
    if k[0] == "eq" and x in k[1:3]:
        o = k[2] if k[1] == x else k[1]
        return o[1] == ch if o[0] == "const" else None
    if k[0] == "in" and k[1] == x:
        if k[2][0] == "const" and isinstance(k[2][1], str):
            return ch in k[2][1]
        if k[2][0] in ("tuple", "list", "set") and all(r[0] == "e" and r[1][0] == "const" for r in k[2][1]):
            return const(ch) in [r[1] for r in k[2][1]]
    return None


def text_part(ctx):
    ctx.rule("(text) The key holds the node's name, its code version and the name and version of every dependency, independent of their order.")
    ix = ctx.ix
    f = ix.func("hamilton.caching.cache_key.create_cache_key")
    N, C, D = ("param", "node_name"), ("param", "code_version"), ("param", "dependencies_data_versions")
    n = 0
    for p in ctx.paths(f, inline_modules=["hamilton.caching.cache_key"], raises="none", keyfacts=lambda k: True, keep=lambda e: True):
        if p.kind != "return":
            continue
        n += 1
        terms = [p.value]
        seen = set()
        while True:   # what the calls that make up the key are given
            more = [e for e in p.trace if e.uid not in seen and e.kind == "call" and any(mentions(t, ("res", e.uid)) for t in terms)]
            if not more:
                break
            for e in more:
                seen.add(e.uid)
                terms += [*e.args, *e.kwargs.values()] + ([e.recv] if e.recv is not None else [])
        has = lambda x: any(mentions(t, x) for t in terms)
        ctx.check(has(N) or has(("elem", N)), "text:name", f.loc(), "the key does not hold the name of the node", p)
        ctx.check(has(C), "text:code", f.loc(), "the key does not hold the code version", p)
        ctx.check(not any(s[0] == "item" and s[1] in (N, C, D) and s[2][0] == "slice" for t in terms for s in subterms(t) if isinstance(s, tuple) and len(s) > 2 and isinstance(s[2], tuple) and s[2]), "text:cut", f.loc(), "a part of the key is cut off", p)
        kept, chars = set(), False
        for t in terms:
            for s in subterms(t):
                if isinstance(s, tuple) and len(s) == 3 and s[0] == "e" and s[1] == ("elem", N):
                    g = guards_of(s)
                    for ch in "aZ7_":
                        vals = [(holds(p, k, ("elem", N), ch), v) for k, v in g.items()]
                        ctx.need(all(x is not None for x, _ in vals), f"{f.qual}: characters of the name kept not recognised")
                        if all(x == v for x, v in vals):
                            kept.add(ch)
                    chars = True
        ctx.check(not chars or kept == set("aZ7_"), "text:letters", f.loc(), "some characters of the name are dropped: nodes of different names share keys", p)
        empty = any(k[0] == "truthy" and x is False and mentions(k, D) for k, x in p.facts.items()) or any(k[0] == "eq" and x and mentions(k, D) and const(0) in k[1:3] for k, x in p.facts.items())
        if empty:
            continue
        ctx.check(has(("key", D)) or has(("pure", "items", D, (), ())) and not has(("val", D)), "text:dependencies", f.loc(), "the key does not hold the names of the dependencies", p)
        ctx.check(has(("val", D)) or has(("item", D, ("key", D))) or has(("pure", "items", D, (), ())) and not has(("key", D)), "text:versions", f.loc(), "the key does not hold the versions of the dependencies", p)
        dumps = [e for e in p.trace if e.name == "dumps" and e.kwargs.get("sort_keys") == TRUE]
        srt = any(isinstance(s, tuple) and len(s) > 1 and s[0] == "pure" and s[1] == "sorted" and mentions(s, D) for t in terms for s in subterms(t)) or dumps
        ctx.check(bool(srt), "text:order", f.loc(), "the same dependencies in another order give another key", p)
    ctx.need(n, f"{f.qual}: nothing recognised")


PARTS = [("key", key_part), ("slots", slots_part), ("start", start_part), ("code", code_part), ("text", text_part)]


def run(ctx):
    for _, f in PARTS:
        f(ctx)
