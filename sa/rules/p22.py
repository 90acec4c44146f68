"""P22: fingerprints of values: equal values get equal ones, in every process; different values get different ones."""
import ast

from .common import *
from .p21 import ev_of, flat_terms, row

MOD = "hamilton.caching.fingerprinting"
OBJ, DEPTH = ("param", "obj"), ("param", "depth")
NEVER = {"id", "hash", "uuid4", "uuid1", "time", "time_ns", "perf_counter", "monotonic", "now", "utcnow", "today", "random", "randint", "getrandbits", "urandom", "getpid", "get_ident", "token_hex", "object.__repr__", "sample", "shuffle", "choice"}
DIGESTS = {"md5", "sha1", "sha224", "sha256", "sha384", "sha512", "blake2b", "blake2s", "sha3_224", "sha3_256", "new"}
ENC = ("encode",)


def module(ctx):
    m = ctx.ix.modules.get(MOD)
    ctx.need(m is not None, f"{MOD} not found")
    return m


def handlers(ctx):
    """Registered type (last name) -> function."""
    m = module(ctx)
    out = {}
    for f in m.functions.values():
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "register" and getattr(d.func.value, "id", "") == "hash_value" and d.args:
                out.setdefault(ast.unparse(d.args[0]).split(".")[-1], []).append(f)
            elif isinstance(d, ast.Attribute) and d.attr == "register" and getattr(d.value, "id", "") == "hash_value":
                a = f.node.args.args
                if a and a[0].annotation is not None:
                    out.setdefault(ast.unparse(a[0].annotation).split(".")[-1], []).append(f)
    for s in m.tree.body:
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "register" and getattr(s.value.func.value, "id", "") == "hash_value" and len(s.value.args) == 2:
            g = m.functions.get(getattr(s.value.args[1], "id", ""))
            ctx.need(g is not None, f"{MOD}: handler of {ast.unparse(s.value.args[0])} not found")
            out.setdefault(ast.unparse(s.value.args[0]).split(".")[-1], []).append(g)
    return out


def walk(ctx, f, **kw):
    kw = {"opaque": ["hash_value"], "raises": "none", **kw}
    ps = ctx.paths(f, inline_modules=[MOD], keep=lambda e: True, keyfacts=lambda k: True, keyev=lambda e: True, **kw)
    ctx.need(bool(ps), f"{f.qual}: no path")
    return ps


def decoded(t):
    return t[2] if t[0] == "pure" and t[1] == "decode" else None


def encoded(t):
    if t[0] == "pure" and t[1] in ENC and t[2] is not None:
        lossy = any(isinstance(s, tuple) and s[:1] == ("const",) and s[1] in ("ignore", "replace") for x in t[3:] for s in subterms(x))
        return t if lossy and t[2][0] != "res" else t[2]
    return t


def loops_of(L):
    return L[1] if L and L[0] == "L" else ()


def guards_in(L):
    return L[2] if L and L[0] == "L" and len(L) > 2 else ()


def feed(t, loops):
    """One argument of the digest: the strings that enter, each with its loops; a joined list is its elements."""
    t = encoded(t)
    if t[0] == "pure" and t[1] == "join" and t[3] and t[3][0][0] == "list":
        return [(encoded(r[1]), loops + (("loop", t[3][0], 0),)) for r in t[3][0][1] if r[0] == "e"]
    if t[0] == "pure" and t[1] == "join" and t[3] and t[3][0][0] == "pure" and t[3][0][1] == "sorted" and t[3][0][3][0][0] == "list":
        return [(encoded(r[1]), loops + (("loop", t[3][0], 0),)) for r in t[3][0][3][0][1] if r[0] == "e"]
    return [(t, loops)]


def order(p, t, f):
    """What a loop runs over: (collection, kinds of sorting, conditions, keys of dictionaries built on the way, unknown)."""
    kinds, conds, keys, odd = [], [], [], None
    while True:
        if any(e.kind == "mut" and e.name == "sort" and e.recv == t for e in p.trace):
            kinds.append(next(e.kwargs.get("key") for e in p.trace if e.kind == "mut" and e.name == "sort" and e.recv == t))
        if t[0] == "pure" and t[1] in ("items", "keys", "values") and t[2] is not None:
            t = t[2]
        elif t[0] == "pure" and t[1] == "range" and len(t[3]) == 1 and t[3][0][:2] == ("pure", "len"):
            t = t[3][0][3][0]
        elif t[0] == "pure" and t[1] in ("list", "tuple", "iter", "enumerate", "reversed") and t[3]:
            t = t[3][0]
        elif t[0] == "pure" and t[1] == "sorted" and t[3]:
            kinds.append(dict(x for x in t[4] if len(x) == 2).get("key"))
            t = t[3][0]
        elif t[0] in ("list", "tuple") and len(t[1]) == 1 and t[1][0][0] == "spread":
            t = t[1][0][1]
        elif t[0] in ("list", "dict") and t[1] and t[1][0][0] in ("e", "kv") and loops_of(t[1][0][-1]):
            L = t[1][0][-1]
            conds += list(guards_in(L))
            if t[0] == "dict":
                keys.append(t[1][0][1])
            t = loops_of(L)[-1][1]
        else:
            if t[0] == "pure" and t[1] in ("zip", "map", "filter", "islice", "set", "frozenset", "chain"):
                odd = t
            return t, kinds, conds, keys, odd


def sort_kind(ctx, p, f, kinds, key):
    for k in kinds:
        if k is None or k == ("global", "str") or k in (("builtin", "str"), ("builtin", "repr")):
            continue
        n = tstr(k)
        ctx.check(not any(w == n.split(".")[-1].strip("<>") for w in ("len", "hash", "id", "type")), key, f.loc(), f"sorted by {n[:30]}, which does not settle the order: the fingerprint depends on the order of iteration", p)


def digest(ctx, p, f):
    """What the fingerprint is a digest of, in order: [(term, loops)]; or ("value", term) when it is another fingerprint or a constant."""
    v = p.value
    if v[0] == "item" and decoded(v[1]) is not None:
        ctx.bad(f"{f.name}:whole", f.loc(), "only a part of the digest makes the fingerprint", p)
        return None
    if v[0] == "const":
        return ("const", v)
    if v[0] == "global":
        return ("const", v)
    if v[0] == "res" and ev_of(p, v[1]).name in ("hash_value", "hash_sequence"):
        return ("value", ev_of(p, v[1]))
    t = decoded(v)
    d = None
    if t is not None and t[0] == "res":
        e = ev_of(p, t[1])
        if e.name in ("urlsafe_b64encode", "b64encode", "b32encode", "b16encode") and len(e.args) == 1:
            d = e.args[0]
    elif v[0] == "res" and ev_of(p, v[1]).name == "hexdigest":
        d = v
    ctx.need(d is not None, f"{f.qual}: fingerprint {tstr(v)[:60]} not recognised")
    if d[0] == "item":
        ctx.bad(f"{f.name}:whole", f.loc(), "only a part of the digest makes the fingerprint", p)
        return None
    ctx.need(d[0] == "res" and ev_of(p, d[1]).name in ("digest", "hexdigest"), f"{f.qual}: digest {tstr(d)[:60]} not recognised")
    h = ev_of(p, d[1]).recv
    ctx.need(h is not None and h[0] == "res" and ev_of(p, h[1]).name in DIGESTS, f"{f.qual}: digest of {tstr(h)[:60] if h else None}")
    c = ev_of(p, h[1])
    end = p.trace.index(ev_of(p, d[1]))
    out = [x for a in c.args if not (a[0] == "const" and c.name == "new") for x in feed(a, ())]
    for e in p.trace[:end]:
        if e.kind == "call" and e.name == "update" and e.recv == h:
            out += feed(e.args[0], e.loops)
    return ("digest", out)


def fp_of(p, t):
    """The value t is the fingerprint of (a call of hash_value), with the call."""
    if t[0] == "res":
        e = ev_of(p, t[1])
        if e is not None and e.name == "hash_value":
            return e.arg("obj", 0), e
    return None, None


def deeper(t):
    """depth + k, k >= 1."""
    k = 0
    while t is not None and t[0] == "op" and t[1] == "Add" and t[3][0] == "const":
        k += t[3][1]
        t = t[2]
    return t == DEPTH and k >= 1


def depths(ctx, p, f):
    for e in p.trace:
        if e.name == "hash_value" and e.kind == "call":
            ctx.check(deeper(e.kwargs.get("depth")), f"{f.name}:depth", e.where(), "the depth reached is not passed on: a structure that contains itself is never finished", p)


def clean(ctx, p, f):
    for e in p.trace:
        ctx.check(not (e.kind in ("call", "callv") and e.name in NEVER), f"{f.name}:deterministic", e.where(), f"{e.name}() makes the fingerprint differ between equal values", p)
    for t in [p.value] + [x for e in p.trace for x in list(e.args)]:
        for s in subterms(t):
            if isinstance(s, tuple) and s[:1] == ("pure",) and s[1] in ("id", "hash"):
                ctx.bad(f"{f.name}:deterministic", f.loc(), f"{s[1]}() makes the fingerprint differ between equal values", p)


def is_text(t, x):
    return t[0] == "pure" and t[1] in ("str", "repr") and t[3] == (x,) or t[0] == "fstr" and len(t) == 2 and t[1] == x or t[0] == "pure" and t[1] == "str" and len(t[3]) == 1 and is_text(t[3][0], x)


def element(ctx, p, f, rec, of, key):
    """The record fed to the digest is the fingerprint of `of`."""
    x, e = fp_of(p, rec[0])
    ctx.check(x == of, key, f.loc(), f"{tstr(rec[0])[:60]} enters the fingerprint instead of the fingerprint of each element", p)


def loop_over(loops):
    return loops[-1][1] if loops else None


def empty(p, *colls):
    return any(k[0] == "truthy" and v is False and (k[1] in colls or any(c in flat_terms(k[1]) for c in colls)) for k, v in p.facts.items())


def sequence(ctx, f, src=OBJ, key=None, extra=()):
    key = key or f.name
    for p in walk(ctx, f):
        clean(ctx, p, f)
        depths(ctx, p, f)
        d = digest(ctx, p, f)
        if d is None:
            continue
        ctx.check(d[0] == "digest", f"{key}:content", f.loc(), "the fingerprint of a sequence does not depend on its elements", p)
        if d[0] != "digest":
            continue
        recs = [r for r in d[1] if r[1]]
        flatd = [r for r in d[1] if not r[1]]
        if empty(p, src):
            continue
        ctx.need(not [r for r in flatd if "join" in tstr(r[0])], f"{f.qual}: {tstr(flatd[0][0])[:60] if flatd else ''} not recognised")
        ctx.check(len(recs) == 1 and len(recs[0][1]) == 1, f"{key}:all", f.loc(), "not every element enters the fingerprint, once", p)
        for r in recs:
            element(ctx, p, f, r, ("elem", src), f"{key}:element")
            base, kinds, conds, _, _ = order(p, loop_over(r[1]), f)
            ctx.check(base == src and not kinds, f"{key}:order", f.loc(), f"the elements enter in the order of {tstr(loop_over(r[1]))[:60]}: sequences that differ in order get one fingerprint", p)
            for g in conds:
                ctx.bad(f"{key}:filter", f.loc(), f"elements enter the fingerprint only when {tstr(g)[:60]}", p)
            for g in guard(p, r):
                ctx.bad(f"{key}:filter", f.loc(), f"elements enter the fingerprint only when {tstr(g)[:60]}", p)
    collapse(ctx, f)


def guard(p, r):
    ev = [e for e in p.trace if e.kind == "call" and e.name == "update" and encoded(e.args[0]) == r[0]]
    return [k for e in ev for k in (e.nfacts or {}) if any(isinstance(s, tuple) and s[:1] in (("elem",), ("key",), ("val",)) for s in subterms(k)) and k[0] not in ("truthy",)]


def collapse(ctx, f):
    """An element that cannot be fingerprinted must not be taken for any other such element."""
    ok = any(k[0] == "eq" and any(fp_of(p, x)[0] is not None for x in k[1:3] if isinstance(x, tuple)) and "UNHASHABLE" in tstr(k) or k[0] == "eq" and "<unhashable>" in tstr(k) for p in walk(ctx, f) for k in p.facts)
    ctx.check(ok, f"{f.name}:unhashable-elements", f.loc(), "elements that cannot be fingerprinted all count as one and the same value inside a container")


def mapping(ctx, f):
    ig = ("param", "ignore_order")
    has = ig[1] in [a.arg for a in f.node.args.args + f.node.args.kwonlyargs]
    if has:
        a = f.node.args
        dflt = dict(zip([x.arg for x in a.kwonlyargs], a.kw_defaults)) | dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
        dv = dflt.get("ignore_order")
        ctx.check(isinstance(dv, ast.Constant) and dv.value is True, f"{f.name}:default", f.loc(), "equal mappings get different fingerprints when their entries were added in another order")
    K, V = ("key", OBJ), ("val", OBJ)
    for p in walk(ctx, f):
        clean(ctx, p, f)
        depths(ctx, p, f)
        d = digest(ctx, p, f)
        if d is None:
            continue
        ctx.check(d[0] == "digest", f"{f.name}:content", f.loc(), "the fingerprint of a mapping does not depend on its entries", p)
        if d[0] != "digest" or empty(p, OBJ) or any(k[0] == "truthy" and v is False and any(fp_of(p, s)[0] in (K, V) for s in subterms(k) if isinstance(s, tuple)) for k, v in p.facts.items()):
            continue
        unordered = not has or p.facts.get(("truthy", ig)) is True
        recs = [r for r in d[1] if r[1]]
        got = [fp_of(p, r[0])[0] for r in recs]
        if len(recs) == 1 and got == [None]:
            got = [fp_of(p, s)[0] for s in subterms(recs[0][0]) if isinstance(s, tuple) and fp_of(p, s)[0] is not None]
        ctx.check(K in got, f"{f.name}:keys", f.loc(), "the keys do not enter the fingerprint", p)
        ctx.check(V in got, f"{f.name}:values", f.loc(), "the values do not enter the fingerprint", p)
        ctx.check(len({r[1] for r in recs}) <= 1, f"{f.name}:pairs", f.loc(), "keys and values enter separately: which value belongs to which key is lost", p)
        for r in recs:
            for g in guard(p, r):
                ctx.bad(f"{f.name}:filter", f.loc(), f"entries enter the fingerprint only when {tstr(g)[:60]}", p)
            t = loop_over(r[1])
            base, kinds, conds, keys, odd = order(p, t, f)
            if odd is not None and odd[1] == "zip":
                ctx.check(not any(isinstance(s, tuple) and s[:2] == ("pure", "sorted") for s in subterms(odd)), f"{f.name}:pairs", f.loc(), "keys and values are put in order separately: which value belongs to which key is lost", p)
                continue
            sort_kind(ctx, p, f, kinds, f"{f.name}:unordered")
            for k in keys:
                ctx.check(fp_of(p, k)[0] == K or k == K, f"{f.name}:keyed", f.loc(), f"the entries are kept under {tstr(k)[:60]}: those that share it are lost", p)
            for g in conds:
                ctx.bad(f"{f.name}:filter", f.loc(), f"entries enter the fingerprint only when {tstr(g)[:60]}", p)
            if unordered:
                ctx.check(bool(kinds), f"{f.name}:unordered", f.loc(), "equal mappings get different fingerprints when their entries were added in another order", p)
            else:
                ctx.check(not kinds and base == OBJ, f"{f.name}:ordered", f.loc(), "mappings that differ in order get one fingerprint although order matters", p)
    collapse(ctx, f)


def set_(ctx, f):
    E = ("elem", OBJ)
    for p in walk(ctx, f):
        clean(ctx, p, f)
        depths(ctx, p, f)
        d = digest(ctx, p, f)
        if d is None:
            continue
        ctx.check(d[0] == "digest", f"{f.name}:content", f.loc(), "the fingerprint of a set does not depend on its elements", p)
        if d[0] != "digest" or empty(p, OBJ) or any(k[0] == "truthy" and v is False and any(fp_of(p, s)[0] == E for s in subterms(k) if isinstance(s, tuple)) for k, v in p.facts.items()):
            continue
        recs = [r for r in d[1] if r[1]]
        ctx.check(len(recs) == 1, f"{f.name}:all", f.loc(), "not every element enters the fingerprint, once", p)
        for r in recs:
            element(ctx, p, f, r, E, f"{f.name}:element")
            t = loop_over(r[1])
            base, kinds, conds, _, odd = order(p, t, f)
            srt = bool(kinds)
            ctx.need(odd is None or odd[1] not in ("map", "zip"), f"{f.qual}: {tstr(t)[:60]} not recognised")
            sort_kind(ctx, p, f, kinds, f"{f.name}:unordered")
            ctx.check(base == OBJ or not srt, f"{f.name}:part", f.loc(), f"only {tstr(base)[:60]} enters the fingerprint", p)
            for g in conds:
                ctx.bad(f"{f.name}:filter", f.loc(), f"elements enter the fingerprint only when {tstr(g)[:60]}", p)
            raw = srt and any(isinstance(s, tuple) and s[:2] == ("pure", "sorted") and s[3][:1] == (OBJ,) for s in flat_terms(t))
            ctx.check(srt, f"{f.name}:unordered", f.loc(), "the fingerprint of a set depends on the order in which it happens to be iterated", p)
            ctx.check(not raw, f"{f.name}:sortable", f.loc(), "elements are sorted by themselves: sets of mixed types fail", p)
            for g in guard(p, r):
                ctx.bad(f"{f.name}:filter", f.loc(), f"elements enter the fingerprint only when {tstr(g)[:60]}", p)
    collapse(ctx, f)


def pandas(ctx, f):
    for p in walk(ctx, f):
        clean(ctx, p, f)
        depths(ctx, p, f)
        h = [e for e in p.trace if e.name == "hash_pandas_object"]
        ctx.need(len(h) == 1, f"{f.qual}: rows are not hashed by pandas")
        e = h[0]
        ctx.check(e.arg("obj", 0) == OBJ and e.kwargs.get("index", TRUE) == TRUE and (len(e.args) < 2 or e.args[1] == TRUE), f"{f.name}:rows", e.where(), "the hashes per row do not cover the whole object, index included", p)
        ctx.check(all(k in ("obj", "index", "categorize", "encoding", "hash_key") for k in e.kwargs), f"{f.name}:options", e.where(), "unknown options", p)
        R = row(e)
        d = digest(ctx, p, f)
        if d is None:
            continue
        srcs = coll(p, R)
        if d[0] == "value":
            x = d[1].arg("obj", 0)
            while x[0] == "pure" and x[1] in ("list", "tuple") and x[3]:
                x = x[3][0]
            ctx.check(x in srcs, f"{f.name}:content", f.loc(), f"{tstr(x)[:60]} is fingerprinted instead of the rows", p)
            continue
        ctx.need(d[0] == "digest", f"{f.qual}: not a digest")
        if empty(p, *srcs):
            continue
        recs = [r for r in d[1] if r[1]]
        ctx.check(bool(recs), f"{f.name}:content", f.loc(), "the rows do not enter the fingerprint", p)
        vals = [r for r in recs if fp_of(p, r[0])[0] in [x for s in srcs for x in (("val", s), ("elem", s))]]
        lossy = [s for s in flat_terms(tuple(r[1] for r in recs)) if isinstance(s, tuple) and s[:1] == ("res",) and ev_of(p, s[1]) is not None and ev_of(p, s[1]).name in ("to_dict", "sum", "unique", "drop_duplicates", "head", "sample", "sort_values")]
        ctx.check(not lossy, f"{f.name}:each-row", f.loc(), "rows that share an index label (or some of the rows) do not enter the fingerprint", p)
        ctx.check(len(vals) == 1 or bool(lossy), f"{f.name}:row", f.loc(), "not every row enters the fingerprint, once", p)
        for r in vals:
            ctx.check(not any(isinstance(s, tuple) and s[:2] == ("pure", "sorted") for s in flat_terms(loop_over(r[1]))), f"{f.name}:order", f.loc(), "objects that differ in the order of their rows get one fingerprint", p)
    cols = any(any(isinstance(s, tuple) and s[:2] == ("attr", OBJ) and s[2] in ("columns", "name", "dtypes") for t in [x for e in p.trace for x in list(e.args) + [e.recv or NONE]] for s in subterms(t)) for p in walk(ctx, f))
    ctx.check(cols, f"{f.name}:labels", f.loc(), "dataframes that differ only in their column labels get one fingerprint")


def coll(p, R):
    """R and what is made of it one to one."""
    out = [R]
    for e in p.trace:
        if e.kind == "call" and e.recv in out and not e.args and e.name in ("to_list", "tolist", "to_numpy", "items", "values", "iteritems"):
            out.append(row(e))
    for x in list(out):
        out += [("attr", x, "values"), ("pure", "items", x, (), ()), ("pure", "tolist", x, (), ())]
    return out


def polars(ctx, f, src=OBJ, key=None):
    for p in walk(ctx, f, opaque=["hash_value", "hash_sequence"]):
        clean(ctx, p, f)
        depths(ctx, p, f)
        fr = [row(e) for e in p.trace if e.name == "to_frame" and e.recv == OBJ]
        h = [e for e in p.trace if e.name == "hash_rows"]
        ctx.need(len(h) == 1, f"{f.qual}: rows are not hashed by polars")
        e = h[0]
        ctx.check(e.recv in [OBJ] + fr and not e.args and not e.kwargs, f"{f.name}:rows", e.where(), "the hashes per row do not cover the whole dataframe", p)
        d = digest(ctx, p, f)
        ctx.need(d is not None and d[0] in ("digest", "value"), f"{f.qual}: not a digest")
        srcs = coll(p, row(e))
        if empty(p, *srcs):
            continue
        if d[0] == "value":
            x = d[1].arg("obj", 0)
            ctx.need(x is not None and (x in srcs or x[0] in ("list", "tuple") and all(r[0] in ("e", "spread") for r in x[1])), f"{f.qual}: fingerprint of {tstr(x)[:60] if x else None} not recognised")
            fed = [x] if x in srcs else [r[1] for r in x[1]]
        else:
            fed = [fp_of(p, r[0])[0] for r in d[1]]
        rows = [x for x in fed if x in srcs or x in [("elem", s) for s in srcs]]
        lossy = [x for x in p.trace if x.recv in srcs and x.name in ("unique", "sort", "sum", "head", "limit", "sample")]
        ctx.check(not lossy and len(rows) == 1, f"{f.name}:row", f.loc(), "not every row enters the fingerprint, once, in order", p)
        for r in d[1] if d[0] == "digest" else ():
            if r[1]:
                ctx.check(not any(isinstance(s, tuple) and s[:2] == ("pure", "sorted") for s in flat_terms(loop_over(r[1]))), f"{f.name}:order", f.loc(), "dataframes that differ in the order of their rows get one fingerprint", p)
        names_ = [("attr", x, c) for x in [OBJ] + fr for c in ("columns", "schema")]
        ctx.check(any(x in names_ or x is not None and any(y in flat_terms(x) for y in names_) for x in fed), f"{f.name}:labels", f.loc(), "dataframes that differ only in their column names get one fingerprint", p)


def numpy(ctx, f):
    whole = False
    for p in walk(ctx, f):
        clean(ctx, p, f)
        depths(ctx, p, f)
        d = digest(ctx, p, f)
        if d is None:
            continue
        if any(k[0] == "truthy" and v is False and k[1][0] == "res" and ev_of(p, k[1][1]).name == "tolist" for k, v in p.facts.items()):
            continue
        obj_ = next((v for k, v in p.facts.items() if "dtype" in tstr(k) and mentions(k, OBJ)), None)
        if d[0] == "value":
            x = d[1].arg("obj", 0)
            e = ev_of(p, x[1]) if x[0] == "res" else None
            ctx.check(e is not None and e.name == "tolist" and e.recv == OBJ, f"{f.name}:values", f.loc(), f"{tstr(x)[:60]} is fingerprinted instead of the array", p)
            continue
        ctx.need(d[0] == "digest", f"{f.qual}: fingerprint is {tstr(p.value)[:60]}")
        lists = [row(e) for e in p.trace if e.name == "tolist" and e.recv == OBJ]
        if d[1] and all(r[1] and not order(p, loop_over(r[1]), f)[1] and order(p, loop_over(r[1]), f)[0] in lists and fp_of(p, r[0])[0] in [("elem", x) for x in lists] for r in d[1]):
            continue
        raw = [e for e in p.trace if e.name in ("tobytes",) and e.recv == OBJ] + [e for e in p.trace if e.name in ("tobytes",) and e.recv != OBJ]
        if len(d[1]) > 1 or any(mentions(t, ("attr", OBJ, "shape")) for t, _ in d[1]):
            whole = True
        ctx.check(any(t == row(e) for t, _ in d[1] for e in raw) and all(e.recv == OBJ for e in raw), f"{f.name}:content", f.loc(), "the data of the array do not enter the fingerprint whole", p)
        ctx.check(obj_ is False, f"{f.name}:objects", f.loc(), "the fingerprint of an array of objects is made of their addresses, not their values", p)
    ctx.check(whole, f"{f.name}:shape", f.loc(), "arrays that differ only in shape or dtype get one fingerprint")


def primitive(ctx, f):
    for p in walk(ctx, f):
        clean(ctx, p, f)
        d = digest(ctx, p, f)
        if d is None:
            continue
        ctx.check(d[0] == "digest" and len([t for t, _ in d[1] if is_text(t, OBJ)]) >= 1, f"{f.name}:content", f.loc(), f"{tstr(d[1][0][0])[:60] if d[0] == 'digest' and d[1] else 'nothing'} is fingerprinted instead of the whole value", p)


def bytes_(ctx, f):
    for p in walk(ctx, f):
        clean(ctx, p, f)
        d = digest(ctx, p, f)
        if d is None:
            continue
        ctx.check(d[0] == "digest" and [t for t, _ in d[1]] == [OBJ], f"{f.name}:content", f.loc(), f"{tstr(d[1][0][0])[:60] if d[0] == 'digest' and d[1] else 'nothing'} is fingerprinted instead of the whole value", p)


def none(ctx, f):
    for p in walk(ctx, f):
        ctx.check(p.value[0] in ("const", "global") and p.value != NONE and "unhashable" not in tstr(p.value).lower(), f"{f.name}:constant", f.loc(), f"the fingerprint of None is {tstr(p.value)[:60]}", p)


def default(ctx):
    f = ctx.ix.func(MOD + ".hash_value")
    ctx.need(any("singledispatch" in ast.unparse(d) for d in f.node.decorator_list), f"{f.qual}: dispatch by type not recognised")
    DICT = ("attr", OBJ, "__dict__")
    asked = False
    for p in walk(ctx, f, opaque=["hash_value"]):
        clean(ctx, p, f)
        depths(ctx, p, f)
        if any(k[0] == "eq" and k[1] == k[2] and v is False for k, v in p.facts.items()):
            continue
        deep = next((v for k, v in p.facts.items() if k[0] in ("lt", "le", "gt", "ge") and mentions(k, DEPTH) and "MAX_DEPTH" in tstr(k)), None)
        asked = asked or deep is not None
        d = digest(ctx, p, f)
        if d is None:
            continue
        unh = d[0] == "const" and "unhashable" in tstr(d[1]).lower()
        ctx.check(d[0] != "const" or unh, f"{f.name}:constant", f.loc(), f"every value of an unknown kind gets the fingerprint {tstr(p.value)[:40]}", p)
        limit = next((k for k in p.facts if k[0] in ("lt", "le") and mentions(k, DEPTH) and "MAX_DEPTH" in tstr(k)), None)
        too = None if limit is None else (deep if limit[2] == DEPTH else not deep)
        ctx.check(too is not None, f"{f.name}:limit", f.loc(), "the depth is not limited: a structure that contains itself is never finished", p)
        if too:
            ctx.check(unh, f"{f.name}:too-deep", f.loc(), "a value beyond the maximum depth is not given up", p)
            continue
        if d[0] == "value":
            ctx.check(d[1].arg("obj", 0) == DICT, f"{f.name}:state", f.loc(), f"{tstr(d[1].arg('obj', 0))[:60]} is fingerprinted instead of the state of the object", p)
            continue
        MODULE = ("attr", OBJ, "__module__")
        absent = p.facts.get(("hasattr", OBJ, const("__module__"))) is False or p.facts.get(("truthy", MODULE)) is False or p.facts.get(("isnone", MODULE)) is True
        ctx.check(not absent or not any(k[0] not in ("truthy", "isnone") and mentions(k, MODULE) for k in p.facts), f"{f.name}:no-module", f.loc(), "the module of an object that has none is looked at", p)
        hasd = p.facts.get(("hasattr", OBJ, const("__dict__")))
        full = next((v is False for k, v in p.facts.items() if k[0] == "eq" and DICT in k[1:3] and ("dict", ()) in k[1:3]), p.facts.get(("truthy", DICT)))
        ctx.check(not (hasd is True and full is True), f"{f.name}:state-ignored", f.loc(), "the state of an object does not enter its fingerprint", p)
        if d[0] == "digest":
            lib = any(v and (k[0] == "in" and ("builtin_module_names" in tstr(k) or "datetime" in tstr(k) or "stdlib_module_names" in tstr(k)) or k[0] == "isinstance" and "datetime" in tstr(k)) for k, v in p.facts.items())
            ctx.check(lib and any(is_text(t, OBJ) for t, _ in d[1]), f"{f.name}:repr", f.loc(), "an object of unknown kind is fingerprinted by its text, which need not tell its value", p)
    ctx.check(asked, f"{f.name}:limited", f.loc(), "the depth is not limited")


TABLE = {"NoneType": none, "str": primitive, "int": primitive, "float": primitive, "bool": primitive, "bytes": bytes_, "Sequence": sequence, "Mapping": mapping, "Set": set_,
         "AbstractPandasDataFrame": pandas, "AbstractPandasColumn": pandas, "AbstractPolarsDataFrame": polars, "AbstractPolarsColumn": polars, "AbstractNumpyArray": numpy}


def content_part(ctx):
    ctx.rule("For every type with a fingerprint of its own: the whole value enters one digest - text of primitives, bytes, the fingerprint of every element in order, of every key with its value (sorted where order does not count), of every element of a set (sorted), of every row with its index, of the array's data - "
             "once, unconditionally, at a greater depth; the whole digest is the fingerprint; nothing that differs between equal values or processes (id, hash, time, random, iteration order of sets) enters.")
    hs = handlers(ctx)
    done = set()
    for t, rule in TABLE.items():
        if t == "bool" and t not in hs and "int" in hs:
            continue
        ctx.check(t in hs, f"dispatch:{t}", MOD, f"values of type {t} have no fingerprint of their own any more: their content is not covered")
        for f in hs.get(t, ())[-1:]:
            ctx.need(f.node.args.args and f.node.args.args[0].arg == "obj", f"{f.qual}: parameters not recognised")
            if (f.qual, rule) in done:
                continue
            done.add((f.qual, rule))
            rule(ctx, f)


def default_part(ctx):
    ctx.rule("Any other object is fingerprinted by its state one level deeper, by its text only when it is of a built-in module or of datetime, and is otherwise given up (UNHASHABLE), as is everything beyond the maximum depth.")
    default(ctx)


PARTS = [("content", content_part), ("default", default_part)]


def run(ctx):
    for _, f in PARTS:
        f(ctx)
