"""P23: what a loader or saver is told is what the library underneath is told."""
import ast

from ..index import Cls
from ..interp import is_const
from .common import *
from .p15 import SELFT

DA = "hamilton.io.data_adapters."
LOADER, SAVER = DA + "DataLoader", DA + "DataSaver"
UTILS = "hamilton.io.utils."
CALLS = ("call", "callv", "new", "enter")
# options that are alternatives to one another: which of them counts is decided by __post_init__ (checked in mlflow_uri)
ALTERNATIVES = {"MLFlowModelLoader": {"mode", "run_id", "path", "model_name", "version", "version_alias"}}
# options that pick what is done rather than being handed on: given or not given, an empty value counting as not given
CONTROL = {"MLFlowModelSaver": {"register_as", "flavor", "run_id"}, "MLFlowModelLoader": {"model_uri"}}


def fields(ix, c):
    """Dataclass fields of a class, base classes first: {name: default expression or None}."""
    out = {}
    for k in reversed(ix.mro(c)):
        if isinstance(k, Cls):
            for s in k.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.unparse(s.annotation):
                    out[s.target.id] = s.value
    return out


def adapters(ctx):
    """Concrete adapter classes with the method that does the work."""
    ix = ctx.ix

    def concrete(f):
        return f is not None and not any(d and d.endswith("abstractmethod") for d in f.decorators)

    return [(c, m, ix.find_method(c, m)) for b, m in ((LOADER, "load_data"), (SAVER, "save_data")) for c in ix.subclasses_of(b)
            if all(concrete(ix.find_method(c, n)) for n in (m, "name", "applicable_types"))]


def F(n):
    """The value an option was constructed with."""
    return ("param", "option " + n)


def scenario(ctx, c, f, given, default=False):
    """Paths of construction + the method, when the options in `given` are set and the others are None (or at their declared default)."""
    fs = fields(ctx.ix, c)
    assume, attrs = {}, {}
    for n, d in fs.items():
        t = F(n)
        attrs[(SELFT, n)] = t
        if n in given:
            assume[("isnone", t)] = False
            assume[("eq", t, ("default", n))] = assume[("eq", ("default", n), t)] = False
        elif default and isinstance(d, ast.Constant):
            attrs[(SELFT, n)] = ("const", d.value)
        else:
            assume[("isnone", t)] = True
            assume[("eq", t, ("default", n))] = assume[("eq", ("default", n), t)] = True
    kw = dict(self_cls=c, inline_modules=sorted({c.module.name} | {k.module.name for k in ctx.ix.mro(c) if isinstance(k, Cls)}), raises="none", keep=lambda e: True,
              keyfacts=lambda k: True, keyev=lambda e: True, fields_of=lambda k: list(fields(ctx.ix, k)), known_limit=80, max_paths=3000)
    post = ctx.ix.find_method(c, "__post_init__")
    starts = [(assume, attrs)]
    if post is not None:
        starts = [(dict(p.facts), {(SELFT, n): p.final(SELFT, n) for n in fs}) for p in ctx.paths(post, assume=assume, attrs=attrs, **kw) if p.kind == "return"]
    return [p for a, at in starts for p in ctx.paths(f, assume=a, attrs=at, **kw) if p.kind == "return"]


def outward(e):
    return e.kind in CALLS and not (e.qual or "").startswith(UTILS)


def terms(e):
    return [x for x in [e.recv, *e.args, *e.kwargs.values(), *e.spreads] if x is not None]


def version_fact(k):
    return any(isinstance(x, tuple) and len(x) > 1 and isinstance(x[1], str) and "version" in x[1].lower() for x in subterms(k) if x[0] in ("global", "attr"))


def old(k, v):
    """Whether this answer about the version of the library means an older one; None if it does not tell."""
    if k[0] not in ("lt", "le") or len(k) != 3:
        return None
    l, r = version_fact(k[1:2]), version_fact(k[2:3])
    return None if l == r else v if l else not v


# options that the library knows only since (True) or only before (False) the version the adapters ask about
SINCE = {"dtype_backend": True, "use_nullable_dtypes": False}


def decided_by(p, T):
    """The option picks between branches by its value (not by being there)."""
    return any(k[0] not in ("isnone", "truthy") and not any(isinstance(x, tuple) and x and x[0] == "default" for x in k[1:]) and mentions(k, T) for k in p.facts)


def reaches(p, T, loader):
    if any(mentions(x, T) for e in p.trace if outward(e) for x in terms(e)):
        return True
    if loader and p.value[0] == "tuple" and p.value[1] and mentions(p.value[1][0], T):
        return True
    return decided_by(p, T)


def spread_only(ps, T):
    """The option is a dictionary handed on entry by entry: an empty one says nothing."""
    def plain(x):
        return x == T or isinstance(x, tuple) and not (len(x) > 1 and x[0] == "spread" and x[1] == T) and any(plain(y) for y in x if isinstance(y, tuple))

    hits = [(e, x) for p in ps for e in p.trace if outward(e) for x in terms(e) if mentions(x, T)]
    return any(x in e.spreads for e, x in hits) and not any(x not in e.spreads and plain(x) for e, x in hits)


def options(ctx, c, m, f):
    fs = fields(ctx.ix, c)
    load = m == "load_data"
    req = [n for n, d in fs.items() if d is None]
    skip = ALTERNATIVES.get(c.name, set())
    control = CONTROL.get(c.name, set())
    every = scenario(ctx, c, f, list(fs))
    ctx.count("adapters")
    seen = 0
    runs = [("all options set", list(fs), n, every) for n in fs if n not in skip]
    for n in fs:
        if n not in control and n not in skip:
            runs += [(f"of the optional ones only {n} set", req + [n], n, None), (f"of the optional ones only {n} set, the others at their defaults", req + [n], n, True)]
    runs = [(what, n, mode if isinstance(mode, list) else scenario(ctx, c, f, given, default=mode is True)) for what, given, n, mode in runs]

    def versions(p):
        return {k: v for k, v in p.facts.items() if version_fact(k)}

    under = {}
    for _, n, ps in runs:
        under.setdefault(n, []).extend(versions(q) for q in ps if reaches(q, F(n), load))
    for n, ws in under.items():
        if n in SINCE:
            wrong = [w for w in ws if any(old(k, v) is SINCE[n] for k, v in w.items())]
            ctx.check(not wrong, f"{c.name}:{n}:version", f.loc(), f"{c.qual}.{m}: `{n}` is given to the versions of the library that do not know it")
    for what, n, ps in runs:
        seen += len(ps)
        T = F(n)
        miss = None
        for p in ps:
            if reaches(p, T, load):
                continue
            vs = versions(p)
            if vs and under[n] and all(any(w.get(k, v) != v for k, v in vs.items()) for w in under[n]):
                continue  # an option of other versions of the library
            falsy = p.facts.get(("truthy", T)) is False
            d = fs[n]
            if falsy and (n in control or isinstance(d, ast.Constant) and d.value is False or spread_only(every, T)):
                continue
            if n in control and any(reaches(q, T, load) for q in ps):
                continue
            miss = p
            break
        key = f"{c.name}:{n}" if "polars_pre" not in c.module.name else f"{c.name}[pre-1.0]:{n}"
        if miss is None:
            ctx.ok(key, f"{c.qual}.{n} reaches the library call")
        else:
            ctx.bad(key, f.loc(), f"{c.qual}.{m}: with {what}, `{n}` does not reach the library call"
                    + (" when it is empty, zero or false" if miss.facts.get(("truthy", T)) is False else ""), miss)
        ctx.count("options")
    ctx.need(seen + len(every) > 0, f"{c.qual}.{m}: no path returns")
    for p in every + (scenario(ctx, c, f, req, default=True) if req else []):
        for e in p.trace:
            if outward(e):
                for k, v in e.kwargs.items():
                    if k in fs and k not in control:
                        good = mentions(v, F(k)) if not (v[0] == "const" and p.final(SELFT, k) == v) else True
                        ctx.check(good, f"{c.name}:{k}:value", e.where(), f"{c.qual}.{m}: keyword `{k}` of {e.name} is given {tstr(v)[:60]}, not the option `{k}`", p)
                        if good and v != F(k):
                            ctx.check(not altered(v, F(k)), f"{c.name}:{k}:value", e.where(), f"{c.qual}.{m}: `{k}` is changed on its way to {e.name}: {tstr(v)[:60]}", p)


def altered(v, T):
    """Something computed from the option rather than the option."""
    return any(x[0] == "op" or x[0] == "cond" for x in subterms(v) if mentions(x, T))


LOSSY = {"head", "tail", "sample", "limit", "drop", "dropna", "drop_duplicates", "drop_nulls", "unique", "slice", "iloc", "loc", "select", "filter", "query", "first", "fillna", "fill_null", "sort", "sort_values",
         "sort_index", "reset_index", "set_index", "astype", "cast", "round", "strip", "rstrip", "lstrip", "replace", "lower", "upper", "title", "encode"}


def ev(p, t):
    return next((e for e in p.trace if e.uid == t[1]), None) or p.ev(t[1]) if t[0] == "res" else None


def deps(p, x, seen=()):
    """Options and parameters a value stems from."""
    out = set()
    for t in subterms(x):
        if t[0] == "param":
            out.add(t)
        elif t[0] == "res" and t not in seen:
            e = ev(p, t)
            for y in terms(e) if e is not None else ():
                out |= deps(p, y, seen + (t,))
            for e in p.trace:  # what a method of it was told
                if e.recv == t:
                    for y in [*e.args, *e.kwargs.values(), *e.spreads]:
                        out |= deps(p, y, seen + (t,))
    return out


def same(ctx, p, x, D, where):
    """Is x the data D itself (or the handle the library keeps of it)? True / False (something else made from it) / None (nothing of it)."""
    if x == D:
        return True
    if D not in deps(p, x):
        return None
    if x[0] == "attr":
        return same(ctx, p, x[1], D, where) if x[2] not in LOSSY else False
    if x[0] in ("item", "slice", "op"):
        return False
    if x[0] in ("list", "tuple", "dict", "set"):
        return None
    e = ev(p, x)
    name, recv = (e.name, e.recv) if e is not None else (x[1], x[2]) if x[0] == "pure" else (None, None)
    if name is not None and recv is not None and same(ctx, p, recv, D, where) is not None:
        if name in LOSSY:
            return False
        if name in ("collect", "getvalue", "copy", "to_pandas", "compute", "read", "getbuffer"):
            return same(ctx, p, recv, D, where)
    if e is not None and e.recv is None or name in ("bytes", "str", "list", "dict"):
        if x[0] == "pure" and name in ("bytes", "list", "dict"):
            return True
    return None


PATHED = {"get_file_metadata": ("path",), "get_file_and_dataframe_metadata": ("path", "df"), "get_sql_metadata": ("query_or_table",)}


def flow(ctx, c, m, f):
    """The data handed over is the data written / the data read is the data given back."""
    fs = fields(ctx.ix, c)
    opts = {F(n) for n in fs}
    load = m == "load_data"
    ctx.need(len(f.node.args.args) >= 2, f"{f.qual}: data parameter not found")
    D = ("param", f.node.args.args[1].arg)
    ps = scenario(ctx, c, f, list(fs)) or [p for n in fs for p in scenario(ctx, c, f, [k for k, d in fs.items() if d is None] + [n])]
    ctx.need(bool(ps), f"{c.qual}.{m}: no path returns")
    for p in ps:
        for e in p.trace:
            if e.kind == "call" and e.name == "open" and (e.qual in (None, "open", "builtins.open") or e.recv is not None):
                i = 1 if e.recv is None else 0
                md = e.arg("mode", i)
                md = md[1] if md is not None and md[0] == "const" else "r" if md is None else None
                if isinstance(md, str):
                    good = "r" in md and "+" not in md if load else "w" in md
                    ctx.check(good, f"{c.name}:open", e.where(), f"{c.qual}.{m} opens its file with mode {md!r}", p)
            if e.kind == "call" and (e.qual or "").startswith(UTILS):
                for x in [*e.args, *e.kwargs.values()]:
                    ex = ev(p, x)
                    if ex is not None and any(a in (("list", ()), ("tuple", ())) for a in ex.args):
                        continue
                    ds = deps(p, x)
                    ctx.check(bool(ds & opts) or D in ds, f"{c.name}:metadata", e.where(), f"{c.qual}.{m}: the metadata describes {tstr(x)[:60]}, not what was {'loaded' if load else 'saved'}", p)
                    if load and x[0] == "res" and p.value[0] == "tuple" and len(p.value[1]) == 2:
                        ex = ev(p, x)
                        data = p.value[1][0][1] if p.value[1][0][0] == "e" else p.value[1][0]
                        if ex is not None and ex.name not in ("Path", "str", "fspath") and (ex.qual or "").split(".")[0] not in ("os", "pathlib"):
                            ctx.check(x == data, f"{c.name}:metadata", e.where(), f"{c.qual}.{m}: the metadata describes {tstr(x)[:60]}, the data given back is {tstr(data)[:60]}", p)
        for e in p.trace:
            if e.kind == "call" and (e.qual or "").startswith(UTILS) and e.name in PATHED:
                a0 = e.arg(PATHED[e.name][0], 0)
                ctx.check(a0 is not None and a0 != D and (load or D not in deps(p, a0)) and bool(deps(p, a0) & opts), f"{c.name}:metadata-of", e.where(), f"{c.qual}.{m}: the metadata names {tstr(a0)[:60] if a0 else None} as the place, not where the data {'is' if load else 'goes'}", p)
                if len(PATHED[e.name]) > 1 and not load:
                    a1 = e.arg(PATHED[e.name][1], 1)
                    ctx.check(a1 is not None and D in deps(p, a1), f"{c.name}:metadata-of", e.where(), f"{c.qual}.{m}: the metadata describes {tstr(a1)[:60] if a1 else None}, not the data saved", p)
        if not load and p.value != D:
            ds = deps(p, p.value)
            flag = p.value[0] == "dict" and len(p.value[1]) > 0 and not any((e.qual or "").startswith(UTILS) for e in p.trace if e.kind == "call")
            ctx.check(bool(ds & opts) or D in ds or flag, f"{c.name}:gives-metadata", f.loc(), f"{c.qual}.{m} gives back {tstr(p.value)[:60]}, no metadata of what it saved", p)
            own = [e for e in p.trace if e.kind == "call" and (e.qual or "").startswith(UTILS)]
            ctx.check(not own or any(("res", e.uid) in subterms(p.value) for e in own), f"{c.name}:gives-metadata", f.loc(), f"{c.qual}.{m} does not give back the metadata it made", p)
        if load:
            if is_const(p.value):
                ctx.bad(f"{c.name}:data", f.loc(), f"{c.qual}.{m} gives back {tstr(p.value)[:60]}, neither data nor metadata", p)
                continue
            ctx.need(p.value[0] == "tuple" and len(p.value[1]) == 2, f"{c.qual}.{m}: what is returned is not a pair: {tstr(p.value)[:60]}")
            data = p.value[1][0][1] if p.value[1][0][0] == "e" else p.value[1][0]
            e = ev(p, data)
            if e is not None and any(a in (("list", ()), ("tuple", ())) for a in e.args):
                continue  # nothing to read
            ctx.check(bool(deps(p, data) & opts) or not fs, f"{c.name}:data", f.loc(), f"{c.qual}.{m} gives back {tstr(data)[:60]}, which does not stem from its options", p)
            lossy = data[0] in ("item", "op") or e is not None and e.name in LOSSY
            if data[0] in ("dict", "list", "tuple", "set"):
                lossy = lossy or any(r[-1] and r[-1][0] == "L" and len(r[-1]) > 2 and r[-1][2] for r in data[1])
            ctx.check(not lossy, f"{c.name}:data", f.loc(), f"{c.qual}.{m} gives back {tstr(data)[:60]}, a part of what it read", p)
        elif p.value == D:
            ctx.ok(f"{c.name}:data", "the data is given back")
        else:
            verdicts = []
            for e in p.trace:
                if outward(e) and e.kind != "enter":
                    ts = terms(e)
                    if any(deps(p, x) & opts for x in ts):
                        verdicts += [same(ctx, p, x, D, e.where()) for x in ts]
            if True in verdicts:
                ctx.ok(f"{c.name}:data", "the data reaches the writing call")
            else:
                ctx.need(False in verdicts or not any(D in deps(p, x) for e in p.trace if outward(e) for x in terms(e)), f"{c.qual}.{m}: how the data reaches the library is not recognised")
                ctx.bad(f"{c.name}:data", f.loc(), f"{c.qual}.{m}: what is written is not the data it was given", p)


def mlflow_uri(ctx):
    ctx.rule("the mlflow loader's model URI is runs:/<run_id>/<path> in tracking mode, models:/<name>/<version> or models:/<name>@<alias> in registry mode, and the given one otherwise")
    c = ctx.ix.cls("hamilton.plugins.mlflow_extensions.MLFlowModelLoader")
    ctx.need(c is not None, "MLFlowModelLoader not found")
    f = ctx.ix.find_method(c, "__post_init__")
    ctx.need(f is not None, "MLFlowModelLoader.__post_init__ not found")
    at = {(SELFT, n): F(n) for n in fields(ctx.ix, c)}
    ps = ctx.paths(f, self_cls=c, attrs=at, inline_modules=[c.module.name], raises="none", keyfacts=lambda k: True, keep=lambda e: True)
    O = {n: F(n) for n in fields(ctx.ix, c)}
    seen = set()
    for p in ps:
        if p.kind != "return":
            continue
        uri = p.final(SELFT, "model_uri")
        mode = next((k[2][1] for k, v in p.facts.items() if v and k[0] == "eq" and k[1] == O["mode"] and k[2][0] == "const"), None)
        if p.facts.get(("truthy", O["model_uri"])) or p.facts.get(("isnone", O["model_uri"])) is False:
            ctx.check(uri == O["model_uri"], "mlflow:uri:given", f.loc(), f"a model_uri that is given is replaced by {tstr(uri)[:80]}", p)
            seen.add("given")
        elif mode == "tracking":
            want = ["runs:/", O["run_id"], "/", O["path"]]
            ctx.check(pieces(uri) == want, "mlflow:uri:tracking", f.loc(), f"the URI in tracking mode is {tstr(uri)[:80]}", p)
            seen.add(mode)
        elif mode == "registry" and (p.facts.get(("truthy", O["version"])) or p.facts.get(("truthy", O["version_alias"]))):
            by = "version" if p.facts.get(("truthy", O["version"])) else "version_alias"
            ctx.check(pieces(uri) == ["models:/", O["model_name"], "/" if by == "version" else "@", O[by]], "mlflow:uri:registry", f.loc(), f"the URI in registry mode, given a {by}, is {tstr(uri)[:80]}", p)
            seen.add(by)
    ctx.need({"given", "tracking", "version", "version_alias"} <= seen, f"the modes of the mlflow loader are not recognised: {sorted(seen)}")


def pieces(t):
    out = []
    for x in (t[1:] if t[0] == "fstr" else (t,)):
        out.append(x[1] if isinstance(x, tuple) and x[0] == "const" else x)
    return out


def registered(ctx):
    ctx.rule("every concrete adapter class defined in the default loaders or an extension module is registered by code that runs when that module is imported")
    ix = ctx.ix
    got = set()

    def listed(m, n):
        r = ix.resolve(m.name + "." + n) if n not in m.imports else ix.resolve(m.imports[n])
        q = ix.qual(r) if not isinstance(r, str) else r
        if not isinstance(r, str) and isinstance(r, Cls):
            return {q}
        k = ix.modules.get(q.rpartition(".")[0])
        return {x for v in (k.assigns.get(q.rpartition(".")[2], []) if k is not None else []) if isinstance(v, (ast.List, ast.Tuple)) for y in v.elts if isinstance(y, ast.Name) for x in listed(k, y.id)}

    def top(body):
        for s in body:
            if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                yield s
                for b in ("body", "orelse", "finalbody"):
                    yield from top(getattr(s, b, []))

    for m in ix.modules.values():
        for s in top(m.tree.body):
            calls = [x for x in (s.body if isinstance(s, ast.For) else [s]) if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and ast.unparse(x.value.func).endswith("register_adapter") and x.value.args]
            for x in calls:
                a = x.value.args[0]
                if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and isinstance(a, ast.Name) and a.id == s.target.id:
                    for y in ([s.iter] if isinstance(s.iter, ast.Name) else getattr(s.iter, "elts", [])):
                        if isinstance(y, ast.Name):
                            got |= listed(m, y.id)
                elif isinstance(a, ast.Name):
                    got |= listed(m, a.id)
    for f in ix.all_funcs(lambda m: m.startswith("hamilton.")):
        if f.name == "register_adapter" or not any(isinstance(n, ast.Call) and ast.unparse(n.func).endswith("register_adapter") for n in ast.walk(f.node)):
            continue
        called = any(isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func).split(".")[-1] == f.name and ix.qual(ix.resolve(m.name + "." + f.name)) in (f.qual, m.name + "." + f.name)
                     for m in ix.modules.values() for s in ast.walk(m.tree) if isinstance(s, ast.Expr))
        if not called:
            continue
        for p in ctx.paths(f, raises="none", inline_modules=[f.module.name], known_limit=200, keep=lambda e: True, keyfacts=lambda k: True):
            for e in p.trace:
                if e.name == "register_adapter" and e.args:
                    a = e.args[0]
                    if a[0] == "global":
                        got.add(a[1])
                    else:
                        for t in subterms(a):
                            if t[0] == "global":
                                m = ix.modules.get(t[1].rpartition(".")[0])
                                if m is not None:
                                    got |= listed(m, t[1].rpartition(".")[2])
    ctx.need(len(got) > 20, f"registrations not recognised ({len(got)} found)")
    for c, m, f in adapters(ctx):
        if c.module.name == "hamilton.io.default_data_loaders" or c.module.name.endswith("_extensions") or c.module.name.endswith("_extension"):
            ctx.check(c.qual in got, f"{c.name}:registered", f"{c.module.path}:{c.node.lineno}", f"{c.qual} is defined but never registered")


def run_adapters(ctx):
    ctx.rule("for each adapter class, every dataclass field reaches a call of the library underneath, whether all options are given or only that one (the others None, or at their defaults), "
             "on every path but those chosen by a library version; falsy values count as given; a keyword named like a field carries that field")
    for c, m, f in adapters(ctx):
        ctx.part(c.qual, options, c, m, f)


def run_flow(ctx):
    ctx.rule("a saver hands the data it was given, whole, to a call that also has its target, opening files for writing; a loader gives back what it read, whole, with the metadata of that data; files are opened for reading")
    for c, m, f in adapters(ctx):
        ctx.part(c.qual, flow, c, m, f)


PARTS = [("options", run_adapters), ("flow", run_flow), ("mlflow_uri", mlflow_uri), ("registered", registered)]
