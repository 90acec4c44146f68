"""P21: cache stores give back exactly what was put in, entry by entry, until it is deleted."""
import re

from .common import *
from .p15 import SELFT, canon

S = "hamilton.caching.stores."
IM = [S + m for m in ("base", "file", "memory", "sqlite")]
META, RES = S + "base.MetadataStore", S + "base.ResultStore"
CTOR = ("StoredResult",)


def of(ctx, c, name, keep=None, **kw):
    f = ctx.ix.find_method(c, name)
    ctx.need(f is not None, f"{c.qual}.{name} not found")
    kw = {"raises": "none", "inline_modules": IM, "inline_ctor": CTOR, **kw}
    ps = ctx.paths(f, self_cls=c, keep=keep or (lambda e: True), keyfacts=lambda k: True, keyev=lambda e: True, **kw)
    ctx.need(bool(ps), f"{f.qual}: no path")
    return f, ps


def params(f):
    a = f.node.args
    return [("param", x.arg) for x in (a.posonlyargs + a.args + a.kwonlyargs)[1:]]


def param(ctx, f, name, i):
    ps = params(f)
    t = ("param", name)
    ctx.need(t in ps or len(ps) > i, f"{f.qual}: parameter {name} not found")
    return t if t in ps else ps[i]


def own(t):
    """A field of the store itself."""
    return t[0] == "attr" and t[1] == SELFT


def base_of(t):
    while t[0] == "item":
        t = t[1]
    return t


def ev_of(p, uid):
    """The event of this path a result stems from."""
    return next((e for e in reversed(p.trace) if e.uid == uid), None) or p.ev(uid)


# ---------------------------------------------------------------- stores that keep a dictionary

def effects(ctx, p, f, D):
    """What a path does to the dictionary D: [("set", key, value, event) | ("del", key, lenient, event) | ("clear", event)]."""
    out = []
    for e in p.trace:
        if e.kind == "setitem" and e.recv == D:
            out.append(("set", e.args[0], e.args[1], e))
        elif e.kind == "delitem" and e.recv == D:
            out.append(("del", e.args[0], False, e))
        elif e.kind == "setattr" and ("attr", e.recv, e.name) == D:
            v = e.args[-1]
            ctx.need(v in (("dict", ()), ("list", ()), ("set", ())), f"{f.qual}: {tstr(D)} is replaced by {tstr(v)[:60]}")
            out.append(("clear", e))
        elif e.kind in ("call", "mut") and e.recv == D:
            if e.name == "clear":
                out.append(("clear", e))
            elif e.name == "pop" and e.args:
                out.append(("del", e.args[0], len(e.args) > 1, e))
            elif e.name == "append":
                out.append(("add", e.args[0], e))
            elif e.name == "setdefault" and len(e.args) == 2:
                out.append(("keep", e.args[0], e.args[1], e))
            elif e.name == "update" and len(e.args) == 1 and e.args[0][0] == "dict" and all(r[0] == "kv" for r in e.args[0][1]):
                out += [("set", r[1], r[2], e) for r in e.args[0][1]]
            elif e.name in ("get", "keys", "values", "items", "copy", "index", "count", "__contains__", "__len__"):
                pass
            else:
                ctx.need(False, f"{f.qual}: {tstr(D)}.{e.name}() not recognised")
        elif any(x is not None and mentions(x, D) and base_of(x) == D and x != D for x in [e.recv]) and e.kind in ("setitem", "mut", "call", "delitem"):
            out.append(("inner", e.recv, e))
    return out


def has(p, key, D):
    """Whether the path is taken with the key present: True, False or None (not asked)."""
    v = p.facts.get(("in", key, D))
    if v is None and p.facts.get(("isnone", ("item", D, key))) is False:
        return True
    return v


def field(p, inst, name):
    """Value of a field of an object the path built."""
    if inst[0] != "inst":
        return None
    v = p.st.attrs.get((("obj", inst[3]), name))
    return None if v is None else p.interp.freeze(v, p.st)


def handled(e, *kinds):
    hs = e.handlers or ()
    return any(k in kinds for h in hs for k in (h if isinstance(h, (tuple, list)) else (h,)))


def dict_of(ctx, c, key_i=0):
    """The dictionary get() reads, with its paths."""
    f, ps = of(ctx, c, "get")
    key = params(f)[0]
    ds = {k[2] for p in ps for k in p.facts if k[0] == "in" and k[1] == key and own(k[2])}
    ds |= {s[1] for p in ps for s in subterms(p.value) if isinstance(s, tuple) and s[:1] == ("item",) and own(s[1]) and s[2] == key}
    return f, ps, key, (next(iter(ds)) if len(ds) == 1 else None)


def dict_store(ctx, c, result):
    ix = ctx.ix
    n = c.name
    f, ps, key, D = dict_of(ctx, c)
    item = ("item", D, key)
    want = ("attr", item, "value")
    wrapped = any(want in list(subterms(p.value)) for p in ps)
    # get
    for p in ps:
        h = has(p, key, D)
        if p.kind == "raise":
            ctx.bad(f"{n}.get:raises", f.loc(), "looking up an entry fails", p)
        elif h is False:
            ctx.check(p.value == NONE, f"{n}.get:absent", f.loc(), f"{tstr(p.value)[:60]} is given for an entry that is not stored", p)
        elif p.facts.get(("isnone", item)) is True:
            pass
        elif wrapped and p.facts.get(("isnone", want)) is True or not wrapped and p.facts.get(("isnone", item)) is True:
            ctx.check(p.value in (NONE, want, item), f"{n}.get:none", f.loc(), f"{tstr(p.value)[:60]} is given for a stored None", p)
        else:
            ctx.check(p.value == (want if wrapped else item), f"{n}.get:present", f.loc(), f"{tstr(p.value)[:60]} is given instead of the stored entry", p)
        for x in effects(ctx, p, f, D):
            ctx.bad(f"{n}.get:pure", x[-1].where(), "looking up an entry changes the store", p)
    # set
    f, ps = of(ctx, c, "set")
    k, v = params(f)[0], param(ctx, f, "result" if result else "data_version", 1)
    for p in ps:
        if p.kind == "raise":
            ctx.bad(f"{n}.set:raises", f.loc(), "storing an entry is refused", p)
            continue
        xs = effects(ctx, p, f, D)
        if p.facts.get(("isnone", k)) is True and not xs:
            continue
        ctx.check(len([x for x in xs if x[0] == "set"]) >= 1 or (p.facts.get(("eq", ("item", D, k), v)) is True or p.facts.get(("eq", v, ("item", D, k))) is True), f"{n}.set:stored", f.loc(), "an entry is not stored" + (" when " + "; ".join(tstr(q) for q in list(p.facts)[:3]) if p.facts else ""), p)
        for x in xs:
            if x[0] == "set":
                ctx.check(x[1] == k, f"{n}.set:key", x[-1].where(), f"the entry is stored under {tstr(x[1])[:60]}", p)
                val = x[2]
                if wrapped:
                    ctx.need(val[0] == "inst", f"{f.qual}: stored {tstr(val)[:60]}")
                    val = field(p, val, "value")
                    ctx.need(val is not None, f"{f.qual}: what is stored was not recognised")
                ctx.check(val == v, f"{n}.set:value", x[-1].where(), f"{tstr(val)[:60]} is stored instead of the given value", p)
            else:
                ctx.bad(f"{n}.set:others", x[-1].where(), "storing an entry touches other entries", p)
    # exists
    f, ps = of(ctx, c, "exists")
    k = params(f)[0]
    for p in ps:
        h = has(p, k, D)
        if p.facts.get(("isnone", ("item", D, k))) is True:
            continue
        ctx.need(p.kind == "return" and p.value in (TRUE, FALSE) and h is not None, f"{f.qual}: answers {tstr(p.value)[:60]}")
        ctx.check(p.value == (TRUE if h else FALSE), f"{n}.exists", f.loc(), f"{'a stored' if h else 'an absent'} entry is said {'not ' if h else ''}to exist", p)
    # delete
    f, ps = of(ctx, c, "delete")
    k = params(f)[0]
    for p in ps:
        ctx.check(p.kind == "return", f"{n}.delete:raises", f.loc(), "deleting an entry fails", p)
        xs = effects(ctx, p, f, D)
        h = has(p, k, D)
        if h is not False:
            ctx.check(any(x[0] == "del" and x[1] == k for x in xs), f"{n}.delete:deleted", f.loc(), "the entry is not deleted", p)
        for x in xs:
            ctx.check(x[0] == "del" and x[1] == k, f"{n}.delete:others", x[-1].where(), "deleting an entry touches others", p)
            if x[0] == "del":
                ctx.check(x[2] or h is True or x[-1].outcome == "raise" or handled(x[-1], "KeyError", "LookupError", "Exception"), f"{n}.delete:absent", x[-1].where(), "deleting an entry that is not stored fails", p)
    return D


def cleared(ctx, c, Ds):
    f, ps = of(ctx, c, "delete_all")
    for p in ps:
        for D in Ds:
            xs = effects(ctx, p, f, D)
            ctx.check(any(x[0] == "clear" for x in xs), f"{c.name}.delete_all:{D[2]}", f.loc(), f"{D[2]} is not emptied", p)
            ctx.check(all(x[0] != "set" for x in xs), f"{c.name}.delete_all:kept", f.loc(), f"{D[2]} is filled by delete_all", p)


def unsure(rec):
    """Conditions under which an element is there."""
    return tuple(rec[-1][2]) if len(rec[-1]) > 2 else ()


def runs_of(ctx, c, D):
    """The dictionary of runs and the list of their ids, from what initialize() writes."""
    f, ps = of(ctx, c, "initialize")
    run = params(f)[0]
    n = c.name
    Rs, Ls = set(), set()
    for p in ps:
        for e in p.trace:
            if e.kind == "setitem" and own(e.recv) and e.recv != D:
                Rs.add(e.recv)
            if e.kind in ("call", "mut") and e.name == "append" and e.recv is not None and own(e.recv):
                Ls.add(e.recv)
    ctx.need(len(Rs) == 1 and len(Ls) <= 1, f"{f.qual}: how runs are kept was not recognised")
    R = next(iter(Rs))
    L = next(iter(Ls)) if Ls else None
    for p in ps:
        ctx.check(p.kind == "return", f"{n}.initialize:raises", f.loc(), "starting a run fails", p)
        xs = effects(ctx, p, f, R)
        if has(p, run, R) is True and not xs:
            continue
        ctx.check([x[1:3] for x in xs if x[0] == "set"] == [(run, ("list", ()))], f"{n}.initialize:run", f.loc(), "a started run is not recorded (or not empty)", p)
        ctx.check(not effects(ctx, p, f, D), f"{n}.initialize:entries", f.loc(), "starting a run changes stored entries", p)
        if L is not None:
            ls = effects(ctx, p, f, L)
            ctx.check([x[:2] for x in ls] == [("add", run)], f"{n}.initialize:order", f.loc(), "the id of a started run is not added to the ids", p)
    # set() records the key for its run
    f, ps = of(ctx, c, "set")
    k, r = params(f)[0], param(ctx, f, "run_id", 2)
    for p in ps:
        if p.kind != "return":
            continue
        bucket = ("item", R, r)
        adds = [e for e in p.trace if e.kind in ("call", "mut") and e.name == "append" and e.recv is not None and mentions(e.recv, R)]
        if p.facts.get(("isnone", k)) is True:
            ctx.check(not adds, f"{n}.set:unkeyed", f.loc(), "a node without a key is recorded in the run, which cannot be listed any more", p)
            continue
        if p.facts.get(("in", k, bucket)) is True and not adds:
            continue
        ctx.check(len(adds) == 1 and adds[0].args == (k,) and base_of(adds[0].recv) == R and (adds[0].recv == bucket or adds[0].recv[0] != "item"), f"{n}.set:run", f.loc(), "the key is not recorded for its run", p)
    # get_run_ids
    f, ps = of(ctx, c, "get_run_ids")
    for p in ps:
        v = p.value
        if v[0] in ("list", "tuple") and len(v[1]) == 1 and v[1][0][0] in ("spread", "e"):
            x = v[1][0][1]
            ctx.check(not unsure(v[1][0]), f"{n}.get_run_ids:filter", f.loc(), "some runs are not listed", p)
            v = x[1] if v[1][0][0] == "e" and x[0] in ("elem", "key") else x
        if v[0] == "pure" and v[1] in ("keys", "list", "tuple"):
            v = v[2] if v[1] == "keys" else v[3][0]
        ctx.check(p.kind == "return" and v in (L, R), f"{n}.get_run_ids", f.loc(), f"the runs listed are {tstr(p.value)[:60]}, not the ids in order of start", p)
    # get_run
    f, ps = of(ctx, c, "get_run", opaque=["decode_key"])
    r = params(f)[0]
    bucket = ("item", R, r)
    for p in ps:
        h = has(p, r, R)
        if h is False or p.facts.get(("isnone", bucket)) is True:
            ctx.check(p.kind == "raise" and p.value[-1] == "IndexError", f"{n}.get_run:unknown", f.loc(), "an unknown run is not refused with IndexError", p)
            continue
        ctx.check(p.kind == "return", f"{n}.get_run:known", f.loc(), "a run that was started cannot be listed", p)
        if p.kind != "return":
            continue
        ctx.need(p.value[0] == "list", f"{f.qual}: gives {tstr(p.value)[:60]}")
        el = ("elem", bucket)
        ctx.check(len(p.value[1]) <= 1, f"{n}.get_run:once", f.loc(), "an entry is listed more than once", p)
        if not p.value[1]:
            ctx.check(p.facts.get(("in", el, D)) is False or p.facts.get(("isnone", el)) is True or any(k[0] == "truthy" and v is False and (k[1] == bucket or k[1][0] == "list" and mentions(k[1], bucket)) for k, v in p.facts.items()), f"{n}.get_run:all", f.loc(), "entries of the run are left out", p)
        for rec in p.value[1]:
            ctx.need(rec[0] == "e" and rec[1][0] == "dict", f"{f.qual}: lists {tstr(rec[1])[:60]}")
            ctx.check(p.facts.get(("in", el, D)) is True or (("in", el, D), True) in flat_terms(rec[-1]), f"{n}.get_run:deleted", f.loc(), "a run with an entry deleted since cannot be listed", p)
            for g, gv in unsure(rec):
                ctx.check((g, gv) == (("in", el, D), True) or g[0] == "isnone" and g[1] in (el, ("item", D, el)), f"{n}.get_run:left-out", f.loc(), f"entries are listed only when {tstr(g)[:60]}", p)
            d = {x[1][1]: x[2] for x in rec[1][1] if x[0] == "kv" and x[1][0] == "const"}
            ctx.check(d.get("cache_key") == el and d.get("data_version") == ("item", D, el), f"{n}.get_run:entry", f.loc(), "an entry is listed with another key or version", p)
            dec = [e for e in p.trace if e.name == "decode_key"]
            for col in ("node_name", "code_version"):
                x = d.get(col)
                ctx.check(x is not None and x[0] == "item" and x[2] == const(col) and any(e.uid in x[1] and e.args == (el,) for e in dec), f"{n}.get_run:{col}", f.loc(), f"{col} of an entry is not that of its key", p)
    cleared(ctx, c, [D, R] + ([L] if L is not None else []))
    f, ps = of(ctx, c, "__len__")
    for p in ps:
        ctx.check(p.value in (("pure", "len", None, (D,), ()), ("pure", "len", None, (("pure", "keys", D, (), ()),), ())), f"{n}.__len__", f.loc(), f"the size is {tstr(p.value)[:60]}", p)
    return R, L


def memory_part(ctx):
    ctx.rule("In a store that keeps a dictionary: set writes exactly the given value under exactly the given key; get gives that entry, or None iff it is absent; exists is membership; delete removes that entry only and tolerates its absence; delete_all empties every container; "
             "a started run is listed, in order, with each key recorded for it that is still stored, and an unknown run is an IndexError.")
    k = 0
    for base, result in ((META, False), (RES, True)):
        for c in ctx.ix.subclasses_of(base):
            if not c.module.name.startswith("hamilton."):
                continue
            if dict_of(ctx, c)[3] is None:
                continue
            k += 1
            D = dict_store(ctx, c, result)
            if result:
                cleared(ctx, c, [D])
            else:
                runs_of(ctx, c, D)
    ctx.need(k >= 2, f"{k} dictionary stores found")


# ---------------------------------------------------------------- stores that keep a database

def ident(x):
    return re.sub(r'[`"\[\]]', "", x).strip().lower()


def split_top(x):
    out, depth, cur = [], 0, ""
    for ch in x:
        depth += ch == "("
        depth -= ch == ")"
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


def parens(x):
    """Text of the parenthesis x starts with, and the rest."""
    depth = 0
    for i, ch in enumerate(x):
        depth += ch == "("
        depth -= ch == ")"
        if depth == 0:
            return x[1:i], x[i + 1:].strip()
    return None, ""


class Sql:
    """One statement: op, table, columns, placeholders and conditions."""

    def __init__(self, text):
        self.text = t = re.sub(r"\s+", " ", re.sub(r"--[^\n]*", " ", text)).strip().rstrip(";").strip()
        self.op = None
        self.table = None
        self.cols, self.where, self.mode, self.order, self.distinct, self.limit = [], {}, "", None, False, False
        self.npar = t.count("?")
        try:
            self.parse(t)
        except (IndexError, ValueError, AttributeError, TypeError):
            self.op = None

    def parse(self, t):
        u = t.upper()
        m = re.match(r"CREATE TABLE (IF NOT EXISTS )?(\S+?)\s*(\(.*)$", t, re.I)
        if m:
            self.table, self.mode = ident(m[2]), "lenient" if m[1] else ""
            body, rest = parens(m[3])
            self.types = {}
            for c in split_top(body):
                if re.match(r"(FOREIGN|PRIMARY|UNIQUE|CHECK|CONSTRAINT)\b", c, re.I):
                    k = re.match(r"PRIMARY KEY\s*\((.*)\)", c, re.I)
                    if k:
                        self.types[ident(k[1])] = self.types.get(ident(k[1]), "") + " PRIMARY KEY"
                    elif not re.match(r"FOREIGN", c, re.I):
                        raise ValueError
                    continue
                self.types[ident(c.split(" ")[0])] = " ".join(c.split(" ")[1:]).upper()
            self.op = "create"
            return
        m = re.match(r"DROP TABLE (IF EXISTS )?(\S+)$", t, re.I)
        if m:
            self.op, self.table = "drop", ident(m[2])
            return
        m = re.match(r"(INSERT|REPLACE)( OR \w+)? INTO (\S+?)\s*(\(.*)$", t, re.I)
        if m:
            self.table = ident(m[3])
            cs, rest = parens(m[4])
            self.cols = [ident(c) for c in split_top(cs)]
            m2 = re.match(r"VALUES\s*(\(.*)$", rest, re.I)
            vs, rest = parens(m2[1])
            self.values = split_top(vs)
            if len(self.values) != len(self.cols):
                raise ValueError
            how = "REPLACE" if m[1].upper() == "REPLACE" else (m[2] or "").strip().upper().replace("OR ", "")
            if rest:
                c = re.match(r"ON CONFLICT\s*(\([^)]*\))?\s*DO (NOTHING|UPDATE SET (.*))$", rest, re.I)
                if c[2].upper() == "NOTHING":
                    how = "IGNORE"
                else:
                    how = "UPSERT"
                    self.updates = {ident(x.split("=", 1)[0]): ident(x.split("=", 1)[1]) for x in split_top(c[3])}
            self.mode = how
            self.op = "insert"
            return
        m = re.match(r"DELETE FROM (\S+)(?: WHERE (.*))?$", t, re.I)
        if m:
            self.table = ident(m[1])
            self.conds(m[2])
            self.op = "delete"
            return
        m = re.match(r"SELECT EXISTS\s*(\(.*)$", t, re.I)
        if m:
            inner, rest = parens(m[1])
            if rest and not re.match(r"AS \w+$", rest, re.I):
                raise ValueError
            self.parse(inner.strip())
            if self.op != "select":
                raise ValueError
            self.op = "exists"
            return
        m = re.match(r"SELECT (DISTINCT )?(.*?) FROM (.*)$", t, re.I)
        if m:
            self.distinct = bool(m[1])
            self.cols = [re.sub(r" AS \w+$", "", c, flags=re.I) for c in split_top(m[2])]
            rest = m[3]
            m2 = re.match(r"(.*?)(?: WHERE (.*?))?(?: ORDER BY (.*?))?(?: LIMIT (\S+))?$", rest, re.I)
            src, cond, self.order, lim = m2[1], m2[2], m2[3], m2[4]
            if re.search(r"\b(GROUP|HAVING|UNION|OFFSET)\b", rest, re.I) or "," in src:
                raise ValueError
            self.limit = lim not in (None, "1")
            j = re.split(r" (?:(LEFT|INNER|CROSS|NATURAL)(?: OUTER)? )?JOIN ", src, flags=re.I)
            self.alias = {}
            self.table = self.source(j[0])
            self.joins = []
            for kind, jt in zip(j[1::2], j[2::2]):
                m3 = re.match(r"(.*?) (?:ON (.*)|USING \((.*)\))$", jt, re.I)
                tb = self.source(m3[1])
                on = m3[2] or f"{self.table}.{m3[3]} = {tb}.{m3[3]}"
                if not re.match(r"^\(?\s*[\w.]+ ?= ?[\w.]+\s*\)?$", on):
                    raise ValueError
                self.joins.append(((kind or "INNER").upper(), tb, frozenset(self.col(x) for x in on.strip("() ").split("="))))
            self.conds(cond)
            self.cols = [c if c in ("*", "1") or "(" in c else self.col(c) for c in self.cols]
            self.op = "select"
            return
        raise ValueError

    def source(self, x):
        ps = re.sub(r" AS ", " ", x.strip(), flags=re.I).split(" ")
        for a in ps:
            self.alias[ident(a)] = ident(ps[0])
        if len(ps) > 2:
            raise ValueError
        return ident(ps[0])

    def col(self, c):
        c = ident(c)
        if "." in c:
            a, n = c.split(".")
            return (self.alias.get(a, a), n)
        return (self.table if not getattr(self, "joins", None) else None, c)

    def conds(self, cond):
        if not cond:
            return
        i = 0
        for c in re.split(r" AND ", cond, flags=re.I):
            m = re.match(r"^\(?\s*([\w.`\"]+) ?(=|==|IS) ?\?\s*\)?$", c.strip(), re.I)
            if not m:
                raise ValueError
            self.where[ident(m[1]).split(".")[-1] if self.op != "x" else None] = i
            self.where_cols = getattr(self, "where_cols", []) + [ident(m[1])]
            i += 1


def statements(ctx, p, f):
    """The statements a path executes, in order, each with its parameters; and whether all writes are committed at the end."""
    out = []
    for e in p.trace:
        if e.kind == "call" and e.name in ("execute", "executemany", "executescript"):
            t = e.args[0] if e.args else None
            ctx.need(e.name == "execute" and t is not None and t[0] == "const" and isinstance(t[1], str), f"{f.qual}: statement {tstr(t)[:60] if t else None} not recognised")
            q = Sql(t[1])
            ctx.need(q.op is not None, f"{f.qual}: statement `{q.text[:80]}` not recognised")
            pars = e.args[1] if len(e.args) > 1 else ("tuple", ())
            ctx.need(pars[0] in ("tuple", "list") and all(r[0] == "e" for r in pars[1]), f"{f.qual}: parameters {tstr(pars)[:60]} not recognised")
            ps = [r[1] for r in pars[1]]
            ctx.check(len(ps) == q.npar, f"{f.name}:parameters", e.where(), f"{len(ps)} parameters are given for `{q.text[:60]}`", p)
            out.append((e, q, ps))
    return out


def is_connection(p, t):
    return t[0] == "attr" and t[2] == "connection" or t[0] == "res" and ev_of(p, t[1]).name in ("connect", "_get_connection", "connection")


def committed(ctx, c, f, p, sts):
    ws = [e for e, q, _ in sts if q.op in ("insert", "delete", "drop")]
    if not ws or p.kind != "return":
        return
    last = p.trace.index(ws[-1])
    ok = any(e.kind == "call" and e.name == "commit" or e.kind == "exit" and e.extra != "raise" and is_connection(p, e.args[0]) for e in p.trace[last:])
    ctx.check(ok, f"{c.name}.{f.name}:committed", ws[-1].where(), "what is written is not committed", p)


def inserted(q, ps):
    """Column -> term of an INSERT."""
    d, i = {}, 0
    for c, v in zip(q.cols, q.values):
        if v == "?":
            d[c] = ps[i] if i < len(ps) else None
            i += 1
        else:
            d[c] = ("sql", v)
    return d


def fetched(p, name):
    return [e for e in p.trace if e.kind == "call" and e.name == name]


def row(e):
    return ("res", e.uid)


def present(ctx, p, f, e, q):
    """Whether the row looked for is there on this path: True/False; None: not asked.  The lookup must be by the key."""
    row_ = next((row(x) for x in fetched(p, "fetchone") if p.trace.index(x) > p.trace.index(e)), None)
    ctx.need(row_ is not None, f"{f.qual}: the answer of `{q.text[:60]}` is not fetched with fetchone")
    if q.op == "select" and not (len(q.cols) == 1 and isinstance(q.cols[0], str) and "(" in q.cols[0]):
        v = p.facts.get(("isnone", row_))
        if v is None:
            v = p.facts.get(("truthy", row_))
            return v
        return not v
    v0 = ("item", row_, const(0))
    for fk, v in p.facts.items():
        if fk[0] == "eq" and v0 in fk[1:3] and const(1) in fk[1:3]:
            return v
        if fk[0] == "eq" and v0 in fk[1:3] and const(0) in fk[1:3]:
            return not v
        if fk == ("truthy", v0):
            return v
        if fk[0] in ("lt", "gt") and v0 in fk[1:3] and const(0) in fk[1:3]:
            return v
    return None


def by(q, ps, col):
    """The parameter compared with a column, when that is the only condition."""
    return ps[0] if list(q.where) == [col] and len(ps) == 1 else None


def sql_part(ctx):
    ctx.rule("In a store that keeps a database: every statement is parsed; set upserts one row whose columns hold the given key, version, node name and code version (those of the key when not given) and adds the key to the history of the run; get reads that table by that key and gives the version column, or None iff there is no row; "
             "exists and delete use the same table and key; every write is committed on every path; delete_all empties every table without dropping it; runs are listed in order of start, an entry once per recorded execution while it is stored, an unknown run is an IndexError; opening a store keeps what it holds.")
    ix = ctx.ix
    cs = [c for c in ix.subclasses_of(META) if c.module.name.startswith("hamilton.") and any("sqlite3" in str(x) for x in c.module.imports.values())]
    ctx.need(len(cs) >= 1, "no database store found")
    for c in cs:
        sql_store(ctx, c)


def sql_store(ctx, c):
    n = c.name
    # opening
    f, ps = of(ctx, c, "__init__")
    tables = {}
    for p in ps:
        made = {}
        for e, q, _ in statements(ctx, p, f):
            ctx.check(q.op == "create", f"{n}.open:{q.op}", e.where(), f"opening the store executes `{q.text[:60]}`", p)
            if q.op == "create":
                ctx.check(q.mode == "lenient", f"{n}.open:again", e.where(), f"opening a store that has table {q.table} already fails", p)
                made[q.table] = q
        tables = tables or made
        ctx.check(set(made) == set(tables), f"{n}.open:tables", f.loc(), "some ways of opening the store do not create all tables", p)
        for e in p.trace:
            if e.name == "connect" and e.kind == "call":
                ctx.check(bool(e.args) and mentions(e.args[0], ("param", "path")) or any(mentions(x, ("param", "path")) for x in resolved(p, e.args[0])), f"{n}.open:path", e.where(), "the database is not opened under the given path", p)
                ctx.check(any(mentions(s, ("param", "connection_kwargs")) or mentions(s, ("attr", SELFT, "connection_kwargs")) for s in e.spreads) or p.facts.get(("truthy", ("param", "connection_kwargs"))) is False or ("param", "connection_kwargs") not in params(f),
                          f"{n}.open:options", e.where(), "connection options are not used", p)
    ctx.need(bool(tables), f"{n}: no tables")
    # get
    f, ps = of(ctx, c, "get")
    key = params(f)[0]
    M = K = V = None
    for p in ps:
        sts = statements(ctx, p, f)
        ctx.check(all(q.op in ("select", "exists") for _, q, _ in sts), f"{n}.get:pure", f.loc(), "looking up an entry changes the store", p)
        ctx.need(len(sts) == 1 and sts[0][1].op == "select" and not sts[0][1].joins and len(sts[0][1].where) == 1, f"{f.qual}: lookup not recognised")
        e, q, pars = sts[0]
        M, K = q.table, next(iter(q.where))
        ctx.need(M in tables and K in tables[M].types, f"{f.qual}: {M}.{K} is not created by this store")
        ctx.check(pars == [key], f"{n}.get:key", e.where(), f"the entry is looked up by {tstr(pars[0]) if pars else 'nothing'}", p)
        ctx.check("PRIMARY KEY" in tables[M].types[K] or "UNIQUE" in tables[M].types[K], f"{n}.get:unique", e.where(), f"several rows of {M} can have one key", p)
        h = present(ctx, p, f, e, q)
        r = row(fetched(p, "fetchone")[-1])
        if h is False:
            ctx.check(p.value == NONE, f"{n}.get:absent", f.loc(), f"{tstr(p.value)[:60]} is given for an entry that is not stored", p)
        else:
            v = p.value
            ctx.need(v == NONE or v[0] == "item" and v[1] == r and v[2][0] == "const" or v[0] == "only" and v[1] == r, f"{f.qual}: gives {tstr(v)[:60]}")
            ctx.check(v != NONE and h is True, f"{n}.get:present", f.loc(), "None is given for an entry that is stored" if v == NONE else "a missing row is not noticed", p)
            if v != NONE:
                i = 0 if v[0] == "only" else v[2][1]
                ctx.need(q.cols != ["*"], f"{f.qual}: columns not recognised")
                ctx.check(0 <= i < len(q.cols) and q.cols[i][1] == "data_version", f"{n}.get:column", e.where(), "the value given is not the data version column", p)
    V = "data_version"
    # set
    f, ps = of(ctx, c, "set", opaque=["decode_key"])
    k, r = param(ctx, f, "cache_key", 0), param(ctx, f, "run_id", 2)
    H = None
    for p in ps:
        ctx.check(p.kind == "return", f"{n}.set:raises", f.loc(), "storing an entry is refused", p)
        if p.kind != "return":
            continue
        sts = statements(ctx, p, f)
        ms = [(e, q, x) for e, q, x in sts if q.table == M]
        ins = [x for x in ms if x[1].op == "insert"]
        ctx.check(len(ins) == 1, f"{n}.set:stored", f.loc(), f"the entry is stored {len(ins)} times", p)
        for e, q, x in ms:
            if q.op == "delete":
                ctx.check(by(q, x, K) == k, f"{n}.set:others", e.where(), "storing an entry deletes others", p)
        for e, q, x in ins:
            d = inserted(q, x)
            replaced = any(q2.op == "delete" and by(q2, x2, K) == k and p.trace.index(e2) < p.trace.index(e) for e2, q2, x2 in ms)
            ctx.check(q.mode in ("REPLACE", "UPSERT") or replaced, f"{n}.set:again", e.where(), "an entry that is set again " + ("keeps its old version" if q.mode == "IGNORE" else "is refused"), p)
            if q.mode == "UPSERT":
                ctx.check(all(q.updates.get(col) in ("excluded." + col,) for col in d if col != K), f"{n}.set:updated", e.where(), "an entry that is set again keeps some old columns", p)
            ctx.check(d.get(K) == k, f"{n}.set:key", e.where(), f"the entry is stored under {tstr(d[K])[:60] if d.get(K) else 'no key'}", p)
            ctx.check(d.get(V) == ("param", "data_version"), f"{n}.set:version", e.where(), "the version stored is not the one given", p)
            dec = [x2 for x2 in p.trace if x2.name == "decode_key" and x2.args == (k,)]
            unset = any(p.facts.get(("isnone", ("param", z))) is True for z in ("node_name", "code_version"))
            for col in ("node_name", "code_version"):
                t = d.get(col)
                ok = any(t == ("item", ("res", x2.uid), const(col)) for x2 in dec) or (t == ("param", col) and p.facts.get(("isnone", t)) is False)
                ctx.check(ok, f"{n}.set:{col}", e.where(), f"the {col} stored is {tstr(t)[:60] if t else None}", p)
        hs = [(e, q, x) for e, q, x in sts if q.op == "insert" and q.table != M]
        ctx.check(len(hs) == 1 and set(inserted(hs[0][1], hs[0][2]).values()) == {k, r} and inserted(hs[0][1], hs[0][2]).get("run_id") == r and hs[0][1].mode == "", f"{n}.set:history", f.loc(), "the execution is not recorded for its run", p)
        if len(hs) == 1:
            H = hs[0][1].table
        committed(ctx, c, f, p, sts)
    ctx.need(H in tables, f"{n}: history not recognised")
    # exists
    f, ps = of(ctx, c, "exists")
    k = params(f)[0]
    for p in ps:
        sts = statements(ctx, p, f)
        ctx.need(len(sts) == 1 and sts[0][1].op in ("select", "exists") and p.kind == "return", f"{f.qual}: lookup not recognised")
        e, q, x = sts[0]
        ctx.check(q.table == M and by(q, x, K) == k and not q.joins, f"{n}.exists:key", e.where(), "an entry other than the one asked for is looked up", p)
        h = present(ctx, p, f, e, q)
        if h is None and q.op == "select" and p.value in [("pure", "bool", None, (row(z),), ()) for z in fetched(p, "fetchone")]:
            continue
        ctx.need(h is not None and p.value in (TRUE, FALSE), f"{f.qual}: answers {tstr(p.value)[:60]}")
        ctx.check(p.value == (TRUE if h else FALSE), f"{n}.exists", f.loc(), f"{'a stored' if h else 'an absent'} entry is said {'not ' if h else ''}to exist", p)
    # delete
    f, ps = of(ctx, c, "delete")
    k = params(f)[0]
    for p in ps:
        sts = statements(ctx, p, f)
        ctx.check(p.kind == "return", f"{n}.delete:raises", f.loc(), "deleting an entry fails", p)
        hit = False
        for e, q, x in sts:
            if q.op == "delete":
                ok = by(q, x, K) == k
                ctx.check(ok, f"{n}.delete:others", e.where(), "deleting an entry deletes others", p)
                hit = hit or ok and q.table == M
            else:
                ctx.check(q.op == "select", f"{n}.delete:writes", e.where(), "deleting an entry writes others", p)
        ctx.check(hit or any(present(ctx, p, f, e, q) is False for e, q, x in sts if q.op == "select"), f"{n}.delete:deleted", f.loc(), "the entry is not deleted", p)
        committed(ctx, c, f, p, sts)
    # delete_all
    f, ps = of(ctx, c, "delete_all")
    for p in ps:
        sts = statements(ctx, p, f)
        for t in tables:
            mine = [(q.op, bool(q.where)) for e, q, x in sts if q.table == t]
            ctx.check(bool(mine) and (mine[0] == ("delete", False) or mine[0][0] == "drop"), f"{n}.delete_all:{t}", f.loc(), f"table {t} is not emptied", p)
            ctx.check(not any(o == "drop" for o, _ in mine) or mine[-1][0] == "create", f"{n}.delete_all:usable", f.loc(), f"table {t} is gone after delete_all: the store cannot be used any more", p)
            ctx.check(all(o != "insert" for o, _ in mine), f"{n}.delete_all:kept", f.loc(), f"table {t} is filled by delete_all", p)
        committed(ctx, c, f, p, sts)
    # size
    f, ps = of(ctx, c, "__len__")
    for p in ps:
        sts = statements(ctx, p, f)
        ctx.need(len(sts) == 1, f"{f.qual}: count not recognised")
        e, q, x = sts[0]
        ctx.check(q.op == "select" and q.table == M and not q.where and not q.joins and re.match(r"count\((\*|1|cache_key)\)$", str(q.cols[0]).lower()) and p.value in [("item", row(z), const(0)) for z in fetched(p, "fetchone")], f"{n}.__len__", e.where(), f"the size is {tstr(p.value)[:40]} of `{q.text[:60]}`", p)
    # runs
    f, ps = of(ctx, c, "get_run_ids")
    RT = None
    for p in ps:
        sts = statements(ctx, p, f)
        ctx.need(len(sts) == 1 and sts[0][1].op == "select" and p.kind == "return" and p.value[0] in ("list", "tuple"), f"{f.qual}: lookup not recognised")
        e, q, x = sts[0]
        RT = q.table
        ctx.need(RT in tables, f"{f.qual}: table {RT} is not created")
        auto = [a for a, b in tables[RT].types.items() if "INTEGER PRIMARY KEY" in b] + ["rowid"]
        o = ident(q.order or "").replace(" asc", "").split(".")[-1]
        ctx.check(not q.where and not q.distinct and not q.limit, f"{n}.get_run_ids:all", e.where(), "some runs are not listed", p)
        if o and o not in auto:
            ctx.check("desc" not in o, f"{n}.get_run_ids:order", e.where(), "runs are not listed in order of start", p)
            ctx.need(False, f"{f.qual}: order `{o}` not recognised")
        if not p.value[1] and any(p.facts.get(("truthy", row(z))) is False for z in fetched(p, "fetchall")):
            continue
        ctx.need(len(p.value[1]) == 1 and p.value[1][0][0] == "e", f"{f.qual}: gives {tstr(p.value)[:60]}")
        fa = [("elem", row(z)) for z in fetched(p, "fetchall")]
        v = p.value[1][0][1]
        ctx.need(v[0] in ("item", "only") and v[1] in fa, f"{f.qual}: lists {tstr(v)[:60]}")
        i = 0 if v[0] == "only" else v[2][1]
        ctx.check(q.cols[i][1] == "run_id" if q.cols != ["*"] and 0 <= i < len(q.cols) else False, f"{n}.get_run_ids:id", e.where(), "what is listed are not the ids of the runs", p)
        ctx.check(not (len(p.value[1][0][2]) > 2 and p.value[1][0][2][2]), f"{n}.get_run_ids:filter", e.where(), "some runs are not listed", p)
    f, ps = of(ctx, c, "initialize")
    run = params(f)[0]
    for p in ps:
        sts = [x for x in statements(ctx, p, f) if x[1].op in ("insert", "delete", "drop")]
        ctx.check(p.kind == "return" and [(q.op, q.table) for _, q, _ in sts] == [("insert", RT)] and inserted(sts[0][1], sts[0][2]).get("run_id") == run, f"{n}.initialize:run", f.loc(), "a started run is not recorded, once", p)
        committed(ctx, c, f, p, sts)
    f, ps = of(ctx, c, "get_run")
    run = params(f)[0]
    for p in ps:
        sts = statements(ctx, p, f)
        ex = [(e, q, x) for e, q, x in sts if q.table == RT]
        rows = [(e, q, x) for e, q, x in sts if q.table != RT]
        ctx.check(len(ex) == 1 and by(ex[0][1], ex[0][2], "run_id") == run, f"{n}.get_run:known", f.loc(), "whether the run was started is not looked up in the runs", p)
        if len(ex) != 1:
            continue
        h = present(ctx, p, f, *ex[0][:2])
        ctx.need(h is not None, f"{f.qual}: test of the run not recognised")
        if not h:
            ctx.check(p.kind == "raise" and p.value[-1] == "IndexError", f"{n}.get_run:unknown", f.loc(), "an unknown run is not refused with IndexError", p)
            continue
        ctx.check(p.kind == "return", f"{n}.get_run:refused", f.loc(), "a run that was started cannot be listed", p)
        if p.kind != "return":
            continue
        ctx.need(len(rows) == 1 and rows[0][1].op == "select" and len(rows[0][1].joins) == 1, f"{f.qual}: lookup not recognised")
        e, q, x = rows[0]
        kind, jt, on = q.joins[0]
        ctx.check({q.table, jt} == {H, M}, f"{n}.get_run:tables", e.where(), "the entries of the run are not looked up in the history", p)
        ctx.check(kind == "INNER" or kind == "LEFT" and q.table == M, f"{n}.get_run:deleted", e.where(), "entries deleted since are listed with the run", p)
        ctx.check(on == frozenset({(H, K), (M, K)}), f"{n}.get_run:join", e.where(), "entries are listed for keys other than theirs", p)
        ctx.check(x == [run] and [q.col(w) for w in getattr(q, "where_cols", [])] in ([(H, "run_id")], [(None, "run_id")]), f"{n}.get_run:run", e.where(), "entries of other runs are listed", p)
        ctx.check(not q.limit and not q.distinct, f"{n}.get_run:all", e.where(), "some entries of the run are not listed", p)
        v = p.value
        if v == ("list", ()) and any(p.facts.get(("truthy", row(z))) is False for z in fetched(p, "fetchall")):
            continue
        ctx.need(v[0] == "list" and len(v[1]) == 1 and v[1][0][0] == "e" and v[1][0][1][0] == "dict", f"{f.qual}: gives {tstr(v)[:60]}")
        fa = [("elem", row(z)) for z in fetched(p, "fetchall")]
        d = {r[1][1]: r[2] for r in v[1][0][1][1] if r[0] == "kv" and r[1][0] == "const"}
        for col in (K, V, "node_name", "code_version"):
            t = d.get(col)
            ctx.need(t is None or t[0] == "item" and t[1] in fa and t[2][0] == "const", f"{f.qual}: {col} is {tstr(t)[:60] if t else None}")
            ctx.check(t is not None and q.cols[t[2][1]] in ((M, col), (None, col), (H, K) if col == K else None), f"{n}.get_run:{col}", e.where(), f"{col} of a listed entry is another column", p)
        ctx.check(not (len(v[1][0][2]) > 2 and v[1][0][2][2]), f"{n}.get_run:filter", e.where(), "some entries are not listed", p)


def resolved(p, t):
    """t and what the calls it is the result of were made with."""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        if x is None or x in out:
            continue
        out.append(x)
        for s in subterms(x):
            if isinstance(s, tuple) and s[:1] == ("res",):
                e = ev_of(p, s[1])
                if e is not None:
                    todo += [e.recv] + list(e.args) + list(e.kwargs.values())
            elif isinstance(s, tuple) and s[:1] == ("attr",) and s[1] == SELFT:
                v = p.st.attrs.get((SELFT, s[2]))
                if v is not None:
                    todo.append(p.interp.freeze(v, p.st))
    return out


# ---------------------------------------------------------------- stores that keep files

def pathn(p, t, dv):
    """Normal form of a path: how it is made of the store's directory and the data version."""
    if t is None:
        return None
    if t == dv:
        return "$dv"
    if t[0] == "pure" and t[1] in ("str", "os.fspath", "fspath") and len(t[3]) == 1:
        return pathn(p, t[3][0], dv)
    if t[0] == "op" and t[1] in ("Div", "TrueDiv") and len(t) == 4:
        return ("join", pathn(p, t[2], dv), pathn(p, t[3], dv))
    if t[0] == "fstr" and len(t) == 2:
        return pathn(p, t[1], dv)
    if t[0] in ("fstr",):
        return ("text",) + tuple(pathn(p, x, dv) if isinstance(x, tuple) else x for x in t[1:])
    if t[0] == "res":
        e = ev_of(p, t[1])
        if e is not None and e.kind in ("call", "new"):
            if e.name in ("joinpath", "with_suffix", "with_name") and e.recv is not None and len(e.args) == 1:
                return ("join" if e.name == "joinpath" else e.name, pathn(p, e.recv, dv), pathn(p, e.args[0], dv))
            if e.name == "join" and len(e.args) == 2:
                return ("join", pathn(p, e.args[0], dv), pathn(p, e.args[1], dv))
            if e.name in ("absolute", "resolve", "as_posix", "fspath") and not e.args:
                return pathn(p, e.recv, dv)
            if e.name in ("Path", "str", "PurePath", "fspath", "abspath") and len(e.args) == 1:
                return pathn(p, e.args[0], dv)
            if e.name == "name" and e.recv is not None:
                return ("name", e.recv)
    return t


HOME = ("attr", SELFT, "path")


def target(e):
    """Path a file operation works on."""
    return e.recv if e.recv is not None and not (e.recv[0] == "global") else (e.args[0] if e.args else None)


WRITES, READS, REMOVES = {"write_bytes"}, {"read_bytes"}, {"unlink", "remove", "rmtree", "rmdir"}
OTHER = {"write", "open", "write_text", "read_text", "rename", "replace", "move", "copy", "copyfile", "touch", "dump", "load"}


def file_ops(ctx, p, f, kinds):
    for e in p.trace:
        ctx.need(not (e.kind in ("call", "callv") and e.name in OTHER and not (e.name == "replace" and e.recv is not None and e.recv[0] == "const")), f"{f.qual}: file operation {e.name} not recognised")
    return [e for e in p.trace if e.kind == "call" and e.name in kinds]


def file_part(ctx):
    ctx.rule("In a store that keeps files: set, get, exists and delete use one path made of the store's directory and the data version; set writes there, once, the pickled value, or, when a saver and a loader are given, has the saver save the value and pickles the loader, both made for one other path; exactly one of them is refused; "
             "get gives the unpickled value or what the unpickled loader loads, None iff there is no file, and ResultRetrievalError for whatever cannot be loaded; delete tolerates absence; delete_all removes the store's directory contents only.")
    cs = [c for c in ctx.ix.subclasses_of(RES) if c.module.name.startswith("hamilton.") and dict_of(ctx, c)[3] is None]
    ctx.need(len(cs) >= 1, "no file store found")
    for c in cs:
        file_store(ctx, c)


def file_store(ctx, c):
    n = c.name
    f, ps = of(ctx, c, "set")
    dv, val = params(f)[0], param(ctx, f, "result", 1)
    sv, ld = ("param", "saver_cls"), ("param", "loader_cls")
    where = set()
    for p in ps:
        none = {t: p.facts.get(("isnone", t)) for t in (sv, ld)}
        built = {t: [e for e in p.trace if e.kind in ("callv", "call", "new") and e.recv == t and e.kind == "callv"] for t in (sv, ld)}
        if any(p.facts.get(("isnone", row(e))) is True for es in built.values() for e in es):
            continue  # an instance is not None
        mixed = None in none.values() and False or (none[sv] is True) != (none[ld] is True) and None not in none.values()
        noarg = any(p.facts.get(k) is False and v is False for k, v in p.facts.items() if k[0] == "in" and k[1] == const("path"))
        if p.kind == "raise":
            ctx.check(mixed or noarg, f"{n}.set:raises", f.loc(), "storing a result is refused", p)
            ctx.check(not file_ops(ctx, p, f, WRITES), f"{n}.set:refused", f.loc(), "a refused result leaves a file behind", p)
            continue
        ctx.check(not mixed, f"{n}.set:pair", f.loc(), "a saver without a loader (or the reverse) is accepted", p)
        if mixed:
            continue
        ws = file_ops(ctx, p, f, WRITES)
        ctx.check(len(ws) == 1 and not file_ops(ctx, p, f, REMOVES), f"{n}.set:written", f.loc(), f"the result is written {len(ws)} times", p)
        if len(ws) != 1:
            continue
        e = ws[0]
        q = pathn(p, target(e), dv)
        where.add(q)
        data = e.args[-1]
        d = ev_of(p, data[1]) if data[0] == "res" else None
        ctx.need(d is not None and d.name == "dumps", f"{f.qual}: what is written is {tstr(data)[:60]}")
        what = d.args[0] if d.args else d.kwargs.get("obj")
        if none[sv] is not False:
            ctx.need(none[sv] is True or none[ld] is True, f"{f.qual}: no test of the saver")
            ctx.check(what == val, f"{n}.set:value", d.where(), f"{tstr(what)[:60]} is stored instead of the result", p)
            ctx.check(not any(x.name == "save_data" for x in p.trace), f"{n}.set:saver", d.where(), "a saver is used although none was given", p)
            continue
        sd = [x for x in p.trace if x.kind == "call" and x.name == "save_data"]
        ctx.check(len(built[sv]) == 1 and len(built[ld]) == 1, f"{n}.set:built", f.loc(), "the saver and the loader given are not both made", p)
        if len(built[sv]) != 1 or len(built[ld]) != 1:
            continue
        S_, L_ = built[sv][0], built[ld][0]
        ctx.check(len(sd) == 1 and sd[0].recv == row(S_) and sd[0].arg("data", 0) == val, f"{n}.set:saved", f.loc(), "the result is not saved (once) with the saver given", p)
        ctx.check(what == row(L_), f"{n}.set:loader", d.where(), f"{tstr(what)[:60]} is stored instead of the loader", p)
        at = {}
        for x, t in ((S_, sv), (L_, ld)):
            ctx.need(len(x.kwargs) == 1 and not x.args, f"{f.qual}: arguments of {tstr(t)} not recognised")
            (a, v), = x.kwargs.items()
            at[t] = pathn(p, v, dv)
            spec = [k for k, fv in p.facts.items() if k[0] == "in" and k[1] == const(a) and fv is True and any(mentions(y, t) for y in resolved(p, k[2]))]
            ctx.check(bool(spec), f"{n}.set:argument", x.where(), f"{tstr(t)} is given {a} although it may not take it", p)
        ctx.check(at[sv] == at[ld], f"{n}.set:same-file", L_.where(), "the loader does not read the file the saver writes", p)
        ctx.check(at[sv] != q, f"{n}.set:clash", S_.where(), "the saver's file and the store's own are one", p)
        ctx.check("$dv" in flat_terms(at[sv]), f"{n}.set:own-file", S_.where(), "results of different versions are saved to one file", p)
    ctx.need(len(where) == 1, f"{f.qual}: {len(where)} paths")
    P = next(iter(where))
    ctx.check("$dv" in flat_terms(P) and HOME in flat_terms(P), f"{n}.set:path", f.loc(), "results of different versions are written to one file, or outside the store", None)
    ctx.need(P == ("join", HOME, "$dv"), f"{f.qual}: path {P} not recognised")
    # get
    f, ps = of(ctx, c, "get", raises=lambda e: e.name in ("read_bytes", "loads", "load_data"), opaque=[])
    dv = params(f)[0]
    for p in ps:
        rs = file_ops(ctx, p, f, READS)
        gone = any(k[0] == "excis" and "FileNotFoundError" in str(k) and v for k, v in p.facts.items()) and rs and rs[0].outcome == "raise"
        ex = [e for e in p.trace if e.kind == "call" and e.name in ("exists", "is_file") and pathn(p, e.recv, dv) == P]
        gone = gone or any(p.facts.get(("truthy", row(e))) is False for e in ex)
        if gone:
            ctx.check(p.kind == "return" and p.value == NONE, f"{n}.get:absent", f.loc(), "looking up a result that is not stored does not give None", p)
            continue
        ctx.check(len(rs) == 1 and pathn(p, target(rs[0]), dv) == P, f"{n}.get:path", f.loc(), "the result is not read from where it was written", p)
        if not rs:
            continue
        if rs[0].outcome == "raise":
            ctx.check(p.kind == "raise", f"{n}.get:unreadable", f.loc(), "a result that cannot be read is taken for one that is not stored", p)
            continue
        failed = [e for e in p.trace if e.outcome == "raise"]
        if failed:
            ctx.check(p.kind == "raise" and str(p.value[-1]).endswith("ResultRetrievalError"), f"{n}.get:{failed[-1].name}", failed[-1].where(), "a stored result that cannot be loaded does not raise ResultRetrievalError (which has it computed again)", p)
            continue
        lo = [e for e in p.trace if e.name == "loads"]
        ctx.check(len(lo) == 1 and lo[0].args == (row(rs[0]),), f"{n}.get:unpickled", f.loc(), "what was written is not unpickled", p)
        if len(lo) != 1:
            continue
        il = [v for k, v in p.facts.items() if k[0] == "isinstance" and k[1] == row(lo[0]) and "DataLoader" in tstr(k[2])]
        ctx.need(len(il) == 1, f"{f.qual}: loaders are not told from values")
        ld_ = [e for e in p.trace if e.name == "load_data"]
        if il[0]:
            ctx.check(len(ld_) == 1 and ld_[0].recv == row(lo[0]) and p.kind == "return" and p.value == ("item", row(ld_[0]), const(0)), f"{n}.get:loaded", f.loc(), f"{tstr(p.value)[:60]} is given instead of what the loader loads", p)
        else:
            ctx.check(not ld_ and p.kind == "return" and p.value == row(lo[0]), f"{n}.get:value", f.loc(), f"{tstr(p.value)[:60]} is given instead of the stored value", p)
    # exists
    f, ps = of(ctx, c, "exists")
    dv = params(f)[0]
    for p in ps:
        ex = [e for e in p.trace if e.kind == "call" and e.name in ("exists", "is_file", "isfile") and p.kind == "return"]
        ctx.need(len(ex) == 1, f"{f.qual}: test not recognised")
        ctx.check(pathn(p, target(ex[0]), dv) == P, f"{n}.exists:path", ex[0].where(), "the file looked for is not the one written", p)
        t = p.facts.get(("truthy", row(ex[0])))
        ctx.check(p.value == row(ex[0]) and t is None or p.value == {True: TRUE, False: FALSE}.get(t), f"{n}.exists", f.loc(), f"{tstr(p.value)[:60]} is answered", p)
    # delete
    f, ps = of(ctx, c, "delete", raises=lambda e: e.name in ("unlink", "remove"))
    dv = params(f)[0]
    for p in ps:
        rm = file_ops(ctx, p, f, REMOVES)
        ex = [e for e in p.trace if e.kind == "call" and e.name in ("exists", "is_file") and pathn(p, e.recv, dv) == P]
        there = next((p.facts.get(("truthy", row(e))) for e in ex), None)
        for e in rm:
            ctx.check(e.name in ("unlink", "remove") and pathn(p, target(e), dv) == P, f"{n}.delete:others", e.where(), "deleting a result removes other files", p)
            if e.outcome == "raise" and p.kind == "raise":
                ctx.check(e.kwargs.get("missing_ok") == TRUE or e.args == (TRUE,) or there is True or any(k[0] == "excis" and "FileNotFoundError" in str(k) and v is False for k, v in p.facts.items()), f"{n}.delete:absent", e.where(), "deleting a result that is not stored fails", p)
        if there is not False:
            ctx.check(len(rm) == 1, f"{n}.delete:deleted", f.loc(), "the result is not deleted", p)
    f, ps = of(ctx, c, "delete_all")
    for p in ps:
        rm = file_ops(ctx, p, f, REMOVES)
        ctx.need(len(rm) == 1 or not rm and p.loops_empty if hasattr(p, "loops_empty") else True, f.qual)
        for e in rm:
            t = target(e) if e.name != "rmtree" else e.args[0]
            inside = t == HOME or t[0] == "elem" and t[1][0] == "res" and ev_of(p, t[1][1]).recv == HOME
            ctx.check(inside, f"{n}.delete_all:outside", e.where(), f"{tstr(t)[:60]} is removed, not the store's own directory", p)
        whole = any(e.name == "rmtree" and e.args[0] == HOME for e in rm)
        ctx.need(whole or any(e.loops for e in rm) or not rm, f"{f.qual}: removal not recognised")
        it = [e for e in p.trace if e.name in ("iterdir", "glob", "listdir", "rglob")]
        ctx.check(whole or bool(rm) or any(p.facts.get(("truthy", row(e))) is False for e in it), f"{n}.delete_all:kept", f.loc(), "stored results are not removed", p)
        ctx.check(p.kind == "return", f"{n}.delete_all:raises", f.loc(), "deleting all results fails", p)


def flat_terms(x):
    out = [x]
    if isinstance(x, tuple):
        for y in x:
            out += flat_terms(y)
    return out


# ---------------------------------------------------------------- stored results and the base classes

def wrapper_part(ctx):
    ctx.rule("A StoredResult keeps value, saver and loader it is made with (only a pair of saver and loader, or neither); size, last_run_id and get_last_run follow from __len__, get_run_ids and get_run; a stored value is never mistaken for the loader of one.")
    ix = ctx.ix
    c = ix.cls(S + "base.StoredResult")
    f, ps = of(ctx, c, "new")
    for p in ps:
        none = [p.facts.get(("isnone", ("param", x))) for x in ("saver", "loader")]
        mixed = None not in none and none[0] != none[1]
        if p.kind == "raise":
            ctx.check(mixed, "StoredResult.new:raises", f.loc(), "a result is refused", p)
            continue
        ctx.check(not mixed and None not in none, "StoredResult.new:pair", f.loc(), "a saver without a loader (or the reverse) is accepted", p)
        ctx.need(p.value[0] == "inst", f"{f.qual}: gives {tstr(p.value)[:60]}")
        for i, x in enumerate(("value", "saver", "loader")):
            v = field(p, p.value, x)
            ctx.check(v == ("param", x) or x != "value" and none[i - 1] is True and v == NONE, f"StoredResult.new:{x}", f.loc(), f"{x} of a result is {tstr(v)[:60] if v else None}", p)
    m = ix.cls(META)
    for name, want in (("size", lambda p: [e.uid for e in p.trace if e.name == "__len__" and e.recv == SELFT]), ("last_run_id", None), ("get_last_run", None)):
        f, ps = of(ctx, m, name, inline=lambda g: g.name in ("last_run_id",))
        for p in ps:
            v = p.value
            if name == "size":
                ok = v in [("res", u) for u in want(p)] or v == ("pure", "len", None, (SELFT,), ())
            else:
                t = v
                if name == "get_last_run":
                    e = ev_of(p, v[1]) if v[0] == "res" else None
                    ok = e is not None and e.name == "get_run" and e.recv == SELFT and len(e.args) + len(e.kwargs) == 1
                    t = (list(e.args) + list(e.kwargs.values()))[0] if ok else v
                ids = [("res", e.uid) for e in p.trace if e.name == "get_run_ids" and e.recv == SELFT]
                ok = t[0] == "item" and t[1] in ids and t[2] == const(-1) or name == "get_last_run" and t == ("attr", SELFT, "last_run_id")
            ctx.check(ok, f"MetadataStore.{name}", f.loc(), f"{name} is {tstr(v)[:60]}", p)
    # values that are loaders themselves
    f1, s1 = of(ctx, c, "save")
    f2, s2 = of(ctx, c, "load")
    raw = [e.args[0] for p in s1 for e in p.trace if e.name == "dumps" and e.args and p.facts.get(("isnone", ("attr", SELFT, "saver"))) is True]
    tests = [k for p in s2 for k in p.facts if k[0] == "isinstance" and k[1][0] == "res" and ev_of(p, k[1][1]).name == "loads" and "DataLoader" in tstr(k[2])]
    ctx.check(not (("attr", SELFT, "value") in raw and tests), "StoredResult.load:loader-values", f2.loc(), "a stored value that is itself a DataLoader is taken for the loader of the value: what it loads is given instead of it")


# ---------------------------------------------------------------- copying between stores

def transfer_part(ctx):
    ctx.rule("persist_to and load_from copy every run, in order, every entry recorded for it that is still stored, and every stored result asked for - each under its own key, version and run - and nothing else.")
    ix = ctx.ix
    mm, rm = ix.cls(S + "memory.InMemoryMetadataStore"), ix.cls(S + "memory.InMemoryResultStore")
    only = dict(inline_modules=[S + "memory"], opaque=["initialize", "set", "get", "exists", "get_run", "get_run_ids", "SQLiteMetadataStore", "FileResultStore", "delete"])
    D = dict_of(ctx, mm)[3]
    ctx.need(D is not None, "metadata not kept in a dictionary")
    f, ps = of(ctx, mm, "persist_to", **only)
    tgt = params(f)[0]
    for p in ps:
        ctx.check(p.kind == "return", "persist_to:raises", f.loc(), "persisting fails", p)
        new = [e for e in p.trace if e.kind == "new"]
        if p.facts.get(("isnone", tgt)) is True:
            ctx.check(len(new) == 1, "persist_to:default", f.loc(), "no store is made when none is given", p)
        inits = [e for e in p.trace if e.name == "initialize"]
        sets = [e for e in p.trace if e.name == "set"]
        for e in inits + sets:
            ctx.check(e.recv == tgt if not new else e.recv[0] == "inst", "persist_to:target", e.where(), "entries are not written to the store given", p)
        bad = 0
        for e in inits:
            r = e.args[0] if e.args else e.kwargs.get("run_id")
            ok = r[0] in ("elem", "key") and own(r[1]) or r[0] == "elem" and r[1][0] == "res" and ev_of(p, r[1][1]).name == "get_run_ids"
            ctx.check(ok and len(e.loops) == 1 and not guarded(e, p, r), "persist_to:runs", e.where(), "not every run is persisted", p)
        ctx.check(len(inits) <= 1, "persist_to:runs-once", f.loc(), "runs are persisted twice", p)
        src = {k[1] for k, v in p.facts.items() if k[0] == "truthy" and v is False}
        ctx.check(bool(inits) or any(own(s) or s[0] == "res" for s in src), "persist_to:no-runs", f.loc(), "no run is persisted", p)
        ctx.check(len(sets) <= 1, "persist_to:once", f.loc(), "entries are persisted twice", p)
        for e in sets:
            k, v, r = (e.kwargs.get(x, e.args[i] if i < len(e.args) else None) for i, x in enumerate(("cache_key", "data_version", "run_id")))
            ctx.need(k is not None and r is not None and k[0] == "elem", f"{f.qual}: entry {tstr(k)[:60] if k else None} not recognised")
            R = k[1]
            ctx.check(v == ("item", D, k), "persist_to:version", e.where(), f"an entry is persisted with version {tstr(v)[:60]}", p)
            ctx.check(R[0] == "val" and r == ("key", R[1]) or R[0] == "item" and r == R[2], "persist_to:run", e.where(), "an entry is persisted for another run", p)
            for g, gv in e.nfacts.items() if isinstance(e.nfacts, dict) else ():
                if mentions(g, k) or mentions(g, r):
                    ctx.check((g, gv) == (("in", k, D), True) or g[0] in ("isnone", "truthy") and g[1] in (k, v), "persist_to:left-out", e.where(), f"entries are persisted only when {tstr(g)[:60]} is {gv}", p)
        if not sets:
            ctx.check(any(g[0] == "truthy" and gv is False or g[0] == "in" and g[2] == D and gv is False or g[0] == "isnone" and gv is True and g[1] != tgt for g, gv in p.facts.items()), "persist_to:entries", f.loc(), "no entry is persisted", p)
    f, ps = of(ctx, mm, "load_from", **only)
    src = params(f)[0]
    for p in ps:
        ctx.check(p.kind == "return" and p.value[0] == "inst", "load_from:store", f.loc(), "no store is given", p)
        ids = [e for e in p.trace if e.name == "get_run_ids" and e.recv == src]
        ctx.check(len(ids) == 1, "load_from:ids", f.loc(), "the runs of the store are not listed", p)
        if len(ids) != 1 or p.facts.get(("truthy", row(ids[0]))) is False:
            continue
        run = ("elem", row(ids[0]))
        inits, sets = [e for e in p.trace if e.name == "initialize"], [e for e in p.trace if e.name == "set"]
        ctx.check(len(inits) == 1 and (inits[0].args == (run,) or list(inits[0].kwargs.values()) == [run]) and same_obj(inits[0].recv, p.value) and not guarded(inits[0], p, run), "load_from:runs", f.loc(), "not every run is loaded", p)
        gr = [e for e in p.trace if e.name == "get_run" and e.recv == src]
        ctx.check(len(gr) == 1 and (gr[0].args == (run,) or list(gr[0].kwargs.values()) == [run]), "load_from:run", f.loc(), "the entries of a run are not read", p)
        if len(gr) != 1 or p.facts.get(("truthy", row(gr[0]))) is False:
            continue
        m = ("elem", row(gr[0]))
        ctx.check(len(sets) == 1, "load_from:entries", f.loc(), f"entries are loaded {len(sets)} times", p)
        for e in sets:
            k, v, r = (e.kwargs.get(x, e.args[i] if i < len(e.args) else None) for i, x in enumerate(("cache_key", "data_version", "run_id")))
            ctx.check(same_obj(e.recv, p.value) and (k, v, r) == (("item", m, const("cache_key")), ("item", m, const("data_version")), run), "load_from:entry", e.where(), "an entry is loaded with another key, version or run", p)
            ctx.check(not guarded(e, p, m), "load_from:left-out", e.where(), "entries are left out", p)
            ctx.check(p.trace.index(inits[0]) < p.trace.index(e) if inits else False, "load_from:order", e.where(), "entries are loaded before their run exists", p)
    # results
    D = dict_of(ctx, rm)[3]
    ctx.need(D is not None, "results not kept in a dictionary")
    f, ps = of(ctx, rm, "persist_to", **only)
    tgt = params(f)[0]
    for p in ps:
        new = [e for e in p.trace if e.kind == "new"]
        sets = [e for e in p.trace if e.name == "set"]
        if p.facts.get(("truthy", D)) is False:
            continue
        ctx.check(p.kind == "return" and len(sets) == 1, "results.persist_to:once", f.loc(), "results are not persisted, once each", p)
        for e in sets:
            ctx.check(e.recv == tgt if not new else e.recv[0] == "inst", "results.persist_to:target", e.where(), "results are not written to the store given", p)
            k, v = (e.kwargs.get(x, e.args[i] if i < len(e.args) else None) for i, x in enumerate(("data_version", "result")))
            ok = k == ("key", D) and v in (("attr", ("val", D), "value"), ("attr", ("item", D, k), "value")) or k == ("elem", D) and v == ("attr", ("item", D, k), "value")
            if v is not None and v[0] == "res":
                g = ev_of(p, v[1])
                ok = k in (("key", D), ("elem", D)) and g.name == "get" and g.recv == SELFT and k in list(g.args) + list(g.kwargs.values())
            ctx.check(ok, "results.persist_to:entry", e.where(), "a result is persisted under another version", p)
            ctx.check(not guarded(e, p, D, ("truthy", D)), "results.persist_to:left-out", e.where(), "results are left out", p)
    f, ps = of(ctx, rm, "load_from", **only)
    src, md, dvs = ("param", "result_store"), ("param", "metadata_store"), ("param", "data_versions")
    for p in ps:
        nn = [p.facts.get(("isnone", x)) for x in (md, dvs)]
        if p.kind == "raise":
            ctx.check(nn == [True, True], "results.load_from:raises", f.loc(), "loading is refused", p)
            continue
        ctx.check(nn != [True, True] and p.value[0] == "inst", "results.load_from:nothing", f.loc(), "loading nothing in particular is accepted", p)
        sets = [e for e in p.trace if e.name == "set" and e.recv is not None and same_obj(e.recv, p.value)]
        for e in sets:
            k, v = (e.kwargs.get(x, e.args[i] if i < len(e.args) else None) for i, x in enumerate(("data_version", "result")))
            g = ev_of(p, v[1]) if v is not None and v[0] == "res" else None
            ctx.check(g is not None and g.name == "get" and g.recv == src and k in list(g.args) + list(g.kwargs.values()), "results.load_from:entry", e.where(), "a result is loaded under another version", p)
            ex = [x for x in p.trace if x.name == "exists" and x.recv == src and k in list(x.args) + list(x.kwargs.values())]
            ctx.check(any(p.facts.get(("truthy", row(x))) is True for x in ex) or p.facts.get(("isnone", v)) is False, "results.load_from:missing", e.where(), "a result that is not in the store is loaded as None", p)
        if sets:
            got = [versions(p, e.kwargs.get("data_version", e.args[0] if e.args else None), dvs, md) for e in sets]
            ctx.need(None not in got, f"{f.qual}: versions not recognised")
            from_ = set().union(*got)
            if nn[1] is False and p.facts.get(("truthy", dvs)) is not False and not missing(p, src, "given", dvs, md):
                ctx.check("given" in from_, "results.load_from:given", f.loc(), "the versions given are not loaded", p)
            if nn[0] is False and not any(v is False for kk, v in p.facts.items() if kk[0] == "truthy" and kk[1][0] == "res" and ev_of(p, kk[1][1]).name in ("get_run_ids", "get_run")) and not missing(p, src, "stored", dvs, md):
                ctx.check("stored" in from_, "results.load_from:stored", f.loc(), "the versions of the metadata store are not loaded", p)
        if not sets:
            ctx.check(any(k[0] == "truthy" and v is False or k[0] == "isnone" and v and k[1][0] == "res" for k, v in p.facts.items()), "results.load_from:none", f.loc(), "no result is loaded", p)


def same_obj(a, b):
    return a is not None and a[0] == "inst" and b[0] == "inst" and a[3] == b[3]


def guarded(e, p, x, *but):
    """The event happens only under some condition on x (other than there being elements at all)."""
    nf = e.nfacts if isinstance(e.nfacts, dict) else dict(e.nfacts or ())
    return [g for g in nf if mentions(g, x) and g not in but and g[0] not in ("dictlike",) and not (g[0] == "truthy" and g[1][0] in ("res", "attr") or g[0] == "truthy" and g[1][0] == "val")]


def missing(p, src, which, given, md):
    """The path is one on which a version of that origin is not in the store."""
    return any(e.name == "exists" and e.recv == src and p.facts.get(("truthy", row(e))) is False and which in (versions(p, (list(e.args) + list(e.kwargs.values()))[0], given, md) or ()) for e in p.trace)


def versions(p, k, given, md):
    """Where a version loaded comes from: {'given', 'stored'}."""
    if k is None:
        return None
    if k == ("elem", given):
        return {"given"}
    if k[0] == "item" and k[2] == const("data_version") and k[1][0] == "elem" and k[1][1][0] == "res" and ev_of(p, k[1][1][1]).name == "get_run" and ev_of(p, k[1][1][1]).recv == md:
        return {"stored"}
    if k[0] != "elem":
        return None
    x = k[1]
    if x == given:
        return {"given"}
    if x[0] not in ("set", "list", "tuple", "copy", "dict"):
        return None
    out = set()
    for r in x[1]:
        t = r[1]
        if t == given or t == ("elem", given):
            out.add("given")
        elif t[0] == "item" and t[2] == const("data_version") and t[1][0] == "elem" and t[1][1][0] == "res" and ev_of(p, t[1][1][1]).name == "get_run" and ev_of(p, t[1][1][1]).recv == md:
            out.add("stored")
        elif t[0] == "item" and t[1] == given:
            pass  # some of them
        else:
            return None
    return out



PARTS = [("memory", memory_part), ("sql", sql_part), ("file", file_part), ("wrapper", wrapper_part), ("transfer", transfer_part)]


def run(ctx):
    for _, part in PARTS:
        part(ctx)
