"""Path-sensitive abstract interpreter over the Python AST (no code is executed, no solver).

Values are abstracted to provenance terms (tuples); a function is summarised as a finite
set of abstract paths.  Each path carries an ordered trace of events (opaque calls,
stores, raises, yields), the branch facts it assumed and its outcome.  Loops are taken
zero times or `unroll` times with a generic element; project helpers are inlined, so a
property is judged on what a function does rather than on where its statements live."""
import ast

from .index import AnalysisBroken, Cls, Func, Module, dotted, exc_matches

NONE = ("const", None, "NoneType")
TRUE = ("const", True, "bool")
FALSE = ("const", False, "bool")


def const(v):
    return ("const", v, type(v).__name__)


def is_const(t):
    return t[0] == "const"


def isenumlike(t):
    return t[0] == "global" or t[0] == "const"


PURE_FUNCS = set(
    "len str repr isinstance issubclass hasattr type bool int float sorted reversed enumerate zip min max sum any all "
    "range id hash callable iter frozenset abs vars map filter dir bytes round ord chr super object property".split()
)
PURE_METHODS = set(
    "get keys values items split rsplit startswith endswith join format strip lstrip rstrip lower upper replace encode "
    "decode index count union difference intersection issubset issuperset isidentifier title partition rpartition "
    "total_seconds isEnabledFor copy capitalize isdigit find rfind removeprefix removesuffix getLogger".split()
)
IGNORED_ROOTS = ("logger", "logging", "warnings", "print")
LIST_MUT = {"append", "add", "insert", "appendleft"}
MUTATORS = {
    "append", "add", "insert", "appendleft", "extend", "update", "setdefault", "pop", "remove", "clear", "popitem",
    "discard", "popleft", "sort", "reverse", "__setitem__", "__delitem__", "difference_update", "intersection_update",
    "symmetric_difference_update", "extendleft", "subtract",
}


class Ev:
    """One event on a path."""

    __slots__ = ("uid", "kind", "name", "qual", "recv", "args", "kwargs", "bound", "outcome", "func", "line", "loops",
                 "awaited", "rel", "handlers", "extra", "spreads", "raw_recv", "raw_args", "raw_kwargs", "nfacts", "kept")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    def arg(self, name, pos=None):
        if self.bound is not None and name in self.bound:
            return self.bound[name]
        if name in self.kwargs:
            return self.kwargs[name]
        if pos is not None and pos < len(self.args):
            return self.args[pos]
        return None

    def where(self):
        return f"{self.rel}:{self.line} in {self.func}"

    def __repr__(self):
        a = ", ".join([tstr(x) for x in self.args] + [f"{k}={tstr(v)}" for k, v in self.kwargs.items()])
        r = tstr(self.recv) + "." if self.recv is not None else ""
        o = "!" if self.outcome == "raise" else ""
        return f"{self.kind}:{r}{self.name}({a}){o}@{self.line}"


def tstr(t, depth=0):
    if t is None:
        return "-"
    if not isinstance(t, tuple) or not t:
        return str(t)
    if depth > 6:
        return "…"
    k = t[0]
    d = depth + 1
    if k == "const":
        return repr(t[1])
    if k in ("param", "global"):
        return t[1]
    if k == "attr":
        return f"{tstr(t[1], d)}.{t[2]}"
    if k == "item":
        return f"{tstr(t[1], d)}[{tstr(t[2], d)}]"
    if k == "res":
        return f"<{t[1].split('|')[-1]}>"
    if k == "pure":
        r = tstr(t[2], d) + "." if t[2] is not None else ""
        return f"{r}{t[1]}({', '.join(tstr(x, d) for x in t[3])}{', ' if t[4] else ''}{', '.join(f'{a}={tstr(b, d)}' for a, b in t[4])})"
    if k in ("elem", "key", "val", "idx"):
        return f"{k}({tstr(t[1], d)})"
    if k == "exc":
        return f"exc[{t[2]}]"
    if k in ("list", "tuple", "set", "dict", "copy", "inst"):
        return f"{k}{{{', '.join(tstr(x, d) for x in t[1])}}}"
    if k == "e":
        return tstr(t[1], d)
    if k == "kv":
        return f"{tstr(t[1], d)}:{tstr(t[2], d)}"
    if k == "spread":
        return f"*{tstr(t[1], d)}"
    if k == "clos":
        return f"fn<{t[1]}>"
    return "(" + " ".join(tstr(x, d) if isinstance(x, tuple) else str(x) for x in t) + ")"


def subterms(t):
    """All subterms of a frozen term."""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def mentions(t, sub):
    return any(s == sub for s in subterms(t))


class St:
    __slots__ = ("frames", "heap", "attrs", "trace", "facts", "counts", "loops", "cur")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.attrs = {}
        self.trace = ()
        self.facts = {}
        self.counts = {}
        self.loops = ()
        self.cur = None

    def fork(self):
        s = St()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.attrs = dict(self.attrs)
        s.trace = self.trace
        s.facts = dict(self.facts)
        s.counts = dict(self.counts)
        s.loops = self.loops
        s.cur = self.cur
        return s

    def count(self, k):
        n = self.counts.get(k, 0)
        self.counts[k] = n + 1
        return n

    def key(self, value=None):
        frames = tuple((k, tuple(sorted(v.items(), key=lambda x: x[0]))) for k, v in sorted(self.frames.items()))
        live = set()
        todo = [frames, value] if value is not None else [frames]
        attrs_by_base = {}
        for (b, n), v in self.attrs.items():
            attrs_by_base.setdefault(b, []).append((n, v))
        fixed_attrs = []
        for b, lst in attrs_by_base.items():
            if b[0] != "obj":
                for n, v in lst:
                    fixed_attrs.append((b, n, v))
                    todo.append(v)
        while todo:
            t = todo.pop()
            if not isinstance(t, tuple):
                continue
            if len(t) == 2 and t[0] == "obj" and isinstance(t[1], str):
                if t[1] not in live:
                    live.add(t[1])
                    if t[1] in self.heap:
                        todo.append(self.heap[t[1]][1])
                    for n, v in attrs_by_base.get(t, ()):
                        todo.append(v)
            else:
                todo.extend(x for x in t if isinstance(x, tuple))
        heap = tuple(sorted(((o, self.heap[o]) for o in live if o in self.heap), key=lambda x: x[0]))
        at = tuple(sorted(((b, n, v) for o in live for b in (("obj", o),) for n, v in attrs_by_base.get(b, ())), key=repr))
        return (
            frames,
            heap,
            at + tuple(sorted(fixed_attrs, key=repr)),
            tuple((e.uid, e.outcome) for e in self.trace),
            self.loops,
            self.cur,
        )


class HObj(tuple):
    """(kind, elems, cls)"""


class Path:
    def __init__(self, kind, value, st, interp):
        self.kind = kind  # return | raise
        self.value = value
        self.trace = st.trace
        self.facts = st.facts
        self.st = st
        self.interp = interp

    def events(self, name=None, kind=None):
        return [e for e in self.trace if (name is None or e.name == name) and (kind is None or e.kind == kind)]

    def ev(self, uid):
        return self.interp.registry.get(uid)

    def has(self, uid):
        return any(e.uid == uid for e in self.trace)

    def final(self, base, attr):
        """Value of base.attr when the path ends (the symbolic attribute when it was never assigned)."""
        v = self.st.attrs.get((base, attr))
        return ("attr", base, attr) if v is None else self.interp.freeze(v, self.st)

    def invoke(self, clos, args=(), kwargs=None, spreads=(), **over):
        """Abstract paths of calling a closure (or bound method, partial, ...) in the state this path ends in: captured variables have their
        final values, as late binding has it.  The traces hold only the events of the call."""
        it = self.interp
        saved = it.o, it.stack, it.hstack, it.exc_stack, it.after
        it.o = it.o.but(**over) if over else it.o
        f = clos
        while f[0] == "partial":
            f = f[1]
        kw = dict(kwargs or {})
        if f[0] == "clos":
            fn = it.clos[f[1]]
            posonly = {p.arg for p in fn.node.args.posonlyargs}
            for k, v in f[3]:
                if k not in posonly:
                    kw.setdefault(k, v)
            base = fn.parent
            it.inlined.add(fn.qual)
        else:
            base = saved[1][0] if saved[1] else None
        it.stack, it.hstack, it.exc_stack, it.after = [base] if base is not None else [], [], [], frozenset()
        try:
            st = self.st.fork()
            st.trace = ()
            st.loops = ()
            X = []
            node = ast.parse("0").body[0].value
            if f[0] == "clos":
                st.cur = f[2]
            outs = it.call_value(clos, tuple(args), kw, tuple(spreads), st, X, node, False, "invoked")
            return [Path("return", it.freeze(v, s), s, it) for v, s in outs] + [Path("raise" if e[2] != "$diverge" else "diverge", e, s, it) for e, s in X]
        finally:
            it.o, it.stack, it.hstack, it.exc_stack, it.after = saved

    def describe(self):
        f = "; ".join(f"{fact_str(k)}={v}" for k, v in self.facts.items())
        return f"[{f}] " + " -> ".join(repr(e) for e in self.trace) + f" => {self.kind} {tstr(self.value)}"


def fact_str(k):
    return k[0] + "(" + ", ".join(tstr(x) for x in k[1:]) + ")"


class Opts:
    def __init__(self, inline_modules=(), opaque=(), inline=None, unroll=1, raises="all", max_paths=6000, depth=6,
                 pure=(), base_exc=False, keep_logging=False, types=None, bind=None, inline_ctor=(), record_pure=(),
                 keep=None, ignore=(), keyfacts=None, keyev=None, recursion=0, breaks=False, exact_is=False, assume=None, fields_of=None, known_limit=6, attrs=None, returns=None):
        self.attrs = attrs or {}  # attribute values taken to hold at entry: {(object, name): value}
        self.returns = returns  # event -> value of an opaque call (None: unknown)
        self.known_limit = known_limit  # loops over that many known elements are unrolled exactly
        self.assume = assume or {}  # facts taken to hold at entry
        self.fields_of = fields_of  # callable(class)->[field names]: lets dataclasses.fields/asdict of self be enumerated
        self.exact_is = exact_is  # tell `x is True` from the truth of x
        self.breaks = breaks  # record leaving a loop early as an event
        self.recursion = recursion
        self.keyev = keyev  # callable(event)->bool: events whose key facts keep states apart at joins
        self.keyfacts = keyfacts  # callable(fact key)->bool: facts that keep states apart at joins
        self.inline_modules = set(inline_modules)
        self.opaque = set(opaque)
        self.inline = inline
        self.unroll = unroll
        self.raises = raises  # 'all' | 'none' | callable(ev)->bool
        self.max_paths = max_paths
        self.depth = depth
        self.pure = set(pure)
        self.base_exc = base_exc
        self.keep_logging = keep_logging
        self.types = types or {}
        self.bind = bind or {}
        self.inline_ctor = set(inline_ctor)
        self.record_pure = set(record_pure)
        self.keep = keep  # callable(ev)->bool: which opaque events are recorded (and may raise); None = all
        self.ignore = set(ignore)  # call names treated as effect-free and non-raising

    def but(self, **kw):
        o = Opts.__new__(Opts)
        o.__dict__.update(self.__dict__)
        for k, v in kw.items():
            setattr(o, k, set(v) if k in ("inline_modules", "opaque", "pure", "inline_ctor", "record_pure", "ignore") else v)
        return o


class Interp:
    def __init__(self, ix, opts):
        self.ix = ix
        self.o = opts
        self.clos = {}
        self.stack = []  # Func stack
        self.hstack = []  # active handler type lists
        self.types = dict(opts.types)
        self.steps = 0
        self.inlined = set()
        self.exc_stack = []
        self.globals_assigned = {}
        self.after = frozenset()
        self.registry = {}

    # ------------------------------------------------------------------ entry
    def run(self, func, self_cls=None, bind=None, cls_term=None):
        self.ix.consulted.add(func.module.name)
        st = St()
        st.facts.update(self.o.assume)
        st.attrs.update({k: self.thaw(v, f"{k[1]}@{k[0]}", st) for k, v in self.o.attrs.items()})
        fid = "f0"
        env = st.frames[fid] = {}
        st.cur = fid
        a = func.node.args
        allp = a.posonlyargs + a.args + a.kwonlyargs
        bind = dict(self.o.bind, **(bind or {}))
        for i, p in enumerate(allp):
            if i == 0 and func.cls is not None and not func.is_static:
                if func.is_classmethod:
                    env[p.arg] = cls_term or ("global", (self_cls or func.cls).qual)
                else:
                    env[p.arg] = ("param", "self")
                    self.types[("param", "self")] = self_cls or func.cls
                continue
            env[p.arg] = self.thaw(bind.get(p.arg, ("param", p.arg)), p.arg, st)
            self._type_from_ann(env[p.arg], p.annotation, func.module)
        if a.vararg:
            env[a.vararg.arg] = self.thaw(bind.get(a.vararg.arg, ("param", "*" + a.vararg.arg)), a.vararg.arg, st)
        if a.kwarg:
            env[a.kwarg.arg] = self.thaw(bind.get(a.kwarg.arg, ("param", "**" + a.kwarg.arg)), a.kwarg.arg, st)
        self.stack = [func]
        outs = self.block(func.node.body if isinstance(func.node.body, list) else [ast.Return(func.node.body)], st, fid, func)
        paths = []
        for k, v, s in outs:
            if k in ("next", "diverge"):
                paths.append(Path("return" if k == "next" else "diverge", NONE, s, self))
            elif k == "return":
                paths.append(Path("return", self.freeze(v, s), s, self))
            elif k == "raise":
                paths.append(Path("raise", v, s, self))
            else:
                raise AnalysisBroken(f"stray {k} in {func.qual}")
        return paths

    def thaw(self, t, name, st):
        """A bound value ("known", kind, terms) becomes a container with exactly these elements."""
        if t[0] != "known":
            return t
        oid = f"{t[1]}|bind:{name}"
        if t[1] == "dict":
            st.heap[oid] = ("dict", tuple(("kv", k, self.thaw(v, f"{name}.{i}", st), ("L", ())) for i, (k, v) in enumerate(t[2])), None)
        else:
            st.heap[oid] = (t[1], tuple(("e", self.thaw(x, f"{name}.{i}", st), ("L", ())) for i, x in enumerate(t[2])), None)
        return ("obj", oid)

    def _type_from_ann(self, term, ann, module):
        if ann is None:
            return
        c = self.ann_class(ann, module)
        if c is not None:
            self.types.setdefault(term, c)

    def ann_class(self, ann, module):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript):
            d = dotted(ann.value)
            if d and d.split(".")[-1] == "Optional":
                return self.ann_class(ann.slice, module)
            return None
        if isinstance(ann, ast.BinOp):
            return self.ann_class(ann.left, module)
        d = dotted(ann)
        if d:
            r = self.ix.resolve_name(module, d)
            if isinstance(r, Cls):
                return r
        return None

    # ------------------------------------------------------------------ helpers
    def tick(self, n=1):
        self.steps += n
        if self.steps > 4_000_000:
            raise AnalysisBroken(f"step budget exceeded in {self.stack[0].qual}")

    def merge(self, outs):
        if len(outs) < 2:
            return outs
        if len(outs) > self.o.max_paths:
            raise AnalysisBroken(f"path budget exceeded ({len(outs)}) in {self.stack[0].qual} / {self.stack[-1].qual}")
        groups = {}
        order = []
        for k, v, s in outs:
            key = (k, v, s.key(v))
            if self.o.keyfacts is not None:
                key += (frozenset((a, b) for a, b in s.facts.items() if self.o.keyfacts(a)),)
                if self.o.keyev is not None:
                    key += (tuple(frozenset((a, b) for a, b in e.nfacts.items() if self.o.keyfacts(a)) for e in s.trace if self.o.keyev(e)),)
            if key in groups:
                groups[key].append(s)
            else:
                groups[key] = [s]
                order.append((k, v, key))
        res = []
        for k, v, key in order:
            g = groups[key]
            s = g[0]
            if len(g) > 1:
                f = {}
                for kk, vv in s.facts.items():
                    if all(x.facts.get(kk, "∅") == vv for x in g[1:]):
                        f[kk] = vv
                s.facts = f
                tr = list(s.trace)
                for i, e in enumerate(tr):
                    others = [x.trace[i].nfacts for x in g[1:] if x.trace[i] is not e]
                    if others:
                        nf = {kk: vv for kk, vv in e.nfacts.items() if all(o.get(kk, "∅") == vv for o in others)}
                        if len(nf) != len(e.nfacts):
                            e2 = Ev(**{q: getattr(e, q) for q in Ev.__slots__})
                            e2.nfacts = nf
                            tr[i] = e2
                s.trace = tuple(tr)
                c = dict(s.counts)
                for x in g[1:]:
                    for kk, vv in x.counts.items():
                        c[kk] = max(c.get(kk, 0), vv)
                s.counts = c
            res.append((k, v, s))
        return res

    def alloc(self, st, node, kind, elems, cls=None):
        site = f"{self.stack[-1].module.name}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}"
        n = st.count(("alloc", site, kind))
        oid = f"{kind}|{site}#{n}"
        if kind == "set":
            elems = tuple(dict.fromkeys(elems))  # the same value twice is one element
        st.heap[oid] = (kind, tuple(elems), cls)
        return ("obj", oid)

    def freeze(self, t, st, seen=()):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "obj":
            if t[1] in seen or t[1] not in st.heap:
                return ("ref", t[1])
            kind, elems, cls = st.heap[t[1]]
            seen = seen + (t[1],)
            if kind == "inst":
                at = tuple(sorted((("kv", const(k[1]), self.freeze(v, st, seen)) for k, v in st.attrs.items() if k[0] == t), key=repr))
                return ("inst", at + tuple(self.freeze(e, st, seen) for e in elems), cls, t[1])
            return (kind, tuple(self.freeze(e, st, seen) for e in elems))
        if t[0] in ("const", "param", "global", "res", "exc"):
            return t
        return tuple(self.freeze(x, st, seen) if isinstance(x, tuple) else x for x in t)

    def event(self, st, kind, name, node, recv=None, args=(), kwargs=None, qual=None, bound=None, extra=None, awaited=False, spreads=()):
        fn = self.stack[-1]
        site = f"{fn.module.name}:{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}:{kind}:{name}"
        n = st.count(site)
        uid = f"{site}#{n}|{name}"
        fz = lambda t: self.freeze(t, st)
        e = Ev(uid=uid, kind=kind, name=name, qual=qual, recv=fz(recv) if recv is not None else None,
               args=tuple(fz(x) for x in args), kwargs={k: fz(v) for k, v in (kwargs or {}).items()},
               bound={k: fz(v) for k, v in bound.items()} if bound is not None else None, outcome="ok", func=fn.qual,
               line=getattr(node, "lineno", 0), rel=fn.module.rel, loops=st.loops, awaited=awaited,
               handlers=tuple(self.hstack), extra=extra, spreads=tuple(fz(x) for x in spreads), raw_recv=recv,
               raw_args=tuple(args), raw_kwargs=dict(kwargs or {}), nfacts=dict(st.facts))
        self.registry[uid] = e
        if kind in ("caught", "swallow", "raise") or self.kept(e):
            st.trace = st.trace + (e,)
            e.kept = True
        return e

    def kept(self, e):
        return self.o.keep is None or bool(self.o.keep(e))

    # ------------------------------------------------------------------ truth
    def lookup_fact(self, st, key):
        f = st.facts
        if key in f:
            return f[key]
        k = key[0]
        if k == "truthy":
            x = key[1]
            if f.get(("isnone", x)) is True:
                return False
            if x[0] == "exc" or self.is_sentinel(x):
                return True
        elif k == "in" and is_const(key[1]) and is_const(key[2]) and isinstance(key[1][1], str) and isinstance(key[2][1], str):
            return key[1][1] in key[2][1]
        elif k == "isinstance":
            if self.is_sentinel(key[1]) or any(kk[0] == "eq" and vv and key[1] in kk[1:3] and (self.is_sentinel(kk[1]) or self.is_sentinel(kk[2])) for kk, vv in f.items()):
                return key[2] == ("builtin", "object")
        elif k == "isnone":
            if self.is_sentinel(key[1]):
                return False
            if f.get(("truthy", key[1])) is True:
                return False
            for kk, vv in f.items():
                if kk[0] == "eq" and vv and kk[1] == key[1] and isenumlike(kk[2]):
                    return kk[2] == NONE
                if kk[0] == "isinstance" and vv and kk[1] == key[1]:
                    return False
        elif k == "eq":
            x, c = key[1], key[2]
            if (isenumlike(c)):
                for kk, vv in f.items():
                    if kk[0] == "eq" and vv and kk[1] == x and kk[2] != c and isenumlike(kk[2]):
                        return False
                if c != NONE and f.get(("isnone", x)) is True:
                    return False
        return None

    def builtin_classes(self, t, st):
        """The built-in classes a class (or tuple of classes) given to isinstance stands for, when all of them are that."""
        known = {"str": str, "int": int, "float": float, "bool": bool, "bytes": bytes, "list": list, "dict": dict, "tuple": tuple, "set": set, "frozenset": frozenset, "object": object, "complex": complex}
        if t[0] in ("builtin", "global") and t[1] in known:
            return (known[t[1]],)
        els = st.heap[t[1]][1] if t[0] == "obj" and st.heap[t[1]][0] in ("tuple", "list") else t[1] if t[0] == "tuple" else None
        if els is None or not all(x[0] == "e" and not x[-1][1] for x in els):
            return None
        out = [self.builtin_classes(x[1], st) for x in els]
        return None if None in out else tuple(c for o in out for c in o)

    def is_sentinel(self, t):
        """A module-level name bound once, to object(): a value with no type but object."""
        if t[0] != "global":
            return False
        c = self.__dict__.setdefault("_sentinels", {})
        if t not in c:
            m, _, n = t[1].rpartition(".")
            m = self.ix.modules.get(m)
            vs = m.assigns.get(n, []) if m is not None else []
            c[t] = len(vs) == 1 and isinstance(vs[0], ast.Call) and isinstance(vs[0].func, ast.Name) and vs[0].func.id == "object" and not vs[0].args and not self._global_mutated(m, n)
        return c[t]

    def known_truth(self, st, t):
        k = t[0]
        if k == "const":
            return bool(t[1])
        if k == "obj":
            kind, elems, cls = st.heap[t[1]]
            if kind == "inst":
                return True
            if not elems:
                return False
            # a record added by a statement executed on this path is definitely there; a comprehension's may stand for none
            if any(e[0] in ("e", "kv") and isinstance(e[-1], tuple) and e[-1] and e[-1][0] == "L" and (len(e[-1]) == 2 or not e[-1][1] and not e[-1][2]) for e in elems):
                return True
            return None
        if k in ("exc", "clos", "partial", "func"):
            return True
        if k == "pure" and t[1] == "sorted" and t[2] is None and t[3] and t[3][0][0] == "obj":
            return self.known_truth(st, t[3][0])
        if k == "op" and t[1] == "not":
            v = self.known_truth(st, t[2])
            return None if v is None else (not v)
        return None

    def decide(self, st, key):
        """Fork on a fact key -> [(bool, st)]"""
        v = self.lookup_fact(st, key)
        if v is not None:
            return [(v, st)]
        s2 = st.fork()
        st.facts[key] = True
        s2.facts[key] = False
        return [(True, st), (False, s2)]

    def truth(self, t, st):
        v = self.known_truth(st, t)
        if v is not None:
            return [(v, st)]
        if t[0] == "cond":  # deferred condition term
            return self.decide_cond(t, st)
        ft = self.freeze(t, st)
        # pure comparisons carried as values
        if ft[0] == "pure" and ft[1] == "bool" and len(ft[3]) == 1:
            return self.truth(ft[3][0], st)
        if ft[0] == "pure" and ft[1] in ("isinstance", "hasattr", "issubclass", "callable"):
            return self.decide(st, (ft[1],) + ft[3])
        if ft[0] == "op" and ft[1] == "BitOr" and len(ft) == 4:  # bool/int/set/dict union: true iff either side is
            out = []
            for v, s in self.truth(ft[2], st):
                if v:
                    out.append((True, s))
                else:
                    out += self.truth(ft[3], s)
            return out
        return self.decide(st, ("truthy", ft))

    def decide_cond(self, t, st):
        _, op, a, b = t
        return self.compare(op, a, b, st)

    def compare_grown(self, op, a, b, st):
        """Membership in a container that the enclosing loop fills: an earlier iteration may have put the value there."""
        if not (b[0] == "obj" and isinstance(op, (ast.In, ast.NotIn))):
            return self.compare(self.OPS[type(op)], a, b, st)
        out = []
        for v, s in self._compare("in", a, b, st):
            if v:
                out.append((True, s))
            else:
                out += self.decide(s, ("in", self.freeze(a, s), ("grown", self.freeze(b, s))))
        return [(v if isinstance(op, ast.In) else not v, s) for v, s in out]

    GROW = {"append", "add", "extend", "insert", "update", "setdefault", "appendleft"}

    def mark_grown(self, loop):
        if getattr(loop, "_marked", False):
            return
        loop._marked = True
        grown, made, tests = set(), set(), []
        for st in loop.body:
            for n in ast.walk(st):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in self.GROW:
                    grown.add(ast.unparse(n.func.value))
                elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(t, ast.Subscript):
                            grown.add(ast.unparse(t.value))
                        made.add(ast.unparse(t))
                elif isinstance(n, ast.AugAssign):
                    grown.add(ast.unparse(n.target))
                elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
                    tests.append(n)
        for n in tests:
            t = ast.unparse(n.comparators[0])
            t = t[:-7] if t.endswith(".keys()") else t
            if t in grown and t not in made:
                n._grown = True

    def compare(self, op, a, b, st):
        """-> [(bool, st)]"""
        neg = False
        if op in ("is not", "!=", "not in"):
            neg = True
            op = {"is not": "is", "!=": "==", "not in": "in"}[op]
        res = self._compare(op, a, b, st)
        return [(not v if neg else v, s) for v, s in res]

    def _compare(self, op, a, b, st):
        if op in ("is", "=="):
            if b == NONE or a == NONE:
                x = a if b == NONE else b
                if x == NONE:
                    return [(True, st)]
                if x[0] in ("const", "exc", "clos", "partial", "fstr", "obj", "op"):
                    return [(False, st)]
                return self.decide(st, ("isnone", self.freeze(x, st)))
            if is_const(a) and is_const(b):
                return [((a[1] is b[1] or a[1] == b[1]) if op == "==" else (a == b), st)]
            if a == b and a[0] != "unknown":
                return [(True, st)]
            if op == "is" and a[0] == b[0] == "sym" and (("is", a, b) in st.facts or ("is", b, a) in st.facts):
                return [(st.facts.get(("is", a, b), st.facts.get(("is", b, a))), st)]
            for x, c in ((a, b), (b, a)):
                if c in (TRUE, FALSE) and x[0] != "const":
                    if self.o.exact_is and op == "is" and x[0] in ("attr", "param", "item", "val", "elem"):
                        return self.decide(st, ("is", self.freeze(x, st), c))
                    r = self.truth(x, st) if op == "is" else self.truth(x, st)
                    return [((v if c == TRUE else not v), s) for v, s in r]
            # len(x) == 0
            for x, c in ((a, b), (b, a)):
                if x[0] == "pure" and x[1] == "len" and c == const(0):
                    return [(not v, s) for v, s in self.truth(x[3][0], st)]
            fa, fb = self.freeze(a, st), self.freeze(b, st)
            if isenumlike(fa) and not isenumlike(fb):
                fa, fb = fb, fa
            elif not isenumlike(fb) and repr(fb) < repr(fa):
                fa, fb = fb, fa
            if fa != fb and isenumlike(fa) and isenumlike(fb) and (self.is_sentinel(fa) or self.is_sentinel(fb)):
                return [(False, st)]
            if isenumlike(fa) and isenumlike(fb) and fa != fb and fa[0] == "global" and fb[0] == "global":
                if fa[1].rsplit(".", 1)[0] == fb[1].rsplit(".", 1)[0]:
                    return [(False, st)]
            return self.decide(st, ("eq", fa, fb))
        if op == "in":
            bb = b
            if bb[0] == "pure" and bb[1] == "keys" and bb[2] is not None and bb[2][0] == "obj":
                bb = bb[2]
            if bb[0] == "obj" and st.heap[bb[1]][0] in ("list", "tuple", "set"):
                elems = st.heap[bb[1]][1]
                if all(e[0] == "e" and len(e) == 3 and not e[2][1] for e in elems) and len(elems) <= 8:
                    outs = []
                    cur = [st]
                    for e in elems:
                        nxt = []
                        for s in cur:
                            for v, s2 in self._compare("==", a, e[1], s):
                                if v:
                                    outs.append((True, s2))
                                else:
                                    nxt.append(s2)
                        cur = nxt
                    return outs + [(False, s) for s in cur]
            if bb[0] == "obj" and st.heap[bb[1]][0] == "dict":
                elems = st.heap[bb[1]][1]
                if not elems:
                    return [(False, st)]
                for e in elems:
                    if e[0] == "kv" and e[1] == a and not e[3][1]:
                        return [(True, st)]
                if is_const(a) and all(e[0] == "kv" and is_const(e[1]) for e in elems) and all(e[1][1] != a[1] for e in elems):
                    return [(False, st)]
                if a[0] != "obj" and all(e[0] == "kv" and (st.facts.get(("eq", a, e[1])) is False or st.facts.get(("eq", e[1], a)) is False) for e in elems):
                    return [(False, st)]
            if bb[0] in ("set", "list", "tuple", "dict") and is_const(a) and len(bb) == 2 and isinstance(bb[1], tuple) and all(e[0] in ("e", "kv") and is_const(e[1]) and not e[-1][1] for e in bb[1]):
                return [(any(e[1] == a for e in bb[1]), st)]
            if bb[0] == "pure" and bb[1] == "keys" and bb[2] is not None:
                bb = bb[2]
            fa, fb = self.freeze(a, st), self.freeze(bb, st)
            if fa == ("key", fb):
                return [(True, st)]
            return self.decide(st, ("in", fa, fb))
        # ordering
        if is_const(a) and is_const(b):
            try:
                return [({"<": a[1] < b[1], ">": a[1] > b[1], "<=": a[1] <= b[1], ">=": a[1] >= b[1]}[op], st)]
            except TypeError:
                pass
        x, y = self.known_set(a, st), self.known_set(b, st)
        if x is not None and y is not None and self.distinct(x + y, st):
            x, y = set(x), set(y)
            return [({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op], st)]
        fa, fb = self.freeze(a, st), self.freeze(b, st)
        if op in (">", ">="):
            op, fa, fb = {">": "<", ">=": "<="}[op], fb, fa
        # 0 < len(x), 1 <= len(x)
        if fb[0] == "pure" and fb[1] == "len" and ((op == "<" and fa == const(0)) or (op == "<=" and fa == const(1))):
            return self.truth_frozen(fb[3][0], st)
        if fa[0] == "pure" and fa[1] == "len" and ((op == "<" and fb == const(1)) or (op == "<=" and fb == const(0))):
            return [(not v, s) for v, s in self.truth_frozen(fa[3][0], st)]
        if op == "<=":
            return [(not v, s) for v, s in self.decide(st, ("lt", fb, fa))]
        return self.decide(st, ("lt", fa, fb))

    def truth_frozen(self, t, st):
        if t[0] in ("list", "dict", "set", "tuple", "copy"):
            if not t[1]:
                return [(False, st)]
            if any(e[0] in ("e", "kv") and not e[-1][1] for e in t[1]):
                return [(True, st)]
        return self.decide(st, ("truthy", t))

    OPS = {ast.Is: "is", ast.IsNot: "is not", ast.Eq: "==", ast.NotEq: "!=", ast.In: "in", ast.NotIn: "not in",
           ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}

    def test(self, e, st, X):
        """Evaluate as a branch condition -> [(bool, st)]"""
        self.tick()
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not v, s) for v, s in self.test(e.operand, st, X)]
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            cur = [st]
            out = []
            for i, v in enumerate(e.values):
                nxt = []
                for s in cur:
                    for b, s2 in self.test(v, s, X):
                        if b == is_and:
                            nxt.append(s2)
                        else:
                            out.append((not is_and, s2))
                cur = nxt
            return out + [(is_and, s) for s in cur]
        if isinstance(e, ast.Compare):
            outs = []
            lefts = [(l, s) for l, s in self.ev(e.left, st, X)]
            cur = [(l, s) for l, s in lefts]
            for op, c in zip(e.ops, e.comparators):
                nxt = []
                for l, s in cur:
                    for r, s2 in self.ev(c, s, X):
                        for b, s3 in self.compare(self.OPS[type(op)], l, r, s2) if not getattr(e, "_grown", False) or not s2.loops or isinstance(op, (ast.Eq, ast.Is)) else self.compare_grown(op, l, r, s2):
                            if b:
                                nxt.append((r, s3))
                            else:
                                outs.append((False, s3))
                cur = nxt
            return outs + [(True, s) for _, s in cur]
        if isinstance(e, ast.NamedExpr):
            out = []
            for v, s in self.ev(e, st, X):
                out += self.truth(v, s)
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 and isinstance(e.args[0], (ast.List, ast.Tuple)) and not any(isinstance(x, ast.Starred) for x in e.args[0].elts):
            return self.test(ast.BoolOp(op=ast.Or() if e.func.id == "any" else ast.And(), values=e.args[0].elts), st, X) if e.args[0].elts else [(e.func.id == "all", st)]
        out = []
        for v, s in self.ev(e, st, X):
            out += self.truth(v, s)
        return out

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, X):
        """-> [(value, st)], exceptions appended to X as (exc, st)"""
        self.tick()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(("unknown", type(e).__name__), st)]
        return m(e, st, X)

    def evs(self, es, st, X):
        cur = [((), st)]
        for e in es:
            nxt = []
            for vals, s in cur:
                if isinstance(e, ast.Starred):
                    for v, s2 in self.ev(e.value, s, X):
                        nxt.append((vals + (("star", v),), s2))
                else:
                    for v, s2 in self.ev(e, s, X):
                        nxt.append((vals + (v,), s2))
            cur = nxt
        return cur

    def e_Constant(self, e, st, X):
        return [(const(e.value) if not isinstance(e.value, (bytes,)) else ("const", e.value, "bytes"), st)]

    def e_Name(self, e, st, X):
        return [(self.name(e.id, st), st)]

    def name(self, n, st):
        fid = st.cur
        while fid is not None:
            env = st.frames.get(fid)
            if env is None:
                break
            if n in env:
                return env[n]
            fid = self.parent_of.get(fid) if hasattr(self, "parent_of") else None
        fn = self.stack[-1]
        if n in self.locals_of(fn):
            return ("unbound", n)
        return self.global_name(fn.module, n)

    _locals_cache = {}

    def locals_of(self, fn):
        r = self._locals_cache.get(id(fn.node))
        if r is None or r[0] is not fn.node:
            names, skip = set(), set()
            stack = list(fn.node.body) if isinstance(fn.node.body, list) else []
            while stack:
                x = stack.pop()
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    skip.update(x.names)
                elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    names.add(x.name)
                    continue
                if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                stack.extend(ast.iter_child_nodes(x))
            r = self._locals_cache[id(fn.node)] = (fn.node, names - skip)
        return r[1]

    def global_name(self, module, n):
        if n in module.functions or n in module.classes:
            return ("global", f"{module.name}.{n}")
        if n in module.assigns:
            vs = module.assigns[n]
            if n in module.imports and len(vs) == 1 and isinstance(vs[0], ast.Constant):  # `try: import x / except ImportError: x = None`
                return ("global", f"{module.name}.{n}")
            if len(vs) == 1 and isinstance(vs[0], ast.Constant) and not self._global_mutated(module, n):
                return const(vs[0].value)
            if len(vs) == 1:
                d = dotted(vs[0])
                if d and not self._global_mutated(module, n):
                    r = self.ix.resolve_name(module, d)
                    if not isinstance(r, str):
                        return ("global", self.ix.qual(r))
            return ("global", f"{module.name}.{n}")
        if n in module.imports:
            r = self.ix.resolve(module.imports[n])
            q = self.ix.qual(r)
            base = self.ix.resolve(q.rpartition(".")[0]) if isinstance(r, str) and "." in q else None
            if isinstance(base, Module) and base is not module and q.rpartition(".")[2] in base.assigns and q.rpartition(".")[2] not in base.imports:
                return self.global_name(base, q.rpartition(".")[2])
            return ("global", q)
        return ("global", n)

    def _global_mutated(self, module, n):
        key = module.name
        if key not in self.globals_assigned:
            s = set()
            for x in ast.walk(module.tree):
                if isinstance(x, ast.Global):
                    s.update(x.names)
            self.globals_assigned[key] = s
        return n in self.globals_assigned[key]

    def e_Attribute(self, e, st, X):
        out = []
        for b, s in self.ev(e.value, st, X):
            out += self.getattr(b, e.attr, s, X, e)
        return out

    def getattr(self, b, name, st, X, node):
        if (b, name) in st.attrs:
            return [(st.attrs[(b, name)], st)]
        if b[0] == "global":
            r = self.ix.resolve(b[1] + "." + name)
            q = self.ix.qual(r)
            base = self.ix.resolve(b[1])
            if isinstance(base, Module) and name in base.assigns:
                return [(self.global_name(base, name), st)]
            if isinstance(base, Cls):
                fa = self.ix.find_attr(base, name)
                if fa is not None and isinstance(fa[1], ast.Constant) and not any(
                    (x if isinstance(x, str) else x.qual).split(".")[-1] in ("Enum", "IntEnum", "StrEnum") for x in self.ix.mro(base)
                ):
                    return [(const(fa[1].value), st)]
            return [(("global", q), st)]
        c = self.type_of(b, st)
        if c is not None:
            f = self.ix.find_method(c, name)
            if f is not None and f.is_property and self.want_inline(f):
                return self.inline(f, b, (), {}, (), st, X, node, self_cls=c)
            if f is None:
                fa = self.ix.find_attr(c, name)
                if fa is not None and isinstance(fa[1], ast.Constant) and not self._self_assigned(c, name) and (b[0] == "param" and b[1] == "self"):
                    return [(const(fa[1].value), st)]
        if b[0] == "super":
            return [(("attr", b, name), st)]
        return [(("attr", self.canon(b, st), name), st)]

    def _self_assigned(self, c, name):
        for k in self.ix.mro(c):
            if isinstance(k, Cls):
                for x in ast.walk(k.node):
                    if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, (ast.Store, ast.Del)):
                        return True
                for s in k.node.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                        return True
        return False

    def canon(self, b, st):
        return b

    def type_of(self, b, st):
        if b in self.types:
            return self.types[b]
        if b[0] == "obj":
            kind, elems, cls = st.heap[b[1]]
            if cls:
                r = self.ix.resolve(cls)
                return r if isinstance(r, Cls) else None
        if b[0] == "attr":
            bc = self.type_of(b[1], st)
            if bc is not None:
                c = self.attr_type(bc, b[2])
                if c is not None:
                    self.types[b] = c
                    return c
        return None

    def attr_type(self, c, name):
        for k in self.ix.mro(c):
            if not isinstance(k, Cls):
                continue
            for s in k.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                    return self.ann_class(s.annotation, k.module)
            f = k.methods.get(name)
            if f is not None and f.is_property and f.node.returns is not None:
                return self.ann_class(f.node.returns, k.module)
            init = k.methods.get("__init__")
            if init is None:
                continue
            anns = {p.arg: p.annotation for p in init.node.args.posonlyargs + init.node.args.args + init.node.args.kwonlyargs}
            for x in ast.walk(init.node):
                tgt = val = None
                if isinstance(x, ast.Assign) and len(x.targets) == 1:
                    tgt, val = x.targets[0], x.value
                elif isinstance(x, ast.AnnAssign):
                    tgt, val = x.target, x.value
                    if isinstance(tgt, ast.Attribute) and tgt.attr == name:
                        return self.ann_class(x.annotation, k.module)
                if isinstance(tgt, ast.Attribute) and tgt.attr == name and isinstance(tgt.value, ast.Name):
                    if isinstance(val, (ast.IfExp, ast.BoolOp)):  # the parameter, or a default for it
                        alts = [val.body, val.orelse] if isinstance(val, ast.IfExp) else val.values
                        val = next((a for a in alts if isinstance(a, ast.Name) and anns.get(a.id) is not None), val)
                    if isinstance(val, ast.Name) and anns.get(val.id) is not None:
                        return self.ann_class(anns[val.id], k.module)
                    if isinstance(val, ast.Call):
                        d = dotted(val.func)
                        if d:
                            r = self.ix.resolve_name(k.module, d)
                            if isinstance(r, Cls):
                                return r
                            if isinstance(r, Func) and r.node.returns is not None:
                                rc = self.ann_class(r.node.returns, r.module)
                                if rc is not None:
                                    return rc
                            if isinstance(r, Func) and r.is_classmethod and r.cls is not None:
                                return r.cls
        return None

    def e_Subscript(self, e, st, X):
        out = []
        for b, s in self.ev(e.value, st, X):
            for k, s2 in self.ev(e.slice, s, X):
                out += self.getitem(b, k, s2, X, e)
        return out

    def e_Slice(self, e, st, X):
        out = []
        for vals, s in self.evs([x for x in (e.lower, e.upper, e.step) if x is not None], st, X):
            it = iter(vals)
            out.append((("slice",) + tuple(next(it) if x is not None else NONE for x in (e.lower, e.upper, e.step)), s))
        return out

    def getitem(self, b, k, st, X, node):
        if b[0] == "obj":
            kind, elems, cls = st.heap[b[1]]
            if kind in ("list", "tuple") and is_const(k) and isinstance(k[1], int):
                if all(x[0] == "e" and not x[2][1] for x in elems):
                    try:
                        return [(elems[k[1]][1], st)]
                    except IndexError:
                        pass
            if kind == "dict":
                for x in reversed(elems):
                    if x[0] == "kv":
                        if x[1] == k:
                            return [(x[2], st)]
                        if not (is_const(x[1]) and is_const(k)):
                            break
                    else:
                        if x[0] == "spread":
                            pass
                        break
                if cls == ("default", "int"):
                    if is_const(k) and all(x[0] == "kv" and is_const(x[1]) for x in elems) and not self.rel_loops(b, st):
                        return [(const(0), st)]
                elif isinstance(cls, tuple) and cls[0] == "default" and k[0] != "slice" and all(x[0] == "kv" and is_const(x[1]) and is_const(k) for x in elems):
                    new = self.alloc(st, node, cls[1], ())
                    st.heap[b[1]] = (kind, tuple(elems) + (("kv", k, new, ("L", self.rel_loops(b, st))),), cls)
                    return [(new, st)]
            if k[0] == "slice" and kind in ("list", "tuple") and all(is_const(x) and (x[1] is None or isinstance(x[1], int)) for x in k[1:]) and all(x[0] == "e" and not x[2][1] for x in elems):
                return [(self.alloc(st, node, kind, tuple(elems)[slice(*(x[1] for x in k[1:]))]), st)]
            if k[0] == "slice" and k[3] == NONE and k[1] == NONE and k[2] == NONE:
                return [(self.alloc(st, node, kind, elems), st)]
        if b[0] == "const" and isinstance(b[1], str) and k[0] == "slice" and all(is_const(x) and (x[1] is None or isinstance(x[1], int)) for x in k[1:]):
            return [(const(b[1][slice(*(x[1] for x in k[1:]))]), st)]
        if b[0] == "const" and is_const(k) and isinstance(b[1], (str, tuple)):
            try:
                return [(const(b[1][k[1]]), st)]
            except Exception:
                pass
        if b[0] == "pure" and b[1] in ("tuple3",) and is_const(k):
            return [(b[3][k[1]], st)]
        fb, fk = self.freeze(b, st), self.freeze(k, st)
        if fk == ("key", fb):
            return [(("val", fb), st)]
        if fk == ("idx", fb):
            return [(("elem", fb), st)]
        res = ("item", b, k) if b[0] != "obj" else ("item", fb, fk)
        if self.catches(("KeyError", "IndexError", "LookupError")):
            key = ("in", fk, fb)
            outs = []
            for v, s in self.decide(st, key):
                if v:
                    outs.append((res, s))
                else:
                    X.append((("exc", f"{self.stack[-1].module.name}:{node.lineno}:keyerror", "KeyError"), s))
            return outs
        return [(res, st)]

    def catches(self, names):
        return any(any(n in h for n in names) for h in self.hstack)

    def _seq(self, e, st, X, kind):
        out = []
        for vals, s in self.evs(e.elts, st, X):
            elems = []
            for v in vals:
                if v[0] == "star":
                    elems += self.spread_elems(v[1], s)
                else:
                    elems.append(("e", v, ("L", s.loops)))
            out.append((self.alloc(s, e, kind, [self._mk(x, s) for x in elems]), s))
        return out

    def _mk(self, x, st):
        if x[0] == "e":
            return ("e", x[1], ("L", ()))
        return x

    def spread_elems(self, v, st):
        if v[0] == "obj" and st.heap[v[1]][0] in ("list", "tuple", "set"):
            return list(st.heap[v[1]][1])
        return [("spread", v, ("L", ()))]

    def e_List(self, e, st, X):
        return self._seq(e, st, X, "list")

    def e_Tuple(self, e, st, X):
        return self._seq(e, st, X, "tuple")

    def e_Set(self, e, st, X):
        return self._seq(e, st, X, "set")

    def e_Dict(self, e, st, X):
        cur = [((), st)]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for els, s in cur:
                if k is None:
                    for d, s2 in self.ev(v, s, X):
                        nxt.append((els + tuple(self.dict_spread(d, s2)), s2))
                else:
                    for kk, s2 in self.ev(k, s, X):
                        for vv, s3 in self.ev(v, s2, X):
                            nxt.append((self.dict_set(els, kk, vv, ()), s3))
            cur = nxt
        return [(self.alloc(s, e, "dict", els), s) for els, s in cur]

    def dict_spread(self, d, st):
        if d[0] == "obj" and st.heap[d[1]][0] == "dict":
            return st.heap[d[1]][1]
        return (("spread", d, ("L", ())),)

    def dict_set(self, els, k, v, loops):
        new = ("kv", k, v, ("L", loops))
        if not loops:
            for i, x in enumerate(els):
                if x[0] == "kv" and x[1] == k and not any(y[0] == "spread" or not is_const(y[1]) for y in els[i + 1:]):
                    return els[:i] + els[i + 1:] + (new,)
        return tuple(els) + (new,)

    def e_JoinedStr(self, e, st, X):
        out = []
        for vals, s in self.evs([v.value if isinstance(v, ast.FormattedValue) else v for v in e.values], st, X):
            vals = tuple(self.freeze(v, s) for v in vals)
            if all(is_const(v) for v in vals):
                try:
                    out.append((const("".join(str(v[1]) for v in vals)), s))
                    continue
                except Exception:
                    pass
            out.append((("fstr",) + vals, s))
        return out

    def e_FormattedValue(self, e, st, X):
        return self.ev(e.value, st, X)

    def e_BinOp(self, e, st, X):
        out = []
        for l, s in self.ev(e.left, st, X):
            for r, s2 in self.ev(e.right, s, X):
                out.append((self.binop(type(e.op).__name__, l, r, s2, e), s2))
        return out

    def binop(self, op, l, r, st, node):
        if is_const(l) and is_const(r) and op in ("Add", "Sub", "Mult"):
            try:
                v = {"Add": lambda: l[1] + r[1], "Sub": lambda: l[1] - r[1], "Mult": lambda: l[1] * r[1]}[op]()
                if not isinstance(v, (str, bytes)) or len(v) < 500:
                    return const(v)
            except Exception:
                pass
        if op in self.SETOPS:
            v = self.set_op(op, l, r, st, node)
            if v is not None:
                return v
        if op == "Add" and (self.is_seq(l, st) or self.is_seq(r, st)):
            kind = st.heap[l[1]][0] if self.is_seq(l, st) else st.heap[r[1]][0]
            return self.alloc(st, node, kind, self.spread_elems(l, st) + self.spread_elems(r, st))
        if op == "BitOr" and (self.is_kind(l, st, "dict") or self.is_kind(r, st, "dict")):
            return self.alloc(st, node, "dict", tuple(self.dict_spread(l, st)) + tuple(self.dict_spread(r, st)))
        if op == "Add" and (l[0] in ("fstr", "const") or r[0] in ("fstr", "const")):
            if (l[0] == "fstr" or r[0] == "fstr" or (l[0] == "const" and isinstance(l[1], str)) or (r[0] == "const" and isinstance(r[1], str))):
                parts = (l[1:] if l[0] == "fstr" else (self.freeze(l, st),)) + (r[1:] if r[0] == "fstr" else (self.freeze(r, st),))
                return ("fstr",) + parts
        return ("op", op, self.freeze(l, st), self.freeze(r, st))

    SETOPS = {"Sub": lambda x, y: [k for k in x if k not in y], "BitAnd": lambda x, y: [k for k in x if k in y], "BitOr": lambda x, y: x + [k for k in y if k not in x],
              "BitXor": lambda x, y: [k for k in x if k not in y] + [k for k in y if k not in x]}
    SETMETHODS = {"difference": "Sub", "intersection": "BitAnd", "union": "BitOr", "symmetric_difference": "BitXor"}

    def known_set(self, t, st, any_iter=False):
        """The elements of a set (or keys view) whose elements are all known constants, or None."""
        if t[0] == "obj" and (st.heap[t[1]][0] == "set" or any_iter) or t[0] == "pure" and t[1] == "keys":
            el = self.iter_elems(t, st)
            if el is not None and (all(is_const(x) for x in el) or self.distinct(el, st)):
                return list(dict.fromkeys(el))
        return None

    def distinct(self, els, st):
        """Elements of which any two different terms are known to be unequal."""
        els = list(dict.fromkeys(els))
        return all(is_const(x) and is_const(y) or st.facts.get(("eq", x, y)) is False or st.facts.get(("eq", y, x)) is False for i, x in enumerate(els) for y in els[:i])

    def set_op(self, op, l, r, st, node, any_iter=False):
        x, y = self.known_set(l, st), self.known_set(r, st, any_iter)
        if x is None or y is None or not self.distinct(x + y, st):
            return None
        return self.alloc(st, node, "set", tuple(("e", k, ("L", ())) for k in self.SETOPS[op](x, y)))

    def is_seq(self, t, st):
        return t[0] == "obj" and st.heap[t[1]][0] in ("list", "tuple")

    def is_kind(self, t, st, kind):
        return t[0] == "obj" and st.heap[t[1]][0] == kind

    def e_UnaryOp(self, e, st, X):
        if isinstance(e.op, ast.Not):
            return self.boolval(e, st, X)
        out = []
        for v, s in self.ev(e.operand, st, X):
            if is_const(v) and isinstance(e.op, ast.USub) and isinstance(v[1], (int, float)):
                out.append((const(-v[1]), s))
            else:
                out.append((("op", type(e.op).__name__, self.freeze(v, s)), s))
        return out

    def boolval(self, e, st, X):
        return [(TRUE if b else FALSE, s) for b, s in self.test(e, st, X)]

    def e_Compare(self, e, st, X):
        return self.boolval(e, st, X)

    def e_BoolOp(self, e, st, X):
        is_and = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        for i, v in enumerate(e.values):
            nxt = []
            last = i == len(e.values) - 1
            for s in cur:
                for val, s2 in self.ev(v, s, X):
                    if last:
                        out.append((val, s2))
                        continue
                    for b, s3 in self.truth(val, s2):
                        if b == is_and:
                            nxt.append(s3)
                        else:
                            out.append((val, s3))
            cur = nxt
        return out

    def e_IfExp(self, e, st, X):
        out = []
        for b, s in self.test(e.test, st, X):
            out += self.ev(e.body if b else e.orelse, s, X)
        return out

    def e_NamedExpr(self, e, st, X):
        out = []
        for v, s in self.ev(e.value, st, X):
            s.frames[s.cur][e.target.id] = v
            out.append((v, s))
        return out

    def e_Starred(self, e, st, X):
        return [(("star", v), s) for v, s in self.ev(e.value, st, X)]

    def e_Lambda(self, e, st, X):
        return [(self.mkclos(e, st), st)]

    def mkclos(self, node, st, extra_defaults=None):
        key = f"{self.stack[-1].module.name}:{node.lineno}:{node.col_offset}:{getattr(node, 'name', 'lambda')}"
        if key not in self.clos:
            f = Func.__new__(Func)
            f.module = self.stack[-1].module
            f.node = node
            f.cls = None
            f.parent = self.stack[-1]
            f.name = getattr(node, "name", "<lambda>")
            f.qual = self.stack[-1].qual + ".<locals>." + f.name
            f.is_async = isinstance(node, ast.AsyncFunctionDef)
            f.decorators = [dotted(d.func if isinstance(d, ast.Call) else d) for d in getattr(node, "decorator_list", [])]
            self.clos[key] = f
        # defaults are bound at definition time
        a = node.args
        defs = {}
        pos = a.posonlyargs + a.args
        X = []
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            r = self.ev(d, st, X)
            if len(r) >= 1:
                defs[p.arg] = r[0][0]
        return ("clos", key, st.cur, tuple(sorted(defs.items())))

    def e_Await(self, e, st, X):
        if isinstance(e.value, ast.Call):
            return self.call(e.value, st, X, awaited=True)
        out = []
        for v, s in self.ev(e.value, st, X):
            ev = self.event(s, "await", "await", e, args=(v,))
            out += self.finish_call(ev, s, X, ("awaited", v))
        return out

    def e_Yield(self, e, st, X):
        out = []
        for v, s in (self.ev(e.value, st, X) if e.value else [(NONE, st)]):
            self.event(s, "yield", "yield", e, args=(v,))
            out.append((("unknown", "sent"), s))
        return out

    def e_YieldFrom(self, e, st, X):
        out = []
        for v, s in self.ev(e.value, st, X):
            self.event(s, "yield", "yield_from", e, args=(v,))
            out.append((("unknown", "sent"), s))
        return out

    # comprehensions -----------------------------------------------------
    def e_ListComp(self, e, st, X):
        return self.comp(e, st, X, "list")

    def e_SetComp(self, e, st, X):
        return self.comp(e, st, X, "set")

    def e_GeneratorExp(self, e, st, X):
        return self.comp(e, st, X, "list")

    def e_DictComp(self, e, st, X):
        return self.comp(e, st, X, "dict")

    def comp(self, e, st, X, kind):
        # comprehension scope: variables live in a temporary overlay of the current frame
        saved_outer = dict(st.frames[st.cur])
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        cur = [st]
        loops0 = st.loops
        results = []

        def go(i, s):
            if i == len(e.generators):
                if kind == "dict":
                    for k, s2 in self.ev(e.key, s, X):
                        for v, s3 in self.ev(e.value, s2, X):
                            results.append((("kv", k, v, ("L", s3.loops)), s3))
                else:
                    for v, s2 in self.ev(e.elt, s, X):
                        results.append((("e", v, ("L", s2.loops)), s2))
                return
            g = e.generators[i]
            for it, s2 in self.ev(g.iter, s, X):
                el = self.iter_elems(it, s2)
                if el is not None and len(el) <= self.o.known_limit and len(e.generators) == 1 and False:
                    pass
                s2.loops = s2.loops + (self.loop_id(g, it, s2),)
                for s3 in self.bind(g.target, self.elem_of(it, s2), s2, X):
                    states = [s3]
                    for cnd in g.ifs:
                        nxt = []
                        for q in states:
                            for b, q2 in self.test(cnd, q, X):
                                if b:
                                    nxt.append(q2)
                                else:
                                    dropped.append(q2)
                        states = nxt
                    for q in states:
                        go(i + 1, q)

        dropped = []
        # concrete unrolling for small fully-known sequences with one generator
        if len(e.generators) == 1:
            g = e.generators[0]
            r = self.ev(g.iter, st, X)
            outs = []
            for it, s in r:
                el = self.iter_elems(it, s)
                if el is not None and len(el) <= self.o.known_limit:
                    curs = [((), s)]
                    for item in el:
                        nxt = []
                        for acc, q in curs:
                            for q2 in self.bind(g.target, item, q, X):
                                qs = [q2]
                                for cnd in g.ifs:
                                    keep = []
                                    for qq in qs:
                                        for b, q3 in self.test(cnd, qq, X):
                                            if b:
                                                keep.append(q3)
                                            else:
                                                nxt.append((acc, q3))
                                    qs = keep
                                for qq in qs:
                                    if kind == "dict":
                                        for k, q3 in self.ev(e.key, qq, X):
                                            for v, q4 in self.ev(e.value, q3, X):
                                                nxt.append((self.dict_set(acc, k, v, ()), q4))
                                    else:
                                        for v, q3 in self.ev(e.elt, qq, X):
                                            nxt.append((acc + (("e", v, ("L", ())),), q3))
                        curs = nxt
                    for acc, q in curs:
                        self.restore(q, saved_outer, names)
                        outs.append((self.alloc(q, e, kind, acc), q))
                else:
                    results.clear()
                    dropped.clear()
                    s.loops = s.loops + (self.loop_id(g, it, s),)
                    tr0, f0 = len(s.trace), dict(s.facts)
                    for s3 in self.bind(g.target, self.elem_of(it, s), s, X):
                        states = [s3]
                        for cnd in g.ifs:
                            nxt = []
                            for q in states:
                                for b, q2 in self.test(cnd, q, X):
                                    if b:
                                        nxt.append(q2)
                                    else:
                                        dropped.append(q2)
                            states = nxt
                        for q in states:
                            go(1, q)
                    outs += self.comp_join(e, kind, list(results), list(dropped), loops0, saved_outer, names, f0, tr0)
            return outs
        # several generators, all over fully known sequences: exact as well
        X0 = len(X)
        curs = self.comp_exact(e, kind, 0, [((), st.fork())], X)
        if curs is not None:
            outs = []
            for acc, q in curs:
                self.restore(q, saved_outer, names)
                outs.append((self.alloc(q, e, kind, acc), q))
            return outs
        del X[X0:]
        f0, tr0 = dict(st.facts), len(st.trace)
        go(0, st)
        return self.comp_join(e, kind, results, dropped, loops0, saved_outer, names, f0, tr0)

    def comp_exact(self, e, kind, i, curs, X):
        """[(records, state)] after generators i.. of a comprehension over known elements, or None when an iterable is not fully known."""
        if i == len(e.generators):
            out = []
            for acc, q in curs:
                if kind == "dict":
                    out += [(self.dict_set(acc, k, v, ()), q2) for k, q1 in self.ev(e.key, q, X) for v, q2 in self.ev(e.value, q1, X)]
                else:
                    out += [(acc + (("e", v, ("L", ())),), q1) for v, q1 in self.ev(e.elt, q, X)]
            return out
        g = e.generators[i]
        done = []
        for acc, q in curs:
            for it, q1 in self.ev(g.iter, q, X):
                el = self.iter_elems(it, q1)
                if el is None or len(el) > self.o.known_limit:
                    return None
                now = [(acc, q1)]
                for item in el:
                    nxt = []
                    for a, q2 in now:
                        for q3 in self.bind(g.target, item, q2, X):
                            qs = [q3]
                            for cnd in g.ifs:
                                keep = []
                                for qq in qs:
                                    for b, q4 in self.test(cnd, qq, X):
                                        if b:
                                            keep.append(q4)
                                        else:
                                            nxt.append((a, q4))
                                qs = keep
                            r = self.comp_exact(e, kind, i + 1, [(a, qq) for qq in qs], X)
                            if r is None:
                                return None
                            nxt += r
                    now = nxt
                done += now
        return done

    def comp_join(self, e, kind, results, dropped, loops0, saved_outer, names, f0, tr0):
        """Join generic-element outcomes: one object whose element records carry guards."""
        outs = []
        # group by trace: element variants with identical traces are joined in one object
        groups = {}
        for el, s in results:
            groups.setdefault(tuple((x.uid, x.outcome) for x in s.trace), []).append((el, s))
        for tr, items in groups.items():
            s = items[0][1]
            elems = []
            for el, q in items:
                g = tuple((k, v) for k, v in q.facts.items() if f0.get(k, "∅") != v)
                g = tuple(sorted(g, key=repr))
                # objects allocated while evaluating the element live in q's heap
                for hk, hv in q.heap.items():
                    s.heap.setdefault(hk, hv)
                for ak, av in q.attrs.items():
                    s.attrs.setdefault(ak, av)
                for ck, cv in q.counts.items():
                    s.counts[ck] = max(s.counts.get(ck, 0), cv)
                el = el[:-1] + (("L", el[-1][1], g),)
                elems.append(el)
            s.facts = dict(f0)
            s.loops = loops0
            self.restore(s, saved_outer, names)
            outs.append((self.alloc(s, e, kind, elems), s))
        if not outs and dropped:
            s = dropped[0]
            s.facts = dict(f0)
            s.loops = loops0
            self.restore(s, saved_outer, names)
            outs.append((self.alloc(s, e, kind, ()), s))
        return outs

    def restore(self, s, saved, names):
        env = s.frames[s.cur]
        for n in names:
            if n in saved:
                env[n] = saved[n]
            else:
                env.pop(n, None)

    def loop_id(self, g, it, st):
        return ("loop", self.freeze(it, st), getattr(g.target, "lineno", 0))

    # iteration ----------------------------------------------------------
    def iter_elems(self, it, st):
        """Fully known elements of an iterable, or None."""
        if it[0] == "obj":
            kind, elems, cls = st.heap[it[1]]
            if kind in ("list", "tuple", "set") and all(e[0] == "e" and not e[2][1] for e in elems):
                return [e[1] for e in elems]
            if kind == "dict" and all(e[0] == "kv" and not e[3][1] for e in elems):
                return [e[1] for e in elems]
            return None
        if it[0] == "pure" and it[1] in ("items", "keys", "values") and it[2] is not None and it[2][0] == "obj":
            kind, elems, cls = st.heap[it[2][1]]
            if kind == "dict" and all(e[0] == "kv" and not e[3][1] for e in elems):
                if it[1] == "keys":
                    return [e[1] for e in elems]
                if it[1] == "values":
                    return [e[2] for e in elems]
                out = []
                for e in elems:
                    oid = f"tuple|kvpair:{hash((e[1], e[2])) & 0xffffffff}"
                    st.heap[oid] = ("tuple", (("e", e[1], ("L", ())), ("e", e[2], ("L", ()))), None)
                    out.append(("obj", oid))
                return out
        if it[0] == "const" and isinstance(it[1], (tuple,)):
            return [const(x) for x in it[1]]
        if it[0] == "pure" and it[1] in ("reversed", "iter", "enumerate") and it[2] is None and len(it[3]) == 1:
            el = self.iter_elems(it[3][0], st)
            if el is not None:
                return el[::-1] if it[1] == "reversed" else el if it[1] == "iter" else [self.pair(const(i), x, st) for i, x in enumerate(el)]
        if it[0] == "pure" and it[1] == "sorted" and it[2] is None and len(it[3]) == 1 and not (len(it) > 4 and it[4]):
            el = self.iter_elems(it[3][0], st)
            if el is not None:
                ks = [x if is_const(x) else st.heap[x[1]][1][0][1] if x[0] == "obj" and st.heap[x[1]][0] == "tuple" and st.heap[x[1]][1] and st.heap[x[1]][1][0][0] == "e" else NONE for x in el]
                if all(is_const(k) and isinstance(k[1], str) for k in ks) and len(set(ks)) == len(ks):
                    return [x for _, x in sorted(zip(ks, el), key=lambda r: r[0][1])]
        if it[0] == "pure" and it[1] == "zip" and it[2] is None and len(it[3]) >= 2 and not (len(it) > 4 and it[4]):
            els = [self.iter_elems(a, st) if isinstance(a, tuple) and a and a[0] != "star" else None for a in it[3]]
            if all(e is not None for e in els):
                return [self.pair(*xs, st=st) for xs in zip(*els)]
        if it[0] == "pure" and it[1] == "range" and it[2] is None and 1 <= len(it[3]) <= 3:
            ns = [self.known_len(a[3][0], st) if a[0] == "pure" and a[1] == "len" and len(a[3]) == 1 else a[1] if is_const(a) and type(a[1]) is int else None for a in it[3]]
            if None not in ns and (len(ns) < 3 or ns[2]) and len(range(*ns)) <= 12:
                return [const(i) for i in range(*ns)]
        if it[0] == "pure" and it[1] == "filter" and it[2] is None and len(it[3]) == 2 and it[3][0] == NONE:
            el = self.iter_elems(it[3][1], st)
            if el is not None and all(is_const(x) or x[0] == "obj" and st.heap[x[1]][0] in ("list", "tuple", "dict") and (not st.heap[x[1]][1] or any(y[0] in ("e", "kv") and not y[-1][1] for y in st.heap[x[1]][1])) for x in el):
                return [x for x in el if (x[1] if is_const(x) else st.heap[x[1]][1])]
        return None

    def known_len(self, t, st):
        """The length of a value whose elements are known, or None."""
        els = st.heap[t[1]][1] if t[0] == "obj" else t[1] if t[0] in ("list", "tuple") else None
        return len(els) if els is not None and isinstance(els, tuple) and all(e[0] == "e" and not e[2][1] for e in els) else None

    def pair(self, *xs, st=None):
        if st is None:
            *xs, st = xs
        oid = f"tuple|pair:{hash(tuple(xs)) & 0xffffffff}"
        st.heap[oid] = ("tuple", tuple(("e", x, ("L", ())) for x in xs), None)
        return ("obj", oid)

    def elem_of(self, it, st):
        """Generic element of an iterable."""
        if it[0] == "obj":
            kind, elems, cls = st.heap[it[1]]
            if kind in ("list", "tuple", "set", "copy"):
                if len(elems) == 1:
                    e = elems[0]
                    return e[1] if e[0] == "e" else self.elem_of(e[1], st)
            if kind == "dict" and len(elems) == 1:
                e = elems[0]
                return e[1] if e[0] == "kv" else self.elem_of(e[1], st)
            return ("elem", self.freeze(it, st))
        if it[0] == "pure":
            n, recv, args = it[1], it[2], it[3]
            if n == "items" and recv is not None:
                k, v = self.key_of(recv, st)
                return self.pair(k, v, st)
            if n == "keys" and recv is not None:
                return self.key_of(recv, st)[0]
            if n == "values" and recv is not None:
                return self.key_of(recv, st)[1]
            if n == "enumerate" and args:
                return self.pair(("idx", self.freeze(args[0], st)), self.elem_of(args[0], st), st)
            if n in ("sorted", "reversed", "iter", "list", "set", "tuple", "frozenset") and args:
                return self.elem_of(args[0], st)
            if n == "zip" and len(args) == 2:
                return self.pair(self.elem_of(args[0], st), self.elem_of(args[1], st), st)
            if n == "range" and len(args) == 1 and args[0][0] == "pure" and args[0][1] == "len":
                return ("idx", self.freeze(args[0][3][0], st))
        if it[0] == "copyof":
            return self.elem_of(it[1], st)
        return ("elem", self.freeze(it, st)) if not self.dictlike(it, st) else ("key", self.freeze(it, st))

    DICTLIKE_ATTRS = {"input_types", "tags", "config", "kwargs", "base_dependencies", "task_states", "task_pool"}

    def ann_dictlike(self, b, st):
        """True/False from declared annotations of an attribute or parameter, None when undeclared."""
        if b[0] != "attr":
            return None
        c = self.type_of(b[1], st)
        if c is None:
            return None
        for k in self.ix.mro(c):
            if not isinstance(k, Cls):
                continue
            ann = None
            for s in k.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == b[2]:
                    ann = s.annotation
            f = k.methods.get(b[2])
            if f is not None and f.is_property:
                ann = f.node.returns
            init = k.methods.get("__init__")
            if ann is None and init is not None:
                anns = {p.arg: p.annotation for p in init.node.args.posonlyargs + init.node.args.args + init.node.args.kwonlyargs}
                for x in ast.walk(init.node):
                    if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute) and x.targets[0].attr == b[2]:
                        if isinstance(x.value, ast.Name):
                            ann = anns.get(x.value.id)
                        elif isinstance(x.value, (ast.Dict, ast.DictComp)):
                            return True
                    elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Attribute) and x.target.attr == b[2]:
                        ann = x.annotation
            if ann is not None:
                if isinstance(ann, ast.Subscript) and (dotted(ann.value) or "").split(".")[-1] == "Optional":
                    ann = ann.slice
                d = dotted(ann.value if isinstance(ann, ast.Subscript) else ann) or ""
                return d.split(".")[-1] in ("Dict", "dict", "Mapping", "MutableMapping", "DefaultDict", "defaultdict")
        return None

    def dictlike(self, it, st):
        f = self.freeze(it, st)
        a = self.ann_dictlike(it, st)
        if a is not None:
            return a
        if f[0] == "param" and (f[1].startswith("**") or f[1] in ("inputs", "overrides", "config", "kwargs", "outputs", "node_kwargs")):
            return True
        if f[0] == "attr" and f[2] in self.DICTLIKE_ATTRS:
            return True
        if ("dictlike", f) in st.facts:
            return True
        return False

    def key_of(self, d, st):
        if d[0] == "obj":
            kind, elems, cls = st.heap[d[1]]
            if kind == "dict" and len(elems) == 1:
                e = elems[0]
                if e[0] == "kv":
                    return e[1], e[2]
                if e[0] == "spread":
                    return self.key_of(e[1], st)
            if kind == "copy" and len(elems) == 1:
                return self.key_of(elems[0][1], st)
        f = self.freeze(d, st)
        return ("key", f), ("val", f)

    # calls --------------------------------------------------------------
    def e_Call(self, e, st, X):
        return self.call(e, st, X)

    def ignored(self, e):
        d = dotted(e.func)
        if d is None:
            return False
        root = d.split(".")[0]
        if d.split(".")[-1] in self.o.ignore:
            return True
        return root in IGNORED_ROOTS and not self.o.keep_logging

    def call(self, e, st, X, awaited=False):
        self.tick()
        if self.ignored(e):
            d = dotted(e.func)
            if d.endswith("isEnabledFor"):
                return [(("pure", "isEnabledFor", None, (), ()), st)]
            if d.endswith("getLogger"):
                return [(("global", "logger"), st)]
            return [(NONE, st)]
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            fn = self.stack[-1]
            k = fn
            while k.cls is None and k.parent is not None:
                k = k.parent
            selfname = k.node.args.args[0].arg if k.node.args.args else "self"
            return [(("super", k.cls.qual if k.cls else "?", self.name(selfname, st)), st)]
        out = []
        # callee
        if isinstance(e.func, ast.Attribute):
            for b, s in self.ev(e.func.value, st, X):
                for args, kwargs, spreads, s2 in self.eval_args(e, s, X):
                    out += self.call_method(b, e.func.attr, args, kwargs, spreads, s2, X, e, awaited)
            return out
        for f, s in self.ev(e.func, st, X):
            for args, kwargs, spreads, s2 in self.eval_args(e, s, X):
                nm = dotted(e.func) or "<expr>"
                out += self.call_value(f, args, kwargs, spreads, s2, X, e, awaited, nm)
        return out

    def eval_args(self, e, st, X):
        """-> [(args, kwargs, spreads, st)]"""
        out = []
        for args, s in self.evs(e.args, st, X):
            # expand known star args
            flat = []
            for a in args:
                if a[0] == "star" and a[1][0] == "obj" and s.heap[a[1][1]][0] in ("list", "tuple") and all(
                    x[0] == "e" and not x[2][1] for x in s.heap[a[1][1]][1]
                ):
                    flat += [x[1] for x in s.heap[a[1][1]][1]]
                else:
                    flat.append(a)
            cur = [({}, (), s)]
            for kw in e.keywords:
                nxt = []
                for kws, sp, q in cur:
                    for v, q2 in self.ev(kw.value, q, X):
                        if kw.arg is not None:
                            nxt.append((dict(kws, **{kw.arg: v}), sp, q2))
                        else:
                            k2, sp2 = dict(kws), sp
                            els = None
                            if v[0] == "obj" and q2.heap[v[1]][0] == "dict":
                                els = q2.heap[v[1]][1]
                            if els is not None:
                                for x in els:
                                    if x[0] == "kv" and is_const(x[1]) and isinstance(x[1][1], str) and not x[3][1]:
                                        k2[x[1][1]] = x[2]
                                    elif x[0] == "spread":
                                        sp2 = sp2 + (x[1],)
                                    else:
                                        # generic key/value record
                                        sp2 = sp2 + (("genkv",) + x[1:],)
                            else:
                                sp2 = sp2 + (v,)
                            nxt.append((k2, sp2, q2))
                cur = nxt
            for kws, sp, q in cur:
                out.append((tuple(flat), kws, sp, q))
        return out

    def call_method(self, b, attr, args, kwargs, spreads, st, X, node, awaited):
        if attr in self.SETMETHODS and len(args) == 1 and not kwargs and not spreads:
            v = self.set_op(self.SETMETHODS[attr], b, args[0], st, node, any_iter=True)
            if v is not None:
                return [(v, st)]
        if attr in ("issubset", "issuperset", "isdisjoint") and len(args) == 1 and not kwargs and not spreads:
            x, y = self.known_set(b, st), self.known_set(args[0], st, True)
            if x is not None and y is not None and self.distinct(x + y, st):
                return [(const({"issubset": set(x) <= set(y), "issuperset": set(x) >= set(y), "isdisjoint": not set(x) & set(y)}[attr]), st)]
        # stored attribute value shadows methods
        if (b, attr) in st.attrs:
            return self.call_value(st.attrs[(b, attr)], args, kwargs, spreads, st, X, node, awaited, attr)
        if b[0] == "super":
            c = self.ix.resolve(b[1])
            selft = b[2]
            sc = self.type_of(selft, st)
            f = None
            if isinstance(c, Cls):
                start = sc if isinstance(sc, Cls) and c in self.ix.mro(sc) else c
                f = self.ix.find_method(start, attr, after=c)
            if f is not None:
                return self.call_func(f, selft, args, kwargs, spreads, st, X, node, awaited, self_cls=sc)
            return self.opaque(attr, None, selft, args, kwargs, spreads, st, X, node, awaited)
        if b[0] == "global":
            r = self.ix.resolve(b[1] + "." + attr)
            base = self.ix.resolve(b[1])
            if isinstance(r, Func):
                if isinstance(base, Cls):
                    if r.is_classmethod:
                        return self.call_func(r, b, args, kwargs, spreads, st, X, node, awaited)
                    if r.is_static:
                        return self.call_func(r, None, args, kwargs, spreads, st, X, node, awaited)
                    return self.call_func(r, args[0] if args else None, args[1:], kwargs, spreads, st, X, node, awaited)
                return self.call_func(r, None, args, kwargs, spreads, st, X, node, awaited)
            if isinstance(r, Cls):
                return self.construct(r, args, kwargs, spreads, st, X, node, awaited)
            q = self.ix.qual(r)
            return self.call_external(q, args, kwargs, spreads, st, X, node, awaited)
        if b[0] == "obj":
            r = self.heap_method(b, attr, args, kwargs, spreads, st, X, node)
            if r is not None:
                return r
        c = self.type_of(b, st)
        if c is not None:
            f = self.ix.find_method(c, attr)
            if f is not None and not f.is_property:
                return self.call_func(f, b, args, kwargs, spreads, st, X, node, awaited, self_cls=c)
        if attr == "copy" and not args and not kwargs:
            return [(self.alloc(st, node, "dict" if self.dictlike(b, st) else "copy", (("spread", b, ("L", ())),)), st)]
        if attr == "setdefault" and 1 <= len(args) <= 2 and not kwargs and not spreads and attr not in self.o.opaque:
            outs = []
            for v, s in self._compare("in", args[0], b, st):
                if not v:
                    self.event(s, "setitem", "[]=", node, recv=b, args=(args[0], args[1] if len(args) > 1 else NONE), extra=b[1] if b[0] == "obj" else None)
                    self.forget(s, self.freeze(b, s) if b[0] != "obj" else None)
                outs.append((("item", b if b[0] != "obj" else self.freeze(b, s), args[0]), s))
            return outs
        if (attr in PURE_METHODS or attr in self.o.pure) and attr not in self.o.opaque:
            return self.pure_method(b, attr, args, kwargs, st, X, node)
        return self.opaque(attr, None, b, args, kwargs, spreads, st, X, node, awaited)

    def pure_method(self, b, attr, args, kwargs, st, X, node):
        if is_const(b) and isinstance(b[1], str) and all(is_const(a) for a in args) and not kwargs and attr in ("upper", "lower", "strip", "lstrip", "rstrip", "removeprefix", "removesuffix", "title", "capitalize", "isidentifier", "isdigit", "find", "rfind", "startswith", "endswith", "replace"):
            try:
                return [(const(getattr(b[1], attr)(*[a[1] for a in args])), st)]
            except Exception:
                pass
        if is_const(b) and isinstance(b[1], str) and attr == "join" and len(args) == 1 and not kwargs:
            el = self.iter_elems(args[0], st)
            if el is not None and all(is_const(x) and isinstance(x[1], str) for x in el):
                return [(const(b[1].join(x[1] for x in el)), st)]
        if is_const(b) and isinstance(b[1], str) and attr == "format" and all(is_const(a) and isinstance(a[1], str) for a in [*args, *kwargs.values()]):
            try:
                return [(const(b[1].format(*[a[1] for a in args], **{k: v[1] for k, v in kwargs.items()})), st)]
            except Exception:
                pass
        if is_const(b) and isinstance(b[1], str) and attr in ("split", "rsplit", "partition", "rpartition") and args and all(is_const(a) for a in [*args, *kwargs.values()]):
            try:
                parts = getattr(b[1], attr)(*[a[1] for a in args], **{k: v[1] for k, v in kwargs.items()})
                return [(self.alloc(st, node, "list" if "split" in attr else "tuple", tuple(("e", const(x), ("L", ())) for x in parts)), st)]
            except Exception:
                pass
        if attr == "get" and args:
            # d.get(k[, default])
            fb, fk = self.freeze(b, st), self.freeze(args[0], st)
            default = args[1] if len(args) > 1 else kwargs.get("default", NONE)
            if fk == ("key", fb):
                return [(("val", fb), st)]
            outs = []
            for v, s in self.decide(st, ("in", fk, fb)):
                outs.append(((("item", b if b[0] != "obj" else fb, args[0])) if v else default, s))
            return outs
        if attr in ("keys", "values", "items") and b[0] == "obj":
            return [(("pure", attr, b, (), ()), st)]
        if attr in ("items", "keys", "values"):
            st.facts[("dictlike", self.freeze(b, st))] = True
        fa = tuple(self.freeze(a, st) for a in args)
        fk = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
        return [(("pure", attr, self.freeze(b, st), fa, fk), st)]

    def heap_method(self, b, attr, args, kwargs, spreads, st, X, node):
        kind, elems, cls = st.heap[b[1]]
        if kind == "inst":
            return None
        L = ("L", st.loops)
        lp = self.rel_loops(b, st)
        if attr in LIST_MUT and args:
            v = args[-1]
            new = (("e", v, ("L", lp)),)
            at = None
            if attr == "appendleft":
                at = 0
            elif attr == "insert" and len(args) == 2 and is_const(args[0]) and isinstance(args[0][1], int):
                at = args[0][1]
            if at is not None and (at == 0 or not lp and all(x[0] == "e" and not x[2][1] for x in elems)):
                tmp = list(elems)
                tmp.insert(at, new[0])
                st.heap[b[1]] = (kind, tuple(tmp), cls)
            else:
                st.heap[b[1]] = (kind, elems + new, cls)
            self.event(st, "mut", attr, node, recv=b, args=args, extra=b[1])
            return [(NONE, st)]
        if attr == "extend" and args and args[0][0] == "failing":
            st.heap[b[1]] = (kind, elems + tuple(("e", x, ("L", lp)) for x in args[0][1]), cls)
            self.event(st, "iterfail", "next", node, args=args)
            X.append((("exc", f"{self.stack[-1].module.name}:{node.lineno}:iter", "?"), st))
            return []
        if attr == "extend" and args:
            el = self.spread_elems(args[0], st)
            st.heap[b[1]] = (kind, elems + tuple(self.reloop(x, lp) for x in el), cls)
            self.event(st, "mut", attr, node, recv=b, args=args, extra=b[1])
            return [(NONE, st)]
        if attr == "update":
            if kind == "dict":
                els = elems
                for a in args:
                    for x in self.dict_spread(a, st):
                        els = els + (self.reloop(x, lp),) if x[0] != "kv" or len(x[3]) > 2 and x[3][2] else self.dict_set(els, x[1], x[2], lp or x[3][1])
                for k, v in kwargs.items():
                    els = self.dict_set(els, const(k), v, lp)
                for sp in spreads:
                    els = els + (("spread", sp, ("L", lp)),)
                st.heap[b[1]] = (kind, els, cls)
            else:
                el = []
                for a in args:
                    el += self.spread_elems(a, st)
                st.heap[b[1]] = (kind, elems + tuple(self.reloop(x, lp) for x in el), cls)
            self.event(st, "mut", attr, node, recv=b, args=args, kwargs=kwargs, extra=b[1], spreads=spreads)
            return [(NONE, st)]
        if attr == "copy" and not args:
            return [(self.alloc(st, node, kind, elems, cls), st)]
        if attr == "clear" and not args:
            st.heap[b[1]] = (kind, (), cls)
            self.event(st, "mut", attr, node, recv=b, args=args, extra=b[1])
            return [(NONE, st)]
        if attr == "setdefault" and kind == "dict" and args:
            default = args[1] if len(args) > 1 else NONE
            outs = []
            for v, s in self._compare("in", args[0], b, st):
                if v:
                    outs += self.getitem(b, args[0], s, X, node)
                else:
                    k_, e_, c_ = s.heap[b[1]]
                    s.heap[b[1]] = (k_, self.dict_set(e_, args[0], default, self.rel_loops(b, s)), c_)
                    self.event(s, "mut", attr, node, recv=b, args=args, extra=b[1])
                    outs.append((default, s))
            return outs
        if attr == "get" and kind == "dict" and args:
            default = args[1] if len(args) > 1 else NONE
            outs = []
            for v, s in self._compare("in", args[0], b, st):
                if v:
                    outs += self.getitem(b, args[0], s, X, node)
                else:
                    outs.append((default, s))
            return outs
        if attr == "popleft" and kind == "list" and not args:
            attr, args = "pop", (const(0),)
        if attr == "pop":
            self.event(st, "mut", attr, node, recv=b, args=args, extra=b[1])
            if kind == "dict" and args:
                outs = []
                for v, s in (self._compare("in", args[0], b, st) if len(args) > 1 else [(True, st)]):
                    if v:
                        for val, s2 in self.getitem(b, args[0], s, X, node):
                            k_, e_, c_ = s2.heap[b[1]]
                            s2.heap[b[1]] = (k_, tuple(x for x in e_ if not (x[0] == "kv" and x[1] == args[0])), c_)
                            outs.append((val, s2))
                    else:
                        outs.append((args[1], s))
                return outs
            if kind in ("list", "set") and elems:
                idx = args[0][1] if args and is_const(args[0]) and isinstance(args[0][1], int) else -1
                if all(x[0] == "e" for x in elems) and -len(elems) <= idx < len(elems):
                    v = elems[idx][1]
                    i = idx % len(elems)
                    st.heap[b[1]] = (kind, elems[:i] + elems[i + 1:], cls)
                    return [(v, st)]
            return [(("elem", self.freeze(b, st)), st)]
        if attr in ("remove", "discard") and args:
            st.heap[b[1]] = (kind, tuple(x for x in elems if not (x[0] == "e" and x[1] == args[0])), cls)
            self.event(st, "mut", attr, node, recv=b, args=args, extra=b[1])
            return [(NONE, st)]
        if attr in ("items", "keys", "values"):
            return [(("pure", attr, b, (), ()), st)]
        if attr == "reverse" and kind == "list" and all(x[0] == "e" and not x[2][1] for x in elems):
            st.heap[b[1]] = (kind, tuple(elems)[::-1], cls)
        if attr == "sort" and kind == "list" and not args and not kwargs and all(x[0] == "e" and not x[2][1] and is_const(x[1]) for x in elems) and len({type(x[1][1]) for x in elems}) <= 1:
            try:
                st.heap[b[1]] = (kind, tuple(sorted(elems, key=lambda x: x[1][1])), cls)
            except TypeError:
                pass
        if attr in ("sort", "reverse"):
            self.event(st, "mut", attr, node, recv=b, args=args, kwargs=kwargs, extra=b[1])
            return [(NONE, st)]
        if attr == "count" and kind in ("list", "tuple") and len(args) == 1 and is_const(args[0]) and all(x[0] == "e" and not x[2][1] and is_const(x[1]) for x in elems):
            return [(const(sum(x[1] == args[0] for x in elems)), st)]
        if attr in PURE_METHODS:
            fa = tuple(self.freeze(a, st) for a in args)
            return [(("pure", attr, self.freeze(b, st), fa, ()), st)]
        return None

    def rel_loops(self, b, st):
        return st.loops

    def reloop(self, x, lp):
        if not lp:
            return x
        return x[:-1] + (("L", lp + x[-1][1]) + x[-1][2:],)

    def call_value(self, f, args, kwargs, spreads, st, X, node, awaited, nm):
        if f[0] == "clos":
            fn = self.clos[f[1]]
            if self.want_inline(fn):
                return self.inline(fn, None, args, kwargs, spreads, st, X, node, parent=f[2], defs=dict(f[3]))
            return self.opaque(fn.name, fn.qual, f, args, kwargs, spreads, st, X, node, awaited)
        if f[0] == "partial":
            return self.call_value(f[1], tuple(f[2]) + tuple(args), dict(dict(f[3]), **kwargs), tuple(f[4]) + tuple(spreads), st, X, node, awaited, nm)
        if f[0] == "global":
            r = self.ix.resolve(f[1])
            if isinstance(r, Func):
                recv = None
                return self.call_func(r, recv, args, kwargs, spreads, st, X, node, awaited)
            if isinstance(r, Cls):
                return self.construct(r, args, kwargs, spreads, st, X, node, awaited)
            return self.call_external(self.ix.qual(r), args, kwargs, spreads, st, X, node, awaited)
        if f[0] == "attr":
            return self.call_method(f[1], f[2], args, kwargs, spreads, st, X, node, awaited)
        name = {"param": f[1] if f[0] == "param" else None}.get(f[0]) or nm
        return self.opaque(name.split(".")[-1] if name else "<call>", None, f, args, kwargs, spreads, st, X, node, awaited, kind="callv")

    def bind_args(self, f, recv, args, kwargs, spreads):
        """Map call arguments onto parameter names; None when impossible."""
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        bound = {}
        vals = list(args)
        if f.cls is not None and not f.is_static and pos:
            bound[pos[0]] = recv if recv is not None else ("unknown", "self")
            pos = pos[1:]
        i = 0
        extra = []
        for v in vals:
            if v[0] == "star":
                extra.append(v)
                continue
            if i < len(pos):
                bound[pos[i]] = v
                i += 1
            else:
                extra.append(v)
        names = (set(pos) | {p.arg for p in a.kwonlyargs}) - {p.arg for p in a.posonlyargs}
        extra_kw = {}
        for k, v in kwargs.items():
            if k in names:
                bound[k] = v
            else:
                extra_kw[k] = v
        return bound, extra, extra_kw

    def call_func(self, f, recv, args, kwargs, spreads, st, X, node, awaited, self_cls=None):
        if f.name in self.o.pure:
            fa = tuple(self.freeze(a, st) for a in args)
            fkw = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
            return [(("pure", f.name, self.freeze(recv, st) if recv is not None else None, fa, fkw), st)]
        if f.is_generator or not self.want_inline(f):
            bound, extra, extra_kw = self.bind_args(f, recv, args, kwargs, spreads)
            bound.update(extra_kw)
            if f.cls is not None and f.name == "__init__":
                pass
            return self.opaque(f.name, f.qual, recv, args, kwargs, spreads, st, X, node, awaited, bound=bound)
        return self.inline(f, recv, args, kwargs, spreads, st, X, node, self_cls=self_cls)

    def want_inline(self, f):
        if f.name in self.o.opaque or f.qual in self.o.opaque:
            return False
        if any(d and d.split(".")[-1] == "abstractmethod" for d in f.decorators):
            return False
        if len(self.stack) > self.o.depth:
            return False
        if sum(1 for x in self.stack if x.node is f.node) > self.o.recursion:
            return False
        if self.o.inline is not None:
            r = self.o.inline(f)
            if r is not None:
                return r
        return f.module.name in self.o.inline_modules

    def inline(self, f, recv, args, kwargs, spreads, st, X, node, parent=None, defs=None, self_cls=None):
        self.inlined.add(f.qual)
        self.ix.consulted.add(f.module.name)
        bound, extra, extra_kw = self.bind_args(f, recv, args, kwargs, spreads)
        a = f.node.args
        allp = a.posonlyargs + a.args + a.kwonlyargs
        n = st.count(("frame", f.qual))
        fid = f"{f.qual}@{n}"
        env = {}
        if recv is not None and self_cls is not None and recv not in self.types:
            self.types[recv] = self_cls
        self.stack.append(f)
        try:
            posargs = a.posonlyargs + a.args
            dmap = dict(zip([p.arg for p in posargs[len(posargs) - len(a.defaults):]], a.defaults))
            dmap.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            for p in allp:
                if p.arg in bound:
                    env[p.arg] = bound[p.arg]
                elif spreads and p not in a.posonlyargs and not (p.arg.startswith("_") and (p.arg in dmap or defs and p.arg in defs)):
                    sp = [x for x in spreads if x[0] != "genkv"]
                    if p.arg in dmap:
                        env[p.arg] = ("kwitem", self.freeze(sp[0], st) if sp else ("unknown", "sp"), p.arg)
                    else:
                        env[p.arg] = ("item", sp[0], const(p.arg)) if sp else ("unknown", "sp")
                elif defs and p.arg in defs:
                    env[p.arg] = defs[p.arg]
                elif p.arg in dmap:
                    Y = []
                    r = self.ev(dmap[p.arg], st, Y)
                    env[p.arg] = r[0][0] if r else ("unknown", "default")
                else:
                    env[p.arg] = ("unknown", "missing:" + p.arg)
                if p.annotation is not None and env[p.arg] not in self.types and env[p.arg][0] in ("param", "attr", "item", "res", "elem", "val", "key"):
                    c = self.ann_class(p.annotation, f.module)
                    if c is not None:
                        self.types[env[p.arg]] = c
            if a.vararg:
                env[a.vararg.arg] = self.alloc(st, node, "tuple", [("spread", x[1], ("L", ())) if x[0] == "star" else ("e", x, ("L", ())) for x in extra])
            if a.kwarg:
                els = [("kv", const(k), v, ("L", ())) for k, v in extra_kw.items()]
                for sp in spreads:
                    if sp[0] == "genkv":
                        els.append(("kv",) + sp[1:])
                    else:
                        els.append(("spread", sp, ("L", ())))
                if not extra_kw and len(spreads) == 1 and spreads[0][0] != "genkv":
                    env[a.kwarg.arg] = spreads[0] if spreads[0][0] != "obj" else self.alloc(st, node, "dict", els)
                else:
                    env[a.kwarg.arg] = self.alloc(st, node, "dict", els)
            st.frames[fid] = env
            if not hasattr(self, "parent_of"):
                self.parent_of = {}
            if parent is not None:
                self.parent_of[fid] = parent
            prev = st.cur
            st.cur = fid
            body = f.node.body if isinstance(f.node.body, list) else [ast.copy_location(ast.Return(value=f.node.body), f.node.body)]
            saved_after, self.after = self.after, frozenset()
            try:
                outs = self.block(body, st, fid, f)
            finally:
                self.after = saved_after
        finally:
            self.stack.pop()
        has_inner = any(isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) for b in (f.node.body if isinstance(f.node.body, list) else [f.node.body]) for x in ast.walk(b))
        res = []
        for k, v, s in outs:
            s.cur = prev
            if not has_inner:
                s.frames.pop(fid, None)
            if k == "raise":
                X.append((v, s))
            elif k == "diverge":
                X.append((("exc", "diverge", "$diverge"), s))
            else:
                res.append((v if k == "return" else NONE, s))
        if len(res) > 1:
            res = [(v, s) for _, v, s in self.merge([("next", v, s) for v, s in res])]
        return res

    def construct(self, c, args, kwargs, spreads, st, X, node, awaited):
        init = self.ix.find_method(c, "__init__")
        bound = None
        if init is not None:
            bound, extra, extra_kw = self.bind_args(init, ("unknown", "self"), args, kwargs, spreads)
            bound.pop(init.node.args.args[0].arg if init.node.args.args else "self", None)
            bound.update(extra_kw)
        else:
            # dataclass / NamedTuple: fields in declaration order
            fields = []
            for k in reversed(self.ix.mro(c)):
                if isinstance(k, Cls):
                    for s in k.node.body:
                        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id not in fields:
                            fields.append(s.target.id)
            bound = dict(zip(fields, args))
            bound.update(kwargs)
        ev = self.event(st, "new", c.name, node, args=args, kwargs=kwargs, qual=c.qual, bound=bound, awaited=awaited, spreads=spreads)
        obj = self.alloc(st, node, "inst", (), c.qual)
        for k, v in (bound or {}).items():
            if init is None:
                st.attrs[(obj, k)] = v
        st.heap[obj[1]] = ("inst", (("ctor", ev.uid),), c.qual)
        if init is not None and (c.qual in self.o.inline_ctor or c.name in self.o.inline_ctor):
            return [(obj, s) for _, s in self.inline(init, obj, args, kwargs, spreads, st, X, node, self_cls=c)]
        return self.finish_call(ev, st, X, obj)

    def call_external(self, q, args, kwargs, spreads, st, X, node, awaited):
        last = q.split(".")[-1]
        if q in ("functools.partial", "partial"):
            if args:
                return [(("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())), tuple(spreads)), st)]
        if self.o.fields_of is not None and q in ("dataclasses.asdict", "dataclasses.fields") and len(args) == 1 and args[0][0] == "param":
            c = self.type_of(args[0], st)
            fs = self.o.fields_of(c) if c is not None else None
            if fs is not None and q.endswith("asdict"):
                els = ()
                for n in fs:
                    (v, st), = self.getattr(args[0], n, st, X, node)
                    els = self.dict_set(els, const(n), v, ())
                return [(self.alloc(st, node, "dict", els), st)]
            if fs is not None:
                els = ()
                for n in fs:
                    o = self.alloc(st, node, "inst", (), "dataclasses.Field")
                    st.attrs[(o, "name")] = const(n)
                    st.attrs[(o, "default")] = ("default", n)
                    els += (("e", o, ("L", ())),)
                return [(self.alloc(st, node, "tuple", els), st)]
        if q in ("copy.copy", "copy.deepcopy") and args:
            b = args[0]
            if b[0] == "obj":
                k, els, c = st.heap[b[1]]
                return [(self.alloc(st, node, k, els, c), st)]
            return [(self.alloc(st, node, "copy", (("spread", b, ("L", ())),)), st)]
        if q == "next" and len(args) == 2 and not kwargs and not spreads and (args[0][0] == "obj" or args[0][0] == "pure" and args[0][1] in ("iter", "reversed")):
            el = self.iter_elems(args[0], st)
            if el is not None:
                return [(el[0] if el else args[1], st)]
        if q == "next" and len(args) == 2 and args[0][0] == "obj" and not kwargs and not spreads:
            els = st.heap[args[0][1]][1]
            L = els[0][-1] if len(els) == 1 and els[0][0] == "e" else None
            if L is not None and len(L) > 2 and len(L[1]) == len(st.loops) + 1:  # next((x for x in xs if guard), default)
                out = []
                for some, s2 in self.decide(st, ("truthy", L[1][-1][1])):
                    if not some:
                        out.append((args[1], s2))
                        continue
                    done = []
                    for k, v in L[2]:
                        if self.lookup_fact(s2, k) != v:
                            s3 = s2.fork()
                            s3.facts.update(done)
                            s3.facts[k] = not v
                            out.append((args[1], s3))
                        done.append((k, v))
                    if all(self.lookup_fact(s2, k) != (not v) for k, v in L[2]):
                        s2.facts.update(done)
                        out.append((els[0][1], s2))
                return out
        if q == "dict":
            els = ()
            for a in args:
                if a[0] == "obj" and st.heap[a[1]][0] in ("list", "tuple"):
                    for x in st.heap[a[1]][1]:
                        if x[0] == "e" and x[1][0] == "obj" and st.heap[x[1][1]][0] == "tuple" and len(st.heap[x[1][1]][1]) == 2:
                            p = st.heap[x[1][1]][1]
                            els += (("kv", p[0][1], p[1][1], x[2]),)
                        else:
                            els += (("spread", x[1], x[-1]),)
                else:
                    els += tuple(self.dict_spread(a, st))
            for sp in spreads:
                els += (("kv",) + sp[1:],) if sp[0] == "genkv" else (("spread", sp, ("L", ())),)
            for k, v in kwargs.items():
                els = self.dict_set(els, const(k), v, ())
            return [(self.alloc(st, node, "dict", els), st)]
        if q in ("list", "set", "tuple") :
            els = []
            for a in args:
                if a[0] == "obj" and st.heap[a[1]][0] in ("list", "set", "tuple"):
                    els += list(st.heap[a[1]][1])
                elif is_const(a) and isinstance(a[1], str) and len(a[1]) <= 20:
                    els += [("e", const(x), ("L", ())) for x in a[1]]
                elif a[0] == "obj" and st.heap[a[1]][0] == "dict" and self.iter_elems(a, st) is not None:
                    els += [("e", x, ("L", ())) for x in self.iter_elems(a, st)]
                elif a[0] == "pure" and a[1] in ("keys", "values", "items") and a[2] is not None:
                    known = self.iter_elems(a, st)
                    if known is not None:
                        els += [("e", x, ("L", ())) for x in known]
                    else:
                        els.append(("spread", a if a[2][0] != "obj" else self.freeze(a, st), ("L", ())))
                else:
                    els.append(("spread", a, ("L", ())))
            return [(self.alloc(st, node, q, els), st)]
        if q == "functools.reduce" and len(args) in (2, 3) and not kwargs and not spreads and self.iter_elems(args[1], st) is not None:
            xs = list(self.iter_elems(args[1], st))
            if len(args) == 3:
                xs.insert(0, args[2])
            if xs:
                cur = [(xs[0], st)]
                for x in xs[1:]:
                    cur = [r for acc, s in cur for r in self.call_value(args[0], (acc, x), {}, (), s, X, node, False, "reduce")]
                return cur
        if q in ("collections.defaultdict", "collections.OrderedDict", "collections.Counter", "collections.deque") and not spreads:
            kind = "list" if q.endswith("deque") else "dict"
            rest = args[1:] if q.endswith("defaultdict") else args
            els = ()
            for a in rest:
                els += tuple(self.dict_spread(a, st)) if kind == "dict" else tuple(self.spread_elems(a, st))
            fac = args[0][1] if q.endswith("defaultdict") and args and args[0][0] == "global" and args[0][1] in ("list", "set", "dict", "int") else "int" if q.endswith("Counter") else None
            return [(self.alloc(st, node, kind, els, ("default", fac) if fac else None), st)]
        if q == "getattr" and len(args) >= 2 and is_const(args[1]) and isinstance(args[1][1], str):
            if len(args) == 2:
                return self.getattr(args[0], args[1][1], st, X, node)
            fb = self.freeze(args[0], st)
            outs = []
            for v, s in self.decide(st, ("hasattr", fb, args[1])):
                if v:
                    outs += self.getattr(args[0], args[1][1], s, X, node)
                else:
                    outs.append((args[2], s))
            return outs
        if q == "type" and len(args) == 1 and not kwargs and (args[0], "__class__") in st.attrs:
            return [(st.attrs[(args[0], "__class__")], st)]
        if q in ("list", "tuple", "sorted", "set", "frozenset") and args and args[0][0] == "failing":
            self.event(st, "iterfail", "next", node, args=args)
            X.append((("exc", f"{self.stack[-1].module.name}:{node.lineno}:iter", "?"), st))
            return []
        if q == "setattr" and len(args) == 3:
            if is_const(args[1]):
                st.attrs[(args[0], args[1][1])] = args[2]
            self.event(st, "setattr", args[1][1] if is_const(args[1]) and isinstance(args[1][1], str) else "?", node, recv=args[0], args=(args[1], args[2]))
            return [(NONE, st)]
        if q == "isinstance" and len(args) == 2:
            a = args[0]
            ty = {"dict": dict, "list": list, "set": set, "tuple": tuple}.get(st.heap[a[1]][0]) if a[0] == "obj" else type(a[1]) if a[0] == "const" else str if a[0] == "fstr" else None
            cl = self.builtin_classes(args[1], st)
            if ty is not None and cl is not None:
                return [(const(issubclass(ty, cl)), st)]
            if a == NONE:
                return [(FALSE, st)]
        if q == "callable" and len(args) == 1 and (args[0][0] in ("const", "fstr") or args[0][0] == "obj" and st.heap[args[0][1]][0] in ("dict", "list", "set", "tuple")):
            return [(FALSE, st)]
        if q in PURE_FUNCS and last not in self.o.opaque:
            fa = tuple(self.freeze(a, st) if q not in ("enumerate", "zip", "sorted", "reversed", "iter", "range", "map", "filter") else a for a in args)
            if q == "len" and len(args) == 1 and is_const(args[0]) and isinstance(args[0][1], str):
                return [(const(len(args[0][1])), st)]
            if q == "len" and args and args[0][0] == "obj":
                k, els, _ = st.heap[args[0][1]]
                if all(x[0] in ("e", "kv") and not x[-1][1] for x in els):
                    return [(const(len(els)), st)]
            if q in ("any", "all") and len(args) == 1 and args[0][0] == "obj":
                el = self.iter_elems(args[0], st)
                if el is not None and len(el) <= self.o.known_limit:
                    stop, cur, done = q == "any", [st], []
                    for x in el:
                        nxt = []
                        for s1 in cur:
                            for v, s2 in self.truth(x, s1):
                                if v == stop:
                                    done.append((const(stop), s2))
                                else:
                                    nxt.append(s2)
                        cur = nxt
                    return done + [(const(not stop), s1) for s1 in cur]
            if q == "str" and len(args) == 1 and is_const(args[0]):
                return [(const(str(args[0][1])), st)]
            if q == "map" and len(args) == 2 and not kwargs and self.iter_elems(args[1], st) is not None:
                cur = [((), st)]
                for x in self.iter_elems(args[1], st):
                    cur = [(vs + (v,), s2) for vs, s in cur for v, s2 in self.call_value(args[0], (x,), {}, (), s, X, node, False, "map")]
                return [(self.alloc(s, node, "list", tuple(("e", v, ("L", ())) for v in vs)), s) for vs, s in cur]
            if q == "map" and len(args) == 2:
                # map(f, xs): apply to the generic element
                s = st
                saved = s.loops
                it = args[1]
                s.loops = s.loops + (("loop", self.freeze(it, s), node.lineno),)
                outs = []
                for v, s2 in self.call_value(args[0], (self.elem_of(it, s),), {}, (), s, X, node, False, "map"):
                    lp = s2.loops
                    s2.loops = saved
                    outs.append((self.alloc(s2, node, "list", (("e", v, ("L", lp, ())),)), s2))
                return outs
            if q in self.o.record_pure:
                self.event(st, "pure", q, node, args=args, kwargs=kwargs)
            fkw = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
            if q == "bool" and fa in ((TRUE,), (FALSE,)):
                return [(fa[0], st)]
            if q == "bool" and len(args) == 1 and args[0][0] == "obj" and self.known_truth(st, args[0]) is not None:
                return [(const(self.known_truth(st, args[0])), st)]
            return [(("pure", q, None, fa, fkw), st)]
        if q in ("typing.cast", "cast") and len(args) == 2:
            return [(args[1], st)]
        if last in self.o.pure:
            fa = tuple(self.freeze(a, st) for a in args)
            fkw = tuple(sorted((k, self.freeze(v, st)) for k, v in kwargs.items()))
            return [(("pure", last, None, fa, fkw), st)]
        return self.opaque(last, q, None, args, kwargs, spreads, st, X, node, awaited)

    def opaque(self, name, qual, recv, args, kwargs, spreads, st, X, node, awaited, bound=None, kind="call"):
        ev = self.event(st, kind, name, node, recv=recv, args=args, kwargs=kwargs, qual=qual, bound=bound, awaited=awaited, spreads=spreads)
        res = ("res", ev.uid)
        given = self.o.returns(ev) if self.o.returns is not None else None
        if given is not None:
            return self.finish_call(ev, st, X, self.thaw(given, ev.uid, st))
        f = self.ix.resolve(qual) if qual else None
        if isinstance(f, Func) and f.node.returns is not None:
            c = self.ann_class(f.node.returns, f.module)
            if c is not None:
                self.types.setdefault(res, c)
        return self.finish_call(ev, st, X, res)

    def finish_call(self, ev, st, X, res):
        if not ev.kept:
            return [(res, st)]
        r = self.o.raises
        may = True if r == "all" else (False if r == "none" else r(ev))
        if may:
            s2 = st.fork()
            e2 = Ev(**{k: getattr(ev, k) for k in Ev.__slots__})
            e2.outcome = "raise"
            s2.trace = s2.trace[:-1] + (e2,)
            X.append((("exc", ev.uid, "?"), s2))
            if self.o.base_exc:
                s3 = st.fork()
                s3.trace = s2.trace
                X.append((("exc", ev.uid, "$base"), s3))
        return [(res, st)]

    # ------------------------------------------------------------------ liveness
    _reads_cache = {}

    @classmethod
    def reads(cls, node):
        r = cls._reads_cache.get(id(node))
        if r is None or r[0] is not node:
            names = set()
            for x in ast.walk(node):
                if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store):
                    names.add(x.id)
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    names.add(x.target.id)
                elif isinstance(x, (ast.Global, ast.Nonlocal)):
                    names.update(x.names)
            r = cls._reads_cache[id(node)] = (node, frozenset(names))
        return r[1]

    _captured_cache = {}

    @classmethod
    def captured(cls, fnode):
        """Names read by functions nested in this one (or super()'s first argument): always live."""
        r = cls._captured_cache.get(id(fnode))
        if r is None or r[0] is not fnode:
            names = set()
            for x in ast.walk(fnode):
                if x is not fnode and isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    names |= cls.reads(x)
            a = getattr(fnode, "args", None)
            if a is not None and a.args:
                names.add(a.args[0].arg)
            r = cls._captured_cache[id(fnode)] = (fnode, frozenset(names))
        return r[1]

    def prune(self, st, live, fn):
        env = st.frames.get(st.cur)
        if not env:
            return
        cap = self.captured(fn.node)
        dead = [n for n in env if n not in live and n not in cap]
        for n in dead:
            del env[n]

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, fid, fn):
        cur = [("next", None, st)]
        done = []
        outer = self.after
        suffix = [outer]
        for stmt in reversed(stmts[1:]):
            suffix.append(suffix[-1] | self.reads(stmt))
        suffix.reverse()
        for i, stmt in enumerate(stmts):
            nxt = []
            self.after = suffix[i]
            if isinstance(stmt, (ast.For, ast.AsyncFor, ast.While, ast.Try, ast.With, ast.AsyncWith)) or type(stmt).__name__ == "TryStar":
                self.after = suffix[i] | self.reads(stmt)
            try:
                for k, v, s in cur:
                    for r in self.stmt(stmt, s, fid, fn):
                        (nxt if r[0] == "next" else done).append(r)
            finally:
                self.after = outer
            for _, _, s in nxt:
                self.prune(s, suffix[i], fn)
            cur = self.merge(nxt)
            if len(cur) + len(done) > self.o.max_paths:
                done = self.merge(done)
                if len(cur) + len(done) > self.o.max_paths:
                    raise AnalysisBroken(f"path budget exceeded in {self.stack[0].qual}/{fn.qual} at line {stmt.lineno}")
            if not cur:
                break
        for k, _, s in done:
            self.prune(s, outer, fn)
        return self.merge(cur + done)

    def stmt(self, s, st, fid, fn):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return [("next", None, st)]
        X = []
        outs = m(s, st, fid, fn, X)
        for exc, s2 in X:
            if exc[2] == "$diverge":
                outs.append(("diverge", None, s2))
            else:
                outs.append(("raise", exc, s2))
        return outs

    def s_Expr(self, s, st, fid, fn, X):
        if isinstance(s.value, ast.Constant):
            return [("next", None, st)]
        return [("next", None, q) for _, q in self.ev(s.value, st, X)]

    def s_Pass(self, s, st, fid, fn, X):
        return [("next", None, st)]

    def s_Return(self, s, st, fid, fn, X):
        if s.value is None:
            return [("return", NONE, st)]
        return [("return", v, q) for v, q in self.ev(s.value, st, X)]

    def s_Assign(self, s, st, fid, fn, X):
        outs = []
        for v, q in self.ev(s.value, st, X):
            cur = [q]
            for t in s.targets:
                cur = [r for c in cur for r in self.bind(t, v, c, X)]
            outs += [("next", None, c) for c in cur]
        return outs

    def s_AnnAssign(self, s, st, fid, fn, X):
        if s.value is None:
            return [("next", None, st)]
        outs = []
        for v, q in self.ev(s.value, st, X):
            if v[0] in ("res", "item", "attr", "elem", "val"):
                c = self.ann_class(s.annotation, fn.module)
                if c is not None:
                    self.types.setdefault(v, c)
            outs += [("next", None, c) for c in self.bind(s.target, v, q, X)]
        return outs

    def s_AugAssign(self, s, st, fid, fn, X):
        load = ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s.target) if isinstance(s.target, ast.Name) else (
            ast.copy_location(ast.Attribute(value=s.target.value, attr=s.target.attr, ctx=ast.Load()), s.target) if isinstance(s.target, ast.Attribute)
            else ast.copy_location(ast.Subscript(value=s.target.value, slice=s.target.slice, ctx=ast.Load()), s.target))
        outs = []
        for l, q in self.ev(load, st, X):
            for r, q2 in self.ev(s.value, q, X):
                op = type(s.op).__name__
                if l[0] == "obj" and op in ("Add", "BitOr") and q2.heap[l[1]][0] in ("list", "set", "dict"):
                    meth = "update" if q2.heap[l[1]][0] in ("dict", "set") else "extend"
                    self.heap_method(l, meth, (r,), {}, (), q2, X, s)
                    outs += [("next", None, c) for c in self.bind(s.target, l, q2, X, aug=True)]
                    continue
                if l[0] in ("param", "attr", "item", "val", "elem") and op in ("Add", "BitOr", "Sub", "BitAnd") and isinstance(s.target, (ast.Name, ast.Attribute, ast.Subscript)):
                    # in-place operator on an object we do not own
                    self.event(q2, "aug", op, s, recv=l, args=(r,))
                v = self.binop(op, l, r, q2, s)
                outs += [("next", None, c) for c in self.bind(s.target, v, q2, X, aug=True)]
        return outs

    def bind(self, t, v, st, X, aug=False):
        """Assign -> [st]"""
        if isinstance(t, ast.Name):
            fn_env = st.frames[st.cur]
            # honour `global`/`nonlocal`
            if t.id in self._globals_decl():
                self.event(st, "setglobal", t.id, t, args=(v,))
                st.attrs[(("global", self.stack[-1].module.name), t.id)] = v
                fn_env[t.id] = v
                return [st]
            par = self.parent_of.get(st.cur) if hasattr(self, "parent_of") else None
            if t.id in self._nonlocals_decl() and par is not None:
                p = par
                while p is not None:
                    if t.id in st.frames.get(p, {}):
                        st.frames[p][t.id] = v
                        return [st]
                    p = self.parent_of.get(p)
            fn_env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vals = None
            if v[0] == "obj" and st.heap[v[1]][0] in ("list", "tuple"):
                els = st.heap[v[1]][1]
                if all(e[0] == "e" and not e[2][1] for e in els):
                    if not star and len(els) == n:
                        vals = [e[1] for e in els]
                    elif star and len(els) >= n - 1:
                        i = star[0]
                        after = n - i - 1
                        mid = els[i: len(els) - after]
                        vals = [e[1] for e in els[:i]] + [self.alloc(st, t, "list", mid)] + [e[1] for e in els[len(els) - after:]]
                elif not star and n == 1 and len(els) == 1:
                    vals = [els[0][1]]
            if vals is None:
                if v[0] in ("elem", "val", "key", "idx") or True:
                    vals = []
                    for i, x in enumerate(t.elts):
                        if isinstance(x, ast.Starred):
                            vals.append(("item", v, ("slice", const(i), NONE, NONE)))
                        elif n == 1:
                            vals.append(("only", v))
                        else:
                            vals.append(("item", v, const(i)))
            cur = [st]
            for x, val in zip(t.elts, vals):
                x = x.value if isinstance(x, ast.Starred) else x
                cur = [r for c in cur for r in self.bind(x, val, c, X)]
            return cur
        if isinstance(t, ast.Starred):
            return self.bind(t.value, v, st, X)
        if isinstance(t, ast.Attribute):
            out = []
            for b, q in self.ev(t.value, st, X):
                q.attrs[(b, t.attr)] = v
                self.event(q, "setattr", t.attr, t, recv=b, args=(v,))
                self.forget(q, ("attr", self.freeze(b, q), t.attr))
                h = ("hasattr", self.freeze(b, q), const(t.attr))
                if h in q.facts:
                    q.facts[h] = True
                out.append(q)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for b, q in self.ev(t.value, st, X):
                for k, q2 in self.ev(t.slice, q, X):
                    if b[0] == "obj" and q2.heap[b[1]][0] in ("dict", "copy"):
                        kind, els, cls = q2.heap[b[1]]
                        q2.heap[b[1]] = (kind, self.dict_set(els, k, v, self.rel_loops(b, q2)), cls)
                    elif b[0] == "obj" and q2.heap[b[1]][0] == "list" and is_const(k) and isinstance(k[1], int) and not self.rel_loops(b, q2):
                        kind, els, cls = q2.heap[b[1]]
                        if all(e[0] == "e" and not e[2][1] for e in els) and -len(els) <= k[1] < len(els):
                            els = list(els)
                            els[k[1]] = ("e", v, ("L", ()))
                            q2.heap[b[1]] = (kind, tuple(els), cls)
                    self.event(q2, "setitem", "[]=", t, recv=b, args=(k, v), extra=b[1] if b[0] == "obj" else None)
                    self.forget(q2, self.freeze(b, q2) if b[0] != "obj" else None)
                    out.append(q2)
            return out
        return [st]

    def forget(self, st, term):
        if term is None:
            return
        for k in [k for k in st.facts if any(mentions(x, term) for x in k[1:] if isinstance(x, tuple))]:
            if k[0] != "dictlike":
                del st.facts[k]

    def _globals_decl(self):
        return self._decl(ast.Global)

    def _nonlocals_decl(self):
        return self._decl(ast.Nonlocal)

    def _decl(self, kind):
        fn = self.stack[-1]
        cache = self.__dict__.setdefault("_declcache", {})
        key = (id(fn.node), kind)
        if key not in cache:
            s = set()
            body = fn.node.body if isinstance(fn.node.body, list) else []
            for b in body:
                for x in ast.walk(b):
                    if isinstance(x, kind):
                        s.update(x.names)
            cache[key] = s
        return cache[key]

    def s_Delete(self, s, st, fid, fn, X):
        cur = [st]
        for t in s.targets:
            nxt = []
            for c in cur:
                if isinstance(t, ast.Name):
                    c.frames[c.cur].pop(t.id, None)
                    nxt.append(c)
                elif isinstance(t, ast.Subscript):
                    for b, q in self.ev(t.value, c, X):
                        for k, q2 in self.ev(t.slice, q, X):
                            if b[0] == "obj" and q2.heap[b[1]][0] in ("dict", "copy"):
                                kind, els, cls = q2.heap[b[1]]
                                q2.heap[b[1]] = (kind, tuple(x for x in els if not (x[0] == "kv" and x[1] == k)), cls)
                            self.event(q2, "delitem", "del[]", t, recv=b, args=(k,), extra=b[1] if b[0] == "obj" else None)
                            nxt.append(q2)
                elif isinstance(t, ast.Attribute):
                    for b, q in self.ev(t.value, c, X):
                        self.event(q, "delattr", t.attr, t, recv=b)
                        nxt.append(q)
            cur = nxt
        return [("next", None, c) for c in cur]

    def s_If(self, s, st, fid, fn, X):
        outs = []
        for b, q in self.test(s.test, st, X):
            outs += self.block(s.body if b else s.orelse, q, fid, fn)
        return self.merge(outs)

    def s_Assert(self, s, st, fid, fn, X):
        outs = []
        for b, q in self.test(s.test, st, X):
            if b:
                outs.append(("next", None, q))
            else:
                X.append((("exc", f"{fn.module.name}:{s.lineno}:assert", "AssertionError"), q))
        return outs

    def s_Raise(self, s, st, fid, fn, X):
        if s.exc is None:
            exc = self.exc_stack[-1] if self.exc_stack else ("exc", f"{fn.module.name}:{s.lineno}", "?")
            self.event(st, "raise", "reraise", s, args=(exc,))
            return [("raise", exc, st)]
        outs = []
        for v, q in self.ev(s.exc, st, X):
            if v[0] == "exc":
                exc = v
            else:
                fz = self.freeze(v, q)
                cname = "?"
                if fz[0] == "inst":
                    cname = fz[2]
                elif fz[0] == "res":
                    e = self.registry.get(fz[1])
                    cname = (e.qual or e.name) if e is not None else "?"
                    if cname.startswith("builtins."):
                        cname = cname[9:]
                elif fz[0] == "global":
                    cname = fz[1]
                if fz[0] in ("param", "attr", "item"):
                    exc = ("exc", fz, "?")
                else:
                    exc = ("exc", f"{fn.module.name}:{s.lineno}", cname)
            self.event(q, "raise", exc[2] if isinstance(exc[2], str) else "?", s, args=(exc,), extra=s.cause is not None)
            outs.append(("raise", exc, q))
        return outs

    def s_FunctionDef(self, s, st, fid, fn, X):
        v = self.mkclos(s, st)
        st.frames[st.cur][s.name] = v
        return [("next", None, st)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st, fid, fn, X):
        st.frames[st.cur][s.name] = ("unknown", "class:" + s.name)
        return [("next", None, st)]

    def s_Import(self, s, st, fid, fn, X):
        for a in s.names:
            st.frames[st.cur][a.asname or a.name.split(".")[0]] = ("global", a.name if a.asname else a.name.split(".")[0])
        return [("next", None, st)]

    def s_ImportFrom(self, s, st, fid, fn, X):
        base = fn.module._from_base(s)
        for a in s.names:
            r = self.ix.resolve(f"{base}.{a.name}" if base else a.name)
            st.frames[st.cur][a.asname or a.name] = ("global", self.ix.qual(r))
        return [("next", None, st)]

    def s_Break(self, s, st, fid, fn, X):
        if self.o.breaks:
            self.event(st, "break", "break", s)
        return [("break", None, st)]

    def s_Continue(self, s, st, fid, fn, X):
        return [("continue", None, st)]

    def s_For(self, s, st, fid, fn, X):
        outs = []
        for it, q in self.ev(s.iter, st, X):
            fails = it[0] == "failing"
            el = it[1] if fails else self.iter_elems(it, q)
            if el is not None and len(el) <= self.o.known_limit:
                cur = [q]
                for item in el:
                    nxt = []
                    for c in cur:
                        for b in self.bind(s.target, item, c, X):
                            for k, v, r in self.block(s.body, b, fid, fn):
                                if k in ("next", "continue"):
                                    nxt.append(r)
                                elif k == "break":
                                    outs.append(("next", None, r))
                                else:
                                    outs.append((k, v, r))
                    cur = [r for _, _, r in self.merge([("next", None, c) for c in nxt])]
                if fails:
                    for c in cur:
                        self.event(c, "iterfail", "next", s, args=(it,))
                        X.append((("exc", f"{fn.module.name}:{s.lineno}:iter", "?"), c))
                    continue
                for c in cur:
                    outs += self.block(s.orelse, c, fid, fn) if s.orelse else [("next", None, c)]
                continue
            fit = self.freeze(it, q)
            saved = q.loops
            self.mark_grown(s)
            # zero iterations
            for b, z in self.loop_entry(it, fit, q):
                if not b:
                    outs += self.block(s.orelse, z, fid, fn) if s.orelse else [("next", None, z)]
                    continue
                cur = [z]
                for i in range(self.o.unroll):
                    nxt = []
                    for c in cur:
                        c.loops = saved + (("loop", fit, s.lineno),)
                        elem = self.elem_of(it, c)
                        if i > 0:
                            elem = ("nth", i, elem) if elem[0] != "obj" else elem
                        pre_facts = set(c.facts)
                        for bb in self.bind(s.target, elem, c, X):
                            for k, v, r in self.block(s.body, bb, fid, fn):
                                r.loops = saved
                                if k in ("next", "continue"):
                                    nxt.append(r)
                                elif k == "break":
                                    outs.append(("next", None, r))
                                else:
                                    outs.append((k, v, r))
                    nxt = [r for _, _, r in self.merge([("next", None, c) for c in nxt])]
                    for c in nxt:
                        c2 = c.fork() if i + 1 < self.o.unroll else c
                        outs += self.block(s.orelse, c2, fid, fn) if s.orelse else [("next", None, c2)]
                    cur = nxt
        return self.merge(outs)

    s_AsyncFor = s_For

    def loop_entry(self, it, fit, st):
        v = self.known_truth(st, it) if it[0] == "obj" else None
        base = it
        if it[0] == "pure" and it[1] in ("items", "keys", "values") and it[2] is not None:
            base = it[2]
            v = self.known_truth(st, base) if base[0] == "obj" else None
        elif it[0] == "pure" and it[1] in ("enumerate", "sorted", "reversed", "iter") and it[3]:
            base = it[3][0]
            v = self.known_truth(st, base) if base[0] == "obj" else None
        if v is not None:
            return [(v, st)]
        return self.decide(st, ("truthy", self.freeze(base, st)))

    def s_While(self, s, st, fid, fn, X):
        outs = []
        saved = st.loops
        cur = {0: [st]}  # rounds whose test was not told for certain -> states
        exact = 0  # rounds whose test was: run as they come, not as "some round"
        while cur:
            i = min(cur)
            todo, nxt, sure = cur.pop(i), [], []
            for c in todo:
                f0 = set(c.facts)
                ts = self.test(s.test, c, X)
                known = len(ts) == 1 and not isinstance(s.test, ast.Constant) and not [k for k in ts[0][1].facts if k not in f0] and exact < 60
                if not known:
                    self.mark_grown(s)
                for b, q in ts:
                    newf = [k for k in q.facts if k not in f0]
                    if not b:
                        q.loops = saved
                        outs += self.block(s.orelse, q, fid, fn) if s.orelse else [("next", None, q)]
                        continue
                    if i == self.o.unroll and not known:
                        q.loops = saved
                        outs.append(("diverge", None, q))
                        continue
                    if not known:
                        q.loops = saved + (("loop", ("while", s.lineno), s.lineno),)
                    for k, v, r in self.block(s.body, q, fid, fn):
                        r.loops = saved
                        for kk in newf:
                            r.facts.pop(kk, None)
                        if k in ("next", "continue"):
                            (sure if known else nxt).append(r)
                        elif k == "break":
                            outs.append(("next", None, r))
                        else:
                            outs.append((k, v, r))
            if sure:
                exact += 1
                cur[i] = [r for _, _, r in self.merge([("next", None, c) for c in sure])]
            if nxt:
                cur[i + 1] = [r for _, _, r in self.merge([("next", None, c) for c in cur.get(i + 1, []) + nxt])]
        return self.merge(outs)

    def s_With(self, s, st, fid, fn, X):
        return self._with(list(s.items), s, st, fid, fn, X)

    s_AsyncWith = s_With

    def _with(self, items, s, st, fid, fn, X):
        if not items:
            return self.block(s.body, st, fid, fn)
        it = items[0]
        outs = []
        suppress = ()
        d = dotted(it.context_expr.func) if isinstance(it.context_expr, ast.Call) else None
        if d and d.split(".")[-1] == "suppress":
            suppress = tuple(self.exc_name(a, fn.module) for a in it.context_expr.args)
        for v, q in self.ev(it.context_expr, st, X):
            self.event(q, "enter", "enter", it.context_expr, args=(v,))
            cur = [q]
            if it.optional_vars is not None:
                cur = self.bind(it.optional_vars, ("entered", self.freeze(v, q)) if v[0] not in ("obj",) else v, q, X)
            for c in cur:
                if suppress:
                    self.hstack.append(suppress)
                try:
                    res = self._with(items[1:], s, c, fid, fn, X) if len(items) > 1 else self.block(s.body, c, fid, fn)
                finally:
                    if suppress:
                        self.hstack.pop()
                for k, val, r in res:
                    if k != "diverge":
                        self.event(r, "exit", "exit", it.context_expr, args=(v,), extra=k)
                    if k == "raise" and suppress:
                        ms = [exc_matches(self.ix, val[2], n) for n in suppress]
                        if any(m is True for m in ms) and val[2] != "$base":
                            self.event(r, "swallow", "suppress", it.context_expr, args=(val,))
                            outs.append(("next", None, r))
                            continue
                        if any(m is None for m in ms):
                            r2 = r.fork()
                            self.event(r2, "swallow", "suppress", it.context_expr, args=(val,))
                            outs.append(("next", None, r2))
                    outs.append((k, val, r))
        return self.merge(outs)

    def exc_name(self, e, module):
        d = dotted(e)
        if d is None:
            return "?"
        return self.ix.qual(self.ix.resolve_name(module, d))

    def handler_names(self, h, module):
        if h.type is None:
            return ("BaseException",)
        if isinstance(h.type, ast.Tuple):
            return tuple(self.exc_name(x, module) for x in h.type.elts)
        return (self.exc_name(h.type, module),)

    def s_Try(self, s, st, fid, fn, X):
        names = [self.handler_names(h, fn.module) for h in s.handlers]
        flat = tuple(n for ns in names for n in ns)
        self.hstack.append(flat)
        try:
            body = self.block(s.body, st, fid, fn)
        finally:
            self.hstack.pop()
        outs = []
        for k, v, q in body:
            if k == "next":
                outs += self.block(s.orelse, q, fid, fn) if s.orelse else [("next", None, q)]
            elif k == "raise" and s.handlers:
                outs += self.handle(s, names, v, q, fid, fn, X)
            else:
                outs.append((k, v, q))
        outs = self.merge(outs)
        if not s.finalbody:
            return outs
        res = []
        for k, v, q in outs:
            if k == "diverge":
                res.append((k, v, q))
                continue
            if k == "raise":
                self.exc_stack.append(v)
            try:
                fin = self.block(s.finalbody, q, fid, fn)
            finally:
                if k == "raise":
                    self.exc_stack.pop()
            for k2, v2, r in fin:
                if k2 == "next":
                    res.append((k, v, r))
                else:
                    if k == "raise" and k2 in ("return", "break", "continue"):
                        self.event(r, "swallow", "finally-" + k2, s, args=(v,))
                    res.append((k2, v2, r))
        return self.merge(res)

    s_TryStar = s_Try

    def handle(self, s, names, exc, st, fid, fn, X):
        outs = []
        cur = st
        for h, ns in zip(s.handlers, names):
            if isinstance(h.type, ast.Name):
                v = cur.frames[cur.cur].get(h.type.id) if isinstance(cur.frames.get(cur.cur) if hasattr(cur.frames, "get") else cur.frames[cur.cur], dict) else None
                if v is not None and v[0] == "attr":
                    ns = (tstr(v),)  # a local name for an attribute that holds the exception class
            if exc[2] == "$base":
                m = True if "BaseException" in ns else False
            else:
                ms = [exc_matches(self.ix, exc[2], n) for n in ns]
                m = True if any(x is True for x in ms) else (None if any(x is None for x in ms) else False)
            if m is False:
                continue
            q = cur if m else cur.fork()
            if m is None:
                q.facts[("excis", exc, ns)] = True
                cur.facts[("excis", exc, ns)] = False
            if h.name:
                q.frames[q.cur][h.name] = exc
            self.event(q, "caught", "except", h, args=(exc,), extra=ns)
            self.exc_stack.append(exc)
            try:
                r = self.block(h.body, q, fid, fn)
            finally:
                self.exc_stack.pop()
            for k, v, z in r:
                if h.name:
                    z.frames[z.cur].pop(h.name, None) if z.cur in z.frames else None
                outs.append((k, v, z))
            if m:
                return outs
        outs.append(("raise", exc, cur))
        return outs

    def s_Match(self, s, st, fid, fn, X):
        outs = []
        for v, q in self.ev(s.subject, st, X):
            cur = [q]
            for case in s.cases:
                nxt = []
                for c in cur:
                    for b, r in self.match(case.pattern, v, c, X):
                        if b and case.guard is not None:
                            for g, r2 in self.test(case.guard, r, X):
                                if g:
                                    outs += self.block(case.body, r2, fid, fn)
                                else:
                                    nxt.append(r2)
                        elif b:
                            outs += self.block(case.body, r, fid, fn)
                        else:
                            nxt.append(r)
                cur = nxt
            outs += [("next", None, c) for c in cur]
        return self.merge(outs)

    def match(self, p, v, st, X):
        if isinstance(p, ast.MatchValue):
            out = []
            for c, s in self.ev(p.value, st, X):
                out += self.compare("==", v, c, s)
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.compare("is", v, const(p.value), st)
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                st.frames[st.cur][p.name] = v
            return [(True, st)]
        if isinstance(p, ast.MatchOr):
            outs, cur = [], [st]
            for x in p.patterns:
                nxt = []
                for c in cur:
                    for b, s in self.match(x, v, c, X):
                        (outs.append((True, s)) if b else nxt.append(s))
                cur = nxt
            return outs + [(False, c) for c in cur]
        return self.decide(st, ("match", self.freeze(v, st), const(ast.dump(p)[:200])))


def names(*ns, kinds=("call", "callv", "new")):
    """Event filter: keep only calls with one of these names."""
    ns = set(ns)
    return lambda e: e.kind in kinds and e.name in ns


def paths_of(ix, func, self_cls=None, bind=None, **opts):
    it = Interp(ix, Opts(**opts))
    ps = it.run(func, self_cls=self_cls, bind=bind)
    if not ps:
        raise AnalysisBroken(f"no feasible path through {func.qual}")
    return ps
