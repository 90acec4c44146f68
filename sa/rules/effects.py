"""Interprocedural mutation effects: which function changes which object it did not create."""
from .common import *

MUT = {"append", "extend", "insert", "add", "update", "pop", "popitem", "clear", "remove", "discard", "setdefault", "sort", "reverse", "appendleft", "popleft", "extendleft",
       "__setitem__", "__delitem__", "difference_update", "intersection_update", "symmetric_difference_update"}
SEL = ("attr", "elem", "item", "val", "key", "awaited")


def roots(t, chain=(), depth=0):
    """{(root term, access chain)}: the objects not created here that a term may denote (or contain, below `chain`)."""
    if not isinstance(t, tuple) or not t or depth > 40:
        return set()
    if t[0] in ("param", "global"):
        return {(t, tuple(reversed(chain)))}
    if t[0] == "attr":
        return roots(t[1], chain + (t[2],), depth + 1)
    if t[0] in ("elem", "item", "val", "get"):
        return roots(t[1], chain + ("*",), depth + 1)
    if t[0] in ("dict", "list", "set", "tuple", "copy") and len(t) > 1 and isinstance(t[1], tuple):
        if not chain or chain[-1] != "*":
            return set()  # a new container
        out = set()
        for r in t[1]:
            if not isinstance(r, tuple) or not r:
                continue
            if r[0] == "kv":
                out |= roots(r[2], chain[:-1], depth + 1)
            elif r[0] == "e":
                out |= roots(r[1], chain[:-1], depth + 1)
            elif r[0] == "spread":
                out |= roots(r[1], chain, depth + 1)
        return out
    if t[0] == "pure" and t[1] in ("list", "items", "values", "sorted", "reversed", "iter", "enumerate", "zip", "tuple", "set", "chain") and chain and chain[-1] == "*":
        out = set()
        for a in (list(t[3]) + [t[2]]):
            out |= roots(a, chain, depth + 1) if a is not None else set()
        return out
    if t[0] == "pure" and t[1] == "get" and t[2] is not None:
        return roots(t[2], chain + ("*",), depth + 1)
    return set()


def effect_targets(e):
    if e.kind == "call" and e.name in MUT and e.recv is not None and e.qual is None:
        return roots(e.recv)
    if e.kind in ("mut", "setitem", "delitem"):
        return roots(e.recv)
    if e.kind == "aug":
        return roots(e.recv) if e.recv is not None else set()
    if e.kind in ("setattr", "delattr"):
        return {(r, c + (e.name,)) for r, c in roots(e.recv)}
    if e.kind == "setglobal":
        return {(("global", str(e.name)), ())}
    return set()


def keep(e):
    return e.kind in ("setitem", "delitem", "aug", "mut", "setattr", "delattr", "setglobal", "call", "callv", "new")


class Effects:
    def __init__(self, ctx, mods, skip=(), inline_modules=()):
        self.ctx, self.ix = ctx, ctx.ix
        self.mods, self.skip = mods, skip
        self.memo = {}
        self.busy = set()
        self.inline_modules = inline_modules
        self.broken = []

    def of(self, f, self_cls=None, depth=0):
        """{(param name | global, chain): where} of effects of calling f (transitively)."""
        key = (f.qual, self_cls.qual if self_cls else None)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy or depth > 25:
            return {}
        if f.name in self.skip or not self.mods(f.module.name):
            return {}
        self.busy.add(key)
        out = {}
        try:
            ps = self.ctx.paths(f, self_cls=self_cls, raises="none", keep=keep, inline_modules=[f.module.name] if f.module.name in self.inline_modules else [],
                                inline=lambda g: True if g.parent is not None or g.name == "combine_config_and_inputs" else None, opaque=list(self.skip))
        except AnalysisBroken as e:
            self.broken.append((f.qual, str(e)))
            ps = []
        seen = set()
        for p in ps:
            for e in p.trace:
                for r, c in effect_targets(e):
                    out.setdefault((r, c), (e.where(), p))
                g = self.callee(e, self_cls)
                if g is not None and (e.node_key() if hasattr(e, "node_key") else (e.where(), e.recv, e.args)) not in seen:
                    gf, gc = g
                    sub = self.of(gf, gc, depth + 1)
                    if not sub:
                        continue
                    b = dict(e.bound or {})
                    if gf.cls is not None and e.recv is not None:
                        b.setdefault("self", e.recv)
                    for (r, c), w in sub.items():
                        if r[0] == "global":
                            out.setdefault((r, c), w)
                            continue
                        t = b.get(r[1])
                        if t is None:
                            continue
                        for r2, c2 in roots(t, tuple(reversed(c))):
                            out.setdefault((r2, c2), (e.where() + " -> " + w[0], p))
        self.busy.discard(key)
        self.memo[key] = out
        return out

    def callee(self, e, self_cls):
        if e.kind not in ("call", "new", "callv") or not e.qual:
            return None
        q = e.qual
        if e.kind == "new":
            return None
        try:
            f = self.ix.func(q)
        except Exception:  # noqa: BLE001
            return None
        if f is None or not hasattr(f, "module"):
            return None
        return f, f.cls
