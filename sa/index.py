"""Program index: parses the repository's packages and resolves names, classes,
methods and imports.  Nothing of the analysed program is imported or executed."""
import ast
import builtins
import os
from functools import lru_cache

REPO = os.environ.get("VERIF_REPO", "/repo")

ROOTS = {
    "hamilton": os.path.join(REPO, "hamilton"),
    "hamilton_sdk": os.path.join(REPO, "ui/sdk/src/hamilton_sdk"),
    "hamilton_lsp": os.path.join(REPO, "dev_tools/language_server/hamilton_lsp"),
}


class AnalysisBroken(Exception):
    """The analysis lost an anchor / exceeded its bounds: never a silent pass."""


class Func:
    def __init__(self, module, node, cls=None, parent=None):
        self.module = module
        self.node = node
        self.cls = cls
        self.parent = parent
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        prefix = cls.qual if cls else (parent.qual + ".<locals>" if parent else module.name)
        self.qual = prefix + "." + self.name
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.decorators = [dotted(d.func if isinstance(d, ast.Call) else d) for d in getattr(node, "decorator_list", [])]

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_property(self):
        return any(d and (d == "property" or d.endswith("cached_property") or d.endswith("abstractproperty")) for d in self.decorators)

    @property
    def is_generator(self):
        for n in walk_own(self.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    def params(self):
        a = self.node.args
        return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]

    def loc(self, node=None):
        node = node or self.node
        return f"{self.module.rel}:{getattr(node, 'lineno', 0)}"

    def __repr__(self):
        return f"<Func {self.qual}>"


class Cls:
    def __init__(self, module, node, parent=None):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = (parent.qual if parent else module.name) + "." + node.name
        self.methods = {}
        self.attrs = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                # keep property getters in preference to setters
                if s.name in self.methods and any((dotted(d) or "").endswith(".setter") for d in s.decorator_list):
                    continue
                self.methods[s.name] = Func(module, s, cls=self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.attrs[s.target.id] = s.value
        self.decorators = [dotted(d.func if isinstance(d, ast.Call) else d) for d in node.decorator_list]

    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"

    def __repr__(self):
        return f"<Cls {self.qual}>"


class Module:
    def __init__(self, name, path, is_pkg):
        self.name = name
        self.path = path
        self.is_pkg = is_pkg
        self.rel = os.path.relpath(path, REPO)
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, filename=path)
        self.imports = {}
        self.functions = {}
        self.classes = {}
        self.assigns = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom):
                base = self._from_base(s)
                for a in s.names:
                    self.imports.setdefault(a.asname or a.name, f"{base}.{a.name}" if base else a.name)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[s.name] = Func(self, s)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Cls(self, s)
                for inner in s.body:
                    if isinstance(inner, ast.ClassDef):
                        c = Cls(self, inner, parent=self.classes[s.name])
                        self.classes[f"{s.name}.{inner.name}"] = c
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append(s.value)
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name) and s.value is not None:
                    self.assigns.setdefault(s.target.id, []).append(s.value)
            elif isinstance(s, ast.If):
                t = s.test
                if not (isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__"):
                    self._scan(s.body)
                self._scan(s.orelse)
            elif isinstance(s, ast.Try):
                self._scan(s.body)
                for h in s.handlers:
                    self._scan(h.body)
                self._scan(s.orelse)
                self._scan(s.finalbody)
            elif isinstance(s, ast.With):
                self._scan(s.body)

    def _from_base(self, s):
        if s.level == 0:
            return s.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if s.level > 1:
            parts = parts[: len(parts) - (s.level - 1)]
        base = ".".join(parts)
        return f"{base}.{s.module}" if s.module else base


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return f"{b}.{e.attr}" if b else None
    return None


def walk_own(fnode):
    """Walk a function's own body without descending into nested functions/classes."""
    stack = list(fnode.body) if isinstance(fnode.body, list) else [fnode.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Index:
    def __init__(self, roots=None):
        self.modules = {}
        self.consulted = set()
        for pkg, root in (roots or ROOTS).items():
            if not os.path.isdir(root):
                continue
            for dp, dn, fn in os.walk(root):
                dn[:] = sorted(d for d in dn if d != "__pycache__")
                for f in sorted(fn):
                    if not f.endswith(".py"):
                        continue
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    is_pkg = rel == "__init__" or rel.endswith(".__init__")
                    if is_pkg:
                        rel = rel[: -len("__init__")].rstrip(".")
                    name = pkg + ("." + rel if rel else "")
                    try:
                        self.modules[name] = Module(name, p, is_pkg)
                    except SyntaxError as e:
                        raise AnalysisBroken(f"cannot parse {p}: {e}")
        self.subclasses = None

    # ------------------------------------------------------------ resolution
    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisBroken(f"anchor module vanished: {name}")
        self.consulted.add(name)
        return m

    def resolve(self, path, _depth=0):
        """Canonicalise a dotted path, following re-exports. Returns Module/Cls/Func/str."""
        if _depth > 12:
            return path
        if path in self.modules:
            return self.modules[path]
        parts = path.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mname = ".".join(parts[:i])
            if mname in self.modules:
                m = self.modules[mname]
                head, rest = parts[i], parts[i + 1:]
                if head in m.functions and not rest:
                    return m.functions[head]
                if head in m.classes:
                    c = m.classes[head]
                    if not rest:
                        return c
                    nested = f"{head}.{rest[0]}"
                    if nested in m.classes:
                        return m.classes[nested] if len(rest) == 1 else path
                    r = self.find_method(c, rest[0])
                    if r is not None and len(rest) == 1:
                        return r
                    return c.qual + "." + ".".join(rest)
                if head in m.imports:
                    return self.resolve(".".join([m.imports[head]] + rest), _depth + 1)
                if head in m.assigns and not rest:
                    vs = m.assigns[head]
                    if len(vs) == 1:
                        d = dotted(vs[0])
                        if d:
                            return self.resolve_name(m, d, _depth + 1)
                return path
        return path

    def resolve_name(self, module, name, _depth=0):
        """Resolve a (dotted) name as seen from a module's global scope."""
        head, _, rest = name.partition(".")
        if head in module.functions or head in module.classes or head in module.assigns:
            return self.resolve(f"{module.name}.{name}", _depth + 1)
        if head in module.imports:
            t = module.imports[head]
            return self.resolve(t + ("." + rest if rest else ""), _depth + 1)
        return name

    def qual(self, r):
        if isinstance(r, str):
            return r
        if isinstance(r, Module):
            return r.name
        return r.qual

    # ------------------------------------------------------------ classes
    def bases(self, c):
        out = []
        for b in c.node.bases:
            d = dotted(b.value if isinstance(b, ast.Subscript) else b)
            if d is None:
                continue
            out.append(self.resolve_name(c.module, d))
        return out

    def mro(self, c):
        """C3 linearisation restricted to project classes; external bases kept as strings."""
        memo = getattr(self, "_mro", None)
        if memo is None:
            memo = self._mro = {}
        if c in memo:
            return memo[c]
        memo[c] = [c]
        seqs = []
        for b in self.bases(c):
            seqs.append(list(self.mro(b)) if isinstance(b, Cls) else [b])
        seqs.append(list(self.bases(c)))
        res = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            res.append(cand)
            seqs = [[x for x in s if x is not cand and x != cand] for s in seqs]
            seqs = [s for s in seqs if s]
        memo[c] = res
        return res

    def find_method(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro[1:]
        for k in mro:
            if isinstance(k, Cls) and name in k.methods:
                return k.methods[name]
        return None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Cls) and name in k.attrs:
                return k, k.attrs[name]
        return None

    def is_subclass(self, c, qual):
        for k in self.mro(c):
            q = k.qual if isinstance(k, Cls) else k
            if q == qual:
                return True
        return False

    def all_classes(self):
        for m in self.modules.values():
            for c in m.classes.values():
                yield c

    def subclasses_of(self, qual, strict=True):
        out = []
        for c in self.all_classes():
            if self.is_subclass(c, qual) and not (strict and c.qual == qual):
                out.append(c)
        return sorted(out, key=lambda c: c.qual)

    # ------------------------------------------------------------ anchors
    def cls(self, qual):
        r = self.resolve(qual)
        if not isinstance(r, Cls):
            raise AnalysisBroken(f"anchor class vanished: {qual}")
        self.consulted.add(r.module.name)
        return r

    def func(self, qual):
        r = self.resolve(qual)
        if not isinstance(r, Func):
            raise AnalysisBroken(f"anchor function vanished: {qual}")
        self.consulted.add(r.module.name)
        return r

    def try_func(self, qual):
        r = self.resolve(qual)
        return r if isinstance(r, Func) else None

    def method(self, c, name):
        f = self.find_method(c, name)
        if f is None:
            raise AnalysisBroken(f"anchor method vanished: {c.qual}.{name}")
        self.consulted.add(f.module.name)
        return f

    def all_funcs(self, modules=None):
        for m in self.modules.values():
            if modules and not modules(m.name):
                continue
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f


def exc_matches(ix, cls_name, handler_name):
    """Does an exception of class cls_name match `except handler_name`?  True/False/None(unknown)."""
    if handler_name in ("Exception", "BaseException", "builtins.Exception", "builtins.BaseException"):
        return True
    if cls_name == handler_name:
        return True
    if cls_name in ("?", None):
        return None
    a = getattr(builtins, cls_name.split(".")[-1], None) if "." not in cls_name else None
    b = getattr(builtins, handler_name.split(".")[-1], None) if "." not in handler_name else None
    if a is not None and b is not None:
        try:
            return issubclass(a, b)
        except TypeError:
            return None
    r = ix.resolve(cls_name)
    if isinstance(r, Cls):
        chain = []
        for k in ix.mro(r):
            chain.append(k.qual if isinstance(k, Cls) else k)
        if handler_name in chain:
            return True
        for k in chain:
            kb = getattr(builtins, k, None) if "." not in k else None
            if kb is not None and b is not None:
                return issubclass(kb, b)
        return False
    if a is not None and b is None:
        return False
    return None
