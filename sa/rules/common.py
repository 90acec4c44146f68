"""Shared vocabulary of the rules."""
from ..index import AnalysisBroken, Cls, Func  # noqa: F401
from ..interp import FALSE, NONE, TRUE, const, mentions, names, subterms, tstr  # noqa: F401

HOOKS = {"call_all_lifecycle_hooks_sync", "call_all_lifecycle_hooks_async", "call_all_lifecycle_hooks_sync_and_async"}
METHODS = {"call_lifecycle_method_sync", "call_lifecycle_method_async"}
PURE = ("does_hook", "does_method", "does_validation")
BENIGN = {
    "capture_execute_telemetry", "capture_constructor_telemetry", "sanitize_error", "create_error_message", "create_input_string",
    "capture_function_usage", "exc_info", "time", "perf_counter", "monotonic", "uuid4", "uuid1", "iscoroutinefunction", "utcnow", "now",
    "is_telemetry_enabled", "datetime", "format_exception", "format_exc", "isEnabledFor", "pformat", "PrettyPrinter", "isawaitable",
}


def hook(e):
    if e.kind == "call" and e.name in HOOKS:
        a = e.arg("hook_name", 0)
        if a is not None and a[0] == "const":
            return a[1]
    return None


def method(e):
    if e.kind == "call" and e.name in METHODS:
        a = e.arg("method_name", 0)
        if a is not None and a[0] == "const":
            return a[1]
    return None


def kw(e, name):
    """Keyword given to a hook/method call, looking through literal dict spreads."""
    if name in e.kwargs:
        return e.kwargs[name]
    if e.bound and name in e.bound:
        return e.bound[name]
    return None


def external(ix, e):
    """A call into the standard library / third party code by module path (not a method of a value)."""
    if e.recv is not None:
        return False
    if e.qual is None:
        return False
    return e.qual.split(".")[0] not in ("hamilton", "hamilton_sdk", "hamilton_lsp")


def project_raises(ix, benign=BENIGN):
    def r(e):
        if e.name in benign:
            return False
        return not external(ix, e)
    return r


def project_keep(ix, benign=BENIGN, extra=()):
    def k(e):
        if e.kind in ("setattr", "mut", "setitem", "delitem", "aug", "delattr", "setglobal", "enter", "exit", "yield"):
            return e.kind in extra
        if e.name in benign or external(ix, e):
            return False
        return True
    return k


def does(path, what, name, default=None):
    """Truth of does_hook/does_method(<name>) assumed on this path (None when never asked)."""
    out = default
    for k, v in path.facts.items():
        if k[0] == "truthy" and k[1][0] == "pure" and k[1][1] == what:
            a = k[1][3][0] if k[1][3] else dict(k[1][4]).get("hook_name") or dict(k[1][4]).get("method_name")
            if a == const(name):
                out = v
    return out


def result_terms(e):
    """Terms denoting the value produced by a call event."""
    r = ("res", e.uid)
    return (r, ("awaited", r))


def strip_await(t):
    while isinstance(t, tuple) and t and t[0] == "awaited":
        t = t[1]
    return t


def fname(e):
    return e.func


def unwrap(t):
    """See through shallow copies: dict(x), {**x}, x.copy(), list(x)."""
    while isinstance(t, tuple) and t and t[0] in ("dict", "copy", "list", "set", "tuple") and len(t) > 1 and isinstance(t[1], tuple) \
            and len(t[1]) == 1 and t[1][0][0] == "spread" and not t[1][0][-1][1]:
        t = t[1][0][1]
    return t


def dict_layers(t):
    """Layers of a dict term, lowest precedence first: spread bases and ('kv', k, v) records."""
    if not isinstance(t, tuple) or not t:
        return []
    if t[0] in ("dict", "copy"):
        out = []
        for e in t[1]:
            if e[0] == "spread":
                out += dict_layers(e[1]) if e[1][0] in ("dict", "copy") else [e[1]]
            else:
                out.append(e)
        return out
    return [t]


def nofact(path, key):
    return path.facts.get(key)


def guard_has(rec, pred):
    """Does a comprehension element record carry a guard fact satisfying pred(key, value)?"""
    L = rec[-1]
    if isinstance(L, tuple) and L and L[0] == "L" and len(L) > 2:
        return any(pred(k, v) for k, v in L[2])
    return False
