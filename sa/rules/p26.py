"""P26: telemetry is sent only when enabled, tells nothing about the user's program and never affects it."""
import ast

from ..interp import is_const
from .common import *
from .p24 import L, V, entries, items, names, paths

M = "hamilton.telemetry."
FLAG = ("global", M + "g_telemetry_enabled")
ON = ("truthy", FLAG)
CALLS = ("call", "callv", "new")


def fn(ctx, q):
    f = ctx.ix.func(M + q)
    ctx.need(f is not None, f"{M}{q} is gone")
    return f


def flag_of(p):
    return p.facts.get(ON)


def gate(ctx):
    ctx.rule("(gate) an event is handed to a thread of its own only when telemetry is enabled, once; nothing else reaches the server; a thread that cannot be started and a server that fails are no errors.")
    ix = ctx.ix
    f = fn(ctx, "send_event_json")
    ev = ("param", names(f)[0])
    sends = 0
    for how in ("none", "all"):
        for p in paths(ctx, f, raises=how, opaque=["_send_event_json", "join"]):
            ths = [e for e in p.trace if e.kind in CALLS and e.name == "Thread"]
            direct = [e for e in p.trace if e.kind in CALLS and e.name in ("_send_event_json", "urlopen")]
            ctx.check(not direct, "gate:own-thread", f.loc(), "an event is sent from the caller's thread", p)
            if flag_of(p) is not True:
                ctx.check(flag_of(p) is False and not ths, "gate:disabled", f.loc(), "an event is sent although telemetry is disabled", p)
                continue
            if p.kind != "return":
                ctx.bad("gate:thread-fails", f.loc(), "a thread that cannot be started is an error for the caller", p)
                continue
            if how == "none":
                sends += 1
                ctx.check(len(ths) == 1 and "_send_event_json" in tstr(ths[0].arg("target", 1)) and mentions(ths[0].arg("args", 3) or ths[0].arg("kwargs", 4), ev), "gate:event", f.loc(), "the event given is not the one handed to the sending thread", p)
                st = [e for e in p.trace if e.name == "start"]
                ctx.check(len(st) == 1 and not any(e.name in ("join", "run") for e in p.trace), "gate:started", f.loc(), "the sending thread is not started, or is waited for", p)
    ctx.need(sends, "no path of send_event_json sends")
    g = fn(ctx, "_send_event_json")
    for p in paths(ctx, g, raises="all", max_paths=40000):
        ctx.check(p.kind != "raise", "gate:server-fails", g.loc(), "an error while sending leaves the sending function", p)
    posts = [e for p in paths(ctx, g) for e in p.trace if e.name == "urlopen"]
    ctx.need(posts, "_send_event_json does not call urlopen")
    for e in posts:
        ctx.check(e.arg("timeout", 2) is not None and e.arg("timeout", 2) != NONE, "gate:timeout", e.where(), "sending has no time limit")
    # nothing else uses the server or the sending function
    for m in ix.modules.values():
        if not m.name.startswith("hamilton."):
            continue
        for d in ast.walk(m.tree):
            nm = d.id if isinstance(d, ast.Name) and isinstance(d.ctx, ast.Load) else d.attr if isinstance(d, ast.Attribute) else None
            if nm in ("TRACK_URL", "_send_event_json") and (m.name + "." == M or isinstance(d, ast.Attribute)):
                owner = [x.name for x in m.tree.body if isinstance(x, ast.FunctionDef) and x.lineno <= d.lineno <= x.end_lineno]
                want = {"TRACK_URL": ["_send_event_json"], "_send_event_json": ["send_event_json"]}[nm]
                ctx.check(m.name + "." == M and (owner == want or owner and reached_only(ctx, owner[0], want[0])), f"gate:only:{nm}", f"{m.rel}:{d.lineno}", f"{nm} is used by {owner or 'the module'} of {m.name}, past the gate")


def reached_only(ctx, helper, root):
    """`helper` is used by `root` only (a part of it moved out)."""
    m = ctx.ix.modules[M[:-1]]
    uses = {x.name for x in m.tree.body if isinstance(x, ast.FunctionDef) and x.name != helper for d in ast.walk(x) if isinstance(d, ast.Name) and d.id == helper}
    return uses == {root} or uses == {"send_event_json"} and root == "_send_event_json"


def switch(ctx):
    ctx.rule("(switch) the environment decides if it says yes or no, else the config file if it does, else the default (on); disable_telemetry() turns telemetry off and nothing turns it on again; "
             "is_telemetry_enabled() is true iff it is on and the session's limit is not reached.")
    ix = ctx.ix
    f = fn(ctx, "_check_config_and_environ_for_telemetry_flag")
    dflt, cfg = (("param", n) for n in names(f))
    n = 0
    for p in paths(ctx, f, raises=lambda e: e.name == "getboolean"):
        if p.kind != "return":
            ctx.check(any(k[0] == "excis" and "ValueError" in str(k[2]) and not v for k, v in p.facts.items()), "switch:unreadable", f.loc(), "a setting that is neither yes nor no is an error", p)
            continue
        n += 1
        envs = [e for e in p.trace if e.kind == "call" and e.name in ("get", "getenv") and e.args and e.args[0] == const("HAMILTON_TELEMETRY_ENABLED")]
        if not envs:
            ctx.need(not any(mentions(x, const("HAMILTON_TELEMETRY_ENABLED")) for e in p.trace for x in [*e.args, *([e.recv] if e.recv else [])]) and not mentions(tuple(p.facts), const("HAMILTON_TELEMETRY_ENABLED")), "the environment is read in a way the analysis does not follow")
            ctx.bad("switch:environment", f.loc(), "HAMILTON_TELEMETRY_ENABLED is not looked at", p)
            continue
        R = [("res", e.uid) for e in envs]
        there = {v for k, v in p.facts.items() if k[0] == "isnone" and k[1] in R}
        ctx.need(len(there) == 1, "whether HAMILTON_TELEMETRY_ENABLED is set is decided in a way the analysis does not follow")
        gone = there.pop()
        gb = [e for e in p.trace if e.name == "getboolean"]
        puts = [e for e in p.trace if e.kind == "setitem" and any(r in e.args for r in R) or e.name == "set" and any(r in e.args for r in R)]
        conf = [e for e in gb if not puts or p.trace.index(e) < p.trace.index(puts[0])]
        envb = [e for e in gb if e not in conf]
        inconf = [v for k, v in {**p.facts, **p.trace[0].nfacts}.items() if k[0] == "in" and k[1] == const("telemetry_enabled")]
        want = dflt
        if conf and conf[0].outcome == "ok":
            want = ("res", conf[0].uid)
        ctx.check(bool(conf) if inconf != [False] else not conf, "switch:config", f.loc(), "the setting in the config file is not looked at", p)
        if not gone:
            ctx.check(bool(envb), "switch:environment", f.loc(), "HAMILTON_TELEMETRY_ENABLED is not looked at", p)
            if envb and envb[0].outcome == "ok":
                want = ("res", envb[0].uid)
        ctx.check(p.value == want, "switch:value", f.loc(), f"telemetry is set to {tstr(p.value)[:60]} with the environment {'unset' if gone else 'set'} and the config file {'set' if conf else 'silent'}", p)
    ctx.need(n, "no path of the settings returns")
    # who writes the flag
    d = fn(ctx, "disable_telemetry")
    for p in paths(ctx, d):
        ctx.check(p.kind == "return" and [e.args[-1] for e in p.trace if e.kind == "setglobal" and e.name == "g_telemetry_enabled"][-1:] == [const(False)], "switch:disable", d.loc(), "disable_telemetry() does not turn telemetry off", p)
    mod = ix.modules[M[:-1]]
    for m in ix.modules.values():
        if not m.name.startswith("hamilton."):
            continue
        for s in ast.walk(m.tree):
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, (ast.AugAssign, ast.AnnAssign)) else []):
                nm = t.id if isinstance(t, ast.Name) and m is mod else t.attr if isinstance(t, ast.Attribute) else None
                if nm != "g_telemetry_enabled":
                    continue
                top = s in m.tree.body and m is mod
                v = s.value
                ctx.check(top or isinstance(v, ast.Constant) and v.value is False, "switch:turned-on", f"{m.rel}:{s.lineno}", f"telemetry is set to {ast.unparse(v)[:60]} after it was decided")
                if top:
                    ctx.need(isinstance(v, ast.Call) and True, "the flag is initialised in a way the analysis does not follow")
                    ctx.check(ast.unparse(v.func).endswith(f.name) and len(v.args) == 2 and isinstance(v.args[0], ast.Constant) and ast.unparse(v.args[1]) == "config", "switch:initial", f"{m.rel}:{s.lineno}", f"the flag starts as {ast.unparse(v)[:60]}")
    g = fn(ctx, "is_telemetry_enabled")
    for p in paths(ctx, g, raises="none"):
        on = flag_of(p)
        ctx.need(p.kind == "return" and is_const(p.value) or on is True, "is_telemetry_enabled() answers something other than yes or no")
        if on is not True:
            ctx.check(p.value == const(False), "switch:asked", g.loc(), "is_telemetry_enabled() says yes although telemetry is disabled", p)
            continue
        cnt = [e for e in p.trace if e.kind == "setglobal" and e.name == "call_counter"]
        ctx.check(len(cnt) == 1, "switch:count", g.loc(), "the events of the session are not counted", p)
        lim = [(k, v) for k, v in p.facts.items() if k[0] in ("lt", "le") and mentions(k, ("global", M + "call_counter"))]
        ctx.need(len(lim) == 1, "the session's limit is compared in a way the analysis does not follow")
        k, v = lim[0]
        big = is_const(k[1])  # limit < counter
        over = v if big else not v
        ctx.check(p.value == const(not over), "switch:limit", g.loc(), f"is_telemetry_enabled() is {tstr(p.value)} with the session's limit {'passed' if over else 'not reached'}", p)


def needy(ctx):
    """The functions of hamilton.telemetry that may only be called when telemetry is enabled (they raise otherwise)."""
    m = ctx.ix.modules[M[:-1]]
    out = {M + "send_event_json"}
    while True:
        more = set()
        for f in m.functions.values():
            if f.qual in out:
                continue
            if not any(isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and M + d.func.id in out for d in ast.walk(f.node)):
                continue
            for p in paths(ctx, f, opaque=[q.rsplit(".", 1)[1] for q in out] + ["is_telemetry_enabled"]):
                if any(e.qual in out and not allowed(p, e) for e in p.trace):
                    more.add(f.qual)
        if not more:
            return out
        out |= more


def allowed(p, e):
    i = p.trace.index(e)
    if any(x.qual == M + "is_telemetry_enabled" and p.facts.get(("truthy", ("res", x.uid))) for x in p.trace[:i]):
        return True
    return flag_of(p) is True


def where_from(ix, m, name):
    return ix.qual(ix.resolve(f"{m.name}.{name}"))


def nested(f):
    """Inline the functions defined inside f, nothing else."""
    return lambda g: True if g.qual.startswith(f.qual + ".<locals>.") else None


def callers(ctx, targets):
    """(function, [(path, event)]) for every function outside hamilton.telemetry that calls one of targets, closures it returns included."""
    ix = ctx.ix
    short = {q.rsplit(".", 1)[1] for q in targets}
    for f in ix.all_funcs(lambda n: n.startswith("hamilton.") and n + "." != M):
        hits = [d for d in ast.walk(f.node) if isinstance(d, ast.Attribute) and d.attr in short and isinstance(d.value, ast.Name) and where_from(ix, f.module, d.value.id).endswith("telemetry") or isinstance(d, ast.Name) and where_from(ix, f.module, d.id) in targets]
        if not hits:
            continue
        yield f, hits


def runs_of(ctx, f, raises):
    """All abstract paths of f and of the functions it returns."""
    opts = dict(raises=raises, keep=lambda e: True, keyfacts=lambda k: True, keyev=lambda e: True, max_paths=40000, inline=nested(f))
    out = []
    opaque = [x for x in ("_raw_execute", "raw_execute", "_process_materializers", "_perform_graph_validations", "_create_final_vars") if True]
    c = f.cls if getattr(f, "cls", None) else None
    for p in ctx.paths(f, self_cls=c, inline_modules=[], opaque=opaque, **opts):
        out.append(p)
        if p.kind == "return" and p.value and p.value[0] == "clos":
            out += p.invoke(p.value, spreads=(("param", "*args"),), **opts)
    return out


def guarded(ctx):
    ctx.rule("(guarded) whoever sends asks first whether telemetry is enabled: with telemetry disabled no function of the package raises because of it.")
    out = needy(ctx)
    n = 0
    for f, hits in callers(ctx, out):
        seen = set()
        ctx.functions.add(f.qual)
        for p in runs_of(ctx, f, "none"):
            for e in p.trace:
                if e.qual in out:
                    seen.add(e.uid)
                    ctx.check(allowed(p, e), f"guarded:{f.qual}", e.where(), f"{f.qual} sends an event without asking whether telemetry is enabled (an error when it is not)", p)
        ctx.need(seen, f"{f.qual} sends events in a way the analysis does not follow")
        n += len(seen)
    ctx.need(n >= 3, "no sender found")
    ctx.count("senders", n)


def total(ctx, f, memo):
    """No exception leaves f (telemetry enabled), but for what dictionary updates, str and logging could raise."""
    if f.qual in memo:
        return memo[f.qual]
    memo[f.qual] = True
    def risky(e):
        if e.kind == "mut" or e.name in ("str", "list", "dict", "len", "isEnabledFor") or (e.qual or "").startswith(("logging.", M + "logger.")) or e.recv is not None and e.name in ("update",):
            return False
        g = ctx.ix.modules[M[:-1]].functions.get((e.qual or "")[len(M):]) if (e.qual or "").startswith(M) else None
        return not (g is not None and total(ctx, g, memo))
    bad = [p for p in paths(ctx, f, inline_modules=[], raises=risky, assume={ON: True}, max_paths=40000) if p.kind == "raise"]
    memo[f.qual] = not bad
    return not bad


LOOP = ("create_task", "ensure_future", "get_event_loop", "get_running_loop", "run_in_executor", "run_until_complete", "call_soon")


def shielded(ctx):
    ctx.rule("(shielded) no error of assembling or sending an event reaches the caller or replaces a result or error of the user's: what telemetry may raise is caught where it is called.")
    m = ctx.ix.modules[M[:-1]]
    memo = {}
    mine = {f.qual for f in m.functions.values()}
    n = 0
    for f, hits in callers(ctx, mine):
        ctx.functions.add(f.qual)
        near = f.module.name in ("hamilton.driver", "hamilton.async_driver")

        def risky(e):
            # next to the user's results whatever depends on the driver's state may fail: a half-built driver, an adapter of the wrong type
            if e.qual in mine:
                return near and e.name not in ("is_telemetry_enabled", "sanitize_error") or not total(ctx, ctx.ix.func(e.qual), memo)
            return near and e.name in LOOP
        for p in runs_of(ctx, f, risky):
            fail = [e for e in p.trace if risky(e) and e.outcome == "raise"]
            n += 1
            if not fail:
                continue
            ctx.check(not (p.kind == "raise" and escapes(p, fail)), f"shielded:{f.qual}", fail[-1].where(), f"an error of {fail[-1].name} reaches the caller of {f.qual}", p)
    ctx.need(n >= 6, "no use of telemetry found")
    ctx.count("uses", n)


def escapes(p, fail):
    return isinstance(p.value, tuple) and p.value[:1] == ("exc",) and any(e.uid == p.value[1] for e in fail)


def transparent(ctx):
    ctx.rule("(transparent) the wrappers that count uses of a function give its result and its error unchanged, call it once, with the arguments they were given.")
    ix = ctx.ix
    for q in ("hamilton.driver.capture_function_usage", "hamilton.dataflows._track_function_call"):
        f = ix.func(q)
        ctx.need(f is not None, f"{q} is gone")
        ctx.functions.add(q)
        fnp = ("param", names(f)[0])
        opts = dict(keep=lambda e: True, keyfacts=lambda k: True, keyev=lambda e: True, max_paths=40000, inline=nested(f))
        k = 0
        for how in ("none", "raising"):
            for p in ctx.paths(f, inline_modules=[], raises="none", **opts):
                ctx.need(p.kind == "return" and p.value[0] == "clos", f"{q} does not return a function")
                for r in p.invoke(p.value, args=(V("x"),), kwargs={"k": V("y")}, raises="none" if how == "none" else (lambda e: e.recv == fnp or e.name == names(f)[0]), **opts):
                    cs = [e for e in r.trace if e.kind == "callv" and e.recv == fnp or e.kind in CALLS and e.name == names(f)[0]]
                    ctx.check(len(cs) == 1, f"{q}:once", f.loc(), f"the function is called {len(cs)} times", r)
                    if len(cs) != 1:
                        continue
                    k += 1
                    e = cs[0]
                    ctx.check(list(e.args) == [V("x")] and dict(e.kwargs) == {"k": V("y")}, f"{q}:arguments", e.where(), f"the function is not called with the arguments given ({[tstr(x) for x in [*e.args, *e.spreads]]})", r)
                    if e.outcome == "ok":
                        ctx.check(r.kind == "return" and r.value == ("res", e.uid), f"{q}:result", e.where(), f"the function's result is replaced by {tstr(r.value)[:60]}", r)
                    else:
                        ctx.check(r.kind == "raise", f"{q}:error", e.where(), "the function's error is swallowed", r)
        ctx.need(k >= 2, f"{q}: the wrapper does not call the function")


PRIVATE = ("config", "inputs", "overrides", "final_vars", "modules", "adapter")


def stripped(t):
    """t without what only counts something."""
    if not isinstance(t, tuple):
        return t
    if len(t) > 1 and t[0] in ("pure", "len") and t[1] == "len" or t and t[0] == "len":
        return ("counted",)
    return tuple(stripped(x) for x in t)


def anonymous(ctx):
    ctx.rule("(anonymous) an event carries counts, Hamilton's own names, the run's id and traces of Hamilton's own code: no value, name or text of the user's; every entry of an event is what its key says.")
    ix = ctx.ix
    # the creators put every argument under its own name
    for nm in ("create_start_event_json", "create_end_event_json"):
        f = fn(ctx, nm)
        for p in paths(ctx, f):
            ctx.need(p.kind == "return" and p.value[0] == "dict", f"{nm} does not return a table")
            top = {k[1][1]: k[2] for k in p.value[1] if k[0] == "kv" and is_const(k[1])}
            ctx.need("properties" in top and top["properties"][0] == "dict", f"the properties of {nm} are not a table the analysis knows")
            got = {k[1][1]: k[2] for k in top["properties"][1] if k[0] == "kv" and is_const(k[1])}
            for a in names(f):
                ctx.check(a in got and (got[a] == ("param", a) or mentions(got[a], ("param", a))) and not any(mentions(got[a], ("param", b)) for b in names(f) if b != a), f"{nm}:{a}", f.loc(), f"{nm} reports {a} as {tstr(got.get(a, NONE))[:60]}", p)
    # what the drivers hand them
    for f, hits in callers(ctx, {M + "create_start_event_json", M + "create_end_event_json"}):
        k = 0
        for p in runs_of(ctx, f, "none"):
            for e in p.trace:
                if e.qual in (M + "create_start_event_json", M + "create_end_event_json"):
                    k += 1
                    g = ix.func(e.qual)
                    for i, a in enumerate(names(g)):
                        v = e.arg(a, i)
                        ctx.need(v is not None, f"{e.qual} is called without {a}")
                        s = stripped(v)
                        ctx.check(not any(mentions(s, ("param", x)) for x in PRIVATE) and not any(mentions(s, ("attr", ("param", "self"), x)) for x in PRIVATE), f"{f.qual}:{a}", e.where(), f"{a} tells {tstr(v)[:80]}, not only how many", p)
        ctx.need(k, f"{f.qual} assembles its event in a way the analysis does not follow")
    # names
    f = fn(ctx, "get_adapter_name")
    for p in paths(ctx, f):
        own = any(k[0] == "truthy" and "startswith" in tstr(k[1]) and "__module__" in tstr(k[1]) and "'hamilton." in tstr(k[1]) and v for k, v in p.facts.items())
        ctx.check(p.kind == "return" and (is_const(p.value) or own), "anonymous:adapter", f.loc(), f"an adapter that is not Hamilton's own is reported as {tstr(p.value)[:60]}", p)
    f = fn(ctx, "get_result_builder_name")
    for p in paths(ctx, f):
        ctx.check(p.kind == "return" and is_const(p.value), "anonymous:result-builder", f.loc(), f"a result builder is reported as {tstr(p.value)[:60]}", p)
    # traces
    f = fn(ctx, "sanitize_error")
    TE, S = V("TE"), [V("s0"), V("s1")]
    n = 0
    for p in paths(ctx, f, returns=lambda e: TE if e.name == "TracebackException" else None, attrs={(TE, "stack"): L(*S)}, raises=lambda e: e.name == "index", opaque=["index"], unroll=3):
        ctx.need(p.kind == "return", "sanitize_error raises")
        n += 1
        ctx.check(not any(mentions(p.value, ("param", x)) for x in names(f)) and not mentions(p.value, TE), "anonymous:error-text", f.loc(), f"the text of an error is sent: {tstr(p.value)[:80]}", p)
        for s in S:
            if not mentions(p.value, s):
                continue
            used = {x[2] for x in subterms(p.value) if x[0] == "attr" and x[1] == s}
            ctx.check(used <= {"filename", "lineno", "name"}, "anonymous:trace", f.loc(), f"{sorted(used)} of a line of the trace are sent", p)
            idx = [e for e in p.trace if e.name == "index" and mentions(e.recv, s)]
            own = any(e.outcome == "ok" and e.args and e.args[0] == const("hamilton") for e in idx) or any(k[0] == "in" and k[1] == const("hamilton") and mentions(k[2], s) and v for k, v in p.facts.items())
            ctx.check(own, "anonymous:user-code", f.loc(), "a line of the trace in the user's code is sent", p)
    ctx.need(n, "sanitize_error never returns")
    # decorators
    f = ix.func("hamilton.function_modifiers.base.track_decorator_usage")
    ctx.need(f is not None, "track_decorator_usage is gone")
    k = 0
    for p in paths(ctx, f, inline_modules=[], inline=nested(f)):
        ctx.need(p.value and p.value[0] == "clos", "track_decorator_usage does not return a function")
        for r in p.invoke(p.value, raises="none", keep=lambda e: True, keyfacts=lambda k: True, keyev=lambda e: True, inline=nested(f)):
            for e in r.trace:
                if e.kind == "setitem":
                    k += 1
                    own = any(x[0] == "truthy" and "startswith" in tstr(x[1]) and "'hamilton.function_modifiers" in tstr(x[1]) and v for x, v in r.facts.items())
                    ctx.check(is_const(e.args[0]) or own, "anonymous:decorator", e.where(), f"a decorator that is not Hamilton's own is counted as {tstr(e.args[0])[:60]}", r)
            ctx.check(r.kind == "return" and any(e.kind == "callv" and ("res", e.uid) == r.value or ("res", e.uid) == r.value for e in r.trace), "decorator:result", f.loc(), "the decorator's result is replaced", r)
    ctx.need(k, "decorators are counted in a way the analysis does not follow")


PARTS = [("gate", gate), ("switch", switch), ("guarded", guarded), ("shielded", shielded), ("transparent", transparent), ("anonymous", anonymous)]
