"""P20: each caching behaviour does what it promises: results are reused, recomputed, kept out of the cache as asked."""
from .common import *
from .p15 import SELFT, canon
from .p19 import AD, DEF, KW, MOD, NAME, NODE, TASK, UNH, adapter, behaviours, resolved, slot, unhashable, version_of

ALL = ("DEFAULT", "RECOMPUTE", "DISABLE", "IGNORE")
BK, FK = "cache.behavior", "cache.format"


def on(e, store):
    return e.recv is not None and e.recv == ("attr", SELFT, store)


def ops(p, store, *names_):
    return [e for e in p.trace if e.kind == "call" and on(e, store) and (not names_ or e.name in names_)]


def runs(p):
    """Calls of the node's function."""
    return [e for e in p.trace if e.kind in ("call", "callv") and (e.name == "callable" and e.recv == NODE or e.kind == "callv" and e.recv == ("attr", NODE, "callable"))]


def sentinel(t):
    return t[0] == "global" and t[1].startswith(MOD) and t[1].rsplit(".", 1)[-1].isupper()


def absent(p, t, facts=None):
    """The path is taken only when t holds no value: an 'is this the sentinel' test, or none, or not in the dict."""
    for k, v in (p.facts if facts is None else facts).items():
        if k[0] == "eq" and v and t in k[1:3] and any(sentinel(x) for x in k[1:3]):
            return True
        if k == ("isnone", t) and v:
            return True
        if k[0] == "in" and v is False and t[0] == "item" and (k[1:3] == (t[2], t[1]) or t[1][0] == "item" and k[1:3] == (t[1][2], t[1][1])):
            return True
    return False


def expand(p):
    return any(k[0] == "eq" and v and mentions(k, NAME) and "NodeType.EXPAND" in tstr(k) for k, v in p.facts.items())


def saver(p):
    """True/False: the node is / is not a data saver on this path; None: not asked."""
    return next((v for k, v in p.facts.items() if k[0] == "in" and k[1] == NAME and mentions(k[2], ("attr", SELFT, "_data_savers"))), None)


def is_metadata_name(t):
    return t[0] == "fstr" and mentions(t, NAME) and not any(isinstance(s, tuple) and s[:1] == ("res",) for s in subterms(t))


def recorded(ctx, p, f, R, key):
    """After the node ran with result R its version is recorded for the run and stored under its key."""
    if expand(p):
        vs = []
    else:
        vs = [e for e in p.trace if e.kind == "setitem" and mentions(e.recv, ("attr", SELFT, "data_versions")) and e.args[1] != ("dict", ())]
        ctx.check(bool(vs), key + ":version", f.loc(), "the version of a computed result is not recorded for the run", p)
    sets = ops(p, "metadata_store", "set")
    ctx.check(len(sets) == 1, key + ":metadata", f.loc(), f"the version of a computed result is stored {len(sets)} times", p)
    for v, e in [(e.args[1], e) for e in vs] + [(e.arg("data_version", 2), e) for e in sets]:
        if v is None:
            v = e.kwargs.get("data_version")
        if saver(p) is True:
            ctx.check(is_metadata_name(v) or version_of(p, v, R), key + ":saver", e.where(), f"the version of a data saver is {tstr(v)[:60]}", p)
        else:
            ctx.check(version_of(p, v, R), key + ":versioned", e.where(), f"the version recorded for a result is {tstr(v)[:80]}, not the version of that result", p)
    for e in sets:
        k = e.kwargs.get("cache_key", e.args[0] if e.args else None)
        ctx.need(k is not None, f"{f.qual}: key of the stored version not recognised")
        own = (slot("cache_keys", NAME), slot("cache_keys", NAME, TASK))
        ctx.check(k in own or k == NONE and any(absent(p, o) for o in own), key + ":key", e.where(), f"the version is stored under {tstr(k)[:60]}", p)
        ctx.check(e.kwargs.get("code_version", slot("code_versions", NAME)) == slot("code_versions", NAME), key + ":code", e.where(), "the version is stored with another code version", p)
        ctx.check(e.kwargs.get("node_name", NAME) == NAME and e.kwargs.get("run_id", ("param", "run_id")) == ("param", "run_id"), key + ":owner", e.where(), "the version is stored for another node or run", p)


def called_with(ctx, p, e, key):
    sp = [x for x in e.spreads]
    if not e.args and not e.kwargs and not sp:
        ctx.check(p.facts.get(("truthy", KW)) is False, key + ":arguments", e.where(), "the node is executed without its arguments", p)
        return
    ctx.need(not e.args and not e.kwargs, "arguments of the node's function not recognised")
    D = sp[0] if len(sp) == 1 else ("dict", tuple(("spread", x, ("L", ())) for x in sp))
    resolved(ctx, p, D, e.where(), key)


def execute_part(ctx):
    ctx.rule("(execute) A disabled, ignored or recomputed node is executed exactly once, with the arguments passed and defaults for the others, and what it returns is handed on; no store is touched for a disabled one. "
             "A node with the default behaviour is either executed exactly once, or its stored result is handed on - the result stored under the version recorded for its key, and only when the store has it; it is executed when no version is known, the result is missing, or it can't be retrieved. "
             "After each execution of a cached node, the version of what it returned is recorded and stored under its key. Nothing is stored for a node that failed.")
    f, ps = adapter(ctx, "do_node_execute", raises=lambda e: e.kind == "callv" or e.name == "callable" or on(e, "result_store") and e.name == "get", keyev=lambda e: e.name == "callable" or e.kind == "callv")
    RE = "ResultRetrievalError"
    n, reused, again = 0, 0, 0
    for p in ps:
        b = behaviours(p, NAME)
        rs = runs(p)
        ok = [e for e in rs if e.outcome == "ok"]
        if p.kind != "return":
            failed = [e for e in rs if e.outcome != "ok"]
            ctx.check(not failed or not ops(p, "metadata_store", "set") and not ops(p, "result_store", "set"), "execute:failed", f.loc(), "something is stored for a node that failed", p)
            gets = [e for e in ops(p, "result_store", "get") if e.outcome != "ok"]
            continue
        n += 1
        R = [("res", e.uid) for e in ok]
        ctx.check(len(rs) <= 1, "execute:once", f.loc(), f"the node is executed {len(rs)} times", p)
        for e in rs:
            called_with(ctx, p, e, "execute:call")
        gets = ops(p, "result_store", "get")
        if b & {"DISABLE", "IGNORE", "RECOMPUTE"}:
            what = "/".join(sorted(b - {"DEFAULT"})).lower()
            ctx.check(len(rs) == 1 and [p.value] == R, f"execute:{what}", f.loc(), f"a node that must always run ({what}) is not executed, or something else than its result is handed on", p)
            ctx.check(not gets, f"execute:{what}:reuse", f.loc(), f"a stored result is used for a node that must always run ({what})", p)
            if "DISABLE" in b:
                t = [e for e in ops(p, "result_store") + ops(p, "metadata_store")]
                ctx.check(not t, "execute:disable:store", t[0].where() if t else "", "a store is used for a disabled node", p)
            ctx.check(not ("IGNORE" in b and ops(p, "result_store", "set")), "execute:ignore:store", f.loc(), "the result of an ignored node is stored", p)
            if b == {"RECOMPUTE"} and len(R) == 1:
                recorded(ctx, p, f, R[0], "execute:recompute")
        if "DEFAULT" not in b:
            continue
        if R:
            ctx.check(p.value == R[0], "execute:default", f.loc(), f"the node is executed but {tstr(p.value)[:60]} is handed on", p)
            recorded(ctx, p, f, R[0], "execute:default")
            missed = [e for e in ops(p, "result_store", "exists") if p.facts.get(("truthy", ("res", e.uid))) is False]
            broken = [e for e in gets if e.outcome != "ok"]
            again += bool(broken)
            for e in broken:
                cs = [c for c in p.trace if c.kind == "caught"]
                names_ = {x.rsplit(".", 1)[-1] for c in cs for x in (c.extra or ())} if cs else set()
                ctx.check(not cs or not names_ or names_ & {RE, "Exception", "BaseException"}, "execute:retrieval", e.where(), "a failed retrieval does not lead to a recomputation", p)
            own = (slot("data_versions", NAME), slot("data_versions", NAME, TASK))
            stored = [("res", e.uid) for e in ops(p, "metadata_store", "get")]
            nokey = [x for x in (slot("cache_keys", NAME), slot("cache_keys", NAME, TASK)) if absent(p, x)]
            at = ok[0].nfacts
            unknown = any(absent(p, t, at) for t in stored) or not stored and (any(absent(p, x, at) for x in own) or expand(p)) and (nokey or any(at.get(("isnone", x)) for x in (slot("cache_keys", NAME), slot("cache_keys", NAME, TASK))))
            unknown = unknown or not stored and (any(k[0] == "isinstance" and k[1] in own and v is False for k, v in at.items()) or any(absent(p, x, at) for x in own) or expand(p)) and bool(nokey)
            unk = any(k[0] == "eq" and v and const(UNH) in k[1:3] for k, v in at.items())
            ctx.check(bool(missed or broken or unknown or unk), "execute:default:again", f.loc(), "a node whose result is stored is executed again", p)
        else:
            good = [e for e in gets if e.outcome == "ok" and ("res", e.uid) == p.value]
            ctx.check(len(good) == 1, "execute:default:result", f.loc(), f"{tstr(p.value)[:60]} is handed on as the result of the node", p)
            if len(good) != 1:
                continue
            reused += 1
            v = good[0].arg("data_version", 0)
            own = (slot("data_versions", NAME), slot("data_versions", NAME, TASK))
            found = [e for e in ops(p, "metadata_store", "get") if ("res", e.uid) == v]
            ctx.check(v in own or bool(found), "execute:default:version", good[0].where(), f"the result handed on is that of version {tstr(v)[:60]}, which is not the one recorded for the node", p)
            for e in found:
                k = e.arg("cache_key", 0)
                ctx.check(k in (slot("cache_keys", NAME), slot("cache_keys", NAME, TASK)), "execute:default:key", e.where(), f"the version is looked up under {tstr(k)[:60]}", p)
            ctx.check(not absent(p, v), "execute:default:unknown", good[0].where(), "a result is retrieved though no version is known", p)
            ex = [e for e in ops(p, "result_store", "exists") if e.arg("data_version", 0) == v]
            ctx.check(any(p.facts.get(("truthy", ("res", e.uid))) is True for e in ex), "execute:default:exists", good[0].where(), "a result is retrieved without knowing that the store has it", p)
            vs = [e for e in p.trace if e.kind == "setitem" and mentions(e.recv, ("attr", SELFT, "data_versions")) and e.args[1] != ("dict", ())]
            ctx.check(expand(p) or any(e.args[1] == v for e in vs), "execute:default:record", good[0].where(), "the version of a reused result is not recorded for the nodes that depend on it", p)
            st = ops(p, "metadata_store", "set")
            ctx.check(not st or all(e.kwargs.get("data_version") == v for e in st), "execute:default:stored", f.loc(), "another version is stored for a reused result", p)
    ctx.need(n, f"{f.qual}: nothing recognised")
    ctx.check(reused > 0, "execute:reuse", f.loc(), "a stored result is never reused")
    ctx.check(again > 0, "execute:retrieval", f.loc(), "a stored result that can't be retrieved is not recomputed")


def store_part(ctx):
    ctx.rule("(store) After a node with the default or recompute behaviour succeeded, its result is in the result store under its recorded version (in the format asked for, when the store keeps files); nothing is stored after a failure or for an ignored or disabled node.")
    f, ps = adapter(ctx, "post_node_execute")
    OK, RES = ("param", "success"), ("param", "result")
    n = 0
    for p in ps:
        if p.kind != "return":
            continue
        sets = ops(p, "result_store", "set")
        failed = p.facts.get(("truthy", OK)) is False or any(k == ("isnone", ("param", "error")) and v is False for k, v in p.facts.items())
        b = behaviours(p, NAME)
        if failed:
            ctx.check(not sets, "store:failed", f.loc(), "the result of a failed node is stored", p)
            continue
        if not b & {"DEFAULT", "RECOMPUTE"}:
            ctx.check(not sets, "store:" + "/".join(sorted(b)).lower(), f.loc(), "the result of a node that is not cached is stored", p)
            continue
        n += 1
        own = (slot("data_versions", NAME), slot("data_versions", NAME, TASK))
        stored = [("res", e.uid) for e in ops(p, "metadata_store", "get") if e.arg("cache_key", 0) in (slot("cache_keys", NAME), slot("cache_keys", NAME, TASK))]
        has = [e for e in ops(p, "result_store", "exists") if p.facts.get(("truthy", ("res", e.uid))) is True]
        for e in has:
            v = e.arg("data_version", 0)
            ctx.check(v in own or v in stored, "store:which", e.where(), f"the store is asked for version {tstr(v)[:60]}", p)
        if not sets:
            ctx.check(bool(has), "store:missing", f.loc(), "the result of a cached node is not stored", p)
            gone = [k for k, v in p.facts.items() if k[0] == "truthy" and v is False and any(("res", e.uid) == k[1] and e.name == "exists" and not on(e, "result_store") for e in p.trace)]
            ctx.check(not gone, "store:file", f.loc(), "the file in the format asked for is not written", p)
        for e in sets:
            v = e.arg("data_version", 0)
            ctx.check(v in own or v in stored, "store:version", e.where(), f"the result is stored under version {tstr(v)[:60]}", p)
            r = e.arg("result", 1)
            ctx.check(r == RES, "store:result", e.where(), f"{tstr(r)[:60]} is stored as the result of the node", p)
            found = [x for x in p.trace if x.name == "search_data_adapter_registry"]
            s, l = e.kwargs.get("saver_cls", NONE), e.kwargs.get("loader_cls", NONE)
            if found:
                F = ("res", found[0].uid)
                ctx.check(s == ("item", F, const(0)) and l == ("item", F, const(1)), "store:format", e.where(), "the saver and loader of the format are not those used", p)
                ctx.check(found[0].arg("type_", 1) in (("pure", "type", None, (RES,), ()), ("type", RES)) or mentions(found[0].arg("type_", 1), RES), "store:type", found[0].where(), "the format is looked up for another type than the result's", p)
                a = found[0].arg("name", 0)
                ctx.check(mentions(a, const(FK)), "store:name", found[0].where(), f"the format {tstr(a)[:60]} is not the one of the node", p)
            else:
                want = any(k[0] == "in" and k[1] == const(FK) and v and not absent_format(p) for k, v in p.facts.items())
                able = p.facts.get(("hasattr", ("attr", SELFT, "result_store"), const("_materialized_path")))
                ctx.check(not want or able is False, "store:format", e.where(), "the format asked for is not used", p)
    ctx.need(n, f"{f.qual}: nothing recognised")


def absent_format(p):
    return any(k[0] == "eq" and v and mentions(k, const(FK)) and any(sentinel(x) for x in k[1:3]) for k, v in p.facts.items()) or any(k[0] == "isnone" and v and mentions(k, const(FK)) for k, v in p.facts.items())


def behaviour_part(ctx):
    ctx.rule("(behaviour) The behaviour of a node is, in this order: recompute for a node that is expanded in parallel; the set of the driver naming it (naming it in two is an error); the one its @cache gives; for data loaders and savers their default; the default. "
             "Every node of the graph gets one; a set given as True names every node; a loader's nodes share one behaviour, and every saver is known as one.")
    ix = ctx.ix
    f, ps = adapter(ctx, "_resolve_node_behavior", opaque=["from_string"])
    n = ("param", f.node.args.args[0].arg)
    N, T = ("attr", n, "name"), ("attr", n, "tags")
    cnt = 0
    for p in ps:
        ex = any(k[0] == "eq" and v and ("attr", n, "node_role") in k[1:3] and "NodeType.EXPAND" in tstr(k) for k, v in p.facts.items())
        got = None
        if any(k[0] == "eq" and v and any(sentinel(x) for x in k[1:3]) and any(("res", e.uid) in k[1:3] for e in p.trace) for k, v in p.facts.items()):
            continue   # no behaviour is the module's private marker
        if p.kind == "return":
            v = p.value
            fs = [e for e in p.trace if e.name == "from_string" and ("res", e.uid) == v]
            got = ("from", (fs[0].args or tuple(fs[0].kwargs.values()))[0]) if fs else ("is", tstr(v).rsplit(".", 1)[-1])
        if ex:
            ctx.check(got == ("is", "RECOMPUTE"), "behaviour:expand", f.loc(), f"the behaviour of a node expanded in parallel is {got}", p)
            cnt += 1
            continue
        named = [b for b in ("default", "disable", "recompute", "ignore") if any(k[0] == "in" and k[1] == N and mentions(k[2], ("param", b)) and v for k, v in p.facts.items())]
        if len(named) > 1:
            ctx.check(p.kind == "raise", "behaviour:two", f.loc(), f"a node named in two sets ({', '.join(named)}) is given a behaviour silently", p)
            continue
        if p.kind != "return":
            ctx.check(not any(e.kind == "raise" and e.name != "KeyError" for e in p.trace), "behaviour:error", f.loc(), "a node named in one set at most is rejected", p)
            continue
        cnt += 1
        if named:
            ctx.check(got == ("is", named[0].upper()) or got == ("from", const(named[0])), f"behaviour:{named[0]}", f.loc(), f"a node the driver names under {named[0]} has behaviour {got[1] if isinstance(got[1], str) else tstr(got[1])[:60]}", p)
            continue
        for b in ("default", "disable", "recompute", "ignore"):
            asked = any(k[0] == "in" and k[1] == N and mentions(k[2], ("param", b)) for k in p.facts) or p.facts.get(("isnone", ("param", b))) is True or p.facts.get(("truthy", ("param", b))) is False
            ctx.check(asked, f"behaviour:{b}:asked", f.loc(), f"the driver's set {b} is not considered", p)
        has = lambda key: next((v for k, v in p.facts.items() if k == ("in", const(key), T)), None)
        item = lambda key: ("item", T, const(key))
        gone = lambda key: has(key) is False or any(k[0] == "eq" and v and item(key) in k[1:3] and any(sentinel(x) for x in k[1:3]) for k, v in p.facts.items()) or p.facts.get(("truthy", item(key))) is False or p.facts.get(("isnone", item(key))) is True
        if has(BK) is None:
            ctx.check(False, "behaviour:tag", f.loc(), "the behaviour given by @cache is not considered", p)
        elif not gone(BK):
            ctx.check(got == ("from", item(BK)), "behaviour:tag", f.loc(), f"the behaviour given by @cache is not used, but {got[1] if isinstance(got[1], str) else tstr(got[1])[:60]}", p)
        elif has("hamilton.data_loader") and not gone("hamilton.data_loader"):
            ctx.check(got == ("from", ("param", "default_loader_behavior")), "behaviour:loader", f.loc(), "the default behaviour of loaders is not used", p)
        elif gone("hamilton.data_loader") and has("hamilton.data_saver") and not gone("hamilton.data_saver"):
            ctx.check(got == ("from", ("param", "default_saver_behavior")), "behaviour:saver", f.loc(), "the default behaviour of savers is not used", p)
        elif gone("hamilton.data_loader") and gone("hamilton.data_saver"):
            ctx.check(got == ("from", ("param", "default_behavior")), "behaviour:default-behavior", f.loc(), f"the default behaviour is not used, but {got[1] if isinstance(got[1], str) else tstr(got[1])[:60]}", p)
        else:
            ctx.check(False, "behaviour:loader-saver", f.loc(), "the defaults of loaders and savers are not considered", p)
    ctx.need(cnt > 8, f"{f.qual}: nothing recognised")
    fs = ix.method(ix.cls(MOD + ".CachingBehavior"), "from_string")
    for p in ctx.paths(fs, inline_modules=[MOD], raises="none"):
        if p.kind == "return":
            s = ("param", fs.node.args.args[-1].arg)
            t = tstr(p.value)
            ctx.need(mentions(p.value, s), f"{fs.qual}: {t[:60]} not recognised")
            ctx.check(any(isinstance(x, tuple) and x[:2] in (("pure", "upper"), ("pure", "lower")) for x in subterms(p.value)) or "value" in t, "behaviour:text", fs.loc(), f"the text of a behaviour is read as {t[:60]}", p)
    # every node of the graph
    f, ps = adapter(ctx, "resolve_behaviors", opaque=["_resolve_node_behavior"], exact_is=True)
    got, shared, savers = 0, 0, 0
    for p in ps:
        if p.kind != "return":
            continue
        gn = [e for e in p.trace if e.name == "get_nodes"]
        ctx.need(gn, f"{f.qual}: nodes of the graph not recognised")
        els = [("elem", ("res", e.uid)) for e in gn]
        asks = [e for e in p.trace if e.name == "_resolve_node_behavior"]
        first = [e for e in asks if e.arg("node", 0) in els]
        sets = [e for e in p.trace if e.kind == "setitem" and e.args[0] in [("attr", x, "name") for x in els]]
        for e in first:
            got += 1
            el = e.arg("node", 0)
            ctx.check(any(s.args == (("attr", el, "name"), ("res", e.uid)) for s in sets), "behaviour:kept", e.where(), "the behaviour resolved for a node is not kept for it", p)
        for e in asks:
            for i, b in enumerate(("default", "disable", "recompute", "ignore")):
                F = ("attr", SELFT, "_" + b)
                v = e.kwargs.get(b, e.args[i + 1] if len(e.args) > i + 1 else NONE)
                true = p.facts.get(("is", F, TRUE))
                if true is True:
                    ctx.check(v[0] in ("list", "set", "tuple", "dict") and any(mentions(v, ("attr", x, "name")) for x in els) and all(r[0] == "e" and not guarded(r) for r in v[1]), f"behaviour:{b}:all", e.where(), f"{b}=True does not name every node", p)
                else:
                    ctx.check(v == F, f"behaviour:{b}:given", e.where(), f"the nodes named under {b} are {tstr(v)[:60]}, not those given to the driver", p)
            dv = {}
            for j, b in enumerate(("default_behavior", "default_loader_behavior", "default_saver_behavior")):
                v = e.kwargs.get(b, e.args[j + 5] if len(e.args) > j + 5 else None)
                F = ("attr", SELFT, b)
                dv[b] = v
                unset = p.facts.get(("isnone", F)) is True or p.facts.get(("truthy", F)) is False
                if not unset:
                    ctx.check(v == F, f"behaviour:{b}:given", e.where(), f"the {b} given to the driver is not used, but {tstr(v)[:60]}", p)
                else:
                    want = const("default") if j == 0 else dv["default_behavior"]
                    ctx.check(v == want, f"behaviour:{b}:unset", e.where(), f"the {b} is {tstr(v)[:60]} when it is not given", p)
        for el in els:
            L = ("item", ("attr", el, "tags"), const("hamilton.data_loader"))
            M = ("item", ("attr", el, "tags"), const("hamilton.data_loader.node"))
            loader = p.facts.get(("is", L, TRUE)) is True or p.facts.get(("truthy", L)) is True
            main = any(k[0] == "eq" and M in k[1:3] and ("attr", el, "name") in k[1:3] and v for k, v in p.facts.items())
            if loader and not main:
                mine = [s for s in sets if s.args[0] == ("attr", el, "name") and s.args[1] not in [("res", e.uid) for e in first]]
                shared += 1
                ctx.check(bool(mine), "behaviour:loader-nodes", f.loc(), "the nodes of a data loader may have different behaviours", p)
                for s in mine:
                    v = s.args[1]
                    alone = [e for e in asks if ("res", e.uid) == v]
                    ok = v[0] == "item" and v[2] == M or mentions(v, M) or alone and mentions(alone[0].arg("node", 0), M) or v in [("res", e.uid) for e in asks]
                    ctx.check(bool(ok), "behaviour:loader-nodes", s.where(), f"a node of a data loader has behaviour {tstr(v)[:60]}", p)
            S = ("item", ("attr", el, "tags"), const("hamilton.data_saver"))
            is_saver = any(k == ("in", const("hamilton.data_saver"), ("attr", el, "tags")) and v for k, v in p.facts.items()) and p.facts.get(("isnone", S)) is False
            if is_saver and not any(k[0] == "truthy" and k[1] == S and v is False for k, v in p.facts.items()):
                savers += 1
                if not (loader and main):
                    ctx.check(any(e.name in ("append", "add") and mentions(e.recv, ("attr", SELFT, "_data_savers")) and e.args[0] == ("attr", el, "name") for e in p.trace), "behaviour:savers", f.loc(), "a data saver is not known as one", p)
    ctx.need(got, f"{f.qual}: nothing recognised")
    ctx.check(shared > 0, "behaviour:loader-nodes", f.loc(), "the nodes of a data loader may have different behaviours")
    ctx.check(savers > 0, "behaviour:savers", f.loc(), "data savers are not told apart")


def guarded(r):
    L = r[-1]
    return isinstance(L, tuple) and L[:1] == ("L",) and len(L) > 2 and bool(L[2])


def options_part(ctx):
    ctx.rule("(options) Every option of with_cache reaches the adapter and is kept by it as given; @cache gives its nodes the behaviour and format asked for and leaves their other tags.")
    ix = ctx.ix
    D = ix.cls("hamilton.driver.Builder")
    f = ix.method(D, "with_cache")
    ctx.need(f is not None, "Builder.with_cache is gone")
    pars = [a.arg for a in f.node.args.args[1:] + f.node.args.kwonlyargs]
    n = 0
    for p in ctx.paths(f, self_cls=D, inline_modules=["hamilton.driver"], opaque=["_require_field_unset"], raises="none", keep=lambda e: True):
        if p.kind != "return":
            continue
        news = [e for e in p.trace if e.name == "HamiltonCacheAdapter"]
        ctx.check(len(news) == 1, "options:adapter", f.loc(), f"{len(news)} cache adapters are made", p)
        for e in news:
            n += 1
            sig = [a.arg for a in ix.method(ix.cls(AD), "__init__").node.args.args[1:]]
            for q in pars:
                v = e.kwargs.get(q)
                if v is None and q in sig and sig.index(q) < len(e.args):
                    v = e.args[sig.index(q)]
                ctx.check(v == ("param", q), f"options:{q}", e.where(), f"the option {q} given to with_cache reaches the adapter as {tstr(v)[:60] if v else 'its default'}", p)
            put = [x for x in p.trace if x.name in ("append", "extend", "insert") and x.recv == ("attr", SELFT, "adapters")]
            ctx.check(len(put) == 1, "options:used", f.loc(), "the cache adapter is not added to the driver", p)
        ctx.check(p.value == SELFT, "options:chain", f.loc(), "with_cache does not return the builder", p)
    ctx.need(n, f"{f.qual}: nothing recognised")
    A = ix.cls(AD)
    f = ix.method(A, "__init__")
    keep = {"default": "_default", "recompute": "_recompute", "disable": "_disable", "ignore": "_ignore", "default_behavior": "default_behavior", "default_loader_behavior": "default_loader_behavior",
            "default_saver_behavior": "default_saver_behavior", "metadata_store": "metadata_store", "result_store": "result_store", "log_to_file": "log_to_file"}
    n = 0
    for p in ctx.paths(f, self_cls=A, inline_modules=[MOD], opaque=["SQLiteMetadataStore", "FileResultStore"], raises="none", keep=lambda e: True):
        if p.kind != "return":
            continue
        n += 1
        kept = {e.name: e.args[0] for e in p.trace if e.kind == "setattr" and e.recv == SELFT}
        for q, a in keep.items():
            v = kept.get(a)
            if q in ("metadata_store", "result_store"):
                if p.facts.get(("isnone", ("param", q))) is True:
                    made = [e for e in p.trace if e.kind in ("call", "new") and v is not None and (("res", e.uid) == v or v[0] == "inst")]
                    for e in [e for e in p.trace if e.name == {"metadata_store": "SQLiteMetadataStore", "result_store": "FileResultStore"}[q]]:
                        ctx.check(mentions(e.arg("path", 0), ("param", "path")), f"options:{q}:path", e.where(), f"the default {q} is not at the path given", p)
                    ctx.check(v is not None and v != NONE, f"options:{q}:default", f.loc(), f"there is no {q} when none is given", p)
                    continue
                ctx.check(v == ("param", q) or p.facts.get(("truthy", ("param", q))) is False, f"options:{q}:kept", f.loc(), f"the {q} given is not used", p)
            else:
                ctx.check(v == ("param", q), f"options:{q}:kept", f.loc(), f"the option {q} is kept as {tstr(v)[:60] if v else 'nothing'}", p)
    ctx.need(n, f"{f.qual}: nothing recognised")
    two = [p for p in ctx.paths(f, self_cls=A, inline_modules=[MOD], opaque=["SQLiteMetadataStore", "FileResultStore"], raises="none", keep=lambda e: True) if p.kind == "raise"]
    ctx.check(any(e.kind == "raise" and e.name == "ValueError" for p in two for e in p.trace), "options:exclusive", f.loc(), "two behaviours for every node are accepted")
    C = ix.cls("hamilton.function_modifiers.metadata.cache")
    i = ix.method(C, "__init__")
    for p in ctx.paths(i, self_cls=C, inline_modules=["hamilton.function_modifiers.metadata"], raises="none", keep=lambda e: True, keyfacts=lambda k: True):
        if p.kind != "return":
            continue
        t = [e.args[0] for e in p.trace if e.kind == "setattr" and e.name == "cache_tags"]
        ctx.need(len(t) == 1, f"{i.qual}: tags not recognised")
        recs = {}
        for e in p.trace:
            if e.kind == "setitem":
                recs[e.args[0]] = e.args[1]
        tt = t[0]
        if tt[0] == "dict":
            recs.update({r[1]: r[2] for r in tt[1] if r[0] == "kv"})
        for q, key in (("behavior", BK), ("format", FK)):
            v = recs.get(const(key))
            unset = p.facts.get(("truthy", ("param", q))) is False or p.facts.get(("isnone", ("param", q))) is True
            ctx.check(v == ("param", q) or unset, f"options:cache:{q}", i.loc(), f"the {q} given to @cache becomes {tstr(v)[:40] if v else 'nothing'}", p)
            ctx.check(not unset or v is None, f"options:cache:{q}:unset", i.loc(), f"@cache without {q} sets the {q} of its nodes", p)
    d = ix.method(C, "decorate_node")
    ND = ("param", d.node.args.args[1].arg)
    for p in ctx.paths(d, self_cls=C, inline_modules=["hamilton.function_modifiers.metadata"], opaque=["copy_with"], raises="none", keep=lambda e: True):
        if p.kind != "return":
            continue
        cw = [e for e in p.trace if e.name == "copy_with" and e.recv == ND and ("res", e.uid) == p.value]
        ctx.need(len(cw) == 1, f"{d.qual}: result not recognised")
        t = cw[0].kwargs.get("tags")
        srcs = [r[1] for r in t[1] if r[0] == "spread"] if t is not None and t[0] in ("dict", "copy") else None
        ctx.need(srcs is not None, f"{d.qual}: tags {tstr(t)[:60] if t else None} not recognised")
        ctx.check(srcs == [("attr", ND, "tags"), ("attr", SELFT, "cache_tags")], "options:cache:tags", cw[0].where(), f"the tags of a node with @cache are {tstr(t)[:80]}", p)


PARTS = [("execute", execute_part), ("store", store_part), ("behaviour", behaviour_part), ("options", options_part)]


def run(ctx):
    for _, f in PARTS:
        f(ctx)
