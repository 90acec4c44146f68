"""P12: parallel branches: each branch sees its own element, results are kept apart and collected in order."""
from .common import *

S = "hamilton.execution.state."
G = "hamilton.execution.grouping."
SELF = ("param", "self")
CACHE = ("attr", SELF, "cache")


def reorders(t):
    """Does a term pass through something that changes or loses order?"""
    for s in subterms(t):
        if s[0] == "pure" and s[1] in ("sorted", "reversed", "set", "frozenset", "shuffle", "sample"):
            return s[1]
        if s[0] == "set":
            return "set"
        if s[0] == "slice":
            return "slice"
    return None


def loops_of(x):
    return [l[1] for l in (x or ()) if isinstance(l, tuple) and l and l[0] == "loop"]


def subst(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(subst(x, a, b) for x in t)
    return t


def consistent(g1, g2):
    return all(g2.get(k, v) == v for k, v in g1.items())


def result_cache(ctx):
    ctx.rule("(store) a stored result is read back under the very key it was written with: for equal (group, spawning task, name) the lookup key term equals the write key term, contains the name and every "
             "non-None part of the namespace, and the value returned for a name is the one stored for it; a missing required key is an error, a missing optional key is left out.")
    ix = ctx.ix
    c = ix.cls(S + "DictBasedResultCache")
    KEY = ("sym", "KEY")
    W, R = [], []
    ns = ("isnone",)

    def nsguards(items, who):
        out = {}
        for k, v in items:
            if k[0] in ns and (k[1] in (("param", "group_id"), ("param", "spawning_task_id"))):
                out[k] = v
            elif k[0] in ns and k[1] == who:
                out[("isnone", KEY)] = v
        return out
    w = ix.method(c, "write")
    for p in ctx.paths(w, self_cls=c, inline_modules=[c.module.name], raises="none",
                       keyfacts=lambda k: k[0] == "isnone"):
        ups = [e for e in p.trace if e.recv == CACHE and e.name in ("update", "[]=", "setdefault")]
        if p.kind == "return":
            empty = p.facts.get(("truthy", ("param", "results"))) is False
            ctx.check(ups or empty, "store:writes", w.loc(), "results are not stored", p)
        for e in ups:
            recs = e.args[0][1] if e.name == "update" and e.args and e.args[0][0] in ("dict", "copy") else [("kv", e.args[0], e.args[1], ("L", ()))] if e.name != "update" and len(e.args) > 1 else []
            ctx.need(recs, "how results are stored is not recognised")
            for r in recs:
                if r[0] != "kv":
                    ctx.bad("store:raw", e.where(), f"{tstr(r)} is stored without its namespace", p)
                    continue
                g = nsguards(list(r[3][2]) if len(r[3]) > 2 else list(p.facts.items()), ("key", ("param", "results")))
                if g.get(("isnone", KEY)) is True:
                    continue
                g.pop(("isnone", KEY), None)
                ok = r[2] in (("val", ("param", "results")), ("item", ("param", "results"), ("key", ("param", "results"))))
                ctx.check(ok, "store:value", e.where(), f"{tstr(r[2])} is stored under the key of another result", p)
                W.append((g, subst(r[1], ("key", ("param", "results")), KEY), e))
    rd = ix.method(c, "read")
    EK = ("elem", ("param", "keys"))
    miss = 0
    for p in ctx.paths(rd, self_cls=c, inline_modules=[c.module.name], raises="none",
                       keyfacts=lambda k: k[0] == "in" or k in (("isnone", ("param", "group_id")), ("isnone", ("param", "spawning_task_id")), ("isnone", EK), ("truthy", ("param", "optional")))):
        g = nsguards(list(p.facts.items()), EK)
        if g.get(("isnone", KEY)) is True:
            continue
        g.pop(("isnone", KEY), None)
        inn = [(k, v) for k, v in p.facts.items() if k[0] == "in" and k[2] == CACHE]
        opt = p.facts.get(("truthy", ("param", "optional")))
        for k, v in inn:
            R.append((g, subst(k[1], EK, KEY), rd.loc()))
            if v is False:
                miss += 1
                if opt is False:
                    ctx.check(p.kind == "raise", "store:missing", rd.loc(), "a missing result is not an error", p)
                elif opt is True:
                    ctx.check(p.kind == "return" and p.value == ("dict", ()), "store:optional", rd.loc(), "a missing optional result is not simply left out", p)
            elif p.kind == "return":
                recs = p.value[1] if p.value[0] == "dict" else ()
                ok = recs and all(r[0] == "kv" and r[1] == EK and r[2] == ("item", CACHE, k[1]) for r in recs)
                ctx.check(ok, "store:read-value", rd.loc(), f"reading a result yields {tstr(p.value)}", p)
    ctx.need(W and R and miss, "result store not recognised")
    for gw, kw_, e in W:
        for gr, kr, loc in R:
            if consistent(gw, gr) and consistent(gr, gw):
                ctx.check(kw_ == kr, "store:same-key", e.where(), f"results are written under {tstr(kw_)} but read under {tstr(kr)}")
    for g, k, e in W:
        for part in ("group_id", "spawning_task_id"):
            if g.get(("isnone", ("param", part))) is not True:
                ctx.check(mentions(k, ("param", part)), "store:namespace", e.where(), f"the key {tstr(k)} of a stored result lacks its {part}: results of parallel branches would overwrite each other")
        ctx.check(mentions(k, KEY), "store:name", e.where(), f"the key {tstr(k)} lacks the result's name")


def write_results(ctx):
    ctx.rule("(write) a task's results are all stored under its own group and spawning task; only the list an expanding task produces for its branches is stored without namespace, under the name the "
             "branches are parameterized from.")
    ix = ctx.ix
    c = ix.cls(S + "ExecutionState")
    f = ix.method(c, "write_task_results")
    WR, RES = ("param", "writer"), ("param", "results")
    n = 0
    for p in ctx.paths(f, self_cls=c, inline_modules=[c.module.name], opaque=["get_expander_node", "write"], pure=("is_expander",), raises="none"):
        if p.kind != "return":
            continue
        ws = [e for e in p.trace if e.name == "write"]
        pops = [e for e in p.trace if e.name == "pop"]
        own = []
        for e in ws:
            r, gid, sid = e.arg("results", 0), e.arg("group_id", 1), e.arg("spawning_task_id", 2)
            n += 1
            if gid in (None, NONE) and sid in (None, NONE):
                ok = r[0] == "dict" and len(r[1]) == 1 and r[1][0][0] == "kv" and any(s[0] == "res" and p.ev(s[1]) is not None and p.ev(s[1]).name == "get_expander_node" for s in subterms(r[1][0][1]))
                ctx.check(ok, "write:global", e.where(), f"{tstr(r)} is stored without namespace", p)
                if ok:
                    ctx.check(not reorders(r[1][0][2]), "write:order", e.where(), "the order of the expanded elements is changed", p)
            else:
                own.append(e)
                ctx.check(gid == ("attr", WR, "group_id") and sid == ("attr", WR, "spawning_task_id"), "write:namespace", e.where(),
                          f"a task's results are stored under group {tstr(gid)}, spawning task {tstr(sid)}: not its own", p)
                base = unwrap(r)
                okr = base == RES or base[0] in ("dict", "copy") and any(mentions(x, RES) for x in base[1])
                ctx.check(okr, "write:all", e.where(), f"{tstr(r)} is stored, not the task's results", p)
        ctx.check(len(own) == 1, "write:once", f.loc(), f"a task's results are stored {len(own)} times", p)
        exp = [v for k, v in p.facts.items() if k[0] == "truthy" and "is_expander" in repr(k)]
        if True in exp:
            ctx.check(len(ws) == 2, "write:expanded", f.loc(), "the elements of an expanding task are not stored", p)
    ctx.need(n >= 2, "storing of task results not recognised")


def parameterize(ctx):
    ctx.rule("(branches) each element of the expanded list gives one group of tasks, keyed by its position, whose tasks are bound to that element; the collecting task's dependencies list the branch tasks of "
             "all groups in the order of the elements.")
    ix = ctx.ix
    c = ix.cls(S + "ExecutionState")
    f = ix.method(c, "update_task_state")
    n = 0
    for p in ctx.paths(f, self_cls=c, raises="none", pure=("is_terminal", "is_expander", "is_gatherer"), keep=lambda e: e.name in ("realize_parameterized_group", "read")):
        for e in p.trace:
            if e.name == "realize_parameterized_group":
                n += 1
                d = e.arg("parameterizations", 1)
                ok = d is not None and d[0] == "dict" and len(d[1]) == 1 and d[1][0][0] == "kv"
                ctx.need(ok, f"branch parameterizations not recognised: {tstr(d)}")
                r = d[1][0]
                ctx.check(any(s[0] in ("idx",) for s in subterms(r[1])), "branches:key", e.where(), f"branches are keyed by {tstr(r[1])}, not by position: equal elements would share a branch", p)
                ctx.check(r[2][0] == "elem" and not reorders(r[2]), "branches:element", e.where(), f"the value of a branch is {tstr(r[2])}", p)
                idx = [s for s in subterms(r[1]) if s[0] == "idx"]
                if idx:
                    ctx.check(r[2] == ("elem", idx[0][1]), "branches:pair", e.where(), "position and element of a branch do not belong together", p)
                g = dict(r[3][2]) if len(r[3]) > 2 else {}
                ctx.check(not g, "branches:all", e.where(), "some elements get no branch", p)
                src = [p.ev(s[1]) for s in subterms(r[2]) if s[0] == "res"]
                ctx.check(any(x is not None and x.name == "read" for x in src), "branches:source", e.where(), f"the branches come from {tstr(r[2])}, not from the stored expansion", p)
                sid = e.arg("spawning_task_id", 0)
                ctx.check(sid is not None and mentions(sid, ("param", "task_id")), "branches:spawner", e.where(), f"the branches are spawned by {tstr(sid)}", p)
    ctx.need(n, "expansion not found")
    f = ix.method(c, "realize_parameterized_group")
    PAR = ("param", "parameterizations")
    n = m = 0
    for p in ctx.paths(f, self_cls=c, inline_modules=[c.module.name], opaque=["realize_task"], raises="none", pure=("is_gatherer", "is_expander"), keyfacts=lambda k: k[0] == "in"):
        rt = [e for e in p.trace if e.name == "realize_task"]
        coll = set()
        for e in rt:
            b = e.arg("bind", 4)
            gid = e.arg("group_id", 2)
            if b is not None and b != NONE:
                n += 1
                ctx.check(b[0] == "dict" and len(b[1]) == 1 and b[1][0][1] == ("param", "input_to_parameterize") and b[1][0][2] == ("val", PAR), "branches:bind", e.where(),
                          f"a branch task is bound to {tstr(b)}, not to its own element", p)
                ctx.check(gid == ("key", PAR), "branches:group", e.where(), f"a branch task belongs to group {tstr(gid)}, not to its element's", p)
                ctx.check(e.arg("spawning_task", 1) == ("param", "spawning_task_id"), "branches:spawned-by", e.where(), "a branch task is not recorded as spawned by the expanding task", p)
            else:
                coll.add(("res", e.uid))
                ctx.check(gid in (None, NONE) and e.arg("spawning_task", 1) in (None, NONE), "collect:namespace", e.where(), "the collecting task is put into a branch's namespace", p)
        for e in p.trace:
            if e.kind == "setattr" and e.name == "realized_dependencies" and e.recv in coll:
                d = e.args[0]
                for r in d[1] if d[0] == "dict" else ():
                    if r[0] != "kv" or r[2][0] != "list":
                        continue
                    for x in r[2][1]:
                        if x[0] == "e" and x[1][0] == "item" and mentions(x[1], ("val", PAR)) | any(s[0] == "res" for s in subterms(x[1][1])):
                            m += 1
                            its = loops_of(x[2][1])
                            bad = [reorders(t) for t in its if mentions(t, PAR)]
                            ctx.check(any(mentions(t, PAR) for t in its), "collect:all", e.where(), "the collecting task does not depend on every branch", p)
                            ctx.check(not any(bad), "collect:order", e.where(), f"branches are collected in another order ({bad})", p)
    ctx.need(n and m, f"branch tasks not recognised {n} {m}")


def bind(ctx):
    ctx.rule("(collect) the collected argument is the list of the branch results in dependency order, each read from that branch's own namespace; (inputs) other inputs are read from the shared results; values "
             "already bound to a task (its element) win over values bound later; task ids contain spawning task, group and base id.")
    ix = ctx.ix
    c = ix.cls(S + "ExecutionState")
    f = ix.method(c, "bind_task")
    n = m = 0
    POOL = ("attr", SELF, "task_pool")
    for p in ctx.paths(f, self_cls=c, inline_modules=[c.module.name], opaque=["get_input_vars", "get_collector_node", "read", "bind"], raises="none", pure=("is_gatherer", "produces")):
        gath = [v for k, v in p.facts.items() if k[0] == "truthy" and "is_gatherer" in repr(k)]
        reads = [e for e in p.trace if e.name == "read"]
        for e in reads:
            gid, sid = e.arg("group_id", 1), e.arg("spawning_task_id", 2)
            if gid in (None, NONE):
                continue
            n += 1
            dep = gid[1] if gid[0] == "attr" else None
            ctx.check(gid == ("attr", dep, "group_id") and sid == ("attr", dep, "spawning_task_id"), "collect:namespace-of", e.where(), f"a branch result is read from ({tstr(gid)}, {tstr(sid)})", p)
            ok = dep is not None and dep[0] == "item" and dep[1] == POOL and mentions(dep[2], ("attr", ("param", "task"), "realized_dependencies")) and dep[2][0] == "elem" and not reorders(dep)
            ctx.check(ok, "collect:each-branch", e.where(), f"results are collected from {tstr(dep)}, not from each branch in order", p)
            ctx.check(not any(reorders(t) for t in loops_of(e.loops) if mentions(t, ("attr", ("param", "task"), "realized_dependencies"))), "collect:bind-order", e.where(), "branch results are collected in another order", p)
            app = [e2 for e2 in p.trace if e2.kind == "mut" and any(mentions(a, ("res", e.uid)) for a in e2.args)]
            if app:
                ctx.check(app[0].name in ("append", "extend"), "collect:append", app[0].where(), f"branch results are collected with {app[0].name}", p)
        b = [e for e in p.trace if e.name == "bind"]
        if p.kind == "return" and b:
            d = b[0].args[0] if b[0].args else None
            if d is not None and d[0] == "dict":
                m += 1
                rd = [r for r in d[1] if r[0] == "spread" and r[1][0] == "res"]
                ctx.check(any(p.ev(r[1][1]).name == "read" for r in rd), "bind:inputs", b[0].where(), "a task is started without its inputs read from the results", p)
                opt = [e for e in reads if e.arg("optional", 3) == TRUE]
                req = [e for e in reads if e.arg("optional", 3) in (None, FALSE) and e.arg("group_id", 1) in (None, NONE)]
                ctx.check(opt and req, "bind:required-and-optional", b[0].where(), "required and optional inputs are not both read", p)
                if opt:
                    a = opt[0].arg("keys", 0)
                    ctx.check(a is not None and opt_index(a) == 1, "bind:optional-keys", opt[0].where(), f"{tstr(a)} is read as optional", p)
                if req:
                    a = req[0].arg("keys", 0)
                    ctx.check(a is not None and opt_index(a) == 0, "bind:required-keys", req[0].where(), f"{tstr(a)} is read as required", p)
            ctx.check(p.value == ("res", b[0].uid) and b[0].recv == ("param", "task"), "bind:returns", f.loc(), "the task handed out is not the bound task", p)
    ctx.need(n and m, f"binding of tasks not recognised {n} {m}")
    t = ix.cls(G + "TaskImplementation")
    f = ix.method(t, "bind")
    k = 0
    for p in ctx.paths(f, self_cls=t, inline_modules=[t.module.name], raises="none"):
        for e in p.trace:
            d = e.kwargs.get("dynamic_inputs")
            if d is None and e.kind == "setattr" and e.name == "dynamic_inputs":
                ctx.bad("bind:in-place", e.where(), "binding changes the task instead of a copy of it", p)
                continue
            if d is not None:
                k += 1
                L = dict_layers(d)
                ctx.check(L and L[-1] == ("attr", SELF, "dynamic_inputs") and ("param", "dynamic_inputs") in L, "bind:precedence", e.where(),
                          f"binding merges {tstr(d)}: the element bound to a branch could be replaced", p)
    ctx.need(k, "bind not recognised")
    f = ix.method(t, "determine_task_id")
    for p in ctx.paths(f, self_cls=t, raises="none"):
        if p.kind == "return":
            for a in ("base_id", "spawning_task", "group_id"):
                none = p.facts.get(("isnone", ("param", a)))
                ctx.check(none is True or mentions(p.value, ("param", a)), f"task-id:{a}", f.loc(), f"the task id {tstr(p.value)} does not contain {a}: tasks of different branches would collide", p)
    pi = ix.method(t, "__post_init__")
    s = 0
    for p in ctx.paths(pi, self_cls=t, raises="none", opaque=["determine_task_id"]):
        for e in p.trace:
            if e.name == "determine_task_id":
                s += 1
                for a, at in (("base_id", "base_id"), ("spawning_task", "spawning_task_id"), ("group_id", "group_id")):
                    ctx.check(e.bound and e.bound.get(a) == ("attr", SELF, at), f"task-id:from-{at}", e.where(), f"the task id's {a} is {tstr(e.bound.get(a)) if e.bound else '?'}", p)
    ctx.need(s, "task id not recognised")


def opt_index(t):
    for s in subterms(t):
        if s[0] == "item" and s[2][0] == "const" and isinstance(s[2][1], int):
            return s[2][1]
    return None


def plan(ctx):
    ctx.rule("(plan) a task returns every node of its group that was requested or that a node outside the group consumes, and depends on every task computing a dependency of its nodes; only overridden nodes and "
             "absent optional dependencies are exempt; it returns what it computed for exactly those names.")
    ix = ctx.ix
    f = ix.func(G + "create_task_plan")
    grp = ("elem", ("param", "node_groups"))
    nd = ("elem", ("attr", grp, "nodes"))
    nm = ("attr", nd, "name")
    OV = ("param", "overrides")
    n = {"out": 0, "dep": 0}
    ps = ctx.paths(f, inline_modules=[f.module.name], raises="none", keyfacts=lambda k: k[0] in ("in", "truthy", "isnone"),
                   keep=lambda e: e.kind in ("setattr", "mut", "new"))
    for p in ps:
        for e in p.trace:
            if e.kind == "new" and e.name == "TaskSpec":
                outs = e.kwargs.get("outputs_to_compute")
                ov = p.facts.get(("in", nm, OV))
                req = [v for k, v in e.nfacts.items() if k[0] == "in" and k[1] == nm and mentions(k[2], ("param", "outputs"))]
                cons = ("elem", ("attr", nd, "depended_on_by"))
                c_ov = e.nfacts.get(("in", ("attr", cons, "name"), OV))
                c_in = [v for k, v in e.nfacts.items() if k[0] == "in" and k[1] == ("attr", cons, "name") and mentions(k[2], grp)]
                has = outs is not None and mentions(outs, nm)
                if e.nfacts.get(("in", nm, OV)) is False:
                    if True in req:
                        n["out"] += 1
                        ctx.check(has, "plan:requested", e.where(), "a requested node is not among its task's outputs", p)
                    elif c_ov is not True and not any(c_in) and (c_in or any(k[0] == "in" and k[1] == ("attr", cons, "name") for k in e.nfacts)):
                        n["out"] += 1
                        ctx.check(has, "plan:consumed", e.where(), "a node consumed outside its task is not among the task's outputs", p)
                elif e.nfacts.get(("in", nm, OV)) is True:
                    pass
                o = e.kwargs.get("overrides")
                for a in ("nodes", "purpose", "base_id", "spawning_task_base_id"):
                    ctx.check(e.kwargs.get(a) == ("attr", grp, a), f"plan:{a}", e.where(), f"the task's {a} is {tstr(e.kwargs.get(a))}, not its group's", p)
            if e.kind == "setattr" and e.name == "base_dependencies":
                # the task of a present, not overridden, external dependency
                facts = e.nfacts
                dep = [k for k in facts if k[0] == "in" and k[1][0] == "attr" and k[1][2] == "name" and k[1][1][0] == "elem" and k[1][1][1][0] == "attr" and k[1][1][1][2] == "dependencies"]
                if dep:
                    ovd = [facts[k] for k in dep if k[2] == OV]
                    ing = [facts[k] for k in dep if k[2] != OV]
                    if ovd and not any(ovd) and ing and not any(ing):
                        none = [v for k, v in facts.items() if k[0] == "isnone" and "get" in repr(k)]
                        val = e.args[0]
                        unreq = [v for k, v in facts.items() if k[0] == "truthy" and k[1][0] == "res" and p.ev(k[1][1]) is not None and p.ev(k[1][1]).name == "requires"]
                        if True not in none and False not in unreq:
                            n["dep"] += 1
                            ctx.check(val not in (("list", ()), ("set", ())), "plan:depends", e.where(), "a task does not depend on the task computing one of its inputs", p)
    ctx.need(n["out"], f"task plan not recognised {n}")
    f = ix.func("hamilton.execution.executors.base_execute_task")
    k = 0
    T = ("param", "task")
    for p in ctx.paths(f, inline_modules=[f.module.name], raises="none", opaque=["execute_subdag", "_modify_callable"]):
        ex = [e for e in p.trace if e.name == "execute_subdag"]
        if p.kind != "return" or not ex:
            continue
        R = ("res", ex[0].uid)
        v = p.value
        if v == R:
            k += 1
            continue
        ctx.need(v[0] == "dict", f"task result not recognised: {tstr(v)}")
        k += 1
        cover = {"outputs_to_compute": False, "overrides": False}
        for r in v[1]:
            ok = r[0] == "kv" and (r[1], r[2]) == (("key", R), ("val", R)) or r[0] == "kv" and r[2] == ("item", R, r[1])
            ctx.check(ok, "task:value", f.loc(), f"a task returns {tstr(r[2]) if r[0] == 'kv' else tstr(r[1])} under another name", p)
            g = dict(r[3][2]) if r[0] == "kv" and len(r[3]) > 2 else {}
            for a in cover:
                if any(kk[0] == "in" and mentions(kk[2], ("attr", T, a)) and vv is True for kk, vv in g.items()) or not g:
                    cover[a] = True
                if mentions(tuple(loops_of(r[3][1])), ("attr", T, a)):
                    cover[a] = True
        for a, okk in cover.items():
            ctx.check(okk, f"task:returns-{a}", f.loc(), f"values of the task's {a} are not returned", p)
    ctx.need(k, "task result not recognised")


PARTS = [("result cache", result_cache), ("write", write_results), ("parameterize", parameterize), ("bind", bind), ("plan", plan)]
