"""P10: the task scheduler runs each task once, after everything it depends on, and stops for the right reason."""
from .common import *

S = "hamilton.execution.state."
TS = S + "TaskState"
SELF = ("param", "self")
STATES, POOL, QUEUE = ("attr", SELF, "task_states"), ("attr", SELF, "task_pool"), ("attr", SELF, "task_queue")


def ts(name):
    return ("global", f"{TS}.{name}")


def state_fact(k, key_pred, name):
    """Is k an eq-fact `task_states[<key satisfying key_pred>] == TaskState.<name>`?"""
    if k[0] != "eq":
        return False
    a, b = k[1], k[2]
    for x, y in ((a, b), (b, a)):
        if tstr(y).endswith("TaskState." + name) and x[0] in ("item", "pure", "val") and mentions(x, STATES):
            if x[0] == "item":
                return key_pred(x[2])
            if x[0] == "pure" and x[1] == "get" and x[3]:
                return key_pred(x[3][0])
    return False


def forall(nf, pred):
    """pred(fact key) known true for every element, from an all()/any() test among the facts."""
    for k, v in nf.items():
        if k[0] != "truthy" or k[1][0] != "pure" or k[1][1] not in ("all", "any"):
            continue
        if (k[1][1] == "all") != (v is True):
            continue
        a = k[1][3][0] if k[1][3] else None
        if a is None or a[0] not in ("list", "set", "tuple", "gen"):
            continue
        bad_value = FALSE if k[1][1] == "all" else TRUE
        recs = a[1]
        ok = bool(recs)
        for r in recs:
            g = dict(r[-1][2]) if isinstance(r[-1], tuple) and r[-1][0] == "L" and len(r[-1]) > 2 else {}
            if not any(pred(kk) and vv is True for kk, vv in g.items()) and r[1] != bad_value:
                ok = False
        if ok:
            return True
    return None


def state_of(k):
    """(key, state name) of an eq-fact on task_states, else None."""
    if k[0] != "eq":
        return None
    for x, y in ((k[1], k[2]), (k[2], k[1])):
        m = tstr(y).rsplit(".", 2)
        if len(m) == 3 and m[1] == "TaskState" and mentions(x, STATES):
            if x[0] == "item":
                return x[2], m[2]
            if x[0] == "pure" and x[1] == "get" and x[3]:
                return x[3][0], m[2]
    return None


def evidence(nf, RD):
    """Were all dependencies reachable from RD found SUCCESSFUL?  None when they were tested in a way not recognised."""
    per = {}
    for k, v in nf.items():
        s = state_of(k)
        if s is not None and mentions(s[0], RD):
            per.setdefault(s[0], []).append((s[1], v))
    partial = [k for k in per if any(t[0] == "item" and t[2][0] == "const" or t[0] == "slice" for t in subterms(k) if mentions(t, RD))]
    if partial and len(partial) == len(per):
        return False  # only selected dependencies were looked at
    if per:
        return all(("SUCCESSFUL", True) in x for x in per.values())
    if forall(nf, lambda k: state_fact(k, lambda d: mentions(d, RD), "SUCCESSFUL")):
        return True
    rest = [k for k in nf if mentions(k, RD) and k[0] != "dictlike"]
    if any(k[0] == "truthy" and nf[k] is False and (k[1] == RD or k[1][0] in ("val", "elem") and mentions(k[1], RD)) for k in rest):
        return True
    if any(k[0] == "truthy" and k[1][0] == "pure" and k[1][1] in ("all", "any") for k in rest):
        return False
    return None if [k for k in rest if k[0] != "truthy"] else False


def members(X, p):
    """The individual values an element of a local list may be."""
    if X[0] == "nth":
        X = X[2]
    if X[0] == "elem" and X[1][0] == "list":
        return [r[1] for r in X[1][1] if r[0] == "e"]
    return [X]


def enqueue(ctx):
    ctx.rule("(release) a task enters the queue only on paths where its own state was just found INITIALIZED and the states of all its realized dependencies were found SUCCESSFUL (or it has none), and "
             "its state is QUEUED afterwards; nothing else puts tasks into the queue except the initial fill (tasks without dependencies) and putting back a task that was handed back.")
    ix = ctx.ix
    c = ix.cls(S + "ExecutionState")
    f = ix.method(c, "update_task_state")
    kf = lambda k: "realized_dependencies" in repr(k) or "INITIALIZED" in repr(k) or k[0] == "truthy" and "is_terminal" in repr(k) or k[0] == "eq" and ("param", "new_state") in k  # noqa: E731
    ps = ctx.paths(f, self_cls=c, inline_modules=[c.module.name], raises="none", unroll=2, pure=("is_terminal", "is_expander", "is_gatherer"), keyfacts=kf,
                   opaque=["write_task_results", "realize_task", "realize_parameterized_group"],
                   keep=lambda e: e.kind in ("setitem", "mut", "delitem") or e.name in ("append", "appendleft", "extend", "insert", "write_task_results", "realize_task", "realize_parameterized_group"))
    n = 0
    for p in ps:
        puts = [e for e in p.trace if e.name in ("append", "appendleft", "extend", "insert", "[]=") and e.recv == QUEUE]
        for e in puts[:1]:
            n += 1
            X = e.args[-1]
            if e.name == "extend":
                els = [r[1] for r in X[1] if r[0] == "e"] if X[0] == "list" else []
                ctx.need(els, "extend of the queue with an unrecognised value")
                X = els[0]
            own = lambda k, X=X: k == ("attr", X, "task_id") or mentions(k, X) and "task_id" in repr(k)  # noqa: E731
            for Y in members(X, p):
                nf = {}
                for e2 in p.trace:
                    if e2.kind in ("mut", "call") and Y in e2.args:
                        nf = e2.nfacts
                        break
                    if e2 is e:
                        nf = e.nfacts
                        break
                ini = [v for k, v in nf.items() if state_fact(k, lambda k: mentions(k, Y) and "task_id" in repr(k), "INITIALIZED")]
                if not ini:
                    ctx.need(not any("INITIALIZED" in repr(k) and mentions(k, Y) for k in nf), "how a task is found to be waiting is not recognised")
                ctx.check(ini and all(ini), "enqueue:initialized", e.where(), f"{tstr(Y)} is enqueued without its state having been found INITIALIZED: it could run twice", p)
                ev = evidence(nf, ("attr", Y, "realized_dependencies"))
                ctx.need(ev is not None, "how dependencies are found to be complete is not recognised")
                ctx.check(ev, "enqueue:dependencies", e.where(), f"{tstr(Y)} is enqueued although a dependency was not found SUCCESSFUL", p)
            after = p.trace[p.trace.index(e):]
            before = p.trace[:p.trace.index(e)]
            q = [e2 for e2 in after + before if e2.kind == "setitem" and e2.recv == STATES and e2.args and own(e2.args[0])]
            ctx.check(q and tstr(q[-1].args[1]).endswith("TaskState.QUEUED"), "enqueue:queued", e.where(), f"{tstr(X)} is enqueued but its state is not set to QUEUED: it could be enqueued twice", p)
            suc = [v for k, v in p.facts.items() if k[0] == "eq" and ("param", "new_state") in k and "SUCCESSFUL" in repr(k)]
            ctx.check(True in suc, "enqueue:on-success", e.where(), "tasks are enqueued although the updated task did not succeed", p)
        w = [e for e in p.trace if e.kind == "setitem" and e.recv == STATES and e.args[0] == ("param", "task_id")]
        ctx.check(w and w[0].args[1] == ("param", "new_state"), "update:records", f.loc(), "a task's new state is not recorded", p)
        suc = [v for k, v in p.facts.items() if k[0] == "eq" and ("param", "new_state") in k and "SUCCESSFUL" in repr(k)]
        wr = [e for e in p.trace if e.name == "write_task_results"]
        if True in suc:
            ctx.check(len(wr) == 1 and mentions(wr[0].arg("writer", 0), ("param", "task_id")) and wr[0].arg("results", 1) == ("param", "results"), "update:writes-results", f.loc(),
                      "a successful task's results are not stored (exactly once, as its own)", p)
            if puts:
                ctx.check(not wr or p.trace.index(wr[0]) < p.trace.index(puts[0]), "update:results-first", puts[0].where(), "dependents are enqueued before the results are stored", p)
        elif suc:
            ctx.check(not wr, "update:no-results", f.loc(), "results are stored for a task that did not succeed", p)
    ctx.need(n, "enqueueing not found")
    # every other writer of the queue
    for name, m in c.methods.items():
        if name in ("__init__", "update_task_state"):
            continue
        for p in ctx.paths(m, self_cls=c, raises="none", keep=lambda e: e.kind in ("setitem", "mut", "call"), keyfacts=lambda k: "base_dependencies" in repr(k)):
            for e in p.trace:
                if e.recv != QUEUE or e.name not in ("append", "appendleft", "extend", "extendleft", "insert"):
                    continue
                X = e.args[-1]
                if X == ("param", "task_to_reject") or name == "reject_task":
                    ctx.check(X[0] == "param", "reject:same", e.where(), f"{tstr(X)} is queued in place of the rejected task", p)
                elif reaches(ix, c, "update_task_state", name):
                    continue  # inlined above
                else:
                    bd = ("attr", X, "base_dependencies")
                    nodeps = any((k[0] == "truthy" and k[1] == bd and v is False) or (k[0] == "eq" and mentions(k, bd) and const(0) in k and v is True) for k, v in e.nfacts.items())
                    if not nodeps:
                        ctx.need(not any(mentions(k, bd) for k in e.nfacts), f"{name}: condition for the initial queue not recognised")
                    ctx.check(nodeps, f"{name}:initial", e.where(), "a task with dependencies is queued at start", p)
                    st = [e2 for e2 in p.trace if e2.kind == "setitem" and e2.recv == STATES and mentions(e2.args[0], X)]
                    ctx.check(st and tstr(st[-1].args[1]).endswith("QUEUED"), f"{name}:queued", e.where(), "a queued task's state is not set to QUEUED", p)


def reaches(ix, c, frm, name):
    import ast
    m = c.methods.get(frm)
    return m is not None and any(isinstance(x, ast.Attribute) and x.attr == name for x in ast.walk(m.node))


def states(ctx):
    ctx.rule("(end) the graph is SUCCESSFUL only when every task is, FAILED when some task is, and otherwise not terminal; the terminal states are exactly SUCCESSFUL and FAILED.")
    ix = ctx.ix
    c = ix.cls(S + "ExecutionState")
    f = ix.method(c, "get_graph_state")
    n = {}
    el = ("val", STATES)

    def isst(name):
        return lambda k: k[0] == "eq" and any(tstr(y).endswith("TaskState." + name) for y in k[1:]) and any(x == el or x[0] in ("elem", "val", "item") and mentions(x, STATES) for x in k[1:])
    for p in ctx.paths(f, self_cls=c, inline_modules=[c.module.name], raises="none", unroll=2, keyfacts=lambda k: True):
        if p.kind != "return":
            continue
        v = tstr(p.value).rsplit(".", 1)[-1]
        n[v] = n.get(v, 0) + 1
        alls = {nm: {k: vv for k, vv in p.facts.items() if isst(nm)(k)} for nm in ("SUCCESSFUL", "FAILED")}
        allsucc = forall(p.facts, isst("SUCCESSFUL")) or (alls["SUCCESSFUL"] and all(alls["SUCCESSFUL"].values()))
        nofail = forall_not(p.facts, isst("FAILED"))
        if v == "SUCCESSFUL":
            ctx.check(bool(allsucc), "graph:successful", f.loc(), "the graph is reported SUCCESSFUL although not every task was found SUCCESSFUL", p)
        elif v == "FAILED":
            anyf = exists(p.facts, isst("FAILED"))
            ctx.check(anyf is not False, "graph:failed", f.loc(), "the graph is reported FAILED although no task was found FAILED", p)
        elif v == "RUNNING":
            ctx.check(bool(nofail), "graph:running", f.loc(), "a graph with a failed task may be reported as running: the run would not stop", p)
    ctx.need({"SUCCESSFUL", "FAILED", "RUNNING"} <= set(n), f"graph states not recognised: {n}")
    for cls in ("TaskState", "GraphState"):
        k = ix.cls(S + cls)
        m = ix.method(k, "is_terminal")
        prm = [a.arg for a in m.node.args.args if a.arg not in ("self", "cls")][0]
        import ast
        members = [t.id for st in k.node.body if isinstance(st, ast.Assign) for t in st.targets if isinstance(t, ast.Name)]
        want = {"SUCCESSFUL", "FAILED"}
        got = None
        for p in ctx.paths(m, self_cls=k, raises="none", keyfacts=lambda k: True):
            if p.kind != "return":
                continue
            if got is None:
                got = set()
            for k2, v2 in p.facts.items():
                if k2[0] == "eq" and ("param", prm) in k2 and v2 is True and p.value == TRUE:
                    got |= {x[1].rsplit(".", 1)[-1] for x in k2[1:] if x[0] == "global"}
                if k2[0] == "in" and k2[1] == ("param", prm) and v2 is True and p.value == TRUE and k2[2][0] in ("list", "set", "tuple", "const"):
                    got |= {s[1].rsplit(".", 1)[-1] for s in subterms(k2[2]) if s[0] == "global"}
            if p.value[0] in ("pure", "in", "cmp", "or", "bool"):
                got |= {s[1].rsplit(".", 1)[-1] for s in subterms(p.value) if s[0] == "global"}
        ctx.need(got, f"{cls}.is_terminal not recognised")
        ctx.check(got & set(members) == want, f"{cls}.is_terminal", m.loc(), f"{cls}.is_terminal holds for {sorted(got)}")


def forall_not(nf, pred):
    """No element satisfies pred, from any()=False / all()=True tests or plain facts."""
    for k, v in nf.items():
        if k[0] == "truthy" and k[1][0] == "pure" and k[1][1] in ("any", "all") and (k[1][1] == "all") == (v is True):
            a = k[1][3][0] if k[1][3] else None
            if a is None or a[0] not in ("list", "set", "tuple", "gen"):
                continue
            bad = TRUE if k[1][1] == "any" else FALSE
            ok = bool(a[1])
            for r in a[1]:
                g = dict(r[-1][2]) if isinstance(r[-1], tuple) and r[-1][0] == "L" and len(r[-1]) > 2 else {}
                if not any(pred(kk) and vv is False for kk, vv in g.items()) and r[1] != bad:
                    ok = False
            if ok:
                return True
    inst = [v for k, v in nf.items() if pred(k)]
    if inst and not any(inst):
        return True
    return any(k[0] == "truthy" and v is False and mentions(k, STATES) and k[1][0] in ("attr", "pure") for k, v in nf.items())


def exists(nf, pred):
    for k, v in nf.items():
        if k[0] == "truthy" and k[1][0] == "pure" and k[1][1] in ("any", "all"):
            a = k[1][3][0] if k[1][3] else None
            if a is not None and a[0] in ("list", "set", "tuple", "gen") and any(pred(kk) for r in a[1] if len(r[-1]) > 2 for kk, _ in r[-1][2]):
                return (k[1][1] == "any") == (v is True)
    inst = [v for k, v in nf.items() if pred(k)]
    if inst:
        return any(inst)
    return None


OPQ = ["init", "finalize", "submit_task", "get_state", "get_result", "update_task_state", "release_next_task", "reject_task", "can_submit_task", "get_executor_for_task", "get_graph_state"]


def loop(ctx):
    ctx.rule("(loop) every released task is either submitted exactly once, to the executor chosen for it and with room for it, and its future kept under its own id, or handed back; in-flight tasks are "
             "polled with the state read before the result (so a result is never taken as missing for a finished task) and dropped exactly when terminal; the loop ends only in a terminal graph state.")
    ix = ctx.ix
    f = ix.func("hamilton.execution.executors.run_graph_to_completion")
    n = {"submit": 0, "reject": 0, "update": 0}
    ps = ctx.paths(f, inline_modules=["hamilton.execution.executors"], raises="none", opaque=OPQ, pure=("is_terminal",), keyfacts=lambda k: "can_submit_task" in repr(k) or "is_terminal" in repr(k),
                   keep=lambda e: e.name in OPQ or e.kind in ("setitem", "delitem", "mut"))
    for p in ps:
        rel = [e for e in p.trace if e.name == "release_next_task"]
        for r in rel:
            t = ("res", r.uid)
            sub = [e for e in p.trace if e.name == "submit_task" and t in (e.args[:1] + tuple(e.kwargs.values()))]
            rej = [e for e in p.trace if e.name == "reject_task" and t in (e.args[:1] + tuple(e.kwargs.values()))]
            none = p.facts.get(("isnone", t))
            if none is True:
                ctx.check(not sub and not rej, "loop:nothing", r.where(), "something is submitted although no task was released", p)
                continue
            later = p.trace.index(r) < len(p.trace) - 1
            ctx.check(len(sub) + len(rej) == 1 or p.kind == "diverge" and not later, "loop:once", r.where(), f"a released task is submitted {len(sub)} and handed back {len(rej)} times", p)
            for s in sub:
                n["submit"] += 1
                ex = [e for e in p.trace if e.name == "get_executor_for_task" and s.recv == ("res", e.uid)]
                ctx.check(ex and t in (ex[0].args[:1] + tuple(ex[0].kwargs.values())), "loop:own-executor", s.where(), f"the task is submitted to {tstr(s.recv)}, not to the executor chosen for it", p)
                cs = [e for e in p.trace if e.name == "can_submit_task" and e.recv == s.recv]
                room = cs and s.nfacts.get(("truthy", ("res", cs[0].uid))) is True
                ctx.check(bool(room), "loop:room", s.where(), "a task is submitted without the executor having room for it", p)
                keep_ = [e for e in p.trace if e.kind == "setitem" and e.args and e.args[1] == ("res", s.uid)]
                ctx.check(keep_ and keep_[0].args[0] == ("attr", t, "task_id"), "loop:tracked", s.where(), "the future of a submitted task is not kept under the task's own id", p)
            n["reject"] += len(rej)
        for e in p.trace:
            if e.name == "update_task_state":
                n["update"] += 1
                st, rs = e.arg("new_state", 1), e.arg("results", 2)
                i = idx(p, st)
                j = idx(p, rs)
                if i is not None and j is not None:
                    ctx.check(i < j, "loop:state-before-result", e.where(), "the result is read before the state: a task finishing in between is recorded as successful without its result", p)
        for e in p.trace:
            if e.kind == "delitem" and e.args and not (e.recv is not None and e.recv[0] == "param"):
                term = [v for k, v in e.nfacts.items() if k[0] == "truthy" and "is_terminal" in repr(k) and "get_state" in tst(p, k)]
                ctx.check(term and all(term), "loop:drops-terminal", e.where(), "a task that is not finished is dropped from the in-flight tasks", p)
        if p.kind == "return":
            g = [v for k, v in p.facts.items() if k[0] == "truthy" and "is_terminal" in repr(k) and "get_graph_state" in tst(p, k)]
            ends = last_test(p)
            ctx.check(ends, "loop:terminal", f.loc(), "the scheduler stops although the graph is not in a terminal state", p)
    ctx.need(n["submit"] and n["reject"] and n["update"], f"scheduler loop not recognised {n}")


def tst(p, k):
    out = []
    for s in subterms(k[1]):
        if s[0] == "res":
            e = p.ev(s[1])
            if e is not None:
                out.append(e.name)
    return " ".join(out)


def last_test(p):
    """Was the last graph-state test on the path positive?"""
    best = None
    for k, v in p.facts.items():
        if k[0] == "truthy" and "is_terminal" in repr(k) and "get_graph_state" in tst(p, k):
            u = max(s[1] for s in subterms(k[1]) if s[0] == "res")
            if best is None or u > best[0]:
                best = (u, v)
    return best is not None and best[1] is True


def idx(p, t):
    if t is None or t[0] != "res":
        return None
    e = p.ev(t[1])
    return p.trace.index(e) if e in p.trace else None


def release(ctx):
    ctx.rule("(hand-out) handing out a task removes exactly that task from the queue and returns it with its inputs bound; an empty queue hands out nothing.")
    ix = ctx.ix
    c = ix.cls(S + "ExecutionState")
    f = ix.method(c, "release_next_task")
    n = 0
    for p in ctx.paths(f, self_cls=c, raises="none", opaque=["bind_task"], keep=lambda e: e.kind in ("call", "mut", "delitem")):
        pops = [e for e in p.trace if e.recv == QUEUE and e.name in ("popleft", "pop")]
        binds = [e for e in p.trace if e.name == "bind_task"]
        if p.kind == "return" and p.value != NONE:
            n += 1
            ctx.check(len(pops) == 1, "release:pop", f.loc(), f"handing out a task removes {len(pops)} tasks from the queue", p)
            if pops:
                ctx.check(len(binds) == 1 and binds[0].args and binds[0].args[0] == ("res", pops[0].uid) and p.value == ("res", binds[0].uid), "release:bound", f.loc(),
                          "the task handed out is not the dequeued one with its inputs bound", p)
        elif p.kind == "return":
            ctx.check(not pops, "release:lost", f.loc(), "a task is removed from the queue but not handed out", p)
    ctx.need(n, "release not recognised")


def exact(ctx):
    """update_task_state followed exactly over a pool of one waiting task with three dependencies (in two entries), whose states are unknowns: it is queued iff it waits and all three succeeded."""
    from .p24 import D, L, V, entries, items, paths
    ctx.rule("(exact) with one waiting task depending on d1 and d2 through one entry and on d3 through another, every path that puts it in the queue has found its state INITIALIZED and all three dependencies "
             "SUCCESSFUL, whether or not the dependencies have been created yet; and every path on which all of this holds after a success puts it in the queue, exactly once, with its state QUEUED.")
    ix = ctx.ix
    c = ix.cls(S + "ExecutionState")
    f = ix.find_method(c, "update_task_state")
    X, done = V("T"), V("DONE")
    sv = {k: V("state_" + k) for k in ("t", "d1", "d2", "d3")}
    at = {(SELF, "task_pool"): D({"done": done, "t": X}), (X, "realized_dependencies"): D({"x": L(const("d1"), const("d2")), "y": L(const("d3"))}), (done, "realized_dependencies"): D({}),
          (X, "task_id"): const("t"), (done, "task_id"): const("done"), (done, "base_id"): const("done"), (SELF, "task_queue"): L(), (SELF, "base_reverse_dependencies"): D({"done": L()}),
          (SELF, "task_states"): D({"done": V("state_done"), **sv})}
    n = 0
    for p in paths(ctx, f, c, attrs=at, bind={"task_id": const("done"), "new_state": ts("SUCCESSFUL")}, pure=("is_expander", "is_gatherer"), unroll=4, max_paths=4000, keyev=lambda e: False,
                   opaque=["write_task_results", "realize_task", "realize_parameterized_group", "_format_task_queue"], keyfacts=lambda k: "state_" in repr(k)):
        if p.kind != "return":
            continue
        nf = p.facts

        def found(s, want):
            rs = [(tstr(y).rsplit(".", 1)[-1], v) for k, v in nf.items() if k[0] in ("eq", "is") for x, y in ((k[1], k[2]), (k[2], k[1])) if x == s and "TaskState." in tstr(y)]
            if any(v and w == want for w, v in rs):
                return True
            return False if any(v or w == want for w, v in rs) else None
        q = items(p.final(SELF, "task_queue"))
        ctx.need(q is not None, "exact: the queue is not followed")
        got = list(q).count(X)
        want = [found(sv["t"], "INITIALIZED")] + [found(sv[d], "SUCCESSFUL") for d in ("d1", "d2", "d3")]
        n += 1
        if got:
            ctx.check(got == 1, "exact:once", f.loc(), "a task is put in the queue twice", p)
            fin = entries(p.final(SELF, "task_states"))
            ctx.need(fin is not None, "exact: the states are not followed")
            ctx.check(tstr(fin.get(const("t"), FALSE)).endswith("TaskState.QUEUED"), "exact:queued", f.loc(), "a task is put in the queue but its state is not QUEUED afterwards", p)
            ctx.check(want[0] is True, "exact:waiting", f.loc(), "a task is put in the queue without being found waiting", p)
            ctx.check(want[1:] == [True] * 3, "exact:dependencies", f.loc(), "a task is put in the queue although not all of its dependencies were found successful: " + ", ".join(d for d, w in zip(("d1", "d2", "d3"), want[1:]) if not w), p)
        else:
            ctx.check(False in want, "exact:released", f.loc(), "a waiting task all of whose dependencies succeeded is not put in the queue: it never runs", p)
    ctx.need(n >= 2, "exact: no path decided")


PARTS = [("enqueue", enqueue), ("exact", exact), ("states", states), ("loop", loop), ("release", release)]
