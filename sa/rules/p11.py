"""P11: executors are started and stopped in pairs, whatever happens in between."""
from .common import *

X = "hamilton.execution.executors."
SELF = ("param", "self")
EXS = ("attr", SELF, "executors")


def run_loop(ctx):
    ctx.rule("(run) in the function running a task graph, executors are started exactly once, before any task is submitted, and once started they are stopped exactly once on every way out, including a failure of any "
             "call in between; nothing is submitted after they were stopped.")
    ix = ctx.ix
    f = ix.func(X + "run_graph_to_completion")
    M = ("param", "execution_manager")
    n = 0
    for p in ctx.paths(f, inline_modules=[f.module.name], raises=project_raises(ix), unroll=1, opaque=["init", "finalize", "submit_task"],
                       keep=lambda e: e.name in ("init", "finalize", "submit_task", "can_submit_task")):
        ini = [i for i, e in enumerate(p.trace) if e.name == "init" and e.recv == M]
        fin = [i for i, e in enumerate(p.trace) if e.name == "finalize" and e.recv == M]
        sub = [i for i, e in enumerate(p.trace) if e.name in ("submit_task", "can_submit_task")]
        if p.kind == "diverge" or not ini and not fin and not sub:
            continue
        n += 1
        started = any(p.trace[i].outcome == "ok" for i in ini)
        ctx.check(len(ini) <= 1, "run:start-once", f.loc(), "the executors are started more than once in one run", p)
        if started:
            ctx.check(len(fin) == 1, "run:stopped", f.loc(), f"executors that were started are stopped {len(fin)} times on a way out of the run", p)
        else:
            ctx.check(not fin, "run:stop-needs-start", f.loc(), "executors are stopped that were not (successfully) started", p)
        for s in sub:
            ctx.check(started and ini[0] < s and not any(x < s for x in fin), "run:submit-while-started", p.trace[s].where(), "a task is submitted while the executors are not running", p)
    ctx.need(n >= 3, "running of the executors not recognised")


def manager(ctx):
    ctx.rule("(manager) starting the manager starts every executor, and if one fails to start those already started are stopped again; stopping the manager stops every executor, also when stopping one of them fails; "
             "failures are reported; the executor chosen for a task is one of those that are started.")
    ix = ctx.ix
    for c in [ix.cls(X + "ExecutionManager")] + list(ix.subclasses_of(X + "ExecutionManager")):
        f = ix.find_method(c, "init")
        n = 0
        for p in ctx.paths(f, self_cls=c, inline_modules=[f.module.name], unroll=2, opaque=["finalize", "init"], raises=lambda e: e.name in ("init",)):
            st = [e for e in p.trace if e.name == "init" and mentions(e.recv, EXS)]
            if not st:
                ctx.check(p.kind == "return" and not any(k for k in p.facts if False), "manager:none", f.loc(), "unexpected failure", p)
                continue
            n += 1
            ctx.check(len({e.recv for e in st}) == len(st), "manager:start-each-once", f.loc(), "an executor is started twice", p)
            failed = [e for e in st if e.outcome == "raise"]
            if failed:
                ctx.check(p.kind == "raise", f"{c.name}.init:reports", f.loc(), "a failure to start an executor is not reported", p)
                for e in st:
                    if e.outcome == "ok":
                        stopped = any(e2.name == "finalize" and stands_for(e2.recv, e.recv) for e2 in p.trace[p.trace.index(failed[0]):])
                        ctx.check(stopped, f"{c.name}.init:rollback", f.loc(), "an executor that was already started keeps running when another one fails to start", p)
        ctx.need(n >= 2, f"{c.name}.init not recognised")
        ctx.check(all_elements(ctx, c, f, "init"), f"{c.name}.init:all", f.loc(), "not every executor is started")
        f = ix.find_method(c, "finalize")
        n = 0
        for p in ctx.paths(f, self_cls=c, inline_modules=[f.module.name], unroll=2, opaque=["finalize", "init"], raises=lambda e: e.name in ("finalize",)):
            st = [e for e in p.trace if e.name == "finalize" and mentions(e.recv, EXS)]
            if not st:
                continue
            n += 1
            if st[0].outcome == "raise":
                ctx.check(p.kind == "raise", f"{c.name}.finalize:reports", f.loc(), "a failure to stop an executor is not reported", p)
        two = [p for p in ctx.paths(f, self_cls=c, inline_modules=[f.module.name], unroll=2, opaque=["finalize", "init"], raises=lambda e: e.name in ("finalize",))
               if sum(e.name == "finalize" for e in p.trace) >= 2 and [e for e in p.trace if e.name == "finalize"][0].outcome == "raise"]
        ctx.check(bool(two), f"{c.name}.finalize:continues", f.loc(), "when stopping one executor fails, the remaining ones keep running")
        ctx.need(n >= 1, f"{c.name}.finalize not recognised")
        ctx.check(all_elements(ctx, c, f, "finalize"), f"{c.name}.finalize:all", f.loc(), "not every executor is stopped")
        g = ix.find_method(c, "get_executor_for_task")
        if g is None or "abstractmethod" in str(g.decorators):
            continue
        fields = init_fields(ctx, c)
        for p in ctx.paths(g, self_cls=c, inline_modules=[g.module.name], raises="none"):
            if p.kind == "return":
                a = p.value
                ok = mentions(a, EXS) or a[0] == "attr" and a[1] == SELF and a[2] in fields
                ctx.check(ok, f"{c.name}:chosen-is-started", g.loc(), f"the executor chosen for a task ({tstr(a)}) is not one of those the manager starts", p)


def stands_for(a, b):
    """Is finalizing `a` finalizing (an element of a list holding) `b`?"""
    if a == b:
        return True
    return a is not None and a[0] in ("elem", "nth") and (mentions(a, b) or mentions(a, EXS) and a[0] == b[0])


def all_elements(ctx, c, f, name):
    """Every executor is visited: some path visits a generic element of the executors, and the sequence visited is not filtered or sliced."""
    ix = ctx.ix
    ok = False
    for p in ctx.paths(f, self_cls=c, inline_modules=[f.module.name], raises="none", opaque=["finalize", "init"]):
        for e in p.trace:
            if e.name == name and mentions(e.recv, EXS):
                if any(t[0] == "slice" or t[0] == "item" and t[2][0] == "const" for t in subterms(e.recv)):
                    return False
                ok = True
        if p.kind == "return" and not any(e.name == name for e in p.trace):
            # the only way to visit none is that there are none
            if any(v for k, v in p.facts.items() if k[0] == "truthy" and k[1] == EXS):
                return False
            bad = [k for k in p.facts if mentions(k, ("elem", EXS))]
            if bad:
                return False
    return ok


def init_fields(ctx, c):
    """Attributes of self holding values that are members of the list given to the base constructor."""
    ix = ctx.ix
    out = None
    f = ix.find_method(c, "__init__")
    for p in ctx.paths(f, self_cls=c, inline_modules=[f.module.name], raises="none"):
        sets = [e for e in p.trace if e.kind == "setattr" and e.recv == SELF]
        lst = [e.args[0] for e in sets if e.name == "executors"]
        mem = set()
        for x in lst:
            if x[0] in ("list", "tuple"):
                mem |= {r[1] for r in x[1] if r[0] == "e"}
            mem.add(("elem", x))
        here = {e.name for e in sets if e.name != "executors" and e.args[0] in mem}
        out = here if out is None else out & here
    return out or set()


def implementations(ctx):
    ctx.rule("(executors) in every executor, what starting acquires under a condition stopping releases under the same condition; an executor that records being started is recorded as stopped afterwards, so it can be started "
             "again; starting twice without stopping is refused rather than leaking the first pool; a bounded executor registers every submitted task, and counts only unfinished ones when deciding whether it is full.")
    ix = ctx.ix
    n = 0
    for c in ix.subclasses_of(X + "TaskExecutor"):
        i, z = ix.find_method(c, "init"), ix.find_method(c, "finalize")
        if i is None or z is None or "abstractmethod" in str(i.decorators):
            continue
        n += 1
        acq, flags = {}, {}
        for p in ctx.paths(i, self_cls=c, raises="none", opaque=["create_pool"]):
            for e in p.trace:
                if e.kind in ("call", "callv") and e.name in ("create_pool",) or e.kind in ("call", "new") and external(ix, e) and e.qual.split(".")[-1] in ("init", "start", "Client", "Pool"):
                    acq.setdefault(e.name, []).append((guards(p), p))
                if e.kind == "setattr" and e.recv == SELF and e.args[0] == TRUE:
                    flags[e.name] = p
        for m in c.methods.values():
            if acq and m.name not in ("init", "create_pool", "__init__") and not m.name.startswith("_"):
                for p in ctx.paths(m, self_cls=c, inline_modules=[m.module.name], raises="none", opaque=["create_pool", "base_execute_task"]):
                    for e in p.trace:
                        ctx.check(e.name not in acq or any(x.name == "finalize" for x in p.trace), f"{c.name}:opens-only-at-start", e.where(), f"{m.name} acquires a pool of its own ({e.name}): only init may, as nothing releases this one", p)
        rel, unflags = [], set()
        zp = ctx.paths(z, self_cls=c, raises="none")
        for p in zp:
            for e in p.trace:
                if e.name in ("shutdown", "close", "stop", "terminate"):
                    rel.append((guards(p), e))
                if e.kind == "setattr" and e.recv == SELF and e.args[0] == FALSE:
                    unflags.add(e.name)
        for name, L in acq.items():
            ctx.check(bool(rel), f"{c.name}:released", z.loc(), f"what starting acquires ({name}) is never released by stopping")
            for g, p in L:
                # under the state after init, finalize must release on every path consistent with it
                st = {("truthy", ("attr", SELF, e.name)): e.args[0] == TRUE for e in p.trace if e.kind == "setattr" and e.recv == SELF and e.args[0] in (TRUE, FALSE)}
                g2 = dict(g)
                g2.update(st)
                for q in zp:
                    if all(g2.get(k, v) == v for k, v in guards(q)):
                        ok = q.kind == "return" and any(e.name in ("shutdown", "close", "stop", "terminate") for e in q.trace)
                        ctx.check(ok, f"{c.name}:release-matches", z.loc(), f"after a start that acquired {name}, stopping does not release it", q)
                        for fl, v in st.items():
                            if v:
                                reset = any(e.kind == "setattr" and e.recv == SELF and e.name == fl[1][2] and e.args[0] == FALSE for e in q.trace)
                                ctx.check(reset, f"{c.name}:restartable", z.loc(), f"stopping leaves {fl[1][2]} set: the executor cannot be started again", q)
        for g, e in rel:
            for p in ctx.paths(i, self_cls=c, raises="none", opaque=["create_pool"]):
                if all(dict(g).get(k, v) == v for k, v in guards(p) if not k[1][2:] or k[1][2] not in flags) and p.kind == "return":
                    ctx.check(any(x in p2names(p) for x in acq), f"{c.name}:releases-only-own", e.where(), "stopping shuts down something starting did not acquire", p)
        for fl in flags:
            for p in ctx.paths(i, self_cls=c, raises="none", opaque=["create_pool"]):
                for e in p.trace:
                    if e.name in acq:
                        ctx.check(e.nfacts.get(("truthy", ("attr", SELF, fl))) is False, f"{c.name}:double-start", e.where(), "starting a started executor replaces its pool without releasing it", p)
        cs = ix.find_method(c, "can_submit_task")
        sm = ix.find_method(c, "submit_task")
        ctx.need(cs is not None and sm is not None, f"{c.name} lacks can_submit_task/submit_task")
        for p in ctx.paths(cs, self_cls=c, inline_modules=[cs.module.name], raises="none"):
            if p.kind != "return":
                continue
            ctx.check(p.value != NONE, f"{c.name}:can-submit-answers", cs.loc(), "can_submit_task may return None, so no task would ever be submitted", p)
            ctx.check(p.value != FALSE or p.facts, f"{c.name}:can-submit-ever", cs.loc(), "can_submit_task always answers no", p)
            src = (p.value,) + tuple(p.facts)
            if mentions(src, ("attr", SELF, "max_tasks")):
                capacity(ctx, c, cs, p, src)
                for k, v in p.facts.items():
                    if k[0] == "lt" and p.value in (TRUE, FALSE) and ("attr", SELF, "max_tasks") in k[1:]:
                        room = v if k[2] == ("attr", SELF, "max_tasks") else None
                        ctx.check(room is None or (p.value == TRUE) == room, f"{c.name}:capacity", cs.loc(), "the answer whether there is room contradicts the number of running tasks", p)
                reg = 0
                for q in ctx.paths(sm, self_cls=c, inline_modules=[sm.module.name], raises="none", opaque=["base_execute_task", "submit"]):
                    sub = [e for e in q.trace if e.name == "submit"]
                    app = [e for e in q.trace if e.name in ("append", "add") and sub and ("res", sub[0].uid) in e.args]
                    reg += 1
                    ctx.check(len(app) == 1, f"{c.name}:registers", sm.loc(), "a submitted task is not counted as active", q)
    ctx.need(n >= 4, "executors vanished")


def capacity(ctx, c, cs, p, src):
    """active futures counted are exactly the unfinished ones"""
    for s in subterms(src):
        if s[0] == "pure" and s[1] == "len":
            a = s[3][0]
            if a[0] in ("list", "copy"):
                recs = a[1]
                g = [dict(r[-1][2]) if len(r[-1]) > 2 else {} for r in recs]
                dn = [v for gg in g for k, v in gg.items() if "done" in repr(k)]
                ctx.check(dn and not any(dn), f"{c.name}:counts-unfinished", cs.loc(), f"finished tasks are counted when deciding whether the executor is full: {tstr(a)}", p)
                return
            ctx.check(a[0] != "attr", f"{c.name}:counts-unfinished", cs.loc(), f"finished tasks are counted when deciding whether the executor is full: {tstr(a)}", p)


def p2names(p):
    return {e.name for e in p.trace}


def guards(p):
    return [(k, v) for k, v in p.facts.items() if k[0] == "truthy" and k[1][0] == "attr" and k[1][1] == SELF]


PARTS = [("run", run_loop), ("manager", manager), ("implementations", implementations)]
