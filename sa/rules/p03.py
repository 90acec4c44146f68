"""P03: task-level hooks bracket every task, and every executor runs tasks through the bracketed function."""
from .common import *

MIN_OBLIGATIONS = 30
TASK_FN = "hamilton.execution.executors.base_execute_task"


def run(ctx):
    ix = ctx.ix
    ctx.rule("On every abstract path of the task runner: pre-task hook once before the task's nodes are executed, post-task hook exactly once afterwards "
             "whatever the outcome, with agreeing success/error/results and task identity; every task executor submits exactly the task runner, exactly once.")
    check_runner(ctx, ix.func(TASK_FN))
    execs = ix.subclasses_of("hamilton.execution.executors.TaskExecutor")
    ctx.need(len(execs) >= 4, "task executors vanished")
    for c in execs:
        f = ix.find_method(c, "submit_task")
        if f is None or "abstractmethod" in str(f.decorators):
            continue
        ps = ctx.paths(f, self_cls=c, inline_modules=[c.module.name, "hamilton.execution.executors"], opaque=["base_execute_task"], raises="none")
        for p in ps:
            n = 0
            for e in p.trace:
                if e.kind not in ("call", "callv"):
                    continue
                if e.qual == TASK_FN:
                    n += 1
                    ok_task(ctx, c, f, e, list(e.args) + list(e.kwargs.values()), p)
                elif ("global", TASK_FN) in e.args:
                    if e.name == "remote":  # ray.remote(fn) -> handle; counted when .remote(...) is invoked on it
                        continue
                    n += 1
                    ok_task(ctx, c, f, e, [a for a in e.args if a != ("global", TASK_FN)] + list(e.kwargs.values()), p)
                elif e.recv is not None and e.recv[0] == "res":
                    src = p.ev(e.recv[1])
                    if src is not None and ("global", TASK_FN) in src.args and src.name == "remote" and e.name == "remote":
                        n += 1
                        ok_task(ctx, c, f, e, list(e.args) + list(e.kwargs.values()), p)
            ctx.check(n == 1, f"{c.name}.submit_task:runs-once", f.loc(), f"submitting a task runs the task runner {n} times", p)


def ok_task(ctx, c, f, e, given, p):
    ctx.check(("param", "task") in given or any(mentions(g, ("param", "task")) for g in given), f"{c.name}.submit_task:task", e.where(), "the submitted work is not given the task", p)


def check_runner(ctx, f):
    ix = ctx.ix
    k = f.name
    loc = f.loc()

    def is_body(e):
        return e.name == "execute_subdag"
    ps = ctx.paths(f, inline_modules=["hamilton.execution.executors"], pure=PURE, opaque=["execute_subdag"],
                   keep=lambda e: e.kind == "call" and (e.name in HOOKS or is_body(e)))
    n = [0, 0, 0]
    T = ("param", "task")
    for p in ps:
        pre = [(i, e) for i, e in enumerate(p.trace) if hook(e) == "pre_task_execute"]
        post = [(i, e) for i, e in enumerate(p.trace) if hook(e) == "post_task_execute"]
        body = [(i, e) for i, e in enumerate(p.trace) if is_body(e)]
        for j, x in enumerate((pre, post, body)):
            n[j] += bool(x)
        ctx.check(len(pre) <= 1 and len(post) <= 1 and len(body) <= 1, f"{k}:once", loc, "a task hook or the task's nodes run more than once", p)
        if pre and pre[0][1].outcome == "raise":
            ctx.check(not body and p.kind == "raise", f"{k}:pre-failed", loc, "the task runs although its pre-task hook failed", p)
            continue
        if not body:
            ctx.check(p.kind != "return", f"{k}:no-exec", loc, "a task completes without executing its nodes", p)
            continue
        bi, b = body[0]
        bok = b.outcome == "ok"
        if does(p, "does_hook", "pre_task_execute") is not False:
            ctx.check(pre and pre[0][0] < bi, f"{k}:pre-before", loc, "the task's nodes run before/without the pre-task hook", p)
        if does(p, "does_hook", "post_task_execute") is not False:
            ctx.check(post and post[0][0] > bi, f"{k}:post-after", loc, "no post-task hook fires after the task's nodes", p)
        for a, want in (("nodes", ("attr", T, "nodes")), ("run_id", ("attr", T, "run_id")), ("task_id", ("attr", T, "task_id"))):
            for e in [b] + [x[1] for x in pre + post]:
                ctx.check(unwrap(kw(e, a)) == want, f"{k}:{hook(e) or e.name}:{a}", e.where(), f"{hook(e) or e.name} is given {a}={tstr(kw(e, a))}", p)
        if post:
            q = post[0][1]
            s, er, r = kw(q, "success"), kw(q, "error"), kw(q, "results")
            if bok:
                ctx.check(s == TRUE and er == NONE, f"{k}:success", q.where(), f"post-task hook reports success={tstr(s)} error={tstr(er)} for a successful task", p)
                ctx.check(r == ("res", b.uid), f"{k}:results", q.where(), f"post-task hook reports results={tstr(r)}", p)
            else:
                ctx.check(s == FALSE and er is not None and er[0] == "exc" and er[1] == b.uid, f"{k}:failure", q.where(), f"post-task hook reports success={tstr(s)} error={tstr(er)} for a failed task", p)
                ctx.check(r in (None, NONE), f"{k}:no-results", q.where(), "post-task hook reports results for a failed task", p)
        if post and post[0][1].outcome == "raise":
            ctx.check(p.kind == "raise", f"{k}:post-error", loc, "an error of the post-task hook is swallowed", p)
        elif bok:
            ctx.check(p.kind == "return", f"{k}:returns", loc, "a successful task does not return", p)
            ctx.check(mentions(p.value, ("res", b.uid)), f"{k}:value", loc, f"the task runner returns {tstr(p.value)}, not the computed results", p)
        else:
            ctx.check(p.kind == "raise" and p.value[1] == b.uid, f"{k}:reraises", loc, "a task's error does not reach the executor", p)
    ctx.need(all(n), f"{k}: {n}")
