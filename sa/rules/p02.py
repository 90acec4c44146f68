"""P02: run-level hooks bracket every run, at every entry point."""
from .common import *

MIN_OBLIGATIONS = 60
EXEC_QUALS = {"hamilton.driver.GraphExecutor.execute", "hamilton.graph.FunctionGraph.execute"}
OPAQUE = ["validate_inputs", "_perform_graph_validations", "visualize_execution", "has_cycles", "_create_final_vars", "_process_materializers",
          "normalize_adapter_input", "convert_output_values", "await_dict_of_tasks", "process_value", "capture_execute_telemetry"]


def roots(ix):
    d = ix.cls("hamilton.driver.Driver")
    a = ix.cls("hamilton.async_driver.AsyncDriver")
    return [(d, "execute"), (d, "raw_execute"), (d, "materialize"), (a, "raw_execute"), (a, "execute")]


def is_exec(e):
    return e.name == "execute" and e.qual in EXEC_QUALS


def run(ctx):
    ix = ctx.ix
    ctx.rule("On every abstract path of every run entry point: the pre-run hook fires exactly once before graph execution; once it has fired (or the run "
             "body started), the post-run hook fires exactly once, after execution, on success and on every failure; never without the pre-run hook; "
             "both carry the run id handed to the executor; success/error/results agree with the outcome; the run's error is what the caller gets.")
    for cls, name in roots(ix):
        f = ix.method(cls, name)
        check_root(ctx, cls, f)


def check_root(ctx, cls, f):
    ix = ctx.ix
    loc = f.loc()
    k = f"{cls.name}.{f.name}"
    ps = ctx.paths(f, self_cls=cls, inline_modules=["hamilton.driver", "hamilton.async_driver"], pure=PURE, opaque=OPAQUE,
                   keep=project_keep(ix), raises=project_raises(ix))
    n_pre = n_post = n_exec = 0
    for p in ps:
        pre = [(i, e) for i, e in enumerate(p.trace) if hook(e) == "pre_graph_execute"]
        post = [(i, e) for i, e in enumerate(p.trace) if hook(e) == "post_graph_execute"]
        ex = [(i, e) for i, e in enumerate(p.trace) if is_exec(e)]
        n_pre += bool(pre)
        n_post += bool(post)
        n_exec += bool(ex)
        has_pre = does(p, "does_hook", "pre_graph_execute")
        has_post = does(p, "does_hook", "post_graph_execute")
        ctx.check(len(pre) <= 1 and len(post) <= 1, f"{k}:once", loc, "a run-level hook fires more than once in one run", p)
        ctx.check(len(ex) <= 1, f"{k}:exec-once", loc, "the graph is executed more than once in one run", p)
        if ex and has_pre is not False:
            ctx.check(pre and pre[0][0] < ex[0][0], f"{k}:pre-before", loc, "the graph is executed without the pre-run hook having fired first", p)
        started = (pre and pre[0][1].outcome == "ok") or (has_pre is False and ex)
        if started and has_post is not False:
            ctx.check(bool(post), f"{k}:post-always", loc, "the run ends without the post-run hook firing", p)
        if post and has_pre is True:
            ctx.check(pre and pre[0][1].outcome == "ok", f"{k}:post-needs-pre", post[0][1].where(), "the post-run hook fires for a run whose pre-run hook never fired (or failed)", p)
        if post and ex:
            ctx.check(post[0][0] > ex[0][0], f"{k}:post-after", post[0][1].where(), "the post-run hook fires before the graph was executed", p)
        ids = [kw(e, "run_id") for _, e in pre + post + ex]
        ctx.check(len(set(ids)) <= 1 and None not in ids, f"{k}:run-id", loc, f"hooks and executor disagree on the run id: {[tstr(i) for i in ids]}", p)
        graphs = [kw(e, "graph") for _, e in pre + post]
        for g in graphs:
            ctx.check(g is not None and g[0] != "unbound", f"{k}:graph-bound", loc, "a run-level hook is given an unassigned graph variable (UnboundLocalError)", p)
        ctx.check(len(set(graphs)) <= 1, f"{k}:graph", loc, "pre- and post-run hooks are given different graphs", p)
        post_raised = post and post[0][1].outcome == "raise"
        if post:
            q = post[0][1]
            s, er, res = kw(q, "success"), kw(q, "error"), kw(q, "results")
            before = p.trace[:post[0][0]]
            failed = [e for e in before if e.outcome == "raise" and not swallowed(p, e)]
            errs = [e for e in before if e.kind == "raise"]
            if not failed and not errs:
                ctx.check(s == TRUE and er == NONE, f"{k}:success", q.where(), f"post-run hook reports success={tstr(s)}, error={tstr(er)} for a successful run", p)
                ctx.check(ex and any(mentions(res, r) for r in result_terms(ex[0][1])) or from_exec(p, res, ex) or f.is_async, f"{k}:results", q.where(),
                          f"post-run hook reports results={tstr(res)}, not derived from the execution", p)
                ctx.check(res is not None and res != NONE, f"{k}:results-set", q.where(), "post-run hook reports no results for a successful run", p)
            else:
                ctx.check(s == FALSE, f"{k}:failure", q.where(), f"post-run hook reports success={tstr(s)} for a failed run", p)
                want = failed[-1].uid if failed else None
                okerr = er is not None and er[0] == "exc" and (want is None or er[1] == want or any(er == x.args[0] for x in errs))
                ctx.check(okerr, f"{k}:error", q.where(), f"post-run hook reports error={tstr(er)} for a failed run", p)
            if not post_raised:
                if failed or errs:
                    ctx.check(p.kind == "raise" and er == p.value, f"{k}:raises", loc, "the error reported to the post-run hook is not the one the caller receives", p)
                else:
                    ctx.check(p.kind in ("return",) or after_failure(p, post[0][0]), f"{k}:returns", loc, "a successful run does not return", p)
        if ex and ex[0][1].outcome == "raise" and not post_raised:
            ctx.check(p.kind == "raise" and p.value[1] == ex[0][1].uid, f"{k}:exec-error", loc, "an execution error does not reach the caller", p)
        if p.kind == "return" and ex:
            v = p.value
            ctx.check(v is not None and v != NONE, f"{k}:value", loc, "a run returns nothing", p)
    ctx.need(n_exec and n_pre and n_post, f"{k}: {n_exec} exec, {n_pre} pre, {n_post} post")


def swallowed(p, e):
    return any(x.kind == "swallow" and x.args and x.args[0][0] == "exc" and x.args[0][1] == e.uid for x in p.trace)


def after_failure(p, i):
    return any(e.outcome == "raise" for e in p.trace[i + 1:])


def from_exec(p, term, ex):
    """term transitively derived (through call results) from the execution's result."""
    if not ex or term is None:
        return False
    want = ("res", ex[0][1].uid)
    seen, todo = set(), [term]
    while todo:
        t = todo.pop()
        for s in subterms(t):
            if s == want:
                return True
            if s[0] == "res" and s[1] not in seen:
                seen.add(s[1])
                e = p.ev(s[1])
                if e is not None:
                    todo += list(e.args) + list(e.kwargs.values()) + list(e.spreads or ()) + ([e.recv] if e.recv is not None else [])
    return False
