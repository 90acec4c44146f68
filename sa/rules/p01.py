"""P01: node-level hooks bracket every node execution (sync and async)."""
from .common import *

MIN_OBLIGATIONS = 40


def run(ctx):
    ix = ctx.ix
    ctx.rule("On every abstract path of the function that executes one node: pre hook (if any adapter has it) exactly once before the node's "
             "callable, the callable at most once and exactly once on a normal return, post hook exactly once afterwards carrying success/error/"
             "result that agree with what the callable did, same run/node/kwargs/task identifiers, and the callable's outcome is the path's outcome.")
    # sync: the executor function is the one handed to remote-execution adapters by the graph walk
    sub = ix.func("hamilton.execution.graph_functions.execute_subdag")
    ps = ctx.paths(sub, inline_modules=["hamilton.execution.graph_functions"], pure=PURE, opaque=["execute_lifecycle_for_node"],
                   keep=lambda e: e.kind in ("call", "callv") and (e.name in METHODS or e.name in HOOKS or e.name == "execute_lifecycle_for_node"),
                   raises="none")
    target = None
    for p in ps:
        for e in p.trace:
            if method(e) == "do_remote_execute":
                f = kw(e, "execute_lifecycle_for_node")
                if f is not None and f[0] == "partial" and f[1][0] == "global":
                    target = ix.resolve(f[1][1])
                elif f is not None and f[0] == "global":
                    target = ix.resolve(f[1])
    if not isinstance(target, Func):
        target = ix.func("hamilton.execution.graph_functions.execute_lifecycle_for_node")
    check_executor(ctx, target, "sync", inline=["hamilton.execution.graph_functions"])
    ag = ix.cls("hamilton.async_driver.AsyncGraphAdapter")
    check_executor(ctx, ix.method(ag, "do_node_execute"), "async", inline=["hamilton.async_driver"])


def is_body(e):
    if method(e) == "do_node_execute":
        return True
    if e.kind == "callv" and e.recv is not None and e.recv[0] == "param" and e.recv[1] in ("__node_", "node_", "node"):
        return True
    if e.name in ("callable", "__call__") and e.recv is not None and e.recv[0] == "param":
        return True
    if e.kind == "callv" and e.recv is not None and e.recv[0] == "attr" and e.recv[2] in ("callable", "_callable"):
        return True
    return False


def body_kwargs(e):
    if method(e) == "do_node_execute":
        return kw(e, "kwargs")
    if e.spreads and not e.kwargs and not e.args:
        return e.spreads[0]
    return None


def check_executor(ctx, f, tag, inline):
    ix = ctx.ix
    loc = f.loc()
    ps = ctx.paths(f, inline_modules=inline, pure=PURE,
                   keep=lambda e: e.kind in ("call", "callv", "await") and (e.name in HOOKS or is_body(e)))
    n_body = n_pre = n_post = 0
    for p in ps:
        body = [(i, e) for i, e in enumerate(p.trace) if is_body(e)]
        pre = [(i, e) for i, e in enumerate(p.trace) if hook(e) == "pre_node_execute"]
        post = [(i, e) for i, e in enumerate(p.trace) if hook(e) == "post_node_execute"]
        n_body += bool(body)
        n_pre += bool(pre)
        n_post += bool(post)
        k = f"{tag}:{f.name}"
        ctx.check(len(body) <= 1, f"{k}:callable-once", loc, "the node's callable runs more than once on one path", p)
        ctx.check(len(pre) <= 1 and len(post) <= 1, f"{k}:hook-once", loc, "a node hook fires more than once for one execution", p)
        raised_pre = any(e.outcome == "raise" for _, e in pre)
        if raised_pre:
            ctx.check(not body, f"{k}:pre-failed", loc, "the callable runs although the pre-execution hook failed", p)
            ctx.check(p.kind == "raise", f"{k}:pre-error", loc, "an error of the pre-execution hook is swallowed", p)
            continue
        if not body:
            ctx.check(p.kind != "return", f"{k}:no-exec", loc, "a path returns without executing the node", p)
            continue
        bi, b = body[-1]
        bok = b.outcome == "ok"
        if does(p, "does_hook", "pre_node_execute") is not False:
            ctx.check(pre and pre[0][0] < bi, f"{k}:pre-before", loc, "the node's callable runs without its pre-execution hook having fired", p)
        else:
            ctx.ok(loc, f"{k}:pre-before")
        if does(p, "does_hook", "post_node_execute") is not False:
            ctx.check(post and post[0][0] > bi, f"{k}:post-after", loc,
                      f"no post-execution hook fires after the callable {'returned' if bok else 'raised'}", p)
        if post:
            i, q = post[0]
            s, er, r = kw(q, "success"), kw(q, "error"), kw(q, "result")
            ctx.check(i > bi, f"{k}:post-after", loc, "the post-execution hook fires before the callable", p)
            if bok:
                ctx.check(s == TRUE, f"{k}:success-true", q.where(), f"post hook reports success={tstr(s)} although the callable returned", p)
                ctx.check(er == NONE, f"{k}:error-none", q.where(), f"post hook reports error={tstr(er)} although the callable returned", p)
                ctx.check(strip_await(r) == ("res", b.uid), f"{k}:result", q.where(), f"post hook reports result={tstr(r)} instead of the callable's value", p)
            else:
                ctx.check(s == FALSE, f"{k}:success-false", q.where(), f"post hook reports success={tstr(s)} although the callable raised", p)
                ctx.check(er is not None and er[0] == "exc" and er[1] == b.uid, f"{k}:error-exc", q.where(), f"post hook reports error={tstr(er)} instead of the callable's exception", p)
                ctx.check(r is None or r == NONE, f"{k}:result-none", q.where(), f"post hook reports result={tstr(r)} although the callable raised", p)
        both = ([pre[0][1]] if pre else []) + ([post[0][1]] if post else []) + ([b] if method(b) else [])
        for h in both:
            for a in ("run_id", "node_", "task_id"):
                v = kw(h, a)
                ctx.check(v is not None and v[0] == "param" and v[1].strip("_") == a.strip("_"), f"{k}:{hook(h) or method(h)}:{a}", h.where(),
                          f"{hook(h) or method(h)} is given {a}={tstr(v)}", p)
            kv = kw(h, "kwargs")
            bk = body_kwargs(b)
            if bk is not None:
                ctx.check(unwrap(kv) == unwrap(bk), f"{k}:{hook(h) or method(h)}:kwargs", h.where(),
                          f"{hook(h) or method(h)} sees kwargs={tstr(kv)} but the callable receives {tstr(bk)}", p)
        # outcome
        if post and post[0][1].outcome == "raise":
            ctx.check(p.kind == "raise", f"{k}:post-error", loc, "an error of the post-execution hook is swallowed", p)
        elif bok:
            ctx.check(p.kind == "return", f"{k}:returns", loc, "a successful execution does not return", p)
            if tag == "sync":
                ctx.check(strip_await(p.value) == ("res", b.uid), f"{k}:returns-value", loc, f"the executor returns {tstr(p.value)} instead of the callable's value", p)
        else:
            ctx.check(p.kind == "raise" and p.value[1] == b.uid, f"{k}:reraises", loc, "the callable's exception does not reach the caller", p)
        if tag == "async" and b.awaited:
            ctx.ok(loc, f"{k}:awaited")
    ctx.need(n_body and n_pre and n_post, f"{f.qual}: found {n_body} body, {n_pre} pre, {n_post} post paths")
