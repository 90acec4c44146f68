"""P04: an error raised while running reaches the caller; a failed task never looks successful."""
from .common import *
from . import p02
from .walk import MOD

QUIET = BENIGN | {"send_event_json", "create_start_event_json", "create_driver_function_invocation_event", "create_end_event_json",
                  "create_dataflow_event", "get_adapter_name", "get_result_builder_name", "is_telemetry_enabled", "getLogger"}


def propagate(ctx, f, tag, keep=None, benign=QUIET, **opts):
    """Every failing call on every path of f makes f fail, with that call's own exception."""
    ix = ctx.ix
    base = project_keep(ix, benign)
    ps = ctx.paths(f, keep=keep or base, raises=project_raises(ix, benign), pure=PURE, **opts)
    n = 0
    for p in ps:
        failed = [e for e in p.trace if e.kind in ("call", "callv", "new") and e.outcome == "raise"]
        if not failed:
            continue
        n += 1
        names_ = ", ".join(e.name for e in failed)
        ctx.check(p.kind == "raise", f"{tag}:swallowed:{failed[0].name}", failed[0].where(), f"an error raised by {names_} is swallowed: {f.name} returns normally", p)
        if p.kind == "raise":
            ctx.check(p.value[0] == "exc" and p.value[1] in [e.uid for e in failed], f"{tag}:replaced:{failed[0].name}", failed[0].where(),
                      f"an error raised by {names_} is replaced by another exception ({tstr(p.value)})", p)
    ctx.need(n, f"{f.qual}: no failing path was explored")


def sync_runs(ctx):
    ctx.rule("(propagation) on every abstract path of the run entry points, graph executors, task runner, scheduler loop and node executor, a call that raises makes the "
             "function raise that same exception (a later failing hook or cleanup may take its place); telemetry is the only tolerated loss.")
    ix = ctx.ix
    for cls, name in p02.roots(ix):
        propagate(ctx, ix.method(cls, name), f"{cls.name}.{name}", self_cls=cls, inline_modules=["hamilton.driver", "hamilton.async_driver"], opaque=p02.OPAQUE)


def executors_(ctx):
    ix = ctx.ix
    d = ix.cls("hamilton.driver.DefaultGraphExecutor")
    propagate(ctx, ix.method(d, "execute"), "DefaultGraphExecutor.execute", self_cls=d, inline_modules=["hamilton.driver", "hamilton.graph"],
              opaque=["execute_subdag", "combine_config_and_inputs", "get_nodes"])
    t = ix.cls("hamilton.driver.TaskBasedGraphExecutor")
    propagate(ctx, ix.method(t, "execute"), "TaskBasedGraphExecutor.execute", self_cls=t, inline_modules=["hamilton.driver"])
    propagate(ctx, ix.func("hamilton.execution.executors.base_execute_task"), "base_execute_task", inline_modules=["hamilton.execution.executors"], opaque=["execute_subdag"])


def walk(ctx):
    ix = ctx.ix
    propagate(ctx, ix.func(MOD + ".execute_subdag"), "execute_subdag", inline_modules=[MOD], opaque=["execute_lifecycle_for_node"],
              keep=lambda e: e.name in METHODS or e.name in HOOKS or e.name == "execute_lifecycle_for_node" or e.kind == "callv")
    propagate(ctx, ix.func(MOD + ".execute_lifecycle_for_node"), "execute_lifecycle_for_node", inline_modules=[MOD])


def scheduler(ctx):
    ctx.rule("(tasks) the scheduler fetches every in-flight task's result, so a failed task's exception surfaces; a future reports SUCCESSFUL only when its result was "
             "obtained and FAILED when obtaining it raised, and fetching a failed future's result raises.")
    ix = ctx.ix
    f = ix.func("hamilton.execution.executors.run_graph_to_completion")
    propagate(ctx, f, "run_graph_to_completion", inline_modules=["hamilton.execution.executors"],
              keep=lambda e: e.name in ("submit_task", "get_state", "get_result", "update_task_state", "release_next_task", "get_executor_for_task", "finalize"),
              opaque=["init", "finalize", "submit_task", "get_state", "get_result", "update_task_state", "release_next_task", "reject_task", "can_submit_task", "get_executor_for_task",
                      "get_graph_state"])
    n = 0
    for p in ctx.paths(f, inline_modules=["hamilton.execution.executors"], raises="none",
                       opaque=["init", "finalize", "submit_task", "get_state", "get_result", "update_task_state", "release_next_task", "reject_task", "can_submit_task",
                               "get_executor_for_task", "get_graph_state"]):
        for i, e in enumerate(p.trace):
            if e.name == "update_task_state":
                n += 1
                st, rs = e.arg("new_state", 1), e.arg("results", 2)
                s = p.ev(st[1]) if st is not None and st[0] == "res" else None
                r = p.ev(rs[1]) if rs is not None and rs[0] == "res" else None
                ctx.check(s is not None and s.name == "get_state", "scheduler:state", e.where(), f"the scheduler records state {tstr(st)}, not the future's", p)
                ctx.check(r is not None and r.name == "get_result", "scheduler:result", e.where(),
                          f"the scheduler records result {tstr(rs)} without fetching the future's result on every path: a failed task's error would be lost", p)
                if s is not None and r is not None:
                    ctx.check(s.recv == r.recv, "scheduler:same-future", e.where(), "state and result come from different futures", p)
                    task = e.arg("task_id", 0)
                    ctx.check(task is not None and related(task, s.recv), "scheduler:own-task", e.where(), f"the state of {tstr(s.recv)} is recorded for task {tstr(task)}", p)
    ctx.need(n, "task updates not found in the scheduler loop")


def related(key, fut):
    """key/value of the same mapping entry."""
    if key[0] == "key":
        return fut == ("val", key[1]) or fut == ("item", key[1], key)
    if fut[0] == "item":
        return fut[2] == key
    return mentions(fut, key) or key[0] not in ("key",)


def futures(ctx):
    ix = ctx.ix
    n = 0
    for c in [ix.cls("hamilton.execution.executors.TaskFuture")] + ix.subclasses_of("hamilton.execution.executors.TaskFuture"):
        gs, gr = c.methods.get("get_state"), c.methods.get("get_result")
        if gs is not None:
            for p in ctx.paths(gs, self_cls=c, inline_modules=[c.module.name], keep=lambda e: e.name in ("result", "exception", "done")):
                failed = [e for e in p.trace if e.name in ("result", "exception") and e.outcome == "raise"]
                got = [e for e in p.trace if e.name in ("result", "exception") and e.outcome == "ok"]
                if p.kind != "return":
                    continue
                v = tstr(p.value)
                if failed:
                    n += 1
                    ctx.check(v.endswith("FAILED"), f"{c.name}.get_state:failed", gs.loc(), f"a future whose result raises reports {v}", p)
                elif v.endswith("SUCCESSFUL"):
                    n += 1
                    ctx.check(bool(got), f"{c.name}.get_state:successful", gs.loc(), "a future is reported successful without looking at its outcome", p)
                elif v.endswith("FAILED"):
                    ok = any(e.name == "exception" for e in got)
                    ctx.check(ok, f"{c.name}.get_state:wrongly-failed", gs.loc(), "a future whose result was obtained is reported as failed", p)
        if gr is not None:
            for p in ctx.paths(gr, self_cls=c, inline_modules=[c.module.name], keep=lambda e: e.name in ("result", "exception", "done")):
                failed = [e for e in p.trace if e.outcome == "raise"]
                if failed:
                    n += 1
                    ctx.check(p.kind == "raise", f"{c.name}.get_result:raises", gr.loc(), "fetching a failed task's result does not raise", p)
                elif p.kind == "return" and p.value != NONE:
                    ctx.check(p.value[0] == "res", f"{c.name}.get_result:value", gr.loc(), f"fetching a result yields {tstr(p.value)}", p)
    ctx.need(n, "future wrappers not found")


PARTS = [("entry points", sync_runs), ("executors", executors_), ("walk", walk), ("scheduler", scheduler), ("futures", futures)]
