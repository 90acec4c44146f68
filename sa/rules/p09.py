"""P09: executing or planning has no effect on the caller's objects, the driver, its graph or the builder."""
from . import effects
from .common import *

CORE = {"hamilton.driver", "hamilton.async_driver", "hamilton.graph", "hamilton.base", "hamilton.node", "hamilton.common", "hamilton.graph_types", "hamilton.io.materialization",
        "hamilton.lifecycle.base", "hamilton.graph_utils", "hamilton.execution.graph_functions", "hamilton.execution.grouping", "hamilton.execution.executors", "hamilton.execution.state"}
SKIP = ("create_graphviz_graph", "capture_execute_telemetry", "capture_constructor_telemetry")
CTOR = {"__init__", "__setstate__", "__post_init__", "__new__", "ainit"}
READERS = ["hamilton.driver.Driver", "hamilton.async_driver.AsyncDriver", "hamilton.driver.DefaultGraphExecutor", "hamilton.driver.TaskBasedGraphExecutor", "hamilton.graph.FunctionGraph",
           "hamilton.graph_types.HamiltonGraph", "hamilton.graph_types.HamiltonNode"]
READ_FUNCS = ["hamilton.execution.graph_functions.combine_config_and_inputs", "hamilton.execution.graph_functions.execute_subdag", "hamilton.execution.graph_functions.topologically_sort_nodes",
              "hamilton.execution.graph_functions.get_node_levels", "hamilton.execution.graph_functions.create_input_string", "hamilton.execution.grouping.create_task_plan",
              "hamilton.execution.grouping.convert_node_type_to_group", "hamilton.execution.executors.run_graph_to_completion",
              "hamilton.io.materialization.modify_graph", "hamilton.io.materialization.process_materializers", "hamilton.common.convert_output_values",
              "hamilton.execution.graph_functions.execute_lifecycle_for_node", "hamilton.execution.executors.new_callable"]


def mk(ctx):
    return effects.Effects(ctx, lambda m: m in CORE, skip=SKIP, inline_modules=("hamilton.graph", "hamilton.io.materialization"))


def immutable_hint(t):
    return False


def allowed(f, r, c):
    """Effects that are the function's purpose: the result table of the walk, its own run-local machinery."""
    if r[0] == "global":
        return False
    if f.qual == "hamilton.execution.graph_functions.execute_subdag":
        return r[1] == "computed"
    if f.qual == "hamilton.execution.executors.run_graph_to_completion":
        return r[1] in ("execution_state", "execution_manager")
    if f.qual.startswith("hamilton.graph.FunctionGraph") and f.name == "execute":
        return r[1] == "computed"
    return False


def readers(ctx):
    ctx.rule("(effects) interprocedural mutation effects (attribute/item writes, augmented assignment and mutating calls, traced through resolved calls to the object they reach): no method "
             "of a driver, graph executor or function graph other than its constructors, and no planning/walk/validation function, changes its receiver, an argument or module state; the walk "
             "changes only its result table.")
    E = mk(ctx)
    ix = ctx.ix
    fs = []
    for q in READERS:
        c = ix.cls(q)
        for name, m in c.methods.items():
            if name in CTOR:
                continue
            fs.append((m, c))
    for q in READ_FUNCS:
        f = ix.try_func(q)
        if f is not None:
            fs.append((f, f.cls))
    ctx.need(len(fs) > 60, f"only {len(fs)} functions found")
    for f, c in fs:
        if f.name in SKIP:
            continue
        eff = E.of(f, c)
        for (r, ch), (where, p) in sorted(eff.items(), key=repr):
            if not allowed(f, r, ch):
                ctx.bad(f"effect:{f.qual}:{tstr(r)}.{'.'.join(ch)}", where, f"{f.qual} changes {tstr(r)}{'.' if ch else ''}{'.'.join(ch)}, which it did not create", p)
        ctx.ok(f.loc(), f"no-effect:{f.qual}")
    for q, why in E.broken:
        ctx.undecided.append({"part": "effects of " + q, "reason": why})


def constructors(ctx):
    ctx.rule("(construction) constructors and builder methods change only the object under construction (the builder itself for with_*), never their arguments; build() does not change the builder.")
    E = mk(ctx)
    ix = ctx.ix
    jobs = []
    for q in ("hamilton.driver.Driver", "hamilton.async_driver.AsyncDriver", "hamilton.graph.FunctionGraph", "hamilton.driver.DefaultGraphExecutor", "hamilton.driver.TaskBasedGraphExecutor",
              "hamilton.node.Node", "hamilton.lifecycle.base.LifecycleAdapterSet", "hamilton.execution.state.ExecutionState", "hamilton.execution.state.DictBasedResultCache"):
        c = ix.cls(q)
        jobs.append((ix.method(c, "__init__"), c, ("self",)))
    builders = [ix.cls("hamilton.driver.Builder"), ix.cls("hamilton.async_driver.Builder")]
    for b in builders:
        for n, m in b.methods.items():
            jobs.append((m, b, () if n in ("build", "build_without_init", "copy", "_require_v2") else ("self",)))
    for f, c, ok in jobs:
        eff = E.of(f, c)
        for (r, ch), (where, p) in sorted(eff.items(), key=repr):
            if r[0] == "param" and r[1] in ok:
                continue
            if f.cls is not None and f.qual == "hamilton.driver.Driver.__init__" and r[0] == "param" and r[1] == "self":
                continue
            ctx.bad(f"effect:{f.qual}:{tstr(r)}.{'.'.join(ch)}", where, f"{f.qual} changes {tstr(r)}{'.' if ch else ''}{'.'.join(ch)}, which it did not create", p)
        ctx.ok(f.loc(), f"own-effects:{f.qual}")
    for q, why in E.broken:
        ctx.undecided.append({"part": "effects of " + q, "reason": why})


CONTAINERS = ("config", "adapters", "modules", "materializers")


def build_fresh(ctx):
    ctx.rule("(sharing) build() hands the driver its own copies of every container the builder's with_* methods extend; nothing a with_* method changes later is reachable from a built driver.")
    ix = ctx.ix
    for q in ("hamilton.driver.Builder", "hamilton.async_driver.Builder"):
        b = ix.cls(q)
        # containers the with_* methods extend in place
        ext = set()
        E = mk(ctx)
        for c in [b] + [ix.cls("hamilton.driver.Builder")]:
            for n, m in c.methods.items():
                if n in CTOR:
                    continue
                for (r, ch), _ in E.of(m, c).items():
                    if r == ("param", "self") and len(ch) == 1 and n.startswith(("with_", "allow", "enable")):
                        # in place, not by assignment
                        for p in ctx.paths(m, self_cls=c, raises="none", keep=effects.keep):
                            for e in p.trace:
                                if e.kind != "setattr" and (("param", "self"), ch) in effects.effect_targets(e):
                                    ext.add(ch[0])
        ctx.need({"config", "adapters"} <= ext, f"builder containers not recognised: {ext}")
        for n in ("build", "build_without_init"):
            m = b.methods.get(n)
            if m is None:
                continue
            found = 0
            for p in ctx.paths(m, self_cls=b, inline_modules=[m.module.name], opaque=["Driver", "AsyncDriver", "__init__"], raises="none"):
                for e in p.trace:
                    if e.kind != "new" or e.name not in ("Driver", "AsyncDriver"):
                        continue
                    found += 1
                    for nm, a in list((e.kwargs or {}).items()) + list(enumerate(e.args)):
                        if a == ("attr", ("param", "self"), "materializers"):
                            continue  # only read during construction, never stored (checked by `construction`)
                        if isinstance(a, tuple) and a[:2] == ("attr", ("param", "self")) and a[2] in ext:
                            ctx.bad(f"shared:{q}.{n}:{a[2]}", e.where(), f"the built driver holds the builder's own {a[2]}", p)
                        else:
                            ctx.ok(e.where(), f"fresh:{q}.{n}:{nm}")
            if n == "build" and q.endswith("async_driver.Builder"):
                continue
            ctx.need(found, f"{q}.{n}: driver construction not found")


def fresh_results(ctx):
    ctx.rule("(fresh) each execution starts from its own result table: the table handed to the walk, and the one backing the task-based result cache, are created in that call; no mutable default "
             "argument is ever changed.")
    ix = ctx.ix
    n = 0
    d = ix.cls("hamilton.driver.DefaultGraphExecutor")
    g = ix.cls("hamilton.graph.FunctionGraph")
    for c, name, mods in ((d, "execute", ["hamilton.driver", "hamilton.graph"]), (ix.cls("hamilton.async_driver.AsyncDriver"), "raw_execute", ["hamilton.async_driver", "hamilton.graph"])):
        f = ix.method(c, name)
        for p in ctx.paths(f, self_cls=c, inline_modules=mods, pure=PURE, opaque=["execute_subdag", "get_upstream_nodes", "validate_inputs", "combine_config_and_inputs"], raises="none"):
            for e in p.trace:
                if e.name == "execute_subdag":
                    a = e.arg("computed", 3)
                    n += 1
                    fresh = a is None or not effects.roots(a)
                    ctx.check(fresh, f"fresh:{c.name}.{name}", e.where(), f"the walk starts from {tstr(a)}, which outlives the run", p)
    t = ix.cls("hamilton.driver.TaskBasedGraphExecutor")
    f = ix.method(t, "execute")
    for p in ctx.paths(f, self_cls=t, inline_modules=["hamilton.driver", "hamilton.execution.graph_functions"], pure=PURE, raises="none"):
        for e in p.trace:
            if e.name == "DictBasedResultCache":
                a = e.args[0] if e.args else kw(e, "cache")
                n += 1
                ctx.check(a is None or not effects.roots(a), "fresh:task-results", e.where(), f"the result cache is backed by {tstr(a)}, which outlives the run", p)
    ctx.need(n >= 3, "result tables not found")
    # mutable defaults
    import ast
    E = mk(ctx)
    for f in ix.all_funcs(lambda m: m in CORE):
        a = f.node.args
        names_ = [x.arg for x in a.posonlyargs + a.args][-len(a.defaults):] if a.defaults else []
        ds = list(zip(names_, a.defaults)) + [(x.arg, v) for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None]
        for nm, v in ds:
            if isinstance(v, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "list", "set", "deque", "defaultdict"):
                eff = [x for x in E.of(f, f.cls) if x[0] == ("param", nm)]
                stored = any(e.kind == "setattr" and e.args and e.args[0] == ("param", nm) for p in ctx.paths(f, self_cls=f.cls, raises="none", keep=effects.keep) for e in p.trace) if f.name not in SKIP else False
                ctx.check(not eff and not stored, f"default:{f.qual}:{nm}", f.loc(), f"the mutable default of {nm} is {'changed' if eff else 'kept'} and shared by all calls")


PARTS = [("readers", readers), ("constructors", constructors), ("build", build_fresh), ("fresh", fresh_results)]
