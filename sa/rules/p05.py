"""P05: overrides win and short-circuit."""
from .common import *
from .walk import *
from . import p02

MIN_OBLIGATIONS = 60


def is_overrides(t, p, name="overrides"):
    """The caller's overrides, or an empty dict where the caller gave none."""
    P = ("param", name)
    u = unwrap(t) if t is not None else None
    if u == P:
        return True
    if u == ("dict", ()):
        return p.facts.get(("isnone", P)) is True or p.facts.get(("truthy", P)) is False
    if u == NONE:
        return p.facts.get(("isnone", P)) is True or p.facts.get(("truthy", P)) is False
    return False


def run(ctx):
    ix = ctx.ix
    ctx.rule("(walk) a node whose name is overridden is never executed nor descended into, and its table entry is the override; (upstream) traversal for "
             "validation/planning stops at overridden nodes; (forwarding) every entry point passes the caller's overrides unchanged to the executor and every "
             "executor to the walk; (precedence) wherever overrides are merged with other values the overrides layer is last; (tasks) overridden nodes add no "
             "task dependencies or inputs.")
    # --- the walk
    f, ps = walk_paths(ctx)
    n_over = n_exec = 0
    for p in ps:
        if p.facts.get(("isnone", OVERRIDES)) is True or p.facts.get(("truthy", OVERRIDES)) is False:
            continue
        if p.facts.get(("isnone", COMPUTED)) is True or p.facts.get(("truthy", COMPUTED)) is False:
            continue
        seeded = any(e.kind == "call" and e.name == "update" and e.recv == COMPUTED and OVERRIDES in e.args for e in p.trace)
        for e in p.trace:
            b = body_of(e)
            if b:
                n_exec += 1
                ctx.check(seeded or e.nfacts.get(("in", ("attr", b[0], "name"), OVERRIDES)) is False, "walk:exec-not-overridden", e.where(),
                          f"node {tstr(b[0])} is executed without checking that it is not overridden", p)
            if e.kind in ("call", "callv") and is_recursive(e) and e.args:
                # descending from N into a dependency of N
                for a in list(e.args) + list(e.kwargs.values()):
                    if a[0] == "elem" and a[1][0] == "attr" and a[1][2] == "dependencies":
                        N = a[1][1]
                        ctx.check(seeded or e.nfacts.get(("in", ("attr", N, "name"), OVERRIDES)) is False, "walk:descend-not-overridden", e.where(),
                                  "the walk descends into the dependencies of a node that may be overridden", p)
            if e.kind == "setitem" and e.recv == COMPUTED and e.args[0][0] == "attr" and e.args[0][2] == "name":
                N = e.args[0][1]
                fact = e.nfacts.get(("in", e.args[0], OVERRIDES))
                if fact is True:
                    n_over += 1
                    ctx.check(e.args[1] in (("item", OVERRIDES, e.args[0]),), "walk:override-stored", e.where(),
                              f"an overridden node's table entry is {tstr(e.args[1])}, not the override", p)
                elif fact is None and not seeded:
                    ctx.bad("walk:stored-unchecked", e.where(), "a node's value is stored without considering overrides", p)
        for k, v in p.facts.items():
            if k[0] == "in" and k[2] == OVERRIDES and v is True and k[1][0] == "attr" and p.facts.get(("in", k[1], COMPUTED)) is not True and p.kind == "return":
                N = k[1][1]
                if N == ("elem", NODES):
                    ctx.check(any(e.kind == "setitem" and e.recv == COMPUTED and e.args[0] == k[1] for e in p.trace), "walk:override-used", f.loc(),
                              "an overridden node's value never reaches the result table", p)
    ctx.need(n_exec and (n_over or any("update" == e.name for p in ps for e in p.trace)), "override handling vanished from the walk")
    # --- upstream traversal
    fg = ix.cls("hamilton.graph.FunctionGraph")
    up = ix.method(fg, "get_upstream_nodes")
    RO = ("param", "runtime_overrides")
    n_rec = 0
    for p in ctx.paths(up, self_cls=fg, inline_modules=["hamilton.graph"], raises="none", keyfacts=lambda k: mentions(k, RO)):
        if p.facts.get(("isnone", RO)) is True or p.facts.get(("truthy", RO)) is False:
            continue
        for e in p.trace:
            if e.kind in ("call", "callv") and e.recv is not None and e.recv[0] == "clos" and e.args:
                for a in e.args:
                    base = dep_base(a)
                    if base is not None:
                        n_rec += 1
                        ctx.check(e.nfacts.get(("in", ("attr", base, "name"), RO)) is False, "upstream:stops-at-overrides", e.where(),
                                  "upstream traversal continues past a node that may be overridden", p)
    ctx.need(n_rec, "upstream recursion not found")
    # --- forwarding from entry points
    for cls, name in p02.roots(ix):
        m = ix.method(cls, name)
        for p in ctx.paths(m, self_cls=cls, inline_modules=["hamilton.driver", "hamilton.async_driver"], pure=PURE, opaque=p02.OPAQUE,
                           keep=project_keep(ix), raises="none", keyfacts=lambda k: k in (("isnone", OVERRIDES), ("truthy", OVERRIDES))):
            for e in p.trace:
                if p02.is_exec(e):
                    ctx.check(is_overrides(kw(e, "overrides"), p), f"{cls.name}.{name}:exec-overrides", e.where(),
                              f"the executor is given overrides={tstr(kw(e, 'overrides'))}", p)
                if e.name == "get_upstream_nodes":
                    ctx.check(is_overrides(kw(e, "runtime_overrides"), p), f"{cls.name}.{name}:upstream-overrides", e.where(),
                              f"required nodes are computed with overrides={tstr(kw(e, 'runtime_overrides'))}", p)
    # --- executors
    d = ix.cls("hamilton.driver.DefaultGraphExecutor")
    m = ix.method(d, "execute")
    for p in ctx.paths(m, self_cls=d, inline_modules=["hamilton.driver", "hamilton.graph"], opaque=["execute_subdag", "combine_config_and_inputs", "get_nodes"], raises="none"):
        for e in p.trace:
            if e.name == "execute_subdag":
                ctx.check(is_overrides(kw(e, "overrides"), p), "DefaultGraphExecutor:overrides", e.where(), f"the walk is given overrides={tstr(kw(e, 'overrides'))}", p)
    t = ix.cls("hamilton.driver.TaskBasedGraphExecutor")
    m = ix.method(t, "execute")
    seen = set()
    for p in ctx.paths(m, self_cls=t, inline_modules=["hamilton.driver"], raises="none"):
        for e in p.trace:
            if e.name in ("get_upstream_nodes", "create_task_plan"):
                v = kw(e, "runtime_overrides") if e.name == "get_upstream_nodes" else kw(e, "overrides")
                seen.add(e.name)
                ctx.check(is_overrides(v, p), f"TaskBased:{e.name}", e.where(), f"{e.name} is given overrides={tstr(v)}", p)
            if e.name == "DictBasedResultCache":
                seen.add(e.name)
                layers = dict_layers(e.args[0] if e.args else kw(e, "cache"))
                ctx.check(layers and layers[-1] == OVERRIDES, "TaskBased:precedence", e.where(),
                          f"initial results are layered {[tstr(x) for x in layers]}: overrides do not win", p)
    ctx.need(len(seen) == 3, f"task based executor: saw only {seen}")
    # --- task runner
    b = ix.func("hamilton.execution.executors.base_execute_task")
    for p in ctx.paths(b, inline_modules=["hamilton.execution.executors"], opaque=["execute_subdag"], pure=PURE, keep=names("execute_subdag"), raises="none"):
        for e in p.trace:
            if e.name == "execute_subdag":
                layers = dict_layers(kw(e, "overrides"))
                ctx.check(layers and layers[-1] == ("attr", ("param", "task"), "overrides"), "task:precedence", e.where(),
                          f"a task's nodes run with overrides layered {[tstr(x) for x in layers]}: overrides do not win", p)
    # --- planning
    plan = ix.func("hamilton.execution.grouping.create_task_plan")
    nspec = ndep = 0
    for p in ctx.paths(plan, inline_modules=["hamilton.execution.grouping"], raises="none"):
        for e in p.trace:
            if e.kind == "new" and e.name == "TaskSpec":
                nspec += 1
                v = kw(e, "overrides")
                layers = dict_layers(v)
                good = unwrap(v) == OVERRIDES or (v is not None and v[0] == "dict" and all(
                    r[0] == "kv" and r[2] == ("item", OVERRIDES, r[1]) for r in layers))
                ctx.check(good, "plan:task-overrides", e.where(), f"a task is planned with overrides={tstr(v)}", p)
            if e.kind == "mut" and e.name == "add" and e.args and mentions(e.args[0], ("const", "base_id", "str")) is False and "base_id" in tstr(e.args[0]):
                ndep += 1
                chk = [k for k, v in e.nfacts.items() if k[0] == "in" and k[2] == OVERRIDES and v is False]
                ctx.check(len(chk) >= 2, "plan:no-deps-through-overrides", e.where(), "a task dependency is recorded through a node or dependency that may be overridden", p)
    ctx.need(nspec, "TaskSpec creation not found")
    st = ix.cls("hamilton.execution.state.ExecutionState")
    rt = ix.method(st, "realize_task")
    for p in ctx.paths(rt, self_cls=st, inline_modules=["hamilton.execution.state"], raises="none"):
        for e in p.trace:
            if e.kind == "new" and e.name == "TaskImplementation":
                ctx.check(unwrap(kw(e, "overrides")) == ("attr", ("param", "task_spec"), "overrides"), "realize:overrides", e.where(), f"a realized task carries overrides={tstr(kw(e, 'overrides'))}", p)
    ts = ix.cls("hamilton.execution.grouping.TaskSpec")
    gi = ix.method(ts, "get_input_vars")
    SO = ("attr", ("param", "self"), "overrides")
    for p in ctx.paths(gi, self_cls=ts, inline_modules=["hamilton.execution.grouping"], raises="none"):
        for e in p.trace:
            if e.kind == "mut" and e.name == "add":
                N = ("elem", ("attr", ("param", "self"), "nodes"))
                ctx.check(e.nfacts.get(("in", ("attr", N, "name"), SO)) is False, "task-inputs:overridden-node", e.where(),
                          "a task reads inputs on behalf of a node that may be overridden", p)


def dep_base(a):
    """N when a denotes an element of N.dependencies (possibly filtered into a list), else None."""
    for s in subterms(a):
        if s[0] == "attr" and s[2] == "dependencies":
            return s[1]
    return None
