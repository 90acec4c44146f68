"""P06: within one run each node is computed at most once and its value reused."""
from .common import *
from .walk import *

MIN_OBLIGATIONS = 30


def run(ctx):
    ix = ctx.ix
    ctx.rule("In the graph walk, a node is executed only on paths where its name was just found absent from the result table; a successful execution is "
             "followed on every path by storing the result under that name in the same table; an entry is dropped only when the name was not requested and "
             "every consumer's result is already in the table.")
    f, ps = walk_paths(ctx)
    n_exec = n_del = 0
    for p in ps:
        if p.facts.get(("isnone", COMPUTED)) is True or p.facts.get(("truthy", COMPUTED)) is False:
            continue
        bodies = [(i, e) for i, e in enumerate(p.trace) if body_of(e)]
        for i, e in bodies:
            n, _ = body_of(e)
            n_exec += 1
            ctx.check(n is not None and e.nfacts.get(("in", ("attr", n, "name"), COMPUTED)) is False, "walk:absent-before-exec", e.where(),
                      f"node {tstr(n)} is executed on a path that has not established that its result is absent", p)
            stores = [x for x in p.trace[i + 1:] if x.kind in ("setitem",) and x.recv == COMPUTED and is_name_of(x.args[0], n)]
            good = [x for x in stores if strip_await(x.args[1]) == ("res", e.uid)]
            if p.kind == "return":
                ctx.check(len(stores) == 1 and len(good) == 1, "walk:store-after-exec", e.where(),
                          f"after executing {tstr(n)} its result is not stored (exactly once) in the result table the walk consults", p)
        names_exec = [tstr(body_of(e)[0]) for _, e in bodies]
        ctx.check(len(set(names_exec)) == len(names_exec), "walk:exec-once", f.loc(), "one visit executes the same node twice", p)
        for e in p.trace:
            if e.kind == "delitem" and e.recv == COMPUTED or (e.kind == "call" and e.name in ("pop", "clear", "popitem") and e.recv == COMPUTED):
                n_del += 1
                key = e.args[0] if e.args else None
                if key is None or not (key[0] == "attr" and key[2] == "name"):
                    ctx.bad("walk:drop", e.where(), f"a result table entry ({tstr(key)}) is dropped without checking its consumers", p)
                    continue
                d = key[1]
                consumers = ("attr", d, "depended_on_by")
                kept_requested = any(k[0] == "in" and k[1] == key and v is False and mentions(k[2], ("attr", ("elem", NODES), "name")) for k, v in e.nfacts.items())
                ctx.check(kept_requested, "walk:drop-not-requested", e.where(), "a requested result may be dropped from the result table", p)
                c = ("elem", consumers)
                empty = e.nfacts.get(("truthy", consumers)) is False
                done = e.nfacts.get(("in", ("attr", c, "name"), COMPUTED)) is True
                allc = any(k[0] == "truthy" and v is True and k[1][0] == "pure" and k[1][1] == "all" and mentions(k[1], consumers) for k, v in e.nfacts.items()) or \
                    any(k[0] == "truthy" and v is False and k[1][0] == "pure" and k[1][1] == "any" and mentions(k[1], consumers) for k, v in e.nfacts.items())
                ctx.check(empty or done or allc, "walk:drop-consumers-done", e.where(),
                          "a result is dropped from the table although a consumer may still need it (it would be computed again)", p)
        if p.kind == "return":
            ctx.check(p.value == COMPUTED, "walk:returns-table", f.loc(), f"the walk returns {tstr(p.value)} instead of the result table", p)
    ctx.need(n_exec >= 4, "node execution not found in the graph walk")
    # the recursion shares the same table: it is a closure or receives the table
    for p in ps:
        for e in p.trace:
            if is_recursive(e) and e.kind in ("call", "callv"):
                clos = e.recv is not None and e.recv[0] == "clos"
                given = list(e.args) + list(e.kwargs.values())
                ctx.check(clos or COMPUTED in given or any(a[0] == "dict" for a in given), "walk:shared-table", e.where(), "the recursive visit does not share the result table", p)
    # executors hand one table to the walk per run
    de = ix.method(ix.cls("hamilton.driver.DefaultGraphExecutor"), "execute")
    for p in ctx.paths(de, inline_modules=["hamilton.driver", "hamilton.graph"], raises="none",
                       opaque=["execute_subdag", "combine_config_and_inputs", "get_nodes"]):
        ws = [e for e in p.trace if e.name == "execute_subdag"]
        ctx.check(len(ws) == 1, "default-executor:one-walk", de.loc(), f"one run walks the graph {len(ws)} times", p)
        for e in ws:
            ctx.check(not e.loops, "default-executor:no-loop", e.where(), "the graph is walked once per loop iteration (results not shared)", p)
            t = e.arg("computed")
            ctx.check(t is not None and p.kind == "return", "default-executor:table", e.where(), "no shared result table", p)
