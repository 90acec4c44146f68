"""P07: a node is called with exactly its declared dependencies' values."""
import ast

from .common import *
from .walk import *

OPTIONAL = ("global", "hamilton.node.DependencyType.OPTIONAL")


def walk(ctx):
    ctx.rule("(walk) every execution of a node N receives keyword records D.name -> results[D.name] for D in N.dependencies and nothing else; a record is left out only "
             "when D's result is absent; an external dependency absent from the inputs is tolerated only when N declares it optional and is an error otherwise; an external "
             "node's value is inputs[its own name].")
    f = ctx.ix.func(MOD + ".execute_subdag")
    ps = ctx.paths(f, inline_modules=[MOD], pure=PURE, opaque=["execute_lifecycle_for_node"], raises="none", recursion=1,
                   keyfacts=lambda k: k[0] == "in" and (k[2] == INPUTS or k[2] == COMPUTED and "dependencies" in repr(k[1])) or "OPTIONAL" in repr(k),
                   keep=lambda e: e.kind in ("setitem",) or e.name in METHODS or e.name == "execute_lifecycle_for_node")
    n = n_raise = n_rec = n_in = 0
    for p in ps:
        if p.facts.get(("isnone", COMPUTED)) is True or p.facts.get(("truthy", COMPUTED)) is False:
            continue
        for e in p.trace:
            b = body_of(e)
            if b:
                N = b[0]
                n += 1
                deps = ("attr", N, "dependencies")
                D = ("elem", deps)
                dn = ("attr", D, "name")
                extra = set(e.kwargs) - {"node", "execute_lifecycle_for_node", "__node_", "__adapter", "__run_id", "__task_id"}
                ctx.check(not extra, "walk:extra-kwargs", e.where(), f"the node receives undeclared arguments {sorted(extra)}", p)
                got = False
                for s in e.spreads:
                    recs = [s] if s[0] == "genkv" else [("genkv",) + r[1:] for r in dict_layers(s) if r[0] == "kv"]
                    ctx.need(recs or s == ("dict", ()), f"unrecognised argument construction {tstr(s)}")
                    for r in recs:
                        n_rec += 1
                        ctx.check(r[1] == ("attr", D, "name"), "walk:kwarg-name", e.where(), f"an argument is passed under {tstr(r[1])}, not the dependency's name", p)
                        ctx.check(r[2] in (("item", COMPUTED, dn), ("pure", "get", COMPUTED, (dn,), ())), "walk:kwarg-value", e.where(),
                                  f"an argument's value is {tstr(r[2])}, not the dependency's result", p)
                        got = got or r[1] == dn
                if N[0] == "elem" and N[1] == NODES and not got:
                    ctx.check(e.nfacts.get(("in", dn, COMPUTED)) is not True, "walk:kwarg-missing", e.where(),
                              "a dependency whose result is available is not passed to the node", p)
                if N == ("elem", NODES) and e.nfacts.get(("truthy", ("attr", D, "user_defined"))) is True and e.nfacts.get(("in", dn, INPUTS)) is False:
                    opt = any(k[0] == "eq" and v is True and OPTIONAL in k[1:] and "input_types" in repr(k) for k, v in e.nfacts.items()) or \
                        any(k[0] in ("eq",) and v is False and "DependencyType.REQUIRED" in repr(k) and "input_types" in repr(k) for k, v in e.nfacts.items()) or \
                        any(k[0] == "truthy" and v is False and "requires" in repr(k) for k, v in e.nfacts.items())
                    n_in += 1
                    ctx.check(opt, "walk:missing-required", e.where(), "a node runs although a required external dependency was not provided", p)
            if e.kind == "setitem" and e.recv == COMPUTED and e.args[0][0] == "attr" and e.args[0][2] == "name":
                M = e.args[0][1]
                if e.nfacts.get(("truthy", ("attr", M, "user_defined"))) is True and e.nfacts.get(("in", e.args[0], OVERRIDES)) is not True:
                    ctx.check(e.args[1] in (("item", INPUTS, e.args[0]), ("pure", "get", INPUTS, (e.args[0],), ())), "walk:input-value", e.where(),
                              f"the value of an external node is {tstr(e.args[1])}, not the input of that name", p)
        if p.kind == "raise" and p.value[0] == "exc":
            n_raise += 1
    ctx.need(n and n_rec, "node execution not found in the walk")
    ctx.check(n_raise, "walk:missing-raises", f.loc(), "a missing required input no longer raises an error in the walk")


def executor(ctx):
    ctx.rule("(executor) the callable receives the executor's keyword arguments unchanged; (config+inputs) the walk's inputs are config and runtime inputs together, and a name "
             "given by both is an error.")
    ix = ctx.ix
    f = ix.func("hamilton.execution.graph_functions.execute_lifecycle_for_node")
    from . import p01
    n = 0
    kwname = "**" + (f.node.args.kwarg.arg if f.node.args.kwarg else "?")
    for p in ctx.paths(f, inline_modules=[MOD], pure=PURE, raises="none", keep=lambda e: e.kind in ("call", "callv") and (e.name in HOOKS or p01.is_body(e))):
        for e in p.trace:
            if p01.is_body(e):
                n += 1
                bk = p01.body_kwargs(e)
                ctx.check(bk is not None and unwrap(bk) == ("param", kwname) and (method(e) or not e.args), "executor:kwargs", e.where(),
                          f"the node's callable is given {tstr(bk)} instead of the arguments of the execution", p)
    ctx.need(n, "callable invocation not found")
    c = ix.func("hamilton.execution.graph_functions.combine_config_and_inputs")
    nr = 0
    C, I = ("param", "config"), ("param", "inputs")
    for p in ctx.paths(c, inline_modules=[MOD], raises="none"):
        if p.kind == "raise":
            nr += 1
        elif p.kind == "return":
            ls = dict_layers(p.value)
            flat = set(ls)
            ctx.check(C in flat and I in flat, "combine:both", c.loc(), f"config and inputs are combined into {tstr(p.value)}", p)
    ctx.check(nr, "combine:overlap", c.loc(), "a name given both by config and inputs is no longer an error")
    for q, mods in (("hamilton.driver.DefaultGraphExecutor", ["hamilton.driver", "hamilton.graph"]), ("hamilton.driver.TaskBasedGraphExecutor", ["hamilton.driver"])):
        d = ix.cls(q)
        m = ix.method(d, "execute")
        seen = 0
        for p in ctx.paths(m, self_cls=d, inline_modules=mods, opaque=["execute_subdag", "combine_config_and_inputs", "get_nodes"], raises="none"):
            for e in p.trace:
                t = None
                if e.name == "execute_subdag":
                    t = kw(e, "inputs")
                elif e.name == "DictBasedResultCache":
                    t = e.args[0] if e.args else kw(e, "cache")
                if t is None:
                    continue
                seen += 1
                flat = dict_layers(t)
                comb = [x for x in flat if x[0] == "res" and p.ev(x[1]) is not None and p.ev(x[1]).name == "combine_config_and_inputs"]
                ok = bool(comb)
                for x in comb:
                    ev = p.ev(x[1])
                    a, b = ev.arg("config", 0), ev.arg("inputs", 1)
                    ok = ok and a is not None and a[0] == "attr" and a[2] in ("config", "_config") and (unwrap(b) == I or b == ("dict", ()))
                ctx.check(ok, f"{d.name}:inputs", e.where(), f"the run's initial values are {tstr(t)}: not the combination of the graph's config and the run's inputs", p)
        ctx.need(seen, f"{q}: hand-over of inputs not found")


def order_of(t):
    """The iteration order a sequence term follows: ('base', D) | ('sorted', order) | None."""
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == "pure":
        if t[1] in ("keys", "values", "items") and t[2] is not None:
            return ("base", t[2])
        if t[1] in ("sorted", "reversed") and t[3]:
            o = order_of(t[3][0])
            if t[4]:
                return None
            return None if o is None else (t[1], o)
        if t[1] in ("list", "tuple") and t[3]:
            return order_of(t[3][0])
    if t[0] in ("list", "tuple") and len(t[1]) == 1:
        r = t[1][0]
        if r[0] == "spread":
            return order_of(r[1])
        if r[0] == "e" and r[-1] and r[-1][0] == "L" and r[-1][1]:
            return order_of(r[-1][1][-1][1])
    if t[0] == "param":
        return ("base", t)
    return None


def async_alignment(ctx):
    ctx.rule("(async) awaited dependency values stay paired with their names.")
    f = ctx.ix.func("hamilton.async_driver.await_dict_of_tasks")
    n = 0
    for p in ctx.paths(f, inline_modules=["hamilton.async_driver"], raises="none"):
        if p.kind != "return":
            continue
        for r in dict_layers(p.value):
            if r[0] == "kv":
                n += 1
                D = r[1][1] if r[1][0] == "key" else None
                v = strip_await(r[2])
                ctx.check(D is not None and v in (("val", D), ("item", D, r[1])) or D is None, "async:paired", f.loc(), f"name {tstr(r[1])} is paired with {tstr(r[2])}", p)
            elif r[0] == "pure" and r[1] == "zip" and len(r[3]) == 2:
                ko = order_of(r[3][0])
                vt = strip_await(r[3][1])
                ev = p.ev(vt[1]) if vt[0] == "res" else None
                vo = None
                if ev is not None and ev.name == "gather":
                    if len(ev.args) == 1 and ev.args[0][0] == "star":
                        vo = order_of(ev.args[0][1])
                    elif len(ev.args) == 1 and ev.args[0][0] == "spread":
                        vo = order_of(ev.args[0][1])
                else:
                    vo = order_of(vt)
                ctx.need(ko is not None and vo is not None, f"cannot relate the order of {tstr(r[3][0])} and {tstr(r[3][1])}")
                n += 1
                ctx.check(ko == vo, "async:paired", f.loc(), f"names are taken in order {ko[0]} but values in order {vo[0]}: values are paired with the wrong names", p)
    ctx.need(n, "await_dict_of_tasks: result construction not recognised")
    c = ctx.ix.cls("hamilton.async_driver.AsyncGraphAdapter")
    f = ctx.ix.method(c, "do_node_execute")
    K = ("param", "kwargs")
    m = 0
    for p in ctx.paths(f, self_cls=c, inline_modules=["hamilton.async_driver"], raises="none", keep=lambda e: True):
        for e in p.trace:
            if e.kind == "call" and e.recv == ("param", "node_") and e.name in ("callable", "_callable", "__call__") or e.kind == "callv" and e.recv is not None and mentions(e.recv, ("param", "node_")):
                recs = [r for s in subterms((e.spreads, tuple(e.args))) if s[0] in ("dict", "list") for r in s[1] if mentions(r, K) and r[-1] and r[-1][0] == "L"]
                m += 1
                ctx.need(recs or e.spreads == (K,), f"how {e.name} is given its arguments is not recognised")
                gs = [{g for g in r[-1][2] if any(x in (("key", K), ("val", K), ("elem", K)) for x in subterms(g[0]))} for r in recs]
                common = set.intersection(*gs) if gs else set()
                ctx.check(not common, "async:all-passed", e.where(), f"a dependency reaches the node's function only if {'; '.join(tstr(k) + ' is ' + str(v) for k, v in common)}", p)
    ctx.need(m, "the async call of the node's function was not found")


def nested_functions(fn):
    """(enclosing chain, function) for every nested def/lambda below fn."""
    def go(node, chain):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield chain, ch
                yield from go(ch, chain + [ch])
            else:
                yield from go(ch, chain)
    yield from go(fn, [fn])


def capture(ctx):
    ctx.rule("(capture) a function generated by the framework that receives user-named values as **keywords has no other parameter a user name can bind: they are positional-only or "
             "start with an underscore.")
    n = 0
    for f in ctx.ix.all_funcs(lambda m: m in ("hamilton.node", "hamilton.async_driver", "hamilton.io.materialization") or m.startswith("hamilton.function_modifiers.")
                              or m.startswith("hamilton.execution.")):
        for chain, g in nested_functions(f.node):
            if g.args.kwarg is None:
                continue
            used = is_node_callable(f.node, g)
            if not used:
                continue
            n += 1
            ctx.functions.add(f.qual + ".<locals>." + g.name)
            bad = [a.arg for a in g.args.args + g.args.kwonlyargs if not a.arg.startswith("_")]
            ctx.check(not bad, f"capture:{f.qual}:{g.name}", f.loc(g), f"generated callable {g.name} has parameters {bad} that a node or input of that name would bind")
    g = ctx.ix.func("hamilton.execution.graph_functions.execute_lifecycle_for_node")
    bad = [a.arg for a in g.node.args.args + g.node.args.kwonlyargs if not a.arg.startswith("_")]
    n += 1
    ctx.check(not bad, "capture:execute_lifecycle_for_node", g.loc(), f"parameters {bad} collide with nodes or inputs of that name")
    ctx.need(n >= 8, f"only {n} generated callables found")


def is_node_callable(encl, g):
    """Does the nested function g flow (by name) into a node's callable, or get called with **keywords of the enclosing call?"""
    names_ = {g.name}
    for _ in range(4):
        before = len(names_)
        for x in ast.walk(encl):
            if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id in names_ for y in ast.walk(x.value)) and not isinstance(x.value, ast.Call):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        names_.add(t.id)
        if len(names_) == before:
            break
    for x in ast.walk(encl):
        if isinstance(x, ast.Call):
            fn = x.func
            nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
            if nm in ("Node", "copy_with", "from_fn"):
                for y in list(x.args) + [k.value for k in x.keywords]:
                    if any(isinstance(z, ast.Name) and z.id in names_ for z in ast.walk(y)):
                        return True
            if nm in names_ and any(k.arg is None for k in x.keywords):
                return True
        if isinstance(x, ast.Return) and x.value is not None and any(isinstance(z, ast.Name) and z.id in names_ for z in [x.value]) and encl is not g and \
                any(isinstance(c, ast.FunctionDef) for c in [encl]) and "node" in encl.name:
            return True
    return False


def node_inputs(ctx):
    ctx.rule("(declaration) building a node from explicit input types keeps every entry under its own key, with its given dependency type, or REQUIRED when none is given.")
    ix = ctx.ix
    c = ix.cls("hamilton.node.Node")
    m = ix.method(c, "__init__")
    IT = ("param", "input_types")
    n = 0
    for p in ctx.paths(m, self_cls=c, inline_modules=["hamilton.node"], raises="none", keyfacts=lambda k: k == ("isnone", IT)):
        if p.facts.get(("isnone", IT)) is not False:
            continue
        for r in dict_layers(p.final(("param", "self"), "_input_types")):
            if r == IT:
                n += 1
                continue
            if r[0] != "kv":
                continue
            n += 1
            k, v = r[1], r[2]
            good = k == ("key", IT) and (v == ("val", IT) or v == ("item", IT, k) or v[0] == "tuple" and len(v[1]) == 2 and v[1][0][1] in (("val", IT), ("item", IT, k)))
            ctx.check(good, "node:input-type", m.loc(), f"declared input {tstr(k)} is recorded as {tstr(v)}", p)
            if v[0] == "tuple":
                ctx.check(v[1][1][1] == ("global", "hamilton.node.DependencyType.REQUIRED"), "node:default-dependency-type", m.loc(),
                          f"an input declared without a dependency type becomes {tstr(v[1][1][1])}", p)
                ctx.check(p.facts.get(("isinstance", ("val", IT), "tuple")) is not True, "node:given-dependency-type", m.loc(), "a given dependency type is discarded", p)
    ctx.need(n, "recording of declared inputs not found")


PARTS = [("walk", walk), ("executor", executor), ("async", async_alignment), ("capture", capture), ("declaration", node_inputs)]
