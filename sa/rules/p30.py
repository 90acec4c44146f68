"""P30: Spark dataflows: every column is computed from the columns and values its function names, on the dataframe built so far."""
import ast

from ..interp import is_const
from .common import *
from .p15 import SELFT
from .p24 import D, L, T, V, entries, items, names, paths
from .p25 import P, at_
from .p27 import called

SP = "hamilton.plugins.h_spark."
REQ = ("global", "hamilton.node.DependencyType.REQUIRED")
OPT = ("global", "hamilton.node.DependencyType.OPTIONAL")
CALLS = ("call", "callv", "new")


def func(ctx, name):
    try:
        return ctx.ix.func(SP + name)
    except Exception:
        ctx.need(False, f"{SP}{name} is gone")


def frames(dfs):
    """isinstance/subclass checks against DataFrame: true for the given values."""
    def r(e):
        if e.name == "custom_subclass_check" and e.args and e.args[0] in dfs[0]:
            return const(e.args[0] in dfs[1])
        return None
    return r


def bind(ctx):
    ctx.rule("(bind) a parameter named like a column of the dataframe is that column; any other one that is given and is no dataframe is bound to the value given; one that is neither is an error if it is required.")
    f = func(ctx, "_determine_parameters_to_bind")
    ps_ = names(f)
    X, Y, Z, F = V("x"), V("y"), V("z"), V("frame")
    types = D({"a": T(V("ta"), REQ), "b": T(V("tb"), REQ), "c": T(V("tc"), OPT), "d": T(V("td"), OPT)})
    isdf = {("isinstance", v, ("global", "pyspark.sql.DataFrame")): v == F for v in (X, Y, Z, F)}
    for label, kw, cols, want in (
            ("a column and values", {"b": X, "d": Y}, ("a", "z"), ({"a"}, {"b": X, "d": Y})),
            ("a column that is given too", {"a": X, "b": Y}, ("a",), ({"a"}, {"b": Y})),
            ("columns only", {}, ("a", "b", "c", "d"), ({"a", "b", "c", "d"}, {})),
            ("a falsy value", {"b": NONE, "d": const(0)}, ("a",), ({"a"}, {"b": NONE, "d": const(0)})),
            ("a required one missing", {"d": Y}, ("a",), None),
            ("a dataframe for a required one", {"b": F}, ("a",), None)):
        n = 0
        for p in paths(ctx, f, bind={ps_[0]: D(kw), ps_[1]: ("known", "set", tuple(const(c) for c in cols)), ps_[2]: types}, returns=lambda e: None):
            if any(k[0] == "isinstance" and k[1][0] == "sym" and v != (k[1] == F) for k, v in p.facts.items()):
                continue
            if any(k[0] == "isinstance" and k[1][0] == "const" and v for k, v in p.facts.items()):
                continue
            n += 1
            if want is None:
                ctx.check(p.kind == "raise", f"bind:{label}", f.loc(), f"{label}: the function is called without it", p)
                continue
            if not ctx.check(p.kind == "return", f"bind:{label}:refused", f.loc(), f"{label}: refused", p):
                continue
            ctx.need(p.value[0] == "tuple" and len(p.value[1]) == 2, "parameters to bind: result not recognised")
            a, b = (entries(x[1]) for x in p.value[1])
            ctx.need(a is not None and b is not None, "parameters to bind: result not told exactly")
            ctx.check({k[1] for k in a} == want[0], f"bind:{label}:columns", f.loc(), f"{label}: taken from the dataframe are {sorted(k[1] for k in a)}, not {sorted(want[0])}", p)
            for k, v in a.items():
                c = next((e for e in p.trace if e.kind in CALLS and v == ("res", e.uid)), None)
                ctx.check(c is not None and k in c.args or mentions(v, k), f"bind:{label}:column", f.loc(), f"{label}: the parameter {k[1]} is another column", p)
            ctx.check({k[1]: v for k, v in b.items()} == want[1], f"bind:{label}:values", f.loc(), f"{label}: bound are {[(k[1], tstr(v)) for k, v in b.items()]}", p)
        ctx.need(n, "parameters to bind: not recognised")


def inspect(ctx):
    ctx.rule("(inspect) the dataframe among the arguments is told from the values, which keep their names.")
    f = func(ctx, "_inspect_kwargs")
    F, X, Y = V("frame"), V("x"), V("y")
    for label, kw, df, rest in (("frame first", {"f": F, "x": X}, F, {"x": X}), ("frame last", {"x": X, "y": Y, "f": F}, F, {"x": X, "y": Y}), ("no frame", {"x": X}, NONE, {"x": X}), ("nothing", {}, NONE, {}), ("none", {"x": NONE, "f": F}, F, {"x": NONE})):
        n = 0
        for p in paths(ctx, f, bind={names(f)[0]: D(kw)}):
            if any(k[0] == "isinstance" and v != (k[1] == F) for k, v in p.facts.items()) or p.kind != "return":
                continue
            n += 1
            ctx.need(p.value[0] == "tuple" and len(p.value[1]) == 2, "_inspect_kwargs: result not recognised")
            e = entries(p.value[1][1][1])
            ctx.need(e is not None, "_inspect_kwargs: result not told exactly")
            ctx.check(p.value[1][0][1] == df, f"inspect:frame({label})", f.loc(), f"{label}: the dataframe is {tstr(p.value[1][0][1])}", p)
            ctx.check({k[1]: v for k, v in e.items()} == rest, f"inspect:rest({label})", f.loc(), f"{label}: the other arguments are {[k[1] for k in e]}", p)
        ctx.need(n, "_inspect_kwargs: not recognised")


def in_order(t):
    if t[0] == "pure" and t[1] == "sorted" and t[2] is None and len(t[3]) == 1:
        opts = dict(t[4]) if len(t) > 4 and t[4] else {}
        got = in_order(t[3][0])
        if got is None or not all(is_const(x) for x in got) or not set(opts) <= {"reverse"} or not all(is_const(v) for v in opts.values()):
            return None
        return sorted(got, key=lambda x: x[1], reverse=bool(opts.get("reverse", const(False))[1]))
    if t[0] == "pure" and t[1] in ("keys", "list", "tuple"):
        return in_order(t[2] if t[2] is not None else t[3][0])
    if t[0] == "dict":
        return list(entries(t)) if entries(t) is not None else None
    return items(t)


def udf(ctx):
    ctx.rule("(udf) the column added has the name of the node and is the node's function on the columns its parameters name, matched by one order of the names on both sides, with the other arguments bound by name.")
    f = func(ctx, "_lambda_udf")
    n = names(f)
    DF, ND = P(n[0]), P(n[1])
    seen = 0
    for order in (("b", "a"), ("a", "b")):
        cols = D({k: V("col_" + k) for k in order})
        bound = D({"k": V("kv")})
        for p in paths(ctx, f, opaque=["_fabricate_spark_function", "_determine_parameters_to_bind", "_get_pandas_annotations", "get_spark_type", "get_type_information"],
                       returns=lambda e: T(cols, bound) if e.name == "_determine_parameters_to_bind" else None):
            if p.kind != "return":
                continue
            det, fab, wc = called(p, "_determine_parameters_to_bind"), called(p, "_fabricate_spark_function"), called(p, "withColumn")
            ctx.need(len(det) == 1 and len(fab) == 1, "_lambda_udf: the function is not made in one place")
            seen += 1
            d = det[0]
            ctx.check(d.arg("actual_kwargs", 0) == P(n[2]) and d.arg("node_input_types", 2) == at_(ND, "input_types") and mentions(d.arg("df_columns", 1), at_(DF, "columns")), "udf:asked", d.where(), "what is a column and what is bound is decided from something else than the dataframe, the node and the arguments", p)
            e = fab[0]
            b, c = e.arg("params_to_bind", 1), e.arg("params_from_df", 2)
            ctx.check(e.arg("node_", 0) == ND, "udf:node", e.where(), "the function of another node is run", p)
            eb, ec = (entries(x) if x is not None and x[0] == "dict" else dict(x[2]) if x is not None and x[0] == "known" else None for x in (b, c))
            ctx.need(eb is not None and ec is not None, "_lambda_udf: what is bound is not told exactly")
            ctx.check(set(eb) == {const("k")} and set(ec) == {const("a"), const("b")}, "udf:roles", e.where(), "the columns and the bound values are mixed up", p)
            ctx.check(len(wc) == 1 and wc[0].recv == DF and wc[0].arg("colName", 0) == at_(ND, "name") and p.value == ("res", wc[0].uid), "udf:column", f.loc(), "the dataframe does not get one column of the node's name", p)
            for w in wc[:1]:
                v = w.arg("col", 1)
                ap = next((x for x in p.trace if v == ("res", x.uid)), None)
                ctx.need(ap is not None, "_lambda_udf: the column's value not recognised")
                ctx.check(list(ap.args) == [V("col_a"), V("col_b")], "udf:order", ap.where(), f"the function is given {[tstr(x) for x in ap.args]}, not the columns in the order of its parameters (sorted by name)", p)
                mk = next((x for x in p.trace if x.kind in CALLS and x.name in ("udf", "pandas_udf") and (ap.recv == ("res", x.uid) or ap.qual == "?" or True)), None)
                ctx.need(mk is not None, "_lambda_udf: the kind of function not recognised")
                flag = e.arg("pandas_udf", 3)
                ctx.check(is_const(flag or NONE) and flag == const(mk.name == "pandas_udf"), "udf:kind", mk.where(), "a function made for one kind of UDF is registered as the other", p)
                ctx.check(("res", e.uid) in [s for a in mk.args for s in subterms(a)], "udf:function", mk.where(), "another function is registered", p)
    ctx.need(seen, "_lambda_udf: not recognised")
    f = func(ctx, "_fabricate_spark_function")
    for kind in (True, False):
        for p in paths(ctx, f, bind={"params_to_bind": D({"k": V("kv")}), "params_from_df": D({"b": V("cb"), "a": V("ca")}), "pandas_udf": const(kind)}, opaque=["_format_pandas_udf", "_format_udf", "compile", "FunctionType"]):
            if p.kind != "return":
                continue
            fm = called(p, "_format_pandas_udf", "_format_udf")
            ctx.need(len(fm) == 1, "_fabricate_spark_function: how the source is made not recognised")
            ctx.check(fm[0].name == ("_format_pandas_udf" if kind else "_format_udf"), "made:kind", fm[0].where(), "the function is made for the other kind of UDF", p)
            o = fm[0].arg("ordered_params", 1)
            got = in_order(o) if o is not None else None
            ctx.need(got is not None, "_fabricate_spark_function: the order is not told exactly")
            ctx.check(got == [const("a"), const("b")], "made:order", fm[0].where(), f"the parameters are in the order {[tstr(x) for x in got]}, the columns are passed sorted by name", p)
            part = [e for e in p.trace if e.name == "partial"]
            terms_ = [t for e in p.trace for a in list(e.args) + list(e.kwargs.values()) for t in subterms(a) if t[0] == "partial"]
            if part:
                e = part[0]
                ctx.check(e.args[:1] == (at_(P("node_"), "callable"),) and e.kwargs.get("k") == V("kv"), "made:bound", e.where(), "the function made is not the node's with the bound values", p)
            else:
                ctx.need(terms_, "_fabricate_spark_function: the function not recognised")
                t = terms_[0]
                ctx.check(t[1] == at_(P("node_"), "callable") and mentions(t, V("kv")) and mentions(t, const("k")) or mentions(t, at_(P("node_"), "callable")) and "kv" in tstr(t), "made:bound", f.loc(), "the function made is not the node's with the bound values", p)


def sourced(ctx):
    ctx.rule("(source) the function made takes the given parameters in the given order and passes each on under its own name.")
    for name in ("_format_udf", "_format_pandas_udf"):
        f = func(ctx, name)
        for params in (("a",), ("a", "b"), ("z", "a")):
            for p in paths(ctx, f, bind={"func_name": const("fn"), "ordered_params": L(*map(const, params))}):
                if p.kind != "return":
                    continue
                ctx.need(is_const(p.value) and isinstance(p.value[1], str), f"{name}: the source is not told exactly")
                try:
                    d = ast.parse(p.value[1]).body[0]
                    call = d.body[0].value
                    ok = d.name == "fn" and [a.arg for a in d.args.args] == list(params) and call.func.id == "partial_fn" and not call.args and [(k.arg, k.value.id) for k in call.keywords] == [(x, x) for x in params]
                except (SyntaxError, AttributeError, IndexError):
                    ok = False
                ctx.check(ok, f"source:{name}", f.loc(), f"for the parameters {list(params)} the function made is {p.value[1].strip()[:80]!r}", p)


def parameter(ctx):
    ctx.rule("(parameter) the dataframe parameter is the one asked for, if it is one, and otherwise the only one there is; none or several are an error.")
    f = func(ctx, "derive_dataframe_parameter")
    n = names(f)
    TD, TX = V("frame-type"), V("other-type")
    for label, types, req, want in (("one", {"x": TX, "d": TD}, NONE, "d"), ("none", {"x": TX}, NONE, None), ("two", {"d": TD, "e": TD}, NONE, None), ("asked of two", {"d": TD, "e": TD}, const("e"), "e"), ("asked, no frame", {"x": TX, "d": TD}, const("x"), None), ("asked, absent", {"d": TD}, const("q"), None)):
        k = 0
        for p in paths(ctx, f, bind={n[0]: D(types), n[1]: req}, opaque=["custom_subclass_check"], returns=frames(((TD, TX), (TD,)))):
            ctx.need(not p.facts, f"derive_dataframe_parameter: {label} is not decided")
            k += 1
            if want is None:
                ctx.check(p.kind == "raise", f"parameter:{label}", f.loc(), f"dataframe parameters {label}: {tstr(p.value or NONE)} is taken", p)
            else:
                v = p.value
                if p.kind == "return" and v[0] == "only" and items(v[1]) is not None and len(items(v[1])) == 1:
                    v = items(v[1])[0]
                ctx.need(p.kind == "raise" or is_const(v), "derive_dataframe_parameter: result not recognised")
                ctx.check(p.kind == "return" and v == const(want), f"parameter:{label}", f.loc(), f"dataframe parameters {label}: {tstr(p.value or NONE)[:40]} instead of {want}", p)
        ctx.need(k, f"derive_dataframe_parameter: {label} not recognised")


def chained(ctx):
    ctx.rule("(chain) the columns are computed one after the other in dependency order, each on the dataframe the one before it gave, the first on the one injected; every one is kept, the last is what the function gets; "
             "columns that are not selected are dropped again, and only those; selecting gives exactly the columns selected, by default all that were computed.")
    c = ctx.ix.cls(SP + "with_columns")
    ctx.need(c is not None, "with_columns is gone")
    f = ctx.ix.find_method(c, "chain_subdag_nodes")
    ctx.need(f is not None, "chain_subdag_nodes is gone")
    n1, n2, n3 = V("n1"), V("n2"), V("n3")
    base = {(n1, "name"): const("a"), (n2, "name"): const("b"), (n3, "name"): const("c"),
            (n1, "input_types"): D({"x": V("t1"), "p": V("t2")}), (n2, "input_types"): D({"a": V("t3"), "y": V("t4")}), (n3, "input_types"): D({"a": V("t5"), "b": V("t6"), "x": V("t7")})}
    deps = {n1: ((), ("x",)), n2: (("a",), ("y",)), n3: (("a", "b"), ("x",))}
    ORD = (n1, n2, n3)
    MADE = {n: V("made_" + x) for n, x in zip(ORD, "abc")}
    base.update({(MADE[n], "name"): const(x) for n, x in zip(ORD, "abc")})
    for sel, mode in ((None, "append"), (("a", "c"), "append"), (("b",), "append"), (("a", "b", "c"), "append"), (None, "select"), (("b", "a"), "select")):
        for schema in (("x", "y"), None):
            def ret(e):
                if e.name == "topologically_sort_nodes":
                    return L(*ORD)
                if e.name in ("sparkify_node", "sparkify_node_with_udf"):
                    return MADE.get(e.arg("node_", 0))
                if e.name == "is_decorated_pyspark_udf":
                    return const(e.args[0] == n2) if e.args and e.args[0] in ORD else None
                return None

            attrs = {**base, (SELFT, "select"): L(*map(const, sel)) if sel else NONE, (SELFT, "mode"): const(mode), (SELFT, "initial_schema"): L(*map(const, schema)) if schema else NONE}
            for p in paths(ctx, f, c, attrs=attrs, opaque=["topologically_sort_nodes", "is_decorated_pyspark_udf", "sparkify_node", "sparkify_node_with_udf", "create_selector_node", "create_drop_node"], returns=ret):
                if p.kind != "return":
                    continue
                ctx.need(all(k[0] == "isnone" or k[0] == "truthy" for k in p.facts), "chain_subdag_nodes: not decided")
                what = f"select={list(sel) if sel else None}, mode={mode}"
                sp = called(p, "sparkify_node", "sparkify_node_with_udf")
                if not ctx.check([e.arg("node_", 0) for e in sp] == list(ORD), "chain:all", f.loc(), f"{what}: not every column is computed once, in dependency order", p):
                    continue
                prev = P("inject_parameter")
                for e, n in zip(sp, ORD):
                    ctx.check(e.name == ("sparkify_node" if n == n2 else "sparkify_node_with_udf"), "chain:kind", e.where(), "a Spark function is run as a UDF, or the other way round", p)
                    got = e.arg("linear_df_dependency_name", 1)
                    ctx.check(got == prev, "chain:threaded", e.where(), f"{what}: a column is computed on {tstr(got or NONE)} instead of {'the dataframe injected' if prev == P('inject_parameter') else 'the dataframe of the column before it'}", p)
                    ctx.check(e.arg("base_df_dependency_name", 2) == P("inject_parameter"), "chain:base", e.where(), "the base dataframe is not the one injected", p)
                    ctx.check(e.arg("base_df_param_name" if n == n2 else "base_df_dependency_param", 3) == at_(SELFT, "dataframe_subdag_param"), "chain:as", e.where(), "the name the dataframe is passed as is not the one asked for", p)
                    for i, nm, want in ((4, "dependent_columns_from_upstream" if n == n2 else "dependent_columns_in_group", deps[n][0]), (5, "dependent_columns_from_dataframe", deps[n][1] if schema else ())):
                        t = e.arg(nm, i)
                        xs = items(t) if t is not None else None
                        ctx.need(xs is not None, "chain_subdag_nodes: the columns a function needs are not told exactly")
                        ctx.check({x[1] for x in xs if is_const(x)} == set(want), f"chain:{'group' if i == 4 else 'frame'}", e.where(), f"a function that takes {sorted(deps[n][0] + deps[n][1])} is said to take {sorted(str(x[1]) for x in xs)} from {'the other columns' if i == 4 else 'the dataframe'}", p)
                    prev = const(dict(zip(ORD, "abc"))[n])
                out, last = (x[1] for x in p.value[1])
                xs = items(out)
                ctx.need(xs is not None, "chain_subdag_nodes: result not told exactly")
                mk = called(p, "create_selector_node", "create_drop_node")
                R = [MADE[n] for n in ORD]
                ctx.check(xs[:len(R)] == R and xs[len(R):] == [("res", e.uid) for e in mk], "chain:kept", f.loc(), f"{what}: the nodes given back are not those made", p)
                ctx.check(last == (at_(("res", mk[-1].uid), "name") if mk else prev) or mk and last == mk[-1].arg("node_name", 2), "chain:last", f.loc(), f"{what}: the function gets {tstr(last)} instead of the last dataframe", p)
                for e in mk:
                    ctx.check(e.arg("upstream_name", 0) == prev, "chain:selected-from", e.where(), f"{what}: columns are selected from another dataframe than the last", p)
                    t = e.arg("columns", 1)
                    cs = items(t) if t is not None else None
                    ctx.need(cs is not None, "chain_subdag_nodes: columns not told exactly")
                    ctx.need(all(is_const(x) for x in cs), "chain_subdag_nodes: columns not recognised")
                    cs = [x[1] for x in cs]
                    if e.name == "create_selector_node":
                        ctx.check(mode == "select" and cs == list(sel or ("a", "b", "c")), "chain:select", e.where(), f"{what}: {cs} are selected", p)
                    else:
                        given = [n for n in "abc" if n not in (sel or "abc")]
                        ctx.check(mode == "append" and cs == given, "chain:drop", e.where(), f"{what}: {cs} are dropped, not {given}", p)
                if mode == "select":
                    ctx.check(len(mk) == 1, "chain:select", f.loc(), f"{what}: the columns are not selected", p)
                elif sel is None:
                    ctx.check(not mk, "chain:drop", f.loc(), f"{what}: columns are dropped though all are wanted", p)
                else:
                    ctx.check(bool(mk) == (not {"a", "b", "c"} <= set(sel)), "chain:drop", f.loc(), f"{what}: columns that are not selected stay", p)
    for nm, meth_ in (("create_selector_node", "select"), ("create_drop_node", "drop")):
        f = ctx.ix.find_method(c, nm)
        ctx.need(f is not None, f"{nm} is gone")
        for p in paths(ctx, f, bind={"upstream_name": const("up"), "columns": L(const("q"), const("r")), "node_name": const("nn")}):
            mk = [e for e in p.trace if e.kind in CALLS and e.name == "Node"]
            if p.kind != "return" or len(mk) != 1:
                continue
            e = mk[0]
            cb = e.kwargs.get("callabl")
            ctx.need(cb is not None, f"{nm}: the function not recognised")
            ctx.check(e.arg("name", 0) == const("nn"), f"{nm}:name", e.where(), "the node has another name", p)
            for q in p.invoke(cb, kwargs={"up": V("frame")}, raises="none", keep=lambda e: True, keyfacts=lambda k: True):
                cl = [x for x in q.trace if x.name in ("select", "drop")]
                ctx.check(len(cl) == 1 and cl[0].name == meth_ and cl[0].recv == V("frame") and list(cl[0].args) == [const("q"), const("r")] and q.value == ("res", cl[0].uid), f"{nm}:does", f.loc(), f"the node does not {meth_} the columns given", q)


def wrapped(ctx):
    ctx.rule("(wrapped) a function made into a Spark node runs on the dataframe built so far, with the values it asks for, and nothing else; the node depends on what it reads.")
    f = func(ctx, "sparkify_node_with_udf")
    ND = P("node_")
    it = D({"a": T(V("ta"), REQ), "x": T(V("tx"), REQ), "k": T(V("tk"), REQ)})
    A = {(ND, "input_types"): it}
    S = lambda *xs: ("known", "set", tuple(map(const, xs)))
    for p in paths(ctx, f, attrs=A, bind={"linear_df_dependency_name": const("lin"), "base_df_dependency_name": const("base"), "base_df_dependency_param": NONE, "dependent_columns_in_group": S("a"), "dependent_columns_from_dataframe": S("x")}):
        cw = called(p, "copy_with")
        if p.kind != "return":
            continue
        ctx.need(len(cw) == 1 and cw[0].kwargs.get("callabl") is not None and cw[0].kwargs.get("input_types") is not None, "sparkify_node_with_udf: the node not recognised")
        es = entries(cw[0].kwargs["input_types"])
        ctx.need(es is not None, "sparkify_node_with_udf: inputs not told exactly")
        ctx.check({k[1] for k in es} == {"a", "k", "lin", "base"}, "udf-node:inputs", cw[0].where(), f"the node depends on {sorted(k[1] for k in es)}, not on the dataframes and values it reads", p)
        for q in p.invoke(cw[0].kwargs["callabl"], kwargs={"lin": V("frame"), "base": V("bf"), "a": V("af"), "k": V("kv")}, raises="none", keep=lambda e: True, keyfacts=lambda k: True, opaque=["_lambda_udf"]):
            ctx.need(not q.facts, "sparkify_node_with_udf: what the function is given is not decided")
            u = called(q, "_lambda_udf")
            ctx.check(len(u) == 1 and q.value == ("res", u[0].uid) and u[0].arg("df", 0) == V("frame") and u[0].arg("node_", 1) == ND, "udf-node:frame", f.loc(), "the function is not run on the dataframe built so far", q)
            for e in u:
                t = e.arg("actual_kwargs", 2)
                d = entries(t) if t is not None and t[0] == "dict" else None
                ctx.need(d is not None, "sparkify_node_with_udf: arguments not told exactly")
                ctx.check({k[1]: v for k, v in d.items()} == {"k": V("kv")}, "udf-node:values", e.where(), f"the function is given the values {sorted(k[1] for k in d)}", q)
    c = ctx.ix.cls(SP + "require_columns")
    ctx.need(c is not None, "require_columns is gone")
    f = ctx.ix.find_method(c, "sparkify_node")
    it = D({"df": T(V("td"), REQ), "a": T(V("ta"), REQ), "x": T(V("tx"), REQ), "k": T(V("tk"), REQ)})
    A = {(ND, "input_types"): it, (ND, "tags"): D({"hamilton.spark.target": const("df"), "hamilton.spark.columns": V("cols")}), (ND, "callable"): V("fn")}
    for p in paths(ctx, f, attrs=A, bind={"linear_df_dependency_name": const("lin"), "base_df_dependency_name": const("base"), "base_df_param_name": NONE, "dependent_columns_from_upstream": S("a"), "dependent_columns_from_dataframe": S("x")}):
        cw = called(p, "copy_with")
        if p.kind != "return":
            continue
        ctx.need(len(cw) == 1 and cw[0].kwargs.get("input_types") is not None, "sparkify_node: the node not recognised")
        es = entries(cw[0].kwargs["input_types"])
        ctx.need(es is not None, "sparkify_node: inputs not told exactly")
        ctx.check({k[1] for k in es} == {"a", "k", "lin"}, "spark-node:inputs", cw[0].where(), f"the node depends on {sorted(k[1] for k in es)}, not on the dataframe and values it reads", p)
        cb = cw[0].kwargs.get("callabl")
        if not ctx.check(cb is not None, "spark-node:function", cw[0].where(), "the node keeps its own function, which does not get the dataframe built so far", p):
            continue
        for q in p.invoke(cb, kwargs={"lin": V("frame"), "a": V("af"), "k": V("kv")}, raises="none", keep=lambda e: True, keyfacts=lambda k: True):
            ctx.need(not q.facts, "sparkify_node: what the function is given is not decided")
            u = [e for e in q.trace if q.value == ("res", e.uid)]
            ctx.need(len(u) == 1, "sparkify_node: the call not recognised")
            ctx.check(u[0].kwargs.get("df") == V("frame") and u[0].kwargs.get("k") == V("kv"), "spark-node:frame", f.loc(), "the function is not run on the dataframe built so far with its own values", q)
    f = ctx.ix.find_method(c, "transform_node")
    A = {(ND, "input_types"): D({"df": T(V("td"), REQ), "k": T(V("tk"), REQ)}), (ND, "callable"): V("fn"), (SELFT, "_columns"): T(const("a"), const("k")), (ND, "name"): const("nn")}
    for col in (True, False):
        for p in paths(ctx, f, c, attrs=A, opaque=["derive_dataframe_parameter_from_node", "custom_subclass_check", "transform_output"], returns=lambda e: const("df") if e.name == "derive_dataframe_parameter_from_node" else const(col) if e.name == "custom_subclass_check" else None):
            cw, to = called(p, "copy_with"), called(p, "transform_output")
            if p.kind != "return":
                continue
            ctx.need(len(cw) == 1, "require_columns: the node not recognised")
            es = entries(cw[0].kwargs["input_types"]) if cw[0].kwargs.get("input_types") is not None else None
            ctx.need(es is not None, "require_columns: inputs not told exactly")
            ctx.check({k[1] for k in es} == {"df", "k", "a"} and es[const("k")] != es[const("a")], "require:inputs", cw[0].where(), f"the node depends on {sorted(k[1] for k in es)}, with its own inputs as they were", p)
            tg = entries(cw[0].kwargs["tags"]) if cw[0].kwargs.get("tags") is not None and cw[0].kwargs["tags"][0] == "dict" else None
            ctx.check(tg is not None and tg.get(const("hamilton.spark.target")) == const("df"), "require:target", cw[0].where(), "the dataframe the function works on is not marked", p)
            cb = cw[0].kwargs.get("callabl")
            if ctx.check(cb is not None, "require:function", cw[0].where(), "the function is given the columns too, which it does not take", p):
                for q in p.invoke(cb, kwargs={"df": V("frame"), "a": V("af"), "k": V("kv")}, raises="none", keep=lambda e: True, keyfacts=lambda k: True):
                    ctx.need(not q.facts, "require_columns: what the function is given is not decided")
                    u = [e for e in q.trace if q.value == ("res", e.uid)]
                    ctx.need(len(u) == 1, "require_columns: the call not recognised")
                    ctx.check(u[0].kwargs == {"df": V("frame"), "k": V("kv")}, "require:arguments", f.loc(), f"the function is given {sorted(u[0].kwargs)}, not what it takes", q)
            ctx.check(len(to) == (1 if col else 0), "require:column", f.loc(), "a function that gives a column does not add it to the dataframe" if col else "what a function that gives a dataframe returns is added as a column", p)
            for e in to:
                for q in p.invoke(e.args[0], args=(V("out"), V("kw")), opaque=[], raises="none", keep=lambda e: True, keyfacts=lambda k: True):
                    w = [x for x in q.trace if x.name == "withColumn"]
                    ctx.check(len(w) == 1 and list(w[0].args) == [const("nn"), V("out")] and w[0].recv == ("item", V("kw"), const("df")), "require:with-column", f.loc(), "the column added is not the function's, under the node's name", q)


def adapter(ctx):
    ctx.rule("(adapter) without a dataframe a node's function is simply called; with one, the node becomes a column of the dataframe built so far, which starts as the first one seen; the result has the original columns "
             "followed by the outputs that are not among them, each once, values that are no column as constants; and the adapter is as new afterwards.")
    c = ctx.ix.cls(SP + "PySparkUDFGraphAdapter")
    ctx.need(c is not None, "PySparkUDFGraphAdapter is gone")
    f = ctx.ix.find_method(c, "execute_node")
    ctx.need(f is not None, "execute_node is gone")
    ND = P(names(f)[1] if names(f)[0] == "self" else names(f)[0])
    KW = P([n for n in names(f) if n not in ("self", ND[1])][0])
    OBJ = at_(SELFT, "df_object")
    for label, frame, so_far in (("no dataframe", NONE, NONE), ("the first dataframe", V("frame"), NONE), ("a later dataframe", V("frame"), V("built"))):
        n = 0
        for p in paths(ctx, f, c, opaque=["_inspect_kwargs", "_lambda_udf"], attrs={(SELFT, "df_object"): so_far}, returns=lambda e: T(frame, D({"k": V("kv")})) if e.name == "_inspect_kwargs" else V("result") if e.name == "_lambda_udf" else None):
            if p.kind != "return" or any(p.facts.get(("isnone", x)) or p.facts.get(("truthy", x)) is False for x in (V("frame"), V("built"))):
                continue
            n += 1
            i, u = called(p, "_inspect_kwargs"), called(p, "_lambda_udf")
            ctx.check(len(i) == 1 and i[0].arg("kwargs", 0) == KW, f"adapter:arguments({label})", f.loc(), "the dataframe is looked for among other arguments", p)
            if frame == NONE:
                call = [e for e in p.trace if p.value == ("res", e.uid)]
                ctx.check(not u and len(call) == 1 and call[0].kwargs == {"k": V("kv")}, "adapter:plain", f.loc(), "a node that gets no dataframe is not simply called with its arguments", p)
                ctx.check(p.final(SELFT, "df_object") in (NONE, None), "adapter:plain:state", f.loc(), "a node that gets no dataframe changes the dataframe built so far", p)
                continue
            ctx.check(len(u) == 1 and u[0].arg("node_", 1) == ND and u[0].arg("df", 0) == (so_far if so_far != NONE else frame), f"adapter:frame({label})", f.loc(), f"{label}: the column is not added to the dataframe built so far", p)
            for e in u:
                t = e.arg("actual_kwargs", 2)
                if t == KW:
                    ctx.check(False, f"adapter:values({label})", e.where(), f"{label}: the dataframes themselves are handed to the function as values", p)
                    continue
                d = dict(t[2]) if t is not None and t[0] == "known" else entries(t) if t is not None and t[0] == "dict" else None
                ctx.need(d is not None, "execute_node: arguments not told exactly")
                ctx.check(d == {const("k"): V("kv")}, f"adapter:values({label})", e.where(), f"{label}: the function gets other values", p)
            ctx.check(p.final(SELFT, "df_object") == V("result") and p.value == V("result"), f"adapter:kept({label})", f.loc(), f"{label}: the dataframe with the new column is not the one that is built on", p)
            if so_far == NONE:
                sch = p.final(SELFT, "original_schema")
                ctx.check(sch is not None and mentions(sch, at_(V("frame"), "columns")), "adapter:schema", f.loc(), "the original columns are not remembered", p)
        ctx.need(n, f"execute_node: {label} not recognised")
    f = ctx.ix.find_method(c, "build_result")
    ctx.need(f is not None and f.node.args.kwarg is not None, "build_result is gone")
    FR = V("built")
    A = {(SELFT, "df_object"): FR, (SELFT, "original_schema"): L(const("x"), const("y")), (FR, "columns"): L(const("x"), const("y"), const("a"), const("b"))}
    W = V("with")
    n = 0
    for p in paths(ctx, f, c, attrs={**A, (W, "columns"): L(*map(const, "xyabk"))}, bind={f.node.args.kwarg.arg: D({"b": V("bv"), "x": V("xv"), "k": V("kv")})}, returns=lambda e: W if e.name == "withColumn" else None):
        if p.kind != "return":
            continue
        n += 1
        wc, sel = called(p, "withColumn"), called(p, "select")
        ctx.need(len(sel) == 1, "build_result: how the result is made not recognised")
        ctx.check(len(wc) == 1 and wc[0].recv == FR and wc[0].arg("colName", 0) == const("k"), "built:constants", f.loc(), "outputs that are no column are not added, or columns are overwritten", p)
        for e in wc:
            l = next((x for x in p.trace if x.kind in CALLS and e.arg("col", 1) == ("res", x.uid)), None)
            ctx.check(l is not None and l.name == "lit" and list(l.args) == [V("kv")], "built:constant", e.where(), "an output that is no column is not added with its own value", p)
        ctx.check(sel[0].recv == W and p.value == ("res", sel[0].uid), "built:from", f.loc(), "the result is not made from the dataframe with every output", p)
        cols = []
        for a in sel[0].args:
            x = next((x for x in p.trace if x.kind in CALLS and a == ("res", x.uid)), None)
            cols.append(x.args[0] if x is not None and x.args else a)
        ctx.need(all(is_const(x) for x in cols), "build_result: the columns are not told exactly")
        ctx.check([x[1] for x in cols] == ["x", "y", "b", "k"], "built:columns", sel[0].where(), f"the result has the columns {[x[1] for x in cols]}, not the original ones and then the outputs", p)
        ctx.check(p.final(SELFT, "df_object") == NONE, "built:clear", f.loc(), "the next execution builds on the dataframe of this one", p)
        t = p.final(SELFT, "original_schema")
        ctx.check(t is not None and items(t) == [], "built:clear-schema", f.loc(), "the next execution starts with the columns of this one", p)
    ctx.need(n, "build_result: not recognised")


def run(ctx):
    for name, fn in PARTS:
        ctx.part(name, fn)


PARTS = [("bind", bind), ("inspect", inspect), ("udf", udf), ("source", sourced), ("parameter", parameter), ("chain", chained), ("wrapped", wrapped), ("adapter", adapter)]
