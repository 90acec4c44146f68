"""P27: execution observers (trackers, tracers, progress, notifications) report what happened, of the run it happened in."""
from ..interp import is_const
from .common import *
from .p15 import SELFT
from .p24 import D, L, T, V, entries, items, names, paths
from .p25 import P, at_

PL = "hamilton.plugins."
CALLS = ("call", "callv", "new")


def meth(ctx, cls, name):
    c = ctx.ix.cls(PL + cls)
    f = ctx.ix.find_method(c, name)
    ctx.need(f is not None, f"{cls}.{name} is gone")
    return c, f


def run(ctx, cls, name, **kw):
    c, f = meth(ctx, cls, name)
    ps = paths(ctx, f, c, **kw)
    ctx.need(any(p.kind == "return" for p in ps), f"{cls}.{name} never returns")
    return f, ps


def called(p, *ns):
    return [e for e in p.trace if e.kind in CALLS and e.name in ns]


def res(p, e):
    """The value of a call as an object: its result, or the instance it made."""
    return ("res", e.uid)


def is_res(t, e):
    return t is not None and ("res", e.uid) in subterms(t)


def failed(p, param="error"):
    """Did the run, task or node fail on this path, as the observer found out?  (None: it did not look)"""
    E_, S_ = P(param), P("success")
    for k, v in p.facts.items():
        if k[0] == "isnone" and k[1] == E_:
            return not v
        if k[0] == "truthy" and k[1] == E_:
            return v
        if k[0] == "truthy" and k[1] == S_:
            return not v
        if k[0] in ("eq", "is") and S_ in k[1:3]:
            o = k[2] if k[1] == S_ else k[1]
            if o in (TRUE, FALSE):
                return not v if o == TRUE else v
    return None


# ------------------------------------------------------------------ MLflow
ML = "h_mlflow.MLFlowTracker"
LOGS = ("log_metric", "log_text", "log_dict", "log_figure", "log_artifact", "log_artifacts", "log_param", "log_params", "log_metrics", "log_table", "log_image", "log_batch")


def mlflow(ctx):
    ctx.rule("(mlflow) a run is created once per execution (or is the existing one asked for), started under its own id where the client created it, and gets the config, the graph and one parameter per config and input value; "
             "it ends once, FINISHED when the execution succeeded and FAILED when it did not, in both places that set it; executions without inputs are recorded like any other.")
    at = {(SELFT, "config"): D({"c1": V("c1v"), "c2": V("c2v")})}
    for label, ins, want in (("inputs", D({"i1": V("i1v"), "i2": V("i2v")}), {"c1": V("c1v"), "c2": V("c2v"), "i1": V("i1v"), "i2": V("i2v")}), ("no inputs", NONE, {"c1": V("c1v"), "c2": V("c2v")}), ("empty inputs", D({}), {"c1": V("c1v"), "c2": V("c2v")})):
        f, ps = run(ctx, ML, "run_before_graph_execution", attrs=at, bind={"inputs": ins})
        for p in ps:
            if ins == NONE:
                used = [e for e in p.trace if e.recv == NONE] or p.kind == "raise"
                ctx.check(not used, "mlflow:none", f.loc(), "an execution without inputs (None) is an error in the tracker", p)
                if used:
                    continue
            if p.kind != "return":
                continue
            made, got, started = called(p, "create_run"), called(p, "get_run"), called(p, "start_run")
            given = p.facts.get(("truthy", at_(SELFT, "mlflow_run_id")))
            if given is None:
                given = next((not v for k, v in p.facts.items() if k == ("isnone", at_(SELFT, "mlflow_run_id"))), None)
            ctx.check(len(made) + len(got) == 1, "mlflow:one-run", f.loc(), f"{label}: {len(made)} runs are created and {len(got)} looked up for one execution", p)
            if len(made) + len(got) != 1:
                continue
            e = (made + got)[0]
            ctx.check(given is not None and bool(got) == given, "mlflow:existing", e.where(), "the existing run asked for by run_id is not the one used, or is used when none was asked for", p)
            if got:
                ctx.check(e.arg("run_id", 0) == at_(SELFT, "mlflow_run_id"), "mlflow:existing-id", e.where(), "the run looked up is not the one asked for", p)
            else:
                ctx.check(e.arg("experiment_id", 0) == at_(SELFT, "experiment_id"), "mlflow:experiment", e.where(), "the run is not created in the tracker's experiment", p)
                ctx.check(e.arg("run_name", 3) == at_(SELFT, "run_name") and e.arg("tags", 2) is not None, "mlflow:named", e.where(), "the run is created without its name or tags", p)
            tagged = [x for x in p.trace if x.kind == "setitem" and x.args[0] == const("hamilton_run_id")]
            ctx.check(all(x.args[1] == P("run_id") for x in tagged), "mlflow:tagged", e.where(), "the run is tagged with the id of another execution", p)
            rid = ("attr", ("attr", res(p, e), "info"), "run_id")
            ctx.check(p.final(SELFT, "run_id") == rid, "mlflow:run-id", f.loc(), "what is logged later does not go to this execution's run", p)
            ctx.check(len(started) == 1 and started[0].arg("run_id", 0) == rid, "mlflow:started", f.loc(), "the run started is not this execution's", p)
            ps_ = [(x.arg("key", 1), x.arg("value", 2), x.arg("run_id", 0)) for x in called(p, "log_param")]
            ctx.need(not called(p, "log_params", "log_batch"), "parameters are logged in a way not recognised")
            ctx.check(sorted(ps_, key=repr) == sorted(((const(k), v, rid) for k, v in want.items()), key=repr), f"mlflow:params({label})", f.loc(), f"{label}: the parameters of the run are not exactly the config and the inputs, each with its value", p)
            ds = called(p, "log_dict")
            ctx.check(all(x.arg("run_id", 0) == rid for x in ds), "mlflow:own-run", f.loc(), "something is logged to another run", p)
            ctx.check(any(entries(x.arg("dictionary", 1)) == {const("c1"): V("c1v"), const("c2"): V("c2v")} for x in ds), "mlflow:config", f.loc(), "the config is not logged as it is", p)
            ctx.check(any(mentions(x.arg("dictionary", 1), at_(P("graph"), "nodes")) for x in ds), "mlflow:graph", f.loc(), "the graph is not logged", p)
            ctx.check(p.final(SELFT, "final_vars") == P("final_vars"), "mlflow:final-vars", f.loc(), "the variables asked for are not remembered", p)
            ctx.check(p.final(SELFT, "graph") == P("graph"), "mlflow:keeps-graph", f.loc(), "the graph of the execution is not remembered", p)
    f, ps = run(ctx, ML, "run_after_graph_execution")
    for p in ps:
        bad = failed(p)
        term, end = called(p, "set_terminated"), called(p, "end_run")
        ctx.check(bad is not None, "mlflow:end-depends", f.loc(), "a failed execution ends the run like a successful one", p)
        want = const("FAILED" if bad else "FINISHED")
        ctx.check(len(end) == 1, "mlflow:ended", f.loc(), "the run is not ended, or more than once", p)
        for e in end:
            ctx.check((e.arg("status", 0) or const("FINISHED")) == want, "mlflow:end-status", e.where(), f"the active run is ended as {tstr(e.arg('status', 0) or const('FINISHED'))} after an execution that {'failed' if bad else 'succeeded'}", p)
        for e in term:
            ctx.check((e.arg("status", 1) or const("FINISHED")) == want and e.arg("run_id", 0) == at_(SELFT, "run_id"), "mlflow:status", e.where(), f"an execution that {'failed' if bad else 'succeeded'} is not recorded as such in its run", p)
    f, ps = run(ctx, ML, "__init__")
    for p in ps:
        if p.kind != "return":
            continue
        cl = called(p, "MlflowClient")
        ctx.check(len(cl) == 1 and cl[0].arg("tracking_uri", 0) == P("tracking_uri") and cl[0].arg("registry_uri", 1) == P("registry_uri"), "mlflow:client", f.loc(), "the client does not use the tracking and registry locations given", p)
        t = p.facts.get(("truthy", P("tracking_uri")), None if not any(k[0] == "isnone" and k[1] == P("tracking_uri") for k in p.facts) else not p.facts[("isnone", P("tracking_uri"))])
        st = called(p, "set_tracking_uri")
        ctx.check(t is False or any(e.arg("uri", 0) == P("tracking_uri") for e in st), "mlflow:global-uri", f.loc(), "the run is created at the tracking location given but started at the global one", p)
        ctx.check(t is not False or not st, "mlflow:global-uri-kept", f.loc(), "the global tracking location is replaced although none was given", p)
        ctx.check(p.final(SELFT, "mlflow_run_id") == P("run_id") and p.final(SELFT, "run_name") == P("run_name") and p.final(SELFT, "log_system_metrics") == P("log_system_metrics"), "mlflow:settings", f.loc(), "a setting of the tracker is not kept", p)
        look, make = called(p, "get_experiment_by_name"), called(p, "create_experiment")
        ctx.check(len(look) == 1 and look[0].arg("name", 0) == P("experiment_name"), "mlflow:lookup", f.loc(), "the experiment is not looked up by its name", p)
        x = p.final(SELFT, "experiment_id")
        if look and not make:
            ctx.check(x == ("attr", res(p, look[0]), "experiment_id"), "mlflow:existing-experiment", f.loc(), "an existing experiment is not the one used", p)
        else:
            ctx.check(len(make) == 1 and x == res(p, make[0]) and make[0].arg("name", 0) == P("experiment_name") and make[0].arg("artifact_location", 1) == P("artifact_location"), "mlflow:new-experiment", f.loc(), "a new experiment is not created under the name and location given", p)
    f, ps = run(ctx, ML, "run_after_graph_construction")
    for p in ps:
        ctx.check(p.final(SELFT, "config") == P("config"), "mlflow:keeps-config", f.loc(), "the config of the driver is not remembered", p)


TYPED = {"float": "log_metric", "int": "log_metric", "str": "log_text", "dict": "log_dict"}


def mlflow_init(ctx):
    ctx.rule("(mlflow-setup) the tracker logs where it is told to: the destinations given are those of the client and those the library itself uses, and only those given are set.")
    c, f = meth(ctx, ML, "__init__")
    for tu in (const("t"), NONE):
        for ru in (const("r"), NONE):
            for p in paths(ctx, f, c, bind={"tracking_uri": tu, "registry_uri": ru}):
                if p.kind != "return":
                    continue
                cl = [e for e in p.trace if e.name == "MlflowClient"]
                ctx.check(len(cl) == 1 and (cl[0].arg("tracking_uri", 0) or NONE) == tu and (cl[0].arg("registry_uri", 1) or NONE) == ru, "mlflow:client", f.loc(), "the client does not log where it was told to", p)
                for n, u in (("tracking", tu), ("registry", ru)):
                    got = [e.args[0] if e.args else next(iter(e.kwargs.values()), NONE) for e in called(p, f"set_{n}_uri")]
                    ctx.check(got == ([u] if u != NONE else []), f"mlflow:{n}", f.loc(), f"told to use {tstr(u)} for {n}, the library is set to {[tstr(x) for x in got]}", p)


def kind_of(p, t):
    """What the path found the return type to be: one of TYPED, 'figure', or 'other'."""
    figure = False
    for k, v in p.facts.items():
        if not v:
            continue
        if k[0] in ("eq", "is") and t in k[1:3]:
            o = tstr(k[2] if k[1] == t else k[1]).rsplit(".", 1)[-1]
            if o in TYPED:
                return o
        if k[0] in ("in", "truthy", "issubclass") and mentions(k[1], t) and ("FIGURE_TYPES" in tstr(k[2] if len(k) > 2 else k[1])):
            figure = True
    return "figure" if figure else "other"


def results(ctx):
    ctx.rule("(results) a node that failed leaves nothing in the MLflow run and cannot make the tracker fail; a variable asked for is logged exactly once, under its own name, with its own value, in the form for its type, in the run of the execution; "
             "other nodes are not logged; what a saver wrote is recorded at the path it reports.")
    RT, R, N, RID = P("node_return_type"), P("result"), P("node_name"), at_(SELFT, "run_id")
    c, f = meth(ctx, ML, "run_after_node_execution")
    for p in paths(ctx, f, c):
        both = [sorted(((e.arg("name", 0), e.arg("key", i), e.arg("value", i + 1)) for e in called(p, n)), key=repr) for n, i in (("set_registered_model_tag", 1), ("set_model_version_tag", 2))]
        ctx.check(both[0] == both[1], "results:model-tags", f.loc(), "a registered model and its version are tagged differently", p)
    bind = {"success": FALSE} if "success" in names(f) else {}
    for p in paths(ctx, f, c, bind=bind):
        ctx.check(bool(bind) or failed(p) is True or not used_result(p, R), "results:failed", f.loc(), "the result of a node that failed is used: it is None, and converting or logging it hides the error of the node", p)
        if bind:
            ctx.check(not called(p, *LOGS) and not used_result(p, R), "results:failed", f.loc(), "the result of a node that failed is used: it is None, and converting or logging it hides the error of the node", p)
    bind = {"success": TRUE} if "success" in names(f) else {}
    seen = set()
    for p in paths(ctx, f, c, bind={**bind, "node_tags": D({})}):
        if p.kind != "return" or not bind and failed(p):
            continue
        inn = next((v for k, v in p.facts.items() if k[0] == "in" and k[1] == N and k[2] == at_(SELFT, "final_vars")), None)
        ev = called(p, *LOGS)
        if not inn:
            ctx.check(inn is False and not ev, "results:not-asked", f.loc(), "a node that was not asked for is logged", p)
            continue
        k = kind_of(p, RT)
        seen.add(k)
        want = {"figure": "log_figure", "other": "log_artifact"}.get(k) or TYPED[k]
        ctx.check(len(ev) == 1 and (ev[0].name == want or k == "dict" and ev[0].name == "log_artifact" and any(e.kind == "caught" or e.outcome == "raise" for e in p.trace)), f"results:{k}", f.loc(), f"a variable of a {k} type is logged by {[e.name for e in ev]}, not by {want}", p)
        if len(ev) != 1:
            continue
        e = ev[0]
        ctx.check(e.arg("run_id", 0) == RID, "results:run", e.where(), "a variable is logged to another run", p)
        ctx.check(any(mentions(a, N) for a in list(e.args[1:]) + list(e.kwargs.values())), f"results:{k}:name", e.where(), "a variable is not logged under its own name", p)
        if want == "log_artifact":
            fs = [a for a in [e.arg("local_path", 1)] if a is not None]
            op = [x for x in called(p, "open") if fs and x.arg("file", 0) == fs[0]]
            dp = [x for x in called(p, "dump") if x.arg("obj", 0) == R and op and mentions(x.arg("file", 1), res(p, op[0]))]
            ctx.check(len(op) == 1 and len(dp) == 1 and p.trace.index(dp[0]) < p.trace.index(e) and is_const(op[0].arg("mode", 1)) and op[0].arg("mode", 1)[1] in ("wb", "wb+", "w+b"), "results:other:pickled", e.where(), "the file logged for a variable is not the pickle of its value", p)
            ex = [x for x in p.trace if x.kind == "exit" and op and any(mentions(a, res(p, op[0])) for a in x.args)]
            ctx.check(bool(ex) and p.trace.index(ex[0]) < p.trace.index(e) or any(x.name == "close" and p.trace.index(x) < p.trace.index(e) for x in p.trace), "results:other:closed", e.where(), "the pickle is logged before it is completely written", p)
        else:
            ctx.check(any(mentions(a, R) for a in list(e.args[1:]) + list(e.kwargs.values())), f"results:{k}:value", e.where(), "the value logged is not the variable's", p)
    ctx.need({"float", "int", "other"} <= seen, f"how the type of a variable is found is not recognised ({sorted(seen)})")
    for sink in ("csv", "plt", "plotly", "mlflow"):
        tags = D({"hamilton.data_saver": TRUE, "hamilton.data_saver.sink": const(sink)})
        for p in paths(ctx, f, c, bind={**bind, "node_tags": tags}, opaque=["get_path_from_metadata"], pure=("get_path_from_metadata",)):
            if p.kind != "return":
                continue
            ev = called(p, *LOGS)
            if sink == "mlflow":
                ctx.check(not ev, "results:mlflow-saver", f.loc(), "what an mlflow saver already logged is logged again", p)
                for e in called(p, "update_registered_model", "update_model_version", "set_registered_model_tag", "set_model_version_tag"):
                    ctx.check(mentions(e.arg("name", 0), ("item", ("item", R, const("registered_model")), const("name"))), "results:model", e.where(), "another model than the one saved is described", p)
                    if "version" in e.name:
                        ctx.check(mentions(e.arg("version", 1), ("item", ("item", R, const("registered_model")), const("version"))), "results:model-version", e.where(), "another version than the one saved is described", p)
                continue
            path = [t for t in [("pure", "get_path_from_metadata", None, (R,), ())]]
            have = next((v for k, v in p.facts.items() if k[0] == "truthy" and k[1] == path[0]), None)
            if have is None:
                have = next((not v for k, v in p.facts.items() if k[0] == "isnone" and k[1] == path[0]), None)
            if have is not True:
                ctx.check(have is False and not ev, "results:no-path", f.loc(), "a saver that reports no path is logged", p)
                continue
            want = "log_artifact" if sink == "csv" else "log_figure"
            ctx.check(len(ev) == 1 and ev[0].name == want and ev[0].arg("run_id", 0) == RID and (ev[0].arg("local_path", 1) if sink == "csv" else ev[0].arg("artifact_file", 2)) == path[0], f"results:saver({sink})", f.loc(), "what a saver wrote is not logged once, at the path it reports, in this execution's run", p)
            if sink != "csv" and len(ev) == 1:
                fig = ev[0].arg("figure", 1)
                ctx.check(fig is not None and mentions(fig, P("node_kwargs")), f"results:figure({sink})", ev[0].where(), "the figure logged is not the one saved", p)
    g = ctx.ix.func(PL + "h_mlflow.get_path_from_metadata")
    m = V("m")
    for md, want in ((D({"path": V("p1")}), V("p1")), (D({"file_metadata": D({"path": V("p2")})}), V("p2")), (D({"path": V("p1"), "file_metadata": D({"path": V("p2")})}), V("p1")), (D({"other": m}), NONE)):
        for p in paths(ctx, g, bind={names(g)[0]: md}):
            ctx.check(p.kind == "return" and p.value == want, "results:path", g.loc(), f"the path read from a saver's metadata is {tstr(p.value) if p.value else p.kind}, not {tstr(want)}", p)


def used_result(p, R):
    return [e for e in p.trace if e.kind in CALLS + ("mut", "pure") and (e.recv is not None and mentions(e.recv, R) or any(mentions(a, R) for a in list(e.args) + list(e.kwargs.values())))]


# ------------------------------------------------------------------ OpenTelemetry
OT = "h_opentelemetry."


def otel_ret(stack):
    def r(e):
        return stack if e.name == "get" and "token_stack" in (e.qual or "") + tstr(e.recv or NONE) else None
    return r


def stack_ops(p):
    w = [e for e in p.trace if e.kind in CALLS and e.name == "set" and "token_stack" in (e.qual or "") + tstr(e.recv or NONE)]
    return w


def pairs(t):
    xs = items(t)
    if xs is None:
        return None
    out = []
    for x in xs:
        y = items(x)
        if y is None and x[0] == "known":
            y = list(x[2])
        out.append(tuple(y) if y is not None else x)
    return out


def opentelemetry(ctx):
    ctx.rule("(otel) every start of a run, task or node starts one span, named after it, makes it the current one and puts it, with the token of that change, on top of a new stack; every end takes the top of the stack, restores the context by its own token, "
             "sets the status ERROR with the error when there was one and OK otherwise, and ends that span once.")
    old = L(T(V("tok0"), V("span0")), T(V("tok1"), V("span1")))
    for kind, nm in (("graph", "run_id"), ("node", "node_name"), ("task", "task_id")):
        for when in ("before", "after"):
            f, ps = run(ctx, OT + "OpenTelemetryTracer", f"run_{when}_{kind}_execution", returns=otel_ret(V("shared")), opaque=["get"])
            for p in ps:
                hit = [e for e in p.trace if e.recv == V("shared") and e.name in ("append", "pop", "insert", "extend", "remove", "clear", "[]=", "del[]", "__iadd__")]
                ctx.check(not hit, f"otel:{kind}:{when}:shared", f.loc(), "the stack of open spans is changed in place: threads and tasks that inherited it see spans opened and closed elsewhere", p)
        for st, before in ((old, [(V("tok0"), V("span0")), (V("tok1"), V("span1"))]), (NONE, []), (L(), [])):
            f, ps = run(ctx, OT + "OpenTelemetryTracer", f"run_before_{kind}_execution", returns=otel_ret(st), opaque=["get"])
            for p in ps:
                if p.kind != "return":
                    continue
                sp, at, sc = called(p, "start_span", "start_as_current_span"), called(p, "attach"), called(p, "set_span_in_context")
                ctx.check(len(sp) == 1 and sp[0].name == "start_span" and sp[0].arg("name", 0) == P(nm), f"otel:{kind}:span", f.loc(), f"not exactly one span named by {nm} is started", p)
                if len(sp) != 1:
                    continue
                ctx.check(mentions(sp[0].recv, at_(SELFT, "tracer")), f"otel:{kind}:tracer", f.loc(), "the span is not started by the tracer given", p)
                ctx.check(len(sc) == 1 and sc[0].arg("span", 0) == res(p, sp[0]) and len(at) == 1 and at[0].arg("context", 0) == res(p, sc[0]), f"otel:{kind}:current", f.loc(), "the new span is not made the current one", p)
                w = stack_ops(p)
                ctx.check(len(w) == 1, f"otel:{kind}:pushed", f.loc(), "the new span is not put on the stack", p)
                if len(w) == 1 and len(at) == 1:
                    got = pairs(w[0].args[0]) if w[0].args else None
                    ctx.need(got is not None, f"otel: the stack written by run_before_{kind}_execution is not followed")
                    ctx.check(got == before + [(res(p, at[0]), res(p, sp[0]))], f"otel:{kind}:stack", w[0].where(), "the stack of open spans is not the previous one with the new span and its token on top", p)
                if kind == "graph":
                    ctx.check(p.final(SELFT, "graph") == P("graph"), "otel:graph:kept", f.loc(), "the graph of the execution is not remembered", p)
        f, ps = run(ctx, OT + "OpenTelemetryTracer", f"run_after_{kind}_execution", returns=otel_ret(old), opaque=["get"])
        for p in ps:
            if p.kind != "return":
                continue
            ends, det, stat = called(p, "end"), called(p, "detach"), called(p, "set_status")
            ctx.check([e.recv for e in ends] == [V("span1")], f"otel:{kind}:ended", f.loc(), "the span of what ended is not ended, exactly once", p)
            ctx.check([e.arg("token", 0) for e in det] == [V("tok1")], f"otel:{kind}:restored", f.loc(), "the context is not restored by the token of what ended", p)
            w = stack_ops(p)
            ctx.check(len(w) == 1 and pairs(w[0].args[0]) == [(V("tok0"), V("span0"))], f"otel:{kind}:popped", f.loc(), "the stack of open spans does not lose exactly its top", p)
            bad = failed(p)
            codes = [tstr(x).rsplit(".", 1)[-1] for e in stat for x in [status_code(p, e)] if x is not None]
            ctx.check(bad is not None, f"otel:{kind}:looks", f.loc(), "whether there was an error is not looked at", p)
            ctx.check(codes == (["ERROR"] if bad else ["OK"]) and all(e.recv == V("span1") for e in stat), f"otel:{kind}:status", f.loc(), f"the status of the span is {codes} although there was {'an' if bad else 'no'} error", p)
            if bad:
                ctx.check(any(mentions(a, P("error")) for e in called(p, "Status", "set_status", "record_exception") for a in list(e.args) + list(e.kwargs.values())), f"otel:{kind}:error", f.loc(), "the error is not recorded in the span", p)
            if ends and stat:
                ctx.check(p.trace.index(stat[-1]) < p.trace.index(ends[0]), f"otel:{kind}:status-first", f.loc(), "the status is set after the span ended, when it is ignored", p)


def status_code(p, e):
    a = e.arg("status", 0)
    if a is None:
        return None
    if "StatusCode." in tstr(a):
        return a
    for x in called(p, "Status"):
        if a == ("res", x.uid):
            return x.arg("status_code", 0)
    return None


# ------------------------------------------------------------------ Datadog
DD = "h_ddog._DDOGTracerImpl"


def tk(*xs):
    return T(*[const(x) if isinstance(x, str) else x for x in xs])


def dd_state():
    return {(SELFT, "run_span_cache"): D({"r1": V("run1"), "r2": V("run2")}), (SELFT, "task_span_cache"): D({"r1": D({"t1": V("task1")}), "r2": D({"t1": V("task2")})}),
            (SELFT, "node_span_cache"): D({"r1": ("known", "dict", ((tk("t1", "a"), V("node1")), (tk(NONE, "a"), V("node1n")))), "r2": ("known", "dict", ((tk("t1", "a"), V("node2")),))})}


def plain(t):
    """A value with known containers written the same way however they came about."""
    if t[0] == "known":
        if t[1] == "dict":
            return ("D", tuple(sorted(((plain(k), plain(v)) for k, v in t[2]), key=repr)))
        return ("L", tuple(plain(x) for x in t[2]))
    if t[0] == "dict":
        es = entries(t)
        return t if es is None else ("D", tuple(sorted(((plain(k), plain(v)) for k, v in es.items()), key=repr)))
    if t[0] in ("list", "tuple"):
        xs = items(t)
        return t if xs is None else ("L", tuple(plain(x) for x in xs))
    return t


def span_of(t):
    """Which span a value read from the caches is."""
    if t is not None and t[0] == "item":
        d, k = plain(span_of(t[1])), plain(t[2])
        if d[0] == "D":
            return dict(d[1]).get(k, t)
    return t


def derives(p, t, x, seen=()):
    """Does a value come from x, through the calls made on the path?"""
    if mentions(t, x):
        return True
    for e in p.trace:
        if e.kind in CALLS and e.uid not in seen and ("res", e.uid) in subterms(t) and any(a is not None and derives(p, a, x, seen + (e.uid,)) for a in [e.recv, *e.args, *e.kwargs.values()]):
            return True
    return False


def caches(p):
    return [plain(p.final(SELFT, a)) for a in ("run_span_cache", "task_span_cache", "node_span_cache")]


def datadog(ctx):
    ctx.rule("(datadog) spans are kept per run: with two runs open, the span of a run, task or node is opened under its own name below the span of its own task (or run), kept under its own identity, and its end closes that span and no other, once, "
             "with the error if and only if there was one; the end of a run forgets that run only; the synchronous and the asynchronous tracer report the same.")
    r1, S0 = {"run_id": const("r1")}, [plain(v) for v in dd_state().values()]

    def upd(i, key, fn):
        d = dict(S0[i][1])
        d[const(key)] = fn(d.get(const(key)))
        return ("D", tuple(sorted(((k, v) for k, v in d.items() if v is not None), key=repr)))

    def add(k, v):
        return lambda d: ("D", tuple(sorted({**dict(d[1]), plain(k): v}.items(), key=repr)))
    f, ps = run(ctx, DD, "run_before_graph_execution", attrs=dd_state(), bind={"run_id": const("r3")})
    for p in ps:
        sp = called(p, "start_span", "trace")
        ctx.check(len(sp) == 1 and sp[0].arg("name", 0) == at_(SELFT, "root_name") and sp[0].arg("service", 2) == at_(SELFT, "service"), "ddog:graph:span", f.loc(), "a run does not start exactly one span with the name and service given", p)
        if len(sp) != 1:
            continue
        E_ = ("D", ())
        ctx.check(caches(p) == [upd(0, "r3", lambda d: res(p, sp[0])), upd(1, "r3", lambda d: E_), upd(2, "r3", lambda d: E_)], "ddog:graph:kept", f.loc(), "the span of a new run is not kept beside those of the other runs", p)
        ctx.check(any(is_res(sp[0].arg("child_of", 1) or NONE, e) for e in called(p, "current_trace_context")), "ddog:graph:parent", f.loc(), "the span of a run is not tied to the caller's", p)
    for label, tid, parent in (("task", const("t1"), V("task1")), ("new task", const("t9"), V("run1")), ("no task", NONE, V("run1"))):
        f, ps = run(ctx, DD, "run_before_node_execution", attrs=dd_state(), bind={**r1, "task_id": tid, "node_name": const("b"), "node_kwargs": D({"a": V("av")})})
        for p in ps:
            if p.kind != "return" or any(k == ("truthy", parent) and not v or k == ("isnone", parent) and v for k, v in p.facts.items()):
                continue
            sp = called(p, "start_span", "trace")
            nm = const("b") if tid == NONE else const(tid[1] + ":b")
            ctx.check(len(sp) == 1 and sp[0].arg("name", 0) == nm, "ddog:node:span", f.loc(), f"{label}: a node does not start exactly one span named after its task and itself", p)
            if len(sp) != 1:
                continue
            ctx.check(sp[0].arg("child_of", 1) == parent and sp[0].arg("service", 2) == at_(SELFT, "service"), "ddog:node:parent", sp[0].where(), f"{label}: the span of a node is below {tstr(sp[0].arg('child_of', 1) or NONE)}, not below {tstr(parent)}", p)
            ctx.check(caches(p) == [S0[0], S0[1], upd(2, "r1", add(tk(tid, "b"), res(p, sp[0])))], "ddog:node:kept", f.loc(), f"{label}: the span of a node is not kept for its own end", p)
            for e in called(p, "link_span"):
                ctx.check(e.recv == res(p, sp[0]), "ddog:node:link", e.where(), "a link is added to another span", p)
            tg = called(p, "set_tags", "set_tag")
            ctx.check(tg and all(e.recv == res(p, sp[0]) for e in tg) and any(mentions(a, P("node_tags")) for e in tg for a in list(e.args) + list(e.kwargs.values())), "ddog:node:tags", f.loc(), "the tags of the node are not put on its span", p)
            ctx.check(not [e for e in p.trace if e.kind in ("mut", "setitem") and e.recv == P("node_tags")], "ddog:node:tags-kept", f.loc(), "the tags of the node itself are changed", p)
    f, ps = run(ctx, DD, "run_before_task_execution", attrs=dd_state(), bind={**r1, "task_id": const("t2")})
    for p in ps:
        sp = called(p, "start_span", "trace")
        ctx.check(len(sp) == 1 and sp[0].arg("name", 0) == const("t2") and sp[0].arg("child_of", 1) == V("run1"), "ddog:task:span", f.loc(), "a task does not start exactly one span, named after it, below its run's", p)
        if len(sp) == 1:
            ctx.check(caches(p) == [S0[0], upd(1, "r1", add(const("t2"), res(p, sp[0]))), S0[2]], "ddog:task:kept", f.loc(), "the span of a task is not kept for its own end", p)
    gone = lambda d: None  # noqa: E731
    for kind, bind, span, after in (("node", {"task_id": const("t1"), "node_name": const("a")}, V("node1"), None), ("node", {"task_id": NONE, "node_name": const("a")}, V("node1n"), None), ("task", {"task_id": const("t1")}, V("task1"), None),
                                    ("graph", {}, V("run1"), [upd(i, "r1", gone) for i in range(3)])):
        f, ps = run(ctx, DD, f"run_after_{kind}_execution", attrs=dd_state(), bind={**r1, **bind})
        for p in ps:
            if p.kind != "return":
                continue
            ex = called(p, "__exit__", "finish", "finish_with_ancestors")
            bad = failed(p)
            ctx.check([span_of(e.recv) for e in ex] == [span], f"ddog:{kind}:closed", f.loc(), f"the end of a {kind} closes {[tstr(e.recv) for e in ex]}, not its own span", p)
            ctx.check(bad is not None, f"ddog:{kind}:looks", f.loc(), "whether there was an error is not looked at", p)
            for e in ex:
                ctx.need(e.name == "__exit__", "a span is closed in a way not recognised")
                a = [e.arg(n, i) for i, n in enumerate(("exc_type", "exc_val", "exc_tb"))]
                want = [("type", P("error")), P("error"), ("attr", P("error"), "__traceback__")] if bad else [NONE] * 3
                ok = a == want or bad and a[1] == want[1] and a[2] == want[2] and a[0] is not None and a[0] != NONE and mentions(a[0], P("error"))
                ctx.check(ok, f"ddog:{kind}:error", e.where(), f"the span of a {kind} that {'failed' if bad else 'succeeded'} is closed with {[tstr(x or NONE) for x in a]}", p)
            if after:
                ctx.check(caches(p) == after, f"ddog:{kind}:forgets", f.loc(), "the end of a run does not forget exactly that run", p)
            else:
                # what other runs and what is still open must be kept
                now = caches(p)
                ctx.check(now[0] == S0[0] and dict(now[1][1])[const("r2")] == dict(S0[1][1])[const("r2")] and dict(now[2][1])[const("r2")] == dict(S0[2][1])[const("r2")], f"ddog:{kind}:keeps", f.loc(), f"the end of a {kind} forgets open spans", p)
    # the public tracers hand everything on
    ASYNC = {"pre_graph_execute": ("run_before_graph_execution", {"run_id": P("run_id")}), "pre_node_execute": ("run_before_node_execution", {"run_id": P("run_id"), "task_id": P("task_id"), "node_name": at_(P("node_"), "name"), "node_kwargs": P("kwargs"), "node_tags": at_(P("node_"), "tags")}),
             "post_node_execute": ("run_after_node_execution", {"run_id": P("run_id"), "task_id": P("task_id"), "node_name": at_(P("node_"), "name"), "error": P("error")}), "post_graph_execute": ("run_after_graph_execution", {"run_id": P("run_id"), "error": P("error")})}
    impl = ctx.ix.cls(PL + DD)
    todo = [("h_ddog.AsyncDDOGTracer", m, t, w) for m, (t, w) in ASYNC.items()]
    for m in [f"run_{w}_{k}_execution" for w in ("before", "after") for k in ("graph", "node", "task")]:
        todo.append(("h_ddog.DDOGTracer", m, m, {n: P(n) for n in names(ctx.ix.find_method(impl, m)) if n != "self"}))
    for cls, m, target, want in todo:
        c, f = meth(ctx, cls, m)
        for p in paths(ctx, f, c, opaque=[target]):
            ev = called(p, target)
            ctx.check(len(ev) == 1, f"ddog:{cls.split('.')[1]}:{m}", f.loc(), f"{m} is not handed on exactly once", p)
            if len(ev) == 1:
                g = ctx.ix.find_method(impl, target)
                ps_ = [n for n in names(g) if n != "self"]
                for i, n in enumerate(ps_):
                    v = ev[0].arg(n, i)
                    ctx.check(v == want.get(n), f"ddog:{cls.split('.')[1]}:{m}:{n}", ev[0].where(), f"{m} hands on {tstr(v or NONE)} as {n}", p)
    for cls in ("h_ddog.DDOGTracer", "h_ddog.AsyncDDOGTracer"):
        c, f = meth(ctx, cls, "__init__")
        for p in paths(ctx, f, c):
            ev = called(p, "_DDOGTracerImpl")
            ctx.need(len(ev) == 1, f"{cls}: how the tracer is made is not recognised")
            ctx.check(all(ev[0].arg(n, i) == P(n) for i, n in enumerate(("root_name", "include_causal_links", "service"))), f"ddog:{cls.split('.')[1]}:settings", ev[0].where(), "a setting of the tracer is lost", p)
    f, ps = run(ctx, DD, "__init__")
    for p in ps:
        ctx.check(all(p.final(SELFT, n) == P(n) for n in ("root_name", "include_causal_links", "service")) and caches(p) == [("D", ())] * 3, "ddog:settings", f.loc(), "a setting of the tracer is lost, or it starts with open spans", p)
    # what travels to another process
    f, ps = run(ctx, DD, "__getstate__", attrs={(SELFT, a): V("v_" + a) for a in ("root_name", "service", "include_causal_links")}, opaque=["_serialize_span_dict"], pure=("_serialize_span_dict",))
    h, qs = run(ctx, DD, "__setstate__", opaque=["_deserialize_span_dict"], pure=("_deserialize_span_dict",))
    for p in ps:
        es = entries(p.value) if p.value else None
        ctx.need(es is not None, "ddog: __getstate__ does not give a dictionary")
        for q in qs:
            for a in ("root_name", "service", "include_causal_links", "run_span_cache", "task_span_cache"):
                v = q.final(SELFT, a)
                ks = [k for k in es if mentions(v, ("item", P(names(h)[1]), k))]
                ctx.check(len(ks) == 1 and (mentions(es[ks[0]], V("v_" + a)) or mentions(es[ks[0]], at_(SELFT, a))), f"ddog:travels:{a}", h.loc(), f"{a} is not what it was after the tracer travelled to another process", p)


# ------------------------------------------------------------------ OpenLineage
OL = "h_openlineage."


def sent(ctx, p, f):
    """(event type, run id, job namespace, job name, run event) of each event emitted on a path."""
    out = []
    for e in called(p, "emit"):
        a = e.arg("event", 0)
        r = [x for x in called(p, "RunEvent") if a == ("res", x.uid)]
        ctx.need(len(r) == 1, f"{f.name}: what is emitted is not recognised")
        ru = [x for x in called(p, "Run") if r[0].arg("run", 2) == ("res", x.uid)]
        jo = [x for x in called(p, "Job") if r[0].arg("job", 3) == ("res", x.uid)]
        ctx.need(len(ru) == 1 and len(jo) == 1, f"{f.name}: the run or job of an event is not recognised")
        out.append((tstr(r[0].arg("eventType", 0) or NONE).rsplit(".", 1)[-1], ru[0].arg("runId", 0), jo[0].arg("namespace", 0), jo[0].arg("name", 1), r[0], ru[0], jo[0]))
    return out


def openlineage(ctx):
    ctx.rule("(lineage) an execution emits one START event, one COMPLETE event when it succeeded or one FAIL event with the error when it failed, and one RUNNING event per successful loader or saver that reports metadata - loaders as inputs, savers as outputs - all with the run's id "
             "and the job's namespace and name; datasets are named and described by the metadata reported.")
    J = (P("run_id"), at_(SELFT, "namespace"), at_(SELFT, "job_name"))
    f, ps = run(ctx, OL + "OpenLineageAdapter", "pre_graph_execute")
    for p in ps:
        ev = sent(ctx, p, f)
        ctx.check([x[:4] for x in ev] == [("START",) + J], "lineage:start", f.loc(), f"an execution does not start with one START event of its run and job ({[x[0] for x in ev]})", p)
        for n in ("inputs", "overrides"):
            ctx.check(all(e.recv != P(n) or p.facts.get(("truthy", P(n))) is not False for e in p.trace), "lineage:none", f.loc(), f"{n} that are None are an error", p)
    f, ps = run(ctx, OL + "OpenLineageAdapter", "post_graph_execute")
    for p in ps:
        if p.kind != "return":
            continue
        bad, ev = failed(p), sent(ctx, p, f)
        ctx.check(bad is not None, "lineage:looks", f.loc(), "whether the execution failed is not looked at", p)
        ctx.check([x[:4] for x in ev] == [("FAIL" if bad else "COMPLETE",) + J], "lineage:end", f.loc(), f"an execution that {'failed' if bad else 'succeeded'} does not end with one {'FAIL' if bad else 'COMPLETE'} event of its run and job ({[x[0] for x in ev]})", p)
        if bad:
            er = [e for e in called(p, "ErrorMessageRunFacet") if e.arg("message", 0) is not None and mentions(e.arg("message", 0), P("error"))]
            ctx.check(er and ev and any(is_res(x[5].arg("facets", 1) or NONE, e) for x in ev for e in er), "lineage:error", f.loc(), "the error of a failed execution is not in its FAIL event", p)
    c, f = meth(ctx, OL + "OpenLineageAdapter", "post_node_execute")
    ND, R = P("node_"), P("result")
    opq = ["create_input_dataset", "create_output_dataset"]
    for p in paths(ctx, f, c, bind={"success": FALSE}, opaque=opq):
        ctx.check(p.kind == "return" and not called(p, "emit"), "lineage:failed-node", f.loc(), "a node that failed emits an event", p)
    sv, ld = {"hamilton.data_saver": TRUE}, {"hamilton.data_loader": TRUE, "hamilton.data_loader.has_metadata": TRUE}
    for label, tags, result, want in (("saver", sv, D({"file_metadata": V("fm")}), "create_output_dataset"), ("loader", ld, T(V("data"), D({"file_metadata": V("fm")})), "create_input_dataset"), ("plain node", {}, D({"file_metadata": V("fm")}), None),
                                      ("loader without metadata", {"hamilton.data_loader": TRUE, "hamilton.data_loader.has_metadata": FALSE}, T(V("data"), D({"file_metadata": V("fm")})), None),
                                      ("loader's other output", {"hamilton.data_loader": FALSE}, T(V("data"), D({"a": V("fm")})), None)):
        n = 0
        for p in paths(ctx, f, c, bind={"success": TRUE, "result": result}, attrs={(ND, "tags"): D(tags)}, opaque=opq):
            if p.kind != "return":
                continue
            if any(v is False and k[0] == "isinstance" for k, v in p.facts.items()):
                continue
            n += 1
            ev, dsets = sent(ctx, p, f), called(p, *opq)
            if want is None:
                ctx.check(not ev, f"lineage:{label}", f.loc(), f"a {label} emits an event", p)
                continue
            ctx.check([x[:4] for x in ev] == [("RUNNING",) + J], f"lineage:{label}", f.loc(), f"a {label} does not emit one RUNNING event of its run and job", p)
            ctx.check([e.name for e in dsets] == [want], f"lineage:{label}:kind", f.loc(), f"what a {label} handled is described by {[e.name for e in dsets]}", p)
            if len(ev) != 1 or len(dsets) != 1:
                continue
            md = result if want == "create_output_dataset" else result[2][1]
            ctx.check(dsets[0].arg("namespace", 0) == at_(SELFT, "namespace") and plain(dsets[0].arg("metadata", 1)) == plain(md) and dsets[0].arg("node_", 2) == ND, f"lineage:{label}:metadata", dsets[0].where(), f"a {label} is not described by its own metadata", p)
            i, o = ev[0][4].arg("inputs", 6), ev[0][4].arg("outputs", 7)
            mine, other = (o, i) if want == "create_output_dataset" else (i, o)
            ctx.check(mine is not None and is_res(mine, dsets[0]) and (other is None or items(other) == []), f"lineage:{label}:side", ev[0][4].where(), f"the dataset of a {label} is reported on the wrong side", p)
        ctx.need(n, f"lineage: no path for a {label}")
    # descriptions of datasets
    for fn, cls in (("create_input_dataset", "InputDataset"), ("create_output_dataset", "OutputDataset")):
        g = ctx.ix.func(PL + OL + fn)
        fp, nn = V("filepath"), V("nodename")
        for label, md in (("file", D({"file_metadata": D({"path": fp})})), ("file and schema", D({"file_metadata": D({"path": fp}), "dataframe_metadata": D({"column_names": V("cols"), "datatypes": V("types")})})),
                          ("sql", D({"sql_metadata": D({"table_name": V("table"), "query": V("query")})})), ("unknown", D({"other": V("o")}))):
            for p in paths(ctx, g, bind={"namespace": V("ns"), "metadata": md}, attrs={(P("node_"), "name"): nn}):
                if p.kind != "return" or any(k[0] == "truthy" and k[1][0] == "res" and not v for k, v in p.facts.items()):
                    continue
                ds = called(p, cls)
                ctx.check(len(ds) == 1 and ds[0].arg("namespace", 0) == V("ns") and is_res(p.value, ds[0]), f"lineage:{fn}:{label}", g.loc(), f"a {label} dataset is not described once, in the namespace given", p)
                if len(ds) != 1:
                    continue
                nm = ds[0].arg("name", 1) or NONE
                want = {"sql": V("table"), "unknown": const("--UNKNOWN--")}.get(label) or (fp if cls == "OutputDataset" else nn)
                ctx.check(nm == want or want == nn and mentions(nm, nn), f"lineage:{fn}:{label}:name", ds[0].where(), f"a {label} dataset is named {tstr(nm)}, not {tstr(want)}", p)
                fc = ds[0].arg("facets", 2)
                keys = {k[1] for k in (entries(fc) or {})} if fc not in (None, NONE) else set()
                need_ = {"file": {"storage", "dataSource"}, "file and schema": {"storage", "dataSource", "schema"}}.get(label, set())
                ctx.check(keys == need_, f"lineage:{fn}:{label}:facets", ds[0].where(), f"the facets of a {label} dataset are {sorted(keys)}, not {sorted(need_)}", p)
                if "storage" in need_:
                    s = called(p, "StorageDatasetFacet")
                    fmt = s[0].arg("fileFormat", 1) if len(s) == 1 else None
                    dot = next((v for k, v in p.facts.items() if k[0] == "in" and k[1] == const(".") and k[2] == fp), None)
                    ctx.check(fmt is not None and (derives(p, fmt, fp) if dot is not False else not derives(p, fmt, fp)), f"lineage:{fn}:{label}:format", g.loc(), f"the format of a file {'without' if dot is False else 'with'} an extension is reported as {tstr(fmt or NONE)}", p)
                    s = called(p, "DatasourceDatasetFacet")
                    ctx.check(len(s) == 1 and s[0].arg("uri", 1) == fp, f"lineage:{fn}:{label}:uri", g.loc(), "the location of the file is not reported", p)
                if "schema" in need_:
                    s = [(e.arg("name", 0) or NONE, e.arg("type", 1) or NONE) for e in called(p, "SchemaDatasetFacetFields")]
                    ctx.check(s and all(mentions(a, V("cols")) and not mentions(a, V("types")) and mentions(b, V("types")) and not mentions(b, V("cols")) for a, b in s), f"lineage:{fn}:{label}:schema", g.loc(), "the schema reported is not each column with its own type", p)
                if label == "sql" and cls == "InputDataset":
                    s = called(p, "SQLJobFacet")
                    ctx.check(len(s) == 1 and s[0].arg("query", 0) == V("query") and is_res(p.value, s[0]), f"lineage:{fn}:query", g.loc(), "the query that loaded the data is not reported", p)


# ------------------------------------------------------------------ progress, messages
def progress(ctx):
    ctx.rule("(progress, messages) the progress bar is made for as many nodes as are executed, moves by one for each node that ends, and is closed at the end of the execution, whether it failed or not; "
             "Slack gets exactly one message for a node that failed, with its name and error, and none for one that succeeded.")
    f, ps = run(ctx, "h_tqdm.ProgressBar", "run_before_graph_execution")
    for p in ps:
        b = called(p, "tqdm")
        ctx.check(len(b) == 1 and b[0].arg("total", 2) == ("pure", "len", None, (P("execution_path"),), ()) and p.final(SELFT, "progress_bar") == res(p, b[0]), "progress:total", f.loc(), "the bar is not made for the number of nodes executed", p)
        ctx.check(b and b[0].arg("desc", 1) == at_(SELFT, "desc"), "progress:desc", f.loc(), "the bar does not have the description given", p)
    f, ps = run(ctx, "h_tqdm.ProgressBar", "run_after_node_execution")
    for p in ps:
        u = called(p, "update")
        ctx.check(len(u) == 1 and (u[0].arg("n", 0) or const(1)) == const(1) and u[0].recv == at_(SELFT, "progress_bar"), "progress:step", f.loc(), "the bar does not move by one for a node that ended", p)
    f, ps = run(ctx, "h_tqdm.ProgressBar", "run_after_graph_execution")
    for p in ps:
        u = called(p, "close")
        ctx.check(p.kind != "return" or [e.recv for e in u] == [at_(SELFT, "progress_bar")], "progress:closed", f.loc(), "the bar is not closed at the end of the execution", p)
    f, ps = run(ctx, "h_tqdm.ProgressBar", "run_before_node_execution", opaque=["_get_node_name_display"])
    for p in ps:
        s, d = called(p, "set_description_str", "set_description"), called(p, "_get_node_name_display")
        ctx.check(len(s) == 1 and any(x.arg("node_name", 0) == P("node_name") and is_res(s[0].arg("desc", 0), x) for x in d), "progress:node", f.loc(), "the bar does not show the node being executed", p)
    f, ps = run(ctx, "h_slack.SlackNotifier", "run_after_node_execution")
    for p in ps:
        if p.kind != "return":
            continue
        m, bad = called(p, "chat_postMessage"), failed(p)
        if next((v for k, v in p.facts.items() if k[0] in ("isnone",) and "slack_client" in tstr(k[1])), False):
            continue
        ctx.check(bad is not None, "slack:looks", f.loc(), "whether the node failed is not looked at", p)
        ctx.check(len(m) == (1 if bad else 0), "slack:once", f.loc(), f"{len(m)} messages are sent for a node that {'failed' if bad else 'succeeded'}", p)
        for e in m:
            t = e.arg("text", 1)
            ctx.check(e.arg("channel", 0) == at_(SELFT, "channel"), "slack:channel", e.where(), "the message does not go to the channel given", p)
            ctx.check(t is not None and all(mentions(t, P(n)) for n in ("node_name", "error", "run_id")), "slack:text", e.where(), "the message does not name the node, the run and the error", p)


# ------------------------------------------------------------------ experiments
EX = "h_experiments.hook.ExperimentTracker"


def experiments(ctx):
    ctx.rule("(experiments) savers run in the directory of the run, and however a saver or the recording ends the process is back in its own directory afterwards; a saver that succeeded is recorded with the path it wrote, resolved in the run's directory; "
             "an execution is recorded once, under its run's id, with whether it succeeded, also without inputs; the store of runs writes, reads and deletes by id.")
    RD, ID = at_(SELFT, "run_directory"), at_(SELFT, "init_directory")
    for saver in (True, False):
        f, ps = run(ctx, EX, "run_before_node_execution", bind={"node_tags": D({"hamilton.data_saver": TRUE} if saver else {})})
        for p in ps:
            cd = [e.arg("path", 0) for e in called(p, "chdir")]
            ctx.check(cd == ([RD] if saver else []), "exp:enter", f.loc(), f"before a {'saver' if saver else 'plain node'} the process goes to {[tstr(x) for x in cd]}", p)
    c, f = meth(ctx, EX, "run_after_node_execution")
    tags = {"hamilton.data_saver": TRUE, "hamilton.data_saver.sink": V("sink"), "hamilton.data_saver.classname": V("cls")}
    has = "success" in names(f)
    for p in paths(ctx, f, c, bind={"node_tags": D({})}):
        ctx.check(p.kind == "return" and not called(p, "chdir", "NodeMaterializer"), "exp:plain", f.loc(), "a node that saves nothing is recorded, or moves the process", p)
    cases = [("path", D({"path": V("p1")}), True, V("p1")), ("file_metadata", D({"file_metadata": D({"path": V("p2")})}), True, V("p2")), ("no path", D({"other": V("o")}), True, None), ("failed", NONE, False, None)]
    for label, result, ok, path in cases:
        for how in ("none", "all"):
            for p in paths(ctx, f, c, bind={"node_tags": D(tags), "result": result, **({"success": const(ok)} if has else {})}, raises=(lambda e: e.kind in CALLS and e.name != "chdir") if how == "all" else "none"):
                if not has and not ok and failed(p) is False:
                    continue
                cd = called(p, "chdir")
                ctx.check(cd and cd[-1].arg("path", 0) == ID, f"exp:back({label})", f.loc(), f"after a saver ({label}) the process stays in the directory of the run", p)
                if how == "all":
                    continue
                used = [e for e in p.trace if e.recv == NONE] + [k for k in p.facts if k[0] == "in" and k[2] == NONE]
                ctx.check(p.kind == "return" and not used, f"exp:error({label})", f.loc(), f"recording a saver ({label}) is an error, which hides the saver's own", p)
                rec = called(p, "NodeMaterializer")
                ctx.check(len(rec) == (1 if path else 0), f"exp:recorded({label})", f.loc(), f"a saver ({label}) is recorded {len(rec)} times", p)
                for e in rec:
                    v = e.arg("path", 1)
                    ctx.check(derives(p, v, path), f"exp:path({label})", e.where(), "the path recorded is not the one written", p)
                    rs = [x for x in p.trace if x.kind in CALLS and x.name in ("resolve", "absolute", "abspath")]
                    back = [x for x in p.trace if x.kind in CALLS and x.name == "chdir" and x.arg("path", 0) == ID]
                    ctx.check(not rs or not back or p.trace.index(rs[-1]) < p.trace.index(back[0]), f"exp:resolved({label})", e.where(), "the path is resolved after the process left the directory it was written in", p)
                    ctx.check(e.arg("sink", 2) == V("sink") and e.arg("data_saver", 3) == V("cls"), f"exp:saver({label})", e.where(), "the kind of saver is not recorded as it is", p)
    for label, ins in (("inputs", D({"i": V("iv")})), ("no inputs", NONE)):
        nd = V("n")
        f2, ps = run(ctx, EX, "run_before_graph_execution", bind={"inputs": ins}, attrs={(P("graph"), "nodes"): L(nd), (SELFT, "modules"): ("known", "set", ()), (SELFT, "inputs"): L(), (nd, "name"): const("i"), (nd, "tags"): D({})}, opaque=["_get_default_input"])
        for p in ps:
            if ins == NONE:
                ctx.check(p.kind == "return" and not [e for e in p.trace if e.recv == NONE], "exp:none", f2.loc(), "an execution without inputs (None) is an error in the tracker", p)
            if p.kind != "return":
                continue
            ctx.check(p.final(SELFT, "graph_hash") == at_(P("graph"), "version"), "exp:graph", f2.loc(), "the version of the graph is not recorded", p)
            for e in called(p, "NodeInput"):
                ctx.check(e.arg("name", 0) == const("i") and e.arg("value", 1) == (V("iv") if ins != NONE else NONE), f"exp:inputs({label})", e.where(), "an input is not recorded with its own value", p)
    for label, ov, want in (("overrides", D({"o1": V("v1"), "o2": V("v2")}), [(const("o1"), V("v1")), (const("o2"), V("v2"))]), ("no overrides", NONE, []), ("empty overrides", D({}), [])):
        f2, ps = run(ctx, EX, "run_before_graph_execution", bind={"overrides": ov, "inputs": NONE}, attrs={(P("graph"), "nodes"): L(), (SELFT, "modules"): ("known", "set", ()), (SELFT, "inputs"): L()})
        for p in ps:
            ctx.check(p.kind == "return" and not [e for e in p.trace if e.recv == NONE], f"exp:overrides:error({label})", f2.loc(), f"an execution with {label} is an error in the tracker", p)
            if p.kind != "return":
                continue
            rec = [(e.arg("name", 0), e.arg("value", 1)) for e in called(p, "NodeOverride")]
            ctx.check(rec == want, f"exp:overrides({label})", f2.loc(), f"with {label} the execution is recorded with {[(tstr(a or NONE), tstr(b or NONE)) for a, b in rec]} overridden", p)
    f3, ps = run(ctx, EX, "run_after_graph_execution")
    for p in ps:
        if p.kind != "return":
            continue
        w, d = called(p, "write"), called(p, "dumps")
        ctx.check(len(w) == 1 and len(d) == 1 and is_res(w[0].arg("data", 0), d[0]) and w[0].arg("id_", 1) == at_(SELFT, "run_id"), "exp:written", f3.loc(), "an execution is not recorded once, under its run's id", p)
        es = entries(d[0].arg("obj", 0)) if len(d) == 1 else None
        if es is not None:
            for k, v in (("success", P("success")), ("run_id", at_(SELFT, "run_id")), ("experiment", at_(SELFT, "experiment_name")), ("graph_hash", at_(SELFT, "graph_hash")), ("config", at_(SELFT, "config"))):
                ctx.check(es.get(const(k)) == v, f"exp:record:{k}", f3.loc(), f"an execution is recorded with {tstr(es.get(const(k), NONE))} as {k}", p)
    for m, flag in (("write", ("c",)), ("read", ("r",)), ("delete", ("w", "c")), ("keys", ("r",))):
        f4, ps = run(ctx, "h_experiments.cache.JsonCache", m)
        for p in ps:
            o = called(p, "open")
            ctx.need(len(o) == 1, f"JsonCache.{m}: how the store is opened is not recognised")
            fl = o[0].arg("flag", 1)
            ctx.check(o[0].arg("file", 0) == at_(SELFT, "cache_path") and is_const(fl or const("r")) and (fl or const("r"))[1] in flag, f"exp:store:{m}", o[0].where(), f"the store is opened with {tstr(fl or const('r'))} to {m}", p)
            st = [e for e in p.trace if e.kind in ("setitem", "delitem")]
            if m == "write":
                ctx.check(len(st) == 1 and list(st[0].args) == [P("id_"), P("data")], "exp:store:write:id", f4.loc(), "a record is not stored under its id", p)
            if m == "delete":
                ctx.check(len(st) == 1 and st[0].kind == "delitem" and list(st[0].args)[:1] == [P("id_")], "exp:store:delete:id", f4.loc(), "the record asked for is not the one deleted", p)
            if m == "read":
                ctx.check(p.value is not None and any(t[0] == "item" and t[2] == P("id_") for e in p.trace for t in subterms(e.recv or NONE)) or p.value is not None and any(t[0] == "item" and t[2] == P("id_") for t in subterms(p.value)), "exp:store:read:id", f4.loc(), "the record read is not the one asked for", p)


PARTS = [("mlflow", mlflow), ("mlflow-setup", mlflow_init), ("results", results), ("opentelemetry", opentelemetry), ("datadog", datadog), ("openlineage", openlineage), ("progress", progress), ("experiments", experiments)]
