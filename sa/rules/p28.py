"""P28: the Hamilton UI client and trackers deliver every update of a run once, in order, to that run."""
import ast

from ..interp import is_const
from .common import *
from .p15 import SELFT
from .p24 import D, L, T, V, entries, items, paths
from .p25 import P, at_
from .p27 import called, failed

CL = "hamilton_sdk.api.clients."
AD = "hamilton_sdk.adapters."
CLIENTS = ("BasicSynchronousHamiltonClient", "BasicAsynchronousHamiltonClient")
TRACKERS = ("HamiltonTracker", "AsyncHamiltonTracker")
GETS = ("get", "get_nowait", "wait_for")
STATUS = "hamilton_sdk.tracking.trackingtypes.Status."


def find(ctx, cls, name):
    c = ctx.ix.cls(cls)
    f = ctx.ix.find_method(c, name)
    ctx.need(f is not None, f"{cls}.{name} is gone")
    return c, f


def of_queue(t):
    return t is not None and mentions(t, at_(SELFT, "data_queue"))


def taken(p):
    """The items a path took off the queue, in order: [(event, is the end marker)]."""
    out = []
    for e in p.trace:
        if e.kind not in ("call", "callv") or e.name not in GETS or e.outcome == "raise":
            continue
        if e.name == "get" and any(x.name == "wait_for" and ("res", e.uid) in [s for a in x.args for s in subterms(a)] for x in p.trace):
            continue  # the waiting is what takes it
        if not (of_queue(e.recv) or any(of_queue(a) or any(("res", g.uid) in subterms(a) for g in p.trace if g.name == "get" and of_queue(g.recv)) for a in e.args)):
            continue
        out.append((e, p.facts.get(("isnone", ("res", e.uid)))))
    return out


def sent(p):
    """The items handed to flush on a path, in order (None: not told exactly)."""
    out = []
    for e in called(p, "flush"):
        b = e.arg("batch", 0)
        if b is None or b[0] not in ("list", "tuple") or any(x[0] != "e" or any(l[1][0] != "while" for l in x[2][1]) for x in b[1]):
            return None
        out += [x[1] for x in b[1]]
    return out


REQUEST = ("RequestException", "Exception", "BaseException", "OSError", "IOError", "EnvironmentError")
AIO = ("ClientError", "Exception", "BaseException")


def lets_out(p, wide, http):
    """Does a path that raises let a failed request out?  Not if a handler for every request error was passed by."""
    e = next((x for x in p.trace if p.value is not None and p.value[0] == "exc" and x.uid == p.value[1]), None)
    if e is None:
        return False
    names = wide + (http if e.name == "raise_for_status" else ())
    for k, v in p.facts.items():
        if k[0] == "excis" and k[1] == p.value and v is False and any(n.rpartition(".")[2] in names for n in k[2]):
            return False
    return True


def escaping(ctx, cls):
    c, f = find(ctx, CL + cls, "flush")
    wide, http = (REQUEST, ("HTTPError",)) if cls == CLIENTS[0] else (AIO, ("ClientResponseError",))
    b = L(D({"dag_run_id": const(1), "attributes": L(NONE), "task_updates": L(NONE)}))
    ps = paths(ctx, f, c, bind={"batch": b}, opaque=["make_json_safe"], raises=lambda e: e.name in ("put", "raise_for_status"))
    ctx.need(any(called(p, "put") for p in ps), f"{cls}.flush does not send a request")
    return next((p for p in ps if p.kind == "raise" and lets_out(p, wide, http)), None)


def worker(ctx):
    ctx.rule("(worker) on every path through the worker loop (taken up to three times), what is handed to flush is exactly the items taken off the queue, in that order, each once and without the end marker; "
             "when the worker ends nothing it took is left unsent, a full batch or one whose interval has passed is sent before the next item is awaited, and a request that fails does not end it.")
    for cls in CLIENTS:
        c, f = find(ctx, CL + cls, "worker")
        esc = escaping(ctx, cls)
        ps = paths(ctx, f, c, unroll=3, opaque=["flush", "get", "wait_for", "get_nowait"], raises=lambda e: e.name in ("get", "wait_for", "get_nowait") or esc is not None and e.name == "flush", max_paths=60000)
        ctx.need(any(called(p, "flush") for p in ps) and any(taken(p) for p in ps), f"{cls}.worker is not recognised")
        for p in ps:
            if p.kind == "raise":
                e = next((x for x in p.trace if p.value is not None and p.value[0] == "exc" and x.uid == p.value[1]), None)
                if e is not None and e.name == "flush":
                    ctx.bad(f"worker:dies({cls})", e.where(), "a request that fails ends the worker: no later update is sent", p)
                continue
            got, out = taken(p), sent(p)
            ctx.need(out is not None, f"{cls}.worker: what is sent is not told exactly")
            want = [("res", e.uid) for e, end in got if end is not True]
            ctx.check(all(end is not None for e, end in got) , f"worker:end-marker({cls})", f.loc(), "an item is not told from the end marker", p)
            marks = [("res", e.uid) for e, end in got if end is True]
            ctx.check(not set(marks) & set(out), f"worker:sends-marker({cls})", f.loc(), "the end marker is sent as if it were an update", p)
            if set(marks) & set(out):
                continue
            if p.kind == "return":
                ctx.check(out == want, f"worker:all-sent({cls})", f.loc(), f"the worker ends having taken {len(want)} updates and sent {len(out)}: updates are lost, repeated or out of order", p)
                ctx.count("worker endings")
            else:
                ctx.check(out == want[:len(out)], f"worker:order({cls})", f.loc(), "the updates sent are not the ones taken off the queue, in order and once", p)
                # a batch that is due is sent before the next item is awaited
                due(ctx, cls, f, p)
            if marks:
                i = max(i for i, e in enumerate(p.trace) if ("res", e.uid) in marks)
                ctx.check(p.kind == "return" and not any(e.name in GETS for e in p.trace[i + 1:]), f"worker:ends({cls})", f.loc(), "the worker goes on after the end marker", p)


def due(ctx, cls, f, p):
    """After a timeout with something pending, the batch is sent, or its interval has not passed."""
    pend, n = [], 0
    tr = [e for e in p.trace if e.kind in CALLS_ and e.name in GETS + ("flush",)]
    for i, e in enumerate(tr):
        if e.name == "flush":
            pend = []
        elif e.outcome == "raise":
            nxt = tr[i + 1] if i + 1 < len(tr) else None
            if pend and nxt is not None and nxt.name != "flush":
                at = next(j for j, x in enumerate(p.trace) if x is e)
                now = {("res", x.uid) for x in p.trace[at:] if x.kind == "call" and x.name in ("time", "monotonic", "perf_counter")}
                early = [k for k, v in p.facts.items() if k[0] == "lt" and any(mentions(x, at_(SELFT, "flush_interval")) for x in k[1:]) and any(s in now for x in k[1:] for s in subterms(x))]
                ctx.check(bool(early), f"worker:due({cls})", f.loc(), "updates whose interval has passed stay unsent", p)
        elif e.name != "get" or cls == CLIENTS[0]:
            pend.append(e)
    # a full batch
    for k, v in p.facts.items():
        full = k[0] == "lt" and (v is False and mentions(k[2], at_(SELFT, "max_batch_size")) or v is True and mentions(k[1], at_(SELFT, "max_batch_size")))
        if full and tr and tr[-1].name != "flush" and not any(x.name == "flush" for x in tr):
            ctx.bad(f"worker:full({cls})", f.loc(), "a full batch is not sent", p)


CALLS_ = ("call", "callv", "new")


def stop(ctx):
    ctx.rule("(stop) stopping the client tells the worker to end, waits for it, and then sends everything still in the queue, each update once, passing over the end marker.")
    c, f = find(ctx, CL + CLIENTS[0], "stop")
    ps = paths(ctx, f, c, unroll=3, opaque=["flush", "get_nowait", "get", "empty", "join"], raises=lambda e: e.name in ("get_nowait", "get"))
    ctx.need(any(taken(p) for p in ps), "stop does not read the queue")
    for p in ps:
        got, out = taken(p), sent(p)
        ctx.need(out is not None, "stop: what is sent is not told exactly")
        if p.kind == "raise":
            continue
        marks = [("res", e.uid) for e, end in got if end is True]
        ctx.check(all(end is not None for e, end in got), "stop:marker", f.loc(), "the end marker in the queue is sent as if it were an update, and what follows is lost", p)
        want = [("res", e.uid) for e, end in got if end is False]
        ctx.check(out == (want if p.kind == "return" else want[:len(out)]) or any(end is None for e, end in got), "stop:all", f.loc(), "an update left in the queue is not sent, or twice", p)
        joins = [i for i, e in enumerate(p.trace) if e.name == "join"]
        offs = [i for i, e in enumerate(p.trace) if e.kind == "setattr" and e.name == "running" and e.recv == SELFT and e.args[0] == FALSE] + [i for i, e in enumerate(p.trace) if e.kind == "call" and e.name == "put" and e.args[:1] == (NONE,)]
        first = min([i for i, e in enumerate(p.trace) if e.name in GETS + ("flush",)], default=len(p.trace))
        ctx.check(bool(joins) and bool(offs) and min(offs) < joins[0] < first, "stop:waits", f.loc(), "the worker is not told to end and waited for before the rest of the queue is sent", p)
        if p.kind == "return":
            # it leaves only when the queue is empty
            why = [k for k, v in p.facts.items() if k[0] == "truthy" and v and k[1][0] == "res" and "empty" in str(k[1][1])]
            last = [e for e in p.trace if e.name in GETS]
            ctx.check(bool(why) or bool(last) and last[-1].outcome == "raise", "stop:drained", f.loc(), "stop ends with updates still in the queue", p)


def A_(n, v):
    return D({"node_name": const(n), "name": V(v)})


def U_(n, **kw):
    return D({"node_name": const(n), **{k: V(v) for k, v in kw.items()}})


def fr(t):
    """Normal form of a known list of known dicts."""
    xs = items(t)
    return None if xs is None else [entries(x) for x in xs]


def E_(**kw):
    return {const(k): (const(v) if k == "node_name" else V(v)) for k, v in kw.items()}


BATCH = L(
    D({"dag_run_id": const(1), "attributes": L(A_("x", "x1"), NONE, A_("w", "w1")), "task_updates": L(U_("x", status="s1", start="t1"))}),
    D({"dag_run_id": const(2), "attributes": L(A_("x", "y1")), "task_updates": L(U_("x", status="o1"))}),
    D({"dag_run_id": const(1), "attributes": L(A_("x", "x2"), A_("z", "z1")), "task_updates": L(U_("x", status="s2"), NONE, U_("z", status="q1"))}),
)
WANT = {
    1: ([E_(node_name="x", name="x1"), E_(node_name="w", name="w1"), E_(node_name="x", name="x2"), E_(node_name="z", name="z1")], [E_(node_name="x", status="s2", start="t1"), E_(node_name="z", status="q1")]),
    2: ([E_(node_name="x", name="y1")], [E_(node_name="x", status="o1")]),
}


def same(a, b):
    return a is not None and None not in a and sorted(map(repr, [sorted(x.items(), key=repr) for x in a])) == sorted(map(repr, [sorted(x.items(), key=repr) for x in b]))


def flush(ctx):
    ctx.rule("(flush) a batch of updates of two runs is sent as one request per run, addressed to that run and holding all of its attributes in order and, per node, its updates merged with the later one winning; "
             "nothing of another run, nothing left out for sampling; and a request that fails for one run does not keep the others from being sent.")
    f = ctx.ix.func(CL + "create_batch")
    for rid in (1, 2):
        for p in paths(ctx, f, bind={"batch": BATCH, "dag_run_id": const(rid)}):
            ctx.check(p.kind == "return", "batch:fails", f.loc(), "putting a batch together fails", p)
            if p.kind != "return":
                continue
            xs = items(p.value)
            ctx.need(xs is not None and len(xs) == 2, "create_batch's result is not recognised")
            ctx.need(fr(xs[0]) is not None and fr(xs[1]) is not None, "create_batch's lists are not told exactly")
            ctx.check(same(fr(xs[0]), WANT[rid][0]), f"batch:attributes({rid})", f.loc(), "the attributes sent for a run are not exactly those reported for it", p)
            ctx.check([x for x in fr(xs[0]) if x and x.get(const("node_name")) == const("x")] == [x for x in WANT[rid][0] if x[const("node_name")] == const("x")], f"batch:attribute-order({rid})", f.loc(), "the attributes of a node are not sent in the order they were reported", p)
            ctx.check(same(fr(xs[1]), WANT[rid][1]), f"batch:updates({rid})", f.loc(), "the updates sent for a run are not, per node, those reported for it with the later winning", p)
    for cls in CLIENTS:
        c, f = find(ctx, CL + cls, "flush")
        ps = paths(ctx, f, c, bind={"batch": BATCH}, opaque=["make_json_safe"])
        for p in ps:
            puts = called(p, "put")
            ctx.check(p.kind == "return" and len(puts) == 2, f"flush:one-each({cls})", f.loc(), f"a batch of two runs is sent in {len(puts)} requests", p)
            for e in puts:
                url = e.arg("url", 0)
                rids = [n for n in (1, 2) if url is not None and const(n) in subterms(url)]
                ctx.check(len(rids) == 1, f"flush:address({cls})", e.where(), "a request is not addressed to a run", p)
                j = e.kwargs.get("json")
                ctx.check(j is not None, f"flush:body({cls})", e.where(), "a request is made without the updates", p)
                if j is None:
                    continue
                body = entries(j) if j is not None else None
                ctx.need(body is not None, f"{cls}.flush: the request's body is not told exactly")
                for r in rids:
                    for key, w in (("attributes", WANT[r][0]), ("task_updates", WANT[r][1])):
                        t = body.get(const(key))
                        mk = next((x for x in p.trace if x.name == "make_json_safe" and t == ("res", x.uid)), None)
                        t = mk.args[0] if mk is not None else t
                        ctx.check(t is not None and same(fr(t), w), f"flush:{key}({cls})", e.where(), f"the {key} of a run's request are not those of the run", p)
                        ctx.check(mk is not None, f"flush:json({cls})", e.where(), "values that cannot be written as JSON are sent as they are", p)
                h = e.kwargs.get("headers")
                ctx.check(h is not None and entries(h) == {const("x-api-user"): at_(SELFT, "username"), const("x-api-key"): at_(SELFT, "api_key")}, f"flush:auth({cls})", e.where(), "the request is not made as the user", p)
            us = [n for e in puts for n in (1, 2) if const(n) in subterms(e.arg("url", 0) or NONE)]
            ctx.check(sorted(us) == [1, 2], f"flush:both({cls})", f.loc(), "a run's updates are not sent", p)
        # a failure for one run leaves the others alone
        wide, http = (REQUEST, ("HTTPError",)) if cls == CLIENTS[0] else (AIO, ("ClientResponseError",))
        for p in paths(ctx, f, c, bind={"batch": BATCH}, opaque=["make_json_safe"], raises=lambda e: e.name in ("put", "raise_for_status")):
            if p.kind == "raise":
                ctx.check(not lets_out(p, wide, http) or len(called(p, "put")) == 2, f"flush:isolated({cls})", f.loc(), "a request that fails for one run keeps another run's updates from being sent", p)
            else:
                ctx.check(len(called(p, "put")) == 2, f"flush:isolated({cls})", f.loc(), "a request that fails for one run keeps another run's updates from being sent", p)


def update(ctx):
    ctx.rule("(update) every update reported is queued once, under its run, with its attributes and task updates in order; the synchronous client leaves out exactly those outside the sample.")
    for cls in CLIENTS:
        c, f = find(ctx, CL + cls, "update_tasks")
        for label, ins, keep in (("all", NONE, (1, 1)), ("sampled", L(TRUE, TRUE), (1, 1)), ("second out", L(TRUE, FALSE), (1, 0)), ("first out", L(FALSE, TRUE), (0, 1)), ("none", L(FALSE, FALSE), (0, 0))):
            if cls == CLIENTS[1] and 0 in keep:
                continue
            ps = paths(ctx, f, c, bind={"dag_run_id": V("run"), "attributes": L(V("a0"), V("a1")), "task_updates": L(V("u0"), V("u1")), "in_samples": ins})
            for p in ps:
                puts = [e for e in called(p, "put", "put_nowait") if of_queue(e.recv)]
                ctx.check(p.kind == "return" and len(puts) == 1, f"update:queued({cls}, {label})", f.loc(), f"an update is queued {len(puts)} times", p)
                for e in puts:
                    it = entries(e.args[0]) if e.args else None
                    ctx.need(it is not None, f"{cls}.update_tasks: what is queued is not told exactly")
                    ctx.check(it.get(const("dag_run_id")) == V("run"), f"update:run({cls})", e.where(), "an update is queued for another run", p)
                    for key, v in (("attributes", "a"), ("task_updates", "u")):
                        xs = items(it.get(const(key))) if it.get(const(key)) is not None else None
                        ctx.need(xs is not None, f"{cls}.update_tasks: the {key} queued are not told exactly")
                        ctx.check([x for x in xs if x != NONE] == [V(f"{v}{i}") for i in (0, 1) if keep[i]], f"update:{key}({cls}, {label})", e.where(), f"{label}: the {key} queued are not those in the sample, in order", p)


def client(ctx):
    ctx.rule("(client) a template that the server knows is used and not made again, one it does not know is made once from what was given; a run is started once for its template, with its inputs, outputs and tags, as RUNNING, and the id given back is the server's; "
             "the end of a run is reported once, to that run, with the status given; and a refused request is an error to the caller.")
    for cls in CLIENTS:
        wide, http = (REQUEST, ("HTTPError",)) if cls == CLIENTS[0] else (AIO, ("ClientResponseError",))
        c, f = find(ctx, CL + cls, "register_dag_template_if_not_exists")
        for p in paths(ctx, f, c, opaque=["make_json_safe", "raise_for_status", "json", "get"]):
            if p.kind != "return":
                continue
            gets, posts = called(p, "get"), called(p, "post")
            js = called(p, "json")
            ctx.check(len(gets) == 1, f"template:asked({cls})", f.loc(), "the server is not asked (once) for the template", p)
            for e in gets:
                u = e.arg("url", 0)
                ctx.check(u is not None and all(mentions(u, P(n)) or any(("res", x.uid) in subterms(u) and any(mentions(a, P(n)) for a in x.args) for x in p.trace if x.kind in CALLS_) for n in ("dag_hash", "code_hash", "project_id", "name")), f"template:query({cls})", e.where(), "the template asked for is not the one with this project, name, graph and code", p)
            known = next((not v for k, v in p.facts.items() if k[0] == "isnone" and js and k[1] == ("res", js[0].uid)), None)
            ctx.need(known is not None or not js, f"{cls}: the answer is not tested")
            ctx.check(len(posts) == (0 if known else 1), f"template:made({cls})", f.loc(), "a template the server knows is made again" if known else "a template the server does not know is not made, or more than once", p)
            src = js[0] if known else (js[1] if len(js) > 1 else None)
            ctx.check(src is not None and p.value == ("item", ("res", src.uid), const("id")), f"template:id({cls})", f.loc(), "the id given back is not the server's", p)
            for e in posts:
                b = entries(e.kwargs.get("json")) if e.kwargs.get("json") is not None else None
                ctx.need(b is not None, f"{cls}: the template's body is not told exactly")
                for key, prm in (("name", "name"), ("dag_hash", "dag_hash"), ("code_hash", "code_hash"), ("nodes", "nodes"), ("code_artifacts", "code_artifacts"), ("config", "config"), ("tags", "tags")):
                    t = b.get(const(key))
                    mk = next((x for x in p.trace if x.name == "make_json_safe" and t == ("res", x.uid)), None)
                    ctx.check(t == P(prm) or mk is not None and mk.args[0] == P(prm), f"template:{key}({cls})", e.where(), f"the template is made with another {key}", p)
                ctx.check(mentions(e.arg("url", 0), P("project_id")), f"template:project({cls})", e.where(), "the template is made in another project", p)
        c, f = find(ctx, CL + cls, "create_and_start_dag_run")
        for p in paths(ctx, f, c, opaque=["make_json_safe", "raise_for_status", "json", "get"]):
            if p.kind != "return":
                continue
            posts, js = called(p, "post"), called(p, "json")
            ctx.check(len(posts) == 1, f"run:once({cls})", f.loc(), "a run is not started, or more than once", p)
            ctx.check(len(js) == 1 and p.value == ("item", ("res", js[0].uid), const("id")), f"run:id({cls})", f.loc(), "the id given back is not the server's", p)
            for e in posts:
                ctx.check(mentions(e.arg("url", 0), P("dag_template_id")), f"run:template({cls})", e.where(), "the run is not started for its template", p)
                b = body(p, e.kwargs.get("json"))
                ctx.need(b is not None, f"{cls}: the run's body is not told exactly")
                ctx.check(b.get("run_status") == const("RUNNING"), f"run:status({cls})", e.where(), "a run that starts is not reported as RUNNING", p)
                for k in ("tags", "inputs", "outputs"):
                    ctx.check(b.get(k) == P(k), f"run:{k}({cls})", e.where(), f"the {k} of the run are not the ones given", p)
        c, f = find(ctx, CL + cls, "log_dag_run_end")
        for p in paths(ctx, f, c, opaque=["make_json_safe", "raise_for_status", "json", "get"]):
            if p.kind != "return":
                continue
            puts = called(p, "put")
            ctx.check(len(puts) == 1, f"end:once({cls})", f.loc(), "the end of a run is not reported, or more than once", p)
            for e in puts:
                ctx.check(mentions(e.arg("url", 0), P("dag_run_id")), f"end:run({cls})", e.where(), "the end is reported for another run", p)
                b = body(p, e.kwargs.get("json"))
                ctx.need(b is not None, f"{cls}: the end's body is not told exactly")
                ctx.check(b.get("run_status") == P("status"), f"end:status({cls})", e.where(), "the end is reported with another status", p)
        for name in ("register_dag_template_if_not_exists", "create_and_start_dag_run", "log_dag_run_end", "validate_auth", "project_exists"):
            c, f = find(ctx, CL + cls, name)
            for p in paths(ctx, f, c, opaque=["make_json_safe", "raise_for_status", "json", "get"], raises=lambda e: e.name == "raise_for_status"):
                bad = [e for e in p.trace if e.name == "raise_for_status" and e.outcome == "raise"]
                if bad:
                    ctx.check(p.kind == "raise", f"{name}:refused({cls})", bad[0].where(), "a request the server refuses is taken for done", p)
                elif p.kind == "return":
                    n = len(called(p, "get", "post", "put"))
                    ctx.check(len(called(p, "raise_for_status")) == n, f"{name}:unchecked({cls})", f.loc(), "a request the server refuses is taken for done", p)


def credentials(ctx):
    ctx.rule("(credentials) every request of a client carries the user's name and key, and is made with the certificate check the client was set up with.")
    for cls, opt in zip(CLIENTS, ("verify", "ssl")):
        c = ctx.ix.cls(CL + cls)
        ctx.need(c is not None, f"{cls} is gone")
        n = 0
        for name, f in sorted(c.methods.items()):
            if not any(isinstance(x, ast.Attribute) and x.attr in ("get", "post", "put", "head", "delete", "patch", "request") for x in ast.walk(f.node)):
                continue
            for p in paths(ctx, f, c, opaque=["make_json_safe", "raise_for_status", "json", "create_batch", "slurp_code", "get"]):
                for e in p.trace:
                    if e.kind not in CALLS_ or e.name not in ("get", "post", "put", "head", "delete", "patch", "request"):
                        continue
                    if not (e.qual or "").startswith("requests.") and not (e.recv is not None and "ClientSession" in tstr(e.recv)):
                        continue
                    made = next((x for x in p.trace if x.name == "ClientSession" and ("res", x.uid) in subterms(e.recv)), None) if e.recv is not None else None
                    n += 1
                    if e.spreads:
                        continue
                    h = e.kwargs.get("headers") or (made.kwargs.get("headers") if made is not None else None)
                    ctx.check(h is not None and mentions(h, at_(SELFT, "api_key")) and mentions(h, at_(SELFT, "username")), f"credentials:{name}({cls})", e.where(), "a request is made without the user's name and key", p)
                    v = e.kwargs.get(opt)
                    if v is None and made is not None and made.kwargs.get("connector") is not None:
                        continue
                    ctx.check(v == at_(SELFT, opt), f"certificate:{name}({cls})", e.where(), f"a request is made with {'no' if v is None else 'another'} certificate check than the one the client was set up with", p)
        ctx.need(n >= 6, f"{cls}: requests not recognised")


def body(p, t):
    """A request's body as {key: value}, seen through make_json_safe."""
    def un(x):
        for e in p.trace:
            if e.name == "make_json_safe" and x == ("res", e.uid):
                return un(e.args[0])
        return x
    if t is None:
        return None
    b = entries(un(t))
    return None if b is None else {k[1]: un(v) for k, v in b.items() if is_const(k)}


def nodes(ctx):
    ctx.rule("(node) when a node starts, the tracker reports it once, to the run of the execution it belongs to, as RUNNING under its own task; when it ends it reports it again under the same name, SUCCESS exactly when it succeeded, "
             "with its start time and end time, its summary, schema and other results or its error, one sampling flag per entry; and the record kept meanwhile belongs to that run, node and task alone.")
    key = {}
    for cls in TRACKERS:
        c, f = find(ctx, AD + cls, "pre_node_execute")
        for p in paths(ctx, f, c, opaque=["is_in_sample"]):
            if p.kind != "return":
                continue
            task = p.facts.get(("isnone", P("task_id")))
            ev = one_update(ctx, cls, f, p, "start")
            if ev is None:
                continue
            ups = fr(ev.kwargs.get("task_updates") or ev.arg("task_updates", 2))
            ctx.need(ups is not None and len(ups) == 1 and ups[0] is not None, f"{cls}: the update is not told exactly")
            u = {k[1]: v for k, v in ups[0].items()}
            who(ctx, cls, f, p, ev, u, task)
            ctx.check(u.get("status") == stat("RUNNING"), f"start:status({cls})", ev.where(), "a node that starts is not reported as RUNNING", p)
            kept = [e for e in p.trace if e.kind == "setitem" and e.recv == ("item", at_(SELFT, "task_runs"), P("run_id"))]
            ctx.check(len(kept) == 1, f"start:kept({cls})", f.loc(), "the record of a node that runs is not kept for its end, in its run", p)
            for e in kept:
                ctx.check(task is not False or mentions(e.args[0], P("task_id")), f"start:own-record({cls})", e.where(), "the record of a node in one task is overwritten by the same node in another", p)
                ctx.check(mentions(e.args[0], at_(P("node_"), "name")), f"start:own-node({cls})", e.where(), "the record of a node is kept for another", p)
                key[cls, task] = (e.args[0], u.get("node_name"))
                ctx.check(any(x.kind == "new" and x.name == "TaskRun" for x in p.trace), f"start:fresh({cls})", e.where(), "a node that starts is not given a record of its own", p)
            smp = items(ev.kwargs.get("in_samples") or NONE)
            ctx.need(smp is not None or cls == TRACKERS[1], f"{cls}: the sampling of the update is not told exactly")
            if cls == TRACKERS[0]:
                att = items(ev.kwargs.get("attributes") or NONE)
                ctx.check(att is not None and len(att) == len(smp) == 1, f"start:one-to-one({cls})", ev.where(), "updates, attributes and sampling flags do not go together", p)
                s = called(p, "is_in_sample")
                ctx.check(bool(s) and all(x == ("res", s[0].uid) for x in smp) and s[0].arg("task_id", 0) == P("task_id"), f"start:sampled({cls})", ev.where(), "whether the node is reported is not what the sampling says of its task", p)
        summary, schema, extra = (D({"observability_type": V(n + "t"), "observability_schema_version": const("0.0.3"), "observability_value": V(n + "v"), **({"name": V("xn")} if n == "x" else {})}) for n in "sex")
        for label, res in (("full", T(summary, schema, L(extra))), ("summary only", T(summary, NONE, L())), ("nothing", T(NONE, NONE, L()))):
            c, f = find(ctx, AD + cls, "post_node_execute")
            for p in paths(ctx, f, c, returns=lambda e: res if e.name == "process_result" else None):
                if p.kind != "return":
                    continue
                bad = failed(p)
                ctx.check(bad is not None, f"end:depends({cls})", f.loc(), "a node that fails is reported like one that succeeds", p)
                if bad is None:
                    continue
                task = p.facts.get(("isnone", P("task_id")))
                ev = one_update(ctx, cls, f, p, "end")
                if ev is None:
                    continue
                ups, att = fr(ev.kwargs.get("task_updates") or NONE), fr(ev.kwargs.get("attributes") or NONE)
                smp = items(ev.kwargs.get("in_samples") or NONE)
                ctx.need(ups and att is not None and None not in ups and None not in att and smp is not None, f"{cls}: the update is not told exactly")
                for u in ups:
                    u = {k[1]: v for k, v in u.items()}
                    who(ctx, cls, f, p, ev, u, task)
                    ctx.check(u.get("status") == stat("FAILURE" if bad else "SUCCESS"), f"end:status({cls})", ev.where(), f"a node that {'failed' if bad else 'succeeded'} is reported as {tstr(u.get('status') or NONE)}", p)
                    rec = ("item", ("item", at_(SELFT, "task_runs"), P("run_id")), key.get((cls, task), NO)[0])
                    ctx.check(u.get("node_name") == key.get((cls, task), NO)[1], f"end:same-name({cls})", ev.where(), "the end of a node is reported under another name than its start", p)
                    ctx.check(u.get("start_time") == at_(rec, "start_time"), f"end:own-record({cls})", ev.where(), "the start time reported is not that of this node in this task of this run", p)
                    ctx.check(is_now(p, u.get("end_time")), f"end:time({cls})", ev.where(), "a node that ended has no end time", p)
                ctx.check(len(ups) == len(att) == len(smp), f"end:one-to-one({cls})", ev.where(), "updates, attributes and sampling flags do not go together", p)
                if bad:
                    ctx.check(cls == TRACKERS[1] or all(x == TRUE for x in smp), f"end:failure-sampled({cls})", ev.where(), "a failure outside the sample is not reported", p)
                got = [({k[1]: v for k, v in a.items()}) for a in att]
                names_ = [p_role(a) for a in got]
                if bad:
                    dq = [v for k, v in p.facts.items() if k[0] == "isinstance" and k[1] == P("error") and tstr(k[2]).rsplit(".", 1)[-1].strip("')") == "DataValidationError"]
                    own = bool(called(p, "serialize_data_quality_error"))
                    ctx.check(not own or dq == [True], f"end:error-kind({cls})", ev.where(), "an error that is not a failed validation is reported as one, and lost", p)
                    ctx.check(names_ == ["error"] and derives_error(p, got[0]), f"end:error({cls})", ev.where(), "a node that failed is reported without its error", p)
                else:
                    vals = [a.get("value") for a in got]
                    if label == "nothing":
                        ctx.check(len(got) == 1, f"end:summary({cls}, nothing)", ev.where(), "a node whose result could not be summarised is not reported as such", p)
                    else:
                        ctx.check(vals == [V("sv")] + ([V("ev"), V("xv")] if label == "full" else []), f"end:results({cls}, {label})", ev.where(), "the summary, schema and other results are not all reported, the summary first", p)
                        ctx.check([a.get("type") for a in got] == [V("st")] + ([V("et"), V("xt")] if label == "full" else []), f"end:types({cls}, {label})", ev.where(), "a result is reported as another type", p)
                    ctx.check(len({repr(a.get("name")) for a in got}) == len(got), f"end:names({cls}, {label})", ev.where(), "two results are reported under one name", p)
                    pr = called(p, "process_result")
                    ctx.check(all(e.args[:1] == (P("result"),) for e in pr), f"end:own-result({cls})", f.loc(), "what is summarised is not the node's result", p)
                for a in got:
                    ctx.check(all(a.get("node_name") == u.get(const("node_name")) for u in ups), f"end:attribute-node({cls})", ev.where(), "a result is reported for another node or task", p)


NO = (None, None)


def p_role(a):
    r = a.get("attribute_role")
    return r[1] if r is not None and is_const(r) else None


def derives_error(p, a):
    st = {P("error")}
    uid = {("res", e.uid) for e in p.trace if e.kind in CALLS_ and any(mentions(x, P("error")) for x in e.args)}
    return any(s in st or s in uid for s in subterms(a.get("value") or NONE))


def is_now(p, t):
    return t is not None and any(e.name in ("now", "utcnow") and t == ("res", e.uid) for e in p.trace)


def stat(n):
    return ("global", STATUS + n)


def who(ctx, cls, f, p, ev, u, task):
    ctx.check(u.get("node_template_name") == at_(P("node_"), "name"), f"update:template({cls})", ev.where(), "an update is reported for another node", p)
    n = u.get("node_name")
    ok = n is not None and mentions(n, at_(P("node_"), "name")) and (task is not False or mentions(n, P("task_id"))) or n == at_(P("node_"), "name") and task is True
    ctx.check(ok, f"update:task({cls})", ev.where(), "the same node in two tasks of a run is reported under one name", p)
    ctx.check(mentions(u.get("realized_dependencies") or NONE, at_(P("node_"), "dependencies")), f"update:dependencies({cls})", ev.where(), "the dependencies reported are not the node's", p)


def one_update(ctx, cls, f, p, what):
    for e in called(p, "update_task"):
        ctx.check(mentions(e.arg("task_name", 0) or NONE, at_(P("node_"), "name")) and (e.arg("task_name", 0) or NONE)[0] in ("attr", "fstr", "op", "res") and (e.arg("task_run", 1) or NONE)[0] not in ("attr", "fstr", "op", "const"), f"{what}:record-name({cls})", e.where(), "the record of a node is kept under something other than its name", p)
    us = called(p, "update_tasks")
    ctx.check(len(us) == 1, f"{what}:once({cls})", f.loc(), f"a node's {what} is reported {len(us)} times", p)
    if len(us) != 1:
        return None
    e = us[0]
    ctx.check((e.kwargs.get("dag_run_id") or e.arg("dag_run_id", 0)) == ("item", at_(SELFT, "dw_run_ids"), P("run_id")), f"{what}:run({cls})", e.where(), "an update is reported to another run", p)
    return e


def runs(ctx):
    ctx.rule("(run) an execution is reported as one run of its own graph's template, with its inputs and the variables asked for; its id is kept under that execution alone; and its end is reported once, to it, SUCCESS exactly when it succeeded.")
    ts = ctx.ix.cls("hamilton_sdk.tracking.runs.TrackingState")
    for cls in TRACKERS:
        c, f = find(ctx, AD + cls, "pre_graph_execute")
        ps = paths(ctx, f, c)
        ctx.need(any(p.kind == "return" for p in ps), f"{cls}.pre_graph_execute never returns")
        for p in ps:
            if p.kind != "return":
                continue
            cs = called(p, "create_and_start_dag_run")
            ctx.check(len(cs) == 1, f"run:created({cls})", f.loc(), "an execution is not reported as one run", p)
            if len(cs) != 1:
                continue
            e = cs[0]
            t = e.arg("dag_template_id", 0)
            ctx.check(t is not None and mentions(t, at_(SELFT, "dag_template_id_cache")) and mentions(t, P("graph")), f"run:template({cls})", e.where(), "the run is not one of its own graph's template", p)
            ctx.check(e.arg("outputs", 3) == P("final_vars"), f"run:outputs({cls})", e.where(), "the variables asked for are not reported", p)
            i = e.arg("inputs", 2)
            none = p.facts.get(("isnone", P("inputs")))
            ctx.check(i == P("inputs") or none and entries(i) == {} or i is not None and mentions(i, P("inputs")), f"run:inputs({cls})", e.where(), "the inputs reported are not the execution's", p)
            ctx.check(e.arg("tags", 1) == at_(SELFT, "base_tags"), f"run:tags({cls})", e.where(), "the run does not get the tags given", p)
            for a, want in (("dw_run_ids", ("res", e.uid)), ("tracking_states", None), ("task_runs", None)):
                sets = [x for x in p.trace if x.kind == "setitem" and x.recv == at_(SELFT, a)]
                ctx.check(len(sets) == 1 and sets[0].args[0] == P("run_id") and (want is None or sets[0].args[1] == want), f"run:{a}({cls})", f.loc(), f"{a} of the execution is not kept under it alone", p)
                if a == "task_runs" and len(sets) == 1:
                    ctx.check(entries(sets[0].args[1]) == {}, f"run:records({cls})", sets[0].where(), "the records of an execution start with those of another", p)
        c, f = find(ctx, AD + cls, "post_graph_execute")
        st = V("state")
        ps = paths(ctx, f, c, bind={"run_id": const("r")}, attrs={(SELFT, "tracking_states"): D({"r": st}), (SELFT, "dw_run_ids"): D({"r": V("dw")})}, types={st: ts}, inline_modules=[f.module.name, "hamilton_sdk.tracking.runs"])
        ctx.need(any(p.kind == "return" for p in ps), f"{cls}.post_graph_execute never returns")
        for p in ps:
            ends = called(p, "log_dag_run_end")
            bad = failed(p)
            ctx.check(p.kind == "return" and len(ends) == 1, f"end:reported({cls})", f.loc(), "the end of an execution is not reported (once)", p)
            ctx.check(bad is not None, f"end:run-depends({cls})", f.loc(), "an execution that fails is reported like one that succeeds", p)
            for e in ends:
                ctx.check(e.arg("dag_run_id", 0) == V("dw"), f"end:own-run({cls})", e.where(), "the end is reported to another run", p)
                s = e.arg("status", 1)
                want = "FAILURE" if bad else "SUCCESS"
                ctx.check(s in (at_(stat(want), "value"), ("global", STATUS + want + ".value"), const(want)), f"end:run-status({cls})", e.where(), f"an execution that {'failed' if bad else 'succeeded'} is reported as {tstr(s) if s else None}", p)


def template(ctx):
    ctx.rule("(template) a graph is registered once per tracker, from its own hashes, nodes, code, config and tags, and the id kept under that graph.")
    for cls in TRACKERS:
        c, f = find(ctx, AD + cls, "post_graph_construct")
        for p in paths(ctx, f, c):
            if p.kind != "return":
                continue
            rs = called(p, "register_dag_template_if_not_exists")
            sets = [x for x in p.trace if x.kind == "setitem" and x.recv == at_(SELFT, "dag_template_id_cache")]
            seen = next((v for k, v in p.facts.items() if k[0] == "in" and mentions(k[2], at_(SELFT, "dag_template_id_cache"))), None)
            if seen:
                ctx.check(not rs, f"template:again({cls})", f.loc(), "a graph is registered again", p)
                continue
            ctx.check(len(rs) == 1 and len(sets) == 1 and mentions(sets[0].args[0], P("graph")) and sets[0].args[1] == ("res", rs[0].uid), f"template:kept({cls})", f.loc(), "the id the server gives a graph is not kept under that graph", p)
            for e in rs:
                for k, fn in (("dag_hash", "hash_dag"), ("code_hash", "hash_dag_modules"), ("nodes", "_extract_node_templates_from_function_graph"), ("code", "_slurp_code")):
                    t = e.kwargs.get(k)
                    src = next((x for x in p.trace if x.name == fn and t == ("res", x.uid)), None)
                    ctx.check(src is not None and src.args[:1] == (P("graph"),), f"template:{k}({cls})", e.where(), f"the {k} registered is not the graph's", p)
                ctx.check(e.kwargs.get("config") == at_(P("graph"), "config") and e.kwargs.get("tags") == at_(SELFT, "base_tags") and e.kwargs.get("name") == at_(SELFT, "dag_name") and e.kwargs.get("project_id") == at_(SELFT, "project_id"), f"template:config({cls})", e.where(), "the config, tags, name or project registered are not the graph's and the tracker's", p)


def observe(ctx):
    ctx.rule("(observe) summarising a result never makes the execution fail: whatever the statistics, schema or other results raise is kept from the caller, and one of them failing leaves the others.")
    f = ctx.ix.func("hamilton_sdk.tracking.runs.process_result")
    ns = ("compute_stats", "compute_schema", "compute_additional_results")
    for p in paths(ctx, f, opaque=list(ns), raises=lambda e: e.name in ns):
        ctx.check(p.kind == "return", "observe:contained", f.loc(), "a result that cannot be summarised fails the node", p)
        if p.kind != "return":
            continue
        xs = items(p.value)
        ctx.need(xs is not None and len(xs) == 3, "process_result's value is not recognised")
        for i, n in enumerate(ns):
            es = called(p, n)
            if i:
                ctx.check(len(es) == 1, f"observe:asked({n})", f.loc(), f"{n} is not asked because another failed", p)
            for e in es:
                ctx.check(e.args[:1] == (P("result"),), f"observe:own({n})", e.where(), "another result is summarised", p)
                if e.outcome != "raise" and i < 2:
                    ctx.check(xs[i] == ("res", e.uid), f"observe:given({n})", e.where(), f"what {n} found is not given back", p)
                elif e.outcome != "raise":
                    ctx.check(("res", e.uid) in subterms(xs[i]), f"observe:given({n})", e.where(), f"what {n} found is not given back", p)


PARTS = [("worker", worker), ("stop", stop), ("flush", flush), ("update", update), ("client", client), ("credentials", credentials), ("nodes", nodes), ("runs", runs), ("template", template), ("observe", observe)]
