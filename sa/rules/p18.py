"""P18: data quality checks run on the value they guard and act on what they find."""
from .common import *
from .p15 import FM, SELFT, canon, capture, facts, fields, guards_of

DQ = "hamilton.data_quality."
K = ("param", "KW")
LVL = DQ + "base.DataValidationLevel."
ALL = dict(keep=lambda e: True, keyfacts=lambda k: True)


def inst_of(t, e):
    return t is not None and t[0] == "inst" and ("ctor", e.uid) in t[1]


def is_ref(t, q):
    return t is not None and t[0] in ("ref", "name", "global") and q in t[1:] or t == ("const", q) or tstr(t) == q


def nm(x):
    """Name of the node built by event x, as written by code that asks the node itself."""
    return lambda t: t[0] == "attr" and t[2] == "name" and inst_of(t[1], x)


def decorators(ctx):
    ix = ctx.ix
    base = FM + "validation.BaseDataValidationDecorator"
    return [c for c in ix.subclasses_of(base) if c.module.name.startswith("hamilton")]


# ---------------------------------------------------------------- the nodes of a validated function

def same_name(t, ev):
    return t == ev_field(ev, "name") or nm(ev)(t)


def ev_field(e, n):
    v = fields(e).get(n)
    return v


def expansion(ctx, C):
    ix = ctx.ix
    f = ix.method(C, "transform_node")
    ps = ctx.paths(f, self_cls=C, inline_modules=[f.module.name], opaque=["get_validators"], raises="none", keyfacts=lambda k: True)
    return f, [p for p in ps if p.kind == "return"]


def node_param(f):
    a = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
    return ("param", a[1])


def nodes_part(ctx):
    ctx.rule("(nodes) A validated function becomes its raw node, one node per validator that validates the raw value with that validator, and a final node under the function's own name and type that depends on the raw node and on every validator node; all are part of the graph.")
    seen = set()
    n = 0
    for C in decorators(ctx):
        f = ctx.ix.method(C, "transform_node")
        if f.qual in seen:
            continue
        seen.add(f.qual)
        f, ps = expansion(ctx, C)
        ND = node_param(f)
        for p in ps:
            new = [e for e in p.trace if e.name in ("Node", "copy_with") and e.kind in ("new", "call") and "callabl" in fields(e)]
            gets = [e for e in p.trace if e.name == "get_validators"]
            ctx.need(len(gets) == 1, f"{f.qual}: validators are obtained {len(gets)} times")
            VS = ("res", gets[0].uid)
            ctx.check(gets[0].arg("node_to_validate", 0) == ND, "nodes:asks", gets[0].where(), "the validators are not asked for the node being validated", p)
            raw = [e for e in new if canon(ev_field(e, "callabl")) == ("attr", ND, "callable")]
            own = [e for e in new if e not in raw and ev_field(e, "name") in (("attr", ND, "name"), ("attr", ND, "_name"))]
            val = [e for e in new if e not in raw and e not in own]
            ctx.need(len(raw) == 1, f"{f.qual}: raw node not recognised")
            ctx.need(len(own) == 1, f"{f.qual}: final node not recognised")
            raw, own = raw[0], own[0]
            ctx.check(ev_field(raw, "name") not in (("attr", ND, "name"),), "nodes:raw-name", raw.where(), "the raw node has the validated node's own name", p)
            ctx.check(canon(ev_field(raw, "typ")) == ("attr", ND, "type"), "nodes:raw-type", raw.where(), "the raw node does not have the function's type", p)
            ctx.check(canon(ev_field(raw, "input_types")) == ("attr", ND, "input_types"), "nodes:raw-inputs", raw.where(), "the raw node does not have the function's inputs", p)
            ctx.check(canon(ev_field(own, "typ")) == ("attr", ND, "type"), "nodes:type", own.where(), "the final node does not have the function's type", p)
            for r in (raw, own):
                ctx.check(canon(ev_field(r, "tags") or NONE) == ("attr", ND, "tags"), "nodes:tags", r.where(), "the node does not keep the function's tags", p)
            has = p.facts.get(("truthy", VS))
            if has:
                n += 1
                ctx.check(len(val) == 1, "nodes:validator", f.loc(), "no node is made for a validator", p)
            names = []
            for e in val:
                over = [l for l in e.loops if mentions(l, VS)]
                ctx.check(len(over) == 1 and len(e.loops) == 1, "nodes:each", e.where(), "validator nodes are not made for each validator", p)
                v = ("elem", VS)
                cb = ev_field(e, "callabl")
                ctx.need(cb[0] in ("clos", "func", "partial"), f"{f.qual}: validator callable not recognised")
                it = ev_field(e, "input_types")
                ks = [r for r in it[1] if r[0] == "kv"] if it[0] == "dict" else []
                ctx.need(it[0] == "dict", f"{f.qual}: inputs of the validator node not recognised")
                good = len(it[1]) == 1 and len(ks) == 1 and same_name(ks[0][1], raw)
                ctx.check(good, "nodes:validator-inputs", e.where(), f"the validator node depends on {tstr(it)[:100]} rather than on the raw node", p)
                req = good and ks[0][2][0] == "tuple" and len(ks[0][2][1]) == 2 and tstr(ks[0][2][1][1][1]).endswith("DependencyType.REQUIRED")
                ctx.check(not good or req, "nodes:validator-required", e.where(), "the raw value is not required by the validator node", p)
                KR = ("dict", (("kv", ev_field(raw, "name"), ("param", "RAW"), ("L", ())),))
                for q in p.invoke(cb, spreads=(KR,), raises="none", pure=["next"], **ALL):
                    cs = [x for x in q.trace if x.name == "validate"]
                    ctx.need(q.kind == "return", "validator callable does not return")
                    ctx.check(len(cs) == 1, "nodes:validates", e.where(), f"the validator is called {len(cs)} times", q)
                    if len(cs) != 1:
                        continue
                    c = cs[0]
                    ctx.check(canon(c.recv) == v, "nodes:own-validator", c.where(), f"the validator node calls {tstr(c.recv)[:80]} rather than the validator it was made for", q)
                    a = c.args[0] if c.args else next(iter(c.kwargs.values()), None)
                    a = a and canon(a)
                    raws = (("param", "RAW"),)
                    if a is not None and a[0] == "pure" and a[1] == "next" and mentions(a, ("param", "RAW")):
                        a = ("param", "RAW")
                    if a not in raws and a is not None and a[0] == "item" and a[2] == const(0) and mentions(a[1], ("param", "RAW")):
                        a = ("param", "RAW")
                    if a is not None and a[0] in ("elem", "only", "item") and mentions(a, ("param", "RAW")) and (a[0] != "item" or same_name(a[2], raw)):
                        a = ("param", "RAW")
                    ctx.need(a in raws or a is not None and not mentions(a, ("param", "RAW")), f"{f.qual}: validated value {tstr(a)[:100]} not recognised")
                    ctx.check(a in raws, "nodes:validated-value", c.where(), "what is validated is not the raw value", q)
                    ctx.check(q.value == ("res", c.uid), "nodes:result", c.where(), "the validator node does not produce the validation result", q)
                names.append(ev_field(e, "name"))
                ctx.check(any(x.name == "name" and x.recv == v and mentions(ev_field(e, "name"), ("res", x.uid)) for x in p.trace), "nodes:validator-name", e.where(), "the validator node is not named after its validator", p)
            IT = ev_field(own, "input_types")
            ctx.need(IT[0] == "dict", f"{f.qual}: inputs of the final node not recognised")
            rs = [r for r in flatkv(IT)]
            onraw = [r for r in rs if r[0] == "kv" and same_name(r[1], raw)]
            ctx.check(len(onraw) == 1 and required(onraw[0]), "nodes:final-raw", own.where(), "the final node does not require the raw node", p)
            for e in val:
                on = [r for r in rs if r[0] == "kv" and (same_name(r[1], e) or r[1][0] == "attr" and r[1][2] == "name" and r[1][1][0] == "elem" and holds_inst(r[1][1][1], e))]
                ctx.check(len(on) == 1 and required(on[0]) and not guards_of(on[0]), "nodes:final-validator", own.where(), "the final node does not require every validator node", p)
            rv = p.value
            ctx.need(rv[0] in ("list", "tuple", "set"), f"{f.qual}: returned nodes not recognised")
            for e in [raw, own] + val:
                ctx.check(any(r[0] in ("e", "spread") and (inst_of(r[1], e) or holds_inst(r[1], e)) for r in rv[1]), "nodes:returned", e.where(), "a node of the validated function is not part of the graph", p)
    ctx.need(n >= 2, "validation expansion not recognised")


def flatkv(t):
    out = []
    for r in t[1]:
        if r[0] == "spread" and r[1][0] == "dict":
            out += flatkv(r[1])
        else:
            out.append(r)
    return out


def holds_inst(t, e):
    return t[0] in ("list", "tuple", "dict", "set") and any(r[0] in ("e", "kv") and inst_of(r[-2], e) for r in t[1])


def required(r):
    return r[2][0] == "tuple" and len(r[2][1]) == 2 and tstr(r[2][1][1][1]).endswith("DependencyType.REQUIRED")


def naming(ctx):
    ctx.rule("(names) Two validators whose own names coincide get validator nodes of different names.")
    C = ctx.ix.cls(FM + "validation.check_output_custom")
    f, ps = expansion(ctx, C)
    V = ("list", (("e", ("param", "V1"), ("L", ())), ("e", ("param", "V2"), ("L", ()))))
    # the name of the second node must not be a function of the validator's name alone
    for p in ps:
        for e in p.trace:
            if e.kind == "new" and e.name == "Node" and e.loops and "callabl" in fields(e):
                n = ev_field(e, "name")
                own = [x for x in p.trace if x.name == "name" and x.recv == ("elem", ("res", next(g.uid for g in p.trace if g.name == "get_validators")))]
                ctx.need(own, "validator node names not recognised")
                distinct = [k for k in p.facts if k[0] in ("lt", "eq", "in", "truthy") and mentions(k, ("res", own[0].uid))] or names_beyond(n, own[0])
                ctx.check(bool(distinct), "names:distinct", e.where(), "validator nodes are named after their validator alone: of two validators with the same name only one would be in the graph", p)


def names_beyond(n, ev):
    """Parts of a name that depend on which validator it is, other than through its name()."""
    if n[0] != "fstr":
        return []
    return [x for x in n[1:] if isinstance(x, tuple) and (any(s[0] in ("index", "pos", "elem", "count") for s in subterms(x)) and x != ("res", ev.uid))]


# ---------------------------------------------------------------- what the final node does with the results

def action(ctx):
    ctx.rule("(action) The final node reads the result of each validator under that validator node's own name, warns about it when its importance is WARN, and otherwise hands it to the failing action, before giving out the raw value.")
    seen = set()
    n = set()
    for C in decorators(ctx):
        f = ctx.ix.method(C, "transform_node")
        if f.qual in seen:
            continue
        seen.add(f.qual)
        f, ps = expansion(ctx, C)
        ND = node_param(f)
        for p in ps:
            VS = ("res", next(e for e in p.trace if e.name == "get_validators").uid)
            if not p.facts.get(("truthy", VS)):
                continue
            own = next(e for e in p.trace if e.name == "Node" and ev_field(e, "name") == ("attr", ND, "name"))
            raw = next(e for e in p.trace if e.name == "Node" and canon(ev_field(e, "callabl") or NONE) == ("attr", ND, "callable"))
            vn = [e for e in p.trace if e.name == "Node" and e is not own and e is not raw]
            ctx.need(len(vn) == 1, "validator node not recognised")
            vn = vn[0]
            v = ("elem", VS)
            cb = ev_field(own, "callabl")
            ctx.need(cb[0] in ("clos", "func", "partial"), f"{f.qual}: final callable not recognised")
            for q in p.invoke(cb, spreads=(K,), raises="none", breaks=True, **ALL):
                if q.kind != "return":
                    continue
                for e in q.trace:
                    ctx.check(e.kind != "break", "action:every", own.where(), "the results after the first one that matters are not looked at", q)
                qf = {k: b for k, b in q.facts.items() if k not in p.facts}
                iters = [l for e in q.trace for l in e.loops]
                ctx.need(not any(k[0] == "eq" and "importance" not in tstr(k) for k in qf), f"{f.qual}: final callable branches on {[tstr(k)[:60] for k in qf]}")
                lv = [(k, b) for k, b in qf.items() if k[0] in ("eq", "is") and any(x[0] == "attr" and x[2] in ("importance", "_importance") for x in k[1:3] if isinstance(x, tuple) and len(x) == 3)]
                r = lookup_raw(q.value, raw)
                ctx.check(r, "action:value", own.where(), f"the final node gives out {tstr(q.value)[:100]} rather than the raw value", q)
                fail = [e for e in q.trace if e.name == "act_fail_bulk"]
                warn = [e for e in q.trace if e.name == "act_warn"]
                if not lv:
                    # no validators at run time, or the branch does not look at importance
                    empty = any(k[0] == "truthy" and b is False for k, b in qf.items())
                    ctx.check(empty or not (warn or fail), "action:importance", own.where(), "results are acted upon without looking at the importance of their validator", q)
                    continue
                ctx.need(len(lv) == 1, f"{f.qual}: importance tests not recognised")
                (k, b), = lv
                lvl = next((x for x in k[1:3] if not (x[0] == "attr" and x[2] in ("importance", "_importance"))), None)
                obj = next(x[1] for x in k[1:3] if x[0] == "attr" and x[2] in ("importance", "_importance"))
                is_warn = tstr(lvl).endswith("DataValidationLevel.WARN")
                is_fail = tstr(lvl).endswith("DataValidationLevel.FAIL")
                ctx.need(is_warn or is_fail, f"{f.qual}: importance is compared with {tstr(lvl)[:60]}")
                warns = b if is_warn else not b
                ctx.check(validator_of(obj, v, vn), "action:own-importance", own.where(), f"the importance looked at is that of {tstr(obj)[:100]}", q)
                if warns:
                    n.add("warn")
                    ctx.check(len(warn) == 1, "action:warns", own.where(), f"a WARN result is acted upon {len(warn)} times", q)
                    for e in warn:
                        ctx.check(e.arg("node_name", 0) == ("attr", ND, "name"), "action:warn-node", e.where(), "the warning names another node", q)
                        ctx.check(result_of(e.arg("validation_result", 1), vn), "action:warn-result", e.where(), f"the warning is about {tstr(e.arg('validation_result', 1))[:100]}", q)
                        ctx.check(validator_of(e.arg("validator", 2), v, vn), "action:warn-validator", e.where(), "the warning names another validator", q)
                    for e in fail:
                        fs = e.arg("failures", 1)
                        ctx.check(fs is None or not fs[1] if fs and fs[0] in ("list", "tuple") else True, "action:warn-only", e.where(), "a WARN result is handed to the failing action", q)
                else:
                    n.add("fail")
                    ctx.check(not warn, "action:fail-not-warn", own.where(), "a FAIL result is only warned about", q)
                    ctx.check(len(fail) == 1, "action:fails", own.where(), f"the failing action runs {len(fail)} times", q)
                    for e in fail:
                        fs = e.arg("failures", 1)
                        ctx.need(fs is not None and fs[0] in ("list", "tuple"), f"{f.qual}: failures not recognised")
                        rs = fs[1]
                        good = len(rs) == 1 and rs[0][0] == "e" and rs[0][1][0] == "tuple" and len(rs[0][1][1]) == 2
                        ctx.check(good, "action:collected", e.where(), "a FAIL result is not handed to the failing action", q)
                        ctx.check(not good or bool(rs[0][2][1]) or bool(e.loops), "action:all", e.where(), "only the last FAIL result is handed to the failing action", q)
                        if good:
                            a, bb = rs[0][1][1][0][1], rs[0][1][1][1][1]
                            ctx.check(result_of(a, vn), "action:fail-result", e.where(), f"the failing action is given {tstr(a)[:100]}", q)
                            ctx.check(validator_of(bb, v, vn), "action:fail-validator", e.where(), "the failing action is given another validator", q)
                        ctx.check(e.arg("node_name", 0) == ("attr", ND, "name"), "action:fail-node", e.where(), "the failure names another node", q)
    ctx.need(n == {"warn", "fail"}, "actions on validation results not recognised")


def lookup_raw(v, raw):
    return v[0] == "item" and v[1] == K and same_name(v[2], raw)


def names_node(t, vn):
    """Is t the name of the validator node (asked from the node, or from the iteration over the nodes / over the name map)?"""
    if t == ev_field(vn, "name") or nm(vn)(t):
        return True
    if t[0] == "attr" and t[2] == "name" and t[1][0] == "elem" and holds_inst(t[1][1], vn):
        return True
    if t[0] == "key" and t[1][0] == "dict" and any(r[0] == "kv" and (r[1] == ev_field(vn, "name") or nm(vn)(r[1])) for r in t[1][1]):
        return True
    if t[0] == "item" and t[2] == const(0) and t[1][0] == "elem":
        return True
    return False


def result_of(t, vn):
    return t is not None and t[0] == "item" and t[1] == K and names_node(t[2], vn)


def validator_of(t, v, vn):
    if t is None:
        return False
    if t == v:
        return True
    if t[0] == "item" and t[1][0] == "dict":
        rs = t[1][1]
        return names_node(t[2], vn) and len(rs) == 1 and rs[0][0] == "kv" and (rs[0][1] == ev_field(vn, "name") or nm(vn)(rs[0][1])) and rs[0][2] == v
    if t[0] == "val" and t[1][0] == "dict":
        rs = t[1][1]
        return len(rs) == 1 and rs[0][2] == v
    if t[0] == "item" and t[1][0] == "elem" and t[1][1][0] == "list":
        return any(r[0] == "e" and r[1][0] == "tuple" and any(x[1] == v for x in r[1][1]) for r in t[1][1][1])
    return False


def act(ctx):
    ctx.rule("(act) act_warn logs iff the result does not pass and never raises; act_fail_bulk raises DataValidationError iff one of the results does not pass.")
    ix = ctx.ix
    f = ix.func(DQ + "base.act_warn")
    n = {}
    for p in ctx.paths(f, opaque=["_create_error_string"], raises="none", keep_logging=True, **ALL):
        k = [(k, v) for k, v in p.facts.items() if "passes" in tstr(k)]
        ctx.need(len(k) == 1, "act_warn: decision not recognised")
        passes = k[0][1]
        ctx.check(k[0][0] == ("truthy", ("attr", ("param", "validation_result"), "passes")), "act:warn-passes", f.loc(), "act_warn decides on something other than whether the result passes", p)
        ctx.check(p.kind == "return", "act:warn-raises", f.loc(), "a WARN validation interrupts the run", p)
        logged = [e for e in p.trace if e.name in ("warning", "warn", "error", "log", "critical")]
        ctx.check(bool(logged) != passes, "act:warn-logs", f.loc(), "a failed WARN validation is not logged" if not passes else "a passed WARN validation is logged as failed", p)
        n[passes] = 1
    ctx.need(len(n) == 2, "act_warn not recognised")
    f = ix.func(DQ + "base.act_fail_bulk")
    F = ("param", f.node.args.args[1].arg)
    n = {}
    for p in ctx.paths(f, opaque=["_create_error_string"], raises="none", **ALL):
        some = p.facts.get(("truthy", F))
        el = ("elem", F)
        k = []
        for kk, v in p.facts.items():
            if kk[0] == "truthy" and kk[1][0] == "list" and len(kk[1][1]) == 1 and len(guards_of(kk[1][1][0])) == 1:
                (g, b), = guards_of(kk[1][1][0]).items()  # [... for x in failures if g]: non-empty iff g holds for one of them
                k.append((g, b if v else not b))
            elif "passes" in tstr(kk):
                k.append((kk, v))
        if not k:
            ctx.check(some is False or p.kind == "raise", "act:fail-looks", f.loc(), "results are accepted without looking whether they pass", p)
            ctx.check(some is not False or p.kind == "return", "act:fail-none", f.loc(), "validation fails with no failed result", p)
            continue
        ctx.need(len(k) == 1, "act_fail_bulk: decision not recognised")
        t, b = k[0]
        ctx.need(t[0] == "truthy", "act_fail_bulk: decision not recognised")
        if t[1][0] in ("pure",) and t[1][1] in ("all", "any"):
            inner = t[1][3][0]
            recs = inner[1]
            ctx.need(all(r[0] == "e" and r[1] in (TRUE, FALSE) or r[0] == "e" for r in recs), "act_fail_bulk: decision not recognised")
            b = None
        if b is None:
            ctx.need(False, "act_fail_bulk: decision not recognised")
        ctx.check(t[1] == ("attr", ("item", el, const(0)), "passes"), "act:fail-passes", f.loc(), "act_fail_bulk decides on something other than whether the results pass", p)
        ctx.check((p.kind == "raise") == (not b), "act:fail-raises", f.loc(), "a failed FAIL validation does not interrupt the run" if not b else "a passed FAIL validation interrupts the run", p)
        if p.kind == "raise":
            ctx.check("DataValidationError" in tstr(p.value), "act:fail-type", f.loc(), f"a failed FAIL validation raises {tstr(p.value)[:80]}", p)
        n[b] = 1
    ctx.need(len(n) == 2, "act_fail_bulk not recognised")


# ---------------------------------------------------------------- which validators

def resolve(ctx):
    ctx.rule("(resolve) Each argument of check_output yields exactly one validator, the first candidate with that argument name that applies to the node's type, constructed with the argument's value and the importance given; an argument no candidate takes is an error.")
    f = ctx.ix.func(DQ + "default_validators.resolve_default_validators")
    a = f.node.args
    ctx.need(a.kwarg, "resolve_default_validators: parameters not recognised")
    M = ("param", "**" + a.kwarg.arg)
    AV = ("param", "available_validators")
    TY = ("param", a.args[0].arg)
    n = {}
    for p in ctx.paths(f, raises="none", breaks=True, **ALL):
        fs = facts(p.facts)
        none = fs.get(("isnone", AV))
        given = fs.get(("truthy", M))
        made = [e for e in p.trace if e.kind in ("callv", "new") and e.kwargs.get("importance") or e.kind == "callv"]
        argc = [e for e in p.trace if e.name == "arg"]
        app = [e for e in p.trace if e.name == "applies_to"]
        cand = {e.recv for e in argc + app}
        ctx.need(len(cand) <= 1, "resolve_default_validators: candidates not recognised")
        for c in cand:
            ctx.need(c[0] == "elem", "resolve_default_validators: candidates not recognised")
            s = tstr(c[1])
            ctx.check(s.endswith("AVAILABLE_DEFAULT_VALIDATORS") if none else c[1] == AV, "resolve:candidates", f.loc(), f"the validators considered are {s[:80]}", p)
        for e in app:
            ctx.check(e.args[:1] == (TY,) or e.arg("datatype", 0) == TY, "resolve:type", e.where(), "candidates are matched against another type", p)
        match = [(k, v) for k, v in fs.items() if k[0] == "eq" and any(("res", e.uid) in k[1:3] for e in argc)]
        okm = bool(match) and all(v for _, v in match)
        oka = bool(app) and all(p.facts.get(("truthy", ("res", e.uid))) for e in app)
        for k, _ in match:
            ctx.check(("key", M) in k[1:3], "resolve:arg", f.loc(), "the argument name is not compared with that of the candidate", p)
        if any(("isnone", c) in fs and fs[("isnone", c)] for c in cand):
            continue  # a candidate is a class
        if p.kind == "raise":
            n["raise"] = 1
            ctx.check(not (okm and oka), "resolve:refused", f.loc(), "an argument is refused although a candidate takes it", p)
            continue
        if not given:
            ctx.check(p.value == ("list", ()), "resolve:none", f.loc(), "validators appear without an argument asking for them", p)
            continue
        if not (okm and oka):
            ctx.check(not made, "resolve:wrong", f.loc(), "a candidate is used that does not take the argument or does not apply to the type", p)
            ctx.check(False, "resolve:dropped", f.loc(), "an argument no candidate takes is accepted silently", p)
            continue
        n["ok"] = 1
        ctx.check(len(made) == 1, "resolve:one", f.loc(), f"an argument yields {len(made)} validators", p)
        if len(made) != 1:
            continue
        e = made[0]
        ctx.check(e.recv == next(iter(cand)), "resolve:own", e.where(), "the validator made is not the candidate that matched", p)
        kws = dict(e.kwargs)
        sp = [s for s in e.spreads]
        imp = kws.pop("importance", None)
        recs = []
        for s in sp:
            recs += list(s[1]) if s[0] == "dict" else [s]
        for r in list(recs):
            if r[0] == "kv" and r[1] == const("importance"):
                imp = r[2]
                recs.remove(r)
        ctx.check(imp == ("param", "importance"), "resolve:importance", e.where(), f"the validator is given importance {tstr(imp)[:60]}", p)
        vals = [(canon(r[1]), canon(r[2])) for r in recs if r[0] in ("kv", "genkv")]
        ctx.check(vals == [(("key", M), ("val", M))] and not kws and len(recs) == 1, "resolve:value", e.where(), f"the validator is given {[tuple(tstr(x)[:40] for x in v) for v in vals]} rather than the argument under its own name", p)
        rv = p.value
        ctx.check(rv[0] == "list" and len(rv[1]) == 1 and rv[1][0][:2] == ("e", ("res", e.uid)), "resolve:returned", f.loc(), "the validator made for an argument is not returned", p)
        if rv[0] == "list" and len(rv[1]) == 1:
            loops = rv[1][0][2][1]
            over = [l for l in loops if mentions(l, M)]
            ctx.check(bool(over), "resolve:every", f.loc(), "not every argument gives its validator", p)
            left = [x for x in p.trace if x.kind == "break" and x.loops == loops and p.trace.index(x) > p.trace.index(e)]
            ctx.check(len(loops) == len(over) or bool(left), "resolve:first", f.loc(), "every matching candidate gives a validator instead of the first", p)
    ctx.need(set(n) == {"ok", "raise"}, "resolve_default_validators not recognised")


def forwarding(ctx):
    ctx.rule("(forwarding) The decorators hand the importance, the candidates, the arguments and the validators they were given to the validation unchanged.")
    ix = ctx.ix
    for C in decorators(ctx):
        f = ix.method(C, "__init__")
        if f.cls is not C or C.qual.endswith("BaseDataValidationDecorator"):
            continue
        a = f.node.args
        ps = [p for p in ctx.paths(f, self_cls=C, raises="none", keep=lambda e: True, keyfacts=lambda k: True) if p.kind == "return"]
        g = ix.method(C, "get_validators")
        stored = {}
        for p in ps:
            for e in p.trace:
                if e.kind == "setattr" and e.recv == SELFT:
                    stored.setdefault(e.name, []).append(e.args[-1])
            for e in p.trace:
                if e.name == "__init__" and e.kind == "call":
                    t = list(e.args) + list(e.kwargs.values())
                    tp = [("param", x.arg) for x in a.args + a.kwonlyargs if x.arg in ("target", "target_")]
                    ctx.check(any(x in tp for x in t), f"forward:{C.name}:target", e.where(), "the target of the decorator is dropped", p)
        for p in ctx.paths(g, self_cls=C, inline_modules=[], raises="none", keep=lambda e: True, keyfacts=lambda k: True):
            if p.kind != "return":
                continue
            def orig(t):
                t = canon(t)
                if t[0] == "attr" and t[1] == SELFT:
                    vs = {canon(x) for x in stored.get(t[2], ())}
                    return vs.pop() if len(vs) == 1 else None
                return t
            cs = [e for e in p.trace if e.name in ("resolve_default_validators", "check_output", "base_check_output")]
            if not cs:
                v = orig(p.value)
                ctx.check(v is not None and v == ("param", "*" + a.vararg.arg) if a.vararg else False, f"forward:{C.name}:validators", g.loc(), f"the validators used are {tstr(p.value)[:80]}", p)
                continue
            ctx.need(len(cs) == 1, f"{g.qual}: not recognised")
            e = cs[0]
            imp = e.arg("importance", 1) if e.name == "resolve_default_validators" else e.kwargs.get("importance", e.args[0] if e.args else None)
            ctx.check(imp is not None and orig(imp) == ("param", "importance"), f"forward:{C.name}:importance", e.where(), f"the importance given is replaced by {tstr(imp)[:60]}", p)
            ND = ("param", g.node.args.args[1].arg)
            if e.name == "resolve_default_validators":
                ctx.check(canon(e.arg("output_type", 0)) == ("attr", ND, "type"), f"forward:{C.name}:type", e.where(), "the validators are chosen for another type", p)
                av = e.arg("available_validators", 2)
                ctx.check(av is not None and orig(av) == ("param", "default_validator_candidates"), f"forward:{C.name}:candidates", e.where(), "the candidates given are not the ones considered", p)
                ok = [s for s in e.spreads if orig(s) == ("param", "**" + a.kwarg.arg)]
                ctx.check(len(ok) == 1, f"forward:{C.name}:arguments", e.where(), "the arguments of the decorator are not the ones resolved", p)
                ctx.check(p.value == ("res", e.uid), f"forward:{C.name}:result", g.loc(), "the validators resolved are not the ones used", p)
            else:
                last = [x for x in p.trace if x.name == "get_validators"]
                ctx.check(len(last) == 1 and last[0].args == (ND,) and p.value == ("res", last[0].uid), f"forward:{C.name}:result", g.loc(), "the validators resolved are not the ones used", p)


def registered(ctx):
    ctx.rule("(registered) Every default validator stores the importance and its own argument, takes that argument under the name arg() gives, and is among the candidates.")
    ix = ctx.ix
    n = 0
    for C in [ix.cls(DQ + "base.DataValidator")] + [c for c in ix.subclasses_of(DQ + "base.DataValidator") if c.module.name.startswith("hamilton")]:
        f = ix.method(C, "__init__")
        if C.qual == DQ + "base.DataValidator":
            for p in ctx.paths(f, self_cls=C, raises="none", **ALL):
                st = [e for e in p.trace if e.kind == "setattr" and e.name == "_importance"]
                ok = len(st) == 1 and any("DataValidationLevel" in str(e.name) and e.args[:1] == (("param", "importance"),) and (inst_of(st[0].args[-1], e) or st[0].args[-1] == ("res", e.uid)) for e in p.trace)
                ctx.check(ok, "registered:level", f.loc(), "the importance given is not what is stored", p)
            g = ix.method(C, "importance")
            for p in ctx.paths(g, self_cls=C, raises="none", **ALL):
                ctx.check(p.kind == "return" and p.value == ("attr", SELFT, "_importance"), "registered:level-read", g.loc(), "the importance read is not the one stored", p)
            continue
        if C.qual == DQ + "base.BaseDefaultValidator":
            continue
        g = ix.method(C, "arg")
        names_ = {p.value for p in ctx.paths(g, self_cls=C, raises="none", **ALL) if p.kind == "return"}
        ctx.need(len(names_) == 1 and next(iter(names_))[0] == "const", f"{C.qual}.arg not recognised")
        an = next(iter(names_))[1]
        params = [x.arg for x in f.node.args.args[1:] + f.node.args.kwonlyargs]
        ctx.check(an in params, f"registered:{C.name}:arg", g.loc(), f"arg() is {an!r}, which the constructor does not take")
        ctx.check("importance" in params, f"registered:{C.name}:importance", f.loc(), "the constructor does not take the importance")
        n += 1
        for p in ctx.paths(f, self_cls=C, raises="none", **ALL):
            if p.kind != "return":
                continue
            sup = [e for e in p.trace if e.name == "__init__" and e.kind == "call"]
            inl = [e for e in p.trace if e.kind == "setattr" and e.name == "_importance"]
            ok = any(("param", "importance") in list(e.args) + list(e.kwargs.values()) for e in sup) or any(mentions(e.args[-1], ("param", "importance")) for e in inl) or any(e.kind in ("new", "call") and "DataValidationLevel" in str(e.name) and ("param", "importance") in e.args for e in p.trace)
            ctx.check(ok, f"registered:{C.name}:passes-importance", f.loc(), "the importance given does not reach the validator", p)
            st = [e for e in p.trace if e.kind == "setattr" and e.recv == SELFT]
            dec = [k for k in p.facts if mentions(k, ("param", an))]
            handed = any(mentions(x, ("param", an)) for e in sup for x in list(e.args) + list(e.kwargs.values()))
            ctx.check(any(mentions(e.args[-1], ("param", an)) for e in st) or handed or bool(dec), f"registered:{C.name}:keeps", f.loc(), f"the argument {an} is not kept", p)
    ctx.need(n >= 10, "validators not recognised")
    import ast
    for mod, lst in (("default_validators", "AVAILABLE_DEFAULT_VALIDATORS"), ("pandera_validators", "PANDERA_VALIDATORS")):
        m = ix.modules.get(DQ + mod)
        ctx.need(m is not None, f"{mod} not found")
        asg = [s for s in m.tree.body if isinstance(s, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == lst for t in (s.targets if isinstance(s, ast.Assign) else [s.target]))]
        ctx.need(len(asg) == 1, f"{lst} not recognised")
        if not isinstance(asg[0].value, (ast.List, ast.Tuple)) or any(isinstance(x, ast.Starred) for x in asg[0].value.elts):
            ctx.need(False, f"{lst} not a literal list")
        got = {x.id for x in asg[0].value.elts if isinstance(x, ast.Name)}
        for C in ix.subclasses_of(DQ + "base.BaseDefaultValidator"):
            if C.module.name == m.name:
                ctx.check(C.name in got, f"registered:{C.name}:listed", f"{m.path}:{asg[0].lineno}", f"{C.name} is not among the candidates")


# ---------------------------------------------------------------- what each validator accepts

def kept_as(ctx, C):
    """Attributes of a validator that hold the argument it was given."""
    ix = ctx.ix
    f = ix.method(C, "__init__")
    g = ix.method(C, "arg")
    an = next(p.value[1] for p in ctx.paths(g, self_cls=C, raises="none", **ALL) if p.kind == "return")
    out = set()
    for p in ctx.paths(f, self_cls=C, raises="none", inline_modules=[f.module.name], **ALL):
        for e in p.trace:
            if e.kind == "setattr" and e.recv == SELFT and mentions(e.args[-1], ("param", an)):
                out.add(e.name)
    return an, {("attr", SELFT, x) for x in out}


class Pred:
    """One path of a validator: the verdict and the atoms it rests on."""

    def __init__(self, ctx, C, f, p, args):
        self.ctx, self.C, self.f, self.p, self.ARG = ctx, C, f, p, args
        self.D = ("param", f.node.args.args[1].arg)
        ctx.need(p.value[0] == "inst" and p.value[2].endswith("ValidationResult"), f"{C.name}.validate: result not recognised")
        v = [r for r in p.value[1] if r[0] == "kv" and r[1] == const("passes")]
        ctx.need(len(v) == 1, f"{C.name}.validate: verdict not recognised")
        self.v = v[0][2]
        self.ev = {("res", e.uid): e for e in p.trace}
        self.fs = dict(p.facts)

    def is_data(self, t):
        if t == self.D:
            return True
        e = self.ev.get(t)
        return e is not None and e.name == "compute" and e.recv == self.D and any(k[0] == "hasattr" and b for k, b in self.fs.items())

    def of_data(self, t, name, recv=None):
        e = self.ev.get(t)
        return e is not None and e.name == name and (recv or self.is_data)(e.recv)

    def is_arg(self, t):
        return t in self.ARG

    def bound(self, t, i):
        return t[0] == "item" and self.is_arg(t[1]) and t[2] == const(i)

    def verdict(self):
        """The boolean verdict on this path, None if it is still a term."""
        v = self.v
        if v[0] == "pure" and v[1] == "bool" and len(v[3]) == 1:
            v = v[3][0]
        if v in (TRUE, FALSE):
            return v == TRUE
        return self.fs.get(("truthy", v))

    def judge(self, want, what):
        """want: truth of the condition on this path, None when the path does not settle it."""
        v = self.verdict()
        self.ctx.need(v is not None, f"{self.C.name}.validate: verdict {tstr(self.v)[:80]} not recognised")
        if want is None:
            other = [k for k in self.fs if k[0] not in ("hasattr", "dictlike") and k not in self.used and not self.harmless(k)]
            self.ctx.need(not other, f"{self.C.name}.validate: rests on {[tstr(k)[:60] for k in other]}")
            self.ctx.check(False, f"predicate:{self.C.name}", self.f.loc(), f"{'accepts' if v else 'rejects'} a value without establishing {what}", self.p)
            return
        self.ctx.check(v == want, f"predicate:{self.C.name}", self.f.loc(), f"{'accepts' if v else 'rejects'} a value that {'does not satisfy' if v else 'satisfies'}: {what}", self.p)

    used = ()

    def harmless(self, k):
        return False


def inside(P, is_value, what):
    lo = hi = None
    used = []
    for k, b in P.fs.items():
        if k[0] == "lt" and len(k) == 3:
            if is_value(k[1]) and P.bound(k[2], 0):
                lo = b
            elif P.bound(k[1], 1) and is_value(k[2]):
                hi = b
            elif P.bound(k[1], 0) and is_value(k[2]):
                lo = False if b else lo  # the bound itself is left open otherwise
            elif is_value(k[1]) and P.bound(k[2], 1):
                hi = False if b else hi
            else:
                continue
            used.append(k)
    P.used = used
    P.judge(False if lo or hi else True if lo is False and hi is False else None, what)


def at_most(P, is_value, what):
    for k, b in P.fs.items():
        if k[0] == "lt" and P.is_arg(k[1]) and is_value(k[2]):
            P.used = [k]
            return P.judge(not b, what)
        if k[0] == "lt" and is_value(k[1]) and P.is_arg(k[2]):
            P.used = [k]
            return P.judge(True if b else None, what)
        if k[0] == "lt" and any(P.is_arg(x) for x in k[1:3]) and any(x[0] == "const" for x in k[1:3]):
            P.used = [k]  # compared with a constant that is not the quantity
            return P.judge(None, what)
    P.judge(None, what)


def q_range(P):
    inside(P, P.is_data, "the value lies within the range, bounds included")


def q_mean(P):
    inside(P, lambda t: P.of_data(t, "mean"), "the mean lies within the range, bounds included")


def q_std(P):
    at_most(P, lambda t: P.of_data(t, "std"), "the standard deviation is at most the maximum")


def q_nans(P):
    D = P.D
    empty = None
    for k, b in P.fs.items():
        if k == ("truthy", D) or k[0] == "truthy" and k[1] == ("pure", "len", None, (D,), ()) or k[0] == "lt" and k[1] == const(0) and "len" in tstr(k[2]):
            empty = not b
        if k[0] == "truthy" and k[1][0] == "attr" and k[1][2] == "empty":
            empty = b
    na = lambda t: P.of_data(t, "isna") or P.of_data(t, "isnull")

    def frac(t):
        if t == const(0) or t == const(0.0):
            return empty is True
        if t[0] == "op" and t[1] == "Div":
            return empty is False and P.of_data(t[2], "sum", na) and "len" in tstr(t[3]) and mentions(t[3], D)
        return empty is False and P.of_data(t, "mean", na)
    P.harmless = lambda k: k[0] in ("truthy", "lt", "eq") and mentions(k, D) and not any(mentions(k, a) for a in P.ARG)
    at_most(P, frac, "the fraction of missing values is at most the maximum")


def q_in(P):
    for k, b in P.fs.items():
        if k[0] == "in" and P.is_data(k[1]) and P.is_arg(k[2]):
            P.used = [k]
            return P.judge(b, "the value is among the allowed ones")
    P.judge(None, "the value is among the allowed ones")


def q_none(P):
    allow = next((b for k, b in P.fs.items() if k[0] == "truthy" and P.is_arg(k[1])), None)
    none = P.fs.get(("isnone", P.D))
    if none is None and P.fs.get(("truthy", P.D)):
        none = False
    P.used = [k for k in P.fs if k[0] == "truthy" and P.is_arg(k[1]) or k in (("isnone", P.D), ("truthy", P.D))]
    P.judge(True if allow or none is False else False if allow is False and none else None, "the value is not None, unless None is allowed")


def q_contains(sign):
    what = "every one of the given strings occurs in it" if sign else "none of the given strings occurs in it"

    def q(P):
        from .p17 import truth_cases
        quant, cs = truth_cases(P.v, P.fs)
        P.ctx.need(cs is not None, f"{P.C.name}.validate: verdict {tstr(P.v)[:80]} not recognised")
        P.ctx.check(quant != "some", f"predicate:{P.C.name}", P.f.loc(), f"accepts as soon as one of the strings decides: {what}", P.p)
        if quant == "some":
            return
        for fs, truth in cs:
            rel = next((b for k, b in fs.items() if k[0] == "in" and k[2] == P.D and k[1][0] in ("elem", "key") and P.is_arg(k[1][1])), None)
            if rel is None:
                none_given = quant == "once" and truth and any(k[0] == "truthy" and P.is_arg(k[1]) and not b for k, b in fs.items())
                P.ctx.need(none_given or quant == "every", f"{P.C.name}.validate: not recognised")
                P.ctx.check(none_given, f"predicate:{P.C.name}", P.f.loc(), f"accepts without looking for the strings: {what}", P.p)
                continue
            P.ctx.check(truth == (rel == sign), f"predicate:{P.C.name}", P.f.loc(), f"does not decide whether {what}", P.p)
    return q


def counts_pass(P, is_mask, what):
    """Verdict iff the boolean series recognised by is_mask is true throughout."""
    dec = None
    used = []
    tables = [t for t, e in P.ev.items() if e.name == "to_dict" and P.of_data(e.recv, "value_counts", is_mask)]
    for k, b in P.fs.items():
        for t in tables:
            if k == ("in", FALSE, t):
                used.append(k)
                if not b:
                    dec = True
            if mentions(k, t) and k[0] in ("in", "eq", "lt", "truthy"):
                used.append(k)
            if k[0] == "eq" and set(k[1:3]) == {("item", t, FALSE), const(0)}:
                used.append(k)
                dec = b
            if k[0] == "lt" and k[1] == const(0) and k[2] == ("item", t, FALSE) or k[0] == "truthy" and k[1] == ("item", t, FALSE):
                used.append(k)
                dec = not b
            if k[0] == "lt" and k[1] == ("item", t, FALSE) and k[2] == const(1):
                dec = b
        if k[0] == "truthy" and P.of_data(k[1], "all", is_mask):
            used.append(k)
            dec = b
    P.used = used
    v = P.v[3][0] if P.v[0] == "pure" and P.v[1] == "bool" and len(P.v[3]) == 1 else P.v
    if v in P.ev and P.of_data(v, "all", is_mask):
        P.ctx.check(True, f"predicate:{P.C.name}", P.f.loc(), what, P.p)
        return
    masks = [e for e in P.ev.values() if is_mask(("res", e.uid))]
    if dec is None and not tables and not masks and P.verdict() is not None:
        others = [e for e in P.ev.values() if P.is_data(e.recv) and e.name not in ("compute",)]
        P.ctx.need(not others, f"{P.C.name}.validate: rests on {[e.name for e in others]}")
    P.judge(dec, what)


def q_series_range(P):
    def mask(t):
        e = P.ev.get(t)
        if e is None or e.name != "between" or not P.is_data(e.recv):
            return False
        lo, hi = e.arg("left", 0), e.arg("right", 1)
        inc = e.arg("inclusive", 2)
        P.ctx.check(lo is not None and P.bound(lo, 0) and hi is not None and P.bound(hi, 1), f"predicate:{P.C.name}:bounds", e.where(), "the range compared with is not the one given", P.p)
        P.ctx.check(inc is None or inc == const("both"), f"predicate:{P.C.name}:inclusive", e.where(), "the bounds of the range are not accepted", P.p)
        return True
    counts_pass(P, mask, "all values lie within the range, bounds included")


def q_series_values(P):
    def one(t):
        e = P.ev.get(t)
        if e is None or not P.is_data(e.recv):
            return None
        if e.name == "isin":
            return "in" if e.args[:1] and P.is_arg(e.args[0]) else None
        return "na" if e.name in ("isna", "isnull") else None

    def mask(t):
        if t[0] == "op" and t[1] == "BitOr":
            got = {one(t[2]), one(t[3])}
            P.ctx.need(None not in got, f"{P.C.name}.validate: not recognised")
            return got == {"in", "na"}
        if one(t):
            return False
        return False
    counted = [e for e in P.ev.values() if e.name in ("value_counts", "all") and (e.recv[0] == "op" or one(e.recv))]
    for e in counted:
        if one(e.recv):
            P.ctx.check(False, f"predicate:{P.C.name}:na", e.where(), "missing values are not ignored", P.p)
            return
    counts_pass(P, mask, "all values are among the allowed ones or missing")


def q_isinstance(P):
    v = P.v
    ok = v[0] == "pure" and v[1] == "isinstance" and len(v[3]) == 2 and P.is_data(v[3][0]) and P.is_arg(v[3][1])
    if ok or P.verdict() is None:
        if not ok:
            P.ctx.need(not (v[0] == "pure" and v[1] == "isinstance") and v[0] not in ("res",), f"{P.C.name}.validate: verdict {tstr(v)[:80]} not recognised")
        P.ctx.check(ok, f"predicate:{P.C.name}", P.f.loc(), f"the verdict is {tstr(v)[:80]}", P.p)
        return
    for k, b in P.fs.items():
        if k[0] == "isinstance" and P.is_data(k[1]) and P.is_arg(k[2]):
            P.used = [k]
            return P.judge(b, "the value is an instance of the type")
        if k[0] in ("eq", "is") and any(P.is_arg(x) for x in k[1:3]) and any(x[0] == "pure" and x[1] == "type" for x in k[1:3]):
            P.used = [k]
            return P.judge(True if b else None, "the value is an instance of the type")
    P.judge(None, "the value is an instance of the type")


def q_call(name, check):
    def q(P):
        e = P.ev.get(P.v)
        if e is None:
            k = [(k, b) for k, b in P.fs.items() if k[0] == "truthy" and k[1] in P.ev and P.ev[k[1]].name == name]
            P.ctx.need(len(k) == 1 and P.verdict() is not None, f"{P.C.name}.validate: verdict {tstr(P.v)[:80]} not recognised")
            e = P.ev[k[0][0][1]]
            P.ctx.check(P.verdict() == k[0][1], f"predicate:{P.C.name}", P.f.loc(), f"the verdict is not that of {name}", P.p)
        P.ctx.need(e.name == name, f"{P.C.name}.validate: verdict rests on {e.name}")
        P.ctx.check(check(P, e), f"predicate:{P.C.name}", e.where(), f"{name} is not asked about the data and the argument given", P.p)
    return q


def issub(P, e):
    return len(e.args) == 2 and mentions(e.args[0], ("attr", P.D, "dtype")) and P.is_arg(e.args[1])


def equals(P, e):
    a = [e.recv] + list(e.args)
    return any(P.is_arg(x) for x in a) and any(x in P.ev and P.ev[x].name == "schema" and P.ev[x].recv == P.D for x in a)


ORACLE = {
    "DataInRangeValidatorPandasSeries": q_series_range, "DataInRangeValidatorPrimitives": q_range,
    "DataInValuesValidatorPandasSeries": q_series_values, "DataInValuesValidatorPrimitives": q_in,
    "MaxFractionNansValidatorPandasSeries": q_nans, "MaxStandardDevValidatorPandasSeries": q_std, "MeanInRangeValidatorPandasSeries": q_mean,
    "AllowNoneValidator": q_none, "StrContainsValidator": q_contains(True), "StrDoesNotContainValidator": q_contains(False),
    "DataTypeValidatorPrimitives": q_isinstance, "DataTypeValidatorPandasSeries": q_call("issubdtype", issub), "SchemaValidatorIbis": q_call("equals", equals),
}


def predicates(ctx):
    ctx.rule("(predicates) Each built-in validator passes exactly the values its argument describes: bounds included, missing values ignored where documented, None only if allowed, every string looked for.")
    ix = ctx.ix
    n = 0
    for C in ix.subclasses_of(DQ + "base.DataValidator"):
        if C.name not in ORACLE or not C.module.name.startswith("hamilton"):
            continue
        f = ix.method(C, "validate")
        _, args = kept_as(ctx, C)
        ctx.need(args, f"{C.name}: argument not kept")
        m = 0
        for p in ctx.paths(f, self_cls=C, inline_modules=[f.module.name], opaque=["_to_percent"], raises="none", **ALL):
            if p.kind == "raise":
                ctx.check(False, f"predicate:{C.name}:raises", f.loc(), "the validator raises instead of giving a result", p)
                continue
            ORACLE[C.name](Pred(ctx, C, f, p, args))
            m += 1
        ctx.need(m >= 1, f"{C.name}.validate not recognised")
        n += 1
    ctx.need(n >= 12, "validators not recognised")
    C = ix.cls(DQ + "default_validators.AllowNaNsValidatorPandasSeries")
    f = ix.method(C, "__init__")
    ctx.check(ix.method(C, "validate").cls.name == "MaxFractionNansValidatorPandasSeries", "predicate:AllowNaNs:validate", f.loc(), "allow_nans does not decide by the fraction of missing values")
    for p in ctx.paths(f, self_cls=C, raises="none", **ALL):
        allow = p.facts.get(("truthy", ("param", "allow_nans")))
        if allow:
            continue
        ctx.check(p.kind == "return", "predicate:AllowNaNs:refuses", f.loc(), "allow_nans=False is refused", p)
        for e in p.trace:
            if e.name == "__init__":
                ctx.check(e.kwargs.get("max_fraction_nans", e.args[0] if e.args else None) in (const(0), const(0.0)), "predicate:AllowNaNs:zero", e.where(), "missing values are tolerated although not allowed", p)


def schemas(ctx):
    ctx.rule("(schemas) The pandera and pydantic validators hand the data to the schema they were given, pass iff it raises nothing, and turn the library's validation error into a failed result.")
    ix = ctx.ix
    n = 0
    for C in ix.subclasses_of(DQ + "base.BaseDefaultValidator"):
        if C.name not in ("PanderaDataFrameValidator", "PanderaSeriesSchemaValidator", "PydanticModelValidator"):
            continue
        n += 1
        f = ix.method(C, "validate")
        D = ("param", f.node.args.args[1].arg)
        _, args = kept_as(ctx, C)
        call = "validate_python" if "Pydantic" in C.name else "validate"
        got = set()
        for p in ctx.paths(f, self_cls=C, inline_modules=[f.module.name], raises=lambda e: e.name in (call, "compute"), **ALL):
            es = [e for e in p.trace if e.name == call and e.kind == "call"]
            ctx.check(len(es) == 1, f"schema:{C.name}:asked", f.loc(), f"the schema is asked {len(es)} times", p)
            if len(es) != 1:
                continue
            e = es[0]
            ctx.check(e.args[:1] == (D,) and (e.recv in args or e.recv[0] == "attr" and e.recv[1] == SELFT), f"schema:{C.name}:data", e.where(), "the data is not what is handed to the schema given", p)
            for k in ("lazy", "strict"):
                if k in e.kwargs:
                    ctx.check(e.kwargs[k] == TRUE, f"schema:{C.name}:{k}", e.where(), f"{k} is {tstr(e.kwargs[k])}", p)
            failed = any(x.outcome != "ok" for x in p.trace if x.name in (call, "compute"))
            if p.kind == "raise":
                ctx.check(failed, f"schema:{C.name}:raises", f.loc(), "the validator raises although the schema accepted the data", p)
                continue
            P = Pred(ctx, C, f, p, args)
            ctx.need(P.verdict() is not None, f"{C.name}: verdict not recognised")
            ctx.check(P.verdict() != failed, f"schema:{C.name}:verdict", f.loc(), "data the schema rejects is accepted" if failed else "data the schema accepts is rejected", p)
            got.add(failed)
        ctx.check(True in got, f"schema:{C.name}:rejection", f.loc(), "a rejection by the schema never becomes a failed result")
        ctx.need(False in got, f"{C.name} not recognised")
    ctx.need(n == 3, "schema validators not recognised")


PARTS = [("nodes", nodes_part), ("names", naming), ("action", action), ("act", act), ("resolve", resolve), ("forwarding", forwarding), ("registered", registered),
         ("predicates", predicates), ("schemas", schemas), ("capture", lambda ctx: capture(ctx, [FM + "validation"]))]


def run(ctx):
    for _, f in PARTS:
        f(ctx)
