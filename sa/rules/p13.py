"""P13: building a graph: names are unique, every parameter becomes a type-checked edge."""
from .common import *

G = "hamilton.graph."
PN, PT, NODES, FN = ("param", "param_name"), ("param", "param_type"), ("param", "nodes"), ("param", "func_node")


def edges_of_node(ctx):
    ctx.rule("(edge) connecting a parameter: if a node of that name exists, the edge is only made when the producer's type fits the parameter's (built-in test or adapter), or when it is an external input and the types fit the "
             "other way round, in which case the input takes the tighter type; otherwise the graph is rejected. If no such node exists an external input of that name and type is created and registered. Both ends of every "
             "edge are recorded, exactly once.")
    ix = ctx.ix
    f = ix.func(G + "add_dependency")
    R = ("item", NODES, PN)
    RT = ("attr", R, "type")
    n = {"match": 0, "new": 0, "reject": 0, "tight": 0}

    def isres(p, t, name, a, b):
        if t[0] == "res":
            e = p.ev(t[1])
            return e is not None and e.name == name and [e.arg("param_type", 0), e.arg("required_node_type", 1)] == [a, b]
        if t[0] == "pure" and t[1] == name:
            return list(t[3]) == [a, b]
        return False
    for p in ctx.paths(f, inline_modules=[f.module.name], opaque=["types_match"], pure=("does_method", "types_match"), raises="none", keyfacts=lambda k: True):
        inn = p.facts.get(("in", PN, NODES))
        for e in p.trace:
            if inn is None:
                inn = e.nfacts.get(("in", PN, NODES))
        fwd = [v for k, v in p.facts.items() if k[0] == "truthy" and isres(p, k[1], "types_match", PT, RT)]
        back = [v for k, v in p.facts.items() if k[0] == "truthy" and isres(p, k[1], "types_match", RT, PT)]
        ad = {"fwd": [], "back": []}
        for e in p.trace:
            if method(e) == "do_check_edge_types_match":
                pair = (kw(e, "type_from"), kw(e, "type_to"))
                v = p.facts.get(("truthy", ("res", e.uid)))
                if pair == (RT, PT):
                    ad["fwd"].append(v)
                elif pair == (PT, RT):
                    ad["back"].append(v)
                else:
                    ctx.bad("edge:adapter-types", e.where(), f"the adapter is asked about ({tstr(pair[0])}, {tstr(pair[1])}), not about the two ends of the edge", p)
        ok_fwd = True in fwd or True in ad["fwd"]
        ok_back = True in back or True in ad["back"]
        user = [v for k, v in p.facts.items() if k[0] == "truthy" and k[1] == ("attr", R, "user_defined")]
        if inn is True:
            if p.kind == "return":
                if not ok_fwd:
                    ctx.check(user and all(user) and ok_back, "edge:types", f.loc(), "an edge is made although the types of its ends were not found to match", p)
                    st = [e for e in p.trace if e.name == "set_type" and e.recv == R]
                    n["tight"] += 1
                    ctx.check(len(st) == 1 and st[0].args and st[0].args[0] == PT, "edge:tighter", f.loc(), "an input required with a tighter type keeps the looser one", p)
                else:
                    n["match"] += 1
                    st = [e for e in p.trace if e.name == "set_type" and e.recv == R]
                    ctx.check(not st, "edge:keeps-type", f.loc(), "connecting a matching node changes its type", p)
                both_ends(ctx, f, p, R)
            elif p.kind == "raise":
                n["reject"] += 1
                ctx.check(not ok_fwd and not (user and all(user) and ok_back), "edge:rejects", f.loc(), "an edge whose types match is rejected", p)
                if user and all(user):
                    asked = does(p, "does_method", "do_check_edge_types_match")
                    ctx.check(back and (asked is not True or ad["back"]), "edge:both-ways", f.loc(), "two uses of one input are rejected although only one direction was checked: the outcome depends on the order of the functions", p)
        elif inn is False and p.kind == "return":
            n["new"] += 1
            new = [e for e in p.trace if e.kind == "new" and e.name == "Node"]
            reg = [e for e in p.trace if e.kind == "setitem" and e.recv == NODES]
            ctx.need(len(new) == 1, "creation of an input node not recognised")
            nn = new[0]
            ctx.check(nn.arg("name", 0) == PN and nn.arg("typ", 1) == PT, "input:named", nn.where(), "the input created for a parameter has another name or type", p)
            src = nn.kwargs.get("node_source") or (nn.bound or {}).get("node_source")
            ctx.check(src is not None and tstr(src).endswith("EXTERNAL"), "input:external", nn.where(), f"the input created for a parameter is {tstr(src)}, not external", p)
            ctx.check(len(reg) == 1 and reg[0].args[0] == PN, "input:registered", f.loc(), "the input created for a parameter is not registered under its name", p)
            if reg:
                both_ends(ctx, f, p, reg[0].args[1])
    ctx.need(n["match"] and n["new"] and n["reject"], f"connecting parameters not recognised {n}")


def both_ends(ctx, f, p, R):
    a = [e for e in p.trace if e.name in ("append", "add") and e.recv is not None and e.recv[0] == "attr" and e.recv[2] in ("dependencies", "_dependencies") and e.recv[1] == FN]
    b = [e for e in p.trace if e.name in ("append", "add") and e.recv is not None and e.recv[0] == "attr" and e.recv[2] in ("depended_on_by", "_depended_on_by") and FN in e.args]
    ctx.check(len(a) == 1 and (a[0].args[0] == R or R[0] != "item"), "edge:forward", f.loc(), "the dependency is not recorded on the depending node (exactly once)", p)
    ctx.check(len(b) == 1 and (b[0].recv[1] == R or R[0] != "item"), "edge:backward", f.loc(), "the depending node is not recorded on its dependency (exactly once)", p)
    if a and b:
        ctx.check(a[0].args[0] == b[0].recv[1], "edge:same", f.loc(), "the two ends of an edge are recorded on different nodes", p)


def all_edges(ctx):
    ctx.rule("(all) every input of every node of a new graph goes through that connection, on the dictionary the graph is made of; nodes coming from an existing graph are copied without their old edges first.")
    ix = ctx.ix
    f = ix.func(G + "update_dependencies")
    k = 0
    for p in ctx.paths(f, inline_modules=[f.module.name], opaque=["add_dependency", "copy"], raises="none", keyfacts=lambda k: k == ("truthy", ("param", "reset_dependencies")) or "input_types" in repr(k), keyev=lambda e: e.name == "add_dependency"):
        reset = p.facts.get(("truthy", ("param", "reset_dependencies")))
        for e in p.trace:
            if e.name != "add_dependency":
                continue
            k += 1
            nd, into = e.arg("func_node", 0), e.arg("nodes", 2)
            pn, pt = e.arg("param_name", 3), e.arg("param_type", 4)
            IT = ("attr", nd, "input_types")
            ctx.check(pn == ("key", IT) or pn == ("elem", IT), "all:param", e.where(), f"the dependency connected is {tstr(pn)}, not an input of the node", p)
            src = tuple(t for t in subterms(pt) if t[0] in ("val", "item") and mentions(t, IT))
            ctx.check(pt[0] == "item" and pt[2] == const(0) and src, "all:type", e.where(), f"the type checked is {tstr(pt)}, not the declared type of the input", p)
            g = [kk for kk in e.nfacts if mentions(kk, IT) and kk[0] not in ("dictlike",) and kk != ("truthy", IT)]
            ctx.check(not g, "all:unconditional", e.where(), f"some inputs are not connected ({tstr(g[0]) if g else ''})", p)
            base = unwrap(into)
            if reset is True:
                ok = into[0] in ("dict", "copy") and all(r[0] != "spread" for r in into[1])
                cp = [r for r in into[1] if r[0] == "kv"] if ok else []
                good = ok and cp and all(r[2][0] == "res" and p.ev(r[2][1]).name == "copy" and p.ev(r[2][1]).arg("include_refs", 0) == FALSE for r in cp)
                ctx.check(good, "all:fresh-copies", e.where(), "nodes of an existing graph are connected without copying them free of their old edges", p)
            else:
                ctx.check(base == NODES, "all:in-place", e.where(), f"edges are added to {tstr(into)}", p)
            if p.kind == "return":
                ctx.check(p.value == into, "all:returned", f.loc(), "the dictionary returned is not the one the edges were added to", p)
    ctx.need(k, "update_dependencies not recognised")


def unique(ctx):
    ctx.rule("(names) a name defined by two functions is rejected unless overriding modules was allowed; a function whose name is a config key is not added; new nodes that collide with the graph's or with each other are rejected.")
    ix = ctx.ix
    f = ix.func(G + "create_function_graph")
    AL, CFG = ("truthy", ("param", "allow_module_overrides")), ("param", "config")
    n = m = 0
    kf = lambda k: k == AL or mentions(k, ("sym", "FG")) or k[0] == "in" and k[1][0] == "attr" and k[1][2] == "name"  # noqa: E731
    ps = []
    for fg, u in ((NONE, 2), (("sym", "FG"), 1)):
        ps += ctx.paths(f, inline_modules=[f.module.name], opaque=["update_dependencies", "find_functions", "resolve_nodes"], raises="none", bind={"fg": fg}, max_paths=40000,
                        keyfacts=kf, keyev=lambda e: e.kind == "setitem", unroll=u, keep=lambda e: e.kind == "setitem" or e.name in ("update_dependencies", "find_functions", "resolve_nodes"))
    for p in ps:
        ud = [e for e in p.trace if e.name == "update_dependencies"]
        if p.kind == "return":
            ctx.check(len(ud) == 1 and unwrap(p.value) == ("res", ud[0].uid), "graph:connected", f.loc(), "the graph returned was not connected and type-checked", p)
        for e in p.trace:
            if e.kind == "setitem" and e.args[0][0] == "attr" and e.args[0][2] == "name" and not (ud and p.trace.index(ud[0]) < p.trace.index(e)):
                if e.recv[0] == "dict" and len(e.recv[1]) == 1:
                    continue  # the first name of an empty graph
                n += 1
                nm = e.args[0]
                ctx.check(e.args[1] == nm[1], "graph:own-name", e.where(), "a node is registered under another node's name", p)
                dup = [v for k, v in e.nfacts.items() if k[0] == "in" and k[1] == nm and k[2] != CFG and not mentions(k[2], CFG)]
                cf = [v for k, v in e.nfacts.items() if k[0] == "in" and k[1] == nm and (k[2] == CFG or mentions(k[2], CFG))]
                ctx.check(cf and not any(cf), "graph:config-wins", e.where(), "a function is added although its name is a config key", p)
                al = e.nfacts.get(AL)
                ctx.check(dup and not any(dup) or al is True, "graph:unique", e.where(), "a function silently replaces another of the same name although overriding was not allowed", p)
        dupd = [k for k, v in p.facts.items() if k[0] == "in" and v is True and k[1][0] == "attr" and k[1][2] == "name" and k[2] != CFG]
        if p.kind == "raise":
            m += 1
            ctx.check(dupd and p.facts.get(AL) is False, "graph:rejects-duplicates-only", f.loc(), "a graph without duplicate names is rejected", p)
    ctx.need(n and m, f"registration of functions not recognised {n} {m}")
    c = ix.cls(G + "FunctionGraph")
    f = ix.method(c, "with_nodes")
    k = 0
    for p in ctx.paths(f, self_cls=c, inline_modules=[f.module.name], opaque=["update_dependencies"], raises="none"):
        tests = [(kk, v) for kk, v in p.facts.items() if mentions(kk, ("attr", SELF, "nodes")) and mentions(kk, NODES)]
        if p.kind == "return":
            k += 1
            ud = [e for e in p.trace if e.name == "update_dependencies"]
            ctx.check(len(ud) == 1, "with_nodes:connected", f.loc(), "added nodes are not connected and type-checked", p)
            ctx.check(bool(tests), "with_nodes:unique", f.loc(), "nodes are added without checking that their names are new", p)
            if ud:
                L = dict_layers(ud[0].arg("nodes", 0))
                ctx.check(("attr", SELF, "nodes") in L and NODES in L, "with_nodes:both", f.loc(), f"the new graph consists of {tstr(ud[0].arg('nodes', 0))}", p)
                rs = ud[0].arg("reset_dependencies", 2)
                ctx.check(rs in (None, TRUE), "with_nodes:copies", f.loc(), "the graph's own nodes are re-connected in place", p)
    ctx.need(k, "with_nodes not recognised")
    f = ix.func("hamilton.io.materialization.modify_graph")
    k = 0
    keyed = rejects = False
    for p in ctx.paths(f, inline_modules=[f.module.name], opaque=["with_nodes", "generate_nodes", "update_dependencies"], raises="none", unroll=2):
        if p.kind == "raise" and any("name" in repr(kk) and "generate_nodes" in repr(kk) for kk in p.facts):
            rejects = True
        w = [e for e in p.trace if e.name == "with_nodes"]
        for e in w:
            k += 1
            a = e.args[0]
            keyed = keyed or a[0] == "dict" and any(r[0] == "kv" and r[1][0] == "attr" and r[1][2] == "name" for r in a[1])
        if p.kind == "return":
            ctx.check(bool(w), "materialize:added", f.loc(), "materializer nodes are not added to the graph", p)
            ud = [e for e in p.trace if e.name == "update_dependencies"]
            ctx.check(bool(ud), "materialize:connected", f.loc(), "loader nodes are not connected and type-checked", p)
    ctx.need(k, "modify_graph not recognised")
    ctx.check(rejects or not keyed, "materialize:unique", f.loc(), "two materializers with the same id silently replace one another")


SELF = ("param", "self")


def legacy(ctx):
    ctx.rule("(adapters) every adapter class that turns the edge question into its own method passes both types, each once, in the order of its parameters' meaning (source, destination).")
    ix = ctx.ix
    n = 0
    for q, inner in (("hamilton.lifecycle.api.GraphAdapter", "check_node_type_equivalence"), ("hamilton.lifecycle.api.EdgeConnectionHook", "check_edge_types_match")):
        c = ix.cls(q)
        f = ix.method(c, "do_check_edge_types_match")
        for p in ctx.paths(f, self_cls=c, raises="none", opaque=[inner]):
            e = [e for e in p.trace if e.name == inner]
            ctx.need(len(e) == 1, f"{c.name}.do_check_edge_types_match not recognised")
            n += 1
            args = list(e[0].args) + list(e[0].kwargs.values())
            ctx.check(sorted(map(str, args)) == sorted(map(str, [("param", "type_from"), ("param", "type_to")])), f"{c.name}:both-types", e[0].where(), "the adapter's test does not see both types", p)
            ctx.check(p.value == ("res", e[0].uid), f"{c.name}:answer", f.loc(), "the adapter's answer is not what is returned", p)
    ctx.need(n, "edge adapters not found")


PARTS = [("edge", edges_of_node), ("all edges", all_edges), ("unique", unique), ("adapters", legacy)]
