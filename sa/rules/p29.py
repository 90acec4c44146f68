"""P29: what the dataflow consists of, and every question about it, is answered from the functions and edges that are there."""
from ..interp import is_const
from .common import *
from .p15 import SELFT
from .p21 import ev_of
from .p24 import D, L, T, V, entries, items, names, paths
from .p25 import P, at_, mentions

G = "hamilton.graph.FunctionGraph"
DR = "hamilton.driver.Driver"
TRUE, FALSE, NONE = const(True), const(False), const(None)

# small graphs: name -> what it leads to
SHAPES = {
    "chain": {"a": "b", "b": "c", "c": ""},
    "diamond": {"a": "bc", "b": "d", "c": "d", "d": "e", "e": "", "x": "d"},
    "apart": {"a": "b", "b": "", "c": "d", "d": ""},
    "cycle": {"a": "b", "b": "c", "c": "a", "d": "b"},
    "skip": {"a": "bcd", "b": "c", "c": "", "d": "e", "e": ""},
    "late": {"a": "b", "b": "cd", "c": "e", "d": "e", "e": ""},
    "fan": {"a": "bcd", "b": "", "c": "d", "d": "b"},
}


def reach(shape, starts):
    seen, todo = set(), list(starts)
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo += list(shape[n])
    return seen


def distinct(ns):
    """The nodes of a graph are different from one another."""
    return {("eq", V(a), V(b)): False for a in ns for b in ns if a != b}


def told(ctx, p, what, assumed=()):
    """The path depends on nothing that is left open."""
    ctx.need(all(k in assumed for k in p.facts), f"{what}: {'; '.join(tstr(k[1])[:30] + ' ' + k[0] for k in p.facts if k not in assumed)[:120]} is not decided")


def members(t):
    xs = items(t) if t is not None else None
    return None if xs is None else list(dict.fromkeys(x[1] if x[0] == "sym" else None for x in xs)) if t[0] == "set" else [x[1] if x[0] == "sym" else None for x in xs]


def pair(t):
    return [e[1] if e[0] == "e" else e for e in t[1]] if t[0] == "tuple" and len(t[1]) == 2 else None


def is_next(e):
    return e.kind in ("callv", "call") and (e.recv == P("next_nodes_fn") or e.name == "next_nodes_fn")


def traverse(ctx):
    ctx.rule("(traverse) a traversal yields exactly what can be reached from the names it starts at, each once, whatever the shape (also with cycles), the external inputs among them as such; a name that is neither in the graph nor an input is an error, whatever the others are.")
    c = ctx.ix.cls(G)
    f = ctx.ix.find_method(c, "directional_dfs_traverse")
    ctx.need(f is not None and {"next_nodes_fn", "starting_nodes", "runtime_inputs"} <= set(names(f)), "directional_dfs_traverse has other parameters")
    for name, shape in SHAPES.items():
        users = {n for n in shape if n in "bd"}
        as_ = {**distinct(shape), **{("truthy", at_(V(n), "user_defined")): n in users for n in shape}}
        starts = [[n] for n in sorted(shape)] + [sorted(shape)[:2], sorted(shape)[-2:], [], ["a", "a"]]
        for st in starts:
            ps = paths(ctx, f, c, attrs={(SELFT, "nodes"): D({n: V(n) for n in shape}), (SELFT, "config"): D({})}, bind={"starting_nodes": L(*[const(n) for n in st]), "runtime_inputs": NONE}, recursion=12, assume=as_,
                       returns=lambda e: L(*[V(n) for n in shape[e.args[0][1]]]) if is_next(e) and e.args and e.args[0][0] == "sym" else None)
            label = f"{name} from {''.join(st) or 'nothing'}"
            for p in ps:
                told(ctx, p, f"traverse ({label})", as_)
                if p.kind != "return":
                    ctx.bad(f"traverse:{name}", f.loc(), f"{label}: an error", p)
                    continue
                two = pair(p.value)
                got = [members(x) for x in two] if two else [None, None]
                ctx.need(None not in got, f"traverse ({label}): what is given back is not told exactly")
                want = reach(shape, st)
                ctx.check(sorted(got[0], key=str) == sorted(want), f"traverse:{name}", f.loc(), f"{label} gives {sorted(map(str, got[0]))}, what can be reached is {sorted(want)}", p)
                ctx.check(sorted(got[1], key=str) == sorted(want & users), f"traverse:inputs:{name}", f.loc(), f"{label} gives external inputs {sorted(map(str, got[1]))}, not {sorted(want & users)}", p)
                asked = [e.args[0] for e in p.trace if is_next(e)]
                ctx.check(len(asked) <= len(set(asked)) + len(st), f"traverse:once:{name}", f.loc(), f"{label}: a node is visited twice, which takes exponential time on a graph of diamonds", p)
    shape = SHAPES["chain"]
    as_ = {**distinct(shape), **{("truthy", at_(V(n), "user_defined")): False for n in shape}}
    for st, ins, bad in ((["zz"], {}, True), (["a", "zz"], {}, True), (["zz", "a"], {}, True), (["zz", "i"], {"i": V("iv")}, True), (["i"], {"i": V("iv")}, False), (["i", "a"], {"i": V("iv")}, False), (["i", "zz"], {"i": V("iv")}, True)):
        for p in paths(ctx, f, c, attrs={(SELFT, "nodes"): D({n: V(n) for n in shape}), (SELFT, "config"): D({})}, bind={"starting_nodes": L(*[const(n) for n in st]), "runtime_inputs": D(ins)}, recursion=12, assume=as_,
                       returns=lambda e: L(*[V(n) for n in shape[e.args[0][1]]]) if is_next(e) and e.args and e.args[0][0] == "sym" else None):
            told(ctx, p, f"traverse {st}", as_)
            ctx.check((p.kind == "raise") == bad, f"traverse:unknown:{','.join(st)}", f.loc(), f"asking for {st} with inputs {sorted(ins)} {'is not an error' if bad else 'is an error'}", p)
            if p.kind == "return" and not bad:
                got = members(pair(p.value)[0])
                ctx.check(sorted(got) == sorted(reach(shape, [s for s in st if s in shape])), f"traverse:unknown:{','.join(st)}", f.loc(), f"asking for {st} with inputs {sorted(ins)} gives {got}", p)
    ctx.count("graph shapes", len(SHAPES))


def follow(ctx):
    ctx.rule("(follow) downstream follows what depends on a node; upstream follows what a node depends on, at definition time all of it, at run time leaving out exactly optional external inputs that were not given.")
    c = ctx.ix.cls(G)
    f = ctx.ix.find_method(c, "get_downstream_nodes")
    for p in paths(ctx, f, c, opaque=["directional_dfs_traverse"]):
        es = [e for e in p.trace if e.name == "directional_dfs_traverse"]
        ctx.need(len(es) == 1, "get_downstream_nodes is not recognised")
        e = es[0]
        ctx.check(e.arg("starting_nodes", 1) == P("var_changes"), "follow:downstream:start", e.where(), "what is downstream is not told of the nodes asked about", p)
        nf = e.arg("next_nodes_fn", 0)
        for q in p.invoke(nf, args=(V("n"),), raises="none"):
            ctx.check(q.kind == "return" and same_nodes(q, at_(V("n"), "depended_on_by")), "follow:downstream", f.loc(), f"downstream follows {tstr(q.value)[:60]}, not what depends on a node", p)
        ctx.check(p.kind == "return" and p.value == ("item", ("res", e.uid), const(0)), "follow:downstream:all", f.loc(), f"what is downstream is {tstr(p.value)[:60]}", p)
    f = ctx.ix.find_method(c, "get_upstream_nodes")
    n, deps = V("n"), ["req", "opt", "opt_given", "opt_config", "opt_node"]
    kinds = {d: at_(V("DT"), "x") for d in deps}
    REQ, OPT = ("global", "hamilton.node.DependencyType.REQUIRED"), ("global", "hamilton.node.DependencyType.OPTIONAL")
    base = {(n, "name"): const("n"), (n, "dependencies"): L(*[V(d) for d in deps]), (n, "input_types"): D({d: T(V("t"), REQ if d == "req" else OPT) for d in deps}), (SELFT, "config"): D({"opt_config": V("cv")})}
    base.update({(V(d), "name"): const(d) for d in deps})
    as_ = {("truthy", at_(V(d), "user_defined")): d != "opt_node" for d in deps}
    base.update({(V(d), "user_defined"): const(d != "opt_node") for d in deps})
    for label, ins, ovr, want in (
        ("definition", NONE, NONE, deps),
        ("run", D({"opt_given": V("v")}), NONE, ["req", "opt_given", "opt_config", "opt_node"]),
        ("run without inputs", D({}), NONE, ["req", "opt_config", "opt_node"]),
        ("run with overrides", D({"opt_given": V("v")}), D({"other": V("v")}), ["req", "opt_given", "opt_config", "opt_node"]),
        ("overridden", D({"opt_given": V("v")}), D({"n": V("v")}), []),
        ("overridden with None", D({"opt_given": V("v")}), D({"n": NONE}), []),
    ):
        for p in paths(ctx, f, c, opaque=["directional_dfs_traverse"], attrs=base, bind={"runtime_inputs": ins, "runtime_overrides": ovr}):
            es = [e for e in p.trace if e.name == "directional_dfs_traverse"]
            ctx.need(len(es) == 1, "get_upstream_nodes is not recognised")
            e = es[0]
            ctx.check(e.arg("starting_nodes", 1) == P("final_vars"), "follow:upstream:start", e.where(), "what is upstream is not told of the nodes asked about", p)
            ctx.check(p.kind == "return" and (p.value == ("res", e.uid) or p.value[0] == "tuple" and pair(p.value) == [("item", ("res", e.uid), const(0)), ("item", ("res", e.uid), const(1))]), "follow:upstream:all", f.loc(), f"what is upstream is {tstr(p.value)[:60]}", p)
            for q in p.invoke(e.arg("next_nodes_fn", 0), args=(n,), raises="none", attrs=base, assume=as_):
                got = items(q.value)
                if got is None and label == "definition":
                    got = [V(d) for d in deps] if q.value == at_(n, "dependencies") else None
                ctx.need(got is not None, f"get_upstream_nodes ({label}): what is followed is not told exactly")
                ctx.check(sorted(got) == sorted(V(d) for d in want), f"follow:upstream:{label}", f.loc(), f"{label}: what a node depends on is taken to be {[tstr(x) for x in got]}, not {want}", p)


def same_nodes(q, t):
    return q.value == t or q.value[0] == "res" and any(e.uid == q.value[1] and t in e.args for e in q.trace) or q.value[0] == "pure" and t in q.value[3] and q.value[1] in ("list", "set", "tuple", "iter")


def between(ctx):
    ctx.rule("(between) the path between two nodes is exactly what is both downstream of the first and upstream of the second, both included, whichever way it is computed; names that are not in the graph are an error.")
    ix = ctx.ix
    c = ix.cls(DR)
    f = ix.find_method(c, "_get_nodes_between")
    ctx.need(f is not None, "Driver._get_nodes_between is gone")
    a, b = names(f)[1:3]

    def gives(e):
        if e.name == "get_downstream_nodes":
            return SETS["down"]
        if e.name == "get_upstream_nodes":
            return T(SETS["up"], SETS["none"])
        return None
    from .p24 import L as L_
    SETS = {"down": L_(V("s"), V("m"), V("e"), V("other")), "up": L_(V("s"), V("m"), V("e"), V("sib")), "none": L_(V("s"))}
    ns = ["s", "m", "e", "other", "sib"]
    for p in paths(ctx, f, c, returns=gives, assume=distinct(ns)):
        d, u = [e for e in p.trace if e.name == "get_downstream_nodes"], [e for e in p.trace if e.name == "get_upstream_nodes"]
        ctx.check(len(d) == 1 and items(d[0].arg("var_changes", 0)) == [P(a)] and len(u) == 1 and items(u[0].arg("final_vars", 0)) == [P(b)], "between:ends", f.loc(), "the path is not looked for from the first node to the second", p)
        got = members(p.value)
        if got is None and p.value[0] == "pure":
            got = folded(p.value)
        ctx.need(got is not None, "the path between two nodes is not told exactly")
        ctx.check(sorted(got, key=str) == ["e", "m", "s"], "between:both", f.loc(), f"the path is {got}, not what is both downstream of the one and upstream of the other", p)
    f = ix.find_method(c, "what_is_the_path_between")
    up, down = names(f)[1:3]
    for x, y in (("a", "b"), ("a", "zz"), ("zz", "b")):
        na, nb = V("na"), V("nb")
        for p in paths(ctx, f, c, bind={up: const(x), down: const(y)}, attrs={(na, "name"): const("a"), (nb, "name"): const("b")}, opaque=["_get_nodes_between", "from_node"],
                       returns=lambda e: L(na, nb) if e.name in ("get_nodes", "_get_nodes_between") else None):
            ctx.check((p.kind == "raise") == (y == "zz" or x == "zz"), f"between:known:{x},{y}", f.loc(), f"the path between {x} and {y} in a graph of a and b is {'an error' if p.kind == 'raise' else 'not an error'}", p)
            if p.kind == "return":
                asked(ctx, p, f, "between:described", [na, nb])
                es = [e for e in p.trace if e.name == "_get_nodes_between"]
                ctx.check(len(es) == 1 and es[0].arg(a, 0) == const(x) and es[0].arg(b, 1) == const(y), "between:asked", f.loc(), "the path is looked for between other nodes", p)
    # backwards search
    f = ix.func("hamilton.execution.graph_functions.nodes_between")
    end, cond = names(f)[:2]
    for name, shape in SHAPES.items():
        if name == "cycle":
            continue
        rev = {n: [m for m in sorted(shape) if n in shape[m]] for n in shape}
        for t in sorted(shape):
            for s in sorted(shape):
                if s == t:
                    continue
                at = {(V(n), "dependencies"): L(*[V(m) for m in rev[n]]) for n in shape}
                down, upw = reach(shape, [s]), reach({n: "".join(rev[n]) for n in shape}, [t])
                for p in paths(ctx, f, None, bind={end: V(t)}, attrs=at, recursion=12, assume=distinct(shape), returns=lambda e: const(e.args[0] == V(s)) if e.kind in ("callv", "call") and (e.recv == P(cond) or e.name == cond) and e.args else None):
                    told(ctx, p, "nodes_between", distinct(shape))
                    two = pair(p.value) if p.kind == "return" else None
                    ctx.need(two is not None and members(two[1]) is not None, "nodes_between: what is given back is not told exactly")
                    there = t in down
                    ctx.check(two[0] == (V(s) if there else NONE), f"between:start:{name}", f.loc(), f"{name}, from {s} to {t}: the start found is {tstr(two[0])[:40]}", p)
                    want = (down & upw) - {s, t}
                    ctx.check(sorted(members(two[1]), key=str) == sorted(want), f"between:{name}", f.loc(), f"{name}, between {s} and {t} are {sorted(map(str, members(two[1])))}, not {sorted(want)}", p)


def folded(t):
    """The members of an intersection of known sets."""
    if t[0] == "pure" and t[1] == "intersection":
        xs = [members(x) for x in (t[2],) + tuple(t[3])]
        if None not in xs:
            return sorted(set(xs[0]).intersection(*xs[1:]))
    if t[0] == "pure" and t[1] in ("set", "list") and len(t[3]) == 1:
        return folded(t[3][0]) or members(t[3][0])
    return None


def asked(ctx, p, f, key, want):
    es = [ev_of(p, x[1]) if x[0] == "res" else None for x in (items(p.value) or [])]
    got = [list(e.args) + list(e.kwargs.values()) if e is not None and e.name == "from_node" else None for e in es]
    ctx.check(sorted(map(repr, got)) == sorted(repr([w]) for w in want), key, f.loc(), f"{f.qual.rsplit('.', 1)[-1]} gives {[tstr(x[0])[:20] if x else None for x in got]}, not the nodes found", p)


def queries(ctx):
    ctx.rule("(queries) the driver answers questions about the dataflow from its graph: all variables, those that match all tags asked for, what is upstream and downstream of the nodes named, whether there are cycles, each node found given once and described as it is.")
    ix = ctx.ix
    c = ix.cls(DR)
    na, nb, nc = V("na"), V("nb"), V("nc")
    for m, src in (("what_is_downstream_of", "get_downstream_nodes"), ("what_is_upstream_of", "get_upstream_nodes")):
        f = ix.find_method(c, m)
        for p in paths(ctx, f, c, opaque=["from_node"], returns=lambda e: (T(L(na, nb), L(nc)) if "up" in src else L(na, nb)) if e.name == src else None):
            es = [e for e in p.trace if e.name == src]
            ctx.check(len(es) == 1 and len(es[0].args) + len(es[0].kwargs) == 1, f"queries:{m}", f.loc(), f"{m} does not ask for exactly the nodes named", p)
            if es:
                x = (list(es[0].args) + list(es[0].kwargs.values()))[0]
                ctx.check(any(mentions(x, P(n)) for n in ("node_names", "*node_names")) and x[0] != "item", f"queries:{m}", es[0].where(), f"{m} asks about {tstr(x)[:50]}", p)
            asked(ctx, p, f, f"queries:{m}", [na, nb])
    f = ix.find_method(c, "list_available_variables")
    for p in paths(ctx, f, c, bind={"tag_filter": NONE}, opaque=["from_node"], returns=lambda e: L(na, nb, nc) if e.name == "get_nodes" else None):
        asked(ctx, p, f, "queries:all", [na, nb, nc])
    for flt, ok in ((D({"t": const("v")}), True), (D({"t": NONE}), True), (D({"t": L(const("v"), const("w"))}), True), (D({"t": L()}), False), (D({"t": const("v"), "u": L()}), False)):
        hits = {"na": True, "nb": False, "nc": True}
        for p in paths(ctx, f, c, bind={"tag_filter": flt}, opaque=["from_node", "matches_query"], returns=lambda e: L(na, nb, nc) if e.name == "get_nodes" else const(any(mentions(x, at_(V(n), "tags")) for n, h in hits.items() if h for x in e.args[:1])) if e.name == "matches_query" else None):
            if not ok:
                ctx.check(p.kind == "raise" or any(k[0] == "isinstance" for k in p.facts), f"queries:filter-valid:{tstr(flt)[:40]}", f.loc(), f"tag_filter={tstr(flt)} is not an error", p)
                continue
            if p.kind == "raise":
                ctx.bad(f"queries:filter:{tstr(flt)[:40]}", f.loc(), f"tag_filter={tstr(flt)} is an error", p)
                continue
            asked(ctx, p, f, f"queries:filter:{tstr(flt)[:40]}", [na, nc])
            for e in p.trace:
                if e.name == "matches_query":
                    ctx.check(entries(e.arg("query_dict", 1) or NONE) is not None and set(entries(e.arg("query_dict", 1))) == {k for k, _ in flt[2]}, "queries:filter-asked", e.where(), "nodes are not matched with the whole filter", p)
    f = ix.find_method(c, "has_cycles")
    for p in paths(ctx, f, c, opaque=["_create_final_vars"], assume={("isnone", P("_fn_graph")): True}):
        es = [e for e in p.trace if e.name == "has_cycles"]
        u = [e for e in p.trace if e.name == "get_upstream_nodes"]
        ctx.check(p.kind == "return" and len(es) == 1 and p.value == ("res", es[0].uid) and len(u) == 1 and [*es[0].args, *es[0].kwargs.values()] == [("item", ("res", u[0].uid), const(i)) for i in (0, 1)], "queries:cycles", f.loc(), "whether there are cycles is not told of what the variables asked for depend on", p)
    c = ix.cls(G)
    f = ix.find_method(c, "get_nodes")
    for p in paths(ctx, f, c, attrs={(SELFT, "nodes"): D({"a": na, "b": nb})}):
        ctx.check(members(p.value) == ["na", "nb"], "queries:get-nodes", f.loc(), f"the nodes of a graph of two are {tstr(p.value)[:50]}", p)


QUERIES = [
    # tags, query, matches
    ({"a": "1", "b": "2"}, {}, True),
    ({}, {}, True),
    ({"a": "1", "b": "2"}, {"a": "1"}, True),
    ({"a": "1", "b": "2"}, {"a": "2"}, False),
    ({"a": "12"}, {"a": "1"}, False),
    ({"a": "1"}, {"a": "12"}, False),
    ({"a": "1", "b": "2"}, {"a": None}, True),
    ({"a": "1", "b": "2"}, {"c": None}, False),
    ({"a": "1", "b": "2"}, {"c": "1"}, False),
    ({"a": "1", "b": "2"}, {"a": "1", "b": "2"}, True),
    ({"a": "1", "b": "2"}, {"a": "1", "b": "3"}, False),
    ({"a": "1", "b": "2"}, {"a": "3", "b": "2"}, False),
    ({"a": "1", "b": "2"}, {"a": None, "b": "3"}, False),
    ({"a": "1"}, {"a": "1", "b": None}, False),
    ({"a": "1"}, {"b": None, "a": "1"}, False),
    ({"a": "1"}, {"a": ["1", "2"]}, True),
    ({"a": "2"}, {"a": ["1", "2"]}, True),
    ({"a": "3"}, {"a": ["1", "2"]}, False),
    ({"a": ["1", "3"]}, {"a": "3"}, True),
    ({"a": ["1", "3"]}, {"a": "2"}, False),
    ({"a": ["1", "3"]}, {"a": ["3", "4"]}, True),
    ({"a": ["1", "3"]}, {"a": ["4", "5"]}, False),
    ({"a": ["1"], "b": "x"}, {"a": ["1"], "b": ["y"]}, False),
]


def lit(x):
    return D({k: lit(v) for k, v in x.items()}) if isinstance(x, dict) else L(*[lit(v) for v in x]) if isinstance(x, list) else const(x)


def tags(ctx):
    ctx.rule("(tags) a tag query matches a node exactly when the node has every tag asked for, with one of the values asked for, or any value where none is.")
    f = ctx.ix.func("hamilton.node.matches_query")
    ps_ = names(f)[:2]
    for t, q, want in QUERIES:
        for p in paths(ctx, f, None, bind={ps_[0]: lit(t), ps_[1]: lit(q)}):
            told(ctx, p, f"matches_query (tags {t}, asked for {q})")
            v = p.value if p.kind == "return" else None
            if v is None or v not in (TRUE, FALSE):
                ctx.check(p.kind == "return", f"tags:{t}:{q}", f.loc(), f"tags {t}, asked for {q}: an error", p)
                ctx.need(False, f"matches_query: the answer is not told exactly for tags {t}, asked for {q}: {tstr(p.value)[:60]}")
            ctx.check(v == const(want), f"tags:{t}:{q}", f.loc(), f"tags {t}, asked for {q}: {'matches' if v == TRUE else 'does not match'}", p)
    ctx.count("tag queries", len(QUERIES))


MODS = [("m", "m", True), ("m.sub", "m", True), ("m.sub.deep", "m.sub", True), ("pkg.m", "pkg.m", True), ("m_helpers", "m", False), ("lib.m", "m", False), ("other", "m", False), ("m", "m.sub", False), ("xm", "m", False), ("pkg.mods", "pkg.mod", False)]


def functions(ctx):
    ctx.rule("(functions) a module's nodes are exactly the public functions defined in it or in its own submodules; a function it only imports, whatever the module that function is from is called, is not one.")
    ix = ctx.ix
    f = ix.func("hamilton.graph_utils.find_functions")
    mod = names(f)[0]
    M, FN, OWN = P(mod), V("fn"), V("ownmod")
    fns = 0
    for fname in ("public", "_private", "__dunder", "x"):
        for child, parent, inside in MODS:
            at = {(FN, "__name__"): const(fname), (OWN, "__name__"): const(child), (M, "__name__"): const(parent)}
            as_ = {("eq", OWN, M): child == parent, ("is", OWN, M): child == parent}
            both = [T(const(fname), FN), T(const("other_one"), FN)]
            for p in paths(ctx, f, None, attrs=at, assume=as_, opaque=["isfunction", "getmodule"], returns=lambda e: OWN if e.name == "getmodule" else L(*both) if e.name == "getmembers" else None):
                if p.kind != "return":
                    continue
                es = [e for e in p.trace if e.name == "getmembers"]
                ctx.need(len(es) == 1, "find_functions does not use getmembers")
                ctx.check(es[0].arg("object", 0) == M, "functions:module", f.loc(), "the functions are not those of the module", p)
                pred = es[0].arg("predicate", 1)
                want = inside and not fname.startswith("_")
                got = items(p.value)
                ctx.need(got is not None, "find_functions: what is given back is not told exactly")
                got = [[y[1] if is_const(y) else None for y in items(x) or []][:1] for x in got]
                key, msg = f"functions:{fname}:{child} in {parent}", f"function {fname} of module {child} {'is no' if want else 'becomes a'} node of module {parent}"
                if pred is None:
                    fns += 1
                    isf = [p.facts.get(("truthy", ("res", e.uid))) for e in p.trace if e.name == "isfunction"]
                    ctx.check(bool(isf) or not got, "functions:functions", f.loc(), "something that is not a function may become a node", p)
                    ctx.need(len(isf) == 2, "find_functions: the picking is not recognised")
                    ctx.check([fname] in got if isf[0] and want else [fname] not in got, key, f.loc(), msg, p)
                    continue
                ctx.check(got == [[fname], ["other_one"]], "functions:all", f.loc(), f"of the functions {fname} and other_one found, {got} are given back", p)
                if pred[0] == "global" and pred[1] == "inspect.isfunction":
                    ctx.check(want, key, f.loc(), msg, p)
                    continue
                ctx.need(pred[0] in ("clos", "partial"), "find_functions picks functions in a way not recognised")
                for q in p.invoke(pred, args=(FN,), raises="none", attrs=at, opaque=["isfunction", "getmodule"], returns=lambda e: OWN if e.name == "getmodule" else None):
                    asked_ = [e for e in q.trace if e.name == "isfunction"]
                    isf = [q.facts.get(("truthy", ("res", e.uid))) for e in asked_]
                    fns += 1
                    val, w = q.value, want
                    if False in isf:
                        w = False
                    if asked_ and val == ("res", asked_[0].uid):
                        val = FALSE if False in isf else TRUE  # the answer is what isfunction says
                    ctx.need(val in (TRUE, FALSE) and all(k in as_ or k[0] == "truthy" and k[1] in [("res", e.uid) for e in asked_] for k in q.facts), f"find_functions: the answer is not told exactly: {tstr(val)[:60]}")
                    ctx.check(bool(asked_) or val == FALSE, "functions:functions", f.loc(), "something that is not a function may become a node", p)
                    ctx.check(val == const(w), key, f.loc(), msg, p)
    ctx.need(fns, "find_functions is not recognised")
    ctx.count("function/module cases", fns)


def cycles(ctx):
    ctx.rule("(cycles) cycles are looked for in the graph of exactly the nodes given and all their dependencies, in their direction, and there are cycles exactly when some are found.")
    ix = ctx.ix
    f = ix.func("hamilton.graph.create_networkx_graph")
    for name, shape in SHAPES.items():
        users = [n for n in sorted(shape) if n == "x"]
        comp = [n for n in sorted(shape) if n not in users]
        rev = {n: [m for m in sorted(shape) if n in shape[m]] for n in shape}
        at = {**{(V(n), "dependencies"): L(*[V(m) for m in rev[n]]) for n in shape}, **{(V(n), "name"): const(n) for n in shape}}
        for p in paths(ctx, f, None, bind={"nodes": L(*[V(n) for n in comp]), "user_nodes": L(*[V(n) for n in users])}, attrs=at):
            edges = {(e.args[0][1], e.args[1][1]) for e in p.trace if e.name == "add_edge" and len(e.args) == 2 and all(is_const(a) for a in e.args)}
            for e in p.trace:
                if e.name == "add_edges_from":
                    es = [items(x) for x in items(e.args[0]) or []]
                    ctx.need(items(e.args[0]) is not None and all(x is not None and all(is_const(y) for y in x) for x in es), "the edges of the graph are not told exactly")
                    edges |= {(x[0][1], x[1][1]) for x in es}
            ctx.need(not any(e.name in ("add_nodes_from", "from_dict_of_lists") for e in p.trace), "the nodes of the graph are not told exactly")
            want = {(m, n) for m in shape for n in shape[m]}
            ctx.check(edges == want, f"cycles:edges:{name}", f.loc(), f"the graph in which cycles are looked for has edges {sorted(edges)}, not {sorted(want)}", p)
            ctx.check({e.args[0][1] for e in p.trace if e.name == "add_node" and is_const(e.args[0])} == set(shape), f"cycles:nodes:{name}", f.loc(), "the graph in which cycles are looked for has other nodes", p)
    c = ix.cls(G)
    f = ix.find_method(c, "has_cycles")
    for found, want in ((L(L(const("a"), const("b"))), TRUE), (L(), FALSE)):
        for p in paths(ctx, f, c, opaque=["get_cycles"], returns=lambda e: found if e.name == "get_cycles" else None):
            ctx.check(p.kind == "return" and p.value == want, "cycles:told", f.loc(), f"with cycles {tstr(found)} found, there are said to be {tstr(p.value)[:40]}", p)
            es = [e for e in p.trace if e.name == "get_cycles"]
            ctx.check(len(es) == 1 and [*es[0].args, *es[0].kwargs.values()] == [P("nodes"), P("user_nodes")], "cycles:asked", f.loc(), "cycles are not looked for among the nodes given", p)
    f = ix.find_method(c, "get_cycles")
    found = (L(const("a")), L(const("b"), const("c")))
    for p in paths(ctx, f, c, opaque=["create_networkx_graph"], returns=lambda e: L(*found) if e.name in ("simple_cycles", "recursive_simple_cycles") else None):
        es = [e for e in p.trace if e.name == "create_networkx_graph"]
        if p.kind != "return" or not es:
            continue
        ctx.check(es[0].arg("nodes", 0) == P("nodes") and es[0].arg("user_nodes", 1) == P("user_nodes"), "cycles:graph", es[0].where(), "cycles are not looked for among the nodes given", p)
        sc = [e for e in p.trace if e.name in ("simple_cycles", "recursive_simple_cycles")]
        ctx.need(len(sc) == 1, "get_cycles looks for cycles in a way not recognised")
        got = items(p.value)
        ctx.need(got is not None, "get_cycles: what is given back is not told exactly")
        ctx.check(sc[0].args[:1] == (("res", es[0].uid),) and [[x[1] for x in items(y) or []] for y in got] == [["a"], ["b", "c"]], "cycles:all", f.loc(), f"with the cycles a and b, c found, those given are {tstr(p.value)[:50]}", p)


def versions(ctx):
    ctx.rule("(version) a dataflow's version depends on the version of every node and on nothing else: not on the order in which nodes are found; a node's version is the hash of its own function, comments and documentation aside; a description of a node holds the node's own name, tags, type, dependencies and source.")
    ix = ctx.ix
    g = ix.cls("hamilton.graph_types.HamiltonGraph")
    f = ix.find_method(g, "version")
    ns = ["n1", "n2", "n3", "n4", "n5", "n6", "n7"]
    vers = {"n1": const("vb"), "n2": const("va"), "n3": NONE, "n4": const("vc"), "n5": const("ve"), "n6": const("vd"), "n7": const("vf")}
    outs = []
    for order in (ns, ns[::-1], ns[2:] + ns[:2]):
        for p in paths(ctx, f, g, known_limit=12, attrs={(SELFT, "nodes"): L(*[V(n) for n in order]), **{(V(n), "version"): v for n, v in vers.items()}}):
            if p.kind != "return":
                ctx.bad("version:error", f.loc(), "the version of a dataflow is an error", p)
                continue
            h = [e for e in p.trace if e.name in ("sha256", "sha224", "sha1", "md5", "blake2b", "new")]
            ctx.need(len(h) == 1, "the version of a dataflow is made in a way not recognised")
            outs.append((h[0].args, p))
            ctx.check(all(any(s == v for s in subterms(h[0].args[0])) for v in vers.values() if v != NONE) and not any(isinstance(x, tuple) and x[:1] == ("slice",) for x in subterms(h[0].args[0])), "version:every-node", f.loc(), "the version of a dataflow does not depend on the version of every node", p)
            ctx.check(ordered(h[0].args[0]), "version:order", f.loc(), "the version of a dataflow depends on the order in which its nodes are found", p)
            ctx.check(mentions(p.value, ("res", h[0].uid)) or any(e.name == "hexdigest" and e.recv == ("res", h[0].uid) and p.value == ("res", e.uid) for e in p.trace), "version:given", f.loc(), f"the version of a dataflow is {tstr(p.value)[:60]}", p)
    f = ix.find_method(g, "filter_nodes")
    for p in paths(ctx, f, g, attrs={(SELFT, "nodes"): L(V("n1"), V("n2"), V("n3"))}, returns=lambda e: const(e.args[:1] != (V("n2"),)) if e.kind in ("callv", "call") and (e.recv == P("filter") or e.name == "filter") else None):
        ctx.need(members(p.value) is not None, "filter_nodes: what is given back is not told exactly")
        ctx.check(members(p.value) == ["n1", "n3"], "version:filter", f.loc(), f"filter_nodes gives {members(p.value)}, not the nodes that match", p)
    n = ix.cls("hamilton.graph_types.HamiltonNode")
    f = ix.find_method(n, "version")
    F0, F1 = V("f0"), V("f1")
    for label, fs, ext in (("function", T(F0, F1), FALSE), ("function of an input", T(F0), TRUE), ("input", NONE, TRUE), ("empty input", T(), TRUE), ("neither", NONE, FALSE)):
        for p in paths(ctx, f, n, attrs={(SELFT, "originating_functions"): fs, (SELFT, "is_external_input"): ext}, opaque=["hash_source_code"]):
            if p.kind != "return":
                continue
            h = [e for e in p.trace if e.name == "hash_source_code"]
            if "function" in label:
                ctx.check(len(h) == 1 and h[0].arg("source", 0) == F0 and h[0].arg("strip", 1) == TRUE and p.value == ("res", h[0].uid), f"version:node:{label}", f.loc(), f"the version of a node ({label}) is {tstr(p.value)[:50]}, not the hash of its own function without comments", p)
            else:
                ctx.check(not h and p.value == (at_(SELFT, "name") if ext == TRUE else NONE), f"version:node:{label}", f.loc(), f"the version of a node ({label}) is {tstr(p.value)[:50]}", p)
    f = ix.find_method(n, "as_dict")
    for dflt in (TRUE, FALSE):
        for p in paths(ctx, f, n, bind={names(f)[1]: dflt}, attrs={(SELFT, "originating_functions"): T(F0, F1), (SELFT, "required_dependencies"): L(const("r")), (SELFT, "optional_dependencies"): L(const("o")), (SELFT, "version"): V("ver")}, opaque=["get_type_as_string", "getsource"]):
            got = entries(p.value) if p.kind == "return" else None
            ctx.need(got is not None, "HamiltonNode.as_dict is not recognised")
            got = {k[1]: v for k, v in got.items()}
            src = [e for e in p.trace if e.name == "getsource"]
            typ = {("res", e.uid) for e in p.trace if e.name == "get_type_as_string" and e.args[:1] == (at_(SELFT, "type"),)}
            ok = {
                "name": got.get("name") == at_(SELFT, "name"), "tags": got.get("tags") == at_(SELFT, "tags"), "documentation": got.get("documentation") == at_(SELFT, "documentation"), "version": got.get("version") == V("ver"),
                "required_dependencies": mentions(got.get("required_dependencies") or NONE, const("r")) and not mentions(got["required_dependencies"], const("o")),
                "optional_dependencies": mentions(got.get("optional_dependencies") or NONE, const("o")) and not mentions(got["optional_dependencies"], const("r")),
                "source": len(src) == 1 and src[0].args[:1] == (F0,) and got.get("source") == ("res", src[0].uid),
                "output_type": got.get("output_type") in typ | {const("")},
                "optional_dependencies_default_values": (got.get("optional_dependencies_default_values") == at_(SELFT, "optional_dependencies_default_values")) == (dflt == TRUE),
            }
            for k, v in ok.items():
                ctx.check(v, f"version:described:{k}", f.loc(), f"a node's description has {k} {tstr(got.get(k) or NONE)[:50]}", p)


def ordered(t):
    """Every collection of versions inside is put in order."""
    def inside(x, srt):
        if not isinstance(x, tuple):
            return True
        if x and x[0] == "pure" and x[1] == "sorted":
            return True
        if x and x[0] in ("list", "tuple") and len(x) > 1 and isinstance(x[1], tuple) and len([e for e in x[1] if isinstance(e, tuple) and e[:1] == ("e",) and is_const(e[1])]) > 1:
            vals = [e[1][1] for e in x[1]]
            return vals == sorted(vals)
        if x and x[0] == "set":
            return False
        return all(inside(y, srt) for y in x)
    return inside(t, False)


PARTS = [("functions", functions), ("traverse", traverse), ("follow", follow), ("between", between), ("queries", queries), ("tags", tags), ("cycles", cycles), ("versions", versions)]


def run(ctx):
    for name, fn in PARTS:
        ctx.part(name, fn)
