"""The graph walk (execute_subdag) analysed once, shared by P05, P06 and P07."""
from .common import *

MOD = "hamilton.execution.graph_functions"
COMPUTED, OVERRIDES, INPUTS, NODES = ("param", "computed"), ("param", "overrides"), ("param", "inputs"), ("param", "nodes")


def body_of(e):
    """(node term, kwargs records) of an event that executes a node, else None."""
    if method(e) == "do_remote_execute":
        n = kw(e, "node")
        fn = kw(e, "execute_lifecycle_for_node")
        return n, fn
    if e.kind in ("call", "callv") and e.name == "execute_lifecycle_for_node":
        return e.arg("__node_", 0), None
    return None


def walk_paths(ctx, raises="none"):
    f = ctx.ix.func(MOD + ".execute_subdag")
    ps = ctx.paths(f, inline_modules=[MOD], pure=PURE, opaque=["execute_lifecycle_for_node"], raises=raises,
                   keyfacts=lambda k: k[0] in ("in", "truthy") and ("depended_on_by" in repr(k) or k[-1] == COMPUTED),
                   keep=lambda e: e.kind in ("setitem", "delitem", "mut", "aug") or e.name in METHODS or e.name in HOOKS
                   or e.name in ("execute_lifecycle_for_node",) or (e.func or "").startswith(MOD) and e.kind in ("call", "callv") and is_recursive(e))
    return f, ps


def is_recursive(e):
    """A call to a function of the walk that could not be inlined (recursion)."""
    return e.qual is not None and e.qual.startswith(MOD + ".execute_subdag")


def is_name_of(t, n):
    return t == ("attr", n, "name")


def node_names(p):
    """Terms of nodes visited on this path (bases of .name tests against computed)."""
    out = []
    for k in p.facts:
        if k[0] == "in" and k[1][0] == "attr" and k[1][2] == "name" and k[2] in (COMPUTED, OVERRIDES):
            out.append(k[1][1])
    return out
