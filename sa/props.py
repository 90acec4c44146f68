"""The properties: source of properties.jsonl, MANIFEST.json and sa/meta.json (python3 -m sa.props regenerates them)."""
import json
import os

PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files,
                      mech=[dict(name=n, where=w) for n, w in mech], technique=technique, note=note))


def NA(id, title, statement, over, text, why, files, mech, reason):
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files,
                               mech=[dict(name=n, where=w) for n, w in mech], reason=reason))


AI = "path-sensitive abstract interpretation of the Python AST with exceptional edges"
TRUST = ("Decided for all inputs on every abstract path (loops summarised, calls into user code and adapters assumed to return anything or raise any Exception at every call) of the functions "
         "named in the evidence. Trusts the AST interpreter in /verif/sa and its model of Python builtins; what it cannot decide is reported as UNDECIDED in the evidence, never as a violation. ")

P("P01", "Every node execution is bracketed by its lifecycle hooks",
  "Whenever a node's function is about to run, every registered pre-node hook has run exactly once for that execution, and when the function returns or raises, every registered post-node hook runs exactly once with that "
  "same node, run and task identity. The post hook reports success, the result and the error exactly as they happened, and what the function returned or raised is what the run sees.",
  "programs inputs configurations fault_sequences", "For every node function (returning any value or raising any exception), every set of registered adapters, sync and async drivers, and failures inside hooks or execution methods.",
  "Tests run a few recording adapters over a few nodes; they do not cover every combination of registered hooks, outcomes and failures inside the hooks themselves, nor both the sync and async code paths.",
  ["hamilton/execution/graph_functions.py", "hamilton/async_driver.py"],
  [("try/except/finally around the node callable", "hamilton/execution/graph_functions.py:execute_lifecycle_for_node"), ("async counterpart", "hamilton/async_driver.py:AsyncGraphAdapter.do_remote_execute")],
  "typestate of the node-hook protocol over abstract paths (dataflow on success/error/result)", TRUST + "BaseException that is not an Exception (KeyboardInterrupt) is outside the property.")

P("P02", "Every run is bracketed by its graph hooks, on success and on failure",
  "For each run started through any entry point (execute, raw_execute, materialize, and their async counterparts) every pre-run hook fires exactly once before any node runs, and once it has fired every post-run hook fires "
  "exactly once after the last node, whether the run succeeded or failed. Both carry the same run id as the nodes of that run; the post hook's success flag, error and results agree with what the caller gets.",
  "inputs configurations fault_sequences", "Every entry point, every adapter set, and an exception at any call made by the run (validation, execution, result building, hooks).",
  "The tests fire the hooks on the straight-line path and one failing node; a failure at each of the other calls, in each entry point, is not sampled.",
  ["hamilton/driver.py", "hamilton/async_driver.py"],
  [("try/except/finally in the entry points", "hamilton/driver.py:Driver.raw_execute, Driver.materialize, Driver.execute"), ("async entry points", "hamilton/async_driver.py:AsyncDriver.raw_execute, execute")],
  "typestate of the run-hook protocol over abstract paths with an exception injected at every call", TRUST)

P("P03", "Every task is bracketed by its task hooks and submitted exactly once",
  "In task-based execution, each task that is run fires the pre-task hooks exactly once before its nodes and the post-task hooks exactly once afterwards, whatever the outcome, with the task's own identity and with success, error and "
  "results that agree with what happened. Every executor, local or remote, runs a submitted task exactly once through that same protocol.",
  "schedules inputs configurations fault_sequences", "Every task, every executor implementation shipped, every adapter set and every point of failure in the task.",
  "Tests check task hooks with one executor on a successful run; the failing paths and the Ray/Dask executors' bodies are not executed there.",
  ["hamilton/execution/executors.py", "hamilton/plugins/h_ray.py", "hamilton/plugins/h_dask.py"],
  [("try/except/finally around the task's nodes", "hamilton/execution/executors.py:base_execute_task"), ("submit_task of each executor", "hamilton/execution/executors.py, hamilton/plugins/h_ray.py, hamilton/plugins/h_dask.py")],
  "typestate of the task-hook protocol over abstract paths; call-site check of every executor", TRUST)

P("P04", "A failure anywhere in a run reaches the caller",
  "If a node, a result builder, a loader/saver or a task raises during a run, the entry point raises that exception to the caller: it is never swallowed, replaced by a partial result or reported as success. "
  "A failed parallel task makes the run fail, also when other tasks succeed.",
  "inputs schedules fault_sequences", "Any exception at any call of the run, any executor, any order in which parallel tasks complete.",
  "Tests raise in one node of a few graphs; they do not raise at each call of each entry point, nor explore completion orders of failing futures.",
  ["hamilton/driver.py", "hamilton/async_driver.py", "hamilton/execution/executors.py", "hamilton/execution/graph_functions.py", "hamilton/execution/state.py"],
  [("re-raise in the entry points", "hamilton/driver.py"), ("result fetched for every in-flight task", "hamilton/execution/executors.py:run_graph_to_completion"), ("future states", "hamilton/execution/executors.py:TaskFuture implementations")],
  "exception-flow analysis over abstract paths (every call may raise; each raise must be the path's outcome)", TRUST + "Exceptions raised by hooks or cleanup afterwards may replace the original.")

P("P05", "Overrides replace nodes: never computed, never descended into",
  "A value passed as an override is the value of that node in the whole run: the node's function is not called, nodes needed only by it are not required and not run, and neither an input nor a config value of the same name "
  "takes precedence over it. This holds alike for the default, task-based and async execution and for validation.",
  "inputs programs configurations", "Every graph, every set of overrides (including None/falsy values and overrides of inputs), every executor.",
  "Tests override one or two nodes with truthy values on the default executor; interplay with inputs, tasks, parallel blocks and falsy values is not covered.",
  ["hamilton/execution/graph_functions.py", "hamilton/graph.py", "hamilton/driver.py", "hamilton/execution/grouping.py", "hamilton/execution/state.py"],
  [("override check before compute", "hamilton/execution/graph_functions.py:execute_subdag"), ("traversal stops at overrides", "hamilton/graph.py:FunctionGraph.get_upstream_nodes"), ("pre-hydrated results", "hamilton/driver.py:TaskBasedGraphExecutor.execute"), ("bind precedence", "hamilton/execution/grouping.py:TaskImplementation.bind")],
  "abstract interpretation: membership-fact analysis of the graph walk, argument-flow and dict-layer precedence", TRUST)

P("P06", "Within a run every node is computed at most once",
  "In a run without parallel expansion a node's function is called at most once, however many nodes depend on it and however often it is requested; all consumers receive that one result. "
  "A result is discarded before the end only if it was not requested and every consumer has already run.",
  "programs inputs", "Every graph shape (diamonds, repeated requests, falsy or None results), every order of traversal.",
  "Tests count calls in a few diamonds; they do not range over graph shapes, None results and the memory-eviction rule.",
  ["hamilton/execution/graph_functions.py"],
  [("memo table consulted before and filled after execution", "hamilton/execution/graph_functions.py:execute_subdag")],
  "abstract interpretation: must-facts on the memo table at each execution of a node", TRUST)

P("P07", "A node is called with exactly its declared dependencies' values",
  "A node's function receives, under each declared parameter name, the value of the node or input that parameter refers to, and nothing else; a parameter is left to its default only when it is optional and its dependency "
  "is absent. No dependency name a user may choose (not starting with an underscore) changes which function is called or with what, whatever decorator, driver or adapter wraps it.",
  "programs inputs configurations", "Every node, every dependency name including names used internally by the framework, sync and async, every wrapping decorator.",
  "Tests use ordinary parameter names; a name such as `fn`, `node` or `kwargs` that collides with a wrapper's own parameter is never sampled, nor are all wrappers.",
  ["hamilton/execution/graph_functions.py", "hamilton/async_driver.py", "hamilton/node.py", "hamilton/function_modifiers/"],
  [("kwargs built from dependencies", "hamilton/execution/graph_functions.py:execute_subdag"), ("positional-only/underscored wrapper parameters", "hamilton/function_modifiers/*.py"), ("zip of names and awaited values", "hamilton/async_driver.py:await_dict_of_tasks")],
  "record-level dataflow of the keyword dict; whole-program lint of generated callables for name capture", TRUST + "For `capture`, a generated function is one whose ** parameter receives node values.")

P("P08", "Nothing runs before the request has been validated",
  "Before any node function runs, the requested outputs have been resolved against the graph being executed and the inputs have been validated for it: an unknown output, a missing required input, an input that clashes with "
  "config or an input of the wrong type is rejected with an error and no node has run. The dry-run validation methods accept exactly the requests execution would accept.",
  "inputs programs configurations", "Every entry point, graph, requested outputs, inputs and overrides.",
  "Tests reject a handful of bad requests on one entry point; that no path of any entry point reaches execution first is not observable from samples.",
  ["hamilton/driver.py", "hamilton/async_driver.py", "hamilton/graph.py", "hamilton/execution/graph_functions.py"],
  [("validate_inputs / executor.validate before execute", "hamilton/driver.py:Driver.raw_execute, materialize, validate_execution"), ("unknown outputs raise", "hamilton/graph.py:FunctionGraph.get_upstream_nodes"), ("required test", "hamilton/execution/graph_functions.py:node_is_required_by_anything")],
  "dominance of validation over execution on abstract paths, with argument-flow equality", TRUST + "The async driver does not validate inputs (known finding).")

P("P09", "Executing has no effect on the caller's objects, the driver or its graph",
  "Executing, materializing, validating or visualising leaves the caller's inputs, overrides, config and requested outputs, and the driver and its graph, exactly as they were, so a driver can be used any number of times and each run starts "
  "with no results of another. Drivers built from one builder share no mutable state with it or with each other, and constructing a driver or graph does not change what it is given.",
  "histories inputs programs configurations", "Every sequence of operations on a driver and builder, every input.",
  "Tests execute a driver once or twice with fresh dictionaries; a leak shows only in a later, different operation of some history.",
  ["hamilton/driver.py", "hamilton/async_driver.py", "hamilton/graph.py", "hamilton/execution/graph_functions.py", "hamilton/execution/grouping.py", "hamilton/io/materialization.py"],
  [("copies before modification", "hamilton/graph.py:update_dependencies, hamilton/driver.py:Builder.build"), ("fresh result table per run", "hamilton/driver.py:DefaultGraphExecutor.execute, TaskBasedGraphExecutor.execute")],
  "interprocedural mutation-effect (purity/escape) analysis", TRUST + "Values stored in the dictionaries (dataframes) are the user's: node functions may mutate them. Parallelizable node callables are wrapped in place once, which is idempotent.")

from . import props2  # noqa: E402,F401  (adds the remaining properties)


def record(p):
    return {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"]}}


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    root = os.path.dirname(here)
    have = [p for p in PROPS if os.path.exists(os.path.join(here, "rules", p["id"].lower() + ".py"))]
    for p in PROPS + NOT_APPLICABLE:
        assert len(p["title"]) <= 80, p["id"]
    allp = sorted(have + NOT_APPLICABLE, key=lambda p: p["id"])
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in allp:
            f.write(json.dumps(record(p)) + "\n")
    man = {"version": 1, "setup_cmd": "python3 check.py --selftest",
           "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]} for p in have],
           "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
           "notes": "All checks analyse /repo's source text only (ast); nothing of /repo is imported or run. No hooks in /repo."}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    with open(os.path.join(here, "meta.json"), "w") as f:
        json.dump({p["id"]: {"level": "other", "explanation": p["technique"] + ". " + p["note"]} for p in have}, f, indent=1)
        f.write("\n")
    print(len(have), "claimed,", len(NOT_APPLICABLE), "not applicable")


if __name__ == "__main__":
    from sa import props
    props.main()
