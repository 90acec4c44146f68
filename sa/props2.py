from .props import NA, P, TRUST  # noqa: F401

NA("P90", "All executors produce the same results",
   "For any graph without side effects, the default, task-based (any grouping and any executor) and async execution return equal results for the same request.",
   "programs inputs schedules", "Every program, input and executor.", "Tests compare a few graphs.", ["hamilton/driver.py", "hamilton/execution/"],
   [("shared node execution", "hamilton/execution/graph_functions.py")],
   "Equality of computed values across executors quantifies over user function results and scheduling at run time; the structural parts (same call arguments, overrides, at-most-once, collect order) are decided as P05, P06, P07, P10, P12.")
NA("P91", "Type compatibility of connected nodes is sound",
   "If the graph builder accepts an edge then every value of the producer's declared type is acceptable to the consumer's parameter annotation.",
   "programs", "All pairs of Python type annotations.", "Tests sample pairs.", ["hamilton/htypes.py", "hamilton/graph.py"],
   [("custom_subclass_check", "hamilton/htypes.py")],
   "Needs a semantics of all runtime typing objects (including third-party dataframe types); the subtype test is a runtime computation over typing internals. That every edge is submitted to the test is P13.")
NA("P92", "Combining series into one dataframe preserves every value at its index",
   "The default result builder places each requested output's values at their own index in the dataframe it returns.",
   "inputs", "All pandas values and indexes.", "Tests sample small frames.", ["hamilton/base.py"],
   [("PandasDataFrameResult.build_result", "hamilton/base.py")],
   "The outcome is decided inside pandas' alignment code, which is not in the repository and cannot be bounded from the call sites.")
NA("P93", "Distinct data have distinct fingerprints",
   "Two values that differ never have the same data version, so the cache never returns a result computed from different data.",
   "inputs", "All pairs of values.", "Collisions cannot be sampled.", ["hamilton/caching/fingerprinting.py"],
   [("hash_value", "hamilton/caching/fingerprinting.py")],
   "Collision resistance of md5 and injectivity of third-party serialisations are not decidable from this source; which parts of a value reach the hash is decided as P22.")

P("P10", "No task starts before everything it depends on has succeeded",
  "In task-based execution a task is queued only once every task it depends on has completed successfully, is queued at most once per hand-out, and its results are stored before any dependent is considered. The run reports completion only when every task is in a terminal state, "
  "a failed task makes the graph's state failed, and no submitted task is forgotten: its future stays tracked until a terminal state has been observed. A hand-out the executors reject is put back.",
  "schedules programs fault_sequences", "Every task graph, every order in which tasks complete or fail, every executor capacity and every interleaving of polling and completion.",
  "Tests run a few small graphs whose completion order is fixed by the executor; wrong bookkeeping only shows for particular completion orders.",
  ["hamilton/execution/state.py", "hamilton/execution/executors.py"],
  [("task states and queue", "hamilton/execution/state.py:ExecutionState.update_task_state, release_next_task, reject_task"), ("polling loop", "hamilton/execution/executors.py:run_graph_to_completion"), ("graph state", "hamilton/execution/state.py:compute_graph_state")],
  "typestate of task states along abstract paths: guards dominating enqueue, order of result write and state update", TRUST + "The order in which ready tasks are handed out is not part of the property.")

P("P12", "Parallel branches are kept apart and collected in order",
  "Each element of a Parallelizable list gives exactly one branch; the branch sees that element, its intermediate results are stored and read back only under its own namespace, and the collecting node receives one value per element in the order of the elements. "
  "A task computes and returns every value another task or the caller needs from it, and depends on every task computing one of its inputs.",
  "programs inputs schedules", "Every list of elements (any length, duplicates included), every grouping strategy shipped and every completion order of the branches.",
  "Tests use short lists of distinct elements; namespace collisions and ordering errors need duplicates, more than ten branches or particular completion orders.",
  ["hamilton/execution/state.py", "hamilton/execution/grouping.py", "hamilton/execution/executors.py"],
  [("namespaced result store", "hamilton/execution/state.py:DictBasedResultCache"), ("branch creation and binding", "hamilton/execution/state.py:ExecutionState.realize_parameterized_group, bind_task"), ("task plan", "hamilton/execution/grouping.py:create_task_plan"),
   ("task results", "hamilton/execution/executors.py:base_execute_task")],
  "symbolic key/ordering dataflow: write key equals read key, element/position pairing, order-preserving collection", TRUST)

P("P11", "Executors that were started are always stopped",
  "A task-based run starts its executors once before any task is submitted and, once they are started, stops them exactly once on every way out: completion, failure of a task, failure of the scheduler, failure of a lifecycle hook. "
  "If one executor fails to start, those already started are stopped; if stopping one fails, the others are still stopped and the failure is reported. A pool executor submits only to the pool it opened, refuses work while closed, and can be opened again after being closed.",
  "fault_sequences histories schedules", "Every point of failure during a run, every sequence of starting, running and stopping executors.",
  "Leaked pools do not fail a test; failing start or stop of an executor is not simulated by any test.",
  ["hamilton/execution/executors.py", "hamilton/driver.py"],
  [("start/stop around the run", "hamilton/execution/executors.py:run_graph_to_completion"), ("start/stop of all executors", "hamilton/execution/executors.py:ExecutionManager"), ("pools", "hamilton/execution/executors.py:PoolExecutor and subclasses")],
  "typestate/pairing analysis over all abstract paths including exceptional edges", TRUST + "Termination of worker processes inside third-party pools is not part of the property.")

P("P13", "Every edge is type-checked and every node name is unique",
  "Whenever nodes are connected - at construction, when nodes are added for materialization, when data loaders are attached - each dependency of each node becomes one edge, recorded both as dependency and as dependent, and the types at its two ends are submitted (source first) to the type test and the adapters' tests before "
  "the graph is returned; an edge rejected by the tests makes construction fail. A parameter with no node becomes one user input shared by all who ask for it, and conflicting declarations of it are rejected. Two functions that produce the same node name are rejected unless module overrides were allowed (then the later one wins), "
  "and so are nodes added to a graph and materializers that share a name.",
  "programs", "Every set of modules, nodes, decorators and materializers.",
  "Tests build a few graphs with one or two bad edges; a skipped check only shows for particular shapes (shared inputs, several loaders, materializers).",
  ["hamilton/graph.py", "hamilton/io/materialization.py", "hamilton/lifecycle/api.py"],
  [("edges and inputs", "hamilton/graph.py:add_dependency, update_dependencies"), ("names", "hamilton/graph.py:create_function_graph, FunctionGraph.with_nodes"), ("materializers", "hamilton/io/materialization.py:modify_graph"), ("edge adapters", "hamilton/lifecycle/api.py:GraphAdapter, EdgeConnectionHook")],
  "dominance of the type test over edge creation and of the name test over registration, on all abstract paths", TRUST + "What the type test itself accepts is P91 (not applicable).")

P("P14", "Every decorator takes effect exactly once, in order, on its own targets",
  "Each decorator on a function is recorded, collected and applied exactly once, in the fixed order of stages (resolve, generate, inject, expand, transform, decorate) and within a stage in the order of application, each on what the previous one produced, with the resolved function and its configuration. "
  "A decorator transforms exactly the nodes it targets and passes all others through; a missing target is an error. A function its resolver turns down yields no node. Decorators work on copies: they change neither the nodes and collections they are given nor, through shared tags or types, each other's; "
  "a copied node keeps every field not overridden; building a graph again from the same functions gives the same nodes.",
  "programs histories", "Every stack of decorators on every function, every target specification, and graphs built repeatedly from the same module.",
  "Tests apply decorators mostly singly and build each graph once; lost or doubled effects need particular stacks, targets or a second build.",
  ["hamilton/function_modifiers/base.py", "hamilton/function_modifiers/", "hamilton/node.py"],
  [("stages", "hamilton/function_modifiers/base.py:resolve_nodes, get_node_decorators"), ("targets", "hamilton/function_modifiers/base.py:NodeTransformer, NodeInjector"), ("copies", "hamilton/node.py:Node.copy_with"), ("renaming", "hamilton/function_modifiers/configuration.py:config.resolve")],
  "order/exactly-once analysis over abstract paths plus interprocedural effect analysis of decorator methods on their arguments", TRUST + "What each decorator computes is P15-P18.")

P("P15", "Decorators compute what they declare",
  "What a decorated function's nodes compute is what the decorators say. Each wrapper calls the function exactly once with every argument it declares and no other, each under the right parameter, taken from the input declared for it, and returns (awaiting it if it is asynchronous) what the function returned, unless the decorator says otherwise. "
  "source(x) reads node x, value(v) passes v unchanged, group(...) keeps the order, names and kinds of its members; a parameterization, configuration or step applies to its own node only, never to one made by the same loop. Extracted columns, fields and unpacked values are those of the name or position asked for. "
  "pipe steps run in order, each once, on the result of the previous one; a step filtered out by configuration is skipped; subdags are wired within their namespace with their own inputs and configuration taking precedence; load_from/save_to nodes pass exactly the given arguments to the loader or saver and hand on its result.",
  "programs inputs", "Every use of parameterize*, inject, extract_*, unpack_fields, pipe_*, mutate, step, does, subdag, parameterized_subdag, with_columns, load_from, save_to and every value passed.",
  "Tests use one or two parameterizations with distinct truthy values; late binding, swapped names, falsy literals and absent optional arguments need particular combinations.",
  ["hamilton/function_modifiers/", "hamilton/node.py"],
  [("renaming wrappers", "hamilton/node.py:Node.reassign_inputs; hamilton/function_modifiers/recursive.py:subdag.add_namespace, add_final_node"), ("parameterization", "hamilton/function_modifiers/expanders.py:parameterize.expand_node"), ("extraction", "hamilton/function_modifiers/expanders.py:extract_columns, extract_fields, unpack_fields"),
   ("pipes", "hamilton/function_modifiers/macros.py:chain_transforms, Applicable, pipe_input, pipe_output, mutate, does"), ("subdags", "hamilton/function_modifiers/recursive.py"), ("loaders and savers", "hamilton/function_modifiers/adapters.py")],
  "symbolic evaluation of each wrapper closure: agreement of declared inputs, lookups and arguments; late-binding lint on closures created in loops", TRUST + "Which dataframe operations give a column or append one is left to the libraries.")

P("P17", "Configuration alone decides what applies",
  "@config.when / when_not / when_in / when_not_in keep a function iff for every key given the configured value (None when the key is absent) equals / differs from / is among / is not among what was given, and the function then has the name asked for. Every decorator is handed exactly the configuration it declared - required keys must be present, "
  "optional keys take their default only when absent, whatever falsy value is configured - and declares every key it reads. Steps of a pipe follow their own conditions. @resolve calls its function with the configured value of each parameter, its own default when absent, only in power-user mode, and its product then behaves as if written in place.",
  "programs inputs", "Every configuration dictionary, every combination of conditional functions, steps and delayed decorators.",
  "Tests configure one or two keys with truthy strings; absent keys, falsy values and several conditions together are rarely sampled.",
  ["hamilton/function_modifiers/configuration.py", "hamilton/function_modifiers/base.py", "hamilton/function_modifiers/delayed.py"],
  [("conditions", "hamilton/function_modifiers/configuration.py:ConfigResolver, config"), ("declared keys", "hamilton/function_modifiers/base.py:resolve_config, filter_config"), ("delayed decorators", "hamilton/function_modifiers/delayed.py:resolve")],
  "decision-table analysis of the conditions over all abstract paths; reads of the configuration must be among the declared keys", TRUST)

P("P18", "Data quality checks guard the value they are attached to",
  "A function with check_output(_custom) becomes its raw node, one node per validator that applies exactly that validator to the raw value, and a node under the function's own name and type that waits for all of them. A failed validator of importance FAIL raises DataValidationError before the value is given out, a failed WARN only logs, a passed one does nothing; "
  "the value given out is the raw value. Each argument of check_output yields exactly one validator - the first candidate taking that argument for the type - with the value and the importance given, and an argument no validator takes is an error. Built-in validators accept exactly what their argument describes (bounds included, missing values ignored where documented, "
  "None only if allowed, every string looked for), and a rejection by pandera or pydantic is a failed result.",
  "inputs programs", "Every value validated, every combination and number of validators and importances.",
  "Tests use one validator on one or two values; boundary values, several validators of one function and mixed importances are not sampled.",
  ["hamilton/function_modifiers/validation.py", "hamilton/data_quality/", "hamilton/plugins/h_pandera.py", "hamilton/plugins/h_pydantic.py", "hamilton/plugins/pydantic_extensions.py", "hamilton/plugins/ibis_extensions.py"],
  [("expansion", "hamilton/function_modifiers/validation.py:BaseDataValidationDecorator.transform_node"), ("actions", "hamilton/data_quality/base.py:act_warn, act_fail_bulk"), ("choice", "hamilton/data_quality/default_validators.py:resolve_default_validators"), ("predicates", "hamilton/data_quality/default_validators.py:*.validate")],
  "symbolic evaluation of the generated callables and decision tables of every validator over all abstract paths", TRUST + "NaN arguments compare as the library's operators say; custom validators are the user's.")

P("P19", "A cached result is reused only for the same code and the same inputs",
  "The key under which a node's result is looked up and stored covers the node's name, the version of its code and the version of the value of every dependency it is executed with - computed in this task or another, given as input or override, default or collected from several tasks, in order - and nothing that differs between equal executions; two "
  "executions of a node in which any of these differs get different keys. Versions and keys recorded in one run, node or task are never taken for those of another run, node or task; each run starts from the behaviours and code versions of its own graph. The version of a node's code is a digest of all the source of the functions behind it.",
  "inputs histories programs", "Every graph, every change of code, input, override or task between executions, every order of tasks, several runs of one driver.",
  "Tests rerun small graphs with one change each; a part missing from the key shows only when exactly that part changes between runs (a stale result is then returned silently).",
  ["hamilton/caching/adapter.py", "hamilton/caching/cache_key.py", "hamilton/graph_types.py"],
  [("key", "hamilton/caching/adapter.py:HamiltonCacheAdapter.get_cache_key, _get_dependencies_data_versions"), ("slots", "hamilton/caching/adapter.py:_get_memoized_data_version, _set_memoized_metadata"), ("start of a run", "hamilton/caching/adapter.py:pre_graph_execute"), ("code versions", "hamilton/graph_types.py:hash_source_code"), ("key text", "hamilton/caching/cache_key.py")],
  "symbolic dataflow: contents of the key and of every memo slot, agreement of reads and writes, on all abstract paths", TRUST + "What fingerprints distinguish is P22; code reached only through globals or helpers is documented as not covered.")

P("P20", "Cache behaviours decide when a node runs and what is stored",
  "A node is executed at most once per request and its result, or the stored one, is returned unchanged. With DEFAULT it is executed iff no metadata or no stored result is found for its key (or the stored one cannot be loaded), and then both are stored; with RECOMPUTE it is always executed and stored; with DISABLE it is executed and nothing is looked up or stored; with IGNORE it is executed, nothing is stored and its "
  "version is left out of the keys of its dependents. A node that fails stores nothing. The metadata stored with a key names the version under which exactly that result is stored. The behaviour of a node is the one given to the cache for it, else its tag, else the default for its kind; conflicting settings are rejected; options given to with_cache and @cache reach the adapter.",
  "inputs histories fault_sequences", "Every behaviour assignment, every content of the stores, every failure of a node or of a load, several runs in sequence.",
  "Tests run each behaviour on small graphs with intact stores; missing results with present metadata, loaders, collected nodes and mixed settings are rarely combined.",
  ["hamilton/caching/adapter.py", "hamilton/driver.py", "hamilton/function_modifiers/metadata.py"],
  [("execution", "hamilton/caching/adapter.py:HamiltonCacheAdapter.do_node_execute, get_from_cache"), ("storing", "hamilton/caching/adapter.py:post_node_execute, set_in_cache"), ("behaviour", "hamilton/caching/adapter.py:resolve_behaviors"), ("options", "hamilton/driver.py:Builder.with_cache; hamilton/function_modifiers/metadata.py:cache")],
  "exactly-once/effect analysis of every abstract path by behaviour; decision table of the behaviour resolution", TRUST + "Concurrent runs over one store are not part of the property.")

P("P21", "Cache stores give back what was put in",
  "In every metadata and result store, get(key) gives exactly what the last set(key) stored, None iff nothing is stored, whatever the value and whatever other keys were set or deleted since; exists tells which; delete removes that entry only, tolerates its absence, and delete_all leaves an empty store that can be used further. What is written survives reopening the store. "
  "A stored result that cannot be read back is reported as such, never returned as another value. Runs are listed in the order they were started, each with the entries recorded for it that are still stored, under their own key, version, node and code; an unknown run is an IndexError. A saver and loader given for a result are used as a pair on one file of its own. "
  "Copying between stores (persist_to, load_from) transfers every run, entry and result and invents none.",
  "histories inputs crash_points", "Every sequence of store operations, every value (None and falsy ones included), every store reopened or cleared in between.",
  "Tests call each operation once or twice on fresh stores; overwritten, deleted, reopened and cleared stores, falsy results and missing files are hardly sampled.",
  ["hamilton/caching/stores/memory.py", "hamilton/caching/stores/sqlite.py", "hamilton/caching/stores/file.py", "hamilton/caching/stores/base.py"],
  [("dictionaries", "hamilton/caching/stores/memory.py:InMemoryMetadataStore, InMemoryResultStore"), ("SQL", "hamilton/caching/stores/sqlite.py:SQLiteMetadataStore"), ("files", "hamilton/caching/stores/file.py:FileResultStore"), ("round trip", "hamilton/caching/stores/base.py:StoredResult.save, load"), ("transfer", "hamilton/caching/stores/memory.py:persist_to, load_from")],
  "effect analysis of every store operation on all abstract paths; parsed SQL statements checked against one schema; path agreement of file operations", TRUST + "Pickle, sqlite3 and the file system work as documented; concurrent writers are not part of the property.")

P("P22", "Fingerprints follow the value and nothing else",
  "The fingerprint of a value depends on its content only: equal values of one type (mappings and sets whatever their order of insertion or iteration) have the same fingerprint in every process, and values of one type that differ in any part - any character, byte, element, order of elements, key, value, row, index label, attribute - have different ones, up to collisions of the digest. "
  "Strings, numbers, bytes, sequences, mappings, sets, pandas, polars and numpy objects are each covered whole, elements by their own fingerprints; other objects by the state in their __dict__, by their text only when they come from a built-in module or datetime. Anything else, and everything nested deeper than the maximum depth, gets the marker for 'cannot be fingerprinted', "
  "never a fingerprint of identity, address or type; structures that contain themselves come to an end.",
  "inputs", "Every value, of any size and nesting, in every process.",
  "Tests pin the fingerprint of one or two small values per type; values that agree in the part still covered, or differ only in order, size or process, are not sampled.",
  ["hamilton/caching/fingerprinting.py"],
  [("dispatch", "hamilton/caching/fingerprinting.py:hash_value"), ("containers", "hamilton/caching/fingerprinting.py:hash_sequence, hash_mapping, hash_unordered_mapping, hash_set"), ("primitives", "hamilton/caching/fingerprinting.py:hash_primitive, hash_bytes, hash_none, hash_repr"), ("data", "hamilton/caching/fingerprinting.py:hash_pandas_obj, hash_polars_dataframe, hash_polars_column, hash_numpy_array")],
  "symbolic dataflow into the digest: every part enters once, in a determined order, unconditionally; taint of identity and iteration order", TRUST + "Row hashes of pandas and polars and the digests themselves are trusted; values of different types may share a fingerprint (1 and '1'), as may what the known findings list.")

P("P23", "Data loaders and savers do what their options say",
  "Every registered data loader and saver hands each of its options to the library call underneath under the name it stands for, whether the other options are given or left out, for every supported version of the library: no option is dropped, defaulted away when falsy, overwritten, or swapped with another. A saver writes the whole of the data it is given to the target it names; a loader gives back what it read, whole, with metadata of that data; files are opened for what is done with them. "
  "Every concrete adapter of a module is registered when the module is imported.",
  "inputs", "Every value of every option of every adapter, alone and in combination.",
  "Tests use each adapter once or twice with few options; an option that is lost, or lost only when falsy or in combination with another, changes the file or the data silently.",
  ["hamilton/io/default_data_loaders.py", "hamilton/plugins/pandas_extensions.py", "hamilton/plugins/polars_*_extensions.py", "hamilton/plugins/*_extensions.py"],
  [("adapters", "hamilton/io/default_data_loaders.py, hamilton/plugins/*_extensions.py: the DataLoader and DataSaver subclasses"), ("options", "their _get_loading_kwargs/_get_saving_kwargs, load_data, save_data"), ("registration", "register_data_loaders in each extension module, hamilton/registry.py:register_adapter")],
  "symbolic dataflow from every dataclass field to the library call, under all-given and only-this-one scenarios; registration reachability", TRUST + "What the third-party libraries do with an option is trusted; options the installed library no longer takes are listed as known findings.")

P("P24", "Materializers and adapters are wired as declared",
  "Registering an adapter makes it available under its name for loading exactly when it can load and for saving exactly when it can save; of the adapters of a name the last registered that applies to the type is used, one for Any only when no other applies. An adapter is used only with all required and no unknown arguments. "
  "to.<name> and from_.<name> make a saver or loader of exactly the given arguments; a materializer saves what its dependencies give (combined when asked to), an extractor feeds its target; materialize() runs the graph with them added, and gives both their metadata and every additional variable asked for, each under its own name.",
  "inputs", "Every registry, every adapter signature, every choice of dependencies, arguments and additional variables.",
  "Tests use a handful of registered adapters with simple arguments; which of several applicable adapters is chosen, or a name that coincides with another, is not sampled.",
  ["hamilton/registry.py", "hamilton/io/data_adapters.py", "hamilton/io/materialization.py", "hamilton/function_modifiers/adapters.py", "hamilton/driver.py"],
  [("registry", "hamilton/registry.py:register_adapter"), ("choice", "hamilton/function_modifiers/adapters.py:resolve_adapter_class, AdapterFactory"), ("materialization", "hamilton/io/materialization.py:MaterializerFactory, ExtractorFactory, modify_graph"), ("driver", "hamilton/driver.py:Driver.materialize, __materialize")],
  "exact abstract execution over symbolic registries, arguments and dependency lists; every decision checked against the specification's table", TRUST + "Lists of adapters, dependencies and arguments are unrolled to three symbolic elements.")

P("P25", "Lifecycle adapters are called as they declare",
  "A class is asked for exactly the hooks and methods its bases declare, and answers with its implementation of them; every distinct adapter of a driver is called, in the order given, once for each event, with all the arguments of that event; at most one adapter supplies a do_ method, and adapters that conflict are rejected. Every validator is asked about every node or the graph, "
  "and all the errors are reported. The user-facing base classes give their methods exactly what the event said: the node's name, callable, arguments, tags, types, the result, the error and whether it succeeded. The built-in adapters act on exactly the nodes they are meant for, leave results and errors as they are, and a GracefulErrorAdapter turns a node into the sentinel iff it raised an accepted error or depends on the sentinel as specified.",
  "inputs programs fault_sequences", "Every set of adapters, sync and async, every event, every outcome of a node.",
  "Tests use one or two adapters that record some calls on one graph; an argument swapped, an adapter skipped or an event missed after a failure is seen only by an adapter that looks at exactly that.",
  ["hamilton/lifecycle/base.py", "hamilton/lifecycle/api.py", "hamilton/lifecycle/default.py", "hamilton/driver.py", "hamilton/execution/graph_functions.py"],
  [("declaration", "hamilton/lifecycle/base.py:lifecycle.base_hook, base_method, validator"), ("dispatch", "hamilton/lifecycle/base.py:LifecycleAdapterSet"), ("user-facing classes", "hamilton/lifecycle/api.py"), ("built-in adapters", "hamilton/lifecycle/default.py:PDBDebugger, FunctionInputOutputTypeChecker, PrintLn, SlowDownYouMoveTooFast, GracefulErrorAdapter")],
  "exact abstract execution over symbolic sets of adapters; dataflow from every event's arguments to the user-facing methods; decision tables of the built-in adapters", TRUST + "Sets of adapters are unrolled to three symbolic elements; the deprecated CacheAdapter is not covered.")

P("P26", "Telemetry is opt-out, anonymous and never affects the program",
  "With telemetry disabled - by the environment variable, else the config file, or disable_telemetry() - nothing is sent, nothing turns it on again, and every function of the package (dataflows and contributed modules included) works as with it on. Events are sent from a thread of their own, with a time limit, no more than the session's limit of them; no error of assembling or sending one "
  "reaches the caller, or replaces the result or error of what the user called. An event holds counts, Hamilton's own names, the run's id and traces of Hamilton's own code: no value, name or message of the user's, and every entry is what its key says.",
  "inputs fault_sequences", "Every setting of the environment and config file, every failure of sending, every driver, graph and error.",
  "Tests run with telemetry disabled and look at the assembled events of one or two drivers; what is sent, or raised when sending is off or fails, is not seen by them.",
  ["hamilton/telemetry.py", "hamilton/driver.py", "hamilton/async_driver.py", "hamilton/dataflows/__init__.py", "hamilton/contrib/__init__.py", "hamilton/cli/__main__.py"],
  [("gate", "hamilton/telemetry.py:send_event_json, _send_event_json"), ("switch", "hamilton/telemetry.py:_check_config_and_environ_for_telemetry_flag, is_telemetry_enabled, disable_telemetry"), ("senders", "hamilton/driver.py:capture_*; hamilton/async_driver.py; hamilton/dataflows/__init__.py:_track_*"), ("content", "hamilton/telemetry.py:create_*_event_json, sanitize_error, get_*_name")],
  "call-site analysis of every sender (gated on all abstract paths, exceptions contained) and taint of user data into events", TRUST + "Hamilton's own code is told by a directory called hamilton, as in the code.")

P("P27", "Observers report what happened, in the run it happened in",
  "Trackers, tracers and notifiers (MLFlowTracker, ExperimentTracker, OpenTelemetryTracer, DDOGTracer and its async form, OpenLineageAdapter, ProgressBar, SlackNotifier) tell the truth and do no harm: each execution opens one run, span or START event of its own and closes exactly that one, as failed with the error if and only if it failed; spans of tasks and nodes nest below their own run, are closed by their own end, and runs "
  "open at the same time are kept apart. What is logged are the values of the variables asked for, the config and the inputs, each under its own name in the form for its type, and what savers and loaders report, at the place they report; nodes that failed leave no result. Executions without inputs work, no observer hides the error of a node, and the working directory is restored however a saver ends.",
  "inputs fault_sequences histories", "Every execution, successful or failing in any node; every set of runs open at a time; every type of result and every saver's or loader's metadata.",
  "The repository has no tests of these adapters (their services are not there in tests); wrong status, lost spans and results attached to another run raise nothing.",
  ["hamilton/plugins/h_mlflow.py", "hamilton/plugins/h_opentelemetry.py", "hamilton/plugins/h_ddog.py", "hamilton/plugins/h_openlineage.py", "hamilton/plugins/h_tqdm.py", "hamilton/plugins/h_slack.py", "hamilton/plugins/h_experiments/hook.py", "hamilton/plugins/h_experiments/cache.py"],
  [("mlflow", "hamilton/plugins/h_mlflow.py:MLFlowTracker"), ("spans", "hamilton/plugins/h_opentelemetry.py:_enter_span, _exit_span; hamilton/plugins/h_ddog.py:_DDOGTracerImpl"), ("lineage", "hamilton/plugins/h_openlineage.py:OpenLineageAdapter, create_*_dataset"), ("experiments", "hamilton/plugins/h_experiments/hook.py:ExperimentTracker"), ("progress", "hamilton/plugins/h_tqdm.py, hamilton/plugins/h_slack.py")],
  "abstract execution of every hook over known caches of two open runs (open/close pairing, status by outcome), with exceptional paths", TRUST + "The interfaces of mlflow, opentelemetry, ddtrace, openlineage, tqdm and slack_sdk are taken as documented. An ExperimentTracker is made for one execution.")

P("P28", "The UI client delivers every update of a run once, in order, to that run",
  "Every update a Hamilton UI tracker (HamiltonTracker, AsyncHamiltonTracker) reports reaches the server exactly once, in the order reported and addressed to its own run: the client's worker loses, repeats or misplaces none when it batches, times out, is stopped or meets its end marker, and a request that fails costs only what it carried, neither the worker nor other runs' updates. "
  "A node is reported RUNNING when it starts and SUCCESS exactly when it succeeded, otherwise FAILURE with its error whatever the sampling, under one name per node and task with its own start and end time and all of its results; the same node in concurrent tasks is kept apart, and what is out of the sample is left out. "
  "An execution is one run of its own graph's template with its inputs and outputs, ended once as SUCCESS or FAILURE as it went; a template the server knows is not made again, a refused request is an error to its caller, and a result that cannot be summarised does not fail the node.",
  "schedules inputs fault_sequences histories", "Every sequence of updates, timeouts, stops and failing requests; every interleaving of runs and of tasks of a parallel block; every result.",
  "The tests of the SDK replace the client by a mock and run one execution at a time; lost or misplaced updates raise nothing.",
  ["ui/sdk/src/hamilton_sdk/api/clients.py", "ui/sdk/src/hamilton_sdk/adapters.py", "ui/sdk/src/hamilton_sdk/tracking/runs.py"],
  [("delivery", "ui/sdk/src/hamilton_sdk/api/clients.py:worker, stop, flush, create_batch, update_tasks"), ("tracking", "ui/sdk/src/hamilton_sdk/adapters.py:pre_node_execute, post_node_execute, pre_graph_execute, post_graph_execute"), ("requests", "ui/sdk/src/hamilton_sdk/api/clients.py:register_dag_template_if_not_exists, create_and_start_dag_run, log_dag_run_end")],
  "typestate of queued updates over all paths of the worker loop (three rounds), exact abstract execution of batching and of the tracker hooks, exceptional paths of every request", TRUST + "The worker loop is followed for three rounds and whatever they leave pending; queue, requests and aiohttp are taken as documented. An update whose own request the server refuses is logged and lost.")

P("P29", "Questions about a dataflow are answered from its functions and edges",
  "A module's nodes are exactly the public functions defined in it or in its own submodules: a function it merely imports, whatever the module it comes from is called, is none. "
  "What a traversal of the graph yields (upstream, downstream, the path between two nodes, the nodes between) is exactly what can be reached along the edges, each node once and the nodes named included, for every shape of graph; a name that is neither a node nor an input is an error; optional external inputs that are not given, and nothing else, are left out at run time. "
  "The driver's answers (list_available_variables with or without a tag filter, what_is_upstream_of, what_is_downstream_of, what_is_the_path_between, has_cycles) are those of its graph; a tag query matches a node exactly when it has every tag asked for with one of the values asked for. "
  "The version of a dataflow depends on the version of every node and not on the order they are found in, and the description of a node is the node's own.",
  "inputs configurations", "Every module, every graph shape, every tag query.",
  "Tests ask a few questions of a few graphs; a traversal that stops early or a query that matches too much gives a plausible answer on those.",
  ["hamilton/graph.py", "hamilton/graph_utils.py", "hamilton/graph_types.py", "hamilton/driver.py", "hamilton/node.py", "hamilton/execution/graph_functions.py"],
  [("functions", "hamilton/graph_utils.py:find_functions, is_submodule"), ("traversal", "hamilton/graph.py:directional_dfs_traverse, get_upstream_nodes, get_downstream_nodes; hamilton/execution/graph_functions.py:nodes_between"), ("queries", "hamilton/driver.py:list_available_variables, what_is_*; hamilton/node.py:matches_query"), ("version", "hamilton/graph_types.py:HamiltonGraph.version, HamiltonNode.version, as_dict")],
  "abstract interpretation of traversals and queries over graph shapes (chain, diamond, fan, disconnected, cycle) and tag/name cases, dataflow of the driver's answers", TRUST + "Traversals are decided on five shapes with every start (and every pair), not by induction over all graphs; networkx and inspect are taken as documented.")

P("P30", "Spark columns are computed from what their functions name, in order",
  "In a Spark dataflow (the UDF graph adapter, @with_columns, @select and @require_columns of h_spark) every column that is added has the name of its node and is that node's function applied to the columns its "
  "parameters name, each parameter to the column of its own name whatever the order they are written in, with every other argument bound to the value given for it, falsy or not; a required parameter that is neither a column nor given is an error. "
  "The columns of a @with_columns group are computed one after the other in dependency order, each on the dataframe that the one before it gave, so that none is lost; what is not selected is dropped again and only that, and @select gives exactly what was selected. "
  "A function decorated with @require_columns gets the dataframe built so far and its own arguments, not the columns it merely depends on. The dataframe parameter of a function is the one asked for or the only one, never a guess.",
  "inputs configurations", "Every set of columns, parameter order, selection and mix of functions.",
  "Tests use a handful of functions whose parameters are in alphabetical order, and Spark itself is slow to start; a wrong pairing of columns and parameters gives plausible numbers.",
  ["hamilton/plugins/h_spark.py"],
  [("arguments", "hamilton/plugins/h_spark.py:_determine_parameters_to_bind, _inspect_kwargs"), ("functions", "hamilton/plugins/h_spark.py:_lambda_udf, _fabricate_spark_function, _format_udf, _format_pandas_udf"), ("groups", "hamilton/plugins/h_spark.py:with_columns.chain_subdag_nodes, require_columns.transform_node, require_columns.sparkify_node, sparkify_node_with_udf, derive_dataframe_parameter")],
  "abstract interpretation of the Spark plumbing over cases of columns, arguments, selections and functions; the generated UDF source is folded and parsed; dataflow of the closures that become nodes", TRUST + "pyspark is taken as documented; the numbers Spark computes are not looked at.")
