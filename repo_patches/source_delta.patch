From 8ef0996109572258130b13114a75d0950723d612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:06 +0000
Subject: [PATCH 01/69] fix: async driver no longer calls a dependency named
 'fn' instead of the node's function

---
 hamilton/async_driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index 63d3a8b..8cd4b15 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -86,7 +86,7 @@ class AsyncGraphAdapter(lifecycle_base.BaseDoNodeExecute, lifecycle.ResultBuilde
         """
         callabl = node_.callable
 
-        async def new_fn(fn=callabl, **fn_kwargs):
+        async def new_fn(fn=callabl, /, **fn_kwargs):
             task_dict = {key: process_value(value) for key, value in fn_kwargs.items()}
             fn_kwargs = await await_dict_of_tasks(task_dict)
             error = None
-- 
2.43.0


From dd65c77292ff444fe596022903f579927dea21b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:11 +0000
Subject: [PATCH 02/69] fix: materialize() only fires post_graph_execute for
 runs whose pre_graph_execute fired

---
 hamilton/driver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 868764e..adf873d 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -1639,6 +1639,7 @@ class Driver:
         error_execution = None
         error_telemetry = None
         run_id = str(uuid.uuid4())
+        run_started = False
         outputs = (None, None)
         final_vars = self._create_final_vars(additional_vars)
         # This is so the finally logging statement does not accidentally die
@@ -1675,6 +1676,7 @@ class Driver:
                     inputs=inputs,
                     overrides=overrides,
                 )
+            run_started = True
 
             nodes, user_nodes = function_graph.get_upstream_nodes(
                 final_vars + materializer_vars, inputs, overrides
@@ -1699,7 +1701,7 @@ class Driver:
             error_execution = e
             raise e
         finally:
-            if self.adapter.does_hook("post_graph_execute", is_async=False):
+            if run_started and self.adapter.does_hook("post_graph_execute", is_async=False):
                 self.adapter.call_all_lifecycle_hooks_sync(
                     "post_graph_execute",
                     run_id=run_id,
-- 
2.43.0


From 33693459c656533223a4e8754118a668aba4b370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:18 +0000
Subject: [PATCH 03/69] fix: overrides win over inputs in task-based execution,
 as they do in the default executor

---
 hamilton/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index adf873d..4f5a20e 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -237,7 +237,7 @@ class TaskBasedGraphExecutor(GraphExecutor):
         )  # pure function transform
         # Instantiate a result cache so we can use later
         # Pass in inputs so we can pre-populate the results cache
-        prehydrated_results = {**overrides, **inputs}
+        prehydrated_results = {**inputs, **overrides}
         results_cache = state.DictBasedResultCache(prehydrated_results)
         # Create tasks from the grouped nodes, filtering/pruning as we go
         tasks = grouping.create_task_plan(grouped_nodes, final_vars, overrides, self.adapter)
-- 
2.43.0


From f465748afa6d1302ff4065ca511fcbc9943c9363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:29 +0000
Subject: [PATCH 04/69] fix: dependencies named like a decorator's internal
 parameters no longer capture them

---
 hamilton/function_modifiers/expanders.py | 36 ++++++++++++------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index 1b5e726..8085b84 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -173,11 +173,11 @@ class parameterize(base.NodeExpander):
 
             def replacement_function(
                 *args,
-                upstream_dependencies=upstream_dependencies,
-                literal_dependencies=literal_dependencies,
-                grouped_list_dependencies=grouped_list_dependencies,
-                grouped_dict_dependencies=grouped_dict_dependencies,
-                former_inputs=list(node_.input_types.keys()),  # noqa
+                _upstream_dependencies=upstream_dependencies,
+                _literal_dependencies=literal_dependencies,
+                _grouped_list_dependencies=grouped_list_dependencies,
+                _grouped_dict_dependencies=grouped_dict_dependencies,
+                _former_inputs=list(node_.input_types.keys()),  # noqa
                 **kwargs,
             ):
                 """This function rewrites what is passed in kwargs to the right kwarg for the function.
@@ -192,17 +192,17 @@ class parameterize(base.NodeExpander):
                 Should be easy -- they should just have something like a "resolve(**kwargs)" function that they can call.
                 """
                 new_kwargs = {}
-                for node_input in former_inputs:
-                    if node_input in upstream_dependencies:
+                for node_input in _former_inputs:
+                    if node_input in _upstream_dependencies:
                         # If the node is specified by `source`, then we get the value from the kwargs
-                        new_kwargs[node_input] = kwargs[upstream_dependencies[node_input].source]
-                    elif node_input in literal_dependencies:
+                        new_kwargs[node_input] = kwargs[_upstream_dependencies[node_input].source]
+                    elif node_input in _literal_dependencies:
                         # If the node is specified by `value`, then we get the literal value (no need for kwargs)
-                        new_kwargs[node_input] = literal_dependencies[node_input].value
-                    elif node_input in grouped_list_dependencies:
+                        new_kwargs[node_input] = _literal_dependencies[node_input].value
+                    elif node_input in _grouped_list_dependencies:
                         # If the node is specified by `group`, then we get the list of values from the kwargs or the literal
                         new_kwargs[node_input] = []
-                        for replacement in grouped_list_dependencies[node_input].sources:
+                        for replacement in _grouped_list_dependencies[node_input].sources:
                             resolved_value = (
                                 kwargs[replacement.source]
                                 if replacement.get_dependency_type()
@@ -210,10 +210,10 @@ class parameterize(base.NodeExpander):
                                 else replacement.value
                             )
                             new_kwargs[node_input].append(resolved_value)
-                    elif node_input in grouped_dict_dependencies:
+                    elif node_input in _grouped_dict_dependencies:
                         # If the node is specified by `group`, then we get the dict of values from the kwargs or the literal
                         new_kwargs[node_input] = {}
-                        for dependency, replacement in grouped_dict_dependencies[
+                        for dependency, replacement in _grouped_dict_dependencies[
                             node_input
                         ].sources.items():
                             resolved_value = (
@@ -658,7 +658,7 @@ class extract_columns(base.SingleNodeNodeTransformer):
 
             if inspect.iscoroutinefunction(fn):
 
-                async def extractor_fn(column_to_extract: str = column, **kwargs) -> Any:
+                async def extractor_fn(column_to_extract: str = column, /, **kwargs) -> Any:
                     df = kwargs[node_.name]
                     if column_to_extract not in df:
                         raise base.InvalidDecoratorException(
@@ -670,7 +670,7 @@ class extract_columns(base.SingleNodeNodeTransformer):
             else:
 
                 def extractor_fn(
-                    column_to_extract: str = column, **kwargs
+                    column_to_extract: str = column, /, **kwargs
                 ) -> Any:  # avoiding problems with closures
                     df = kwargs[node_.name]
                     if column_to_extract not in df:
@@ -815,7 +815,7 @@ class extract_fields(base.SingleNodeNodeTransformer):
             # if fn is async
             if inspect.iscoroutinefunction(fn):
 
-                async def extractor_fn(field_to_extract: str = field, **kwargs) -> field_type:
+                async def extractor_fn(field_to_extract: str = field, /, **kwargs) -> field_type:
                     dt = kwargs[node_.name]
                     if field_to_extract not in dt:
                         raise base.InvalidDecoratorException(
@@ -827,7 +827,7 @@ class extract_fields(base.SingleNodeNodeTransformer):
             else:
 
                 def extractor_fn(
-                    field_to_extract: str = field, **kwargs
+                    field_to_extract: str = field, /, **kwargs
                 ) -> field_type:  # avoiding problems with closures
                     dt = kwargs[node_.name]
                     if field_to_extract not in dt:
-- 
2.43.0


From ee699257656dfa79635273addf966f11b5fd47a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:49 +0000
Subject: [PATCH 05/69] fix: @parameterize with source() on an optional
 parameter falls back to its default

---
 hamilton/function_modifiers/expanders.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index 8085b84..8436224 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -195,7 +195,10 @@ class parameterize(base.NodeExpander):
                 for node_input in _former_inputs:
                     if node_input in _upstream_dependencies:
                         # If the node is specified by `source`, then we get the value from the kwargs
-                        new_kwargs[node_input] = kwargs[_upstream_dependencies[node_input].source]
+                        # It may be absent if the parameter is optional, in which case its default applies
+                        source_name = _upstream_dependencies[node_input].source
+                        if source_name in kwargs:
+                            new_kwargs[node_input] = kwargs[source_name]
                     elif node_input in _literal_dependencies:
                         # If the node is specified by `value`, then we get the literal value (no need for kwargs)
                         new_kwargs[node_input] = _literal_dependencies[node_input].value
-- 
2.43.0


From 6841b10be7d4d4ac0ad171ca7d7ccb3254f87977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:14 +0000
Subject: [PATCH 06/69] fix: Node input_types given partly with and partly
 without a dependency type are kept as given

---
 hamilton/node.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hamilton/node.py b/hamilton/node.py
index 5755b0e..dc2fe0c 100644
--- a/hamilton/node.py
+++ b/hamilton/node.py
@@ -94,10 +94,7 @@ class Node(object):
                     if isinstance(value, tuple):
                         self._input_types[key] = value
                     else:
-                        self._input_types = {
-                            key: (value, DependencyType.REQUIRED)
-                            for key, value in input_types.items()
-                        }
+                        self._input_types[key] = (value, DependencyType.REQUIRED)
                 # assume optional values passed
                 self._default_parameter_values = optional_values if optional_values else {}
             else:
-- 
2.43.0


From 883fac69859431cf6d23956a421258c1676e8b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:08 +0000
Subject: [PATCH 07/69] fix: a validator node named like an internal parameter
 of @check_output no longer captures it

---
 hamilton/function_modifiers/validation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hamilton/function_modifiers/validation.py b/hamilton/function_modifiers/validation.py
index 93c5400..dc7de02 100644
--- a/hamilton/function_modifiers/validation.py
+++ b/hamilton/function_modifiers/validation.py
@@ -42,7 +42,9 @@ class BaseDataValidationDecorator(base.NodeTransformer):
         validator_name_count = defaultdict(int)
         for validator in validators:
 
-            def validation_function(validator_to_call: dq_base.DataValidator = validator, **kwargs):
+            def validation_function(
+                validator_to_call: dq_base.DataValidator = validator, /, **kwargs
+            ):
                 result = list(kwargs.values())[0]  # This should just have one kwarg
                 return validator_to_call.validate(result)
 
@@ -73,7 +75,7 @@ class BaseDataValidationDecorator(base.NodeTransformer):
             validator_nodes.append(validator_node)
 
         def final_node_callable(
-            validator_nodes=validator_nodes, validator_name_map=validator_name_map, **kwargs
+            validator_nodes=validator_nodes, validator_name_map=validator_name_map, /, **kwargs
         ):
             """Callable for the final node. First calls the action on every node, then
 
-- 
2.43.0


From 305b220ab5d2808bd1bfcdd5e881c4ff735d535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:40 +0000
Subject: [PATCH 08/69] fix: validate_execution accepts functions and Variables
 as final_vars, like execute

---
 hamilton/driver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 4f5a20e..f50b633 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -1805,7 +1805,8 @@ class Driver:
         :param inputs: Inputs to pass to execution.
         :raise ValueError: if any issues with executino can be detected.
         """
-        nodes, user_nodes = self.graph.get_upstream_nodes(final_vars, inputs, overrides)
+        _final_vars = self._create_final_vars(final_vars)
+        nodes, user_nodes = self.graph.get_upstream_nodes(_final_vars, inputs, overrides)
         Driver.validate_inputs(self.graph, self.adapter, user_nodes, inputs, nodes)
         self.graph_executor.validate(list(nodes | user_nodes))
 
-- 
2.43.0


From af1fab1e671f50142b85561072426426d0f36bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:19 +0000
Subject: [PATCH 09/69] fix: drivers no longer share the builder's config and
 adapters; build() no longer alters the builder

---
 hamilton/async_driver.py | 7 ++++---
 hamilton/driver.py       | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/hamilton/async_driver.py b/hamilton/async_driver.py
index 8cd4b15..6a54fa8 100644
--- a/hamilton/async_driver.py
+++ b/hamilton/async_driver.py
@@ -483,7 +483,8 @@ class Builder(driver.Builder):
 
         :return:
         """
-        adapters = self.adapters if self.adapters is not None else []
+        # copied, as drivers must not share state with the builder (which can be altered and reused)
+        adapters = list(self.adapters) if self.adapters is not None else []
         if self.legacy_graph_adapter is not None:
             adapters.append(self.legacy_graph_adapter)
 
@@ -494,9 +495,9 @@ class Builder(driver.Builder):
         result_builders = [adapter for adapter in adapters if isinstance(adapter, base.ResultMixin)]
         specified_result_builder = base.DictResult() if len(result_builders) == 0 else None
         return AsyncDriver(
-            self.config,
+            self.config.copy(),
             *self.modules,
-            adapters=self.adapters,
+            adapters=adapters,
             result_builder=specified_result_builder,
             allow_module_overrides=self._allow_module_overrides,
         )
diff --git a/hamilton/driver.py b/hamilton/driver.py
index f50b633..d791d93 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -2141,7 +2141,8 @@ class Builder:
         :return: The driver you specified.
         """
 
-        adapter = self.adapters if self.adapters is not None else []
+        # copied, as drivers must not share state with the builder (which can be altered and reused)
+        adapter = list(self.adapters) if self.adapters is not None else []
         if self.legacy_graph_adapter is not None:
             adapter.append(self.legacy_graph_adapter)
 
@@ -2164,7 +2165,7 @@ class Builder:
             )
 
         return Driver(
-            self.config,
+            self.config.copy(),
             *self.modules,
             adapter=adapter,
             _materializers=self.materializers,
-- 
2.43.0


From 990226b74be1826615ea20c6459ef62e439ecf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:19 +0000
Subject: [PATCH 10/69] fix: the list of adapters passed to a Driver is not
 appended to

---
 hamilton/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index d791d93..9d6ef7f 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -337,7 +337,7 @@ class Driver:
                 contains_result_builder = True
         if not contains_result_builder:
             if use_legacy_adapter:
-                adapter.append(base.PandasDataFrameResult())
+                adapter = [*adapter, base.PandasDataFrameResult()]
         return lifecycle_base.LifecycleAdapterSet(*adapter)
 
     @staticmethod
-- 
2.43.0


From bba86e461583b33410de9d2bac3a5bfc6ae317ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:19 +0000
Subject: [PATCH 11/69] fix: Builder.copy keeps allow_module_overrides

---
 hamilton/driver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index 9d6ef7f..e813d2b 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -2186,6 +2186,7 @@ class Builder:
         new_builder.legacy_graph_adapter = self.legacy_graph_adapter
         new_builder.adapters = self.adapters.copy()
         new_builder.materializers = self.materializers.copy()
+        new_builder._allow_module_overrides = self._allow_module_overrides
         new_builder.execution_manager = self.execution_manager
         new_builder.local_executor = self.local_executor
         new_builder.remote_executor = self.remote_executor
-- 
2.43.0


From a5e5222ab07bad75fe12615d10b844b096e2907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:40 +0000
Subject: [PATCH 12/69] fix: Builder.copy of an async builder is an async
 builder

---
 hamilton/driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/driver.py b/hamilton/driver.py
index e813d2b..d2b4988 100644
--- a/hamilton/driver.py
+++ b/hamilton/driver.py
@@ -2179,7 +2179,7 @@ class Builder:
 
         NOTE. The copied Builder currently holds reference of Builder attributes
         """
-        new_builder = Builder()
+        new_builder = type(self)()
         new_builder.v2_executor = self.v2_executor
         new_builder.config = self.config.copy()
         new_builder.modules = self.modules.copy()
-- 
2.43.0


From 9907503a9ba7dcfb0debb8002673e0858d9af709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:43 +0000
Subject: [PATCH 13/69] fix: no executor is left running when another one fails
 to start or stop

---
 hamilton/execution/executors.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/hamilton/execution/executors.py b/hamilton/execution/executors.py
index 7bfb500..351a124 100644
--- a/hamilton/execution/executors.py
+++ b/hamilton/execution/executors.py
@@ -304,14 +304,29 @@ class ExecutionManager(abc.ABC):
         self.executors = executors
 
     def init(self):
-        """Initializes each of the executors."""
-        for executor in self.executors:
-            executor.init()
+        """Initializes each of the executors. If one of them fails to initialize, the ones that
+        were initialized before it are finalized, so that no resources are left behind."""
+        initialized = []
+        try:
+            for executor in self.executors:
+                executor.init()
+                initialized.append(executor)
+        except Exception:
+            for executor in initialized:
+                executor.finalize()
+            raise
 
     def finalize(self):
-        """Finalizes each of the executors."""
+        """Finalizes each of the executors, even if finalizing one of them fails."""
+        error = None
         for executor in self.executors:
-            executor.finalize()
+            try:
+                executor.finalize()
+            except Exception as e:
+                logger.exception(f"Exception finalizing executor {executor}")
+                error = e if error is None else error
+        if error is not None:
+            raise error
 
     @abc.abstractmethod
     def get_executor_for_task(self, task: TaskImplementation) -> TaskExecutor:
-- 
2.43.0


From 58f2b74884ec7c8eb6d74b51541e2bf058089c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:04 +0000
Subject: [PATCH 14/69] fix: adapters checking edge types get the source's type
 as type_from, and shared inputs are checked both ways

---
 hamilton/graph.py         | 4 ++--
 hamilton/lifecycle/api.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hamilton/graph.py b/hamilton/graph.py
index 93ee23e..fc01f02 100644
--- a/hamilton/graph.py
+++ b/hamilton/graph.py
@@ -63,8 +63,8 @@ def add_dependency(
         types_do_match = types_match(param_type, required_node.type)
         types_do_match |= adapter_checks_types and adapter.call_lifecycle_method_sync(
             "do_check_edge_types_match",
-            type_from=param_type,
-            type_to=required_node.type,
+            type_from=required_node.type,
+            type_to=param_type,
         )
         if not types_do_match and required_node.user_defined:
             # check the case that two input type expectations are compatible, e.g. is one a subset of the other
diff --git a/hamilton/lifecycle/api.py b/hamilton/lifecycle/api.py
index 9b756c2..fbab734 100644
--- a/hamilton/lifecycle/api.py
+++ b/hamilton/lifecycle/api.py
@@ -147,7 +147,7 @@ class GraphAdapter(
     @override
     @final
     def do_check_edge_types_match(self, type_from: type, type_to: type) -> bool:
-        return self.check_node_type_equivalence(type_to, type_from)
+        return self.check_node_type_equivalence(type_from, type_to)
 
     @abc.abstractmethod
     def execute_node(self, node: node.Node, kwargs: Dict[str, Any]) -> Any:
-- 
2.43.0


From 1e11cbbd7603e612a4f11be1b6d8b485547bed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:04 +0000
Subject: [PATCH 15/69] fix: materializers that share an id are rejected
 instead of one silently replacing the other

---
 hamilton/io/materialization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamilton/io/materialization.py b/hamilton/io/materialization.py
index 2035bb4..3f8694a 100644
--- a/hamilton/io/materialization.py
+++ b/hamilton/io/materialization.py
@@ -458,6 +458,10 @@ def modify_graph(
     materializer_nodes = []
     for materializer in materializer_factories:
         materializer_nodes.extend(materializer.generate_nodes(fn_graph))
+    names = [node_.name for node_ in materializer_nodes]
+    duplicates = sorted({name for name in names if names.count(name) > 1})
+    if duplicates:
+        raise ValueError(f"Duplicate node names found among the materializers: {duplicates}")
     fn_graph = fn_graph.with_nodes({node_.name: node_ for node_ in materializer_nodes})
     loader_nodes = []
     # We want to treat this as an override
-- 
2.43.0


From 39ca6a4edbc48e80ffa337b2935f7b5b7568fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:06 +0000
Subject: [PATCH 16/69] fix: Node.reassign_inputs handles shared sources and
 sources named like a bound parameter

---
 hamilton/node.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hamilton/node.py b/hamilton/node.py
index dc2fe0c..d7073db 100644
--- a/hamilton/node.py
+++ b/hamilton/node.py
@@ -360,9 +360,14 @@ class Node(object):
         is_async = inspect.iscoroutinefunction(self.callable)  # determine if its async
 
         def new_callable(**kwargs) -> Any:
-            reverse_input_names = {v: k for k, v in input_names.items()}
-            kwargs = {**kwargs, **input_values}
-            return self.callable(**{reverse_input_names.get(k, k): v for k, v in kwargs.items()})
+            # note multiple parameters can have the same source, and that a source can have the same
+            # name as a parameter that is bound to a value
+            node_kwargs = {k: v for k, v in kwargs.items() if k not in new_input_types}
+            for param in self.input_types:
+                source_name = input_names.get(param, param)
+                if source_name in kwargs:
+                    node_kwargs[param] = kwargs[source_name]
+            return self.callable(**{**node_kwargs, **input_values})
 
         async def async_function(**kwargs):
             return await new_callable(**kwargs)
-- 
2.43.0


From e59545da1e7590daeb87b0f5a9aef0418dcd29aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:40 +0000
Subject: [PATCH 17/69] fix: building a graph again from the same module gives
 @config functions the same names

---
 hamilton/function_modifiers/configuration.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hamilton/function_modifiers/configuration.py b/hamilton/function_modifiers/configuration.py
index ae62c74..8fe1b75 100644
--- a/hamilton/function_modifiers/configuration.py
+++ b/hamilton/function_modifiers/configuration.py
@@ -170,6 +170,9 @@ class config(base.NodeResolver):
     def _get_function_name(self, fn: Callable) -> str:
         if self.target_name is not None:
             return self.target_name
+        if hasattr(fn, "__original_name__"):
+            # the suffix has already been removed, by another decorator or when building another graph
+            return fn.__name__
         return base.sanitize_function_name(fn.__name__)
 
     def resolve(self, fn, config: Dict[str, Any]) -> Callable:
@@ -179,8 +182,10 @@ class config(base.NodeResolver):
         fn.__config_decorated__ = (
             self._config_used if self._config_used is not None else ["__UNKNOWN__"]
         )
-        fn.__original_name__ = fn.__name__
-        fn.__name__ = self._get_function_name(fn)  # TODO -- copy function to not mutate it
+        new_name = self._get_function_name(fn)
+        if not hasattr(fn, "__original_name__"):
+            fn.__original_name__ = fn.__name__
+        fn.__name__ = new_name  # TODO -- copy function to not mutate it
         return fn
 
     def validate(self, fn):
-- 
2.43.0


From e4735e3d773b8810734bcac1481b43f76877f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:40 +0000
Subject: [PATCH 18/69] fix: @model and @dynamic_transform receive the config
 parameter they require

---
 hamilton/function_modifiers/macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/function_modifiers/macros.py b/hamilton/function_modifiers/macros.py
index ae877db..67f23d0 100644
--- a/hamilton/function_modifiers/macros.py
+++ b/hamilton/function_modifiers/macros.py
@@ -297,7 +297,7 @@ class dynamic_transform(base.NodeCreator):
             )
         ]
 
-    def require_config(self) -> List[str]:
+    def required_config(self) -> List[str]:
         """Returns the configuration parameters that this model requires
 
         :return: Just the one config param used by this model
-- 
2.43.0


From a5494e2ebdb683df33c643c2d819f4f731f7cfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:40 +0000
Subject: [PATCH 19/69] fix: pipe_output can be applied to async functions

---
 hamilton/function_modifiers/macros.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hamilton/function_modifiers/macros.py b/hamilton/function_modifiers/macros.py
index 67f23d0..81986c0 100644
--- a/hamilton/function_modifiers/macros.py
+++ b/hamilton/function_modifiers/macros.py
@@ -1307,8 +1307,8 @@ class pipe_output(base.NodeTransformer):
         def __identity(foo: Any) -> Any:
             return foo
 
-        async def async_function(**kwargs):
-            return await __identity(**kwargs)
+        async def async_function(foo: Any) -> Any:
+            return foo
 
         fn_to_use = async_function if is_async else __identity
 
-- 
2.43.0


From 6258690db4b70e4c892190e3338b9093e3fcee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:59 +0000
Subject: [PATCH 20/69] fix: one apply_to target can be shared by several
 mutators

---
 hamilton/function_modifiers/macros.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hamilton/function_modifiers/macros.py b/hamilton/function_modifiers/macros.py
index 81986c0..5560123 100644
--- a/hamilton/function_modifiers/macros.py
+++ b/hamilton/function_modifiers/macros.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import inspect
 import logging
 import typing
@@ -1572,12 +1573,14 @@ class mutate:
     def _create_step(self, mutating_fn: Callable, remote_applicable_builder: Applicable):
         """Adds the correct function for the applicable and resolves kwargs"""
 
-        if not remote_applicable_builder.kwargs:
-            remote_applicable_builder.kwargs = self.mutating_function_kwargs
+        # copied as the same target can be passed to multiple mutators
+        new_step = copy.copy(remote_applicable_builder)
+        if not new_step.kwargs:
+            new_step.kwargs = self.mutating_function_kwargs
 
-        remote_applicable_builder.fn = mutating_fn
+        new_step.fn = mutating_fn
 
-        return remote_applicable_builder
+        return new_step
 
     def __call__(self, mutating_fn: Callable):
         """Adds to an existing pipe_output or creates a new pipe_output.
-- 
2.43.0


From e5e426a3924d58e3fa256108e7afa138eb0cd95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:10 +0000
Subject: [PATCH 21/69] fix: load_from and save_to pass every argument from its
 own source

---
 hamilton/function_modifiers/adapters.py | 57 ++++++++++---------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/hamilton/function_modifiers/adapters.py b/hamilton/function_modifiers/adapters.py
index 2f975f4..7afbe33 100644
--- a/hamilton/function_modifiers/adapters.py
+++ b/hamilton/function_modifiers/adapters.py
@@ -181,44 +181,38 @@ class LoadFromDecorator(NodeInjector):
         # dependencies is a map from param name -> source name
         # we use this to pass the right arguments to the loader.
         dependencies, resolved_kwargs = resolve_kwargs(self.kwargs)
-        # we need to invert the dependencies so that we can pass
-        # the right argument to the loader
-        dependencies_inverted = {v: k for k, v in dependencies.items()}
 
         def load_data(
             __loader_factory: AdapterFactory = loader_factory,
             __load_type: Type[Type] = load_type,
             __resolved_kwargs=resolved_kwargs,
-            __dependencies=dependencies_inverted,
+            __dependencies=dependencies,
             __optional_params=loader_cls.get_optional_arguments(),  # noqa: B008
             **input_kwargs: Any,
         ) -> Tuple[load_type, Dict[str, Any]]:
+            # note multiple arguments can have the same source
             input_args_with_fixed_dependencies = {
-                __dependencies.get(key, key): value for key, value in input_kwargs.items()
+                param: input_kwargs[source_]
+                for param, source_ in __dependencies.items()
+                if source_ in input_kwargs
             }
             kwargs = {**__resolved_kwargs, **input_args_with_fixed_dependencies}
             data_loader = __loader_factory.create_loader(**kwargs)
             return data_loader.load_data(load_type)
 
-        def get_input_type_key(key: str) -> str:
-            return key if key not in dependencies else dependencies[key]
-
+        # The resolved kwargs are not dependencies, they will be filled out later
         input_types = {
-            get_input_type_key(key): (type_, DependencyType.REQUIRED)
-            for key, type_ in loader_cls.get_required_arguments().items()
+            dependencies[key]: (type_, DependencyType.OPTIONAL)
+            for key, type_ in loader_cls.get_optional_arguments().items()
+            if key in dependencies
         }
         input_types.update(
             {
-                dependencies[key]: (type_, DependencyType.OPTIONAL)
-                for key, type_ in loader_cls.get_optional_arguments().items()
+                dependencies[key]: (type_, DependencyType.REQUIRED)
+                for key, type_ in loader_cls.get_required_arguments().items()
                 if key in dependencies
             }
         )
-        # Take out all the resolved kwargs, as they are not dependencies, and will be filled out
-        # later
-        input_types = {
-            key: value for key, value in input_types.items() if key not in resolved_kwargs
-        }
 
         # the loader node is the node that loads the data from the data source.
         loader_node = node.Node(
@@ -528,43 +522,38 @@ class SaveToDecorator(SingleNodeNodeTransformer):
 
         adapter_factory = AdapterFactory(saver_cls, **self.kwargs)
         dependencies, resolved_kwargs = resolve_kwargs(self.kwargs)
-        dependencies_inverted = {v: k for k, v in dependencies.items()}
 
         def save_data(
             __adapter_factory=adapter_factory,
-            __dependencies=dependencies_inverted,
+            __dependencies=dependencies,
             __resolved_kwargs=resolved_kwargs,
             __data_node_name=node_to_save,
             **input_kwargs,
         ) -> Dict[str, Any]:
+            # note multiple arguments can have the same source
             input_args_with_fixed_dependencies = {
-                __dependencies.get(key, key): value for key, value in input_kwargs.items()
+                param: input_kwargs[source_]
+                for param, source_ in __dependencies.items()
+                if source_ in input_kwargs
             }
+            data_to_save = input_kwargs[__data_node_name]
             kwargs = {**__resolved_kwargs, **input_args_with_fixed_dependencies}
-            data_to_save = kwargs[__data_node_name]
-            kwargs = {k: v for k, v in kwargs.items() if k != __data_node_name}
             data_saver = __adapter_factory.create_saver(**kwargs)
             return data_saver.save_data(data_to_save)
 
-        def get_input_type_key(key: str) -> str:
-            return key if key not in dependencies else dependencies[key]
-
+        # The resolved kwargs are not dependencies, they will be filled out later
         input_types = {
-            get_input_type_key(key): (type_, DependencyType.REQUIRED)
-            for key, type_ in saver_cls.get_required_arguments().items()
+            dependencies[key]: (type_, DependencyType.OPTIONAL)
+            for key, type_ in saver_cls.get_optional_arguments().items()
+            if key in dependencies
         }
         input_types.update(
             {
-                dependencies[key]: (type_, DependencyType.OPTIONAL)
-                for key, type_ in saver_cls.get_optional_arguments().items()
+                dependencies[key]: (type_, DependencyType.REQUIRED)
+                for key, type_ in saver_cls.get_required_arguments().items()
                 if key in dependencies
             }
         )
-        # Take out all the resolved kwargs, as they are not dependencies, and will be filled out
-        # later
-        input_types = {
-            key: value for key, value in input_types.items() if key not in resolved_kwargs
-        }
         input_types[node_to_save] = (node_.type, DependencyType.REQUIRED)
         save_node = node.Node(
             name=artifact_name,
-- 
2.43.0


From f4a302f65b2403a6f25cec66fb940d614aa1ba78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:21 +0000
Subject: [PATCH 22/69] fix: parameterize and inject can be applied to async
 functions

The node they generated was not a coroutine function, so that the async driver handed out (and
passed on) coroutines that nobody awaited.
---
 hamilton/function_modifiers/expanders.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index 8436224..a5be4e2 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -233,6 +233,17 @@ class parameterize(base.NodeExpander):
                     # now the error will be clear enough
                 return node_.callable(*args, **new_kwargs)
 
+            async def async_replacement_function(
+                *args, _replacement_function=replacement_function, **kwargs
+            ):
+                return await _replacement_function(*args, **kwargs)
+
+            fn_to_use = (
+                async_replacement_function
+                if inspect.iscoroutinefunction(node_.callable)
+                else replacement_function
+            )
+
             new_input_types = {}
             grouped_dependencies = {
                 **grouped_list_dependencies,
@@ -273,7 +284,7 @@ class parameterize(base.NodeExpander):
                     name=output_node,
                     doc_string=docstring,  # TODO -- change docstring
                     callabl=functools.partial(
-                        replacement_function,
+                        fn_to_use,
                         **{parameter: val.value for parameter, val in literal_dependencies.items()},
                     ),
                     input_types=new_input_types,
-- 
2.43.0


From 90cc38bb1070b102da2844ab35c8e4795670bfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:21 +0000
Subject: [PATCH 23/69] fix: does can replace a function by an async one

---
 hamilton/function_modifiers/macros.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hamilton/function_modifiers/macros.py b/hamilton/function_modifiers/macros.py
index 5560123..b417007 100644
--- a/hamilton/function_modifiers/macros.py
+++ b/hamilton/function_modifiers/macros.py
@@ -223,7 +223,12 @@ class does(base.NodeCreator):
             final_kwarg_values = does.map_kwargs(final_kwarg_values, self.argument_mapping)
             return self.replacing_function(**final_kwarg_values)
 
-        return [node.Node.from_fn(fn).copy_with(callabl=wrapper_function)]
+        async def async_wrapper_function(**kwargs):
+            return await wrapper_function(**kwargs)
+
+        is_async = inspect.iscoroutinefunction(self.replacing_function)
+        fn_to_use = async_wrapper_function if is_async else wrapper_function
+        return [node.Node.from_fn(fn).copy_with(callabl=fn_to_use)]
 
 
 def get_default_tags(fn: Callable) -> Dict[str, str]:
-- 
2.43.0


From cc24c90258e52e6dea93cb71613c9e25a1d68e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:50 +0000
Subject: [PATCH 24/69] fix: parameterize_extract_columns respects
 reassign_columns, does and async functions

The wrapper that renames the columns was used even with reassign_columns=False, and it called the
decorated function itself rather than its node, which with @does is the empty function.
---
 hamilton/function_modifiers/expanders.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index a5be4e2..f2c4742 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -935,13 +935,23 @@ class parameterize_extract_columns(base.NodeExpander):
         output_nodes = []
         for i, parameterization in enumerate(self.extract_config):
 
-            @functools.wraps(fn)
-            def wrapper_fn(*args, _output_columns=parameterization.outputs, **kwargs):
-                df_out = fn(*args, **kwargs)
-                df_out.columns = _output_columns
-                return df_out
+            if inspect.iscoroutinefunction(node_.callable):
 
-            new_node = node_.copy_with(callabl=wrapper_fn)
+                @functools.wraps(fn)
+                async def wrapper_fn(*args, _output_columns=parameterization.outputs, **kwargs):
+                    df_out = await node_.callable(*args, **kwargs)
+                    df_out.columns = _output_columns
+                    return df_out
+
+            else:
+
+                @functools.wraps(fn)
+                def wrapper_fn(*args, _output_columns=parameterization.outputs, **kwargs):
+                    df_out = node_.callable(*args, **kwargs)
+                    df_out.columns = _output_columns
+                    return df_out
+
+            new_node = node_.copy_with(callabl=wrapper_fn) if self.reassign_columns else node_
             fn_to_call = wrapper_fn if self.reassign_columns else fn
             # We have to rename the underlying function so that we do not
             # get naming collisions. Using __ is cleaner than using a uuid
-- 
2.43.0


From 0ef30e8b504a8e0e81ce01125c50b4f901f54774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:32 +0000
Subject: [PATCH 25/69] fix: extract_columns fills missing columns declared
 with a docstring

---
 hamilton/function_modifiers/expanders.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index f2c4742..f35ab63 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -638,6 +638,7 @@ class extract_columns(base.SingleNodeNodeTransformer):
         """
         fn = node_.callable
         base_doc = node_.documentation
+        column_names = [col[0] if isinstance(col, tuple) else col for col in self.columns]
 
         # if fn is an async function
         if inspect.iscoroutinefunction(fn):
@@ -645,7 +646,7 @@ class extract_columns(base.SingleNodeNodeTransformer):
             async def df_generator(*args, **kwargs) -> Any:
                 df_generated = await fn(*args, **kwargs)
                 if self.fill_with is not None:
-                    for col in self.columns:
+                    for col in column_names:
                         if col not in df_generated:
                             registry.fill_with_scalar(df_generated, col, self.fill_with)
                             assert col in df_generated
@@ -656,7 +657,7 @@ class extract_columns(base.SingleNodeNodeTransformer):
             def df_generator(*args, **kwargs) -> Any:
                 df_generated = fn(*args, **kwargs)
                 if self.fill_with is not None:
-                    for col in self.columns:
+                    for col in column_names:
                         if col not in df_generated:
                             registry.fill_with_scalar(df_generated, col, self.fill_with)
                             assert col in df_generated
-- 
2.43.0


From 54796914bccd94337ab97e0ffce33a1a57182200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:51 +0000
Subject: [PATCH 26/69] fix: does passes an argument on under several names,
 and chains of names

Mapping one argument to two parameters raised a KeyError; mapping an argument to the name of another
mapped one dropped it.
---
 hamilton/function_modifiers/macros.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hamilton/function_modifiers/macros.py b/hamilton/function_modifiers/macros.py
index b417007..eceb572 100644
--- a/hamilton/function_modifiers/macros.py
+++ b/hamilton/function_modifiers/macros.py
@@ -110,10 +110,9 @@ class does(base.NodeCreator):
         :param argument_mapping: Mapping of those arguments to a replacing function's arguments.
         :return: The new kwargs for the replacing function's arguments.
         """
-        output = {**kwargs}
+        mapped_args = set(argument_mapping.values())
+        output = {key: value for key, value in kwargs.items() if key not in mapped_args}
         for arg_mapped_to, original_arg in argument_mapping.items():
-            if original_arg in kwargs and arg_mapped_to not in argument_mapping.values():
-                del output[original_arg]
             # Note that if it is not there it could be a **kwarg
             output[arg_mapped_to] = kwargs[original_arg]
         return output
-- 
2.43.0


From 757accc35aec71479cfd7d20f08e1e01767e9a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:51 +0000
Subject: [PATCH 27/69] fix: Node.transform_output transforms what an async
 node computes, not its coroutine

---
 hamilton/node.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hamilton/node.py b/hamilton/node.py
index d7073db..85e8576 100644
--- a/hamilton/node.py
+++ b/hamilton/node.py
@@ -396,7 +396,11 @@ class Node(object):
         def new_callable(**kwargs) -> Any:
             return __transform(self.callable(**kwargs), kwargs)
 
-        return self.copy_with(callabl=new_callable, typ=__output_type)
+        async def async_function(**kwargs) -> Any:
+            return __transform(await self.callable(**kwargs), kwargs)
+
+        fn_to_use = async_function if inspect.iscoroutinefunction(self.callable) else new_callable
+        return self.copy_with(callabl=fn_to_use, typ=__output_type)
 
 
 def matches_query(
-- 
2.43.0


From 5bf47c3a629ba7c2a4d65a9630aed5dbec543e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:35 +0000
Subject: [PATCH 28/69] fix: parameterize does not hand a literal on as the
 value of an absent source of the same name

---
 hamilton/function_modifiers/expanders.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hamilton/function_modifiers/expanders.py b/hamilton/function_modifiers/expanders.py
index f35ab63..f5d0268 100644
--- a/hamilton/function_modifiers/expanders.py
+++ b/hamilton/function_modifiers/expanders.py
@@ -283,10 +283,7 @@ class parameterize(base.NodeExpander):
                 node_.copy_with(
                     name=output_node,
                     doc_string=docstring,  # TODO -- change docstring
-                    callabl=functools.partial(
-                        fn_to_use,
-                        **{parameter: val.value for parameter, val in literal_dependencies.items()},
-                    ),
+                    callabl=fn_to_use,
                     input_types=new_input_types,
                     include_refs=False,  # Include refs is here as this is earlier than compile time
                     # TODO -- figure out why this isn't getting replaced later...
-- 
2.43.0


From 25b7ada59c54d08f3baa974f93260e07146c8d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:11 +0000
Subject: [PATCH 29/69] fix: the cache adapter returns a data loader's tuple
 whole, not its first element

---
 hamilton/caching/adapter.py | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 59fd181..3e3d98e 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1268,13 +1268,6 @@ class HamiltonCacheAdapter(
             ):
                 cache_key = self.get_cache_key(run_id=run_id, node_name=node_name, task_id=task_id)
 
-                # nodes collected in `._data_loaders` return tuples of (result, metadata)
-                # where metadata often includes a timestamp. To ensure we provide a consistent
-                # `data_version` / hash, we only hash the result part of the materializer return
-                # value and discard the metadata.
-                if node_name in self._data_loaders[run_id] and isinstance(result, tuple):
-                    result = result[0]
-
                 data_version = self._version_data(node_name=node_name, run_id=run_id, result=result)
 
                 # nodes collected in `._data_savers` return a dictionary of metadata
@@ -1355,13 +1348,6 @@ class HamiltonCacheAdapter(
                 task_id=task_id,
             )
 
-            # nodes collected in `._data_loaders` return tuples of (result, metadata)
-            # where metadata often includes a timestamp. To ensure we provide a consistent
-            # `data_version` / hash, we only hash the result part of the materializer return
-            # value and discard the metadata.
-            if node_name in self._data_loaders[run_id] and isinstance(result, tuple):
-                result = result[0]
-
             data_version = self._version_data(node_name=node_name, run_id=run_id, result=result)
 
             # nodes collected in `._data_savers` return a dictionary of metadata
-- 
2.43.0


From a4a27415b2f929c425e5565255bca0f33367590f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:11 +0000
Subject: [PATCH 30/69] fix: the cache adapter does not store the result of an
 ignored node

---
 hamilton/caching/adapter.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 3e3d98e..ed73b4d 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1401,7 +1401,6 @@ class HamiltonCacheAdapter(
         if self.behaviors[run_id][node_name] in (
             CachingBehavior.DEFAULT,
             CachingBehavior.RECOMPUTE,
-            CachingBehavior.IGNORE,
         ):
             cache_key = self.get_cache_key(run_id=run_id, node_name=node_name, task_id=task_id)
             data_version = self.get_data_version(
-- 
2.43.0


From 634e334576c39621f44c4d6d8be64564b29045e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:11 +0000
Subject: [PATCH 31/69] fix: SQLiteMetadataStore.set replaces the data version
 of a cache key it already holds

---
 hamilton/caching/stores/sqlite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/caching/stores/sqlite.py b/hamilton/caching/stores/sqlite.py
index 1e43484..089cc9b 100644
--- a/hamilton/caching/stores/sqlite.py
+++ b/hamilton/caching/stores/sqlite.py
@@ -147,7 +147,7 @@ class SQLiteMetadataStore(MetadataStore):
         cur.execute("INSERT INTO history (cache_key, run_id) VALUES (?, ?)", (cache_key, run_id))
         cur.execute(
             """\
-            INSERT OR IGNORE INTO cache_metadata (
+            INSERT OR REPLACE INTO cache_metadata (
                 cache_key, node_name, code_version, data_version
             ) VALUES (?, ?, ?, ?)
             """,
-- 
2.43.0


From ce771bb2bf1e08c82e3daf7ca2af35747279f30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:11 +0000
Subject: [PATCH 32/69] fix: a stored result that can't be loaded is a failed
 retrieval, so the node is recomputed

---
 hamilton/caching/stores/file.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/stores/file.py b/hamilton/caching/stores/file.py
index 9721a72..11c46c3 100644
--- a/hamilton/caching/stores/file.py
+++ b/hamilton/caching/stores/file.py
@@ -10,7 +10,7 @@ except ImportError:
 
 from hamilton.io.data_adapters import DataLoader, DataSaver
 
-from .base import ResultStore, StoredResult
+from .base import ResultRetrievalError, ResultStore, StoredResult
 
 
 class FileResultStore(ResultStore):
@@ -35,10 +35,14 @@ class FileResultStore(ResultStore):
     def _load_result_from_path(path: Path) -> Optional[StoredResult]:
         try:
             data = path.read_bytes()
-            return StoredResult.load(data)
         except FileNotFoundError:
             return None
 
+        try:
+            return StoredResult.load(data)
+        except Exception as e:
+            raise ResultRetrievalError(f"Failed to load the result stored at {path}") from e
+
     def _path_from_data_version(self, data_version: str) -> Path:
         return self.path.joinpath(data_version)
 
-- 
2.43.0


From 609f5b2851cde7749b5450345399cf1ff97f735a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:11 +0000
Subject: [PATCH 33/69] fix: deleting a missing entry of an in-memory cache
 store is no error, as for the other stores

---
 hamilton/caching/stores/memory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/stores/memory.py b/hamilton/caching/stores/memory.py
index 37eee89..800efb4 100644
--- a/hamilton/caching/stores/memory.py
+++ b/hamilton/caching/stores/memory.py
@@ -48,7 +48,7 @@ class InMemoryMetadataStore(MetadataStore):
     @override
     def delete(self, cache_key: str) -> None:
         """Delete the ``data_version`` for ``cache_key``."""
-        del self._data_versions[cache_key]
+        self._data_versions.pop(cache_key, None)
 
     @override
     def delete_all(self) -> None:
@@ -187,7 +187,7 @@ class InMemoryResultStore(ResultStore):
 
     @override
     def delete(self, data_version: str) -> None:
-        del self._results[data_version]
+        self._results.pop(data_version, None)
 
     @override
     def delete_all(self) -> None:
-- 
2.43.0


From e9f467f2d28bd9e8f58f86af1f7a0b322af66625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:11 +0000
Subject: [PATCH 34/69] fix: InMemoryMetadataStore forgets deleted entries in
 its runs too

---
 hamilton/caching/stores/memory.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hamilton/caching/stores/memory.py b/hamilton/caching/stores/memory.py
index 800efb4..84ff49e 100644
--- a/hamilton/caching/stores/memory.py
+++ b/hamilton/caching/stores/memory.py
@@ -54,6 +54,8 @@ class InMemoryMetadataStore(MetadataStore):
     def delete_all(self) -> None:
         """Delete all stored metadata."""
         self._data_versions.clear()
+        self._cache_keys_by_run.clear()
+        self._run_ids.clear()
 
     def persist_to(self, metadata_store: Optional[MetadataStore] = None) -> None:
         """Persist in-memory metadata using another MetadataStore implementation.
@@ -90,6 +92,8 @@ class InMemoryMetadataStore(MetadataStore):
 
         for run_id, cache_keys in self._cache_keys_by_run.items():
             for cache_key in cache_keys:
+                if cache_key not in self._data_versions:  # deleted since
+                    continue
                 data_version = self._data_versions[cache_key]
                 metadata_store.set(
                     cache_key=cache_key,
@@ -150,6 +154,8 @@ class InMemoryMetadataStore(MetadataStore):
 
         nodes_metadata = []
         for cache_key in self._cache_keys_by_run[run_id]:
+            if cache_key not in self._data_versions:  # deleted since
+                continue
             decoded_key = decode_key(cache_key)
             nodes_metadata.append(
                 dict(
-- 
2.43.0


From ab71842e29f9097b994a9eaa1191462a7b744055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:11 +0000
Subject: [PATCH 35/69] fix: SQLiteMetadataStore can be used after delete_all

---
 hamilton/caching/stores/sqlite.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/caching/stores/sqlite.py b/hamilton/caching/stores/sqlite.py
index 089cc9b..048a33e 100644
--- a/hamilton/caching/stores/sqlite.py
+++ b/hamilton/caching/stores/sqlite.py
@@ -186,7 +186,7 @@ class SQLiteMetadataStore(MetadataStore):
         cur = self.connection.cursor()
 
         for table_name in ["run_ids", "history", "cache_metadata"]:
-            cur.execute(f"DROP TABLE IF EXISTS {table_name};")
+            cur.execute(f"DELETE FROM {table_name};")
 
         self.connection.commit()
 
-- 
2.43.0


From c1f25789558e18e26bc35b0384db4e3873f52c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:11 +0000
Subject: [PATCH 36/69] fix: the cache key of a node covers dependencies
 computed by another task

---
 hamilton/caching/adapter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index ed73b4d..b1e4832 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1210,7 +1210,9 @@ class HamiltonCacheAdapter(
                 if tasks_data_versions is SENTINEL:
                     dep_data_version = self.version_data(dep_value, run_id=run_id)
                 elif isinstance(tasks_data_versions, dict):
-                    dep_data_version = tasks_data_versions.get(task_id)
+                    dep_data_version = tasks_data_versions.get(task_id, SENTINEL)
+                    if dep_data_version is SENTINEL:  # computed by another task
+                        dep_data_version = self.version_data(dep_value, run_id=run_id)
                 else:
                     dep_data_version = tasks_data_versions
 
-- 
2.43.0


From e3c29c7d9222744eb79f4cac25a857118e6e5bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:11 +0000
Subject: [PATCH 37/69] fix: the cache key of a collect node covers the order
 of the collected items

---
 hamilton/caching/adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index b1e4832..d5f93c1 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1196,7 +1196,7 @@ class HamiltonCacheAdapter(
             if dep_name == collected_name:
                 # the collected value should be hashed based on the items, not the container
                 items_data_versions = [self.version_data(item, run_id=run_id) for item in dep_value]
-                dep_data_version = fingerprinting.hash_value(sorted(items_data_versions))
+                dep_data_version = fingerprinting.hash_value(items_data_versions)
 
             elif dep_role == NodeRoleInTaskExecution.EXPAND:
                 # if the dependency is `EXPAND`, the kwarg received is a single item yielded by the iterator
-- 
2.43.0


From 68efe7377484814aef40793c970eab952a57c578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:11 +0000
Subject: [PATCH 38/69] fix: fingerprint every row of a pandas object, also
 those that share an index label

---
 hamilton/caching/fingerprinting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/caching/fingerprinting.py b/hamilton/caching/fingerprinting.py
index ee5ea96..e66a6d7 100644
--- a/hamilton/caching/fingerprinting.py
+++ b/hamilton/caching/fingerprinting.py
@@ -240,7 +240,7 @@ def hash_pandas_obj(obj, *args, depth: int = 0, **kwargs) -> str:
     from pandas.util import hash_pandas_object
 
     hash_per_row = hash_pandas_object(obj)
-    return hash_mapping(hash_per_row.to_dict(), ignore_order=False, depth=depth + 1)
+    return hash_mapping(hash_per_row, ignore_order=False, depth=depth + 1)
 
 
 @hash_value.register(h_databackends.AbstractPolarsDataFrame)
-- 
2.43.0


From 9bb0747481a4bc1a8a2e7848b31bf5f41fa4b847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:44 +0000
Subject: [PATCH 39/69] fix: a node with a cache format can be cached in a
 result store that keeps no files

---
 hamilton/caching/adapter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index d5f93c1..2a50163 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -1418,7 +1418,8 @@ class HamiltonCacheAdapter(
                 .nodes[node_name]
                 .tags.get(cache_decorator.FORMAT_KEY, SENTINEL)
             )
-            if cache_format is not SENTINEL:
+            # only stores that keep files can hold a result in a given format
+            if cache_format is not SENTINEL and hasattr(self.result_store, "_materialized_path"):
                 saver_cls, loader_cls = search_data_adapter_registry(
                     name=cache_format, type_=type(result)
                 )  # type: ignore
-- 
2.43.0


From 19a3527a5c7e97dfe3018e46b6d1b44922cca75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:19 +0000
Subject: [PATCH 40/69] fix: default_loader_behavior applies to loaders whose
 target is not a node

---
 hamilton/caching/adapter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/adapter.py b/hamilton/caching/adapter.py
index 2a50163..00fd64f 100644
--- a/hamilton/caching/adapter.py
+++ b/hamilton/caching/adapter.py
@@ -981,7 +981,9 @@ class HamiltonCacheAdapter(
                         disable=_disable,
                         recompute=_recompute,
                         ignore=_ignore,
-                        default_behavior=default_loader_behavior,
+                        default_behavior=default_behavior,
+                        default_loader_behavior=default_loader_behavior,
+                        default_saver_behavior=default_saver_behavior,
                     )
 
                 self._data_loaders[run_id].append(main_node)
-- 
2.43.0


From 77cb78a2f6ff0ce7483a83c05d6422ab92ebb22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:32 +0000
Subject: [PATCH 41/69] fix: InMemoryMetadataStore lists and persists runs that
 have ignored nodes

---
 hamilton/caching/stores/memory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hamilton/caching/stores/memory.py b/hamilton/caching/stores/memory.py
index 84ff49e..780a4db 100644
--- a/hamilton/caching/stores/memory.py
+++ b/hamilton/caching/stores/memory.py
@@ -38,7 +38,8 @@ class InMemoryMetadataStore(MetadataStore):
     def set(self, cache_key: str, data_version: str, run_id: str, **kwargs) -> Optional[Any]:
         """Set the ``data_version`` for ``cache_key`` and associate it with the ``run_id``."""
         self._data_versions[cache_key] = data_version
-        self._cache_keys_by_run[run_id].append(cache_key)
+        if cache_key is not None:  # ignored nodes have no key
+            self._cache_keys_by_run[run_id].append(cache_key)
 
     @override
     def get(self, cache_key: str) -> Optional[str]:
-- 
2.43.0


From e03b025fb4a2891cdfc51c77821dc2002fd66448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:08 +0000
Subject: [PATCH 42/69] fix: InMemoryResultStore.load_from does not invent
 results missing from the source store

---
 hamilton/caching/stores/memory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hamilton/caching/stores/memory.py b/hamilton/caching/stores/memory.py
index 780a4db..25d62cc 100644
--- a/hamilton/caching/stores/memory.py
+++ b/hamilton/caching/stores/memory.py
@@ -278,8 +278,9 @@ class InMemoryResultStore(ResultStore):
                     data_versions_to_retrieve.add(node_metadata["data_version"])
 
         for data_version in data_versions_to_retrieve:
-            # TODO disambiguate "result is None" from the sentinel value when `data_version`
-            # is not found in `result_store`.
+            # `get()` also returns None for a `data_version` that is not found in `result_store`.
+            if not result_store.exists(data_version):
+                continue
             result = result_store.get(data_version)
             in_memory_result_store.set(data_version, result)
 
-- 
2.43.0


From cb42a0f508bdb8995d72da5bf997827f009bcc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:28 +0000
Subject: [PATCH 43/69] fix: fingerprint the values of object arrays, not their
 addresses

---
 hamilton/caching/fingerprinting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hamilton/caching/fingerprinting.py b/hamilton/caching/fingerprinting.py
index e66a6d7..a00491d 100644
--- a/hamilton/caching/fingerprinting.py
+++ b/hamilton/caching/fingerprinting.py
@@ -268,4 +268,6 @@ def hash_numpy_array(obj, *args, depth: int = 0, **kwargs) -> str:
     Unsure, but it's an area to investigate.
     """
     # use the same depth because we're simply dispatching to another implementation
+    if obj.dtype.hasobject:  # the buffer holds pointers to the values
+        return hash_value(obj.tolist(), depth=depth + 1)
     return hash_bytes(obj.tobytes(), depth=depth)
-- 
2.43.0


From ecd01244614ccf36e82f1821187e6a0ac87642de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:29 +0000
Subject: [PATCH 44/69] fix: fingerprints of polars dataframes cover the column
 names

---
 hamilton/caching/fingerprinting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/caching/fingerprinting.py b/hamilton/caching/fingerprinting.py
index a00491d..aa81729 100644
--- a/hamilton/caching/fingerprinting.py
+++ b/hamilton/caching/fingerprinting.py
@@ -249,7 +249,7 @@ def hash_polars_dataframe(obj, *args, depth: int = 0, **kwargs) -> str:
     a list of hashes then hash it.
     """
     hash_per_row = obj.hash_rows()
-    return hash_sequence(hash_per_row.to_list(), depth=depth + 1)
+    return hash_sequence([obj.columns, hash_per_row.to_list()], depth=depth + 1)
 
 
 @hash_value.register(h_databackends.AbstractPolarsColumn)
-- 
2.43.0


From 4eca591ad816dea5fada7e8fb811f62f1bbca7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:22 +0000
Subject: [PATCH 45/69] fix: MatplotlibWriter hands its dpi option to savefig

---
 hamilton/plugins/matplotlib_extensions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hamilton/plugins/matplotlib_extensions.py b/hamilton/plugins/matplotlib_extensions.py
index ae8e58f..d6c5ef1 100644
--- a/hamilton/plugins/matplotlib_extensions.py
+++ b/hamilton/plugins/matplotlib_extensions.py
@@ -37,6 +37,8 @@ class MatplotlibWriter(DataSaver):
 
     def _get_saving_kwargs(self) -> dict:
         kwargs = {}
+        if self.dpi is not None:
+            kwargs["dpi"] = self.dpi
         if self.format is not None:
             kwargs["format"] = self.format
         if self.metadata is not None:
-- 
2.43.0


From bfaa807605d49cb81359a5f05da9af15b6f6e784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:22 +0000
Subject: [PATCH 46/69] fix: options of PolarsParquetWriter are handed on when
 compression is None

---
 hamilton/plugins/polars_post_1_0_0_extensions.py | 10 +++++-----
 hamilton/plugins/polars_pre_1_0_0_extension.py   | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/hamilton/plugins/polars_post_1_0_0_extensions.py b/hamilton/plugins/polars_post_1_0_0_extensions.py
index ee71bb0..5bd0230 100644
--- a/hamilton/plugins/polars_post_1_0_0_extensions.py
+++ b/hamilton/plugins/polars_post_1_0_0_extensions.py
@@ -309,15 +309,15 @@ class PolarsParquetWriter(DataSaver):
         kwargs = {}
         if self.compression is not None:
             kwargs["compression"] = self.compression
-        if self.compression is not None:
+        if self.compression_level is not None:
             kwargs["compression_level"] = self.compression_level
-        if self.compression is not None:
+        if self.statistics is not None:
             kwargs["statistics"] = self.statistics
-        if self.compression is not None:
+        if self.row_group_size is not None:
             kwargs["row_group_size"] = self.row_group_size
-        if self.compression is not None:
+        if self.use_pyarrow is not None:
             kwargs["use_pyarrow"] = self.use_pyarrow
-        if self.compression is not None:
+        if self.pyarrow_options is not None:
             kwargs["pyarrow_options"] = self.pyarrow_options
         return kwargs
 
diff --git a/hamilton/plugins/polars_pre_1_0_0_extension.py b/hamilton/plugins/polars_pre_1_0_0_extension.py
index 3814f0f..c94c4ef 100644
--- a/hamilton/plugins/polars_pre_1_0_0_extension.py
+++ b/hamilton/plugins/polars_pre_1_0_0_extension.py
@@ -324,15 +324,15 @@ class PolarsParquetWriter(DataSaver):
         kwargs = {}
         if self.compression is not None:
             kwargs["compression"] = self.compression
-        if self.compression is not None:
+        if self.compression_level is not None:
             kwargs["compression_level"] = self.compression_level
-        if self.compression is not None:
+        if self.statistics is not None:
             kwargs["statistics"] = self.statistics
-        if self.compression is not None:
+        if self.row_group_size is not None:
             kwargs["row_group_size"] = self.row_group_size
-        if self.compression is not None:
+        if self.use_pyarrow is not None:
             kwargs["use_pyarrow"] = self.use_pyarrow
-        if self.compression is not None:
+        if self.pyarrow_options is not None:
             kwargs["pyarrow_options"] = self.pyarrow_options
         return kwargs
 
-- 
2.43.0


From 50cf2dec924d6ac64c7aa1f4594eed1611170ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:22 +0000
Subject: [PATCH 47/69] fix: PandasCSVReader hands skipfooter and decimal to
 read_csv

---
 hamilton/plugins/pandas_extensions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hamilton/plugins/pandas_extensions.py b/hamilton/plugins/pandas_extensions.py
index e212e5d..52c31cb 100644
--- a/hamilton/plugins/pandas_extensions.py
+++ b/hamilton/plugins/pandas_extensions.py
@@ -180,6 +180,8 @@ class PandasCSVReader(DataLoader):
             kwargs["skipinitialspace"] = self.skipinitialspace
         if self.skiprows is not None:
             kwargs["skiprows"] = self.skiprows
+        if self.skipfooter is not None:
+            kwargs["skipfooter"] = self.skipfooter
         if self.nrows is not None:
             kwargs["nrows"] = self.nrows
         if self.na_values is not None:
@@ -210,6 +212,8 @@ class PandasCSVReader(DataLoader):
             kwargs["compression"] = self.compression
         if self.thousands is not None:
             kwargs["thousands"] = self.thousands
+        if self.decimal is not None:
+            kwargs["decimal"] = self.decimal
         if self.lineterminator is not None:
             kwargs["lineterminator"] = self.lineterminator
         if self.quotechar is not None:
-- 
2.43.0


From 3a918d0ecb11d5002c1ccd0db0ecaa6ae52e6f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:22 +0000
Subject: [PATCH 48/69] fix: PandasStataWriter hands convert_strl to to_stata
 for every version

---
 hamilton/plugins/pandas_extensions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/plugins/pandas_extensions.py b/hamilton/plugins/pandas_extensions.py
index 52c31cb..0f08943 100644
--- a/hamilton/plugins/pandas_extensions.py
+++ b/hamilton/plugins/pandas_extensions.py
@@ -1231,7 +1231,7 @@ class PandasStataWriter(DataSaver):
             kwargs["variable_labels"] = self.variable_labels
         if self.version is not None:
             kwargs["version"] = self.version
-        if self.convert_strl is not None and self.version == 117:
+        if self.convert_strl is not None:
             kwargs["convert_strl"] = self.convert_strl
         if self.compression is not None:
             kwargs["compression"] = self.compression
-- 
2.43.0


From 116155abd3feea7362aab24564bd42b7663dcf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:54 +0000
Subject: [PATCH 49/69] fix: to.<name>/from_.<name> accept an adapter option
 called kwargs

The variadic parameter was removed from the signature by its name, so an adapter
field of the same name was removed with it and could not be passed.
---
 hamilton/io/materialization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hamilton/io/materialization.py b/hamilton/io/materialization.py
index 3f8694a..f2b42ac 100644
--- a/hamilton/io/materialization.py
+++ b/hamilton/io/materialization.py
@@ -398,7 +398,9 @@ def _set_materializer_attrs():
 
         # Insert new parameters while respecting the order
         combined_parameters = original_parameters[:idx] + new_parameters + original_parameters[idx:]
-        combined_parameters = [param for param in combined_parameters if param.name != "kwargs"]
+        combined_parameters = [
+            param for param in combined_parameters if param.kind != inspect.Parameter.VAR_KEYWORD
+        ]
 
         # Creating a new signature with combined parameters
         new_signature = original_signature.replace(parameters=combined_parameters)
-- 
2.43.0


From 9280a3643ae0d378c0dc312f44a3769efb846849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:45 +0000
Subject: [PATCH 50/69] fix: PrintLn forgets the timer it started

The timer is kept under '<task_id>:<node>' but was deleted under the node's
name: every node of a task-based run ended in a KeyError.
---
 hamilton/lifecycle/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/lifecycle/default.py b/hamilton/lifecycle/default.py
index 313315b..44ec7a5 100644
--- a/hamilton/lifecycle/default.py
+++ b/hamilton/lifecycle/default.py
@@ -156,7 +156,7 @@ class PrintLn(NodeExecutionHook):
             else:
                 message += f" Error: \n{pprint.pformat(error)}"
         self.print_fn(message)
-        del self.timer_dict[node_name]
+        del self.timer_dict[node_unique_id]
 
 
 class PDBDebugger(NodeExecutionHook, NodeExecutionMethod):
-- 
2.43.0


From 0a352dc1dcaee71b5c81efd615cf5bfdf63ef8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:45 +0000
Subject: [PATCH 51/69] fix: FunctionInputOutputTypeChecker leaves a failed
 node's error alone

The result of a node that raised is None; checking it against the declared
type replaced the node's own error by a TypeError.
---
 hamilton/lifecycle/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/lifecycle/default.py b/hamilton/lifecycle/default.py
index 44ec7a5..f3fbf53 100644
--- a/hamilton/lifecycle/default.py
+++ b/hamilton/lifecycle/default.py
@@ -517,7 +517,7 @@ class FunctionInputOutputTypeChecker(NodeExecutionHook):
         **future_kwargs: Any,
     ):
         """Checks that the result type matches the expected node return type."""
-        if self.check_output:
+        if self.check_output and success:
             # Replace the isinstance check in your code with check_instance
             if not htypes.check_instance(result, node_return_type):
                 raise TypeError(
-- 
2.43.0


From e301c6d7724ee26279ba71b90f27c9804903b19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:45 +0000
Subject: [PATCH 52/69] fix: every distinct lifecycle adapter is called, equal
 or not

Hooks, methods and validators were collected by equality: of two equal adapters
(dataclasses, say) only one was called, two implementations of a method went
unnoticed, and an adapter that cannot be hashed could not validate.
---
 hamilton/lifecycle/base.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/hamilton/lifecycle/base.py b/hamilton/lifecycle/base.py
index 12ea36b..a34f7bc 100644
--- a/hamilton/lifecycle/base.py
+++ b/hamilton/lifecycle/base.py
@@ -787,47 +787,47 @@ class LifecycleAdapterSet:
     def _get_lifecycle_validators(
         self,
     ) -> Dict[str, List[LifecycleAdapter]]:
-        sync_validators = collections.defaultdict(set)
+        sync_validators = collections.defaultdict(dict)
         for adapter in self.adapters:
             for cls in inspect.getmro(adapter.__class__):
                 sync_validator = getattr(cls, SYNC_VALIDATOR, None)
                 if sync_validator is not None:
-                    sync_validators[sync_validator].add(adapter)
-        return {validator: list(adapters) for validator, adapters in sync_validators.items()}
+                    sync_validators[sync_validator][id(adapter)] = adapter
+        return {
+            validator: list(adapters.values()) for validator, adapters in sync_validators.items()
+        }
 
     def _get_lifecycle_hooks(
         self,
     ) -> Tuple[Dict[str, List[LifecycleAdapter]], Dict[str, List[LifecycleAdapter]]]:
-        sync_hooks = collections.defaultdict(list)
-        async_hooks = collections.defaultdict(list)
+        sync_hooks = collections.defaultdict(dict)
+        async_hooks = collections.defaultdict(dict)
         for adapter in self.adapters:
             for cls in inspect.getmro(adapter.__class__):
                 sync_hook = getattr(cls, SYNC_HOOK, None)
                 if sync_hook is not None:
-                    if adapter not in sync_hooks[sync_hook]:
-                        sync_hooks[sync_hook].append(adapter)
+                    sync_hooks[sync_hook][id(adapter)] = adapter
                 async_hook = getattr(cls, ASYNC_HOOK, None)
                 if async_hook is not None:
-                    if adapter not in async_hooks[async_hook]:
-                        async_hooks[async_hook].append(adapter)
+                    async_hooks[async_hook][id(adapter)] = adapter
         return (
-            {hook: adapters for hook, adapters in sync_hooks.items()},
-            {hook: adapters for hook, adapters in async_hooks.items()},
+            {hook: list(adapters.values()) for hook, adapters in sync_hooks.items()},
+            {hook: list(adapters.values()) for hook, adapters in async_hooks.items()},
         )
 
     def _get_lifecycle_methods(
         self,
     ) -> Tuple[Dict[str, List[LifecycleAdapter]], Dict[str, List[LifecycleAdapter]]]:
-        sync_methods = collections.defaultdict(set)
-        async_methods = collections.defaultdict(set)
+        sync_methods = collections.defaultdict(dict)
+        async_methods = collections.defaultdict(dict)
         for adapter in self.adapters:
             for cls in inspect.getmro(adapter.__class__):
                 sync_method = getattr(cls, SYNC_METHOD, None)
                 if sync_method is not None:
-                    sync_methods[sync_method].add(adapter)
+                    sync_methods[sync_method][id(adapter)] = adapter
                 async_method = getattr(cls, ASYNC_METHOD, None)
                 if async_method is not None:
-                    async_methods[async_method].add(adapter)
+                    async_methods[async_method][id(adapter)] = adapter
         multiple_implementations_sync = [
             method for method, adapters in sync_methods.items() if len(adapters) > 1
         ]
@@ -841,8 +841,8 @@ class LifecycleAdapterSet:
                 f"Async methods: {multiple_implementations_async}"
             )
         return (
-            {method: list(adapters) for method, adapters in sync_methods.items()},
-            {method: list(adapters) for method, adapters in async_methods.items()},
+            {method: list(adapters.values()) for method, adapters in sync_methods.items()},
+            {method: list(adapters.values()) for method, adapters in async_methods.items()},
         )
 
     def does_hook(self, hook_name: str, is_async: Optional[bool] = None) -> bool:
-- 
2.43.0


From b9dad6145f6e6af024de4fd0828c2a8f03c1d964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:32 +0000
Subject: [PATCH 53/69] fix: dataflows and contributed modules work with
 telemetry disabled

---
 hamilton/dataflows/__init__.py | 14 ++++++++------
 hamilton/telemetry.py          |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/hamilton/dataflows/__init__.py b/hamilton/dataflows/__init__.py
index 4ee8568..3c6e200 100644
--- a/hamilton/dataflows/__init__.py
+++ b/hamilton/dataflows/__init__.py
@@ -52,8 +52,9 @@ def _track_function_call(call_fn: Callable) -> Callable:
 
     @functools.wraps(call_fn)
     def track_call(*args, **kwargs):
-        event_json = telemetry.create_dataflow_function_invocation_event_json(call_fn.__name__)
-        telemetry.send_event_json(event_json)
+        if telemetry.is_telemetry_enabled():
+            event_json = telemetry.create_dataflow_function_invocation_event_json(call_fn.__name__)
+            telemetry.send_event_json(event_json)
         return call_fn(*args, **kwargs)
 
     return track_call
@@ -71,10 +72,11 @@ def _track_download(is_official: bool, user: Optional[str], dataflow_name: str,
         category = "DAGWORKS"
     else:
         category = "USER"
-    event_json = telemetry.create_dataflow_download_event_json(
-        category, user, dataflow_name, version
-    )
-    telemetry.send_event_json(event_json)
+    if telemetry.is_telemetry_enabled():
+        event_json = telemetry.create_dataflow_download_event_json(
+            category, user, dataflow_name, version
+        )
+        telemetry.send_event_json(event_json)
 
 
 def _get_request(url: str) -> Tuple[int, str]:
diff --git a/hamilton/telemetry.py b/hamilton/telemetry.py
index a147909..54f5adc 100644
--- a/hamilton/telemetry.py
+++ b/hamilton/telemetry.py
@@ -328,7 +328,7 @@ def create_and_send_contrib_use(module_name: str, version: str):
     :param module_name: the name of the module, or file location of the code.
     :param version: the package version.
     """
-    if module_name == "__main__" or module_name == "__init__":
+    if module_name == "__main__" or module_name == "__init__" or not is_telemetry_enabled():
         return
     try:
         # we need to handle the case that sf-hamilton-contrib is not installed.
-- 
2.43.0


From 7d0143d1cbc27f88a7010265ba16a32e9f76dffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 54/69] fix: MLFlowTracker records a failed run as FAILED

mlflow.end_run() sets the status of the active run, FINISHED by default, which
overwrote the FAILED set just before.
---
 hamilton/plugins/h_mlflow.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hamilton/plugins/h_mlflow.py b/hamilton/plugins/h_mlflow.py
index 2d77815..90d9520 100644
--- a/hamilton/plugins/h_mlflow.py
+++ b/hamilton/plugins/h_mlflow.py
@@ -308,11 +308,10 @@ class MLFlowTracker(
     def run_after_graph_execution(self, success: bool, *args, **kwargs):
         """End the MLFlow run"""
         # `status` is an enum value of mlflow.entities.RunStatus
-        if success:
-            self.client.set_terminated(self.run_id, status="FINISHED")
-        else:
-            self.client.set_terminated(self.run_id, status="FAILED")
-        mlflow.end_run()
+        status = "FINISHED" if success else "FAILED"
+        self.client.set_terminated(self.run_id, status=status)
+        # `end_run()` sets the status of the active run again, and defaults to "FINISHED"
+        mlflow.end_run(status=status)
 
     def run_before_node_execution(self, *args, **kwargs):
         """Placeholder required to subclass NodeExecutionHook"""
-- 
2.43.0


From b8cb173648d21d8549598ab3c6e5f5e3381f6eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 55/69] fix: MLFlowTracker and ExperimentTracker work for
 executions without inputs

inputs is None when execute() is called without any.
---
 hamilton/plugins/h_experiments/hook.py | 2 +-
 hamilton/plugins/h_mlflow.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hamilton/plugins/h_experiments/hook.py b/hamilton/plugins/h_experiments/hook.py
index 006071b..f1a172f 100644
--- a/hamilton/plugins/h_experiments/hook.py
+++ b/hamilton/plugins/h_experiments/hook.py
@@ -143,7 +143,7 @@ class ExperimentTracker(
                 self.inputs.append(
                     NodeInput(
                         name=node.name,
-                        value=inputs.get(node.name),
+                        value=inputs.get(node.name) if inputs else None,
                         default_value=_get_default_input(node),
                     )
                 )
diff --git a/hamilton/plugins/h_mlflow.py b/hamilton/plugins/h_mlflow.py
index 90d9520..dbf3b94 100644
--- a/hamilton/plugins/h_mlflow.py
+++ b/hamilton/plugins/h_mlflow.py
@@ -164,7 +164,7 @@ class MLFlowTracker(
 
         # log config and inputs as `param` which creates columns in the UI to filter runs
         # `log_param()` accepts `value: Any` and will stringify complex objects
-        for value_sets in [self.config, inputs]:
+        for value_sets in [self.config, inputs or {}]:
             for node_name, value in value_sets.items():
                 self.client.log_param(self.run_id, key=node_name, value=value)
 
-- 
2.43.0


From 3f2fbbaaa8dc6329adc2084b838297e09e62d35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 56/69] fix: MLFlowTracker does not log results of nodes that
 failed

The result of a failed node is None: converting or logging it raised an error that
hid the one of the node.
---
 hamilton/plugins/h_mlflow.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hamilton/plugins/h_mlflow.py b/hamilton/plugins/h_mlflow.py
index dbf3b94..42de23d 100644
--- a/hamilton/plugins/h_mlflow.py
+++ b/hamilton/plugins/h_mlflow.py
@@ -179,9 +179,14 @@ class MLFlowTracker(
         node_tags: dict,
         node_kwargs: dict,
         result: Any,
+        success: bool = True,
         **kwargs,
     ):
         """Log materializers and final vars as artifacts"""
+        # a node that failed has no result to log
+        if not success:
+            return
+
         # log DataSavers as artifacts
         # TODO refactor if/else as `handle_materializers()`
         if node_tags.get("hamilton.data_saver") is True:
-- 
2.43.0


From 88cd5bfd375e186065125a34f99bab7d3cb2bc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:05 +0000
Subject: [PATCH 57/69] fix: ExperimentTracker returns to the initial directory
 when a saver fails

The result of a failed saver is None, so looking for its path raised an error that hid
the one of the saver and left the process in the run directory; so did a saver whose
metadata has no path.
---
 hamilton/plugins/h_experiments/hook.py | 48 ++++++++++++++++----------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/hamilton/plugins/h_experiments/hook.py b/hamilton/plugins/h_experiments/hook.py
index f1a172f..9261793 100644
--- a/hamilton/plugins/h_experiments/hook.py
+++ b/hamilton/plugins/h_experiments/hook.py
@@ -157,30 +157,42 @@ class ExperimentTracker(
             os.chdir(self.run_directory)  # before materialization
 
     def run_after_node_execution(
-        self, *, node_name: str, node_tags: dict, node_kwargs: dict, result: Any, **kwargs
+        self,
+        *,
+        node_name: str,
+        node_tags: dict,
+        node_kwargs: dict,
+        result: Any,
+        success: bool = True,
+        **kwargs,
     ):
         """Move back to init directory after executing materializer.
         Then, save materialization metadata
         """
         if node_tags.get("hamilton.data_saver") is True:
-            if "path" in result:
-                path = result["path"]
-            elif "file_metadata" in result:
-                path = result["file_metadata"]["path"]
-            else:
-                logger.warning(
-                    f"Materialization result from node={node_name} has no recordable path: {result}. Materializer must have either "
-                    f"'path' or 'file_metadata' keys."
-                )
-            self.materializers.append(
-                NodeMaterializer(
-                    source_nodes=list(node_kwargs.keys()),
-                    path=str(Path(path).resolve()),
-                    sink=node_tags["hamilton.data_saver.sink"],
-                    data_saver=node_tags["hamilton.data_saver.classname"],
+            try:
+                if not success:
+                    return
+                if "path" in result:
+                    path = result["path"]
+                elif "file_metadata" in result:
+                    path = result["file_metadata"]["path"]
+                else:
+                    logger.warning(
+                        f"Materialization result from node={node_name} has no recordable path: {result}. Materializer must have either "
+                        f"'path' or 'file_metadata' keys."
+                    )
+                    return
+                self.materializers.append(
+                    NodeMaterializer(
+                        source_nodes=list(node_kwargs.keys()),
+                        path=str(Path(path).resolve()),
+                        sink=node_tags["hamilton.data_saver.sink"],
+                        data_saver=node_tags["hamilton.data_saver.classname"],
+                    )
                 )
-            )
-            os.chdir(self.init_directory)  # after materialization
+            finally:
+                os.chdir(self.init_directory)  # after materialization
 
     def run_after_graph_execution(self, *, success: bool, **kwargs):
         """Encode run metadata as JSON and store in cache"""
-- 
2.43.0


From 01fa0819cccefa840ead08c97286808cd72e079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:06 +0000
Subject: [PATCH 58/69] fix: MLFlowTracker logs final variables in the format
 meant for their type

The tests for str and dict never held for a type, and results pickled to a file were
logged as the JSON of their string representation under the name of the pickle.
---
 hamilton/plugins/h_mlflow.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hamilton/plugins/h_mlflow.py b/hamilton/plugins/h_mlflow.py
index 42de23d..6e32e8b 100644
--- a/hamilton/plugins/h_mlflow.py
+++ b/hamilton/plugins/h_mlflow.py
@@ -279,14 +279,12 @@ class MLFlowTracker(
             self.client.log_metric(self.run_id, key=node_name, value=float(result))
 
         # log str as text in .txt format
-        elif isinstance(node_return_type, str):
+        elif node_return_type is str:
             file_path = f"{node_name}.txt"
-            with open(file_path, "w") as f:
-                f.write(result)
             self.client.log_text(self.run_id, result, file_path)
 
         # log_dict (JSON) dictionary types; pickle if not json-serializable
-        elif isinstance(node_return_type, dict):
+        elif node_return_type is dict:
             try:
                 file_path = f"{node_name}.json"
                 self.client.log_dict(self.run_id, result, file_path)
@@ -295,7 +293,7 @@ class MLFlowTracker(
                 file_path = f"{node_name}.pickle"
                 with open(file_path, "wb") as f:
                     pickle.dump(result, file=f)
-                self.client.log_dict(self.run_id, result, file_path)
+                self.client.log_artifact(self.run_id, file_path)
 
         # this puts less burden on users by not having to define materializers
         # for viz, but less control over rendering format
@@ -308,7 +306,7 @@ class MLFlowTracker(
             file_path = f"{node_name}.pickle"
             with open(file_path, "wb") as f:
                 pickle.dump(result, f)
-            self.client.log_dict(self.run_id, result, file_path)
+            self.client.log_artifact(self.run_id, file_path)
 
     def run_after_graph_execution(self, success: bool, *args, **kwargs):
         """End the MLFlow run"""
-- 
2.43.0


From e1790a59ed8fca356a224d27713eabf0d10f9d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:06 +0000
Subject: [PATCH 59/69] fix: MLFlowTracker starts its run where it created it

With a tracking_uri other than the global one mlflow.start_run() did not find the run.
---
 hamilton/plugins/h_mlflow.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hamilton/plugins/h_mlflow.py b/hamilton/plugins/h_mlflow.py
index 6e32e8b..7536abd 100644
--- a/hamilton/plugins/h_mlflow.py
+++ b/hamilton/plugins/h_mlflow.py
@@ -84,6 +84,11 @@ class MLFlowTracker(
         :param log_system_metrics: Log system metrics to display (requires additonal dependencies)
         """
         self.client = mlflow.client.MlflowClient(tracking_uri, registry_uri)
+        # `mlflow.start_run()` must find the runs created through the client
+        if tracking_uri:
+            mlflow.set_tracking_uri(tracking_uri)
+        if registry_uri:
+            mlflow.set_registry_uri(registry_uri)
 
         # experiment setup
         experiment_tags = experiment_tags if experiment_tags else {}
-- 
2.43.0


From d9d41170fd1f56e893a4e5816f8209f6e347231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:06 +0000
Subject: [PATCH 60/69] fix: MLFlowTracker logs to the existing run given by
 run_id

The run_id argument was stored and never used.
---
 hamilton/plugins/h_mlflow.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hamilton/plugins/h_mlflow.py b/hamilton/plugins/h_mlflow.py
index 7536abd..79bb430 100644
--- a/hamilton/plugins/h_mlflow.py
+++ b/hamilton/plugins/h_mlflow.py
@@ -144,17 +144,21 @@ class MLFlowTracker(
         run_tags["code_version"] = graph.version
 
         # create Hamilton run
-        self.run = self.client.create_run(
-            experiment_id=self.experiment_id,
-            tags=run_tags,
-            run_name=self.run_name,
-        )
+        if self.mlflow_run_id:
+            # log to an existing run
+            self.run = self.client.get_run(self.mlflow_run_id)
+        else:
+            self.run = self.client.create_run(
+                experiment_id=self.experiment_id,
+                tags=run_tags,
+                run_name=self.run_name,
+            )
         self.run_id = self.run.info.run_id
         # start run to set `active_run` and allow user-defined callbacks and materializers
         # to log to the same run as the HamiltonTracker
         mlflow.start_run(
             run_id=self.run_id,
-            experiment_id=self.experiment_id,
+            experiment_id=self.run.info.experiment_id,
             tags=run_tags,
             log_system_metrics=self.log_system_metrics,
         )
-- 
2.43.0


From 3369f387dfa0cdd26b0fa59ab2f5b40415c1faba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:06 +0000
Subject: [PATCH 61/69] fix: JsonCache.delete opens its database for writing

---
 hamilton/plugins/h_experiments/cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/plugins/h_experiments/cache.py b/hamilton/plugins/h_experiments/cache.py
index f1ecf4d..aff8330 100644
--- a/hamilton/plugins/h_experiments/cache.py
+++ b/hamilton/plugins/h_experiments/cache.py
@@ -18,5 +18,5 @@ class JsonCache:
             return db[id_].decode()
 
     def delete(self, id_: str) -> None:
-        with dbm.open(self.cache_path, "r") as db:
+        with dbm.open(self.cache_path, "w") as db:
             del db[id_]
-- 
2.43.0


From bda765996476e4e74d236f893174e24234069461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:21 +0000
Subject: [PATCH 62/69] fix: OpenLineageAdapter reports the format of loaded
 files

It looked for an extension in the name of the node instead of the path.
---
 hamilton/plugins/h_openlineage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hamilton/plugins/h_openlineage.py b/hamilton/plugins/h_openlineage.py
index ea06699..bdfeb58 100644
--- a/hamilton/plugins/h_openlineage.py
+++ b/hamilton/plugins/h_openlineage.py
@@ -63,7 +63,7 @@ def create_input_dataset(namespace: str, metadata: dict, node_) -> list[event_v2
         if ".loader" in name:
             name = name.split(".loader")[0]
         path = metadata["file_metadata"]["path"]
-        format = path.split(".")[-1] if "." in name else "unknown"
+        format = path.split(".")[-1] if "." in path else "unknown"
         storage_facet = facet_v2.storage_dataset.StorageDatasetFacet(
             storageLayer="FileSystem",
             fileFormat=format,
-- 
2.43.0


From 596c1cf96bf918ca027103825227094764999f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:26 +0000
Subject: [PATCH 63/69] fix: stopping the UI client sends the updates its
 worker holds

The worker leaves its loop as soon as `running` is false; the updates it had
taken off the queue and not yet sent were dropped.
---
 ui/sdk/src/hamilton_sdk/api/clients.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ui/sdk/src/hamilton_sdk/api/clients.py b/ui/sdk/src/hamilton_sdk/api/clients.py
index 5512164..cb23e29 100644
--- a/ui/sdk/src/hamilton_sdk/api/clients.py
+++ b/ui/sdk/src/hamilton_sdk/api/clients.py
@@ -252,6 +252,10 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
                     batch = []
                     last_flush_time = time.time()
 
+        # we have been stopped -- send what we have already taken off the queue
+        if batch:
+            self.flush(batch)
+
     def flush(self, batch):
         """Flush the batch (send it to the backend or process it)."""
         logger.debug(f"Flushing batch: {len(batch)}")  # Replace with actual processing logic
-- 
2.43.0


From cec4c6605aefcf274abc19fbfc5096982c7be805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:26 +0000
Subject: [PATCH 64/69] fix: stopping the UI client skips the end-of-process
 marker

When the worker was told to stop before it reached the `None` marker, stop()
subscripted the marker and the updates behind it were lost.
---
 ui/sdk/src/hamilton_sdk/api/clients.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ui/sdk/src/hamilton_sdk/api/clients.py b/ui/sdk/src/hamilton_sdk/api/clients.py
index cb23e29..8c3e8e0 100644
--- a/ui/sdk/src/hamilton_sdk/api/clients.py
+++ b/ui/sdk/src/hamilton_sdk/api/clients.py
@@ -292,7 +292,8 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
         while not self.data_queue.empty():
             try:
                 item = self.data_queue.get_nowait()
-                self.flush([item])
+                if item is not None:  # the sentinel that tells the worker to end
+                    self.flush([item])
             except queue.Empty:
                 break
 
-- 
2.43.0


From 48d99b42fe8c6b0702d8669d4268305a5d8af43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:26 +0000
Subject: [PATCH 65/69] fix: a failed request does not end the UI client's
 worker

An HTTP or connection error in flush() escaped the worker thread, so every
later update stayed in the queue unsent.
---
 ui/sdk/src/hamilton_sdk/api/clients.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/api/clients.py b/ui/sdk/src/hamilton_sdk/api/clients.py
index 8c3e8e0..e1d0c4a 100644
--- a/ui/sdk/src/hamilton_sdk/api/clients.py
+++ b/ui/sdk/src/hamilton_sdk/api/clients.py
@@ -263,21 +263,21 @@ class BasicSynchronousHamiltonClient(HamiltonClient):
         dag_run_ids = set([item["dag_run_id"] for item in batch])
         for dag_run_id in dag_run_ids:
             attributes_list, task_updates_list = create_batch(batch, dag_run_id)
-            response = requests.put(
-                f"{self.base_url}/dag_runs_bulk?dag_run_id={dag_run_id}",
-                json={
-                    "attributes": make_json_safe(attributes_list),
-                    "task_updates": make_json_safe(task_updates_list),
-                },
-                headers=self._common_headers(),
-                verify=self.verify,
-            )
             try:
+                response = requests.put(
+                    f"{self.base_url}/dag_runs_bulk?dag_run_id={dag_run_id}",
+                    json={
+                        "attributes": make_json_safe(attributes_list),
+                        "task_updates": make_json_safe(task_updates_list),
+                    },
+                    headers=self._common_headers(),
+                    verify=self.verify,
+                )
                 response.raise_for_status()
                 logger.debug(f"Updated tasks for DAG run {dag_run_id}")
-            except HTTPError:
+            except requests.RequestException:
+                # raising would end the worker, and no later update would be sent
                 logger.exception(f"Failed to update tasks for DAG run {dag_run_id}")
-                raise
 
     def stop(self):
         """Stop the logger and process remaining events."""
-- 
2.43.0


From 99526fa9b88c3339ebb0c7a686a750bfb6cb1759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:26 +0000
Subject: [PATCH 66/69] fix: the async UI client's worker does not send its end
 marker

The `None` marker was added to the batch before it was recognised, so the last
flush raised TypeError and the batch was lost.
---
 ui/sdk/src/hamilton_sdk/api/clients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ui/sdk/src/hamilton_sdk/api/clients.py b/ui/sdk/src/hamilton_sdk/api/clients.py
index e1d0c4a..a962670 100644
--- a/ui/sdk/src/hamilton_sdk/api/clients.py
+++ b/ui/sdk/src/hamilton_sdk/api/clients.py
@@ -603,7 +603,6 @@ class BasicAsynchronousHamiltonClient(HamiltonClient):
             )
             try:
                 item = await asyncio.wait_for(self.data_queue.get(), timeout=self.flush_interval)
-                batch.append(item)
             except asyncio.TimeoutError:
                 # This is fine, we just keep waiting
                 pass
@@ -611,6 +610,7 @@ class BasicAsynchronousHamiltonClient(HamiltonClient):
                 if item is None:
                     await self.flush(batch)
                     return
+                batch.append(item)
 
             # Check if batch is full or flush interval has passed
             if (
-- 
2.43.0


From 118353a0a01b9f59db39cf60f2ee54660473f241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:26 +0000
Subject: [PATCH 67/69] fix: a failed request does not end the async UI
 client's worker

flush() caught requests' HTTPError, which aiohttp never raises, so the error
ended the worker task and every later update stayed in the queue unsent.
---
 ui/sdk/src/hamilton_sdk/api/clients.py | 28 +++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/api/clients.py b/ui/sdk/src/hamilton_sdk/api/clients.py
index a962670..71c4b9c 100644
--- a/ui/sdk/src/hamilton_sdk/api/clients.py
+++ b/ui/sdk/src/hamilton_sdk/api/clients.py
@@ -575,22 +575,22 @@ class BasicAsynchronousHamiltonClient(HamiltonClient):
         dag_run_ids = set([item["dag_run_id"] for item in batch])
         for dag_run_id in dag_run_ids:
             attributes_list, task_updates_list = create_batch(batch, dag_run_id)
-            async with aiohttp.ClientSession() as session:
-                async with session.put(
-                    f"{self.base_url}/dag_runs_bulk?dag_run_id={dag_run_id}",
-                    json={
-                        "attributes": make_json_safe(attributes_list),
-                        "task_updates": make_json_safe(task_updates_list),
-                    },
-                    headers=self._common_headers(),
-                    ssl=self.ssl,
-                ) as response:
-                    try:
+            try:
+                async with aiohttp.ClientSession() as session:
+                    async with session.put(
+                        f"{self.base_url}/dag_runs_bulk?dag_run_id={dag_run_id}",
+                        json={
+                            "attributes": make_json_safe(attributes_list),
+                            "task_updates": make_json_safe(task_updates_list),
+                        },
+                        headers=self._common_headers(),
+                        ssl=self.ssl,
+                    ) as response:
                         response.raise_for_status()
                         logger.debug(f"Updated tasks for DAG run {dag_run_id}")
-                    except HTTPError:
-                        logger.exception(f"Failed to update tasks for DAG run {dag_run_id}")
-                        # zraise
+            except (aiohttp.ClientError, asyncio.TimeoutError):
+                # raising would end the worker, and no later update would be sent
+                logger.exception(f"Failed to update tasks for DAG run {dag_run_id}")
 
     async def worker(self):
         """Worker thread to process the queue"""
-- 
2.43.0


From 2a37eaa51c03c19d68fa83fc52b097df95c6d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:26 +0000
Subject: [PATCH 68/69] fix: the UI tracker keeps the runs of a node in
 parallel tasks apart

The task runs were kept under the node's name alone, so concurrent tasks of a
parallel block overwrote each other's start time, status and sampling.
---
 ui/sdk/src/hamilton_sdk/adapters.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ui/sdk/src/hamilton_sdk/adapters.py b/ui/sdk/src/hamilton_sdk/adapters.py
index 23cbb3a..40d462b 100644
--- a/ui/sdk/src/hamilton_sdk/adapters.py
+++ b/ui/sdk/src/hamilton_sdk/adapters.py
@@ -183,8 +183,8 @@ class HamiltonTracker(
         task_run = TaskRun(node_name=node_.name, is_in_sample=in_sample)
         task_run.status = Status.RUNNING
         task_run.start_time = datetime.datetime.now(timezone.utc)
-        tracking_state.update_task(node_.name, task_run)
-        self.task_runs[run_id][node_.name] = task_run
+        tracking_state.update_task(get_node_name(node_, task_id), task_run)
+        self.task_runs[run_id][get_node_name(node_, task_id)] = task_run
 
         task_update = dict(
             node_template_name=node_.name,
@@ -258,7 +258,7 @@ class HamiltonTracker(
     ):
         """Captures end of node execution."""
         logger.debug("post_node_execute %s %s", run_id, task_id)
-        task_run: TaskRun = self.task_runs[run_id][node_.name]
+        task_run: TaskRun = self.task_runs[run_id][get_node_name(node_, task_id)]
         tracking_state = self.tracking_states[run_id]
         task_run.end_time = datetime.datetime.now(timezone.utc)
 
@@ -322,7 +322,7 @@ class HamiltonTracker(
                 attribute_role="result_summary",
             )
             attributes.append(other_attr)
-        tracking_state.update_task(node_.name, task_run)
+        tracking_state.update_task(get_node_name(node_, task_id), task_run)
         task_update = dict(
             node_template_name=node_.name,
             node_name=get_node_name(node_, task_id),
@@ -510,8 +510,8 @@ class AsyncHamiltonTracker(
         task_run = TaskRun(node_name=node_.name)
         task_run.status = Status.RUNNING
         task_run.start_time = datetime.datetime.now(timezone.utc)
-        tracking_state.update_task(node_.name, task_run)
-        self.task_runs[run_id][node_.name] = task_run
+        tracking_state.update_task(get_node_name(node_, task_id), task_run)
+        self.task_runs[run_id][get_node_name(node_, task_id)] = task_run
 
         task_update = dict(
             node_template_name=node_.name,
@@ -539,7 +539,7 @@ class AsyncHamiltonTracker(
         **future_kwargs,
     ):
         logger.debug("post_node_execute %s", run_id)
-        task_run = self.task_runs[run_id][node_.name]
+        task_run = self.task_runs[run_id][get_node_name(node_, task_id)]
         tracking_state = self.tracking_states[run_id]
         task_run.end_time = datetime.datetime.now(timezone.utc)
         other_results = []
-- 
2.43.0


From f12103d6850a1950ad25216bdd7dc8b12a2bed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:49 +0000
Subject: [PATCH 69/69] fix: a function imported from a module with a similar
 name is no node

is_submodule compared names as substrings, so that functions a module imports from e.g. flow_helpers became nodes of a module called flow.
---
 dag_example_module.png  | Bin 27367 -> 27890 bytes
 hamilton/graph_utils.py |   2 +-
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/dag_example_module.png b/dag_example_module.png
index 5351fb719b68ca8d7ce09d441a72e4593589718a..7c573aa9dcd3e8ee4a21c9d3eeb3970d015afc38 100644
GIT binary patch
literal 27890
zcmc$`1yogQ+b#?ihzcku4I<JdAsq@R($Wpm-Q6lBDj?k;BHi5}-Q6wS-F@!0-}gKJ
zIsf?n@0>Hn8RH*&?Co}~HRqc1nRi_GbzRT$doL;c01Y1v2?^<e$U7k!BqZcY_%{Oe
z4!lBxawQ9Y+|d>j7DBp4{PVLqH3SLiDUyiLYdOc*jVT8??2(B-yW5|!@4d^HmAiHO
zbyA<uppdkVe_H;}z7K&E_N4e-JxY&UMxNu-jy`(5G4<hflC~7~<9lB}R_naR96QF)
zV9U8z#_FJ)(8C!^#^SKW!$Nkx5m#=LE08Wn^H2bl^!^AwnY!>(FHC`jmm>Cv7vi6D
zlX_v^kqVB(6hQT)Y?DMK^{NZerS!tA|0_~}C4j26^L*?ssn-j~;0-tom*;<d*yG-z
z0B+lrpPB0ScxRWFg*V5G?TCCZ=Xie>hO57OhiYYIRWV-OoB!hnrnZjGzurnL3@7^2
zn<%)uyW6LSDj<xF=A9#mDNrT65cU6kVbdMD4wq+kRaI3x$HyafRNIpQMBF=jd(Y_T
z#77cQNgKJ72Bsq`f`9yYrKE&=8?DO2*JFK{zP`S`%;h*INARJ*7l);4Q^f5#*1r4K
z%}&>zJC0fI&b_&D^CqXw(*3r!Hn}XNpm<)Fy*d;U!_Wul==xI?c0BGExDE~ucOKw3
zmfI{x@;EWiH~S~KU!E!FoUimH-6!FTMZS5bH&07&sXMMCU#H~-JA0~LN4V|wH1AYI
zk)VKpQl&k8ATh5@(=#v3ZSv#*r1qabpT=#R_a}>qz8XuDPAUzL<M*g3c=hRq=&Q|^
z(NU#x+f|w3f~iV}5h?={lgx`*Uy{&|)?Lvr$1+^bk2XbLacVcB>YeT_zHC3<p3x-R
z`mT+~X{}q4Uu9BJbtUlSSTb+2xwA1*(065~mfsugvG&Q%Y?gXuIK67g3-d`1Iy$<O
zr5KAZ0ReYpRBb<f`h-m*_l3mcBB(2d9SallRk`(IB%7H^z?vkBPV@b*Pw3l!z4<m;
zVn#6E5}5j-?sI1hdthWFu6+534&F;+>=<?n{nh?t4lXWcx3hyP9z6ln#01+g{WcW(
z%A?H*TI9t#Pn4I#o1^)Hcd01FBY(=#gtb#hL{lLzrbxsLwv$s((5S1czf_S`PUp_n
zQ!KaE(-RQ*tTNV@By1Af0iU5kUTpR!7;3L^+!avH*M4IJPjZ^QZm*L8OE`cq5mxRy
zF)uz+vW%Zh`mMi<9T7-EZ{OaqT<XL#H8a~iI#S4N7#s}kj^oZ;Yn7Zb8ZS2SEiW%0
zFTj6kjAVIz<u+6>kSe8PVj`BQkUiKQ9TnA=EQZtk9WNwo08;2Q{&}T1kK0-3!h){-
z_H>+9)N)V4&GhZ9vGMT~)#mYWE@8XW{QUerDjj2Ev_F}OxpE!M-^i=EAhmi$3Oc+z
zJ#YH?`I(Lv-PO^Vx9z}Y)FAxGtk;eRK4KonpF!^><9VWzDhg@n!_SYmO`cc7IvZq4
zl6tlF{Pq;37%wsF*kA6sd-v|FCkEf2jt;Ry*=lFI?pRJi8JR~&{sin4oSad)wO7%U
zQt@ePqj_34X%(_srKgmKev4oQhlH#SW#T}-Wh|NuXK5|AhmB>(qLS_v9#`l&%r)MH
ztm;=E$y8*#xV%)Zb?2?UzTy@Or>kpf@`lH5y}u*@$?J5u_IRSy0_AVzc8$(hfnJts
zX@GjA{p{LWd$r3kL{f_L;aV)0ooM#$h_HX|1TIV4z(6=zGz@Z(fr*JJL&*zs&TUVF
zvQjvZSdZiBo<V}!+n{G}Mr%Fz$=-hd0B4Qmc91NdZf?G#sj10#u_K7IvAH=`Y=Q&d
zM9$0{49lXUtzDm|)sR<GvNV`3tE8lqR?;InrK|_vWN1hQpIh7*D~#o^x`Bm-<%3T2
z)z=rL+WD|up;`bnNRv9$NF8bBFyJxT=g*&ac6XhY&n4fz``a2s78OpdS;GTqD}Nau
z8Y-l#`@AQfw_$pkn46pX`}h9Zd#+a(PIL3~P|@m|n|&0rRq~zo^?xNL4Xq89Y@uKf
zTb>;l#m2?umzF9{u$jeu`*zRX-X7mh`0d-hlU*IeJH^F|!`Z43mvdWN@tX#p%U?%~
zXrk^;EAMMiR8~F0#eLV{^T5j1_SRE!a&JxdQ*Tm1pZDo9<o=3xrwx1@FTF9HO}bp%
z2v|zJy}Wu04W!z`>BV;En*6?gorC;By13Zy;R=ANKCKzNVJ!{U&*`v5sF<rE|KL!*
zKv#r9Dqh?doye9T7OHK_^RdNWC1w+QO*opC^UV+73Fj9TH4Y8EY%p+vZZZ8p#J*fS
z@%;w_g9vkjhtN1GNF~t!Z}*S?tnE}C+w)bHb`jR-cSRpNpF^t7FE2+J;XyJm{??=H
zC-;*?)q005nk<tZLPU#w>-O#0`S}paLlQpM$S4+rnqqG<Te95TTDVDl|GJV5xHCwc
zK092vtAmeq6o@AH%>Tdch4@^yD?7sx-QJkb_?bp^6;maNK6`p1`j-GI?}xm$?&)a_
z6-qcE(oIQ3ZxzD-&wC{U7Q6Z6hmFzvjfqkzM4$3%{d8=<r(iZ&X60!$-;DfsaWQ$~
z12ZNTRs(bcqtQIl!?mG~FfKin=cHbVOrzmbvkksB7i+JhnDua3^uJG2aJ`eThX$l`
zeRWxZ{swL-9PZIthp!Uq$qW09(aF2-;A^^ZO$$06AijLI-rLd1DP6@Of>Bc+QlHgi
z_`Z~s6qMzbfA=coLjAI`vb3RH=hHy`tH|Eo_gAOOBww+q1@@P^AS<d=PD3cA3XBFQ
zTwPt$)XJ?Z*17D~yfQOsp;l48c!Bwm*X8I(Y-|<{t%wRLsYcS^!&i9N*r5i8D7SA@
z+c-P61Q5yIXlK%CP761isZqa6l`0vRVLDY&{OJ89E&&1U&6_ue*51+bTg?gSK?)4D
z$3#X_EqBLdD!BLkdL#O(T)zw7-?4u<TeDUJ&`lWs^+lnITkiErWmV0U0P1e^2ct2)
zfzBuvzres$u?U9Iu`#Q?1rY&3!ByyfX5&SPhJC+`7Y(|io1n@=qq>(Y7O}L@76O&R
z7cxf{N|Y%tPL^UWF|YH%)2B~ALbG2`L3s>Vh&6blU={j_kdRQ?ln)$0iHwZAF;h!o
zVPR3c2RSz1=!aESUY;J_70Zd`;o+g*85y*xYoMzu^y(GT0|GYP!8GYHK4LhP?wtt&
zmR!5_VTpMs)o)MeKMoqWS*-OZe^dE&6PH;Rm0UFR@83F4C!92hG7<Z+#lL@l=4ZVN
zdiKgVb6diK;w=&x85!h!N0M-$HUA&NAEyA*e40Om#MN{eI2^9Y`|F7&2b+xKXzA%C
zt0<(sCq;_qbIXwCqoAPJzJV=(dQ(5IO>$<bP_@|jF*GnmRW_4hx~<7_K|ne39fU+g
z$fFf@nJQ!JBe{i!eb4-zySloN9e4h|Hut3i;3&wIRz>E04=3fVKYo$fL^uSj&DtO}
zG(>-a#6L4Ln({gDPAG$VG{8ORDQWVVPf9Ij5Eu%ZK}{)1gOZZ+`}glk1-f?`HESA&
zhoAg7hC7(E3*MLx0;p18GQt3LHCaVpTl-fZRv`jsM6vin)5d!8<SoEDB#CI&x`~OH
zPd8CAhD>yH1WV1QP*G9;j%a$w(?=kH>~)ZCgx^7Pv#q^7JO?I6XJ_M3Db?fM77~*z
zTBW?Fl@8nb5LmICHa_*<_XeQ5*>dODuJnEa9FS)=!3NmxEhM1PWEm60s5YFUtfC?#
zOcO3yy~1`D8V--k(fwqZsC`cySkGVY*H%KL6W?QEV|xV#1~S-RcSEjwE_KDQz{>jE
z$NRNzSrmMf#lmR7@2HsrC5bVMX%wC2pNdiLPtDru3e`hUCy%~zGO~w(UH9m_6kyp(
zt^as|gPU8d=N+k6FO#Pk0=r@w{nrS+_vt=-?7lx#Ik%V|1i;^dLNHK@h!la9fd7r+
zhqsZ1@`I~O%GA`<XMKGz-Lty7+VuKP6r4=UGL-8EmFMTrds$b4zUb7Oo10;;eE93?
z>Y|4GYTVADSXYIPKuaUlz{+|L2#=>L1@Ar8zbkaox2bzXA?u7@j=saKEdSRhk^iid
z{BH~}|2_<Dh3jKgaAaibSfK%cd~~UJo<2K{Q=h0Pyy4;DvdT&w9i60gOK2R5xN-$9
zCp)Aa5sU^?6^Ddewm$$As{4lKa#oi0R>;#jAFO<;tgOswfRV$L<%{m|#i>n-WL*28
z(ZG9LyxFldYC(#g=JEoR5^^!=Jj;jbzL6GH;-b&4W^evtd~1EyN~++Sr328@(WO)y
z@GFGCI+qYMjsn+&jp1C)p1*a1jypS~ac3CGZzwfI%sD@38-F!xlNk-Cd*d%vy|Tq0
zjD>Raki+f97BTV31ETgwCLI__M(ol6l^45Cynd4|x7UEd-<zY(t;V0z^*Qd`Xk=Yg
z#1_%+-xq4!T*{hx-7}kXVm9rH&uZ8j$L(NC6pblhNUupz>E(56++pR<!72+bvk`?S
zW#^yvlCqozX2a&@+lFJwC<6)>&ySYq`OZ#sy5o5>*YhCmXipi&l7Ii+3Cm?ntUP|f
z_g4zPc=hM{k7?Q?$!>9saWB2yVAmsM9ca{cM8VLu<!i+3livDk52Q$Zk1RwwjxM$(
z>UL?XZ;xiW7cQHZ_L#o9+Ue{dJxB17z!&kwOkJo0T!3ym|0JZ!6e|#^`|fMdDwUxo
zEzy&+ZE<NHum0=V$(~Y-@p@dv0<PLqRwXI7OQ#ea=X~KfC$4aPN(pn-fE@>*#6;JS
zjTG^y`b%Go9iqKz7#?%em1{|h@m=56UR^GdyOVlNx8t;JL1z|^;fo8HL2piRysPd@
zHr;E|h|8c}(YQ90X-D)GQ{XqP=JQHu9!W2lf5Ed-_kGqconq=_%x>JiUCY>OM+M)O
z;~KO9urSadDP^y|jCkL8D7?WJ!|MFV3_k9KiGRR1R_(a^8D86+O?_ZX^tDx}m@7eB
zSC@`R-V4)NWIJT)bbs0DbdUV;r0$@bo4&pVCQ2$Al(@J50FFD=Qugc?)3<&)t}=54
z2vzx;rT1s7lY3#F3BjR-20chGXqBjh51*4$JbGbvqna;MkoLHs$hLU7Y2Tpyp>}*F
zwpDa^&e6s0y12S;Fm>T)Z(UaCj2ivtx~XzBp9cGmZM3`UHI*xM`AX-t-#H!9unTm^
zFG~_8Cuj0zF8B1=QH`a%r;-~H1F#}elh7lnI$P-=Gg|+7HIrRSv*rdGS#{4o4Fj?K
z*dx5u^%sz2GtL&lQ`M^M`LvqIzGw{p;G9P8aF1yAu_DVkT$PIP{e?b3hWIOAxG=<}
zmNJncjg~J-!8<mV%L@Kx1H<0FTkq+)tv-;@t8b2#nKA`k$Lo4oxQxr&%yy^{cM>vr
zQ3jG24JOIa+*K#(Jk~5unin=Ny3TtfI8pk+V27m2IjnQ-)CPAtnI4IDSzNYhw10@W
z^(0EY{~HcsEozKrn{edgcG6dyuPYoD7G|`J7Yncofj0?0PSJ~)V2C^Q{ey?)6cu{w
z)!esRN2aK=-G@pPxk{NduxwFlGYK~**wQUXtfIvpHc%UF|H!_itaWWmi`TT?T3{L~
zh!7FEAaMUNAdKE;(J2&N%QW}Bgy|jv6rO~uCy+GflQRd@KY1c|_LEEX+5G4uJmG7r
z5F5Ge8hV10EHmLJn`be0*J}D}B<s`~;{jiEgv;=qB;~hqi!(X%%&?v)3?GoNNByZ5
zzRPJBq)a+tI6f<e78%*QI#DOCUX1=R_YQ_^Q{<RU1wHLe4u?J5Cb0>ov*TBv0~07M
zx23r-c5ZrqeiPEXw=+Fu+63spr}=M)x<<N2Dc@y_<gX$fPVug;^ov>HqV-Gqk1BJc
z)ugvRZX0wbIkn_cDOB8Fx_xhUPCD!pzf{9KS&!-F^)`{J%z7MeLSQvt())+^zJ@Uf
zE+f0Mnq8BN`1uiz71FBybMw&OCFD(phLsfB6X}q85-yK(lqbVFu=D9eAuE>Ft}Ggb
zbhPyR*HK7}v(C%v43H+Po@AG(O+<RbC|-5k*4;{Vcv&49itTSF;>XB5**(~)rZeWT
zeWNDEp{w9*E0M1e?xtdAnzHg&NfS~T5l&|Q*36D4XU@!YTU6?9;OX(sOjNj-%eK@6
z&U6PyI2jafh(uwXsr)=%q)-M`29r88Qm;?W+aYl}-d~YS)k?mw2xEjC%-t@{Z7FbU
zmom;J)KyGk+eD6pAc(8;u-qP&(0I<Xyf-#*!R*ZOu%#Y3kIMM=pRsvi$Gw$V)%DBY
z%3??<_b<cewOkyp4(=YCPw5_3jcuT6c>ASO7vr<FSzQ2ohdO<(h#|_!A(LulgML{Y
z7o^Ue7EVBb^HXcxeq$`Mkm1yS!hWIglN;e=d6?!~j1i@4BNmINb~ofEf|F0!FP>^T
zD@bSeqzUVH<T_hgj<9tnaCMK?sJ|ROKGh-|Zu+`RWe+eGd)uu8{lktI9;^At-Fvhq
z;$5AV*$SR_KV@3wMpefL=gQ*ZF=-!d-@h=T$suw5;#4PqO{4v~DPsti)g52{s&?Q@
zP(BmcGQ)3c|3Ib@?cVhp6cpm9N)qtAM<a4yA!A{oJz)?SQnAA=HB4^i286WBCrf3=
zYMm>P_>_tYm4qZgyyG?s%0Rx3FdhLjNhHq#fv76>a}JJ^Y`x-Ym<WRI4ZrL7AL-3i
zw*oO24DltA0T0n+=9YbQG*Tgr-g8~W-|rqiwd>VRoYCO%@bUKc&S?Pb{lGb4Lo|Zn
z!Jq0Fc3VO}#~74S3+W6wYIR>gV2FYY)R7j@5Q{bsp)~2vy{Wg+&J~h|DWVkT2@s9q
z@aO?K6q}69E_|x~=OZ%>9wEVdXpD@E|Glas7nz;khDsRxlx%-JyP9A`rqZ5BG@LGd
z{XH~I!J2pWKxVv&3a&31qJ^^muEpO(@$O9FH;bCpOvFc?sh>U@Q&v@FaUFf}d8uc%
zZi>4CUARhX_jf*wbG_-Zl>dCyDzqx}4?zEos!Zf*A7R6b8a6zp7{bS!`qLJ*(m(&W
z@aL3a3P>%+=qkd@px+b!W~JhTy@e7q&0Ch|&U7~JJ4pi(nxZY(Q1v_5+t7cSO_Y4c
zW%{h?PT0Ll=8I^~^s{5K&ByD0p4CL(o-hpl(?`=?!#0qb14*QSQ;Xy&V>AdP0Z_G_
zOc_YboMWN*h?rlyW2q}c+8l0IbFmUJGc~q9raj4$7JPenB4ch;qhqDWu&>^t&^S{q
zVYs5n!NIY@1#_`urfb9o6512GcdgMcU614V3x&^^mOZX`Dm)ZNwD5`)bA!hUXg+Gi
zsm#Bxz-|d3Zkn1>AJGE*tgxq7;5j&kNg)~A3dDjRk8@;=#CpDco2%0<PXx8B3<q(E
zZ=EKq&g$Uq!S*q|%kfsCkl&*UbO}__qVVnWuO7QiIIL#lq3N=z%y#3fu<nTp4HSbX
zMaYk7T;6BN8KFH1HxL~c6%~IDbs<N+;twnkN0kXsVZU~d%$qb-+2=Plveq$yS?Jhv
zgNqq?)Eq$60dt>njVmWiUIs_4iO(r1*SU&ZyT+QlyZJU(`;t(?XcdS5SyZz-K^y%_
z@YEf5KHR||7T4B(1_RAJjPpEBdqN|Liv;@m`tbhz)>eSOzyCilR88xB+m;=?E|;qT
z>i|<h@6FQ^PXH*WiS++Daq&MU&;Jaqx!lrShqIKkl*wcd;7qNmTw?Z{6Qv_VIo`yE
zGd0zn-jrUB2LI4A>j?GX3s2G8c*N}Te;_OT&)@iOHNroiX?|{w!*=DznggN)(4wNF
zciUE*GES^pyP%+;7?0${Ay}f>0bBwW4vt6=2r}F~CVHdLyq^sm7F3(&cEEL7FtV7S
zk`C)~tbZz*7hJX_G#b+=>B-y#72`)z#o-$PfgA8416Wf+eyh)!iaEgEk;%x&ARusg
zcWdjHUvILhw&miZUmEuo8OcVoTS(S@zHK9yE4f^VC7`>pJKrK6&FXji-jhey&xuDe
zhSHR>@5IwjXh{#Ec?a=W<M;?eN{6%rmOaGknrV^Db8LG=M^CppQHnt(9Pk^6im?nu
zP-vVffCT*b5$SCJVOvKiw#xB_*t|VaegS>Xdasw`GVxSxho*_AQl8^OAUyQ?e~TQf
z^xaINa~})I^$}PJ0)n-#$cW|4eg8pmjMM)4(WUJQ%d1Cmjuy&ePf`UFkS}W7_~D&_
z;}{FW@gh8sC)#Cr@#(o?Aw8XjNvADNvvKt0<ggPwrh`!e=cDkdqR_%J5$SjE_F>1b
zgVPx)*0WzX=g$x82MXC#OU)AnywOz57+J#ZC8GTL^=s!K%U@!Z`TLm}H5<9;8sfNN
zPwrB@nOaH=^XaEN7kO-VEf6f6?FNwij?Tkxjf|Tc7foI;D!m&ay_<N9=!m{KL{C?5
z3)eT~7ZkK-o!~p^Q+lDpDA8NvhC<8}U@&MQM&5Tfk$nHNH}2tt3^89os@wUIh1+9c
zSV1mqOw2zud2ZjMONGqU(SqK<bub%G%N%)oKg7iRVWbQLxK}`9ON(s2HaSmB@xpo#
z%pU=mr^CPebU2FKuy7bPI#=vdCY!MZ6ro_e)7}%S+2EH0R2`J-#`z~Of|^=9o`<u6
z83MHT6HG===#<{An`_E8GP{t$h%fUPPzn6K&~o<KqeqYW>63ys=H}+6xq_=OPhUGa
za?H-oR-luqL%dO5iSYPO*txoBkv6KnG#?3S*$o_n_Exd}GI$E8kwJZ4%xAUHOgeX1
z^gDa)a9796Z76f(Guv9J1Qs6APRx}lWT&`+thG>`)Dj?_ukrxVt6ry{)cMA8I5AHF
z#R8XT(l<giuOvC5wNiZIi($BGoO{M;bC8!K*nbZSZDw4ANdyBt;cCQ;lA}=`yu}5@
zVdYN<<t}zf(I610xS{po;jm(<m6C`B2F~w$P*6Vf%=(|Wcz7YPv9ViR2&RB^@1YB&
zL5WcFD%W>c#Irb+b6i0$xhnsh8D!wJxAO3bf<kD4L*pfx6uzU!>vB=^S8FWs7AlVE
zCFf@Q=D!%@4Z7-Q%G_Um{l!)?XwnzmebYx<BQ0;7?^ytm);h_j*z4t6fm>5ejf3}v
z4RF><FFrrfv`>EZ>6%ZVf1)RQ)a2rH!c_YggSKqdEfRLa@7sU1u<6u<<QYIF`Qcsr
zsDdx@9C~_x_ov}0XW7!#<uN|?3Z5k~gDWk!KLR<L{=eQVn;)EN#VRl@FF1$WrQgzZ
zXW$;m$r#t~-+L){T4rC8Gsf?W{vu;JBE#&8!xdl5gaFCBS!mxbL`rUbDQCtnB*rBm
zN7%ft<8%X2Bmf*l^175r&i5*U&Ugz21q&a){cwE*NcZ2ar+bK=0;Hp^(;ZE-+qZ8s
zd0e?dBbF#O9@^6-DW|UOGKhG5USj&;%;Dx>IB$hVpz!hb!_#dMHhRs@vw>Cqw3!0t
zkDIS)<!fgu?LzFtJeDW@lEgL2!vR|%(Ivd}{(HMN%`E0(j~wTUx5?W>YWFyR{-R3v
zvHsHSfvKMEzw)Lk`ErNn*`v5{%KA%Hc05i8QY7FL+dR)7)wrZ)s7(%0xf5^)(*`XU
zSiWUG&Ixc5{QK-mrIM>-cX7cvrOn?az3Zh*h(Ka*#@2|D3$JxZbE-B%5WbQ*1;*}V
zIl;pg-?OH|VVgKUKHhe<A5q@yH^<+AP7IU&d|?k?l4w{}%nl11TX<ex9$gP+7OlIx
z`^o7kgb`1^#Xi?itqVHIo7VJiw}^OKV(lhYx2|vMsjIO}9<|1+iz}Ch|D9jPW45~U
zwmH2Ao$Q*ot$FbqGRMUT`jBr8U{23wDV;9AckVMK7?kV|NZoN9qJN6+;<c3N-Nd?~
zfMt6?Xy)Rcq~Z?HcWb8R_N&ohe`AtvUZ2arpGnJ+mF|?O4H)`|MJpGP7+aI=d3d#t
zTrYTF_$o3VLacz(zS<c&o@8&IO{Yeszbr~a(Ko?wCPx%+*lN^FY<R6>H0<Ax)zob?
z)c%JTz^$@qjrs5Pc8?zxC6#i)bN<T%ECM#u4?uzg_2>x-spa-`HP3_tFz92I4i+_r
zLwFS<s!xtBX66(+U!p}uzfZJ&Jnk_SIA&6+SC-wwe$y&f`J2ESI>ZRbXWpw+%wXDa
z2dN}mBT+@+dViSJ=$icYJ)AliWe@{i_PL1}CSyo&|BTekC)fAqSZJy${q3cx;}rxW
zIXBiw_FyPSa6|C&+`^KiV(r86ShVb_4xOB9Cjzv``K>apoaOOG8vGG}etLIfUPGN|
z9IK|8@-cQ`C@$Bxkoj>K9>+F9R=T>#QYpoMDK|p8k_{U3%{+@4J~j2B+Rf9`Q>){x
zDV~W^&`8nI(VY}(d#4RFPb>{b*g{3g2_oqA=L?#su+hGT(RjM}2O93`DbkFba7>xe
z$|+b}Dq7l5^03+s`jur$BdJwlr>oRD3~(Kps|Y(k(tK{oLV+*5{1tzl#_hfO;kLk&
zHIl2lJqgH`munuSORV#I?;H}wc5?#CVG=2LtSOme5Ixe9TqrDGY}ZXpV))pXZG?{9
z5FXtGx7pZKl~V|G_W=ObDn*8`YuzsqI;%xD^I(;e4T9^<zYHQ1UKvQmkceSR2HDNa
z*VhI-2*89#vKRzpsDV_gp`q~||K(SBGyg-~4TP)<S<!v6JO6UJq0IfV;w_Oy&iUbp
z=0G+-6H^eF5_(f42&$^9LH$9KO5p1{%CGg8NpI}$mm%v*rq<xOoJ~F27!!nRF`TaA
z%vLF$OHFW}12AZ;_k=<1OGE??s6I=;qTeUv_yICHGt`x*hf#465sDS1k;Unn>2d`?
zd!HSwHo%2Q0_T0Qnwn5%HUBoe`_sq3Dtsos4=)e-EF}DxkEp(X2U2&k+9}RWmF-1A
zCdRT9k(9&429Hjgczxjk|1C|6sf8gMU9;*;9R|~&Y6nUiYu*8!->uW9-Q6$6q_5bG
z*7j4SipD8QbA8#Sl{*-oJ^Nf?w{HAA8VIZb2=6EKD!*0i|NcSt56X;SP#1;R9|~?L
z(Cdg~HF~6_rRC^&aZLXLa8X{~3p#pwqk)tMswJk<*%M$)0OY*9Gusdu9epF6thZKK
zIJ(F#ccwxtbEdxjGboAq5O6~kV1K~G#chRhM5U0W6drhK#>2}CjTQxTA%mU2b&*wz
zugyh8(Le_J0PYIo4q(nYC(CUR5;TeX2`Q3djv6T)-FFZ;0JVz&_(s~=O7EfVchQds
zJ99Z)3){N&4U1B80gmC|<TP?4zUBH?IRb-c{YH9RxVey~)^u5r5FvMcreYi6Xvy8u
zwU;kTDqWB6=j1++e`0r)wKikFD3kkId0CXFEaXftS>&7%kJVizp3qa>i4yutYO~eW
z_wkCf{fFfxByL<w-*u0jQ>-kl72-N*gA9g-)dNo0N9I@=<=$-`8|>~XVN1jbZp|5O
zo~isRjK%El;V?Ys<BNy2{=2^Z&ENk)Utiw^gdEshI0no>U0)f=C4stcK2<ThxhY|7
z&5T%DkLz<yp9wH<+$10%06P0?WhM7WuBJh~*WFkir{KSTKh&J9WfBq%fLfEEm-nGP
zlp0ubECPa#BBOyX-@ogw^d@F0<v(j_xk`bsexIws>+^u18A^f>L~WWzH5ce&$s!>X
z*mP;rVy0_@>2#VkgdiBzTpp=TPENiP7uOxhQKwTW`U2lzvo*<CY+(gD7!=*5lamvK
zO1+vbX14AD)I8W(l$4d3tQX$#@bEb9&fR|a@FC(rkh~05d8)Q=q)0rSJ!M&AGkU#R
zu$V`!v3Fe?c75#6nG|8-iF5He#6+*XQeo+Djv3+9d4zGCVh0-%>veyGtnblHOh66=
z3}Mi2UwVI4vc5i|&k@#~ZQY7{Ui0pc#n&aGhh|R27oUNsK`H~@v{-CupmUklyrn76
zRlnILL@$hw$i~?k@?!AVyrIu65lQXj7#oV*Qeg>EIi5|JUZM52S~#_;#^$jEZTQa6
z&+RgNrvQGBm}GgPakaq7qwZjJm3z8PUmuT-j;4hluMR9{SD%Aw_6A}Rnx%2lsKdr+
zkVdt0K6F^yQrh=FkwB$Q)o!}p$_6XL0N9k!iMT@Nbt8g<1;8*dlzHutPzk6RA#_!&
z;!w*x7lvo_^)c-uJiNAGa<S0@y?X#uy?lI_&Bj^5O%wIf<Vj6U&8s!D29VojfENiM
z;SVS-F3yMtKY_NHSr;g)cQG)am~ds-WviA#_Pw<5C#OAhadZUd&+g%&9?%iSi#69*
zE-+d3Pk6Wffq`iB@gC*Gm0JAP8DJJx^O&m*@?v~eeaDCr{0>@$?6;XY)yQcBWt>E3
z2MBZsMDtf5APWrpmHf^4E`GZoVcdYn^5DGGT+Zzsig?V=wawA05XO-tmTmJ~ddQW7
z1!&UgBfnmvl$a?Twz~3OEfLkqtgj`6OneC+W*a=OdI<;L`Y^CZZmLpq>!X6YOZrtD
zo*AIHfp_*``~a~BK|ZNXNzc@{A;$IT>FJZRGnu5f4>IJ^KbMy~y&Xu)jO7e*c7f0&
z#$N}l6R%Z}sa%)>5^tI`S@EhX$o3nAKGDWQ8R_I)AGMpl_GQS^-nemt1LzA9w*%>b
z0A5}N1%;FI^ZD)VK$-OC;CcZS`Grycb2wW7*h&CAsZ~3Nfs`pz<!Cij83IlSJ6eux
z7BOAj-zo*`<HeZ@R=UMkuRZVN>$W`-myp=q+xrDy2=**(ef{u7o1gwg<r`4=_J6yp
zuf4nwo-}dqoUOITv^jltY(66t75rJkPe$%4k3#ccC3B78Iwf55@Xx%C)X=?ZSSQ!<
zUys%AoM`P`mmVQkocjOPul6xLx49j39s9R#Y6ANOQ&Wj9^+r3Vbf%V$@k`U-q<Ihl
zFLpYfea5+{-+DkgS?eZy`0RkPOQqnlm^hd-QK}_2K31)V70vteLz^d<1v`pYDmYp8
z3{xh<GGg}1oAhTXulc2#N`$D<ea)Ba;wDD9IR|zp>Nv_3hH1wBftqg%#A13FN<-8k
zGs+!zp8@6cjFmMM0`w6UmS6~l1j4rmBucmCMA5RtD!I>yDwc(F_2V##P0lIsYZZOv
zF0{rY&nUV~X^IQc@gVRP_!JXEU~X<6N~bJysMa|!AUh<zv^7<^F<s5wz%^avZD?VU
zJ5*Dsat%_8;Ybb<g1dpT7t7~{4>j`acssDR)+2|%NV4+YPYK$WwbZ6YB1vpShJzF?
zH(w22S3Nl7_c-5t2I`h&uCiDr7Yjjid)52d`y-EEFeUCI@pEDHx>7Q;`!+d`w8TDE
zE{~7eECipM?Haq6<mDjuNp<{3adC-!+U<kk3g$}vC2zEW^>dQd!^=SY^&(!9agD&q
zJxNVoFiPqF`G|ZU_Xn5EAAnv)Qxz`}hA|o%G#i_Js1UL#_mLo1`%j+oMb%BdQ4R_(
z>R&HO7|sxv5)!&4A|jG;D|+c<cThtX3{4q&W4uRMRPq_vKhD0hm|epo3*<ZdLM@x3
zTLzw|Z{yqJ6mc7ano!?C1Vj1l9;B47eH+^8AF$s+L>d)qk_w&ONRevnoFwddD?u$=
zLfDf4CW<TGtTVle3~^W?W<uoVAJv7r>;~P084B5=o_8L|bwJ^PQE6c`Uq`LNmb#&j
zAD`X4v&v~7m(P_0o@)xQ4@h7h3n1|rywDGlhcIa9?+*r|(h7WAlan$nKe-{pW<0Ll
zd?u!9++x7?!Qygc+S%C&pr$jPHwG{Tja=H#uPl@;R}}pG{0NK(-~58@%3|;WB81ub
zzz}K3-OS7^U9*<Y<NA^v_<`R*5E}cP!mZM&mHj|~8K;y%z2qxsvU%W_fsD;@=B*zc
z#T6D7MglYH^D)0t{Mm{4FFLbP;kzfTA;|OAxq@#c4GFdv9+Q?A)CwPO6}U9uU!B<L
z`<$=wYTM>)(AGK`w3&lCc^{AY*1dc8;3_|+r&HrFsQm>vicPCPH(<UDm1r<S{u@w8
zf0vegz?ze*Q9U=;^i3{Z#v6>9#TZu`D`SPJ#+|}oW!0#1tZVv)ldfDyp~xJ0zqhN)
zA4V~STn&FHFJNPwtO(=!-3`7Lo5j(YBCw)D1@{I*`{?K>luG(D^b?!aesVzPZ@yw{
z{r&SPW3TpN?_PrI-d*S;i{KAzXluJ`V`BsEIQi{5e>|3@?A#Z+LKA0T(P{;d2J*ly
zI2YJ-cK_DhWKeq-=UAXXziCczmy~%JV%W;oeiphfC^r)I`vyuX%JXt#p3d|t1AorH
znLgOoL!DMGAOOP*+@m(k4#te+E>2EhFS?J0)9v^hj3GK~7SrMY7XaD$t_^F0*9Mov
z@+ky=OZ_tg47HZ;cnzTPj{>NJz!yk-|95`A0X%>#gv6OpkrDjebhV4k#wZgK!uoo!
zIxrOPw6rif1Kue*Fb<9u8em9EOAEb84q*ELMjz0sBl+C8!f51W!j5-#5OzWsTESg~
zesy_Vdu*nrrnWLwS=wwin$=t4uBfQ!gF(^_u=b0epY)V5y+Ri5<=J7w%nbho)0a-X
z{?Hf7M#!rTOv?)2Bvhf`7OhVO+E<@f4_wyx^Iee0QO)4ill_a})OXUwFyjSdD%cS~
z$+WVxd|&N&S#c8u{ezZPka@7*w{K)@Y)_!^gS#h+(}v>e>gv{=JN?<J>`xEFK3<+5
z%VsGt`QtPV3_oVnP&+I*ScivJZZ&@goMK7hQOwVuKet?HeF!d0D|`Dpe<5nH>6Cte
zUR|iwa3?r8n8W3Wj+&a<(a}+NwDNt7&WM7HOmGIdG6)G^d7O#fA>nuL1O*(*NFq4L
z@RPFPzlex59?lX0>nCeTpuayk4b4~RPstOU%Vvjy#ui=RfHt2jd!4V{L<Io9L^aGJ
zWLQv+ggXu9z?y`Y2~sgG>s;8R_nSX$#zZk6OdRZuL_5T96qo>Qi%qX0mrZaAmD*^g
zh8Ik)jg5_IcBpM)78Klx31FYub#J2^TU~UuUqzU{Vbo3nhCh^6F@S*G91|yEoNjBT
z_L^JF_SyA|1%z)#8E8A;ma`*B9s!WifddG69Di^-Y$1IxH<yIbi+S^iVOn!ro1qfU
zkf!1PP+*0zI(CkdmzbFN;_`Tg$8qN)tzymxQ`7I6nVHQ>Kej(Z{zB#G>SJNo!iCYX
z9x*r$XA^+wGkL8T#C7*J2e<cTrlx6-qC=UABO<>%2jc@_dR*-eemV`aAyY<><>b^<
z6qj8_Mrk^x0RKWI_@DTk!3OYy3$qS9<*;&eB(6KiHcOp-kt0&5yIa7jKf|F86P2Ii
zh8u@S2&I<w0Tm=O#rcsymCNZ8`0vLa5)oxP&+;=)Ryr^?*a5V7`Qro#T2AK!Du}Aa
z3GPEXPeqHU1aZ_L7g$Ws5{sD{+f<)+da%?DXQ++4x`DS#7igdKd^3%}WdjK&MkT63
z32)5uSMzN8YHEaF7pnO3=8M{6V&VW;4&#98s*}@&5UFW=-~4>0=H_N>s`noe1Doj>
zGZMaA-|I(lnA>0e>F<(XF3iCgW6Uy9D~9HM1M++b`yCLXf5C8NI#D9A-ev{gBW$jN
z7W7SAT-*^BgMoqJU}G#KN4?V6EmIaX$N{c7NQ_1yE6usQ3V1hA%usj1yy>(6F>Sjx
z=*L)d@)>%=vhmb^LDPK*72cQsH%&KG<#7X&3sKX+DKqSRLjw$4lx+-wRp8nH8cU5t
zZxN~ql#cH(7#e29u$kdQ!&(9>VR=OlE0kL=Z|_~$NWhcM&mYa_R)N?IVfZ>&oeu!u
ze-J~EsHu=4NJ4Mk<l8Ju7Po2Hr~)Sh6+ESA4gBc=&nsQ^!L9jf?OZ1(C&zgG;^G2K
z*XHq?6LodSC@8)>nPAJ>`>Fv(L9la&(<uu;Z-?YS#68eVy%lyQ*l4$Za0xm9Ryu*l
zaRQ#XQwUz5ofr|lBt(iY(c}7RwY%VQXI3zrLA@R9FW|Rq>Fy2y60fg7PfR{)WSyAZ
zobVeCBf@0&oPq)rO*3FMy^@oY-%bG{)&sY)TBZF17Z;bBt1}bPFq$yR<#*|F+D1m{
zK`Z^g*||CXfCUc~eD2UvBO@c<7wSu#9c_xiAR>=oG+JSgLLIa<k$3M9##Xf|#~?Pd
z@tw`m8U3?P$(XY+QF4TO139Wz>rRAdmWnyzKqKtyMiaWlW{57t!4PL-YC#2Z9Fq*L
zbbUASaWskSd7(bQ*0vBgjY`{3r~H?J`b4$$nR+oiW4^6K&MXP)uvjpk4&icJUR|6X
zY)!?y`St`kolF`Y9q<yb3-!B3ODz&IHei1R>izo*e?Hwb9@r)XLo!TeM)x<d!P^a1
zQRM<%Kb5KQ@Nk%keSnHcYd4=L@dpyv=43|;aJqcQ%^Nomox<4b{ztH)Gg-|w#wLW?
zf{n2Nnn{XOLO1AyOimpnR{y6Q#n!8{o{a(-4|tT|nC$%mXZ8cQgicABN*C|nS^W(v
z-BuI7>z@VE8B6e>`P-=~+<yP-JFnQW*K%7;PaMzN#(c~1qm3BK!*7#G?4?WtciPPQ
ze%*#i5GGMfBBCx$kIN?T=f7;<o-D_Lr3VYuXJ82+z{O+O{99Y!fg8Ua=1Qb5;L-((
zY_isa1YG`rvpy9Uzl45@FndB3>4!my%V8@k!v!K7&i%q}O%6(3x%(v-7KQj<7%qW5
z-yc%cL{68jbUoiJ{SAT;G&G>eL?k6Co<H}JPI|l8<`m6hfDT?x9boA$4hEzU@CbrR
zw$xlbn$_qR(`FyIIT1sgq@*O`Ea2e{0s|ma3Z){$hmgukz~LD4azNNhKxRR%)OB|=
z45&to4_`wDz@8xxrL-4XgP`~A%r)J6_Uswrz@7yDo{)X=`!O=<3(M}joE~c&0o{*{
z`g5@K+PQa`sr?B06gkUmXemHK>M|o4&Tjd=XkwYZ_d0%4Z~?tq#NLQL^f9f%2k;xJ
zOs7gE*t%SU;Dw2gFADb}-!Wcl5eQXt&0ZCnCjweKY)xvxv;0oTDU*#(LPF9W!6^0N
z!%vlh|7Y_5nxWU--OXw``U6~>>A_QwL$84?fWPPgHJDLA#BGnju^C#4*0O+`{eZ23
zd@~&@@ZQ<61QT@>RIHMclFsOt_uzRwJ@otlhlSF}e?{!ZFf+@}NClXUkffdVbn6=$
zKpGD)R$m{^248uXs!p5eCG<h6Fi}@GH#|PqGL`b}+G~w$Jvy%v$t$AfQ`r_PaF6(P
zd}eydBC9%+DCI%SUzT8S&S<p#PQ;}J3fBTLEDIn@#C|777nk|<buoYZmuWJ|XiG~=
z!1Ne}<|<@I!-Nf-9xkv+&%nS9yJhzKgh{LbyCAWdPqqRakfsSk%E*6!{EUojXbn+0
z|Cz~??jRj+UmyG0!1fI!=cA4EhnkS7`_IRa;morzg4fpa0~-e6%Vs+I=eJ163e11d
zRUjv=!E(JdU5(g+A>X5=$-h<9O&1gtWZWh>F`HGOa{cqQC&KHTl9B=jeCc9id1w<%
zF7r1<QO({EidFNDm8nzu3q_=)`DZs5pg5Qpx(K31kX<dF4y0n!s{6b(8=v0|O3e_z
zXh0Ds9P|Y?cK0+wee7{TbYV;2kDUv=`6t;6^482rE)I3o`t%j|4|=RGkxI37Mhls|
zM$^Qe^SFpo`xXou4|=WHtt}o5eqmpcD98jB4kj1fp$vHhr(?4O76NU<{@;GaPgX{f
zBao2gGhdLBB7cO~yO9>G;XHkj=T@y31#`0ccqo1DHd(b&e<m3tATgljENyI(AXqY%
zwSkq$(5Z!eKEO+K=LN7^kd9AGm=tek4fDeo2PmWE>~I}HW5ao&$@^SgA_$J$HLvGh
zCH>~o@m#n*5e@{Mo%d?=?u}M4e@vG3SkjXT9^dP=dwn7iCFrSOhKyj;U~=LpFCVCt
z*D-HN?&i}3{R0}8B4h0GL69K+UGa%C4AYs;?^-uS+;uWi=`(MfnxEzN&yq*1N)+7u
z@3Zg=q<5QfW6<<qiWCQx8v-e#0BFMJ<mBmgPmno)3q^uy7b#;Ik^2o@UG!6zHQ6D;
zZ~L7w<9VE9$X@?$+GR*SMDq6&xlAf5ER=m9#G}_9dcV}h%1ZiNed2dW+}Zk2rf{`$
z`izQZwKL=uE%bO42!{LktnV@}(SlO?aEL~amaVU*^SyP>?PXUz*W}XFZXe^5AdH@@
zDlSlg^FCYzhT78!51_}vP(->oL@P-=*;B$FfyJToiv~}fFUEOUe}bgrWM|-xE#6<@
z{C>T>0{WDa>9Hi^@O3HIpg$HmZ{LH<xMpQ6VlRwle@&iwghBnoL_!C(9%Jsw0vn_j
zAjCuf7p#W8uZlatl`keH2HuHgD8++5Iu&l`Y@R3>`XDnzMnxrpbCK7D4SJqj+WSvv
zk7<z7d%O_a9^1ocp_Y~#bN)uJEC%_&-$G&Bxc~QESUp4mhT@veHwX$woB@#>U=y%8
z+<t)1`Uil1@dZ?6#OA$McHg1O4CZPk)Lvi30Ep<Xc5x_XL;<lx4|@F|lz7#A-T!R1
zZW&xAf=deC5DE_~viUnAk!X6UgV)kvZv#$BNfOS+vyZn&u^H=*3zz0K3ZMLNHn9SK
z55hT#b;ENoMRD&U3lC#^YIaAH8w_`(;Eh!K`c6WBvv#XT(bLyx<J`Kj7Kx)$vCI0>
z!Mt&o^@?dGApXyCT;-)=j<oE!?KQrRPW7oF8!o;9D+5CS6js=gv@dyctj3L7(C2;~
zC=jqzAB>ILVfTdN#R(Hc!@x@T*3!~j*dqemLNn~NL(Du=6}Nv5Z^B4%h5)Vb0OmF}
zzK4Whk&A^d0NfH17T$+W1H9?Esf5WOKrWa|y5J2f2ZvOdWYH?;!>_PzGEi!AG;8Av
zLxKa~9LzAZ0?m<ETAB)j4s_iFaE!o%q?Y-O3Xond?0PXm69M^FCQ2D++>VK$Ax6f;
zU_na<zYH?$Iub8YE&W&5LkzB89+JVi5V#Mq>ut9FHWCC+SOZHEH4o3BQ$T9!va0CU
zi_Z2ET=hF=1A0IC+ZZ*iXJ<l8l}f%ecx-;i@bI{CO#DVmw=t(UQ$$pJLD`ju|9Jhb
z1y5})vD<B=!fPp+h@SZ7UuloQ<1XP)3xBCg5fU-|8iCX*a|xdD&?1`;pgn6)kk6`Y
z3bxBzH&lHf%{FiPngu+q(f(NVx-PqJD<+WOO;GoTe5&^L_OxMeK<q-vc7?@{0zC;f
zEiM6@gaq?q=;}bKNn;Icc|nX+Fv)|;Gus|Ecx?;m3hDxQ=~7LbU`IqJ3>vF2r>T~j
zlRtZQ<0C>*gH22Fso|6VZ))HT^8b<<&>Z5z!NGAp-paP3<)AIfo*5bngNIoNgAbHs
zxl)yHk7?gRFu;!I9z&e5aJGmzHeNArEvgUNpIy3C%H(rJBDhE_L4zRXuL=w^vywLm
z2N|?c-Cxw<Tn0TLGCFGaq|R+?s_GL+7}!)l$J#~RPlHWx$WC_#uD68rlHEU+6WHei
z-z4cvq6@S)PnpfP=tF`&he0W9Mze^d{im#}5~}6U$PwcURBr3jJw4!kK&Lfk^sP+?
zOw4LA9SbIMpaMSo`U+R@p2H5Go&9|s(0kNsT$P7B^8iQ~lN`WGZcJ6OPr0RJyV!U=
zQdNb)eykp_FYJp2V1*6@8G@FANlCs3-9`-jNQiQYU>}D~!CGW#Z{J*B|7^;PMn0nv
zMl~nMB9Jx_CMoO1b|XTu1U@&z;Ve7=I;+DWeWQ`%gBE&vO)%jih+hP!1sm>w+mVKE
zH7%v_Zfz~3+(l?MomEfYd`+o&w7+u2+j;MacIW5sE+RPjbZEaz#*x%Ae)FSm4BcA>
zVA(u&Su0GdoKEsH&--?^t4n`7dojDiLDRbnSCs-VrC%L)XwwJE8H!m1t4BY3^HtaA
zr<Sa&tiK{A^RM?*mR44MD?fsoTU${X8FT4!JqNq-b14^<2E6~n3%~|!ta!(AXnK13
zc%g_HgeB|1a7svsY)VpOm6>U0=@3Tx$e+GG>BB6^FB>YXMsy@Y7L6$JcG6XBRQ2H7
zSPD1`_}wUkUt*MN92G{TBX!`tug2*S-cxC-Xp%qm)t}VX?FFBk40lVi9iNp`_I}%X
z|9b2%vrG0I^+m8>8&2=i(q&z_upff)zsfnP^P2(l9|4VC1hIf=fmk0l2G!1Hy>9^2
zk{pe=>9Vq%F8&g;>*OG(m)>_lKTj}@QK;eNEMW{q7{gmESg7^35msM^oEAhJevK%Z
z&wM?DoSsVrQnIDBjg-T+g}o%;LlBY;PP3@9V!7kylG{JX{(2s`H8Za-&WhAkd(ibw
z_Gr2zMwt&BlNeEvk^Sj2n4;X_WYkPS>wSt}E|zb>6=-ScNzl&3ccP8?gl&41_Gb>A
zhCVFxNEO0!iEnDbvSauR)}F=H`If<~nIBg=l<Dmnd@lIsdyii*%5hXrnb;yO<MAZV
zj_DwFvP|3NdVVawU2F_fpInxTzjQ5qqU8LNlkM=d1)AQtCC)YDzu33EX6@>r;NW_|
zGSna^=SY30xi2=J#&9<J`c2~doy)9K*YQbJ@QZ1^KnG9~nmCgZQ9Ha)IT2~$Vow3y
z$SRTCr9!M{>}{|O><cRlnsJ!r67Y(^?;zMDw(>EmyuA5Uoxqn^5mDDqPIU*uKZD?5
zpaa&%y59NpkMD}d>EykcM%M_!GKoS{S#Gu2fBPTrmtT$Tr*^zfb29jy2ck6DRCI#?
z!hd<Vz9jiFZ`eFTylyyFKwdhhEkDqTN@~5-ALUX080TB5!`XI@DB^rj*u7O3+fCIU
zr-9@61*+<`(px<T2fnM5dD{__=apq;9I!2RpXUYXo{FPmnXx3d+W`=%8)HS`w97qf
zK+)|L!~YZ*45+*fzzx!ha%ESG#2oKmo~?gsC({EP#`j;$-VRaB5lnoKuomtmlT_IM
z{P7TkwiijYNiVGlWKoHvsjz{c|F)khndhYU5e%)*G{=jysUNlk?yTq5>YjN^BfMyG
zAi{yyxM!|yo}+?MZe$irda)PW-^pd&wLzq|h!c}Ve2fiL;fk{}=K0D`YCM;L|D3JN
z@r)$p{;5xH&Dqz7Q9PMqh$Z9A1B1qz+Zi>#?fRd(I8}r*(0TK3clJeZ_RT}S%TVuo
zPYjC@2F3#f8xOyLFt<Kk9R*f&h3+^>8SP&=4UYtJVN*?k^_DFK2AtjH7#JD}Fen%o
zXCn^t0=mm)xm$0#%E?rtB=Tzd0Vg<>)P2dlG!T}hGZ%K<{emXMFD(F9t!-+Wb$G;_
z5cfjq6evH7np4CUbf$~*?I?~F6PmK}fwIepLE}*`?PSq)E*{e9D3?-mYuz4(E40&)
zw0(os$>e*osp5%1=_==l&GW+kyDJ3BMO?rp{Kmy~?a>x@R>m2|-;?u#M&yEr$S9xh
zO@8?{*cnD9jwL%VC|)QoCN|LSv)F2_%TIf((AzI#v;2Mb3G&0+*g~)HK2z;apPze{
zIo^JZs(a$ZixD{KQnMbrZo}`|a~g1doL`XNlw!_nj5{KfNXD)&w3sAAQ|`g&9ZB$T
zGNAlT@!F7+S?|+nkZ07?)xW83ln9_yBGwde)aX2D1yUDcDtlsA1)Z9G$*HL}u)7y*
z0K)&$r_$sy3e3YX$t8t_QDD<QAt9k5Xk1%cTe$f6S0mb`i44!dcmHx{Gy#Y`G50o2
z^Zk3I@g~!V=pq%;qwMeocXHar^HIbf2mk;6anN3YEbt{bB0j#mErgO2*mamnCaYa=
zfVLg(delQoL_`GCrlqCjPiVe~jfsYaC!G_C?=y$i3^Xz^f60OV7!9azZ(_T4|L>Js
zmZ@oex@sVP^GoTKR)50XjdXb$8QEaJa;vxrC~uh>aj$QpFoU`b>z*LbQX-Ov_3KfY
z-TIS(6e)xK6bTMCyTld~K`WPhlqbce?G;7>hK()FmTRrA(amS-i~qjzc|g+bu)i!@
zX}{T@qw+Zp^YIj8?M1yXiQD)5a!wt-t5|ei=LowHFGrdg&vT{f4{X$T@48-J-k5e;
zj_c2oL>v(YWC`p@TmbWucB@yLV}J*VCyji2g|Yy)ivHU>)3ppu>&xWgu^d6byCr63
zs^ZHduJc)YXQ%F;kBXeu2dE_7s^X~{ZXFdO0@xG$=f`;~AsCMN>)$pe%VB%DXK;>o
z3{U=(UpMgi-FaH1Vn1|Om_1q%@*YW7)LhD%Xx_!5#ASDPO&=t!ll+3F51XR1X7WCz
z&oCxy?T7145t51uH7wCb)tulU*aXlWMXOxFKP+_H`e;KL24P(8c`*$<rj)E0G9kZn
zn+9Wr?#p1=RLMSoh`}@pV1SpFP8%`?UQ0kmg=?SfDnKBSYMtV)G>v`$q4-Opo!!&a
z-&YA8urZeAE0ANe^Xm;KJvBkEC~1oGS!xyrS7qVXL(&`DL*rq+gk%j2ObN<&>L$JQ
zrm#sxr{?fv%O2wkz5nn*1e+3)o8|`WL}!34GTZ*rh)=}()iek{B*bn6BrE#6>KO_*
zY+r{T-dS2UB9>I`4P1!0NRFy47_D|;XFIa9v^CclmUuW9Wod0BNzd&9{I2}7#m6oq
zHvzjmlAt^#_b^(>rGsAsur!}Y%!(mxWLcaWeyFKA^N2dLwPypEI6RQ&_R^%j7__9=
zo1OW)#vmuPgxSfqd#PkotbFG;kRl{K(#NJ2@srC|Afi>}Rw>#RnqXi|l&$X&pYrot
z@-+&1nadwriD^>FMXn;OXL~)(t6$5lvhO_Yv)RO8vK$RR^N|;<+ShkotURI154ZfW
zu~Eo4S~b*;rM(ly^9=KeYx*A@j~vZ6o+(|Cg~Q+0nw!ZL4Bo2Xe@eY%%^eu%7tPve
z7mtcdwwt=Tr^8|c7H!erba(9q<dCB9@K#pWBj8Np#-hxO2TtDlW)nJQioPyw4rANZ
zeqyQC=2qUfHMK{YhpMi&Q1m8cq=OG0+;8n{r3xxQRFL-SrrJwyX$h?CV=nvcE)z5S
zL>U_7cVE8Ie@pR0`_)?4JurYJCDqe!_zm+-@cDJ`#6;zHRhcV21HIj`$V8Rx)zx*`
zsn$s62LuD<xhN%vgsd%}d*Zb(=eCi0+0*KAYO{vclqo1FUTk|hu=Z?Gy7Q7$o;^T9
z<(ltFB$|LPsv94U=Mxmx)-%aHBs7@p%(XO}Q(HOW$6rBWh&vj%#r2UbPV<(vee;#}
zB&tN<-?*OIM2&`Kq}Y>nsUuTmj92V|uMb@5m!lh}zU%gVr$$;?S=m|4T~8P#zOKc{
z)9JGAT338q^QMKE5ob+pPDh7hZ`s026Mar&PyM@b^!tt)^zNKZqp{uF2M5+Q;rE>N
z)8uHzs;wTdlhvmg=}Rv25f^Qq$<%OdrT(@w?U58<h$W}yBX+xabB%+mFL@hjjomyW
ztmLP&t*zau&86|LdI6^5qLis`Q${nq*L;5P6gjJaxo0cQkxyIS$r9<2lv84Um$4&9
zGo+J{bW!Mmp&CIy8`op7zqd|?WNB+u=iiIDMLu)ex@MAOT77mUhbUV0i#>Wk^s7?0
zCg$O*7s8nrp0zH!TR1jFYqcJX$*s#jVk7@dw#`eY%RQg+Bcs^6gJc(n&$N<#x5y(M
z2MLXcD0FNr`m8&SCmLttXsf>}H#0T$uKn^AXO7cMUpeO;AD=+8mNvJ_)2k#uT?2!g
zJ4>NbXhbUlHyK{o3}W_^O!hdKPV8N4Nq6`Z3rpQRO~8xiwF(`&S2NV^vd}ZL%I?a#
z?aHURKb@ZBtHfc(oKD@QvY5bS{bQ3hoXK#b^81xx%F?CqdilyRMrKV+*JWr`&&pp5
zRXjE;v<3>vKI82QZ=2$^*2}C8GKg#*l!L>=s7m*krDB!rC3jIYg8&l!>k@jZu(1o~
za~riv+lKz;Cs2A<_$*PmhcD3nBoa-l)NSo_R~4LH5Iki};7>YSTpmAt<NSbFa-)kN
z>x^N$qpYlendRR7(I~uCxpWoz^=gH<ivQNtdB;=zzyJSelGTuro$Q^JJqi)Yh#Z@c
z5usxzvPr^Q_Rby=LiR4%TV~lI;}}OAe%I^s{qOf*w^O~&d9LgEd|uc6@p!!$*knYV
zIetZbhb@=Nb2Z~Qt}l(5Tj&}L@0k<zq?jtK#pKojV`G{75`~T`>({TIb+TSE(-+A&
zcg5GAU<=uvVE(Q(hvP41cK6;C<%-72bP`EmaYVy~jYmOaGd^+uB9eCc{2Fmy*1a5^
z(@CTKMMf7T_SWy-yD#7}^Ezq0hzDitZOO!6H<cDp{X~>UUrtr)W@E8oP<8|<J}8o}
zG}WXrp}jDx^ViDMTce~==YfM;C}g9tSa?!EOY3rYOf$;gHJOlZRF%3*y`o~ct3Jwu
z`_ex)uODs7-sU2gk#$$7>KMB#vAfa}8@^n_aN~_uLd5CpMHn;+)T^L(rprGUA>;#P
zuB3HLug1$$<Fk1CSDZgeKtOmQo4}s{XZOQX-ElJW18EwsK~@cG?xU4b=NY}zRXW?m
z1R*!PD0FLRXkG7Lb-U0@wU8(wU3#@eW^(+QY>aQ(H`zCKvXw-_<x=+Tq;G{8Q?*F}
z^08bidigE*|0qffr6S7<X$ekb5<StiZk(kj_?e{fN*i9=*h^>c-j&fmCU!8YrCOyM
zWcU+Xxv>*H%KHr>w38U~Ntwq{By|>z?@)<>MkY&3wez+V%1g93Tf0xj-lR<J+Dc;8
z+PC3NpW%fuF#*%<?tGLx{+Q)ea0J&2vmgjKI~@y=1f_2F-*7YH&9ai*;YnA_glz{@
z*UG;XJnzhXp!Y1tXXVf8&X4uJ@RvrZ=aFg2e)YGx_{kXKy?}ErV$7*U-D<<OB2|uy
zJ!W6&Uuk1&)l)nxR_1!or(J`YN_U7AyYS8<_^#wmYLx5W`3#!BjFib$L1x(f6k$Iy
z21dCsh1sUL4BzR%61?$Zij2|yuttA$vDHzRWuobFe;ds;7vjHcZ85I0v37oOgf%ZH
zeLHw3AN72rZoGR$xOEzQqod;%`x1$x7+n6?iVca2PWwm;MQj?3D?@XNCn*o<&~ATP
z5-eVy-D<5+IsVtPJY1s3D0xvi*`W5<Ozo@%R_5ot{lJXTwRPuQ%Y{@HIT$(_n(f3T
z%ul>d&!)<@TS&xLKWNn9ACEhzq<9+*Hx(7t<En<bzOM-e7mLN;@&2rp-KXn{J}1eX
zdUp9C!+cVxV^l)wN!!Z=nxCCVB=p~*FHm&<rfDO^I-OsRk@ajh+*P*q>2uFpw;i#2
z7K>e3i+(gc9-s4k3TJ)FfN}^j8KTqXpr}}%>m8Vu^h-8KsPRkpsC`F%UXrnZcCn|&
zZnUITJJ<bVt~8VIoI=?fqth!E_tjOb(#DjoZced@uqO2T5(iu`oZC#9oG5)t5MH&}
z+>+zkQ1_UzCWySTw|<{y)x(8gv+bS>`_gty+2(Y8xH^H$f?Z;QozK|FP-@;MrQ*jX
z4<!p^%Tg8t|JSlL%HEN45=R#vk}!x}aaltnTg*_=>OB*3egTtO2Wf%w&urVSbWvjp
z6FZIVi3ZQ#_4YW~jw-~A4t4}pCq<#!PL3Q)R%oweJE0R9XymT9DyL4?xDA}EC2nA^
zrldeE>`J(tor2|A@y4L=VdSP?!|^}DeTQjOQ<sNHh88Eyou!nUm3kSEo?Y;4Q&he}
z>*1fbWw-tW&+RmzIi+6R3VKa}oz~UEosOxHrthqd&xhl`ttHO#+D@QME$wm-y(RYD
z6HYY7=f-+7<fDF`2!x|O()L<6I94zo%(V=J+jRF&4)(A4PKHabED45CZb-sS_c9gz
z-nci!yxo1e5|53&2QxzHuyUSdKR@cn7Gl{WUG@eQnXDD+4n92ypLT^~^PP%T13QXL
z2-*<bD=!pPtna?jZ3sTA=Q}GqrJ<4$X7>1osG}l%XV9>)5IeV!_K?f@XZV0-P6&0s
zi&s7RGId`ckWT9Ha1YkdjW+~d^Ky$yi1Mo}mgbeH9&*HSBpXdbPIPmMPhj(1<qwgn
zn~p&y^KCPA=c6ZGzt`;HT7KX~HjN}Ulq+v23A?PNA3DL&a4==kkhJbTe57c5)atx;
z_Rglun;*-4C~^OgFTAJu<BK11ZXT>ZeXgcy41C7MYUnvsv4ktq1_Ioxk-lU}4~j}v
zMTm|(&u#63wy8dj&6(NbJ&3rnuU4v_m&35IeBGr@k1g3O6$8@(;(@VNO|J4o_q>ak
z<Qq|!sUB>6-3y=I2dzq})AutUd_+l!lYYi08oZEXOKh8TN)-Me`i126DNC`p)d$^S
zjBQ&)p`P%pp8909O)9IX%UToc%p$A2_O=$wbGWuIbrPOZaPqUqxsm<;$+(oR#koy)
z>XXsSy3isH`I|SXsSHb_qVZ^SR5JA^4BqH8g&)TuE&WQVahwc}srQU)6?CoGP#rl|
zBqvoTKCR00rw8(9G>)7$9j?Y)-0$dZj{2jdbgQjB+I?A+D?57huTj_(_p2wfW-Jqp
z&#wtai9O<s_1@{Q8-6|>0>A&f%tapZkJhl+m`-)`J8e#r1C$Eq=bN|UVS8&ZuDPO3
zT*$s8QdJTN)2m`;ZD||bFc}o|xNv&|%?~H)b8@b(qF0!kg&oJDh{`L1vt$zwRFF-Q
zzt2pk*f<4NP=KLSF40RRwwzsBnJ~r415>MnQz^9cZGjw!4d+kD#Ql{oS$va>aet*S
zb8CGse5o8W@mpbWL&TkW+GMY-6pi_vnFS$K_u2}Ny)71wP7IRwEsw2DhVtD^ZkC+0
zJ7a_#zpKn@m!|eeNpMzslr!<WSFChL<sR~Hb+u#RGWn>|6NBv4{xgY>^7dsOj{Fgc
zFYh%FGQFSQeOQ!KgPF@ZFDt|9Hu2twJRlDR<-Q>*d=Vz8;Eq=G)zFBrkLZXS<D-tg
z;10lZ=l#X}1K;E(-ADX9%zPgV$fey1*M<o#w97k3UD(+Y;Ve*OJ85QR*#mb(0k<9Z
zo*Mg|8eH4)`R^N{9i1KNx`l#erA-B2rmr1{sD(ie>c!$O*I5k}W~p2EUAl7~O81oW
zf1_Eya^r<O_Gi96F-f8BP#qc40WaZ)MW8E`W}DJqENAM*yj&LDE)&cf=ISmkDyt|P
zQFReIzOlKxTHt|iGz!jN8xC1$J7=Eh@MvgwJ-<G0vdSUaU6KqANZrMDnnT?;XZJh@
zJqrF)ebc+tgD)H_6@*bjA2Q;L%FD}Zy#H1#xyx%CUs`LMG3q{jp`g-6JFzDhvK(5L
zuiwBll%D@X8=GJ-#x;EVQLxWJ%g++Bo+*iE4Ru+cg3Emdywwvw&>M3&r~4<@yn(?;
zWO!f}kA7lqYo<R}1{Wob<C`VsPxeAPX{+qDS6ro3GagYK8aj^%3ys|nJiMh_xlvm1
z{Gd%(LqdbzXgc=-_XApkV!7hn+=H|;hBi^A>;W8taSspSbf*J{DGLje$cm%<HYLSO
zoh6=POLK?j0Dfl&8@@Dbpq2B#`8&c+R#V-lqBMB@Jhf#leYo2z{1<QR9~_-b-8T`_
zDSQ{tyi616wdwN~XPUTlsD)chzdCtPRP;E<CBF!{ZmFsbi8^@Kc;C$!Jc*+(`jIqv
zhYB`i*Wf8{PX$em+c%I*PqyBI>GJ9-Ckr@<fW#0;kIzuMzPa4f+l#PMZ)t>rpkyQn
z!g{#0cR(dZ6EE49FAT-|fl50)KEvv*-L^&F^<s_y4xX9_ebvFCA#vArYCb*<#?}2&
z9L^m|IXz$?g{3zrH6?&cJS)e_ck-5SZonHYI^Q8OH!aS_kKY-M6hc~}P4#-!QY2!b
zc7jMIyf*8Vu}k81zrcf{3^*&T4GbyZzQBs2zu4>BV&LcNzlZ;_{xi0GW*UGzuqZ1V
zEd%cQ#d2?oR^cQ#ReE_HX>pr0Rn7W5@b;F1Dr9?4&&DcEz-87<!}GPkTp}_NQ&T43
zHHQoJA_27e{p(jo!d_ZJf(kGXP()nD_Q@{CnfUwyf)$7jsD^oL)*k?mb4qy)N-;&o
z^*4Y30nJ8fWu;|*y8P~1T$ONNtL5vx5xpYAnrOh(Vxpqt!DJFqY(bg-uuBH>hXUZo
z1#oXgc;Ed=NA1GVA@(`Sd&RmI_V&sA{fnO~c--Ht1Df3f!nM$l5IGYQMrb%>b0aG;
zGap9)A1w#3P2Cbh6*T$=kgn`N_JifFfLY5q5ZB=jm(%n?3DGcPWY(ouI09v+IKX$V
z($hyoMO}emumn%G;gXcsKcbg4?d^FGktI|~LBu3cces>90%{l_;Qqr51>_BPsh1Ly
zkbH#14M0WD>QA9Rgk0C3KyshJS2g=L)C;L;Xa+#4_KrciK&2K4yU`M(AE4eWE&Vq6
zvVUwWPS4mQ5a+&O<O}%m4{+XkQfV8jI{{rmLM`AsU5lj*#Y5H_9&{1NDQc;TTm6Y5
zcGQxtMWanokkJ#g?oBo~3Wkm-2f-RtdcDBc>g|d4{-{>I4phk#p<-rN-v~~5KF8b2
zWOR4r0JI?>Bqv{nN7~Oeq(JU1`t4g16wtSRZ_*~NXCGJ1c!rDEjV{>DgHQoH6FQok
zGeY#ToNo&VFbN680NDan%}&4(!Fu#52y+l;j|-$>jeB92GffxS#(7N|lEE(r(Fj86
zS3pQ;9!L%Zfn8Ww@LmP`;YjFa;B7i5CKB@UI6wq12Z~-qEk`T5(7gxq#tifa01^v;
zXE8j*AJXMet>@AI8~|u5cJKkep#8Xj`UDW}t=-*kHye(~tgWp9Lq3Gbf;gB0+g`Wb
zL5n#0-i9I9;kpj#Z#I}~?2?j6P@=|8Sf^cIlRzE_NntF2i&#WL3HD~_N?S!Byn%dY
ze_UwGpMEs$He2R{_k<L2ynxvmuoGlvVey9|c&T~&CD5ZOy?7xYA>nb>5wVK=!Qc2c
zH<ull1dTe3{`gKzbTne*3}%X;%{>d1TUh@@BqWFy3kcuzCu3Qke{^-7aZdf-3m_X(
zOaP6Y0H_9xU*j>wspXe5aWK7pY&6@Cml6n-*I}@*CiLc3<YHCZLE`@mis(!AW5!+)
z@Ufjk=SZHWKL~$bfDstrR;>`7D!R6IcRvCgP-IlA%RRojy6SX{bGjjFpXbpxFc5_Z
z_U7lah+H9W&IZjQmpy(Dyn*c?8O?13i7SJDaML6hnhBY%mV(EHNVX3oV^C}f0lNx-
znR~$xky`MkHKSl9x(ECb^TEIo=411)u%q87XeP~pV1U#oly|c%I_s{_NJ~jws+4}H
z+2!WsBwws61mg>lGbh#oMmbx;GV?ZMr4yT|z=i=(JB0lKIStI=uWt?5@3reW?3dF*
zG8SYrxe)M>SqCU*f04cr2`MQ6&fnu20D(mNku?E6fvhT+!!Mxx45Ha^V6srJkGC%d
zlQWK17!>Q;`H+LdD_7^p$Ybt)f(o0M@)bJ;g_+)O1O(zgm?LOnUW?6vK7fLIoB*Iw
z1Smu#jBu0!SP(+RZMVOM;9MC9qy<bTc95k4-EC@P^BrhQY>M7r(+{BcEH)K$UihX^
znU%Mw0Rn-?g}P>@rgE^#Z9sX8`7@jWG;8};GL3T3({}gtq*ecU<)IC@Wp0jU;Rpm%
z6qqY-V}Ixe*=~-KR{R-GfRy}$@=ygG)x{j^F_7f}X*W?}a}9#0Ip8iZ*$2Vm7nY_n
zh~p~<sVGnc>YoI7c}abThm%uYx%eB)GvIIgR9h!-ABY?Mjq7j4Pz--~)5Sp+s2~pz
zFCbk+;9Z!wYz}Q2OP+*w-toq5S^RL{rOZs3j?t6vdpx`o$D`i@oEj33U<tD`F`<Nn
zgl4=prJ;k+T=F&m9X>s&?NL<(quO@R@}(vsRTemhDrBTv_oX7j(U**O?wv`w+^*yB
zh8`(}0p<J@h(x*G6*Y2la<D^`2kXwDprFJG5N1BLva%%wz{-Wq+RNQwGMSg%IZYW*
z*!41&nN(521t(`^>QqTLJ`>dU=gKNw^uK6mXowb)v*7ChGVD&1JuN!~n~4fzD$x~+
z++$epLp3heOv~iRT0s^Y2?+`8Jz5!mcrTHYM_%PG7p9l>IWFsj!<nb2C*<Jf!LS<q
zqp3yhse#1hpa@ggjAaY>_Gzjpq6Xx0@94xc_fl(W#35u)eZ_<WonuQ6!X}HIh3|=1
z0&Oc3p#<Rs(h#slOs5$TeK9A80EQv;_0nM1G;$0jnV9$QL1@)(U|$J6gz`S#?nG}8
z6B2UlqhgW$dZnManBmsKlvXkbDSelwV6q^Vw4bfE1yCpwf8-qju%)xW9tRYbZHful
zr%r%Dwyv(mOz1zSFs&1y$Dfp%`i)A-foD1>WzRN&)Ff;qXxT5-xOX-g@SSeZAcCF=
zW?X`l$BspAA|Z2F&eSfXD5rm1Wc2ohfQ`^sO-+a{0desN3{-3|TZ4FL1`-Ew=DiNe
zTQG46iHJDge`A04|Gdy!0n~y$q78_0J3BidK0vW90Z~W|ur9Dvq^Riu8A}$NJ3tc&
z;F221VnAC3kl`Q*<RPAi8!o{U^Z}B6T%dz6AKcvB5Q?fj_qd>2!GU$_<Y?1wkl*Ml
z1&EZ8VlEVs5bJc9Jb-hjK(!gwfcqV8eqc;&-~(!U#5DrAbmURMlYr0<Z0j$fKzqQg
zi;vZWyU)LW|DIY}{sJG}1iOQ0<c5Tr&Ryz#f5AgN9e~%5IXTXNFTpuL5me4FdX^y0
zL@biHUjaZ4qDch}jYtrNgNpe9bPHlT-_Y)-SM;PALaQ$*r$H7AO@$`BQO#}{8j1lQ
z+WIHYM@L31AuQ}}OvV)z@c<`W<9&D=to*G(Qq#`m0*=PJe@2L7RTW`bz!?Dg2lx<#
zDh2QMj}WI5cL6U2{U>}gBS=yDKy$NwaKO&T2e3B#QeRryrmmwV#g}8)CWJtd3qp7x
zcH7|SfoM$3%$kez%i|?5wq=u#CIDd-1Sl6NmBN<+jvFn<eveZ-FZ@o?=L#i@B~^9x
zML;tlO9=v>O19v;y=Q(vU~6w}^@nf~4d=o~k1lh?UZSFkV}Ez7T{r^pzPeCLDeNR@
zKe=ozWdDIz3GDFBC3|&)DS;5tkr~LzA$FOAm41o@=DvnTXI~$=fx)Ett0+rY`<{is
zowg1PTw!6!VqXHRW(oOz9WIy{ahsG+z!V1vT96`BR(By>CY%#0fFEj-7t`QobS`m%
zkHG5_gmj2;0A;P7K23XDn<+5JBAaCb|93I$Cgwlj&;CH9d6GO{8-B?6kR#N+ym;z-
zZLWv#IMKG$dsFsQWmcMXs2ORRefI(IqJ>NBtWE$2*J0KJLd_@F`NnCesX_D<<=wXv
zaJi4YQnh_FEw1!=`{_3|jWLOwtilJ7n!>%b*}m{rx@W*h5_d9xaEJ>|TN!kdg94(e
zQXsLbgoMOPn21mt3*cb?@Jb}6-k5e^XsmOiond^`g^61z#z3s4=4Dr0{5RTc-KrW4
zZ;*Pj0*Js>i^()^a~Z-7D8vx1?(2I$L$V`yT}D03v~yEOx4qnA2+4`~D*wT?I6Wch
z+}AKUD4=GxNMLp^qZn9byQo%BZ`IUn1{$>eJisAy9zCbX@G-|+vryE5-*pV_CCnln
zF{^u`hF4Nw?avZ}uQ->o$1WnCz<iDEY$;~K+;*(cWRABxH<nzyFXgPp(Ut42v2b}C
z{`~0y)|FoHwqTE5D$WtPba543JoroS-jjcklM{<%20Qy?etYKaJFvq|)w|yL+C#n`
z0zzW4r&tYQ$fU?9yKT;;;k{6$#mh}=n?6lFAp)Yjct1Vm$gxYVfxNOiXpZt(`nzfi
znBtcsw$y^y&c%v#oI*yQic|`u3-1Mv{LM~1ZdlU$!e^j1X9Eh&&3k8;t%PkRa++o|
z;RCCB{DrO}`=53F*S$J}^8Qoh!zDApQ)PP+d!uI$&b;6iuqOU=cCsoxE9>ro-`&!R
z{D|lH3+PUIqr~eq-cS=EdI|Zd9H03d$TLq>dj^L4oTe)&-H5AjE(bP8@o_xqGsVTx
z3XDO6etjVCslomJ3GH*Ky%R_LZWK$kCf)7BH?6bN-tG!FB>iJh5>bz@w-v(BVfTx4
z3U$1tUZR+(`nH+&7@&1dyc}ZjBFi!Djiyg36LqI+I#UeM6g9__RhdZ6zcf^vTGS~_
zw+0FZrC$oQTl7@#gRzokM&+~FP{<-8Pl3N8l-lU@+c4Ocu8xF+(eYd*u`kQ(lZU@I
z?x0=03DW$%w#B!o-d8b~X(bdt{#%*;0Lq#|n3HI4KfYym6#NXE)a#Vl-q&1QND6d*
zp-oX{&3<=;9m0OkvM$giE||P~bnJE&G;pyBkmRebcpmv+a(~y$LOAPd#UdncKHg$A
zx3}#`m=`w)G1?MuhNSfQ50JY^wiS7MU&BjI2PXo9QQ0(^0Rg^rj)^WM$!0&8NA(aH
zUN^k!mruuxLbG&gy1JC4iPdv6wT!QV>qAqE*bRRFZ-UXc7L4?d3@K)0`8PKv$#hP?
z{Ro-P3lS+><K7=c#c6K`n~*6KYYkK@uALcDG$Ci-@Zo|KvB>82Y;RvBUbGEcZKtBL
z(;x6u?#4$Oh~11ASetA~E8?Jlszb=7?+0@-XxEpywwMiiDX2I=I(q)3-mBu-tcnZq
z=dV$MP|>P({i_6(f9xXB)<K2}x8B^ZW_I37MYZY8oG@j@1^wWu!We=llRt+lPYa9i
zK4fAgwvoRnSnvLCU8=l(ktQC~nc-;a>tZKXw6P8gh!y@9u?&0lt2MR@j|&9;WNC<a
zeBIq++Nxk23L;In%<UZ?ar7-IVSpSoEGs5xl)>>?zq)32XxpWt(}8AAMb6XRvexbt
z;df968%z%+h8)f<_70bSD`vL`hn`^-ss_K>_lf+kmCN$BT<Qi@thjZ~-Xpp`w>p^K
zbq6C-J;|cJGk0f@1yU>aX}-IxQQT$Su}3f~k<GnMTo?Nf-OtKnJ7H>Wymg~4lI$U;
z>fz%8YIAc36{xXYAus-$361JZvY^==l~inG`knv3A)^!Gwp(&Mj=;qm7}mV>lN=EH
z-re0a+;WvYj&j&;_?8Jnph7dQ&kEc1t?V4`=zTJEWK<|;<=SxTL}kio`upBj#?6p@
zvsiN+D`q!3A|EC}z8H)Y%l20|`TpTsd$y7z3LyX9UtnPkxuv+d$5+X@cb1A3{-dh#
zn(*-QigS9Pnr1)41yR1nqi}cqULfo1Tq5R6h2JD&!9Vx%^#}+iTqtR2X&o+0eX+YC
z)}V6C%+<Rs#>6^Kq)7m8B(T%PQT_ICl4U(VfAvNM3xb5C8{_{Wb%`}A!fiE}YMmMK
z{y;m7H}_6Xf?2@!c-mBybF|4$obCynw`B#@Er0*aA<dxbi^T{9xaX8yNY2F+>auF-
zmN^E&TN<taNzutrRaF&t9NjpKmE|?E9Do<F=$4?{rvoJ8;|)GwTmm>SP%0v<aZh!W
zIo(|iC6-?TjD+B0cD82i7hVR74k7ocw$BdlE@wMT?xf*ddYm(}90C3wIW<g{D!-O_
zCJ$Z71sa|CNDMbra`@Jk2sI0U{W-LlzSI%nReS3UJritvc>*%{U2T#*((#?4md_4h
zm$PlLgN*%S17?6sv+Cv`y+sIb9%wkU5`~Gv!h_S&7gG+=x<ct4Ds3<d@18OQF|WS)
zViy9hT!w>9Un+>qE-hW$G>X^PN6;S*!O*Jt_&*boOTFsiFXm7Z60D<)lWa)8B9;mj
zj<W=n^4Gz4JZB<VCnStVdV@ennJlRL<uU$PKv0nL`)^C%Fc`SdP$IAWbvD5zO89H2
z3>oT+sf3)~f<N@0F2)-iS6XYRT$GSQXd7mcXZ<KySrdu`8nwN3{=Thyf!E;&=cnQ|
zpIXf=FF)|ViWXedgy5E!?tIpmn94fGec$@9s{ASXO`ZVslK#mC4}6px819mPLE=3D
zmx7KvS8N#ELIpr+{#l1hYQ{V1@7Z8eTW0R!kR5i;6EaA&{)WCrx()y$<feP;Viv`{
z3weZ^`e5ma^wbA_6M5$yqZ=ZQidi3u^Np%xMBdtEW)&KYs#Eka$7+4AU#M-nXT01M
z=we88N24c^?JezrC}><c23F5&FhP%XvGMXofEo(2ggy_`#9Q}52;l`knp~E$QrqjR
zD=Ux6bBOln|IEYeLlAdh`#bvkxAaAkc%%@bs*%G0uATos?Y8Ut+;SQ|znn>Nh-VBB
YF;@JlhWY?6F+-^+KD<|=VEX3&0XXT<00000

literal 27367
zcmb@u1yq&Ww>P{o0TGc<DG^CQq+37%>5y&^kd)eVV~|QnDlOgJjdVyzcXvuj!#DT&
z-+RaX#yj2{W4z~#qvODiXRl|iIe#^`-)kAs+n7X{2n6D`xR|g!0)Z9?|AnF7fS)`T
zZ~g#(-O!U16-Hd5{{2yt7K%VTLWm2$RCJ8lm~?QJUM8#G>FEj)rg$vmOVA`C&l--I
zqotAJ8&wdFpYkdzondTbkSJxqxMX06mdK^W*As`_R|!M#Z)Kf8-$Z<ym8JE(q3d*>
ziZ&znGI!50|8mp$lug`njA())T{t?qC(fE$M%p^MCypTgvk)%$%UBrK2S*S+Kx_{F
zOt>pfB8X1T_SjDd9xFnLgg<+IDY4;sM8Qq)ry#|D`y{NXh3<yN#^a5mo~earulOU`
zOmJ@#a}3x$5JV?+Oj03{lao8!X(fB^ad9TSrEDx`YD(vEwsZ4vdwST879QgSk6FF<
zRP}vQQqnVfhF#ic&#)B~6tsNcTF6)D|2LPJ+(r`^N+Y}5FDtOK@|!}-Cxr3Jl`E>%
zj?A+0{DbgrzIuu95b0<R=C^G)f`Wp!q!P7U_8SlMTLTwo8+|IVU!luM;UE9=(X0M_
zIRd{uclqldOd&eAu;7`K!?3lrwJ}-6sZjC$Jz`>VvY@Oi?cH#0wnkat)tlJ8NuqZi
zQ&6yHTCVgaI665YFE8Aj54WTjJHj)RbBI3Oxc!)#np$YI$f&0e9-66~Be6b|qgHB0
zD3QYAf$fbW_*RI9k^8AHtf|RRHenE%K&r>(#rNpw`So?l<?h&>ogLkckpct>x3%Zr
z&2fEGQ;913&EDbR*3Ql^m;`h<BqYB+UcZ%JT&!4C`{h0(?%lgT;c=*|RLRqh;dhHF
zc{hwpK+rstqk;BkZ!ZZx`vYR)`K_(MxVVQ3sZt5Ht9?AYhOkx=$2YFuxIu?z@aD}7
z@p#&|Z{KiVKjd>}YqfSe*_XT0p^zq%5kW;sNvlz6mchotA}=B$LZ=`vA7-~cq@=E@
zO551bptuNkAPjyX@xp1jo3vzIfiAp5B!K7%+G3L*UU)`EhD3^dhLpIt9EWl53lj^A
z+%XQfx-yGNd4?+Y^UA(~0YwbjJk5%b(@)7CMn+VreoR!@EEA8$<0RIrk(Xt@r;&}z
zH|eL=)YLSdC@(Or2oAn0<bzGc%p7b!UW%M;xc*G5vgyxkV}@o$VP;HG5$nT;4~d4q
zbvHG6TGk%l@DfCO51-q@!b14ftGf>$c4sK0mD{f3Qiuj7ON7&9Zjz9YtPJPrxRc<L
zd$vVPWM0YDs`8f4pyc7<5xRm<43+Wn_Lk37e1b3?%8twk{I+~wuB_IUgM$MW)ri(e
zR~PMttu5QnpFa@;St^XJ=a}S8(U1JDDw2*-Nrct+_A)i{NJ>hc?5}=;{l7-eD=FD2
zWtW_sY^<rngNGMtrVk7D+-dh3!p-emYF$T~OAtMHni7dn%2K}GXK`*el26`P85V}G
zUG4ZGBjd^C+1?#QYY<tQ&2l$khgP}O%lVT5153+0^{~HJ;huZj>FVm54pVsIj6HHA
zd2z5dSWsHpGCceZ-V<wmsXO+Im)CWp?wFtL?HE_DUcI<D-NrJon5u67aP=lzuB=u7
z5qm>#?^jr31J$^gm|v;V(F3`n=;Xx-BbrFp!%2t8+VeDxT32qk0E4!#<olcB-~8}s
zP)lULG4eB8t;o1P^){?GEk0(8KjEjKpgVDKagL6TIJmeChtnSM3H%fk6eVj4D$Sn>
z2-!{XzuaTc`!n;?pNJjPOYrCZYQNv-&mH~9yHLbx+L<*gNdlw$W##2V<TDiMzCBe-
zWaHpaX5eIEdL8(HS&-dU8GalZ5)#I0)UBwlu1<%R0{>X=ul(+SJ57hS2nSKoU@#+3
zE=i<Ay~NbuGjC1pzHTWTvyKEIA4A_NSm+KN_v2UI^O)pQ$pn}wyIp+FB>4EAp`mym
zK76=t&(;gatlVn$%J1L5xp;XM3iO)II{DpB6xmN!p%NJ!ZcR>9+R+amWXx|(R%zC{
zMvj%d%R1qoN-i(wl9HAlt*|jlb$>`MT##QlGLb3&Ei#gDyXH_kVtsCI&UmztDmORx
zsb=}>a5g<Xy*~#BUDoAhG6#zyus(Y+uAVrL87Yy*^{}5=3_9{{SLG8E6ITW@@Sx-w
zY>t&oR5=6<W~r?62*dt$2;pKYhSRe2E3$Fg<Fczq;8LnRgvzA%2O1QSzO`^KXcUU@
zptlwlfn{Z!Q&UrLEOZSGz2oBiP45ZflZ9~Y)=x}m4wIvkHxbk5pq}vmprr&q-pi#+
zk#9fVTjsW2K!;_09_agsgIZ)*w??jonp!pDiBK$$opE0>hIAC$OC24ZVO<RJ&))^(
zx#FHXHT0!Os#Ta09Bxl06{k=sz2nxiFnNU`siEa_DAG(tZAJAortX5jK3O~z%3?#m
z4MM-gKe#>K6GvUa7*A9}0+U`PcVRs*?d!)74zh!}8f>i$^{O{A;-{&Tx2oC;>g<bj
z_e3Ht|6J9PiE3Jo_Xza!^UD>&6U4XnDh#4vV+*@+o0!G$m#Vt$diz?P><sq>y*LqL
zL6$s0(A^}pSr>n8idGiO3s=+O+^$GgBU{oaoW!s6wtn+%!4%bdGWv50x}&*QvCi~Z
zsHvv=>{PEud`KWCyG__0bQ<_ZA%$q0)3STJ?lN~h-xJ46H9>+zqs$`3E}CP&9%-<}
z=<!A+B{Nruj;%v=oXOx=ea!yy!JRvI?lGt*uYZLnC?>4VbGe<cxt$&)nI8rbG8^23
zlQc|Dz~g*!f))MzYL@jPp@94Ia5|-i$w@8L%3?+eBAb!hQ+&|hkk(G$W<!m{`r0TC
zUsA06L3*6*Z_>Lxg!4!6xrzDBdm0hTaJ{*P#g%p&40Y!HEX(x%dN23$n_t7ilGm-^
z0>nPZl8l#{&-W&L@{i#V<@s46rZfHicTw$pckK96wL;<HS#)yD;486QxVX3v;7S;H
zsua>@c`LEg+6w4Y;w(OiFu9#zU7R24X!%fh(o$mD&K;c}PGi(L1YOKiukwUF&N}T4
zULhpP*K5Yq@_GEPhp1NBGX!XqHg}Z9<O)40lz0%`yVe+&tyZNxoB;3VcO{xDPQar(
zI7!s0Oxi`uM}C3bWIQfkqpaL|@pG=wT|xXS*Ex_e0v>S-$&@i#ns%fT!77av4`Dw-
z8&&`3MLxibeEjr@ncg7KV07-lTSKe2e>hEVa80wyUiv>C5y$T)@#NMmEgw0v@8P90
z?V&W4*h1)X==dW|!C$|=PY4dqZKUPE3h);b6YB-w<SY22o*IS1t}7%swd-0;R3Kv&
zZn}xfNF<gGb7}b`S+D(I6!-IEdpE6ydK1r<&t`Lu_XvNEY>|rj2c^j$5b;Qos4&LN
z_hrl%ua8FeMGPU%{x<5x3Aj)L){~<p7;QoxoN?pM&l56jNjhT@rxbC0?2grKoU?RF
zb9$#Vw=&@H$Zuzd=ZiQx`EFtxb>PZ!4<dbQWnbiPnj#(Afb*hD)*Y7xO%+o*Oukij
zTtR%PS1ic04OX8b_nT;{b;kVeRi%5Q)m~4(b9qA(=fAW!@!qY=JBuswxx?acesBNa
zwkpr!Evx{EUYnz|vjx6T`sJQP%O63ZomKwdS@87n6b4JnKIY|*x!fTC#uywECKeu5
zvbxD0C$e4gW_18V^SL|z`{vMAg|rX18tdZPKdUMDe(}@Yn7E$lyyflvC-e|2SEp9k
z)eI|~)U?m-`+W;@-t-P*+;2F73*R0emz4SkFr+Z#Ao5EYf&#RzBP_0IEs69lN-b_r
z*ESPeveGK_=Mq_H-=52!e#yW7JGk}E_MUcYuIgySa((HvDwD3iX;r6@49ip!>nx{b
zZ>bC8)b>DtOPOHgar=v0Z7v_J@Jv<Jam4Fd38fCD(wmQt5(U2X#K{lZG+$!H+ikZ^
z_7WE#u6${w(T6=_w6&spR(W=*P@PGPy27-_PR+klrXNX3NmtmeagjM=cMZ~yl1)}g
z9wtzr?ioJj^^O6>7W?hC6ouCJ#pB}i%TkTKZN5%*XD=%xln_V8f6)0?M?UgJ5A7V6
zNs3F0Q^5uBc?Tw%nzu@w%F%^qe~(q}DT^*sXh}6w=MxfPF&86qKi6gM;<1(M%Dbp6
zht^U@&`ytS&cwozS~l#c6z?S{8^m*)=<eR!^}Bb-aGcq{YW!5OG9Q!)XG72_=5+tb
zGkQJ0d1AUrv)^GLn5Vg9uEMF*hhSo2`k_=7M@d74oISc*GLI|hd!|g8$5otQOGxi8
z5!RN!!LZkdXliZwGh_b%p=3JLQEZ;Ze|2!G=R98n!BrP}Y!Em|8hc4^qp<nUWwjIB
z{PTECE!9AzrDZfig)Ur}FW_2zAGIZ;uIt6q&GXkB_5`dsk`hub*V{Vxvg@8bgYIY9
z{0vE}puoyd<v_1E@7yP_l6PIRt$3^VuK?Gd<$EP-Pu{6uh`CJ7E2%IZU45fb5Yn=P
zK`!k6MA<LN%<J>>N{4R?3vUMtc{y|UX8tk+tY^+@-lx#le-_IVr+XYrJgj!KXml-(
zJG?7`P$_HP6N>nKS(5hRt=-7bmDTnBA0{>d^LX&t<+E``yUNx>W5Sve#q}#(mnduN
zEDe|1UVe`X?<>!R(`vgZ;F<qU<=B0UQt--EuHy4MOF?8_wYB`4E(cfZQ>#f49_FKB
zZHtnTYftnQB4pfd;yP1(UF@%$vu|T>u=FZKX549YJM2v?;$6HXZlQ-#^0Hu!WShg7
z>*xLRo$(sdy2<f^r|%>?bIH(5?x2}wPJd@aP-%Fa1iRIlBYyao+>ZAs^N+IY7f~8?
za0ybkBhGi&L!B!ohx6^owH=Z}s*ER3HZ(8sTsZSo7%Zo=$Qo&S+FnU|;XJ;i4YSM_
zWv8V@r=g*_a`h_G_SczIV`r*teD~OG;$!zi0ren?HF3(|poe-oS%K<#=uWXm<*E(2
zTFv_mtQ{()t@XW33XwFI{0+%(#ib-_!_E169#fPPka#A@VPp<ucWI>j+9QdsH1vP)
zB1gg=sMoVrYa|l+Ju0fuW?6>EA>tbwrW{tz(|i>YD#-{+@@LO<);JjT{hSCTa|Vsf
z^dxeeZ`(ZG+hrvhePV9%%B}3Mgdjp>PG6sym9@XU)(gi=^26qQeo4uqc#}S0OC256
zh0#zCGP%-?_0VX*NFz<N3k$+}f>&la*~#eW+3@b;b)EC-a&gy0a$?*f$1H=s5EC2w
zL?IPxIp`SGp|%_Rk^u5XvA;`Qe+^CX#RqAUlamu5TV9P-7Xx;*ucl_TJm!{$@agI4
z|LI}ZFwN!=4>-&oaOPe!bZ(O|?)k*48^co^k3#Z1_~gRmazF4|tF~(;eXvQ@*j+Mh
zLzY7aZR!$$UhQv;D*RiQi{(N96lkj%FFRT<3#i0SY1<K4YhCrg{&QYv@ZbUdNbsnj
z@0HYg8tj`lZ}O7~#KqS|ORt2#(DG4uEBw5?C!~FTb#?Y7z;IjAK%7LJCx85|z5xJP
zY&`WbGTyP{?JIR0GU7)6;Hw1%#cvls6I5c0qRX}6e{M?1%j;<gAkHt$e{=HZBINn*
zqordT!vGRt+Xa1~q+cqIqg`_Ra1xDa@%^s;fR#8q80MGSCve^R9r?8$q2;5v^1Rx`
zhmn7)BZ;>RkZ+3hVn-#mICM^es3x@671jnaanHpYoez!*r$x=qS8s-dhS-uSe@K&(
zUW6L`VEZ=)y$x%39Jf%7^MNgC1fVWDMR+U44Ec@GqG(1M>AB(U`*VXS>}hv4d#nuw
z&|WUf>^bG-K8@uGzHmFST4=kwv9a;bGjZs{^qCG04kCH%=zy^JU!K_*29gLLODGwS
z)v_K;PBqpl$8w%X?0%$tMjbUyK3ooEo5uAJili^B|DRT`Tf5Kb$UT+uJDP%X<x?ci
zY7K6w<Z9{;W-6IY7kpx%kGS&2*x0imBO{Q)wFq}^UQ9|1@gqBjL95DEcYZ7$MQ;Ns
z0CZA$@gS446w<J7-GBCWw!zEO#|Q7h12JLYYXt=bmDrmBEF2sy4GmXBMMXC@H%nN=
z!*K+wGsP$azbU1^{s0oe3J(^!Cv737)^a(hE0ZDrL#5~6^^pISJoG<((p9aSUsXhd
z9)eCn&mBR?W%UR&gVEf}<K=j9F)`Z0aTU1sKvG`ADs2#~5?+Ifz*$oC<Hw_zm>6^{
ztft?;<>>8h+`QSJDovc2lvKokckiBeMTJx8`sU`Q)87rX;0b;XjtIl9DCA822eYza
zVNFev)YR0CiHgwfSl)LjGUUPug@wI3$bn3yFI5iPOBsQHvI#~vL16e5%j>YKSO?3P
z-AjWVTm<UPI?pw7;ky*E^Z$*0=EaW$?)DV}kNRJ$&VhMuHIb!~XT7&14S4X)D`DZU
zF){u*IXV9z&bwY0pM@4Svhr#ZEvIY$L5ZIKtyK49zY*CQKrE`M8I#+H1Hw&GFHInD
z*;O9TD_vt_>bO}rf?1eubG;Fyy!Kzeetpps$7e_SS-IU6)Ial3{=my$QS4vDLjg%+
z$;5D>IJ)EhN-*kze4n-xw0cxmS7SCY#3qRb0ma1Uv0D=!Ei|x$Y9RRbvERJF)f-s7
zcIbitE8B81Fa00#MS)h3=}yLDORKG|JyGWoKUL$R0H-xmDXZnj%TK<3esbY^fBwAb
zj^U2sLS6x~lAV)-w6$#-ACCsCs8n%rerj~wo$j=^^gCOPH6%2Y5Xzvy#SsMp1T;M$
z@5dv0(9lW6NiMmab}4=CkSU+L@65gWyD{3xyItKlS>>=gn023kUimFh;Qj4s9i^?A
zpP%4^d1I6EeEt5tEnl~hiJje`FIgOmm_tgbdwQD8!{buw^fm^@>_~xra%!r4lE`h?
zj5l9^;*qXh<IG>GicW5w);pc4UT#Hx=i&1=7iY)ndAv`b`h&i~;;^L&kPP&!^73*k
z&?~SO1%-sv^53AvyZt3ZfclUOsu=15WciOhy>Am|mec|JjsfKcYFIl^({z=*xS?@M
zPaG$ul{~Io?V1i?!+R+fczAfV$4kWU;s|GF=kkh*y95NU939IuHCOvm2zl+Z*Btox
z_-aqq=))waP7k+xzKskJfaurgbH|S86I9nH`+gJxqa!14%*<kRBSGCkfKZWXfQ^lv
zxe(I*`}bY3Dx%+1kwHS}3FaYO)^GImLN<9olsj>7u50R)h<J+e^~p~48nBiMe;IUg
zTOnMZdlThIivGg<d?u9ah4EvJ!f6m>#a(s|5N$ccNz|>*PwYTnWqGOrB<y|Wrz+6W
zJiWYvffCZ;;p2xH^ugZxC<U(sveTbgAF^Gb)wuZhO}`>p)e7HY@VWd=Rx2_@uvtue
zZ)y^L&d0a2x2F$cmFv;04~U^g=|EaL5ZNFMf`C)IQwnm#I{wLQ`Sq7s$~pN(MM*A)
zTbbi>UD2FI$GeM}Ec2~F%M0zHW@E*EAphzb8Hv`ppT95mLG+iH^xsfXQE@+-y@^_M
z0Z`Bki9sIAOL$#7(HY(I@#9A;YwO1#D6y~6<^kFB`|>5p{rp5dLsmgqSs8A3zU4GO
zP`nNhCQ<J!6U(C(;c<4v48l*6#bjlqh+fSG?C9^2k)WhRq#eQCZ-EQrwwienw<do7
z{(T=1?sy%xl0h<4&rm>@OV56~uR?O&gdh9Xty^QoCZYO-@7}$GGoquR0-vS?H}qF4
zEOaTzAHv;l`Jo_}iZ44p45wGY{s%k&bF}o=L@xYZ?EGd&`Vs1uoOSd6Dd*##G!<CQ
z3Q|jb|FO>GiIX@&yB|9bBJtu<S9B$IQvGLN-$&fsgc=$kqyVRWjCoGr(-!&9Tf;s6
z?+Twg*H$@l-rCjtsKM)2h4X=F;P~>s>EDK0H(_Dn(sdvgoKTY-CtXS4EVb=$2Mu>A
z$&Hld!BGob2U$tM%l*cS9m964_k#E?^eM1C{}&cT>~q8l=;g0pfBnZ&c=ALXrC8ZY
z(fH|~9qm+(<Ur$Na7>a7yak<bf1w=-s}uD<wLJcdo;LrD#M{&JPdiQg+p1c?VNZ2x
zHA}y3?isj{du|y>kf5QVnN5`6wY1!R%1JAicn!qGu2Ml>-YOCY+VRf6PNTK?AaBm?
zE_R}HyYzHg5IjB;y1BVYe0wHcVmg=(Z66w=dIo3zII_%a^rMf@&D}mta%&nEmXLUl
zi^%EHv%t%WBB)=9X=$S3Me>!{()g?Z)tiLt5cN$1VG#`KeR(=Mm3He9-zW>^Y4(ul
za`?^7%{!ZA(=0vX#BOd^C&ujF%GZ%|an%IaRV3O`QDFv!g}vRHtZW~=brHk8Ai2%&
zmQQc#6V&4XrI<p+u7kh_M?K%=&;lBTBMG5jtM6~yjd{NUzl_{Q+{dB5HxEb4fBAg!
zxRB{L>{6}JyUzY@XdoFAN{(-J6sr-oR;6u%>7>Y6`8GPJUQfh@@Ku!;J6H`%@9@`c
z&Vl&EX0g!$dS#9rX$Y6_2iyk_+MpNNl6tF$goLb2*9j=3N$WR-srkp(eP<cssKk~;
zFX7@EZg!cEXLHQEPRe8Z25^O`CB2^zJ}tbNE;I$`tqe&b0eb7D=2E9fQc{;Yy>?uJ
z#=n3<Blo`b+B6x9_&@k*S$Cc~WZ%dAO!(Q+(a|52u{7AH#AbX_o7;Hz@h}wSnwplo
zd(S_k#l<P+Y7(lb43m_#+cwLUS!ls2`eykOQ*MNm&p8YL0Mp8sJf!)-2Y99+{SDa|
z2`v@QN;?~mO;*uJ;Db@@kz7c<+UqpJx)C8E4QcW25{;={$5t~;DA8*O2qdffh5Q^I
zUL?PpbGO0tYbil|40`44nU3%*tPATXRJ&f6h@g8lU4W-rY5N33)X|7gz;;ovNZ*<D
zsYy?<etdLehgTD>J^FFls%W3yo;_Mr#6SU(5c?(oq1L-Wt2}Rf;gudw)9&xDOn5MX
zZb$L>@#9Vw)WXkgZ2W^%8r%8+za#CD;ln<@kMmY<lFI#fvprR#miw)V95W11#?0z!
z#yV4>?Ml2y`tSlDn0dmrtQ-vDu{WL_9UmK1XoCxB>bSdrfzoVE%|)TWG!e_C*pps)
zrqgY$mD+R{2j@{E(#!GH$-CE2JMaA(Hx@LGPLWo7$nW}nu~N#9f{W`r^v7kF*Mj)e
zfO`?UyMl6N527O|IjA{0?RGovk`KI|NFzkAbNVEi7I<}LZ0(bt-D1gQP}g(JI>~nV
z6e}_|!Qt6zxzY1UNiajJmH)i*aR1Is`2O=C$!DcGu3~-q4@R=OTHU!LRDl~}D6G6t
z-_Sv{Zf)O8r&b%NiS)ff#l(aImANB=A#45h?kfoimdmMIX`Tfb24(~A^an!4e*Kb6
zO3RDak8JXEEQx1!x_A6Qh(cc?DsoY^C3!(3jEO@oOGbJ@G&=6=RBTiKq;NPk)bEx@
z8}c;mZqO55GyheMQL;{z44X3>q1gG%+o-z$YWICq3jxev3n-3?hN=MAKJQS@V`g%+
z_txQ=GYfMPd9or3rGiw5mh!TB-6PVe?IUvbsod6FogrN3MHVW5Y2)9`vE({3oxLwT
z-u7S*x$=JT^|^zfH8*K?A+2O`>{Hx7=)Z80C1ZZSj&>huI`G|)v@+kISsoOzEA<6(
z`YpdM0(ZkVmF(h<T*yFsqL};XhJ}S?JW<Hd9T2@xxq19M6~k?!f)w{xRnGYQQ0dk6
z`%Zfx?|5jI=h|zo#f1`5JjdYixRF)3c;r6(a`3O{;nv%dL#)SSDFM$-K~DfqrN6VV
zgK)GQ5eX+MVdJ@2ZOt@g5M9c>)GEo-`NlZc6W>p*exe&hW{_>p#-BT;_y)HXI0C4s
zKa6_fDzO&>s@zUF)`#<GC@DR^e}4dU$Yi{f0gS=HHTTbZ%tIydZcF*+%StcCzD|WL
zynQ%<G5<4`=}J%BT&tV=$~rL)@%hK^%RSud4qx5sE)v&bq<n+s^B9PotPVMfhA%Md
z1MRZZ*bj*Z`SG2dpMUXxv&{I;5q_sotMe(YmY=yN9`ArMB<p@R@}$=tV64*kwOHPO
zL!<cofrEQg|B(e4*Flg>mVG&%7s>n^4W8Q0xeK?)nON?49GUs&FMiZOn=P*2L~i6w
zf<$I~MxODP``A(^mFm*N&dPRM2Be|zggwXUygI9k5nT{@Z$4tDy8a?*KHfchPEU`e
zDGG-yFH<ElDsu-pSbBw(tQBzR=ZP{YyR-d%Srp#^D{O9ky>n;26@0JRPj~o#02_FI
zxgGS1`13mR5W4|*_U5D4>Rm{y3b+1n50P?<TIL}U&&%;zO1><!n(ZC^<clgc3F@(|
z`d(p(w@9aSW2UcNKjwh9t*8y1<Jke)4|P(bdzRy^m5s~Bn_Fo0YIUC?`8VR9Uwl*E
z;v2O(yQ1T9iN~=>kH7&P%P2Sq^h(`xK}&$N-XbFYaR&_3+dN|Mo=wfd%g0=BU<C87
z=@}b~RmHg-jjXel=(l%qi+_s>X<+<P_bNj%F)gnr-EyhWah#v$05;Jlm(i^~yH<fR
zZ3oRgp;UTot*+MD#l=^eniIs+dC#t2zs_vEAO={rz0`ah&^`|$I5=49JJSc~R7}Rb
zk1mep@8oRcaXp;>_=t+?x{#32+=o5U^O0gRw1X-0&!<0TZI8;y5UG~o9r@BGlJqS-
zIv;}zm=Wg!(VlR-5mv{)#OLPq`~uw3Ui93Jm(K}gMa0e1%$C{Ex3{;S73tFlOub9U
zQ~+P(u1-%wZyWlsGMUw8-*tDL3at07hue6^E97^!JkffSrEj7Pp7$Nt>=h2{)INu1
zJ^jeGAP%%&nniwVftK&^B`vzeD^UW3$LT%9rt{wfx4h!r!8I-$)+0=nv!1sVlk0&V
zCX(+0#=dUZwGO5@WoZsZhhAaLG_8M+=Knyh+Pl(xx;7SIcdArmq685lA|fJNyCw=C
zd;uIQtZ$`GawI{>mv7z}i+ut45a;~)XX(y+ObJ1}=TYo$$7Sioq?Pm(6NSCaL95F-
zd4zDRLgJzL%bhLn4E}P2YwZ#Kq4OXzPbKzc&J@*Rod)IM_C&|)H1lSO2SkJ!?wpMJ
zz&;=-a;I@S)7`<DW_}<+=2?Kv;NLTg&`2kffY2KYTQSKlR)?i))9f+phN|EC*&6bA
zFDecy=cCA`#O8d1f{Xw-D`qJN;8ID<%*@n71i)!$&MWiR%I_qQ7v6YpLNLL~!J&0(
zDh@3DLW@ZrY!a>)K@a(S{r#`K`M;(&mQqeV&rc82fSyO{MRQs{gvPDl#^vJZ$Yj(_
z0`&O<K(e8sAub-Cxy{Yk*@evh)Zq#j&P@T+9Q6{G90gi@KoU&O`zu&wS#f+WE#Ltn
zt*sk|hVD5y97<W{lR(1a)6F~7&!5MDC#`F49=pk`oW^fnTvATF-#m;J$whFgZl~Be
zr<XWdx+LmdiUck7t@o~FI7`o;s@e}|XNS6P-n<d(^N6kZ`d7Nl+lFs2NI$8CtD;=K
z!nq5}?t$Un%k<AQCzs3pO~r4$?J#SqJrv<YnQhQ5@H~|65w8sUR@+wNtO?D_sH$$5
z^fCsNdxI+2EbIc+!QDF$g(-ADcRo2-7d<~Yz_@+e05mL=uZ>3|gRt6N5LaSBaDk1x
zIbPN}Fc4<HIR;8#(6?{*3Fs6bLEpZ9>)sm^llJB>_x*f*-<<y492p<)hj4^UJbxEh
z;{bs5AQOW)Iz2Ut92621goMs_)5)KoZtff&8Ug7pHvaulx6!-6<I<g4I!ahf3>^d&
z<tpjC{vR)|B5q)lv^h+>iGmWu%ye}5WOb^B7xVy?a|nLO6d86o0yBdf*g7#m0zNX2
z!<Iip5Fi9|y$^Q_IP>aA0R^D+%=2nz|G^wtVsnOWsHik^zpt)wy2abqoZ#-AaetE`
zUG5DOD0iHr#n?e^T+XYYEVQwu?g0O!PtW4{GuH4KG!h=$GfGpk>vc#Cn#We>=cpcE
zp7OecEX7u3xYs$(8ON>n1aUmUuaGpZ;HFvaP{~a^IRxLS_$1$F?QrJHMa5^D*aSIs
zYp1&hPaAh#bUBMAmr%E0;gmpBQ1A*dhuIIf>};*7h~G(~MUFdq061GwEZv=N?@tBj
zC?Y`*rTuWJxE!`f>dtm=0kdVLk%^gE>iTt)2~>+(w^M5nIIC-FxNTQ(ZWFQ1%>10N
z!-6~ui}@Ja#o3;$VNYDwYJZx^@5JlxhO&Q7PYbA+cXZT$xN0(8%Xe{c0XO0bgjaa%
zH`-#jZMZ!6ZCWP)m7w3cH4kbFaGw~U#MWyAPoluUhPaQ@?t)+D1_%YTD!C*;G@GXd
z)&&gh*7}t-29>@p&$s0ezeMw2oA@jjt5L9-M)q$81+#r=Q0A}x)*u!$o8=ZeD2e`_
zM_h^Vq6PZrbb~z04pB2R`=zGY7fajsgCCIHsVA(vx^E)?jbD1LP=C@iV6HfCG2J<L
zX8-5;#O>Q?Gh->Yj>r!B%O~^tUPTv%M%#qs778&awf?=xsoPl|Be<rsZ*;t$$5m}4
z8aG#%Uy3#}eL8zqVn6|<8lE`cu+undv4^TOyL`yx>FE8vy?NlcnTw!y35$v<<ftz_
z;bPP*uTPQu_JH4&E1drFQse8tqDPS((ci!S>EfJD-&$V<U43auL{Slcc6OGiRkPC8
zWUy>=|KvYuIZDxm(B;~oPK*>8-4XJ}`q|O(xyI#?#cB5~5r>)Ym(I&+pUZ`IJPz|Q
z&o5tY1rT3ex)=TbGEfHT9-!8%P2K2E<~J`<(z@=%A2^YzR7Vb78tqMg;dR%cB#LRQ
z_15yZSnv@^rN``l<p;?5;bv<v1qBiF?i6IP0ua9X8XS2xv!NJFu(tS(xe#gCCw-lR
zelHocBAFXP(`kZ%b7qQAWMm~r5<ZOgN1IW5doAA9>}8$<3E}o{LN|uzuT#Hp7|?Jo
zQ^tZbcD3%izhJ_P$fyq4Dc0j^6_vjh+Cg4QTRi3c6{RN#G2(*~vo+z$;jHfB1UDs>
z$7)WK$gVrbaj3*hB!@XsPrN|d%TG53G8BBEOcsCyBN0X$yh!%e*qHV!N5i^OU|{63
zP<}zd&!d!Xas&t|h{PmzGLe;;nI95@d0U)pY;3Tb0|gU)K$a<6z2tLm?`vQeZ6Hz_
zL+}o^x9#RwIB3Ag%`tYsAt0JTO6l#9TA4*GU8yaUc#wYHR_WNS_Zw<_$--@+mO9tX
z$^68<uuIiVdhA0JblKd{5yf0o*Ew)}W<O7DOUy;W=XQ0_+{YoR%&=pZJ(I<)Rq9QB
zIU_SLBR$vWms7H*A&OZRSMQmP#%863RNW?#nP%2W-<lK^2uf@jKll?h8=F;n-;=|D
zigS6vpli&*@Fep#is_~cV}SoE1K#i||NdoJsrBBz{c`Qq)qz%pK|hFTNv&J(?L62q
zDIHI@(JYZpa9up``FAa1yZSPr`YEJXK%gve*w%igS^ffgFT3f$3^dJ=u`!4t3BG+x
z$!R(D7BWZv512oK9^MB>8|wh%Iv*%GAY75sDQEk_4uoaWtZ`-+sxawKW!7)O%GIn8
z1iB6CE+soVyFvvBVg+ue_K@^oVqt0M=)mOU<b?X+*nWI=Z1bzD3l;h5j9^g6lI9kd
zkkA{>)ym{}o8quNWj0kE2?q+C69OpOQsC$mO2r}IrIVl)vsq5X!2MHNcB%Xpv;#4#
z!Cb~Xa|TS1_I==@vM%{Q0Jx~gU6wl{eK>iGhWr`!y7gi~QC@^@a#wGu#q)BTXp!x*
zg=m6xNLf7Imv~f4KyUECYp)P0&DI1u`N=UW9q&NmFOM?b-Nzg!*E#cU=xR*`7TP;i
z$!fnI3yTHfHY^7x0C&^7d3tyK&X@iRw==<9pAl+sy)XYVJk2&Q+_dWHLJl_7PIKfV
z6F4ED<zzS5Ar(8nx`#BTM^aK#;}R1~LJSAk`VCgYUo&9z{fgs@Ht38ffLs?;<5=Bj
zI;Bj66=+yee)EgtR8g;K@zv}DbwFk9FC^x)c&mQz-n|>iTGtm-rSn*rnBD-S8yOwF
zOF|N35D5jp&}q*Qm7`HFHN!~Ox@`{WL7|HONDrRKb}Q$oE9ION|5o1dFrZhIujvpZ
zz2WUWkgXxmieimcR(-BwrZQ5~ERF5W?BfTWX&x!cd<>VwyC;QbW}(!`!OUTt-m@6W
zrdH;SPlkXSbk&9;81LsLYo>H~YE^Yy2yk3|qm=u6$sn68Pykg3!ZU|^9ixXyRm|HD
zHI%^0Y-nis2=ZuF#OT=AZu5N|#2*O#NsV)Ha|5oa2N@_<_xRuB)7-gq`4mhDG*Z^E
zWi!yy(soiJ|FiOp0L8ddDOx+_HLdYL`d!#e^DDozMYBoxV}{6w@^ytWRq_H$O4w^_
zYYE2?OrYUEefpHkhI;*GP+_8l+n8|{t@D({gm4bo7uRa}UL{S`5;)Zn$jLsgaANmO
zFrPe1kGra^HU4K|r|!W6qB-u1EUB`pFCngEf$K|4-T?u(;XeKl^uip-(}{=slU|zw
zV5Z_~M|XE1oQ|3K`A=zSG=NMzK{bR((=tyWIHn+JKLp8}5DXMfi;4R2abg=A8&F|b
z!lcE;XB+Pbyagv=AYJYgFxi5)?YPc=H^foM2JmeQH0Tg2Nh>5W0d#JuC^ihxw!y{_
zg|Y}*j{ba00F<rXO1pRd{{G*29iBl?Nq_?+6~h$_N2@@;6&pOVSJ52iRyH;Yr;h0w
zI<~gO%42i`3LS}9NaliSgNOr#&g-xG?PCX?ol=h{i)%VDuSHkD7Kwk~PlL|m;0;L`
zl=eWUoF$VNte>G&_OiD1M`vBQt1OA3p&{s>!Dv@+^d>f6>JWe@@e8cjqVt(ZfYNZh
z4Sy%T0zV)7Uzu1Tus9;&Fr-MB*ypzdk@Y~W87(%!gUf4x6$BMN<L^Ns>{*nc4|2Ow
zSs4myfPA_)kgCGX%WLyz<|U*|8({~rX0tLg|LpI_BO@b|h>&u5@D5y>rj`~K-G*zW
zW}{b<CwGZh-lD_W4;>K)@*J3C<p}bD{@7=SuC9VVp4{7?)FoPDyeG%_C<pI!(I|iF
zn%2W%IK7a5{@K_lw60*#($a#9gHsRHF~6{|0Rptd#0Ssr$Md^o5>Xwjro|V6L<;rq
zAS$Qu@6nDvlqu24O1q-7A0_bc=4LOq)4x0Ws|u*16&p)xw>HqO$iZmt94Vi%0J{RV
z2o6|3P=bLkB-*ZK^EN~1_ovsb`@VsJEu*86kOv)d%8+pzGhJWDA2{YJ9t7P|H$iUM
z(Vdx{y?JnuKxKG?ccKr}-rt1=lA2mtYUNf5bS6zrO*0^tLq)YF^(iSSStB6H)7RB~
z39DSFl_wr;o%ov8%F3$#=g*fpyKo1q52sw5#?n$zOOzKHzlU`F^Yf<dO791NDe}3R
z+&ROH!brI{OY@GAetsAR9bvj~8zD#fJ41m6<&yx$uW;CoTPq<GG@b)kxG`N9kDPBo
zS$!vm+d)-TE~P5=g1*@V-;cSp!JeT;-FaXOC?pSv_mz%LyjGRH$-(&FEZEsT;YwRR
zzx_Tkva^T7Z<)<Tn7}Dn?M=7}!cWg&W1=9w=ygN>K$S?y&~I)AK&%x;62Oc}Nb};f
zt?dSnWY3LE@UTxO<w`zK3RgEb)WL(BXb8o#_}wtJP~(|XQ96#7)`!R-3Yw**B}+;Z
z-?=ALR9*nGaq;j*3-oV-s{FIBF9d8Jo0)pFoICh;6Z1o5_2p*3qQdnOOgJF3vv`%#
z)44m>e9QfK@jj5#Pc=1esrSV&<zfihx{-3#B|t%2f16bd)_Hi$UAiba$bg<ECL;qZ
zoCTGl4idO{08Rizw6hMrd(!$-f&keJw;ebTOdSLb-yiA)bG1;*=*^oKkZFZ6gYv4X
ze%Q}g=Oi#V(C_?Q5MLQ3AnvYd`0a&4m`EZ87hX`k%t9JmmzAlSDiOvn_=#K)2>49k
zCHMhy@e(N^5MJob(-Gi5`y&*fqe~%-jCg`v7zXQjCF;Wmv}ezrfxQ|JcRus{1{%4r
z$T2^e56<;huV3T9!VW{25#O1GL<OHXgw3-Tdv(6e3#KM6j+e>cPUktJ>1$8ax<wzX
z598tD3Q9>~{r&s5*nB(!L>N=@vCDB-SPTpdRG1~}0F(UleQ}ZstBn!nmOxTTC}w*x
zT<#~UG+;Ua-EVDafiVA1c;+9FuqGX*7xU^a`qW!DLF)oW9|l5r8(xJ{iqOlKFa1fl
zaUtvi1||615M<-0eEj$$fJx-;LOV%3UvC(2RXl2`UUj!)awev)5K91OoLm^261ma~
z!ne4T)Z31*CyII6S|t;3(;;51kReY6=5vzsZ4vF;518KHr4TVr$vs0!wS#9{V0DTw
z`%&=o#{npk%TZ?ssQTg4r>j6WmtkLLvOohsAt~U`GqbZFpdkeY20FU9WTo0mA8w4Y
ziUgAQLE5~uv=r`W5nv%K1Msmw!&Sl*O&a_^SPzk=gPF{rR6$0ZB@FD-r+m))Kj3G@
z7L!o`AWSw>9N>Z1e?YN}9D0I}>FVnG0F(xR(ZlI(uzd`n8bXqU)pUS%FuxxdC9Bm;
zJr*S6Wn*n9n>rzdHj;m&QA@hrTwOqMG-`wm2*|`uz{B!9T#_cpq((cqNXm`G(wRT-
zzm^A}AfKI|M+$iGGpHB88Ohg0oqkXo@8aSnMvXiH)dTv^4pc`}DX6I6hSqGmH9-hP
z8}9n8`u|omI6nSepfBnl5P)=W5S5h;f(Vwe`CR;s+kMo<WDqNvb~_}6&e+9diG+p$
zC8cW3!EXFMl<oga{$rjyg|xMa1*|J9lVG5IeL&XpQCy$<@2~|zLPH&o_&lb`^IB={
z#RvZQz_j7E0`<}1^YJp(=f^hA*q33I+Z=-uv4VV&OC%nlD4@&AngpetP@5gqtWoU<
zC~&%5(habWg+)XP-~7D7f4af?$ebk(1~lfEms=rVVgk?%o@4+GJBG*ZGt~d9kXsM~
zwS*f6mcTOo0c8PNxz*MLH?>Sm8;r%s(c%LKL!otO_K@+o`UAXF__@#Ca*qPQW&~__
zNEti?yF|0X+6&6?a^<<WxHyXEz+0ich8c}04)f2^(Zm3&72Iah6w2HHX)OZ{K$ZBX
z>cwJqujc=Q4ZwgAK#fehz~U6xXvZ9OX4-8r^J|ei?Jv3?^7}5Ai?dmbMgU(-f;`ql
zu*cC~8%Er@In`Ac&q9J-cPuiH+edU<z%sZUp80Ou@^x~%NjEZfDpMj}s<o#l2=Yzo
z5iU+ncS%W6-lt+Gn4mc)H?V%BrM0T)xOvHEyuG|Qhv67cxS_LibBQN7*ML;$fp!O2
z+R%}`6xz?U>)vgMyDP=Rr-Hf<TigZ&3Di&!2yaT_SD~wY032bGa_;Tz4N$}f&JGhy
zhh=AHk5oA@!Z=wfXic!tGt0|2e;`j0hTSodi{?zyYyAr(esi0U?Tk5IwyfMIZW0v|
zkxwvHuZtCwz4L7;$M{J57GwwgoI_SW(W-PPWeNuACQ+KKyqEErkBW*yi7d4jC+~>Z
zj9<WVqeK=kDrZ1^e*wCb(hzjp1M+xOKI1(woBx<PBD!-Y2y3zL6dmFvN}XnAW=tF$
z-LIdy8JquW%;?3KQfpS<VHSMokC1igO%S??fT67>cmdTqcRuh(l3-d*v)VBjQZuFl
z{9s?f>{Q`oUS+Ffs14=kviVvQH+_aG`yOkzFVD6{!t&mSn{y8q0>L-Ca3_CxVdU$&
z|5g2fsIMZA1}qwt@MGlCFeMc=D#mSg=|n(t=d2lqAo5MOIN_%(&O>EHgZCjISjtZS
zXZ(QXa_UZNUrU6ubQFv0u9Uy_u@sJ4zti#&gfl9T^EY4s?I&o4WFBY1kfWGgS!sh~
zsf0>}eKQ${-F5{KV|Jy3PNFad*6rJ@XR7MzeQC1sSY$`g??zja73rLIr^^zv`5(Zj
zR0ZTsnxG?ax%@TrUW6)$8c0G7&cV6Z0lJB**vM0qZZLnro*_Gl`uJfBln9Pz$AMJ|
z<dH*l{nhMO1uj3ca2TMW@_ZCLY|9(7LTpwp@k_D%3nH%(to(#x^{d6TtT4TjK&nyU
z!W!1&V%K~a)Wub|_Y84*IU@CIk5=h?ZQvUYS?lm8=OT#F64eZUe2JGjGoyKbdYZFn
zX<Y5t+4VDStoHwe1KzF=Am(H-CqwbPu2Ag~Q>90n9d8@GZxeQ;K$ZsZMS%7<^ZzvQ
z6>-{i3nsa4U_E#r8ymZ}wxoorD|<^_XQ$hB#b%?pz1pV(eA-bl6y{d;_ANt0%I^;R
zIMejWWU(zSV_DsAa?LxuFSI8>T1;G9cF;t=8%NXc56LWqJ83laeO57DJ$Ce+hmu>r
z<#-aOwwAihn{mtP$#M)x#iRT)P%^PjO?en9U4_M2Sp}czJbuC)Ok_FSpI%#6b|C_;
zt6}z(*r!wz6>_bU+j_!2OKQ}-!R)XYBs{htCEnt&oXS==eD|*NzK$zeeSey)QfHn{
zos5`R3tlw;R2|$)=)|P3j{&)XWYF>2Vr!y8RaMn$=@(&%{yX4(aI)dGXd8DSz70ZI
zvOV7@)Jitf0be)@NXRfe?IhuMeefP!Rnr=`wV||j?mq8-bFl|`nxo}XL>QFM>^!Hm
z=hJuW`5r&ypFxcPaILc5sGjzncGpa#tFr#frk9jNc+fS0Rpyg9knWWbeD}`w6xz(m
z;ui$WVED+mJ%3_ic%#1Leep$UlpV3L;&h4RG8%gAitL)lxdTG-V&7maXua57>N6dD
zcnEsw>gzZ96SAhiPPhUHX&G8Tre!`{mSXsSNdw;(->D`S^6o9O)PcqzmLZ=4fwr5#
z4-=tG!pmlmY5<4$zm3*8yInU`g#;D=JD3#nhR!^@wkA<wy@(DvKY%V&d<7y)02%|p
zB2ykuvv32+$26XTJiBxB_xL*!R3L(kSZHRnpJb{C6*E6J`0W})#Gb0hezTjDzfEIl
zi7-T*2P{R)$h6x|bq}rXdI`Ramu)qowK?B?1xBi(gYD9BKaJ_|p+)rHqs^)ARD)Y1
zhwF?34lby=3K<GC@4Si{`U}~#JtP460_401?Cuv3QC92>2ndMebFufnlk%Tv;hl4K
z5QqSfW_4gaeEuEgNFnr8AHksUzF0#L7_cr>f=HfW9iypgCtySQrh|0Au#-OP!*HBB
zq1xic#xJlR2w4rWVEgst!|>=eSy@?tP>OEcV;1p17Oew?ckp2>0-S-Qk8UMc6fyqN
zl6@=Z5p2$NR7(-cW;#_NHyteTc2>|pMIKSg_+0yPX**YX+#&V%X%3>?e)S4LrgCew
zzkxT)@YQGX8BteTQmMGld!|i?hm)mUl(z+1bTl|nJ~H;^NC%V}7%vNdrE#byzsq3$
zFzPXVzYWR1G0}IjqFEFWb_JvjC*f0gIDw3e%*e<{`jCd28uUqsV4XUi>^}ig&<HFV
z@|<tgrvHx_#^=orhg(|DbZVubJ1M!5jX`ZiRcLZ@a^P}u1$wU_dRyq$`+9s+A+2^e
zHYrgiZoW<XPs$$Tx4i;uZvJT>$Ud#&czO|`<DvR%;-C)Cp6@$BQ7RLt1;yLpJGWFJ
zKQE4f@jWUsIPAMvk2kwhodPF+blGbq>ZRse&NT`?Lt791BhN{zII@+pYCX$U!z2v6
z7py={bEWoQ0vZ3;#WCkvWv0iV_Q2vkiRcGM-du>%!MtR7Wo2z?He?;m$BNqv{Qosk
z8CTknq}Tk}>B6epPcQ)*KN^sLl8$#(ZfgT@<Z+w(H^06K%gCVJXR(jv2RFZG=|C}4
z`|7g8)FO;kJThO|=+u7h(vddF|07%LRW+yCqM;QI+|EqwKejNVl&DCTp;pHKeof-k
z?!b+;THwysgyH0@O(x4C{kQ^HzQc?<iLQ%u>fG4PAG&>Do)ohz%5pd@?B;~tzh?mo
zg`^>VVE8vph<mHb2Sz|pVf{RTr-s6(#lI!vyJPOW=(i{RJ<M5uc-W=+92w@Z4S=Rz
zM`~qWMnWD}fB6VuQkH};t=1A~yy)Zo^^OZwXjwQ)pF5o~qGm=Qlmama{nMT-)R8Ja
zZ@UVCmSd0n&%RfX%{x5MX&XB_B!+d-$qRqHraiK5m$>J~9SGBB+;+VxCEXx2Pnl1~
z)#~%7X{OM<7(314zqELAtM1G{@1`5p``TKxZHJ4mQ%Nlu7T2}wY#$0yP;9(2bj|5G
zc>e{`E(z8FQAC5o02MU(JOT|AXbM5(N5JIUN}mVQCu-MNkDKY}bU1D#g2}fa)jc*A
zRcO$;#uJ8>95jCbw`QWs?aQeyr(aM&b7eIt40h?AM5sk9>L=+~QLM1|VPK35X9pOJ
zR`b;*$++zx3s92d{LMqukcWX!R9GQxXxjNbrR%kjJhKJL{^Tnox0DC20QVEQ)?j>1
zOg=uk5tXEmHO||NtZtqDWyGAn$1VmldPbVU0P)CYX$$3SmZeKbNHwK<%0;XvLnx6w
z>`Ca~oc&|gP5wW$!Y>czMimC9&$C#l0y+7B346VSz$P;*eKU*)LFO9AvT2fdxG0w6
zvBF%sS`jrczF&twJZYuC9)I>MpxkvS`JeRF69okf9*3xw?ds4)=L#h%&nVEme;rd?
z0u{-F`H?mi0Ah|rgfG)%Vhc4HQ30-lt;y)4Bd#<1%Zz^>0CPF5&COKf6+VzxOrRzv
zCcfe9T<A0^I5)3{%5EReIoH1mJTHlcXxdv15nLbI*O(`+BsNRG$f=k=OshQYhc8Sp
zjs=jtxRFsko{T}}wl7z@xWJ7q_XECwKxmkJp$*6{L`Rr(=Y%yi${K&Jnrrz`dJb)<
zmPLK7mprq-a1FE^kD$jUXIp@*Mf8yQcXsPXckgVi^N^4iH(aKZy{n7v0)panx*1c4
z^RIX$hy}hRklidY>4$-AH5QwN7usz?9}>Ubs&K{F?h#@7;o&j35y#ygh8nyC9_e0t
zjYe2b4!8>xaUprB{mZec?W3r?%MbH;(b3YsJaH(6y>TB44PfatXUd&P<Pha(X{jsv
z<ChSWNMy*3(dm?YQ7vgtzsnl(^});3?C8_edFzT-E_oB>EvLth3p-+4e9Nv=@h%nH
zF5Snj-Lw7A%>C-D+Xu)ob~Ld!Ct6harc++loVZ?|L#QD*fsQ;b6f6f24H9DXP59Tx
z0x7B-zVlF$??*(3HbyzIMzUoK)VLhz^`~CynjG(!WL$_t8t(Wt*nbTTe|r<od8J79
z(dJJMzfSo$u98ld`H*jZRK09GM0o)aiPyadGk1u8g?i3gbMvmC&WOAB?ujT{<9-^y
zv9sy>A!dY3M5Z)5m0lY=<8Z6+T_dCG?;Jkz^J$v;VV@$SZYIY+Z$6EObRwH27Y!zZ
zgve0V?}8s5$^$#zt1~jI+fp4LnVH-26B@O~FQnI7!)YcKNs$kZa1HXz`sP>Tijg8O
z4p2ai>D>(w*j={l<12y{TwR~b$n;D}>;Q>sYHbzRJ1(1YmRyr``?P+z^7|8zs2bZ-
z<ntgHdPjN7AZM4`ZxT6dcMPh`HOtd=J<+ay0F@i!fxnZ*@jm0XAKw4|D*Y0b)iixk
zV>R30!Jm?(Q|E3v6Dc6CvnF794%p=Uoff&LID>0qYj9|&kh(gN7bd~UFyUW+f2_j7
z!not=fo~^08q<JjtLEcy=2D7Q{QjACIs5X;S_$T2&_De%U7?HfPo5d;Utfgs@}Gb&
z)4#q5<;Fj$;D$&4d=bine|>w(|AQy#S*#&EaVl9@SlT)|SnM9mQ7M;O>4N(pW$y~t
z^8K}i#k27;%ViM#W_o8E!Cv={*)UV^q0&Zs_2ph8eAh>Py?3$Y^g}YT`1|%|Ug|l@
zb@@pc<cPNR_F0$-(+7bONbsC;4$t7(bj#@Er^n3_Z*)ye;ATobWu=I%DzilHNa5f0
z*rZ|R#|C)?5YY=zd0&#b2k&!vI{qxRobHAx3BL*=p>>NI4EMa7DX|^VJWqEpd0p1H
zh}|`%AZd?|ZP5(M7363b^XJ<a%5fNdB~tVj+JaFTjYNY^=F6bT{R^`&%G<$~N~R|}
ziyK~27pp3Xc}+7)H9RnO{}i6~Ivj@)<v2n?HaLu%#ENGNJz*G!BeN6Lp^%}<WA~W&
z8zVVH_`orNp5*U@PMC?C_+t_VOMd)F)vUJm5~p`>uBj}`5W>x4W=#pHrD&Z~{2ji7
zCj#I6&;T&j-x&)Q75`C*x^$0r4VS~ka|Mqn-%v>^1s}>O9EK{})>13oR5zY$Fp2`P
z7Ng=)Du_kDN9igsci-(vrYzZq!>HM)ylu7FVQ>SR2xNqtaBP?)s#sddh0**#fX{Na
zbN1kfD&0P0w&R++ouZr-$(4TRFt-(tfKb<;_~!j~B_%=pud|H;sUNe5bEel#)?POe
zOC`MiGyC07vxcY<3SmHBDt!A6W<59nqqT0t=e0yZk@6;MR!zj+3I2H7`ww4;wQ)g?
zaBnj1pU1^;Ps=6QYh@na{0;+w2;*rNL`9~ia<*#lcIkfHe7Wl}3(OS^Tx`zFyZ~n{
zPVEBZ%d@}ZmOZZ8Ym(<4S(kJ$>hushMS|J2PwI+Bo&K7YXK&QOB07tOCS*9S9-9~j
zPx<MCOMx0x1n`75v$@#?YHyqxKWL`)_4P*lj0Y(fb%P$^IXZQ54xpMJB#2?&e`1Py
zC7yEqThs1mcR^&rXE>R-<hU(MVtqFP=h6a5SGHzVpp!>+oS$5Er3DRjFMV%35K}pr
z%UCuS$<4%V7}3+$f1))tI-rZbbIqldMO9r5i5dYZK?Rm6BxS^ZmgdK1G~&!<U=ozh
z!;I0fsn9lWt0ai4d3lz#*wjtYFH+=n4J|4sN41mp2NZK#HE;aLwt0m~@I<e;^v>pl
zi0Q7DM3{9`-b;$4lGDu3b*{m_jW^NKCzH9UBzgH&cnu|}=)&oA3RYsdU=D=K{mc<w
z*3*$MU9sY6BwJwDJLRv3GeT`r8ObI--TS26_o4;8_T2mj_YAETCkO$B$>QF$dUkeg
zI*9E03n!JbWf_u|M?y*slti2szaTRrP3r9^^KPk2ufM}!Awv=BuAYVN%Q%VVzdA!q
zM*Bvo*s}Oc;v@}}AnTU99Oh;;I<BTnRdv=RkBhw9-rCf7o1C(g6)+J);;xmfR+*^%
zW$5X&OANuO%nY1-#A%tuV?HXX>4JOs;dI|TM;>fVR3|vZF7S$v#SPYlSA<(hZ*y!@
zO+My3n4bRPB3{<kQJv=y&G<PxkiJP$B&EY(^U!9b*qSiokga{N!1em`8n@%Rmt^w`
z@_tmItpzsc>WJEy5}a+Gpl3N}nMOv>V$Y)+>|d#sy9t0#vN63Y5Fte<+ZP~=P`7uB
z2iD8vGC+fnQmc4)-$Ax!?n|9D20rF5hNs3utCz)lM0U|-OAXV(h-B(%{g$@bGq*D)
zi4<-DZ_>uTj?eVV-Asj|G%t#**Xs+W5q~-pE6yt4@+10(EfO_f4W~VHIc%9$Wwv2K
zY-vxq^6$C)>N+@m(Am|lJLu3qTJFj`s-}hr%a{>lzZ|nYH>OSLR6@K_^|?pc(%P3l
z$Xl**XxJ~?S#C>>N&k+RsATiSG-Iotxqg<p!}L-BY9e&p4+DWuZzB6?rqq>b_g$ET
zwAnoWM*DG_Rp#;a*8=4X>-XGS7mL!+(%0_S=l7a~+2y92@8!j6sO@*DTF_`h<SgcW
zOV=OF^rT^@T6E|rj_uhod;vNSU6WL3@oB>)aOd^J{l8G{{&^X(#VxT(-8K4WUJntt
zIhi6&((VxA%j1j=C9GyCr&xS`T=vH5#HW&j<#;ZqH+iK-e{`l($(HA~+P%~1d4e+b
zcDdZ<&=KL8ii6aZfItvdt5Wz-f|2}mf-b-6f=GvkE>A~v`xNA@X#c;O&O4s!{(s{~
zZc1fD$i8J2W$$rBi6XmXL_#)M*`p9;m5~nFn`E!7GLkY6vWk#n9>=k_-|KUKAHP3)
zoSbt$@BO}B&+9rf8(rDwy#ET}B9G!>D1lVj^@pgpp~;L=)I7eqpOkO~AI@(uu&x#!
zHAS!pGc1)jn}dBHS*Z_yEzM9JQLK2J?f<)6lu+ULo1b?2BkiYUYY@@QTBdJtj#*sl
z>Z(n2Pd+}Zj1Q?Tip12Mhb4L={(LNf+huFeC3<;631XkBdlqI?->nf<yG)xY`!+_J
z*hI8_e?im?)yhaqXYl?8diXi-^}EUqmRpV!r>;fSED<e6L;@5%p8fpoL;7Uy=bcBH
zz1l-UsC`i@66rEU4dd;$BVqhW&8%v+PQ8L1+b#V;I|-Q2!OFZMzK8dWJeREcO21dY
zOpaU}3N?+gbGhQc7`nVXzu9Sk+WAR6_%?z{k>YdvKoa{)jP9*pvk@@YGVc}1a4=D=
zcHLU7RcAcKhE0U_T4wtpJQa5L{AE*Rg7lELw}WvFa}as)SeYNe<t;(3$2V9N^_qqy
zD~gz5Ofj54P{{*B_E8IVD83-QPKs~3k0d%2KW&P2yyq{)h8nJEc-I&p@MD{uFaJ6t
z3SRP=ZawNLP8MJ2!z7&467iX!j^{U~3R1T|!kJ>PuIcmN>w5p(sQ7COHa3GUPt<up
zaDqkt`Tl~fPnxq*9D5jz&>Q%c<S#T%q$^u>Cx}T+TX>-V5_otr5G*2Bq4`RZ>cMQp
zuLgFlg7R7ECTFR1L&~Z`Gn7cbbzQ*S0XdugI+m;TP1H8%dBHTfRt%l$I(><(R&nEv
z^Z)Ykg+WWK77V|BmFleXYvLIkEY7icpYG$P63d}IesM>--1j7-ma0y9C09Xb(*EfK
zX32o*3ox2bEldW(Fo4ClWrwE-Mxmwld;Wyep!kVCi`#F#ui!~O;XIsmJ&oj_<20N^
z+0_remtD$YxBS-dtXGPQN#=<}wOqf0b0{5E>Nnns*X7IxcUw7Yn`X(bf%}1Wt9kNU
zcehpV*Gc!-3|-rvuq?hu=C-$BQoW3p&cQ#J_!N+m&GM4F?JG(<&sMlw_K*YB<HT-K
z?}}+mmb&0RL8d}r?*MXi*42db^t-xHGMGKIz9LC7S?H{+8WxU!hWe>?<poQ-vs5l>
zEmL!8<xKw#o=|<5yahgg+G+ORoXabBuje&sHNM!5Hn4TloR6_*5<N1$op4q4>0@4X
z-k6yUA{YE$zeTbWut{*&)z!7#NNXSM4rZ=eIzhwc@@oFn9o@3h%4}f2Ql)QdY#2J3
zM37!fh}$=jGDtGM-<SVD6@}G}HH4;0^IZD8zv*vy+^W2`HV9kg!k`N=Kl2VVYKU|Z
zPE9Da@Q8k1%b<lc%8X!7D_JjtT&=j8s_k1QF+*%vw<~5OXVlg4lPc=*gGZ@}iK>tM
z-ft1?s_d2q{W159e%8ZcKc{I}bUXaS+Z0UaFo*k$Nyy`oY-KCY!acHw#`(g{hpUa6
zhSpNl{60<X32xTXWzN*lp4mAzTShj6_u};RW1?~dy4;)j#^|qZnTX&lt>fZ~F(%bl
z9aN*nJPLH`1vTj(Fzp7Y!aVKR#^=HSY}zCpt(szV;xXYm_=9#WuONPy3igdkLcNcX
zRe9NlMd_~x8e3y`U4B-Fe(O@>TMr;t^pkrg^tek(dIg;pm8;Lh_tfzq0k#g*6Gern
zO?Adn?@iaYE9ejFN=Ln9{0TT*x^|FJR9zjJ3^nhF(m=2t+N!CY_$6fjI>WJ==CS*6
znZSgD!<hy7?cVL)c+33T@7mz_vsNKHXTP-3nKhQ(znNw3&XHTkH{ClqtWf0#>rJie
z%Gq;a)OOqAp8iG5^!)Xt+CN8CjJLX8W{G>xJ-|=SwP?v3MDEud#4vG%k(NGOGR0d~
zCqzY6ceNJ1wfpH9)Y5g<!<0Sn!_heuwKIoFk$&s1mgnnlrq0(0kp&&=y(qZ0PJ*@?
z^1(&1bz<T=Mw({>|MB$aC^2$gVsrDkeY(b(Tf4&ax{*6x6aEF?rQCO>B;>d%?L*i8
z^3JC91YS|im~U&^J4G@xnpHU^@#M7y*I5@I2ioIS5xUCjcXy|DMwqR2I;hT#<Th>*
zR-3ox>isRey>;JtWkJZ9ed0W047W*C|Iv!!0Ck_nGWxynu>5NN@FeV{$bz4i`V}|y
zgT!WIgywBUa^BMuPdl9Lcl}3|dqUG59@UnN?0Y4Xub%eWc-DCMCBzNp!?AJMjs4o>
zL@CtM_E+`<f|vA5f??}P7?u2Y3vR;^0?rmJUV8`RLH2ir-v5@LmvjB_G~eb+NIxv$
zT33(7VUZEdze7h}W!tjH!JrN6P1LxDrPsW>Bc{H_ov;+%=#^^5(9I*Tj<&tr>0nZ}
z({Ha`MCCM8Xz%H1BIe96iou{*Dfi=?JnZ_4H7Q{Od(O%4b1&z0%HvBb-#)UnJ@|yO
zd9lIXe5z$IyMwb$JsWF0RN36iv`KOI@C0nm;e#CvIX^mkejb^^r^CFXahXS9w#9_?
z_-$85a5^{!2IMk?TkC0%4|pf4l(*8lFMF2wWcm;mf`cXpPV?lSaVaS|ja}8c35A2s
zqejLPH33{bsxPv7eq?FCxj5#$$UbCm$04+2qBDnnk>^sfawquD)8*d{&x#l`cP(aP
zpweJa@=n2iPdE4Z8HzHI52<p&7QUW3m0lG1#`CAe#1_TvAutGzQ?p{c6^|!0TwPr&
z8>4Fc>}^XfEcIEVngvsPryh(i7}Ybk-yU&W_mNM(l|)@qiZ$Srll$Z+9+@+#`4{#o
zwB1m6i^{9mx3LGhc>F~LDo)djsS<wkGLN|1@ocqjOT2LSY$-D#Qw}sKx>^x9&YL0|
z#m>@`uT#&?!+Lu`-mKY*<?B_`m&pc{SBgJeGAIyD*`v(XYgTO)eX$aOb|PvGI$>Eu
zF-)G$lUUv;qo^d>@_9adlykbT;m3M|JB}q^vR=e&5v?~Rj|%4axT@ktism%uU`K3R
zG&CGv-Q50BN!P`gc@Z`=YEP%%*|m+Nt;%@{BD*FE=~Q@M>dzXsAMY?%od~`l7FbZN
zv2C6<;MSISf1Kf>oS0s+xV-(2u*GkVv58>Lv2FHi@UrckI4ri%=G|~QI_p%F{_Uow
z@&&^sNyl1er|$61iqv{an6>>nQ}IvvwOo8pX0_+`{1^!MxA?t6LRxcL@$TWD%dZl|
z52RsCgug_qYd)0(2wT$b1KI3NzbjH7+v7Zr(NtF7;qrQS?si^4_hKxKFMaciC<?>c
z=dgtfrtGqGtkJvk_Hra9c&Cj-FsiB7g;gZa(RJ>7!|B9zciEQpyR6PwfnU?OZ@x9D
z*;l_!9w-g^PVh4Pcg^O6_DqfO=L$46#B482HlXWdWa6*jza>^M>f}BbgAIR_xWtTF
z{t=&JL*a{y*}q*P$x^cvo>%iYg3O-97*EJul^01AG*GH<2uH)gebws;{Yb@q!*QEA
z*U0wjQnsN3`(sZfy4Qzrx{ZQ<_%m5bF%I6uT}|4<q@nijV>j!cq{3#}h~9;=ypo5)
zurj|>i1WbLHU6&$vj6>AH|1$eh-y^Q4ffp#p#EJ2h_Y~2Pj9fd`b5S05kER;-@m75
z<g<JJMwiN~#6JN(<e~V;n#)5=H(wNn0CVu`9hCP0eMRYot&Qou!}M2L7$iMiK5fI$
zEoSNRS*m-ZD*33sk45unQ$7qR4@5Tv-_Iq}hT4fuBm>|Ty#SKu2z<UiT&00WLD00U
zuQgC-0##}LS6zk9xCHNLOshM9U<aV2rL{uh1%mp&e7R>vdJKdn7+^bx%>ujOzAfXm
z`Y)7?@<6&nX!Y}4PJUu8(>DO>v8~*i5Qh>ZkEkdXx#VJF+lVKSh*o&FX&mk=pnYJW
zCx^5_gpz_t$tUxDoDdaiQ8_~iWh}^#_+^7{w0$dNrU@YxAj0qg#r-2uC>hj7Q~p?K
z(;!IVeVvlh4M1@|<ezR4p@Lox3<|$~{%3HDcu0D7#vr>H1TZk?6ifBD`X(UsH#lnk
zr^JbXr7744qulUOBUM^dObp^CuD~nzp^OAyFNlOx&EG+20$Lk!G_1n&_5<()iK+QU
zRs2xN=Olb#OQD7%R17?jE^tq*Y-|Xa2X(6c%L4$FkyEpGL21();x3WW^UzQNJml-t
z)Q@^wP_t~<U#ZtG)PD&nF95ySuikm>;*yjTtDunfD@iXy8!`di0fQ<OGs)@oKFcN>
zPmSIQ+S&0Ur(_NZ4i4TTf+E0j@M(VCw8560cO6I$(MN5kz^ki%?HUTOINX-w44zD|
zt*GtqzROuw>DPc+0F3b&I*Edc3I_)4Oz5&PQAoyo1OVedCr`rKd<Te=vZ^X8khqXo
z5o1Asx**f39D)ZCkONH6&|3(4+m*CAFF3Kf`UJ|?8sPi_HXZ>l;)Tpo0Ym`4irTRb
z@-rYFYqZf<3Q{e<z|(`kB@9?da8G}Ss#~1}yc@-tGrpPD2ssHDpfb35&dSEXkfmam
zR|EO&9bi=S{5DQ@vf$u>#0!ZXkN&wvFTH{xJAHn7yQ(CpFCbwA+PNA`pq3j#G%1}K
zOw1IFd*_=EAFe>S5fU)UB84_8aDy}!$U=#npSSs6sxjZ?%P*nixeDRUq)B(QK>t9D
zJ<u;ZdwbYMUr(s7wgaI~ajNfw9MUpC?L(vm3V^-%OFAb40|TQu6nmg%{{<{TfT=?X
zV2VKK1;)2_`=OGIv$HeEJ4kv9RGNbx@3cVn3#hj6C9VSjf3z;|=IUxQ{E-a|7-Z>c
zZ!SW5ZVZGLU^7+DI6m@Ln_P#~A4_N;g#3r35L;hyaBOh%@Yr_XHf>9^Gn9QA8NccR
zmIom9Ws};{{xR{lVEbB9;Lg$K@BHzj6>3Z16~-1DOEo3SC2E{W_PZ)`@rIJf*H|uI
zwnCp;^?Ud4Ux4xo7L5kM9E-(1@$j#l@P{UZiC(+qEG8y~7<J&VD))5x4=8rvkz|Ia
z#)okQ<>c^yGmcA64nZ63IcmzvK)$?D|0f9wk>Il6k&(f`K&9e9Yd~rfq(%?&Qlh{I
zF%fv|AKWwWKmNS}Q2o6vd_-fT0?Ze4z`dc}rwIft_*y|<=17FiTSD@vf|;<XoP<yj
z5ZzVz*g4yZTC*A5$H&G*pDy1A|5p@v+wK<XXMjZp#_vFbw_AKn@yG%WmwWg+FdwKb
z6u6FFLYKp1*xK5<FJ#uo6I<(o)e{A6IRx$&p8px+c!t7;(5a@bJ_7<}Q0_2Mi#o>s
z6fE6Oo(Lnc#t;P)4C5Wz<uqcTgxPY6nwn2Uq(6Nffrck1k1-uX+a4l+8->ZOt*wFL
zvmca<%7IDXFkX$v^eXyYh2j^yLk>(2_vMi{%Aw+N)!ivlgwVFjAqDUJT>aqL5nu^s
z$3wtCAl=&L_a_O6&KP16yrh@gMd!hBq*_&7&3pMW1quRCKt*>CfZUo}5F_o5UUg(2
zFJ4ZA2lQO|MdG!15~oPl(+pKxbLb*gxu+U)M8Gr$fR=!@S`{n;AXb_K9YdZLHWcWf
zVyou6*Tm?25qMbLf*TpyKuZ4rnjAu@9>RbJ8T0zSvrf3wvs=EbqobpimX?2@z`jGA
zVS*e}SPDYGO$WAuru`K;0JcbKfzhYiw0QIgwYs{RuFKP1je#g+V1#w^-rvr-C?P>_
zJf26eJ`krDu#-#}1pp09l*8UDQ!bn4PEMKt^#S{h-FkFX0J9xQ69NY+w${ZWD>baC
zB!ZLBp4<i^6R0M@CV<iPBv8y>0nZpTr!d#$#k(v|G$v2CM*s`LjJE*B)Nc#(IBm8g
zF<UzDNS;y9q_3daVN~>**n53QYl3xrq{&}SMn*<<7V%jUr`u(GHu5LRc6WEda`6T5
zbr1GlxMG7Q>r<1ZeF@UUxnyON4)@cVtXEqF(t*c`3Si%>w*KZz{NyXmy$EJE*jf?=
zA5237!HTUP`-0}3w98<zF=Fcx0d*C;A3!|g016+wwR*3Z-ElTwx4>&I#S_VUm4Ogj
zz;cn;C_q9nAk<rcjTBZFwOh9`pgj<16EFr**cTA+1q`4C#x)-&$`WAB1-ch<liE*m
z_<aTsfsDuE`4p%t$jFSQufK-`5+E_f9mnEdzor3P>?TY~V8`>|E&cZKHQ+;q$Rf*)
z^}ZT~>k|>f51<#oxccW{cO62hZ;#v4DcihrSEQ1YlY=Eu1zxos%zv}x0z?vYxd-|~
zlDO@2z<1#Tu@f7N5MBa*S!IRZ`9lijpPhsCUa*w0r8C*hkJkwGrB!;OP^Z0+-w4Ra
z$k5XGc$^4dI4(7{2RhF1lY4<=w2T|>g1c1$;J?V$1PE;;i<IV^3{-f1HW%Ara8}Ly
z{fegc9~1lA==J+>{o)DE5Wz;m%q2A@CMEz*!DWQ3Dqz~p(l1bDDFOTK46Mw+o>oa+
zl$DVo{xo)0sA>eb9S}SfD5`<4F<vOG*^v?0&+u2TGQkNxRu?muaj&S(i+B;n4a5Xt
zz;pr5M+rDPZ4Ivd_woBB+sX%077lCz$g=9sDx@;KBNW3&MfCAX*`9gb#%cPv<bX10
zx|?U;<rHzzhlf@bBWhI&fIjl$0i0ecPf?MtUWp>nVw~(=JU*<-;Re^?rWh9%sAk{m
zTDf&ab^DXVf_7`d&(v8Py&QSPUa5(O-pwKd8@ypOy;$Cb;yW1}NM$bzb3jyO{Z$q^
zkrvSY{Hpl}d9PQKnhzc>Kc5{r&)=2gT~T|E!#>^uxM-i~o!HNk_~ZIgVg5J*#4LF!
z++b5^>sOGo-G@lCEjG2f+eyC#=^sDdIVt(2Mu|(m&?J`Q18Jg}6@Trj)3K6%zC*+8
zQD^|vUq<TO^7^;oCkz_UR8GUomqu$J<mI6!^Bqru1{BsflSQT;N8m1lTbO2=G;+lS
zdEIuPkx^nva`3I8u(`O*sG&Q%a0sQMAg(WM{C@em5QElfPCmJ0(D|4LO&{NsT}l+>
zb{HTa+Fhq^wAXM!N01I(srW;Z0jW^|5g9>KMc=LE44eMUT&n9A-tZe#FpL$-49p*n
zUix1D2`*s*!r?~Gl*XF5s5mUwR;kNCi~)K1TW8Po=dJF@<9w+ZhLUWbYizK5)=M3|
zh)|_R<Hw>mD)kp72ORE{&J0VC*C2P1e*XzBkrjT*=i}4&zl4hMMVB8YO5DG1M1<m&
z(4PdK&0Etnyi?1|4vRD)Z>ko5Mm%5%n6ep3L+;yH%~|5<{9uFPu|Y?M$SQnR&YZJp
zjP+V6Nqmt$rq4>zzIj2)cUytHhH|=h)4qURJ8b6%BWy{tCOZ^+ffCU-9p!Yt^+cc1
zIrrDnddBqkc>31Uqw2SAQ+yYiE$Pvl;*GDNEH~Bq=i0R3gKP7uyd9x5H>W@<Z*koB
za$Y_4tH{?)PUM;5aETS}Tg<{}Urf~*oXrox(`@QDjhI0&UN}o#SL=(&hmYPrK5^)$
zFO9k?>zU<IV|u>4g7jZm-3s*_RZ5QFv507CiqCbcbbl2_HfbOB5XPD6AJ+Ao#SJGw
zO_k>6jP}=;+vG8S8ozLXTs23qP#vlFCN&Rq_>*TisoO0SwD!@7b+SI9MI~a9J1%U{
z+xxs=p<y%L&r%w2UZ?Bm{>yG?e&kY|P~`K*bvt?j-}t+d2j1Y}<}W6P!(Bc^JPLeB
zQ<W^<F|8=6LKlP7xBsg9*zto1r2R3osE1w?#IjZUkqdCIyljL`rToG0hQ>2tT#6Rt
z()P|A+S}`Viq99T9D>bSc~Li1-)Dk#@BCFA-MlWSbnw@HGIul%=kk5J_}erk_o`v}
z3<|DyxNj?L%M&{+$QXgL>f^&|GN^<_?P43Mkz)E9&&nEE6B9P(9%1uuR!LfudUjRS
z<02gN{7adVQ3|+EQB^J%)+;DIy~iM9XgD%9`X(hoMPq}Bx%y|L7MFrVg1v#@xk06h
z1OM;A61_)7ja`xMFeZ_E;avEe4OWrZC4&;-!}SdK!qa~G|47&^H4k?uYY=3jpN{~h
zL)@$NnPOc$={qaGVv2Q?EHP9H{l4Ng<YQc)rm>d7o#G0t1h!el|10%!lyb(OwYq`7
zIGi2dXO2%a^wA)$XWhJmY8*eq)E7)0OzQC+YCGXe#-<>3U0Pa>O&bWz`d^9gFZngj
zHahvj;Wm(Qp~}MPuBJ%kG^qjFt>!ZI%pAdb-CVtUNc}pm-<fNT48_{~-J?f8m|Kp=
zdb^j1tVeDvAmj$|^My@KYMc~r)j_Qc*+XvcR7hQYVvQ0$;nM846l1B;YA1S7(4ih<
z-Wn4zy0@++zBED>CaOtx{HT%lKap~&fuke&CRCSa->Y=(x&9O8={UFg5kEEuVvCnt
zKF{wk|J#_;f>6*}_?$P;WPwZM5c|}7Op>mjG*H?t*C1u{Pc+1_JV8%$GrWDPzmcEm
z)&K$|-1Pq}ub6B5rkp%GwcI(=b+~s17jQ_1g8x*BCzAN1IUYO_>a$m)4HKpq1!zn6
zW2S(f!EsMjkwGoH8>TDrEGQIH%eZHb=JkBvhn+{sC-<J2$g`<H&(kXuf^3(iiP6gI
zo*l?zwclvqNG(!;Qeo3%dDy%8ieI;DHK76^UGJ@(?e)?xWj`4{hvsIkKEKDxIWIk=
zHw^j{T<ITd@;e)kL@$zfL_YQNAFHS?YabYA)FMcEHc4vbC>QACiYV(yv`=vf7-gT@
z9vIMIdqJa>koxvEoMP98UO;U<vJ3opZ6g=-!k{}5{aH@n3?pNrUzNp^Y2>00K9oRQ
zFKl+%O@qh1dk|)DIP6+d4p%{1&soue&TS2Vy<~e-RnqnOiEC@$4dlpsT@a5P|J_3Q
z^<7Bkyyag|VsID~6cl)Mzt9dSWpLKLAE{B5WTF*H$g20GrO}p~6wnhGEdTO?=H_s&
zqw%!!q}6nJ+8uc3AYAmmDWyL~)LRtr)lMzF2+Qc};U|RMztLQz;`j>-3-b9WL{ntI
zF(4^zla8<gXQGf(4mi5XA08NhY?@1@+AsxAXVF?78p*==D4uc<rmN01@Hl*d4jXCM
zn-sc0lld>)CmA#@L`77bf&5L;+sRP6y!0=amLi!Hl0XmqcX6ImFN|wK8!Fj<q3XsU
zXc80}8mcn}uB#g)%wRKuQ>-<%@5m&g&H<qr9ushsA23pJyAbdRnH^bGkjxf-B3t{?
z{iB%}uTS;sv->HP0!^oN`l>%Z=!_J4AqF>h1k4!x56t)swuhbd-jsiKc8OLon#+@)
zfW~?`d>`uOkXHPTV~xiwhN%_q@lgS1>j3p*ypf|T0>&of3SE3t>FfoGRO~GOJ78Iu
zccBK#5GeMx_6Osxc_-~B@W0c9z1fF5vJQCuK{I#^pcA)QjP=8%uUC?pzenxd*9+q{
zb+OiDx4@Q?MEW(;vC}^Ye-(KpKbu4i7MeH!aLfU_)kv0%3JLk=SD}wi@jbTpzZFUa
z?y;(?3+RPiGJOO?uFiL#H?imFPTLoMZqta4j*c+k@ZiULO!~sixPfn=`wk~-aBCom
zm947L2+UqyQLe%E){E@?Rim>)LP94<S+Gt1zHrhv9n1h;g;-t}c#OtiFtF7(w4G)Y
zbg1+dO>Mn6N}?T}2!<$1_)!{oDcm~tzqrHy2b*x8({iccgw-Z6vwTb{j5}z#5-TGC
Rzg&g7rJ{M`qw>S&{|7^oVNU=6

diff --git a/hamilton/graph_utils.py b/hamilton/graph_utils.py
index 8c3695b..be67280 100644
--- a/hamilton/graph_utils.py
+++ b/hamilton/graph_utils.py
@@ -4,7 +4,7 @@ from typing import Callable, List, Tuple
 
 
 def is_submodule(child: ModuleType, parent: ModuleType):
-    return parent.__name__ in child.__name__
+    return child.__name__ == parent.__name__ or child.__name__.startswith(f"{parent.__name__}.")
 
 
 def find_functions(function_module: ModuleType) -> List[Tuple[str, Callable]]:
-- 
2.43.0

