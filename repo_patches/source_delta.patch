From 3eb38061f4b93a619697ccd421d28b302c21554f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 01/44] fix: ConditionSet item assignment fails for owners of
 structural conditions

---
 src/graph_scheduler/condition.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index e57feca..33ceee2 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -704,12 +704,14 @@ class ConditionSet(object):
         return self.conditions[key]
 
     def __setitem__(self, key, value):
-        if key in self.conditions_structural:
-            for cond in reversed(self.conditions_structural[key]):
-                self.remove_condition(key, cond)
+        old_structural = list(self.conditions_structural.get(key, []))
 
+        # add first, so that nothing is lost if value is refused
         self.add_condition(key, value)
 
+        for cond in old_structural:
+            self.remove_condition(cond)
+
     def add_condition(self, owner: Hashable, condition: typing_condition_base):
         """
         Adds a `basic <graph_scheduler.condition.Condition>` or `graph
-- 
2.43.0


From a43a0c0949200c06b0812be3077aab1389b47b5f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 02/44] fix: ConditionSet.remove_condition does not return the
 condition removed

---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 33ceee2..0ba8357 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -847,7 +847,7 @@ class ConditionSet(object):
         else:
             warnings.warn(f'Condition {condition} not found for owner {owner}.')
 
-        return condition
+        return condition_found
 
     def add_condition_set(
         self, conditions: Union['ConditionSet', typing_dict_condition_set]
-- 
2.43.0


From 27ea15e9e0f845523792e73376b2f46775671a75 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 03/44] fix: graph stack is corrupted when a structural
 condition raises an error

---
 src/graph_scheduler/scheduler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index d4d4edb..896c52b 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1105,14 +1105,16 @@ class Scheduler:
                     self._pop_graph()
 
             # add dependency dicts for new structural conditions
+            # keep in step with _graphs in case a condition raises an error
+            self._last_handled_structural_condition_order = (
+                self.conditions.structural_condition_order[:common_index + 1]
+            )
+
             cur_graph = self._graphs[-1]
             for cond in self.conditions.structural_condition_order[common_index + 1:]:
                 cur_graph = cond.modify_graph(cur_graph)
                 self._push_graph(cur_graph)
-
-            self._last_handled_structural_condition_order = copy.copy(
-                self.conditions.structural_condition_order
-            )
+                self._last_handled_structural_condition_order.append(cond)
 
     def _push_graph(self, graph):
         try:
-- 
2.43.0


From df77222ee403718abcd53e57fd1469869cd4bbfc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 04/44] fix: structural condition operations share sender sets
 between nodes

---
 src/graph_scheduler/condition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 0ba8357..a26e791 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3137,7 +3137,8 @@ class _GSCWithOperations(_GSCUsingNodes):
                         sender, receiver, new_sender_nodes, new_receiver_nodes, graph, old_receiver_nodes
                     )
                     conflict_strings.extend(edge_conflicts)
-            result_graph[receiver] = new_sender_nodes[receiver]
+            # copy, because operations may return one of their arguments
+            result_graph[receiver] = set(new_sender_nodes[receiver])
 
         # sender has an operation that changes its receiver nodes
         # ([owner/subject]_receiver)
-- 
2.43.0


From af5440a74e874bad6e522c90426df59b9231934c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 05/44] fix: structural conditions compare nodes by identity
 instead of equality

---
 src/graph_scheduler/condition.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index a26e791..1cf9006 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2920,7 +2920,7 @@ class _GSCWithOperations(_GSCUsingNodes):
     def _get_edge_conflicts(
         self, sender, receiver, new_sender_nodes, new_receiver_nodes, old_sender_nodes, old_receiver_nodes
     ):
-        if receiver is self.owner:
+        if receiver == self.owner:
             sender_operation = 'owner_senders'
             sender_sources = old_sender_nodes[self.owner]
             sender_comparisons = set().union(*[old_sender_nodes[n] for n in self.nodes])
@@ -2929,7 +2929,7 @@ class _GSCWithOperations(_GSCUsingNodes):
             sender_sources = old_sender_nodes[receiver]
             sender_comparisons = old_sender_nodes[self.owner]
 
-        if sender is self.owner:
+        if sender == self.owner:
             receiver_operation = 'owner_receivers'
             receiver_sources = old_receiver_nodes[self.owner]
             receiver_comparisons = set().union(*[old_receiver_nodes[n] for n in self.nodes])
@@ -3017,7 +3017,7 @@ class _GSCWithOperations(_GSCUsingNodes):
 
     def _prune_owner_edge(self, owner_idx, cycle, graph, base_graph):
         len_cycle = len(cycle)
-        assert cycle[owner_idx % len_cycle] is self.owner
+        assert cycle[owner_idx % len_cycle] == self.owner
 
         owner_is_full_ancestor = True
         owner_is_full_descendant = True
@@ -3068,11 +3068,11 @@ class _GSCWithOperations(_GSCUsingNodes):
                     receiver_idx = (i + 1) % len_c
                     receiver = c[receiver_idx]
 
-                    if receiver is self.owner:
+                    if receiver == self.owner:
                         self._prune_owner_edge(receiver_idx, c, graph, base_graph)
                     elif (
                         receiver in base_graph[sender]
-                        and sender is not self.owner
+                        and sender != self.owner
                         and not self._is_required_edge(sender, receiver)
                     ):
                         # may have been removed in another cycle
@@ -3306,7 +3306,7 @@ class BeforeNodes(_GSCReposition, _GSCWithOperations):
         return [n for n in self.nodes if self.owner in graph[n]]
 
     def _is_required_edge(self, sender, receiver):
-        return sender is self.owner and receiver in self.nodes
+        return sender == self.owner and receiver in self.nodes
 
     def _process(self, graph):
         graph = super()._process(graph)
@@ -3363,7 +3363,7 @@ class WithNode(_GSCReposition, _GSCWithOperations, _GSCSingleNode):
         return [n for n in self.nodes if graph[n] == graph[self.owner]]
 
     def _is_required_edge(self, sender, receiver):
-        return receiver is self.node or receiver is self.owner
+        return receiver == self.node or receiver == self.owner
 
     def _process(self, graph):
         graph = super()._process(graph)
@@ -3412,7 +3412,7 @@ class AfterNodes(_GSCReposition, _GSCWithOperations):
         return [n for n in self.nodes if n in graph[self.owner]]
 
     def _is_required_edge(self, sender, receiver):
-        return sender in self.nodes and receiver is self.owner
+        return sender in self.nodes and receiver == self.owner
 
     def _process(self, graph):
         graph = super()._process(graph)
-- 
2.43.0


From 58966cd8c1e1798f2c4a4d7a00699d50c04b5b0d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 06/44] fix: operation conflict error fails for nodes that are
 not strings

---
 src/graph_scheduler/condition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 1cf9006..57b4d44 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2906,8 +2906,8 @@ class _GSCWithOperations(_GSCUsingNodes):
         except TypeError:
             pass
 
-        sources_str = ','.join(sources) if len(sources) else '{}'
-        comparisons_str = ','.join(comparisons) if len(comparisons) else '{}'
+        sources_str = ','.join(map(str, sources)) if len(sources) else '{}'
+        comparisons_str = ','.join(map(str, comparisons)) if len(comparisons) else '{}'
 
         return '\t{0} {1} applied on {2} with {3} against {4}'.format(
             str(operation_arg_name).ljust(self._operations_names_max_length()),
-- 
2.43.0


From bbf733cd1049cc6fb738cec39c67d8f80276b7a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 07/44] fix: run ignores default_execution_id and copies state
 of execution_id None

---
 src/graph_scheduler/scheduler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 896c52b..e67078c 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -856,8 +856,8 @@ class Scheduler:
     def run(
         self,
         termination_conds=None,
-        execution_id=None,
-        base_execution_id=None,
+        execution_id=NotImplemented,
+        base_execution_id=NotImplemented,
         skip_environment_state_update_time_increment=False,
         **kwargs,
     ):
@@ -870,6 +870,9 @@ class Scheduler:
         """
         self._validate_run_state()
 
+        if execution_id is NotImplemented:
+            execution_id = self.default_execution_id
+
         if termination_conds is None:
             termination_conds = self.termination_conds
         else:
-- 
2.43.0


From fd22362f67da2839c49edd5cafae60e0be24c4dc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 08/44] fix: absolute time runs fail for new execution_ids

---
 src/graph_scheduler/scheduler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index e67078c..5e76014 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -579,6 +579,12 @@ class Scheduler:
             else:
                 self.execution_list[execution_id] = []
 
+        if execution_id not in self.execution_timestamps:
+            if base_execution_id is not NotImplemented:
+                self.execution_timestamps[execution_id] = list(self.execution_timestamps.get(base_execution_id, []))
+            else:
+                self.execution_timestamps[execution_id] = []
+
         self._init_clock(execution_id, base_execution_id)
 
     def _init_clock(self, execution_id, base_execution_id=NotImplemented):
-- 
2.43.0


From 2a6ed3bd49077e3ce0791816497eeca2f554f737 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 09/44] fix: JustRan raises an error before the first
 consideration set execution

---
 src/graph_scheduler/condition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 57b4d44..122579b 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2182,6 +2182,9 @@ class JustRan(_DependencyValidation, Condition):
     def __init__(self, dependency):
         def func(dependency, scheduler=None, execution_id=None):
             logger.debug(f'checking if {dependency} in previous execution step set')
+            if len(scheduler.execution_list[execution_id]) == 0:
+                return False
+
             try:
                 return dependency in scheduler.execution_list[execution_id][-1]
             except TypeError:
-- 
2.43.0


From 48d1e66d298368fa17f3dde4757577259eed31a5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 10/44] fix: termination conditions named by string fail and
 modify the argument

---
 src/graph_scheduler/scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 5e76014..0dafee3 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -641,7 +641,7 @@ class Scheduler:
         )
 
         # parse string representation of TimeScale
-        parsed_conds = termination_conds
+        parsed_conds = dict(termination_conds)
         delkeys = set()
         for scale in termination_conds:
             try:
-- 
2.43.0


From 78b4af2456160316170c6e43f42029f704b143b7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 11/44] fix: TimeInterval compares start and end before their
 units are known

---
 src/graph_scheduler/condition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 122579b..de9b3ab 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1370,13 +1370,13 @@ class TimeInterval(AbsoluteCondition):
                 'At least one of "repeat", "start", "end" must be specified'
             )
 
-        if start is not None and end is not None and start > end:
-            raise ConditionError(f'Start ({start}) is later than {end}')
-
         repeat = _parse_absolute_unit(repeat, unit)
         start = _parse_absolute_unit(start, unit)
         end = _parse_absolute_unit(end, unit)
 
+        if start is not None and end is not None and start > end:
+            raise ConditionError(f'Start ({start}) is later than {end}')
+
         def func(scheduler, execution_id):
             satisfied = True
             clock = scheduler.get_clock(execution_id)
-- 
2.43.0


From a5ec603f57c7ac3bd4ed529a10b90f68eef32c89 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 12/44] fix: absolute conditions inside Not and NWhen do not
 enable absolute time

---
 src/graph_scheduler/condition.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index de9b3ab..1ac8ee2 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1239,7 +1239,21 @@ And = All
 Or = Any
 
 
-class Not(Condition):
+class _SingleConditionWrapper(Condition):
+    @property
+    def absolute_intervals(self):
+        return self.condition.absolute_intervals
+
+    @property
+    def absolute_fixed_points(self):
+        return self.condition.absolute_fixed_points
+
+    @property
+    def is_absolute(self):
+        return self.condition.is_absolute
+
+
+class Not(_SingleConditionWrapper):
     """Not
 
     Parameters:
@@ -1264,7 +1278,7 @@ class Not(Condition):
         self.condition.owner = value
 
 
-class NWhen(Condition):
+class NWhen(_SingleConditionWrapper):
     """NWhen
 
     Parameters:
-- 
2.43.0


From 3cd8ef6ed17f1d199a432fe1ff54b94b531b5975 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 13/44] fix: TimeInterval with repeat raises an error as
 termination condition

---
 src/graph_scheduler/condition.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 1ac8ee2..b937a64 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1394,6 +1394,7 @@ class TimeInterval(AbsoluteCondition):
         def func(scheduler, execution_id):
             satisfied = True
             clock = scheduler.get_clock(execution_id)
+            offset = 0 * clock.time.absolute_interval
 
             if scheduler._in_exact_time_mode and start is not None:
                 offset = start
-- 
2.43.0


From bfec6cec34f1d50a085edbf5775cefdea2d8a55b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 14/44] fix: conditions inside a composite keep its previous
 owner

---
 src/graph_scheduler/condition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index b937a64..26a3b52 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1144,10 +1144,11 @@ class Never(Condition):
 class CompositeCondition(Condition):
     @Condition.owner.setter
     def owner(self, value):
+        old_owner = self.owner
         super(CompositeCondition, CompositeCondition).owner.__set__(self, value)
         for cond in self.args:
             logger.debug('owner setter: Setting owner of {0} to ({1})'.format(cond, value))
-            if cond.owner is None:
+            if cond.owner is None or cond.owner == old_owner:
                 cond.owner = value
 
     @property
-- 
2.43.0


From 044b4a674c2b30735ba2416007d36b0aea88aff0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 15/44] fix: ending an environment sequence does not reset its
 call counts

---
 src/graph_scheduler/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 0dafee3..0d6e758 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -681,6 +681,8 @@ class Scheduler:
             execution_id = self.default_execution_id
 
         self._increment_time(TimeScale.ENVIRONMENT_SEQUENCE, execution_id)
+        if execution_id in self.counts_total:
+            self._reset_counts_total(TimeScale.ENVIRONMENT_SEQUENCE, execution_id)
 
     def add_graph_edge(self, sender: Hashable, receiver: Hashable) -> AddEdgeTo:
         """
-- 
2.43.0


From 62da6230dc09a1dd3d15ec2a19d9651548d908d3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 16/44] fix: call counts of a consideration set execution last
 for the whole pass

---
 src/graph_scheduler/scheduler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 0d6e758..ece2cd7 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -982,6 +982,7 @@ class Scheduler:
                     yield self.execution_list[execution_id][-1]
 
                     self.get_clock(execution_id)._increment_time(TimeScale.CONSIDERATION_SET_EXECUTION)
+                    self._reset_counts_total(TimeScale.CONSIDERATION_SET_EXECUTION, execution_id)
 
                 cur_index_consideration_queue += 1
 
-- 
2.43.0


From 653f367b26b0c3fec93bef5d04b051792617a3f8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 17/44] fix: Time ignores its absolute time arguments

---
 src/graph_scheduler/time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 53bf032..d4b9ed9 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -260,10 +260,10 @@ class Time(types.SimpleNamespace):
             **{
                 _time_scale_to_attr_str(ts): v for ts, v in time_scale_values.items()
             },
-            absolute=_get_pint_unit(0, 'ms'),
-            absolute_interval=_get_pint_unit(1, 'ms'),
-            absolute_time_unit_scale=TimeScale.CONSIDERATION_SET_EXECUTION,
-            absolute_enabled=False,
+            absolute=absolute,
+            absolute_interval=absolute_interval,
+            absolute_time_unit_scale=absolute_time_unit_scale,
+            absolute_enabled=absolute_enabled,
         )
 
     def __repr__(self):
-- 
2.43.0


From 200f2e2bd49cb9ee66052685b5110374c684daaf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 18/44] fix: modifying results of cached graph functions
 changes later results

---
 src/graph_scheduler/utilities.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 33496dc..3fbe17d 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 import functools
 import inspect
 import logging
@@ -274,7 +275,13 @@ def cached_graph_function(func):
     """
     @functools.wraps(func)
     def graph_function_wrapper(graph: typing_graph_dependency_dict):
-        return cached_hashable_graph_function(func, HashableDict(graph))
+        result = cached_hashable_graph_function(func, HashableDict(graph))
+
+        # the cached object must not be modified by the caller
+        if isinstance(result, dict):
+            return {k: copy.copy(v) for k, v in result.items()}
+        else:
+            return [copy.copy(v) for v in result]
 
     return graph_function_wrapper
 
-- 
2.43.0


From f29f90aec1baf4e486ca8e5c203d90e728214e9a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 19/44] fix: removing a time scale alias removes unrelated
 conditions

---
 src/graph_scheduler/time.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index d4b9ed9..f7986ec 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -742,8 +742,8 @@ def remove_time_scale_alias(name: str):
         delattr(SimpleTime, name.lower())
 
         new_class_segment_name = _time_scale_to_class_str(name)
+        target_class_segment_name = _time_scale_to_class_str(name_aliased_time_scales[0])
         for cls_name, cls in graph_scheduler.__dict__.copy().items():
-
             if isinstance(cls, (type, types.ModuleType)):
                 if isinstance(cls, types.ModuleType):
                     if len(_time_scale_aliases) == 0:
@@ -759,12 +759,14 @@ def remove_time_scale_alias(name: str):
                     # not all modules have docstrings
                     pass
 
-            # NOTE: this could accidentally remove some unintended conditions if
-            # an alias is constructed such that its determined class name is
-            # a substring of some other Condition class name, but this is unlikely
-            if new_class_segment_name in cls_name:
-                delattr(graph_scheduler.condition, cls_name)
-                delattr(graph_scheduler, cls_name)
+            # names created by set_time_scale_alias
+            alias_cls_name = cls_name.replace(
+                target_class_segment_name,
+                new_class_segment_name
+            )
+            if alias_cls_name != cls_name and hasattr(graph_scheduler, alias_cls_name):
+                delattr(graph_scheduler.condition, alias_cls_name)
+                delattr(graph_scheduler, alias_cls_name)
 
-                graph_scheduler.condition.__all__.remove(cls_name)
-                graph_scheduler.__all__.remove(cls_name)
+                graph_scheduler.condition.__all__.remove(alias_cls_name)
+                graph_scheduler.__all__.remove(alias_cls_name)
-- 
2.43.0


From 7e64a836ad10b24cbd6f6487d8f316c99bb6a31e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 20/44] fix: refused or replaced time scale aliases leave their
 names behind

---
 src/graph_scheduler/time.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index f7986ec..088cc2e 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -670,6 +670,15 @@ def set_time_scale_alias(name: str, target: TimeScale):
     except AttributeError as e:
         raise ValueError(f'Invalid TimeScale {target}') from e
 
+    if not isinstance(target, TimeScale):
+        raise ValueError(f'Invalid TimeScale {target}')
+
+    if name in TimeScale.__members__:
+        raise ValueError(f"'{name}' is the name of a TimeScale")
+
+    if target in _time_scale_aliases:
+        remove_time_scale_alias(_time_scale_aliases[target])
+
     _time_scale_aliases[target] = name
     setattr(TimeScale, name, target)
 
-- 
2.43.0


From c5154bb973845d3432cee620f0969e515369da85 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 21/44] fix: automatically assigned conditions are not updated
 when the graph changes

---
 src/graph_scheduler/scheduler.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index ece2cd7..90285bf 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -474,6 +474,8 @@ class Scheduler:
         """
         self.conditions = ConditionSet()
         self._last_handled_structural_condition_order = None
+        # conditions assigned automatically, with the dependencies used
+        self._unspecified_node_conditions = {}
 
         self._graphs = []
         self._consideration_queues = []
@@ -829,6 +831,14 @@ class Scheduler:
         self._validate_conditions()
 
     def _validate_conditions(self):
+        # drop automatically assigned conditions made for a different graph
+        for node, (cond, dependencies) in list(self._unspecified_node_conditions.items()):
+            if self.conditions.conditions_basic.get(node) is not cond:
+                del self._unspecified_node_conditions[node]
+            elif dependencies != self.graph[node]:
+                self.remove_condition(cond)
+                del self._unspecified_node_conditions[node]
+
         unspecified_nodes = []
         for node in self.nodes:
             if node not in self.conditions.conditions_basic:
@@ -841,6 +851,7 @@ class Scheduler:
                     cond = All(*[EveryNCalls(x, 1) for x in dependencies])
 
                 self.add_condition(node, cond)
+                self._unspecified_node_conditions[node] = (cond, set(dependencies))
                 unspecified_nodes.append(node)
         if len(unspecified_nodes) > 0:
             logger.info(
-- 
2.43.0


From 3ba7d6c2b7c740bcc6f46200aba6be624fc037a8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 22/44] fix: absolute time runs skip moments at which nodes can
 execute

---
 src/graph_scheduler/scheduler.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 90285bf..22448fb 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -324,7 +324,7 @@ from toposort import CircularDependencyError, toposort
 from graph_scheduler import _unit_registry
 from graph_scheduler.condition import (
     AddEdgeTo, All, AllHaveRun, Always, Condition, ConditionSet, EveryNCalls,
-    Never, RemoveEdgeFrom, _parse_absolute_unit,
+    Never, RemoveEdgeFrom, TimeInterval, _parse_absolute_unit,
     _quantity_as_integer, typing_condition_base,
 )
 from graph_scheduler.time import _get_pint_unit, Clock, TimeScale
@@ -910,11 +910,7 @@ class Scheduler:
             # advance absolute clock time to first necessary time
             current_time.absolute = max(
                 current_time.absolute,
-                min([
-                    min(c.absolute_fixed_points)
-                    if len(c.absolute_fixed_points) > 0 else 0
-                    for c in self.get_absolute_conditions(termination_conds).values()
-                ])
+                self._get_absolute_start(current_time.absolute_interval)
             )
             # convert to interval time unit to avoid pint floating point issues
             current_time.absolute = current_time.absolute.to(current_time.absolute_interval.u)
@@ -1054,6 +1050,29 @@ class Scheduler:
                 res = fractions.Fraction(numerator=numerator, denominator=denominator)
             return res * min_time_unit
 
+    def _get_absolute_start(self, absolute_interval):
+        """
+        Computes the latest start of a pass before which no node can
+        execute
+        """
+        start = None
+        for node in self.nodes:
+            cond = self.conditions.conditions_basic[node]
+            if not isinstance(cond, TimeInterval) or cond.start is None:
+                return 0 * absolute_interval
+            elif start is None or cond.start < start:
+                start = cond.start
+
+        if start is None:
+            return 0 * absolute_interval
+
+        pass_interval = absolute_interval * len(self.consideration_queue)
+        try:
+            start = _quantity_as_integer(start.to(pass_interval.u))
+        except ValueError:
+            return 0 * absolute_interval
+        return (start.m // pass_interval.m) * pass_interval
+
     def get_absolute_conditions(self, termination_conds=None):
         if termination_conds is None:
             termination_conds = self.termination_conds
-- 
2.43.0


From 97bfeceb791d05c824c03e1f6bdc6d80c19a5c84 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:08:40 +0000
Subject: [PATCH 23/44] fix: invalid termination conditions named by string are
 ignored

---
 src/graph_scheduler/scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 22448fb..789ec8a 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -648,7 +648,8 @@ class Scheduler:
         for scale in termination_conds:
             try:
                 parsed_conds[getattr(TimeScale, scale.upper())] = termination_conds[scale]
-                delkeys.add(scale)
+                if isinstance(termination_conds[scale], Condition):
+                    delkeys.add(scale)
             except (AttributeError, TypeError):
                 pass
 
-- 
2.43.0


From 06682d29f100982b545981c910d98b74a3cea7da Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 24/44] fix: absolute times stated in different units compare
 as unequal

---
 src/graph_scheduler/condition.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 26a3b52..5562986 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -472,6 +472,16 @@ def _reduce_quantity_to_integer(q):
     return q
 
 
+def _quantity_difference(a, b):
+    """
+    Returns:
+        the magnitude of **a** - **b** without floating point errors due
+        to conversion between units
+    """
+    unit = min(a.u, b.u)
+    return round((a.to(unit) - b.to(unit)).m, _unit_registry.precision)
+
+
 def _parse_absolute_unit(n, unit=None):
     def _get_quantity(n, unit):
         if isinstance(n, _unit_registry.Quantity):
@@ -1389,7 +1399,7 @@ class TimeInterval(AbsoluteCondition):
         start = _parse_absolute_unit(start, unit)
         end = _parse_absolute_unit(end, unit)
 
-        if start is not None and end is not None and start > end:
+        if start is not None and end is not None and _quantity_difference(start, end) > 0:
             raise ConditionError(f'Start ({start}) is later than {end}')
 
         def func(scheduler, execution_id):
@@ -1412,15 +1422,15 @@ class TimeInterval(AbsoluteCondition):
 
             if start is not None:
                 if start_inclusive:
-                    satisfied &= clock.time.absolute >= start
+                    satisfied &= _quantity_difference(clock.time.absolute, start) >= 0
                 else:
-                    satisfied &= clock.time.absolute > start
+                    satisfied &= _quantity_difference(clock.time.absolute, start) > 0
 
             if end is not None:
                 if end_inclusive:
-                    satisfied &= clock.time.absolute <= end
+                    satisfied &= _quantity_difference(clock.time.absolute, end) <= 0
                 else:
-                    satisfied &= clock.time.absolute < end
+                    satisfied &= _quantity_difference(clock.time.absolute, end) < 0
 
             return satisfied
 
@@ -1482,9 +1492,9 @@ class TimeTermination(AbsoluteCondition):
             clock = scheduler.get_clock(execution_id)
 
             if inclusive:
-                return clock.time.absolute >= t
+                return _quantity_difference(clock.time.absolute, t) >= 0
             else:
-                return clock.time.absolute > t
+                return _quantity_difference(clock.time.absolute, t) > 0
 
         super().__init__(func, t=t, inclusive=inclusive)
 
-- 
2.43.0


From 279625b9179b772e903acd9abff812aafddfaa95 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 25/44] fix: absolute times are reduced to units that are not
 powers of ten

---
 src/graph_scheduler/condition.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 5562986..3a3c3ca 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -412,6 +412,7 @@ import functools
 import inspect
 import itertools
 import logging
+import math
 import operator
 import warnings
 from typing import Callable, Dict, Hashable, Iterable, List, Set, Union
@@ -430,10 +431,12 @@ _additional__all__ = ['ConditionError', 'ConditionSet', 'Operation']
 
 logger = logging.getLogger(__name__)
 
+# excludes prefixes that are not powers of ten, like semi or kibi
 _pint_all_time_units = sorted(
     set([
-        getattr(_unit_registry, f'{x}s')
-        for x in _unit_registry._prefixes.keys()
+        getattr(_unit_registry, f'{name}s')
+        for name, prefix in _unit_registry._prefixes.items()
+        if math.log10(prefix.converter.scale).is_integer()
     ]),
     reverse=True
 )
-- 
2.43.0


From 7d10ec59ce437072bf9e2072d16fa24694e320de Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 26/44] fix: cycles through required owner edges are not pruned

---
 src/graph_scheduler/condition.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 3a3c3ca..d03f4c4 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3047,7 +3047,7 @@ class _GSCWithOperations(_GSCUsingNodes):
     def _is_required_edge(self, sender, receiver):
         return False
 
-    def _prune_owner_edge(self, owner_idx, cycle, graph, base_graph):
+    def _prune_owner_edge(self, owner_idx, cycle, graph, base_graph, use_other_edge=False):
         len_cycle = len(cycle)
         assert cycle[owner_idx % len_cycle] == self.owner
 
@@ -3069,7 +3069,11 @@ class _GSCWithOperations(_GSCUsingNodes):
         # if owner is an ancestor of all relevant nodes or they are
         # unrelated/mixed, prune its outgoing edge. This favors
         # displacing owner more than other nodes.
-        if owner_is_full_ancestor or not owner_is_full_descendant:
+        prune_outgoing = owner_is_full_ancestor or not owner_is_full_descendant
+        if use_other_edge:
+            prune_outgoing = not prune_outgoing
+
+        if prune_outgoing:
             sender = self.owner
             receiver = cycle[(owner_idx + 1) % len_cycle]
         else:
@@ -3084,6 +3088,7 @@ class _GSCWithOperations(_GSCUsingNodes):
         if not self.prune_cycles:
             return graph
 
+        use_other_owner_edge = False
         prev_cycles = list(get_simple_cycles(graph))
 
         while len(prev_cycles) > 0:
@@ -3101,7 +3106,9 @@ class _GSCWithOperations(_GSCUsingNodes):
                     receiver = c[receiver_idx]
 
                     if receiver == self.owner:
-                        self._prune_owner_edge(receiver_idx, c, graph, base_graph)
+                        self._prune_owner_edge(
+                            receiver_idx, c, graph, base_graph, use_other_owner_edge
+                        )
                     elif (
                         receiver in base_graph[sender]
                         and sender != self.owner
@@ -3118,8 +3125,11 @@ class _GSCWithOperations(_GSCUsingNodes):
                 cycles = list(get_simple_cycles(graph))
 
             if prev_cycles == cycles:
-                logger.debug(f'Failed to prune all cycles, remaining: {cycles}')
-                break
+                if use_other_owner_edge:
+                    logger.debug(f'Failed to prune all cycles, remaining: {cycles}')
+                    break
+                # preferred edges are required, try the opposite ones
+                use_other_owner_edge = True
 
             prev_cycles = cycles
 
-- 
2.43.0


From 4da58c26a694181aefc06aa3a55349d9d7d80b26 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 27/44] fix: reconnecting receivers adds self-referential edges

---
 src/graph_scheduler/condition.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index d03f4c4..473e692 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3021,6 +3021,7 @@ class _GSCWithOperations(_GSCUsingNodes):
                 for receiver in orig_receivers_old[self.owner]:
                     if (
                         receiver not in self.nodes
+                        and receiver != sender
                         and self.owner in base_graph[receiver]
                         and sender in base_graph[self.owner]
                         and (
-- 
2.43.0


From d9ca0c8269f483bea409df837eeb8cbb0e6ed103 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 28/44] fix: new cycles that do not reverse an original edge
 are not pruned

---
 src/graph_scheduler/condition.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 473e692..e5cec20 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3089,7 +3089,7 @@ class _GSCWithOperations(_GSCUsingNodes):
         if not self.prune_cycles:
             return graph
 
-        use_other_owner_edge = False
+        use_fallback = False
         prev_cycles = list(get_simple_cycles(graph))
 
         while len(prev_cycles) > 0:
@@ -3108,10 +3108,13 @@ class _GSCWithOperations(_GSCUsingNodes):
 
                     if receiver == self.owner:
                         self._prune_owner_edge(
-                            receiver_idx, c, graph, base_graph, use_other_owner_edge
+                            receiver_idx, c, graph, base_graph, use_fallback
                         )
                     elif (
-                        receiver in base_graph[sender]
+                        (
+                            receiver in base_graph[sender]
+                            or (use_fallback and sender not in base_graph[receiver])
+                        )
                         and sender != self.owner
                         and not self._is_required_edge(sender, receiver)
                     ):
@@ -3126,11 +3129,12 @@ class _GSCWithOperations(_GSCUsingNodes):
                 cycles = list(get_simple_cycles(graph))
 
             if prev_cycles == cycles:
-                if use_other_owner_edge:
+                if use_fallback:
                     logger.debug(f'Failed to prune all cycles, remaining: {cycles}')
                     break
-                # preferred edges are required, try the opposite ones
-                use_other_owner_edge = True
+                # no preferred edge can be removed, try owner's opposite
+                # edges and other new edges
+                use_fallback = True
 
             prev_cycles = cycles
 
-- 
2.43.0


From bb7fcdc1d79db9c8e8020813de81bac8297cbd5a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 29/44] fix: positional arguments for optional parameters of
 custom functions are dropped

---
 src/graph_scheduler/utilities.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 3fbe17d..b01ebe8 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -56,6 +56,7 @@ def prune_unused_args(func, args=None, kwargs=None):
     has_args_param = False
     has_kwargs_param = False
     count_positional = 0
+    optional_by_keyword = False
     func_kwargs_names = set()
 
     for name, param in sig.parameters.items():
@@ -63,10 +64,22 @@ def prune_unused_args(func, args=None, kwargs=None):
             has_args_param = True
         elif param.kind is inspect.Parameter.VAR_KEYWORD:
             has_kwargs_param = True
-        elif param.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD or param.kind is inspect.Parameter.KEYWORD_ONLY:
-            if param.default is inspect.Parameter.empty:
-                count_positional += 1
-            func_kwargs_names.add(name)
+        else:
+            if param.kind is not inspect.Parameter.POSITIONAL_ONLY:
+                func_kwargs_names.add(name)
+
+            if param.kind is not inspect.Parameter.KEYWORD_ONLY:
+                # optional parameters can be used by position until one
+                # that is specified by keyword
+                if (
+                    param.default is not inspect.Parameter.empty
+                    and name in func_kwargs_names
+                    and kwargs is not None
+                    and name in kwargs
+                ):
+                    optional_by_keyword = True
+                if param.default is inspect.Parameter.empty or not optional_by_keyword:
+                    count_positional += 1
 
     if args is not None:
         try:
-- 
2.43.0


From 3f5eaa218715be6e4f50136f46b98aa2e5a41d9f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 30/44] fix: absolute times overflow in fractions of numpy
 integers

---
 src/graph_scheduler/scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 789ec8a..8619e8b 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1039,7 +1039,8 @@ class Scheduler:
 
             # numerator is the largest possible length of a pass
             # denominator evenly divides this length by number of consideration set executions
-            numerator = np.gcd.reduce([interval.m for interval in intervals])
+            # python int, because numpy integers overflow in fractions
+            numerator = int(np.gcd.reduce([interval.m for interval in intervals]))
             if self.mode == SchedulingMode.STANDARD:
                 denominator = len(self.consideration_queue)
             elif self.mode == SchedulingMode.EXACT_TIME:
-- 
2.43.0


From 130d34055c4bea90277fdaa09bc3952148507949 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 31/44] fix: absolute time stands still when only fixed points
 at zero are set

---
 src/graph_scheduler/scheduler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 8619e8b..3fc936d 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1041,6 +1041,9 @@ class Scheduler:
             # denominator evenly divides this length by number of consideration set executions
             # python int, because numpy integers overflow in fractions
             numerator = int(np.gcd.reduce([interval.m for interval in intervals]))
+            if numerator == 0:
+                # only fixed points at the start of the run
+                return self.default_absolute_time_unit
             if self.mode == SchedulingMode.STANDARD:
                 denominator = len(self.consideration_queue)
             elif self.mode == SchedulingMode.EXACT_TIME:
-- 
2.43.0


From eb619b505e131f546eca6090ffbb210f7061fa10 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 32/44] fix: removing the only structure condition of an owner
 raises an IndexError

---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index e5cec20..6cba449 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -846,8 +846,8 @@ class ConditionSet(object):
                         )
                     )
                 elif len(owner_struct_conds) == 1:
-                    remove_structural_condition(owner_struct_conds[0])
                     condition_found = owner_struct_conds[0]
+                    remove_structural_condition(condition_found)
         else:
             if condition is owner_basic_cond:
                 remove_basic_condition(condition)
-- 
2.43.0


From c2d424cbfaf667d3efc7441ad26f76c764373908 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 33/44] fix: callables that are unhashable, slotted or equal to
 another cannot be called reliably

The signature cache was keyed by equality, so callables that cannot be
hashed or weakly referenced raised TypeError, and callables equal to one
with another signature received wrong arguments.
---
 src/graph_scheduler/utilities.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index b01ebe8..485cbdd 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -28,6 +28,20 @@ class HashableDict(dict):
         return hash(frozenset((k, tuple(v)) for k, v in self.items()))
 
 
+def _get_signature(func):
+    # other callables may be unhashable, not support weak references, or
+    # be equal to a callable with a different signature
+    if not inspect.isfunction(getattr(func, '__func__', func)):
+        return inspect.signature(func)
+
+    try:
+        return _unused_args_sig_cache[func]
+    except KeyError:
+        sig = inspect.signature(func)
+        _unused_args_sig_cache[func] = sig
+        return sig
+
+
 def prune_unused_args(func, args=None, kwargs=None):
     """
         Arguments
@@ -47,11 +61,7 @@ def prune_unused_args(func, args=None, kwargs=None):
 
     """
     # use the func signature to filter out arguments that aren't compatible
-    try:
-        sig = _unused_args_sig_cache[func]
-    except KeyError:
-        sig = inspect.signature(func)
-        _unused_args_sig_cache[func] = sig
+    sig = _get_signature(func)
 
     has_args_param = False
     has_kwargs_param = False
-- 
2.43.0


From ef191a89b5d3e3a430f036a687a54be976a88806 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 34/44] fix: time scale aliases overwrite existing names

An alias whose names in lower case or in class style already exist (e.g.
ABSOLUTE, or CALL for PASS) replaced, and on removal deleted, attributes
of Time and conditions.
---
 src/graph_scheduler/time.py | 47 ++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 088cc2e..19ec1ad 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -17,7 +17,7 @@ import functools
 import keyword
 import re
 import types
-from typing import Dict, Union
+from typing import Dict, Set, Union
 
 from graph_scheduler import _unit_registry
 
@@ -647,6 +647,48 @@ def _multi_substitute_docstring(cls, subs: Dict[str, str]):
         cls.__doc__ = new_docstring
 
 
+def _get_alias_class_names(name: str, target: TimeScale) -> Set[str]:
+    """
+    Returns the names in class style that are created by aliasing
+    **target** to **name** (e.g. AtEnvironmentStateUpdate)
+    """
+    import graph_scheduler
+
+    target_class_segment_name = _time_scale_to_class_str(target)
+    return {
+        cls_name.replace(target_class_segment_name, _time_scale_to_class_str(name))
+        for cls_name in graph_scheduler.__dict__
+        if target_class_segment_name in cls_name
+    }
+
+
+def _validate_alias_name(name: str, target: TimeScale):
+    """
+    Raises ValueError if **name** or a name created by aliasing
+    **target** to it is used by anything except the alias it replaces
+    """
+    import graph_scheduler
+
+    time_names = {name.lower()}
+    class_names = _get_alias_class_names(name, target)
+
+    if target in _time_scale_aliases:
+        time_names -= {_time_scale_aliases[target].lower()}
+        class_names -= _get_alias_class_names(_time_scale_aliases[target], target)
+
+    time = Time()
+    for objs, names in [
+        ((TimeScale, target), {name}),
+        ((time, SimpleTime(time)), time_names),
+        ((graph_scheduler, graph_scheduler.condition), class_names),
+    ]:
+        for n in sorted(names):
+            if any(hasattr(o, n) for o in objs):
+                raise ValueError(
+                    f"Invalid alias '{name}' of {target}: '{n}' already exists"
+                )
+
+
 def set_time_scale_alias(name: str, target: TimeScale):
     """Sets an alias named **name** of TimeScale **target**
 
@@ -673,8 +715,7 @@ def set_time_scale_alias(name: str, target: TimeScale):
     if not isinstance(target, TimeScale):
         raise ValueError(f'Invalid TimeScale {target}')
 
-    if name in TimeScale.__members__:
-        raise ValueError(f"'{name}' is the name of a TimeScale")
+    _validate_alias_name(name, target)
 
     if target in _time_scale_aliases:
         remove_time_scale_alias(_time_scale_aliases[target])
-- 
2.43.0


From 9c5e1d64d35b43c0df659ff9f65e8e7ce78598aa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:17:11 +0000
Subject: [PATCH 35/44] fix: time scale aliases with repeated or outer
 underscores raise IndexError

The alias was left half set.
---
 src/graph_scheduler/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 19ec1ad..0749370 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -628,7 +628,7 @@ def _time_scale_to_class_str(time_scale: Union[TimeScale, str]) -> str:
     except AttributeError:
         name = time_scale
 
-    return ''.join([f'{x[0].upper()}{x[1:].lower()}' for x in name.split('_')])
+    return ''.join([f'{x[0].upper()}{x[1:].lower()}' for x in name.split('_') if len(x) > 0])
 
 
 def _attr_str_to_time_scale(attr_str):
-- 
2.43.0


From e472ce624d5b3b3c6ff6d5c2a0345396445fe15e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 36/44] fix: time scale aliases also rename the conditions
 named by other aliases

With aliases PASS_GROUP of ENVIRONMENT_SEQUENCE and FOO of PASS, AtFooGroup
was created and left behind.
---
 src/graph_scheduler/time.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 0749370..028b73d 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -647,6 +647,11 @@ def _multi_substitute_docstring(cls, subs: Dict[str, str]):
         cls.__doc__ = new_docstring
 
 
+def _is_original_name(name, obj):
+    # names created by aliases differ from the name of the object
+    return getattr(obj, '__name__', None) == name
+
+
 def _get_alias_class_names(name: str, target: TimeScale) -> Set[str]:
     """
     Returns the names in class style that are created by aliasing
@@ -657,8 +662,8 @@ def _get_alias_class_names(name: str, target: TimeScale) -> Set[str]:
     target_class_segment_name = _time_scale_to_class_str(target)
     return {
         cls_name.replace(target_class_segment_name, _time_scale_to_class_str(name))
-        for cls_name in graph_scheduler.__dict__
-        if target_class_segment_name in cls_name
+        for cls_name, cls in graph_scheduler.__dict__.items()
+        if target_class_segment_name in cls_name and _is_original_name(cls_name, cls)
     }
 
 
@@ -755,7 +760,7 @@ def set_time_scale_alias(name: str, target: TimeScale):
                 }
             )
 
-        if target_class_segment_name in cls_name:
+        if target_class_segment_name in cls_name and _is_original_name(cls_name, cls):
             new_cls_name = cls_name.replace(
                 target_class_segment_name,
                 new_class_segment_name
@@ -814,7 +819,11 @@ def remove_time_scale_alias(name: str):
                 target_class_segment_name,
                 new_class_segment_name
             )
-            if alias_cls_name != cls_name and hasattr(graph_scheduler, alias_cls_name):
+            if (
+                alias_cls_name != cls_name
+                and _is_original_name(cls_name, cls)
+                and hasattr(graph_scheduler, alias_cls_name)
+            ):
                 delattr(graph_scheduler.condition, alias_cls_name)
                 delattr(graph_scheduler, alias_cls_name)
 
-- 
2.43.0


From 8bed1abb34d72c52024625c92eb630ab33465632 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 37/44] fix: removing time scale aliases does not restore
 docstrings

Only the last of several substitutions was undone, the note in modules
never was, and classes without a docstring received that of a base.
---
 src/graph_scheduler/time.py | 72 ++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 42 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 028b73d..6e42fc2 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -15,7 +15,6 @@ import copy
 import enum
 import functools
 import keyword
-import re
 import types
 from typing import Dict, Set, Union
 
@@ -27,6 +26,7 @@ __all__ = [
 
 
 _time_scale_aliases = {}
+_original_docstrings = {}
 _alias_docs_warning_str = """
 
 .. note:: This documentation was modified from the original due to environment-specific TimeScale renamings. If there is any confusion, please see the original documentation at https://www.github.com/kmantel/graph-scheduler
@@ -635,16 +635,31 @@ def _attr_str_to_time_scale(attr_str):
     return getattr(TimeScale, attr_str.rstrip('_'))
 
 
-def _multi_substitute_docstring(cls, subs: Dict[str, str]):
-    new_docstring = cls.__doc__
-    try:
-        for prev, new in subs.items():
-            new_docstring = re.sub(prev, new, new_docstring)
-    except TypeError:
-        pass
-    else:
-        cls._old_docstring = cls.__doc__
-        cls.__doc__ = new_docstring
+def _update_docstrings():
+    """
+    Replaces names of TimeScales in the original docstrings with their
+    current aliases
+    """
+    import graph_scheduler
+
+    for obj in graph_scheduler.__dict__.copy().values():
+        if not isinstance(obj, (type, types.ModuleType)):
+            continue
+
+        docstring = _original_docstrings.setdefault(obj, obj.__doc__)
+        if docstring is None:
+            continue
+
+        for target, name in _time_scale_aliases.items():
+            docstring = docstring.replace(target.name, name)
+            docstring = docstring.replace(
+                _time_scale_to_class_str(target), _time_scale_to_class_str(name)
+            )
+
+        if isinstance(obj, types.ModuleType) and len(_time_scale_aliases) > 0:
+            docstring = f'{_alias_docs_warning_str}{docstring}'
+
+        obj.__doc__ = docstring
 
 
 def _is_original_name(name, obj):
@@ -744,22 +759,6 @@ def set_time_scale_alias(name: str, target: TimeScale):
         # make aliases of conditions that contain a TimeScale name (e.g. AtEnvironmentStateUpdate)
         target_class_segment_name = _time_scale_to_class_str(target)
 
-        if isinstance(cls, (type, types.ModuleType)):
-            if isinstance(cls, types.ModuleType):
-                try:
-                    if _alias_docs_warning_str not in cls.__doc__:
-                        cls.__doc__ = f'{_alias_docs_warning_str}{cls.__doc__}'
-                except TypeError:
-                    pass
-
-            _multi_substitute_docstring(
-                cls,
-                {
-                    target.name: name,
-                    target_class_segment_name: new_class_segment_name,
-                }
-            )
-
         if target_class_segment_name in cls_name and _is_original_name(cls_name, cls):
             new_cls_name = cls_name.replace(
                 target_class_segment_name,
@@ -772,6 +771,8 @@ def set_time_scale_alias(name: str, target: TimeScale):
             graph_scheduler.condition.__all__.append(new_cls_name)
             graph_scheduler.__all__.append(new_cls_name)
 
+    _update_docstrings()
+
 
 def remove_time_scale_alias(name: str):
     """Removes an alias previously set by `set_time_scale_alias`
@@ -799,21 +800,6 @@ def remove_time_scale_alias(name: str):
         new_class_segment_name = _time_scale_to_class_str(name)
         target_class_segment_name = _time_scale_to_class_str(name_aliased_time_scales[0])
         for cls_name, cls in graph_scheduler.__dict__.copy().items():
-            if isinstance(cls, (type, types.ModuleType)):
-                if isinstance(cls, types.ModuleType):
-                    if len(_time_scale_aliases) == 0:
-                        try:
-                            re.sub(_alias_docs_warning_str, '', cls.__doc__)
-                        except TypeError:
-                            pass
-
-                try:
-                    cls.__doc__ = cls._old_docstring
-                    del cls._old_docstring
-                except AttributeError:
-                    # not all modules have docstrings
-                    pass
-
             # names created by set_time_scale_alias
             alias_cls_name = cls_name.replace(
                 target_class_segment_name,
@@ -829,3 +815,5 @@ def remove_time_scale_alias(name: str):
 
                 graph_scheduler.condition.__all__.remove(alias_cls_name)
                 graph_scheduler.__all__.remove(alias_cls_name)
+
+        _update_docstrings()
-- 
2.43.0


From 1438bfcaaa80dafd991309188e1a258e42f4ae60 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 38/44] fix: graph functions return stale results for graphs
 modified in place

The cache key shared the caller's dependency sets, so that nodes of equal
hash could find the result of the graph before its modification.
---
 src/graph_scheduler/utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 485cbdd..4d3f5ee 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -298,7 +298,9 @@ def cached_graph_function(func):
     """
     @functools.wraps(func)
     def graph_function_wrapper(graph: typing_graph_dependency_dict):
-        result = cached_hashable_graph_function(func, HashableDict(graph))
+        # the caller may modify the dependencies later
+        graph = HashableDict(clone_graph(graph))
+        result = cached_hashable_graph_function(func, graph)
 
         # the cached object must not be modified by the caller
         if isinstance(result, dict):
-- 
2.43.0


From a04f00b9feed18c632f5196d8286ea7d765f9ef9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 39/44] fix: Scheduler accepts single dependencies only of one
 letter

The senders of a dependency given as a node instead of a set were its
letters, or not iterable, although clone_graph takes it as one node.
---
 src/graph_scheduler/scheduler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 3fc936d..2b05172 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -500,9 +500,10 @@ class Scheduler:
             )
         else:
             # add empty dependency set for senders that aren't present
+            base_graph = clone_graph(graph)
             base_graph = {
-                **{n: set() for n in set().union(*graph.values())},
-                **clone_graph(graph)
+                **{n: set() for n in set().union(*base_graph.values())},
+                **base_graph
             }
 
         self._push_graph(base_graph)
-- 
2.43.0


From 9d5cc4ecd320ccea4eed49641386375ce13da225 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 40/44] fix: removing a condition shared by two schedulers
 takes its owner away from both

---
 src/graph_scheduler/condition.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 6cba449..58c326d 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -790,9 +790,8 @@ class ConditionSet(object):
                   owner is None
         """
         def remove_basic_condition(c):
+            # c keeps its owner because it may be in use in another set
             del self.conditions_basic[owner]
-            if c is not None:
-                c.owner = None
 
         def remove_structural_condition(c):
             try:
-- 
2.43.0


From c32839e582498367666b422d7f8425d4503f2283 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:11:36 +0000
Subject: [PATCH 41/44] fix: an NWhen shared by two schedulers is used up by
 the runs of either

---
 src/graph_scheduler/condition.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 58c326d..a2b9c4a 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1317,12 +1317,15 @@ class NWhen(_SingleConditionWrapper):
         self.condition.owner = value
 
     def satis(self, condition, n, *args, scheduler=None, execution_id=None, **kwargs):
-        if execution_id not in self.satisfactions:
-            self.satisfactions[execution_id] = 0
+        # may be shared by several schedulers
+        context = (scheduler, execution_id)
 
-        if self.satisfactions[execution_id] < n:
+        if context not in self.satisfactions:
+            self.satisfactions[context] = 0
+
+        if self.satisfactions[context] < n:
             if call_with_pruned_args(condition.is_satisfied, *args, scheduler=scheduler, execution_id=execution_id, **kwargs):
-                self.satisfactions[execution_id] += 1
+                self.satisfactions[context] += 1
                 return True
         return False
 
-- 
2.43.0


From 726d4c1410ee4d4e6cb8b45c8921d22f05c26b82 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:31:26 +0000
Subject: [PATCH 42/44] fix: a dict of subject operations that lacks a node is
 accepted

---
 src/graph_scheduler/condition.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index a2b9c4a..be22517 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3247,7 +3247,11 @@ class _GSCWithOperations(_GSCUsingNodes):
                     )
                 subject[n] = self._parse_operation_arg(v)
 
-            nodes_missing_subject_operations = subject.keys() - set(nodes)
+            # list, because nodes are not yet known to be hashable
+            operation_nodes = list(subject)
+            nodes_missing_subject_operations = [
+                n for n in nodes if n not in operation_nodes
+            ]
             if len(nodes_missing_subject_operations) > 0:
                 raise ConditionError(
                     f'{operation_arg_name} specified as a dict but does not'
-- 
2.43.0


From b5d61b98aa064262e87ec371b3f8e5ad5486f7d7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:31:54 +0000
Subject: [PATCH 43/44] fix: a dict of subject operations is modified by the
 condition it is given to

---
 src/graph_scheduler/condition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index be22517..3b49fbf 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3240,6 +3240,8 @@ class _GSCWithOperations(_GSCUsingNodes):
             operation_arg_name = 'subject_receivers'
 
         if isinstance(subject, dict):
+            # copy, because the argument belongs to the caller
+            subject = dict(subject)
             for n, v in subject.items():
                 if n not in nodes:
                     raise ConditionError(
-- 
2.43.0


From 0d7f8be717675872bb8329cba256b4ad26172c6d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:25:21 +0000
Subject: [PATCH 44/44] fix: call counts include nodes of a consideration set
 given up because of an error

---
 src/graph_scheduler/scheduler.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 2b05172..d40098c 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -962,7 +962,17 @@ class Scheduler:
                         # only add each node once during a single consideration set execution, this also serves
                         # to prevent infinitely cascading adds
                         if current_node not in cur_consideration_set_execution_exec:
-                            if self.conditions.conditions_basic[current_node].is_satisfied(**is_satisfied_kwargs):
+                            try:
+                                satisfied = self.conditions.conditions_basic[current_node].is_satisfied(**is_satisfied_kwargs)
+                            except BaseException:
+                                # nodes already added to this consideration
+                                # set execution will not be executed
+                                for ts in TimeScale:
+                                    for node in cur_consideration_set_execution_exec:
+                                        self.counts_total[execution_id][ts][node] -= 1
+                                raise
+
+                            if satisfied:
                                 cur_consideration_set_execution_exec.add(current_node)
                                 execution_list_has_changed = True
                                 cur_consideration_set_has_changed = True
-- 
2.43.0

