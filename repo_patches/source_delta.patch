From 67404b4683422a62e4f3b05cacd5fa801e8c115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 01/47] fix: return the removed condition from
 ConditionSet.remove_condition

It returned None when given an owner, the condition itself when nothing
was removed, and raised IndexError for an owner of one structural condition.
---
 src/graph_scheduler/condition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index e57feca..aef7e86 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -831,8 +831,8 @@ class ConditionSet(object):
                         )
                     )
                 elif len(owner_struct_conds) == 1:
-                    remove_structural_condition(owner_struct_conds[0])
                     condition_found = owner_struct_conds[0]
+                    remove_structural_condition(condition_found)
         else:
             if condition is owner_basic_cond:
                 remove_basic_condition(condition)
@@ -845,7 +845,7 @@ class ConditionSet(object):
         else:
             warnings.warn(f'Condition {condition} not found for owner {owner}.')
 
-        return condition
+        return condition_found
 
     def add_condition_set(
         self, conditions: Union['ConditionSet', typing_dict_condition_set]
-- 
2.43.0


From 700e58b05290e480b19b2ee5dc075209a4274e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 02/47] fix: ConditionSet item assignment over structural
 conditions

---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index aef7e86..b16a264 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -706,7 +706,7 @@ class ConditionSet(object):
     def __setitem__(self, key, value):
         if key in self.conditions_structural:
             for cond in reversed(self.conditions_structural[key]):
-                self.remove_condition(key, cond)
+                self.remove_condition(cond)
 
         self.add_condition(key, value)
 
-- 
2.43.0


From 0fe9dd72b5d0b19cbce55c03e06a26057b2c1f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 03/47] fix: keep the graph stack consistent when a structural
 condition raises

Conditions applied before the failing one were re-applied on each access,
or graphs were popped past the base graph. A cycle warning also named the
last structural condition instead of the one creating the cycle.
---
 src/graph_scheduler/scheduler.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index d4d4edb..0134b10 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -1104,24 +1104,25 @@ class Scheduler:
                 for cond in self._last_handled_structural_condition_order[common_index + 1:]:
                     self._pop_graph()
 
+            # the handled order always corresponds to the graph stack,
+            # even when a condition below raises an exception
+            self._last_handled_structural_condition_order = (
+                self.conditions.structural_condition_order[:common_index + 1]
+            )
+
             # add dependency dicts for new structural conditions
             cur_graph = self._graphs[-1]
             for cond in self.conditions.structural_condition_order[common_index + 1:]:
                 cur_graph = cond.modify_graph(cur_graph)
-                self._push_graph(cur_graph)
+                self._push_graph(cur_graph, cond)
+                self._last_handled_structural_condition_order.append(cond)
 
-            self._last_handled_structural_condition_order = copy.copy(
-                self.conditions.structural_condition_order
-            )
-
-    def _push_graph(self, graph):
+    def _push_graph(self, graph, cond=None):
         try:
             consideration_queue = _build_consideration_queue(graph)
         except CircularDependencyError as e:
             consideration_queue = [set()]
-            try:
-                cond = self.conditions.structural_condition_order[-1]
-            except IndexError:
+            if cond is None:
                 cond_str = 'Base graph'
             else:
                 cond_str = f'Condition {cond} for {cond.owner} creates a cycle: {e}'
-- 
2.43.0


From dd5e5ee6911ad4fb55206e71e67c008a4c594e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 04/47] fix: rebuild the graph when a structural condition
 moves to another owner

---
 src/graph_scheduler/scheduler.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 0134b10..4444b50 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -474,6 +474,7 @@ class Scheduler:
         """
         self.conditions = ConditionSet()
         self._last_handled_structural_condition_order = None
+        self._last_handled_structural_condition_owners = []
 
         self._graphs = []
         self._consideration_queues = []
@@ -1085,11 +1086,19 @@ class Scheduler:
         return self.mode is SchedulingMode.EXACT_TIME or len(self.consideration_queue) == 1
 
     def _handle_modified_structural_conditions(self):
-        if self._last_handled_structural_condition_order != self.conditions.structural_condition_order:
+        # a condition may be moved to a different owner
+        owners = [cond.owner for cond in self.conditions.structural_condition_order]
+        if (
+            self._last_handled_structural_condition_order != self.conditions.structural_condition_order
+            or self._last_handled_structural_condition_owners != owners
+        ):
             common_index = -1
             for i, cond in enumerate(self.conditions.structural_condition_order):
                 try:
-                    if self._last_handled_structural_condition_order[i] == cond:
+                    if (
+                        self._last_handled_structural_condition_order[i] == cond
+                        and self._last_handled_structural_condition_owners[i] == owners[i]
+                    ):
                         common_index = i
                     else:
                         break
@@ -1109,6 +1118,7 @@ class Scheduler:
             self._last_handled_structural_condition_order = (
                 self.conditions.structural_condition_order[:common_index + 1]
             )
+            self._last_handled_structural_condition_owners = owners[:common_index + 1]
 
             # add dependency dicts for new structural conditions
             cur_graph = self._graphs[-1]
@@ -1116,6 +1126,7 @@ class Scheduler:
                 cur_graph = cond.modify_graph(cur_graph)
                 self._push_graph(cur_graph, cond)
                 self._last_handled_structural_condition_order.append(cond)
+                self._last_handled_structural_condition_owners.append(cond.owner)
 
     def _push_graph(self, graph, cond=None):
         try:
-- 
2.43.0


From 1299bacfd66bfa7264d75fc9fb06a52aa3e0609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 05/47] fix: count node executions within one
 CONSIDERATION_SET_EXECUTION

The counts were only reset at the start of each PASS.
---
 src/graph_scheduler/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 4444b50..0dfbac1 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -924,6 +924,8 @@ class Scheduler:
                 and not termination_conds[TimeScale.ENVIRONMENT_STATE_UPDATE].is_satisfied(**is_satisfied_kwargs)
                 and not termination_conds[TimeScale.ENVIRONMENT_SEQUENCE].is_satisfied(**is_satisfied_kwargs)
             ):
+                self._reset_counts_total(TimeScale.CONSIDERATION_SET_EXECUTION, execution_id)
+
                 # all nodes to be added during this consideration set execution
                 cur_consideration_set_execution_exec = set()
                 # the current "layer/group" of nodes that MIGHT be added during this consideration set execution
-- 
2.43.0


From 94ca389c27f8cdf5defa000a0076a74114926fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 06/47] fix: reset ENVIRONMENT_SEQUENCE counts when a sequence
 ends

Conditions counting executions within one ENVIRONMENT_SEQUENCE also
counted the executions of all previous sequences.
---
 src/graph_scheduler/scheduler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 0dfbac1..e580af9 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -676,6 +676,8 @@ class Scheduler:
             execution_id = self.default_execution_id
 
         self._increment_time(TimeScale.ENVIRONMENT_SEQUENCE, execution_id)
+        if execution_id in self.counts_total:
+            self._reset_counts_total(TimeScale.ENVIRONMENT_SEQUENCE, execution_id)
 
     def add_graph_edge(self, sender: Hashable, receiver: Hashable) -> AddEdgeTo:
         """
-- 
2.43.0


From 1f4bf02e5474cb65784eb2a6d22dcfdf3b1a2ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 07/47] fix: JustRan is unsatisfied when nothing has been
 executed yet

---
 src/graph_scheduler/condition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index b16a264..1bae0de 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2180,6 +2180,9 @@ class JustRan(_DependencyValidation, Condition):
     def __init__(self, dependency):
         def func(dependency, scheduler=None, execution_id=None):
             logger.debug(f'checking if {dependency} in previous execution step set')
+            if len(scheduler.execution_list[execution_id]) == 0:
+                return False
+
             try:
                 return dependency in scheduler.execution_list[execution_id][-1]
             except TypeError:
-- 
2.43.0


From 2870dae99dbbd3f8f3b9956c4be48d5727d13b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 08/47] fix: composite conditions pass a changed owner on to
 their conditions

After being removed from one node and added to another, the contained
conditions still referred to the first owner.
---
 src/graph_scheduler/condition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 1bae0de..71bb38c 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1142,10 +1142,11 @@ class Never(Condition):
 class CompositeCondition(Condition):
     @Condition.owner.setter
     def owner(self, value):
+        prev_owner = self.owner
         super(CompositeCondition, CompositeCondition).owner.__set__(self, value)
         for cond in self.args:
             logger.debug('owner setter: Setting owner of {0} to ({1})'.format(cond, value))
-            if cond.owner is None:
+            if cond.owner is None or cond.owner == prev_owner:
                 cond.owner = value
 
     @property
-- 
2.43.0


From ba7aebf0f3e6b3b171a3f8401836f2192b9bdff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 09/47] fix: use the absolute time arguments of Time

---
 src/graph_scheduler/time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 53bf032..d4b9ed9 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -260,10 +260,10 @@ class Time(types.SimpleNamespace):
             **{
                 _time_scale_to_attr_str(ts): v for ts, v in time_scale_values.items()
             },
-            absolute=_get_pint_unit(0, 'ms'),
-            absolute_interval=_get_pint_unit(1, 'ms'),
-            absolute_time_unit_scale=TimeScale.CONSIDERATION_SET_EXECUTION,
-            absolute_enabled=False,
+            absolute=absolute,
+            absolute_interval=absolute_interval,
+            absolute_time_unit_scale=absolute_time_unit_scale,
+            absolute_enabled=absolute_enabled,
         )
 
     def __repr__(self):
-- 
2.43.0


From 343f3e2220c7d7c74f39f5e696e71aeed4fa8202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 10/47] fix: initialize execution_timestamps for each
 execution_id

Running in absolute time with an execution_id other than the default
raised KeyError.
---
 src/graph_scheduler/scheduler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index e580af9..3727621 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -580,6 +580,14 @@ class Scheduler:
             else:
                 self.execution_list[execution_id] = []
 
+        if execution_id not in self.execution_timestamps:
+            if base_execution_id is not NotImplemented:
+                self.execution_timestamps[execution_id] = list(
+                    self.execution_timestamps.get(base_execution_id, [])
+                )
+            else:
+                self.execution_timestamps[execution_id] = []
+
         self._init_clock(execution_id, base_execution_id)
 
     def _init_clock(self, execution_id, base_execution_id=NotImplemented):
-- 
2.43.0


From 3bef03d2c73475e0de2d1fc0ff5d1463ad0567b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 11/47] fix: copy the clock of base_execution_id in run

A new clock was created before the counts were initialized from
base_execution_id, so that its clock was never used.
---
 src/graph_scheduler/scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 3727621..77301a9 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -886,6 +886,8 @@ class Scheduler:
         else:
             termination_conds = self._combine_termination_conditions(termination_conds)
 
+        self._init_counts(execution_id, base_execution_id)
+
         current_time = self.get_clock(execution_id).time
         is_satisfied_kwargs = {
             'scheduler': self,
@@ -916,7 +918,6 @@ class Scheduler:
 
         current_time.absolute_enabled = in_absolute_time_mode
 
-        self._init_counts(execution_id, base_execution_id)
         self._reset_counts_useable(execution_id)
         self._reset_counts_total(TimeScale.ENVIRONMENT_STATE_UPDATE, execution_id)
 
-- 
2.43.0


From 8020e0fc7d0d0d0540bb101024b9d1ed08144b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 12/47] fix: run uses default_execution_id and starts a new
 execution_id fresh

Without an execution_id, run used None instead of default_execution_id,
which failed if that was specified. Without a base_execution_id, a new
execution_id copied its state from the execution_id None.
---
 src/graph_scheduler/scheduler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 77301a9..f31c8cb 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -867,8 +867,8 @@ class Scheduler:
     def run(
         self,
         termination_conds=None,
-        execution_id=None,
-        base_execution_id=None,
+        execution_id=NotImplemented,
+        base_execution_id=NotImplemented,
         skip_environment_state_update_time_increment=False,
         **kwargs,
     ):
@@ -878,7 +878,14 @@ class Scheduler:
 
         :param termination_conds: (dict) - a mapping from `TimeScale`\\s to `Condition`\\s that when met
                terminate the execution of the specified `TimeScale`
+        :param execution_id: (optional) - the execution_id to run; defaults to
+               `Scheduler.default_execution_id`
+        :param base_execution_id: (optional) - if specified, a new execution_id
+               starts from the state of base_execution_id
         """
+        if execution_id is NotImplemented:
+            execution_id = self.default_execution_id
+
         self._validate_run_state()
 
         if termination_conds is None:
-- 
2.43.0


From 4b6f1419cc9e19de5e549802469e0d9ba8afbae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 13/47] fix: compare start and end of TimeInterval as times

Strings were compared alphabetically, and different types could not be
compared.
---
 src/graph_scheduler/condition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 71bb38c..be51efc 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1369,13 +1369,13 @@ class TimeInterval(AbsoluteCondition):
                 'At least one of "repeat", "start", "end" must be specified'
             )
 
-        if start is not None and end is not None and start > end:
-            raise ConditionError(f'Start ({start}) is later than {end}')
-
         repeat = _parse_absolute_unit(repeat, unit)
         start = _parse_absolute_unit(start, unit)
         end = _parse_absolute_unit(end, unit)
 
+        if start is not None and end is not None and start > end:
+            raise ConditionError(f'Start ({start}) is later than {end}')
+
         def func(scheduler, execution_id):
             satisfied = True
             clock = scheduler.get_clock(execution_id)
-- 
2.43.0


From f8c0bb2bdb464f19f66435211418ebb97850312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 14/47] fix: TimeInterval with repeat but without an owner

It raised UnboundLocalError as a termination condition.
---
 src/graph_scheduler/condition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index be51efc..112a87c 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1383,6 +1383,8 @@ class TimeInterval(AbsoluteCondition):
             if scheduler._in_exact_time_mode and start is not None:
                 offset = start
             else:
+                # may have no owner, e.g. as a termination condition
+                offset = 0 * clock.time.absolute_interval
                 for i, cs in enumerate(scheduler.consideration_queue):
                     if self.owner in cs:
                         offset = i * clock.time.absolute_interval
-- 
2.43.0


From 283c218880971aca6214f39e64fdcb836a27c833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 15/47] fix: do not modify the given termination conditions
 when parsing them

str keys raised RuntimeError because the dictionary changed size during
iteration.
---
 src/graph_scheduler/scheduler.py | 46 +++++++++++++-------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index f31c8cb..297c7e8 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -643,36 +643,28 @@ class Scheduler:
             " GraphStructureCondition."
         )
 
-        # parse string representation of TimeScale
-        parsed_conds = termination_conds
-        delkeys = set()
-        for scale in termination_conds:
+        try:
+            items = list(termination_conds.items())
+        except AttributeError:
+            raise TypeError(err_msg)
+
+        parsed_conds = {}
+        invalid_conds = {}
+        for scale, cond in items:
+            # parse string representation of TimeScale
             try:
-                parsed_conds[getattr(TimeScale, scale.upper())] = termination_conds[scale]
-                delkeys.add(scale)
+                parsed_scale = getattr(TimeScale, scale.upper())
             except (AttributeError, TypeError):
-                pass
+                parsed_scale = scale
 
-        try:
-            parsed_conds = {
-                k: parsed_conds[k]
-                for k in parsed_conds
-                if (
-                    isinstance(k, TimeScale)
-                    and isinstance(parsed_conds[k], Condition)
-                    and k not in delkeys
-                )
-            }
-        except TypeError:
-            raise TypeError(err_msg)
-        else:
-            invalid_conds = {
-                k: termination_conds[k]
-                for k in termination_conds.keys() - parsed_conds.keys() - delkeys
-            }
-            if len(invalid_conds) > 0:
-                raise SchedulerError(f"{err_msg} Invalid: {invalid_conds}")
-            return parsed_conds
+            if isinstance(parsed_scale, TimeScale) and isinstance(cond, Condition):
+                parsed_conds[parsed_scale] = cond
+            else:
+                invalid_conds[scale] = cond
+
+        if len(invalid_conds) > 0:
+            raise SchedulerError(f"{err_msg} Invalid: {invalid_conds}")
+        return parsed_conds
 
     def end_environment_sequence(self, execution_id=NotImplemented):
         """Signals that an `ENVIRONMENT_SEQUENCE` has completed
-- 
2.43.0


From 67433b1ed2cb285f48848c1ac09200d3715231ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 16/47] fix: do not share sender sets among nodes in graph
 operations

An edge added to or removed from one node also changed the others that
received the same set from an Operation.
---
 src/graph_scheduler/condition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 112a87c..e9bd9bb 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3141,7 +3141,8 @@ class _GSCWithOperations(_GSCUsingNodes):
                         sender, receiver, new_sender_nodes, new_receiver_nodes, graph, old_receiver_nodes
                     )
                     conflict_strings.extend(edge_conflicts)
-            result_graph[receiver] = new_sender_nodes[receiver]
+            # Operations may return the same set for multiple nodes
+            result_graph[receiver] = set(new_sender_nodes[receiver])
 
         # sender has an operation that changes its receiver nodes
         # ([owner/subject]_receiver)
-- 
2.43.0


From 7a1159810cb8609995ade0f7bd3d01920466fffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 17/47] fix: report operation conflicts for nodes that are not
 strings

---
 src/graph_scheduler/condition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index e9bd9bb..e78e547 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2910,8 +2910,8 @@ class _GSCWithOperations(_GSCUsingNodes):
         except TypeError:
             pass
 
-        sources_str = ','.join(sources) if len(sources) else '{}'
-        comparisons_str = ','.join(comparisons) if len(comparisons) else '{}'
+        sources_str = ','.join([str(n) for n in sources]) if len(sources) else '{}'
+        comparisons_str = ','.join([str(n) for n in comparisons]) if len(comparisons) else '{}'
 
         return '\t{0} {1} applied on {2} with {3} against {4}'.format(
             str(operation_arg_name).ljust(self._operations_names_max_length()),
-- 
2.43.0


From 1ecd2daf28fe6255a07f847128371cd545b3dedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 18/47] fix: compare nodes by equality in graph structure
 conditions

The resulting graph depended on whether equal nodes (e.g. strings) are
the same object.
---
 src/graph_scheduler/condition.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index e78e547..222292e 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2924,7 +2924,7 @@ class _GSCWithOperations(_GSCUsingNodes):
     def _get_edge_conflicts(
         self, sender, receiver, new_sender_nodes, new_receiver_nodes, old_sender_nodes, old_receiver_nodes
     ):
-        if receiver is self.owner:
+        if receiver == self.owner:
             sender_operation = 'owner_senders'
             sender_sources = old_sender_nodes[self.owner]
             sender_comparisons = set().union(*[old_sender_nodes[n] for n in self.nodes])
@@ -2933,7 +2933,7 @@ class _GSCWithOperations(_GSCUsingNodes):
             sender_sources = old_sender_nodes[receiver]
             sender_comparisons = old_sender_nodes[self.owner]
 
-        if sender is self.owner:
+        if sender == self.owner:
             receiver_operation = 'owner_receivers'
             receiver_sources = old_receiver_nodes[self.owner]
             receiver_comparisons = set().union(*[old_receiver_nodes[n] for n in self.nodes])
@@ -3021,7 +3021,7 @@ class _GSCWithOperations(_GSCUsingNodes):
 
     def _prune_owner_edge(self, owner_idx, cycle, graph, base_graph):
         len_cycle = len(cycle)
-        assert cycle[owner_idx % len_cycle] is self.owner
+        assert cycle[owner_idx % len_cycle] == self.owner
 
         owner_is_full_ancestor = True
         owner_is_full_descendant = True
@@ -3072,11 +3072,11 @@ class _GSCWithOperations(_GSCUsingNodes):
                     receiver_idx = (i + 1) % len_c
                     receiver = c[receiver_idx]
 
-                    if receiver is self.owner:
+                    if receiver == self.owner:
                         self._prune_owner_edge(receiver_idx, c, graph, base_graph)
                     elif (
                         receiver in base_graph[sender]
-                        and sender is not self.owner
+                        and sender != self.owner
                         and not self._is_required_edge(sender, receiver)
                     ):
                         # may have been removed in another cycle
@@ -3310,7 +3310,7 @@ class BeforeNodes(_GSCReposition, _GSCWithOperations):
         return [n for n in self.nodes if self.owner in graph[n]]
 
     def _is_required_edge(self, sender, receiver):
-        return sender is self.owner and receiver in self.nodes
+        return sender == self.owner and receiver in self.nodes
 
     def _process(self, graph):
         graph = super()._process(graph)
@@ -3367,7 +3367,7 @@ class WithNode(_GSCReposition, _GSCWithOperations, _GSCSingleNode):
         return [n for n in self.nodes if graph[n] == graph[self.owner]]
 
     def _is_required_edge(self, sender, receiver):
-        return receiver is self.node or receiver is self.owner
+        return receiver == self.node or receiver == self.owner
 
     def _process(self, graph):
         graph = super()._process(graph)
@@ -3416,7 +3416,7 @@ class AfterNodes(_GSCReposition, _GSCWithOperations):
         return [n for n in self.nodes if n in graph[self.owner]]
 
     def _is_required_edge(self, sender, receiver):
-        return sender in self.nodes and receiver is self.owner
+        return sender in self.nodes and receiver == self.owner
 
     def _process(self, graph):
         graph = super()._process(graph)
-- 
2.43.0


From 71bb000a07ee9a5c6075417c6d3360971f928330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 19/47] fix: isolate callers of cached graph functions from
 each other

Modifying a result changed the results of later calls for an equal
graph, and results contained nodes of an other graph with equal nodes.
---
 src/graph_scheduler/utilities.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 33496dc..024567d 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 import functools
 import inspect
 import logging
@@ -26,6 +27,17 @@ class HashableDict(dict):
     def __hash__(self):
         return hash(frozenset((k, tuple(v)) for k, v in self.items()))
 
+    def _node_ids(self):
+        return {id(k): {id(n) for n in v} for k, v in self.items()}
+
+    def __eq__(self, other):
+        # results refer to the nodes of the graph they were computed
+        # from, so equal but not identical nodes are not interchangeable
+        return super().__eq__(other) and self._node_ids() == other._node_ids()
+
+    def __ne__(self, other):
+        return not self == other
+
 
 def prune_unused_args(func, args=None, kwargs=None):
     """
@@ -274,7 +286,12 @@ def cached_graph_function(func):
     """
     @functools.wraps(func)
     def graph_function_wrapper(graph: typing_graph_dependency_dict):
-        return cached_hashable_graph_function(func, HashableDict(graph))
+        res = cached_hashable_graph_function(func, HashableDict(graph))
+        # the cached result is shared among all callers
+        if isinstance(res, dict):
+            return {k: copy.copy(v) for k, v in res.items()}
+        else:
+            return [copy.copy(v) for v in res]
 
     return graph_function_wrapper
 
-- 
2.43.0


From 3438ad0f84502be5d15730f579262462b1906505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 20/47] fix: remove only the class names that a TimeScale alias
 added

Removing the alias RUN also removed AllHaveRun.
---
 src/graph_scheduler/time.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index d4b9ed9..7274fe4 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -27,6 +27,7 @@ __all__ = [
 
 
 _time_scale_aliases = {}
+_time_scale_alias_class_names = {}
 _alias_docs_warning_str = """
 
 .. note:: This documentation was modified from the original due to environment-specific TimeScale renamings. If there is any confusion, please see the original documentation at https://www.github.com/kmantel/graph-scheduler
@@ -683,6 +684,7 @@ def set_time_scale_alias(name: str, target: TimeScale):
     setattr(Time, name.lower(), prop)
     setattr(SimpleTime, name.lower(), prop)
 
+    _time_scale_alias_class_names[name] = []
     # alias name in style of a class name
     new_class_segment_name = _time_scale_to_class_str(name)
     for cls_name, cls in graph_scheduler.__dict__.copy().items():
@@ -710,7 +712,10 @@ def set_time_scale_alias(name: str, target: TimeScale):
                 target_class_segment_name,
                 new_class_segment_name
             )
+            if hasattr(graph_scheduler, new_cls_name):
+                continue
 
+            _time_scale_alias_class_names[name].append(new_cls_name)
             setattr(graph_scheduler.condition, new_cls_name, cls)
             setattr(graph_scheduler, new_cls_name, cls)
 
@@ -741,7 +746,7 @@ def remove_time_scale_alias(name: str):
         delattr(Time, name.lower())
         delattr(SimpleTime, name.lower())
 
-        new_class_segment_name = _time_scale_to_class_str(name)
+        alias_class_names = _time_scale_alias_class_names.pop(name)
         for cls_name, cls in graph_scheduler.__dict__.copy().items():
 
             if isinstance(cls, (type, types.ModuleType)):
@@ -759,10 +764,7 @@ def remove_time_scale_alias(name: str):
                     # not all modules have docstrings
                     pass
 
-            # NOTE: this could accidentally remove some unintended conditions if
-            # an alias is constructed such that its determined class name is
-            # a substring of some other Condition class name, but this is unlikely
-            if new_class_segment_name in cls_name:
+            if cls_name in alias_class_names:
                 delattr(graph_scheduler.condition, cls_name)
                 delattr(graph_scheduler, cls_name)
 
-- 
2.43.0


From b77644a0e1cd0164a1f2bdf4395f10608ef58bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 21/47] fix: pass args to parameters that are positional-only
 or have a default

The args of a Condition were dropped for such parameters of its function,
and passed for keyword-only parameters without a default.
---
 src/graph_scheduler/utilities.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 024567d..6717405 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -67,6 +67,7 @@ def prune_unused_args(func, args=None, kwargs=None):
     has_args_param = False
     has_kwargs_param = False
     count_positional = 0
+    defaults_fillable = True
     func_kwargs_names = set()
 
     for name, param in sig.parameters.items():
@@ -74,9 +75,20 @@ def prune_unused_args(func, args=None, kwargs=None):
             has_args_param = True
         elif param.kind is inspect.Parameter.VAR_KEYWORD:
             has_kwargs_param = True
-        elif param.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD or param.kind is inspect.Parameter.KEYWORD_ONLY:
+        elif param.kind is inspect.Parameter.POSITIONAL_ONLY:
+            count_positional += 1
+        elif param.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD:
             if param.default is inspect.Parameter.empty:
                 count_positional += 1
+            else:
+                # args may fill parameters with a default value up to
+                # the first that is already specified in kwargs
+                if kwargs is not None and name in kwargs:
+                    defaults_fillable = False
+                if defaults_fillable:
+                    count_positional += 1
+            func_kwargs_names.add(name)
+        elif param.kind is inspect.Parameter.KEYWORD_ONLY:
             func_kwargs_names.add(name)
 
     if args is not None:
-- 
2.43.0


From d3f5468db0cdb31223214da43908d775c09cf483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 22/47] fix: do not convert absolute times to binary-prefixed
 units

Conversions among the units of absolute conditions assume powers of ten.
---
 src/graph_scheduler/condition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 222292e..5a7df3e 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -433,7 +433,9 @@ logger = logging.getLogger(__name__)
 _pint_all_time_units = sorted(
     set([
         getattr(_unit_registry, f'{x}s')
-        for x in _unit_registry._prefixes.keys()
+        for x, prefix in _unit_registry._prefixes.items()
+        # only powers of ten, not binary prefixes
+        if round(np.log10(float(prefix.value)), _unit_registry.precision) % 1 == 0
     ]),
     reverse=True
 )
-- 
2.43.0


From 54062f6b597da663a7102db7dca014e2aae8893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 23/47] fix: do not add the characters of a str sender as nodes
 of a graph

---
 src/graph_scheduler/scheduler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 297c7e8..583319c 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -498,10 +498,11 @@ class Scheduler:
                 'Must instantiate a Scheduler with a graph dependency dict or a networkx.DiGraph'
             )
         else:
+            base_graph = clone_graph(graph)
             # add empty dependency set for senders that aren't present
             base_graph = {
-                **{n: set() for n in set().union(*graph.values())},
-                **clone_graph(graph)
+                **{n: set() for n in set().union(*base_graph.values())},
+                **base_graph
             }
 
         self._push_graph(base_graph)
-- 
2.43.0


From 78532099c06bd669c1dbc2785338079eafd9c9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 24/47] fix: update implicit conditions when the graph changes
 after a run

Nodes without a condition kept depending on the parents they had in the
first run.
---
 src/graph_scheduler/scheduler.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 583319c..e4a98b2 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -476,6 +476,9 @@ class Scheduler:
         self._last_handled_structural_condition_order = None
         self._last_handled_structural_condition_owners = []
 
+        # implicit condition and dependencies of nodes without a condition
+        self._implicit_conditions = {}
+
         self._graphs = []
         self._consideration_queues = []
         self._consideration_queue_indices = []
@@ -827,8 +830,20 @@ class Scheduler:
     def _validate_conditions(self):
         unspecified_nodes = []
         for node in self.nodes:
+            dependencies = list(self.graph[node])
+
+            # an implicit condition corresponds to the current graph
+            try:
+                cond, implicit_dependencies = self._implicit_conditions[node]
+            except KeyError:
+                pass
+            else:
+                if self.conditions.conditions_basic.get(node) is not cond:
+                    del self._implicit_conditions[node]
+                elif implicit_dependencies != set(dependencies):
+                    self.conditions.remove_condition(cond)
+
             if node not in self.conditions.conditions_basic:
-                dependencies = list(self.graph[node])
                 if len(dependencies) == 0:
                     cond = Always()
                 elif len(dependencies) == 1:
@@ -837,6 +852,7 @@ class Scheduler:
                     cond = All(*[EveryNCalls(x, 1) for x in dependencies])
 
                 self.add_condition(node, cond)
+                self._implicit_conditions[node] = (cond, set(dependencies))
                 unspecified_nodes.append(node)
         if len(unspecified_nodes) > 0:
             logger.info(
-- 
2.43.0


From 63853cf4487740d067c598c1f7559cdf26577ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 25/47] fix: Not and NWhen of absolute conditions are absolute

Absolute time was not enabled for an absolute condition within them.
---
 src/graph_scheduler/condition.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 5a7df3e..5c0fead 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1264,6 +1264,18 @@ class Not(Condition):
         super(Not, Not).owner.__set__(self, value)
         self.condition.owner = value
 
+    @property
+    def absolute_intervals(self):
+        return self.condition.absolute_intervals
+
+    @property
+    def absolute_fixed_points(self):
+        return self.condition.absolute_fixed_points
+
+    @property
+    def is_absolute(self):
+        return self.condition.is_absolute
+
 
 class NWhen(Condition):
     """NWhen
@@ -1290,6 +1302,18 @@ class NWhen(Condition):
         super(NWhen, NWhen).owner.__set__(self, value)
         self.condition.owner = value
 
+    @property
+    def absolute_intervals(self):
+        return self.condition.absolute_intervals
+
+    @property
+    def absolute_fixed_points(self):
+        return self.condition.absolute_fixed_points
+
+    @property
+    def is_absolute(self):
+        return self.condition.is_absolute
+
     def satis(self, condition, n, *args, scheduler=None, execution_id=None, **kwargs):
         if execution_id not in self.satisfactions:
             self.satisfactions[execution_id] = 0
-- 
2.43.0


From 1cda03cb622ef7253e15c4da7258eb1064c432b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 26/47] fix: start absolute time before the end of intervals
 and termination

The clock advanced to the earliest fixed time of any absolute condition,
including the end of a TimeInterval and the time of a TimeTermination, so
that all satisfactions before it were skipped.
---
 src/graph_scheduler/condition.py | 34 ++++++++++++++++++++++++++++++++
 src/graph_scheduler/scheduler.py | 21 +++++++++++---------
 2 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 5c0fead..c0314bb 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1032,6 +1032,14 @@ class Condition(ConditionBase):
         """
         return []
 
+    @property
+    def _absolute_start_points(self):
+        """
+        In absolute time, the earliest time that each of this Condition
+        or those it contains can be satisfied
+        """
+        return []
+
     @property
     def is_absolute(self):
         return False
@@ -1165,6 +1173,13 @@ class CompositeCondition(Condition):
             for c in filter(lambda a: a.is_absolute, self.args)
         ]))
 
+    @property
+    def _absolute_start_points(self):
+        return list(itertools.chain.from_iterable([
+            c._absolute_start_points
+            for c in filter(lambda a: a.is_absolute, self.args)
+        ]))
+
     @property
     def is_absolute(self):
         return any(a.is_absolute for a in self.args)
@@ -1272,6 +1287,10 @@ class Not(Condition):
     def absolute_fixed_points(self):
         return self.condition.absolute_fixed_points
 
+    @property
+    def _absolute_start_points(self):
+        return [0 * _unit_registry.ms] if self.is_absolute else []
+
     @property
     def is_absolute(self):
         return self.condition.is_absolute
@@ -1310,6 +1329,10 @@ class NWhen(Condition):
     def absolute_fixed_points(self):
         return self.condition.absolute_fixed_points
 
+    @property
+    def _absolute_start_points(self):
+        return self.condition._absolute_start_points
+
     @property
     def is_absolute(self):
         return self.condition.is_absolute
@@ -1459,6 +1482,13 @@ class TimeInterval(AbsoluteCondition):
 
         return fp
 
+    @property
+    def _absolute_start_points(self):
+        if self.start_inclusive and self.start is not None:
+            return [self.start]
+        else:
+            return [0 * _unit_registry.ms]
+
 
 class TimeTermination(AbsoluteCondition):
     """TimeTermination
@@ -1503,6 +1533,10 @@ class TimeTermination(AbsoluteCondition):
     def absolute_fixed_points(self):
         return [self.t] if self.inclusive else []
 
+    @property
+    def _absolute_start_points(self):
+        return [self.t] if self.inclusive else [0 * _unit_registry.ms]
+
 
 class BeforeConsiderationSetExecution(Condition):
     """BeforeConsiderationSetExecution
diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index e4a98b2..ab4293d 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -914,15 +914,18 @@ class Scheduler:
         in_absolute_time_mode = len(self.get_absolute_conditions(termination_conds)) > 0
         if in_absolute_time_mode:
             current_time.absolute_interval = self._get_absolute_consideration_set_execution_unit(termination_conds)
-            # advance absolute clock time to first necessary time
-            current_time.absolute = max(
-                current_time.absolute,
-                min([
-                    min(c.absolute_fixed_points)
-                    if len(c.absolute_fixed_points) > 0 else 0
-                    for c in self.get_absolute_conditions(termination_conds).values()
-                ])
-            )
+            # advance absolute clock time to first time at which any
+            # node's absolute condition can be satisfied
+            absolute_start_points = [
+                t
+                for c in self.conditions.conditions_basic.values()
+                for t in c._absolute_start_points
+            ]
+            if len(absolute_start_points) > 0:
+                current_time.absolute = max(
+                    current_time.absolute,
+                    min(absolute_start_points)
+                )
             # convert to interval time unit to avoid pint floating point issues
             current_time.absolute = current_time.absolute.to(current_time.absolute_interval.u)
 
-- 
2.43.0


From ab48b635fd5da7fc944d048f121ad428dbd5916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:31 +0000
Subject: [PATCH 27/47] fix: bytes nodes as dependencies of conditions

A dependency is checked for containing the owner if it is iterable, which
raises a TypeError for bytes unless the owner is bytes-like, too.
---
 src/graph_scheduler/condition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index c0314bb..6e86af0 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1055,7 +1055,7 @@ class _DependencyValidation:
     def _validate_owner(self, value):
         try:
             # "dependency" or "dependencies" is always the first positional argument
-            if not isinstance(self.args[0], collections.abc.Iterable) or isinstance(self.args[0], str):
+            if not isinstance(self.args[0], collections.abc.Iterable) or isinstance(self.args[0], (str, bytes)):
                 dependencies = [self.args[0]]
             else:
                 dependencies = self.args[0]
-- 
2.43.0


From ce9171ee0d2e72a5ef214ecb28ed9ea24288f31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 28/47] fix: refuse clock queries within a scale that is not
 coarser

The number of units within a unit that is not coarser was answered with the
number over the whole LIFE.
---
 src/graph_scheduler/time.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 7274fe4..0dcb5d7 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -164,6 +164,13 @@ class Clock:
             the number of query_time_scale s that have occurred during the scope \
             of the base_index'th base_time_scale : int
         """
+        if not query_time_scale < base_time_scale:
+            raise TimeScaleError(
+                'query_time_scale (given: {0}) must be of finer grain than base_time_scale ({1})'.format(
+                    query_time_scale, base_time_scale
+                )
+            )
+
         if base_index is None:
             base_index = self.get_time_by_time_scale(base_time_scale)
 
-- 
2.43.0


From 590c592310e8854b656acbf260b44625ea673623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 29/47] fix: meet repeats after an excluded start in exact time
 mode

In exact time mode a TimeInterval with repeat and start_inclusive=False
repeats relative to start, but start was not among the times to be met.
---
 src/graph_scheduler/condition.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 6e86af0..caa93c0 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1475,7 +1475,10 @@ class TimeInterval(AbsoluteCondition):
     @property
     def absolute_fixed_points(self):
         fp = []
-        if self.start_inclusive and self.start is not None:
+        # repeat is relative to start even if start itself is excluded
+        if self.start is not None and (
+            self.start_inclusive or self.repeat is not None
+        ):
             fp.append(self.start)
         if self.end_inclusive and self.end is not None:
             fp.append(self.end)
-- 
2.43.0


From 21d2fb42a8a1873a1f5d9bbae065057ab822563c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 30/47] fix: compare absolute times in different units exactly

Comparing 7000us to 7ms through floating-point conversion gave 'less', so
bounds and terminations were missed and equal start and end refused.
---
 src/graph_scheduler/condition.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index caa93c0..c75a917 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -474,6 +474,16 @@ def _reduce_quantity_to_integer(q):
     return q
 
 
+def _time_difference(a, b):
+    """
+    Returns:
+        The magnitude of **a** - **b** in the smaller of their units,
+        without floating-point errors of the conversion between units
+    """
+    unit = a.u if a.u == b.u else min(a.u, b.u)
+    return round(a.m_as(unit) - b.m_as(unit), _unit_registry.precision)
+
+
 def _parse_absolute_unit(n, unit=None):
     def _get_quantity(n, unit):
         if isinstance(n, _unit_registry.Quantity):
@@ -1422,7 +1432,7 @@ class TimeInterval(AbsoluteCondition):
         start = _parse_absolute_unit(start, unit)
         end = _parse_absolute_unit(end, unit)
 
-        if start is not None and end is not None and start > end:
+        if start is not None and end is not None and _time_difference(start, end) > 0:
             raise ConditionError(f'Start ({start}) is later than {end}')
 
         def func(scheduler, execution_id):
@@ -1446,15 +1456,15 @@ class TimeInterval(AbsoluteCondition):
 
             if start is not None:
                 if start_inclusive:
-                    satisfied &= clock.time.absolute >= start
+                    satisfied &= _time_difference(clock.time.absolute, start) >= 0
                 else:
-                    satisfied &= clock.time.absolute > start
+                    satisfied &= _time_difference(clock.time.absolute, start) > 0
 
             if end is not None:
                 if end_inclusive:
-                    satisfied &= clock.time.absolute <= end
+                    satisfied &= _time_difference(clock.time.absolute, end) <= 0
                 else:
-                    satisfied &= clock.time.absolute < end
+                    satisfied &= _time_difference(clock.time.absolute, end) < 0
 
             return satisfied
 
@@ -1526,9 +1536,9 @@ class TimeTermination(AbsoluteCondition):
             clock = scheduler.get_clock(execution_id)
 
             if inclusive:
-                return clock.time.absolute >= t
+                return _time_difference(clock.time.absolute, t) >= 0
             else:
-                return clock.time.absolute > t
+                return _time_difference(clock.time.absolute, t) > 0
 
         super().__init__(func, t=t, inclusive=inclusive)
 
-- 
2.43.0


From 4833940c4f76b1d34548cecebcc8b74d04e2ad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:17 +0000
Subject: [PATCH 31/47] fix: keep absolute times exact that are small in their
 unit

Durations below 1e-8 of their unit were rounded to zero, and digits after
the eighth decimal were dropped.
---
 src/graph_scheduler/condition.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index c75a917..ea67e6f 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -456,8 +456,9 @@ typing_dict_condition_set = Dict[Hashable, Union[typing_condition_base, Iterable
 
 
 def _quantity_as_integer(q):
-    rounded = round(q.m, _unit_registry.precision)
-    if rounded == int(rounded):
+    rounded = round(q.m)
+    # compare relative to the magnitude, it may be small only due to its unit
+    if abs(q.m - rounded) <= abs(q.m) * 1e-12:
         return int(rounded) * q.u
     else:
         raise ValueError(f'{q} cannot be safely converted to integer magnitude')
-- 
2.43.0


From 01ac7797decca4c6bbab5bf9f2d31f07900f7b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 32/47] fix: absolute conditions with very different units

Their intervals in the smallest unit may not fit into one numpy integer
type.
---
 src/graph_scheduler/scheduler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index ab4293d..736cc0a 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -312,7 +312,9 @@ import copy
 import datetime
 import enum
 import fractions
+import functools
 import logging
+import math
 import warnings
 from typing import Dict, Hashable, Iterable, List, Set, Union
 
@@ -1052,7 +1054,7 @@ class Scheduler:
 
             # numerator is the largest possible length of a pass
             # denominator evenly divides this length by number of consideration set executions
-            numerator = np.gcd.reduce([interval.m for interval in intervals])
+            numerator = functools.reduce(math.gcd, [interval.m for interval in intervals])
             if self.mode == SchedulingMode.STANDARD:
                 denominator = len(self.consideration_queue)
             elif self.mode == SchedulingMode.EXACT_TIME:
-- 
2.43.0


From 5c8642f3d28dfcbd87241ffe352c12eaa156e6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:37 +0000
Subject: [PATCH 33/47] fix: exact comparison of absolute times in different
 units

pint converts between units in floating point, a time written in another
unit could be missed or an interval of equal start and end be refused.
---
 src/graph_scheduler/condition.py | 33 +++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index ea67e6f..8dd65f9 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -475,14 +475,34 @@ def _reduce_quantity_to_integer(q):
     return q
 
 
-def _time_difference(a, b):
+def _time_magnitudes(*quantities):
     """
     Returns:
-        The magnitude of **a** - **b** in the smaller of their units,
+        The magnitudes of **quantities** in the smallest of their units,
         without floating-point errors of the conversion between units
     """
-    unit = a.u if a.u == b.u else min(a.u, b.u)
-    return round(a.m_as(unit) - b.m_as(unit), _unit_registry.precision)
+    units = [q.u for q in quantities]
+    if len(set(units)) == 1:
+        return [q.m for q in quantities]
+
+    smallest = min(units)
+    res = []
+    for q, unit in zip(quantities, units):
+        factor = (1 * unit).m_as(smallest)
+        power = 10 ** round(np.log10(factor))
+        exact = abs(factor - power) <= power * 1e-12
+        res.append(q.m * power if exact else q.m_as(smallest))
+
+    return res
+
+
+def _time_difference(a, b):
+    """
+    Returns:
+        The magnitude of **a** - **b** in the smaller of their units
+    """
+    a, b = _time_magnitudes(a, b)
+    return round(a - b, _unit_registry.precision)
 
 
 def _parse_absolute_unit(n, unit=None):
@@ -1450,8 +1470,11 @@ class TimeInterval(AbsoluteCondition):
                         offset = i * clock.time.absolute_interval
 
             if repeat is not None:
+                cur_m, offset_m, repeat_m = _time_magnitudes(
+                    clock.time.absolute, offset, repeat
+                )
                 satisfied &= round(
-                    (clock.time.absolute - offset) % repeat,
+                    (cur_m - offset_m) % repeat_m,
                     _unit_registry.precision
                 ) == 0
 
-- 
2.43.0


From 7f7eede47d5e913d8973046228d75e56fa55a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 34/47] fix: keep track of several aliases of one TimeScale

Setting a second alias made the first one impossible to remove.
---
 src/graph_scheduler/time.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 0dcb5d7..26c0d63 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -26,7 +26,10 @@ __all__ = [
 ]
 
 
+# the alias currently used to display each aliased TimeScale
 _time_scale_aliases = {}
+# the TimeScale of every alias
+_time_scale_alias_targets = {}
 _time_scale_alias_class_names = {}
 _alias_docs_warning_str = """
 
@@ -259,9 +262,9 @@ class Time(types.SimpleNamespace):
             time_scale_values[ts] = locals()[_time_scale_to_attr_str(ts)]
 
         time_scale_values.update({
-            ts: alias_time_values[_time_scale_aliases[ts].lower()]
-            for ts in _time_scale_aliases
-            if _time_scale_aliases[ts].lower() in alias_time_values
+            ts: alias_time_values[name.lower()]
+            for name, ts in _time_scale_alias_targets.items()
+            if name.lower() in alias_time_values
         })
 
         super().__init__(
@@ -664,12 +667,8 @@ def set_time_scale_alias(name: str, target: TimeScale):
     """
     import graph_scheduler
 
-    name_aliased_time_scales = list(filter(
-        lambda e: _time_scale_aliases[e] == name,
-        _time_scale_aliases
-    ))
-    if len(name_aliased_time_scales) > 0:
-        raise ValueError(f"'{name}' is already aliased to {name_aliased_time_scales[0]}")
+    if name in _time_scale_alias_targets:
+        raise ValueError(f"'{name}' is already aliased to {_time_scale_alias_targets[name]}")
 
     try:
         target = getattr(TimeScale, target)
@@ -679,6 +678,7 @@ def set_time_scale_alias(name: str, target: TimeScale):
         raise ValueError(f'Invalid TimeScale {target}') from e
 
     _time_scale_aliases[target] = name
+    _time_scale_alias_targets[name] = target
     setattr(TimeScale, name, target)
 
     def getter(self):
@@ -738,17 +738,18 @@ def remove_time_scale_alias(name: str):
     """
     import graph_scheduler
 
-    name_aliased_time_scales = list(filter(
-        lambda e: _time_scale_aliases[e] == name,
-        _time_scale_aliases
-    ))
-    assert len(name_aliased_time_scales) <= 1
-
     try:
-        del _time_scale_aliases[name_aliased_time_scales[0]]
-    except (IndexError, KeyError):
+        target = _time_scale_alias_targets.pop(name)
+    except KeyError:
         return
     else:
+        if _time_scale_aliases[target] == name:
+            del _time_scale_aliases[target]
+            # another alias of the same TimeScale may remain
+            _time_scale_aliases.update({
+                ts: other for other, ts in _time_scale_alias_targets.items() if ts is target
+            })
+
         delattr(TimeScale, name)
         delattr(Time, name.lower())
         delattr(SimpleTime, name.lower())
-- 
2.43.0


From a80a7294e025af848d28212109feaa7398d99d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 35/47] fix: refuse invalid TimeScale aliases before changing
 anything

Names of existing attributes were replaced (and then deleted by removal),
refused aliases stayed registered.
---
 src/graph_scheduler/time.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 26c0d63..32467da 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -639,7 +639,7 @@ def _time_scale_to_class_str(time_scale: Union[TimeScale, str]) -> str:
     except AttributeError:
         name = time_scale
 
-    return ''.join([f'{x[0].upper()}{x[1:].lower()}' for x in name.split('_')])
+    return ''.join([f'{x[:1].upper()}{x[1:].lower()}' for x in name.split('_')])
 
 
 def _attr_str_to_time_scale(attr_str):
@@ -677,6 +677,17 @@ def set_time_scale_alias(name: str, target: TimeScale):
     except AttributeError as e:
         raise ValueError(f'Invalid TimeScale {target}') from e
 
+    if not isinstance(target, TimeScale):
+        raise ValueError(f'Invalid TimeScale {target}')
+
+    time = Time()
+    if (
+        hasattr(TimeScale, name)
+        or hasattr(time, name.lower())
+        or hasattr(SimpleTime(time), name.lower())
+    ):
+        raise ValueError(f"'{name}' is already in use")
+
     _time_scale_aliases[target] = name
     _time_scale_alias_targets[name] = target
     setattr(TimeScale, name, target)
-- 
2.43.0


From 83930921760c462ba65bcea609f07563b800b0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 36/47] fix: do not alias names that are due to other aliases

They stayed when the other alias was removed.
---
 src/graph_scheduler/time.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/time.py b/src/graph_scheduler/time.py
index 32467da..7867687 100644
--- a/src/graph_scheduler/time.py
+++ b/src/graph_scheduler/time.py
@@ -702,6 +702,10 @@ def set_time_scale_alias(name: str, target: TimeScale):
     setattr(Time, name.lower(), prop)
     setattr(SimpleTime, name.lower(), prop)
 
+    # only original names are aliased, not those due to other aliases
+    other_alias_class_names = {
+        n for names in _time_scale_alias_class_names.values() for n in names
+    }
     _time_scale_alias_class_names[name] = []
     # alias name in style of a class name
     new_class_segment_name = _time_scale_to_class_str(name)
@@ -725,7 +729,10 @@ def set_time_scale_alias(name: str, target: TimeScale):
                 }
             )
 
-        if target_class_segment_name in cls_name:
+        if (
+            target_class_segment_name in cls_name
+            and cls_name not in other_alias_class_names
+        ):
             new_cls_name = cls_name.replace(
                 target_class_segment_name,
                 new_class_segment_name
-- 
2.43.0


From 44349df3124923e179ce373da922abeeda4b53dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:46 +0000
Subject: [PATCH 37/47] fix: cached graph results do not share the caller's
 dependencies

A cache entry changed its graph when the caller modified the graph.
---
 src/graph_scheduler/utilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 6717405..65c703b 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -298,7 +298,10 @@ def cached_graph_function(func):
     """
     @functools.wraps(func)
     def graph_function_wrapper(graph: typing_graph_dependency_dict):
-        res = cached_hashable_graph_function(func, HashableDict(graph))
+        # the cached graph must not change if the caller modifies its graph
+        res = cached_hashable_graph_function(
+            func, HashableDict({k: copy.copy(v) for k, v in graph.items()})
+        )
         # the cached result is shared among all callers
         if isinstance(res, dict):
             return {k: copy.copy(v) for k, v in res.items()}
-- 
2.43.0


From c7d2f097a43aaeed84a6c9dae4482c8f882dff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 38/47] fix: accept callables that cannot be cached as
 condition functions

---
 src/graph_scheduler/utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 65c703b..0b5a5ea 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -63,6 +63,9 @@ def prune_unused_args(func, args=None, kwargs=None):
     except KeyError:
         sig = inspect.signature(func)
         _unused_args_sig_cache[func] = sig
+    except TypeError:
+        # not hashable or weakly referenceable
+        sig = inspect.signature(func)
 
     has_args_param = False
     has_kwargs_param = False
-- 
2.43.0


From b03f069c40f26787205272e9a0019026f50b0cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 39/47] fix: allow execution_id among the keyword arguments of
 a Condition

---
 src/graph_scheduler/condition.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 8dd65f9..c9582bc 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -1037,13 +1037,12 @@ class Condition(ConditionBase):
         """
         # update so that kwargs can override self.kwargs
         kwargs_to_pass = self.kwargs.copy()
-        kwargs_to_pass.update(kwargs)
+        kwargs_to_pass.update(kwargs, execution_id=execution_id)
 
         return call_with_pruned_args(
             self.func,
             *self.args,
             *args,
-            execution_id=execution_id,
             **kwargs_to_pass
         )
 
-- 
2.43.0


From 0698a047332b9ab3ad0b7d5aa7139edfa5b8378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 40/47] fix: keyword arguments of a Condition do not replace
 its attributes

---
 src/graph_scheduler/condition.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index c9582bc..44ffe3a 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -973,7 +973,10 @@ class ConditionBase:
         self._owner = _owner
         self.kwargs = kwargs
         for k, v in kwargs.items():
-            setattr(self, k, v)
+            # arguments of a function must not replace anything that
+            # belongs to conditions themselves
+            if not hasattr(Condition, k) and k not in {'func', 'args', 'kwargs'}:
+                setattr(self, k, v)
 
     def _validate_owner(self, value):
         pass
-- 
2.43.0


From a68600ed5d7cbdbd8069aa698d73ff501cde8978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 41/47] fix: Threshold indices given as an iterator are used
 for every evaluation

---
 src/graph_scheduler/condition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 44ffe3a..2473bbd 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -2603,6 +2603,9 @@ class Threshold(_DependencyValidation, Condition):
             indices = [indices.value]
         elif indices is not None and not isinstance(indices, collections.abc.Iterable):
             indices = [indices]
+        elif isinstance(indices, collections.abc.Iterator):
+            # needed for every evaluation
+            indices = list(indices)
 
         def func(threshold, comparator, indices, atol, rtol, execution_id):
             param_value = self.get_parameter_value(execution_id)
-- 
2.43.0


From 6350d098e676e116c98d41103d5b35d3905885dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 42/47] fix: reconnecting receivers could create an edge from a
 node to itself

---
 src/graph_scheduler/condition.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 2473bbd..6191481 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3095,6 +3095,7 @@ class _GSCWithOperations(_GSCUsingNodes):
                 for receiver in orig_receivers_old[self.owner]:
                     if (
                         receiver not in self.nodes
+                        and sender != receiver
                         and self.owner in base_graph[receiver]
                         and sender in base_graph[self.owner]
                         and (
-- 
2.43.0


From a06230aa67879508238fe011fb1e8f2377d8284c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 43/47] fix: a bytes sender given without a set was split into
 integers

---
 src/graph_scheduler/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_scheduler/utilities.py b/src/graph_scheduler/utilities.py
index 0b5a5ea..ae37793 100644
--- a/src/graph_scheduler/utilities.py
+++ b/src/graph_scheduler/utilities.py
@@ -137,7 +137,7 @@ def clone_graph(graph: typing_graph_dependency_dict) -> typing_graph_dependency_
     """
     res = {}
     for k, v in graph.items():
-        if isinstance(v, collections.abc.Iterable) and not isinstance(v, str):
+        if isinstance(v, collections.abc.Iterable) and not isinstance(v, (str, bytes)):
             v = set(v)
         else:
             v = set([v])
-- 
2.43.0


From caf7a967e3cdadd93b4df06a7613f31a82a979de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:11 +0000
Subject: [PATCH 44/47] fix: nodes of a set never yielded counted as executed
 after a condition raised

---
 src/graph_scheduler/scheduler.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/scheduler.py b/src/graph_scheduler/scheduler.py
index 736cc0a..44cb36c 100644
--- a/src/graph_scheduler/scheduler.py
+++ b/src/graph_scheduler/scheduler.py
@@ -977,7 +977,16 @@ class Scheduler:
                         # only add each node once during a single consideration set execution, this also serves
                         # to prevent infinitely cascading adds
                         if current_node not in cur_consideration_set_execution_exec:
-                            if self.conditions.conditions_basic[current_node].is_satisfied(**is_satisfied_kwargs):
+                            try:
+                                is_satisfied = self.conditions.conditions_basic[current_node].is_satisfied(**is_satisfied_kwargs)
+                            except BaseException:
+                                # the nodes already in this set will not be executed
+                                for ts in TimeScale:
+                                    for n in cur_consideration_set_execution_exec:
+                                        self.counts_total[execution_id][ts][n] -= 1
+                                raise
+
+                            if is_satisfied:
                                 cur_consideration_set_execution_exec.add(current_node)
                                 execution_list_has_changed = True
                                 cur_consideration_set_has_changed = True
-- 
2.43.0


From 3917aad49b48213f702f173a12aef48fb2e5d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:31 +0000
Subject: [PATCH 45/47] fix: a refused item assignment removed the structural
 conditions of its node

---
 src/graph_scheduler/condition.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 6191481..0cd2cd2 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -737,12 +737,13 @@ class ConditionSet(object):
         return self.conditions[key]
 
     def __setitem__(self, key, value):
-        if key in self.conditions_structural:
-            for cond in reversed(self.conditions_structural[key]):
-                self.remove_condition(cond)
-
+        # nothing is replaced if value is not accepted
+        replaced = list(self.conditions_structural.get(key, []))
         self.add_condition(key, value)
 
+        for cond in reversed(replaced):
+            self.remove_condition(cond)
+
     def add_condition(self, owner: Hashable, condition: typing_condition_base):
         """
         Adds a `basic <graph_scheduler.condition.Condition>` or `graph
-- 
2.43.0


From 16f19f9dd7154173c9fdd0933726479f304835e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:30 +0000
Subject: [PATCH 46/47] fix: operations missing for a subject were accepted,
 and the dict given was modified

---
 src/graph_scheduler/condition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index 0cd2cd2..d6f7950 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -3299,6 +3299,8 @@ class _GSCWithOperations(_GSCUsingNodes):
             operation_arg_name = 'subject_receivers'
 
         if isinstance(subject, dict):
+            # do not modify or depend on the dict passed in
+            subject = dict(subject)
             for n, v in subject.items():
                 if n not in nodes:
                     raise ConditionError(
@@ -3306,7 +3308,7 @@ class _GSCWithOperations(_GSCUsingNodes):
                     )
                 subject[n] = self._parse_operation_arg(v)
 
-            nodes_missing_subject_operations = subject.keys() - set(nodes)
+            nodes_missing_subject_operations = set(nodes) - subject.keys()
             if len(nodes_missing_subject_operations) > 0:
                 raise ConditionError(
                     f'{operation_arg_name} specified as a dict but does not'
-- 
2.43.0


From 7257693d1f2c6090b931017090769508d1f2c834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:33 +0000
Subject: [PATCH 47/47] fix: adding a ConditionSet to itself looped forever
 with several structural conditions on a node

---
 src/graph_scheduler/condition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph_scheduler/condition.py b/src/graph_scheduler/condition.py
index d6f7950..cb55757 100644
--- a/src/graph_scheduler/condition.py
+++ b/src/graph_scheduler/condition.py
@@ -910,7 +910,8 @@ class ConditionSet(object):
         """
         for owner in conditions:
             if isinstance(conditions[owner], collections.abc.Iterable):
-                for c in conditions[owner]:
+                # the list changes below if conditions is this set itself
+                for c in list(conditions[owner]):
                     self.add_condition(owner, c)
             else:
                 self.add_condition(owner, conditions[owner])
-- 
2.43.0

