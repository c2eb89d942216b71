From 4fddbf7b344985cc586be932ac5d8c0b733bb297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:32 +0000
Subject: [PATCH 01/52] fix: a graph task without functions can be serialized

---
 scaled/protocol/python/message.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scaled/protocol/python/message.py b/scaled/protocol/python/message.py
index e55ba4f..29dfb45 100644
--- a/scaled/protocol/python/message.py
+++ b/scaled/protocol/python/message.py
@@ -182,9 +182,8 @@ class GraphTask(_Message):
         function_bytes = list()
         function_bytes.append(struct.pack("I", len(self.functions)))
         function_bytes.extend(self.functions.keys())
-        names, content = zip(*self.functions.values())
-        function_bytes.extend(names)
-        function_bytes.extend(content)
+        function_bytes.extend(name for name, _ in self.functions.values())
+        function_bytes.extend(content for _, content in self.functions.values())
 
         graph_bytes = []
         for task in self.graph:
-- 
2.43.0


From 41ed574911f6c36fe57b175ab58eff5434cf9c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 02/52] fix: heartbeat fields no longer overflow with many
 queued tasks, many busy cores or a long latency

---
 scaled/protocol/python/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaled/protocol/python/message.py b/scaled/protocol/python/message.py
index 29dfb45..4f53762 100644
--- a/scaled/protocol/python/message.py
+++ b/scaled/protocol/python/message.py
@@ -307,7 +307,7 @@ class Heartbeat(_Message):
     has_task: bool
     task_lock: bool
 
-    FORMAT = "HQHQHI???"
+    FORMAT = "IQIQIQ???"
 
     def serialize(self) -> Tuple[bytes, ...]:
         return (
-- 
2.43.0


From c0c86a1ef1bd6cc250756bdc6015768359c7bd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 03/52] fix: PriorityQueue.max_priority must not detach the
 entry other operations update

---
 scaled/utility/queues/async_priority_queue.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/scaled/utility/queues/async_priority_queue.py b/scaled/utility/queues/async_priority_queue.py
index 4f976c0..d69f85c 100644
--- a/scaled/utility/queues/async_priority_queue.py
+++ b/scaled/utility/queues/async_priority_queue.py
@@ -46,6 +46,4 @@ class PriorityQueue(Queue):
         heapq._siftdown(self._queue, 0, i)  # type: ignore # noqa
 
     def max_priority(self):
-        priority, item = heapq.heappop(self._queue)
-        heapq.heappush(self._queue, [priority, item])
-        return priority
+        return self._queue[0][0]
-- 
2.43.0


From 34f7654c981d20bb94ad321e6dfac1fa675293db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 04/52] fix: a task stays waiting, and can be canceled, while
 there are no workers

---
 scaled/scheduler/allocators/queued.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaled/scheduler/allocators/queued.py b/scaled/scheduler/allocators/queued.py
index a791c18..ef0b65b 100644
--- a/scaled/scheduler/allocators/queued.py
+++ b/scaled/scheduler/allocators/queued.py
@@ -55,6 +55,10 @@ class QueuedAllocator(TaskAllocator):
         return {worker: math.ceil(count - mean) for worker, count in worker_task_count.items() if count > mean}
 
     async def assign_task(self, task_id: bytes) -> Optional[bytes]:
+        if not self._workers_to_task_ids:
+            # don't hold the task until a worker joins, it has to stay cancelable and counted as waiting
+            return None
+
         count, worker = await self._worker_queue.get()
         if count == self._max_tasks_per_worker:
             await self._worker_queue.put([count, worker])
-- 
2.43.0


From 729b6a0bc73adcad4ac776e4aa36ff145b4ef0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 05/52] fix: IndexedQueue keeps items apart that share a hash

---
 scaled/utility/queues/async_indexed_queue.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/scaled/utility/queues/async_indexed_queue.py b/scaled/utility/queues/async_indexed_queue.py
index 18c7d98..cda7476 100644
--- a/scaled/utility/queues/async_indexed_queue.py
+++ b/scaled/utility/queues/async_indexed_queue.py
@@ -111,33 +111,30 @@ class _DoubleLinkedList:
 class _IndexedDoubleLinkedQueue:
     def __init__(self):
         self._double_linked_list = _DoubleLinkedList()
-        self._hash_map: Dict[int, _Node] = {}
+        self._hash_map: Dict[Hashable, _Node] = {}
 
     def __contains__(self, item: Hashable):
-        key = hash(item)
-        return key in self._hash_map
+        return item in self._hash_map
 
     def __len__(self):
         return self._double_linked_list.__len__()
 
     def put(self, item: Hashable):
-        key = hash(item)
-        if key in self._hash_map:
+        if item in self._hash_map:
             raise KeyError(f"{self.__class__.__name__} already have item: {item}")
 
         node = _Node(item)
         self._double_linked_list.add_to_head(node)
-        self._hash_map[key] = node
+        self._hash_map[item] = node
 
     def get(self):
         node = self._double_linked_list.remove_tail()
-        del self._hash_map[hash(node.value)]
+        del self._hash_map[node.value]
         return node.value
 
     def remove(self, item: Hashable):
-        key = hash(item)
-        if key not in self._hash_map:
+        if item not in self._hash_map:
             raise KeyError(f"{self.__class__.__name__} doesn't have item: {item}")
 
-        node = self._hash_map.pop(key)
+        node = self._hash_map.pop(item)
         self._double_linked_list.remove(node)
-- 
2.43.0


From f14fa26f51fdd0866543f4426b6501ebccaee3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:50 +0000
Subject: [PATCH 06/52] fix: IndexedQueue.remove wakes a producer waiting for
 room

---
 scaled/utility/queues/async_indexed_queue.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaled/utility/queues/async_indexed_queue.py b/scaled/utility/queues/async_indexed_queue.py
index cda7476..00511b9 100644
--- a/scaled/utility/queues/async_indexed_queue.py
+++ b/scaled/utility/queues/async_indexed_queue.py
@@ -37,6 +37,7 @@ class IndexedQueue(Queue, Generic[T]):
     def remove(self, item: T):
         """remove the item in the queue in O(1) time complexity"""
         self._queue.remove(item)
+        self._wakeup_next(self._putters)
 
 
 @dataclasses.dataclass
-- 
2.43.0


From c13d71fa55183e8fdfde85d419bc70dc5f530494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 07/52] fix: a graph node may take the same node as input more
 than once

---
 scaled/scheduler/graph_manager.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 8ab0e8a..e96cc81 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -187,9 +187,13 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
 
         for task_id in ready_task_ids:
             task_info = graph_info.tasks[task_id]
+            argument_task_ids = {arg.data for arg in task_info.task.function_args if arg.type == ArgumentType.Task}
             task_info.task.function_args = [
-                self.__get_argument(graph_task_id, task_id, arg) for arg in task_info.task.function_args
+                self.__get_argument(graph_task_id, arg) for arg in task_info.task.function_args
             ]
+            for argument_task_id in argument_task_ids:
+                self.__release_argument(graph_task_id, task_id, argument_task_id)
+
             task_info.state = _TaskState.Running
             await self._task_manager.on_task_new(graph_info.client, task_info.task)
 
@@ -239,26 +243,21 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         graph_info = self._graph_task_id_to_graph[graph_task_id]
         return [graph_info.tasks[task_id].result for task_id in graph_info.target_task_ids]
 
-    def __get_argument(self, graph_task_id: bytes, task_id: bytes, argument: Argument) -> Argument:
+    def __get_argument(self, graph_task_id: bytes, argument: Argument) -> Argument:
         if argument.type == ArgumentType.Data:
             return argument
 
         assert argument.type == ArgumentType.Task
-        argument_task_id = argument.data
-
-        result = self.__get_task_result(graph_task_id, task_id, argument_task_id)
-        return Argument(ArgumentType.Data, result)
+        graph_info = self._graph_task_id_to_graph[graph_task_id]
+        return Argument(ArgumentType.Data, graph_info.tasks[argument.data].result)
 
-    def __get_task_result(self, graph_task_id: bytes, task_id: bytes, argument_task_id: bytes) -> bytes:
+    def __release_argument(self, graph_task_id: bytes, task_id: bytes, argument_task_id: bytes):
         graph_info = self._graph_task_id_to_graph[graph_task_id]
         graph_info.dependencies.remove_value(argument_task_id, task_id)
 
-        task_info = graph_info.tasks[argument_task_id]
         if argument_task_id in graph_info.dependencies:
-            return task_info.result
+            return
 
         if argument_task_id not in graph_info.target_task_ids:
             self._task_id_to_graph_task_id.pop(argument_task_id)
             graph_info.tasks.pop(argument_task_id)
-
-        return task_info.result
-- 
2.43.0


From fa56d7410ac5509e02071fde1b93d0fec6d6ca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 08/52] fix: tearing down a graph with nodes still waiting for
 a worker no longer stops the scheduler

---
 scaled/scheduler/graph_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index e96cc81..8c30b7e 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -210,6 +210,9 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
             if task_id not in graph_info.tasks:
                 continue
 
+            # detach the node first, canceling a waiting node reports it done right away
+            self._task_id_to_graph_task_id.pop(task_id, None)
+
             task_info = graph_info.tasks.pop(task_id)
             if task_info.state == _TaskState.Inactive:
                 await self._function_manager.on_task_done_function(task_id)
@@ -218,8 +221,6 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
             else:
                 pass
 
-            self._task_id_to_graph_task_id.pop(task_id, None)
-
         return graph_info
 
     def __mark_node_done(self, graph_task_id: bytes, result: TaskResult):
-- 
2.43.0


From f77090e226e01dafa4d03c4657a1d884c27e656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 09/52] fix: a graph node its worker does not know ends the
 graph instead of the scheduler

---
 scaled/scheduler/graph_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 8c30b7e..39520ea 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -231,7 +231,7 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
 
         if result.status == TaskStatus.Success:
             task_info.state = _TaskState.Success
-        elif result.status == TaskStatus.Canceled:
+        elif result.status in {TaskStatus.Canceled, TaskStatus.NotFound}:
             task_info.state = _TaskState.Canceled
         elif result.status == TaskStatus.Failed:
             task_info.state = _TaskState.Failed
-- 
2.43.0


From 6d33c876792082a4dd5cf41b87590aa125b041de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:13 +0000
Subject: [PATCH 10/52] fix: canceling a graph that is queued, finished or
 unknown drops it or does nothing, and never stops the scheduler

---
 scaled/scheduler/graph_manager.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 39520ea..a341300 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -1,11 +1,12 @@
 import dataclasses
 import enum
-from asyncio import Queue
+import logging
 from graphlib import TopologicalSorter
 from typing import Dict
 from typing import List
 from typing import Optional
 from typing import Set
+from typing import Tuple
 
 from scaled.io.async_binder import AsyncBinder
 from scaled.io.async_connector import AsyncConnector
@@ -29,6 +30,7 @@ from scaled.scheduler.mixins import Looper
 from scaled.scheduler.mixins import Reporter
 from scaled.scheduler.mixins import TaskManager
 from scaled.utility.key_value_set import KeyValueDictSet
+from scaled.utility.queues.async_indexed_queue import IndexedQueue
 
 
 class _TaskState(enum.Enum):
@@ -84,7 +86,8 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         self._function_manager: Optional[FunctionManager] = None
         self._task_manager: Optional[TaskManager] = None
 
-        self._unassigned: Queue = Queue()
+        self._unassigned: IndexedQueue[bytes] = IndexedQueue()
+        self._graph_task_id_to_unassigned_graph: Dict[bytes, Tuple[bytes, GraphTask]] = dict()
 
         self._graph_task_id_to_graph: Dict[bytes, _Graph] = dict()
         self._task_id_to_graph_task_id: Dict[bytes, bytes] = dict()
@@ -104,9 +107,23 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         self._task_manager = task_manager
 
     async def on_graph_task(self, client: bytes, graph_task: GraphTask):
-        await self._unassigned.put((client, graph_task))
+        if graph_task.task_id in self._unassigned or graph_task.task_id in self._graph_task_id_to_graph:
+            logging.error(f"graph is submitted already: task_id={graph_task.task_id.hex()}")
+            return
+
+        self._graph_task_id_to_unassigned_graph[graph_task.task_id] = (client, graph_task)
+        await self._unassigned.put(graph_task.task_id)
 
     async def on_graph_task_cancel(self, graph_task_cancel: GraphTaskCancel):
+        if graph_task_cancel.task_id in self._unassigned:
+            self._unassigned.remove(graph_task_cancel.task_id)
+            self._graph_task_id_to_unassigned_graph.pop(graph_task_cancel.task_id)
+            return
+
+        if graph_task_cancel.task_id not in self._graph_task_id_to_graph:
+            logging.warning(f"cannot cancel graph is not running: task_id={graph_task_cancel.task_id.hex()}")
+            return
+
         await self.__clean_graph(graph_task_cancel.task_id)
 
     async def on_task_done(self, result: TaskResult) -> bool:
@@ -126,7 +143,8 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         return True
 
     async def routine(self):
-        client, graph_task = await self._unassigned.get()
+        graph_task_id = await self._unassigned.get()
+        client, graph_task = self._graph_task_id_to_unassigned_graph.pop(graph_task_id)
         await self.__add_new_graph(client, graph_task)
 
     async def statistics(self) -> Dict:
-- 
2.43.0


From 875df9442e711ada7253a2754af648fd7b322d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:13 +0000
Subject: [PATCH 11/52] fix: nodes of an accepted graph are not subject to the
 limit of waiting tasks

---
 scaled/scheduler/graph_manager.py | 3 ++-
 scaled/scheduler/mixins.py        | 4 ++++
 scaled/scheduler/task_manager.py  | 3 +++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index a341300..88cf4e8 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -213,7 +213,8 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
                 self.__release_argument(graph_task_id, task_id, argument_task_id)
 
             task_info.state = _TaskState.Running
-            await self._task_manager.on_task_new(graph_info.client, task_info.task)
+            # the graph is accepted already, its nodes cannot be rejected anymore
+            await self._task_manager.on_task_accepted(graph_info.client, task_info.task)
 
     async def __finish_one_graph(self, graph_task_id: bytes):
         results = self.__get_target_results(graph_task_id)
diff --git a/scaled/scheduler/mixins.py b/scaled/scheduler/mixins.py
index 73851cb..1a47726 100644
--- a/scaled/scheduler/mixins.py
+++ b/scaled/scheduler/mixins.py
@@ -85,6 +85,10 @@ class TaskManager(metaclass=abc.ABCMeta):
     async def on_task_new(self, client: bytes, task: Task):
         raise NotImplementedError()
 
+    @abc.abstractmethod
+    async def on_task_accepted(self, client: bytes, task: Task):
+        raise NotImplementedError()
+
     @abc.abstractmethod
     async def on_task_reroute(self, task_id: bytes):
         raise NotImplementedError()
diff --git a/scaled/scheduler/task_manager.py b/scaled/scheduler/task_manager.py
index 1a67ae1..2d2c742 100644
--- a/scaled/scheduler/task_manager.py
+++ b/scaled/scheduler/task_manager.py
@@ -94,6 +94,9 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
             await self._binder.send(client, TaskEcho(task.task_id, TaskEchoStatus.NoWorker))
             return
 
+        await self.on_task_accepted(client, task)
+
+    async def on_task_accepted(self, client: bytes, task: Task):
         await self._binder.send(client, TaskEcho(task.task_id, TaskEchoStatus.SubmitOK))
         await self._function_manager.on_task_use_function(task.task_id, task.function_id)
         await self._client_manager.on_task_new(client, task.task_id)
-- 
2.43.0


From 5afe6f53f3dcff915f5096cda88b860ac3d93319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:13 +0000
Subject: [PATCH 12/52] fix: a task whose id is in use already is refused as
 duplicated instead of stopping the scheduler

---
 scaled/scheduler/client_manager.py | 3 +++
 scaled/scheduler/graph_manager.py  | 3 +++
 scaled/scheduler/mixins.py         | 8 ++++++++
 scaled/scheduler/task_manager.py   | 4 ++++
 4 files changed, 18 insertions(+)

diff --git a/scaled/scheduler/client_manager.py b/scaled/scheduler/client_manager.py
index 5bb74f4..8f85a86 100644
--- a/scaled/scheduler/client_manager.py
+++ b/scaled/scheduler/client_manager.py
@@ -15,6 +15,9 @@ class VanillaClientManager(ClientManager, Looper, Reporter):
     def get_client_task_ids(self, client: bytes) -> Set[bytes]:
         return self._client_to_task_ids.get_values(client)
 
+    def has_task(self, task_id: bytes) -> bool:
+        return self._client_to_task_ids.has_value(task_id)
+
     def get_client_id(self, task_id: bytes) -> Optional[bytes]:
         return self._client_to_task_ids.get_key(task_id)
 
diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 88cf4e8..a61e324 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -114,6 +114,9 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         self._graph_task_id_to_unassigned_graph[graph_task.task_id] = (client, graph_task)
         await self._unassigned.put(graph_task.task_id)
 
+    def has_node(self, task_id: bytes) -> bool:
+        return task_id in self._task_id_to_graph_task_id
+
     async def on_graph_task_cancel(self, graph_task_cancel: GraphTaskCancel):
         if graph_task_cancel.task_id in self._unassigned:
             self._unassigned.remove(graph_task_cancel.task_id)
diff --git a/scaled/scheduler/mixins.py b/scaled/scheduler/mixins.py
index 1a47726..97a52d2 100644
--- a/scaled/scheduler/mixins.py
+++ b/scaled/scheduler/mixins.py
@@ -53,6 +53,10 @@ class ClientManager(metaclass=abc.ABCMeta):
     def get_client_task_ids(self, client: bytes) -> Set[bytes]:
         raise NotImplementedError()
 
+    @abc.abstractmethod
+    def has_task(self, task_id: bytes) -> bool:
+        raise NotImplementedError()
+
     @abc.abstractmethod
     def get_client_id(self, task_id: bytes) -> Optional[bytes]:
         raise NotImplementedError()
@@ -71,6 +75,10 @@ class GraphTaskManager(metaclass=abc.ABCMeta):
     async def on_graph_task(self, client: bytes, graph_task: GraphTask):
         raise NotImplementedError()
 
+    @abc.abstractmethod
+    def has_node(self, task_id: bytes) -> bool:
+        raise NotImplementedError()
+
     @abc.abstractmethod
     async def on_graph_task_cancel(self, graph_task_cancel: GraphTaskCancel):
         raise NotImplementedError()
diff --git a/scaled/scheduler/task_manager.py b/scaled/scheduler/task_manager.py
index 2d2c742..63c1e87 100644
--- a/scaled/scheduler/task_manager.py
+++ b/scaled/scheduler/task_manager.py
@@ -83,6 +83,10 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
         }
 
     async def on_task_new(self, client: bytes, task: Task):
+        if self._client_manager.has_task(task.task_id) or self._graph_manager.has_node(task.task_id):
+            await self._binder.send(client, TaskEcho(task.task_id, TaskEchoStatus.Duplicated))
+            return
+
         if not self._function_manager.has_function(task.function_id):
             await self._binder.send(client, TaskEcho(task.task_id, TaskEchoStatus.FunctionNotExists))
             return
-- 
2.43.0


From fbb5da962018e25602312e4da8427619d282e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:13 +0000
Subject: [PATCH 13/52] fix: an inconsistent graph is refused instead of
 stopping the scheduler

---
 scaled/scheduler/graph_manager.py | 40 +++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index a61e324..1189a16 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -1,6 +1,8 @@
 import dataclasses
 import enum
 import logging
+import pickle
+from graphlib import CycleError
 from graphlib import TopologicalSorter
 from typing import Dict
 from typing import List
@@ -148,11 +150,49 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
     async def routine(self):
         graph_task_id = await self._unassigned.get()
         client, graph_task = self._graph_task_id_to_unassigned_graph.pop(graph_task_id)
+
+        invalid_reason = self.__get_invalid_reason(graph_task)
+        if invalid_reason is not None:
+            logging.error(f"refuse graph task_id={graph_task_id.hex()}: {invalid_reason}")
+            result = pickle.dumps(ValueError(invalid_reason), protocol=pickle.HIGHEST_PROTOCOL)
+            await self._binder.send(client, GraphTaskResult(graph_task_id, TaskStatus.Failed, [result]))
+            return
+
         await self.__add_new_graph(client, graph_task)
 
     async def statistics(self) -> Dict:
         return {"graph_manager": {"unassigned": self._unassigned.qsize()}}
 
+    def __get_invalid_reason(self, graph_task: GraphTask) -> Optional[str]:
+        task_ids = {task.task_id for task in graph_task.graph}
+        if len(task_ids | {graph_task.task_id}) != len(graph_task.graph) + 1:
+            return "task ids in graph are not unique"
+
+        for task_id in task_ids | {graph_task.task_id}:
+            if self._client_manager.has_task(task_id) or self.has_node(task_id):
+                return f"task id is in use already: {task_id.hex()}"
+
+        if not task_ids.issuperset(graph_task.targets):
+            return "target is not in graph"
+
+        dependencies = {}
+        for task in graph_task.graph:
+            if task.function_id not in graph_task.functions and not self._function_manager.has_function(
+                task.function_id
+            ):
+                return f"function is unknown: {task.function_id.hex()}"
+
+            dependencies[task.task_id] = {arg.data for arg in task.function_args if arg.type == ArgumentType.Task}
+            if not task_ids.issuperset(dependencies[task.task_id]):
+                return "argument is not in graph"
+
+        try:
+            TopologicalSorter(dependencies).prepare()
+        except CycleError:
+            return "graph is cyclic"
+
+        return None
+
     async def __add_new_graph(self, client: bytes, graph_task: GraphTask):
         graph = {}
 
-- 
2.43.0


From 17b7e4e78968a8857c984fbb041a89db0e968dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:13 +0000
Subject: [PATCH 14/52] fix: a canceled task is not started again when its
 worker is lost or returns it

---
 scaled/scheduler/task_manager.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scaled/scheduler/task_manager.py b/scaled/scheduler/task_manager.py
index 63c1e87..00e77f2 100644
--- a/scaled/scheduler/task_manager.py
+++ b/scaled/scheduler/task_manager.py
@@ -37,6 +37,7 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
 
         self._unassigned: IndexedQueue[bytes] = IndexedQueue()
         self._running: Set[bytes] = set()
+        self._canceling: Set[bytes] = set()
 
         self._success_count: int = 0
         self._failed_count: int = 0
@@ -112,6 +113,11 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
     async def on_task_reroute(self, task_id: bytes):
         assert self._client_manager.get_client_id(task_id) is not None
 
+        if task_id in self._canceling:
+            # the worker gave the task up before the cancel request took effect, don't start the task again
+            await self.on_task_done(TaskResult(task_id, TaskStatus.Canceled, 0, b""))
+            return
+
         self._running.remove(task_id)
         await self._unassigned.put(task_id)
         await self.__send_monitor(task_id, TaskStatus.Inactive)
@@ -125,6 +131,7 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
             logging.warning(f"cannot cancel task is not running: task_id={task_cancel.task_id.hex()}")
             return
 
+        self._canceling.add(task_cancel.task_id)
         await self._worker_manager.on_task_cancel(client, task_cancel)
         await self.__send_monitor(task_cancel.task_id, TaskStatus.Canceling)
 
@@ -143,6 +150,8 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
         elif result.task_id in self._running:
             self._running.remove(result.task_id)
 
+        self._canceling.discard(result.task_id)
+
         await self.__send_monitor(result.task_id, result.status)
 
         self._task_id_to_task.pop(result.task_id)
-- 
2.43.0


From 00cd000286e661ee7a5f69cab9ea3a0bb4b794ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 15/52] fix: deleting an idle function deletes it and says so
 instead of stopping the scheduler

---
 scaled/scheduler/function_manager.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scaled/scheduler/function_manager.py b/scaled/scheduler/function_manager.py
index 25e25c1..49de51a 100644
--- a/scaled/scheduler/function_manager.py
+++ b/scaled/scheduler/function_manager.py
@@ -135,14 +135,13 @@ class VanillaFunctionManager(FunctionManager, Looper, Reporter):
             await self.__send_function_response(client, function_id, FunctionResponseType.NotExists)
             return
 
-        if len(self._function_id_to_task_ids.get_values(function_id)) > 0:
+        if function_id in self._function_id_to_task_ids:
             await self.__send_function_response(client, function_id, FunctionResponseType.StillHaveTask)
             return
 
         self._function_id_to_func_info.pop(function_id)
-        self._function_id_to_task_ids.remove_key(function_id)
 
-        await self.__send_function_response(client, function_id, FunctionResponseType.StillHaveTask)
+        await self.__send_function_response(client, function_id, FunctionResponseType.OK)
 
     async def __send_function_response(self, client: bytes, function_id: bytes, response_type: FunctionResponseType):
         await self._binder.send(client, FunctionResponse(response_type, function_id, b"", b""))
-- 
2.43.0


From 1dc2fbe21a3ed5230fdcdc9548080a16784eaf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 16/52] fix: status adds up the tasks of functions sharing a
 name, and shows names that are not utf-8

---
 scaled/scheduler/function_manager.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/scaled/scheduler/function_manager.py b/scaled/scheduler/function_manager.py
index 49de51a..dcf06eb 100644
--- a/scaled/scheduler/function_manager.py
+++ b/scaled/scheduler/function_manager.py
@@ -1,6 +1,7 @@
 import dataclasses
 import logging
 import time
+from collections import defaultdict
 from typing import Dict
 from typing import Optional
 
@@ -89,12 +90,12 @@ class VanillaFunctionManager(FunctionManager, Looper, Reporter):
             await self._worker_manager.on_delete_function(function_id)
 
     async def statistics(self) -> Dict:
-        return {
-            "function_manager": {
-                self._function_id_to_func_info[k].function_name.decode(): len(v)
-                for k, v in self._function_id_to_task_ids.items()
-            }
-        }
+        function_name_to_count: Dict[str, int] = defaultdict(int)
+        for function_id, task_ids in self._function_id_to_task_ids.items():
+            function_name = self._function_id_to_func_info[function_id].function_name
+            function_name_to_count[function_name.decode(errors="backslashreplace")] += len(task_ids)
+
+        return {"function_manager": dict(function_name_to_count)}
 
     async def __on_function_request(self, source: bytes, function_request: FunctionRequest):
         if function_request.function_id not in self._function_id_to_func_info:
-- 
2.43.0


From 500dd3448e6161ff57bea68d1510e3e486a4a4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 17/52] fix: a peer whose identity is not utf-8 no longer stops
 the scheduler when it reports its status

---
 scaled/scheduler/client_manager.py | 5 ++++-
 scaled/scheduler/worker_manager.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/scaled/scheduler/client_manager.py b/scaled/scheduler/client_manager.py
index 8f85a86..86a4f8f 100644
--- a/scaled/scheduler/client_manager.py
+++ b/scaled/scheduler/client_manager.py
@@ -32,5 +32,8 @@ class VanillaClientManager(ClientManager, Looper, Reporter):
 
     async def statistics(self) -> Dict:
         return {
-            "client_manager": {client.decode(): len(task_ids) for client, task_ids in self._client_to_task_ids.items()}
+            "client_manager": {
+                client.decode(errors="backslashreplace"): len(task_ids)
+                for client, task_ids in self._client_to_task_ids.items()
+            }
         }
diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index bc2149d..17ce39d 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -114,7 +114,7 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
         return {
             "worker_manager": [
                 {
-                    "worker": worker.decode(),
+                    "worker": worker.decode(errors="backslashreplace"),
                     "agt_cpu": info.agent_cpu,
                     "agt_rss": info.agent_rss,
                     "cpu": info.worker_cpu,
-- 
2.43.0


From 660806188d2aaad178de75aa957328425c285521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 18/52] fix: a malformed message is dropped instead of stopping
 its receiver

---
 scaled/io/async_binder.py    | 7 ++++++-
 scaled/io/async_connector.py | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/scaled/io/async_binder.py b/scaled/io/async_binder.py
index 4233360..60528bb 100644
--- a/scaled/io/async_binder.py
+++ b/scaled/io/async_binder.py
@@ -53,7 +53,12 @@ class AsyncBinder(Looper, Reporter):
         message_type = MessageType(message_type_bytes)
         self.__count_one("received", message_type)
 
-        message = PROTOCOL[message_type].deserialize(payload)
+        try:
+            message = PROTOCOL[message_type].deserialize(payload)
+        except Exception:
+            logging.exception(f"{self.__get_prefix()} received malformed {message_type.name} from {source!r}")
+            return
+
         await self._callback(source, message)
 
     async def statistics(self) -> Dict:
diff --git a/scaled/io/async_connector.py b/scaled/io/async_connector.py
index d112d70..2c67b8f 100644
--- a/scaled/io/async_connector.py
+++ b/scaled/io/async_connector.py
@@ -72,7 +72,11 @@ class AsyncConnector:
 
         message_type_bytes, *payload = frames
         message_type = MessageType(message_type_bytes)
-        message = PROTOCOL[message_type].deserialize(payload)
+        try:
+            message = PROTOCOL[message_type].deserialize(payload)
+        except Exception:
+            logging.exception(f"{self.__get_prefix()} received malformed {message_type.name}")
+            return
 
         self.__count_one("received", message_type)
         if self._callback is None:
-- 
2.43.0


From 31e05d0668112375349fd3b5f04661d7802b5388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 19/52] fix: a task result without a final status is ignored

---
 scaled/scheduler/worker_manager.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index 17ce39d..fc86311 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -17,6 +17,7 @@ from scaled.protocol.python.message import HeartbeatEcho
 from scaled.protocol.python.message import Task
 from scaled.protocol.python.message import TaskCancel
 from scaled.protocol.python.message import TaskResult
+from scaled.protocol.python.message import TaskStatus
 from scaled.scheduler.allocators.queued import QueuedAllocator
 from scaled.scheduler.mixins import Looper
 from scaled.scheduler.mixins import Reporter
@@ -67,6 +68,15 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
         await self._binder.send(worker, TaskCancel(task_cancel.task_id))
 
     async def on_task_done(self, task_result: TaskResult):
+        if task_result.status not in {
+            TaskStatus.Success,
+            TaskStatus.Failed,
+            TaskStatus.Canceled,
+            TaskStatus.NotFound,
+        }:
+            logging.error(f"received task result that is not final for task_id={task_result.task_id.hex()}")
+            return
+
         worker = self._allocator.remove_task(task_result.task_id)
         if worker is None:
             logging.error(
-- 
2.43.0


From c9a338ff01d96e06f5c3daeb4e7aee5efb3e1500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 20/52] fix: load_balance_trigger_times=1 balances on the first
 advice instead of never

---
 scaled/scheduler/worker_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index fc86311..fe86d26 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -150,9 +150,9 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
         if self._last_balance_advice != current_advice:
             self._last_balance_advice = current_advice
             self._load_balance_advice_same_count = 1
-            return
+        else:
+            self._load_balance_advice_same_count += 1
 
-        self._load_balance_advice_same_count += 1
         if self._load_balance_advice_same_count != self._load_balance_trigger_times:
             return
 
-- 
2.43.0


From 5d2e61d2ef20d6d1cad2e6fa5c57104a1393e274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:11 +0000
Subject: [PATCH 21/52] fix: a task waiting for the worker's processor can be
 canceled and is counted as queued

---
 scaled/worker/agent/mixins.py            | 4 ++++
 scaled/worker/agent/processor_manager.py | 6 ++++++
 scaled/worker/agent/task_manager.py      | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/scaled/worker/agent/mixins.py b/scaled/worker/agent/mixins.py
index 9229fa2..a6dec80 100644
--- a/scaled/worker/agent/mixins.py
+++ b/scaled/worker/agent/mixins.py
@@ -62,6 +62,10 @@ class ProcessorManager(metaclass=abc.ABCMeta):
     def on_function_response(self, response: FunctionResponse):
         raise NotImplementedError()
 
+    @abc.abstractmethod
+    async def wait_until_ready(self):
+        raise NotImplementedError()
+
     @abc.abstractmethod
     async def on_task(self, task: Task) -> bool:
         raise NotImplementedError()
diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index f378c55..946dfd3 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -89,6 +89,12 @@ class VanillaProcessorManager(Looper, ProcessorManager):
 
         raise TypeError(f"unknown function request type: {request.type}")
 
+    async def wait_until_ready(self):
+        async with self._processor_holder.task_wait_lock:
+            pass
+
+        await self._processor_holder.initialized.wait()
+
     async def on_task(self, task: Task) -> bool:
         await self._processor_holder.task_wait_lock.acquire()
 
diff --git a/scaled/worker/agent/task_manager.py b/scaled/worker/agent/task_manager.py
index ac23f29..b811a5b 100644
--- a/scaled/worker/agent/task_manager.py
+++ b/scaled/worker/agent/task_manager.py
@@ -64,6 +64,9 @@ class VanillaTaskManager(Looper, TaskManager):
         return self._queued_task_ids.qsize()
 
     async def __processing_task(self):
+        # a task stays in the queue until the processor can take it, so it is counted and can be canceled or returned
+        await self._processor_manager.wait_until_ready()
+
         task_id = await self._queued_task_ids.get()
         task = self._queued_task_id_to_task.pop(task_id)
         if await self._processor_manager.on_task(task):
-- 
2.43.0


From f71e841c8c06cdedf427aafae2cab846ebd3294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:11 +0000
Subject: [PATCH 22/52] fix: canceling a task an idle worker does not hold no
 longer stops the worker

---
 scaled/worker/agent/processor_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index 946dfd3..ad1067c 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -121,7 +121,7 @@ class VanillaProcessorManager(Looper, ProcessorManager):
         if not self._processor_holder.initialized.is_set():
             return False
 
-        if self._processor_holder.task.task_id != task_id:
+        if self._processor_holder.task is None or self._processor_holder.task.task_id != task_id:
             return False
 
         self.restart_processor()
-- 
2.43.0


From a7f94b5f97ede7103a312eea7bec6831b4336619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:11 +0000
Subject: [PATCH 23/52] fix: a worker survives late function replies, and goes
 on when the function of its task is gone

---
 scaled/worker/agent/processor_manager.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index ad1067c..8308a25 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -2,6 +2,7 @@ import asyncio
 import dataclasses
 import logging
 import os
+import pickle
 import signal
 import tempfile
 import uuid
@@ -17,6 +18,7 @@ from scaled.protocol.python.message import FunctionResponseType
 from scaled.protocol.python.message import MessageVariant
 from scaled.protocol.python.message import Task
 from scaled.protocol.python.message import TaskResult
+from scaled.protocol.python.message import TaskStatus
 from scaled.protocol.python.serializer.mixins import Serializer
 from scaled.utility.logging.utility import setup_logger
 from scaled.utility.zmq_config import ZMQConfig
@@ -108,11 +110,18 @@ class VanillaProcessorManager(Looper, ProcessorManager):
         if not self._processor_holder.initialized.is_set():
             return
 
-        if self._processor_holder.task.function_id != response.function_id:
+        task = self._processor_holder.task
+        if task is None or task.function_id != response.function_id:
             return
 
         if response.status == FunctionResponseType.NotExists:
-            logging.info(f"cannot get function for task={self._processor_holder.task.task_id.hex()}, must be canceled")
+            logging.info(f"cannot get function for task={task.task_id.hex()}, must be canceled")
+            exception = RuntimeError(f"function of task {task.task_id.hex()} does not exist anymore")
+            await self._task_manager.on_task_result(
+                TaskResult(task.task_id, TaskStatus.Failed, 0, pickle.dumps(exception, pickle.HIGHEST_PROTOCOL))
+            )
+            self._processor_holder.task = None
+            self._processor_holder.task_wait_lock.release()
             return
 
         await self._connector_internal.send(response)
-- 
2.43.0


From 1b6e70f8a8f984a372bf7b9ff95f6ab6ab899c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:11 +0000
Subject: [PATCH 24/52] fix: interrupting a worker while it starts its
 processor leaves no processor behind

---
 scaled/worker/worker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scaled/worker/worker.py b/scaled/worker/worker.py
index 7a72651..65a6ed6 100644
--- a/scaled/worker/worker.py
+++ b/scaled/worker/worker.py
@@ -99,11 +99,13 @@ class Worker(multiprocessing.get_context("spawn").Process):  # type: ignore
         self._processor_manager.register(
             heartbeat=self._heartbeat, task_manager=self._task_manager, connector_external=self._connector_external
         )
-        self._processor_manager.initialize()
 
+        # be ready for signals before there is a processor to leave behind
         self._loop = asyncio.get_event_loop()
-        self.__register_signal()
         self._task = self._loop.create_task(self.__get_loops())
+        self.__register_signal()
+
+        self._processor_manager.initialize()
 
     async def __on_receive_external(self, message: MessageVariant):
         if isinstance(message, HeartbeatEcho):
-- 
2.43.0


From d745928f1a9000eaca531f60e0391cd311fa11e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:11 +0000
Subject: [PATCH 25/52] fix: a cluster with one worker shuts it down like any
 other

---
 scaled/cluster/cluster.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/scaled/cluster/cluster.py b/scaled/cluster/cluster.py
index 4f1beaa..462113d 100644
--- a/scaled/cluster/cluster.py
+++ b/scaled/cluster/cluster.py
@@ -73,10 +73,6 @@ class Cluster(multiprocessing.get_context("spawn").Process):  # type: ignore
             for _ in range(self._n_workers)
         ]
 
-        if self._n_workers == 1:
-            self._workers[0].run()
-            return
-
         for worker in self._workers:
             worker.start()
 
-- 
2.43.0


From 6330259991d36851ca3458bfe226ac2ed1efc5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:11 +0000
Subject: [PATCH 26/52] fix: the combined scheduler and cluster runs its
 scheduler on the event loop asked for

---
 scaled/cluster/combo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaled/cluster/combo.py b/scaled/cluster/combo.py
index 0d100b2..b7773e4 100644
--- a/scaled/cluster/combo.py
+++ b/scaled/cluster/combo.py
@@ -57,6 +57,7 @@ class SchedulerClusterCombo:
             function_retention_seconds=function_retention_seconds,
             load_balance_seconds=load_balance_seconds,
             load_balance_trigger_times=load_balance_trigger_times,
+            event_loop=event_loop,
         )
 
         self._cluster.start()
-- 
2.43.0


From f3f4271ab7a47fe28718d0d80bd8fc857d85a584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 27/52] fix: a processor survives function replies nobody waits
 for anymore

---
 scaled/worker/agent/processor/processor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index 47d23ab..56d30c2 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -102,9 +102,13 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
         logging.error(f"worker received unknown request function request type {request=}")
 
     def __on_receive_function_response(self, response: FunctionResponse):
-        self._cache_cleaner.add_function(response.function_id, self._serializer.deserialize_function(response.content))
         task = self._current_task
+        if task is None or task.function_id != response.function_id:
+            # late reply to a request of a task that is gone already
+            return
+
         self._current_task = None
+        self._cache_cleaner.add_function(response.function_id, self._serializer.deserialize_function(response.content))
         self.__process_task(task)
 
     def __on_received_task(self, task: Task):
-- 
2.43.0


From ad2691166dacce45b1f9a662f8c7e0e4ba0072ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 28/52] fix: evicting a cached function right before its task
 runs does not fail the task

---
 scaled/worker/agent/processor/processor.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index 56d30c2..8270c90 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -3,6 +3,7 @@ import multiprocessing
 import pickle
 import threading
 import time
+from typing import Callable
 from typing import Optional
 
 import tblib.pickling_support
@@ -108,21 +109,22 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
             return
 
         self._current_task = None
-        self._cache_cleaner.add_function(response.function_id, self._serializer.deserialize_function(response.content))
-        self.__process_task(task)
+        function = self._serializer.deserialize_function(response.content)
+        self._cache_cleaner.add_function(response.function_id, function)
+        self.__process_task(task, function)
 
     def __on_received_task(self, task: Task):
-        if self._cache_cleaner.get_function(task.function_id) is not None:
-            self.__process_task(task)
+        function = self._cache_cleaner.get_function(task.function_id)
+        if function is not None:
+            self.__process_task(task, function)
             return
 
         self._connector.send_immediately(FunctionRequest(FunctionRequestType.Request, task.function_id, b"", b""))
         self._current_task = task
 
-    def __process_task(self, task: Task):
+    def __process_task(self, task: Task, function: Callable):
         begin = time.monotonic()
         try:
-            function = self._cache_cleaner.get_function(task.function_id)
             args = tuple(self._serializer.deserialize_argument(arg.data) for arg in task.function_args)
             result = function(*args)
             result_bytes = self._serializer.serialize_result(result)
-- 
2.43.0


From fcc34a2845466ef406ffd49d23a9055b26fe74e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 29/52] fix: a task that exits, cannot be loaded or fails with
 something that cannot be pickled is reported as failed

---
 scaled/worker/agent/processor/processor.py | 33 ++++++++++++++--------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index 8270c90..99c8bbc 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -3,6 +3,7 @@ import multiprocessing
 import pickle
 import threading
 import time
+import traceback
 from typing import Callable
 from typing import Optional
 
@@ -109,7 +110,13 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
             return
 
         self._current_task = None
-        function = self._serializer.deserialize_function(response.content)
+        begin = time.monotonic()
+        try:
+            function = self._serializer.deserialize_function(response.content)
+        except BaseException as e:
+            self.__send_failed(task, begin, e)
+            return
+
         self._cache_cleaner.add_function(response.function_id, function)
         self.__process_task(task, function)
 
@@ -132,13 +139,17 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
                 TaskResult(task.task_id, TaskStatus.Success, time.monotonic() - begin, result_bytes)
             )
 
-        except Exception as e:
-            logging.exception(f"exception when processing task_id={task.task_id.hex()}:")
-            self._connector.send_immediately(
-                TaskResult(
-                    task.task_id,
-                    TaskStatus.Failed,
-                    time.monotonic() - begin,
-                    pickle.dumps(e, protocol=pickle.HIGHEST_PROTOCOL),
-                )
-            )
+        except BaseException as e:
+            self.__send_failed(task, begin, e)
+
+    def __send_failed(self, task: Task, begin: float, exception: BaseException):
+        logging.exception(f"exception when processing task_id={task.task_id.hex()}:")
+        try:
+            exception_bytes = pickle.dumps(exception, protocol=pickle.HIGHEST_PROTOCOL)
+        except Exception:
+            description = "".join(traceback.format_exception_only(type(exception), exception)).strip()
+            exception_bytes = pickle.dumps(RuntimeError(description), protocol=pickle.HIGHEST_PROTOCOL)
+
+        self._connector.send_immediately(
+            TaskResult(task.task_id, TaskStatus.Failed, time.monotonic() - begin, exception_bytes)
+        )
-- 
2.43.0


From 7994f284c061d4907c39b80ae5cf0aa4f0943258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 30/52] fix: adding a function while idle ones are evicted does
 not stop eviction

---
 scaled/worker/agent/processor/cache_cleaner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor/cache_cleaner.py b/scaled/worker/agent/processor/cache_cleaner.py
index 31aa835..0c8a2a7 100644
--- a/scaled/worker/agent/processor/cache_cleaner.py
+++ b/scaled/worker/agent/processor/cache_cleaner.py
@@ -55,7 +55,7 @@ class CacheCleaner(threading.Thread):
         now = time.time()
         idle_functions = [
             function_id
-            for function_id, alive_since in self._cached_functions_alive_since.items()
+            for function_id, alive_since in list(self._cached_functions_alive_since.items())
             if now - alive_since > self._function_retention_seconds
         ]
         for function_id in idle_functions:
-- 
2.43.0


From 69104cde9ed4f9cf91ca5c0ea9ed7f1aa04b4f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:12 +0000
Subject: [PATCH 31/52] fix: sizes above 1024t and latencies above 1000s are
 shown instead of stopping the monitor

---
 scaled/utility/formatter.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/scaled/utility/formatter.py b/scaled/utility/formatter.py
index 182868d..f9f9de8 100644
--- a/scaled/utility/formatter.py
+++ b/scaled/utility/formatter.py
@@ -6,7 +6,7 @@ TIME_MODULUS = 1000
 
 def format_bytes(number) -> str:
     for unit in ["b", "k", "m", "g", "t"]:
-        if number >= STORAGE_SIZE_MODULUS:
+        if number >= STORAGE_SIZE_MODULUS and unit != "t":
             number /= STORAGE_SIZE_MODULUS
             continue
 
@@ -15,8 +15,6 @@ def format_bytes(number) -> str:
 
         return f"{number:.1f}{unit}"
 
-    raise ValueError("Too big to show the byte size that >1000t")
-
 
 def format_integer(number) -> str:
     return f"{number:,}"
@@ -28,7 +26,7 @@ def format_percentage(number: float) -> str:
 
 def format_microseconds(number: Union[int, float]) -> str:
     for unit in ["us", "ms", "s"]:
-        if number >= TIME_MODULUS:
+        if number >= TIME_MODULUS and unit != "s":
             number /= TIME_MODULUS
             continue
 
@@ -38,8 +36,6 @@ def format_microseconds(number: Union[int, float]) -> str:
         too_big_sign = "+" if unit == "s" and number > TIME_MODULUS else ""
         return f"{int(number)}{too_big_sign}{unit}"
 
-    raise ValueError("Too big to show the seconds that >1000s")
-
 
 def format_seconds(number: int) -> str:
     if number > 60:
-- 
2.43.0


From 7cef99478abff7c48cddca3c3d4b79a0dd7de764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 32/52] fix: Client.map works with iterators that can be
 consumed only once

---
 scaled/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaled/client.py b/scaled/client.py
index 8e4bf20..81273e7 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -94,6 +94,7 @@ class Client:
         return future
 
     def map(self, fn: Callable, iterable: Iterable[Tuple[Any, ...]]) -> List[Any]:
+        iterable = list(iterable)  # it might be possible to go through it only once
         if not all(isinstance(args, (tuple, list)) for args in iterable):
             raise TypeError("iterable should be list of arguments(list or tuple-like) of function")
 
-- 
2.43.0


From 8a39568baca1f653da2719d2036d9315c3cef44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 33/52] fix: Client.submit refuses keyword arguments it cannot
 pass on instead of dropping them

---
 scaled/client.py | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 81273e7..56ad040 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -6,6 +6,7 @@ import uuid
 from collections import defaultdict
 from concurrent.futures import Future
 from graphlib import TopologicalSorter
+from inspect import Parameter
 from inspect import signature
 from typing import Any
 from typing import Callable
@@ -262,30 +263,23 @@ class Client:
 
     @staticmethod
     def __convert_kwargs_to_args(fn: Callable, args: Tuple[Any, ...], kwargs: Dict[str, Any]) -> Tuple:
-        all_params = [p for p in signature(fn).parameters.values()]
+        # raise TypeError if fn cannot be called like this
+        bound = signature(fn).bind(*args, **kwargs)
+        params = bound.signature.parameters
 
-        params = [p for p in all_params if p.kind in {p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD}]
-
-        if len(args) >= len(params):
-            return args
-
-        number_of_required = len([p for p in params if p.default is p.empty])
-
-        args_list = list(args)
-        kwargs = kwargs.copy()
-        kwargs.update({p.name: p.default for p in all_params if p.kind == p.KEYWORD_ONLY if p.default != p.empty})
-
-        for p in params[len(args_list) : number_of_required]:
-            try:
-                args_list.append(kwargs.pop(p.name))
-            except KeyError:
-                missing = tuple(p.name for p in params[len(args_list) : number_of_required])
-                raise TypeError(f"{fn} missing {len(missing)} arguments: {missing}")
+        # arguments are sent by position only, nothing the caller gave can be left out
+        keyword_only = tuple(
+            name for name in bound.arguments if params[name].kind in {Parameter.KEYWORD_ONLY, Parameter.VAR_KEYWORD}
+        )
+        if keyword_only:
+            raise TypeError(f"{fn} keyword only arguments are not supported: {keyword_only}")
 
-        for p in params[len(args_list) :]:
-            args_list.append(kwargs.pop(p.name, p.default))
+        if not bound.kwargs:
+            return bound.args
 
-        return tuple(args_list)
+        # some parameters before the last given one are left to their default
+        last = list(params).index(list(bound.arguments)[-1])
+        return tuple(bound.arguments.get(p.name, p.default) for p in list(params.values())[: last + 1])
 
     def __split_data_and_graph(
         self, graph: Dict[str, Union[Any, Tuple[Union[Callable, Any], ...]]]
-- 
2.43.0


From f2a30afa1df9981e610af99b7a74791128c822ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 34/52] fix: Client.get returns the right results if a key is
 requested more than once

---
 scaled/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaled/client.py b/scaled/client.py
index 56ad040..b7c6c74 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -123,6 +123,7 @@ class Client:
         }
         """
 
+        keys = list(dict.fromkeys(keys))
         node_name_to_data_argument, graph = self.__split_data_and_graph(graph)
         self.__check_graph(node_name_to_data_argument, graph, keys)
 
-- 
2.43.0


From 97105c898ed345a6cb6701952b8d9f67cf1b25c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:38 +0000
Subject: [PATCH 35/52] fix: every future of a failed graph gets the exception

---
 scaled/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index b7c6c74..fa5b2e4 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -230,8 +230,8 @@ class Client:
 
         if graph_result.status == TaskStatus.Failed:
             exception = pickle.loads(graph_result.results[0])
-            for i, result in enumerate(graph_result.results):
-                futures[i].set_exception(exception)
+            for future in futures:
+                future.set_exception(exception)
             return
 
     def __on_exit(self):
-- 
2.43.0


From 007259791af193ff518f674c3aeff992f7b6dde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 36/52] fix: threads sharing a client no longer lose calls to
 the receiving thread

---
 scaled/client.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index fa5b2e4..5e2f9e8 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -46,6 +46,9 @@ class Client:
         self._address = address
         self._serializer = serializer
 
+        # guards what callers share with the receiving thread
+        self._lock = threading.RLock()
+
         self._stop_event = threading.Event()
         self._connector = SyncConnector(
             stop_event=self._stop_event,
@@ -85,13 +88,13 @@ class Client:
             function_id,
             [Argument(ArgumentType.Data, self._serializer.serialize_argument(data)) for data in all_args],
         )
-        self._task_id_to_task[task_id] = task
-        self._task_id_to_function[task_id] = (function_name, function_bytes)
-
-        self.__on_buffer_task_send(task)
-
         future: Future = Future()
-        self._task_id_to_future[task_id] = future
+        with self._lock:
+            self._task_id_to_task[task_id] = task
+            self._task_id_to_function[task_id] = (function_name, function_bytes)
+            self._task_id_to_future[task_id] = future
+            self.__on_buffer_task_send(task)
+
         return future
 
     def map(self, fn: Callable, iterable: Iterable[Tuple[Any, ...]]) -> List[Any]:
@@ -128,8 +131,9 @@ class Client:
         self.__check_graph(node_name_to_data_argument, graph, keys)
 
         graph_task, futures = self.__construct_graph(node_name_to_data_argument, graph, keys)
-        self._connector.send(graph_task)
-        self._graph_task_id_to_futures[graph_task.task_id] = futures
+        with self._lock:
+            self._graph_task_id_to_futures[graph_task.task_id] = futures
+            self._connector.send(graph_task)
 
         return_futures: Dict[str, Future] = dict(zip(keys, futures))
         if not block:
@@ -189,6 +193,10 @@ class Client:
         self._task_id_to_future[task_echo.task_id].set_running_or_notify_cancel()
 
     def __on_buffer_task_send(self, task):
+        with self._lock:
+            self.__buffer_task(task)
+
+    def __buffer_task(self, task):
         if task.function_id not in self._function_id_to_not_ready_tasks:
             function_name, function_bytes = self._task_id_to_function[task.task_id]
             self._connector.send(
@@ -199,11 +207,9 @@ class Client:
 
     def __on_function_response(self, response: FunctionResponse):
         assert response.status in {FunctionResponseType.OK, FunctionResponseType.Duplicated}
-        if response.function_id not in self._function_id_to_not_ready_tasks:
-            return
-
-        for task in self._function_id_to_not_ready_tasks.pop(response.function_id):
-            self._connector.send(task)
+        with self._lock:
+            for task in self._function_id_to_not_ready_tasks.pop(response.function_id, []):
+                self._connector.send(task)
 
     def __on_task_result(self, result: TaskResult):
         if result.task_id not in self._task_id_to_future:
-- 
2.43.0


From bd1fa9c68b87e28f4be72cbb709a3219f2b590c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 37/52] fix: disconnecting resolves every future, and nothing
 can be submitted afterwards

---
 scaled/client.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 5e2f9e8..140bc32 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -90,6 +90,7 @@ class Client:
         )
         future: Future = Future()
         with self._lock:
+            self.__check_connected()
             self._task_id_to_task[task_id] = task
             self._task_id_to_function[task_id] = (function_name, function_bytes)
             self._task_id_to_future[task_id] = future
@@ -132,6 +133,7 @@ class Client:
 
         graph_task, futures = self.__construct_graph(node_name_to_data_argument, graph, keys)
         with self._lock:
+            self.__check_connected()
             self._graph_task_id_to_futures[graph_task.task_id] = futures
             self._connector.send(graph_task)
 
@@ -241,18 +243,32 @@ class Client:
             return
 
     def __on_exit(self):
-        if self._task_id_to_future:
-            logging.info(f"canceling {len(self._task_id_to_future)} task(s)")
-            for task_id, future in self._task_id_to_future.items():
+        # nothing can be submitted anymore, see __check_connected
+        with self._lock:
+            task_id_to_future = dict(self._task_id_to_future)
+            graph_task_id_to_futures = dict(self._graph_task_id_to_futures)
+
+        if task_id_to_future:
+            logging.info(f"canceling {len(task_id_to_future)} task(s)")
+            for task_id, future in task_id_to_future.items():
                 self._connector.send_immediately(TaskCancel(task_id))
-                future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
+                self.__set_exception(future, ScaledDisconnect(f"disconnected from {self._address}"))
 
-        if self._graph_task_id_to_futures:
-            logging.info(f"canceling {len(self._graph_task_id_to_futures)} graph task(s)")
-            for task_id, futures in self._graph_task_id_to_futures.items():
+        if graph_task_id_to_futures:
+            logging.info(f"canceling {len(graph_task_id_to_futures)} graph task(s)")
+            for task_id, futures in graph_task_id_to_futures.items():
                 self._connector.send_immediately(GraphTaskCancel(task_id))
                 for future in futures:
-                    future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
+                    self.__set_exception(future, ScaledDisconnect(f"disconnected from {self._address}"))
+
+    def __check_connected(self):
+        if self._stop_event.is_set():
+            raise ScaledDisconnect(f"disconnected from {self._address}")
+
+    @staticmethod
+    def __set_exception(future: Future, exception: BaseException):
+        if future.running() or future.set_running_or_notify_cancel():
+            future.set_exception(exception)
 
     def __get_function_id(self, fn: Callable) -> Tuple[bytes, Tuple[bytes, bytes]]:
         if fn in self._function_to_function_id_cache:
-- 
2.43.0


From 2453b867313dc7e6cf7cbf18553c0cdca484d8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 38/52] fix: a future canceled by the user no longer stops the
 client

---
 scaled/client.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scaled/client.py b/scaled/client.py
index 140bc32..22f400f 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -132,6 +132,9 @@ class Client:
         self.__check_graph(node_name_to_data_argument, graph, keys)
 
         graph_task, futures = self.__construct_graph(node_name_to_data_argument, graph, keys)
+        for future in futures:
+            future.set_running_or_notify_cancel()  # parts of a graph cannot be canceled
+
         with self._lock:
             self.__check_connected()
             self._graph_task_id_to_futures[graph_task.task_id] = futures
@@ -192,7 +195,10 @@ class Client:
 
         self._task_id_to_task.pop(task_echo.task_id)
         self._task_id_to_function.pop(task_echo.task_id)
-        self._task_id_to_future[task_echo.task_id].set_running_or_notify_cancel()
+        if not self._task_id_to_future[task_echo.task_id].set_running_or_notify_cancel():
+            # the user canceled it in the meantime
+            self._task_id_to_future.pop(task_echo.task_id)
+            self._connector.send(TaskCancel(task_echo.task_id))
 
     def __on_buffer_task_send(self, task):
         with self._lock:
-- 
2.43.0


From be492ddc19efb7cfd7d827447708282a9cb2fa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 39/52] fix: futures of canceled tasks and graphs are resolved

---
 scaled/client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scaled/client.py b/scaled/client.py
index 22f400f..647c6c9 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -4,6 +4,7 @@ import pickle
 import threading
 import uuid
 from collections import defaultdict
+from concurrent.futures import CancelledError
 from concurrent.futures import Future
 from graphlib import TopologicalSorter
 from inspect import Parameter
@@ -232,6 +233,8 @@ class Client:
             future.set_exception(pickle.loads(result.result))
             return
 
+        future.set_exception(CancelledError(f"task is canceled: {result.status}"))
+
     def __on_graph_task_result(self, graph_result: GraphTaskResult):
         if graph_result.task_id not in self._graph_task_id_to_futures:
             return
@@ -248,6 +251,9 @@ class Client:
                 future.set_exception(exception)
             return
 
+        for future in futures:
+            future.set_exception(CancelledError(f"graph is canceled: {graph_result.status}"))
+
     def __on_exit(self):
         # nothing can be submitted anymore, see __check_connected
         with self._lock:
-- 
2.43.0


From f31c6c36cb32aa43f57e90c9fd417cb8b0d18a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 40/52] fix: a result or exception that cannot be decoded fails
 its own future only

---
 scaled/client.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 647c6c9..1e9612d 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -226,11 +226,11 @@ class Client:
 
         future = self._task_id_to_future.pop(result.task_id)
         if result.status == TaskStatus.Success:
-            future.set_result(self._serializer.deserialize_result(result.result))
+            self.__set_decoded(future, self._serializer.deserialize_result, result.result)
             return
 
         if result.status == TaskStatus.Failed:
-            future.set_exception(pickle.loads(result.result))
+            future.set_exception(self.__decode_exception(result.result))
             return
 
         future.set_exception(CancelledError(f"task is canceled: {result.status}"))
@@ -242,11 +242,11 @@ class Client:
         futures = self._graph_task_id_to_futures.pop(graph_result.task_id)
         if graph_result.status == TaskStatus.Success:
             for i, result in enumerate(graph_result.results):
-                futures[i].set_result(self._serializer.deserialize_result(result))
+                self.__set_decoded(futures[i], self._serializer.deserialize_result, result)
             return
 
         if graph_result.status == TaskStatus.Failed:
-            exception = pickle.loads(graph_result.results[0])
+            exception = self.__decode_exception(graph_result.results[0])
             for future in futures:
                 future.set_exception(exception)
             return
@@ -277,6 +277,23 @@ class Client:
         if self._stop_event.is_set():
             raise ScaledDisconnect(f"disconnected from {self._address}")
 
+    @staticmethod
+    def __set_decoded(future: Future, decode: Callable[[bytes], Any], payload: bytes):
+        try:
+            result = decode(payload)
+        except BaseException as e:
+            future.set_exception(e)
+            return
+
+        future.set_result(result)
+
+    @staticmethod
+    def __decode_exception(payload: bytes) -> BaseException:
+        try:
+            return pickle.loads(payload)
+        except BaseException as e:
+            return e
+
     @staticmethod
     def __set_exception(future: Future, exception: BaseException):
         if future.running() or future.set_running_or_notify_cancel():
-- 
2.43.0


From 037de2eb353093a4c9623a2406799a04d2928a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 41/52] fix: a task the scheduler rejects fails its own future
 only

---
 scaled/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scaled/client.py b/scaled/client.py
index 1e9612d..68bd1f8 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -190,7 +190,11 @@ class Client:
             return
 
         if task_echo.status == TaskEchoStatus.NoWorker:
-            raise NotImplementedError("please implement that handles no worker error")
+            self._task_id_to_task.pop(task_echo.task_id)
+            self._task_id_to_function.pop(task_echo.task_id)
+            future = self._task_id_to_future.pop(task_echo.task_id)
+            self.__set_exception(future, RuntimeError("scheduler rejected the task, too many tasks are waiting"))
+            return
 
         assert task_echo.status == TaskEchoStatus.SubmitOK, f"Unknown task status: " f"{task_echo=}"
 
-- 
2.43.0


From 2d8572c0ef73b00b5ade684441c6084f3e7a2e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:41 +0000
Subject: [PATCH 42/52] fix: worker survives being sent a task it still has
 queued

---
 scaled/worker/agent/task_manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scaled/worker/agent/task_manager.py b/scaled/worker/agent/task_manager.py
index b811a5b..16eb0d9 100644
--- a/scaled/worker/agent/task_manager.py
+++ b/scaled/worker/agent/task_manager.py
@@ -27,6 +27,10 @@ class VanillaTaskManager(Looper, TaskManager):
         self._processor_manager = processor_manager
 
     async def on_task_new(self, task: Task):
+        if task.task_id in self._queued_task_id_to_task:
+            # scheduler took this worker for lost for a while and sends again what is still queued here
+            return
+
         self._queued_task_id_to_task[task.task_id] = task
         await self._queued_task_ids.put(task.task_id)
 
-- 
2.43.0


From 64288e509815d2160668a0be9c182eb90d8ac2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:56 +0000
Subject: [PATCH 43/52] fix: cluster shuts down all its workers when signalled
 during start or after a worker died

---
 scaled/cluster/cluster.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/scaled/cluster/cluster.py b/scaled/cluster/cluster.py
index 462113d..b205fde 100644
--- a/scaled/cluster/cluster.py
+++ b/scaled/cluster/cluster.py
@@ -36,6 +36,7 @@ class Cluster(multiprocessing.get_context("spawn").Process):  # type: ignore
         self._serializer = serializer
 
         self._workers: List[Worker] = []
+        self._shutting_down = False
 
     def run(self):
         setup_logger()
@@ -45,7 +46,15 @@ class Cluster(multiprocessing.get_context("spawn").Process):  # type: ignore
     def __destroy(self, *args):
         assert args is not None
         logging.info(f"{self.__get_prefix()} received signal, shutting down")
+        self._shutting_down = True
+        self.__interrupt_workers()
+
+    def __interrupt_workers(self):
         for worker in self._workers:
+            if not worker.is_alive():
+                # not started yet or ended already
+                continue
+
             logging.info(f"{self.__get_prefix()}: shutting down worker[{worker.pid}]")
             os.kill(worker.pid, signal.SIGINT)
 
@@ -74,13 +83,20 @@ class Cluster(multiprocessing.get_context("spawn").Process):  # type: ignore
         ]
 
         for worker in self._workers:
+            if self._shutting_down:
+                break
+
             worker.start()
 
         for i, worker in enumerate(self._workers):
             logging.info(f"Worker[{worker.ident}] started")
 
         for worker in self._workers:
-            worker.join()
+            while worker.is_alive():
+                worker.join(timeout=1)
+                if self._shutting_down:
+                    # worker that is being started can miss the signal
+                    self.__interrupt_workers()
 
         logging.info(f"{self.__get_prefix()} shutdown")
 
-- 
2.43.0


From dd3be4599bac2e7af420c6a448163dbc97dd6be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:56 +0000
Subject: [PATCH 44/52] fix: worker handles signals before it creates its
 socket file

---
 scaled/worker/worker.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scaled/worker/worker.py b/scaled/worker/worker.py
index 65a6ed6..29c3099 100644
--- a/scaled/worker/worker.py
+++ b/scaled/worker/worker.py
@@ -69,6 +69,10 @@ class Worker(multiprocessing.get_context("spawn").Process):  # type: ignore
         # setup_logger()
         register_event_loop(self._event_loop)
 
+        # be ready for signals before there is a socket file or processor to leave behind
+        self._loop = asyncio.get_event_loop()
+        self.__register_signal()
+
         self._connector_external = AsyncConnector(
             context=zmq.asyncio.Context(),
             socket_type=zmq.DEALER,
@@ -100,12 +104,8 @@ class Worker(multiprocessing.get_context("spawn").Process):  # type: ignore
             heartbeat=self._heartbeat, task_manager=self._task_manager, connector_external=self._connector_external
         )
 
-        # be ready for signals before there is a processor to leave behind
-        self._loop = asyncio.get_event_loop()
-        self._task = self._loop.create_task(self.__get_loops())
-        self.__register_signal()
-
         self._processor_manager.initialize()
+        self._task = self._loop.create_task(self.__get_loops())
 
     async def __on_receive_external(self, message: MessageVariant):
         if isinstance(message, HeartbeatEcho):
-- 
2.43.0


From d5ddf338fb7d592b30b5a35e487088b561da6883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:08 +0000
Subject: [PATCH 45/52] fix: a surplus that yields the same balance advice as
 one balanced before is balanced too

---
 scaled/scheduler/worker_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index fe86d26..19f74f7 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -161,6 +161,7 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
 
         logging.info(f"balance: {current_advice}")
         self._last_balance_advice = current_advice
+        self._load_balance_advice_same_count = 0  # another surplus can happen to yield the same advice
         for worker, number_of_tasks in current_advice.items():
             await self._binder.send(worker, BalanceRequest(number_of_tasks))
 
-- 
2.43.0


From ef7444920791e534a51a595d788242e06fb9fb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:19 +0000
Subject: [PATCH 46/52] fix: cancel request of a user canceled task is not lost
 when the client disconnects

---
 scaled/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaled/client.py b/scaled/client.py
index 68bd1f8..688504a 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -203,7 +203,7 @@ class Client:
         if not self._task_id_to_future[task_echo.task_id].set_running_or_notify_cancel():
             # the user canceled it in the meantime
             self._task_id_to_future.pop(task_echo.task_id)
-            self._connector.send(TaskCancel(task_echo.task_id))
+            self._connector.send_immediately(TaskCancel(task_echo.task_id))
 
     def __on_buffer_task_send(self, task):
         with self._lock:
-- 
2.43.0


From f9be0243ec2c45483eabc85b5e014f79c1f743de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:35 +0000
Subject: [PATCH 47/52] fix: top survives a terminal too small for its own
 notice

---
 scaled/entry_points/top.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scaled/entry_points/top.py b/scaled/entry_points/top.py
index 0009166..09831f7 100644
--- a/scaled/entry_points/top.py
+++ b/scaled/entry_points/top.py
@@ -242,5 +242,8 @@ def __truncate(string: str, number: int, how: Literal["left", "right"] = "left")
 
 def __print_too_small(screen):
     screen.clear()
-    screen.addstr(0, 0, "Your terminal is too small to show")
+    try:
+        screen.addstr(0, 0, "Your terminal is too small to show")
+    except curses.error:
+        pass
     screen.refresh()
-- 
2.43.0


From 1c5223de224201c144a45e1c6f9a918066dfb7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:26 +0000
Subject: [PATCH 48/52] fix: top shows names with control characters instead of
 failing on them

---
 scaled/entry_points/top.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scaled/entry_points/top.py b/scaled/entry_points/top.py
index 09831f7..915c26f 100644
--- a/scaled/entry_points/top.py
+++ b/scaled/entry_points/top.py
@@ -174,6 +174,8 @@ def __print_table(screen, line_number, data, padding: int = 1):
     if not data:
         return
 
+    # names come from clients and workers, control characters in them would fail or move the cursor
+    data = [["".join(c if c.isprintable() else "?" for c in str(cell)) for cell in row] for row in data]
     col_widths = [max(len(str(row[i])) for row in data) for i in range(len(data[0]))]
 
     for i, header in enumerate(data[0]):
-- 
2.43.0


From 5b116515534e94c33cf2d61ac7951fc94966d549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:40 +0000
Subject: [PATCH 49/52] fix: processor whose function ignores or catches
 SIGTERM is killed, worker does not hang on it

---
 scaled/worker/agent/processor_manager.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index 8308a25..b2a0bb3 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -29,6 +29,8 @@ from scaled.worker.agent.mixins import ProcessorManager
 from scaled.worker.agent.mixins import TaskManager
 from scaled.worker.agent.processor.processor import Processor
 
+_TERMINATE_TIMEOUT_SECONDS = 1
+
 
 @dataclasses.dataclass
 class _ProcessorHolder:
@@ -161,8 +163,13 @@ class VanillaProcessorManager(Looper, ProcessorManager):
             self._processor_holder.initialized.clear()
             return
 
-        logging.info(f"Worker[{os.getpid()}]: stop Processor[{self._processor_holder.processor.pid}]")
-        os.kill(self._processor_holder.processor.pid, signal.SIGTERM)
+        processor = self._processor_holder.processor
+        logging.info(f"Worker[{os.getpid()}]: stop Processor[{processor.pid}]")
+        os.kill(processor.pid, signal.SIGTERM)
+        processor.join(timeout=_TERMINATE_TIMEOUT_SECONDS)
+        if processor.is_alive():
+            # running function can catch or ignore the signal
+            os.kill(processor.pid, signal.SIGKILL)
 
         self._processor_holder.processor = None
         self._processor_holder.initialized.clear()
-- 
2.43.0


From 656c127f2cec7269daec83c658fc7349d1ca8522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:45 +0000
Subject: [PATCH 50/52] fix: client that disconnected keeps no tasks, arguments
 and futures

---
 scaled/client.py            | 7 +++++++
 scaled/io/sync_connector.py | 1 +
 2 files changed, 8 insertions(+)

diff --git a/scaled/client.py b/scaled/client.py
index 688504a..a68d404 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -277,6 +277,13 @@ class Client:
                 for future in futures:
                     self.__set_exception(future, ScaledDisconnect(f"disconnected from {self._address}"))
 
+        # nothing of it is needed anymore
+        self._task_id_to_task.clear()
+        self._task_id_to_function.clear()
+        self._task_id_to_future.clear()
+        self._function_id_to_not_ready_tasks.clear()
+        self._graph_task_id_to_futures.clear()
+
     def __check_connected(self):
         if self._stop_event.is_set():
             raise ScaledDisconnect(f"disconnected from {self._address}")
diff --git a/scaled/io/sync_connector.py b/scaled/io/sync_connector.py
index 58fc84f..c8af185 100644
--- a/scaled/io/sync_connector.py
+++ b/scaled/io/sync_connector.py
@@ -82,6 +82,7 @@ class SyncConnector(threading.Thread):
         if self._exit_callback is not None:
             self._exit_callback()
 
+        self._send_queue = Queue()  # what is not sent yet will not be sent anymore
         self.close()
 
     def send(self, message: MessageVariant):
-- 
2.43.0


From 54cbf00ac574aad82c94200278ecb79ac7dee387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:45 +0000
Subject: [PATCH 51/52] fix: event loop uvloop works, its policy creates none
 on demand

---
 scaled/utility/event_loop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scaled/utility/event_loop.py b/scaled/utility/event_loop.py
index 986a688..c0ad620 100644
--- a/scaled/utility/event_loop.py
+++ b/scaled/utility/event_loop.py
@@ -27,6 +27,8 @@ def register_event_loop(event_loop_type_str: str):
             raise ImportError("please use pip install uvloop if try to use uvloop as event loop")
 
         uvloop.install()
+        # the policy of uvloop doesn't create the event loop of the main thread on demand
+        asyncio.set_event_loop(asyncio.new_event_loop())
 
     logging.info(f"use event loop: {event_loop_type.value}")
 
-- 
2.43.0


From 57617066405bf3a23edc2574ca5a0aa09a1dca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:16 +0000
Subject: [PATCH 52/52] fix: exception whose class is defined in the user's
 script arrives as that class

---
 scaled/worker/agent/processor/processor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index 99c8bbc..be9728e 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -7,6 +7,7 @@ import traceback
 from typing import Callable
 from typing import Optional
 
+import cloudpickle
 import tblib.pickling_support
 import zmq
 
@@ -145,7 +146,7 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
     def __send_failed(self, task: Task, begin: float, exception: BaseException):
         logging.exception(f"exception when processing task_id={task.task_id.hex()}:")
         try:
-            exception_bytes = pickle.dumps(exception, protocol=pickle.HIGHEST_PROTOCOL)
+            exception_bytes = cloudpickle.dumps(exception, protocol=pickle.HIGHEST_PROTOCOL)
         except Exception:
             description = "".join(traceback.format_exception_only(type(exception), exception)).strip()
             exception_bytes = pickle.dumps(RuntimeError(description), protocol=pickle.HIGHEST_PROTOCOL)
-- 
2.43.0

