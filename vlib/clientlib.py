"""A scripted scheduler for real Clients: a ROUTER socket, a thread, real time, and a record of every message."""
import heapq
import pickle
import random
import threading
import time
import uuid
from collections import Counter, defaultdict

import zmq

from scaled.protocol.python.message import (PROTOCOL, FunctionRequest, FunctionRequestType, FunctionResponse, FunctionResponseType, GraphTask,
                                            GraphTaskCancel, GraphTaskResult, MessageType, Task, TaskCancel, TaskEcho, TaskEchoStatus, TaskResult,
                                            TaskStatus)


class Script:
    """how the scripted scheduler behaves; every number is a probability or a (low, high) range in seconds"""

    def __init__(self, **kw):
        self.reply = (0.0, 0.01)  # function responses and echoes
        self.echo = None  # echoes that accept a task, when they are to differ
        self.run = (0.0, 0.05)  # results
        self.forget = 0.0  # function is gone when a task of it arrives
        self.reject = 0.0  # NoWorker
        self.hold = 0.0  # task or graph is never finished
        self.mute = 0.0  # function response is never sent
        self.busy = False  # takes nothing in while paused, the connection holds little
        self.__dict__.update(kw)


class Stub(threading.Thread):
    def __init__(self, seed, serializer, script, execute=None):
        super().__init__(daemon=True)
        self.rng = random.Random(f"stub-{seed}")
        self.serializer = serializer
        self.script = script
        self.socket = zmq.Context.instance().socket(zmq.ROUTER)
        self.socket.setsockopt(zmq.LINGER, 0)
        self.socket.setsockopt(zmq.SNDHWM, 0)
        self.socket.setsockopt(zmq.RCVHWM, 1 if script.busy else 0)
        self.paused, self.silent, self.last_in = False, False, 0.0
        if self.rng.random() < 0.5 and not script.busy:
            self.address = f"inproc://verif-{uuid.uuid4().hex}"
            self.socket.bind(self.address)
        else:
            self.address = f"tcp://127.0.0.1:{self.socket.bind_to_random_port('tcp://127.0.0.1')}"
        self.log = []  # (time, "in" or "out", client, message, raw frames)
        self.functions = {}  # function id -> (name, content)
        self.heap = []
        self.n = 0
        self.tasks = {}  # task id -> dict(client, task, done, held)
        self.graphs = {}
        self.received = defaultdict(Counter)  # message type name -> id -> times
        self.not_exists = Counter()  # task id -> times answered FunctionNotExists
        self.trouble = []
        self.stopping = False
        self.execute_hook = execute
        self.order = []  # order in which tasks finished

    # ------------------------------------------------------------------------------------------ plumbing
    def run(self):
        try:
            while not self.stopping:
                now = time.monotonic()
                while self.heap and self.heap[0][0] <= now:
                    _, _, action = heapq.heappop(self.heap)
                    action()
                wait = 2 if not self.heap else max(0, min(2, (self.heap[0][0] - time.monotonic()) * 1000))
                if self.paused:
                    time.sleep(0.005)
                elif self.socket.poll(wait):
                    for _ in range(200):
                        try:
                            frames = self.socket.recv_multipart(zmq.NOBLOCK)
                        except zmq.Again:
                            break
                        self.last_in = time.monotonic()
                        self.on_frames(frames)
        except Exception as e:  # noqa
            import traceback

            self.trouble.append(traceback.format_exc())
        finally:
            self.socket.close()

    def stop(self):
        self.stopping = True
        self.join(5)

    def later(self, span, action, after=0.0):
        t = time.monotonic() + max(after, 0) + self.rng.uniform(*span)
        self.n += 1
        heapq.heappush(self.heap, (t, self.n, action))
        return t

    def send(self, client, message):
        if self.silent:
            return
        frames = [PROTOCOL.inverse[type(message)].value, *message.serialize()]
        self.log.append((time.monotonic(), "out", client, message, frames))
        self.socket.send_multipart([client, *frames])

    # ------------------------------------------------------------------------------------------ the scheduler's side
    def on_frames(self, frames):
        client, kind, *payload = frames
        message = PROTOCOL[MessageType(kind)].deserialize(payload)
        self.log.append((time.monotonic(), "in", client, message, [kind, *payload]))
        name = type(message).__name__
        key = getattr(message, "task_id", None) or getattr(message, "function_id", b"")
        self.received[name][key] += 1
        getattr(self, "on_" + name, self.on_unexpected)(client, message)

    def on_unexpected(self, client, message):
        self.trouble.append(f"client sent {message!r:.300}")

    def on_FunctionRequest(self, client, m):
        if m.type != FunctionRequestType.Add:
            self.trouble.append(f"client sent function request {m.type}")
            return
        known = self.functions.get(m.function_id)
        if known is not None and known[1] != m.content:
            self.trouble.append(f"one function id for two contents: {m.function_id.hex()}")
        self.functions[m.function_id] = (m.function_name, m.content)
        status = FunctionResponseType.OK if known is None else FunctionResponseType.Duplicated
        if self.rng.random() < self.script.mute:
            return
        self.later(self.script.reply, lambda: self.send(client, FunctionResponse(status, m.function_id, b"", b"")))

    def on_Task(self, client, m):
        if self.rng.random() < self.script.forget:
            self.functions.pop(m.function_id, None)
        if m.function_id not in self.functions:
            self.not_exists[m.task_id] += 1
            self.later(self.script.reply, lambda: self.send(client, TaskEcho(m.task_id, TaskEchoStatus.FunctionNotExists)))
            return
        if m.task_id in self.tasks:
            self.later(self.script.reply, lambda: self.send(client, TaskEcho(m.task_id, TaskEchoStatus.Duplicated)))
            return
        if self.rng.random() < self.script.reject:
            self.tasks[m.task_id] = dict(client=client, task=m, done=True, rejected=True)
            self.later(self.script.reply, lambda: self.send(client, TaskEcho(m.task_id, TaskEchoStatus.NoWorker)))
            return
        content = self.functions[m.function_id][1]
        info = self.tasks[m.task_id] = dict(client=client, task=m, done=False, held=self.rng.random() < self.script.hold)
        t = self.later(self.script.echo or self.script.reply, lambda: self.send(client, TaskEcho(m.task_id, TaskEchoStatus.SubmitOK)))
        if not info["held"]:
            self.later(self.script.run, lambda: self.finish(info, content), after=t - time.monotonic())

    def finish(self, info, content):
        if info["done"]:
            return
        info["done"] = True
        m = info["task"]
        status, payload = self.execute(content, [a.data for a in m.function_args])
        info["status"] = status
        self.order.append(m.task_id)
        self.send(info["client"], TaskResult(m.task_id, status, 0.0, payload))

    def execute(self, content, args):
        if self.execute_hook:
            return self.execute_hook(content, args)
        try:
            function = self.serializer.deserialize_function(content)
            values = [self.serializer.deserialize_argument(a) for a in args]
            return TaskStatus.Success, self.serializer.serialize_result(function(*values))
        except BaseException as e:
            try:
                return TaskStatus.Failed, pickle.dumps(e, protocol=pickle.HIGHEST_PROTOCOL)
            except Exception:
                return TaskStatus.Failed, pickle.dumps(RuntimeError(repr(e)), protocol=pickle.HIGHEST_PROTOCOL)

    def on_TaskCancel(self, client, m):
        info = self.tasks.get(m.task_id)
        if info is None or info["done"]:
            self.later(self.script.reply, lambda: self.send(client, TaskEcho(m.task_id, TaskEchoStatus.CancelFailed)))
            return

        def go():
            if not info["done"]:
                info["done"] = True
                self.send(client, TaskResult(m.task_id, TaskStatus.Canceled, 0.0, b""))

        self.send(client, TaskEcho(m.task_id, TaskEchoStatus.CancelOK))
        self.later(self.script.reply, go)

    def on_GraphTask(self, client, m):
        for fid, (name, content) in m.functions.items():
            known = self.functions.get(fid)
            if known is not None and known[1] != content:
                self.trouble.append(f"one function id for two contents: {fid.hex()}")
            self.functions[fid] = (name, content)
        info = self.graphs[m.task_id] = dict(client=client, graph=m, done=False, held=self.rng.random() < self.script.hold)
        functions = dict(m.functions)
        for fid in functions:
            self.later(self.script.reply, lambda fid=fid: self.send(client, FunctionResponse(FunctionResponseType.OK, fid, b"", b"")))
        for task in m.graph:
            self.later(self.script.reply, lambda task=task: self.send(client, TaskEcho(task.task_id, TaskEchoStatus.SubmitOK)))
        if not info["held"]:
            self.later(self.script.run, lambda: self.finish_graph(info, functions), after=self.script.reply[1])

    def finish_graph(self, info, functions):
        if info["done"]:
            return
        info["done"] = True
        m = info["graph"]
        status, results = self.evaluate(m, functions)
        info["status"] = status
        self.send(info["client"], GraphTaskResult(m.task_id, status, results))

    def evaluate(self, m, functions):
        """as the scheduler and its workers do: results of inputs are passed on as the bytes they are"""
        nodes = {t.task_id: t for t in m.graph}
        done = {}
        todo = list(nodes)
        self.rng.shuffle(todo)
        while todo:
            progress = False
            for tid in list(todo):
                task = nodes[tid]
                needs = [a.data for a in task.function_args if a.type.name == "Task"]
                if any(n not in done for n in needs):
                    if any(n not in nodes for n in needs):
                        return TaskStatus.Failed, [pickle.dumps(KeyError("graph names an unknown node"))]
                    continue
                args = [done[a.data] if a.type.name == "Task" else a.data for a in task.function_args]
                status, payload = self.execute(functions[task.function_id][1], args)
                if status != TaskStatus.Success:
                    return status, [payload]
                done[tid] = payload
                todo.remove(tid)
                progress = True
            if not progress:
                return TaskStatus.Failed, [pickle.dumps(RuntimeError("graph cannot be evaluated"))]
        return TaskStatus.Success, [done[t] for t in m.targets]

    def on_GraphTaskCancel(self, client, m):
        info = self.graphs.get(m.task_id)
        if info is not None and not info["done"]:
            info["done"] = True
            self.later(self.script.reply, lambda: self.send(client, GraphTaskResult(m.task_id, TaskStatus.Canceled, [])))
