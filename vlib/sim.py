"""The simulated deployment: real scheduler, real or scripted worker agents, scripted clients, one event log."""
import contextvars
import gc
import hashlib
import logging
import os
import random
import signal
import struct
import sys
from collections import deque
from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional, Tuple

from scaled.protocol.python.message import (
    Argument, ArgumentType, BalanceRequest, BalanceResponse, DisconnectRequest, FunctionRequest, FunctionRequestType,
    FunctionResponse, FunctionResponseType, GraphTask, GraphTaskCancel, GraphTaskResult, Heartbeat, HeartbeatEcho,
    Task, TaskCancel, TaskEcho, TaskEchoStatus, TaskResult, TaskStatus,
)
from scaled.utility.zmq_config import ZMQConfig, ZMQType

from vlib import simcore
from vlib.simcore import Clock, Net, SimLoop, Undecodable, current_proc, decode, encode, to_bytes

ADDRESS = ZMQConfig(ZMQType.tcp, "127.0.0.1", 2345)


# ------------------------------------------------------------------------------------------------ the simulated function
def make_function(rng, name, mode="ok", scale=0.05, extra=b""):
    content = b"|".join([mode.encode(), repr(scale).encode(), rng.randbytes(6).hex().encode(), extra])
    return hashlib.md5(content).digest(), name, content


def compute(content: bytes, args: List[bytes]) -> Tuple[TaskStatus, bytes, float]:
    """What a worker produces for (function content, arguments): a digest no other pair shares."""
    mode, scale, *_ = content.split(b"|")
    h = hashlib.sha256()
    h.update(struct.pack("<Q", len(content)) + content)
    for a in args:
        h.update(struct.pack("<Q", len(a)) + a)
    digest = h.digest()
    duration = float(scale) * (0.2 + 1.6 * digest[0] / 255.0)
    if mode in (b"huge", b"hugefail"):
        digest *= (3000, 40000, 90000)[digest[2] % 3]
    if mode in (b"fail", b"hugefail") or (mode == b"flaky" and digest[1] % 4 == 0):
        return TaskStatus.Failed, b"E" + digest, duration
    return TaskStatus.Success, b"R" + digest, duration


@dataclass
class Ev:
    seq: int
    t: float
    it: int
    kind: str
    peer: Any
    msg: Any
    frames: Any = None


class Proc:
    """A simulated OS process (scheduler, agent)."""

    def __init__(self, sim, name):
        self.sim, self.name = sim, name
        self.signal_handlers = {}
        self.main = None
        self.link = self.pair = None
        self.identity = b""
        self.killed = False
        self.ended_at = None
        self.error = None
        self.link_delay = lambda: 0.001
        self.rss_of = None


class Sim:
    def __init__(self, seed, eps=None, record=True):
        simcore.install_patches()
        logging.disable(logging.CRITICAL)
        self.rng = random.Random(f"sim-{seed}")
        self.id_rng = random.Random(f"ids-{seed}")
        self.clock = Clock()
        self.eps = eps if eps is not None else self.rng.choice([0.0005, 0.001, 0.002, 0.005])
        self.loop = SimLoop(self.clock, self.eps)
        self.net = Net(self)
        self.log: List[Ev] = []
        self.seq = 0
        self.next_pid = 10000
        self.processors = {}
        self.scheduler_proc = None
        self.scheduler = None
        self.agents = []
        self.fake_workers = []
        self.clients = []
        self.config = None
        simcore.ACTIVE = self

    # ---- log
    def note(self, kind, peer, msg, frames=None):
        self.seq += 1
        self.log.append(Ev(self.seq, self.clock.now, self.clock.iterations, kind, peer, msg, frames))

    def on_consumed(self, sock, frames):
        if sock.owner is self.scheduler_proc and self.scheduler_proc is not None:
            self.note("srecv", frames[0], decode(frames[1:]) if len(frames) > 1 else Undecodable([], "short"), frames)
        elif sock.link is not None:
            self.note("arecv", sock.owner, decode(frames))
        else:
            self.note("irecv", sock.owner, decode(frames))

    def on_router_send(self, sock, frames):
        self.note("ssend", frames[0], decode(frames[1:]), frames)

    def on_dealer_send(self, sock, frames):
        self.note("asend", sock.owner, decode(frames))

    def on_pub(self, sock, frames):
        self.note("spub", None, decode(frames))

    # ---- processes
    def on_process_start(self, process):
        owner = current_proc.get()
        self.next_pid += 1
        proc = FakeProcessor(self, owner, self.next_pid)
        self.processors[proc.pid] = proc
        owner.processors.append(proc)
        self.note("pspawn", owner, proc.pid)
        return proc

    def on_kill(self, pid, sig):
        proc = self.processors.get(pid)
        if proc is None or not proc.alive and False:
            raise ProcessLookupError(pid)
        if sig in (signal.SIGTERM, signal.SIGKILL):
            if sig == signal.SIGTERM and proc.alive and proc.stubborn():
                return  # as a function can that ignores or catches the signal
            self.note("pkill", proc.owner, pid)
            proc.kill()
        elif sig == signal.SIGINT:
            proc.kill()

    def start_scheduler(self, **cfg):
        from scaled.scheduler.main import Scheduler, scheduler_main

        base = dict(address=ADDRESS, io_threads=1, max_number_of_tasks_waiting=-1, per_worker_queue_size=1000,
                    worker_timeout_seconds=60, function_retention_seconds=20, load_balance_seconds=1,
                    load_balance_trigger_times=2)
        base.update(cfg)
        self.config = base
        proc = Proc(self, "scheduler")
        proc.processors = []
        self.scheduler_proc = proc
        ctx = contextvars.copy_context()

        def boot():
            current_proc.set(proc)
            if hasattr(Scheduler, "get_loops"):
                self.scheduler = Scheduler(**base)
                proc.main = self.loop.create_task(self.scheduler.get_loops())
            else:
                self.scheduler = scheduler_main(**base)
                proc.main = self.loop.create_task(self.scheduler)

        ctx.run(boot)
        proc.main.add_done_callback(lambda f: self._ended(proc, f))

    def _ended(self, proc, fut):
        proc.ended_at = self.clock.now
        if not fut.cancelled() and fut.exception() is not None:
            proc.error = fut.exception()
        self.note("pend", proc, repr(proc.error))
        for t in self.loop.task_registry.get(proc, []):
            if not t.done():
                t.cancel()

    @property
    def scheduler_alive(self):
        return not self.scheduler_proc.main.done()

    def scheduler_error(self):
        p = self.scheduler_proc
        if not p.main.done():
            # a loop may die while gather of the others goes on
            return None
        return f"scheduler ended at t={p.ended_at:.3f}: {p.error!r}"

    def expected_cpu(self, agent):
        return agent.cpu, None, None

    def random_delay(self, low=0.0001, high=0.02, spike=0.05):
        base = self.rng.uniform(low, high)
        rng = self.rng

        def delay():
            if rng.random() < 0.03:
                return base + rng.uniform(0, spike)
            return base * rng.uniform(0.3, 1.7)

        return delay

    def run(self, coro, max_iterations=3_000_000):
        self.loop.run_until_complete(coro)

    async def sleep(self, s):
        import asyncio
        await asyncio.sleep(s)

    async def sleep_until(self, t):
        if t > self.clock.now:
            await self.sleep(t - self.clock.now)

    def close(self):
        import asyncio
        for t in asyncio.all_tasks(self.loop) if not self.loop.is_closed() else []:
            t.cancel()
        try:
            self.loop.run_until_complete(asyncio.sleep(0))
        except BaseException:  # noqa
            pass
        for agent in self.agents:
            sock = agent.proc.pair
            if sock is not None and sock.path and os.path.exists(sock.path):
                os.remove(sock.path)
        simcore.ACTIVE = None


# -------------------------------------------------------------------------------------------------------------- clients
@dataclass
class CTask:
    task_id: bytes
    function: Tuple[bytes, bytes, bytes]
    args: List[bytes]
    submitted: float
    sent: int = 0
    echoes: List[Any] = field(default_factory=list)
    results: List[Any] = field(default_factory=list)
    cancelled: bool = False
    state: str = "new"

    def expected(self):
        return compute(self.function[2], self.args)


@dataclass
class CGraph:
    graph_id: bytes
    message: GraphTask
    nodes: Dict[bytes, Tuple[Tuple[bytes, bytes, bytes], List[Argument]]]
    submitted: float
    results: List[Any] = field(default_factory=list)
    cancelled: bool = False
    state: str = "new"

    def evaluate(self):
        """node -> (status, bytes) as a local evaluation gives; nodes below a failed one are absent"""
        out = {}
        pending = dict(self.nodes)
        while pending:
            progress = False
            for nid, (fn, args) in list(pending.items()):
                deps = [a.data for a in args if a.type == ArgumentType.Task]
                if any(d in pending for d in deps):
                    continue
                del pending[nid]
                progress = True
                if any(d not in out or out[d][0] != TaskStatus.Success for d in deps):
                    continue
                vals = [out[a.data][1] if a.type == ArgumentType.Task else a.data for a in args]
                out[nid] = compute(fn[2], vals)[:2]
            if not progress:
                break
        return out


class SimClient:
    """Speaks the client side of the protocol exactly as scaled.Client does, and records what it is told."""

    def __init__(self, sim, name=None, identity=None, delay=None):
        self.sim = sim
        self.identity = identity or f"{sim.id_rng.randint(100, 99999)}|sim|{sim.id_rng.randbytes(8).hex()}".encode()
        self.link = sim.net.connect(ADDRESS.to_address(), self.identity, self, delay or sim.random_delay())
        self.tasks: Dict[bytes, CTask] = {}
        self.graphs: Dict[bytes, CGraph] = {}
        self.not_ready: Dict[bytes, List[CTask]] = {}
        self.stray: List[Any] = []
        self.gone = False
        self.vanished = False
        self.evil = False
        sim.clients.append(self)

    def send(self, msg):
        self.link.send_up(encode(msg))

    def new_id(self):
        return self.sim.id_rng.randbytes(16)

    def submit(self, function, args):
        task = CTask(self.new_id(), function, args, self.sim.clock.now)
        self.tasks[task.task_id] = task
        self.sim.note("csubmit", self, task)
        self._buffer(task)
        return task

    def _buffer(self, task):
        fid, name, content = task.function
        if fid not in self.not_ready:
            self.not_ready[fid] = []
            self.send(FunctionRequest(FunctionRequestType.Add, fid, name, content))
        self.not_ready[fid].append(task)

    def submit_graph(self, nodes, targets):
        gid = self.new_id()
        functions = {fn[0]: (fn[1], fn[2]) for fn, _ in nodes.values()}
        msg = GraphTask(gid, functions, list(targets),
                        [Task(nid, fn[0], [Argument(a.type, a.data) for a in args]) for nid, (fn, args) in nodes.items()])
        g = CGraph(gid, msg, nodes, self.sim.clock.now)
        self.graphs[gid] = g
        self.sim.note("cgraph", self, g)
        self.send(msg)
        return g

    def cancel(self, task):
        task.cancelled = True
        self.send(TaskCancel(task.task_id))

    def cancel_graph(self, g):
        g.cancelled = True
        self.send(GraphTaskCancel(g.graph_id))

    def disconnect(self):
        """As scaled.Client on exit: cancels what it still waits for and goes away."""
        if self.gone:
            return
        for t in self.tasks.values():
            if not t.results and t.state not in ("rejected",):
                self.cancel(t)
        for g in self.graphs.values():
            if not g.results:
                self.cancel_graph(g)
        self.gone = True
        self.link.close()

    def vanish(self):
        self.gone = self.vanished = True
        self.link.close(self.link.up_seq - self.sim.rng.randint(0, min(3, self.link.up_seq)))

    def deliver(self, frames):
        if self.gone:
            return
        msg = decode(frames)
        self.sim.note("crecv", self, msg)
        if isinstance(msg, FunctionResponse):
            for task in self.not_ready.pop(msg.function_id, []):
                task.sent += 1
                self.send(Task(task.task_id, task.function[0], [Argument(ArgumentType.Data, a) for a in task.args]))
        elif isinstance(msg, TaskEcho):
            task = self.tasks.get(msg.task_id)
            if task is None:
                if not any(msg.task_id in g.nodes for g in self.graphs.values()):
                    self.stray.append(msg)
                return
            task.echoes.append(msg.status)
            if msg.status == TaskEchoStatus.FunctionNotExists:
                self._buffer(task)
            elif msg.status == TaskEchoStatus.NoWorker:
                task.state = "rejected"
            elif msg.status == TaskEchoStatus.SubmitOK:
                task.state = "accepted"
        elif isinstance(msg, TaskResult):
            task = self.tasks.get(msg.task_id)
            if task is None:
                if not any(msg.task_id in g.nodes for g in self.graphs.values()):
                    self.stray.append(msg)
                return
            task.results.append(msg)
        elif isinstance(msg, GraphTaskResult):
            g = self.graphs.get(msg.task_id)
            if g is None:
                self.stray.append(msg)
                return
            g.results.append(msg)
        else:
            self.stray.append(msg)


# ------------------------------------------------------------------------------------------------------ scripted workers
class FakeWorker:
    """A scripted worker that follows the protocol to the letter; it can also crash, stall, leave and come back."""

    def __init__(self, sim, heartbeat=1.0, identity=None, delay=None, spawn=None):
        self.sim, self.heartbeat_interval = sim, heartbeat
        self.identity = identity or f"{sim.id_rng.randint(100, 99999)}|sim|{sim.id_rng.randbytes(8).hex()}".encode()
        self.delay = delay or sim.random_delay()
        self.queue = deque()
        self.functions = {}
        self.current = None
        self.timer = None
        self.waiting_echo = False
        self.alive = True
        self.paused = False
        self.executed = []
        self.returned = []
        self.info = lambda: (0.25, 1 << 20, 0.5, 1 << 21)
        self.ready = False
        self.last_heartbeat = None
        self.link = sim.net.connect(ADDRESS.to_address(), self.identity, self, self.delay)
        sim.fake_workers.append(self)
        if spawn is None:
            spawn = sim.rng.uniform(0.02, 0.5)
        sim.loop.call_later(spawn, self._ready)
        self._beat()

    def _ready(self):
        self.ready = True
        self._next()

    def send(self, msg):
        if self.alive:
            self.sim.note("wsend", self, msg)
            self.link.send_up(encode(msg))

    def _beat(self):
        if not self.alive:
            return
        if not self.waiting_echo and not self.paused:
            self.waiting_echo = True
            a, b, c, d = self.info()
            hb = Heartbeat(a, b, c, d, len(self.queue), self.sim.rng.randint(1, 5000), self.ready, self.current is not None, False)
            self.last_heartbeat = hb
            self.send(hb)
        self.sim.loop.call_later(self.heartbeat_interval, self._beat)

    def deliver(self, frames):
        if not self.alive:
            return
        msg = decode(frames)
        self.sim.note("wrecv", self, msg)
        if isinstance(msg, HeartbeatEcho):
            self.waiting_echo = False
        elif isinstance(msg, Task):
            self.queue.append(msg)
            self._next()
        elif isinstance(msg, TaskCancel):
            for t in self.queue:
                if t.task_id == msg.task_id:
                    self.queue.remove(t)
                    # NotFound as from one that lost the task in a restart
                    status = TaskStatus.NotFound if self.sim.rng.random() < 0.1 else TaskStatus.Canceled
                    self.send(TaskResult(msg.task_id, status, 0, b""))
                    return
            if self.current is not None and self.current.task_id == msg.task_id:
                if self.timer is not None:
                    self.timer.cancel()
                    self.timer = None
                self.current = None
                self.functions.clear()
                self.ready = False
                self.send(TaskResult(msg.task_id, TaskStatus.Canceled, 0, b""))
                self.sim.loop.call_later(self.sim.rng.uniform(0.02, 0.3), self._ready)
                return
            self.send(TaskResult(msg.task_id, TaskStatus.NotFound, 0, b""))
        elif isinstance(msg, BalanceRequest):
            out = []
            while self.queue and len(out) < msg.number_of_tasks:
                t = self.queue.popleft()
                out.append(t.task_id)
            self.returned.extend(out)
            self.send(BalanceResponse(out))
        elif isinstance(msg, FunctionRequest):
            self.functions.pop(msg.function_id, None)
        elif isinstance(msg, FunctionResponse):
            if self.current is not None and self.timer is None and self.current.function_id == msg.function_id:
                if msg.status == FunctionResponseType.OK:
                    self.functions[msg.function_id] = msg.content
                    self._run()
                else:
                    self.current = None
                    self._next()

    def _next(self):
        if self.current is not None or not self.queue or not self.ready or self.paused:
            return
        self.current = self.queue.popleft()
        if self.current.function_id in self.functions:
            self._run()
        else:
            self.send(FunctionRequest(FunctionRequestType.Request, self.current.function_id, b"", b""))

    def _run(self):
        task = self.current
        self.sim.note("wrun", self, task.task_id)
        status, result, duration = compute(self.functions[task.function_id], [a.data for a in task.function_args])
        self.executed.append(task.task_id)
        self.timer = self.sim.loop.call_later(duration, self._done, task, status, result, duration)

    def _done(self, task, status, result, duration):
        if not self.alive:
            return
        self.timer = None
        self.current = None
        self.send(TaskResult(task.task_id, status, duration, result))
        self._next()

    def pause(self, on=True):
        """Frozen process: nothing is sent, nothing handled until it resumes."""
        self.paused = on

    def stall(self, seconds):
        self.link.blocked_until = self.sim.clock.now + seconds

    def crash(self):
        self.alive = False
        if self.timer is not None:
            self.timer.cancel()
        self.sim.note("wcrash", self, None)
        self.link.close(self.link.up_seq - self.sim.rng.randint(0, min(2, self.link.up_seq)))

    def leave(self):
        self.send(DisconnectRequest(self.identity))
        self.sim.note("wleave", self, None)
        self.alive = False
        if self.timer is not None:
            self.timer.cancel()
        self.link.close()

    def idle(self):
        return self.current is None and not self.queue


# -------------------------------------------------------------------------------------------------- the real worker agent
class FakeProcessor:
    """Stand-in for the processor process: one message at a time, in order, like the real one's receive loop."""

    def __init__(self, sim, owner, pid):
        self.sim, self.owner, self.pid = sim, owner, pid
        self.alive = True
        self.attached = False
        self.inbox = deque()
        self.busy = False
        self.functions = {}
        self.waiting = None
        self.running = None
        self.stubbornness = None
        delay = getattr(owner, "spawn_delay", None) or (lambda: sim.rng.uniform(0.05, 1.0))
        self.latency = getattr(owner, "pair_latency", None) or (lambda: sim.rng.uniform(0.0001, 0.004))
        self.last_up = self.last_down = 0.0
        sim.loop.call_later(delay(), self._connect)

    def _connect(self):
        if not self.alive or self.owner.killed or self.owner.pair is None or self.owner.pair.closed:
            return
        if self.owner.pair.processor is not None and self.owner.pair.processor.alive:
            self.sim.loop.call_later(0.1, self._connect)  # the socket takes one peer only
            return
        self.attached = True
        self._up(TaskResult(b"", TaskStatus.Success, 0, b""))
        self.owner.pair.attach_processor(self)

    def _up(self, msg):
        self.last_up = max(self.last_up + 1e-9, self.sim.clock.now + self.latency())
        self.sim.loop.call_at(self.last_up, self._arrive, encode(msg), True)

    def _arrive(self, frames, _):
        if self.alive or self.sim.rng.random() < 0.5:
            self.owner.pair.deliver(frames)

    def send_down(self, frames):
        self.sim.note("psend", self.owner, decode(frames))
        self.last_down = max(self.last_down + 1e-9, self.sim.clock.now + self.latency())
        self.sim.loop.call_at(self.last_down, self._receive, frames)

    def _receive(self, frames):
        if self.alive:
            self.inbox.append(decode(frames))
            self._pump()

    def _pump(self):
        while self.inbox and not self.busy and self.alive:
            msg = self.inbox.popleft()
            if isinstance(msg, FunctionRequest):
                self.functions.pop(msg.function_id, None)
            elif isinstance(msg, Task):
                if msg.function_id in self.functions:
                    self._run(msg)
                else:
                    self.waiting = msg
                    self._up(FunctionRequest(FunctionRequestType.Request, msg.function_id, b"", b""))
            elif isinstance(msg, FunctionResponse):
                self.functions[msg.function_id] = msg.content
                task, self.waiting = self.waiting, None
                if task is not None:
                    self._run(task)

    def _run(self, task):
        self.busy = True
        self.running = task
        self.sim.note("prun", self.owner, (self.pid, task.task_id))
        content = self.functions.get(task.function_id)
        if content is None:
            status, result, duration = TaskStatus.Failed, b"E-nofunction", 0.0
        else:
            status, result, duration = compute(content, [a.data for a in task.function_args])
        self.sim.loop.call_later(duration, self._finish, task, status, result, duration)

    def _finish(self, task, status, result, duration):
        if not self.alive:
            return
        self.busy, self.running = False, None
        self.sim.note("pdone", self.owner, (self.pid, task.task_id, status, result))
        self._up(TaskResult(task.task_id, status, duration, result))
        self._pump()

    def stubborn(self):
        """whether the function that runs withstands SIGTERM"""
        if self.running is None:
            return False
        if self.stubbornness is None or self.stubbornness[0] is not self.running:
            self.stubbornness = (self.running, self.sim.rng.random() < 0.1)
        if self.stubbornness[1]:
            self.sim.note("pstubborn", self.owner, self.pid)
        return self.stubbornness[1]

    def evict(self, function_id):
        self.functions.pop(function_id, None)

    def kill(self):
        self.alive = False
        if self.running is not None:
            self.sim.note("pabort", self.owner, (self.pid, self.running.task_id))
        # the agent's socket learns of it a little later: what is sent meanwhile is lost
        self.sim.loop.call_later(self.sim.rng.choice([0.0, 0.002, 0.02]), self._detach)

    def _detach(self):
        if self.owner.pair is not None and self.owner.pair.processor is self:
            self.owner.pair.processor = None


class RealAgent:
    """scaled.worker.worker.Worker, run unmodified as a simulated process."""

    def __init__(self, sim, heartbeat=1, death_timeout=10, retention=20, delay=None):
        from scaled.protocol.python.serializer.default import DefaultSerializer
        from scaled.worker.worker import Worker

        self.sim = sim
        self.proc = proc = Proc(sim, f"agent{len(sim.agents)}")
        proc.processors = []
        proc.link_delay = delay or sim.random_delay()
        proc.agent = self
        self.cpu = sim.rng.choice([0.0, 3.5, 100.0, 812.5, 812.5, 9999.5])
        proc.cpu_source = lambda: self.cpu
        base = sim.rng.choice([1 << 20, 3 << 30, 1 << 40])
        proc.rss_of = lambda pid: base + (0 if pid is None else pid * 4096)
        self.started_at = sim.clock.now
        self.heartbeat, self.death_timeout = heartbeat, death_timeout
        sim.agents.append(self)
        ctx = contextvars.copy_context()

        def boot():
            current_proc.set(proc)
            self.worker = Worker(
                event_loop="builtin", address=ADDRESS, heartbeat_interval_seconds=heartbeat,
                garbage_collect_interval_seconds=30, trim_memory_threshold_bytes=1 << 30,
                serializer=DefaultSerializer(), function_retention_seconds=retention,
                death_timeout_seconds=death_timeout)
            self.worker.run()

        try:
            ctx.run(boot)
        except Exception as e:  # the process ends as it starts
            proc.main = sim.loop.create_future()
            proc.main.set_exception(e)
        proc.main.add_done_callback(lambda f: sim._ended(proc, f))

    @property
    def identity(self):
        return self.proc.identity

    @property
    def alive(self):
        return not self.proc.main.done() and not self.proc.killed

    def crash(self):
        """kill -9 of agent and processor"""
        self.proc.killed = True
        self.sim.note("wcrash", self.proc, None)
        link = self.proc.link
        link.close(link.up_seq - self.sim.rng.randint(0, min(2, link.up_seq)))
        for p in self.proc.processors:
            p.kill()
        self.proc.main.cancel()

    def leave(self):
        """SIGINT"""
        self.sim.note("wleave", self.proc, None)
        handler = self.proc.signal_handlers.get(signal.SIGINT)
        if handler is None:
            self.crash()
        else:
            self.sim.loop.call_soon(handler)  # as asyncio does: through its wake-up pipe, after what was scheduled

    def stall(self, seconds):
        self.proc.link.blocked_until = self.sim.clock.now + seconds

    def ipc_file(self):
        return self.proc.pair.path

    def live_processors(self):
        return [p for p in self.proc.processors if p.alive]
