"""Reference model of the scheduler, fed with the messages seen on its sockets, in the order it handled them.

Nothing of the scheduler's inside is read here: the oracle is a function of the recorded wire log only.
"""
import json
import math
from collections import Counter, defaultdict
from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional, Set

from scaled.protocol.python.message import *  # noqa: F401,F403
from scaled.protocol.python.message import (
    ArgumentType, BalanceRequest, BalanceResponse, DisconnectRequest, FunctionRequest, FunctionRequestType,
    FunctionResponse, FunctionResponseType, GraphTask, GraphTaskCancel, GraphTaskResult, GraphTaskState, Heartbeat,
    HeartbeatEcho, NodeTaskType, PROTOCOL, SchedulerState, Task, TaskCancel, TaskEcho, TaskEchoStatus, TaskResult,
    TaskState, TaskStatus,
)
from vlib.simcore import Undecodable

FINAL = {TaskStatus.Success, TaskStatus.Failed, TaskStatus.Canceled, TaskStatus.NotFound}
CLEANUP = 1.0  # period of the scheduler's cleanup and balance rounds


@dataclass
class V:
    prop: str
    key: str
    detail: str
    seq: int = 0
    t: float = 0.0

    def as_dict(self):
        return {"property": self.prop, "key": self.key, "detail": self.detail, "seq": self.seq, "t": round(self.t, 4)}


@dataclass
class MTask:
    task_id: bytes
    client: Any
    function_id: bytes
    args: Any
    graph: Optional[bytes] = None
    state: str = "new"  # new waiting at maybe done
    worker: Any = None
    accepted_seq: int = 0
    arrivals: int = 0
    handed: List[Any] = field(default_factory=list)  # (seq, t, worker)
    cancel_seq: int = 0
    cancel_t: float = 0.0
    cancel_state: str = ""
    cancel_worker: Any = None
    cancel_sent: bool = False
    outcome: Any = None  # TaskResult received for it and taken as its end
    reported: Set[Any] = field(default_factory=set)  # (status, bytes) workers sent
    finals: List[Any] = field(default_factory=list)  # (seq, t, to, msg)
    echoes: List[Any] = field(default_factory=list)
    states: List[Any] = field(default_factory=list)
    done_t: float = 0.0
    waiting_since: float = 0.0
    lost_t: Optional[float] = None  # when a lost worker held it
    silent_returns: int = 0


@dataclass
class MGraph:
    graph_id: bytes
    client: Any
    msg: Any
    nodes: Dict[bytes, Any]
    recv_seq: int
    recv_t: float
    active: bool = False
    ended: bool = False
    failed_seq: int = 0
    failed_t: float = 0.0
    failed_node: Any = None
    at_failure: Dict[bytes, Any] = field(default_factory=dict)
    cancel_seq: int = 0
    cancel_t: float = 0.0
    results: List[Any] = field(default_factory=list)
    published: Dict[bytes, Any] = field(default_factory=dict)


@dataclass
class MWorker:
    identity: Any
    connected: bool = False
    last_hb: float = 0.0
    info: Any = None
    tasks: Set[bytes] = field(default_factory=set)
    was_lost: bool = False
    ambiguous: bool = False
    silent: bool = False


@dataclass
class MFunction:
    name: bytes
    content: bytes
    last_use: float
    users: Set[bytes] = field(default_factory=set)
    last_end: float = 0.0
    hostile: bool = False


class Model:
    def __init__(self, sim, strict_clients=None, exact=True):
        self.sim, self.cfg = sim, sim.config
        self.cap = self.cfg["per_worker_queue_size"]
        self.limit = self.cfg["max_number_of_tasks_waiting"]
        self.timeout = self.cfg["worker_timeout_seconds"]
        self.retention = self.cfg["function_retention_seconds"]
        self.slack = 2.0 + 100 * sim.eps
        self.violations: List[V] = []
        self.tasks: Dict[bytes, MTask] = {}
        self.graphs: Dict[bytes, MGraph] = {}
        self.node_graph: Dict[bytes, bytes] = {}
        self.workers: Dict[Any, MWorker] = {}
        self.functions: Dict[bytes, MFunction] = {}
        self.function_ended: Dict[bytes, float] = {}
        self.sent, self.received = Counter(), Counter()
        self.finished = Counter()
        self.counts = Counter()  # what the monitors saw
        self.starved_since = None
        self.status_at = 0.0
        self.starved_from, self.starved_handed = None, 0  # the same, but not ended by one task being handed out
        self.advice, self.advice_since, self.advice_asked, self.asked_at = {}, 0.0, set(), {}
        self.advices = []  # (since, what the allocator says | None if unknown)
        self.inexact_until = -1.0
        self.exact_wanted = exact
        self.evil = {c.identity for c in sim.clients if c.evil} | set(getattr(sim, "evil_identities", ()))
        self.evil_tasks = set(getattr(sim, "evil_task_ids", ()))
        self.ev = None
        self.paused_total = 0.0

    # ---------------------------------------------------------------------------------------------------- utilities
    def bad(self, prop, key, detail):
        if len(self.violations) < 200:
            ev = self.ev
            self.violations.append(V(prop, key, detail, ev.seq if ev else 0, ev.t if ev else 0.0))

    def is_evil(self, tid):
        return tid in self.evil_tasks

    def connected(self):
        return [w for w in self.workers.values() if w.connected]

    @property
    def exact(self):
        if not self.exact_wanted:
            return False
        return not any(w.ambiguous for w in self.workers.values()) and self.inexact_until < self.ev.seq and not self.maybe

    maybe: Set[bytes]

    def waiting(self):
        return [t for t in self.tasks.values() if t.state == "waiting"]

    # -------------------------------------------------------------------------------------------------------- driver
    def run(self):
        self.maybe = set()
        self._waiting_ids = set()
        self.joined = {}
        for ev in self.sim.log:
            self.ev = ev
            self.advance(ev.t)
            if ev.kind == "srecv":
                self.on_recv(ev.peer, ev.msg)
            elif ev.kind == "ssend":
                self.on_send(ev.peer, ev.msg)
            elif ev.kind == "spub":
                self.on_pub(ev.msg)
            elif ev.kind == "pend" and ev.peer is self.sim.scheduler_proc:
                break
            self.after()
        self.ev = self.sim.log[-1] if self.sim.log else None
        return self

    def advance(self, t):
        for w in self.workers.values():
            if not w.connected:
                continue
            silence = t - w.last_hb
            if silence > self.timeout + self.slack:
                self.lose(w, "timeout")
            elif silence > self.timeout and not w.ambiguous:
                w.ambiguous = True
                for tid in w.tasks:
                    self.maybe.add(tid)
        if t - self.status_at > 10 + 300 * self.sim.eps:
            self.bad("C16", "status-silent", f"no scheduler state published for {t - self.status_at:.1f}s")
            self.status_at = t
        # waiting while a slot is free
        if self.evil_tasks:
            return
        if self.starved_since is not None and t - self.starved_since > 0.4 + 300 * self.sim.eps:
            names = [w.identity for w in self.workers.values() if self.has_slot(w)]
            prop = "C12"
            self.bad(prop, "starved", f"{len(self._waiting_ids)} task(s) waiting for {t - self.starved_since:.1f}s while "
                                      f"worker {names[:1]} has a free slot")
            if any(self.has_slot(w) and w.was_lost for w in self.workers.values()):
                self.bad("C11", "returned-worker-unused", "a worker that came back gets no work while tasks wait")
            if any(self.tasks[x].lost_t is not None for x in self._waiting_ids):
                self.bad("C11", "lost-work-not-rerun", "a task of a lost worker stays waiting although a slot is free")
            self.starved_since = t
        elif self.starved_from is not None and t - self.starved_from > 0.4 + (300 + 20 * self.starved_handed) * self.sim.eps:
            self.bad("C12", "starved", f"tasks waiting for {t - self.starved_from:.1f}s while some worker has a free slot, only {self.starved_handed} were handed out meanwhile")
            self.starved_from, self.starved_handed = t, 0
        # balance
        if self.advice and self.cfg["load_balance_seconds"] > 0:
            bound = self.cfg["load_balance_trigger_times"] * (CLEANUP + 5 * self.sim.eps) + 0.3
            if t - self.advice_since > bound:
                missing = [w for w, n in self.advice.items() if w not in self.advice_asked and n >= 1]
                if missing:
                    self.bad("C13", "balance-never-asked",
                             f"worker(s) {missing} kept a surplus {self.advice} beside an idle worker for "
                             f"{t - self.advice_since:.1f}s and were not asked to return tasks")
                    self.advice_asked |= set(missing)

    def has_slot(self, w):
        return w.connected and not w.ambiguous and len(w.tasks) < self.cap

    def after(self):
        t = self.ev.t
        starving = bool(self._waiting_ids) and any(self.has_slot(w) for w in self.workers.values())
        if not starving:
            self.starved_since = self.starved_from = None
        elif self.starved_since is None:
            self.starved_since = t
            if self.starved_from is None:
                self.starved_from, self.starved_handed = t, 0
        # advice by the definition: workers above the mean beside an idle one
        certain = [w for w in self.workers.values() if w.connected]
        advice = {}
        if certain and not self.maybe and not any(w.ambiguous for w in certain):
            counts = {w.identity: len(w.tasks) for w in certain}
            if any(c == 0 for c in counts.values()) and any(counts.values()):
                mean = sum(counts.values()) / len(counts)
                advice = {k: math.floor(c - mean) for k, c in counts.items() if c > mean}
                raw = tuple(sorted(counts.items()))
                advice_key = (raw,)
            else:
                advice_key = None
        else:
            advice_key = None
        if not any(n >= 1 for n in advice.values()):
            advice, advice_key = {}, None
        exact = None
        if certain and not self.maybe and not any(w.ambiguous for w in certain):
            # what the allocator would say, to tell since when it says so
            exact = {k: math.ceil(c - sum(counts.values()) / len(counts)) for k, c in counts.items() if c * len(counts) > sum(counts.values())} if \
                not all(counts.values()) and any(counts.values()) else {}
        if not self.advices or self.advices[-1][1] != exact:
            self.advices.append((t, exact))
            if len(self.advices) > 4000:
                del self.advices[:2000]
                self.advices[0] = (self.advices[0][0], None)
        if advice_key != getattr(self, "_advice_key", None):
            self._advice_key = advice_key
            self.advice, self.advice_since = advice, t
            # whoever was asked and has not moved since need not be asked again for the same surplus
            self.advice_asked = {w for w in self.advice_asked if w in advice and self.asked_at.get(w) is not None
                                 and self.asked_at[w][0] == counts[w]}

    # ------------------------------------------------------------------------------------------------ state changes
    def set_waiting(self, task, t):
        self._detach(task)
        task.state, task.worker, task.waiting_since = "waiting", None, t
        self._waiting_ids.add(task.task_id)

    def _detach(self, task):
        self._waiting_ids.discard(task.task_id)
        self.maybe.discard(task.task_id)
        if task.worker is not None:
            self.workers[task.worker].tasks.discard(task.task_id)

    def set_done(self, task, status):
        if task.state == "done":
            return
        self._detach(task)
        task.state, task.worker = "done", None
        task.done_t = self.ev.t
        self.finished[status] += 1
        self.release_function(task)

    def release_function(self, task):
        f = self.functions.get(task.function_id)
        if f is not None:
            f.users.discard(task.task_id)
            f.last_end = self.ev.t
        self.function_ended[task.function_id] = self.ev.t

    def lose(self, w, why):
        w.connected, w.ambiguous, w.was_lost, w.silent = False, False, True, why == "timeout"
        for tid in list(w.tasks):
            task = self.tasks[tid]
            if task.state in ("at", "maybe"):
                task.lost_t = self.ev.t
                if task.cancel_seq:
                    # asked to be cancelled and its worker is gone: it may only end as cancelled
                    self._detach(task)
                    task.state, task.worker = "limbo", None
                else:
                    self.set_waiting(task, self.ev.t)
        w.tasks.clear()

    # -------------------------------------------------------------------------------------------------------- inputs
    def on_recv(self, source, msg):
        if isinstance(msg, Undecodable):
            frames = self.ev.frames
            if len(frames) >= 3:
                try:
                    self.received[MessageType(frames[1]).name] += 1
                except ValueError:
                    pass
            return
        self.received[PROTOCOL.inverse[type(msg)].name] += 1
        t = self.ev.t
        self.counts["received"] += 1
        if isinstance(msg, Heartbeat):
            w = self.workers.setdefault(source, MWorker(source))
            if w.connected and w.ambiguous:
                w.ambiguous = False  # its tasks stay in doubt until they move
                if not w.tasks & self.maybe:
                    pass
                self.counts["ambiguous_return"] += 1
            if not w.connected:
                w.connected = True
                if w.was_lost:
                    self.counts["worker_back"] += 1
                    w.silent = False
                self.counts["worker_join"] += 1
                self.joined[source] = t
            w.last_hb, w.info = t, msg
        elif isinstance(msg, DisconnectRequest):
            w = self.workers.get(msg.worker)
            if w is not None and w.connected:
                self.counts["worker_disconnect"] += 1
                self.lose(w, "disconnect")
        elif isinstance(msg, Task) and source in self.evil and not self.is_evil(msg.task_id):
            # a stranger sends the name of somebody's task: refused while that is unfinished, its own task afterwards
            task = self.tasks.get(msg.task_id)
            g = self.graphs.get(self.node_graph.get(msg.task_id))
            if task is not None and task.state in ("done", "rejected") or g is not None and g.ended and (task is None or task.state in ("new", "done")):
                self.evil_tasks.add(msg.task_id)
                self.counts["names_reused"] += 1
            else:
                self.counts["names_taken"] += 1
        elif isinstance(msg, Task):
            task = self.tasks.get(msg.task_id)
            if task is None:
                task = self.tasks[msg.task_id] = MTask(msg.task_id, source, msg.function_id, msg.function_args)
            task.arrivals += 1
        elif isinstance(msg, TaskCancel):
            task = self.tasks.get(msg.task_id)
            if task is not None and task.state in ("waiting", "at", "maybe") and not task.cancel_seq:
                task.cancel_seq, task.cancel_t = self.ev.seq, t
                task.cancel_state, task.cancel_worker = task.state, task.worker
                if task.worker is not None and self.workers[task.worker].ambiguous:
                    task.cancel_state = "maybe"
                self.counts["cancel_" + task.cancel_state] += 1
            else:
                self.counts["cancel_stale"] += 1
        elif isinstance(msg, TaskResult):
            task = self.tasks.get(msg.task_id)
            if task is None:
                return
            task.reported.add((msg.status, msg.result))
            if task.state in ("at", "maybe") and msg.status in FINAL:
                in_doubt = task.task_id in self.maybe
                task.outcome = msg
                if in_doubt:
                    # the scheduler may already have taken it back; its own final message decides
                    return
                self.counts["result_" + msg.status.name] += 1
                self.node_end(task, msg)
                self.set_done(task, msg.status)
            else:
                self.counts["result_stale"] += 1
        elif isinstance(msg, BalanceResponse):
            for tid in msg.task_ids:
                task = self.tasks.get(tid)
                if task is not None and task.state in ("at", "maybe"):
                    self.counts["returned"] += 1
                    if task.cancel_seq:
                        self._detach(task)
                        task.state, task.worker = "limbo", None
                    else:
                        self.set_waiting(task, t)
        elif isinstance(msg, GraphTask):
            if msg.task_id not in self.graphs:
                nodes = {n.task_id: n for n in msg.graph}
                self.graphs[msg.task_id] = MGraph(msg.task_id, source, msg, nodes, self.ev.seq, t)
                for nid in nodes:
                    self.node_graph.setdefault(nid, msg.task_id)
        elif isinstance(msg, GraphTaskCancel):
            g = self.graphs.get(msg.task_id)
            if g is not None and not g.ended and not g.cancel_seq:
                g.cancel_seq, g.cancel_t = self.ev.seq, t
                self.counts["graph_cancel"] += 1
                self.graph_stop(g)
        elif isinstance(msg, FunctionRequest):
            self.on_function_request(source, msg)

    def graph_stop(self, g):
        """from here on no node of g may be handed out; those handed out must be told to stop"""
        g.ended = True
        for nid in g.nodes:
            task = self.tasks.get(nid)
            if task is None or task.state == "new":
                f = self.functions.get(g.nodes[nid].function_id)
                if f is not None and g.active:
                    f.users.discard(nid)
                    f.last_end = self.ev.t
                    self.function_ended[g.nodes[nid].function_id] = self.ev.t
                continue
            if task.state in ("at", "maybe"):
                doubtful = task.task_id in self.maybe
                g.at_failure[nid] = (task.worker, doubtful)
            if task.state in ("waiting", "at", "maybe") and not task.cancel_seq:
                task.cancel_seq, task.cancel_t = self.ev.seq, self.ev.t
                task.cancel_state, task.cancel_worker = task.state, task.worker

    def node_end(self, task, msg):
        if task.graph is None:
            return
        g = self.graphs[task.graph]
        if g.ended:
            return
        if msg.status != TaskStatus.Success:
            g.failed_seq, g.failed_t, g.failed_node = self.ev.seq, self.ev.t, (task.task_id, msg)
            task_done_first = task.state
            self.set_done(task, msg.status)
            self.graph_stop(g)
            self.counts["graph_failed"] += 1
        else:
            task.outcome = msg

    # ----------------------------------------------------------------------------------------------------- functions
    def function_window(self, f):
        """(surely stored, surely dropped)"""
        t = self.ev.t
        if f.hostile:
            return False, False  # used under ids a hostile peer repeats at will
        if f.users:
            return True, False
        last = max(f.last_use, f.last_end)
        return t - f.last_use <= self.retention, t - last > self.retention + self.slack

    def on_function_request(self, source, msg):
        t = self.ev.t
        f = self.functions.get(msg.function_id)
        stored, dropped = self.function_window(f) if f is not None else (False, True)
        self.pending_function = (source, msg, stored, dropped, f)
        self.counts["function_" + msg.type.name] += 1

    def on_function_response(self, to, msg):
        pend = getattr(self, "pending_function", None)
        if pend is not None and (pend[0] != to or pend[1].function_id != msg.function_id):
            pend = None
        if pend is None:
            # for a function that came with a graph
            for g in self.graphs.values():
                if g.client == to and msg.function_id in g.msg.functions:
                    if msg.status in (FunctionResponseType.OK, FunctionResponseType.Duplicated):
                        self.store(msg.function_id, *g.msg.functions[msg.function_id],
                                   duplicated=msg.status == FunctionResponseType.Duplicated)
                    break
            return
        self.pending_function = None
        source, req, stored, dropped, f = pend
        who = f"function {req.function_id.hex()[:8]}"
        if req.type == FunctionRequestType.Add:
            if msg.status == FunctionResponseType.OK:
                if stored:
                    self.bad("C14", "dropped-early", f"{who} stored again as new although it was in use or within its retention")
                self.store(req.function_id, req.function_name, req.content)
            elif msg.status == FunctionResponseType.Duplicated:
                if dropped:
                    self.bad("C14", "never-dropped", f"{who} still stored long after its retention")
                self.store(req.function_id, req.function_name, req.content, duplicated=True)
            else:
                self.bad("C14", "add-answer", f"Add of {who} answered {msg.status}")
        elif req.type == FunctionRequestType.Request:
            if msg.status == FunctionResponseType.OK:
                if f is None:
                    self.bad("C14", "served-unknown", f"{who} never stored but served")
                else:
                    if dropped:
                        self.bad("C14", "never-dropped", f"{who} still served long after its retention")
                    if (msg.function_name, msg.content) != (f.name, f.content):
                        self.bad("C14", "content", f"{who} served with other name or content")
            elif stored:
                self.bad("C14", "not-served", f"{who} requested by a worker while in use or retained, answered {msg.status}")
        elif req.type == FunctionRequestType.Check:
            if msg.status == FunctionResponseType.OK and dropped:
                self.bad("C14", "never-dropped", f"{who} reported present long after its retention")
            if msg.status == FunctionResponseType.NotExists and stored:
                self.bad("C14", "dropped-early", f"{who} reported missing while in use or retained")
        elif req.type == FunctionRequestType.Delete:
            if f is not None and f.users:
                if msg.status != FunctionResponseType.StillHaveTask:
                    self.bad("C14", "delete-in-use", f"Delete of {who} in use answered {msg.status}")
            elif f is not None and msg.status == FunctionResponseType.OK:
                del self.functions[req.function_id]

    def store(self, fid, name, content, duplicated=False):
        f = self.functions.get(fid)
        if f is None or not duplicated:
            users = f.users if f is not None else set()
            self.functions[fid] = MFunction(name, content, self.ev.t, users, self.ev.t,
                                               fid in getattr(self.sim, "evil_functions", ()))
        else:
            f.last_use = self.ev.t

    # ------------------------------------------------------------------------------------------------------- outputs
    def on_send(self, to, msg):
        t = self.ev.t
        self.counts["sent"] += 1
        if isinstance(msg, Undecodable):
            self.bad("C18", "undecodable-send", f"scheduler sent an undecodable message {msg!r}")
            return
        self.sent[PROTOCOL.inverse[type(msg)].name] += 1
        if isinstance(msg, Task):
            self.on_handout(to, msg)
        elif isinstance(msg, TaskEcho):
            self.on_echo(to, msg)
        elif isinstance(msg, TaskResult):
            self.on_final(to, msg)
        elif isinstance(msg, GraphTaskResult):
            self.on_graph_final(to, msg)
        elif isinstance(msg, TaskCancel):
            task = self.tasks.get(msg.task_id)
            if task is not None:
                if not task.cancel_seq and task.state != "done" and not self.is_evil(msg.task_id):
                    self.bad("C25", "cancelled-unasked", f"worker told to cancel task {msg.task_id.hex()[:8]} nobody asked to cancel")
                    self.bad("C09", "cancelled-unasked", f"worker told to cancel task {msg.task_id.hex()[:8]} nobody asked to cancel")
                if to == task.cancel_worker:
                    task.cancel_sent = True
        elif isinstance(msg, BalanceRequest):
            self.counts["balance_request"] += 1
            if self.cfg["load_balance_seconds"] <= 0:
                self.bad("C13", "balance-disabled", "balance request although balancing is disabled")
            w = self.workers.get(to)
            if w is None:
                self.bad("C13", "balance-unknown", f"balance request to unknown worker {to!r}")
            elif self.exact:
                counts = {x.identity: len(x.tasks) for x in self.connected()}
                mean = sum(counts.values()) / len(counts) if counts else 0
                excess = counts.get(to, 0) - mean
                if msg.number_of_tasks > math.ceil(excess) or excess <= 0:
                    self.bad("C13", "balance-too-many", f"asked worker for {msg.number_of_tasks} tasks, its excess over the mean is {excess:.2f}")
            self.check_lasted(to, msg)
            self.advice_asked.add(to)
            certain = [w for w in self.workers.values() if w.connected]
            mean = sum(len(w.tasks) for w in certain) / max(1, len(certain))
            n = len(self.workers[to].tasks) if to in self.workers else 0
            self.asked_at[to] = (n, math.floor(n - mean), math.ceil(n - mean))
        elif isinstance(msg, FunctionResponse):
            self.on_function_response(to, msg)
        elif isinstance(msg, FunctionRequest):
            if msg.type == FunctionRequestType.Delete:
                f = self.functions.get(msg.function_id)
                self.counts["function_expired_send"] += 1
                if f is not None:
                    stored, _ = self.function_window(f)
                    if stored:
                        self.bad("C14", "dropped-early", f"workers told to drop function {msg.function_id.hex()[:8]} in use or retained")
                    if not hasattr(self, "deletes"):
                        self.deletes = []
                    self.deletes.append((self.ev.t, self.ev.seq, msg.function_id, to))

    def check_lasted(self, to, msg):
        """a surplus has to be seen in as many rounds as configured before anybody is asked"""
        trigger, t = self.cfg["load_balance_trigger_times"], self.ev.t
        if not self.exact or not self.advices or self.advices[-1][1] is None:
            return
        self.counts["balance_lasted_checked"] += 1
        tolerance = 0.1 + 10 * trigger * self.sim.eps
        for back in range(1, trigger):
            at = t - back * CLEANUP
            if at < tolerance:
                self.bad("C13", "balance-early", f"worker asked for {msg.number_of_tasks} tasks {t:.1f}s after the start, {trigger} rounds are configured")
                return
            said, until = [], None
            for since, advice in reversed(self.advices):
                if since <= at + tolerance and (until is None or until >= at - tolerance):
                    said.append(advice)
                until = since
                if since < at - tolerance:
                    break
            if said and not any(a is None or a.get(to) == msg.number_of_tasks for a in said):
                self.bad("C13", "balance-early", f"worker asked for {msg.number_of_tasks} tasks, {back} round(s) before that its surplus was "
                                                 f"{[a.get(to) for a in said]}, {trigger} rounds are configured")
                return

    def on_handout(self, to, msg):
        tid = msg.task_id
        task = self.tasks.get(tid)
        self.counts["handed"] += 1
        w = self.workers.get(to)
        if self.is_evil(tid):
            if w is not None:
                self.inexact_until = 1 << 60
            return
        if task is None and tid in self.node_graph:
            # a node is accepted with its graph
            g = self.graphs[self.node_graph[tid]]
            task = self.tasks[tid] = MTask(tid, g.client, msg.function_id, g.nodes[tid].function_args, graph=g.graph_id)
            task.accepted_seq = self.ev.seq
            self.activate(g)
            self.set_waiting(task, self.ev.t)
        if task is None:
            self.bad("C02", "ran-unknown", f"task {tid.hex()[:8]} nobody submitted was handed to a worker")
            return
        if not task.echoes and task.graph is None:
            self.bad("C15", "ran-unaccepted", f"task {tid.hex()[:8]} handed out without having been accepted")
        if TaskEchoStatus.SubmitOK not in task.echoes and task.graph is None:
            self.bad("C15" if TaskEchoStatus.NoWorker in task.echoes else "C14", "ran-refused",
                     f"task {tid.hex()[:8]} was refused ({task.echoes}) but handed to a worker")
        if w is None:
            self.bad("C12", "handed-to-unknown", f"task handed to {to!r}, not a known worker")
            return
        if not w.connected:
            if w.silent or self.ev.t - w.last_hb > self.timeout + self.slack:
                self.bad("C11", "handed-to-lost", f"task handed to worker {to!r} lost {self.ev.t - w.last_hb:.1f}s ago")
            else:
                self.bad("C11", "handed-to-gone", f"task handed to worker {to!r} that has disconnected")
        if task.cancel_seq and task.state != "done":
            self.bad("C09", "cancelled-handed", f"task {tid.hex()[:8]} handed to a worker after its cancel request (#{task.cancel_seq})")
            if task.graph is not None:
                self.bad("C08", "node-after-end", f"node {tid.hex()[:8]} handed out after its graph had ended")
        if task.state == "done":
            self.bad("C02", "handed-after-end", f"task {tid.hex()[:8]} handed out again after it had ended")
        if task.state == "at" and tid not in self.maybe:
            holder = self.workers[task.worker]
            self.bad("C11", "live-worker-robbed", f"task {tid.hex()[:8]} of live worker {task.worker!r} "
                     f"(last heartbeat {self.ev.t - holder.last_hb:.2f}s ago) handed to {to!r} as well")
        # content
        if task.graph is None:
            if (msg.function_id, msg.function_args) != (task.function_id, task.args):
                self.bad("C02", "task-content", f"task {tid.hex()[:8]} handed out with other content than submitted")
        else:
            self.check_node(task, msg)
        # least loaded and capacity
        if self.exact and task.state == "waiting":
            counts = {x.identity: len(x.tasks) for x in self.connected()}
            mine = counts.get(to)
            if mine is not None:
                self.counts["handout_compared"] += 1
                if len(counts) > 1 and len(set(counts.values())) > 1:
                    self.counts["handout_nontrivial"] += 1
                if mine > min(counts.values()):
                    self.bad("C13", "not-least-loaded", f"task handed to worker with {mine} unfinished tasks while another has {min(counts.values())}")
        certain = [x for x in w.tasks if x not in self.maybe]
        if len(certain) >= self.cap and tid not in w.tasks:
            self.bad("C12", "overfilled", f"worker {to!r} already holds {len(certain)} unfinished tasks, queue size {self.cap}")
        if len(certain) == self.cap - 1:
            self.counts["filled_to_cap"] += 1
        self._detach(task)
        task.state, task.worker = "at", to
        task.handed.append((self.ev.seq, self.ev.t, to))
        if task.lost_t is not None:
            self.counts["lost_rehanded"] += 1
        w.tasks.add(tid)
        if w.ambiguous:
            self.maybe.add(tid)
        self.starved_since = None
        self.starved_handed += 1

    def check_node(self, task, msg):
        g = self.graphs[task.graph]
        spec = g.nodes[task.task_id]
        self.counts["node_handed"] += 1
        if msg.function_id != spec.function_id or len(msg.function_args) != len(spec.function_args):
            self.bad("C07", "node-content", f"node {task.task_id.hex()[:8]} handed out with another function or argument count")
            return
        for i, (have, want) in enumerate(zip(msg.function_args, spec.function_args)):
            if want.type == ArgumentType.Data:
                if have.type != ArgumentType.Data or have.data != want.data:
                    self.bad("C07", "node-data", f"node {task.task_id.hex()[:8]} argument {i} is not the data given")
                continue
            dep = self.tasks.get(want.data)
            if dep is None or not any(s == TaskStatus.Success for s, _ in dep.reported):
                self.bad("C07", "node-early", f"node {task.task_id.hex()[:8]} handed out before its input {i} succeeded")
                continue
            if have.type != ArgumentType.Data or (TaskStatus.Success, have.data) not in dep.reported:
                self.bad("C07", "node-argument", f"node {task.task_id.hex()[:8]} argument {i} is not the result of its input")
            self.counts["node_arguments"] += 1

    def on_echo(self, to, msg):
        tid, t = msg.task_id, self.ev.t
        if self.is_evil(tid):
            self.tasks.setdefault(tid, MTask(tid, to, b"", [])).echoes.append(msg.status)
            self.inexact_until = 1 << 60
            return
        if to in self.evil:
            if msg.status == TaskEchoStatus.SubmitOK:
                self.bad("C17", "taken-over", f"a stranger's task was accepted under the name of an unfinished one, {tid.hex()[:8]}")
                self.evil_tasks.add(tid)
            return
        task = self.tasks.get(tid)
        if task is None:
            gid = self.node_graph.get(tid)
            if gid is None:
                self.bad("C02", "echo-unknown", f"echo for unknown task {tid.hex()[:8]}")
                return
            g = self.graphs[gid]
            spec = g.nodes[tid]
            task = self.tasks[tid] = MTask(tid, g.client, spec.function_id, spec.function_args, graph=gid)
        if to != task.client:
            self.bad("C25", "echo-elsewhere", f"echo of a task of {task.client!r} sent to {to!r}")
            self.bad("C02", "echo-elsewhere", f"echo of a task of {task.client!r} sent to {to!r}")
        task.echoes.append(msg.status)
        f = self.functions.get(task.function_id)
        stored, dropped = self.function_window(f) if f is not None else (False, True)
        if task.graph is not None:
            self.activate(self.graphs[task.graph])
        if msg.status == TaskEchoStatus.FunctionNotExists:
            if stored:
                self.bad("C14", "refused-stored", f"task refused for a missing function that is in use or retained")
            return
        if dropped and msg.status == TaskEchoStatus.SubmitOK:
            self.bad("C14", "accepted-missing", "task accepted although its function is not stored")
        slot = any(len(w.tasks) < self.cap for w in self.connected())
        n = len(self._waiting_ids)
        if msg.status == TaskEchoStatus.NoWorker:
            self.counts["rejected"] += 1
            if self.limit < 0:
                self.bad("C15", "rejected-unlimited", "task rejected although there is no limit")
            elif self.exact:
                self.counts["admission_compared"] += 1
                if slot:
                    self.bad("C15", "rejected-with-slot", "task rejected although a worker has a free slot")
                elif n < self.limit:
                    self.bad("C15", "rejected-below-limit", f"task rejected with {n} waiting, limit {self.limit}")
            if task.graph is not None:
                self.bad("C15", "node-rejected", "a node of an accepted graph was rejected")
            task.state = "rejected"
            return
        if msg.status == TaskEchoStatus.SubmitOK:
            if task.graph is None and self.limit >= 0 and self.exact:
                self.counts["admission_compared"] += 1
                if not slot:
                    self.counts["admission_nontrivial"] += 1
                if not slot and n >= self.limit:
                    self.bad("C15", "accepted-beyond-limit", f"task accepted with {n} waiting and no free slot, limit {self.limit}")
            if task.state not in ("new", "rejected"):
                if task.arrivals > 1:
                    self.bad("C17", "duplicate-accepted", f"task {tid.hex()[:8]} accepted a second time while unfinished")
                else:
                    self.bad("C02", "accepted-twice", f"task {tid.hex()[:8]} accepted twice")
                return
            task.accepted_seq = self.ev.seq
            self.counts["accepted"] += 1
            if f is not None:
                f.users.add(tid)
                f.last_use = t
            self.set_waiting(task, t)

    def activate(self, g):
        if g.active:
            return
        g.active = True
        self.counts["graph_active"] += 1
        for nid, spec in g.nodes.items():
            f = self.functions.get(spec.function_id)
            if f is not None:
                f.users.add(nid)
                f.last_use = self.ev.t

    def on_final(self, to, msg):
        tid = msg.task_id
        if self.is_evil(tid):
            return
        task = self.tasks.get(tid)
        if task is None:
            if tid not in self.evil_tasks:
                self.bad("C02", "final-unknown", f"result for a task never submitted: {tid.hex()[:8]} to {to!r}")
            return
        if to != task.client:
            self.bad("C02", "final-elsewhere", f"result of a task of {task.client!r} sent to {to!r}")
            self.bad("C25", "final-elsewhere", f"result of a task of {task.client!r} sent to {to!r}")
        task.finals.append((self.ev.seq, self.ev.t, to, msg))
        if task.graph is None:
            if len(task.finals) > 1:
                self.bad("C02", "two-finals", f"task {tid.hex()[:8]} got {len(task.finals)} result messages: {[f[3].status.name for f in task.finals]}")
            if task.state in ("new", "rejected"):
                self.bad("C02", "final-unaccepted", f"result {msg.status} for a task that was not accepted ({task.echoes})")
            if msg.status == TaskStatus.Canceled:
                if not task.cancel_seq:
                    self.bad("C02", "cancelled-unasked", f"task {tid.hex()[:8]} reported cancelled, nobody asked")
                    self.bad("C25", "cancelled-unasked", f"task {tid.hex()[:8]} of {task.client!r} reported cancelled, its client never asked")
            elif (msg.status, msg.result) not in task.reported:
                self.bad("C02", "outcome-invented", f"result {msg.status} {msg.result[:12]!r} was never reported by a worker for task {tid.hex()[:8]}")
            elif msg.status == TaskStatus.NotFound and not task.cancel_seq:
                self.bad("C02", "notfound-unasked", "NotFound without a cancel request")
        if task.state in ("waiting", "at", "maybe", "limbo"):
            if task.outcome is not None and task.graph is not None and (msg.status, msg.result) == (task.outcome.status, task.outcome.result):
                self.node_end(task, task.outcome)
            self.set_done(task, msg.status)

    def on_graph_final(self, to, msg):
        g = self.graphs.get(msg.task_id)
        if self.is_evil(msg.task_id):
            return
        if g is None:
            self.bad("C07", "graph-result-unknown", f"graph result for unknown graph sent to {to!r}")
            return
        if to != g.client:
            self.bad("C07", "graph-result-elsewhere", f"graph result of {g.client!r} sent to {to!r}")
            self.bad("C25", "graph-result-elsewhere", f"graph result of {g.client!r} sent to {to!r}")
        g.results.append((self.ev.seq, msg))
        self.counts["graph_result"] += 1
        if len(g.results) > 1:
            self.bad("C07", "two-graph-results", f"graph got {len(g.results)} graph results")
        if msg.status == TaskStatus.Success:
            if g.cancel_seq or g.failed_seq:
                self.bad("C08", "success-after-end", "a failed or cancelled graph reported success")
            if len(msg.results) != len(g.msg.targets):
                self.bad("C07", "target-count", f"{len(msg.results)} results for {len(g.msg.targets)} targets")
            else:
                for i, (tid, r) in enumerate(zip(g.msg.targets, msg.results)):
                    task = self.tasks.get(tid)
                    if task is None or (TaskStatus.Success, r) not in task.reported:
                        self.bad("C07", "target-result", f"graph result {i} is not the result of target {i}")
                    self.counts["target_results"] += 1
            for nid in g.nodes:
                task = self.tasks.get(nid)
                if task is None or not any(s == TaskStatus.Success for s, _ in task.reported):
                    self.bad("C07", "result-early", "graph reported success before all its nodes succeeded")
                    break
            g.ended = True
        else:
            if not g.failed_seq and not g.cancel_seq:
                # a node whose end was in doubt
                doubt = [n for n in g.nodes if n in self.tasks and self.tasks[n].outcome is not None
                         and self.tasks[n].outcome.status == msg.status and self.tasks[n].state != "done"]
                if not doubt:
                    self.bad("C08", "failed-unasked", f"graph ended {msg.status} though no node failed and nobody cancelled")
                else:
                    self.node_end(self.tasks[doubt[0]], self.tasks[doubt[0]].outcome)
            elif g.failed_seq:
                node, res = g.failed_node
                if msg.status != res.status:
                    self.bad("C08", "wrong-end", f"graph ended {msg.status}, its node {res.status}")
                if not msg.results or any(r != res.result for r in msg.results):
                    self.bad("C08", "wrong-exception", "failed graph result does not carry the failed node's exception")

    # ---------------------------------------------------------------------------------------------------- publications
    def on_pub(self, msg):
        if isinstance(msg, Undecodable):
            self.bad("C16", "undecodable-pub", repr(msg))
            return
        if isinstance(msg, TaskState):
            if self.is_evil(msg.task_id):
                return
            task = self.tasks.get(msg.task_id)
            if task is None:
                self.bad("C16", "state-unknown", f"published state of unknown task {msg.task_id.hex()[:8]}")
                return
            task.states.append((self.ev.seq, msg))
            if msg.task_id in self.maybe:
                # what a timeout took back is not visible in messages: take the scheduler's word where in doubt
                if msg.status == TaskStatus.Inactive:
                    task.lost_t = self.ev.t
                    self.set_waiting(task, self.ev.t)
                elif msg.status in FINAL:
                    if task.outcome is not None and task.outcome.status == msg.status:
                        self.node_end(task, task.outcome)
                    self.set_done(task, msg.status)
            self.counts["task_states"] += 1
            f = self.functions.get(task.function_id)
            if f is not None and msg.function_name != f.name:
                self.bad("C16", "state-name", f"published with function name {msg.function_name!r}, is {f.name!r}")
        elif isinstance(msg, GraphTaskState):
            g = self.graphs.get(msg.graph_task_id)
            if g is None:
                if not self.is_evil(msg.graph_task_id):
                    self.bad("C16", "graph-state-unknown", "published node of unknown graph")
                return
            if self.is_evil(msg.graph_task_id):
                return
            if msg.task_id in g.published:
                self.bad("C16", "graph-state-twice", "graph node published twice")
            g.published[msg.task_id] = msg
            spec = g.nodes.get(msg.task_id)
            if spec is None:
                self.bad("C16", "graph-state-node", "published node does not belong to its graph")
                return
            parents = {a.data for a in spec.function_args if a.type == ArgumentType.Task}
            target = NodeTaskType.Target if msg.task_id in g.msg.targets else NodeTaskType.Normal
            self.counts["graph_states"] += 1
            if msg.parent_task_ids != parents or msg.node_task_type != target:
                self.bad("C16", "graph-state-wrong", f"node published with {len(msg.parent_task_ids)} parents/{msg.node_task_type}, has {len(parents)}/{target}")
            self.activate(g)
        elif isinstance(msg, SchedulerState):
            self.on_status(msg)

    def on_status(self, msg):
        try:
            data = json.loads(msg.data)
        except Exception as e:  # noqa
            self.bad("C16", "status-json", repr(e))
            return
        self.last_status, self.status_at = data, self.ev.t
        self.counts["status"] += 1
        self.status_messages(data)
        if not self.exact or any(t.state == "limbo" for t in self.tasks.values()) or getattr(self, "no_status", False):
            return
        self.counts["status_compared"] += 1
        waiting = len(self._waiting_ids)
        running = sum(len(w.tasks) for w in self.workers.values())
        if waiting and running:
            self.counts["status_nontrivial"] += 1
        want = {"unassigned": waiting, "running": running, "success": self.finished[TaskStatus.Success],
                "failed": self.finished[TaskStatus.Failed], "canceled": self.finished[TaskStatus.Canceled],
                "not_found": self.finished[TaskStatus.NotFound]}
        have = data.get("task_manager", {})
        for k, v in want.items():
            if have.get(k) != v:
                self.bad("C16", f"status-{k}", f"published {k}={have.get(k)}, the messages so far imply {v}")
        workers = {w["worker"]: w for w in data.get("worker_manager", [])}
        names = {w.identity.decode(errors="backslashreplace"): w for w in self.connected()}
        if set(workers) != set(names):
            self.bad("C16", "status-workers", f"published workers {sorted(workers)}, connected {sorted(names)}")
        for name, row in workers.items():
            w = names.get(name)
            if w is None:
                continue
            n = len(w.tasks)
            if row.get("sent") != n or row.get("free") != self.cap - n:
                self.bad("C16", "status-slots", f"worker published sent={row.get('sent')} free={row.get('free')}, holds {n} of {self.cap}")
            i = w.info
            got = (row.get("agt_cpu"), row.get("agt_rss"), row.get("cpu"), row.get("rss"), row.get("queued"), row.get("lag"))
            exp = (i.agent_cpu, i.agent_rss, i.worker_cpu, i.worker_rss, i.queued_tasks, i.latency_us)
            if got != exp:
                self.bad("C16", "status-worker-info", f"worker published {got}, its last heartbeat said {exp}")
            if row.get("ITL") != f"{int(i.initialized)}{int(i.has_task)}{int(i.task_lock)}":
                self.bad("C16", "status-worker-info", f"worker flags {row.get('ITL')} differ from its last heartbeat")
            age = self.ev.t - w.last_hb
            if not (age - 1.05 <= row.get("last", -1) <= age + 0.05):
                self.bad("C16", "status-last", f"worker last seen {row.get('last')}s, really {age:.2f}s")
        clients = Counter()
        users = Counter()
        for task in self.tasks.values():
            if task.state in ("waiting", "at"):
                clients[task.client.decode(errors="backslashreplace")] += 1
        for g in self.graphs.values():
            if g.active and not g.ended:
                clients[g.client.decode(errors="backslashreplace")] += 1
        if data.get("client_manager") != dict(clients):
            self.bad("C16", "status-clients", f"published clients {data.get('client_manager')}, really {dict(clients)}")
        for fid, f in self.functions.items():
            n = 0
            for task in self.tasks.values():
                if task.function_id == fid and task.state in ("waiting", "at"):
                    n += 1
            for g in self.graphs.values():
                if g.active and not g.ended:
                    for nid, spec in g.nodes.items():
                        if spec.function_id == fid and (nid not in self.tasks or self.tasks[nid].state == "new"):
                            n += 1
            if n:
                users[f.name.decode(errors="backslashreplace")] += n
        if data.get("function_manager") != dict(users):
            self.bad("C16", "status-functions", f"published functions {data.get('function_manager')}, really {dict(users)}")

    def status_messages(self, data):
        b = data.get("binder", {})
        if getattr(self, "evil", None):
            return
        for name, have, want in (("received", b.get("received"), self.received), ("sent", b.get("sent"), self.sent)):
            if have != dict(want):
                self.bad("C16", f"status-{name}", f"published {name} {have}, really {dict(want)}")

    # ------------------------------------------------------------------------------------------------- end of the run
    def finish(self, drained_for, settled=True):
        """drained_for: how long the system had to finish everything once faults had stopped and workers were there"""
        sim = self.sim
        self.ev = sim.log[-1]
        err = sim.scheduler_error()
        end_t = sim.clock.now
        if err:
            for p in ("C17",):
                self.bad(p, "scheduler-died", err)
        stuck = []
        for task in self.tasks.values():
            if self.is_evil(task.task_id):
                continue
            tid = task.task_id.hex()[:8]
            if not settled:
                pass  # work was still going on when the run was cut off
            elif task.graph is None and task.accepted_seq and not task.finals:
                stuck.append(task)
                self.bad("C02", "no-final", f"accepted task {tid} has no result {drained_for:.0f}s after faults stopped; state {task.state}"
                         + (f"; {err}" if err else ""))
                if task.lost_t is not None:
                    self.bad("C11", "lost-work", f"task {tid} of a lost worker never finished")
                if not task.cancel_seq:
                    self.bad("C25", "task-lost", f"task {tid} of {task.client!r} never finished")
                    self.bad("C15", "accepted-incomplete", f"accepted task {tid} never finished")
                    if task.state == "waiting" and task.handed and task.silent_returns == 0:
                        self.bad("C13", "returned-lost", f"task {tid} went back to waiting and never finished")
                else:
                    self.bad("C09", "cancel-unanswered", f"task {tid}: cancel received at t={task.cancel_t:.2f} ({task.cancel_state}), never reported cancelled"
                             + (f"; {err}" if err else ""))
            if task.cancel_seq and task.cancel_state == "waiting":
                first = task.finals[0] if task.finals else None
                if task.graph is None and first is not None and (first[3].status != TaskStatus.Canceled or first[1] - task.cancel_t > 5):
                    self.bad("C09", "waiting-cancel", f"waiting task {tid} not reported cancelled promptly: {first[3].status} after {first[1] - task.cancel_t:.1f}s")
            if task.cancel_seq and task.cancel_state == "at" and not task.cancel_sent and not err:
                # its end may have come in before the scheduler could act on the request only if it was in the same step
                holder = self.workers.get(task.cancel_worker)
                if task.done_t - task.cancel_t > 1.0 + 100 * sim.eps or task.done_t == 0:
                    self.bad("C09", "cancel-not-forwarded", f"task {tid}: cancel request not passed to the worker holding it")
                    if task.graph is not None:
                        self.bad("C08", "node-not-cancelled", f"node {tid} held by a worker was not cancelled when its graph ended")
            self.check_states(task)
        for g in self.graphs.values():
            if self.is_evil(g.graph_id):
                continue
            gid = g.graph_id.hex()[:8]
            if g.client in self.evil:
                continue
            if g.failed_seq and len(g.results) != 1:
                self.bad("C08", "failed-graph-result", f"failed graph {gid} got {len(g.results)} graph results" + (f"; {err}" if err else ""))
            if settled and not g.failed_seq and not g.cancel_seq and not g.results:
                why = f"; {err}" if err else ""
                missing = [n.hex()[:6] for n in g.nodes if n not in self.tasks or self.tasks[n].state != "done"]
                self.bad("C07", "no-graph-result", f"graph {gid} has no result {drained_for:.0f}s after faults stopped, unfinished nodes {missing}" + why)
                self.bad("C25", "graph-lost", f"graph {gid} of {g.client!r} never finished" + why)
                self.bad("C15", "graph-incomplete", f"accepted graph {gid} never finished" + why)
                self.bad("C08", "graph-lost", f"graph {gid} never finished" + why)
            if g.failed_seq or g.cancel_seq:
                for nid, (worker, doubtful) in g.at_failure.items():
                    task = self.tasks[nid]
                    if not doubtful and not task.cancel_sent and not err and (task.done_t - (g.failed_t or g.cancel_t) > 1.0 + 100 * sim.eps or task.state == "at"):
                        self.bad("C08", "node-not-cancelled", f"node {nid.hex()[:8]} held by a worker was not cancelled when graph {gid} ended")
                for nid in g.nodes:
                    task = self.tasks.get(nid)
                    if task is not None and task.state in ("waiting", "limbo") :
                        self.bad("C08", "node-left", f"node {nid.hex()[:8]} of ended graph {gid} left waiting in the scheduler" + (f"; {err}" if err else ""))
                    elif task is not None and task.state in ("at", "maybe"):
                        self.bad("C08", "node-left", f"node {nid.hex()[:8]} of ended graph {gid} still at a worker" + (f"; {err}" if err else ""))
            if g.active and set(g.published) != set(g.nodes):
                self.bad("C16", "graph-state-missing", f"graph {gid}: {len(g.published)} of {len(g.nodes)} nodes published")
        for c in sim.clients:
            if c.evil or c.gone:
                continue
            for t in c.tasks.values():
                if t.state == "new":
                    p = "C14" if TaskEchoStatus.FunctionNotExists in t.echoes else "C02"
                    self.bad(p, "never-answered", f"submitted task {t.task_id.hex()[:8]} was neither accepted nor rejected; echoes {t.echoes}"
                             + (f"; {err}" if err else ""))
            for s in c.stray:
                self.bad("C25", "stray", f"client {c.identity!r} received {s} which is not about anything of its own")
                self.bad("C02", "stray", f"client {c.identity!r} received {s} which is not about anything of its own")
        return stuck

    def check_states(self, task):
        if not task.accepted_seq:
            if task.states:
                self.bad("C16", "state-unaccepted", "state published for a task that was not accepted")
            return
        seq = [m.status for _, m in task.states]
        names = "".join(s.value.decode() for s in seq)
        tid = task.task_id.hex()[:8]
        state = "start"
        legal = {"start": {"I"}, "I": {"R", "C", "X"}, "R": {"I", "S", "F", "C", "N", "X"}, "X": {"S", "F", "C", "N", "X", "I"}}
        for s in names:
            if s not in legal.get(state, set()):
                self.bad("C16", "life-illegal", f"task {tid} published life {names}")
                break
            state = s
        if task.state == "done":
            finals = [s for s in seq if s in FINAL]
            want = task.finals[0][3].status if task.finals else (task.outcome.status if task.outcome is not None else None)
            if len(finals) != 1:
                self.bad("C16", "life-end", f"task {tid} published {len(finals)} ends: {names}")
            elif want is not None and finals[0] != want:
                self.bad("C16", "life-outcome", f"task {tid} published {finals[0]}, its client was told {want}")
            runs = sum(1 for s in seq if s == TaskStatus.Running)
            if runs != len(task.handed):
                self.bad("C16", "life-runs", f"task {tid} handed out {len(task.handed)} times, published Running {runs} times")
            self.counts["lives"] += 1

    def check_expiry(self):
        """Every function whose idle time is long over must be gone and every connected worker told."""
        self.ev = self.sim.log[-1]
        deletes = getattr(self, "deletes", [])
        by_fid = defaultdict(list)
        for t, seq, fid, to in deletes:
            by_fid[fid].append((t, seq, to))
        for fid, f in self.functions.items():
            if f.users:
                continue
            last = max(f.last_use, f.last_end)
            if self.sim.clock.now - last <= self.retention + self.slack + 0.5:
                continue
            told = {to for t, seq, to in by_fid.get(fid, []) if t > f.last_use}
            stable = {w.identity for w in self.connected()
                      if w.identity in getattr(self, "joined", {}) and self.joined[w.identity] < last and not w.was_lost}
            missing = stable - told
            self.counts["expired"] += 1
            if missing:
                self.bad("C14", "worker-not-told", f"function {fid.hex()[:8]} idle for {self.sim.clock.now - last:.1f}s, retention {self.retention}s, but worker(s) {sorted(missing)[:2]} not told to drop it")
