"""Oracle for one real worker agent: its messages to and from the scheduler and its processor, and what the processor ran."""
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, List, Optional

from scaled.protocol.python.message import (
    BalanceRequest, BalanceResponse, DisconnectRequest, FunctionRequest, FunctionRequestType, FunctionResponse, FunctionResponseType,
    Heartbeat, HeartbeatEcho, Task, TaskCancel, TaskResult, TaskStatus,
)
from vlib.oracle_sched import V
from vlib.simcore import Undecodable


@dataclass
class Inst:
    task_id: bytes
    msg: Any
    seq: int
    t: float
    started: Optional[int] = None  # seq at which it was passed to the processor
    started_t: float = 0.0
    runs: int = 0
    running: bool = False
    produced: Any = None  # (seq, t, status, result)
    cancel_seq: int = 0
    cancel_t: float = 0.0
    cancelled_t: float = 0.0
    cancel_after_produced: bool = False
    outcome: Any = None
    gone_function: bool = False
    aborted_t: float = 0.0


class AgentModel:
    def __init__(self, sim, agent):
        self.sim, self.agent = sim, agent
        self.violations: List[V] = []
        self.counts = Counter()
        self.held = {}
        self.all: List[Inst] = []
        self.by_id = {}
        self.waiting: List[Inst] = []
        self.heartbeats = []
        self.echoes = []
        self.unanswered = 0
        self.cancels_unanswered = []
        self.balance_due = []
        self.running = None
        self.last_received = None
        self.ended = None
        self.killed = False
        self.ev = None
        self.processor_pid = None
        self.left = None
        self.disconnect_sent = 0
        self.last_progress = 0.0
        self.asking = None  # function requested and not yet answered
        self.serving = False  # processor has introduced itself
        self.deletes_due = []  # functions to be dropped: (when, id)
        self.doubled = set()  # held twice at once: sent again by a scheduler that took this worker for lost

    def bad(self, prop, key, detail, tid=None):
        if tid in self.doubled:
            return
        if len(self.violations) < 100:
            self.violations.append(V(prop, key, f"{self.agent.proc.name}: {detail}", self.ev.seq, self.ev.t))

    def run(self):
        proc = self.agent.proc
        for ev in self.sim.log:
            if ev.peer is not proc:
                continue
            self.ev = ev
            getattr(self, "on_" + ev.kind, lambda m: None)(ev.msg)
            if self.killed:
                break
        return self

    # ---- processes
    def on_pspawn(self, pid):
        self.processor_pid = pid
        self.serving, self.deletes_due = False, []
        self.asking = None
        self.counts["processors"] += 1

    def on_wcrash(self, _):
        self.killed = True

    def on_wleave(self, _):
        if self.left is None:
            self.left = self.ev.t

    def on_pend(self, err):
        self.ended = self.ev.t

    # ---- from the scheduler
    def on_arecv(self, msg):
        self.last_received = self.ev.t
        if isinstance(msg, HeartbeatEcho):
            self.echoes.append(self.ev.t)
            self.unanswered = max(0, self.unanswered - 1)
        elif isinstance(msg, Task):
            old = self.by_id.get(msg.task_id)
            if old is not None and old in self.waiting:
                self.counts["task_again"] += 1
                return
            if old is not None and old.outcome is None:
                self.counts["task_doubled"] += 1
                self.doubled.add(msg.task_id)
            inst = Inst(msg.task_id, msg, self.ev.seq, self.ev.t)
            self.all.append(inst)
            self.by_id[msg.task_id] = inst
            self.waiting.append(inst)
            self.counts["tasks"] += 1
        elif isinstance(msg, TaskCancel):
            inst = self.by_id.get(msg.task_id)
            held = inst is not None and inst.outcome is None
            if held:
                if not inst.cancel_seq:
                    inst.cancel_seq, inst.cancel_t = self.ev.seq, self.ev.t
                    inst.cancel_after_produced = inst.produced is not None
                self.counts["cancel_running" if inst.started else "cancel_waiting"] += 1
                if inst in self.waiting:
                    self.waiting.remove(inst)
                    inst_pos = True
            else:
                self.counts["cancel_other"] += 1
            self.cancels_unanswered.append((self.ev.t, msg.task_id, inst if held else None))
        elif isinstance(msg, BalanceRequest):
            n = min(msg.number_of_tasks, len(self.waiting))
            self.balance_due.append((self.ev.t, msg.number_of_tasks, n, list(self.waiting)))
            self.counts["balance"] += 1
            if n:
                self.counts["balance_nontrivial"] += 1
        elif isinstance(msg, FunctionRequest):
            if msg.type == FunctionRequestType.Delete and self.serving:
                self.deletes_due.append((self.ev.t, msg.function_id))
                self.counts["evictions_ordered"] += 1
        elif isinstance(msg, FunctionResponse):
            self.asking = None
            if msg.status == FunctionResponseType.NotExists:
                self.counts["function_gone"] += 1
                for inst in self.all:
                    if inst.outcome is None and inst.started and inst.msg.function_id == msg.function_id:
                        inst.gone_function = True

    # ---- to the processor
    def on_psend(self, msg):
        if isinstance(msg, FunctionRequest) and msg.type == FunctionRequestType.Delete:
            self.deletes_due = [x for x in self.deletes_due if x[1] != msg.function_id]
            return
        if isinstance(msg, Task):
            inst = self.by_id.get(msg.task_id)
            if inst is None:
                self.bad("C21", "ran-unknown", f"task {msg.task_id.hex()[:8]} passed to the processor, never received", msg.task_id)
                return
            if msg != inst.msg:
                self.bad("C21", "task-changed", "task content changed on its way to the processor", msg.task_id)
            if inst.started:
                self.counts["resent"] += 1
                return
            inst.started, inst.started_t = self.ev.seq, self.ev.t
            if inst in self.waiting:
                if self.waiting[0] is not inst:
                    self.bad("C21", "order", f"task {msg.task_id.hex()[:8]} started before one received earlier", msg.task_id)
                self.waiting.remove(inst)

    def on_prun(self, what):
        pid, tid = what
        self.counts["runs"] += 1
        self.serving = True
        inst = self.by_id.get(tid)
        if self.running is not None:
            self.bad("C21", "two-at-once", f"task {tid.hex()[:8]} started while another is running", tid)
        self.running = (pid, tid)
        if inst is None:
            self.bad("C21", "ran-unknown", "ran a task never received", tid)
            return
        inst.runs += 1
        if inst.outcome is not None:
            self.bad("C21", "ran-after-end", f"task {tid.hex()[:8]} executed after it was {inst.outcome}", tid)
            if inst.outcome == "cancelled":
                self.bad("C09", "ran-after-cancel", f"task {tid.hex()[:8]} executed after it was reported cancelled", tid)
        elif inst.cancel_seq and self.ev.t - inst.cancel_t > 0.5:
            self.bad("C09", "ran-after-cancel", f"task {tid.hex()[:8]} started {self.ev.t - inst.cancel_t:.2f}s after its cancel request", tid)
        if inst.runs > 1:
            self.bad("C21", "ran-twice", f"task {tid.hex()[:8]} executed {inst.runs} times", tid)
            self.bad("C29", "ran-twice", f"task {tid.hex()[:8]} executed {inst.runs} times", tid)

    def on_pdone(self, what):
        self.last_progress = self.ev.t
        pid, tid, status, result = what
        self.running = None
        inst = self.by_id.get(tid)
        if inst is not None:
            inst.produced = (self.ev.seq, self.ev.t, status, result)
            if inst.outcome == "cancelled" and self.ev.t - inst.cancelled_t > 2:
                self.bad("C09", "not-stopped", f"task {tid.hex()[:8]} ran on for {self.ev.t - inst.cancelled_t:.1f}s after it was reported cancelled", tid)

    def on_pstubborn(self, pid):
        self.counts["stubborn_functions"] += 1

    def on_pabort(self, what):
        self.last_progress = self.ev.t
        pid, tid = what
        if self.running == (pid, tid):
            self.running = None
        inst = self.by_id.get(tid)
        if inst is not None:
            inst.aborted_t = self.ev.t
            if not inst.cancel_seq and self.left is None and self.ended is None and not self.killed:
                if not self._ending():
                    self.bad("C21", "aborted", f"running task {tid.hex()[:8]} aborted though nobody cancelled it", tid)

    def _ending(self):
        # the agent announces its departure before stopping its processor
        return self.disconnect_sent > 0

    # ---- to the scheduler
    def on_asend(self, msg):
        if isinstance(msg, Undecodable):
            self.bad("C18", "undecodable", f"sent {msg}")
        elif isinstance(msg, Heartbeat):
            self.heartbeat(msg)
        elif isinstance(msg, FunctionRequest):
            self.asking = msg.function_id
        elif isinstance(msg, DisconnectRequest):
            self.disconnect_sent += 1
            if msg.worker != self.agent.identity:
                self.bad("C22", "departure-name", "announced the departure of somebody else")
        elif isinstance(msg, TaskResult):
            inst = self.by_id.get(msg.task_id)
            if msg.status in (TaskStatus.Canceled, TaskStatus.NotFound):
                for i, (t, tid, held) in enumerate(self.cancels_unanswered):
                    if tid == msg.task_id:
                        self.cancels_unanswered.pop(i)
                        if msg.status == TaskStatus.NotFound and held is not None and held.outcome is None \
                                and not held.gone_function:
                            self.bad("C09", "held-not-found", f"task {tid.hex()[:8]} is held but its cancel was answered NotFound", msg.task_id)
                        break
                else:
                    if not (msg.status == TaskStatus.NotFound and inst is not None and inst.gone_function):
                        self.bad("C21", "cancel-unasked", f"reported {msg.status} for {msg.task_id.hex()[:8]} without a request", msg.task_id)
            if msg.status == TaskStatus.NotFound:
                return
            if inst is None:
                self.bad("C21", "answer-unknown", f"answered task {msg.task_id.hex()[:8]} never received", msg.task_id)
                return
            if inst.outcome is not None:
                self.bad("C21", "two-answers", f"task {msg.task_id.hex()[:8]} answered {msg.status.name} after {inst.outcome}", msg.task_id)
                return
            if msg.status == TaskStatus.Canceled:
                inst.outcome, inst.cancelled_t = "cancelled", self.ev.t
                self.counts["cancelled"] += 1
                if not inst.cancel_seq:
                    self.bad("C09", "cancel-unasked", "reported cancelled without a request", msg.task_id)
                return
            if msg.task_id in self.doubled:
                inst = next((i for i in self.all if i.task_id == msg.task_id and i.outcome is None), inst)
            inst.outcome = "answered"
            self.counts["answered"] += 1
            if inst.produced is None:
                if not inst.gone_function:
                    self.bad("C21", "answer-early", f"answered task {msg.task_id.hex()[:8]} that did not finish running", msg.task_id)
            elif (msg.status, msg.result) != inst.produced[2:4]:
                self.bad("C21", "answer-changed", f"reported ({msg.status}, {msg.result[:8]!r}), the processor produced {inst.produced[2:4]}", msg.task_id)
            if inst.cancel_seq and not inst.cancel_after_produced and not inst.gone_function:
                self.bad("C09", "answered-not-cancelled", f"task {msg.task_id.hex()[:8]} ran on to its end after its cancel request", msg.task_id)
        elif isinstance(msg, BalanceResponse):
            if not self.balance_due:
                self.bad("C21", "balance-unasked", "returned tasks nobody asked for")
                return
            t, asked, n, waiting = self.balance_due.pop(0)
            if len(msg.task_ids) != n:
                self.bad("C21", "balance-count", f"asked for {asked} with {len(waiting)} waiting, returned {len(msg.task_ids)}")
            if len(set(msg.task_ids)) != len(msg.task_ids):
                self.bad("C21", "balance-repeated", "returned a task twice")
            for tid in msg.task_ids:
                inst = self.by_id.get(tid)
                if tid in self.doubled:
                    inst = next((i for i in self.waiting if i.task_id == tid), inst)
                if inst is None or inst.outcome is not None:
                    self.bad("C21", "balance-not-held", f"returned task {tid.hex()[:8]} it does not hold", tid)
                    continue
                if inst.started:
                    self.bad("C21", "balance-started", f"returned task {tid.hex()[:8]} that was already started", tid)
                inst.outcome = "returned"
                self.counts["returned"] += 1
                if inst in self.waiting:
                    self.waiting.remove(inst)

    def heartbeat(self, msg):
        self.unanswered += 1
        if self.unanswered > 1:
            self.bad("C22", "two-unanswered", "sent a heartbeat while another is unanswered")
        if self.heartbeats:
            last, last_echo = self.heartbeats[-1], (self.echoes[-1] if self.echoes else None)
            if last_echo is not None and last_echo >= last:
                gap = self.ev.t - last_echo
                if gap > self.agent.heartbeat + 1.0 + 50 * self.sim.eps:
                    self.bad("C22", "heartbeat-late", f"{gap:.2f}s after the last answer, interval {self.agent.heartbeat}s")
                if self.ev.t - last < self.agent.heartbeat - 0.01:
                    self.bad("C22", "heartbeat-early", f"heartbeats {self.ev.t - last:.2f}s apart, interval {self.agent.heartbeat}s")
        self.heartbeats.append(self.ev.t)
        self.counts["heartbeats"] += 1
        waiting = len(self.waiting)
        active = any(i.started and i.outcome is None and not i.gone_function and i.task_id not in self.doubled for i in self.all)
        doubt = bool(self.doubled) or any(i.started and i.outcome is None and i.gone_function for i in self.all)
        if waiting:
            self.counts["heartbeats_with_queue"] += 1
        if msg.queued_tasks != waiting:
            self.bad("C22", "queued", f"heartbeat says {msg.queued_tasks} queued tasks, {waiting} wait")
        if msg.has_task != active and not doubt:
            self.bad("C22", "has-task", f"heartbeat says has_task={msg.has_task}, running={active}")
        exp = self.sim.expected_cpu(self.agent)
        if exp is not None:
            cpu, agent_rss, worker_rss = exp
            if abs(msg.agent_cpu - cpu / 100) > 0.0011 or abs(msg.worker_cpu - cpu / 100) > 0.0011:
                self.bad("C22", "cpu", f"heartbeat says cpu {msg.agent_cpu}/{msg.worker_cpu}, real {cpu / 100}")
        if self.agent.proc.rss_of is not None:
            if msg.agent_rss != self.agent.proc.rss_of(None) or msg.worker_rss != self.agent.proc.rss_of(self.processor_pid):
                self.bad("C22", "rss", f"heartbeat memory {msg.agent_rss}/{msg.worker_rss} is not the agent's and its processor's")

    # ---- end
    def finish(self, drained):
        """drained: the scheduler had no unfinished work and time has passed since"""
        self.ev = self.sim.log[-1]
        proc = self.agent.proc
        if self.killed:
            return
        self.liveness()
        if proc.error is not None:
            self.bad("C21", "agent-died", f"worker agent ended with {proc.error!r}")
            self.bad("C22", "agent-died", f"worker agent ended with {proc.error!r}")
            self.bad("C09", "agent-died", f"worker agent ended with {proc.error!r}")
        now = self.sim.clock.now
        late = [f for t, f in self.deletes_due if now - t > 5]
        if late and self.ended is None and self.left is None:
            self.bad("C29", "order-ignored", f"told to drop function {late[0].hex()[:8]}, its processor is never told")
        if self.ended is None and not drained and self.running is None and self.asking is None:
            for inst in self.all:
                if inst.outcome is None and not inst.gone_function and now - inst.t > 60 and self.last_progress < now - 60:
                    self.bad("C21", "stuck", f"task {inst.task_id.hex()[:8]} received at {inst.t:.2f} is never run though nothing runs", inst.task_id)
                    break
        if self.ended is None and drained:
            for inst in self.all:
                if inst.outcome is None and not inst.gone_function:
                    self.bad("C21", "unanswered", f"task {inst.task_id.hex()[:8]} received at {inst.t:.2f} never answered", inst.task_id)
                    if inst.cancel_seq:
                        self.bad("C09", "unanswered", f"task {inst.task_id.hex()[:8]} told to cancel at {inst.cancel_t:.2f}, never answered", inst.task_id)
            for t, tid, held in self.cancels_unanswered:
                if now - t > 5 and not (held is not None and (held.outcome == "answered" or held.gone_function)):
                    self.bad("C09", "cancel-unanswered", f"cancel request for {tid.hex()[:8]} never answered", tid)
            for t, asked, n, _ in self.balance_due:
                if now - t > 5:
                    self.bad("C21", "balance-unanswered", "balance request never answered")
        for inst in self.all:
            if inst.cancel_seq and inst.outcome == "cancelled" and inst.runs and not inst.aborted_t and \
                    (inst.produced is None):
                self.bad("C09", "not-stopped", f"task {inst.task_id.hex()[:8]} reported cancelled but still runs", inst.task_id)

    def liveness(self):
        """beats while answered, leaves when the scheduler is silent or when interrupted, and never otherwise"""
        agent, now = self.agent, self.sim.clock.now
        slack = 1.5 + 100 * self.sim.eps
        beat, death = agent.heartbeat, agent.death_timeout
        last_any = self.last_received if self.last_received is not None else agent.started_at
        last_echo = self.echoes[-1] if self.echoes else agent.started_at
        if self.ended is None:
            if self.left is not None and now - self.left > 3.0 + slack:
                self.bad("C22", "interrupt-ignored", f"interrupted {now - self.left:.1f}s ago and still there")
            elif now - last_any > death + 1.0 + slack:
                self.bad("C22", "no-quit", f"nothing heard from the scheduler for {now - last_any:.1f}s, patience {death}s, still there")
            if not self.heartbeats:
                if now - agent.started_at > beat + 5.0:
                    self.bad("C22", "no-heartbeat", f"no heartbeat {now - agent.started_at:.1f}s after its start")
            elif self.echoes and last_echo >= self.heartbeats[-1] and now - last_echo > beat + slack:
                self.bad("C22", "heartbeat-stopped", f"last heartbeat answered {now - last_echo:.1f}s ago, interval {beat}s, none sent since")
            return
        if agent.proc.error is not None:
            return
        if self.left is not None and self.left <= self.ended:
            self.counts["ended_by_interrupt"] += 1
            if self.ended - self.left > 3.0 + slack and not self.ended - last_echo >= death - 0.01:
                self.bad("C22", "interrupt-slow", f"ended {self.ended - self.left:.1f}s after its interrupt")
        else:
            self.counts["ended_by_silence"] += 1
            # one that comes in within the very step in which it gives up is too late
            timely = [t for t in self.echoes if t < self.ended - 10 * self.sim.eps]
            last_echo = timely[-1] if timely else agent.started_at
            if self.ended - last_echo < death - 0.01:
                self.bad("C22", "quit-early", f"ended {self.ended - last_echo:.2f}s after the scheduler's last answer, patience {death}s")
            if self.ended - last_any > death + 1.0 + slack:
                self.bad("C22", "quit-late", f"ended {self.ended - last_any:.1f}s after it last heard from the scheduler, patience {death}s")
        if not self.disconnect_sent:
            self.bad("C22", "left-silently", "ended without announcing its departure")
        elif self.disconnect_sent > 1:
            self.bad("C22", "left-twice", "announced its departure more than once")
        left = [p.pid for p in agent.live_processors()]
        if left:
            self.bad("C22", "processor-left", f"ended but its processor {left} still runs")
            self.bad("C23", "processor-left", f"ended but its processor {left} still runs")
        import os
        if agent.proc.pair is not None and agent.proc.pair.path and os.path.exists(agent.proc.pair.path):
            self.bad("C23", "socket-file", "ended but its private socket file is still there")
