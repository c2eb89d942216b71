"""Seeded workloads for the simulated deployment. A profile is a set of knobs; every run draws its own values."""
import random
from collections import Counter

from scaled.protocol.python.message import (
    Argument, ArgumentType, BalanceRequest, BalanceResponse, DisconnectRequest, FunctionRequest, FunctionRequestType,
    FunctionResponse, FunctionResponseType, GraphTask, GraphTaskCancel, Heartbeat, HeartbeatEcho, MessageType, Task,
    TaskCancel, TaskEcho, TaskEchoStatus, TaskResult, TaskStatus, GraphTaskResult,
)
from vlib import residue
from vlib.oracle_agent import AgentModel
from vlib.oracle_sched import Model, V
from vlib.sim import ADDRESS, FakeWorker, RealAgent, Sim, SimClient, compute, make_function

DEFAULTS = dict(
    horizon=(4, 15), clients=(1, 3), functions=(1, 4), share=0.5, ops=(15, 60), fake=(1, 3), real=(0, 2), late_join=0.4,
    cap=[1, 1, 2, 3, 5, 20], limit=[-1], timeout=[60], retention=[20], lb=[0, 1], lbt=[2], scale=[0.0, 0.02, 0.2, 1.0],
    modes=["ok", "ok", "ok", "fail", "flaky"], burst=(1, 12), w=dict(submit=6, burst=2, cancel=2),
    crash=0.0, stall=0.0, leave=0.0, rejoin=0.0, pause=0.0, heartbeat=[1], death=[10], graph_nodes=(1, 10),
    settle=3.0, drain=120.0, min_workers=0, evil=0, residue=False, exact=True, expiry=False, slow_links=0.1,
    client_end=0.0, names_same=0.3, real_weight=1.0, idle_gap=0.0, keep_worker=True, bulk=0.0, mass=0.0,
)

PROFILES = {
    "values": dict(w=dict(submit=5, burst=1, cancel=1, graph=2), real=(1, 2), fake=(0, 1), modes=["ok", "fail", "flaky", "huge", "hugefail"], ops=(5, 20), burst=(1, 5),
                   lb=[0, 1], lbt=[1], scale=[0.02, 0.5, 2.0], leave=0.3, rejoin=0.5, functions=(2, 5), graph_nodes=(1, 5)),
    "C02": dict(mass=0.04, w=dict(submit=6, burst=3, cancel=3, graph=0.5), crash=0.35, stall=0.3, leave=0.35, rejoin=0.5, pause=0.3,
                timeout=[4, 6, 10], limit=[-1, -1, 3], client_end=0.3, clients=(1, 4), retention=[2, 20], lb=[0, 1, 1]),
    "C07": dict(mass=0.04, w=dict(graph=6, submit=2, cancel=0.5), modes=["ok", "ok", "ok", "ok", "flaky"], crash=0.2, leave=0.25,
                rejoin=0.4, timeout=[5], clients=(1, 3), retention=[3, 20], ops=(3, 15), limit=[-1, -1, 2]),
    "C08": dict(mass=0.04, w=dict(graph=6, submit=3, cancel_graph=3, cancel=1), modes=["ok", "ok", "flaky", "fail"], cap=[1, 1, 2, 3, 20],
                crash=0.15, leave=0.2, rejoin=0.3, timeout=[5], ops=(4, 20), clients=(1, 3), lb=[0, 1], real=(0, 2)),
    "C09": dict(mass=0.04, w=dict(submit=4, burst=3, cancel=7, graph=0.5, cancel_graph=0.5), cap=[1, 2, 3, 10], crash=0.25, leave=0.3, stall=0.2,
                rejoin=0.5, timeout=[4, 8], lb=[0, 1, 1], scale=[0.02, 0.2, 1.0, 3.0], real=(1, 3), fake=(0, 2), late_join=0.6),
    "C11": dict(mass=0.04, w=dict(submit=5, burst=3, cancel=0.5), crash=0.6, stall=0.5, leave=0.5, rejoin=0.8, pause=0.6, timeout=[3, 5, 8],
                scale=[0.2, 1.0, 3.0], horizon=(8, 25), fake=(2, 4), modes=["ok", "ok", "flaky"]),
    "C12": dict(mass=0.04, w=dict(submit=4, burst=5, cancel=2, graph=1), cap=[1, 1, 2, 3, 7], leave=0.55, late_join=0.7, fake=(1, 7), rejoin=0.55,
                scale=[0.0, 0.02, 0.2, 1.0, 3.0], limit=[-1, -1, 0, 2, 5]),
    "C12h": dict(w=dict(submit=6, burst=1, cancel=0.5), cap=[1, 1, 2, 3], leave=0.8, late_join=0.2, fake=(4, 9), real=(0, 0), rejoin=0.5, ops=(4, 14),
                 burst=(1, 4), scale=[6.0, 10.0], functions=(1, 2), horizon=(8, 15)),
    "C13": dict(mass=0.04, w=dict(submit=2, burst=4, cancel=1), burst=(5, 40), cap=[5, 50, 1000], lb=[0, 1, 1, 1], lbt=[1, 2, 3, 4], scale=[0.5, 2.0, 5.0],
                late_join=0.8, fake=(2, 6), real=(0, 2), horizon=(10, 25), ops=(3, 12), leave=0.3),
    "C14": dict(w=dict(submit=5, burst=1, cancel=1, graph=1, fcheck=2, frequest=2, fdelete=0.7, fadd=1), retention=[1, 2, 4], horizon=(10, 40), ops=(8, 30),
                functions=(2, 6), share=0.8, idle_gap=0.5, scale=[0.02, 0.5, 3.0, 6.0], settle=8.0, expiry=True, lb=[0, 1], late_join=0.4, leave=0.1),
    "C15": dict(w=dict(submit=4, burst=6, cancel=2), limit=[0, 0, 1, 2, 3, 5, 10, -1], cap=[1, 1, 2, 3], burst=(2, 15), late_join=0.7, leave=0.2,
                scale=[0.02, 0.2, 1.0], fake=(1, 3), rejoin=0.5),
    "C15g": dict(w=dict(submit=4, burst=4, graph=4, cancel=1), limit=[0, 1, 2, 5], cap=[1, 1, 2], modes=["ok"], scale=[0.02, 0.2, 0.5], leave=0.1, crash=0.1, timeout=[5]),
    "C16": dict(mass=0.04, w=dict(submit=5, burst=2, cancel=2, graph=3, cancel_graph=0.6), leave=0.2, rejoin=0.3, limit=[-1, -1, 2], names_same=0.6,
                scale=[0.2, 1.0, 2.0], horizon=(6, 20), late_join=0.5, timeout=[60, 60, 5], pause=0.15),
    "C17": dict(w=dict(submit=5, burst=1, cancel=1.5, graph=1.5, cancel_graph=0.5), evil=3, cap=[50, 1000], timeout=[4], exact=False, leave=0.1,
                modes=["ok", "ok", "flaky"], lb=[0, 1], scale=[0.02, 0.3]),
    "C20": dict(mass=0.04, w=dict(submit=5, burst=2, cancel=3, graph=3, cancel_graph=1.5), crash=0.3, leave=0.3, stall=0.2, rejoin=0.5, timeout=[4], residue=True,
                client_end=0.3, real=(1, 3), limit=[-1, 2], lb=[0, 1], settle=6.0),
    "C21": dict(mass=0.04, w=dict(submit=5, burst=4, cancel=5, graph=0.5, fdelete=0.5), real=(1, 3), fake=(0, 1), cap=[2, 5, 20, 1000], lb=[0, 1, 1], lbt=[1, 2], late_join=0.7,
                scale=[0.02, 0.2, 1.0, 3.0], burst=(3, 20), retention=[1, 3, 20], stray=0.6),
    "C22": dict(w=dict(submit=5, burst=3, cancel=2), real=(1, 3), fake=(0, 1), heartbeat=[1, 2, 3], death=[3, 5, 10], lb=[0, 1], cap=[2, 20, 1000],
                scale=[0.2, 1.0, 4.0], sched_stop=0.5, sigint=0.4, horizon=(6, 20)),
    "C25": dict(w=dict(submit=5, burst=3, cancel=2, graph=2, cancel_graph=1, fdelete=0.5), clients=(2, 5), share=1.0, client_end=0.7, retention=[2, 20], leave=0.15,
                limit=[-1, -1, 4], names_same=0.6),
    "C29": dict(w=dict(submit=6, burst=2, cancel=1.5, fdelete=0.5), real=(1, 3), fake=(0, 1), retention=[1, 2, 3], functions=(2, 6), share=0.8, idle_gap=0.4,
                horizon=(10, 40), scale=[0.02, 0.5, 2.0], evict=0.7, lb=[0, 1]),
}


def draw(rng, profile):
    k = dict(DEFAULTS)
    k.update(PROFILES[profile])
    return k


class Run:
    def __init__(self, profile, seed):
        self.profile, self.seed = profile, seed
        self.sim = Sim(f"{profile}-{seed}")
        self.rng = self.sim.rng
        self.k = draw(self.rng, profile)
        self.violations = []
        self.counts = Counter()
        self.drained = False
        self.abandoned = False
        self.stuck = False
        self.progress_t, self.progress_seen = 0.0, -1
        self.drain_time = 0.0

    # ------------------------------------------------------------------------------------------------------- building
    def ri(self, key):
        lo, hi = self.k[key]
        return self.rng.randint(lo, hi)

    def chance(self, key):
        return self.rng.random() < self.k.get(key, 0)

    def make_functions(self):
        rng, k = self.rng, self.k
        self.functions = []
        for i in range(self.ri("functions")):
            name = b"fn" if rng.random() < k["names_same"] else b"fn%d" % i
            self.functions.append(make_function(rng, name, rng.choice(k["modes"]), rng.choice(k["scale"])))

    def client_functions(self):
        rng = self.rng
        if rng.random() < self.k["share"]:
            return list(self.functions)
        return [make_function(rng, b"own", rng.choice(self.k["modes"]), rng.choice(self.k["scale"])) for _ in range(rng.randint(1, 2))]

    def at(self, t, fn, *a):
        self.sim.loop.call_at(t, fn, *a)

    def new_worker(self, real=None):
        rng, k, sim = self.rng, self.k, self.sim
        delay = sim.random_delay(0.05, 0.6) if rng.random() < k["slow_links"] else None
        if real:
            return RealAgent(sim, heartbeat=rng.choice(k["heartbeat"]), death_timeout=rng.choice(k["death"]) if self.k.get("sched_stop") else 1000, retention=1000, delay=delay)
        return FakeWorker(sim, heartbeat=rng.choice([0.5, 1.0, 1.0, 2.0]), delay=delay)

    def live_workers(self):
        return [w for w in self.sim.fake_workers if w.alive and not w.paused] + [a for a in self.sim.agents if a.alive]

    # ------------------------------------------------------------------------------------------------------ operations
    def args(self):
        rng = self.rng
        n = rng.choice([0, 1, 1, 2, 3])
        return [rng.choice([b"", rng.randbytes(rng.randint(1, 40)), b"x%d" % rng.randint(0, 3), b"TK", b"\0" * 16]) for _ in range(n)]

    def op_submit(self, c):
        c.submit(self.rng.choice(c.fns), self.args() + [b"#%d" % self.sim.id_rng.getrandbits(40)])

    def op_burst(self, c):
        f = self.rng.choice(c.fns)
        n = self.ri("burst")
        if self.rng.random() < self.k["bulk"]:
            n = 70000
        for _ in range(n):
            c.submit(f, [b"#%d" % self.sim.id_rng.getrandbits(40)])

    def op_mass(self, c):
        """far more tasks than any small table, batch or window would hold"""
        f = self.rng.choice(c.fns)
        n = self.rng.choice([70, 150, 280, 300, 600])
        while n > 70 and n * float(f[2].split(b"|")[1]) > 300:
            n //= 2
        for _ in range(n):
            c.submit(f, [b"#%d" % self.sim.id_rng.getrandbits(40)])

    def op_cancel(self, c):
        rng = self.rng
        live = [t for t in c.tasks.values() if not t.results]
        pool = live if live and rng.random() < 0.85 else list(c.tasks.values())
        if not pool:
            return
        for t in rng.sample(pool, min(len(pool), rng.choice([1, 1, 1, 2, 5]))):
            c.cancel(t)

    def op_graph(self, c):
        rng = self.rng
        n = self.ri("graph_nodes") * (rng.choice([10, 30]) if rng.random() < self.k["mass"] / 5 else 1)
        ids = [c.new_id() for _ in range(n)]
        nodes = {}
        width = rng.choice([1, 2, 3, 5])
        linked = 0.7
        if rng.random() < 0.15:
            # many nodes ready at once, or many waiting for the same one
            width, linked = n, rng.choice([0.0, 0.1, 0.3])
        for i, nid in enumerate(ids):
            args = []
            for _ in range(rng.choice([0, 1, 2, 2, 3])):
                if i and rng.random() < linked:
                    args.append(Argument(ArgumentType.Task, rng.choice(ids[max(0, i - width):i])))
                else:
                    args.append(Argument(ArgumentType.Data, rng.randbytes(rng.randint(0, 20))))
            if args and rng.random() < 0.15:
                args.append(args[0])
            if rng.random() < 0.85:
                args.append(Argument(ArgumentType.Data, b"#%d" % self.sim.id_rng.getrandbits(40)))
            nodes[nid] = (rng.choice(c.fns), args)
        order = list(ids)
        rng.shuffle(order)
        nodes = {nid: nodes[nid] for nid in order}
        targets = rng.sample(ids, rng.randint(1, min(n, rng.choice([4, 4, 12]))))
        if rng.random() < 0.1:
            targets.append(rng.choice(targets))
        return c.submit_graph(nodes, targets)

    def op_cancel_graph(self, c):
        pool = [g for g in c.graphs.values() if not g.results]
        if pool:
            c.cancel_graph(self.rng.choice(pool))
        elif self.rng.random() < 0.5:
            g = self.op_graph(c)
            if self.rng.random() < 0.7:
                c.cancel_graph(g)

    def op_fcheck(self, c):
        c.send(FunctionRequest(FunctionRequestType.Check, self.rng.choice(self.functions)[0], b"", b""))

    def op_frequest(self, c):
        c.send(FunctionRequest(FunctionRequestType.Request, self.rng.choice(self.functions)[0], b"", b""))

    def op_fdelete(self, c):
        c.send(FunctionRequest(FunctionRequestType.Delete, self.rng.choice(c.fns)[0], b"", b""))

    def op_fadd(self, c):
        f = self.rng.choice(self.functions)
        c.send(FunctionRequest(FunctionRequestType.Add, *f))

    def do_op(self, op, c):
        if c.gone:
            return
        self.counts["op_" + op] += 1
        getattr(self, "op_" + op)(c)

    def client_end(self, c):
        if c.gone:
            return
        if self.rng.random() < 0.6:
            self.counts["client_disconnect"] += 1
            c.disconnect()
        else:
            self.counts["client_vanish"] += 1
            c.vanish()

    # ---------------------------------------------------------------------------------------------------------- faults
    def fault(self, kind):
        ws = self.live_workers()
        if not ws:
            return
        w = self.rng.choice(ws)
        self.counts["fault_" + kind] += 1
        if kind == "crash" and len(ws) > 2 and self.rng.random() < 0.15:
            # one machine with many workers
            self.counts["fault_crash_of_many"] += 1
            for x in ws[1:]:
                x.crash()
        elif kind == "crash":
            w.crash()
        elif kind == "leave":
            w.leave()
        elif kind == "stall":
            w.stall(self.rng.choice([0.5, 2.0, self.sim.config["worker_timeout_seconds"] + self.rng.uniform(-1, 4)]))
        elif kind == "pause" and isinstance(w, FakeWorker):
            w.pause()
            self.at(self.sim.clock.now + self.rng.choice([1.0, 3.0, self.sim.config["worker_timeout_seconds"] + self.rng.uniform(-1, 4)]), self._resume, w)

    def _resume(self, w):
        w.pause(False)
        w._next()

    def evict(self):
        for a in self.sim.agents:
            for p in a.live_processors():
                if p.functions and self.rng.random() < 0.7:
                    # what its cache cleaner may do at any moment between messages
                    p.evict(self.rng.choice(sorted(p.functions)))
                    self.counts["evictions"] += 1

    # ------------------------------------------------------------------------------------------------------ one execution
    async def main(self):
        rng, k, sim = self.rng, self.k, self.sim
        mass = rng.random() < k["mass"]
        sim.start_scheduler(
            max_number_of_tasks_waiting=rng.choice(k["limit"]), per_worker_queue_size=rng.choice([100, 1000] if mass else k["cap"]),
            worker_timeout_seconds=rng.choice(k["timeout"]), function_retention_seconds=rng.choice(k["retention"]),
            load_balance_seconds=rng.choice(k["lb"]), load_balance_trigger_times=rng.choice(k["lbt"]))
        horizon = rng.uniform(*k["horizon"])
        self.make_functions()
        sim.evil_task_ids = set()
        sim.evil_identities = set()
        clients = []
        for i in range(self.ri("clients")):
            c = SimClient(sim)
            c.fns = self.client_functions()
            clients.append(c)
        nf, nr = self.ri("fake"), self.ri("real")
        if nf + nr == 0:
            nf = 1
        for i in range(nf + nr):
            t = rng.uniform(0, horizon) if rng.random() < k["late_join"] else rng.uniform(0, 0.3)
            self.at(t, self.new_worker, i >= nf)
        ops, weights = zip(*k["w"].items())
        n = self.ri("ops")
        t = 0.0
        times = []
        for _ in range(n):
            if rng.random() < 0.5 and times:
                times.append(times[-1] + rng.choice([0.0, 0.001, 0.01, 0.1]))
            else:
                times.append(rng.uniform(0, horizon))
        if k["idle_gap"] and rng.random() < k["idle_gap"]:
            a = rng.uniform(0, horizon)
            times = [x if not a < x < a + 8 else a for x in times]
        for x in sorted(times):
            self.at(x, self.do_op, rng.choices(ops, weights)[0], rng.choice(clients))
        if mass:
            self.at(rng.uniform(0.2, 0.6 * horizon), self.do_op, "mass", rng.choice(clients))
        for kind in ("crash", "stall", "leave", "pause"):
            while rng.random() < k[kind]:
                self.at(rng.uniform(0.5, horizon), self.fault, kind)
        while rng.random() < k["rejoin"]:
            self.at(rng.uniform(1, horizon + 2), self.new_worker, rng.random() < 0.3 and nr > 0)
        for c in clients[1 if k["clients"][1] > 1 and rng.random() < 0.8 else 0:]:
            if self.chance("client_end"):
                self.at(rng.uniform(0.3, horizon), self.client_end, c)
        while rng.random() < k.get("evict", 0):
            self.at(rng.uniform(0.5, horizon), self.evict)
        if k["evil"]:
            from vlib.evil import Evil
            for i in range(rng.randint(1, k["evil"])):
                Evil(self, sim, rng, horizon)
        if k.get("stray"):
            self.schedule_stray(horizon)
        self.horizon = horizon
        if k.get("sched_stop"):
            self.schedule_silence(horizon)
        if k["residue"]:
            for _ in range(rng.randint(1, 3)):
                self.at(rng.uniform(0.5 * horizon, 1.2 * horizon), self.residue_meanwhile)
        await sim.sleep_until(horizon)
        if self.chance("sched_stop"):
            # the scheduler is gone for good, in the middle of whatever is going on
            self.counts["scheduler_stopped"] += 1
            self.abandoned = True
            sim.note("sstop", None, None)
            sim.scheduler_proc.killed = True
            sim.scheduler_proc.main.cancel()
            longest = max([a.death_timeout + a.heartbeat for a in sim.agents] or [0])
            if rng.random() < 0.5:
                await sim.sleep(rng.uniform(0, longest))
                for a in sim.agents:
                    if a.alive and rng.random() < 0.3:
                        a.leave()
            await sim.sleep(longest + 10)
            return
        # faults are over: make sure somebody can work, then let everything finish
        for w in sim.fake_workers:
            if w.paused:
                w.pause(False)
                w._next()
        if len(self.live_workers()) < 1:
            self.new_worker(False)
        healed = sim.clock.now
        while sim.clock.now - healed < 5000:
            await sim.sleep(1.0)
            if not sim.scheduler_alive:
                break
            if sim.clock.now - max(healed, self.last_progress()) > k["drain"]:
                self.stuck = True  # workers are there, nothing runs and nothing gets finished
                break
            if not self.live_workers():
                self.new_worker(False)
            if self.all_done():
                self.drained = True
                break
        self.drain_time = sim.clock.now - healed
        await sim.sleep(k["settle"])
        if k["expiry"]:
            await sim.sleep(sim.config["function_retention_seconds"] + 3)

    def schedule_silence(self, horizon):
        """links that fall silent for less or for more than an agent's patience, and interrupts at any moment"""
        rng, sim = self.rng, self.sim

        def silence():
            agents = [a for a in sim.agents if a.alive and a.proc.link is not None]
            if agents:
                a = rng.choice(agents)
                a.stall(rng.choice([a.death_timeout - a.heartbeat - 1.5, a.death_timeout * 0.5, a.death_timeout + rng.uniform(0, 4)]))
                self.counts["silences"] += 1

        def interrupt():
            agents = [a for a in sim.agents if a.alive]
            if agents:
                rng.choice(agents).leave()
                self.counts["interrupts"] += 1

        while rng.random() < 0.5:
            self.at(rng.uniform(0.2, horizon), silence)
        while rng.random() < self.k["sigint"]:
            self.at(rng.choice([rng.uniform(0.0, 1.5), rng.uniform(0.0, horizon)]), interrupt)

    def schedule_stray(self, horizon):
        """a scheduler's late or repeated messages to a real agent"""
        rng, sim = self.rng, self.sim

        def stray():
            agents = [a for a in sim.agents if a.alive and a.proc.link is not None and a.proc.link.router is not None]
            if not agents:
                return
            a = rng.choice(agents)
            f = rng.choice(self.functions)
            kind = rng.choice(["cancel", "response", "gone", "delete", "balance0", "echo", "cancel_old"])
            from vlib.simcore import encode
            seen = [ev.msg for ev in sim.log if ev.kind == "arecv" and ev.peer is a.proc and isinstance(ev.msg, Task)]
            if kind == "cancel":
                m = TaskCancel(sim.id_rng.randbytes(16))
            elif kind == "cancel_old":
                answered = {ev.msg.task_id for ev in sim.log if ev.kind == "asend" and ev.peer is a.proc and isinstance(ev.msg, TaskResult)}
                old = [m.task_id for m in seen if m.task_id in answered]
                if not old:
                    return
                m = TaskCancel(rng.choice(old))
            elif kind == "response":
                m = FunctionResponse(FunctionResponseType.OK, *f)
            elif kind == "gone":
                busy = {ev.msg.function_id for ev in sim.log if ev.kind == "arecv" and ev.peer is a.proc and isinstance(ev.msg, Task)}
                free = [x for x in self.functions if x[0] not in busy]
                if not free:
                    return
                m = FunctionResponse(FunctionResponseType.NotExists, rng.choice(free)[0], b"", b"")
            elif kind == "delete":
                m = FunctionRequest(FunctionRequestType.Delete, f[0], b"", b"")
            elif kind == "balance0":
                m = BalanceRequest(0)
            else:
                m = HeartbeatEcho()
                return
            self.counts["stray_" + kind] += 1
            a.proc.link.send_down(encode(m))

        for _ in range(rng.randint(1, 8)):
            self.at(rng.uniform(0.2, horizon), stray)

    def all_done(self):
        sim = self.sim
        for c in sim.clients:
            if c.evil or c.gone:
                continue
            for t in c.tasks.values():
                if t.state == "new" or (t.state == "accepted" and not t.results):
                    return False
            for g in c.graphs.values():
                if not g.results and not g.cancelled:
                    return False
        for a in sim.agents:
            if a.alive and any(p.running or p.inbox or p.waiting for p in a.live_processors()):
                return False
        for w in sim.fake_workers:
            if w.alive and not w.idle():
                return False
        # work of clients that went away
        if any(c.gone for c in sim.clients) or any(g.cancelled or any(r.status != TaskStatus.Success for r in g.results) for c in sim.clients for g in c.graphs.values()):
            return self.quiet_since(self.sim.config["worker_timeout_seconds"] + 4.0 if self.sim.config["worker_timeout_seconds"] < 30 else 2.0)
        return True

    def last_progress(self):
        """when a worker last started, finished or reported anything"""
        for i in range(len(self.sim.log) - 1, self.progress_seen, -1):
            ev = self.sim.log[i]
            if ev.kind in ("prun", "pdone", "wrun") or (ev.kind in ("srecv", "ssend") and isinstance(ev.msg, (TaskResult, GraphTaskResult))):
                self.progress_t = ev.t
                break
        self.progress_seen = len(self.sim.log) - 1
        return self.progress_t

    def quiet_since(self, seconds):
        for ev in reversed(self.sim.log):
            if ev.t < self.sim.clock.now - seconds:
                return True
            if ev.kind in ("srecv", "ssend") and not isinstance(ev.msg, (Heartbeat, HeartbeatEcho)):
                return False
        return True

    def execute(self):
        sim = self.sim
        try:
            sim.loop.run_until_complete(self.main())
            self.judge()
        finally:
            sim.close()
        return self

    # ----------------------------------------------------------------------------------------------------------- judging
    def judge(self):
        sim = self.sim
        model = Model(sim, exact=self.k["exact"])
        self.model = model
        model.run()
        if not self.abandoned:
            model.finish(self.drain_time, self.drained or self.stuck or not sim.scheduler_alive)
        if self.k["expiry"]:
            model.check_expiry()
        self.violations += model.violations
        self.counts.update(model.counts)
        for a in sim.agents:
            am = AgentModel(sim, a).run()
            am.finish(self.drained and sim.scheduler_alive)
            self.violations += am.violations
            self.counts.update({"agent_" + k: v for k, v in am.counts.items()})
        self.graph_values()
        for msg, exc in sim.loop.uncaught:
            self.counts["uncaught"] += 1
        if self.k["residue"] and sim.scheduler_alive and self.drained:
            self.residue()
        self.counts["events"] = len(sim.log)

    def graph_values(self):
        """results of graphs and calls against an independent evaluation"""
        for c in self.sim.clients:
            if c.evil:
                continue
            for t in c.tasks.values():
                for r in t.results:
                    if r.status in (TaskStatus.Success, TaskStatus.Failed):
                        self.counts["results_compared"] += 1
                        if self.counts["stray_gone"] and r.status == TaskStatus.Failed and r.result[:1] == b"\x80":
                            continue  # the stray "function is gone" reached the worker running it
                        if (r.status, r.result) != t.expected()[:2]:
                            want = t.expected()[:2]
                            self.violations.append(V("C02", "wrong-result", f"task got {r.status} {r.result[:10]!r}, its function and arguments give {want[0]} {want[1][:10]!r}"))
                            self.violations.append(V("C01" if want[0] == TaskStatus.Success else "C03", "wrong-result", f"task got {r.status} {len(r.result)} bytes, its function and arguments give {want[0]} {len(want[1])} bytes"))
            for g in c.graphs.values():
                if not g.results:
                    continue
                r = g.results[0]
                values = g.evaluate()
                failed = {v for v in values.values() if v[0] != TaskStatus.Success}
                self.counts["graphs_compared"] += 1
                if r.status == TaskStatus.Success:
                    want = [values.get(t, (None, None)) for t in g.message.targets]
                    if failed or [w[1] for w in want] != list(r.results):
                        self.violations.append(V("C07", "graph-value", f"graph result differs from evaluating the graph locally"))
                        self.violations.append(V("C06", "graph-value", f"graph result differs from evaluating the graph locally"))
                elif r.status == TaskStatus.Failed:
                    if not failed or any((TaskStatus.Failed, x) not in failed for x in r.results):
                        self.violations.append(V("C08", "graph-failure", "graph failed with a failure no node of it produces"))

    def residue_meanwhile(self):
        """nothing of calls answered a while ago, nor of clients all of whose calls were, is held while others still run"""
        sim = self.sim
        if not sim.scheduler_alive:
            return
        answered, now = {}, sim.clock.now
        for ev in sim.log:
            if ev.kind == "crecv" and isinstance(ev.msg, TaskResult):
                answered.setdefault(ev.msg.task_id, ev.t)
            elif ev.kind == "crecv" and isinstance(ev.msg, TaskEcho) and ev.msg.status == TaskEchoStatus.NoWorker:
                answered.setdefault(ev.msg.task_id, ev.t)
        wanted, used = {}, set()
        for c in sim.clients:
            if c.gone:
                continue
            busy = False
            for t in c.tasks.values():
                if answered.get(t.task_id, now) > now - 3.0:
                    busy = True
                    used.update(t.args)
                    used.add(t.task_id)
                    continue
                wanted[t.task_id] = "task id"
                for a in t.args:
                    if len(a) > 8 and a != b"\0" * 16:
                        wanted[a] = "argument"
                for r in t.results:
                    if len(r.result) > 8:
                        wanted[r.result] = "result"
            for g in c.graphs.values():
                busy = True
                for fn, args in g.nodes.values():
                    used.update(a.data for a in args)
                used.update(v[1] for v in g.evaluate().values())
            used.update(compute(t.function[2], t.args)[1] for t in c.tasks.values() if t.task_id in used)
            if c.tasks and not busy:
                wanted[c.identity] = "client"
        wanted = {k: v for k, v in wanted.items() if k not in used}
        if not wanted:
            return
        from vlib.simcore import FakeContext, FakeSocket, Net, Link
        self.counts["residue_walks_meanwhile"] += 1
        self.counts["residue_ids_meanwhile"] += len(wanted)
        for path, what in residue.find(sim.scheduler, wanted, (Sim, FakeContext, FakeSocket, Net, Link))[:20]:
            self.violations.append(V("C20", f"scheduler-{what}-meanwhile", f"scheduler still holds a {what} answered more than 3s ago at {path}", len(sim.log), now))

    def residue(self):
        sim = self.sim
        wanted = {}
        for c in sim.clients:
            for t in c.tasks.values():
                wanted[t.task_id] = "task id"
                for a in t.args:
                    if len(a) > 8 and a != b"\0" * 16:
                        wanted[a] = "argument"
                for r in t.results:
                    if len(r.result) > 8:
                        wanted[r.result] = "result"
            for g in c.graphs.values():
                wanted[g.graph_id] = "graph id"
                for nid, (fn, args) in g.nodes.items():
                    wanted[nid] = "node id"
                    for a in args:
                        if a.type == ArgumentType.Data and len(a.data) > 8:
                            wanted[a.data] = "argument"
                for v in g.evaluate().values():
                    wanted[v[1]] = "result"
        from vlib.simcore import FakeContext, FakeSocket, Net, Link
        stop = (Sim, FakeContext, FakeSocket, Net, Link)
        self.counts["residue_walks"] += 1
        self.counts["residue_ids"] += len(wanted)
        for path, what in residue.find(sim.scheduler, wanted, stop)[:20]:
            self.violations.append(V("C20", f"scheduler-{what}", f"scheduler still holds a finished {what} at {path}"))
        for a in sim.agents:
            if a.alive:
                self.counts["residue_agents"] += 1
                for path, what in residue.find(a.worker, wanted, stop)[:20]:
                    self.violations.append(V("C20", f"agent-{what}", f"worker agent still holds a finished {what} at {path}"))
        status = getattr(self.model, "last_status", None)
        if status is not None:
            tm = status.get("task_manager", {})
            if tm.get("unassigned") or tm.get("running") or status.get("client_manager") or status.get("function_manager"):
                self.violations.append(V("C20", "status", f"after everything ended the status shows {tm} {status.get('client_manager')} {status.get('function_manager')}"))
            for w in status.get("worker_manager", []):
                if w.get("sent") or w.get("free") != sim.config["per_worker_queue_size"]:
                    self.violations.append(V("C20", "status-slots", f"after everything ended worker shows sent={w.get('sent')} free={w.get('free')}"))
