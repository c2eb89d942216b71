"""Hostile peers: everything a broken, stale or malicious process can put on the scheduler's socket under its own name.

They only ever name objects of their own or objects that do not exist (or work that is already over), so whatever they do,
well-behaved peers must be served as if they were not there.
"""
from scaled.protocol.python.message import (
    Argument, ArgumentType, BalanceRequest, BalanceResponse, DisconnectRequest, FunctionRequest, FunctionRequestType,
    FunctionResponse, FunctionResponseType, GraphTask, GraphTaskCancel, GraphTaskResult, Heartbeat, HeartbeatEcho,
    MessageType, Task, TaskCancel, TaskEcho, TaskEchoStatus, TaskResult, TaskStatus,
)
from vlib.sim import ADDRESS, make_function
from vlib.simcore import Undecodable, decode, encode


class Evil:
    def __init__(self, run, sim, rng, horizon):
        self.run, self.sim, self.rng = run, sim, rng
        self.identities = []
        self.links = []
        for _ in range(rng.randint(1, 2)):
            self._link()
        self.functions = [make_function(rng, rng.choice([b"evil", b"\xff\xfe", b"", b"fn"]), "ok", 0.02) for _ in range(2)]
        self.sim.evil_functions = getattr(sim, "evil_functions", set()) | {f[0] for f in self.functions}
        self.tasks, self.graphs = [], []
        self.got = []
        kinds = [n[3:] for n in dir(self) if n.startswith("do_")] + ["name_taken"] * 4 + ["graph_node_again"] * 2
        for _ in range(rng.randint(3, 25)):
            run.at(rng.uniform(0.05, horizon), self._act, rng.choice(kinds))

    def _link(self):
        identity = self.rng.choice([
            b"%d|evil|%s" % (len(self.sim.evil_identities), self.sim.id_rng.randbytes(5).hex().encode()),
            b"\xff\xfe\x80" + self.sim.id_rng.randbytes(6), self.sim.id_rng.randbytes(5), b"W" * self.rng.choice([6, 200]) + self.sim.id_rng.randbytes(4)])
        self.sim.evil_identities.add(identity)
        self.links.append(self.sim.net.connect(ADDRESS.to_address(), identity, self, self.sim.random_delay()))

    def deliver(self, frames):
        self.got.append(frames)
        msg = decode(frames)
        if isinstance(msg, Task) and self.rng.random() < 0.5:
            # handed work as if it were a worker: answers with a state that ends nothing
            self._send(TaskResult(msg.task_id, self.rng.choice([TaskStatus.Running, TaskStatus.Inactive]), 0.0, b"junk"))

    def _act(self, kind):
        self.run.counts["evil_" + kind] += 1
        getattr(self, "do_" + kind)()

    def _send(self, msg):
        self._raw(encode(msg))

    def _raw(self, frames):
        self._claim(frames)
        self.run.counts["evil_sent"] += 1
        self.rng.choice(self.links).send_up(list(frames))

    def _claim(self, frames):
        """whatever the frames turn out to name as new work is the hostile peer's own"""
        msg = decode(frames) if frames else None
        if isinstance(msg, Task):
            self.sim.evil_task_ids.add(msg.task_id)
        elif isinstance(msg, GraphTask):
            self.sim.evil_task_ids.add(msg.task_id)
            for n in msg.graph:
                self.sim.evil_task_ids.add(n.task_id)

    def new_id(self):
        tid = self.rng.choice([self.sim.id_rng.randbytes(16), self.sim.id_rng.randbytes(16), self.sim.id_rng.randbytes(3), self.sim.id_rng.randbytes(40)])
        self.sim.evil_task_ids.add(tid)
        return tid

    def some_id(self):
        pool = self.tasks + self.graphs
        return self.rng.choice(pool) if pool and self.rng.random() < 0.5 else self.new_id()

    def some_function(self):
        return self.rng.choice(self.functions)

    # ---- well-formed but wrong
    def do_add(self):
        self._send(FunctionRequest(FunctionRequestType.Add, *self.some_function()))

    def do_unknown_function(self):
        t = self.rng.choice(list(FunctionRequestType))
        self._send(FunctionRequest(t if t != FunctionRequestType.Add else FunctionRequestType.Check, self.sim.id_rng.randbytes(16), b"", b""))

    def do_delete_function(self):
        # one in use has to be refused; one that is not is sent again by whoever needs it
        self._send(FunctionRequest(FunctionRequestType.Delete, self.rng.choice(self.run.functions + self.functions)[0], b"", b""))

    def do_task(self):
        f = self.some_function()
        if self.rng.random() < 0.6:
            self._send(FunctionRequest(FunctionRequestType.Add, *f))
        task = Task(self.some_id(), f[0], [Argument(ArgumentType.Data, self.rng.randbytes(5))])
        self.tasks.append(task.task_id)
        for _ in range(self.rng.choice([1, 1, 2, 3])):
            self._send(task)

    def do_task_unknown_function(self):
        tid = self.new_id()
        self.tasks.append(tid)
        self._send(Task(tid, self.sim.id_rng.randbytes(16), []))

    def do_task_with_task_argument(self):
        f = self.some_function()
        self._send(FunctionRequest(FunctionRequestType.Add, *f))
        tid = self.new_id()
        self._send(Task(tid, f[0], [Argument(ArgumentType.Task, self.some_id())]))

    def do_cancel(self):
        tid = self.some_id()
        for _ in range(self.rng.choice([1, 2])):
            self._send(TaskCancel(tid))

    def do_graph_cancel(self):
        tid = self.some_id()
        for _ in range(self.rng.choice([1, 2])):
            self._send(GraphTaskCancel(tid))

    def do_disconnect_unknown(self):
        self._send(DisconnectRequest(self.rng.choice([b"nobody", b"", b"\xff", self.sim.id_rng.randbytes(300)])))

    def do_disconnect_client(self):
        # a client's own identity is no worker's
        c = self.rng.choice(self.sim.clients)
        self._send(DisconnectRequest(c.identity))

    def do_heartbeat(self):
        rng = self.rng
        self._send(Heartbeat(rng.choice([0.0, 1.0, 655.0]), rng.getrandbits(40), rng.random(), rng.getrandbits(62), rng.choice([0, 3, 70000]), rng.choice([0, 10 ** 6]),
                             rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5))

    def do_result_unknown(self):
        self._send(TaskResult(self.new_id(), self.rng.choice(list(TaskStatus)), 0.5, self.rng.randbytes(10)))

    def do_result_stale(self):
        done = [(t, r) for c in self.sim.clients if not c.evil for t in c.tasks.values() for r in t.results]
        if done:
            t, r = self.rng.choice(done)
            self._send(TaskResult(t.task_id, self.rng.choice(list(TaskStatus)), 0.5, self.rng.choice([r.result, b"other"])))

    def do_balance_response(self):
        self._send(BalanceResponse([self.new_id() for _ in range(self.rng.randint(0, 5))]))

    def do_balance_stale(self):
        done = [t.task_id for c in self.sim.clients if not c.evil for t in c.tasks.values() if t.results]
        if done:
            self._send(BalanceResponse([self.rng.choice(done) for _ in range(3)]))

    def do_cancel_stale(self):
        done = [t.task_id for c in self.sim.clients if not c.evil for t in c.tasks.values() if t.results]
        if done:
            self._send(TaskCancel(self.rng.choice(done)))

    def do_cancel_graph_stale(self):
        done = [g.graph_id for c in self.sim.clients if not c.evil for g in c.graphs.values() if g.results]
        if done:
            self._send(GraphTaskCancel(self.rng.choice(done)))

    def do_wrong_direction(self):
        f = self.some_function()
        self._send(self.rng.choice([
            HeartbeatEcho(), BalanceRequest(3), FunctionResponse(FunctionResponseType.OK, *f), TaskEcho(self.new_id(), TaskEchoStatus.SubmitOK),
            GraphTaskResult(self.new_id(), TaskStatus.Success, [b"1", b"2"])]))

    # ---- graphs
    def _graph(self, nodes, targets, functions=None, gid=None):
        gid = gid or self.new_id()
        self.graphs.append(gid)
        self.tasks += [n.task_id for n in nodes][:3]
        fs = functions if functions is not None else {f[0]: (f[1], f[2]) for f in self.functions}
        self._send(GraphTask(gid, fs, targets, nodes))

    def do_graph_ok(self):
        f = self.some_function()
        a, b = self.new_id(), self.new_id()
        nodes = [Task(a, f[0], []), Task(b, f[0], [Argument(ArgumentType.Task, a)])]
        gid = self.new_id()
        self._graph(nodes, [b], gid=gid)
        if self.rng.random() < 0.5:
            self._graph(nodes, [b], gid=gid)  # duplicate while the first may run
        if self.rng.random() < 0.3:
            self._graph(nodes, [b])  # same nodes, another graph
        if self.rng.random() < 0.3:
            self._send(GraphTaskCancel(gid))

    def do_graph_cycle(self):
        f = self.some_function()
        a, b, c = self.new_id(), self.new_id(), self.new_id()
        self._graph([Task(a, f[0], []), Task(b, f[0], [Argument(ArgumentType.Task, c)]), Task(c, f[0], [Argument(ArgumentType.Task, b)])], [c])

    def do_graph_self(self):
        f = self.some_function()
        a = self.new_id()
        self._graph([Task(a, f[0], [Argument(ArgumentType.Task, a)])], [a])

    def do_graph_unknown_argument(self):
        f = self.some_function()
        a = self.new_id()
        self._graph([Task(a, f[0], [Argument(ArgumentType.Task, self.new_id())])], [a])

    def do_graph_unknown_target(self):
        f = self.some_function()
        a = self.new_id()
        self._graph([Task(a, f[0], [])], [self.new_id(), a][: self.rng.randint(1, 2)])

    def do_graph_no_function(self):
        a = self.new_id()
        self._graph([Task(a, self.sim.id_rng.randbytes(16), [])], [a], {})

    def do_graph_empty(self):
        self._graph([], [], self.rng.choice([None, {}]))

    def do_graph_duplicate_nodes(self):
        f = self.some_function()
        a = self.new_id()
        self._graph([Task(a, f[0], []), Task(a, f[0], [])], [a, a])

    def do_graph_node_is_graph(self):
        f = self.some_function()
        a = self.new_id()
        self._graph([Task(a, f[0], [])], [a], gid=a)

    def do_graph_node_is_task(self):
        f = self.some_function()
        self._send(FunctionRequest(FunctionRequestType.Add, *f))
        a = self.new_id()
        self._send(Task(a, f[0], []))
        self._graph([Task(a, f[0], [])], [a])

    def do_graph_node_again(self):
        """a task under the name of a node that waits for a slow one"""
        slow = make_function(self.rng, b"evil-slow", "ok", 2.0)
        self.sim.evil_functions.add(slow[0])
        a, b, c = self.new_id(), self.new_id(), self.new_id()
        nodes = [Task(a, slow[0], []), Task(b, slow[0], [Argument(ArgumentType.Task, a)]), Task(c, slow[0], [Argument(ArgumentType.Task, b)])]
        self._graph(nodes, [c], {slow[0]: slow[1:]})
        for _ in range(self.rng.choice([1, 3])):
            self.run.at(self.sim.clock.now + self.rng.uniform(0, 4), self._send, Task(self.rng.choice([a, b, c]), slow[0], []))

    def do_name_taken(self):
        """a task under the name of somebody else's"""
        f = self.some_function()
        self._send(FunctionRequest(FunctionRequestType.Add, *f))
        names = [t.task_id for c in self.sim.clients if not c.evil for t in c.tasks.values() if t.echoes and not t.results]
        handed = {e.msg.task_id for e in self.sim.log if e.kind == "ssend" and isinstance(e.msg, Task)}
        for c in self.sim.clients:
            if not c.evil:
                for g in c.graphs.values():
                    if not g.results and any(n in handed for n in g.nodes):
                        names += list(g.nodes)
        if names:
            frames = encode(Task(self.rng.choice(names), f[0], [Argument(ArgumentType.Data, b"taken")]))
            self.run.counts["evil_sent"] += 1
            for _ in range(self.rng.choice([1, 2])):
                self.rng.choice(self.links).send_up(list(frames))

    # ---- garbage
    def do_garbage(self):
        rng = self.rng
        self._raw(rng.choice([
            [], [b""], [b"XX"], [b"\xff\xff"], [rng.randbytes(2), rng.randbytes(9)], [b"", b"", b""], [rng.randbytes(3000)],
            [rng.choice(list(MessageType)).value], [rng.choice(list(MessageType)).value, rng.randbytes(rng.randint(0, 20))],
            [rng.choice(list(MessageType)).value, *[rng.randbytes(rng.choice([0, 1, 4, 16])) for _ in range(rng.randint(1, 8))]]]))

    def do_mutated(self):
        rng = self.rng
        f = self.some_function()
        a, b = self.new_id(), self.new_id()
        base = rng.choice([
            Task(a, f[0], [Argument(ArgumentType.Data, b"abc")]), TaskCancel(a), TaskResult(a, TaskStatus.Success, 1.0, b"r"),
            GraphTask(a, {f[0]: (f[1], f[2])}, [b], [Task(b, f[0], [])]), GraphTaskCancel(a), BalanceResponse([a, b]),
            FunctionRequest(rng.choice([FunctionRequestType.Check, FunctionRequestType.Request]), f[0], b"", b""),
            Heartbeat(1.0, 2, 3.0, 4, 5, 6, True, False, True), DisconnectRequest(b"who")])
        frames = encode(base)
        for _ in range(rng.choice([1, 1, 2, 4])):
            kind = rng.choice(["drop", "cut", "flip", "dup", "empty", "swap"])
            i = rng.randrange(len(frames)) if frames else 0
            if not frames:
                break
            if kind == "drop":
                frames.pop(i)
            elif kind == "cut":
                frames[i] = frames[i][: rng.randint(0, len(frames[i]))]
            elif kind == "flip" and frames[i]:
                x = bytearray(frames[i])
                x[rng.randrange(len(x))] ^= 1 << rng.randrange(8)
                frames[i] = bytes(x)
            elif kind == "dup":
                frames.insert(i, frames[i])
            elif kind == "empty":
                frames[i] = b""
            elif kind == "swap":
                j = rng.randrange(len(frames))
                frames[i], frames[j] = frames[j], frames[i]
        msg = decode(frames) if frames else None
        if isinstance(msg, FunctionRequest) and msg.type in (FunctionRequestType.Add, FunctionRequestType.Delete):
            return
        if isinstance(msg, GraphTask):
            for fid, (name, content) in msg.functions.items():
                if (fid, name, content) not in self.functions:
                    return  # would plant a function whose content the simulated worker cannot run
        if isinstance(msg, Task) and msg.function_id not in {x[0] for x in self.functions} and msg.function_id in {x[0] for x in self.run.functions}:
            return
        self._raw(frames)
