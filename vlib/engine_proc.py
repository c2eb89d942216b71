"""A real Processor process driven over its ipc socket the way an agent does, with the function cache under pressure."""
import hashlib
import logging
import os
import pickle
import random
import sys
import threading
import time
import uuid
from collections import Counter

import cloudpickle
import zmq

from scaled.protocol.python.message import (PROTOCOL, Argument, ArgumentType, FunctionRequest, FunctionRequestType, FunctionResponse,
                                            FunctionResponseType, MessageType, Task, TaskResult, TaskStatus)
from scaled.protocol.python.serializer.default import DefaultSerializer
from scaled.utility.zmq_config import ZMQConfig, ZMQType
from scaled.worker.agent.processor.processor import Processor

from vlib import zoo
from vlib.case import Case

PATIENCE = 40.0


class WatchedProcessor(Processor):
    """the real Processor, its cleaning thread sped up and its threads delayed at drawn lines"""

    def __init__(self, *args, options=None, **kw):
        super().__init__(*args, **kw)
        self.options = options or {}

    def run(self):
        logging.disable(logging.CRITICAL)
        import scaled.worker.agent.processor.cache_cleaner as cc

        if self.options.get("interval") is not None and hasattr(cc, "CLEANUP_INTERVAL_SECONDS"):
            cc.CLEANUP_INTERVAL_SECONDS = self.options["interval"]
        seed = self.options.get("perturb")
        errors = self.options.get("errors")
        if errors:
            def hook(a):
                with open(errors, "a") as f:
                    f.write(f"{a.exc_type.__name__}: {a.exc_value} in {type(a.thread).__name__}\n")

            threading.excepthook = hook
        if seed is not None:
            from vlib.engine_client import Perturb

            p = Perturb(random.Random(seed), seed)
            p.length = min(p.length, 0.01)
            p.install()
        sys.setswitchinterval(self.options.get("switch", 0.005))
        super().run()


class Agent:
    """what stands in for the worker agent"""

    def __init__(self, case, rng, seed, retention=60.0, serializer=None, options=None):
        self.case, self.rng = case, rng
        scratch = os.environ.get("VERIF_SCRATCH") or "/tmp"
        self.path = os.path.join(scratch, f"p{uuid.uuid4().hex[:12]}")
        self.errors = self.path + ".errors"
        self.context = zmq.Context()
        self.socket = self.context.socket(zmq.PAIR)
        self.socket.setsockopt(zmq.LINGER, 0)
        address = ZMQConfig(ZMQType.ipc, host=self.path)
        self.socket.bind(address.to_address())
        self.serializer = serializer or DefaultSerializer()
        self.functions = {}  # id -> content
        self.frames = []
        self.requests = Counter()
        self.processor = WatchedProcessor(
            event_loop="builtin", address=address, garbage_collect_interval_seconds=rng.choice([0, 1, 30]), trim_memory_threshold_bytes=rng.choice([0, 10 ** 12]),
            function_retention_seconds=retention, serializer=self.serializer, options=dict(options or {}, errors=self.errors))
        self.processor.start()
        m = self.receive()
        self.ready = isinstance(m, TaskResult) and m.task_id == b""
        if not self.ready:
            case.bad("C03", "not-ready", f"processor does not announce itself: {m!r:.200}")

    def send(self, message):
        self.frames.append(("to", type(message).__name__, getattr(message, "task_id", b"")))
        self.socket.send_multipart([PROTOCOL.inverse[type(message)].value, *message.serialize()])

    def receive(self, timeout=PATIENCE):
        limit = time.monotonic() + timeout
        while time.monotonic() < limit:
            if self.socket.poll(200):
                kind, *payload = self.socket.recv_multipart()
                m = PROTOCOL[MessageType(kind)].deserialize(payload)
                self.frames.append(("from", type(m).__name__, getattr(m, "status", "")))
                return m
            if not self.processor.is_alive():
                return None
        return None

    def register(self, f):
        content = self.serializer.serialize_function(f)
        fid = hashlib.md5(content).digest()
        self.functions[fid] = content
        return fid

    def task(self, fid, args):
        return Task(uuid.uuid4().bytes, fid, [Argument(ArgumentType.Data, self.serializer.serialize_argument(a)) for a in args])

    def run(self, task, prop, what, between=None):
        """send a task, serve its function, return its one result"""
        self.send(task)
        asked = 0
        while True:
            m = self.receive()
            if m is None:
                state = "alive" if self.processor.is_alive() else f"ended with {self.processor.exitcode}"
                self.case.bad(prop, "no-result", f"{what}: no result within {PATIENCE:.0f}s, processor {state}")
                return None
            if isinstance(m, FunctionRequest):
                if m.type != FunctionRequestType.Request or m.function_id != task.function_id:
                    self.case.bad(prop, "odd-request", f"{what}: asked for {m!r:.200}")
                    return None
                asked += 1
                self.requests[m.function_id] += 1
                if asked > 1:
                    self.case.bad(prop, "asked-again", f"{what}: function asked for {asked} times for one task")
                if between:
                    between()
                self.send(FunctionResponse(FunctionResponseType.OK, m.function_id, b"name", self.functions[m.function_id]))
                continue
            if not isinstance(m, TaskResult) or m.task_id != task.task_id:
                self.case.bad(prop, "odd-message", f"{what}: processor sent {m!r:.200}")
                return None
            self.case.counts["tasks_run"] += 1
            return m

    def quiet(self, prop):
        if self.socket.poll(30):
            m = self.receive(1)
            self.case.bad(prop, "extra-message", f"processor sent a message nobody waits for: {m!r:.200}")

    def close(self, prop):
        if not self.processor.is_alive():
            self.case.bad(prop, "processor-died", f"processor ended with {self.processor.exitcode}")
        if os.path.exists(self.errors):
            self.case.bad(prop, "thread-error", open(self.errors).read()[:400])
            os.unlink(self.errors)
        self.processor.kill()
        self.processor.join()
        self.socket.close()
        self.context.term()
        if os.path.exists(self.path):
            os.unlink(self.path)
        self.case.signature = hashlib.sha256(repr([(a, b, str(c)) if a == "from" else (a, b) for a, b, c in self.frames]).encode()).hexdigest()[:16]
        self.case.log = [f"{a} {b} {c if not isinstance(c, bytes) else c.hex()[:8]}" for a, b, c in self.frames[-300:]]
        self.case.counts["frames"] += len(self.frames)


def decode(m):
    try:
        return pickle.loads(m.result)
    except BaseException as e:
        return e


def p_values(case, rng, seed):
    """C01: each task runs its own function on its own arguments"""
    a = Agent(case, rng, seed)
    fs = [(a.register(f), f) for f in zoo.functions(rng, 20)]
    calls = zoo.Calls(rng)
    for i in range(60):
        fid, f = rng.choice(fs)
        args = calls.arguments()
        want = calls.answer(f, args)
        m = a.run(a.task(fid, args), "C01", f"task {i}")
        if m is None:
            break
        got = decode(m)
        if m.status != TaskStatus.Success or not zoo.same(got, want):
            case.bad("C01", "wrong-result", f"task {i}: {m.status.name} {got!r:.200}, expected {want!r:.200}")
        if not m.duration >= 0:
            case.bad("C01", "duration", f"duration {m.duration}")
        case.counts["values_checked"] += 1
    a.quiet("C01")
    a.close("C01")


def p_errors(case, rng, seed):
    """C03: failures are answered and leave the processor serving"""
    a = Agent(case, rng, seed)
    for i in range(40):
        if rng.random() < 0.65:
            f, args, want = zoo.failing(rng, i) if rng.random() < 0.85 else zoo.script_failing(rng, i)
            try:
                task = a.task(a.register(f), args)
            except Exception:
                continue
            m = a.run(task, "C03", f"failing task {i} {f!r:.80}")
            if m is None:
                break
            case.counts["failures_checked"] += 1
            got = decode(m)
            if m.status == TaskStatus.Success and not isinstance(got, BaseException):
                case.bad("C03", "no-failure", f"failing task {i} {f!r:.80} reported success {got!r:.100}")
            elif m.status not in (TaskStatus.Failed, TaskStatus.Success):
                case.bad("C03", "wrong-failure", f"failing task {i} reported {m.status.name}")
            elif want[0] == "same":
                e = want[1]
                if m.status != TaskStatus.Failed or type(got) is not type(e) or not (got.args == e.args or repr(got) == repr(e)):
                    case.bad("C03", "wrong-failure", f"failing task {i} raised {e!r:.200}, reported {got!r:.200}")
                elif zoo.untraced(got, want):
                    case.bad("C03", "no-traceback", f"failing task {i}: {zoo.untraced(got, want)}")
            elif m.status == TaskStatus.Failed and not isinstance(got, BaseException):
                case.bad("C03", "wrong-failure", f"failing task {i}: failure payload is {got!r:.100}")
        else:
            f = zoo.closure(i)
            m = a.run(a.task(a.register(f), (i,)), "C03", f"good task {i}")
            if m is None:
                break
            if m.status != TaskStatus.Success or decode(m) != f(i):
                case.bad("C03", "wrong-result", f"good task {i} among failing ones: {m.status.name} {decode(m)!r:.200}")
    a.quiet("C03")
    a.close("C03")


def p_evict(case, rng, seed):
    """C29: eviction by time and by order, at any moment"""
    retention = rng.choice([0.0, 0.0, 0.003, 0.02, 0.1, 60.0])
    options = dict(interval=rng.choice([0.0005, 0.002, 0.01]), switch=rng.choice([1e-6, 1e-4, 0.005]), perturb=seed if rng.random() < 0.5 else None)
    a = Agent(case, rng, seed, retention=retention, options=options)
    log = a.path + ".log"
    fs = []
    for i in range(rng.choice([1, 2, 4])):
        f = zoo.by_value(f"def f(*v):\n    with open({log!r}, 'a') as out:\n        out.write('{i} ' + v[0] + chr(10))\n    return ({i}, v)", "f")
        fs.append((a.register(f), f, i))
    expected = []
    prev_asked = Counter()

    def meddle(p=0.4):
        while rng.random() < p:
            fid, _, _ = rng.choice(fs)
            r = rng.random()
            if r < 0.6:
                a.send(FunctionRequest(FunctionRequestType.Delete, fid, b"", b""))
                case.counts["deletes"] += 1
            elif r < 0.8:
                a.send(FunctionRequest(FunctionRequestType.Delete, rng.randbytes(16), b"", b""))
            else:
                time.sleep(rng.choice([0.001, 0.005]))

    def late():
        meddle(0.3)

    for i in range(150):
        meddle()
        if rng.random() < 0.05:
            f = zoo.by_value(f"def f(*v):\n    return ('new', {i}, v)", "f")
            fid = a.register(f)
            m = a.run(a.task(fid, ("x",)), "C29", f"new function {i}", late)
            if m is None:
                break
            if m.status != TaskStatus.Success or decode(m) != ("new", i, ("x",)):
                case.bad("C29", "wrong-result", f"new function {i}: {m.status.name} {decode(m)!r:.200}")
            continue
        fid, f, k = rng.choice(fs)
        tag = f"t{i}"
        before = a.requests[fid]
        m = a.run(a.task(fid, (tag,)), "C29", f"task {i}", late)
        if m is None:
            break
        expected.append(f"{k} {tag}")
        if m.status != TaskStatus.Success or decode(m) != (k, (tag,)):
            case.bad("C29", "wrong-result", f"task {i}: {m.status.name} {decode(m)!r:.200}, expected {(k, (tag,))}")
        if before and a.requests[fid] > before:
            case.counts["fetched_again"] += 1
        elif before:
            case.counts["served_from_cache"] += 1
        # late, repeated and unasked answers change nothing
        if rng.random() < 0.15:
            other, _, _ = rng.choice(fs)
            a.send(FunctionResponse(FunctionResponseType.OK, other, b"", a.functions[other]))
            case.counts["late_replies"] += 1
    if not case.violations:
        # idle functions go, and keep going
        if retention <= 0.1:
            for fid, f, k in fs:
                for attempt in range(2):
                    limit = time.monotonic() + 20
                    gone = False
                    while time.monotonic() < limit and not gone:
                        time.sleep(retention + options["interval"] * 3 + 0.02)
                        before = a.requests[fid]
                        m = a.run(a.task(fid, ("idle",)), "C29", "task after idling")
                        if m is None:
                            break
                        expected.append(f"{k} idle")
                        gone = a.requests[fid] > before
                    case.counts["idle_evictions"] += gone
                    if not gone and not case.violations:
                        case.bad("C29", "never-evicted", f"a function idle beyond the retention of {retention}s is still cached after 20s of checks")
                    if case.violations:
                        break
        # ordered out: must be fetched again
        fid, f, k = rng.choice(fs)
        if not case.violations:
            a.send(FunctionRequest(FunctionRequestType.Delete, fid, b"", b""))
            before = a.requests[fid]
            m = a.run(a.task(fid, ("deleted",)), "C29", "task after deletion")
            expected.append(f"{k} deleted")
            if m is not None and a.requests[fid] == before:
                case.bad("C29", "not-deleted", "a function the scheduler ordered out was still used")
    if not case.violations:
        got = open(log).read().split("\n")[:-1] if os.path.exists(log) else []
        if got != expected:
            case.bad("C29", "run-times", f"{len(expected)} tasks sent, functions ran {len(got)} times; first difference "
                                         f"{next(((x, y) for x, y in zip(got + [None] * 9, expected + [None] * 9) if x != y), None)}")
    a.quiet("C29")
    if os.path.exists(log):
        os.unlink(log)
    a.close("C29")


def p_orders(case, rng, seed):
    """C21, the processor's side: each task runs once and in order, whatever replies arrive late, twice, unasked or never"""
    a = Agent(case, rng, seed, options=dict(switch=rng.choice([1e-6, 1e-4, 0.005]), perturb=seed if rng.random() < 0.5 else None))
    log = a.path + ".log"
    fs = []
    for i in range(rng.choice([1, 2, 3])):
        f = zoo.by_value(f"def f(tag, pause):\n    import time\n    with open({log!r}, 'a') as out:\n        out.write('+{i} ' + tag + chr(10))\n"
                         f"    time.sleep(pause)\n    with open({log!r}, 'a') as out:\n        out.write('-{i} ' + tag + chr(10))\n    return ({i}, tag)", "f")
        fs.append((a.register(f), i))
    expected = []
    given_up = None  # the agent passes no reply on for a task it gave up

    def reply(fid):
        a.send(FunctionResponse(FunctionResponseType.OK, fid, b"f", a.functions[fid]))

    def spare(p):
        while rng.random() < p:
            fid, _ = rng.choice(fs)
            r = rng.random()
            if r < 0.5 and fid != given_up:
                case.counts["late_replies"] += 1
                reply(fid)
            elif r < 0.7:
                a.send(FunctionRequest(FunctionRequestType.Delete, fid, b"", b""))
            else:
                time.sleep(rng.choice([0.001, 0.004]))

    for i in range(60):
        fid, k = rng.choice(fs)
        tag = f"t{i}"
        twice = rng.random() < 0.4
        a.send(a_task := a.task(fid, (tag, rng.choice([0, 0, 0.002, 0.01]))))
        m = a.receive() if not case.violations else None
        if isinstance(m, FunctionRequest):
            if rng.random() < 0.35:
                # the scheduler has no such function: the worker reports this task itself and goes on with the next one
                case.counts["given_up"] += 1
                given_up = fid
                continue
            given_up = None
            if m.function_id != fid:
                case.bad("C21", "odd-request", f"{tag}: asked for a function the task does not use")
                break
            others = [o for o, _ in fs if o != fid]
            if others and rng.random() < 0.3:
                reply(rng.choice(others))
            reply(fid)
            if twice:
                case.counts["replies_twice"] += 1
                reply(fid)
            m = a.receive()
        if m is None:
            case.bad("C21", "no-result", f"{tag}: neither a result nor a request, processor {'alive' if a.processor.is_alive() else 'dead'}")
            break
        if not isinstance(m, TaskResult) or m.task_id != a_task.task_id:
            case.bad("C21", "odd-message", f"{tag}: processor sent {m!r:.200}")
            break
        if m.status != TaskStatus.Success or decode(m) != (k, tag):
            case.bad("C21", "wrong-result", f"{tag}: {m.status.name} {decode(m)!r:.200}")
        case.counts["tasks_run"] += 1
        expected += [f"+{k} {tag}", f"-{k} {tag}"]
        spare(0.3)
    if not case.violations:
        # a task of a function nobody had: everything before it is done when it is answered
        f = zoo.by_value("def last():\n    return 'last'", "last")
        m = a.run(a.task(a.register(f), ()), "C21", "last task")
        if m is not None and decode(m) != "last":
            case.bad("C21", "wrong-result", f"last task: {decode(m)!r:.200}")
        got = open(log).read().split("\n")[:-1] if os.path.exists(log) else []
        if got != expected:
            case.bad("C21", "run-times", f"{len(expected) // 2} tasks were answered, {sum(g[0] == '+' for g in got)} runs began; first difference "
                                         f"{next(((x, y) for x, y in zip(got + [None] * 9, expected + [None] * 9) if x != y), None)}")
        a.quiet("C21")
    if os.path.exists(log):
        os.unlink(log)
    a.close("C21")


# ------------------------------------------------------------------------------------------------ C31
class FileTagSerializer:
    """tags every payload and records every operation in a file all processes append to"""

    def __init__(self, path):
        self.path = path

    def _note(self, text):
        fd = os.open(self.path, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
        try:
            os.write(fd, (text + "\n").encode())
        finally:
            os.close(fd)

    def _dump(self, kind, value):
        from vlib.engine_client import Guarded, uid_of

        Guarded.allowed.on = True
        try:
            body = cloudpickle.dumps(value)
        finally:
            Guarded.allowed.on = False
        nonce = uuid.uuid4().hex
        self._note(f"dump {kind} {nonce} {uid_of(value)!r}")
        return f"{kind}:{nonce}:".encode() + bytes(255 - b for b in body)

    def _load(self, kinds, payload):
        payload = bytes(payload)
        head = payload[:34]
        kind, nonce = chr(head[0]) if head else "-", head[2:34].decode("ascii", "replace")
        value = pickle.loads(bytes(255 - b for b in payload[35:]))
        from vlib.engine_client import uid_of

        self._note(f"load {kinds}{kind} {nonce} {uid_of(value)!r}")
        return value

    def serialize_function(self, fn):
        return self._dump("F", fn)

    def deserialize_function(self, payload):
        return self._load("F", payload)

    def serialize_argument(self, arg):
        return self._dump("A", arg)

    def deserialize_argument(self, payload):
        return self._load("A", payload)

    def serialize_result(self, result):
        return self._dump("R", result)

    def deserialize_result(self, payload):
        return self._load("R", payload)

    def read(self):
        if not os.path.exists(self.path):
            return []
        return [line.split(" ", 3) for line in open(self.path).read().splitlines()]


def p_serializer(case, rng, seed):
    """C31, the processor's side"""
    from vlib.engine_client import GuardedFunction, some_value

    scratch = os.environ.get("VERIF_SCRATCH") or "/tmp"
    path = os.path.join(scratch, f"ops{uuid.uuid4().hex[:8]}")
    s = FileTagSerializer(path)
    a = Agent(case, rng, seed, serializer=s)
    fs = [GuardedFunction(f"f{i}") for i in range(3)] + [GuardedFunction("plain")]
    fids = [a.register(f) for f in fs]
    n = 0
    for i in range(40):
        k = rng.randrange(4)
        args = [some_value(rng, f"a{i}-{j}") for j in range(rng.randrange(4))]
        before = len(s.read()) + len(args)
        asked = a.requests[fids[k]]
        m = a.run(a.task(fids[k], args), "C31", f"task {i}")
        if m is None:
            break
        ops = [(x[0], x[1]) for x in s.read()[before:]]
        want = [("load", "AA")] * len(args) + [("dump", "R")]
        if a.requests[fids[k]] > asked:
            want = [("load", "FF")] + want
        case.counts["guarded_values"] += len(want)
        if m.status != TaskStatus.Success:
            case.bad("C31", "foreign-payload", f"task {i}: {decode(m)!r:.300}")
        elif ops != want:
            case.bad("C31", "operations", f"processing a task did {ops}, expected {want}")
        elif not m.result.startswith(b"R:") or s._load("R", m.result) != fs[k](*args):
            case.bad("C31", "foreign-payload", f"result on the wire is not the serializer's: {m.result[:60]!r}")
        if rng.random() < 0.2:
            a.send(FunctionRequest(FunctionRequestType.Delete, fids[k], b"", b""))
            a.requests[fids[k]] += 0
    a.close("C31")
    if os.path.exists(path):
        os.unlink(path)


PROFILES = {n[2:]: f for n, f in globals().items() if n.startswith("p_")}


def run_case(prop, profile, seed):
    case = Case()
    PROFILES[profile](case, random.Random(f"{profile}-{seed}"), seed)
    case.sample = {"profile": profile, "seed": str(seed), "observed": dict(case.counts)}
    return case
