"""Real Clients against a scripted scheduler, in real time, with real threads."""
import concurrent.futures
import gc
import hashlib
import itertools
import logging
import os
import pickle
import random
import sys
import threading
import time
from collections import Counter

from scaled.client import Client
from scaled.io import sync_connector
from scaled.protocol.python.message import Task, GraphTask, TaskCancel, GraphTaskCancel, TaskStatus
from scaled.protocol.python.serializer.default import DefaultSerializer
from scaled.utility.exceptions import ScaledDisconnect

from vlib import residue, zoo
from vlib.case import Case
from vlib.clientlib import Script, Stub

PATIENCE = 30.0
logging.disable(logging.CRITICAL)
REPO = os.path.dirname(os.path.dirname(os.path.abspath(sys.modules["scaled"].__file__)))


class World:
    """one scripted scheduler and some clients, watched"""

    def __init__(self, case, seed, script=None, serializer=None, clients=1, perturb=None):
        self.case, self.rng = case, random.Random(f"client-{seed}")
        self.serializer = serializer or DefaultSerializer()
        self.stub = Stub(seed, self.serializer, script or Script())
        self.stub.start()
        if hasattr(sync_connector, "POLLING_TIME_MILLISECONDS"):
            sync_connector.POLLING_TIME_MILLISECONDS = self.rng.choice([2, 5, 20])
        self.thread_errors = []
        threading.excepthook = lambda a: self.thread_errors.append(f"{a.exc_type.__name__}: {a.exc_value} in {a.thread and a.thread.name}")
        before = set(threading.enumerate())
        self.clients = [Client(self.stub.address, serializer=self.serializer) for _ in range(clients)]
        self.client_threads = [t for t in threading.enumerate() if t not in before]
        self.pending = []  # (future, check, description)
        self.callbacks = Counter()

    def watch(self, future, check, what):
        def done(f, n=len(self.pending)):
            self.callbacks[n] += 1

        n = len(self.pending)
        self.pending.append((future, check, what))
        future.add_done_callback(lambda f: done(f, n))
        return future

    def settle(self, prop, timeout=PATIENCE):
        """wait for every watched future; (future, check, description) not resolved are violations"""
        limit = time.monotonic() + timeout
        for n, (future, check, what) in enumerate(self.pending):
            try:
                future.exception(max(0.001, limit - time.monotonic()))
            except concurrent.futures.CancelledError:
                pass
            except (TimeoutError, concurrent.futures.TimeoutError):
                self.case.bad(prop, "unresolved", f"{what}: future is still pending after {timeout:.0f}s")
                limit = time.monotonic() + 0.5
                continue
            self.case.counts["futures"] += 1
            problem = check(future)
            if problem:
                self.case.bad(prop, problem[0], f"{what}: {problem[1]}")
            for _ in range(100):
                if self.callbacks[n]:
                    break
                time.sleep(0.001)
            if self.callbacks[n] != 1:
                self.case.bad(prop, "resolved-times", f"{what}: future resolved {self.callbacks[n]} times")

    def alive(self, prop):
        dead = [t for t in self.client_threads if not t.is_alive()]
        if dead:
            self.case.bad(prop, "receiver-died", f"the client's receiving thread ended: {self.thread_errors[:2]}")
        elif self.thread_errors:
            self.case.bad(prop, "thread-error", f"{self.thread_errors[:2]}")
        return not dead

    def fence(self, prop, client=None):
        """the client still works"""
        clients = self.clients if client is None else [client]
        for c in clients:
            try:
                f = c.submit(zoo.tag("fence"), 1)
                saved, self.stub.script = self.stub.script, Script()
                got = f.result(PATIENCE)
                self.stub.script = saved
                if got != ("fence", (1,)):
                    self.case.bad(prop, "client-unusable", f"client answers {got!r} afterwards")
                self.case.counts["fences"] += 1
            except Exception as e:
                self.case.bad(prop, "client-unusable", f"client cannot be used afterwards: {e!r}")

    def close(self, prop=None):
        for c in self.clients:
            c.disconnect()
        for t in self.client_threads:
            t.join(5)
        self.stub.stop()
        if self.stub.trouble:
            self.case.bad(prop or "C01", "protocol", self.stub.trouble[0][:500])
        self.case.counts["messages"] += len(self.stub.log)
        h = hashlib.sha256()
        ids = {}
        for _, way, _, m, _ in self.stub.log:
            key = getattr(m, "task_id", None) or getattr(m, "function_id", b"")
            h.update(f"{way}{type(m).__name__}{ids.setdefault(key, len(ids))}{getattr(m, 'status', '')}".encode())
        self.case.signature = h.hexdigest()[:16]
        self.case.log = [f"{t:.4f} {way} {client.hex()[-6:]} {type(m).__name__} {(getattr(m, 'task_id', None) or getattr(m, 'function_id', b'')).hex()[:12]} "
                         f"{getattr(m, 'status', '')}" for t, way, client, m, _ in self.stub.log[-400:]]


def short(x):
    r = repr(x)
    return r if len(r) < 160 else r[:150] + f"...({len(r)})"


def expect_value(want):
    def check(future):
        if future.cancelled():
            return "wrong-result", f"cancelled, expected {short(want)}"
        e = future.exception()
        if e is not None:
            return "wrong-result", f"raised {e!r:.300}, expected {short(want)}"
        got = future.result()
        if not zoo.same(got, want):
            return "wrong-result", f"got {short(got)}, expected {short(want)}"

    return check


def expect_failure(want, traced=False):
    def check(future):
        if future.cancelled():
            return "wrong-failure", "cancelled, expected an exception"
        e = future.exception()
        if e is None:
            return "no-failure", f"returned {short(future.result())}, expected an exception"
        if want[0] == "same" and (type(e) is not type(want[1]) or not (e.args == want[1].args or isinstance(e, ExceptionGroup) and repr(e) == repr(want[1]))):
            return "wrong-failure", f"raised {e!r:.300}, expected {want[1]!r:.300}"
        if traced and zoo.untraced(e, want):
            return "no-traceback", zoo.untraced(e, want)

    return check


# ------------------------------------------------------------------------------------------------ profiles
def p_calls(case, rng, seed):
    """C01: many functions, shared names, several clients, shuffled completions"""
    script = Script(run=(0.0, rng.choice([0.001, 0.05, 0.2])), reply=(0.0, rng.choice([0.0, 0.03])), forget=rng.choice([0, 0, 0.1]))
    w = World(case, seed, script, clients=rng.choice([1, 2, 3]))
    fs = zoo.functions(rng, rng.choice([2, 5, 12, 25]))
    calls = zoo.Calls(rng)
    for i in range(rng.choice([10, 40, 80])):
        f, c = rng.choice(fs), rng.choice(w.clients)
        args = calls.arguments()
        want = calls.answer(f, args)
        w.watch(c.submit(f, *args), expect_value(want), f"call {i} of {getattr(f, '__name__', f)!r:.60} with {short(args)}")
        case.counts["calls"] += 1
        calls.meddle()
        if rng.random() < 0.05:
            time.sleep(0.02)
    w.settle("C01")
    names = Counter(name for name, _ in w.stub.functions.values())
    case.counts["same_name_functions"] += sum(n for n in names.values() if n > 1)
    case.counts["finished_out_of_order"] += out_of_order(w.stub)
    w.alive("C01")
    w.close("C01")


def out_of_order(stub):
    sent = [m.task_id for _, way, _, m, _ in stub.log if way == "in" and isinstance(m, Task)]
    pos = {t: i for i, t in enumerate(sent)}
    order = [pos[t] for t in stub.order if t in pos]
    return sum(a > b for a, b in zip(order, order[1:]))


def p_errors(case, rng, seed):
    """C03: every kind of failure among calls that succeed"""
    w = World(case, seed, Script(run=(0.0, rng.choice([0.001, 0.05]))), clients=rng.choice([1, 2]))
    for i in range(rng.choice([5, 20, 40])):
        c = rng.choice(w.clients)
        if rng.random() < 0.5:
            f, args, want = zoo.failing(rng, i)
            case.counts["failing_calls"] += 1
            try:
                future = c.submit(f, *args)
            except Exception:
                case.counts["refused_calls"] += 1
                continue
            w.watch(future, expect_failure(want), f"failing call {i} {f!r:.80}")
        else:
            f = zoo.closure(i)
            w.watch(c.submit(f, i), expect_value(f(i)), f"good call {i}")
    w.settle("C03")
    if w.alive("C03"):
        w.fence("C03")
    w.close("C03")


class HashedCallable:
    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)


def p_bind(case, rng, seed):
    """C04: signatures against calls"""
    w = World(case, seed, Script(run=(0.0, 0.005)))
    for i in range(25):
        source, params, kw = zoo.signature_source(rng)
        f = zoo.by_value(source, "target")
        shape = rng.randrange(8)
        if shape == 0:
            cls = type("Holder", (), {"target": staticmethod(f)})
            f = cls.target
        elif shape == 1:
            import functools

            a, k = zoo.call(rng, params, kw)
            f = functools.partial(f, *a[:1], **dict(list(k.items())[:1]))
        elif shape == 2:
            import types

            holder = zoo.by_value("class Holder:\n    def __repr__(self): return 'holder'\n    def __eq__(self, o): return type(o).__name__ == 'Holder'\n"
                                  "    def __hash__(self): return 1", "Holder")()
            f = types.MethodType(f, holder)
        args, kwargs = zoo.call(rng, params, kw)
        try:
            want = f(*args, **kwargs)
        except TypeError as e:
            want = e
        what = f"{source.splitlines()[0]} shape {shape} called with {args} {kwargs}"
        case.counts["bound_calls"] += 1
        try:
            future = w.clients[0].submit(f, *args, **kwargs)
        except Exception as e:
            case.counts["refused_calls"] += 1
            if not isinstance(want, Exception) and shape != 1 and not set(kwargs) - (set(params) - {"self", "fn"}) and not (kwargs and "**" in source.splitlines()[0]):
                case.bad("C04", "positional-call-refused", f"{what}: {e!r}")
            continue
        if isinstance(want, Exception):
            w.watch(future, lambda fu, what=what: None if fu.cancelled() or fu.exception() is not None else
                    ("invalid-call-computed", f"returned {short(fu.result())} although the local call is refused"), what)
        else:
            if kwargs:
                case.counts["keyword_calls_computed"] += 1

            def check(fu, want=want):
                if fu.cancelled():
                    return "wrong-binding", "cancelled"
                if fu.exception() is not None:
                    return None  # refused
                if repr(fu.result()) != repr(want):
                    return "wrong-binding", f"got {short(fu.result())}, the local call returns {short(want)}"

            w.watch(future, check, what)
    w.settle("C04")
    w.alive("C04")
    w.close("C04")


def p_sentinel(case, rng, seed):
    """C04: a default given for its identity, with a later parameter given by keyword"""
    w = World(case, seed, Script(run=(0.0, 0.005)))
    want = sentinel_default(b=1)
    case.counts["sentinel_defaults"] += 1
    try:
        future = w.clients[0].submit(sentinel_default, b=1)
        w.watch(future, lambda fu: None if fu.exception() is not None or fu.result() == want else
                ("gap-default-identity", f"got {fu.result()!r}, the local call returns {want!r}"), "sentinel_default(b=1)")
    except Exception:
        case.counts["refused_calls"] += 1
    w.settle("C04")
    w.close("C04")


class Adder:
    """a callable whose answer follows its state"""
    __name__ = "adder"

    def __init__(self, n, same=None):
        self.n, self.same = n, same

    def __call__(self, x):
        return x + self.n

    def __eq__(self, other):
        return other is self or isinstance(other, Adder) and self.same is not None and self.same == other.same

    def __hash__(self):
        return hash(self.same) if self.same is not None else id(self)


def p_changed(case, rng, seed):
    """C01: a callable submitted again after its state changed, and one that compares equal to another submitted before"""
    w = World(case, seed, Script(run=(0.0, 0.005)))
    client = w.clients[0]
    for kind in ("changed", "equal"):
        first = Adder(1, "x" if kind == "equal" else None)
        w.watch(client.submit(first, 10), expect_value(11), f"{kind} callable, first call")
        w.settle("C01")
        if kind == "equal":
            second = Adder(2, "x")
        else:
            first.n, second = 2, first
        case.counts["callables_changed"] += 1
        w.watch(client.submit(second, 10), lambda fu, kind=kind: None if fu.exception() is not None or fu.result() == 12 else
                (f"{kind}-callable", f"got {fu.result()!r}, the local call returns 12"), f"{kind} callable, second call")
    w.settle("C01")
    w.close("C01")


MISSING = object()


def sentinel_default(a=MISSING, b=0):
    return ("missing" if a is MISSING else "given", b)


def p_map(case, rng, seed):
    """C05"""
    w = World(case, seed, Script(run=(0.0, rng.choice([0.001, 0.05, 0.15]))))
    client = w.clients[0]
    for i in range(3):
        n = rng.choice([0, 1, 2, 7, 30])
        f = rng.choice(zoo.functions(rng, 4))
        rows = [tuple(zoo.value(rng) for _ in range(rng.choice([1, 1, 2, 3]))) for _ in range(n)]
        if rng.random() < 0.3:
            rows = [list(r) if rng.random() < 0.5 else r for r in rows]
        if rng.random() < 0.2 and rows:
            rows = rows + rows[: rng.randrange(len(rows)) + 1]
        want = [zoo.Calls.answer(f, r) for r in rows]
        shape = rng.choice(["list", "tuple", "iterator", "generator", "zip", "map", "chain", "deque", "keys"])
        if shape == "keys" and any(not isinstance(r, tuple) or not hashable(r) for r in rows):
            shape = "list"
        source = {"list": lambda: rows, "tuple": lambda: tuple(rows), "iterator": lambda: iter(rows), "generator": lambda: (r for r in rows),
                  "zip": lambda: zip(*[[r[0] for r in rows]]) if rows else iter(()), "map": lambda: map(lambda r: r, rows),
                  "chain": lambda: itertools.chain(rows[:1], rows[1:]), "deque": lambda: __import__("collections").deque(rows),
                  "keys": lambda: dict.fromkeys(rows).keys()}[shape]()
        if shape == "zip":
            want = [zoo.Calls.answer(f, r[:1]) for r in rows]
        if shape == "keys":
            want = [zoo.Calls.answer(f, r) for r in dict.fromkeys(rows)]
        case.counts["maps"] += 1
        case.counts["map_elements"] += len(rows)
        status, got = within(PATIENCE, lambda: client.map(f, source))
        if status == "hung":
            case.bad("C05", "unresolved", f"map over {shape} of {len(rows)} does not return")
            break
        if status == "raised" or not isinstance(got, list) or len(got) != len(want) or not all(map(zoo.same, got, want)):
            case.bad("C05", "wrong-map", f"map over {shape} of {len(rows)} gave {short(got)}, expected {short(want)}")
    # the same objects again and again, and a function every call of which is another
    pool = [tuple(zoo.value(rng) for _ in range(rng.choice([1, 2]))) for _ in range(rng.choice([1, 2, 5]))]
    rows = [rng.choice(pool) for _ in range(rng.choice([2, 9, 9, 300]))]
    status, got = within(PATIENCE, lambda: client.map(zoo.fresh, iter(rows) if rng.random() < 0.5 else rows))
    case.counts["map_elements"] += len(rows)
    if status != "value" or len(got) != len(rows) or not all(zoo.same(a[0], b) for a, b in zip(got, rows)):
        case.bad("C05", "wrong-map", f"map over {len(rows)} rows gave {short(got)}, expected {short(rows)}")
    elif len({token for _, token in got}) != len(rows):
        case.bad("C05", "element-shared", f"{len(rows)} elements were computed by {len({token for _, token in got})} calls")
    # elements that are no argument tuples
    before = sum(w.stub.received["Task"].values())
    bad = rng.choice([[1], [(1,), 2], [(1,), "ab"], ["a"], [(1,), {1: 2}], [None], [(1,), [2], b"x"], [{1}], [(1,)] * 5 + [7]])
    if rng.random() < 0.4:
        bad = [(1,)] * rng.choice([40, 200, 1500])
        bad.insert(rng.randrange(len(bad) + 1), rng.choice([1, "ab", None, b"x", {2}]))
    source = bad if rng.random() < 0.5 else iter(bad)
    case.counts["refused_maps"] += 1
    ran = []
    status, got = within(PATIENCE, lambda: client.map(zoo.plain, source))
    time.sleep(0.06)
    if status != "raised" or not isinstance(got, (TypeError, ValueError)):
        case.bad("C05", "bad-element-accepted", f"map over {short(bad)} gave {short(got)}")
    if sum(w.stub.received["Task"].values()) != before:
        case.bad("C05", "bad-element-ran", f"map over {short(bad)} was refused after something was sent")
    w.alive("C05")
    w.fence("C05")
    # a failing element
    fail = rng.choice([1, 1, 3])
    n = rng.choice([3, 10, 25])
    places = set(rng.sample(range(n), fail))
    status, got = within(PATIENCE, lambda: client.map(boom, [(i, i in places) for i in range(n)]))
    case.counts["failing_maps"] += 1
    case.counts["finished_out_of_order"] += out_of_order(w.stub)
    if status != "raised" or type(got) is not zoo.Custom or got.args[0] not in places:
        case.bad("C05", "map-failure", f"map with failing elements {sorted(places)} of {n} gave {short(got)}")
    w.close("C05")


def boom(i, fail):
    if fail:
        raise zoo.Custom(i)
    return i


def hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def within(seconds, action):
    """run action in a thread -> ("value", x) | ("raised", e) | ("hung", None)"""
    out = []

    def go():
        try:
            out.append(("value", action()))
        except BaseException as e:
            out.append(("raised", e))

    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(seconds)
    return out[0] if out else ("hung", None)


def p_graph(case, rng, seed):
    """C06 and the client's part of C08"""
    w = World(case, seed, Script(run=(0.0, rng.choice([0.001, 0.05])), reply=(0.0, rng.choice([0.0, 0.02]))))
    client = w.clients[0]
    for i in range(6):
        g, computed = zoo.graph(rng)
        keys = rng.sample(computed, rng.randrange(1, len(computed) + 1))
        if rng.random() < 0.3:
            keys = keys + rng.choices(keys, k=2)
            case.counts["repeated_keys"] += 1
        copy = {k: v for k, v in g.items()}
        order = list(g)
        want = {k: zoo.evaluate(g, k) for k in keys}
        block = rng.random() < 0.5
        case.counts["graphs"] += 1
        case.counts["graph_nodes"] += len(g)
        status, got = within(PATIENCE, lambda: resolve(client.get(g, keys, block=block), block))
        if status == "hung":
            case.bad("C06", "unresolved", f"get of {keys} from {short(g)} does not return")
            break
        if status == "raised" or not isinstance(got, dict) or set(got) != set(want) or not all(zoo.same(got[k], want[k]) for k in want):
            case.bad("C06", "wrong-graph", f"get of {keys} from {short(g)} gave {short(got)}, expected {short(want)}")
        if g != copy or list(g) != order:
            case.bad("C06", "graph-changed", "get changed the caller's graph")
        if rng.random() < 0.5:
            malformed(case, rng, w, client)
    # failures: every future ends with the node's exception
    for i in range(3):
        g, computed = zoo.graph(rng)
        g = {("f" + k): ((v[0], *["f" + a for a in v[1:]]) if k in computed else v) for k, v in g.items()}
        bad = rng.choice(list(g))
        f, args, failure = zoo.closure_raise(zoo.Custom(i, "graph")), None, ("same", zoo.Custom(i, "graph"))
        if rng.random() < 0.5:
            f, args, failure = zoo.failing(rng, i)
        if args is None:
            args = [bad] if rng.random() < 0.7 else []
        else:
            g.update({f"given{n}": v for n, v in enumerate(args)})
            args = [f"given{n}" for n in range(len(args))]
        g["boom"] = (f, *args)
        g["top"] = (zoo.combine, "boom")
        targets = ["top"] + rng.sample(["f" + k for k in computed], rng.randrange(0, len(computed) + 1))
        rng.shuffle(targets)
        case.counts["failing_graphs"] += 1
        status, got = within(5, lambda: client.get(g, targets, block=False))
        if status == "raised" and failure == ("any",):
            case.counts["refused_graphs"] += 1
            continue
        if status != "value" or not isinstance(got, dict) or set(got) != set(targets):
            case.bad("C08", "graph-failure", f"get without blocking gave {got!r}")
            break
        for k in targets:
            w.watch(got[k], expect_failure(failure), f"future {k} of a failed graph")
    w.settle("C08")
    w.alive("C06")
    w.fence("C06")
    # a blocking get of a failing graph raises
    status, got = within(PATIENCE, lambda: client.get({"a": (zoo.closure_raise(zoo.Custom(9)),), "b": (zoo.combine, "a")}, ["b"]))
    if status != "raised" or type(got) is not zoo.Custom or got.args != (9,):
        case.bad("C08", "graph-failure", f"blocking get of a failing graph gave {short(got)}")
    w.close("C06")


def resolve(result, block):
    return result if block else {k: f.result(PATIENCE) for k, f in result.items()}


def malformed(case, rng, w, client):
    g, computed = zoo.graph(rng)
    kind = rng.randrange(5)
    keys = [rng.choice(computed)]
    if kind == 0:
        keys = keys + ["nowhere"] if rng.random() < 0.5 else ["nowhere"]
        rng.shuffle(keys)
    elif kind == 1:
        g["broken"] = (zoo.combine, rng.choice(computed), "undefined")
        if rng.random() < 0.5:
            keys = ["broken"]
    elif kind == 2:
        k = rng.choice(computed)
        g["loop"] = (zoo.combine, k)
        g[k] = (*g[k], "loop")
    elif kind == 3:
        g["self"] = (zoo.combine, "self")
    else:
        g.update({"l1": (zoo.plain, "l2"), "l2": (zoo.plain, "l3"), "l3": (zoo.plain, "l1")})
    time.sleep(0.03)
    before = len([1 for _, way, _, m, _ in w.stub.log if way == "in"])
    status, got = within(PATIENCE, lambda: client.get(g, keys, block=rng.random() < 0.5))
    time.sleep(0.05)
    case.counts["malformed_graphs"] += 1
    if status != "raised":
        case.bad("C06", "malformed-accepted", f"malformed graph kind {kind} gave {short(got)}")
    after = len([1 for _, way, _, m, _ in w.stub.log if way == "in"])
    if after != before:
        case.bad("C06", "malformed-sent", f"malformed graph kind {kind}: something was sent to the scheduler")
    residue_graph = [p for p, _ in residue.find(client, {})]


def p_disconnect(case, rng, seed):
    """C10"""
    script = Script(run=(0.0, rng.choice([0.01, 0.1, 0.3])), reply=(0.0, rng.choice([0.0, 0.02, 0.1])), hold=rng.choice([0, 0.3, 0.7, 1.0]),
                    forget=rng.choice([0, 0, 0.2]), mute=rng.choice([0, 0, 0.2, 1.0]), reject=rng.choice([0, 0, 0.1]), busy=rng.random() < 0.15)
    perturb = Perturb(rng, seed) if rng.random() < 0.5 else None
    if perturb:
        perturb.install()
    w = World(case, seed, script)
    client = w.clients[0]
    lock, futures, submitted = threading.Lock(), [], []
    go_on = threading.Event()
    fs = zoo.functions(rng, 6)

    def submitter(n, r):
        for i in range(200):
            try:
                if r.random() < 0.3:
                    g, computed = zoo.graph(r, n=r.choice([2, 4]))
                    keys = r.sample(computed, r.randrange(1, len(computed) + 1))
                    got = client.get(g, keys, block=False)
                    with lock:
                        for k in keys:
                            futures.append((got[k], "graph", zoo.evaluate(g, k)))
                else:
                    f = r.choice(fs)
                    fu = client.submit(f, n, i)
                    with lock:
                        futures.append((fu, "task", f(n, i)))
                    if r.random() < 0.15:
                        if r.random() < 0.5:
                            time.sleep(r.random() * 0.03)
                        if fu.cancel():
                            case.counts["user_cancelled"] += 1
            except Exception:
                if after.is_set():
                    case.counts["refused_after_disconnect"] += 1
                    if i % 3 == 2 or go_on.is_set():
                        return
                else:
                    raise
            if r.random() < 0.4:
                time.sleep(r.random() * 0.01)
            if go_on.is_set() and r.random() < 0.3:
                return

    after = threading.Event()
    failures = []

    def guarded(n, r):
        try:
            submitter(n, r)
        except Exception as e:
            failures.append(repr(e))

    threads = [threading.Thread(target=guarded, args=(n, random.Random(f"{seed}-{n}"))) for n in range(rng.choice([1, 2, 4]))]
    for t in threads:
        t.start()
    time.sleep(rng.choice([0.0, 0.01, 0.05, 0.2]) * rng.random() * 2)
    if script.busy:
        # more than the connection holds is under way when the client leaves
        # (it gets no answer: closing a tcp connection with something unread resets it, which loses what the other side has not read yet)
        w.stub.paused = w.stub.silent = True
        for i in range(8):
            big = bytes([i]) * (4 << 20)
            fu = client.get({"data": big, "n": (zoo.length, "data")}, ["n"], block=False)["n"]
            with lock:
                futures.append((fu, "graph", len(big)))
        time.sleep(rng.choice([0.1, 0.5]))
        case.counts["busy_at_disconnect"] += 1
    after.set()
    client.disconnect()
    time.sleep(rng.random() * 0.05)
    go_on.set()
    if script.busy:
        w.client_threads[0].join(5)
        time.sleep(rng.choice([0, 0.1, 0.5]))
        w.stub.paused = False
    for t in threads:
        t.join(PATIENCE)
    if failures:
        case.bad("C10", "submit-failed", f"a submission before disconnecting failed: {failures[0]}")
    limit = time.monotonic() + 15
    finished = Counter()
    for fu, kind, want in futures:
        try:
            e = fu.exception(max(0.001, limit - time.monotonic()))
        except concurrent.futures.CancelledError:
            finished["cancelled"] += 1
            continue
        except (TimeoutError, concurrent.futures.TimeoutError):
            case.bad("C10", "unresolved", f"a {kind} future is still pending 15s after disconnecting ({len(futures)} futures)")
            limit = time.monotonic() + 0.2
            continue
        if e is None:
            finished["value"] += 1
            if not zoo.same(fu.result(), want):
                case.bad("C10", "wrong-result", f"got {short(fu.result())} expected {short(want)}")
        elif isinstance(e, (ScaledDisconnect, concurrent.futures.CancelledError)):
            finished["disconnected"] += 1
        elif script.reject and isinstance(e, RuntimeError):
            finished["rejected"] += 1
        else:
            case.bad("C10", "odd-failure", f"a {kind} future ended in {e!r:.200}")
    case.counts.update({"at_disconnect_" + k: n for k, n in finished.items()})
    case.counts["disconnects"] += 1
    case.counts["unfinished_at_disconnect"] += finished["disconnected"]
    # afterwards
    try:
        fu = client.submit(zoo.plain, 1)
        try:
            fu.exception(5)
        except concurrent.futures.CancelledError:
            pass
        except (TimeoutError, concurrent.futures.TimeoutError):
            case.bad("C10", "unresolved", "a call submitted after disconnecting never resolves")
    except Exception:
        pass
    try:
        got = client.get({"a": (zoo.plain,)}, ["a"], block=False)
        try:
            got["a"].exception(5)
        except concurrent.futures.CancelledError:
            pass
        except (TimeoutError, concurrent.futures.TimeoutError):
            case.bad("C10", "unresolved", "a graph submitted after disconnecting never resolves")
    except Exception:
        pass
    # whatever the scheduler still runs was cancelled
    w.client_threads[0].join(5)
    limit = time.monotonic() + 5
    while True:
        left = [t for t, i in list(w.stub.tasks.items()) if not i["done"] and not w.stub.received["TaskCancel"][t]]
        leftg = [t for t, i in list(w.stub.graphs.items()) if not i["done"] and not w.stub.received["GraphTaskCancel"][t]]
        if not left and not leftg and time.monotonic() - w.stub.last_in > 0.2 or time.monotonic() > limit:
            break
        time.sleep(0.01)
    if left or leftg:
        case.bad("C10", "not-cancelled", f"{len(left)} task(s) and {len(leftg)} graph(s) the scheduler accepted are neither finished nor cancelled")
    case.counts["cancels_received"] += sum(w.stub.received["TaskCancel"].values()) + sum(w.stub.received["GraphTaskCancel"].values())
    # the client's thread ended without trouble
    if w.thread_errors:
        case.bad("C10", "thread-error", w.thread_errors[0])
    if perturb:
        perturb.remove()
        case.counts["delays_injected"] += perturb.hits
    w.close("C10")


class Perturb:
    """delays at a few drawn source lines of the client, in whichever thread gets there"""

    def __init__(self, rng, seed):
        self.seed, self.one_in, self.length = seed, rng.choice([4, 10, 30]), rng.choice([0.0, 0.002, 0.01, 0.03])
        self.sites, self.hits, self.lines = {}, 0, set()
        self.root = os.path.join(REPO, "scaled")

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if name.startswith(self.root) and "/protocol/" not in name:
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            key = (frame.f_code.co_name, frame.f_lineno)
            delay = self.sites.get(key)
            if delay is None:
                r = random.Random(f"{self.seed}-{key}")
                delay = self.sites[key] = self.length if r.random() < 1 / self.one_in else -1.0
            if delay >= 0:
                self.hits += 1
                if self.hits < 400:
                    time.sleep(delay)
        return self.local

    def install(self):
        sys.setswitchinterval(1e-5)
        threading.settrace(self.trace)
        sys.settrace(self.trace)

    def remove(self):
        sys.settrace(None)
        threading.settrace(None)
        sys.setswitchinterval(0.005)


def p_threads(case, rng, seed):
    """C24"""
    script = Script(run=(0.0, rng.choice([0.001, 0.03])), reply=(0.0, rng.choice([0.0, 0.01, 0.05])), forget=rng.choice([0, 0, 0.2]))
    perturb = Perturb(rng, seed) if rng.random() < 0.8 else None
    if perturb:
        perturb.install()
    else:
        sys.setswitchinterval(1e-6)
    w = World(case, seed, script)
    client = w.clients[0]
    shared = zoo.functions(rng, rng.choice([1, 2, 5]))
    lock = threading.Lock()
    expected_tasks, expected_graphs, failures = Counter(), [0], []
    barrier = threading.Barrier(rng.choice([2, 3, 5]))

    def caller(n, r):
        try:
            barrier.wait(10)
            for i in range(r.choice([3, 10])):
                kind = r.random()
                if kind < 0.75:
                    f = r.choice(shared) if r.random() < 0.7 else zoo.closure((n, i))
                    future = client.submit(f, "tag", n, i)
                    with lock:
                        expected_tasks[(n, i)] += 1
                        w.watch(future, expect_value(f("tag", n, i)), f"call {i} of thread {n}")
                elif kind < 0.9:
                    g, computed = zoo.graph(r, n=3)
                    got = client.get(g, computed, block=False)
                    with lock:
                        expected_graphs[0] += 1
                        for k in computed:
                            w.watch(got[k], expect_value(zoo.evaluate(g, k)), f"graph {i} of thread {n}")
                else:
                    f = r.choice(shared)
                    got = client.map(f, [("map", n, i), ("map", n, i, 2)])
                    if got != [f("map", n, i), f("map", n, i, 2)]:
                        case.bad("C24", "wrong-result", f"map in thread {n} gave {short(got)}")
        except Exception as e:
            failures.append(f"{e!r}")

    threads = [threading.Thread(target=caller, args=(n, random.Random(f"{seed}-{n}")), daemon=True) for n in range(barrier.parties)]
    for t in threads:
        t.start()
    for t in threads:
        t.join(PATIENCE)
    if any(t.is_alive() for t in threads):
        case.bad("C24", "unresolved", "a thread's map call does not return")
    if failures:
        case.bad("C24", "call-failed", failures[0])
    w.settle("C24")
    if perturb:
        perturb.remove()
        case.counts["delays_injected"] += perturb.hits
        case.counts["delay_sites"] += sum(d >= 0 for d in perturb.sites.values())
    sys.setswitchinterval(0.005)
    # every call sent once
    times, tags = Counter(), {}
    for _, way, _, m, _ in w.stub.log:
        if way == "in" and isinstance(m, Task):
            times[m.task_id] += 1
            tags[m.task_id] = [pickle.loads(a.data) for a in m.function_args]
    for tid, n in times.items():
        if n != 1 + w.stub.not_exists[tid]:
            case.bad("C24", "sent-times", f"a call was sent {n} times and told {w.stub.not_exists[tid]} times that its function is missing")
    sent = Counter((t[1], t[2]) for t in tags.values() if t[0] == "tag")
    if sent != expected_tasks and not case.violations:
        case.bad("C24", "sent-calls", f"{sum(expected_tasks.values())} calls made, {sum(sent.values())} sent")
    if sum(w.stub.received["GraphTask"].values()) != expected_graphs[0]:
        case.bad("C24", "sent-graphs", f"{expected_graphs[0]} graphs submitted, {sum(w.stub.received['GraphTask'].values())} sent")
    case.counts["threaded_calls"] += sum(expected_tasks.values())
    if w.alive("C24"):
        w.fence("C24")
    w.close("C24")


def p_burst(case, rng, seed):
    """C24: calls made at once are sent at once, whether or not anything comes back meanwhile"""
    w = World(case, seed, Script(reply=(0.0, 0.0)))
    client = w.clients[0]
    if hasattr(sync_connector, "POLLING_TIME_MILLISECONDS"):
        sync_connector.POLLING_TIME_MILLISECONDS = 20
    try:
        client.submit(zoo.plain, 0).result(PATIENCE)
    except Exception as e:
        case.bad("C24", "unresolved", f"a first call gives {e!r}")
    quiet = rng.random() < 0.7
    w.stub.script = Script(reply=(0.0, 0.0), echo=(12.0, 12.0), hold=1.0) if quiet else Script(run=(0.0, 0.01))
    sent = len(w.stub.tasks)
    n, threads = rng.choice([200, 600]), rng.choice([1, 4])
    failures = []

    def go(k):
        try:
            for i in range(n // threads):
                client.submit(zoo.plain, k, i)
                if rng.random() < 0.002:
                    time.sleep(0.01)
        except Exception as e:
            failures.append(e)

    begin = time.monotonic()
    ts = [threading.Thread(target=go, args=(k,), daemon=True) for k in range(threads)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(PATIENCE)
    if failures:
        case.bad("C24", "call-failed", f"{failures[0]!r}")
    made = time.monotonic()
    while len(w.stub.tasks) - sent < n and time.monotonic() - made < PATIENCE:
        time.sleep(0.002)
    took = time.monotonic() - made
    case.counts["burst_calls"] += n
    # the sending thread looks every 20 ms at the latest; the rest is for a busy machine
    if len(w.stub.tasks) - sent < n or took > 2.0 + (made - begin) * 2:
        case.bad("C24", "delayed", f"{n} calls were made in {made - begin:.2f}s and {len(w.stub.tasks) - sent} of them sent {took:.1f}s later")
    w.close("C24")


def p_forget(case, rng, seed):
    """C14: the scheduler loses functions; calls complete without noticing"""
    w = World(case, seed, Script(run=(0.0, 0.02), reply=(0.0, rng.choice([0, 0.02])), forget=rng.choice([0.2, 0.5])), clients=rng.choice([1, 2]))
    fs = zoo.functions(rng, rng.choice([1, 3]))
    for i in range(25):
        f, c = rng.choice(fs), rng.choice(w.clients)
        w.watch(c.submit(f, i), expect_value(f(i)), f"call {i}")
        if rng.random() < 0.3:
            time.sleep(0.01)
    w.settle("C14")
    case.counts["functions_forgotten"] += sum(w.stub.not_exists.values())
    w.alive("C14")
    w.close("C14")


def p_reject(case, rng, seed):
    """C15: rejected calls fail alone"""
    w = World(case, seed, Script(run=(0.0, 0.02), reject=rng.choice([0.2, 0.6])), clients=rng.choice([1, 2]))
    fs = zoo.functions(rng, 3)
    rejected = {}

    def check(key, want):
        def go(fu):
            tids = [t for t, i in w.stub.tasks.items() if i["task"].function_args and pickle.loads(i["task"].function_args[0].data) == key]
            if tids and w.stub.tasks[tids[0]].get("rejected"):
                case.counts["rejected_calls"] += 1
                if fu.cancelled() or fu.exception() is None:
                    return "rejected-no-error", "rejected call does not end in an error"
                return None
            return expect_value(want)(fu)

        return go

    for i in range(30):
        f, c = rng.choice(fs), rng.choice(w.clients)
        w.watch(c.submit(f, ("key", i)), check(("key", i), f(("key", i))), f"call {i}")
    w.settle("C15")
    if w.alive("C15"):
        w.fence("C15")
    w.close("C15")


def p_residue(case, rng, seed):
    """C20: the client keeps nothing of finished work"""
    leave = rng.random() < 0.4  # disconnected with work in every state, which is then all cancelled
    script = Script(run=(0.0, 0.03), reject=rng.choice([0, 0.2]), forget=rng.choice([0, 0.2]))
    if leave:
        script = Script(run=(0.0, 0.2), reply=(0.0, rng.choice([0.0, 0.1])), hold=rng.choice([0, 0.5]), mute=rng.choice([0, 0.5]), reject=script.reject, forget=script.forget)
    w = World(case, seed, script)
    client = w.clients[0]
    ids = {}
    for i in range(25):
        r = rng.random()
        if r < 0.5:
            f = rng.choice(zoo.functions(rng, 2))
            fu = client.submit(f, f"argument {seed} {i}")
            ids[w.serializer.serialize_argument(f"argument {seed} {i}")] = "argument"
        elif r < 0.7:
            f, args, _ = zoo.failing(rng, i)
            try:
                fu = client.submit(f, *args)
            except Exception:
                continue
        else:
            g, computed = zoo.graph(rng, n=4)
            if rng.random() < 0.3:
                g["boom"] = (zoo.closure_raise(zoo.Custom(i)),)
                computed = computed + ["boom"]
            for fu in client.get(g, computed, block=False).values():
                w.watch(fu, lambda fu: None, "graph")
            continue
        if rng.random() < 0.2:
            if rng.random() < 0.5:
                time.sleep(rng.random() * 0.02)
            fu.cancel()
        w.watch(fu, lambda fu: None, "call")
    if leave:
        time.sleep(rng.choice([0.0, 0.02, 0.1]) * rng.random())
        client.disconnect()
        case.counts["residue_after_disconnect"] += 1
    w.settle("C20")
    if leave:
        w.client_threads[0].join(5)
        w.stub.stop()
    else:
        w.fence("C20")
    for _, way, _, m, _ in w.stub.log:
        if isinstance(m, Task):
            ids[m.task_id] = "task id"
            for a in m.function_args:
                if len(a.data) > 12:
                    ids[a.data] = "argument"
        elif isinstance(m, GraphTask):
            ids[m.task_id] = "graph id"
            for t in m.graph:
                ids[t.task_id] = "node id"
    function_bytes = {c for _, c in w.stub.functions.values()}
    limit = time.monotonic() + 10
    while True:  # a late answer may still be on its way
        left = [(p, d) for p, d in residue.find(client, ids)]
        if not left or time.monotonic() > limit:
            break
        time.sleep(0.05)
    case.counts["client_residue_walks"] += 1
    case.counts["client_walk_objects"] += sum(1 for _ in residue.reachable(client))
    if left:
        case.bad("C20", "client-residue", f"client still holds {left[0][1]} of finished work at {left[0][0]} ({len(left)} in all)")
    if not leave:
        w.alive("C20")
    w.close("C20")


def p_clients(case, rng, seed):
    """C25: clients of one process, some of which leave or cancel while all have work in flight"""
    w = World(case, seed, Script(run=(0.0, rng.choice([0.05, 0.2])), reply=(0.0, rng.choice([0.0, 0.02]))), clients=rng.choice([2, 3, 4]))
    clients = list(w.clients)
    leaving = {n: rng.choice(["disconnect", "disconnect", "map", "get", "cancel", "collect"]) for n in rng.sample(range(len(clients)), rng.randrange(1, len(clients)))}
    fs = zoo.functions(rng, 4)
    owner, failures, lock = {}, [], threading.Lock()
    go = threading.Event()

    def work(n, r):
        client, mine = clients[n], []
        try:
            for i in range(r.choice([5, 15, 30])):
                if go.is_set() and n in leaving:
                    break
                if r.random() < 0.3:
                    g, computed = zoo.graph(r, n=r.choice([2, 4]))
                    for k, fu in client.get(g, computed, block=False).items():
                        if n not in leaving:
                            with lock:
                                w.watch(fu, expect_value(zoo.evaluate(g, k)), f"client {n} graph {i} {k}")
                else:
                    f = r.choice(fs)
                    fu = client.submit(f, n, i)
                    mine.append(fu)
                    if n not in leaving:
                        with lock:
                            w.watch(fu, expect_value(f(n, i)), f"client {n} call {i}")
                if r.random() < 0.5:
                    time.sleep(r.random() * 0.01)
            if n not in leaving:
                return
            go.wait(5)
            way = leaving[n]
            if way == "disconnect":
                client.disconnect()
            elif way == "cancel":
                for fu in mine:
                    fu.cancel()
            elif way in ("map", "get"):
                bad = zoo.closure_raise(zoo.Custom(n))
                try:
                    client.map(bad, [()]) if way == "map" else client.get({"a": (bad,)}, ["a"])
                    failures.append(("wrong-result", f"client {n}: failing {way} returned"))
                except zoo.Custom:
                    pass
            else:
                w.clients[n] = clients[n] = None
                del client
                gc.collect()
            case.counts["clients_left_" + way] += 1
            case.counts["clients_left"] += 1
        except Exception as e:
            failures.append(("client-fails", f"client {n} ({leaving.get(n, 'stays')}): {e!r:.300}"))

    threads = [threading.Thread(target=work, args=(n, random.Random(f"{seed}-{n}"))) for n in range(len(clients))]
    for t in threads:
        t.start()
    time.sleep(rng.random() * 0.1)
    go.set()
    for t in threads:
        t.join(PATIENCE)
    for key, text in failures:
        case.bad("C25", key, text)
    late = Client(w.stub.address, serializer=w.serializer)
    w.clients = [c for n, c in enumerate(w.clients) if c is not None and leaving.get(n, "cancel") == "cancel"] + [late]
    f = rng.choice(fs)
    w.watch(late.submit(f, "late", 0), expect_value(f("late", 0)), "client that joined later")
    w.settle("C25")
    w.fence("C25")
    for c in clients:
        if c is not None:
            c.disconnect()
    for t in w.client_threads:
        t.join(5)
    time.sleep(0.05)
    # who asked to cancel what
    for _, way, source, m, _ in w.stub.log:
        if way != "in":
            continue
        if isinstance(m, (Task, GraphTask)):
            first = owner.setdefault(m.task_id, source)
            if first != source:
                case.bad("C25", "sent-by-other", f"{type(m).__name__} {m.task_id.hex()} was sent by two clients")
        elif type(m).__name__ in ("TaskCancel", "GraphTaskCancel"):
            case.counts["cancels_received"] += 1
            if owner.get(m.task_id, source) != source:
                case.bad("C25", "cancelled-by-other", f"{type(m).__name__} for {m.task_id.hex()} came from a client it does not belong to")
    speaks_for = {}
    for _, way, source, m, _ in w.stub.log:
        if way == "in" and isinstance(m, Task) and len(m.function_args) == 2:
            speaks_for.setdefault(source, set()).add(w.serializer.deserialize_argument(m.function_args[0].data))
    both = [v for v in speaks_for.values() if len(v) > 1]
    if both:
        case.bad("C25", "identities", f"clients {sorted(map(str, both[0]))} talk to the scheduler under one identity")
    case.counts["others_futures"] += len(w.pending)
    if w.thread_errors:
        case.bad("C25", "thread-error", w.thread_errors[0])
    w.close("C25")


# ------------------------------------------------------------------------------------------------ C31
class Guarded:
    """a value that can only be encoded by the configured serializer"""
    allowed = threading.local()

    def __init__(self, uid):
        self.uid = uid

    def __eq__(self, other):
        return isinstance(other, Guarded) and self.uid == other.uid

    def __hash__(self):
        return hash(self.uid)

    def __repr__(self):
        return f"Guarded({self.uid})"

    def __reduce__(self):
        if not getattr(Guarded.allowed, "on", False):
            raise TypeError("encoded by something other than the configured serializer")
        return Guarded, (self.uid,)


PLAIN = [None, b"raw bytes", b"", "text", 17, True, 2.5, float("inf"), bytearray(b"more"), range(3), b"A" * 70000, {"k": None}, [b"x"]]


def uid_of(value):
    """tells guarded and plain values apart"""
    return value.uid if isinstance(value, (Guarded, GuardedFunction)) else f"{type(value).__name__} {value!r:.50}"


def some_value(rng, uid):
    return rng.choice(PLAIN) if rng.random() < 0.3 else Guarded(uid)


class GuardedFunction:
    __name__ = "guarded"

    def __init__(self, uid):
        self.uid = uid

    def __call__(self, *values):
        if self.uid.startswith("plain"):
            return PLAIN[hash(tuple(len(repr(uid_of(v))) for v in values)) % len(PLAIN)]
        return Guarded((self.uid, *[uid_of(v) for v in values]))

    def __reduce__(self):
        if not getattr(Guarded.allowed, "on", False):
            raise TypeError("encoded by something other than the configured serializer")
        return GuardedFunction, (self.uid,)


class TagSerializer:
    """tags and numbers every payload, records every operation"""

    def __init__(self):
        self.lock = threading.Lock()
        self.made = {}  # payload -> kind
        self.ops = Counter()  # (operation, value) -> times
        self.problems = []
        self.n = 0

    def _dump(self, kind, value):
        Guarded.allowed.on = True
        try:
            body = pickle.dumps(value)
        finally:
            Guarded.allowed.on = False
        with self.lock:
            self.n += 1
            payload = b"%s:%d:" % (kind, self.n) + bytes(255 - b for b in body)
            self.made[payload] = kind
            self.ops[("dump", kind, uid_of(value))] += 1
        return payload

    def _load(self, kind, payload):
        payload = bytes(payload)
        with self.lock:
            if payload not in self.made:
                self.problems.append(f"asked to decode bytes it never made: {payload[:60]!r}")
            elif self.made[payload] not in kind:
                self.problems.append(f"asked to decode a {self.made[payload]!r} as {kind!r}")
        value = pickle.loads(bytes(255 - b for b in payload.split(b":", 2)[2]))
        with self.lock:
            self.ops[("load", kind[:1], uid_of(value))] += 1
        return value

    def serialize_function(self, fn):
        return self._dump(b"F", fn)

    def deserialize_function(self, payload):
        return self._load((b"F",), payload)

    def serialize_argument(self, arg):
        return self._dump(b"A", arg)

    def deserialize_argument(self, payload):
        return self._load((b"A", b"R"), payload)  # a result of a graph node is an argument of the next

    def serialize_result(self, result):
        return self._dump(b"R", result)

    def deserialize_result(self, payload):
        return self._load((b"R",), payload)


def p_serializer(case, rng, seed):
    s = TagSerializer()
    w = World(case, seed, Script(run=(0.0, 0.02)), serializer=s, clients=1)
    client = w.clients[0]
    fs = [GuardedFunction(f"f{i}") for i in range(3)] + [GuardedFunction("plain")]
    given, results = Counter(), Counter()
    for i in range(10):
        f = rng.choice(fs)
        args = [some_value(rng, f"a{i}-{j}") for j in range(rng.randrange(4))]
        given.update(uid_of(a) for a in args)
        want = f(*args)
        results[uid_of(want)] += 1
        w.watch(client.submit(f, *args), expect_value(want), f"call {i}")
    for i in range(4):
        g = {f"d{j}": some_value(rng, f"g{i}-{j}") for j in range(3)}
        given.update(uid_of(v) for v in g.values())
        g["n1"] = (rng.choice(fs), "d0", "d1")
        g["n2"] = (rng.choice(fs), "n1", rng.choice(["n1", "d0", "d2"]))
        g["n3"] = (rng.choice(fs), "n2", "n1", "d0")
        keys = rng.sample(["n1", "n2", "n3"], rng.choice([1, 2, 3]))
        got = client.get(g, keys, block=False)
        for k in keys:
            w.watch(got[k], expect_value(zoo.evaluate(g, k)), f"graph {i} {k}")
            results[uid_of(zoo.evaluate(g, k))] += 1
    w.settle("C31")
    for _, way, _, m, frames in w.stub.log:
        if way != "in":
            continue
        tasks = [m] if isinstance(m, Task) else m.graph if isinstance(m, GraphTask) else []
        contents = [c for _, c in m.functions.values()] if isinstance(m, GraphTask) else [m.content] if type(m).__name__ == "FunctionRequest" else []
        for c in contents:
            case.counts["payloads_on_wire"] += 1
            if s.made.get(c) != b"F":
                case.bad("C31", "foreign-payload", f"function content on the wire was not made by the serializer: {c[:60]!r}")
        for t in tasks:
            for a in t.function_args:
                if a.type.name == "Data":
                    case.counts["payloads_on_wire"] += 1
                    if s.made.get(a.data) != b"A":
                        case.bad("C31", "foreign-payload", f"argument on the wire was not made by serialize_argument: {a.data[:60]!r}")
    if s.problems:
        case.bad("C31", "foreign-payload", s.problems[0])
    for uid, n in given.items():
        if s.ops[("dump", b"A", uid)] != n:
            case.bad("C31", "encoded-times", f"argument {uid} given {n} times was encoded {s.ops[('dump', b'A', uid)]} times")
    client_loads = sum(n for (op, kind, uid), n in s.ops.items() if op == "load" and kind == (b"R",))
    if client_loads != sum(results.values()) and not case.violations:
        case.bad("C31", "decoded-times", f"{sum(results.values())} results were decoded {client_loads} times")
    case.counts["guarded_values"] += sum(given.values()) + sum(results.values())
    w.alive("C31")
    w.close("C31")


PROFILES = {n[2:]: f for n, f in globals().items() if n.startswith("p_")}


def run_case(prop, profile, seed):
    case = Case()
    rng = random.Random(f"{profile}-{seed}")
    hook = threading.excepthook
    try:
        PROFILES[profile](case, rng, seed)
    finally:
        threading.excepthook = hook
        sys.settrace(None)
        threading.settrace(None)
    case.sample = {"profile": profile, "seed": str(seed), "observed": dict(case.counts)}
    return case
