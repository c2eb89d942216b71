"""Options of the programs and of the combined scheduler and cluster, followed to the components they configure (C26).

Each case forks; in the fork process starts, transports and the clock are stand-ins that record what they are given, and
the real programs run on top of them.
"""
import asyncio
import functools
import hashlib
import inspect
import json
import multiprocessing.process
import os
import pickle
import select
import signal
import sys
import threading
import time
import types

from scaled.io import config as defaults


class Stop(BaseException):
    pass


def forked(f, *args, timeout=60):
    """f(*args) in a fork -> its value or an error text"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", f(*args))
            except BaseException:  # noqa
                import traceback

                out = ("error", traceback.format_exc()[-1500:])
            with os.fdopen(w, "wb") as p:
                pickle.dump(out, p)
        finally:
            os._exit(0)
    os.close(w)
    data, end = b"", time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError("the fork did not answer")
    kind, value = pickle.loads(data)
    if kind == "error":
        raise ProgramFailed(value)
    return value


class ProgramFailed(Exception):
    pass


# ------------------------------------------------------------------------------------------------ recording
def bound(f, args, kwargs):
    b = inspect.signature(f).bind(*args, **kwargs)
    b.apply_defaults()
    out = {}
    for k, v in b.arguments.items():
        if k == "self":
            continue
        if hasattr(v, "to_address"):
            v = v.to_address()
        elif hasattr(v, "tag"):
            v = v.tag
        elif not isinstance(v, (int, float, str, bool, type(None))):
            v = type(v).__name__
        out[k] = v
    return out


class Recorder:
    def __init__(self):
        self.seen = []  # (component, arguments)

    def watch(self, cls, name):
        real = cls.__init__

        @functools.wraps(real)
        def init(obj, *a, **k):
            self.seen.append((name, bound(real, (obj,) + a, k)))
            return real(obj, *a, **k)

        cls.__init__ = init


class FakeSocket:
    def __init__(self, *a):
        pass

    def __getattr__(self, name):
        return lambda *a, **k: None


def stage(stop_at):
    """replace everything that would reach outside; -> the recorder"""
    rec = Recorder()
    import zmq
    import zmq.asyncio

    class FakeContext:
        def __init__(self, io_threads=1, **k):
            rec.seen.append(("context", {"io_threads": io_threads}))

        def socket(self, kind, *a, **k):
            return FakeSocket()

        @classmethod
        def instance(cls, io_threads=1):
            return cls(io_threads)

        def __getattr__(self, name):
            return lambda *a, **k: None

    zmq.asyncio.Context = FakeContext
    zmq.Context = FakeContext
    uvloop = types.ModuleType("uvloop")

    def used(value=None):
        rec.seen.append(("uvloop", {}))
        return value

    class Policy(asyncio.DefaultEventLoopPolicy):
        def __init__(self):
            super().__init__()
            used()

    # any of the ways to make it the event loop
    uvloop.install = used
    uvloop.EventLoopPolicy = Policy
    uvloop.new_event_loop = uvloop.Loop = lambda: used(asyncio.SelectorEventLoop())
    uvloop.run = lambda main, **k: (used(), asyncio.run(main, **k))[1]
    sys.modules["uvloop"] = uvloop

    from scaled.scheduler.main import Scheduler
    from scaled.cluster.cluster import Cluster
    from scaled.cluster.scheduler import SchedulerProcess
    from scaled.worker.worker import Worker
    from scaled.worker.agent.processor.processor import Processor
    from scaled.worker.agent.processor import cache_cleaner
    from scaled.worker.agent import timeout_manager
    from scaled.scheduler import function_manager, task_manager, worker_manager
    from scaled.scheduler.allocators import queued

    for cls, name in ((Scheduler, "Scheduler"), (Worker, "Worker"), (Processor, "Processor"), (cache_cleaner.CacheCleaner, "CacheCleaner"),
                      (timeout_manager.VanillaTimeoutManager, "Timeout"), (function_manager.VanillaFunctionManager, "FunctionManager"),
                      (task_manager.VanillaTaskManager, "TaskManager"), (worker_manager.VanillaWorkerManager, "WorkerManager"),
                      (queued.QueuedAllocator, "Allocator")):
        rec.watch(cls, name)

    def start(p):
        rec.seen.append(("start", {"what": type(p).__name__}))
        if isinstance(p, (Cluster, SchedulerProcess)):
            try:
                p.run()
            except Stop:
                pass
            return
        rec.started.append(p)
        if stop_at == type(p).__name__:
            raise Stop

    rec.started = []
    multiprocessing.process.BaseProcess.start = start
    for name in ("terminate", "kill", "join", "close"):
        setattr(multiprocessing.process.BaseProcess, name, lambda *a, **k: None)

    # loops: what runs how often
    from scaled.utility import event_loop as el
    import scaled.scheduler.main
    import scaled.worker.worker

    for module in (el, scaled.scheduler.main, scaled.worker.worker):
        def routine(routine, seconds):
            rec.seen.append(("loop", {"of": type(routine.__self__).__name__, "seconds": seconds}))

            async def nothing():
                raise Stop

            return nothing()

        if hasattr(module, "create_async_loop_routine"):
            module.create_async_loop_routine = routine
    return rec


def run_to_stop(f):
    try:
        f()
    except Stop:
        pass


# ------------------------------------------------------------------------------------------------ programs
SCHEDULER = {  # option -> (flags, component parameter, default)
    "io_threads": (["--io-threads"], defaults.DEFAULT_IO_THREADS),
    "max_number_of_tasks_waiting": (["--max-number-of-tasks-waiting", "-mt"], defaults.DEFAULT_MAX_NUMBER_OF_TASKS_WAITING),
    "worker_timeout_seconds": (["--worker-timeout-seconds", "-wt"], defaults.DEFAULT_WORKER_TIMEOUT_SECONDS),
    "function_retention_seconds": (["--function-retention-seconds", "-ft"], defaults.DEFAULT_FUNCTION_RETENTION_SECONDS),
    "load_balance_seconds": (["--load-balance-seconds", "-ls"], defaults.DEFAULT_LOAD_BALANCE_SECONDS),
    "load_balance_trigger_times": (["--load-balance-trigger-times", "-lbt"], defaults.DEFAULT_LOAD_BALANCE_TRIGGER_TIMES),
    "per_worker_queue_size": (["--per-worker-queue-size", "-qs"], defaults.DEFAULT_PER_WORKER_QUEUE_SIZE),
}
CLUSTER = {
    "n_workers": (["--num-of-workers", "-n"], defaults.DEFAULT_NUMBER_OF_WORKER),
    "heartbeat_interval_seconds": (["--heartbeat-interval", "-hi"], defaults.DEFAULT_HEARTBEAT_INTERVAL_SECONDS),
    "function_retention_seconds": (["--function-retention-seconds", "-ft"], defaults.DEFAULT_WORKER_FUNCTION_RETENTION_SECONDS),
    "death_timeout_seconds": (["--death-timeout-seconds", "-dt"], defaults.DEFAULT_DEATH_TIMEOUT_SECONDS),
    "garbage_collect_interval_seconds": (["--garbage-collect-interval-seconds", "-gc"], defaults.DEFAULT_GARBAGE_COLLECT_INTERVAL_SECONDS),
    "trim_memory_threshold_bytes": (["--trim-memory-threshold-bytes", "-tm"], defaults.DEFAULT_TRIM_MEMORY_THRESHOLD_BYTES),
}
COMBO = {
    "io_threads": defaults.DEFAULT_IO_THREADS, "max_number_of_tasks_waiting": defaults.DEFAULT_MAX_NUMBER_OF_TASKS_WAITING,
    "heartbeat_interval_seconds": defaults.DEFAULT_HEARTBEAT_INTERVAL_SECONDS, "worker_timeout_seconds": defaults.DEFAULT_WORKER_TIMEOUT_SECONDS,
    "function_retention_seconds": defaults.DEFAULT_FUNCTION_RETENTION_SECONDS, "death_timeout_seconds": defaults.DEFAULT_DEATH_TIMEOUT_SECONDS,
    "load_balance_seconds": defaults.DEFAULT_LOAD_BALANCE_SECONDS, "load_balance_trigger_times": defaults.DEFAULT_LOAD_BALANCE_TRIGGER_TIMES,
    "garbage_collect_interval_seconds": defaults.DEFAULT_GARBAGE_COLLECT_INTERVAL_SECONDS,
    "trim_memory_threshold_bytes": defaults.DEFAULT_TRIM_MEMORY_THRESHOLD_BYTES, "per_worker_queue_size": defaults.DEFAULT_PER_WORKER_QUEUE_SIZE,
}
# parameter names components deeper down use for the same option; checked when the component has a parameter of that name
DEEPER = {
    "Scheduler": {},
    "WorkerManager": {"per_worker_queue_size": "per_worker_queue_size", "timeout_seconds": "worker_timeout_seconds", "load_balance_seconds": "load_balance_seconds",
                      "load_balance_trigger_times": "load_balance_trigger_times"},
    "Allocator": {"max_tasks_per_worker": "per_worker_queue_size"},
    "FunctionManager": {"function_retention_seconds": "function_retention_seconds"},
    "TaskManager": {"max_number_of_tasks_waiting": "max_number_of_tasks_waiting"},
    "Timeout": {"death_timeout_seconds": "death_timeout_seconds"},
    "Processor": {k: k for k in ("garbage_collect_interval_seconds", "trim_memory_threshold_bytes", "function_retention_seconds", "event_loop", "serializer")},
    "CacheCleaner": {k: k for k in ("garbage_collect_interval_seconds", "trim_memory_threshold_bytes", "function_retention_seconds")},
}


def values(rng, names):
    """distinct values, so that none can stand in for another; now and then the odd ones"""
    out, used = {}, set()
    for n in names:
        while True:
            v = rng.choice([rng.randrange(2, 100), rng.randrange(2, 100), rng.randrange(100, 10 ** 6)])
            if v not in used:
                break
        used.add(v)
        out[n] = v
    if rng.random() < 0.25 and "max_number_of_tasks_waiting" in out:
        out["max_number_of_tasks_waiting"] = rng.choice([0, -1])
    if rng.random() < 0.25 and "load_balance_seconds" in out:
        out["load_balance_seconds"] = 0
    if rng.random() < 0.1 and "load_balance_trigger_times" in out:
        out["load_balance_trigger_times"] = 1
    if "n_workers" in out:
        out["n_workers"] = rng.choice([1, 2, 3, 7, 12])
    return out


def argv(rng, table, given, extra=()):
    parts = []
    for k, v in given.items():
        flags = table[k][0] if k in table else ["--event-loop", extra[0]]
        flag = rng.choice(flags)
        if flag.startswith("--") and rng.random() < 0.4:
            parts.append([f"{flag}={v}"])
        else:
            parts.append([flag, str(v)])
    rng.shuffle(parts)
    return [a for p in parts for a in p]


def run_program(module, args):
    rec = stage("Worker" if module == "top" else None)
    sys.argv = ["program", *args]
    import importlib

    m = importlib.import_module(f"scaled.entry_points.{module}")
    run_to_stop(m.main)
    deeper(rec)
    return rec.seen


def deeper(rec):
    """what a started worker would itself start, and what its processor would"""
    workers = [p for p in rec.started if type(p).__name__ == "Worker"]
    if not workers:
        return
    asyncio.set_event_loop_policy(None)
    asyncio.set_event_loop(asyncio.new_event_loop())
    w = workers[-1]
    rec.seen.append(("worker-runs", {}))
    run_to_stop(w.run)
    rec.seen.append(("processor-runs", {}))
    for p in [p for p in rec.started if type(p).__name__ == "Processor"][-1:]:
        def start(thread):
            raise Stop

        threading.Thread.start = start
        for name in ("recv_multipart", "recv", "poll", "send_multipart", "send"):
            setattr(FakeSocket, name, start)
        try:
            p.run()
        except BaseException:  # noqa  a processor without a transport may end any way it likes
            pass


def compare(case, where, seen, wanted, program_level):
    """wanted: option -> value"""
    for component, args in seen:
        names = program_level.get(component) or DEEPER.get(component)
        if names is None:
            continue
        for parameter, option in names.items():
            if parameter not in args or option not in wanted:
                continue
            case.counts["values_followed"] += 1
            if args[parameter] != wanted[option] or type(args[parameter]) is not type(wanted[option]):
                case.bad("C26", "value", f"{where}: {option}={wanted[option]!r} reached {component}.{parameter} as {args[parameter]!r}")


def an_address(rng):
    return f"tcp://{rng.choice(['127.0.0.1', '0.0.0.0', 'host-7', '10.1.2.3'])}:{rng.randrange(1, 65536)}"


def p_programs(case, rng, seed):
    h = hashlib.sha256()
    # the scheduler program
    address = an_address(rng)
    allv = values(rng, SCHEDULER)
    given = {k: v for k, v in allv.items() if rng.random() < rng.choice([0.0, 0.3, 0.7, 1.0])}
    loop = rng.choice([None, "builtin", "uvloop"])
    args = argv(rng, SCHEDULER, given)
    extra = [] if loop is None else [rng.choice(["--event-loop", "-e"]), loop]
    line = args + extra + [address] if rng.random() < 0.5 else [address] + args + extra
    where = "scaled_scheduler " + " ".join(line)
    try:
        seen = forked(run_program, "scheduler", line)
    except ProgramFailed as e:
        case.bad("C26", "program-fails", f"{where}: {str(e)[-300:]}")
        seen = []
    if seen:
        wanted = {k: given.get(k, d) for k, (_, d) in SCHEDULER.items()}
        wanted["address"] = address
        names = {"Scheduler": {k: k for k in wanted}}
        if not any(c == "Scheduler" for c, _ in seen):
            case.bad("C26", "value", f"{where}: no scheduler was made")
        compare(case, where, seen, wanted, names)
        follow_io(case, where, seen, wanted)
        if any(c == "uvloop" for c, _ in seen) != (loop == "uvloop"):
            case.bad("C26", "event-loop", f"{where}: uvloop {'not ' if loop == 'uvloop' else ''}installed")
        case.counts["command_lines"] += 1
    h.update(where.encode())
    # the cluster program
    address = an_address(rng)
    allv = values(rng, CLUSTER)
    given = {k: v for k, v in allv.items() if rng.random() < rng.choice([0.0, 0.3, 0.7, 1.0])}
    loop = rng.choice([None, "builtin", "uvloop"])
    extra = [] if loop is None else [rng.choice(["--event-loop", "-el"]), loop]
    line = argv(rng, CLUSTER, given) + extra + [address]
    where = "scaled_cluster " + " ".join(line)
    try:
        seen = forked(run_program, "cluster", line)
    except ProgramFailed as e:
        case.bad("C26", "program-fails", f"{where}: {str(e)[-300:]}")
        seen = []
    if seen:
        wanted = {k: given.get(k, d) for k, (_, d) in CLUSTER.items()}
        wanted.update(address=address, event_loop=loop or "builtin")
        follow_cluster(case, where, seen, wanted)
        case.counts["command_lines"] += 1
    h.update(where.encode())
    case.signature = h.hexdigest()[:16]


def follow_io(case, where, seen, wanted):
    threads = [a["io_threads"] for c, a in seen if c == "context"]
    case.counts["values_followed"] += 1
    if wanted["io_threads"] not in threads:
        case.bad("C26", "value", f"{where}: io_threads={wanted['io_threads']} reached no transport, they were given {threads}")


def follow_cluster(case, where, seen, wanted):
    made = [c for c, _ in seen].count("Worker")
    started = sum(1 for c, a in seen if c == "start" and a["what"] == "Worker")
    case.counts["values_followed"] += 1
    if (made, started) != (wanted["n_workers"],) * 2:
        case.bad("C26", "value", f"{where}: {made} workers made and {started} started, expected {wanted['n_workers']}")
    compare(case, where, seen, wanted, {"Worker": {k: k for k in wanted}})
    if not any(c == "Processor" for c, _ in seen) or not any(c == "CacheCleaner" for c, _ in seen):
        case.bad("C26", "value", f"{where}: a worker run in place started no processor: {[c for c, _ in seen][-12:]}")
    after = [c for c, _ in seen]
    tail = after[after.index("worker-runs"):] if "worker-runs" in after else []
    if ("uvloop" in tail) != (wanted["event_loop"] == "uvloop"):
        case.bad("C26", "event-loop", f"{where}: uvloop {'not ' if wanted['event_loop'] == 'uvloop' else ''}installed in the worker")
    beats = [a["seconds"] for c, a in seen if c == "loop" and "Heartbeat" in a["of"]]
    case.counts["values_followed"] += 1
    if beats and beats != [wanted["heartbeat_interval_seconds"]]:
        case.bad("C26", "value", f"{where}: heartbeat runs every {beats} s, expected {wanted['heartbeat_interval_seconds']}")


class Tagged:
    """a serializer that can be told from others"""

    def __init__(self, tag):
        self.tag = tag


def run_combo(kwargs, tag):
    rec = stage(None)
    from scaled.cluster.combo import SchedulerClusterCombo

    if tag is not None:
        kwargs = dict(kwargs, serializer=Tagged(tag))
    combo = SchedulerClusterCombo(**kwargs)
    rec.combo = combo
    deeper(rec)
    return rec.seen


def p_combo(case, rng, seed):
    address = an_address(rng)
    given = {k: v for k, v in values(rng, COMBO).items() if rng.random() < rng.choice([0.0, 0.3, 0.7, 1.0])}
    n = rng.choice([1, 2, 3, 6])
    loop = rng.choice([None, "builtin", "uvloop"])
    tag = rng.choice([None, f"serializer-{rng.randrange(10 ** 6)}"])
    kwargs = dict(given, address=address, n_workers=n, **({} if loop is None else {"event_loop": loop}))
    items = list(kwargs.items())
    rng.shuffle(items)
    kwargs = dict(items)
    where = f"SchedulerClusterCombo({', '.join(f'{k}={v!r}' for k, v in kwargs.items())})"
    case.signature = hashlib.sha256(where.encode()).hexdigest()[:16]
    try:
        seen = forked(run_combo, kwargs, tag)
    except ProgramFailed as e:
        return case.bad("C26", "program-fails", f"{where}: {str(e)[-300:]}")
    wanted = {k: given.get(k, d) for k, d in COMBO.items()}
    wanted.update(address=address, n_workers=n, event_loop=loop or "builtin", serializer=tag or "DefaultSerializer")
    compare(case, where, seen, wanted, {"Scheduler": {k: k for k in SCHEDULER} | {"address": "address"}})
    follow_io(case, where, seen, wanted)
    follow_cluster(case, where, seen, wanted)
    if not any(c == "Scheduler" for c, _ in seen):
        case.bad("C26", "value", f"{where}: no scheduler was made")
    if sum(c == "uvloop" for c, _ in seen) < (2 if loop == "uvloop" else 0):
        case.bad("C26", "event-loop", f"{where}: uvloop not installed in both")
    case.counts["combos"] += 1


# ------------------------------------------------------------------------------------------------ the worker's cleaner
def run_cleaner(gc_every, threshold, retention, rss, plan, seconds):
    """the real cleaner on a clock of our own; plan: time -> operations"""
    import ctypes
    import gc
    import psutil

    now = [1000.0]
    out = {"gc": [], "trim": [], "cached": []}
    real = ctypes.cdll.LoadLibrary
    fake = types.SimpleNamespace(malloc_trim=lambda *_: out["trim"].append(now[0] - 1000) or 1)
    ctypes.cdll.LoadLibrary = lambda name: fake if "libc" in str(name) else real(name)
    collect = gc.collect
    gc.collect = lambda *a: out["gc"].append(now[0] - 1000) or 0
    psutil.Process.memory_info = lambda self: types.SimpleNamespace(rss=rss[int(now[0] - 1000) % len(rss)], vms=0)
    time.time = lambda: now[0]
    time.monotonic = lambda: now[0]
    from scaled.worker.agent.processor.cache_cleaner import CacheCleaner

    c = CacheCleaner(garbage_collect_interval_seconds=gc_every, trim_memory_threshold_bytes=threshold, function_retention_seconds=retention)
    functions = {}

    def sleep(s=None, *_):
        end = now[0] + (s or 1)
        while True:
            todo = [t for t in sorted(plan) if now[0] - 1000 < t <= end - 1000]
            for t in todo:
                now[0] = 1000 + t
                for op, i in plan.pop(t):
                    fid = b"%d" % i
                    if op in ("add", "put"):
                        functions[fid] = object()
                        c.add_function(fid, functions[fid])
                    elif op == "del":
                        c.del_function(fid)
                    got = c.get_function(fid) if op in ("add", "get") else None
                    if op in ("get", "add"):
                        out["cached"].append((round(now[0] - 1000, 6), i, op, got is not None, got is None or got is functions.get(fid)))
            now[0] = end
            break
        if now[0] - 1000 > seconds:
            raise Stop
        return False

    time.sleep = sleep
    threading.Event.wait = lambda self, timeout=None: sleep(timeout)
    run_to_stop(c.run)
    gc.collect = collect
    return out


def p_cleaner(case, rng, seed):
    gc_every, retention = rng.choice([1, 2, 3, 5, 10, 30]), rng.choice([1, 2, 5, 10, 20])
    threshold = rng.choice([0, 1000, 10 ** 9])
    rss = [rng.choice([threshold - 1, threshold, threshold + 1, 5 * threshold, 1]) for _ in range(40)]
    seconds = 90
    plan = {}
    for _ in range(120):
        plan.setdefault(round(rng.uniform(0, seconds), 3) + 0.0005, []).append((rng.choice(["add", "put", "get", "get", "get", "del"]), rng.randrange(6)))
    seen = forked(run_cleaner, gc_every, threshold, retention, rss, {t: list(o) for t, o in plan.items()}, seconds)
    where = f"collect every {gc_every}s, trim at {threshold}b, keep {retention}s"
    # garbage collection about every gc_every seconds, to the one-second rhythm of the cleaner
    times = seen["gc"]
    gaps = [b - a for a, b in zip([0.0] + times, times)]
    if not times or any(g < gc_every - 1e-6 or g > gc_every + 1.01 for g in gaps) or seconds - times[-1] > gc_every + 2:
        case.bad("C26", "gc", f"{where}: collected at {times[:12]}")
    want = [t for t in times if rss[int(t) % len(rss)] >= threshold]
    if seen["trim"] != want:
        case.bad("C26", "trim", f"{where}: trimmed at {seen['trim'][:10]}, expected {want[:10]}")
    case.counts["collections"] += len(times)
    # the cache: kept while used within the retention time, gone a rhythm later
    last = {}
    it = iter(seen["cached"])
    for t in sorted(plan):
        for op, i in plan[t]:
            if op == "del":
                last.pop(i, None)
                continue
            if op == "put":  # added, and not used at once
                last[i] = t
                continue
            got = next(it, None)
            if got is None:
                break
            tt, j, op2, present, same = got
            if op == "add":
                last[i] = t
                if not present or not same:
                    case.bad("C29", "cleaner", f"{where}: function added at {t} is not served")
                continue
            idle = t - last[i] if i in last else None
            if idle is None and present:
                case.bad("C29", "cleaner", f"{where}: function {i} served at {t} although deleted")
            elif idle is not None and idle <= retention - 1e-6 and not present:
                case.bad("C29", "cleaner", f"{where}: function {i} gone at {t} after {idle:.3f}s idle")
            elif idle is not None and idle > retention + 1.01 and present:
                case.bad("C29", "cleaner", f"{where}: function {i} still cached at {t} after {idle:.3f}s idle")
            if present and not same:
                case.bad("C29", "cleaner", f"{where}: function {i} served another function")
            if present:
                last[i] = t
            else:
                case.counts["expired_in_cleaner"] += i in last
                last.pop(i, None)
            case.counts["cache_queries"] += 1
    case.signature = hashlib.sha256(json.dumps([where, sorted(map(str, plan))]).encode()).hexdigest()[:16]


PROFILES = {"options_programs": p_programs, "options_combo": p_combo, "options_cleaner": p_cleaner}
