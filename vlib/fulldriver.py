"""One scenario against the real deployment: scheduler, cluster, worker and processor processes, clients over tcp.

python -m vlib.fulldriver SCENARIO SEED OUT - writes what happened to OUT as JSON.
"""
import concurrent.futures
import importlib.util
import json
import os
import random
import signal
import socket
import stat
import sys
import tempfile
import threading
import time
from collections import Counter

import psutil

STUCK = 60.0  # seconds without any progress that count as stuck


class Report:
    out = None

    def __init__(self):
        self.violations, self.counts, self.notes = [], Counter(), []
        self.retry = False

    def bad(self, prop, key, detail):
        if len(self.violations) < 40:
            self.violations.append({"property": prop, "key": key, "detail": str(detail)[:600]})


    def write(self):
        with open(self.out, "w") as f:
            json.dump({"violations": self.violations, "counts": dict(self.counts), "notes": self.notes}, f)
        sys.stdout.flush()


def free_port():
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


def spawned(session, roots=None):
    """every process of this session that the deployment started: (pid, parent, what)"""
    out = []
    me = os.getpid()
    for p in psutil.process_iter():
        try:
            if p.pid == me or os.getsid(p.pid) != session:
                continue
            line = " ".join(p.cmdline())
            if p.status() == psutil.STATUS_ZOMBIE or "resource_tracker" in line or "spawn_main" not in line:
                continue
            out.append((p.pid, p.ppid()))
        except (psutil.NoSuchProcess, psutil.AccessDenied, ProcessLookupError, OSError):
            continue
    return out


def sockets(folder):
    out = []
    for n in os.listdir(folder):
        try:
            if stat.S_ISSOCK(os.lstat(os.path.join(folder, n)).st_mode) or n.startswith("scaled_worker"):
                out.append(n)
        except FileNotFoundError:
            pass
    return out


def live_children(pid):
    """processes started by this one which still run"""
    found = []
    try:
        children = psutil.Process(pid).children()
    except psutil.NoSuchProcess:
        return found
    for c in children:
        try:
            if "spawn_main" in " ".join(c.cmdline()):
                found.append(c.pid)
        except psutil.Error:  # ended meanwhile, or a zombie
            pass
    return found


class Deployment:
    def __init__(self, rep, rng, n_workers, serializer=None, separate=False, **kw):
        from scaled.cluster.combo import SchedulerClusterCombo

        self.rep = rep
        self.port = free_port()
        self.address = f"tcp://127.0.0.1:{self.port}"
        self.n_workers = n_workers
        options = dict(address=self.address, n_workers=n_workers, per_worker_queue_size=kw.pop("per_worker_queue_size", 100), heartbeat_interval_seconds=1,
                       worker_timeout_seconds=kw.pop("worker_timeout_seconds", 30), death_timeout_seconds=kw.pop("death_timeout_seconds", 60), **kw)
        if serializer is not None:
            options["serializer"] = serializer
        if importlib.util.find_spec("uvloop") and rng.random() < 0.4:
            options["event_loop"] = "uvloop"
            rep.counts["uvloop_deployments"] += 1
        self.options = {k: v for k, v in options.items() if k != "serializer"}
        self.combo = SchedulerClusterCombo(**options)
        self.cluster = next(v for v in vars(self.combo).values() if type(v).__name__ == "Cluster")
        self.scheduler = next(v for v in vars(self.combo).values() if type(v).__name__ == "SchedulerProcess")

    def guard(self, *props):
        """nobody told the deployment to end: when its scheduler or cluster does, the case is over"""
        self.guarded = True

        def watch():
            while self.guarded:
                for p in (self.scheduler, self.cluster):
                    if p.exitcode is not None and self.guarded:
                        time.sleep(1)  # somebody else may be ending us
                        for prop in props:
                            self.rep.bad(prop, "deployment-ended", f"{type(p).__name__} ended by itself with {p.exitcode} ({self.options})")
                        self.rep.write()
                        os._exit(0)
                time.sleep(0.5)

        threading.Thread(target=watch, daemon=True).start()

    def shutdown(self):
        self.guarded = False
        self.combo.shutdown()

    def agents(self):
        """pids of worker agents"""
        return live_children(self.cluster.pid)

    def processors(self, agent):
        return live_children(agent)

    def wait_up(self, seconds=60):
        end = time.monotonic() + seconds
        while time.monotonic() < end:
            a = self.agents()
            if len(a) == self.n_workers and all(self.processors(x) for x in a):
                return True
            time.sleep(0.05)
        return False

    def client(self, serializer=None):
        from scaled.client import Client

        return Client(self.address, **({} if serializer is None else {"serializer": serializer}))

    def gone(self, prop="C23", seconds=40, where=""):
        """no worker, processor or cluster process and no socket file may remain"""
        folder = tempfile.gettempdir()
        end = time.monotonic() + seconds
        while True:
            left = [p for p in spawned(os.getsid(0)) if p[0] != self.scheduler.pid]
            files = sockets(folder)
            self.cluster.exitcode  # reap
            if not left and not files:
                break
            if time.monotonic() > end:
                names = []
                for pid, _ in left:
                    try:
                        names.append(f"{pid} child of {psutil.Process(pid).ppid()}")
                    except psutil.NoSuchProcess:
                        pass
                if names:
                    self.rep.bad(prop, "process-left", f"{where}: {len(names)} process(es) still run {seconds}s later: {names[:6]}")
                if files:
                    self.rep.bad(prop, "socket-left", f"{where}: socket files still there {seconds}s later: {files[:4]}")
                break
            time.sleep(0.1)
        self.rep.counts["shutdowns_watched"] += 1
        self.scheduler.join(0.1)

    def clean(self):
        for name in os.listdir("/tmp"):
            if name == f"127.0.0.1_{self.port}_monitor":
                os.unlink(os.path.join("/tmp", name))


def wait_all(rep, futures, prop, what, stuck=STUCK):
    """wait until all are resolved; stuck is a stretch without a single one being resolved"""
    pending, last = set(futures), time.monotonic()
    while pending:
        done, pending2 = concurrent.futures.wait(pending, timeout=1.0, return_when=concurrent.futures.FIRST_COMPLETED)
        if done:
            last = time.monotonic()
        pending = pending2
        if pending and time.monotonic() - last > stuck:
            names = [futures[f][0] for f in list(pending)[:3]]
            for p in prop:
                rep.bad(p, "stuck", f"{what}: {len(pending)} of {len(futures)} calls never resolved, nothing moved for {stuck:.0f}s, e.g. {names}")
            return False
    return True


def judge(rep, futures, prop):
    for f, (name, check, p) in futures.items():
        if not f.done():
            continue
        why = check(f)
        rep.counts["resolved"] += 1
        if why:
            rep.bad(p or prop, why[0], f"{name}: {why[1]}")


def slow(seconds, *values):
    import time as t

    t.sleep(seconds)
    return ("slow", values)


KINDS = ["sleep", "sleep", "spin", "ignore", "catch", "block", "exit", "thread", "swallow"]


def busy(kind, seconds, witness, *values):
    """keeps going for a while, in ways that are harder or easier to end"""
    import signal as sg
    import threading as th
    import time as t

    def beat():
        if witness:
            with open(witness, "a") as f:
                f.write(".")

    def work():
        end = t.monotonic() + seconds
        while t.monotonic() < end:
            try:
                beat()
                if kind == "spin":
                    x = t.monotonic() + 0.05
                    while t.monotonic() < x:
                        pass
                else:
                    t.sleep(0.05)
            except BaseException:  # noqa
                if kind not in ("exit", "swallow"):
                    raise

    if th.current_thread() is th.main_thread():
        if kind == "ignore":
            sg.signal(sg.SIGTERM, sg.SIG_IGN)
            sg.signal(sg.SIGINT, sg.SIG_IGN)
        elif kind == "catch":
            sg.signal(sg.SIGTERM, lambda *a: None)
        elif kind == "exit":
            sg.signal(sg.SIGTERM, lambda *a: sys.exit(0))
        elif kind == "block":
            sg.pthread_sigmask(sg.SIG_BLOCK, [sg.SIGTERM, sg.SIGINT])
    if kind == "thread":
        x = th.Thread(target=work)
        x.start()
        x.join()
    else:
        work()
    return ("slow", values)


# ------------------------------------------------------------------------------------------------ scenarios
def s_calls(rep, rng):
    """several clients, threads, calls, failures, maps, graphs"""
    from vlib import zoo
    from vlib.engine_client import expect_failure, expect_value, short

    queue = rng.choice([1, 2, 5, 1000])
    d = Deployment(rep, rng, rng.choice([1, 2, 3]), per_worker_queue_size=queue, worker_timeout_seconds=60,
                   function_retention_seconds=rng.choice([1, 2, 20]), load_balance_trigger_times=rng.choice([1, 2]))
    d.guard("C01", "C03", "C26")
    clients = [d.client() for _ in range(rng.choice([1, 2, 3]))]
    fs = zoo.functions(rng, rng.choice([3, 8, 15]))
    futures, lock, errors = {}, threading.Lock(), []

    def watch(f, name, check, prop):
        with lock:
            futures[f] = (name, check, prop)

    def user(n, client, seed):
        r = random.Random(seed)
        calls = zoo.Calls(r)
        try:
            for i in range(r.choice([0, 1, 1, 2])):
                size = r.choice([70_000, 1_500_000, 9_000_000])
                if r.random() < 0.5:
                    e = r.choice([ValueError("x" * size, i), zoo.Custom(i, [r.randbytes(size)])])
                    watch(client.submit(zoo.closure_raise(e)), f"failing call {n}.large{i} of {size}", expect_failure(("same", e)), "C03")
                    rep.counts["failing_calls"] += 1
                else:
                    v = r.randbytes(size)
                    watch(client.submit(zoo.tag(i), v), f"call {n}.large{i} of {size}", expect_value(zoo.tag(i)(v)), "C01")
                    rep.counts["calls"] += 1
            for i in range(r.choice([15, 40, 80])):
                kind = r.random()
                if kind < 0.6:
                    f = r.choice(fs)
                    args = calls.arguments(2)
                    want = calls.answer(f, args)
                    watch(client.submit(f, *args), f"call {n}.{i} of {getattr(f, '__name__', f)!r:.40}({short(args)})", expect_value(want), "C01")
                    calls.meddle()
                    rep.counts["calls"] += 1
                elif kind < 0.7:
                    f, args, want = zoo.failing(r, i) if r.random() < 0.75 else zoo.script_failing(r, i)
                    try:
                        future = client.submit(f, *args)
                    except Exception:
                        continue
                    watch(future, f"failing call {n}.{i} {f!r:.60}", expect_failure(want, True), "C03")
                    rep.counts["failing_calls"] += 1
                elif kind < 0.8:
                    s = r.choice([0.0, 0.01, 0.2])
                    watch(client.submit(slow, s, (n, i)), f"slow call {n}.{i}", expect_value(slow(0, (n, i))), "C01")
                elif kind < 0.9:
                    g, computed = zoo.graph(r)
                    keys = r.sample(computed, r.choice([1, len(computed)]))
                    for k, f in client.get(g, keys, block=False).items():
                        watch(f, f"graph {n}.{i} {k}", expect_value(zoo.evaluate(g, k)), "C06")
                    rep.counts["graphs"] += 1
                elif kind < 0.95:
                    f = r.choice(fs)
                    items = [tuple(zoo.value(r) for _ in range(2)) for _ in range(r.choice([0, 1, 5, 20]))]
                    out, want = [], [calls.answer(f, x) for x in items]
                    t = threading.Thread(target=lambda: out.append(client.map(f, iter(items))), daemon=True)
                    t.start()
                    t.join(150)
                    if not out:
                        rep.bad("C05", "stuck", f"map {n}.{i} over {len(items)} did not return")
                    elif len(out[0]) != len(want) or not all(zoo.same(a, b) for a, b in zip(out[0], want)):
                        rep.bad("C05", "wrong-result", f"map {n}.{i}: {short(out[0])}, expected {short(want)}")
                    rep.counts["map_elements"] += len(items)
                else:
                    time.sleep(r.choice([0.01, 0.3, 1.5]))
        except Exception as e:  # noqa
            import traceback

            errors.append(traceback.format_exc()[-900:])

    threads = []
    for n, c in enumerate(clients):
        for k in range(rng.choice([1, 1, 2])):
            t = threading.Thread(target=user, args=(f"{n}/{k}", c, rng.random()), daemon=True)
            threads.append(t)
            t.start()
    for t in threads:
        t.join(300)
    if errors:
        rep.bad("C01", "call-fails", errors[0])
    if wait_all(rep, futures, ["C01"], f"{len(clients)} clients, {d.n_workers} workers, queue size {queue}"):
        judge(rep, futures, "C01")
    rep.counts["threads"] += len(threads)
    for c in clients:
        c.disconnect()
    d.shutdown()
    d.gone(where="shutdown after work")
    d.clean()


def s_kill(rep, rng):
    """workers are killed while they hold work"""
    from vlib import zoo
    from vlib.engine_client import expect_value

    n = rng.choice([2, 3, 4])
    d = Deployment(rep, rng, n, per_worker_queue_size=rng.choice([2, 5, 1000]), worker_timeout_seconds=rng.choice([4, 6]), death_timeout_seconds=60)
    c = d.client()
    futures = {}
    for i in range(rng.choice([20, 60])):
        s = rng.choice([0.0, 0.05, 0.2, 0.4])
        futures[c.submit(slow, s, i)] = (f"call {i}", expect_value(slow(0, i)), "C11")
    for i in range(rng.choice([0, 2])):
        g = {"a": (zoo.tag(1),), "b": (zoo.tag(2), "a"), "c": (zoo.combine, "a", "b", "a")}
        for k, f in c.get(g, ["c", "b"], block=False).items():
            futures[f] = (f"graph {i} {k}", expect_value(zoo.evaluate(g, k)), "C11")
    d.wait_up()
    time.sleep(rng.choice([0.0, 0.2, 0.8, 1.5]))
    agents = d.agents()
    kills = rng.randrange(1, n)
    how = rng.choice([signal.SIGKILL, signal.SIGKILL, signal.SIGINT, signal.SIGSTOP])
    before = sum(f.done() for f in futures)
    victims = rng.sample(agents, kills)
    for v in victims:
        ps = d.processors(v)
        os.kill(v, how)
        for p in ps:
            if how == signal.SIGKILL:
                try:
                    os.kill(p, how)
                except ProcessLookupError:
                    pass
        time.sleep(rng.choice([0, 0.3]))
    rep.counts["workers_lost"] += kills
    rep.counts["unfinished_when_lost"] += len(futures) - before
    where = f"{kills} of {n} workers got signal {how} after {before} of {len(futures)} calls"
    resumed = False
    if how == signal.SIGSTOP and rng.random() < 0.6:
        time.sleep(rng.choice([1, 8, 12]))
        for v in victims:
            os.kill(v, signal.SIGCONT)
        resumed = True
        where += ", resumed"
    if wait_all(rep, futures, ["C11"], where):
        judge(rep, futures, "C11")
    # the ones left serve on
    more = {c.submit(slow, 0, ("more", i)): (f"later call {i}", expect_value(slow(0, ("more", i))), "C11") for i in range(5)}
    if wait_all(rep, more, ["C11"], f"after {where}"):
        judge(rep, more, "C11")
    c.disconnect()
    if how == signal.SIGSTOP and not resumed:
        for v in victims:
            os.kill(v, signal.SIGCONT)
    d.combo.shutdown()
    if how != signal.SIGKILL:
        d.gone(where=where)
    d.clean()


def s_cancel(rep, rng):
    """a client leaves while its tasks run: they stop, and the workers serve on"""
    from vlib import zoo
    from vlib.engine_client import expect_value

    n = rng.choice([1, 2, 3])
    d = Deployment(rep, rng, n, per_worker_queue_size=rng.choice([1, 3, 1000]))
    d.guard("C09")
    folder = tempfile.gettempdir()
    a, b = d.client(), d.client()
    kinds = {}
    total = n + rng.choice([0, 2, 6])
    bad = rng.choice(KINDS)
    for i in range(total):
        kind = rng.choice(KINDS) if rng.random() < 0.5 else bad
        path = os.path.join(folder, f"witness{i}")
        kinds[path] = kind
        if rng.random() < 0.2:
            a.get({"k": kind, "s": 100, "w": path, "run": (busy, "k", "s", "w"), "top": (zoo.combine, "run")}, ["top"], block=False)
        else:
            a.submit(busy, kind, rng.choice([20, 100]), path, i)
        rep.counts["busy_" + kind] += 1
    started = lambda: [p for p in kinds if os.path.exists(p)]  # noqa
    end = time.monotonic() + rng.choice([0.0, 1.0, 30, 30])
    while time.monotonic() < end and len(started()) < min(n, total):
        time.sleep(0.05)
    time.sleep(rng.choice([0, 0.1, 0.5]))
    where = f"{n} workers, {total} tasks, {len(started())} running, mostly {bad}"
    rep.counts["running_when_cancelled"] += len(started())
    rep.notes.append(where)
    a.disconnect()
    # ends within bounded time: nobody beats any more, nothing new begins
    futures = {b.submit(slow, 0, i): (f"later call {i}", expect_value(slow(0, i)), "C09") for i in range(3 * n)}
    if wait_all(rep, futures, ["C09"], f"after {where}"):
        judge(rep, futures, "C09")
    size = lambda: {p: os.path.getsize(p) for p in started()}  # noqa
    end = time.monotonic() + 15
    before = size()
    while True:
        time.sleep(1.0)
        now = size()
        if now == before:
            break
        if time.monotonic() > end:
            for p in now:
                if now[p] != before.get(p):
                    rep.bad("C09", "runs-on", f"{where}: a {kinds[p]} task still runs 15 s after it was cancelled")
            break
        before = now
    rep.counts["cancelled_watched"] += total
    b.disconnect()
    for p in started():
        os.unlink(p)
    d.shutdown()
    d.gone(where=f"after cancelling, {where}")
    d.clean()


def s_shutdown(rep, rng):
    """a cluster is shut down in every state it can be in"""
    from vlib import zoo  # noqa

    n = rng.choice([1, 1, 2, 3, 4])
    d = Deployment(rep, rng, n, per_worker_queue_size=rng.choice([1, 3, 1000]))
    state = rng.choice(["starting", "starting", "starting", "idle", "busy", "busy", "queued", "worker-died", "scheduler-died"])
    c = None
    if state == "starting":
        time.sleep(rng.choice([0.0, rng.uniform(0, 0.5), rng.uniform(0.3, 0.9), rng.uniform(0.8, 2.0)]))
    else:
        d.wait_up()
        if state in ("busy", "queued", "worker-died"):
            c = d.client()
            for i in range({"busy": n, "queued": 20, "worker-died": 5}[state]):
                kind = rng.choice(KINDS)
                rep.counts["busy_" + kind] += 1
                c.submit(busy, kind, rng.choice([0.5, 3, 100]), None, i)
            time.sleep(rng.choice([0.1, 0.5, 1.5]))
        if state == "worker-died":
            v = rng.choice(d.agents())
            ps = d.processors(v)
            try:
                os.kill(v, signal.SIGINT)  # an interrupted worker cleans up after itself
            except ProcessLookupError:
                pass
            time.sleep(rng.choice([0.0, 1.0]))
            rep.notes.append(f"worker {v} {ps}")
        if state == "scheduler-died":
            os.kill(d.scheduler.pid, signal.SIGKILL)
            time.sleep(rng.choice([0.0, 0.5, 2.0]))
    how = rng.choice(["shutdown", "shutdown", "sigint", "sigterm", "group", "workers", "twice", "del", "slow-twice"])
    where = f"{n} workers {state}, {how}"
    try:
        if how == "shutdown":
            d.combo.shutdown()
        elif how == "sigint":
            os.kill(d.cluster.pid, signal.SIGINT)
        elif how == "sigterm":
            os.kill(d.cluster.pid, signal.SIGTERM)
        elif how == "group":  # what a terminal does on ctrl-c
            old = signal.signal(signal.SIGINT, signal.SIG_IGN)
            os.killpg(0, signal.SIGINT)
            signal.signal(signal.SIGINT, old)
        elif how == "workers":
            if state == "starting":
                os.kill(d.cluster.pid, signal.SIGTERM)
            else:
                for a in d.agents():
                    try:
                        os.kill(a, signal.SIGINT)
                    except ProcessLookupError:
                        pass
        elif how == "twice":
            d.combo.shutdown()
            time.sleep(rng.choice([0, 0.05, 0.3]))
            d.combo.shutdown()
        elif how == "slow-twice":
            os.kill(d.cluster.pid, signal.SIGINT)
            time.sleep(rng.choice([0.3, 0.8]))
            os.kill(d.cluster.pid, signal.SIGTERM)
        else:
            combo = d.combo
            d.combo = None
            del combo
            import gc

            gc.collect()
    except ProcessLookupError:
        pass
    d.gone(where=where)
    rep.counts[f"state_{state}"] += 1
    rep.counts[f"by_{how}"] += 1
    rep.notes.append(where)
    if c is not None:
        c.disconnect()
    if d.combo is not None:
        d.combo.shutdown()
    d.clean()


def s_serializer(rep, rng):
    """one serializer, counted in every process"""
    from vlib.engine_client import GuardedFunction, expect_value, some_value, uid_of
    from vlib.engine_proc import FileTagSerializer
    from vlib import zoo

    path = os.path.join(tempfile.gettempdir(), "operations")
    s = FileTagSerializer(path)
    d = Deployment(rep, rng, rng.choice([1, 2]), serializer=s)
    d.guard("C31")
    c = d.client(serializer=s)
    fs = [GuardedFunction(f"f{i}") for i in range(3)] + [GuardedFunction("plain")]
    futures, args_given, uses, results, wanted = {}, Counter(), Counter(), Counter(), Counter()
    for i in range(rng.choice([5, 20])):
        f = rng.choice(fs)
        a = [some_value(rng, f"a{i}-{j}") for j in range(rng.randrange(4))]
        for x in a:
            args_given[uid_of(x)] += 1
            uses[uid_of(x)] += 1
        want = f(*a)
        results[uid_of(want)] += 1
        wanted[uid_of(want)] += 1
        futures[c.submit(f, *a)] = (f"call {i}", expect_value(want), "C31")
    for i in range(rng.choice([2, 5])):
        g = {f"d{j}": some_value(rng, f"g{i}-{j}") for j in range(3)}
        for v in g.values():
            args_given[uid_of(v)] += 1
        g["n1"] = (rng.choice(fs), "d0", "d1")
        g["n2"] = (rng.choice(fs), "n1", rng.choice(["n1", "d0", "d2"]))
        g["n3"] = (rng.choice(fs), "n2", "n1", "d0")
        for k in ("n1", "n2", "n3"):
            results[uid_of(zoo.evaluate(g, k))] += 1
            for arg in g[k][1:]:
                v = zoo.evaluate(g, arg)
                (uses if arg[0] == "d" else wanted)[uid_of(v)] += 1
        keys = rng.sample(["n1", "n2", "n3"], rng.choice([1, 2, 3]))
        for k, f in c.get(g, keys, block=False).items():
            v = zoo.evaluate(g, k)
            wanted[uid_of(v)] += 1
            futures[f] = (f"graph {i} {k}", expect_value(v), "C31")
    if wait_all(rep, futures, ["C31"], "guarded calls"):
        judge(rep, futures, "C31")
    ops, seen = s.read(), {}
    dumps, loads = Counter(), Counter()
    for op, kind, nonce, uid in ops:
        if op == "dump":
            dumps[kind, uid] += 1
            if nonce in seen:
                rep.bad("C31", "operations", f"two encodings share a nonce {nonce}")
            seen[nonce] = (kind, uid)
        else:
            loads[kind, uid] += 1
            if nonce not in seen:
                rep.bad("C31", "foreign-payload", f"decoded bytes the serializer never made: {op} {kind} {nonce} {uid}")
            elif kind[0] != seen[nonce][0] and kind != "AR":
                rep.bad("C31", "foreign-payload", f"a {seen[nonce][0]} was decoded as {kind[0]}")
    if not rep.violations:
        for uid, n in args_given.items():
            if dumps["A", repr(uid)] != n or loads["AA", repr(uid)] != uses[uid]:
                rep.bad("C31", "times", f"argument {uid}: given {n} times, encoded {dumps['A', repr(uid)]}; used {uses[uid]} times, decoded {loads['AA', repr(uid)]}")
        for uid, n in results.items():
            if dumps["R", repr(uid)] != n:
                rep.bad("C31", "times", f"result {uid}: produced {n} times, encoded {dumps['R', repr(uid)]}")
            if loads["RR", repr(uid)] + loads["AR", repr(uid)] != wanted[uid]:
                rep.bad("C31", "times", f"result {uid}: used {wanted[uid]} times, decoded {loads['RR', repr(uid)]} + {loads['AR', repr(uid)]}")
    rep.counts["guarded_values"] += sum(args_given.values()) + sum(results.values())
    c.disconnect()
    d.shutdown()
    d.gone(where="shutdown")
    d.clean()


def wait_listening(port, seconds=30):
    end = time.monotonic() + seconds
    while time.monotonic() < end:
        with socket.socket() as s:
            if s.connect_ex(("127.0.0.1", port)) == 0:
                return
        time.sleep(0.1)


def s_programs(rep, rng):
    """the scheduler and cluster programs as a user starts them"""
    import subprocess

    import zmq

    from scaled.client import Client
    from scaled.protocol.python.message import PROTOCOL, MessageType, SchedulerState
    from vlib.engine_client import expect_value

    port, n, queue = free_port(), rng.choice([1, 2, 3]), rng.choice([1, 2, 7])
    address = f"tcp://127.0.0.1:{port}"
    monitor = f"/tmp/127.0.0.1_{port}_monitor"
    loops = ["builtin", "uvloop"] if importlib.util.find_spec("uvloop") else ["builtin"]
    loop, loop2 = rng.choice(loops), rng.choice(loops)
    rep.counts["uvloop_deployments"] += (loop == "uvloop") + (loop2 == "uvloop")
    death = rng.choice([4, 6, 30])
    so = ["--event-loop", loop, "--per-worker-queue-size", str(queue), "--load-balance-trigger-times", str(rng.choice([1, 2, 5])),
          "--function-retention-seconds", str(rng.choice([1, 3, 60])), "--worker-timeout-seconds", "30", "--io-threads", str(rng.choice([1, 2]))]
    co = ["--event-loop", loop2, "--num-of-workers", str(n), "--heartbeat-interval", "1", "--death-timeout-seconds", str(death),
          "--function-retention-seconds", str(rng.choice([1, 3, 60]))]
    where = f"scaled_scheduler {' '.join(so)}, scaled_cluster {' '.join(co)}"
    rep.notes.append(where)
    start = lambda name, args: subprocess.Popen([sys.executable, "-c", f"from scaled.entry_points.{name} import main; main()", *args, address])  # noqa
    programs = [("scheduler", so), ("cluster", co)]
    if death > 10 and rng.random() < 0.5:
        programs.reverse()
    running = {}
    for name, args in programs:
        running[name] = start(name, args)
        if death < 10:
            wait_listening(port)  # or workers may give up before it is there
        else:
            time.sleep(rng.choice([0, 0.3, 1.0]))
    client = Client(address)
    futures = {client.submit(slow, rng.choice([0, 0.1]), i): (f"call {i}", expect_value(slow(0, i)), "C26") for i in range(6 * n)}
    end = time.monotonic() + 60
    while time.monotonic() < end and not all(f.done() for f in futures):
        time.sleep(0.05)
        for name, p in running.items():
            if p.poll() is not None:
                rep.bad("C26", "program-ended", f"{name} ended by itself with {p.returncode}: {where}")
                return
    if not all(f.done() for f in futures):
        rep.bad("C26", "not-serving", f"{sum(not f.done() for f in futures)} of {len(futures)} calls are not computed within 60 s: {where}")
        return
    judge(rep, futures, "C26")
    rep.counts["programs_served"] += 1
    # what the scheduler publishes shows the workers and slots asked for
    sub = zmq.Context.instance().socket(zmq.SUB)
    sub.setsockopt(zmq.SUBSCRIBE, b"")
    sub.setsockopt(zmq.LINGER, 0)
    sub.connect(f"ipc://{monitor}")
    end, state, workers = time.monotonic() + 30, None, []
    while time.monotonic() < end:
        if not sub.poll(500):
            continue
        frames = sub.recv_multipart()
        if PROTOCOL[MessageType(frames[0])] is not SchedulerState:
            continue
        state = json.loads(SchedulerState.deserialize(frames[1:]).data)
        workers = state["worker_manager"]
        if len(workers) == n:
            break
    sub.close()
    if state is None:
        rep.bad("C26", "no-status", f"nothing is published on {monitor} within 30 s: {where}")
    elif len(workers) != n:
        rep.bad("C26", "workers", f"{len(workers)} workers are connected, {n} were asked for: {where}")
    elif any(w["free"] + w["sent"] != queue for w in workers):
        rep.bad("C26", "slots", f"workers have {[w['free'] + w['sent'] for w in workers]} slots, {queue} were asked for: {where}")
    rep.counts["status_read"] += state is not None
    client.disconnect()
    # the scheduler goes, the workers follow in the time given
    if death < 10:
        os.kill(running["scheduler"].pid, signal.SIGKILL)
        gone, end = time.monotonic(), time.monotonic() + death + 25
        while time.monotonic() < end and running["cluster"].poll() is None:
            time.sleep(0.1)
        took = time.monotonic() - gone
        if running["cluster"].poll() is None:
            rep.bad("C26", "death-timeout", f"workers still run {took:.0f} s after the scheduler died, {death} s were asked for")
            running["cluster"].kill()
        elif took < death - 2.5:  # its last answer was up to a heartbeat ago
            rep.bad("C26", "death-timeout", f"workers ended {took:.1f} s after the scheduler died, {death} s were asked for")
        rep.counts["outlived_scheduler"] += 1
    else:
        running["cluster"].send_signal(rng.choice([signal.SIGINT, signal.SIGTERM]))
        try:
            running["cluster"].wait(40)
        except subprocess.TimeoutExpired:
            rep.bad("C26", "program-left", f"cluster still runs 40 s after it was interrupted: {where}")
    left = sockets(tempfile.gettempdir())
    if left and not rep.violations:
        rep.bad("C26", "socket-left", f"{left[:3]} after {where}")
    if running["scheduler"].poll() is None:
        running["scheduler"].send_signal(signal.SIGINT)
        try:
            running["scheduler"].wait(10)
        except subprocess.TimeoutExpired:
            rep.counts["scheduler_needed_kill"] += 1
            running["scheduler"].kill()
    if os.path.exists(monitor):
        os.unlink(monitor)


def main():
    scenario, seed, out = sys.argv[1:4]
    signal.signal(signal.SIGINT, signal.default_int_handler)  # it is ignored when a shell starts this in the background, and that is inherited
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    rep = Report()
    rep.out = out
    rng = random.Random(f"{scenario}-{seed}")
    try:
        globals()[f"s_{scenario}"](rep, rng)
    except Exception:
        import traceback

        rep.notes.append("error: " + traceback.format_exc()[-2500:])
    rep.write()
    os._exit(0)


if __name__ == "__main__":
    main()
