"""Parts that can be watched directly: messages, queues, tables, addresses, formatters, the monitor screen."""
import asyncio
import dataclasses
import hashlib
import os
import random
import struct
import traceback
import math

from scaled.protocol.python import message as M
from scaled.utility.key_value_set import KeyValueDictSet
from scaled.utility.one_to_many_dict import OneToManyDict
from scaled.utility.queues.async_indexed_queue import IndexedQueue
from scaled.utility.queues.async_priority_queue import PriorityQueue
from scaled.scheduler.allocators.queued import QueuedAllocator
from scaled.utility.zmq_config import ZMQConfig, ZMQType

from vlib.case import Case


# ------------------------------------------------------------------------------------------------ C18
TINY = [b"", b"D", b"T", b"\x00\x00\x00\x00", b"\x01\x00\x00\x00", b"TK", b"a"]


def blob(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice(TINY)
    if r < 0.9:
        return rng.randbytes(rng.choice([1, 2, 4, 8, 16, 40]))
    return rng.randbytes(rng.choice([255, 256, 65536, 300_000]))


def blobs(rng, high=4):
    n = many(rng)
    if n:
        return [rng.choice([*TINY, b"%d" % i]) for i in range(n)]
    return [blob(rng) for _ in range(rng.choice([0, 0, 1, 1, 2, high]))]


def many(rng):
    """now and then more than one byte can count"""
    return rng.choice([40, 63, 64, 126, 127, 128, 255, 256, 300, 1000]) if rng.random() < 0.02 else None


def a_task(rng):
    n = many(rng)
    if n:
        return M.Task(blob(rng), blob(rng), [M.Argument(rng.choice(list(M.ArgumentType)), rng.choice(TINY)) for _ in range(n)])
    return M.Task(blob(rng), blob(rng), [M.Argument(rng.choice(list(M.ArgumentType)), blob(rng)) for _ in range(rng.choice([0, 1, 1, 2, 5, 3]))])


def u32(rng):
    return rng.choice([0, 1, 2, 255, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, rng.randrange(2 ** 32)])


def u64(rng):
    return rng.choice([0, 1, 4096, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 3 * 2 ** 30, 2 ** 40, 2 ** 63, rng.randrange(2 ** 48)])


def a_message(rng, cls):
    e = lambda en: rng.choice(list(en))  # noqa
    if cls is M.Task:
        return a_task(rng)
    if cls in (M.TaskEcho, M.GraphTaskEcho):
        return cls(blob(rng), e(M.TaskEchoStatus))
    if cls in (M.TaskCancel, M.GraphTaskCancel):
        return cls(blob(rng))
    if cls is M.TaskResult:
        return cls(blob(rng), e(M.TaskStatus), rng.choice([0, 0.0, 1e-9, 0.1, 1, 3600.25, 1e9, rng.random() * 100]), blob(rng))
    if cls is M.GraphTask:
        fs = {}
        n = many(rng)
        for i in range(n or rng.choice([0, 1, 2, 3, 5])):
            fs[b"%d" % i if n else blob(rng)] = (blob(rng), blob(rng)) if not n else (b"", rng.choice(TINY))
        n = many(rng)
        return cls(blob(rng), fs, blobs(rng), [M.Task(b"%d" % i, rng.choice(TINY), []) for i in range(n)] if n else [a_task(rng) for _ in range(rng.choice([0, 1, 2, 3]))])
    if cls is M.GraphTaskResult:
        return cls(blob(rng), e(M.TaskStatus), blobs(rng, 20))
    if cls is M.BalanceRequest:
        return cls(u32(rng))
    if cls is M.BalanceResponse:
        return cls(blobs(rng, 30))
    if cls is M.Heartbeat:
        f = lambda: rng.choice([0.0, 0.001, 0.5, 1.0, 15.999, 128.0, rng.random() * 4, 1000.0])  # noqa
        return cls(f(), u64(rng), f(), u64(rng), u32(rng), u64(rng), rng.random() < .5, rng.random() < .5, rng.random() < .5)
    if cls is M.FunctionRequest:
        return cls(e(M.FunctionRequestType), blob(rng), blob(rng), blob(rng))
    if cls is M.FunctionResponse:
        return cls(e(M.FunctionResponseType), blob(rng), blob(rng), blob(rng))
    if cls in (M.DisconnectRequest, M.DisconnectResponse):
        return cls(blob(rng))
    if cls is M.SchedulerState:
        return cls(blob(rng))
    if cls is M.TaskState:
        return cls(blob(rng), blob(rng), e(M.TaskStatus))
    if cls is M.GraphTaskState:
        return cls(blob(rng), blob(rng), e(M.NodeTaskType), set(blobs(rng)))
    return cls()


def close_enough(a, b):
    if type(a) is not type(b):
        return False
    for f in dataclasses.fields(a):
        x, y = getattr(a, f.name), getattr(b, f.name)
        if isinstance(a, M.TaskResult) and f.name == "duration":
            if struct.pack("f", x) != struct.pack("f", y):
                return False
        elif isinstance(a, M.Heartbeat) and f.name in ("agent_cpu", "worker_cpu"):
            if abs(x - y) >= 0.001 + 1e-9:
                return False
        elif isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
            if list(x) != list(y):
                return False
        elif isinstance(x, dict):
            if {k: tuple(v) for k, v in x.items()} != {k: tuple(v) for k, v in y.items()} or list(x) != list(y):
                return False
        elif x != y or isinstance(x, bool) != isinstance(y, bool):
            return False
    return True


def canonical(m):
    """what the message says, to the precision of the wire"""
    out = []
    for f in dataclasses.fields(m):
        x = getattr(m, f.name)
        if isinstance(m, M.TaskResult) and f.name == "duration":
            x = struct.pack("f", x)
        elif isinstance(m, M.Heartbeat) and f.name in ("agent_cpu", "worker_cpu"):
            x = round(x, 1)  # far coarser than the wire
        elif isinstance(x, set):
            x = tuple(sorted(x))
        elif isinstance(x, dict):
            x = tuple((k, tuple(v)) for k, v in x.items())
        elif isinstance(x, list):
            x = tuple((i.task_id, i.function_id, tuple((a.type, a.data) for a in i.function_args)) if isinstance(i, M.Task)
                      else (i.type, i.data) if isinstance(i, M.Argument) else i for i in x)
        out.append(x)
    return type(m), tuple(out)


def p_messages(case, rng, seed):
    classes = sorted(M.PROTOCOL.values(), key=lambda c: c.__name__)
    seen = {}
    h = hashlib.sha256()
    for _ in range(1500):
        cls = rng.choice(classes)
        m = a_message(rng, cls)
        try:
            kind = M.PROTOCOL.inverse[type(m)].value
            frames = [bytes(f) for f in (kind, *m.serialize())]
        except Exception as e:
            case.bad("C18", "not-encodable", f"{m!r:.300}: {e!r}")
            continue
        try:
            back = M.PROTOCOL[M.MessageType(frames[0])].deserialize(list(frames[1:]))
        except Exception as e:
            case.bad("C18", "not-decodable", f"{m!r:.300}: {e!r}")
            continue
        case.counts["round_trips"] += 1
        case.counts[f"type_{cls.__name__}"] += 1
        if len(frames) == 1:
            case.bad("C18", "no-payload", f"{m!r:.200} has no payload frame and would be taken for a malformed message")
        if not close_enough(m, back):
            case.bad("C18", "changed", f"{m!r:.250} became {back!r:.250}")
        size = sum(map(len, frames))
        if size < 200:
            key, say = tuple(frames), canonical(m)
            if key in seen and seen[key] != say:
                case.bad("C18", "ambiguous", f"{m!r:.200} and {seen[key]!r:.200} share one encoding")
            seen.setdefault(key, say)
        h.update(b"|".join(frames)[:200])
    case.counts["distinct_encodings"] += len(seen)
    case.signature = h.hexdigest()[:16]


# ------------------------------------------------------------------------------------------------ C19
class Collides:
    """equal by value, all with one hash"""

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return isinstance(o, Collides) and self.v == o.v

    def __repr__(self):
        return f"C{self.v}"


def item(rng):
    return rng.choice([rng.randrange(8), str(rng.randrange(4)), (1, rng.randrange(3)), bytes([rng.randrange(4)]), Collides(rng.randrange(5)), None, True, 1.0,
                       frozenset([rng.randrange(2)]), b""])


def p_queue_steps(case, rng, seed):
    """no waiting: every operation against a list"""
    h = hashlib.sha256()

    async def go():
        large = rng.random() < 0.2
        maxsize = rng.choice([0, 0, 1, 3] if not large else [0, 0, 100, 1000])
        q, model = IndexedQueue(maxsize), []
        puts, domain = (0.45, 0) if not large else (0.6, rng.choice([100, 400, 2000]))
        draw = lambda: rng.randrange(domain) if domain else item(rng)  # noqa
        for i in range(600 if not large else 1500):
            op = rng.random()
            x = draw()
            if large and i % 300 == 299:
                puts = rng.choice([0.3, 0.6, 0.7])
            if op < puts:
                full = 0 < maxsize <= len(model)
                try:
                    q.put_nowait(x)
                    ok = True
                except asyncio.QueueFull:
                    ok = None
                except KeyError:
                    ok = False
                want = None if full else x not in model
                if ok is not want and not (full and ok is False and x in model):
                    case.bad("C19", "put", f"put {x!r} into {model}: {ok}, expected {want}")
                if ok:
                    model.append(x)
            elif op < 0.75:
                try:
                    got = ("item", q.get_nowait())
                except asyncio.QueueEmpty:
                    got = ("empty",)
                want = ("item", model[0]) if model else ("empty",)
                if got != want or (model and got[1] is not model[0]):
                    case.bad("C19", "get", f"get from {model}: {got}")
                if got[0] == "item" and model:
                    model.pop(0)
            else:
                if model and rng.random() < 0.7:
                    x = rng.choice(model)
                try:
                    q.remove(x)
                    ok = True
                except (KeyError, ValueError):
                    ok = False
                if ok != (x in model):
                    case.bad("C19", "remove", f"remove {x!r} from {model}: {ok}")
                if x in model:
                    model.remove(x)
            y = draw()
            if (q.qsize(), len(q), q.empty(), y in q) != (len(model), len(model), not model, y in model) or (maxsize and q.full() != (len(model) >= maxsize)):
                case.bad("C19", "size", f"size {q.qsize()} {len(q)} {q.empty()} {y!r} in {y in q}, expected {model}")
            case.counts["queue_operations"] += 1
            h.update(repr((op < .45, op < .75, len(model))).encode())
            if case.violations:
                break

    asyncio.run(go())
    case.signature = h.hexdigest()[:16]


def p_queue_tasks(case, rng, seed):
    """many tasks; operations take effect when they return, so the order of returns is the order of effects"""
    h = hashlib.sha256()

    async def go():
        maxsize = rng.choice([0, 0, 1, 2, 5])
        q, model = IndexedQueue(maxsize), []
        waiting_get, waiting_put = set(), set()
        stop = []
        n = [0]

        def check_size(where):
            if q.qsize() != len(model):
                case.bad("C19", "size", f"{where}: size {q.qsize()}, expected {len(model)}")

        async def pause():
            for _ in range(rng.choice([0, 0, 1, 1, 2, 5])):
                await asyncio.sleep(0)

        async def putter(me):
            for _ in range(rng.randrange(20, 40)):
                await pause()
                x = (me, n[0]) if rng.random() < 0.7 else ("shared", rng.randrange(6))
                n[0] += 1
                had = x in model
                waiting_put.add(me)
                try:
                    await q.put(x)
                    if x in model:
                        case.bad("C19", "duplicate", f"{x} accepted although present")
                    model.append(x)
                    h.update(b"p")
                    case.counts["queue_operations"] += 1
                except KeyError:
                    if x not in model and not had:
                        case.bad("C19", "put", f"{x} refused although absent")
                    h.update(b"r")
                finally:
                    waiting_put.discard(me)
                check_size("put")

        async def getter(me):
            while not stop:
                await pause()
                waiting_get.add(me)
                try:
                    x = await q.get()
                finally:
                    waiting_get.discard(me)
                h.update(b"g")
                case.counts["queue_operations"] += 1
                if not model or model[0] != x:
                    case.bad("C19", "order", f"got {x}, expected {model[:3]}")
                    if x in model:
                        model.remove(x)
                else:
                    model.pop(0)
                check_size("get")

        async def remover():
            for _ in range(60):
                await pause()
                x = rng.choice(model) if model and rng.random() < 0.8 else ("shared", rng.randrange(6))
                try:
                    q.remove(x)
                    ok = True
                except (KeyError, ValueError):
                    ok = False
                if ok != (x in model):
                    case.bad("C19", "remove", f"remove {x}: {ok}, present {x in model}")
                if x in model:
                    model.remove(x)
                    case.counts["removals_among_waiters"] += bool(waiting_get or waiting_put)
                h.update(b"x")
                check_size("remove")

        async def settle():
            for _ in range(50):
                await asyncio.sleep(0)

        tasks = [asyncio.create_task(putter(i)) for i in range(rng.choice([1, 2, 4]))]
        getters = [asyncio.create_task(getter(100 + i)) for i in range(rng.choice([1, 2, 4]))]
        tasks += [asyncio.create_task(remover())]
        if rng.random() < 0.5:
            async def killer():
                for _ in range(4):
                    await asyncio.sleep(0)
                    for _ in range(rng.randrange(30)):
                        await asyncio.sleep(0)
                    victim = rng.choice(getters)
                    if not victim.done():
                        victim.cancel()
                        case.counts["cancelled_waiters"] += 1
                    getters.append(asyncio.create_task(getter(1000 + len(getters))))
            tasks.append(asyncio.create_task(killer()))
        for _ in range(40):
            await asyncio.sleep(0)
            if rng.random() < 0.2:
                await settle()
        done, pending = await asyncio.wait(tasks, timeout=20)
        await settle()
        if pending:
            alive = [g for g in getters if not g.done()]
            if len(alive) and (maxsize == 0 or len(model) < maxsize):
                case.bad("C19", "putter-stuck", f"a producer waits although the queue holds {len(model)} of {maxsize}")
            for t in pending:
                t.cancel()
        for _ in range(200):
            await asyncio.sleep(0)
        if model and waiting_get:
            case.bad("C19", "getter-stuck", f"{len(waiting_get)} consumer(s) wait although the queue holds {len(model)}")
        for t in tasks:
            if t.done() and not t.cancelled() and t.exception():
                raise t.exception()
        for g in getters:
            if g.done() and not g.cancelled() and g.exception():
                case.bad("C19", "get", f"a consumer failed: {g.exception()!r}")
        # a removal between a put and the woken consumer
        q2 = IndexedQueue()
        got = []

        async def one():
            got.append(await q2.get())

        t = asyncio.create_task(one())
        await settle()
        await q2.put("a")
        q2.remove("a")
        await settle()
        if got:
            case.bad("C19", "removed-handed-out", f"consumer got {got} although it was removed")
        await q2.put("b")
        await settle()
        if got != ["b"]:
            case.bad("C19", "getter-stuck", f"consumer got {got} after a removal and another put")
        t.cancel()
        # a removal makes room for a waiting producer
        q3 = IndexedQueue(2)
        await q3.put(1)
        await q3.put(2)
        t = asyncio.create_task(q3.put(3))
        await settle()
        q3.remove(rng.choice([1, 2]))
        await settle()
        if not t.done():
            case.bad("C19", "putter-stuck", "a producer waits although a removal made room")
            t.cancel()
        case.counts["removals_among_waiters"] += 2
        for g in getters:
            g.cancel()


    asyncio.run(go())
    case.signature = h.hexdigest()[:16]


# ------------------------------------------------------------------------------------------------ C30
async def answer(case, what, coroutine):
    try:
        return await asyncio.wait_for(coroutine, 5)
    except asyncio.TimeoutError:
        case.bad("C30", "blocks", f"{what} does not return")
        raise


def p_allocator(case, rng, seed):
    h = hashlib.sha256()

    async def go():
        cap = rng.choice([1, 2, 3, 10])
        a = QueuedAllocator(cap)
        model = {}
        where = {}
        names = [f"w{i}".encode() for i in range(rng.choice([1, 2, 3, 6, 12, 40]))]
        count = 0

        def queries(when):
            ids = a.get_worker_ids()
            if set(ids or ()) != set(model):
                case.bad("C30", "workers", f"{when}: workers {ids}, expected {set(model)}")
            free = any(len(t) < cap for t in model.values())
            if bool(a.has_available_worker()) != free:
                case.bad("C30", "available", f"{when}: free slot {a.has_available_worker()}, expected {free} for { {k: len(v) for k, v in model.items()} } of {cap}")
            stats = a.statistics()
            want = {w: {"free": cap - len(t), "sent": len(t)} for w, t in model.items()}
            if stats != want:
                case.bad("C30", "statistics", f"{when}: {stats}, expected {want}")
            counts = {w: len(t) for w, t in model.items()}
            advice = {}
            if counts and any(counts.values()) and not all(counts.values()):
                mean = sum(counts.values()) / len(counts)
                advice = {w: math.ceil(c - mean) for w, c in counts.items() if c > mean}
            if a.balance() != advice:
                case.bad("C30", "balance", f"{when}: advice {a.balance()}, expected {advice} for {counts}")
            elif advice:
                case.counts["balance_advices"] += 1
            t = rng.choice(list(where) + [b"unknown"]) if where else b"unknown"
            if a.get_assigned_worker(t) != where.get(t):
                case.bad("C30", "assigned", f"{when}: {t!r} at {a.get_assigned_worker(t)}, expected {where.get(t)}")

        for i in range(400):
            op = rng.random()
            if op < 0.08 or len(model) * 3 < len(names) and op < 0.3 or not model and op < 0.5:
                w = rng.choice(names)
                ok = await answer(case, "add_worker", a.add_worker(w))
                if bool(ok) != (w not in model):
                    case.bad("C30", "add-worker", f"add_worker says {ok}, present {w in model}")
                model.setdefault(w, set())
            elif op < 0.12:
                w = rng.choice(names)
                got = a.remove_worker(w)
                want = model.pop(w, set())
                if sorted(got or ()) != sorted(want):
                    case.bad("C30", "remove-worker", f"remove_worker gives {got}, expected {want}")
                for t in want:
                    where.pop(t)
                case.counts["workers_removed"] += 1
            elif op < 0.6:
                count += 1
                again = where and rng.random() < 0.1
                t = rng.choice(list(where)) if again else f"t{count}".encode()
                got = await answer(case, "assign_task", a.assign_task(t))
                low = min((len(x) for x in model.values()), default=None)
                if again:
                    if got is not None and got != where[t]:
                        case.bad("C30", "reassigned", f"task at {where[t]} assigned to {got}")
                    if got is None and low < cap:
                        case.bad("C30", "assigned", "task assigned before is not found although there is room")
                elif low is None or low >= cap:
                    if got is not None:
                        case.bad("C30", "overfilled", f"assigned to {got} although no worker has room")
                elif got not in model or len(model[got]) != low:
                    case.bad("C30", "not-least-loaded", f"assigned to {got}, loads { {k: len(v) for k, v in model.items()} }")
                if got is not None and not again and got in model:
                    model[got].add(t)
                    where[t] = got
                    case.counts["assignments"] += 1
                h.update(repr(got).encode())
            else:
                t = rng.choice(list(where)) if where and rng.random() < 0.85 else b"unknown"
                got = a.remove_task(t)
                if got != where.get(t):
                    case.bad("C30", "remove-task", f"remove_task gives {got}, expected {where.get(t)}")
                if t in where:
                    model[where.pop(t)].discard(t)
            when = f"after step {i}"
            queries(when)
            if rng.random() < 0.3:
                queries(when + ", asked again")
            if len(case.violations) > 50:
                break

    try:
        asyncio.run(go())
    except asyncio.TimeoutError:
        pass
    case.signature = h.hexdigest()[:16]


def p_priority(case, rng, seed):
    h = hashlib.sha256()

    async def go():
        q, model = PriorityQueue(), {}
        n = 0
        for i in range(500):
            op = rng.random()
            if op < 0.35 or not model:
                n += 1
                name, p = f"{rng.randrange(1000):03d}-{n}".encode(), rng.choice([0, 1, 1, 2, 3, 5, 50])
                if op < 0.18:
                    q.put_nowait([p, name])
                else:
                    await answer(case, "put", q.put([p, name]))
                model[name] = p
            elif op < 0.6:
                p, name = q.get_nowait() if op < 0.5 else await answer(case, "get", q.get())
                if name not in model or model[name] != p or p != min(model.values()):
                    case.bad("C30", "not-lowest", f"queue gave {p} {name!r} of {sorted(model.items(), key=lambda x: x[1])[:3]}")
                model.pop(name, None)
            elif op < 0.85:
                name = rng.choice(list(model))
                if model[name] > 0:
                    q.decrease_priority(name)
                    model[name] -= 1
                    case.counts["priority_updates"] += 1
            else:
                name = rng.choice(list(model))
                q.remove(name)
                del model[name]
            if len(q) != len(model) or q.qsize() != len(model) or q.empty() != (not model):
                case.bad("C30", "size", f"queue holds {len(q)}, expected {len(model)}")
            for _ in range(rng.choice([1, 1, 3])):
                if model and q.max_priority() != min(model.values()):
                    case.bad("C30", "not-lowest", f"lowest priority {q.max_priority()}, expected {min(model.values())}")
            case.counts["priority_operations"] += 1
            h.update(bytes([int(op * 20), len(model) % 256]))
            if case.violations:
                break
        while model and not case.violations:
            p, name = q.get_nowait()
            if model.get(name) != p or p != min(model.values()):
                case.bad("C30", "not-lowest", f"queue gave {p} {name!r} while emptying")
            model.pop(name, None)

    try:
        asyncio.run(go())
    except asyncio.TimeoutError:
        pass
    case.signature = h.hexdigest()[:16]


def attempt(f):
    try:
        return ("value", f())
    except (KeyError, ValueError) as e:
        return ("refused",)


def p_tables(case, rng, seed):
    h = hashlib.sha256()
    d, model = OneToManyDict(), {}
    keys, pool = rng.choice([(6, ["a", "b", "c", "d", "e", 1, None, ""]), (6, ["a", "b", "c", "d", "e", 1, None, ""]), (40, list(range(150)))])
    for i in range(500):
        k, v = rng.randrange(keys), rng.choice(pool)
        owner = next((x for x, vs in model.items() if v in vs), "nobody")
        op = rng.randrange(8)
        if op <= 2:
            got = attempt(lambda: d.add(k, v))
            ok = owner == "nobody" or owner == k
            if (got[0] == "value") != ok:
                case.bad("C30", "table-add", f"add {k} {v!r}: {got}, owner {owner}")
            if ok:
                model.setdefault(k, set()).add(v)
        elif op == 3:
            got = attempt(lambda: d.remove_key(k))
            want = ("value", model.pop(k)) if k in model else ("refused",)
            if got != want:
                case.bad("C30", "table-remove", f"remove_key {k}: {got}, expected {want}")
        elif op == 4:
            got = attempt(lambda: d.remove_value(v))
            want = ("refused",) if owner == "nobody" else ("value", owner)
            if got != want:
                case.bad("C30", "table-remove", f"remove_value {v!r}: {got}, expected {want}")
            if owner != "nobody":
                model[owner].discard(v)
                if not model[owner]:
                    del model[owner]
        for _ in range(2):
            k2, v2 = rng.randrange(keys), rng.choice(pool)
            owner = next((x for x, vs in model.items() if v2 in vs), "nobody")
            got = (d.has_key(k2), k2 in d, d.has_value(v2), attempt(lambda: d.get_key(v2)), attempt(lambda: set(d.get_values(k2))), set(d.keys()),
                   sorted(map(repr, map(sorted_set, d.values()))), {a: set(b) for a, b in d.items()})
            want = (k2 in model, k2 in model, owner != "nobody", ("refused",) if owner == "nobody" else ("value", owner),
                    ("value", model[k2]) if k2 in model else ("refused",), set(model), sorted(map(repr, map(sorted_set, model.values()))), model)
            if got != want:
                case.bad("C30", "table-query", f"{got}, expected {want}")
        case.counts["table_operations"] += 1
        h.update(repr(sorted(model)).encode())
        if case.violations:
            break
    d, model = KeyValueDictSet(), {}
    for i in range(300):
        k, v = rng.randrange(5), rng.choice(["a", "b", "c", 1, None])
        op = rng.randrange(6)
        if op <= 2:
            d.add(k, v)
            model.setdefault(k, set()).add(v)
        elif op == 3:
            got = attempt(lambda: d.remove_key(k))
            want = ("value", model.pop(k)) if k in model else ("refused",)
            if got != want:
                case.bad("C30", "table-remove", f"remove_key {k}: {got}, expected {want}")
        elif op == 4:
            got = attempt(lambda: d.remove_value(k, v))
            ok = k in model and v in model[k]
            if (got[0] == "value") != ok:
                case.bad("C30", "table-remove", f"remove_value {k} {v!r}: {got}, expected {ok}")
            if ok:
                model[k].discard(v)
                if not model[k]:
                    del model[k]
        k2 = rng.randrange(5)
        for _ in range(2):
            got = (k2 in d, attempt(lambda: set(d.get_values(k2))), set(d.keys()), {a: set(b) for a, b in d.items()}, len(list(d.values())))
            want = (k2 in model, ("value", model[k2]) if k2 in model else ("refused",), set(model), model, len(model))
            if got != want:
                case.bad("C30", "table-query", f"{got}, expected {want}")
        case.counts["table_operations"] += 1
        if case.violations:
            break
    case.signature = h.hexdigest()[:16]


def sorted_set(s):
    return sorted(s, key=repr)


# ------------------------------------------------------------------------------------------------ C27
HOST = "abcxyz0189.-_*é/ \\%@[]~"


def p_addresses(case, rng, seed):
    h = hashlib.sha256()
    for i in range(600):
        # valid ones
        kind = rng.choice(["tcp", "ipc", "inproc"])
        if kind == "tcp":
            host = "".join(rng.choice(HOST) for _ in range(rng.choice([1, 3, 9, 40])))
            if "://" in host:
                continue
            port = rng.choice([0, 1, 80, 2345, 65535, rng.randrange(65536)])
            s = f"tcp://{host}:{port}"
            want = (ZMQType.tcp, host, port)
        else:
            host = "".join(rng.choice(HOST + ":@#") for _ in range(rng.choice([1, 3, 9, 60])))
            if rng.random() < 0.1:
                host += "://" + host
            s = f"{kind}://{host}"
            want = (ZMQType(kind), host, None)
        try:
            c = ZMQConfig.from_string(s)
            if (c.type, c.host, c.port) != want or c.to_address() != s:
                case.bad("C27", "parse", f"{s!r} parsed to {c!r}, printed {c.to_address()!r}")
        except Exception as e:
            case.bad("C27", "valid-refused", f"{s!r}: {e!r}")
        try:
            c = ZMQConfig(*want) if want[2] is not None or rng.random() < 0.5 else ZMQConfig(want[0], want[1])
            if ZMQConfig.from_string(c.to_address()) != c or c.to_address() != s:
                case.bad("C27", "print", f"{c!r} printed {c.to_address()!r}")
        except Exception as e:
            case.bad("C27", "valid-refused", f"ZMQConfig{want}: {e!r}")
        case.counts["valid_addresses"] += 1
        # bad ones
        bad = rng.choice([
            lambda: rng.choice(["udp", "http", "TCP", "pgm", "tcpx", "", "ip c", "tcp ", "ZMQType.tcp", "inproc:"]) + "://" + host + rng.choice(["", ":1"]),
            lambda: "tcp://" + rng.choice(["host", "127.0.0.1", "*", "a.b"]),
            lambda: "tcp://host:" + rng.choice(["", "x", "12x", "x12", "1.5", "0x10", "--1", "1e3", "None", "１x", " ", "12 34", "/", "80/"]),
            lambda: "tcp://" + rng.choice(["a:1:2", "a:b:3", "a::3", "::", "a:1:", ":a:1"]) if False else "tcp://host:port:x",
            lambda: rng.choice(["", "tcp", "tcp:", "tcp:/", "tcp:/host:1", "host:1", "127.0.0.1:80", "ipc:/x", ":", "//host:1", "tcp//h:1"]),
        ])()
        try:
            c = ZMQConfig.from_string(bad)
            case.bad("C27", "bad-accepted", f"{bad!r} parsed to {c!r}")
        except (ValueError, TypeError):
            case.counts["bad_refused"] += 1
        except Exception as e:
            case.bad("C27", "wrong-error", f"{bad!r}: {e!r}")
        args = rng.choice([("tcp", "h", 1), (ZMQType.tcp, "h", None), (ZMQType.tcp, "h"), (ZMQType.ipc, "/x", 1), (ZMQType.inproc, "x", 0), (ZMQType.inproc, "x", 5),
                           (ZMQType.tcp, 5, 1), (ZMQType.tcp, b"h", 1), (ZMQType.tcp, None, 1), (ZMQType.tcp, "h", "1"), (ZMQType.tcp, "h", 1.0),
                           (None, "h", 1), (ZMQType.ipc, None), (ZMQType.tcp, "h", b"1"), (ZMQType.ipc, "x", "1"), ("ipc", "x")])
        try:
            c = ZMQConfig(*args)
            case.bad("C27", "bad-accepted", f"ZMQConfig{args} accepted")
        except (ValueError, TypeError):
            case.counts["bad_refused"] += 1
        except Exception as e:
            case.bad("C27", "wrong-error", f"ZMQConfig{args}: {e!r}")
        # anything at all: refused, or consistent
        s = "".join(rng.choice(["tcp", "ipc", "inproc", "://", ":", "/", "1", "9", "-", "a", " ", "é", "\n", "+", "_", "٣", "::"]) for _ in range(rng.randrange(1, 8)))
        try:
            c = ZMQConfig.from_string(s)
            if ZMQConfig.from_string(c.to_address()) != c:
                case.bad("C27", "print", f"{s!r} parsed to {c!r}, printed and parsed to {ZMQConfig.from_string(c.to_address())!r}")
            case.counts["arbitrary_accepted"] += 1
        except (ValueError, TypeError):
            case.counts["arbitrary_refused"] += 1
        except Exception as e:
            case.bad("C27", "wrong-error", f"{s!r}: {e!r}")
        h.update(s.encode())
    case.signature = h.hexdigest()[:16]


PROFILES = {n[2:]: f for n, f in globals().items() if n.startswith("p_")}


def run_case(prop, profile, seed):
    case = Case()
    profiles = PROFILES
    if profile in ("screen", "numbers", "terminal"):
        from vlib import topcheck

        profiles = topcheck.PROFILES
    elif profile == "transport":
        from vlib import transport

        profiles = transport.PROFILES
    elif profile.startswith("options"):
        from vlib import optioncheck

        profiles = optioncheck.PROFILES
    profiles[profile](case, random.Random(f"{profile}-{seed}"), seed)
    case.sample = {"profile": profile, "seed": str(seed), "observed": dict(case.counts)}
    return case
