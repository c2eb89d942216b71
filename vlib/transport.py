"""C18 across the real sockets: what one end sends is what the other end's callback gets, in order, and nothing else."""
import asyncio
import hashlib
import logging
import os
import threading
import time
import uuid

import zmq
import zmq.asyncio

from scaled.io.async_binder import AsyncBinder
from scaled.io.async_connector import AsyncConnector
from scaled.io.sync_connector import SyncConnector
from scaled.protocol.python import message as M
from scaled.utility.zmq_config import ZMQConfig, ZMQType

PATIENCE = 60.0


def free_tcp():
    import socket

    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        return s.getsockname()[1]


class Sent:
    """what one end has been given to send, and what came out at the other"""

    def __init__(self, what):
        self.what, self.sent, self.got = what, [], []


def p_transport(case, rng, seed):
    from vlib import engine_direct as D

    logging.disable(logging.CRITICAL)
    classes = sorted(M.PROTOCOL.values(), key=lambda c: c.__name__)
    scratch = os.environ.get("VERIF_SCRATCH") or "/tmp"
    path = os.path.join(scratch, f"t{uuid.uuid4().hex[:10]}")
    address = ZMQConfig(ZMQType.ipc, host=path) if rng.random() < 0.6 else ZMQConfig(ZMQType.tcp, host="127.0.0.1", port=free_tcp())
    n_async, n_sync = rng.choice([(1, 1), (2, 0), (0, 2), (2, 2)])
    amount = rng.choice([20, 60, 150])
    message = lambda: D.a_message(rng, rng.choice(classes))  # noqa
    channels, problems = [], []

    def compare(c):
        if len(c.got) != len(c.sent):
            case.bad("C18", "not-delivered", f"{c.what}: {len(c.sent)} messages sent, {len(c.got)} arrived within {PATIENCE:.0f}s; sent {[type(m).__name__ for m in c.sent[len(c.got):]][:3]} next")
        for i, (a, b) in enumerate(zip(c.sent, c.got)):
            if not D.close_enough(a, b):
                case.bad("C18", "changed", f"{c.what}: message {i}, {a!r:.200} arrived as {b!r:.200}")
                break
        case.counts["messages_carried"] += min(len(c.sent), len(c.got))

    async def forever(routine, what):
        try:
            while True:
                await routine()
        except asyncio.CancelledError:
            raise
        except BaseException as e:
            problems.append(f"{what}: {e!r:.300}")

    async def go():
        up, down, ends, tasks = {}, {}, [], []
        strangers = []

        async def at_binder(source, m):
            (up[source].got if source in up else strangers).append(m)

        binder = AsyncBinder(address=address, io_threads=1)
        binder.register(at_binder)
        tasks.append(asyncio.ensure_future(forever(binder.routine, "binder")))
        for i in range(n_async):
            c = Sent(f"binder to connector {i}")

            async def receive(m, c=c):
                c.got.append(m)

            end = AsyncConnector(context=zmq.asyncio.Context(), socket_type=zmq.DEALER, address=address, bind_or_connect="connect", callback=receive)
            up[end.identity], down[end.identity] = Sent(f"connector {i} to binder"), c
            tasks.append(asyncio.ensure_future(forever(end.routine, f"connector {i}")))
            ends.append(end)
        stop = threading.Event()
        for i in range(n_sync):
            c = Sent(f"binder to client connector {i}")
            end = SyncConnector(stop_event=stop, context=zmq.Context.instance(), socket_type=zmq.DEALER, bind_or_connect="connect", address=address,
                                callback=c.got.append, exit_callback=None, daemonic=True)
            up[end.identity], down[end.identity] = Sent(f"client connector {i} to binder"), c
            end.start()
            ends.append(end)
        channels.extend([*up.values(), *down.values()])

        async def send(end):
            m = message()
            up[end.identity].sent.append(m)
            if isinstance(end, AsyncConnector):
                await end.send(m)
            else:
                end.send(m)

        for end in ends:
            await send(end)
        limit = time.monotonic() + PATIENCE
        while not all(c.got for c in up.values()) and not problems and time.monotonic() < limit:
            await asyncio.sleep(0.002)
        noise = zmq.asyncio.Context.instance().socket(zmq.DEALER) if rng.random() < 0.3 else None
        if noise is not None:
            noise.setsockopt(zmq.LINGER, 0)
            noise.connect(address.to_address())
        for _ in range(amount):
            end = rng.choice(ends)
            if rng.random() < 0.5:
                await send(end)
            else:
                m = message()
                down[end.identity].sent.append(m)
                await binder.send(end.identity, m)
            if noise is not None and rng.random() < 0.1:
                # what is no message is nobody's business
                await noise.send_multipart(rng.choice([[b"ZZ", b"x"], [b""], [b"TK"], [b"nonsense"], [b"", b"", b""], [b"GT", b"\x00"]]))
                case.counts["noise"] += 1
            if rng.random() < 0.2:
                await asyncio.sleep(rng.choice([0, 0.001, 0.005]))
        while any(len(c.got) < len(c.sent) for c in channels) and not problems and time.monotonic() < limit:
            await asyncio.sleep(0.005)
        await asyncio.sleep(0.02)  # what nobody sent would come now
        if strangers and noise is None:
            case.bad("C18", "not-delivered", f"{len(strangers)} messages arrived under the identity of nobody: {strangers[0]!r:.200}")
        for t in tasks:
            t.cancel()
        await asyncio.gather(*tasks, return_exceptions=True)
        stop.set()
        for end in ends:
            if isinstance(end, SyncConnector):
                end.join(10)
            else:
                end.destroy()
        if noise is not None:
            noise.close()
        binder.destroy()

    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    hooked, dead = threading.excepthook, []
    threading.excepthook = lambda a: dead.append(f"client connector: {a.exc_value!r:.300}")
    try:
        loop.run_until_complete(asyncio.wait_for(go(), PATIENCE + 60))
    finally:
        threading.excepthook = hooked
        loop.close()
        logging.disable(logging.NOTSET)
    for text in (problems + dead)[:2]:
        case.bad("C18", "transport-failed", text)
    for c in channels:
        compare(c)
    if os.path.exists(path):
        os.unlink(path)
    case.counts["channels"] += len(channels)
    case.signature = hashlib.sha256(repr([(c.what, [type(m).__name__ for m in c.sent]) for c in channels]).encode()).hexdigest()[:16]


PROFILES = {"transport": p_transport}
