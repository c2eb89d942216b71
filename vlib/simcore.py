"""Virtual-time event loop and in-memory ZMQ under which the real scheduler and worker agents run.

Only process boundaries are replaced: the zmq.asyncio context, the clock, process creation and signals, psutil. Code of
the repository runs unmodified on top. Everything is driven by one seeded generator, so a seed replays exactly.
"""
import asyncio
import contextlib
import contextvars
import functools
import heapq
import multiprocessing.process
import os
import random
import sys
import selectors
import signal
import tempfile
import time
import uuid
from collections import deque

import psutil
import zmq
import zmq.asyncio

from scaled.protocol.python.message import MessageType, PROTOCOL

TIME_BASE = 1_700_000_000.0

current_proc: "contextvars.ContextVar" = contextvars.ContextVar("sim_proc", default=None)

_REAL = {}
ACTIVE = None  # the Sim now running in this process


# ---------------------------------------------------------------------------------------------------------- clock/loop
class Clock:
    def __init__(self):
        self.now = 0.0
        self.iterations = 0


class _Selector(selectors.BaseSelector):
    """Never waits: an idle loop jumps to its next timer, a busy one is charged eps per iteration."""

    def __init__(self, clock, eps):
        self.clock, self.eps = clock, eps
        self._map = {}

    def register(self, fileobj, events, data=None):
        key = selectors.SelectorKey(fileobj, 0 if not isinstance(fileobj, int) else fileobj, events, data)
        self._map[fileobj] = key
        return key

    def unregister(self, fileobj):
        return self._map.pop(fileobj, None)

    def modify(self, fileobj, events, data=None):
        return self.register(fileobj, events, data)

    def get_map(self):
        return self._map

    def get_key(self, fileobj):
        return self._map[fileobj]

    def close(self):
        self._map.clear()

    def select(self, timeout=None):
        self.clock.iterations += 1
        if timeout is None or timeout <= 0:
            self.clock.now += self.eps
        else:
            self.clock.now += timeout
        return []


class SimLoop(asyncio.SelectorEventLoop):
    def __init__(self, clock, eps):
        self.sim_clock = clock
        super().__init__(_Selector(clock, eps))
        self.task_registry = {}
        self.set_task_factory(self._factory)
        self.set_exception_handler(self._on_exception)
        self.uncaught = []

    def time(self):
        return self.sim_clock.now

    def _factory(self, loop, coro, **kw):
        task = asyncio.Task(coro, loop=loop, **kw)
        proc = current_proc.get()
        if proc is not None:
            self.task_registry.setdefault(proc, []).append(task)
        return task

    def _on_exception(self, loop, context):
        self.uncaught.append((context.get("message"), repr(context.get("exception"))))

    def add_signal_handler(self, sig, callback, *args):
        proc = current_proc.get()
        if proc is not None:
            proc.signal_handlers[sig] = functools.partial(callback, *args)

    def remove_signal_handler(self, sig):
        proc = current_proc.get()
        return proc is not None and proc.signal_handlers.pop(sig, None) is not None

    def run_until_complete(self, future):
        """A simulated process calls this from inside the running loop: remember its main future and carry on."""
        if self.is_running():
            proc = current_proc.get()
            proc.main = asyncio.ensure_future(future, loop=self)
            return None
        return super().run_until_complete(future)

    def close(self):
        if not self.is_running():  # a simulated process may close "its" loop
            super().close()


# ------------------------------------------------------------------------------------------------------------- network
def to_bytes(frame):
    if isinstance(frame, bytes):
        return frame
    if isinstance(frame, zmq.Frame):
        return frame.bytes
    return bytes(frame)


class Undecodable:
    def __init__(self, frames, error):
        self.frames, self.error = frames, error

    def __repr__(self):
        return f"Undecodable({self.frames!r}, {self.error})"


def decode(frames):
    """frames: [type, *payload] -> message, or Undecodable"""
    try:
        return PROTOCOL[MessageType(frames[0])].deserialize(list(frames[1:]))
    except Exception as e:  # noqa
        return Undecodable(frames, repr(e))


def encode(message):
    return [PROTOCOL.inverse[type(message)].value, *[to_bytes(f) for f in message.serialize()]]


class Link:
    """A connection between one DEALER-like peer and a ROUTER: two FIFO directions with delays."""

    def __init__(self, net, identity, peer, delay):
        self.net, self.identity, self.peer = net, identity, peer
        self.delay = delay  # callable -> seconds
        self.router = None
        self.next_up = self.next_down = 0.0
        self.blocked_until = 0.0
        self.alive = True
        self.up_cut = None  # sequence number from which upward messages are lost
        self.up_seq = 0
        self.in_flight = 0

    def _when(self, last):
        t = max(last + 1e-9, self.net.clock.now + self.delay(), self.blocked_until)
        return t

    def send_up(self, frames):
        if not self.alive:
            return
        self.up_seq += 1
        seq = self.up_seq
        self.next_up = self._when(self.next_up)
        self.in_flight += 1
        self.net.loop.call_at(self.next_up, self._arrive_up, seq, frames)

    def _arrive_up(self, seq, frames):
        self.in_flight -= 1
        if self.up_cut is not None and seq > self.up_cut:
            return
        if self.router is not None:
            self.router.deliver([self.identity, *frames])

    def send_down(self, frames):
        if not self.alive:
            return
        self.next_down = self._when(self.next_down)
        self.in_flight += 1
        self.net.loop.call_at(self.next_down, self._arrive_down, frames)

    def _arrive_down(self, frames):
        self.in_flight -= 1
        if self.alive:
            self.peer.deliver(frames)

    def close(self, lose_from=None):
        """Peer gone. Upward messages already sent still arrive, except those numbered above lose_from."""
        self.alive = False
        if lose_from is not None:
            self.up_cut = lose_from
        if self.router is not None:
            self.router.links.pop(self.identity, None)


class Net:
    def __init__(self, sim):
        self.sim, self.clock, self.loop = sim, sim.clock, sim.loop
        self.routers = {}
        self.waiting = []
        self.pairs = {}
        self.links = []

    def bind_router(self, address, sock):
        self.routers[address] = sock
        for link, addr in list(self.waiting):
            if addr == address:
                self.waiting.remove((link, addr))
                self._attach(link, sock)

    def _attach(self, link, sock):
        link.router = sock
        if link.alive:
            sock.links[link.identity] = link

    def connect(self, address, identity, peer, delay):
        link = Link(self, identity, peer, delay)
        self.links.append(link)
        sock = self.routers.get(address)
        if sock is None:
            self.waiting.append((link, address))
        else:
            self._attach(link, sock)
        return link


class _Done:
    """A completed awaitable that never suspends."""

    __slots__ = ("value",)

    def __init__(self, value=None):
        self.value = value

    def __await__(self):
        return self.value
        yield

    def done(self):
        return True

    def cancelled(self):
        return False

    def cancel(self, msg=None):
        return False

    def exception(self):
        return None

    def result(self):
        return self.value

    def add_done_callback(self, fn):
        fn(self)


class FakeSocket:
    def __init__(self, context, socket_type):
        self.sim = ACTIVE
        self.type = socket_type
        self.owner = current_proc.get()
        self.inbox = deque()
        self.waiter = None
        self.links = {}
        self.link = None
        self.identity = b""
        self.processor = None
        self.pending_sends = deque()
        self.closed = False
        self.address = None
        self.path = None

    # options
    def setsockopt(self, option, value):
        if option == zmq.IDENTITY:
            self.identity = value

    set = set_hwm = setsockopt_string = set_string = setsockopt_unicode = lambda self, option, value=None, *a: self.setsockopt(
        option, value.encode() if isinstance(value, str) else value)

    def getsockopt(self, option):
        return self.identity if option == zmq.IDENTITY else 0

    get = getsockopt

    async def poll(self, timeout=None, flags=zmq.POLLIN):
        end = None if timeout is None or timeout < 0 else self.sim.clock.now + timeout / 1000
        while not self.inbox and (end is None or self.sim.clock.now < end):
            await asyncio.sleep(0.001)
        return flags if self.inbox else 0

    def bind(self, address):
        self.address = address
        net = self.sim.net
        if self.type == zmq.ROUTER:
            net.bind_router(address, self)
        elif self.type == zmq.PAIR:
            self.path = address.split("://", 1)[1]
            with open(self.path, "w"):
                pass
            net.pairs[address] = self
            if self.owner is not None:
                self.owner.pair = self

    def connect(self, address):
        self.address = address
        if self.type == zmq.DEALER:
            delay = self.owner.link_delay if self.owner is not None else (lambda: 0.001)
            self.link = self.sim.net.connect(address, self.identity, self, delay)
            if self.owner is not None:
                self.owner.link = self.link
                self.owner.identity = self.identity

    # delivery from the network
    def deliver(self, frames):
        if self.closed:
            return
        self.inbox.append(frames)
        self._wake()

    def _wake(self):
        if self.waiter is not None and not self.waiter.done() and self.inbox:
            self.waiter.set_result(None)

    async def recv_multipart(self, flags=0, copy=True, track=False):
        if flags & zmq.NOBLOCK and not self.inbox:
            raise zmq.Again()
        while not self.inbox:
            self.waiter = self.sim.loop.create_future()
            try:
                await self.waiter
            finally:
                self.waiter = None
        frames = self.inbox.popleft()
        self.sim.on_consumed(self, frames)
        return list(frames)

    def send_multipart(self, frames, flags=0, copy=True, track=False, **kw):
        frames = [to_bytes(f) for f in frames]
        if self.owner is not None and self.owner.killed:
            return _Done()
        if self.closed:
            raise zmq.ZMQError(zmq.ENOTSOCK)
        if self.type == zmq.ROUTER:
            self.sim.on_router_send(self, frames)
            link = self.links.get(frames[0])
            if link is not None:
                link.send_down(frames[1:])
            return _Done()
        if self.type == zmq.DEALER:
            self.sim.on_dealer_send(self, frames)
            self.link.send_up(frames)
            return _Done()
        if self.type == zmq.PUB:
            self.sim.on_pub(self, frames)
            return _Done()
        if self.type == zmq.PAIR:
            if self.processor is not None:
                self.processor.send_down(frames)
                return _Done()
            fut = self.sim.loop.create_future()
            self.pending_sends.append((frames, fut))
            return fut
        raise AssertionError(self.type)

    # PAIR
    def attach_processor(self, processor):
        if self.closed:
            return
        self.processor = processor
        while self.pending_sends:
            frames, fut = self.pending_sends.popleft()
            processor.send_down(frames)
            if not fut.done():
                fut.set_result(None)

    def close(self, linger=None):
        self.closed = True
        if self.link is not None:
            self.link.close()

    def subscribe(self, *_):
        pass

    unsubscribe = unbind = disconnect = monitor = disable_monitor = subscribe


class FakeContext:
    def __init__(self, *a, **kw):
        self.sockets = []
        self.closed = False

    def socket(self, socket_type, *a, **kw):
        sock = FakeSocket(self, socket_type)
        self.sockets.append(sock)
        return sock

    def destroy(self, linger=None):
        if not self.closed:
            self.closed = True
            for s in self.sockets:
                s.close()

    term = destroy

    @classmethod
    def instance(cls, *a, **kw):
        return cls()


# ----------------------------------------------------------------------------------------------------- fake process API
class _FakePopen:
    def __init__(self, proc):
        self.proc, self.pid, self.sentinel = proc, proc.pid, -1
        self.returncode = None

    def poll(self, flag=0):
        return None if self.proc.alive else -15

    def wait(self, timeout=None):
        return self.poll()

    def terminate(self):
        self.proc.kill()

    kill = terminate

    def close(self):
        pass


class _FakeMem:
    def __init__(self, rss):
        self.rss = rss
        self.vms = rss


class _FakePsutil:
    def __init__(self, pid=None):
        self.pid = pid
        self.owner = current_proc.get()

    def oneshot(self):
        return contextlib.nullcontext()

    def as_dict(self, attrs=None, ad_value=None):
        return {a: getattr(self, a)() for a in attrs or ("cpu_percent", "memory_info", "status")}

    def memory_full_info(self):
        return self.memory_info()

    def __getattr__(self, name):  # what the simulation does not decide
        return getattr(_REAL["process"](), name)

    def cpu_percent(self, interval=None):
        fn = getattr(self.owner, "cpu_source", None)
        return fn() if fn else 0.0

    def memory_info(self):
        fn = getattr(self.owner, "rss_of", None)
        return _FakeMem(fn(self.pid) if fn else 1 << 20)

    def is_running(self):
        return True

    def status(self):
        return "running"


def install_patches():
    """Once per process. The patched entry points consult ACTIVE."""
    if _REAL:
        return
    _REAL.update(time=time.time, time_ns=time.time_ns, kill=os.kill, start=multiprocessing.process.BaseProcess.start,
                 uuid1=uuid.uuid1, uuid4=uuid.uuid4, process=psutil.Process, context=zmq.asyncio.Context,
                 getpid=os.getpid)

    def fake_time():
        return TIME_BASE + ACTIVE.clock.now if ACTIVE is not None else _REAL["time"]()

    def fake_time_ns():
        return int((TIME_BASE + ACTIVE.clock.now) * 1e9) if ACTIVE is not None else _REAL["time_ns"]()

    def fake_other_clock(real, scale):
        # the harness and the standard library go on with the real one
        def clock():
            if ACTIVE is not None and str(sys._getframe(1).f_globals.get("__name__", "")).startswith("scaled."):
                return scale(ACTIVE.clock.now)
            return real()

        return clock

    for name in ("monotonic", "perf_counter"):
        setattr(time, name, fake_other_clock(getattr(time, name), lambda now: 5000 + now))
        setattr(time, name + "_ns", fake_other_clock(getattr(time, name + "_ns"), lambda now: int((5000 + now) * 1e9)))

    def fake_kill(pid, sig):
        if ACTIVE is None:
            return _REAL["kill"](pid, sig)
        return ACTIVE.on_kill(pid, sig)

    def fake_start(self):
        if ACTIVE is None:
            return _REAL["start"](self)
        proc = ACTIVE.on_process_start(self)
        self._popen = _FakePopen(proc)

    def fake_uuid(*a, **kw):
        if ACTIVE is None:
            return _REAL["uuid4"]()
        return uuid.UUID(bytes=ACTIVE.id_rng.randbytes(16), version=4)

    def fake_process(pid=None):
        if ACTIVE is None:
            return _REAL["process"](pid)
        return _FakePsutil(pid)

    def fake_context(*a, **kw):
        if ACTIVE is None:
            return _REAL["context"](*a, **kw)
        return FakeContext(*a, **kw)

    def inside():
        return ACTIVE is not None and current_proc.get() is not None

    def fake_run(main, **kw):
        return ACTIVE.loop.run_until_complete(main) if inside() else real_run(main, **kw)

    def fake_new_event_loop():
        return ACTIVE.loop if inside() else real_new_event_loop()

    def fake_set_event_loop(loop):
        return None if inside() else real_set_event_loop(loop)

    real_run, real_new_event_loop, real_set_event_loop = asyncio.run, asyncio.new_event_loop, asyncio.set_event_loop
    asyncio.run, asyncio.new_event_loop, asyncio.set_event_loop = fake_run, fake_new_event_loop, fake_set_event_loop
    time.time, time.time_ns = fake_time, fake_time_ns
    os.kill = fake_kill
    multiprocessing.process.BaseProcess.start = fake_start
    uuid.uuid1 = fake_uuid
    uuid.uuid4 = fake_uuid
    psutil.Process = fake_process
    zmq.asyncio.Context = fake_context
    os.getpid = lambda: 4242 if ACTIVE is not None else _REAL["getpid"]()
