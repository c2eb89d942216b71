"""The monitor screen, drawn by the real curses library on a pseudo terminal of any size (C28)."""
import curses
import fcntl
import hashlib
import json
import locale
import os
import pty
import random
import re
import signal
import struct
import subprocess
import sys
import termios
import threading
import time

import zmq

from scaled.entry_points import top
from scaled.protocol.python.message import PROTOCOL, MessageType, SchedulerState
from scaled.utility import formatter

_screen = None
KEYS = {"n": "worker", "C": "agt_cpu", "M": "agt_rss", "c": "cpu", "m": "rss", "f": "free", "w": "sent", "d": "queued", "l": "lag"}


def screen():
    """one real curses screen per process, on a pseudo terminal nobody looks at"""
    global _screen
    if _screen is None:
        master, slave = pty.openpty()
        os.dup2(slave, 0)
        os.dup2(slave, 1)

        def drain():
            while True:
                try:
                    if not os.read(master, 65536):
                        return
                except OSError:
                    return

        threading.Thread(target=drain, daemon=True).start()
        os.environ["TERM"] = "xterm"
        locale.setlocale(locale.LC_ALL, "")
        fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", 50, 100, 0, 0))
        _screen = curses.initscr()
        curses.noecho()
        curses.cbreak()
        _screen.keypad(True)
        _screen.nodelay(True)
    return _screen


def contents(s, h, w):

    return [s.instr(y, 0, 4 * w).decode("utf-8", "replace").ljust(w)[:w] for y in range(h)]


# ------------------------------------------------------------------------------------------------ numbers
BYTES = {"b": 1, "k": 1024, "m": 1024 ** 2, "g": 1024 ** 3, "t": 1024 ** 4}


def check_bytes(text, n):
    m = re.fullmatch(r"(-?[\d.,]+)([bkmgt])", text)
    if not m:
        return "unreadable"
    v, u = float(m.group(1).replace(",", "")), BYTES[m.group(2)]
    step = (10 ** -len(m.group(1).partition(".")[2])) * u
    if abs(v * u - n) > step * 1.0001:
        return "wrong"
    if v >= 1024.05 and m.group(2) != "t":
        return "not human units"
    return None


def check_percent(text, x):
    m = re.fullmatch(r"(-?[\d.,]+)%", text)
    if not m:
        return "unreadable"
    v = m.group(1).replace(",", "")
    step = 10 ** -len(v.partition(".")[2])
    return None if abs(float(v) - x * 100) <= step * 1.0001 + abs(x) * 1e-6 else "wrong"


def check_us(text, us):
    m = re.fullmatch(r"([\d.,]+)(\+?)(us|ms|s)", text)
    if not m:
        return "unreadable"
    u = {"us": 1, "ms": 1000, "s": 10 ** 6}[m.group(3)]
    v = m.group(1).replace(",", "")
    step = (10 ** -len(v.partition(".")[2])) * u
    if m.group(2):
        return None if float(v) * u <= us + step else "wrong"
    return None if abs(float(v) * u - us) <= step * 1.0001 else "wrong"


def check_seconds(text, s):
    if text.endswith("+s"):
        v = float(text[:-2])
        return None if s >= v else "wrong"
    m = re.fullmatch(r"(\d+)s", text)
    if not m:
        return "unreadable"
    return None if int(m.group(1)) == s else "wrong"


def check_integer(text, n):
    try:
        return None if int(text.replace(",", "")) == n and re.fullmatch(r"-?\d{1,3}(,\d{3})*|-?\d+", text) else "wrong"
    except ValueError:
        return "unreadable"


def number(rng):
    r = rng.random()
    if r < 0.3:
        return rng.choice([0, 1, 9, 10, 59, 60, 61, 99, 100, 999, 1000, 1001, 1023, 1024, 1025, 1048575, 1048576, 999999, 10 ** 6, 2 ** 30 - 1, 2 ** 30, 2 ** 31, 2 ** 32,
                           2 ** 40 - 1, 2 ** 40, 2 ** 50, 999_999_999, 10 ** 9, 10 ** 9 + 1, 2 ** 63])
    return int(10 ** rng.uniform(0, 16))


def p_numbers(case, rng, seed):
    h = hashlib.sha256()
    for _ in range(4000):
        n = number(rng)
        x = rng.choice([0.0, 0.001, 0.0005, 0.00049, 0.5, 1.0, 0.999, 0.9995, 15.25, rng.random(), rng.random() * 64, rng.random() * 1000])
        for f, check, v in ((formatter.format_bytes, check_bytes, n), (formatter.format_integer, check_integer, n), (formatter.format_percentage, check_percent, x),
                            (formatter.format_microseconds, check_us, n), (formatter.format_seconds, check_seconds, n % 100000)):
            try:
                text = f(v)
            except Exception as e:
                case.bad("C28", "number-fails", f"{f.__name__}({v}): {e!r}")
                continue
            why = check(text, v)
            if why:
                case.bad("C28", "number", f"{f.__name__}({v}) shows {text!r}: {why}")
            case.counts["numbers_checked"] += 1
            h.update(text.encode())
        if len(case.violations) > 10:
            break
    # larger values never look smaller
    for f, check in ((formatter.format_bytes, BYTES),):
        ns = sorted(number(rng) for _ in range(300))
        vals = []
        for n in ns:
            m = re.fullmatch(r"(-?[\d.,]+)([bkmgt])", f(n))
            if m:
                vals.append((float(m.group(1)) * BYTES[m.group(2)], n))
        for (a, n1), (b, n2) in zip(vals, vals[1:]):
            if a > b:
                case.bad("C28", "number", f"{f.__name__}: {n1} looks larger than {n2}")
    case.signature = h.hexdigest()[:16]


# ------------------------------------------------------------------------------------------------ statuses
def name(rng, unique, kind):
    r = rng.random()
    if r < 0.35:
        s = f"{unique}-" + "x" * rng.choice([0, 1, 3, 10, 14, 16])
    elif r < 0.6:
        s = f"{unique}|{rng.choice(['host', 'a-very-long-host-name.example.com', 'h'])}|{kind}|{rng.randrange(10 ** 9)}"
    elif r < 0.7:
        s = f"{unique}" + rng.choice(["\\xff\\x80", "%s%d", "{x}", "\\n", " a b", "[cpu]", "-", "'\"", "<lambda>", "é-ü", "λ" * 30])
    elif r < 0.72:
        s = f"{unique}" + rng.choice(["\0", "\n", "a\tb", "\x1b[2J", "\x07", "\r", "a\nb"])
    elif r < 0.76:
        s = f"{unique}" + "z" * rng.choice([100, 1000])
    else:
        s = f"{unique}"
    return s


def draw(rng):
    workers = []
    many = rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 20, 60])
    same = rng.random() < 0.2
    for i in range(many):
        workers.append({
            "worker": name(rng, f"W{i:03d}{rng.choice('abc')}", "Worker"),
            "agt_cpu": round(rng.choice([0.0, 0.01, 0.5, 1.0, rng.random() * 3, rng.random() * 500]), 3), "agt_rss": number(rng),
            "cpu": 0.5 if same else round(rng.choice([0.0, 1.0, rng.random(), rng.random() * 16, rng.random() * 128]), 3), "rss": number(rng),
            "free": rng.choice([0, 1, 1000, rng.randrange(10 ** 6)]), "sent": rng.choice([0, 1, 1000, rng.randrange(10 ** 6)]),
            "queued": rng.choice([0, 0, 7, rng.randrange(2 ** 16)]), "lag": number(rng) % 2 ** 62, "last": rng.choice([0, 0, 1, 4, 5, 6, 59, 60, 61, 3600, 10 ** 6]),
            "ITL": rng.choice(["000", "100", "110", "111"])})
    rng.shuffle(workers)
    msgs = [m.name for m in MessageType]
    return {
        "worker_manager": workers,
        "client_manager": {name(rng, f"C{i:02d}", "Client"): number(rng) % 10 ** 7 for i in range(rng.choice([0, 0, 1, 2, 5, 30]))},
        "function_manager": {name(rng, f"F{i:02d}", "fn"): number(rng) % 10 ** 7 for i in range(rng.choice([0, 0, 1, 2, 5, 30]))},
        "task_manager": {k: rng.choice([0, 1, 999, 1000, number(rng)]) for k in ("unassigned", "running", "success", "failed", "canceled", "not_found")},
        "graph_manager": {"unassigned": rng.randrange(10)},
        "binder": {k: {m: rng.choice([1, number(rng)]) for m in rng.sample(msgs, rng.choice([0, 1, 4, 9]))} for k in ("received", "sent")},
        "scheduler": {"cpu": round(rng.choice([0.0, 0.013, 1.0, rng.random() * 20]), 3), "rss": number(rng)}}


def show(case, s, status, config, key, h, w):
    curses.resizeterm(h, w)
    s.erase()
    curses.flushinp()
    if key:
        curses.ungetch(ord(key))
    try:
        top.show_status(SchedulerState(json.dumps(status).encode()), s, config)
    except BaseException as e:  # noqa
        case.bad("C28", "screen-fails", f"screen {h}x{w}, {len(status['worker_manager'])} workers, {len(status['client_manager'])} clients: {e!r}")
        return None
    return contents(s, h, w)


def rows_of(lines, sort_by):
    for y, line in enumerate(lines):
        if re.match(r"\s*(\[worker\]|worker)\s", line) and f"[{sort_by}]" in line:
            return y
    return None


def plain(n):
    return "".join(c if c.isprintable() else "?" for c in n)


def shown_name(n):
    n = plain(n)
    return n if len(n) <= 24 else n[:24] + "+"


def p_screen(case, rng, seed):
    s = screen()
    h = hashlib.sha256()
    for _ in range(12):
        status = draw(rng)
        key = rng.choice(list(KEYS) + ["", "", "z", " "])
        was = rng.choice(["cpu"] + list(KEYS.values()))
        sort_by = KEYS.get(key, was)
        config = {"sort_by": was}
        full = show(case, s, status, config, key, 200, 900)
        if full is None:
            continue
        case.counts["screens"] += 1
        workers = sorted(status["worker_manager"], key=lambda x: x[sort_by], reverse=True)
        case.counts["workers_shown"] += len(workers)
        check_top(case, full, status)
        if not workers:
            if not any("No workers" in line for line in full) and any(re.search(r"\bITL\b", line) for line in full):
                case.bad("C28", "rows", "workers are listed although there are none")
        else:
            check_workers(case, full, status, workers, sort_by)
        if f"Total {len(workers)} worker" not in "\n".join(full):
            case.bad("C28", "total", f"the number of workers, {len(workers)}, is not shown")
        used_w = max(len(line.rstrip()) for line in full)
        used_h = max([y for y, line in enumerate(full) if line.strip()] or [0]) + 1
        at = rows_of(full, sort_by)
        for _ in range(8):
            hh = rng.choice([1, 2, 3, 5, 8, 10, 12, 20, 24, 30, used_h, used_h + 1, max(1, used_h - 1), rng.randrange(1, 60)])
            ww = rng.choice([1, 2, 3, 10, 20, 33, 34, 35, 40, 80, 120, used_w, used_w + 1, used_w + 2, used_w + 3, used_w + 10, used_w + 30, used_w + 50, used_w + 100, rng.randrange(1, 300)])
            part = show(case, s, status, {"sort_by": sort_by}, "", hh, ww)
            if part is None:
                break
            case.counts["small_screens"] += 1
            if ww >= used_w + 2 and at is not None and hh > at + 1:
                # everything that fits is there, exactly as on the large screen; only the last line may be cut
                for y in range(at, min(hh - 1, used_h)):
                    if part[y].rstrip() != full[y][:ww].rstrip():
                        case.bad("C28", "fits", f"{hh}x{ww}: line {y} shows {part[y].rstrip()!r:.200}, on a larger screen {full[y].rstrip()!r:.200}")
                        break
                case.counts["cropped_compared"] += 1
                n = sum(1 for line in part if any(line.lstrip().startswith(shown_name(x["worker"])) for x in workers))
                if n < min(len(workers), hh - at - 2):
                    case.bad("C28", "fits", f"{hh}x{ww}: {n} of {len(workers)} workers listed, {hh - at - 1} lines left below the header")
            h.update(f"{hh}x{ww}".encode())
        h.update(json.dumps(status).encode())
        if len(case.violations) > 5:
            break
    case.signature = h.hexdigest()[:16]


def check_top(case, lines, status):
    """the tables above the workers: every value next to its name, in its own table"""
    titles = {"scheduler": "scheduler", "task_manager": "task_manager", "scheduler_sent": "sent", "scheduler_received": "received"}
    head = next((y for y, line in enumerate(lines) if "task_manager" in line and "scheduler_sent" in line), None)
    if head is None:
        return case.bad("C28", "tables", "the summary tables are not shown")
    order = [t.strip() for t in lines[head].split("|")]
    sep = [i for i, c in enumerate(lines[head]) if c == "|"] + [len(lines[head])]
    tables, left = {}, 0
    bottom = next((y for y in range(head + 1, len(lines)) if lines[y].startswith("----")), len(lines))
    for title, right in zip(order, sep):
        cells = {}
        for y in range(head + 1, bottom):
            parts = lines[y][left:right].strip().split()
            if len(parts) == 2:
                cells[parts[0]] = parts[1]
            elif parts and parts != [""]:
                case.bad("C28", "tables", f"{title}: {parts}")
        tables[title] = cells
        left = right + 1
    expect = {"scheduler": {"cpu": (check_percent, status["scheduler"]["cpu"]), "rss": (check_bytes, status["scheduler"]["rss"])},
              "task_manager": {k: (check_integer, v) for k, v in status["task_manager"].items()},
              "scheduler_sent": {k: (check_integer, v) for k, v in status["binder"]["sent"].items()},
              "scheduler_received": {k: (check_integer, v) for k, v in status["binder"]["received"].items()}}
    for title in titles:
        got = tables.get(title)
        if got is None or set(got) != set(expect[title]):
            case.bad("C28", "tables", f"{title} shows {got}, expected {sorted(expect[title])}")
            continue
        for k, (check, v) in expect[title].items():
            why = check(got[k], v)
            case.counts["numbers_on_screen"] += 1
            if why:
                case.bad("C28", "number", f"{title} {k} {v} shown as {got[k]!r}: {why}")


def check_workers(case, lines, status, workers, sort_by):
    at = rows_of(lines, sort_by)
    if at is None:
        return case.bad("C28", "rows", f"no worker table sorted by {sort_by}")
    head = lines[at]
    titles, edges = ["worker", "agt_cpu", "agt_rss", "cpu", "rss", "free", "sent", "queued", "lag", "ITL"], {}
    for m in re.finditer(r"\S+", head):
        edges.setdefault(m.group().strip("[]"), m.end())
    if not all(t in edges for t in titles):
        return case.bad("C28", "rows", f"header {head.rstrip()!r}")
    by_edge = sorted(titles, key=lambda t: edges[t])
    got = []
    for y in range(at + 1, len(lines)):
        cells, left = {}, 0
        for t in by_edge:
            cells[t] = lines[y][left:edges[t]].strip()
            left = edges[t]
        if not cells["worker"]:
            break
        got.append(cells)
    byname = {shown_name(w["worker"]).strip(): w for w in workers}
    if sorted(c["worker"] for c in got) != sorted(byname):
        return case.bad("C28", "rows", f"workers listed {[c['worker'] for c in got]}, expected {list(byname)}")
    keys = [byname[c["worker"]][sort_by] for c in got]
    if keys != sorted(keys, reverse=True):
        case.bad("C28", "order", f"sorted by {sort_by} but shown in order {keys}")
    for c in got:
        w = byname[c["worker"]]
        for col, check in (("agt_cpu", check_percent), ("agt_rss", check_bytes), ("cpu", check_percent), ("rss", check_bytes), ("free", check_integer),
                           ("sent", check_integer), ("queued", check_integer)):
            why = check(c[col], w[col])
            case.counts["numbers_on_screen"] += 1
            if why:
                case.bad("C28", "number", f"worker {c['worker']} {col} {w[col]} shown as {c[col]!r}: {why}")
        m = re.fullmatch(r"(?:\((\S+)\) )?(\S+)", c["lag"])
        if not m or check_us(m.group(2), w["lag"]) or (m.group(1) and check_seconds(m.group(1), w["last"])) or bool(m.group(1)) != (w["last"] > 5):
            case.bad("C28", "number", f"worker {c['worker']} lag {w['lag']}us last heard {w['last']}s ago shown as {c['lag']!r}")
        if c["ITL"] != w["ITL"]:
            case.bad("C28", "number", f"worker {c['worker']} ITL {w['ITL']} shown as {c['ITL']!r}")
    # the tables beside: clients and functions
    right = head.find("|", edges["ITL"])
    if "client_manager" not in head or right < 0:
        return case.bad("C28", "tables", "clients are not shown")
    edge = head.index("client_manager") + len("client_manager")
    pairs = []
    for y in range(at + 1, len(lines)):
        k, v = lines[y][right + 1:edge].strip(), lines[y][edge:].strip()
        if k:
            pairs.append((k, v))
    short = lambda n: (plain(n) if len(n) <= 18 else plain(n)[:18] + "+").strip()  # noqa
    want = [(short(k), v) for k, v in status["client_manager"].items()] + [("func_to_num_tasks", None)] + [(short(k), v) for k, v in status["function_manager"].items()]
    if [k for k, _ in pairs] != [k for k, _ in want]:
        return case.bad("C28", "tables", f"clients and functions shown {[k for k, _ in pairs]}, expected {[k for k, _ in want]}")
    for (k, v), (_, x) in zip(pairs, want):
        case.counts["numbers_on_screen"] += 1
        if x is not None and check_integer(v, x):
            case.bad("C28", "number", f"{k}: {x} shown as {v!r}")


# ------------------------------------------------------------------------------------------------ the program itself
def p_terminal(case, rng, seed):
    """the top program, in a terminal that is resized while a scheduler publishes"""
    scratch = os.environ["VERIF_SCRATCH"]
    address = f"ipc://{scratch}/top-{os.getpid()}-{abs(hash(str(seed))) % 10 ** 6}"
    ctx = zmq.Context()
    pub = ctx.socket(zmq.PUB)
    pub.setsockopt(zmq.LINGER, 0)
    pub.bind(address)
    master, slave = pty.openpty()
    size = lambda h, w: fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack("HHHH", h, w, 0, 0))  # noqa
    size(60, 400)
    env = dict(os.environ, TERM="xterm")
    p = subprocess.Popen([sys.executable, "-c", "import sys; sys.argv[0]='scaled_top'; from scaled.entry_points.top import main; main()", address, "--timeout", "40"],
                         stdin=slave, stdout=slave, stderr=subprocess.PIPE, env=env, start_new_session=True)
    out = []

    def drain():
        while True:
            try:
                b = os.read(master, 65536)
            except OSError:
                return
            if not b:
                return
            out.append(b)

    threading.Thread(target=drain, daemon=True).start()

    def publish(status):
        m = SchedulerState(json.dumps(status).encode())
        pub.send_multipart([PROTOCOL.inverse[SchedulerState].value, *m.serialize()])

    def wait_for(text, status, seconds=30):
        end = time.monotonic() + seconds
        while time.monotonic() < end and p.poll() is None:
            publish(status)
            time.sleep(0.05)
            if text.encode() in b"".join(out):
                return True
        return False

    try:
        for n in range(4):
            status = draw(rng)
            out.clear()
            size(60, 400)
            os.kill(p.pid, signal.SIGWINCH) if n else None
            status["task_manager"]["success"] = 700_000 + rng.randrange(99_999)
            if not wait_for(f"{status['task_manager']['success']:,}", status):
                case.bad("C28", "program", f"the program does not show the status published (exit {p.poll()})")
                break
            case.counts["program_screens"] += 1
            for _ in range(3):
                size(rng.choice([1, 2, 5, 12, 24]), rng.choice([1, 10, 33, 80, 150]))
                os.kill(p.pid, signal.SIGWINCH)
                os.write(master, rng.choice(list(KEYS) + ["x"]).encode())
                publish(draw(rng))
                time.sleep(0.05)
            if p.poll() is not None:
                case.bad("C28", "program", "the program ended on a small screen: " + p.stderr.read()[-300:].decode(errors="replace"))
                break
        if p.poll() is None:
            time.sleep(0.2)
        if p.poll() is not None and not case.violations:
            case.bad("C28", "program", "the program ended: " + p.stderr.read()[-300:].decode(errors="replace"))
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        p.stderr.close()
        os.close(slave)
        os.close(master)
        pub.close()
        ctx.term()
    case.signature = str(seed)


PROFILES = {"screen": p_screen, "numbers": p_numbers, "terminal": p_terminal}
