"""Runs a slice of cases of one engine in its own process and writes what the monitors saw."""
import argparse
import importlib
import json
import os
import signal
import sys
import threading
import time
import traceback
from collections import Counter

import scaled
from vlib.case import Case

REPOSITORY = os.path.realpath(os.path.dirname(scaled.__file__)) + os.sep


HERE = os.path.realpath(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
PATIENCE = {"client": 120, "direct": 120, "proc": 120, "sim": 150, "full": 1400}  # seconds, a case takes one or two (full: a minute)


class Stuck(KeyboardInterrupt):
    """a case does not come to its end; event loops let nothing else through"""


def raised_in_repository(e):
    """where, if the code that raised is the repository's own or was called by it; None if it is this harness"""
    place = None
    for frame, line in traceback.walk_tb(e.__traceback__):
        name = os.path.realpath(frame.f_code.co_filename)
        if name.startswith(HERE + os.sep):
            place = None
        elif name.startswith(REPOSITORY):
            place = f"{os.path.basename(name)}:{line}"
    return place


def run_case(engine, a, seed):
    """what the engine yields; what the repository's code raises, or never returns from, is a violation of the property under check"""
    def stuck(*_):
        raise Stuck(f"not finished after {PATIENCE[a.engine]} s")

    signal.signal(signal.SIGALRM, stuck)
    signal.alarm(PATIENCE[a.engine])
    try:
        return engine.run_case(a.prop, a.profile, seed)
    except (Exception, Stuck) as e:
        place = raised_in_repository(e)
        if place is None:
            raise
        sys.settrace(None)
        threading.settrace(None)
        key = "hangs" if isinstance(e, Stuck) else "raises"
        return Case(violations=[{"property": a.prop, "key": key, "detail": f"{place}: {e!r}"}], signature=f"{key}-{seed}",
                    log=traceback.format_exc().splitlines()[-60:])
    finally:
        signal.alarm(0)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("engine")
    p.add_argument("--prop", required=True)
    p.add_argument("--profile", required=True)
    p.add_argument("--seed", required=True)
    p.add_argument("--start", type=int, default=0)
    p.add_argument("--step", type=int, default=1)
    p.add_argument("--count", type=int, default=1)
    p.add_argument("--budget", type=float, default=30)
    p.add_argument("--deciding", default="")
    p.add_argument("--accept", default="")
    p.add_argument("--out", required=True)
    a = p.parse_args()
    signal.signal(signal.SIGINT, signal.default_int_handler)  # it is ignored when a shell starts this in the background, and that is inherited
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    engine = importlib.import_module("vlib.engine_" + a.engine)
    deciding = [d for d in a.deciding.split(",") if d]
    accept = [x for x in a.accept.split(",") if x]  # prop or prop:key
    out = {"evaluations": 0, "nontrivial": [], "counts": {}, "violations": [], "samples": [], "errors": [], "other": {}}
    counts, other, signatures = Counter(), Counter(), set()
    t0 = time.perf_counter()

    def flush():
        out["counts"], out["nontrivial"], out["other"] = dict(counts), sorted(signatures), dict(other)
        tmp = a.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(out, f)
        os.replace(tmp, a.out)

    i = a.start
    while i < a.count and time.perf_counter() - t0 < a.budget:
        seed = f"{a.seed}-{i}"
        try:
            case = run_case(engine, a, seed)
        except (Exception, Stuck):
            out["errors"].append({"seed": seed, "error": traceback.format_exc()[-3000:]})
            if len(out["errors"]) > 3:
                break
            i += a.step
            continue
        out["evaluations"] += 1
        counts.update(case.counts)
        if not deciding or any(case.counts.get(d) for d in deciding):
            if case.signature not in signatures:
                signatures.add(case.signature)
                if len(out["samples"]) < 1:
                    out["samples"].append(case.sample)
        mine = [v for v in case.violations if v["property"] in accept or v["property"] == a.prop or f'{v["property"]}:{v["key"]}' in accept]
        for v in case.violations:
            if v not in mine:
                other[f'{v["property"]}:{v["key"]}'] += 1
        if mine:
            keys = {}
            for v in mine:
                keys.setdefault(v["key"], v)
            for v in keys.values():
                out["violations"].append({"engine": a.engine, "profile": a.profile, "seed": seed, "violation": v, "log": case.log[-450:]})
            if len(out["violations"]) >= 20:
                break
        if time.perf_counter() - t0 > 2 and out["evaluations"] % 5 == 0:
            flush()
        i += a.step
    flush()
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
