#!/usr/bin/env python3
"""python3 checks/run.py C02 [--tier quick|thorough] [--replay FILE]

Runs the engines a property's check is made of against /repo's working tree and rewrites evidence/<id>.json.
Exit 0: held on everything explored. 1: violated (VIOLATION line). 2: no answer.
"""
import argparse
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from checks.specs import SPECS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def known_findings(prop):
    """lines 'known: property=<id> key=<key> match=<regular expression> # <what fails>'; 'fixed:' lines suppress nothing"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) match=(.*?) # (.*)", line)
            if m and m.group(1) == prop:
                out.append({"key": m.group(2), "match": re.compile(m.group(3)), "what": m.group(4).strip(), "seen": 0})
    return out


def environment(scratch):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("PYTHON", "SCALED")):
            del env[k]
    env.update(PYTHONPATH=f"{REPO}:{VERIF}", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", TMPDIR=scratch, HOME=scratch,
               PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"), PYTHONFAULTHANDLER="1", VERIF_SCRATCH=scratch, PYTHONUNBUFFERED="1",
               TERM="dumb", LC_ALL="C.UTF-8")
    return env


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def run_part(prop, part, tier, seed, scratch, deadline):
    """one engine over all its slices -> merged results"""
    count, budget = part["thorough"] if tier == "thorough" else part["quick"]
    procs = min(part.get("procs", 8), count)
    accept = ",".join(part.get("accept", [prop]))
    merged = {"evaluations": 0, "nontrivial": set(), "counts": Counter(), "violations": [], "samples": [], "errors": [], "other": Counter()}
    running = []
    for n in range(procs):
        out = os.path.join(scratch, f"{part['engine']}-{part['profile']}-{n}.json")
        sub = os.path.join(scratch, f"{len(os.listdir(scratch))}")
        os.makedirs(sub, exist_ok=True)
        cmd = [PYTHON, "-m", "vlib.child", part["engine"], "--prop", prop, "--profile", part["profile"], "--seed", str(seed), "--start", str(n),
               "--step", str(procs), "--count", str(count), "--budget", str(budget), "--deciding", ",".join(part.get("deciding", [])),
               "--accept", accept, "--out", out]
        err = open(out + ".err", "wb")
        p = subprocess.Popen(cmd, cwd=sub, env=environment(sub), stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True)
        running.append((p, out))
    limit = time.monotonic() + min(budget + part.get("grace", 120), max(30, deadline - time.monotonic()))
    for p, out in running:
        timed_out = False
        try:
            p.wait(max(0.1, limit - time.monotonic()))
        except subprocess.TimeoutExpired:
            timed_out = True
        kill_group(p)
        p.wait()
        try:
            data = json.load(open(out))
        except Exception:
            data = None
        if timed_out or data is None or p.returncode != 0:
            tail = open(out + ".err", "rb").read()[-3000:].decode(errors="replace")
            merged["errors"].append({"seed": "-", "error": f"{'timed out' if timed_out else 'ended ' + str(p.returncode)}: {tail}"})
        if data:
            merged["evaluations"] += data["evaluations"]
            merged["nontrivial"] |= set(data["nontrivial"])
            merged["counts"].update(data["counts"])
            merged["other"].update(data["other"])
            merged["violations"] += data["violations"]
            merged["samples"] += data["samples"]
            merged["errors"] += data["errors"]
    return merged


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    prop, spec = a.prop, SPECS[a.prop]
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    try:
        if a.replay:
            return replay(prop, spec, json.load(open(a.replay)), scratch)
        return check(a, prop, spec, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(prop, spec, rec, scratch):
    for attempt in range(rec.get("attempts", 1)):
        out = os.path.join(scratch, "out.json")
        base, _, i = rec["seed"].rpartition("-")
        part = next(p for p in spec["parts"] if p["engine"] == rec["engine"] and p["profile"] == rec["profile"])
        subprocess.run([PYTHON, "-m", "vlib.child", rec["engine"], "--prop", prop, "--profile", rec["profile"], "--seed", base, "--start", i,
                        "--count", str(int(i) + 1), "--accept", ",".join(part.get("accept", [prop])), "--out", out], cwd=scratch,
                       env=environment(scratch), timeout=600)
        data = json.load(open(out))
        for v in data["violations"]:
            print(json.dumps(v["violation"]))
            print(f"VIOLATION property={prop} replay={rec['_path'] if '_path' in rec else '-'}")
        if data["violations"]:
            return 1
    print("not reproduced")
    return 0


def check(a, prop, spec, scratch):
    t0 = time.monotonic()
    deadline = t0 + (780 if a.tier == "quick" else 3000)
    known = known_findings(prop)
    total = {"evaluations": 0, "distinct": 0, "counts": Counter(), "other": Counter()}
    violations, errors, samples, parts, missing = [], [], [], [], []
    for part in spec["parts"]:
        m = run_part(prop, part, a.tier, a.seed, scratch, deadline)
        name = f"{part['engine']}/{part['profile']}"
        total["evaluations"] += m["evaluations"]
        total["distinct"] += len(m["nontrivial"])
        total["counts"].update(m["counts"])
        total["other"].update(m["other"])
        samples += m["samples"][:2]
        errors += [dict(e, part=name) for e in m["errors"]]
        parts.append({"part": name, "evaluations": m["evaluations"], "distinct_nontrivial": len(m["nontrivial"])})
        need = part.get("require", part.get("deciding", []))
        missing += [f"{name}:{d}" for d in need if not m["counts"].get(d)]
        for v in m["violations"]:
            for k in known:
                if v["violation"]["key"] == k["key"] and k["match"].search(v["violation"]["detail"]):
                    k["seen"] += 1
                    break
            else:
                violations.append(v)
        if violations and not a.keep_going:
            break
    wall = time.monotonic() - t0
    evidence = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {"evaluations": total["evaluations"], "distinct_nontrivial": total["distinct"], "rule": spec["rule"],
                     "samples": samples[:6] or ["none"], "parts": parts,
                     "observed": dict(sorted(total["counts"].items())), "monitor_errors": len(errors),
                     "observed_about_other_properties": dict(total["other"])},
        "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']} (seen {k['seen']} times in this run)")
    for e in errors[:3]:
        print(f"check error in {e['part']} seed {e['seed']}: {e['error'][-1500:]}", file=sys.stderr)
    print(f"{prop}: {total['evaluations']} executions, {total['distinct']} distinct non-trivial, {len(violations)} violating, "
          f"{len(errors)} errors, {wall:.1f}s")
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        for v in violations:
            if v["violation"]["key"] in seen:
                continue
            seen.add(v["violation"]["key"])
            path = os.path.join(VERIF, "replays", f"{prop}-{v['violation']['key']}.json")
            with open(path, "w") as f:
                json.dump(dict(v, _path=path, how=f"python3 checks/run.py {prop} --replay {path}"), f, indent=1, default=str)
            print("  " + json.dumps(v["violation"], default=str)[:700])
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors or missing or not total["evaluations"]:
        if missing:
            print(f"no answer: monitors saw nothing of {missing}", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
