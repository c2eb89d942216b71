"""The real deployment, one session of processes per case."""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from vlib.case import Case


def kill_session(sid):
    """end whatever a case started and left"""
    import psutil

    for _ in range(20):
        left = False
        for pid in psutil.pids():
            try:
                if os.getsid(pid) == sid:
                    left = True
                    os.kill(pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        if not left:
            return
        time.sleep(0.05)


def run_case(prop, profile, seed):
    case = Case()
    scratch = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
    for attempt in range(3):
        folder = tempfile.mkdtemp(prefix="f", dir=scratch)
        out, err = os.path.join(folder, "out.json"), os.path.join(folder, "err")
        tmp = os.path.join(folder, "t")
        os.mkdir(tmp)
        env = dict(os.environ, TMPDIR=tmp)
        with open(err, "wb") as e:
            p = subprocess.Popen([sys.executable, "-m", "vlib.fulldriver", profile, seed, out], env=env, cwd=folder, stdout=e, stderr=e, start_new_session=True)
        try:
            try:
                p.wait(420)
            except subprocess.TimeoutExpired:
                pass
        finally:
            kill_session(p.pid)
            p.wait()
        text = open(err, "rb").read().decode(errors="replace")
        data = json.load(open(out)) if os.path.exists(out) else None
        shutil.rmtree(folder, ignore_errors=True)
        if "Address already in use" in text and attempt < 2:
            continue  # somebody else took the port
        break
    if data is None or any(n.startswith("error:") for n in data["notes"]):
        raise RuntimeError(f"scenario {profile} {seed} did not report: {data and data['notes']} {text[-1500:]}")
    case.violations = data["violations"]
    case.counts.update(data["counts"])
    case.signature = f"{profile}-{seed}"
    case.sample = {"scenario": profile, "seed": str(seed), "observed": data["counts"], "notes": data["notes"]}
    case.log = text.splitlines()[-200:]
    return case
