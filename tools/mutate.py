"""Small changes of every statement of /repo's scaled/, each run through a reduced set of the monitors.

python3 tools/mutate.py OUT [--only FILE_SUBSTRING] [--sample FRACTION] [--seed N] [--list]
Writes one JSON line per change: where, what, which monitor noticed. What nobody noticed is for a human to look at.
"""
import argparse
import ast
import json
import os
import random
import shutil
import sys
import tempfile
import time

BASE = os.environ.get("MUTATE_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from checks import run  # noqa: E402

SIM = [("sim", p, 64) for p in ("C20", "C02", "C08", "C14", "C12", "C13", "C15", "C16", "C25", "C11", "C07", "C09", "C17")]
AGENT = [("sim", p, 64) for p in ("C21", "C22", "C29", "C09", "C20", "values")]
CLIENT = [("client", p, 24) for p in ("calls", "errors", "map", "graph", "disconnect", "reject", "forget", "residue", "serializer", "bind", "threads", "burst", "clients")]
PROC = [("proc", p, 16) for p in ("values", "errors", "evict", "serializer")] + [("direct", "options_cleaner", 40)]
FULL = [("full", "calls", 4), ("full", "shutdown", 16)]
DIRECT = [("direct", p, 40) for p in ("messages", "queue_steps", "queue_tasks", "allocator", "priority", "tables", "addresses")]
TOP = [("direct", "numbers", 16), ("direct", "screen", 24), ("direct", "terminal", 8)]
OPTIONS = [("direct", "options_programs", 60), ("direct", "options_combo", 60), ("full", "programs", 4)]
PARTS = [
    ("scheduler/allocators", [("direct", "allocator", 40)] + SIM), ("scheduler/main", OPTIONS + SIM + FULL), ("scheduler/", SIM), ("worker/agent/processor/", PROC + FULL),
    ("worker/agent/", AGENT + FULL), ("worker/worker", AGENT + OPTIONS + FULL), ("client.py", CLIENT + FULL), ("protocol/python/message", [("direct", "messages", 60)] + SIM[:2]),
    ("protocol/python/serializer", CLIENT[:3] + PROC), ("entry_points/top", TOP), ("formatter", TOP), ("entry_points", OPTIONS), ("cluster/", OPTIONS + FULL),
    ("io/config", OPTIONS + CLIENT[:2] + FULL), ("io/sync", CLIENT + PROC + FULL), ("io/", FULL + AGENT), ("queues", DIRECT), ("key_value", DIRECT + SIM[:3]), ("one_to_many", DIRECT + SIM[:3]),
    ("zmq_config", DIRECT + OPTIONS), ("event_loop", OPTIONS + SIM[:2] + FULL), ("logging", OPTIONS + FULL),
]
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def changes(text):
    """yield (line, what, new text)"""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    offsets = [0]
    for x in lines:
        offsets.append(offsets[-1] + len(x))
    pos = lambda n, end=False: offsets[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)
    src = lambda n: text[pos(n):pos(n, True)]
    put = lambda n, new: text[:pos(n)] + new + text[pos(n, True):]
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)) or any("abstract" in ast.dump(d) for d in fn.decorator_list):
            continue
        for n in ast.walk(fn):
            if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Return, ast.Delete, ast.Assert)):
                if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or "logging." in src(n)):
                    continue
                if isinstance(n, ast.Return) and n.value is None or isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)) or \
                        isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
                    yield n.lineno, f"without: {src(n)[:90]}", put(n, "pass")
                elif isinstance(n, ast.Return) and not isinstance(n.value, ast.Constant):
                    yield n.lineno, f"returns None: {src(n)[:90]}", put(n, "return None")
            elif isinstance(n, (ast.If, ast.While)):
                yield n.lineno, f"negated: {src(n.test)[:90]}", put(n.test, f"not ({src(n.test)})")
                if isinstance(n, ast.If) and not n.orelse:
                    yield n.lineno, f"never: {src(n.test)[:90]}", put(n.test, f"False and ({src(n.test)})")
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP and not isinstance(n.ops[0], (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
                yield n.lineno, f"{SWAP[type(n.ops[0])]}: {src(n)[:90]}", put(n, f"{src(n.left)} {SWAP[type(n.ops[0])]} {src(n.comparators[0])}")
            elif isinstance(n, ast.BoolOp):
                for i, v in enumerate(n.values):
                    yield n.lineno, f"without {src(v)[:40]} in {src(n)[:60]}", put(v, "True" if isinstance(n.op, ast.And) else "False")
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                yield n.lineno, f"{n.value!r}+1", put(n, repr(n.value + 1))
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                yield n.lineno, f"not {n.value!r}", put(n, repr(not n.value))
            elif isinstance(n, ast.ExceptHandler) and n.type is not None:
                yield n.lineno, f"except nothing instead of {src(n.type)}", put(n.type, "()")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "remove", "discard", "add", "append", "get", "setdefault", "update") and len(n.args) == 2:
                yield n.lineno, f"first argument twice: {src(n)[:80]}", put(n.args[1], src(n.args[0]))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--only", default="")
    ap.add_argument("--sample", type=float, default=1.0)
    ap.add_argument("--seed", default="1")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    rng = random.Random(a.seed)
    work = []
    for folder, _, names in os.walk(os.path.join(BASE, "scaled")):
        for name in sorted(names):
            path = os.path.relpath(os.path.join(folder, name), BASE)
            if not name.endswith(".py") or a.only not in path:
                continue
            parts = next((p for k, p in PARTS if k in path), None)
            if parts is None:
                continue
            seen = set()
            for line, what, new in changes(open(os.path.join(BASE, path)).read()):
                if new in seen or rng.random() >= a.sample:
                    continue
                seen.add(new)
                work.append((path, line, what, new, parts))
    rng.shuffle(work)
    print(len(work), "changes")
    if a.list:
        return
    done = set()
    if os.path.exists(a.out):
        done = {(r["file"], r["line"], r["what"]) for r in map(json.loads, open(a.out))}
    accept = [f"C{i:02}" for i in range(1, 32)]
    for path, line, what, new, parts in work:
        if (path, line, what) in done:
            continue
        try:
            compile(new, path, "exec")
        except SyntaxError:
            continue
        top = tempfile.mkdtemp(prefix="mut-")
        try:
            for entry in os.listdir(BASE):
                if entry != ".git":
                    s = os.path.join(BASE, entry)
                    (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(top, entry))
            with open(os.path.join(top, path), "w") as f:
                f.write(new)
            run.REPO = top
            verdict, t0 = "MISSED", time.time()
            for engine, profile, n in parts:
                scratch = tempfile.mkdtemp(prefix="m-")
                try:
                    part = dict(engine=engine, profile=profile, quick=(n, 40), thorough=(n, 40), procs=8, accept=accept, grace=60 if engine != "full" else 200)
                    r = run.run_part("C01", part, "quick", 1, scratch, time.monotonic() + 300)
                finally:
                    shutil.rmtree(scratch, ignore_errors=True)
                if r["violations"]:
                    v = r["violations"][0]["violation"]
                    verdict = f"{engine}/{profile} {v['property']}:{v['key']}"
                    break
                if r["errors"]:
                    verdict = f"error in {engine}/{profile}: {r['errors'][0]['error'][-160:]}"
                    break
            with open(a.out, "a") as f:
                f.write(json.dumps({"file": path, "line": line, "what": what, "verdict": verdict, "s": round(time.time() - t0, 1)}) + "\n")
        finally:
            shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    main()
