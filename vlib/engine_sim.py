import hashlib

from vlib.case import Case
from vlib.simcore import Undecodable


def describe(ev):
    m = ev.msg
    who = ev.peer.hex()[-6:] if isinstance(ev.peer, bytes) else getattr(ev.peer, "name", type(ev.peer).__name__)
    extra = ""
    for a in ("task_id", "function_id", "status", "type", "queued_tasks", "number_of_tasks"):
        v = getattr(m, a, None)
        if v is not None:
            extra += f" {a}={v.hex()[:8] if isinstance(v, bytes) else getattr(v, 'name', v)}"
    return f"{ev.seq} t={ev.t:.4f} {ev.kind} {who} {type(m).__name__}{extra}"


def run_case(prop, profile, seed):
    from vlib.workload import Run

    run = Run(profile, seed).execute()
    case = Case(counts=run.counts)
    case.violations = [v.as_dict() for v in run.violations]
    h = hashlib.sha256()
    kinds = {}
    for ev in run.sim.log:
        status = getattr(ev.msg, "status", None)
        h.update(f"{ev.kind}{type(ev.msg).__name__}{status}".encode())
        kinds[f"{ev.kind}:{type(ev.msg).__name__}"] = kinds.get(f"{ev.kind}:{type(ev.msg).__name__}", 0) + 1
    case.signature = h.hexdigest()[:16]
    case.sample = {"profile": profile, "seed": str(seed), "config": {k: str(v) for k, v in run.sim.config.items()}, "events": len(run.sim.log),
                   "virtual_seconds": round(run.sim.clock.now, 2), "clients": len(run.sim.clients), "scripted_workers": len(run.sim.fake_workers),
                   "real_agents": len(run.sim.agents), "kinds": dict(sorted(kinds.items(), key=lambda x: -x[1])[:12])}
    if case.violations:
        first = min((v.get("seq") or 10 ** 9) for v in case.violations)
        case.log = [describe(ev) for ev in run.sim.log if first - 400 <= ev.seq <= first + 20] or [describe(ev) for ev in run.sim.log[-400:]]
    return case
