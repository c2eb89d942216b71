"""Which engines decide which property, and what their monitors must have seen for a run to count."""

SIM_RULE = ("Each case is one seeded execution of the real scheduler and real or scripted worker agents under virtual time: drawn configuration, "
            "clients, workers, link delays, operations and faults. It is non-trivial when the named deciding events happened in it, "
            "distinct when its sequence of (event, message type, status) differs from every other's.")
SIM_ASSUME = ["process boundaries (ZMQ transport, clock, process creation and signals, psutil) are replaced by in-memory equivalents that keep per-connection FIFO order",
              "scripted workers compute a digest of function content and arguments instead of running Python code"]


def sim(prop, profile=None, deciding=(), n=1000, budget=100, accept=None, require=None, deep=(10 ** 6, 500)):
    p = dict(engine="sim", profile=profile or prop, deciding=list(deciding), quick=(n, budget), thorough=deep, procs=8)
    if accept:
        p["accept"] = accept
    if require is not None:
        p["require"] = require
    return p


def spec(*parts, rule=SIM_RULE, assumptions=SIM_ASSUME, technique, note):
    return dict(parts=list(parts), rule=rule, assumptions=assumptions, technique=technique, note=note)


T_SIM = "runtime monitoring: online trace-specification oracle over the wire log of the real scheduler and agents under seeded virtual-time stress with faults"
N_SIM = "seeded exploration of executions: nothing is claimed about schedules not run"


def part(engine, profile, deciding, n, budget, deep, accept=None, require=None, procs=8, grace=120):
    p = dict(engine=engine, profile=profile, deciding=list(deciding), quick=(n, budget), thorough=deep, procs=procs, grace=grace)
    if accept:
        p["accept"] = accept
    if require is not None:
        p["require"] = require
    return p


def client(profile, deciding, n, budget=90, accept=None, deep=(10 ** 6, 400), **k):
    return part("client", profile, deciding, n, budget, deep, accept, **k)


def proc(profile, deciding, n, budget=90, accept=None, deep=(10 ** 6, 300), **k):
    return part("proc", profile, deciding, n, budget, deep, accept, **k)


def direct(profile, deciding, n, budget=60, accept=None, deep=(10 ** 7, 300), **k):
    return part("direct", profile, deciding, n, budget, deep, accept, **k)


def full(profile, deciding, n, budget=150, accept=None, deep=(10 ** 6, 600), **k):
    return part("full", profile, deciding, n, budget, deep, accept, grace=300, **k)


CLIENT_RULE = ("Each case is one seeded execution of real Client objects against a scripted scheduler with drawn delays, orders, refusals and losses. It is "
               "non-trivial when the named deciding events happened in it, distinct when the message sequence differs from every other case's.")
PROC_RULE = ("Each case drives real Processor processes (or a real deployment of scheduler, cluster and clients) through drawn calls, failures, evictions, kills or "
             "signals. It is non-trivial when the named deciding events happened in it, distinct by its drawn scenario.")
MIXED_RULE = CLIENT_RULE + " " + PROC_RULE
DIRECT_RULE = ("Each case is one seeded batch of generated inputs or operations given to the real code and compared with a reference. It is non-trivial when the named "
               "deciding events happened in it, distinct by the digest of its inputs.")
CLIENT_ASSUME = ["where the scheduler is scripted it answers only as the real scheduler may; the transport is real ZMQ, in process or over ipc/tcp"]
FULL_ASSUME = ["real processes are scheduled by this machine's kernel: the schedules seen are the ones that happened"]
DIRECT_ASSUME = ["the reference model or round trip used as oracle is the intended behaviour"]
T_CLIENT = "runtime monitoring: real clients against a scripted hostile scheduler, every future and every message on the wire judged by an oracle that evaluates the call locally"
T_PROC = "runtime monitoring: real processor processes and real deployments under drawn calls, faults and signals, outcomes judged against local evaluation and process/socket inventories"
T_DIRECT = "runtime monitoring: online comparison of every answer of the real code with a reference model over generated operation sequences"
N_RUN = "seeded exploration of executions: nothing is claimed about inputs and schedules not run"

SPECS = {
    "C01": spec(client("calls", ["finished_out_of_order", "same_name_functions"], 240), client("changed", ["callables_changed"], 16, deep=(200, 60)), proc("values", ["values_checked"], 80),
                full("calls", ["calls"], 8, accept=["C01", "C05", "C06"]),
                sim("C01", "values", n=160, deciding=["results_compared"], deep=(10 ** 6, 100)),
                rule=MIXED_RULE, assumptions=CLIENT_ASSUME + FULL_ASSUME + SIM_ASSUME, technique=T_CLIENT, note=N_RUN),
    "C02": spec(sim("C02", deciding=["lost_rehanded", "returned", "result_Canceled"]), technique=T_SIM, note=N_SIM),
    "C03": spec(client("errors", ["failing_calls"], 240), proc("errors", ["failures_checked"], 120), full("calls", ["failing_calls"], 8, accept=["C03"]),
                sim("C03", "values", n=160, deciding=["results_compared"], deep=(10 ** 6, 100)),
                rule=MIXED_RULE, assumptions=CLIENT_ASSUME + FULL_ASSUME + SIM_ASSUME, technique=T_CLIENT, note=N_RUN),
    "C04": spec(client("bind", ["keyword_calls_computed"], 1200), client("sentinel", ["sentinel_defaults"], 16, deep=(200, 60)),
                rule=CLIENT_RULE, assumptions=CLIENT_ASSUME, technique=T_CLIENT, note=N_RUN),
    "C05": spec(client("map", ["map_elements", "failing_maps", "refused_maps"], 240), full("calls", ["calls"], 6, accept=["C05"]), rule=MIXED_RULE, assumptions=CLIENT_ASSUME + FULL_ASSUME, technique=T_CLIENT, note=N_RUN),
    "C06": spec(client("graph", ["graphs", "malformed_graphs", "failing_graphs", "repeated_keys"], 240),
                sim("C06", "C07", n=300, deciding=["node_arguments"], accept=["C06", "C07", "C08:failed-unasked"], deep=(10 ** 6, 200)),
                rule=CLIENT_RULE + " " + SIM_RULE, assumptions=CLIENT_ASSUME + SIM_ASSUME, technique=T_CLIENT, note=N_RUN),
    "C07": spec(sim("C07", deciding=["node_arguments"]), technique=T_SIM, note=N_SIM),
    "C08": spec(sim("C08", deciding=["graph_failed", "graph_cancel"]), client("graph", ["failing_graphs"], 120, accept=["C08"]), technique=T_SIM, note=N_SIM),
    "C09": spec(sim("C09", deciding=["cancel_waiting", "cancel_at", "agent_cancel_running", "agent_cancel_waiting"]), full("cancel", ["running_when_cancelled", "cancelled_watched"], 12, procs=4), technique=T_SIM, note=N_SIM),
    "C10": spec(client("disconnect", ["unfinished_at_disconnect", "cancels_received"], 240), rule=CLIENT_RULE, assumptions=CLIENT_ASSUME, technique=T_CLIENT, note=N_RUN),
    "C11": spec(sim("C11", deciding=["lost_rehanded"]), full("kill", ["workers_lost", "unfinished_when_lost"], 8, procs=4), technique=T_SIM, note=N_SIM),
    "C12": spec(sim("C12", n=800, deciding=["filled_to_cap"]), sim("C12", "C12h", n=400, deciding=["filled_to_cap"], deep=(10 ** 6, 200)),
                direct("allocator", ["balance_advices", "workers_removed"], 200, accept=["C12", "C30:available", "C30:overfilled", "C30:statistics"], deep=(10 ** 7, 60)), technique=T_SIM, note=N_SIM),
    "C13": spec(sim("C13", deciding=["handout_nontrivial", "balance_request"]),
                direct("allocator", ["balance_advices", "workers_removed"], 200, accept=["C13", "C30:not-least-loaded", "C30:balance"], deep=(10 ** 7, 60)), technique=T_SIM, note=N_SIM),
    "C14": spec(sim("C14", deciding=["expired", "function_Delete"]), client("forget", ["functions_forgotten"], 120), technique=T_SIM, note=N_SIM),
    "C15": spec(sim("C15", n=800, deciding=["rejected"], deep=(10 ** 6, 300)),
                sim("C15", "C15g", n=400, deciding=["graph_result"], deep=(10 ** 6, 200)),
                client("reject", ["rejected_calls"], 120), technique=T_SIM, note=N_SIM),
    "C16": spec(sim("C16", deciding=["status_nontrivial"]), technique=T_SIM, note=N_SIM),
    "C17": spec(sim("C17", deciding=["evil_sent"], accept=["C17", "C02", "C07", "C08", "C09", "C11", "C14", "C25"]), technique=T_SIM, note=N_SIM),
    "C18": spec(direct("messages", ["round_trips"], 400), direct("transport", ["messages_carried"], 200, deep=(10 ** 6, 120)), rule=DIRECT_RULE, assumptions=DIRECT_ASSUME, technique=T_DIRECT, note=N_RUN),
    "C19": spec(direct("queue_steps", ["queue_operations"], 800), direct("queue_tasks", ["removals_among_waiters", "cancelled_waiters"], 800),
                rule=DIRECT_RULE, assumptions=DIRECT_ASSUME, technique=T_DIRECT, note=N_RUN),
    "C20": spec(sim("C20", deciding=["residue_walks"]), client("residue", ["client_residue_walks"], 120), technique=T_SIM, note=N_SIM),
    "C21": spec(sim("C21", deciding=["agent_answered"]), proc("orders", ["late_replies", "replies_twice", "given_up"], 48, deep=(10 ** 6, 120)), technique=T_SIM, note=N_SIM),
    "C22": spec(sim("C22", deciding=["agent_heartbeats_with_queue"], require=["agent_ended_by_silence", "agent_ended_by_interrupt", "agent_heartbeats_with_queue"]), technique=T_SIM, note=N_SIM),
    "C23": spec(full("shutdown", ["shutdowns_watched"], 72), rule=PROC_RULE, assumptions=FULL_ASSUME, technique=T_PROC, note=N_RUN),
    "C24": spec(client("threads", ["delays_injected", "threaded_calls"], 200), client("burst", ["burst_calls"], 24, deep=(10 ** 6, 60)), rule=CLIENT_RULE, assumptions=CLIENT_ASSUME, technique=T_CLIENT, note=N_RUN),
    "C25": spec(sim("C25", deciding=["client_disconnect", "client_vanish"]), client("clients", ["clients_left"], 80), technique=T_SIM, note=N_SIM),
    "C26": spec(direct("options_programs", ["command_lines", "values_followed"], 400), direct("options_combo", ["combos", "values_followed"], 400),
                full("programs", ["programs_served"], 12, procs=4),
                direct("options_cleaner", ["collections"], 300),
                sim("C26", "C12", n=120, deciding=["filled_to_cap"], accept=["C12"], deep=(10 ** 6, 60)),
                sim("C26", "C13", n=120, deciding=["balance_request"], accept=["C13"], deep=(10 ** 6, 60)),
                sim("C26", "C14", n=120, deciding=["expired"], accept=["C14"], deep=(10 ** 6, 60)),
                sim("C26", "C15", n=120, deciding=["rejected"], accept=["C15"], deep=(10 ** 6, 60)),
                sim("C26", "C11", n=120, deciding=["lost_rehanded"], accept=["C11"], deep=(10 ** 6, 60)),
                sim("C26", "C22", n=120, deciding=["agent_heartbeats_with_queue"], accept=["C22"], deep=(10 ** 6, 60)),
                rule=DIRECT_RULE + " " + SIM_RULE + " " + PROC_RULE, assumptions=DIRECT_ASSUME + SIM_ASSUME + FULL_ASSUME, technique=T_DIRECT, note=N_RUN),
    "C27": spec(direct("addresses", ["valid_addresses", "bad_refused"], 400), rule=DIRECT_RULE, assumptions=DIRECT_ASSUME, technique=T_DIRECT, note=N_RUN),
    "C28": spec(direct("numbers", ["numbers_checked"], 80), direct("screen", ["workers_shown", "cropped_compared"], 160),
                direct("terminal", ["program_screens"], 8, deep=(10 ** 6, 60)),
                rule=DIRECT_RULE, assumptions=["the curses library draws what its window reports to hold"], technique=T_DIRECT, note=N_RUN),
    "C29": spec(sim("C29", deciding=["evictions"]), proc("evict", ["idle_evictions", "fetched_again"], 32), direct("options_cleaner", ["expired_in_cleaner"], 300),
                technique=T_SIM, note=N_SIM),
    "C30": spec(direct("allocator", ["balance_advices", "workers_removed"], 400), direct("priority", ["priority_updates"], 400), direct("tables", ["table_operations"], 400),
                rule=DIRECT_RULE, assumptions=DIRECT_ASSUME, technique=T_DIRECT, note=N_RUN),
    "C31": spec(client("serializer", ["guarded_values"], 160), proc("serializer", ["guarded_values"], 60), full("serializer", ["guarded_values"], 8),
                rule=MIXED_RULE, assumptions=CLIENT_ASSUME + FULL_ASSUME, technique=T_CLIENT, note=N_RUN),
}
