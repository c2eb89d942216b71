"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": hook},
    })

CL = "scaled/client.py"; SM = "scaled/scheduler/main.py"; TM = "scaled/scheduler/task_manager.py"
WM = "scaled/scheduler/worker_manager.py"; GM = "scaled/scheduler/graph_manager.py"
FM = "scaled/scheduler/function_manager.py"; CM = "scaled/scheduler/client_manager.py"
AL = "scaled/scheduler/allocators/queued.py"; MSG = "scaled/protocol/python/message.py"
W = "scaled/worker/worker.py"; WTM = "scaled/worker/agent/task_manager.py"
PM = "scaled/worker/agent/processor_manager.py"; HB = "scaled/worker/agent/heartbeat_manager.py"
PR = "scaled/worker/agent/processor/processor.py"; CC = "scaled/worker/agent/processor/cache_cleaner.py"
SC = "scaled/io/sync_connector.py"; AC = "scaled/io/async_connector.py"; AB = "scaled/io/async_binder.py"
IQ = "scaled/utility/queues/async_indexed_queue.py"; PQ = "scaled/utility/queues/async_priority_queue.py"
SER = "scaled/protocol/python/serializer/default.py"

prop("C01", "Every submitted call resolves to its own function's value",
     "The future of a submitted call resolves, exactly once, to the value its own function returns for its own arguments, whatever other calls, functions (same name, closures, partials, bound methods, lambdas) and clients are in flight. Results are never exchanged between calls, truncated, or computed with another call's function or arguments.",
     ["inputs", "schedules", "histories"], "All functions, all picklable arguments, any number of concurrent calls, workers and clients, any completion order.",
     "Tests submit one function per test with small integers and compare one list; wrong pairing between calls, same-named functions, out-of-order completion, late or repeated protocol replies are never exercised.",
     [CL, PR, SC, WTM, PM, SER], [("task id and function id pair a result with its future", CL), ("function id is a digest of the function's bytes", CL), ("processor decodes arguments, calls the function, encodes the result", PR)],
     ["Client.submit(...).result() against the same call made locally", "frames a real Processor emits for the tasks it is sent"],
     [("pending futures", "call awaiting its result", CL), ("cached functions", "function id to callable", CC)])

prop("C02", "Every accepted task yields exactly one final result, at its own client",
     "A task the scheduler has acknowledged as accepted gets exactly one final result message, sent to the client that submitted it and to nobody else, however workers join, leave, stall, lose their link or return tasks. A reported outcome and its payload are ones a worker really produced for that task, or a cancellation that was asked for.",
     ["schedules", "crash_points", "histories", "fault_sequences"], "All interleavings of client, worker, load balancing and cancellation messages, with worker loss at any point, provided some worker eventually stays alive.",
     "The tests run three healthy workers on an idle machine; they never lose a worker, never see a duplicate, late or rerouted result, and never count result messages.",
     [TM, WM, CM, AL, SM, AB], [("task bookkeeping: waiting, running, done", TM), ("task to worker assignment; results for unassigned tasks are dropped", WM), ("task to client ownership", CM)],
     ["messages the scheduler consumes and sends at its ROUTER socket"],
     [("waiting and running tasks", "accepted work not yet finished", TM), ("assignment", "which worker holds a task", AL)])

prop("C03", "Any failure inside a task reaches its caller and spares the worker",
     "When a task cannot produce a value - it raises any exception, exits the interpreter with sys.exit, returns something that cannot be encoded, raises something that cannot be encoded or decoded, or its function or arguments cannot be loaded on the worker - its own future ends in an exception within bounded time. An exception that can be pickled, also one whose class is defined in the caller's own script, arrives as the same type with the same arguments, a built-in one with the traceback of the function that raised it; every other task in flight on that worker and client still completes, and the worker keeps serving.",
     ["inputs", "histories"], "All exception types and values, all unloadable or unencodable functions, arguments and results, at any position in a stream of tasks.",
     "One test raises a plain ValueError; custom, unpicklable or multi-argument exceptions, SystemExit, unloadable functions and what happens to the tasks behind them are not tried.",
     [PR, CL, PM, SER], [("exceptions are caught around the call and sent as a failed result", PR), ("failed results are decoded into the future's exception", CL)],
     ["frames a real Processor emits and whether its process survives", "Client futures"])

prop("C04", "Arguments bind as in a local call, or the call is refused",
     "submit(fn, *args, **kwargs) either computes exactly what fn(*args, **kwargs) would compute locally, including defaults, or is refused with an error; an argument the caller gave is never silently dropped, reordered or replaced by a default. Every valid call of a plain function that gives no keyword-only parameter, no **kwargs and no keyword named self or fn is computed.",
     ["inputs", "programs"], "All Python signatures (positional-only, defaults, keyword-only, *args, **kwargs, partials, bound methods) and all ways of passing arguments to them.",
     "Seven hand-picked calls are tested; the space of signatures and call shapes is unbounded, and a silently dropped argument looks like success.",
     [CL], [("keyword arguments are converted to positional ones from the function's signature", CL)],
     ["arguments received by the function, against the local call"])

prop("C05", "map returns one result per input, in input order",
     "map(fn, inputs) returns a list holding fn(*args) for every element of inputs, in input order, for any iterable of argument tuples including one-shot iterators, and regardless of the order in which tasks finish. If any call fails it raises that call's exception, and it refuses elements that are not argument tuples or lists before running anything.",
     ["inputs", "schedules"], "All iterables of argument tuples, all completion orders, any failing element.",
     "The test maps one list over one function on an idle cluster; iterators, empty inputs, out-of-order completion and failures are not tried.",
     [CL], [("one submit per element; results gathered in submission order", CL)],
     ["Client.map return value or exception"])

prop("C06", "A graph returns what evaluating it locally would return",
     "get(graph, keys) returns for every requested computed key the value obtained by evaluating the acyclic graph locally, for every graph shape (diamonds, repeated arguments, shared inputs, unused nodes) and every non-empty choice and order of keys, repeated keys included. Malformed requests (key that is unknown or no computed node, unknown argument, cycle) are refused locally without running anything, and leave the client usable.",
     ["inputs", "programs", "schedules"], "All finite acyclic graphs over functions and data, all key lists.",
     "Two five-node graphs are tested; repeated arguments, targets that are inputs of other nodes, repeated keys and wide graphs are not.",
     [CL, GM], [("graph check and translation into tasks", CL), ("topological release of nodes and collection of target results", GM)],
     ["Client.get return value against a local evaluation"])

prop("C07", "A graph node runs only after its inputs, with exactly their results",
     "The scheduler hands a node of a graph to a worker only after every node it takes as input has succeeded, and its arguments are then exactly the inputs' result bytes and the given data, in the given positions. Each node yields one accepted result, and the graph ends in exactly one graph result carrying the targets' results in the requested order, sent to the submitting client.",
     ["schedules", "inputs", "histories", "fault_sequences"], "All acyclic graphs, all orders in which workers finish nodes, with workers joining and leaving at any point.",
     "The test checks one final number; premature starts, stale inputs and duplicate graph results would go unseen on a fast idle cluster.",
     [GM, TM], [("topological sorter releases ready nodes", GM), ("dependency arguments are replaced with result bytes", GM)],
     ["messages the scheduler consumes and sends at its ROUTER socket"],
     [("per-graph dependencies and node results", "what is ready, what is kept", GM)])

prop("C08", "A failed or cancelled graph is torn down completely, and nothing else",
     "When a node of a graph fails, every future requested from that graph ends with that node's exception, exactly one failed graph result is sent, no further node of the graph is handed out and nodes already handed out are cancelled; a cancelled graph likewise stops. Other graphs and tasks, and the scheduler itself, are unaffected, whichever nodes were waiting, running, finished or not yet ready at that moment.",
     ["schedules", "inputs", "histories"], "All graphs, failing nodes and cancellation times, with any mix of waiting, running and finished nodes, including cancellation of a graph that is just finishing.",
     "One test fails one node while another sleeps on a free worker; failure while nodes queue for a worker, several requested keys and cancel races are not covered.",
     [GM, TM, CL], [("graph clean-up cancels running nodes and releases the rest", GM), ("failed graph result is fanned out to the graph's futures", CL)],
     ["messages at the scheduler's ROUTER socket", "futures returned by Client.get(block=False)"])

prop("C09", "A cancelled task stops and never starts later",
     "Once the scheduler has received a cancel request for an unfinished task, that task is never handed to a worker again: if it is still waiting it is reported cancelled, and if a worker holds it the request reaches that worker. A worker told to cancel a task it holds stops it or drops it, reports it cancelled, never runs it afterwards, and carries on with its other tasks; cancelling anything it does not hold is answered and has no other effect.",
     ["schedules", "histories", "fault_sequences"], "All points at which a cancel can arrive: waiting for any worker, in flight, queued on the worker, about to start, running, just finished, handed back by balancing, or on a worker that is being lost.",
     "The test only calls disconnect during sleeps and asserts nothing; every racing position of the cancel is untested.",
     [TM, WM, WTM, PM], [("scheduler routes the cancel to the waiting queue or to the assigned worker", TM), ("worker drops queued task or restarts its processor", PM)],
     ["messages at the scheduler's ROUTER socket", "start and kill events of processors under a real worker agent"])

prop("C10", "Disconnecting resolves every outstanding future",
     "After a client disconnects, every future it ever handed out is resolved within bounded time: with its result, its failure, a cancellation the user made, or a disconnection error - none is left pending, whatever state its task or graph was in. Cancel requests for the unfinished tasks and graphs are sent to the scheduler, and a submission made after disconnecting does not yield a future that never resolves.",
     ["schedules", "histories"], "All sets of outstanding tasks and graphs in any protocol state, futures cancelled by the user, disconnect racing with submissions and arriving results.",
     "The only disconnect test discards the futures; no test looks at a future after disconnect.",
     [CL, SC], [("exit callback cancels and fails all pending futures", CL)],
     ["futures after Client.disconnect()", "cancel messages received by the scheduler side"])

prop("C11", "Work held by a lost worker is finished by another, live workers keep theirs",
     "When a worker disconnects, dies or stays silent longer than the worker timeout, all its unfinished tasks go back to waiting and are finished by other workers. A worker that keeps its heartbeats is never treated as lost, and a worker that comes back is used again.",
     ["crash_points", "fault_sequences", "schedules", "configurations"], "Loss of any subset of workers at any point of any task's life, by clean disconnect, kill or silence, for every timeout setting.",
     "No test ever loses a worker.",
     [WM, AL, TM, W], [("heartbeat time stamps, periodic clean-up, rerouting", WM), ("worker announces its departure", W)],
     ["messages at the scheduler's ROUTER socket in virtual time", "results after killing real worker processes"])

prop("C12", "Workers are never overfilled, and never idle while tasks wait",
     "The number of unfinished tasks the scheduler has handed to one worker never exceeds the configured per-worker queue size. A task does not stay waiting in the scheduler while some connected worker has a free slot.",
     ["histories", "schedules", "configurations"], "All arrival, completion, balancing, cancellation and worker join/leave histories and all queue sizes.",
     "Tests use the default of 1000 slots and never count what a worker holds; a slowly leaking slot count is invisible in short runs.",
     [AL, PQ, TM, WM], [("priority queue of workers by number of assigned tasks", AL), ("decrement on result, removal on disconnect", PQ)],
     ["messages at the scheduler's ROUTER socket"], [("per worker count", "tasks handed out and unfinished", AL)])

prop("C13", "Tasks go to the least loaded worker and balancing evens out the rest",
     "Each task is handed to a connected worker holding the fewest unfinished tasks. When some worker stays idle while others hold a lasting surplus, and balancing is enabled, surplus workers are asked within a bounded number of rounds to return at most their excess over the average, rounded up, and returned tasks are run by the others exactly as if newly submitted; with balancing disabled no such request is ever made.",
     ["histories", "schedules", "configurations"], "All load histories, worker joins and leaves, and balancing settings.",
     "test_sleep only checks the results; it would pass with every task on one worker.",
     [AL, PQ, WM, WTM], [("heap keyed by load", PQ), ("periodic balance advice", AL), ("agent returns queued tasks", WTM)],
     ["messages at the scheduler's ROUTER socket in virtual time"])

prop("C14", "Functions live as long as tasks need them and expire only when idle",
     "A function stored with the scheduler is served byte for byte, under the name given, to every worker that asks, for as long as any unfinished task uses it and for the retention time after its last use. Once idle beyond that it is dropped and every connected worker is told to drop it; a task for a missing function is refused rather than run, and a client whose function was dropped gets it stored again and its call completed without noticing.",
     ["histories", "schedules", "configurations"], "All sequences of store, use, check, request, delete and idle periods, for every retention setting.",
     "Retention is 20 s by default and no test waits for it or looks at the store.",
     [FM, WM, CL, CC], [("alive-since stamps and use lists", FM), ("delete broadcast", WM), ("client re-sends on function-not-exists", CL)],
     ["messages at the scheduler's ROUTER socket in virtual time", "real Client against a forgetting scheduler"])

prop("C15", "The admission limit rejects exactly the tasks beyond it",
     "With a limit on waiting tasks, a new task is rejected when and only when no worker has a free slot and at least that many tasks are already waiting; without a limit no task is rejected. A rejected task is never run, an accepted task or graph always completes, and a rejected call ends in an error at the client without harming its other calls.",
     ["histories", "configurations", "schedules"], "All limits including zero, all load histories, including no workers at all.",
     "All tests run without a limit.",
     [TM, WM, AL, CL], [("limit check on task arrival", TM), ("free slot query", AL)],
     ["task acknowledgements at the scheduler's ROUTER socket", "Client futures"])

prop("C16", "Published status and task events agree with what really happened",
     "The scheduler publishes its state every few seconds, and every state published on the monitor address agrees with the messages exchanged so far: tasks waiting, running and finished by outcome, per-client, per-function and per-worker counts, slots free and used, and messages sent and received by type. The published life of each task is a legal one ending in the one outcome its client is told, with its function's name, and graph nodes are published with their true parents and target flag.",
     ["histories", "schedules"], "All histories; every published state.",
     "No test subscribes to the monitor.",
     [TM, WM, FM, CM, GM, AB, "scaled/scheduler/status_reporter.py"], [("counters and statistics methods", TM), ("task state events", TM)],
     ["frames published at the scheduler's monitor socket against frames at its ROUTER socket"])

prop("C17", "No message from a peer can stop the scheduler",
     "Whatever messages peers send - malformed, truncated, of unknown type, duplicated, stale, naming tasks, graphs, functions or workers that do not exist, or from unknown peers - the scheduler keeps running. Well-behaved clients and workers continue to be served correctly afterwards.",
     ["inputs", "fault_sequences", "histories"], "All byte sequences in all frames, in any state of the scheduler.",
     "No test sends a message the Python client or worker would not send.",
     [AB, SM, TM, GM, FM, WM], [("frame validation before dispatch", AB), ("unknown ids are logged and ignored", WM)],
     ["scheduler liveness and service to probe clients at its ROUTER socket"])

prop("C18", "Every protocol message survives the wire unchanged",
     "Encoding any protocol message and decoding the frames yields an equal message of the same type (a duration to 32-bit and CPU loads to their documented precision), for every content including empty, large and binary data. Every value a running system can put in a message can be encoded, and different messages never share one encoding.",
     ["inputs"], "All field values of all message types.",
     "Messages are only ever exercised with the values the happy path produces.",
     [MSG], [("serialize and deserialize of each message", MSG), ("message type table", MSG)],
     ["decode(encode(m)) == m"])

prop("C19", "The indexed queue is a FIFO queue of unique items with removal",
     "Under any sequence of puts, gets and removals by any number of tasks the indexed queue hands out items in insertion order, each exactly once, never a removed one, reports size and membership correctly, and rejects an item only if an equal item is present. A waiting consumer is woken by the next put and is not confused by a removal in between.",
     ["histories", "schedules", "inputs"], "All operation sequences over hashable items, all interleavings of waiting consumers.",
     "Two short fixed sequences are tested, with small positive integers, never with waiting consumers.",
     [IQ], [("doubly linked list plus hash index", IQ)], ["queue operations against a reference list"])

prop("C20", "Finished work leaves nothing behind",
     "When all submitted work has finished, failed or been cancelled, neither the scheduler nor the worker agents nor the client still hold any task, graph, argument or result of it, whatever way it ended. Published status then shows no tasks for any client, function or worker and all slots free.",
     ["histories", "schedules", "fault_sequences"], "All histories that end with no unfinished work.",
     "Tests end as soon as results arrive and never inspect what is left; leaks need long-running systems to be noticed.",
     [TM, GM, CM, FM, AL, WTM, PM, CL], [("removal from every table on completion", TM), ("graph clean-up", GM)],
     ["objects reachable from the scheduler, agent and client after quiescence", "published status"])

prop("C21", "A worker runs its tasks one at a time, in order, answering each once",
     "A worker executes at most one task at a time, in the order received, and for every task it is given does exactly one of: report its result unchanged, report it cancelled after a cancel request, or hand it back when asked to balance. A task handed back or reported cancelled is not executed, balancing returns as many waiting tasks as asked for or all that wait, and the worker survives any order of these messages, including function replies that arrive late, twice, or say the function is gone.",
     ["schedules", "histories"], "All interleavings of task, cancel, balance, function and processor messages, with processor restarts of any duration.",
     "Tests reach the worker only through the happy path of the scheduler.",
     [W, WTM, PM, PR], [("task queue and processor lock", WTM), ("processor holder", PM)],
     ["messages at the worker's external and internal sockets, processor starts and kills"])

prop("C22", "A worker heartbeats truthfully and quits when the scheduler is gone",
     "A worker sends heartbeats regularly as long as the scheduler answers them, also while it runs or waits for tasks, with at most one unanswered, and each reports its actual number of queued tasks and activity for any load. If the scheduler stays silent for the configured time the worker announces its departure, stops its processor and ends; it does not quit earlier, and an interrupt makes it end the same way.",
     ["schedules", "configurations", "fault_sequences"], "All echo delays and losses, all load values, all timeout settings, at any moment of task processing.",
     "No test looks at heartbeats or lets the scheduler disappear.",
     [HB, "scaled/worker/agent/timeout_manager.py", W, MSG], [("heartbeat and timeout routines", HB), ("exit path", W)],
     ["messages at the worker's external socket in virtual time, processor kills, end of the agent"])

prop("C23", "Shutting down leaves no process or socket file behind",
     "When a cluster is shut down or its worker processes are interrupted, for any number of workers and whatever they are doing, all worker and processor processes end and their private socket files are removed within bounded time.",
     ["crash_points", "configurations", "schedules"], "Any number of workers, at any moment: starting, idle, running a task, restarting a processor.",
     "Tests call shutdown and never look at what is left.",
     ["scaled/cluster/cluster.py", "scaled/cluster/combo.py", W, PM], [("signal handlers forward the shutdown to each worker", "scaled/cluster/cluster.py"), ("agent kills its processor and removes its socket file", PM)],
     ["process table and temporary directory after shutdown"])

prop("C24", "Threads may share one client without losing or delaying calls",
     "Any number of threads may submit calls and graphs through one client at once: every call is sent exactly once, none is lost, and every future resolves, whatever the interleaving with the client's own receiving thread.",
     ["schedules"], "All thread interleavings of submissions with each other and with arriving replies.",
     "Tests submit from a single thread.",
     [CL, SC], [("send queue between threads", SC), ("buffer of tasks waiting for their function", CL)],
     ["futures, and tasks received by the scheduler side, under perturbed thread schedules"])

prop("C25", "One client's troubles never reach another client",
     "A client that fails, cancels, disconnects or vanishes at any moment affects only its own tasks and graphs: the tasks of other clients, including those sharing the same functions or workers, are neither cancelled nor lost nor answered wrongly, and nothing belonging to one client is ever sent to another.",
     ["histories", "schedules", "fault_sequences"], "All interleavings of several clients, any of which may disconnect, cancel or fail at any time.",
     "Every test uses exactly one client.",
     [CM, TM, GM, FM, WM], [("task to client ownership", CM), ("per-client cancellation", CL)],
     ["messages at the scheduler's ROUTER socket"])

prop("C26", "Every option takes effect as given",
     "Each command-line option of the scheduler and cluster programs, and each parameter of the combined scheduler and cluster, reaches the component it configures with the value given, and when omitted with the documented default.",
     ["configurations"], "All options and values.",
     "Tests use defaults except for the event loop, and cannot see whether an option is wired through.",
     ["scaled/entry_points/scheduler.py", "scaled/entry_points/cluster.py", "scaled/cluster/combo.py", "scaled/cluster/scheduler.py", "scaled/cluster/cluster.py", SM, "scaled/io/config.py"],
     [("argument parsing and constructor plumbing", "scaled/entry_points/scheduler.py")],
     ["values with which the scheduler, worker and their parts are constructed"])

prop("C27", "Addresses parse and print consistently, and bad ones are refused",
     "Parsing any valid tcp, ipc or inproc address and printing it gives back the same address, and printing any valid configuration and parsing it gives back an equal configuration. Anything else - unknown scheme, missing or non-numeric port, a port where none is allowed - is refused with a ValueError or TypeError.",
     ["inputs"], "All strings and all field combinations.",
     "Tests use a single address.",
     ["scaled/utility/zmq_config.py"], [("validation on construction; from_string and to_address", "scaled/utility/zmq_config.py")],
     ["ZMQConfig.from_string and to_address"])

prop("C28", "The monitor screen shows any status faithfully without failing",
     "For any state a scheduler can publish - any number of workers, clients and functions, long names, any loads - the top program renders it on a screen of any size without failing, lists every worker that fits in the chosen sort order, and shows its numbers in human units that agree with the reported values.",
     ["inputs"], "All published states, sort keys and screen sizes.",
     "There is no test of the top program or its formatters.",
     ["scaled/entry_points/top.py", "scaled/utility/formatter.py"], [("table layout", "scaled/entry_points/top.py"), ("unit formatting", "scaled/utility/formatter.py")],
     ["text drawn on a recording screen"])

prop("C29", "Evicting cached functions on a worker never affects results",
     "Whatever cached functions are evicted - by idle time, by the scheduler's order, at any moment relative to arriving tasks - each task still runs its own function with its own content, fetched again when needed, exactly once. Idle functions are in fact evicted, and eviction keeps working while functions keep being added.",
     ["schedules", "histories", "configurations"], "All interleavings of the eviction thread, delete orders, function replies and tasks, for every retention setting.",
     "Worker caches live 20 s or more; no test waits or deletes.",
     [CC, PR], [("cache with alive-since stamps cleaned by a background thread", CC), ("function request when a task's function is not cached", PR)],
     ["frames of a real Processor under eviction pressure", "CacheCleaner under perturbed thread schedules"])

prop("C30", "The allocation and index structures match their reference models",
     "Under any sequence of operations the task allocator (workers added and removed, tasks assigned and removed, balance advice, free-slot query, statistics) answers as a plain table of worker to task set would, the priority queue always yields a lowest entry with the priority its updates imply, and the one-to-many and key-to-set tables stay consistent in both directions. Queries never change later answers.",
     ["histories", "inputs"], "All operation sequences.",
     "None of these structures has a test.",
     [AL, PQ, "scaled/utility/one_to_many_dict.py", "scaled/utility/key_value_set.py"], [("heap with locator index", PQ), ("two mirrored dictionaries", "scaled/utility/one_to_many_dict.py")],
     ["public operations against reference models"])

prop("C31", "User data is encoded only by the configured serializer",
     "With any serializer given to client and workers, functions, arguments and results are encoded and decoded by exactly its corresponding operations, each value encoded once where it is produced and decoded once where it is used, for calls and graphs alike. No user value is ever passed through another encoding on the way.",
     ["inputs", "configurations"], "All serializers (whose result encoding is readable as an argument), all values.",
     "Tests only use the default serializer, where mixing up its operations is invisible.",
     [CL, PR, "scaled/protocol/python/serializer/mixins.py", GM], [("serializer calls in client and processor", CL)],
     ["payload bytes on the wire and values received with a tagging serializer"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
