#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.txt."""
import os

FIXED = """
4fddbf7 C18 a GraphTask with no functions could not be encoded
41ed574 C18 a Heartbeat with more than 65535 queued tasks, over 655% cpu or a latency above 65 ms could not be encoded, which ended the agent
c0c86a1 C30 PriorityQueue.max_priority detached the entry it looked at, so later decrease/increase/remove of it were lost
34f7654 C09 a task that arrived while there was no worker was held in limbo by the task routine and could not be cancelled
729b6a0 C19 IndexedQueue rejected an item whose hash equals that of a different item present
f14fa26 C19 IndexedQueue.remove made room but left a waiting producer asleep
c13d71f C06 a graph node taking the same node twice never became ready
fa56d74 C08 a failing graph with nodes waiting for a worker stopped the scheduler with an exception
f77090e C17 TaskResult NotFound for a graph node stopped the scheduler
6d33c87 C08 GraphTaskCancel for a queued, finished or unknown graph stopped the scheduler
875df94 C15 nodes of an accepted graph were rejected by the limit and their graph never ended
5afe6f5 C17 a task or graph submitted with an id in use stopped the scheduler
fbb5da9 C17 a graph naming unknown targets, functions or inputs, or with a cycle, stopped the scheduler
17b7e4e C09 a task cancelled on a worker that was then lost, or that returned it, was started again
00cd000 C14 FunctionRequest Delete for an idle function stopped the scheduler
1dc2fbe C16 two functions of one name showed the count of only one of them
500dd34 C17 a peer with a non-utf-8 identity stopped the scheduler at its next status report
6608061 C17 a message with missing or truncated frames stopped the scheduler
31e05d0 C17 a TaskResult with a non-final status stopped the scheduler
c9a338f C13 load_balance_trigger_times=1 never balanced
5d2e61d C09 a task waiting in the agent for its processor was neither cancellable nor counted
f71e841 C09 TaskCancel to an idle agent raised and ended it
a7f94b5 C21 a late FunctionResponse ended the agent, NotExists left its task hanging for ever
1b6e70f C23 SIGINT while the agent starts its processor left the processor behind
d745928 C23 a cluster with one worker did not forward the signal and left the worker behind
6330259 C26 SchedulerClusterCombo(event_loop="uvloop") ran the scheduler on the builtin loop
f3f4271 C29 a FunctionResponse nobody waits for stopped the processor
ad26911 C29 a function evicted between its arrival and its task failed the task
fcc34a2 C03 sys.exit, an unloadable argument or function, or an unpicklable exception ended the processor and the call never resolved
7994f28 C29 adding a function while the cleaner iterates raised in the cleaner thread and ended eviction
69104cd C28 format_bytes(1024**5) and format_microseconds(10**9) returned None and stopped top
7cef994 C05 map over a one-shot iterator returned nothing
8a39568 C04 keyword arguments that could not be passed by position were dropped silently
f2a30af C06 get(graph, ["a", "a"]) mixed up or lost results
97105c8 C08 only the first future of a failed graph got the exception, the others never resolved
0072597 C24 a call submitted while the function response was processed was put in a list nobody sent
bd1fa9c C10 futures of queued calls and graphs stayed pending after disconnect, submit after it hung
2453b86 C10 future.cancel() before the acceptance raised in the receiving thread and stopped the client
be492dd C10 a Canceled result raised in the receiving thread, its future never resolved
f31c6c3 C03 a result that does not load stopped the client's receiving thread
037de2e C15 a NoWorker echo raised in the receiving thread and stopped the client
2d8572c C21 a queued task sent a second time ended the agent with KeyError
64288e5 C23 a cluster signalled while starting, or after one of its workers died, left workers behind
dd3be45 C23 a worker interrupted while starting left its socket file
d5ddf33 C13 a surplus whose advice equals the previous one was never balanced
ef74449 C10 the cancel request of a user-cancelled task was lost when the client disconnected right after
f9be024 C28 a 5x20 terminal stopped top with curses.error from its own "too small" notice
1c5223d C28 a function, client or worker name holding a NUL character stopped top with ValueError
656c127 C20 a client that disconnected kept its tasks, arguments, futures and graphs for as long as the object lived
54cbf00 C26 with event loop uvloop the scheduler and every worker ended at start: RuntimeError, no current event loop (C01 too)
5761706 C03 exception whose class is defined in the user's script arrived as RuntimeError, the worker could not find the class to encode it
5b11651 C23 a running function that ignores or catches SIGTERM survived the end of its worker, and a cancelled one kept the worker stuck (C09)
"""

HEAD = """# known: property=<id> key=<monitor key> match=<regular expression on the detail> # <what fails>
# fixed: property=<id> <commit> <what failed>   (suppresses nothing)

known: property=C04 key=gap-default-identity match=sentinel_default # submit(sentinel_default, b=1) with def sentinel_default(a=MISSING, b=0): the default of a is sent as a copy, so "a is MISSING" is false on the worker
known: property=C01 key=changed-callable match=changed callable, second call # submit(obj, 1); obj.amount = 5; submit(obj, 1): the client keeps the encoding of the first submission, the second call runs on the callable as it was
known: property=C01 key=equal-callable match=equal callable, second call # submit(a, 1); submit(b, 1) with a == b and hash(a) == hash(b) but different behaviour: the encoding kept for a is sent for b
"""

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.txt"), "w") as f:
    f.write(HEAD)
    for line in FIXED.strip().splitlines():
        commit, prop, text = line.split(" ", 2)
        f.write(f"fixed: property={prop} {commit} {text}\n")
