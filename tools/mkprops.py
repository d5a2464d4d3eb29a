#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
A = "src/frequenz/channels/_anycast.py"; B = "src/frequenz/channels/_broadcast.py"
R = "src/frequenz/channels/_receiver.py"; M = "src/frequenz/channels/_merge.py"
S = "src/frequenz/channels/_select.py"; T = "src/frequenz/channels/timer.py"
E = "src/frequenz/channels/event.py"; F = "src/frequenz/channels/file_watcher.py"
X = "src/frequenz/channels/_exceptions.py"; SND = "src/frequenz/channels/_sender.py"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

prop("A01", "Anycast delivers every accepted message exactly once",
  "Every message whose send on an anycast channel completes is handed to exactly one receiver exactly once and unmodified, whatever its value (None, falsy or equal to another message included), as long as somebody keeps receiving. No receiver ever gets a message that was not sent.",
  ["schedules", "inputs", "histories", "configurations"],
  "all interleavings of concurrent senders and receivers, all buffer limits >= 1, all message values, receivers used via receive(), async for and ready()/consume()",
  "The tests run one schedule with 5 senders and 5 receivers and compare sums; a loss that needs a given wake-up order, limit or message value is outside what they sample.",
  [A, R], [("send/ready/consume through the shared deque", A), ("_Empty sentinel for the pending message", A)],
  ["return values of receive()/consume()/async for"],
  [("_deque", "buffered messages", A), ("_next", "message taken by ready() and not consumed yet", A)])
prop("A02", "Anycast hands messages out in the order they were accepted",
  "If one send on an anycast channel completed before another one was started, the first message is never received after the second one. In particular each receiver sees the messages of each sender in the order they were sent.",
  ["schedules", "inputs", "histories", "configurations"],
  "all interleavings, limits and numbers of blocked senders/receivers within the bound",
  "Order is only tested with one sender and one receiver, with no blocked sender and no competing receiver.",
  [A], [("append at the tail, popleft at the head", A)], ["sequence of received messages"],
  [("_deque", "FIFO buffer", A)])
prop("A03", "Anycast applies back-pressure at exactly the configured limit",
  "An anycast channel never holds more accepted but not yet taken messages than its configured limit: a send on a full channel waits (it neither fails nor drops anything) until a message is taken, and a send on a channel that has room completes without waiting for a receiver. The limit the channel reports is the one it was created with.",
  ["schedules", "inputs", "histories", "configurations"],
  "all limits (symbolic, unbounded), any fill level, all interleavings within the bound",
  "Tests use the single limit 10 with one sender and a wall-clock timeout.",
  [A], [("full check before append and wait on the send condition", A)], ["completion of send()", "channel.limit"],
  [("_deque.maxlen", "the limit", A)])
prop("A04", "Anycast never leaves a task waiting for something that is there",
  "Once nothing else can run, no receiver of an anycast channel is waiting while a message is available for it, and no sender is waiting while the channel has room. This holds for every interleaving and also when other waiting senders or receivers are cancelled at any point.",
  ["schedules", "histories", "fault_sequences", "configurations"],
  "all interleavings of sends, receives and cancellations of waiting operations within the bound",
  "Lost wake-ups need a precise order of notifications, wake-ups and cancellations; the tests never cancel a waiting task while another one waits.",
  [A], [("condition variables notified once per append/popleft", A)], ["which tasks are still blocked at quiescence"],
  [("_send_cv/_recv_cv", "waiting senders/receivers", A)])
prop("A05", "Closing an anycast channel drains, then stops, and wakes everybody",
  "After an anycast channel is closed every send, including one that was already waiting for room, fails with a SenderError caused by a ChannelClosedError for that channel. Messages accepted before remain receivable, after them every receive (also those already waiting) raises ReceiverStoppedError with the same cause, and nobody keeps waiting.",
  ["schedules", "histories", "configurations"],
  "close at any point of any history of sends and receives within the bound, any limit",
  "Tests close an idle channel only; closing while senders or several receivers are blocked is not exercised.",
  [A, R, X, SND], [("closed flag checked by send()/ready()/consume(), notify_all in close()", A)],
  ["exceptions and their __cause__", "blocked tasks at quiescence"],
  [("_closed", "channel was closed", A)])
prop("B01", "Every broadcast receiver gets every message sent while it exists",
  "Every message sent on a broadcast channel is received exactly once by every receiver that existed when it was sent and whose buffer did not overflow, and all receivers see the messages in the order they were sent. How fast, whether or how long other receivers consume (or whether they are dropped) makes no difference, and sending never waits for a receiver.",
  ["schedules", "inputs", "histories", "configurations"],
  "all interleavings of sends, receives, creation and dropping of receivers, all message values within the bound",
  "The tests compare sums for one schedule with all receivers created up front.",
  [B, R], [("send() enqueues in each live receiver", B), ("weak references to receivers", B)],
  ["return values of receive()/consume()"], [("_receivers", "attached receivers", B), ("_q", "receiver buffer", B)])
prop("B02", "A slow broadcast receiver drops its oldest messages only",
  "A broadcast receiver with buffer limit n that falls behind keeps exactly the n most recent messages sent since it was created that it has not received, in order. Only its own messages are dropped, and nothing is dropped while its buffer is not full.",
  ["inputs", "histories", "configurations", "schedules"],
  "all limits >= 1 (symbolic), any fill level, any sequence of sends and receives within the bound",
  "One overflow history with limits 10 and 5 is tested by comparing sums.",
  [B], [("enqueue() drops from the head when full", B)], ["received messages", "len(receiver)"], [("_q", "bounded buffer", B)])
prop("B03", "resend_latest hands a new receiver exactly the latest message",
  "With resend_latest enabled, a receiver created on an open broadcast channel first receives the last message sent before its creation, whatever its value, if there was one, and then the messages sent afterwards. With it disabled, or if nothing was sent or the channel is closed, it only receives messages sent after its creation.",
  ["inputs", "histories", "configurations"],
  "all message values (None and falsy included), flag on or off or switched, any history of sends and receiver creations within the bound",
  "Tests check one history with the int 9 as latest message.",
  [B], [("_latest remembered by send(), enqueued by new_receiver()", B)], ["first messages of the new receiver"], [("_latest", "last message", B)])
prop("B04", "Closing a broadcast channel drains, then stops, and wakes everybody",
  "After a broadcast channel is closed every send fails with a SenderError caused by a ChannelClosedError for that channel. Every receiver still gets the messages it has buffered and then a ReceiverStoppedError with that cause; a waiting receiver is always woken by the next message or by the close, so none waits while it has a message or after the close.",
  ["schedules", "histories", "fault_sequences"],
  "close, sends, receives and cancellations of waiting receives in any order within the bound",
  "Only closing with no waiting receiver and an empty buffer is tested.",
  [B, R, X, SND], [("closed flag, notify_all on send and close", B)], ["exceptions and causes", "blocked tasks at quiescence"], [("_closed", "channel closed", B)])
prop("R01", "ready() and consume() follow the documented protocol on every receiver",
  "For every kind of receiver, ready() returning True means the next consume() yields a message, however often ready() is called in between, and no call of ready() consumes anything; ready() returning False means the receiver is stopped and the next consume() raises ReceiverStoppedError. ready() never raises an error of the receiver: errors are delayed until consume().",
  ["histories", "schedules", "inputs"],
  "every receiver type (anycast, broadcast, event, timer, file watcher, merger, mapped, and nestings), every sequence of ready/consume calls and source activity within the bound",
  "The tests call ready() directly for Event only and never twice.",
  [R, A, B, E, T, F, M], [("ready()/consume() of each receiver class", R)], ["result of ready() followed by consume()"])
prop("R02", "A mapped receiver applies the function exactly once per message",
  "A mapped receiver yields exactly f(m) for the messages m its source yields, in the same order, calling f exactly once per consumed message. It stops when, and raises what, the source does, and an error raised by f reaches the caller without affecting later messages.",
  ["inputs", "histories", "schedules"],
  "arbitrary (uninterpreted) mapping function and messages, nested maps, any close/receive history within the bound",
  "Two messages through one lambda are tested.",
  [R], [("_Mapper delegating ready() and consume()", R)], ["received messages and calls of the function"])
prop("R03", "receive() and async for end exactly when the receiver is stopped",
  "receive() returns the same messages in the same order as async iteration; async for ends normally exactly when receive() would raise ReceiverStoppedError. The ReceiverStoppedError names the receiver receive() was called on and leads to the original error through its causes; any other error of the receiver passes through both unchanged, and a stopped receiver stays stopped.",
  ["histories", "inputs", "fault_sequences"],
  "arbitrary receivers that yield messages, errors or stop (of themselves or of another receiver) in any order within the bound",
  "Tests see only receivers of closed channels, never an error that is not a stop or a stop coming from a nested receiver.",
  [R], [("__anext__ translating ReceiverStoppedError, receive() translating back", R)], ["results and exceptions of receive()/__anext__()"])
prop("R04", "Cancelling a waiting operation never loses or duplicates a message",
  "Cancelling a task that waits in receive(), ready(), async for, a select or a merge, at any moment, loses no message: everything sent is still delivered exactly once and in order by later receives. A cancelled send either delivered its message exactly once or not at all, and in the latter case it reports the cancellation.",
  ["schedules", "fault_sequences", "histories"],
  "cancellation at any scheduling point of anycast, broadcast, event, merge and select based receives and anycast sends, within the bound",
  "No test cancels a waiting operation except through a timeout on an idle channel.",
  [A, B, M, S, E], [("no suspension point between taking a message and returning it", A), ("pending tasks survive in the merger", M)],
  ["messages received after the cancellation"])
prop("M01", "A merge yields every message of every source exactly once",
  "A merged receiver yields exactly the messages of its sources, each exactly once and unmodified, keeping the order of each source, whatever the interleaving, the number of messages ready at the same time and the way it is consumed.",
  ["schedules", "inputs", "histories", "configurations"],
  "1 to 3 sources (anycast or broadcast), all interleavings and completion orders within the bound",
  "One schedule with two sources and alternating messages is tested.",
  [M], [("one pending anext task per source, re-armed after each message", M)], ["messages of the merger"],
  [("_results", "messages fetched and not consumed", M), ("_pending", "one task per live source", M)])
prop("M02", "A merge stops exactly when all sources stopped or it was stopped",
  "A merged receiver reports that it is stopped exactly when every source is stopped and all their messages were yielded, or after stop() was called. stop() leaves no task behind, fetches nothing more, and a consumer waiting at that moment gets ReceiverStoppedError or the end of the iteration, not a cancellation.",
  ["schedules", "histories", "configurations"],
  "closing of the sources and stop() at any point of any history within the bound",
  "stop() is not tested at all.",
  [M, R], [("stopped source not re-armed; stop() cancels and awaits the tasks", M)], ["exceptions of the merger", "tasks alive after stop()"])
prop("M03", "An error in one merged source neither loses messages nor other sources",
  "If a merged source fails with an error other than being stopped, the consumer gets that error exactly once, all messages of all sources are still delivered, and the merge goes on with all sources that are not stopped.",
  ["schedules", "fault_sequences", "histories"],
  "errors at any message of any source, ready at the same time as others or not, within the bound",
  "No test merges a receiver that fails.",
  [M, R], [("results of the per-source tasks", M)], ["messages and exceptions of the merger"])
prop("M04", "A dropped merge stops fetching and loses only what it had fetched",
  "When the last reference to a merged receiver that nobody waits for is dropped, every task it started is cancelled and ends, nothing keeps the merge alive, and it fetches nothing more: every message it had not fetched by then can still be received from its source, exactly once and in order.",
  ["schedules", "histories", "configurations"],
  "a merge (also inside of another merge) dropped at any moment between any sends and receives, sources that end a cancelled wait at once or later, within the bound",
  "No test drops a merge; a task that holds a reference to it, or that is not cancelled, swallows the next message of its source at some later time.",
  [M], [("Merger.__del__ cancels the pending anext() tasks", M)], ["tasks of the loop", "messages received from the sources afterwards"],
  [("_pending", "one anext() task per active source", M)])
prop("S01", "select yields every message once, from the right receiver, and ends",
  "select yields every message of every selected receiver exactly once, in the receiver's order, and selected_from is true for that receiver and no other. Each receiver that stops is reported exactly once as stopped, after its last message, and the iteration ends when and only when all of them are stopped.",
  ["schedules", "histories", "configurations"],
  "1 to 3 receivers of different kinds, the same receiver given twice included, all interleavings and completion orders within the bound",
  "Tests use Event receivers only, one message at a time, in one schedule.",
  [S], [("one ready() task per active receiver, re-armed after being handled", S)], ["Selected objects yielded"])
prop("S02", "select raises exactly when a selected receiver was not handled",
  "If the loop body did not call selected_from with the selected receiver before asking for the next item, select raises UnhandledSelectedError carrying that selected item; otherwise it never does. Comparing with other receivers does not count as handling.",
  ["histories", "programs", "schedules"],
  "any sequence of selected_from calls in the body for any history of ready receivers within the bound",
  "One history with one unhandled receiver is tested.",
  [S], [("_handled flag set by selected_from", S)], ["exception of the iteration"])
prop("S03", "Leaving a select loop early loses nothing and leaves nothing running",
  "When a select iteration is left early, by closing it after break, by an exception in the body, by an unhandled selection or by cancellation, no task it started stays alive afterwards and every message it did not yield can still be received from its receiver exactly once, in order.",
  ["schedules", "fault_sequences", "histories"],
  "exit at any point of any history, with any set of receivers ready at that moment, within the bound",
  "Tests look at task clean-up after break for Events; messages that were ready but not yielded are not checked.",
  [S, A, B], [("finally clause cancelling and awaiting the pending ready() tasks", S), ("ready() keeps the message until consume()", A)],
  ["tasks alive after the exit", "messages received afterwards"])
prop("S04", "select reports receiver errors on the selected item and nowhere else",
  "An error raised when the selected message is consumed is stored in the selected item: exception is that error, reading message raises it, and was_stopped is true exactly for ReceiverStoppedError; without an error message is the received value and exception is None. The error does not disturb other receivers or later messages; an error raised by ready() ends the iteration with a SelectError caused by it.",
  ["inputs", "fault_sequences", "histories"],
  "any message value, any error type raised by consume() or ready() of any receiver at any point within the bound",
  "Selected is tested with one mock per case, the loop with an erroring receiver is not tested.",
  [S], [("Selected.__init__ catching Exception; SelectError raised from the task exception", S)], ["Selected attributes", "exception of the iteration"])
prop("S05", "Errors while a select is being left are raised together, nothing stays",
  "If ready() of receivers fails while a select iteration is being left, for whatever reason it is left, all other ready() tasks are still cancelled and waited for, so that none is alive afterwards, and the errors are raised together as one BaseExceptionGroup with each of these errors exactly once. Receivers that merely end by cancellation add nothing to it, and without such an error the reason of leaving is what the caller sees. No message of another receiver gets lost.",
  ["schedules", "fault_sequences", "histories"],
  "receivers whose ready() fails at any moment, or ends late or with an error when it is cancelled; left by closing after break, an error in the body, an unhandled item, an error of ready() or cancellation, within the bound",
  "No test has a receiver that fails during the cleanup of a select.",
  [S], [("_stop_pending_tasks: cancel, wait for all, collect the exceptions", S)], ["exception that leaves the select", "tasks of the loop", "messages received afterwards"],
  [("pending", "the ready() tasks that have not been handled", S)])
prop("T01", "A trigger-all-missed timer ticks once at every multiple of the interval",
  "A timer with the TriggerAllMissed policy delivers exactly one tick for each instant start + k * interval (k = 1, 2, ...), in order, however late or busy the loop is: no tick is skipped or merged and lateness is never accumulated.",
  ["inputs", "schedules", "histories"],
  "all intervals, start delays and start times, all delays of the consumer and of the loop within the bound on the number of ticks",
  "Tests sample one interval and a handful of delays on a simulated clock.",
  [T], [("TriggerAllMissed.calculate_next_tick_time, Timer.ready", T)], ["drift returned and clock at delivery"],
  [("_next_tick_time", "scheduled time of the next tick", T)])
prop("T02", "A resyncing timer always schedules the next aligned instant after now",
  "A timer with the SkipMissedAndResync policy schedules, after a tick delivered at time t, the earliest instant strictly after t that is a multiple of the interval away from its start: missed ticks are skipped, no burst is produced and the alignment with the start is never lost.",
  ["inputs", "schedules", "histories"],
  "all intervals, start times and delays, within the bound on the number of ticks",
  "Property tests sample the policy function; the timer is run with one interval and four delays.",
  [T], [("SkipMissedAndResync.calculate_next_tick_time, Timer.ready", T)], ["drift returned and clock at delivery"])
prop("T03", "A drifting timer restarts from now exactly when the tolerance is exceeded",
  "A timer with the SkipMissedAndDrift policy schedules the next tick one interval after the scheduled time of the current one if that one was late by at most the tolerance, and one interval after its delivery otherwise.",
  ["inputs", "schedules", "histories", "configurations"],
  "all intervals, tolerances, start times and delays, within the bound on the number of ticks",
  "Property tests sample the policy function; the timer is run with one interval and one tolerance.",
  [T], [("SkipMissedAndDrift.calculate_next_tick_time, Timer.ready", T)], ["drift returned and clock at delivery"])
prop("T04", "A timer never ticks early and reports its exact lateness",
  "No timer delivers a tick before its scheduled time, the value received is exactly the delivery time minus the scheduled time (never negative, microsecond resolution), and when the loop is not kept busy a tick is delivered on time. This holds for every policy, built in or custom.",
  ["inputs", "schedules", "histories"],
  "all intervals, all clock values up to 2^50 microseconds including readings that are not whole microseconds, loops that wake early by the clock resolution or arbitrarily late, custom policies returning any next tick time",
  "A real or simulated loop with round numbers never produces the roundings and early wake-ups this depends on.",
  [T], [("ready() sleeping in a loop until the scheduled time; integer microseconds", T)], ["drift returned and clock at delivery"])
prop("T05", "Starting, stopping and resetting a timer take effect as documented",
  "A timer created without auto_start waits to be started by reset() or by the first receive; after reset() the next tick is scheduled the given delay plus one interval after that moment, also if a task was already waiting, and an unread tick is discarded without disturbing the reader. After stop() a tick that already triggered can still be read and then every receive raises ReceiverStoppedError until reset() is called.",
  ["histories", "schedules", "inputs"],
  "all sequences of reset, stop, receive, ready and select within the bound, all delays and intervals",
  "Tests cover one reset while waiting and four ways of the first start.",
  [T, S], [("reset(), stop(), _stopped and _next_tick_time handling in ready()/consume()", T)], ["ticks, exceptions and is_running"])
prop("T06", "Timer arguments are validated and kept exactly",
  "A timer accepts exactly the intervals of at least one microsecond, non negative start delays and (with auto_start only) positive start delays, and raises ValueError for the others; a tolerance must not be negative. The interval and the tolerance are kept exactly, without any rounding.",
  ["inputs", "configurations"],
  "all timedelta values as interval, start delay and tolerance",
  "Tests construct timers with a few round values.",
  [T], [("validation in Timer.__init__, reset() and SkipMissedAndDrift.__init__", T), ("_to_microseconds", T)], ["exceptions, interval, delay_tolerance"])
prop("E01", "An event is received once per set, and stopping it wakes everybody",
  "An event receiver becomes ready exactly when it was set and stays ready until it is consumed; setting it several times before that counts once. After stop() an event that was set is still received, and then every receive, also one already waiting, raises ReceiverStoppedError.",
  ["histories", "schedules"],
  "all sequences of set, stop, ready, consume and receive, with any interleaving of a waiting task, within the bound",
  "One linear history is tested.",
  [E, R], [("_event, _is_set and _is_stopped flags", E)], ["ready(), consume(), is_set, is_stopped"])
prop("F01", "A file watcher delivers every reported change of the chosen types once",
  "A file watcher delivers each change reported by the underlying watcher exactly once, with its type and path, batch after batch and whatever the batch size, and lets the watcher report exactly the changes whose type was selected. It watches exactly the given paths.",
  ["inputs", "histories", "configurations"],
  "all batches of changes of all types, all sets of event types and paths within the bound (the operating system's watcher is a stub that reports anything)",
  "Tests feed batches of size one only.",
  [F], [("_changes set filled by ready(), drained by consume()", F), ("_filter_events", F)], ["received events", "arguments given to the watcher"])
prop("F02", "A file watcher stops cleanly when its source ends or it is dropped",
  "When the underlying watcher ends, pending changes are still delivered and then every receive raises ReceiverStoppedError with the watcher's end as cause, once in a select, and iteration ends. Deleting the file watcher tells the underlying watcher to stop.",
  ["histories", "schedules", "fault_sequences"],
  "end of the watcher after any history of batches and consumption within the bound",
  "No test stops the watcher.",
  [F, R, S], [("StopAsyncIteration remembered by ready(), raised by consume(); __del__ sets the stop event", F)], ["exceptions", "stop event"])

prop("K01", "What is kept does not grow with use",
  "However many messages are sent and received, operations cancelled, timers reset, and senders, receivers or iterations created and dropped: what a channel, receiver, merge, select, event or timer keeps does not grow. A message that every receiver got or lost is freed, except the latest of each channel, and so is a dropped broadcast receiver with its messages once another message was sent.",
  ["histories", "configurations"],
  "every cycle of operations within the bound, repeated; all kinds of receivers and channels",
  "No test looks at what is still referenced, and a leak needs a given sequence to be repeated.",
  [A, B, M, S, R, E, T], [("weak references to the receivers and their cleanup in send()", B), ("_Empty sentinel replaces the consumed message", A), ("results and pending tasks", M), ("pending tasks and selected items", S)],
  ["objects reachable from channels and receivers, weak references to messages"])
prop("K02", "No source of a merge or a select is starved",
  "While several sources of a merge or select have messages all the time, each of them gets its turn: before a message that is available is yielded, no other source is served more than three times, whatever the number of sources, the way and the speed of consuming, and the time since when it is available.",
  ["schedules", "histories", "configurations"],
  "orders of the finished tasks, consumers that wait 0..2 loop iterations per item, a source that starts late, 2 to 10 sources",
  "The tests never have several sources ready for long and do not look at the order between sources.",
  [M, S], [("all finished tasks of a round are handled before waiting again", S), ("all finished tasks become results before waiting again", M)],
  ["order of the items between sources"])
prop("K03", "Looking at an object has no effect",
  "str(), repr(), len() and the properties of channels, senders, receivers, selected items, events, timers and errors never fail and never change what happens afterwards, in whatever state they are used (only the message of a selected item without one raises its error).",
  ["histories", "configurations"],
  "every history of operations within the bound, performed once while nobody looks and once while everything is looked at after every step",
  "The tests compare some texts of fresh objects only.",
  [A, B, R, M, S, E, F, T], [("__str__, __repr__, __len__ and properties", "src/frequenz/channels")],
  ["results of all operations", "exceptions of str(), repr(), len(), properties"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
