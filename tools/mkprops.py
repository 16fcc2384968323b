#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements are edited in one place)."""
import json, os
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
S="xtra/src/"
HK="cfg(xtra_verif): scheduling points at the channel's mutex and atomics, so that thread interleavings can be driven"
p("C01","An accepted message is handled by exactly one actor, exactly once",
 "A message accepted through a single-recipient send is handled by exactly one of the actors on the address, exactly once, as long as some actor keeps taking messages. It is never handled twice or by two actors, and it never disappears while a mailbox is still alive, whatever the interleaving of senders, receivers and cancelled receives.",
 ["schedules","histories"],"all interleavings of polls, drops and threads over any number of senders, receive futures and mailboxes",
 "The tests drive one or two actors through a fixed order of sends; they never count deliveries over interleavings, and never cancel a receive that a message was already assigned to.",
 [S+"chan.rs",S+"recv_future.rs",S+"chan/waiting_receiver.rs"],
 [("hand over to a waiting receiver, else queue, under one lock","chan.rs try_send_to_one / try_fulfill_receiver"),("take under the same lock","chan.rs try_recv / pop_unicast"),("requeue on cancel","recv_future.rs Waiting::drop, chan.rs requeue_message")],
 [("unicast_queue","accepted, not yet taken","chan.rs Inner"),("waiting_receivers_handles","idle receivers","chan.rs Inner")],
 ["Handler::handle invocations","Mailbox::next","Address::send"],HK)
p("C02","Default-priority messages are handled in the order they were sent",
 "Messages sent to an address individually at the default priority are taken from the mailbox in the order in which their sends were first polled. This includes sends that first had to wait for room in a bounded mailbox, and holds across any number of senders; only a message that a cancelled receive put back may lose its place.",
 ["histories","schedules","configurations"],"all histories of sends, takes and waits, any queue length and capacity",
 "handle_order and waiting_sender_order use distinct priorities; no test queues three or more messages of the same priority and checks their order.",
 [S+"chan.rs",S+"chan/priority.rs",S+"address.rs"],
 [("ordered queue of accepted messages","chan.rs unicast_queue"),("choice of the waiting sender to admit","chan.rs find_remove_highest_priority")],
 [("unicast_queue","accepted, not yet taken","chan.rs Inner"),("waiting_send_to_one","sends waiting for room","chan.rs Inner")],
 ["order of Handler::handle invocations"])
p("C03","The highest-priority queued message is always taken next",
 "When an actor takes its next message, it gets one of the highest priority among everything then queued for it, individually sent and broadcast alike, with a stop_all request ranking above every priority. The only exception is a single message that was assigned or announced to the actor while it was idle, before the more important one was sent; the priority is the one last set on the send before its first poll.",
 ["histories","inputs"],"all histories mixing priorities (0..=u32::MAX), unicast, broadcast and stop requests",
 "Tests check one fixed sequence of eight messages on one mailbox and one channel.",
 [S+"chan.rs",S+"chan/priority.rs",S+"send_future.rs",S+"envelope.rs"],
 [("compare heads of the two queues","chan.rs try_recv"),("ordering by priority, Shutdown greatest","chan/priority.rs"),("set_priority through every send state type","send_future.rs SetPriority")],
 (),["order of Handler::handle invocations"])
p("C04","A broadcast reaches every live mailbox exactly once",
 "An accepted broadcast is handled exactly once by each mailbox that existed when it was accepted and keeps taking messages, and by no mailbox created afterwards. Cancelling a receive, however late, does not lose, duplicate or redirect a broadcast.",
 ["histories","schedules"],"all histories of mailbox clones/drops, broadcasts, takes and cancelled receives",
 "Tests broadcast to at most two actors created up front and only look at back pressure, not at who handled what.",
 [S+"chan.rs",S+"mailbox.rs",S+"recv_future.rs",S+"envelope.rs"],
 [("push to each live per-mailbox queue under the lock","chan.rs send_broadcast"),("own queue per clone","mailbox.rs Clone"),("wake-only notification","chan/waiting_receiver.rs NewBroadcast")],
 [("broadcast_queues","one queue per mailbox","chan.rs Inner")],["Handler::handle invocations"],HK)
p("C05","A bounded mailbox accepts exactly up to its capacity",
 "On a mailbox bounded to n, a single-recipient send is accepted without waiting exactly when an idle actor can take it or fewer than n such messages are queued, and a broadcast exactly when every live mailbox has fewer than n unhandled broadcasts; the two limits are independent, and an unbounded mailbox never makes a send wait. So never more than n messages of a kind are queued, apart from ones put back by cancelled receives and stop_all requests.",
 ["histories","configurations","schedules"],"all capacities (0, 1, n, unbounded) and all histories of sends, takes, cancellations and mailbox clones/drops",
 "Tests cover capacity 1 and 2 with a handful of messages and at most two mailboxes that stay alive.",
 [S+"chan.rs",S+"mailbox.rs"],
 [("is_unicast_full / is_broadcast_full under the lock","chan.rs"),("tail of the slowest mailbox","chan.rs longest_broadcast_queue")],
 [("capacity","bound per kind","chan.rs Inner"),("broadcast_tail","length of the longest broadcast queue","chan.rs Inner")],["SendFuture poll results"],HK)
p("C06","Waiting sends are admitted, best first, and woken as room appears",
 "Whenever room appears in a bounded mailbox, because an actor takes a message or because a lagging mailbox goes away, a waiting send of that kind with the highest priority is accepted and its task is woken. No send is left waiting while there is room for it, and with capacity zero a waiting single-recipient send is taken by the next actor that asks for a message.",
 ["schedules","histories","configurations"],"all interleavings of waiting sends (some cancelled), takes and mailbox drops, all capacities",
 "The only test has two waiting senders, re-polls them by hand with a no-op waker, and never drops a lagging mailbox or uses capacity 0.",
 [S+"chan.rs",S+"chan/waiting_sender.rs",S+"send_future.rs"],
 [("admission after each pop","chan.rs pop_unicast/pop_broadcast"),("waker stored under the waiting sender's lock","chan/waiting_sender.rs")],
 [("waiting_send_to_one / waiting_send_to_all","sends waiting for room","chan.rs Inner")],["SendFuture results and wake-ups"],HK)
p("C07","An idle actor never misses work or a wake-up",
 "A pending receive becomes ready, and its task is woken, as soon as there is something for it: a single-recipient message, a broadcast, or the loss of the last strong address. No message stays queued while an actor that could take it is idle, and a receive that has work to do completes in a single poll.",
 ["schedules","histories"],"all interleavings of receives going idle with sends, broadcasts and drops of addresses",
 "Tests poll on a runtime that re-polls generously or poll by hand; lost wake-ups on specific interleavings are not reached.",
 [S+"chan.rs",S+"chan/waiting_receiver.rs",S+"recv_future.rs"],
 [("register under the lock after both queues were seen empty","chan.rs try_recv"),("notify one / notify all","chan.rs try_fulfill_receiver, send_broadcast, shutdown_waiting_receivers")],
 [("waiting_receivers_handles","idle receivers","chan.rs Inner")],["ReceiveFuture results and wake-ups"],HK)
p("C08","Cancelling a receive loses no message",
 "Dropping a pending receive at any moment, before its first poll, while it is idle, after a message was assigned to it, or concurrently with that assignment on another thread, loses no message. An assigned message goes to another idle actor or back into the mailbox, where it can be taken again, and broadcasts and stop requests stay available to the mailbox's next receive.",
 ["schedules","fault_sequences"],"every cancellation point of a receive, in every history and thread interleaving",
 "No test drops a receive future that was assigned a message; the race with a concurrent send cannot be scheduled by a test.",
 [S+"recv_future.rs",S+"chan.rs",S+"chan/waiting_receiver.rs"],
 [("Waiting::drop cancels and requeues","recv_future.rs"),("requeue_message tries other receivers first","chan.rs")],
 (),["later receives on the same or other mailboxes"],HK)
p("C09","Cancelling a send withdraws it only while it is not accepted",
 "A send that is dropped before the mailbox accepted it is never handled, takes up no room and holds up no other send. A send dropped, or detached and its receiver dropped, after it was accepted is handled all the same.",
 ["fault_sequences","schedules"],"every cancellation point of a send or of its detached receiver",
 "Tests only drop futures incidentally (now_or_never) and do not look at what happens to the message or the other waiters.",
 [S+"chan/waiting_sender.rs",S+"chan.rs",S+"send_future.rs",S+"envelope.rs"],
 [("weak handle to the waiting sender","chan/waiting_sender.rs Handle"),("skip inactive waiters","chan.rs find_remove_highest_priority")],
 (),["Handler::handle invocations, other sends"],HK)
p("C10","Actors live exactly as long as strong handles, then drain and stop",
 "While a strong address, strong channel or not-yet-polled send made from one exists, actors on the address do not stop by themselves; once the last is gone each actor handles what was already accepted and then stops, an idle one at once. Weak handles never keep an actor alive; upgrading a weak address succeeds exactly while a strong handle exists, and an address that lost its last strong handle never regains one.",
 ["histories","schedules"],"all histories of clone/downgrade/upgrade/convert/drop over addresses and channels, racing with receives",
 "Tests drop a single address once, with one actor; conversions and races of upgrade against drop are not covered.",
 [S+"chan/ptr.rs",S+"chan.rs",S+"address.rs",S+"message_channel.rs",S+"context.rs"],
 [("sender_count with compare-exchange upgrade","chan/ptr.rs TxStrong::try_new"),("last sender wakes idle receivers","chan.rs on_sender_dropped"),("shutdown only when both queues are empty","chan.rs try_recv")],
 [("sender_count","strong handles","chan.rs Chan")],["xtra::run completion, try_upgrade, is_connected"],HK)
p("C11","stop_self and stop_all stop exactly the actors they should, next",
 "Context::stop_self stops exactly the actor whose handler called it, right after that handler finishes, and no other actor on the address. Context::stop_all stops every actor then on the address: each stops as the next thing it does after its current message, ahead of anything queued and regardless of capacity, and an idle one is woken for it.",
 ["histories","configurations"],"all histories with several mailboxes, queued work, bounded and unbounded capacities",
 "Tests stop one or two actors with short queues and real sleeps.",
 [S+"context.rs",S+"envelope.rs",S+"chan.rs",S+"lib.rs"],
 [("running flag turned into ControlFlow::Break","envelope.rs handle"),("Shutdown broadcast above all priorities","chan.rs shutdown_all_receivers, chan/priority.rs")],
 (),["xtra::run completion, ControlFlow from dispatch"])
p("C12","When the last mailbox goes away nobody is left hanging",
 "Once the last mailbox of an address is gone, because its actors stopped, failed to start, panicked or had their tasks dropped, every later send fails with Disconnected at once, every send still waiting for room fails with Disconnected, and every accepted but unhandled single-recipient send fails with Interrupted. All affected tasks are woken, also when the send runs concurrently with the disconnection on another thread.",
 ["schedules","crash_points","histories"],"every point at which the last mailbox can disappear relative to concurrent and outstanding sends",
 "Tests send after a completed stop only; the window between checking for connectivity and queueing the message needs a specific thread interleaving.",
 [S+"chan.rs",S+"chan/waiting_sender.rs",S+"send_future.rs"],
 [("last receiver clears queues and closes waiters","chan.rs shutdown_waiting_senders"),("connectivity test on send","chan.rs try_send_to_one/all"),("closing handle wakes the waiter","chan/waiting_sender.rs Drop")],
 [("receiver_count","mailboxes, receives, messages in hand","chan.rs Chan")],["SendFuture/Receiver results and wake-ups"],HK)
p("C13","A send gets its own handler's return value, or Interrupted",
 "A single-recipient send, awaited directly or through its detached receiver, yields Ok(v) only with the value v that the handler returned for that very message, and it does so as soon as the handler finished, waking the waiting task. It yields Interrupted exactly when that handler invocation was abandoned (dropped, panicked, or the message discarded), and stays pending while the message is queued or being handled.",
 ["histories","crash_points"],"all histories of concurrent requests with handlers that finish, stay pending, are dropped or panic",
 "Tests check single request/response pairs and one timeout.",
 [S+"envelope.rs",S+"send_future.rs",S+"dispatch_future.rs"],
 [("one-shot result channel per envelope","envelope.rs ReturningEnvelope"),("Receiver maps a dropped sender to Interrupted","send_future.rs")],
 (),["SendFuture, Receiver"])
p("C14","join and scoped follow the address's disconnection, no more, no less",
 "A join handle completes if and only if its address is disconnected when the handle is made or all mailboxes have gone since then, and its task is woken at that moment. A task scoped to an address yields Some of its own result if it finishes while the address is connected, otherwise None, and is never polled again after the disconnection was seen.",
 ["schedules","histories"],"all interleavings of creating, polling and dropping join handles and scoped tasks with actors stopping",
 "Tests check five hand-picked moments; creation racing with disconnection on another thread is not reached.",
 [S+"address.rs",S+"scoped_task.rs",S+"chan.rs",S+"message_channel.rs"],
 [("listen before checking connectivity","chan.rs disconnect_listener"),("notify all on the last receiver's drop","chan.rs shutdown_waiting_senders")],
 [("on_shutdown","event of disconnection","chan.rs Chan")],["ActorJoinHandle, ScopedTask"],HK)
p("C15","len, is_empty, capacity, is_connected and Debug counts tell the truth",
 "At any quiescent moment len() is the number of single-recipient messages queued plus the number of broadcasts (and stop_all requests) that the slowest live mailbox has yet to take, and zero once no mailbox is left; is_empty() agrees with it and capacity() is the configured bound. is_connected() holds exactly while both a mailbox and a strong handle exist, and the Debug output of addresses and channels shows the exact numbers of both.",
 ["histories"],"all histories; every moment between two operations",
 "Tests never call len after interesting histories and check Debug for three handles.",
 [S+"chan.rs",S+"chan/ptr.rs",S+"address.rs",S+"message_channel.rs"],
 [("broadcast_tail + queue length","chan.rs len"),("counters","chan/ptr.rs")],
 (),["Address/MessageChannel accessors"])
p("C16","Handles compare, order and hash by mailbox and strength, consistently",
 "Two addresses (or channels) are equal exactly when they lead to the same mailbox and have the same strength, where an Either handle counts as the strength it wraps; same_actor ignores strength, and equal handles hash equally. Address ordering is a total order consistent with that equality in which a strong address ranks above a weak one of the same mailbox.",
 ["inputs"],"all pairs and triples of handles over mailboxes, strengths and representations",
 "The test compares a few strong/weak pairs, never Either handles, Ord or Hash of addresses.",
 [S+"address.rs",S+"message_channel.rs",S+"chan/ptr.rs"],
 [("PartialEq, PartialOrd, Ord, Hash","address.rs"),("PartialEq, Hash","message_channel.rs")],(),["==, cmp, partial_cmp, hash, same_actor"])
p("C17","run starts once, handles one message at a time, and stops once",
 "xtra::run calls started exactly once and first; if that fails it returns that value without handling anything or calling stopped. Otherwise it handles messages strictly one at a time until told to stop, then calls stopped exactly once, handles nothing more, and returns stopped's value; the mailbox is released when run ends, however it ends.",
 ["histories","schedules","crash_points"],"all histories of a running actor, with handlers, started and stopped suspending, failing, panicking or being dropped at any poll",
 "No test suspends started/stopped, fails started, or checks that handlers of one actor never overlap.",
 [S+"lib.rs",S+"dispatch_future.rs",S+"envelope.rs",S+"recv_future.rs"],
 [("run / yield_once","lib.rs"),("DispatchFuture state machine","dispatch_future.rs")],(),["Actor and Handler callbacks, run's result"])
p("C18","select and join handle messages meanwhile and lose neither side",
 "xtra::join always drives its future to completion and returns its value, handling incoming messages meanwhile only until the actor is stopped. xtra::select returns the future's value if it finishes first, or hands the unfinished future back exactly when a message handled meanwhile stopped the actor; in both, each message taken is handled to its end before the future is polled again, and no message is lost when they return. Called inside a handler or in started, a stop they have seen also stops the actor's own event loop.",
 ["histories","schedules"],"all interleavings of the future's progress with arriving messages and stop requests, at top level and inside handlers",
 "Doc examples cover a ready future and one immediate stop.",
 [S+"lib.rs"],[("select loop with a cancellable receive","lib.rs select"),("join on top of select","lib.rs join")],(),["select/join results, Handler callbacks, remaining messages"])
p("C19","Concurrent calls take effect one at a time",
 "Calls made from different threads on the addresses, channels, mailboxes and futures of one actor behave as if each step of each call took effect at one instant between its start and its end: results, deliveries and wake-ups can always be explained by such an order. No interleaving of threads deadlocks, panics or leaves a task waiting for something that already happened.",
 ["schedules"],"all thread interleavings of small programs of concurrent operations, switched at every lock and atomic access",
 "Tests run with free-running threads; they do not control interleavings.",
 [S+"chan.rs",S+"chan/ptr.rs",S+"chan/waiting_sender.rs",S+"chan/waiting_receiver.rs",S+"recv_future.rs"],
 [("one mutex around the channel state","chan.rs Chan"),("atomic counters","chan/ptr.rs"),("small locks around one-shot states","chan/waiting_sender.rs")],(),["all public operations"],HK)
p("C20","Dropping handles and mailboxes never deadlocks on what messages own",
 "Messages may own addresses, channels, mailboxes or pending sends of the very actor they are queued for. Dropping the last mailbox, cancelling a send, or discarding such a message at any point completes without deadlock or panic and releases everything the message owned.",
 ["inputs","histories"],"all placements (queued, waiting for room, assigned, broadcast) of messages that own handles, and all orders of dropping",
 "No test sends a message that owns an address of the same actor.",
 [S+"chan.rs",S+"chan/waiting_sender.rs",S+"recv_future.rs"],
 [("what is discarded is dropped outside the lock","chan.rs shutdown_waiting_senders")],(),["drop of Address, Mailbox, SendFuture, ReceiveFuture"])
p("C21","A sink sends its items in order, one at a time, with back pressure",
 "The sink made from an address or channel sends items in the order given, accepts the next item only once the previous one was completely handled, and after flush or close every accepted item has been handled. It reports the error of a failed send, and it keeps the actor alive exactly if made from a strong handle.",
 ["histories"],"all interleavings of sink polls with the actor's progress, bounded and unbounded, strong and weak",
 "Only an example uses the sink.",
 [S+"address.rs",S+"message_channel.rs"],[("into_sink over send","address.rs, message_channel.rs")],(),["Sink methods, Handler callbacks"])
p("C22","Handlers run in the tracing span of the send that caused them",
 "With instrumentation on, a message's handler always runs in a handler span whose ancestors are the request span and the span that was current when the send was first polled. This holds however long the message waited for room or in the queue, was put back by a cancelled receive, went through a channel or was broadcast to several actors, and spans of different messages never mix; each request's waiting span has closed by the time it is handled and dropped.",
 ["histories"],"all histories of concurrent sends from different spans",
 "Two tests check one send each.",
 [S+"instrumentation/tracing.rs",S+"envelope.rs",S+"dispatch_future.rs",S+"chan.rs"],
 [("span captured at first poll","chan.rs try_send_* start_span"),("future instrumented on dispatch","envelope.rs handle")],(),["tracing::Span::current inside handlers"])
p("C23","A message channel behaves exactly like the address it came from",
 "Sending through a MessageChannel, with any priority, detached or not, and its conversions, join, introspection and drops have the same effects and results as the same operation on the address it was made from, for strong, weak and Either handles. Cloning and converting preserve the strength, and downgrading always yields a weak handle.",
 ["histories","inputs"],"all histories in which any operation is made through a channel instead of an address",
 "Tests use channels in four places.",
 [S+"message_channel.rs",S+"send_future.rs"],[("delegation to Address","message_channel.rs"),("type-erased sending","send_future.rs ActorErasedSending")],(),["MessageChannel methods"])
p("C24","A spawned actor runs to its own end, like run, on every runtime",
 "Spawning an actor with spawn_tokio, spawn_smol or spawn_async_std returns the very address it was given and starts, on that runtime, exactly what run does: started once and first, one message at a time, stopped once. The spawned actor needs nobody to hold or poll anything: it keeps going until it is stopped, panics, fails to start or its last strong address goes, is not kept alive by being spawned, and its mailbox is released when it ends, also when other mailboxes of the same actor live on.",
 ["histories","schedules"],"all histories of actors spawned on each runtime with callers sending, waiting, downgrading and dropping handles, handlers suspending, panicking and stopping",
 "One smoke test per runtime sends a message to a spawned actor; ends, panics, lifetimes and several spawned actors sharing a mailbox are not looked at.",
 [S+"spawn.rs",S+"lib.rs",S+"address.rs"],
 [("spawn_tokio / spawn_smol / spawn_async_std hand run to the runtime, detached","spawn.rs")],(),["spawn_*, Actor and Handler callbacks, address liveness"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
