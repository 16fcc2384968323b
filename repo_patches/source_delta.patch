From a4d9302e7078a243aa3cd04dca10efed8da731d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 01/14] fix: hand out single-recipient messages of equal
 priority in send order

A BinaryHeap is not stable, so with three or more messages of the default
priority queued they were handled out of order.
---
 xtra/src/chan.rs          | 20 ++++++++++++-----
 xtra/src/chan/priority.rs | 47 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 61 insertions(+), 6 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 187d963..0e62ef7 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -13,7 +13,7 @@ use std::sync::{atomic, Arc, Mutex, Weak};
 use std::{cmp, mem};
 
 use event_listener::{Event, EventListener};
-pub use priority::{ByPriority, HasPriority, Priority};
+pub use priority::{ByPriority, ByPriorityInOrder, HasPriority, Priority};
 pub use ptr::{Ptr, RefCounter, Rx, TxEither, TxStrong, TxWeak};
 pub use waiting_receiver::WaitingReceiver;
 pub use waiting_sender::WaitingSender;
@@ -127,7 +127,7 @@ impl<A> Chan<A> {
             return Ok(Err(MailboxFull(waiting)));
         }
 
-        inner.unicast_queue.push(ByPriority(unfulfilled_msg));
+        inner.push_unicast(unfulfilled_msg);
 
         Ok(Ok(()))
     }
@@ -290,7 +290,7 @@ impl<A> Chan<A> {
         };
 
         if let Err(msg) = inner.try_fulfill_receiver(msg) {
-            inner.unicast_queue.push(ByPriority(msg));
+            inner.push_unicast(msg);
         }
     }
 
@@ -307,7 +307,8 @@ struct Inner<A> {
     waiting_send_to_one: VecDeque<waiting_sender::Handle<MessageToOne<A>>>,
     waiting_send_to_all: VecDeque<waiting_sender::Handle<MessageToAll<A>>>,
     waiting_receivers_handles: VecDeque<waiting_receiver::Handle<A>>,
-    unicast_queue: BinaryHeap<ByPriority<MessageToOne<A>>>,
+    unicast_queue: BinaryHeap<ByPriorityInOrder<MessageToOne<A>>>,
+    unicast_seq: u64,
     broadcast_queues: Vec<Weak<BroadcastQueue<A>>>,
     broadcast_tail: usize,
 }
@@ -320,17 +321,24 @@ impl<A> Inner<A> {
             waiting_send_to_all: VecDeque::default(),
             waiting_receivers_handles: VecDeque::default(),
             unicast_queue: BinaryHeap::default(),
+            unicast_seq: 0,
             broadcast_queues: Vec::default(),
             broadcast_tail: 0,
         }
     }
 
+    fn push_unicast(&mut self, msg: MessageToOne<A>) {
+        let seq = self.unicast_seq;
+        self.unicast_seq += 1;
+        self.unicast_queue.push(ByPriorityInOrder { msg, seq });
+    }
+
     fn pop_unicast(&mut self) -> Option<Box<dyn MessageEnvelope<Actor = A>>> {
-        let msg = self.unicast_queue.pop()?.0;
+        let msg = self.unicast_queue.pop()?.msg;
 
         if !self.is_unicast_full() {
             if let Some(msg) = self.try_take_waiting_unicast_message() {
-                self.unicast_queue.push(ByPriority(msg))
+                self.push_unicast(msg)
             }
         }
 
diff --git a/xtra/src/chan/priority.rs b/xtra/src/chan/priority.rs
index 1c01ee7..6532049 100644
--- a/xtra/src/chan/priority.rs
+++ b/xtra/src/chan/priority.rs
@@ -56,3 +56,50 @@ where
         self.0.priority().cmp(&other.0.priority())
     }
 }
+
+/// Like [`ByPriority`], but among messages of equal priority, the one that was queued first is the
+/// greatest. A heap of these hands out messages of equal priority in the order they were queued.
+pub struct ByPriorityInOrder<T> {
+    pub msg: T,
+    pub seq: u64,
+}
+
+impl<T> HasPriority for ByPriorityInOrder<T>
+where
+    T: HasPriority,
+{
+    fn priority(&self) -> Priority {
+        self.msg.priority()
+    }
+}
+
+impl<T> PartialEq for ByPriorityInOrder<T>
+where
+    T: HasPriority,
+{
+    fn eq(&self, other: &Self) -> bool {
+        self.cmp(other) == Ordering::Equal
+    }
+}
+
+impl<T> Eq for ByPriorityInOrder<T> where T: HasPriority {}
+
+impl<T> PartialOrd for ByPriorityInOrder<T>
+where
+    T: HasPriority,
+{
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl<T> Ord for ByPriorityInOrder<T>
+where
+    T: HasPriority,
+{
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.priority()
+            .cmp(&other.priority())
+            .then_with(|| other.seq.cmp(&self.seq))
+    }
+}
-- 
2.43.0


From 35942ae7add3b6cd8b0535d273ccbb3366d39638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 02/14] fix: admit waiting sends of equal priority in the order
 they started waiting

max_by_key returns the last maximum, so the most recent one was admitted first.
---
 xtra/src/chan.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 0e62ef7..7457537 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -443,6 +443,7 @@ where
     let pos = queue
         .iter()
         .enumerate()
+        .rev() // `max_by_key` returns the last maximum, but the longest-waiting should go first.
         .max_by_key(|(_, handle)| handle.priority())?
         .0;
 
-- 
2.43.0


From 510bd55112f7a74d3567dbf7af7821a6c5932b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:39 +0000
Subject: [PATCH 03/14] fix: let a receiver take from a sender that waits on a
 mailbox of capacity 0

If the sender came first, it was never admitted and both waited forever.
---
 xtra/src/chan.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 7457537..bb1210d 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -183,6 +183,11 @@ impl<A> Chan<A> {
             Ordering::Less => Ok(inner.pop_broadcast(broadcast_mailbox).unwrap().into()),
             // Equal, but both are empty, so wait or exit if shutdown
             _ => {
+                // With a capacity of 0, messages are handed over from waiting senders directly.
+                if let Some(msg) = inner.try_take_waiting_unicast_message() {
+                    return Ok(msg.into());
+                }
+
                 // on_shutdown is only notified with inner locked, and it's locked here, so no race
                 if self.sender_count.load(atomic::Ordering::SeqCst) == 0 {
                     return Ok(ActorMessage::Shutdown);
-- 
2.43.0


From 642e834db72205c26399002bd19a04924a18f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 04/14] fix: do not drop messages while the channel is locked

A queued message that owns the last strong address of its own actor
deadlocked when the last mailbox went away.
---
 xtra/src/chan.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index bb1210d..035b9bc 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -255,12 +255,16 @@ impl<A> Chan<A> {
         self.on_shutdown.notify(usize::MAX);
 
         // Let any outstanding messages drop
-        inner.unicast_queue.clear();
+        let unicast_queue = mem::take(&mut inner.unicast_queue);
         inner.broadcast_queues.clear();
 
         // Close (and potentially wake) outstanding waiting senders
-        inner.waiting_send_to_one.clear();
-        inner.waiting_send_to_all.clear();
+        let waiting_send_to_one = mem::take(&mut inner.waiting_send_to_one);
+        let waiting_send_to_all = mem::take(&mut inner.waiting_send_to_all);
+
+        // The messages may own addresses of this very channel, which lock it when they are dropped.
+        drop(inner);
+        drop((unicast_queue, waiting_send_to_one, waiting_send_to_all));
     }
 
     pub fn disconnect_listener(&self) -> Option<EventListener> {
-- 
2.43.0


From 1e466a68684b5cb9a873d483e3962fdb80c151c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:29 +0000
Subject: [PATCH 05/14] fix: check for disconnection while holding the lock
 when sending

A send that raced with the last mailbox going away could queue its message
after the queues were cleared, and then wait for a result forever.
---
 xtra/src/chan.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 035b9bc..0ac55f9 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -114,6 +114,11 @@ impl<A> Chan<A> {
 
         let mut inner = self.chan.lock().unwrap();
 
+        // The last mailbox may have gone away before we got hold of the lock.
+        if !self.is_connected() {
+            return Err(Error::Disconnected);
+        }
+
         let unfulfilled_msg = if let Err(msg) = inner.try_fulfill_receiver(message) {
             msg
         } else {
@@ -146,6 +151,11 @@ impl<A> Chan<A> {
 
         let mut inner = self.chan.lock().unwrap();
 
+        // The last mailbox may have gone away before we got hold of the lock.
+        if !self.is_connected() {
+            return Err(Error::Disconnected);
+        }
+
         if inner.is_broadcast_full() {
             let (handle, waiting) = WaitingSender::new(message);
             inner.waiting_send_to_all.push_back(handle);
-- 
2.43.0


From 12bfafb95e327bdf35053cff7647c3f41e487b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:29 +0000
Subject: [PATCH 06/14] fix: make Ord for Address agree with PartialOrd and Eq

It ignored the strength, so a strong and a weak Either address of one actor
compared as equal although they are not.
---
 xtra/src/address.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xtra/src/address.rs b/xtra/src/address.rs
index 11502ca..22162b5 100644
--- a/xtra/src/address.rs
+++ b/xtra/src/address.rs
@@ -302,7 +302,8 @@ impl<A, Rc: RefCounter, Rc2: RefCounter> PartialOrd<Address<A, Rc2>> for Address
 
 impl<A, Rc: RefCounter> Ord for Address<A, Rc> {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.0.inner_ptr().cmp(&other.0.inner_ptr())
+        (self.0.inner_ptr().cmp(&other.0.inner_ptr()))
+            .then_with(|| self.0.is_strong().cmp(&other.0.is_strong()))
     }
 }
 
-- 
2.43.0


From 970cffa35ba1309e7dfdf9b3251f827acbcb2eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:29 +0000
Subject: [PATCH 07/14] fix: cancel a receive atomically with respect to
 senders

A message given to a waiting receiver between the check for one and the end
of the receiver's destruction was lost.
---
 xtra/src/chan.rs                  | 12 +++++++++---
 xtra/src/chan/waiting_receiver.rs |  2 +-
 xtra/src/recv_future.rs           | 17 +++++++++--------
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 0ac55f9..c7cb955 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -295,19 +295,25 @@ impl<A> Chan<A> {
         }
     }
 
-    /// Re-queue the given message.
+    /// Cancel the given receiver and re-queue its message, if it was already given one.
     ///
     /// Normally, messages are delivered from the inbox straight to the actor. It can however happen
     /// that this process gets cancelled. In that case, this function can be used to re-queue the
-    /// given message so it does not get lost.
+    /// message so it does not get lost.
     ///
     /// Note that the ordering of messages in the queues may be slightly off with this function.
-    pub fn requeue_message(&self, msg: MessageToOne<A>) {
+    pub fn cancel_receiver(&self, receiver: WaitingReceiver<A>) {
+        // Receivers are only given messages with this locked, so none can slip in unnoticed.
         let mut inner = match self.chan.lock() {
             Ok(lock) => lock,
             Err(_) => return, // If we can't lock the inner channel, there is nothing we can do.
         };
 
+        let msg = match receiver.cancel() {
+            Some(msg) => msg,
+            None => return,
+        };
+
         if let Err(msg) = inner.try_fulfill_receiver(msg) {
             inner.push_unicast(msg);
         }
diff --git a/xtra/src/chan/waiting_receiver.rs b/xtra/src/chan/waiting_receiver.rs
index ebed76e..68acd44 100644
--- a/xtra/src/chan/waiting_receiver.rs
+++ b/xtra/src/chan/waiting_receiver.rs
@@ -60,7 +60,7 @@ impl<A> WaitingReceiver<A> {
     ///
     /// It is important to call this message over just dropping the [`WaitingReceiver`] as this
     /// message would otherwise be dropped.
-    pub fn cancel(&mut self) -> Option<MessageToOne<A>> {
+    pub fn cancel(mut self) -> Option<MessageToOne<A>> {
         match self.0.try_recv() {
             Ok(Some(CtrlMsg::NewMessage(msg))) => Some(msg),
             _ => None,
diff --git a/xtra/src/recv_future.rs b/xtra/src/recv_future.rs
index 2438322..c462545 100644
--- a/xtra/src/recv_future.rs
+++ b/xtra/src/recv_future.rs
@@ -79,7 +79,7 @@ enum Receiving<A> {
 pub struct Waiting<A> {
     channel: Option<chan::Ptr<A, Rx>>,
     broadcast_mailbox: Option<Arc<BroadcastQueue<A>>>,
-    waiting_receiver: WaitingReceiver<A>,
+    waiting_receiver: Option<WaitingReceiver<A>>,
 }
 
 impl<A> Future for Waiting<A> {
@@ -91,7 +91,11 @@ impl<A> Future for Waiting<A> {
     fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
         let this = self.get_mut();
 
-        let maybe_message = futures_util::ready!(this.waiting_receiver.poll(
+        let waiting_receiver = this
+            .waiting_receiver
+            .as_mut()
+            .expect("to not be polled after completion");
+        let maybe_message = futures_util::ready!(waiting_receiver.poll(
             this.channel
                 .as_mut()
                 .expect("to not be polled after completion"),
@@ -121,11 +125,8 @@ impl<A> Future for Waiting<A> {
 
 impl<A> Drop for Waiting<A> {
     fn drop(&mut self) {
-        if let Some(msg) = self.waiting_receiver.cancel() {
-            self.channel
-                .as_mut()
-                .expect("to not have message on drop but channel is gone")
-                .requeue_message(msg);
+        if let (Some(channel), Some(waiting)) = (&self.channel, self.waiting_receiver.take()) {
+            channel.cancel_receiver(waiting);
         }
     }
 }
@@ -153,7 +154,7 @@ impl<A> Future for Receiving<A> {
                         *this = Receiving::Waiting(Waiting {
                             channel: Some(channel),
                             broadcast_mailbox: Some(broadcast_mailbox),
-                            waiting_receiver: waiting,
+                            waiting_receiver: Some(waiting),
                         });
                     }
                 },
-- 
2.43.0


From 5e5426a0993c0affdf2de9eda7aba217441b08ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 08/14] fix: let waiting broadcasts in when a lagging mailbox
 goes away

The length of the longest broadcast queue was not updated when a mailbox was
dropped, so len() was wrong and broadcasts could be blocked forever by a
mailbox that no longer existed.
---
 xtra/src/chan.rs        | 20 ++++++++++++++++++++
 xtra/src/mailbox.rs     |  3 ++-
 xtra/src/recv_future.rs |  9 ++++++---
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index c7cb955..ecb8c44 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -64,6 +64,7 @@ impl<A> Chan<A> {
     pub fn on_receiver_dropped(&self) {
         // Memory orderings copied from Arc::drop
         if self.receiver_count.fetch_sub(1, atomic::Ordering::Release) != 1 {
+            self.release_broadcasts();
             return;
         }
 
@@ -267,6 +268,7 @@ impl<A> Chan<A> {
         // Let any outstanding messages drop
         let unicast_queue = mem::take(&mut inner.unicast_queue);
         inner.broadcast_queues.clear();
+        inner.broadcast_tail = 0;
 
         // Close (and potentially wake) outstanding waiting senders
         let waiting_send_to_one = mem::take(&mut inner.waiting_send_to_one);
@@ -277,6 +279,24 @@ impl<A> Chan<A> {
         drop((unicast_queue, waiting_send_to_one, waiting_send_to_all));
     }
 
+    /// Account for a broadcast mailbox having possibly gone away: nobody should wait for it to
+    /// catch up any more.
+    fn release_broadcasts(&self) {
+        let mut inner = match self.chan.lock() {
+            Ok(lock) => lock,
+            Err(_) => return, // Poisoned, ignore
+        };
+
+        inner.broadcast_tail = inner.longest_broadcast_queue();
+
+        while !inner.is_broadcast_full() {
+            match inner.try_take_waiting_broadcast_message() {
+                Some(m) => inner.send_broadcast(m),
+                None => return,
+            }
+        }
+    }
+
     pub fn disconnect_listener(&self) -> Option<EventListener> {
         // Listener is created before checking connectivity to avoid the following race scenario:
         //
diff --git a/xtra/src/mailbox.rs b/xtra/src/mailbox.rs
index e75e966..3ac5ff5 100644
--- a/xtra/src/mailbox.rs
+++ b/xtra/src/mailbox.rs
@@ -9,8 +9,9 @@ use crate::{Address, WeakAddress};
 /// Messages sent into an [`Address`] will be received in an actor's [`Mailbox`].
 /// Think of [`Address`] and [`Mailbox`] as an MPMC channel.
 pub struct Mailbox<A> {
-    inner: chan::Ptr<A, Rx>,
+    // Dropped before `inner`, which lets the channel know.
     broadcast_mailbox: Arc<BroadcastQueue<A>>,
+    inner: chan::Ptr<A, Rx>,
 }
 
 impl<A> Mailbox<A> {
diff --git a/xtra/src/recv_future.rs b/xtra/src/recv_future.rs
index c462545..2ce06f9 100644
--- a/xtra/src/recv_future.rs
+++ b/xtra/src/recv_future.rs
@@ -30,8 +30,9 @@ pub struct ReceiveFuture<A>(Receiving<A>);
 pub struct Message<A> {
     pub(crate) inner: ActorMessage<A>,
 
-    pub(crate) channel: chan::Ptr<A, Rx>,
+    // Dropped before `channel`, which lets the channel know.
     pub(crate) broadcast_mailbox: Arc<BroadcastQueue<A>>,
+    pub(crate) channel: chan::Ptr<A, Rx>,
 }
 
 impl<A> ReceiveFuture<A> {
@@ -61,8 +62,9 @@ impl<A> Future for ReceiveFuture<A> {
 #[must_use = "Futures do nothing unless polled"]
 enum Receiving<A> {
     New {
-        channel: chan::Ptr<A, Rx>,
+        // Dropped before `channel`, which lets the channel know.
         broadcast_mailbox: Arc<BroadcastQueue<A>>,
+        channel: chan::Ptr<A, Rx>,
     },
     Waiting(Waiting<A>),
     Done,
@@ -77,8 +79,9 @@ enum Receiving<A> {
 /// mailbox in such a scenario.
 #[must_use = "Futures do nothing unless polled"]
 pub struct Waiting<A> {
-    channel: Option<chan::Ptr<A, Rx>>,
+    // Dropped before `channel`, which lets the channel know.
     broadcast_mailbox: Option<Arc<BroadcastQueue<A>>>,
+    channel: Option<chan::Ptr<A, Rx>>,
     waiting_receiver: Option<WaitingReceiver<A>>,
 }
 
-- 
2.43.0


From 69e219078f0c27a9035762963e935c300839c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:20 +0000
Subject: [PATCH 09/14] verif: scheduling points behind cfg(xtra_verif)

---
 xtra/src/chan.rs  |  11 ++-
 xtra/src/lib.rs   |   2 +
 xtra/src/verif.rs | 222 ++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 233 insertions(+), 2 deletions(-)
 create mode 100644 xtra/src/verif.rs

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index ecb8c44..3f589fa 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -8,17 +8,24 @@ mod waiting_sender;
 
 use std::cmp::Ordering;
 use std::collections::{BinaryHeap, VecDeque};
+#[cfg(not(xtra_verif))]
 use std::sync::atomic::AtomicUsize;
-use std::sync::{atomic, Arc, Mutex, Weak};
+#[cfg(not(xtra_verif))]
+use std::sync::Mutex;
+use std::sync::{atomic, Arc, Weak};
 use std::{cmp, mem};
 
-use event_listener::{Event, EventListener};
+#[cfg(not(xtra_verif))]
+use event_listener::Event;
+use event_listener::EventListener;
 pub use priority::{ByPriority, ByPriorityInOrder, HasPriority, Priority};
 pub use ptr::{Ptr, RefCounter, Rx, TxEither, TxStrong, TxWeak};
 pub use waiting_receiver::WaitingReceiver;
 pub use waiting_sender::WaitingSender;
 
 use crate::envelope::{BroadcastEnvelope, MessageEnvelope, Shutdown};
+#[cfg(xtra_verif)]
+use crate::verif::{AtomicUsize, Event, Mutex};
 use crate::{Actor, Error};
 
 pub type MessageToOne<A> = Box<dyn MessageEnvelope<Actor = A>>;
diff --git a/xtra/src/lib.rs b/xtra/src/lib.rs
index 8803bcc..c485585 100644
--- a/xtra/src/lib.rs
+++ b/xtra/src/lib.rs
@@ -32,6 +32,8 @@ mod recv_future;
 pub mod scoped_task;
 mod send_future;
 mod spawn;
+#[cfg(xtra_verif)]
+pub mod verif;
 
 /// Commonly used types from xtra
 pub mod prelude {
diff --git a/xtra/src/verif.rs b/xtra/src/verif.rs
new file mode 100644
index 0000000..e89e16e
--- /dev/null
+++ b/xtra/src/verif.rs
@@ -0,0 +1,222 @@
+//! Scheduling points for verification, only there with `--cfg xtra_verif`: every access of the
+//! channel to a lock, counter or event is announced to a hook, which may run other threads
+//! meanwhile.
+#![allow(missing_docs)]
+
+use std::ops::{Deref, DerefMut};
+use std::sync::atomic::Ordering;
+use std::sync::{self, LockResult, OnceLock, PoisonError, TryLockError, TryLockResult};
+
+/// What the current thread is about to do, or has just done.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Point {
+    /// About to lock.
+    Lock,
+    /// The lock is taken: returns whether to try again (as opposed to block).
+    Blocked,
+    /// Has unlocked.
+    Unlocked,
+    /// About to access a counter or event.
+    Atomic,
+}
+
+static HOOK: OnceLock<fn(Point, usize) -> bool> = OnceLock::new();
+
+/// Install the hook, once.
+pub fn set_hook(hook: fn(Point, usize) -> bool) {
+    let _ = HOOK.set(hook);
+}
+
+fn point(point: Point, addr: usize) -> bool {
+    HOOK.get().map_or(false, |hook| hook(point, addr))
+}
+
+#[derive(Debug, Default)]
+pub struct Mutex<T>(sync::Mutex<T>);
+
+#[derive(Debug)]
+pub struct MutexGuard<'a, T>(Option<sync::MutexGuard<'a, T>>, usize);
+
+impl<T> Mutex<T> {
+    pub fn new(value: T) -> Self {
+        Mutex(sync::Mutex::new(value))
+    }
+
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        let addr = self as *const _ as usize;
+        point(Point::Lock, addr);
+        loop {
+            match self.0.try_lock() {
+                Ok(guard) => return Ok(MutexGuard(Some(guard), addr)),
+                Err(TryLockError::Poisoned(e)) => {
+                    return Err(PoisonError::new(MutexGuard(Some(e.into_inner()), addr)))
+                }
+                Err(TryLockError::WouldBlock) if point(Point::Blocked, addr) => {}
+                Err(TryLockError::WouldBlock) => {
+                    return match self.0.lock() {
+                        Ok(guard) => Ok(MutexGuard(Some(guard), addr)),
+                        Err(e) => Err(PoisonError::new(MutexGuard(Some(e.into_inner()), addr))),
+                    }
+                }
+            }
+        }
+    }
+}
+
+impl<T> Mutex<T> {
+    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+        let addr = self as *const _ as usize;
+        point(Point::Atomic, addr);
+        match self.0.try_lock() {
+            Ok(guard) => Ok(MutexGuard(Some(guard), addr)),
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
+                MutexGuard(Some(e.into_inner()), addr),
+            ))),
+        }
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+        self.0.is_poisoned()
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.0.get_mut()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+}
+
+impl<T> Deref for MutexGuard<'_, T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        self.0.as_ref().expect("guard is there until dropped")
+    }
+}
+
+impl<T> DerefMut for MutexGuard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.0.as_mut().expect("guard is there until dropped")
+    }
+}
+
+impl<T> Drop for MutexGuard<'_, T> {
+    fn drop(&mut self) {
+        self.0 = None;
+        point(Point::Unlocked, self.1);
+    }
+}
+
+#[derive(Debug, Default)]
+pub struct AtomicUsize(sync::atomic::AtomicUsize);
+
+impl AtomicUsize {
+    pub const fn new(value: usize) -> Self {
+        AtomicUsize(sync::atomic::AtomicUsize::new(value))
+    }
+
+    fn at(&self) -> &sync::atomic::AtomicUsize {
+        point(Point::Atomic, self as *const _ as usize);
+        &self.0
+    }
+
+    pub fn load(&self, order: Ordering) -> usize {
+        self.at().load(order)
+    }
+
+    pub fn store(&self, value: usize, order: Ordering) {
+        self.at().store(value, order)
+    }
+
+    pub fn swap(&self, value: usize, order: Ordering) -> usize {
+        self.at().swap(value, order)
+    }
+
+    pub fn fetch_add(&self, value: usize, order: Ordering) -> usize {
+        self.at().fetch_add(value, order)
+    }
+
+    pub fn fetch_sub(&self, value: usize, order: Ordering) -> usize {
+        self.at().fetch_sub(value, order)
+    }
+
+    pub fn fetch_max(&self, value: usize, order: Ordering) -> usize {
+        self.at().fetch_max(value, order)
+    }
+
+    pub fn fetch_min(&self, value: usize, order: Ordering) -> usize {
+        self.at().fetch_min(value, order)
+    }
+
+    pub fn get_mut(&mut self) -> &mut usize {
+        self.0.get_mut()
+    }
+
+    pub fn into_inner(self) -> usize {
+        self.0.into_inner()
+    }
+
+    pub fn compare_exchange(
+        &self,
+        current: usize,
+        new: usize,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<usize, usize> {
+        self.at().compare_exchange(current, new, success, failure)
+    }
+
+    pub fn compare_exchange_weak(
+        &self,
+        current: usize,
+        new: usize,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<usize, usize> {
+        self.compare_exchange(current, new, success, failure)
+    }
+
+    pub fn fetch_update(
+        &self,
+        set_order: Ordering,
+        fetch_order: Ordering,
+        mut f: impl FnMut(usize) -> Option<usize>,
+    ) -> Result<usize, usize> {
+        let mut now = self.load(fetch_order);
+        while let Some(next) = f(now) {
+            match self.compare_exchange_weak(now, next, set_order, fetch_order) {
+                Ok(before) => return Ok(before),
+                Err(actual) => now = actual,
+            }
+        }
+        Err(now)
+    }
+}
+
+pub struct Event(event_listener::Event);
+
+impl Event {
+    pub const fn new() -> Self {
+        Event(event_listener::Event::new())
+    }
+
+    fn at(&self) -> &event_listener::Event {
+        point(Point::Atomic, self as *const _ as usize);
+        &self.0
+    }
+
+    pub fn listen(&self) -> event_listener::EventListener {
+        self.at().listen()
+    }
+
+    pub fn notify(&self, n: usize) {
+        self.at().notify(n)
+    }
+
+    pub fn notify_additional(&self, n: usize) {
+        self.at().notify_additional(n)
+    }
+}
-- 
2.43.0


From 3e587dc00f219b63ac60f943f51205b4de21f71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:00 +0000
Subject: [PATCH 10/14] fix: do not drop broadcasts while the channel is locked

The channel could become the last owner of a mailbox's queue, or of a broadcast,
while it was locked. Dropping a message that owns the last address then locked
the channel again.
---
 xtra/src/chan.rs | 68 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 3f589fa..38f9991 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -12,7 +12,7 @@ use std::collections::{BinaryHeap, VecDeque};
 use std::sync::atomic::AtomicUsize;
 #[cfg(not(xtra_verif))]
 use std::sync::Mutex;
-use std::sync::{atomic, Arc, Weak};
+use std::sync::{atomic, Arc};
 use std::{cmp, mem};
 
 #[cfg(not(xtra_verif))]
@@ -105,7 +105,7 @@ impl<A> Chan<A> {
             .lock()
             .unwrap()
             .broadcast_queues
-            .push(Arc::downgrade(&mailbox));
+            .push(mailbox.clone());
 
         mailbox
     }
@@ -171,7 +171,7 @@ impl<A> Chan<A> {
             return Ok(Err(MailboxFull(waiting)));
         }
 
-        inner.send_broadcast(message);
+        inner.send_broadcast(&message);
 
         Ok(Ok(()))
     }
@@ -257,10 +257,9 @@ impl<A> Chan<A> {
     where
         A: Actor,
     {
-        self.chan
-            .lock()
-            .unwrap()
-            .send_broadcast(Arc::new(Shutdown::new()));
+        let shutdown: MessageToAll<A> = Arc::new(Shutdown::new());
+
+        self.chan.lock().unwrap().send_broadcast(&shutdown);
     }
 
     /// Shutdown all [`WaitingSender`]s in this channel.
@@ -274,7 +273,7 @@ impl<A> Chan<A> {
 
         // Let any outstanding messages drop
         let unicast_queue = mem::take(&mut inner.unicast_queue);
-        inner.broadcast_queues.clear();
+        let broadcast_queues = mem::take(&mut inner.broadcast_queues);
         inner.broadcast_tail = 0;
 
         // Close (and potentially wake) outstanding waiting senders
@@ -283,22 +282,32 @@ impl<A> Chan<A> {
 
         // The messages may own addresses of this very channel, which lock it when they are dropped.
         drop(inner);
-        drop((unicast_queue, waiting_send_to_one, waiting_send_to_all));
+        drop((unicast_queue, broadcast_queues));
+        drop((waiting_send_to_one, waiting_send_to_all));
     }
 
     /// Account for a broadcast mailbox having possibly gone away: nobody should wait for it to
     /// catch up any more.
     fn release_broadcasts(&self) {
+        // The messages may own addresses of this very channel, which lock it when they are dropped.
+        // So these have to outlive the lock.
+        let _dead_queues;
+        let mut sent = Vec::new();
+
         let mut inner = match self.chan.lock() {
             Ok(lock) => lock,
             Err(_) => return, // Poisoned, ignore
         };
 
+        _dead_queues = inner.take_dead_broadcast_queues();
         inner.broadcast_tail = inner.longest_broadcast_queue();
 
         while !inner.is_broadcast_full() {
             match inner.try_take_waiting_broadcast_message() {
-                Some(m) => inner.send_broadcast(m),
+                Some(m) => {
+                    inner.send_broadcast(&m);
+                    sent.push(m);
+                }
                 None => return,
             }
         }
@@ -361,7 +370,9 @@ struct Inner<A> {
     waiting_receivers_handles: VecDeque<waiting_receiver::Handle<A>>,
     unicast_queue: BinaryHeap<ByPriorityInOrder<MessageToOne<A>>>,
     unicast_seq: u64,
-    broadcast_queues: Vec<Weak<BroadcastQueue<A>>>,
+    /// The queues of all mailboxes. Those nobody else refers to any more are dead. These are strong
+    /// references so that the contents of a queue are never dropped while this is locked.
+    broadcast_queues: Vec<Arc<BroadcastQueue<A>>>,
     broadcast_tail: usize,
 }
 
@@ -407,7 +418,7 @@ impl<A> Inner<A> {
 
         if !self.is_broadcast_full() {
             if let Some(m) = self.try_take_waiting_broadcast_message() {
-                self.send_broadcast(m)
+                self.send_broadcast(&m)
             }
         }
 
@@ -417,23 +428,27 @@ impl<A> Inner<A> {
     fn longest_broadcast_queue(&self) -> usize {
         let mut longest = 0;
 
-        for queue in &self.broadcast_queues {
-            if let Some(queue) = queue.upgrade() {
-                longest = cmp::max(longest, queue.lock().len());
-            }
+        for queue in self.broadcast_queues.iter().filter(|q| is_live(q)) {
+            longest = cmp::max(longest, queue.lock().len());
         }
 
         longest
     }
 
-    fn send_broadcast(&mut self, m: MessageToAll<A>) {
-        self.broadcast_queues.retain(|queue| match queue.upgrade() {
-            Some(q) => {
-                q.lock().push(ByPriority(m.clone()));
-                true
-            }
-            None => false, // The corresponding receiver has been dropped - remove it
-        });
+    /// Remove the queues of mailboxes that have gone away. They must not be dropped while this is locked.
+    fn take_dead_broadcast_queues(&mut self) -> Vec<Arc<BroadcastQueue<A>>> {
+        let (live, dead) = mem::take(&mut self.broadcast_queues)
+            .into_iter()
+            .partition(is_live);
+        self.broadcast_queues = live;
+
+        dead
+    }
+
+    fn send_broadcast(&mut self, m: &MessageToAll<A>) {
+        for queue in self.broadcast_queues.iter().filter(|q| is_live(q)) {
+            queue.lock().push(ByPriority(m.clone()));
+        }
 
         for rx in mem::take(&mut self.waiting_receivers_handles) {
             let _ = rx.notify_new_broadcast();
@@ -484,6 +499,11 @@ impl<A> Inner<A> {
     }
 }
 
+/// Whether a mailbox still refers to this queue.
+fn is_live<A>(queue: &Arc<BroadcastQueue<A>>) -> bool {
+    Arc::strong_count(queue) > 1
+}
+
 fn find_remove_highest_priority<M>(
     queue: &mut VecDeque<waiting_sender::Handle<M>>,
 ) -> Option<waiting_sender::Handle<M>>
-- 
2.43.0


From 73e09abd09bcd68c497561009a97d31225073535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:36 +0000
Subject: [PATCH 11/14] fix: do not leave a cancelled send's message to the
 channel

The channel looks at waiting sends while it is locked. If the future went away
at that moment, its message was dropped with the channel locked, and could lock
it again.
---
 xtra/src/chan/waiting_sender.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xtra/src/chan/waiting_sender.rs b/xtra/src/chan/waiting_sender.rs
index eedd217..04bedf5 100644
--- a/xtra/src/chan/waiting_sender.rs
+++ b/xtra/src/chan/waiting_sender.rs
@@ -20,6 +20,14 @@ impl<M> WaitingSender<M> {
     }
 }
 
+impl<M> Drop for WaitingSender<M> {
+    fn drop(&mut self) {
+        // The channel may be looking at the message right now. It must not be left to drop it, as
+        // the message may own an address, which locks the channel when it is dropped.
+        let _message = mem::replace(&mut *self.0.lock(), Inner::Closed);
+    }
+}
+
 impl<M> Handle<M> {
     pub fn is_active(&self) -> bool {
         Weak::strong_count(&self.0) > 0
-- 
2.43.0


From da492ef5bd209c2385133adbfe98a840bee57d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 12/14] fix: let a stop seen by select or join stop the actor

---
 xtra/src/context.rs  |  6 ++++++
 xtra/src/envelope.rs |  4 ++--
 xtra/src/lib.rs      | 11 +++++++++--
 xtra/src/mailbox.rs  | 15 +++++++++++++++
 4 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/xtra/src/context.rs b/xtra/src/context.rs
index cb60ce3..ba2b9b1 100644
--- a/xtra/src/context.rs
+++ b/xtra/src/context.rs
@@ -34,6 +34,12 @@ impl<A: Actor> Context<A> {
         }
     }
 
+    /// Whether neither the actor itself nor a message it handled in [`select`](crate::select) or
+    /// [`join`](crate::join) meanwhile asked for it to be stopped.
+    pub(crate) fn is_running(&self) -> bool {
+        self.running && !self.mailbox.is_stopped()
+    }
+
     /// Get a reference to the [`Mailbox`] of this actor.
     pub fn mailbox(&self) -> &Mailbox<A> {
         &self.mailbox
diff --git a/xtra/src/envelope.rs b/xtra/src/envelope.rs
index 97816ad..8244cf9 100644
--- a/xtra/src/envelope.rs
+++ b/xtra/src/envelope.rs
@@ -109,7 +109,7 @@ where
             };
             let r = act.handle(message, &mut ctx).await;
 
-            if ctx.running {
+            if ctx.is_running() {
                 (r, ControlFlow::Continue(()))
             } else {
                 (r, ControlFlow::Break(()))
@@ -199,7 +199,7 @@ where
             };
             act.handle(msg, &mut ctx).await;
 
-            if ctx.running {
+            if ctx.is_running() {
                 ControlFlow::Continue(())
             } else {
                 ControlFlow::Break(())
diff --git a/xtra/src/lib.rs b/xtra/src/lib.rs
index c485585..2147173 100644
--- a/xtra/src/lib.rs
+++ b/xtra/src/lib.rs
@@ -229,11 +229,14 @@ pub async fn run<A>(mailbox: Mailbox<A>, mut actor: A) -> A::Stop
 where
     A: Actor,
 {
+    // Another actor may have used this mailbox before.
+    mailbox.set_stopped(false);
+
     if let Err(stop) = actor.started(&mailbox).await {
         return stop;
     }
 
-    while let ControlFlow::Continue(()) = yield_once(&mailbox, &mut actor).await {}
+    while !mailbox.is_stopped() && yield_once(&mailbox, &mut actor).await.is_continue() {}
 
     actor.stopped().await
 }
@@ -313,7 +316,9 @@ where
             match future::select(fut, &mut next_msg).await {
                 Either::Left((future_res, _)) => {
                     if let Some(msg) = next_msg.now_or_never() {
-                        msg.dispatch_to(actor).await;
+                        if msg.dispatch_to(actor).await.is_break() {
+                            mailbox.set_stopped(true);
+                        }
                     }
 
                     return Either::Left(future_res);
@@ -326,6 +331,8 @@ where
         fut = unfinished;
     }
 
+    // If this is called from a handler, the event loop is yet to learn of it.
+    mailbox.set_stopped(true);
     Either::Right(fut)
 }
 
diff --git a/xtra/src/mailbox.rs b/xtra/src/mailbox.rs
index 3ac5ff5..d6b3d20 100644
--- a/xtra/src/mailbox.rs
+++ b/xtra/src/mailbox.rs
@@ -1,3 +1,4 @@
+use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::Arc;
 
 use crate::chan::{self, BroadcastQueue, Rx};
@@ -12,6 +13,8 @@ pub struct Mailbox<A> {
     // Dropped before `inner`, which lets the channel know.
     broadcast_mailbox: Arc<BroadcastQueue<A>>,
     inner: chan::Ptr<A, Rx>,
+    // Whether a message handled by `select` or `join` on this mailbox stopped the actor.
+    stopped: AtomicBool,
 }
 
 impl<A> Mailbox<A> {
@@ -23,6 +26,7 @@ impl<A> Mailbox<A> {
         let mailbox = Mailbox {
             broadcast_mailbox: receiver.new_broadcast_mailbox(),
             inner: receiver,
+            stopped: AtomicBool::new(false),
         };
 
         (address, mailbox)
@@ -38,6 +42,7 @@ impl<A> Mailbox<A> {
         let mailbox = Mailbox {
             broadcast_mailbox: receiver.new_broadcast_mailbox(),
             inner: receiver,
+            stopped: AtomicBool::new(false),
         };
 
         (address, mailbox)
@@ -63,8 +68,17 @@ impl<A> Mailbox<A> {
         Self {
             inner: chan,
             broadcast_mailbox,
+            stopped: AtomicBool::new(false),
         }
     }
+
+    pub(crate) fn set_stopped(&self, stopped: bool) {
+        self.stopped.store(stopped, Ordering::Relaxed);
+    }
+
+    pub(crate) fn is_stopped(&self) -> bool {
+        self.stopped.load(Ordering::Relaxed)
+    }
 }
 
 impl<A> Clone for Mailbox<A> {
@@ -72,6 +86,7 @@ impl<A> Clone for Mailbox<A> {
         Mailbox {
             inner: self.inner.clone(),
             broadcast_mailbox: self.inner.new_broadcast_mailbox(),
+            stopped: AtomicBool::new(false),
         }
     }
 }
-- 
2.43.0


From 4821feeb92127845a401552adaa484656bfd3306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:55 +0000
Subject: [PATCH 13/14] fix: let stop_all stop the actors when no strong
 address is left

---
 xtra/src/context.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xtra/src/context.rs b/xtra/src/context.rs
index ba2b9b1..79b7275 100644
--- a/xtra/src/context.rs
+++ b/xtra/src/context.rs
@@ -28,10 +28,8 @@ impl<A: Actor> Context<A> {
     /// for other broadcast messages, during which time other messages may be handled by actors (i.e
     /// the shutdown may be delayed by a lagging actor).
     pub fn stop_all(&self) {
-        // We only need to shut down if there are still any strong senders left
-        if let Some(address) = self.mailbox.address().try_upgrade() {
-            address.0.shutdown_all_receivers();
-        }
+        // Even if there are no strong senders left, there may still be messages queued.
+        self.mailbox.address().0.shutdown_all_receivers();
     }
 
     /// Whether neither the actor itself nor a message it handled in [`select`](crate::select) or
-- 
2.43.0


From 7483aa5a1284b5b11eddaa3b8bd746076e90b5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:21 +0000
Subject: [PATCH 14/14] fix: do not drop a waiting message while its send is
 locked

A message may own the pending send that it waits in. When the last mailbox
goes away, the message was dropped under the lock that dropping that send
takes again.
---
 xtra/src/chan/waiting_sender.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xtra/src/chan/waiting_sender.rs b/xtra/src/chan/waiting_sender.rs
index 04bedf5..4d27a4f 100644
--- a/xtra/src/chan/waiting_sender.rs
+++ b/xtra/src/chan/waiting_sender.rs
@@ -63,7 +63,12 @@ impl<M> Drop for Handle<M> {
                     if let Some(waker) = waker {
                         waker.wake_by_ref();
                     }
-                    *this = Inner::Closed;
+
+                    // The message may own the very `WaitingSender` it waits in, which takes the lock
+                    // again when it is dropped.
+                    let message = mem::replace(&mut *this, Inner::Closed);
+                    drop(this);
+                    drop(message);
                 }
                 Inner::Delivered => {}
                 Inner::Closed => {}
-- 
2.43.0

