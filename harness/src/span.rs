//! A tracing subscriber that knows which spans exist, who their parents are
//! and which are open, and what of that the specification (SpanOps) speaks of.
#[cfg(feature = "span")]
mod on {
    use std::cell::RefCell;
    use std::collections::BTreeMap;
    use std::sync::{Arc, Mutex};

    use tracing::span::{Attributes, Id, Record};
    use tracing::subscriber::Interest;
    use tracing_core::span::Current;
    use tracing::{Dispatch, Event, Level, Metadata, Span, Subscriber};

    struct Sp {
        name: &'static str,
        meta: &'static Metadata<'static>,
        parent: u64,
        handles: usize,
    }
    #[derive(Default)]
    struct Reg {
        all: Vec<Sp>, // span i has id i + 1
        stack: Vec<u64>,
        info_only: bool,
    }
    #[derive(Clone)]
    struct Sub(Arc<Mutex<Reg>>);
    impl Subscriber for Sub {
        fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
            Interest::sometimes()
        }
        fn enabled(&self, m: &Metadata<'_>) -> bool {
            !self.0.lock().unwrap().info_only || *m.level() <= Level::INFO
        }
        fn new_span(&self, a: &Attributes<'_>) -> Id {
            let mut r = self.0.lock().unwrap();
            let parent = if a.is_root() {
                0
            } else if let Some(p) = a.parent() {
                p.into_u64()
            } else {
                r.stack.last().copied().unwrap_or(0)
            };
            r.all.push(Sp { name: a.metadata().name(), meta: a.metadata(), parent, handles: 1 });
            Id::from_u64(r.all.len() as u64)
        }
        fn record(&self, _: &Id, _: &Record<'_>) {}
        fn record_follows_from(&self, _: &Id, _: &Id) {}
        fn event(&self, _: &Event<'_>) {}
        fn enter(&self, s: &Id) {
            self.0.lock().unwrap().stack.push(s.into_u64())
        }
        fn exit(&self, s: &Id) {
            let mut r = self.0.lock().unwrap();
            if let Some(i) = r.stack.iter().rposition(|x| *x == s.into_u64()) {
                r.stack.remove(i);
            }
        }
        fn clone_span(&self, s: &Id) -> Id {
            self.0.lock().unwrap().all[s.into_u64() as usize - 1].handles += 1;
            s.clone()
        }
        fn try_close(&self, s: Id) -> bool {
            let mut r = self.0.lock().unwrap();
            let p = &mut r.all[s.into_u64() as usize - 1];
            p.handles -= 1;
            p.handles == 0
        }
        fn current_span(&self) -> Current {
            let r = self.0.lock().unwrap();
            match r.stack.last() {
                Some(s) => Current::new(Id::from_u64(*s), r.all[*s as usize - 1].meta),
                None => Current::none(),
            }
        }
    }

    /// Everything about the spans of one trace.
    pub struct Spans {
        reg: Arc<Mutex<Reg>>,
        d: Dispatch,
        users: Vec<Span>,
        /// message -> its request span
        req: BTreeMap<i32, u64>,
        info_only: bool,
    }
    thread_local!(static CUR: RefCell<Option<View>> = RefCell::new(None));
    /// What user code that is polled may look at.
    struct View {
        reg: Arc<Mutex<Reg>>,
        req: BTreeMap<i32, u64>,
        info_only: bool,
    }
    impl View {
        /// The user's span above span `s`, which should be a handler span of message `m`.
        fn user(&self, s: u64, m: i32) -> i32 {
            let r = self.reg.lock().unwrap();
            let at = |s: u64| &r.all[s as usize - 1];
            let mut s = s;
            if !self.info_only {
                if s == 0 || at(s).name != "xtra_message_handler" {
                    return -2;
                }
                s = at(s).parent;
                if s == 0 || at(s).name != "xtra_actor_request" {
                    return -3;
                }
                if self.req.get(&m) != Some(&s) {
                    return -4;
                }
                s = at(s).parent;
            }
            match s {
                0 => 0,
                s if at(s).name == "user" && s <= 3 => s as i32,
                _ => -5,
            }
        }
    }
    /// The user's span above the current one, which should be a handler span of message `m`.
    pub fn here(m: i32) -> Option<i32> {
        CUR.with(|c| {
            c.borrow().as_ref().map(|v| {
                let s = v.reg.lock().unwrap().stack.last().copied().unwrap_or(0);
                v.user(s, m)
            })
        })
    }
    impl Spans {
        pub fn new(md: i32) -> Option<Spans> {
            if md == 0 {
                return None;
            }
            let reg: Arc<Mutex<Reg>> = Arc::default();
            reg.lock().unwrap().info_only = md == 2;
            let d = Dispatch::new(Sub(reg.clone()));
            let users = tracing::dispatcher::with_default(&d, || {
                (0..3).map(|_| tracing::info_span!(parent: None, "user")).collect()
            });
            Some(Spans { reg, d, users, req: BTreeMap::new(), info_only: md == 2 })
        }
        fn view(&self) -> View {
            View { reg: self.reg.clone(), req: self.req.clone(), info_only: self.info_only }
        }
        /// Do something within the user's span x; whether all spans entered were left again.
        pub fn within<R>(&mut self, x: i32, f: impl FnOnce() -> R) -> (R, bool) {
            CUR.with(|c| *c.borrow_mut() = Some(self.view()));
            let r = tracing::dispatcher::with_default(&self.d, || {
                let _g = if x > 0 { Some(self.users[x as usize - 1].enter()) } else { None };
                let before = self.reg.lock().unwrap().stack.clone();
                let r = f();
                let same = self.reg.lock().unwrap().stack == before;
                (r, same)
            });
            self.reg.lock().unwrap().stack.clear();
            CUR.with(|c| *c.borrow_mut() = None);
            r
        }
        pub fn count(&self) -> usize {
            self.reg.lock().unwrap().all.len()
        }
        /// Message m's send was polled; there were `n` spans before.
        pub fn sent(&mut self, m: i32, n: usize) {
            let r = self.reg.lock().unwrap();
            if let Some(i) = (n..r.all.len()).find(|i| r.all[*i].name == "xtra_actor_request") {
                self.req.entry(m).or_insert(i as u64 + 1);
            }
        }
    }
    impl View {
        /// The messages whose waiting spans are open.
        fn waits(&self) -> Vec<i32> {
            let r = self.reg.lock().unwrap();
            let mut v: Vec<i32> = r
                .all
                .iter()
                .filter(|s| s.name == "xtra_message_waiting_for_actor" && s.handles > 0)
                .map(|s| self.req.iter().find(|q| *q.1 == s.parent).map_or(-1, |q| *q.0))
                .collect();
            v.sort_unstable();
            v
        }
    }
    pub fn waits() -> Vec<i32> {
        CUR.with(|c| c.borrow().as_ref().unwrap().waits())
    }
    /// The user's span above span s, which should be the handler span of some message.
    pub fn above(s: &Span) -> i32 {
        CUR.with(|c| {
            let c = c.borrow();
            let v = c.as_ref().unwrap();
            match s.id() {
                None => -1,
                Some(s) if v.info_only => v.user(s.into_u64(), 0),
                Some(s) => v.req.keys().map(|m| v.user(s.into_u64(), *m)).max().unwrap_or(-6),
            }
        })
    }
}
#[cfg(feature = "span")]
pub use on::*;

#[cfg(not(feature = "span"))]
mod off {
    pub struct Spans;
    pub fn here(_: i32) -> Option<i32> {
        None
    }
    pub fn waits() -> Vec<i32> {
        vec![]
    }
    impl Spans {
        pub fn new(_: i32) -> Option<Spans> {
            None
        }
        pub fn within<R>(&mut self, _: i32, f: impl FnOnce() -> R) -> (R, bool) {
            (f(), true)
        }
        pub fn count(&self) -> usize {
            0
        }
        pub fn sent(&mut self, _: i32, _: usize) {}
    }
}
#[cfg(not(feature = "span"))]
pub use off::*;
