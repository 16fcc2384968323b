//! The objects of one channel under test, and the execution of one API call
//! (an event of the specification) on them.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::ops::ControlFlow;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::SeqCst};
use std::sync::{self, Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use futures_util::sink::Sink;
use futures_util::FutureExt;
use xtra::prelude::*;
use xtra::refcount::{Either, Strong, Weak};
use xtra::address::ActorJoinHandle;
use xtra::{Error, WeakAddress};

/// The token of the task that polls send `s`.
pub fn of_send(s: i32) -> i32 {
    s + if s < 100 { 100 } else { 10000 }
}
pub const PRIOS: [u32; 6] = [0, 1, 2, 0x1_0000, u32::MAX - 1, u32::MAX];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ev {
    pub op: String,
    pub a: i32,
    pub b: i32,
    pub x: i32,
    pub k: String,
}
impl Ev {
    pub fn new(op: &str, a: i32, b: i32, x: i32, k: &str) -> Ev {
        Ev { op: op.into(), a, b, x, k: k.into() }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Obs {
    pub res: String,
    pub hd: i32,
    pub wk: Vec<i32>,
    pub pr: Vec<i32>,
}

/// Things shared by all bags of one world.
#[derive(Default)]
pub struct Shared {
    /// Per token, the wakers handed out: the oldest one that still counts, and the latest.
    pub gens: Mutex<HashMap<i32, (u32, u32)>>,
    pub live: AtomicI64,
    pub live_b: AtomicI64,
}
/// What the call this thread is executing has done so far, and what handlers
/// polled by it are to do.
#[derive(Default)]
pub struct Now {
    /// What user code polled from now on does, as octal digits, low first:
    /// 0 pending 1 return 2 stop_self, return (started: fail) 3 stop_all, return
    /// 4 panic 5 select 6 join 7 stop_self.
    pub script: Cell<u32>,
    pub entered: RefCell<Vec<i32>>,
    /// What a task did (see LoopOps), and the actors dropped meanwhile.
    pub log: RefCell<Vec<i32>>,
    /// The spans handlers were polled in.
    pub spans: RefCell<Vec<i32>>,
    pub dropped: Cell<i32>,
    /// A panic happened that the script asked for.
    pub panicked: Cell<bool>,
    pub scoped_ret: Cell<bool>,
    pub wakes: RefCell<Vec<i32>>,
    /// Of a task of some runtime: whether it is its turn, and how to wake it when it is.
    pub runtime: Cell<bool>,
    pub turn: Cell<u32>,
    pub tick: Cell<u32>,
    pub wake: RefCell<Option<Waker>>,
}
#[cfg(not(feature = "spawn"))]
thread_local!(static NOW: Now = Now::default());
#[cfg(feature = "spawn")]
use crate::spawned::NOW;

struct Wk {
    token: i32,
    gen: u32,
    sh: Arc<Shared>,
}
impl Wake for Wk {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if self.sh.gens.lock().unwrap().get(&self.token).map_or(false, |g| self.gen >= g.0) {
            let _ = NOW.try_with(|n| n.wakes.borrow_mut().push(self.token));
        }
    }
}

/// What user code says when it is asked: the next digit of the script.
fn digit() -> u32 {
    NOW.with(|n| {
        let v = n.script.get();
        n.script.set(v / 8);
        if v % 8 == 4 {
            n.panicked.set(true);
            EXPECT_PANIC.with(|c| c.set(true));
        }
        v % 8
    })
}
/// Of the polls by a runtime, only the first of each turn counts (see spawned.rs).
fn my_turn(cx: &mut Context<'_>) -> bool {
    if !cfg!(feature = "spawn") {
        return true;
    }
    NOW.with(|n| {
        if !n.runtime.get() {
            return true;
        }
        n.wake.replace(Some(cx.waker().clone()));
        if n.turn.get() == 1 {
            n.turn.set(n.tick.get());
        }
        n.turn.get() > 0 && n.turn.get() == n.tick.get()
    })
}
fn log(v: i32) {
    NOW.with(|n| n.log.borrow_mut().push(v));
}
// what spawned actors stop with is not for anyone to see
#[cfg(not(feature = "spawn"))]
pub type End = u32;
#[cfg(not(feature = "spawn"))]
pub const STOPPED: End = 4711;
#[cfg(not(feature = "spawn"))]
pub const FAILED: End = 4712;
#[cfg(feature = "spawn")]
pub type End = ();
#[cfg(feature = "spawn")]
pub const STOPPED: End = ();
#[cfg(feature = "spawn")]
pub const FAILED: End = ();
pub const FUTVAL: u32 = 4713;

pub struct Act {
    /// Counts among what a task owns.
    task: bool,
}
impl Drop for Act {
    fn drop(&mut self) {
        if self.task {
            let _ = NOW.try_with(|n| n.dropped.set(n.dropped.get() + 1));
        }
    }
}
impl Actor for Act {
    type Stop = End;
    async fn started(&mut self, mailbox: &Mailbox<Self>) -> Result<(), End> {
        log(1);
        loop {
            match (Steps { resume: 5, again: false }).await {
                2 => return Err(FAILED),
                5 => nested(self, mailbox, false).await,
                6 => nested(self, mailbox, true).await,
                7 => {}
                _ => return Ok(()),
            }
        }
    }
    async fn stopped(self) -> End {
        log(2);
        Steps { resume: 6, again: false }.await;
        STOPPED
    }
}
/// A select or join inside a callback.
async fn nested(act: &mut Act, mailbox: &Mailbox<Act>, join: bool) {
    if join {
        let v = xtra::join(mailbox, act, Meanwhile).await;
        log(if v == FUTVAL { 13 } else { -13 });
    } else {
        match xtra::select(mailbox, act, Meanwhile).await {
            futures_util::future::Either::Left(v) => log(if v == FUTVAL { 11 } else { -11 }),
            futures_util::future::Either::Right(_) => log(12),
        }
    }
}
struct Meanwhile;
impl Future for Meanwhile {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        if !my_turn(cx) {
            return Poll::Pending;
        }
        log(3);
        match digit() {
            0 => Poll::Pending,
            4 => panic!("future panics as told"),
            _ => Poll::Ready(FUTVAL),
        }
    }
}
/// What a message owns besides; dropped with it, in order.
#[derive(Default)]
pub struct Load(Mutex<Vec<Item>>);
enum Item {
    A(#[allow(dead_code)] H),
    M(#[allow(dead_code)] Mailbox<Act>),
    S(#[allow(dead_code)] SFut),
}
pub struct Msg {
    pub id: i32,
    sh: Arc<Shared>,
    _load: Arc<Load>,
    _pay: Option<Box<dyn Any + Send + Sync>>,
}
impl Drop for Msg {
    fn drop(&mut self) {
        self.sh.live.fetch_sub(1, SeqCst);
    }
}
/// What sinks are given: handled like a Msg, but nothing comes back.
pub struct NMsg(Msg);
pub struct BMsg {
    id: i32,
    sh: Arc<Shared>,
    load: Arc<Load>,
    pay: Option<Address<Act>>,
}
impl Clone for BMsg {
    fn clone(&self) -> Self {
        self.sh.live_b.fetch_add(1, SeqCst);
        BMsg { id: self.id, sh: self.sh.clone(), load: self.load.clone(), pay: self.pay.clone() }
    }
}
impl Drop for BMsg {
    fn drop(&mut self) {
        self.sh.live_b.fetch_sub(1, SeqCst);
    }
}

struct Steps {
    resume: i32,
    again: bool,
}
impl Future for Steps {
    type Output = u32;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        if !my_turn(cx) {
            return Poll::Pending;
        }
        if self.again {
            log(self.resume);
            if self.resume >= 200 {
                look(self.resume - 200);
            }
        }
        self.again = true;
        match digit() {
            0 => Poll::Pending,
            4 => panic!("callback panics as told"),
            n => Poll::Ready(n),
        }
    }
}
/// Which span is message id's handler polled in?
fn look(id: i32) {
    if let Some(s) = crate::span::here(id) {
        NOW.with(|n| n.spans.borrow_mut().push(s));
        log(1000 + s);
    }
}
async fn behave(act: &mut Act, id: i32, ctx: &mut xtra::Context<Act>) {
    NOW.with(|n| n.entered.borrow_mut().push(id));
    log(100 + id);
    look(id);
    loop {
        match (Steps { resume: 200 + id, again: false }).await {
            2 => {
                ctx.stop_self();
                return;
            }
            3 => {
                ctx.stop_all();
                return;
            }
            5 => nested(act, ctx.mailbox(), false).await,
            6 => nested(act, ctx.mailbox(), true).await,
            7 => ctx.stop_self(),
            _ => return,
        }
    }
}
pub fn token(id: i32) -> u64 {
    0xA5_0000 + id as u64
}
impl Handler<Msg> for Act {
    type Return = u64;
    async fn handle(&mut self, m: Msg, ctx: &mut xtra::Context<Self>) -> u64 {
        behave(self, m.id, ctx).await;
        token(m.id)
    }
}
impl Handler<NMsg> for Act {
    type Return = ();
    async fn handle(&mut self, m: NMsg, ctx: &mut xtra::Context<Self>) {
        behave(self, m.0.id, ctx).await;
    }
}
impl Handler<BMsg> for Act {
    type Return = ();
    async fn handle(&mut self, m: BMsg, ctx: &mut xtra::Context<Self>) {
        behave(self, m.id, ctx).await;
    }
}

pub enum H {
    S(Address<Act>),
    W(WeakAddress<Act>),
    E(Address<Act, Either>),
    Cs(MessageChannel<Msg, u64, Strong>),
    Cw(MessageChannel<Msg, u64, Weak>),
    Ce(MessageChannel<Msg, u64, Either>),
}
macro_rules! each {
    ($h:expr, $x:ident => $e:expr) => {
        match $h {
            H::S($x) => $e,
            H::W($x) => $e,
            H::E($x) => $e,
            H::Cs($x) => $e,
            H::Cw($x) => $e,
            H::Ce($x) => $e,
        }
    };
}
impl H {
    pub fn is_addr(&self) -> bool {
        matches!(self, H::S(_) | H::W(_) | H::E(_))
    }
    pub fn is_weak_addr(&self) -> bool {
        matches!(self, H::W(_))
    }
    /// A handle of the same strength, in one of several guises.
    fn dup(&self, v: u32, pol: Pol) -> H {
        let chan = pol.chan;
        let either = pol.either;
        match self {
            H::S(a) => match v % 4 {
                1 if either => H::E(a.as_either()),
                2 if chan => H::Cs(MessageChannel::new(a.clone())),
                3 if chan => H::Ce(MessageChannel::from(a.clone()).as_either()),
                _ => H::S(a.clone()),
            },
            H::W(a) => match v % 4 {
                1 if either => H::E(a.as_either()),
                2 if chan => H::Cw(a.clone().into()),
                3 if chan => H::Ce(MessageChannel::new(a.as_either())),
                _ => H::W(a.clone()),
            },
            H::E(a) => match v % 3 {
                1 => H::E(a.as_either()),
                2 if chan => H::Ce(MessageChannel::new(a.clone())),
                _ => H::E(a.clone()),
            },
            H::Cs(c) => match v % 2 {
                0 => H::Cs(c.clone()),
                _ => H::Ce(c.as_either()),
            },
            H::Cw(c) => match v % 2 {
                0 => H::Cw(c.clone()),
                _ => H::Ce(c.as_either()),
            },
            H::Ce(c) => match v % 2 {
                0 => H::Ce(c.clone()),
                _ => H::Ce(c.as_either()),
            },
        }
    }
    fn down(&self) -> H {
        match self {
            H::S(a) => H::W(a.downgrade()),
            H::W(a) => H::W(a.clone()),
            H::E(a) => H::W(a.downgrade()),
            H::Cs(c) => H::Cw(c.downgrade()),
            H::Cw(c) => H::Cw(c.clone()),
            H::Ce(c) => H::Cw(c.downgrade()),
        }
    }
}
/// Which guises handles may take (a channel cannot broadcast, only a plain
/// weak address can be upgraded).
#[derive(Clone, Copy)]
pub struct Pol {
    pub chan: bool,
    pub either: bool,
    /// Who listens to tracing: 0 nobody, 1 to everything, 2 to level info.
    pub md: i32,
}

pub enum Sent {
    Val(u64),
    Rx(xtra::Receiver<u64>),
    Unit,
}
pub type SFut = Pin<Box<dyn Future<Output = Result<Sent, Error>> + Send>>;
// xtra does not let us name its Message and DispatchFuture
type DFut = Pin<Box<dyn Disp>>;
type MsgBox = Box<dyn FnOnce(&'static mut Act) -> DFut + Send>;
pub trait Disp: Future<Output = ControlFlow<()>> + Send {
    /// The user's span above DispatchFuture::span.
    fn user(self: Pin<&mut Self>) -> i32;
}
struct Dispatch<F, G>(F, G);
impl<F: Future<Output = ControlFlow<()>> + Unpin, G: Unpin> Future for Dispatch<F, G> {
    type Output = ControlFlow<()>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<ControlFlow<()>> {
        Pin::new(&mut self.0).poll(cx)
    }
}
impl<F, G> Disp for Dispatch<F, G>
where
    F: Future<Output = ControlFlow<()>> + Unpin + Send,
    G: Fn(&mut F) -> i32 + Unpin + Send,
{
    fn user(mut self: Pin<&mut Self>) -> i32 {
        let s = &mut *self;
        (s.1)(&mut s.0)
    }
}
fn dispatch<F, G: Fn(&mut F) -> i32>(f: F, g: G) -> Dispatch<F, G> {
    Dispatch(f, g)
}
pub enum Rcv {
    Fut(Pin<Box<dyn Future<Output = MsgBox> + Send>>),
    Msg(Option<MsgBox>),
    Disp(Option<DFut>, *mut Act),
}
unsafe impl Send for Rcv {}
impl Drop for Rcv {
    fn drop(&mut self) {
        if let Rcv::Disp(f, p) = self {
            drop(f.take());
            unsafe { drop(Box::from_raw(*p)) };
        }
    }
}
pub enum Jn {
    Join(ActorJoinHandle),
    Scoped(Pin<Box<dyn Future<Output = Option<u32>> + Send>>),
}
pub struct Scope;
impl Future for Scope {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<u32> {
        NOW.with(|n| {
            n.entered.borrow_mut().push(1);
            if n.scoped_ret.get() {
                Poll::Ready(77)
            } else {
                Poll::Pending
            }
        })
    }
}

/// A task: how it ends, and the mailbox if it leaves that to its owner.
pub struct Task {
    fut: Pin<Box<dyn Future<Output = (&'static str, Option<Mailbox<Act>>)> + Send>>,
    m: i32,
    /// Where a runtime has it: `Actor::stopped` was entered.
    #[cfg_attr(not(feature = "spawn"), allow(dead_code))]
    stopped: bool,
}
fn task(kind: &str, m: Mailbox<Act>) -> Pin<Box<dyn Future<Output = (&'static str, Option<Mailbox<Act>>)> + Send>> {
    use futures_util::future::Either;
    let mut act = Act { task: true };
    match kind {
        "run" => Box::pin(xtra::run(m, act).map(|v| match v {
            STOPPED => ("ready", None),
            FAILED => ("fail", None),
            _ => ("badval", None),
        })),
        "yld" => Box::pin(async move {
            let c = xtra::yield_once(&m, &mut act).await;
            (if c.is_break() { "brk" } else { "cont" }, Some(m))
        }),
        "sel" => Box::pin(async move {
            let r = match xtra::select(&m, &mut act, Meanwhile).await {
                Either::Left(FUTVAL) => "left",
                Either::Left(_) => "badval",
                Either::Right(Meanwhile) => "right",
            };
            (r, Some(m))
        }),
        _ => Box::pin(async move {
            let r = if xtra::join(&m, &mut act, Meanwhile).await == FUTVAL { "join" } else { "badval" };
            (r, Some(m))
        }),
    }
}

/// A sink, the item under way, and what the contract of sinks needs to know.
pub struct Snk {
    fut: Pin<Box<dyn Sink<NMsg, Error = Error> + Send>>,
    pub cur: i32,
    pub rdy: bool,
    pub over: bool,
}
type NChan<Rc> = MessageChannel<NMsg, (), Rc>;

/// The objects one thread works with.
pub struct Bag {
    pub sh: Arc<Shared>,
    pub adr: BTreeMap<i32, H>,
    /// Which handles are meant to be strong (kept apart from the code's opinion).
    pub strong: BTreeMap<i32, bool>,
    pub mbs: BTreeMap<i32, Mailbox<Act>>,
    pub snd: BTreeMap<i32, SFut>,
    pub rcv: BTreeMap<i32, Rcv>,
    pub jn: BTreeMap<i32, Jn>,
    pub tasks: BTreeMap<i32, Task>,
    pub sk: BTreeMap<i32, Snk>,
    /// What the messages sent from here own, as long as they exist.
    loads: BTreeMap<i32, sync::Weak<Load>>,
    pub id: crate::ident::Ident,
    pub spans: Option<crate::span::Spans>,
    pub pol: Pol,
    pub variant: u32,
    polls: u32,
    /// How many messages to send and take before the first event.
    warm: u32,
}

/// What `warm_up` sends.
#[derive(Clone)]
struct Warm(u32, Arc<AtomicUsize>);
impl Handler<Warm> for Act {
    type Return = ();
    async fn handle(&mut self, m: Warm, _: &mut xtra::Context<Self>) {
        // in order
        let _ = m.1.compare_exchange(m.0 as usize, m.0 as usize + 1, SeqCst, SeqCst);
    }
}

thread_local!(pub static EXPECT_PANIC: Cell<bool> = Cell::new(false));

impl Bag {
    pub fn new(cap: i32, pol: Pol, variant: u32) -> Bag {
        NOW.with(|n| n.wake.take());
        let (a, m) = if cap < 0 { Mailbox::unbounded() } else { Mailbox::bounded(cap as usize) };
        let mut b = Bag::empty(Arc::default(), pol, variant);
        b.adr.insert(1, H::S(a));
        b.strong.insert(1, true);
        b.mbs.insert(1, m);
        b
    }
    pub fn empty(sh: Arc<Shared>, pol: Pol, variant: u32) -> Bag {
        Bag {
            sh,
            adr: BTreeMap::new(),
            strong: BTreeMap::new(),
            mbs: BTreeMap::new(),
            snd: BTreeMap::new(),
            rcv: BTreeMap::new(),
            jn: BTreeMap::new(),
            tasks: BTreeMap::new(),
            sk: BTreeMap::new(),
            loads: BTreeMap::new(),
            id: Default::default(),
            spans: crate::span::Spans::new(pol.md),
            pol,
            variant,
            polls: 0,
            warm: 0,
        }
    }
    /// Have some of the executions begin with an address that was already used for so many messages
    /// that numbers of 8 or 16 bits are about to wrap around.
    pub fn used(mut self) -> Bag {
        if self.spans.is_none() {
            let few = 1 + (self.variant >> 12) % 5;
            self.warm = match self.variant % 1024 {
                13 => 0x1_0000 - few,
                v if v % 16 == 5 => 0x100 - few,
                _ => 0,
            };
        }
        self
    }
    /// Send and take messages, in bursts. Leaves no trace by all that the specification says.
    fn warm_up(&mut self) -> &'static str {
        let n = std::mem::take(&mut self.warm);
        let (a, m) = match (&self.adr[&1], &self.mbs[&1]) {
            (H::S(a), m) => (a, m),
            _ => return "",
        };
        let cap = a.capacity().unwrap_or(40).min(40) as u32;
        let seen = Arc::new(AtomicUsize::new(0));
        let mut act = Act { task: false };
        let mut i = 0;
        while i < n {
            let k = cap.max(1).min(n - i);
            // as many broadcasts, but not too many
            let b = if i < 300 { k.min(cap) } else { 0 };
            let mut first = Some(m.next());
            if cap == 0 && first.as_mut().unwrap().now_or_never().is_some() {
                return "unfit";
            }
            for j in 0..k {
                if !matches!(a.send(Warm(i + j, seen.clone())).detach().now_or_never(), Some(Ok(_))) {
                    return "unfit";
                }
                if j < b && !matches!(a.broadcast(Warm(u32::MAX, seen.clone())).now_or_never(), Some(Ok(()))) {
                    return "unfit";
                }
            }
            for _ in 0..k + b {
                let next = first.take().unwrap_or_else(|| m.next());
                match next.now_or_never().map(|m| m.dispatch_to(&mut act).now_or_never()) {
                    Some(Some(ControlFlow::Continue(()))) => {}
                    _ => return "unfit",
                }
            }
            i += k;
        }
        // receives that are cancelled
        for _ in 0..300 {
            if m.next().now_or_never().is_some() {
                return "unfit";
            }
        }
        match seen.load(SeqCst) {
            s if s as u32 != n => "unfit:order",
            _ if a.len() != 0 => "unfit:len",
            _ => "",
        }
    }
    /// The messages that exist, and whether they own anything.
    pub fn messages(&self) -> Vec<(i32, bool)> {
        let own = |w: &sync::Weak<Load>| w.upgrade().map(|l| !l.0.lock().unwrap().is_empty());
        self.loads.iter().filter_map(|(i, w)| Some((*i, own(w)?))).collect()
    }
    pub fn laden(&self) -> Vec<i32> {
        self.messages().iter().filter(|x| x.1).map(|x| x.0).collect()
    }
    fn new_load(&mut self, id: i32) -> Arc<Load> {
        let l = Arc::default();
        self.loads.insert(id, Arc::downgrade(&l));
        l
    }
    pub fn joins(&self) -> Vec<i32> {
        self.jn.keys().copied().collect()
    }
    pub fn is_empty(&self) -> bool {
        self.adr.is_empty()
            && self.mbs.is_empty()
            && self.snd.is_empty()
            && self.rcv.is_empty()
            && self.jn.is_empty()
            && self.tasks.is_empty()
            && self.sk.is_empty()
            && self.laden().is_empty()
    }
    /// The next thing to let go of.
    pub fn teardown(&self) -> Option<Ev> {
        let (op, a) = if let Some(i) = self.laden().first() {
            ("unload", *i)
        } else if let Some(i) = self.snd.keys().next() {
            ("sdrop", *i)
        } else if let Some(i) = self.tasks.keys().next().filter(|_| !cfg!(feature = "spawn")) {
            ("kdrop", *i)
        } else if let Some(i) = self.sk.keys().next() {
            ("xdrop", *i)
        } else if let Some(i) = self.mbs.keys().next() {
            ("mdrop", *i)
        } else if let Some(i) = self.rcv.keys().next() {
            ("rdrop", *i)
        } else if let Some(i) = self.adr.keys().next() {
            ("adrop", *i)
        } else if let Some(i) = self.jn.keys().next() {
            ("jdrop", *i)
        } else if let Some(i) = self.tasks.keys().next() {
            // a runtime has it: let it end
            return Some(Ev::new("kpoll", *i, 0o111_1111_1111 >> (3 * (self.polls % 3)), 0, "-"));
        } else {
            ("end", 0)
        };
        Some(Ev::new(op, a, 0, 0, "-"))
    }
    fn v(&mut self) -> u32 {
        // a cheap deterministic generator for the guise of things
        self.variant = self.variant.wrapping_mul(1664525).wrapping_add(1013904223);
        self.variant >> 16
    }
    /// A waker to poll with: often another one than at the last poll, as if the future had moved
    /// to another task.
    fn waker(&mut self, token: i32) -> Waker {
        self.polls += 1;
        let again = (self.variant.wrapping_add(self.polls) ^ (self.variant >> 7)) % 3 == 0;
        let mut gens = self.sh.gens.lock().unwrap();
        let g = gens.entry(token).or_insert((0, 0));
        if !again {
            g.1 += 1;
        }
        Arc::new(Wk { token, gen: g.1, sh: self.sh.clone() }).into()
    }
    /// The poll is over: from now on only the waker it was given counts.
    fn polled(&self, token: i32) {
        if let Some(g) = self.sh.gens.lock().unwrap().get_mut(&token) {
            g.0 = g.1;
        }
    }
    fn retire(&self, token: i32) {
        let mut gens = self.sh.gens.lock().unwrap();
        let g = gens.entry(token).or_insert((0, 0));
        *g = (g.1 + 1, g.1 + 1);
    }

    /// Execute one event; a panic that the event did not ask for is reported
    /// as "boom".
    pub fn exec(&mut self, e: &Ev) -> Obs {
        let mut o = Obs::default();
        NOW.with(|n| {
            n.entered.borrow_mut().clear();
            n.wakes.borrow_mut().clear();
            n.log.borrow_mut().clear();
            n.spans.borrow_mut().clear();
            n.dropped.set(0);
            n.panicked.set(false);
        });
        if self.warm > 0 {
            o.res = catch_unwind(AssertUnwindSafe(|| self.warm_up())).unwrap_or("unfit").into();
            if o.res != "" {
                return o;
            }
        }
        let tasks: Vec<i32> = self.tasks.keys().copied().collect();
        let item = self.sk.get(&e.a).map_or(0, |s| s.cur);
        let mut spans = self.spans.take();
        let r = match &mut spans {
            None => catch_unwind(AssertUnwindSafe(|| self.call(e, &mut o))),
            Some(s) => {
                let x = if ["spoll", "xpoll", "dpoll", "kpoll", "dspan"].contains(&e.op.as_str()) { e.x } else { 0 };
                let n = s.count();
                let (r, left) = s.within(x, || catch_unwind(AssertUnwindSafe(|| self.call(e, &mut o))));
                match e.op.as_str() {
                    "spoll" => s.sent(e.a, n),
                    "xpoll" => s.sent(item, n),
                    _ => {}
                }
                if left { r } else { Ok("inspan".into()) }
            }
        };
        self.spans = spans;
        match e.op.as_str() {
            "spoll" => self.polled(of_send(e.a)),
            "rpoll" | "dpoll" => self.polled(200 + e.a),
            "jpoll" => self.polled(300 + e.a),
            "kpoll" => self.polled(400 + e.a),
            "xpoll" => self.polled(100 + item),
            _ => {}
        }
        o.res = match r {
            Ok(s) => s,
            Err(_) => "boom".into(),
        };
        NOW.with(|n| {
            let mut w = std::mem::take(&mut *n.wakes.borrow_mut());
            if cfg!(feature = "spawn") {
                // no telling what a runtime knows: if it was not woken, it does nothing when it should
                w.extend(tasks.iter().map(|k| 400 + k));
            }
            w.sort_unstable();
            w.dedup();
            o.wk = w;
            if e.op.starts_with('k') {
                o.pr = std::mem::take(&mut *n.log.borrow_mut());
                o.pr.extend((0..n.dropped.get()).map(|_| 4));
                n.entered.borrow_mut().clear();
            }
            if e.op == "dpoll" {
                o.pr = std::mem::take(&mut *n.spans.borrow_mut());
            }
            let ent = n.entered.borrow();
            match ent.len() {
                0 => {}
                1 => o.hd = ent[0],
                _ => o.hd = -99,
            }
        });
        o
    }

    fn call(&mut self, e: &Ev, o: &mut Obs) -> String {
        let (a, b, x) = (e.a, e.b, e.x);
        match e.op.as_str() {
            "aclone" => {
                let v = self.v();
                let h = self.adr[&a].dup(v, self.pol);
                self.adr.insert(b, h);
                self.strong.insert(b, self.strong[&a]);
                "ok".into()
            }
            "adown" => {
                let h = self.adr[&a].down();
                self.adr.insert(b, h);
                self.strong.insert(b, false);
                "ok".into()
            }
            "aup" => {
                let r = match &self.adr[&a] {
                    H::W(w) => w.try_upgrade(),
                    _ => unreachable!(),
                };
                match r {
                    Some(s) => {
                        self.adr.insert(b, H::S(s));
                        self.strong.insert(b, true);
                        "some".into()
                    }
                    None => "none".into(),
                }
            }
            "mbaddr" => {
                let h = self.mbs[&a].address();
                self.adr.insert(b, H::W(h));
                self.strong.insert(b, false);
                "ok".into()
            }
            "adrop" => {
                self.adr.remove(&a);
                "ok".into()
            }
            "mclone" => {
                let m = self.mbs[&a].clone();
                self.mbs.insert(b, m);
                "ok".into()
            }
            "mdrop" => {
                self.mbs.remove(&a);
                "ok".into()
            }
            "send" => {
                let det = e.k.starts_with('d');
                let pay: Option<Box<dyn Any + Send + Sync>> = if e.k.ends_with('s') {
                    Some(match self.adr[&b].dup(0, self.pol) {
                        H::S(s) => Box::new(s),
                        H::E(s) => Box::new(s),
                        H::Cs(s) => Box::new(s),
                        H::Ce(s) => Box::new(s),
                        _ => unreachable!(),
                    })
                } else {
                    None
                };
                self.sh.live.fetch_add(1, SeqCst);
                let m = Msg { id: a, sh: self.sh.clone(), _load: self.new_load(a), _pay: pay };
                let v = self.v();
                let p = PRIOS[x as usize];
                macro_rules! go {
                    ($f:expr) => {{
                        let f = $f;
                        let f = match v % 3 {
                            0 if p == 0 => f,
                            1 => f.priority(7).priority(p),
                            _ => f.priority(p),
                        };
                        if det {
                            let d = f.detach();
                            let d = if v % 5 == 0 { d.priority(p) } else { d };
                            let f: SFut = Box::pin(d.map(|r| r.map(Sent::Rx)));
                            f
                        } else {
                            let f: SFut = Box::pin(f.map(|r| r.map(Sent::Val)));
                            f
                        }
                    }};
                }
                let f = each!(&self.adr[&b], h => go!(h.send(m)));
                self.snd.insert(a, f);
                "ok".into()
            }
            "bcast" => {
                let pay = if e.k == "s" {
                    match &self.adr[&b] {
                        H::S(s) => Some(s.clone()),
                        H::E(s) => s.downgrade().try_upgrade(),
                        _ => unreachable!(),
                    }
                } else {
                    None
                };
                self.sh.live_b.fetch_add(1, SeqCst);
                let m = BMsg { id: a, sh: self.sh.clone(), load: self.new_load(a), pay };
                let p = PRIOS[x as usize];
                let v = self.v();
                macro_rules! go {
                    ($f:expr) => {{
                        let f = $f;
                        let f = match v % 3 {
                            0 if p == 0 => f,
                            1 => f.priority(7).priority(p),
                            _ => f.priority(p),
                        };
                        let f: SFut = Box::pin(f.map(|r| r.map(|()| Sent::Unit)));
                        f
                    }};
                }
                let f = match &self.adr[&b] {
                    H::S(h) => go!(h.broadcast(m)),
                    H::W(h) => go!(h.broadcast(m)),
                    H::E(h) => go!(h.broadcast(m)),
                    _ => unreachable!(),
                };
                self.snd.insert(a, f);
                "ok".into()
            }
            "spoll" => {
                let w = self.waker(of_send(a));
                let mut cx = Context::from_waker(&w);
                match self.snd.get_mut(&a).unwrap().as_mut().poll(&mut cx) {
                    Poll::Pending => "pend".into(),
                    Poll::Ready(r) => {
                        self.snd.remove(&a);
                        match r {
                            Ok(Sent::Val(v)) if v == token(a) => "val".into(),
                            Ok(Sent::Val(_)) => "badval".into(),
                            Ok(Sent::Unit) => "ok".into(),
                            Ok(Sent::Rx(rx)) => {
                                self.snd.insert(a, Box::pin(rx.map(|r| r.map(Sent::Val))));
                                "ok".into()
                            }
                            Err(Error::Disconnected) => "disc".into(),
                            Err(Error::Interrupted) => "intr".into(),
                            Err(_) => "err?".into(),
                        }
                    }
                }
            }
            "sdrop" => {
                self.snd.remove(&a);
                "ok".into()
            }
            "rnew" => {
                self.retire(200 + a);
                let f = self.mbs[&b].next().map(|m| {
                    let d: MsgBox = Box::new(move |act| {
                        Box::pin(dispatch(m.dispatch_to(act), |_f| {
                            #[cfg(feature = "span")]
                            return crate::span::above(_f.span());
                            #[cfg(not(feature = "span"))]
                            return -9;
                        }))
                    });
                    d
                });
                self.rcv.insert(a, Rcv::Fut(Box::pin(f)));
                "ok".into()
            }
            "rpoll" => {
                let w = self.waker(200 + a);
                let mut cx = Context::from_waker(&w);
                let r = match self.rcv.get_mut(&a) {
                    Some(Rcv::Fut(f)) => f.as_mut().poll(&mut cx),
                    _ => unreachable!(),
                };
                match r {
                    Poll::Pending => "pend".into(),
                    Poll::Ready(m) => {
                        self.rcv.insert(a, Rcv::Msg(Some(m)));
                        "ready".into()
                    }
                }
            }
            "rdrop" => {
                self.rcv.remove(&a);
                "ok".into()
            }
            "dpoll" => {
                let n = match e.k.as_str() {
                    "pend" => 0,
                    "ret" => 1,
                    "stop" => 2,
                    "stopall" => 3,
                    _ => 4,
                };
                NOW.with(|c| c.script.set(n));
                self.dispatch(a);
                let w = self.waker(200 + a);
                let mut cx = Context::from_waker(&w);
                let r = {
                    let f = match self.rcv.get_mut(&a) {
                        Some(Rcv::Disp(Some(f), _)) => f,
                        _ => unreachable!(),
                    };
                    let r = catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut cx)));
                    EXPECT_PANIC.with(|c| c.set(false));
                    r
                };
                match r {
                    Ok(Poll::Pending) => "pend".into(),
                    Ok(Poll::Ready(c)) => {
                        self.rcv.remove(&a);
                        if c.is_break() { "brk".into() } else { "cont".into() }
                    }
                    Err(p) => {
                        if !NOW.with(|c| c.panicked.get()) {
                            std::panic::resume_unwind(p)
                        }
                        self.rcv.remove(&a);
                        "panic".into()
                    }
                }
            }
            "jnew" => {
                self.retire(300 + a);
                let j = each!(&self.adr[&b], h => h.join());
                self.jn.insert(a, Jn::Join(j));
                "ok".into()
            }
            "cnew" => {
                self.retire(300 + a);
                let s = Scope;
                let f: Pin<Box<dyn Future<Output = Option<u32>> + Send>> = match &self.adr[&b] {
                    H::S(h) => Box::pin(xtra::scoped(h, s)),
                    H::W(h) => Box::pin(xtra::scoped(h, s)),
                    H::E(h) => Box::pin(xtra::scoped(h, s)),
                    _ => unreachable!(),
                };
                self.jn.insert(a, Jn::Scoped(f));
                "ok".into()
            }
            "jpoll" => {
                NOW.with(|n| n.scoped_ret.set(e.k == "ret"));
                let w = self.waker(300 + a);
                let mut cx = Context::from_waker(&w);
                let r = match self.jn.get_mut(&a).unwrap() {
                    Jn::Join(j) => j.poll_unpin(&mut cx).map(|()| "ready"),
                    Jn::Scoped(f) => f.as_mut().poll(&mut cx).map(|v| match v {
                        Some(77) => "some",
                        Some(_) => "badval",
                        None => "none",
                    }),
                };
                match r {
                    Poll::Pending => "pend".into(),
                    Poll::Ready(s) => {
                        self.jn.remove(&a);
                        s.into()
                    }
                }
            }
            "jdrop" => {
                self.jn.remove(&a);
                "ok".into()
            }
            #[cfg(feature = "spawn")]
            "knew" => {
                let m = self.mbs.remove(&b).unwrap();
                let v = self.v();
                let mine = self.adr.iter().filter(|x| matches!(x.1, H::S(_))).map(|x| *x.0).collect::<Vec<_>>();
                let i = mine.get(v as usize % mine.len().max(1)).copied().unwrap_or(0);
                match self.adr.remove(&i) {
                    Some(H::S(h)) => {
                        self.adr.insert(i, H::S(crate::spawned::spawn(&e.k, Act { task: true }, (h, m))));
                    }
                    // all addresses are gone, or in other guises
                    _ => crate::spawned::run(&e.k, Act { task: true }, m),
                }
                self.tasks.insert(a, Task { fut: Box::pin(async { ("", None) }), m: b, stopped: false });
                "ok".into()
            }
            #[cfg(feature = "spawn")]
            "kpoll" => {
                NOW.with(|c| c.script.set(b as u32));
                crate::spawned::turn();
                let (stopped, over) = NOW.with(|n| (n.log.borrow().contains(&2), n.dropped.get() > 0));
                let t = self.tasks.get_mut(&a).unwrap();
                t.stopped |= stopped;
                if !over {
                    return "pend".into();
                }
                let t = self.tasks.remove(&a).unwrap();
                match NOW.with(|n| n.panicked.get()) {
                    true => "panic",
                    _ if t.stopped => "ready",
                    _ => "fail",
                }
                .into()
            }
            #[cfg(not(feature = "spawn"))]
            "knew" => {
                self.retire(400 + a);
                let m = self.mbs.remove(&b).unwrap();
                self.tasks.insert(a, Task { fut: task(&e.k, m), m: b, stopped: false });
                "ok".into()
            }
            #[cfg(not(feature = "spawn"))]
            "kpoll" => {
                NOW.with(|c| c.script.set(b as u32));
                let w = self.waker(400 + a);
                let mut cx = Context::from_waker(&w);
                let t = self.tasks.get_mut(&a).unwrap();
                let r = catch_unwind(AssertUnwindSafe(|| t.fut.as_mut().poll(&mut cx)));
                EXPECT_PANIC.with(|c| c.set(false));
                match r {
                    Ok(Poll::Pending) => "pend".into(),
                    Ok(Poll::Ready((res, m))) => {
                        let t = self.tasks.remove(&a).unwrap();
                        if let Some(m) = m {
                            self.mbs.insert(t.m, m);
                        }
                        res.into()
                    }
                    Err(p) => {
                        if !NOW.with(|c| c.panicked.get()) {
                            std::panic::resume_unwind(p)
                        }
                        self.tasks.remove(&a);
                        "panic".into()
                    }
                }
            }
            "kdrop" => {
                self.tasks.remove(&a);
                "ok".into()
            }
            "xnew" => {
                let h = self.adr.remove(&b).unwrap();
                let (v, either) = (self.v(), self.pol.either);
                let fut: Pin<Box<dyn Sink<NMsg, Error = Error> + Send>> = match h {
                    H::S(h) => match v % 4 {
                        0 => Box::pin(h.into_sink()),
                        1 if either => Box::pin(h.as_either().into_sink()),
                        2 if either => Box::pin(NChan::new(h).as_either().into_sink()),
                        _ => Box::pin(NChan::new(h).into_sink()),
                    },
                    H::W(h) => match v % 4 {
                        0 => Box::pin(h.into_sink()),
                        1 if either => Box::pin(NChan::from(h.as_either()).into_sink()),
                        2 => Box::pin(NChan::new(h).clone().into_sink()),
                        _ => Box::pin(NChan::from(h).into_sink()),
                    },
                    H::E(h) => match v % 2 {
                        0 => Box::pin(h.into_sink()),
                        _ => Box::pin(NChan::new(h).into_sink()),
                    },
                    _ => unreachable!(),
                };
                self.sk.insert(a, Snk { fut, cur: 0, rdy: false, over: false });
                "ok".into()
            }
            "xstart" => {
                self.sh.live.fetch_add(1, SeqCst);
                let m = NMsg(Msg { id: b, sh: self.sh.clone(), _load: self.new_load(b), _pay: None });
                let s = self.sk.get_mut(&a).unwrap();
                s.cur = b;
                s.rdy = false;
                if s.fut.as_mut().start_send(m).is_ok() { "ok".into() } else { "err".into() }
            }
            "xpoll" => {
                let w = self.waker(100 + self.sk[&a].cur);
                let mut cx = Context::from_waker(&w);
                let s = self.sk.get_mut(&a).unwrap();
                let r = match e.k.as_str() {
                    "ready" => s.fut.as_mut().poll_ready(&mut cx),
                    "flush" => s.fut.as_mut().poll_flush(&mut cx),
                    _ => s.fut.as_mut().poll_close(&mut cx),
                };
                if r.is_ready() {
                    s.cur = 0;
                }
                match r {
                    Poll::Pending => "pend".into(),
                    Poll::Ready(Ok(())) => {
                        s.rdy |= e.k == "ready";
                        s.over = e.k == "close";
                        "ok".into()
                    }
                    Poll::Ready(Err(e)) => {
                        s.over = true;
                        match e {
                            Error::Disconnected => "disc".into(),
                            Error::Interrupted => "intr".into(),
                            _ => "err?".into(),
                        }
                    }
                }
            }
            "xdrop" => {
                self.sk.remove(&a);
                "ok".into()
            }
            "dspan" => {
                self.dispatch(a);
                match self.rcv.get_mut(&a) {
                    Some(Rcv::Disp(Some(f), _)) => o.pr = vec![f.as_mut().user()],
                    _ => unreachable!(),
                }
                "ok".into()
            }
            "waits" => {
                o.pr = crate::span::waits();
                "ok".into()
            }
            "load" => {
                let l = match self.loads.get(&a).and_then(|w| w.upgrade()) {
                    Some(l) => l,
                    None => return "gone".into(),
                };
                let i = match e.k.as_str() {
                    "a" => Item::A(self.adr.remove(&b).unwrap()),
                    "m" => Item::M(self.mbs.remove(&b).unwrap()),
                    _ => Item::S(self.snd.remove(&b).unwrap()),
                };
                l.0.lock().unwrap().push(i);
                "ok".into()
            }
            "unload" => {
                let l = self.loads.get(&a).and_then(|w| w.upgrade());
                let v = l.as_ref().map_or(vec![], |l| std::mem::take(&mut *l.0.lock().unwrap()));
                o.pr = vec![v.len() as i32];
                drop(v);
                "ok".into()
            }
            "probe" => {
                o.pr = self.probe(a);
                "ok".into()
            }
            "end" => {
                o.pr = vec![
                    self.sh.live.load(SeqCst) as i32,
                    self.sh.live_b.load(SeqCst) as i32,
                ];
                "ok".into()
            }
            op if op.starts_with('i') => {
                let v = self.v();
                self.id.call(e, v, &mut o.pr)
            }
            other => panic!("unknown op {other}"),
        }
    }

    /// The message in hand becomes a dispatch.
    fn dispatch(&mut self, a: i32) {
        if matches!(self.rcv[&a], Rcv::Msg(_)) {
            let p = Box::into_raw(Box::new(Act { task: false }));
            let mut d = Rcv::Disp(None, p);
            let mut m = self.rcv.remove(&a).unwrap();
            let m = match &mut m {
                Rcv::Msg(m) => m.take().unwrap(),
                _ => unreachable!(),
            };
            if let Rcv::Disp(f, _) = &mut d {
                *f = Some(m(unsafe { &mut *p }));
            }
            self.rcv.insert(a, d);
        }
    }
    fn probe(&self, a: i32) -> Vec<i32> {
        each!(&self.adr[&a], h => {
            let (s, r) = counts(&format!("{:?}", h));
            let len = h.len() as i32;
            let len = if h.is_empty() == (len == 0) { len } else { -7 };
            vec![len, h.is_connected() as i32, s, r,
                 h.capacity().map_or(-1, |c| c as i32),
                 self.sh.live.load(SeqCst) as i32]
        })
    }
}

/// The two numbers at the end of a handle's Debug output.
fn counts(s: &str) -> (i32, i32) {
    let nums: Vec<i32> = s
        .rsplit_once('{')
        .map(|x| x.1)
        .unwrap_or("")
        .split(|c: char| !c.is_ascii_digit())
        .filter_map(|t| t.parse().ok())
        .collect();
    match nums[..] {
        [s, r] => (s, r),
        _ => (-8, -8),
    }
}
