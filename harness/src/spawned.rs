//! Actors spawned onto real runtimes: tokio, smol and async_std, each with a single thread, and
//! that thread held back except when it is the tasks' turn. So a poll of the specification (kpoll)
//! is one turn: the runtime polls the task then, if it has been woken since, and only then.
use std::future::Future;
use std::pin::Pin;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Mutex, OnceLock};
use std::task::{Context, Poll};

use xtra::{Address, Mailbox};

use crate::world::{Act, Now};

/// The handlers run on the runtimes' threads, but never at the same time as anything else.
pub struct Global(OnceLock<Now>);
unsafe impl Sync for Global {}
impl Global {
    pub fn with<R>(&self, f: impl FnOnce(&Now) -> R) -> R {
        f(self.0.get_or_init(Now::default))
    }
    pub fn try_with<R>(&self, f: impl FnOnce(&Now) -> R) -> Result<R, ()> {
        Ok(self.with(f))
    }
}
pub static NOW: Global = Global(OnceLock::new());

/// Lets everything else that is ready on this thread go first.
struct Others(u32);
impl Future for Others {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        NOW.with(|n| n.tick.set(n.tick.get().wrapping_add(1).max(2)));
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
const LONG: u32 = 150;

struct Gate {
    go: Sender<()>,
    done: Receiver<()>,
}
impl Gate {
    fn new(spawn: impl FnOnce(Pin<Box<dyn Future<Output = ()> + Send>>)) -> Gate {
        let (go, gone) = channel::<()>();
        let (done_in, done) = channel();
        spawn(Box::pin(async move {
            // blocks the thread
            while gone.recv().is_ok() {
                Others(LONG).await;
                done_in.send(()).unwrap();
            }
        }));
        let g = Gate { go, done };
        g.open();
        g
    }
    fn open(&self) {
        self.go.send(()).unwrap();
        self.done.recv().unwrap();
    }
}
struct Runtimes {
    tokio: tokio::runtime::Runtime,
    smol: Gate,
    async_std: Gate,
    used: usize,
}
static ALL: OnceLock<Mutex<Runtimes>> = OnceLock::new();
fn all() -> &'static Mutex<Runtimes> {
    ALL.get_or_init(|| {
        std::env::set_var("SMOL_THREADS", "1");
        std::env::set_var("ASYNC_STD_THREAD_COUNT", "1");
        Mutex::new(Runtimes {
            tokio: tokio::runtime::Builder::new_current_thread().build().unwrap(),
            smol: Gate::new(|f| smol::spawn(f).detach()),
            async_std: Gate::new(|f| drop(async_std::task::spawn(f))),
            used: 0,
        })
    })
}

fn which(k: &str) -> usize {
    ["tokio", "smol", "astd"].iter().position(|x| *x == k).expect(k)
}
/// Spawn the actor onto a runtime.
pub fn spawn(k: &str, act: Act, am: (Address<Act>, Mailbox<Act>)) -> Address<Act> {
    let mut r = all().lock().unwrap();
    r.used = which(k);
    match r.used {
        0 => {
            let _in = r.tokio.enter();
            xtra::spawn_tokio(act, am)
        }
        1 => xtra::spawn_smol(act, am),
        _ => xtra::spawn_async_std(act, am),
    }
}
/// The same without an address.
pub fn run(k: &str, act: Act, m: Mailbox<Act>) {
    let mut r = all().lock().unwrap();
    r.used = which(k);
    match r.used {
        0 => drop(r.tokio.spawn(xtra::run(m, act))),
        1 => smol::spawn(xtra::run(m, act)).detach(),
        _ => drop(async_std::task::spawn(xtra::run(m, act))),
    }
}
/// The runtime polls its tasks, as often as there is anything to do for them.
pub fn turn() {
    let r = all().lock().unwrap();
    let w = NOW.with(|n| {
        n.turn.set(1);
        n.runtime.set(true);
        n.wake.borrow().clone()
    });
    if let Some(w) = w {
        w.wake();
    }
    match r.used {
        0 => r.tokio.block_on(async { tokio::spawn(Others(LONG)).await.unwrap() }),
        1 => r.smol.open(),
        _ => r.async_std.open(),
    }
    NOW.with(|n| {
        n.turn.set(0);
        n.runtime.set(false);
    });
}
