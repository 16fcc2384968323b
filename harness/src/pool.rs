//! Runs numbered jobs on worker threads. A job that makes no progress for a
//! while (a call that never returns) is abandoned and reported; its thread is
//! replaced.
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::trace::Trace;

pub struct Slot {
    pub beat: AtomicU64,
    pub cur: Mutex<Trace>,
    pub dead: AtomicBool,
    /// where to note the trace so far before each call (to find out which call
    /// took the process down)
    pub journal: Option<Mutex<std::fs::File>>,
}
impl Slot {
    pub fn note(&self) {
        if let Some(f) = &self.journal {
            use std::io::{Seek, Write};
            let mut f = f.lock().unwrap();
            let t = self.cur.lock().unwrap().json();
            f.set_len(0).unwrap();
            f.rewind().unwrap();
            f.write_all(t.as_bytes()).unwrap();
        }
    }
}
/// How long a call may take before it counts as one that never returns.
pub fn stall() -> Duration {
    Duration::from_secs(crate::num("stall", if cfg!(feature = "conc") { 20 } else { 8 }))
}

/// `job(i, slot)` runs job i; every call into the code under test is preceded
/// by pushing its event to `slot.cur` and bumping `slot.beat`.
pub fn run<F>(n: usize, workers: usize, deadline: Option<Instant>, job: F, on_stall: impl Fn(Trace))
where
    F: Fn(usize, &Arc<Slot>) + Send + Sync + 'static,
{
    let next = Arc::new(AtomicUsize::new(0));
    let done = Arc::new(AtomicUsize::new(0));
    let job = Arc::new(job);
    let spawn = || {
        let slot = Arc::new(Slot {
            beat: AtomicU64::new(0),
            cur: Mutex::new(Trace::default()),
            dead: AtomicBool::new(false),
            journal: crate::arg("journal").map(|p| Mutex::new(std::fs::File::create(p).unwrap())),
        });
        let (s, nx, dn, jb) = (slot.clone(), next.clone(), done.clone(), job.clone());
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                loop {
                    if s.dead.load(SeqCst) {
                        return;
                    }
                    let i = nx.fetch_add(1, SeqCst);
                    if i >= n || deadline.map_or(false, |d| Instant::now() > d) {
                        break;
                    }
                    jb(i, &s);
                    s.beat.fetch_add(1, SeqCst);
                }
                if !s.dead.swap(true, SeqCst) {
                    dn.fetch_add(1, SeqCst);
                }
            })
            .unwrap();
        slot
    };
    let mut slots: Vec<(Arc<Slot>, u64, Instant)> =
        (0..workers).map(|_| (spawn(), 0, Instant::now())).collect();
    let mut abandoned = 0;
    let limit = stall();
    while done.load(SeqCst) < slots.len() {
        std::thread::sleep(Duration::from_millis(5));
        let mut fresh = vec![];
        for (s, b, t) in slots.iter_mut() {
            let now = s.beat.load(SeqCst);
            if now != *b || s.dead.load(SeqCst) {
                *b = now;
                *t = Instant::now();
            } else if t.elapsed() > limit {
                if !s.dead.swap(true, SeqCst) {
                    done.fetch_add(1, SeqCst);
                    abandoned += 1;
                    on_stall(s.cur.lock().unwrap().clone());
                    // each keeps a processor busy for good
                    if abandoned < 12 {
                        fresh.push((spawn(), 0, Instant::now()));
                    }
                }
            }
        }
        slots.append(&mut fresh);
    }
}
