//! A cooperative scheduler for threads that announce what they are about to
//! do: only one of a group runs at any time, and which one is decided at each
//! announcement (by a script, or at random). A state in which every thread
//! waits for a lock is a deadlock, known at once.
use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Lock,
    Blocked,
    Unlocked,
    Atomic,
    Call,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum S {
    Ready,
    Blocked(usize),
    Done,
}
#[derive(Clone)]
pub enum Strategy {
    /// Follow the script, then always take the first option; at most so many preemptions.
    Script { script: Vec<u8>, bound: u32 },
    /// Switch with this probability (percent) at every point.
    Random { seed: u64, pct: u32 },
}
struct St {
    cur: usize,
    status: Vec<S>,
    strat: Strategy,
    trail: Vec<(u8, u8)>,
    preempts: u32,
    steps: u64,
    free: bool,
    dead: bool,
}
pub struct Group {
    st: Mutex<St>,
    cvs: Vec<Condvar>,
    over: Condvar,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Outcome {
    Done,
    /// Every thread waits for a lock that another one holds.
    Deadlock,
    /// Had to be let loose (some lock is not announced), then finished.
    Freed,
    /// Did not finish even so.
    Hung,
}
thread_local!(static CUR: RefCell<Option<(Arc<Group>, usize)>> = const { RefCell::new(None) });
const NOBODY: usize = usize::MAX;
const STEPS: u64 = 100_000;

fn rnd(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl St {
    /// Who runs next; `me` is the thread deciding, if it could go on itself.
    fn choose(&mut self, me: Option<usize>) -> Option<usize> {
        let ready: Vec<usize> = (0..self.status.len())
            .filter(|i| self.status[*i] == S::Ready && Some(*i) != me)
            .collect();
        if ready.is_empty() {
            return me;
        }
        let pick = match &mut self.strat {
            Strategy::Random { seed, pct } => {
                let mut opts: Vec<usize> = me.into_iter().collect();
                opts.extend(&ready);
                let c = match me {
                    Some(_) if rnd(seed) % 100 >= *pct as u64 => 0,
                    _ => opts.len() - ready.len() + (rnd(seed) % ready.len() as u64) as usize,
                };
                // noted as a script would have it
                if opts.len() > 1 {
                    self.trail.push((c as u8, opts.len() as u8));
                }
                opts[c]
            }
            Strategy::Script { script, bound } => {
                if me.is_some() && self.preempts >= *bound {
                    return me;
                }
                let mut opts: Vec<usize> = me.into_iter().collect();
                opts.extend(ready);
                if opts.len() == 1 {
                    return Some(opts[0]);
                }
                let k = self.trail.len();
                let c = (*script.get(k).unwrap_or(&0) as usize).min(opts.len() - 1);
                self.trail.push((c as u8, opts.len() as u8));
                opts[c]
            }
        };
        if me.is_some() && Some(pick) != me {
            self.preempts += 1;
        }
        Some(pick)
    }
}

impl Group {
    pub fn new(n: usize, strat: Strategy) -> Arc<Group> {
        Arc::new(Group {
            st: Mutex::new(St {
                cur: NOBODY,
                status: vec![S::Ready; n],
                strat,
                trail: vec![],
                preempts: 0,
                steps: 0,
                free: false,
                dead: false,
            }),
            cvs: (0..n).map(|_| Condvar::new()).collect(),
            over: Condvar::new(),
        })
    }
    /// Called by thread t of the group first of all.
    pub fn enter(self: &Arc<Self>, t: usize) {
        CUR.with(|c| *c.borrow_mut() = Some((self.clone(), t)));
        let mut st = self.st.lock().unwrap();
        while st.cur != t && !st.free {
            st = self.cvs[t].wait(st).unwrap();
        }
    }
    /// Called by a thread of the group at its end.
    pub fn exit(self: &Arc<Self>) {
        let t = CUR.with(|c| c.borrow_mut().take()).unwrap().1;
        let mut st = self.st.lock().unwrap();
        st.status[t] = S::Done;
        if st.status.iter().all(|s| *s == S::Done) {
            st.cur = NOBODY;
            self.over.notify_all();
            return;
        }
        match st.choose(None) {
            Some(n) => {
                st.cur = n;
                self.cvs[n].notify_one();
            }
            None => {
                st.dead = !st.free;
                self.over.notify_all();
            }
        }
    }
    /// Let the threads run, wait for the end of it.
    pub fn run(self: &Arc<Self>) -> (Outcome, Vec<(u8, u8)>) {
        let mut st = self.st.lock().unwrap();
        let n = st.choose(None).unwrap();
        st.cur = n;
        self.cvs[n].notify_one();
        let mut seen = 0;
        let mut since = Instant::now();
        loop {
            if st.status.iter().all(|s| *s == S::Done) {
                let o = if st.free { Outcome::Freed } else { Outcome::Done };
                return (o, std::mem::take(&mut st.trail));
            }
            if st.dead {
                return (Outcome::Deadlock, std::mem::take(&mut st.trail));
            }
            if st.steps != seen {
                seen = st.steps;
                since = Instant::now();
            }
            if since.elapsed() > Duration::from_secs(3) {
                if st.free {
                    return (Outcome::Hung, std::mem::take(&mut st.trail));
                }
                st.free = true;
                for c in &self.cvs {
                    c.notify_all();
                }
                since = Instant::now();
            }
            st = self.over.wait_timeout(st, Duration::from_millis(200)).unwrap().0;
        }
    }
}

/// Announce something. Returns whether the thread is under control of a
/// scheduler (and, if it was blocked, may try again).
pub fn point(kind: Kind, addr: usize) -> bool {
    let (g, me) = match CUR.try_with(|c| c.borrow().clone()) {
        Ok(Some(x)) => x,
        _ => return false,
    };
    let mut st = g.st.lock().unwrap();
    if st.free {
        return false;
    }
    st.steps += 1;
    if st.steps > STEPS {
        st.dead = true;
        g.over.notify_all();
    }
    match kind {
        Kind::Unlocked => {
            for s in st.status.iter_mut() {
                if *s == S::Blocked(addr) {
                    *s = S::Ready;
                }
            }
            return true;
        }
        Kind::Blocked => st.status[me] = S::Blocked(addr),
        _ => {}
    }
    let can = (kind != Kind::Blocked).then_some(me);
    match st.choose(can) {
        Some(n) if n == me => {}
        Some(n) => {
            st.cur = n;
            g.cvs[n].notify_one();
        }
        None => {
            st.dead = true;
            st.cur = NOBODY;
            g.over.notify_all();
        }
    }
    while (st.cur != me || st.dead) && !st.free {
        st = g.cvs[me].wait(st).unwrap();
    }
    !st.free
}
