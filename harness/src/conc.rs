//! Calls from several threads at once, under every schedule (or many), as
//! traces of when calls began and returned and what they showed.
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use xh_sched::{Group, Kind, Outcome, Strategy};

use crate::gen::{Gen, Profile};
use crate::pool::{self, Slot};
use crate::trace::{Rng, Trace};
use crate::walk::Graph;
use crate::world::{Bag, Ev, Obs, Pol, Rcv};
use crate::{arg, num, write_traces};

fn hook(p: xtra::verif::Point, addr: usize) -> bool {
    use xtra::verif::Point;
    xh_sched::point(
        match p {
            Point::Lock => Kind::Lock,
            Point::Blocked => Kind::Blocked,
            Point::Unlocked => Kind::Unlocked,
            Point::Atomic => Kind::Atomic,
        },
        addr,
    )
}

type Job = Box<dyn FnOnce() + Send>;
/// Threads that calls are made from; replaced when some never come back.
struct Crew(Vec<Sender<Job>>);
impl Crew {
    fn new() -> Crew {
        Crew(
            (0..3)
                .map(|_| {
                    let (tx, rx) = channel::<Job>();
                    std::thread::Builder::new()
                        .stack_size(4 << 20)
                        .spawn(move || {
                            for j in rx {
                                j()
                            }
                        })
                        .unwrap();
                    tx
                })
                .collect(),
        )
    }
}
thread_local!(static CREW: std::cell::RefCell<Crew> = std::cell::RefCell::new(Crew::new()));

/// What one thread does.
#[derive(Clone)]
enum Prog {
    /// This call, then (perhaps) some of what suggests itself.
    Call(Ev, u64, usize),
    /// So many random ones.
    Rand(u64, Profile, usize),
}

fn log(slot: &Slot, tag: char, t: usize, e: &Ev, o: Obs) -> usize {
    let mut c = slot.cur.lock().unwrap();
    c.ev.push((e.clone(), o));
    c.tag.push((tag, t as u8));
    slot.beat.fetch_add(1, SeqCst);
    let n = c.ev.len() - 1;
    drop(c);
    if tag == 'c' {
        slot.note();
    }
    n
}
/// Runs that could not be kept under control. A few are no harm; when there are
/// many, they would take forever.
static WILD: AtomicUsize = AtomicUsize::new(0);
fn enough() -> bool {
    WILD.load(SeqCst) > 60
}
/// A call made while no other is running.
fn alone(slot: &Slot, bag: &mut Bag, e: &Ev) -> Obs {
    let i = log(slot, 's', 0, e, Obs::default());
    slot.note();
    let o = bag.exec(e);
    slot.cur.lock().unwrap().ev[i].1 = o.clone();
    o
}

fn possible(b: &Bag, e: &Ev) -> bool {
    match e.op.as_str() {
        "aclone" | "adown" => b.adr.contains_key(&e.a) && !b.adr.contains_key(&e.b),
        "aup" => b.adr.get(&e.a).map_or(false, |h| h.is_weak_addr()) && !b.adr.contains_key(&e.b),
        "mbaddr" => b.mbs.contains_key(&e.a) && !b.adr.contains_key(&e.b),
        "adrop" | "probe" => b.adr.contains_key(&e.a),
        "mclone" => b.mbs.contains_key(&e.a) && !b.mbs.contains_key(&e.b),
        "mdrop" => b.mbs.contains_key(&e.a),
        "send" => b.adr.contains_key(&e.b),
        "bcast" | "cnew" => b.adr.get(&e.b).map_or(false, |h| h.is_addr()),
        "spoll" | "sdrop" => b.snd.contains_key(&e.a),
        "rnew" => b.mbs.contains_key(&e.b),
        "rpoll" => matches!(b.rcv.get(&e.a), Some(Rcv::Fut(_))),
        "rdrop" => b.rcv.contains_key(&e.a),
        "dpoll" => matches!(b.rcv.get(&e.a), Some(Rcv::Msg(_) | Rcv::Disp(..))),
        "jnew" => b.adr.contains_key(&e.b),
        "jpoll" | "jdrop" => b.jn.contains_key(&e.a),
        _ => false,
    }
}

fn member(slot: &Arc<Slot>, t: usize, mut bag: Bag, prog: Prog) -> (Bag, bool) {
    let (mut g, n) = match &prog {
        Prog::Call(_, seed, more) => (Gen::new(*seed, follow_up()), 1 + *more),
        Prog::Rand(seed, p, n) => (Gen::new(*seed, p.clone()), *n),
    };
    g.base = 1 + 25 * (t as i32 + 1);
    for i in 0..n {
        let e = match (&prog, i) {
            (Prog::Call(e, ..), 0) => Some(e.clone()),
            (Prog::Call(..), _) => {
                let mut c: Vec<i32> = bag.snd.keys().map(|s| 100 + s).collect();
                c.extend(bag.rcv.keys().map(|r| 200 + r));
                c.extend(bag.jn.keys().map(|j| 300 + j));
                if c.is_empty() {
                    None
                } else {
                    let w = *g.r.pick(&c);
                    g.step_of(w, &bag)
                }
            }
            _ => g.next(&bag),
        };
        let e = match e {
            Some(e) if possible(&bag, &e) => e,
            _ => break,
        };
        xh_sched::point(Kind::Call, 0);
        log(slot, 'c', t, &e, Obs::default());
        let o = bag.exec(&e);
        g.saw(&e, &o.res, &o.wk, &bag);
        g.queue.retain(|e| e.op != "probe");
        let boom = o.res == "boom";
        log(slot, 'r', t, &e, o);
        if boom {
            return (bag, false);
        }
    }
    (bag, true)
}
fn follow_up() -> Profile {
    Profile::parse("follow|0|0|spoll:1|-|-|pend:1,ret:6,stopall:1,panic:1|9,9,9,9,9|0|0|0|0|0|0")
}

/// Run the programs on the bags, overlapping; the bags again, if all came back
/// (the trace says what happened).
fn together(slot: &Arc<Slot>, work: Vec<(Bag, Prog)>, strat: Strategy) -> (Option<Vec<Bag>>, Vec<(u8, u8)>) {
    let n = work.len();
    let group = Group::new(n, strat);
    let back: Arc<Mutex<Vec<(Bag, bool)>>> = Arc::default();
    CREW.with(|c| {
        for (t, (bag, prog)) in work.into_iter().enumerate() {
            let (g, s, b) = (group.clone(), slot.clone(), back.clone());
            c.borrow().0[t]
                .send(Box::new(move || {
                    g.enter(t);
                    let r = member(&s, t, bag, prog);
                    b.lock().unwrap().push(r);
                    g.exit();
                }))
                .unwrap();
        }
    });
    let (out, trail) = group.run();
    match out {
        Outcome::Done => {}
        Outcome::Deadlock => {
            WILD.fetch_add(1, SeqCst);
        }
        _ => {
            WILD.fetch_add(4, SeqCst);
        }
    }
    if matches!(out, Outcome::Done | Outcome::Freed) {
        let v: Vec<(Bag, bool)> = std::mem::take(&mut *back.lock().unwrap());
        if v.iter().all(|x| x.1) {
            return (Some(v.into_iter().map(|x| x.0).collect()), trail);
        }
        std::mem::forget(v);
        return (None, trail);
    }
    // some are stuck in the middle of a call
    let mut open: BTreeMap<u8, Ev> = BTreeMap::new();
    {
        let c = slot.cur.lock().unwrap();
        for (i, (tag, t)) in c.tag.iter().enumerate() {
            match tag {
                'c' => {
                    open.insert(*t, c.ev[i].0.clone());
                }
                'r' => {
                    open.remove(t);
                }
                _ => {}
            }
        }
    }
    for (t, e) in open {
        let res = if out == Outcome::Deadlock { "hang" } else { "stuck" };
        log(slot, 'x', t as usize, &e, Obs { res: res.into(), ..Obs::default() });
    }
    std::mem::forget(back);
    CREW.with(|c| *c.borrow_mut() = Crew::new());
    (None, trail)
}

fn merge(bags: Vec<Bag>) -> Bag {
    let mut it = bags.into_iter();
    let mut a = it.next().unwrap();
    for b in it {
        a.adr.extend(b.adr);
        a.strong.extend(b.strong);
        a.mbs.extend(b.mbs);
        a.snd.extend(b.snd);
        a.rcv.extend(b.rcv);
        a.jn.extend(b.jn);
    }
    a
}
fn digest(t: &Trace, from: usize) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for i in from..t.ev.len() {
        t.tag[i].hash(&mut h);
        t.ev[i].0.hash(&mut h);
        let o = &t.ev[i].1;
        (&o.res, o.hd, &o.wk, &o.pr).hash(&mut h);
    }
    h.finish()
}
fn next_script(trail: &[(u8, u8)]) -> Option<Vec<u8>> {
    let i = trail.iter().rposition(|(c, n)| c + 1 < *n)?;
    let mut s: Vec<u8> = trail[..i].iter().map(|x| x.0).collect();
    s.push(trail[i].0 + 1);
    Some(s)
}
/// Wind up what is left; false if something went wrong there.
fn suffix(slot: &Slot, bag: &mut Bag, g: &mut Gen) -> bool {
    g.queue.clear();
    let mut n = 0;
    loop {
        let e = match if n < 25 { g.drain(bag) } else { bag.teardown() } {
            Some(e) => e,
            None => Ev::new("end", 0, 0, 0, "-"),
        };
        n += 1;
        let o = alone(slot, bag, &e);
        if o.res == "boom" {
            return false;
        }
        if e.op == "end" {
            return true;
        }
    }
}

fn workers() -> usize {
    if arg("journal").is_some() {
        1
    } else {
        num("workers", 8) as usize
    }
}
/// Collects distinct traces.
struct Sink {
    out: Mutex<Vec<(u64, Trace)>>,
    runs: AtomicUsize,
}
fn finish_up(sink: Arc<Sink>) {
    let mut v = std::mem::take(&mut *sink.out.lock().unwrap());
    v.sort_by_key(|x| x.0);
    let v: Vec<Trace> = v.into_iter().map(|x| x.1).collect();
    write_traces(&arg("out").unwrap(), &v);
    let calls: usize = v.iter().map(|t| t.ev.len()).sum();
    println!(
        "CONC runs={} traces={} entries={} wild={}",
        sink.runs.load(SeqCst),
        v.len(),
        calls,
        WILD.load(SeqCst)
    );
}
fn stuck_suffix(sink: &Sink, mut tr: Trace) {
    if let Some(l) = tr.ev.last_mut() {
        l.1 = Obs { res: "hang".into(), ..Obs::default() };
        sink.out.lock().unwrap().push((u64::MAX, tr));
    }
}
fn only() -> Option<(usize, Vec<u8>)> {
    // --how job:choices, to get one trace again
    let h = arg("how")?;
    let (j, s) = h.split_once(':').unwrap();
    Some((j.parse().unwrap(), s.split('.').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()))
}
fn how(job: usize, trail: &[(u8, u8)]) -> String {
    let v: Vec<String> = trail.iter().map(|x| x.0.to_string()).collect();
    format!("{job}:{}", v.join("."))
}

// ------------------------------------------------------------------ random programs
pub fn cmd_random() {
    xtra::verif::set_hook(hook);
    let profs: Vec<Profile> = std::fs::read_to_string(arg("profiles").unwrap())
        .unwrap()
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(Profile::parse)
        .collect();
    let sink = Arc::new(Sink { out: Mutex::default(), runs: AtomicUsize::new(0) });
    let (s1, s2) = (sink.clone(), sink.clone());
    let seed = num("seed", 1);
    let rounds = num("rounds", 12);
    let keep = num("keep", 3) as usize;
    let only = only();
    let n = num("programs", 200) as usize;
    let deadline = arg("secs").map(|s| Instant::now() + Duration::from_secs(s.parse().unwrap()));
    pool::run(
        n,
        workers(),
        deadline,
        move |i, slot| {
            let (i, script) = match &only {
                Some((j, _)) if i > 0 => {
                    let _ = j;
                    return;
                }
                Some((j, s)) => (*j, Some(s.clone())),
                None => (i, None),
            };
            let s = seed.wrapping_mul(1_000_003).wrapping_add(i as u64);
            let p = profs[i % profs.len()].clone();
            let mut seen = HashSet::new();
            for round in 0..rounds {
                if seen.len() >= keep || enough() {
                    break;
                }
                let mut g = Gen::new(s, p.clone());
                let cap = *g.r.pick(&p.caps);
                let pol = Pol { chan: p.chan, either: p.either, md: 0 };
                let variant = g.r.next() as u32;
                *slot.cur.lock().unwrap() =
                    Trace { cap, guise: (pol.chan, pol.either, variant), ..Trace::default() };
                let mut bag = Bag::new(cap, pol, variant);
                // something to begin with
                let len = 4 + g.r.below(14);
                for _ in 0..len {
                    let e = match g.next(&bag) {
                        Some(e) => e,
                        None => break,
                    };
                    let o = alone(slot, &mut bag, &e);
                    g.saw(&e, &o.res, &o.wk, &bag);
                    if o.res == "boom" {
                        break;
                    }
                }
                if slot.cur.lock().unwrap().ev.last().map_or(false, |x| x.1.res == "boom") {
                    std::mem::forget(bag);
                    s1.out.lock().unwrap().push((i as u64, slot.cur.lock().unwrap().clone()));
                    return;
                }
                let nt = if g.r.chance(60) { 2 } else { 3 };
                let mut bags: Vec<Bag> = (0..nt).map(|t| Bag::empty(bag.sh.clone(), pol, variant + t as u32)).collect();
                macro_rules! deal {
                    ($f:ident) => {
                        for (k, v) in std::mem::take(&mut bag.$f) {
                            let t = g.r.below(nt);
                            bags[t].$f.insert(k, v);
                        }
                    };
                }
                for (k, v) in std::mem::take(&mut bag.adr) {
                    let t = g.r.below(nt);
                    bags[t].strong.insert(k, bag.strong[&k]);
                    bags[t].adr.insert(k, v);
                }
                deal!(mbs);
                deal!(snd);
                deal!(rcv);
                deal!(jn);
                let work: Vec<(Bag, Prog)> = bags
                    .into_iter()
                    .map(|b| {
                        let n = 1 + g.r.below(4);
                        (b, Prog::Rand(g.r.next(), p.clone(), n))
                    })
                    .collect();
                let mut q = Rng::new(g.r.next().wrapping_add(round * 77));
                let pct = *q.pick(&[5, 15, 35, 60]);
                let seed = q.next();
                let strat = match &script {
                    Some(s) => Strategy::Script { script: s.clone(), bound: u32::MAX },
                    None => Strategy::Random { seed, pct },
                };
                let from = slot.cur.lock().unwrap().ev.len();
                s1.runs.fetch_add(1, SeqCst);
                let (bags, trail) = together(slot, work, strat);
                if slot.dead.load(SeqCst) {
                    return;
                }
                let fresh = seen.insert(digest(&slot.cur.lock().unwrap(), from));
                slot.cur.lock().unwrap().how = how(i, &trail);
                match bags {
                    Some(b) => {
                        let mut bag = merge(b);
                        if !suffix(slot, &mut bag, &mut g) {
                            std::mem::forget(bag);
                        }
                    }
                    None => std::mem::forget(bag),
                }
                if slot.dead.load(SeqCst) {
                    return;
                }
                if fresh {
                    s1.out.lock().unwrap().push((i as u64, slot.cur.lock().unwrap().clone()));
                }
                if script.is_some() {
                    return;
                }
            }
        },
        move |tr| stuck_suffix(&s2, tr),
    );
    finish_up(sink);
}

// ------------------------------------------------------------------ pairs of calls from states of the specification
/// The things a call works with: (kind, id).
fn uses(e: &Ev) -> Vec<(char, i32)> {
    match e.op.as_str() {
        "aclone" | "adown" | "aup" | "adrop" => vec![('a', e.a)],
        "mbaddr" | "mclone" | "mdrop" => vec![('m', e.a)],
        "send" | "bcast" | "jnew" | "cnew" => vec![('a', e.b)],
        "rnew" => vec![('m', e.b)],
        "spoll" | "sdrop" => vec![('s', e.a)],
        "rpoll" | "rdrop" | "dpoll" => vec![('r', e.a)],
        "jpoll" | "jdrop" => vec![('j', e.a)],
        _ => vec![],
    }
}
fn takes(from: &mut Bag, to: &mut Bag, e: &Ev) {
    for (k, i) in uses(e) {
        match k {
            'a' => {
                if let Some(h) = from.adr.remove(&i) {
                    to.strong.insert(i, from.strong[&i]);
                    to.adr.insert(i, h);
                }
            }
            'm' => to.mbs.extend(from.mbs.remove(&i).map(|x| (i, x))),
            's' => to.snd.extend(from.snd.remove(&i).map(|x| (i, x))),
            'r' => to.rcv.extend(from.rcv.remove(&i).map(|x| (i, x))),
            _ => to.jn.extend(from.jn.remove(&i).map(|x| (i, x))),
        }
    }
}
/// New things must not get the same id twice.
fn renamed(e: &Ev, by: i32) -> Ev {
    let mut e = e.clone();
    match e.op.as_str() {
        "aclone" | "adown" | "aup" | "mbaddr" | "mclone" => e.b += by,
        "send" | "bcast" | "rnew" | "jnew" | "cnew" => e.a += by,
        _ => {}
    }
    e
}
fn weight(op: &str) -> usize {
    match op {
        "probe" | "aclone" | "adown" | "mbaddr" | "send" | "bcast" | "rnew" => 0,
        _ => 1,
    }
}
type Sig = (String, String, Vec<(String, bool, usize)>, Vec<(String, bool, usize)>);
/// Pairs of calls (state, index of one, index of the other) such that every
/// combination of what they do alone and after one another is there, those
/// first where the order matters.
fn choose(g: &Graph, order: &[u32], n: usize, seed: u64) -> (Vec<(u32, usize, usize)>, usize) {
    let mut r = Rng::new(seed ^ 0xABCD);
    let sig = |succ: &Vec<(u32, u32)>| {
        let mut v: Vec<(String, bool, usize)> = succ
            .iter()
            .map(|(o, _)| {
                let o = &g.obs[*o as usize];
                (o.res.clone(), o.hd != 0, o.wk.len())
            })
            .collect();
        v.sort();
        v.dedup();
        v
    };
    let after = |succ: &Vec<(u32, u32)>, e: u32| {
        let mut v = vec![];
        for (_, t) in succ {
            match g.next[*t as usize].iter().find(|x| x.0 == e) {
                Some(x) => v.extend(sig(&x.1)),
                None => v.push(("-".into(), false, 0)),
            }
        }
        v.sort();
        v.dedup();
        v
    };
    // class -> how many there were, some of them
    let mut by: BTreeMap<(bool, Sig, Sig), (usize, Vec<(u32, usize, usize)>)> = BTreeMap::new();
    let mut spread: Vec<u32> = order.to_vec();
    for i in 0..spread.len() {
        let j = i + r.below(spread.len() - i);
        spread.swap(i, j);
    }
    spread.truncate(6000);
    for s in spread {
        let evs = &g.next[s as usize];
        for (i, (e, x)) in evs.iter().enumerate() {
            let ei = &g.ev[*e as usize];
            if weight(&ei.op) == 0 {
                continue;
            }
            for (j, (f, y)) in evs.iter().enumerate().skip(i + 1) {
                let ej = &g.ev[*f as usize];
                if weight(&ej.op) == 0 || uses(ei).iter().any(|u| uses(ej).contains(u)) {
                    continue;
                }
                let a: Sig = (ei.op.clone(), ei.k.clone(), sig(x), after(y, *e));
                let b: Sig = (ej.op.clone(), ej.k.clone(), sig(y), after(x, *f));
                let calm = a.2 == a.3 && b.2 == b.3;
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                let c = by.entry((calm, a, b)).or_default();
                c.0 += 1;
                if c.1.len() < 40 {
                    c.1.push((s, i, j));
                } else if r.below(c.0) < 40 {
                    let k = r.below(40);
                    c.1[k] = (s, i, j);
                }
            }
        }
    }
    let classes = by.len();
    let (calm, tense): (Vec<_>, Vec<_>) = by.into_iter().partition(|x| x.0 .0);
    let mut lists: [Vec<Vec<(u32, usize, usize)>>; 2] = [tense, calm].map(|v| v.into_iter().map(|x| x.1 .1).collect());
    for l in lists.iter_mut().flatten() {
        for i in 0..l.len() {
            let j = i + r.below(l.len() - i);
            l.swap(i, j);
        }
    }
    // two of the first kind for one of the second
    let mut out = vec![];
    for round in 0..80 {
        let k = usize::from(round % 3 == 2);
        for l in &lists[k] {
            let i = if k == 1 { round / 3 } else { round / 3 * 2 + round % 3 };
            if let Some(p) = l.get(i) {
                out.push(*p);
            }
        }
        if out.len() >= n {
            break;
        }
    }
    // too many: of a round that does not fit, some
    while out.len() > n {
        let from = if out.len() > 2 * n { 0 } else { out.len() / 2 };
        let k = from + r.below(out.len() - from);
        out.swap_remove(k);
    }
    (out, classes)
}

pub fn cmd_pairs() {
    xtra::verif::set_hook(hook);
    let g = Arc::new(Graph::load(&arg("graph").unwrap()));
    let pol = Pol { chan: num("chan", 0) == 1, either: num("either", 0) == 1, md: 0 };
    let seed = num("seed", 1);
    let limit = num("schedules", 400) as usize;
    let bound = num("bound", 2) as u32;
    let n = num("pairs", 200) as usize;
    let deadline = arg("secs").map(|s| Instant::now() + Duration::from_secs(s.parse().unwrap()));
    let only = only();
    // shortest paths
    let mut from: Vec<Option<(u32, u32)>> = vec![None; g.next.len()];
    let mut seen = vec![false; g.next.len()];
    let mut order = vec![];
    seen[0] = true;
    let mut q = VecDeque::from([0u32]);
    while let Some(s) = q.pop_front() {
        order.push(s);
        for (e, succ) in &g.next[s as usize] {
            for (_, t) in succ {
                if !seen[*t as usize] {
                    seen[*t as usize] = true;
                    from[*t as usize] = Some((s, *e));
                    q.push_back(*t);
                }
            }
        }
    }
    let (picks, classes) = choose(&g, &order, n, seed);
    let n = picks.len();
    let sink = Arc::new(Sink { out: Mutex::default(), runs: AtomicUsize::new(0) });
    let (s1, s2) = (sink.clone(), sink.clone());
    let full = Arc::new(AtomicUsize::new(0));
    let f1 = full.clone();
    pool::run(
        n,
        workers(),
        deadline,
        move |i, slot| {
            let (i, again) = match &only {
                Some(_) if i > 0 => return,
                Some((j, s)) => (*j, Some(s.clone())),
                None => (i, None),
            };
            let mut r = Rng::new(seed.wrapping_mul(7_368_787).wrapping_add(i as u64));
            // a state, two or three calls that do not need the same things
            let (s, a, b) = picks[i];
            let evs = &g.next[s as usize];
            let mut calls = vec![renamed(&g.ev[evs[a].0 as usize], 40), renamed(&g.ev[evs[b].0 as usize], 60)];
            if r.chance(20) {
                let busy: Vec<(char, i32)> = calls.iter().flat_map(uses).collect();
                let c: Vec<&Ev> = evs
                    .iter()
                    .map(|x| &g.ev[x.0 as usize])
                    .filter(|e| weight(&e.op) > 0 && uses(e).iter().all(|u| !busy.contains(u)))
                    .collect();
                if !c.is_empty() {
                    calls.push(renamed(c[r.below(c.len())], 80));
                }
            }
            let mut path = vec![];
            let mut c = s;
            while let Some((p, e)) = from[c as usize] {
                path.push(g.ev[e as usize].clone());
                c = p;
            }
            path.reverse();
            let variant = r.next() as u32;
            let more: Vec<(u64, usize)> =
                calls.iter().map(|_| (r.next(), if r.chance(35) { 1 + r.below(2) } else { 0 })).collect();
            let sseed = r.next();
            let mut script: Vec<u8> = again.clone().unwrap_or_default();
            let mut seen = HashSet::new();
            for k in 0..limit {
                if enough() || deadline.map_or(false, |d| Instant::now() > d) {
                    return;
                }
                *slot.cur.lock().unwrap() =
                    Trace { cap: g.cap, guise: (pol.chan, pol.either, variant), ..Trace::default() };
                let mut bag = Bag::new(g.cap, pol, variant);
                for e in &path {
                    if !possible(&bag, e) {
                        return; // it took another turn than the one planned
                    }
                    if alone(slot, &mut bag, e).res == "boom" {
                        std::mem::forget(bag);
                        s1.out.lock().unwrap().push((i as u64, slot.cur.lock().unwrap().clone()));
                        return;
                    }
                }
                if !calls.iter().all(|e| possible(&bag, e)) {
                    return;
                }
                let mut work = vec![];
                for (t, e) in calls.iter().enumerate() {
                    let mut b = Bag::empty(bag.sh.clone(), pol, variant + t as u32);
                    takes(&mut bag, &mut b, e);
                    work.push((b, Prog::Call(e.clone(), more[t].0, more[t].1)));
                }
                let at = slot.cur.lock().unwrap().ev.len();
                s1.runs.fetch_add(1, SeqCst);
                let (bags, trail) = together(slot, work, Strategy::Script { script: script.clone(), bound });
                if slot.dead.load(SeqCst) {
                    return;
                }
                let fresh = seen.insert(digest(&slot.cur.lock().unwrap(), at));
                slot.cur.lock().unwrap().how = how(i, &trail);
                match bags {
                    Some(mut v) => {
                        v.insert(0, bag);
                        let mut bag = merge(v);
                        // the suffix is only of use where the rest is new
                        if fresh {
                            let mut g = Gen::new(sseed, follow_up());
                            if !suffix(slot, &mut bag, &mut g) {
                                std::mem::forget(bag);
                            }
                        }
                    }
                    None => std::mem::forget(bag),
                }
                if slot.dead.load(SeqCst) {
                    return;
                }
                if fresh {
                    s1.out.lock().unwrap().push((i as u64, slot.cur.lock().unwrap().clone()));
                }
                match next_script(&trail) {
                    Some(s) if again.is_none() => script = s,
                    Some(_) => return,
                    None => {
                        f1.fetch_add(1, SeqCst);
                        return;
                    }
                }
                if k + 1 == limit {
                    return;
                }
            }
        },
        move |tr| stuck_suffix(&s2, tr),
    );
    println!("PAIRS pairs={} exhausted={} classes={}", n, full.load(SeqCst), classes);
    finish_up(sink);
}
