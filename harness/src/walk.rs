//! Walks the state graph exported from the specification through the real
//! code: every transition, plus a random continuation after each.
use std::collections::{HashMap, VecDeque};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

use crate::pool::{self, Slot};
use crate::trace::{Rng, Trace};
use crate::world::{Bag, Ev, Obs, Pol};

pub struct Graph {
    pub cap: i32,
    pub ev: Vec<Ev>,
    pub obs: Vec<Obs>,
    /// state -> event -> [(observation, next state)]
    pub next: Vec<Vec<(u32, Vec<(u32, u32)>)>>,
}
pub fn parse_obs(f: &[&str]) -> Obs {
    let ints = |s: &str| {
        s.split(',').filter(|x| !x.is_empty() && *x != "-").map(|x| x.parse().unwrap()).collect::<Vec<i32>>()
    };
    Obs {
        res: f[0].into(),
        hd: f[1].parse().unwrap(),
        wk: ints(f[2]),
        pr: ints(f[3]),
    }
}
pub fn parse_ev(f: &[&str]) -> Ev {
    Ev::new(f[0], f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap(), f[4])
}
impl Graph {
    pub fn load(path: &str) -> Graph {
        let txt = std::fs::read_to_string(path).expect("graph file");
        let mut g = Graph { cap: 0, ev: vec![], obs: vec![], next: vec![] };
        for line in txt.lines() {
            let f: Vec<&str> = line.split(' ').collect();
            match f[0] {
                "C" => {
                    g.cap = f[1].parse().unwrap();
                    g.next.resize_with(f[2].parse().unwrap(), Vec::new);
                }
                "E" => g.ev.push(parse_ev(&f[1..])),
                "O" => g.obs.push(parse_obs(&f[1..])),
                "T" => {
                    let n = |i: usize| f[i].parse::<u32>().unwrap();
                    let (s, e, o, t) = (n(1), n(2), n(3), n(4));
                    let v = &mut g.next[s as usize];
                    match v.iter_mut().find(|x| x.0 == e) {
                        Some(x) => x.1.push((o, t)),
                        None => v.push((e, vec![(o, t)])),
                    }
                }
                _ => panic!("bad graph line"),
            }
        }
        g
    }
}
pub fn fits(want: &Obs, got: &Obs) -> bool {
    want.res == got.res
        && want.hd == got.hd
        && want.wk.iter().all(|w| got.wk.contains(w))
        && want.pr == got.pr
}

pub struct Stats {
    pub runs: AtomicUsize,
    pub calls: AtomicU64,
    pub covered: Vec<Mutex<Vec<bool>>>,
    pub missed: AtomicUsize,
    pub hung: AtomicUsize,
    pub bad: Mutex<Vec<Trace>>,
}

pub fn walk(g: Arc<Graph>, pol: Pol, seed: u64, ext: usize, stride: usize, workers: usize) -> Arc<Stats> {
    // shortest paths from the initial state
    let n = g.next.len();
    let mut from: Vec<Option<(u32, u32)>> = vec![None; n];
    let mut seen = vec![false; n];
    let mut order = vec![];
    seen[0] = true;
    let mut q = VecDeque::from([0u32]);
    while let Some(s) = q.pop_front() {
        order.push(s);
        for (e, succ) in &g.next[s as usize] {
            for (_, t) in succ {
                if !seen[*t as usize] {
                    seen[*t as usize] = true;
                    from[*t as usize] = Some((s, *e));
                    q.push_back(*t);
                }
            }
        }
    }
    let mut jobs: Vec<(u32, u32)> = vec![];
    for s in &order {
        for (e, _) in &g.next[*s as usize] {
            jobs.push((*s, *e));
        }
    }
    if stride > 1 {
        let off = seed as usize % stride;
        jobs = jobs.into_iter().enumerate().filter(|(i, _)| i % stride == off).map(|x| x.1).collect();
    }
    let st = Arc::new(Stats {
        runs: AtomicUsize::new(0),
        calls: AtomicU64::new(0),
        covered: g.next.iter().map(|v| Mutex::new(vec![false; v.len()])).collect(),
        missed: AtomicUsize::new(0),
        hung: AtomicUsize::new(0),
        bad: Mutex::new(vec![]),
    });
    let from = Arc::new(from);
    let jobs = Arc::new(jobs);
    let nj = jobs.len();
    let st2 = st.clone();
    let st3 = st.clone();
    let batch = 64usize;
    pool::run(
        (nj + batch - 1) / batch,
        workers,
        None,
        move |bi, slot| {
            for i in bi * batch..((bi + 1) * batch).min(nj) {
                if st2.bad.lock().unwrap().len() >= 60 || st2.hung.load(SeqCst) >= 8 {
                    return;
                }
                one(&g, &from, jobs[i], pol, seed.wrapping_add(i as u64 * 7919), ext, &st2, slot);
            }
        },
        move |mut tr| {
            if let Some(l) = tr.ev.last_mut() {
                l.1 = Obs { res: "hang".into(), ..Obs::default() };
                st3.bad.lock().unwrap().push(tr);
                st3.hung.fetch_add(1, SeqCst);
            }
        },
    );
    st
}

#[allow(clippy::too_many_arguments)]
fn one(
    g: &Graph,
    from: &[Option<(u32, u32)>],
    (s, e): (u32, u32),
    pol: Pol,
    seed: u64,
    ext: usize,
    st: &Stats,
    slot: &Slot,
) {
    let mut path = vec![e];
    let mut c = s;
    while let Some((p, e)) = from[c as usize] {
        path.push(e);
        c = p;
    }
    path.reverse();
    let mut r = Rng::new(seed);
    let variant = r.next() as u32;
    *slot.cur.lock().unwrap() = Trace { cap: g.cap, md: pol.md, guise: (pol.chan, pol.either, variant), ..Trace::default() };
    let mut bag = Bag::new(g.cap, pol, variant).used();
    let mut cand: Vec<u32> = vec![0];
    let at = path.len() - 1;
    st.runs.fetch_add(1, SeqCst);
    let mut k = 0;
    loop {
        let ei = if k < path.len() {
            path[k]
        } else if k < path.len() + ext {
            let first = &g.next[cand[0] as usize];
            let mut ok: Vec<u32> = first.iter().map(|x| x.0).collect();
            ok.retain(|e| cand.iter().all(|c| g.next[*c as usize].iter().any(|x| x.0 == *e)));
            if ok.is_empty() {
                break;
            }
            *r.pick(&ok)
        } else {
            break;
        };
        // the event must be possible in every state we may be in
        if !cand.iter().all(|c| g.next[*c as usize].iter().any(|x| x.0 == ei)) {
            st.missed.fetch_add(1, SeqCst);
            break;
        }
        if k == at && !cand.contains(&s) {
            st.missed.fetch_add(1, SeqCst);
        }
        let ev = &g.ev[ei as usize];
        {
            slot.cur.lock().unwrap().ev.push((ev.clone(), Obs::default()));
            slot.beat.fetch_add(1, SeqCst);
            slot.note();
        }
        let got = bag.exec(ev);
        st.calls.fetch_add(1, SeqCst);
        let mut nc: Vec<u32> = vec![];
        for c in &cand {
            let v = &g.next[*c as usize];
            if let Some(j) = v.iter().position(|x| x.0 == ei) {
                let mut hit = false;
                for (o, t) in &v[j].1 {
                    if fits(&g.obs[*o as usize], &got) {
                        hit = true;
                        if !nc.contains(t) {
                            nc.push(*t);
                        }
                    }
                }
                if hit {
                    st.covered[*c as usize].lock().unwrap()[j] = true;
                }
            }
        }
        slot.cur.lock().unwrap().ev.last_mut().unwrap().1 = got;
        if nc.is_empty() {
            let tr = slot.cur.lock().unwrap().clone();
            st.bad.lock().unwrap().push(tr);
            // what is left may be broken beyond dropping
            std::mem::forget(bag);
            return;
        }
        cand = nc;
        k += 1;
    }
    // let go of everything; what that should look like is in the specification
    // but not in the graph, so only deadlocks, panics and leaks count here
    let mut steps = 0;
    while let Some(e) = bag.teardown() {
        steps += 1;
        slot.cur.lock().unwrap().ev.push((e.clone(), Obs::default()));
        slot.beat.fetch_add(1, SeqCst);
        slot.note();
        let got = bag.exec(&e);
        let bad = steps > 200 || got.res == "boom" || (e.op == "end" && got.pr.iter().any(|x| *x != 0));
        slot.cur.lock().unwrap().ev.last_mut().unwrap().1 = got;
        if bad {
            st.bad.lock().unwrap().push(slot.cur.lock().unwrap().clone());
            std::mem::forget(bag);
            return;
        }
        if e.op == "end" {
            break;
        }
    }
}

pub fn summary(st: &Stats) -> (usize, usize) {
    let mut tot = 0;
    let mut cov = 0;
    for v in &st.covered {
        let v = v.lock().unwrap();
        tot += v.len();
        cov += v.iter().filter(|x| **x).count();
    }
    (cov, tot)
}

pub type Dist = HashMap<String, usize>;
