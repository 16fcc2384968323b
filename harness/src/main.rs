#[cfg(feature = "conc")]
mod conc;
mod gen;
mod ident;
mod pool;
mod span;
#[cfg(feature = "spawn")]
mod spawned;
mod trace;
mod walk;
mod world;

use std::io::Write;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};


use trace::Trace;
use world::{Bag, Ev, Obs, Pol};

pub fn arg(name: &str) -> Option<String> {
    let v: Vec<String> = std::env::args().collect();
    v.iter().position(|x| x == &format!("--{name}")).and_then(|i| v.get(i + 1).cloned())
}
pub fn num(name: &str, d: u64) -> u64 {
    arg(name).map_or(d, |s| s.parse().expect(name))
}

/// Spawned actors share what tells their handlers what to do.
fn workers() -> usize {
    if cfg!(feature = "spawn") { 1 } else { num("workers", 8) as usize }
}
fn main() {
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if std::env::var("XH_VERBOSE").is_ok() && !world::EXPECT_PANIC.with(|c| c.get()) {
            hook(i);
        }
    }));
    match std::env::args().nth(1).as_deref() {
        Some("walk") => cmd_walk(),
        Some("rand") => cmd_rand(),
        Some("replay") => cmd_replay(),
        Some("ident") => ident::cmd(),
        #[cfg(feature = "conc")]
        Some("conc") => conc::cmd_random(),
        #[cfg(feature = "conc")]
        Some("pairs") => conc::cmd_pairs(),
        _ => panic!("usage: xh walk|rand|replay"),
    }
    std::process::exit(0)
}

pub fn write_traces(path: &str, v: &[Trace]) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    writeln!(f, "[").unwrap();
    for (i, t) in v.iter().enumerate() {
        writeln!(f, "{}{}", t.json(), if i + 1 < v.len() { "," } else { "" }).unwrap();
    }
    writeln!(f, "]").unwrap();
    f.flush().unwrap();
}

fn cmd_walk() {
    let g = Arc::new(walk::Graph::load(&arg("graph").unwrap()));
    let pol = Pol { chan: num("chan", 0) == 1, either: num("either", 0) == 1, md: num("md", 0) as i32 };
    let st = walk::walk(
        g.clone(),
        pol,
        num("seed", 1),
        num("ext", 6) as usize,
        num("stride", 1) as usize,
        workers(),
    );
    let (cov, tot) = walk::summary(&st);
    let bad = st.bad.lock().unwrap();
    let mut b: Vec<Trace> = bad.clone();
    if std::env::var("XH_VERBOSE").is_err() { b.sort_by_key(|t| t.ev.len()); }
    write_traces(&arg("out").unwrap(), &b);
    println!(
        "WALK runs={} calls={} covered={} transitions={} states={} missed={} bad={}",
        st.runs.load(SeqCst),
        st.calls.load(SeqCst),
        cov,
        tot,
        g.next.len(),
        st.missed.load(SeqCst),
        b.len()
    );
}

fn cmd_rand() {
    let profs: Vec<gen::Profile> = std::fs::read_to_string(arg("profiles").unwrap())
        .unwrap()
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(gen::Profile::parse)
        .collect();
    let n = num("traces", 100) as usize;
    let seed = num("seed", 1);
    let workers = if arg("journal").is_some() { 1 } else { workers() };
    let out: Arc<Mutex<Vec<(usize, Trace)>>> = Arc::default();
    let (o1, o2) = (out.clone(), out.clone());
    let deadline = arg("secs").map(|s| Instant::now() + Duration::from_secs(s.parse().unwrap()));
    pool::run(
        n,
        workers,
        deadline,
        move |i, slot: &Arc<pool::Slot>| {
            // Of the profiles with long traces, only every fortieth trace.
            let mut pi = i % profs.len();
            while profs[pi].len > 300 && (i / profs.len()) % 40 != 7 && profs.iter().any(|p| p.len <= 300) {
                pi = (pi + 1) % profs.len();
            }
            let p = profs[pi].clone();
            let mut g = gen::Gen::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64), p.clone());
            let cap = *g.r.pick(&p.caps);
            let pol = Pol { chan: p.chan, either: p.either, md: p.md };
            let mut variant = g.r.next() as u32;
            if i % 16 == 5 {
                variant = variant & !1023 | 13; // see `Bag::used`
            }
            *slot.cur.lock().unwrap() =
                Trace { cap, md: pol.md, guise: (pol.chan, pol.either, variant), ..Trace::default() };
            let mut bag = Bag::new(cap, pol, variant).used();
            let mut steps = 0;
            let mut alive = true;
            loop {
                let e = if steps < p.len { g.next(&bag) } else { g.drain(&bag) };
                let e = match e {
                    Some(e) => e,
                    None if steps < p.len => {
                        steps = p.len;
                        continue;
                    }
                    None => Ev::new("end", 0, 0, 0, "-"),
                };
                steps += 1;
                slot.cur.lock().unwrap().ev.push((e.clone(), Obs::default()));
                slot.beat.fetch_add(1, SeqCst);
                slot.note();
                let ob = bag.exec(&e);
                g.saw(&e, &ob.res, &ob.wk, &bag);
                let boom = ob.res == "boom";
                slot.cur.lock().unwrap().ev.last_mut().unwrap().1 = ob;
                if boom {
                    alive = false;
                    break;
                }
                if e.op == "end" {
                    break;
                }
                if steps > p.len + 3000 {
                    // something never ends: long seen by then
                    alive = false;
                    break;
                }
            }
            if alive {
                drop(bag)
            } else {
                std::mem::forget(bag)
            }
            if !slot.dead.load(SeqCst) {
                o1.lock().unwrap().push((i, slot.cur.lock().unwrap().clone()));
            }
        },
        move |mut tr| {
            if let Some(l) = tr.ev.last_mut() {
                l.1 = Obs { res: "hang".into(), ..Obs::default() };
                o2.lock().unwrap().push((usize::MAX, tr));
            }
        },
    );
    let mut v = out.lock().unwrap().clone();
    v.sort_by_key(|x| x.0);
    let v: Vec<Trace> = v.into_iter().map(|x| x.1).collect();
    let calls: usize = v.iter().map(|t| t.ev.len()).sum();
    write_traces(&arg("out").unwrap(), &v);
    println!("RAND traces={} calls={}", v.len(), calls);
}

/// Re-execute the events of a recorded trace (text: cap chan either variant,
/// then one event per line), print what is seen now.
fn cmd_replay() {
    let txt = std::fs::read_to_string(arg("in").unwrap()).unwrap();
    let mut it = txt.lines();
    let h: Vec<i64> = it.next().unwrap().split(' ').map(|x| x.parse().unwrap()).collect();
    let pol = Pol { chan: h[1] == 1, either: h[2] == 1, md: h[4] as i32 };
    let cap = h[0] as i32;
    let variant = h[3] as u32;
    let evs: Vec<Ev> = it.map(|l| walk::parse_ev(&l.split(' ').collect::<Vec<_>>())).collect();
    let out: Arc<Mutex<Vec<Trace>>> = Arc::default();
    let (o1, o2) = (out.clone(), out.clone());
    pool::run(
        1,
        1,
        None,
        move |_, slot| {
            *slot.cur.lock().unwrap() = Trace { cap, md: pol.md, guise: (pol.chan, pol.either, variant), ..Trace::default() };
            let mut bag = Bag::new(cap, pol, variant).used();
            for e in &evs {
                slot.cur.lock().unwrap().ev.push((e.clone(), Obs::default()));
                slot.beat.fetch_add(1, SeqCst);
                let ob = bag.exec(e);
                let boom = ob.res == "boom";
                slot.cur.lock().unwrap().ev.last_mut().unwrap().1 = ob;
                if boom {
                    break;
                }
            }
            std::mem::forget(bag);
            o1.lock().unwrap().push(slot.cur.lock().unwrap().clone());
        },
        move |mut tr| {
            if let Some(l) = tr.ev.last_mut() {
                l.1 = Obs { res: "hang".into(), ..Obs::default() };
                o2.lock().unwrap().push(tr);
            }
        },
    );
    write_traces(&arg("out").unwrap(), &out.lock().unwrap());
}
