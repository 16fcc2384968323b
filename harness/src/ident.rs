//! Handles compared with each other (Identity.tla).
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

use xtra::prelude::*;

use crate::trace::{Rng, Trace};
use crate::world::{Act, Bag, Ev, Pol, H};

#[derive(Default)]
pub struct Ident {
    hs: BTreeMap<i32, H>,
    ms: BTreeMap<i32, Mailbox<Act>>,
}

/// A second opinion on hashes: sensitive to order and width of what is written.
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.0 = self.0.rotate_left(9) ^ b.len() as u64;
    }
}
fn same_hash<A: Hash, B: Hash>(a: &A, b: &B) -> i32 {
    let h = |v: &dyn Fn(&mut DefaultHasher)| {
        let mut s = DefaultHasher::new();
        v(&mut s);
        s.finish()
    };
    let f = |v: &dyn Fn(&mut Fnv)| {
        let mut s = Fnv(0xcbf2_9ce4_8422_2325);
        v(&mut s);
        s.finish()
    };
    (h(&|s| a.hash(s)) == h(&|s| b.hash(s)) && f(&|s| a.hash(s)) == f(&|s| b.hash(s))) as i32
}
fn num(o: Option<Ordering>) -> i32 {
    match o {
        Some(Ordering::Less) => -1,
        Some(Ordering::Equal) => 0,
        Some(Ordering::Greater) => 1,
        None => 7,
    }
}
/// == and != agree
fn eq<A: PartialEq<B>, B>(a: &A, b: &B) -> i32 {
    if (a == b) == (a != b) { 7 } else { (a == b) as i32 }
}
/// partial_cmp, with which the operators agree
fn pcmp<A: PartialOrd<B>, B>(a: &A, b: &B) -> i32 {
    let c = num(a.partial_cmp(b));
    let ok = (a < b) == (c == -1) && (a > b) == (c == 1) && (a <= b) == (c <= 0) && (a >= b) == (c == 0 || c == 1);
    if ok { c } else { 7 }
}

macro_rules! addr {
    ($a:expr, $b:expr, $cmp:expr) => {
        vec![
            eq($a, $b), eq($b, $a), pcmp($a, $b), pcmp($b, $a), $cmp,
            if $a.same_actor($b) == $b.same_actor($a) { $a.same_actor($b) as i32 } else { 7 },
            same_hash($a, $b),
        ]
    };
}
macro_rules! chan {
    ($a:expr, $b:expr, $e:expr, $f:expr) => {
        vec![
            $e, $f, 9, 9, 9,
            if $a.same_actor($b) == $b.same_actor($a) { $a.same_actor($b) as i32 } else { 7 },
            same_hash($a, $b),
        ]
    };
}
fn compare(a: &H, b: &H) -> Vec<i32> {
    match (a, b) {
        (H::S(a), H::S(b)) => addr!(a, b, num(Some(a.cmp(b)))),
        (H::W(a), H::W(b)) => addr!(a, b, num(Some(a.cmp(b)))),
        (H::E(a), H::E(b)) => addr!(a, b, num(Some(a.cmp(b)))),
        (H::S(a), H::W(b)) => addr!(a, b, 9),
        (H::S(a), H::E(b)) => addr!(a, b, 9),
        (H::W(a), H::S(b)) => addr!(a, b, 9),
        (H::W(a), H::E(b)) => addr!(a, b, 9),
        (H::E(a), H::S(b)) => addr!(a, b, 9),
        (H::E(a), H::W(b)) => addr!(a, b, 9),
        (H::Cs(a), H::Cs(b)) => chan!(a, b, eq(a, b), eq(b, a)),
        (H::Cw(a), H::Cw(b)) => chan!(a, b, eq(a, b), eq(b, a)),
        (H::Ce(a), H::Ce(b)) => chan!(a, b, eq(a, b), eq(b, a)),
        (H::Cs(a), H::Cw(b)) => chan!(a, b, 9, 9),
        (H::Cs(a), H::Ce(b)) => chan!(a, b, 9, 9),
        (H::Cw(a), H::Cs(b)) => chan!(a, b, 9, 9),
        (H::Cw(a), H::Ce(b)) => chan!(a, b, 9, 9),
        (H::Ce(a), H::Cs(b)) => chan!(a, b, 9, 9),
        (H::Ce(a), H::Cw(b)) => chan!(a, b, 9, 9),
        _ => unreachable!(),
    }
}

impl Ident {
    pub fn call(&mut self, e: &Ev, v: u32, pr: &mut Vec<i32>) -> String {
        let (a, b) = (e.a, e.b);
        let h = match e.op.as_str() {
            "inew" => {
                let (h, m) = if v % 2 == 0 { Mailbox::unbounded() } else { Mailbox::bounded(1) };
                self.ms.insert(a, m);
                H::S(h)
            }
            "iclone" => match &self.hs[&a] {
                H::S(h) => H::S(h.clone()),
                H::W(h) => H::W(h.clone()),
                H::E(h) => H::E(h.clone()),
                H::Cs(h) => H::Cs(h.clone()),
                H::Cw(h) => H::Cw(h.clone()),
                H::Ce(h) => H::Ce(h.clone()),
            },
            "ieither" => match &self.hs[&a] {
                H::S(h) => H::E(h.as_either()),
                H::W(h) => H::E(h.as_either()),
                H::E(h) => H::E(h.as_either()),
                H::Cs(h) => H::Ce(h.as_either()),
                H::Cw(h) => H::Ce(h.as_either()),
                H::Ce(h) => H::Ce(h.as_either()),
            },
            "idown" => match &self.hs[&a] {
                H::S(h) => H::W(h.downgrade()),
                H::E(h) => H::W(h.downgrade()),
                H::Cs(h) => H::Cw(h.downgrade()),
                H::Ce(h) => H::Cw(h.downgrade()),
                _ => unreachable!(),
            },
            "iup" => match &self.hs[&a] {
                H::W(h) => match h.try_upgrade() {
                    Some(h) => {
                        self.hs.insert(b, H::S(h));
                        return "some".into();
                    }
                    None => return "none".into(),
                },
                _ => unreachable!(),
            },
            "ichan" => match (&self.hs[&a], v % 2) {
                (H::S(h), 0) => H::Cs(MessageChannel::new(h.clone())),
                (H::S(h), _) => H::Cs(h.clone().into()),
                (H::W(h), 0) => H::Cw(MessageChannel::new(h.clone())),
                (H::W(h), _) => H::Cw(h.clone().into()),
                (H::E(h), 0) => H::Ce(MessageChannel::new(h.clone())),
                (H::E(h), _) => H::Ce(h.clone().into()),
                _ => unreachable!(),
            },
            "imbaddr" => H::W(self.ms[&a].address()),
            "idrop" => {
                self.hs.remove(&a);
                return "ok".into();
            }
            "imdrop" => {
                self.ms.remove(&a);
                return "ok".into();
            }
            "icmp" => {
                *pr = compare(&self.hs[&a], &self.hs[&b]);
                return "ok".into();
            }
            other => panic!("unknown op {other}"),
        };
        self.hs.insert(b, h);
        "ok".into()
    }

    /// Something that can be done now.
    fn any(&self, r: &mut Rng, next_m: &mut i32) -> Ev {
        let fresh = (1..).find(|i| !self.hs.contains_key(i)).unwrap();
        let hs: Vec<i32> = self.hs.keys().copied().collect();
        let ms: Vec<i32> = self.ms.keys().copied().collect();
        if hs.is_empty() || (ms.len() < 4 && r.chance(7)) {
            *next_m += 1;
            return Ev::new("inew", *next_m, fresh, 0, "-");
        }
        loop {
            let a = *r.pick(&hs);
            let b = *r.pick(&hs);
            let chan = |x: i32| !matches!(self.hs[&x], H::S(_) | H::W(_) | H::E(_));
            match r.below(24) {
                0 | 1 => return Ev::new("iclone", a, fresh, 0, "-"),
                2 | 3 => return Ev::new("ieither", a, fresh, 0, "-"),
                4 if !matches!(self.hs[&a], H::W(_) | H::Cw(_)) => return Ev::new("idown", a, fresh, 0, "-"),
                5 | 6 if matches!(self.hs[&a], H::W(_)) => return Ev::new("iup", a, fresh, 0, "-"),
                7 | 8 if !chan(a) => return Ev::new("ichan", a, fresh, 0, "-"),
                9 if !ms.is_empty() => return Ev::new("imbaddr", *r.pick(&ms), fresh, 0, "-"),
                10 | 11 => return Ev::new("idrop", a, 0, 0, "-"),
                12 if !ms.is_empty() && r.chance(30) => return Ev::new("imdrop", *r.pick(&ms), 0, 0, "-"),
                n if n > 12 && chan(a) == chan(b) => return Ev::new("icmp", a, b, 0, "-"),
                _ => {}
            }
        }
    }
}

/// Every representation of three mailboxes' handles, every pair of them.
fn all() -> Vec<Ev> {
    let mut v = vec![];
    let mut n = 0;
    for m in 1..=3 {
        let mut new = |v: &mut Vec<Ev>, op: &str, a: i32| {
            n += 1;
            v.push(Ev::new(op, a, n, 0, "-"));
            n
        };
        let s = new(&mut v, "inew", m);
        let w = new(&mut v, "idown", s);
        let e = new(&mut v, "ieither", s);
        let f = new(&mut v, "ieither", w);
        let cs = new(&mut v, "ichan", s);
        let cw = new(&mut v, "ichan", w);
        for a in [e, f] {
            new(&mut v, "ichan", a);
            new(&mut v, "iclone", a);
        }
        for c in [cs, cw] {
            new(&mut v, "ieither", c);
            new(&mut v, "iclone", c);
        }
        new(&mut v, "imbaddr", m);
        new(&mut v, "iup", w);
    }
    v
}

pub fn cmd() {
    let n = crate::num("traces", 100) as usize;
    let seed = crate::num("seed", 1);
    let mut out = vec![];
    for i in 0..n {
        let mut r = Rng::new(seed.wrapping_mul(7_777_777).wrapping_add(i as u64));
        let variant = r.next() as u32;
        let mut t = Trace { cap: -1, guise: (true, true, variant), ..Trace::default() };
        let mut bag = Bag::new(-1, Pol { chan: true, either: true, md: 0 }, variant);
        let do_ = |t: &mut Trace, bag: &mut Bag, e: Ev| {
            let o = bag.exec(&e);
            let boom = o.res == "boom";
            t.ev.push((e, o));
            !boom
        };
        if i < 2 {
            let mut evs = all();
            if i == 1 {
                // another order of allocation: the first mailbox goes and comes back
                evs = vec![];
                for k in 1..=6 {
                    evs.push(Ev::new("inew", 10 + k, 100 + k, 0, "-"));
                }
                for k in [2, 5, 1] {
                    evs.push(Ev::new("idrop", 100 + k, 0, 0, "-"));
                    evs.push(Ev::new("imdrop", 10 + k, 0, 0, "-"));
                }
                evs.extend(all());
            }
            for e in evs {
                do_(&mut t, &mut bag, e);
            }
            let hs: Vec<(i32, bool)> =
                bag.id.hs.iter().map(|(k, h)| (*k, !matches!(h, H::S(_) | H::W(_) | H::E(_)))).collect();
            for (a, ca) in &hs {
                for (b, cb) in &hs {
                    if ca == cb {
                        do_(&mut t, &mut bag, Ev::new("icmp", *a, *b, 0, "-"));
                    }
                }
            }
        } else {
            let mut m = 0;
            for _ in 0..80 {
                let e = bag.id.any(&mut r, &mut m);
                if !do_(&mut t, &mut bag, e) {
                    break;
                }
            }
        }
        out.push(t);
    }
    crate::write_traces(&crate::arg("out").unwrap(), &out);
    println!("IDENT traces={} calls={}", out.len(), out.iter().map(|t| t.ev.len()).sum::<usize>());
}
