//! Traces on disk, watched execution of them.
use std::fmt::Write as _;
use std::sync::{Arc, Mutex};

use crate::world::{Ev, Obs};

#[derive(Clone, Default)]
pub struct Trace {
    pub cap: i32,
    pub md: i32,
    pub guise: (bool, bool, u32),
    pub ev: Vec<(Ev, Obs)>,
    /// Where calls overlap: what the entries of ev are (s: a call all by itself,
    /// c: thread calls, r: call returns, x: never returned), and whose.
    pub tag: Vec<(char, u8)>,
    /// How to get this trace again: job, choices of the scheduler.
    pub how: String,
}
pub type Shared = Arc<Mutex<Trace>>;

fn ints(v: &[i32]) -> String {
    let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
    format!("[{}]", s.join(","))
}
impl Trace {
    pub fn json(&self) -> String {
        let mut s = String::new();
        write!(
            s,
            "{{\"cap\":{},\"chan\":{},\"either\":{},\"variant\":{},\"md\":{},\"ev\":[",
            self.cap, self.guise.0, self.guise.1, self.guise.2, self.md
        )
        .unwrap();
        for (i, (e, o)) in self.ev.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            write!(
                s,
                "[{}\"{}\",{},{},{},\"{}\",\"{}\",{},{},{}]",
                self.tag.get(i).map_or(String::new(), |t| format!("\"{}\",{},", t.0, t.1)),
                e.op, e.a, e.b, e.x, e.k, o.res, o.hd, ints(&o.wk), ints(&o.pr)
            )
            .unwrap();
        }
        s.push(']');
        if !self.how.is_empty() {
            write!(s, ",\"how\":\"{}\"", self.how).unwrap();
        }
        s.push('}');
        s
    }
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn chance(&mut self, pct: u32) -> bool {
        self.below(100) < pct as usize
    }
}
