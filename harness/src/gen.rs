//! Random traces, steered by a profile.
use std::collections::BTreeSet;

use crate::trace::Rng;
use crate::world::{Bag, Ev, Rcv};

#[derive(Clone)]
pub struct Profile {
    pub name: String,
    pub caps: Vec<i32>,
    pub prios: Vec<i32>,
    pub w: Vec<(String, u32)>,
    pub sk: Vec<String>,
    pub bk: Vec<String>,
    pub acts: Vec<(String, u32)>,
    pub kinds: Vec<String>, // of tasks
    pub lim: [usize; 6], // addresses, mailboxes, sends alive, receives, joins, tasks
    pub md: i32,
    pub chan: bool,
    pub either: bool,
    pub len: usize,
    /// percent: poll a send right after creating it / a receive right away
    pub eager: u32,
    /// percent: take the next step of something that was woken
    pub follow: u32,
    /// percent: probe after an event
    pub probe: u32,
}
impl Profile {
    /// name|caps|prios|op:w,..|sk|bk|act:w,..|limits|chan|either|len|eager|follow|probe
    pub fn parse(s: &str) -> Profile {
        let f: Vec<&str> = s.trim().split('|').collect();
        let ints = |s: &str| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect::<Vec<i32>>();
        let strs = |s: &str| s.split(',').filter(|x| !x.is_empty()).map(String::from).collect::<Vec<_>>();
        let ws = |s: &str| {
            s.split(',')
                .filter(|x| !x.is_empty())
                .map(|x| {
                    let (a, b) = x.split_once(':').unwrap();
                    (a.to_string(), b.parse().unwrap())
                })
                .collect::<Vec<(String, u32)>>()
        };
        let l = ints(f[7]);
        Profile {
            name: f[0].into(),
            caps: ints(f[1]),
            prios: ints(f[2]),
            w: ws(f[3]),
            sk: strs(f[4]),
            bk: strs(f[5]),
            acts: ws(f[6]),
            lim: [l[0] as usize, l[1] as usize, l[2] as usize, l[3] as usize, l[4] as usize, l.get(5).map_or(1, |x| *x as usize)],
            kinds: strs(f.get(14).unwrap_or(&"")),
            md: f.get(15).map_or(0, |x| x.parse().unwrap()),
            chan: f[8] == "1",
            either: f[9] == "1",
            len: f[10].parse().unwrap(),
            eager: f[11].parse().unwrap(),
            follow: f[12].parse().unwrap(),
            probe: f[13].parse().unwrap(),
        }
    }
}

pub struct Gen {
    pub r: Rng,
    pub p: Profile,
    pub nsnd: i32,
    pub nmbs: i32,
    pub queue: Vec<Ev>,
    pub woken: BTreeSet<i32>,
    /// ids above this, and none of them twice (of use when several threads make up ids)
    pub base: i32,
    used: i32,
}
fn fresh<T>(m: &std::collections::BTreeMap<i32, T>) -> i32 {
    (1..).find(|i| !m.contains_key(i)).unwrap()
}
fn wpick(r: &mut Rng, w: &[(String, u32)]) -> String {
    let tot: u32 = w.iter().map(|x| x.1).sum();
    let mut n = r.below(tot.max(1) as usize) as u32;
    for (s, k) in w {
        if n < *k {
            return s.clone();
        }
        n -= k;
    }
    w[0].0.clone()
}
impl Gen {
    pub fn new(seed: u64, p: Profile) -> Gen {
        Gen { r: Rng::new(seed), p, nsnd: 0, nmbs: 1, queue: vec![], woken: BTreeSet::new(), base: 0, used: 0 }
    }
    /// What a handler does when it is polled (on its own, not in a task).
    fn act(&mut self) -> String {
        let w: Vec<_> = self.p.acts.iter().filter(|x| ["pend", "ret", "stop", "stopall", "panic"].contains(&x.0.as_str())).cloned().collect();
        wpick(&mut self.r, &w)
    }
    /// What user code does during one poll of a task.
    fn script(&mut self) -> i32 {
        let n = self.r.below(7) as u32;
        let mut s = 0;
        for i in 0..n {
            let d = match wpick(&mut self.r, &self.p.acts).as_str() {
                "pend" => 0,
                "ret" => 1,
                "stop" => 2,
                "stopall" => 3,
                "panic" => 4,
                "sel" => 5,
                "join" => 6,
                _ => 7,
            };
            s += d << (3 * i);
        }
        s
    }
    fn sink(&mut self, k: i32) -> Ev {
        let how = *self.r.pick(&["ready", "ready", "ready", "flush", "flush", "close"]);
        Ev::new("xpoll", k, 0, 0, how)
    }
    pub fn step_of(&mut self, tok: i32, b: &Bag) -> Option<Ev> {
        let tok_send = if tok >= 10000 { tok - 10000 } else { tok - 100 };
        match if tok >= 10000 { 1 } else { tok / 100 } {
            1 if b.snd.contains_key(&tok_send) => Some(Ev::new("spoll", tok_send, 0, 0, "-")),
            1 => {
                let k = *b.sk.iter().find(|x| x.1.cur == tok_send)?.0;
                Some(self.sink(k))
            }
            2 => match b.rcv.get(&(tok - 200)) {
                Some(Rcv::Fut(_)) => Some(Ev::new("rpoll", tok - 200, 0, 0, "-")),
                Some(_) => {
                    let k = self.act();
                    Some(Ev::new("dpoll", tok - 200, 0, 0, &k))
                }
                None => None,
            },
            4 if b.tasks.contains_key(&(tok - 400)) => {
                let s = self.script();
                Some(Ev::new("kpoll", tok - 400, s, 0, "-"))
            }
            3 if b.joins().contains(&(tok - 300)) => Some(Ev::new("jpoll", tok - 300, 0, 0, "pend")),
            _ => None,
        }
    }
    /// Put what happens into one of the user's spans.
    fn placed(&mut self, e: Option<Ev>) -> Option<Ev> {
        let mut e = e?;
        if self.p.md > 0 {
            match e.op.as_str() {
                // where xtra's spans are off and there is none of the user's, a handler is in the poller's
                "spoll" | "xpoll" => e.x = *self.r.pick(if self.p.md == 2 { &[1, 2, 3, 1] } else { &[0, 1, 2, 3] }),
                "dpoll" | "kpoll" | "dspan" => e.x = *self.r.pick(&[0, 1, 2, 3]),
                _ => {}
            }
        }
        Some(e)
    }
    /// The next event, something that can be done with what the bag holds.
    pub fn next(&mut self, b: &Bag) -> Option<Ev> {
        let e = self.some(b);
        self.placed(e)
    }
    fn some(&mut self, b: &Bag) -> Option<Ev> {
        if let Some(e) = self.queue.pop() {
            return Some(e);
        }
        if !self.woken.is_empty() && self.r.chance(self.p.follow) {
            let v: Vec<i32> = self.woken.iter().copied().collect();
            let t = *self.r.pick(&v);
            self.woken.remove(&t);
            if let Some(e) = self.step_of(t, b) {
                return Some(e);
            }
        }
        for _ in 0..60 {
            let op = wpick(&mut self.r, &self.p.w);
            if let Some(e) = self.make(&op, b) {
                return Some(e);
            }
        }
        None
    }
    pub fn saw(&mut self, e: &Ev, res: &str, wk: &[i32], b: &Bag) {
        for w in wk {
            self.woken.insert(*w);
        }
        if (e.op == "send" || e.op == "bcast") && self.r.chance(self.p.eager) {
            self.queue.push(Ev::new("spoll", e.a, 0, 0, "-"));
        }
        if e.op == "xstart" && self.r.chance(self.p.eager) {
            let x = self.sink(e.a);
            self.queue.push(x);
        }
        if e.op == "rnew" && self.r.chance(self.p.eager) {
            self.queue.push(Ev::new("rpoll", e.a, 0, 0, "-"));
        }
        if e.op == "rpoll" && res == "ready" && self.r.chance(self.p.eager) {
            let k = self.act();
            self.queue.push(Ev::new("dpoll", e.a, 0, 0, &k));
        }
        if e.op == "knew" && self.r.chance(self.p.eager) {
            let s = self.script();
            self.queue.push(Ev::new("kpoll", e.a, s, 0, "-"));
        }
        if e.op != "probe" && !b.adr.is_empty() && self.r.chance(self.p.probe) {
            let ids: Vec<i32> = b.adr.keys().copied().collect();
            let a = *self.r.pick(&ids);
            self.queue.push(Ev::new("probe", a, 0, 0, "-"));
        }
    }
    fn id<T>(&mut self, m: &std::collections::BTreeMap<i32, T>) -> i32 {
        if self.base == 0 {
            return fresh(m);
        }
        self.used += 1;
        self.base + self.used
    }
    fn make(&mut self, op: &str, b: &Bag) -> Option<Ev> {
        let adr: Vec<i32> = b.adr.keys().copied().collect();
        let addr_only: Vec<i32> = b.adr.iter().filter(|(_, h)| h.is_addr()).map(|x| *x.0).collect();
        let weak: Vec<i32> = b.adr.iter().filter(|(_, h)| h.is_weak_addr()).map(|x| *x.0).collect();
        let mbs: Vec<i32> = b.mbs.keys().copied().collect();
        let snd: Vec<i32> = b.snd.keys().copied().collect();
        let rcv: Vec<i32> = b.rcv.keys().copied().collect();
        let jn = b.joins();
        let tasks: Vec<i32> = b.tasks.keys().copied().collect();
        macro_rules! some {
            ($v:expr) => {{
                if $v.is_empty() {
                    return None;
                }
                *self.r.pick(&$v)
            }};
        }
        macro_rules! room {
            ($m:expr, $i:expr) => {
                if $m.len() >= self.p.lim[$i] || self.used >= 22 {
                    return None;
                }
            };
        }
        Some(match op {
            "aclone" | "adown" => {
                room!(adr, 0);
                let a = some!(adr);
                Ev::new(op, a, self.id(&b.adr), 0, "-")
            }
            "aup" => {
                room!(adr, 0);
                let a = some!(weak);
                Ev::new(op, a, self.id(&b.adr), 0, "-")
            }
            "mbaddr" => {
                room!(adr, 0);
                let a = some!(mbs);
                Ev::new(op, a, self.id(&b.adr), 0, "-")
            }
            "adrop" => Ev::new(op, some!(adr), 0, 0, "-"),
            "mclone" => {
                room!(mbs, 1);
                // ids are not reused: a receive may still hold a dropped mailbox
                let a = some!(mbs);
                self.nmbs += 1;
                let n = if self.base == 0 { self.nmbs } else { self.id(&b.mbs) };
                Ev::new(op, a, n, 0, "-")
            }
            "mdrop" => Ev::new(op, some!(mbs), 0, 0, "-"),
            "send" => {
                room!(snd, 2);
                let a = some!(adr);
                let mut k = self.r.pick(&self.p.sk).clone();
                if k.ends_with('s') && !b.strong[&a] {
                    k = if k == "ds" { "d".into() } else { "-".into() };
                }
                let p = *self.r.pick(&self.p.prios);
                self.nsnd += 1;
                let n = if self.base == 0 { self.nsnd } else { self.id(&b.snd) };
                Ev::new(op, n, a, p, &k)
            }
            "bcast" => {
                room!(snd, 2);
                let a = some!(addr_only);
                let mut k = self.r.pick(&self.p.bk).clone();
                if k == "s" && !b.strong[&a] {
                    k = "-".into();
                }
                let p = *self.r.pick(&self.p.prios);
                self.nsnd += 1;
                let n = if self.base == 0 { self.nsnd } else { self.id(&b.snd) };
                Ev::new(op, n, a, p, &k)
            }
            "spoll" | "sdrop" => Ev::new(op, some!(snd), 0, 0, "-"),
            "rnew" => {
                room!(rcv, 3);
                let m = some!(mbs);
                Ev::new(op, self.id(&b.rcv), m, 0, "-")
            }
            "rpoll" => {
                let v: Vec<i32> =
                    b.rcv.iter().filter(|(_, r)| matches!(r, Rcv::Fut(_))).map(|x| *x.0).collect();
                Ev::new(op, some!(v), 0, 0, "-")
            }
            "rdrop" => Ev::new(op, some!(rcv), 0, 0, "-"),
            "rcancel" => {
                let v: Vec<i32> =
                    b.rcv.iter().filter(|(_, r)| matches!(r, Rcv::Fut(_))).map(|x| *x.0).collect();
                Ev::new("rdrop", some!(v), 0, 0, "-")
            }
            "dpoll" => {
                let v: Vec<i32> =
                    b.rcv.iter().filter(|(_, r)| !matches!(r, Rcv::Fut(_))).map(|x| *x.0).collect();
                let a = some!(v);
                let k = self.act();
                Ev::new(op, a, 0, 0, &k)
            }
            "jnew" => {
                room!(jn, 4);
                let a = some!(adr);
                let n = self.id(&b.jn);
                Ev::new(op, n, a, 0, "-")
            }
            "cnew" => {
                room!(jn, 4);
                let a = some!(addr_only);
                let n = self.id(&b.jn);
                Ev::new(op, n, a, 0, "-")
            }
            "jpoll" => {
                let k = if self.r.chance(30) { "ret" } else { "pend" };
                Ev::new(op, some!(jn), 0, 0, k)
            }
            "jdrop" => Ev::new(op, some!(jn), 0, 0, "-"),
            "probe" => Ev::new(op, some!(adr), 0, 0, "-"),
            "knew" => {
                room!(b.tasks, 5);
                let m = some!(mbs);
                let k = self.r.pick(&self.p.kinds).clone();
                if cfg!(feature = "spawn") && !b.adr.values().any(|h| matches!(h, crate::world::H::S(_))) {
                    return None;
                }
                Ev::new(op, self.id(&b.tasks), m, 0, &k)
            }
            "kpoll" => {
                let a = some!(tasks);
                Ev::new(op, a, self.script(), 0, "-")
            }
            "kdrop" => Ev::new(op, some!(tasks), 0, 0, "-"),
            "dspan" => {
                let v: Vec<i32> =
                    b.rcv.iter().filter(|(_, r)| !matches!(r, Rcv::Fut(_))).map(|x| *x.0).collect();
                Ev::new(op, some!(v), 0, 0, "-")
            }
            "waits" => Ev::new(op, 0, 0, 0, "-"),
            "load" => {
                let v: Vec<i32> = b.messages().iter().map(|x| x.0).collect();
                let m = some!(v);
                let (k, i) = match self.r.below(4) {
                    0 => ("a", some!(adr)),
                    1 => ("m", some!(mbs)),
                    _ => ("s", some!(snd)),
                };
                Ev::new(op, m, i, 0, k)
            }
            "unload" => {
                let v = b.laden();
                Ev::new(op, some!(v), 0, 0, "-")
            }
            "xnew" => {
                room!(b.sk, 3);
                let a = some!(addr_only);
                Ev::new(op, self.id(&b.sk), a, 0, "-")
            }
            "xstart" => {
                room!(snd, 2);
                let v: Vec<i32> = b.sk.iter().filter(|x| x.1.rdy && !x.1.over).map(|x| *x.0).collect();
                let k = some!(v);
                self.nsnd += 1;
                Ev::new(op, k, self.nsnd, 0, "-")
            }
            "xpoll" => {
                let v: Vec<i32> = b.sk.iter().filter(|x| !x.1.over).map(|x| *x.0).collect();
                let k = some!(v);
                self.sink(k)
            }
            "xdrop" => {
                let v: Vec<i32> = b.sk.keys().copied().collect();
                Ev::new(op, some!(v), 0, 0, "-")
            }
            _ => panic!("profile has unknown op {op}"),
        })
    }
    /// Wind everything up: take what is queued, then let go of things one by one.
    pub fn drain(&mut self, b: &Bag) -> Option<Ev> {
        let e = self.finish(b);
        self.placed(e)
    }
    fn finish(&mut self, b: &Bag) -> Option<Ev> {
        if let Some(e) = self.queue.pop() {
            return Some(e);
        }
        let mut c: Vec<Ev> = vec![];
        for (i, r) in &b.rcv {
            match r {
                Rcv::Fut(_) => {
                    c.push(Ev::new("rpoll", *i, 0, 0, "-"));
                    c.push(Ev::new("rdrop", *i, 0, 0, "-"));
                }
                _ => {
                    let k = if self.r.chance(80) { "ret".into() } else { self.act() };
                    c.push(Ev::new("dpoll", *i, 0, 0, &k));
                }
            }
        }
        for i in b.snd.keys() {
            c.push(Ev::new("spoll", *i, 0, 0, "-"));
            if self.r.chance(25) {
                c.push(Ev::new("sdrop", *i, 0, 0, "-"));
            }
        }
        for i in b.joins() {
            c.push(Ev::new("jpoll", i, 0, 0, "pend"));
            if self.r.chance(20) {
                c.push(Ev::new("jdrop", i, 0, 0, "-"));
            }
        }
        for i in b.tasks.keys() {
            for _ in 0..2 {
                let s = self.script();
                c.push(Ev::new("kpoll", *i, s, 0, "-"));
            }
            if self.r.chance(15) && !cfg!(feature = "spawn") {
                c.push(Ev::new("kdrop", *i, 0, 0, "-"));
            }
        }
        for (i, s) in &b.sk {
            if !s.over {
                c.push(self.sink(*i));
            }
            if s.over || self.r.chance(20) {
                c.push(Ev::new("xdrop", *i, 0, 0, "-"));
            }
        }
        for i in b.laden() {
            c.push(Ev::new("unload", i, 0, 0, "-"));
        }
        for i in b.adr.keys() {
            c.push(Ev::new("probe", *i, 0, 0, "-"));
            c.push(Ev::new("adrop", *i, 0, 0, "-"));
        }
        for i in b.mbs.keys() {
            if b.rcv.len() < self.p.lim[3] {
                c.push(Ev::new("rnew", fresh(&b.rcv), *i, 0, "-"));
                c.push(Ev::new("rnew", fresh(&b.rcv), *i, 0, "-"));
            }
            if self.r.chance(15) {
                c.push(Ev::new("mdrop", *i, 0, 0, "-"));
            }
        }
        if c.is_empty() {
            return None;
        }
        Some(self.r.pick(&c).clone())
    }
}
