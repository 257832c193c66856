//! Records random runs of random programs, to be checked by TLC against DaabTrace.
use crate::ctx::*;
use crate::graph::*;
use crate::world::*;
use crate::Args;
use std::io::Write;

pub const K: i64 = 1_000_000;

fn name(serial: i64) -> i64 {
    if serial == 0 {
        return 0;
    }
    with(|c| match c.arts.get(&serial) {
        Some(i) if i.clone_of != 0 => serial,
        Some(i) if i.konst => i.origin as i64 * K,
        Some(i) => i.origin as i64 * K + serial,
        None => -serial,
    })
}
fn event(e: &Ev) -> String {
    match e.k {
        "R" | "T" => {
            let k = ["ok", "er", "pa", "no"][e.a as usize];
            let t = if e.a == OK { name(e.b) } else { e.b };
            format!("[\"{}\",\"{}\",{},{}]", e.k, k, t, e.c)
        }
        "V" => format!("[\"V\",{},{}]", e.a, name(e.b)),
        "DB" => format!("[\"DB\",{},{}]", e.a, name(e.b)),
        "I" | "DI" => format!("[\"{}\",{}]", e.k, e.a),
        "B" | "DR" => format!("[\"{}\",{},{}]", e.k, e.a, e.b),
        "DC" => "[\"DC\"]".to_string(),
        _ => format!("[\"{}\",{},{},{}]", e.k, e.a, e.b, e.c),
    }
}

pub struct Rec {
    out: Vec<u8>,
    pend: Option<Label>,
    rng: u64,
    pub steps: usize,
    budget: usize,
    n: usize,
    m: usize,
    panics: bool,
    /// Per cent of resolutions among the decisions of a builder.
    wide: usize,
    /// Little is removed, so that many builders are known at once.
    calm: bool,
    /// Builders come and go quickly.
    churn: bool,
    /// Much is built, and low builders are invalidated, so that much is discarded at once.
    grow: bool,
    /// Whether the running build has resolved something, in such a run.
    did: Vec<bool>,
    /// Builders mostly resolve the one before, so that builds are deeply nested.
    deep: bool,
    pub held: Vec<bool>,
    ever: Vec<bool>,
    base: i64,
    events: bool,
    journal: Option<std::fs::File>,
    /// Cached artifacts last seen (cache, slot, serial), and those the user has kept.
    seen: Vec<(i64, i64, i64)>,
    kept: Vec<i64>,
    /// Steps of the final phase that remain.
    last: usize,
}
static PROGRESS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl Rec {
    fn r(&mut self, n: usize) -> usize {
        ((rnd(&mut self.rng) >> 33) as usize) % n.max(1)
    }
    fn begin(&mut self, l: Label) {
        PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if let Some(j) = &mut self.journal {
            let a: Vec<String> = l.a.iter().map(|x| x.to_string()).collect();
            writeln!(j, "{:?} {}", l.op, a.join(" ")).expect("journal");
        }
        self.pend = Some(l);
        self.steps += 1;
        with(|c| {
            c.log.clear();
            c.created.clear();
        });
    }
    /// Writes the line of the last decision.
    fn finish(&mut self, obs: Option<(Vec<CObs>, Vec<(i64, i64)>)>) {
        let Some(l) = self.pend.take() else { return };
        let (log, created) = with(|c| {
            let live = &c.live_art;
            let cr: Vec<i64> = c.created.iter().copied().filter(|s| live.contains_key(s)).collect();
            (std::mem::take(&mut c.log), cr)
        });
        let names: Vec<String> = created.iter().map(|s| name(*s).to_string()).collect();
        let evs: Vec<String> = log
            .iter()
            .filter(|x| self.events || !(matches!(x.k, "DR" | "DB" | "DI" | "DC") || x.k == "X" && (2..=4).contains(&x.a)))
            .map(event)
            .collect();
        let mut line = format!(
            "{{\"l\":[\"{:?}\"{}],\"e\":{},\"n\":[{}],\"o\":[{}],\"q\":{}",
            l.op,
            l.a.iter().map(|x| format!(",{}", x)).collect::<String>(),
            self.events as u8,
            names.join(","),
            evs.join(","),
            obs.is_some() as u8
        );
        if let Some((o, kept)) = obs {
            self.seen.clear();
            for (c, o) in o.iter().enumerate() {
                for b in 1..o.known.len() {
                    if let Some(Some((t, _))) = o.art[b] {
                        self.seen.push((c as i64 + 1, b as i64, t));
                    }
                }
            }
            let ks: Vec<String> = kept.iter().map(|(s, v)| format!("[{},{}]", name(*s), v)).collect();
            let cs: Vec<String> = o
                .iter()
                .map(|o| {
                    let hs: Vec<String> = (1..o.known.len())
                        .filter(|b| o.known[*b].is_some())
                        .map(|b| {
                            let (t, v) = o.art[b].unwrap().unwrap_or((0, 0));
                            let (d, dt) = o.dyn_[b].unwrap().unwrap_or((-1, 0));
                            format!("[{},{},{},{},{},{}]", b, o.known[b].unwrap() as u8, name(t), v, d, name(dt))
                        })
                        .collect();
                    format!("[{},[{}]]", o.count as i64, hs.join(","))
                })
                .collect();
            let (la, lb, ld, z) = with(|c| {
                let la: Vec<i64> = c.live_art.keys().copied().collect();
                let lb: Vec<String> = c.live_bld.iter().filter(|x| *x.1 > 0).map(|x| x.0.to_string()).collect();
                let ld: Vec<String> =
                    c.live_dyn.iter().filter(|x| *x.0 < 1000).map(|x| format!("[{},{}]", x.0, x.1)).collect();
                (la, lb, ld, c.double_drop)
            });
            let la: Vec<String> = la.iter().map(|s| name(*s).to_string()).collect();
            line.push_str(&format!(
                ",\"x\":{{\"c\":[{}],\"a\":[{}],\"b\":[{}],\"d\":[{}],\"m\":{},\"z\":{},\"k\":[{}]}}",
                cs.join(","),
                la.join(","),
                lb.join(","),
                ld.join(","),
                crate::alloc::live_blocks() - self.base,
                z as u8,
                ks.join(",")
            ));
        }
        line.push_str("}\n");
        self.out.extend_from_slice(line.as_bytes());
    }
    fn creatable(&mut self) -> Option<usize> {
        let v: Vec<usize> = (1..=self.n)
            .filter(|b| {
                let p = prog(*b);
                !self.ever[*b]
                    && p.owns.iter().all(|d| self.held[*d])
                    && (p.inner == 0 || self.held[p.inner])
            })
            .collect();
        if v.is_empty() {
            None
        } else {
            // Mostly the first ones, so that dependencies become available.
            let k = self.r(3.min(v.len()));
            Some(v[k])
        }
    }
}
impl Driver for Rec {
    fn as_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
    fn next(&mut self, slot: usize) -> Cmd {
        if with(|c| c.aborting) {
            return Cmd::Abort;
        }
        self.finish(None);
        let p = prog(slot);
        let frames = with(|c| c.frames) as i64;
        if self.steps > self.budget + 400 {
            self.begin(Label { op: Op::RetOk, a: vec![] });
            return Cmd::RetOk;
        }
        loop {
            let mut x = self.r(100);
            if self.wide > 0 {
                x = if self.r(100) < self.wide { 0 } else { 46 + x * 54 / 100 };
            }
            if self.grow {
                if x >= 46 && self.r(12) > 0 {
                    x = 99;
                }
                if !self.did[slot] {
                    x = 0;
                } else if x == 0 && self.r(3) > 0 {
                    x = 99;
                }
                self.did[slot] = x < 54;
            }
            if self.calm && (54..68).contains(&x) {
                x = if self.r(4) == 0 { x } else { 99 };
            }
            if x < 46 && !matches!(p.kind, Kind::Func | Kind::Func0) {
                let v: Vec<usize> = (1..slot).filter(|d| self.held[*d] || p.owns.contains(d)).collect();
                if v.is_empty() {
                    if self.wide > 0 {
                        self.begin(Label { op: Op::RetOk, a: vec![] });
                        return Cmd::RetOk;
                    }
                    continue;
                }
                let near: Vec<usize> = v.iter().rev().take(if self.calm { 2 } else { 5 }).copied().collect();
                let d = if self.deep && self.r(20) > 0 {
                    near[0]
                } else if self.r(2) == 0 {
                    near[self.r(near.len())]
                } else {
                    v[self.r(v.len())]
                };
                let ip = self.panics && self.r(if self.grow { 400 } else { 25 }) == 0;
                self.begin(Label { op: Op::Resolve, a: vec![d as i64, ip as i64] });
                return Cmd::Resolve { d, ip };
            } else if x < 54 && !matches!(p.kind, Kind::Simple | Kind::Func0) {
                let v = 1 + self.r(3) as i64;
                self.begin(Label { op: Op::SetState, a: vec![v] });
                return Cmd::Set(v);
            } else if x < 60 && p.kind != Kind::Simple {
                self.begin(Label { op: Op::RetErr, a: vec![] });
                return Cmd::RetErr;
            } else if x < 63 && self.panics {
                let n = 1 + self.r(frames as usize) as i64;
                self.begin(Label { op: Op::Panic, a: vec![n] });
                return Cmd::Panic(n);
            } else if x < 65 {
                if let Some(b) = (1..=self.n).rev().find(|b| self.held[*b] && *b != slot) {
                    self.held[b] = false;
                    self.begin(Label { op: Op::Drop, a: vec![b as i64] });
                    return Cmd::Drop(b);
                }
            } else if x < 68 {
                if let Some(b) = self.creatable() {
                    self.held[b] = true;
                    self.ever[b] = true;
                    self.begin(Label { op: Op::Create, a: vec![b as i64] });
                    return Cmd::Create(b);
                }
            } else if x < 72 && self.m > 1 {
                // Something with another cache.
                let free: Vec<i64> = (1..=self.m as i64).filter(|c| with(|x| x.busy >> c & 1 == 0)).collect();
                let hs: Vec<usize> = (1..=self.n).filter(|b| self.held[*b]).collect();
                if free.is_empty() || hs.is_empty() {
                    continue;
                }
                let c = free[self.r(free.len())];
                let b = hs[self.r(hs.len())] as i64;
                let ip = (self.panics && self.r(20) == 0) as i64;
                let l = match self.r(12) {
                    0..=5 => Label { op: Op::Get, a: vec![c, b, ip] },
                    6 => Label { op: Op::DynRead, a: vec![c, b, ip] },
                    7 => {
                        let v = 1 + self.r(3) as i64;
                        Label { op: Op::DynMut, a: vec![c, b, ip, v] }
                    }
                    8 | 9 => Label { op: Op::Invalidate, a: vec![c, b] },
                    10 => Label { op: Op::Purge, a: vec![c, b] },
                    _ if self.r(4) == 0 => Label { op: Op::ClearAll, a: vec![c] },
                    _ => Label { op: Op::ClearArtifacts, a: vec![c] },
                };
                self.begin(l.clone());
                return Cmd::Cross(l);
            } else if x >= 68 {
                self.begin(Label { op: Op::RetOk, a: vec![] });
                return Cmd::RetOk;
            }
        }
    }
}

fn gen_prog(r: &mut u64, n: usize, sharing: bool, wrappers: bool) -> Vec<Prog> {
    let mut rand = |n: usize| ((rnd(r) >> 33) as usize) % n.max(1);
    let none = Prog { kind: Kind::User, inner: 0, owns: vec![], aowns: vec![], downs: vec![], def: false };
    let mut v: Vec<Prog> = vec![none.clone()];
    let own = rand(3);
    for b in 1..=n {
        let mut p = none.clone();
        if wrappers && b > 2 && rand(4) == 0 {
            // A wrapper of something that can be wrapped that way.
            let i = 1 + rand(b - 1);
            let ik = v[i].kind;
            let inner_of = |x: usize| v[x].kind;
            let user = ik == Kind::User;
            let code = matches!(ik, Kind::User | Kind::Simple | Kind::Func | Kind::Func0);
            let clo_u = ik == Kind::Clone && inner_of(v[i].inner) == Kind::User;
            let fwd_u = ik == Kind::Fwd && inner_of(v[i].inner) == Kind::User;
            let red_u = ik == Kind::Redeem && inner_of(v[i].inner) == Kind::User;
            let k = [Kind::Fwd, Kind::Clone, Kind::Feign, Kind::Redeem][rand(4)];
            let ok = match k {
                Kind::Fwd => sharing && (code || ik == Kind::Const || clo_u || fwd_u || red_u),
                Kind::Clone => code || clo_u || (sharing && fwd_u),
                Kind::Feign => sharing && (ik == Kind::Simple || ik == Kind::Const || red_u),
                Kind::Redeem => sharing && (code || clo_u || fwd_u),
                _ => false,
            };
            let _ = user;
            if ok {
                p.kind = k;
                p.inner = i;
                p.def = k == Kind::Redeem && rand(2) == 0;
            }
        } else if wrappers {
            p.kind = match rand(8) {
                0 => Kind::Simple,
                1 => Kind::Func,
                2 if sharing => Kind::Const,
                3 => Kind::Func0,
                _ => Kind::User,
            };
        }
        if p.kind.user_code() && b > 1 && own > 0 {
            for _ in 0..rand(1 + own * 2) {
                let d = if rand(2) == 0 { b - 1 - rand(3.min(b - 1)) } else { 1 + rand(b - 1) };
                if !p.owns.contains(&d) {
                    p.owns.push(d);
                    if rand(3) == 0 {
                        p.aowns.push(d);
                    }
                    if rand(5) == 0 && p.kind == Kind::User {
                        p.downs.push(d);
                    }
                }
            }
        }
        v.push(p);
    }
    v
}

pub fn main(a: &Args) {
    let flavour = a.s("flavour", "rc");
    let sharing = flavour != "boxed";
    let n = a.n("n", 16) as usize;
    let m = a.n("m", 1) as usize;
    let runs = a.n("runs", 20);
    let len = a.n("len", 150) as usize;
    let muts = a.n("mut", 0) == 1;
    let wrappers = a.n("wrap", 1) == 1;
    let mut rng = (a.n("seed", 1) as u64).wrapping_mul(0xD1342543DE82EF95) | 1;
    let keeps = sharing && a.n("keep", 1) == 1;
    let doc = a.n("doc", 0) as u8;
    let mut f = std::io::BufWriter::new(std::fs::File::create(a.s("out", "/dev/stdout")).expect("out"));
    let jpath = a.s("journal", "");
    std::thread::spawn(|| {
        let now = || PROGRESS.load(std::sync::atomic::Ordering::Relaxed);
        let (mut last, mut idle) = (now(), 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let p = now();
            idle = if p == last { idle + 1 } else { 0 };
            last = p;
            if idle >= 60 {
                eprintln!("no progress");
                std::process::exit(4);
            }
        }
    });
    let mut total = 0;
    let mut hits: std::collections::BTreeMap<String, u64> = Default::default();
    for _ in 0..runs {
        let p = gen_prog(&mut rng, n, sharing && a.n("share", 1) == 1, wrappers);
        let seed = rnd(&mut rng) | 1;
        crate::alloc::begin(seed);
        let base = crate::alloc::live_blocks();
        with(|c| {
            c.reset();
            c.rng = seed;
            c.prog = p.clone();
            c.acc_mode = a.n("acc", 3) as u8;
            c.form_mode = a.n("form", 9) as u8;
        });
        let mut w = crate::make_world(&flavour, m, doc);
        // Some builders exist from the start.
        let mut held = vec![false; n + 1];
        for b in 1..=if a.n("grow", 0) == 1 { n } else { (n / 3).max(3).min(n) } {
            let ok = p[b].owns.iter().all(|d| held[*d]) && (p[b].inner == 0 || held[p[b].inner]);
            if ok {
                w.create(b);
                held[b] = true;
            }
        }
        let ps: Vec<String> = p[1..]
            .iter()
            .map(|p| {
                let l = |v: &Vec<usize>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                format!(
                    "[\"{}\",{},[{}],[{}],[{}],{}]",
                    p.kind.name(),
                    p.inner,
                    l(&p.owns),
                    l(&p.aowns),
                    l(&p.downs),
                    p.def as u8
                )
            })
            .collect();
        let hs: Vec<String> = (1..=n).filter(|b| held[*b]).map(|b| b.to_string()).collect();
        let head = format!("{{\"l\":[\"Prog\"],\"p\":[{}],\"h\":[{}]}}\n", ps.join(","), hs.join(","));
        let journal = if jpath.is_empty() {
            None
        } else {
            let mut j = std::fs::File::create(&jpath).expect("journal");
            j.write_all(head.as_bytes()).expect("journal");
            Some(j)
        };
        set_driver(Box::new(Rec {
            journal,
            out: head.into_bytes(),
            pend: None,
            rng: rnd(&mut rng) | 1,
            steps: 0,
            budget: len,
            n,
            m,
            panics: a.n("panics", 1) == 1,
            wide: a.n("wide", 0) as usize,
            calm: a.n("calm", 0) == 1,
            churn: a.n("churn", 0) == 1,
            grow: a.n("grow", 0) == 1,
            deep: a.n("deep", 0) == 1,
            did: vec![false; n + 1],
            ever: held.clone(),
            held,
            base,
            seen: vec![],
            kept: vec![],
            last: 1 + (n + 2) * m,
            events: crate::walk::DIAG && doc == 0 && a.n("events", 1) == 1,
        }));
        // Phases, so that both growth and decay happen.
        loop {
            let l = driver(|d: &mut Rec| {
                if d.steps >= d.budget || (!d.held.contains(&true) && d.creatable().is_none()) {
                    // At last everything is given up, and collected.
                    if d.last == 0 {
                        return None;
                    }
                    if let Some(b) = (1..=n).find(|b| d.held[*b]) {
                        d.held[b] = false;
                        let l = Label { op: Op::Drop, a: vec![b as i64] };
                        d.begin(l.clone());
                        return Some(l);
                    }
                    if let Some(s) = d.kept.pop() {
                        let l = Label { op: Op::Unkeep, a: vec![name(s)] };
                        d.begin(l.clone());
                        return Some(Label { op: Op::Unkeep, a: vec![s] });
                    }
                    d.last -= 1;
                    let l = Label { op: Op::Collect, a: vec![1 + (d.last % m) as i64] };
                    d.begin(l.clone());
                    return Some(l);
                }
                loop {
                    let hs: Vec<usize> = (1..=n).filter(|b| d.held[*b]).collect();
                    let c = 1 + d.r(m) as i64;
                    let mut x = d.r(100);
                    if d.calm && (54..=84).contains(&x) && d.r(8) != 0 {
                        x = [85, 0, 46][d.r(3)];
                    }
                    if d.churn && d.r(2) == 0 {
                        x = [67, 85, 0][d.r(3)];
                    }
                    if d.grow {
                        x = match d.r(100) {
                            0..=49 => 0,
                            50..=71 => 46,
                            72..=79 => 41,
                            80..=85 => 54,
                            86..=88 => 38,
                            89..=91 => 67,
                            92..=95 => 75,
                            96 => 64,
                            _ => 85,
                        };
                    }
                    if hs.is_empty() && x < 75 {
                        continue;
                    }
                    let hi = hs.len();
                    let b = if hi == 0 {
                        0
                    } else if if d.grow { x == 0 } else { d.r(3) > 0 } {
                        let k = d.r(4.min(hi));
                        hs[hi - 1 - k]
                    } else {
                        let k = d.r(hi);
                        hs[k]
                    } as i64;
                    let mut b = b;
                    if d.grow && matches!(x, 0 | 46 | 41 | 54) {
                        // What is not cached is requested, of what is cached something low is invalidated.
                        let cached: Vec<i64> = d.seen.iter().filter(|s| s.0 == c).map(|s| s.1).collect();
                        let v: Vec<i64> =
                            hs.iter().map(|b| *b as i64).filter(|b| cached.contains(b) != (x == 0)).collect();
                        if v.is_empty() {
                            continue;
                        }
                        let k = d.r(v.len());
                        let k = k.min(d.r(v.len()));
                        b = if x == 0 { v[v.len() - 1 - k] } else { v[k] };
                    }
                    let ip = (d.panics && d.r(if d.grow { 100 } else { 20 }) == 0) as i64;
                    let lab = match x {
                        0..=37 => Label { op: Op::Get, a: vec![c, b, ip] },
                        38..=40 => Label { op: Op::DynRead, a: vec![c, b, ip] },
                        41..=45 => {
                            let v = 1 + d.r(3) as i64;
                            Label { op: Op::DynMut, a: vec![c, b, ip, v] }
                        }
                        46..=53 => Label { op: Op::Invalidate, a: vec![c, b] },
                        54..=57 => Label { op: Op::Purge, a: vec![c, b] },
                        58..=60 if muts => Label { op: Op::LookupMut, a: vec![c, b] },
                        58..=61 if keeps && !d.seen.is_empty() => {
                            let k = d.r(d.seen.len());
                            let (c, b, t) = d.seen[k];
                            if d.kept.contains(&t) || !d.held[b as usize] {
                                continue;
                            }
                            d.kept.push(t);
                            Label { op: Op::Keep, a: vec![c, b] }
                        }
                        62..=63 if keeps && !d.kept.is_empty() => {
                            let k = d.r(d.kept.len());
                            let s = d.kept.remove(k);
                            d.begin(Label { op: Op::Unkeep, a: vec![name(s)] });
                            return Some(Label { op: Op::Unkeep, a: vec![s] });
                        }
                        61..=63 if muts => Label { op: Op::GetMut, a: vec![c, b, ip] },
                        64 => Label { op: Op::ClearArtifacts, a: vec![c] },
                        65 if d.r(4) == 0 => Label { op: Op::ClearAll, a: vec![c] },
                        66 if d.r(4) == 0 => Label { op: Op::Renew, a: vec![c] },
                        67..=74 => {
                            d.held[b as usize] = false;
                            Label { op: Op::Drop, a: vec![b] }
                        }
                        75..=84 => Label { op: Op::Collect, a: vec![c] },
                        85..=99 => match d.creatable() {
                            Some(b) => {
                                d.held[b] = true;
                                d.ever[b] = true;
                                Label { op: Op::Create, a: vec![b as i64] }
                            }
                            None => continue,
                        },
                        _ => continue,
                    };
                    d.begin(lab.clone());
                    return Some(lab);
                }
            });
            let Some(l) = l else { break };
            *hits.entry(format!("{:?}", l.op)).or_insert(0) += 1;
            match l.op {
                Op::Drop => w.drop_h(l.a[0] as usize),
                Op::Create => w.create(l.a[0] as usize),
                Op::Unkeep => w.unkeep(l.a[0]),
                _ => w.op(&l),
            }
            match catch(|| w.obs()) {
                Caught::Done(o) => {
                    let k = w.kept();
                    driver(|d: &mut Rec| d.finish(Some((o, k))))
                }
                _ => {
                    log(ev("X", 9, 0, 0));
                    driver(|d: &mut Rec| d.finish(Some((vec![], vec![]))));
                    break;
                }
            }
        }
        driver(|d: &mut Rec| {
            f.write_all(&d.out).expect("write");
            total += d.steps;
        });
        w.teardown();
        PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        clear_driver();
    }
    f.flush().expect("flush");
    println!("{{\"steps\":{},\"runs\":{},\"reused\":{},\"ops\":{:?}}}", total, runs, crate::alloc::reused_total(), hits);
}
