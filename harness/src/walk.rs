//! Replays the state graph of the specification into the library: every transition is
//! taken at least once, events are compared after every step, and the projected state
//! whenever no builder is running.
use crate::ctx::*;
use crate::graph::*;
use crate::world::*;
use crate::Args;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const DIAG: bool = cfg!(feature = "diag");

#[derive(Clone, Debug)]
pub struct Div {
    pub what: &'static str,
    pub edge: u32,
    pub exp: Vec<String>,
    pub act: Vec<String>,
    pub obs: Vec<String>,
    pub panic: String,
    pub path: Vec<u32>,
    pub seed: u64,
    /// A running builder had used another cache in the same request.
    pub cross: bool,
}

/// Length of the very long path.
const LONG: usize = 70_000;

pub struct Walk {
    g: Arc<Graph>,
    cov: Arc<Vec<AtomicU32>>,
    left: Arc<AtomicU64>,
    pub cur: u32,
    pend: Option<u32>,
    plan: VecDeque<u32>,
    bind: HashMap<i64, i64>,
    div: Option<Div>,
    rng: u64,
    pub path: Vec<u32>,
    events: bool,
    boxed: bool,
    fixed: bool,
    long: bool,
    blind: bool,
    pub steps: u64,
    journal: Option<std::fs::File>,
    /// Steps until the next search for an edge not taken yet.
    cool: u32,
}

fn evs(g: &Graph, bind: &HashMap<i64, i64>, e: &Ev) -> String {
    let _ = g;
    let rev = |s: i64| -> String {
        if s == 0 {
            return "0".into();
        }
        bind.iter().find(|(_, v)| **v == s).map(|(k, _)| k.to_string()).unwrap_or_else(|| format!("#{}", s))
    };
    match e.k {
        "R" | "T" => format!(
            "{} {} {} {}",
            e.k,
            ["ok", "er", "pa", "no"][e.a as usize],
            if e.a == OK { rev(e.b) } else { e.b.to_string() },
            e.c
        ),
        "V" => format!("V {} {}", e.a, rev(e.b)),
        "DB" => format!("DB {} {}", e.a, rev(e.b)),
        _ => format!("{} {} {}", e.k, e.a, e.b),
    }
}
fn exps(e: &Ev) -> String {
    match e.k {
        "R" | "T" => format!("{} {} {} {}", e.k, ["ok", "er", "pa", "no"][e.a as usize], e.b, e.c),
        "V" | "DB" => format!("{} {} {}", e.k, e.a, e.b),
        _ => format!("{} {} {}", e.k, e.a, e.b),
    }
}

impl Walk {
    /// Is the actual artifact the one that the specification calls `sym` (in state `st`)?
    fn tok(&mut self, st: u32, sym: i64, act: i64) -> bool {
        if sym == 0 || act == 0 {
            return sym == act;
        }
        let g = self.g.clone();
        let b = (sym / g.k) as usize;
        if let Some(s) = self.bind.get(&sym) {
            return *s == act;
        }
        let Some(info) = with(|c| c.arts.get(&act).cloned()) else { return false };
        if self.bind.values().any(|v| *v == act) {
            return false;
        }
        let p = prog(b);
        let ok = if sym % g.k == 0 {
            info.konst && info.origin == b
        } else {
            match p.kind {
                Kind::User | Kind::Simple | Kind::Func | Kind::Func0 => info.origin == b && info.clone_of == 0 && !info.cfg && !info.konst,
                Kind::Config => info.cfg && info.origin == b,
                Kind::Clone => {
                    // The clone of what the inner builder holds, as far as that is known here.
                    info.clone_of != 0 && {
                        let inner: HashSet<i64> =
                            g.st[st as usize].art.iter().map(|a| a[p.inner - 1].0).filter(|t| *t != 0).collect();
                        inner.is_empty() || inner.iter().any(|t| self.tok(st, *t, info.clone_of))
                    }
                }
                _ => false,
            }
        };
        if ok {
            self.bind.insert(sym, act);
        }
        ok
    }
    fn same(&mut self, st: u32, e: &Ev, a: &Ev) -> bool {
        if e.k != a.k {
            return false;
        }
        match e.k {
            "R" | "T" => {
                e.a == a.a && e.c == a.c && if e.a == OK { self.tok(st, e.b, a.b) } else { e.b == a.b }
            }
            "V" => e.a == a.a && self.tok(st, e.b, a.b),
            "DB" => e.a == a.a && self.tok(st, e.b, a.b),
            _ => e == a,
        }
    }
    fn diverge(&mut self, what: &'static str, edge: u32, exp: Vec<String>, act: Vec<String>, obs: Vec<String>) {
        if self.div.is_none() {
            let mut cross = false;
            for e in self.path.iter().rev() {
                let ed = &self.g.edges[*e as usize];
                if self.g.st[ed.src as usize].stk.is_empty() {
                    break;
                }
                cross |= ed.lab.op.of_user();
            }
            self.div = Some(Div {
                cross,
                what,
                edge,
                exp,
                act,
                obs,
                panic: with(|c| c.last_panic.clone()),
                path: self.path.clone(),
                seed: 0,
            });
        }
    }
    /// Compares what has happened since the last decision with the specification.
    fn finish(&mut self) {
        let Some(e) = self.pend.take() else { return };
        let mut log = with(|c| std::mem::take(&mut c.log));
        if !self.events {
            log.retain(|x| !matches!(x.k, "DR" | "DB" | "DI" | "DC") && !(x.k == "X" && (2..=4).contains(&x.a)));
        }
        if self.div.is_some() {
            return;
        }
        let g = self.g.clone();
        let ed = &g.edges[e as usize];
        let exp: Vec<&Ev> =
            ed.out.iter().filter(|x| self.events || !matches!(x.k, "DR" | "DB" | "DI" | "DC")).collect();
        let ok = exp.len() == log.len() && (0..exp.len()).all(|i| self.same(ed.dst, exp[i], &log[i]));
        if !ok {
            let act = log.iter().map(|x| evs(&g, &self.bind, x)).collect();
            self.diverge("out", e, exp.iter().map(|x| exps(x)).collect(), act, vec![]);
        }
        self.cur = ed.dst;
        if ed.lab.op == Op::Create {
            // A new builder comes with a constant of its own.
            self.bind.remove(&(ed.lab.a[0] * g.k));
        }
        let live = &g.st[ed.dst as usize].live;
        let boxed = self.boxed;
        self.bind.retain(|k, _| live.contains(k) || (k % g.k == 0 && !boxed));
    }
    fn begin(&mut self, e: u32) {
        self.pend = Some(e);
        self.path.push(e);
        self.steps += 1;
        if self.cov[e as usize].fetch_add(1, Relaxed) == 0 {
            self.left.fetch_sub(1, Relaxed);
        }
        if let Some(j) = &mut self.journal {
            let ed = &self.g.edges[e as usize];
            let _ = writeln!(j, "{} {} | {}", e, ed.lab.text(), self.g.st[ed.src as usize].text);
        }
        with(|c| c.log.clear());
    }
    fn choose(&mut self) -> Option<u32> {
        let g = self.g.clone();
        if let Some(e) = self.plan.pop_front() {
            if g.edges[e as usize].src == self.cur {
                return Some(e);
            }
            self.plan.clear();
        }
        if self.fixed {
            return None;
        }
        let es = &g.st[self.cur as usize].edges;
        if es.is_empty() {
            return None;
        }
        let fresh: Vec<u32> = es.iter().copied().filter(|e| self.cov[*e as usize].load(Relaxed) == 0).collect();
        if !fresh.is_empty() {
            return Some(fresh[(rnd(&mut self.rng) >> 33) as usize % fresh.len()]);
        }
        self.cool = self.cool.saturating_sub(1);
        if self.left.load(Relaxed) > 0 && self.cool == 0 {
            // Head for the nearest edge not taken yet.
            let mut from: HashMap<u32, u32> = HashMap::new();
            let mut q = VecDeque::new();
            q.push_back(self.cur);
            from.insert(self.cur, u32::MAX);
            let mut n = 0;
            'bfs: while let Some(x) = q.pop_front() {
                n += 1;
                if n > 80 {
                    break;
                }
                for &e in &g.st[x as usize].edges {
                    if self.cov[e as usize].load(Relaxed) == 0 {
                        let mut p = VecDeque::new();
                        p.push_front(e);
                        let mut y = x;
                        while y != self.cur {
                            let b = from[&y];
                            p.push_front(b);
                            y = g.edges[b as usize].src;
                        }
                        self.plan = p;
                        break 'bfs;
                    }
                    let d = g.edges[e as usize].dst;
                    if let std::collections::hash_map::Entry::Vacant(v) = from.entry(d) {
                        v.insert(e);
                        q.push_back(d);
                    }
                }
            }
            if let Some(e) = self.plan.pop_front() {
                return Some(e);
            }
            self.cool = 12;
        }
        // The less visited of two random ones.
        let a = es[(rnd(&mut self.rng) >> 33) as usize % es.len()];
        let b = es[(rnd(&mut self.rng) >> 33) as usize % es.len()];
        let (ca, cb) = (self.cov[a as usize].load(Relaxed), self.cov[b as usize].load(Relaxed));
        let (a, b) = if ca <= cb { (a, b) } else { (b, a) };
        Some(if self.long && g.edges[a as usize].lab.op == Op::Renew { b } else { a })
    }
}
impl Driver for Walk {
    fn as_any(&mut self) -> &mut dyn std::any::Any {
        self
    }
    fn next(&mut self, _slot: usize) -> Cmd {
        self.finish();
        if self.div.is_some() {
            return Cmd::Abort;
        }
        let Some(e) = self.choose() else {
            self.plan.clear();
            return Cmd::Abort;
        };
        self.begin(e);
        let l = &self.g.edges[e as usize].lab;
        let a = |i: usize| l.a.get(i).copied().unwrap_or(0);
        match l.op {
            Op::Resolve => Cmd::Resolve { d: a(0) as usize, ip: a(1) != 0 },
            Op::SetState => Cmd::Set(a(0)),
            Op::RetOk => Cmd::RetOk,
            Op::RetErr => Cmd::RetErr,
            Op::Panic => Cmd::Panic(a(0)),
            Op::Drop => Cmd::Drop(a(0) as usize),
            Op::Create => Cmd::Create(a(0) as usize),
            o if o.of_user() => Cmd::Cross(l.clone()),
            o => panic!("step {:?} while a builder is running", o),
        }
    }
}

fn countable(g: &Graph, c: &Ctx, bind: &HashMap<i64, i64>, sym: i64) -> Option<bool> {
    if sym % g.k == 0 {
        return Some(false);
    }
    if let Some(i) = bind.get(&sym).and_then(|s| c.arts.get(s)) {
        return Some(!i.konst && !i.cfg);
    }
    let mut b = (sym / g.k) as usize;
    loop {
        match c.prog[b].kind {
            Kind::User | Kind::Simple | Kind::Func | Kind::Func0 => return Some(true),
            Kind::Const | Kind::Config => return Some(false),
            Kind::Redeem if c.prog[b].def => return None,
            _ => b = c.prog[b].inner,
        }
    }
}

/// Compares the observable state with state `cur`; returns differences.
fn check_state(w: &mut dyn World, d: &mut Walk, base: i64, blocks: i64) -> Vec<String> {
    let g = d.g.clone();
    let cur = d.cur;
    let st = &g.st[cur as usize];
    let mut r = vec![];
    let obs = match catch(|| w.obs()) {
        Caught::Done(o) => o,
        _ => {
            return vec![format!("panic:0:0:0:0")];
        }
    };
    for (ci, o) in obs.iter().enumerate() {
        let c = ci + 1;
        for b in 1..=g.n {
            if let Some(k) = o.known[b] {
                let e = st.known[ci] >> (b - 1) & 1 == 1;
                if k != e {
                    r.push(format!("known:{}:{}:{}:{}", c, b, e as u8, k as u8));
                }
            }
            if let Some(a) = o.art[b] {
                let (et, ev_) = st.art[ci][b - 1];
                let (at, av) = a.unwrap_or((0, 0));
                if !d.tok(cur, et, at) {
                    let rev = d.bind.iter().find(|(_, v)| **v == at).map(|(k, _)| *k).unwrap_or(if at == 0 { 0 } else { -at });
                    r.push(format!("art:{}:{}:{}:{}", c, b, et, rev));
                } else if ev_ != av {
                    r.push(format!("val:{}:{}:{}:{}", c, b, ev_, av));
                }
            }
            if let Some(a) = o.dyn_[b] {
                let (e0, e1) = st.dyn_[ci][b - 1];
                let (a0, a1) = a.unwrap_or((-1, 0));
                if e0 != a0 || !d.tok(cur, e1, a1) {
                    r.push(format!("dyn:{}:{}:{}:{}", c, b, e0, a0));
                }
            }
        }
        let e = st.known[ci].count_ones() as usize;
        if o.count != e {
            r.push(format!("count:{}:0:{}:{}", c, e, o.count as i64));
        }
    }
    for (serial, val) in w.kept() {
        // Kept artifacts: still there with the content they had.
        match st.kept.iter().find(|k| d.bind.get(k) == Some(&serial)) {
            Some(_) if val == 0 || val >= 10 => {}
            Some(k) => r.push(format!("kept:0:0:{}:{}", k, val)),
            None => r.push(format!("kept:0:0:0:{}", serial)),
        }
    }
    with(|c| {
        let mut exact = true;
        let mut want = 0i64;
        for t in &st.live {
            match countable(&g, c, &d.bind, *t) {
                Some(true) => {
                    want += 1;
                    if let Some(s) = d.bind.get(t) {
                        if !c.live_art.contains_key(s) {
                            r.push(format!("live_art:0:{}:{}:0", t / g.k, t));
                        }
                    }
                }
                Some(false) => {}
                None => exact = false,
            }
        }
        let have = c.live_art.len() as i64;
        if exact && have != want {
            r.push(format!("live_count:0:0:{}:{}", want, have));
        }
        for b in 1..=g.n {
            let k = c.prog[b].kind;
            if matches!(k, Kind::User | Kind::Func) {
                let e = st.dyn_.iter().filter(|x| x[b - 1] != (-1, 0)).count() as i64;
                let a = c.live_dyn.get(&b).copied().unwrap_or(0);
                if e != a {
                    r.push(format!("live_dyn:0:{}:{}:{}", b, e, a));
                }
            }
            if k.user_code() {
                let e = (st.alive >> (b - 1) & 1) as i64;
                let a = c.live_bld.get(&b).copied().unwrap_or(0);
                if e != a {
                    r.push(format!("bld:0:{}:{}:{}", b, e, a));
                }
            }
        }
        let known = st.known.iter().fold(st.alive, |x, y| x | y);
        let lim = (1..=g.n)
            .filter(|b| known >> (b - 1) & 1 == 1 && matches!(c.prog[*b].kind, Kind::User | Kind::Simple))
            .count() as i64;
        if blocks - base > lim {
            r.push(format!("mem:0:0:{}:{}", lim, blocks - base));
        }
        if c.double_drop {
            r.push("double_drop:0:0:0:0".to_string());
        }
    });
    if d.blind {
        r.retain(|o| !o.starts_with("live_") && !o.starts_with("bld") && !o.starts_with("mem"));
    }
    r
}

/// The cache at which an edge is about (0: it is about handles).
fn cache_of(g: &Graph, e: u32) -> usize {
    let ed = &g.edges[e as usize];
    match (ed.lab.op, g.st[ed.src as usize].stk.last()) {
        (Op::Drop | Op::Create | Op::Unkeep, _) => 0,
        (_, Some(f)) => f.1,
        _ => ed.lab.a[0] as usize,
    }
}

/// What remains of a path without the operations on other caches, and without those on
/// earlier caches in its place.
fn project(g: &Graph, path: &[u32]) -> Option<Vec<u32>> {
    let c = match path.iter().rev().map(|e| cache_of(g, *e)).find(|c| *c != 0) {
        Some(c) => c,
        None => return None,
    };
    let from = path.iter().rposition(|e| g.edges[*e as usize].lab.op == Op::Renew && cache_of(g, *e) == c);
    if from == Some(path.len() - 1) {
        return None;
    }
    let (mut cur, mut r) = (g.init, vec![]);
    for (i, e) in path.iter().enumerate() {
        let k = cache_of(g, *e);
        if k != 0 && (k != c || from.map_or(false, |f| i <= f)) {
            continue;
        }
        let l = &g.edges[*e as usize].lab;
        let n = *g.st[cur as usize].edges.iter().find(|x| {
            let y = &g.edges[**x as usize].lab;
            y.op == l.op && y.a == l.a
        })?;
        r.push(n);
        cur = g.edges[n as usize].dst;
    }
    Some(r)
}

/// A collection may remove more unreachable builders at once than the specification's.
fn benign_gc(g: &Graph, e: u32, obs: &[String]) -> bool {
    let ed = &g.edges[e as usize];
    if ed.lab.op != Op::Collect {
        return false;
    }
    let src = &g.st[ed.src as usize];
    let ci = (ed.lab.a[0] - 1) as usize;
    // Unreachable builders on which nothing reachable depends.
    let mut needed = src.known[ci] & src.alive;
    loop {
        let mut n = needed;
        for u in 0..g.n {
            if n >> u & 1 == 1 {
                n |= src.dep[ci][u];
            }
        }
        if n == needed {
            break;
        }
        needed = n;
    }
    let min = (src.known[ci] & needed).count_ones() as i64;
    !obs.is_empty()
        && obs.iter().all(|o| {
            let f: Vec<&str> = o.split(':').collect();
            let n = |i: usize| f[i].parse::<i64>().unwrap_or(0);
            match f[0] {
                "count" => n(1) as usize == ci + 1 && n(4) < n(3) && n(4) >= min,
                "live_dyn" => n(4) < n(3) && needed >> (n(2) - 1) & 1 == 0,
                "live_count" => n(4) < n(3),
                "live_art" => needed >> (n(2) - 1) & 1 == 0,
                "bld" => n(4) < n(3) && needed >> (n(2) - 1) & 1 == 0,
                _ => false,
            }
        })
        && obs.iter().any(|o| o.starts_with("count:"))
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))
}

struct Shared {
    g: Arc<Graph>,
    cov: Arc<Vec<AtomicU32>>,
    left: Arc<AtomicU64>,
    divs: Mutex<(BTreeMap<String, u64>, Vec<Div>)>,
    steps: AtomicU64,
    paths: AtomicU64,
    benign: AtomicU64,
    idle: AtomicU64,
    stop: AtomicBool,
    beat: Vec<AtomicU64>,
    sample: Mutex<Vec<String>>,
}

struct Conf {
    flavour: String,
    prog: Vec<Prog>,
    doc: u8,
    events: bool,
    acc: u8,
    form: u8,
    len: usize,
    seed: u64,
    end: Instant,
    cover_end: Instant,
    /// Do not look at what is still in memory.
    blind: bool,
}

fn run_path(cf: &Conf, sh: &Shared, rng: u64, fixed: Option<Vec<u32>>, journal: Option<std::fs::File>, long: Option<&AtomicU64>) -> u64 {
    let g = &sh.g;
    crate::alloc::begin(rng);
    let base = crate::alloc::live_blocks();
    with(|c| {
        c.reset();
        c.rng = rng | 1;
        c.prog = cf.prog.clone();
        c.acc_mode = cf.acc;
        c.form_mode = cf.form;
    });
    let mut w = crate::make_world(&cf.flavour, g.m, cf.doc);
    let mut plan: VecDeque<u32> = VecDeque::new();
    let isfixed = fixed.is_some();
    let mut r = rng.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    if let Some(f) = fixed {
        plan = f.into();
    } else if sh.left.load(Relaxed) > 0 {
        // Start with the way to an edge not taken yet.
        let n = g.edges.len();
        let st = (rnd(&mut r) >> 33) as usize % n;
        if let Some(e) = (0..n).map(|i| (st + i) % n).find(|e| sh.cov[*e].load(Relaxed) == 0) {
            plan = g.way(g.edges[e].src).into();
            plan.push_back(e as u32);
        }
    }
    set_driver(Box::new(Walk {
        g: g.clone(),
        cov: sh.cov.clone(),
        left: sh.left.clone(),
        cur: g.init,
        pend: None,
        plan,
        bind: HashMap::new(),
        div: None,
        rng: r,
        path: vec![],
        events: DIAG && cf.doc == 0 && cf.events,
        boxed: cf.flavour == "boxed",
        fixed: isfixed,
        long: long.is_some(),
        blind: cf.blind,
        steps: 0,
        journal,
        cool: 0,
    }));
    for b in 1..=g.n {
        if g.st[g.init as usize].held >> (b - 1) & 1 == 1 {
            w.create(b);
        }
    }
    let mut bad = false;
    let mut idles = 0;
    loop {
        let step = driver(|d: &mut Walk| {
            let end = d.path.len() >= if d.long { LONG } else { cf.len } && d.plan.is_empty();
            if end && !isfixed {
                return None;
            }
            let e = d.choose()?;
            d.begin(e);
            Some(g.edges[e as usize].lab.clone())
        });
        let Some(l) = step else { break };
        if let Some(b) = long {
            b.fetch_add(1, Relaxed);
        }
        match l.op {
            Op::Drop => w.drop_h(l.a[0] as usize),
            Op::Create => w.create(l.a[0] as usize),
            Op::Unkeep => {
                let s = driver(|d: &mut Walk| d.bind.get(&l.a[0]).copied().unwrap_or(0));
                w.unkeep(s)
            }
            _ => w.op(&l),
        }
        let (div, cut) = driver(|d: &mut Walk| {
            d.finish();
            (d.div.is_some(), with(|c| c.aborting))
        });
        if div {
            // What it has come to helps to tell what is broken.
            let blocks = crate::alloc::live_blocks();
            driver(|d: &mut Walk| {
                if !cut && g.st[d.cur as usize].stk.is_empty() {
                    let o = check_state(&mut *w, d, base, blocks);
                    if let Some(x) = &mut d.div {
                        x.obs = o;
                    }
                }
            });
            bad = true;
            break;
        }
        if cut {
            break;
        }
        let blocks = crate::alloc::live_blocks();
        let mut benign = false;
        driver(|d: &mut Walk| {
            let e = *d.path.last().unwrap();
            if !g.st[d.cur as usize].stk.is_empty() {
                d.diverge("idle", e, vec![], vec![], vec![]);
                bad = true;
                return;
            }
            let o = check_state(&mut *w, d, base, blocks);
            if !o.is_empty() {
                if benign_gc(g, e, &o) {
                    benign = true;
                } else {
                    d.diverge("obs", e, vec![], vec![], o);
                    bad = true;
                }
            }
        });
        idles += 1;
        if benign {
            sh.benign.fetch_add(1, Relaxed);
            bad = true; // no check of the teardown
            break;
        }
        if bad {
            break;
        }
    }
    w.teardown();
    drop(w);
    let blocks = crate::alloc::live_blocks();
    let (div, steps, path) = driver(|d: &mut Walk| {
        let cut = with(|c| c.aborting);
        if !bad && !cut && !cf.blind {
            let mut o = vec![];
            with(|c| {
                for s in c.live_art.keys() {
                    o.push(format!("leak_art:0:0:0:{}", s));
                }
                if c.live_art.is_empty() && c.all_art != 0 {
                    o.push(format!("leak_art:0:0:0:{}", -c.all_art));
                }
                for (b, n) in &c.live_dyn {
                    if *n != 0 {
                        o.push(format!("leak_dyn:0:{}:0:{}", b, n));
                    }
                }
                for (b, n) in &c.live_bld {
                    if *n != 0 {
                        o.push(format!("leak_bld:0:{}:0:{}", b, n));
                    }
                }
                if c.double_drop {
                    o.push("double_drop:0:0:0:0".into());
                }
            });
            if blocks != base {
                o.push(format!("leak_mem:0:0:0:{}", blocks - base));
            }
            if !o.is_empty() {
                let e = d.path.last().copied().unwrap_or(0);
                d.diverge("teardown", e, vec![], vec![], o);
            }
        }
        (d.div.take(), d.steps, std::mem::take(&mut d.path))
    });
    clear_driver();
    sh.steps.fetch_add(steps, Relaxed);
    sh.paths.fetch_add(1, Relaxed);
    sh.idle.fetch_add(idles, Relaxed);
    {
        let mut s = sh.sample.lock().unwrap();
        if s.len() < 2 && !isfixed {
            s.push(path.iter().take(40).map(|e| g.edges[*e as usize].lab.text()).collect::<Vec<_>>().join(" "));
        }
    }
    if let Some(mut d) = div {
        d.seed = rng;
        let sig = format!(
            "{:?}/{}/{}",
            g.edges[d.edge as usize].lab.op,
            d.what,
            d.obs.iter().map(|o| o.split(':').next().unwrap_or("")).collect::<Vec<_>>().join(",")
        );
        let mut x = sh.divs.lock().unwrap();
        let n = x.0.entry(sig).or_insert(0);
        *n += 1;
        if *n <= 40 {
            x.1.push(d);
        }
        let total: u64 = x.0.values().sum();
        if total > 3000 {
            sh.stop.store(true, Relaxed);
        }
    }
    steps
}

fn report(cf: &Conf, sh: &Shared, out: &str, hang: Option<String>) {
    let g = &sh.g;
    let covered = sh.cov.iter().filter(|x| x.load(Relaxed) > 0).count();
    let mut s = String::new();
    s.push_str(&format!(
        "{{\"flavour\":{},\"diag\":{},\"doc\":{},\"states\":{},\"edges\":{},\"covered\":{},\"depth\":{},\"steps\":{},\"idle_states\":{},\"paths\":{},\"benign_gc\":{},\"reused\":{},\"hang\":{},\"samples\":{},",
        js(&cf.flavour), DIAG, cf.doc, g.st.len(), g.edges.len(), covered, g.depth,
        sh.steps.load(Relaxed), sh.idle.load(Relaxed), sh.paths.load(Relaxed), sh.benign.load(Relaxed),
        crate::alloc::reused_total(),
        hang.map(|h| js(&h)).unwrap_or("null".into()), jl(&sh.sample.lock().unwrap()),
    ));
    let d = sh.divs.lock().unwrap();
    s.push_str("\"signatures\":{");
    s.push_str(&d.0.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    s.push_str("},\"divs\":[");
    let mut first = true;
    for x in &d.1 {
        if !first {
            s.push(',');
        }
        first = false;
        let e = &g.edges[x.edge as usize];
        s.push_str(&format!(
            "{{\"what\":{},\"op\":{},\"args\":{:?},\"src\":{},\"dst\":{},\"exp\":{},\"act\":{},\"obs\":{},\"panic\":{},\"cross\":{},\"seed\":{},\"path\":{:?},\"labels\":{}}}",
            js(x.what),
            js(&format!("{:?}", e.lab.op)),
            e.lab.a,
            js(&g.st[e.src as usize].text),
            js(&g.st[e.dst as usize].text),
            jl(&x.exp),
            jl(&x.act),
            jl(&x.obs),
            js(&x.panic),
            x.cross,
            x.seed,
            x.path,
            jl(&x.path.iter().map(|e| g.edges[*e as usize].lab.text()).collect::<Vec<_>>()),
        ));
    }
    s.push_str("]}");
    std::fs::write(out, s).expect("write report");
}

pub fn main(a: &Args) {
    let g = Arc::new(load(&a.s("graph", "")));
    let prog = g.prog.clone();
    let threads = a.n("threads", 4) as usize;
    let sh = Arc::new(Shared {
        cov: Arc::new((0..g.edges.len()).map(|_| AtomicU32::new(0)).collect()),
        left: Arc::new(AtomicU64::new(g.edges.len() as u64)),
        g,
        divs: Mutex::new((BTreeMap::new(), vec![])),
        steps: AtomicU64::new(0),
        paths: AtomicU64::new(0),
        benign: AtomicU64::new(0),
        idle: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        beat: (0..threads).map(|_| AtomicU64::new(0)).collect(),
        sample: Mutex::new(vec![]),
    });
    let now = Instant::now();
    let cf = Arc::new(Conf {
        flavour: a.s("flavour", "rc"),
        prog,
        doc: a.n("doc", 0) as u8,
        events: a.n("events", 1) == 1,
        acc: a.n("acc", 3) as u8,
        form: a.n("form", 9) as u8,
        len: a.n("len", 120) as usize,
        seed: a.n("seed", 1) as u64,
        end: now + Duration::from_secs_f64(a.f("secs", 2.0)),
        cover_end: now + Duration::from_secs_f64(a.f("maxsecs", 20.0)),
        blind: a.n("blind", 0) == 1,
    });
    let out = a.s("out", "/dev/stdout");
    let jpath = a.s("journal", "");
    if let Some(p) = a.0.get("path") {
        // Repeat one behaviour (given by its edges).
        let mut f: Vec<u32> = p.split(',').map(|x| x.parse().expect("edge")).collect();
        if a.n("project", 0) == 1 {
            match project(&sh.g, &f) {
                Some(x) if x.len() < f.len() => f = x,
                Some(_) => std::process::exit(5), // no other caches involved
                None => std::process::exit(6),
            }
        }
        let j = if jpath.is_empty() { None } else { Some(std::fs::File::create(&jpath).expect("journal")) };
        let mut j = j;
        for k in 0..a.n("times", 1) as u64 {
            run_path(&cf, &sh, a.n("pseed", 1) as u64 + 2 * k, Some(f.clone()), j.take(), None);
        }
        report(&cf, &sh, &out, None);
        return;
    }
    let live = Arc::new(AtomicU64::new(threads as u64));
    for t in 0..threads {
        let (sh, cf, live, jpath) = (sh.clone(), cf.clone(), live.clone(), jpath.clone());
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let mut r = cf.seed.wrapping_mul(0xD1342543DE82EF95).wrapping_add(t as u64 * 7919 + 1);
                let mut long = t == 0;
                loop {
                    let now = Instant::now();
                    let left = sh.left.load(Relaxed);
                    if sh.stop.load(Relaxed) || now > cf.cover_end || (left == 0 && !long && now > cf.end) {
                        break;
                    }
                    let j = if jpath.is_empty() { None } else { Some(std::fs::File::create(&jpath).expect("journal")) };
                    let seed = rnd(&mut r);
                    // One thread follows one very long path, too: counters must not run over.
                    let b = if long && left == 0 { Some(&sh.beat[t]) } else { None };
                    long &= b.is_none();
                    run_path(&cf, &sh, seed >> 1, None, j, b);
                    sh.beat[t].fetch_add(1, Relaxed);
                }
                sh.beat[t].store(u64::MAX, Relaxed);
                live.fetch_sub(1, Relaxed);
            })
            .expect("thread");
    }
    let mut last: Vec<(u64, Instant)> = (0..threads).map(|_| (0, Instant::now())).collect();
    while live.load(Relaxed) > 0 {
        std::thread::sleep(Duration::from_millis(20));
        for t in 0..threads {
            let b = sh.beat[t].load(Relaxed);
            if b != last[t].0 {
                last[t] = (b, Instant::now());
            } else if b != u64::MAX && last[t].1.elapsed() > Duration::from_secs(15) {
                report(&cf, &sh, &out, Some("no progress".into()));
                std::process::exit(4);
            }
        }
    }
    report(&cf, &sh, &out, None);
}
