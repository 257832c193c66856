//! The state graph printed by TLC (see EmitState, EmitEdge in DaabCache.tla).
use crate::ctx::*;
use std::collections::HashMap;
use std::io::{BufRead, BufReader};

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    I(i64),
    S(String),
    T(Vec<Val>),
}
impl Val {
    pub fn i(&self) -> i64 {
        match self {
            Val::I(x) => *x,
            _ => panic!("not an integer: {:?}", self),
        }
    }
    pub fn t(&self) -> &[Val] {
        match self {
            Val::T(x) => x,
            _ => panic!("not a tuple: {:?}", self),
        }
    }
    pub fn s(&self) -> &str {
        match self {
            Val::S(x) => x,
            _ => panic!("not a string: {:?}", self),
        }
    }
}

pub struct Parser<'a> {
    pub s: &'a [u8],
    pub i: usize,
}
impl<'a> Parser<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b',') {
            self.i += 1;
        }
    }
    pub fn val(&mut self) -> Val {
        self.ws();
        let c = self.s[self.i];
        if c == b'<' {
            self.i += 2;
            let mut v = Vec::new();
            loop {
                self.ws();
                if self.s[self.i] == b'>' {
                    self.i += 2;
                    return Val::T(v);
                }
                v.push(self.val());
            }
        } else if c == b'\\' || c == b'"' {
            // \"text\" within a printed string
            let esc = c == b'\\';
            self.i += if esc { 2 } else { 1 };
            let st = self.i;
            while self.s[self.i] != b'"' && self.s[self.i] != b'\\' {
                self.i += 1;
            }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += if esc { 2 } else { 1 };
            Val::S(r)
        } else if c == b'T' {
            self.i += 4;
            Val::I(1)
        } else if c == b'F' {
            self.i += 5;
            Val::I(0)
        } else {
            let neg = c == b'-';
            if neg {
                self.i += 1;
            }
            let mut x = 0i64;
            let st = self.i;
            while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                x = x * 10 + (self.s[self.i] - b'0') as i64;
                self.i += 1;
            }
            assert!(self.i > st, "bad value at {}: {}", st, String::from_utf8_lossy(self.s));
            Val::I(if neg { -x } else { x })
        }
    }
    /// Skips a value, returning its text.
    pub fn span(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'<' => {
                    d += 1;
                    self.i += 2;
                }
                b'>' => {
                    d -= 1;
                    self.i += 2;
                    if d == 0 {
                        break;
                    }
                }
                _ => {
                    self.i += 1;
                    if d == 0 {
                        break;
                    }
                }
            }
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Get,
    DynRead,
    DynMut,
    Invalidate,
    Purge,
    LookupMut,
    GetMut,
    Keep,
    ClearArtifacts,
    ClearAll,
    Renew,
    Collect,
    Drop,
    Create,
    Unkeep,
    Resolve,
    SetState,
    RetOk,
    RetErr,
    Panic,
}
impl Op {
    /// Steps of the user which a running builder may take with another cache, too.
    pub fn of_user(self) -> bool {
        matches!(
            self,
            Op::Get | Op::DynRead | Op::DynMut | Op::Invalidate | Op::Purge | Op::ClearArtifacts | Op::ClearAll | Op::Renew
        )
    }
}
pub fn op_of(s: &str) -> Op {
    match s {
        "Get" => Op::Get,
        "DynRead" => Op::DynRead,
        "DynMut" => Op::DynMut,
        "Invalidate" => Op::Invalidate,
        "Purge" => Op::Purge,
        "LookupMut" => Op::LookupMut,
        "GetMut" => Op::GetMut,
        "Keep" => Op::Keep,
        "ClearArtifacts" => Op::ClearArtifacts,
        "ClearAll" => Op::ClearAll,
        "Renew" => Op::Renew,
        "Collect" => Op::Collect,
        "Drop" => Op::Drop,
        "Create" => Op::Create,
        "Unkeep" => Op::Unkeep,
        "Resolve" => Op::Resolve,
        "SetState" => Op::SetState,
        "RetOk" => Op::RetOk,
        "RetErr" => Op::RetErr,
        "Panic" => Op::Panic,
        _ => panic!("unknown label {}", s),
    }
}
impl Op {
    /// Is it a decision of a running builder (when one is running)?
    pub fn by_builder(self) -> bool {
        matches!(self, Op::Resolve | Op::SetState | Op::RetOk | Op::RetErr | Op::Panic)
    }
}
/// A label with its parameters as in the specification.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Label {
    pub op: Op,
    pub a: Vec<i64>,
}
impl Label {
    pub fn text(&self) -> String {
        format!("{:?}{:?}", self.op, self.a).replace(' ', "")
    }
}

pub struct St {
    pub art: Vec<Vec<(i64, i64)>>,
    pub dyn_: Vec<Vec<(i64, i64)>>,
    pub known: Vec<u64>,
    pub dep: Vec<Vec<u64>>,
    pub held: u64,
    pub kept: Vec<i64>,
    pub stk: Vec<(usize, usize)>,
    pub alive: u64,
    pub live: Vec<i64>,
    pub edges: Vec<u32>,
    pub text: String,
}
pub struct Edge {
    pub src: u32,
    pub dst: u32,
    pub lab: Label,
    pub out: Vec<Ev>,
}
pub struct Graph {
    pub n: usize,
    pub m: usize,
    pub k: i64,
    pub st: Vec<St>,
    pub edges: Vec<Edge>,
    pub init: u32,
    /// Shortest way from the initial state: the last edge.
    pub via: Vec<u32>,
    pub depth: u32,
    /// The program; index 0 is unused.
    pub prog: Vec<Prog>,
}

fn kcode(s: &str) -> i64 {
    match s {
        "ok" => OK,
        "er" => ER,
        "pa" => PA,
        "no" => NO,
        _ => panic!("{}", s),
    }
}
pub fn event(v: &Val) -> Ev {
    let t = v.t();
    let n = |i: usize| t.get(i).map(|x| x.i()).unwrap_or(0);
    match t[0].s() {
        "I" => ev("I", n(1), 0, 0),
        "B" => ev("B", n(1), n(2), 0),
        "R" => ev("R", kcode(t[1].s()), n(2), n(3)),
        "T" => ev("T", kcode(t[1].s()), n(2), n(3)),
        "V" => ev("V", n(1), n(2), 0),
        "DR" => ev("DR", n(1), n(2), 0),
        "DB" => ev("DB", n(1), n(2), 0),
        "DI" => ev("DI", n(1), 0, 0),
        "DC" => ev("DC", 0, 0, 0),
        x => panic!("unknown event {}", x),
    }
}

/// Builder slots in a bit mask.
fn bits(m: i64) -> Vec<usize> {
    (0..62).filter(|i| m >> i & 1 == 1).map(|i| i + 1).collect()
}

pub fn load(path: &str) -> Graph {
    let f = std::fs::File::open(path).expect("graph file");
    let mut rd = BufReader::with_capacity(1 << 20, f);
    let mut ids: HashMap<String, u32> = HashMap::new();
    let none = Prog { kind: Kind::User, inner: 0, owns: vec![], aowns: vec![], downs: vec![], def: false };
    let mut g =
        Graph { n: 0, m: 0, k: 0, st: vec![], edges: vec![], init: u32::MAX, via: vec![], depth: 0, prog: vec![none] };
    fn id(g: &mut Graph, ids: &mut HashMap<String, u32>, key: &str) -> u32 {
        if let Some(&i) = ids.get(key) {
            return i;
        }
        let v = Parser { s: key.as_bytes(), i: 0 }.val();
        let t = v.t();
        let pairs = |v: &Val| -> Vec<(i64, i64)> { v.t().iter().map(|x| (x.t()[0].i(), x.t()[1].i())).collect() };
        let mut st = St {
            art: vec![],
            dyn_: vec![],
            known: vec![],
            dep: vec![],
            held: t[1].i() as u64,
            kept: t[2].t().iter().map(|x| x.i()).collect(),
            stk: pairs(&t[3]).into_iter().map(|(a, b)| (a as usize, b as usize)).collect(),
            alive: 0,
            live: vec![],
            edges: vec![],
            text: key.to_string(),
        };
        for c in t[0].t() {
            let c = c.t();
            st.art.push(pairs(&c[0]));
            st.dyn_.push(pairs(&c[1]));
            st.known.push(c[2].i() as u64);
            st.dep.push(c[3].t().iter().map(|x| x.i() as u64).collect());
        }
        let i = g.st.len() as u32;
        g.st.push(st);
        ids.insert(key.to_string(), i);
        i
    }
    let mut line = Vec::new();
    loop {
        line.clear();
        if rd.read_until(b'\n', &mut line).expect("read") == 0 {
            break;
        }
        if !line.starts_with(b"\"<<\\\"") {
            continue;
        }
        while matches!(line.last(), Some(b'\n') | Some(b'"') | Some(b'\r')) {
            line.pop();
        }
        let mut p = Parser { s: &line[1..], i: 2 };
        let tag = p.val();
        if tag.s() == "P" {
            g.n = p.val().i() as usize;
            g.m = p.val().i() as usize;
            g.k = p.val().i();
            for b in p.val().t() {
                let b = b.t();
                g.prog.push(Prog {
                    kind: Kind::parse(b[0].s()),
                    inner: b[1].i() as usize,
                    owns: bits(b[2].i()),
                    aowns: bits(b[3].i()),
                    downs: bits(b[4].i()),
                    def: b[5].i() == 1,
                });
            }
            assert_eq!(g.prog.len(), g.n + 1);
        } else if tag.s() == "S" {
            let key = p.span().to_string();
            let first = g.st.is_empty() && g.init == u32::MAX;
            let i = id(&mut g, &mut ids, &key);
            if first {
                g.init = i;
            }
            g.st[i as usize].alive = p.val().i() as u64;
            g.st[i as usize].live = p.val().t().iter().map(|x| x.i()).collect();
        } else if tag.s() == "E" {
            let k1 = p.span().to_string();
            let lab = p.val();
            let out = p.val();
            let k2 = p.span().to_string();
            let src = id(&mut g, &mut ids, &k1);
            let dst = id(&mut g, &mut ids, &k2);
            let l = lab.t();
            let lab = Label { op: op_of(l[0].s()), a: l[1..].iter().map(|x| x.i()).collect() };
            let e = g.edges.len() as u32;
            g.edges.push(Edge { src, dst, lab, out: out.t().iter().map(event).collect() });
            g.st[src as usize].edges.push(e);
        }
    }
    assert!(g.n > 0, "no program in {}", path);
    assert!(g.init != u32::MAX, "no initial state in {}", path);
    // Breadth-first tree from the initial state.
    g.via = vec![u32::MAX; g.st.len()];
    let mut q = std::collections::VecDeque::new();
    let mut dist = vec![0u32; g.st.len()];
    q.push_back(g.init);
    let mut seen = vec![false; g.st.len()];
    seen[g.init as usize] = true;
    while let Some(x) = q.pop_front() {
        for &e in &g.st[x as usize].edges {
            let d = g.edges[e as usize].dst;
            if !seen[d as usize] {
                seen[d as usize] = true;
                dist[d as usize] = dist[x as usize] + 1;
                g.depth = g.depth.max(dist[d as usize]);
                g.via[d as usize] = e;
                q.push_back(d);
            }
        }
    }
    g
}
impl Graph {
    /// Edges leading to state s from the initial one.
    pub fn way(&self, mut s: u32) -> Vec<u32> {
        let mut v = vec![];
        while s != self.init {
            let e = self.via[s as usize];
            v.push(e);
            s = self.edges[e as usize].src;
        }
        v.reverse();
        v
    }
}
