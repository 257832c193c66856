//! Replays the state graph of a small specification (Can.tla, Handles.tla) into the library:
//! every transition is taken at least once, its result and everything that can be observed
//! afterwards are compared with the specification.
use crate::graph::{Parser, Val};
use crate::Args;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub trait Sut {
    /// Carries a step out; `exp` is the result which the specification gives.
    fn step(&mut self, op: &str, a: &[i64], exp: &[i64], rng: &mut Rng) -> Vec<i64>;
    /// Everything that can be seen, in the layout of the specification's observation.
    fn observe(&mut self) -> Val;
    fn end(&mut self) {}
}

pub struct Rng(pub u64);
impl Rng {
    pub fn n(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 % n as u64) as usize
    }
}

struct Edge {
    src: u32,
    dst: u32,
    op: String,
    a: Vec<i64>,
    out: Vec<i64>,
}
struct Graph {
    text: Vec<String>,
    obs: Vec<Val>,
    out: Vec<Vec<u32>>,
    inn: Vec<Vec<u32>>,
    edges: Vec<Edge>,
    init: u32,
}

fn ints(v: &Val) -> Vec<i64> {
    v.t().iter().map(|x| x.i()).collect()
}

fn load(path: &str) -> Graph {
    let mut rd = BufReader::with_capacity(1 << 20, std::fs::File::open(path).expect("graph file"));
    let mut g = Graph { text: vec![], obs: vec![], out: vec![], inn: vec![], edges: vec![], init: u32::MAX };
    let mut ids: HashMap<String, u32> = HashMap::new();
    fn id(g: &mut Graph, ids: &mut HashMap<String, u32>, k: &str) -> u32 {
        if let Some(i) = ids.get(k) {
            return *i;
        }
        let i = g.text.len() as u32;
        g.text.push(k.to_string());
        g.obs.push(Val::I(-7));
        g.out.push(vec![]);
        g.inn.push(vec![]);
        ids.insert(k.to_string(), i);
        i
    }
    let mut line = Vec::new();
    loop {
        line.clear();
        if rd.read_until(b'\n', &mut line).expect("read") == 0 {
            break;
        }
        if !line.starts_with(b"\"<<\\\"") {
            continue;
        }
        while matches!(line.last(), Some(b'\n') | Some(b'"') | Some(b'\r')) {
            line.pop();
        }
        let mut p = Parser { s: &line[1..], i: 2 };
        let tag = p.val();
        if tag.s() == "S" {
            let k = p.span().to_string();
            let i = id(&mut g, &mut ids, &k);
            if g.init == u32::MAX {
                g.init = i;
            }
            g.obs[i as usize] = p.val();
        } else if tag.s() == "E" {
            let k1 = p.span().to_string();
            let lab = p.val();
            let out = p.val();
            let k2 = p.span().to_string();
            let src = id(&mut g, &mut ids, &k1);
            let dst = id(&mut g, &mut ids, &k2);
            let e = g.edges.len() as u32;
            let l = lab.t();
            g.edges.push(Edge { src, dst, op: l[0].s().to_string(), a: l[1..].iter().map(|x| x.i()).collect(), out: ints(&out) });
            g.out[src as usize].push(e);
            g.inn[dst as usize].push(e);
        }
    }
    assert!(g.init != u32::MAX, "no initial state in {}", path);
    assert!(g.obs.iter().all(|o| *o != Val::I(-7)), "state without observation in {}", path);
    g
}

fn show(v: &Val) -> String {
    match v {
        Val::I(x) => x.to_string(),
        Val::S(s) => s.clone(),
        Val::T(t) => format!("<{}>", t.iter().map(show).collect::<Vec<_>>().join(" ")),
    }
}

struct Div {
    what: &'static str,
    edge: u32,
    exp: String,
    act: String,
    path: Vec<u32>,
}

struct Shared {
    cov: Vec<AtomicBool>,
    left: AtomicU64,
    steps: AtomicU64,
    paths: AtomicU64,
    divs: Mutex<Vec<Div>>,
    sigs: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    stop: AtomicBool,
}

fn label(g: &Graph, e: u32) -> String {
    let e = &g.edges[e as usize];
    format!("{}{:?}", e.op, e.a).replace(' ', "")
}

/// How far each state is from an edge not taken yet; refreshed now and then.
struct Field {
    dist: Vec<u32>,
    age: u32,
}
impl Field {
    fn refresh(&mut self, g: &Graph, sh: &Shared) {
        self.age = 0;
        self.dist = vec![u32::MAX; g.text.len()];
        let mut q = VecDeque::new();
        for (x, o) in g.out.iter().enumerate() {
            if o.iter().any(|e| !sh.cov[*e as usize].load(Relaxed)) {
                self.dist[x] = 0;
                q.push_back(x as u32);
            }
        }
        while let Some(x) = q.pop_front() {
            for &e in &g.inn[x as usize] {
                let y = g.edges[e as usize].src;
                if self.dist[y as usize] == u32::MAX {
                    self.dist[y as usize] = self.dist[x as usize] + 1;
                    q.push_back(y);
                }
            }
        }
    }
    /// An edge not taken yet, or one leading towards such.
    fn choose(&mut self, g: &Graph, sh: &Shared, x: u32, rng: &mut Rng) -> Option<u32> {
        self.age += 1;
        if self.dist.is_empty() {
            self.refresh(g, sh);
        }
        let o = &g.out[x as usize];
        let k = rng.n(o.len());
        let all = || (0..o.len()).map(|i| o[(i + k) % o.len()]);
        if let Some(e) = all().find(|e| !sh.cov[*e as usize].load(Relaxed)) {
            return Some(e);
        }
        if self.dist[x as usize] == 0 && self.age > 300 {
            self.refresh(g, sh);
        }
        if self.dist[x as usize] == u32::MAX {
            return None;
        }
        if self.dist[x as usize] == 0 {
            return Some(o[k]);
        }
        all().min_by_key(|e| self.dist[g.edges[*e as usize].dst as usize])
    }
}

fn one_path(g: &Graph, sh: &Shared, mk: &dyn Fn() -> Box<dyn Sut>, rng: &mut Rng, len: usize, deadline: Instant, field: &mut Field, journal: &mut Option<std::fs::File>) {
    let mut sut = mk();
    let mut cur = g.init;
    let mut path: Vec<u32> = vec![];
    sh.paths.fetch_add(1, Relaxed);
    let mut check = |sut: &mut Box<dyn Sut>, e: Option<u32>, st: u32, path: &Vec<u32>| -> bool {
        let r = catch_unwind(AssertUnwindSafe(|| sut.observe()));
        let (what, act) = match &r {
            Ok(o) if *o == g.obs[st as usize] => return true,
            Ok(o) => ("state", show(o)),
            Err(_) => ("panic", "panicked when observed".to_string()),
        };
        report(g, sh, what, e.unwrap_or(0), show(&g.obs[st as usize]), act, path);
        false
    };
    if !check(&mut sut, None, cur, &path) {
        std::mem::forget(sut);
        return;
    }
    while path.len() < len {
        if g.out[cur as usize].is_empty() || sh.stop.load(Relaxed) {
            break;
        }
        let e = if sh.left.load(Relaxed) > 0 && rng.n(16) != 0 {
            match field.choose(g, sh, cur, rng) {
                Some(e) => e,
                None => break,
            }
        } else if Instant::now() > deadline {
            break;
        } else {
            let o = &g.out[cur as usize];
            o[rng.n(o.len())]
        };
        if !sh.cov[e as usize].swap(true, Relaxed) {
            sh.left.fetch_sub(1, Relaxed);
        }
        let ed = &g.edges[e as usize];
        if let Some(j) = journal {
            let _ = writeln!(j, "{} | {}", label(g, e), g.text[ed.src as usize]);
        }
        path.push(e);
        sh.steps.fetch_add(1, Relaxed);
        let r = catch_unwind(AssertUnwindSafe(|| sut.step(&ed.op, &ed.a, &ed.out, rng)));
        match r {
            Ok(o) if o == ed.out => {}
            Ok(o) => {
                report(g, sh, "out", e, format!("{:?}", ed.out), format!("{:?}", o), &path);
                std::mem::forget(sut);
                return;
            }
            Err(p) => {
                let t = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                report(g, sh, "panic", e, format!("{:?}", ed.out), t, &path);
                std::mem::forget(sut);
                return;
            }
        }
        cur = ed.dst;
        if !check(&mut sut, Some(e), cur, &path) {
            std::mem::forget(sut);
            return;
        }
    }
    let mut s = sh.samples.lock().unwrap();
    if s.len() < 2 && path.len() > 10 {
        s.push(path.iter().take(40).map(|e| label(g, *e)).collect::<Vec<_>>().join(" "));
    }
    drop(s);
    sut.end();
}
fn report(g: &Graph, sh: &Shared, what: &'static str, e: u32, exp: String, act: String, path: &[u32]) {
    let sig = format!("{}/{}", g.edges[e as usize].op, what);
    {
        let mut s = sh.sigs.lock().unwrap();
        *s.entry(sig).or_insert(0) += 1;
        if s.values().sum::<u64>() > 400 {
            sh.stop.store(true, Relaxed);
        }
    }
    let mut d = sh.divs.lock().unwrap();
    let same = d.iter().filter(|x| x.what == what && g.edges[x.edge as usize].op == g.edges[e as usize].op).count();
    if same < 3 {
        d.push(Div { what, edge: e, exp, act, path: path.to_vec() });
    }
}

pub fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            c if (c as u32) < 32 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

pub fn main(args: &Args) {
    let g = load(&args.s("graph", ""));
    let kind = args.s("sut", "");
    let len = args.n("len", 120) as usize;
    let secs = args.f("secs", 1.0);
    let maxsecs = args.f("maxsecs", 60.0);
    let threads = args.n("threads", 4) as usize;
    let seed = args.n("seed", 1) as u64;
    let journal = args.s("journal", "");
    let nh = args.n("nh", 3) as usize;
    let nv = args.n("nv", 2) as usize;
    let nt = args.n("nt", 3) as usize;
    let sh = Shared {
        cov: (0..g.edges.len()).map(|_| AtomicBool::new(false)).collect(),
        left: AtomicU64::new(g.edges.len() as u64),
        steps: AtomicU64::new(0),
        paths: AtomicU64::new(0),
        divs: Mutex::new(vec![]),
        sigs: Mutex::new(BTreeMap::new()),
        samples: Mutex::new(vec![]),
        stop: AtomicBool::new(false),
    };
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(secs);
    let end = t0 + Duration::from_secs_f64(maxsecs);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (g, sh, kind, journal) = (&g, &sh, &kind, &journal);
            s.spawn(move || {
                let mut rng = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(t as u64 * 7919 + 1) | 1);
                let mk = || crate::suts::make(kind, nh, nv, nt);
                let mut field = Field { dist: vec![], age: 0 };
                loop {
                    let now = Instant::now();
                    if sh.stop.load(Relaxed) || now > end || (now > deadline && sh.left.load(Relaxed) == 0) {
                        break;
                    }
                    let mut j = if journal.is_empty() { None } else { std::fs::File::create(journal).ok() };
                    crate::alloc::begin(rng.n(1 << 30) as u64);
                    let l = 5 + rng.n(len);
                    one_path(g, sh, &mk, &mut rng, l, deadline, &mut field, &mut j);
                }
            });
        }
    });
    let mut o = String::new();
    o += &format!(
        "{{\"states\":{},\"edges\":{},\"covered\":{},\"steps\":{},\"paths\":{},\"secs\":{:.2},\"samples\":[{}],\"signatures\":{{{}}},\"divs\":[",
        g.text.len(),
        g.edges.len(),
        g.edges.len() as u64 - sh.left.load(Relaxed),
        sh.steps.load(Relaxed),
        sh.paths.load(Relaxed),
        t0.elapsed().as_secs_f64(),
        sh.samples.lock().unwrap().iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
        sh.sigs.lock().unwrap().iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
    );
    let d = sh.divs.lock().unwrap();
    o += &d
        .iter()
        .map(|d| {
            let e = &g.edges[d.edge as usize];
            format!(
                "{{\"what\":{},\"op\":{},\"args\":{:?},\"src\":{},\"exp\":{},\"act\":{},\"labels\":[{}]}}",
                js(d.what),
                js(&e.op),
                e.a,
                js(&g.text[e.src as usize]),
                js(&d.exp),
                js(&d.act),
                d.path.iter().map(|e| js(&label(&g, *e))).collect::<Vec<_>>().join(",")
            )
        })
        .collect::<Vec<_>>()
        .join(",");
    o += "]}";
    std::fs::write(args.s("out", "/dev/stdout"), o).expect("report");
}
