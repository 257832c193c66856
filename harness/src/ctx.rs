//! Thread-local context shared by the driver, and the builders, artifacts and
//! states of the program under test: the event log, and ledgers of live values.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};


/// One observable event, or the result of an operation; see DaabCore.tla.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Ev {
    pub k: &'static str,
    pub a: i64,
    pub b: i64,
    pub c: i64,
}
pub fn ev(k: &'static str, a: i64, b: i64, c: i64) -> Ev {
    Ev { k, a, b, c }
}
pub const OK: i64 = 0;
pub const ER: i64 = 1;
pub const PA: i64 = 2;
pub const NO: i64 = 3;

/// What a running builder is told to do next.
#[derive(Clone, Debug)]
pub enum Cmd {
    Resolve { d: usize, ip: bool },
    Set(i64),
    RetOk,
    RetErr,
    /// Drop the user's handle of a builder, or create the builder (anew).
    Drop(usize),
    Create(usize),
    /// Use another cache.
    Cross(crate::graph::Label),
    /// Panic, unwinding that many further user builders.
    Panic(i64),
    /// Give up this run.
    Abort,
}

/// Panic payloads of the harness.
pub struct Abort;
pub struct Unwind(pub i64);

#[derive(Clone, Debug)]
pub struct ArtInfo {
    pub origin: usize,
    pub clone_of: i64,
    pub konst: bool,
    pub cfg: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    User,
    Simple,
    Func,
    Func0,
    Fwd,
    Clone,
    Feign,
    Redeem,
    Const,
    Config,
}
impl Kind {
    pub fn parse(s: &str) -> Kind {
        match s {
            "user" => Kind::User,
            "simple" => Kind::Simple,
            "func" => Kind::Func,
            "func0" => Kind::Func0,
            "fwd" => Kind::Fwd,
            "clone" => Kind::Clone,
            "feign" => Kind::Feign,
            "redeem" => Kind::Redeem,
            "const" => Kind::Const,
            "config" => Kind::Config,
            _ => panic!("unknown kind {}", s),
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Kind::User => "user",
            Kind::Simple => "simple",
            Kind::Func => "func",
            Kind::Func0 => "func0",
            Kind::Fwd => "fwd",
            Kind::Clone => "clone",
            Kind::Feign => "feign",
            Kind::Redeem => "redeem",
            Kind::Const => "const",
            Kind::Config => "config",
        }
    }
    pub fn user_code(self) -> bool {
        matches!(self, Kind::User | Kind::Simple | Kind::Func | Kind::Func0)
    }
}
/// A builder slot of the program, see `p` in DaabCore.tla.
#[derive(Clone, Debug)]
pub struct Prog {
    pub kind: Kind,
    pub inner: usize,
    pub owns: Vec<usize>,
    pub aowns: Vec<usize>,
    pub downs: Vec<usize>,
    pub def: bool,
}
pub fn prog(b: usize) -> Prog {
    with(|c| c.prog[b].clone())
}

#[derive(Default)]
pub struct Ctx {
    /// Index 0 is unused.
    pub prog: Vec<Prog>,
    pub log: Vec<Ev>,
    pub rng: u64,
    pub serial: i64,
    pub err_serial: i64,
    pub last_err: i64,
    pub arts: HashMap<i64, ArtInfo>,
    /// Live artifacts, with the number of values bearing that serial (always 1).
    pub live_art: BTreeMap<i64, i64>,
    /// Values of type artifact of whatever origin.
    pub all_art: i64,
    pub live_dyn: BTreeMap<usize, i64>,
    pub live_bld: BTreeMap<usize, i64>,
    pub double_drop: bool,
    pub created: Vec<i64>,
    pub ip: bool,
    pub aborting: bool,
    pub last_panic: String,
    /// Caches being used, as bits.
    pub busy: u64,
    /// 0..=2 fixed accessor form, 3 mixed
    pub acc_mode: u8,
    /// 0.. fixed handle form, 9 mixed
    pub form_mode: u8,
    pub track: bool,
    /// Nasty debug text for builders and artifacts.
    pub nasty: u8,
    /// Running user builders.
    pub frames: usize,
    pub notes: Vec<String>,
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}
pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(&mut c.borrow_mut()))
}
pub fn log(e: Ev) {
    with(|c| c.log.push(e))
}

pub fn rnd(x: &mut u64) -> u64 {
    // xorshift*
    if *x == 0 {
        *x = 0x9E3779B97F4A7C15;
    }
    *x ^= *x >> 12;
    *x ^= *x << 25;
    *x ^= *x >> 27;
    x.wrapping_mul(0x2545F4914F6CDD1D)
}
impl Ctx {
    pub fn rand(&mut self, n: usize) -> usize {
        ((rnd(&mut self.rng) >> 33) as usize) % n.max(1)
    }
    pub fn reset(&mut self) {
        self.log.clear();
        self.serial = 0;
        self.err_serial = 0;
        self.last_err = 0;
        self.arts.clear();
        self.live_art.clear();
        self.all_art = 0;
        self.live_dyn.clear();
        self.live_bld.clear();
        self.created.clear();
        self.double_drop = false;
        self.ip = false;
        self.aborting = false;
        self.last_panic.clear();
        self.busy = 0;
        self.notes.clear();
        self.frames = 0;
        self.track = true;
    }
    pub fn acc(&mut self, first: u8) -> u8 {
        if self.acc_mode == 3 {
            first + (self.rand((3 - first) as usize) as u8)
        } else {
            self.acc_mode.max(first)
        }
    }
    pub fn form(&mut self, n: usize) -> usize {
        if self.form_mode == 9 {
            self.rand(n)
        } else {
            (self.form_mode as usize).min(n - 1)
        }
    }
    fn new_art(&mut self, origin: usize, clone_of: i64, konst: bool, cfg: bool) -> i64 {
        self.serial += 1;
        self.all_art += 1;
        let s = self.serial;
        self.arts.insert(s, ArtInfo { origin, clone_of, konst, cfg });
        if !konst && !cfg {
            self.live_art.insert(s, 1);
            self.created.push(s);
        }
        s
    }
}
pub fn new_art(origin: usize, clone_of: i64, konst: bool, cfg: bool) -> i64 {
    with(|c| c.new_art(origin, clone_of, konst, cfg))
}
pub fn drop_art(serial: i64) {
    let _ = CTX.try_with(|c| {
        if let Ok(mut c) = c.try_borrow_mut() {
            c.all_art -= 1;
            let counted = match c.arts.get(&serial) {
                Some(i) => !i.konst && !i.cfg,
                None => false,
            };
            if counted && c.live_art.remove(&serial).is_none() {
                c.double_drop = true;
            }
        }
    });
}
pub fn count(which: fn(&mut Ctx) -> &mut BTreeMap<usize, i64>, slot: usize, d: i64) {
    let _ = CTX.try_with(|c| {
        if let Ok(mut c) = c.try_borrow_mut() {
            if c.track {
                *which(&mut c).entry(slot).or_insert(0) += d;
            }
        }
    });
}

/// A counted value: builder structs and dynamic states carry one.
#[derive(Debug)]
pub struct Tally {
    pub slot: usize,
    pub dyn_: bool,
}
impl Tally {
    pub fn new(slot: usize, dyn_: bool) -> Self {
        count(if dyn_ { |c| &mut c.live_dyn } else { |c| &mut c.live_bld }, slot, 1);
        Tally { slot, dyn_ }
    }
}
impl Drop for Tally {
    fn drop(&mut self) {
        count(if self.dyn_ { |c| &mut c.live_dyn } else { |c| &mut c.live_bld }, self.slot, -1);
    }
}

/// Counts the running user builders.
pub struct Frame;
impl Frame {
    pub fn enter() -> Self {
        with(|c| c.frames += 1);
        Frame
    }
}
impl Drop for Frame {
    fn drop(&mut self) {
        with(|c| c.frames = c.frames.saturating_sub(1));
    }
}
