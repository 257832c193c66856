// Included once per flavour of the library, see main.rs.  In scope are `dm`, the
// flavour's module, and the macros noderef!, sharing!, dynform!, mutform!.
use crate::alloc::Pad;
use crate::ctx::*;
use crate::graph::{Label, Op};
use crate::world::*;
use daab::blueprint::Promise;
use daab::utils::{ClonedBuilder, FeigningBuilder, ForwardingBuilder, RedeemingBuilder};
use daab::*;
use std::any::Any;
use std::cell::RefCell;
use std::fmt;
use std::panic::resume_unwind;

type ACan = dm::CanType;
type BCan = dm::BuilderCan;
type ABin = dm::BinType<Art>;

/// A value of this type is an artifact, distinguishable from all others.
pub struct Art {
    pub serial: i64,
    pub val: i64,
    #[allow(dead_code)]
    owns: Vec<NodeRef>,
}
impl Art {
    fn new(origin: usize, val: i64, konst: bool, cfg: bool, owns: Vec<NodeRef>) -> Self {
        Art { serial: new_art(origin, 0, konst, cfg), val, owns }
    }
}
impl Clone for Art {
    fn clone(&self) -> Self {
        let i = with(|c| c.arts.get(&self.serial).cloned()).expect("artifact info");
        Art { serial: new_art(i.origin, self.serial, i.konst, i.cfg), val: self.val, owns: vec![] }
    }
}
impl Drop for Art {
    fn drop(&mut self) {
        drop_art(self.serial)
    }
}
impl fmt::Debug for Art {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Art#{}", self.serial)
    }
}

pub struct Dyn {
    pub v: i64,
    #[allow(dead_code)]
    tally: Tally,
    #[allow(dead_code)]
    owns: Vec<NodeRef>,
}
impl Dyn {
    fn new(slot: usize, v: i64, owns: Vec<NodeRef>) -> Self {
        Dyn { v, tally: Tally::new(slot, true), owns }
    }
}
impl Clone for Dyn {
    fn clone(&self) -> Self {
        // Only the prototype held by a functional builder is ever cloned by the library.
        let slot = if self.tally.slot > 1000 { self.tally.slot - 1000 } else { self.tally.slot };
        Dyn::new(slot, self.v, self.owns.iter().map(|n| n.dup()).collect())
    }
}
impl fmt::Debug for Dyn {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Dyn({})", self.v)
    }
}

#[derive(Debug)]
pub struct E {
    slot: usize,
    serial: i64,
}
impl E {
    fn raise(slot: usize) -> E {
        with(|c| {
            c.err_serial += 1;
            c.last_err = c.err_serial;
            E { slot, serial: c.err_serial }
        })
    }
}

pub trait DynRep {
    fn rep(&self) -> (i64, i64);
    fn put(&mut self, slot: usize, v: i64);
}
impl DynRep for Dyn {
    fn rep(&self) -> (i64, i64) {
        (self.v, 0)
    }
    fn put(&mut self, slot: usize, v: i64) {
        self.v = 10 * slot as i64 + v;
    }
}
impl DynRep for () {
    fn rep(&self) -> (i64, i64) {
        (0, 0)
    }
    fn put(&mut self, _: usize, _: i64) {}
}
impl DynRep for Option<ABin> {
    fn rep(&self) -> (i64, i64) {
        match self {
            Some(a) => (a.val, a.serial),
            None => (0, 0),
        }
    }
    fn put(&mut self, _: usize, _: i64) {
        *self = None;
    }
}
impl DynRep for Art {
    fn rep(&self) -> (i64, i64) {
        (self.val, 0)
    }
    fn put(&mut self, slot: usize, v: i64) {
        self.val = 10 * slot as i64 + v;
    }
}
pub trait ErrRep {
    fn rep(&self) -> (i64, i64);
}
impl ErrRep for E {
    fn rep(&self) -> (i64, i64) {
        (self.slot as i64, self.serial)
    }
}
impl ErrRep for Never {
    fn rep(&self) -> (i64, i64) {
        unreachable!()
    }
}

/// A handle of some builder, in whatever form.
pub trait Node: fmt::Debug {
    fn slot(&self) -> usize;
    fn id(&self) -> BuilderId;
    fn any(&self) -> &dyn Any;
    fn alt(&self, form: usize) -> NodeRef;
    fn get(&self, c: &mut dm::Cache, acc: u8) -> Got;
    fn lookup(&self, c: &dm::Cache, acc: u8) -> Option<(i64, i64)>;
    fn known(&self, c: &dm::Cache) -> bool;
    fn dyn_get(&self, c: &dm::Cache) -> Option<(i64, i64)>;
    fn dyn_read(&self, c: &mut dm::Cache) -> (i64, i64);
    fn dyn_mut(&self, c: &mut dm::Cache, v: i64) -> (i64, i64);
    fn invalidate(&self, c: &mut dm::Cache);
    fn purge(&self, c: &mut dm::Cache);
    fn get_mut(&self, c: &mut dm::Cache) -> Got;
    fn lookup_mut(&self, c: &mut dm::Cache) -> Option<(i64, i64)>;
    fn resolve_d(&self, r: &mut dm::Resolver<Dyn>, acc: u8) -> Got;
    fn resolve_u(&self, r: &mut dm::Resolver, acc: u8) -> Got;
    fn keep(&self, c: &dm::Cache) -> Option<ABin>;
    fn dup(&self) -> NodeRef {
        let f = with(|c| c.form(FORMS));
        self.alt(f)
    }
}
const FORMS: usize = if cfg!(feature = "unsz") { 4 } else { 2 };

pub struct N<P> {
    slot: usize,
    p: P,
    alt: fn(&P, usize, usize) -> NodeRef,
    inv: fn(&P, &mut dm::Cache),
}
impl<P> fmt::Debug for N<P> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "N{}", self.slot)
    }
}
fn got<B: std::ops::Deref<Target = Art>, Err: ErrRep>(r: Result<B, Err>) -> Got {
    match r {
        Ok(a) => Got::Ok(a.serial, a.val),
        Err(e) => {
            let (b, s) = e.rep();
            Got::Er(b, s)
        }
    }
}
fn got_cloned<Err: ErrRep>(r: Result<Art, Err>) -> Got {
    match r {
        Ok(a) => Got::Ok(original(&a), a.val),
        Err(e) => {
            let (b, s) = e.rep();
            Got::Er(b, s)
        }
    }
}
fn original(a: &Art) -> i64 {
    with(|c| c.arts.get(&a.serial).map(|i| i.clone_of).unwrap_or(-1))
}

impl<P, B: ?Sized> Node for N<P>
where
    P: Promise<Builder = B, BCan = BCan>,
    B: Builder<ACan, BCan, Artifact = Art> + 'static,
    B::DynState: DynRep,
    B::Err: ErrRep,
    BCan: canning::Can<B>,
    ACan: canning::Can<Art, Bin = ABin> + canning::CanSized<Art> + canning::CanRef<Art>,
{
    fn slot(&self) -> usize {
        self.slot
    }
    fn id(&self) -> BuilderId {
        self.p.id()
    }
    fn any(&self) -> &dyn Any {
        &self.p
    }
    fn alt(&self, form: usize) -> NodeRef {
        (self.alt)(&self.p, self.slot, form)
    }
    fn get(&self, c: &mut dm::Cache, acc: u8) -> Got {
        match acc {
            0 => sharing!((got(c.get(&self.p)))(got(c.get_ref(&self.p)))),
            1 => got(c.get_ref(&self.p)),
            _ => got_cloned(c.get_cloned(&self.p)),
        }
    }
    fn lookup(&self, c: &dm::Cache, acc: u8) -> Option<(i64, i64)> {
        match acc {
            0 => sharing!((c.lookup(&self.p).map(|a| (a.serial, a.val)))(c
                .lookup_ref(&self.p)
                .map(|a| (a.serial, a.val)))),
            1 => c.lookup_ref(&self.p).map(|a| (a.serial, a.val)),
            _ => c.lookup_cloned(&self.p).map(|a| (original(&a), a.val)),
        }
    }
    fn known(&self, c: &dm::Cache) -> bool {
        c.is_builder_known(&self.p)
    }
    fn dyn_get(&self, c: &dm::Cache) -> Option<(i64, i64)> {
        c.get_dyn_state(&self.p).map(|d| d.rep())
    }
    fn dyn_read(&self, c: &mut dm::Cache) -> (i64, i64) {
        c.dyn_state(&self.p).rep()
    }
    fn dyn_mut(&self, c: &mut dm::Cache, v: i64) -> (i64, i64) {
        let d = c.dyn_state_mut(&self.p);
        let r = d.rep();
        d.put(self.slot, v);
        r
    }
    fn invalidate(&self, c: &mut dm::Cache) {
        (self.inv)(&self.p, c)
    }
    fn purge(&self, c: &mut dm::Cache) {
        c.purge(&self.p)
    }
    fn get_mut(&self, c: &mut dm::Cache) -> Got {
        mutform!((match c.get_mut(&self.p) {
            Ok(a) => {
                let r = Got::Ok(a.serial, a.val);
                a.val = mut_val(a.val);
                r
            }
            Err(e) => {
                let (b, s) = e.rep();
                Got::Er(b, s)
            }
        })({
            let _ = c;
            unimplemented!()
        }))
    }
    fn lookup_mut(&self, c: &mut dm::Cache) -> Option<(i64, i64)> {
        mutform!((c.lookup_mut(&self.p).map(|a| {
            let r = (a.serial, a.val);
            a.val = mut_val(a.val);
            r
        }))({
            let _ = c;
            unimplemented!()
        }))
    }
    fn resolve_d(&self, r: &mut dm::Resolver<Dyn>, acc: u8) -> Got {
        match acc {
            0 => sharing!((got(r.resolve(&self.p)))(got(r.resolve_ref(&self.p)))),
            1 => got(r.resolve_ref(&self.p)),
            _ => got_cloned(r.resolve_cloned(&self.p)),
        }
    }
    fn resolve_u(&self, r: &mut dm::Resolver, acc: u8) -> Got {
        match acc {
            0 => sharing!((got(r.resolve(&self.p)))(got(r.resolve_ref(&self.p)))),
            1 => got(r.resolve_ref(&self.p)),
            _ => got_cloned(r.resolve_cloned(&self.p)),
        }
    }
    fn keep(&self, c: &dm::Cache) -> Option<ABin> {
        sharing!((c.lookup(&self.p))({
            let _ = c;
            None
        }))
    }
}

thread_local! {
    /// The user's handles, by slot.
    static HELD: RefCell<Vec<Option<NodeRef>>> = const { RefCell::new(Vec::new()) };
    static IDS: RefCell<std::collections::HashMap<BuilderId, usize>> = RefCell::new(Default::default());
}
fn held(b: usize) -> Option<NodeRef> {
    HELD.with(|h| h.borrow().get(b).and_then(|x| x.as_ref().map(|n| n.dup())))
}

// ---------------------------------------------------------------- builders

pub struct UB {
    slot: usize,
    #[allow(dead_code)]
    tally: Tally,
    owns: Vec<NodeRef>,
    #[allow(dead_code)]
    pad: Pad,
}
impl fmt::Debug for UB {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "UB{}", self.slot)
    }
}
/// A simple builder: no state, no error.
pub struct SB(UB);
impl fmt::Debug for SB {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "SB{}", self.0.slot)
    }
}

fn pick(owns: &[NodeRef], want: &[usize]) -> Vec<NodeRef> {
    want.iter()
        .filter_map(|b| owns.iter().find(|n| n.slot() == *b).map(|n| n.dup()).or_else(|| held(*b)))
        .collect()
}
impl UB {
    fn handle(&self, d: usize) -> NodeRef {
        self.owns
            .iter()
            .find(|n| n.slot() == d)
            .map(|n| n.dup())
            .or_else(|| held(d))
            .expect("a builder was told to resolve what it has no handle of")
    }
    fn artifact(&self) -> Art {
        Art::new(self.slot, 0, false, false, pick(&self.owns, &prog(self.slot).aowns))
    }
}
/// What is common to all running builders.
fn resolve_cmd(f: impl FnOnce(u8) -> Got, ip: bool) {
    let acc = with(|c| {
        c.ip = ip;
        c.acc(if SHARING { 0 } else { 1 })
    });
    match catch(|| f(acc)) {
        Caught::Done(g) => {
            with(|c| c.ip = false);
            log_got("R", &g)
        }
        Caught::Abort => resume_unwind(Box::new(Abort)),
        Caught::Unwind(n) if n > 0 => resume_unwind(Box::new(Unwind(n - 1))),
        Caught::Unwind(_) | Caught::LibPanic => {
            with(|c| c.ip = false);
            log(ev("R", PA, 0, 0))
        }
    }
}
fn panic_cmd(n: i64) -> ! {
    std::panic::panic_any(Unwind(n - 1))
}

impl dm::Builder for UB {
    type Artifact = Art;
    type DynState = Dyn;
    type Err = E;
    fn build(&self, r: &mut dm::Resolver<Dyn>) -> Result<dm::BinType<Art>, E> {
        let _frame = Frame::enter();
        let mut v0 = r.my_state().v;
        log(ev("B", self.slot as i64, v0, 0));
        loop {
            let cmd = next_cmd(self.slot);
            // Nobody but the running builder itself changes its state.
            if r.my_state().v != v0 {
                log(ev("X", 6, self.slot as i64, r.my_state().v));
            }
            match cmd {
                Cmd::Resolve { d, ip } => {
                    let h = self.handle(d);
                    resolve_cmd(|acc| h.resolve_d(r, acc), ip);
                }
                Cmd::Set(v) => {
                    v0 = 10 * self.slot as i64 + v;
                    r.my_state().v = v0
                }
                Cmd::RetOk => return Ok(<dm::BinType<Art>>::new(self.artifact())),
                Cmd::RetErr => return Err(E::raise(self.slot)),
                Cmd::Drop(b) => reg_drop(b),
                Cmd::Create(b) => reg_create(b),
                Cmd::Cross(l) => cross(&l),
                Cmd::Panic(n) => panic_cmd(n),
                Cmd::Abort => std::panic::panic_any(Abort),
            }
        }
    }
    fn init_dyn_state(&self) -> Dyn {
        log(ev("I", self.slot as i64, 0, 0));
        if with(|c| std::mem::take(&mut c.ip)) {
            std::panic::panic_any(Unwind(0));
        }
        Dyn::new(self.slot, 10 * self.slot as i64 + 1, pick(&self.owns, &prog(self.slot).downs))
    }
}
impl dm::SimpleBuilder for SB {
    type Artifact = Art;
    fn build(&self, r: &mut dm::Resolver) -> Art {
        let _frame = Frame::enter();
        log(ev("B", self.0.slot as i64, 0, 0));
        loop {
            match next_cmd(self.0.slot) {
                Cmd::Resolve { d, ip } => {
                    let h = self.0.handle(d);
                    resolve_cmd(|acc| h.resolve_u(r, acc), ip)
                }
                Cmd::RetOk => return self.0.artifact(),
                Cmd::Drop(b) => reg_drop(b),
                Cmd::Create(b) => reg_create(b),
                Cmd::Cross(l) => cross(&l),
                Cmd::Panic(n) => panic_cmd(n),
                Cmd::Abort => std::panic::panic_any(Abort),
                Cmd::Set(_) | Cmd::RetErr => unreachable!(),
            }
        }
    }
}

struct FnCap {
    slot: usize,
    #[allow(dead_code)]
    tally: Tally,
    owns: Vec<NodeRef>,
}
fn func_body(f: &FnCap, st: &mut Dyn) -> Result<ABin, E> {
    let _frame = Frame::enter();
    log(ev("B", f.slot as i64, st.v, 0));
    loop {
        match next_cmd(f.slot) {
            Cmd::Set(v) => st.v = 10 * f.slot as i64 + v,
            Cmd::RetOk => {
                return Ok(ABin::new(Art::new(f.slot, 0, false, false, pick(&f.owns, &prog(f.slot).aowns))))
            }
            Cmd::RetErr => return Err(E::raise(f.slot)),
            Cmd::Drop(b) => reg_drop(b),
            Cmd::Create(b) => reg_create(b),
            Cmd::Cross(l) => cross(&l),
            Cmd::Panic(n) => panic_cmd(n),
            Cmd::Abort => std::panic::panic_any(Abort),
            Cmd::Resolve { .. } => unreachable!(),
        }
    }
}
/// The same without a state.
fn func0_body(f: &FnCap) -> Result<ABin, E> {
    let _frame = Frame::enter();
    log(ev("B", f.slot as i64, 0, 0));
    loop {
        match next_cmd(f.slot) {
            Cmd::RetOk => {
                return Ok(ABin::new(Art::new(f.slot, 0, false, false, pick(&f.owns, &prog(f.slot).aowns))))
            }
            Cmd::RetErr => return Err(E::raise(f.slot)),
            Cmd::Drop(b) => reg_drop(b),
            Cmd::Create(b) => reg_create(b),
            Cmd::Cross(l) => cross(&l),
            Cmd::Panic(n) => panic_cmd(n),
            Cmd::Abort => std::panic::panic_any(Abort),
            Cmd::Set(_) | Cmd::Resolve { .. } => unreachable!(),
        }
    }
}
type FB0 = daab::utils::FunctionalBuilder<ACan, BCan, FnBox0, Art>;
type FB = daab::utils::FunctionalBuilder<ACan, BCan, FnBox, Art, Dyn>;
type Con = dm::ConstBuilder<Art>;
type Cfg = dm::ConfigurableBuilder<Art>;
type Fwd<X> = ForwardingBuilder<dm::Blueprint<X>>;
type Clo<X> = ClonedBuilder<dm::Blueprint<X>>;

/// A node of a builder of a concrete type.
macro_rules! node {
    ($slot:expr, $bp:expr, $X:ty) => {{
        fn alt(p: &dm::Blueprint<$X>, slot: usize, form: usize) -> NodeRef {
            match form {
                0 => typed!(p, slot, $X),
                1 => dynamic!(p, slot, $X),
                2 => unsized_typed!(p, slot, $X),
                _ => unsized_dyn!(p, slot, $X),
            }
        }
        let bp: dm::Blueprint<$X> = $bp;
        noderef!(N { slot: $slot, p: bp, alt, inv: |p, c| c.invalidate(p) })
    }};
}
macro_rules! plain {
    ($slot:expr, $p:expr, $P:ty, $inv:expr) => {{
        fn alt(p: &$P, slot: usize, form: usize) -> NodeRef {
            let _ = form;
            noderef!(N { slot, p: p.clone(), alt, inv: $inv })
        }
        let p: $P = $p;
        noderef!(N { slot: $slot, p, alt, inv: $inv })
    }};
}
macro_rules! typed {
    ($p:ident, $slot:ident, $X:ty) => {
        noderef!(N { slot: $slot, p: $p.clone(), alt, inv: |p: &dm::Blueprint<$X>, c: &mut dm::Cache| c.invalidate(p) })
    };
}
#[cfg(feature = "unsz")]
macro_rules! unsized_typed {
    ($p:ident, $slot:ident, $X:ty) => {
        plain!($slot, dm::BlueprintUnsized::<$X>::from($p.clone()), dm::BlueprintUnsized<$X>, |p, c| c.invalidate(p))
    };
}
#[cfg(not(feature = "unsz"))]
macro_rules! unsized_typed {
    ($p:ident, $slot:ident, $X:ty) => {
        typed!($p, $slot, $X)
    };
}
dynform!((
    type Dynamic<X> = dm::DynamicBlueprint<
        Art,
        <X as Builder<ACan, BCan>>::Err,
        <X as Builder<ACan, BCan>>::DynState,
    >;
    macro_rules! dynamic {
        ($p:ident, $slot:ident, $X:ty) => {
            if with(|c| c.rand(2)) == 0 {
                plain!($slot, Dynamic::<$X>::from_bp($p.clone()), Dynamic<$X>, |_, _| unreachable!())
            } else {
                plain!($slot, Dynamic::<$X>::from($p.clone()), Dynamic<$X>, |_, _| unreachable!())
            }
        };
    }
    #[cfg(feature = "unsz")]
    type DynUn<X> = dm::BlueprintUnsized<
        dyn Builder<
            ACan,
            BCan,
            Artifact = Art,
            DynState = <X as Builder<ACan, BCan>>::DynState,
            Err = <X as Builder<ACan, BCan>>::Err,
        >,
    >;
    #[cfg(feature = "unsz")]
    macro_rules! unsized_dyn {
        ($p:ident, $slot:ident, $X:ty) => {{
            let p: DynUn<$X> = match with(|c| c.rand(4)) {
                0 => DynUn::<$X>::from_sized_bp($p.clone()),
                1 => DynUn::<$X>::from_sized(dm::BlueprintUnsized::<$X>::from($p.clone())),
                2 => Dynamic::<$X>::from_bp($p.clone()).into_unsized(),
                _ => $p.clone().into_unsized(),
            };
            plain!($slot, p, DynUn<$X>, |_, _| unreachable!())
        }};
    }
    #[cfg(not(feature = "unsz"))]
    macro_rules! unsized_dyn {
        ($p:ident, $slot:ident, $X:ty) => {
            dynamic!($p, $slot, $X)
        };
    }
)(
    macro_rules! dynamic {
        ($p:ident, $slot:ident, $X:ty) => {
            typed!($p, $slot, $X)
        };
    }
    macro_rules! unsized_dyn {
        ($p:ident, $slot:ident, $X:ty) => {
            unsized_typed!($p, $slot, $X)
        };
    }
));

fn try_wrap(kind: Kind, slot: usize, inner: &dyn Any, owns: &[NodeRef]) -> Option<NodeRef> {
    let _ = owns;
    macro_rules! over {
        ($new:expr, $W:ident, $($X:ty),*) => {
            $( if let Some(i) = inner.downcast_ref::<dm::Blueprint<$X>>() {
                return Some(node!(slot, dm::Blueprint::new($new(i.clone())), $W<$X>));
            } )*
        };
    }
    match kind {
        Kind::Clone => {
            over!(ClonedBuilder::new::<ACan, BCan, _>, Clo, UB, SB, FB, FB0, Cfg, Con, Clo<UB>);
            sharing!(({
                over!(ClonedBuilder::new::<ACan, BCan, _>, Clo, Fwd<UB>, Red<UB>);
            })({}));
        }
        Kind::Fwd => sharing!(({
            over!(ForwardingBuilder::new::<ACan, BCan, _>, Fwd, UB, SB, FB, FB0, Cfg, Con, Clo<UB>, Fwd<UB>, Red<UB>);
        })({})),
        Kind::Feign => sharing!(({
            over!(FeigningBuilder::new::<ACan, BCan, _>, Fei, SB, Cfg, Con, Red<UB>);
        })({})),
        Kind::Redeem => sharing!(({
            let def = if prog(slot).def { Some(ABin::new(Art::new(slot, 0, true, false, vec![]))) } else { None };
            over!(
                |i| RedeemingBuilder::new::<ACan, BCan, _, _>(i, def.clone()),
                Red,
                UB,
                SB,
                FB,
                FB0,
                Clo<UB>,
                Fwd<UB>
            );
        })({})),
        _ => {}
    }
    None
}
sharing!((
    type Red<X> = RedeemingBuilder<dm::Blueprint<X>, ABin>;
    type Fei<X> = FeigningBuilder<dm::Blueprint<X>, E>;
)(
    #[allow(unused_imports)]
    use {FeigningBuilder as _, ForwardingBuilder as _, RedeemingBuilder as _};
));

fn reg_create(b: usize) {
    let p = prog(b);
    let owns: Vec<NodeRef> = p.owns.iter().map(|d| held(*d).expect("handle to own")).collect();
    let ub = |owns| UB { slot: b, tally: Tally::new(b, false), owns, pad: Pad::new() };
    let how = with(|c| c.rand(2));
    let n: NodeRef = match p.kind {
        Kind::User if how == 0 => node!(b, dm::Blueprint::new(ub(owns)), UB),
        Kind::User => node!(b, dm::Blueprint::from(ub(owns)), UB),
        Kind::Simple => node!(b, dm::Blueprint::new(SB(ub(owns))), SB),
        Kind::Func => {
            // The prototype of the state counts under a slot of its own.
            let proto = Dyn::new(b + 1000, 10 * b as i64 + 1, pick(&owns, &p.downs));
            let cap = FnCap { slot: b, tally: Tally::new(b, false), owns };
            let f: FnBox = Box::new(move |st: &mut Dyn| func_body(&cap, st));
            node!(b, dm::Blueprint::new(FB::with_state(proto, f)), FB)
        }
        Kind::Func0 => {
            let cap = FnCap { slot: b, tally: Tally::new(b, false), owns };
            let f: FnBox0 = Box::new(move |_: &mut ()| func0_body(&cap));
            node!(b, dm::Blueprint::new(FB0::new(f)), FB0)
        }
        Kind::Const => {
            let a = Art::new(b, 0, true, false, vec![]);
            if how == 0 {
                node!(b, dm::Blueprint::new(Con::new(ABin::new(a))), Con)
            } else {
                node!(b, dm::Blueprint::<Con>::from(a), Con)
            }
        }
        Kind::Config => {
            let a = Art::new(b, 10 * b as i64 + 1, false, true, vec![]);
            if how == 0 {
                node!(b, dm::Blueprint::new(Cfg::new(a)), Cfg)
            } else {
                node!(b, dm::Blueprint::<Cfg>::from(a), Cfg)
            }
        }
        k => {
            let inner = HELD.with(|h| h.borrow()[p.inner].as_ref().expect("inner handle").alt(0));
            try_wrap(k, b, inner.any(), &owns).unwrap_or_else(|| panic!("unsupported wrapper {:?} of {}", k, p.inner))
        }
    };
    IDS.with(|i| i.borrow_mut().insert(n.id(), b));
    HELD.with(|h| {
        let mut h = h.borrow_mut();
        if h.len() <= b {
            h.resize_with(b + 1, || None);
        }
        h[b] = Some(n);
    });
}
fn reg_drop(b: usize) {
    let n = HELD.with(|h| h.borrow_mut()[b].take());
    drop(n);
}

// ---------------------------------------------------------------- doctor

#[cfg(feature = "diag")]
pub mod doc {
    use super::*;
    use daab::diagnostics::*;
    use std::hash::{Hash, Hasher};
    /// Doctors are told apart by a number.
    pub struct LogDoc(pub i64);
    fn digest(x: &impl Hash) -> u64 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    }
    /// Handles are compared by the identity of what they denote.
    fn handles(b: &BuilderHandle<BCan>, same: bool, o: &BuilderHandle<BCan>) -> bool {
        (b == o) == same && (!same || digest(b) == digest(o))
    }
    fn slot(h: &BuilderHandle<BCan>) -> i64 {
        let b = IDS.with(|i| i.borrow().get(&h.id).copied()).unwrap_or(0);
        if h.id() != h.id || h.type_name.is_empty() {
            log(ev("X", 2, b as i64, 0));
        }
        let exp = match with(|c| c.prog.get(b).map(|p| p.kind)) {
            Some(Kind::User) => ("UB", format!("UB{}", b)),
            Some(Kind::Simple) => ("SB", format!("SB{}", b)),
            _ => return b as i64,
        };
        if exp.1 != h.dbg_text || !(h.type_name.ends_with(exp.0) || h.type_name.contains("dyn ")) {
            log(ev("X", 3, b as i64, 0));
        }
        b as i64
    }
    impl Doctor<ACan, BCan> for LogDoc {
        fn resolve(&mut self, b: &BuilderHandle<BCan>, used: &BuilderHandle<BCan>) {
            if !handles(b, true, b) || !handles(b, b.id == used.id, used) {
                log(ev("X", 2, slot(b), 0));
            }
            log(ev("DR", slot(b), slot(used), 0));
        }
        fn build(&mut self, b: &BuilderHandle<BCan>, a: &ArtifactHandle<ACan>) {
            let s = match (*a.value).downcast_ref::<Art>() {
                Some(art) => {
                    if a.dbg_text != format!("{:#?}", art) || a.type_name != std::any::type_name::<Art>() {
                        log(ev("X", 4, slot(b), 0));
                    }
                    art.serial
                }
                None => -1,
            };
            if a != a || digest(a) != digest(a) {
                log(ev("X", 4, slot(b), 1));
            }
            sharing!(({
                // Another handle of the same artifact, and one of another artifact.
                let x = a.clone();
                let y = ArtifactHandle::<ACan>::new::<i64>(dm::BinType::new(7));
                if x != *a || digest(&x) != digest(a) || y == *a {
                    log(ev("X", 4, slot(b), 2));
                }
            })({}));
            log(ev("DB", slot(b), s, 0));
        }
        fn clear(&mut self) {
            log(ev("DC", 0, 0, 0));
        }
        fn invalidate(&mut self, b: &BuilderHandle<BCan>) {
            log(ev("DI", slot(b), 0, 0));
        }
    }
}

// ---------------------------------------------------------------- world

type Shared = std::rc::Rc<RefCell<Box<dm::Cache>>>;
pub struct W {
    caches: Vec<Shared>,
    kept: Vec<ABin>,
    doc: u8,
}
thread_local! {
    /// The caches, for builders that use others than their own.
    static CACHES: RefCell<(Vec<Shared>, u8)> = const { RefCell::new((Vec::new(), 0)) };
}
/// What a step of the user results in.
enum Res {
    Got(Got),
    Val(i64, i64),
    Opt(Option<(i64, i64)>),
    Bin(Option<ABin>),
    Unit,
}
fn perform(l: &Label, c: &mut Box<dm::Cache>, doc: u8) -> Caught<Res> {
    let a = |i: usize| l.a.get(i).copied().unwrap_or(0);
    let b = a(1) as usize;
    let h = |b: usize| held(b).expect("user's handle");
    let acc = with(|c| c.acc(if SHARING { 0 } else { 1 }));
    let ci = a(0) as usize;
    with(|c| c.busy |= 1 << ci);
    if matches!(l.op, Op::Get | Op::DynRead | Op::DynMut | Op::GetMut) {
        with(|c| c.ip = a(2) != 0);
    }
    let r = match l.op {
        Op::Get => {
            let h = h(b);
            catch(|| Res::Got(h.get(c, acc)))
        }
        Op::DynRead => {
            let h = h(b);
            catch(|| h.dyn_read(c)).map(|(v, t)| Res::Val(v, t))
        }
        Op::DynMut => {
            let h = h(b);
            catch(|| h.dyn_mut(c, a(3))).map(|(v, t)| Res::Val(v, t))
        }
        Op::Invalidate => {
            // Not available for dynamic blueprints.
            let h = HELD.with(|h| h.borrow()[b].as_ref().expect("user's handle").alt(2 * with(|c| c.rand(2))));
            catch(|| h.invalidate(c)).map(|_| Res::Unit)
        }
        Op::Purge => {
            let h = h(b);
            catch(|| h.purge(c)).map(|_| Res::Unit)
        }
        Op::LookupMut => {
            let h = h(b);
            catch(|| Res::Opt(h.lookup_mut(c)))
        }
        Op::GetMut => {
            let h = h(b);
            catch(|| Res::Got(h.get_mut(c)))
        }
        Op::Keep => {
            let h = h(b);
            catch(|| Res::Bin(h.keep(c)))
        }
        Op::ClearArtifacts => catch(|| c.clear_artifacts()).map(|_| Res::Unit),
        Op::ClearAll => catch(|| c.clear_all()).map(|_| Res::Unit),
        Op::Renew => catch(|| *c = new_cache(doc)).map(|_| Res::Unit),
        Op::Collect => catch(|| c.garbage_collection()).map(|_| Res::Unit),
        _ => panic!("not a step of the user: {:?}", l.op),
    };
    with(|c| c.busy &= !(1 << ci));
    r
}
/// A running builder uses another cache than its own.
fn cross(l: &Label) {
    let (c, doc) = CACHES.with(|x| (x.borrow().0[(l.a[0] - 1) as usize].clone(), x.borrow().1));
    let r = perform(l, &mut c.borrow_mut(), doc);
    match r {
        Caught::Done(r) => {
            with(|c| c.ip = false);
            match r {
                Res::Got(g) => log_got("R", &g),
                Res::Val(v, t) => log(ev("V", v, t, 0)),
                _ => {}
            }
        }
        Caught::Abort => resume_unwind(Box::new(Abort)),
        Caught::Unwind(n) if n > 0 => resume_unwind(Box::new(Unwind(n - 1))),
        Caught::Unwind(_) | Caught::LibPanic => {
            with(|c| c.ip = false);
            log(ev("R", PA, 0, 0))
        }
    }
}
fn new_cache(doc: u8) -> Box<dm::Cache> {
    #[cfg(feature = "diag")]
    {
        match doc {
            0 => {
                // The doctor that is installed can be accessed and gets back out again.
                let id = with(|c| c.rand(1000)) as i64;
                let mut c = dm::Cache::new_with_doctor(doc::LogDoc(id));
                if c.doctor().0 != id {
                    log(ev("X", 2, 0, 0));
                }
                if id % 2 == 0 {
                    let d = c.into_doctor();
                    if d.0 != id {
                        log(ev("X", 2, 0, 0));
                    }
                    c = dm::Cache::new_with_doctor(d);
                }
                Box::new(c)
            }
            1 if with(|c| c.rand(2)) == 0 => Box::new(dm::CacheOwned::default()),
            1 => Box::new(dm::CacheOwned::new()),
            2 => {
                let mut c = dm::Cache::new_with_doctor(daab::diagnostics::VisgraphDoc::new(Default::default(), std::io::sink()));
                let _ = c.doctor();
                Box::new(c)
            }
            _ => Box::new(dm::Cache::new_with_doctor(daab::diagnostics::TextualDoc::new(
                Default::default(),
                std::io::sink(),
            ))),
        }
    }
    #[cfg(not(feature = "diag"))]
    {
        let _ = doc;
        if with(|c| c.rand(2)) == 0 {
            Box::new(dm::CacheOwned::default())
        } else {
            Box::new(dm::CacheOwned::new())
        }
    }
}
pub fn make(m: usize, doc: u8) -> Box<dyn World> {
    HELD.with(|h| h.borrow_mut().clear());
    IDS.with(|i| i.borrow_mut().clear());
    let n = with(|c| c.prog.len());
    HELD.with(|h| h.borrow_mut().resize_with(n, || None));
    let caches: Vec<Shared> = (0..m).map(|_| std::rc::Rc::new(RefCell::new(new_cache(doc)))).collect();
    CACHES.with(|x| *x.borrow_mut() = (caches.clone(), doc));
    Box::new(W { caches, kept: vec![], doc })
}
impl W {
    fn done<T>(&mut self, r: Caught<T>) -> Option<T> {
        with(|c| c.ip = false);
        match r {
            Caught::Done(x) => return Some(x),
            Caught::Abort => with(|c| c.aborting = true),
            Caught::Unwind(n) => {
                log(ev("T", PA, 0, 0));
                if n != 0 {
                    log(ev("X", 5, n, 0));
                }
            }
            Caught::LibPanic => log(ev("T", PA, 0, 0)),
        }
        None
    }
}
impl World for W {
    fn create(&mut self, b: usize) {
        reg_create(b)
    }
    fn drop_h(&mut self, b: usize) {
        reg_drop(b)
    }
    fn op(&mut self, l: &Label) {
        let c = self.caches[(l.a[0] - 1) as usize].clone();
        let r = perform(l, &mut c.borrow_mut(), self.doc);
        match self.done(r) {
            Some(Res::Got(g)) => log_got("T", &g),
            Some(Res::Val(v, t)) => log(ev("V", v, t, 0)),
            Some(Res::Opt(Some((s, v)))) => log(ev("T", OK, s, v)),
            Some(Res::Opt(None)) => log(ev("T", NO, 0, 0)),
            Some(Res::Bin(Some(x))) => self.kept.push(x),
            Some(Res::Bin(None)) | Some(Res::Unit) | None => {}
        }
    }
    fn obs(&mut self) -> Vec<CObs> {
        let n = with(|c| c.prog.len());
        let forms: Vec<Option<NodeRef>> = (0..n).map(held).collect();
        let acc = with(|c| c.acc(if SHARING { 0 } else { 1 }));
        self.caches
            .iter()
            .map(|c| {
                let c = &**c.borrow();
                let before = c.number_of_known_builders();
                let mut o = CObs::default();
                for h in &forms {
                    o.known.push(h.as_ref().map(|h| h.known(c)));
                    o.art.push(h.as_ref().map(|h| h.lookup(c, acc)));
                    o.dyn_.push(h.as_ref().map(|h| h.dyn_get(c)));
                }
                o.count = c.number_of_known_builders();
                if o.count != before {
                    o.count = usize::MAX;
                }
                o
            })
            .collect()
    }
    fn kept(&self) -> Vec<(i64, i64)> {
        self.kept.iter().map(|a| (a.serial, a.val)).collect()
    }
    fn unkeep(&mut self, serial: i64) {
        if let Some(i) = self.kept.iter().position(|a| a.serial == serial) {
            drop(self.kept.remove(i));
        }
    }
    fn teardown(&mut self) {
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            CACHES.with(|x| x.borrow_mut().0.clear());
            self.caches.clear();
            self.kept.clear();
            let v = HELD.with(|h| std::mem::take(&mut *h.borrow_mut()));
            drop(v);
        }));
        IDS.with(|i| i.borrow_mut().clear());
    }
}
