//! The library as seen by the small specifications, see small.rs.
use crate::graph::Val;
use crate::small::Sut;

pub fn make(kind: &str, nh: usize, nv: usize, nt: usize) -> Box<dyn Sut> {
    match kind {
        "rc" => Box::new(can_rc::Cans::new(nh, nv, nt)),
        "arc" => Box::new(can_arc::Cans::new(nh, nv, nt)),
        "box" => Box::new(can_box::Cans::new(nh, nv, nt)),
        #[cfg(feature = "unsz")]
        "ba" => Box::new(can_ba_rc::Cans::new(nh, nv, nt)),
        #[cfg(feature = "unsz")]
        "baarc" => Box::new(can_ba_arc::Cans::new(nh, nv, nt)),
        "h.rc" => Box::new(handles_rc::Handles::new(nh, nv)),
        "h.rc.s" => Box::new(handles_rc_s::Handles::new(nh, nv)),
        "h.arc" => Box::new(handles_arc::Handles::new(nh, nv)),
        "h.arc.s" => Box::new(handles_arc_s::Handles::new(nh, nv)),
        "h.boxed" => Box::new(handles_boxed::Handles::new(nh, nv)),
        "h.boxed.s" => Box::new(handles_boxed_s::Handles::new(nh, nv)),
        _ => panic!("unknown system {}", kind),
    }
}

pub fn t(v: Vec<i64>) -> Val {
    Val::T(v.into_iter().map(Val::I).collect())
}

/// Values in cans: two types alike but for their name, and one without size.
pub mod vals {
    use std::cell::RefCell;
    thread_local! {
        /// How many values of each type are alive, by type (index 0 unused).
        pub static ALIVE: RefCell<[i64; 8]> = const { RefCell::new([0; 8]) };
    }
    pub fn count(ty: usize, d: i64) {
        let _ = ALIVE.try_with(|a| a.borrow_mut()[ty] += d);
    }
    pub fn alive(ty: usize) -> i64 {
        ALIVE.with(|a| a.borrow()[ty])
    }
    pub fn reset() {
        ALIVE.with(|a| *a.borrow_mut() = [0; 8]);
    }
    /// What every value can tell.
    pub trait Told: std::fmt::Debug {
        fn ty(&self) -> i64;
        fn uid(&self) -> i64;
        fn m(&self) -> i64;
    }
    macro_rules! full {
        ($T:ident, $n:expr) => {
            #[derive(Debug)]
            pub struct $T {
                pub uid: i64,
                pub m: i64,
            }
            impl $T {
                pub fn new(uid: i64) -> Self {
                    count($n, 1);
                    $T { uid, m: 0 }
                }
            }
            impl Drop for $T {
                fn drop(&mut self) {
                    count($n, -1);
                    self.uid = -100;
                    self.m = -100;
                }
            }
            impl Told for $T {
                fn ty(&self) -> i64 {
                    $n
                }
                fn uid(&self) -> i64 {
                    self.uid
                }
                fn m(&self) -> i64 {
                    self.m
                }
            }
        };
    }
    full!(P, 1);
    full!(Q, 2);
    #[derive(Debug)]
    pub struct Z;
    impl Z {
        pub fn new(_: i64) -> Self {
            count(3, 1);
            Z
        }
    }
    impl Drop for Z {
        fn drop(&mut self) {
            count(3, -1);
        }
    }
    impl Told for Z {
        fn ty(&self) -> i64 {
            3
        }
        fn uid(&self) -> i64 {
            0
        }
        fn m(&self) -> i64 {
            0
        }
    }
}

macro_rules! yes { (($($y:tt)*) ($($n:tt)*)) => { $($y)* }; }
macro_rules! no { (($($y:tt)*) ($($n:tt)*)) => { $($n)* }; }
#[cfg(feature = "unsz")]
macro_rules! nightly { (($($y:tt)*) ($($n:tt)*)) => { $($y)* }; }
#[cfg(not(feature = "unsz"))]
macro_rules! nightly { (($($y:tt)*) ($($n:tt)*)) => { $($n)* }; }

/// The std containers. `$shares`, `$muts`: yes or no.
macro_rules! std_cans {
    ($mod:ident, $Can:ty, $Dyn:ty, $shares:ident, $muts:ident) => {
        pub mod $mod {
            use super::vals::*;
            use super::t;
            use crate::graph::Val;
            use crate::small::{Rng, Sut};
            use daab::canning::*;
            use std::any::Any;
            type C = $Can;
            type D = $Dyn;
            #[allow(clippy::all)]
            pub enum Slot {
                None,
                P(<C as Can<P>>::Bin),
                Q(<C as Can<Q>>::Bin),
                Z(<C as Can<Z>>::Bin),
                Can(C),
                #[allow(dead_code)]
                U(<C as Can<D>>::Bin),
                #[allow(dead_code)]
                Weak($shares!((<C as CanStrong>::CanWeak)(()))),
            }
            pub struct Cans {
                h: Vec<Slot>,
                nt: usize,
                /// Of each value: its type and address.
                at: Vec<(i64, usize)>,
                /// The value last put into each slot: sizeless values in boxes have no other identity.
                mine: Vec<i64>,
            }
            fn thin<T: ?Sized>(p: *const T) -> usize {
                p as *const () as usize
            }
            impl Cans {
                pub fn new(nh: usize, nv: usize, nt: usize) -> Self {
                    reset();
                    Cans { h: (0..nh).map(|_| Slot::None).collect(), nt, at: vec![(0, 0); nv + 1], mine: vec![0; nh] }
                }
                fn born(&mut self, i: i64, v: i64, ty: i64, addr: usize) {
                    for x in self.at.iter_mut() {
                        if x.1 == addr {
                            *x = (0, 0);
                        }
                    }
                    self.at[v as usize] = (ty, addr);
                    self.mine[i as usize - 1] = v;
                }
                /// The number of the value with this type, address and identity, found in slot i.
                fn told(&self, i: usize, x: &dyn Told, addr: usize) -> (i64, i64) {
                    let (ty, uid) = (x.ty(), x.uid());
                    let anon = $shares!((false)(ty == 3));
                    let v = if anon {
                        self.mine[i]
                    } else {
                        (1..self.at.len()).find(|v| self.at[*v] == (ty, addr) && (ty == 3 || *v as i64 == uid)).map(|v| v as i64).unwrap_or(-1)
                    };
                    (v, x.m())
                }
                fn can(&self, i: usize, c: &C) -> (i64, i64) {
                    let a = thin(c.can_as_ptr());
                    let x: &dyn Any = &**c;
                    if thin(x) != a {
                        return (-2, -2);
                    }
                    if let Some(p) = x.downcast_ref::<P>() {
                        self.told(i, p, a)
                    } else if let Some(q) = x.downcast_ref::<Q>() {
                        self.told(i, q, a)
                    } else if let Some(z) = x.downcast_ref::<Z>() {
                        self.told(i, z, a)
                    } else {
                        (-3, -3)
                    }
                }
                fn take(&mut self, i: i64) -> Slot {
                    std::mem::replace(&mut self.h[i as usize - 1], Slot::None)
                }
                fn as_can(s: Slot) -> C {
                    match s {
                        Slot::Can(c) => c,
                        _ => unreachable!(),
                    }
                }
            }
            /// Run $e with X being the value type number $t, and B the variant of Slot.
            macro_rules! by_type {
                ($ty:expr, $X:ident, $B:ident, $e:expr) => {
                    match $ty {
                        1 => {
                            type $X = P;
                            #[allow(unused_macros)]
                            macro_rules! $B { ($b:expr) => { Slot::P($b) }; }
                            $e
                        }
                        2 => {
                            type $X = Q;
                            #[allow(unused_macros)]
                            macro_rules! $B { ($b:expr) => { Slot::Q($b) }; }
                            $e
                        }
                        _ => {
                            type $X = Z;
                            #[allow(unused_macros)]
                            macro_rules! $B { ($b:expr) => { Slot::Z($b) }; }
                            $e
                        }
                    }
                };
            }
            impl Sut for Cans {
                fn step(&mut self, op: &str, a: &[i64], exp: &[i64], _rng: &mut Rng) -> Vec<i64> {
                    let i = a[0];
                    match op {
                        "MakeBin" => {
                            let v = exp[0];
                            by_type!(a[1], X, mk, {
                                let b = <C as CanSized<X>>::into_bin(X::new(v));
                                self.born(i, v, a[1], <C as Can<X>>::bin_as_ptr(&b) as usize);
                                self.h[i as usize - 1] = mk!(b);
                            });
                            vec![v]
                        }
                        "MakeCan" => {
                            let v = exp[0];
                            by_type!(a[1], X, mk, {
                                let c = <C as CanSized<X>>::from_inner(X::new(v));
                                self.born(i, v, a[1], thin(c.can_as_ptr()));
                                self.h[i as usize - 1] = Slot::Can(c);
                            });
                            vec![v]
                        }
                        "Pack" => {
                            let s = match self.take(i) {
                                Slot::P(b) => <C as CanSized<P>>::from_bin(b),
                                Slot::Q(b) => <C as CanSized<Q>>::from_bin(b),
                                Slot::Z(b) => <C as CanSized<Z>>::from_bin(b),
                                _ => unreachable!(),
                            };
                            self.h[i as usize - 1] = Slot::Can(s);
                            vec![]
                        }
                        "Unpack" => {
                            let c = Self::as_can(self.take(i));
                            by_type!(a[1], X, mk, match <C as CanSized<X>>::downcast_can(c) {
                                Some(b) => {
                                    self.h[i as usize - 1] = mk!(b);
                                    vec![1]
                                }
                                None => vec![0],
                            })
                        }
                        "Peek" => {
                            let Slot::Can(c) = &self.h[i as usize - 1] else { unreachable!() };
                            by_type!(a[1], X, mk, match <C as CanRef<X>>::downcast_can_ref(c) {
                                Some(x) => {
                                    let (v, m) = self.told(i as usize - 1, x, x as *const X as usize);
                                    vec![1, v, m]
                                }
                                None => vec![0],
                            })
                        }
                        "Poke" => {
                            $muts!(({
                                let Slot::Can(c) = &mut self.h[i as usize - 1] else { unreachable!() };
                                match a[1] {
                                    1 => vec![<C as CanRefMut<P>>::downcast_can_mut(c).map(|x| x.m = 1 - x.m).is_some() as i64],
                                    2 => vec![<C as CanRefMut<Q>>::downcast_can_mut(c).map(|x| x.m = 1 - x.m).is_some() as i64],
                                    _ => vec![<C as CanRefMut<Z>>::downcast_can_mut(c).is_some() as i64],
                                }
                            })(unreachable!()))
                        }
                        "Dup" => {
                            $shares!(({
                                self.h[a[1] as usize - 1] = match &self.h[i as usize - 1] {
                                    Slot::P(b) => Slot::P(b.clone()),
                                    Slot::Q(b) => Slot::Q(b.clone()),
                                    Slot::Z(b) => Slot::Z(b.clone()),
                                    Slot::Can(b) => Slot::Can(b.clone()),
                                    Slot::U(b) => Slot::U(b.clone()),
                                    _ => unreachable!(),
                                };
                                vec![]
                            })(unreachable!()))
                        }
                        "Unsize" => {
                            nightly!(({
                                let s = match self.take(i) {
                                    Slot::P(b) => Slot::U(<C as CanUnsized<P, D>>::into_unsized(b)),
                                    Slot::Q(b) => Slot::U(<C as CanUnsized<Q, D>>::into_unsized(b)),
                                    Slot::Z(b) => Slot::U(<C as CanUnsized<Z, D>>::into_unsized(b)),
                                    _ => unreachable!(),
                                };
                                self.h[i as usize - 1] = s;
                                vec![]
                            })(unreachable!()))
                        }
                        "Downgrade" => {
                            $shares!(({
                                let Slot::Can(c) = &self.h[i as usize - 1] else { unreachable!() };
                                self.h[a[1] as usize - 1] = Slot::Weak(c.downgrade());
                                vec![]
                            })(unreachable!()))
                        }
                        "Upgrade" => {
                            $shares!(({
                                let Slot::Weak(w) = &self.h[i as usize - 1] else { unreachable!() };
                                match <C as CanStrong>::upgrade_from_weak(w) {
                                    Some(c) => {
                                        self.h[a[1] as usize - 1] = Slot::Can(c);
                                        vec![1]
                                    }
                                    None => vec![0],
                                }
                            })(unreachable!()))
                        }
                        "Drop" => {
                            self.take(i);
                            vec![]
                        }
                        _ => panic!("unknown label {}", op),
                    }
                }
                fn observe(&mut self) -> Val {
                    let mut r = vec![];
                    for (i, s) in self.h.iter().enumerate() {
                        let (f, (v, m)) = match s {
                            Slot::None => (0, (0, 0)),
                            Slot::P(b) => (1, self.told(i, &**b, <C as Can<P>>::bin_as_ptr(b) as usize)),
                            Slot::Q(b) => (1, self.told(i, &**b, <C as Can<Q>>::bin_as_ptr(b) as usize)),
                            Slot::Z(b) => (1, self.told(i, &**b, <C as Can<Z>>::bin_as_ptr(b) as usize)),
                            Slot::Can(c) => (2, self.can(i, c)),
                            Slot::U(b) => (3, self.told(i, &**b, <C as Can<D>>::bin_as_ptr(b) as usize)),
                            Slot::Weak(_w) => (4, $shares!((_w.upgrade().map(|c| self.can(i, &c)).unwrap_or((0, 0)))(unreachable!()))),
                        };
                        r.push((f, v, m));
                    }
                    Val::T(vec![
                        Val::T(r.into_iter().map(|(f, v, m)| t(vec![f, v, m])).collect()),
                        t((1..=self.nt).map(|x| alive(x)).collect()),
                    ])
                }
            }
        }
    };
}
std_cans!(can_rc, std::rc::Rc<dyn std::any::Any>, dyn Told, yes, no);
std_cans!(can_arc, std::sync::Arc<dyn std::any::Any + Send + Sync>, dyn Told + Send + Sync, yes, no);
std_cans!(can_box, Box<dyn std::any::Any>, dyn Told, no, yes);

/// Builders in cans, as artifacts of other builders.
#[cfg(feature = "unsz")]
macro_rules! builder_cans {
    ($mod:ident, $BCan:ty) => {
        pub mod $mod {
            use super::t;
            use super::vals::*;
            use crate::graph::Val;
            use crate::small::{Rng, Sut};
            use daab::blueprint::{Blueprint, BlueprintUnsized};
            use daab::canning::*;
            use std::any::Any;
            type B = $BCan;
            type C = BuilderArtifact<B>;
            pub enum Slot {
                None,
                P1(Blueprint<P, B>),
                P2(Blueprint<Q, B>),
                U1(BlueprintUnsized<P, B>),
                U2(BlueprintUnsized<Q, B>),
                Can(C),
            }
            pub struct Cans {
                h: Vec<Slot>,
                nt: usize,
                at: Vec<usize>,
                /// As which type each value was made.
                ty: Vec<i64>,
            }
            fn thin(p: *const dyn Any) -> usize {
                p as *const () as usize
            }
            fn uid(s: &str) -> i64 {
                let x = s.split("uid: ").nth(1).unwrap_or("");
                x.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(-5)
            }
            impl Cans {
                pub fn new(nh: usize, nv: usize, nt: usize) -> Self {
                    reset();
                    Cans { h: (0..nh).map(|_| Slot::None).collect(), nt, at: vec![0; nv + 1], ty: vec![0; nv + 1] }
                }
                fn which(&self, addr: usize) -> i64 {
                    (1..self.at.len()).find(|v| self.at[*v] == addr).map(|v| v as i64).unwrap_or(-1)
                }
                fn known(&self, addr: usize, dbg: String) -> i64 {
                    let v = self.which(addr);
                    if v == uid(&dbg) {
                        v
                    } else {
                        -2
                    }
                }
                fn take(&mut self, i: i64) -> Slot {
                    std::mem::replace(&mut self.h[i as usize - 1], Slot::None)
                }
                fn born(&mut self, v: i64, ty: i64, addr: usize) {
                    for x in self.at.iter_mut() {
                        if *x == addr {
                            *x = 0;
                        }
                    }
                    self.at[v as usize] = addr;
                    self.ty[v as usize] = ty;
                }
            }
            impl Sut for Cans {
                fn step(&mut self, op: &str, a: &[i64], exp: &[i64], _rng: &mut Rng) -> Vec<i64> {
                    let i = a[0];
                    match op {
                        "MakeBin" => {
                            let v = exp[0];
                            let (s, p) = match a[1] {
                                1 => {
                                    let b = <C as CanSized<Blueprint<P, B>>>::into_bin(Blueprint::new(P::new(v)));
                                    let p = <C as Can<Blueprint<P, B>>>::bin_as_ptr(&b);
                                    (Slot::P1(b), p)
                                }
                                2 => {
                                    let b = <C as CanSized<Blueprint<Q, B>>>::into_bin(Blueprint::new(Q::new(v)));
                                    let p = <C as Can<Blueprint<Q, B>>>::bin_as_ptr(&b);
                                    (Slot::P2(b), p)
                                }
                                3 => {
                                    let b = <C as CanSized<BlueprintUnsized<P, B>>>::into_bin(BlueprintUnsized::new(P::new(v)));
                                    let p = <C as Can<BlueprintUnsized<P, B>>>::bin_as_ptr(&b);
                                    (Slot::U1(b), p)
                                }
                                _ => {
                                    let b = <C as CanSized<BlueprintUnsized<Q, B>>>::into_bin(BlueprintUnsized::new(Q::new(v)));
                                    let p = <C as Can<BlueprintUnsized<Q, B>>>::bin_as_ptr(&b);
                                    (Slot::U2(b), p)
                                }
                            };
                            self.h[i as usize - 1] = s;
                            self.born(v, a[1], p as usize);
                            vec![v]
                        }
                        "MakeCan" => {
                            let v = exp[0];
                            let c = match a[1] {
                                1 => <C as CanSized<Blueprint<P, B>>>::from_inner(Blueprint::new(P::new(v))),
                                2 => <C as CanSized<Blueprint<Q, B>>>::from_inner(Blueprint::new(Q::new(v))),
                                3 => <C as CanSized<BlueprintUnsized<P, B>>>::from_inner(BlueprintUnsized::new(P::new(v))),
                                _ => <C as CanSized<BlueprintUnsized<Q, B>>>::from_inner(BlueprintUnsized::new(Q::new(v))),
                            };
                            self.born(v, a[1], thin(c.can_as_ptr()));
                            self.h[i as usize - 1] = Slot::Can(c);
                            vec![v]
                        }
                        "Pack" => {
                            let c = match self.take(i) {
                                Slot::P1(b) => <C as CanSized<Blueprint<P, B>>>::from_bin(b),
                                Slot::P2(b) => <C as CanSized<Blueprint<Q, B>>>::from_bin(b),
                                Slot::U1(b) => <C as CanSized<BlueprintUnsized<P, B>>>::from_bin(b),
                                Slot::U2(b) => <C as CanSized<BlueprintUnsized<Q, B>>>::from_bin(b),
                                _ => unreachable!(),
                            };
                            self.h[i as usize - 1] = Slot::Can(c);
                            vec![]
                        }
                        "Unpack" => {
                            let Slot::Can(c) = self.take(i) else { unreachable!() };
                            let s = match a[1] {
                                1 => <C as CanSized<Blueprint<P, B>>>::downcast_can(c).map(Slot::P1),
                                2 => <C as CanSized<Blueprint<Q, B>>>::downcast_can(c).map(Slot::P2),
                                3 => <C as CanSized<BlueprintUnsized<P, B>>>::downcast_can(c).map(Slot::U1),
                                _ => <C as CanSized<BlueprintUnsized<Q, B>>>::downcast_can(c).map(Slot::U2),
                            };
                            match s {
                                Some(s) => {
                                    self.h[i as usize - 1] = s;
                                    vec![1]
                                }
                                None => vec![0],
                            }
                        }
                        "Dup" => {
                            self.h[a[1] as usize - 1] = match &self.h[i as usize - 1] {
                                Slot::P1(b) => Slot::P1(b.clone()),
                                Slot::P2(b) => Slot::P2(b.clone()),
                                Slot::U1(b) => Slot::U1(b.clone()),
                                Slot::U2(b) => Slot::U2(b.clone()),
                                Slot::Can(c) => Slot::Can(c.clone()),
                                Slot::None => unreachable!(),
                            };
                            vec![]
                        }
                        "Drop" => {
                            self.take(i);
                            vec![]
                        }
                        _ => panic!("unknown label {}", op),
                    }
                }
                fn observe(&mut self) -> Val {
                    let ptr = |id: daab::BuilderId| usize::from_str_radix(format!("{:p}", id).trim_start_matches("0x"), 16).unwrap_or(0);
                    let mut n = vec![0i64; self.nt + 1];
                    let mut r = vec![];
                    let mut seen = std::collections::BTreeSet::new();
                    for s in &self.h {
                        let (f, v) = match s {
                            Slot::None => (0, 0),
                            Slot::P1(b) => (1, self.known(ptr(b.id()), format!("{:?}", b))),
                            Slot::P2(b) => (1, self.known(ptr(b.id()), format!("{:?}", b))),
                            Slot::U1(b) => (1, self.known(ptr(b.id()), format!("{:?}", b))),
                            Slot::U2(b) => (1, self.known(ptr(b.id()), format!("{:?}", b))),
                            Slot::Can(c) => (2, self.which(thin(c.can_as_ptr()))),
                        };
                        if v > 0 {
                            seen.insert(v);
                        }
                        r.push((f, v));
                    }
                    for v in &seen {
                        n[self.ty[*v as usize] as usize] += 1;
                    }
                    // Builders alive: of both forms of blueprint together.
                    if n[1] + n[3] != alive(1) || n[2] + n[4] != alive(2) {
                        n[1] = -alive(1);
                        n[2] = -alive(2);
                    }
                    Val::T(vec![Val::T(r.into_iter().map(|(f, v)| t(vec![f, v, 0])).collect()), t(n[1..].to_vec())])
                }
            }
        }
    };
}
#[cfg(feature = "unsz")]
builder_cans!(can_ba_rc, std::rc::Rc<dyn std::any::Any>);
#[cfg(feature = "unsz")]
builder_cans!(can_ba_arc, std::sync::Arc<dyn std::any::Any + Send + Sync>);

/// Blueprints of all forms and a cache, see Handles.tla.  `$dynform`: are there dynamic forms?
macro_rules! handle_forms {
    ($mod:ident, $dm:path, $dynform:ident, $shares:ident, $Pad:ty, $UD:ty) => {
        pub mod $mod {
            use super::t;
            use crate::graph::Val;
            use crate::small::{Rng, Sut};
            use daab::blueprint::Promise;
            use daab::*;
            use std::cell::Cell;
            use std::collections::hash_map::DefaultHasher;
            use std::hash::{Hash, Hasher};
            use $dm as dm;
            type ACan = dm::CanType;
            #[allow(dead_code)]
            type BCan = dm::BuilderCan;
            thread_local! {
                static BUILDS: Cell<i64> = const { Cell::new(0) };
                static LAST: Cell<i64> = const { Cell::new(0) };
            }
            #[derive(Debug, Clone)]
            pub struct Art {
                uid: i64,
                val: i64,
            }
            pub struct HB {
                uid: i64,
                #[allow(dead_code)]
                pad: $Pad,
            }
            impl std::fmt::Debug for HB {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    write!(f, "HB{}", self.uid)
                }
            }
            impl dm::Builder for HB {
                type Artifact = Art;
                type DynState = i64;
                type Err = ();
                fn build(&self, r: &mut dm::Resolver<i64>) -> Result<dm::BinType<Art>, ()> {
                    BUILDS.with(|b| b.set(b.get() + 1));
                    LAST.with(|b| b.set(self.uid));
                    Ok(dm::BinType::new(Art { uid: self.uid, val: *r.my_state() }))
                }
                fn init_dyn_state(&self) -> i64 {
                    1
                }
            }
            type Bp = dm::Blueprint<HB>;
            type Dy = $dynform!((dm::DynamicBlueprint<Art, (), i64>)(dm::Blueprint<HB>));
            type Bu = nightly!((dm::BlueprintUnsized<HB>)(dm::Blueprint<HB>));
            type Bd = nightly!((dm::BlueprintUnsized<$UD>)(dm::Blueprint<HB>));
            enum Slot {
                None,
                Bp(Bp),
                #[allow(dead_code)]
                Dy(Dy),
                #[allow(dead_code)]
                Bu(Bu),
                #[allow(dead_code)]
                Bd(Bd),
            }
            pub struct Handles {
                h: Vec<Slot>,
                c: dm::CacheOwned,
            }
            /// Run $e with $p being the handle in slot $i.
            macro_rules! with_handle {
                ($s:expr, $p:ident, $e:expr) => {
                    match $s {
                        Slot::None => unreachable!(),
                        Slot::Bp($p) => $e,
                        Slot::Dy($p) => $e,
                        Slot::Bu($p) => $e,
                        Slot::Bd($p) => $e,
                    }
                };
            }
            fn get<P, B: ?Sized>(c: &mut dm::Cache, p: &P, acc: usize) -> (i64, i64)
            where
                P: Promise<Builder = B, BCan = BCan>,
                B: Builder<ACan, BCan, Artifact = Art, DynState = i64, Err = ()> + 'static,
                BCan: canning::Can<B>,
                ACan: canning::Can<Art, Bin = dm::BinType<Art>> + canning::CanSized<Art> + canning::CanRef<Art>,
            {
                let look = |c: &dm::Cache| -> Option<(i64, i64)> {
                    let a = c.lookup_ref(p).map(|a| (a.uid, a.val));
                    let b = c.lookup_cloned(p).map(|a| (a.uid, a.val));
                    if a != b {
                        return Some((-1, -1));
                    }
                    a
                };
                let before = look(c);
                let r = match acc {
                    0 => $shares!((c.get(p).map(|a| (a.uid, a.val)))(c.get_ref(p).map(|a| (a.uid, a.val)))),
                    1 => c.get_ref(p).map(|a| (a.uid, a.val)),
                    _ => c.get_cloned(p).map(|a| (a.uid, a.val)),
                }
                .unwrap_or((-3, -3));
                if before.is_some() && before != Some(r) {
                    return (-4, -4);
                }
                if look(c) != Some(r) {
                    return (-5, -5);
                }
                r
            }
            fn state<P, B: ?Sized>(c: &dm::Cache, p: &P) -> Val
            where
                P: Promise<Builder = B, BCan = BCan>,
                B: Builder<ACan, BCan, Artifact = Art, DynState = i64, Err = ()> + 'static,
                BCan: canning::Can<B>,
                ACan: canning::Can<Art, Bin = dm::BinType<Art>> + canning::CanSized<Art> + canning::CanRef<Art>,
            {
                let a = c.lookup_ref(p).is_some();
                t(vec![c.is_builder_known(p) as i64, c.get_dyn_state(p).copied().unwrap_or(0), a as i64])
            }
            fn hash<T: Hash>(x: &T) -> u64 {
                let mut h = DefaultHasher::new();
                x.hash(&mut h);
                h.finish()
            }
            /// Equal by everything that two handles of one form offer?
            fn eq1<T: Eq + Hash>(a: &T, b: &T) -> i64 {
                let e = a == b;
                if (a != b) == e || (b == a) != e {
                    return -1;
                }
                if e && hash(a) != hash(b) {
                    return -2;
                }
                e as i64
            }
            fn eq(a: &Slot, b: &Slot) -> i64 {
                let ia = with_handle!(a, p, (p.id(), Promise::id(p)));
                let ib = with_handle!(b, p, (p.id(), Promise::id(p)));
                if ia.0 != ia.1 || ib.0 != ib.1 {
                    return -3;
                }
                let e = eq1(&ia.0, &ib.0);
                let f = match (a, b) {
                    (Slot::Bp(x), Slot::Bp(y)) => eq1(x, y),
                    (Slot::Dy(x), Slot::Dy(y)) => eq1(x, y),
                    (Slot::Bu(x), Slot::Bu(y)) => eq1(x, y),
                    (Slot::Bd(x), Slot::Bd(y)) => eq1(x, y),
                    _ => e,
                };
                if e != f {
                    return -4;
                }
                // Whatever form they have.
                if e == 1 && with_handle!(a, p, hash(p)) != with_handle!(b, p, hash(p)) {
                    return -6;
                }
                // The printed pointer is that of the id, and so is the one shown for debugging.
                let (x, y, z) = with_handle!(a, p, (format!("{:p}", *p), format!("{:p}", p.id()), format!("{:?}", p)));
                if x.trim() != y.trim() || !z.contains(y.trim()) {
                    return -5;
                }
                // Printed alike iff equal, ordered consistently with being equal.
                let p = with_handle!(b, p, format!("{:p}", p.id()));
                let o = ia.0.cmp(&ib.0);
                if (p == y) != (e == 1)
                    || (format!("{:?}", ia.0) == format!("{:?}", ib.0)) != (e == 1)
                    || (o == std::cmp::Ordering::Equal) != (e == 1)
                    || ib.0.cmp(&ia.0) != o.reverse()
                    || ia.0.partial_cmp(&ib.0) != Some(o)
                {
                    return -7;
                }
                e
            }
            impl Handles {
                pub fn new(nh: usize, _nb: usize) -> Self {
                    Handles { h: (0..nh).map(|_| Slot::None).collect(), c: dm::CacheOwned::new() }
                }
            }
            impl Sut for Handles {
                fn step(&mut self, op: &str, a: &[i64], exp: &[i64], rng: &mut Rng) -> Vec<i64> {
                    let i = a.get(0).copied().unwrap_or(1) as usize - 1;
                    match op {
                        "Create" => {
                            let b = HB { uid: exp[0], pad: Default::default() };
                            self.h[i] = match a[1] {
                                1 => Slot::Bp(if rng.n(2) == 0 { Bp::new(b) } else { Bp::from(b) }),
                                2 => $dynform!((Slot::Dy(Dy::new(b)))(unreachable!())),
                                3 => nightly!((Slot::Bu(if rng.n(2) == 0 { Bu::new(b) } else { Bu::from(b) }))(unreachable!())),
                                _ => nightly!(($dynform!((Slot::Bd(Bd::new_unsized(b)))(Slot::Bd(Bu::new(b).into_unsized()))))(
                                    unreachable!()
                                )),
                            };
                            vec![exp[0]]
                        }
                        "Clone" => {
                            let n = match &self.h[i] {
                                Slot::None => unreachable!(),
                                Slot::Bp(p) => Slot::Bp(p.clone()),
                                Slot::Dy(p) => Slot::Dy(p.clone()),
                                Slot::Bu(p) => Slot::Bu(p.clone()),
                                Slot::Bd(p) => Slot::Bd(p.clone()),
                            };
                            self.h[a[1] as usize - 1] = n;
                            vec![]
                        }
                        "Convert" => {
                            let s = std::mem::replace(&mut self.h[i], Slot::None);
                            #[allow(unused_variables)]
                            let n = match (s, a[1]) {
                                (Slot::Bp(p), 2) => {
                                    $dynform!((Slot::Dy(if rng.n(2) == 0 { Dy::from_bp(p) } else { Dy::from(p) }))(unreachable!()))
                                }
                                (Slot::Bp(p), 3) => nightly!((Slot::Bu(Bu::from(p)))(unreachable!())),
                                (Slot::Bp(p), 4) => nightly!(($dynform!((Slot::Bd(match rng.n(3) {
                                    0 => p.into_unsized(),
                                    1 => Bd::from_sized_bp(p),
                                    _ => Bd::from(p),
                                }))(Slot::Bd(p.into_unsized()))))(unreachable!())),
                                (Slot::Bu(p), 4) => nightly!(($dynform!((Slot::Bd(match rng.n(3) {
                                    0 => p.into_unsized(),
                                    1 => Bd::from_sized(p),
                                    _ => Bd::from(p),
                                }))(Slot::Bd(p.into_unsized()))))(unreachable!())),
                                (Slot::Dy(p), 4) => nightly!(($dynform!((Slot::Bd(p.into_unsized()))(unreachable!())))(unreachable!())),
                                _ => unreachable!(),
                            };
                            self.h[i] = n;
                            vec![]
                        }
                        "Drop" => {
                            self.h[i] = Slot::None;
                            vec![]
                        }
                        "Get" => {
                            let n = BUILDS.with(|b| b.get());
                            let acc = rng.n(3);
                            let (uid, val) = with_handle!(&self.h[i], p, get(&mut self.c, p, acc));
                            let n = BUILDS.with(|b| b.get()) - n;
                            if n > 0 && LAST.with(|b| b.get()) != uid {
                                return vec![-6];
                            }
                            vec![uid, val, n]
                        }
                        "Write" => {
                            let r = with_handle!(&self.h[i], p, {
                                let d = self.c.dyn_state_mut(p);
                                std::mem::replace(d, 2)
                            });
                            vec![r]
                        }
                        "Invalidate" => {
                            match &self.h[i] {
                                Slot::Bp(p) => self.c.invalidate(p),
                                Slot::Bu(p) => self.c.invalidate(p),
                                _ => unreachable!(),
                            }
                            vec![]
                        }
                        "Purge" => {
                            with_handle!(&self.h[i], p, self.c.purge(p));
                            vec![]
                        }
                        "Collect" => {
                            self.c.garbage_collection();
                            vec![]
                        }
                        "ClearAll" => {
                            self.c.clear_all();
                            vec![]
                        }
                        "ClearArtifacts" => {
                            self.c.clear_artifacts();
                            vec![]
                        }
                        _ => panic!("unknown label {}", op),
                    }
                }
                fn observe(&mut self) -> Val {
                    let n = self.h.len();
                    let mut m = vec![];
                    for i in 0..n {
                        m.push(t((0..n)
                            .map(|j| match (&self.h[i], &self.h[j]) {
                                (Slot::None, _) | (_, Slot::None) => 0,
                                (a, b) => eq(a, b),
                            })
                            .collect()));
                    }
                    let s = self
                        .h
                        .iter()
                        .map(|s| match s {
                            Slot::None => t(vec![0, 0, 0]),
                            s => with_handle!(s, p, state(&self.c, p)),
                        })
                        .collect();
                    Val::T(vec![Val::T(m), Val::T(s), Val::I(self.c.number_of_known_builders() as i64)])
                }
            }
        }
    };
}
handle_forms!(handles_rc, daab::rc, yes, yes, crate::alloc::Pad, dyn Builder<ACan, BCan, Artifact = Art, DynState = i64, Err = ()>);
handle_forms!(handles_arc, daab::arc, no, yes, crate::alloc::Pad, dyn Builder<ACan, BCan, Artifact = Art, DynState = i64, Err = ()> + Send + Sync);
handle_forms!(handles_boxed, daab::boxed, yes, no, crate::alloc::Pad, dyn Builder<ACan, BCan, Artifact = Art, DynState = i64, Err = ()>);
handle_forms!(handles_rc_s, daab::rc, yes, yes, (), dyn Builder<ACan, BCan, Artifact = Art, DynState = i64, Err = ()>);
handle_forms!(handles_arc_s, daab::arc, no, yes, (), dyn Builder<ACan, BCan, Artifact = Art, DynState = i64, Err = ()> + Send + Sync);
handle_forms!(handles_boxed_s, daab::boxed, yes, no, (), dyn Builder<ACan, BCan, Artifact = Art, DynState = i64, Err = ()>);
