//! What the driver needs of a flavour of the library.
use crate::ctx::*;
use crate::graph::Label;
use std::cell::RefCell;

/// The abstract state as far as it can be queried.  `None`: there is no handle to ask with.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct CObs {
    pub known: Vec<Option<bool>>,
    pub art: Vec<Option<Option<(i64, i64)>>>,
    pub dyn_: Vec<Option<Option<(i64, i64)>>>,
    pub count: usize,
}

pub trait World {
    fn create(&mut self, b: usize);
    fn drop_h(&mut self, b: usize);
    /// Carry out a step of the user.
    fn op(&mut self, l: &Label);
    fn obs(&mut self) -> Vec<CObs>;
    /// Shared artifacts the user keeps: serial, content.
    fn kept(&self) -> Vec<(i64, i64)>;
    fn unkeep(&mut self, serial: i64);
    fn teardown(&mut self);
}

pub trait Driver {
    fn next(&mut self, slot: usize) -> Cmd;
    fn as_any(&mut self) -> &mut dyn std::any::Any;
}
thread_local! {
    static DRV: RefCell<Option<Box<dyn Driver>>> = const { RefCell::new(None) };
}
pub fn set_driver(d: Box<dyn Driver>) {
    DRV.with(|x| *x.borrow_mut() = Some(d));
}
pub fn clear_driver() {
    DRV.with(|x| *x.borrow_mut() = None);
}
pub fn next_cmd(slot: usize) -> Cmd {
    DRV.with(|x| match x.try_borrow_mut() {
        Ok(mut d) => match d.as_mut() {
            Some(d) => d.next(slot),
            None => Cmd::Abort,
        },
        Err(_) => Cmd::Abort,
    })
}
pub fn driver<D: 'static, R>(f: impl FnOnce(&mut D) -> R) -> R {
    DRV.with(|x| {
        let mut d = x.borrow_mut();
        f(d.as_mut().expect("driver").as_any().downcast_mut::<D>().expect("driver type"))
    })
}

/// The outcome of a request.
#[derive(Clone, Debug)]
pub enum Got {
    Ok(i64, i64),
    Er(i64, i64),
}
pub fn log_got(k: &'static str, g: &Got) {
    match g {
        Got::Ok(s, v) => log(ev(k, OK, *s, *v)),
        Got::Er(b, serial) => {
            // It has to be the very error that was raised last.
            let last = with(|c| c.last_err);
            log(ev(k, ER, *b, 0));
            if *serial != last {
                log(ev("X", 1, *serial, last));
            }
        }
    }
}
pub fn mut_val(v: i64) -> i64 {
    if v == 9 {
        8
    } else {
        9
    }
}

/// Runs library code; `None` if it panics (with a payload other than our own).
pub enum Caught<T> {
    Done(T),
    Unwind(i64),
    Abort,
    LibPanic,
}
impl<T> Caught<T> {
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Caught<U> {
        match self {
            Caught::Done(x) => Caught::Done(f(x)),
            Caught::Unwind(n) => Caught::Unwind(n),
            Caught::Abort => Caught::Abort,
            Caught::LibPanic => Caught::LibPanic,
        }
    }
}
pub fn catch<T>(f: impl FnOnce() -> T) -> Caught<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Caught::Done(x),
        Err(p) => {
            if p.is::<Abort>() {
                Caught::Abort
            } else if let Some(u) = p.downcast_ref::<Unwind>() {
                Caught::Unwind(u.0)
            } else {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                with(|c| {
                    c.last_panic = m.lines().next().unwrap_or("").chars().take(160).collect();
                });
                Caught::LibPanic
            }
        }
    }
}
