//! A global allocator which reuses the memory of builders as eagerly as possible
//! (last freed, first reused), and counts their live blocks per thread.
//! User builders are padded to a distinctive size and alignment, so that only they are affected.
//! In most runs they are moreover placed so that their addresses differ in few bits, low or high:
//! whoever takes less than the whole address for the identity of a builder confuses two of them.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::Relaxed, Ordering::SeqCst};

const PAD: usize = 5300;
/// Nothing else is aligned like this.
const ALIGN: usize = 32;
#[repr(align(32))]
pub struct Pad(#[allow(dead_code)] [u8; PAD]);
impl Pad {
    pub fn new() -> Self {
        Pad([0; PAD])
    }
}
impl Default for Pad {
    fn default() -> Self {
        Pad::new()
    }
}
const LO: usize = PAD;
const HI: usize = PAD + 200;
const SLOTS: usize = 256;

struct Pool {
    n: Cell<usize>,
    ptr: [Cell<(*mut u8, usize)>; SLOTS],
}
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}
/// Address space per thread, as a power of two; a place is 2^LOW bytes large.
const HIGH: usize = 37;
const LOW: usize = 13;
const BITS: usize = HIGH - LOW;
const ARENAS: usize = 16;
const FRESH: usize = 1 + BITS + BITS * (BITS - 1) / 2;
/// Where the address space reserved for builders begins (0: not yet, 1: there is none).
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);

fn base() -> usize {
    let b = BASE.load(SeqCst);
    if b != 0 {
        return b;
    }
    // PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
    let p = unsafe { mmap(std::ptr::null_mut(), (ARENAS + 1) << HIGH, 3, 0x4022, -1, 0) } as usize;
    let b = if p == usize::MAX { 1 } else { (p + (1 << HIGH) - 1) >> HIGH << HIGH };
    let _ = BASE.compare_exchange(0, b, SeqCst, SeqCst);
    BASE.load(SeqCst)
}
fn of_arena(p: *mut u8) -> bool {
    let b = BASE.load(SeqCst);
    b > 1 && (p as usize) >= b && (p as usize) < b + (ARENAS << HIGH)
}

/// Places of one thread.
struct Arena {
    base: Cell<usize>,
    on: Cell<bool>,
    fresh: Cell<usize>,
    perm: [Cell<u8>; BITS],
    free: [Cell<u16>; FRESH],
    n: Cell<usize>,
}
impl Arena {
    /// The i-th place: at the base, then those that differ from it in one bit, then in two.
    fn place(&self, i: usize) -> usize {
        let bit = |k: usize| 1usize << (LOW + self.perm[k].get() as usize);
        let mut i = i;
        if i == 0 {
            return self.base.get();
        }
        i -= 1;
        if i < BITS {
            return self.base.get() + bit(i);
        }
        i -= BITS;
        let mut a = 1;
        while i >= a {
            i -= a;
            a += 1;
        }
        self.base.get() + bit(a) + bit(i)
    }
    fn index(&self, p: usize) -> usize {
        let o = p - self.base.get();
        let at = |b: usize| (0..BITS).find(|k| self.perm[*k].get() as usize == b - LOW).unwrap();
        match o.count_ones() {
            0 => 0,
            1 => 1 + at(o.trailing_zeros() as usize),
            _ => {
                let (x, y) = (at(o.trailing_zeros() as usize), at(63 - o.leading_zeros() as usize));
                let (a, i) = (x.max(y), x.min(y));
                1 + BITS + a * (a - 1) / 2 + i
            }
        }
    }
    fn take(&self) -> Option<*mut u8> {
        if !self.on.get() {
            return None;
        }
        let i = if self.n.get() > 0 {
            self.n.set(self.n.get() - 1);
            REUSED.fetch_add(1, Relaxed);
            self.free[self.n.get()].get() as usize
        } else if self.fresh.get() < FRESH {
            self.fresh.set(self.fresh.get() + 1);
            self.fresh.get() - 1
        } else {
            return None;
        };
        Some(self.place(i) as *mut u8)
    }
    fn give(&self, p: *mut u8) {
        let b = self.base.get();
        if (p as usize) >= b && (p as usize) < b + (1 << HIGH) {
            self.free[self.n.get()].set(self.index(p as usize) as u16);
            self.n.set(self.n.get() + 1);
        }
    }
}

/// Begins a run: chooses the places which its builders will have.
pub fn begin(seed: u64) {
    if LIVE.with(|x| x.get()) != 0 {
        return;
    }
    ARENA.with(|a| {
        if a.base.get() == 0 {
            let i = NEXT.fetch_add(1, SeqCst);
            let b = base();
            a.base.set(if i < ARENAS && b > 1 { b + (i << HIGH) } else { 1 });
        }
        let mut r = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
        let mut rnd = |n: usize| {
            r ^= r << 13;
            r ^= r >> 7;
            r ^= r << 17;
            (r >> 33) as usize % n
        };
        a.on.set(a.base.get() > 1 && rnd(4) != 0);
        a.n.set(0);
        a.fresh.set(0);
        (0..BITS).for_each(|k| a.perm[k].set(k as u8));
        (1..BITS).rev().for_each(|k| a.perm[k].swap(&a.perm[rnd(k + 1)]));
    })
}

thread_local! {
    static ARENA: Arena = const { Arena {
        base: Cell::new(0), on: Cell::new(false), fresh: Cell::new(0), n: Cell::new(0),
        perm: [const { Cell::new(0) }; BITS], free: [const { Cell::new(0) }; FRESH],
    } };
    static POOL: Pool = const { Pool { n: Cell::new(0), ptr: [const { Cell::new((std::ptr::null_mut(), 0)) }; SLOTS] } };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

static REUSED: AtomicI64 = AtomicI64::new(0);

pub struct Lifo;

unsafe impl GlobalAlloc for Lifo {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let s = l.size();
        if s >= LO && s < HI && l.align() == ALIGN {
            if let Ok(p) = POOL.try_with(|p| {
                LIVE.with(|x| x.set(x.get() + 1));
                if let Some(q) = if s <= 1 << LOW { ARENA.with(|a| a.take()) } else { None } {
                    return q;
                }
                let n = p.n.get();
                if n > 0 {
                    let (q, sz) = p.ptr[n - 1].get();
                    if sz == s {
                        p.n.set(n - 1);
                        REUSED.fetch_add(1, Relaxed);
                        return q;
                    }
                }
                std::ptr::null_mut()
            }) {
                if !p.is_null() {
                    return p;
                }
            }
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let s = l.size();
        if s >= LO && s < HI && l.align() == ALIGN {
            let kept = POOL
                .try_with(|pool| {
                    LIVE.with(|x| x.set(x.get() - 1));
                    if of_arena(p) {
                        ARENA.with(|a| a.give(p));
                        return true;
                    }
                    let n = pool.n.get();
                    if n < SLOTS {
                        pool.ptr[n].set((p, s));
                        pool.n.set(n + 1);
                        true
                    } else {
                        false
                    }
                })
                .unwrap_or(of_arena(p));
            if kept {
                return;
            }
        }
        unsafe { System.dealloc(p, l) }
    }
}

/// Builder blocks allocated by this thread that are not freed.
pub fn live_blocks() -> i64 {
    LIVE.with(|x| x.get())
}
/// How often the memory of a builder has been reused, in all threads.
pub fn reused_total() -> i64 {
    REUSED.load(Relaxed)
}
