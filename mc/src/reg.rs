//! Registry of every tracked datum of the running case, and the tracked data types.
//! Fixed-size statics: the registry itself never allocates.
use crate::sup::{fail, Facet};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering::Relaxed};

pub const MAXU: usize = 1 << 19;
const MAGIC: u32 = 0x5eed_1234;
static STATE: [AtomicU8; MAXU] = [const { AtomicU8::new(0) }; MAXU]; // 0 unused, 1 alive, 2 dropped
static VALS: [AtomicU32; MAXU] = [const { AtomicU32::new(0) }; MAXU];
static NEXT: AtomicU32 = AtomicU32::new(1);
static LIVE: AtomicU32 = AtomicU32::new(0);
static CLONES: AtomicU32 = AtomicU32::new(0);

/// Forget the data of the previous case.
pub fn reset() {
    let n = (NEXT.load(Relaxed) as usize).min(MAXU);
    for s in &STATE[..n] { s.store(0, Relaxed); }
    NEXT.store(1, Relaxed);
    LIVE.store(0, Relaxed);
    CLONES.store(0, Relaxed);
    BOMB.with(|b| b.set(Bomb::OFF));
}
fn born(val: u32) -> u32 {
    let uid = NEXT.fetch_add(1, Relaxed);
    if uid as usize >= MAXU {
        // only runaway code gets here
        fail(Facet::Crash, format_args!("runaway creation of data"));
        unsafe { crate::sys::_exit(77) };
    }
    STATE[uid as usize].store(1, Relaxed);
    VALS[uid as usize].store(val, Relaxed);
    LIVE.fetch_add(1, Relaxed);
    uid
}
fn died(uid: u32, val: u32) {
    let i = uid as usize;
    if i == 0 || i >= MAXU || i >= NEXT.load(Relaxed) as usize {
        fail(Facet::Drop, format_args!("dropped something that never was a datum (uid {uid})"));
        return;
    }
    match STATE[i].load(Relaxed) {
        1 => {
            STATE[i].store(2, Relaxed);
            LIVE.fetch_sub(1, Relaxed);
            if VALS[i].load(Relaxed) != val {
                fail(Facet::Memory, format_args!("datum {uid} was overwritten"));
            }
        }
        2 => fail(Facet::Drop, format_args!("datum with label {} dropped twice", VALS[i].load(Relaxed))),
        _ => fail(Facet::Drop, format_args!("dropped an unborn datum (uid {uid})")),
    }
}
/// Reading a datum: it must be alive and intact.
fn seen(uid: u32, val: u32) -> u32 {
    let i = uid as usize;
    if i == 0 || i >= MAXU || STATE[i].load(Relaxed) == 0 || VALS[i].load(Relaxed) != val {
        fail(Facet::Memory, format_args!("read a corrupt datum (uid {uid}, label {val})"));
    } else if STATE[i].load(Relaxed) == 2 {
        fail(Facet::Drop, format_args!("datum with label {val} is reachable after its drop"));
    }
    val
}
pub fn live() -> usize { LIVE.load(Relaxed) as usize }
pub fn clones() -> usize { CLONES.load(Relaxed) as usize }
pub fn born_total() -> usize { NEXT.load(Relaxed) as usize - 1 }
pub fn is_live(uid: u32) -> bool {
    (uid as usize) < MAXU && STATE[uid as usize].load(Relaxed) == 1
}
pub fn val_of(uid: u32) -> u32 { VALS[uid as usize].load(Relaxed) }

/// Which user callback panics, and at which of its calls (fault injection).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Bomb { pub kind: u8, pub countdown: i32 }
impl Bomb { pub const OFF: Bomb = Bomb { kind: 0, countdown: -1 }; }
pub const K_CLONE: u8 = 1;
pub const K_DROP: u8 = 2;
pub const K_EQ: u8 = 3;
pub const K_CMP: u8 = 4;
pub const K_FMT: u8 = 5;
pub const K_HASH: u8 = 6;
pub const K_CALL: u8 = 7; // closures and iterators
thread_local! {
    pub static BOMB: Cell<Bomb> = const { Cell::new(Bomb::OFF) };
    pub static CALLS: Cell<u32> = const { Cell::new(0) };
}
/// Called by every piece of user code the library calls.
pub fn user_call(kind: u8) {
    BOMB.with(|b| {
        let mut x = b.get();
        if x.kind == kind {
            CALLS.with(|c| c.set(c.get() + 1));
            if x.countdown >= 0 {
                x.countdown -= 1;
                b.set(x);
                if x.countdown < 0 {
                    std::panic::resume_unwind(Box::new("bomb"));
                }
            }
        }
    })
}
pub fn arm(kind: u8, at: i32) {
    BOMB.with(|b| b.set(Bomb { kind, countdown: at }));
    CALLS.with(|c| c.set(0));
}
pub fn disarm() -> u32 {
    BOMB.with(|b| b.set(Bomb::OFF));
    CALLS.with(|c| c.get())
}

/// A data type the explorers can label, track and read back.
pub trait Datum: Sized + Clone + Unpin + 'static {
    /// Does the registry know which of them are alive?
    const TRACKED: bool;
    const NAME: &'static str;
    fn mk(label: u32) -> Self;
    /// The label; checks that the datum is alive and intact.
    fn val(&self) -> u32;
    fn set(&mut self, label: u32);
    /// What `val` gives back for a datum made with this label.
    fn norm(label: u32) -> u32 { label }
    /// Identity of the datum (0 if it has none).
    fn uid(&self) -> u32 { 0 }
}

/// Label plus identity plus a heap block.
pub struct D { uid: u32, val: u32, heap: Box<u32> }
impl Datum for D {
    const TRACKED: bool = true;
    const NAME: &'static str = "D";
    fn mk(label: u32) -> Self {
        let uid = born(label);
        D { uid, val: label, heap: Box::new(uid ^ MAGIC) }
    }
    fn val(&self) -> u32 {
        let v = seen(self.uid, self.val);
        if *self.heap != self.uid ^ MAGIC {
            fail(Facet::Memory, format_args!("heap block of datum {} is corrupt", self.uid));
        }
        v
    }
    fn set(&mut self, label: u32) {
        self.val();
        self.val = label;
        VALS[self.uid as usize].store(label, Relaxed);
    }
    fn uid(&self) -> u32 { self.uid }
}
impl Clone for D {
    fn clone(&self) -> D {
        let v = self.val();
        user_call(K_CLONE);
        CLONES.fetch_add(1, Relaxed);
        D::mk(v)
    }
}
impl Drop for D {
    fn drop(&mut self) {
        if *self.heap != self.uid ^ MAGIC {
            fail(Facet::Memory, format_args!("heap block of datum {} is corrupt at its drop", self.uid));
        }
        died(self.uid, self.val);
        user_call(K_DROP);
    }
}
impl std::fmt::Display for D {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        user_call(K_FMT);
        write!(f, "{}", self.val())
    }
}
impl std::fmt::Debug for D {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        user_call(K_FMT);
        write!(f, "{}", self.val())
    }
}
impl PartialEq for D {
    fn eq(&self, o: &D) -> bool { user_call(K_EQ); self.val() == o.val() }
}
impl Eq for D {}
impl PartialOrd for D {
    fn partial_cmp(&self, o: &D) -> Option<std::cmp::Ordering> { user_call(K_CMP); self.val().partial_cmp(&o.val()) }
}
impl Ord for D {
    fn cmp(&self, o: &D) -> std::cmp::Ordering { user_call(K_CMP); self.val().cmp(&o.val()) }
}
impl std::hash::Hash for D {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) { user_call(K_HASH); self.val().hash(h) }
}

/// Zero-sized, counted.
pub struct Z;
impl Datum for Z {
    const TRACKED: bool = false;
    const NAME: &'static str = "Z";
    fn mk(_: u32) -> Z { LIVE.fetch_add(1, Relaxed); Z }
    fn val(&self) -> u32 { 0 }
    fn norm(_: u32) -> u32 { 0 }
    fn set(&mut self, _: u32) {}
}
impl Clone for Z { fn clone(&self) -> Z { CLONES.fetch_add(1, Relaxed); Z::mk(0) } }
impl Drop for Z {
    fn drop(&mut self) {
        if LIVE.fetch_sub(1, Relaxed) == 0 {
            LIVE.store(0, Relaxed);
            fail(Facet::Drop, format_args!("more drops than data"));
        }
    }
}

/// Over-aligned.
#[repr(align(128))]
pub struct A(D);
impl A {
    fn check(&self) {
        if self as *const A as usize % 128 != 0 {
            fail(Facet::Memory, format_args!("misaligned datum"));
        }
    }
}
impl Datum for A {
    const TRACKED: bool = true;
    const NAME: &'static str = "A";
    fn mk(label: u32) -> A { A(D::mk(label)) }
    fn val(&self) -> u32 { self.check(); self.0.val() }
    fn set(&mut self, label: u32) { self.check(); self.0.set(label) }
    fn uid(&self) -> u32 { self.0.uid }
}
impl Clone for A { fn clone(&self) -> A { self.check(); A(self.0.clone()) } }
impl Drop for A { fn drop(&mut self) { self.check(); } }

/// Large, with guards at both ends.
pub struct B { lo: [u64; 40], d: D, hi: [u64; 40] }
impl B {
    fn check(&self) {
        if self.lo.iter().chain(self.hi.iter()).any(|&x| x != 0x1122_3344_5566_7788) {
            fail(Facet::Memory, format_args!("large datum was overwritten"));
        }
    }
}
impl Datum for B {
    const TRACKED: bool = true;
    const NAME: &'static str = "B";
    fn mk(label: u32) -> B { B { lo: [0x1122_3344_5566_7788; 40], d: D::mk(label), hi: [0x1122_3344_5566_7788; 40] } }
    fn val(&self) -> u32 { self.check(); self.d.val() }
    fn set(&mut self, label: u32) { self.check(); self.d.set(label) }
    fn uid(&self) -> u32 { self.d.uid }
}
impl Clone for B { fn clone(&self) -> B { self.check(); B { lo: self.lo, d: self.d.clone(), hi: self.hi } } }
impl Drop for B { fn drop(&mut self) { self.check(); } }

/// One byte: the smallest non-zero-sized datum.
pub struct U8(u8);
impl Datum for U8 {
    const TRACKED: bool = false;
    const NAME: &'static str = "U8";
    fn mk(label: u32) -> U8 { LIVE.fetch_add(1, Relaxed); U8(label as u8) }
    fn val(&self) -> u32 { self.0 as u32 }
    fn norm(label: u32) -> u32 { label & 0xff }
    fn set(&mut self, label: u32) { self.0 = label as u8 }
}
impl Clone for U8 { fn clone(&self) -> U8 { CLONES.fetch_add(1, Relaxed); U8::mk(self.0 as u32) } }
impl Drop for U8 {
    fn drop(&mut self) {
        if LIVE.fetch_sub(1, Relaxed) == 0 {
            LIVE.store(0, Relaxed);
            fail(Facet::Drop, format_args!("more drops than data"));
        }
    }
}

/// Labels (< 1024) of the data which are alive, as a bit set.
pub fn live_labels() -> [u64; 16] {
    let n = (NEXT.load(Relaxed) as usize).min(MAXU);
    let mut s = [0u64; 16];
    for i in 1..n {
        if STATE[i].load(Relaxed) == 1 {
            let v = VALS[i].load(Relaxed);
            if v < 1024 { s[v as usize / 64] |= 1 << (v % 64); }
        }
    }
    s
}
