//! Explores every interleaving of the threads' accesses to the library's shared counters (loom), for every
//! bounded history. usage: race-loom SET FIRST STEP | race-loom SET --count | race-loom SET --case N
include!("../../cases.rs");
use loom::cell::UnsafeCell;
use std::sync::atomic::Ordering::SeqCst;
use std::alloc::{GlobalAlloc, Layout, System};

/// Blocks of nodes (aligned like D) are counted, and on their release filled and kept until the execution ends.
struct Marked;
const MAX: usize = 256;
static BLOCKS: [(AtomicUsize, AtomicUsize, AtomicUsize); MAX] = [const { (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0)) }; MAX]; // address, size, state (1 live, 2 freed)
static NBLOCKS: AtomicUsize = AtomicUsize::new(0);
static BUFFER: AtomicUsize = AtomicUsize::new(0); // the source's buffer
static SHADOW: std::sync::atomic::AtomicPtr<Shadow> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
static DOUBLE: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Marked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if l.align() == 256 {
            let i = NBLOCKS.fetch_add(1, SeqCst);
            if i >= MAX { std::process::abort() }
            BLOCKS[i].0.store(p as usize, SeqCst);
            BLOCKS[i].1.store(l.size(), SeqCst);
            BLOCKS[i].2.store(1, SeqCst);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() != 256 { return System.dealloc(p, l) }
        for b in &BLOCKS[..NBLOCKS.load(SeqCst)] {
            if b.0.load(SeqCst) == p as usize {
                if b.2.swap(2, SeqCst) != 1 { DOUBLE.fetch_add(1, SeqCst); }
                if BUFFER.load(SeqCst) == p as usize { (*SHADOW.load(SeqCst)).0.with_mut(|_| ()) }
                std::ptr::write_bytes(p, 0xDB, l.size());
                return;
            }
        }
        DOUBLE.fetch_add(1, SeqCst);
    }
}
#[global_allocator]
static A: Marked = Marked;

/// The end of an execution: nothing left, nothing freed twice, nothing written after its release.
fn settle() {
    assert_eq!(live(), 0, "data left");
    assert_eq!(DOUBLE.swap(0, SeqCst), 0, "nodes freed twice");
    let n = NBLOCKS.load(SeqCst);
    for b in &BLOCKS[..n] {
        assert_eq!(b.2.load(SeqCst), 2, "nodes leaked ({} bytes; {n} blocks)", b.1.load(SeqCst));
        let (p, l) = (b.0.load(SeqCst) as *mut u8, b.1.load(SeqCst));
        for i in 0..l { assert_eq!(unsafe { p.add(i).read() }, 0xDB, "nodes written after their release") }
        unsafe { System.dealloc(p, Layout::from_size_align(l, 256).unwrap()) }
    }
    NBLOCKS.store(0, SeqCst);
}

/// Shadow of the source's buffer: read by every thread that still owns parts of it, written by its release; loom
/// wants the release ordered after all the reads.
struct Shadow(UnsafeCell<()>);
unsafe impl Send for Shadow {}
unsafe impl Sync for Shadow {}
/// After these operations a thread may own nothing of the source's buffer any more.
fn keeps(o: usize) -> bool { ![4, 6, 7, 8, 10].contains(&o) }
fn program(shadow: &Shadow, parts: &mut Vec<Part>, ops: &[(usize, usize)], back: bool) -> String {
    let mut s = String::new();
    let mut owner = !parts.is_empty();
    for &(o, a) in ops {
        if owner { shadow.0.with(|_| ()) }
        owner &= keeps(o);
        op(parts, a, o, &mut s);
    }
    if !back {
        if owner { shadow.0.with(|_| ()) }
        parts.clear();
    }
    s
}

static EXECUTIONS: AtomicUsize = AtomicUsize::new(0);

fn run(case: Case) {
    let first = std::cell::RefCell::new(None::<Vec<String>>);
    let first = std::sync::Arc::new(Shared(first));
    // the reference: the same programs one after the other (an execution of its own: each must be deterministic)
    let (c, f) = (case.clone(), first.clone());
    loom::model::Builder::new().check(move || {
        let (c, f) = (c.clone(), f.clone());
        loom::thread::Builder::new().stack_size(0x4000).spawn(move || {
            reset();
            BUFFER.store(0, SeqCst);
            let r = c.alone();
            settle();
            *f.0.borrow_mut() = Some(r);
        }).unwrap().join().unwrap()
    });
    let mut b = loom::model::Builder::new();
    b.max_branches = 100_000;
    b.preemption_bound = None;
    let body = std::sync::Arc::new(move || {
        EXECUTIONS.fetch_add(1, SeqCst);
        reset();
        BUFFER.store(0, SeqCst);
        let shadow = std::sync::Arc::new(Shadow(UnsafeCell::new(())));
        let parts = cut(case.source, case.mask);
        let (_, buffer) = BLOCKS[..NBLOCKS.load(SeqCst)].iter().filter(|b| b.2.load(SeqCst) == 1).map(|b| (b.1.load(SeqCst), b.0.load(SeqCst))).max().unwrap();
        BUFFER.store(buffer, SeqCst);
        SHADOW.store(std::sync::Arc::as_ptr(&shadow) as *mut Shadow, SeqCst);
        let mut mine: [Vec<Part>; 3] = Default::default();
        for (p, &o) in parts.into_iter().zip(&case.owner) { mine[o].push(p) }
        let mut joins = vec![];
        for t in [1, 2] {
            let mut parts = std::mem::take(&mut mine[t]);
            let ops = case.ops[t].clone();
            let back = case.back;
            let shadow = shadow.clone();
            joins.push(loom::thread::Builder::new().stack_size(0x4000).spawn(move || {
                let s = program(&shadow, &mut parts, &ops, back);
                (s, parts)
            }).unwrap());
        }
        let mut parts = std::mem::take(&mut mine[0]);
        let s = program(&shadow, &mut parts, &case.ops[0], case.back);
        let mut results = vec![s];
        for j in joins {
            let (s, mut p) = j.join().unwrap();
            results.push(s);
            parts.append(&mut p);
        }
        results.push(glue(parts));
        settle();
        assert_eq!(&results, first.0.borrow().as_ref().unwrap(), "results differ from those of the threads run one after the other");
    });
    // in a thread of its own, for a larger stack
    b.check(move || { let body = body.clone(); loom::thread::Builder::new().stack_size(0x4000).spawn(move || body()).unwrap().join().unwrap() });
}
struct Shared<T>(T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        println!("failed {}\t{}", CURRENT.lock().map(|c| c.clone()).unwrap_or_default(), i.to_string().replace('\n', " "));
        std::process::exit(1);
    }));
    let a: Vec<String> = std::env::args().collect();
    let spaces = spaces(&a[1]);
    match a[2].as_str() {
        "--count" => for (n, s) in &spaces { println!("{n} {}", s.count()) },
        _ => {
            let (first, step, only) = if a[2] == "--case" { (a[4].parse().unwrap(), u64::MAX, Some(a[3].clone())) } else { (a[2].parse().unwrap(), a[3].parse().unwrap(), None) };
            let wall: f64 = a.get(if only.is_some() { 5 } else { 4 }).map_or(1e9, |x| x.parse().unwrap());
            let t0 = std::time::Instant::now();
            for (n, s) in &spaces {
                if only.as_ref().map_or(false, |o| o != n) { continue }
                let mut i: u64 = first;
                let mut cases = 0;
                while i < s.count() {
                    if t0.elapsed().as_secs_f64() > wall { println!("capped {n}"); break }
                    let case = s.case(i);
                    CURRENT.lock().unwrap().replace_range(.., &format!("{n} {i} {}", case.text()));
                    if only.is_some() { eprintln!("{}", case.text()) }
                    run(case);
                    cases += 1;
                    i = match i.checked_add(step) { Some(x) => x, None => break };
                }
                println!("done {n} {cases} {}", EXECUTIONS.swap(0, SeqCst));
            }
        }
    }
}
static CURRENT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
