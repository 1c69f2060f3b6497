//! Runs, under Miri, every bounded history in every order of its operations. The threads take turns through
//! relaxed atomics, which order nothing, so any access to common memory which the library does not order
//! itself is a data race to Miri, whatever the turns. usage: as race-loom
include!("../../cases.rs");
use std::sync::Arc;

/// All interleavings of `n[t]` steps of each thread t.
fn schedules(n: [usize; 3]) -> Vec<Vec<usize>> {
    if n == [0; 3] { return vec![vec![]] }
    let mut v = vec![];
    for t in 0..3 {
        if n[t] == 0 { continue }
        let mut m = n;
        m[t] -= 1;
        for mut s in schedules(m) { s.insert(0, t); v.push(s) }
    }
    v
}

struct Turn { at: AtomicUsize, order: Vec<usize> }
impl Turn {
    fn wait(&self, t: usize) {
        while self.order.get(self.at.load(Relaxed)) != Some(&t) { std::thread::yield_now() }
    }
    fn pass(&self) { self.at.fetch_add(1, Relaxed); }
}
fn program(t: usize, turn: &Turn, parts: &mut Vec<Part>, ops: &[(usize, usize)], back: bool) -> String {
    let mut s = String::new();
    for &(o, a) in ops {
        turn.wait(t);
        op(parts, a, o, &mut s);
        turn.pass();
    }
    if !back {
        turn.wait(t);
        parts.clear();
        turn.pass();
    }
    s
}

fn run(case: &Case) -> u64 {
    reset();
    let alone = case.alone();
    assert_eq!(live(), 0, "data left");
    let owns = |t: usize| case.owner.contains(&t);
    let mut n = [0; 3];
    for t in 0..3 { if owns(t) { n[t] = case.ops[t].len() + !case.back as usize } }
    let all = schedules(n);
    for order in &all {
        reset();
        let turn = Arc::new(Turn { at: AtomicUsize::new(0), order: order.clone() });
        let mut mine: [Vec<Part>; 3] = Default::default();
        for (p, &o) in cut(case.source, case.mask).into_iter().zip(&case.owner) { mine[o].push(p) }
        let mut joins = vec![];
        for t in [1, 2] {
            let mut parts = std::mem::take(&mut mine[t]);
            let (ops, back, turn) = (case.ops[t].clone(), case.back, turn.clone());
            joins.push(std::thread::spawn(move || {
                let s = program(t, &turn, &mut parts, &ops, back);
                (s, parts)
            }));
        }
        let mut parts = std::mem::take(&mut mine[0]);
        let mut results = vec![if owns(0) { program(0, &turn, &mut parts, &case.ops[0], case.back) } else { String::new() }];
        for j in joins {
            let (s, mut p) = j.join().unwrap();
            results.push(s);
            parts.append(&mut p);
        }
        results.push(glue(parts));
        assert_eq!(live(), 0, "data left; order {order:?}");
        assert_eq!(results, alone, "results differ from those of the threads run one after the other; order {order:?}");
    }
    all.len() as u64
}

/// One tree read by two threads at once through shared references to its cursor (Sync).
fn shared(k: usize, masked: usize, first: usize, second: usize) {
    fn read(p: &Part, what: usize) -> String {
        let v = match p { Part::T(w) => w.get(), Part::F(w) => w.get() };
        let n = match &v { Some(v) => v.node(), None => return "-".into() };
        match what {
            0 => format!("{n}"),
            1 => format!("{}", n.deep_clone()),
            2 => n.iter().map(|c| format!("{} {} {}", c.data().read(), c.node_count(), c.parent().map_or(0, |p| p.degree()))).collect(),
            3 => n.bfs().iter.map(|v| format!("{}/{} ", v.data.read(), v.size.degree)).collect(),
            _ => format!("{:?} {:?} {}", n.front().map(|c| c.data().read()), n.back().map(|c| c.data().read()), n.has_no_child()),
        }
    }
    reset();
    let parts = Arc::new(cut(k, masked));
    let alone: Vec<String> = [first, second].iter().map(|&w| parts.iter().map(|p| read(p, w)).collect()).collect();
    let threads: Vec<_> = [first, second].into_iter().map(|w| {
        let parts = Sharable(parts.clone());
        std::thread::spawn(move || { let parts = parts; parts.0.iter().map(|p| read(p, w)).collect::<String>() })
    }).collect();
    let together: Vec<String> = threads.into_iter().map(|t| t.join().unwrap()).collect();
    assert_eq!(alone, together);
    drop(parts);
    assert_eq!(live(), 0, "data left");
}
struct Sharable(Arc<Vec<Part>>);
const _: fn() = || { fn sync<X: Sync + Send>() {} sync::<Part>(); sync::<Sharable>() };

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let spaces = spaces(&a[1]);
    let kinds: u64 = SOURCES as u64 * 8 * 15;
    match a[2].as_str() {
        "--count" => {
            for (n, s) in &spaces { println!("{n} {}", s.count()) }
            println!("shared {kinds}");
            for m in markers() { println!("marker {m}") }
        }
        _ => {
            let (first, step, only) = if a[2] == "--case" { (a[4].parse().unwrap(), u64::MAX, Some(a[3].clone())) } else { (a[2].parse().unwrap(), a[3].parse().unwrap(), None) };
            for (n, s) in &spaces {
                if only.as_ref().map_or(false, |o| o != n) { continue }
                let (mut i, mut cases, mut orders): (u64, u64, u64) = (first, 0, 0);
                while i < s.count() {
                    let case = s.case(i);
                    eprintln!("case {n} {i} {}", case.text());
                    orders += run(&case);
                    cases += 1;
                    i = match i.checked_add(step) { Some(x) => x, None => break };
                }
                println!("done {n} {cases} {orders}");
            }
            if only.as_ref().map_or(true, |o| o == "shared") {
                let (mut i, mut cases): (u64, u64) = (first, 0);
                while i < kinds {
                    let (k, mask, pair) = ((i % SOURCES as u64) as usize, (i / SOURCES as u64 % 8) as usize, (i / SOURCES as u64 / 8) as usize);
                    let (mut x, mut y, mut p) = (0, 0, pair);
                    'o: for f in 0..5 { for g in f..5 { if p == 0 { x = f; y = g; break 'o } p -= 1 } }
                    if mask < 1 << degree(k) {
                        eprintln!("case shared {i} source {k} without children {mask:b} read by two threads in ways {x} and {y}");
                        shared(k, mask, x, y);
                        cases += 1;
                    }
                    i = match i.checked_add(step) { Some(x) => x, None => break };
                }
                println!("done shared {cases} {cases}");
            }
        }
    }
}
