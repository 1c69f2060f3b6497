//! All histories once more, at smaller bounds and with data of every layout, for a memory checker to watch.
use mc::reg::*;
use mc::sup::Run;
use mc::*;
fn all<X: Datum>(run: &mut Run, tag: &str, deep: bool) {
    let l = |n, h, w, i| rc::Lim { n, h, w, i };
    let t = run.thorough();
    let o = match (t, deep) {
        (true, true) => own::Bounds { spaces: vec![(4, 2)], pairs: vec![(3, 2)], histories: vec![(3, 3, 3)], shape: 7, fshape: 6, operand: 3, scaled: vec![12, 24], follow: vec![(4, 3, 2)] },
        (true, false) => own::Bounds { spaces: vec![(3, 3)], pairs: vec![(2, 2)], histories: vec![(2, 2, 3)], shape: 6, fshape: 5, operand: 3, scaled: vec![12], follow: vec![(3, 2, 2)] },
        (false, true) => own::Bounds { spaces: vec![(3, 3)], pairs: vec![(2, 2)], histories: vec![(2, 2, 3)], shape: 5, fshape: 4, operand: 3, scaled: vec![12], follow: vec![(3, 2, 2)] },
        (false, false) => own::Bounds { spaces: vec![(3, 2)], pairs: vec![(2, 2)], histories: vec![(2, 2, 2)], shape: 4, fshape: 3, operand: 2, scaled: vec![12], follow: vec![(3, 2, 2)] },
    };
    own::explore::<X>(run, tag, &o);
    let r = match (t, deep) {
        (true, true) => rc::Bounds { spaces: vec![l(3, 3, 1, 1), l(4, 2, 1, 1), l(3, 2, 1, 2)], pairs: vec![l(3, 2, 1, 1)], shape: 6, scaled: vec![12], wide: 3, many: 300 },
        (true, false) => rc::Bounds { spaces: vec![l(3, 2, 1, 1)], pairs: vec![l(3, 2, 0, 0)], shape: 6, scaled: vec![12], wide: 3, many: 300 },
        (false, true) => rc::Bounds { spaces: vec![l(3, 2, 1, 1)], pairs: vec![l(3, 2, 0, 0)], shape: 5, scaled: vec![12], wide: 3, many: 300 },
        (false, false) => rc::Bounds { spaces: vec![l(2, 2, 1, 1)], pairs: vec![l(2, 2, 0, 0)], shape: 4, scaled: vec![12], wide: 3, many: 300 },
    };
    rc::explore::<X>(run, tag, &r);
    itermut::explore::<X>(run, tag, if t { 3 } else { 2 }, if t { 4 } else { 3 }, if deep || t { 3 } else { 2 }, &[12]);
    childiter::explore::<X>(run, tag, 3, if t { 3 } else { 2 }, &[9]);
    conv::explore::<X>(run, tag, if t { 6 } else if deep { 5 } else { 4 }, if t { 5 } else if deep { 4 } else { 3 }, &[12]);
    let b = if t { bfs::Bounds { n: 6, edit: 5, scaled: vec![12], len: 4, deg: 3, desc: 4, long: None, mutants: 6 } }
        else { bfs::Bounds { n: 5, edit: 4, scaled: vec![12], len: 3, deg: 3, desc: 4, long: if deep { Some((4, 2, 3)) } else { None }, mutants: if deep { 5 } else { 4 } } };
    bfs::explore::<X>(run, tag, &b, 7);
    let w = if t { walk::Bounds { plain: 8, pairs: 5, scaled: vec![12], hist: vec![(4, 4)] } }
        else { walk::Bounds { plain: 5, pairs: 4, scaled: vec![12], hist: vec![(3, if deep { 4 } else { 3 })] } };
    walk::explore::<X>(run, tag, &w, 3);
    copy::explore::<X>(run, tag, if t { 5 } else { 4 }, &[12]);
}
fn main() {
    let mut run = Run::from_args();
    let only = run.p("type", 0, 0);
    for i in 1..=5 {
        if only != 0 && only != i { continue; }
        match i {
            1 => all::<D>(&mut run, "tracked ", true),
            2 => all::<Z>(&mut run, "zero-sized ", false),
            3 => all::<A>(&mut run, "over-aligned ", false),
            4 => all::<B>(&mut run, "large ", false),
            _ => all::<U8>(&mut run, "byte ", false),
        }
    }
    run.finish()
}
