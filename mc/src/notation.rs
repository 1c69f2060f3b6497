//! Every form of the - and / operators on every pair (and triple) of operands (C18).
use crate::edits;
use crate::model::{self, accounted, label, label_forest, FKINDS, M};
use crate::reg::{self, Datum};
use crate::shape::{self, S};
use crate::sup::{self, Run};
use crate::util::H;
use crate::{bad, want};
use trees::{fr, tr, Forest, Tree};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum O { Neg, TSubT, TDivF, TDivT, TDivUnit, FSubT, FSubF }
use O::*;
/// (operator, left is borrowed, right is borrowed)
pub type Form = (O, bool, bool);
pub fn forms() -> Vec<Form> {
    let mut v = vec![];
    for o in [Neg, TDivUnit] { for l in [false, true] { v.push((o, l, false)); } }
    for o in [TSubT, TDivF, TDivT, FSubT, FSubF] { for l in [false, true] { for r in [false, true] { v.push((o, l, r)); } } }
    v
}
fn unary(o: O) -> bool { matches!(o, Neg | TDivUnit) }
fn left_is_tree(o: O) -> bool { !matches!(o, FSubT | FSubF) }
fn right_is_tree(o: O) -> bool { matches!(o, TSubT | TDivT | FSubT) }
fn gives_tree(o: O) -> bool { matches!(o, TDivF | TDivT | TDivUnit) }

pub enum V<X> { T(Tree<X>), F(Forest<X>) }
#[derive(Clone, Debug)]
pub enum W { T(M), F(Vec<M>) }
impl W {
    pub fn count(&self) -> usize { match self { W::T(m) => m.count(), W::F(f) => model::forest_count(f) } }
    fn text(&self) -> String { match self { W::T(m) => m.text(), W::F(f) => model::forest_text(f) } }
}
fn model_op(o: O, a: &W, b: &W) -> W {
    match (o, a, b) {
        (Neg, W::T(a), _) => W::F(vec![a.clone()]),
        (TDivUnit, W::T(a), _) => W::T(a.clone()),
        (TSubT, W::T(a), W::T(b)) => W::F(vec![a.clone(), b.clone()]),
        (TDivF, W::T(a), W::F(b)) => { let mut a = a.clone(); a.kids.extend(b.iter().cloned()); W::T(a) }
        (TDivT, W::T(a), W::T(b)) => { let mut a = a.clone(); a.kids.push(b.clone()); W::T(a) }
        (FSubT, W::F(a), W::T(b)) => { let mut a = a.clone(); a.push(b.clone()); W::F(a) }
        (FSubF, W::F(a), W::F(b)) => { let mut a = a.clone(); a.extend(b.iter().cloned()); W::F(a) }
        _ => unreachable!(),
    }
}
/// What is borrowed stays in its slot, what is owned is taken out.
fn real_op<X: Datum>(f: Form, a: &mut Option<V<X>>, b: &mut Option<V<X>>) -> V<X> {
    macro_rules! own { ($x:ident, $k:ident) => { match $x.take() { Some(V::$k(t)) => t, _ => unreachable!() } } }
    macro_rules! lend { ($x:ident, $k:ident) => { match &*$x { Some(V::$k(t)) => t, _ => unreachable!() } } }
    macro_rules! bin { ($op:tt, $l:ident, $r:ident, $out:ident) => { V::$out(match (f.1, f.2) {
        (false, false) => own!(a, $l) $op own!(b, $r),
        (false, true) => own!(a, $l) $op lend!(b, $r),
        (true, false) => lend!(a, $l) $op own!(b, $r),
        (true, true) => lend!(a, $l) $op lend!(b, $r),
    }) } }
    match f.0 {
        Neg => V::F(if f.1 { let t: &Tree<X> = lend!(a, T); -t } else { let t: Tree<X> = own!(a, T); -t }),
        TDivUnit => V::T(if f.1 { lend!(a, T) / () } else { own!(a, T) / () }),
        TSubT => bin!(-, T, T, F),
        TDivF => bin!(/, T, F, T),
        TDivT => bin!(/, T, T, T),
        FSubT => bin!(-, F, T, F),
        FSubF => bin!(-, F, F, F),
    }
}
fn build<X: Datum>(w: &W, kind: usize) -> V<X> {
    match w { W::T(m) => V::T(model::build(m, model::KINDS[kind % 6])), W::F(f) => V::F(model::build_forest(f, FKINDS[kind % 5])) }
}
fn check<X: Datum>(v: &V<X>, w: &W, h: &mut H) {
    match (v, w) { (V::T(t), W::T(m)) => model::check_tree(t, m, h), (V::F(t), W::F(f)) => model::check_forest(t, f, h), _ => unreachable!() }
}
fn uids<X: Datum>(v: &V<X>) -> Vec<u32> {
    fn go<X: Datum>(n: &trees::Node<X>, o: &mut Vec<u32>) { o.push(n.data().uid()); for k in n.iter() { go(k, o); } }
    let mut o = vec![];
    match v { V::T(t) => go(t.root(), &mut o), V::F(f) => for k in f.iter() { go(k, &mut o) } }
    o
}
fn drain<X: Datum>(v: V<X>, w: &W, d: u8) {
    match (v, w) { (V::T(t), W::T(m)) => model::drain_tree(t, m, d), (V::F(t), W::F(f)) => model::drain_forest(t, f, d), _ => unreachable!() }
}
fn edit<X: Datum>(v: &mut V<X>, w: &mut W, i: usize, lab: u32) -> Option<(Tree<X>, M)> {
    match (v, w) {
        (V::T(t), W::T(m)) => { let all = edits::all(m, false); let (p, e) = all[i % all.len()].clone(); edits::tree(t, m, &p, e, lab) }
        (V::F(t), W::F(f)) => {
            let mut m = M { lab: 9999, st: 0, kids: std::mem::take(f) };
            let all = edits::all(&m, true);
            let (p, e) = all[i % all.len()].clone();
            let r = edits::forest(t, &mut m, &p, e, lab);
            *f = m.kids;
            r
        }
        _ => unreachable!(),
    }
}
/// Evaluate `a f b`; everything that can be seen of it.
fn apply<X: Datum>(f: Form, a: &mut Option<V<X>>, wa: &W, b: &mut Option<V<X>>, wb: &W, h: &mut H) -> (V<X>, W) {
    let w = model_op(f.0, wa, wb);
    let (ua, ub) = (a.as_ref().map(uids), b.as_ref().map(uids));
    let clones = reg::clones();
    let live = reg::live();
    sup::stat(0, 1);
    let v = real_op(f, a, b);
    let made = if f.1 { wa.count() } else { 0 } + if f.2 { wb.count() } else { 0 };
    want!(Notation, reg::clones() - clones == made, "{f:?}: {} data were cloned, not {made}", reg::clones() - clones);
    want!(Notation, reg::live() == live + made, "{f:?}: {} data are alive, not {}", reg::live(), live + made);
    check(&v, &w, h);
    // what was owned has been moved, not replaced
    if !sup::failed() && X::TRACKED {
        let u = uids(&v);
        let owned: Vec<u32> = if f.1 { vec![] } else { ua.clone().unwrap_or_default() }.into_iter().chain(if f.2 || unary(f.0) { vec![] } else { ub.clone().unwrap_or_default() }).collect();
        want!(Notation, owned.iter().all(|x| u.contains(x)), "{f:?}: an owned datum has been replaced");
    }
    for (lent, x, w) in [(f.1, &*a, wa), (f.2, &*b, wb)] { if lent { check(x.as_ref().unwrap(), w, h); } }
    if let (true, Some(x)) = (f.1, &*a) { want!(Notation, Some(uids(x)) == ua, "{f:?}: the borrowed left operand has other data now"); }
    if let (true, Some(x)) = (f.2, &*b) { want!(Notation, Some(uids(x)) == ub, "{f:?}: the borrowed right operand has other data now"); }
    if sup::failed() { bad!(Notation, "{f:?} of {} and {} does not give {}", wa.text(), wb.text(), w.text()); }
    (v, w)
}
fn relabel(w: &W, by: u32) -> W {
    let go = |m: &M| { let mut m = m.clone(); m.each_mut(&mut |n| n.lab += by); m };
    match w { W::T(m) => W::T(go(m)), W::F(f) => W::F(f.iter().map(go).collect()) }
}
fn two<X: Datum>(f: Form, wa: &W, wb: &W, ka: usize, kb: usize, same: bool, end: usize) {
    accounted(|| {
        let mut h = H::new();
        let wb = &relabel(wb, 30);
        let mut a = Some(build::<X>(wa, ka));
        let (mut v, mut w);
        let mut b = None;
        if same {
            // both operands are one and the same
            w = model_op(f.0, wa, wa);
            sup::stat(0, 1);
            v = match (&a, f.0) { (Some(V::T(t)), TSubT) => V::F(t - t), (Some(V::T(t)), TDivT) => V::T(t / t), (Some(V::F(t)), FSubF) => V::F(t - t), _ => unreachable!() };
            check(&v, &w, &mut h);
            check(a.as_ref().unwrap(), wa, &mut h);
        } else {
            if !unary(f.0) { b = Some(build::<X>(wb, kb)); }
            (v, w) = apply(f, &mut a, wa, &mut b, wb, &mut h);
        }
        if sup::failed() { bad!(Notation, "{f:?}"); std::mem::forget((v, a, b)); return; }
        // the operands go away before or after the result is edited
        if end % 2 == 0 { a = None; b = None; }
        let cut = edit(&mut v, &mut w, end / 2, 500);
        check(&v, &w, &mut h);
        if let Some(x) = &a { check(x, wa, &mut h); }
        if let Some(x) = &b { check(x, wb, &mut h); }
        if let Some((t, m)) = cut { model::check_tree(&t, &m, &mut h); drop(t); }
        let d = (end % 10) as u8;
        if !sup::failed() {
            drain(v, &w, d);
            if let Some(x) = a { drain(x, wa, d); }
            if let Some(x) = b { drain(x, wb, d); }
        }
        if sup::failed() { bad!(Notation, "the result of {f:?} or its operands misbehave later"); }
        sup::digest(h.0);
        sup::stat(1, 1);
    })
}
/// (a f b) g c, or a f (b g c)
fn three<X: Datum>(f: Form, g: Form, right: bool, ws: [&W; 3], k: usize, end: usize) {
    accounted(|| {
        let mut h = H::new();
        let (wa, wb, wc) = (ws[0], &relabel(ws[1], 30), &relabel(ws[2], 60));
        let (mut a, mut b, mut c) = (Some(build::<X>(wa, k)), Some(build::<X>(wb, k / 6)), Some(build::<X>(wc, k / 36)));
        let (v, w) = if right {
            let (v, w) = apply(g, &mut b, wb, &mut c, wc, &mut h);
            if sup::failed() { std::mem::forget((v, a, b, c)); return; }
            let mut x = Some(v);
            let r = apply(f, &mut a, wa, &mut x, &w, &mut h);
            if let Some(x) = x { check(&x, &w, &mut h); }
            r
        } else {
            let (v, w) = apply(f, &mut a, wa, &mut b, wb, &mut h);
            if sup::failed() { std::mem::forget((v, a, b, c)); return; }
            let mut x = Some(v);
            let r = apply(g, &mut x, &w, &mut c, wc, &mut h);
            if let Some(x) = x { check(&x, &w, &mut h); }
            r
        };
        if sup::failed() { std::mem::forget((v, a, b, c)); return; }
        if end % 3 == 0 { a = None; }
        if end % 3 == 1 { b = None; c = None; }
        for (x, w) in [(&a, wa), (&b, wb), (&c, wc)] { if let Some(x) = x { check(x, w, &mut h); } }
        drain(v, &w, (end % 10) as u8);
        for (x, w) in [(&a, wa), (&b, wb), (&c, wc)] { if let Some(x) = x { check(x, w, &mut h); } }
        if sup::failed() { bad!(Notation, "the result of {f:?} and {g:?} or their operands misbehave later"); }
        sup::digest(h.0);
        sup::stat(1, 1);
    })
}

pub struct Bounds { pub two: usize, pub three: usize, pub scaled: usize }
pub fn explore<X: Datum>(run: &mut Run, tag: &str, b: &Bounds) {
    let trees = |n: usize| -> Vec<W> { shape::trees_upto(n).iter().map(|s| W::T(label(s, &mut 0))).collect() };
    let forests = |n: usize| -> Vec<W> { shape::forests_upto(n).iter().map(|f| W::F(label_forest(f, &mut 0))).collect() };
    let big: Vec<S> = shape::scaled(b.scaled).into_iter().map(|x| x.1).collect();
    let (mut t, mut f) = (trees(b.two), forests(b.two));
    t.extend(big.iter().map(|s| W::T(label(s, &mut 0))));
    f.extend(big.iter().map(|s| W::F(label_forest(&s.0, &mut 0))));
    let small = |w: &W| w.count() <= b.two;
    let fs = forms();
    let mut cases: Vec<(u8, u16, u16, bool)> = vec![];
    for (i, o) in fs.iter().enumerate() {
        let (l, r) = (if left_is_tree(o.0) { &t } else { &f }, if right_is_tree(o.0) { &t } else { &f });
        for a in 0..l.len() {
            if unary(o.0) { cases.push((i as u8, a as u16, 0, false)); continue; }
            for c in 0..r.len() { if l[a].count() + r[c].count() <= b.two + 2 || !small(&l[a]) && r[c].count() <= 3 || !small(&r[c]) && l[a].count() <= 3 { cases.push((i as u8, a as u16, c as u16, false)); } }
            if o.1 && o.2 && matches!(o.0, TSubT | TDivT | FSubF) { cases.push((i as u8, a as u16, 0, true)); }
        }
    }
    run.states += cases.len() as u64;
    let per = 36;
    run.explore(&format!("{tag}notation-{}", b.two), &format!("{} operator forms (owned or borrowed operands) x all pairs of operands up to {} nodes together (and families of {} nodes), each in every storage form; borrowed operands also one and the same; the result edited and taken apart", fs.len(), b.two + 2, b.scaled), cases.len() as u64 * per,
        &|i| {
            let (o, x, y, same) = cases[(i / per) as usize];
            let o = fs[o as usize];
            let (l, r) = (if left_is_tree(o.0) { &t } else { &f }, if right_is_tree(o.0) { &t } else { &f });
            two::<X>(o, &l[x as usize], &r[y as usize], (i % 6) as usize, (i / 6 % 6) as usize, same, (i / per + i % per) as usize)
        },
        &|i| {
            let (o, x, y, same) = cases[(i / per) as usize];
            let o = fs[o as usize];
            let (l, r) = (if left_is_tree(o.0) { &t } else { &f }, if right_is_tree(o.0) { &t } else { &f });
            format!("{o:?} (operator, left borrowed, right borrowed) of {} and {} in storage forms {} and {}", l[x as usize].text(), if unary(o.0) { "nothing".into() } else if same { "itself".into() } else { r[y as usize].text() }, i % 6, i / 6 % 6)
        });
    let (t, f) = (trees(b.three), forests(b.three));
    let mut cases: Vec<(u8, u8, bool, [u16; 3])> = vec![];
    for (i, o) in fs.iter().enumerate() {
        for (j, g) in fs.iter().enumerate() {
            for right in [false, true] {
                if right && (unary(o.0) || gives_tree(g.0) != right_is_tree(o.0)) || !right && (gives_tree(o.0) != left_is_tree(g.0)) { continue; }
                let pick = |tree: bool| if tree { t.len() } else { f.len() };
                let n = if right { [pick(left_is_tree(o.0)), pick(left_is_tree(g.0)), if unary(g.0) { 1 } else { pick(right_is_tree(g.0)) }] }
                    else { [pick(left_is_tree(o.0)), if unary(o.0) { 1 } else { pick(right_is_tree(o.0)) }, if unary(g.0) { 1 } else { pick(right_is_tree(g.0)) }] };
                for x in 0..n[0] { for y in 0..n[1] { for z in 0..n[2] { cases.push((i as u8, j as u8, right, [x as u16, y as u16, z as u16])); } } }
            }
        }
    }
    run.states += cases.len() as u64;
    let ops = |i: u64| {
        let (o, g, right, x) = &cases[(i / 6) as usize];
        let (o, g) = (fs[*o as usize], fs[*g as usize]);
        let pick = |tree: bool, i: u16| if tree { &t[i as usize] } else { &f[i as usize] };
        let ws = if *right { [pick(left_is_tree(o.0), x[0]), pick(left_is_tree(g.0), x[1]), pick(right_is_tree(g.0), x[2])] }
            else { [pick(left_is_tree(o.0), x[0]), pick(right_is_tree(o.0), x[1]), pick(right_is_tree(g.0), x[2])] };
        (o, g, *right, ws)
    };
    run.explore(&format!("{tag}expressions-{}", b.three), &format!("two operators on three operands of at most {} nodes, grouped to the left and to the right", b.three), cases.len() as u64 * 6,
        &|i| { let (o, g, r, ws) = ops(i); three::<X>(o, g, r, ws, (i % 6 + i / 6 * 7) as usize, (i / 6 + i) as usize) },
        &|i| { let (o, g, r, ws) = ops(i); format!("{o:?}, {g:?} grouped to the {}: {}, {}, {}", if r { "right" } else { "left" }, ws[0].text(), ws[1].text(), ws[2].text()) });
    run.explore(&format!("{tag}constants"), "tr(x) and fr()", 2, &|i| accounted(|| {
        let mut h = H::new();
        if i == 0 { let t = tr(X::mk(5)); model::check_tree(&t, &M::leaf(5), &mut h); } else { let f: Forest<X> = fr(); model::check_forest(&f, &[], &mut h); }
        if sup::failed() { bad!(Notation, "tr or fr"); }
    }), &|i| if i == 0 { "tr(5)".into() } else { "fr()".into() });
}
