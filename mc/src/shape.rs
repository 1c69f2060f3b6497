//! Every ordered tree and forest shape.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct S(pub Vec<S>);

impl S {
    pub fn leaf() -> S { S(vec![]) }
    pub fn count(&self) -> usize { 1 + self.0.iter().map(|k| k.count()).sum::<usize>() }
    pub fn height(&self) -> usize { 1 + self.0.iter().map(|k| k.height()).max().unwrap_or(0) }
    pub fn text(&self) -> String {
        if self.0.is_empty() { "o".into() } else { format!("o({})", forest_text(&self.0)) }
    }
}
pub fn forest_text(f: &[S]) -> String { f.iter().map(|k| k.text()).collect::<Vec<_>>().join(" ") }

/// All forests with exactly n nodes.
pub fn forests(n: usize) -> Vec<Vec<S>> {
    if n == 0 { return vec![vec![]]; }
    let mut out = vec![];
    for first in 1..=n {
        let heads = trees(first);
        let tails = forests(n - first);
        for h in &heads {
            for t in &tails {
                let mut f = Vec::with_capacity(1 + t.len());
                f.push(h.clone());
                f.extend(t.iter().cloned());
                out.push(f);
            }
        }
    }
    out
}
/// All trees with exactly n nodes.
pub fn trees(n: usize) -> Vec<S> {
    if n == 0 { return vec![]; }
    forests(n - 1).into_iter().map(S).collect()
}
pub fn trees_upto(n: usize) -> Vec<S> { (1..=n).flat_map(trees).collect() }
pub fn forests_upto(n: usize) -> Vec<Vec<S>> { (0..=n).flat_map(forests).collect() }

/// Families beyond the exhaustive bound: star, chain, combs, caterpillar, binary tree.
pub fn scaled(n: usize) -> Vec<(String, S)> {
    let chain = |n: usize| { let mut t = S::leaf(); for _ in 1..n { t = S(vec![t]); } t };
    let mut rcomb = S::leaf();
    let mut lcomb = S::leaf();
    for _ in 0..n / 2 {
        rcomb = S(vec![S::leaf(), rcomb]);
        lcomb = S(vec![lcomb, S::leaf()]);
    }
    fn binary(d: usize) -> S { if d == 0 { S::leaf() } else { S(vec![binary(d - 1), binary(d - 1)]) } }
    let mut d = 1;
    while (1 << (d + 2)) <= n { d += 1; }
    vec![
        (format!("star{n}"), S(vec![S::leaf(); n - 1])),
        (format!("chain{n}"), chain(n)),
        (format!("rcomb{n}"), rcomb),
        (format!("lcomb{n}"), lcomb),
        (format!("brush{n}"), S(vec![chain(4.min(n)); (n / 4).max(1)])),
        (format!("binary{d}"), binary(d)),
    ]
}
