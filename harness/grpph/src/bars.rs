//! Bars and representatives of grounded persistent path homology.
use crate::digraphs::*;
use hcore::dense::Arg;
use ordered_float::NotNan;
use phlite::fields::*;
use phlite::matrices::*;
use phlite::reduction::*;
use phlite_grpph::coboundary::*;
use phlite_grpph::verif::{grpph, grpph_with_involution};
use vs::{check, observe, reach};

/// The filtered complex by its definition, over Z/2, times as ranks.
pub struct Truth {
    pub n: usize,
    /// distinct times in ascending order, the first is 0
    pub times: Vec<f64>,
    /// every pair of nodes that is ever an edge, and when it is
    pub edges: Vec<((u16, u16), usize)>,
    /// when a pair is within reach
    pub class: Vec<Vec<Option<usize>>>,
    /// per time: a basis in echelon form of the boundaries
    pub b1: Vec<Vec<u64>>,
}

/// Reduces `v` by an echelon basis (distinct top bits).
fn reduce(basis: &[u64], mut v: u64) -> u64 {
    for &b in basis {
        if b != 0 && v >> (63 - b.leading_zeros()) & 1 == 1 {
            v ^= b;
        }
    }
    v
}

/// Adds `v` to a basis sorted by top bit, highest first.
fn insert(basis: &mut Vec<u64>, v: u64) -> bool {
    let v = reduce(basis, v);
    if v == 0 {
        return false;
    }
    let i = basis.iter().position(|&b| b < v).unwrap_or(basis.len());
    basis.insert(i, v);
    true
}

impl Truth {
    pub fn new(n: usize, time: &[Vec<Option<f64>>], ground: &[(u16, u16)]) -> Truth {
        let mut times = vec![0.0];
        for t in time.iter().flatten().flatten() {
            // position among the times found so far, by comparison
            let mut i = 0;
            while i < times.len() && vs::fork(times[i] < *t) {
                i += 1;
            }
            if i == times.len() || !vs::fork(times[i] == *t) {
                times.insert(i, *t);
            }
        }
        let class: Vec<Vec<Option<usize>>> = time.iter().map(|r| r.iter().map(|t| t.map(|t| (0..times.len()).find(|&i| vs::fork(times[i] == t)).unwrap())).collect()).collect();
        let mut edges = vec![];
        for i in 0..n {
            for j in 0..n {
                if ground.contains(&(i as u16, j as u16)) {
                    edges.push(((i as u16, j as u16), 0));
                } else if let Some(c) = class[i][j] {
                    edges.push(((i as u16, j as u16), c));
                }
            }
        }
        let mut t = Truth { n, times, edges, class, b1: vec![] };
        t.b1 = (0..t.times.len()).map(|c| t.boundaries(c)).collect();
        t
    }
    fn bit(&self, i: usize, j: usize) -> u64 {
        1 << self.edges.iter().position(|e| e.0 == (i as u16, j as u16)).unwrap()
    }
    fn near(&self, i: usize, j: usize, c: usize) -> bool {
        i != j && self.class[i][j].is_some_and(|x| x <= c)
    }
    /// Boundaries of all chains of two-paths at time `c` with allowed boundary.
    fn boundaries(&self, c: usize) -> Vec<u64> {
        let mut out = vec![];
        for a in 0..self.n {
            for z in 0..self.n {
                let via: Vec<usize> = (0..self.n).filter(|&b| self.near(a, b, c) && self.near(b, z, c)).collect();
                let path = |b: usize| self.bit(a, b) ^ self.bit(b, z);
                for (k, &b) in via.iter().enumerate() {
                    if a == z {
                        insert(&mut out, path(b));
                    } else if self.near(a, z, c) {
                        insert(&mut out, path(b) ^ self.bit(a, z));
                    } else if k > 0 {
                        insert(&mut out, path(b) ^ path(via[0]));
                    }
                }
            }
        }
        out
    }
    /// A basis of the cycles at time `c`.
    fn cycles(&self, c: usize) -> Vec<u64> {
        // pairs (boundary in the upper half, chain) by elimination
        let mut rows: Vec<(u64, u64)> = vec![];
        let mut out = vec![];
        for (k, &((i, j), t)) in self.edges.iter().enumerate() {
            if t > c {
                continue;
            }
            let (mut v, mut x) = ((1u64 << i) ^ (1u64 << j), 1u64 << k);
            for &(b, y) in &rows {
                if v >> (63 - b.leading_zeros()) & 1 == 1 {
                    v ^= b;
                    x ^= y;
                }
            }
            if v == 0 {
                insert(&mut out, x);
            } else {
                let p = rows.iter().position(|r| r.0 < v).unwrap_or(rows.len());
                rows.insert(p, (v, x));
            }
        }
        out
    }
    pub fn components(&self, c: usize) -> usize {
        let mut basis = vec![];
        for &((i, j), t) in &self.edges {
            if t <= c {
                insert(&mut basis, (1u64 << i) ^ (1u64 << j));
            }
        }
        self.n - basis.len()
    }
    /// Essential and finite bars per dimension, of positive length.
    pub fn bars(&self) -> (Vec<Vec<f64>>, Vec<Vec<(f64, f64)>>) {
        let m = self.times.len();
        let mut ess = vec![vec![0.0; self.components(m - 1)], vec![]];
        let mut fin = vec![vec![], vec![]];
        for t in 1..m {
            for _ in self.components(t)..self.components(t - 1) {
                fin[0].push((0.0, self.times[t]));
            }
        }
        // beta[s][t]: rank of the map from time s to time t
        let beta: Vec<Vec<usize>> = (0..m)
            .map(|s| {
                let z = self.cycles(s);
                (0..m)
                    .map(|t| {
                        let mut all = self.b1[t].clone();
                        z.iter().filter(|&&v| insert(&mut all, v)).count()
                    })
                    .collect()
            })
            .collect();
        let at = |s: usize, t: usize| if s == 0 { 0 } else { beta[s - 1][t] };
        for s in 0..m {
            for _ in at(s, m - 1)..beta[s][m - 1] {
                ess[1].push(self.times[s]);
            }
            for t in s + 1..m {
                let mult = (beta[s][t - 1] + at(s, t)) - (beta[s][t] + at(s, t - 1));
                for _ in 0..mult {
                    fin[1].push((self.times[s], self.times[t]));
                }
            }
        }
        (ess, fin)
    }
    /// When a chain is there, and when it first is a boundary.
    pub fn life(&self, chain: u64) -> (usize, Option<usize>) {
        let s = self.edges.iter().enumerate().filter(|(k, _)| chain >> k & 1 == 1).map(|(_, e)| e.1).max().unwrap_or(0);
        (s, (0..self.times.len()).find(|&t| reduce(&self.b1[t], chain) == 0))
    }
}

/// Equal as multisets.
fn matches<T>(a: &[T], b: &[T], eq: impl Fn(&T, &T) -> bool) -> bool {
    let mut used = vec![false; b.len()];
    a.len() == b.len()
        && a.iter().all(|x| match (0..b.len()).find(|&i| !used[i] && vs::fork(eq(x, &b[i]))) {
            Some(i) => {
                used[i] = true;
                true
            }
            None => false,
        })
}

fn compare(ess: &[Vec<f64>], fin: &[Vec<(f64, f64)>], want: &(Vec<Vec<f64>>, Vec<Vec<(f64, f64)>>)) {
    check!(ess.len() == 2 && fin.len() == 2, "there are bars of dimensions zero and one");
    for q in 0..2 {
        check!(matches(&ess[q], &want.0[q], |x, y| x == y), "the essential bars are those of the filtration");
        check!(matches(&fin[q], &want.1[q], |x, y| (x.0 == y.0) & (x.1 == y.1)), "the finite bars are those of the filtration");
        observe!("essential", ess[q].len());
        observe!("finite", fin[q].len());
    }
    if want.1[1].len() > 1 {
        reach!("grpph bars: two loops are filled");
    }
    if !want.0[1].is_empty() {
        reach!("grpph bars: a loop that is never filled");
    }
    if !want.1[0].is_empty() {
        reach!("grpph bars: components that merge");
    }
}

/// Bars of an arbitrary filtration, through the matrices.
/// arg: nodes, support, levels, grounding.
#[cfg(feature = "h_grpph_bars")]
#[no_mangle]
pub extern "C" fn h_grpph_bars(arg: u64) {
    let mut a = Arg(arg);
    let (n, kind, levels, ground) = (a.take() as u16, a.take(), a.take(), a.take());
    let pairs = support(n, kind);
    let (time, edges) = any_filtration(n, &pairs, levels, ground);
    let d = GrPPHCoboundary::<Z2, _>::build(&time, &edges, n);
    let r = MatrixOracle::reverse(&d);
    let (_, g) = ClearedReductionMatrix::build_with_diagram(&r, 0..=1);
    let mut ess = vec![vec![], vec![]];
    let mut fin = vec![vec![], vec![]];
    for x in &g.essential {
        ess[x.0.dimension()].push(d.filtration_value(x.0).into_inner());
    }
    for (x, y) in &g.pairings {
        let (x, y) = (d.filtration_value(x.0).into_inner(), (y.0.dimension(), d.filtration_value(y.0).into_inner()));
        if !vs::fork(x == y.1) {
            fin[y.0].push((y.1, x));
        }
    }
    let t: Vec<Vec<Option<f64>>> = time.iter().map(|r| r.iter().map(|x| x.map(|x| x.into_inner())).collect()).collect();
    let ground: Vec<(u16, u16)> = pairs.iter().copied().filter(|e| edges.contains(e)).collect();
    compare(&ess, &fin, &Truth::new(n as usize, &t, &ground).bars());
    reach!("grpph bars: end");
}

fn truth(n: u16, kind: u64, known: &[(u16, u16, Option<u64>)]) -> Truth {
    let n = if kind >= 8 { active(n) } else { n } as usize;
    let d = shortest(n, known);
    let t: Vec<Vec<Option<f64>>> = d.iter().map(|r| r.iter().map(|x| x.map(|x| if kind >= 8 { x as f64 * unit(kind) } else { x as f64 })).collect()).collect();
    let g: Vec<(u16, u16)> = known.iter().map(|e| (e.0, e.1)).collect();
    Truth::new(n, &t, &g)
}

/// Bars of a weighted digraph, through the entry point.
/// arg: nodes, support, number of weights, infinite weights, least weight.
#[cfg(feature = "h_grpph_entry")]
#[no_mangle]
pub extern "C" fn h_grpph_entry(arg: u64) {
    let mut a = Arg(arg);
    let (n, kind, levels, infinite, least) = (a.size() as u16, a.take(), a.take(), a.take() == 1, a.take());
    let pairs = support(n, kind);
    let (edges, known) = any_edges(n, kind, &pairs, least, levels, infinite, false);
    let (ess, fin) = grpph(n as u32, edges);
    let t = truth(n, kind, &known);
    let mut want = t.bars();
    // nodes without edges
    want.0[0].extend(vec![0.0; n as usize - t.n]);
    compare(&ess, &fin, &want);
    reach!("grpph bars: entry point end");
}

/// Representatives; arg as above.
#[cfg(feature = "h_grpph_reps")]
#[no_mangle]
pub extern "C" fn h_grpph_reps(arg: u64) {
    let mut a = Arg(arg);
    let (n, kind, levels, infinite, least) = (a.size() as u16, a.take(), a.take(), a.take() == 1, a.take());
    let pairs = support(n, kind);
    let (edges, known) = any_edges(n, kind, &pairs, least, levels, infinite, false);
    let (ess, fin) = grpph(n as u32, edges.clone());
    let (ess2, fin2, reps) = grpph_with_involution(n as u32, edges);
    check!(ess.len() == ess2.len() && fin.len() == fin2.len(), "both entry points return bars of the same dimensions");
    for q in 0..ess.len() {
        check!(matches(&ess[q], &ess2[q], |x, y| x == y), "both entry points return the same essential bars");
        check!(matches(&fin[q], &fin2[q], |x, y| (x.0 == y.0) & (x.1 == y.1)), "both entry points return the same finite bars");
    }
    let t = truth(n, kind, &known);
    check!(ess[0].len() == t.components(t.times.len() - 1) + n as usize - t.n, "there is one essential bar per component");
    check!(reps.len() == fin2[1].len(), "there is one representative per finite bar of dimension one");
    let (mut lives, mut chains) = (vec![], vec![]);
    for r in &reps {
        check!(!r.is_empty(), "a representative is not empty");
        let mut chain = 0u64;
        let mut ends = 0u64;
        for &(i, j) in r {
            let (i, j) = match if kind >= 8 { (node_of(i, n), node_of(j, n)) } else { (Some(i), Some(j)) } {
                (Some(i), Some(j)) => (i, j),
                _ => {
                    check!(false, "a representative consists of edges that exist");
                    continue;
                }
            };
            match t.edges.iter().position(|e| e.0 == (i, j)) {
                None => check!(false, "a representative consists of edges that exist"),
                Some(k) => {
                    check!(chain >> k & 1 == 0, "a representative has distinct edges");
                    chain |= 1 << k;
                }
            }
            ends ^= (1 << i) ^ (1 << j);
        }
        check!(ends == 0, "a representative is a cycle");
        let (s, e) = t.life(chain);
        match e {
            None => check!(false, "a representative is filled eventually"),
            Some(e) => {
                lives.push((t.times[s], t.times[e]));
                chains.push((chain, s, e));
            }
        }
        if r.len() > 3 {
            reach!("grpph reps: a representative of four edges");
        }
    }
    check!(matches(&lives, &fin2[1], |x, y| (x.0 == y.0) & (x.1 == y.1)), "the representatives live for the bars' lengths");
    for at in 0..t.times.len() {
        let mut all = t.b1[at].clone();
        for &(chain, s, e) in &chains {
            if s <= at && at < e {
                check!(insert(&mut all, chain), "the representatives of loops that are there at the same time are independent");
            }
        }
    }
    if reps.len() > 1 {
        reach!("grpph reps: two representatives");
    }
    observe!("representatives", reps.len());
    reach!("grpph reps: end");
}
