//! The filtration of a weighted digraph.
use crate::digraphs::*;
use hcore::dense::Arg;
use phlite_grpph::verif::build_filtration;
use vs::{check, observe, reach};

/// arg: nodes, support, number of weights, with edges of infinite weight, with a parallel edge.
#[no_mangle]
pub extern "C" fn h_grpph_filtration(arg: u64) {
    let mut a = Arg(arg);
    let (n, kind, levels, infinite, parallel) = (a.size() as u16, a.take(), a.take(), a.take() == 1, a.take() == 1);
    let pairs = support(n, kind);
    let (edges, known) = any_edges(n, kind, &pairs, 0, levels, infinite, parallel);
    let f = build_filtration(n as u32, &edges);
    let (n, m) = (n as usize, if kind >= 8 { active(n) as usize } else { n as usize });
    let d = shortest(m, &known);
    check!(f.len() == n, "the filtration has a row per node");
    let mut there = 0;
    for i in 0..n {
        check!(f[i].len() == n, "the filtration has an entry per pair");
        there += f[i].iter().flatten().count();
    }
    for i in 0..m {
        for j in 0..m {
            let at = |i: usize| if kind >= 8 { name(i as u16, n as u16) as usize } else { i };
            match (f[at(i)][at(j)], d[i][j]) {
                (None, None) => (),
                (Some(t), Some(k)) => {
                    there -= 1;
                    check!(if kind >= 8 { t.into_inner() == k as f64 * unit(kind) } else { t.into_inner() == k as f64 }, "a pair enters at the length of a shortest path");
                    observe!("time", t.into_inner().to_bits());
                    if !known.iter().any(|e| (e.0 as usize, e.1 as usize) == (i, j)) {
                        reach!("grpph filtration: a pair without an edge");
                    }
                }
                (Some(_), None) => check!(false, "a pair without a path never enters"),
                (None, Some(_)) => check!(false, "a pair with a path enters"),
            }
        }
    }
    check!(there == 0, "a pair without a path never enters");
    if known.iter().any(|e| e.2.is_none()) {
        reach!("grpph filtration: an edge of infinite weight");
    }
    reach!("grpph filtration: end");
}
