//! Arbitrary digraphs and their shortest paths.
use hcore::dense::Arg;
use ordered_float::NotNan;
use phlite_grpph::coboundary::{DigraphEdgeSet, VecDigraphFiltration};

pub fn nn(x: f64) -> NotNan<f64> {
    unsafe { NotNan::new_unchecked(x) }
}

/// The ordered pairs of `n` nodes that may be edges.
pub fn support(n: u16, kind: u64) -> Vec<(u16, u16)> {
    let mut out = vec![];
    for i in 0..n {
        for j in 0..n {
            let yes = match kind {
                // every pair
                0 => i != j,
                // acyclic
                1 => i < j,
                // from the first through the others to the last, and directly
                2 => i != j && ((i == 0 && j > 0) || (j == n - 1)),
                // the same, and back from the last to the first
                3 => i != j && ((i == 0 && j > 0) || (j == n - 1) || (i == n - 1 && j == 0)),
                // round a cycle by one or two steps
                4 => j == (i + 1) % n || (n > 3 && j == (i + 2) % n),
                // round a cycle by one step, in both directions
                5 => i != j && (j == (i + 1) % n || i == (j + 1) % n),
                // from the first through the others to the last
                7 => i != j && ((i == 0 && j > 0) || (j == n - 1)) && !(i == 0 && j == n - 1),
                // round a cycle
                _ => j == (i + 1) % n,
            };
            if yes {
                out.push((i, j));
            }
        }
    }
    out
}

/// A time: one of `levels` integers from 0, or any finite float (`levels` 0).
pub fn any_time(levels: u64) -> NotNan<f64> {
    if levels == 0 {
        nn(vs::f64_bits(0, f64::MAX.to_bits()))
    } else if levels == 1 {
        nn(1.0)
    } else {
        nn(vs::f64_int(0, levels - 1))
    }
}

/// Any filtration of the pairs, and any set of edges that are there from the start.
/// `ground`: 0 none, 1 every pair, 2 any subset.
pub fn any_filtration(n: u16, pairs: &[(u16, u16)], levels: u64, ground: u64) -> (VecDigraphFiltration, DigraphEdgeSet) {
    vs::fork_select(true);
    let mut f = vec![vec![None; n as usize]; n as usize];
    let mut e = DigraphEdgeSet::default();
    for &(i, j) in pairs {
        if vs::coin() {
            f[i as usize][j as usize] = Some(any_time(levels));
        }
        if ground == 1 || (ground == 2 && vs::coin()) {
            e.insert((i, j));
        }
    }
    (f, e)
}

/// Any weights: an edge may be missing, of infinite weight (`infinite`), or of a
/// weight among `levels` integers from `least`. The last argument asks for one more
/// edge parallel to an arbitrary pair.
pub fn any_edges(n: u16, kind: u64, pairs: &[(u16, u16)], least: u64, levels: u64, infinite: bool, parallel: bool) -> (Vec<(u32, u32, f64)>, Vec<(u16, u16, Option<u64>)>) {
    if kind >= 8 {
        return large_edges(kind, n, levels, infinite);
    }
    vs::fork_select(true);
    let mut edges = vec![];
    let mut known = vec![];
    let mut add = |i: u16, j: u16| {
        let kind = vs::choose(0, if infinite { 2 } else { 1 });
        let (w, k) = match kind {
            0 => return,
            1 if levels == 1 => (least as f64, Some(least)),
            1 => {
                let k = vs::range(least, least + levels - 1);
                (k as f64, Some(k))
            }
            _ => (f64::INFINITY, None),
        };
        edges.push((i as u32, j as u32, w));
        known.push((i, j, k));
    };
    for &(i, j) in pairs {
        add(i, j);
    }
    if parallel && !pairs.is_empty() {
        let (i, j) = pairs[vs::choose(0, pairs.len() - 1)];
        add(i, j);
    }
    (edges, known)
}

/// What node `i` of the few that have edges is called among `n` nodes.
pub fn name(i: u16, n: u16) -> u16 {
    if n <= MANY {
        i
    } else {
        // two of them far apart
        match i {
            0 => 0,
            3 => n - 1,
            _ => {
                let mut x = ((i as u32 * 97 + 31) % n as u32) as u16;
                while x == 0 || x == n - 1 || (1..i).any(|k| k != 3 && name(k, n) == x) {
                    x = (x + 1) % n;
                }
                x
            }
        }
    }
}
pub fn node_of(name_: u16, n: u16) -> Option<u16> {
    (0..active(n)).find(|&i| name(i, n) == name_)
}
const MANY: u16 = 8;
/// How many nodes have edges.
pub fn active(n: u16) -> u16 {
    n.min(MANY)
}

/// Support 8: a fixed digraph on up to eight of the nodes. Its weights are fixed but for
/// three (support 9: one), and are small multiples of a number of 31 binary digits, below
/// 10^-18 (support 9: above 10^21).
pub fn unit(kind: u64) -> f64 {
    let x = 1.0 + 1.0 / 1073741824.0;
    let p = (1u64 << 60) as f64;
    if kind == 8 {
        x / p
    } else {
        x * p * 1024.0
    }
}
pub fn large_edges(kind: u64, n: u16, levels: u64, infinite: bool) -> (Vec<(u32, u32, f64)>, Vec<(u16, u16, Option<u64>)>) {
    let m = active(n);
    let open: &[u64] = if kind == 8 { &[3, 7, 8] } else { &[7] };
    let mut edges = vec![];
    let mut known = vec![];
    let mut count = 0;
    for i in 0..m {
        for j in 0..m {
            // no edge to node 5, which starts a long square; two parallel edges
            if i == j || j == 5 || (i * i + 3 * j + i * j) % 5 > 1 {
                continue;
            }
            count += 1;
            let mut k = Some(1 + (i * 2 + j * j) as u64 % 4);
            if open.contains(&count) {
                k = match vs::choose(0, if infinite { levels as usize + 1 } else { levels as usize }) as u64 {
                    0 => continue,
                    x if x <= levels => Some(x),
                    _ => None,
                };
            }
            for k in if count == 5 { vec![k, Some(9), Some(1)] } else { vec![k] } {
                edges.push((name(i, n) as u32, name(j, n) as u32, k.map_or(f64::INFINITY, |k| k as f64 * unit(kind))));
                known.push((i, j, k));
            }
        }
    }
    (edges, known)
}

/// Lengths of shortest paths, by relaxation over every intermediate node.
pub fn shortest(n: usize, edges: &[(u16, u16, Option<u64>)]) -> Vec<Vec<Option<u64>>> {
    let mut d: Vec<Vec<Option<u64>>> = vec![vec![None; n]; n];
    fn better(old: Option<u64>, new: u64) -> Option<u64> {
        match old {
            Some(x) if !vs::fork(new < x) => Some(x),
            _ => Some(new),
        }
    }
    for &(i, j, k) in edges {
        if let Some(k) = k {
            d[i as usize][j as usize] = better(d[i as usize][j as usize], k);
        }
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                if let (Some(x), Some(y)) = (d[i][k], d[k][j]) {
                    d[i][j] = better(d[i][j], x + y);
                }
            }
        }
    }
    for i in 0..n {
        d[i][i] = None;
    }
    d
}
