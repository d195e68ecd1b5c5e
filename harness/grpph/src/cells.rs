//! The path chain complex of a filtered digraph.
use crate::digraphs::*;
use hcore::dense::Arg;
use hcore::fp::F;
use hcore::with_field;
use ordered_float::NotNan;
use phlite::fields::*;
use phlite::matrices::*;
use phlite_grpph::boundary::GrPPHBoundary;
use phlite_grpph::coboundary::*;
use vs::{check, observe, reach};

fn coeff<CF: Invertible + 'static>(f: &F<CF>, col: &[(CF, PathHomCell)], c: PathHomCell) -> u64 {
    col.iter().filter(|x| x.1 == c).map(|x| f.val(x.0)).sum::<u64>() % f.p
}

/// A column with its values has the column's entries, each with its row's value.
fn valued<CF: Invertible + 'static, M>(f: &F<CF>, m: &M, x: PathHomCell)
where
    M: MatrixOracle<CoefficientField = CF, RowT = PathHomCell, ColT = PathHomCell> + HasRowFiltration<FiltrationT = NotNan<f64>>,
{
    let plain: Vec<(CF, PathHomCell)> = m.column(x).collect();
    let mut with = vec![];
    for e in m.column_with_filtration(x) {
        check!(e.filtration_value == m.filtration_value(e.row_index), "an entry of a column carries its row's value");
        with.push((e.coeff, e.row_index));
    }
    check!(with.len() == plain.len(), "a column with values has as many entries as without");
    for &(_, c) in plain.iter() {
        check!(coeff(f, &plain, c) == coeff(f, &with, c), "a column with values has the column's entries");
    }
}

/// arg: p, nodes, support, levels, grounding (0 none, 1 every pair, 2 any subset), whether
/// the filtration is given as a map.
fn go<CF: Invertible + 'static>(f: F<CF>, mut a: Arg) {
    let (n, kind, levels, ground, as_map) = (a.size() as u16, a.take(), a.take(), a.take(), a.take() == 1);
    // of many nodes, four have edges
    let pairs: Vec<(u16, u16)> = support(if n > 8 { 4 } else { n }, kind).into_iter().map(|(i, j)| (name(i, n), name(j, n))).collect();
    let (time, edges) = any_filtration(n, &pairs, levels, ground);
    if as_map {
        let map: MapDigraphFiltration = pairs.iter().filter_map(|&(i, j)| Some(((i, j), time[i as usize][j as usize]?))).collect();
        with(f, n, &pairs, &time, &edges, map.clone(), &map);
    } else {
        with(f, n, &pairs, &time, &edges, &time, &time);
    }
}

fn with<CF: Invertible + 'static, F1: DigraphFiltration, F2: DigraphFiltration>(f: F<CF>, n: u16, pairs: &[(u16, u16)], time: &VecDigraphFiltration, edges: &DigraphEdgeSet, one: F1, other: F2) {
    let d = GrPPHCoboundary::<CF, _>::build(one, edges, n);
    let b = GrPPHBoundary::<CF, _>::build(other, edges, PathHomSingleBasis(vec![]));
    let val = |c: PathHomCell| {
        let v = d.filtration_value(c);
        check!(v == b.filtration_value(c), "both matrices give a cell the same value");
        v
    };
    // bases
    let basis = d.basis();
    let (nodes, arcs) = (basis.in_dimension(0), basis.in_dimension(1));
    check!(nodes.size() == n as usize, "the basis has every node once");
    check!(basis.size() == nodes.size() + arcs.size(), "the basis is made of nodes and edges");
    for i in 0..nodes.size() {
        check!(nodes.element(i).dimension() == 0, "the first part of the basis consists of nodes");
        check!(basis.element(i) == nodes.element(i), "the nodes come first");
        check!(val(nodes.element(i)) == nn(0.0), "nodes are there from the start");
    }
    let mut named: Vec<PathHomCell> = (0..nodes.size()).map(|i| nodes.element(i)).collect();
    named.sort();
    check!((0..n).all(|i| named[i as usize] == PathHomCell::Node(i)), "the basis has every node once");
    let mut es = vec![];
    for &(i, j) in pairs {
        let there = edges.contains(&(i, j)) || time[i as usize][j as usize].is_some();
        let e = PathHomCell::Edge(i, j);
        check!((0..arcs.size()).filter(|&k| arcs.element(k) == e).count() == there as usize, "the basis has every edge once");
        if there {
            es.push(e);
            let own = if edges.contains(&(i, j)) { nn(0.0) } else { time[i as usize][j as usize].unwrap() };
            check!(val(e) == own, "an edge of the graph is there from the start, any other at its time");
        }
    }
    check!(arcs.size() == es.len(), "the basis has no other edges");
    for k in 0..arcs.size() {
        check!(basis.element(n as usize + k) == arcs.element(k), "the edges come after the nodes");
        if k > 0 {
            check!(val(arcs.element(k - 1)) <= val(arcs.element(k)), "the edges come in the order of their values");
        }
    }
    // nodes against edges
    for i in 0..n {
        let x = PathHomCell::Node(i);
        let up: Vec<(CF, PathHomCell)> = d.column(x).collect();
        check!(b.column(x).next().is_none(), "a node has no boundary");
        for &e in &es {
            let down: Vec<(CF, PathHomCell)> = b.column(e).collect();
            check!(coeff(&f, &up, e) == coeff(&f, &down, x), "the coboundary of a node is the transpose of the boundary");
        }
        for y in &up {
            check!(es.contains(&y.1), "the coboundary of a node consists of edges that exist");
        }
        valued(&f, &d, x);
        valued(&f, &d.matrix, x);
    }
    // edges against cells
    let ups: Vec<Vec<(CF, PathHomCell)>> = es.iter().map(|&e| d.column(e).collect()).collect();
    let mut cells: Vec<PathHomCell> = ups.iter().flatten().map(|x| x.1).collect();
    cells.sort();
    cells.dedup();
    for &c in &cells {
        check!(c.dimension() == 2, "the coboundary of an edge consists of two-dimensional cells");
        let down: Vec<(CF, PathHomCell)> = b.column(c).collect();
        let v = val(c);
        let mut sums = vec![0; n as usize];
        for &(x, e) in &down {
            check!(es.contains(&e), "the faces of a cell are edges that exist");
            check!(val(e) <= v, "a cell is not earlier than its faces");
            for &(y, z) in b.column(e).collect::<Vec<_>>().iter() {
                match z {
                    PathHomCell::Node(s) => sums[s as usize] += f.val(x) * f.val(y),
                    _ => check!(false, "the boundary of an edge consists of nodes"),
                }
            }
        }
        for s in sums {
            check!(s % f.p == 0, "the boundary of a boundary is zero");
        }
        for (k, &e) in es.iter().enumerate() {
            check!(coeff(&f, &ups[k], c) == coeff(&f, &down, e), "the coboundary of an edge is the transpose of the boundary");
        }
        match c {
            PathHomCell::TwoCell(PathHom2Cell::DoubleEdge(..)) => reach!("grpph cells: back and forth"),
            PathHomCell::TwoCell(PathHom2Cell::DirectedTriangle(..)) => reach!("grpph cells: triangle"),
            PathHomCell::TwoCell(PathHom2Cell::LongSquare(..)) => reach!("grpph cells: long square"),
            _ => (),
        }
    }
    for &e in &es {
        valued(&f, &d, e);
        valued(&f, &d.matrix, e);
        valued(&f, &b, e);
    }
    observe!("cells", cells.len());
    reach!("grpph cells: end");
}

#[cfg(feature = "h_grpph_cells")]
#[no_mangle]
pub extern "C" fn h_grpph_cells(arg: u64) {
    let mut a = Arg(arg);
    let p = a.take();
    with_field!(p, f, go(f, a))
}
