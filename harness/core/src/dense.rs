//! Symbolic matrices and the dense reference arithmetic the checks compare with.
use crate::fp::F;
use phlite::fields::Invertible;
use phlite::matrices::implementors::{MapVecMatrix, VecVecMatrix};
use phlite::matrices::*;

/// `m[j][i]`: entry in row `i` of column `j`, as a number mod p.
pub type Dense = Vec<Vec<u64>>;

/// Digits of a harness argument, least significant first, two decimals each.
pub struct Arg(pub u64);
impl Arg {
    pub fn take(&mut self) -> u64 {
        let k = self.0 % 100;
        self.0 /= 100;
        k
    }
    /// A size; 99 stands for 270.
    pub fn size(&mut self) -> usize {
        match self.take() {
            99 => 270,
            k => k as usize,
        }
    }
}

/// From this size on, inputs are mostly fixed.
pub const LARGE: usize = 9;

/// What row `i` of `rows` is called: itself, or, if there are many rows, a number of up
/// to 64 bits.
pub fn label(i: usize, rows: usize) -> usize {
    if rows < LARGE {
        i
    } else {
        i << (i * 58 / rows)
    }
}

/// The row of that name, `rows` if there is none; not forked on.
pub fn row_of(l: usize, rows: usize) -> usize {
    if rows < LARGE {
        return l;
    }
    let mut r = 0;
    let mut found = false;
    for i in 0..rows {
        let hit = l == label(i, rows);
        r |= i * hit as usize;
        found |= hit;
    }
    r + rows * !found as usize
}

/// How columns are made into a matrix whose rows and columns are named by `label`.
pub trait Make<CF: Invertible + 'static> {
    type M: MatrixOracle<CoefficientField = CF, RowT = usize, ColT = usize>;
    fn make(cols: Vec<Vec<(CF, usize)>>) -> Self::M;
}
pub struct ByPosition;
impl<CF: Invertible + 'static> Make<CF> for ByPosition {
    type M = VecVecMatrix<'static, CF, usize>;
    fn make(cols: Vec<Vec<(CF, usize)>>) -> Self::M {
        mat(cols)
    }
}
pub struct ByName;
impl<CF: Invertible + 'static> Make<CF> for ByName {
    type M = MapVecMatrix<'static, CF, usize, usize>;
    fn make(cols: Vec<Vec<(CF, usize)>>) -> Self::M {
        let n = cols.len();
        let map: rustc_hash::FxHashMap<usize, Vec<(CF, usize)>> =
            cols.into_iter().enumerate().map(|(j, c)| (label(j, n), c.into_iter().map(|(x, r)| (x, label(r, n))).collect())).collect();
        MapVecMatrix::from(map)
    }
}

/// A matrix whose entries are arbitrary elements of the field at the positions
/// `allowed(i, j)` and zero elsewhere. Zero or not is one path each; the
/// non-zero values stay symbolic.
pub fn sym<CF: Invertible + 'static>(f: &F<CF>, rows: usize, cols: usize, allowed: impl Fn(usize, usize) -> bool) -> (Dense, Vec<Vec<(CF, usize)>>) {
    let mut d = vec![vec![0; rows]; cols];
    let mut v = vec![];
    for j in 0..cols {
        let mut c = vec![];
        for i in 0..rows {
            if allowed(i, j) {
                if vs::coin() {
                    let x = vs::range(1, f.p - 1);
                    d[j][i] = x;
                    c.push((f.of(x), i));
                }
            }
        }
        v.push(c);
    }
    (d, v)
}

pub fn mat<CF: Invertible + 'static>(v: Vec<Vec<(CF, usize)>>) -> VecVecMatrix<'static, CF, usize> {
    VecVecMatrix::from(v)
}

/// Sum up a column into a dense vector without forking on the rows; rows
/// outside `0..n` are reported.
/// `gather` for rows with names.
pub fn gather_named<CF: Invertible + 'static>(f: &F<CF>, n: usize, col: impl Iterator<Item = (CF, usize)>) -> Vec<u64> {
    gather(f, n, col.map(|(x, r)| (x, row_of(r, n))))
}

pub fn gather<CF: Invertible + 'static>(f: &F<CF>, n: usize, col: impl Iterator<Item = (CF, usize)>) -> Vec<u64> {
    let mut out = vec![0; n];
    for (c, r) in col {
        vs::check!(r < n, "a column mentions only rows of the matrix");
        add_at(f.p, &mut out, r, f.val(c));
    }
    out
}

pub fn add_at(p: u64, out: &mut [u64], r: usize, v: u64) {
    for i in 0..out.len() {
        out[i] = (out[i] + (r == i) as u64 * v) % p;
    }
}

/// `keys[r]` for a row that may be symbolic, without forking.
pub fn at(keys: &[usize], r: usize) -> usize {
    let mut k = 0;
    for i in 0..keys.len() {
        k |= keys[i] & ((r == i) as usize).wrapping_neg();
    }
    k
}

/// `len` entries with arbitrary non-zero coefficients in arbitrary rows
/// (repetitions and any order included), and the vector they sum up to.
pub fn sym_entries<CF: Invertible + 'static>(f: &F<CF>, len: usize, rows: usize) -> (Vec<u64>, Vec<(CF, usize)>) {
    if len >= LARGE {
        return large_entries(f, len, rows, 1, true);
    }
    let mut d = vec![0; rows];
    let mut c = vec![];
    for _ in 0..len {
        let r = vs::choose(0, rows - 1);
        let x = vs::range(1, f.p - 1);
        add_at(f.p, &mut d, r, x);
        c.push((f.of(x), r));
    }
    (d, c)
}

/// Columns of up to `len` arbitrary entries. From `LARGE` rows on: of `len` entries
/// that are fixed, with repeated rows, but for two coefficients and one row.
pub fn sym_lists<CF: Invertible + 'static>(f: &F<CF>, rows: usize, cols: usize, len: usize) -> (Dense, Vec<Vec<(CF, usize)>>) {
    if rows >= LARGE {
        return (0..cols).map(|c| large_entries(f, len, rows, c, c == cols / 2)).unzip();
    }
    (0..cols)
        .map(|_| {
            let l = vs::choose(0, len);
            sym_entries(f, l, rows)
        })
        .unzip()
}

/// `len` entries, fixed but, if `open`, for two coefficients and one row.
pub fn large_entries<CF: Invertible + 'static>(f: &F<CF>, len: usize, rows: usize, c: usize, open: bool) -> (Vec<u64>, Vec<(CF, usize)>) {
    let mut d = vec![0; rows];
    let mut v = vec![];
    for t in 0..len {
        // every third entry repeats the row before it
        let mut r = (17 * c + 29 * (t - t % 3 / 2)) % rows;
        let mut x = 1 + (c + t) as u64 % (f.p - 1);
        if open && t == 1 {
            r = [0, rows / 2, rows - 1][vs::choose(0, 2)];
        }
        if open && (t == 1 || t == 4) {
            x = vs::range(1, f.p - 1);
        }
        add_at(f.p, &mut d, r, x);
        v.push((f.of(x), r));
    }
    (d, v)
}

pub fn mul(p: u64, a: &Dense, b: &Dense) -> Dense {
    let rows = a.first().map_or(0, |c| c.len());
    b.iter()
        .map(|bc| {
            let mut o = vec![0; rows];
            for (k, x) in bc.iter().enumerate() {
                for i in 0..rows {
                    o[i] += x * a[k][i];
                }
            }
            for i in 0..rows {
                o[i] %= p;
            }
            o
        })
        .collect()
}

pub fn is_zero(m: &Dense) -> bool {
    let mut z = true;
    for c in m {
        for x in c {
            z &= *x == 0;
        }
    }
    z
}

pub fn vec_eq(a: &[u64], b: &[u64]) -> bool {
    let mut z = a.len() == b.len();
    for i in 0..a.len().min(b.len()) {
        z &= a[i] == b[i];
    }
    z
}

/// Position of each row in the order by (key, row).
pub fn positions(key: &[usize]) -> Vec<u64> {
    let n = key.len();
    (0..n)
        .map(|i| {
            let mut c = 0;
            for k in 0..n {
                let before = (key[k] < key[i]) | ((key[k] == key[i]) & (k < i));
                c += before as u64;
            }
            c
        })
        .collect()
}

/// 1 + position of the last non-zero row, 0 if there is none; not forked on.
pub fn low(col: &[u64], pos: &[u64]) -> u64 {
    let mut l = 0;
    for i in 0..col.len() {
        let c = (pos[i] + 1) * (col[i] != 0) as u64;
        l = if c > l { c } else { l };
    }
    l
}

pub fn inv_mod(p: u64, a: u64) -> u64 {
    let mut r = 1;
    for _ in 0..p - 2 {
        r = r * a % p;
    }
    r
}

/// Rank mod p (forks on which entries vanish).
pub fn rank(p: u64, mut m: Dense) -> usize {
    let mut r = 0;
    let rows = m.first().map_or(0, |c| c.len());
    for i in 0..rows {
        let Some(k) = (r..m.len()).find(|&k| vs::fork(m[k][i] != 0)) else { continue };
        m.swap(r, k);
        let inv = inv_mod(p, m[r][i]);
        for k in r + 1..m.len() {
            if vs::fork(m[k][i] != 0) {
                let c = (p - m[k][i]) * inv % p;
                for t in i..rows {
                    m[k][t] = (m[k][t] + c * m[r][t]) % p;
                }
            }
        }
        r += 1;
    }
    r
}

/// Any filtration value below four for each row. From `LARGE` rows on: fixed but for one.
pub fn sym_keys(rows: usize) -> Vec<usize> {
    if rows >= LARGE {
        return (0..rows).map(|i| if i == rows / 2 { vs::idx(0, 3) } else { i * 5 % 7 }).collect();
    }
    (0..rows).map(|_| vs::idx(0, 3)).collect()
}

/// Any permutation. From `LARGE` on: a fixed one with two elements, one of them any, swapped.
pub fn perm(n: usize) -> Vec<usize> {
    if n >= LARGE {
        let step = (n / 3..).find(|s| (2..=*s).all(|k| s % k != 0 || n % k != 0)).unwrap();
        let mut p: Vec<usize> = (0..n).map(|i| (i * step + 1) % n).collect();
        p.swap(n - 2, [0, 1, n / 2, n - 1][vs::choose(0, 3)]);
        return p;
    }
    let mut left: Vec<usize> = (0..n).collect();
    let mut p = vec![];
    while !left.is_empty() {
        let k = vs::choose(0, left.len() - 1);
        p.push(left.remove(k));
    }
    p
}

/// `a * b` for one column.
pub fn mul_vec(p: u64, rows: usize, a: &Dense, b: &[u64]) -> Vec<u64> {
    let mut o = vec![0; rows];
    for (k, x) in b.iter().enumerate() {
        for i in 0..rows {
            o[i] += x * a[k][i];
        }
    }
    o.iter().map(|x| x % p).collect()
}

pub fn column_of<M: MatrixOracle<RowT = usize, ColT = usize>>(f: &F<M::CoefficientField>, n: usize, m: &M, c: usize) -> Vec<u64>
where
    M::CoefficientField: Invertible + 'static,
{
    gather(f, n, m.column(c))
}

/// The elements of a matrix's basis, in order.
pub fn basis_of<M: HasColBasis>(m: &M) -> Vec<M::ColT> {
    let b = m.basis();
    let b: &M::BasisT = &b;
    (0..ColBasis::size(b)).map(|i| ColBasis::element(b, i)).collect()
}

/// Lists one entry of one column twice over, or more: adds `x` at the front and `-x`
/// at the back of an arbitrary column, in any of the rows given. What the columns sum
/// up to stays.
pub fn mess<CF: Invertible + 'static>(f: &F<CF>, cols: &mut [Vec<(CF, usize)>], places: &[(usize, usize)]) {
    if places.is_empty() {
        return;
    }
    let (i, j) = places[vs::choose(0, places.len() - 1)];
    let x = vs::range(1, f.p - 1);
    cols[j].insert(0, (f.of(x), i));
    cols[j].push((f.of(f.p - x), i));
}
