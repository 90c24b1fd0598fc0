//! Generators of filtered complexes and of arbitrary matrices.
use crate::fields::{any_field, Fld, TF};
use crate::fw::{splitmix, Tier};
use crate::mats::*;
use crate::refla;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// Deterministic stream derived from a generated value.
pub struct Rs(pub u64);
impl Rs {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        splitmix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}

/// A filtered chain complex with a chosen presentation of its boundary columns.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cpx {
    pub field: Fld,
    pub dims: Vec<usize>,
    pub fil: Vec<i64>,
    /// Distinct labels; elements are compared by label.
    pub label: Vec<u32>,
    /// Reported terms (integer coefficient, cell); may repeat and cancel.
    pub cols: Vec<Vec<(i64, usize)>>,
}

impl Cpx {
    pub fn n(&self) -> usize {
        self.dims.len()
    }
    pub fn max_dim(&self) -> usize {
        self.dims.iter().copied().max().unwrap_or(0)
    }
    pub fn lab(&self, i: usize) -> Lab {
        Lab(self.label[i])
    }
    pub fn id_of(&self) -> HashMap<Lab, usize> {
        (0..self.n()).map(|i| (self.lab(i), i)).collect()
    }
    /// Cells of dimension d in filtration order (ties by label).
    pub fn order(&self, d: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..self.n()).filter(|i| self.dims[*i] == d).collect();
        v.sort_by_key(|i| (self.fil[*i], self.label[*i]));
        v
    }
    pub fn orders(&self) -> Vec<Vec<usize>> {
        (0..=self.max_dim()).map(|d| self.order(d)).collect()
    }
    /// True boundary: summed, modulo the field, zero entries removed. Integers when the field is Q.
    pub fn boundary(&self, i: usize) -> BTreeMap<usize, i64> {
        let mut m = BTreeMap::new();
        for (c, r) in self.cols[i].iter() {
            *m.entry(*r).or_insert(0) += *c;
        }
        m.values_mut().for_each(|c| *c = self.field.model(*c));
        m.retain(|_, c| *c != 0);
        m
    }
    fn fmap(&self) -> HashMap<Lab, Fv> {
        (0..self.n()).map(|i| (self.lab(i), Fv(self.fil[i]))).collect()
    }
    pub fn basis(&self) -> SplitVec<Lab> {
        SplitVec::concat(self.orders().into_iter().map(|o| o.into_iter().map(|i| self.lab(i)).collect()).collect())
    }
    /// The boundary matrix as presented.
    pub fn raw<F: TF>(&self) -> RawMat<F> {
        assert_eq!(F::TAG, self.field, "HARNESS-ERROR field");
        let cols = (0..self.n()).map(|i| (self.lab(i), fterms::<F>(&self.cols[i], |r| self.lab(r)))).collect();
        RawMat::new(cols, self.fmap(), self.basis())
    }
    /// The coboundary matrix (transpose), presented with the same repetitions; to be reversed by the caller.
    pub fn raw_co<F: TF>(&self) -> RawMat<F> {
        let mut cols: HashMap<Lab, Vec<(F, Lab)>> = (0..self.n()).map(|i| (self.lab(i), vec![])).collect();
        for i in 0..self.n() {
            for (c, r) in fterms::<F>(&self.cols[i], |r| self.lab(r)) {
                cols.get_mut(&r).unwrap().push((c, self.lab(i)));
            }
        }
        RawMat::new(cols, self.fmap(), self.basis())
    }
    /// Reference pairing for reducing the columns of the given dimensions of the boundary matrix:
    /// (pairs, essential), as cell ids.
    pub fn ref_pairs(&self, dims: &[usize]) -> (BTreeSet<(usize, usize)>, BTreeSet<usize>) {
        let p = self.field.refp();
        let mut pairs = BTreeSet::new();
        for &d in dims {
            if d == 0 {
                continue;
            }
            let rows = self.order(d - 1);
            let cols = self.order(d);
            let pos: HashMap<usize, usize> = rows.iter().enumerate().map(|(k, i)| (*i, k)).collect();
            if rows.len() * cols.len() <= 900 {
                let dense: Vec<Vec<u64>> = cols
                    .iter()
                    .map(|c| {
                        let mut v = vec![0; rows.len()];
                        for (r, x) in self.boundary(*c) {
                            v[pos[&r]] = refla::of_i(x, p);
                        }
                        v
                    })
                    .collect();
                for (r, c) in refla::rank_pairs(&dense, rows.len(), p) {
                    pairs.insert((rows[r], cols[c]));
                }
            } else {
                let sparse: Vec<Vec<(usize, u64)>> = cols
                    .iter()
                    .map(|c| self.boundary(*c).into_iter().map(|(r, x)| (pos[&r], refla::of_i(x, p))).collect())
                    .collect();
                for (k, piv) in refla::reduce_pivots(&sparse, rows.len(), p).into_iter().enumerate() {
                    if let Some(r) = piv {
                        pairs.insert((rows[r], cols[k]));
                    }
                }
            }
        }
        let mut used = BTreeSet::new();
        for (a, b) in pairs.iter() {
            used.insert(*a);
            used.insert(*b);
        }
        let ess = (0..self.n()).filter(|i| dims.contains(&self.dims[*i]) && !used.contains(i)).collect();
        (pairs, ess)
    }
    /// Sanity of the generator: boundary squares to zero and respects the filtration.
    pub fn validate(&self) -> Result<(), String> {
        for i in 0..self.n() {
            let mut sq: BTreeMap<usize, i64> = BTreeMap::new();
            for (r, c) in self.boundary(i) {
                if self.dims[r] + 1 != self.dims[i] || self.fil[r] > self.fil[i] {
                    return Err(format!("HARNESS-ERROR bad complex at {i}"));
                }
                for (r2, c2) in self.boundary(r) {
                    *sq.entry(r2).or_insert(0) += c * c2;
                }
            }
            if sq.values().any(|v| self.field.model(*v) != 0) {
                return Err(format!("HARNESS-ERROR boundary of boundary of {i}"));
            }
        }
        Ok(())
    }
}

/// Give the cells labels, and the columns a presentation.
fn finish(field: Fld, dims: Vec<usize>, fil: Vec<i64>, cols: Vec<BTreeMap<usize, i64>>, lseed: u64, pseed: u64) -> Cpx {
    let n = dims.len();
    let mut label: Vec<u32> = (0..n as u32).collect();
    if lseed != 0 {
        let mut rs = Rs(lseed);
        for (i, l) in label.iter_mut().enumerate() {
            *l = (rs.below(1 << 16) * 1024 + i) as u32;
        }
    }
    let cols = present(&dims, &cols, pseed);
    Cpx { field, dims, fil, label, cols }
}

/// Choose how the true columns are reported: order, splitting, cancelling pairs.
pub fn present(dims: &[usize], cols: &[BTreeMap<usize, i64>], pseed: u64) -> Vec<Vec<(i64, usize)>> {
    let n = dims.len();
    let mut rs = Rs(pseed);
    (0..n)
        .map(|i| {
            let mut out: Vec<(i64, usize)> = vec![];
            for (r, c) in cols[i].iter() {
                if pseed != 0 && rs.below(5) == 0 {
                    let a = rs.below(5) as i64 - 2;
                    out.push((a, *r));
                    out.push((*c - a, *r));
                } else {
                    out.push((*c, *r));
                }
            }
            if pseed != 0 {
                if dims[i] > 0 && rs.below(3) == 0 {
                    let cand: Vec<usize> = (0..n).filter(|j| dims[*j] + 1 == dims[i]).collect();
                    if !cand.is_empty() {
                        for _ in 0..=rs.below(2) {
                            let r = cand[rs.below(cand.len())];
                            let a = 1 + rs.below(4) as i64;
                            out.push((a, r));
                            out.push((-a, r));
                        }
                    }
                }
                rs.shuffle(&mut out);
            }
            out
        })
        .collect()
}

/// Simplicial complexes: faces of random simplices with random monotone weights.
fn simplicial(tier: Tier) -> BoxedStrategy<Cpx> {
    if tier == Tier::Quick {
        simplicial_sized(7, 70)
    } else {
        simplicial_sized(8, 130)
    }
}
fn simplicial_sized(nv: usize, cap: usize) -> BoxedStrategy<Cpx> {
    (
        any_field(),
        1..=nv,
        prop::collection::vec(any::<u8>(), 0..9),
        prop::collection::vec(0i64..6, 24),
        prop_oneof![1 => Just(0u64), 4 => any::<u64>()],
        prop_oneof![1 => Just(0u64), 2 => any::<u64>()],
    )
        .prop_map(move |(field, n, masks, weights, lseed, pseed)| {
            let mut cells: BTreeSet<Vec<usize>> = (0..n).map(|v| vec![v]).collect();
            for m in masks {
                let vs: Vec<usize> = (0..n).filter(|v| m >> v & 1 == 1).take(5).collect();
                let mut new = cells.clone();
                for sub in 1u32..(1 << vs.len()) {
                    new.insert((0..vs.len()).filter(|k| sub >> k & 1 == 1).map(|k| vs[k]).collect());
                }
                if new.len() <= cap {
                    cells = new;
                }
            }
            let mut list: Vec<Vec<usize>> = cells.into_iter().collect();
            list.sort_by_key(|c| (c.len(), c.clone()));
            let pos: HashMap<Vec<usize>, usize> = list.iter().cloned().enumerate().map(|(i, c)| (c, i)).collect();
            let dims: Vec<usize> = list.iter().map(|c| c.len() - 1).collect();
            let mut fil = vec![0i64; list.len()];
            let mut cols = vec![BTreeMap::new(); list.len()];
            for (i, c) in list.iter().enumerate() {
                // weights[0] is a spread: zero makes everything enter at once
                let mut f = weights[i * 7 % 23 + 1] * (weights[0].min(2)) + 0;
                if c.len() > 1 {
                    for k in 0..c.len() {
                        let mut face = c.clone();
                        face.remove(k);
                        let r = pos[&face];
                        f = f.max(fil[r]);
                        cols[i].insert(r, if k % 2 == 0 { 1 } else { -1 });
                    }
                }
                fil[i] = f;
            }
            finish(field, dims, fil, cols, lseed, pseed)
        })
        .boxed()
}

/// Complexes with a prescribed barcode, in a random basis.
fn barcode(tier: Tier) -> BoxedStrategy<Cpx> {
    if tier == Tier::Quick {
        barcode_sized(14, 30)
    } else {
        barcode_sized(30, 80)
    }
}
fn barcode_sized(maxbars: usize, maxops: usize) -> BoxedStrategy<Cpx> {
    (
        any_field(),
        // (dim, birth, length or none, coefficient)
        prop::collection::vec((0usize..4, 0i64..8, prop::option::weighted(0.7, 0i64..6), 1i64..5), 1..maxbars),
        prop::collection::vec((any::<u16>(), any::<u16>(), -2i64..3), 0..maxops),
        any::<u64>(),
        prop_oneof![1 => Just(0u64), 4 => any::<u64>()],
        prop_oneof![1 => Just(0u64), 2 => any::<u64>()],
    )
        .prop_map(|(field, bars, ops, oseed, lseed, pseed)| {
            let mut dims = vec![];
            let mut fil = vec![];
            let mut norm: Vec<(usize, usize, i64)> = vec![];
            for (d, b, len, c) in bars {
                let bi = dims.len();
                dims.push(d);
                fil.push(b);
                if let Some(l) = len {
                    let di = dims.len();
                    dims.push(d + 1);
                    fil.push(b + l);
                    norm.push((bi, di, c));
                }
            }
            let n = dims.len();
            // internal order of the cells (final order: filtration, then label), labels drawn here
            let mut rs = Rs(oseed);
            let mut label: Vec<u32> = (0..n as u32).collect();
            if lseed != 0 {
                let mut r2 = Rs(lseed);
                for (i, l) in label.iter_mut().enumerate() {
                    *l = (r2.below(1 << 16) * 1024 + i) as u32;
                }
            }
            let mut cols: Vec<BTreeMap<usize, i64>> = vec![BTreeMap::new(); n];
            for (b, d, c) in norm {
                cols[d].insert(b, c);
            }
            let key = |i: usize| (fil[i], label[i]);
            for (x, y, c) in ops {
                if c == 0 || n == 0 {
                    continue;
                }
                let i = x as usize % n;
                let same: Vec<usize> = (0..n).filter(|j| dims[*j] == dims[i] && *j != i).collect();
                if same.is_empty() {
                    continue;
                }
                let j = same[y as usize % same.len()];
                let (lo, hi) = if key(i) < key(j) { (i, j) } else { (j, i) };
                // replace basis element hi by hi + c*lo: column hi gains c*column lo,
                // and in the dimension above row lo loses c*row hi
                let before = cols.clone();
                let add: Vec<(usize, i64)> = cols[lo].iter().map(|(r, v)| (*r, *v)).collect();
                for (r, v) in add {
                    let e = cols[hi].entry(r).or_insert(0);
                    *e += c * v;
                }
                cols[hi].retain(|_, v| *v != 0);
                for col in cols.iter_mut() {
                    if let Some(v) = col.get(&hi).copied() {
                        let e = col.entry(lo).or_insert(0);
                        *e -= c * v;
                        if *e == 0 {
                            col.remove(&lo);
                        }
                    }
                }
                let big = cols.iter().flat_map(|c| c.values()).any(|v| v.abs() > 60);
                if big {
                    cols = before;
                }
            }
            let _ = &mut rs;
            let mut c = finish(field, dims.clone(), fil.clone(), cols, 0, pseed);
            c.label = label;
            c
        })
        .boxed()
}

/// Long cycles: a path through all vertices in a random or orderly sequence of times, closed by chords,
/// some of the cycles filled by a two-cell. A chord's column is reduced by up to as many others as there are vertices.
fn cycles_sized(lo: usize, hi: usize) -> BoxedStrategy<Cpx> {
    (
        any_field(),
        lo..=hi,
        prop::collection::vec((any::<u16>(), any::<u16>(), any::<bool>(), 0i64..4), 1..5),
        0u8..4,
        any::<u64>(),
        prop_oneof![2 => Just(0u64), 1 => any::<u64>()],
        prop_oneof![3 => Just(0u64), 1 => any::<u64>()],
    )
        .prop_map(|(field, n, chords, shape, wseed, lseed, pseed)| {
            let mut rs = Rs(wseed);
            let mut dims = vec![0; n];
            let mut fil = vec![0i64; n];
            let mut cols: Vec<BTreeMap<usize, i64>> = vec![BTreeMap::new(); n];
            // Some cells are rescaled, so that pivots are not all units of order two.
            let scaled = rs.below(3) == 0;
            let mut unit: Vec<i64> = vec![1; n];
            for i in 0..n - 1 {
                unit.push(if scaled { [1, 2, -1][rs.below(3)] } else { 1 });
                dims.push(1);
                fil.push(match shape {
                    0 => 0,
                    1 => i as i64,
                    2 => (n - i) as i64,
                    _ => rs.below(n) as i64,
                });
                cols.push(BTreeMap::from([(i, -unit[n + i]), (i + 1, unit[n + i])]));
            }
            let base = 1 + *fil.iter().max().unwrap();
            for (x, y, filled, late) in chords {
                let (i, j) = (x as usize % n, y as usize % n);
                let (i, j) = (i.min(j), i.max(j));
                if i == j {
                    continue;
                }
                let e = dims.len();
                dims.push(1);
                fil.push(base + late);
                cols.push(BTreeMap::from([(i, -1), (j, 1)]));
                if filled {
                    dims.push(2);
                    fil.push(base + 4);
                    let k = if scaled { 2 } else { 1 };
                    let mut c: BTreeMap<usize, i64> = (i..j).map(|q| (n + q, k / unit[n + q])).collect();
                    c.insert(e, -k);
                    cols.push(c);
                }
            }
            finish(field, dims, fil, cols, lseed, pseed)
        })
        .boxed()
}

pub fn complexes(tier: Tier) -> BoxedStrategy<Cpx> {
    prop_oneof![
        40 => simplicial(tier),
        40 => barcode(tier),
        1 => barcode_sized(40, 100),
        1 => simplicial_sized(8, 220),
        1 => cycles_sized(12, 140)
    ]
    .boxed()
}

/// An arbitrary square-indexed matrix with a filtration and an ordered basis split by dimension.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Mat {
    pub field: Fld,
    pub label: Vec<u32>,
    pub fil: Vec<i64>,
    pub cols: Vec<Vec<(i64, usize)>>,
    /// Basis: positions, grouped by dimension.
    pub basis: Vec<Vec<usize>>,
}
impl Mat {
    pub fn n(&self) -> usize {
        self.label.len()
    }
    pub fn lab(&self, i: usize) -> Lab {
        Lab(self.label[i])
    }
    pub fn raw<F: TF>(&self) -> RawMat<F> {
        assert_eq!(F::TAG, self.field, "HARNESS-ERROR field");
        RawMat::new(
            (0..self.n()).map(|i| (self.lab(i), fterms::<F>(&self.cols[i], |r| self.lab(r)))).collect(),
            (0..self.n()).map(|i| (self.lab(i), Fv(self.fil[i]))).collect(),
            SplitVec::concat(self.basis.iter().map(|b| b.iter().map(|i| self.lab(*i)).collect()).collect()),
        )
    }
    /// Terms of a column in the field.
    pub fn terms<F: TF>(&self, i: usize) -> Vec<(F, Lab)> {
        fterms::<F>(&self.cols[i], |r| self.lab(r))
    }
    pub fn truth<F: TF>(&self, i: usize) -> BTreeMap<Lab, F> {
        sum_terms(self.terms::<F>(i))
    }
    pub fn elems(&self) -> Vec<usize> {
        self.basis.iter().flatten().copied().collect()
    }
}

pub fn labels(n: usize, lseed: u64) -> Vec<u32> {
    let mut label: Vec<u32> = (0..n as u32).collect();
    if lseed != 0 {
        let mut rs = Rs(lseed);
        for (i, l) in label.iter_mut().enumerate() {
            *l = (rs.below(1 << 16) * 1024 + i) as u32;
        }
    }
    label
}

/// `full`: the basis contains every index.
pub fn mats_sized(lo: usize, hi: usize, dens: usize, full: bool) -> BoxedStrategy<Mat> {
    let cols = move |n: usize| prop::collection::vec(prop::collection::vec((-3i64..4, 0..n.max(1)), 0..=dens), n).boxed();
    mats_with(lo, hi, full, cols)
}
/// Few long columns (up to `terms` terms) over many rows, the others nearly empty.
pub fn mats_long(lo: usize, hi: usize, terms: usize, full: bool) -> BoxedStrategy<Mat> {
    let cols = move |n: usize| {
        (
            prop::collection::vec(prop::collection::vec((-3i64..4, 0..n), 0..=2), n),
            prop::collection::vec((0..n, prop::collection::vec((1i64..3, 0..n), 1..=terms)), 1..=3),
        )
            .prop_map(|(mut cols, long)| {
                for (i, c) in long {
                    cols[i] = c;
                }
                cols
            })
            .boxed()
    };
    mats_with(lo, hi, full, cols)
}
fn mats_with(lo: usize, hi: usize, full: bool, cols: impl Fn(usize) -> BoxedStrategy<Vec<Vec<(i64, usize)>>> + Clone + 'static) -> BoxedStrategy<Mat> {
    (any_field(), lo..=hi)
        .prop_flat_map(move |(field, n)| {
            (
                Just(field),
                Just(n),
                cols(n),
                prop::collection::vec(0i64..4, n),
                any::<u64>(),
                prop::collection::vec((any::<u8>(), 0usize..3, any::<bool>()), n),
                prop::bool::weighted(0.25),
            )
        })
        .prop_map(move |(field, n, cols, fil, lseed, bas, partial)| {
            let mut ord: Vec<usize> = (0..n).collect();
            ord.sort_by_key(|i| bas[*i].0);
            let mut basis: Vec<Vec<usize>> = vec![vec![]; 3];
            for i in ord {
                if full || !partial || bas[i].2 {
                    basis[bas[i].1].push(i);
                }
            }
            Mat { field, label: labels(n, lseed), fil, cols, basis }
        })
        .boxed()
}
pub fn mats(tier: Tier) -> BoxedStrategy<Mat> {
    let big = if tier == Tier::Quick { 12 } else { 24 };
    rare(prop_oneof![3 => mats_sized(0, 6, 6, false), 2 => mats_sized(4, big, 5, false)].boxed(), false)
}
/// Once in a while a large matrix, or one with long columns: thresholds inside the library
/// (buffers, tables, inline storage) are crossed.
pub fn rare(usual: BoxedStrategy<Mat>, full: bool) -> BoxedStrategy<Mat> {
    prop_oneof![
        120 => usual,
        1 => mats_sized(15, 80, 10, full),
        1 => mats_sized(1, 6, 80, full),
        1 => mats_sized(10, 40, 50, full),
        1 => mats_long(10, 300, 500, full),
    ]
    .boxed()
}
