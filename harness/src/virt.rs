//! Virtual matrices: bases of any size up to that of the address space, whose elements and columns
//! are computed when asked for. Positions, sizes and labels that are cut to fewer bits anywhere in
//! the library show here.
use crate::adapt::few;
use crate::fields::*;
use crate::fw::*;
use crate::mats::*;
use crate::complexes::Rs;
use crate::{ensure, with_few};
use phlite::matrices::adaptors::{ReverseBasis, UnreverseBasis};
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::implementors::StandardBasis;
use phlite::matrices::{BasisElement, ColBasis, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct VEl(pub u64);
impl BasisElement for VEl {}
fn mix(x: u64, y: u64) -> u64 {
    let mut z = x ^ y.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
/// A stretch of a virtual basis: the elements at positions off to off + n - 1.
#[derive(Clone, Debug)]
pub struct VSub {
    off: u64,
    n: u64,
    odd: u64,
    xor: u64,
}
impl ColBasis for VSub {
    type ElemT = VEl;
    fn element(&self, i: usize) -> VEl {
        assert!((i as u64) < self.n, "position {i} of {} is asked for", self.n);
        VEl((self.off + i as u64).wrapping_mul(self.odd) ^ self.xor)
    }
    fn size(&self) -> usize {
        self.n as usize
    }
}
#[derive(Clone, Debug)]
pub struct VBasis {
    all: VSub,
    dims: Vec<VSub>,
}
impl ColBasis for VBasis {
    type ElemT = VEl;
    fn element(&self, i: usize) -> VEl {
        self.all.element(i)
    }
    fn size(&self) -> usize {
        self.all.size()
    }
}
impl SplitByDimension for VBasis {
    type SubBasisT = VSub;
    fn in_dimension(&self, d: usize) -> &VSub {
        &self.dims[d]
    }
}
/// Square matrix whose columns are computed from the label.
pub struct VMat<F> {
    basis: VBasis,
    seed: u64,
    phantom: std::marker::PhantomData<F>,
}
impl<F: TF> VMat<F> {
    fn terms(&self, c: VEl) -> Vec<(F, VEl)> {
        let h = mix(c.0, self.seed);
        let n = self.basis.all.n;
        (0..h % 5)
            .filter_map(|k| {
                // now and then the same row again
                let r = mix(h, if h >> 40 & 3 == 0 { k / 2 } else { k });
                let at = match r >> 60 {
                    0..=3 => n - 1 - r % n.min(5),
                    4..=7 => r % n.min(5),
                    _ => r % n,
                };
                Some((F::from_i((mix(h, 100 + k) % 7) as i64 - 3)?, self.basis.element(at as usize)))
            })
            .collect()
    }
    fn fil(&self, r: VEl) -> Fv {
        Fv((mix(r.0, !self.seed) % 5) as i64)
    }
}
impl<F: TF> MatrixOracle for VMat<F> {
    type CoefficientField = F;
    type ColT = VEl;
    type RowT = VEl;
    fn column(&self, c: VEl) -> impl Iterator<Item = (F, VEl)> {
        self.terms(c).into_iter()
    }
}
impl<F: TF> HasRowFiltration for VMat<F> {
    type FiltrationT = Fv;
    fn filtration_value(&self, r: VEl) -> Fv {
        self.fil(r)
    }
}
impl<F: TF> HasColBasis for VMat<F> {
    type BasisT = VBasis;
    type BasisRef<'a> = &'a VBasis;
    fn basis(&self) -> &VBasis {
        &self.basis
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VCase {
    field: Fld,
    /// Sizes of three dimensions.
    dims: [u64; 3],
    seed: u64,
}
fn vsize() -> BoxedStrategy<u64> {
    prop_oneof![
        1 => 0u64..4,
        8 => (4u32..=61, 0u64..7).prop_map(|(k, d)| (1u64 << k) + d - 3),
        4 => (4u32..=61, any::<u64>()).prop_map(|(k, r)| (1u64 << k) + r % (1u64 << k)),
    ]
    .boxed()
}
pub fn vcases() -> BoxedStrategy<VCase> {
    (any_field(), vsize(), vsize(), vsize(), any::<u64>())
        .prop_map(|(field, a, b, c, seed)| VCase { field: few(field), dims: [a.max(1), b, c], seed })
        .boxed()
}
impl VCase {
    fn basis(&self) -> VBasis {
        let (odd, xor) = match self.seed % 3 {
            0 => (1, 0),
            1 => (mix(self.seed, 1) | 1, 0),
            _ => (mix(self.seed, 1) | 1, mix(self.seed, 2)),
        };
        let mut off = 0;
        let dims = self
            .dims
            .iter()
            .map(|n| {
                off += n;
                VSub { off: off - n, n: *n, odd, xor }
            })
            .collect();
        VBasis { all: VSub { off: 0, n: off, odd, xor }, dims }
    }
    fn mat<F: TF>(&self, k: u64) -> VMat<F> {
        VMat { basis: self.basis(), seed: mix(self.seed, 77 + k), phantom: Default::default() }
    }
    fn n(&self) -> usize {
        self.dims.iter().sum::<u64>() as usize
    }
}
/// Positions in 0..n: the ends, around powers of two, others.
fn spots(n: usize, rs: &mut Rs) -> Vec<usize> {
    if n == 0 {
        return vec![];
    }
    let mut v: BTreeSet<usize> = [0, 1, n / 2, n - 1, n.wrapping_sub(2)].into_iter().collect();
    for _ in 0..5 {
        let k = 3 + rs.below(59);
        v.insert((1usize << k) + rs.below(3) - 1);
        v.insert((n as u64).wrapping_sub((1u64 << k) + rs.below(3) as u64 - 1) as usize);
        v.insert((rs.next() % n as u64) as usize);
    }
    v.into_iter().filter(|i| *i < n).collect()
}
fn size_obs(c: &VCase, obs: &mut Obs) {
    let n = c.n() as u64;
    obs.class_if(n > u32::MAX as u64, "more elements than 32 bits can count");
    obs.class_if(n > u16::MAX as u64, "more elements than 16 bits can count");
    obs.nontrivial = n > 255;
}

/// One matrix at some positions of its basis. `elems`: the expected elements there; `of`: columns
/// with filtration values.
fn verify<M>(name: &str, m: &M, size: usize, elems: &[(usize, M::ColT)], of: impl Fn(&M::ColT) -> Vec<(M::CoefficientField, M::RowT, M::FiltrationT)>) -> Result<(), String>
where
    M: MatrixOracle<ColT: Debug, RowT: Debug, CoefficientField: Debug> + HasRowFiltration<FiltrationT: Debug> + HasColBasis,
{
    let b = m.basis();
    ensure!(b.size() == size, "{name}: its basis has {} elements, expected {size}", b.size());
    let ix = m.using_col_basis_index();
    for (p, e) in elems {
        let got = b.element(*p);
        ensure!(got == *e, "{name}: element {p} of its {size} is {got:?}, expected {e:?}");
        let full = of(e);
        let want = sum_terms(full.iter().map(|t| (t.0, t.1.clone())));
        let fil: BTreeMap<&M::RowT, &M::FiltrationT> = full.iter().map(|t| (&t.1, &t.2)).collect();
        let same = |what: &str, got: BTreeMap<M::RowT, M::CoefficientField>| -> Result<(), String> {
            ensure!(got == want, "{name}: {what} column {e:?}, at position {p} of {size}, is {got:?}, expected {want:?}");
            Ok(())
        };
        let rows = |what: &str, es: Vec<(M::CoefficientField, M::RowT, M::FiltrationT)>| -> Result<(), String> {
            for (_, r, f) in es.iter() {
                ensure!(fil.get(r) == Some(&f), "{name}: {what} column {e:?}: row {r:?} carries {f:?}, expected {:?}", fil.get(r));
            }
            same(what, sum_terms(es.into_iter().map(|t| (t.0, t.1))))
        };
        same("the", vec_of(m, e.clone()))?;
        rows("the enriched", entries_of(m, e.clone()))?;
        rows("the heap of", m.build_bhcol(e.clone()).to_sorted_vec().into_iter().map(|x| (x.coeff, x.row_index, x.filtration_value)).collect())?;
        same("by position, the", vec_of(&ix, *p))?;
        rows("by position, the enriched", entries_of(&ix, *p))?;
        for (r, f) in fil.iter() {
            let g = m.filtration_value((*r).clone());
            ensure!(g == **f, "{name}: the filtration value of {r:?} is {g:?}, expected {f:?}");
        }
    }
    Ok(())
}
fn rev<T: Clone>(e: &[(usize, T)], n: usize) -> Vec<(usize, Reverse<T>)> {
    e.iter().map(|(p, x)| (n - 1 - p, Reverse(x.clone()))).collect()
}
fn v_adapt_f<F: TF>(c: &VCase, obs: &mut Obs) -> Result<(), String> {
    size_obs(c, obs);
    let rs = &mut Rs(c.seed ^ 8);
    let a = &c.mat::<F>(0);
    let n = c.n();
    let at: Vec<(usize, VEl)> = spots(n, rs).into_iter().map(|p| (p, a.basis.element(p))).collect();
    let rat = rev(&at, n);
    let of = |e: &VEl| -> Vec<_> { a.terms(*e).into_iter().map(|(x, r)| (x, r, a.fil(r))).collect() };
    let rof = |e: &Reverse<VEl>| -> Vec<_> { a.terms(e.0).into_iter().map(|(x, r)| (x, Reverse(r), Reverse(a.fil(r)))).collect() };
    let f2 = |r: VEl| Fv((mix(r.0, 5) % 9) as i64);
    let of2 = |e: &VEl| -> Vec<_> { a.terms(*e).into_iter().map(|(x, r)| (x, r, f2(r))).collect() };
    let d = rs.below(3);
    let (off, k) = (a.basis.dims[d].off as usize, a.basis.dims[d].size());
    let sub: Vec<(usize, VEl)> = spots(k, rs).into_iter().map(|p| (p, a.basis.element(off + p))).collect();
    let rsub = rev(&sub, k);
    match rs.below(4) {
        0 => {
            verify("&M", &a, n, &at, of)?;
            verify("reverse", &a.reverse(), n, &rat, rof)?;
            verify("reverse.unreverse", &MatrixOracle::unreverse(a.reverse()), n, &at, of)?;
            verify("cache", &a.cache_cols(), n, &at, of)?;
        }
        1 => {
            verify("consolidate", &a.consolidate(), n, &at, of)?;
            verify("filtration", &a.with_filtration(f2), n, &at, of2)?;
            verify("cache.reverse.consolidate", &a.cache_cols().reverse().consolidate(), n, &rat, rof)?;
            verify("sub", &a.sub_matrix_in_dimension(d), k, &sub, of)?;
        }
        2 => {
            verify("reverse.sub", &a.reverse().sub_matrix_in_dimension(d), k, &rsub, rof)?;
            verify("cache.sub.reverse.consolidate", &a.cache_cols().sub_matrix_in_dimension(d).reverse().consolidate(), k, &rsub, rof)?;
            verify("sub.reverse.unreverse", &MatrixOracle::unreverse(a.sub_matrix_in_dimension(d).reverse()), k, &sub, of)?;
            verify("reverse.unreverse.sub", &MatrixOracle::unreverse(a.reverse()).sub_matrix_in_dimension(d), k, &sub, of)?;
        }
        _ => {
            // another basis: the same elements, moved round
            let by = rs.next() % n as u64;
            let other = VSub { off: 0, n: n as u64 - by, odd: a.basis.all.odd, xor: a.basis.all.xor };
            let k = other.size();
            let oat: Vec<(usize, VEl)> = spots(k, rs).into_iter().map(|p| (p, other.element(p))).collect();
            verify("another basis", &a.with_basis(other.clone()), k, &oat, of)?;
            verify("another basis, reversed", &a.with_basis(other.clone()).reverse(), k, &rev(&oat, k), rof)?;
            // columns by their number
            let num: Vec<(usize, usize)> = at.iter().map(|(p, _)| (*p, *p)).collect();
            let nof = |p: &usize| of(&a.basis.element(*p));
            verify("by position, with the standard basis", &a.using_col_basis_index().with_basis(StandardBasis::new(n)), n, &num, nof)?;
            let rnof = |p: &Reverse<usize>| rof(&Reverse(a.basis.element(p.0)));
            verify("by position, with the standard basis, reversed", &a.using_col_basis_index().with_basis(StandardBasis::new(n)).reverse(), n, &rev(&num, n), rnof)?;
        }
    }
    Ok(())
}
pub fn v_adapt(c: &VCase, obs: &mut Obs) -> Result<(), String> {
    with_few!(c.field, v_adapt_f::<_>(c, obs))
}

fn at_spots<B>(name: &str, b: &B, n: usize, at: &[usize], want: impl Fn(usize) -> B::ElemT) -> Result<(), String>
where
    B: ColBasis<ElemT: Debug>,
{
    ensure!(b.size() == n, "{name}: size {}, expected {n}", b.size());
    for p in at {
        let got = b.element(*p);
        ensure!(got == want(*p), "{name}: element {p} of {n} is {got:?}, expected {:?}", want(*p));
    }
    Ok(())
}
fn laws<B>(name: &str, b: &B, n: usize, at: &[usize], want: impl Fn(usize) -> B::ElemT + Copy) -> Result<(), String>
where
    B: ColBasis<ElemT: Debug + Hash>,
{
    at_spots(name, b, n, at, want)?;
    at_spots(&format!("{name} by reference"), &b, n, at, want)?;
    let r = b.reverse();
    at_spots(&format!("reversed {name}"), &r, n, at, |p| Reverse(want(n - 1 - p)))?;
    at_spots(&format!("reversed {name} through its reference"), &*r, n, at, |p| Reverse(want(n - 1 - p)))?;
    at_spots(&format!("unreversed reversed {name}"), &ColBasis::unreverse(r), n, at, want)?;
    at_spots(&format!("unreversed reversed {name} through its reference"), &*UnreverseBasis(&ReverseBasis(b)), n, at, want)?;
    at_spots(&format!("twice reversed {name}"), &ColBasis::reverse(&r), n, at, |p| Reverse(Reverse(want(p))))
}
pub fn v_basis(c: &VCase, obs: &mut Obs) -> Result<(), String> {
    size_obs(c, obs);
    let rs = &mut Rs(c.seed ^ 12);
    let n = c.n();
    let b = c.basis();
    let at = spots(n, rs);
    laws("standard basis", &StandardBasis::new(n), n, &at, |p| p)?;
    let all = b.all.clone();
    laws("split basis", &b, n, &at, |p| all.element(p))?;
    for (d, s) in b.dims.iter().enumerate() {
        let (off, k) = (s.off as usize, s.size());
        let at = spots(k, rs);
        let name = format!("dimension {d}");
        let want = |p: usize| all.element(off + p);
        laws(&name, b.in_dimension(d), k, &at, want)?;
        let rwant = |p: usize| Reverse(all.element(off + k - 1 - p));
        at_spots(&format!("{name}, reversed"), ReverseBasis(&b).in_dimension(d), k, &at, rwant)?;
        at_spots(&format!("{name}, reversed through its reference"), (*ReverseBasis(&b)).in_dimension(d), k, &at, rwant)?;
        at_spots(&format!("{name}, unreversed"), UnreverseBasis(ReverseBasis(&b)).in_dimension(d), k, &at, want)?;
    }
    Ok(())
}

fn v_prod_f<F: TF>(c: &VCase, obs: &mut Obs) -> Result<(), String> {
    size_obs(c, obs);
    let rs = &mut Rs(c.seed ^ 7);
    let (a, b, d) = (&c.mat::<F>(0), &c.mat::<F>(1), &c.mat::<F>(2));
    let n = c.n();
    let at: Vec<(usize, VEl)> = spots(n, rs).into_iter().map(|p| (p, a.basis.element(p))).collect();
    let times = |m: &VMat<F>, v: Vec<(F, VEl)>| -> Vec<(F, VEl)> { v.into_iter().flat_map(|(x, r)| m.terms(r).into_iter().map(move |(y, q)| (y * x, q))).collect() };
    let with_a = |v: Vec<(F, VEl)>| -> Vec<(F, VEl, Fv)> { v.into_iter().map(|(x, r)| (x, r, a.fil(r))).collect() };
    match rs.below(4) {
        0 => verify("product", &product(a, b), n, &at, |e| with_a(times(a, b.terms(*e))))?,
        1 => verify("product of three", &product(product(a, b), d), n, &at, |e| with_a(times(a, times(b, d.terms(*e)))))?,
        2 => {
            let of = |e: &VEl| with_a(times(a, b.terms(*e)).into_iter().chain(d.terms(*e)).collect());
            verify("product plus a matrix", &sum(product(a, b), d).with_filtration(|r| a.fil(r)).with_basis(a.basis.clone()), n, &at, of)?;
        }
        _ => {
            let by = a.using_col_basis_index();
            let num: Vec<(usize, usize)> = at.iter().map(|(p, _)| (*p, *p)).collect();
            let two = F::one() + F::one();
            // a matrix indexed by position times a matrix of positions
            let pick = VecMap { at: num.iter().map(|(p, _)| (*p, two.into_iter().map(|x| (x, n - 1 - p)).chain([(F::one(), *p)]).collect())).collect(), n };
            let of = |p: &usize| with_a(two.into_iter().flat_map(|x| a.terms(a.basis.element(n - 1 - p)).into_iter().map(move |t| (t.0 * x, t.1))).chain(a.terms(a.basis.element(*p))).collect());
            verify("a matrix by position times another", &product(by, &pick), n, &num, of)?;
        }
    }
    Ok(())
}
/// Some columns of a matrix of positions.
struct VecMap<F> {
    at: BTreeMap<usize, Vec<(F, usize)>>,
    n: usize,
}
impl<F: TF> MatrixOracle for VecMap<F> {
    type CoefficientField = F;
    type ColT = usize;
    type RowT = usize;
    fn column(&self, c: usize) -> impl Iterator<Item = (F, usize)> {
        self.at[&c].clone().into_iter()
    }
}
impl<F: TF> HasColBasis for VecMap<F> {
    type BasisT = StandardBasis;
    type BasisRef<'a> = StandardBasis;
    fn basis(&self) -> StandardBasis {
        StandardBasis::new(self.n)
    }
}
pub fn v_prod(c: &VCase, obs: &mut Obs) -> Result<(), String> {
    with_few!(c.field, v_prod_f::<_>(c, obs))
}

pub fn virt(prop: &str) -> Box<dyn AnyTest> {
    let t = |rule: &'static str, check: Check<VCase>| -> Box<dyn AnyTest> { Box::new(Test::<VCase> { name: "virtual", cases: (40_000, 600_000), rule, strat: |_| vcases(), check, shards: 8 }) };
    match prop {
        "C07" => t("products and sums of matrices whose up to 2^63 columns are computed on request, at the ends, around powers of two and at random positions; non-trivial with more than 255 columns", v_prod),
        "C08" | "C10" => t("adaptor stacks over matrices whose up to 2^63 columns are computed on request, at the ends, around powers of two and at random positions; non-trivial with more than 255 columns", v_adapt),
        "C12" => t("bases of up to 2^63 elements computed on request, reversed, unreversed and by dimension, at the ends, around powers of two and at random positions; non-trivial with more than 255 elements", v_basis),
        p => panic!("HARNESS-ERROR: no virtual matrices for {p}"),
    }
}
