//! Shared by the checks of adaptors: type-erased matrices and the verification of one matrix.
#![allow(unused_imports)]
use crate::complexes::*;
use crate::fields::*;
use crate::fw::*;
use crate::gens::*;
use crate::mats::*;
use crate::{ensure, with_field};
use phlite::columns::ColumnEntry;
use phlite::fields::NonZeroCoefficient;
use phlite::matrices::adaptors::{ReverseBasis, UnreverseBasis};
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::implementors::{MapVecMatrix, StandardBasis, VecVecMatrix};
use phlite::matrices::{BasisElement, ColBasis, FiltrationValue, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use phlite::reduction::{standard_algo, ClearedReductionMatrix};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;
use std::sync::Arc;

// ---------------------------------------------------------------- erased matrices

pub trait DynM<F, C, R, FT> {
    fn col(&self, c: C) -> Vec<(F, R)>;
    fn ents(&self, c: C) -> Vec<(F, R, FT)>;
    fn fv(&self, r: R) -> FT;
}
pub struct Wrap<M>(pub M);
impl<M: MatrixOracle + HasRowFiltration> DynM<M::CoefficientField, M::ColT, M::RowT, M::FiltrationT> for Wrap<M> {
    fn col(&self, c: M::ColT) -> Vec<(M::CoefficientField, M::RowT)> {
        self.0.column(c).collect()
    }
    fn ents(&self, c: M::ColT) -> Vec<(M::CoefficientField, M::RowT, M::FiltrationT)> {
        entries_of(&self.0, c)
    }
    fn fv(&self, r: M::RowT) -> M::FiltrationT {
        self.0.filtration_value(r)
    }
}
/// Goes through the implementation for references.
pub struct RefWrap<M>(pub M);
impl<M: MatrixOracle + HasRowFiltration> DynM<M::CoefficientField, M::ColT, M::RowT, M::FiltrationT> for RefWrap<M> {
    fn col(&self, c: M::ColT) -> Vec<(M::CoefficientField, M::RowT)> {
        let r = &self.0;
        <&M as MatrixOracle>::column(&r, c).collect()
    }
    fn ents(&self, c: M::ColT) -> Vec<(M::CoefficientField, M::RowT, M::FiltrationT)> {
        entries_of::<&M>(&&self.0, c)
    }
    fn fv(&self, r: M::RowT) -> M::FiltrationT {
        let m = &self.0;
        <&M as HasRowFiltration>::filtration_value(&m, r)
    }
}
/// A matrix behind a trait object, with its basis written out.
pub struct Er<F, C, R, FT> {
    pub m: Box<dyn DynM<F, C, R, FT>>,
    pub basis: SplitVec<C>,
}
impl<F: NonZeroCoefficient, C: BasisElement, R: BasisElement, FT> MatrixOracle for Er<F, C, R, FT> {
    type CoefficientField = F;
    type ColT = C;
    type RowT = R;
    fn column(&self, c: C) -> impl Iterator<Item = (F, R)> {
        self.m.col(c).into_iter()
    }
}
impl<F: NonZeroCoefficient, C: BasisElement, R: BasisElement, FT: FiltrationValue> HasRowFiltration for Er<F, C, R, FT> {
    type FiltrationT = FT;
    fn filtration_value(&self, r: R) -> FT {
        self.m.fv(r)
    }
    fn column_with_filtration(&self, c: C) -> impl Iterator<Item = ColumnEntry<FT, R, F>> {
        self.m.ents(c).into_iter().map(|t| t.into())
    }
}
impl<F: NonZeroCoefficient, C: BasisElement, R: BasisElement, FT> HasColBasis for Er<F, C, R, FT> {
    type BasisT = SplitVec<C>;
    type BasisRef<'a>
        = &'a SplitVec<C>
    where
        Self: 'a;
    fn basis(&self) -> &SplitVec<C> {
        &self.basis
    }
}
pub fn snap<M>(m: &M, ndims: usize) -> SplitVec<M::ColT>
where
    M: HasColBasis<BasisT: SplitByDimension>,
{
    SplitVec {
        total: list_of(&*m.basis()),
        dims: (0..ndims).map(|d| list_of(m.basis().in_dimension(d))).collect(),
    }
}
pub fn erase<M>(m: M, ndims: usize) -> Er<M::CoefficientField, M::ColT, M::RowT, M::FiltrationT>
where
    M: MatrixOracle + HasRowFiltration + HasColBasis<BasisT: SplitByDimension> + 'static,
{
    let basis = snap(&m, ndims);
    Er { m: Box::new(Wrap(m)), basis }
}

// ---------------------------------------------------------------- verification of one matrix

pub type Want<F, C, R, FT> = (Vec<(C, BTreeMap<R, F>)>, Vec<(R, FT)>);

/// Entries, filtration values and enriched columns are as wanted.
pub fn verify_cols<M>(name: &str, m: &M, want: &Want<M::CoefficientField, M::ColT, M::RowT, M::FiltrationT>) -> Result<(), String>
where
    M: MatrixOracle<ColT: Debug, RowT: Debug, CoefficientField: Debug> + HasRowFiltration<FiltrationT: Debug>,
{
    let fil: BTreeMap<M::RowT, M::FiltrationT> = want.1.iter().cloned().collect();
    for (r, f) in want.1.iter() {
        let g = m.filtration_value(r.clone());
        ensure!(g == *f, "{name}: filtration value of {r:?} is {g:?}, expected {f:?}");
    }
    for (c, v) in want.0.iter() {
        let got = vec_of(m, c.clone());
        ensure!(got == *v, "{name}: column {c:?} is {got:?}, expected {v:?}");
        let es = entries_of(m, c.clone());
        for (_, r, f) in es.iter() {
            ensure!(fil.get(r) == Some(f), "{name}: column {c:?} gives row {r:?} the filtration value {f:?}, expected {:?}", fil.get(r));
        }
        let s = sum_terms(es.into_iter().map(|(c, r, _)| (c, r)));
        ensure!(s == *v, "{name}: enriched column {c:?} sums to {s:?}, expected {v:?}");
        // the heap built from the column lists it in decreasing order
        let heap: Vec<(M::FiltrationT, M::RowT, M::CoefficientField)> =
            m.build_bhcol(c.clone()).to_sorted_vec().into_iter().map(|e| (e.filtration_value, e.row_index, e.coeff)).collect();
        let mut w: Vec<_> = v.iter().map(|(r, x)| (fil[r].clone(), r.clone(), *x)).collect();
        w.sort_by(|a, b| (&b.0, &b.1).cmp(&(&a.0, &a.1)));
        ensure!(heap == w, "{name}: heap of column {c:?} is {heap:?}, expected {w:?}");
    }
    let e = m.empty_bhcol().to_sorted_vec();
    ensure!(e.is_empty(), "{name}: the empty column has terms {e:?}");
    Ok(())
}
pub fn verify_basis<B>(name: &str, b: &B, want: &[B::ElemT]) -> Result<(), String>
where
    B: ColBasis<ElemT: Debug>,
{
    ensure!(b.size() == want.len(), "{name}: basis of size {}, expected {want:?}", b.size());
    let got = list_of(b);
    ensure!(got == want, "{name}: basis is {got:?}, expected {want:?}");
    Ok(())
}
pub fn verify_index<M>(name: &str, m: &M, want: &Want<M::CoefficientField, M::ColT, M::RowT, M::FiltrationT>, basis: &[M::ColT]) -> Result<(), String>
where
    M: MatrixOracle<ColT: Debug, RowT: Debug, CoefficientField: Debug> + HasRowFiltration<FiltrationT: Debug> + HasColBasis,
{
    let cols: BTreeMap<M::ColT, BTreeMap<M::RowT, M::CoefficientField>> = want.0.iter().cloned().collect();
    let w: Want<_, usize, _, _> = (basis.iter().enumerate().map(|(i, c)| (i, cols[c].clone())).collect(), want.1.clone());
    verify_cols(&format!("{name}, by basis position"), &m.using_col_basis_index(), &w)
}

pub fn want_fwd<F: TF>(m: &Mat, fil: &[i64]) -> Want<F, Lab, Lab, Fv> {
    (
        (0..m.n()).map(|i| (m.lab(i), m.truth::<F>(i))).collect(),
        (0..m.n()).map(|i| (m.lab(i), Fv(fil[i]))).collect(),
    )
}
pub fn rev_want<F: Clone, C: Clone, R: Clone + Ord, FT: Clone>(w: &Want<F, C, R, FT>) -> Want<F, Reverse<C>, Reverse<R>, Reverse<FT>> {
    (
        w.0.iter().map(|(c, v)| (Reverse(c.clone()), v.iter().map(|(r, x)| (Reverse(r.clone()), x.clone())).collect())).collect(),
        w.1.iter().map(|(r, f)| (Reverse(r.clone()), Reverse(f.clone()))).collect(),
    )
}
pub fn rev_list<T: Clone>(v: &[T]) -> Vec<Reverse<T>> {
    v.iter().rev().cloned().map(Reverse).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RCase {
    pub field: Fld,
    pub dist: Dist,
    pub max_dim: usize,
}
pub fn rcases(hi: usize) -> BoxedStrategy<RCase> {
    (any_field(), dists(1, hi), 0usize..4).prop_map(|(field, dist, max_dim)| RCase { field, dist, max_dim }).boxed()
}

/// A few fields stand for all, where every field costs a long compilation.
pub fn few(f: Fld) -> Fld {
    match f {
        Fld::Z2 | Fld::Q | Fld::User => f,
        _ => Fld::Z3,
    }
}
#[macro_export]
macro_rules! with_few {
    ($tag:expr, $f:ident :: < _ > ( $($arg:expr),* $(,)? )) => {{
        use $crate::fields::Fld;
        match $tag {
            Fld::Z2 => $f::<phlite::fields::Z2>($($arg),*),
            Fld::Z3 => $f::<phlite::fields::Z3>($($arg),*),
            Fld::Q => $f::<phlite::fields::Q>($($arg),*),
            Fld::User => $f::<$crate::fields::User>($($arg),*),
            f => panic!("HARNESS-ERROR: field {f:?} is not among the few"),
        }
    }};
}
