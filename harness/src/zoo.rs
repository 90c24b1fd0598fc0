//! Matrices of the library, each wrapped in several ways, for checks that ask the same of all of them.
use crate::adapt::few;
use crate::fields::*;
use crate::fw::*;
use crate::gens::*;
use crate::mats::*;
use phlite::columns::ColumnEntry;
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, MatrixOracle};
use phlite::reduction::{standard_algo, ClearedReductionMatrix};
use phlite_grpph::boundary::GrPPHBoundary;
use phlite_grpph::coboundary::{GrPPHCoboundary, PathHomCell, PathHomSingleBasis};
use phlite_rips::cohomology::build_rips_coboundary_matrix;
use phlite_rips::homology::build_rips_boundary_matrix;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::BTreeSet;
use std::fmt::Debug;

/// What is asked of a matrix; `mk` makes it anew, `cols` are its columns if not those of its basis.
pub trait Visit {
    fn visit<M>(&mut self, name: &str, mk: impl Fn() -> M, cols: Option<Vec<M::ColT>>) -> Result<(), String>
    where
        M: HasRowFiltration<FiltrationT: Debug> + HasColBasis,
        M: MatrixOracle<ColT: Debug, RowT: Debug, CoefficientField: TF>;
}

/// A matrix with a basis that keeps its own `column_with_filtration`.
pub struct Bare<M: MatrixOracle> {
    pub m: M,
    pub basis: Vec<M::ColT>,
}
impl<M: MatrixOracle> MatrixOracle for Bare<M> {
    type CoefficientField = M::CoefficientField;
    type ColT = M::ColT;
    type RowT = M::RowT;
    fn column(&self, col: Self::ColT) -> impl Iterator<Item = (Self::CoefficientField, Self::RowT)> {
        self.m.column(col)
    }
}
impl<M: HasRowFiltration> HasRowFiltration for Bare<M> {
    type FiltrationT = M::FiltrationT;
    fn filtration_value(&self, row: Self::RowT) -> Self::FiltrationT {
        self.m.filtration_value(row)
    }
    fn column_with_filtration(&self, col: Self::ColT) -> impl Iterator<Item = ColumnEntry<Self::FiltrationT, Self::RowT, Self::CoefficientField>> {
        self.m.column_with_filtration(col)
    }
}
impl<M: MatrixOracle> HasColBasis for Bare<M> {
    type BasisT = Vec<M::ColT>;
    type BasisRef<'a>
        = &'a Vec<M::ColT>
    where
        Self: 'a;
    fn basis(&self) -> &Vec<M::ColT> {
        &self.basis
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HCase {
    pub dist: Dist,
    pub dig: Dig,
    pub field: Fld,
    pub what: u8,
    pub max_dim: usize,
    pub steps: usize,
    pub seed: u64,
}
pub fn rips_f<F: TF, V: Visit>(c: &HCase, v: &mut V) -> Result<(), String> {
    let (d, k) = (&c.dist, c.max_dim);
    let bd = || build_rips_boundary_matrix::<F>(d.matrix(), k);
    let cob = || build_rips_coboundary_matrix::<F>(d.matrix(), k);
    match c.what % 13 {
        0 => v.visit("Rips boundary", bd, None),
        1 => v.visit("Rips coboundary", cob, None),
        2 => v.visit("reversed Rips coboundary", || cob().reverse(), None),
        3 => v.visit("Rips boundary, restricted", || bd().sub_matrix_in_dimension(k), None),
        4 => {
            let places: Vec<usize> = (0..cob().basis().size()).collect();
            v.visit("Rips coboundary by position", || cob().using_col_basis_index().with_basis(places.clone()), None)
        }
        5 => v.visit("cached Rips coboundary", || cob().cache_cols(), None),
        6 => {
            let list = list_of(&*bd().basis());
            v.visit("Rips boundary of boundary plus boundary", || sum(product(bd(), bd()), bd()).with_trivial_filtration().with_basis(list.clone()), None)
        }
        7 => v.visit("consolidated Rips coboundary", || cob().consolidate(), None),
        11 => {
            let list = list_of(&*cob().basis());
            v.visit("Rips coboundary without basis", || Bare { m: cob().matrix, basis: list.clone() }, None)
        }
        12 => {
            let list = list_of(&*cob().basis());
            let stack = || product(cob().matrix.reverse(), standard_algo(cob().reverse()));
            v.visit("R of the reversed Rips coboundary", || Bare { m: stack(), basis: list.iter().copied().map(Reverse).collect() }, None)
        }
        8 => v.visit("R of clearing", || product(cob().reverse(), ClearedReductionMatrix::build_with_diagram(cob().reverse(), 0..=k).0), None),
        9 => v.visit("V of clearing", || ClearedReductionMatrix::build_with_diagram(bd(), (0..=k).rev()).0.with_trivial_filtration(), None),
        _ => {
            let list = list_of(&*bd().basis());
            v.visit("R of the standard algorithm", || product(bd(), standard_algo(bd())).with_basis(list.clone()), None)
        }
    }
}
pub fn dig_f<F: TF, V: Visit>(c: &HCase, v: &mut V) -> Result<(), String> {
    let d = &c.dig;
    let n = d.n as u16;
    let (fv, fm, es) = (d.as_vec(), d.as_map(), d.edge_set());
    let cob = || GrPPHCoboundary::<F, _>::build(&fv, &es, n);
    let rows: BTreeSet<PathHomCell> = {
        let m = cob();
        list_of(&*m.basis()).into_iter().flat_map(|x| m.column(x).map(|y| y.1).collect::<Vec<_>>()).collect()
    };
    let two: Vec<PathHomCell> = rows.into_iter().filter(|x| x.dimension() == 2).collect();
    let all: Vec<PathHomCell> = list_of(&*cob().basis()).into_iter().chain(two.iter().copied()).collect();
    let basis = || {
        let m = cob();
        PathHomSingleBasis(two.iter().map(|x| (m.filtration_value(*x), *x)).collect())
    };
    match c.what % 9 {
        8 => {
            let list = list_of(&*cob().basis());
            v.visit("GrPPH coboundary without basis", || Bare { m: cob().matrix, basis: list.clone() }, None)
        }
        0 => v.visit("GrPPH coboundary", cob, None),
        1 => v.visit("GrPPH coboundary, filtration as a map", || GrPPHCoboundary::<F, _>::build(&fm, &es, n), None),
        2 => v.visit("reversed GrPPH coboundary", || cob().reverse(), None),
        3 => v.visit("GrPPH boundary", || GrPPHBoundary::<F, _>::build(&fv, &es, basis()), Some(all)),
        4 => v.visit("cached GrPPH coboundary", || cob().cache_cols(), None),
        5 => v.visit("R of clearing of GrPPH", || product(cob().reverse(), ClearedReductionMatrix::build_with_diagram(cob().reverse(), 0..=1).0), None),
        6 => v.visit("R of the restricted GrPPH boundary", || {
            let b = || GrPPHBoundary::<F, _>::build(&fv, &es, basis());
            product(b(), standard_algo(b())).with_basis(two.clone())
        }, None),
        _ => v.visit("GrPPH coboundary squared, consolidated", || product(cob(), GrPPHBoundary::<F, _>::build(&fv, &es, basis())).consolidate(), Some(two.clone())),
    }
}
/// A user's matrix.
pub trait Base<F>: MatrixOracle<CoefficientField = F, ColT = Lab, RowT = Lab> + HasRowFiltration<FiltrationT = Fv> + HasColBasis<BasisT = SplitVec<Lab>> {}
impl<F, M> Base<F> for M where M: MatrixOracle<CoefficientField = F, ColT = Lab, RowT = Lab> + HasRowFiltration<FiltrationT = Fv> + HasColBasis<BasisT = SplitVec<Lab>> {}

pub const STACKS: u8 = 13;
/// Stacks of adaptors and combinators over the matrix made by `m`.
pub fn stacks_f<F: TF, M: Base<F>, V: Visit>(what: u8, m: impl Fn() -> M, v: &mut V) -> Result<(), String> {
    let list: Vec<Lab> = list_of(&*m().basis());
    match what % STACKS {
        0 => v.visit("cached matrix", || m().cache_cols(), None),
        1 => v.visit("consolidated matrix", || m().consolidate(), None),
        2 => v.visit("cached square", || product(m(), m()).cache_cols(), None),
        3 => {
            v.visit("square of a cached matrix plus the matrix", || sum(product(m().cache_cols(), m().cache_cols()), m()).with_basis(list.clone()).with_filtration(|r: Lab| Fv(r.0 as i64 / 2)), None)
        }
        4 => v.visit("reversed cached consolidated matrix", || m().consolidate().cache_cols().reverse(), None),
        5 => {
            let places: Vec<usize> = (0..list.len()).collect();
            v.visit("matrix by position, cached", || m().using_col_basis_index().with_basis(places.clone()).cache_cols(), None)
        }
        6 => v.visit("restricted matrix with another filtration", || m().sub_matrix_in_dimension(0).with_filtration(|r: Lab| Fv(-(r.0 as i64))), None),
        7 => {
            v.visit("matrix reversed and back, with a basis", || m().reverse().unreverse().with_basis(list.clone()), None)
        }
        8 => v.visit("matrix", &m, None),
        9 => v.visit("product of the matrix with its consolidation, reversed", || product(m(), m().consolidate()).reverse(), None),
        10 => v.visit("R of the standard algorithm", || product(m(), standard_algo(m())).with_basis(list.clone()), None),
        11 => v.visit("sum of the matrix and its square, restricted", || sum(m(), product(m(), m())).with_filtration(|r: Lab| Fv(r.0 as i64 % 3)).with_basis(m().basis().clone()).sub_matrix_in_dimension(0), None),
        _ => {
            v.visit("V of the standard algorithm", || standard_algo(m()).with_basis(list.clone()).with_trivial_filtration(), None)
        }
    }
}
pub fn hcases(t: Tier, lo: usize, hi: usize) -> BoxedStrategy<HCase> {
    (dists(lo, hi), digs(t), any_field(), any::<u8>(), 0usize..3, prop_oneof![Just(30usize), Just(80)], any::<u64>())
        .prop_map(|(dist, dig, field, what, max_dim, steps, seed)| HCase { dist, dig, field: few(field), what, max_dim, steps, seed })
        .boxed()
}
