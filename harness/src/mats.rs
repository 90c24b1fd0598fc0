//! Input matrices for the code under test, with request counting and a step budget.
use crate::fields::TF;
use phlite::fields::NonZeroCoefficient;
use phlite::matrices::{BasisElement, ColBasis, FiltrationValue, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Lab(pub u32);
impl BasisElement for Lab {}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Fv(pub i64);
impl FiltrationValue for Fv {}

/// A basis kept as an explicit list, split by dimension.
#[derive(Clone, Debug, PartialEq)]
pub struct SplitVec<T> {
    pub total: Vec<T>,
    pub dims: Vec<Vec<T>>,
}
impl<T: Clone> SplitVec<T> {
    pub fn concat(dims: Vec<Vec<T>>) -> Self {
        SplitVec { total: dims.iter().flatten().cloned().collect(), dims }
    }
}
impl<T: BasisElement> ColBasis for SplitVec<T> {
    type ElemT = T;
    fn element(&self, i: usize) -> T {
        self.total[i].clone()
    }
    fn size(&self) -> usize {
        self.total.len()
    }
}
impl<T: BasisElement> SplitByDimension for SplitVec<T> {
    type SubBasisT = Vec<T>;
    fn in_dimension(&self, d: usize) -> &Vec<T> {
        &self.dims[d]
    }
}

pub const BUDGET: &str = "step budget exceeded: the computation does not terminate within 4(N+2)^3 column requests";

/// A matrix given by explicit columns.
pub struct RawMat<F> {
    pub cols: HashMap<Lab, Vec<(F, Lab)>>,
    pub fil: HashMap<Lab, Fv>,
    pub basis: SplitVec<Lab>,
    pub reqs: RefCell<BTreeMap<Lab, u64>>,
    pub total_reqs: Cell<u64>,
    pub limit: u64,
}
impl<F> RawMat<F> {
    pub fn new(cols: HashMap<Lab, Vec<(F, Lab)>>, fil: HashMap<Lab, Fv>, basis: SplitVec<Lab>) -> Self {
        RawMat { cols, fil, basis, reqs: Default::default(), total_reqs: Cell::new(0), limit: u64::MAX }
    }
    /// Bound the number of column requests, so that a reduction that runs forever fails.
    pub fn budgeted(mut self) -> Self {
        let n = self.cols.len() as u64 + 2;
        self.limit = 4 * n * n * n;
        self
    }
    fn note(&self, c: Lab) {
        *self.reqs.borrow_mut().entry(c).or_default() += 1;
        self.total_reqs.set(self.total_reqs.get() + 1);
        if self.total_reqs.get() > self.limit {
            panic!("{BUDGET}");
        }
    }
    pub fn reset(&self) {
        self.reqs.borrow_mut().clear();
        self.total_reqs.set(0);
    }
}
impl<F: NonZeroCoefficient> MatrixOracle for RawMat<F> {
    type CoefficientField = F;
    type ColT = Lab;
    type RowT = Lab;
    fn column(&self, c: Lab) -> impl Iterator<Item = (F, Lab)> {
        self.note(c);
        self.cols.get(&c).unwrap_or_else(|| panic!("column {c:?} requested, which is not in the matrix")).iter().copied()
    }
}
impl<F: NonZeroCoefficient> HasRowFiltration for RawMat<F> {
    type FiltrationT = Fv;
    fn filtration_value(&self, r: Lab) -> Fv {
        *self.fil.get(&r).unwrap_or_else(|| panic!("filtration value of {r:?} requested, which is not a row"))
    }
}
impl<F: NonZeroCoefficient> HasColBasis for RawMat<F> {
    type BasisT = SplitVec<Lab>;
    type BasisRef<'a> = &'a SplitVec<Lab> where F: 'a;
    fn basis(&self) -> &SplitVec<Lab> {
        &self.basis
    }
}

/// Formal sum of terms, using the field's own addition (checked separately by C06).
pub fn sum_terms<F: NonZeroCoefficient, R: Ord>(it: impl IntoIterator<Item = (F, R)>) -> BTreeMap<R, F> {
    let mut m: BTreeMap<R, F> = BTreeMap::new();
    add_terms(&mut m, it);
    m
}
pub fn add_terms<F: NonZeroCoefficient, R: Ord>(m: &mut BTreeMap<R, F>, it: impl IntoIterator<Item = (F, R)>) {
    for (c, r) in it {
        match m.remove(&r) {
            None => {
                m.insert(r, c);
            }
            Some(o) => {
                if let Some(s) = c + o {
                    m.insert(r, s);
                }
            }
        }
    }
}
/// Column of a matrix as a formal sum.
pub fn vec_of<M: MatrixOracle>(m: &M, c: M::ColT) -> BTreeMap<M::RowT, M::CoefficientField> {
    sum_terms(m.column(c))
}

/// Convert integer terms to field terms, dropping those that are zero in the field.
pub fn fterms<F: TF>(col: &[(i64, usize)], lab: impl Fn(usize) -> Lab) -> Vec<(F, Lab)> {
    col.iter().filter_map(|(c, r)| Some((F::from_i(*c)?, lab(*r)))).collect()
}

/// Equality of lists as multisets.
pub fn same_multiset<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    if a == b {
        return true;
    }
    if a.len() != b.len() {
        return false;
    }
    let mut used = vec![false; b.len()];
    a.iter().all(|x| {
        if let Some(k) = (0..b.len()).find(|k| !used[*k] && b[*k] == *x) {
            used[k] = true;
            true
        } else {
            false
        }
    })
}

/// Entries of a filtered column as tuples.
pub fn entries_of<M: HasRowFiltration>(m: &M, c: M::ColT) -> Vec<(M::CoefficientField, M::RowT, M::FiltrationT)> {
    m.column_with_filtration(c).map(|e| (e.coeff, e.row_index, e.filtration_value)).collect()
}

/// Elements of a basis through its public interface.
pub fn list_of<B: ColBasis>(b: &B) -> Vec<B::ElemT> {
    (0..b.size()).map(|i| b.element(i)).collect()
}
