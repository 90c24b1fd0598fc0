//! Shared by the checks of the reduction algorithms.
use crate::complexes::Cpx;
use crate::ensure;
use crate::fw::Obs;
use crate::mats::*;
use phlite::matrices::{HasRowFiltration, MatrixOracle};
use phlite::reduction::Diagram;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

/// Column of D·V computed from V's column, by summing terms of D with the field's own operations.
pub fn apply<M>(d: &M, v: &BTreeMap<M::ColT, M::CoefficientField>) -> BTreeMap<M::RowT, M::CoefficientField>
where
    M: MatrixOracle,
{
    let mut out = BTreeMap::new();
    for (c, x) in v {
        add_terms(&mut out, d.column(c.clone()).map(|(y, r)| (y * *x, r)));
    }
    out
}
/// Row that is largest by filtration value, ties by index.
pub fn leading<M: HasRowFiltration>(d: &M, col: &BTreeMap<M::RowT, M::CoefficientField>) -> Option<M::RowT> {
    col.keys().max_by_key(|r| (d.filtration_value((*r).clone()), (*r).clone())).cloned()
}

pub type PE = (BTreeSet<(usize, usize)>, BTreeSet<usize>);
pub trait ToLab {
    fn to_lab(&self) -> Lab;
}
impl ToLab for Lab {
    fn to_lab(&self) -> Lab {
        *self
    }
}
impl ToLab for Reverse<Lab> {
    fn to_lab(&self) -> Lab {
        self.0
    }
}
pub fn ids<T: ToLab + Debug>(c: &Cpx, d: &Diagram<T>, swap: bool) -> Result<PE, String> {
    let id = c.id_of();
    let get = |l: &T| id.get(&l.to_lab()).copied().ok_or_else(|| format!("the diagram mentions {l:?}, which is no cell"));
    let mut p = BTreeSet::new();
    for (a, b) in d.pairings.iter() {
        p.insert(if swap { (get(b)?, get(a)?) } else { (get(a)?, get(b)?) });
    }
    let mut e = BTreeSet::new();
    for a in d.essential.iter() {
        e.insert(get(a)?);
    }
    Ok((p, e))
}
pub fn same(name: &str, got: &PE, want: &PE) -> Result<(), String> {
    let missing: Vec<_> = want.0.difference(&got.0).collect();
    let extra: Vec<_> = got.0.difference(&want.0).collect();
    ensure!(missing.is_empty() && extra.is_empty(), "{name}: missing pairs {missing:?}, wrong pairs {extra:?}");
    let missing: Vec<_> = want.1.difference(&got.1).collect();
    let extra: Vec<_> = got.1.difference(&want.1).collect();
    ensure!(missing.is_empty() && extra.is_empty(), "{name}: essential cells missing {missing:?}, wrong {extra:?}");
    Ok(())
}
pub fn interest(c: &Cpx, want: &PE, obs: &mut Obs) {
    let positive = want.0.iter().filter(|(b, d)| c.fil[*b] < c.fil[*d]).count();
    obs.class(format!("{:?}", c.field));
    obs.class_if(want.0.iter().any(|p| c.dims[p.0] >= 1), "a pair with birth in dimension 1 or more");
    obs.class_if(want.0.iter().any(|p| c.dims[p.0] >= 2), "a pair with birth in dimension 2 or more");
    obs.class_if(want.1.iter().any(|i| c.dims[*i] >= 1), "an essential cell in dimension 1 or more");
    obs.class_if(positive > 0 && positive < want.0.len(), "both zero and positive persistence");
    obs.nontrivial = want.0.len() >= 2 && !want.1.is_empty() && positive >= 1;
}
