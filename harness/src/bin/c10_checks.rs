//! C10: enriched columns.
#![allow(unused_imports)]
use pbt::adapt::*;
use pbt::complexes::*;
use pbt::fields::*;
use pbt::fw::*;
use pbt::gens::*;
use pbt::mats::*;
use pbt::{ensure, with_few, with_field};
use phlite::columns::ColumnEntry;
use phlite::fields::NonZeroCoefficient;
use phlite::matrices::adaptors::{ReverseBasis, UnreverseBasis};
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::implementors::{MapVecMatrix, StandardBasis, VecVecMatrix};
use phlite::matrices::{BasisElement, ColBasis, FiltrationValue, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use phlite::reduction::{standard_algo, ClearedReductionMatrix};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;
use std::sync::Arc;

// ---------------------------------------------------------------- C10

/// Enriched columns agree with plain columns and filtration values.
fn enriched<M>(name: &str, m: &M, cols: &[M::ColT]) -> Result<(), String>
where
    M: HasRowFiltration<ColT: Debug, RowT: Debug, CoefficientField: Debug, FiltrationT: Debug>,
{
    for c in cols {
        let plain = vec_of(m, c.clone());
        let es = entries_of(m, c.clone());
        for (_, r, f) in es.iter() {
            let w = m.filtration_value(r.clone());
            ensure!(*f == w, "{name}: column {c:?} gives row {r:?} the filtration value {f:?}, the matrix reports {w:?}");
        }
        let s = sum_terms(es.iter().map(|(c, r, _)| (*c, r.clone())));
        ensure!(s == plain, "{name}: enriched column {c:?} sums to {s:?}, the plain column to {plain:?}");
        let heap = m.build_bhcol(c.clone()).to_sorted_vec();
        let s = sum_terms(heap.iter().map(|e| (e.coeff, e.row_index.clone())));
        ensure!(s == plain && heap.len() == plain.len(), "{name}: heap of column {c:?} is {s:?}, the plain column {plain:?}");
        for w in heap.windows(2) {
            ensure!((&w[0].filtration_value, &w[0].row_index) > (&w[1].filtration_value, &w[1].row_index), "{name}: heap of column {c:?} not decreasing");
        }
    }
    Ok(())
}
fn c10_core_f<F: TF>(case: &(Mat, Vec<i64>), obs: &mut Obs) -> Result<(), String> {
    let m = &case.0;
    let n = m.n();
    let raw = m.raw::<F>();
    let all: Vec<Lab> = (0..n).map(|i| m.lab(i)).collect();
    let rall: Vec<Reverse<Lab>> = all.iter().copied().map(Reverse).collect();
    let id: HashMap<Lab, usize> = (0..n).map(|i| (m.lab(i), i)).collect();
    let f2 = |r: Lab| Fv(case.1[id[&r] % case.1.len()]);
    enriched("matrix", &raw, &all)?;
    enriched("&", &&raw, &all)?;
    enriched("trivial", &(&raw).with_trivial_filtration(), &all)?;
    enriched("filtration", &(&raw).with_filtration(f2), &all)?;
    let k = (&raw).consolidate();
    enriched("consolidate", &k, &all)?;
    // a consolidated column has no repeated rows, so neither has its enriched form
    for c in all.iter() {
        let (plain, es) = (k.column(*c).count(), entries_of(&k, *c));
        ensure!(es.len() == plain, "consolidate: enriched column {c:?} has {} terms, the plain column {plain}", es.len());
    }
    enriched("cache", &(&raw).cache_cols(), &all)?;
    enriched("basis", &(&raw).with_basis(all.clone()), &all)?;
    enriched("sub", &(&raw).sub_matrix_in_dimension(0), &all)?;
    enriched("index", &(&raw).using_col_basis_index(), &(0..raw.basis.total.len()).collect::<Vec<_>>())?;
    enriched("reverse", &(&raw).reverse(), &rall)?;
    enriched("reverse.reverse", &(&raw).reverse().reverse(), &rall.iter().copied().map(Reverse).collect::<Vec<_>>())?;
    enriched("unreverse", &MatrixOracle::unreverse((&raw).reverse()), &all)?;
    enriched("product", &product(&raw, &raw), &all)?;
    enriched("product with filtration", &product((&raw).with_filtration(f2), &raw), &all)?;
    enriched("product of reverses", &product((&raw).reverse(), (&raw).reverse()), &rall)?;
    if m.cols.iter().all(|c| c.len() <= 8) {
        enriched("product of products", &product(product(&raw, &raw), product(&raw, &raw)), &all)?;
    }
    enriched("unreversed product", &product((&raw).reverse(), (&raw).reverse()).unreverse(), &all)?;
    enriched("sum", &sum(&raw, &raw).with_filtration(f2), &all)?;
    let hm = MapVecMatrix::from((0..n).map(|i| (m.lab(i), m.terms::<F>(i))).collect::<rustc_hash::FxHashMap<_, _>>());
    enriched("stored by key", &(&hm).with_filtration(f2), &all)?;
    enriched("product with stored", &product(&raw, &hm), &all)?;
    obs.nontrivial = m.cols.iter().any(|c| c.len() >= 2);
    Ok(())
}
fn c10_core(case: &(Mat, Vec<i64>), obs: &mut Obs) -> Result<(), String> {
    let mut case = case.clone();
    case.0.field = few(case.0.field);
    with_few!(case.0.field, c10_core_f::<_>(&case, obs))
}

fn c10_rips_f<F: TF>(case: &RCase, obs: &mut Obs) -> Result<(), String> {
    use phlite_rips::cohomology::build_rips_coboundary_matrix;
    use phlite_rips::homology::build_rips_boundary_matrix;
    let d = build_rips_boundary_matrix::<F>(case.dist.matrix(), case.max_dim);
    let e = build_rips_coboundary_matrix::<F>(case.dist.matrix(), case.max_dim);
    let cols = list_of(&d.basis);
    let rcols: Vec<_> = cols.iter().copied().map(Reverse).collect();
    enriched("Rips boundary", &d.matrix, &cols)?;
    enriched("Rips boundary with basis", &d, &cols)?;
    enriched("Rips coboundary", &e.matrix, &cols)?;
    enriched("Rips coboundary with basis", &e, &cols)?;
    enriched("reversed Rips coboundary", &(&e.matrix).reverse(), &rcols)?;
    enriched("un-reversed reversed Rips coboundary", &MatrixOracle::unreverse((&e).reverse()), &cols)?;
    enriched("product of Rips coboundaries", &product(&e.matrix, &e.matrix), &cols)?;
    enriched("product of Rips boundaries", &product(&d.matrix, &d.matrix), &cols)?;
    let e2 = build_rips_coboundary_matrix::<F>(case.dist.matrix(), case.max_dim);
    enriched("owned reversed Rips coboundary", &e2.matrix.reverse(), &rcols)?;
    obs.class(format!("max_dim {}", case.max_dim));
    obs.nontrivial = case.dist.n >= 3 && case.dist.distinct() >= 2;
    Ok(())
}
fn c10_rips(case: &RCase, obs: &mut Obs) -> Result<(), String> {
    with_field!(case.field, c10_rips_f::<_>(case, obs))
}
fn c10_single_f<F: TF>(case: &Single, obs: &mut Obs) -> Result<(), String> {
    use phlite_rips::cohomology::build_rips_coboundary_matrix;
    use phlite_rips::homology::build_rips_boundary_matrix;
    let (d, s) = (case.dist(), case.simplex());
    let i = phlite_rips::RipsIndex::from_indices(s.iter().copied(), d.n).ok_or("no code")?;
    let b = build_rips_boundary_matrix::<F>(d.matrix(), 0);
    let c = build_rips_coboundary_matrix::<F>(d.matrix(), 0);
    enriched("Rips boundary", &b.matrix, &[i])?;
    enriched("Rips boundary with basis", &b, &[i])?;
    enriched("Rips coboundary", &c.matrix, &[i])?;
    enriched("reversed Rips coboundary", &(&c.matrix).reverse(), &[Reverse(i)])?;
    let up: Vec<_> = c.column(i).map(|t| t.1).take(3).collect();
    enriched("Rips boundary of cofacets", &b.matrix, &up)?;
    obs.class_if(d.n > 64, "more than 64 points");
    obs.nontrivial = s.len() >= 2 && s.len() < d.n;
    Ok(())
}
fn c10_single(case: &Single, obs: &mut Obs) -> Result<(), String> {
    with_field!(case.field, c10_single_f::<_>(case, obs))
}
fn c10_grpph_f<F: TF>(case: &(Fld, Dig), obs: &mut Obs) -> Result<(), String> {
    use phlite_grpph::boundary::GrPPHBoundary;
    use phlite_grpph::coboundary::{GrPPHCoboundary, PathHomCell, PathHomSingleBasis};
    let g = &case.1;
    let es = g.edge_set();
    let (fv, fm) = (g.as_vec(), g.as_map());
    let d = GrPPHCoboundary::<F, _>::build(&fv, &es, g.n as u16);
    let dm = GrPPHCoboundary::<F, _>::build(&fm, &es, g.n as u16);
    let cols = list_of(&d.basis);
    let rcols: Vec<_> = cols.iter().copied().map(Reverse).collect();
    enriched("GrPPH coboundary", &d.matrix, &cols)?;
    enriched("GrPPH coboundary with basis", &d, &cols)?;
    enriched("GrPPH coboundary (map)", &dm.matrix, &cols)?;
    enriched("reversed GrPPH coboundary", &(&d.matrix).reverse(), &rcols)?;
    let nodes: Vec<PathHomCell> = cols.iter().copied().filter(|c| c.dimension() == 0).collect();
    enriched("product of GrPPH coboundaries", &product(&d.matrix, &d.matrix), &nodes)?;
    let mut two: BTreeSet<PathHomCell> = BTreeSet::new();
    for c in cols.iter().filter(|c| c.dimension() == 1) {
        two.extend(d.column(*c).map(|t| t.1));
    }
    let b = GrPPHBoundary::<F, _>::build(&fv, &es, PathHomSingleBasis(vec![]));
    let all: Vec<PathHomCell> = cols.iter().copied().chain(two.iter().copied()).collect();
    enriched("GrPPH boundary", &b.matrix, &all)?;
    enriched("GrPPH boundary with basis", &b, &all)?;
    for t in two.iter() {
        ensure!(b.filtration_value(*t) == d.filtration_value(*t), "filtration value of {t:?} differs between boundary and coboundary");
    }
    obs.class_if(!two.is_empty(), "has 2-cells");
    obs.nontrivial = two.len() >= 2;
    Ok(())
}
fn c10_grpph(case: &(Fld, Dig), obs: &mut Obs) -> Result<(), String> {
    with_field!(case.0, c10_grpph_f::<_>(case, obs))
}
fn c10_tests() -> Vec<Box<dyn AnyTest>> {
    vec![
        Box::new(Test::<(Mat, Vec<i64>)> {
            name: "adaptors-and-combinators",
            cases: (120_000, 1_440_000),
            rule: "random matrices under 20 adaptor and combinator stacks; non-trivial when a column has two terms",
            strat: |_| (rare(mats_sized(1, 8, 5, true), true), prop::collection::vec(-3i64..4, 8)).boxed(),
            check: c10_core,
            shards: 8,
        }),
        Box::new(Test::<RCase> {
            name: "rips",
            cases: (36_000, 432_000),
            rule: "random distance matrices (ties, duplicates, infinities), every simplex of the basis, boundary and coboundary, direct and reversed; non-trivial with three points and two distinct distances",
            strat: |t| rcases(if t == Tier::Quick { 6 } else { 8 }),
            check: c10_rips,
            shards: 8,
        }),
        Box::new(Test::<Single> {
            name: "rips-single-simplices",
            cases: (20_000, 240_000),
            rule: "one simplex of up to 9 vertices among 2 to 700 points with random distances, its boundary, coboundary, and the boundaries of some cofacets; non-trivial with two vertices and a cofacet",
            strat: |_| singles(),
            check: c10_single,
            shards: 8,
        }),
        Box::new(Test::<(Fld, Dig)> {
            name: "grpph",
            cases: (48_000, 576_000),
            rule: "random digraph filtrations with grounded edge sets, every node, edge and reachable 2-cell; non-trivial with two 2-cells",
            strat: |t| (any_field(), digs(t)).boxed(),
            check: c10_grpph,
            shards: 8,
        }),
    ]
}

fn registry(p: &str) -> Vec<Box<dyn AnyTest>> {
    match p {
        "C10" => {
            let mut tests = c10_tests();
            tests.push(pbt::scale::scale(p));
            tests.push(pbt::virt::virt(p));
            tests
        }
        _ => vec![],
    }
}
fn assumptions(_p: &str) -> Vec<&'static str> {
    vec!["coefficient arithmetic is exact (decided by C06); rational cases that overflow are discarded"]
}
fn main() {
    pbt::driver::run(registry, assumptions)
}
