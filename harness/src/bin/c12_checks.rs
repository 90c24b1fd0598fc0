//! C12: bases.
#![allow(unused_imports)]
use pbt::adapt::*;
use pbt::complexes::*;
use pbt::fields::*;
use pbt::fw::*;
use pbt::gens::*;
use pbt::mats::*;
use pbt::{ensure, with_few, with_field};
use phlite::columns::ColumnEntry;
use phlite::fields::NonZeroCoefficient;
use phlite::matrices::adaptors::{ReverseBasis, UnreverseBasis};
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::implementors::{MapVecMatrix, StandardBasis, VecVecMatrix};
use phlite::matrices::{BasisElement, ColBasis, FiltrationValue, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use phlite::reduction::{standard_algo, ClearedReductionMatrix};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;
use std::sync::Arc;

// ---------------------------------------------------------------- C12

fn check_basis<B>(name: &str, b: &B, want: &[B::ElemT]) -> Result<(), String>
where
    B: ColBasis<ElemT: Hash + Debug>,
{
    verify_basis(name, b, want)?;
    verify_basis(&format!("& of {name}"), &b, want)?;
    let lookup = |n: &str, got: HashMap<B::ElemT, usize>| -> Result<(), String> {
        ensure!(got.len() == want.len(), "{n}: reverse lookup has {} entries for {} elements", got.len(), want.len());
        for (i, e) in want.iter().enumerate() {
            ensure!(got.get(e) == Some(&i), "{n}: reverse lookup of {e:?} is {:?}, expected {i}", got.get(e));
        }
        Ok(())
    };
    lookup(name, b.construct_reverse_lookup())?;
    let rev = b.reverse();
    let rwant = rev_list(want);
    verify_basis(&format!("reversed {name}"), &rev, &rwant)?;
    verify_basis(&format!("reversed {name} through its reference"), &*rev, &rwant)?;
    let got = rev.construct_reverse_lookup();
    for (i, e) in rwant.iter().enumerate() {
        ensure!(got.get(e) == Some(&i) && got.len() == want.len(), "reverse lookup of {e:?} in the reversed {name}");
    }
    verify_basis(&format!("unreversed reversed {name} (inherent)"), &rev.unreverse(), want)?;
    let un = ColBasis::unreverse(rev);
    verify_basis(&format!("unreversed reversed {name} (trait)"), &un, want)?;
    verify_basis(&format!("unreversed reversed {name} through its reference"), &*UnreverseBasis(&ReverseBasis(b)), want)?;
    lookup(&format!("unreversed reversed {name}"), un.construct_reverse_lookup())?;
    let rr = rev.reverse();
    verify_basis(&format!("twice reversed {name}"), &rr, &rev_list(&rwant))?;
    verify_basis(&format!("twice reversed, twice unreversed {name}"), &ColBasis::unreverse(ColBasis::unreverse(rr)), want)?;
    verify_basis(&format!("unreversed then reversed {name}"), &un.reverse(), &rwant)?;
    Ok(())
}
fn check_split<B>(name: &str, b: &B, dims: &[Vec<B::ElemT>]) -> Result<(), String>
where
    B: SplitByDimension<ElemT: Hash + Debug>,
{
    for (d, want) in dims.iter().enumerate() {
        let n = format!("dimension {d} of {name}");
        check_basis(&n, b.in_dimension(d), want)?;
        check_basis(&format!("{n} through a reference"), (&b).in_dimension(d), want)?;
        let rwant = rev_list(want);
        let rev = ReverseBasis(b);
        verify_basis(&format!("{n}, reversed"), rev.in_dimension(d), &rwant)?;
        check_basis(&format!("{n}, reversed through its reference"), (*rev).in_dimension(d), &rwant)?;
        let un = UnreverseBasis(rev);
        verify_basis(&format!("{n}, reversed and unreversed"), un.in_dimension(d), want)?;
        check_basis(&format!("{n}, reversed and unreversed through its reference"), (*UnreverseBasis(&rev)).in_dimension(d), want)?;
        verify_basis(&format!("{n}, twice reversed"), ReverseBasis(rev).in_dimension(d), &rev_list(&rwant))?;
    }
    Ok(())
}
fn c12_core(m: &Mat, obs: &mut Obs) -> Result<(), String> {
    let n = m.n();
    let b = SplitVec::concat(m.basis.iter().map(|b| b.iter().map(|i| m.lab(*i)).collect()).collect::<Vec<Vec<Lab>>>());
    check_basis("list", &b.total, &b.total)?;
    check_basis("split basis", &b, &b.total)?;
    check_split("split basis", &b, &b.dims)?;
    // a total order that interleaves the dimensions
    let mut inter = b.clone();
    inter.total.sort();
    check_basis("interleaved basis", &inter, &inter.total)?;
    check_split("interleaved basis", &inter, &inter.dims)?;
    let sb = StandardBasis::new(n);
    check_basis("standard basis", &sb, &(0..n).collect::<Vec<_>>())?;
    let isz: Vec<isize> = b.total.iter().map(|l| l.0 as isize - 3).collect();
    check_basis("list of integers", &isz, &isz)?;
    // matrices by basis position
    let w = want_fwd::<phlite::fields::Z2>(m, &m.fil);
    let _ = &w;
    obs.class_if(b.dims.iter().filter(|d| !d.is_empty()).count() >= 2, "two non-empty dimensions");
    obs.nontrivial = b.total.len() >= 2;
    Ok(())
}
fn c12_pos_f<F: TF>(case: &(Mat, Vec<u8>), obs: &mut Obs) -> Result<(), String> {
    let (m, keys) = case;
    let raw = m.raw::<F>();
    let w = want_fwd::<F>(m, &m.fil);
    let rw = rev_want(&w);
    let b = &raw.basis;
    verify_index("matrix", &&raw, &w, &b.total)?;
    verify_index("reversed matrix", &(&raw).reverse(), &rw, &rev_list(&b.total))?;
    verify_index("unreversed matrix", &MatrixOracle::unreverse((&raw).reverse()), &w, &b.total)?;
    for d in 0..b.dims.len() {
        verify_index("sub-matrix", &(&raw).sub_matrix_in_dimension(d), &w, &b.dims[d])?;
        verify_index("reversed sub-matrix", &(&raw).sub_matrix_in_dimension(d).reverse(), &rw, &rev_list(&b.dims[d]))?;
        verify_index("sub-matrix of the reverse", &(&raw).reverse().sub_matrix_in_dimension(d), &rw, &rev_list(&b.dims[d]))?;
    }
    // another basis: any order, repetitions allowed
    let n = m.n();
    if n > 0 {
        let alt: Vec<Lab> = keys.iter().map(|k| m.lab(*k as usize % n)).collect();
        verify_index("matrix with another basis", &(&raw).with_basis(alt.clone()), &w, &alt)?;
        verify_index("matrix with a borrowed basis", &(&raw).with_basis(&alt), &w, &alt)?;
        verify_index("reversed matrix with another basis", &(&raw).with_basis(alt.clone()).reverse(), &rw, &rev_list(&alt))?;
    }
    obs.nontrivial = b.total.len() >= 2 && m.cols.iter().any(|c| !c.is_empty());
    Ok(())
}
fn c12_pos(case: &(Mat, Vec<u8>), obs: &mut Obs) -> Result<(), String> {
    let mut case = case.clone();
    case.0.field = few(case.0.field);
    with_few!(case.0.field, c12_pos_f::<_>(&case, obs))
}
fn c12_rips(case: &RCase, obs: &mut Obs) -> Result<(), String> {
    use phlite::fields::Z2;
    use phlite_rips::build_rips_bases;
    use phlite_rips::cohomology::build_rips_coboundary_matrix;
    let b = build_rips_bases(&case.dist.matrix(), case.max_dim);
    let dims: Vec<Vec<_>> = (0..=case.max_dim).map(|d| list_of(b.in_dimension(d))).collect();
    let total: Vec<_> = dims.iter().flatten().copied().collect();
    check_basis("Rips basis", &b, &total)?;
    check_split("Rips basis", &b, &dims)?;
    let e = build_rips_coboundary_matrix::<Z2>(case.dist.matrix(), case.max_dim);
    let r = (&e).reverse();
    verify_basis("reversed Rips matrix", &*r.basis(), &rev_list(&total))?;
    for d in 0..=case.max_dim {
        verify_basis("reversed Rips matrix in a dimension", r.basis().in_dimension(d), &rev_list(&dims[d]))?;
        verify_basis("restricted reversed Rips matrix", &*(&r).sub_matrix_in_dimension(d).basis(), &rev_list(&dims[d]))?;
        verify_basis("reversed restricted Rips matrix", &*(&e).sub_matrix_in_dimension(d).reverse().basis(), &rev_list(&dims[d]))?;
    }
    obs.nontrivial = total.len() >= 3;
    Ok(())
}
fn c12_grpph(g: &Dig, obs: &mut Obs) -> Result<(), String> {
    use phlite::fields::Z2;
    use phlite_grpph::coboundary::GrPPHCoboundary;
    let es = g.edge_set();
    let fv = g.as_vec();
    let d = GrPPHCoboundary::<Z2, _>::build(&fv, &es, g.n as u16);
    let dims: Vec<Vec<_>> = (0..2).map(|k| list_of(d.basis.in_dimension(k))).collect();
    let total: Vec<_> = dims.iter().flatten().copied().collect();
    check_basis("GrPPH basis", &d.basis, &total)?;
    check_split("GrPPH basis", &d.basis, &dims)?;
    ensure!(dims[0].len() == g.n && dims[0].iter().all(|c| c.dimension() == 0) && dims[1].iter().all(|c| c.dimension() == 1), "GrPPH basis dimensions");
    let mut edges = 0;
    for i in 0..g.n {
        for j in 0..g.n {
            edges += usize::from(g.edge_birth(i, j).is_some());
        }
    }
    let set: BTreeSet<_> = total.iter().collect();
    ensure!(dims[1].len() == edges && set.len() == total.len(), "GrPPH basis has {} edges ({} distinct cells of {}), expected {edges}", dims[1].len(), set.len(), total.len());
    for c in total.windows(2) {
        let key = |x| (d.filtration_value(x), x);
        ensure!(c[0].dimension() < c[1].dimension() || key(c[0]) < key(c[1]), "GrPPH basis not ordered at {c:?}");
    }
    obs.nontrivial = edges >= 2;
    Ok(())
}
fn c12_tests() -> Vec<Box<dyn AnyTest>> {
    vec![
        Box::new(Test::<Mat> {
            name: "bases",
            cases: (240_000, 2_880_000),
            rule: "random lists split into three dimensions (empty ones included), standard bases, and their reversals, un-reversals, references and restrictions; non-trivial with two elements",
            strat: mats,
            check: c12_core,
            shards: 8,
        }),
        Box::new(Test::<(Mat, Vec<u8>)> {
            name: "basis-positions",
            cases: (180_000, 2_160_000),
            rule: "random matrices indexed by position of their own, reversed, restricted and replaced bases; non-trivial with two elements and a non-empty column",
            strat: |_| (rare(mats_sized(0, 7, 4, false), false), prop::collection::vec(any::<u8>(), 0..8)).boxed(),
            check: c12_pos,
            shards: 8,
        }),
        Box::new(Test::<RCase> {
            name: "rips-bases",
            cases: (72_000, 864_000),
            rule: "bases of random Rips matrices, directly, reversed and restricted; non-trivial with three simplices",
            strat: |t| {
                let usual = rcases(if t == Tier::Quick { 6 } else { 9 });
                let with = |lo, hi, mds: std::ops::Range<usize>| (any_field(), dists(lo, hi), mds).prop_map(|(field, dist, max_dim)| RCase { field, dist, max_dim });
                prop_oneof![400 => usual, 20 => with(5, 8, 4..9), 1 => with(20, 120, 0..2)].boxed()
            },
            check: c12_rips,
            shards: 8,
        }),
        Box::new(Test::<Dig> {
            name: "grpph-bases",
            cases: (96_000, 1_152_000),
            rule: "bases of random GrPPH coboundaries; non-trivial with two edges",
            strat: digs,
            check: c12_grpph,
            shards: 8,
        }),
    ]
}

fn registry(p: &str) -> Vec<Box<dyn AnyTest>> {
    match p {
        "C12" => {
            let mut tests = c12_tests();
            tests.push(pbt::scale::scale(p));
            tests.push(pbt::virt::virt(p));
            tests
        }
        _ => vec![],
    }
}
fn assumptions(_p: &str) -> Vec<&'static str> {
    vec!["coefficient arithmetic is exact (decided by C06); rational cases that overflow are discarded"]
}
fn main() {
    pbt::driver::run(registry, assumptions)
}
