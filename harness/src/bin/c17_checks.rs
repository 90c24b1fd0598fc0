//! C17: oracles are lazy, and clearing leaves cleared columns alone.
use pbt::complexes::*;
use pbt::fields::*;
use pbt::fw::*;
use pbt::mats::*;
use pbt::{ensure, with_few, with_field};
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::{HasColBasis, HasRowFiltration, MatrixOracle};
use phlite::reduction::{standard_algo, standard_algo_with_diagram, ClearedReductionMatrix, Diagram};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::BTreeSet;
use std::fmt::Debug;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LCase {
    m: Mat,
    what: u8,
    seed: u64,
}
/// How often columns of the underlying matrices may be requested for one column of a stack.
type Bound<'a> = Box<dyn Fn(usize) -> Vec<u64> + 'a>;

/// Requests, complete and partial, of every column of a stack over `bases`.
fn asked<M, F: TF>(name: &str, bases: &[&RawMat<F>], mk: impl FnOnce() -> M, cols: &[M::ColT], bound: Bound, rs: &mut Rs, obs: &mut Obs) -> Result<(), String>
where
    M: HasRowFiltration + MatrixOracle<ColT: Debug, CoefficientField = F>,
{
    bases.iter().for_each(|b| b.reset());
    let m = mk();
    for b in bases {
        ensure!(b.total_reqs.get() == 0, "{name}: making it requests {} columns: {:?}", b.total_reqs.get(), b.reqs.borrow());
    }
    let mut most = 0;
    for (k, c) in cols.iter().enumerate() {
        let want = bound(k);
        for way in 0..5 {
            bases.iter().for_each(|b| b.reset());
            match way {
                0 => drop(m.column(c.clone())),
                1 => drop(m.column(c.clone()).take(rs.below(3)).count()),
                2 => drop(m.column(c.clone()).count()),
                3 => drop(m.column_with_filtration(c.clone()).count()),
                _ => drop(m.build_bhcol(c.clone())),
            }
            for (i, b) in bases.iter().enumerate() {
                let n = b.total_reqs.get();
                most = most.max(n);
                let how = ["not reading", "reading the first terms of", "reading", "reading, with filtration values,", "building a heap from"][way];
                ensure!(n <= want[i], "{name}: {how} column {c:?} requests {n} columns of matrix {i}, {:?}; at most {} are needed", b.reqs.borrow(), want[i]);
            }
        }
    }
    obs.class_if(most >= 3, "three requests or more for one column");
    obs.nontrivial = cols.len() >= 3 && bases.iter().any(|b| b.cols.values().filter(|c| c.len() >= 2).count() >= 2);
    Ok(())
}
fn stacks_f<F: TF>(c: &LCase, obs: &mut Obs) -> Result<(), String> {
    let rs = &mut Rs(c.seed);
    let m = &c.m;
    let n = m.n();
    let (a, b) = (&m.raw::<F>(), &m.raw::<F>());
    let list: Vec<Lab> = (0..n).map(|i| m.lab(i)).collect();
    let rev: Vec<Reverse<Lab>> = list.iter().copied().map(Reverse).collect();
    let elems: Vec<Lab> = list_of(b.basis());
    let at = |l: Lab| (0..n).find(|i| m.lab(*i) == l).unwrap();
    // how many terms columns report
    let len = |i: usize| m.terms::<F>(i).len() as u64;
    let len2 = |i: usize| m.terms::<F>(i).iter().map(|t| len(at(t.1))).sum::<u64>();
    let one = || -> Bound { Box::new(|_| vec![1]) };
    let fil = |r: Lab| Fv(r.0 as i64 % 3);
    match c.what % 16 {
        0 => asked("a reversed matrix", &[a], || a.reverse(), &rev, one(), rs, obs),
        1 => asked("a matrix reversed and back", &[a], || a.reverse().unreverse(), &list, one(), rs, obs),
        2 => asked("a matrix with another filtration and basis", &[a], || a.with_filtration(fil).with_basis(list.clone()), &list, one(), rs, obs),
        3 => asked("a matrix with trivial filtration", &[a], || a.with_trivial_filtration(), &list, one(), rs, obs),
        4 => asked("a restricted matrix", &[a], || a.sub_matrix_in_dimension(0), &list, one(), rs, obs),
        5 => {
            let places: Vec<usize> = (0..elems.len()).collect();
            asked("a matrix by position", &[a], || a.using_col_basis_index(), &places, one(), rs, obs)
        }
        6 => asked("a consolidated matrix", &[a], || a.consolidate(), &list, one(), rs, obs),
        7 => asked("a cached matrix", &[a], || a.cache_cols(), &list, one(), rs, obs),
        8 => asked("a cached, reversed, consolidated, restricted matrix", &[a], || a.cache_cols().reverse().consolidate().sub_matrix_in_dimension(1), &rev, one(), rs, obs),
        9 => asked("a product", &[a, b], || product(a, b), &list, Box::new(|k| vec![len(k), 1]), rs, obs),
        10 => asked("a sum", &[a, b], || sum(a, b).with_trivial_filtration(), &list, Box::new(|_| vec![1, 1]), rs, obs),
        11 => {
            let d = &m.raw::<F>();
            asked("a product of three", &[a, b, d], || product(product(a, b), d), &list, Box::new(|k| vec![len2(k), len(k), 1]), rs, obs)
        }
        12 => {
            let d = &m.raw::<F>();
            asked("a product with a product", &[a, b, d], || product(a, product(b, d)), &list, Box::new(|k| vec![len2(k), len(k), 1]), rs, obs)
        }
        13 => {
            let d = &m.raw::<F>();
            asked("a product plus a matrix", &[a, b, d], || sum(product(a, b), d).with_filtration(fil).with_basis(list.clone()), &list, Box::new(|k| vec![len(k), 1, 1]), rs, obs)
        }
        14 => asked("a reversed product of consolidated matrices", &[a, b], || product(a.consolidate(), b.consolidate()).reverse(), &rev, Box::new(|k| vec![m.truth::<F>(k).len() as u64, 1]), rs, obs),
        _ => asked("the product of a cached matrix with a matrix", &[a, b], || product(a.cache_cols(), b), &list, Box::new(|k| vec![len(k), 1]), rs, obs),
    }
}
fn stacks(c: &LCase, obs: &mut Obs) -> Result<(), String> {
    with_few!(c.m.field, stacks_f::<_>(c, obs))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ACase {
    cpx: Cpx,
    lo: u8,
    hi: u8,
    co: bool,
}
/// `low`: the dimensions reduced, in order.
fn clearing<M, F: TF>(name: &str, raw: &RawMat<F>, d: &M, dims: &[usize], of: impl Fn(&M::ColT) -> Lab, obs: &mut Obs) -> Result<(), String>
where
    M: phlite::matrices::SquareMatrix + HasRowFiltration + HasColBasis,
    <M as HasColBasis>::BasisT: phlite::matrices::SplitByDimension,
    M: MatrixOracle<ColT: Debug + std::hash::Hash + 'static, CoefficientField = F>,
{
    raw.reset();
    let (v, g): (_, Diagram<M::ColT>) = ClearedReductionMatrix::build_with_diagram(d, dims.iter().copied());
    let during = raw.reqs.borrow().clone();
    let reduced: BTreeSet<Lab> = dims.iter().flat_map(|k| raw.basis.dims.get(*k).into_iter().flatten().copied()).collect();
    let cleared: Vec<&(M::ColT, M::ColT)> = g.pairings.iter().filter(|p| reduced.contains(&of(&p.0))).collect();
    for (b, x) in &cleared {
        ensure!(!during.contains_key(&of(b)), "{name}: column {b:?}, which is cleared by the pair ({b:?}, {x:?}), is requested during the reduction");
    }
    for (b, x) in &cleared {
        let terms = v.column(x.clone()).count() as u64;
        raw.reset();
        ensure!(v.col_is_cycle(b.clone()), "{name}: the cleared column {b:?} is no cycle");
        ensure!(raw.total_reqs.get() == 0, "{name}: asking whether the cleared column {b:?} is a cycle requests columns {:?}", raw.reqs.borrow());
        let _ = v.column(b.clone()).count();
        ensure!(raw.total_reqs.get() <= terms, "{name}: the cleared column {b:?} of V requests {} columns, the column of V it is made from has {terms} terms", raw.total_reqs.get());
    }
    let born: BTreeSet<Lab> = cleared.iter().map(|p| of(&p.0)).collect();
    let mut kept = 0;
    for e in g.pairings.iter().map(|p| &p.1).chain(g.essential.iter()).filter(|e| !born.contains(&of(e))) {
        raw.reset();
        let _ = v.column(e.clone()).count();
        ensure!(raw.total_reqs.get() == 0, "{name}: column {e:?} of V, which is stored, requests columns {:?}", raw.reqs.borrow());
        kept += 1;
    }
    obs.class_if(cleared.len() >= 3, "three cleared columns");
    obs.nontrivial = cleared.len() >= 1 && kept >= 2;
    Ok(())
}
fn algo_f<F: TF>(c: &ACase, obs: &mut Obs) -> Result<(), String> {
    let k = c.cpx.max_dim();
    let (lo, hi) = (c.lo as usize % (k + 1), c.hi as usize % (k + 1));
    let (lo, hi) = (lo.min(hi), lo.max(hi));
    if c.co {
        let raw = &c.cpx.raw_co::<F>().budgeted();
        let d = raw.reverse();
        let dims: Vec<usize> = (lo..=hi).collect();
        clearing("the reversed coboundary", raw, &d, &dims, |r| r.0, obs)?;
        raw.reset();
        let v = standard_algo(&d);
        raw.reset();
        list_of(raw.basis()).into_iter().for_each(|e| { let _ = v.column(Reverse(e)).count(); });
        ensure!(raw.total_reqs.get() == 0, "V of the standard algorithm requests columns");
    } else {
        let raw = &c.cpx.raw::<F>().budgeted();
        let dims: Vec<usize> = (lo..=hi).rev().collect();
        clearing("the boundary", raw, &raw, &dims, |r| *r, obs)?;
        raw.reset();
        let (v, _) = standard_algo_with_diagram(&raw, false);
        raw.reset();
        list_of(raw.basis()).into_iter().for_each(|e| { let _ = v.column(e).count(); });
        ensure!(raw.total_reqs.get() == 0, "V of the standard algorithm requests columns");
    }
    Ok(())
}
fn algo(c: &ACase, obs: &mut Obs) -> Result<(), String> {
    with_field!(c.cpx.field, algo_f::<_>(c, obs))
}

fn registry(p: &str) -> Vec<Box<dyn AnyTest>> {
    match p {
        "C17" => vec![
            Box::new(Test::<LCase> {
                name: "stacks",
                cases: (600_000, 8_000_000),
                rule: "random matrices under sixteen stacks of adaptors, products and sums; every column is requested and read not at all, in part, completely, with filtration values and into a heap; non-trivial when three columns are requested and two columns of the matrix report two terms or more",
                strat: |t| (mats(t), any::<u8>(), any::<u64>()).prop_map(|(mut m, what, seed)| {
                    m.field = pbt::adapt::few(m.field);
                    LCase { m, what, seed }
                }).boxed(),
                check: stacks,
                shards: 8,
            }),
            Box::new(Test::<ACase> {
                name: "algorithms",
                cases: (250_000, 3_000_000),
                rule: "random filtered complexes, boundary or reversed coboundary, any contiguous range of dimensions; requests during clearing and to the matrix V of both algorithms; non-trivial with a cleared column and two stored ones",
                strat: |t| (complexes(t), any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(cpx, lo, hi, co)| ACase { cpx, lo, hi, co }).boxed(),
                check: algo,
                shards: 8,
            }),
        ],
        _ => vec![],
    }
}
fn assumptions(_: &str) -> Vec<&'static str> {
    vec!["what the columns contain is decided by the other properties; here only which columns of the underlying matrices are requested"]
}
fn main() {
    pbt::driver::run(registry, assumptions)
}
