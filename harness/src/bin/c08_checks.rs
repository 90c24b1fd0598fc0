//! C08: adaptors.
#![allow(unused_imports)]
use pbt::adapt::*;
use pbt::complexes::*;
use pbt::fields::*;
use pbt::fw::*;
use pbt::gens::*;
use pbt::mats::*;
use pbt::{ensure, with_few, with_field};
use phlite::columns::ColumnEntry;
use phlite::fields::NonZeroCoefficient;
use phlite::matrices::adaptors::{ReverseBasis, UnreverseBasis};
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::implementors::{MapVecMatrix, StandardBasis, VecVecMatrix};
use phlite::matrices::{BasisElement, ColBasis, FiltrationValue, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use phlite::reduction::{standard_algo, ClearedReductionMatrix};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;
use std::sync::Arc;

// ---------------------------------------------------------------- C08: dynamic stacks

#[derive(Clone, Debug, Serialize, Deserialize)]
enum AOp {
    Trivial,
    Filter(Vec<i64>),
    Basis(Vec<(u8, u8)>),
    Flip,
    Sub(u8),
    Consolidate,
    Cache,
    Ref,
    RcWrap,
    ArcWrap,
    BoxWrap,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ACase {
    m: Mat,
    ops: Vec<AOp>,
}
enum St<F> {
    Fwd(Er<F, Lab, Lab, Fv>),
    Rev(Er<F, Reverse<Lab>, Reverse<Lab>, Reverse<Fv>>),
}

fn step<F: TF, C, FT>(m: Er<F, C, C, FT>, op: &AOp, nd: &mut usize, fil: HashMap<C, FT>, basis: &SplitVec<C>) -> Er<F, C, C, FT>
where
    C: BasisElement + Hash + Debug + 'static,
    FT: FiltrationValue + Debug + 'static,
{
    let f = move |r: C| fil[&r].clone();
    let b = basis.clone();
    match op {
        AOp::Trivial => erase(m.with_trivial_filtration().with_filtration(f), *nd),
        AOp::Filter(_) => erase(m.with_filtration(f), *nd),
        AOp::Basis(_) => {
            *nd = b.dims.len();
            erase(m.with_basis(b), *nd)
        }
        AOp::Sub(d) => {
            let s = m.sub_matrix_in_dimension(*d as usize % *nd);
            let total = list_of(&*s.basis());
            *nd = 1;
            Er { m: Box::new(Wrap(s)), basis: SplitVec { total: total.clone(), dims: vec![total] } }
        }
        AOp::Consolidate => erase(m.consolidate(), *nd),
        AOp::Cache => erase(m.cache_cols(), *nd),
        AOp::Ref => {
            let basis = snap(&&m, *nd);
            Er { m: Box::new(RefWrap(m)), basis }
        }
        AOp::RcWrap => erase(Rc::new(m).with_filtration(f).with_basis(b), *nd),
        AOp::ArcWrap => erase(Arc::new(m).with_filtration(f).with_basis(b), *nd),
        AOp::BoxWrap => erase(Box::new(m).with_filtration(f).with_basis(b), *nd),
        AOp::Flip => unreachable!(),
    }
}

fn c08_f<F: TF>(case: &ACase, obs: &mut Obs) -> Result<(), String> {
    let m = &case.m;
    let n = m.n();
    let mut fil = m.fil.clone();
    let mut basis = SplitVec::concat(m.basis.iter().map(|b| b.iter().map(|i| m.lab(*i)).collect()).collect::<Vec<Vec<Lab>>>());
    let mut nd = m.basis.len();
    let mut st = St::Fwd(erase(m.raw::<F>(), nd));
    let mut flips = 0;
    for (k, op) in case.ops.iter().enumerate() {
        match op {
            AOp::Filter(v) => fil = (0..n).map(|i| v[i % v.len()]).collect(),
            AOp::Basis(keys) => {
                let mut ord: Vec<usize> = (0..n).collect();
                ord.sort_by_key(|i| keys[*i % keys.len()].0);
                let mut dims = vec![vec![]; 2];
                for i in ord {
                    let d = keys[i % keys.len()].1 as usize;
                    if d < 2 {
                        dims[d].push(m.lab(i));
                    }
                }
                basis = SplitVec::concat(dims);
                if matches!(st, St::Rev(_)) {
                    // given in the reversed index type; recorded un-reversed
                    basis = SplitVec {
                        total: basis.total.iter().rev().cloned().collect(),
                        dims: basis.dims.iter().map(|d| d.iter().rev().cloned().collect()).collect(),
                    };
                }
            }
            AOp::Sub(d) => {
                let l = basis.dims[*d as usize % nd].clone();
                basis = SplitVec { total: l.clone(), dims: vec![l] };
            }
            _ => {}
        }
        let f_fwd: HashMap<Lab, Fv> = (0..n).map(|i| (m.lab(i), Fv(fil[i]))).collect();
        let b_rev = SplitVec { total: rev_list(&basis.total), dims: basis.dims.iter().map(|d| rev_list(d)).collect() };
        st = match (st, op) {
            (St::Fwd(e), AOp::Flip) => {
                flips += 1;
                St::Rev(erase(e.reverse(), nd))
            }
            (St::Rev(e), AOp::Flip) => {
                flips += 1;
                St::Fwd(erase(e.unreverse(), nd))
            }
            (St::Fwd(e), op) => St::Fwd(step(e, op, &mut nd, f_fwd, &basis)),
            (St::Rev(e), op) => {
                let f_rev = f_fwd.into_iter().map(|(r, f)| (Reverse(r), Reverse(f))).collect();
                St::Rev(step(e, op, &mut nd, f_rev, &b_rev))
            }
        };
        let name = format!("after step {k} ({op:?})");
        let w = want_fwd::<F>(m, &fil);
        match &st {
            St::Fwd(e) => {
                verify_cols(&name, e, &w)?;
                verify_basis(&name, &e.basis, &basis.total)?;
                for d in 0..nd {
                    verify_basis(&format!("{name}, dimension {d}"), &e.basis.dims[d], &basis.dims[d])?;
                }
                verify_index(&name, e, &w, &basis.total)?;
            }
            St::Rev(e) => {
                verify_cols(&name, e, &rev_want(&w))?;
                verify_basis(&name, &e.basis, &b_rev.total)?;
                for d in 0..nd {
                    verify_basis(&format!("{name}, dimension {d}"), &e.basis.dims[d], &b_rev.dims[d])?;
                }
                verify_index(&name, e, &rev_want(&w), &b_rev.total)?;
            }
        }
    }
    obs.class(format!("{} reversals", flips.min(4)));
    obs.class_if(case.ops.iter().any(|o| matches!(o, AOp::Sub(_))), "dimension restriction");
    obs.class_if(case.ops.iter().any(|o| matches!(o, AOp::Cache)), "cache");
    obs.nontrivial = case.ops.len() >= 2 && n >= 2 && case.m.cols.iter().any(|c| !c.is_empty());
    Ok(())
}
fn c08_dyn(case: &ACase, obs: &mut Obs) -> Result<(), String> {
    let mut case = case.clone();
    case.m.field = few(case.m.field);
    with_few!(case.m.field, c08_f::<_>(&case, obs))
}

// ---------------------------------------------------------------- C08: statically typed stacks

fn c08_static_f<F: TF>(case: &(Mat, Vec<i64>), obs: &mut Obs) -> Result<(), String> {
    let (m, fil2) = case;
    let n = m.n();
    let raw = m.raw::<F>();
    let w = want_fwd::<F>(m, &m.fil);
    let rw = rev_want(&w);
    let rrw = rev_want(&rw);
    let total = raw.basis.total.clone();
    let dims = raw.basis.dims.clone();
    let rtotal = rev_list(&total);
    let id: HashMap<Lab, usize> = (0..n).map(|i| (m.lab(i), i)).collect();
    let fil2v: Vec<i64> = (0..n).map(|i| fil2[i % fil2.len()]).collect();
    let w2 = want_fwd::<F>(m, &fil2v);
    let f2 = |r: Lab| Fv(fil2v[id[&r]]);

    macro_rules! full {
        ($name:expr, $m:expr, $w:expr, $b:expr) => {{
            let mm = $m;
            let b = $b;
            verify_cols($name, &mm, &$w)?;
            verify_basis($name, &*mm.basis(), &b)?;
            verify_index($name, &mm, &$w, &b)?;
        }};
    }
    macro_rules! dimmed {
        ($name:expr, $m:expr, $want:expr) => {{
            let mm = $m;
            for (d, want) in $want.iter().enumerate() {
                verify_basis(&format!("{} dimension {d}", $name), mm.basis().in_dimension(d), want)?;
            }
        }};
    }
    let rdims: Vec<Vec<Reverse<Lab>>> = dims.iter().map(|d| rev_list(d)).collect();
    let rrdims: Vec<Vec<Reverse<Reverse<Lab>>>> = rdims.iter().map(|d| rev_list(d)).collect();

    full!("&M", &raw, w, total.clone());
    full!("&&M", &&raw, w, total.clone());
    full!("reverse", (&raw).reverse(), rw, rtotal.clone());
    full!("& of reverse", &(&raw).reverse(), rw, rtotal.clone());
    dimmed!("reverse", (&raw).reverse(), rdims);
    full!("reverse.reverse", (&raw).reverse().reverse(), rrw, rev_list(&rtotal));
    dimmed!("reverse.reverse", (&raw).reverse().reverse(), rrdims);
    // un-reversal undoes reversal: the inherent method and the trait method
    full!("reverse.unreverse (inherent)", (&raw).reverse().unreverse(), w, total.clone());
    full!("reverse.unreverse (trait)", MatrixOracle::unreverse((&raw).reverse()), w, total.clone());
    dimmed!("reverse.unreverse (trait)", MatrixOracle::unreverse((&raw).reverse()), dims);
    full!("reverse.reverse.unreverse", MatrixOracle::unreverse((&raw).reverse().reverse()), rw, rtotal.clone());
    full!("reverse^2.unreverse^2", MatrixOracle::unreverse(MatrixOracle::unreverse((&raw).reverse().reverse())), w, total.clone());
    dimmed!("reverse^2.unreverse^2", MatrixOracle::unreverse(MatrixOracle::unreverse((&raw).reverse().reverse())), dims);
    full!("reverse.unreverse.reverse", MatrixOracle::unreverse((&raw).reverse()).reverse(), rw, rtotal.clone());
    dimmed!("reverse.unreverse.reverse", MatrixOracle::unreverse((&raw).reverse()).reverse(), rdims);
    for d in 0..dims.len() {
        let sub = |s: &str| format!("{s} (dimension {d})");
        full!(&sub("sub"), (&raw).sub_matrix_in_dimension(d), w, dims[d].clone());
        full!(&sub("sub.reverse"), (&raw).sub_matrix_in_dimension(d).reverse(), rw, rdims[d].clone());
        full!(&sub("reverse.sub"), (&raw).reverse().sub_matrix_in_dimension(d), rw, rdims[d].clone());
        full!(&sub("reverse.sub.unreverse"), (&raw).reverse().sub_matrix_in_dimension(d).unreverse(), w, dims[d].clone());
        full!(&sub("reverse.unreverse.sub"), MatrixOracle::unreverse((&raw).reverse()).sub_matrix_in_dimension(d), w, dims[d].clone());
        full!(&sub("reverse.unreverse.sub.reverse"), MatrixOracle::unreverse((&raw).reverse()).sub_matrix_in_dimension(d).reverse(), rw, rdims[d].clone());
        full!(&sub("reverse^2.sub"), (&raw).reverse().reverse().sub_matrix_in_dimension(d), rrw, rrdims[d].clone());
        full!(&sub("cache.reverse.sub.consolidate"), (&raw).cache_cols().reverse().sub_matrix_in_dimension(d).consolidate(), rw, rdims[d].clone());
        full!(&sub("reverse.cache.sub.cache"), (&raw).reverse().cache_cols().sub_matrix_in_dimension(d).cache_cols(), rw, rdims[d].clone());
        full!(&sub("consolidate.sub.filtration"), (&raw).consolidate().sub_matrix_in_dimension(d).with_filtration(f2), w2, dims[d].clone());
        full!(&sub("filtration.reverse.sub"), (&raw).with_filtration(f2).reverse().sub_matrix_in_dimension(d), rev_want(&w2), rdims[d].clone());
        full!(&sub("trivial.sub.filtration"), (&raw).with_trivial_filtration().sub_matrix_in_dimension(d).with_filtration(f2), w2, dims[d].clone());
        full!(&sub("sub then a basis"), (&raw).sub_matrix_in_dimension(d).with_basis(total.clone()), w, total.clone());
        full!(&sub("a basis by its constructor"), phlite::matrices::adaptors::MatrixWithBasis::new(&raw, total.clone()), w, total.clone());
        full!(&sub("sub of a borrowed basis"), (&raw).with_basis(&raw.basis).reverse().sub_matrix_in_dimension(d), rw, rdims[d].clone());
    }
    full!("owned reverse", m.raw::<F>().reverse(), rw, rtotal.clone());
    full!("owned cache.reverse", m.raw::<F>().cache_cols().reverse(), rw, rtotal.clone());
    full!("filtration", (&raw).with_filtration(f2), w2, total.clone());
    full!("filtration.discard", (&raw).with_filtration(f2).discard_filtration(), w, total.clone());
    full!("filtration.reverse.unreverse", MatrixOracle::unreverse((&raw).with_filtration(f2).reverse()), w2, total.clone());
    full!("consolidate.cache", (&raw).consolidate().cache_cols(), w, total.clone());
    full!("cache.consolidate.reverse", (&raw).cache_cols().consolidate().reverse(), rw, rtotal.clone());
    let tw: Want<F, Lab, Lab, ()> = (w.0.clone(), w.1.iter().map(|x| (x.0, ())).collect());
    full!("trivial", (&raw).with_trivial_filtration(), tw, total.clone());
    full!("filtration.trivial", (&raw).with_filtration(f2).with_trivial_filtration(), tw, total.clone());
    full!("reverse.trivial", (&raw).reverse().with_trivial_filtration(), (rw.0.clone(), rw.1.iter().map(|x| (x.0, ())).collect::<Vec<_>>()), rtotal.clone());
    // smart pointers keep the entries
    let rc = Rc::new(m.raw::<F>());
    verify_cols("Rc", &rc.clone().with_filtration(f2), &w2)?;
    verify_cols("Arc", &Arc::new(m.raw::<F>()).with_filtration(f2), &w2)?;
    verify_cols("Box", &Box::new(m.raw::<F>()).reverse().with_filtration(|r: Reverse<Lab>| Reverse(f2(r.0))), &rev_want(&w2))?;
    // a matrix stored by position, whose basis is handed out by value
    let vv = VecVecMatrix::<F, usize>::new((0..n).map(|i| m.terms::<F>(i).into_iter().map(|(c, r)| (c, id[&r])).collect::<Vec<_>>()));
    let fp = |r: usize| Fv(m.fil[r]);
    let wp: Want<F, usize, usize, Fv> = (
        (0..n).map(|i| (i, m.truth::<F>(i).into_iter().map(|(r, c)| (id[&r], c)).collect())).collect(),
        (0..n).map(|i| (i, Fv(m.fil[i]))).collect(),
    );
    let std: Vec<usize> = (0..n).collect();
    full!("stored", (&vv).with_filtration(fp), wp, std.clone());
    full!("stored.reverse", (&vv).with_filtration(fp).reverse(), rev_want(&wp), rev_list(&std));
    full!("stored.reverse.unreverse", MatrixOracle::unreverse((&vv).with_filtration(fp).reverse()), wp, std.clone());
    full!("stored.reverse.reverse", (&vv).with_filtration(fp).reverse().reverse(), rev_want(&rev_want(&wp)), rev_list(&rev_list(&std)));
    // products and sums under adaptors
    let p = product(&raw, &raw);
    let wprod: Want<F, Lab, Lab, Fv> = (
        (0..n)
            .map(|i| {
                let mut v = BTreeMap::new();
                for (r, c) in m.truth::<F>(i) {
                    add_terms(&mut v, m.terms::<F>(id[&r]).into_iter().map(|(x, r2)| (x * c, r2)));
                }
                (m.lab(i), v)
            })
            .collect(),
        w.1.clone(),
    );
    full!("product.reverse", (&p).reverse(), rev_want(&wprod), rtotal.clone());
    full!("product of reverses", product((&raw).reverse(), (&raw).reverse()), rev_want(&wprod), rtotal.clone());
    full!("product of reverses, unreversed", product((&raw).reverse(), (&raw).reverse()).unreverse(), wprod, total.clone());
    full!("consolidated product.cache", product((&raw).cache_cols(), (&raw).consolidate()).consolidate().cache_cols(), wprod, total.clone());
    let wsum: Want<F, Lab, Lab, Fv> = (
        w.0.iter().map(|(c, v)| (*c, sum_terms(v.iter().chain(v.iter()).map(|(r, x)| (*x, *r))))).collect(),
        w2.1.clone(),
    );
    full!("sum with filtration and basis", sum(&raw, &raw).with_filtration(f2).with_basis(raw.basis.clone()), wsum, total.clone());
    full!("sum, reversed", sum((&raw).reverse(), (&raw).reverse()).unreverse().with_filtration(f2).with_basis(&raw.basis), wsum, total.clone());
    obs.nontrivial = n >= 2 && total.len() >= 2 && m.cols.iter().any(|c| !c.is_empty());
    obs.class_if(dims.iter().filter(|d| !d.is_empty()).count() >= 2, "two non-empty dimensions");
    Ok(())
}
fn c08_static(case: &(Mat, Vec<i64>), obs: &mut Obs) -> Result<(), String> {
    let mut case = case.clone();
    // about 60 distinct types per field: two fields stand for all
    if case.0.field == Fld::Q {
        c08_static_f::<phlite::fields::Q>(&case, obs)
    } else {
        case.0.field = Fld::Z3;
        c08_static_f::<phlite::fields::Z3>(&case, obs)
    }
}

fn aops() -> BoxedStrategy<Vec<AOp>> {
    prop::collection::vec(
        prop_oneof![
            1 => Just(AOp::Trivial),
            2 => prop::collection::vec(-3i64..4, 1..8).prop_map(AOp::Filter),
            2 => prop::collection::vec((any::<u8>(), 0u8..3), 1..10).prop_map(AOp::Basis),
            5 => Just(AOp::Flip),
            2 => (0u8..3).prop_map(AOp::Sub),
            1 => Just(AOp::Consolidate),
            2 => Just(AOp::Cache),
            1 => Just(AOp::Ref),
            1 => Just(AOp::RcWrap),
            1 => Just(AOp::ArcWrap),
            1 => Just(AOp::BoxWrap),
        ],
        1..8,
    )
    .boxed()
}

fn c08_tests() -> Vec<Box<dyn AnyTest>> {
    vec![
        Box::new(Test::<(Mat, Vec<i64>)> {
            name: "static-stacks",
            cases: (60_000, 720_000),
            rule: "about 60 statically typed compositions of adaptors and combinators over a random matrix, each compared on all columns, filtration values, basis, sub-bases and basis positions; non-trivial when the matrix has two indices, two basis elements and a non-empty column",
            strat: |_| (rare(mats_sized(0, 7, 5, false), false), prop::collection::vec(-3i64..4, 8)).boxed(),
            check: c08_static,
            shards: 8,
        }),
        Box::new(Test::<ACase> {
            name: "random-stacks",
            cases: (150_000, 1_800_000),
            rule: "random stacks of up to 7 adaptors (each step type-erased), the whole matrix compared after each; non-trivial when at least two adaptors act on a matrix with a non-empty column",
            strat: |_| (rare(mats_sized(0, 7, 5, false), false), aops()).prop_map(|(m, ops)| ACase { m, ops }).boxed(),
            check: c08_dyn,
            shards: 8,
        }),
    ]
}

fn registry(p: &str) -> Vec<Box<dyn AnyTest>> {
    match p {
        "C08" => {
            let mut tests = c08_tests();
            tests.push(pbt::scale::scale(p));
            tests.push(pbt::virt::virt(p));
            tests
        }
        _ => vec![],
    }
}
fn assumptions(_p: &str) -> Vec<&'static str> {
    vec!["coefficient arithmetic is exact (decided by C06); rational cases that overflow are discarded"]
}
fn main() {
    pbt::driver::run(registry, assumptions)
}
