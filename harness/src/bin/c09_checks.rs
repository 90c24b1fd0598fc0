//! C09: column caching.
#![allow(unused_imports)]
use pbt::adapt::*;
use pbt::complexes::*;
use pbt::fields::*;
use pbt::fw::*;
use pbt::gens::*;
use pbt::mats::*;
use pbt::{ensure, with_few, with_field};
use phlite::columns::ColumnEntry;
use phlite::fields::NonZeroCoefficient;
use phlite::matrices::adaptors::{ReverseBasis, UnreverseBasis};
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::implementors::{MapVecMatrix, StandardBasis, VecVecMatrix};
use phlite::matrices::{BasisElement, ColBasis, FiltrationValue, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use phlite::reduction::{standard_algo, ClearedReductionMatrix};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;
use std::sync::Arc;

// ---------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
enum COp {
    Open(u16),
    Advance(u8, u8),
    Drop(u8),
    Read(u16),
    Entries(u16),
    ProductSelf(u16),
    ProductLeft(u16),
    ProductRight(u16),
    Eq(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CCase {
    m: Mat,
    ops: Vec<COp>,
}
fn sub_multiset<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    let mut used = vec![false; b.len()];
    a.iter().all(|x| match (0..b.len()).find(|k| !used[*k] && b[*k] == *x) {
        Some(k) => {
            used[k] = true;
            true
        }
        None => false,
    })
}
fn c09_f<F: TF>(case: &CCase, obs: &mut Obs) -> Result<(), String> {
    let m = &case.m;
    let n = m.n();
    let raw = m.raw::<F>();
    let plain = m.raw::<F>();
    let cached = (&raw).cache_cols();
    let mut live: Vec<(usize, Box<dyn Iterator<Item = (F, Lab)> + '_>, Vec<(F, Lab)>)> = vec![];
    let mut requested: BTreeSet<usize> = BTreeSet::new();
    let mut overlap = false;
    let mut again = false;
    let truth = |i: usize| m.terms::<F>(i);
    for (k, op) in case.ops.iter().enumerate() {
        let pick = |c: &u16| *c as usize % n;
        let fresh_while_live = |c: usize, live: &Vec<(usize, Box<dyn Iterator<Item = (F, Lab)> + '_>, Vec<(F, Lab)>)>, req: &BTreeSet<usize>| !live.is_empty() && !req.contains(&c);
        match op {
            COp::Open(c) => {
                let c = pick(c);
                overlap |= fresh_while_live(c, &live, &requested);
                again |= !requested.insert(c);
                live.push((c, Box::new(cached.column(m.lab(c))), vec![]));
            }
            COp::Advance(i, steps) => {
                if live.is_empty() {
                    continue;
                }
                let i = *i as usize % live.len();
                for _ in 0..*steps {
                    match live[i].1.next() {
                        Some(t) => live[i].2.push(t),
                        None => {
                            let (c, _, got) = &live[i];
                            ensure!(same_multiset(got, &truth(*c)), "step {k}: column {c} yielded {got:?} from the cache, the matrix has {:?}", truth(*c));
                            break;
                        }
                    }
                }
            }
            COp::Drop(i) => {
                if live.is_empty() {
                    continue;
                }
                let i = *i as usize % live.len();
                let (c, _, got) = live.remove(i);
                ensure!(sub_multiset(&got, &truth(c)), "step {k}: column {c} yielded {got:?}, which are not terms of {:?}", truth(c));
            }
            COp::Read(c) => {
                let c = pick(c);
                overlap |= fresh_while_live(c, &live, &requested);
                again |= !requested.insert(c);
                let got: Vec<_> = cached.column(m.lab(c)).collect();
                ensure!(same_multiset(&got, &truth(c)), "step {k}: column {c} is {got:?} through the cache, the matrix has {:?}", truth(c));
            }
            COp::Entries(c) => {
                let c = pick(c);
                overlap |= fresh_while_live(c, &live, &requested);
                requested.insert(c);
                let got = entries_of(&cached, m.lab(c));
                let want = entries_of(&plain, m.lab(c));
                ensure!(same_multiset(&got, &want), "step {k}: enriched column {c} is {got:?} through the cache, the matrix has {want:?}");
            }
            COp::ProductSelf(c) | COp::ProductLeft(c) | COp::ProductRight(c) => {
                let l = m.lab(pick(c));
                let want: Vec<_> = product(&plain, &plain).column(l).collect();
                let got: Vec<_> = match op {
                    COp::ProductSelf(_) => product(&cached, &cached).column(l).collect(),
                    COp::ProductLeft(_) => product(&cached, &plain).column(l).collect(),
                    _ => product(&plain, &cached).column(l).collect(),
                };
                overlap |= matches!(op, COp::ProductSelf(_)) && want.len() > 1;
                ensure!(same_multiset(&got, &want), "step {k}: column {l:?} of the product through the cache is {got:?}, expected {want:?}");
            }
            COp::Eq(c) => {
                let l = m.lab(pick(c));
                ensure!(cached.eq_on_col(&plain, l) && plain.eq_on_col(&cached, l) && cached.eq_on_col(&cached, l), "step {k}: cached column {l:?} compares different");
            }
        }
        for (c, count) in raw.reqs.borrow().iter() {
            ensure!(*count <= 1, "step {k}: column {c:?} of the underlying matrix was computed {count} times");
        }
    }
    while let Some((c, it, mut got)) = live.pop() {
        got.extend(it);
        ensure!(same_multiset(&got, &truth(c)), "column {c} yielded {got:?} from the cache, the matrix has {:?}", truth(c));
    }
    for i in 0..n {
        ensure!(cached.filtration_value(m.lab(i)) == Fv(m.fil[i]), "filtration value through the cache");
    }
    verify_basis("cached", cached.basis(), &raw.basis.total)?;
    // whole-matrix uses on a fresh cache
    let raw2 = m.raw::<F>();
    let c2 = (&raw2).cache_cols();
    let v1 = standard_algo(&plain);
    let v2 = standard_algo(&c2);
    let r1 = product(&plain, &v1);
    let r2 = product(&c2, &v2);
    for e in raw2.basis.total.iter() {
        ensure!(vec_of(&r1, *e) == vec_of(&r2, *e), "reduced column {e:?} differs when the matrix is cached");
    }
    let cc = (&c2).cache_cols();
    for e in raw2.basis.total.iter() {
        let got: Vec<_> = cc.column(*e).collect();
        ensure!(same_multiset(&got, &plain.column(*e).collect::<Vec<_>>()), "doubly cached column {e:?}");
    }
    for (c, count) in raw2.reqs.borrow().iter() {
        ensure!(*count <= 1, "reducing a cached matrix computed column {c:?} {count} times");
    }
    obs.class_if(overlap, "a new column while an iterator is live");
    obs.class_if(again, "repeated request");
    obs.nontrivial = overlap && again;
    Ok(())
}
fn c09(case: &CCase, obs: &mut Obs) -> Result<(), String> {
    with_field!(case.m.field, c09_f::<_>(case, obs))
}

/// Clearing reductions of cached complexes.
fn c09_red_f<F: TF>(c: &Cpx, obs: &mut Obs) -> Result<(), String> {
    c.validate()?;
    let dims: Vec<usize> = (0..=c.max_dim()).collect();
    let plain = c.raw::<F>();
    let under = c.raw::<F>();
    let cached = (&under).cache_cols();
    let (_v1, d1) = ClearedReductionMatrix::build_with_diagram(&plain, dims.iter().rev().copied());
    let (v2, d2) = ClearedReductionMatrix::build_with_diagram(&cached, dims.iter().rev().copied());
    ensure!(d1.pairings == d2.pairings && d1.essential == d2.essential, "diagram with a cached boundary: {d2:?}, without: {d1:?}");
    let r2 = product(&cached, &v2);
    for e in plain.basis.total.iter() {
        ensure!(vec_of(&r2, *e).is_empty() == v2.col_is_cycle(*e), "cycle query on {e:?} with a cached boundary");
    }
    for (col, count) in under.reqs.borrow().iter() {
        ensure!(*count <= 1, "reducing a cached matrix computed column {col:?} {count} times");
    }
    let co_plain = c.raw_co::<F>();
    let co_under = c.raw_co::<F>();
    let co = (&co_under).reverse().cache_cols();
    let (_v3, d3) = ClearedReductionMatrix::build_with_diagram((&co_plain).reverse(), dims.iter().copied());
    let (v4, d4) = ClearedReductionMatrix::build_with_diagram(&co, dims.iter().copied());
    ensure!(d3.pairings == d4.pairings && d3.essential == d4.essential, "diagram with a cached coboundary: {d4:?}, without: {d3:?}");
    let r4 = product(&co, &v4);
    for e in plain.basis.total.iter() {
        ensure!(vec_of(&r4, Reverse(*e)).is_empty() == v4.col_is_cycle(Reverse(*e)), "cycle query on {e:?} with a cached coboundary");
    }
    for (col, count) in co_under.reqs.borrow().iter() {
        ensure!(*count <= 1, "reducing a cached coboundary computed column {col:?} {count} times");
    }
    obs.nontrivial = d1.pairings.len() >= 2;
    Ok(())
}
fn c09_red(c: &Cpx, obs: &mut Obs) -> Result<(), String> {
    with_field!(c.field, c09_red_f::<_>(c, obs))
}
fn c09_tests() -> Vec<Box<dyn AnyTest>> {
    vec![
        Box::new(Test::<CCase> {
            name: "request-histories",
            cases: (600_000, 7_200_000),
            rule: "random histories of opening, advancing, dropping and re-reading column iterators of a cached matrix, products with itself and reductions, with request counters; non-trivial when a new column was requested while an iterator was live and a column was requested again",
            strat: |_| {
                let op = prop_oneof![
                    4 => any::<u16>().prop_map(COp::Open),
                    4 => (any::<u8>(), 0u8..6).prop_map(|(a, b)| COp::Advance(a, b)),
                    1 => any::<u8>().prop_map(COp::Drop),
                    2 => any::<u16>().prop_map(COp::Read),
                    1 => any::<u16>().prop_map(COp::Entries),
                    1 => any::<u16>().prop_map(COp::ProductSelf),
                    1 => any::<u16>().prop_map(COp::ProductLeft),
                    1 => any::<u16>().prop_map(COp::ProductRight),
                    1 => any::<u16>().prop_map(COp::Eq),
                ];
                let few = (mats_sized(1, 6, 5, true), prop::collection::vec(op.clone(), 0..16));
                let many = (mats_sized(20, 90, 6, true), prop::collection::vec(op.clone(), 60..220));
                let long = (mats_long(10, 200, 500, true), prop::collection::vec(op, 0..24));
                prop_oneof![250 => few, 1 => many, 1 => long].prop_map(|(m, ops)| CCase { m, ops }).boxed()
            },
            check: c09,
            shards: 8,
        }),
        Box::new(Test::<Cpx> {
            name: "cached-reductions",
            cases: (60_000, 720_000),
            rule: "filtered complexes reduced by clearing with the boundary or the reversed coboundary behind a cache; non-trivial when two pairs exist",
            strat: complexes,
            check: c09_red,
            shards: 8,
        }),
    ]
}

fn registry(p: &str) -> Vec<Box<dyn AnyTest>> {
    match p {
        "C09" => {
            let mut tests = c09_tests();
            tests.push(pbt::scale::scale(p));
            tests
        }
        _ => vec![],
    }
}
fn assumptions(_p: &str) -> Vec<&'static str> {
    vec!["coefficient arithmetic is exact (decided by C06); rational cases that overflow are discarded"]
}
fn main() {
    pbt::driver::run(registry, assumptions)
}
