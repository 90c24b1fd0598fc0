//! C05, C06, C11, C12, C13, C14, C07: columns, fields and small matrix facts.
use pbt::complexes::*;
use pbt::fields::*;
use pbt::fw::*;
use pbt::mats::*;
use pbt::{ensure, with_field};
use ordered_float::NotNan;
use phlite::columns::{BHCol, ColumnEntry};
use phlite::fields::{Invertible, Z11, Z13, Z2, Z3, Z5, Z7};
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::implementors::{MapVecMatrix, SimpleZ2Matrix, StandardBasis, VecVecMatrix};
use phlite::matrices::{BasisElement, ColBasis, FiltrationValue, HasColBasis, HasRowFiltration, MatrixOracle};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use rustc_hash::FxHashMap;
use std::borrow::Cow;
use std::collections::BTreeMap;

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HOp {
    AddEntry(i64, u8),
    AddEntries(Vec<(i64, u8)>),
    AddTuple(i64, u8),
    AddTuples(Vec<(i64, u8)>),
    Pop,
    ClonePivot,
    DrainSome(u8),
    /// Continue with a clone of the heap; the original is drained and must agree with the model.
    Fork,
    /// Cancel the current leading term by adding its negative.
    CancelTop,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HCase {
    field: Fld,
    kind: u8,
    fil: Vec<i64>,
    ops: Vec<HOp>,
}

fn hops() -> BoxedStrategy<HCase> {
    // mostly few rows, so that terms meet; sometimes many
    prop_oneof![9 => hops_on(8), 1 => hops_on(200)].boxed()
}
fn hops_on(rows: u8) -> BoxedStrategy<HCase> {
    let term = move || (-4i64..5, 0..rows);
    let op = prop_oneof![
        2 => term().prop_map(|(c, r)| HOp::AddEntry(c, r)),
        3 => prop::collection::vec(term(), 0..10).prop_map(HOp::AddEntries),
        1 => prop::collection::vec(term(), 10..70).prop_map(HOp::AddEntries),
        1 => term().prop_map(|(c, r)| HOp::AddTuple(c, r)),
        2 => prop::collection::vec(term(), 0..10).prop_map(HOp::AddTuples),
        1 => prop::collection::vec(term(), 10..70).prop_map(HOp::AddTuples),
        3 => Just(HOp::Pop),
        2 => Just(HOp::ClonePivot),
        1 => (0u8..4).prop_map(HOp::DrainSome),
        1 => Just(HOp::Fork),
        2 => Just(HOp::CancelTop),
    ];
    (any_field(), 0u8..5, prop::collection::vec(0i64..4, rows as usize), prop::collection::vec(op, 0..24))
        .prop_map(|(field, kind, fil, ops)| HCase { field, kind, fil, ops })
        .boxed()
}

fn hrun<F: TF, FT: FiltrationValue + std::fmt::Debug, RT: BasisElement + std::fmt::Debug>(
    case: &HCase,
    obs: &mut Obs,
    mf: impl Fn(i64) -> FT,
    mr: impl Fn(u8) -> RT,
) -> Result<(), String> {
    let ent = |c: F, r: u8| (c, mr(r), mf(case.fil[r as usize]));
    let mut col: BHCol<FT, RT, F> = BHCol::default();
    // model: key in library order -> coefficient
    let mut model: BTreeMap<(FT, RT), F> = BTreeMap::new();
    let mut cancelled = false;
    let mut popped_multi = false;
    let addm = |model: &mut BTreeMap<(FT, RT), F>, c: F, r: u8, cancelled: &mut bool| {
        let k = (mf(case.fil[r as usize]), mr(r));
        match model.remove(&k) {
            None => {
                model.insert(k, c);
            }
            Some(o) => match o + c {
                Some(s) => {
                    model.insert(k, s);
                }
                None => *cancelled = true,
            },
        }
    };
    let expect_pop = |model: &mut BTreeMap<(FT, RT), F>| model.pop_last();
    let same = |got: &Option<ColumnEntry<FT, RT, F>>, want: &Option<((FT, RT), F)>| match (got, want) {
        (None, None) => true,
        (Some(g), Some(((f, r), c))) => g.filtration_value == *f && g.row_index == *r && g.coeff == *c,
        _ => false,
    };
    for (k, op) in case.ops.iter().enumerate() {
        match op {
            HOp::AddEntry(c, r) => {
                if let Some(c) = F::from_i(*c) {
                    col.add_entry(ColumnEntry::from(ent(c, *r)));
                    addm(&mut model, c, *r, &mut cancelled);
                }
            }
            HOp::AddTuple(c, r) => {
                if let Some(c) = F::from_i(*c) {
                    col.add_tuple(ent(c, *r));
                    addm(&mut model, c, *r, &mut cancelled);
                }
            }
            HOp::AddEntries(ts) => {
                let ts: Vec<(F, u8)> = ts.iter().filter_map(|(c, r)| Some((F::from_i(*c)?, *r))).collect();
                col.add_entries(ts.iter().map(|(c, r)| ColumnEntry::from(ent(*c, *r))));
                ts.iter().for_each(|(c, r)| addm(&mut model, *c, *r, &mut cancelled));
            }
            HOp::AddTuples(ts) => {
                let ts: Vec<(F, u8)> = ts.iter().filter_map(|(c, r)| Some((F::from_i(*c)?, *r))).collect();
                col.add_tuples(ts.iter().map(|(c, r)| ent(*c, *r)));
                ts.iter().for_each(|(c, r)| addm(&mut model, *c, *r, &mut cancelled));
            }
            HOp::Pop => {
                let want = expect_pop(&mut model);
                let got = col.pop_pivot();
                ensure!(same(&got, &want), "step {k}: pop_pivot gave {got:?}, the sum's leading term is {want:?}");
                popped_multi |= cancelled && want.is_some();
            }
            HOp::ClonePivot => {
                let want = model.last_key_value().map(|((f, r), c)| ((f.clone(), r.clone()), *c));
                let got = col.clone_pivot();
                ensure!(same(&got, &want), "step {k}: clone_pivot gave {got:?}, the sum's leading term is {want:?}");
                let pk = col.peek_pivot();
                ensure!(same(&pk.cloned(), &want), "step {k}: peek after clone_pivot gave {pk:?}, expected {want:?}");
            }
            HOp::DrainSome(m) => {
                let got: Vec<_> = col.drain_sorted().take(*m as usize).collect();
                for j in 0..*m as usize {
                    let want = expect_pop(&mut model);
                    let g = got.get(j).cloned();
                    ensure!(same(&g, &want), "step {k}: drain item {j} gave {g:?}, expected {want:?}");
                }
            }
            HOp::Fork => {
                let other = col.clone();
                let got = std::mem::replace(&mut col, other).to_sorted_vec();
                let want: Vec<_> = model.iter().rev().map(|(k, c)| (k.clone(), *c)).collect();
                ensure!(
                    got.len() == want.len() && got.iter().zip(want.iter()).all(|(g, w)| same(&Some(g.clone()), &Some(w.clone()))),
                    "step {k}: to_sorted_vec gave {got:?}, expected {want:?}"
                );
            }
            HOp::CancelTop => {
                if let Some((k2, c)) = model.pop_last() {
                    col.add_tuple((c.additive_inverse(), k2.1.clone(), k2.0.clone()));
                    cancelled = true;
                }
            }
        }
    }
    let got = col.to_sorted_vec();
    let want: Vec<_> = model.iter().rev().map(|(k, c)| (k.clone(), *c)).collect();
    ensure!(
        got.len() == want.len() && got.iter().zip(want.iter()).all(|(g, w)| same(&Some(g.clone()), &Some(w.clone()))),
        "at the end: to_sorted_vec gave {got:?}, expected {want:?}"
    );
    obs.class_if(cancelled, "a row cancelled");
    obs.class_if(popped_multi, "pop after a cancellation");
    obs.class(format!("field {:?}", F::TAG));
    obs.nontrivial = cancelled && (popped_multi || !want.is_empty());
    Ok(())
}

fn hcheck_f<F: TF>(case: &HCase, obs: &mut Obs) -> Result<(), String> {
    obs.class(format!("index kind {}", case.kind));
    match case.kind {
        0 => hrun::<F, _, _>(case, obs, Fv, |r| Lab(7 * (r as u32 + 1) % 251)),
        1 => hrun::<F, _, _>(case, obs, |f| Reverse(Fv(f)), |r| Reverse(Lab(r as u32))),
        2 => hrun::<F, _, _>(case, obs, |_| (), |r| r as usize),
        3 => hrun::<F, _, _>(case, obs, |f| NotNan::new(f as f64 * 0.5 - 0.7).unwrap(), |r| r as isize - 4),
        _ => hrun::<F, _, _>(case, obs, |f| f as usize, |r| Reverse(r as usize)),
    }
}
fn hcheck(case: &HCase, obs: &mut Obs) -> Result<(), String> {
    with_field!(case.field, hcheck_f::<_>(case, obs))
}

/// Entry ordering, conversions and scaling.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ECase {
    field: Fld,
    a: (i64, u8, i64),
    b: (i64, u8, i64),
}
fn echeck_f<F: TF>(c: &ECase, obs: &mut Obs) -> Result<(), String> {
    let (Some(ca), Some(cb)) = (F::from_i(c.a.0), F::from_i(c.b.0)) else {
        obs.discard = true;
        return Ok(());
    };
    let ea: ColumnEntry<Fv, Lab, F> = (ca, Lab(c.a.1 as u32), Fv(c.a.2)).into();
    let eb: ColumnEntry<Fv, Lab, F> = (cb, Lab(c.b.1 as u32), Fv(c.b.2)).into();
    let back: (F, Lab, Fv) = ea.into();
    ensure!(back == (ca, Lab(c.a.1 as u32), Fv(c.a.2)), "tuple round trip gave {back:?}");
    // precondition: equal rows have equal filtration values
    if c.a.1 != c.b.1 || c.a.2 == c.b.2 {
        let want = (c.a.2, c.a.1).cmp(&(c.b.2, c.b.1));
        ensure!(ea.cmp(&eb) == want && ea.partial_cmp(&eb) == Some(want), "entries ordered {:?}, expected {want:?}", ea.cmp(&eb));
        ensure!((ea == eb) == (c.a.1 == c.b.1), "entry equality is not row equality");
    }
    let m = ea * cb;
    ensure!(
        m.coeff == ca * cb && m.row_index == ea.row_index && m.filtration_value == ea.filtration_value,
        "scaling changed more than the coefficient: {m:?}"
    );
    obs.nontrivial = c.a != c.b;
    Ok(())
}
fn echeck(c: &ECase, obs: &mut Obs) -> Result<(), String> {
    with_field!(c.field, echeck_f::<_>(c, obs))
}

pub fn c05() -> Vec<Box<dyn AnyTest>> {
    vec![
        Box::new(Test::<HCase> {
            name: "heap-history",
            cases: (1_200_000, 14_400_000),
            rule: "random histories of additions, extractions, partial drains, pivot queries, forks and deliberate cancellations on a heap column against an ordered-map model, over 8 fields and 5 index/filtration types; non-trivial when some row cancelled and terms remained",
            strat: |_| hops(),
            check: hcheck,
            shards: 8,
        }),
        Box::new(Test::<ECase> {
            name: "entry-laws",
            cases: (160_000, 1_920_000),
            rule: "pairs of column entries; non-trivial when they differ",
            strat: |_| {
                let t = || (prop_oneof![-4i64..0, 1i64..5], 0u8..4, -3i64..4);
                (any_field(), t(), t()).prop_map(|(field, a, b)| ECase { field, a, b }).boxed()
            },
            check: echeck,
            shards: 8,
        }),
    ]
}

// ---------------------------------------------------------------- C06

fn zp_model<F: TF>(obs: &mut Obs) -> Result<(), String> {
    let p = F::TAG.p() as i64;
    let el: Vec<Option<F>> = (0..p).map(|i| F::from_i(i)).collect();
    ensure!(el[0].is_none() && el[1..].iter().all(|x| x.is_some()), "multiples of one: {el:?}");
    // from_i only uses one() and +; walk by one as well
    let mut acc: Option<F> = None;
    for i in 0..3 * p {
        ensure!(acc == el[(i % p) as usize], "adding one {i} times gave {acc:?}, expected {:?}", el[(i % p) as usize]);
        acc = F::one() + acc;
    }
    for a in 1..p {
        let fa = el[a as usize].unwrap();
        ensure!(fa + None == Some(fa), "{a} + absent");
        for b in 1..p {
            let fb = el[b as usize].unwrap();
            ensure!((fa == fb) == (a == b), "equality of {a} and {b}");
            let s = fa + fb;
            ensure!(s == el[((a + b) % p) as usize], "{a} + {b} = {s:?} mod {p}");
            ensure!(fa + Some(fb) == s, "{a} + Some({b})");
            let m = fa * fb;
            ensure!(Some(m) == el[((a * b) % p) as usize], "{a} * {b} = {m:?} mod {p}");
        }
        ensure!(Some(fa.additive_inverse()) == el[(p - a) as usize], "-{a} mod {p}");
        ensure!(fa + fa.additive_inverse() == None, "{a} - {a}");
        let i = fa.mult_inverse();
        ensure!(fa * i == F::one() && i * fa == F::one(), "{a} * {a}^-1 mod {p}");
    }
    obs.nontrivial = true;
    obs.class(format!("Z{p}"));
    Ok(())
}
fn zp_triples<F: TF>(obs: &mut Obs) -> Result<(), String> {
    let p = F::TAG.p() as i64;
    let el: Vec<Option<F>> = (0..p).map(|i| F::from_i(i)).collect();
    let add = |x: Option<F>, y: Option<F>| match (x, y) {
        (Some(x), y) => x + y,
        (None, y) => y,
    };
    for &a in &el {
        for &b in &el {
            for &c in &el {
                ensure!(add(add(a, b), c) == add(a, add(b, c)), "associativity of + in Z{p}");
                if let (Some(a), Some(b), Some(c)) = (a, b, c) {
                    ensure!((a * b) * c == a * (b * c), "associativity of * in Z{p}");
                    ensure!((b + c).map(|s| a * s) == add(Some(a * b), Some(a * c)), "distributivity in Z{p}");
                }
            }
        }
    }
    obs.nontrivial = true;
    Ok(())
}
fn c06_zp(case: &(u64, u8), obs: &mut Obs) -> Result<(), String> {
    macro_rules! go {
        ($t:ty) => {
            if case.1 == 0 {
                zp_model::<$t>(obs)
            } else {
                zp_triples::<$t>(obs)
            }
        };
    }
    match case.0 {
        2 => go!(Z2),
        3 => go!(Z3),
        5 => go!(Z5),
        7 => go!(Z7),
        11 => go!(Z11),
        _ => go!(Z13),
    }
}

/// Exact fraction n/d in lowest terms, d > 0.
fn frac(n: i128, d: i128) -> (i128, i128) {
    fn gcd(a: i128, b: i128) -> i128 {
        if b == 0 {
            a.abs()
        } else {
            gcd(b, a % b)
        }
    }
    let g = gcd(n, d);
    let s = if d < 0 { -1 } else { 1 };
    (s * n / g, s * d / g)
}
fn q_of(n: i128, d: i128) -> Option<phlite::fields::Q> {
    use phlite::fields::Q;
    let num = Q::from_i(n as i64)?;
    if d == 1 {
        return Some(num);
    }
    Some(num * Q::from_i(d as i64).unwrap().mult_inverse())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct QCase {
    a: (i64, i64),
    b: (i64, i64),
    c: (i64, i64),
}
fn qcheck(k: &QCase, obs: &mut Obs) -> Result<(), String> {
    use phlite::fields::{NonZeroCoefficient, Q};
    let f = |x: (i64, i64)| frac(x.0 as i128, x.1 as i128);
    let (a, b, c) = (f(k.a), f(k.b), f(k.c));
    let add = |x: (i128, i128), y: (i128, i128)| frac(x.0 * y.1 + y.0 * x.1, x.1 * y.1);
    let mul = |x: (i128, i128), y: (i128, i128)| frac(x.0 * y.0, x.1 * y.1);
    let q = |x: (i128, i128)| q_of(x.0, x.1);
    let (qa, qb, qc) = (q(a), q(b), q(c));
    // same element from an unreduced presentation
    ensure!(q_of(k.a.0 as i128, k.a.1 as i128) == qa, "{:?} reduced to a different element than {a:?}", k.a);
    ensure!((qa == qb) == (a == b), "equality of {a:?} and {b:?} is {}", qa == qb);
    // homomorphism from the integers
    ensure!((Q::from_i(k.a.0) == Q::from_i(k.b.0)) == (k.a.0 == k.b.0), "integers {} and {}", k.a.0, k.b.0);
    let qadd = |x: Option<Q>, y: Option<Q>| match (x, y) {
        (Some(x), y) => x + y,
        (None, y) => y,
    };
    if let (Some(x), Some(y)) = (qa, qb) {
        let s = x + y;
        ensure!(s == q(add(a, b)), "{a:?} + {b:?} gave {s:?}");
        ensure!(x + Some(y) == s && y + x == s, "sum of {a:?}, {b:?} depends on the form");
        let m = x * y;
        ensure!(Some(m) == q(mul(a, b)) && y * x == m, "{a:?} * {b:?} gave {m:?}");
        // numerator and denominator are recovered by scaling to an integer
        let den = Q::from_i(a.1 as i64).unwrap();
        ensure!(Some(x * den) == Q::from_i(a.0 as i64), "{a:?} times its denominator");
    }
    if let Some(x) = qa {
        ensure!(x + None == Some(x), "{a:?} + absent");
        ensure!(x * Q::one() == x && Q::one() * x == x, "{a:?} * 1");
        ensure!(x + x.additive_inverse() == None, "{a:?} minus itself is present");
        ensure!(Some(x.additive_inverse()) == q((-a.0, a.1)), "negative of {a:?}");
        let i = x.mult_inverse();
        ensure!(i * x == Q::one() && x * i == Q::one(), "{a:?} times its inverse");
        ensure!(i.mult_inverse() == x, "double inverse of {a:?}");
        ensure!(Some(i) == q(frac(a.1, a.0)), "inverse of {a:?} gave {i:?}");
    }
    let small = [a, b, c].iter().all(|x| x.0.abs() < 1 << 15 && x.1 < 1 << 15);
    if small {
        ensure!(qadd(qadd(qa, qb), qc) == qadd(qa, qadd(qb, qc)), "associativity of + on {a:?} {b:?} {c:?}");
        ensure!(qadd(qadd(qa, qb), qc) == q(add(add(a, b), c)), "{a:?} + {b:?} + {c:?}");
        if let (Some(x), Some(y), Some(z)) = (qa, qb, qc) {
            ensure!((x * y) * z == x * (y * z), "associativity of * on {a:?} {b:?} {c:?}");
            ensure!((y + z).map(|s| x * s) == x * y + x * z, "distributivity on {a:?} {b:?} {c:?}");
        }
    }
    let s = add(a, b);
    obs.class_if(s.0 == 0, "sum is zero");
    obs.class_if(s.1 < a.1 * b.1 && s.0 != 0, "sum reduces");
    obs.class_if(a.0 < 0 || b.0 < 0, "a negative operand");
    obs.class_if(!small, "large components");
    obs.nontrivial = a.1 > 1 && b.1 > 1 && a.0 != 0 && b.0 != 0;
    Ok(())
}
fn q_strat() -> BoxedStrategy<QCase> {
    let part = prop_oneof![
        4 => (-12i64..13, 1i64..13),
        2 => (-300i64..300, 1i64..300),
        1 => (-(1i64 << 30)..(1i64 << 30), 1i64..(1 << 30)),
        1 => (0u32..30, 0u32..30, any::<bool>()).prop_map(|(x, y, s)| (if s { -(1i64 << x) } else { 1i64 << x }, 1i64 << y)),
    ];
    (part.clone(), part.clone(), part, 0u8..8)
        .prop_map(|(a, b, c, k)| match k {
            0 => QCase { a, b: (-a.0, a.1), c },
            1 => QCase { a, b: a, c },
            2 => QCase { a, b: (b.0, a.1), c },
            3 if a.0 != 0 && a.0.abs() < 1 << 30 => QCase { a, b: (a.1 * a.0.signum(), a.0.abs()), c },
            _ => QCase { a, b, c },
        })
        .boxed()
}

/// Exhaustive small fractions.
fn q_small(case: &(i64, i64), obs: &mut Obs) -> Result<(), String> {
    for n in -7i64..8 {
        for d in 1i64..8 {
            qcheck(&QCase { a: *case, b: (n, d), c: (d, n.abs() + 1) }, obs)?;
        }
    }
    obs.classes.clear();
    obs.nontrivial = case.0 != 0 && case.1 > 1;
    Ok(())
}

pub fn c06() -> Vec<Box<dyn AnyTest>> {
    vec![
        Box::new(Enum::<(u64, u8)> {
            name: "prime-fields-exhaustive",
            rule: "every pair and every triple of elements of Z2, Z3, Z5, Z7, Z11, Z13 against integers modulo p; one case per field and arity",
            cases: |_| [2, 3, 5, 7, 11, 13].into_iter().flat_map(|p| [(p, 0), (p, 1)]).collect(),
            check: c06_zp,
            shards: 8,
        }),
        Box::new(Enum::<(i64, i64)> {
            name: "rationals-small-exhaustive",
            rule: "every pair of fractions with numerator in -7..7 and denominator in 1..7; one case per first fraction",
            cases: |_| (-7..8).flat_map(|n| (1..8).map(move |d| (n, d))).collect(),
            check: q_small,
            shards: 8,
        }),
        Box::new(Test::<QCase> {
            name: "rationals-random",
            cases: (1_600_000, 19_200_000),
            rule: "triples of fractions (small, medium, up to 2^30, powers of two; forced negatives, equal operands, common denominators, reciprocals) against exact 128-bit fractions; non-trivial when both first operands are non-zero and non-integral",
            strat: |_| q_strat(),
            check: qcheck,
            shards: 8,
        }),
    ]
}

// ---------------------------------------------------------------- C07

/// Three matrices over one index set: `a` carries filtration and basis.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TriCase {
    a: Mat,
    b: Vec<Vec<(i64, usize)>>,
    c: Vec<Vec<(i64, usize)>>,
    /// Basis and filtration of b.
    b_order: Vec<u8>,
    b_fil: Vec<i64>,
}
fn pool() -> BoxedStrategy<Vec<Vec<(i64, usize)>>> {
    prop::collection::vec(prop::collection::vec((-3i64..4, 0usize..4096), 0..5), 16).boxed()
}
fn tri(lo: usize, hi: usize) -> BoxedStrategy<TriCase> {
    let a = prop_oneof![150 => mats_sized(lo, hi, 4, true), 1 => mats_sized(14, 40, 6, true), 1 => mats_sized(1, 6, 60, true), 1 => mats_long(10, 200, 500, true)];
    (a, pool(), pool(), prop::collection::vec(any::<u8>(), 16), prop::collection::vec(0i64..4, 16))
        .prop_map(|(a, b, c, b_order, b_fil)| {
            let n = a.n();
            let cut = |x: Vec<Vec<(i64, usize)>>| -> Vec<Vec<(i64, usize)>> {
                x.into_iter().cycle().take(n).map(|c| c.into_iter().map(|(v, r)| (v, r % n)).collect()).collect()
            };
            TriCase { b: cut(b), c: cut(c), b_order: (0..n).map(|i| b_order[i % 16]).collect(), b_fil: (0..n).map(|i| b_fil[i % 16]).collect(), a }
        })
        .boxed()
}
impl TriCase {
    fn bm(&self) -> Mat {
        let mut ord: Vec<usize> = (0..self.a.n()).collect();
        ord.sort_by_key(|i| self.b_order[*i]);
        Mat { cols: self.b.clone(), fil: self.b_fil.clone(), basis: vec![ord, vec![], vec![]], ..self.a.clone() }
    }
    fn cm(&self) -> Mat {
        Mat { cols: self.c.clone(), ..self.a.clone() }
    }
}
/// Apply a matrix (as a map of formal sums) to a formal sum.
fn apply<F: TF>(m: &Mat, v: &BTreeMap<Lab, F>, id: &std::collections::HashMap<Lab, usize>) -> BTreeMap<Lab, F> {
    let mut out = BTreeMap::new();
    for (r, c) in v {
        add_terms(&mut out, m.terms::<F>(id[r]).into_iter().map(|(x, r2)| (x * *c, r2)));
    }
    out
}
fn plus<F: TF>(mut a: BTreeMap<Lab, F>, b: BTreeMap<Lab, F>) -> BTreeMap<Lab, F> {
    add_terms(&mut a, b.into_iter().map(|(r, c)| (c, r)));
    a
}
fn c07_f<F: TF>(case: &TriCase, obs: &mut Obs) -> Result<(), String> {
    let n = case.a.n();
    let (ma, mb, mc) = (case.a.clone(), case.bm(), case.cm());
    let id: std::collections::HashMap<Lab, usize> = (0..n).map(|i| (ma.lab(i), i)).collect();
    let (a, b, c) = (ma.raw::<F>(), mb.raw::<F>(), mc.raw::<F>());
    let ab = product(&a, &b);
    let bc = product(&b, &c);
    let ab_c = product(&ab, &c);
    let a_bc = product(&a, &bc);
    let s = sum(&a, &b);
    let s2 = sum(&b, &a);
    let s3 = sum(&s, &c);
    let s3b = sum(&a, sum(&b, &c));
    let sc = product(&s, &c);
    let sc2 = sum(product(&a, &c), product(&b, &c));
    let cs = product(&c, &s);
    let cs2 = sum(product(&c, &a), product(&c, &b));
    let owned = product(ma.raw::<F>(), mb.raw::<F>());
    ensure!(
        a.total_reqs.get() + b.total_reqs.get() + c.total_reqs.get() == 0,
        "building products and sums already requested columns: {:?} {:?} {:?}",
        a.reqs.borrow(), b.reqs.borrow(), c.reqs.borrow()
    );
    let mut cancels = false;
    let mut nonzero = false;
    for i in 0..n {
        let l = ma.lab(i);
        let (ta, tb, tc) = (ma.truth::<F>(i), mb.truth::<F>(i), mc.truth::<F>(i));
        let want_ab = apply(&ma, &tb, &id);
        let got = vec_of(&ab, l);
        ensure!(got == want_ab, "column {l:?} of A*B is {got:?}, expected {want_ab:?}");
        ensure!(vec_of(&owned, l) == want_ab, "column {l:?} of the owned product differs");
        let by_macro = sum_terms(phlite::matrix_col_product!(a, b.column(l)));
        ensure!(by_macro == want_ab, "matrix_col_product gave {by_macro:?}, expected {want_ab:?}");
        let want_s = plus(ta.clone(), tb.clone());
        let got = vec_of(&s, l);
        ensure!(got == want_s, "column {l:?} of A+B is {got:?}, expected {want_s:?}");
        ensure!(vec_of(&s2, l) == want_s, "column {l:?} of B+A differs");
        let w3 = plus(want_s.clone(), tc.clone());
        ensure!(vec_of(&s3, l) == w3 && vec_of(&s3b, l) == w3, "nested sums differ on {l:?}");
        let w = apply(&ma, &apply(&mb, &tc, &id), &id);
        let (g1, g2) = (vec_of(&ab_c, l), vec_of(&a_bc, l));
        ensure!(g1 == w && g2 == w, "column {l:?}: (AB)C = {g1:?}, A(BC) = {g2:?}, expected {w:?}");
        let w = plus(apply(&ma, &tc, &id), apply(&mb, &tc, &id));
        ensure!(vec_of(&sc, l) == w && vec_of(&sc2, l) == w, "(A+B)C on {l:?}");
        let w = apply(&mc, &want_s, &id);
        ensure!(vec_of(&cs, l) == w && vec_of(&cs2, l) == w, "C(A+B) on {l:?}");
        // enriched columns of products carry the left factor's filtration
        for (name, ents) in [("A*B", entries_of(&ab, l)), ("(A*B)*C", entries_of(&ab_c, l)), ("A*(B*C)", entries_of(&a_bc, l))] {
            for (_, r, f) in ents.iter() {
                ensure!(*f == Fv(ma.fil[id[r]]), "{name} column {l:?}: row {r:?} carries {f:?}, the left factor gives {}", ma.fil[id[r]]);
            }
            let v = sum_terms(ents.into_iter().map(|(c, r, _)| (c, r)));
            let w = if name == "A*B" { vec_of(&ab, l) } else { vec_of(&ab_c, l) };
            ensure!(v == w, "{name} enriched column {l:?} sums to {v:?}, plain column to {w:?}");
        }
        ensure!(ab.filtration_value(l) == Fv(ma.fil[i]) && a_bc.filtration_value(l) == Fv(ma.fil[i]), "filtration of the product at {l:?}");
        cancels |= ab.column(l).count() > want_ab.len();
        nonzero |= !want_ab.is_empty();
    }
    let want: Vec<Lab> = mb.elems().into_iter().map(|i| mb.lab(i)).collect();
    ensure!(list_of(&*ab.basis()) == want, "basis of A*B is {:?}, the right factor has {want:?}", list_of(&*ab.basis()));
    let wantc: Vec<Lab> = mc.elems().into_iter().map(|i| mc.lab(i)).collect();
    ensure!(list_of(&*ab_c.basis()) == wantc && list_of(&*a_bc.basis()) == wantc, "basis of nested products");
    // factors with different index types
    let va = VecVecMatrix::<F, Lab>::new((0..n).map(|i| ma.terms::<F>(i)));
    let hm: FxHashMap<Lab, Vec<(F, usize)>> = (0..n).map(|i| (mb.lab(i), mb.terms::<F>(i).into_iter().map(|(c, r)| (c, id[&r])).collect())).collect();
    let vb = MapVecMatrix::from(&hm);
    let p = product(&va, &vb);
    for i in 0..n {
        let w = apply(&ma, &mb.truth::<F>(i), &id);
        let g = vec_of(&p, ma.lab(i));
        ensure!(g == w, "stored factors: column {i} of the product is {g:?}, expected {w:?}");
    }
    obs.class_if(cancels, "terms combine or cancel in A*B");
    obs.nontrivial = cancels && nonzero;
    Ok(())
}
fn c07(case: &TriCase, obs: &mut Obs) -> Result<(), String> {
    with_field!(case.a.field, c07_f::<_>(case, obs))
}
pub fn c07_tests() -> Vec<Box<dyn AnyTest>> {
    vec![Box::new(Test::<TriCase> {
        name: "products-and-sums",
        cases: (800_000, 9_600_000),
        rule: "three random sparse matrices over one index set and 8 fields (repeated and cancelling terms included): products, sums, nestings, distributivity, enriched columns, bases and request counters against plain matrix arithmetic; non-trivial when terms combine in a non-zero product",
        strat: |t| if t == Tier::Quick { prop_oneof![tri(1, 4), tri(2, 9)].boxed() } else { tri(1, 14) },
        check: c07,
        shards: 8,
    })]
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EqCase {
    a: Mat,
    /// How the second matrix presents each column: (kind, position, amount, seed).
    how: Vec<(u8, u16, i64, u64)>,
    fil2: Vec<i64>,
}
fn second(case: &EqCase) -> Mat {
    let a = &case.a;
    let n = a.n();
    let mut cols = a.cols.clone();
    for i in 0..n {
        let (kind, pos, amount, seed) = case.how[i];
        let mut rs = Rs(seed);
        let col = &mut cols[i];
        match kind {
            // same vector: split a term
            0 if !col.is_empty() => {
                let k = pos as usize % col.len();
                let (c, r) = col[k];
                col[k] = (c - amount, r);
                col.push((amount, r));
            }
            // same vector: cancelling pair
            1 if n > 0 => {
                let r = pos as usize % n;
                col.push((amount, r));
                col.push((-amount, r));
            }
            // one coefficient differs by `amount`
            2 if !col.is_empty() => {
                let k = pos as usize % col.len();
                col[k].0 += amount;
            }
            // one extra term
            3 if n > 0 => col.push((amount, pos as usize % n)),
            // a term is missing
            4 if !col.is_empty() => {
                let k = pos as usize % col.len();
                col.remove(k);
            }
            // a term moves to another row
            5 if !col.is_empty() => {
                let k = pos as usize % col.len();
                col[k].1 = (col[k].1 + 1) % n;
            }
            6 => {
                // only the smallest rows are kept: a prefix in heap order
                let m = col.iter().map(|t| a.label[t.1]).max();
                col.retain(|t| Some(a.label[t.1]) != m);
            }
            7 => {
                let m = col.iter().map(|t| a.label[t.1]).min();
                col.retain(|t| Some(a.label[t.1]) != m);
            }
            _ => {}
        }
        rs.shuffle(col);
    }
    Mat { cols, ..a.clone() }
}
fn c11_f<F: TF>(case: &EqCase, obs: &mut Obs) -> Result<(), String> {
    let (ma, mb) = (&case.a, second(case));
    let n = ma.n();
    let id: std::collections::HashMap<Lab, usize> = (0..n).map(|i| (ma.lab(i), i)).collect();
    let (a, b) = (ma.raw::<F>(), mb.raw::<F>());
    // a different filtration, of another type, on the second
    let bf = (&b).with_filtration(|r: Lab| Reverse(Fv(case.fil2[id[&r]])));
    let bc = (&b).consolidate();
    let (mut yes, mut no) = (0, 0);
    for i in 0..n {
        let l = ma.lab(i);
        let want = ma.truth::<F>(i) == mb.truth::<F>(i);
        let msg = || format!("column {l:?}: {:?} and {:?} are {}equal", ma.truth::<F>(i), mb.truth::<F>(i), if want { "" } else { "not " });
        ensure!(a.eq_on_col(&b, l) == want, "{}", msg());
        ensure!(b.eq_on_col(&a, l) == want, "{} (arguments swapped)", msg());
        ensure!(a.eq_on_col(&bf, l) == want && bf.eq_on_col(&a, l) == want, "{} (filtration attached)", msg());
        ensure!(a.eq_on_col(&bc, l) == want && bc.eq_on_col(&&a, l) == want, "{} (consolidated)", msg());
        ensure!(a.eq_on_col(&a, l), "column {l:?} differs from itself");
        if want && case.how[i].0 < 2 {
            yes += 1;
        }
        if !want {
            no += 1;
        }
    }
    obs.class_if(yes > 0, "equal with different presentation");
    obs.class_if(no > 0, "different");
    obs.nontrivial = yes > 0 || no > 0;
    Ok(())
}
fn c11(case: &EqCase, obs: &mut Obs) -> Result<(), String> {
    with_field!(case.a.field, c11_f::<_>(case, obs))
}
pub fn c11_tests() -> Vec<Box<dyn AnyTest>> {
    vec![Box::new(Test::<EqCase> {
        name: "eq-on-col",
        cases: (1_200_000, 14_400_000),
        rule: "a random matrix and a second one obtained per column by shuffling, splitting or cancelling terms, changing a coefficient, adding, moving or dropping a term, or dropping the first or last row; truth from exact sums; non-trivial when some pair is equal in another presentation or differs",
        strat: |t| {
            (rare(mats_sized(1, if t == Tier::Quick { 8 } else { 16 }, 6, true), true), prop::collection::vec((0u8..9, any::<u16>(), -3i64..4, any::<u64>()), 16), prop::collection::vec(-3i64..4, 16))
                .prop_map(|(a, how, fil2)| EqCase { how: (0..a.n()).map(|i| how[i % 16]).collect(), fil2: (0..a.n()).map(|i| fil2[i % 16]).collect(), a })
                .boxed()
        },
        check: c11,
        shards: 8,
    })]
}

// ---------------------------------------------------------------- C13

fn c13_f<F: TF>(m: &Mat, obs: &mut Obs) -> Result<(), String> {
    let n = m.n();
    let cols: Vec<Vec<(F, Lab)>> = (0..n).map(|i| m.terms::<F>(i)).collect();
    let ones: Vec<Vec<Lab>> = cols.iter().map(|c| c.iter().map(|t| t.1).collect()).collect();
    let v_iter = VecVecMatrix::<F, Lab>::new(cols.iter().map(|c| c.iter().copied()));
    let v_vec = VecVecMatrix::<F, Lab>::new(cols.clone());
    let v_own: VecVecMatrix<F, Lab> = cols.clone().into();
    let v_ref: VecVecMatrix<F, Lab> = (&cols).into();
    let v_cow: VecVecMatrix<F, Lab> = Cow::Borrowed(&cols).into();
    let v_cowo: VecVecMatrix<F, Lab> = Cow::<Vec<Vec<(F, Lab)>>>::Owned(cols.clone()).into();
    let v_one = VecVecMatrix::<F, Lab>::new_all_one(ones.clone());
    let v_one2 = VecVecMatrix::<F, Lab>::new_all_one(ones.iter().map(|c| c.iter().copied()));
    let hm: FxHashMap<Lab, Vec<(F, Lab)>> = (0..n).map(|i| (m.lab(i), cols[i].clone())).collect();
    let h_ref = MapVecMatrix::from(&hm);
    let h_own = MapVecMatrix::from(hm.clone());
    let order: Vec<usize> = m.elems().into_iter().chain(0..n).chain((0..n).rev()).collect();
    for i in order {
        let want = &cols[i];
        for (name, v) in [("iterators", &v_iter), ("vectors", &v_vec), ("an owned list", &v_own), ("a borrowed list", &v_ref), ("Cow::Borrowed", &v_cow), ("Cow::Owned", &v_cowo)] {
            let got: Vec<(F, Lab)> = v.column(i).collect();
            ensure!(same_multiset(&got, want), "matrix built from {name}: column {i} is {got:?}, given {want:?}");
            ensure!(list_of(&*v.basis()) == (0..n).collect::<Vec<_>>(), "matrix built from {name}: basis {:?}", list_of(&*v.basis()));
        }
        let want1: Vec<(F, Lab)> = ones[i].iter().map(|r| (F::one(), *r)).collect();
        for v in [&v_one, &v_one2] {
            let got: Vec<(F, Lab)> = v.column(i).collect();
            ensure!(same_multiset(&got, &want1), "all-ones matrix: column {i} is {got:?}, given {want1:?}");
            ensure!(ColBasis::size(&*v.basis()) == n, "all-ones matrix: basis size");
        }
        for h in [&h_ref, &h_own] {
            let got: Vec<(F, Lab)> = h.column(m.lab(i)).collect();
            ensure!(same_multiset(&got, want), "matrix by key: column {i} is {got:?}, given {want:?}");
        }
    }
    if F::TAG == Fld::Z2 {
        let s = SimpleZ2Matrix::new_all_one((0..n).map(|i| m.cols[i].iter().map(|t| t.1)));
        for i in 0..n {
            let got: Vec<usize> = s.column(i).map(|t| t.1).collect();
            let want: Vec<usize> = m.cols[i].iter().map(|t| t.1).collect();
            ensure!(same_multiset(&got, &want), "SimpleZ2Matrix: column {i} is {got:?}, given {want:?}");
        }
        ensure!(list_of(&*s.basis()) == (0..n).collect::<Vec<_>>(), "SimpleZ2Matrix: basis");
    }
    let sb = StandardBasis::new(n);
    ensure!(ColBasis::size(&sb) == n && list_of(&sb) == (0..n).collect::<Vec<_>>(), "standard basis of size {n}: {:?}", list_of(&sb));
    let shared = cols.iter().any(|c| c.iter().enumerate().any(|(k, t)| c[..k].iter().any(|u| u.1 == t.1)));
    obs.class_if(cols.iter().any(|c| c.is_empty()), "an empty column");
    obs.class_if(shared, "a repeated row");
    obs.nontrivial = cols.iter().filter(|c| !c.is_empty()).count() >= 2;
    Ok(())
}
fn c13(m: &Mat, obs: &mut Obs) -> Result<(), String> {
    with_field!(m.field, c13_f::<_>(m, obs))
}
pub fn c13_tests() -> Vec<Box<dyn AnyTest>> {
    vec![Box::new(Test::<Mat> {
        name: "stored-matrices",
        cases: (800_000, 9_600_000),
        rule: "random column lists (empty columns and repeated rows included) stored by every construction route, each column read three times; non-trivial when two columns are non-empty",
        strat: mats,
        check: c13,
        shards: 8,
    })]
}

// ---------------------------------------------------------------- C14

fn c14_f<F: TF>(case: &TriCase, obs: &mut Obs) -> Result<(), String> {
    let (ma, mb) = (&case.a, case.bm());
    let n = ma.n();
    let (a, b) = (ma.raw::<F>(), mb.raw::<F>());
    let ka = (&a).consolidate();
    let kk = (&ka).consolidate();
    let p = product(&a, &b);
    let kp = (&p).consolidate();
    let mut changed = false;
    for i in 0..n {
        let l = ma.lab(i);
        let want = ma.truth::<F>(i);
        for (name, got) in [("consolidated", ka.column(l).collect::<Vec<_>>()), ("consolidated twice", kk.column(l).collect())] {
            let mut rows: Vec<Lab> = got.iter().map(|t| t.1).collect();
            rows.sort();
            let len = rows.len();
            rows.dedup();
            ensure!(rows.len() == len, "{name}: column {l:?} repeats a row: {got:?}");
            ensure!(sum_terms(got.clone()) == want && got.len() == want.len(), "{name}: column {l:?} is {got:?}, the vector is {want:?}");
        }
        ensure!(ka.eq_on_col(&&a, l), "the consolidation differs from the matrix on {l:?}");
        let gp: Vec<_> = kp.column(l).collect();
        let wp = vec_of(&p, l);
        ensure!(gp.len() == wp.len() && sum_terms(gp.clone()) == wp, "consolidated product: column {l:?} is {gp:?}, the vector is {wp:?}");
        ensure!(ka.filtration_value(l) == Fv(ma.fil[i]) && kk.filtration_value(l) == Fv(ma.fil[i]), "filtration of the consolidation at {l:?}");
        let mut es = entries_of(&ka, l);
        es.sort_by_key(|e| e.1);
        let we: Vec<(F, Lab, Fv)> = want.iter().map(|(r, c)| (*c, *r, a.filtration_value(*r))).collect();
        ensure!(es == we, "enriched consolidated column {l:?}: {es:?}, expected {we:?}");
        changed |= ma.terms::<F>(i).len() != want.len();
    }
    let want: Vec<Lab> = ma.elems().into_iter().map(|i| ma.lab(i)).collect();
    ensure!(list_of(&*ka.basis()) == want && list_of(&*kk.basis()) == want, "basis of the consolidation");
    let wantb: Vec<Lab> = mb.elems().into_iter().map(|i| mb.lab(i)).collect();
    ensure!(list_of(&*kp.basis()) == wantb, "basis of the consolidated product");
    obs.nontrivial = changed;
    Ok(())
}
fn c14(case: &TriCase, obs: &mut Obs) -> Result<(), String> {
    with_field!(case.a.field, c14_f::<_>(case, obs))
}
pub fn c14_tests() -> Vec<Box<dyn AnyTest>> {
    vec![Box::new(Test::<TriCase> {
        name: "consolidation",
        cases: (800_000, 9_600_000),
        rule: "random matrices with repeated and cancelling terms, and products of two of them, consolidated once and twice; non-trivial when some column had terms that combine",
        strat: |t| tri(1, if t == Tier::Quick { 8 } else { 14 }),
        check: c14,
        shards: 8,
    })]
}

fn registry(p: &str) -> Vec<Box<dyn AnyTest>> {
    let mut tests = match p {
        "C05" => c05(),
        "C06" => return c06(),
        "C07" => c07_tests(),
        "C11" => c11_tests(),
        "C13" => c13_tests(),
        "C14" => c14_tests(),
        _ => return vec![],
    };
    tests.push(pbt::scale::scale(p));
    if p == "C07" {
        tests.push(pbt::virt::virt(p));
    }
    tests
}
fn assumptions(p: &str) -> Vec<&'static str> {
    match p {
        "C06" => vec!["fractions whose unreduced intermediate values leave the machine word are outside the domain"],
        "C05" => vec!["equal row indices carry equal filtration values (documented precondition)"],
        _ => vec!["coefficient arithmetic is exact (decided by C06); rational cases that overflow are discarded"],
    }
}
fn main() {
    pbt::driver::run(registry, assumptions)
}
