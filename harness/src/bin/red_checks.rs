//! C01-C04: the reduction algorithms.
use pbt::complexes::*;
use pbt::fields::*;
use pbt::fw::*;
use pbt::mats::*;
use pbt::redu::*;
use pbt::scale::*;
use pbt::{ensure, with_few, with_field};
use phlite::fields::NonZeroCoefficient;
use phlite::matrices::combinators::product;
use phlite::matrices::{BasisElement, ColBasis, HasColBasis, HasRowFiltration, MatrixOracle, SquareMatrix};
use phlite::reduction::{read_off_diagram, standard_algo, standard_algo_with_diagram, ClearedReductionMatrix, Diagram};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use std::hash::Hash;

// ---------------------------------------------------------------- C01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SCase {
    m: Mat,
    /// Which presentation of the matrix is reduced.
    mode: u8,
}
/// `d` is the (budgeted) matrix to reduce, `spec` an untouched copy.
fn std_valid<M, S>(name: &str, d: M, spec: &S, obs: &mut Obs) -> Result<(), String>
where
    M: SquareMatrix + HasRowFiltration + HasColBasis,
    M: MatrixOracle<ColT: Hash + Debug + 'static, CoefficientField: phlite::fields::Invertible + Debug + 'static>,
    S: MatrixOracle<CoefficientField = M::CoefficientField, ColT = M::ColT, RowT = M::ColT> + HasRowFiltration,
{
    let order = list_of(&*d.basis());
    let v = standard_algo(d);
    let pos: HashMap<M::ColT, usize> = order.iter().cloned().enumerate().map(|(i, e)| (e, i)).collect();
    let mut owner: BTreeMap<M::ColT, M::ColT> = BTreeMap::new();
    let mut adds = 0;
    let mut zero = 0;
    for (i, e) in order.iter().enumerate() {
        let col = vec_of(&v, e.clone());
        ensure!(
            col.get(e) == Some(&M::CoefficientField::one()),
            "{name}: column {e:?} of V is {col:?}; its own element does not have coefficient one"
        );
        for r in col.keys() {
            ensure!(
                r == e || pos.get(r).is_some_and(|p| *p < i),
                "{name}: column {e:?} of V is {col:?}, which involves {r:?}, not an earlier basis element"
            );
        }
        adds = adds.max(col.len() - 1);
        let red = apply(spec, &col);
        match leading(spec, &red) {
            None => zero += 1,
            Some(l) => {
                if let Some(o) = owner.insert(l.clone(), e.clone()) {
                    return Err(format!("{name}: columns {o:?} and {e:?} of D·V both have leading row {l:?}"));
                }
            }
        }
        let via = vec_of(&product(spec, &v), e.clone());
        ensure!(via == red, "{name}: product(D, V) column {e:?} is {via:?}, summing the terms gives {red:?}");
    }
    obs.class_if(adds >= 2, "a column reduced by two others");
    obs.class_if(adds >= 4, "a column reduced by four others");
    obs.class_if(zero > 0 && adds > 0, "a column reduced to zero");
    obs.nontrivial = adds >= 1 && !owner.is_empty();
    Ok(())
}
fn c01_f<F: TF>(case: &SCase, obs: &mut Obs) -> Result<(), String> {
    let m = &case.m;
    let raw = m.raw::<F>().budgeted();
    let spec = m.raw::<F>();
    match case.mode % 8 {
        0 | 1 => std_valid("matrix", &raw, &spec, obs),
        2 => std_valid("matrix with trivial filtration", (&raw).with_trivial_filtration(), &(&spec).with_trivial_filtration(), obs),
        3 => std_valid("reversed matrix", (&raw).reverse(), &(&spec).reverse(), obs),
        4 => std_valid("cached matrix", (&raw).cache_cols(), &spec, obs),
        5 => std_valid("consolidated matrix", (&raw).consolidate(), &spec, obs),
        6 => std_valid("matrix, moved", raw, &spec, obs),
        _ => {
            let d = case.mode as usize / 8 % 3;
            obs.class("restricted to one dimension");
            std_valid("sub-matrix", (&raw).sub_matrix_in_dimension(d), &spec, obs)
        }
    }
}
fn c01(case: &SCase, obs: &mut Obs) -> Result<(), String> {
    obs.class(format!("{:?}", case.m.field));
    with_field!(case.m.field, c01_f::<_>(case, obs))
}
fn c01_cpx_f<F: TF>(c: &Cpx, obs: &mut Obs) -> Result<(), String> {
    std_valid("boundary", &c.raw::<F>().budgeted(), &c.raw::<F>(), obs)?;
    let nt = obs.nontrivial;
    let co = c.raw_co::<F>().budgeted();
    let spec = c.raw_co::<F>();
    std_valid("reversed coboundary", (&co).reverse(), &(&spec).reverse(), obs)?;
    obs.nontrivial |= nt;
    Ok(())
}
fn c01_cpx(c: &Cpx, obs: &mut Obs) -> Result<(), String> {
    with_field!(c.field, c01_cpx_f::<_>(c, obs))
}
fn scases(lo: usize, hi: usize, dens: usize) -> BoxedStrategy<SCase> {
    (mats_sized(lo, hi, dens, false), 0u8..24).prop_map(|(m, mode)| SCase { m, mode }).boxed()
}
/// Every 3x3 matrix over Z2 (with all filtrations of its rows by two values) and Z3 (trivial ones).
fn small_mats(tier: Tier) -> Vec<SCase> {
    let mut out = vec![];
    let mut push = |field, q: u64, n: usize, fils: u64| {
        for code in 0..q.pow((n * n) as u32) {
            for fc in 0..fils {
                let mut k = code;
                let mut cols = vec![vec![]; n];
                for (i, c) in cols.iter_mut().enumerate() {
                    let _ = i;
                    for r in 0..n {
                        let x = (k % q) as i64;
                        k /= q;
                        if x != 0 {
                            c.push((x, r));
                        }
                    }
                }
                let fil = (0..n).map(|i| (fc >> i & 1) as i64).collect();
                out.push(SCase { m: Mat { field, label: (0..n as u32).collect(), fil, cols, basis: vec![(0..n).collect(), vec![], vec![]] }, mode: 0 });
            }
        }
    };
    push(Fld::Z2, 2, 3, 8);
    push(Fld::Z3, 3, 3, if tier == Tier::Quick { 1 } else { 8 });
    push(Fld::Q, 3, 2, 4);
    push(Fld::Z5, 5, 2, 4);
    if tier == Tier::Thorough {
        push(Fld::Z2, 2, 4, 16);
    }
    out
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RCase {
    c: Cpx,
    /// Chooses the range of dimensions.
    a: u8,
    b: u8,
    /// Reduce the reversed coboundary instead of the boundary.
    co: bool,
}
impl RCase {
    fn range(&self) -> Vec<usize> {
        let k = self.c.max_dim() + 1;
        let (x, y) = (self.a as usize % k, self.b as usize % k);
        // the whole range half of the time
        if self.a >= 128 {
            (0..k).collect()
        } else {
            (x.min(y)..=x.max(y)).collect()
        }
    }
}
fn rcases(tier: Tier) -> BoxedStrategy<RCase> {
    (complexes(tier), any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(c, a, b, co)| RCase { c, a, b, co }).boxed()
}

fn clear_valid<'a, M>(
    name: &str,
    d: &M,
    v: &ClearedReductionMatrix<'a, M>,
    diag: &Diagram<M::ColT>,
    dims: &[Vec<M::ColT>],
    budget: impl Fn(),
    obs: &mut Obs,
) -> Result<(), String>
where
    M: SquareMatrix + HasRowFiltration + HasColBasis + Clone,
    M: MatrixOracle<ColT: Hash + Debug + 'static, CoefficientField: phlite::fields::Invertible + Debug + 'static>,
{
    let mut owner: BTreeMap<M::ColT, M::ColT> = BTreeMap::new();
    let mut rest = 0;
    let mut zeros: BTreeSet<M::ColT> = BTreeSet::new();
    for els in dims {
        let pos: HashMap<M::ColT, usize> = els.iter().cloned().enumerate().map(|(i, e)| (e, i)).collect();
        for (i, e) in els.iter().enumerate() {
            budget();
            let col = vec_of(v, e.clone());
            ensure!(col.contains_key(e), "{name}: column {e:?} of V is {col:?}, without its own element");
            for r in col.keys() {
                ensure!(r == e || pos.get(r).is_some_and(|p| *p < i), "{name}: column {e:?} of V is {col:?}, which involves {r:?}, not an earlier element of its dimension");
            }
            rest = rest.max(col.len() - 1);
            let red = apply(d, &col);
            match leading(d, &red) {
                None => {
                    zeros.insert(e.clone());
                }
                Some(l) => {
                    if let Some(o) = owner.insert(l.clone(), e.clone()) {
                        return Err(format!("{name}: columns {o:?} and {e:?} of D·V both have leading row {l:?}"));
                    }
                }
            }
            let cyc = v.col_is_cycle(e.clone());
            ensure!(cyc == red.is_empty(), "{name}: col_is_cycle({e:?}) is {cyc}, the column of D·V is {red:?}");
            let via = vec_of(&product(d, v), e.clone());
            ensure!(via == red, "{name}: product(D, V) column {e:?} is {via:?}, summing the terms gives {red:?}");
        }
    }
    let mut cleared = 0;
    for (l, e) in owner.iter() {
        budget();
        let red = apply(d, &vec_of(v, l.clone()));
        ensure!(red.is_empty(), "{name}: {l:?} is the leading row of column {e:?}, its own column of D·V is {red:?}");
        ensure!(v.col_is_cycle(l.clone()), "{name}: {l:?} is the leading row of column {e:?}, col_is_cycle denies it");
        cleared += usize::from(zeros.contains(l));
    }
    let _ = diag;
    obs.class_if(cleared > 0, "a reduced element was cleared");
    obs.class_if(rest >= 2, "a column of V with three terms");
    obs.nontrivial = rest >= 1 && !owner.is_empty();
    Ok(())
}
fn c02_f<F: TF>(case: &RCase, obs: &mut Obs) -> Result<(), String> {
    let c = &case.c;
    c.validate()?;
    let dims = case.range();
    obs.class_if(dims.len() <= c.max_dim(), "partial range of dimensions");
    if !case.co {
        obs.class("boundary");
        let raw = c.raw::<F>().budgeted();
        let (v, diag) = ClearedReductionMatrix::build_with_diagram(&raw, dims.iter().rev().copied());
        let els: Vec<Vec<Lab>> = dims.iter().map(|d| c.order(*d).into_iter().map(|i| c.lab(i)).collect()).collect();
        clear_valid("boundary", &&raw, &v, &diag, &els, || raw.reset(), obs)?;
        // the basis of V is the basis of D
        ensure!(list_of(&*v.basis()) == raw.basis.total, "V has another basis than D");
    } else {
        obs.class("coboundary");
        let raw = c.raw_co::<F>().budgeted();
        let m = (&raw).reverse();
        let (v, diag) = ClearedReductionMatrix::build_with_diagram(&m, dims.iter().copied());
        let els: Vec<Vec<Reverse<Lab>>> = dims.iter().map(|d| c.order(*d).into_iter().rev().map(|i| Reverse(c.lab(i))).collect()).collect();
        clear_valid("reversed coboundary", &&m, &v, &diag, &els, || raw.reset(), obs)?;
        ensure!(list_of(&*v.basis()) == raw.basis.total.iter().rev().map(|l| Reverse(*l)).collect::<Vec<_>>(), "V has another basis than D");
    }
    Ok(())
}
fn c02(case: &RCase, obs: &mut Obs) -> Result<(), String> {
    with_field!(case.c.field, c02_f::<_>(case, obs))
}

// ---------------------------------------------------------------- C03, C04

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DCase {
    c: Cpx,
    a: u8,
    b: u8,
    /// Seed of a second presentation of the same columns.
    pres: u64,
}
fn dcases(tier: Tier) -> BoxedStrategy<DCase> {
    (complexes(tier), any::<u8>(), any::<u8>(), any::<u64>()).prop_map(|(c, a, b, pres)| DCase { c, a, b, pres }).boxed()
}

fn c03_f<F: TF>(case: &DCase, obs: &mut Obs) -> Result<(), String> {
    let c = &case.c;
    c.validate()?;
    let k = c.max_dim() + 1;
    let all: Vec<usize> = (0..k).collect();
    let want = c.ref_pairs(&all);
    interest(c, &want, obs);
    let range = RCase { c: c.clone(), a: case.a % 128, b: case.b, co: false }.range();
    let want_range = c.ref_pairs(&range);
    let second = Cpx { cols: present(&c.dims, &(0..c.n()).map(|i| c.boundary(i)).collect::<Vec<_>>(), case.pres), ..c.clone() };
    for (what, x) in [("", c), (" (other presentation of the columns)", &second)] {
        let raw = x.raw::<F>().budgeted();
        let (_, d) = standard_algo_with_diagram(&raw, false);
        same(&format!("standard algorithm{what}"), &ids(c, &d, false)?, &want)?;
        raw.reset();
        // one dimension at a time
        for dim in all.iter() {
            raw.reset();
            let (_, d) = standard_algo_with_diagram((&raw).sub_matrix_in_dimension(*dim), false);
            same(&format!("standard algorithm in dimension {dim}{what}"), &ids(c, &d, false)?, &c.ref_pairs(&[*dim]))?;
        }
        // all dimensions interleaved along the filtration
        let mut inter: Vec<usize> = (0..c.n()).collect();
        inter.sort_by_key(|i| (c.fil[*i], c.dims[*i], c.label[*i]));
        let list: Vec<Lab> = inter.into_iter().map(|i| c.lab(i)).collect();
        raw.reset();
        let (_, d) = standard_algo_with_diagram((&raw).with_basis(list), false);
        same(&format!("standard algorithm along the filtration{what}"), &ids(c, &d, false)?, &want)?;
        // clearing
        raw.reset();
        let (_, d) = ClearedReductionMatrix::build_with_diagram(&raw, all.iter().rev().copied());
        same(&format!("clearing{what}"), &ids(c, &d, false)?, &want)?;
        raw.reset();
        let (_, d) = ClearedReductionMatrix::build_with_diagram(&raw, range.iter().rev().copied());
        same(&format!("clearing in dimensions {range:?}{what}"), &ids(c, &d, false)?, &want_range)?;
    }
    Ok(())
}
fn c03(case: &DCase, obs: &mut Obs) -> Result<(), String> {
    with_field!(case.c.field, c03_f::<_>(case, obs))
}

fn c04_f<F: TF>(c: &Cpx, obs: &mut Obs) -> Result<(), String> {
    c.validate()?;
    let k = c.max_dim() + 1;
    let b = c.raw::<F>().budgeted();
    let cob = c.raw_co::<F>().budgeted();
    let co = (&cob).reverse();
    let base = {
        let (_, d) = ClearedReductionMatrix::build_with_diagram(&b, (0..k).rev());
        ids(c, &d, false)?
    };
    interest(c, &base, obs);
    b.reset();
    for rev in [false, true] {
        let v = standard_algo(&b);
        let d = read_off_diagram(&b, &v, rev);
        same(&format!("standard homology read with reverse_order={rev}, against clearing homology"), &ids(c, &d, false)?, &base)?;
        b.reset();
        let v = standard_algo(&co);
        let d = read_off_diagram(&co, &v, rev);
        same(&format!("standard cohomology read with reverse_order={rev}, against clearing homology"), &ids(c, &d, true)?, &base)?;
        cob.reset();
        let (_, d) = standard_algo_with_diagram(&co, rev);
        same(&format!("standard_algo_with_diagram for cohomology, reverse_order={rev}, against clearing homology"), &ids(c, &d, true)?, &base)?;
        cob.reset();
    }
    let (_, d) = ClearedReductionMatrix::build_with_diagram(&co, 0..k);
    same("clearing cohomology against clearing homology", &ids(c, &d, true)?, &base)?;
    Ok(())
}
fn c04(c: &Cpx, obs: &mut Obs) -> Result<(), String> {
    with_field!(c.field, c04_f::<_>(c, obs))
}

// ---------------------------------------------------------------- large complexes

fn big_c01_f<F: TF>(b: &Big, obs: &mut Obs) -> Result<(), String> {
    if b.n <= 2000 && b.shape & 64 != 0 {
        let m = big_mat(b);
        return std_valid("large matrix", &m.raw::<F>().budgeted(), &m.raw::<F>(), obs);
    }
    c01_cpx_f::<F>(&big_graph(b), obs)
}
fn big_c01(b: &Big, obs: &mut Obs) -> Result<(), String> {
    with_few!(b.field, big_c01_f::<_>(b, obs))
}
fn big_c02(b: &Big, obs: &mut Obs) -> Result<(), String> {
    let case = RCase { c: big_graph(b), a: (b.seed >> 8) as u8, b: (b.seed >> 16) as u8, co: b.shape & 64 != 0 };
    with_few!(b.field, c02_f::<_>(&case, obs))
}
fn big_c03(b: &Big, obs: &mut Obs) -> Result<(), String> {
    let case = DCase { c: big_graph(b), a: (b.seed >> 8) as u8, b: (b.seed >> 16) as u8, pres: 0 };
    with_few!(b.field, c03_f::<_>(&case, obs))
}
fn big_c04(b: &Big, obs: &mut Obs) -> Result<(), String> {
    with_few!(b.field, c04_f::<_>(&big_graph(b), obs))
}
fn big(cases: (u32, u32), strat: fn(Tier) -> BoxedStrategy<Big>, check: Check<Big>) -> Box<dyn AnyTest> {
    Box::new(Test::<Big> {
        name: "large",
        cases,
        rule: "paths, stars, trees and caterpillars of 30 to thousands of vertices, closed by up to four chords, some of the cycles filled (for C01 also matrices of up to 2000 columns or with one column of as many terms); non-trivial as in the other tests",
        strat,
        check,
        shards: 8,
    })
}

/// Keeps an unused bound out of the way of type inference.
#[allow(dead_code)]
fn _b<T: BasisElement, B: ColBasis<ElemT = T>>(_: &B) {}

fn registry(p: &str) -> Vec<Box<dyn AnyTest>> {
    let mut tests: Vec<Box<dyn AnyTest>> = match p {
        "C01" => vec![
            Box::new(Enum::<SCase> {
                name: "small-matrices",
                rule: "every 3x3 matrix over Z2 with every two-valued filtration of the rows, every 3x3 matrix over Z3, 2x2 matrices over Q and Z5; non-trivial when some column is reduced by another and some column stays non-zero",
                cases: small_mats,
                check: c01,
                shards: 8,
            }),
            Box::new(Test::<SCase> {
                name: "random-matrices",
                cases: (900_000, 10_800_000),
                rule: "random matrices with repeated and cancelling terms, basis order, filtration and labels independent of each other, possibly with a partial basis, as such, reversed, cached, consolidated, restricted or trivially filtered; non-trivial when some column is reduced by another and some column stays non-zero",
                strat: |t| {
                    let big = if t == Tier::Quick { 14 } else { 24 };
                    let long = (mats_long(10, 200, 300, false), 0u8..24).prop_map(|(m, mode)| SCase { m, mode });
                    prop_oneof![100 => scases(2, 6, 6), 100 => scases(4, 10, 4), 50 => scases(8, big, 4), 1 => scases(20, 60, 5), 1 => scases(2, 8, 60), 1 => scases(40, 90, 3), 1 => long].boxed()
                },
                check: c01,
                shards: 8,
            }),
            Box::new(Test::<Cpx> {
                name: "complexes",
                cases: (180_000, 2_160_000),
                rule: "boundary and reversed coboundary of random filtered complexes; non-trivial when some column is reduced by another and some column stays non-zero",
                strat: complexes,
                check: c01_cpx,
                shards: 8,
            }),
        ],
        "C02" => vec![Box::new(Test::<RCase> {
            name: "complexes",
            cases: (450_000, 5_400_000),
            rule: "boundary (dimensions descending) or reversed coboundary (ascending) of random filtered complexes over a random contiguous range of dimensions; non-trivial when some V column has two terms and some column of D·V is non-zero",
            strat: rcases,
            check: c02,
            shards: 8,
        })],
        "C03" => vec![Box::new(Test::<DCase> {
            name: "complexes",
            cases: (180_000, 2_160_000),
            rule: "random filtered complexes, two presentations each; standard algorithm over the whole basis, per dimension and along the filtration, clearing over all and over a sub-range of dimensions, against pairs from ranks of lower-left submatrices; non-trivial with two pairs, one of positive persistence, and an essential cell",
            strat: dcases,
            check: c03,
            shards: 8,
        })],
        "C04" => vec![Box::new(Test::<Cpx> {
            name: "complexes",
            cases: (300_000, 3_600_000),
            rule: "random filtered complexes; boundary and reversed coboundary with both algorithms and both reading orders; non-trivial with two pairs, one of positive persistence, and an essential cell",
            strat: complexes,
            check: c04,
            shards: 8,
        })],
        _ => return vec![],
    };
    tests.push(match p {
        "C01" => big((800, 10_000), |_| bigs(20_000), big_c01),
        "C02" => big((800, 10_000), |_| bigs(20_000), big_c02),
        "C03" => big((800, 10_000), |_| bigs(20_000), big_c03),
        _ => big((800, 10_000), |_| bigs(20_000), big_c04),
    });
    tests
}
fn assumptions(_p: &str) -> Vec<&'static str> {
    vec![
        "coefficient arithmetic is exact (decided by C06); rational cases that overflow are discarded",
        "the reference ranks over Q are taken modulo 2^61-1 (coefficients of the generated complexes are small)",
    ]
}
fn main() {
    pbt::driver::run(registry, assumptions)
}
