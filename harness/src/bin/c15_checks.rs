//! C15: diagrams read from, and matrices computed with, any valid reduction matrix.
use pbt::complexes::*;
use pbt::fields::*;
use pbt::fw::*;
use pbt::mats::*;
use pbt::redu::*;
use pbt::scale::*;
use pbt::{ensure, with_few, with_field};
use phlite::columns::ColumnEntry;
use phlite::fields::{Invertible, NonZeroCoefficient};
use phlite::matrices::combinators::product;
use phlite::matrices::{HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension, SquareMatrix};
use phlite::reduction::{read_off_diagram, standard_algo, ClearedReductionMatrix, Diagram, StandardReductionMatrix};
use proptest::prelude::*;
use rustc_hash::FxHashMap;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;

type Cols<T, F> = BTreeMap<T, BTreeMap<T, F>>;
type Lead<T, F> = BTreeMap<T, Option<(T, F)>>;

/// A coefficient: one of the first few non-zero multiples of one, or the inverse of one.
fn coeff<F: TF>(rs: &mut Rs) -> F {
    loop {
        let k = rs.below(4) as i64 + 1;
        if let Some(x) = F::from_i(if rs.below(2) == 0 { k } else { -k }) {
            return if rs.below(4) == 0 { x.mult_inverse() } else { x };
        }
    }
}
fn lead_of<M: HasRowFiltration>(d: &M, col: &BTreeMap<M::RowT, M::CoefficientField>) -> Option<(M::RowT, M::CoefficientField)> {
    leading(d, col).map(|l| (l.clone(), col[&l]))
}
fn scaled<T: Clone + Ord, F: NonZeroCoefficient>(col: &BTreeMap<T, F>, x: F) -> Vec<(F, T)> {
    col.iter().map(|(r, c)| (*c * x, r.clone())).collect()
}

/// A valid reduction of `d` by elementary means, different from the algorithms' in its choices:
/// leading rows are cleared from the left, then columns are combined and scaled at random in ways
/// that keep the leading rows.
fn other_reduction<M>(d: &M, order: &[M::ColT], rs: &mut Rs, steps: usize) -> (Cols<M::ColT, M::CoefficientField>, Cols<M::ColT, M::CoefficientField>, usize)
where
    M: SquareMatrix + HasRowFiltration,
    M: MatrixOracle<ColT: Hash + Debug, CoefficientField: TF>,
{
    let mut v: Vec<BTreeMap<M::ColT, M::CoefficientField>> = vec![];
    let mut r: Vec<BTreeMap<M::ColT, M::CoefficientField>> = vec![];
    let mut owner: BTreeMap<M::ColT, usize> = BTreeMap::new();
    for (j, e) in order.iter().enumerate() {
        let mut vj = BTreeMap::from([(e.clone(), M::CoefficientField::one())]);
        let mut rj = apply(d, &vj);
        while let Some((l, c)) = lead_of(d, &rj) {
            let Some(i) = owner.get(&l) else { break };
            let x = c.additive_inverse() * r[*i][&l].mult_inverse();
            add_terms(&mut rj, scaled(&r[*i], x));
            add_terms(&mut vj, scaled(&v[*i], x));
        }
        if let Some((l, _)) = lead_of(d, &rj) {
            owner.insert(l, j);
        }
        v.push(vj);
        r.push(rj);
    }
    let n = order.len();
    let key = |col: &BTreeMap<M::ColT, M::CoefficientField>| leading(d, col).map(|l| (d.filtration_value(l.clone()), l));
    let keys: Vec<_> = r.iter().map(key).collect();
    let mut changed = 0;
    for _ in 0..steps {
        if n < 2 {
            break;
        }
        let j = rs.below(n);
        if rs.below(4) == 0 {
            let x = coeff(rs);
            v[j] = scaled(&v[j], x).into_iter().map(|(c, t)| (t, c)).collect();
            r[j] = scaled(&r[j], x).into_iter().map(|(c, t)| (t, c)).collect();
            continue;
        }
        if j == 0 {
            continue;
        }
        let i = rs.below(j);
        // zero columns may be added to any later one, others only where their leading row is smaller
        if keys[i].is_none() || (keys[j].is_some() && keys[i] < keys[j]) {
            let x = coeff(rs);
            let (vi, ri) = (scaled(&v[i], x), scaled(&r[i], x));
            add_terms(&mut v[j], vi);
            add_terms(&mut r[j], ri);
            changed += 1;
        }
    }
    (order.iter().cloned().zip(v).collect(), order.iter().cloned().zip(r).collect(), changed)
}

/// The same columns with terms shuffled, split and padded by cancelling pairs.
fn represent<T: Ord + Clone, F: TF>(col: &BTreeMap<T, F>, pool: &[T], rs: &mut Rs) -> Vec<(F, T)> {
    let mut out = vec![];
    for (t, c) in col {
        // c = x + (c - x)
        let x: F = coeff(rs);
        match (rs.below(3), *c + x.additive_inverse()) {
            (0, Some(rest)) => {
                out.push((x, t.clone()));
                out.push((rest, t.clone()));
            }
            _ => out.push((*c, t.clone())),
        }
    }
    while rs.below(3) == 0 && !pool.is_empty() {
        let t = pool[rs.below(pool.len())].clone();
        let x: F = coeff(rs);
        out.push((x, t.clone()));
        out.push((x.additive_inverse(), t));
    }
    rs.shuffle(&mut out);
    out
}

fn stored<T: Ord + Clone + Hash, F: TF>(v: &Cols<T, F>, rs: &mut Rs) -> FxHashMap<T, Vec<(F, T)>> {
    let pool: Vec<T> = v.keys().cloned().collect();
    v.iter().map(|(e, col)| (e.clone(), represent(col, &pool, rs))).collect()
}

type Roles<T> = (BTreeSet<(T, T)>, BTreeSet<T>);
fn roles<T: Ord + Clone, F>(lead: &Lead<T, F>, dims: Option<&[T]>) -> Roles<T> {
    let of = |e: &T| dims.is_none_or(|d| d.contains(e));
    let pairs: BTreeSet<(T, T)> = lead.iter().filter(|(e, _)| of(e)).filter_map(|(e, l)| l.as_ref().map(|l| (l.0.clone(), e.clone()))).collect();
    let births: BTreeSet<&T> = pairs.iter().map(|p| &p.0).collect();
    let ess = lead.iter().filter(|(e, l)| of(e) && l.is_none() && !births.contains(e)).map(|(e, _)| e.clone()).collect();
    (pairs, ess)
}
fn same_roles<T: Ord + Clone + Hash + Debug>(name: &str, d: &Diagram<T>, want: &Roles<T>) -> Result<(), String> {
    let p: BTreeSet<(T, T)> = d.pairings.iter().cloned().collect();
    let e: BTreeSet<T> = d.essential.iter().cloned().collect();
    ensure!(p == want.0, "{name}: pairs {p:?}, the leading rows are {:?}", want.0);
    ensure!(e == want.1, "{name}: essential {e:?}, the zero columns that are no leading row are {:?}", want.1);
    Ok(())
}

/// Every column of `r`: its largest term is the expected one.
fn pivots<R, T, F>(name: &str, r: &R, order: &[T], lead: &Lead<T, F>) -> Result<(), String>
where
    R: MatrixOracle<ColT = T, RowT = T, CoefficientField = F> + HasRowFiltration,
    T: Ord + Clone + Debug + phlite::matrices::BasisElement,
    F: TF,
{
    for e in order {
        let got = r.build_bhcol(e.clone()).pop_pivot().map(|x: ColumnEntry<_, _, _>| (x.row_index, x.coeff));
        ensure!(got == lead[e], "{name}: the leading term of column {e:?} is {got:?}, expected {:?}", lead[e]);
    }
    Ok(())
}
/// The matrix V behaves as an ordinary matrix in products with D.
fn as_matrix<M, V>(name: &str, d: &M, v: &V, vs: &Cols<M::ColT, M::CoefficientField>, order: &[M::ColT], rs: &mut Rs) -> Result<Lead<M::ColT, M::CoefficientField>, String>
where
    M: SquareMatrix + HasRowFiltration,
    M: MatrixOracle<ColT: Hash + Debug, CoefficientField: TF>,
    V: MatrixOracle<ColT = M::ColT, RowT = M::ColT, CoefficientField = M::CoefficientField>,
{
    let mut asked = order.to_vec();
    rs.shuffle(&mut asked);
    let red: Cols<M::ColT, M::CoefficientField> = vs.iter().map(|(e, col)| (e.clone(), apply(d, col))).collect();
    let lead: Lead<M::ColT, M::CoefficientField> = red.iter().map(|(e, col)| (e.clone(), lead_of(d, col))).collect();
    pivots(&format!("{name}, D·V"), &product(d, v), &asked, &lead)?;
    let cached = v.cache_cols();
    pivots(&format!("{name}, D·cached V"), &product(d, &cached), &asked, &lead)?;
    pivots(&format!("{name}, D·cached V again"), &product(d, &cached), order, &lead)?;
    pivots(&format!("{name}, D·consolidated V"), &product(d, v.consolidate()), &asked, &lead)?;
    pivots(&format!("{name}, cached D·V"), &product(d.cache_cols(), v), &asked, &lead)?;
    pivots(&format!("{name}, consolidated D·V"), &product(d, v).consolidate(), &asked, &lead)?;
    pivots(&format!("{name}, D·V behind pointers"), &product(&d, Rc::new(Box::new(v))), &asked, &lead)?;
    let back = product(d.reverse(), v.reverse());
    for e in order {
        let got = vec_of(&back, Reverse(e.clone()));
        let want: BTreeMap<_, _> = red[e].iter().map(|(r, c)| (Reverse(r.clone()), *c)).collect();
        ensure!(got == want, "{name}: column {e:?} of reversed D · reversed V is {got:?}, expected {want:?}");
        let got = vec_of(&v.reverse().unreverse(), e.clone());
        ensure!(got == vs[e], "{name}: column {e:?} of V reversed and back is {got:?}, V has {:?}", vs[e]);
    }
    Ok(lead)
}

fn any_v<M>(name: &str, d: &M, order: &[M::ColT], rs: &mut Rs, obs: &mut Obs) -> Result<Roles<M::ColT>, String>
where
    M: SquareMatrix + HasRowFiltration + HasColBasis,
    M: MatrixOracle<ColT: Hash + Debug + 'static, CoefficientField: TF>,
{
    let steps = [0, order.len(), 4 * order.len()][rs.below(3)].min(400);
    let (v, r, changed) = other_reduction(d, order, rs, steps);
    let lead: Lead<M::ColT, M::CoefficientField> = r.iter().map(|(e, col)| (e.clone(), lead_of(d, col))).collect();
    let want = roles(&lead, None);
    let map = stored(&v, rs);
    let reps = map.values().map(|c| c.len()).max().unwrap_or(0);
    let m = StandardReductionMatrix::from(map);
    for rev in [false, true] {
        let got = read_off_diagram(d, &m, rev);
        same_roles(&format!("{name}: diagram of another valid reduction, reverse_order={rev}"), &got, &want)?;
    }
    let l2 = as_matrix(&format!("{name}, another valid reduction"), d, &m, &v, order, rs)?;
    ensure!(l2 == lead, "{name}: combining columns gives leading terms {lead:?}, multiplying {l2:?}");
    obs.class_if(changed > 0, "differs from the algorithm's V");
    obs.class_if(reps > 2, "repeated terms in V");
    obs.nontrivial |= changed >= 2 && want.0.len() >= 2;
    Ok(want)
}
fn standard_v<M>(name: &str, d: &M, order: &[M::ColT], want: &Roles<M::ColT>, rs: &mut Rs) -> Result<(), String>
where
    M: SquareMatrix + HasRowFiltration + HasColBasis,
    M: MatrixOracle<ColT: Hash + Debug + 'static, CoefficientField: TF>,
{
    let v = standard_algo(d);
    let vs: Cols<M::ColT, M::CoefficientField> = order.iter().map(|e| (e.clone(), vec_of(&v, e.clone()))).collect();
    let lead = as_matrix(&format!("{name}, standard algorithm"), d, &v, &vs, order, rs)?;
    let got = roles(&lead, None);
    ensure!(got == *want, "{name}: leading rows of the standard algorithm give {got:?}, of another valid reduction {want:?}");
    // V taken over into a new store
    let m = StandardReductionMatrix::from(stored(&vs, rs));
    let rev = rs.below(2) == 1;
    same_roles(&format!("{name}: diagram of the standard V, its terms repeated, reverse_order={rev}"), &read_off_diagram(d, &m, rev), want)
}
fn cleared_v<M>(name: &str, d: &M, order: &[M::ColT], dims: Vec<usize>, want: &Roles<M::ColT>, rs: &mut Rs) -> Result<(), String>
where
    M: SquareMatrix + HasRowFiltration + HasColBasis + Clone,
    <M as HasColBasis>::BasisT: SplitByDimension,
    M: MatrixOracle<ColT: Hash + Debug + 'static, CoefficientField: TF>,
{
    let (v, diag) = ClearedReductionMatrix::build_with_diagram(d, dims);
    same_roles(&format!("{name}: diagram returned by clearing"), &diag, want)?;
    let vs: Cols<M::ColT, M::CoefficientField> = order.iter().map(|e| (e.clone(), vec_of(&v, e.clone()))).collect();
    let lead = as_matrix(&format!("{name}, clearing"), d, &v, &vs, order, rs)?;
    let got = roles(&lead, None);
    ensure!(got == *want, "{name}: leading rows of clearing give {got:?}, of another valid reduction {want:?}");
    // the lazily stored V written out
    let m = StandardReductionMatrix::from(stored(&vs, rs));
    for rev in [false, true] {
        same_roles(&format!("{name}: diagram of clearing's V written out, reverse_order={rev}"), &read_off_diagram(d, &m, rev), want)?;
    }
    let copy = v.clone();
    for e in order {
        ensure!(copy.col_is_cycle(e.clone()) == lead[e].is_none(), "{name}: col_is_cycle({e:?}) of a copy of V is wrong");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct VCase {
    c: Cpx,
    co: bool,
    seed: u64,
}
fn cpx_f<F: TF>(case: &VCase, obs: &mut Obs) -> Result<(), String> {
    let c = &case.c;
    c.validate()?;
    let rs = &mut Rs(case.seed);
    let k = c.max_dim() + 1;
    let all: Vec<usize> = (0..k).collect();
    let (pairs, ess) = c.ref_pairs(&all);
    let lab = |i: usize| c.lab(i);
    if !case.co {
        obs.class("boundary");
        let d = c.raw::<F>();
        let order = list_of(d.basis());
        let want = any_v("boundary", &d, &order, rs, obs)?;
        let real: Roles<Lab> = (pairs.iter().map(|(a, b)| (lab(*a), lab(*b))).collect(), ess.iter().map(|e| lab(*e)).collect());
        ensure!(want == real, "boundary: a valid reduction gives {want:?}, the ranks give {real:?}");
        standard_v("boundary", &d, &order, &want, rs)?;
        cleared_v("boundary", &&d, &order, (0..k).rev().collect(), &want, rs)?;
        // one V of the whole complex read one dimension at a time
        let (v, r, _) = other_reduction(&d, &order, rs, order.len().min(100));
        let lead: Lead<Lab, F> = r.iter().map(|(e, col)| (*e, lead_of(&d, col))).collect();
        let m = StandardReductionMatrix::from(stored(&v, rs));
        for dim in all {
            let els: Vec<Lab> = c.order(dim).into_iter().map(lab).collect();
            let part = roles(&lead, Some(&els));
            let got = read_off_diagram((&d).sub_matrix_in_dimension(dim), &m, rs.below(2) == 1);
            same_roles(&format!("boundary in dimension {dim}: diagram of V of the whole complex"), &got, &part)?;
        }
    } else {
        obs.class("coboundary");
        let raw = c.raw_co::<F>();
        let d = (&raw).reverse();
        let order: Vec<Reverse<Lab>> = raw.basis.total.iter().rev().map(|l| Reverse(*l)).collect();
        let want = any_v("reversed coboundary", &d, &order, rs, obs)?;
        let real: Roles<Reverse<Lab>> = (pairs.iter().map(|(a, b)| (Reverse(lab(*b)), Reverse(lab(*a)))).collect(), ess.iter().map(|e| Reverse(lab(*e))).collect());
        ensure!(want == real, "reversed coboundary: a valid reduction gives {want:?}, the ranks give {real:?}");
        standard_v("reversed coboundary", &d, &order, &want, rs)?;
        cleared_v("reversed coboundary", &&d, &order, (0..k).collect(), &want, rs)?;
        // V in the indices of the coboundary itself
        let v = standard_algo(&d);
        let plain = (&v).unreverse();
        for e in raw.basis.total.iter() {
            let got = vec_of(&product(&raw, &plain), *e);
            let want: BTreeMap<Lab, F> = apply(&d, &vec_of(&v, Reverse(*e))).into_iter().map(|(r, c)| (r.0, c)).collect();
            ensure!(got == want, "column {e:?} of coboundary · un-reversed V is {got:?}, expected {want:?}");
        }
    }
    Ok(())
}
fn cpx(case: &VCase, obs: &mut Obs) -> Result<(), String> {
    obs.class(format!("{:?}", case.c.field));
    with_field!(case.c.field, cpx_f::<_>(case, obs))
}
fn vcases(tier: Tier) -> BoxedStrategy<VCase> {
    (complexes(tier), any::<bool>(), any::<u64>())
        .prop_map(|(c, co, seed)| VCase { c, co, seed })
        .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MCase {
    m: Mat,
    mode: u8,
    seed: u64,
}
fn mat_one<M>(name: &str, d: &M, rs: &mut Rs, obs: &mut Obs) -> Result<(), String>
where
    M: SquareMatrix + HasRowFiltration + HasColBasis,
    M: MatrixOracle<ColT: Hash + Debug + 'static, CoefficientField: TF>,
{
    let order = list_of(&*d.basis());
    let want = any_v(name, d, &order, rs, obs)?;
    standard_v(name, d, &order, &want, rs)
}
fn mat_f<F: TF>(case: &MCase, obs: &mut Obs) -> Result<(), String> {
    let raw = case.m.raw::<F>();
    let rs = &mut Rs(case.seed);
    match case.mode % 5 {
        0 => mat_one("matrix", &raw, rs, obs),
        1 => mat_one("matrix with trivial filtration", &(&raw).with_trivial_filtration(), rs, obs),
        2 => mat_one("reversed matrix", &(&raw).reverse(), rs, obs),
        3 => mat_one("cached matrix", &(&raw).cache_cols(), rs, obs),
        _ => mat_one("consolidated matrix", &(&raw).consolidate(), rs, obs),
    }
}
fn mat(case: &MCase, obs: &mut Obs) -> Result<(), String> {
    obs.class(format!("{:?}", case.m.field));
    with_few!(case.m.field, mat_f::<_>(case, obs))
}
fn mcases(lo: usize, hi: usize, dens: usize) -> BoxedStrategy<MCase> {
    (mats_sized(lo, hi, dens, true), any::<u8>(), any::<u64>())
        .prop_map(|(mut m, mode, seed)| {
            m.field = pbt::adapt::few(m.field);
            MCase { m, mode, seed }
        })
        .boxed()
}
fn big_f<F: TF>(b: &Big, obs: &mut Obs) -> Result<(), String> {
    let case = VCase { c: big_graph(b), co: b.shape & 64 != 0, seed: b.seed };
    cpx_f::<F>(&case, obs)
}
fn big(b: &Big, obs: &mut Obs) -> Result<(), String> {
    with_few!(b.field, big_f::<_>(b, obs))
}

fn registry(p: &str) -> Vec<Box<dyn AnyTest>> {
    match p {
        "C15" => vec![
            Box::new(Test::<VCase> {
                name: "complexes",
                cases: (140_000, 2_000_000),
                rule: "random filtered complexes, boundary or reversed coboundary; a valid V made by elementary steps, altered by adding columns with smaller leading rows and zero columns to later columns and by scaling, its terms repeated, and the V of both algorithms; non-trivial when at least two columns were added to others and there are at least two pairs",
                strat: vcases,
                check: cpx,
                shards: 8,
            }),
            Box::new(Test::<MCase> {
                name: "matrices",
                cases: (140_000, 2_000_000),
                rule: "random square matrices that are no complexes, with unrelated basis order and filtration, as such, reversed, cached, consolidated or trivially filtered; non-trivial as for complexes",
                strat: |_| prop_oneof![8 => mcases(2, 8, 5), 4 => mcases(6, 16, 4), 1 => mcases(20, 40, 4)].boxed(),
                check: mat,
                shards: 8,
            }),
            Box::new(Test::<Big> {
                name: "large",
                cases: (120, 1_500),
                rule: "paths, stars, trees and caterpillars of 30 to thousands of vertices, closed by up to four chords; non-trivial as for complexes",
                strat: |_| bigs(600),
                check: big,
                shards: 8,
            }),
        ],
        _ => vec![],
    }
}
fn assumptions(_: &str) -> Vec<&'static str> {
    vec![
        "the matrices D and the other valid reductions are made by the harness with the coefficient types' own operations (checked by C06)",
        "over the rationals cases whose exact values leave the machine word are discarded",
    ]
}
fn main() {
    pbt::driver::run(registry, assumptions)
}
