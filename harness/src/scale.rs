//! Large inputs, made from a size and a seed inside the check: sizes just around powers of two and
//! anywhere in between, so that thresholds inside the library (buffers, tables, narrow integers,
//! give-up limits) are crossed whatever they are.
use crate::adapt::*;
use crate::complexes::*;
use crate::fields::*;
use crate::fw::*;
use crate::mats::*;
use crate::{ensure, with_few};
use phlite::columns::BHCol;
use phlite::matrices::adaptors::{ReverseBasis, UnreverseBasis};
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::implementors::{MapVecMatrix, SimpleZ2Matrix, StandardBasis, VecVecMatrix};
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use proptest::prelude::*;
use rustc_hash::FxHashMap;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::cmp::Reverse;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::Hash;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Big {
    pub field: Fld,
    pub n: usize,
    pub shape: u8,
    pub seed: u64,
}
/// Sizes up to `top`: near powers of two, in the hundreds, in the thousands, rarely as large as allowed.
pub fn sizes(top: usize) -> BoxedStrategy<usize> {
    let hi = (usize::BITS - 1 - top.leading_zeros()).min(16);
    let pow = (5u32..=hi, 0usize..5).prop_map(move |(k, d)| ((1usize << k) + d - 2).min(top));
    let low_pow = (5u32..=hi.min(11), 0usize..5).prop_map(move |(k, d)| ((1usize << k) + d - 2).min(top));
    prop_oneof![
        6 => 30usize..400.min(top),
        4 => 200.min(top / 2)..3000.min(top),
        4 => low_pow,
        2 => pow,
        1 => (top / 4)..=top,
    ]
    .boxed()
}
pub fn bigs(top: usize) -> BoxedStrategy<Big> {
    (any_field(), sizes(top), any::<u8>(), any::<u64>())
        .prop_map(|(field, n, shape, seed)| Big { field: few(field), n, shape, seed })
        .boxed()
}

/// Positions worth looking at in 0..n: the ends, around powers of two and of ten, some others.
pub fn sample(n: usize, rs: &mut Rs) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    let mut near = |x: usize| {
        for y in [x.wrapping_sub(1), x, x + 1] {
            if y < n {
                v.push(y);
            }
        }
    };
    near(0);
    near(n);
    for k in 4..20 {
        near(1 << k);
    }
    near(100);
    near(1000);
    near(10000);
    for _ in 0..12 {
        near(rs.below(n));
    }
    v.sort();
    v.dedup();
    v
}

/// n terms over rows below m, in one of several arrangements.
pub fn long_column(n: usize, m: usize, shape: u8, rs: &mut Rs) -> Vec<(i64, usize)> {
    let coef = |rs: &mut Rs| [1i64, 1, -1, 2][rs.below(4)];
    let mut out: Vec<(i64, usize)> = vec![];
    match shape % 8 {
        // every row once, shuffled
        0 => {
            out = (0..n).map(|i| (coef(rs), i % m)).collect();
            rs.shuffle(&mut out);
        }
        1 => out = (0..n).map(|i| (coef(rs), i % m)).collect(),
        2 => out = (0..n).rev().map(|i| (coef(rs), i % m)).collect(),
        // few rows, many meetings
        3 => {
            let k = (2 + rs.below(30)).min(m);
            let off = rs.below(m);
            out = (0..n).map(|_| (coef(rs), (off + rs.below(k)) % m)).collect();
        }
        // everything but a few cancels
        4 => {
            while out.len() + 2 <= n {
                let (c, r) = (coef(rs), rs.below(m));
                out.push((c, r));
                out.push((-c, r));
            }
            rs.shuffle(&mut out);
            out.insert(rs.below(out.len() + 1), (1, rs.below(m)));
        }
        // the large rows all cancel, small ones survive
        5 => {
            for i in 0..n / 2 {
                let c = coef(rs);
                out.push((c, m - 1 - i % m));
                out.push((-c, m - 1 - i % m));
            }
            out.push((1, 0));
            rs.shuffle(&mut out);
        }
        // one row over and over
        6 => {
            let r = rs.below(m);
            out = (0..n).map(|_| (1, r)).collect();
            out.push((1, rs.below(m)));
        }
        _ => out = (0..n).map(|_| (coef(rs), rs.below(m))).collect(),
    }
    out
}

/// A matrix on n labels; most columns have up to two terms, in some shapes one has n.
pub fn big_mat(b: &Big) -> Mat {
    let n = b.n.max(1);
    let mut rs = Rs(b.seed);
    let mut cols: Vec<Vec<(i64, usize)>> = (0..n)
        .map(|_| (0..rs.below(3)).map(|_| ([1i64, 2, -1][rs.below(3)], rs.below(n))).collect())
        .collect();
    if b.shape & 1 == 1 {
        let i = if rs.below(3) == 0 { 0 } else { rs.below(n) };
        cols[i] = long_column(n, n, (b.shape >> 1) % 8, &mut rs);
    }
    let fil = (0..n).map(|_| rs.below(5) as i64).collect();
    let lseed = if rs.below(2) == 0 { 0 } else { rs.next() };
    let mut ord: Vec<usize> = (0..n).collect();
    if rs.below(3) > 0 {
        rs.shuffle(&mut ord);
    }
    let mut basis = vec![vec![]; 3];
    let one = rs.below(3) == 0;
    for i in ord {
        basis[if one { 0 } else { rs.below(3) }].push(i);
    }
    Mat { field: b.field, label: big_labels(n, lseed), fil, cols, basis }
}

fn classify(b: &Big, obs: &mut Obs) {
    obs.class(match b.n {
        0..=99 => "size below 100",
        100..=999 => "size in the hundreds",
        1000..=9999 => "size in the thousands",
        _ => "size above 10000",
    });
    obs.nontrivial = b.n >= 30;
}
fn first_diff<T: PartialEq + Debug>(name: &str, got: &[T], want: &[T]) -> Result<(), String> {
    ensure!(got.len() == want.len(), "{name}: {} terms, expected {}", got.len(), want.len());
    if let Some(k) = (0..got.len()).find(|k| got[*k] != want[*k]) {
        return Err(format!("{name}: item {k} is {:?}, expected {:?}", got[k], want[k]));
    }
    Ok(())
}
fn same_vec<R: Ord + Debug, F: PartialEq + Debug>(name: &str, got: &BTreeMap<R, F>, want: &BTreeMap<R, F>) -> Result<(), String> {
    let g: Vec<_> = got.iter().collect();
    let w: Vec<_> = want.iter().collect();
    first_diff(name, &g, &w)
}
/// Equality of term lists as multisets, where coefficients have no order.
fn same_terms<F: PartialEq + Debug + Copy>(name: &str, got: &[(F, Lab)], want: &[(F, Lab)]) -> Result<(), String> {
    if got == want {
        return Ok(());
    }
    ensure!(got.len() == want.len(), "{name}: {} terms, expected {}", got.len(), want.len());
    let group = |v: &[(F, Lab)]| {
        let mut m: BTreeMap<Lab, Vec<F>> = BTreeMap::new();
        for (c, r) in v {
            m.entry(*r).or_default().push(*c);
        }
        m
    };
    let (g, w) = (group(got), group(want));
    for (r, cs) in w.iter() {
        let h = g.get(r).map(|v| &v[..]).unwrap_or(&[]);
        let ok = h.len() == cs.len() && {
            // few distinct coefficients occur
            let mut kinds: Vec<(F, i64)> = vec![];
            for (list, s) in [(&cs[..], 1), (h, -1)] {
                for c in list {
                    match kinds.iter_mut().find(|k| k.0 == *c) {
                        Some(k) => k.1 += s,
                        None => kinds.push((*c, s)),
                    }
                }
            }
            kinds.iter().all(|k| k.1 == 0)
        };
        ensure!(ok, "{name}: row {r:?} has {} terms, expected {} with other coefficients", h.len(), cs.len());
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

fn c05_f<F: TF>(b: &Big, obs: &mut Obs) -> Result<(), String> {
    classify(b, obs);
    let mut rs = Rs(b.seed);
    let m = if rs.below(2) == 0 { b.n } else { 1 + rs.below(b.n) };
    let fil = |r: usize| Fv((r * 7 % 5) as i64);
    let ent = |t: &(i64, usize)| F::from_i(t.0).map(|c| (c, Lab(t.1 as u32), fil(t.1)));
    let mut col: BHCol<Fv, Lab, F> = BHCol::default();
    let mut model: BTreeMap<(Fv, Lab), F> = BTreeMap::new();
    let rounds = 1 + rs.below(3);
    for round in 0..rounds {
        let shape = if round == 0 { b.shape } else { rs.next() as u8 };
        let terms: Vec<(F, Lab, Fv)> = long_column(if round == 0 { b.n } else { b.n / 2 }, m, shape, &mut rs).iter().filter_map(ent).collect();
        match rs.below(4) {
            0 => terms.iter().for_each(|t| col.add_tuple(*t)),
            1 => terms.iter().for_each(|t| col.add_entry((*t).into())),
            2 => col.add_tuples(terms.iter().copied()),
            _ => col.add_entries(terms.iter().map(|t| (*t).into())),
        }
        for (c, r, f) in terms {
            let k = (f, r);
            if let Some(s) = c + model.remove(&k) {
                model.insert(k, s);
            }
        }
        if rs.below(2) == 0 {
            let got: Option<(F, Lab, Fv)> = col.clone_pivot().map(|e| e.into());
            let want = model.last_key_value().map(|((f, r), c)| (*c, *r, *f));
            ensure!(got == want, "round {round}: clone_pivot gave {got:?}, the sum's leading term is {want:?}");
            let peek = col.peek_pivot().map(|e| (e.coeff, e.row_index, e.filtration_value));
            ensure!(peek == want, "round {round}: peek after clone_pivot gave {peek:?}, expected {want:?}");
        }
        for k in 0..rs.below(model.len() + 2) {
            let want = model.pop_last().map(|((f, r), c)| (c, r, f));
            let got: Option<(F, Lab, Fv)> = col.pop_pivot().map(|e| e.into());
            ensure!(got == want, "round {round}, extraction {k}: pop_pivot gave {got:?}, the sum's leading term is {want:?}");
        }
        if rs.below(3) == 0 {
            let got: Vec<(F, Lab, Fv)> = col.clone().to_sorted_vec().into_iter().map(|e| e.into()).collect();
            let want: Vec<(F, Lab, Fv)> = model.iter().rev().map(|((f, r), c)| (*c, *r, *f)).collect();
            first_diff("to_sorted_vec of a clone", &got, &want)?;
        }
    }
    let got: Vec<(F, Lab, Fv)> = if rs.below(2) == 0 {
        col.to_sorted_vec().into_iter().map(|e| e.into()).collect()
    } else {
        let v: Vec<_> = col.drain_sorted().map(|e| e.into()).collect();
        ensure!(col.pop_pivot().is_none(), "a drained column still has a pivot");
        v
    };
    let want: Vec<(F, Lab, Fv)> = model.iter().rev().map(|((f, r), c)| (*c, *r, *f)).collect();
    first_diff("sorted terms", &got, &want)
}
fn c05(b: &Big, obs: &mut Obs) -> Result<(), String> {
    with_few!(b.field, c05_f::<_>(b, obs))
}

// ---------------------------------------------------------------- C07

fn apply<F: TF>(m: &Mat, v: &[(F, Lab)], id: &HashMap<Lab, usize>) -> BTreeMap<Lab, F> {
    let mut out = BTreeMap::new();
    for (c, r) in v {
        add_terms(&mut out, m.terms::<F>(id[r]).into_iter().map(|(x, r2)| (x * *c, r2)));
    }
    out
}
fn c07_f<F: TF>(b: &Big, obs: &mut Obs) -> Result<(), String> {
    classify(b, obs);
    let mut rs = Rs(b.seed ^ 77);
    let ma = big_mat(b);
    let n = ma.n();
    // at most one factor has a long column that is used often
    let mut mb = Mat { cols: big_mat(&Big { seed: rs.next(), shape: b.shape >> 4, ..b.clone() }).cols, ..ma.clone() };
    if b.n > 3000 {
        mb.cols.iter_mut().for_each(|c| c.truncate(3000));
    }
    mb.basis = vec![ma.elems().into_iter().rev().collect(), vec![], vec![]];
    let id: HashMap<Lab, usize> = (0..n).map(|i| (ma.lab(i), i)).collect();
    let (x, y) = (ma.raw::<F>(), mb.raw::<F>());
    let xy = product(&x, &y);
    let s = sum(&x, &y);
    let xxy = product(&x, &xy);
    let sy = product(&s, &y);
    let ys = product(&y, &s);
    let long = (0..n).filter(|i| ma.cols[*i].len() > 5 || mb.cols[*i].len() > 5);
    let mut at = sample(n, &mut rs);
    at.extend(long);
    at.sort();
    at.dedup();
    for i in at {
        let l = ma.lab(i);
        let (ta, tb) = (ma.terms::<F>(i), mb.terms::<F>(i));
        let want = apply(&ma, &tb, &id);
        same_vec(&format!("column {i} of A*B"), &vec_of(&xy, l), &want)?;
        let by_macro = sum_terms(phlite::matrix_col_product!(x, y.column(l)));
        same_vec(&format!("matrix_col_product on column {i}"), &by_macro, &want)?;
        let es = entries_of(&xy, l);
        for (_, r, f) in es.iter() {
            ensure!(*f == Fv(ma.fil[id[r]]), "A*B column {i}: row {r:?} carries {f:?}, the left factor gives {}", ma.fil[id[r]]);
        }
        same_vec(&format!("enriched column {i} of A*B"), &sum_terms(es.into_iter().map(|(c, r, _)| (c, r))), &want)?;
        let wt: Vec<(F, Lab)> = want.iter().map(|(r, c)| (*c, *r)).collect();
        same_vec(&format!("column {i} of A*(A*B)"), &vec_of(&xxy, l), &apply(&ma, &wt, &id))?;
        let ws = sum_terms(ta.iter().chain(tb.iter()).copied());
        same_vec(&format!("column {i} of A+B"), &vec_of(&s, l), &ws)?;
        let mut w = want.clone();
        add_terms(&mut w, apply(&mb, &tb, &id).into_iter().map(|(r, c)| (c, r)));
        same_vec(&format!("column {i} of (A+B)*B"), &vec_of(&sy, l), &w)?;
        let st: Vec<(F, Lab)> = ws.iter().map(|(r, c)| (*c, *r)).collect();
        same_vec(&format!("column {i} of B*(A+B)"), &vec_of(&ys, l), &apply(&mb, &st, &id))?;
    }
    let want: Vec<Lab> = mb.elems().into_iter().map(|i| mb.lab(i)).collect();
    first_diff("basis of A*B", &list_of(&*xy.basis()), &want)
}
fn c07(b: &Big, obs: &mut Obs) -> Result<(), String> {
    with_few!(b.field, c07_f::<_>(b, obs))
}

// ---------------------------------------------------------------- C08, C10

fn verify_at<M>(name: &str, m: &M, at: &[(M::ColT, BTreeMap<M::RowT, M::CoefficientField>)], fil: &[(M::RowT, M::FiltrationT)], order: &[M::ColT]) -> Result<(), String>
where
    M: MatrixOracle<ColT: Debug, RowT: Debug, CoefficientField: Debug> + HasRowFiltration<FiltrationT: Debug> + HasColBasis,
{
    let rows: BTreeMap<&M::RowT, &M::FiltrationT> = fil.iter().map(|(r, f)| (r, f)).collect();
    let one = |what: &str, got: BTreeMap<M::RowT, M::CoefficientField>, v: &BTreeMap<M::RowT, M::CoefficientField>| same_vec(what, &got, v);
    for (c, v) in at {
        let what = format!("{name}: column {c:?}");
        one(&what, vec_of(m, c.clone()), v)?;
        let es = entries_of(m, c.clone());
        for (_, r, f) in es.iter() {
            ensure!(rows.get(r) == Some(&f), "{what}: row {r:?} carries {f:?}, expected {:?}", rows.get(r));
        }
        one(&format!("{what} (enriched)"), sum_terms(es.into_iter().map(|(c, r, _)| (c, r))), v)?;
        let heap: Vec<_> = m.build_bhcol(c.clone()).to_sorted_vec().into_iter().map(|e| (e.filtration_value, e.row_index, e.coeff)).collect();
        let mut w: Vec<_> = v.iter().map(|(r, x)| (rows[r].clone(), r.clone(), *x)).collect();
        w.sort_by(|a, b| (&b.0, &b.1).cmp(&(&a.0, &a.1)));
        first_diff(&format!("{what} (heap)"), &heap, &w)?;
    }
    for (r, f) in fil {
        let g = m.filtration_value(r.clone());
        ensure!(g == *f, "{name}: filtration value of {r:?} is {g:?}, expected {f:?}");
    }
    first_diff(&format!("{name}: basis"), &list_of(&*m.basis()), order)?;
    // by position
    let pos: BTreeMap<&M::ColT, usize> = order.iter().enumerate().map(|(i, c)| (c, i)).collect();
    let ix = m.using_col_basis_index();
    for (c, v) in at {
        if let Some(i) = pos.get(c) {
            one(&format!("{name}: column at basis position {i}"), vec_of(&ix, *i), v)?;
            one(&format!("{name}: enriched column at basis position {i}"), sum_terms(entries_of(&ix, *i).into_iter().map(|(c, r, _)| (c, r))), v)?;
        }
    }
    Ok(())
}
fn c08_f<F: TF>(b: &Big, obs: &mut Obs) -> Result<(), String> {
    classify(b, obs);
    let m = big_mat(b);
    let n = m.n();
    let mut rs = Rs(b.seed ^ 8);
    let raw = m.raw::<F>();
    let mut ids = sample(n, &mut rs);
    ids.extend((0..n).filter(|i| m.cols[*i].len() > 5));
    ids.sort();
    ids.dedup();
    let at: Vec<(Lab, BTreeMap<Lab, F>)> = ids.iter().map(|i| (m.lab(*i), m.truth::<F>(*i))).collect();
    let rat: Vec<_> = at.iter().map(|(c, v)| (Reverse(*c), v.iter().map(|(r, x)| (Reverse(*r), *x)).collect::<BTreeMap<_, _>>())).collect();
    let fil: Vec<(Lab, Fv)> = (0..n).map(|i| (m.lab(i), Fv(m.fil[i]))).collect();
    let rfil: Vec<_> = fil.iter().map(|(r, f)| (Reverse(*r), Reverse(*f))).collect();
    let id: HashMap<Lab, usize> = (0..n).map(|i| (m.lab(i), i)).collect();
    let f2 = |r: Lab| Fv((id[&r] as i64 * 13) % 11 - 3);
    let fil2: Vec<(Lab, Fv)> = (0..n).map(|i| (m.lab(i), f2(m.lab(i)))).collect();
    let rfil2: Vec<_> = fil2.iter().map(|(r, f)| (Reverse(*r), Reverse(*f))).collect();
    let total = &raw.basis.total;
    let rtotal = rev_list(total);
    let d = rs.below(3);
    let sub = &raw.basis.dims[d];
    let rsub = rev_list(sub);
    verify_at("&M", &raw, &at, &fil, total)?;
    verify_at("reverse", &(&raw).reverse(), &rat, &rfil, &rtotal)?;
    verify_at("reverse.unreverse", &MatrixOracle::unreverse((&raw).reverse()), &at, &fil, total)?;
    verify_at("cache", &(&raw).cache_cols(), &at, &fil, total)?;
    verify_at("reverse.cache", &(&raw).reverse().cache_cols(), &rat, &rfil, &rtotal)?;
    verify_at("consolidate", &(&raw).consolidate(), &at, &fil, total)?;
    verify_at("filtration", &(&raw).with_filtration(f2), &at, &fil2, total)?;
    verify_at("filtration.reverse.cache", &(&raw).with_filtration(f2).reverse().cache_cols(), &rat, &rfil2, &rtotal)?;
    verify_at("sub", &(&raw).sub_matrix_in_dimension(d), &at, &fil, sub)?;
    verify_at("reverse.sub", &(&raw).reverse().sub_matrix_in_dimension(d), &rat, &rfil, &rsub)?;
    verify_at("cache.sub.reverse.consolidate", &(&raw).cache_cols().sub_matrix_in_dimension(d).reverse().consolidate(), &rat, &rfil, &rsub)?;
    let mut alt = total.clone();
    rs.shuffle(&mut alt);
    verify_at("another basis", &(&raw).with_basis(alt.clone()), &at, &fil, &alt)?;
    verify_at("another basis, reversed", &(&raw).with_basis(alt.clone()).reverse(), &rat, &rfil, &rev_list(&alt))?;
    let tr = (&raw).with_trivial_filtration();
    for (c, v) in at.iter() {
        same_vec("trivial filtration", &vec_of(&tr, *c), v)?;
        same_vec("discarded filtration", &vec_of(&(&raw).with_filtration(f2).discard_filtration(), *c), v)?;
        let es: Vec<_> = tr.column_with_filtration(*c).map(|e| (e.coeff, e.row_index)).collect();
        same_vec("trivial filtration, enriched", &sum_terms(es), v)?;
    }
    Ok(())
}
fn c08(b: &Big, obs: &mut Obs) -> Result<(), String> {
    with_few!(b.field, c08_f::<_>(b, obs))
}

// ---------------------------------------------------------------- C09

fn c09_f<F: TF>(b: &Big, obs: &mut Obs) -> Result<(), String> {
    classify(b, obs);
    let m = big_mat(b);
    let n = m.n();
    let mut rs = Rs(b.seed ^ 9);
    let raw = m.raw::<F>();
    let cached = (&raw).cache_cols();
    let mut order: Vec<usize> = (0..n).collect();
    rs.shuffle(&mut order);
    {
        // many iterators are open at once
        let mut live: Vec<_> = vec![];
        for i in order.iter().take(2000) {
            let mut it = cached.column(m.lab(*i));
            let first = it.next();
            live.push((*i, first, it));
        }
        for (i, first, it) in live.into_iter().rev() {
            let got: Vec<(F, Lab)> = first.into_iter().chain(it).collect();
            same_terms(&format!("column {i} read while others are open"), &got, &m.terms::<F>(i))?;
        }
    }
    for round in 0..3 {
        if round == 2 {
            rs.shuffle(&mut order);
        }
        for i in order.iter() {
            let got: Vec<(F, Lab)> = cached.column(m.lab(*i)).collect();
            same_terms(&format!("column {i} in round {round}"), &got, &m.terms::<F>(*i))?;
        }
    }
    for i in sample(n, &mut rs) {
        let got: Vec<(F, Lab)> = entries_of(&cached, m.lab(i)).into_iter().map(|(c, r, _)| (c, r)).collect();
        same_terms(&format!("enriched column {i}"), &got, &m.terms::<F>(i))?;
    }
    for (c, k) in raw.reqs.borrow().iter() {
        ensure!(*k <= 1, "column {c:?} of the underlying matrix was computed {k} times");
    }
    Ok(())
}
fn c09(b: &Big, obs: &mut Obs) -> Result<(), String> {
    with_few!(b.field, c09_f::<_>(b, obs))
}

// ---------------------------------------------------------------- C11

fn c11_f<F: TF>(b: &Big, obs: &mut Obs) -> Result<(), String> {
    classify(b, obs);
    let mut rs = Rs(b.seed ^ 11);
    let base = long_column(b.n, b.n, b.shape, &mut rs);
    let fv = |r: Lab| Fv((r.0 % 3) as i64);
    let mk = |t: &Vec<(i64, usize)>| VecVecMatrix::<F, Lab>::new([fterms::<F>(t, |r| Lab(r as u32))]);
    let truth = |t: &Vec<(i64, usize)>| sum_terms(fterms::<F>(t, |r| Lab(r as u32)));
    let want0 = truth(&base);
    let a = mk(&base);
    let mut variants: Vec<(String, Vec<(i64, usize)>)> = vec![("itself".into(), base.clone())];
    let mut v = base.clone();
    rs.shuffle(&mut v);
    variants.push(("shuffled".into(), v.clone()));
    v.push((2, 5));
    v.push((-2, 5));
    variants.push(("with a cancelling pair".into(), v));
    for p in [0, base.len() / 2, base.len() - 1, rs.below(base.len()), rs.below(base.len())] {
        for kind in 0..4 {
            let mut v = base.clone();
            match kind {
                0 => {
                    v.remove(p);
                }
                1 => v[p].0 += 1,
                2 => v[p].1 = (v[p].1 + 1) % (b.n + 1),
                _ => v.insert(p, (1, b.n + 1)),
            }
            if rs.below(2) == 0 {
                rs.shuffle(&mut v);
            }
            variants.push((format!("term {p} changed in way {kind}"), v));
        }
    }
    let (mut yes, mut no) = (false, false);
    for (name, v) in variants {
        let want = truth(&v) == want0;
        let m = mk(&v);
        let (af, mf) = ((&a).with_filtration(fv), (&m).with_filtration(fv));
        for (how, got) in [("", a.eq_on_col(&m, 0)), (", swapped", m.eq_on_col(&a, 0)), (", filtered", af.eq_on_col(&mf, 0))] {
            ensure!(got == want, "a column of {} terms against the same {name}{how}: eq_on_col is {got}", base.len());
        }
        yes |= want;
        no |= !want;
    }
    obs.nontrivial &= yes && no;
    Ok(())
}
fn c11(b: &Big, obs: &mut Obs) -> Result<(), String> {
    with_few!(b.field, c11_f::<_>(b, obs))
}

// ---------------------------------------------------------------- C12

fn basis_laws<B>(name: &str, b: &B, want: &[B::ElemT]) -> Result<(), String>
where
    B: ColBasis<ElemT: Hash + Debug>,
{
    let eq = |n: String, got: Vec<B::ElemT>| first_diff(&n, &got, want);
    let rwant = rev_list(want);
    ensure!(b.size() == want.len(), "{name}: size {}, expected {}", b.size(), want.len());
    eq(name.to_string(), list_of(b))?;
    let look = b.construct_reverse_lookup();
    ensure!(look.len() == want.len(), "{name}: reverse lookup has {} entries for {}", look.len(), want.len());
    for (i, e) in want.iter().enumerate() {
        ensure!(look.get(e) == Some(&i), "{name}: reverse lookup of {e:?} is {:?}, expected {i}", look.get(e));
    }
    let rev = b.reverse();
    ensure!(ColBasis::size(&rev) == want.len(), "reversed {name}: size {}", ColBasis::size(&rev));
    first_diff(&format!("reversed {name}"), &list_of(&rev), &rwant)?;
    first_diff(&format!("reversed {name} through its reference"), &list_of(&*rev), &rwant)?;
    let rl = rev.construct_reverse_lookup();
    for (i, e) in rwant.iter().enumerate() {
        ensure!(rl.get(e) == Some(&i), "reversed {name}: reverse lookup of {e:?} is {:?}, expected {i}", rl.get(e));
    }
    eq(format!("unreversed reversed {name}"), list_of(&ColBasis::unreverse(rev)))?;
    eq(format!("unreversed reversed {name} through its reference"), list_of(&*UnreverseBasis(&ReverseBasis(b))))?;
    Ok(())
}
fn c12_f(b: &Big, obs: &mut Obs) -> Result<(), String> {
    classify(b, obs);
    let mut rs = Rs(b.seed ^ 12);
    let n = b.n;
    basis_laws("standard basis", &StandardBasis::new(n), &(0..n).collect::<Vec<_>>())?;
    let m = big_mat(b);
    let list: Vec<Lab> = m.elems().into_iter().map(|i| m.lab(i)).collect();
    basis_laws("list", &list, &list)?;
    // many dimensions
    let k = 1 + rs.below(40);
    let mut dims: Vec<Vec<Lab>> = vec![vec![]; k];
    for l in list.iter() {
        dims[rs.below(k)].push(*l);
    }
    let split = SplitVec::concat(dims.clone());
    basis_laws("split basis", &split, &split.total)?;
    for (d, want) in dims.iter().enumerate() {
        let name = format!("dimension {d} of {k}");
        first_diff(&name, &list_of(split.in_dimension(d)), want)?;
        first_diff(&format!("{name}, reversed"), &list_of(ReverseBasis(&split).in_dimension(d)), &rev_list(want))?;
        first_diff(&format!("{name}, reversed through its reference"), &list_of((*ReverseBasis(&split)).in_dimension(d)), &rev_list(want))?;
        first_diff(&format!("{name}, unreversed"), &list_of(UnreverseBasis(ReverseBasis(&split)).in_dimension(d)), want)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

fn c13_f<F: TF>(b: &Big, obs: &mut Obs) -> Result<(), String> {
    classify(b, obs);
    let m = big_mat(b);
    let n = m.n();
    let mut rs = Rs(b.seed ^ 13);
    let cols: Vec<Vec<(F, Lab)>> = (0..n).map(|i| m.terms::<F>(i)).collect();
    let ones: Vec<Vec<Lab>> = cols.iter().map(|c| c.iter().map(|t| t.1).collect()).collect();
    let hm: FxHashMap<Lab, Vec<(F, Lab)>> = (0..n).map(|i| (m.lab(i), cols[i].clone())).collect();
    let stored: Vec<(&str, VecVecMatrix<F, Lab>)> = vec![
        ("iterators", VecVecMatrix::new(cols.iter().map(|c| c.iter().copied()))),
        ("vectors", VecVecMatrix::new(cols.clone())),
        ("an owned list", cols.clone().into()),
        ("a borrowed list", (&cols).into()),
        ("Cow", Cow::Borrowed(&cols).into()),
    ];
    let std: Vec<usize> = (0..n).collect();
    for (name, v) in stored.iter() {
        first_diff(&format!("basis of the matrix built from {name}"), &list_of(&*v.basis()), &std)?;
        for i in 0..n {
            let got: Vec<(F, Lab)> = v.column(i).collect();
            same_terms(&format!("matrix built from {name}: column {i}"), &got, &cols[i])?;
        }
    }
    let one = VecVecMatrix::<F, Lab>::new_all_one(ones.clone());
    let h = MapVecMatrix::from(&hm);
    let ho = MapVecMatrix::from(hm.clone());
    let mut order = std.clone();
    rs.shuffle(&mut order);
    for i in order {
        let w: Vec<(F, Lab)> = ones[i].iter().map(|r| (F::one(), *r)).collect();
        same_terms(&format!("all-ones matrix: column {i}"), &one.column(i).collect::<Vec<_>>(), &w)?;
        same_terms(&format!("matrix by key: column {i}"), &h.column(m.lab(i)).collect::<Vec<_>>(), &cols[i])?;
        same_terms(&format!("owned matrix by key: column {i}"), &ho.column(m.lab(i)).collect::<Vec<_>>(), &cols[i])?;
    }
    if F::TAG == Fld::Z2 {
        let s = SimpleZ2Matrix::new_all_one((0..n).map(|i| m.cols[i].iter().map(|t| t.1)));
        for i in 0..n {
            let got: Vec<usize> = s.column(i).map(|t| t.1).collect();
            let want: Vec<usize> = m.cols[i].iter().map(|t| t.1).collect();
            let sorted = |mut v: Vec<usize>| {
                v.sort();
                v
            };
            ensure!(sorted(got) == sorted(want), "SimpleZ2Matrix: column {i} differs");
        }
    }
    Ok(())
}
fn c13(b: &Big, obs: &mut Obs) -> Result<(), String> {
    with_few!(b.field, c13_f::<_>(b, obs))
}

// ---------------------------------------------------------------- C14

fn c14_f<F: TF>(b: &Big, obs: &mut Obs) -> Result<(), String> {
    classify(b, obs);
    let m = big_mat(b);
    let n = m.n();
    let mut rs = Rs(b.seed ^ 14);
    let raw = m.raw::<F>();
    let ka = (&raw).consolidate();
    let kk = (&ka).consolidate();
    let mut at = sample(n, &mut rs);
    at.extend((0..n).filter(|i| m.cols[*i].len() > 5));
    for i in at {
        let l = m.lab(i);
        let want = m.truth::<F>(i);
        for (name, got) in [("consolidated", ka.column(l).collect::<Vec<_>>()), ("consolidated twice", kk.column(l).collect())] {
            ensure!(got.len() == want.len(), "{name}: column {i} has {} terms, the vector {}", got.len(), want.len());
            same_vec(&format!("{name}: column {i}"), &sum_terms(got), &want)?;
        }
        let es = entries_of(&ka, l);
        ensure!(es.len() == want.len(), "enriched consolidated column {i} has {} terms, the vector {}", es.len(), want.len());
        for (_, r, f) in es.iter() {
            ensure!(*f == raw.filtration_value(*r), "enriched consolidated column {i}: row {r:?} carries {f:?}");
        }
        same_vec(&format!("enriched consolidated column {i}"), &sum_terms(es.into_iter().map(|(c, r, _)| (c, r))), &want)?;
        ensure!(ka.eq_on_col(&&raw, l), "the consolidation differs from the matrix on column {i}");
    }
    first_diff("basis of the consolidation", &list_of(&*ka.basis()), &raw.basis.total)
}
fn c14(b: &Big, obs: &mut Obs) -> Result<(), String> {
    with_few!(b.field, c14_f::<_>(b, obs))
}

// ---------------------------------------------------------------- complexes

/// A graph with long cycles: a path, star, random tree or caterpillar, closed by a few chords, one of
/// the cycles perhaps filled by a two-cell.
pub fn big_graph(b: &Big) -> Cpx {
    let n = b.n.max(2);
    let mut rs = Rs(b.seed);
    let mut parent = vec![0usize; n];
    // beyond this size only graphs whose reduction takes linear time, but for the chords
    let huge = n > 1200;
    let shape = if huge { b.shape % 2 * 2 } else { b.shape % 5 };
    for i in 1..n {
        parent[i] = match shape {
            0 | 1 => i - 1,
            2 => 0,
            3 => rs.below(i),
            _ => i.saturating_sub(1 + rs.below(3)),
        };
    }
    let mut dims = vec![0; n];
    let times = rs.below(if huge { 2 } else { 4 });
    let mut fil = vec![0i64; n];
    let mut cols: Vec<Vec<(i64, usize)>> = vec![vec![]; n];
    for i in 1..n {
        dims.push(1);
        fil.push(match times {
            0 => 0,
            1 => i as i64,
            2 => (n - i) as i64,
            _ => rs.below(n) as i64,
        });
        cols.push(vec![(-1, parent[i]), (1, i)]);
    }
    let edge = |i: usize| n + i - 1;
    let base = 1 + n as i64;
    for k in 0..1 + rs.below(4) {
        // the first chord spans as much as possible
        let (u, v) = if k == 0 && shape < 2 { (0, n - 1) } else { (rs.below(n), rs.below(n)) };
        if u == v {
            continue;
        }
        let e = dims.len();
        dims.push(1);
        fil.push(base + rs.below(4) as i64);
        cols.push(vec![(-1, u), (1, v)]);
        if rs.below(2) == 0 {
            // boundary of the filled cycle: the chord and the tree path back from v to u
            let up = |mut x: usize| {
                let mut p = vec![x];
                while x != 0 {
                    x = parent[x];
                    p.push(x);
                }
                p
            };
            let (mut pu, mut pv) = (up(u), up(v));
            while pu.len() > 1 && pv.len() > 1 && pu[pu.len() - 2] == pv[pv.len() - 2] {
                pu.pop();
                pv.pop();
            }
            while pu.len() > 0 && pv.len() > 0 && pu.last() == pv.last() {
                pu.pop();
                pv.pop();
            }
            let mut c = vec![(1, e)];
            c.extend(pu.iter().map(|x| (1, edge(*x))));
            c.extend(pv.iter().map(|x| (-1, edge(*x))));
            dims.push(2);
            fil.push(base + 4);
            cols.push(c);
        }
    }
    let lseed = if rs.below(3) == 0 && !huge { rs.next() } else { 0 };
    let label = big_labels(dims.len(), lseed);
    Cpx { field: b.field, dims, fil, label, cols }
}
/// Distinct labels for any number of elements, shuffled when a seed is given.
pub fn big_labels(n: usize, seed: u64) -> Vec<u32> {
    let mut label: Vec<u32> = (0..n as u32).collect();
    if seed != 0 {
        Rs(seed).shuffle(&mut label);
    }
    label
}

pub fn scale(prop: &str) -> Box<dyn AnyTest> {
    let t = |cases: (u32, u32), rule: &'static str, strat: fn(Tier) -> BoxedStrategy<Big>, check: Check<Big>| -> Box<dyn AnyTest> {
        Box::new(Test::<Big> { name: "large", cases, rule, strat, check, shards: 8 })
    };
    match prop {
        "C05" => t((12_000, 200_000), "heap columns of 30 to 70000 terms (distinct rows, few rows, nearly all cancelling), added in bulk or one at a time, in up to three rounds of additions and extractions, against an ordered map; every case is non-trivial", |_| bigs(70_000), c05),
        "C07" => t((8_000, 120_000), "products and sums of matrices with up to 20000 columns or one column of as many terms, compared at the ends, around powers of two and ten and at random columns; every case is non-trivial", |_| bigs(20_000), c07),
        "C08" | "C10" => t((3_200, 40_000), "thirteen adaptor stacks over matrices with up to 8000 columns or one column of as many terms, compared at the ends, around powers of two and ten and at random columns, with all filtration values and the whole basis; every case is non-trivial", |_| bigs(8_000), c08),
        "C09" => t((2_400, 40_000), "every column of a cached matrix with up to 70000 columns or one column of as many terms, requested four times in different orders, up to 2000 iterators open at once, with request counters; every case is non-trivial", |_| bigs(70_000), c09),
        "C11" => t((2_400, 40_000), "columns of 30 to 20000 terms against shuffled copies and copies with one term changed at the ends, in the middle or anywhere; non-trivial when both answers occur", |_| bigs(20_000), c11),
        "C12" => t((8_000, 100_000), "standard bases, lists and bases split into up to 40 dimensions, of 30 to 70000 elements; every case is non-trivial", |_| bigs(70_000), c12_f),
        "C13" => t((3_200, 40_000), "stored matrices of up to 70000 columns or with one column of as many terms, by every construction route; every case is non-trivial", |_| bigs(70_000), c13),
        "C14" => t((12_000, 150_000), "consolidation of matrices with up to 20000 columns or one column of as many terms; every case is non-trivial", |_| bigs(20_000), c14),
        _ => unreachable!(),
    }
}
