//! R01-R06: Vietoris-Rips complexes and the command line.
use ordered_float::NotNan;
use pbt::complexes::{labels, Rs};
use pbt::fields::*;
use pbt::fw::*;
use pbt::gens::*;
use pbt::mats::*;
use pbt::{ensure, refla, with_field};

use phlite::matrices::combinators::product;
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use phlite::reduction::{standard_algo_with_diagram, ClearedReductionMatrix};
use phlite_rips::cohomology::build_rips_coboundary_matrix;
use phlite_rips::homology::build_rips_boundary_matrix;
use phlite_rips::{build_rips_bases, RipsIndex};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, HashMap};

// ---------------------------------------------------------------- reference

/// All vertex sets of k elements among n, ascending.
fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    let mut cur: Vec<usize> = (0..k).collect();
    if k > n {
        return out;
    }
    loop {
        out.push(cur.clone());
        let Some(i) = (0..k).rev().find(|i| cur[*i] < n - k + i) else { return out };
        cur[i] += 1;
        for j in i + 1..k {
            cur[j] = cur[j - 1] + 1;
        }
    }
}
fn enc(s: &[usize], n: usize) -> Result<RipsIndex, String> {
    RipsIndex::from_indices(s.iter().copied(), n).ok_or_else(|| format!("{s:?} on {n} points has no code"))
}

/// (dimension, birth, death) with the bits of non-negative floats.
type Bar = (usize, u64, Option<u64>);
fn show(b: &[Bar]) -> String {
    let f = |x: u64| f64::from_bits(x);
    b.iter().map(|(d, x, y)| format!("(dim {d}: {} to {})", f(*x), y.map(|y| f(y).to_string()).unwrap_or("never".into()))).collect::<Vec<_>>().join(" ")
}
fn bits(x: f64) -> u64 {
    (x + 0.0).to_bits()
}
fn sorted(mut v: Vec<Bar>) -> Vec<Bar> {
    v.sort();
    v
}

/// Persistent homology of the Rips filtration in dimensions 0..=maxdim, from the boundary matrices
/// of all simplices up to dimension maxdim+1, reduced modulo p.
fn ref_bars(d: &Dist, maxdim: usize, p: u64) -> Vec<Bar> {
    let mut bars = vec![];
    // order of each dimension
    let ordered: Vec<Vec<(u64, Vec<usize>)>> = (0..=maxdim + 1)
        .map(|k| {
            let mut v: Vec<(u64, Vec<usize>)> = subsets(d.n, k + 1).into_iter().map(|s| (bits(d.diam(&s)), s)).collect();
            v.sort();
            v
        })
        .collect();
    let mut killers: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); maxdim + 2];
    for k in 1..=maxdim + 1 {
        let pos: HashMap<&Vec<usize>, usize> = ordered[k - 1].iter().enumerate().map(|(i, (_, s))| (s, i)).collect();
        let cols: Vec<Vec<(usize, u64)>> = ordered[k]
            .iter()
            .map(|(_, s)| {
                (0..s.len())
                    .map(|i| {
                        let mut f = s.clone();
                        f.remove(i);
                        (pos[&f], refla::of_i(if i % 2 == 0 { 1 } else { -1 }, p))
                    })
                    .collect()
            })
            .collect();
        let mut births = BTreeSet::new();
        for (c, piv) in refla::reduce_pivots(&cols, ordered[k - 1].len(), p).into_iter().enumerate() {
            if let Some(r) = piv {
                births.insert(r);
                killers[k].insert(c);
                bars.push((k - 1, ordered[k - 1][r].0, Some(ordered[k][c].0)));
            }
        }
        for i in 0..ordered[k - 1].len() {
            if !births.contains(&i) && !killers[k - 1].contains(&i) {
                bars.push((k - 1, ordered[k - 1][i].0, None));
            }
        }
    }
    sorted(bars)
}
/// Finite dimension-zero bars by Kruskal's algorithm.
fn mst(d: &Dist) -> Vec<u64> {
    let mut es: Vec<(u64, usize, usize)> = subsets(d.n, 2).into_iter().map(|e| (bits(d.d(e[0], e[1])), e[0], e[1])).collect();
    es.sort();
    let mut comp: Vec<usize> = (0..d.n).collect();
    let mut out = vec![];
    for (w, a, b) in es {
        if comp[a] != comp[b] {
            let (x, y) = (comp[a], comp[b]);
            comp.iter_mut().for_each(|c| {
                if *c == y {
                    *c = x
                }
            });
            out.push(w);
        }
    }
    out
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
enum Route {
    CoClear,
    CoStd,
    Clear,
    Std,
}
const ROUTES: [Route; 4] = [Route::CoClear, Route::CoStd, Route::Clear, Route::Std];

/// Bars by one route. The homology routes are given the simplices up to maxdim+1, so that every
/// route determines dimensions 0..=maxdim.
fn lib_bars<F: TF>(d: &Dist, maxdim: usize, route: Route) -> Vec<Bar> {
    let dm = d.matrix();
    let n = d.n;
    let mut out = vec![];
    match route {
        Route::CoClear | Route::CoStd => {
            let m = build_rips_coboundary_matrix::<F>(dm, maxdim);
            let m = m.reverse();
            let diag = if route == Route::CoClear {
                ClearedReductionMatrix::build_with_diagram(&m, 0..=maxdim).1
            } else {
                standard_algo_with_diagram(&m, true).1
            };
            let f = |i: &Reverse<RipsIndex>| bits(m.filtration_value(*i).0.into_inner());
            for (death, birth) in diag.pairings.iter() {
                out.push((birth.0.dimension(n), f(birth), Some(f(death))));
            }
            for e in diag.essential.iter() {
                out.push((e.0.dimension(n), f(e), None));
            }
        }
        Route::Clear | Route::Std => {
            let m = build_rips_boundary_matrix::<F>(dm, maxdim + 1);
            let diag = if route == Route::Clear {
                ClearedReductionMatrix::build_with_diagram(&m, (0..=maxdim + 1).rev()).1
            } else {
                standard_algo_with_diagram(&m, false).1
            };
            let f = |i: &RipsIndex| bits(m.filtration_value(*i).into_inner());
            for (birth, death) in diag.pairings.iter() {
                out.push((birth.dimension(n), f(birth), Some(f(death))));
            }
            for e in diag.essential.iter() {
                out.push((e.dimension(n), f(e), None));
            }
            // cycles in the top dimension are not determined
            out.retain(|b| b.0 <= maxdim);
        }
    }
    sorted(out)
}
fn lib_bars_of(f: Fld, d: &Dist, maxdim: usize, route: Route) -> Vec<Bar> {
    with_field!(f, lib_bars::<_>(d, maxdim, route))
}
fn positive(b: &[Bar]) -> Vec<Bar> {
    b.iter().filter(|x| x.2 != Some(x.1)).cloned().collect()
}
fn compare(name: &str, got: &[Bar], want: &[Bar]) -> Result<(), String> {
    ensure!(got == want, "{name}: bars {}; expected {}", show(got), show(want));
    Ok(())
}

// ---------------------------------------------------------------- R01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Code {
    n: u64,
    a: Vec<u64>,
    b: Vec<u64>,
}
fn fit(mut v: Vec<u64>, n: u64) -> Vec<u64> {
    v.iter_mut().for_each(|x| *x %= n.max(1));
    v.sort();
    v.dedup();
    if n == 0 {
        v.clear();
    }
    // drop the largest vertices until the code fits
    loop {
        let mut code: u128 = 0;
        let mut ok = true;
        for x in v.iter().rev() {
            match code.checked_mul(n as u128 + 1).and_then(|c| c.checked_add(*x as u128 + 1)) {
                Some(c) if c <= u64::MAX as u128 => code = c,
                _ => ok = false,
            }
        }
        if ok {
            return v;
        }
        v.pop();
    }
}
fn r01_one(v: &[u64], n: u64) -> Result<Option<RipsIndex>, String> {
    let n = n as usize;
    let c = RipsIndex::from_indices(v.iter().map(|x| *x as usize), n);
    ensure!(c.is_some() != v.is_empty(), "{v:?} on {n} points encodes to {c:?}");
    if let Some(c) = c {
        let back: Vec<u64> = c.to_vec(n).into_iter().map(|x| x as u64).collect();
        ensure!(back == v, "{v:?} on {n} points is decoded to {back:?}");
        ensure!(c.dimension(n) + 1 == v.len(), "{v:?} on {n} points has dimension {}", c.dimension(n));
    }
    Ok(c)
}
fn r01(case: &Code, obs: &mut Obs) -> Result<(), String> {
    let a = fit(case.a.clone(), case.n);
    let b = fit(case.b.clone(), case.n);
    let ca = r01_one(&a, case.n)?;
    let cb = r01_one(&b, case.n)?;
    ensure!((ca == cb) == (a == b), "codes of {a:?} and {b:?} on {} points: {ca:?}, {cb:?}", case.n);
    obs.class_if(case.n >= 1 << 32, "more than 2^32 points");
    obs.class_if(a.len() >= 8, "eight vertices or more");
    let top: u128 = a.iter().rev().fold(0u128, |c, x| c * (case.n as u128 + 1) + *x as u128 + 1);
    obs.class_if(top >= 1 << 63, "code above 2^63");
    obs.nontrivial = a.len() >= 2 && b.len() >= 2 && a != b;
    Ok(())
}
/// All simplices on n points.
fn r01_all(n: &u64, obs: &mut Obs) -> Result<(), String> {
    let mut seen = HashMap::new();
    for mask in 0u64..1 << n {
        let v: Vec<u64> = (0..*n).filter(|i| mask >> i & 1 == 1).collect();
        if fit(v.clone(), *n) != v {
            continue;
        }
        if let Some(c) = r01_one(&v, *n)? {
            if let Some(o) = seen.insert(c, v.clone()) {
                return Err(format!("{v:?} and {o:?} on {n} points share the code {c:?}"));
            }
        }
    }
    obs.nontrivial = *n >= 2;
    Ok(())
}

// ---------------------------------------------------------------- R02, R03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RCase {
    dist: Dist,
    max_dim: usize,
    field: Fld,
}
fn rcases(lo: usize, hi: usize, mds: std::ops::Range<usize>) -> BoxedStrategy<RCase> {
    (dists(lo, hi), mds, any_field()).prop_map(|(dist, max_dim, field)| RCase { dist, max_dim, field }).boxed()
}
fn bases_ok<B>(name: &str, b: &B, d: &Dist, max_dim: usize) -> Result<(), String>
where
    B: ColBasis<ElemT = RipsIndex> + SplitByDimension,
{
    let n = d.n;
    let mut all = vec![];
    for k in 0..=max_dim {
        let got = list_of(b.in_dimension(k));
        let mut want: Vec<(NotNan<f64>, RipsIndex)> = vec![];
        for s in subsets(n, k + 1) {
            want.push((nn(d.diam(&s)), enc(&s, n)?));
        }
        want.sort();
        let want: Vec<RipsIndex> = want.into_iter().map(|x| x.1).collect();
        let dec = |v: &[RipsIndex]| v.iter().map(|i| i.to_vec(n)).collect::<Vec<_>>();
        ensure!(got == want, "{name}: dimension {k} is listed as {:?}, expected {:?}", dec(&got), dec(&want));
        all.extend(got);
    }
    let total = list_of(b);
    ensure!(total == all, "{name}: the total basis is not the concatenation over the dimensions");
    Ok(())
}
fn r02(case: &RCase, obs: &mut Obs) -> Result<(), String> {
    let d = &case.dist;
    let b = build_rips_bases(&d.matrix(), case.max_dim);
    bases_ok("build_rips_bases", &b, d, case.max_dim)?;
    with_field!(case.field, r02_mats::<_>(case))?;
    obs.class(format!("max_dim {}", case.max_dim));
    obs.class_if(case.max_dim >= d.n, "more dimensions than points");
    obs.class_if(d.up.contains(&-1), "infinite distances");
    obs.nontrivial = d.n >= 3 && d.distinct() >= 2;
    Ok(())
}
fn r02_mats<F: TF>(case: &RCase) -> Result<(), String> {
    let d = &case.dist;
    let m = build_rips_boundary_matrix::<F>(d.matrix(), case.max_dim);
    bases_ok("boundary", m.basis(), d, case.max_dim)?;
    let m = build_rips_coboundary_matrix::<F>(d.matrix(), case.max_dim);
    bases_ok("coboundary", m.basis(), d, case.max_dim)
}

fn r03_f<F: TF>(case: &RCase, obs: &mut Obs) -> Result<(), String> {
    let d = &case.dist;
    let n = d.n;
    let b = build_rips_boundary_matrix::<F>(d.matrix(), case.max_dim);
    let c = build_rips_coboundary_matrix::<F>(d.matrix(), case.max_dim);
    let sign = |i: usize| if i % 2 == 0 { F::one() } else { F::one().additive_inverse() };
    let (bb, cc) = (product(&b, &b), product(&c, &c));
    // entries of the two matrices, collected from opposite sides
    let mut from_b: BTreeMap<(RipsIndex, RipsIndex), F> = BTreeMap::new();
    let mut from_c: BTreeMap<(RipsIndex, RipsIndex), F> = BTreeMap::new();
    for k in 0..=case.max_dim + 1 {
        for s in subsets(n, k + 1) {
            let i = enc(&s, n)?;
            let dia = d.diam(&s);
            for (name, f) in [("boundary", b.filtration_value(i)), ("coboundary", c.filtration_value(i))] {
                ensure!(f.into_inner() == dia, "{name}: filtration value of {s:?} is {f}, its diameter is {dia}");
            }
            // facets
            let mut want: BTreeMap<RipsIndex, F> = BTreeMap::new();
            if k > 0 {
                for j in 0..s.len() {
                    let mut f = s.clone();
                    f.remove(j);
                    want.insert(enc(&f, n)?, sign(j));
                }
            }
            let got = vec_of(&b, i);
            ensure!(got == want, "boundary of {s:?} is {got:?}, expected {want:?}");
            for (r, x) in got {
                from_b.insert((r, i), x);
            }
            let sq = vec_of(&bb, i);
            ensure!(sq.is_empty(), "boundary of the boundary of {s:?} is {sq:?}");
            if k > case.max_dim {
                continue;
            }
            // cofacets
            let mut want: BTreeMap<RipsIndex, F> = BTreeMap::new();
            for v in (0..n).filter(|v| !s.contains(v)) {
                let mut f = s.clone();
                let p = f.iter().position(|x| *x > v).unwrap_or(f.len());
                f.insert(p, v);
                want.insert(enc(&f, n)?, sign(p));
            }
            let got = vec_of(&c, i);
            ensure!(got == want, "coboundary of {s:?} is {got:?}, expected {want:?}");
            for (r, x) in got {
                from_c.insert((i, r), x);
            }
            let sq = vec_of(&cc, i);
            ensure!(sq.is_empty(), "coboundary of the coboundary of {s:?} is {sq:?}");
        }
    }
    ensure!(from_b == from_c, "boundary and coboundary are not transposes of each other");
    obs.class_if(d.up.contains(&-1), "infinite distances");
    obs.class_if(case.max_dim >= 2 && n >= 5, "tetrahedra and above");
    obs.nontrivial = n >= 3 && case.max_dim >= 1;
    Ok(())
}
fn r03(case: &RCase, obs: &mut Obs) -> Result<(), String> {
    obs.class(format!("{:?}", case.field));
    with_field!(case.field, r03_f::<_>(case, obs))
}

/// One column of each matrix, among many points.
fn r03_single_f<F: TF>(case: &Single, obs: &mut Obs) -> Result<(), String> {
    let d = case.dist();
    let n = d.n;
    let s = case.simplex();
    let b = build_rips_boundary_matrix::<F>(d.matrix(), 0);
    let c = build_rips_coboundary_matrix::<F>(d.matrix(), 0);
    let sign = |i: usize| if i % 2 == 0 { F::one() } else { F::one().additive_inverse() };
    let i = enc(&s, n)?;
    let near: Vec<Vec<usize>> = (0..n)
        .filter(|v| !s.contains(v))
        .map(|v| {
            let mut f = s.clone();
            f.insert(f.iter().position(|x| *x > v).unwrap_or(f.len()), v);
            f
        })
        .collect();
    let facets: Vec<Vec<usize>> = if s.len() == 1 {
        vec![]
    } else {
        (0..s.len())
            .map(|j| {
                let mut f = s.clone();
                f.remove(j);
                f
            })
            .collect()
    };
    for x in std::iter::once(&s).chain(&facets).chain(&near) {
        let (j, dia) = (enc(x, n)?, d.diam(x));
        let (f, g) = (b.filtration_value(j).into_inner(), c.filtration_value(j).into_inner());
        ensure!(f == dia && g == dia, "filtration values of {x:?} on {n} points are {f} and {g}, its diameter is {dia}");
    }
    let mut want: BTreeMap<RipsIndex, F> = BTreeMap::new();
    for (j, f) in facets.iter().enumerate() {
        want.insert(enc(f, n)?, sign(j));
    }
    let got = vec_of(&b, i);
    ensure!(got == want, "boundary of {s:?} on {n} points is {got:?}, expected {want:?}");
    let mut want: BTreeMap<RipsIndex, F> = BTreeMap::new();
    for f in near.iter() {
        let p = (0..f.len()).find(|p| s.get(*p) != Some(&f[*p])).unwrap();
        let j = enc(f, n)?;
        want.insert(j, sign(p));
        let back = vec_of(&b, j);
        ensure!(back.get(&i) == Some(&sign(p)) && back.len() == f.len(), "boundary of {f:?} on {n} points is {back:?}, which should have {s:?} with sign {p}");
    }
    let got = vec_of(&c, i);
    ensure!(got == want, "coboundary of {s:?} on {n} points is {got:?}, expected {want:?}");
    for (name, es) in [("boundary", entries_of(&b.matrix, i)), ("coboundary", entries_of(&c.matrix, i))] {
        let mut sum = BTreeMap::new();
        for (x, r, f) in es {
            let dia = d.diam(&r.to_vec(n));
            ensure!(f.into_inner() == dia, "{name} of {s:?} on {n} points gives {:?} the value {f}, its diameter is {dia}", r.to_vec(n));
            add_terms(&mut sum, [(x, r)]);
        }
        let plain = if name == "boundary" { vec_of(&b, i) } else { vec_of(&c, i) };
        ensure!(sum == plain, "{name} of {s:?} with filtration is {sum:?}, without {plain:?}");
    }
    obs.class_if(n > 64, "more than 64 points");
    obs.class_if(n > 255, "more than 255 points");
    obs.class_if(s.len() >= 5, "five vertices or more");
    obs.nontrivial = s.len() >= 2 && !near.is_empty();
    Ok(())
}
fn r03_single(case: &Single, obs: &mut Obs) -> Result<(), String> {
    with_field!(case.field, r03_single_f::<_>(case, obs))
}

// ---------------------------------------------------------------- R04

/// A flag triangulation of the disc with its boundary wrapped k times around a 4-cycle, points
/// renumbered, short distances (1..=3) on its edges and long ones elsewhere.
fn moore(k: usize, seed: u64, far: i32) -> Dist {
    let (m, n) = (4 * k, 4 * k + 5);
    let mut adj = BTreeSet::new();
    let ring = |i: usize| 4 + i % m;
    for i in 0..4 {
        adj.insert((i, (i + 1) % 4));
    }
    for i in 0..m {
        adj.insert((ring(i), ring(i + 1)));
        adj.insert((ring(i), i % 4));
        adj.insert((ring(i), (i + 1) % 4));
        adj.insert((ring(i), n - 1));
    }
    let mut rs = Rs(seed);
    let mut perm: Vec<usize> = (0..n).collect();
    if seed != 0 {
        rs.shuffle(&mut perm);
    }
    let noise: Vec<i32> = (0..n * n).map(|_| if seed == 0 { 0 } else { rs.below(3) as i32 }).collect();
    Dist::from_fn(n, 0, |i, j| {
        let (a, b) = (perm[i], perm[j]);
        if adj.contains(&(a, b)) || adj.contains(&(b, a)) {
            1 + noise[i * n + j]
        } else {
            far
        }
    })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Torsion {
    k: usize,
    seed: u64,
    far: i32,
    max_dim: usize,
    field: Fld,
    route: Route,
}
fn r04_torsion(t: &Torsion, obs: &mut Obs) -> Result<(), String> {
    let d = moore(t.k, t.seed, t.far);
    let got = lib_bars_of(t.field, &d, t.max_dim, t.route);
    let want = ref_bars(&d, t.max_dim, t.field.refp());
    compare(&format!("{:?} over {:?}", t.route, t.field), &got, &want)?;
    let torsion = t.field.p() != 0 && t.k as u64 % t.field.p() == 0;
    obs.class(format!("{:?}", t.field));
    obs.class_if(torsion, "the field sees the torsion");
    obs.nontrivial = positive(&want).len() >= 2;
    // at scale 3 the complex is the glued disc: H1 is one-dimensional exactly when p divides k
    let betti = want.iter().filter(|b| b.0 == 1 && b.1 <= bits(3.0) && b.2.is_none_or(|x| x > bits(3.0))).count();
    if t.far > 3 || t.far < 0 {
        ensure!(betti == usize::from(torsion), "{HARNESS} torsion example");
    }
    Ok(())
}
fn r04(case: &RCase, obs: &mut Obs) -> Result<(), String> {
    let d = &case.dist;
    let want = ref_bars(d, case.max_dim, case.field.refp());
    for route in ROUTES {
        let got = lib_bars_of(case.field, d, case.max_dim, route);
        compare(&format!("{route:?} over {:?}, dimensions up to {}", case.field, case.max_dim), &got, &want)?;
        let mut h0: Vec<u64> = got.iter().filter(|b| b.0 == 0).filter_map(|b| b.2).collect();
        let mut tree = mst(d);
        h0.sort();
        tree.sort();
        ensure!(h0 == tree, "{route:?}: finite bars in dimension 0 end at {h0:?}, minimum spanning tree weights {tree:?} (bits)");
    }
    let pos = positive(&want);
    obs.class(format!("{:?}", case.field));
    obs.class_if(pos.iter().any(|b| b.0 == 1), "a positive bar in dimension 1");
    obs.class_if(pos.iter().any(|b| b.0 >= 2), "a positive bar in dimension 2 or more");
    obs.class_if(want.iter().any(|b| b.1 == bits(f64::INFINITY)), "a bar born at infinity");
    obs.class_if(case.max_dim == 0, "maximum dimension 0");
    obs.nontrivial = pos.iter().any(|b| b.0 >= 1 && b.2.is_some()) || (case.max_dim == 0 && d.n >= 3);
    Ok(())
}
/// Cycles of given lengths with the distances along them, far from each other: in dimension 1 each
/// gives one bar, from 1 to the first distance not below a third of its length.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cycles {
    lens: Vec<usize>,
    /// How far from each other; infinitely far at 0.
    far: u8,
    unit: u8,
    field: Fld,
    route: Route,
    seed: u64,
}
fn r04_cycles(c: &Cycles, obs: &mut Obs) -> Result<(), String> {
    let n: usize = c.lens.iter().sum();
    let mut at: Vec<(usize, usize)> = c.lens.iter().enumerate().flat_map(|(k, l)| (0..*l).map(move |i| (k, i))).collect();
    Rs(c.seed).shuffle(&mut at);
    let far = if c.far == 0 { -1 } else { n as i32 + c.far as i32 };
    let d = Dist::from_fn(n, c.unit, |i, j| {
        let (x, y) = (at[i], at[j]);
        if x.0 != y.0 {
            return far;
        }
        let k = x.1.abs_diff(y.1);
        k.min(c.lens[x.0] - k) as i32
    });
    let v = |code: i32| bits(d.value(code));
    let mut want: Vec<Bar> = vec![(0, v(0), None)];
    want.extend((1..c.lens.len()).map(|_| (0, v(0), Some(v(far)))));
    for l in &c.lens {
        want.extend((1..*l).map(|_| (0, v(0), Some(v(1)))));
        if *l >= 4 {
            want.push((1, v(1), Some(v(l.div_ceil(3) as i32))));
        }
    }
    let got = positive(&lib_bars_of(c.field, &d, 1, c.route));
    compare(&format!("{:?} over {:?} on cycles of {:?} points", c.route, c.field, c.lens), &got, &sorted(want))?;
    obs.class_if(n >= 30, "thirty points or more");
    obs.class_if(c.lens.iter().filter(|l| **l >= 4).count() >= 2, "two bars or more in dimension 1");
    obs.nontrivial = c.lens.iter().any(|l| *l >= 4);
    Ok(())
}
/// Many points, whose distances are made from a seed.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    n: usize,
    values: u16,
    infinite: u8,
    unit: u8,
    field: Fld,
    route: Route,
    seed: u64,
}
impl Many {
    fn dist(&self) -> Dist {
        let rs = std::cell::RefCell::new(Rs(self.seed));
        Dist::from_fn(self.n, self.unit, |_, _| {
            let mut rs = rs.borrow_mut();
            if rs.below(256) < self.infinite as usize {
                -1
            } else {
                rs.below(self.values as usize + 1) as i32
            }
        })
    }
}
fn manys(lo: usize, hi: usize, cohomology: bool) -> BoxedStrategy<Many> {
    let values = prop_oneof![Just(1u16), 2u16..20, 20u16..=u16::MAX];
    let infinite = prop_oneof![2 => Just(0u8), 1 => Just(10u8), 1 => Just(253u8)];
    (lo..=hi, values, infinite, 0u8..8, any_field(), 0usize..if cohomology { 2 } else { 4 }, any::<u64>())
        .prop_map(|(n, values, infinite, unit, field, r, seed)| Many { n, values, infinite, unit, field, route: ROUTES[r], seed })
        .boxed()
}
fn r04_many(c: &Many, obs: &mut Obs) -> Result<(), String> {
    let d = c.dist();
    let mut want: Vec<Bar> = mst(&d).into_iter().map(|w| (0, bits(0.0), Some(w))).collect();
    if c.n > 0 {
        want.push((0, bits(0.0), None));
    }
    let got = lib_bars_of(c.field, &d, 0, c.route);
    compare(&format!("{:?} over {:?} on {} points", c.route, c.field, c.n), &got, &sorted(want))?;
    obs.class_if(c.n > 255, "more than 255 points");
    obs.nontrivial = c.n > 64;
    Ok(())
}
fn r02_many(c: &Many, obs: &mut Obs) -> Result<(), String> {
    r02(&RCase { dist: c.dist(), max_dim: (c.n <= 120 || c.seed % 4 == 0 && c.n <= 320) as usize, field: c.field }, obs)?;
    obs.class_if(c.n > 255, "more than 255 points");
    Ok(())
}
/// Every distance matrix on 3 and 4 points with entries in a small set.
fn r04_small(tier: Tier) -> Vec<RCase> {
    let mut out = vec![];
    let mut add = |n: usize, vals: &[i32], fields: &[Fld], mds: std::ops::RangeInclusive<usize>| {
        let m = n * (n - 1) / 2;
        for code in 0..vals.len().pow(m as u32) {
            let mut k = code;
            let up = (0..m)
                .map(|_| {
                    let x = vals[k % vals.len()];
                    k /= vals.len();
                    x
                })
                .collect::<Vec<_>>();
            for f in fields {
                for md in mds.clone() {
                    out.push(RCase { dist: Dist { n, unit: 0, up: up.clone() }, max_dim: md, field: *f });
                }
            }
        }
    };
    add(1, &[0], &[Fld::Z2, Fld::Z3, Fld::Q], 0..=3);
    add(2, &[-1, 0, 1], &[Fld::Z2, Fld::Z3, Fld::Q], 0..=3);
    add(3, &[-1, 0, 1, 2, 3], &[Fld::Z2, Fld::Z3], 0..=2);
    add(4, &[0, 1, 2], &[Fld::Z2, Fld::Z3], 0..=2);
    if tier == Tier::Thorough {
        add(4, &[-1, 0, 1, 2, 3], &[Fld::Z2, Fld::Z3, Fld::Q], 0..=3);
        add(5, &[1, 2, 3], &[Fld::Z2, Fld::Z5], 1..=2);
    }
    out
}

// ---------------------------------------------------------------- R05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Meta {
    dist: Dist,
    max_dim: usize,
    field: Fld,
    route: Route,
    perm: u64,
    /// Positive increments of a strictly increasing map on the codes.
    incs: Vec<u8>,
    dup: u8,
    /// Perturbation of each entry, in codes.
    noise: Vec<i8>,
}
fn metas(lo: usize, hi: usize, md: std::ops::Range<usize>) -> BoxedStrategy<Meta> {
    (
        (dists(lo, hi), md, any_field(), 0usize..4),
        any::<u64>(),
        prop::collection::vec(1u8..9, 1..70),
        any::<u8>(),
        prop::collection::vec(-2i8..3, hi * hi),
    )
        .prop_map(|((dist, max_dim, field, r), perm, incs, dup, noise)| Meta { dist, max_dim, field, route: ROUTES[r], perm, incs, dup, noise })
        .boxed()
}
/// Number of bars of a dimension alive from s to t.
fn alive(b: &[Bar], k: usize, s: f64, t: f64) -> usize {
    b.iter().filter(|x| x.0 == k && x.1 <= bits(s) && x.2.is_none_or(|d| d > bits(t))).count()
}
fn r05(c: &Meta, obs: &mut Obs) -> Result<(), String> {
    let mut d = c.dist.clone();
    // units in which differences of values are exact
    d.unit = if d.unit >= 2 && d.unit != 4 { d.unit % 2 } else { d.unit };
    let n = d.n;
    let go = |x: &Dist| lib_bars_of(c.field, x, c.max_dim, c.route);
    let base = go(&d);
    // permutation of the points
    let mut perm: Vec<usize> = (0..n).collect();
    Rs(c.perm).shuffle(&mut perm);
    let p = Dist::from_fn(n, d.unit, |i, j| d.code(perm[i], perm[j]));
    compare("after permuting the points", &go(&p), &base)?;
    // strictly increasing map of the distances
    let f = |code: i32| -> i32 {
        if code < 0 {
            return code;
        }
        (0..code as usize).map(|i| c.incs[i % c.incs.len()] as i32).sum()
    };
    let mapped = Dist { n, unit: 0, up: d.up.iter().map(|x| f(*x)).collect() };
    let tr: HashMap<u64, u64> = std::iter::once(0).chain(d.up.iter().copied()).map(|x| (bits(d.value(x)), bits(mapped.value(f(x))))).collect();
    let get = |x: u64| tr.get(&x).copied().ok_or_else(|| format!("the endpoint {} is not a distance", f64::from_bits(x)));
    let mut want = vec![];
    for b in base.iter() {
        want.push((b.0, get(b.1)?, b.2.map(get).transpose()?));
    }
    compare("after an increasing map of the distances", &go(&mapped), &sorted(want))?;
    // duplicate a point
    if n >= 1 {
        let q = c.dup as usize % n;
        let src = |i: usize| if i == n { q } else { i };
        let dd = Dist::from_fn(n + 1, d.unit, |i, j| d.code(src(i), src(j)));
        let got = go(&dd);
        compare("bars of positive length after duplicating a point", &positive(&got), &positive(&base))?;
    }
    // stability, only when no distance is infinite; exact in codes
    let mut eps = 0;
    if d.up.iter().all(|x| *x >= 0) {
        let unit = d.value(1);
        let e = Dist { n, unit: d.unit, up: d.up.iter().zip(c.noise.iter()).map(|(x, y)| (x + *y as i32).max(0)).collect() };
        eps = d.up.iter().zip(e.up.iter()).map(|(x, y)| (x - y).abs()).max().unwrap_or(0);
        let other = go(&e);
        let top = d.up.iter().chain(e.up.iter()).copied().max().unwrap_or(0) + 2;
        for k in 0..=c.max_dim {
            for s in 0..top {
                for t in s + 2 * eps..top {
                    let (a, b) = (alive(&base, k, s as f64 * unit, t as f64 * unit), alive(&other, k, (s + eps) as f64 * unit, (t - eps) as f64 * unit));
                    ensure!(a <= b, "distances moved by {eps} units: {a} bars of dimension {k} live from {s} to {t}, only {b} from {} to {} afterwards", s + eps, t - eps);
                    let (a, b) = (alive(&other, k, s as f64 * unit, t as f64 * unit), alive(&base, k, (s + eps) as f64 * unit, (t - eps) as f64 * unit));
                    ensure!(a <= b, "distances moved by {eps} units: {a} bars of dimension {k} live from {s} to {t} afterwards, only {b} from {} to {} before", s + eps, t - eps);
                }
            }
        }
    }
    obs.class(format!("{:?}", c.route));
    obs.class_if(eps > 0, "perturbed");
    obs.nontrivial = positive(&base).iter().any(|b| b.0 >= 1) || (c.max_dim == 0 && positive(&base).len() >= 3);
    Ok(())
}

// ---------------------------------------------------------------- R06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cli {
    dist: Dist,
    /// 0: as is, otherwise another factor for the codes.
    scale: u8,
    dim: Option<usize>,
    /// How numbers and lines are written.
    style: u8,
}
const SCALES: [f64; 7] = [0.0, 0.004, 1000.0, 1e-7, 0.02, 12345678.5, 0.01];
impl Cli {
    fn value(&self, i: usize, j: usize) -> f64 {
        let c = self.dist.code(i, j);
        let k = self.scale as usize % SCALES.len();
        if k == 0 || c < 0 {
            self.dist.value(c)
        } else {
            c as f64 * SCALES[k]
        }
    }
    fn number(&self, x: f64, rs: &mut Rs) -> String {
        match (self.style % 4, rs.below(4)) {
            (0, _) => format!("{x}"),
            (_, 0) => format!("{x:e}"),
            (_, 1) => format!("+{x}"),
            (_, 2) => format!("\"{x}\""),
            _ => format!("{x}"),
        }
    }
    fn rows(&self) -> Vec<Vec<String>> {
        let mut rs = Rs(self.style as u64);
        (0..self.dist.n).map(|i| (0..self.dist.n).map(|j| self.number(self.value(i, j), &mut rs)).collect()).collect()
    }
    fn text(&self, rows: &[Vec<String>]) -> String {
        let eol = if self.style / 4 % 2 == 0 { "\n" } else { "\r\n" };
        let mut s = rows.iter().map(|r| r.join(",")).collect::<Vec<_>>().join(eol);
        if self.style / 8 % 2 == 0 && !rows.is_empty() {
            s.push_str(eol);
        }
        s
    }
}
struct Ran {
    ok: bool,
    out: String,
    err: String,
}
fn run_cli(input: &str, args: &[String]) -> Result<Ran, String> {
    use std::io::{Read, Write};
    use std::process::{Command, Stdio};
    let exe = std::env::var("PBT_TARGET").map_err(|_| format!("{HARNESS}: PBT_TARGET unset"))? + "/cli/debug/phlite_rips_cli";
    let mut ch = Command::new(&exe)
        .args(args)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("{HARNESS}: cannot start {exe}: {e}"))?;
    let mut si = ch.stdin.take().unwrap();
    let text = input.to_string();
    let w = std::thread::spawn(move || {
        let _ = si.write_all(text.as_bytes());
    });
    let mut eo = ch.stderr.take().unwrap();
    let er = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = eo.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let mut so = ch.stdout.take().unwrap();
    let or = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = so.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    // inputs take milliseconds; a minute means the program does not finish
    let t0 = std::time::Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(st)) => break Some(st),
            Ok(None) if t0.elapsed().as_secs() > 60 => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            Ok(None) => std::thread::sleep(std::time::Duration::from_micros(if t0.elapsed().as_millis() < 20 { 200 } else { 3000 })),
            Err(e) => return Err(format!("{HARNESS}: wait: {e}")),
        }
    };
    let _ = w.join();
    let out = or.join().unwrap_or_default();
    let err = er.join().unwrap_or_default();
    match st {
        None => Err("the command line did not finish within 60 s".into()),
        Some(s) => Ok(Ran { ok: s.success(), out, err }),
    }
}
fn parse_f(s: &str) -> Option<f64> {
    s.trim().parse().ok()
}
/// Parsed output: basis sizes and bars.
fn parse(out: &str) -> Result<(Vec<(usize, usize)>, Vec<Bar>), String> {
    let mut sizes = vec![];
    let mut bars = vec![];
    let mut section = "";
    for line in out.lines() {
        let l = line.trim();
        let bad = || format!("cannot read the output line {line:?}");
        if l.is_empty() {
        } else if l == "Basis sizes:" || l == "Essential:" || l == "Pairings:" {
            section = &l[..1];
        } else if let Some(r) = l.strip_prefix("Dimension ") {
            ensure!(section == "B", "basis size outside its section: {line:?}");
            let (a, b) = r.split_once(':').ok_or_else(bad)?;
            sizes.push((a.trim().parse().map_err(|_| bad())?, b.trim().parse().map_err(|_| bad())?));
        } else if let Some(r) = l.strip_prefix("dim=") {
            let (dim, _) = r.split_once(',').ok_or_else(bad)?;
            let dim: usize = dim.trim().parse().map_err(|_| bad())?;
            let k = r.rfind("f=(").ok_or_else(bad)?;
            let (a, b) = r[k + 3..].strip_suffix(')').and_then(|x| x.split_once(',')).ok_or_else(bad)?;
            let birth = bits(parse_f(a).ok_or_else(bad)?);
            match section {
                "E" => {
                    ensure!(b.trim() == "∞", "essential bar with an end: {line:?}");
                    bars.push((dim, birth, None));
                }
                "P" => bars.push((dim, birth, Some(bits(parse_f(b).ok_or_else(bad)?)))),
                _ => return Err(format!("bar outside its section: {line:?}")),
            }
        } else {
            return Err(bad());
        }
    }
    Ok((sizes, sorted(bars)))
}
fn r06(c: &Cli, obs: &mut Obs) -> Result<(), String> {
    let n = c.dist.n;
    let args: Vec<String> = c.dim.iter().map(|d| d.to_string()).collect();
    let input = c.text(&c.rows());
    let ran = run_cli(&input, &args)?;
    ensure!(ran.ok, "the command line fails on a valid matrix: {}", ran.err.lines().next().unwrap_or(""));
    let md = c.dim.unwrap_or(1);
    let (sizes, mut bars) = parse(&ran.out)?;
    // a class born and dying at infinity has no length to compare: it may be printed or not
    bars.retain(|(_, x, y)| !(f64::from_bits(*x).is_infinite() && *y == Some(*x)));
    let want_sizes: Vec<(usize, usize)> = (0..=md).map(|k| (k, subsets(n, k + 1).len())).collect();
    ensure!(sizes == want_sizes, "basis sizes {sizes:?}, expected {want_sizes:?}");
    // the same codes with the real values: rebuild through ranks of the values
    let mut vals: Vec<u64> = vec![bits(0.0)];
    for i in 0..n {
        for j in i + 1..n {
            vals.push(bits(c.value(i, j)));
        }
    }
    vals.sort();
    vals.dedup();
    let ranked = Dist::from_fn(n, 0, |i, j| vals.binary_search(&bits(c.value(i, j))).unwrap() as i32);
    let val = |b: u64| vals[f64::from_bits(b) as usize];
    let want: Vec<Bar> = ref_bars(&ranked, md, 2)
        .into_iter()
        .map(|(k, x, y)| (k, val(x), y.map(val)))
        .filter(|(_, x, y)| y.is_none_or(|y| f64::from_bits(y) - f64::from_bits(*x) > 0.01))
        .collect();
    compare("command line", &bars, &sorted(want.clone()))?;
    obs.class(format!("dimension argument {:?}", c.dim));
    obs.class_if(c.dist.up.contains(&-1), "infinite distances");
    obs.class_if(want.iter().any(|b| b.0 >= 1), "a bar in dimension 1 or more");
    obs.nontrivial = want.iter().any(|b| b.2.is_some());
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadCli {
    base: Cli,
    kind: u8,
    i: u8,
    j: u8,
    which: u8,
}
fn r06_bad(c: &BadCli, obs: &mut Obs) -> Result<(), String> {
    let n = c.base.dist.n;
    let mut rows = c.base.rows();
    let mut args: Vec<String> = c.base.dim.iter().map(|d| d.to_string()).collect();
    let (i, j) = (c.i as usize % n, c.j as usize % n);
    let what = match c.kind % 3 {
        0 => {
            let junk = ["abc", "NaN", "nan", "1.0.0", "0x1", "1e", "--1", "1 2", " ", "-NaN", "one", "1_000", "∞", "1.0f"];
            rows[i][j] = junk[c.which as usize % junk.len()].to_string();
            "an entry that is not a number"
        }
        1 => {
            if c.which % 2 == 0 || n < 3 {
                rows[i].push("1".into());
            } else {
                rows[i].pop();
            }
            "a ragged row"
        }
        _ => {
            let junk = ["x", "1.5", "-1", "", " 1", "1 ", "two", "0x1", "1e0", "NaN"];
            args = vec![junk[c.which as usize % junk.len()].to_string()];
            "a dimension that is not a number"
        }
    };
    let ran = run_cli(&c.base.text(&rows), &args)?;
    ensure!(!ran.ok, "the command line accepts {what}: input {rows:?}, arguments {args:?}");
    ensure!(!ran.out.contains("dim=") && !ran.out.contains("f=("), "the command line prints bars for {what}");
    obs.class(what);
    obs.nontrivial = true;
    Ok(())
}
fn r06_many(c: &Many, obs: &mut Obs) -> Result<(), String> {
    r06(&Cli { dist: c.dist(), scale: 0, dim: Some(0), style: (c.seed >> 8) as u8 }, obs)?;
    obs.class_if(c.n > 255, "more than 255 points");
    Ok(())
}
fn clis(lo: usize, hi: usize, mds: usize) -> BoxedStrategy<Cli> {
    (dists(lo, hi), 0u8..14, prop::option::weighted(0.8, 0..=mds), any::<u8>())
        .prop_map(|(dist, scale, dim, style)| Cli { dist, scale: if scale >= 7 { 0 } else { scale }, dim, style })
        .boxed()
}

fn registry(p: &str) -> Vec<Box<dyn AnyTest>> {
    match p {
        "R01" => vec![
            Box::new(Enum::<u64> {
                name: "all-simplices",
                rule: "all simplices on up to 16 points that fit the word; non-trivial with two points",
                cases: |t| (0..=if t == Tier::Quick { 16 } else { 20 }).collect(),
                check: r01_all,
                shards: 8,
            }),
            Box::new(Test::<Code> {
                name: "random-simplices",
                cases: (3_000_000, 42_000_000),
                rule: "random point counts of every magnitude and pairs of random simplices, cut to the word size; non-trivial for two different simplices with two vertices each",
                strat: |_| {
                    let n = prop_oneof![2 => 0u64..12, 2 => 0u64..300, 2 => any::<u16>().prop_map(|x| x as u64), 2 => any::<u32>().prop_map(|x| x as u64), 1 => 0..u64::MAX,
                        1 => (0u32..64, 0u64..3).prop_map(|(k, e)| (1u64 << k).saturating_sub(e).min(u64::MAX - 1))];
                    let v = prop_oneof![3 => prop::collection::vec(any::<u64>(), 0..7), 1 => prop::collection::vec(any::<u64>(), 5..40),
                        1 => prop::collection::vec(0u64..3, 0..4), 1 => prop::collection::vec((0u64..3).prop_map(|x| x.wrapping_sub(3)), 0..4)];
                    (n, v.clone(), v, any::<bool>())
                        .prop_map(|(n, a, b, near)| {
                            // also compare a simplex with a slightly different one
                            let b = if near { let mut x = a.clone(); if let (Some(l), Some(y)) = (x.last_mut(), b.first()) { *l = *y; } x } else { b };
                            // vertices near the top of the range
                            let fix = |v: Vec<u64>| v.into_iter().map(|x| if x > u64::MAX - 3 && n > 3 { n - 1 - (u64::MAX - x) } else { x }).collect::<Vec<_>>();
                            Code { n, a: fix(a), b: fix(b) }
                        })
                        .boxed()
                },
                check: r01,
                shards: 8,
            }),
        ],
        "R02" => vec![Box::new(Test::<Many> {
            name: "many-points",
            cases: (300, 6_000),
            rule: "64 to 800 points with random distances (few values, many values, infinities), maximum dimension 0, or 1 up to 320 points; non-trivial with two distances",
            strat: |_| manys(64, 800, true),
            check: r02_many,
            shards: 8,
        }), Box::new(Test::<RCase> {
            name: "bases",
            cases: (600_000, 8_400_000),
            rule: "random distance matrices on 0 to 9 points (rarely up to 150), maximum dimension 0 to 8; non-trivial with three points and two distances",
            strat: |t| prop_oneof![150 => rcases(0, 6, 0..6), 50 => rcases(5, if t == Tier::Quick { 9 } else { 12 }, 0..4), 10 => rcases(5, 9, 4..9), 1 => rcases(10, 40, 0..3), 1 => rcases(40, 150, 0..2)].boxed(),
            check: r02,
            shards: 8,
        })],
        "R03" => vec![Box::new(Test::<RCase> {
            name: "boundaries",
            cases: (300_000, 4_200_000),
            rule: "random distance matrices on 0 to 9 points, all simplices up to dimension max_dim+1 (0 to 8), all fields; non-trivial with three points and edges",
            strat: |t| prop_oneof![150 => rcases(0, 6, 0..5), 50 => rcases(5, if t == Tier::Quick { 9 } else { 11 }, 0..4), 10 => rcases(5, 8, 4..8), 1 => rcases(10, 20, 0..2)].boxed(),
            check: r03,
            shards: 8,
        }),
        Box::new(Test::<Single> {
            name: "single-simplices",
            cases: (40_000, 480_000),
            rule: "one simplex of up to 9 vertices among 2 to 700 points with random distances (few values, many values, infinities): facets, cofacets, the facets of every cofacet, and all their diameters; non-trivial with two vertices and a cofacet",
            strat: |_| singles(),
            check: r03_single,
            shards: 8,
        })],
        "R04" => vec![
            Box::new(Enum::<RCase> {
                name: "small-matrices",
                rule: "every distance matrix on up to 4 points with entries from a small set, up to three fields and maximum dimensions; non-trivial with a finite positive bar in dimension 1 or more, or maximum dimension 0 and three points",
                cases: r04_small,
                check: r04,
                shards: 8,
            }),
            Box::new(Test::<RCase> {
                name: "random-matrices",
                cases: (72_000, 1_008_000),
                rule: "random distance matrices (ties, zero distances, non-metric, infinite, points in the plane, circles, cross-polytopes), all four routes over a random field; non-trivial as for small-matrices",
                strat: |t| {
                    if t == Tier::Quick {
                        prop_oneof![40 => rcases(0, 6, 0..4), 60 => rcases(5, 8, 1..4), 20 => rcases(8, 12, 0..2), 4 => rcases(5, 8, 4..8), 1 => rcases(12, 24, 0..2), 1 => rcases(30, 150, 0..1)].boxed()
                    } else {
                        prop_oneof![100 => rcases(0, 6, 0..5), 150 => rcases(6, 9, 1..4), 50 => rcases(9, 16, 0..2), 20 => rcases(5, 9, 4..8), 1 => rcases(16, 36, 1..2), 1 => rcases(30, 150, 0..1)].boxed()
                    }
                },
                check: r04,
                shards: 8,
            }),
            Box::new(Test::<Cycles> {
                name: "cycles",
                cases: (2_000, 40_000),
                rule: "cycles with up to 40 points in all and the distances along them, shuffled, far from each other, over all fields and routes: known bars in dimensions 0 and 1; non-trivial with a cycle of four points",
                strat: |_| (prop_oneof![3 => prop::collection::vec(1usize..9, 1..4), 1 => prop::collection::vec(4usize..20, 1..3), 1 => (20usize..=40).prop_map(|l| vec![l])], prop_oneof![Just(0u8), any::<u8>()], 0u8..8, any_field(), 0usize..4, any::<u64>())
                    .prop_map(|(lens, far, unit, field, r, seed)| Cycles { lens, far, unit, field, route: ROUTES[r], seed })
                    .boxed(),
                check: r04_cycles,
                shards: 8,
            }),
            Box::new(Test::<Many> {
                name: "many-points",
                cases: (600, 12_000),
                rule: "64 to 800 points (130 by the homology routes) with random distances, dimension 0 compared with the minimum spanning tree; non-trivial with more than 64 points",
                strat: |_| prop_oneof![manys(64, 800, true), manys(64, 130, false)].boxed(),
                check: r04_many,
                shards: 8,
            }),
            Box::new(Test::<Torsion> {
                name: "torsion",
                cases: (7_200, 100_800),
                rule: "flag triangulations of discs glued k times around a circle (torsion Z/k in H1), renumbered and with random short distances, over all fields and routes; non-trivial with two positive bars",
                strat: |t| {
                    let kmax = if t == Tier::Quick { 3usize } else { 5 };
                    (2..=kmax, any::<u64>(), prop_oneof![Just(-1), 4i32..9], any_field(), 0usize..4)
                        .prop_map(|(k, seed, far, field, r)| Torsion { k, seed, far, max_dim: 1, field, route: ROUTES[r] })
                        .boxed()
                },
                check: r04_torsion,
                shards: 8,
            }),
        ],
        "R05" => vec![Box::new(Test::<Meta> {
            name: "metamorphic",
            cases: (84_000, 1_176_000),
            rule: "random distance matrices with a permutation, an increasing map, a duplicated point and an integer perturbation, one route and field each; non-trivial with a positive bar in dimension 1 or more (or three bars for maximum dimension 0)",
            strat: |t| {
                if t == Tier::Quick {
                    prop_oneof![100 => metas(1, 6, 0..3), 150 => metas(5, 8, 1..3), 6 => metas(5, 8, 3..7), 1 => metas(9, 30, 0..2), 1 => metas(30, 120, 0..1)].boxed()
                } else {
                    prop_oneof![100 => metas(1, 7, 0..4), 150 => metas(6, 10, 1..3), 8 => metas(5, 9, 3..7), 1 => metas(9, 40, 0..2), 1 => metas(30, 150, 0..1)].boxed()
                }
            },
            check: r05,
            shards: 8,
        })],
        "R06" => vec![
            Box::new(Test::<Cli> {
                name: "barcodes",
                cases: (12_000, 168_000),
                rule: "random distance matrices written as CSV in several styles, with and without a dimension argument; non-trivial with a printed finite bar",
                strat: |t| prop_oneof![50 => clis(0, 4, 3), 150 => clis(3, if t == Tier::Quick { 8 } else { 10 }, 2), 15 => clis(4, 8, 8), 1 => clis(10, 36, 1), 1 => clis(30, 140, 0)].boxed(),
                check: r06,
                shards: 8,
            }),
            Box::new(Test::<Many> {
                name: "many-points",
                cases: (160, 2_400),
                rule: "matrices of 130 to 600 points with dimension argument 0; non-trivial with a printed finite bar",
                strat: |_| manys(130, 600, true),
                check: r06_many,
                shards: 8,
            }),
            Box::new(Test::<BadCli> {
                name: "malformed",
                cases: (4_800, 67_200),
                rule: "a valid input with one entry replaced by text that is no number, one row of another length, or a dimension argument that is no number; all are non-trivial",
                strat: |_| {
                    (clis(2, 6, 2), any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(base, kind, i, j, which)| BadCli { base, kind, i, j, which }).boxed()
                },
                check: r06_bad,
                shards: 8,
            }),
        ],
        _ => vec![],
    }
}
fn assumptions(p: &str) -> Vec<&'static str> {
    match p {
        "R01" => vec!["codes above the machine word are outside the domain"],
        "R04" | "R05" => vec!["persistence over Q is referenced modulo 2^61-1", "coefficient arithmetic is exact (decided by C06)"],
        "R06" => vec!["the command line is run as a separate process; bars of length at most 0.01 are not printed by design"],
        _ => vec![],
    }
}
fn main() {
    let _ = labels;
    pbt::driver::run(registry, assumptions)
}
