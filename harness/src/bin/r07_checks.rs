//! R07: cycles and cocycles read from the reductions of Rips complexes.
use pbt::complexes::Rs;
use pbt::fields::*;
use pbt::fw::*;
use pbt::gens::*;
use pbt::mats::*;
use pbt::{ensure, with_field};

use phlite::matrices::combinators::product;
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, MatrixOracle};
use phlite::reduction::{standard_algo_with_diagram, ClearedReductionMatrix, Diagram};
use phlite_rips::cohomology::build_rips_coboundary_matrix;
use phlite_rips::homology::build_rips_boundary_matrix;
use phlite_rips::RipsIndex;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet};

type Simplex = Vec<usize>;
type Chain<F> = BTreeMap<Simplex, F>;

/// Echelon form of chains, by their largest simplex.
#[derive(Clone)]
struct Span<F>(BTreeMap<Simplex, Chain<F>>);
impl<F: TF> Span<F> {
    fn new() -> Self {
        Span(BTreeMap::new())
    }
    /// True when `v` is independent of what was inserted before.
    fn insert(&mut self, mut v: Chain<F>) -> bool {
        // eliminate every leading simplex from the largest down
        let mut below: Option<Simplex> = None;
        loop {
            let next = match &below {
                None => v.keys().next_back().cloned(),
                Some(b) => v.range(..b.clone()).next_back().map(|x| x.0.clone()),
            };
            let Some(l) = next else { break };
            if let Some(w) = self.0.get(&l) {
                let x = v[&l].additive_inverse();
                add_terms(&mut v, w.iter().map(|(s, c)| (*c * x, s.clone())));
            }
            below = Some(l);
        }
        let Some((l, c)) = v.last_key_value().map(|(l, c)| (l.clone(), *c)) else { return false };
        let x = c.mult_inverse();
        v.values_mut().for_each(|c| *c = *c * x);
        self.0.insert(l, v);
        true
    }
    fn rank(&self) -> usize {
        self.0.len()
    }
}

fn subsets(n: usize, k: usize) -> Vec<Simplex> {
    (0u32..1 << n).filter(|m| m.count_ones() as usize == k).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}
fn facets(s: &[usize]) -> impl Iterator<Item = (i64, Simplex)> + '_ {
    (0..if s.len() > 1 { s.len() } else { 0 }).map(|i| {
        let mut f = s.to_vec();
        f.remove(i);
        (if i % 2 == 0 { 1 } else { -1 }, f)
    })
}
fn sign<F: TF>(s: i64) -> F {
    if s > 0 {
        F::one()
    } else {
        F::one().additive_inverse()
    }
}
fn bd<F: TF>(c: &Chain<F>) -> Chain<F> {
    let mut out = BTreeMap::new();
    for (s, x) in c {
        add_terms(&mut out, facets(s).map(|(e, f)| (*x * sign::<F>(e), f)));
    }
    out
}

/// Everything that exists by some time.
struct Stage<F> {
    t: f64,
    /// By dimension.
    cells: Vec<Vec<Simplex>>,
    /// Boundaries of the cells of one dimension more.
    bounds: Vec<Span<F>>,
}
impl<F: TF> Stage<F> {
    fn new(d: &Dist, t: f64, top: usize) -> Self {
        let cells: Vec<Vec<Simplex>> = (0..=top).map(|k| subsets(d.n, k + 1).into_iter().filter(|s| d.diam(s) <= t).collect()).collect();
        let bounds = (0..top)
            .map(|k| {
                let mut sp = Span::new();
                for s in &cells[k + 1] {
                    sp.insert(bd(&BTreeMap::from([(s.clone(), F::one())])));
                }
                sp
            })
            .collect();
        Stage { t, cells, bounds }
    }
    fn betti(&self, k: usize) -> usize {
        self.cells[k].len() - if k > 0 { self.bounds[k - 1].rank() } else { 0 } - self.bounds[k].rank()
    }
}
/// A representative with the bar it belongs to.
struct Rep<F> {
    k: usize,
    birth: f64,
    death: Option<f64>,
    chain: Chain<F>,
}
impl<F> Rep<F> {
    fn alive(&self, t: f64) -> bool {
        self.birth <= t && self.death.is_none_or(|d| t < d)
    }
}
fn chain<I: Ord, F: TF>(d: &Dist, v: BTreeMap<I, F>, of: impl Fn(&I) -> RipsIndex) -> Chain<F> {
    v.into_iter()
        .map(|(i, c)| {
            let mut s: Simplex = of(&i).to_vec(d.n);
            s.sort();
            (s, c)
        })
        .collect()
}

fn cycles<F: TF, M, V>(name: &str, d: &Dist, max_dim: usize, m: &M, v: &V, diag: &Diagram<RipsIndex>) -> Result<Vec<Rep<F>>, String>
where
    M: MatrixOracle<ColT = RipsIndex, RowT = RipsIndex, CoefficientField = F> + HasRowFiltration,
    V: MatrixOracle<ColT = RipsIndex, RowT = RipsIndex, CoefficientField = F>,
{
    let r = product(m, v);
    let dia = |i: &RipsIndex| d.diam(&i.to_vec(d.n));
    let mut out = vec![];
    // the columns of V of the births are cycles too, but may die later than the bar
    let mut born = vec![];
    for (b, x) in diag.pairings.iter() {
        let c = chain(d, vec_of(&r, *x), |i| *i);
        let filling = chain(d, vec_of(v, *x), |i| *i);
        let death = dia(x);
        ensure!(filling.keys().all(|s| d.diam(s) <= death), "{name}: the chain {filling:?} of a bar that dies at {death} contains later simplices");
        let of = bd(&filling);
        ensure!(of == c, "{name}: the representative {c:?} is not the boundary {of:?} of the chain of V");
        out.push(Rep { k: b.dimension(d.n), birth: dia(b), death: Some(death), chain: c });
        born.push(Rep { k: b.dimension(d.n), birth: dia(b), death: None, chain: chain(d, vec_of(v, *b), |i| *i) });
    }
    for e in diag.essential.iter() {
        let k = e.dimension(d.n);
        if k <= max_dim {
            out.push(Rep { k, birth: dia(e), death: None, chain: chain(d, vec_of(v, *e), |i| *i) });
        }
    }
    for x in out.iter().chain(&born) {
        ensure!(!x.chain.is_empty(), "{name}: a bar of dimension {} has no representative", x.k);
        for s in x.chain.keys() {
            ensure!(s.len() == x.k + 1 && d.diam(s) <= x.birth, "{name}: the representative {:?} of a bar of dimension {} born at {} contains {s:?}", x.chain, x.k, x.birth);
        }
        ensure!(x.chain.keys().any(|s| d.diam(s) == x.birth), "{name}: the representative {:?} exists before the birth {} of its bar", x.chain, x.birth);
        let b = bd(&x.chain);
        ensure!(b.is_empty(), "{name}: the representative {:?} is no cycle, its boundary is {b:?}", x.chain);
    }
    Ok(out)
}
fn span_homology<F: TF>(name: &str, reps: &[Rep<F>], stages: &[Stage<F>], max_dim: usize) -> Result<(), String> {
    for st in stages {
        for k in 0..=max_dim {
            let mut sp = st.bounds[k].clone();
            let mut count = 0;
            for x in reps.iter().filter(|x| x.k == k) {
                if x.alive(st.t) {
                    count += 1;
                    ensure!(sp.insert(x.chain.clone()), "{name}: at {} the representative {:?} depends on the others in homology", st.t, x.chain);
                }
            }
            ensure!(count == st.betti(k), "{name}: at {} there are {count} classes of dimension {k}, the Betti number is {}", st.t, st.betti(k));
        }
    }
    Ok(())
}
fn cocycles<F: TF, V>(d: &Dist, v: &V, diag: &Diagram<Reverse<RipsIndex>>) -> Vec<Rep<F>>
where
    V: MatrixOracle<ColT = Reverse<RipsIndex>, RowT = Reverse<RipsIndex>, CoefficientField = F>,
{
    let dia = |i: &Reverse<RipsIndex>| d.diam(&i.0.to_vec(d.n));
    let mut out = vec![];
    for (x, b) in diag.pairings.iter() {
        out.push(Rep { k: b.0.dimension(d.n), birth: dia(b), death: Some(dia(x)), chain: chain(d, vec_of(v, *b), |i| i.0) });
    }
    for e in diag.essential.iter() {
        out.push(Rep { k: e.0.dimension(d.n), birth: dia(e), death: None, chain: chain(d, vec_of(v, *e), |i| i.0) });
    }
    out
}
fn span_cohomology<F: TF>(name: &str, d: &Dist, reps: &[Rep<F>], stages: &[Stage<F>], max_dim: usize) -> Result<(), String> {
    for x in reps {
        for s in x.chain.keys() {
            ensure!(s.len() == x.k + 1 && d.diam(s) >= x.birth, "{name}: the cocycle {:?} of a bar of dimension {} born at {} is not zero on {s:?}", x.chain, x.k, x.birth);
        }
    }
    for st in stages {
        for k in 0..=max_dim {
            let here: BTreeSet<&Simplex> = st.cells[k].iter().collect();
            let mut sp: Span<F> = Span::new();
            if k > 0 {
                // coboundaries of the cells of one dimension less
                let mut cob: BTreeMap<Simplex, Chain<F>> = BTreeMap::new();
                for s in st.cells[k].iter() {
                    for (e, f) in facets(s) {
                        add_terms(cob.entry(f).or_default(), [(sign::<F>(e), s.clone())]);
                    }
                }
                for c in cob.into_values() {
                    sp.insert(c);
                }
            }
            let mut count = 0;
            for x in reps.iter().filter(|x| x.k == k && x.alive(st.t)) {
                let c: Chain<F> = x.chain.iter().filter(|(s, _)| here.contains(s)).map(|(s, c)| (s.clone(), *c)).collect();
                for s in st.cells[k + 1].iter() {
                    let val = facets(s).filter_map(|(e, f)| c.get(&f).map(|y| *y * sign::<F>(e))).fold(None, |a: Option<F>, y| y + a);
                    ensure!(val.is_none(), "{name}: at {} the cochain {c:?} is no cocycle, its value on {s:?} is {val:?}", st.t);
                }
                count += 1;
                ensure!(sp.insert(c.clone()), "{name}: at {} the cocycle {c:?} depends on the others in cohomology", st.t);
            }
            ensure!(count == st.betti(k), "{name}: at {} there are {count} cocycles of dimension {k}, the Betti number is {}", st.t, st.betti(k));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    dist: Dist,
    max_dim: usize,
    field: Fld,
    route: u8,
}
fn r07_f<F: TF>(case: &Case, obs: &mut Obs) -> Result<(), String> {
    let d = &case.dist;
    let top = case.max_dim;
    let mut times: Vec<f64> = (0..d.n).flat_map(|i| (0..d.n).map(move |j| (i, j))).map(|(i, j)| d.d(i, j)).collect();
    times.sort_by(f64::total_cmp);
    times.dedup();
    if times.len() > 24 {
        // long lists are thinned out
        let step = times.len().div_ceil(16);
        times = times.iter().skip(d.up.len() % step).step_by(step).copied().collect();
    }
    let stages: Vec<Stage<F>> = times.iter().map(|t| Stage::new(d, *t, top + 1)).collect();
    let reps;
    match case.route % 4 {
        0 | 1 => {
            let m = build_rips_boundary_matrix::<F>(d.matrix(), top + 1);
            if case.route % 4 == 0 {
                obs.class("homology, clearing");
                let (v, diag) = ClearedReductionMatrix::build_with_diagram(&m, (0..=top + 1).rev());
                reps = cycles("clearing homology", d, top, &m, &v, &diag)?;
                // every column of V that is a cycle is said to be one
                for i in 0..m.basis().size() {
                    let e = m.basis().element(i);
                    let zero = bd(&chain(d, vec_of(&v, e), |i| *i)).is_empty();
                    ensure!(v.col_is_cycle(e) == zero, "clearing homology: col_is_cycle({e:?}) is {}, the column of V is a cycle: {zero}", !zero);
                }
            } else {
                obs.class("homology, standard");
                let (v, diag) = standard_algo_with_diagram(&m, false);
                reps = cycles("standard homology", d, top, &m, &v, &diag)?;
            }
            span_homology("homology", &reps, &stages, top)?;
        }
        r => {
            let m = build_rips_coboundary_matrix::<F>(d.matrix(), top);
            let m = m.reverse();
            if r == 2 {
                obs.class("cohomology, clearing");
                let (v, diag) = ClearedReductionMatrix::build_with_diagram(&m, 0..=top);
                reps = cocycles(d, &v, &diag);
            } else {
                obs.class("cohomology, standard");
                let (v, diag) = standard_algo_with_diagram(&m, true);
                reps = cocycles(d, &v, &diag);
            }
            span_cohomology("cohomology", d, &reps, &stages, top)?;
        }
    }
    obs.class(format!("{:?}", case.field));
    let real = |x: &Rep<F>| x.k >= 1 && x.death.is_none_or(|y| y > x.birth);
    obs.class_if(reps.iter().any(|x| real(x) && x.k >= 2), "a positive bar in dimension 2 or more");
    obs.class_if(reps.iter().any(|x| real(x) && x.chain.len() >= 5), "a representative of at least five simplices");
    obs.nontrivial = reps.iter().any(real);
    Ok(())
}
fn r07(case: &Case, obs: &mut Obs) -> Result<(), String> {
    with_field!(case.field, r07_f::<_>(case, obs))
}
fn cases(lo: usize, hi: usize, mds: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    (dists(lo, hi), mds, any_field(), 0u8..4).prop_map(|(dist, max_dim, field, route)| Case { dist, max_dim, field, route }).boxed()
}
/// Points on a long cycle with noise, some chords shortened: long representatives.
fn rings(lo: usize, hi: usize) -> BoxedStrategy<Case> {
    (lo..=hi, any::<u64>(), any_field(), 0u8..4)
        .prop_map(|(n, seed, field, route)| {
            let mut rs = Rs(seed);
            let mut place: Vec<usize> = (0..n).collect();
            rs.shuffle(&mut place);
            let noise = rs.below(4);
            let dist = Dist::from_fn(n, 0, |i, j| {
                let a = place[i].abs_diff(place[j]);
                (a.min(n - a) * 3) as i32
            });
            let mut dist = dist;
            for x in dist.up.iter_mut() {
                *x += rs.below(noise + 1) as i32;
            }
            Case { dist, max_dim: 1, field, route }
        })
        .boxed()
}

fn registry(p: &str) -> Vec<Box<dyn AnyTest>> {
    match p {
        "R07" => vec![
            Box::new(Test::<Case> {
                name: "representatives",
                cases: (240_000, 3_600_000),
                rule: "random distance matrices on up to 8 points (ties, zero distances, non-metric, infinite, points in the plane, circles, cross-polytopes), one of the four routes, maximum dimension up to 3, random field; at every critical value the representatives are compared with the (co)homology of the complex by elimination; non-trivial with a bar of positive length in dimension 1 or more",
                strat: |t| {
                    if t == Tier::Quick {
                        prop_oneof![4 => cases(0, 6, 0..3), 6 => cases(4, 7, 1..3), 1 => cases(5, 8, 1..2), 1 => cases(5, 7, 3..4)].boxed()
                    } else {
                        prop_oneof![4 => cases(0, 6, 0..4), 6 => cases(5, 8, 1..3), 1 => cases(6, 7, 3..5)].boxed()
                    }
                },
                check: r07,
                shards: 8,
            }),
            Box::new(Test::<Case> {
                name: "rings",
                cases: (6_000, 90_000),
                rule: "shuffled points on a circle with noise, 6 to 20 of them (26 when thorough), so that representatives have many simplices; non-trivial as for representatives",
                strat: |t| {
                    let long = if t == Tier::Quick { 20 } else { 26 };
                    prop_oneof![20 => rings(6, 12), 1 => rings(12, long)].boxed()
                },
                check: r07,
                shards: 8,
            }),
        ],
        _ => vec![],
    }
}
fn assumptions(_: &str) -> Vec<&'static str> {
    vec![
        "elimination by the harness uses the coefficient types' own operations (checked by C06) and the code of simplices as vertex lists (checked by R01)",
        "over the rationals cases whose exact values leave the machine word are discarded",
    ]
}
fn main() {
    pbt::driver::run(registry, assumptions)
}
