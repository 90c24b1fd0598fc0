//! G01-G06: grounded persistent path homology.
use pbt::complexes::Rs;
use pbt::fields::*;
use pbt::fw::*;
use pbt::gens::*;
use pbt::mats::*;
use pbt::refla::{self, Span};
use pbt::{ensure, with_field};
use phlite::fields::NonZeroCoefficient;
use phlite::matrices::combinators::product;
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, MatrixOracle, SplitByDimension};
use phlite::reduction::{standard_algo_with_diagram, ClearedReductionMatrix};
use phlite_grpph::boundary::GrPPHBoundary;
use phlite_grpph::coboundary::{build_primary_bridge_map, DigraphFiltration, GrPPHCoboundary, MapDigraphFiltration, PathHom2Cell, PathHomCell, PathHomSingleBasis};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- reference

type Path2 = (usize, usize, usize);
fn umax(a: Option<i32>, b: Option<i32>) -> Option<i32> {
    Some(a?.max(b?))
}
/// Code of the time of an ordered pair in the filtration.
fn tm(d: &Dig, i: usize, j: usize) -> Option<i32> {
    let c = d.code(i, j);
    (c >= 0).then_some(c)
}
/// Code of the birth of an edge in the grounded complex.
fn born(d: &Dig, i: usize, j: usize) -> Option<i32> {
    if d.has(i, j) {
        Some(0)
    } else {
        tm(d, i, j)
    }
}
/// Allowed 2-paths with the time at which they appear.
fn two_paths(d: &Dig) -> Vec<(Path2, i32)> {
    let mut out = vec![];
    for a in 0..d.n {
        for b in (0..d.n).filter(|b| *b != a && tm(d, a, *b).is_some()) {
            for c in (0..d.n).filter(|c| *c != b) {
                if let Some(t) = umax(tm(d, a, b), tm(d, b, c)) {
                    out.push(((a, b, c), t));
                }
            }
        }
    }
    out
}
/// Times at which something happens.
fn critical(d: &Dig) -> Vec<i32> {
    let mut v: Vec<i32> = d.times.iter().copied().filter(|c| *c >= 0).collect();
    v.push(0);
    v.sort();
    v.dedup();
    v
}
/// Boundary of a 2-path in the regular path complex: bc - ac + ab, dropping a repeated vertex.
fn bd(d: &Dig, pos: &BTreeMap<(usize, usize), usize>, x: &[(Path2, i64)], p: u64) -> Vec<u64> {
    let mut v = vec![0u64; pos.len()];
    let _ = d;
    for ((a, b, c), k) in x {
        for (e, s) in [((*b, *c), 1i64), ((*a, *c), -1), ((*a, *b), 1)] {
            if e.0 != e.1 {
                if let Some(i) = pos.get(&e) {
                    v[*i] = (v[*i] + refla::of_i(s * k, p)) % p;
                }
            }
        }
    }
    v
}

/// Ranks of the persistence module in degrees 0 and 1 from the definition.
struct RefPh {
    crit: Vec<i32>,
    /// Components at each critical time.
    comps: Vec<usize>,
    /// Dimension of the cycles at each critical time.
    cycles: Vec<usize>,
    /// Boundaries of the invariant 2-paths at each critical time; edges are ordered latest birth first.
    bounds: Vec<Span>,
    /// Birth of the edge at each position.
    births: Vec<i32>,
    pos: BTreeMap<(usize, usize), usize>,
    unit: u8,
}
impl RefPh {
    fn new(d: &Dig, p: u64) -> Self {
        let mut edges: Vec<(i32, usize, usize)> = vec![];
        for i in 0..d.n {
            for j in 0..d.n {
                if let Some(b) = born(d, i, j).filter(|_| i != j) {
                    edges.push((b, i, j));
                }
            }
        }
        edges.sort_by(|a, b| b.cmp(a));
        let pos: BTreeMap<(usize, usize), usize> = edges.iter().enumerate().map(|(k, e)| ((e.1, e.2), k)).collect();
        let births: Vec<i32> = edges.iter().map(|e| e.0).collect();
        let crit = critical(d);
        let mut comps = vec![];
        let mut cycles = vec![];
        for t in crit.iter() {
            let mut comp: Vec<usize> = (0..d.n).collect();
            let mut count = 0;
            for e in edges.iter().filter(|e| e.0 <= *t) {
                count += 1;
                let (x, y) = (comp[e.1], comp[e.2]);
                comp.iter_mut().for_each(|c| {
                    if *c == y {
                        *c = x
                    }
                });
            }
            let k = comp.into_iter().collect::<BTreeSet<_>>().len();
            comps.push(k);
            cycles.push(count + k - d.n);
        }
        // invariant 2-paths: those whose short cut is present (or a repeated end point), and
        // differences of those with a common absent short cut; new ones at each time
        let paths = two_paths(d);
        let mut by_ends: BTreeMap<(usize, usize), Vec<(i32, Path2)>> = BTreeMap::new();
        for (q, t) in paths.iter() {
            by_ends.entry((q.0, q.2)).or_default().push((*t, *q));
        }
        let mut span = Span::new(p);
        let mut bounds = vec![];
        for t in crit.iter() {
            for ((a, c), list) in by_ends.iter() {
                let cut = if a == c { Some(0) } else { tm(d, *a, *c) };
                let present: Vec<&(i32, Path2)> = list.iter().filter(|x| x.0 <= *t).collect();
                if cut.is_some_and(|x| x <= *t) {
                    for x in present.iter().filter(|x| x.0 == *t || cut == Some(*t)) {
                        span.insert(bd(d, &pos, &[(x.1, 1)], p));
                    }
                } else if present.iter().any(|x| x.0 == *t) {
                    for w in present.windows(2) {
                        span.insert(bd(d, &pos, &[(w[0].1, 1), (w[1].1, -1)], p));
                    }
                }
            }
            bounds.push(span.clone());
        }
        RefPh { crit, comps, cycles, bounds, births, pos, unit: d.unit }
    }
    fn val(&self, code: i32) -> f64 {
        dig_value(self.unit, code)
    }
    /// Rank of H1 at time index s to H1 at time index t.
    fn rank1(&self, s: usize, t: usize) -> usize {
        // boundaries at t that are chains at s: echelon rows whose leading (latest) edge is born by s
        let inside = self.bounds[t].leads().filter(|l| self.births[*l] <= self.crit[s]).count();
        self.cycles[s] - inside
    }
    /// Check a barcode; bars are (degree, birth, death) in units of the filtration.
    fn check(&self, name: &str, bars: &[(usize, f64, Option<f64>)]) -> Result<(), String> {
        let codes: BTreeSet<u64> = self.crit.iter().map(|c| (self.val(*c) + 0.0).to_bits()).collect();
        for b in bars {
            for x in [Some(b.1), b.2].into_iter().flatten() {
                ensure!(codes.contains(&(x + 0.0).to_bits()), "{name}: the bar {b:?} has an end at {x}, where nothing happens");
            }
            ensure!(b.0 <= 1, "{name}: bar {b:?} in degree {}", b.0);
        }
        for s in 0..self.crit.len() {
            for t in s..self.crit.len() {
                for k in 0..2 {
                    let (x, y) = (self.val(self.crit[s]), self.val(self.crit[t]));
                    let got = bars.iter().filter(|b| b.0 == k && b.1 <= x && b.2.is_none_or(|d| d > y)).count();
                    let want = if k == 0 { self.comps[t] } else { self.rank1(s, t) };
                    ensure!(got == want, "{name}: {got} bars of degree {k} live from {x} to {y}, the rank is {want}; bars {bars:?}");
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- G01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GCase {
    d: Dig,
    field: Fld,
}
fn gcases(t: Tier) -> BoxedStrategy<GCase> {
    (prop_oneof![300 => digs(t), 1 => wide_digs()], any_field()).prop_map(|(d, field)| GCase { d, field }).boxed()
}
fn chain(c: &PathHom2Cell) -> Vec<(Path2, i64)> {
    let u = |x: &u16| *x as usize;
    match c {
        PathHom2Cell::DoubleEdge(a, b) => vec![((u(a), u(b), u(a)), 1)],
        PathHom2Cell::DirectedTriangle(a, b, c) => vec![((u(a), u(b), u(c)), 1)],
        PathHom2Cell::LongSquare(a, b, c, d) => vec![((u(a), u(c), u(d)), 1), ((u(a), u(b), u(d)), -1)],
    }
}
/// All 2-cells that occur in the coboundaries of the edges.
fn cells_of<F: TF, D: DigraphFiltration>(c: &GrPPHCoboundary<'_, F, D>, d: &Dig) -> BTreeSet<PathHom2Cell> {
    let mut out = BTreeSet::new();
    for i in 0..d.n {
        for j in 0..d.n {
            if i != j && born(d, i, j).is_some() {
                for (_, r) in c.column(PathHomCell::Edge(i as u16, j as u16)) {
                    if let PathHomCell::TwoCell(x) = r {
                        out.insert(x);
                    }
                }
            }
        }
    }
    out
}
fn g01_f<F: TF>(case: &GCase, obs: &mut Obs) -> Result<(), String> {
    let d = &case.d;
    let p = case.field.refp();
    let (fil, es) = (d.as_vec(), d.edge_set());
    let m = GrPPHCoboundary::<F, _>::build(&fil, &es, d.n as u16);
    let cells = cells_of(&m.matrix, d);
    let timed: Vec<(f64, PathHom2Cell)> = cells.into_iter().map(|c| (m.filtration_value(PathHomCell::TwoCell(c)).into_inner(), c)).collect();
    let paths = two_paths(d);
    let index: BTreeMap<Path2, usize> = paths.iter().enumerate().map(|(i, x)| (x.0, i)).collect();
    let mut kinds = [false; 3];
    let mut swapped = false;
    for (_, c) in timed.iter() {
        let k = PathHomCell::TwoCell(*c).dimension();
        ensure!(k == 2, "the cell {c:?} has dimension {k}");
    }
    for code in critical(d) {
        let t = d.val(code);
        // the definition: 2-paths allowed at t whose boundary is allowed at t
        let now: Vec<Path2> = paths.iter().filter(|x| x.1 <= code).map(|x| x.0).collect();
        let mut absent: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        for (a, _, c) in now.iter() {
            if a != c && tm(d, *a, *c).is_none_or(|x| x > code) {
                let k = absent.len();
                absent.entry((*a, *c)).or_insert(k);
            }
        }
        let images: Vec<Vec<u64>> = now
            .iter()
            .map(|(a, _, c)| {
                let mut v = vec![0; absent.len()];
                if let Some(k) = absent.get(&(*a, *c)) {
                    v[*k] = 1;
                }
                v
            })
            .collect();
        let dim = now.len() - refla::rank(&images, p);
        // the cells that have entered
        let mut span = Span::new(p);
        let mut count = 0;
        for (_, cell) in timed.iter().filter(|x| x.0 <= t) {
            count += 1;
            let mut v = vec![0u64; paths.len()];
            let mut image = vec![0u64; absent.len()];
            for (q, k) in chain(cell) {
                let Some(i) = index.get(&q).filter(|i| paths[**i].1 <= code) else {
                    return Err(format!("at time {t} the cell {cell:?} contains the path {q:?}, which is not allowed then"));
                };
                v[*i] = (v[*i] + refla::of_i(k, p)) % p;
                if let Some(j) = absent.get(&(q.0, q.2)) {
                    image[*j] = (image[*j] + refla::of_i(k, p)) % p;
                }
            }
            ensure!(image.iter().all(|x| *x == 0), "at time {t} the boundary of the cell {cell:?} is not allowed");
            ensure!(span.insert(v), "at time {t} the cell {cell:?} depends on the others");
            match cell {
                PathHom2Cell::DoubleEdge(..) => kinds[0] = true,
                PathHom2Cell::DirectedTriangle(a, b, c) => {
                    kinds[1] = true;
                    let u = |x: &u16| *x as usize;
                    swapped |= umax(tm(d, u(a), u(b)), tm(d, u(b), u(c))) < tm(d, u(a), u(c));
                }
                PathHom2Cell::LongSquare(..) => kinds[2] = true,
            }
        }
        ensure!(count == dim, "at time {t} there are {count} cells, the space of invariant 2-paths has dimension {dim}");
    }
    // primary bridges
    let map = build_primary_bridge_map(&fil, d.n as u16);
    for s in 0..d.n {
        for t in (0..d.n).filter(|t| *t != s) {
            let best = (0..d.n).filter(|b| *b != s && *b != t).filter_map(|b| Some((umax(tm(d, s, b), tm(d, b, t))?, b))).min();
            let want = best.filter(|(x, _)| tm(d, s, t).is_none_or(|y| *x < y)).map(|x| x.1 as u16);
            let got = map.get(&(s as u16, t as u16)).copied();
            ensure!(got == want, "primary bridge from {s} to {t} is {got:?}, expected {want:?}");
        }
    }
    obs.class_if(kinds[0], "double edges");
    obs.class_if(kinds[1], "directed triangles");
    obs.class_if(kinds[2], "long squares");
    obs.class_if(swapped, "a short cut arriving after its bridge");
    obs.nontrivial = kinds[1] && kinds[2];
    Ok(())
}
fn g01(case: &GCase, obs: &mut Obs) -> Result<(), String> {
    with_field!(case.field, g01_f::<_>(case, obs))
}

// ---------------------------------------------------------------- G02

fn g02_f<F: TF>(case: &GCase, obs: &mut Obs) -> Result<(), String> {
    let d = &case.d;
    let n = d.n as u16;
    let (fv, fm, es) = (d.as_vec(), d.as_map(), d.edge_set());
    let c = GrPPHCoboundary::<F, _>::build(&fv, &es, n);
    let c2 = GrPPHCoboundary::<F, _>::build(&fm, &es, n);
    // the same with the filtration owned
    let c3 = GrPPHCoboundary::<F, _>::build(d.as_vec(), &es, n);
    let nodes: Vec<PathHomCell> = (0..n).map(PathHomCell::Node).collect();
    let mut edges: Vec<PathHomCell> = vec![];
    for i in 0..d.n {
        for j in 0..d.n {
            if i != j && born(d, i, j).is_some() {
                edges.push(PathHomCell::Edge(i as u16, j as u16));
            }
        }
    }
    let two: Vec<PathHomCell> = cells_of(&c.matrix, d).into_iter().map(PathHomCell::TwoCell).collect();
    let all: Vec<PathHomCell> = nodes.iter().chain(edges.iter()).chain(two.iter()).copied().collect();
    let basis = PathHomSingleBasis(two.iter().map(|x| (c.filtration_value(*x), *x)).collect());
    let b = GrPPHBoundary::<F, _>::build(&fv, &es, basis.clone());
    let b2 = GrPPHBoundary::<F, _>::build(&fm, &es, basis);
    for (m, what) in [(list_of(&*c2.basis()), "as a map"), (list_of(&*c3.basis()), "owned")] {
        ensure!(m == list_of(&*c.basis()), "the basis differs when the filtration is stored {what}");
    }
    // filtration values
    let want_time = |x: &PathHomCell| -> f64 {
        d.val(match x {
            PathHomCell::Node(_) => 0,
            PathHomCell::Edge(a, b) => born(d, *a as usize, *b as usize).unwrap(),
            PathHomCell::TwoCell(k) => {
                // both paths, and the short cut when there is a single path
                let ch = chain(k);
                let mut t = 0;
                for ((a, b, c), _) in ch.iter() {
                    t = t.max(tm(d, *a, *b).unwrap_or(i32::MAX)).max(tm(d, *b, *c).unwrap_or(i32::MAX));
                    if ch.len() == 1 && a != c {
                        t = t.max(tm(d, *a, *c).unwrap_or(i32::MAX));
                    }
                }
                t
            }
        })
    };
    for x in all.iter() {
        let w = want_time(x);
        let got = [c.filtration_value(*x), c2.filtration_value(*x), c3.filtration_value(*x), b.filtration_value(*x), b2.filtration_value(*x)];
        ensure!(got.iter().all(|f| f.into_inner() == w), "filtration value of {x:?} is {got:?} (coboundary three times, boundary twice), expected {w}");
    }
    // boundaries against the definition
    let mut from_b: BTreeMap<(PathHomCell, PathHomCell), F> = BTreeMap::new();
    for x in all.iter() {
        let mut want: BTreeMap<PathHomCell, F> = BTreeMap::new();
        match x {
            PathHomCell::Node(_) => {}
            PathHomCell::Edge(s, t) => add_terms(&mut want, [(F::one(), PathHomCell::Node(*t)), (F::one().additive_inverse(), PathHomCell::Node(*s))]),
            PathHomCell::TwoCell(k) => {
                for ((p, q, r), s) in chain(k) {
                    for (e, s2) in [((q, r), s), ((p, r), -s), ((p, q), s)] {
                        if e.0 != e.1 {
                            let co = if s2 > 0 { F::one() } else { F::one().additive_inverse() };
                            add_terms(&mut want, [(co, PathHomCell::Edge(e.0 as u16, e.1 as u16))]);
                        }
                    }
                }
            }
        }
        let got = vec_of(&b, *x);
        ensure!(got == want, "boundary of {x:?} is {got:?}, expected {want:?}");
        ensure!(vec_of(&b2, *x) == want, "boundary of {x:?} differs when the filtration is stored as a map");
        for (r, v) in got {
            ensure!(b.filtration_value(r) <= b.filtration_value(*x), "{x:?} is born before {r:?} in its boundary");
            from_b.insert((r, *x), v);
        }
        let sq = vec_of(&product(&b, &b), *x);
        ensure!(sq.is_empty(), "boundary of the boundary of {x:?} is {sq:?}");
    }
    let mut from_c: BTreeMap<(PathHomCell, PathHomCell), F> = BTreeMap::new();
    for x in nodes.iter().chain(edges.iter()) {
        let got = vec_of(&c, *x);
        for (m, what) in [(vec_of(&c2, *x), "as a map"), (vec_of(&c3, *x), "owned")] {
            ensure!(m == got, "coboundary of {x:?} differs when the filtration is stored {what}");
        }
        for (r, v) in got {
            from_c.insert((*x, r), v);
        }
    }
    for (k, v) in from_b.iter() {
        ensure!(from_c.get(k) == Some(v), "entry {k:?} is {v:?} in the boundary, {:?} in the coboundary", from_c.get(k));
    }
    for (k, v) in from_c.iter() {
        ensure!(from_b.contains_key(k), "entry {k:?} is {v:?} in the coboundary, absent in the boundary");
    }
    for x in nodes.iter() {
        let sq = vec_of(&product(&c, &c), *x);
        ensure!(sq.is_empty(), "coboundary of the coboundary of {x:?} is {sq:?}");
    }
    let never = d.edges.iter().any(|e| tm(d, e.0 as usize, e.1 as usize).is_none());
    obs.class(format!("{:?}", case.field));
    obs.class_if(never, "a graph edge without a time");
    obs.class_if(!two.is_empty(), "2-cells");
    obs.nontrivial = two.iter().any(|x| matches!(x, PathHomCell::TwoCell(PathHom2Cell::LongSquare(..))));
    Ok(())
}
fn g02(case: &GCase, obs: &mut Obs) -> Result<(), String> {
    with_field!(case.field, g02_f::<_>(case, obs))
}

// ---------------------------------------------------------------- G03

fn g03_f<F: TF>(case: &GCase, obs: &mut Obs) -> Result<(), String> {
    let d = &case.d;
    let r = RefPh::new(d, case.field.refp());
    let (fv, fm, es) = (d.as_vec(), d.as_map(), d.edge_set());
    let c = GrPPHCoboundary::<F, _>::build(&fv, &es, d.n as u16);
    let cm = GrPPHCoboundary::<F, _>::build(&fm, &es, d.n as u16);
    let mut bars_of = vec![];
    let f = |x: &Reverse<PathHomCell>| c.filtration_value(x.0).into_inner();
    let (co, com) = ((&c).reverse(), (&cm).reverse());
    for (name, diag) in [
        ("clearing", ClearedReductionMatrix::build_with_diagram(&co, 0..=1).1),
        ("clearing, filtration stored as a map", ClearedReductionMatrix::build_with_diagram(&com, 0..=1).1),
        ("standard algorithm", standard_algo_with_diagram(&co, true).1),
    ] {
        let mut bars: Vec<(usize, f64, Option<f64>)> = vec![];
        for (death, birth) in diag.pairings.iter() {
            ensure!(f(birth) <= f(death), "{name}: the pair {birth:?}, {death:?} ends before it begins");
            bars.push((birth.0.dimension(), f(birth), Some(f(death))));
        }
        for e in diag.essential.iter() {
            bars.push((e.0.dimension(), f(e), None));
        }
        bars.retain(|b| b.2 != Some(b.1));
        bars.sort_by(|a, b| (a.0, a.1, a.2).partial_cmp(&(b.0, b.1, b.2)).unwrap());
        r.check(name, &bars)?;
        bars_of = bars;
    }
    let h1: Vec<_> = bars_of.iter().filter(|b| b.0 == 1).collect();
    obs.class(format!("{:?}", case.field));
    obs.class_if(h1.iter().any(|b| b.2.is_some() && b.1 > 0.0), "a finite bar born after time 0");
    obs.class_if(h1.iter().any(|b| b.2.is_none()), "an essential bar in degree 1");
    obs.class_if(bars_of.iter().any(|b| b.0 == 0 && b.2.is_some()), "a finite bar in degree 0");
    obs.nontrivial = h1.iter().filter(|b| b.2.is_some()).count() >= 2;
    Ok(())
}
fn g03(case: &GCase, obs: &mut Obs) -> Result<(), String> {
    with_field!(case.field, g03_f::<_>(case, obs))
}

// ---------------------------------------------------------------- far vertices

/// A digraph whose vertices are spread among many.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Far {
    c: GCase,
    far: Vec<u16>,
}
/// k ascending vertices below a bound of at most m: round powers of two, at the ends, anywhere.
fn far_labels(k: usize, m: usize, rs: &mut Rs) -> Vec<u16> {
    let m = match rs.below(3) {
        0 => m,
        1 => m / 2 + rs.below(m / 2),
        _ => (64usize << rs.below(4)) + rs.below(3) - 1,
    }
    .clamp(k + 8, m.max(k + 8));
    let mut v: BTreeSet<u16> = BTreeSet::new();
    while v.len() < k {
        let x = match rs.below(4) {
            0 => m - 1 - rs.below(4),
            1 => rs.below(4),
            2 => (1usize << (3 + rs.below(13))) + rs.below(3) - 1,
            _ => rs.below(m),
        };
        if x < m {
            v.insert(x as u16);
        }
    }
    v.into_iter().collect()
}
fn fars(m: usize) -> BoxedStrategy<Far> {
    (digs(Tier::Quick), any_field(), any::<u64>())
        .prop_map(move |(d, field, seed)| {
            let mut rs = Rs(seed);
            let mut d = d;
            if d.n > 40 {
                d = Dig { n: 2, times: vec![-1, 1, 2, -1], edges: vec![(0, 1)], unit: 0 };
            }
            let far = far_labels(d.n, m, &mut rs);
            Far { c: GCase { d, field }, far }
        })
        .boxed()
}
impl Far {
    fn case(&self) -> GCase {
        GCase { d: self.c.d.embed(&self.far), field: self.c.field }
    }
    fn run(&self, obs: &mut Obs, check: Check<GCase>) -> Result<(), String> {
        let out = check(&self.case(), obs);
        obs.class_if(self.far.iter().any(|x| *x > 255), "a vertex beyond 255");
        obs.class_if(self.far.iter().any(|x| *x > 511), "a vertex beyond 511");
        out
    }
}
fn g01_far(c: &Far, obs: &mut Obs) -> Result<(), String> {
    c.run(obs, g01)
}
fn g02_far(c: &Far, obs: &mut Obs) -> Result<(), String> {
    c.run(obs, g02)
}
fn g03_far(c: &Far, obs: &mut Obs) -> Result<(), String> {
    c.run(obs, g03)
}
/// Filtration of the caller's own kind: a small digraph whose vertices carry other names.
#[derive(Clone, Copy)]
struct Named<'a> {
    d: &'a Dig,
    far: &'a [u16],
}
impl DigraphFiltration for Named<'_> {
    fn edge_time(&self, s: &u16, t: &u16) -> Option<ordered_float::NotNan<f64>> {
        let (i, j) = (self.far.binary_search(s).ok()?, self.far.binary_search(t).ok()?);
        self.d.time(i, j).map(|x| ordered_float::NotNan::new(x).unwrap())
    }
}
/// Boundaries of cells on vertices anywhere below 65536.
fn g02_names_f<F: TF>(c: &Far, obs: &mut Obs) -> Result<(), String> {
    let d = &c.c.d;
    let (fv, es) = (d.as_vec(), d.edge_set());
    let small = GrPPHCoboundary::<F, _>::build(&fv, &es, d.n as u16);
    let u = |x: u16| c.far[x as usize];
    let ren = |x: PathHomCell| match x {
        PathHomCell::Node(a) => PathHomCell::Node(u(a)),
        PathHomCell::Edge(a, b) => PathHomCell::Edge(u(a), u(b)),
        PathHomCell::TwoCell(PathHom2Cell::DoubleEdge(a, b)) => PathHomCell::TwoCell(PathHom2Cell::DoubleEdge(u(a), u(b))),
        PathHomCell::TwoCell(PathHom2Cell::DirectedTriangle(a, b, c)) => PathHomCell::TwoCell(PathHom2Cell::DirectedTriangle(u(a), u(b), u(c))),
        PathHomCell::TwoCell(PathHom2Cell::LongSquare(a, b, c, d)) => PathHomCell::TwoCell(PathHom2Cell::LongSquare(u(a), u(b), u(c), u(d))),
    };
    let mut cells: Vec<PathHomCell> = (0..d.n as u16).map(PathHomCell::Node).collect();
    for i in 0..d.n {
        for j in 0..d.n {
            if i != j && born(d, i, j).is_some() {
                cells.push(PathHomCell::Edge(i as u16, j as u16));
            }
        }
    }
    let two = cells_of(&small.matrix, d);
    cells.extend(two.iter().map(|x| PathHomCell::TwoCell(*x)));
    let far_es = es.iter().map(|(a, b)| (u(*a), u(*b))).collect();
    let named = Named { d, far: &c.far };
    let map = {
        let mut m = MapDigraphFiltration::default();
        for i in 0..d.n {
            for j in 0..d.n {
                if let Some(t) = d.time(i, j) {
                    m.insert((c.far[i], c.far[j]), ordered_float::NotNan::new(t).unwrap());
                }
            }
        }
        m
    };
    let list: Vec<_> = cells.iter().filter(|x| x.dimension() == 2).map(|x| (small.filtration_value(*x), *x)).collect();
    let far_list: Vec<_> = list.iter().map(|x| (x.0, ren(x.1))).collect();
    let b = GrPPHBoundary::<F, _>::build(&named, &far_es, PathHomSingleBasis(far_list.clone()));
    let b2 = GrPPHBoundary::<F, _>::build(&map, &far_es, PathHomSingleBasis(far_list.clone()));
    for (k, x) in far_list.iter().enumerate() {
        ensure!(b.basis().size() == far_list.len() && b.basis().element(k) == x.1, "element {k} of the basis is not {:?}", x.1);
    }
    for x in cells.iter() {
        let y = ren(*x);
        let mut want: BTreeMap<PathHomCell, F> = BTreeMap::new();
        match x {
            PathHomCell::Node(_) => {}
            PathHomCell::Edge(s, t) => add_terms(&mut want, [(F::one(), PathHomCell::Node(u(*t))), (F::one().additive_inverse(), PathHomCell::Node(u(*s)))]),
            PathHomCell::TwoCell(k) => {
                for ((p, q, r), s) in chain(k) {
                    for (e, s2) in [((q, r), s), ((p, r), -s), ((p, q), s)] {
                        if e.0 != e.1 {
                            let co = if s2 > 0 { F::one() } else { F::one().additive_inverse() };
                            add_terms(&mut want, [(co, PathHomCell::Edge(u(e.0 as u16), u(e.1 as u16)))]);
                        }
                    }
                }
            }
        }
        for (m, f, how) in [(vec_of(&b, y), b.filtration_value(y), "a filtration of the caller's own"), (vec_of(&b2, y), b2.filtration_value(y), "a map")] {
            ensure!(m == want, "boundary of {y:?} over {how} is {m:?}, expected {want:?}");
            let w = small.filtration_value(*x);
            ensure!(f == w, "filtration value of {y:?} over {how} is {f}, expected {w}");
        }
    }
    obs.class_if(c.far.iter().any(|x| *x > 32767), "a vertex beyond 32767");
    obs.nontrivial = two.iter().any(|x| matches!(x, PathHom2Cell::LongSquare(..)));
    Ok(())
}
fn g02_names(c: &Far, obs: &mut Obs) -> Result<(), String> {
    with_field!(c.c.field, g02_names_f::<_>(c, obs))
}

// ---------------------------------------------------------------- Python

/// A weighted digraph as given to the Python functions; weight code -1 is infinite.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Wg {
    n: usize,
    edges: Vec<(u16, u16, i32)>,
    #[serde(default)]
    unit: u8,
}
impl Wg {
    fn weight(&self, c: i32) -> f64 {
        if c < 0 {
            f64::INFINITY
        } else {
            dig_value(self.unit, c)
        }
    }
    /// Shortest-path filtration, with the graph's edges grounded.
    fn dig(&self) -> Dig {
        let n = self.n;
        let mut times = vec![INF; n * n];
        for (i, j, c) in self.edges.iter() {
            let k = *i as usize * n + *j as usize;
            if *c >= 0 && (times[k] < 0 || *c < times[k]) {
                times[k] = *c;
            }
        }
        let mut edges: Vec<(u16, u16)> = self.edges.iter().map(|e| (e.0, e.1)).collect();
        edges.sort();
        edges.dedup();
        Dig { n, times, edges, unit: self.unit }.close()
    }
    fn request(&self, factor: f64) -> Vec<(u16, u16, String)> {
        self.edges.iter().map(|(i, j, c)| (*i, *j, format!("{:?}", self.weight(*c) * factor))).collect()
    }
}
#[derive(Clone, Debug, PartialEq)]
struct Ans {
    ess: Vec<Vec<f64>>,
    pairs: Vec<Vec<(f64, f64)>>,
    reps: Vec<Vec<(usize, usize)>>,
}
impl Ans {
    fn bars(&self) -> Vec<(usize, f64, Option<f64>)> {
        let mut v = vec![];
        for (k, l) in self.ess.iter().enumerate() {
            v.extend(l.iter().map(|x| (k, *x, None)));
        }
        for (k, l) in self.pairs.iter().enumerate() {
            v.extend(l.iter().map(|x| (k, x.0, Some(x.1))));
        }
        v.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
        v
    }
}
struct Worker {
    child: std::process::Child,
    stdin: std::process::ChildStdin,
    rx: std::sync::mpsc::Receiver<String>,
}
fn child_stat(pid: u32) -> Option<(f64, u64)> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 2..].split(' ').collect();
    Some(((f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?) as f64 / 100.0, f[21].parse::<u64>().ok()? * 4096))
}
impl Worker {
    fn start() -> Result<Self, String> {
        use std::io::BufRead;
        use std::process::{Command, Stdio};
        let home = std::env::var("PBT_HOME").map_err(|_| format!("{HARNESS}: PBT_HOME unset"))?;
        let target = std::env::var("PBT_TARGET").map_err(|_| format!("{HARNESS}: PBT_TARGET unset"))?;
        let mut child = Command::new("/usr/bin/python3")
            .arg("-S")
            .arg(format!("{home}/harness/pyworker.py"))
            .arg(format!("{target}/debug/deps/libphlite_grpph.so"))
            .env("PYTHONDONTWRITEBYTECODE", "1")
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("{HARNESS}: cannot start python: {e}"))?;
        let stdin = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            for l in std::io::BufReader::new(out).lines() {
                let Ok(l) = l else { break };
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        let mut w = Worker { child, stdin, rx };
        // the library can be loaded
        let hello = w.ask(&json!({"n": 0, "edges": [], "reps": false}));
        hello.map_err(|e| format!("{HARNESS}: python worker: {e}"))?;
        Ok(w)
    }
    fn ask(&mut self, q: &Value) -> Result<Value, String> {
        use std::io::Write;
        use std::sync::mpsc::RecvTimeoutError;
        let pid = self.child.id();
        let cpu0 = child_stat(pid).map(|x| x.0).unwrap_or(0.0);
        let died = |c: &mut std::process::Child| {
            let st = c.wait().map(|s| s.to_string()).unwrap_or_default();
            format!("the Python process died ({st})")
        };
        if writeln!(self.stdin, "{q}").and_then(|()| self.stdin.flush()).is_err() {
            return Err(died(&mut self.child));
        }
        loop {
            match self.rx.recv_timeout(std::time::Duration::from_millis(300)) {
                Ok(l) => return serde_json::from_str(&l).map_err(|e| format!("{HARNESS}: worker line {l:?}: {e}")),
                Err(RecvTimeoutError::Disconnected) => return Err(died(&mut self.child)),
                Err(RecvTimeoutError::Timeout) => {
                    if let Some((cpu, rss)) = child_stat(pid) {
                        if cpu - cpu0 > 60.0 || rss > 6 << 30 {
                            let _ = self.child.kill();
                            let _ = self.child.wait();
                            return Err(format!("the call did not return after {:.0} s of processor time with {} MB", cpu - cpu0, rss >> 20));
                        }
                    }
                }
            }
        }
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}
/// One request to this thread's Python process, which is started anew after it died.
fn request(q: &Value) -> Result<Value, String> {
    WORKER.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_none() {
            *w = Some(Worker::start()?);
        }
        let r = w.as_mut().unwrap().ask(q);
        if r.is_err() {
            *w = None;
        }
        r
    })
}
fn python(n: usize, edges: &[(u16, u16, String)], reps: bool) -> Result<Ans, String> {
    decode(&request(&json!({"n": n, "edges": edges, "reps": reps}))?, reps)
}
fn decode(v: &Value, reps: bool) -> Result<Ans, String> {
    let name = if reps { "grpph_with_involution" } else { "grpph" };
    if let Some(e) = v["err"].as_str() {
        return Err(format!("{name} raises {e}"));
    }
    let f = |x: &Value| x.as_str().and_then(|s| s.parse::<f64>().ok()).ok_or_else(|| format!("{name} returns {x}"));
    let mut ans = Ans { ess: vec![], pairs: vec![], reps: vec![] };
    for d in v["ess"].as_array().unwrap() {
        ans.ess.push(d.as_array().unwrap().iter().map(f).collect::<Result<_, _>>()?);
    }
    for d in v["pairs"].as_array().unwrap() {
        ans.pairs.push(d.as_array().unwrap().iter().map(|p| Ok((f(&p[0])?, f(&p[1])?))).collect::<Result<_, String>>()?);
    }
    for r in v["reps"].as_array().unwrap() {
        ans.reps.push(r.as_array().unwrap().iter().map(|e| (e[0].as_u64().unwrap() as usize, e[1].as_u64().unwrap() as usize)).collect());
    }
    Ok(ans)
}

/// Random weighted digraphs: sparse and dense, long cycles with chords, several components,
/// infinite and zero weights, parallel edges.
fn wgs(lo: usize, hi: usize) -> BoxedStrategy<Wg> {
    (lo..=hi, any::<u64>(), 0u8..6, 0u8..5, 0usize..3)
        .prop_map(|(n, seed, shape, wmode, extra)| {
            let mut rs = Rs(seed);
            let mut pairs: Vec<(usize, usize)> = vec![];
            let all: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).filter(move |j| *j != i).map(move |j| (i, j))).collect();
            match shape {
                0 => pairs.extend(all.iter().filter(|_| rs.below(n.max(2)) < 2).copied()),
                1 => pairs.extend(all.iter().filter(|_| rs.below(2) == 0).copied()),
                2 => pairs.extend(all.iter().copied()),
                3 => {
                    // a directed cycle with chords
                    pairs.extend((0..n).map(|i| (i, (i + 1) % n.max(1))).filter(|e| e.0 != e.1));
                    pairs.extend(all.iter().filter(|_| rs.below(n + 2) == 0).copied());
                }
                4 => {
                    // acyclic orientation: many two-step connections
                    pairs.extend(all.iter().filter(|e| e.0 < e.1).filter(|_| rs.below(3) > 0).copied());
                }
                _ => {
                    // two halves, rarely connected
                    let h = n / 2;
                    pairs.extend(all.iter().filter(|e| (e.0 < h) == (e.1 < h)).filter(|_| rs.below(3) > 0).copied());
                    if rs.below(3) == 0 && n >= 2 {
                        pairs.push((0, n - 1));
                    }
                }
            }
            rs.shuffle(&mut pairs);
            for _ in 0..extra {
                if !pairs.is_empty() {
                    let e = pairs[rs.below(pairs.len())];
                    pairs.insert(rs.below(pairs.len() + 1), e);
                }
            }
            let edges = pairs
                .into_iter()
                .map(|(i, j)| {
                    let w = match wmode {
                        0 => 2,
                        1 => 1 + rs.below(3) as i32,
                        2 => rs.below(3) as i32,
                        3 => 1 + rs.below(40) as i32,
                        _ => {
                            if rs.below(4) == 0 {
                                INF
                            } else {
                                1 + rs.below(6) as i32
                            }
                        }
                    };
                    (i as u16, j as u16, w)
                })
                .collect();
            let unit = if rs.below(5) == 0 { rs.below(EXACT_UNITS as usize) as u8 } else { 0 };
            let g = Wg { n, edges, unit };
            // once in a while the vertices are spread among many
            if rs.below(150) == 0 {
                let m = n + 20 + rs.below(280);
                let far = spread(n, m, &mut rs);
                Wg { n: m, edges: g.edges.iter().map(|e| (far[e.0 as usize], far[e.1 as usize], e.2)).collect(), unit }
            } else {
                g
            }
        })
        .boxed()
}
/// Long cycles whose cells still die: representatives have dozens of edges.
fn long_wgs() -> BoxedStrategy<Wg> {
    (any::<u64>(), 6usize..34)
        .prop_map(|(seed, k)| {
            let mut rs = Rs(seed);
            let (n, pairs) = if rs.below(2) == 0 { zigzag(k, &mut rs) } else { theta(3 + k / 2, &mut rs) };
            let mut name: Vec<u16> = (0..n as u16).collect();
            match rs.below(4) {
                0 => rs.shuffle(&mut name),
                // sources, then sinks, then the rest, in one or the other direction
                1 | 2 => {
                    let key = |i: usize| (if i >= 2 * k { 2 } else { i % 2 }, i);
                    let mut ord: Vec<usize> = (0..n).collect();
                    ord.sort_by_key(|i| key(*i));
                    if rs.below(2) == 0 {
                        ord[..].reverse();
                    }
                    for (q, i) in ord.into_iter().enumerate() {
                        name[i] = q as u16;
                    }
                }
                _ => {}
            }
            let vals = 1 + rs.below(4);
            let edges = pairs.into_iter().map(|(i, j)| (name[i], name[j], 1 + rs.below(vals) as i32)).collect();
            Wg { n, edges, unit: 0 }
        })
        .boxed()
}
/// Graphs whose vertices are spread among many.
fn far_wgs(m: usize) -> BoxedStrategy<Wg> {
    (wgs(2, 7), any::<u64>())
        .prop_map(move |(g, seed)| {
            let mut rs = Rs(seed);
            let k = g.n.min(12);
            let far = far_labels(k, m, &mut rs);
            let n = far[k - 1] as usize + 1 + [0, 0, 1, 7][rs.below(4)];
            let edges = g.edges.iter().filter(|e| (e.0.max(e.1) as usize) < k).map(|e| (far[e.0 as usize], far[e.1 as usize], e.2)).collect();
            Wg { n, edges, unit: g.unit }
        })
        .boxed()
}
fn wg_interest(g: &Wg, a: &Ans, obs: &mut Obs) {
    let fin = a.pairs.get(1).map_or(0, |x| x.len());
    let distinct: BTreeSet<u64> = a.pairs.get(1).into_iter().flatten().map(|x| x.1.to_bits()).collect();
    obs.class_if(g.edges.iter().any(|e| e.2 < 0), "infinite weights");
    obs.class_if(g.edges.iter().any(|e| e.2 == 0), "zero weights");
    obs.class_if(a.ess.first().is_some_and(|x| x.len() > 1), "several components");
    obs.class_if(a.ess.get(1).is_some_and(|x| !x.is_empty()), "an essential bar in degree 1");
    obs.class_if(g.edges.iter().enumerate().any(|(i, e)| g.edges[..i].iter().any(|f| (f.0, f.1) == (e.0, e.1))), "parallel edges");
    obs.class_if(distinct.len() >= 2, "two death times");
    obs.nontrivial = fin >= 2 && distinct.len() >= 2;
}
fn g04(g: &Wg, obs: &mut Obs) -> Result<(), String> {
    let a = python(g.n, &g.request(1.0), false)?;
    ensure!(a.ess.len() == 2 && a.pairs.len() == 2, "grpph returns {} and {} degrees", a.ess.len(), a.pairs.len());
    let d = g.dig();
    let r = RefPh::new(&d, 2);
    r.check("grpph", &a.bars())?;
    for (k, l) in a.pairs.iter().enumerate() {
        for (b, e) in l {
            ensure!(b < e, "grpph returns the bar ({b}, {e}) in degree {k}");
        }
    }
    let weak = {
        let mut comp: Vec<usize> = (0..g.n).collect();
        for e in g.edges.iter() {
            let (x, y) = (comp[e.0 as usize], comp[e.1 as usize]);
            comp.iter_mut().for_each(|c| {
                if *c == y {
                    *c = x
                }
            });
        }
        comp.into_iter().collect::<BTreeSet<_>>().len()
    };
    ensure!(a.ess[0].len() == weak && a.pairs[0].is_empty(), "{} essential and {} finite bars in degree 0, the graph has {weak} components", a.ess[0].len(), a.pairs[0].len());
    ensure!(a.ess[1].iter().chain(a.pairs[1].iter().map(|x| &x.0)).all(|b| *b == 0.0), "a bar of degree 1 is not born at 0: {:?} {:?}", a.ess[1], a.pairs[1]);
    wg_interest(g, &a, obs);
    Ok(())
}

// ---------------------------------------------------------------- G05

fn reps_ok(g: &Wg, a: &Ans, r: &RefPh) -> Result<(), String> {
    ensure!(a.reps.len() == a.pairs[1].len(), "{} representatives for {} finite bars of degree 1", a.reps.len(), a.pairs[1].len());
    let last_birth = a.pairs[1].iter().map(|x| x.0).fold(0.0f64, f64::max);
    let mut deaths = vec![];
    let mut vecs = vec![];
    for rep in a.reps.iter() {
        let mut v = vec![0u64; r.pos.len()];
        let mut deg = vec![0u32; g.n];
        for (i, j) in rep {
            let Some(k) = r.pos.get(&(*i, *j)) else {
                return Err(format!("the representative {rep:?} contains ({i}, {j}), which is never an edge"));
            };
            ensure!(v[*k] == 0, "the representative {rep:?} repeats an edge");
            ensure!(r.val(r.births[*k]) <= last_birth, "the representative {rep:?} contains ({i}, {j}), born at {}, after every bar", r.val(r.births[*k]));
            v[*k] = 1;
            deg[*i] += 1;
            deg[*j] += 1;
        }
        ensure!(!rep.is_empty() && deg.iter().all(|x| x % 2 == 0), "the representative {rep:?} is not a cycle");
        let Some(t) = (0..r.crit.len()).find(|t| r.bounds[*t].contains(v.clone())) else {
            return Err(format!("the representative {rep:?} never becomes a boundary"));
        };
        deaths.push(r.val(r.crit[t]));
        vecs.push((t, v));
    }
    let mut want: Vec<f64> = a.pairs[1].iter().map(|x| x.1).collect();
    want.sort_by(f64::total_cmp);
    let mut got = deaths.clone();
    got.sort_by(f64::total_cmp);
    ensure!(got == want, "the representatives become boundaries at {got:?}, the bars die at {want:?}");
    for t in 0..r.crit.len() {
        let mut s = r.bounds[t].clone();
        for (k, (dies, v)) in vecs.iter().enumerate() {
            if *dies > t {
                ensure!(s.insert(v.clone()), "at time {} the representative {:?} depends on others that still live", r.val(r.crit[t]), a.reps[k]);
            }
        }
    }
    Ok(())
}
fn g05(g: &Wg, obs: &mut Obs) -> Result<(), String> {
    let a = python(g.n, &g.request(1.0), true)?;
    let plain = python(g.n, &g.request(1.0), false)?;
    ensure!(a.bars() == plain.bars(), "grpph_with_involution returns the bars {:?}, grpph {:?}", a.bars(), plain.bars());
    let d = g.dig();
    let r = RefPh::new(&d, 2);
    r.check("grpph_with_involution", &a.bars())?;
    reps_ok(g, &a, &r)?;
    wg_interest(g, &a, obs);
    Ok(())
}

// ---------------------------------------------------------------- G06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GMeta {
    g: Wg,
    h: Wg,
    seed: u64,
    scale: u8,
    reps: bool,
}
fn g06(c: &GMeta, obs: &mut Obs) -> Result<(), String> {
    let g = &c.g;
    let mut rs = Rs(c.seed);
    let ask = |x: &Wg, f: f64| python(x.n, &x.request(f), c.reps);
    let a = ask(g, 1.0)?;
    let base = a.bars();
    let same = |what: &str, got: Vec<(usize, f64, Option<f64>)>, want: &Vec<(usize, f64, Option<f64>)>| -> Result<(), String> {
        ensure!(got == *want, "{what}: bars {got:?}, expected {want:?}");
        Ok(())
    };
    // names of the vertices
    let mut perm: Vec<u16> = (0..g.n as u16).collect();
    rs.shuffle(&mut perm);
    let ren = Wg { n: g.n, edges: g.edges.iter().map(|e| (perm[e.0 as usize], perm[e.1 as usize], e.2)).collect(), unit: g.unit };
    same("after renaming the vertices", ask(&ren, 1.0)?.bars(), &base)?;
    // order and repetition of the edges, parallel edges that are not shorter
    let mut es = g.edges.clone();
    for _ in 0..rs.below(4) {
        if !es.is_empty() {
            let mut e = es[rs.below(es.len())];
            match rs.below(3) {
                0 => {}
                1 if e.2 >= 0 => e.2 += rs.below(9) as i32,
                _ => e.2 = INF,
            }
            es.push(e);
        }
    }
    rs.shuffle(&mut es);
    same("after reordering the edges and adding parallel ones", ask(&Wg { n: g.n, edges: es, unit: g.unit }, 1.0)?.bars(), &base)?;
    // scale
    let ks = [2.0, 3.0, 7.0, 1024.0, 2f64.powi(150), 0.25, 0.5, 2f64.powi(-60)];
    // the smallest numbers can only grow without rounding
    let k = ks[c.scale as usize % if g.unit == 3 { 5 } else { 8 }];
    let scaled: Vec<_> = base.iter().map(|b| (b.0, b.1 * k, b.2.map(|x| x * k))).collect();
    same(&format!("after multiplying the weights by {k}"), ask(g, k)?.bars(), &scaled)?;
    // disjoint union
    let h = &Wg { unit: g.unit, ..c.h.clone() };
    let mut un = Wg { n: g.n + h.n, edges: g.edges.clone(), unit: g.unit };
    un.edges.extend(h.edges.iter().map(|e| (e.0 + g.n as u16, e.1 + g.n as u16, e.2)));
    rs.shuffle(&mut un.edges);
    let b = ask(h, 1.0)?;
    let mut want = base.clone();
    want.extend(b.bars());
    want.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
    same("disjoint union", ask(&un, 1.0)?.bars(), &want)?;
    // isolated vertex, placed anywhere
    let at = rs.below(g.n + 1) as u16;
    let mv = |x: u16| if x >= at { x + 1 } else { x };
    let iso = Wg { n: g.n + 1, edges: g.edges.iter().map(|e| (mv(e.0), mv(e.1), e.2)).collect(), unit: g.unit };
    let mut want = base.clone();
    want.push((0, 0.0, None));
    want.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
    same("after adding an isolated vertex", ask(&iso, 1.0)?.bars(), &want)?;
    obs.class_if(c.reps, "with involution");
    wg_interest(g, &a, obs);
    Ok(())
}

// ---------------------------------------------------------------- G07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call {
    g: u8,
    reps: bool,
    /// Make the call with arguments that are not a graph on these vertices.
    bad: Option<u8>,
    /// Overwrite the returned lists.
    spoil: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    graphs: Vec<Wg>,
    calls: Vec<Call>,
    threads: u8,
}
/// The calls are made in a Python process of their own.
fn g07(c: &Hist, obs: &mut Obs) -> Result<(), String> {
    let graphs: Vec<Value> = c.graphs.iter().map(|g| json!({"n": g.n, "edges": g.request(1.0)})).collect();
    let k = c.graphs.len();
    let calls: Vec<Value> = c.calls.iter().map(|x| json!({"g": x.g as usize % k, "reps": x.reps, "bad": x.bad, "spoil": x.spoil})).collect();
    let v = Worker::start()?.ask(&json!({"graphs": graphs, "calls": calls, "threads": c.threads}))?;
    let refs: Vec<RefPh> = c.graphs.iter().map(|g| RefPh::new(&g.dig(), 2)).collect();
    let mut first: BTreeMap<(usize, bool), Vec<(usize, f64, Option<f64>)>> = BTreeMap::new();
    let mut repeats = 0;
    for (i, x) in c.calls.iter().enumerate() {
        if x.bad.is_some() {
            continue;
        }
        let g = x.g as usize % k;
        let name = format!("call {i} of the history");
        let a = decode(&v["answers"][i], x.reps).map_err(|e| format!("{name}: {e}"))?;
        ensure!(a.ess.len() == 2 && a.pairs.len() == 2, "{name} returns {} and {} degrees", a.ess.len(), a.pairs.len());
        refs[g].check(&name, &a.bars())?;
        for (b, e) in a.pairs.iter().flatten() {
            ensure!(b < e, "{name} returns the bar ({b}, {e})");
        }
        if x.reps {
            reps_ok(&c.graphs[g], &a, &refs[g]).map_err(|e| format!("{name}: {e}"))?;
        }
        if let Some(f) = first.get(&(g, x.reps)) {
            repeats += 1;
            ensure!(*f == a.bars(), "{name} returns the bars {:?}, an earlier call with the same graph {f:?}", a.bars());
        } else {
            first.insert((g, x.reps), a.bars());
        }
    }
    for (g, kept) in v["kept"].as_array().unwrap().iter().enumerate() {
        ensure!(*kept == json!(true), "the list of edges of graph {g} is changed by the calls");
    }
    obs.class_if(c.threads > 1, "several threads");
    obs.class_if(c.calls.iter().any(|x| x.bad.is_some()), "with calls that are refused");
    obs.class_if(c.calls.iter().any(|x| x.spoil), "with returned lists overwritten");
    let bars: BTreeSet<Vec<(usize, u64, Option<u64>)>> =
        first.values().map(|b| b.iter().map(|x| (x.0, x.1.to_bits(), x.2.map(f64::to_bits))).collect()).collect();
    obs.nontrivial = repeats >= 1 && bars.len() >= 2;
    Ok(())
}
/// Graphs that are easily mistaken for each other: the same up to one weight, one end point, the
/// number of vertices or the order of the edges, and unrelated ones.
fn hists(hi: usize, len: usize) -> BoxedStrategy<Hist> {
    let call = (any::<u8>(), any::<bool>(), prop_oneof![5 => Just(None), 1 => any::<u8>().prop_map(Some)], any::<bool>())
        .prop_map(|(g, reps, bad, spoil)| Call { g, reps, bad, spoil });
    (wgs(2, hi), wgs(0, hi), any::<u64>(), prop::collection::vec(call, 2..len), prop_oneof![2 => Just(1u8), 1 => 2u8..5])
        .prop_map(|(g, other, seed, calls, threads)| {
            let mut rs = Rs(seed);
            let mut graphs = vec![g.clone()];
            for _ in 0..1 + rs.below(3) {
                let mut h = g.clone();
                let m = h.edges.len();
                match rs.below(6) {
                    0 => h.n += 1 + rs.below(3),
                    1 if m > 0 => {
                        let e = &mut h.edges[rs.below(m)].2;
                        *e = if *e < 0 { 1 } else { *e + 1 + rs.below(4) as i32 };
                    }
                    2 if m > 0 => {
                        h.edges.remove(rs.below(m));
                    }
                    3 if m > 0 => {
                        let e = &mut h.edges[rs.below(m)];
                        *e = (e.1, e.0, e.2);
                    }
                    4 => {
                        // the weights move round
                        let w: Vec<i32> = h.edges.iter().map(|e| e.2).collect();
                        for (k, e) in h.edges.iter_mut().enumerate() {
                            e.2 = w[(k + 1) % m];
                        }
                    }
                    _ => h = other.clone(),
                }
                graphs.push(h);
            }
            rs.shuffle(&mut graphs);
            Hist { graphs, calls, threads }
        })
        .boxed()
}

// ---------------------------------------------------------------- G08

/// An edge naming a vertex that is not there: end point `v` beyond the vertices, made by `how`.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wrong {
    how: u8,
    k: u8,
    other: u8,
    target: bool,
    w: i32,
    at: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Refuse {
    g: Wg,
    wrong: Vec<Wrong>,
    /// More vertices than can be named, instead of wrong edges.
    many: Option<(u8, u8)>,
    reps: bool,
}
impl Wrong {
    /// The vertices of a graph on n vertices are 0 to n - 1.
    fn vertex(&self, n: usize) -> i64 {
        let (n, k) = (n as i64, self.k as i64);
        let inside = if n == 0 { 0 } else { k % n };
        match self.how % 12 {
            0 => n,
            1 => n + 1 + k % 5,
            2 => n.max(256 * (1 + k % 4) + inside),
            3 => n.max(65535),
            4 => 65536 + inside,
            5 => 65536 * (1 + k % 7) + inside,
            6 => 65536 * (1 + k % 7) + n + k % 3,
            7 => (1 << 31) + inside,
            8 => (1 << 32) - 1 - k % 3,
            9 => (1i64 << 32) * (1 + k % 3) + inside,
            10 => (1i64 << 48) + inside,
            _ => -1 - k % 3,
        }
    }
}
fn g08(c: &Refuse, obs: &mut Obs) -> Result<(), String> {
    let g = &c.g;
    let mut edges: Vec<(i64, i64, String)> = g.request(1.0).into_iter().map(|(i, j, w)| (i as i64, j as i64, w)).collect();
    let mut n = g.n as i64;
    if let Some((how, k)) = c.many {
        let k = k as i64;
        n = match how % 5 {
            0 => 65536,
            1 => 65536 + g.n as i64 + k % 4,
            2 => 65536 * (2 + k % 5) + g.n as i64,
            3 => (1 << 32) - 1 - k,
            _ => (1 << 32) + g.n as i64,
        };
    } else {
        for x in c.wrong.iter() {
            let v = x.vertex(g.n);
            let o = if g.n == 0 { x.other as i64 } else { x.other as i64 % g.n as i64 };
            let at = x.at as usize % (edges.len() + 1);
            edges.insert(at, if x.target { (o, v, format!("{:?}", g.weight(x.w))) } else { (v, o, format!("{:?}", g.weight(x.w))) });
        }
    }
    let name = if c.reps { "grpph_with_involution" } else { "grpph" };
    let what = if c.many.is_some() { format!("{n} vertices") } else { format!("the edges {edges:?} on the vertices 0 to {}", n - 1) };
    let v = request(&json!({"n": n, "edges": edges, "reps": c.reps, "limit": 2u64 << 30}))
        .map_err(|e| format!("{name} with {what} neither returns nor raises: {e}"))?;
    if v["err"].as_str().is_none() {
        return Err(format!("{name} with {what} returns {v}"));
    }
    // a graph whose edges stay inside is not refused
    let a = python(g.n, &g.request(1.0), c.reps)?;
    RefPh::new(&g.dig(), 2).check(&format!("{name} without the wrong edges"), &a.bars())?;
    obs.class_if(c.many.is_some(), "too many vertices");
    obs.class_if(c.wrong.iter().any(|x| (4..=9).contains(&(x.how % 12))), "vertex that is inside when truncated");
    obs.nontrivial = g.edges.len() >= 2;
    Ok(())
}
fn refusals() -> BoxedStrategy<Refuse> {
    let wrong = (any::<u8>(), any::<u8>(), any::<u8>(), any::<bool>(), -1i32..4, any::<u8>()).prop_map(|(how, k, other, target, w, at)| Wrong { how, k, other, target, w, at });
    let many = prop_oneof![5 => Just(None), 1 => any::<(u8, u8)>().prop_map(Some)];
    (wgs(0, 7), prop::collection::vec(wrong, 1..4), many, any::<bool>()).prop_map(|(g, wrong, many, reps)| Refuse { g, wrong, many, reps }).boxed()
}

/// Every digraph on 3 vertices with times from a small set and every grounding; weighted digraphs
/// on 3 vertices.
fn small_digs(tier: Tier) -> Vec<GCase> {
    let vals: &[i32] = if tier == Tier::Quick { &[-1, 0, 1] } else { &[-1, 0, 1, 2] };
    let offs = [(0usize, 1usize), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)];
    let mut out = vec![];
    for code in 0..vals.len().pow(6) {
        let mut k = code;
        let mut times = vec![INF; 9];
        for (i, j) in offs {
            times[i * 3 + j] = vals[k % vals.len()];
            k /= vals.len();
        }
        for mask in 0..64 {
            if tier == Tier::Quick && mask % 7 != code % 7 {
                continue;
            }
            let edges = (0..6).filter(|b| mask >> b & 1 == 1).map(|b| (offs[b].0 as u16, offs[b].1 as u16)).collect();
            out.push(GCase { d: Dig { n: 3, times: times.clone(), edges, unit: 0 }, field: if (code + mask) % 2 == 0 { Fld::Z2 } else { Fld::Z3 } });
        }
    }
    out
}
fn small_wgs(tier: Tier) -> Vec<Wg> {
    let vals: &[Option<i32>] = if tier == Tier::Quick { &[None, Some(1), Some(2), Some(-1)] } else { &[None, Some(0), Some(1), Some(2), Some(-1)] };
    let offs = [(0u16, 1u16), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)];
    let mut out: Vec<Wg> = (0..4).map(|n| Wg { n, edges: vec![], unit: 0 }).collect();
    for code in 0..vals.len().pow(6) {
        let mut k = code;
        let mut edges = vec![];
        for (i, j) in offs {
            if let Some(w) = vals[k % vals.len()] {
                edges.push((i, j, w));
            }
            k /= vals.len();
        }
        out.push(Wg { n: 3, edges, unit: 0 });
    }
    out
}

fn registry(p: &str) -> Vec<Box<dyn AnyTest>> {
    let dig_rule = "random digraph filtrations on 1 to 6 vertices (many ties, missing pairs, shortest-path closed or not) with a random set of grounded edges (also edges without a time), random field";
    let _ = dig_rule;
    match p {
        "G01" => vec![
            Box::new(Enum::<GCase> { name: "small-digraphs", rule: "every digraph filtration on 3 vertices with times in a small set and a share of all groundings; non-trivial with a directed triangle and a long square", cases: small_digs, check: g01, shards: 8 }),
            Box::new(Test::<GCase> {
                name: "filtrations",
                cases: (120_000, 1_440_000),
                rule: "random digraph filtrations on 1 to 6 vertices (ties, missing pairs, shortest-path closed or not) with random grounded edges over a random field, at every critical time; non-trivial with a directed triangle and a long square",
                strat: gcases,
                check: g01,
                shards: 8,
            }),
            Box::new(Test::<Far> {
                name: "far-vertices",
                cases: (120, 1200),
                rule: "random digraph filtrations whose vertices are spread among up to 600 (thorough: 1000), round powers of two and at the ends; non-trivial with a directed triangle and a long square",
                strat: |t| fars(if t == Tier::Quick { 600 } else { 1000 }),
                check: g01_far,
                shards: 8,
            }),
        ],
        "G02" => vec![
            Box::new(Enum::<GCase> { name: "small-digraphs", rule: "every digraph filtration on 3 vertices with times in a small set and a share of all groundings; non-trivial with a long square", cases: small_digs, check: g02, shards: 8 }),
            Box::new(Test::<GCase> {
                name: "filtrations",
                cases: (120_000, 1_440_000),
                rule: "random digraph filtrations as for G01, every cell; non-trivial with a long square",
                strat: gcases,
                check: g02,
                shards: 8,
            }),
            Box::new(Test::<Far> {
                name: "far-vertices",
                cases: (120, 1200),
                rule: "random digraph filtrations whose vertices are spread among up to 600 (thorough: 1000), round powers of two and at the ends; non-trivial with a long square",
                strat: |t| fars(if t == Tier::Quick { 600 } else { 1000 }),
                check: g02_far,
                shards: 8,
            }),
            Box::new(Test::<Far> {
                name: "far-names",
                cases: (20_000, 300_000),
                rule: "boundaries of the cells of random digraph filtrations on vertices anywhere below 65536, over filtrations stored as a map and of a type of the caller's; non-trivial with a long square",
                strat: |_| fars(65_536),
                check: g02_names,
                shards: 8,
            }),
        ],
        "G03" => vec![
            Box::new(Enum::<GCase> { name: "small-digraphs", rule: "every digraph filtration on 3 vertices with times in a small set and a share of all groundings; non-trivial with two finite bars in degree 1", cases: small_digs, check: g03, shards: 8 }),
            Box::new(Test::<GCase> {
                name: "filtrations",
                cases: (120_000, 1_440_000),
                rule: "random digraph filtrations as for G01, clearing and standard algorithm, against persistent ranks from the definition at all pairs of critical times; non-trivial with two finite bars in degree 1",
                strat: gcases,
                check: g03,
                shards: 8,
            }),
            Box::new(Test::<Far> {
                name: "far-vertices",
                cases: (120, 1200),
                rule: "random digraph filtrations whose vertices are spread among up to 600 (thorough: 1000), round powers of two and at the ends; non-trivial with two finite bars in degree 1",
                strat: |t| fars(if t == Tier::Quick { 600 } else { 1000 }),
                check: g03_far,
                shards: 8,
            }),
        ],
        "G04" => vec![
            Box::new(Enum::<Wg> { name: "small-graphs", rule: "every digraph on 3 vertices with weights in a small set; non-trivial with two death times in degree 1", cases: small_wgs, check: g04, shards: 8 }),
            Box::new(Test::<Wg> {
                name: "graphs",
                cases: (80_000, 960_000),
                rule: "random weighted digraphs on 0 to 8 vertices (sparse, dense, cycles with chords, acyclic, several components; zero, tied, infinite and parallel weights) through Python; non-trivial with two death times in degree 1",
                strat: |t| prop_oneof![300 => wgs(0, if t == Tier::Quick { 8 } else { 9 }), 1 => wgs(9, 18), 1 => long_wgs()].boxed(),
                check: g04,
                shards: 8,
            }),
            Box::new(Test::<Wg> {
                name: "far-vertices",
                cases: (120, 1200),
                rule: "random weighted digraphs whose vertices are spread among up to 600 (thorough: 1000) through Python; non-trivial with two death times in degree 1",
                strat: |t| far_wgs(if t == Tier::Quick { 600 } else { 1000 }),
                check: g04,
                shards: 8,
            }),
        ],
        "G05" => vec![
            Box::new(Enum::<Wg> { name: "small-graphs", rule: "every digraph on 3 vertices with weights in a small set; non-trivial with two death times in degree 1", cases: small_wgs, check: g05, shards: 8 }),
            Box::new(Test::<Wg> {
                name: "graphs",
                cases: (80_000, 960_000),
                rule: "random weighted digraphs as for G04, representatives against mod-2 boundaries of invariant 2-paths at every critical time; non-trivial with two death times in degree 1",
                strat: |t| prop_oneof![300 => wgs(0, if t == Tier::Quick { 8 } else { 9 }), 1 => wgs(9, 18), 1 => long_wgs()].boxed(),
                check: g05,
                shards: 8,
            }),
            Box::new(Test::<Wg> {
                name: "far-vertices",
                cases: (120, 1200),
                rule: "random weighted digraphs whose vertices are spread among up to 600 (thorough: 1000) through Python; non-trivial with two death times in degree 1",
                strat: |t| far_wgs(if t == Tier::Quick { 600 } else { 1000 }),
                check: g05,
                shards: 8,
            }),
        ],
        "G06" => vec![Box::new(Test::<GMeta> {
            name: "metamorphic",
            cases: (40_000, 480_000),
            rule: "random weighted digraphs as for G04 with renaming, reordering, repetition, parallel edges, scaling, disjoint union and an isolated vertex, with or without involution; non-trivial with two death times in degree 1",
            strat: |t| {
                let hi = if t == Tier::Quick { 8 } else { 10 };
                (prop_oneof![200 => wgs(0, hi), 1 => wgs(hi, 45), 1 => long_wgs()], wgs(0, 5), any::<u64>(), any::<u8>(), any::<bool>()).prop_map(|(g, h, seed, scale, reps)| GMeta { g, h, seed, scale, reps }).boxed()
            },
            check: g06,
            shards: 8,
        })],
        "G07" => vec![Box::new(Test::<Hist> {
            name: "histories",
            cases: (3_000, 80_000),
            rule: "2 to 10 calls of both functions in one fresh Python process, one after another or from up to 4 threads, on up to 4 graphs that differ in one weight, edge, vertex or in everything, with calls that are refused and returned lists overwritten in between; every answer against the definition; non-trivial when a call is repeated and the graphs have different barcodes",
            strat: |t| if t == Tier::Quick { hists(6, 11) } else { hists(7, 20) },
            check: g07,
            shards: 8,
        })],
        "G08" => vec![Box::new(Test::<Refuse> {
            name: "refusals",
            cases: (60_000, 1_000_000),
            rule: "random weighted digraphs on 0 to 7 vertices with up to three edges that name a vertex outside, in any place of the list, as source or target, of any weight (next number, beyond 8, 16, 31, 32 and 48 bits, negative), or with more vertices than 16 bits can name; the call has to raise, and the graph without them has its barcode; non-trivial with two edges inside",
            strat: |_| refusals(),
            check: g08,
            shards: 8,
        })],
        _ => vec![],
    }
}
fn assumptions(p: &str) -> Vec<&'static str> {
    match p {
        "G04" | "G05" | "G06" | "G07" | "G08" => vec![
            "weights are small multiples of one power of two so that path lengths are exact; graphs have no self-loops and no negative weights",
            "the Python module is the library built with debug assertions, loaded by /usr/bin/python3",
        ],
        _ => vec!["coefficient arithmetic is exact (decided by C06); ranks over Q are taken modulo 2^61-1"],
    }
}
fn main() {
    pbt::driver::run(registry, assumptions)
}
