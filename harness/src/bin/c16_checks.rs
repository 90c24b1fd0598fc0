//! C16: matrices have no memory.
use pbt::complexes::*;
use pbt::fields::*;
use pbt::fw::*;
use pbt::gens::*;
use pbt::mats::*;
use pbt::zoo::*;
use pbt::{ensure, with_few};

use phlite::columns::ColumnEntry;
use phlite::matrices::combinators::{product, sum};
use phlite::matrices::{ColBasis, HasColBasis, HasRowFiltration, MatrixOracle};
use phlite::reduction::{standard_algo, ClearedReductionMatrix};
use phlite_grpph::boundary::GrPPHBoundary;
use phlite_grpph::coboundary::{GrPPHCoboundary, PathHom2Cell, PathHomCell, PathHomSingleBasis};
use phlite_rips::cohomology::build_rips_coboundary_matrix;
use phlite_rips::homology::build_rips_boundary_matrix;
use phlite_rips::RipsIndex;
use ordered_float::NotNan;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;

type Vector<R, F> = BTreeMap<R, F>;

/// An iterator over a column that is still being consumed.
struct Open<'a, R, F, FT> {
    mat: usize,
    col: usize,
    it: Box<dyn Iterator<Item = (F, R, Option<FT>)> + 'a>,
    got: Vec<(F, R, Option<FT>)>,
}

/// Requests in a random order to one matrix, with several iterators open at a time; every answer must
/// be the one of a matrix that was just made.
fn history<M>(name: &str, mk: impl Fn() -> M, cols: Option<Vec<M::ColT>>, rs: &mut Rs, steps: usize, obs: &mut Obs) -> Result<(), String>
where
    M: HasRowFiltration<FiltrationT: Debug> + HasColBasis,
    M: MatrixOracle<ColT: Debug, RowT: Debug, CoefficientField: TF>,
{
    let basis = list_of(&*mk().basis());
    let cols = cols.unwrap_or_else(|| basis.clone());
    let mut truth: BTreeMap<usize, Vector<M::RowT, M::CoefficientField>> = BTreeMap::new();
    let mut fil: BTreeMap<M::RowT, M::FiltrationT> = BTreeMap::new();
    let want = |_: usize, k: usize| truth.entry(k).or_insert_with(|| vec_of(&mk(), cols[k].clone())).clone();
    let time = |_: usize, r: &M::RowT| fil.entry(r.clone()).or_insert_with(|| mk().filtration_value(r.clone())).clone();
    histories(name, &[mk()], &[basis], &cols, want, time, rs, steps, obs)
}
/// Requests in a random order to several matrices with the same columns; `want` and `time` tell the
/// columns and filtration values.
#[allow(clippy::too_many_arguments)]
fn histories<M>(
    name: &str,
    ms: &[M],
    bases: &[Vec<M::ColT>],
    cols: &[M::ColT],
    mut want: impl FnMut(usize, usize) -> Vector<M::RowT, M::CoefficientField>,
    mut time: impl FnMut(usize, &M::RowT) -> M::FiltrationT,
    rs: &mut Rs,
    steps: usize,
    obs: &mut Obs,
) -> Result<(), String>
where
    M: HasRowFiltration<FiltrationT: Debug> + HasColBasis,
    M: MatrixOracle<ColT: Debug, RowT: Debug, CoefficientField: TF>,
{
    if cols.is_empty() {
        return Ok(());
    }
    // few columns are asked for often
    let favourites: Vec<usize> = (0..1 + rs.below(5)).map(|_| rs.below(cols.len())).collect();
    let mut open: Vec<Open<M::RowT, M::CoefficientField, M::FiltrationT>> = vec![];
    let (mut asked, mut most_open, mut finished) = (vec![0usize; cols.len()], 0, 0);
    for step in 0..steps {
        let k = if rs.below(4) == 0 { rs.below(cols.len()) } else { favourites[rs.below(favourites.len())] };
        let c = || cols[k].clone();
        let w = if ms.len() > 1 { rs.below(ms.len()) } else { 0 };
        let (m, basis) = (&ms[w], &bases[w]);
        let at = if ms.len() > 1 { format!("{name} {w}, request {step}") } else { format!("{name}, request {step}") };
        match rs.below(12) {
            0..=2 => {
                asked[k] += 1;
                let it: Box<dyn Iterator<Item = _> + '_> = if rs.below(2) == 0 {
                    Box::new(m.column(c()).map(|(x, r)| (x, r, None)))
                } else {
                    Box::new(m.column_with_filtration(c()).map(|e| (e.coeff, e.row_index, Some(e.filtration_value))))
                };
                open.push(Open { mat: w, col: k, it, got: vec![] });
                most_open = most_open.max(open.len());
            }
            3..=6 => {
                if open.is_empty() {
                    continue;
                }
                let i = rs.below(open.len());
                let n = 1 + rs.below(4);
                let mut done = false;
                for _ in 0..n {
                    match open[i].it.next() {
                        Some(x) => {
                            ensure!(open[i].got.len() < 100_000, "{at}: the iterator over column {:?} does not end", cols[open[i].col]);
                            open[i].got.push(x);
                        }
                        None => {
                            done = true;
                            break;
                        }
                    }
                }
                if done {
                    let o = open.swap_remove(i);
                    finished += 1;
                    for (_, r, f) in o.got.iter() {
                        if let Some(f) = f {
                            let t = time(o.mat, r);
                            ensure!(*f == t, "{at}: row {r:?} of column {:?} carries {f:?}, expected {t:?}", cols[o.col]);
                        }
                    }
                    let got = sum_terms(o.got.into_iter().map(|(x, r, _)| (x, r)));
                    let w = want(o.mat, o.col);
                    ensure!(got == w, "{at}: an iterator yields {got:?} for column {:?}, expected {w:?}", cols[o.col]);
                }
            }
            7 => {
                if !open.is_empty() {
                    open.swap_remove(rs.below(open.len()));
                }
            }
            8 => {
                asked[k] += 1;
                let got = vec_of(&m, c());
                let v = want(w, k);
                ensure!(got == v, "{at}: column {:?} is {got:?}, expected {v:?}", cols[k]);
            }
            9 => {
                asked[k] += 1;
                let mut h = m.build_bhcol(c());
                if rs.below(2) == 0 {
                    let p = h.pop_pivot();
                    let lead = want(w, k).into_iter().max_by_key(|(r, _)| (time(w, r), r.clone()));
                    let got = p.map(|e| (e.row_index, e.coeff));
                    ensure!(got == lead, "{at}: the leading term of column {:?} is {got:?}, expected {lead:?}", cols[k]);
                } else {
                    let got = sum_terms(h.drain_sorted().map(|e| (e.coeff, e.row_index)));
                    let v = want(w, k);
                    ensure!(got == v, "{at}: the heap of column {:?} holds {got:?}, expected {v:?}", cols[k]);
                }
            }
            10 => {
                for r in want(w, k).keys() {
                    let (f, t) = (m.filtration_value(r.clone()), time(w, r));
                    ensure!(f == t, "{at}: the filtration value of {r:?} is {f:?}, expected {t:?}");
                }
            }
            _ => {
                let b = m.basis();
                ensure!(b.size() == basis.len(), "{at}: the basis has {} elements, expected {}", b.size(), basis.len());
                if !basis.is_empty() {
                    let i = rs.below(basis.len());
                    let e = b.element(i);
                    ensure!(e == basis[i], "{at}: basis element {i} is {e:?}, expected {:?}", basis[i]);
                }
                ensure!(m.eq_on_col(m, c()), "{at}: column {:?} differs from itself", cols[k]);
            }
        }
    }
    let repeated = asked.iter().any(|x| *x >= 3);
    obs.class_if(most_open >= 3, "three iterators open at a time");
    obs.nontrivial |= repeated && finished >= 3 && most_open >= 2;
    Ok(())
}

fn rips_v<F: TF>(c: &HCase, v: &mut Hist) -> Result<(), String> {
    rips_f::<F, _>(c, v)
}
fn dig_v<F: TF>(c: &HCase, v: &mut Hist) -> Result<(), String> {
    dig_f::<F, _>(c, v)
}
fn stacks_v<F: TF>(c: &SCase, v: &mut Hist) -> Result<(), String> {
    stacks_f::<F, _, _>(c.what, || c.m.raw::<F>(), v)
}
fn rips(c: &HCase, obs: &mut Obs) -> Result<(), String> {
    let v = &mut Hist { rs: Rs(c.seed), steps: c.steps, obs };
    with_few!(c.field, rips_v::<_>(c, v))
}
fn dig(c: &HCase, obs: &mut Obs) -> Result<(), String> {
    let v = &mut Hist { rs: Rs(c.seed), steps: c.steps, obs };
    with_few!(c.field, dig_v::<_>(c, v))
}
struct Hist<'a> {
    rs: Rs,
    steps: usize,
    obs: &'a mut Obs,
}
impl Visit for Hist<'_> {
    fn visit<M>(&mut self, name: &str, mk: impl Fn() -> M, cols: Option<Vec<M::ColT>>) -> Result<(), String>
    where
        M: HasRowFiltration<FiltrationT: Debug> + HasColBasis,
        M: MatrixOracle<ColT: Debug, RowT: Debug, CoefficientField: TF>,
    {
        history(name, mk, cols, &mut self.rs, self.steps, self.obs)
    }
}
/// Several matrices of the same size at a time.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TCase {
    dists: Vec<Dist>,
    digs: Vec<Dig>,
    field: Fld,
    what: u8,
    max_dim: usize,
    steps: usize,
    seed: u64,
}
fn unit<F: TF>(minus: bool) -> F {
    if minus {
        F::one().additive_inverse()
    } else {
        F::one()
    }
}
fn twin_rips_f<F: TF>(c: &TCase, obs: &mut Obs) -> Result<(), String> {
    let rs = &mut Rs(c.seed);
    let (n, k) = (c.dists[0].n, c.max_dim);
    let code = |s: &[usize]| RipsIndex::from_indices(s.iter().copied(), n).unwrap();
    let simplices: BTreeMap<RipsIndex, Vec<usize>> = (1u32..1 << n)
        .filter(|b| b.count_ones() as usize <= k + 2)
        .map(|b| (0..n).filter(|i| b >> i & 1 == 1).collect::<Vec<usize>>())
        .map(|s| (code(&s), s))
        .collect();
    let cols: Vec<RipsIndex> = simplices.iter().filter(|(_, s)| s.len() <= k + 1).map(|(i, _)| *i).collect();
    let basis = |d: &Dist| -> Vec<RipsIndex> {
        let mut b: Vec<(usize, NotNan<f64>, RipsIndex)> = cols.iter().map(|i| (simplices[i].len(), nn(d.diam(&simplices[i])), *i)).collect();
        b.sort();
        b.into_iter().map(|x| x.2).collect()
    };
    let bases: Vec<Vec<RipsIndex>> = c.dists.iter().map(basis).collect();
    let time = |w: usize, r: &RipsIndex| nn(c.dists[w].diam(&simplices[r]));
    let facets = |_: usize, j: usize| -> Vector<RipsIndex, F> {
        let s = &simplices[&cols[j]];
        if s.len() == 1 {
            return Vector::new();
        }
        let facet = |i: usize| -> Vec<usize> { (0..s.len()).filter(|x| *x != i).map(|x| s[x]).collect() };
        (0..s.len()).map(|i| (code(&facet(i)), unit::<F>(i % 2 == 1))).collect()
    };
    let cofacets = |_: usize, j: usize| -> Vector<RipsIndex, F> {
        let s = &simplices[&cols[j]];
        (0..n)
            .filter(|v| !s.contains(v))
            .map(|v| {
                let at = s.iter().filter(|x| **x < v).count();
                let mut t = s.clone();
                t.insert(at, v);
                (code(&t), unit::<F>(at % 2 == 1))
            })
            .collect()
    };
    let bd: Vec<_> = c.dists.iter().map(|d| build_rips_boundary_matrix::<F>(d.matrix(), k)).collect();
    let cob: Vec<_> = c.dists.iter().map(|d| build_rips_coboundary_matrix::<F>(d.matrix(), k)).collect();
    match c.what % 5 {
        0 => histories("Rips boundary", &bd, &bases, &cols, facets, time, rs, c.steps, obs),
        1 => histories("Rips coboundary", &cob, &bases, &cols, cofacets, time, rs, c.steps, obs),
        2 => {
            let ms: Vec<_> = bd.iter().zip(&bases).map(|(x, b)| Bare { m: &x.matrix, basis: b.clone() }).collect();
            histories("Rips boundary without basis", &ms, &bases, &cols, facets, time, rs, c.steps, obs)
        }
        3 => {
            let ms: Vec<_> = cob.iter().zip(&bases).map(|(x, b)| Bare { m: &x.matrix, basis: b.clone() }).collect();
            histories("Rips coboundary without basis", &ms, &bases, &cols, cofacets, time, rs, c.steps, obs)
        }
        _ => {
            let ms: Vec<_> = cob.iter().map(|x| x.cache_cols()).collect();
            histories("cached Rips coboundary", &ms, &bases, &cols, cofacets, time, rs, c.steps, obs)
        }
    }
}
/// Cells of the filtration by definition: boundary and time.
fn dig_cells<F: TF>(d: &Dig) -> BTreeMap<PathHomCell, (Vector<PathHomCell, F>, f64)> {
    use PathHom2Cell::*;
    let mut out: BTreeMap<PathHomCell, (Vector<PathHomCell, F>, f64)> = BTreeMap::new();
    let n = d.n;
    let node = |i: usize| PathHomCell::Node(i as u16);
    let edge = |i: usize, j: usize| PathHomCell::Edge(i as u16, j as u16);
    let sum_of = |t: Vec<(bool, PathHomCell)>| sum_terms(t.into_iter().map(|(minus, c)| (unit::<F>(minus), c)));
    for i in 0..n {
        out.insert(node(i), (Vector::new(), 0.0));
        for j in 0..n {
            if let Some(t) = d.edge_birth(i, j) {
                out.insert(edge(i, j), (sum_of(vec![(true, node(i)), (false, node(j))]), t));
            }
        }
    }
    let path = |a: usize, b: usize, c: usize| Some(d.time(a, b)?.max(d.time(b, c)?));
    for a in 0..n {
        for c in 0..n {
            let mut paths: Vec<(f64, usize)> = (0..n).filter_map(|b| Some((path(a, b, c)?, b))).collect();
            paths.sort_by(|x, y| x.partial_cmp(y).unwrap());
            if a == c {
                for (t, b) in paths {
                    out.insert(PathHomCell::TwoCell(DoubleEdge(a as u16, b as u16)), (sum_of(vec![(false, edge(a, b)), (false, edge(b, a))]), t));
                }
                continue;
            }
            let ac = d.time(a, c).unwrap_or(f64::INFINITY);
            let bridge = paths.first().copied().filter(|x| x.0 < ac);
            for (t, b) in paths {
                let triangle = PathHomCell::TwoCell(DirectedTriangle(a as u16, b as u16, c as u16));
                let sides = || sum_of(vec![(false, edge(b, c)), (true, edge(a, c)), (false, edge(a, b))]);
                match bridge {
                    Some((_, p)) if t < ac && b != p => {
                        let square = LongSquare(a as u16, p as u16, b as u16, c as u16);
                        let sides = sum_of(vec![(false, edge(b, c)), (false, edge(a, b)), (true, edge(p, c)), (true, edge(a, p))]);
                        out.insert(PathHomCell::TwoCell(square), (sides, t));
                    }
                    Some((_, p)) if b == p => {
                        if ac < f64::INFINITY {
                            out.insert(triangle, (sides(), ac));
                        }
                    }
                    _ => {
                        out.insert(triangle, (sides(), t));
                    }
                }
            }
        }
    }
    out
}
fn twin_digs_f<F: TF>(c: &TCase, obs: &mut Obs) -> Result<(), String> {
    let rs = &mut Rs(c.seed);
    let n = c.digs[0].n as u16;
    let cells: Vec<_> = c.digs.iter().map(dig_cells::<F>).collect();
    let (fs, es): (Vec<_>, Vec<_>) = c.digs.iter().map(|d| (d.as_vec(), d.edge_set())).unzip();
    let time = |w: usize, r: &PathHomCell| nn(cells[w][r].1);
    let list = |w: usize, lo: usize, hi: usize| -> Vec<PathHomCell> {
        let mut v: Vec<_> = cells[w].iter().filter(|x| (lo..=hi).contains(&x.0.dimension())).map(|(x, y)| (x.dimension(), nn(y.1), *x)).collect();
        v.sort();
        v.into_iter().map(|x| x.2).collect()
    };
    let common = |lo: usize, hi: usize| -> Vec<PathHomCell> { cells[0].keys().filter(|x| (lo..=hi).contains(&x.dimension()) && cells.iter().all(|k| k.contains_key(*x))).copied().collect() };
    if c.what % 3 == 0 {
        let bases: Vec<_> = (0..cells.len()).map(|w| list(w, 2, 2)).collect();
        let single = |w: usize| PathHomSingleBasis(bases[w].iter().map(|x| (time(w, x), *x)).collect());
        let ms: Vec<_> = (0..cells.len()).map(|w| GrPPHBoundary::<F, _>::build(&fs[w], &es[w], single(w))).collect();
        let cols = common(0, 2);
        let want = |w: usize, j: usize| cells[w][&cols[j]].0.clone();
        histories("GrPPH boundary", &ms, &bases, &cols, want, time, rs, c.steps, obs)
    } else {
        let bases: Vec<_> = (0..cells.len()).map(|w| list(w, 0, 1)).collect();
        let ms: Vec<_> = (0..cells.len()).map(|w| GrPPHCoboundary::<F, _>::build(&fs[w], &es[w], n)).collect();
        let cols = common(0, 1);
        let want = |w: usize, j: usize| -> Vector<PathHomCell, F> { cells[w].iter().filter_map(|(x, (b, _))| Some((*x, *b.get(&cols[j])?))).collect() };
        if c.what % 3 == 1 {
            histories("GrPPH coboundary", &ms, &bases, &cols, want, time, rs, c.steps, obs)
        } else {
            let ms: Vec<_> = ms.iter().zip(&bases).map(|(x, b)| Bare { m: &x.matrix, basis: b.clone() }).collect();
            histories("GrPPH coboundary without basis", &ms, &bases, &cols, want, time, rs, c.steps, obs)
        }
    }
}
fn twin_rips(c: &TCase, obs: &mut Obs) -> Result<(), String> {
    with_few!(c.field, twin_rips_f::<_>(c, obs))
}
fn twin_digs(c: &TCase, obs: &mut Obs) -> Result<(), String> {
    with_few!(c.field, twin_digs_f::<_>(c, obs))
}
/// The others differ from the first in an entry or two, in the order of the entries, in a vertex
/// renamed, or everywhere.
fn tcases(t: Tier) -> BoxedStrategy<TCase> {
    (dists(1, 7), digs(t), any_field(), any::<u8>(), 0usize..3, prop_oneof![Just(30usize), Just(80)], any::<u64>(), 1usize..3)
        .prop_map(|(dist, dig, field, what, max_dim, steps, seed, more)| {
            let rs = &mut Rs(seed ^ 0x9e37);
            let (mut dists, mut digs) = (vec![dist.clone()], vec![dig.clone()]);
            for _ in 0..more {
                let mut d = dist.clone();
                let mut g = dig.clone();
                let how = rs.below(4);
                let m = d.up.len();
                if m > 0 {
                    match how {
                        0 | 1 => {
                            for _ in 0..=how {
                                let i = rs.below(m);
                                d.up[i] = if d.up[i] < 0 { 1 } else { d.up[i] + 1 + rs.below(5) as i32 };
                            }
                        }
                        2 => d.up.rotate_left(1),
                        _ => rs.shuffle(&mut d.up),
                    }
                }
                let n = g.n;
                let off: Vec<usize> = (0..n * n).filter(|x| x / n != x % n).collect();
                if !off.is_empty() {
                    match how {
                        0 | 1 => {
                            for _ in 0..=how {
                                let i = off[rs.below(off.len())];
                                g.times[i] = if g.times[i] < 0 { 1 } else { g.times[i] + 1 + rs.below(5) as i32 };
                            }
                        }
                        2 => g.edges.clear(),
                        _ => {
                            let old: Vec<i32> = off.iter().map(|i| g.times[*i]).collect();
                            for (k, i) in off.iter().enumerate() {
                                g.times[*i] = old[(k + 1) % old.len()];
                            }
                        }
                    }
                }
                dists.push(d);
                digs.push(g);
            }
            TCase { dists, digs, field: pbt::adapt::few(field), what, max_dim, steps, seed }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SCase {
    m: Mat,
    what: u8,
    seed: u64,
}
fn stacks(c: &SCase, obs: &mut Obs) -> Result<(), String> {
    let v = &mut Hist { rs: Rs(c.seed), steps: 60, obs };
    with_few!(c.m.field, stacks_v::<_>(c, v))
}

fn registry(p: &str) -> Vec<Box<dyn AnyTest>> {
    match p {
        "C16" => vec![
            Box::new(Test::<HCase> {
                name: "rips",
                cases: (100_000, 1_500_000),
                rule: "Rips boundaries and coboundaries of random distance matrices, wrapped in eleven ways (restricted, by position, cached, consolidated, in products and sums, R and V of both algorithms), 30 or 80 requests with up to dozens of iterators open at a time; non-trivial when a column is asked for three times, three iterators are finished and two were open at a time",
                strat: |t| hcases(t, 1, 5),
                check: rips,
                shards: 8,
            }),
            Box::new(Test::<HCase> {
                name: "grpph",
                cases: (50_000, 800_000),
                rule: "GrPPH boundaries and coboundaries of random digraph filtrations, wrapped in eight ways; non-trivial as for rips",
                strat: |t| hcases(t, 1, 2),
                check: dig,
                shards: 8,
            }),
            Box::new(Test::<TCase> {
                name: "twin_rips",
                cases: (200_000, 3_000_000),
                rule: "two or three Rips boundaries or coboundaries on the same number of points, whose distances differ in a few places, answer interleaved requests; columns and filtration values by definition; non-trivial as for rips",
                strat: tcases,
                check: twin_rips,
                shards: 8,
            }),
            Box::new(Test::<TCase> {
                name: "twin_digraphs",
                cases: (60_000, 900_000),
                rule: "two or three GrPPH boundaries or coboundaries on the same number of vertices, as for twin_rips",
                strat: tcases,
                check: twin_digs,
                shards: 8,
            }),
            Box::new(Test::<SCase> {
                name: "stacks",
                cases: (200_000, 3_000_000),
                rule: "random matrices in thirteen stacks of adaptors and combinators; non-trivial as for rips",
                strat: |_| (mats_sized(1, 10, 5, true), any::<u8>(), any::<u64>()).prop_map(|(mut m, what, seed)| {
                    m.field = pbt::adapt::few(m.field);
                    SCase { m, what, seed }
                }).boxed(),
                check: stacks,
                shards: 8,
            }),
        ],
        _ => vec![],
    }
}
fn assumptions(_: &str) -> Vec<&'static str> {
    vec!["except for the twins, what a newly made matrix answers to its first request is decided by the other properties"]
}
fn main() {
    pbt::driver::run(registry, assumptions)
}
