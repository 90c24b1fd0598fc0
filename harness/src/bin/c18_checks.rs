//! C18: column iterators keep the contract of iterators, and ask no more of a user's.
use pbt::complexes::*;
use pbt::fields::*;
use pbt::fw::*;
use pbt::mats::*;
use pbt::zoo::*;
use pbt::ensure;
use phlite::columns::BHCol;
use phlite::fields::NonZeroCoefficient;
use phlite::matrices::{HasColBasis, HasRowFiltration, MatrixOracle};
use phlite::reduction::{standard_algo, standard_algo_with_diagram, ClearedReductionMatrix};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Debug;

/// Two fields stand for all.
fn two(f: Fld) -> Fld {
    match f {
        Fld::Q | Fld::User => Fld::Q,
        _ => Fld::Z3,
    }
}
macro_rules! with_two {
    ($tag:expr, $f:ident :: < _ > ( $($arg:expr),* $(,)? )) => {
        match $tag {
            Fld::Z3 => $f::<phlite::fields::Z3>($($arg),*),
            Fld::Q => $f::<phlite::fields::Q>($($arg),*),
            f => panic!("HARNESS-ERROR: field {f:?} is not among the two"),
        }
    };
}

/// What random programs did to iterators.
struct Tally {
    skipped: usize,
    finished: usize,
    longest: usize,
}
/// What consuming an iterator tells.
enum End<K> {
    Count(usize),
    Last(Option<K>),
    List(Vec<K>),
}
const ENDS: [&str; 10] = ["count", "last", "fold", "for_each", "skip", "step_by", "collect", "enumerate", "peeking", "a loop"];
/// The methods of an iterator, behind an object: unlike those of `dyn Iterator`, they are the iterator's own.
trait Methods<K> {
    fn next(&mut self) -> Option<K>;
    fn nth(&mut self, k: usize) -> Option<K>;
    fn size_hint(&self) -> (usize, Option<usize>);
    fn take(&mut self, k: usize) -> Vec<K>;
    fn find(&mut self, f: &mut dyn FnMut(K) -> bool) -> bool;
    fn position(&mut self, f: &mut dyn FnMut(K) -> bool) -> Option<usize>;
    /// Until `f` says no.
    fn each(&mut self, f: &mut dyn FnMut(K) -> bool) -> bool;
    fn end(self: Box<Self>, how: usize, k: usize) -> End<K>;
}
struct Own<I, G> {
    it: I,
    key: G,
}
impl<I: Iterator, K, G: Fn(I::Item) -> K> Methods<K> for Own<I, G> {
    fn next(&mut self) -> Option<K> {
        self.it.next().map(&self.key)
    }
    fn nth(&mut self, k: usize) -> Option<K> {
        self.it.nth(k).map(&self.key)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn take(&mut self, k: usize) -> Vec<K> {
        self.it.by_ref().take(k).map(&self.key).collect()
    }
    fn find(&mut self, f: &mut dyn FnMut(K) -> bool) -> bool {
        let key = &self.key;
        self.it.find_map(|x| f(key(x)).then_some(())).is_some()
    }
    fn position(&mut self, f: &mut dyn FnMut(K) -> bool) -> Option<usize> {
        let key = &self.key;
        self.it.position(|x| f(key(x)))
    }
    fn each(&mut self, f: &mut dyn FnMut(K) -> bool) -> bool {
        let key = &self.key;
        self.it.try_for_each(|x| if f(key(x)) { Ok(()) } else { Err(()) }).is_ok()
    }
    fn end(self: Box<Self>, how: usize, k: usize) -> End<K> {
        let Own { it, key } = *self;
        let mut v = vec![];
        match how {
            0 => return End::Count(it.count()),
            1 => return End::Last(it.last().map(key)),
            2 => v = it.fold(v, |mut v, x| {
                v.push(key(x));
                v
            }),
            3 => it.for_each(|x| v.push(key(x))),
            4 => v = it.skip(k).map(key).collect(),
            5 => v = it.step_by(k.max(1)).map(key).collect(),
            6 => {
                let w: Vec<I::Item> = it.collect();
                v = w.into_iter().map(key).collect();
            }
            7 => v = it.fuse().enumerate().enumerate().filter(|x| x.0 == x.1.0).map(|x| key(x.1.1)).collect(),
            8 => {
                let mut p = it.peekable();
                while p.peek().is_some() {
                    v.push(key(p.next().unwrap()));
                }
            }
            _ => {
                for x in it {
                    v.push(key(x));
                }
            }
        }
        End::List(v)
    }
}
fn own<'a, I: Iterator + 'a, K: 'a, G: Fn(I::Item) -> K + 'a>(it: I, key: G) -> Box<dyn Methods<K> + 'a> {
    Box::new(Own { it, key })
}

/// A random program over one iterator, each of whose answers must be the one a list of the same terms
/// gives. `ends`: the program ends by consuming the iterator; otherwise it may be left unfinished, and
/// the number of terms taken is returned.
fn program<K: PartialEq + Debug>(what: &str, mut it: Box<dyn Methods<K> + '_>, base: &[K], ends: bool, rs: &mut Rs, t: &mut Tally) -> Result<usize, String> {
    let n = base.len();
    let mut pos = 0;
    let mut done: Vec<String> = vec![];
    for step in 0..=rs.below(6) {
        let (lo, hi) = it.size_hint();
        let left = n - pos;
        ensure!(lo <= left && hi.is_none_or(|h| h >= left), "{what}: after {done:?} {left} terms are left, the size hint is ({lo}, {hi:?})");
        if step == 5 {
            break;
        }
        let k = rs.below(4);
        match rs.below(9) {
            0..=2 => {
                done.push("next".into());
                let got = it.next();
                ensure!(got.as_ref() == base.get(pos), "{what}: {done:?} gives {got:?}, expected {:?}", base.get(pos));
                pos += 1;
            }
            3 | 4 => {
                done.push(format!("nth({k})"));
                let got = it.nth(k);
                ensure!(got.as_ref() == base.get(pos + k), "{what}: {done:?} gives {got:?}, expected {:?}", base.get(pos + k));
                t.skipped += (pos + k < n && k > 0) as usize;
                pos += k + 1;
            }
            5 => {
                done.push(format!("take({k})"));
                let got: Vec<K> = it.take(k);
                ensure!(got == base[pos..(pos + k).min(n)], "{what}: {done:?} gives {got:?}, expected {:?}", &base[pos..(pos + k).min(n)]);
                pos += k;
            }
            6 | 7 if pos >= n => break,
            x @ (6 | 7) => {
                let to = pos + rs.below(n - pos);
                let first = (pos..n).find(|i| base[*i] == base[to]).unwrap();
                if x == 6 {
                    done.push(format!("find({:?})", base[to]));
                    ensure!(it.find(&mut |x| x == base[to]), "{what}: {done:?} finds nothing");
                } else {
                    done.push(format!("position({:?})", base[to]));
                    let got = it.position(&mut |x| x == base[to]);
                    ensure!(got == Some(first - pos), "{what}: {done:?} gives {got:?}, expected {:?}", first - pos);
                }
                pos = first + 1;
            }
            _ => {
                done.push(format!("try_for_each, {k} terms and one"));
                let mut seen = vec![];
                let all = it.each(&mut |x| {
                    seen.push(x);
                    seen.len() <= k
                });
                let want = &base[pos..(pos + k + 1).min(n)];
                ensure!(seen == want, "{what}: {done:?} sees {seen:?}, expected {want:?}");
                ensure!(all == (pos + k >= n), "{what}: {done:?} is broken off: {}, with {} terms left", !all, n - pos);
                pos += k + 1;
            }
        }
        // an iterator that has reported its end may start again
        if pos > n {
            return Ok(n);
        }
    }
    if !ends {
        return Ok(pos);
    }
    let rest = &base[pos..];
    t.finished += 1;
    t.longest = t.longest.max(n);
    let (how, k) = (rs.below(10), rs.below(4));
    let name = ENDS[how];
    let want: Vec<&K> = match how {
        4 => rest.iter().skip(k).collect(),
        5 => rest.iter().step_by(k.max(1)).collect(),
        _ => rest.iter().collect(),
    };
    t.skipped += (how == 4 && k > 0 && !want.is_empty() || how == 5 && k > 1 && want.len() > 1) as usize;
    match it.end(how, k) {
        End::Count(c) => ensure!(c == want.len(), "{what}: {done:?} and count give {c}, expected {}", want.len()),
        End::Last(l) => ensure!(l.as_ref() == want.last().copied(), "{what}: {done:?} and last give {l:?}, expected {:?}", want.last()),
        End::List(v) => ensure!(v.iter().eq(want.iter().copied()), "{what}: {done:?} and {name} ({k}) give {v:?}, expected {want:?}"),
    }
    Ok(n)
}
fn plain<K>(what: &str, mut it: Box<dyn Methods<K> + '_>) -> Result<Vec<K>, String> {
    let mut v = vec![];
    while let Some(x) = it.next() {
        v.push(x);
        ensure!(v.len() < 100_000, "{what}: the iterator does not end");
    }
    Ok(v)
}
/// Random programs over an iterator that `mk` makes anew.
fn programs<'a, K: PartialEq + Debug>(what: &str, mk: &dyn Fn() -> Box<dyn Methods<K> + 'a>, count: usize, rs: &mut Rs, t: &mut Tally) -> Result<(), String> {
    let base = plain(what, mk())?;
    // an order that changes from one request to the next tells nothing
    if plain(what, mk())? == base {
        for _ in 0..count {
            let ends = rs.below(4) > 0;
            program(what, mk(), &base, ends, rs, t)?;
        }
    }
    Ok(())
}

struct Laws<'a> {
    rs: Rs,
    programs: usize,
    obs: &'a mut Obs,
}
impl Visit for Laws<'_> {
    fn visit<M>(&mut self, name: &str, mk: impl Fn() -> M, cols: Option<Vec<M::ColT>>) -> Result<(), String>
    where
        M: HasRowFiltration<FiltrationT: Debug> + HasColBasis,
        M: MatrixOracle<ColT: Debug, RowT: Debug, CoefficientField: TF>,
    {
        let rs = &mut self.rs;
        let m = mk();
        let cols = cols.unwrap_or_else(|| list_of(&*m.basis()));
        if cols.is_empty() {
            return Ok(());
        }
        let mut t = Tally { skipped: 0, finished: 0, longest: 0 };
        for _ in 0..4 {
            let c = cols[rs.below(cols.len())].clone();
            let key = |e: phlite::columns::ColumnEntry<M::FiltrationT, M::RowT, M::CoefficientField>| (e.coeff, e.row_index, e.filtration_value);
            programs(&format!("{name}, column {c:?}"), &|| own(m.column(c.clone()), |x| x), self.programs, rs, &mut t)?;
            programs(&format!("{name}, column {c:?} with filtration values"), &|| own(m.column_with_filtration(c.clone()), key), self.programs, rs, &mut t)?;
            let what = format!("{name}, heap of column {c:?} drained");
            let sorted: Vec<_> = heap_list(&mut m.build_bhcol(c.clone()));
            for _ in 0..self.programs {
                let ends = rs.below(4) > 0;
                let mut h: BHCol<_, _, _> = m.empty_bhcol();
                h.add_entries(m.column_with_filtration(c.clone()));
                let taken = program(&what, own(h.drain_sorted(), key), &sorted, ends, rs, &mut t)?;
                let got = heap_list(&mut h);
                ensure!(got == sorted[taken..], "{what}: after {taken} terms it holds {got:?}, expected {:?}", &sorted[taken..]);
            }
        }
        self.obs.class_if(t.longest >= 5, "a column of five terms or more");
        self.obs.nontrivial |= t.skipped >= 3 && t.finished >= 3 && t.longest >= 2;
        Ok(())
    }
}
type Triple<F, R, FT> = (F, R, FT);
fn heap_list<F: TF, R: phlite::matrices::BasisElement, FT: phlite::matrices::FiltrationValue>(h: &mut BHCol<FT, R, F>) -> Vec<Triple<F, R, FT>> {
    let mut v = vec![];
    while let Some(e) = h.pop_pivot() {
        v.push((e.coeff, e.row_index, e.filtration_value));
    }
    v
}

fn laws_rips<F: TF>(c: &HCase, v: &mut Laws) -> Result<(), String> {
    rips_f::<F, _>(c, v)
}
fn laws_dig<F: TF>(c: &HCase, v: &mut Laws) -> Result<(), String> {
    dig_f::<F, _>(c, v)
}
fn laws_stacks<F: TF>(c: &SCase, v: &mut Laws) -> Result<(), String> {
    stacks_f::<F, _, _>(c.what, || c.m.raw::<F>(), v)
}
fn rips(c: &HCase, obs: &mut Obs) -> Result<(), String> {
    let v = &mut Laws { rs: Rs(c.seed), programs: 4, obs };
    with_two!(c.field, laws_rips::<_>(c, v))
}
fn dig(c: &HCase, obs: &mut Obs) -> Result<(), String> {
    let v = &mut Laws { rs: Rs(c.seed), programs: 4, obs };
    with_two!(c.field, laws_dig::<_>(c, v))
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SCase {
    m: Mat,
    what: u8,
    seed: u64,
}
fn stacks(c: &SCase, obs: &mut Obs) -> Result<(), String> {
    let v = &mut Laws { rs: Rs(c.seed), programs: 4, obs };
    with_two!(c.m.field, laws_stacks::<_>(c, v))
}

// ---------------------------------------------------------------- a user's iterators

thread_local! {
    /// Number of steps after which a user's matrix panics, if any.
    static FUSE: Cell<Option<u64>> = const { Cell::new(None) };
}
const BURNT: &str = "the user's matrix fails";
fn burn() {
    if let Some(n) = FUSE.get() {
        if n == 0 {
            FUSE.set(None);
            panic!("{BURNT}");
        }
        FUSE.set(Some(n - 1));
    }
}

/// A user's matrix whose iterators do all that the contract of iterators allows: any size hints that
/// bracket the number of terms, and terms again after the end was reported.
struct Unruly<F> {
    m: RawMat<F>,
    rs: RefCell<Rs>,
    tame: bool,
}
struct Wild<F> {
    terms: Vec<(F, Lab)>,
    pos: usize,
    lower: u64,
    upper: u64,
    tame: bool,
}
impl<F: NonZeroCoefficient> Iterator for Wild<F> {
    type Item = (F, Lab);
    fn next(&mut self) -> Option<(F, Lab)> {
        burn();
        let n = self.terms.len();
        let at = self.pos;
        self.pos += 1;
        if at < n {
            Some(self.terms[at])
        } else if at == n || self.tame {
            None
        } else {
            Some(self.terms.get(at % (n + 1)).copied().unwrap_or((F::one(), Lab(u32::MAX))))
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.terms.len().saturating_sub(self.pos);
        let lo = match self.lower % 4 {
            0 => left,
            1 => left.min(1),
            2 => left / 2,
            _ => 0,
        };
        let hi = match self.upper % 5 {
            0 => Some(left),
            1 => Some(left + 1 + (self.upper / 5 % 3) as usize),
            2 => Some(usize::MAX),
            _ => None,
        };
        (lo, hi)
    }
}
impl<F: NonZeroCoefficient> MatrixOracle for Unruly<F> {
    type CoefficientField = F;
    type ColT = Lab;
    type RowT = Lab;
    fn column(&self, c: Lab) -> impl Iterator<Item = (F, Lab)> {
        burn();
        let rs = &mut *self.rs.borrow_mut();
        Wild { terms: self.m.column(c).collect(), pos: 0, lower: if self.tame { 3 } else { rs.next() >> 8 }, upper: if self.tame { 3 } else { rs.next() >> 8 }, tame: self.tame }
    }
}
impl<F: NonZeroCoefficient> HasRowFiltration for Unruly<F> {
    type FiltrationT = Fv;
    fn filtration_value(&self, r: Lab) -> Fv {
        burn();
        self.m.filtration_value(r)
    }
}
impl<F: NonZeroCoefficient> HasColBasis for Unruly<F> {
    type BasisT = SplitVec<Lab>;
    type BasisRef<'a> = &'a SplitVec<Lab> where F: 'a;
    fn basis(&self) -> &SplitVec<Lab> {
        burn();
        self.m.basis()
    }
}

/// Writes down all answers.
struct Answers {
    list: Vec<String>,
    terms: usize,
}
impl Visit for Answers {
    fn visit<M>(&mut self, _: &str, mk: impl Fn() -> M, cols: Option<Vec<M::ColT>>) -> Result<(), String>
    where
        M: HasRowFiltration<FiltrationT: Debug> + HasColBasis,
        M: MatrixOracle<ColT: Debug, RowT: Debug, CoefficientField: TF>,
    {
        let m = mk();
        for c in cols.unwrap_or_else(|| list_of(&*m.basis())) {
            let v = vec_of(&m, c.clone());
            self.terms += v.len();
            let mut es: BTreeMap<_, Vec<_>> = BTreeMap::new();
            for e in m.column_with_filtration(c.clone()) {
                es.entry(e.row_index).or_default().push((e.coeff, e.filtration_value));
            }
            let e: Vec<String> = es
                .into_iter()
                .filter_map(|(r, v)| {
                    let t = v[0].1.clone();
                    let same = v.iter().all(|x| x.1 == t);
                    let s = sum_terms(v.into_iter().map(|x| (x.0, ())));
                    Some(format!("{r:?}: {:?} at {t:?}{}", s.get(&())?, if same { "" } else { " and others" }))
                })
                .collect();
            let heap = heap_list(&mut m.build_bhcol(c.clone()));
            self.list.push(format!("column {c:?}: terms {v:?}, with filtration values {e:?}, heap {heap:?}, drained {:?}", m.build_bhcol(c.clone()).drain_sorted().count()));
        }
        Ok(())
    }
}
fn compare(what: &str, got: &[String], want: &[String]) -> Result<(), String> {
    for (g, w) in got.iter().zip(want) {
        ensure!(g == w, "{what}: {g}; expected {w}");
    }
    ensure!(got.len() == want.len(), "{what}: {} answers, expected {}", got.len(), want.len());
    Ok(())
}
fn unruly_f<F: TF>(c: &SCase, obs: &mut Obs) -> Result<(), String> {
    let mut want = Answers { list: vec![], terms: 0 };
    stacks_f::<F, _, _>(c.what, || c.m.raw::<F>(), &mut want)?;
    let mut got = Answers { list: vec![], terms: 0 };
    stacks_f::<F, _, _>(c.what, || Unruly { m: c.m.raw::<F>(), rs: RefCell::new(Rs(c.seed)), tame: false }, &mut got)?;
    compare(&format!("stack {} over a matrix with free iterators", c.what % STACKS), &got.list, &want.list)?;
    obs.class_if(want.terms >= 20, "twenty terms or more");
    obs.nontrivial = want.terms >= 3 && want.list.len() >= 3;
    Ok(())
}
fn unruly(c: &SCase, obs: &mut Obs) -> Result<(), String> {
    with_two!(c.m.field, unruly_f::<_>(c, obs))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RCase {
    cpx: Cpx,
    co: bool,
    seed: u64,
}
/// Diagrams and reduction matrices of both algorithms.
fn reductions<F: TF, M: Base<F>>(m: &M, dims: &[usize], co: bool) -> (Vec<String>, usize) {
    let mut out = vec![];
    let mut pairs = 0;
    let list = list_of(&*m.basis());
    let show = |p: &mut dyn Iterator<Item = (Lab, Lab)>, e: &mut dyn Iterator<Item = Lab>| {
        let (mut p, mut e): (Vec<_>, Vec<_>) = (p.collect(), e.collect());
        p.sort();
        e.sort();
        format!("pairs {p:?}, essential {e:?}")
    };
    {
        let (v, d) = ClearedReductionMatrix::build_with_diagram(m, dims.iter().copied());
        pairs += d.pairings.len();
        out.push(format!("clearing: {}", show(&mut d.pairings.iter().copied(), &mut d.essential.iter().copied())));
        for e in &list {
            out.push(format!("clearing: column {e:?} of V is {:?}, a cycle: {}", vec_of(&v, *e), v.col_is_cycle(*e)));
        }
    }
    let (v, d) = standard_algo_with_diagram(m, co);
    out.push(format!("standard: {}", show(&mut d.pairings.iter().copied(), &mut d.essential.iter().copied())));
    for e in &list {
        out.push(format!("standard: column {e:?} of V is {:?}", vec_of(&v, *e)));
    }
    (out, pairs)
}
fn reduce_f<F: TF>(c: &RCase, obs: &mut Obs) -> Result<(), String> {
    let raw = || if c.co { c.cpx.raw_co::<F>() } else { c.cpx.raw::<F>() };
    let dims: Vec<usize> = if c.co { (0..=c.cpx.max_dim()).collect() } else { (0..=c.cpx.max_dim()).rev().collect() };
    let (want, pairs) = reductions::<F, _>(&raw(), &dims, c.co);
    let wild = Unruly { m: raw(), rs: RefCell::new(Rs(c.seed)), tame: false };
    let (got, _) = reductions::<F, _>(&wild, &dims, c.co);
    compare("reductions of a matrix with free iterators", &got, &want)?;
    obs.nontrivial = pairs >= 2 && want.len() >= 6;
    obs.class_if(pairs >= 10, "ten pairs or more");
    Ok(())
}
fn reduce(c: &RCase, obs: &mut Obs) -> Result<(), String> {
    // made for another field
    if c.cpx.validate().is_err() {
        obs.discard = true;
        return Ok(());
    }
    with_two!(c.cpx.field, reduce_f::<_>(c, obs))
}

// ---------------------------------------------------------------- a user's matrix that fails

/// Requests, some of which fail in the user's matrix; those that answer must answer as ever.
struct Faults<'a> {
    rs: Rs,
    truth: &'a [String],
    failed: usize,
    answered: usize,
}
fn answer<M>(m: &M, c: M::ColT) -> (String, usize)
where
    M: HasRowFiltration<FiltrationT: Debug>,
    M: MatrixOracle<ColT: Debug, RowT: Debug, CoefficientField: TF>,
{
    let v = vec_of(m, c.clone());
    let heap = heap_list(&mut m.build_bhcol(c.clone()));
    (format!("column {c:?}: terms {v:?}, heap {heap:?}"), v.len())
}
struct Plain(Vec<String>, usize);
impl Visit for Plain {
    fn visit<M>(&mut self, _: &str, mk: impl Fn() -> M, cols: Option<Vec<M::ColT>>) -> Result<(), String>
    where
        M: HasRowFiltration<FiltrationT: Debug> + HasColBasis,
        M: MatrixOracle<ColT: Debug, RowT: Debug, CoefficientField: TF>,
    {
        let m = mk();
        for c in cols.unwrap_or_else(|| list_of(&*m.basis())) {
            let (a, n) = answer(&m, c);
            self.0.push(a);
            self.1 += n;
        }
        Ok(())
    }
}
impl Visit for Faults<'_> {
    fn visit<M>(&mut self, name: &str, mk: impl Fn() -> M, cols: Option<Vec<M::ColT>>) -> Result<(), String>
    where
        M: HasRowFiltration<FiltrationT: Debug> + HasColBasis,
        M: MatrixOracle<ColT: Debug, RowT: Debug, CoefficientField: TF>,
    {
        let m = mk();
        let cols = cols.unwrap_or_else(|| list_of(&*m.basis()));
        if cols.is_empty() {
            return Ok(());
        }
        let mut failures = vec![];
        for _ in 0..12 {
            let k = self.rs.below(cols.len());
            let armed = self.rs.below(3) < 2;
            if armed {
                FUSE.set(Some(self.rs.below(12) as u64));
            }
            let r = guarded(|| answer(&m, cols[k].clone()).0);
            FUSE.set(None);
            match r {
                Err(e) if armed && e.contains(BURNT) => {
                    failures.push(k);
                    self.failed += 1;
                }
                Err(e) => return Err(format!("{name}, after requests that failed in the user's matrix for columns {:?}: {e}", failures.iter().map(|k| &cols[*k]).collect::<Vec<_>>())),
                Ok(a) => {
                    self.answered += !failures.is_empty() as usize;
                    ensure!(a == self.truth[k], "{name}, after requests that failed in the user's matrix for columns {:?}: {a}; expected {}", failures.iter().map(|k| &cols[*k]).collect::<Vec<_>>(), self.truth[k]);
                }
            }
        }
        Ok(())
    }
}
fn faults_f<F: TF>(c: &SCase, obs: &mut Obs) -> Result<(), String> {
    FUSE.set(None);
    let mk = || Unruly { m: c.m.raw::<F>(), rs: RefCell::new(Rs(1)), tame: true };
    let mut truth = Plain(vec![], 0);
    stacks_f::<F, _, _>(c.what, mk, &mut truth)?;
    let mut v = Faults { rs: Rs(c.seed), truth: &truth.0, failed: 0, answered: 0 };
    stacks_f::<F, _, _>(c.what, mk, &mut v)?;
    obs.nontrivial = v.failed >= 2 && v.answered >= 2 && truth.1 >= 3;
    obs.class_if(v.failed >= 5, "five failures or more");
    Ok(())
}
fn faults(c: &SCase, obs: &mut Obs) -> Result<(), String> {
    with_two!(c.m.field, faults_f::<_>(c, obs))
}
/// A reduction over a cached matrix fails part of the way, and is tried again.
fn retry_f<F: TF>(c: &RCase, obs: &mut Obs) -> Result<(), String> {
    FUSE.set(None);
    let raw = || if c.co { c.cpx.raw_co::<F>() } else { c.cpx.raw::<F>() };
    let dims: Vec<usize> = if c.co { (0..=c.cpx.max_dim()).collect() } else { (0..=c.cpx.max_dim()).rev().collect() };
    let (want, pairs) = reductions::<F, _>(&raw(), &dims, c.co);
    let rs = &mut Rs(c.seed);
    let wild = Unruly { m: raw(), rs: RefCell::new(Rs(1)), tame: true };
    let cached = wild.cache_cols();
    let mut failed = 0;
    for _ in 0..3 {
        FUSE.set(Some(rs.below(60) as u64));
        let clearing = rs.below(2) == 0;
        let r = guarded(|| {
            if clearing {
                drop(ClearedReductionMatrix::build_with_diagram(&cached, dims.iter().copied()));
            } else {
                drop(standard_algo(&cached));
            }
        });
        FUSE.set(None);
        match r {
            Err(e) if e.contains(BURNT) => failed += 1,
            Err(e) => return Err(e),
            Ok(()) => {}
        }
    }
    let (got, _) = reductions::<F, _>(&cached, &dims, c.co);
    compare("reductions tried again after failures in the user's matrix", &got, &want)?;
    obs.nontrivial = failed > 0 && pairs >= 2;
    obs.class_if(failed == 3, "three failures");
    Ok(())
}
fn retry(c: &RCase, obs: &mut Obs) -> Result<(), String> {
    // made for another field
    if c.cpx.validate().is_err() {
        obs.discard = true;
        return Ok(());
    }
    with_two!(c.cpx.field, retry_f::<_>(c, obs))
}

fn twos(t: Tier, lo: usize, hi: usize) -> BoxedStrategy<HCase> {
    hcases(t, lo, hi)
        .prop_map(|mut c| {
            c.field = two(c.field);
            c
        })
        .boxed()
}
fn scases() -> BoxedStrategy<SCase> {
    (mats_sized(1, 9, 6, true), any::<u8>(), any::<u64>())
        .prop_map(|(mut m, what, seed)| {
            m.field = two(m.field);
            SCase { m, what, seed }
        })
        .boxed()
}
fn reducible(t: Tier) -> BoxedStrategy<RCase> {
    (complexes(t), any::<bool>(), any::<u64>()).prop_map(|(mut cpx, co, seed)| {
            cpx.field = two(cpx.field);
            RCase { cpx, co, seed }
        })
        .boxed()
}

fn registry(p: &str) -> Vec<Box<dyn AnyTest>> {
    match p {
        "C18" => vec![
            Box::new(Test::<HCase> {
                name: "rips",
                cases: (150_000, 2_500_000),
                rule: "the columns of Rips boundaries and coboundaries wrapped in thirteen ways, bare, with filtration values and as drained heaps, each read by random programs (next, nth, take, find, position, stopping loops, then count, last, fold, skip, step_by, collect, peeking or nothing); non-trivial when terms are skipped three times, three iterators are finished and a column has two terms",
                strat: |t| twos(t, 1, 7),
                check: rips,
                shards: 8,
            }),
            Box::new(Test::<HCase> {
                name: "grpph",
                cases: (60_000, 1_000_000),
                rule: "the same for GrPPH boundaries and coboundaries of random digraph filtrations, wrapped in nine ways",
                strat: |t| twos(t, 1, 2),
                check: dig,
                shards: 8,
            }),
            Box::new(Test::<SCase> {
                name: "stacks",
                cases: (250_000, 5_000_000),
                rule: "the same for random matrices in thirteen stacks of adaptors and combinators",
                strat: |_| scases(),
                check: stacks,
                shards: 8,
            }),
            Box::new(Test::<SCase> {
                name: "free_iterators",
                cases: (250_000, 5_000_000),
                rule: "thirteen stacks over a user's matrix whose iterators give any size hints that bracket the number of terms and go on after their end, compared with the same stack over plain iterators; non-trivial when the stack has three columns and three terms",
                strat: |_| scases(),
                check: unruly,
                shards: 8,
            }),
            Box::new(Test::<RCase> {
                name: "free_reductions",
                cases: (50_000, 1_000_000),
                rule: "both algorithms over a user's boundary or coboundary with such iterators, compared with plain iterators: diagrams, V and the cycle query; non-trivial with two pairs or more",
                strat: reducible,
                check: reduce,
                shards: 8,
            }),
            Box::new(Test::<SCase> {
                name: "failures",
                cases: (150_000, 2_500_000),
                rule: "thirteen stacks over a user's matrix that panics at a random step of some requests; requests that answer must answer as ever; non-trivial with two failures and two answers after one",
                strat: |_| scases(),
                check: faults,
                shards: 8,
            }),
            Box::new(Test::<RCase> {
                name: "failed_reductions",
                cases: (50_000, 1_000_000),
                rule: "reductions over a cached matrix that the user's matrix breaks off at a random step, then both algorithms over the same cached matrix; non-trivial with a failure and two pairs",
                strat: reducible,
                check: retry,
                shards: 8,
            }),
        ],
        _ => vec![],
    }
}
fn assumptions(_: &str) -> Vec<&'static str> {
    vec!["the terms that repeated calls of next yield are decided by the other properties", "iterators whose order changes between requests are only read plainly"]
}
fn main() {
    pbt::driver::run(registry, assumptions)
}
