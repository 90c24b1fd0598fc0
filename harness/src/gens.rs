//! Generators of distance matrices and of digraph filtrations, shared by several checks.
use crate::complexes::Rs;
use crate::fw::Tier;
use ordered_float::NotNan;
use phlite_grpph::coboundary::{DigraphEdgeSet, MapDigraphFiltration, VecDigraphFiltration};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn nn(x: f64) -> NotNan<f64> {
    NotNan::new(x).unwrap()
}

/// Symmetric distances with zero diagonal. Codes are multiplied by a unit; -1 stands for infinity.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Dist {
    pub n: usize,
    pub unit: u8,
    /// Entries above the diagonal, row by row.
    pub up: Vec<i32>,
}
impl Dist {
    pub fn code(&self, i: usize, j: usize) -> i32 {
        if i == j {
            return 0;
        }
        let (i, j) = (i.min(j), i.max(j));
        self.up[i * self.n - i * (i + 1) / 2 + (j - i - 1)]
    }
    pub fn value(&self, code: i32) -> f64 {
        if code < 0 {
            return f64::INFINITY;
        }
        match self.unit {
            0 => code as f64,
            1 => code as f64 * 0.25,
            2 => code as f64 * 0.1,
            3 => (code as f64).sqrt(),
            // tiny, subnormal, huge, neighbouring values
            4 => code as f64 * 2f64.powi(-40),
            5 => code as f64 * 5e-324,
            6 => code as f64 * 1e300,
            _ if code == 0 => 0.0,
            _ => 1.0 + code as f64 * f64::EPSILON,
        }
    }
    pub fn matrix(&self) -> Vec<Vec<NotNan<f64>>> {
        (0..self.n).map(|i| (0..self.n).map(|j| nn(self.value(self.code(i, j)))).collect()).collect()
    }
    pub fn d(&self, i: usize, j: usize) -> f64 {
        self.value(self.code(i, j))
    }
    /// Diameter of a vertex set.
    pub fn diam(&self, s: &[usize]) -> f64 {
        let mut m = 0.0f64;
        for (k, i) in s.iter().enumerate() {
            for j in &s[k + 1..] {
                m = m.max(self.d(*i, *j));
            }
        }
        m
    }
    pub fn from_fn(n: usize, unit: u8, f: impl Fn(usize, usize) -> i32) -> Self {
        let mut up = vec![];
        for i in 0..n {
            for j in i + 1..n {
                up.push(f(i, j));
            }
        }
        Dist { n, unit, up }
    }
    pub fn distinct(&self) -> usize {
        let mut v = self.up.clone();
        v.sort();
        v.dedup();
        v.len()
    }
}

/// Random distance matrices on lo..=hi points: few values (many ties), many values, points in the
/// plane, infinities, duplicate points, nearly bipartite (cycles and voids).
pub fn dists(lo: usize, hi: usize) -> BoxedStrategy<Dist> {
    (lo..=hi)
        .prop_flat_map(|n| {
            let m = n * n.saturating_sub(1) / 2;
            let unit = prop_oneof![6 => 0u8..4, 1 => 4u8..8];
            let few = (unit.clone(), prop::collection::vec(0i32..4, m)).prop_map(move |(u, up)| Dist { n, unit: u, up });
            let many = (unit.clone(), prop::collection::vec(1i32..60, m)).prop_map(move |(u, up)| Dist { n, unit: u, up });
            let infs = (unit.clone(), prop::collection::vec(prop_oneof![1 => Just(-1i32), 2 => 0i32..6], m))
                .prop_map(move |(u, up)| Dist { n, unit: u, up });
            let plane = prop::collection::vec((0i32..7, 0i32..7), n).prop_map(move |ps| {
                Dist::from_fn(n, 3, |i, j| (ps[i].0 - ps[j].0).pow(2) + (ps[i].1 - ps[j].1).pow(2))
            });
            // cyclic polytopes and cross-polytopes: short distances except across
            let cross = (2usize..5, 1i32..4, prop::collection::vec(0i32..2, m)).prop_map(move |(k, w, noise)| {
                let mut it = noise.into_iter();
                let mut d = Dist::from_fn(n, 0, |i, j| if i / 2 == j / 2 { 10 } else { w + ((i * k + j) % 2) as i32 });
                for x in d.up.iter_mut() {
                    *x += it.next().unwrap();
                }
                d
            });
            let circle = (1i32..4, prop::collection::vec(0i32..3, m)).prop_map(move |(s, noise)| {
                let mut d = Dist::from_fn(n, 1, |i, j| {
                    let a = (i as i32 - j as i32).abs();
                    a.min(n as i32 - a) * s * 2
                });
                for (x, e) in d.up.iter_mut().zip(noise) {
                    *x += e;
                }
                d
            });
            prop_oneof![2 => few, 2 => many, 1 => infs, 1 => plane, 2 => cross, 2 => circle]
        })
        .boxed()
}

pub const INF: i32 = -1;

/// A digraph filtration (times of ordered pairs) with a set of grounded edges.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Dig {
    pub n: usize,
    /// Row by row; -1 means never. The diagonal is always -1.
    pub times: Vec<i32>,
    pub edges: Vec<(u16, u16)>,
    /// What a code stands for.
    #[serde(default)]
    pub unit: u8,
}
/// Number of units that are exact multiples of a power of two.
pub const EXACT_UNITS: u8 = 4;
pub fn dig_value(unit: u8, code: i32) -> f64 {
    let c = code as f64;
    match unit {
        0 => c * 0.5,
        1 => c * 2f64.powi(-40),
        2 => c * 2f64.powi(300),
        3 => c * 5e-324,
        4 => c * 0.1,
        _ if code == 0 => 0.0,
        _ => 1.0 + c * f64::EPSILON,
    }
}
impl Dig {
    pub fn code(&self, i: usize, j: usize) -> i32 {
        if i == j {
            INF
        } else {
            self.times[i * self.n + j]
        }
    }
    pub fn val(&self, code: i32) -> f64 {
        dig_value(self.unit, code)
    }
    pub fn time(&self, i: usize, j: usize) -> Option<f64> {
        let c = self.code(i, j);
        (c >= 0).then(|| self.val(c))
    }
    pub fn as_vec(&self) -> VecDigraphFiltration {
        (0..self.n).map(|i| (0..self.n).map(|j| self.time(i, j).map(nn)).collect()).collect()
    }
    pub fn as_map(&self) -> MapDigraphFiltration {
        let mut m = MapDigraphFiltration::default();
        for i in 0..self.n {
            for j in 0..self.n {
                if let Some(t) = self.time(i, j) {
                    m.insert((i as u16, j as u16), nn(t));
                }
            }
        }
        m
    }
    pub fn edge_set(&self) -> DigraphEdgeSet {
        self.edges.iter().copied().collect()
    }
    pub fn has(&self, i: usize, j: usize) -> bool {
        self.edges.contains(&(i as u16, j as u16))
    }
    /// Birth of an edge in the grounded complex.
    pub fn edge_birth(&self, i: usize, j: usize) -> Option<f64> {
        if self.has(i, j) {
            Some(0.0)
        } else {
            self.time(i, j)
        }
    }
    /// The same digraph on the given vertices among more.
    pub fn embed(&self, far: &[u16]) -> Dig {
        let n = far.last().map_or(0, |x| *x as usize + 1);
        let mut times = vec![INF; n * n];
        for i in 0..self.n {
            for j in 0..self.n {
                times[far[i] as usize * n + far[j] as usize] = self.code(i, j);
            }
        }
        let edges = self.edges.iter().map(|e| (far[e.0 as usize], far[e.1 as usize])).collect();
        Dig { n, times, edges, unit: self.unit }
    }
    /// Replace the times by shortest-path lengths along them.
    pub fn close(mut self) -> Self {
        let n = self.n;
        for k in 0..n {
            for i in 0..n {
                for j in 0..n {
                    if i == j {
                        continue;
                    }
                    let (a, b) = (self.code(i, k), self.code(k, j));
                    if a >= 0 && b >= 0 {
                        let c = self.times[i * n + j];
                        if c < 0 || a + b < c {
                            self.times[i * n + j] = a + b;
                        }
                    }
                }
            }
        }
        self
    }
}

/// n ascending vertices below m.
pub fn spread(n: usize, m: usize, rs: &mut Rs) -> Vec<u16> {
    let mut all: Vec<u16> = (0..m.max(n) as u16).collect();
    rs.shuffle(&mut all);
    all.truncate(n);
    all.sort();
    all
}

/// Arbitrary filtrations, shortest-path filtrations, diamonds with many two-step connections.
pub fn digs(tier: Tier) -> BoxedStrategy<Dig> {
    let hi = if tier == Tier::Quick { 6usize } else { 7 };
    let sized = |lo: usize, hi: usize| {
        (lo..=hi).prop_flat_map(|n| {
            (
                Just(n),
                prop_oneof![
                    1 => prop::collection::vec(prop_oneof![1 => Just(INF), 2 => 0i32..4], n * n),
                    1 => prop::collection::vec(prop_oneof![3 => Just(INF), 2 => 0i32..6], n * n),
                    1 => prop::collection::vec(0i32..5, n * n),
                    1 => prop::collection::vec(0i32..30, n * n),
                ],
                0u8..4,
                any::<u64>(),
            )
        })
    };
    prop_oneof![200 => sized(1, 4), 300 => sized(4, hi), 1 => sized(hi + 1, 14)]
        .prop_map(|(n, mut times, mode, seed)| {
            for i in 0..n {
                times[i * n + i] = INF;
            }
            let mut rs = Rs(seed);
            let mut edges = vec![];
            for i in 0..n {
                for j in 0..n {
                    if i == j {
                        continue;
                    }
                    let present = times[i * n + j] >= 0;
                    let take = match mode {
                        // exactly the edges with a time (the graph itself)
                        0 => present,
                        // some of them
                        1 => present && rs.below(2) == 0,
                        // arbitrary, also edges that never appear
                        2 => rs.below(3) == 0,
                        _ => false,
                    };
                    if take {
                        edges.push((i as u16, j as u16));
                    }
                }
            }
            let closed = rs.below(2) == 0;
            let unit = if rs.below(4) == 0 { rs.below(6) as u8 } else { 0 };
            let d = Dig { n, times, edges, unit };
            let d = if closed { d.close() } else { d };
            // once in a while the vertices are spread among many
            if rs.below(400) == 0 {
                let far = spread(n, 60 + rs.below(220), &mut rs);
                d.embed(&far)
            } else {
                d
            }
        })
        .boxed()
}

/// One simplex among many points whose distances are drawn from a few values.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Single {
    pub n: usize,
    pub unit: u8,
    /// Number of different distances; 0 adds infinity.
    pub vals: u8,
    pub seed: u64,
    pub verts: Vec<u64>,
    pub field: crate::fields::Fld,
}
impl Single {
    pub fn dist(&self) -> Dist {
        let mut rs = Rs(self.seed | 1);
        let k = self.vals.max(2) as usize;
        let up = (0..self.n * (self.n - 1) / 2)
            .map(|_| {
                let c = rs.below(k) as i32;
                if self.vals == 0 && c == 0 { -1 } else { c }
            })
            .collect();
        Dist { n: self.n, unit: self.unit, up }
    }
    /// The simplex, cut so that the codes of its cofacets fit the word.
    pub fn simplex(&self) -> Vec<usize> {
        let n = self.n as u128;
        let mut v: Vec<usize> = self.verts.iter().map(|x| (*x % self.n as u64) as usize).collect();
        v.sort();
        v.dedup();
        let fits = |k: usize| (0..k).try_fold(1u128, |c, _| c.checked_mul(n + 1).filter(|c| *c <= u64::MAX as u128)).is_some();
        while v.len() > 1 && !fits(v.len() + 1) {
            v.remove(v.len() / 2);
        }
        v
    }
}
pub fn singles() -> BoxedStrategy<Single> {
    let n = prop_oneof![20 => 2usize..20, 20 => 10usize..70, 6 => 60usize..300, 1 => 250usize..700];
    n.prop_flat_map(|n| {
        let top = n as u64 - 1;
        let v = prop_oneof![6 => 0..=top, 1 => Just(0), 1 => Just(top)];
        (Just(n), 0u8..8, prop_oneof![2 => Just(0u8), 3 => 2u8..6, 2 => any::<u8>()], any::<u64>(), prop::collection::vec(v, 1..10), crate::fields::any_field())
    })
    .prop_map(|(n, unit, vals, seed, verts, field)| Single { n, unit, vals, seed, verts, field })
    .boxed()
}

/// Edges of a long cycle that alternates between sources and sinks (so that few directed paths of
/// length two exist), perhaps with some edges subdivided, a cone over it or a few chords.
/// Returns the number of vertices and the edges.
pub fn zigzag(k: usize, rs: &mut Rs) -> (usize, Vec<(usize, usize)>) {
    let mut n = 2 * k;
    let mut e = vec![];
    for i in 0..k {
        // source 2i, sinks 2i+1 and 2i-1
        for j in [2 * i + 1, (2 * i + 2 * k - 1) % (2 * k)] {
            if rs.below(12) == 0 {
                e.push((2 * i, n));
                e.push((n, j));
                n += 1;
            } else {
                e.push((2 * i, j));
            }
        }
    }
    if rs.below(2) == 0 {
        let apex = n;
        n += 1;
        let gap = rs.below(3) == 0;
        for i in 0..k {
            if !(gap && rs.below(k) == 0) {
                e.push((2 * i + 1, apex));
            }
        }
    }
    for _ in 0..rs.below(4) {
        let (i, j) = (rs.below(n), rs.below(n));
        if i != j && !e.contains(&(i, j)) {
            e.push((i, j));
        }
    }
    (n, e)
}

/// Two directed paths of about m steps from one vertex to another, perhaps a few chords.
pub fn theta(m: usize, rs: &mut Rs) -> (usize, Vec<(usize, usize)>) {
    let mut n = 2;
    let mut e = vec![];
    for len in [m, m.saturating_sub(rs.below(4)).max(2)] {
        let mut at = 0;
        for _ in 1..len {
            e.push((at, n));
            at = n;
            n += 1;
        }
        e.push((at, 1));
    }
    for _ in 0..rs.below(3) {
        let (i, j) = (rs.below(n), rs.below(n));
        if i != j && !e.contains(&(i, j)) {
            e.push((i, j));
        }
    }
    (n, e)
}

/// Filtrations larger than the usual ones but with few directed paths of length two: fans of up to
/// forty two-step connections between few ends, and long cycles.
pub fn wide_digs() -> BoxedStrategy<Dig> {
    (any::<u64>(), 8usize..40, 0u8..3)
        .prop_map(|(seed, k, shape)| {
            let mut rs = Rs(seed);
            let mut pairs: Vec<(usize, usize)> = vec![];
            let n;
            if shape < 2 {
                let (s, t) = (1 + rs.below(2), 1 + rs.below(2));
                n = s + t + k;
                for m in s + t..n {
                    for a in 0..s + t {
                        if rs.below(14) > 0 {
                            pairs.push(if a < s { (a, m) } else { (m, a) });
                        }
                    }
                }
                for a in 0..s {
                    for b in s..s + t {
                        if rs.below(3) == 0 {
                            pairs.push((a, b));
                        }
                    }
                }
                for _ in 0..rs.below(4) {
                    let (i, j) = (rs.below(n), rs.below(n));
                    if i != j && !pairs.contains(&(i, j)) {
                        pairs.push((i, j));
                    }
                }
            } else {
                let z = zigzag(k, &mut rs);
                n = z.0;
                pairs = z.1;
            }
            // the vertices keep no telling order
            let mut name: Vec<usize> = (0..n).collect();
            if rs.below(3) > 0 {
                rs.shuffle(&mut name);
            }
            let vals = 1 + rs.below(4);
            let grounded = rs.below(3);
            let mut times = vec![INF; n * n];
            let mut edges = vec![];
            for (i, j) in pairs {
                let (i, j) = (name[i], name[j]);
                times[i * n + j] = rs.below(vals) as i32;
                if grounded == 1 || grounded == 2 && rs.below(2) == 0 {
                    edges.push((i as u16, j as u16));
                }
            }
            let d = Dig { n, times, edges, unit: 0 };
            if rs.below(3) == 0 { d.close() } else { d }
        })
        .boxed()
}
