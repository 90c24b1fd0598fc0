//! Reference linear algebra modulo a prime (independent of the code under test).
pub fn mul(a: u64, b: u64, p: u64) -> u64 {
    if p < 1 << 32 {
        return (a % p) * (b % p) % p;
    }
    ((a as u128 * b as u128) % p as u128) as u64
}
pub fn pow(mut a: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    a %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = mul(r, a, p);
        }
        a = mul(a, a, p);
        e >>= 1;
    }
    r
}
pub fn inv(a: u64, p: u64) -> u64 {
    assert!(a % p != 0);
    pow(a, p - 2, p)
}
pub fn sub(a: u64, b: u64, p: u64) -> u64 {
    (a + p - b) % p
}
pub fn of_i(i: i64, p: u64) -> u64 {
    (i as i128).rem_euclid(p as i128) as u64
}

/// Row echelon basis that vectors can be inserted into.
#[derive(Clone)]
pub struct Span {
    p: u64,
    /// (leading index, vector normalised to have 1 there)
    rows: Vec<(usize, Vec<u64>)>,
}
impl Span {
    pub fn new(p: u64) -> Self {
        Span { p, rows: vec![] }
    }
    pub fn reduce(&self, mut v: Vec<u64>) -> Vec<u64> {
        for (lead, r) in self.rows.iter() {
            let c = v[*lead];
            if c != 0 {
                for k in 0..v.len() {
                    if r[k] != 0 {
                        v[k] = sub(v[k], mul(c, r[k], self.p), self.p);
                    }
                }
            }
        }
        v
    }
    /// Returns true when the vector was independent of the span.
    pub fn insert(&mut self, v: Vec<u64>) -> bool {
        let v = self.reduce(v);
        let Some(lead) = v.iter().position(|x| *x != 0) else {
            return false;
        };
        let c = inv(v[lead], self.p);
        let v: Vec<u64> = v.into_iter().map(|x| mul(x, c, self.p)).collect();
        self.rows.push((lead, v));
        true
    }
    pub fn contains(&self, v: Vec<u64>) -> bool {
        self.reduce(v).iter().all(|x| *x == 0)
    }
    pub fn rank(&self) -> usize {
        self.rows.len()
    }
    pub fn leads(&self) -> impl Iterator<Item = usize> + '_ {
        self.rows.iter().map(|r| r.0)
    }
    pub fn vectors(&self) -> impl Iterator<Item = &Vec<u64>> {
        self.rows.iter().map(|r| &r.1)
    }
}

pub fn rank(vs: &[Vec<u64>], p: u64) -> usize {
    let mut s = Span::new(p);
    for v in vs {
        s.insert(v.clone());
    }
    s.rank()
}

/// Kernel of the linear map sending unit vector i to images[i]; returned as coefficient vectors.
pub fn kernel(images: &[Vec<u64>], p: u64) -> Vec<Vec<u64>> {
    let n = images.len();
    let mut pivots: Vec<(usize, Vec<u64>, Vec<u64>)> = vec![];
    let mut ker = vec![];
    for (i, im) in images.iter().enumerate() {
        let mut v = im.clone();
        let mut c = vec![0u64; n];
        c[i] = 1 % p;
        for (lead, w, cw) in pivots.iter() {
            let f = v[*lead];
            if f != 0 {
                for k in 0..v.len() {
                    v[k] = sub(v[k], mul(f, w[k], p), p);
                }
                for k in 0..n {
                    c[k] = sub(c[k], mul(f, cw[k], p), p);
                }
            }
        }
        if let Some(lead) = v.iter().position(|x| *x != 0) {
            let f = inv(v[lead], p);
            let v = v.into_iter().map(|x| mul(x, f, p)).collect();
            let c = c.into_iter().map(|x| mul(x, f, p)).collect();
            pivots.push((lead, v, c));
        } else {
            ker.push(c);
        }
    }
    ker
}

/// The pairs (row, col) determined by ranks of lower-left submatrices:
/// r(i,j) - r(i+1,j) - r(i,j-1) + r(i+1,j-1) = 1 with r(i,j) = rank of rows >= i, columns <= j.
pub fn rank_pairs(cols: &[Vec<u64>], nrows: usize, p: u64) -> Vec<(usize, usize)> {
    let nc = cols.len();
    // prefix[i][j] = rank of rows >= i, columns < j
    let mut prefix = vec![vec![0usize; nc + 1]; nrows + 1];
    for (i, row) in prefix.iter_mut().enumerate() {
        let mut s = Span::new(p);
        for j in 0..nc {
            s.insert(cols[j][i..].to_vec());
            row[j + 1] = s.rank();
        }
    }
    let mut out = vec![];
    for i in 0..nrows {
        for j in 0..nc {
            let d = prefix[i][j + 1] as i64 - prefix[i + 1][j + 1] as i64 - prefix[i][j] as i64
                + prefix[i + 1][j] as i64;
            match d {
                0 => {}
                1 => out.push((i, j)),
                _ => panic!("HARNESS-ERROR rank pairing"),
            }
        }
    }
    out
}

/// Plain dense left-to-right reduction, used as the reference for larger inputs.
/// Returns pivot row of each column (largest row index), or None.
pub fn reduce_pivots(cols: &[Vec<(usize, u64)>], nrows: usize, p: u64) -> Vec<Option<usize>> {
    let mut owner: Vec<Option<usize>> = vec![None; nrows];
    let mut store: Vec<Vec<(usize, u64)>> = vec![];
    let mut res = vec![];
    for c in cols.iter() {
        let mut dense: std::collections::BTreeMap<usize, u64> = Default::default();
        for (r, v) in c {
            let e = dense.entry(*r).or_insert(0);
            *e = (*e + *v) % p;
        }
        dense.retain(|_, v| *v != 0);
        loop {
            let Some((&r, &v)) = dense.iter().next_back() else {
                res.push(None);
                store.push(vec![]);
                break;
            };
            match owner[r] {
                None => {
                    owner[r] = Some(store.len());
                    let f = inv(v, p);
                    store.push(dense.iter().map(|(k, x)| (*k, mul(*x, f, p))).collect());
                    res.push(Some(r));
                    break;
                }
                Some(o) => {
                    for (k, x) in store[o].iter() {
                        let e = dense.entry(*k).or_insert(0);
                        *e = sub(*e, mul(v, *x, p), p);
                        if *e == 0 {
                            dense.remove(k);
                        }
                    }
                }
            }
        }
    }
    res
}
