//! Instance generators.
use crate::rng::{hash_bytes, Rng};
use walky::datastructures::{AdjacencyMatrix, Edge, Graph, NAMatrix, VecMatrix};

#[derive(Clone)]
pub struct Inst {
    pub n: usize,
    pub c: Vec<f64>,
    pub class: &'static str,
    pub metric: bool,
}

/// Classes whose matrices satisfy the triangle inequality (to rounding).
pub const METRIC: &[&str] = &[
    "euclid", "grid", "clustered", "collinear", "circle", "duplicates", "all-equal", "all-zero",
    "closure", "closure-int", "star", "tree", "ultrametric", "euclid-big", "euclid-small",
    "one-two", "l1-int", "line-eq", "two-far-clusters",
];
/// Classes that generally are not metric (the solvers do not require it).
pub const GENERAL: &[&str] = &[
    "uniform", "small-int", "zero-one", "big-m", "exponential", "hub", "index-structured",
    "mostly-zero", "wide-magnitudes", "single-cheap-cycle", "bipartite", "powers", "tiny", "huge",
    "one-expensive", "near-ties",
];

fn sym(n: usize, class: &'static str, metric: bool, mut f: impl FnMut(usize, usize) -> f64) -> Inst {
    let mut c = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..i {
            let v = f(j, i);
            c[i * n + j] = v;
            c[j * n + i] = v;
        }
    }
    Inst { n, c, class, metric }
}

fn close(mut i: Inst) -> Inst {
    let n = i.n;
    for k in 0..n {
        for a in 0..n {
            for b in 0..n {
                let v = i.c[a * n + k] + i.c[k * n + b];
                if v < i.c[a * n + b] {
                    i.c[a * n + b] = v;
                }
            }
        }
    }
    for a in 0..n {
        for b in 0..a {
            let v = i.c[a * n + b].min(i.c[b * n + a]);
            i.c[a * n + b] = v;
            i.c[b * n + a] = v;
        }
    }
    i
}

pub fn dist(a: [f64; 2], b: [f64; 2]) -> f64 {
    let (x, y) = (a[0] - b[0], a[1] - b[1]);
    (x * x + y * y).sqrt()
}

fn from_pts(class: &'static str, p: &[[f64; 2]]) -> Inst {
    sym(p.len(), class, true, |i, j| dist(p[i], p[j]))
}

pub fn points(r: &mut Rng, n: usize, kind: &str) -> Vec<[f64; 2]> {
    match kind {
        "grid" => {
            let w = r.range(1, 5);
            (0..n).map(|_| [r.below(w + 1) as f64, r.below(w + 1) as f64]).collect()
        }
        "clustered" => {
            let k = r.range(1, 4);
            let cs: Vec<[f64; 2]> = (0..k).map(|_| [r.f() * 1e4, r.f() * 1e4]).collect();
            (0..n)
                .map(|_| {
                    let c = cs[r.below(k)];
                    [c[0] + r.f(), c[1] + r.f()]
                })
                .collect()
        }
        "collinear" => {
            let (dx, dy) = (r.f() - 0.5, r.f() - 0.5);
            (0..n)
                .map(|_| {
                    let t = if r.chance(0.5) { r.below(10) as f64 } else { r.f() * 10.0 };
                    [t * dx, t * dy]
                })
                .collect()
        }
        "line-eq" => (0..n).map(|i| [i as f64, 0.0]).collect(),
        "circle" => (0..n)
            .map(|i| {
                let a = i as f64 / n as f64 * std::f64::consts::TAU;
                [a.cos() * 7.0, a.sin() * 7.0]
            })
            .collect(),
        "duplicates" => {
            let k = r.range(1, (n / 2).max(1));
            let cs: Vec<[f64; 2]> = (0..k).map(|_| [r.f(), r.f()]).collect();
            (0..n).map(|_| cs[r.below(k)]).collect()
        }
        "two-far-clusters" => (0..n)
            .map(|i| {
                let o = if i % 2 == 0 { 0.0 } else { 1e5 };
                [o + r.f(), r.f()]
            })
            .collect(),
        "euclid-big" => (0..n).map(|_| [r.f() * 1e12, r.f() * 1e12]).collect(),
        "euclid-small" => (0..n).map(|_| [r.f() * 1e-9, r.f() * 1e-9]).collect(),
        _ => (0..n).map(|_| [r.f() * 20.0 - 10.0, r.f() * 20.0 - 10.0]).collect(),
    }
}

pub fn make(r: &mut Rng, n: usize, class: &'static str) -> Inst {
    let mut inst = match class {
        "euclid" | "grid" | "clustered" | "collinear" | "line-eq" | "circle" | "duplicates"
        | "two-far-clusters" | "euclid-big" | "euclid-small" => {
            let p = points(r, n, class);
            from_pts(class, &p)
        }
        "all-equal" => {
            let v = *r.pick(&[1.0, 0.1, 3.0, 1e6, 1e-3, 0.7]);
            sym(n, class, true, |_, _| v)
        }
        "all-zero" => sym(n, class, true, |_, _| 0.0),
        "one-two" => sym(n, class, true, |_, _| 1.0 + r.below(2) as f64),
        "l1-int" => {
            let p: Vec<(i64, i64)> = (0..n).map(|_| (r.below(20) as i64, r.below(20) as i64)).collect();
            sym(n, class, true, |i, j| ((p[i].0 - p[j].0).abs() + (p[i].1 - p[j].1).abs()) as f64)
        }
        "closure" => {
            let i = sym(n, class, true, |_, _| 0.1 + r.f() * 10.0);
            close(i)
        }
        "closure-int" => {
            let m = r.range(2, 30);
            let i = sym(n, class, true, |_, _| 1.0 + r.below(m) as f64);
            close(i)
        }
        "star" => {
            let w: Vec<f64> = (0..n).map(|_| 1.0 + r.below(9) as f64).collect();
            let hub = r.below(n.max(1));
            sym(n, class, true, |i, j| {
                (if i == hub { 0.0 } else { w[i] }) + (if j == hub { 0.0 } else { w[j] })
            })
        }
        "tree" => {
            // path metric of a random tree
            let mut par = vec![0usize; n];
            let mut w = vec![0.0; n];
            for i in 1..n {
                par[i] = if r.chance(0.3) { i - 1 } else { r.below(i) };
                w[i] = 1.0 + r.below(12) as f64;
            }
            let d = |mut a: usize, mut b: usize| {
                let mut s = 0.0;
                while a != b {
                    if a > b {
                        s += w[a];
                        a = par[a];
                    } else {
                        s += w[b];
                        b = par[b];
                    }
                }
                s
            };
            sym(n, class, true, d)
        }
        "ultrametric" => {
            let bits = 6;
            let code: Vec<usize> = (0..n).map(|_| r.below(1 << bits)).collect();
            sym(n, class, true, |i, j| {
                let x = code[i] ^ code[j];
                if x == 0 { 1.0 } else { (2u64 << (usize::BITS - x.leading_zeros())) as f64 }
            })
        }
        "uniform" => sym(n, class, false, |_, _| r.f() * 100.0),
        "small-int" => {
            let m = r.range(2, 10);
            sym(n, class, false, |_, _| r.below(m) as f64)
        }
        "zero-one" => sym(n, class, false, |_, _| r.below(2) as f64),
        "mostly-zero" => sym(n, class, false, |_, _| if r.chance(0.75) { 0.0 } else { 1.0 + r.below(9) as f64 }),
        "big-m" => {
            let m = *r.pick(&[1e6, 1e9, 1e12, 1e15]);
            let p = 0.2 + 0.6 * r.f();
            sym(n, class, false, |_, _| if r.chance(p) { m } else { r.f() })
        }
        "exponential" => sym(n, class, false, |_, _| (2.0f64).powi(r.below(40) as i32)),
        "powers" => {
            let mut e = 0;
            sym(n, class, false, |_, _| {
                e = e % 900 + 1;
                (2.0f64).powi(e)
            })
        }
        "wide-magnitudes" => sym(n, class, false, |_, _| 10f64.powi(r.below(24) as i32 - 12) * (1.0 + r.f())),
        "hub" => {
            let h = r.below(n);
            sym(n, class, false, |i, j| if i == h || j == h { 0.01 + r.f() * 0.1 } else { 5.0 + r.f() * 10.0 })
        }
        "index-structured" => {
            let (a, b) = (r.range(1, 7), r.range(2, 13));
            sym(n, class, false, |i, j| ((i * a + j * (a + 3)) % b) as f64 + 1.0)
        }
        "single-cheap-cycle" => {
            let p = r.perm(n);
            let mut pos = vec![0; n];
            for (k, &v) in p.iter().enumerate() {
                pos[v] = k;
            }
            sym(n, class, false, |i, j| {
                let d = pos[i].abs_diff(pos[j]);
                if d == 1 || d == n - 1 { 1.0 } else { 2.0 + r.below(5) as f64 }
            })
        }
        "bipartite" => sym(n, class, false, |i, j| if (i + j) % 2 == 0 { 10.0 + r.f() } else { 1.0 + r.f() }),
        "tiny" => sym(n, class, false, |_, _| r.f() * 1e-200),
        "huge" => sym(n, class, false, |_, _| r.f() * 1e200),
        "one-expensive" => {
            let (a, b) = (r.below(n), r.below(n));
            sym(n, class, false, |i, j| {
                if (i, j) == (a, b) || (j, i) == (a, b) { 1e4 } else { 1.0 + r.below(3) as f64 * 0.25 }
            })
        }
        "near-ties" => sym(n, class, false, |_, _| 1.0 + r.below(6) as f64 * 1e-6),
        _ => unreachable!("class {class}"),
    };
    // rotate away from generator-specific vertex order
    if r.chance(0.5) && !matches!(class, "index-structured" | "line-eq") {
        let p = r.perm(n);
        inst = inst.relabel(&p);
    }
    inst
}

/// A cheap tour that differs from the identity in the last `k` places, every other edge dearer
/// than the whole of it; with its cost, the only optimum.
pub fn planted(r: &mut Rng, n: usize, k: usize) -> (Inst, f64) {
    let mut p: Vec<usize> = (0..n).collect();
    r.shuffle(&mut p[n - k..]);
    let dear = 10.0 * n as f64;
    let mut i = make(r, n, "uniform");
    for x in i.c.iter_mut() {
        *x += dear;
    }
    let mut best = 0.0;
    for k in 0..n {
        let (a, b) = (p[k], p[(k + 1) % n]);
        let w = 1.0 + (r.below(9) as f64) * 0.0625;
        i.c[a * n + b] = w;
        i.c[b * n + a] = w;
        best += w;
    }
    for a in 0..n {
        i.c[a * n + a] = 0.0;
    }
    i.class = "planted";
    (i, best)
}

pub fn random_general(r: &mut Rng, n: usize) -> Inst {
    if r.chance(0.4) {
        random_metric(r, n)
    } else {
        let c = *r.pick(GENERAL);
        make(r, n, c)
    }
}

pub fn random_metric(r: &mut Rng, n: usize) -> Inst {
    let c = *r.pick(METRIC);
    make(r, n, c)
}

impl Inst {
    pub fn g(&self, i: usize, j: usize) -> f64 {
        self.c[i * self.n + j]
    }
    pub fn na(&self) -> NAMatrix {
        let mut m = NAMatrix::from_dim(self.n);
        for i in 0..self.n {
            for j in 0..self.n {
                m.set(i, j, self.g(i, j));
            }
        }
        m
    }
    pub fn vm(&self) -> VecMatrix {
        let rows: Vec<Vec<f64>> = (0..self.n).map(|i| self.c[i * self.n..(i + 1) * self.n].to_vec()).collect();
        VecMatrix::from(rows)
    }
    pub fn graph(&self) -> Graph {
        let v: Vec<Vec<Edge>> = (0..self.n)
            .map(|i| {
                (0..self.n)
                    .filter(|&j| j != i)
                    .map(|j| Edge { to: j, cost: self.g(i, j) })
                    .collect()
            })
            .collect();
        v.into()
    }
    /// new vertex k is old vertex p[k]
    pub fn relabel(&self, p: &[usize]) -> Inst {
        let n = self.n;
        let mut c = vec![0.0; n * n];
        for i in 0..n {
            for j in 0..n {
                c[i * n + j] = self.g(p[i], p[j]);
            }
        }
        Inst { n, c, class: self.class, metric: self.metric }
    }
    pub fn scaled(&self, f: f64) -> Inst {
        Inst { n: self.n, c: self.c.iter().map(|x| x * f).collect(), class: self.class, metric: self.metric }
    }
    pub fn hash(&self) -> u64 {
        let mut b = Vec::with_capacity(self.c.len() * 8 + 8);
        b.extend_from_slice(&(self.n as u64).to_le_bytes());
        for x in &self.c {
            b.extend_from_slice(&x.to_bits().to_le_bytes());
        }
        hash_bytes(&b)
    }
    /// more than one distinct off-diagonal cost
    pub fn nontrivial(&self) -> bool {
        let mut first = None;
        for i in 0..self.n {
            for j in 0..i {
                match first {
                    None => first = Some(self.g(i, j)),
                    Some(f) if f != self.g(i, j) => return true,
                    _ => {}
                }
            }
        }
        false
    }
    /// largest cost
    pub fn max(&self) -> f64 {
        self.c.iter().cloned().fold(0.0, f64::max)
    }
    pub fn text(&self) -> String {
        let mut s = format!("class={} n={} costs(lower triangle)=[", self.class, self.n);
        for i in 0..self.n {
            for j in 0..i {
                s.push_str(&format!("{:?} ", self.g(i, j)));
            }
            if s.len() > 900 {
                s.push_str("...");
                break;
            }
        }
        s.push(']');
        s
    }
    /// plain TSPLIB-XML text
    pub fn xml(&self) -> String {
        let mut s = String::from("<travellingSalesmanProblemInstance>\n<name>x</name><source>s</source><description>d</description>\n<doublePrecision>15</doublePrecision><ignoredDigits>0</ignoredDigits>\n<graph>\n");
        for i in 0..self.n {
            s.push_str("<vertex>");
            for j in 0..self.n {
                if i != j {
                    s.push_str(&format!("<edge cost=\"{:e}\">{}</edge>", self.g(i, j), j));
                }
            }
            s.push_str("</vertex>\n");
        }
        s.push_str("</graph>\n</travellingSalesmanProblemInstance>\n");
        s
    }
}
