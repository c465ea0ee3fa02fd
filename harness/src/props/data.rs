//! C17, C18, C24
use super::approx::pool;
use crate::core::{Case, Ctx};
use crate::inst::{self, Inst};
use crate::oracle::*;
use crate::rng::{hash_bytes, mix, Rng};
use walky::datastructures::{AdjacencyMatrix, Edge, Graph, NAMatrix, VecMatrix};
use walky::solvers::is_hamiltonian_cycle;

const KINDS: &[&str] = &["euclid", "grid", "clustered", "collinear", "line-eq", "circle", "duplicates", "two-far-clusters", "euclid-big", "euclid-small"];

fn pts(r: &mut Rng, n: usize) -> (&'static str, Vec<[f64; 2]>) {
    match r.below(4) {
        0 => {
            let e = r.range(0, 200) as i32 - 100;
            ("any-scale", (0..n).map(|_| [(r.f() - 0.5) * 10f64.powi(e), (r.f() - 0.5) * 10f64.powi(e)]).collect())
        }
        1 => (
            "mixed-scale",
            (0..n).map(|_| [(r.f() - 0.5) * 10f64.powi(r.below(40) as i32 - 20), -(r.f() - 0.5) * 10f64.powi(r.below(40) as i32 - 20)]).collect(),
        ),
        _ => {
            let k = *r.pick(KINDS);
            let mut p = inst::points(r, n, k);
            if r.chance(0.3) {
                for q in p.iter_mut() {
                    q[0] = -q[0];
                }
            }
            if r.chance(0.2) {
                for q in p.iter_mut() {
                    *q = [q[1], q[0]];
                }
            }
            (k, p)
        }
    }
}

fn check_dist(p: &[[f64; 2]], m: &NAMatrix) -> Result<(), String> {
    let n = p.len();
    if m.shape() != (n, n) || m.dim() != n {
        return Err(format!("matrix is {:?} for {n} points", m.shape()));
    }
    for a in 0..n {
        if m.get(a, a) != 0.0 {
            return Err(format!("diagonal {a} is {:?}", m.get(a, a)));
        }
        for b in 0..a {
            let (x, y) = (m.get(a, b), m.get(b, a));
            if x.to_bits() != y.to_bits() {
                return Err(format!("({a},{b}) is {x:?}, ({b},{a}) is {y:?}"));
            }
            let w = (p[a][0] - p[b][0]).hypot(p[a][1] - p[b][1]);
            // squares of differences below 1e-150 lose digits to underflow
            let ok = x == w || (x - w).abs() <= 4.0 * f64::EPSILON * w || (w < 1e-145 && (x - w).abs() <= 1e-155);
            if !ok {
                return Err(format!("({a},{b}) is {x:?}, the distance of {:?} and {:?} is {w:?}", p[a], p[b]));
            }
        }
    }
    Ok(())
}

pub fn c17(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let one = |c: &mut Case, kind: &str, p: &[[f64; 2]], t: Option<usize>| {
        let n = p.len();
        let Some(a) = c.call("from_points", || NAMatrix::from_points(p)) else { return };
        let b = match t {
            None => c.call("par_from_points", || NAMatrix::par_from_points(p)),
            Some(t) => {
                let Some(pl) = pool(t) else { return };
                c.call("par_from_points", || pl.install(|| NAMatrix::par_from_points(p)))
            }
        };
        let Some(b) = b else { return };
        for (m, how) in [(&a, "sequential"), (&b, "parallel")] {
            if let Err(e) = check_dist(p, m) {
                c.fail(format!("{how}, {n} {kind} points, pool {t:?}: {e}"));
                return;
            }
        }
        // the two constructions agree (to the rounding allowed above)
        for x in 0..n {
            for y in 0..n {
                let (u, v) = (a.get(x, y), b.get(x, y));
                if u != v && (u - v).abs() > 4.0 * f64::EPSILON * u.max(v) {
                    c.fail(format!("{n} {kind} points: sequential ({x},{y}) = {u:?}, parallel {v:?}"));
                    return;
                }
            }
        }
        c.count("distances checked", 2 * (n * n) as u64);
        let mut bytes = vec![];
        for q in p {
            bytes.extend_from_slice(&q[0].to_bits().to_le_bytes());
            bytes.extend_from_slice(&q[1].to_bits().to_le_bytes());
        }
        c.eval(&format!("{kind}/{}", if n < 3 { "tiny" } else if n < 20 { "small" } else { "large" }), mix(hash_bytes(&bytes) ^ t.unwrap_or(0) as u64), n >= 3 && p.iter().any(|q| *q != p[0]));
        c.sample(kind, || format!("{n} points {:?}", &p[..n.min(6)]));
    };
    ctx.phase("small", ctx.n(15_000, 400_000), 8, |c| {
        let n = c.rng.range(0, 20);
        let (k, p) = pts(&mut c.rng, n);
        one(c, k, &p, None);
    });
    ctx.phase("large", ctx.n(200, 6000), 8, |c| {
        let n = c.rng.range(21, 300);
        let (k, p) = pts(&mut c.rng, n);
        one(c, k, &p, None);
    });
    ctx.phase("big", ctx.n(8, 100), 4, |c| {
        let n = c.rng.range(500, 1300);
        let (k, p) = pts(&mut c.rng, n);
        one(c, k, &p, None);
    });
    ctx.phase("pools", ctx.n(200, 6000), 4, |c| {
        let n = *c.rng.pick(&[0, 1, 2, 3, 5, 8, 17, 33, 64, 129]);
        let (k, p) = pts(&mut c.rng, n);
        let t = *c.rng.pick(&[1, 2, 3, 4, 7, 8, 16, 40]);
        one(c, k, &p, Some(t));
    });
    (
        "A case is one list of points (0 to 1300, twelve distributions, magnitudes 1e-100 to 1e100); every entry of the sequential and parallel matrices is compared with the C library's hypot. Non-trivial: at least 3 points, not all equal.",
        vec!["distances are compared to 4 ulp; coordinates between 1e-100 and 1e100 in magnitude"],
    )
}

fn seq(r: &mut Rng, n: usize) -> Vec<usize> {
    match r.below(4) {
        0 => r.perm(n),
        1 => {
            let mut p = r.perm(n);
            p.truncate(r.below(n + 1));
            p
        }
        2 => {
            let k = r.below(2 * n + 3);
            (0..k).map(|_| r.below(n)).collect()
        }
        _ => {
            let mut p = r.perm(n);
            p.push(p[0]);
            p
        }
    }
}

/// A closed walk with its expected verdict.
fn closed(r: &mut Rng, n: usize) -> (Vec<usize>, bool) {
    let mut p = r.perm(n);
    let good = p.clone();
    match r.below(8) {
        0 | 1 => {}
        2 => {
            // one city missing
            let k = r.below(n);
            p.remove(k);
            if p.is_empty() {
                p = good;
            }
        }
        3 => {
            // one replaced by a duplicate
            let (a, b) = (r.below(n), r.below(n));
            p[a] = p[b];
        }
        4 => {
            // one visited again, or again and again
            let (a, k) = (r.below(n), r.below(n + 1));
            p.insert(k, good[a]);
            if r.chance(0.02) {
                let often = *r.pick(&[2usize, 3, 127, 128, 254, 255, 256, 257, 511, 512, 65_534, 65_535, 65_536]);
                // in a row, or the whole walk over and over
                if r.chance(0.5) || n * often > 200_000 {
                    p.splice(k..k, std::iter::repeat(good[a]).take(often - 1));
                } else {
                    p = good.iter().copied().cycle().take(n * often).collect();
                }
            }
        }
        5 => {
            // not a vertex of the graph
            let a = r.below(n);
            p[a] = n + r.below(3);
        }
        6 => {
            // the closed walk twice around
            p.push(p[0]);
            let q = p[1..].to_vec();
            p.extend(q);
            p.pop();
        }
        _ => {
            let k = r.range(1, 2 * n);
            p = (0..k).map(|_| r.below(n)).collect();
        }
    }
    p.push(p[0]);
    let inner = &p[..p.len() - 1];
    let ok = is_perm(inner, n);
    (p, ok)
}

pub fn c18(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    ctx.phase("costs", ctx.n(15_000, 500_000), 8, |c| {
        let n = if c.idx % 64 == 63 { c.rng.range(60, 320) } else { c.rng.range(1, 20) };
        let i = inst::random_general(&mut c.rng, n);
        let (na, vm) = (i.na(), i.vm());
        for _ in 0..8 {
            let p = seq(&mut c.rng, n);
            let (w, z) = (walk_cost(&i, &p), cycle_cost(&i, &p));
            for k in 0..2 {
                let (name, r) = if k == 0 {
                    ("NAMatrix", c.call("evaluate", || (na.evaluate_path(&p), na.evaluate_circle(&p))))
                } else {
                    ("VecMatrix", c.call("evaluate", || (vm.evaluate_path(&p), vm.evaluate_circle(&p))))
                };
                let Some((a, b)) = r else { return };
                if !close(a, w) || !close(b, z) {
                    c.fail(format!("{name}: walk {p:?} costs {a:?} and closed {b:?}, expected {w:?} and {z:?}; {}", i.text()));
                    return;
                }
            }
            c.eval("path and cycle costs", mix(i.hash() ^ hash_bytes(format!("{p:?}").as_bytes())), p.len() >= 3 && i.nontrivial());
        }
        c.sample("costs", || i.text());
    });
    ctx.phase("hamiltonian", ctx.n(15_000, 500_000), 8, |c| {
        let n = match c.idx % 32 {
            31 => c.rng.range(60, 300),
            30 => c.rng.range(17, 70),
            _ => c.rng.range(2, 16),
        };
        let i = inst::make(&mut c.rng, n, "uniform");
        let (na, vm) = (i.na(), i.vm());
        for _ in 0..10 {
            let (p, want) = closed(&mut c.rng, n);
            let (Some(a), Some(b)) = (
                c.call("is_hamiltonian_cycle", || is_hamiltonian_cycle(&p, &na)),
                c.call("is_hamiltonian_cycle", || is_hamiltonian_cycle(&p, &vm)),
            ) else {
                return;
            };
            if a != want || b != want {
                c.fail(format!("closed walk {p:?} on {n} vertices: is_hamiltonian_cycle says {a} / {b}, expected {want}"));
                return;
            }
            c.eval(if want { "Hamiltonian walks" } else { "other walks" }, hash_bytes(format!("{n} {p:?}").as_bytes()), n >= 3);
            c.sample(if want { "yes" } else { "no" }, || format!("n={n} {p:?} -> {want}"));
        }
    });
    ctx.phase("metric", ctx.n(15_000, 500_000), 8, |c| {
        let n = match c.idx % 128 {
            127 => c.rng.range(60, 110),
            126 => c.rng.range(15, 70),
            _ => c.rng.range(2, 14),
        };
        let mut i = inst::random_metric(&mut c.rng, n);
        let sc = *c.rng.pick(&[1.0, 1.0, 1.0, 8.0, 1024.0, 1e6]);
        i = i.scaled(sc);
        let mut what = "metric";
        let mut want = true;
        // margin of the largest violation
        let slack = |i: &Inst| {
            let mut worst = f64::NEG_INFINITY;
            for a in 0..i.n {
                for b in 0..i.n {
                    for k in 0..i.n {
                        let s = i.g(a, k) + i.g(k, b);
                        worst = worst.max((i.g(a, b) - s) / s.max(1.0));
                    }
                }
            }
            worst
        };
        if n >= 3 && c.rng.chance(0.6) {
            // lengthen one edge just beyond, or far beyond, its cheapest detour
            let p = c.rng.perm(n);
            let (a, b) = (p[0], p[1]);
            let d = (0..n).filter(|&k| k != a && k != b).map(|k| i.g(a, k) + i.g(k, b)).fold(f64::INFINITY, f64::min);
            let f = *c.rng.pick(&[1e-6, 1e-3, 0.1, 1.0, 100.0]);
            let v = d + f * d.max(1.0);
            i.c[a * n + b] = v;
            i.c[b * n + a] = v;
            what = if f < 0.01 { "slightly violated" } else { "violated" };
            want = false;
        } else if c.rng.chance(0.3) {
            let mut j = inst::random_general(&mut c.rng, n);
            let f = j.max();
            if f > 0.0 && f < 1e9 && f > 1e-9 {
                j = j.scaled(if f < 1.0 { 1.0 / f } else { 1.0 });
                let s = slack(&j);
                if s > 1e-8 {
                    want = false;
                } else if s > 1e-12 {
                    return; // too close to call
                } else {
                    want = true;
                }
                what = if want { "general, metric" } else { "general, not metric" };
                i = j;
            }
        }
        let (na, vm) = (i.na(), i.vm());
        let (Some(a), Some(b)) = (c.call("is_metric", || na.is_metric()), c.call("is_metric", || vm.is_metric())) else { return };
        if a != want || b != want {
            c.fail(format!("is_metric says {a} / {b}, expected {want} (worst relative excess {:e}); {}", slack(&i), i.text()));
        }
        c.eval(&format!("is_metric: {what}"), i.hash(), n >= 3 && i.nontrivial());
        c.sample(what, || format!("{} -> {want}", i.text()));
    });
    (
        "A case is one walk on one instance (both matrix types), one closed walk with its known verdict, or one matrix with its known metricity (Euclidean, closures, trees, ... with an edge lengthened beyond its cheapest detour by a factor from 1e-6 to 100). Non-trivial: at least 3 cities and more than one distinct cost.",
        vec!["matrices violating a triangle by less than 1e-8 relative to max(1, detour) are not judged", "Hamiltonian check on closed walks of graphs with at least two vertices"],
    )
}

pub fn c24(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    ctx.phase("histories", ctx.n(12_000, 400_000), 8, |c| {
        let n = if c.idx % 64 == 63 { c.rng.range(200, 600) } else { c.rng.range(2, 14) };
        let steps = if n > 100 { c.rng.range(200, 1500) } else if c.rng.chance(0.1) { c.rng.range(60, 300) } else { c.rng.below(40) };
        let mut g: Graph = vec![Vec::<Edge>::new(); n].into();
        let mut model: Vec<Vec<(usize, f64)>> = vec![vec![]; n];
        let (mut total, mut log) = (0.0, vec![]);
        let kind = c.rng.below(4);
        let loops = c.rng.chance(0.15);
        for k in 0..steps {
            let a = c.rng.below(n);
            // now and then a loop: listed twice, like every other edge
            let b = if loops && c.rng.chance(0.2) { a } else { (a + 1 + c.rng.below(n - 1)) % n };
            let w = match kind {
                0 => c.rng.f() * 10.0,
                1 => c.rng.below(3) as f64,
                2 => 10f64.powi(c.rng.below(20) as i32 - 10),
                _ => (k + 1) as f64,
            };
            if c.call("add_undirected_edge", || g.add_undirected_edge(a, b, w)).is_none() {
                return;
            }
            model[a].push((b, w));
            model[b].push((a, w));
            total += w;
            log.push((a, b, w));
            let last = k + 1 == steps;
            if last || c.rng.chance(if n > 100 { 0.005 } else { 0.2 }) {
                let dirs: f64 = model.iter().flatten().map(|e| e.1).sum();
                let Some((d, u, nv)) = c.call("weights", || (g.directed_edge_weight(), g.undirected_edge_weight(), g.num_vertices())) else { return };
                if nv != n || !close(d, dirs) || !close(u, total) {
                    c.fail(format!("{nv} vertices, directed weight {d:?}, undirected {u:?}; expected {n}, {dirs:?}, {total:?} after {log:?}"));
                    return;
                }
                for v in 0..n {
                    let list: Vec<(usize, f64)> = g[v].iter().map(|e| (e.to, e.cost)).collect();
                    let deg = c.call("degree", || (g.vertex_degree(v), g[v].degree()));
                    if list != model[v] || deg != Some((model[v].len(), model[v].len())) {
                        c.fail(format!("vertex {v} lists {list:?} with degree {deg:?}, expected {:?} after {log:?}", model[v]));
                        return;
                    }
                }
                c.count("graph states compared", 1);
            }
        }
        c.eval(&format!("history/{}", if steps < 5 { "short" } else { "long" }), hash_bytes(format!("{n}{log:?}").as_bytes()), steps >= 3);
        c.sample(&format!("history{kind}"), || format!("n={n} {log:?}"));
    });
    ctx.phase("conversions", ctx.n(12_000, 400_000), 8, |c| {
        // a simple undirected graph, possibly not complete, lists in any order
        let n = if c.idx % 128 == 127 { c.rng.range(60, 300) } else { c.rng.range(1, 14) };
        let i = inst::random_general(&mut c.rng, n);
        let p = *c.rng.pick(&[0.0, 0.3, 0.8, 1.0, 1.0]);
        let mut has = vec![false; n * n];
        for a in 0..n {
            for b in 0..a {
                if c.rng.chance(p) || p == 1.0 {
                    has[a * n + b] = true;
                    has[b * n + a] = true;
                }
            }
        }
        let lists: Vec<Vec<Edge>> = (0..n)
            .map(|a| {
                let mut v: Vec<usize> = (0..n).filter(|&b| has[a * n + b]).collect();
                if c.rng.chance(0.6) {
                    c.rng.shuffle(&mut v);
                }
                v.into_iter().map(|b| Edge { to: b, cost: i.g(a, b) }).collect()
            })
            .collect();
        let plain: Vec<Vec<(usize, f64)>> = lists.iter().map(|v| v.iter().map(|e| (e.to, e.cost)).collect()).collect();
        let Some(g) = c.call("Graph::from", || Graph::from(lists)) else { return };
        let got: Vec<Vec<(usize, f64)>> = g.iter().map(|v| v.iter().map(|e| (e.to, e.cost)).collect()).collect();
        if got != plain {
            c.fail(format!("edge lists {plain:?} became the graph {got:?}"));
            return;
        }
        let Some(na) = c.call("NAMatrix::from(&Graph)", || NAMatrix::from(&g)) else { return };
        let Some(vm) = c.call("VecMatrix::from(Graph)", || VecMatrix::from(g)) else { return };
        let Some(nv) = c.call("NAMatrix::from(&VecMatrix)", || NAMatrix::from(&vm)) else { return };
        if na.dim() != n || vm.dim() != n || nv.dim() != n {
            c.fail(format!("dimensions {}, {}, {} for {n} vertices", na.dim(), vm.dim(), nv.dim()));
            return;
        }
        for a in 0..n {
            if na.get(a, a) != 0.0 {
                c.fail(format!("NAMatrix diagonal {a} is {:?}", na.get(a, a)));
                return;
            }
            for b in 0..n {
                let (x, y, z) = (na.get(a, b), vm.get(a, b), nv.get(a, b));
                let want = if has[a * n + b] { i.g(a, b) } else { f64::INFINITY };
                if a != b && (x != want || y != want) || z.to_bits() != y.to_bits() {
                    c.fail(format!("entry ({a},{b}): {x:?} in the NAMatrix, {y:?} in the VecMatrix, {z:?} converted between them; expected {want:?}; lists {plain:?}"));
                    return;
                }
            }
        }
        // any matrix, both directions of its own
        if c.rng.chance(0.5) {
            let rows: Vec<Vec<f64>> = (0..n).map(|_| (0..n).map(|_| if c.rng.chance(0.1) { f64::INFINITY } else { c.rng.f() * 9.0 }).collect()).collect();
            let Some(z) = c.call("NAMatrix::from(&VecMatrix)", || NAMatrix::from(&VecMatrix::from(rows.clone()))) else { return };
            let off = (0..n).find_map(|a| (0..n).find(|&b| z.dim() != n || z.get(a, b).to_bits() != rows[a][b].to_bits()).map(|b| (a, b)));
            if let Some((a, b)) = off {
                c.fail(format!("the matrix {rows:?} of nested vectors, converted to a NAMatrix, differs at ({a},{b}): dimension {}, {:?}", z.dim(), z.0.get((a, b))));
                return;
            }
            c.count("asymmetric matrices converted", 1);
        }
        // a matrix written entry by entry
        let (na2, vm2) = (i.na(), { let mut m = VecMatrix::from_dim(n); for a in 0..n { for b in 0..n { m.set(a, b, i.g(a, b)); } } m });
        for a in 0..n {
            for b in 0..n {
                if na2.get(a, b) != i.g(a, b) || vm2.get(a, b) != i.g(a, b) {
                    c.fail(format!("entry ({a},{b}) reads {:?} / {:?} after writing {:?}", na2.get(a, b), vm2.get(a, b), i.g(a, b)));
                    return;
                }
            }
        }
        c.eval(&format!("conversion/{}", if p == 1.0 { "complete" } else { "sparse" }), mix(i.hash() ^ hash_bytes(format!("{plain:?}").as_bytes())), n >= 3);
    });
    (
        "A case is one history of edge additions (parallel edges included) compared with a list model at random points, or one graph converted between lists, Graph, NAMatrix and VecMatrix and compared entry by entry. Non-trivial: at least 3 additions or vertices.",
        vec!["no self-loops; parallel edges only in histories (a matrix cannot hold them)"],
    )
}
