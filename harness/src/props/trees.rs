//! C09 - C11
use super::approx::{pool, with_seed};
use super::exact::{solve_na, NAMES};
use crate::core::{Case, Ctx};
use crate::inst::{self, Inst, METRIC};
use crate::oracle::*;
use crate::rng::{hash_bytes, mix};
use walky::computation_mode::{PAR_COMPUTATION, SEQ_COMPUTATION};
use walky::datastructures::Graph;
use walky::mst::{prim, prim_with_excluded_node_multi_threaded, prim_with_excluded_node_priority_queue, prim_with_excluded_node_single_threaded};
use walky::one_tree::{one_tree, one_tree_lower_bound};
use walky::solvers::approximate::christofides::christofides;
use walky::solvers::approximate::nearest_neighbour::{nearest_neighbour, single_nearest_neighbour};
use walky::solvers::exact::threaded_solver;

/// Undirected tree on exactly the allowed vertices, with the instance's costs; returns its weight.
pub fn check_tree(i: &Inst, g: &Graph, excluded: &[bool]) -> Result<f64, String> {
    let n = i.n;
    if g.num_vertices() != n {
        return Err(format!("{} adjacency lists for {n} vertices", g.num_vertices()));
    }
    let mut edges = vec![];
    for (u, v) in g.iter().enumerate() {
        for e in v.iter() {
            if e.to >= n || e.to == u {
                return Err(format!("edge {u} -> {}", e.to));
            }
            if excluded[u] || excluded[e.to] {
                return Err(format!("edge {u} -> {} touches an excluded vertex", e.to));
            }
            if e.cost != i.g(u, e.to) {
                return Err(format!("edge {u} -> {} carries cost {:?}, the instance has {:?}", e.to, e.cost, i.g(u, e.to)));
            }
            edges.push((u, e.to));
        }
    }
    let mut rev: Vec<(usize, usize)> = edges.iter().map(|&(a, b)| (b, a)).collect();
    edges.sort();
    rev.sort();
    if edges != rev {
        return Err("an edge is listed in one direction only".into());
    }
    let k = excluded.iter().filter(|x| !**x).count();
    if edges.len() != 2 * (k - 1) {
        return Err(format!("{} directed edges on {k} vertices", edges.len()));
    }
    // connected
    let s = excluded.iter().position(|x| !*x).unwrap();
    let mut seen = vec![false; n];
    let mut todo = vec![s];
    seen[s] = true;
    let mut cnt = 1;
    while let Some(u) = todo.pop() {
        for e in g[u].iter() {
            if !seen[e.to] {
                seen[e.to] = true;
                cnt += 1;
                todo.push(e.to);
            }
        }
    }
    if cnt != k {
        return Err(format!("only {cnt} of {k} vertices are connected"));
    }
    Ok(edges.iter().filter(|(a, b)| a < b).map(|&(a, b)| i.g(a, b)).sum())
}

const STRAT: [&str; 3] = ["sequential", "multi-threaded", "priority queue"];

pub fn c09(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let one = |c: &mut Case, i: &Inst, ex: &[usize], strats: &[usize], where_: &str| {
        let m = i.na();
        let mut mask = vec![false; i.n];
        ex.iter().for_each(|&v| mask[v] = true);
        let best = mst_weight(i, &mask);
        for &st in strats {
            let r = c.call(STRAT[st], || match st {
                0 if ex.is_empty() => prim::<SEQ_COMPUTATION>(&m),
                1 if ex.is_empty() => prim::<PAR_COMPUTATION>(&m),
                0 => prim_with_excluded_node_single_threaded(&m, ex),
                1 => prim_with_excluded_node_multi_threaded(&m, ex),
                _ => prim_with_excluded_node_priority_queue(&m, ex),
            });
            let Some(g) = r else { return };
            match check_tree(i, &g, &mask) {
                Err(e) => {
                    c.fail(format!("{}{where_}, excluded {:?}: {e}; {}", STRAT[st], &ex[..ex.len().min(20)], i.text()));
                    return;
                }
                Ok(w) => {
                    let rep = g.undirected_edge_weight();
                    if !close(w, best) || !close(rep, best) {
                        c.fail(format!("{}{where_}, excluded {:?}: tree weighs {w:?} (reported {rep:?}), the minimum is {best:?}; {}", STRAT[st], &ex[..ex.len().min(20)], i.text()));
                        return;
                    }
                }
            }
            c.count(&format!("trees checked, {}", STRAT[st]), 1);
        }
    };
    let exset = |c: &mut Case, n: usize| -> Vec<usize> {
        let k = match c.rng.below(5) {
            0 => 0,
            1 => 1.min(n - 1),
            2 => n - 1,
            _ => c.rng.below(n),
        };
        let mut p: Vec<usize> = match c.rng.below(3) {
            0 => (0..n).collect(),          // a prefix of the indices, so the start moves
            1 => (0..n).rev().collect(),
            _ => c.rng.perm(n),
        };
        p.truncate(k);
        if c.rng.chance(0.5) {
            c.rng.shuffle(&mut p);
        }
        p
    };
    ctx.phase("small", ctx.n(18_000, 500_000), 8, |c| {
        let n = c.rng.range(2, 12);
        let i = inst::random_general(&mut c.rng, n);
        let ex = exset(c, n);
        one(c, &i, &ex, &[0, 1, 2], "");
        c.eval(&format!("{}/excluded={}", i.class, ex.len().min(3)), mix(i.hash() ^ hash_bytes(format!("{ex:?}").as_bytes())), i.nontrivial() && n - ex.len() >= 3);
        c.sample(i.class, || format!("{} excluded {ex:?}", i.text()));
    });
    ctx.phase("large", ctx.n(500, 20_000), 8, |c| {
        let n = c.rng.range(13, 150);
        let i = inst::random_general(&mut c.rng, n);
        let ex = exset(c, n);
        one(c, &i, &ex, &[0, 1, 2], "");
        c.eval("large", mix(i.hash() ^ hash_bytes(format!("{ex:?}").as_bytes())), i.nontrivial());
    });
    ctx.phase("big", ctx.n(12, 300), 4, |c| {
        let n = c.rng.range(257, 640);
        let i = inst::random_general(&mut c.rng, n);
        let ex = exset(c, n);
        one(c, &i, &ex, &[0, 1, 2], "");
        c.eval("257 to 640 vertices", mix(i.hash() ^ hash_bytes(format!("{ex:?}").as_bytes())), i.nontrivial());
    });
    ctx.phase("huge", ctx.m(4, 60), 2, |c| {
        let n = match c.idx % 4 {
            0 => c.rng.range(1025, 1500),
            1 => c.rng.range(2049, 2600),
            2 => c.rng.range(4097, 4400),
            _ => c.rng.range(641, 4096),
        };
        let i = inst::make(&mut c.rng, n, if c.idx % 2 == 0 { "euclid" } else { "uniform" });
        let ex: Vec<usize> = if c.rng.chance(0.5) { vec![] } else { (0..c.rng.range(1, 9)).map(|_| c.rng.below(n)).collect::<std::collections::BTreeSet<_>>().into_iter().collect() };
        one(c, &i, &ex, &[0, 1, 2], "");
        c.eval("641 to 4400 vertices", mix(i.hash() ^ hash_bytes(format!("{ex:?}").as_bytes())), true);
    });
    ctx.phase("pools", ctx.n(120, 4000), 4, |c| {
        let n = *c.rng.pick(&[2, 3, 4, 5, 7, 9, 16, 33, 100, 257, 300]);
        let i = inst::random_general(&mut c.rng, n);
        let t = *c.rng.pick(&[1, 2, 3, 4, 5, 8, 16, 40]);
        let ex = exset(c, n);
        let Some(p) = pool(t) else { return };
        let mut mask = vec![false; n];
        ex.iter().for_each(|&v| mask[v] = true);
        let best = mst_weight(&i, &mask);
        let m = i.na();
        for _ in 0..3 {
            let r = c.call("multi-threaded", || p.install(|| if ex.is_empty() { prim::<PAR_COMPUTATION>(&m) } else { prim_with_excluded_node_multi_threaded(&m, &ex) }));
            let Some(g) = r else { return };
            match check_tree(&i, &g, &mask) {
                Ok(w) if close(w, best) => c.count("trees checked, multi-threaded in pools of 1 to 40", 1),
                Ok(w) => c.fail(format!("pool of {t}, excluded {:?}: tree weighs {w:?}, the minimum is {best:?}; {}", &ex[..ex.len().min(20)], i.text())),
                Err(e) => c.fail(format!("pool of {t}, excluded {:?}: {e}; {}", &ex[..ex.len().min(20)], i.text())),
            }
        }
        c.eval(&format!("pool/{t}"), mix(i.hash() ^ t as u64), i.nontrivial() && n >= 4);
    });
    (
        "A case is one instance (2 to 640 vertices) and one set of excluded vertices (none, one, prefixes, suffixes, random, all but one); each strategy's graph is checked to be a symmetric, connected, acyclic graph on exactly the allowed vertices with the instance's costs, and its weight is compared with Kruskal's. Non-trivial: at least 3 vertices remain and more than one distinct cost.",
        vec!["weights are compared to relative 1e-12"],
    )
}

/// Structure and weight of the 1-tree with special vertex s.
fn check_one_tree(i: &Inst, s: usize, g: &Graph) -> Result<f64, String> {
    let n = i.n;
    if g.num_vertices() != n {
        return Err(format!("{} adjacency lists for {n} vertices", g.num_vertices()));
    }
    let deg = g[s].degree();
    if deg != 2 {
        return Err(format!("the special vertex has degree {deg}"));
    }
    let mut at: Vec<(usize, f64)> = g[s].iter().map(|e| (e.to, e.cost)).collect();
    at.sort_by(|a, b| a.1.total_cmp(&b.1));
    for &(to, c) in &at {
        if to >= n || to == s || c != i.g(s, to) {
            return Err(format!("edge {s} -> {to} carries cost {c:?}"));
        }
    }
    let mut w: Vec<f64> = (0..n).filter(|&j| j != s).map(|j| i.g(s, j)).collect();
    w.sort_by(f64::total_cmp);
    let want = if n == 2 { [w[0], w[0]] } else { [w[0], w[1]] };
    if [at[0].1, at[1].1] != want {
        return Err(format!("edges at the special vertex cost {:?} and {:?}, the two cheapest cost {want:?}", at[0].1, at[1].1));
    }
    if n > 2 && at[0].0 == at[1].0 {
        return Err(format!("the edge {s} - {} is used twice", at[0].0));
    }
    // take the special vertex out again: a minimum spanning tree of the others must remain
    let mut rest: Vec<Vec<walky::datastructures::Edge>> = g.iter().map(|v| v.iter().map(|e| walky::datastructures::Edge { to: e.to, cost: e.cost }).collect()).collect();
    rest[s].clear();
    for &(to, _) in &at {
        let Some(k) = rest[to].iter().position(|e| e.to == s) else {
            return Err(format!("edge {s} -> {to} has no counterpart"));
        };
        if rest[to][k].cost != i.g(s, to) {
            return Err(format!("edge {to} -> {s} carries cost {:?}", rest[to][k].cost));
        }
        rest[to].remove(k);
    }
    let rest: Graph = rest.into();
    let mut mask = vec![false; n];
    mask[s] = true;
    let t = check_tree(i, &rest, &mask).map_err(|e| format!("without the special vertex: {e}"))?;
    let best = mst_weight(i, &mask);
    if !close(t, best) {
        return Err(format!("without the special vertex it weighs {t:?}, a minimum spanning tree {best:?}"));
    }
    Ok(t + want[0] + want[1])
}

pub fn c10(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let trees = |c: &mut Case, i: &Inst, ss: &[usize]| {
        let m = i.na();
        for &s in ss {
            let Some(g) = c.call("one_tree", || one_tree(&m, s)) else { return };
            match check_one_tree(i, s, &g) {
                Ok(w) if close(w, g.undirected_edge_weight()) => {}
                Ok(w) => c.fail(format!("special vertex {s}: the 1-tree weighs {w:?}, reported {:?}; {}", g.undirected_edge_weight(), i.text())),
                Err(e) => c.fail(format!("special vertex {s}: {e}; {}", i.text())),
            }
            if c.failed {
                return;
            }
            c.count("1-trees checked", 1);
        }
    };
    let bound = |c: &mut Case, i: &Inst, got: f64, how: &str| {
        let want = one_tree_bound(i);
        if !close(got, want) {
            c.fail(format!("{how} bound {got:?}, the maximum over the special vertices is {want:?}; {}", i.text()));
        }
        c.count(&format!("bounds checked, {how}"), 1);
    };
    ctx.phase("small", ctx.n(12_000, 400_000), 8, |c| {
        let n = c.rng.range(2, 13);
        let i = inst::random_general(&mut c.rng, n);
        let ss: Vec<usize> = (0..n).collect();
        trees(c, &i, &ss);
        let m = i.na();
        if let Some(b) = c.call("1-tree bound, sequential", || one_tree_lower_bound::<SEQ_COMPUTATION>(&m)) {
            bound(c, &i, b, "sequential");
        }
        if let Some(b) = c.call("1-tree bound, multi-threaded", || one_tree_lower_bound::<PAR_COMPUTATION>(&m)) {
            bound(c, &i, b, "multi-threaded");
        }
        c.eval(&format!("{}/n{}", i.class, if n < 4 { "<4" } else { ">=4" }), i.hash(), i.nontrivial() && n >= 4);
        c.sample(i.class, || format!("{} bound {:?}", i.text(), one_tree_bound(&i)));
    });
    ctx.phase("large", ctx.n(160, 6000), 8, |c| {
        let n = c.rng.range(14, 90);
        let i = inst::random_general(&mut c.rng, n);
        let ss: Vec<usize> = (0..6).map(|_| c.rng.below(n)).chain([0, n - 1]).collect();
        trees(c, &i, &ss);
        let m = i.na();
        if let Some(b) = c.call("1-tree bound, sequential", || one_tree_lower_bound::<SEQ_COMPUTATION>(&m)) {
            bound(c, &i, b, "sequential");
        }
        if let Some(b) = c.call("1-tree bound, multi-threaded", || one_tree_lower_bound::<PAR_COMPUTATION>(&m)) {
            bound(c, &i, b, "multi-threaded");
        }
        c.eval("large", i.hash(), i.nontrivial());
    });
    ctx.phase("big", ctx.n(5, 60), 3, |c| {
        let n = c.rng.range(129, 280);
        let i = inst::random_general(&mut c.rng, n);
        let ss: Vec<usize> = (0..4).map(|_| c.rng.below(n)).chain([0, n - 1]).collect();
        trees(c, &i, &ss);
        let m = i.na();
        if let Some(b) = c.call("1-tree bound, sequential", || one_tree_lower_bound::<SEQ_COMPUTATION>(&m)) {
            bound(c, &i, b, "sequential");
        }
        if let Some(b) = c.call("1-tree bound, multi-threaded", || one_tree_lower_bound::<PAR_COMPUTATION>(&m)) {
            bound(c, &i, b, "multi-threaded");
        }
        c.eval("129 to 280 vertices", i.hash(), i.nontrivial());
    });
    ctx.phase("pools", ctx.n(200, 6000), 4, |c| {
        let n = *c.rng.pick(&[2, 3, 4, 5, 6, 7, 9, 16, 33, 64]);
        let i = inst::random_general(&mut c.rng, n);
        let t = *c.rng.pick(&[1, 2, 3, 4, 5, 8, 16, 40]);
        let Some(p) = pool(t) else { return };
        let m = i.na();
        if let Some(b) = c.call("1-tree bound, multi-threaded", || p.install(|| one_tree_lower_bound::<PAR_COMPUTATION>(&m))) {
            bound(c, &i, b, "multi-threaded in pools of 1 to 40");
        }
        c.eval(&format!("pool/{t}"), mix(i.hash() ^ t as u64), i.nontrivial() && n >= 4);
    });
    (
        "A case is one instance with its special vertices (all up to 13 cities): each 1-tree is taken apart (degree two and the two cheapest edges at the special vertex, a minimum spanning tree of the rest, symmetric lists) and the bound is compared with the maximum of independently computed 1-tree weights. Non-trivial: at least 4 cities and more than one distinct cost.",
        vec!["weights are compared to relative 1e-12"],
    )
}

pub fn c11(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let one = |c: &mut Case, i: &Inst, exact: &[usize]| {
        let n = i.n;
        let m = i.na();
        let opt = held_karp(i).0;
        let seed = c.rng.u64();
        let mut lows: Vec<(String, f64)> = vec![];
        let mut trees: Vec<(String, f64)> = vec![];
        let mut ups: Vec<(String, f64)> = vec![];
        macro_rules! run {
            ($v:ident, $name:expr, $e:expr) => {
                match c.call($name, || $e) {
                    Some(x) => $v.push(($name.to_string(), x)),
                    None => return,
                }
            };
        }
        run!(trees, "MST, sequential", prim::<SEQ_COMPUTATION>(&m).undirected_edge_weight());
        run!(trees, "MST, multi-threaded", prim::<PAR_COMPUTATION>(&m).undirected_edge_weight());
        run!(trees, "MST, priority queue", prim_with_excluded_node_priority_queue(&m, &[]).undirected_edge_weight());
        run!(lows, "1-tree, sequential", one_tree_lower_bound::<SEQ_COMPUTATION>(&m));
        run!(lows, "1-tree, multi-threaded", one_tree_lower_bound::<PAR_COMPUTATION>(&m));
        run!(ups, "nearest neighbour, sequential", nearest_neighbour::<SEQ_COMPUTATION>(&m).0);
        run!(ups, "nearest neighbour, multi-threaded", nearest_neighbour::<PAR_COMPUTATION>(&m).0);
        let s = c.rng.below(n);
        run!(ups, "single nearest neighbour", single_nearest_neighbour(&m, s).0);
        if i.metric {
            run!(ups, "Christofides, sequential", with_seed(seed, || christofides::<SEQ_COMPUTATION>(&m).0));
            run!(ups, "Christofides, multi-threaded", with_seed(seed, || christofides::<PAR_COMPUTATION>(&m).0));
        }
        for &v in exact {
            run!(ups, NAMES[v], solve_na(v, &m).0);
        }
        run!(ups, "exact, multi-threaded", threaded_solver(&m).0);
        for (a, t) in &trees {
            for (b, l) in &lows {
                if !le(*t, *l) || t.is_nan() || l.is_nan() {
                    c.fail(format!("{a} gives {t:?}, more than {b} with {l:?}; {}", i.text()));
                }
            }
            if i.metric && !le(opt, 2.0 * *t) {
                c.fail(format!("the optimum is {opt:?}, more than twice {a} with {t:?}; {}", i.text()));
            }
        }
        for (b, l) in &lows {
            if !le(*l, opt) {
                c.fail(format!("{b} gives {l:?}, more than the optimum {opt:?}; {}", i.text()));
            }
        }
        for (a, u) in &ups {
            if !le(opt, *u) || u.is_nan() {
                c.fail(format!("{a} reports {u:?}, below the optimum {opt:?}; {}", i.text()));
            }
            for (b, l) in trees.iter().chain(lows.iter()) {
                if !le(*l, *u) {
                    c.fail(format!("{b} gives {l:?}, more than the tour cost {u:?} reported by {a}; {}", i.text()));
                }
            }
        }
        if opt > 0.0 {
            c.max("largest 1-tree bound relative to the optimum", lows[0].1 / opt);
            c.max("largest tour relative to the optimum on metric instances", if i.metric { ups.iter().map(|u| u.1).fold(0.0, f64::max) / opt } else { 0.0 });
        }
        c.count("order relations checked", (trees.len() * lows.len() + lows.len() + ups.len() * (1 + trees.len() + lows.len())) as u64);
        c.eval(&format!("{}/n={}", i.class, n), i.hash(), i.nontrivial() && n >= 4);
        c.sample(i.class, || format!("{} optimum {opt:?} trees {trees:?} 1-trees {lows:?} tours {ups:?}", i.text()));
    };
    ctx.phase("small", ctx.n(3500, 120_000), 8, |c| {
        let n = *c.rng.pick(&[2, 3, 4, 5, 6, 6, 7, 7]);
        let i = inst::random_general(&mut c.rng, n);
        one(c, &i, &[0, 1, 2, 3, 4, 5, 6]);
    });
    ctx.phase("metric", ctx.n(1200, 40_000), 8, |c| {
        let n = c.rng.range(4, 8);
        let k = *c.rng.pick(METRIC);
        let i = inst::make(&mut c.rng, n, k);
        one(c, &i, &[1, 3, 4, 5, 6]);
    });
    // bounds and approximations beyond the size the exact solvers manage quickly
    ctx.phase("larger", ctx.n(160, 6000), 8, |c| {
        let n = c.rng.range(9, 14);
        let i = if c.rng.chance(0.7) { inst::random_metric(&mut c.rng, n) } else { inst::random_general(&mut c.rng, n) };
        let m = i.na();
        let opt = held_karp(&i).0;
        let seed = c.rng.u64();
        let t = c.call("MST", || prim::<PAR_COMPUTATION>(&m).undirected_edge_weight());
        let o = c.call("1-tree", || one_tree_lower_bound::<SEQ_COMPUTATION>(&m));
        let u = c.call("nearest neighbour", || nearest_neighbour::<PAR_COMPUTATION>(&m).0);
        let x = if i.metric { c.call("Christofides", || with_seed(seed, || christofides::<PAR_COMPUTATION>(&m).0)) } else { Some(f64::INFINITY) };
        if let (Some(t), Some(o), Some(u), Some(x)) = (t, o, u, x) {
            if !(le(t, o) && le(o, opt) && le(opt, u) && le(opt, x) && (!i.metric || le(opt, 2.0 * t))) {
                c.fail(format!("MST {t:?}, 1-tree {o:?}, optimum {opt:?}, nearest neighbour {u:?}, Christofides {x:?} are out of order; {}", i.text()));
            }
        }
        c.eval(&format!("larger/{}", if i.metric { "metric" } else { "general" }), i.hash(), i.nontrivial());
    });
    // far beyond: the order among bounds and tours, with a planted tour as a second upper bound
    ctx.phase("large", ctx.n(40, 1000), 8, |c| {
        let n = match c.rng.below(4) {
            0 => c.rng.range(15, 40),
            1 | 2 => c.rng.range(41, 130),
            _ => c.rng.range(131, 300),
        };
        let i = if c.rng.chance(0.7) { inst::random_metric(&mut c.rng, n) } else { inst::random_general(&mut c.rng, n) };
        let m = i.na();
        let seed = c.rng.u64();
        let mut up = vec![];
        let mut lo = vec![];
        let mut tr = vec![];
        for par in [false, true] {
            let Some(t) = c.call("MST", || if par { prim::<PAR_COMPUTATION>(&m) } else { prim::<SEQ_COMPUTATION>(&m) }.undirected_edge_weight()) else { return };
            tr.push(t);
            let Some(o) = c.call("1-tree", || if par { one_tree_lower_bound::<PAR_COMPUTATION>(&m) } else { one_tree_lower_bound::<SEQ_COMPUTATION>(&m) }) else { return };
            lo.push(o);
            let Some(u) = c.call("nearest neighbour", || if par { nearest_neighbour::<PAR_COMPUTATION>(&m) } else { nearest_neighbour::<SEQ_COMPUTATION>(&m) }.0) else { return };
            up.push(u);
            if i.metric {
                let Some(x) = c.call("Christofides", || with_seed(seed, || if par { christofides::<PAR_COMPUTATION>(&m) } else { christofides::<SEQ_COMPUTATION>(&m) }.0)) else { return };
                up.push(x);
            }
        }
        // any tour bounds the optimum from above
        let p = c.rng.perm(n);
        let any = cycle_cost(&i, &p);
        for &l in &lo {
            for &t in &tr {
                if !le(t, l) || t.is_nan() || l.is_nan() {
                    c.fail(format!("spanning tree {t:?}, 1-tree bound {l:?} are out of order; {}", i.text()));
                    return;
                }
            }
            for &u in up.iter().chain([&any]) {
                if !le(l, u) || u.is_nan() {
                    c.fail(format!("1-tree bound {l:?} exceeds the tour cost {u:?}; {}", i.text()));
                    return;
                }
            }
        }
        if i.metric {
            c.max("largest tour relative to the 1-tree bound, 15 to 300 cities", up.iter().cloned().fold(0.0, f64::max) / lo[0].max(1e-300));
        }
        c.count("order relations checked", (lo.len() * (tr.len() + up.len() + 1)) as u64);
        c.eval(&format!("15 to 300 cities/{}", if i.metric { "metric" } else { "general" }), i.hash(), i.nontrivial());
    });
    (
        "A case is one instance; every bound, every exact solver and every approximation is run on it in its modes and all pairs are compared in the order spanning tree <= 1-tree <= Held-Karp optimum <= tours (optimum up to 14 cities; without it up to 300). Non-trivial: at least 4 cities and more than one distinct cost.",
        vec!["comparisons allow relative 1e-12", "Christofides only on metric instances"],
    )
}
