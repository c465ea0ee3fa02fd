//! C04 - C08
use crate::core::{Case, Ctx};
use crate::inst::{self, Inst, METRIC};
use crate::oracle::*;
use crate::rng::{hash_bytes, mix, Rng};
use std::cell::RefCell;
use walky::computation_mode::{PAR_COMPUTATION, SEQ_COMPUTATION};
use walky::datastructures::{Graph, NAMatrix, Solution};
use walky::mst::prim;
use walky::solvers::approximate::christofides::{christofides, christofides_generic};
use walky::solvers::approximate::matching::approx_min_cost_matching;
use walky::solvers::approximate::nearest_neighbour::{n_nearest_neighbour, nearest_neighbour, single_nearest_neighbour};

/// Run `f` in a fresh thread whose random stream starts from `seed`.
pub fn with_seed<R: Send>(seed: u64, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        s.spawn(|| {
            getrandom::det_seed(seed);
            f()
        })
        .join()
        .unwrap_or_else(|e| std::panic::resume_unwind(e))
    })
}

pub fn pool(n: usize) -> Option<rayon::ThreadPool> {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().ok()
}

fn size(r: &mut Rng) -> usize {
    match r.below(10) {
        0 => r.range(2, 3),
        1..=4 => r.range(4, 9),
        5..=7 => r.range(10, 40),
        8 => r.range(41, 90),
        _ => r.range(91, 200),
    }
}

pub fn c04(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let one = |c: &mut Case, i: &Inst, starts: &[usize]| {
        let m = i.na();
        for &s in starts {
            if let Some(sol) = c.call("single_nearest_neighbour", || single_nearest_neighbour(&m, s)) {
                if let Err(e) = check_nn(i, s, &sol) {
                    c.fail(format!("start {s}: {e}; {}", i.text()));
                    return;
                }
                c.count("tours checked step by step", 1);
            }
        }
        c.eval(&format!("{}/{}", i.class, if i.n < 10 { "small" } else { "large" }), i.hash(), i.nontrivial() && i.n >= 4);
        c.sample(i.class, || format!("{} starts {:?}", i.text(), &starts[..starts.len().min(10)]));
    };
    ctx.phase("all-starts", ctx.n(12_000, 400_000), 8, |c| {
        let n = size(&mut c.rng);
        let i = inst::random_general(&mut c.rng, n);
        let starts: Vec<usize> = if n <= 40 { (0..n).collect() } else { (0..8).map(|_| c.rng.below(n)).chain([0, n - 1]).collect() };
        one(c, &i, &starts);
    });
    ctx.phase("big", ctx.n(24, 600), 8, |c| {
        let n = c.rng.range(256, 700);
        let i = inst::random_general(&mut c.rng, n);
        let starts: Vec<usize> = (0..4).map(|_| c.rng.below(n)).chain([0, n - 1]).collect();
        one(c, &i, &starts);
    });
    (
        "A case is one instance (2 to 700 cities) with all (large: several) start cities; every step of every tour is checked to go to a cheapest free city. Non-trivial: at least 4 cities and more than one distinct cost.",
        vec![],
    )
}

fn nn_mode(par: bool, m: &NAMatrix, k: Option<usize>) -> Solution {
    match (par, k) {
        (false, Some(k)) => n_nearest_neighbour::<SEQ_COMPUTATION>(m, k),
        (true, Some(k)) => n_nearest_neighbour::<PAR_COMPUTATION>(m, k),
        (false, None) => nearest_neighbour::<SEQ_COMPUTATION>(m),
        (true, None) => nearest_neighbour::<PAR_COMPUTATION>(m),
    }
}

pub fn c05(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let singles = |c: &mut Case, m: &NAMatrix, n: usize| -> Option<Vec<f64>> {
        let mut v = vec![];
        for s in 0..n {
            v.push(c.call("single_nearest_neighbour", || single_nearest_neighbour(m, s))?.0);
        }
        Some(v)
    };
    let check = |c: &mut Case, i: &Inst, single: &[f64], k: usize, who: &str, s: &Solution| {
        if s.1.is_empty() {
            c.fail(format!("{who}: empty path; {}", i.text()));
            return;
        }
        let start = s.1[0];
        if let Err(e) = check_nn(i, start, s) {
            c.fail(format!("{who} (k={k}): {e}; {}", i.text()));
            return;
        }
        if start >= i.n || !close(s.0, single[start]) {
            c.fail(format!("{who} (k={k}): reports {:?} for start {start}, the tour from there costs {:?}; {}", s.0, single[start], i.text()));
            return;
        }
        // k distinct starts miss at most n-k better ones
        let mut sorted = single.to_vec();
        sorted.sort_by(f64::total_cmp);
        let worst = sorted[i.n - k];
        if !le(s.0, worst) {
            c.fail(format!("{who} (k={k} of {}): reports {:?}, but the best of any {k} distinct starts costs at most {worst:?}; {}", i.n, s.0, i.text()));
        }
        if k == i.n && !close(s.0, sorted[0]) {
            c.fail(format!("{who}: reports {:?}, the best start gives {:?}; {}", s.0, sorted[0], i.text()));
        }
    };
    ctx.phase("modes", ctx.n(3500, 120_000), 8, |c| {
        let n = *c.rng.pick(&[2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 25, 40]);
        let i = inst::random_general(&mut c.rng, n);
        let m = i.na();
        let Some(single) = singles(c, &m, n) else { return };
        for par in [false, true] {
            let who = if par { "multi-threaded" } else { "sequential" };
            if let Some(s) = c.call("nearest_neighbour", || nn_mode(par, &m, None)) {
                check(c, &i, &single, n, who, &s);
            }
            for k in [1, n - 1, n, c.rng.range(1, n)] {
                let k = k.max(1);
                let sd = c.rng.u64();
                if let Some(s) = c.call("n_nearest_neighbour", || with_seed(sd, || nn_mode(par, &m, Some(k)))) {
                    check(c, &i, &single, k, who, &s);
                }
            }
        }
        c.eval(&format!("n={n}"), i.hash(), i.nontrivial() && n >= 4);
        c.sample(&format!("n={n}"), || format!("{} single-start costs {:?}", i.text(), &single[..n.min(8)]));
    });
    ctx.phase("pools", ctx.n(60, 2000), 4, |c| {
        let n = c.rng.range(20, 120);
        let i = inst::random_general(&mut c.rng, n);
        let m = i.na();
        let Some(single) = singles(c, &m, n) else { return };
        for t in [1, 2, 3, 8] {
            let Some(p) = pool(t) else { return };
            let k = c.rng.range(1, n);
            if let Some(s) = c.call("nearest_neighbour", || p.install(|| nn_mode(true, &m, None))) {
                check(c, &i, &single, n, &format!("pool of {t}"), &s);
            }
            if let Some(s) = c.call("n_nearest_neighbour", || p.install(|| nn_mode(true, &m, Some(k)))) {
                check(c, &i, &single, k, &format!("pool of {t}"), &s);
            }
        }
        c.eval("pools", i.hash(), i.nontrivial());
    });
    ctx.phase("big", ctx.n(10, 200), 4, |c| {
        let n = c.rng.range(240, 560);
        let i = inst::random_general(&mut c.rng, n);
        let m = i.na();
        let Some(single) = singles(c, &m, n) else { return };
        for par in [false, true] {
            let who = if par { "multi-threaded" } else { "sequential" };
            if let Some(s) = c.call("nearest_neighbour", || nn_mode(par, &m, None)) {
                check(c, &i, &single, n, who, &s);
            }
            for k in [n, n - 1, c.rng.range(n / 2, n), c.rng.range(1, n)] {
                let sd = c.rng.u64();
                if let Some(s) = c.call("n_nearest_neighbour", || with_seed(sd, || nn_mode(par, &m, Some(k)))) {
                    check(c, &i, &single, k, who, &s);
                }
            }
        }
        c.eval("240 to 560 cities", i.hash(), i.nontrivial());
    });
    // the choice of starts: every start must be able to win, and no start may be left out
    ctx.phase("choice", ctx.n(24, 400), 8, |c| {
        let n = c.rng.range(3, 7);
        // a matrix without ties, so that every start has its own cost
        let i = (0..50).map(|_| inst::make(&mut c.rng, n, "uniform")).find(|i| {
            let mut v: Vec<f64> = (0..n).filter_map(|s| nn_unique(i, s)).collect();
            v.sort_by(f64::total_cmp);
            v.dedup_by(|a, b| close(*a, *b));
            v.len() == n
        });
        let Some(i) = i else { return };
        let m = i.na();
        for par in [false, true] {
            let mut seen = vec![0u32; n];
            for _ in 0..400 {
                let sd = c.rng.u64();
                if let Some(s) = c.call("n_nearest_neighbour", || with_seed(sd, || nn_mode(par, &m, Some(1)))) {
                    if s.1.first().map_or(true, |&v| v >= n) {
                        c.fail(format!("bad path {:?}", s.1));
                        return;
                    }
                    seen[s.1[0]] += 1;
                }
            }
            // a uniformly chosen start stays unseen in 400 draws with probability below 1e-26
            if let Some(z) = seen.iter().position(|&x| x == 0) {
                c.fail(format!("start {z} of {n} was never used in 400 random single starts: {seen:?} (parallel: {par})"));
                return;
            }
            c.sample("choice", || format!("n={n}: starts drawn {seen:?}"));
        }
        c.eval("random start choice", i.hash(), true);
    });
    (
        "A case is one instance; the tours of all single starts are the reference for all-start and k-start runs in both modes and several pool sizes: the winner must be a greedy tour from its own first city, cost what it reports, and be at most the cost that any k distinct starts guarantee (the all-start minimum for k = n). Non-trivial: at least 4 cities and more than one distinct cost.",
        vec![],
    )
}

// ---------------------------------------------------------------- Christofides

#[derive(Clone, Default)]
pub struct Seen {
    pub odd: Vec<usize>,
    pub matching: Vec<[usize; 2]>,
    pub mst_weight: f64,
    pub edges: usize,
    pub calls: u32,
}

thread_local! {
    static MODE: RefCell<(u8, u64)> = const { RefCell::new((0, 0)) };
    static SEEN: RefCell<Seen> = RefCell::new(Seen::default());
}

fn inst_of(g: &NAMatrix) -> Inst {
    let n = g.nrows();
    let mut c = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..n {
            c[i * n + j] = g[(i, j)];
        }
    }
    Inst { n, c, class: "", metric: true }
}

/// The matching step handed to `christofides_generic`: records what it was given and answers with
/// a perfect matching of the requested kind.
fn matcher(mst: &Graph, g: &NAMatrix) -> Vec<[usize; 2]> {
    let (mode, seed) = MODE.with(|m| *m.borrow());
    let mut r = Rng::new(seed);
    let odd: Vec<usize> = mst.iter().enumerate().filter(|(_, v)| v.degree() % 2 == 1).map(|(i, _)| i).collect();
    let mut m = match mode {
        // minimum weight
        0 if odd.len() <= 14 => min_matching(&inst_of(g), &odd).1,
        // maximum weight
        1 if odd.len() <= 14 => {
            let mut i = inst_of(g);
            let mx = i.max();
            i.c.iter_mut().for_each(|x| *x = mx - *x);
            min_matching(&i, &odd).1
        }
        // prefer pairs that are tree edges already
        2 => {
            let mut left = odd.clone();
            r.shuffle(&mut left);
            let mut m = vec![];
            while let Some(a) = left.pop() {
                let k = left.iter().position(|&b| mst[a].iter().any(|e| e.to == b)).unwrap_or(0);
                let b = left.swap_remove(k);
                m.push([a, b]);
            }
            m
        }
        // walky's own randomised matching
        3 => {
            let t = odd.len() * odd.len();
            approx_min_cost_matching::<SEQ_COMPUTATION>(g, odd.clone(), t)
        }
        _ => {
            let mut o = odd.clone();
            r.shuffle(&mut o);
            o.chunks(2).map(|c| [c[0], c[1]]).collect()
        }
    };
    for e in m.iter_mut() {
        if r.chance(0.5) {
            e.swap(0, 1);
        }
    }
    r.shuffle(&mut m);
    SEEN.with(|s| {
        let mut s = s.borrow_mut();
        s.calls += 1;
        s.odd = odd;
        s.matching = m.clone();
        s.mst_weight = mst.iter().flat_map(|v| v.iter().map(|e| e.cost)).sum::<f64>() / 2.0;
        s.edges = mst.iter().map(|v| v.degree()).sum::<usize>() / 2;
    });
    m
}

fn chr(par: bool, m: &NAMatrix) -> Solution {
    if par {
        christofides::<PAR_COMPUTATION>(m)
    } else {
        christofides::<SEQ_COMPUTATION>(m)
    }
}

fn chr_gen(par: bool, m: &NAMatrix, mode: u8, seed: u64) -> (Solution, Seen) {
    MODE.with(|x| *x.borrow_mut() = (mode, seed));
    SEEN.with(|s| *s.borrow_mut() = Seen::default());
    let s = if par {
        christofides_generic::<PAR_COMPUTATION>(m, matcher)
    } else {
        christofides_generic::<SEQ_COMPUTATION>(m, matcher)
    };
    (s, SEEN.with(|s| s.borrow().clone()))
}

pub fn check_closed(i: &Inst, s: &Solution) -> Result<(), String> {
    let p = &s.1;
    if p.len() != i.n + 1 || p.first() != p.last() || !is_perm(&p[..p.len() - 1], i.n) {
        return Err(format!("walk {:?} is no closed tour of {} cities", &p[..p.len().min(40)], i.n));
    }
    let w = walk_cost(i, p);
    if !close(w, s.0) {
        return Err(format!("reported cost {:?}, the walk costs {w:?}", s.0));
    }
    Ok(())
}

const KIND: [&str; 5] = ["minimum matching", "maximum matching", "tree-overlapping matching", "randomised matching", "random matching"];

pub fn c06(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let one = |c: &mut Case, i: &Inst| {
        let m = i.na();
        for par in [false, true] {
            let who = if par { "multi-threaded" } else { "sequential" };
            let sd = c.rng.u64();
            if let Some(s) = c.call("christofides", || with_seed(sd, || chr(par, &m))) {
                if let Err(e) = check_closed(i, &s) {
                    c.fail(format!("{who}: {e}; {}", i.text()));
                    return;
                }
                c.count("walks checked", 1);
            }
            let mode = c.rng.below(5) as u8;
            let sd = c.rng.u64();
            if let Some((s, seen)) = c.call("christofides_generic", || with_seed(sd, || chr_gen(par, &m, mode, sd))) {
                if let Err(e) = check_closed(i, &s) {
                    c.fail(format!("{who} with a {} {:?}: {e}; {}", KIND[mode as usize], &seen.matching[..seen.matching.len().min(20)], i.text()));
                    return;
                }
                c.count("walks checked", 1);
                c.count(&format!("walks with a {}", KIND[mode as usize]), 1);
                c.max("largest number of odd vertices", seen.odd.len() as f64);
            }
        }
        c.eval(&format!("{}/{}", i.class, if i.n < 10 { "small" } else { "large" }), i.hash(), i.nontrivial() && i.n >= 4);
        c.sample(i.class, || i.text());
    };
    ctx.phase("grid", METRIC.len() as u64 * ctx.n(8, 40), 8, |c| {
        let class = METRIC[c.idx as usize % METRIC.len()];
        let n = 2 + c.idx as usize / METRIC.len();
        let i = inst::make(&mut c.rng, n, class);
        one(c, &i);
    });
    ctx.phase("random", ctx.n(6000, 200_000), 8, |c| {
        let n = match c.rng.below(8) {
            0..=4 => c.rng.range(2, 14),
            5..=6 => c.rng.range(15, 50),
            _ => c.rng.range(51, 110),
        };
        let i = inst::random_metric(&mut c.rng, n);
        one(c, &i);
    });
    ctx.phase("big", ctx.n(10, 200), 4, |c| {
        let n = c.rng.range(180, 330);
        let i = inst::random_metric(&mut c.rng, n);
        one(c, &i);
    });
    ctx.phase("huge", ctx.n(3, 40), 3, |c| {
        let n = c.rng.range(520, 700);
        let k = *c.rng.pick(&["euclid", "clustered", "duplicates", "l1-int", "one-two", "star"]);
        let i = inst::make(&mut c.rng, n, k);
        one(c, &i);
    });
    ctx.phase("pools", ctx.n(80, 2000), 4, |c| {
        let n = c.rng.range(5, 80);
        let i = inst::random_metric(&mut c.rng, n);
        let m = i.na();
        for t in [1, 2, 3, 8] {
            let Some(p) = pool(t) else { return };
            let mode = c.rng.below(5) as u8;
            let sd = c.rng.u64();
            if let Some((s, _)) = c.call("christofides_generic", || p.install(|| chr_gen(true, &m, mode, sd))) {
                if let Err(e) = check_closed(&i, &s) {
                    c.fail(format!("pool of {t}: {e}; {}", i.text()));
                }
            }
        }
        c.eval("pools", i.hash(), i.nontrivial());
    });
    (
        "A case is one metric instance (19 classes, 2 to 700 cities) run in both modes with the built-in random matching and with a supplied minimum, maximum, tree-overlapping or random perfect matching; each walk is checked to be closed, to visit every city once and to cost what is reported. Non-trivial: at least 4 cities and more than one distinct cost.",
        vec!["costs are compared to relative 1e-12"],
    )
}

/// `a <= b` with room for the rounding in instances that are metric only up to rounding
fn le_metric(a: f64, b: f64) -> bool {
    a <= b || a - b <= 1e-9 * b.abs()
}

pub fn c07(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let one = |c: &mut Case, i: &Inst, opt: Option<f64>, pools: bool| {
        let m = i.na();
        let mst = mst_all(i);
        let pl = if pools { pool(c.rng.range(1, 8)) } else { None };
        for par in [false, true] {
            let who = if par { "multi-threaded" } else { "sequential" };
            for mode in 0..5u8 {
                let sd = c.rng.u64();
                let r = c.call("christofides_generic", || match (&pl, par) {
                    (Some(p), true) => p.install(|| chr_gen(par, &m, mode, sd)),
                    _ => with_seed(sd, || chr_gen(par, &m, mode, sd)),
                });
                let Some((s, seen)) = r else { return };
                let kind = KIND[mode as usize];
                if seen.calls != 1 {
                    c.fail(format!("{who}: the matching step ran {} times; {}", seen.calls, i.text()));
                    return;
                }
                if !close(seen.mst_weight, mst) || seen.edges != i.n - 1 {
                    c.fail(format!("{who}: the tree given to the matching step weighs {:?} with {} edges, the minimum is {mst:?}; {}", seen.mst_weight, seen.edges, i.text()));
                    return;
                }
                let mc = matching_cost(i, &seen.matching);
                if mode == 3 {
                    if let Err(e) = check_matching(&seen.matching, &seen.odd) {
                        c.fail(format!("{who}: {e}; {}", i.text()));
                        return;
                    }
                }
                // the cost of the walk itself is what counts, not only the reported number
                let w = if s.1.iter().all(|&v| v < i.n) { walk_cost(i, &s.1) } else { f64::NAN };
                for (what, cost) in [("reported cost", s.0), ("walk", w)] {
                    if !le_metric(cost, mst + mc) {
                        c.fail(format!("{who} with a {kind}: {what} {cost:?} exceeds tree {mst:?} + matching {mc:?} = {:?}; {}", mst + mc, i.text()));
                        return;
                    }
                    if let Some(o) = opt {
                        if !le_metric(o, cost) {
                            c.fail(format!("{who} with a {kind}: {what} {cost:?} is below the optimum {o:?}; {}", i.text()));
                            return;
                        }
                        if mode == 0 && seen.odd.len() <= 14 && !le_metric(cost, 1.5 * o) {
                            c.fail(format!("{who} with a minimum matching: {what} {cost:?} exceeds 1.5 times the optimum {o:?}; {}", i.text()));
                            return;
                        }
                        if mode == 0 && o > 0.0 {
                            c.max("largest ratio to the optimum with a minimum matching", cost / o);
                        }
                    }
                }
                c.count("bounds checked", 1);
                c.count(&format!("runs with {} odd vertices", if seen.odd.len() > 8 { ">8".to_string() } else { seen.odd.len().to_string() }), 1);
            }
            // the built-in matching: exact when it has at most two pairs, between minimum and
            // maximum otherwise
            let sd = c.rng.u64();
            let Some((_, seen)) = c.call("christofides_generic", || with_seed(sd, || chr_gen(par, &m, 4, sd))) else { return };
            if seen.odd.len() <= 14 {
                let lo = min_matching(i, &seen.odd).0;
                let hi = if seen.odd.len() <= 4 {
                    lo
                } else {
                    let mut j = i.clone();
                    let mx = j.max();
                    j.c.iter_mut().for_each(|x| *x = mx - *x);
                    mx * (seen.odd.len() / 2) as f64 - min_matching(&j, &seen.odd).0
                };
                for _ in 0..3 {
                    let sd = c.rng.u64();
                    let Some(s) = c.call("christofides", || with_seed(sd, || chr(par, &m))) else { return };
                    if !le_metric(s.0, mst + hi) {
                        c.fail(format!("{who}: cost {:?} exceeds tree {mst:?} + heaviest possible matching {hi:?} ({} odd vertices); {}", s.0, seen.odd.len(), i.text()));
                        return;
                    }
                    if let Some(o) = opt {
                        if !le_metric(o, s.0) {
                            c.fail(format!("{who}: cost {:?} is below the optimum {o:?}; {}", s.0, i.text()));
                            return;
                        }
                        if seen.odd.len() <= 4 && !le_metric(s.0, 1.5 * o) {
                            c.fail(format!("{who}: cost {:?} exceeds 1.5 times the optimum {o:?} although the matching is minimum; {}", s.0, i.text()));
                            return;
                        }
                    }
                    c.count("runs with the built-in matching", 1);
                }
            }
        }
        c.eval(&format!("{}/{}", i.class, if opt.is_some() { "with optimum" } else { "large" }), i.hash(), i.nontrivial() && i.n >= 4);
        c.sample(i.class, || format!("{} mst={mst:?} optimum={opt:?}", i.text()));
    };
    ctx.phase("grid", METRIC.len() as u64 * 9, 8, |c| {
        let class = METRIC[c.idx as usize % METRIC.len()];
        let n = 2 + c.idx as usize / METRIC.len();
        let i = inst::make(&mut c.rng, n, class);
        let o = held_karp(&i).0;
        one(c, &i, Some(o), false);
    });
    ctx.phase("small", ctx.n(2500, 80_000), 8, |c| {
        let n = c.rng.range(3, 11);
        let i = inst::random_metric(&mut c.rng, n);
        let o = held_karp(&i).0;
        one(c, &i, Some(o), false);
    });
    ctx.phase("large", ctx.n(160, 5000), 8, |c| {
        let n = c.rng.range(12, 90);
        let i = inst::random_metric(&mut c.rng, n);
        one(c, &i, None, false);
    });
    ctx.phase("big", ctx.n(6, 100), 3, |c| {
        let n = c.rng.range(130, 400);
        let i = inst::random_metric(&mut c.rng, n);
        one(c, &i, None, false);
    });
    ctx.phase("pools", ctx.n(120, 3000), 4, |c| {
        let n = c.rng.range(4, 10);
        let i = inst::random_metric(&mut c.rng, n);
        let o = held_karp(&i).0;
        one(c, &i, Some(o), true);
    });
    (
        "A case is one metric instance; the matching step is replaced by a recorder that answers with a minimum, maximum, tree-overlapping, randomised or random perfect matching, and the cost is compared with tree + matching and (up to 11 cities) with the optimum and 1.5 times the optimum; the built-in matching is bounded by the heaviest perfect matching and by the minimum one when only two pairs exist. Non-trivial: at least 4 cities and more than one distinct cost.",
        vec!["inequalities carry a relative tolerance of 1e-9 because instances are metric up to rounding"],
    )
}

// ---------------------------------------------------------------- matching

fn amm(par: bool, m: &NAMatrix, vs: Vec<usize>, tries: usize) -> Vec<[usize; 2]> {
    if par {
        approx_min_cost_matching::<PAR_COMPUTATION>(m, vs, tries)
    } else {
        approx_min_cost_matching::<SEQ_COMPUTATION>(m, vs, tries)
    }
}

fn canon(m: &[[usize; 2]]) -> Vec<[usize; 2]> {
    let mut v: Vec<[usize; 2]> = m.iter().map(|&[a, b]| [a.min(b), a.max(b)]).collect();
    v.sort();
    v
}

fn subset(r: &mut Rng, n: usize, k: usize) -> Vec<usize> {
    let mut p = r.perm(n);
    p.truncate(k);
    if r.chance(0.3) {
        p.sort();
    }
    p
}

/// Exchanges pairs (2k, 2k+1) of `v` until no exchange between two pairs is cheaper.
fn exchange(i: &Inst, v: &mut [usize]) {
    let mut again = true;
    while again {
        again = false;
        for a in (0..v.len()).step_by(2) {
            for b in (0..a).step_by(2) {
                let (p, q, r, s) = (v[a], v[a + 1], v[b], v[b + 1]);
                let cur = i.g(p, q) + i.g(r, s);
                let (x, y) = (i.g(p, r) + i.g(q, s), i.g(p, s) + i.g(q, r));
                if x.min(y) < cur * (1.0 - 1e-12) {
                    (v[a], v[a + 1], v[b], v[b + 1]) = if x <= y { (p, r, q, s) } else { (p, s, q, r) };
                    again = true;
                }
            }
        }
    }
}

pub fn c08(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let perfect = |c: &mut Case, i: &Inst, vs: &[usize], m: &[[usize; 2]], who: &str| -> bool {
        if let Err(e) = check_matching(m, vs) {
            c.fail(format!("{who}: {e} (given {:?}, got {:?}); {}", &vs[..vs.len().min(30)], &m[..m.len().min(30)], i.text()));
            return false;
        }
        true
    };
    ctx.phase("perfect", ctx.n(14_000, 400_000), 8, |c| {
        let n = *c.rng.pick(&[2, 4, 5, 6, 8, 10, 13, 20, 40]);
        let i = inst::random_general(&mut c.rng, n);
        let k = 2 * c.rng.range(0, n / 2);
        let vs = subset(&mut c.rng, n, k);
        let m = i.na();
        let tries = *c.rng.pick(&[0, 1, 1, 2, 3, 10, 40]);
        let (s1, s2) = (c.rng.u64(), c.rng.u64());
        for (par, sd) in [(false, s1), (true, s2)] {
            let who = format!("{} with {tries} rounds", if par { "multi-threaded" } else { "sequential" });
            let v = vs.clone();
            let Some(got) = c.call("matching", || with_seed(sd, || amm(par, &m, v, tries))) else { return };
            if !perfect(c, &i, &vs, &got, &who) {
                return;
            }
            // two pairs: one round decides among all three pairings
            if k == 4 && tries >= 1 {
                let best = min_matching(&i, &vs).0;
                let w = matching_cost(&i, &got);
                if !close(w, best) {
                    c.fail(format!("{who}: two pairs cost {w:?}, the cheapest pairing costs {best:?} (vertices {vs:?}, got {got:?}); {}", i.text()));
                    return;
                }
                c.count("two-pair optimality checks", 1);
            }
        }
        c.eval(&format!("k={k}"), mix(i.hash() ^ hash_bytes(format!("{vs:?}{tries}").as_bytes())), k >= 4 && i.nontrivial());
        c.sample(&format!("k={k}"), || format!("{} vertices {vs:?} rounds {tries}", i.text()));
    });
    // all vertices equal in cost: the matching must stay the start matching; used to learn whether
    // a run with 0 rounds and a run with more rounds share their starting point
    let coupled = |par: bool, n: usize, seed: u64| -> bool {
        let i = Inst { n, c: vec![1.0; n * n], class: "all-equal", metric: true };
        let m = i.na();
        let run = |t: usize| crate::core::guarded(|| with_seed(seed, || amm(par, &m, (0..n).collect(), t))).unwrap_or_default();
        let (a, b, d) = (canon(&run(0)), canon(&run(1)), canon(&run(5)));
        a == b && b == d
    };
    ctx.phase("monotone", ctx.n(5000, 150_000), 8, |c| {
        let k = 2 * c.rng.range(2, 10);
        let n = k + c.rng.below(5);
        let i = inst::random_general(&mut c.rng, n);
        let m = i.na();
        let vs = subset(&mut c.rng, n, k);
        for par in [false, true] {
            let sd = c.rng.u64();
            if !coupled(par, n.max(k), sd) {
                c.count("runs whose starting matching could not be recovered", 1);
                continue;
            }
            let who = if par { "multi-threaded" } else { "sequential" };
            let mut last = f64::INFINITY;
            for t in [0usize, 1, 2, 3, 7, 20] {
                let v = vs.clone();
                let Some(got) = c.call("matching", || with_seed(sd, || amm(par, &m, v, t))) else { return };
                if !perfect(c, &i, &vs, &got, who) {
                    return;
                }
                let w = matching_cost(&i, &got);
                if !le(w, last) {
                    c.fail(format!("{who}: the matching costs {w:?} after {t} rounds but {last:?} after fewer, from the same start; {}", i.text()));
                    return;
                }
                last = w;
            }
            c.count("improvement histories followed", 1);
        }
        c.eval("monotone", mix(i.hash() ^ hash_bytes(format!("{vs:?}").as_bytes())), i.nontrivial());
    });
    // mean effect of rounds, independent of how randomness is drawn
    ctx.phase("mean", ctx.n(40, 600), 8, |c| {
        let k = 2 * c.rng.range(3, 8);
        let i = inst::make(&mut c.rng, k, "uniform");
        let m = i.na();
        for par in [false, true] {
            let mut sum = [0.0f64; 2];
            let mut sq = [0.0f64; 2];
            const R: usize = 120;
            for (a, t) in [(0, 0usize), (1, 3)] {
                for _ in 0..R {
                    let sd = c.rng.u64();
                    let Some(got) = c.call("matching", || with_seed(sd, || amm(par, &m, (0..k).collect(), t))) else { return };
                    let w = matching_cost(&i, &got);
                    sum[a] += w;
                    sq[a] += w * w;
                }
            }
            let mean = [sum[0] / R as f64, sum[1] / R as f64];
            let var = |a: usize| (sq[a] / R as f64 - mean[a] * mean[a]).max(0.0);
            let sigma = ((var(0) + var(1)) / R as f64).sqrt();
            if mean[1] > mean[0] + 8.0 * sigma {
                c.fail(format!("on average over {R} runs the matching costs {:?} after 3 rounds and {:?} before (sigma {sigma:?}, parallel {par}); {}", mean[1], mean[0], i.text()));
                return;
            }
        }
        c.eval("mean", i.hash(), true);
    });
    ctx.phase("local-optimum", ctx.n(260, 8000), 8, |c| {
        let pairs = c.rng.range(2, 6);
        let n = 2 * pairs + c.rng.below(3);
        let i = inst::random_general(&mut c.rng, n);
        let m = i.na();
        let vs = subset(&mut c.rng, n, 2 * pairs);
        for par in [false, true] {
            let t = if par { 1500 } else { 3000 };
            let v = vs.clone();
            let sd = c.rng.u64();
            let Some(got) = c.call("matching", || with_seed(sd, || amm(par, &m, v, t))) else { return };
            if !perfect(c, &i, &vs, &got, "many rounds") {
                return;
            }
            for a in 0..got.len() {
                for b in 0..a {
                    let ([p, q], [r, s]) = (got[a], got[b]);
                    let cur = i.g(p, q) + i.g(r, s);
                    let alt = (i.g(p, r) + i.g(q, s)).min(i.g(p, s) + i.g(q, r));
                    if !le(cur, alt) {
                        c.fail(format!("after {t} rounds on {pairs} pairs (parallel {par}) exchanging {:?} and {:?} still saves {:?}; {}", got[a], got[b], cur - alt, i.text()));
                        return;
                    }
                }
            }
            c.count("local optimality checks", 1);
        }
        c.eval("local-optimum", mix(i.hash() ^ hash_bytes(format!("{vs:?}").as_bytes())), i.nontrivial());
        c.sample(&format!("pairs={pairs}"), || i.text());
    });
    ctx.phase("pools", ctx.n(100, 3000), 4, |c| {
        let n = 2 * c.rng.range(3, 150);
        let i = inst::random_general(&mut c.rng, n);
        let m = i.na();
        for t in [1, 2, 5, 8] {
            let Some(p) = pool(t) else { return };
            let tries = c.rng.range(1, 20);
            let Some(got) = c.call("matching", || p.install(|| amm(true, &m, (0..n).collect(), tries))) else { return };
            let vs: Vec<usize> = (0..n).collect();
            if !perfect(c, &i, &vs, &got, &format!("pool of {t}, {tries} rounds")) {
                return;
            }
        }
        c.eval("pools", i.hash(), i.nontrivial());
    });
    // the number of rounds Christofides asks for: the tour must be as cheap as with a matching no
    // exchange improves
    ctx.phase("christofides", ctx.n(28, 400), 4, |c| {
        let n = if c.idx % 4 == 3 { c.rng.range(380, 760) } else { c.rng.range(60, 380) };
        let k = *c.rng.pick(&["euclid", "euclid", "clustered", "l1-int"]);
        let i = inst::make(&mut c.rng, n, k);
        let m = i.na();
        let mst = prim::<SEQ_COMPUTATION>(&m);
        let odd: Vec<usize> = (0..n).filter(|&v| mst.vertex_degree(v) % 2 == 1).collect();
        let mut local = 0.0f64;
        for _ in 0..3 {
            let mut o = c.rng.perm(odd.len()).into_iter().map(|k| odd[k]).collect::<Vec<_>>();
            exchange(&i, &mut o);
            local = local.max(o.chunks_exact(2).map(|p| i.g(p[0], p[1])).sum());
        }
        let bound = mst.undirected_edge_weight() + 1.5 * local;
        let par = c.idx % 2 == 1;
        let sd = c.rng.u64();
        let run = || if par { christofides::<PAR_COMPUTATION>(&m) } else { christofides::<SEQ_COMPUTATION>(&m) };
        let Some((w, _)) = c.call("christofides", || with_seed(sd, run)) else { return };
        if !le_metric(w, bound) {
            c.fail(format!("Christofides (parallel {par}) on {n} cities ({k}) costs {w:?}, with any matching that no exchange improves it would cost at most about {bound:?} (tree {:?}, such a matching {local:?})", mst.undirected_edge_weight()));
            return;
        }
        c.max("largest Christofides cost relative to tree + 1.5 times a locally optimal matching", w / bound);
        c.eval("christofides", i.hash(), true);
    });
    // large enough for rayon to split the pairs between threads
    ctx.phase("split", ctx.n(2, 10), 1, |c| {
        let n = 8400 + 2 * c.rng.below(700);
        use walky::datastructures::AdjacencyMatrix;
        let p = inst::points(&mut c.rng, n, "euclid");
        let Some(m) = c.call("par_from_points", || NAMatrix::par_from_points(&p)) else { return };
        let vs: Vec<usize> = { let odd = c.rng.below(2); (0..n).filter(|v| n % 2 == 0 || *v != odd).collect() };
        let mut last = f64::INFINITY;
        let sd = c.rng.u64();
        let comparable = coupled(true, 64, sd);
        for t in [0usize, 1, 4, 12] {
            let v = vs.clone();
            let Some(got) = c.call("matching", || with_seed(sd, || amm(true, &m, v, t))) else { return };
            if let Err(e) = check_matching(&got, &vs) {
                c.fail(format!("{n} vertices, {t} rounds, multi-threaded: {e}"));
                return;
            }
            let w: f64 = got.iter().map(|&[a, b]| m.get(a, b)).sum();
            if comparable && !(w <= last * (1.0 + 1e-9)) {
                c.fail(format!("{n} vertices: the matching costs {w:?} after {t} rounds but {last:?} after fewer"));
                return;
            }
            last = w;
        }
        c.eval("split between threads", mix(n as u64 ^ c.idx << 32), true);
        c.count("pairs processed in split runs", n as u64 / 2);
    });
    (
        "A case is (symmetric matrix, vertex subset, number of rounds, random stream) run sequentially and multi-threaded; monitored: the pairs are a perfect matching of exactly the given vertices, two pairs end in the cheapest pairing, cost never rises along an improvement history that shares its start, and after 1500-3000 rounds no two-pair exchange improves; some matchings have more than 4000 pairs so that rayon splits them. Non-trivial: at least two pairs and more than one distinct cost.",
        vec!["a uniformly random pairing of at most 6 pairs meets every two pairs within 1500 rounds (probability of missing one below 1e-100)"],
    )
}
