//! C23, C25
use super::approx::{pool, with_seed};
use super::exact::{solve_na, NAMES};
use super::parse::{run_cli, scratch};
use crate::chaos;
use crate::core::{Case, Ctx};
use crate::inst::{self, Inst, METRIC};
use crate::oracle::*;
use crate::rng::mix;
use walky::computation_mode::{PAR_COMPUTATION, SEQ_COMPUTATION};
use walky::datastructures::{AdjacencyMatrix, NAMatrix};
use walky::mst::{prim, prim_with_excluded_node_priority_queue};
use walky::one_tree::one_tree_lower_bound;
use walky::solvers::approximate::christofides::christofides;
use walky::solvers::approximate::nearest_neighbour::{n_nearest_neighbour, nearest_neighbour, single_nearest_neighbour};
use walky::solvers::exact::threaded_solver;

/// Deterministic quantities: name, value; exact ones only for small instances.
const QUANT: [&str; 8] = [
    "MST, sequential",
    "MST, multi-threaded",
    "MST, priority queue",
    "1-tree bound, sequential",
    "1-tree bound, multi-threaded",
    "nearest neighbour, sequential",
    "nearest neighbour, multi-threaded",
    "exact, multi-threaded",
];

fn quant(k: usize, m: &NAMatrix) -> f64 {
    match k {
        0 => prim::<SEQ_COMPUTATION>(m).undirected_edge_weight(),
        1 => prim::<PAR_COMPUTATION>(m).undirected_edge_weight(),
        2 => prim_with_excluded_node_priority_queue(m, &[]).undirected_edge_weight(),
        3 => one_tree_lower_bound::<SEQ_COMPUTATION>(m),
        4 => one_tree_lower_bound::<PAR_COMPUTATION>(m),
        5 => nearest_neighbour::<SEQ_COMPUTATION>(m).0,
        6 => nearest_neighbour::<PAR_COMPUTATION>(m).0,
        7 => threaded_solver(m).0,
        v => solve_na(v - 8, m).0,
    }
}
fn qname(k: usize) -> String {
    if k < 8 { QUANT[k].into() } else { format!("exact {}", NAMES[k - 8]) }
}

pub fn c23(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let quants = |c: &mut Case, n: usize| -> Vec<usize> {
        let mut v: Vec<usize> = (0..7).collect();
        if n <= 8 {
            v.push(7);
            v.extend((0..3).map(|_| 8 + if n <= 7 { c.rng.below(7) } else { 1 + c.rng.below(6) }));
        }
        v
    };
    let values = |c: &mut Case, m: &NAMatrix, ks: &[usize]| -> Option<Vec<f64>> {
        let mut r = vec![];
        for &k in ks {
            r.push(c.call(&qname(k), || quant(k, m))?);
        }
        Some(r)
    };
    let size = |c: &mut Case| match c.rng.below(64) {
        0..=15 => c.rng.range(2, 4),
        16..=47 => c.rng.range(5, 8),
        48..=61 => c.rng.range(9, 60),
        _ => c.rng.range(60, 270),
    };
    ctx.phase("repeat", ctx.n(700, 25_000), 6, |c| {
        let n = size(c);
        let i = inst::random_general(&mut c.rng, n);
        let m = i.na();
        let ks = quants(c, n);
        let Some(a) = values(c, &m, &ks) else { return };
        for again in 0..2 {
            let b = if again == 0 {
                values(c, &m, &ks)
            } else {
                // whatever pool the caller happens to run in
                let t = *c.rng.pick(&[1, 2, 3, 5, 8, 12]);
                let Some(p) = pool(t) else { return };
                p.install(|| values(c, &m, &ks))
            };
            let Some(b) = b else { return };
            for (x, &k) in ks.iter().enumerate() {
                // sequential computations repeat to the last bit
                let seq = !matches!(k, 1 | 4 | 6 | 7);
                if !close(a[x], b[x]) || (seq && a[x].to_bits() != b[x].to_bits()) {
                    c.fail(format!("{}: first {:?}, again {:?}; {}", qname(k), a[x], b[x], i.text()));
                    return;
                }
            }
            c.count("repetitions compared", ks.len() as u64);
        }
        // sequential and multi-threaded versions of the same quantity
        for (x, y) in [(0, 1), (0, 2), (3, 4), (5, 6)] {
            if !close(a[x], a[y]) {
                c.fail(format!("{} {:?}, {} {:?}; {}", qname(x), a[x], qname(y), a[y], i.text()));
                return;
            }
        }
        for x in 8..ks.len() {
            if !close(a[7], a[x]) {
                c.fail(format!("{} {:?}, {} {:?}; {}", qname(7), a[7], qname(ks[x]), a[x], i.text()));
                return;
            }
        }
        c.eval(&format!("repeat/{}", i.class), i.hash(), i.nontrivial() && n >= 4);
        c.sample("repeat", || format!("{} values {a:?}", i.text()));
    });
    ctx.phase("relabel", ctx.n(3000, 100_000), 8, |c| {
        let n = size(c);
        let i = inst::random_general(&mut c.rng, n);
        let p = c.rng.perm(n);
        let j = i.relabel(&p);
        let mut ks = vec![0, 1, 2, 3, 4];
        if n <= 8 {
            ks.push(7);
            ks.extend((0..3).map(|_| 8 + if n <= 7 { c.rng.below(7) } else { 1 + c.rng.below(6) }));
        }
        let (Some(a), Some(b)) = (values(c, &i.na(), &ks), values(c, &j.na(), &ks)) else { return };
        for (x, &k) in ks.iter().enumerate() {
            if !close(a[x], b[x]) {
                c.fail(format!("{}: {:?}, after renaming the cities by {p:?} {:?}; {}", qname(k), a[x], b[x], i.text()));
                return;
            }
        }
        c.count("renamings compared", ks.len() as u64);
        c.eval(&format!("relabel/{}", i.class), mix(i.hash() ^ j.hash()), i.nontrivial() && n >= 4 && p.iter().enumerate().any(|(a, b)| a != *b));
    });
    ctx.phase("scale", ctx.n(2500, 100_000), 8, |c| {
        let n = size(c);
        let mut i = inst::random_general(&mut c.rng, n);
        if i.class == "tiny" || i.class == "huge" || i.class == "powers" {
            i = inst::make(&mut c.rng, n, "uniform");
        }
        let e = c.rng.range(0, 160) as i32 - 80;
        let f = 2f64.powi(e);
        let ks = quants(c, n);
        let j = i.scaled(f);
        let (Some(a), Some(b)) = (values(c, &i.na(), &ks), values(c, &j.na(), &ks)) else { return };
        for (x, &k) in ks.iter().enumerate() {
            if !close(a[x] * f, b[x]) {
                c.fail(format!("{}: {:?}, with all costs times 2^{e} {:?}; {}", qname(k), a[x], b[x], i.text()));
                return;
            }
        }
        c.count("scalings compared", ks.len() as u64);
        c.eval(&format!("scale/{}", i.class), mix(i.hash() ^ e as u64), i.nontrivial() && n >= 4 && e != 0);
    });
    // the same computation under perturbed schedules
    let seeds = std::sync::atomic::AtomicU64::new(ctx.o.seed);
    let inj = chaos::Injector::start(ctx.o.seed ^ 0x5eed);
    ctx.phase("load", ctx.n(500, 20_000), 4, |c| {
        let n = match c.rng.below(3) {
            0 => c.rng.range(3, 8),
            1 => c.rng.range(9, 40),
            _ => c.rng.range(60, 160),
        };
        let i = inst::random_general(&mut c.rng, n);
        let m = i.na();
        let mut ks = vec![1, 4, 6];
        if n <= 8 {
            ks.push(7);
        }
        let want: Vec<f64> = ks
            .iter()
            .map(|k| match k {
                1 => mst_all(&i),
                4 => one_tree_bound(&i),
                7 => held_karp(&i).0,
                _ => f64::NAN,
            })
            .collect();
        let Some(nn) = c.call("nearest neighbour, sequential", || nearest_neighbour::<SEQ_COMPUTATION>(&m).0) else { return };
        let t = *c.rng.pick(&[1, 2, 3, 4, 6, 8, 12, 16]);
        let Some(p) = pool(t) else { return };
        seeds.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        chaos::level(c.rng.below(4));
        for _ in 0..3 {
            for (x, &k) in ks.iter().enumerate() {
                let Some(v) = c.call(&qname(k), || p.install(|| quant(k, &m))) else {
                    chaos::level(0);
                    return;
                };
                let w = if k == 6 { nn } else { want[x] };
                if !close(v, w) {
                    c.fail(format!("{} in a loaded pool of {t}: {v:?} instead of {w:?}; {}", qname(k), i.text()));
                    chaos::level(0);
                    return;
                }
                c.count("loaded runs compared", 1);
            }
        }
        chaos::level(0);
        c.eval(&format!("load/pool {t}"), mix(i.hash() ^ t as u64), i.nontrivial() && n >= 4);
    });
    drop(inj);
    chaos::level(0);
    ctx.phase("stall", ctx.m(200, 4000), 1, |c| {
        let n = c.rng.range(3, 14);
        let i = inst::random_general(&mut c.rng, n);
        let m = i.na();
        let Some(nn) = c.call("nearest neighbour, sequential", || nearest_neighbour::<SEQ_COMPUTATION>(&m).0) else { return };
        let (mst, one) = (mst_all(&i), one_tree_bound(&i));
        let Some(p) = pool(*c.rng.pick(&[2, 4, 8])) else { return };
        for k in [1, 4, 6] {
            for _ in 0..4 {
                chaos::stalls(1_000_000);
                let v = c.call(&qname(k), || p.install(|| quant(k, &m)));
                chaos::stalls(0);
                let Some(v) = v else { return };
                let w = match k { 1 => mst, 4 => one, _ => nn };
                if !close(v, w) {
                    c.fail(format!("{} with a thread that stalls: {v:?} instead of {w:?}; {}", qname(k), i.text()));
                    return;
                }
                c.count("stalled runs compared", 1);
            }
        }
        c.eval("stall", mix(i.hash() ^ 0x57a11), i.nontrivial() && n >= 4);
    });
    {
        let mut s = ctx.stats.lock().unwrap();
        s.counters.insert("signals injected into threads".into(), chaos::signals());
        s.counters.insert("yields injected at allocations".into(), chaos::yields());
    }
    (
        "A case is one instance whose optimum (all solvers), spanning-tree, 1-tree and nearest-neighbour values are computed repeatedly, after renaming the cities, after scaling by a power of two, or in pools of 1 to 16 threads while signals, yields and sleeps are injected; all values are compared with each other or with references. Non-trivial: at least 4 cities and more than one distinct cost (and a real renaming or scaling).",
        vec!["equality to relative 1e-12", "exact solvers up to 8 cities"],
    )
}

/// The degenerate instances.
fn degenerate(c: &mut Case, n: usize) -> Inst {
    let kinds = [
        "all-zero", "all-equal", "coincident", "collinear-eq", "collinear", "one-apart", "denormal", "smallest", "huge", "near-overflow", "two-points", "zero-one", "huge-and-tiny",
        "one-zero-edge", "star-zero", "circle", "grid", "big-equal", "equal-and-double", "duplicated-pairs", "negative-zero",
    ];
    let kind = kinds[c.rng.below(kinds.len())];
    let set = |metric: bool, f: &mut dyn FnMut(usize, usize) -> f64| {
        let mut v = vec![0.0; n * n];
        for i in 0..n {
            for j in 0..i {
                let x = f(j, i);
                v[i * n + j] = x;
                v[j * n + i] = x;
            }
        }
        Inst { n, c: v, class: kind, metric }
    };
    let r = &mut c.rng;
    match kind {
        "all-zero" | "coincident" => set(true, &mut |_, _| 0.0),
        "negative-zero" => set(true, &mut |_, _| -0.0),
        "all-equal" => {
            let v = *r.pick(&[1.0, 0.1, 1.0 / 3.0, 1e100, 1e-100, 7.0]);
            set(true, &mut |_, _| v)
        }
        "big-equal" => set(true, &mut |_, _| 1e300),
        "collinear-eq" => set(true, &mut |i, j| (j - i) as f64),
        "one-apart" => set(true, &mut |i, _| if i == 0 { 1e6 } else { 0.0 }),
        "denormal" => set(true, &mut |_, _| 5e-324 * 2.0),
        "smallest" => set(true, &mut |_, _| f64::MIN_POSITIVE),
        "huge" => {
            let p: Vec<f64> = (0..n).map(|_| r.below(5) as f64).collect();
            set(true, &mut |i, j| (p[i] - p[j]).abs() * 1e300)
        }
        "near-overflow" => {
            // the costs of any closed tour and of tree plus matching still add up to a finite number
            let v = f64::MAX / (4.0 * n as f64);
            set(true, &mut |_, _| v)
        }
        "two-points" => {
            let h = r.range(1, n - 1);
            set(true, &mut |i, j| if (i < h) != (j < h) { 1.0 } else { 0.0 })
        }
        "zero-one" => set(false, &mut |_, _| r.below(2) as f64),
        "huge-and-tiny" => set(false, &mut |_, _| if r.chance(0.5) { 1e250 } else { 1e-250 }),
        "one-zero-edge" => set(true, &mut |i, j| if (i, j) == (0, 1) { 0.0 } else { 1.0 }),
        "star-zero" => set(false, &mut |i, _| if i == 0 { 0.0 } else { 1.0 }),
        "equal-and-double" => set(true, &mut |_, _| 1.0 + r.below(2) as f64),
        "duplicated-pairs" => {
            let p: Vec<[f64; 2]> = (0..n).map(|_| [r.f(), r.f()]).collect();
            set(true, &mut |i, j| inst::dist(p[i / 2], p[j / 2]))
        }
        k => {
            let k = METRIC.iter().find(|m| **m == k).unwrap();
            inst::make(r, n, k)
        }
    }
}

pub fn c25(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let finite = |c: &mut Case, i: &Inst, who: &str, v: f64| {
        if !v.is_finite() {
            c.fail(format!("{who} returns {v:?}; {}", i.text()));
        }
        c.count(&format!("finite results, {}", who.split(',').next().unwrap_or(who)), 1);
    };
    let poly = |c: &mut Case, i: &Inst| {
        let m = i.na();
        let n = i.n;
        let seed = c.rng.u64();
        macro_rules! run {
            ($who:expr, $e:expr) => {
                match c.call($who, || $e) {
                    Some(v) => finite(c, i, $who, v),
                    None => return,
                }
                if c.failed {
                    return;
                }
            };
        }
        for k in 0..7 {
            run!(QUANT[k], quant(k, &m));
        }
        let s = c.rng.below(n);
        run!("single nearest neighbour", single_nearest_neighbour(&m, s).0);
        let k = c.rng.range(1, n);
        run!("nearest neighbour from k starts, sequential", n_nearest_neighbour::<SEQ_COMPUTATION>(&m, k).0);
        run!("nearest neighbour from k starts, multi-threaded", n_nearest_neighbour::<PAR_COMPUTATION>(&m, k).0);
        if i.metric {
            for par in [false, true] {
                let who = if par { "Christofides, multi-threaded" } else { "Christofides, sequential" };
                let Some((w, p)) = c.call(who, || with_seed(seed, || if par { christofides::<PAR_COMPUTATION>(&m) } else { christofides::<SEQ_COMPUTATION>(&m) })) else { return };
                finite(c, i, who, w);
                if p.len() != n + 1 {
                    c.fail(format!("{who} returns {p:?}; {}", i.text()));
                }
            }
            run!("metric check", if m.is_metric() { 1.0 } else { f64::NAN });
        }
    };
    let exacts = |c: &mut Case, i: &Inst, vs: &[usize]| {
        let m = i.na();
        for &v in vs {
            let Some((w, p)) = c.call(NAMES[v], || solve_na(v, &m)) else { return };
            finite(c, i, NAMES[v], w);
            if !is_perm(&p, i.n) {
                c.fail(format!("{} returns {p:?}; {}", NAMES[v], i.text()));
                return;
            }
        }
        let Some((w, p)) = c.call("exact, multi-threaded", || threaded_solver(&m)) else { return };
        finite(c, i, "exact, multi-threaded", w);
        if !is_perm(&p, i.n) {
            c.fail(format!("threaded solver returns {p:?}; {}", i.text()));
        }
    };
    ctx.phase("small", ctx.n(3200, 100_000), 8, |c| {
        let n = *c.rng.pick(&[2, 2, 3, 3, 4, 4, 5, 6, 7]);
        let i = degenerate(c, n);
        exacts(c, &i, &[0, 1, 2, 3, 4, 5, 6]);
        if !c.failed {
            poly(c, &i);
        }
        c.eval(&format!("{}/n={}", i.class, if n < 4 { n.to_string() } else { ">3".into() }), i.hash(), true);
        c.sample(i.class, || i.text());
    });
    ctx.phase("exact-8", ctx.n(60, 1500), 8, |c| {
        let i = degenerate(c, 8);
        exacts(c, &i, &[1, 2, 3, 4, 5, 6]);
        c.eval(&format!("{}/n=8", i.class), i.hash(), true);
    });
    ctx.phase("large", ctx.n(240, 6000), 8, |c| {
        let n = c.rng.range(9, 120);
        let i = degenerate(c, n);
        poly(c, &i);
        c.eval(&format!("{}/large", i.class), i.hash(), true);
    });
    ctx.phase("huge", ctx.n(8, 60), 4, |c| {
        let n = c.rng.range(300, 500);
        let i = degenerate(c, n);
        let m = i.na();
        for k in [0, 1, 2, 5, 6] {
            let Some(v) = c.call(QUANT[k], || quant(k, &m)) else { return };
            finite(c, &i, QUANT[k], v);
        }
        if i.metric {
            let Some((w, _)) = c.call("Christofides, multi-threaded", || christofides::<PAR_COMPUTATION>(&m)) else { return };
            finite(c, &i, "Christofides, multi-threaded", w);
        }
        c.eval(&format!("{}/huge", i.class), i.hash(), true);
    });
    // the optimised program as users run it
    let cs = super::cli::combos(&["single-threaded", "multi-threaded"]);
    ctx.phase("program", ctx.n(cs.len() as u64 * 6, cs.len() as u64 * 100), 8, |c| {
        let cmd = cs[c.idx as usize % cs.len()].clone();
        let n = if cmd.sub == "exact" { c.rng.range(2, 6) } else { *c.rng.pick(&[2, 2, 3, 3, 4, 5, 9, 40]) };
        let i = loop {
            let i = degenerate(c, n);
            if i.metric || cmd.alg != "christofides" {
                break i;
            }
        };
        let f = scratch(c, "xml");
        if std::fs::write(&f, i.xml()).is_err() {
            c.inconclusive("cannot write a scratch file");
            return;
        }
        let mut a = vec![cmd.sub, cmd.alg, &f, "-p", cmd.mode];
        if let Some(b) = cmd.bound {
            a.extend(["-l", b]);
        }
        let run = run_cli(c, &a);
        let _ = std::fs::remove_file(&f);
        let Some(run) = run else { return };
        let want = super::cli::labels(&cmd);
        let v = if run.code != Some(0) {
            Err("does not succeed".to_string())
        } else {
            super::cli::lines(&run.out, &want, &vec![1; want.len()]).and_then(|v| {
                let x = super::cli::number(&v[0])?;
                if x.is_finite() { Ok(()) } else { Err(format!("prints {x:?}")) }
            })
        };
        if let Err(e) = v {
            c.fail(format!("walky {a:?}: {e}; {}; {}", super::cli::show(&run), i.text()));
        }
        c.eval(&format!("program/{}", i.class), mix(i.hash() ^ crate::rng::hash_bytes(format!("{cmd:?}").as_bytes())), true);
    });
    (
        "A case is one degenerate instance (21 kinds: coincident, collinear, equal, zero, denormal, near-overflow, ...; 2 to 500 cities) on which every algorithm in every mode runs in a build with debug assertions and overflow checks, or one run of the optimised program; anything but a finite result is a violation. All cases count as non-trivial.",
        vec!["sums of tours stay below the largest double", "Christofides only on metric instances"],
    )
}
