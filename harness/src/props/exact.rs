//! C01, C02, C03, C15, C16
use crate::chaos;
use crate::core::{Case, Ctx};
use crate::inst::{self, Inst, GENERAL, METRIC};
use crate::oracle::*;
use crate::rng::{hash_bytes, mix, Rng};
use walky::datastructures::{NAMatrix, Solution};
use walky::solvers::exact;

pub const NAMES: [&str; 7] = ["v0", "v1", "v2", "v3", "v4", "v5", "v6"];

pub fn solve_na(v: usize, m: &NAMatrix) -> Solution {
    match v {
        0 => exact::naive_solver(m),
        1 => exact::first_improved_solver(m),
        2 => exact::second_improved_solver(m),
        3 => exact::third_improved_solver(m),
        4 => exact::fourth_improved_solver(m),
        5 => exact::fifth_improved_solver(m),
        6 => exact::sixth_improved_solver(m),
        _ => unreachable!(),
    }
}

fn solve_vec(v: usize, i: &Inst) -> Solution {
    let m = i.vm();
    match v {
        0 => exact::naive_solver(&m),
        1 => exact::first_improved_solver(&m),
        2 => exact::second_improved_solver(&m),
        3 => exact::third_improved_solver(&m),
        _ => exact::fourth_improved_solver(&m),
    }
}

/// Instances on which branch and bound stays cheap although n is larger.
pub fn prunable(r: &mut Rng, n: usize) -> Inst {
    let c = *r.pick(&["single-cheap-cycle", "powers", "wide-magnitudes", "exponential", "uniform", "euclid", "two-far-clusters", "clustered", "big-m"]);
    let mut i = inst::make(r, n, c);
    if n > 10 || i.class == "single-cheap-cycle" || r.chance(0.3) {
        // make a tour cheap; beyond 10 cities one that the search tries early
        let mut p: Vec<usize> = (0..n).collect();
        if n <= 10 && r.chance(0.5) {
            r.shuffle(&mut p);
        } else if r.chance(0.6) {
            let k = r.range(2, 5);
            r.shuffle(&mut p[n - k..]);
        }
        for k in 0..n {
            let (a, b) = (p[k], p[(k + 1) % n]);
            let v = 1e-3 * (1.0 + (k % 3) as f64);
            i.c[a * n + b] = v;
            i.c[b * n + a] = v;
        }
        i.metric = false;
    }
    i
}

fn check_opt(c: &mut Case, who: &str, i: &Inst, best: f64, sol: &Solution) {
    c.max("largest relative deviation", if best != 0.0 { (sol.0 - best).abs() / best } else { (sol.0 - best).abs() });
    if !close(sol.0, best) || sol.0.is_nan() {
        c.fail(format!("{who} reports {:?} (path {:?}), the optimum is {:?}; {}", sol.0, sol.1, best, i.text()));
    }
}

fn all_opt(c: &mut Case, i: &Inst, vs: &[usize], both: bool) {
    let (best, tour) = held_karp(i);
    let m = i.na();
    for &v in vs {
        if let Some(s) = c.call(NAMES[v], || solve_na(v, &m)) {
            check_opt(c, NAMES[v], i, best, &s);
        }
        if both && v <= 4 {
            if let Some(s) = c.call(NAMES[v], || solve_vec(v, i)) {
                check_opt(c, &format!("{} on the nested-vector matrix", NAMES[v]), i, best, &s);
            }
        }
        if c.failed {
            return;
        }
    }
    c.eval(&format!("{}/n={}", i.class, i.n), i.hash(), i.nontrivial() && i.n >= 4);
    c.sample(i.class, || format!("{} optimum={best:?} tour={tour:?}", i.text()));
}

pub fn c01(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let all: Vec<&'static str> = METRIC.iter().chain(GENERAL.iter()).copied().collect();
    // every class at every size first, then at random
    ctx.phase("grid", ctx.n(all.len() as u64 * 6, all.len() as u64 * 7), 8, |c| {
        let class = all[c.idx as usize % all.len()];
        let n = 2 + c.idx as usize / all.len();
        let i = inst::make(&mut c.rng, n, class);
        all_opt(c, &i, &[0, 1, 2, 3, 4, 5, 6], true);
    });
    ctx.phase("small", ctx.n(9000, 300_000), 8, |c| {
        let n = *c.rng.pick(&[3, 4, 4, 5, 5, 5, 6, 6, 6, 7]);
        let i = inst::random_general(&mut c.rng, n);
        let both = c.rng.chance(0.3);
        all_opt(c, &i, &[0, 1, 2, 3, 4, 5, 6], both);
    });
    ctx.phase("mid", ctx.n(260, 6000), 8, |c| {
        let n = c.rng.range(8, 9);
        let i = inst::random_general(&mut c.rng, n);
        let vs: &[usize] = if n == 8 { &[0, 1, 2, 3, 4, 5, 6] } else { &[1, 3, 4, 5, 6] };
        all_opt(c, &i, vs, false);
    });
    ctx.phase("large", ctx.n(60, 1500), 8, |c| {
        let n = c.rng.range(10, 12);
        let i = prunable(&mut c.rng, n);
        let vs: &[usize] = if n == 10 { &[3, 4, 5, 6] } else { &[5, 6] };
        all_opt(c, &i, vs, false);
    });
    ctx.phase("fullsize", ctx.n(2, 24), 8, |c| {
        let i = inst::random_general(&mut c.rng, 9);
        all_opt(c, &i, &[0, 2], true);
    });
    // sizes beyond any table: a cheap tour the search meets early, every other edge dearer than it
    ctx.phase("planted", ctx.n(36, 500), 8, |c| {
        let v = 3 + c.idx as usize % 4;
        let n = match v {
            // beyond any word, and any byte
            3 if c.idx == 0 => c.rng.range(257, 262),
            3 if c.idx < 16 => c.rng.range(65, 140),
            3 => c.rng.range(13, 40),
            4 => c.rng.range(13, 20),
            _ if c.idx < 8 => c.rng.range(64, 67),
            _ => c.rng.range(13, 34),
        };
        let k = if v != 3 && n < 40 { c.rng.range(1, 4) } else { 1 };
        let (i, best) = inst::planted(&mut c.rng, n, k);
        let m = i.na();
        if let Some(s) = c.call(NAMES[v], || solve_na(v, &m)) {
            check_opt(c, NAMES[v], &i, best, &s);
            check_tour(c, NAMES[v], &i, &s);
        }
        c.eval(&format!("planted/{}", NAMES[v]), i.hash(), true);
    });
    (
        "A case is one complete symmetric instance (35 classes: Euclidean, tied, zero, big-M, exponential, trees, hubs, ...), solved by all seven algorithms and by an independent Held-Karp dynamic programme; non-trivial: at least 4 cities and more than one distinct cost.",
        vec!["optimality is judged to relative 1e-12 of the optimum", "arbitrary instances up to 12 cities; up to 66 (v5, v6) or 262 (v3) only where one tour is cheap and all other edges are dear"],
    )
}

fn check_tour(c: &mut Case, who: &str, i: &Inst, s: &Solution) {
    if !is_perm(&s.1, i.n) {
        c.fail(format!("{who} returns {:?}, not a permutation of {} cities; {}", s.1, i.n, i.text()));
        return;
    }
    let w = cycle_cost(i, &s.1);
    c.max("largest relative deviation", if w != 0.0 { (s.0 - w).abs() / w } else { (s.0 - w).abs() });
    if !close(w, s.0) {
        c.fail(format!("{who} reports {:?}, its tour {:?} costs {w:?}; {}", s.0, s.1, i.text()));
    }
}

pub fn c02(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let cpus = chaos::cpus();
    let one = |c: &mut Case, i: &Inst, vs: &[usize], threads: &[usize]| {
        let m = i.na();
        for &v in vs {
            if let Some(s) = c.call(NAMES[v], || solve_na(v, &m)) {
                check_tour(c, NAMES[v], i, &s);
            }
            if v <= 4 && c.rng.chance(0.25) {
                if let Some(s) = c.call(NAMES[v], || solve_vec(v, i)) {
                    check_tour(c, &format!("{} on the nested-vector matrix", NAMES[v]), i, &s);
                }
            }
        }
        for &t in threads {
            let t = t.min(cpus.len());
            chaos::pin(&cpus[..t]);
            if let Some(s) = c.call("threaded solver", || exact::threaded_solver(&m)) {
                check_tour(c, &format!("threaded solver with {t} CPUs"), i, &s);
            }
        }
        chaos::pin(&cpus);
        c.eval(&format!("{}/n={}", i.class, i.n), i.hash(), i.nontrivial() && i.n >= 4);
        c.sample(i.class, || i.text());
    };
    ctx.phase("small", ctx.n(7000, 250_000), 8, |c| {
        let n = *c.rng.pick(&[2, 3, 4, 5, 5, 6, 6, 7]);
        let i = inst::random_general(&mut c.rng, n);
        let t = c.rng.range(1, 8);
        one(c, &i, &[0, 1, 2, 3, 4, 5, 6], &[t]);
    });
    ctx.phase("mid", ctx.n(200, 6000), 8, |c| {
        let n = c.rng.range(8, 9);
        let i = inst::random_general(&mut c.rng, n);
        let t = c.rng.range(1, 8);
        one(c, &i, if n == 8 { &[0, 1, 2, 3, 4, 5, 6] } else { &[1, 4, 5, 6] }, &[t]);
    });
    ctx.phase("large", ctx.n(40, 1200), 8, |c| {
        let n = c.rng.range(10, 12);
        let i = prunable(&mut c.rng, n);
        one(c, &i, &[5, 6], &[8]);
    });
    ctx.phase("planted", ctx.n(24, 400), 8, |c| {
        let v = 3 + c.idx as usize % 4;
        let n = match v {
            3 if c.idx == 0 => c.rng.range(257, 262),
            3 if c.idx < 16 => c.rng.range(65, 140),
            3 => c.rng.range(13, 40),
            4 => c.rng.range(13, 20),
            5 | 6 if c.idx < 8 => c.rng.range(64, 67),
            _ => c.rng.range(13, 34),
        };
        let k = if v != 3 && n < 40 { c.rng.range(1, 4) } else { 1 };
        let (i, _) = inst::planted(&mut c.rng, n, k);
        one(c, &i, &[v], if n <= 17 { &[3, 8] } else { &[] });
    });
    (
        "A case is one instance solved by v0-v6 and the threaded solver; the monitor checks that each returned path is a permutation and re-prices it edge by edge. Non-trivial: at least 4 cities and more than one distinct cost.",
        vec!["costs are compared to relative 1e-12"],
    )
}

pub fn c03(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let cpus = chaos::cpus();
    let run = |c: &mut Case, i: &Inst, t: usize, pool: &rayon::ThreadPool, psize: usize, reps: usize, best: f64| {
        let m = i.na();
        for rep in 0..reps {
            let cp = &cpus;
            // the pinned worker decides how many parts the search space is split into
            let r = c.call("threaded solver", || {
                pool.install(|| {
                    chaos::pin(&cp[..t]);
                    let seen = chaos::threads_seen();
                    let s = exact::threaded_solver(&m);
                    chaos::pin(cp);
                    (seen, s)
                })
            });
            let Some((seen, s)) = r else { return };
            c.count("solver runs", 1);
            c.count(&format!("runs with {seen} CPUs visible"), 1);
            if !close(s.0, best) || s.0.is_nan() {
                c.fail(format!(
                    "threaded solver with {seen} CPUs, pool of {psize}, repetition {rep} reports {:?} (path {:?}), the optimum is {best:?}; {}",
                    s.0, s.1, i.text()
                ));
                return;
            }
            if !is_perm(&s.1, i.n) || !close(cycle_cost(i, &s.1), best) {
                c.fail(format!(
                    "threaded solver with {seen} CPUs, pool of {psize} returns path {:?}, which is no optimal tour (optimum {best:?}); {}",
                    s.1, i.text()
                ));
                return;
            }
            c.observe("distinct (instance, winning path) outcomes", i.hash() ^ hash_bytes(format!("{:?}", s.1).as_bytes()));
        }
        c.eval(&format!("n={}/cpus={t}", i.n), mix(i.hash() ^ (t as u64) << 8 ^ psize as u64), i.nontrivial() && i.n > t && i.n >= 3);
        c.sample(&format!("n={}", i.n), || format!("{} cpus={t} pool={psize}", i.text()));
    };
    let max_t = cpus.len().min(8);
    // every (n, CPU count) with many instances
    ctx.phase("grid", ctx.n(1600, 40_000), 8, |c| {
        let combos: Vec<(usize, usize)> = (2..=7).flat_map(|n| (1..=max_t).map(move |t| (n, t))).collect();
        let (n, t) = combos[c.idx as usize % combos.len()];
        let psize = *c.rng.pick(&[1, 2, 3, 4, 8]);
        let Ok(pool) = rayon::ThreadPoolBuilder::new().num_threads(psize).build() else {
            c.inconclusive("no thread pool");
            return;
        };
        for _ in 0..if n <= 5 { 8 } else { 3 } {
            let i = if c.rng.chance(0.3) {
                let mut i = inst::make(&mut c.rng, n, "single-cheap-cycle");
                i.class = "single-cheap-cycle";
                i
            } else {
                inst::random_general(&mut c.rng, n)
            };
            let best = held_karp(&i).0;
            run(c, &i, t, &pool, psize, 1, best);
        }
    });
    ctx.phase("mid", ctx.n(60, 3000), 4, |c| {
        let n = c.rng.range(8, 10);
        let t = c.rng.range(1, max_t);
        let psize = *c.rng.pick(&[1, 2, 4, 8, 16]);
        let Ok(pool) = rayon::ThreadPoolBuilder::new().num_threads(psize).build() else {
            return;
        };
        let i = if n == 10 { prunable(&mut c.rng, n) } else { inst::random_general(&mut c.rng, n) };
        let best = held_karp(&i).0;
        run(c, &i, t, &pool, psize, 1, best);
    });
    ctx.phase("planted", ctx.n(24, 500), 3, |c| {
        let n = c.rng.range(11, 18);
        let t = c.rng.range(1, max_t);
        let psize = *c.rng.pick(&[1, 2, 4, 8, 16]);
        let Ok(pool) = rayon::ThreadPoolBuilder::new().num_threads(psize).build() else {
            return;
        };
        let k = c.rng.range(1, 4);
        let (i, best) = inst::planted(&mut c.rng, n, k);
        run(c, &i, t, &pool, psize, 1, best);
    });
    // schedules: tiny searches, many repetitions, perturbed at allocations and by signals
    let inj = chaos::Injector::start(ctx.o.seed ^ 0x51);
    for (name, lvl) in [("chaos1", 1), ("chaos2", 2)] {
        chaos::level(lvl);
        ctx.phase(name, ctx.n(160, 6000), 6, |c| {
            let t = c.rng.range(2, max_t.max(2)).min(max_t);
            let n = (t + 1).max(3) + c.rng.below(2);
            let n = n.min(6).max(3);
            let t = t.min(n - 1);
            let psize = *c.rng.pick(&[2, 3, 4, 8]);
            let Ok(pool) = rayon::ThreadPoolBuilder::new().num_threads(psize).build() else {
                return;
            };
            for _ in 0..4 {
                let i = inst::random_general(&mut c.rng, n);
                let best = held_karp(&i).0;
                run(c, &i, t, &pool, psize, if n <= 4 { 40 } else { 12 }, best);
                if c.failed {
                    return;
                }
            }
        });
    }
    chaos::level(0);
    drop(inj);
    // one thread sleeps at an arbitrary allocation while the others finish the search
    ctx.phase("stall", ctx.m(400, 8000), 1, |c| {
        let t = c.rng.range(2, max_t.max(2).min(5)).min(max_t);
        let n = (t + 1 + c.rng.below(2)).clamp(3, 6);
        let psize = *c.rng.pick(&[2, 4, 8]);
        let Ok(pool) = rayon::ThreadPoolBuilder::new().num_threads(psize).build() else {
            return;
        };
        let i = inst::random_general(&mut c.rng, n);
        let best = held_karp(&i).0;
        for _ in 0..10 {
            chaos::stalls(2_000_000);
            run(c, &i, t, &pool, psize, 1, best);
            chaos::stalls(0);
            if c.failed {
                return;
            }
        }
    });
    {
        let mut s = ctx.stats.lock().unwrap();
        s.counters.insert("schedule perturbations at allocations".into(), chaos::yields());
        s.counters.insert("threads interrupted by signals".into(), chaos::signals());
        s.counters.insert("threads stalled at an allocation".into(), chaos::stalled());
    }
    (
        "A case is (instance, number of visible CPUs set by thread affinity, pool size), run once or many times under schedule perturbation (yields/sleeps at allocations, signal-injected delays) and compared with Held-Karp. Non-trivial: more than one distinct cost and more cities than CPUs, so that the parallel path is taken.",
        vec!["CPU counts up to the number of CPUs of the machine (at most 8)", "interleavings are those produced by the perturbation, not enumerated"],
    )
}

fn next_perm_oracle<T: Ord + Clone>(a: &[T]) -> Option<Vec<T>> {
    // smallest arrangement that is larger, derived from the definition: keep the longest possible
    // prefix, raise the next element by the least amount, sort the rest
    for k in (0..a.len()).rev() {
        let rest = &a[k + 1..];
        if let Some(m) = rest.iter().filter(|x| **x > a[k]).min() {
            let mut out: Vec<T> = a[..k].to_vec();
            let mut tail: Vec<T> = a[k..].to_vec();
            let pos = tail.iter().position(|x| x == m).unwrap();
            out.push(tail.remove(pos));
            tail.sort();
            out.extend(tail);
            return Some(out);
        }
    }
    None
}

fn step<T: Ord + Clone + std::fmt::Debug>(c: &mut Case, a: &mut Vec<T>) -> Option<bool> {
    let before = a.clone();
    let want = next_perm_oracle(&before);
    let got = c.call("next_permutation", || exact::next_permutation(&mut a[..]))?;
    match (&want, got) {
        (Some(w), true) if w == a => Some(true),
        (None, false) if before == *a => Some(false),
        _ => {
            c.fail(format!("from {before:?}: reports {got} and leaves {a:?}, expected {want:?}"));
            None
        }
    }
}

fn multinomial(counts: &[usize]) -> u64 {
    let mut r = 1u64;
    let mut n = 0u64;
    for &k in counts {
        for j in 1..=k as u64 {
            n += 1;
            r = r * n / j;
        }
    }
    r
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Rev(std::cmp::Reverse<i8>);

/// Elements that compare equal although they differ: only the order matters to the property.
#[derive(Clone, Copy, Debug)]
struct Tagged(u8, u32);
impl PartialEq for Tagged {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Tagged {}
impl PartialOrd for Tagged {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tagged {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}

pub fn c15(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    // whole enumeration histories over all small multisets
    let mut multis: Vec<Vec<usize>> = vec![];
    fn comps(left: usize, parts: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if parts == 0 {
            if left == 0 {
                out.push(cur.clone());
            }
            return;
        }
        for k in 1..=left {
            cur.push(k);
            comps(left - k, parts - 1, cur, out);
            cur.pop();
        }
    }
    let maxlen = if ctx.o.thorough { 9 } else { 8 };
    for len in 0..=maxlen {
        for parts in 0..=len {
            comps(len, parts, &mut vec![], &mut multis);
        }
    }
    ctx.phase("enumerate", multis.len() as u64, 8, |c| {
        let m = &multis[c.idx as usize];
        let mut a: Vec<usize> = m.iter().enumerate().flat_map(|(v, &k)| std::iter::repeat(v * 3 + 1).take(k)).collect();
        let expected = multinomial(m);
        let mut n = 1u64;
        loop {
            match step(c, &mut a) {
                Some(true) => n += 1,
                Some(false) => break,
                None => return,
            }
            if n > expected {
                c.fail(format!("more than {expected} arrangements produced for counts {m:?}"));
                return;
            }
        }
        if n != expected {
            c.fail(format!("{n} arrangements produced for counts {m:?}, there are {expected}"));
        }
        c.count("enumeration steps", n);
        c.eval(&format!("enumeration of length {}", a.len()), hash_bytes(format!("{m:?}").as_bytes()), m.len() > 1);
        c.sample(&format!("len{}", a.len()), || format!("multiset counts {m:?}: {expected} arrangements enumerated in order"));
    });
    // single steps on long and typed sequences
    ctx.phase("steps", ctx.n(60_000, 3_000_000), 8, |c| {
        let len = match c.rng.below(2000) {
            0 => c.rng.range(65_000, 70_000),
            1..=9 => c.rng.range(300, 5000),
            10..=999 => c.rng.range(9, 300),
            _ => c.rng.range(0, 8),
        };
        let kind = c.rng.below(6);
        let tail = c.rng.range(0, len);
        let k = *c.rng.pick(&[1, 2, 3, 10, 1000, 100_000]);
        let mut base: Vec<usize> = (0..len).map(|_| c.rng.below(k)).collect();
        if c.rng.chance(0.7) {
            // a long non-increasing tail makes the pivot move far to the front
            base[len - tail..].sort_by(|a, b| b.cmp(a));
        }
        let key = hash_bytes(format!("{kind}{base:?}").as_bytes());
        let r = match kind {
            0 => step(c, &mut base.clone()),
            1 => step(c, &mut base.iter().map(|&x| x as u8).collect::<Vec<_>>()),
            2 => step(c, &mut base.iter().map(|&x| Rev(std::cmp::Reverse((x % 100) as i8 - 50))).collect::<Vec<_>>()),
            3 => step(c, &mut base.iter().map(|&x| format!("{x}")).collect::<Vec<_>>()),
            4 => step(c, &mut base.iter().map(|&x| (-((x / 3) as i64), x % 3 == 0)).collect::<Vec<_>>()),
            _ => {
                let mut t = 0;
                step(c, &mut base.iter().map(|&x| { t += 1; Tagged(x as u8, t) }).collect::<Vec<_>>())
            }
        };
        if r.is_some() {
            let cl = ["usize", "u8", "reversed order", "string", "tuple", "equal-but-distinct"][kind];
            c.eval(&format!("single step over {cl}"), key, len >= 3 && r == Some(true));
            c.sample(cl, || format!("{base:?} -> {}", r == Some(true)));
        }
    });
    (
        "Whole enumeration histories over every multiset of up to 8 (thorough: 9) elements, each step checked against the definition and the total against the multinomial coefficient, plus single steps on sequences up to 300 elements (some up to 70 000) of six element types. Non-trivial: at least two distinct elements (histories), length at least 3 and not exhausted (steps).",
        vec![],
    )
}

fn digits_value(d: &[usize], b: usize) -> Option<u128> {
    let mut v = 0u128;
    for &x in d {
        if x >= b {
            return None;
        }
        v = v * b as u128 + x as u128;
    }
    Some(v)
}

fn split_case(c: &mut Case, digits: usize, base: usize, n: usize) {
    let total = (base as u128).pow(digits as u32);
    let mut expected_min = 0u128;
    let mut size: Option<u128> = None;
    let ks: Vec<usize> = if n <= 64 {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = vec![0, 1, 2, n / 2, n - 3, n - 2, n - 1];
        for _ in 0..10 {
            v.push(c.rng.below(n));
        }
        v.sort();
        v.dedup();
        v
    };
    let dense = n <= 64;
    let mut last = 0u128;
    for &k in &ks {
        let Some((lo, hi)) = c.call("split", || exact::split_up_b_ary_number_into_n_chunks(digits, base, n, k)) else { return };
        let what = format!("digits={digits} base={base} chunks={n} index={k}: {lo:?}..={hi:?}");
        if lo.len() != digits || hi.len() != digits {
            c.fail(format!("wrong number of digits: {what}"));
            return;
        }
        let (Some(a), Some(b)) = (digits_value(&lo, base), digits_value(&hi, base)) else {
            c.fail(format!("a digit is not below the base: {what}"));
            return;
        };
        if b < a {
            c.fail(format!("empty chunk: {what}"));
            return;
        }
        let sz = b - a + 1;
        if *size.get_or_insert(sz) != sz {
            c.fail(format!("chunks of different size ({sz} and {}): {what}", size.unwrap()));
            return;
        }
        if !dense {
            expected_min = sz * k as u128;
        }
        if a != expected_min {
            c.fail(format!("chunk starts at {a}, expected {expected_min}: {what}"));
            return;
        }
        expected_min = b + 1;
        last = b;
        if b >= total {
            c.fail(format!("chunk ends after the last number: {what}"));
            return;
        }
    }
    // the last index is always among the sampled ones
    let left = total - 1 - last;
    if left > n as u128 - 1 {
        c.fail(format!("digits={digits} base={base} chunks={n}: {left} numbers left over"));
        return;
    }
    c.eval(&format!("split/digits={digits}"), hash_bytes(format!("s{digits}/{base}/{n}").as_bytes()), n > 1 && base > 1);
    c.sample(&format!("split{digits}"), || format!("digits={digits} base={base} chunks={n}: sizes {:?}, {left} left over", size));
}

pub fn c16(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    // all small combinations
    let mut combos = vec![];
    for digits in 1..=5usize {
        for base in 1..=9usize {
            let total = base.pow(digits as u32);
            for n in 1..total.min(if ctx.o.thorough { 400 } else { 90 }) {
                combos.push((digits, base, n));
            }
        }
    }
    ctx.phase("split-small", combos.len() as u64, 8, |c| {
        let (d, b, n) = combos[c.idx as usize];
        split_case(c, d, b, n);
    });
    ctx.phase("split-large", ctx.n(6000, 200_000), 8, |c| {
        let digits = if c.rng.chance(0.7) { c.rng.range(1, 8) } else { c.rng.range(9, 60) };
        let maxb = (2f64).powf(60.0 / digits as f64) as usize;
        let base = if c.rng.chance(0.5) { c.rng.range(2, maxb.min(300)) } else { c.rng.range(2, maxb.min(1 << 40)) };
        let total = (base as u128).pow(digits as u32);
        let cap = (total - 1).min(1 << 20) as usize;
        let n = match c.rng.below(5) {
            0 => c.rng.range(1, cap.min(64)),
            1 => cap,
            // chunks of one or two numbers, or a few huge ones
            2 => ((total - 1) >> c.rng.below(12)).max(1) as usize,
            _ => c.rng.range(1, cap),
        };
        split_case(c, digits, base, n);
    });
    // whole increment histories
    ctx.phase("increment-all", 40, 8, |c| {
        let digits = 1 + c.idx as usize % 4;
        let base = 1 + c.idx as usize / 4;
        let total = (base as u64).pow(digits as u32);
        let mut d = vec![0usize; digits];
        for v in 1..=total {
            let r = c.call("get_next_value", || exact::get_next_value(&mut d, base));
            let Some(r) = r else { return };
            if v == total {
                if r.is_some() {
                    c.fail(format!("digits={digits} base={base}: no overflow after the largest number, got {r:?}"));
                    return;
                }
            } else {
                let got = r.as_ref().and_then(|x| digits_value(x, base));
                if got != Some(v as u128) || r.as_ref().map(|x| x.len()) != Some(digits) {
                    c.fail(format!("digits={digits} base={base}: successor of {} is {r:?}", v - 1));
                    return;
                }
                if r.as_ref() != Some(&d) {
                    c.fail(format!("digits={digits} base={base}: returned {r:?} but stored {d:?}"));
                    return;
                }
            }
        }
        c.count("increments", total);
        c.eval("increment history", hash_bytes(format!("i{digits}/{base}").as_bytes()), base > 1);
        c.sample(&format!("inc{digits}"), || format!("digits={digits} base={base}: {total} increments until overflow"));
    });
    ctx.phase("increment-random", ctx.n(60_000, 2_000_000), 8, |c| {
        let digits = match c.rng.below(20) {
            0 => c.rng.range(10, 70),
            1 if c.rng.chance(0.1) => c.rng.range(70, 3000),
            _ => c.rng.range(1, 9),
        };
        let base = *c.rng.pick(&[2usize, 3, 5, 7, 10, 11, 97, 256, 257, 1000, 65_536, 65_537, 3_000_000_000]);
        let mut d: Vec<usize> = (0..digits).map(|_| c.rng.below(base)).collect();
        let t = c.rng.range(0, digits);
        for x in d[digits - t..].iter_mut() {
            *x = base - 1;
        }
        let before = d.clone();
        let want = before.iter().any(|&x| x != base - 1).then(|| {
            let mut w = before.clone();
            let mut k = digits;
            while k > 0 && w[k - 1] == base - 1 {
                w[k - 1] = 0;
                k -= 1;
            }
            if k > 0 {
                w[k - 1] += 1;
            }
            w
        });
        let Some(r) = c.call("get_next_value", || exact::get_next_value(&mut d, base)) else { return };
        if r != want {
            c.fail(format!("successor of {before:?} in base {base} is {r:?}, expected {want:?}"));
            return;
        }
        c.eval("single increment", hash_bytes(format!("r{base}{before:?}").as_bytes()), t > 0 && base > 1);
        c.sample("single", || format!("base {base}: {before:?} -> {r:?}"));
    });
    (
        "A split case is (digits, base, chunk count) with all (or, for large counts, sampled including first and last) chunk indices decoded and laid end to end; increments are complete histories from zero to overflow and random digit vectors with long carries. Non-trivial: base and chunk count above 1 (splits), base above 1 (histories), a carry (single steps).",
        vec!["number spaces up to 2^60, up to 60 digits (increments: up to 3000 digits)"],
    )
}
