//! stress SEED SECONDS MAXN: run the workload of C19 on many sizes and pool sizes until the time is up.
//! Built with a sanitizer; prints what was executed as one JSON line.
mod workload;
use std::sync::Mutex;
use std::time::{Duration, Instant};
use workload::*;

fn pin(k: usize) {
    unsafe {
        let mut s: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut s) != 0 {
            return;
        }
        let mut t: libc::cpu_set_t = std::mem::zeroed();
        let mut left = k;
        for c in 0..libc::CPU_SETSIZE as usize {
            if left > 0 && libc::CPU_ISSET(c, &s) {
                libc::CPU_SET(c, &mut t);
                left -= 1;
            }
        }
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &t);
    }
}

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().expect("a number")).collect();
    let (seed, secs, maxn) = (a[0], a[1], a[2] as usize);
    let end = Instant::now() + Duration::from_secs(secs);
    std::panic::set_hook(Box::new(|_| {}));
    let total = Mutex::new((Tally::default(), 0u64, std::collections::BTreeSet::new()));
    // a few drivers at once, each with pools of its own
    std::thread::scope(|s| {
        for d in 0..3u64 {
            let total = &total;
            s.spawn(move || {
                let mut r = R::new(seed.wrapping_mul(0x1000_0000_01b3) ^ (d << 40));
                getrandom::det_seed(seed ^ d);
                let mut t = Tally::default();
                let mut shapes = std::collections::BTreeSet::new();
                let mut execs = 0;
                // a few large executions first: code may treat large inputs differently
                let mut big: Vec<(&'static str, usize)> = match d {
                    _ if maxn < 100 => vec![],
                    0 => vec![("nearest-neighbour", 280), ("prim", 1100), ("graph", 300), ("big-matching", 8202)],
                    1 => vec![("one-tree", 160), ("prim", 530), ("points", 600), ("points", 1100), ("points", 270)],
                    _ => vec![("parse", 150), ("matching", 700), ("one-tree", 300), ("points", 2100), ("christofides", 200)],
                };
                while Instant::now() < end {
                    let cpus = [0, 0, 1, 2, 3, 5][r.below(6)];
                    let threads = [1, 2, 2, 3, 4, 8, 13][r.below(7)];
                    std::thread::scope(|s| {
                        s.spawn(|| {
                            getrandom::det_seed(seed ^ r.u());
                            if cpus > 0 {
                                pin(cpus);
                            }
                            let Ok(pool) = rayon::ThreadPoolBuilder::new().num_threads(threads).build() else { return };
                            // what is large is run on several threads
                            let wide = threads > 1 && cpus != 1;
                            for _ in 0..12 {
                                if Instant::now() >= end {
                                    break;
                                }
                                let (p, n) = if wide && !big.is_empty() {
                                    big.pop().unwrap()
                                } else {
                                    let p = PARTS[r.below(PARTS.len())];
                                    let n = match r.below(4) {
                                        0 => 2 + r.below(4),
                                        1 => 4 + r.below(8),
                                        2 => 8 + r.below(maxn / 2),
                                        _ => maxn / 2 + r.below(maxn / 2),
                                    };
                                    (p, n)
                                };
                                let sd = r.u();
                                execs += 1;
                                shapes.insert((p, n.min(12), threads));
                                pool.install(|| {
                                    if p == "big-matching" {
                                        big_matching(&mut t, n);
                                    } else {
                                        part(&mut t, sd, n, p);
                                    }
                                });
                            }
                        });
                    });
                }
                let mut g = total.lock().unwrap();
                g.0.add(&t);
                g.1 += execs;
                g.2.extend(shapes);
            });
        }
    });
    let g = total.into_inner().unwrap();
    let names: Vec<String> = g.0.names.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect();
    println!(
        "STRESS {{\"executions\": {}, \"calls\": {}, \"panics\": {}, \"last_panic\": {:?}, \"shapes\": {}, \"names\": {{{}}}}}",
        g.1, g.0.calls, g.0.panics, g.0.last_panic, g.2.len(), names.join(", ")
    );
}

/// More than 2000 pairs, so that the improvement rounds are split between threads, and one edge
/// left over.
fn big_matching(t: &mut Tally, n: usize) {
    use walky::computation_mode::PAR_COMPUTATION;
    use walky::datastructures::{AdjacencyMatrix, NAMatrix};
    let mut m = NAMatrix::from_dim(n);
    for (k, c) in m.as_mut_slice().iter_mut().enumerate() {
        let (i, j) = (k % n, k / n);
        if i != j {
            *c = (((i ^ j).wrapping_mul(2_654_435_761) >> 7) & 1023) as f64;
        }
    }
    t.calls += 1;
    *t.names.entry("matching par, split").or_default() += 1;
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        walky::solvers::approximate::matching::approx_min_cost_matching::<PAR_COMPUTATION>(&m, (0..n).collect(), 40).len()
    }));
}
