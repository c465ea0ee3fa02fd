//! C20, C21
use super::cli::{self, Cmd};
use super::parse::{run_child, scratch, scratch_dir, Run};
use crate::core::{Case, Ctx};
use crate::inst::{self, Inst, METRIC};
use crate::oracle::*;
use crate::rng::{hash_bytes, mix};
use std::process::Command;

/// CPU seconds one process may use; runs need well under one.
const CPU: u64 = 20;

pub struct Ranks {
    pub run: Run,
    pub outs: Vec<String>,
    pub events: u64,
    /// order in which the root process received its messages
    pub arrivals: Vec<i32>,
    pub sent: u64,
    pub received: u64,
}

pub const PROFILES: [&str; 6] = ["no delays", "random delays", "one slow worker", "slow root", "one fast worker", "bursts"];

pub fn mpirun(c: &mut Case, np: usize, profile: usize, args: &[&str]) -> Option<Ranks> {
    let dir = scratch(c, "ranks");
    if std::fs::create_dir_all(&dir).is_err() {
        c.inconclusive("cannot make a scratch directory");
        return None;
    }
    let seed = c.rng.u64() >> 1;
    let mut cmd = Command::new("timeout");
    cmd.args(["-k", "10", "400", "mpirun", "--oversubscribe", "--bind-to", "none", "--mca", "btl_vader_single_copy_mechanism", "none", "--mca", "btl", "vader,self"])
        .args(["-np", &np.to_string(), "-x", "WALKY_SHIM", "-x", "LD_PRELOAD", &c.ctx.o.walky_mpi.clone()])
        .args(args)
        .env("OMPI_ALLOW_RUN_AS_ROOT", "1")
        .env("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1")
        .env("OMPI_MCA_mpi_yield_when_idle", "1")
        .env("TMPDIR", scratch_dir())
        .env("RUST_BACKTRACE", "0")
        .env("LD_PRELOAD", &c.ctx.o.shim)
        .env("WALKY_SHIM", format!("{dir}:{seed}:{profile}"));
    let run = run_child(c, &mut cmd, CPU);
    let mut r = Ranks { run: run?, outs: vec![], events: 0, arrivals: vec![], sent: 0, received: 0 };
    for k in 0..np {
        r.outs.push(std::fs::read_to_string(format!("{dir}/out.{k}")).unwrap_or_default());
        let log = std::fs::read_to_string(format!("{dir}/log.{k}")).unwrap_or_default();
        for l in log.lines() {
            r.events += 1;
            let mut w = l.split(' ');
            match (w.next(), w.next().and_then(|x| x.parse::<i32>().ok())) {
                (Some("recv"), Some(src)) => {
                    r.received += 1;
                    if k == 0 {
                        r.arrivals.push(src);
                    }
                }
                (Some("send"), _) => r.sent += 1,
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    c.count("processes run", np as u64);
    c.count("MPI events observed", r.events);
    c.count("messages sent", r.sent);
    c.count("messages received", r.received);
    if !r.arrivals.is_empty() {
        let mut b = vec![np as u8];
        b.extend(r.arrivals.iter().map(|x| *x as u8));
        c.observe("distinct arrival orders at the coordinator", hash_bytes(&b));
    }
    Some(r)
}

/// Did all processes end normally? `None`: no verdict.
fn ended(c: &mut Case, what: &str, r: &Ranks) -> Option<Result<(), String>> {
    if r.run.code == Some(0) {
        return Some(Ok(()));
    }
    if r.run.code == Some(124) || r.run.code == Some(137) {
        c.inconclusive(format!("{what}: not finished after 400 s"));
        return None;
    }
    let e = &r.run.err;
    if e.contains("signal 24") || e.contains("CPU time limit") || r.run.limited {
        return Some(Err(format!("does not terminate: a process used {CPU} s of CPU")));
    }
    // failures of the launcher itself
    let env = ["unable to", "There are not enough slots", "ORTE_ERROR_LOG", "PRTE ERROR", "opal_init failed", "PML add procs failed", "It looks like"];
    if env.iter().any(|k| e.contains(k)) && !e.contains("panicked") {
        c.inconclusive(format!("{what}: launcher failed: {}", crate::core::truncate(e, 300)));
        return None;
    }
    Some(Err(format!("ends with {:?} (signal {:?}): {}", r.run.code, r.run.signal, crate::core::truncate(e, 500))))
}

fn np_of(c: &mut Case) -> usize {
    *c.rng.pick(&[1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 11, 13])
}

fn put(c: &mut Case, i: &Inst) -> Option<String> {
    let f = scratch(c, "xml");
    if std::fs::write(&f, i.xml()).is_err() {
        c.inconclusive("cannot write a scratch file");
        return None;
    }
    Some(f)
}

pub fn c20(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let with_opt = |c: &mut Case, i: &Inst, np: usize, alg: &'static str, profile: usize, opt: f64| {
        let Some(f) = put(c, i) else { return };
        let r = mpirun(c, np, profile, &["exact", alg, &f, "-p", "mpi"]);
        let _ = std::fs::remove_file(&f);
        let Some(r) = r else { return };
        let what = format!("mpirun -np {np} walky exact {alg} -p mpi ({})", PROFILES[profile]);
        let Some(e) = ended(c, &what, &r) else { return };
        let cmd = Cmd { sub: "exact", alg, mode: "mpi", bound: None };
        let rf = cli::Ref { opt, mst: 0.0, one_tree: 0.0, tours: None, nn_max: 0.0, chr_max: None };
        let verdict = e.and_then(|_| {
            for (k, o) in r.outs.iter().enumerate() {
                if *o != r.outs[0] {
                    return Err(format!("process {k} prints {o:?}, process 0 prints {:?}", r.outs[0]));
                }
                let v = cli::lines(o, &cli::labels(&cmd), &[1, 1]).map_err(|e| format!("process {k}: {e}"))?;
                cli::judge(i, &rf, &cmd, &v).map_err(|e| format!("process {k}: {e}"))?;
            }
            Ok(())
        });
        if let Err(e) = verdict {
            c.fail(format!("{what}: {e}; {}", i.text()));
        }
        c.count("process results judged", np as u64);
        c.eval(&format!("{}/np={np}/n={}", if alg == "v0" { "static" } else { "dynamic" }, i.n), mix(i.hash() ^ (np as u64) << 3 ^ (alg == "v0") as u64), i.n >= 4 && np >= 2);
        c.sample(&format!("{alg} {}", PROFILES[profile]), || format!("{what}: arrivals at process 0 {:?}, printed {:?}; {}", &r.arrivals[..r.arrivals.len().min(60)], r.outs[0], i.text()));
    };
    let one = |c: &mut Case, i: &Inst, np: usize, alg: &'static str, profile: usize| with_opt(c, i, np, alg, profile, held_karp(i).0);
    // every process count with every small instance size
    ctx.phase("grid", ctx.n(84, 84 * 6), 4, |c| {
        let k = c.idx as usize;
        let alg = ["v0", "v1"][k % 2];
        let np = [1, 2, 3, 4, 5, 8, 12][k / 2 % 7];
        let n = [2, 3, 4, 5, 6, 7][k / 14 % 6];
        let i = inst::random_general(&mut c.rng, n);
        let p = c.rng.below(PROFILES.len());
        one(c, &i, np, alg, p);
    });
    ctx.phase("schedules", ctx.n(110, 4000), 4, |c| {
        let np = np_of(c).max(2);
        let n = *c.rng.pick(&[4, 5, 5, 6, 6, 7, 8]);
        let i = if c.rng.chance(0.4) {
            // many optimal tours, or few workers that find one
            let k = *c.rng.pick(&["small-int", "zero-one", "all-equal", "single-cheap-cycle", "circle", "grid", "one-two", "big-m", "near-ties"]);
            inst::make(&mut c.rng, n, k)
        } else {
            inst::random_general(&mut c.rng, n)
        };
        let p = c.rng.range(1, PROFILES.len() - 1);
        let alg = ["v0", "v1"][c.rng.below(2)];
        one(c, &i, np, alg, p);
    });
    // more cities, one cheap tour that prunes the rest
    ctx.phase("planted", ctx.n(32, 600), 4, |c| {
        let np = np_of(c).max(2);
        let n = c.rng.range(9, 16);
        let k = c.rng.range(1, 4);
        let (i, best) = inst::planted(&mut c.rng, n, k);
        let p = c.rng.below(PROFILES.len());
        let alg = ["v0", "v1"][c.idx as usize % 2];
        with_opt(c, &i, np, alg, p, best);
    });
    // more processes than there are prefixes to work on
    // (4 cities: 64 prefixes, 5 cities: 125)
    ctx.phase("crowd", ctx.n(40, 400), 2, |c| {
        let k = c.idx as usize;
        let np = [20, 14, 66, 26, 65, 17, 30, 129, 23, 16][k / 2 % 10];
        let n = match np {
            65 | 66 => 4,
            129 => 5,
            _ => [4, 4, 3, 4, 5, 4, 2][(k / 2 + k / 20) % 7],
        };
        let i = inst::random_general(&mut c.rng, n);
        let p = c.rng.below(2);
        let alg = ["v0", "v1"][k % 2];
        one(c, &i, np, alg, p);
    });
    (
        "A case is one run of a distributed exact solver (static or dynamic) with 1 to 129 processes on one instance; an interposed library delays messages by one of six profiles, reorders arrivals from different workers, and logs every MPI event; each process' output is judged against Held-Karp. Non-trivial: at least 4 cities and 2 processes; distinct by instance, solver and process count.",
        vec!["Open MPI on one machine over shared memory", "a process using 20 s of CPU counts as not terminating (normal: below 1 s)", "arbitrary instances up to 8 cities, up to 16 with one cheap tour and all other edges dear"],
    )
}

pub fn c21(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let cmds: Vec<Cmd> = cli::combos(&["mpi"]).into_iter().filter(|c| c.sub != "exact").collect();
    let one = |c: &mut Case, cmd: &Cmd, i: &Inst, np: usize, profile: usize| {
        let Some(f) = put(c, i) else { return };
        let mut a = vec![cmd.sub, cmd.alg, &f, "-p", "mpi"];
        if let Some(b) = cmd.bound {
            a.extend(["-l", b]);
        }
        let r = mpirun(c, np, profile, &a);
        let _ = std::fs::remove_file(&f);
        let Some(r) = r else { return };
        let what = format!("mpirun -np {np} walky {} {} -p mpi{} ({})", cmd.sub, cmd.alg, cmd.bound.map(|b| format!(" -l {b}")).unwrap_or_default(), PROFILES[profile]);
        let Some(e) = ended(c, &what, &r) else { return };
        let labels = cli::labels(cmd);
        let rf = cli::reference(i);
        let verdict = e.and_then(|_| {
            let root = cli::lines(&r.outs[0], &labels, &vec![1; labels.len()]).map_err(|e| format!("process 0: {e}"))?;
            cli::judge(i, &rf, cmd, &root)?;
            for (k, o) in r.outs.iter().enumerate().skip(1) {
                // other processes may leave the printing to the root, but not disagree with it
                let mut seen = vec![0; labels.len()];
                for l in o.lines() {
                    let p = l.split_once(": ").and_then(|(a, v)| labels.iter().position(|x| *x == a && root[labels.iter().position(|y| *y == a).unwrap()] == v));
                    let Some(p) = p else {
                        return Err(format!("process {k} prints {l:?}, process 0 {:?}", r.outs[0]));
                    };
                    seen[p] += 1;
                    if seen[p] > 1 {
                        return Err(format!("process {k} prints {l:?} twice"));
                    }
                }
                if cmd.alg == "nearest-neighbour" && (seen[0], seen[1]) != (1, 1) {
                    return Err(format!("process {k} prints {o:?}, process 0 {:?}", r.outs[0]));
                }
            }
            Ok(())
        });
        if let Err(e) = verdict {
            c.fail(format!("{what}: {e}; {}", i.text()));
        }
        c.count("process outputs judged", np as u64);
        c.eval(&format!("{} {}{}/np={}", cmd.sub, cmd.alg, cmd.bound.map(|b| format!(" -l {b}")).unwrap_or_default(), if np > i.n { ">n" } else if np == 1 { "1" } else { "<=n" }), mix(i.hash() ^ (np as u64) << 8 ^ hash_bytes(what.as_bytes())), i.n >= 3 && np >= 2);
        c.sample(&format!("{} {}", cmd.sub, cmd.alg), || format!("{what}: {:?}; {}", r.outs.iter().take(3).collect::<Vec<_>>(), i.text()));
    };
    let pick = |c: &mut Case, cmd: &Cmd, n: usize| {
        if cmd.alg == "christofides" {
            let k = *c.rng.pick(METRIC);
            inst::make(&mut c.rng, n, k)
        } else {
            inst::random_general(&mut c.rng, n)
        }
    };
    let m = cmds.len() as u64;
    ctx.phase("grid", ctx.n(m * 8, m * 60), 4, |c| {
        let cmd = cmds[c.idx as usize % cmds.len()].clone();
        let np = [1, 2, 3, 5, 8, 4, 6, 12][(c.idx as usize / cmds.len()) % 8];
        let n = c.rng.range(2, 8);
        let i = pick(c, &cmd, n);
        let p = c.rng.below(PROFILES.len());
        one(c, &cmd, &i, np, p);
    });
    ctx.phase("larger", ctx.n(70, 2500), 4, |c| {
        let cmd = cmds[c.rng.below(cmds.len())].clone();
        let np = np_of(c);
        let n = c.rng.range(9, 60);
        let i = pick(c, &cmd, n);
        let p = c.rng.below(PROFILES.len());
        one(c, &cmd, &i, np, p);
    });
    // far more processes than cities
    ctx.phase("crowd", ctx.n(m * 2, m * 20), 2, |c| {
        let cmd = cmds[c.idx as usize % cmds.len()].clone();
        let np = *c.rng.pick(&[16, 20, 27, 33, 40, 64, 65]);
        let n = *c.rng.pick(&[2, 3, 4, 5, 7, 12, 30, 66]);
        let i = pick(c, &cmd, n);
        let p = c.rng.below(2);
        one(c, &cmd, &i, np, p);
    });
    // matrices and paths beyond the sizes that messages are sent eagerly
    ctx.phase("big", ctx.n(m * 3, m * 30), 3, |c| {
        let cmd = cmds[c.idx as usize % cmds.len()].clone();
        let np = *c.rng.pick(&[2, 3, 4, 5, 8]);
        let n = match c.idx as usize / cmds.len() % 3 {
            0 => c.rng.range(61, 130),
            1 => c.rng.range(131, 260),
            _ => if cmd.alg == "nearest-neighbour" { c.rng.range(520, 640) } else { c.rng.range(260, 330) },
        };
        let i = pick(c, &cmd, n);
        one(c, &cmd, &i, np, 0);
    });
    (
        "A case is one run of a distributed approximation or bound with 1 to 65 processes, with and without an additional lower bound, on instances of 2 to 640 cities, with message delays as in C20; the printed values are recomputed and the outputs of all processes compared. Non-trivial: at least 3 cities and 2 processes.",
        vec!["Open MPI on one machine over shared memory", "processes other than the first may print less, not differently", "a process using 20 s of CPU counts as not terminating"],
    )
}
