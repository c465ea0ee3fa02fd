//! C26 to C31
use super::approx::pool;
use super::cli::{self, Cmd};
use super::exact::{solve_na, NAMES};
use super::parse::{run_child, run_fed, Run, run_cli, scratch, scratch_dir};
use crate::core::{guarded, Case, Ctx};
use crate::inst::{self, Inst, METRIC};
use crate::oracle::*;
use crate::rng::{hash_bytes, mix};
use rayon::prelude::*;
use std::cell::Cell;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::Instant;
use walky::computation_mode::{PAR_COMPUTATION, SEQ_COMPUTATION};
use walky::datastructures::{AdjacencyMatrix, NAMatrix, Solution};
use walky::mst::{prim, prim_with_excluded_node_priority_queue};
use walky::one_tree::one_tree_lower_bound;
use walky::solvers::approximate::christofides::christofides;
use walky::solvers::approximate::nearest_neighbour::{nearest_neighbour, single_nearest_neighbour};
use walky::solvers::exact;

// ---------------------------------------------------------------- C26

/// A matrix that counts how often a cost is looked up and stops the search beyond a limit.
struct Counting {
    n: usize,
    c: Vec<f64>,
    reads: Cell<u64>,
    limit: Cell<u64>,
}

const TOO_MUCH: &str = "work bound exceeded";

impl AdjacencyMatrix for Counting {
    fn from_dim(n: usize) -> Self {
        Counting { n, c: vec![0.0; n * n], reads: Cell::new(0), limit: Cell::new(u64::MAX) }
    }
    fn dim(&self) -> usize {
        self.n
    }
    fn get(&self, row: usize, col: usize) -> f64 {
        let r = self.reads.get() + 1;
        self.reads.set(r);
        if r > self.limit.get() {
            panic!("{TOO_MUCH}");
        }
        self.c[row * self.n + col]
    }
    fn set(&mut self, row: usize, col: usize, cost: f64) {
        self.c[row * self.n + col] = cost;
        self.c[col * self.n + row] = cost;
    }
}

fn counted(c: &mut Case, who: &str, v: usize, i: &Inst, limit: u64, want: f64) -> Option<u64> {
    let m = Counting { n: i.n, c: i.c.clone(), reads: Cell::new(0), limit: Cell::new(limit) };
    c.what(who);
    let r: Result<Solution, String> = guarded(|| match v {
        0 => exact::naive_solver(&m),
        1 => exact::first_improved_solver(&m),
        2 => exact::second_improved_solver(&m),
        3 => exact::third_improved_solver(&m),
        _ => exact::fourth_improved_solver(&m),
    });
    let k = m.reads.get();
    match r {
        Err(e) if e.contains(TOO_MUCH) => {
            c.fail(format!("{who} looks up more than {limit} costs on {} cities; {}", i.n, i.text()));
            None
        }
        Err(e) => {
            c.fail(format!("{who} panicked on a valid input: {e}; {}", i.text()));
            None
        }
        Ok(s) => {
            if !close(s.0, want) {
                c.fail(format!("{who} on a counting matrix reports {:?} instead of {want:?}; {}", s.0, i.text()));
                return None;
            }
            c.max(&format!("{who}: largest share of the bound used"), k as f64 / limit as f64);
            c.count("cost lookups observed", k);
            Some(k)
        }
    }
}

fn fact(n: usize) -> u64 {
    (1..=n as u64).product()
}

/// edges added by a depth-first enumeration of all arrangements, and the closing ones
fn prefixes(n: usize) -> u64 {
    (2..=n).map(|k| fact(n) / fact(n - k)).sum::<u64>() + fact(n)
}

/// The cities in order are a tour of cost n * a; every other edge costs b.
fn in_order(n: usize, a: f64, b: f64) -> Inst {
    let mut c = vec![b; n * n];
    for x in 0..n {
        c[x * n + x] = 0.0;
        let y = (x + 1) % n;
        c[x * n + y] = a;
        c[y * n + x] = a;
    }
    Inst { n, c, class: "in order", metric: false }
}

pub fn c26(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    ctx.phase("enumeration", ctx.n(240, 6000), 8, |c| {
        let v = c.rng.below(4);
        let n = match v {
            0 => c.rng.range(6, 8),
            1 => c.rng.range(8, 9),
            2 => c.rng.range(8, 9),
            _ => c.rng.range(5, 8),
        };
        let i = inst::random_general(&mut c.rng, n);
        let want = held_karp(&i).0;
        // a factor of four over what the documented enumeration needs: less than what is lost if v1
        // varies the first city or v2 sums up every path anew; v3 may order its branches by cost
        let limit = match v {
            0 => 4 * n as u64 * fact(n),
            1 => 4 * n as u64 * fact(n - 1),
            2 => 4 * prefixes(n),
            _ => 40 * prefixes(n),
        };
        if counted(c, NAMES[v], v, &i, limit, want).is_some() {
            c.eval(&format!("{}/n={n}", NAMES[v]), mix(i.hash() ^ v as u64), n >= 4 && i.nontrivial());
        }
    });
    ctx.phase("pruning", ctx.n(120, 3000), 8, |c| {
        let v = 3 + c.rng.below(2);
        let n = if v == 3 { c.rng.range(11, 26) } else { c.rng.range(9, 15) };
        let a = *c.rng.pick(&[1.0, 0.25, 3.0, 1e-3, 7.5]);
        let i = in_order(n, a, a * n as f64 * *c.rng.pick(&[1.5, 2.0, 10.0, 1e6]));
        let m = n as u64;
        let limit = if v == 3 { 200 * m * m * m } else { 40 * m * m * m * m * m };
        if counted(c, &format!("{} (pruning)", NAMES[v]), v, &i, limit, n as f64 * a).is_some() {
            c.eval(&format!("{} pruning/n={n}", NAMES[v]), mix(i.hash() ^ v as u64), true);
            c.sample(&format!("pruning {}", NAMES[v]), || format!("{} cities, cheap tour in order: at most {limit} lookups allowed", n));
        }
    });
    // dear edges that only the lower bound gives away
    ctx.phase("bound", ctx.n(60, 1500), 8, |c| {
        let n = c.rng.range(11, 15);
        let a = *c.rng.pick(&[1.0, 0.25, 3.0, 0.1]);
        let i = in_order(n, a, a * *c.rng.pick(&[2.2, 2.5, 3.0, 4.0]));
        let m = n as u64;
        if counted(c, "v4 (bound)", 4, &i, 16 * m * m * m * m * m, n as f64 * a).is_some() {
            c.eval(&format!("v4 bound/n={n}"), i.hash(), true);
        }
    });
    // v5 and v6 take no foreign matrix: the watchdog bounds their CPU time
    ctx.phase("tree-bound", ctx.n(32, 400), 8, |c| {
        let v = 5 + c.rng.below(2);
        let n = c.rng.range(13, if v == 5 { 26 } else { 30 });
        let a = *c.rng.pick(&[1.0, 0.25, 3.0]);
        let i = in_order(n, a, a * *c.rng.pick(&[3.3, 3.5, 5.0, n as f64, 10.0 * n as f64]));
        let m = i.na();
        let t = crate::core::thread_cpu();
        if let Some(s) = c.call(NAMES[v], || solve_na(v, &m)) {
            c.max(&format!("{}: most CPU seconds", NAMES[v]), crate::core::thread_cpu() - t);
            if !close(s.0, n as f64 * a) || !is_perm(&s.1, n) {
                c.fail(format!("{} reports {:?} (path {:?}) instead of {:?}; {}", NAMES[v], s.0, s.1, n as f64 * a, i.text()));
            }
            c.eval(&format!("{} pruning/n={n}", NAMES[v]), mix(i.hash() ^ v as u64), true);
        }
    });
    (
        "A case is one instance solved through a matrix that counts cost lookups and stops the search when the documented work is exceeded: n·n! (v0), n·(n-1)! (v1), one lookup per extended prefix (v2, v3), polynomial where the first tour found prunes everything else (v3, v4; v5 and v6 by CPU time). Non-trivial: at least 4 cities and more than one distinct cost.",
        vec!["a factor of 4 (v0 to v2), 40 (v3) and 20 or more (pruned searches) over the documented work is allowed", "v5 and v6: at most 90 s of CPU where milliseconds are needed"],
    )
}

// ---------------------------------------------------------------- C27

/// (result lines, elapsed times)
fn split_elapsed(out: &str) -> Result<(String, Vec<f64>), String> {
    let mut rest = String::new();
    let mut t = vec![];
    for l in out.lines() {
        match l.strip_prefix("elapsed seconds: ") {
            Some(x) => t.push(x.trim().parse::<f64>().map_err(|_| format!("{l:?} holds no number"))?),
            None => {
                rest.push_str(l);
                rest.push('\n');
            }
        }
    }
    Ok((rest, t))
}

/// A duration below which the work cannot have been done (0: no claim).
fn floor(cmd: &Cmd, n: usize) -> f64 {
    let n = n as f64;
    if cmd.mode != "single-threaded" {
        return 0.0;
    }
    // far below one cost per 0.1 ns
    match (cmd.sub, cmd.alg) {
        ("exact", "v0") if n == 9.0 => 3e-4,
        ("exact", "v1") if n == 10.0 => 3e-4,
        ("exact", "v2") if n == 9.0 => 3e-4,
        ("approx", "nearest-neighbour") if n >= 200.0 => n * n * n * 3e-11,
        ("lower-bound", "one-tree") if n >= 120.0 => n * n * n * 3e-11,
        _ => 0.0,
    }
}

/// Run a child that prints little: (result, wall seconds, CPU seconds used).
fn timed(c: &mut Case, p: &mut Command) -> Option<(Run, f64, f64)> {
    c.what("child process");
    unsafe {
        p.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 120, rlim_max: 125 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let t = Instant::now();
    let mut ch = match p.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(x) => x,
        Err(e) => {
            c.inconclusive(format!("cannot run {p:?}: {e}"));
            return None;
        }
    };
    let (mut out, mut err) = (vec![], vec![]);
    let _ = ch.stdout.take().map(|mut x| x.read_to_end(&mut out));
    let _ = ch.stderr.take().map(|mut x| x.read_to_end(&mut err));
    let mut st = 0;
    let mut ru: libc::rusage = unsafe { std::mem::zeroed() };
    if unsafe { libc::wait4(ch.id() as libc::pid_t, &mut st, 0, &mut ru) } < 0 {
        c.inconclusive("cannot wait for the child");
        return None;
    }
    let wall = t.elapsed().as_secs_f64();
    let cpu = ru.ru_utime.tv_sec as f64 + ru.ru_utime.tv_usec as f64 * 1e-6;
    let signal = libc::WIFSIGNALED(st).then(|| libc::WTERMSIG(st));
    let run = Run {
        code: libc::WIFEXITED(st).then(|| libc::WEXITSTATUS(st)),
        signal,
        out: String::from_utf8_lossy(&out).into_owned(),
        err: String::from_utf8_lossy(&err).into_owned(),
        limited: signal == Some(libc::SIGXCPU),
    };
    c.max("longest run, CPU seconds", cpu);
    Some((run, wall, cpu))
}

pub fn c27(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let cs = cli::combos(&["single-threaded", "multi-threaded"]);
    let bench = ctx.o.walky_bench.clone();
    let one = |c: &mut Case, cmd: &Cmd, i: &Inst| {
        let f = scratch(c, "xml");
        if std::fs::write(&f, i.xml()).is_err() {
            c.inconclusive("cannot write a scratch file");
            return;
        }
        let mut args = vec![cmd.sub, "-p", cmd.mode, cmd.alg, &f];
        if let Some(b) = cmd.bound {
            args.extend(["-l", b]);
        }
        let mut p = Command::new(&bench);
        p.args(&args).env("RUST_BACKTRACE", "0");
        let Some((run, wall, cpu)) = timed(c, &mut p) else {
            let _ = std::fs::remove_file(&f);
            return;
        };
        let _ = std::fs::remove_file(&f);
        let want = cli::labels(cmd);
        let times = 1 + cmd.bound.is_some() as usize;
        let r = cli::reference(i);
        let verdict = if run.code != Some(0) {
            Err("does not succeed".to_string())
        } else {
            split_elapsed(&run.out).and_then(|(rest, t)| {
                let v = cli::lines(&rest, &want, &vec![1; want.len()])?;
                cli::judge(i, &r, cmd, &v)?;
                if t.len() != times {
                    return Err(format!("{} elapsed times printed instead of {times}", t.len()));
                }
                if t.iter().any(|x| !(*x >= 0.0)) || t.iter().sum::<f64>() > wall {
                    return Err(format!("elapsed times {t:?} of a process that ran {wall:.4} s"));
                }
                if t[0] < floor(cmd, i.n) {
                    return Err(format!("elapsed time {:?} s printed, the computation cannot take less than {:?} s", t[0], floor(cmd, i.n)));
                }
                // almost all of a long run is the computation
                if i.n <= 20 && cmd.mode == "single-threaded" && cpu > 0.2 && t[0] < 0.5 * cpu {
                    return Err(format!("elapsed time {:?} s printed by a process that used {cpu:.3} s of CPU", t[0]));
                }
                // each time follows the results it belongs to
                let ls: Vec<&str> = run.out.lines().collect();
                if !ls.last().is_some_and(|l| l.starts_with("elapsed")) || ls[0].starts_with("elapsed") {
                    return Err("an elapsed time is not printed after its result".into());
                }
                Ok(())
            })
        };
        if let Err(e) = verdict {
            c.fail(format!("benchmarking build: walky {}: {e}; {}; {}", args.join(" "), cli::show(&run), i.text()));
        }
        c.eval(&format!("{} {} {}{}", cmd.sub, cmd.alg, cmd.mode, cmd.bound.map(|b| format!(" -l {b}")).unwrap_or_default()), mix(i.hash() ^ hash_bytes(format!("{cmd:?}").as_bytes())), i.nontrivial() && i.n >= 4);
        c.sample(cmd.sub, || format!("{} -> {:?}", args.join(" "), run.out));
    };
    // longer than a second, shorter than the CPU limit
    ctx.phase("seconds", ctx.n(2, 8), 2, |c| {
        let (alg, n) = [("v0", 11), ("v2", 11), ("v1", 12)][c.idx as usize % 3];
        let cmd = Cmd { sub: "exact", alg, mode: "single-threaded", bound: None };
        let i = inst::make(&mut c.rng, n, "euclid");
        one(c, &cmd, &i);
    });
    let m = cs.len() as u64;
    ctx.phase("all-combinations", ctx.n(m * 4, m * 60), 8, |c| {
        let cmd = &cs[c.idx as usize % cs.len()];
        let n = c.rng.range(2, 8);
        let i = if cmd.alg == "christofides" {
            let k = *c.rng.pick(METRIC);
            inst::make(&mut c.rng, n, k)
        } else {
            inst::random_general(&mut c.rng, n)
        };
        one(c, cmd, &i);
    });
    ctx.phase("long", ctx.n(20, 200), 4, |c| {
        let (sub, alg, n) = [("exact", "v0", 9), ("exact", "v1", 10), ("exact", "v2", 9), ("approx", "nearest-neighbour", 220), ("lower-bound", "one-tree", 140)][c.idx as usize % 5];
        let cmd = Cmd { sub, alg, mode: "single-threaded", bound: None };
        let i = inst::make(&mut c.rng, n, "euclid");
        one(c, &cmd, &i);
    });
    // the script that collects the times
    ctx.phase("run_often", ctx.n(4, 40), 4, |c| {
        let d = scratch(c, "d");
        let _ = std::fs::create_dir_all(&d);
        let label = *c.rng.pick(&["walky", "two times", "chatty"]);
        let k = c.rng.range(1, 900);
        let body = match label {
            "two times" => "echo \"Christofides solution weight: 1\"; echo \"elapsed seconds: $v\"; echo \"MST lower bound: 1\"; echo \"elapsed seconds: 99999\"",
            "chatty" => "echo \"seconds: 5\"; echo warn >&2; echo \"Best Cost: 12\"; echo \"elapsed seconds: $v\"",
            _ => "echo \"Best Cost: 1\"; echo \"elapsed seconds: $v\"",
        };
        let script = format!("n=$(cat {d}/n 2>/dev/null || echo 0); n=$((n+1)); echo $n > {d}/n; v=$(( (n * 7919) % 997 )).$(( n + {k} )); {body}\n");
        if std::fs::write(format!("{d}/s.sh"), script).is_err() {
            c.inconclusive("cannot write a scratch file");
            return;
        }
        let mut p = Command::new("python3-vt");
        p.args(["-B", &format!("{}/benchmarks/run_often.py", c.ctx.o.repo), &format!("sh {d}/s.sh"), &format!("{d}/out.json")]).current_dir(&d);
        let run = run_child(c, &mut p, 60);
        let json = std::fs::read_to_string(format!("{d}/out.json")).unwrap_or_default();
        let calls: u64 = std::fs::read_to_string(format!("{d}/n")).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(0);
        let _ = std::fs::remove_dir_all(&d);
        let Some(run) = run else { return };
        let nums = |key: &str| -> Vec<f64> {
            let Some(p) = json.find(&format!("\"{key}\"")) else { return vec![] };
            let s = &json[p + key.len() + 2..];
            let s = s.trim_start_matches([':', ' ', '[', '\n']);
            let e = if key == "elapsed_seconds" { s.find(']') } else { s.find([',', '}']) };
            s[..e.unwrap_or(s.len())].split(',').filter_map(|x| x.trim().parse().ok()).collect()
        };
        let all = nums("elapsed_seconds");
        let val = |n: u64| format!("{}.{}", (n * 7919) % 997, n + k as u64).parse::<f64>().unwrap();
        let want: Vec<f64> = (calls.saturating_sub(all.len() as u64) + 1..=calls).map(val).collect();
        let mut sorted = all.clone();
        sorted.sort_by(f64::total_cmp);
        let (mean, median) = (nums("mean"), nums("median"));
        if run.code != Some(0) || all.len() != 10 || all != want {
            c.fail(format!("run_often.py of a command run {calls} times records {all:?} instead of the last ten times {want:?}; status {:?}; {}", run.code, crate::core::truncate(&run.err, 500)));
        } else if mean.len() != 1 || (mean[0] - all.iter().sum::<f64>() / 10.0).abs() > 1e-9 * mean[0].abs() {
            c.fail(format!("run_often.py: mean {mean:?} of {all:?}"));
        } else if median.len() != 1 || median[0] < sorted[4] || median[0] > sorted[5] {
            c.fail(format!("run_often.py: median {median:?} of {all:?}"));
        }
        c.eval("run_often", mix(k as u64), true);
    });
    (
        "A case is one run of a binary built with the features mpi and benchmarking (as benchmarks/README.md says): all 36 combinations of subcommand, algorithm, mode and bound; results judged as for the normal build, elapsed times counted and bounded by the wall time of the process from above and, where the work is known, from below; and run_often.py on commands that print known times. Non-trivial: at least 4 cities and more than one distinct cost.",
        vec!["the lower bounds on elapsed times are far below what the hardware can do"],
    )
}

// ---------------------------------------------------------------- C28

#[derive(PartialEq, Debug)]
struct Snap(Vec<(Vec<u8>, u32, u64, i64, i64, Vec<u8>)>);

/// everything below a directory: names, modes, sizes, modification times, contents
fn snap(dir: &str) -> Snap {
    fn walk(d: &std::path::Path, v: &mut Vec<(Vec<u8>, u32, u64, i64, i64, Vec<u8>)>) {
        let mut es: Vec<_> = std::fs::read_dir(d).map(|r| r.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
        es.sort();
        for p in es {
            if let Ok(m) = std::fs::symlink_metadata(&p) {
                let body = if m.is_file() { std::fs::read(&p).unwrap_or_default() } else { vec![] };
                // (whoever writes to a pipe changes its time)
                let (s, ns) = if m.is_file() || m.is_dir() { (m.mtime(), m.mtime_nsec()) } else { (0, 0) };
                v.push((p.as_os_str().as_bytes().to_vec(), m.mode(), m.len(), s, ns, body));
                if m.is_dir() {
                    walk(&p, v);
                }
            }
        }
    }
    let mut v = vec![];
    walk(std::path::Path::new(dir), &mut v);
    Snap(v)
}

/// Can the program be started by an unprivileged user from here?
fn nobody(walky: &str) -> Option<&'static str> {
    static B: OnceLock<Option<String>> = OnceLock::new();
    B.get_or_init(|| {
        let b = format!("{}/walky", scratch_dir());
        std::fs::copy(walky, &b).ok()?;
        std::fs::set_permissions(&b, std::fs::Permissions::from_mode(0o755)).ok()?;
        std::fs::set_permissions(scratch_dir(), std::fs::Permissions::from_mode(0o755)).ok()?;
        let o = Command::new(&b).arg("--version").uid(65534).gid(65534).current_dir("/").output().ok()?;
        o.status.success().then_some(b)
    })
    .as_deref()
}

/// Write to a pipe as soon as somebody reads from it; whoever opens it again finds nothing in it.
fn serve_pipe(p: &std::path::Path, body: &[u8], done: &std::sync::atomic::AtomicBool) {
    use std::io::Write;
    use std::os::unix::fs::OpenOptionsExt;
    let mut first = true;
    while !done.load(std::sync::atomic::Ordering::SeqCst) {
        let f = std::fs::OpenOptions::new().write(true).custom_flags(libc::O_NONBLOCK).open(p);
        if let Ok(mut f) = f {
            if first {
                use std::os::fd::AsRawFd;
                unsafe { libc::fcntl(f.as_raw_fd(), libc::F_SETFL, 0) };
                let _ = f.write_all(body);
            }
            first = false;
            drop(f);
            // the reader needs a moment to see the end
            std::thread::sleep(std::time::Duration::from_millis(20));
        }
        std::thread::sleep(std::time::Duration::from_micros(300));
    }
}

pub fn c28(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let cs = cli::combos(&["single-threaded", "multi-threaded"]);
    let walky = ctx.o.walky.clone();
    ctx.phase("placements", ctx.n(420, 9000), 8, |c| {
        let cmd = cs[c.rng.below(cs.len())].clone();
        // now and then a document of several hundred KiB up to a few MiB
        let n = if c.idx % 24 == 23 && cmd.sub != "exact" { c.rng.range(70, 330) } else { c.rng.range(2, 7) };
        if n > 7 {
            c.count("runs on documents of more than 100 KiB", 1);
        }
        let i = if cmd.alg == "christofides" {
            let k = *c.rng.pick(METRIC);
            inst::make(&mut c.rng, n, k)
        } else {
            inst::random_general(&mut c.rng, n)
        };
        let d = scratch(c, "d");
        let _ = std::fs::remove_dir_all(&d);
        let long = [b'n'; 250];
        let names: [&[u8]; 32] = [
            b"a.xml", b"with space.xml", "Gr\u{f6}\u{df}e \u{65e5}.xml".as_bytes(), b"noext", b"a.tsp", b"a.XML", b".hidden", b"-p", b"--help", b"a'b\"c$d.xml", b"x\xff\xfe.xml",
            b"results/8.xml", b"mst", b"%s%n.xml", b"a%20b.xml", b"%2e%2E.xml", b"a+b.xml", b"a.xml?x=1#f", b"file:a.xml", b"~", b"$HOME.xml", b"C:\\a.xml", b"-", b"a.xml.gz", b" a.xml ", b"*.xml",
            b"a\nb.xml", b"a.json", b"@a.xml", b"&amp;.xml", b"...", &long,
        ];
        // every name once, then at random
        let name = names[if c.idx < names.len() as u64 { c.idx as usize } else { c.rng.below(names.len()) }];
        let os = std::ffi::OsStr::from_bytes(name);
        let _ = std::fs::create_dir_all(format!("{d}/in/results"));
        let _ = std::fs::create_dir_all(format!("{d}/cwd"));
        let file = std::path::Path::new(&format!("{d}/in")).join(os);
        let place = *c.rng.pick(&["plain", "plain", "read-only", "symlink", "relative", "in cwd", "unprivileged", "unprivileged", "dotted", "with neighbours", "pipe", "stdin"]);
        // with an additional bound the program reads its input twice
        let place = if cmd.bound.is_some() && matches!(place, "pipe" | "stdin") { "plain" } else { place };
        if std::fs::write(&file, i.xml()).is_err() {
            c.inconclusive("cannot write a scratch file");
            return;
        }
        if place == "with neighbours" {
            for x in ["in/a.xml.bak", "in/a.xml~", "cwd/a.xml", "cwd/out", "in/results/7.xml"] {
                if !std::path::Path::new(&format!("{d}/{x}")).exists() {
                    let _ = std::fs::write(format!("{d}/{x}"), "other");
                }
            }
        }
        let link = format!("{d}/link to it");
        let mut cwd = format!("{d}/cwd");
        let arg: std::path::PathBuf = match place {
            "symlink" => {
                let _ = std::os::unix::fs::symlink(&file, &link);
                link.clone().into()
            }
            "relative" => std::path::Path::new("../in").join(os),
            "in cwd" => {
                cwd = format!("{d}/in");
                os.into()
            }
            "dotted" => std::path::Path::new(&format!("{d}/cwd/.././in//")).join(os),
            "stdin" => "/dev/stdin".into(),
            "pipe" => {
                let _ = std::fs::remove_file(&file);
                let made = std::ffi::CString::new(file.as_os_str().as_bytes()).map(|p| unsafe { libc::mkfifo(p.as_ptr(), 0o644) });
                if made != Ok(0) {
                    c.inconclusive("cannot make a pipe");
                    return;
                }
                file.clone()
            }
            _ => file.clone(),
        };
        let unpriv = if place == "unprivileged" { nobody(&walky) } else { None };
        if place == "read-only" || unpriv.is_some() {
            let _ = std::fs::set_permissions(&file, std::fs::Permissions::from_mode(0o444));
            for x in ["/in", "/in/results", "/cwd", ""] {
                let _ = std::fs::set_permissions(format!("{d}{x}"), std::fs::Permissions::from_mode(0o555));
            }
        }
        let mut p = Command::new(unpriv.unwrap_or(&walky));
        p.arg(cmd.sub).arg("-p").arg(cmd.mode);
        if let Some(b) = cmd.bound {
            p.arg("-l").arg(b);
        }
        p.arg(cmd.alg);
        if arg.as_os_str().as_bytes().starts_with(b"-") {
            p.arg("--");
        }
        p.arg(&arg).current_dir(&cwd).env("HOME", format!("{d}/cwd")).env("TMPDIR", format!("{d}/cwd")).env("RUST_BACKTRACE", "0");
        let threads = *c.rng.pick(&["", "1", "2", "3", "16", "0", "many"]);
        if !threads.is_empty() {
            p.env("RAYON_NUM_THREADS", threads);
        }
        let lang = *c.rng.pick(&["", "C", "de_DE.UTF-8", "tr_TR.UTF-8", "C.UTF-8"]);
        if !lang.is_empty() {
            p.env("LANG", lang).env("LC_ALL", lang).env("LC_NUMERIC", lang);
        }
        if c.rng.chance(0.1) {
            p.env_clear().env("RUST_BACKTRACE", "0");
        }
        if unpriv.is_some() {
            p.uid(65534).gid(65534);
        }
        let before = snap(&d);
        let xml = i.xml();
        let run = match place {
            "stdin" => run_fed(c, &mut p, 60, Some(xml.as_bytes())),
            "pipe" => {
                let done = std::sync::atomic::AtomicBool::new(false);
                std::thread::scope(|s| {
                    s.spawn(|| serve_pipe(&file, xml.as_bytes(), &done));
                    let r = run_child(c, &mut p, 60);
                    done.store(true, std::sync::atomic::Ordering::SeqCst);
                    r
                })
            }
            _ => run_child(c, &mut p, 60),
        };
        let after = snap(&d);
        let undo = |m: u32| {
            for x in ["", "/in", "/in/results", "/cwd"] {
                let _ = std::fs::set_permissions(format!("{d}{x}"), std::fs::Permissions::from_mode(m));
            }
        };
        undo(0o755);
        let _ = std::fs::remove_dir_all(&d);
        let Some(run) = run else { return };
        let what = format!("walky {} {} ({place}, file name {:?}, RAYON_NUM_THREADS={threads:?}, LANG={lang:?})", cmd.sub, cmd.alg, String::from_utf8_lossy(name));
        if before != after {
            let diff: Vec<String> = after.0.iter().filter(|x| !before.0.contains(x)).chain(before.0.iter().filter(|x| !after.0.contains(x))).map(|x| String::from_utf8_lossy(&x.0).into_owned()).collect();
            c.fail(format!("{what} changed the file system: {diff:?}"));
        } else if run.code != Some(0) {
            c.fail(format!("{what} does not succeed: {}; {}", cli::show(&run), i.text()));
        } else {
            let r = cli::reference(&i);
            let want = cli::labels(&cmd);
            if let Err(e) = cli::lines(&run.out, &want, &vec![1; want.len()]).and_then(|v| cli::judge(&i, &r, &cmd, &v)) {
                c.fail(format!("{what}: {e}; {}; {}", cli::show(&run), i.text()));
            }
        }
        if unpriv.is_some() {
            c.count("runs as an unprivileged user in a read-only directory", 1);
        }
        c.count("directory entries compared", before.0.len() as u64);
        c.eval(place, mix(i.hash() ^ hash_bytes(what.as_bytes())), i.nontrivial() && i.n >= 4);
        c.sample(place, || what.clone());
    });
    (
        "A case is one run of the program on an instance file placed somewhere unusual (odd names, read-only, through symbolic links, relative, as an unprivileged user, other locale, other thread-count environment); the whole scratch tree (names, modes, times, contents), which is also working directory, home and temporary directory, is compared before and after, and the printed values are judged. Non-trivial: at least 4 cities and more than one distinct cost.",
        vec!["regular files, and pipes where the input is read once"],
    )
}

// ---------------------------------------------------------------- C30

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Exact(usize),
    Threaded,
    NnSeq,
    NnPar,
    NnFrom(usize),
    MstSeq,
    MstPar,
    MstQueue,
    TreeSeq,
    TreePar,
    ChrSeq,
    ChrPar,
}

fn run_op(op: Op, m: &NAMatrix) -> (f64, Vec<usize>) {
    match op {
        Op::Exact(v) => solve_na(v, m),
        Op::Threaded => exact::threaded_solver(m),
        Op::NnSeq => nearest_neighbour::<SEQ_COMPUTATION>(m),
        Op::NnPar => nearest_neighbour::<PAR_COMPUTATION>(m),
        Op::NnFrom(s) => single_nearest_neighbour(m, s),
        Op::MstSeq => (prim::<SEQ_COMPUTATION>(m).undirected_edge_weight(), vec![]),
        Op::MstPar => (prim::<PAR_COMPUTATION>(m).undirected_edge_weight(), vec![]),
        Op::MstQueue => (prim_with_excluded_node_priority_queue(m, &[]).undirected_edge_weight(), vec![]),
        Op::TreeSeq => (one_tree_lower_bound::<SEQ_COMPUTATION>(m), vec![]),
        Op::TreePar => (one_tree_lower_bound::<PAR_COMPUTATION>(m), vec![]),
        Op::ChrSeq => christofides::<SEQ_COMPUTATION>(m),
        Op::ChrPar => christofides::<PAR_COMPUTATION>(m),
    }
}

struct Task {
    i: Inst,
    m: NAMatrix,
    opt: f64,
    mst: f64,
    tree: f64,
    nn: f64,
}

fn task(i: Inst) -> Task {
    Task { m: i.na(), opt: held_karp(&i).0, mst: mst_all(&i), tree: one_tree_bound(&i), nn: (0..i.n).filter_map(|s| nn_unique(&i, s)).fold(f64::INFINITY, f64::min), i }
}

/// Too large for an exact optimum.
fn large_task(i: Inst) -> Task {
    Task { m: i.na(), opt: f64::NAN, mst: mst_all(&i), tree: one_tree_bound(&i), nn: (0..i.n).filter_map(|s| nn_unique(&i, s)).fold(f64::INFINITY, f64::min), i }
}

fn judge_op(t: &Task, op: Op, r: &(f64, Vec<usize>)) -> Result<(), String> {
    let i = &t.i;
    match op {
        Op::Exact(_) | Op::Threaded => {
            if !close(r.0, t.opt) || !is_perm(&r.1, i.n) || !close(cycle_cost(i, &r.1), r.0) {
                return Err(format!("reports {:?} with path {:?}, the optimum is {:?}", r.0, r.1, t.opt));
            }
        }
        Op::NnSeq | Op::NnPar => {
            let s = *r.1.first().ok_or("empty tour")?;
            check_nn(i, s, r)?;
            if !le(r.0, t.nn) {
                return Err(format!("reports {:?}, some start city gives {:?}", r.0, t.nn));
            }
        }
        Op::NnFrom(s) => check_nn(i, s, r)?,
        Op::MstSeq | Op::MstPar | Op::MstQueue => {
            if !close(r.0, t.mst) {
                return Err(format!("weight {:?} instead of {:?}", r.0, t.mst));
            }
        }
        Op::TreeSeq | Op::TreePar => {
            if !close(r.0, t.tree) {
                return Err(format!("bound {:?} instead of {:?}", r.0, t.tree));
            }
        }
        Op::ChrSeq | Op::ChrPar => {
            let p = &r.1;
            if p.len() != i.n + 1 || p[0] != p[i.n] || !is_perm(&p[..i.n], i.n) || !close(walk_cost(i, p), r.0) {
                return Err(format!("reports {:?} with {p:?}, which is no tour of that cost", r.0));
            }
        }
    }
    Ok(())
}

pub fn c30(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    // several instances, mostly of one size, alike in parts: what a stale cache would confuse
    let family = |c: &mut Case, k: usize| -> Vec<Task> {
        let n = c.rng.range(3, 7);
        let first = inst::random_metric(&mut c.rng, n);
        let mut v = vec![];
        for j in 0..k {
            let i = match c.rng.below(5) {
                0 if j > 0 => first.scaled(*c.rng.pick(&[2.0, 0.5, 1024.0])),
                1 if j > 0 => {
                    let p = c.rng.perm(n);
                    first.relabel(&p)
                }
                2 => {
                    let m = c.rng.range(2, 8);
                    inst::random_metric(&mut c.rng, m)
                }
                _ => inst::random_metric(&mut c.rng, n),
            };
            v.push(task(if j == 0 { first.clone() } else { i }));
        }
        v
    };
    let ops = |c: &mut Case, n: usize| -> Op {
        match c.rng.below(16) {
            0..=5 => Op::Exact(c.rng.range(if n >= 7 { 1 } else { 0 }, 6)),
            6 => Op::Threaded,
            7 => Op::NnSeq,
            8 => Op::NnPar,
            9 => Op::NnFrom(c.rng.below(n)),
            10 => Op::MstSeq,
            11 => *c.rng.pick(&[Op::MstPar, Op::MstQueue]),
            12 => Op::TreeSeq,
            13 => Op::TreePar,
            14 => Op::ChrSeq,
            _ => Op::ChrPar,
        }
    };
    ctx.phase("sequence", ctx.n(600, 20_000), 8, |c| {
        let k = c.rng.range(2, 5);
        let ts = family(c, k);
        let steps = c.rng.range(8, 40);
        let t = c.rng.range(1, 4);
        let Some(pl) = pool(t) else { return };
        let sticky = c.rng.chance(0.4).then(|| ops(c, 4));
        let mut log = vec![];
        for _ in 0..steps {
            let k = c.rng.below(ts.len());
            let mut op = ops(c, ts[k].i.n);
            if let Some(s) = sticky {
                if c.rng.chance(0.8) && !matches!(s, Op::NnFrom(_)) {
                    op = s;
                }
            }
            log.push((k, op));
            let m = &ts[k].m;
            let Some(r) = c.call(&format!("{op:?}"), || if t > 1 { pl.install(|| run_op(op, m)) } else { run_op(op, m) }) else { return };
            if let Err(e) = judge_op(&ts[k], op, &r) {
                let l: Vec<String> = log.iter().map(|(k, o)| format!("{k}:{o:?}")).collect();
                c.fail(format!("{op:?} after the calls {l:?}: {e}; {}", ts[k].i.text()));
                return;
            }
        }
        c.count("calls judged", steps as u64);
        c.eval("sequence", mix(ts[0].i.hash() ^ hash_bytes(format!("{log:?}").as_bytes())), ts[0].i.n >= 4);
        c.sample("sequence", || format!("{} instances, calls {log:?}", ts.len()));
    });
    // large and small instances in turn: workspaces kept between calls, thresholds
    let wide = |c: &mut Case| -> Vec<Task> {
        let n = c.rng.range(33, 170);
        (0..c.rng.range(2, 4))
            .map(|j| {
                let n = match (j, c.rng.below(3)) {
                    (0, _) | (_, 0) => n,
                    (_, 1) => c.rng.range(3, 7),
                    _ => c.rng.range(33, 170),
                };
                // hubs, paths, ties: trees whose shapes differ as much as possible
                let k = *c.rng.pick(&["star", "star", "hub", "euclid", "line-eq", "tree", "uniform", "one-two", "single-cheap-cycle", "all-equal"]);
                let i = inst::make(&mut c.rng, n, k);
                if n <= 7 { task(i) } else { large_task(i) }
            })
            .collect()
    };
    let wide_op = |c: &mut Case, i: &Inst| -> Op {
        match c.rng.below(12) {
            0 if i.n <= 7 => Op::Exact(c.rng.range(1, 6)),
            1 if i.n <= 7 => Op::Threaded,
            0 | 1 | 2 => Op::MstSeq,
            3 => Op::MstPar,
            4 => Op::MstQueue,
            5 => Op::NnFrom(c.rng.below(i.n)),
            6 => Op::NnSeq,
            7 => Op::NnPar,
            8 => Op::TreeSeq,
            9 => Op::TreePar,
            10 if i.metric => Op::ChrSeq,
            11 if i.metric => Op::ChrPar,
            _ => Op::MstSeq,
        }
    };
    ctx.phase("large", ctx.n(70, 1200), 8, |c| {
        let ts = wide(c);
        let t = c.rng.range(1, 4);
        let Some(pl) = pool(t) else { return };
        let mut log = vec![];
        for _ in 0..c.rng.range(10, 20) {
            let k = c.rng.below(ts.len());
            let op = wide_op(c, &ts[k].i);
            log.push((k, op));
            let m = &ts[k].m;
            let Some(r) = c.call(&format!("{op:?}"), || if t > 1 { pl.install(|| run_op(op, m)) } else { run_op(op, m) }) else { return };
            if let Err(e) = judge_op(&ts[k], op, &r) {
                let l: Vec<String> = log.iter().map(|(k, o)| format!("{k}:{o:?}")).collect();
                c.fail(format!("{op:?} after the calls {l:?}: {e}; instances {:?}; {}", ts.iter().map(|t| (t.i.n, t.i.class)).collect::<Vec<_>>(), ts[k].i.text()));
                return;
            }
        }
        c.count("calls judged", log.len() as u64);
        c.eval("large", mix(ts[0].i.hash() ^ hash_bytes(format!("{log:?}").as_bytes())), true);
    });
    ctx.phase("concurrent", ctx.n(250, 9000), 2, |c| {
        let k = c.rng.range(2, 4);
        let large = c.idx % 10 == 9;
        let ts = if large { wide(c) } else { family(c, k) };
        let threads = c.rng.range(2, 6);
        let own_pool = c.rng.chance(0.3);
        let plans: Vec<Vec<(usize, Op)>> = (0..threads)
            .map(|_| {
                (0..c.rng.range(4, 14))
                    .map(|_| {
                        let k = c.rng.below(ts.len());
                        (k, if large { wide_op(c, &ts[k].i) } else { ops(c, ts[k].i.n) })
                    })
                    .collect()
            })
            .collect();
        let nested = c.rng.chance(0.4);
        let pl = pool(c.rng.range(1, 4));
        let work = |plan: &Vec<(usize, Op)>| -> Result<(), String> {
            for &(k, op) in plan {
                let m = &ts[k].m;
                let r = guarded(|| match &pl {
                    Some(p) if own_pool => p.install(|| run_op(op, m)),
                    _ => run_op(op, m),
                })
                .map_err(|e| format!("{op:?} panicked: {e}; {}", ts[k].i.text()))?;
                judge_op(&ts[k], op, &r).map_err(|e| format!("{op:?}: {e}; {}", ts[k].i.text()))?;
            }
            Ok(())
        };
        c.what("concurrent calls");
        let res: Vec<Result<(), String>> = if nested {
            plans.par_iter().map(work).collect()
        } else {
            std::thread::scope(|s| {
                let hs: Vec<_> = plans.iter().map(|p| s.spawn(|| work(p))).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread panicked".into()))).collect()
            })
        };
        for r in res {
            if let Err(e) = r {
                c.fail(format!("{threads} callers at once (nested in a pool: {nested}): {e}; plans {plans:?}"));
                break;
            }
        }
        c.count("calls judged", plans.iter().map(|p| p.len() as u64).sum());
        c.eval(if nested { "inside a parallel iterator" } else { "from several threads" }, mix(ts[0].i.hash() ^ hash_bytes(format!("{plans:?}").as_bytes())), ts[0].i.n >= 4);
    });
    (
        "A case is a family of instances, mostly of one size and partly scaled or renamed copies, on which a random sequence of algorithms runs: on one thread (8 to 40 calls), from several threads at once, or inside a parallel iterator; every result is judged on its own instance. Non-trivial: at least 4 cities.",
        vec!["instances of 2 to 8 metric cities, or of up to 170 cities for everything but the exact solvers"],
    )
}

// ---------------------------------------------------------------- C31

pub fn c31(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let cs = cli::combos(&["single-threaded", "multi-threaded"]);
    const KINDS: &[&str] = &[
        "unknown algorithm", "algorithm of another subcommand", "no algorithm", "no file", "nothing", "extra argument", "unknown option", "unknown mode", "mode without value",
        "mode twice", "bound on exact", "bound on lower-bound", "unknown bound", "bound without value", "bound twice", "unknown subcommand", "no subcommand", "empty algorithm", "capitalised algorithm",
        "two subcommands", "mpi without the feature", "algorithm prefix", "missing file", "directory", "value on a flag", "subcommand prefix", "abbreviated option", "abbreviated mode", "two files", "negative number",
    ];
    ctx.phase("refused", ctx.n(KINDS.len() as u64 * 10, KINDS.len() as u64 * 120), 8, |c| {
        let kind = KINDS[c.idx as usize % KINDS.len()];
        let cmd = cs[c.rng.below(cs.len())].clone();
        let n = c.rng.range(2, 6);
        let i = inst::random_metric(&mut c.rng, n);
        let f = scratch(c, "xml");
        if std::fs::write(&f, i.xml()).is_err() {
            c.inconclusive("cannot write a scratch file");
            return;
        }
        let (mut sub, mut alg) = (vec![cmd.sub.to_string()], vec![cmd.alg.to_string()]);
        let mut mode = vec!["-p".to_string(), cmd.mode.to_string()];
        let mut bound: Vec<String> = cmd.bound.map(|b| vec!["-l".to_string(), b.to_string()]).unwrap_or_default();
        let mut file = vec![f.clone()];
        let mut extra: Vec<String> = vec![];
        match kind {
            "unknown algorithm" => alg = vec![c.rng.pick(&["v7", "v", "0", "v-1", "v00", "bruteforce", "2-opt", "one tree", "-", "mst_queue", "V10"]).to_string()],
            "algorithm of another subcommand" => {
                alg = vec![match cmd.sub {
                    "exact" => *c.rng.pick(&["nearest-neighbour", "christofides", "mst", "one-tree"]),
                    "approx" => *c.rng.pick(&["v0", "v6", "mst", "one-tree", "mst-queue"]),
                    _ => *c.rng.pick(&["v0", "christofides", "nearest-neighbour"]),
                }
                .to_string()]
            }
            "no algorithm" => alg.clear(),
            "no file" => file.clear(),
            "nothing" => {
                alg.clear();
                file.clear();
            }
            "extra argument" => extra = vec![c.rng.pick(&["x", "v1", "mst", &f]).to_string()],
            "unknown option" => extra = vec![c.rng.pick(&["--fast", "-x", "--threads=4", "--seed", "-j4", "--parallel", "--output=/dev/null"]).to_string()],
            "unknown mode" => mode[1] = c.rng.pick(&["threads", "single", "parallel", "multi_threaded", "4", "", "Single-Threaded"]).to_string(),
            "mode without value" => {
                mode.clear();
                extra = vec!["-p".into()];
            }
            "mode twice" => extra = vec!["-p".into(), c.rng.pick(&["single-threaded", "multi-threaded"]).to_string()],
            "bound on exact" => {
                sub[0] = "exact".into();
                alg[0] = format!("v{}", c.rng.below(7));
                bound = vec!["-l".into(), "mst".into()];
            }
            "bound on lower-bound" => {
                sub[0] = "lower-bound".into();
                alg[0] = "mst".into();
                bound = vec!["-l".into(), "mst".into()];
            }
            "unknown bound" | "bound without value" | "bound twice" => {
                sub[0] = "approx".into();
                alg[0] = c.rng.pick(&["nearest-neighbour", "christofides"]).to_string();
                bound = vec!["-l".into(), "mst".into()];
                match kind {
                    "unknown bound" => bound[1] = c.rng.pick(&["v0", "mst2", "christofides", "1-tree", "", "MST"]).to_string(),
                    "bound twice" => bound.extend(["--lower-bound".to_string(), "one-tree".to_string()]),
                    _ => {
                        bound.clear();
                        extra = vec!["-l".into()];
                    }
                }
            }
            "unknown subcommand" => sub[0] = c.rng.pick(&["solve", "exakt", "Exact", "lower_bound", "", "approximate"]).to_string(),
            "no subcommand" => sub.clear(),
            "empty algorithm" => alg[0].clear(),
            "capitalised algorithm" => alg[0] = alg[0].to_uppercase(),
            "two subcommands" => sub.push(c.rng.pick(&["exact", "approx", "lower-bound"]).to_string()),
            "mpi without the feature" => mode[1] = "mpi".into(),
            "algorithm prefix" => alg[0] = c.rng.pick(&["near", "chr", "one", "mst-", "v", "christo"]).to_string(),
            "missing file" => file[0].push_str(".none"),
            "directory" => file[0] = scratch_dir(),
            "subcommand prefix" => sub[0] = c.rng.pick(&["ex", "exac", "app", "lower", "low", "e", "lower-boun"]).to_string(),
            "abbreviated option" => mode[0] = c.rng.pick(&["--para", "--p", "--parallel", "-parallelism"]).to_string(),
            "abbreviated mode" => mode[1] = c.rng.pick(&["single", "multi", "s", "multi-thread"]).to_string(),
            "two files" => file.push(f.clone()),
            "negative number" => alg = vec!["-1".into()],
            _ => extra = vec!["--parallelism=single-threaded=x".into()],
        }
        if kind == "value on a flag" {
            mode.clear();
        }
        let mut args = sub;
        if c.rng.chance(0.5) {
            args.extend(mode);
            args.extend(bound);
            args.extend(alg);
            args.extend(file);
        } else {
            args.extend(alg);
            args.extend(file);
            args.extend(bound);
            args.extend(mode);
        }
        args.extend(extra);
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let run = run_cli(c, &a);
        let _ = std::fs::remove_file(&f);
        let Some(run) = run else { return };
        let res = ["Best Cost", "Best Permutation", "solution", "lower bound:"];
        if run.code == Some(0) || res.iter().any(|k| run.out.contains(k)) {
            c.fail(format!("walky {} ({kind}) is not refused: {}", args.join(" "), cli::show(&run)));
        } else if run.signal.is_some() {
            c.fail(format!("walky {} ({kind}) crashes: {}", args.join(" "), cli::show(&run)));
        } else if run.err.trim().is_empty() {
            c.fail(format!("walky {} ({kind}) is refused without any message", args.join(" ")));
        }
        c.eval(kind, hash_bytes(args.join(" ").replace(&f, "F").as_bytes()), true);
        c.sample(kind, || format!("walky {} -> {:?}", args.join(" "), run.code));
    });
    // every name of one or two characters in every place (initials, abbreviations), and plausible words
    const WORDS: &[&str] = &[
        "nearest", "neighbour", "nearest-neighbor", "nearestneighbour", "nearest_neighbour", "NearestNeighbour", "christophides", "christofides-serdyukov", "Christofides", "chr", "naive",
        "brute-force", "held-karp", "first", "second", "third", "fourth", "fifth", "sixth", "best", "default", "fastest", "branch-and-bound", "prim", "kruskal", "boruvka", "mstqueue",
        "mst_queue", "queue", "priority-queue", "1-tree", "1tree", "onetree", "one_tree", "OneTree", "tree", "MST", "MSTQueue", "single", "multi", "single_threaded", "multi_threaded", "singlethreaded",
        "multithreaded", "SingleThreaded", "MultiThreaded", "seq", "par", "sequential", "parallel", "threads", "threaded", "rayon", "mpi", "MPI", "none", "auto", "approximate", "approximation", "exactly",
        "lowerbound", "lower_bound", "bound", "lower", "lb", "solve", "v00", "v01", "v10", "version0", "static", "dynamic",
    ];
    const ALNUM: &[u8] = b"abcdefghijklmnopqrstuvwxyz0123456789";
    ctx.phase("names", 36 + 36 * 36 + WORDS.len() as u64, 8, |c| {
        let k = c.idx as usize;
        let name = if k < WORDS.len() {
            WORDS[k].to_string()
        } else {
            let k = k - WORDS.len();
            let mut s = String::new();
            if k >= 36 {
                s.push(ALNUM[(k / 36 - 1) % 36] as char);
            }
            s.push(ALNUM[k % 36] as char);
            s
        };
        let f = scratch(c, "xml");
        if std::fs::write(&f, inst::random_metric(&mut c.rng, 3).xml()).is_err() {
            c.inconclusive("cannot write a scratch file");
            return;
        }
        let short = format!("-{name}");
        let long = format!("--{name}");
        let mut cmds: Vec<Vec<&str>> = vec![
            vec!["exact", &name, &f], vec!["approx", &name, &f], vec!["lower-bound", &name, &f], vec![&name, "v1", &f],
            vec!["exact", "v1", &f, "-p", &name], vec!["approx", "christofides", &f, "-l", &name],
        ];
        if k % 4 == 0 || name.len() != 2 {
            cmds.push(vec!["lower-bound", "mst", &f, &long]);
            if name.len() == 1 {
                cmds.push(vec!["approx", "christofides", &f, &short]);
                cmds.push(vec![&short, "exact", "v1", &f]);
            }
        }
        let known = |a: &[&str]| {
            let v = a.get(1).is_some_and(|x| ["v0", "v1", "v2", "v3", "v4", "v5", "v6"].contains(x));
            a[0] == "exact" && v && a.len() == 3
                || a.iter().any(|x| ["-h", "-V", "--h", "--V"].contains(x))
        };
        for a in cmds.iter().filter(|a| !known(a)) {
            let Some(run) = run_cli(c, a) else { break };
            if run.code == Some(0) || ["Best", "solution", "lower bound:"].iter().any(|k| run.out.contains(k)) || run.signal.is_some() {
                c.fail(format!("walky {} is not refused: {}", a.join(" "), cli::show(&run)));
                break;
            }
            c.count("invocations with undocumented names refused", 1);
        }
        let _ = std::fs::remove_file(&f);
        c.eval("names", hash_bytes(name.as_bytes()), true);
    });
    const HELP: &[(&[&str], &[&str])] = &[
        (&["--help"], &["exact", "approx", "lower-bound", "Usage"]),
        (&["-h"], &["exact", "approx", "lower-bound", "Usage"]),
        (&["help"], &["exact", "approx", "lower-bound", "Usage"]),
        (&["exact", "--help"], &["v0", "v1", "v2", "v3", "v4", "v5", "v6", "single-threaded", "multi-threaded", "--parallelism"]),
        (&["help", "exact"], &["v0", "v6", "single-threaded", "multi-threaded"]),
        (&["approx", "--help"], &["nearest-neighbour", "christofides", "one-tree", "mst", "mst-queue", "--lower-bound", "single-threaded", "multi-threaded"]),
        (&["lower-bound", "--help"], &["one-tree", "mst", "mst-queue", "single-threaded", "multi-threaded"]),
        (&["lower-bound", "-h"], &["one-tree", "mst", "mst-queue"]),
        (&["--version"], &["walky"]),
        (&["-V"], &["walky"]),
    ];
    ctx.phase("help", HELP.len() as u64, 4, |c| {
        let (args, want) = HELP[c.idx as usize % HELP.len()];
        let Some(run) = run_cli(c, args) else { return };
        if run.code != Some(0) {
            c.fail(format!("walky {args:?} does not succeed: {}", cli::show(&run)));
        }
        for w in want {
            if !run.out.contains(w) {
                c.fail(format!("walky {args:?} does not mention {w}: {}", cli::show(&run)));
            }
        }
        c.eval("help", hash_bytes(args.join(" ").as_bytes()), true);
    });
    (
        "A case is one invocation that departs from the documented grammar in one of 30 ways (on a valid file), or one request for help; refused means non-zero status, a message, no crash and no result line. Non-trivial: all.",
        vec!["the binary is built without the mpi feature"],
    )
}

