//! C14
use super::parse::{run_cli, scratch, Run};
use crate::core::{Case, Ctx};
use crate::inst::{self, Inst, METRIC};
use crate::oracle::*;
use crate::rng::mix;

#[derive(Clone, Debug)]
pub struct Cmd {
    /// exact / approx / lower-bound
    pub sub: &'static str,
    pub alg: &'static str,
    pub mode: &'static str,
    pub bound: Option<&'static str>,
}

pub const BOUNDS: [&str; 3] = ["one-tree", "mst", "mst-queue"];

pub fn combos(modes: &[&'static str]) -> Vec<Cmd> {
    let mut v = vec![];
    for &mode in modes {
        for alg in ["v0", "v1", "v2", "v3", "v4", "v5", "v6"] {
            v.push(Cmd { sub: "exact", alg, mode, bound: None });
        }
        for alg in ["nearest-neighbour", "christofides"] {
            for bound in [None, Some("one-tree"), Some("mst"), Some("mst-queue")] {
                v.push(Cmd { sub: "approx", alg, mode, bound });
            }
        }
        for alg in BOUNDS {
            v.push(Cmd { sub: "lower-bound", alg, mode, bound: None });
        }
    }
    v
}

/// Values of the printed lines, each label printed exactly `copies` times with the same value and
/// nothing else printed.
pub fn lines(out: &str, want: &[&str], copies: &[usize]) -> Result<Vec<String>, String> {
    let mut got: Vec<Vec<String>> = vec![vec![]; want.len()];
    for l in out.lines() {
        let Some((k, v)) = l.split_once(": ") else {
            return Err(format!("unexpected line {l:?}"));
        };
        let Some(p) = want.iter().position(|w| *w == k) else {
            return Err(format!("unexpected line {l:?}"));
        };
        got[p].push(v.to_string());
    }
    let mut res = vec![];
    for (k, g) in got.iter().enumerate() {
        if g.len() != copies[k] {
            return Err(format!("{:?} printed {} times instead of {}", want[k], g.len(), copies[k]));
        }
        if g.iter().any(|x| *x != g[0]) {
            return Err(format!("{:?} printed with different values {g:?}", want[k]));
        }
        res.push(g[0].clone());
    }
    Ok(res)
}

pub fn number(s: &str) -> Result<f64, String> {
    s.parse::<f64>().map_err(|_| format!("{s:?} is not a number"))
}

pub fn path(s: &str) -> Result<Vec<usize>, String> {
    let t = s.strip_prefix('[').and_then(|s| s.strip_suffix(']')).ok_or(format!("{s:?} is not a list"))?;
    t.split(',').map(|x| x.trim().parse().map_err(|_| format!("{s:?} is not a list of cities"))).collect()
}

pub fn labels(cmd: &Cmd) -> Vec<&'static str> {
    let b = |x: &str| if x == "one-tree" { "1-tree lower bound" } else { "MST lower bound" };
    let mut v = match (cmd.sub, cmd.alg) {
        ("exact", _) => vec!["Best Cost", "Best Permutation"],
        ("approx", "christofides") => vec!["Christofides solution weight"],
        ("approx", _) => vec!["Nearest Neighbour solution weight", "Nearest Neighbour solution"],
        (_, a) => vec![b(a)],
    };
    if let Some(x) = cmd.bound {
        v.push(b(x));
    }
    v
}

/// Reference values of one instance.
pub struct Ref {
    pub opt: f64,
    pub mst: f64,
    pub one_tree: f64,
    /// all tour costs, sorted (small instances)
    pub tours: Option<Vec<f64>>,
    /// (largest admissible, smallest known) cost of the best nearest-neighbour tour
    pub nn_max: f64,
    pub chr_max: Option<f64>,
}

pub fn reference(i: &Inst) -> Ref {
    let tours = (i.n <= 8).then(|| {
        let mut v = vec![];
        let mut p: Vec<usize> = (0..i.n).collect();
        fn rec(i: &Inst, p: &mut Vec<usize>, k: usize, v: &mut Vec<f64>) {
            if k == p.len() {
                v.push(cycle_cost(i, p));
                return;
            }
            for j in k..p.len() {
                p.swap(k, j);
                rec(i, p, k + 1, v);
                p.swap(k, j);
            }
        }
        rec(i, &mut p, 1, &mut v);
        v.sort_by(f64::total_cmp);
        v
    });
    Ref {
        opt: if i.n <= 13 { held_karp(i).0 } else { f64::NAN },
        mst: mst_all(i),
        one_tree: one_tree_bound(i),
        tours,
        nn_max: (0..i.n).filter_map(|s| nn_unique(i, s)).fold(f64::INFINITY, f64::min),
        chr_max: christofides_cap(i),
    }
}

impl Ref {
    pub fn is_tour_cost(&self, c: f64) -> bool {
        match &self.tours {
            None => true,
            Some(t) => {
                let k = t.partition_point(|x| *x < c);
                (k < t.len() && close(t[k], c)) || (k > 0 && close(t[k - 1], c)) || t.iter().any(|x| close(*x, c))
            }
        }
    }
}

/// Judge the values of one run.
pub fn judge(i: &Inst, r: &Ref, cmd: &Cmd, v: &[String]) -> Result<(), String> {
    let first = number(&v[0])?;
    match (cmd.sub, cmd.alg) {
        ("exact", _) => {
            let p = path(&v[1])?;
            if !is_perm(&p, i.n) {
                return Err(format!("{p:?} is not a permutation of the cities"));
            }
            let w = cycle_cost(i, &p);
            if !close(w, first) {
                return Err(format!("cost {first:?} printed for a tour of cost {w:?}"));
            }
            if !close(first, r.opt) {
                return Err(format!("cost {first:?}, the optimum is {:?}", r.opt));
            }
        }
        ("approx", "christofides") => {
            let n = i.n as f64;
            if !r.opt.is_nan() && !le(r.opt, first) {
                return Err(format!("Christofides cost {first:?} below the optimum {:?}", r.opt));
            }
            if !le(first, r.mst + (n / 2.0).floor() * i.max()) {
                return Err(format!("Christofides cost {first:?} above the tree {:?} plus any matching", r.mst));
            }
            if let Some(m) = r.chr_max {
                if first > m * (1.0 + 1e-9) {
                    return Err(format!("Christofides cost {first:?} above tree plus matching, at most {m:?}"));
                }
            }
            if !r.is_tour_cost(first) {
                return Err(format!("no tour costs {first:?}"));
            }
        }
        ("approx", _) => {
            let p = path(&v[1])?;
            if p.is_empty() || p[0] >= i.n {
                return Err(format!("{p:?} is not a tour"));
            }
            check_nn(i, p[0], &(first, p.clone()))?;
            if !le(first, r.nn_max) {
                return Err(format!("nearest-neighbour cost {first:?}, some start city gives {:?}", r.nn_max));
            }
        }
        (_, a) => {
            let want = if a == "one-tree" { r.one_tree } else { r.mst };
            if !close(first, want) {
                return Err(format!("bound {first:?} instead of {want:?}"));
            }
        }
    }
    if let Some(b) = cmd.bound {
        let want = if b == "one-tree" { r.one_tree } else { r.mst };
        let got = number(v.last().unwrap())?;
        if !close(got, want) {
            return Err(format!("{b} bound {got:?} instead of {want:?}"));
        }
    }
    Ok(())
}

pub fn show(r: &Run) -> String {
    format!("status {:?} signal {:?} stdout {:?} stderr {:?}", r.code, r.signal, crate::core::truncate(&r.out, 400), crate::core::truncate(&r.err, 300))
}

pub fn c14(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let cs = combos(&["single-threaded", "multi-threaded"]);
    let one = |c: &mut Case, cmd: &Cmd, i: &Inst, r: &Ref| {
        let f = scratch(c, "xml");
        let xml = if c.rng.chance(0.5) {
            i.xml()
        } else {
            let d = super::parse::doc(&mut c.rng, i, false);
            let s = super::parse::Style::random(&mut c.rng);
            super::parse::write(&mut c.rng, &d, &s)
        };
        if std::fs::write(&f, xml).is_err() {
            c.inconclusive("cannot write a scratch file");
            return;
        }
        // the ways to spell the options
        let mut args: Vec<String> = vec![];
        let mode: Vec<String> = match c.rng.below(4) {
            0 if cmd.mode == "single-threaded" => vec![],
            1 => vec!["--parallelism".into(), cmd.mode.into()],
            2 => vec![format!("--parallelism={}", cmd.mode)],
            _ => vec!["-p".into(), cmd.mode.into()],
        };
        let bound: Vec<String> = match cmd.bound {
            None => vec![],
            Some(b) => match c.rng.below(3) {
                0 => vec!["--lower-bound".into(), b.into()],
                1 => vec![format!("-l{b}")],
                _ => vec!["-l".into(), b.into()],
            },
        };
        args.push(cmd.sub.into());
        if c.rng.chance(0.3) {
            args.extend(mode);
            args.extend(bound);
            args.extend([cmd.alg.to_string(), f.clone()]);
        } else {
            args.extend([cmd.alg.to_string(), f.clone()]);
            args.extend(bound);
            args.extend(mode);
        }
        let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let run = run_cli(c, &a);
        let _ = std::fs::remove_file(&f);
        let Some(run) = run else { return };
        let want = labels(cmd);
        let verdict = if run.code != Some(0) {
            Err("does not succeed".to_string())
        } else {
            lines(&run.out, &want, &vec![1; want.len()]).and_then(|v| judge(i, r, cmd, &v))
        };
        if let Err(e) = verdict {
            c.fail(format!("walky {}: {e}; {}; {}", args.join(" "), show(&run), i.text()));
        }
        c.count("result lines judged", want.len() as u64);
        c.eval(&format!("{} {} {}{}", cmd.sub, cmd.alg, cmd.mode, cmd.bound.map(|b| format!(" -l {b}")).unwrap_or_default()), mix(i.hash() ^ crate::rng::hash_bytes(format!("{cmd:?}").as_bytes())), i.nontrivial() && i.n >= 4);
        c.sample(&format!("{} {}", cmd.sub, cmd.alg), || format!("walky {} -> {:?}; {}", args.join(" "), run.out, i.text()));
    };
    let m = cs.len() as u64;
    ctx.phase("all-combinations", ctx.n(m * 12, m * 200), 8, |c| {
        let cmd = &cs[c.idx as usize % cs.len()];
        let n = if cmd.sub == "exact" { c.rng.range(2, 7) } else { c.rng.range(2, 8) };
        let i = if cmd.alg == "christofides" {
            let k = *c.rng.pick(METRIC);
            inst::make(&mut c.rng, n, k)
        } else {
            inst::random_general(&mut c.rng, n)
        };
        let r = reference(&i);
        one(c, cmd, &i, &r);
    });
    ctx.phase("larger", ctx.n(160, 3000), 8, |c| {
        let cmd = cs[c.rng.below(cs.len())].clone();
        if cmd.sub == "exact" && ["v3", "v4", "v5", "v6"].contains(&cmd.alg) && c.rng.chance(0.3) {
            let n = c.rng.range(10, 16);
            let (i, best) = inst::planted(&mut c.rng, n, 1);
            let r = Ref { opt: best, ..reference(&i) };
            one(c, &cmd, &i, &r);
            return;
        }
        let n = if cmd.sub == "exact" { c.rng.range(8, if cmd.alg == "v0" { 8 } else { 9 }) } else { c.rng.range(9, 60) };
        let i = if cmd.alg == "christofides" {
            let k = *c.rng.pick(METRIC);
            inst::make(&mut c.rng, n, k)
        } else {
            inst::random_general(&mut c.rng, n)
        };
        let r = reference(&i);
        one(c, &cmd, &i, &r);
    });
    ctx.phase("big", ctx.n(20, 300), 8, |c| {
        let cmd = cs.iter().filter(|c| c.sub != "exact").nth(c.idx as usize % cs.iter().filter(|c| c.sub != "exact").count()).unwrap().clone();
        let n = c.rng.range(130, 320);
        let i = if cmd.alg == "christofides" {
            let k = *c.rng.pick(METRIC);
            inst::make(&mut c.rng, n, k)
        } else {
            inst::random_general(&mut c.rng, n)
        };
        let r = reference(&i);
        one(c, &cmd, &i, &r);
    });
    (
        "A case is one run of the program: each of the 36 combinations of subcommand, algorithm, mode and lower bound on random instances (2 to 320 cities) in varied XML and option spellings; every printed line is parsed and its value recomputed. Non-trivial: at least 4 cities and more than one distinct cost.",
        vec!["Christofides only on metric instances", "values are compared to relative 1e-12"],
    )
}
