//! C22: the shipped generators
use super::cli::{lines, number};
use super::parse::{run_child, run_cli, scratch};
use crate::core::{Case, Ctx};
use crate::inst::Inst;
use crate::oracle::*;
use crate::rng::{hash_bytes, mix};
use std::process::Command;
use walky::parser::TravellingSalesmanProblemInstance;

/// The costs written in a document, by a scan that shares nothing with walky's parser.
/// None: not a document of the shape the generators write.
fn scan(xml: &str) -> Result<Vec<Vec<(usize, String)>>, String> {
    let mut rows = vec![];
    let mut rest = xml;
    while let Some(a) = rest.find("<vertex") {
        rest = &rest[a + 7..];
        let Some(gt) = rest.find('>') else { return Err("unfinished tag".into()) };
        let selfclosed = rest[..gt].ends_with('/');
        rest = &rest[gt + 1..];
        let mut row = vec![];
        if !selfclosed {
            let Some(e) = rest.find("</vertex>") else { return Err("vertex not closed".into()) };
            let mut body = &rest[..e];
            rest = &rest[e..];
            while let Some(a) = body.find("<edge") {
                body = &body[a + 5..];
                let gt = body.find('>').ok_or("unfinished edge")?;
                let tag = &body[..gt];
                let q = tag.find("cost=").ok_or("edge without a cost")?;
                let quote = tag[q + 5..].chars().next().ok_or("edge without a cost")?;
                let val = tag[q + 6..].split(quote).next().unwrap_or("");
                body = &body[gt + 1..];
                let e = body.find("</edge").ok_or("edge not closed")?;
                let to = body[..e].trim().parse().map_err(|_| format!("edge to {:?}", &body[..e]))?;
                row.push((to, val.to_string()));
                body = &body[e..];
            }
        }
        rows.push(row);
    }
    Ok(rows)
}

/// The matrix of a complete instance of `n` cities, written exactly once per direction.
fn matrix(rows: &[Vec<(usize, String)>], n: usize) -> Result<(Inst, Vec<String>), String> {
    if rows.len() != n {
        return Err(format!("{} cities instead of {n}", rows.len()));
    }
    let mut c = vec![f64::NAN; n * n];
    let mut t = vec![String::new(); n * n];
    for (a, r) in rows.iter().enumerate() {
        for (b, v) in r {
            if *b >= n || *b == a {
                return Err(format!("edge from {a} to {b} in an instance of {n} cities"));
            }
            if !c[a * n + b].is_nan() {
                return Err(format!("two edges from {a} to {b}"));
            }
            let x: f64 = v.parse().map_err(|_| format!("cost {v:?}"))?;
            if !x.is_finite() || x < 0.0 {
                return Err(format!("cost {v:?}"));
            }
            c[a * n + b] = x;
            t[a * n + b] = v.clone();
        }
    }
    for a in 0..n {
        c[a * n + a] = 0.0;
        for b in 0..n {
            if c[a * n + b].is_nan() {
                return Err(format!("no edge from {a} to {b}"));
            }
            if c[a * n + b] != c[b * n + a] && a != b && !c[b * n + a].is_nan() {
                return Err(format!("cost {:?} from {a} to {b} but {:?} back", c[a * n + b], c[b * n + a]));
            }
        }
    }
    Ok((Inst { n, c, class: "generated", metric: true }, t))
}

/// Does a large document describe `n` cities with one edge to every other one, the same both ways?
fn complete(xml: &str, n: usize) -> Result<u64, String> {
    let mut m = vec![f64::NAN; n * n];
    let (mut a, mut h) = (0, 0u64);
    for body in xml.split("<vertex").skip(1) {
        if a == n {
            return Err(format!("more than {n} cities"));
        }
        for e in body.split("<edge").skip(1) {
            let bad = || format!("an edge of city {a} is written as {:?}", e.chars().take(80).collect::<String>());
            let (tag, rest) = e.split_once('>').ok_or_else(bad)?;
            let cost: f64 = tag.split(['"', '\'']).nth(1).and_then(|x| x.parse().ok()).ok_or_else(bad)?;
            let b: usize = rest.split('<').next().and_then(|x| x.trim().parse().ok()).ok_or_else(bad)?;
            if b >= n || b == a || !m[a * n + b].is_nan() || !cost.is_finite() || cost < 0.0 {
                return Err(format!("city {a} has an edge to {b} that costs {cost:?}, out of place or for the second time"));
            }
            m[a * n + b] = cost;
            h = mix(h ^ cost.to_bits());
        }
        a += 1;
    }
    if a != n {
        return Err(format!("{a} cities instead of {n}"));
    }
    for a in 0..n {
        for b in 0..a {
            let (p, q) = (m[a * n + b], m[b * n + a]);
            if p.is_nan() || q.is_nan() {
                return Err(format!("no edge between {a} and {b}, or in one direction only"));
            }
            if p != q {
                return Err(format!("cost {p:?} from {a} to {b} but {q:?} back"));
            }
        }
    }
    Ok(h)
}

/// Distances of points in the plane, to the precision of a double.
/// Ok(worst residual relative to what rounding explains), or None if the points are too close to
/// a line for a verdict.
fn euclidean(i: &Inst) -> Result<Option<f64>, String> {
    let n = i.n;
    let mut d = 0.0f64;
    let (mut a, mut b) = (0, 0);
    for x in 0..n {
        for y in 0..x {
            if i.g(x, y) > d {
                d = i.g(x, y);
                (a, b) = (x, y);
            }
        }
    }
    if n >= 3 && d == 0.0 {
        return Err("all costs are zero".into());
    }
    for x in 0..n {
        for y in 0..x {
            for z in 0..n {
                if i.g(x, y) > i.g(x, z) + i.g(z, y) + 1e-13 * d {
                    return Err(format!("triangle inequality broken: cost({x},{y})={:?} but {:?} + {:?} via {z}", i.g(x, y), i.g(x, z), i.g(z, y)));
                }
            }
        }
    }
    if n < 4 {
        return Ok(None);
    }
    let xs: Vec<f64> = (0..n).map(|p| (i.g(a, p).powi(2) + d * d - i.g(b, p).powi(2)) / (2.0 * d)).collect();
    let h: Vec<f64> = (0..n).map(|p| (i.g(a, p).powi(2) - xs[p] * xs[p]).max(0.0).sqrt()).collect();
    let c = (0..n).max_by(|p, q| h[*p].total_cmp(&h[*q])).unwrap();
    if h[c] < 0.02 * d {
        return Ok(None);
    }
    let (cx, cy) = (xs[c], h[c]);
    let ys: Vec<f64> = (0..n).map(|p| (i.g(a, p).powi(2) - i.g(c, p).powi(2) + cx * cx + cy * cy - 2.0 * xs[p] * cx) / (2.0 * cy)).collect();
    let tol = 3e-14 * d * (d / cy).powi(2);
    let mut worst = 0.0f64;
    for x in 0..n {
        for y in 0..x {
            let e = ((xs[x] - xs[y]).powi(2) + (ys[x] - ys[y]).powi(2)).sqrt();
            let r = (e - i.g(x, y)).abs();
            if r > tol {
                return Err(format!(
                    "not distances of points in the plane at double precision: cost({x},{y})={:?}, but the other costs place the points {e:?} apart (largest cost {d:?}, tolerance {tol:.1e})",
                    i.g(x, y)
                ));
            }
            worst = worst.max(r / tol);
        }
    }
    Ok(Some(worst))
}

/// Everything a generated document must satisfy.
fn judge(c: &mut Case, gen: &str, xml: &str, n: usize) -> Option<(Inst, Vec<String>)> {
    let bad = |c: &mut Case, e: String| {
        c.fail(format!("{gen}: {e}; document: {}", crate::core::truncate(xml, 1500)));
    };
    let (i, t) = match scan(xml).and_then(|r| matrix(&r, n)) {
        Ok(x) => x,
        Err(e) => {
            bad(c, e);
            return None;
        }
    };
    match euclidean(&i) {
        Err(e) => {
            bad(c, e);
            return None;
        }
        Ok(None) => c.count("documents too small or flat for the plane embedding", 1),
        Ok(Some(w)) => {
            c.count("documents embedded in the plane", 1);
            c.max("worst embedding residual relative to its tolerance", w);
        }
    }
    c.count("edges judged", (n * (n - 1)) as u64);
    // generated distances are irrational: written with fewer digits than the document announces
    // (doublePrecision 15), they are not the generated ones any more
    if n >= 5 {
        let mut digits: Vec<usize> = vec![];
        for a in 0..n {
            for b in 0..a {
                let m: String = t[a * n + b].split(['e', 'E']).next().unwrap_or("").chars().filter(|c| c.is_ascii_digit()).collect();
                digits.push(m.trim_start_matches('0').trim_end_matches('0').len());
            }
        }
        digits.sort();
        if digits[digits.len() / 2] < 15 {
            bad(c, format!("most costs are written with only {} significant digits", digits[digits.len() / 2]));
            return None;
        }
    }
    // the solver's own view
    match c.call("parsing a generated document", || TravellingSalesmanProblemInstance::parse_from_xml(xml).map(|p| p.graph)) {
        None => return None,
        Some(Err(e)) => {
            bad(c, format!("rejected by the solver's parser: {e:?}"));
            return None;
        }
        Some(Ok(g)) => {
            if g.num_vertices() != n {
                bad(c, format!("parsed as {} cities", g.num_vertices()));
                return None;
            }
            for (a, v) in g.iter().enumerate() {
                for e in v.edges.iter() {
                    if i.g(a, e.to).to_bits() != e.cost.to_bits() {
                        bad(c, format!("cost({a},{}) read as {:?}", e.to, e.cost));
                        return None;
                    }
                }
            }
        }
    }
    let f = scratch(c, "xml");
    if std::fs::write(&f, xml).is_err() {
        c.inconclusive("cannot write a scratch file");
        return Some((i, t));
    }
    let exact = n <= 7;
    let run = if exact { run_cli(c, &["exact", "v6", &f]) } else { run_cli(c, &["lower-bound", "mst", &f]) };
    let _ = std::fs::remove_file(&f);
    if let Some(r) = run {
        let want: &[&str] = if exact { &["Best Cost", "Best Permutation"] } else { &["MST lower bound"] };
        let expect = if exact { held_karp(&i).0 } else { mst_all(&i) };
        let v = if r.code == Some(0) { lines(&r.out, want, &vec![1; want.len()]).and_then(|v| number(&v[0])) } else { Err("does not succeed".into()) };
        match v {
            Ok(x) if close(x, expect) => c.count("documents solved by the program", 1),
            Ok(x) => bad(c, format!("walky finds {x:?}, the document's value is {expect:?}")),
            Err(e) => bad(c, format!("walky on the document: {e}: {:?} {:?}", r.out, crate::core::truncate(&r.err, 300))),
        }
    }
    Some((i, t))
}

fn python(c: &mut Case, dir: &str, seed: u64, script: &str, args: &[&str]) -> Option<super::parse::Run> {
    let mut cmd = Command::new("python3-vt");
    cmd.arg("-B").arg(format!("{}/harness/pygen.py", c.ctx.o.verif)).arg(dir).arg(seed.to_string()).arg(format!("{}/utils/{script}", c.ctx.o.repo)).args(args);
    cmd.env("PYTHONDONTWRITEBYTECODE", "1").env("OPENBLAS_NUM_THREADS", "1").env_remove("PYTHONPATH");
    cmd.current_dir(dir);
    run_child(c, &mut cmd, 120)
}

fn dir(c: &Case) -> String {
    let d = scratch(c, "d");
    let _ = std::fs::remove_dir_all(&d);
    let _ = std::fs::create_dir_all(&d);
    d
}

fn sizes(c: &mut Case, max: usize) -> usize {
    match c.idx {
        0..=6 => c.idx as usize + 2,
        _ => match c.rng.below(4) {
            0 => c.rng.range(2, 12),
            1 => c.rng.range(9, 14),
            2 => c.rng.range(12, max / 2),
            _ => c.rng.range(max / 2, max),
        },
    }
}

pub fn c22(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    ctx.phase("gen_matrix_fast", ctx.n(60, 1500), 8, |c| {
        // the scripts beside it ask for up to some thousand cities
        let n = if c.idx % 40 == 39 { c.rng.range(210, if c.idx % 3 == 0 { 700 } else { 330 }) } else { sizes(c, 210) };
        let mut cmd = Command::new(&c.ctx.o.gen_fast);
        cmd.arg(n.to_string());
        let Some(r) = run_child(c, &mut cmd, 60) else { return };
        if r.code != Some(0) {
            c.fail(format!("gen_matrix_fast {n} ends with {:?}/{:?}: {}", r.code, r.signal, r.err));
            return;
        }
        if let Some((i, _)) = judge(c, &format!("gen_matrix_fast {n}"), &r.out, n) {
            c.eval("gen_matrix_fast", mix(hash_bytes(r.out.as_bytes())), n >= 4);
            c.observe("distinct generated instances", i.hash());
            c.sample("gen_matrix_fast", || format!("{n} cities, first cost {:?}", i.g(0, 1)));
        }
    });
    ctx.phase("gen_matrix_fast, thousands of cities", ctx.n(4, 40), 4, |c| {
        let n = c.rng.range(1500, 2600);
        let mut cmd = Command::new(&c.ctx.o.gen_fast);
        cmd.arg(n.to_string());
        let Some(r) = run_child(c, &mut cmd, 120) else { return };
        if r.limited {
            c.inconclusive("gen_matrix_fast ran out of its time");
            return;
        }
        if r.code != Some(0) {
            c.fail(format!("gen_matrix_fast {n} ends with {:?}/{:?}: {}", r.code, r.signal, r.err));
            return;
        }
        match complete(&r.out, n) {
            Err(e) => c.fail(format!("gen_matrix_fast {n}: {e}")),
            Ok(h) => {
                c.count("edges judged", (n * (n - 1)) as u64);
                c.eval("gen_matrix_fast, thousands of cities", h, true);
                c.observe("distinct generated instances", h);
            }
        }
    });
    ctx.phase("simple_gen", ctx.n(24, 400), 8, |c| {
        let n = if c.idx % 24 == 23 { c.rng.range(100, 300) } else { sizes(c, 60) };
        let seed = c.rng.below(1 << 30) as u64;
        let d = dir(c);
        let ns = n.to_string();
        let spell = *c.rng.pick(&["xml", "XML", "xml", "Xml"]);
        let x = python(c, &d, seed, "simple_gen.py", &[spell, &ns]);
        let with_rust = c.rng.chance(0.8);
        let rust = if with_rust { python(c, &d, seed, "simple_gen.py", &["rust", &ns]) } else { None };
        let _ = std::fs::remove_dir_all(&d);
        let Some(x) = x else { return };
        if x.code != Some(0) {
            c.fail(format!("simple_gen.py {spell} {n} ends with {:?}/{:?}: {}", x.code, x.signal, crate::core::truncate(&x.err, 1500)));
            return;
        }
        let Some((i, _)) = judge(c, &format!("simple_gen.py {spell} {n} (numpy seed {seed})"), &x.out, n) else { return };
        if let Some(r) = rust {
            if r.code != Some(0) {
                c.fail(format!("simple_gen.py rust {n} ends with {:?}/{:?}: {}", r.code, r.signal, crate::core::truncate(&r.err, 1500)));
                return;
            }
            match rust_edges(&r.out, n) {
                Err(e) => c.fail(format!("simple_gen.py rust {n} (numpy seed {seed}): {e}; output {}", crate::core::truncate(&r.out, 1500))),
                Ok(m) => {
                    for a in 0..n {
                        for b in 0..n {
                            let (p, q) = (m[a * n + b], i.g(a, b));
                            if a != b && (p - q).abs() > 2e-15 * p.abs() {
                                c.fail(format!("simple_gen.py {n} (numpy seed {seed}): the generated distance of {a} and {b} is {p:?}, the document says {q:?}"));
                                return;
                            }
                            if (m[b * n + a]).to_bits() != p.to_bits() {
                                c.fail(format!("simple_gen.py rust {n} (numpy seed {seed}): cost {p:?} from {a} to {b} but {:?} back", m[b * n + a]));
                                return;
                            }
                        }
                    }
                    c.count("documents compared with the generated distances", 1);
                }
            }
        }
        c.eval("simple_gen", mix(hash_bytes(x.out.as_bytes())), n >= 4);
        c.observe("distinct generated instances", i.hash());
        c.sample("simple_gen", || format!("{n} cities, first cost {:?}", i.g(0, 1)));
    });
    ctx.phase("benchmark_gen", ctx.n(24, 300), 8, |c| {
        let (l, r) = match c.idx {
            0 => (2, 2),
            1 => (2, 3),
            2 => (5, 5),
            3 => (8, 12),
            4 => (2, 13),
            k if k % 20 == 19 => {
                let l = c.rng.range(60, 280);
                (l, l + c.rng.range(0, 2))
            }
            k if k % 20 == 9 => (95, 104),
            _ => {
                let l = c.rng.range(2, 30);
                (l, l + c.rng.range(0, 9))
            }
        };
        let seed = c.rng.below(1 << 30) as u64;
        let d = dir(c);
        let name = format!("benchmark_gen.py {l} {r} (numpy seed {seed})");
        // leftovers of an earlier run must not show through
        let stale = c.rng.chance(0.5);
        if stale {
            let _ = std::fs::create_dir_all(format!("{d}/results"));
            let _ = std::fs::write(format!("{d}/results/{l}.xml"), format!("{}stale", " ".repeat(200_000)));
        }
        if let Some(run) = python(c, &d, seed, "benchmark_gen.py", &[&l.to_string(), &r.to_string()]) {
            if run.code != Some(0) {
                c.fail(format!("{name} ends with {:?}/{:?}: {}", run.code, run.signal, crate::core::truncate(&run.err, 1500)));
            } else {
                let mut names: Vec<String> = std::fs::read_dir(format!("{d}/results"))
                    .map(|it| it.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect())
                    .unwrap_or_default();
                names.sort();
                let mut want: Vec<String> = (l..=r).map(|k| format!("{k}.xml")).collect();
                want.sort();
                if names != want {
                    c.fail(format!("{name} wrote {names:?} instead of {want:?}"));
                } else {
                    let mut big: Option<Vec<String>> = None;
                    for k in (l..=r).rev() {
                        let x = std::fs::read_to_string(format!("{d}/results/{k}.xml")).unwrap_or_default();
                        let Some((i, t)) = judge(c, &format!("{name}, file {k}.xml"), &x, k) else { break };
                        if let Some(b) = &big {
                            let lead = (0..k).all(|p| (0..k).all(|q| {
                                p == q || t[p * k + q].parse::<f64>().ok() == b[p * r + q].parse::<f64>().ok()
                            }));
                            if !lead {
                                c.fail(format!("{name}: {k}.xml is not the leading sub-instance of {r}.xml"));
                                break;
                            }
                            c.count("leading sub-instances compared", 1);
                        } else {
                            big = Some(t);
                        }
                        c.eval("benchmark_gen", mix(hash_bytes(x.as_bytes())), k >= 4);
                        c.observe("distinct generated instances", i.hash());
                    }
                    c.sample("benchmark_gen", || format!("{l}..={r}: {names:?}"));
                }
            }
        }
        let _ = std::fs::remove_dir_all(&d);
    });
    (
        "A case is one run of a shipped generator (gen_matrix_fast, simple_gen.py in both output formats, benchmark_gen.py) in a scratch directory; every document is scanned independently, checked for completeness, exact symmetry, the triangle inequality and an embedding of its costs in the plane at double precision, and solved by the program. Non-trivial: at least 4 cities.",
        vec![
            "python_tsp is not installed; simple_gen.py's solver call (whose result it discards) is replaced by a stand-in",
            "gen_matrix_fast draws from the operating system's randomness, so its runs differ between executions",
        ],
    )
}

/// The edges of `let graph = Graph {vertices: vec![Vertex { edges: vec![Edge { to: 1, cost: 2.5 }, ...] },...]};`
fn rust_edges(s: &str, n: usize) -> Result<Vec<f64>, String> {
    let rows: Vec<&str> = s.split("Vertex {").skip(1).collect();
    if rows.len() != n {
        return Err(format!("{} cities instead of {n}", rows.len()));
    }
    let mut m = vec![0.0; n * n];
    let mut seen = vec![false; n * n];
    for (a, r) in rows.iter().enumerate() {
        for e in r.split("Edge {").skip(1) {
            let e = e.split('}').next().unwrap_or("");
            let mut to = None;
            let mut cost = None;
            for f in e.split(',') {
                match f.split_once(':') {
                    Some((k, v)) if k.trim() == "to" => to = v.trim().parse::<usize>().ok(),
                    Some((k, v)) if k.trim() == "cost" => {
                        // an integer is no literal of the cost's type
                        cost = v.trim().parse::<f64>().ok().filter(|_| v.contains(['.', 'e', '_']));
                    }
                    _ => {}
                }
            }
            let (Some(to), Some(cost)) = (to, cost) else { return Err(format!("edge {e:?}")) };
            if to >= n || to == a || seen[a * n + to] {
                return Err(format!("edge from {a} to {to} is repeated or does not exist"));
            }
            seen[a * n + to] = true;
            m[a * n + to] = cost;
        }
    }
    // two coinciding points have no edge in this format; every other pair has one
    Ok(m)
}

/// NN_approx.py: the trace of the greedy tours of a random matrix.
pub fn c29(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    ctx.phase("traces", ctx.n(44, 600), 8, |c| {
        let n = match c.idx {
            0 => 10,
            1..=4 => c.rng.range(60, 130),
            _ => c.rng.range(2, 24),
        };
        let seed = c.rng.u64() % 4_000_000_000;
        let d = dir(c);
        let driver = format!("{}/harness/nndrive.py", c.ctx.o.verif);
        let utils = format!("{}/utils", c.ctx.o.repo);
        // as documented first, then other seeds and sizes
        let (script, args): (String, Vec<String>) = if c.idx == 0 {
            (format!("{utils}/NN_approx.py"), vec![])
        } else {
            (driver, vec![utils, seed.to_string(), n.to_string()])
        };
        let mut cmd = Command::new("python3-vt");
        cmd.arg("-B").arg(format!("{}/harness/pygen.py", c.ctx.o.verif)).arg(&d).arg("1").arg(&script).args(&args);
        cmd.env("PYTHONDONTWRITEBYTECODE", "1").env("OPENBLAS_NUM_THREADS", "1").env_remove("PYTHONPATH").current_dir(&d);
        let run = run_child(c, &mut cmd, 120);
        let left = std::fs::read_dir(&d).map(|r| r.count()).unwrap_or(0);
        let _ = std::fs::remove_dir_all(&d);
        let Some(run) = run else { return };
        let name = format!("NN_approx (seed {seed}, {n} cities)");
        if c.idx > 0 && run.code == Some(97) {
            c.count("sizes not selectable", 1);
            return;
        }
        if run.code != Some(0) {
            c.fail(format!("{name} ends with {:?}/{:?}: {}", run.code, run.signal, crate::core::truncate(&run.err, 1500)));
            return;
        }
        if let Err(e) = trace(c, &run.out, n) {
            c.fail(format!("{name}: {e}; output {}", crate::core::truncate(&run.out, 1500)));
            return;
        }
        if left > 0 {
            c.fail(format!("{name} leaves {left} files behind"));
        }
        c.eval(&format!("n={n}"), mix(seed ^ n as u64), n >= 4);
        c.sample("trace", || crate::core::truncate(&run.out, 700).to_string());
    });
    (
        "A case is one run of NN_approx.py (as shipped, or with another seed and size of 2 to 130 cities): the printed matrix is parsed, each printed tour is judged step by step against it and against the library's own tour from that city, and the printed Rust code is read back. Non-trivial: at least 4 cities.",
        vec!["ties may be broken either way"],
    )
}

fn trace(c: &mut Case, out: &str, n: usize) -> Result<(), String> {
    let body = out.split("Graph Matrix:").nth(1).and_then(|s| s.split("Starting").next()).ok_or("no matrix printed")?;
    let v: Vec<f64> = body.split(|x: char| !(x.is_ascii_digit() || x == '.' || x == 'e' || x == '-')).filter(|s| !s.is_empty()).filter_map(|s| s.parse().ok()).collect();
    // numpy abridges large matrices: take the Rust code's word, then
    let code = out.lines().find(|l| l.contains("Graph {")).ok_or("no Rust code printed")?;
    let r = rust_edges(code, n)?;
    let v = if body.contains("...") { r.clone() } else { v };
    if v.len() != n * n {
        return Err(format!("matrix of {} numbers instead of {}", v.len(), n * n));
    }
    let i = Inst { n, c: v, class: "traced", metric: false };
    for a in 0..n {
        for b in 0..n {
            if i.g(a, b) != i.g(b, a) || (a == b) != (i.g(a, b) == 0.0) || i.g(a, b) < 0.0 {
                return Err(format!("cost({a},{b}) = {:?} and back {:?}", i.g(a, b), i.g(b, a)));
            }
        }
    }
    let mut tours = vec![];
    let mut path: Option<Vec<usize>> = None;
    for l in out.lines() {
        if let Some(p) = l.strip_prefix("Path: ") {
            path = Some(super::cli::path(p.trim())?);
        } else if let Some(x) = l.strip_prefix("Cost: ") {
            let p = path.take().ok_or("a cost without a tour")?;
            tours.push((number(x.trim())?, p));
        }
    }
    if tours.len() != n {
        return Err(format!("{} tours instead of {n}", tours.len()));
    }
    let m = i.na();
    for (s, t) in tours.iter().enumerate() {
        check_nn(&i, s, t)?;
        let lib = c.call("single_nearest_neighbour", || walky::solvers::approximate::nearest_neighbour::single_nearest_neighbour(&m, s)).ok_or("the library fails")?;
        if lib.1 == t.1 && !close(lib.0, t.0) {
            return Err(format!("from {s} the library reports {:?} for the same tour, the trace {:?}", lib.0, t.0));
        }
        if nn_unique(&i, s).is_some() && lib.1 != t.1 {
            return Err(format!("from {s} the trace goes {:?}, the library {:?}", t.1, lib.1));
        }
        c.count("tours judged", 1);
    }
    for a in 0..n {
        for b in 0..n {
            if r[a * n + b] != i.g(a, b) {
                return Err(format!("the Rust code has cost {:?} from {a} to {b}, the matrix {:?}", r[a * n + b], i.g(a, b)));
            }
        }
    }
    Ok(())
}
