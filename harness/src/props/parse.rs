//! C12, C13
use crate::core::{guarded, Case, Ctx};
use crate::inst::{self, Inst};
use crate::rng::{hash_bytes, mix, Rng};
use std::process::{Command, Stdio};
use walky::datastructures::{AdjacencyMatrix, NAMatrix, VecMatrix};
use walky::parser::TravellingSalesmanProblemInstance as Tsp;

pub struct Doc {
    pub name: String,
    pub source: String,
    pub description: String,
    pub prec: u32,
    pub ign: u32,
    pub costs: Inst,
    /// every vertex' edges as written: (target text, cost text)
    pub edges: Vec<Vec<(String, String)>>,
}

fn num(r: &mut Rng, x: f64, plain: bool) -> String {
    if plain {
        return format!("{x:?}");
    }
    let small = x == 0.0 || (1e-30..1e30).contains(&x);
    match r.below(9) {
        0 => format!("{x}"),
        1 => format!("{x:e}"),
        2 => format!("{x:E}"),
        3 => format!("{x:.16e}"),
        4 if small => format!("{x:.120}"),
        5 if small => format!("00{x}"),
        6 => {
            // TSPLIB style: 1.234000000000000e+03
            let s = format!("{x:.17e}");
            let (m, e) = s.split_once('e').unwrap();
            let e: i32 = e.parse().unwrap();
            format!("{m}e{}{:02}", if e < 0 { '-' } else { '+' }, e.abs())
        }
        7 => format!("+{x:e}"),
        8 if small && x == x.trunc() => format!("{x}."),
        _ => format!("{x:?}"),
    }
}

fn text(r: &mut Rng) -> String {
    let words = ["burma14", "Zaw Win", "a & b", "R&amp;D", "&lt;b&gt;", "&#65;", "a && b", "]] >", "50%20", "x<y>z", "\"quoted\" 'it'", "Größe ÄÖ", "日本 🗺", "a-b_c.d", "0", "éß", "Städte (1 & 2)", "two\nlines", "tab\tin it", "<!-- no comment", "-->", "<?x", "</i>", "<u>it</u>", "<![CDATA[", "two  blanks", "blank\n\n  lines"];
    let k = r.range(1, 3);
    let mut s = vec![];
    for _ in 0..k {
        s.push(*r.pick(&words));
    }
    s.join(" ")
}

fn escape(r: &mut Rng, s: &str, attr: bool) -> String {
    let all = r.chance(0.15);
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' if attr || r.chance(0.5) => o.push_str("&quot;"),
            '\'' if attr || r.chance(0.5) => o.push_str("&apos;"),
            c if all || (!c.is_ascii() && r.chance(0.3)) => {
                if r.chance(0.5) {
                    o.push_str(&format!("&#{};", c as u32))
                } else {
                    o.push_str(&format!("&#x{:X};", c as u32))
                }
            }
            c => o.push(c),
        }
    }
    o
}

pub fn doc(r: &mut Rng, i: &Inst, plain: bool) -> Doc {
    let n = i.n;
    let mut edges = vec![];
    // the edges of a city: ascending, or in any order, throughout or here and there
    let order = if plain { 0 } else { r.below(5) };
    for a in 0..n {
        let mut v: Vec<usize> = (0..n).filter(|&b| b != a).collect();
        match order {
            1 | 2 => r.shuffle(&mut v),
            3 => v.reverse(),
            4 => match r.below(4) {
                0 => r.shuffle(&mut v),
                1 => v.reverse(),
                2 => v.rotate_left(r.below(n.max(2) - 1)),
                _ => {}
            },
            _ => {}
        }
        edges.push(
            v.into_iter()
                .map(|b| {
                    let t = if !plain && r.chance(0.05) { format!("0{b}") } else { b.to_string() };
                    (t, num(r, i.g(a, b), plain))
                })
                .collect(),
        );
    }
    Doc {
        name: text(r),
        source: text(r),
        description: text(r),
        prec: *r.pick(&[0, 1, 15, 17, u32::MAX]),
        ign: *r.pick(&[0, 5, 1000, u32::MAX]),
        costs: Inst { n, c: i.c.clone(), class: i.class, metric: i.metric },
        edges,
    }
}

/// Which liberties the writer takes.
#[derive(Clone, Copy, Debug, Default)]
pub struct Style {
    decl: usize,
    root_attrs: bool,
    doctype: bool,
    ws: usize,
    comments: bool,
    pis: bool,
    single: bool,
    tag_ws: bool,
    entities: bool,
    cdata: bool,
    extra: bool,
    order: usize,
}

impl Style {
    pub fn random(r: &mut Rng) -> Style {
        Style {
            decl: r.below(4),
            root_attrs: r.chance(0.2),
            doctype: r.chance(0.1),
            ws: r.below(4),
            comments: r.chance(0.3),
            pis: r.chance(0.1),
            single: r.chance(0.3),
            tag_ws: r.chance(0.2),
            entities: r.chance(0.2),
            cdata: r.chance(0.1),
            extra: r.chance(0.1),
            order: r.below(4),
        }
    }
}

fn gap(r: &mut Rng, s: &Style, o: &mut String) {
    match s.ws {
        0 => {}
        1 => o.push('\n'),
        2 => o.push_str("\r\n    "),
        _ => {
            for _ in 0..r.below(4) {
                o.push_str(*r.pick(&[" ", "\t", "\n", "\r\n"]));
            }
        }
    }
    if s.comments && r.chance(0.25) {
        o.push_str(*r.pick(&["<!-- c -->", "<!--<edge cost=\"1\">0</edge>-->", "<!-- a > b & \"c\" -->", "<!---->", "<!-- <![CDATA[ -->", "<!-- ]]> -->", "<!-- <?x -->", "<!-- </graph> <vertex> -->"]));
        if s.ws > 0 {
            o.push('\n');
        }
    }
    if s.pis && r.chance(0.1) {
        o.push_str("<?walky ignore=\"this\"?>");
    }
}

fn plain_digits(r: &mut Rng, s: &Style, t: &str) -> String {
    // (quick-xml resolves character references in text and integers, not in numeric attributes)
    if !s.entities || !r.chance(0.4) {
        return t.to_string();
    }
    t.chars().map(|c| if r.chance(0.5) { format!("&#{};", c as u32) } else { c.to_string() }).collect()
}

pub fn write(r: &mut Rng, d: &Doc, s: &Style) -> String {
    let mut o = String::new();
    o.push_str(match s.decl {
        0 => "",
        1 => "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n",
        2 => "<?xml version='1.0' encoding='utf-8' standalone='no' ?>\n",
        _ => "<?xml version=\"1.0\"?>",
    });
    if s.doctype {
        o.push_str("<!DOCTYPE travellingSalesmanProblemInstance SYSTEM \"tsp.dtd\">\n");
    }
    // (quick-xml stumbles over text between a document type and a comment)
    if s.comments && !s.doctype && r.chance(0.5) {
        o.push_str("<!-- written by the monitor -->\n");
    }
    o.push_str("<travellingSalesmanProblemInstance");
    if s.root_attrs {
        o.push_str(" xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xsi:noNamespaceSchemaLocation=\"http://comopt.ifi.uni-heidelberg.de/software/TSPLIB95/XML-TSPLIB/instances/tsp.xsd\"");
    }
    o.push('>');
    let q = if s.single { '\'' } else { '"' };
    let mut parts: Vec<usize> = (0..6).collect();
    match s.order {
        0 => r.shuffle(&mut parts),
        1 => parts.rotate_right(1),
        _ => {}
    }
    for p in parts {
        gap(r, s, &mut o);
        if s.extra && r.chance(0.3) {
            o.push_str("<comment>not in the schema</comment>");
            gap(r, s, &mut o);
        }
        match p {
            0 | 1 | 2 => {
                let (tag, val) = [("name", &d.name), ("source", &d.source), ("description", &d.description)][p];
                let body = if s.cdata && r.chance(0.5) { format!("<![CDATA[{val}]]>") } else { escape(r, val, false) };
                o.push_str(&format!("<{tag}>{body}</{tag}>"));
            }
            3 => o.push_str(&format!("<doublePrecision>{}</doublePrecision>", plain_digits(r, s, &d.prec.to_string()))),
            4 => o.push_str(&format!("<ignoredDigits>{}</ignoredDigits>", plain_digits(r, s, &d.ign.to_string()))),
            _ => {
                o.push_str("<graph>");
                for v in &d.edges {
                    gap(r, s, &mut o);
                    let sp = |r: &mut Rng| *r.pick(&[" ", " ", "\n", "\t", "\r\n  ", "   "]);
                    if s.tag_ws {
                        o.push_str(&format!("<vertex{}>", sp(r)));
                    } else {
                        o.push_str("<vertex>");
                    }
                    for (t, c) in v {
                        gap(r, s, &mut o);
                        let t = plain_digits(r, s, t);
                        let t = if s.tag_ws && r.chance(0.3) { format!("\n {t} ") } else { t };
                        if s.tag_ws {
                            let (a, b, d, e, f) = (sp(r), sp(r), sp(r), sp(r), sp(r));
                            let (b, d) = if r.chance(0.5) { ("", "") } else { (b, d) };
                            o.push_str(&format!("<edge{a}cost{b}={d}{q}{c}{q}{e}>{t}</edge{f}>"));
                        } else {
                            o.push_str(&format!("<edge cost={q}{c}{q}>{t}</edge>"));
                        }
                    }
                    gap(r, s, &mut o);
                    o.push_str("</vertex>");
                }
                gap(r, s, &mut o);
                o.push_str("</graph>");
            }
        }
    }
    gap(r, s, &mut o);
    o.push_str("</travellingSalesmanProblemInstance>");
    gap(r, s, &mut o);
    o
}

fn compare(d: &Doc, t: Tsp) -> Result<(), String> {
    let i = &d.costs;
    let n = i.n;
    if t.name != d.name || t.source != d.source || t.description != d.description {
        return Err(format!("metadata {:?} / {:?} / {:?} instead of {:?} / {:?} / {:?}", t.name, t.source, t.description, d.name, d.source, d.description));
    }
    if t.double_precision != d.prec || t.ignored_digits != d.ign {
        return Err(format!("doublePrecision {} ignoredDigits {} instead of {} and {}", t.double_precision, t.ignored_digits, d.prec, d.ign));
    }
    if t.graph.num_vertices() != n {
        return Err(format!("{} cities instead of {n}", t.graph.num_vertices()));
    }
    for a in 0..n {
        let mut seen = vec![false; n];
        for e in t.graph[a].iter() {
            if e.to >= n || e.to == a || seen[e.to] {
                return Err(format!("city {a} lists an edge to {}", e.to));
            }
            seen[e.to] = true;
            if e.cost.to_bits() != i.g(a, e.to).to_bits() {
                return Err(format!("cost {a} -> {} is {:?} instead of {:?}", e.to, e.cost, i.g(a, e.to)));
            }
        }
        if t.graph[a].degree() != n - 1 {
            return Err(format!("city {a} has {} edges", t.graph[a].degree()));
        }
    }
    let m: NAMatrix = (&t.graph).into();
    let v: VecMatrix = t.graph.into();
    if m.dim() != n || v.dim() != n {
        return Err(format!("matrices of dimension {} and {}", m.dim(), v.dim()));
    }
    for a in 0..n {
        if m.get(a, a) != 0.0 {
            return Err(format!("diagonal {a} of the matrix is {:?}", m.get(a, a)));
        }
        for b in 0..n {
            if a != b && (m.get(a, b).to_bits() != i.g(a, b).to_bits() || v.get(a, b).to_bits() != i.g(a, b).to_bits()) {
                return Err(format!("matrix entry ({a},{b}) is {:?} / {:?} instead of {:?}", m.get(a, b), v.get(a, b), i.g(a, b)));
            }
        }
    }
    Ok(())
}

fn clip(s: &str) -> String {
    crate::core::truncate(s, 700)
}

/// also denormal, huge and hard to round costs
fn costs(r: &mut Rng, n: usize) -> Inst {
    let mut i = inst::random_general(r, n);
    if r.chance(0.3) {
        for a in 0..n {
            for b in 0..a {
                let v = match r.below(6) {
                    0 => f64::from_bits(r.u64() & 0x7fff_ffff_ffff_ffff),
                    1 => f64::from_bits(r.u64() & 0x000f_ffff_ffff_ffff),
                    2 => f64::MAX,
                    3 => f64::MIN_POSITIVE,
                    4 => (r.u64() >> 8) as f64,
                    _ => r.f(),
                };
                let v = if v.is_finite() { v } else { 1.0 };
                i.c[a * n + b] = v;
                i.c[b * n + a] = v;
            }
        }
        i.class = "any-double";
    }
    i
}

pub fn c12(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let one = |c: &mut Case, n: usize, plain: bool| {
        let i = costs(&mut c.rng, n);
        let d = doc(&mut c.rng, &i, plain);
        let s = if plain { Style { ws: 1, decl: 1, order: 3, ..Default::default() } } else { Style::random(&mut c.rng) };
        let x = write(&mut c.rng, &d, &s);
        match c.call("parse_from_xml", || Tsp::parse_from_xml(&x)) {
            None => {}
            Some(Err(e)) => c.fail(format!("a valid document is rejected: {e}; style {s:?}; {}", clip(&x))),
            Some(Ok(t)) => {
                if let Err(e) = compare(&d, t) {
                    c.fail(format!("{e}; style {s:?}; {}", clip(&x)));
                }
            }
        }
        c.count("edge costs compared bit by bit", (n * (n - 1)) as u64);
        c.count("bytes parsed", x.len() as u64);
        for (on, k) in [(s.decl > 0, "XML declaration"), (s.comments, "comments"), (s.entities, "entities"), (s.cdata, "CDATA"), (s.pis, "processing instructions"), (s.order < 2, "reordered elements"), (s.doctype, "document type")] {
            if on {
                c.count(&format!("documents with {k}"), 1);
            }
        }
        c.eval(&format!("{}/{}", i.class, if n < 10 { "small" } else { "large" }), hash_bytes(x.as_bytes()), n >= 3);
        c.sample(i.class, || x.clone());
    };
    ctx.phase("styles", ctx.n(12_000, 400_000), 8, |c| {
        let n = c.rng.range(2, 9);
        one(c, n, false);
    });
    ctx.phase("large", ctx.n(80, 2500), 8, |c| {
        let n = c.rng.range(10, 90);
        let p = c.rng.chance(0.3);
        one(c, n, p);
    });
    ctx.phase("big", ctx.n(6, 60), 3, |c| {
        let n = c.rng.range(200, 330);
        one(c, n, false);
    });
    // the file reader of the command line
    ctx.phase("files", ctx.n(400, 8000), 8, |c| {
        let n = c.rng.range(2, 8);
        let i = inst::random_general(&mut c.rng, n);
        let d = doc(&mut c.rng, &i, false);
        let s = Style::random(&mut c.rng);
        let x = write(&mut c.rng, &d, &s);
        let f = scratch(c, "xml");
        if std::fs::write(&f, &x).is_err() {
            c.inconclusive("cannot write a scratch file");
            return;
        }
        let r = run_cli(c, &["lower-bound", "mst", &f]);
        let _ = std::fs::remove_file(&f);
        let Some(r) = r else { return };
        let want = crate::oracle::mst_all(&i);
        let got = r.out.strip_prefix("MST lower bound: ").and_then(|x| x.trim().parse::<f64>().ok());
        if r.code != Some(0) || !got.is_some_and(|g| crate::oracle::close(g, want)) {
            c.fail(format!("the program ends with {:?} and prints {:?}, expected an MST bound of {want:?}; {}; {}", r.code, r.out, clip(&r.err), clip(&x)));
        }
        c.eval("file", hash_bytes(x.as_bytes()), n >= 3);
    });
    (
        "A case is one document written from a known instance with random liberties (element and edge order, number notations including 120 digits, whitespace, comments, declarations, entities, CDATA, quotes); metadata, every cost and both derived matrices are compared with what was written. Non-trivial: at least 3 cities; distinct by document text.",
        vec!["numeric attributes are written without character references, and no comment follows directly on a document type declaration (quick-xml 0.28 reads neither)", "documents are UTF-8"],
    )
}

pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
    /// killed by the limits set for it
    pub limited: bool,
}

pub fn scratch(c: &Case, ext: &str) -> String {
    format!("{}/c-{}-{}-{}-{}.{ext}", scratch_dir(), std::process::id(), c.ctx.o.id, hash_bytes(c.phase.as_bytes()) % 100_000, c.idx)
}

pub fn scratch_dir() -> String {
    use std::sync::OnceLock;
    static D: OnceLock<String> = OnceLock::new();
    D.get_or_init(|| {
        let d = format!("/tmp/walky-monitor-{}", std::process::id());
        let _ = std::fs::create_dir_all(&d);
        d
    })
    .clone()
}

pub fn cleanup() {
    let d = format!("/tmp/walky-monitor-{}", std::process::id());
    let _ = std::fs::remove_dir_all(d);
}

/// Run a child with a CPU limit; None if it could not be started.
pub fn run_child(c: &mut Case, cmd: &mut Command, cpu: u64) -> Option<Run> {
    run_fed(c, cmd, cpu, None)
}

/// As `run_child`, with something to read from standard input.
pub fn run_fed(c: &mut Case, cmd: &mut Command, cpu: u64, feed: Option<&[u8]>) -> Option<Run> {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    c.what("child process");
    unsafe {
        cmd.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            Ok(())
        });
    }
    let output = match feed {
        None => cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).output(),
        Some(b) => cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().and_then(|mut p| {
            let mut i = p.stdin.take();
            std::thread::scope(|s| {
                s.spawn(move || {
                    use std::io::Write;
                    // whoever does not read everything has closed its end
                    let _ = i.as_mut().map(|i| i.write_all(b));
                });
                p.wait_with_output()
            })
        }),
    };
    match output {
        Ok(o) => {
            let signal = o.status.signal();
            Some(Run {
                code: o.status.code(),
                signal,
                out: String::from_utf8_lossy(&o.stdout).into_owned(),
                err: String::from_utf8_lossy(&o.stderr).into_owned(),
                limited: signal == Some(libc::SIGXCPU),
            })
        }
        Err(e) => {
            c.inconclusive(format!("cannot run {cmd:?}: {e}"));
            None
        }
    }
}

pub fn run_cli(c: &mut Case, args: &[&str]) -> Option<Run> {
    let w = c.ctx.o.walky.clone();
    let mut cmd = Command::new(&w);
    cmd.args(args).env("RUST_BACKTRACE", "0");
    run_child(c, &mut cmd, 60)
}

const MODEL: &[&str] = &[
    "edge missing", "edge missing in both directions", "edge doubled", "edge replaced by a duplicate", "self-loop added", "self-loop instead of an edge",
    "dangling edge added", "dangling edge instead of an edge", "unequal directions", "directions unequal in the last bit", "city missing", "city without edges added",
    "edges of one city missing", "edge moved to another city", "city doubled", "duplicates that keep the sum", "duplicates that keep the sum of squares", "duplicates that keep the exclusive or", "two edges of a city swapped targets with another cost",
];
const TEXTUAL: &[&str] = &[
    "cost is a word", "cost empty", "cost missing", "cost with comma", "cost with two points", "cost hexadecimal", "cost with unit", "cost NaN", "cost exponent empty",
    "target is a word", "target negative", "target fractional", "target empty", "target out of range of integers", "target with unit",
    "end tag missing", "end tag of another element", "attribute quote missing", "truncated", "graph missing", "precision missing", "precision negative",
    "precision a word", "name missing", "ampersand raw in a cost", "unknown entity", "edges outside a vertex", "vertices outside the graph", "empty", "not XML",
    "end tag extra", "unquoted attribute",
];

/// One document that is not a valid instance; None if this corruption does not apply.
fn corrupt(r: &mut Rng, kind: &str, n: usize) -> Option<String> {
    let mut i = inst::make(r, n, "uniform");
    for a in 0..n {
        for b in 0..a {
            let v = 1.0 + r.below(9) as f64 + r.f();
            i.c[a * n + b] = v;
            i.c[b * n + a] = v;
        }
    }
    let plain = r.chance(if n < 30 { 0.5 } else { 0.2 });
    let mut d = doc(r, &i, plain);
    let s = if plain { Style { ws: 1, decl: 1, order: 3, ..Default::default() } } else { Style { entities: false, comments: false, ..Style::random(r) } };
    // anywhere, but the first and the last more often
    let ends = |r: &mut Rng, n: usize| match r.below(8) {
        0 => 0,
        1 => n - 1,
        _ => r.below(n),
    };
    let (a, k) = (ends(r, n), ends(r, n - 1));
    let b: usize = d.edges[a][k].0.parse().unwrap();
    let j = d.edges[b].iter().position(|e| e.0.parse() == Ok(a)).unwrap();
    match kind {
        "edge missing" => {
            d.edges[a].remove(k);
        }
        "edge missing in both directions" => {
            d.edges[a].remove(k);
            d.edges[b].remove(j);
        }
        "edge doubled" => {
            let e = d.edges[a][k].clone();
            let p = r.below(n);
            d.edges[a].insert(p, e);
        }
        "edge replaced by a duplicate" => {
            if n < 3 {
                return None;
            }
            let o = (k + 1 + r.below(n - 2)) % (n - 1);
            d.edges[a][k] = d.edges[a][o].clone();
        }
        "duplicates that keep the sum" | "duplicates that keep the sum of squares" | "duplicates that keep the exclusive or" => {
            let ok = |x: usize| x < n && x != a;
            let (old, new) = (0..200).find_map(|_| {
                let x = r.below(n);
                let (old, new) = match kind {
                    "duplicates that keep the sum" => {
                        let (y, e) = (r.below(n), 1 + r.below(2));
                        if y < e { return None; }
                        (vec![x, y], vec![x + e, y - e])
                    }
                    "duplicates that keep the sum of squares" => {
                        let (p, q) = (vec![x, x + 4, x + 5], vec![x + 1, x + 2, x + 6]);
                        if r.chance(0.5) { (p, q) } else { (q, p) }
                    }
                    _ => {
                        let (y, z, t) = (r.below(n), r.below(n), r.below(n));
                        (vec![x, y, z], vec![x ^ y ^ z, t, t])
                    }
                };
                let distinct = old.iter().collect::<std::collections::BTreeSet<_>>().len() == old.len();
                let mut p = old.clone();
                let mut q = new.clone();
                p.sort_unstable();
                q.sort_unstable();
                (distinct && p != q && old.iter().chain(&new).all(|&x| ok(x))).then_some((old, new))
            })?;
            for (o, w) in old.iter().zip(&new) {
                let p = d.edges[a].iter().position(|e| e.0.parse() == Ok(*o))?;
                d.edges[a][p] = (format!("#{w}"), format!("{:?}", i.g(a, *w)));
            }
            for e in &mut d.edges[a] {
                if let Some(t) = e.0.strip_prefix('#') {
                    e.0 = t.to_string();
                }
            }
        }
        "self-loop added" => {
            let e = (a.to_string(), ["0.0", "1.5"][r.below(2)].to_string());
            let p = r.below(n);
            d.edges[a].insert(p, e);
        }
        "self-loop instead of an edge" => d.edges[a][k].0 = a.to_string(),
        "dangling edge added" => d.edges[a].push(((n + r.below(4)).to_string(), "1.0".into())),
        "dangling edge instead of an edge" => d.edges[a][k].0 = [n.to_string(), (n + 3).to_string(), "4000000000".into(), usize::MAX.to_string()][r.below(4)].clone(),
        "unequal directions" => d.edges[a][k].1 = format!("{:?}", i.g(a, b) + [1.0, -0.5, 1e-6, 1e6][r.below(4)]),
        "directions unequal in the last bit" => d.edges[a][k].1 = format!("{:?}", f64::from_bits(i.g(a, b).to_bits() + 1)),
        "city missing" => {
            if n < 3 {
                return None;
            }
            d.edges.remove(a);
        }
        "city without edges added" => {
            let p = r.below(n + 1);
            d.edges.insert(p, vec![]);
        }
        "edges of one city missing" => d.edges[a].clear(),
        "edge moved to another city" => {
            let e = d.edges[a].remove(k);
            let o = (a + 1 + r.below(n - 1)) % n;
            d.edges[o].push(e);
        }
        "city doubled" => {
            let e = d.edges[a].clone();
            d.edges.push(e);
        }
        "two edges of a city swapped targets with another cost" => {
            if n < 3 {
                return None;
            }
            let o = (k + 1) % (n - 1);
            let t = d.edges[a][k].0.clone();
            d.edges[a][k].0 = d.edges[a][o].0.clone();
            d.edges[a][o].0 = t;
        }
        "cost is a word" => d.edges[a][k].1 = ["abc", "one", "e", ".", "-", "+"][r.below(6)].into(),
        "cost empty" => d.edges[a][k].1 = "".into(),
        "cost with comma" => d.edges[a][k].1 = "1,5".into(),
        "cost with two points" => d.edges[a][k].1 = "1.5.2".into(),
        "cost hexadecimal" => d.edges[a][k].1 = "0x10".into(),
        "cost with unit" => d.edges[a][k].1 = format!("{}km", d.edges[a][k].1),
        "cost NaN" => {
            d.edges[a][k].1 = "NaN".into();
            d.edges[b][j].1 = "NaN".into();
        }
        "cost exponent empty" => d.edges[a][k].1 = "1.5e".into(),
        "target is a word" => d.edges[a][k].0 = "x".into(),
        "target negative" => d.edges[a][k].0 = "-1".into(),
        "target fractional" => d.edges[a][k].0 = format!("{b}.0"),
        "target empty" => d.edges[a][k].0 = "".into(),
        "target out of range of integers" => d.edges[a][k].0 = format!("{}", (1u128 << 64) + b as u128),
        "target with unit" => d.edges[a][k].0 = format!("{b}a"),
        "ampersand raw in a cost" => d.edges[a][k].1 = format!("&{}", d.edges[a][k].1),
        "unknown entity" => d.edges[a][k].1 = "&one;".into(),
        _ => {}
    }
    let x = write(r, &d, &s);
    // textual damage
    let nth = |r: &mut Rng, x: &str, pat: &str| -> Option<usize> {
        let m: Vec<usize> = x.match_indices(pat).map(|m| m.0).collect();
        if m.is_empty() { None } else { Some(*r.pick(&m)) }
    };
    let swap = |x: &str, at: usize, len: usize, with: &str| format!("{}{}{}", &x[..at], with, &x[at + len..]);
    let q = if s.single { '\'' } else { '"' };
    Some(match kind {
        "cost missing" => {
            let at = nth(r, &x, "<edge ")?;
            let end = at + x[at..].find('>')?;
            swap(&x, at, end - at, "<edge")
        }
        "end tag missing" => {
            let t = *r.pick(&["</edge>", "</vertex>", "</graph>", "</name>", "</travellingSalesmanProblemInstance>", "</ignoredDigits>"]);
            let at = nth(r, &x, t)?;
            swap(&x, at, t.len(), "")
        }
        "end tag of another element" => {
            let t = *r.pick(&["</edge>", "</vertex>", "</graph>", "</source>"]);
            let at = nth(r, &x, t)?;
            swap(&x, at, t.len(), "</other>")
        }
        "end tag extra" => {
            let t = *r.pick(&["</edge>", "</vertex>", "</name>"]);
            let at = nth(r, &x, t)?;
            swap(&x, at, 0, t)
        }
        "attribute quote missing" => {
            let at = nth(r, &x, "<edge ")?;
            let q1 = at + x[at..].find(q)?;
            let q2 = q1 + 1 + x[q1 + 1..].find(q)?;
            let p = if r.chance(0.5) { q1 } else { q2 };
            swap(&x, p, 1, "")
        }
        "unquoted attribute" => {
            let at = nth(r, &x, "<edge ")?;
            let q1 = at + x[at..].find(q)?;
            let q2 = q1 + 1 + x[q1 + 1..].find(q)?;
            let v = x[q1 + 1..q2].to_string();
            swap(&x, q1, q2 + 1 - q1, &v)
        }
        "truncated" => {
            let end = x.rfind("</travellingSalesmanProblemInstance")? + "</travellingSalesmanProblemInstance".len();
            let start = x.find("<travelling")? + 1;
            // a missing last '>' is not noticed by quick-xml (a known finding)
            let mut e = r.range(start, end - 1);
            if r.chance(0.3) {
                e = r.range(end.saturating_sub(40).max(start), end - 1);
            }
            while !x.is_char_boundary(e) {
                e -= 1;
            }
            x[..e].to_string()
        }
        "graph missing" => {
            let (p, q) = (x.find("<graph>")?, x.find("</graph>")? + 8);
            swap(&x, p, q - p, "")
        }
        "precision missing" => {
            let t = *r.pick(&["doublePrecision", "ignoredDigits"]);
            let (p, q) = (x.find(&format!("<{t}>"))?, x.find(&format!("</{t}>"))? + t.len() + 3);
            swap(&x, p, q - p, "")
        }
        "precision negative" | "precision a word" => {
            let t = *r.pick(&["doublePrecision", "ignoredDigits"]);
            let (p, q) = (x.find(&format!("<{t}>"))? + t.len() + 2, x.find(&format!("</{t}>"))?);
            swap(&x, p, q - p, if kind == "precision negative" { "-1" } else { "many" })
        }
        "name missing" => {
            let t = *r.pick(&["name", "source", "description"]);
            let (p, q) = (x.find(&format!("<{t}>"))?, x.find(&format!("</{t}>"))? + t.len() + 3);
            swap(&x, p, q - p, "")
        }
        "edges outside a vertex" => {
            let at = nth(r, &x, "</vertex>")?;
            swap(&x, at, 9, &format!("</vertex><edge cost=\"1.0\">{b}</edge>"))
        }
        "vertices outside the graph" => x.replace("<graph>", "").replace("</graph>", ""),
        "empty" => ["", " ", "\n", "<?xml version=\"1.0\"?>", "<!-- -->", "<travellingSalesmanProblemInstance/>"][r.below(6)].to_string(),
        "not XML" => ["hello", "{\"graph\": []}", "NAME: burma14\nTYPE: TSP\n", "<<<>>>", "\u{0}\u{1}", "<graph></graph>"][r.below(6)].to_string(),
        _ => x,
    })
}

pub fn c13(ctx: &Ctx) -> (&'static str, Vec<&'static str>) {
    let kinds: Vec<&'static str> = MODEL.iter().chain(TEXTUAL.iter()).copied().collect();
    ctx.phase("parser", ctx.n(20_000, 700_000), 8, |c| {
        let kind = kinds[c.idx as usize % kinds.len()];
        let n = if c.idx % 16 == 15 { c.rng.range(8, 40) } else { c.rng.range(2, 7) };
        let Some(x) = corrupt(&mut c.rng, kind, n) else { return };
        c.what("parse_from_xml");
        // rejection is an error value or a panic: either ends the program without a result
        match guarded(|| Tsp::parse_from_xml(&x)) {
            Ok(Ok(t)) => c.fail(format!("accepted although {kind}: {} cities; {}", t.graph.num_vertices(), clip(&x))),
            Ok(Err(_)) => c.count("rejected with an error", 1),
            Err(_) => c.count("rejected by the precondition check", 1),
        }
        c.eval(kind, hash_bytes(x.as_bytes()), true);
        c.sample(kind, || crate::core::truncate(&x, 400));
    });
    // one defect among thousands of sound edges
    ctx.phase("large", ctx.n(kinds.len() as u64 * 4, kinds.len() as u64 * 80), 8, |c| {
        // defects of the graph more often than those of the text
        let kind = if c.idx % 2 == 0 { MODEL[c.idx as usize / 2 % MODEL.len()] } else { TEXTUAL[c.idx as usize / 2 % TEXTUAL.len()] };
        let n = if c.idx % 7 == 6 { c.rng.range(100, 290) } else { c.rng.range(34, 100) };
        let Some(x) = corrupt(&mut c.rng, kind, n) else { return };
        c.what("parse_from_xml");
        match guarded(|| Tsp::parse_from_xml(&x)) {
            Ok(Ok(t)) => c.fail(format!("accepted although {kind}: a document of {n} cities, read as {} cities; {}", t.graph.num_vertices(), clip(&x))),
            Ok(Err(_)) => c.count("large documents rejected with an error", 1),
            Err(_) => c.count("large documents rejected by the precondition check", 1),
        }
        c.eval(&format!("large: {kind}"), hash_bytes(x.as_bytes()), true);
    });
    // the same documents, and unreadable files, through the program
    ctx.phase("program", ctx.n(240, 5000), 8, |c| {
        let extra = ["missing file", "directory", "not UTF-8", "no such algorithm"];
        let total = kinds.len() + extra.len();
        let k = c.idx as usize % total;
        let f = scratch(c, "xml");
        let mut alg = "mst";
        let (kind, data): (&str, Option<Vec<u8>>) = if k < kinds.len() {
            let n = if c.rng.chance(0.1) { c.rng.range(30, 120) } else { c.rng.range(2, 7) };
            match corrupt(&mut c.rng, kinds[k], n) {
                Some(x) => (kinds[k], Some(x.into_bytes())),
                None => return,
            }
        } else {
            match extra[k - kinds.len()] {
                "not UTF-8" => {
                    let i = inst::make(&mut c.rng, 3, "uniform");
                    let mut b = i.xml().into_bytes();
                    let at = i.xml().find("<name>").unwrap() + 6;
                    b[at] = 0xff;
                    ("not UTF-8", Some(b))
                }
                "no such algorithm" => {
                    alg = "nonsense";
                    let i = inst::make(&mut c.rng, 3, "uniform");
                    ("no such algorithm", Some(i.xml().into_bytes()))
                }
                o => (o, None),
            }
        };
        let path = match kind {
            "directory" => scratch_dir(),
            _ => f.clone(),
        };
        if let Some(d) = &data {
            if std::fs::write(&f, d).is_err() {
                c.inconclusive("cannot write a scratch file");
                return;
            }
        }
        let mode = ["single-threaded", "multi-threaded"][c.rng.below(2)];
        let args: Vec<&str> = match c.rng.below(4) {
            _ if alg == "nonsense" => vec!["exact", "v9", &path],
            0 => vec!["lower-bound", alg, &path, "-p", mode],
            1 => vec!["approx", "nearest-neighbour", &path, "-p", mode],
            2 => vec!["approx", "christofides", &path, "-p", mode],
            _ => vec!["exact", "v6", &path, "-p", mode],
        };
        let r = run_cli(c, &args);
        let _ = std::fs::remove_file(&f);
        let Some(r) = r else { return };
        let shown = data.as_ref().map(|d| clip(&String::from_utf8_lossy(d))).unwrap_or_default();
        if r.limited {
            c.fail(format!("walky {args:?} does not end on a document with {kind}; {shown}"));
        } else if r.code == Some(0) || !r.out.is_empty() {
            c.fail(format!("walky {args:?}: {kind}, yet it ends with {:?} and prints {:?}; {shown}", r.code, clip(&r.out)));
        }
        c.eval(&format!("program: {kind}"), mix(hash_bytes(&data.clone().unwrap_or_default()) ^ hash_bytes(format!("{:?}", args.iter().filter(|a| **a != path).collect::<Vec<_>>()).as_bytes())), true);
    });
    (
        "A case is one document broken in one of 48 ways (graph defects, malformed numbers, malformed XML), parsed in-process or given to the program with a random algorithm; acceptance, a zero exit status or any output on stdout is a violation. Every case is non-trivial; distinct by document text.",
        vec!["infinite and negative costs are not judged", "what follows the instance element is not judged (the reader stops there)"],
    )
}
