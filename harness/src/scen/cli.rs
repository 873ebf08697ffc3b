//! Command line scenarios: the shipped `main` of rudof_cli runs as one simulated process.
//! C01: exit 0 means complete outputs under write faults; C02: read faults never change an
//! answer silently; C03: no overwrite without --force-overwrite; C04: results independent of
//! hash seeds, schedules and CPUs, and equal to the reference model; E03: inputs fetched over
//! HTTP give the same result as local files, or the command fails.
use super::http;
use super::people::{self, People};
use super::vshacl;
use crate::runner::*;
use crate::sim::{self, fs, rng::Rng};
use serde_json::{Value, json};
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Output,
    Input,
    Overwrite,
    Stable,
    /// inputs come over HTTP
    Fetched,
}
pub struct Cli(pub Kind);

macro_rules! files {
    ($($n:literal),*) => { &[$(($n, include_str!(concat!("../../data/cli/", $n)))),*] };
}
pub const FILES: &[(&str, &str)] = files![
    "user.ttl", "user.shex", "user.sparql", "construct.sparql", "ask.sparql", "shapes.ttl", "simple.ttl", "simple.shex", "simple_shacl.ttl",
    "user.shexj", "user_fail.ttl", "user.csv", "book.csv", "book.ttl", "adult.pg", "adult.pgs", "adult.map", "demo.pg", "demo.pgs", "demo.map",
    "simple.pg", "simple.pgs", "simple.map", "map.shex", "imported.shex", "service.ttl", "config.toml", "rich.ttl", "rich.shex"
];
const IMPORTS: &[(&str, &str)] = &[
    ("imp.shex", "PREFIX : <http://example.org/>\nIMPORT <file:///sim/w/imp1.shex>\nIMPORT <file:///sim/w/imp2.shex>\n:User @:Named AND @:Stated AND { }\n"),
    ("imp1.shex", "PREFIX : <http://example.org/>\nIMPORT <file:///sim/w/imp3.shex>\n:Stated { :status @:Status ? }\n"),
    ("imp2.shex", "PREFIX : <http://example.org/>\nPREFIX s: <http://schema.org/>\nPREFIX xsd: <http://www.w3.org/2001/XMLSchema#>\n:Named { s:name xsd:string ; s:knows IRI * }\n"),
    ("imp3.shex", "PREFIX : <http://example.org/>\n:Status [ :Active :Waiting ]\n"),
];
fn me() -> String {
    format!("http://127.0.0.1:{PORT}/w/me.ttl")
}
pub fn image(people: &Value) -> fs::Image {
    let mut im = fs::Image::new();
    for d in ["/w", "/home", "/tmp", "/o"] {
        im.insert(d.into(), fs::Node::Dir);
    }
    for (n, t) in FILES {
        im.insert(format!("/w/{n}"), fs::Node::Text(t.to_string()));
    }
    let p = People::of(people);
    im.insert("/w/p.ttl".into(), fs::Node::Text(p.turtle()));
    im.insert("/w/p.nt".into(), fs::Node::Text(p.ntriples()));
    im.insert("/w/p.jsonld".into(), fs::Node::Text(p.jsonld()));
    im.insert("/w/p.rdf".into(), fs::Node::Text(p.rdfxml()));
    im.insert("/w/p.sm".into(), fs::Node::Text(p.shapemap()));
    // a schema importing others by absolute IRI (file: here, http: when fetched)
    for (n, t) in IMPORTS {
        im.insert(format!("/w/{n}"), fs::Node::Text(t.to_string()));
    }
    im.insert("/w/me.ttl".into(), fs::Node::Text(format!("{}<{}> <http://schema.org/knows> <http://example.org/p0> .\n", p.ntriples(), me())));
    im
}
pub fn env() -> Vec<(String, String)> {
    [("HOME", "/sim/home"), ("TMPDIR", "/sim/tmp"), ("RUST_BACKTRACE", "0"), ("RUST_LOG", "error"), ("XDG_CONFIG_HOME", "/sim/home/.config"), ("TERM", "dumb")]
        .iter()
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .collect()
}

struct B {
    a: Vec<String>,
    stdin: Option<String>,
    outs: Vec<(String, String)>,
    so: String,
    x: &'static str,
}
impl B {
    fn new(cmd: &str) -> B {
        B { a: cmd.split_whitespace().map(String::from).collect(), stdin: None, outs: vec![], so: "lines".into(), x: "" }
    }
    fn arg(mut self, s: &str) -> B {
        self.a.extend(s.split_whitespace().map(String::from));
        self
    }
    fn fmt(mut self, f: &str) -> B {
        self.so = f.into();
        self
    }
    fn expect(mut self, x: &'static str) -> B {
        self.x = x;
        self
    }
    fn out(mut self, p: &str, f: &str) -> B {
        self.outs.push((p.into(), f.into()));
        self
    }
    fn json(self) -> Value {
        json!({"a": self.a, "stdin": self.stdin, "outs": self.outs, "so": self.so, "x": self.x})
    }
}

fn rdf_fmt(r: &mut Rng) -> (&'static str, &'static str) {
    *r.pick(&[("turtle", "rdf-ttl"), ("ntriples", "rdf-nt"), ("rdfxml", "rdf-rdf"), ("jsonld", "rdf-jsonld"), ("nquads", "rdf-nq"), ("trig", "rdf-trig"), ("n3", "rdf-ttl")])
}
/// data argument: the generated people in one of the input formats, from a file or standard input
fn data_in(b: B, r: &mut Rng) -> B {
    let (f, flag) = *r.pick(&[("p.ttl", ""), ("p.ttl", ""), ("p.nt", "-t ntriples"), ("p.nt", "-t nquads"), ("p.jsonld", "-t jsonld"), ("p.rdf", "-t rdfxml"), ("p.nt", "-t ntriples")]);
    let mut b = b;
    if r.pct(20) {
        b.stdin = Some(format!("/w/{f}"));
        b = b.arg("-");
    } else {
        b = b.arg(&format!("/sim/w/{f}"));
    }
    b = b.arg(flag);
    if r.pct(25) {
        b = b.arg("--reader-mode lax");
    }
    b
}

/// One or more commands that belong together; their result is judged as a whole.
fn catalog(r: &mut Rng) -> Vec<Value> {
    let mut steps: Vec<B> = vec![];
    match r.below(33) {
        0..=4 => {
            let (f, c) = rdf_fmt(r);
            steps.push(data_in(B::new("data"), r).arg("-r").arg(f).fmt(c).expect("data"));
        },
        5 => {
            let f = *r.pick(&["compact", "plantuml"]);
            steps.push(data_in(B::new("data"), r).arg("-r").arg(f).fmt("chars;none"));
        },
        6 => {
            let (f, c) = rdf_fmt(r);
            steps.push(B::new("data /sim/w/rich.ttl -r").arg(f).fmt(c));
        },
        7 => {
            let (f, c) = rdf_fmt(r);
            steps.push(B::new("data /sim/w/p.ttl /sim/w/book.ttl /sim/w/simple.ttl -r").arg(f).fmt(c));
        },
        8 | 9 => {
            let f = *r.pick(&["internal", "json", "csv", "markdown", "asciitable"]);
            let b = data_in(B::new("query"), r).arg("-q /sim/w/user.sparql -r").arg(f);
            steps.push(if f == "json" { b.fmt("json").expect("select") } else if f == "csv" { b } else { b.fmt("lines;chars") });
        },
        10 => {
            let (f, c) = *r.pick(&[("turtle", "rdf-ttl"), ("internal", "rdf-ttl")]);
            steps.push(data_in(B::new("query"), r).arg("-q /sim/w/construct.sparql --query-type construct -r").arg(f).fmt(c).expect("construct"));
        },
        11 => steps.push(data_in(B::new("query"), r).arg("-q /sim/w/ask.sparql --query-type ask").expect("ask")),
        12 | 13 => {
            let (f, c) = *r.pick(&[("internal", "lines;none"), ("shexc", "chars"), ("shexj", "json"), ("json", "json")]);
            let s = *r.pick(&["user.shex", "simple.shex", "imported.shex", "rich.shex", "map.shex", "user.shexj -f shexj"]);
            steps.push(B::new("shex -s").arg(&format!("/sim/w/{s} -r {f}")).fmt(c));
        },
        14..=16 => {
            let f = *r.pick(&["details", "compact", "json", "csv"]);
            let c = match f {
                "json" => "json;vjson",
                "compact" => "lines",
                _ => "lines;vlines",
            };
            let sort = *r.pick(&["", "", "--sort_by node", "--sort_by details"]);
            let v = *r.pick(&["shex-validate", "shex-validate", "validate -M shex"]);
            let b = data_in(B::new(v), r).arg("-s /sim/w/user.shex -m /sim/w/p.sm").arg(sort).arg("-r").arg(f).fmt(c);
            steps.push(if f == "json" { b.expect("shex") } else { b });
        },
        17 => {
            let f = *r.pick(&["compact", "json"]);
            let c = if f == "json" { "json;vjson" } else { "lines" };
            let sh = *r.pick(&[":Strict", ":Loner", ":Mixed", ":NotUser", ":Both", ":Either", ":Inv"]);
            steps.push(B::new("shex-validate /sim/w/p.ttl -s /sim/w/rich.shex -n http://example.org/p0 -l").arg(sh).arg("-r").arg(f).fmt(c));
        },
        18 | 19 => {
            // precompiled cache
            let f = *r.pick(&["compact", "json", "csv"]);
            let c = match f {
                "json" => "json;vjson",
                "compact" => "lines",
                _ => "lines;vlines",
            };
            if r.pct(50) {
                steps.push(B::new("shex -s /sim/w/user.shex --compile-to /sim/o/c.bin -r internal").out("/o/c.bin", "none"));
            } else {
                steps.push(B::new("shex-validate /sim/w/p.ttl -s /sim/w/user.shex -m /sim/w/p.sm --compile-to /sim/o/c.bin -r json").fmt("json;vjson").expect("shex").out("/o/c.bin", "none"));
            }
            let b = data_in(B::new("shex-validate"), r).arg("--compiled-schema /sim/o/c.bin -m /sim/w/p.sm -r").arg(f).fmt(c);
            steps.push(if f == "json" { b.expect("shex") } else { b });
        },
        20 | 21 | 31 | 32 => {
            // ShExMap state
            steps.push(
                B::new("shex-validate /sim/w/user.ttl -s /sim/w/map.shex -n :a -l :S --map-state /sim/o/ms.json -r compact").out("/o/ms.json", "json"),
            );
            let (f, c) = rdf_fmt(r);
            steps.push(B::new("materialize -s /sim/w/map.shex -m /sim/o/ms.json -n http://e.org/x -r").arg(f).fmt(c));
        },
        22 => {
            let (f, c) = *r.pick(&[("internal", "chars;none"), ("turtle", "rdf-ttl"), ("ntriples", "rdf-nt")]);
            let s = *r.pick(&["shapes.ttl", "simple_shacl.ttl", "rich.ttl"]);
            steps.push(B::new("shacl -s").arg(&format!("/sim/w/{s} -r {f}")).fmt(c));
        },
        23..=25 => {
            let (f, c) = *r.pick(&[("details", "chars;vtable"), ("compact", "lines;vtable"), ("minimal", "lines"), ("turtle", "report"), ("turtle", "report"), ("ntriples", "report"), ("rdfxml", "chars;none")]);
            let rich = r.pct(30);
            let s = if rich { "rich.ttl" } else { "shapes.ttl" };
            let v = *r.pick(&["shacl-validate", "shacl-validate", "validate -M shacl"]);
            let m = if v == "shacl-validate" && !rich && r.pct(15) { "-m sparql" } else { "" };
            let f2 = if v != "shacl-validate" && f == "minimal" { "compact" } else { f };
            let mut b = data_in(B::new(v), r);
            b = b.arg("-s").arg(&format!("/sim/w/{s}"));
            if v != "shacl-validate" {
                b = b.arg("-f turtle");
            }
            b = b.arg(m).arg("-r").arg(f2).fmt(if f == "minimal" && f2 == "compact" { "lines;vtable" } else { c });
            steps.push(if !rich && m.is_empty() && matches!(f2, "turtle" | "ntriples") { b.expect("shacl") } else { b });
        },
        26 => {
            let m = *r.pick(&["outgoing", "incoming", "both"]);
            let d = r.range(1, 3);
            steps.push(data_in(B::new("node"), r).arg(&format!("-n http://example.org/p0 -m {m} -d {d}")).fmt("tree"));
        },
        27 => {
            let c = *r.pick(&[
                ("convert -m shex -s /sim/w/user.shex -x sparql -l :User", "chars"),
                ("convert -m shex -s /sim/w/user.shex -x shex -r shexj", "json"),
                ("convert -m shex -s /sim/w/user.shex -x uml", "chars;none"),
            ]);
            steps.push(B::new(c.0).fmt(c.1));
        },
        28 => {
            let c = *r.pick(&[
                ("dctap -s /sim/w/book.csv", "lines"),
                ("dctap -s /sim/w/user.csv", "lines"),
                ("dctap -s /sim/w/book.csv -r json", "json"),
                ("service -s /sim/w/service.ttl -r json", "json"),
                ("service -s /sim/w/service.ttl -r internal", "chars"),
                ("service -s /sim/w/service.ttl -r mie", "chars"),
                ("sparql -q /sim/w/user.sparql", "lines"),
            ]);
            steps.push(B::new(c.0).fmt(c.1));
        },
        29 => {
            let n = *r.pick(&["adult", "demo", "simple"]);
            let f = *r.pick(&["compact", "details", "json", "csv"]);
            if r.pct(30) {
                steps.push(B::new("pgschema -s").arg(&format!("/sim/w/{n}.pgs")).fmt("chars"));
            } else {
                steps.push(B::new("pgschema-validate -s").arg(&format!("/sim/w/{n}.pgs -m /sim/w/{n}.map /sim/w/{n}.pg -r {f}")).fmt(if f == "json" { "json" } else { "lines" }));
            }
        },
        _ => {
            let c = *r.pick(&["completion bash", "completion zsh", "config -c /sim/w/config.toml", "shex-validate --list-external-resolvers"]);
            steps.push(B::new(c));
        },
    }
    // where the main result goes
    for (i, b) in steps.iter_mut().enumerate() {
        if r.pct(50) {
            let p = format!("/o/r{i}");
            b.a.push("-o".into());
            b.a.push(format!("/sim{p}"));
            b.outs.push((p, b.so.clone()));
            b.so = "lines".into();
            if r.pct(20) {
                b.a.push("--force-overwrite".into());
            }
        }
    }
    steps.into_iter().map(|b| b.json()).collect()
}

// ------------------------------------------------------------- comparing outputs
fn mask_bnodes(s: &str) -> String {
    // blank node identifiers drawn from entropy: 31 or 32 hex digits
    let mut out = String::new();
    let mut run = String::new();
    for c in s.chars().chain(std::iter::once('\0')) {
        if c.is_ascii_hexdigit() {
            run.push(c);
            continue;
        }
        if run.len() >= 24 {
            out.push('#');
        } else {
            out.push_str(&run);
        }
        run.clear();
        if c != '\0' {
            out.push(c);
        }
    }
    out
}
fn sort_json(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut b: Vec<Value> = a.iter().map(sort_json).collect();
            b.sort_by_key(|x| x.to_string());
            Value::Array(b)
        },
        Value::Object(o) => {
            let b: std::collections::BTreeMap<String, Value> = o.iter().map(|(k, v)| (k.clone(), sort_json(v))).collect();
            json!(b)
        },
        Value::String(s) => json!(mask_bnodes(s)),
        x => x.clone(),
    }
}
pub fn quads(fmt: &str, b: &[u8]) -> Result<oxrdf::Dataset, String> {
    use oxrdfio::{RdfFormat, RdfParser};
    let f = match fmt {
        "ttl" => RdfFormat::Turtle,
        "nt" => RdfFormat::NTriples,
        "rdf" => RdfFormat::RdfXml,
        "nq" => RdfFormat::NQuads,
        "trig" => RdfFormat::TriG,
        "jsonld" => RdfFormat::JsonLd { profile: Default::default() },
        _ => return Err(format!("format {fmt}")),
    };
    let mut d = oxrdf::Dataset::new();
    for q in RdfParser::from_format(f).for_slice(b) {
        d.insert(&q.map_err(|e| format!("output does not parse as {fmt}: {e}"))?);
    }
    Ok(d)
}
fn canon_quads(mut d: oxrdf::Dataset) -> String {
    d.canonicalize(oxrdf::dataset::CanonicalizationAlgorithm::Unstable);
    let mut v: Vec<String> = d.iter().map(|q| q.to_string()).collect();
    v.sort();
    v.join("\n")
}
/// results of a SHACL report: focus, component, path, value
pub fn report(b: &[u8]) -> Result<(bool, Vec<(String, String, String, String)>), String> {
    let d = quads("ttl", b).or_else(|_| quads("nt", b)).or_else(|_| quads("rdf", b))?;
    const SH: &str = "http://www.w3.org/ns/shacl#";
    let nn = |l: &str| oxrdf::NamedNode::new_unchecked(format!("{SH}{l}"));
    let mut conf = None;
    let mut out = vec![];
    let (pc, pr, pf, pcomp, ppath, pv) =
        (nn("conforms"), nn("result"), nn("focusNode"), nn("sourceConstraintComponent"), nn("resultPath"), nn("value"));
    for q in d.quads_for_predicate(&pc) {
        conf = Some(q.object.to_string().contains("true"));
    }
    for q in d.quads_for_predicate(&pr) {
        let oxrdf::TermRef::BlankNode(n) = q.object else { return Err("result is not a blank node".into()) };
        let get = |p: &oxrdf::NamedNode| {
            let mut v: Vec<String> = d.quads_for_subject(n).filter(|q| q.predicate == p.as_ref()).map(|q| if q.object.is_blank_node() { "_".to_string() } else { q.object.to_string() }).collect();
            v.sort();
            v.join("|")
        };
        let comp = get(&pcomp);
        let comp = comp.trim_start_matches(&format!("<{SH}")).trim_end_matches("ConstraintComponent>").to_string();
        out.push((get(&pf), comp, get(&ppath), get(&pv)));
    }
    out.sort();
    Ok((conf.ok_or("no sh:conforms")?, out))
}
pub fn canon(fmt: &str, b: &[u8]) -> Result<String, String> {
    if let Some(f) = fmt.strip_prefix("rdf-") {
        return Ok(canon_quads(quads(f, b)?));
    }
    Ok(match fmt {
        "none" => String::new(),
        // ShEx verdicts only
        // drawn trees: the set of arcs
        "tree" => {
            let mut v: Vec<String> = String::from_utf8_lossy(b).lines().map(|l| l.trim_matches(|c: char| c.is_whitespace() || "│├└─".contains(c)).to_string()).collect();
            v.sort();
            v.dedup();
            v.join("\n")
        },
        "vjson" => {
            let v: Value = serde_json::from_slice(b).map_err(|e| format!("output is not JSON: {e}"))?;
            let mut v: Vec<String> = v.as_array().ok_or("not an array")?.iter().map(|e| format!("{} {} {}", e["node"], e["shape"], e["status"])).collect();
            v.sort();
            v.join("\n")
        },
        "vlines" => {
            let mut v: Vec<String> = String::from_utf8_lossy(b)
                .lines()
                .filter_map(|l| {
                    let f: Vec<&str> = if l.starts_with(':') { l.splitn(4, ',').collect() } else { l.split('│').skip(1).map(|x| x.trim()).collect() };
                    (f.len() >= 3 && (f[2] == "OK" || f[2] == "FAIL")).then(|| format!("{} {} {}", f[0], f[1], f[2]))
                })
                .collect();
            v.sort();
            v.join("\n")
        },
        // SHACL results only: severity, node, component, path, value
        "vtable" => {
            let mut v: Vec<String> = String::from_utf8_lossy(b)
                .lines()
                .filter_map(|l| {
                    let f: Vec<&str> = l.split('│').skip(1).map(|x| x.trim()).collect();
                    (f.len() >= 5 && !f[0].is_empty()).then(|| format!("{:?}", &f[..5]))
                })
                .collect();
            v.sort();
            v.join("\n")
        },
        "json" => sort_json(&serde_json::from_slice::<Value>(b).map_err(|e| format!("output is not JSON: {e}"))?).to_string(),
        "fullreport" => format!("{:?}", vshacl::full_report(b)?),
        "report" => format!("{:?}", report(b)?),
        "chars" => {
            let mut v: Vec<char> = mask_bnodes(&String::from_utf8_lossy(b)).chars().filter(|c| !c.is_whitespace()).collect();
            v.sort();
            v.into_iter().collect()
        },
        _ => {
            let mut v: Vec<String> = mask_bnodes(&String::from_utf8_lossy(b)).lines().map(|l| l.trim_end().to_string()).collect();
            v.sort();
            v.join("\n")
        },
    })
}
/// Does the output say what the reference model says?
fn model(x: &str, fmt: &str, b: &[u8], p: &People) -> Result<(), String> {
    fn diff<T: Ord + std::fmt::Debug>(want: &BTreeSet<T>, got: &BTreeSet<T>) -> Result<(), String> {
        if want == got {
            return Ok(());
        }
        Err(format!("missing {:?}, unexpected {:?}", want.difference(got).take(5).collect::<Vec<_>>(), got.difference(want).take(5).collect::<Vec<_>>()))
    }
    let js = || serde_json::from_slice::<Value>(b).map_err(|e| e.to_string());
    match x {
        "data" | "construct" => {
            let d = quads(fmt.trim_start_matches("rdf-"), b)?;
            let got: BTreeSet<String> = d.iter().map(|q| format!("{} {} {}", q.subject, q.predicate, q.object)).collect();
            diff(&if x == "data" { p.triples() } else { p.construct() }, &got)
        },
        "select" => {
            let v = js()?;
            let mut got = BTreeSet::new();
            let mut n = 0;
            for s in v["solutions"].as_array().ok_or("no solutions")? {
                let g = |k: &str| s[k].as_str().unwrap_or("").to_string();
                got.insert((g("person"), g("name"), g("status")));
                n += 1;
            }
            let want = p.select();
            diff(&want, &got)?;
            if n != want.len() { Err(format!("{n} solutions for {} expected", want.len())) } else { Ok(()) }
        },
        "ask" => {
            let t = String::from_utf8_lossy(b).to_lowercase();
            if t.contains("true") == p.ask() && t.contains("false") != p.ask() { Ok(()) } else { Err(format!("answer {t:?}, expected {}", p.ask())) }
        },
        "shex" => {
            let v = js()?;
            let users = p.users();
            let mut seen = BTreeSet::new();
            for e in v.as_array().ok_or("no results")? {
                let n = e["node"].as_str().unwrap_or("").trim_start_matches("http://example.org/p").parse::<u64>().map_err(|_| format!("node {}", e["node"]))?;
                let want = if users.contains(&n) { "conformant" } else { "nonconformant" };
                if e["status"] != want {
                    return Err(format!("p{n} reported {}, expected {want}", e["status"]));
                }
                if !seen.insert(n) {
                    return Err(format!("p{n} reported twice"));
                }
            }
            diff(&p.0.keys().copied().collect(), &seen)
        },
        "shacl" => {
            let (conf, res) = report(b)?;
            let want = p.shacl();
            let got: BTreeSet<_> = res.iter().cloned().collect();
            diff(&want, &got)?;
            if conf != want.is_empty() {
                return Err(format!("sh:conforms {conf} with {} results", want.len()));
            }
            Ok(())
        },
        _ => Ok(()),
    }
}

/// run the command line as a process would, and report its exit status and files
pub fn run_main() -> Value {
    use std::io::Write;
    let (code, msg) = match crate::cli_main::run() {
        Ok(()) => (0, String::new()),
        Err(e) => (1, format!("{e:#}")),
    };
    // what the runtime does when main returns
    let _ = std::io::stdout().flush();
    let _g = sim::Guard::new();
    json!({"code": code, "msg": msg, "image": sim::sim().fs.volatile_image()})
}
/// exit status as the shell sees it; None: neither success nor failure was reported
pub fn code(o: &Out) -> Option<i64> {
    match o.status.as_str() {
        "ok" => o.extra["code"].as_i64(),
        "panic" => Some(101),
        "abort" => Some(134),
        "exit" => o.msg.split(' ').next_back().and_then(|c| c.parse().ok()),
        _ => None,
    }
}

const PORT: u16 = 8891;
/// make some of the imports (bit i: those of IMPORTS[i]) name the web server
fn remote_imports(im: &mut fs::Image, bits: u64) {
    for (i, (n, t)) in IMPORTS.iter().enumerate() {
        if bits & (1 << i) != 0 {
            im.insert(format!("/w/{n}"), fs::Node::Text(t.replace("file:///sim/", &format!("http://127.0.0.1:{PORT}/"))));
        }
    }
}
/// the arguments naming inputs that can be fetched
fn remote_args(st: &Value) -> Vec<usize> {
    let a: Vec<&str> = st["a"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    (1..a.len())
        .filter(|i| a[*i].starts_with("/sim/w/") && !matches!(a[*i - 1], "-c" | "--compiled-schema"))
        // (relative imports are resolved against the working directory)
        .filter(|i| !a[*i].ends_with("imported.shex"))
        .collect()
}
fn mime(p: &str) -> &'static str {
    match p.rsplit('.').next().unwrap_or("") {
        "ttl" => "text/turtle",
        "nt" => "application/n-triples",
        "jsonld" => "application/ld+json",
        "rdf" => "application/rdf+xml",
        "shex" => "text/shex",
        "csv" => "text/csv",
        _ => "text/plain",
    }
}
fn fetch_script(r: &mut Rng) -> Vec<Value> {
    let bad = *r.pick(&[0u64, 30, 60, 100]);
    (0..r.below(5))
        .map(|_| {
            let mut b = json!({"f": *r.pick(&["len", "len", "chunked", "close"]), "step": *r.pick(&[1u64, 7, 64, 700])});
            if r.pct(20) {
                b["delay"] = json!(*r.pick(&[1u64, 900, 20_000, 200_000]));
            }
            if r.pct(bad) {
                match r.below(8) {
                    7 => {
                        b["k"] = json!("stall");
                        b["at"] = json!(r.below(1 << 20));
                    },
                    0 | 1 => {
                        b["k"] = json!("status");
                        b["s"] = json!(*r.pick(&[400u64, 403, 404, 404, 429, 500, 502, 503]));
                        b["b"] = json!(*r.pick(&["html", "empty", "valid", "same"]));
                    },
                    2 => b["k"] = json!("drop"),
                    3 => b["k"] = json!("redirect"),
                    _ => {
                        b["k"] = json!("cut");
                        b["f"] = json!(*r.pick(&["len", "chunked"]));
                        b["at"] = json!(r.below(1 << 20));
                        b["line"] = json!(r.pct(50));
                        b["head"] = json!(r.pct(10));
                        b["rst"] = json!(r.pct(40));
                    },
                }
            }
            b
        })
        .collect()
}
fn injected(os: &[Out]) -> bool {
    os.iter().any(|o| !o.trace.faults.is_empty() || o.history.iter().any(|h| h["fault"].is_string()))
}
const WRITE_FAULTS: &[(&str, &str)] = &[
    ("write", "short"), ("write", "one"), ("write", "eintr"), ("write", "eio"), ("write", "enospc"), ("write", "full"),
    ("stdout", "short"), ("stdout", "one"), ("stdout", "eintr"), ("stdout", "eio"), ("stdout", "enospc"), ("stdout", "epipe"), ("stdout", "stall"),
    ("open_w", "eio"), ("open_w", "emfile"), ("open_w", "enospc"), ("open_w", "eintr"), ("open_w", "eacces"), ("fsync", "eio"),
];
const READ_FAULTS: &[(&str, &str)] = &[
    ("read", "short"), ("read", "one"), ("read", "eintr"), ("read", "eio"), ("read", "eio"),
    ("stdin", "short"), ("stdin", "one"), ("stdin", "eintr"), ("stdin", "eio"), ("stdin", "eio"),
    ("open_r", "eio"), ("open_r", "emfile"), ("open_r", "eacces"), ("open_r", "eintr"),
];

impl Scenario for Cli {
    fn property(&self) -> &'static str {
        match self.0 {
            Kind::Output => "C01",
            Kind::Input => "C02",
            Kind::Overwrite => "C03",
            Kind::Stable => "C04",
            Kind::Fetched => "E03",
        }
    }
    fn level(&self) -> &'static str {
        match self.0 {
            Kind::Output | Kind::Input | Kind::Fetched => "fault_enumeration",
            _ => "exploration",
        }
    }
    fn rule(&self) -> &'static str {
        match self.0 {
            Kind::Output => "each run is a command (or a chain using its output files) executed once without and once with write faults; non-trivial when a fault was injected",
            Kind::Input => "each run is a command (or chain) executed once without and once with read faults on its inputs; non-trivial when a fault was injected",
            Kind::Overwrite => "each run is a command whose -o file exists already or is created by another process at some moment; non-trivial when the command met the file",
            Kind::Stable => "each run is a command executed with two hash seeds, schedules and CPU counts; non-trivial when both succeeded",
            Kind::Fetched => "each run is a command executed on local files and with inputs fetched over HTTP under network and server faults; non-trivial when a fault was injected",
        }
    }
    fn real(&self) -> &'static [&'static str] {
        &["rudof_cli main: argument parsing, command dispatch, output writers", "rudof_lib and all engines behind the commands", "std::fs, BufWriter, stdout, rayon, tokio"]
    }
    fn stub(&self) -> &'static [&'static str] {
        match self.0 {
            Kind::Fetched => &["disk, pipes (stdin/stdout), TCP network, scheduler, clock, entropy", "the web server: a scripted HTTP server over the image's files"],
            _ => &["disk, pipes (stdin/stdout), scheduler, clock, entropy"],
        }
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let max = if tier == Tier::Thorough { *r.pick(&[3, 12, 120, 600]) } else { *r.pick(&[3, 12, 12, 120]) };
        let people = people::generate(r, max);
        let mut steps = catalog(r);
        let mut w = json!({"people": people});
        match self.0 {
            Kind::Output | Kind::Input => {
                let set = if self.0 == Kind::Output { WRITE_FAULTS } else { READ_FAULTS };
                let n = *r.pick(&[1, 1, 2, 3]);
                let rates: Vec<Value> = (0..n)
                    .map(|_| {
                        let (c, k) = *r.pick(set);
                        let benign = matches!(k, "short" | "one" | "eintr" | "stall");
                        json!([c, k, *r.pick(if benign { &[50_000u64, 500_000, 900_000][..] } else { &[20_000, 100_000, 300_000, 600_000, 1_000_000][..] })])
                    })
                    .collect();
                w["rates"] = json!(rates);
                w["max"] = json!(*r.pick(&[1u64, 1, 3, 1_000_000]));
                if r.pct(50) {
                    // faults placed at one of the operations the undisturbed run made
                    w["aim"] = json!([r.below(1 << 20), r.below(1 << 20), *r.pick(&[1u64, 1, 2, 1_000_000]), r.below(1 << 20)]);
                    w["max"] = json!(1_000_000);
                    if r.pct(70) {
                        w["rates"] = json!([]);
                    }
                }
            },
            Kind::Fetched => {
                while steps.iter().all(|s| remote_args(s).is_empty()) {
                    steps = catalog(r);
                }
                match r.below(100) {
                    0..18 => {
                        // imported schemas are fetched
                        let b = if r.pct(60) {
                            data_in(B::new("shex-validate"), r).arg("-s /sim/w/imp.shex -m /sim/w/p.sm -r json").fmt("json;vjson").expect("shex")
                        } else {
                            B::new("shex -s /sim/w/imp.shex -r shexj").fmt("json")
                        };
                        steps = vec![b.json()];
                        w["imp"] = json!(r.range(1, 8));
                    },
                    18..28 => {
                        // the data is what the node's own address answers
                        let m = *r.pick(&["outgoing", "incoming", "both"]);
                        steps = vec![B::new("node /sim/w/me.ttl").arg(&format!("-n {} -m {m} -d {}", me(), r.range(1, 3))).fmt("tree").json()];
                        w["me"] = json!(true);
                    },
                    _ => {},
                }
                // which of the inputs are fetched
                for s in steps.iter_mut() {
                    let mut v: Vec<usize> = remote_args(s);
                    if r.pct(30) {
                        v.retain(|_| r.pct(60));
                    }
                    s["url"] = json!(if w["me"] == json!(true) || w["imp"].is_number() && r.pct(60) { vec![] } else { v });
                }
                w["net"] = json!(fetch_script(r));
                let mut rates = vec![];
                if r.pct(30) {
                    rates.push(json!(["net", *r.pick(&["delay", "split", "split", "rst"]), *r.pick(&[20_000u64, 200_000])]));
                    if r.pct(20) {
                        rates.push(json!(["connect", "refuse", 300_000u64]));
                    }
                }
                w["rates"] = json!(rates);
                w["max"] = json!(3);
            },
            Kind::Overwrite => {
                while steps.len() != 1 {
                    steps = catalog(r);
                }
                let a = steps[0]["a"].as_array_mut().unwrap();
                a.retain(|x| x != "--force-overwrite");
                if !a.iter().any(|x| x == "-o") {
                    a.push(json!("-o"));
                    a.push(json!("/sim/o/r0"));
                    let so = steps[0]["so"].clone();
                    steps[0]["outs"].as_array_mut().unwrap().push(json!(["/o/r0", so]));
                    steps[0]["so"] = json!("lines");
                }
                w["actor"] = json!(*r.pick(&["exists", "exists", "create", "create", "rename", "rename", "none"]));
                w["delay"] = json!(*r.pick(&[0u64, 0, 1, 5]));
                w["spin"] = json!(r.below(40));
                w["shell"] = json!(r.pct(35));
                // other commands of the same shell session, which may overwrite files of their own
                let mut pre = vec![];
                while pre.len() < 3 && r.pct(55) {
                    let b = catalog(r).remove(0);
                    let mut a: Vec<String> = b["a"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                    if b["stdin"].is_string() {
                        continue;
                    }
                    if let Some(i) = a.iter().position(|x| x == "-o") {
                        a.drain(i..i + 2);
                    }
                    a.retain(|x| x != "--force-overwrite");
                    a.push("-o".into());
                    a.push(format!("/sim/o/x{}", r.below(2)));
                    if r.pct(70) {
                        a.push("--force-overwrite".into());
                    }
                    pre.push(json!(a.join(" ")));
                }
                w["pre"] = json!(pre);
                w["len"] = json!(*r.pick(&[0u64, 1, 20, 9000]));
                w["benign"] = json!(r.pct(30));
            },
            Kind::Stable => {
                if r.pct(35) {
                    w["people"] = json!([]);
                    let (nodes, n, k) = (*r.pick(&[2u64, 3, 5]), *r.pick(&[4u64, 8, 16, 24]), *r.pick(&[3u64, 5, 8, 12]));
                    let mut g = vshacl::generate(r, nodes, n, k);
                    g["ops"].as_array_mut().unwrap().iter_mut().for_each(|x| {
                        // more shapes with targets of their own means more threads at work
                        if x["t"].as_array().unwrap().is_empty() && r.pct(50) {
                            x["t"] = json!([["subj", format!("p{}", r.below(3))]]);
                            x["b"] = json!(false);
                        }
                    });
                    w["shacl"] = g;
                    steps = vec![B::new("shacl-validate -s /sim/w/gs.ttl /sim/w/g.nt -t ntriples -r turtle -m").arg(w["shacl"]["mode"].as_str().unwrap()).fmt("fullreport").json()];
                }
            },
        }
        w["ops"] = json!(steps);
        w
    }
    fn fixed(&self) -> Vec<Value> {
        if self.0 != Kind::Fetched {
            return vec![];
        }
        vec![json!({"max": 3, "net": [{"b": "valid", "f": "len", "k": "status", "s": 403, "step": 700}],
            "ops": [{"a": ["data", "/sim/w/p.ttl", "-r", "jsonld"], "outs": [], "so": "rdf-jsonld", "stdin": null, "url": [1], "x": "data"}],
            "people": [{"i": 2, "k": [], "n": ["\"x\""], "s": []}], "rates": []})]
    }
    fn shrink(&self, w: &Value) -> Vec<Value> {
        let mut v = shrink_array(w, "people");
        v.extend(shrink_array(w, "rates"));
        v.extend(shrink_array(w, "pre"));
        v.extend(shrink_array(w, "net"));
        if w["shacl"].is_object() {
            v.extend(vshacl::shrink(&w["shacl"]).into_iter().map(|x| {
                let mut z = w.clone();
                z["shacl"] = x;
                z
            }));
        }
        v
    }
    fn next(&self, w: &Value, seed: u64, done: &[Out]) -> Next {
        let steps = w["ops"].as_array().unwrap();
        let k = steps.len();
        let i = done.len();
        if let Some(o) = done.last() {
            // six hours are enough for any number of time limits to pass
            if o.msg.contains("simulated time limit") && o.history.iter().any(|h| h["fault"] == json!("server:stall")) {
                return Next::Done(violation("never-ends", format!("the command {} still waits six hours after a server stopped in the middle of an answer", steps[(i - 1) % k]["a"])));
            }
            if o.gave_up() {
                return Next::Done(Verdict::Inconclusive(format!("{} {}", o.status, o.msg)));
            }
            // (a shell command of a kind that is not implemented may end the shell)
            if code(o).is_none() && !(self.0 == Kind::Overwrite && i > k && w["shell"] == json!(true)) {
                return Next::Done(violation("no-exit", format!("the command {} did not end: {} {} {}", steps[(i - 1) % k]["a"], o.status, o.msg, super::m01::tail(&o.stderr))));
            }
        }
        // a reference step that fails ends the run: nothing to compare
        if i >= 1 && i <= k && code(&done[i - 1]) != Some(0) && self.0 != Kind::Stable {
            return Next::Done(Verdict::Held(false));
        }
        // a faulted step that reports failure ends the chain
        if i > k && code(&done[i - 1]) != Some(0) && self.0 != Kind::Overwrite && self.0 != Kind::Stable {
            let injected = injected(&done[k..]);
            if !injected {
                return Next::Done(violation("unstable-exit", format!("{} succeeded once and failed once on the same input: {}", steps[(i - 1) % k]["a"], done[i - 1].extra["msg"])));
            }
            // what the steps before it wrote must be complete all the same
            if let v @ Verdict::Violation { .. } = self.same(w, &done[..i - 1], &People::of(&w["people"])) {
                return Next::Done(v);
            }
            return Next::Done(Verdict::Held(injected));
        }
        if i == 2 * k {
            return Next::Done(self.judge(w, done));
        }
        let st = &steps[i % k];
        let faulted = i >= k;
        let mut c = if self.0 == Kind::Stable {
            draw_cfg(seed, i as u64)
        } else {
            let mut c = draw_cfg(seed, (i % k) as u64);
            c.preempt_gap = if self.0 == Kind::Overwrite { c.preempt_gap } else { 0 };
            c
        };
        if faulted && let Some(rs) = w["rates"].as_array() {
            for x in rs {
                c.rates.push(rate(x[0].as_str().unwrap(), x[1].as_str().unwrap(), x[2].as_u64().unwrap()));
            }
            c.max_faults = w["max"].as_u64().unwrap();
        }
        if faulted && w["aim"].is_array() {
            let a = |n: usize| w["aim"][n].as_u64().unwrap();
            let set = if self.0 == Kind::Output { WRITE_FAULTS } else { READ_FAULTS };
            let ops = &done[i % k].stats["ops"];
            let mut classes: Vec<&str> = set.iter().map(|x| x.0).filter(|c| ops[*c].as_u64().unwrap_or(0) > 0).collect();
            classes.dedup();
            if !classes.is_empty() {
                let cl = classes[(a(0) % classes.len() as u64) as usize];
                let kinds: Vec<&str> = set.iter().filter(|x| x.0 == cl).map(|x| x.1).collect();
                let kind = kinds[(a(1) % kinds.len() as u64) as usize];
                // the first and last operations are the likeliest
                let n = ops[cl].as_u64().unwrap();
                let from = match a(3) % 3 {
                    0 => n - 1 - (a(3) / 3) % n.min(3),
                    _ => (a(3) / 3) % n,
                };
                let len = if kind == "eintr" { a(2).min(20) } else { a(2) };
                c.plan.push(sim::Planned { class: cl.into(), kind: kind.into(), from, len });
            }
        }
        if self.0 == Kind::Overwrite && faulted {
            c.sync_ppm = c.sync_ppm.max(300_000);
            if w["benign"] == json!(true) {
                for (a, b, p) in [("write", "short", 200_000), ("write", "eintr", 200_000), ("open_w", "stall", 300_000), ("write", "stall", 100_000)] {
                    c.rates.push(rate(a, b, p));
                }
            }
        }
        if self.0 == Kind::Fetched {
            c.timer_ppm = 0;
        }
        let mut p = Phase::new(c);
        p.image = if i % k == 0 {
            let mut im = image(&w["people"]);
            if w["shacl"].is_object() {
                im.insert("/w/g.nt".into(), fs::Node::Text(vshacl::Graph::of(&w["shacl"]["data"]).ntriples()));
                im.insert("/w/gs.ttl".into(), fs::Node::Text(vshacl::Shapes::of(&w["shacl"]["ops"]).turtle()));
            }
            im
        } else { done[i - 1].image() };
        p.env = env();
        p.args = vec!["rudof".to_string()];
        let mut argv: Vec<String> = st["a"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        if self.0 == Kind::Fetched && faulted {
            for n in st["url"].as_array().into_iter().flatten() {
                let a = &mut argv[n.as_u64().unwrap() as usize];
                *a = format!("http://127.0.0.1:{PORT}{}", a.trim_start_matches("/sim"));
            }
            if w["me"] == json!(true) {
                argv.remove(1);
            }
            if let Some(x) = w["imp"].as_u64() {
                remote_imports(&mut p.image, x);
            }
        }
        if let Some(f) = st["stdin"].as_str() {
            p.stdin = p.image.get(f).and_then(fs::bytes_of).unwrap_or_default();
        }
        if self.0 == Kind::Overwrite && faulted {
            if w["shell"] == json!(true) && st["stdin"].is_null() && argv[0] != "generate" {
                p.args.push("shell".into());
                let pre: String = w["pre"].as_array().into_iter().flatten().map(|x| format!("{}\n", x.as_str().unwrap())).collect();
                p.stdin = format!("{pre}{}\nexit\n", argv.join(" ")).into_bytes();
            } else {
                p.args.extend(argv);
            }
            if w["actor"] == "exists" {
                p.image.insert("/o/r0".into(), fs::node_of(&actor_bytes(w)));
            }
        } else {
            p.args.extend(argv);
        }
        Next::Run(Box::new(p))
    }
    fn body(&self, w: &Value, phase: usize, _carry: &Value) -> Value {
        let k = w["ops"].as_array().unwrap().len();
        if self.0 == Kind::Overwrite && phase >= k {
            let kind = w["actor"].as_str().unwrap().to_string();
            let bytes = actor_bytes(w);
            let (delay, spin) = (w["delay"].as_u64().unwrap(), w["spin"].as_u64().unwrap());
            let h = std::thread::spawn(move || {
                use std::io::Write;
                if kind == "exists" || kind == "none" {
                    return;
                }
                if delay > 0 {
                    std::thread::sleep(std::time::Duration::from_micros(delay * 100));
                }
                for _ in 0..spin {
                    std::thread::yield_now();
                }
                if kind == "create" {
                    if let Ok(mut f) = std::fs::File::create_new("/sim/o/r0") {
                        sim::record(json!({"ev": "actor", "won": true}));
                        f.write_all(&bytes).unwrap();
                    }
                } else {
                    std::fs::write("/sim/o/other", &bytes).unwrap();
                    std::fs::rename("/sim/o/other", "/sim/o/r0").unwrap();
                    sim::record(json!({"ev": "actor", "won": true}));
                }
            });
            let mut v = run_main();
            h.join().unwrap();
            v["image"] = {
                let _g = sim::Guard::new();
                json!(sim::sim().fs.volatile_image())
            };
            return v;
        }
        if self.0 == Kind::Fetched && phase >= k {
            let mut im = image(&w["people"]);
            if let Some(x) = w["imp"].as_u64() {
                remote_imports(&mut im, x);
            }
            http::serve(PORT, w["net"].as_array().cloned().unwrap_or_default(), std::sync::Arc::new(move |q: &http::Req| match im.get(&q.path).and_then(fs::bytes_of) {
                Some(b) => (200, mime(&q.path).to_string(), b),
                None => (404, "text/html".into(), b"<html>not found</html>".to_vec()),
            }));
        }
        run_main()
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        match t {
            Tier::Quick => (1_000_000, 45),
            Tier::Thorough => (3_000_000, 1200),
        }
    }
}
fn actor_bytes(w: &Value) -> Vec<u8> {
    "precious ".repeat(1000).into_bytes()[..w["len"].as_u64().unwrap() as usize].to_vec()
}

impl Cli {
    fn judge(&self, w: &Value, done: &[Out]) -> Verdict {
        let steps = w["ops"].as_array().unwrap();
        let k = steps.len();
        let people = People::of(&w["people"]);
        let cmd = |i: usize| steps[i]["a"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect::<Vec<_>>().join(" ");
        if self.0 == Kind::Overwrite {
            let o = &done[1];
            if o.extra["image"].is_null() {
                return Verdict::Held(false);
            }
            let im = o.image();
            let got = im.get("/o/r0").and_then(fs::bytes_of);
            let won = w["actor"] == "exists" || o.history.iter().any(|h| h["ev"] == "actor");
            if won {
                if got.as_deref() != Some(&actor_bytes(w)[..]) {
                    return violation("overwritten", format!("{}: the output file belonged to someone else ({}) and has been changed without --force-overwrite: {:?}", cmd(0), w["actor"], got.map(|g| String::from_utf8_lossy(&g).chars().take(60).collect::<String>())));
                }
                // a file present before the command started must be refused
                if w["actor"] == "exists" && w["shell"] != json!(true) && code(o) == Some(0) {
                    return violation("not-refused", format!("{}: exit 0 although the output file existed", cmd(0)));
                }
                return Verdict::Held(true);
            }
            let sh = w["shell"] == json!(true) && steps[0]["stdin"].is_null();
            if code(o) == Some(0) && !sh {
                return self.same(w, done, &people);
            }
            if code(o) != Some(0) && !sh {
                return violation("refused-new", format!("{}: failed although the file did not exist: {}", cmd(0), o.extra["msg"]));
            }
            return Verdict::Held(false);
        }
        if self.0 == Kind::Stable {
            for i in 0..k {
                let (a, b) = (code(&done[i]), code(&done[k + i]));
                if a != b {
                    return violation("exit-differs", format!("{}: exit status {a:?} or {b:?} depending on the schedule and hash seed: {} / {}", cmd(i), done[i].extra["msg"], done[k + i].extra["msg"]));
                }
                if a != Some(0) {
                    return Verdict::Held(false);
                }
            }
        }
        self.same(w, done, &people)
    }
    fn same(&self, w: &Value, done: &[Out], people: &People) -> Verdict {
        let v = self.compare(w, done, people);
        let k = w["ops"].as_array().unwrap().len();
        // a page of an HTTP error that a command-line argument led to is a case of its own
        if let (Kind::Fetched, Verdict::Violation { key, detail }) = (self.0, &v)
            && key == "wrong-answer"
            && w["ops"].as_array().unwrap().iter().zip(done.iter().skip(k)).any(|(st, o)| {
                o.history.iter().any(|h| {
                    h["status"].as_u64().is_some_and(|s| s >= 400)
                        && st["url"].as_array().into_iter().flatten().any(|n| st["a"][n.as_u64().unwrap() as usize].as_str().map(|a| a.trim_start_matches("/sim")) == h["path"].as_str())
                })
            })
        {
            return violation("error-page-document", detail.clone());
        }
        v
    }
    fn compare(&self, w: &Value, done: &[Out], people: &People) -> Verdict {
        let steps = w["ops"].as_array().unwrap();
        let k = steps.len();
        let key = match self.0 {
            Kind::Output | Kind::Overwrite => "incomplete-output",
            Kind::Input | Kind::Fetched => "wrong-answer",
            Kind::Stable => "unstable-answer",
        };
        for (i, st) in steps.iter().enumerate().take(done.len() - k) {
            let (a, b) = (&done[i], &done[k + i]);
            let cmd = st["a"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect::<Vec<_>>().join(" ");
            let (ia, ib) = (a.image(), b.image());
            let mut parts = vec![("standard output".to_string(), st["so"].as_str().unwrap().to_string(), Some(a.stdout_bytes()), Some(b.stdout_bytes()))];
            for o in st["outs"].as_array().unwrap() {
                let p = o[0].as_str().unwrap();
                parts.push((p.to_string(), o[1].as_str().unwrap().to_string(), ia.get(p).and_then(fs::bytes_of), ib.get(p).and_then(fs::bytes_of)));
            }
            let main = if parts.iter().any(|p| p.0.starts_with("/o/r")) { parts.iter().position(|p| p.0.starts_with("/o/r")).unwrap() } else { 0 };
            for (n, (what, fmt, x, y)) in parts.iter().enumerate() {
                let (Some(x), Some(y)) = (x, y) else {
                    if x.is_some() != y.is_some() {
                        return violation(key, format!("{cmd}: exit 0 but {what} {}", if y.is_none() { "is missing" } else { "appears" }));
                    }
                    continue;
                };
                if n == main && self.0 == Kind::Stable {
                    for z in [x, y] {
                        if let Err(e) = model(st["x"].as_str().unwrap(), fmt, z, people) {
                            return violation("wrong-result", format!("{cmd}: {e}"));
                        }
                    }
                }
                // an answer may name where its input came from
                let moved = |b: &Vec<u8>| String::from_utf8_lossy(b).replace(&format!("http://127.0.0.1:{PORT}/"), "file:///sim/").into_bytes();
                let (mx, my) = if self.0 == Kind::Fetched { (moved(x), moved(y)) } else { Default::default() };
                let (x, y) = if self.0 == Kind::Fetched { (&mx, &my) } else { (x, y) };
                if x == y || (self.0 == Kind::Fetched && what.ends_with(".bin")) {
                    continue;
                }
                // "strong;weak": explanations may list things in any order, verdicts may not change
                let fmt = match fmt.split_once(';') {
                    Some((s, v)) => if matches!(self.0, Kind::Stable | Kind::Fetched) { v } else { s },
                    None => fmt.as_str(),
                };
                if fmt == "none" {
                    if self.0 == Kind::Fetched {
                        // (drawing more randomness for the HTTP client changes the order of things)
                        if x.is_empty() != y.is_empty() {
                            return violation(key, format!("{cmd}: exit 0 but {what} has {} bytes, complete it has {}", y.len(), x.len()));
                        }
                    } else if self.0 != Kind::Stable && x.len() != y.len() {
                        return violation(key, format!("{cmd}: exit 0 but {what} has {} bytes, complete it has {}", y.len(), x.len()));
                    }
                    continue;
                }
                let (cx, cy) = (canon(fmt, x), canon(fmt, y));
                if cx.is_err() && self.0 == Kind::Stable && (x.is_empty() == y.is_empty()) {
                    return violation("unreadable-output", format!("{cmd}: {what}: {}", cx.unwrap_err()));
                }
                if cx != cy {
                    let show = |b: &[u8]| String::from_utf8_lossy(b).chars().rev().take(160).collect::<Vec<_>>().into_iter().rev().collect::<String>();
                    let first = match (&cx, &cy) {
                        (Ok(p), Ok(q)) => p.lines().zip(q.lines()).find(|(a, b)| a != b).map(|(a, b)| format!("\n< {}\n> {}", &a.chars().take(300).collect::<String>(), &b.chars().take(300).collect::<String>())).unwrap_or_default(),
                        (_, Err(e)) => e.clone(),
                        _ => String::new(),
                    };
                    return violation(key, format!("{cmd}: exit 0 but {what} differs: {} bytes ending {:?} instead of {} bytes ending {:?} {first}", y.len(), show(y), x.len(), show(x)));
                }
            }
        }
        let injected = injected(&done[k..]);
        Verdict::Held(injected || matches!(self.0, Kind::Stable))
    }
}
