//! S01: a session of the interactive shell against a model of what the session holds.
use super::cli::{self, code, env, quads, report, run_main};
use super::people::{People, Person};
use crate::runner::*;
use crate::sim::{fs, rng::Rng};
use serde_json::{Value, json};
use std::collections::BTreeSet;

pub struct Shell;

const SETS: [(&str, &str); 6] =
    [("a.ttl", "turtle"), ("b.nt", "ntriples"), ("c.jsonld", "jsonld"), ("d.rdf", "rdfxml"), ("e.ttl", "turtle"), ("f.nt", "ntriples")];
const SHEX: [&str; 4] = ["user.shex", "named.shex", "active.shex", "user2.shex"];
const SHACL: [&str; 2] = ["shapes.ttl", "second.ttl"];
const QUERY: [&str; 3] = ["user.sparql", "knows.sparql", "ask.sparql"];
const NAMED: &str = "PREFIX : <http://example.org/>\nPREFIX s: <http://schema.org/>\nPREFIX xsd: <http://www.w3.org/2001/XMLSchema#>\n:User { s:name xsd:string }\n";
const ACTIVE: &str = "PREFIX : <http://example.org/>\n:User { :status [:Active] + }\n";
const SECOND: &str = "prefix : <http://example.org/>\nprefix sh: <http://www.w3.org/ns/shacl#>\nprefix s: <http://schema.org/>\n:Second a sh:NodeShape ; sh:targetSubjectsOf s:name ; sh:property [ sh:path :status ; sh:minCount 1 ] .\n";
const KNOWS: &str = "prefix s: <http://schema.org/>\nselect ?person ?name where { ?person s:knows ?name }\n";
const EMPTY: u64 = 9;

fn image(w: &Value) -> fs::Image {
    let mut im = cli::image(&json!([]));
    let mut put = |n: &str, t: String| im.insert(format!("/w/{n}"), fs::Node::Text(t));
    for (i, (n, f)) in SETS.iter().enumerate() {
        let p = People::of(&w["sets"][i]);
        let t = match *f {
            "turtle" => p.turtle(),
            "ntriples" => p.ntriples(),
            "jsonld" => p.jsonld(),
            _ => p.rdfxml(),
        };
        put(n, t);
        // the same with a mistake at the end
        let t = match *f {
            "turtle" => p.turtle() + ":p0 :status :Active . :p1 :status\n",
            "ntriples" => p.ntriples() + "<http://example.org/p0> <http://example.org/status>\n",
            "jsonld" => p.jsonld().trim_end_matches('}').to_string(),
            _ => p.rdfxml().replace("</rdf:RDF>", "</rdf:Oops>"),
        };
        put(&format!("bad.{n}"), t);
    }
    put("named.shex", NAMED.into());
    put("active.shex", ACTIVE.into());
    put("user2.shex", NAMED.replace("xsd:string", "xsd:string ; s:knows IRI {1,2}"));
    put("bad.shex", format!("{NAMED}:Other {{ s:name \n"));
    put("undef.shex", format!("{NAMED}:Other {{ s:name @:Nowhere }}\n"));
    put("second.ttl", SECOND.into());
    put("bad.shapes", format!("{SECOND}:Third a sh:NodeShape ; sh:property [\n"));
    put("bad2.shapes", format!("{SECOND}:Third a sh:NodeShape ; sh:property [ sh:minCount 1 ] .\n"));
    put("knows.sparql", KNOWS.into());
    put("bad.sparql", "select ?x where { ?x \n".into());
    for i in 0..3u64 {
        let v: Vec<String> = map_nodes(i).iter().map(|n| format!("<http://example.org/p{n}>@<http://example.org/User>")).collect();
        put(&format!("m{i}.sm"), v.join(",\n"));
    }
    put("bad.sm", "<http://example.org/p0>@<http://example.org/User>, <http://ex".into());
    im.insert("/o/old".into(), fs::Node::Text("old\n".into()));
    im
}
fn map_nodes(m: u64) -> Vec<u64> {
    match m {
        0 => vec![0, 1, 2],
        1 => vec![3],
        _ => vec![0, 1, 2, 3, 4, 5],
    }
}

/// what a session holds
#[derive(Clone, PartialEq, Debug, Default)]
struct State {
    data: Option<BTreeSet<String>>,
    shex: Option<u64>,
    shacl: Option<u64>,
    map: Option<BTreeSet<u64>>,
    query: Option<u64>,
    /// query and solutions
    last: Option<(u64, BTreeSet<(String, String, String)>)>,
}
fn people_of(t: &BTreeSet<String>) -> People {
    let mut p = People(Default::default());
    for x in t {
        let f: Vec<&str> = x.splitn(3, ' ').collect();
        let id = |s: &str| s.trim_start_matches("<http://example.org/p").trim_end_matches('>').parse::<u64>().unwrap();
        let e: &mut Person = p.0.entry(id(f[0])).or_default();
        match f[1] {
            "<http://schema.org/knows>" => {
                e.knows.insert(id(f[2]));
            },
            "<http://schema.org/name>" => {
                e.names.insert(if f[2].starts_with("\"23\"") { "23".into() } else { f[2].into() });
            },
            _ => {
                e.status.insert(f[2].trim_start_matches("<http://example.org/").trim_end_matches('>').to_string());
            },
        }
    }
    p
}
fn triples_of(w: &Value, set: u64) -> BTreeSet<String> {
    People::of(&w["sets"][set as usize]).triples()
}
fn conforms(s: u64, p: &People) -> BTreeSet<u64> {
    let plain = |x: &Person| x.names.len() == 1 && x.names.iter().all(|n| n != "23" && !n.ends_with("@en"));
    match s {
        0 => p.users(),
        1 => p.0.iter().filter(|(_, x)| plain(x)).map(|(i, _)| *i).collect(),
        2 => p.0.iter().filter(|(_, x)| !x.status.is_empty() && x.status.iter().all(|s| s == "Active")).map(|(i, _)| *i).collect(),
        _ => p.0.iter().filter(|(_, x)| plain(x) && (1..=2).contains(&x.knows.len())).map(|(i, _)| *i).collect(),
    }
}
fn shacl_results(s: u64, p: &People) -> BTreeSet<(String, String, String, String)> {
    match s {
        0 => p.shacl(),
        1 => p
            .0
            .iter()
            .filter(|(_, x)| !x.names.is_empty() && x.status.is_empty())
            .map(|(i, _)| (format!("<http://example.org/p{i}>"), "MinCount".into(), "<http://example.org/status>".into(), String::new()))
            .collect(),
        _ => Default::default(),
    }
}
type Rows = BTreeSet<(String, String, String)>;
fn solve(q: u64, p: &People) -> Rows {
    match q {
        0 => p.select(),
        1 => p
            .0
            .iter()
            .flat_map(|(i, x)| x.knows.iter().map(move |k| (format!("<http://example.org/p{i}>"), format!("<http://example.org/p{k}>"), String::new())))
            .collect(),
        _ => [(p.ask().to_string(), String::new(), String::new())].into(),
    }
}
fn rows(q: u64, b: &[u8]) -> Result<Rows, String> {
    if q == 2 {
        let t = String::from_utf8_lossy(b).to_lowercase();
        return Ok([(t.contains("true").to_string(), String::new(), String::new())].into());
    }
    let v: Value = serde_json::from_slice(b).map_err(|e| format!("{e}: {}", String::from_utf8_lossy(b)))?;
    let mut s = BTreeSet::new();
    for x in v["solutions"].as_array().ok_or("no solutions")? {
        let g = |k: &str| x[k].as_str().unwrap_or("").to_string();
        if !s.insert((g("person"), g("name"), g("status"))) {
            return Err("a solution appears twice".into());
        }
    }
    Ok(s)
}

/// one thing a command does to the session, in the order it does them
enum Load {
    Data { files: Vec<Value>, replace: bool },
    Shex(Value),
    Shacl(Value),
    /// shapes taken from the data, which has none
    ShaclFromData,
    Map(Value),
    Add(u64),
    /// what is needed to give the result
    Need(&'static str),
    Query(Value),
    Run,
    /// the last results, or those of the query loaded
    Again,
    Reset(Vec<String>),
}
fn loads(op: &Value) -> Vec<Load> {
    let mut v = vec![];
    let files = op["files"].as_array().cloned().unwrap_or_default();
    if !files.is_empty() {
        v.push(Load::Data { files: files.clone(), replace: op["c"] == "data" && op["merge"] != json!(true) });
    }
    match op["c"].as_str().unwrap() {
        "data" => v.push(Load::Need("data")),
        "shex" => {
            if !op["s"].is_null() {
                v.push(Load::Shex(op["s"].clone()));
            }
            v.push(Load::Need("shex"));
        },
        "shacl" | "hv" => {
            if !op["s"].is_null() {
                v.push(Load::Shacl(op["s"].clone()));
            } else if !files.is_empty() {
                v.push(Load::ShaclFromData);
            }
            v.push(Load::Need(if op["c"] == "hv" { "shacl+data" } else { "shacl" }));
        },
        "map" => {
            if !op["m"].is_null() {
                v.push(Load::Map(op["m"].clone()));
            }
            v.push(Load::Need("map"));
        },
        "sv" => {
            if !op["s"].is_null() {
                v.push(Load::Shex(op["s"].clone()));
            }
            if !op["m"].is_null() {
                v.push(Load::Map(op["m"].clone()));
            }
            if let Some(n) = op["n"].as_u64() {
                v.push(Load::Add(n));
            }
            v.push(Load::Need("shex+map+data"));
        },
        "query" => {
            if !op["q"].is_null() {
                v.push(Load::Query(op["q"].clone()));
                v.push(Load::Run);
            } else {
                v.push(Load::Again);
            }
        },
        "reset" => v.push(Load::Reset(op["t"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect())),
        _ => v.push(Load::Need("impossible")),
    }
    v
}
impl State {
    /// None: this cannot succeed
    fn apply(&self, l: &Load, w: &Value) -> Option<State> {
        let mut s = self.clone();
        match l {
            Load::Data { files, replace } => {
                let mut d = if *replace { Default::default() } else { s.data.take().unwrap_or_default() };
                for f in files {
                    d.extend(triples_of(w, f.as_u64()?));
                }
                s.data = Some(d);
            },
            Load::Shex(x) => s.shex = Some(x.as_u64()?),
            Load::Shacl(x) => s.shacl = Some(x.as_u64()?),
            Load::ShaclFromData => s.shacl = Some(EMPTY),
            Load::Map(x) => {
                (s.data.is_some() && s.shex.is_some()).then_some(())?;
                s.map = Some(map_nodes(x.as_u64()?).into_iter().collect());
            },
            Load::Add(n) => {
                s.map.get_or_insert_default().insert(*n);
            },
            Load::Query(q) => s.query = Some(q.as_u64()?),
            Load::Again if s.last.is_some() => {},
            Load::Run | Load::Again => {
                let q = s.query?;
                s.last = Some((q, solve(q, &people_of(s.data.as_ref()?))));
            },
            Load::Reset(t) => {
                for t in t {
                    match t.as_str() {
                        "data" => s.data = None,
                        "shex" => s.shex = None,
                        "shacl" => s.shacl = None,
                        "shapemap" => s.map = None,
                        "query" => (s.query, s.last) = (None, None),
                        "all" => s = State::default(),
                        _ => {},
                    }
                }
            },
            Load::Need(n) => {
                for n in n.split('+') {
                    let ok = match n {
                        "data" => s.data.is_some(),
                        "shex" => s.shex.is_some(),
                        "shacl" => s.shacl.is_some(),
                        "map" => s.map.is_some(),
                        _ => false,
                    };
                    ok.then_some(())?;
                }
            },
        }
        Some(s)
    }
    /// does what a command printed fit this state?
    fn shows(&self, what: &str, b: &[u8]) -> Result<(), String> {
        let text = String::from_utf8_lossy(b);
        fn same<T: PartialEq + std::fmt::Debug>(got: &T, want: &T) -> Result<(), String> {
            if got == want { Ok(()) } else { Err(format!("{got:?} instead of {want:?}")) }
        }
        match what {
            "data" => {
                let d = quads("nt", b)?;
                let got: BTreeSet<String> = d.iter().map(|q| format!("{} {} {}", q.subject, q.predicate, q.object)).collect();
                let want = self.data.as_ref().unwrap();
                let show = |x: &BTreeSet<String>, y: &BTreeSet<String>| x.difference(y).take(4).cloned().collect::<Vec<_>>();
                if got == *want { Ok(()) } else { Err(format!("missing {:?}, unexpected {:?}", show(want, &got), show(&got, want))) }
            },
            "shex" => {
                let got = match (text.contains("schema.org/knows"), text.contains("example.org/status"), text.contains("schema.org/name")) {
                    (true, true, true) => 0,
                    (false, false, true) => 1,
                    (false, true, false) => 2,
                    (true, false, true) => 3,
                    _ => return Err(format!("unknown schema {text}")),
                };
                same(&SHEX[got as usize], &SHEX[self.shex.unwrap() as usize])
            },
            "shacl" => {
                let got = if text.contains("example.org/Second") { 1 } else if text.contains("UserShape") { 0 } else { EMPTY };
                same(&got, &self.shacl.unwrap())
            },
            "map" => {
                let got: BTreeSet<u64> = text
                    .split("example.org/p")
                    .skip(1)
                    .chain(text.split(":p").skip(1))
                    .filter_map(|x| x.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok())
                    .collect();
                same(&got, self.map.as_ref().unwrap())
            },
            "sv" => {
                let v: Value = serde_json::from_slice(b).map_err(|e| e.to_string())?;
                let ok = conforms(self.shex.unwrap(), &people_of(self.data.as_ref().unwrap()));
                let want: std::collections::BTreeMap<u64, &str> = self.map.as_ref().unwrap().iter().map(|n| (*n, if ok.contains(n) { "conformant" } else { "nonconformant" })).collect();
                let mut got = std::collections::BTreeMap::new();
                for e in v.as_array().ok_or("no results")? {
                    let n = e["node"].as_str().unwrap_or("").trim_start_matches("http://example.org/p").parse::<u64>().map_err(|_| format!("node {}", e["node"]))?;
                    got.insert(n, e["status"].as_str().unwrap_or(""));
                }
                same(&got, &want)
            },
            "hv" => {
                let (conf, res) = report(b)?;
                let want = shacl_results(self.shacl.unwrap(), &people_of(self.data.as_ref().unwrap()));
                same(&res.into_iter().collect::<BTreeSet<_>>(), &want)?;
                same(&conf, &want.is_empty())
            },
            "query" => {
                let (q, want) = self.last.as_ref().unwrap();
                same(&rows(*q, b)?, want)
            },
            _ => Ok(()),
        }
    }
    /// the number a loading command prints when it is not asked for the whole
    fn stats(&self, what: &str) -> String {
        match what {
            "data" => format!("{} triple(s) loaded", self.data.as_ref().unwrap().len()),
            _ => "loaded".into(),
        }
    }
}

fn line(op: &Value, i: usize) -> String {
    let mut a = match op["c"].as_str().unwrap() {
        "data" => "data".to_string(),
        "shex" => "shex".into(),
        "shacl" => "shacl".into(),
        "map" => "shapemap".into(),
        "sv" => "shex-validate".into(),
        "hv" => "shacl-validate".into(),
        "query" => "query".into(),
        "reset" => return format!("reset {}", op["t"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect::<Vec<_>>().join(" ")),
        _ => return op["line"].as_str().unwrap().to_string(),
    };
    let name = |x: &Value, of: &[&str]| x.as_u64().map(|i| of[i as usize].to_string()).unwrap_or_else(|| x.as_str().unwrap().to_string());
    for f in op["files"].as_array().into_iter().flatten() {
        a += &format!(" /sim/w/{}", name(f, &SETS.map(|s| s.0)));
    }
    if let Some(f) = op["fmt"].as_str() {
        a += &format!(" -t {f}");
    }
    if !op["s"].is_null() {
        a += &format!(" -s /sim/w/{}", name(&op["s"], if op["c"] == "shex" || op["c"] == "sv" { &SHEX } else { &SHACL }));
    }
    if !op["m"].is_null() {
        a += &format!(" -m /sim/w/{}", name(&op["m"], &["m0.sm", "m1.sm", "m2.sm"]));
    }
    if let Some(n) = op["n"].as_u64() {
        a += &format!(" -n http://example.org/p{n} -l http://example.org/User");
    }
    if !op["q"].is_null() {
        if op["inline"] == json!(true) && op["q"] == json!(1) {
            a += &format!(" -q \"{}\"", KNOWS.trim_end());
        } else {
            a += &format!(" -q /sim/w/{}", name(&op["q"], &QUERY));
            if op["q"] == json!(2) {
                a += " --query-type ask";
            }
        }
    }
    if op["merge"] == json!(true) {
        a += " --merge";
    }
    if op["lax"] == json!(true) {
        a += " --reader-mode lax";
    }
    a += match op["c"].as_str().unwrap() {
        "data" => " -r ntriples",
        "shex" => " -r shexj",
        "shacl" => " -r ntriples",
        "sv" | "query" => " -r json",
        "hv" => " -r turtle",
        _ => "",
    };
    match op["o"].as_str() {
        Some("old") => a += " -o /sim/o/old",
        Some("force") => a += &format!(" -o /sim/o/r{i} --force-overwrite"),
        Some(_) => a += &format!(" -o /sim/o/r{i}"),
        None => {},
    }
    a
}
fn probes() -> Vec<(&'static str, Value)> {
    vec![
        ("data", json!({"c": "data", "o": "new"})),
        ("shex", json!({"c": "shex", "o": "new"})),
        ("shacl", json!({"c": "shacl", "o": "new"})),
        ("map", json!({"c": "map", "o": "new"})),
        ("query", json!({"c": "query", "o": "new"})),
    ]
}
/// all commands of the session: those of the workload, each perhaps followed by others which show
/// what the session holds
fn session(w: &Value) -> Vec<Value> {
    let ops = w["ops"].as_array().unwrap();
    let mut v = vec![];
    for (i, op) in ops.iter().enumerate() {
        v.push(op.clone());
        if w["probe"] == json!(true) || i + 1 == ops.len() {
            v.extend(probes().into_iter().map(|p| p.1));
        }
    }
    v
}

impl Scenario for Shell {
    fn property(&self) -> &'static str {
        "S01"
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn rule(&self) -> &'static str {
        "each run is a shell session judged command by command against a model of what the session holds; non-trivial when a command failed and a later one succeeded"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rudof_cli shell: reader (rustyline), parser, dispatch, commands", "rudof_lib and the engines behind the commands"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["disk, pipes (stdin/stdout), scheduler, clock, entropy"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let sets: Vec<Value> = (0..SETS.len()).map(|_| super::people::generate(r, 4)).collect();
        let n = r.range(2, if tier == Tier::Thorough { 24 } else { 10 });
        let bad = *r.pick(&[0u64, 15, 35]);
        let mut ops = vec![];
        for _ in 0..n {
            // one format per command
            let files = |r: &mut Rng, always: bool| -> (Value, Value) {
                if !always && r.pct(60) {
                    return (json!(null), json!(null));
                }
                let fmt = SETS[r.below(SETS.len() as u64) as usize].1;
                let of: Vec<u64> = (0..SETS.len() as u64).filter(|i| SETS[*i as usize].1 == fmt).collect();
                let mut v: Vec<Value> = (0..r.range(1, 2)).map(|_| json!(*r.pick(&of))).collect();
                if r.pct(bad) {
                    let i = r.below(v.len() as u64 + 1) as usize;
                    let x = *r.pick(&of) as usize;
                    v.insert(i, if r.pct(60) { json!(format!("bad.{}", SETS[x].0)) } else { json!("missing.ttl") });
                }
                (json!(v), json!(fmt))
            };
            let pick = |r: &mut Rng, n: u64, wrong: &[&str]| if r.pct(bad) { json!(*r.pick(wrong)) } else { json!(r.below(n)) };
            let maybe = |r: &mut Rng, p: u64, n: u64, wrong: &[&str]| if r.pct(p) { pick(r, n, wrong) } else { json!(null) };
            const BS: &[&str] = &["bad.shex", "none.shex", "user.sparql", "undef.shex"];
            const BH: &[&str] = &["bad.shapes", "none.ttl", "user.shex"];
            const BM: &[&str] = &["bad.sm", "none.sm"];
            let mut op = match r.below(20) {
                0..=5 => {
                    let (f, t) = files(r, true);
                    json!({"c": "data", "files": f, "fmt": t, "merge": r.pct(35)})
                },
                6 | 7 => json!({"c": "shex", "s": maybe(r, 90, 4, BS)}),
                8 | 9 => json!({"c": "shacl", "s": maybe(r, 90, 2, BH)}),
                10 => json!({"c": "map", "m": maybe(r, 90, 3, BM)}),
                11..=13 => {
                    let (f, t) = files(r, false);
                    json!({"c": "sv", "files": f, "fmt": t, "s": maybe(r, 40, 4, BS), "m": maybe(r, 50, 3, BM), "n": maybe(r, 20, 5, &["x"])})
                },
                14 | 15 => {
                    let (f, t) = files(r, false);
                    json!({"c": "hv", "files": f, "fmt": t, "s": maybe(r, 60, 2, BH)})
                },
                16 | 17 => {
                    let (f, t) = files(r, false);
                    json!({"c": "query", "files": f, "fmt": t, "q": maybe(r, 85, 3, &["bad.sparql", "none.sparql", "user.shex"]), "inline": r.pct(30)})
                },
                18 => {
                    let t: Vec<&str> = (0..r.range(1, 2)).map(|_| *r.pick(&["data", "shex", "shacl", "shapemap", "query", "all"])).collect();
                    json!({"c": "reset", "t": t})
                },
                _ => json!({"c": "noise", "line": *r.pick(&["nonsense", "data --no-such-flag", "help", "shex-validate -s", "config get base_iri", "reset nowhere", "", "prefixes rm zz", "endpoint nowhere", "# x", "shell", "data /sim/w", "config set nowhere 3"])}),
            };
            if op["n"] == json!("x") {
                op["n"] = json!(null);
            }
            if op["fmt"] == json!("turtle") && r.pct(70) || op["files"].is_null() {
                op["fmt"] = json!(null);
            }
            // (`reset all x` is not a thing)
            if op["t"].as_array().is_some_and(|t| t.contains(&json!("all"))) {
                op["t"] = json!(["all"]);
            }
            let results = ["sv", "hv", "query", "map"].contains(&op["c"].as_str().unwrap());
            // (what is printed on the terminal may be nothing)
            let shown = op["c"] == "shacl" && op["files"].is_null() && op["s"].is_null();
            if r.pct(if shown { 100 } else if results { 85 } else { 25 }) && !matches!(op["c"].as_str().unwrap(), "reset" | "noise") {
                op["o"] = json!(if r.pct(bad / 2) { "old" } else if r.pct(20) { "force" } else { "new" });
            }
            // (lax is for each input of the command)
            let wrong = ["s", "m", "q"].iter().any(|k| op[*k].is_string()) || op["files"].as_array().is_none_or(|f| f.iter().any(|x| x.is_string()));
            if r.pct(15) && !wrong {
                op["lax"] = json!(true);
            }
            ops.push(op);
        }
        let mut rates = vec![];
        if r.pct(55) {
            for _ in 0..r.range(1, 2) {
                let (c, k) = *r.pick(&[("read", "short"), ("read", "one"), ("read", "eintr"), ("read", "eio"), ("read", "eio"), ("open_r", "eio"), ("open_r", "emfile"), ("stdin", "short"), ("stdin", "eintr"), ("stdin", "one")]);
                let benign = matches!(k, "short" | "one" | "eintr");
                rates.push(json!([c, k, *r.pick(if benign { &[100_000u64, 600_000][..] } else { &[20_000, 60_000, 200_000] })]));
            }
        }
        json!({"sets": sets, "ops": ops, "rates": rates, "max": *r.pick(&[1u64, 2, 1_000_000]), "probe": r.pct(60)})
    }
    fn shrink(&self, w: &Value) -> Vec<Value> {
        let mut v = shrink_array(w, "ops");
        v.retain(|x| !x["ops"].as_array().unwrap().is_empty());
        v.extend(shrink_array(w, "rates"));
        for (i, s) in w["sets"].as_array().unwrap().iter().enumerate() {
            v.extend(shrink_array(&json!({"x": s}), "x").into_iter().map(|x| {
                let mut z = w.clone();
                z["sets"][i] = x["x"].clone();
                z
            }));
        }
        for (i, op) in w["ops"].as_array().unwrap().iter().enumerate() {
            for k in ["s", "m", "n", "lax", "merge", "inline", "fmt"] {
                if !op[k].is_null() && op[k] != json!(false) && !(k == "fmt" && op["files"].is_array()) {
                    let mut z = w.clone();
                    z["ops"][i][k] = json!(null);
                    v.push(z);
                }
            }
        }
        v
    }
    fn next(&self, w: &Value, seed: u64, done: &[Out]) -> Next {
        if let Some(o) = done.last() {
            return Next::Done(self.judge(w, o));
        }
        let mut c = draw_cfg(seed, 0);
        c.preempt_gap = 0;
        for x in w["rates"].as_array().into_iter().flatten() {
            c.rates.push(rate(x[0].as_str().unwrap(), x[1].as_str().unwrap(), x[2].as_u64().unwrap()));
        }
        c.max_faults = w["max"].as_u64().unwrap();
        let mut p = Phase::new(c);
        p.image = image(w);
        p.env = env();
        p.args = vec!["rudof".into(), "shell".into()];
        let mut text = String::from("reset zzz\n");
        for (i, op) in session(w).iter().enumerate() {
            text += &line(op, i);
            text += &format!("\nreset zz{i}z\n");
        }
        text += "exit\n";
        p.stdin = text.into_bytes();
        Next::Run(Box::new(p))
    }
    fn body(&self, _w: &Value, _phase: usize, _carry: &Value) -> Value {
        run_main()
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        match t {
            Tier::Quick => (1_000_000, 40),
            Tier::Thorough => (3_000_000, 1200),
        }
    }
    fn describe(&self, w: &Value) -> Value {
        json!({"session": w["ops"].as_array().unwrap().iter().enumerate().map(|(i, o)| line(o, i)).collect::<Vec<_>>(), "rates": w["rates"],
            "sets": (0..SETS.len() as u64).map(|i| triples_of(w, i)).collect::<Vec<_>>()})
    }
}

impl Shell {
    fn judge(&self, w: &Value, o: &Out) -> Verdict {
        if o.gave_up() {
            return Verdict::Inconclusive(format!("{} {}", o.status, o.msg));
        }
        let all = session(w);
        if code(o) != Some(0) || o.status != "ok" {
            return violation("session-ends", format!("the session ended with {} {} {}", o.status, o.msg, super::m01::tail(&o.stderr)));
        }
        let out = String::from_utf8_lossy(&o.stdout_bytes()).replace("rudof> ", "").replace("   ... ", "");
        let im = o.image();
        let faults = o.trace.faults.iter().any(|f| !matches!(f.kind.as_str(), "short" | "one" | "eintr"));
        let mut states = vec![State::default()];
        let after = |r: &'_ str| -> usize { r.match_indices('\n').nth(1).map(|x| x.0 + 1).unwrap_or(r.len()) };
        let mut rest: &str = out.split_once("Unknown reset target(s): zzz.").map(|x| &x.1[after(x.1)..]).unwrap_or("");
        let (mut failed, mut later) = (false, false);
        for (i, op) in all.iter().enumerate() {
            let mark = format!("Unknown reset target(s): zz{i}z.");
            let Some((said, r)) = rest.split_once(&mark) else {
                return violation("session-ends", format!("no more is done after {:?}: {}", line(op, i), super::m01::tail(&o.stderr)));
            };
            // (what follows the marker's first line)
            rest = &r[after(r)..];
            let c = op["c"].as_str().unwrap();
            if c == "noise" {
                continue;
            }
            let file = op["o"].as_str().map(|x| if x == "old" { "/o/old".to_string() } else { format!("/o/r{i}") });
            let ok = match (&file, c) {
                (Some(f), _) => said.contains(&format!("Output saved in /sim{f}")),
                (None, "reset") => said.contains("Reset"),
                (None, "data" | "shex" | "shacl") if op["files"].is_array() || !op["s"].is_null() => said.contains(" loaded"),
                // results printed on the terminal
                _ => !said.trim().is_empty() && !said.starts_with("error:"),
            };
            let ls = loads(op);
            let mut next: Vec<State> = vec![];
            let mut why = String::new();
            for s in &states {
                // the states on the way, and whether the end can be reached
                let mut chain = vec![s.clone()];
                let mut fails = op["o"] == "old";
                for l in &ls {
                    match chain.last().unwrap().apply(l, w) {
                        Some(n) => chain.push(n),
                        None => {
                            fails = true;
                            break;
                        },
                    }
                }
                if ok {
                    if fails {
                        why = format!("it succeeded, with {s:?} loaded");
                        continue;
                    }
                    let e = chain.pop().unwrap();
                    let fits = match &file {
                        Some(f) => e.shows(c, &im.get(f.as_str()).and_then(fs::bytes_of).unwrap_or_default()),
                        None if matches!(c, "data" | "shex" | "shacl") && ls.len() > 1 => {
                            if said.contains(&e.stats(c)) { Ok(()) } else { Err(format!("it says {:?} instead of {:?}", said.trim(), e.stats(c))) }
                        },
                        None if c == "reset" => Ok(()),
                        None if matches!(c, "map" | "query") && op["q"] != json!(2) || c == "sv" || c == "hv" || c == "data" => e.shows(c, said.as_bytes()),
                        None => Ok(()),
                    };
                    match fits {
                        Ok(()) => next.push(e),
                        Err(x) => why = format!("{x}; before it {s:?}"),
                    }
                } else if fails || faults && ls.len() > 1 {
                    next.append(&mut chain);
                } else {
                    why = format!("it failed, with {s:?} loaded");
                }
            }
            if ok {
                later |= failed;
            } else {
                failed = true;
            }
            next.dedup();
            let mut u: Vec<State> = vec![];
            for s in next {
                if !u.contains(&s) {
                    u.push(s);
                }
            }
            states = u;
            if states.is_empty() {
                return violation(
                    "session-state",
                    format!("{:?} (command {} of {}), after {:?}: {why}\nstderr: {}", line(op, i), i + 1, all.len(), all[..i].iter().enumerate().rev().find(|x| x.1["o"] != "new").map(|(k, x)| line(x, k)), super::m01::tail(&o.stderr)),
                );
            }
        }
        Verdict::Held(later)
    }
}
