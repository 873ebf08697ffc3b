//! E01: data behind a SPARQL endpoint answers like the same data loaded from a file, or the
//! command fails; E02: what reaches the endpoint is spaced, and refusals are retried as promised.
use super::cli::{canon, code, env, run_main};
use super::{http, vshacl, vshex};
use crate::runner::*;
use crate::sim::{fs, rng::Rng};
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;
use vshacl::{Graph, iri};

const PORT: u16 = 8890;
pub struct Remote {
    pub polite: bool,
}

fn queries(r: &mut Rng) -> Value {
    let p = |r: &mut Rng| format!("<{}>", iri(&format!("p{}", r.below(3)))).replace("<<", "<").replace(">>", ">");
    let (a, b) = (p(r), p(r));
    let n = format!("<{}>", iri(&format!("n{}", r.below(3)))).replace("<<", "<").replace(">>", ">");
    let q = match r.below(14) {
        0 | 1 => format!("SELECT ?s ?o WHERE {{ ?s {a} ?o }}"),
        2 => "SELECT ?s ?p ?o WHERE { ?s ?p ?o }".into(),
        3 => format!("SELECT ?s ?o ?x WHERE {{ ?s {a} ?o . ?s {b} ?x }}"),
        4 => format!("SELECT ?s ?x WHERE {{ ?s {a} ?o OPTIONAL {{ ?s {b} ?x }} }}"),
        5 => format!("SELECT DISTINCT ?s WHERE {{ {{ ?s {a} ?o }} UNION {{ ?s {b} ?o }} }}"),
        6 => format!("SELECT (COUNT(*) AS ?c) WHERE {{ ?s {a} ?o }}"),
        7 => format!("SELECT ?s (COUNT(?o) AS ?c) WHERE {{ ?s {a} ?o }} GROUP BY ?s"),
        8 => format!("SELECT ?p ?o WHERE {{ {n} ?p ?o FILTER NOT EXISTS {{ ?o {b} ?z }} }}"),
        9 => format!("ASK {{ ?s {a} {n} }}"),
        10 => format!("ASK {{ FILTER NOT EXISTS {{ {n} {a} ?o }} }}"),
        11 => format!("ASK {{ {n} {a} ?o . ?o {b} ?x }}"),
        12 => format!("CONSTRUCT {{ ?o {b} ?s }} WHERE {{ ?s {a} ?o FILTER(isIRI(?o)) }}"),
        _ => format!("CONSTRUCT WHERE {{ ?s {a} ?o }}"),
    };
    let ty = if q.starts_with("ASK") { "ask" } else if q.starts_with("CON") { "construct" } else { "select" };
    json!({"q": q, "ty": ty})
}

fn script(r: &mut Rng, polite: bool) -> Vec<Value> {
    let n = r.below(14);
    let bad = *r.pick(&[0u64, 0, 8, 25]);
    let refuse = if polite { *r.pick(&[0u64, 30, 70, 95]) } else { *r.pick(&[0u64, 0, 20, 60]) };
    (0..n)
        .map(|_| {
            let mut b = json!({"f": *r.pick(&["len", "len", "chunked", "close"]), "step": *r.pick(&[1u64, 7, 64, 700])});
            if r.pct(30) {
                b["delay"] = json!(*r.pick(&[1u64, 100, 900, 2000, 40_000, 200_000]));
            }
            if r.pct(10) {
                b["bye"] = json!(true);
            }
            if r.pct(refuse) {
                b["k"] = json!("429");
                b["ra"] = json!(*r.pick(&[None, None, Some("0"), Some("1"), Some("2"), Some("3"), Some("5"), Some("7"), Some("86400"), Some("Fri, 20 Nov 2026 08:00:00 GMT"), Some("soon"), Some("-1"), Some("1.5")]));
            } else if !polite && r.pct(bad) {
                match r.below(6) {
                    0 => {
                        b["k"] = json!("status");
                        b["s"] = json!(*r.pick(&[400u64, 403, 404, 500, 502, 503, 504]));
                        b["b"] = json!(*r.pick(&["html", "empty", "same", "none", "none"]));
                    },
                    1 | 5 => {
                        b["k"] = json!("garbage");
                        b["b"] = json!(*r.pick(&["html", "empty", "head", "part", "part", "part", "part"]));
                        b["at"] = json!(r.below(1 << 20));
                    },
                    2 => b["k"] = json!("drop"),
                    _ => {
                        b["k"] = json!("cut");
                        b["f"] = json!(*r.pick(&["len", "chunked"]));
                        b["at"] = json!(r.below(1 << 20));
                        b["head"] = json!(r.pct(20));
                        b["rst"] = json!(r.pct(40));
                    },
                }
            }
            b
        })
        .collect()
}

impl Remote {
    fn files(&self, w: &Value) -> fs::Image {
        let mut im = fs::Image::new();
        for d in ["/w", "/home", "/tmp", "/o"] {
            im.insert(d.into(), fs::Node::Dir);
        }
        let put = |im: &mut fs::Image, n: &str, t: String| {
            im.insert(format!("/w/{n}"), fs::Node::Text(t));
        };
        put(&mut im, "d.nt", Graph::of(&w["data"]).ntriples());
        put(&mut im, "c.toml", format!("[rdf.endpoints.simulated]\nquery_url = \"http://127.0.0.1:{PORT}/sparql\"\n"));
        match w["cmd"].as_str().unwrap() {
            "shex" => {
                for (i, t) in vshex::texts(w) {
                    put(&mut im, &format!("s{i}.shex"), t);
                }
                put(&mut im, "m.sm", vshex::shapemap(w));
            },
            "shacl" => put(&mut im, "s.ttl", vshacl::Shapes::of(&w["ops"]).turtle()),
            "query" => put(&mut im, "q.sparql", w["q"]["q"].as_str().unwrap().to_string()),
            _ => {},
        }
        im
    }
    fn args(&self, w: &Value, remote: bool) -> Vec<String> {
        let mut a: Vec<String> = vec!["rudof".into()];
        let mut add = |s: &str| a.extend(s.split_whitespace().map(String::from));
        match w["cmd"].as_str().unwrap() {
            "shex" => add("shex-validate -s /sim/w/s0.shex -m /sim/w/m.sm -r json"),
            "shacl" => add(&format!("shacl-validate -s /sim/w/s.ttl -r turtle -m {}", w["mode"].as_str().unwrap())),
            "node" => add(&format!("node -n {} -m {} -d {}", w["n"].as_str().unwrap(), w["m"].as_str().unwrap(), w["d"])),
            _ => add(&format!("query -q /sim/w/q.sparql --query-type {} -r {}", w["q"]["ty"].as_str().unwrap(), if w["q"]["ty"] == "construct" { "turtle" } else { "json" })),
        }
        if remote {
            if w["named"] == json!(true) {
                add("--endpoint simulated -c /sim/w/c.toml");
            } else {
                add(&format!("--endpoint http://127.0.0.1:{PORT}/sparql"));
            }
        } else {
            add("/sim/w/d.nt -t ntriples");
        }
        add("-o /sim/o/r");
        a
    }
    /// the same command several times in the shell: each names the endpoint, or goes on with the one
    /// named before
    fn session(&self, w: &Value) -> Vec<String> {
        let mut a = self.args(w, true);
        a.truncate(a.len() - 4);
        let n = w["session"].as_array().map_or(0, |x| x.len());
        (0..n).map(|i| {
            let e = if w["session"][i] == json!(true) { format!(" --endpoint http://127.0.0.1:{PORT}/sparql") } else { String::new() };
            format!("{}{e} -o /sim/o/r{i}", a[1..].join(" "))
        }).collect()
    }
    fn fmt(&self, w: &Value) -> &'static str {
        match w["cmd"].as_str().unwrap() {
            "shex" => "vjson",
            "shacl" => "fullreport",
            "node" => "tree",
            _ => match w["q"]["ty"].as_str().unwrap() {
                "construct" => "rdf-ttl",
                "ask" => "lines",
                _ => "json",
            },
        }
    }
}

/// what the endpoint would answer
fn endpoint(data: &Value) -> http::Handler {
    use oxigraph::sparql::results::{QueryResultsFormat, QueryResultsSerializer};
    use oxigraph::sparql::{QueryResults, SparqlEvaluator};
    let store = oxigraph::store::Store::new().unwrap();
    store.load_from_slice(oxigraph::io::RdfFormat::NTriples, Graph::of(data).ntriples().as_bytes()).unwrap();
    let store = std::sync::Mutex::new(store);
    Arc::new(move |q| {
        let store = store.lock().unwrap();
        let bad = |e: String| (400u16, "text/plain".to_string(), e.into_bytes());
        let pq = match SparqlEvaluator::new().parse_query(&q.query) {
            Ok(x) => x,
            Err(e) => return bad(e.to_string()),
        };
        let rs = match pq.on_store(&store).execute() {
            Ok(x) => x,
            Err(e) => return bad(e.to_string()),
        };
        let json = QueryResultsSerializer::from_format(QueryResultsFormat::Json);
        let ty = "application/sparql-results+json".to_string();
        match rs {
            QueryResults::Boolean(b) => (200, ty, json.serialize_boolean_to_writer(vec![], b).unwrap()),
            QueryResults::Solutions(s) => {
                let mut w = json.serialize_solutions_to_writer(vec![], s.variables().to_vec()).unwrap();
                for x in s {
                    w.serialize(&x.unwrap()).unwrap();
                }
                (200, ty, w.finish().unwrap())
            },
            QueryResults::Graph(g) => {
                let mut t: Vec<String> = g.map(|t| format!("{} .\n", t.unwrap())).collect();
                t.dedup();
                (200, "text/turtle".into(), t.concat().into_bytes())
            },
        }
    })
}

impl Scenario for Remote {
    fn property(&self) -> &'static str {
        if self.polite { "E02" } else { "E01" }
    }
    fn rule(&self) -> &'static str {
        if self.polite {
            "each run is a command over a simulated SPARQL endpoint that refuses some requests; non-trivial when at least two requests arrived"
        } else {
            "each run is a command executed on a local file and over a simulated SPARQL endpoint with the same data, under network and server faults; non-trivial when a request met a fault or the answer is not empty"
        }
    }
    fn real(&self) -> &'static [&'static str] {
        &["rudof_cli main", "sparql_service RdfData (federation)", "OxigraphEndpoint: rate limit, retry, result parsing, cache", "reqwest, hyper, tokio", "ShEx and SHACL engines"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["TCP network, clock, disk, scheduler, entropy", "the endpoint: a scripted HTTP server over an oxigraph store"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let big = tier == Tier::Thorough && r.pct(30);
        let cmd = *r.pick(&["query", "query", "node", "shex", "shacl", "shacl"]);
        let nodes = *r.pick(&[2u64, 3, 4]);
        let n = *r.pick(if big { &[20u64, 40][..] } else { &[3, 6, 10] });
        let mut w = match cmd {
            "shex" => {
                let mut w = vshex::general(r, nodes, n, 3);
                // (which triples a node has besides those of the shape is not asked of an endpoint)
                fn open(v: &mut Value) {
                    match v {
                        Value::Object(o) => {
                            if o.contains_key("closed") {
                                o.insert("closed".into(), json!(false));
                            }
                            o.values_mut().for_each(open);
                        },
                        Value::Array(a) => a.iter_mut().for_each(open),
                        _ => {},
                    }
                }
                open(&mut w["ops"]);
                w["asks"].as_array_mut().unwrap().retain(|a| !a[0].as_str().unwrap_or("").starts_with('_'));
                if w["asks"].as_array().unwrap().is_empty() {
                    w["asks"] = json!([["<http://e.x/n0>", 0]]);
                }
                w
            },
            "shacl" => {
                let k = *r.pick(&[1u64, 2, 4]);
                vshacl::generate(r, nodes, n, k)
            },
            _ => json!({"data": vshacl::data(r, nodes, n, false), "q": queries(r), "n": format!("http://e.x/n{}", r.below(3)), "m": *r.pick(&["outgoing", "incoming", "both"]), "d": r.range(1, 2)}),
        };
        // blank nodes cannot be asked for by name
        w["data"].as_array_mut().unwrap().retain(|t| !t.as_array().unwrap().iter().any(|x| x.as_str().unwrap().starts_with('_')));
        w["cmd"] = json!(cmd);
        w["named"] = json!(r.pct(20));
        if cmd != "node" && r.pct(25) {
            w["named"] = json!(false);
            // (an endpoint named again is a new one, whose pace is its own)
            let again = if self.polite { 0 } else { *r.pick(&[0u64, 0, 40]) };
            let s: Vec<bool> = (0..r.range(2, 4)).map(|i| i == 0 || r.pct(again)).collect();
            w["session"] = json!(s);
        }
        w["net"] = json!(script(r, self.polite));
        if w["q"]["ty"] == json!("construct") {
            // a whole answer to CONSTRUCT is handed on as it is
            w["net"].as_array_mut().unwrap().retain(|b| b["k"] != json!("garbage"));
        }
        let mut rates = vec![];
        if !self.polite && r.pct(30) {
            rates.push(json!(["net", *r.pick(&["delay", "split", "split", "rst"]), *r.pick(&[20_000u64, 200_000])]));
            if r.pct(20) {
                rates.push(json!(["connect", "refuse", 100_000u64]));
            }
        }
        w["rates"] = json!(rates);
        w
    }
    fn shrink(&self, w: &Value) -> Vec<Value> {
        let mut v = shrink_array(w, "net");
        v.extend(shrink_array(w, "data"));
        v.extend(shrink_array(w, "rates"));
        for (i, b) in w["net"].as_array().into_iter().flatten().enumerate() {
            if b != &json!({}) {
                let mut z = w.clone();
                z["net"][i] = json!({});
                v.push(z);
            }
        }
        match w["cmd"].as_str().unwrap() {
            "shex" => v.extend(vshex::shrink(w)),
            "shacl" => v.extend(vshacl::shrink(w)),
            _ => {},
        }
        v
    }
    fn next(&self, w: &Value, seed: u64, done: &[Out]) -> Next {
        if let Some(o) = done.last() {
            if o.gave_up() {
                return Next::Done(Verdict::Inconclusive(format!("{} {}", o.status, o.msg)));
            }
            if code(o).is_none() {
                return Next::Done(violation("no-exit", format!("{:?} did not end: {} {} {}", self.args(w, done.len() == 2), o.status, o.msg, super::m01::tail(&o.stderr))));
            }
            if done.len() == 1 && code(o) != Some(0) {
                return Next::Done(Verdict::Held(false));
            }
            // how often the same is asked matters when much was refused (only where nothing runs in parallel)
            let ask = self.polite && w["session"].is_null() && done.len() == 2 && matches!(w["cmd"].as_str(), Some("query" | "node")) && count(&done[1].history, |h| h["ev"] == "req").values().any(|c| *c > 4);
            if done.len() == 3 || done.len() == 2 && !ask {
                return Next::Done(self.judge(w, done));
            }
        }
        let mut c = if done.is_empty() { calm_cfg() } else { draw_cfg(seed, 1) };
        if !done.is_empty() {
            c.timer_ppm = 0;
            for x in w["rates"].as_array().into_iter().flatten() {
                c.rates.push(rate(x[0].as_str().unwrap(), x[1].as_str().unwrap(), x[2].as_u64().unwrap()));
            }
            c.max_faults = 3;
            if self.polite {
                // arrival times then tell sending times
                c.lat_ns = 200_000;
                c.jitter_ns = 0;
            }
        }
        let mut p = Phase::new(c);
        p.image = self.files(w);
        p.env = env();
        p.args = self.args(w, !done.is_empty());
        if done.len() == 1 && !w["session"].is_null() {
            p.args = vec!["rudof".into(), "shell".into()];
            p.stdin = (self.session(w).join("\n") + "\nexit\n").into_bytes();
        }
        Next::Run(Box::new(p))
    }
    fn body(&self, w: &Value, phase: usize, _carry: &Value) -> Value {
        if phase > 0 {
            http::serve(PORT, if phase == 1 { w["net"].as_array().cloned().unwrap_or_default() } else { vec![] }, endpoint(&w["data"]));
        }
        run_main()
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        match t {
            Tier::Quick => (1_000_000, 40),
            Tier::Thorough => (3_000_000, 1200),
        }
    }
    fn describe(&self, w: &Value) -> Value {
        let mut d = json!({"data": Graph::of(&w["data"]).ntriples(), "args": if w["session"].is_null() { vec![self.args(w, true).join(" ")] } else { self.session(w) }, "net": w["net"], "rates": w["rates"]});
        match w["cmd"].as_str().unwrap() {
            "shex" => d["schema"] = json!([vshex::texts(w), vshex::shapemap(w)]),
            "shacl" => d["shapes"] = json!(vshacl::Shapes::of(&w["ops"]).turtle()),
            "query" => d["query"] = w["q"].clone(),
            _ => {},
        }
        d
    }
}

impl Remote {
    fn judge(&self, w: &Value, done: &[Out]) -> Verdict {
        let (a, b) = (&done[0], &done[1]);
        let cmd = self.args(w, true).join(" ");
        let reqs: Vec<&Value> = b.history.iter().filter(|h| h["ev"] == "req").collect();
        let reps: BTreeMap<u64, &Value> = b.history.iter().filter(|h| h["ev"] == "rep").map(|h| (h["n"].as_u64().unwrap(), h)).collect();
        if self.polite && let Some(v) = self.manners(done) {
            return v;
        }
        // the only replies that may be absorbed: refusals, when a retry follows
        let hard = reps.values().any(|r| r["whole"] != json!(true) && r["status"] != json!(429));
        let gave_up = refusals(&b.history).values().any(|c| *c >= 4);
        let bye = w["net"].as_array().into_iter().flatten().any(|b| b["bye"] == json!(true));
        let faulty = hard || gave_up || bye || !b.trace.faults.is_empty();
        if !w["session"].is_null() {
            let said = String::from_utf8_lossy(&b.stdout_bytes()).into_owned();
            if code(b) != Some(0) {
                return violation("no-exit", format!("the session ended with {} {} {}", b.status, b.msg, super::m01::tail(&b.stderr)));
            }
            let x = a.image().get("/o/r").and_then(fs::bytes_of).unwrap_or_default();
            let f = self.fmt(w);
            let cx = canon(f, &x);
            for (i, l) in self.session(w).iter().enumerate() {
                if said.contains(&format!("Output saved in /sim/o/r{i}")) {
                    let cy = canon(f, &b.image().get(format!("/o/r{i}").as_str()).and_then(fs::bytes_of).unwrap_or_default());
                    if cx != cy {
                        return violation("remote-differs", format!("{l} (command {} of a session): another answer than on the same data in a file:\n{}\ninstead of\n{}\n({} requests, faults: {faulty})", i + 1, show(&cy), show(&cx), reqs.len()));
                    }
                } else if !faulty {
                    return violation("remote-fails", format!("{l} (command {} of a session): failed although every request was answered: {}", i + 1, super::m01::tail(&b.stderr)));
                }
            }
            return Verdict::Held(if self.polite { reqs.len() >= 2 } else { true });
        }
        if code(b) == Some(0) {
            let (x, y) = (a.image().get("/o/r").and_then(fs::bytes_of).unwrap_or_default(), b.image().get("/o/r").and_then(fs::bytes_of).unwrap_or_default());
            let f = self.fmt(w);
            let (cx, cy) = (canon(f, &x), canon(f, &y));
            if cx != cy {
                return violation("remote-differs", format!("{cmd}: exit 0 with another answer than on the same data in a file:\n{}\ninstead of\n{}\n({} requests, faults: {faulty})", show(&cy), show(&cx), reqs.len()));
            }
            if self.polite {
                return Verdict::Held(reqs.len() >= 2);
            }
            return Verdict::Held(faulty || !x.is_empty());
        }
        if !faulty {
            return violation("remote-fails", format!("{cmd}: failed although every request was answered: {} {}", b.extra["msg"], super::m01::tail(&b.stderr)));
        }
        Verdict::Held(true)
    }
    /// Spacing, retries and patience, from what arrived at the endpoint: is there a way to read the
    /// requests as first attempts, 1.1 s apart, and retries that waited as told, at most three of
    /// each? (Two threads may ask the same at the same time.)
    fn manners(&self, done: &[Out]) -> Option<Verdict> {
        let hist = &done[1].history;
        // what the same command asks for when nothing is refused
        let usual = done.get(2).map(|o| count(&o.history, |h| h["ev"] == "req"));
        let mut s = Search::new(hist, usual);
        let mut firsts = vec![0; s.texts.len()];
        if s.go(0, None, vec![], &mut firsts) || s.steps > SEARCH {
            return None;
        }
        Some(violation("bad-manners", format!("the requests cannot be read as attempts 1.1 s apart with at most three retries each that waited as told; at the best reading: {}", s.worst.1)))
    }
}
/// What arrived and what was refused, in order.
enum Ev {
    Req { n: u64, t: u64, q: usize },
    Refused { n: u64, ready: u64 },
}
struct Search {
    ev: Vec<Ev>,
    texts: Vec<String>,
    usual: Option<Vec<u64>>,
    dead: HashSet<(usize, u64, Vec<(usize, u64, u64, u64)>, Vec<u64>)>,
    steps: u64,
    worst: (usize, String),
}
const SEARCH: u64 = 20_000;
impl Search {
    fn new(hist: &[Value], usual: Option<BTreeMap<String, u64>>) -> Self {
        let mut texts: Vec<String> = vec![];
        let mut ev = vec![];
        for h in hist {
            let (n, t) = (h["n"].as_u64().unwrap_or(0), h["t"].as_u64().unwrap_or(0));
            if h["ev"] == "req" {
                let q = h["q"].as_str().unwrap_or("");
                let k = texts.iter().position(|x| x == q).unwrap_or_else(|| {
                    texts.push(q.to_string());
                    texts.len() - 1
                });
                ev.push(Ev::Req { n, t, q: k });
            } else if h["ev"] == "rep" && h["status"] == json!(429) {
                let wait = h["ra"].as_str().and_then(|x| x.parse::<u64>().ok()).unwrap_or(1).min(5);
                ev.push(Ev::Refused { n, ready: t + wait * 1_000_000_000 });
            }
        }
        let usual = usual.map(|u| texts.iter().map(|x| u.get(x).copied().unwrap_or(0).max(1)).collect());
        Search { ev, texts, usual, dead: HashSet::new(), steps: 0, worst: (0, String::new()) }
    }
    /// `open`: requests as (query, number, when a retry may come, attempts so far)
    fn go(&mut self, i: usize, last: Option<u64>, mut open: Vec<(usize, u64, u64, u64)>, firsts: &mut Vec<u64>) -> bool {
        const TOL: u64 = 10_000_000;
        // (a retry takes no turn, and connects again at most)
        const LATE: u64 = 500_000_000;
        self.steps += 1;
        if self.steps > SEARCH {
            return false;
        }
        open.sort();
        let state = (i, last.unwrap_or(u64::MAX), open, firsts.clone());
        if self.dead.contains(&state) {
            return false;
        }
        let open = &state.2;
        let (n, t, q) = match self.ev.get(i) {
            None => return true,
            Some(Ev::Refused { n, ready }) => {
                let mut p = open.clone();
                for x in p.iter_mut().filter(|x| x.1 == *n) {
                    x.2 = *ready;
                }
                return self.go(i + 1, last, p, firsts);
            },
            Some(Ev::Req { n, t, q }) => (*n, *t, *q),
        };
        for (k, x) in open.iter().enumerate() {
            if x.0 != q || x.2 == u64::MAX || x.2 > t + TOL || t > x.2 + LATE || x.3 >= 4 {
                continue;
            }
            let mut p = open.clone();
            p[k] = (q, n, u64::MAX, x.3 + 1);
            if self.go(i + 1, last, p, firsts) {
                return true;
            }
        }
        let spaced = last.is_none_or(|l| t + TOL >= l + 1_100_000_000);
        if spaced && self.usual.as_ref().is_none_or(|u| firsts[q] < u[q]) {
            let mut p = open.clone();
            p.push((q, n, u64::MAX, 1));
            firsts[q] += 1;
            if self.go(i + 1, Some(t), p, firsts) {
                return true;
            }
            firsts[q] -= 1;
        } else if i >= self.worst.0 {
            let why = if spaced { "one retry too many".to_string() } else { format!("only {} ms after the attempt before, and no retry was due", (t - last.unwrap_or(0)) / 1_000_000) };
            self.worst = (i, format!("request {n}, {why}: {}", self.texts[q]));
        }
        self.dead.insert(state);
        false
    }
}
fn count(hist: &[Value], f: impl Fn(&Value) -> bool) -> BTreeMap<String, u64> {
    let mut m = BTreeMap::new();
    for h in hist.iter().filter(|h| f(h)) {
        *m.entry(h["q"].as_str().unwrap_or("").to_string()).or_default() += 1;
    }
    m
}
fn refusals(hist: &[Value]) -> BTreeMap<String, u64> {
    count(hist, |h| h["ev"] == "rep" && h["status"] == json!(429))
}
fn show(c: &Result<String, String>) -> String {
    match c {
        Ok(s) => s.chars().take(600).collect(),
        Err(e) => format!("(unreadable: {e})"),
    }
}
