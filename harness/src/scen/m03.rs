//! M03: concurrent tool calls behave as if executed one after another (linearizability against a
//! set-of-triples model).
use super::mcpc::{self, *};
use crate::runner::*;
use crate::sim::{self, rng::Rng};
use serde_json::{Value, json};

pub struct Linear;
const U: u64 = 24;

fn pick_ids(r: &mut Rng, max: u64) -> Vec<u64> {
    let k = r.range(1, max);
    (0..k).map(|_| r.below(U)).collect()
}
/// subject index of a triple
fn subj(i: u64) -> u64 {
    if i % 4 == 1 { i % 3 } else { i }
}

impl Scenario for Linear {
    fn property(&self) -> &'static str {
        "M03"
    }
    fn rule(&self) -> &'static str {
        "2-10 pipelined tool calls (loads of one or more sources, some rejected, exports, SPARQL ASK/SELECT/CONSTRUCT, node inspection, ShEx and SHACL validation, cancellations) over a 24-triple universe; non-trivial when at least one load overlapped another call in real time"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rudof_mcp stdio server, tool router, rmcp, tokio multi-thread runtime", "rudof_lib load/serialize/query/node info/ShEx/SHACL", "oxigraph store"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["pipes, clock, scheduler, entropy", "MCP client"]
    }
    fn generate(&self, r: &mut Rng, t: Tier) -> Value {
        let n = r.range(2, if t == Tier::Quick { 9 } else { 10 });
        let mut ops = vec![];
        for _ in 0..n {
            let wait = r.pct(35);
            let gap = *r.pick(&[0u64, 0, 0, 0, 1, 30]);
            let mut op = match r.below(20) {
                0..=6 => {
                    let m = r.range(1, 3);
                    let srcs: Vec<Vec<u64>> = (0..m).map(|_| pick_ids(r, 4)).collect();
                    let bad = if r.pct(20) { r.range(1, 4) } else { 0 };
                    json!({"k": "load", "srcs": srcs, "bad": bad, "ttl": r.pct(40)})
                },
                7..=9 => json!({"k": "export", "res": r.pct(25)}),
                10..=11 => json!({"k": "ask", "i": r.below(U)}),
                12 => json!({"k": "count"}),
                13 => json!({"k": "construct"}),
                14..=15 => json!({"k": "node", "s": r.below(U)}),
                16..=17 => json!({"k": "shex", "s": r.below(U), "neg": r.pct(30)}),
                _ => json!({"k": "shacl", "s": r.below(U)}),
            };
            op["wait"] = json!(wait);
            op["gap"] = json!(gap);
            if r.pct(7) {
                op["cancel"] = json!(*r.pick(&[0u64, 0, 1, 10]));
            }
            ops.push(op);
        }
        json!({"ops": ops, "first": pick_ids(r, 6)})
    }
    fn next(&self, w: &Value, seed: u64, done: &[Out]) -> Next {
        if let Some(o) = done.first() {
            if o.gave_up() {
                return Next::Done(Verdict::Inconclusive(format!("{} {}", o.status, o.msg)));
            }
            if o.status != "ok" {
                return Next::Done(violation("server-died", format!("{} {}", o.status, o.msg)));
            }
            return Next::Done(judge(w, o));
        }
        let mut c = draw_cfg(seed, 0);
        c.rates.push(rate("read", "short", 20_000));
        c.rates.push(rate("write", "short", 20_000));
        c.max_faults = 6;
        let mut p = Phase::new(c);
        p.env = vec![("HOME".into(), "/sim/home".into()), ("RUDOF_MCP_STATE_PATH".into(), "/sim/none/data.json".into())];
        Next::Run(Box::new(p))
    }
    fn body(&self, w: &Value, _phase: usize, _carry: &Value) -> Value {
        let c = mcpc::start();
        if !c.init() {
            return json!({"noinit": true});
        }
        let first = ids_of(&w["first"]);
        c.tool(1, "load_rdf_data_from_sources", &json!({"data": [doc(&first)], "data_format": "ntriples"}));
        c.wait(1, 3600);
        let mut id = 10;
        let ops = w["ops"].as_array().unwrap();
        for op in ops {
            mcpc::sleep_ms(op["gap"].as_u64().unwrap_or(0));
            let (tool, args) = request(op);
            if op["res"] == json!(true) {
                c.send(id, "resources/read", json!({"uri": "rudof://current-data/ntriples"}));
            } else {
                c.tool(id, tool, &args);
            }
            if let Some(d) = op["cancel"].as_u64() {
                mcpc::sleep_ms(d);
                sim::record(json!({"ev": "cancel", "id": id}));
                c.notify("notifications/cancelled", json!({"requestId": id, "reason": "changed my mind"}));
            } else if op["wait"] == json!(true) {
                c.wait(id, 3600);
            }
            id += 1;
        }
        let mut missing = vec![];
        for (k, op) in ops.iter().enumerate() {
            if op.get("cancel").is_none() && c.wait(10 + k as i64, 3600).is_none() {
                missing.push(k);
            }
        }
        // a settled read at the end: every effect is in it
        c.tool(2, "export_rdf_data", &json!({"format": "ntriples"}));
        if c.wait(2, 3600).is_none() {
            missing.push(9999);
        }
        json!({"missing": missing})
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        match t {
            Tier::Quick => (1_000_000, 45),
            Tier::Thorough => (3_000_000, 1200),
        }
    }
}

fn request(op: &Value) -> (&'static str, Value) {
    let s = op["s"].as_u64().unwrap_or(0);
    match op["k"].as_str().unwrap() {
        "load" => {
            let mut data: Vec<String> = op["srcs"].as_array().unwrap().iter().map(|x| doc(&ids_of(x))).collect();
            match op["bad"].as_u64().unwrap_or(0) {
                1 => data.last_mut().unwrap().push_str("<http://e.org/broken> <http://e.org/p \"x\" .\n"),
                2 => data.last_mut().unwrap().push_str("<http://e.org/broken> \"no predicate\" .\n"),
                3 => data.push("<http://e.org/a> <http://e.org/b> .\n".into()),
                _ => {},
            }
            let f = if op["bad"] == json!(4) {
                "trig"
            } else if op["ttl"] == json!(true) { "turtle" } else { "ntriples" };
            ("load_rdf_data_from_sources", json!({"data": data, "data_format": f}))
        },
        "export" => ("export_rdf_data", json!({"format": "ntriples"})),
        "ask" => ("execute_sparql_query", json!({"query": format!("ASK {{ {} }}", triple(op["i"].as_u64().unwrap()).trim())})),
        "count" => ("execute_sparql_query", json!({"query": "SELECT (COUNT(*) AS ?total) WHERE { ?s ?p ?o }"})),
        "construct" => ("execute_sparql_query", json!({"query": "CONSTRUCT { ?s ?p ?o } WHERE { ?s ?p ?o }", "result_format": "turtle"})),
        "node" => ("node_info", json!({"node": format!("<{NS}s{s}>"), "mode": "outgoing"})),
        "shex" => {
            let card = if op["neg"] == json!(true) { "{0}" } else { "" };
            (
                "validate_shex",
                json!({"schema": format!("<{NS}S> {{ <{NS}p> . {card} ; <{NS}n> . * ; <{NS}l> . * }}"), "schema_format": "shexc",
                    "shapemap": format!("<{NS}s{s}>@<{NS}S>"), "result_format": "json"}),
            )
        },
        "shacl" => (
            "validate_shacl",
            json!({"shapes": format!("@prefix sh: <http://www.w3.org/ns/shacl#> .\n<{NS}Sh> a sh:NodeShape ; sh:targetNode <{NS}s{s}> ; sh:property [ sh:path <{NS}p> ; sh:minCount 1 ] ."),
                "shapes_format": "turtle", "result_format": "turtle"}),
        ),
        _ => unreachable!(),
    }
}

#[derive(Debug, Clone)]
enum Obs {
    /// no effect, no information
    Nothing,
    /// the whole dataset
    Set(u128),
    /// (mask, value): these triples look like this
    Part(u128, u128),
    Count(u32),
    /// a load that adds `m` and afterwards sees `n` triples
    Load(u128, Option<u32>),
    /// not understood
    Bad(String),
}

fn turtle_to_nt(t: &str) -> Result<String, String> {
    let mut out = String::new();
    for x in oxttl::TurtleParser::new().for_slice(t) {
        let x = x.map_err(|e| format!("{e} in {t}"))?;
        out.push_str(&format!("{x} .\n"));
    }
    Ok(out)
}

fn observe(op: &Value, msg: &Value) -> Obs {
    let failed = msg.get("error").is_some() || msg["result"]["isError"] == json!(true);
    let c = content(msg);
    let k = op["k"].as_str().unwrap();
    let s = op["s"].as_u64().unwrap_or(0);
    if k == "load" {
        let m = op["srcs"].as_array().unwrap().iter().fold(0u128, |a, x| a | mask(&ids_of(x)));
        let bad = op["bad"].as_u64().unwrap_or(0) != 0;
        return match (bad, failed) {
            (true, true) => Obs::Nothing,
            (true, false) => Obs::Bad("a load with a syntax error was accepted".into()),
            (false, true) => Obs::Bad(format!("a valid load was rejected: {msg}")),
            (false, false) => match c["triple_count"].as_u64() {
                Some(n) => Obs::Load(m, Some(n as u32)),
                None => Obs::Bad(format!("no triple_count: {msg}")),
            },
        };
    }
    if failed {
        return Obs::Bad(format!("{k} failed: {msg}"));
    }
    match k {
        "export" => match parse_dump(if op["res"] == json!(true) { &msg["result"]["contents"][0]["text"] } else { &c["data"] }.as_str().unwrap_or("?"), U) {
            Ok(m) => Obs::Set(m),
            Err(e) => Obs::Bad(e),
        },
        "construct" => match turtle_to_nt(c["results"].as_str().unwrap_or("?")).and_then(|t| parse_dump(&t, U)) {
            Ok(m) => Obs::Set(m),
            Err(e) => Obs::Bad(e),
        },
        "ask" => {
            let b = 1u128 << op["i"].as_u64().unwrap();
            match c["results"].as_str().unwrap_or("").trim().to_lowercase().as_str() {
                "true" => Obs::Part(b, b),
                "false" => Obs::Part(b, 0),
                x => Obs::Bad(format!("ASK answered {x:?}")),
            }
        },
        "count" => {
            let t = strip(c["results"].as_str().unwrap_or(""));
            let nums: Vec<u32> = t.split(|ch: char| !ch.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect();
            match nums.iter().max() {
                // the table may number its rows; the count is the cell of the only row
                Some(_) => Obs::Count(*nums.last().unwrap()),
                None => Obs::Bad(format!("no count in {t:?}")),
            }
        },
        "node" => {
            let arcs = &c["parsed"]["outgoing_arcs"];
            let Some(a) = arcs.as_array() else { return Obs::Bad(format!("node_info: {msg}")) };
            let mut care = 0u128;
            let mut val = 0u128;
            for i in 0..U {
                if subj(i) == s {
                    care |= 1 << i;
                    let p = match i % 4 {
                        0 => "p".to_string(),
                        1 => format!("q{i}"),
                        2 => "n".into(),
                        _ => "l".into(),
                    };
                    let o = match i % 4 {
                        0 => format!("v{i}"),
                        1 => format!("o{i}"),
                        2 => format!("{i}"),
                        _ => format!("t\u{e9}xt {i}"),
                    };
                    if a.iter().any(|x| {
                        let pr = strip(x["predicate"].as_str().unwrap_or(""));
                        let tg = strip(x["target"].as_str().unwrap_or(""));
                        let end = |t: &str, e: &str| t.trim_matches(|c| c == '<' || c == '>' || c == '"').ends_with(e);
                        end(&pr, &p) && (tg.contains(&o))
                    }) {
                        val |= 1 << i;
                    }
                }
            }
            if a.len() as u32 != val.count_ones() {
                return Obs::Bad(format!("node_info shows {} arcs, {} understood: {}", a.len(), val.count_ones(), c["parsed"]));
            }
            Obs::Part(care, val)
        },
        "shex" => {
            let t = c["results"].as_str().unwrap_or("");
            let v: Value = match serde_json::from_str(t) {
                Ok(v) => v,
                Err(e) => return Obs::Bad(format!("{e}: {t}")),
            };
            let low = v.to_string().to_lowercase();
            let non = low.contains("\"nonconformant\"");
            let con = low.contains("\"conformant\"");
            if non == con {
                return Obs::Bad(format!("shex result not understood: {t}"));
            }
            let b = if s % 4 == 0 { 1u128 << s } else { 0 };
            // conformant iff exactly one p (or none, for the negated shape)
            let want_p = op["neg"] != json!(true);
            if b == 0 {
                // the node never has a p
                return if con == want_p { Obs::Bad(format!("s{s} has no p, yet conformant={con} for neg={}", op["neg"])) } else { Obs::Nothing };
            }
            Obs::Part(b, if con == want_p { b } else { 0 })
        },
        "shacl" => {
            let t = c["results"].as_str().unwrap_or("");
            let nt = match turtle_to_nt(t) {
                Ok(x) => x,
                Err(e) => return Obs::Bad(e),
            };
            let con = nt.contains("shacl#conforms> \"true\"");
            let non = nt.contains("shacl#conforms> \"false\"");
            if con == non {
                return Obs::Bad(format!("shacl report not understood: {t}"));
            }
            let b = if s % 4 == 0 { 1u128 << s } else { 0 };
            if b == 0 {
                return if con { Obs::Bad(format!("s{s} has no p, yet it conforms")) } else { Obs::Nothing };
            }
            Obs::Part(b, if con { b } else { 0 })
        },
        _ => unreachable!(),
    }
}
pub fn strip(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

struct Op {
    call: u64,
    ret: u64,
    obs: Obs,
    optional: bool,
    text: String,
}

fn judge(w: &Value, o: &Out) -> Verdict {
    if o.extra["noinit"] == json!(true) {
        return violation("no-answer", "initialize was not answered");
    }
    if let Some(m) = o.extra["missing"].as_array().filter(|m| !m.is_empty()) {
        return violation("no-answer", format!("calls {m:?} were never answered"));
    }
    let mut ops: Vec<Op> = vec![];
    let list = w["ops"].as_array().unwrap();
    let mut all: Vec<(i64, Value)> = vec![(1, json!({"k": "load", "srcs": [w["first"]], "bad": 0}))];
    for (k, op) in list.iter().enumerate() {
        all.push((10 + k as i64, op.clone()));
    }
    all.push((2, json!({"k": "export"})));
    for (id, op) in &all {
        let call = o.history.iter().find(|h| h["ev"] == "send" && h["id"] == json!(id)).and_then(|h| h["stamp"].as_u64());
        let Some(call) = call else { continue };
        let r: Vec<&Value> = o.history.iter().filter(|h| h["ev"] == "recv" && h["id"] == json!(id)).collect();
        if r.len() > 1 {
            return violation("duplicate-answer", format!("call {id} was answered {} times", r.len()));
        }
        let cancelled = op.get("cancel").is_some();
        match r.first() {
            Some(h) => {
                let obs = observe(op, &h["msg"]);
                if let Obs::Bad(e) = &obs {
                    return violation("wrong-answer", format!("call {id} {}: {e}", op["k"]));
                }
                ops.push(Op { call, ret: h["stamp"].as_u64().unwrap(), obs, optional: false, text: format!("{id}:{}", op["k"].as_str().unwrap()) });
            },
            None if cancelled => {
                let m = if op["k"] == "load" && op["bad"] == json!(0) {
                    op["srcs"].as_array().unwrap().iter().fold(0u128, |a, x| a | mask(&ids_of(x)))
                } else {
                    0
                };
                ops.push(Op { call, ret: u64::MAX, obs: Obs::Load(m, None), optional: true, text: format!("{id}:cancelled") });
            },
            None => return violation("no-answer", format!("call {id} was never answered")),
        }
    }
    // overlap?
    let mut nontrivial = false;
    for a in &ops {
        if matches!(a.obs, Obs::Load(..)) {
            nontrivial |= ops.iter().any(|b| !std::ptr::eq(a, b) && a.call < b.ret && b.call < a.ret);
        }
    }
    // search for a linearization (memo on the set of operations already placed)
    let n = ops.len();
    let mut seen = std::collections::HashSet::new();
    let mut stack: Vec<(u32, u128)> = vec![(0, 0)];
    let mut best = (0u32, 0u128);
    let full: u32 = (1u32 << n) - 1;
    let must: u32 = (0..n).filter(|i| !ops[*i].optional).fold(0, |a, i| a | 1 << i);
    while let Some((done, st)) = stack.pop() {
        if done & must == must {
            return Verdict::Held(nontrivial);
        }
        if done.count_ones() > best.0.count_ones() {
            best = (done, st);
        }
        let min_ret = (0..n).filter(|i| done >> i & 1 == 0).map(|i| ops[i].ret).min().unwrap();
        for i in 0..n {
            if done >> i & 1 == 1 || ops[i].call > min_ret {
                continue;
            }
            let ns = match &ops[i].obs {
                Obs::Nothing => Some(st),
                Obs::Set(m) => (*m == st).then_some(st),
                Obs::Part(c, v) => (st & c == *v).then_some(st),
                Obs::Count(k) => (st.count_ones() == *k).then_some(st),
                Obs::Load(m, k) => {
                    let x = st | m;
                    k.is_none_or(|k| x.count_ones() == k).then_some(x)
                },
                Obs::Bad(_) => None,
            };
            if let Some(ns) = ns
                && seen.insert((done | 1 << i, ns))
            {
                stack.push((done | 1 << i, ns));
            }
        }
    }
    let _ = full;
    let show: Vec<String> = ops.iter().map(|o| format!("{} [{}..{}] {:?}", o.text, o.call, if o.ret == u64::MAX { 0 } else { o.ret }, o.obs)).collect();
    violation("not-linearizable", format!("no order of the calls explains the answers; best prefix {:b} reaches {:?}; calls: {}", best.0, unmask(best.1), show.join("; ")))
}
