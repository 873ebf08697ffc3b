//! M04: every request gets exactly one answer and the server neither wedges nor dies, whatever
//! mix of requests, cancellations and unanswered sampling it is given.
//! M05: log notifications respect the level the client set and the rate limit, and failures are
//! reported.
use super::mcpc::{self, *};
use crate::runner::*;
use crate::sim::{self, rng::Rng};
use serde_json::{Value, json};

pub struct Answers;
const U: u64 = 24;

fn one<'a>(r: &mut Rng, xs: &[&'a str]) -> &'a str {
    xs[r.below(xs.len() as u64) as usize]
}
fn schema(r: &mut Rng) -> String {
    match r.below(5) {
        0 => format!("<{NS}S> {{ <{NS}p> . * ; <{NS}n> . * }}"),
        1 => format!("<{NS}S> {{ <{NS}q1> @<{NS}S> * }} <{NS}T> @<{NS}S> AND {{ <{NS}n> . ? }}"),
        2 => "<S> { broken".into(),
        3 => "".into(),
        _ => format!("<{NS}S> EXTERNAL <{NS}T> {{ <{NS}p> @<{NS}Missing> }}"),
    }
}
/// a tools/call with sensible, odd or invalid arguments
fn tool(r: &mut Rng) -> (String, Value) {
    let s = r.below(U);
    let node = match r.below(5) {
        0 => format!("<{NS}s{s}>"),
        1 => format!("{NS}s{s}"),
        2 => "_:b0".into(),
        3 => "not an iri \u{1F600}".into(),
        _ => format!("nope:s{s}"),
    };
    let ids: Vec<u64> = (0..r.range(1, 4)).map(|_| r.below(U)).collect();
    let mut v = match r.below(22) {
        0..=2 => (
            "load_rdf_data_from_sources",
            json!({"data": [doc(&ids)], "data_format": one(r, &["ntriples", "turtle", "trig", "n3", "nquads", "rdfxml", "jsonld", "pg", "bogus", ""])}),
        ),
        3 => ("load_rdf_data_from_sources", json!({"data": one(r, &["/sim/none.ttl", "x", ""]), "base": "not an iri"})),
        4 => ("load_rdf_data_from_sources", json!({"data": [one(r, &["/sim/none.ttl", "", "file:///sim/none"])], "base": one(r, &["not an iri", "http://e.org/"])})),
        5..=6 => ("export_rdf_data", json!({"format": one(r, &["turtle", "ntriples", "rdfxml", "jsonld", "trig", "nquads", "n3", "bogus"])})),
        7 => ("export_plantuml", json!({})),
        8 => ("export_image", json!({"image_format": one(r, &["gif", "turtle", "ntriples"])})),
        9..=10 => (
            "node_info",
            json!({"node": node, "mode": one(r, &["both", "outgoing", "incoming", "sideways"]), "depth": r.below(4), "strict_iris": r.pct(30),
                "predicates": if r.pct(30) { json!([one(r, &["http://e.org/p", "broken iri", "nope:p"])]) } else { Value::Null }}),
        ),
        11..=13 => (
            "execute_sparql_query",
            json!({"query": one(r, &["SELECT * WHERE { ?s ?p ?o }", "ASK { ?s ?p ?o }", "CONSTRUCT { ?s ?p ?o } WHERE { ?s ?p ?o }", "DESCRIBE <http://e.org/s1>",
                    "# DESCRIBE\nSELECT ?s WHERE { ?s ?p ?o }", "PREFIX ex: <http://e.org/>\nDESCRIBE ex:s1", "BASE <http://e.org/> DESCRIBE <s1>", "SELECT broken", "", "INSERT DATA { <a> <b> <c> }",
                    "SELECT (STR(?o)/0 AS ?x) WHERE { ?s ?p ?o }"]),
                "result_format": if r.pct(40) { json!(one(r, &["internal", "turtle", "ntriples", "rdfxml", "trig", "n3", "nquads", "csv", "json", "bogus"])) } else { Value::Null }}),
        ),
        14..=16 => {
            let sc = schema(r);
            (
                "validate_shex",
                json!({"schema": sc, "schema_format": one(r, &["shexc", "shexc", "shexj", "turtle", "ntriples", "bogus", "jsonld", "internal", "simple"]),
                    "shapemap": format!("{node}@<{NS}S>"), "shapemap_format": one(r, &["compact", "compact", "internal", "json", "details", "csv"]),
                    "result_format": one(r, &["details", "compact", "json", "csv", "turtle", "ntriples", "bogus"]), "sort_by": one(r, &["node", "shape", "status", "bogus"])}),
            )
        },
        17 => {
            let sc = schema(r);
            ("check_shex", json!({"schema": sc, "schema_format": one(r, &["shexc", "shexj", "turtle", "bogus"])}))
        },
        18 => {
            let sc = schema(r);
            ("show_shex", json!({"schema": sc, "result_schema_format": one(r, &["shexc", "shexj", "turtle", "ntriples", "simple", "internal", "bogus", "json", "jsonld", "rdfxml"])}))
        },
        _ => (
            "validate_shacl",
            json!({"shapes": format!("@prefix sh: <http://www.w3.org/ns/shacl#> .\n<{NS}Sh> a sh:NodeShape ; sh:targetNode <{NS}s{s}> ; sh:property [ sh:path <{NS}p> ; {} ] .",
                    one(r, &["sh:minCount 1", "sh:maxCount 0", "sh:minCount \"x\"", "sh:nodeKind <http://e.org/nothing>", "sh:targetNode 1"])),
                "shapes_format": one(r, &["turtle", "turtle", "ntriples", "rdfxml", "jsonld", "bogus", "trig"]),
                "mode": one(r, &["native", "sparql", "bogus"]),
                "result_format": one(r, &["details", "compact", "minimal", "json", "csv", "turtle", "ntriples", "bogus"]), "sort_by": one(r, &["severity", "node", "component", "value", "bogus"])}),
        ),
    };
    // wrong types, missing or superfluous arguments
    if r.pct(10) {
        let o = v.1.as_object_mut().unwrap();
        if let Some(k) = o.keys().next().cloned() {
            match r.below(4) {
                0 => {
                    o.remove(&k);
                },
                1 => {
                    o.insert(k, json!(17));
                },
                2 => {
                    o.insert(k, json!({"a": [null]}));
                },
                _ => {
                    o.insert("extra".into(), json!(true));
                },
            }
        }
    }
    if r.pct(4) {
        v.0 = "no_such_tool";
    }
    (v.0.to_string(), v.1)
}
fn method(r: &mut Rng) -> (String, Value) {
    let (m, p) = match r.below(14) {
        0 => ("ping", json!({})),
        1 => ("tools/list", json!({"cursor": one(r, &["0", "5", "99999", "x", "-1"])})),
        2 => ("tools/list", json!({})),
        3 => ("prompts/list", json!({"cursor": one(r, &["0", "1", "99", "x"])})),
        4 => ("resources/list", json!({"cursor": one(r, &["0", "20", "99", "x"])})),
        5 => ("resources/templates/list", json!({})),
        6..=7 => (
            "resources/read",
            json!({"uri": one(r, &["rudof://current-data", "rudof://current-data/ntriples", "rudof://current-data/rdfxml", "rudof://current-data/jsonld", "rudof://current-data/trig",
                "rudof://current-data/nquads", "rudof://current-data/n3", "rudof://formats/rdf", "rudof://formats/node-modes", "rudof://formats/query-types", "rudof://formats/query-results",
                "rudof://formats/shex", "rudof://formats/shex-validation-result", "rudof://formats/validation-reader-modes", "rudof://formats/shacl", "rudof://shex/external-resolvers",
                "rudof://nothing", "", "http://e.org/"])}),
        ),
        8 => (
            "prompts/get",
            match r.below(5) {
                0 => json!({"name": "explore_rdf_node", "arguments": {"node": "<http://e.org/s1>"}}),
                1 => json!({"name": "analyze_rdf_data", "arguments": {"focus": one(r, &["all", "structure", "bogus"])}}),
                2 => json!({"name": "validation_guide", "arguments": {"technology": one(r, &["shex", "shacl", "bogus"])}}),
                3 => json!({"name": "validation_guide"}),
                _ => json!({"name": "nope", "arguments": {}}),
            },
        ),
        9 => (
            "completion/complete",
            json!({"ref": if r.pct(50) { json!({"type": "ref/prompt", "name": one(r, &["analyze_rdf_data", "validation_guide", "nope"])}) } else { json!({"type": "ref/resource", "uri": one(r, &["rudof://current-data", "x"])}) },
                "argument": {"name": one(r, &["format", "technology", "base", "mode", "zzz", "result_format", "endpoint"]), "value": one(r, &["", "t"])}}),
        ),
        10 => ("logging/setLevel", json!({"level": one(r, &["debug", "info", "error", "emergency"])})),
        11 => ("resources/subscribe", json!({"uri": "rudof://current-data"})),
        12 => ("no/such/method", json!({"a": 1})),
        _ => ("tools/call", json!({"nme": "x"})),
    };
    (m.into(), p)
}

impl Scenario for Answers {
    fn property(&self) -> &'static str {
        "M04"
    }
    fn rule(&self) -> &'static str {
        "3-14 pipelined requests of every kind (all tools with valid, odd and invalid arguments, all other methods, unknown ones), cancellations, natural-language queries whose sampling request is answered late, wrongly or never, a client that stops reading for a while, and a hang-up before or after the answers; non-trivial when at least two requests were outstanding at once"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rudof_mcp stdio server, every tool, prompt, resource and completion handler, rmcp, tokio multi-thread runtime", "rudof_lib behind them"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["pipes, clock, scheduler, entropy, disk", "MCP client"]
    }
    fn generate(&self, r: &mut Rng, t: Tier) -> Value {
        let n = r.range(3, if t == Tier::Quick { 10 } else { 14 });
        let mut ops = vec![];
        for _ in 0..n {
            let mut op = match r.below(10) {
                0..=5 => {
                    let (n, a) = tool(r);
                    json!({"k": "tool", "n": n, "a": a})
                },
                6..=7 => {
                    let (m, p) = method(r);
                    json!({"k": "req", "m": m, "p": p})
                },
                8 => json!({"k": "nl", "reply": one(r, &["good", "fenced", "bad", "describe", "error", "never", "never", "nothing"]), "delay": *r.pick(&[0u64, 5, 3000, 200_000])}),
                _ => json!({"k": "note", "m": one(r, &["notifications/roots/list_changed", "notifications/progress", "notifications/initialized", "notifications/nothing", "$/custom", "notifications/cancelled"])}),
            };
            op["wait"] = json!(r.pct(25) && op["k"] != "nl");
            op["gap"] = json!(*r.pick(&[0u64, 0, 0, 0, 1, 30, 1500]));
            if r.pct(8) && op["k"] != "note" {
                op["cancel"] = json!(*r.pick(&[0u64, 0, 1, 10]));
            }
            if r.pct(5) {
                op["pause"] = json!(*r.pick(&[50u64, 5000, 40_000]));
            }
            ops.push(op);
        }
        json!({"ops": ops, "first": [1, 2, 3, 4], "end": one(r, &["settle", "settle", "hangup", "garbage"])})
    }
    fn next(&self, w: &Value, seed: u64, done: &[Out]) -> Next {
        if let Some(o) = done.first() {
            return Next::Done(self.judge(w, o));
        }
        let mut c = draw_cfg(seed, 0);
        for (cl, k, p) in [("read", "short", 20_000), ("write", "short", 20_000), ("fsync", "eio", 30_000), ("open_w", "emfile", 20_000), ("write", "enospc", 10_000), ("write", "stall", 5000), ("rename", "eio", 30_000)] {
            c.rates.push(rate(cl, k, p));
        }
        c.max_faults = 6;
        let mut p = Phase::new(c);
        p.image.insert("/state".into(), crate::sim::fs::Node::Dir);
        p.image.insert("/home".into(), crate::sim::fs::Node::Dir);
        p.env = vec![("HOME".into(), "/sim/home".into()), ("RUDOF_MCP_STATE_PATH".into(), "/sim/state/data.json".into())];
        Next::Run(Box::new(p))
    }
    fn body(&self, w: &Value, _phase: usize, _carry: &Value) -> Value {
        let c = mcpc::start();
        if !c.init() {
            return json!({"noinit": true});
        }
        c.tool(1, "load_rdf_data_from_sources", &json!({"data": [doc(&ids_of(&w["first"]))], "data_format": "ntriples"}));
        c.wait(1, 3600);
        // the client's LLM side: answers sampling requests as the operation planned
        let replies: Vec<(String, u64)> = w["ops"].as_array().unwrap().iter().filter(|o| o["k"] == "nl").map(|o| (o["reply"].as_str().unwrap().to_string(), o["delay"].as_u64().unwrap())).collect();
        if !replies.is_empty() {
            let c = c.clone();
            std::thread::spawn(move || {
                let mut k = 0;
                loop {
                    let (reqs, closed) = {
                        let g = c.state();
                        (g.requests.clone(), g.closed)
                    };
                    if closed {
                        return;
                    }
                    while k < reqs.len() {
                        let text = reqs[k]["params"]["messages"].to_string();
                        let i: usize = text.split("question ").nth(1).and_then(|t| t.split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()).unwrap_or(0);
                        let (how, delay) = replies[i.min(replies.len() - 1)].clone();
                        let id = reqs[k]["id"].clone();
                        let c = c.clone();
                        std::thread::spawn(move || {
                            mcpc::sleep_ms(delay);
                            let text = match how.as_str() {
                                "good" => "SELECT * WHERE { ?s ?p ?o }",
                                "fenced" => "```sparql\nASK { ?s ?p ?o }\n```",
                                "describe" => "DESCRIBE <http://e.org/s1>",
                                "nothing" => "",
                                _ => "I do not know",
                            };
                            match how.as_str() {
                                "never" => {},
                                "error" => {
                                    c.raw(&json!({"jsonrpc": "2.0", "id": id, "error": {"code": -1, "message": "User rejected sampling request"}}).to_string());
                                },
                                _ => {
                                    c.raw(&json!({"jsonrpc": "2.0", "id": id, "result": {"role": "assistant", "content": {"type": "text", "text": text}, "model": "m"}}).to_string());
                                },
                            }
                        });
                        k += 1;
                    }
                    mcpc::sleep_ms(3);
                }
            });
        }
        let ops = w["ops"].as_array().unwrap();
        let mut nl = 0;
        for (k, op) in ops.iter().enumerate() {
            let id = 10 + k as i64;
            mcpc::sleep_ms(op["gap"].as_u64().unwrap_or(0));
            if let Some(ms) = op["pause"].as_u64() {
                c.pause(ms);
            }
            match op["k"].as_str().unwrap() {
                "tool" => {
                    c.tool(id, op["n"].as_str().unwrap(), &op["a"]);
                },
                "req" => {
                    c.send(id, op["m"].as_str().unwrap(), op["p"].clone());
                },
                "nl" => {
                    c.tool(id, "execute_sparql_query", &json!({"query_natural_language": format!("question {nl}?")}));
                    nl += 1;
                },
                _ => {
                    let m = op["m"].as_str().unwrap();
                    let p = match m {
                        "notifications/cancelled" => json!({"requestId": 424242, "reason": "?"}),
                        "notifications/progress" => json!({"progressToken": 1, "progress": 0.5}),
                        _ => json!({}),
                    };
                    c.notify(m, p);
                },
            }
            if let Some(d) = op["cancel"].as_u64() {
                mcpc::sleep_ms(d);
                c.notify("notifications/cancelled", json!({"requestId": id, "reason": "changed my mind"}));
            } else if op["wait"] == json!(true) {
                c.wait(id, 3600);
            }
        }
        let mut missing = vec![];
        if w["end"] == "settle" {
            for (k, op) in ops.iter().enumerate() {
                let silent = op["k"] == "note" || op["reply"] == "never" || op.get("cancel").is_some();
                if !silent && c.wait(10 + k as i64, 3600).is_none() {
                    missing.push(json!({"op": k, "what": op}));
                }
            }
            // a sampling request nobody answers must not hold up anyone else
            c.tool(2, "execute_sparql_query", &json!({"query": "ASK { ?s ?p ?o }"}));
            c.send(3, "ping", json!({}));
            for id in [2, 3] {
                if c.wait(id, 3600).is_none() {
                    missing.push(json!({"final": id}));
                }
            }
        } else if w["end"] == "garbage" {
            c.raw("{\"jsonrpc\": \"2.0\", \"id\": ");
            mcpc::sleep_ms(10);
        }
        let t0 = sim::now_ns();
        c.hang_up();
        let mut ended = false;
        while sim::now_ns() - t0 < 1200 * 1_000_000_000 {
            if c.server.lock().unwrap().as_ref().is_none_or(|h| h.is_finished()) {
                ended = true;
                break;
            }
            mcpc::sleep_ms(200);
        }
        json!({"missing": missing, "ended": ended, "threads": if ended { Value::Null } else { sim::threads_json() }})
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        match t {
            Tier::Quick => (1_000_000, 45),
            Tier::Thorough => (3_000_000, 1200),
        }
    }
}
impl Answers {
    fn judge(&self, w: &Value, o: &Out) -> Verdict {
        if o.gave_up() {
            return Verdict::Inconclusive(format!("{} {}", o.status, o.msg));
        }
        if o.status != "ok" {
            return violation("server-died", format!("{} {} {}", o.status, o.msg, super::m01::tail(&o.stderr)));
        }
        if o.extra["noinit"] == json!(true) {
            return violation("no-answer", "initialize was not answered");
        }
        if let Some(m) = o.extra["missing"].as_array().filter(|m| !m.is_empty()) {
            return violation("no-answer", format!("never answered: {}", Value::Array(m.clone())));
        }
        if o.extra["ended"] == json!(false) {
            return violation("no-exit", format!("the client hung up, and 20 minutes later the server is still running: {}", o.extra["threads"]));
        }
        let mut sent = std::collections::BTreeSet::new();
        let mut got = std::collections::BTreeSet::new();
        let mut overlap = false;
        for h in &o.history {
            match h["ev"].as_str().unwrap_or("") {
                "send" => {
                    sent.insert(h["id"].as_i64().unwrap());
                    overlap |= sent.len() - got.len() >= 2;
                },
                "recv" => {
                    let id = h["id"].as_i64().unwrap();
                    let m = &h["msg"];
                    if !sent.contains(&id) {
                        return violation("stray-answer", format!("an answer to a request that was never sent: {m}"));
                    }
                    if !got.insert(id) {
                        return violation("duplicate-answer", format!("request {id} was answered twice: {m}"));
                    }
                    if m.get("result").is_some() == m.get("error").is_some() || m["jsonrpc"] != "2.0" {
                        return violation("malformed-answer", format!("neither or both of result and error: {m}"));
                    }
                },
                "garbage" => return violation("garbage-on-stdout", format!("{}", h["line"])),
                "other" if !(w["end"] == "garbage" && h["msg"]["error"].is_object()) => {
                    return violation("stray-answer", format!("a message that answers nothing: {}", h["msg"]));
                },
                _ => {},
            }
        }
        Verdict::Held(overlap)
    }
}

// ------------------------------------------------------------------------------------ M05
pub struct Logs;
const LEVELS: [&str; 8] = ["emergency", "alert", "critical", "error", "warning", "notice", "info", "debug"];

impl Scenario for Logs {
    fn property(&self) -> &'static str {
        "M05"
    }
    fn rule(&self) -> &'static str {
        "bursts of up to 130 succeeding and failing tool calls, pipelined or sequential, mixed with level changes and pauses around the one-second window and of several minutes, on jumping schedules; non-trivial when at least one notification arrived and at least one was filtered or dropped"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rudof_mcp stdio server, logging filter and limiter, rmcp, tokio"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["pipes, clock, scheduler, entropy", "MCP client"]
    }
    fn generate(&self, r: &mut Rng, _t: Tier) -> Value {
        let mut ops = vec![];
        let n = r.range(2, 7);
        for _ in 0..n {
            ops.push(match r.below(10) {
                0..=2 => json!({"k": "level", "l": *r.pick(&LEVELS), "wait": r.pct(70)}),
                3 => json!({"k": "gap", "ms": *r.pick(&[1u64, 300, 900, 999, 1000, 1001, 2500, 60_000, 400_000])}),
                4..=5 => json!({"k": "burst", "n": if r.pct(15) { r.range(70, 130) } else { r.range(20, 70) }, "fail": r.pct(60), "wait": r.pct(30), "gap": *r.pick(&[0u64, 0, 0, 5, 25])}),
                _ => json!({"k": "burst", "n": r.range(1, 4), "fail": r.pct(60), "wait": true, "gap": *r.pick(&[0u64, 0, 400])}),
            });
        }
        json!({"ops": ops})
    }
    fn next(&self, w: &Value, seed: u64, done: &[Out]) -> Next {
        if let Some(o) = done.first() {
            return Next::Done(self.judge(w, o));
        }
        let mut c = draw_cfg(seed, 0);
        c.timer_ppm = 0;
        let mut p = Phase::new(c);
        p.env = vec![("HOME".into(), "/sim/home".into()), ("RUDOF_MCP_STATE_PATH".into(), "/sim/none/data.json".into())];
        Next::Run(Box::new(p))
    }
    fn body(&self, w: &Value, _phase: usize, _carry: &Value) -> Value {
        let c = mcpc::start();
        if !c.init() {
            return json!({"noinit": true});
        }
        let mut id = 10;
        for op in w["ops"].as_array().unwrap() {
            match op["k"].as_str().unwrap() {
                "level" => {
                    sim::record(json!({"ev": "level", "id": id, "l": op["l"]}));
                    c.send(id, "logging/setLevel", json!({"level": op["l"]}));
                    if op["wait"] == json!(true) {
                        c.wait(id, 3600);
                    }
                    id += 1;
                },
                "gap" => mcpc::sleep_ms(op["ms"].as_u64().unwrap()),
                _ => {
                    let fail = op["fail"] == json!(true);
                    let first = id;
                    for _ in 0..op["n"].as_u64().unwrap() {
                        mcpc::sleep_ms(op["gap"].as_u64().unwrap());
                        if fail {
                            c.tool(id, "execute_sparql_query", &json!({"query": "SELECT broken"}));
                        } else {
                            c.tool(id, "export_rdf_data", &json!({"format": "ntriples"}));
                        }
                        if op["wait"] == json!(true) {
                            c.wait(id, 3600);
                        }
                        id += 1;
                    }
                    for k in first..id {
                        c.wait(k, 3600);
                    }
                },
            }
        }
        for k in 10..id {
            c.wait(k, 3600);
        }
        mcpc::sleep_ms(5000);
        json!({})
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        match t {
            Tier::Quick => (1_000_000, 45),
            Tier::Thorough => (3_000_000, 1200),
        }
    }
}
fn sev(l: &str) -> i64 {
    LEVELS.iter().position(|x| *x == l).map(|x| x as i64).unwrap_or(-1)
}
impl Logs {
    fn judge(&self, _w: &Value, o: &Out) -> Verdict {
        if o.gave_up() {
            return Verdict::Inconclusive(format!("{} {}", o.status, o.msg));
        }
        if o.status != "ok" || o.extra["noinit"] == json!(true) {
            return violation("server-died", format!("{} {}", o.status, o.msg));
        }
        let h = &o.history;
        let t = |x: &Value| x["t"].as_u64().unwrap_or(0);
        // when was which level possibly / certainly in force: (level, sent, answered)
        let mut levels: Vec<(i64, u64, u64)> = vec![];
        let init = h.iter().find(|x| x["ev"] == "recv" && x["id"] == json!(0)).map(t).unwrap_or(0);
        let init_sent = h.iter().find(|x| x["ev"] == "send" && x["id"] == json!(0)).map(t).unwrap_or(0);
        levels.push((6, init_sent, init));
        for x in h.iter().filter(|x| x["ev"] == "level") {
            let ans = h.iter().find(|y| y["ev"] == "recv" && y["id"] == x["id"]).map(t).unwrap_or(u64::MAX);
            levels.push((sev(x["l"].as_str().unwrap()), t(x), ans));
        }
        // calls: (id, sent, answered, failed)
        let mut calls: Vec<(i64, u64, u64, bool)> = vec![];
        for x in h.iter().filter(|x| x["ev"] == "send" && x.get("tool").is_some()) {
            let Some(y) = h.iter().find(|y| y["ev"] == "recv" && y["id"] == x["id"]) else {
                return violation("no-answer", format!("call {} was never answered", x["id"]));
            };
            calls.push((x["id"].as_i64().unwrap(), t(x), t(y), y["msg"].get("error").is_some()));
        }
        let notes: Vec<&Value> = h.iter().filter(|x| x["ev"] == "note" && x["msg"]["method"] == "notifications/message").collect();
        // the most verbose level that may have been in force when a notification was emitted, i.e.
        // at some moment during a tool call that was running before the notification arrived
        for n in &notes {
            let l = sev(n["msg"]["params"]["level"].as_str().unwrap_or("?"));
            if l < 0 {
                return violation("unknown-level", format!("{}", n["msg"]));
            }
            let tn = t(n);
            let running: Vec<_> = calls.iter().filter(|c| c.1 <= tn).collect();
            let from = running.iter().filter(|c| c.2 >= tn).map(|c| c.1).min().or(running.iter().map(|c| c.1).max());
            let Some(from) = from else { return violation("log-from-nowhere", format!("a log message before any tool call: {}", n["msg"])) };
            // levels possibly in force during [from, tn]
            let mut allowed = -1;
            for (i, lv) in levels.iter().enumerate() {
                let superseded = levels[i + 1..].iter().any(|m| m.2 < from && m.1 > lv.2);
                if lv.1 <= tn && !superseded {
                    allowed = allowed.max(lv.0);
                }
            }
            if l > allowed {
                return violation("below-level", format!("a {} message at {tn} ns although the level in force was {}: {}", LEVELS[l as usize], LEVELS[allowed.max(0) as usize], n["msg"]));
            }
        }
        // rate: emissions of calls that ran inside [a, b]
        let ts: Vec<u64> = notes.iter().map(|n| t(n)).collect();
        for (i, tn) in ts.iter().enumerate() {
            let max = 50 * ((tn - init_sent) / 1_000_000_000 + 2);
            if i as u64 + 1 > max {
                return violation("rate", format!("{} messages in the first {} ns of the session", i + 1, tn - init_sent));
            }
        }
        // between two quiet points: nothing was outstanding at a, so what arrives later was emitted later
        for (ai, a) in calls.iter().enumerate() {
            let ta = a.1;
            if calls[..ai].iter().any(|c| c.2 > ta) || ai == 0 {
                continue;
            }
            // answered calls may still have a message on its way: skip those that arrive right after
            let mut k = 0u64;
            let quiet = calls[..ai].iter().all(|c| c.2 + 250_000_000 < ta);
            for tn in ts.iter().filter(|tn| **tn > ta + if quiet { 0 } else { 50_000_000 }) {
                k += 1;
                let max = 50 * ((tn - ta) / 1_000_000_000 + 2);
                if k > max {
                    return violation("rate", format!("{k} messages within {} ns", tn - ta));
                }
            }
        }
        // completeness: a failing call, alone, below the limit, with the level settled, is reported
        let mut dropped = false;
        for (i, c) in calls.iter().enumerate() {
            if !c.3 {
                dropped = true;
                continue;
            }
            let alone = calls.iter().enumerate().all(|(j, d)| j == i || d.2 < c.1 || d.1 > c.2);
            let settled = levels.iter().all(|l| l.2 < c.1 || l.1 > c.2);
            if !alone || !settled {
                continue;
            }
            let level = levels.iter().filter(|l| l.2 < c.1).max_by_key(|l| l.1).map(|l| l.0).unwrap_or(-1);
            // with concurrent level changes earlier the winner is unknown
            let ambiguous = levels.iter().any(|l| levels.iter().any(|m| l.1 < m.1 && m.1 <= l.2 && l.2 < c.1));
            if level < 3 || ambiguous {
                continue;
            }
            let recent = ts.iter().filter(|x| **x > c.1.saturating_sub(1_100_000_000) && **x <= c.2).count();
            if recent >= 48 {
                continue;
            }
            let next = calls.iter().filter(|d| d.1 > c.2).map(|d| d.1).min().unwrap_or(u64::MAX);
            let until = next.max(c.2 + 2_000_000_000);
            let found = notes.iter().any(|n| t(n) >= c.1 && t(n) <= until && n["msg"]["params"]["level"] == "error");
            if !found {
                return violation("failure-not-logged", format!("call {} failed at {} ns, no other call was running, {recent} messages in the last second, level {}: no error message was sent", c.0, c.2, LEVELS[level as usize]));
            }
        }
        // the same for groups of calls that overlap: no more messages than fit in the window can
        // have been due, so every failure of the group is reported
        let mut i = 0;
        while i < calls.len() {
            let (start, mut end, mut j) = (calls[i].1, calls[i].2, i + 1);
            while j < calls.len() && calls[j].1 <= end {
                end = end.max(calls[j].2);
                j += 1;
            }
            let fails = calls[i..j].iter().filter(|c| c.3).count();
            let next = calls.get(j).map(|d| d.1).unwrap_or(u64::MAX);
            let settled = levels.iter().all(|l| l.2 < start || l.1 > end);
            let ambiguous = levels.iter().any(|l| levels.iter().any(|m| l.1 < m.1 && m.1 <= l.2 && l.2 < start));
            let level = levels.iter().filter(|l| l.2 < start).max_by_key(|l| l.1).map(|l| l.0).unwrap_or(-1);
            let due = if level >= 7 { 2 * (j - i) } else { fails };
            let recent = ts.iter().filter(|x| **x > start.saturating_sub(1_100_000_000) && **x < start).count();
            if j - i > 1 && fails > 0 && settled && !ambiguous && level >= 3 && recent + due <= 48 && next > end.saturating_add(2_000_000_000) {
                let found = notes.iter().filter(|n| t(n) >= start && t(n) < next && n["msg"]["params"]["level"] == "error").count();
                if found < fails {
                    return violation("failure-not-logged", format!("{fails} of {} overlapping calls from {start} to {end} ns failed, {recent} messages in the second before, level {}: {found} error messages were sent", j - i, LEVELS[level as usize]));
                }
            }
            i = j;
        }
        Verdict::Held(!ts.is_empty() && (dropped || calls.len() > ts.len()))
    }
}
