//! M01: acknowledged loads survive a crash; M02: failed or interrupted saves never lose or tear
//! what was saved before.
use super::mcpc::{self, *};
use crate::runner::*;
use crate::sim::{self, fs, rng::Rng};
use serde_json::{Value, json};

pub struct Durable {
    /// inject disk errors (M02) instead of pure crashes (M01)
    pub disk: bool,
}
const U: u64 = 100;

/// term of the `i`-th triple and its normalised form
fn rich(i: u64) -> String {
    let x = "http://www.w3.org/2001/XMLSchema#";
    match i % 10 {
        0 => format!("<{NS}s{i}> <{NS}p> \"v{i}\" .\n"),
        1 => format!("<{NS}s{}> <{NS}q{i}> <{NS}o{i}> .\n", i % 3),
        2 => format!("<{NS}s{i}> <{NS}n> \"{i}\"^^<{x}integer> .\n"),
        3 => format!("<{NS}s{i}> <{NS}l> \"t\\u00e9xt {i} \\\"q\\\"\"@en .\n"),
        4 => format!("<{NS}s{i}> <{NS}p> \"line {i}\\nnext\\tcol\\r\\\\n # <x> .\" .\n"),
        5 => format!("<{NS}s{i}> <{NS}p> \"{}{i}\" .\n", "long ".repeat(if i == 95 { 30_000 } else { 1_700 })),
        6 => format!("<{NS}s{i}> <{NS}e{i}> \"\" .\n"),
        7 => format!("<{NS}s{i}> <{NS}l> \"\\U0001F600 \u{4e2d} {i}\"@en-gb .\n"),
        8 => format!("_:b{i} <{NS}b> \"blank {i}\" .\n"),
        _ => format!("<{NS}s{i}/\u{e9}> <{NS}d> \"{i}\\u0007\"^^<{NS}dt> .\n"),
    }
}
fn rich_doc(ids: &[u64]) -> String {
    ids.iter().map(|i| rich(*i)).collect()
}
fn normal(nt: &str) -> Result<Vec<String>, String> {
    let d = super::cli::quads("nt", nt.as_bytes())?;
    Ok(d.iter()
        .map(|q| {
            let s = q.subject.to_string();
            format!("{} {} {}", if s.starts_with("_:") { "_:b" } else { &s }, q.predicate, q.object)
        })
        .collect())
}
fn dump_set(nt: &str) -> Result<u128, String> {
    static KEYS: std::sync::OnceLock<std::collections::HashMap<String, u64>> = std::sync::OnceLock::new();
    let keys = KEYS.get_or_init(|| (0..U).map(|i| (normal(&rich(i)).unwrap().remove(0), i)).collect());
    let mut set = 0u128;
    for t in normal(nt)? {
        match keys.get(&t) {
            Some(i) => set |= 1 << i,
            None => return Err(format!("a triple that nobody loaded: {}", t.chars().take(300).collect::<String>())),
        }
    }
    Ok(set)
}
/// file that a load reads, if it is told to
fn path(life: usize, op: usize) -> String {
    format!("/w/l{life}o{op}.dat")
}

fn image(w: &Value) -> fs::Image {
    let mut im = fs::Image::new();
    im.insert("/state".into(), fs::Node::Dir);
    im.insert("/home".into(), fs::Node::Dir);
    im.insert("/w".into(), fs::Node::Dir);
    for (i, l) in w["ops"].as_array().unwrap().iter().enumerate() {
        for (k, op) in l["ops"].as_array().unwrap().iter().enumerate() {
            if op["file"] == json!(true) {
                im.insert(path(i, k), fs::Node::Text(rich_doc(&ids_of(&op["ids"]))));
            }
        }
    }
    im
}

impl Scenario for Durable {
    fn property(&self) -> &'static str {
        if self.disk { "M02" } else { "M01" }
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> &'static str {
        "each run is 1-4 lives of the server joined by crashes (process kill or power loss at a random disk operation or idle moment); non-trivial when at least one acknowledged load preceded a restart"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rudof_mcp stdio server (run_mcp), rmcp, tokio runtime", "RudofMcpService state save/restore", "rudof_lib load/serialize", "std::fs on the simulated disk"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["disk (volatile/durable model)", "pipes, clock, scheduler, entropy", "MCP client"]
    }
    fn generate(&self, r: &mut Rng, _t: Tier) -> Value {
        let lives = r.range(1, 3);
        let mut ls = vec![];
        for _ in 0..lives {
            let n = r.range(1, 5);
            let conc = if self.disk { 0 } else { r.below(3) };
            let mut ops = vec![];
            for _ in 0..n {
                let k = if r.pct(15) { 12 } else { r.range(1, 4) };
                let ids: Vec<u64> = (0..k).map(|_| r.below(U)).collect();
                // a pipelined client sends the next request before the answer arrives
                let wait = conc == 0 || r.pct(30);
                ops.push(json!({"ids": ids, "gap": *r.pick(&[0u64, 0, 0, 1, 20, 3000]), "wait": wait, "big": r.pct(15), "fmt": *r.pick(&["ntriples", "ntriples", "turtle", "nquads"]), "file": r.pct(15), "parts": r.range(1, 2), "also": if r.pct(70) { 0 } else { r.range(1, 6) }}));
            }
            let end = if r.pct(50) { "kill" } else { "power" };
            ls.push(json!({"ops": ops, "end": end, "endgap": *r.pick(&[0u64, 0, 1, 50, 5000]), "crash_ppm": *r.pick(&[0u64, 30_000, 150_000]), "clean": r.pct(15), "drain": r.pct(50)}));
        }
        json!({"ops": ls, "prior": r.pct(30)})
    }
    fn next(&self, w: &Value, seed: u64, done: &[Out]) -> Next {
        let lives = w["ops"].as_array().unwrap();
        // a life that ended otherwise than planned
        for (i, o) in done.iter().enumerate() {
            if o.gave_up() {
                return Next::Done(Verdict::Inconclusive(format!("life {i}: {} {}", o.status, o.msg)));
            }
            if o.status == "deadlock" || o.status == "abort" || o.status == "signal" || o.status == "panic" {
                return Next::Done(violation("server-died", format!("life {i} of the server ended by itself: {} {} {}", o.status, o.msg, tail(&o.stderr))));
            }
        }
        if done.len() <= lives.len() {
            let i = done.len();
            let mut c = draw_cfg(seed, i as u64);
            if i < lives.len() {
                c.rates.push(rate("crash", "kill", lives[i]["crash_ppm"].as_u64().unwrap() / 2));
                c.rates.push(rate("crash", "power", lives[i]["crash_ppm"].as_u64().unwrap() / 2));
                c.rates.push(rate("write", "short", 60_000));
                c.rates.push(rate("write", "eintr", 40_000));
                c.max_faults = 8;
                if self.disk {
                    for (cl, k, p) in [
                        ("write", "eio", 40_000),
                        ("write", "enospc", 40_000),
                        ("write", "full", 60_000),
                        ("fsync", "eio", 100_000),
                        ("rename", "eio", 80_000),
                        ("rename", "enospc", 40_000),
                        ("open_w", "enospc", 60_000),
                        ("open_w", "emfile", 40_000),
                        ("open_w", "eacces", 40_000),
                    ] {
                        c.rates.push(rate(cl, k, p));
                    }
                }
            }
            let mut p = Phase::new(c);
            p.env = vec![("RUDOF_MCP_STATE_PATH".into(), "/sim/state/data.json".into()), ("HOME".into(), "/sim/home".into())];
            p.image = if i == 0 { image(w) } else { done[i - 1].image() };
            return Next::Run(Box::new(p));
        }
        Next::Done(self.judge(w, done))
    }
    fn body(&self, w: &Value, phase: usize, _carry: &Value) -> Value {
        let lives = w["ops"].as_array().unwrap();
        let c = mcpc::start();
        if !c.init() {
            return json!({"noinit": true, "threads": sim::threads_json(), "server": c.server.lock().unwrap().as_ref().map(|h| h.is_finished())});
        }
        // what does the restarted server serve?
        c.tool(1, "export_rdf_data", &json!({"format": "ntriples"}));
        let a = c.wait(1, 3600);
        let Some(a) = a else { return json!({"noexport": true}) };
        let dump = content(&a)["data"].as_str().unwrap_or("").to_string();
        let err = a.get("error").is_some() || a["result"]["isError"] == json!(true);
        sim::record(json!({"ev": "restart-dump", "dump": dump, "err": err}));
        if phase == lives.len() {
            return json!({});
        }
        let life = &lives[phase];
        let mut id = 10;
        for (k, op) in life["ops"].as_array().unwrap().iter().enumerate() {
            mcpc::sleep_ms(op["gap"].as_u64().unwrap());
            let ids = ids_of(&op["ids"]);
            let mut data: Vec<String> = if op["file"] == json!(true) {
                vec![format!("/sim{}", path(phase, k))]
            } else {
                let n = (ids.len() / op["parts"].as_u64().unwrap_or(1) as usize).max(1);
                ids.chunks(n).map(rich_doc).collect()
            };
            if op["big"] == json!(true) && op["file"] != json!(true) {
                data[0].push_str(&format!("# {}\n", "x".repeat(9000)));
            }
            // calls that change nothing
            match op["also"].as_u64().unwrap_or(0) {
                1 => c.tool(1000 + id, "load_rdf_data_from_sources", &json!({"data": [format!("<{NS}x> <{NS}never> <{NS}y> .\n<{NS}broken> .\n")], "data_format": "ntriples"})),
                2 => c.tool(1000 + id, "execute_sparql_query", &json!({"query": "CONSTRUCT WHERE { ?s ?p ?o }", "result_format": "ntriples"})),
                3 => c.tool(1000 + id, "load_rdf_data_from_sources", &json!({"data": [format!("<{NS}x> <{NS}never> <{NS}y> .\n"), "/sim/w/missing.ttl"], "data_format": "turtle"})),
                4 => c.tool(1000 + id, "validate_shex", &json!({"schema": format!("<{NS}S> {{ <{NS}p> . }}"), "maybe_node": format!("<{NS}s0>"), "maybe_shape": format!("<{NS}S>")})),
                5 => c.tool(1000 + id, "load_rdf_data_from_sources", &json!({"data": [], "data_format": "turtle"})),
                6 => c.tool(1000 + id, "export_rdf_data", &json!({"format": "turtle"})),
                _ => true,
            };
            sim::record(json!({"ev": "load", "id": id, "ids": ids, "faults": sim::sim().fault_total}));
            c.tool(id, "load_rdf_data_from_sources", &json!({"data": data, "data_format": op["fmt"].as_str().unwrap_or("ntriples")}));
            if op["wait"] == json!(true) {
                c.wait(id, 3600);
                sim::record(json!({"ev": "loaded", "id": id, "faults": sim::sim().trace.faults}));
            }
            id += 1;
        }
        if life["drain"] == json!(true) {
            for k in 10..id {
                c.wait(k, 3600);
            }
        }
        mcpc::sleep_ms(life["endgap"].as_u64().unwrap());
        if life["clean"] == json!(true) {
            c.hang_up();
            c.join();
        }
        let kind = life["end"].as_str().unwrap();
        let _g = sim::Guard::new();
        let s = sim::sim();
        let arg = s.r_fault.next();
        let a = if s.cfg.replay.is_some() { 1 } else { arg };
        let im = fs::image_after(kind, a | 1);
        sim::end_with("crash", &format!("planned {kind}"), json!({"image": im}));
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        match t {
            Tier::Quick => (1_000_000, 45),
            Tier::Thorough => (3_000_000, 1200),
        }
    }
}
pub fn tail(s: &str) -> String {
    let n = s.chars().count();
    s.chars().skip(n.saturating_sub(700)).collect()
}
impl Durable {
    fn judge(&self, _w: &Value, done: &[Out]) -> Verdict {
        // must ⊆ served ⊆ may, after every restart
        let mut must: u128 = 0;
        let mut may: u128 = 0;
        let mut nontrivial = false;
        for (i, o) in done.iter().enumerate() {
            if o.extra["noinit"] == json!(true) || o.extra["noexport"] == json!(true) {
                return violation("no-restart", format!("life {i}: the restarted server did not answer"));
            }
            let Some(d) = o.history.iter().find(|h| h["ev"] == "restart-dump") else {
                continue; // crashed before it answered
            };
            if d["err"] == json!(true) && must != 0 {
                return violation("lost-acked-load", format!("life {i}: export after restart fails, {} triples had been acknowledged", must.count_ones()));
            }
            let set = match dump_set(d["dump"].as_str().unwrap_or("")) {
                Ok(s) => s,
                Err(e) => return violation("corrupt-state", format!("life {i}: {e}")),
            };
            if must & !set != 0 {
                let key = if self.disk { "saved-state-lost" } else { "lost-acked-load" };
                return violation(key, format!("life {i}: triples {:?} were acknowledged before the crash but are gone after the restart (served {:?})", unmask(must & !set), unmask(set)));
            }
            if set & !may != 0 {
                return violation("invented-data", format!("life {i}: triples {:?} served after the restart were never loaded", unmask(set & !may)));
            }
            if must != 0 {
                nontrivial = true;
            }
            // what is durable now stays durable: the restart served it from the state file
            must = set;
            may = set;
            let mut sent: Vec<(i64, u128, u64)> = vec![];
            for h in &o.history {
                match h["ev"].as_str().unwrap_or("") {
                    "load" => {
                        let m = mask(&ids_of(&h["ids"]));
                        may |= m;
                        sent.push((h["id"].as_i64().unwrap(), m, h["stamp"].as_u64().unwrap()));
                    },
                    "recv" if h["err"] == json!(false) => {
                        if let Some((_, m, _)) = sent.iter().find(|x| Some(x.0) == h["id"].as_i64()) {
                            if !self.disk {
                                must |= m;
                            }
                        }
                    },
                    _ => {},
                }
            }
            if self.disk {
                // sequential client: a load whose whole save met no refusing fault makes every
                // acknowledged load so far durable
                let mut acc: u128 = set;
                let mut nf = 0usize;
                let mut full = false;
                for h in &o.history {
                    if h["ev"] == "loaded" {
                        let fs = h["faults"].as_array().cloned().unwrap_or_default();
                        let fresh = &fs[nf.min(fs.len())..];
                        let hard = fresh.iter().any(|f| !matches!(f["kind"].as_str().unwrap_or(""), "short" | "eintr" | "one"));
                        full |= fs.iter().any(|f| f["kind"] == "full");
                        nf = fs.len();
                        let id = h["id"].as_i64();
                        let acked = o.history.iter().any(|x| x["ev"] == "recv" && x["id"].as_i64() == id && x["err"] == json!(false));
                        if acked && let Some((_, m, _)) = sent.iter().find(|x| Some(x.0) == id) {
                            acc |= m;
                            if !hard && !full {
                                must |= acc;
                            }
                        }
                    }
                }
            }
        }
        Verdict::Held(nontrivial)
    }
}
