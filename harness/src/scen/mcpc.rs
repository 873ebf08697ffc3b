//! The real stdio MCP server running inside the simulation, and a plain-thread client that
//! talks newline-delimited JSON-RPC to it over simulated pipes bound to descriptors 0 and 1.
use crate::sim::{self, Guard, interpose, net};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{BufRead, BufReader, Write};
use std::os::fd::FromRawFd;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

pub struct Client {
    out: Mutex<Option<File>>,
    st: Arc<(Mutex<State>, Condvar)>,
    pub server: Mutex<Option<std::thread::JoinHandle<String>>>,
}
#[derive(Default)]
pub struct State {
    pub answers: BTreeMap<i64, Value>,
    pub requests: Vec<Value>,
    pub notifications: u64,
    pub closed: bool,
    /// the client reads nothing until this moment
    pub pause_until: u64,
}

pub fn sleep_ms(ms: u64) {
    if ms > 0 {
        std::thread::sleep(Duration::from_millis(ms));
    }
}

/// Bind fds 0/1 to fresh pipes and start the server thread.
pub fn start() -> Arc<Client> {
    let (cin, cout);
    {
        let _g = Guard::new();
        let (a, b) = net::socketpair();
        net::bind_std(0, a);
        cout = net::install(b);
        let (a, b) = net::socketpair();
        net::bind_std(1, a);
        cin = net::install(b);
    }
    let server = std::thread::spawn(|| {
        let r = rudof_mcp::server::run_mcp(rudof_mcp::server::McpConfig::default());
        sim::record(json!({"ev": "server-end", "err": r.as_ref().err().map(|e| e.to_string())}));
        match r {
            Ok(()) => "ok".to_string(),
            Err(e) => format!("error: {e}"),
        }
    });
    let st = Arc::new((Mutex::new(State::default()), Condvar::new()));
    let c = Arc::new(Client { out: Mutex::new(Some(unsafe { File::from_raw_fd(cout) })), st: st.clone(), server: Mutex::new(Some(server)) });
    let rd = unsafe { File::from_raw_fd(cin) };
    std::thread::spawn(move || {
        let mut rd = BufReader::new(rd);
        loop {
            let until = st.0.lock().unwrap().pause_until;
            let now = sim::now_ns();
            if until > now {
                std::thread::sleep(Duration::from_nanos(until - now));
            }
            let mut l = String::new();
            match rd.read_line(&mut l) {
                Ok(0) | Err(_) => {
                    st.0.lock().unwrap().closed = true;
                    st.1.notify_all();
                    sim::record(json!({"ev": "eof"}));
                    return;
                },
                _ => {},
            }
            let v: Value = match serde_json::from_str(&l) {
                Ok(v) => v,
                Err(e) => {
                    sim::record(json!({"ev": "garbage", "line": l, "err": e.to_string()}));
                    continue;
                },
            };
            let mut g = st.0.lock().unwrap();
            if v.get("method").is_some() {
                if v.get("id").is_some() {
                    sim::record(json!({"ev": "srvreq", "msg": v}));
                    g.requests.push(v);
                } else {
                    sim::record(json!({"ev": "note", "msg": v}));
                    g.notifications += 1;
                }
            } else if let Some(id) = v["id"].as_i64() {
                sim::record(json!({"ev": "recv", "id": id, "err": v.get("error").is_some() || v["result"]["isError"] == json!(true), "msg": v}));
                g.answers.insert(id, v);
            } else {
                sim::record(json!({"ev": "other", "msg": v}));
            }
            drop(g);
            st.1.notify_all();
        }
    });
    c
}
impl Client {
    pub fn raw(&self, line: &str) -> bool {
        let mut g = self.out.lock().unwrap();
        let Some(f) = g.as_mut() else { return false };
        f.write_all(line.as_bytes()).and_then(|_| f.write_all(b"\n")).is_ok()
    }
    pub fn send(&self, id: i64, method: &str, params: Value) -> bool {
        sim::record(json!({"ev": "send", "id": id, "method": method, "params": params}));
        self.raw(&json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}).to_string())
    }
    pub fn tool(&self, id: i64, name: &str, args: &Value) -> bool {
        sim::record(json!({"ev": "send", "id": id, "tool": name, "args": args}));
        self.raw(&json!({"jsonrpc": "2.0", "id": id, "method": "tools/call", "params": {"name": name, "arguments": args}}).to_string())
    }
    pub fn notify(&self, method: &str, params: Value) -> bool {
        self.raw(&json!({"jsonrpc": "2.0", "method": method, "params": params}).to_string())
    }
    /// wait for the answer to `id`; None when the server went away or `secs` of simulated time passed
    pub fn wait(&self, id: i64, secs: u64) -> Option<Value> {
        let mut g = self.st.0.lock().unwrap();
        let t0 = sim::now_ns();
        loop {
            if let Some(v) = g.answers.get(&id) {
                return Some(v.clone());
            }
            let el = sim::now_ns() - t0;
            if g.closed || el >= secs * 1_000_000_000 {
                return None;
            }
            g = self.st.1.wait_timeout(g, Duration::from_nanos(secs * 1_000_000_000 - el)).unwrap().0;
        }
    }
    pub fn state(&self) -> std::sync::MutexGuard<'_, State> {
        self.st.0.lock().unwrap()
    }
    pub fn init(&self) -> bool {
        self.send(0, "initialize", json!({"protocolVersion": "2025-03-26", "capabilities": {"sampling": {}}, "clientInfo": {"name": "dst", "version": "1"}}));
        let ok = self.wait(0, 600).is_some();
        self.notify("notifications/initialized", json!({}));
        ok
    }
    pub fn pause(&self, ms: u64) {
        self.st.0.lock().unwrap().pause_until = sim::now_ns() + ms * 1_000_000;
    }
    /// close our end of the server's stdin
    pub fn hang_up(&self) {
        *self.out.lock().unwrap() = None;
    }
    pub fn join(&self) -> String {
        let h = self.server.lock().unwrap().take();
        match h {
            Some(h) => h.join().unwrap_or_else(|_| "panic".into()),
            None => "joined".into(),
        }
    }
}

// ---------------------------------------------------------------- the little data universe
pub const NS: &str = "http://e.org/";
pub fn triple(i: u64) -> String {
    // several subjects share predicates, so that unions interleave in sorted dumps
    match i % 4 {
        0 => format!("<{NS}s{i}> <{NS}p> \"v{i}\" .\n"),
        1 => format!("<{NS}s{}> <{NS}q{i}> <{NS}o{i}> .\n", i % 3),
        2 => format!("<{NS}s{i}> <{NS}n> \"{i}\"^^<http://www.w3.org/2001/XMLSchema#integer> .\n"),
        _ => format!("<{NS}s{i}> <{NS}l> \"t\\u00e9xt {i} \\\"q\\\"\"@en .\n"),
    }
}
pub fn triple_key(i: u64) -> String {
    match i % 4 {
        0 => format!("<{NS}s{i}> <{NS}p> \"v{i}\" ."),
        1 => format!("<{NS}s{}> <{NS}q{i}> <{NS}o{i}> .", i % 3),
        2 => format!("<{NS}s{i}> <{NS}n> \"{i}\"^^<http://www.w3.org/2001/XMLSchema#integer> ."),
        _ => format!("<{NS}s{i}> <{NS}l> \"t\u{e9}xt {i} \\\"q\\\"\"@en ."),
    }
}
pub fn doc(ids: &[u64]) -> String {
    ids.iter().map(|i| triple(*i)).collect()
}
/// which of `universe` appear in an N-Triples dump; Err lists lines that are none of them
pub fn parse_dump(nt: &str, universe: u64) -> Result<u128, String> {
    let keys: BTreeMap<String, u64> = (0..universe).map(|i| (triple_key(i), i)).collect();
    let mut set = 0u128;
    for l in nt.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        let n = l.replace("\\u00e9", "\u{e9}").replace("\\u00E9", "\u{e9}");
        match keys.get(&n) {
            Some(i) => set |= 1 << i,
            None => return Err(format!("unexpected line in dump: {l}")),
        }
    }
    Ok(set)
}
pub fn mask(ids: &[u64]) -> u128 {
    ids.iter().fold(0, |a, i| a | 1 << i)
}
pub fn ids_of(v: &Value) -> Vec<u64> {
    v.as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default()
}
pub fn unmask(m: u128) -> Vec<u64> {
    (0..128).filter(|i| m >> i & 1 == 1).collect()
}
/// structured content of a successful tool answer
pub fn content(msg: &Value) -> &Value {
    &msg["result"]["structuredContent"]
}
pub fn use_bind() {
    let _ = interpose::bind_console;
}
