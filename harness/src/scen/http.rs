//! A small HTTP/1.1 server made of simulated threads, listening on a simulated port. What each
//! request gets (answer, error status, refusal, cut connection, delay, framing) is scripted.
use crate::sim;
use serde_json::{Value, json};
use std::io::{BufRead, BufReader, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::Duration;

pub struct Req {
    pub n: usize,
    pub path: String,
    pub query: String,
    pub accept: String,
}
/// status, content type, body
pub type Answer = (u16, String, Vec<u8>);
pub type Handler = Arc<dyn Fn(&Req) -> Answer + Send + Sync>;

fn percent(s: &str) -> String {
    let mut out = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'+' => out.push(b' '),
            b'%' if i + 2 < b.len() => {
                out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?'));
                i += 2;
            },
            c => out.push(c),
        }
        i += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}

/// listen on `port`; `script[i]` says how request i (in order of arrival) is treated
pub fn serve(port: u16, script: Vec<Value>, h: Handler) {
    let l = TcpListener::bind(("127.0.0.1", port)).expect("bind");
    let script = Arc::new(script);
    let count = Arc::new(AtomicUsize::new(0));
    std::thread::spawn(move || {
        loop {
            let Ok((s, _)) = l.accept() else { return };
            let (script, count, h) = (script.clone(), count.clone(), h.clone());
            std::thread::spawn(move || {
                let _ = connection(s, &script, &count, &h);
            });
        }
    });
}

fn connection(s: TcpStream, script: &[Value], count: &AtomicUsize, h: &Handler) -> std::io::Result<()> {
    let mut w = s.try_clone()?;
    let mut rd = BufReader::new(s);
    loop {
        let mut line = String::new();
        if rd.read_line(&mut line)? == 0 {
            return Ok(());
        }
        let target = line.split(' ').nth(1).unwrap_or("/").to_string();
        let mut accept = String::new();
        loop {
            let mut l = String::new();
            if rd.read_line(&mut l)? == 0 {
                return Ok(());
            }
            if l.trim().is_empty() {
                break;
            }
            if let Some((k, v)) = l.split_once(':')
                && k.eq_ignore_ascii_case("accept")
            {
                accept = v.trim().to_string();
            }
        }
        let n = count.fetch_add(1, SeqCst);
        let (path, qs) = target.split_once('?').unwrap_or((&target, ""));
        let query = qs.split('&').find_map(|p| p.strip_prefix("query=")).map(percent).unwrap_or_default();
        let req = Req { n, path: path.to_string(), query, accept };
        sim::record(json!({"ev": "req", "n": n, "path": req.path, "q": req.query}));
        let b = script.get(n).cloned().unwrap_or(json!({}));
        let ms = b["delay"].as_u64().unwrap_or(0);
        if ms > 0 {
            if ms >= 20_000 {
                // clients may give up
                sim::record(json!({"ev": "slow", "n": n, "fault": "server:slow"}));
            }
            std::thread::sleep(Duration::from_millis(ms));
        }
        let kind = b["k"].as_str().unwrap_or("ok");
        let done = |status: u16, whole: bool| sim::record(json!({"ev": "rep", "n": n, "q": req.query, "path": req.path, "status": status, "whole": whole, "ra": b["ra"], "fault": if kind == "ok" { None } else { Some(format!("server:{kind}")) }, "slow": ms}));
        if kind == "drop" {
            done(0, false);
            return Ok(());
        }
        let (mut status, mut ty, mut body) = h(&req);
        let mut extra = String::new();
        let mut good = status == 200;
        match kind {
            "429" => {
                (status, ty, body) = (429, "text/plain".into(), b"slow down".to_vec());
                if let Some(ra) = b["ra"].as_str() {
                    extra = format!("Retry-After: {ra}\r\n");
                }
                good = false;
            },
            "status" => {
                status = b["s"].as_u64().unwrap() as u16;
                (ty, body) = match b["b"].as_str().unwrap() {
                    "html" => ("text/html".into(), b"<html><body>error</body></html>".to_vec()),
                    "empty" => ("text/plain".into(), vec![]),
                    // an answer without solutions
                    "none" if body.starts_with(b"{") && body.windows(9).any(|x| x == b"\"boolean\"") => (ty, b"{\"head\":{},\"boolean\":false}".to_vec()),
                    "none" if body.starts_with(b"{") => (ty, b"{\"head\":{\"vars\":[]},\"results\":{\"bindings\":[]}}".to_vec()),
                    "none" => (ty, vec![]),
                    // an error page that happens to parse as the format asked for
                    "valid" => (ty, b"# error\n".to_vec()),
                    _ => (ty, body),
                };
                good = false;
            },
            "redirect" => {
                extra = format!("Location: {target}\r\n");
                (status, body) = (if n % 2 == 0 { 302 } else { 307 }, vec![]);
            },
            "garbage" => {
                body = match b["b"].as_str().unwrap() {
                    "html" => b"<html><body>error</body></html>".to_vec(),
                    "empty" => vec![],
                    "half" => body[..body.len() / 2].to_vec(),
                    // (a cut that looks like the regular end)
                    "part" => body[..b["at"].as_u64().unwrap_or(0) as usize % body.len().max(1)].to_vec(),
                    _ => b"{\"head\":{}}".to_vec(),
                };
                good = false;
            },
            _ => {},
        }
        let framing = b["f"].as_str().unwrap_or("len");
        let mut out = format!("HTTP/1.1 {status} X\r\nContent-Type: {ty}\r\n{extra}");
        match framing {
            "chunked" => out.push_str("Transfer-Encoding: chunked\r\n\r\n"),
            "close" => out.push_str("Connection: close\r\n\r\n"),
            _ => out.push_str(&format!("Content-Length: {}\r\n\r\n", body.len())),
        }
        let mut out = out.into_bytes();
        let head = out.len();
        if framing == "chunked" {
            let step = b["step"].as_u64().unwrap_or(700) as usize;
            for c in body.chunks(step.max(1)) {
                out.extend(format!("{:x}\r\n", c.len()).bytes());
                out.extend(c);
                out.extend(b"\r\n");
            }
            out.extend(b"0\r\n\r\n");
        } else {
            out.extend(&body);
        }
        if kind == "stall" {
            // part of the answer, and then nothing for half a day
            let keep = b["at"].as_u64().unwrap() as usize % out.len();
            done(status, false);
            w.write_all(&out[..keep])?;
            std::thread::sleep(Duration::from_secs(43_200));
            return Ok(());
        }
        if kind == "cut" {
            // the connection ends early; with a length or chunks the client can tell
            let c = b["at"].as_u64().unwrap();
            let mut keep = if b["head"] == json!(true) { (c as usize) % head } else { head + (c as usize) % (out.len() - head).max(1) };
            if b["line"] == json!(true) && let Some(e) = out[..keep].iter().rposition(|x| *x == b'\n') {
                keep = e + 1;
            }
            done(status, false);
            w.write_all(&out[..keep.min(out.len() - 1)])?;
            if b["rst"] == json!(true) {
                use std::os::fd::AsRawFd;
                let _g = sim::Guard::new();
                sim::net::reset(w.as_raw_fd());
            }
            return Ok(());
        }
        w.write_all(&out)?;
        done(status, good);
        if framing == "close" || b["bye"] == json!(true) {
            return Ok(());
        }
    }
}
