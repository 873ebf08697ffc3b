//! The data generator. G01: the seed decides the data, whatever the schedule, hash seeds, CPUs
//! and output settings; G02: a successful run has written all of the data it reports, and the
//! data are what the schema and the configuration ask for.
use super::cli::{code, env, quads, run_main};
use crate::runner::*;
use crate::sim::{self, fs, rng::Rng};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

pub struct Gen {
    pub faults: bool,
}

const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
const EX: &str = "http://example.org/";
const TYPES: [&str; 7] = ["string", "integer", "decimal", "boolean", "date", "dateTime", "anyURI"];
const NAMES: [&str; 8] = ["name", "title", "email", "description", "p1", "p2", "p3", "p4"];
const RDF_TYPE: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type";

fn num(v: &Value, dec: bool) -> String {
    let x = v.as_i64().unwrap();
    if dec { format!("{}.{:02}", x, 25) } else { x.to_string() }
}
fn shex(w: &Value) -> String {
    let mut t = format!("PREFIX : <{EX}>\nPREFIX xsd: <{XSD}>\n");
    for (i, s) in w["ops"].as_array().unwrap().iter().enumerate() {
        let props: Vec<String> = s
            .as_array()
            .unwrap()
            .iter()
            .map(|p| {
                let d = p["d"].as_u64().map(|d| TYPES[d as usize]);
                let mut v = d.map_or_else(|| format!("@:S{}", target(w, p)), |d| format!("xsd:{d}"));
                for (k, n) in [("lo", "MININCLUSIVE"), ("hi", "MAXINCLUSIVE"), ("xlo", "MINEXCLUSIVE"), ("xhi", "MAXEXCLUSIVE")] {
                    if !p[k].is_null() {
                        v += &format!(" {n} {}", num(&p[k], d == Some("decimal")));
                    }
                }
                let card = match (p["min"].as_u64(), p["max"].as_u64()) {
                    (None, None) => String::new(),
                    (Some(0), None) => " *".into(),
                    (Some(1), None) => " +".into(),
                    (Some(0), Some(1)) => " ?".into(),
                    (Some(n), None) => format!(" {{{n},}}"),
                    (a, Some(b)) => format!(" {{{},{b}}}", a.unwrap_or(0)),
                };
                format!("  :{} {v}{card}", name(p))
            })
            .collect();
        t += &format!(":S{i} {{\n{}\n}}\n", props.join(" ;\n"));
    }
    t
}
fn shacl(w: &Value) -> String {
    let mut t = format!("@prefix : <{EX}> .\n@prefix xsd: <{XSD}> .\n@prefix sh: <http://www.w3.org/ns/shacl#> .\n");
    for (i, s) in w["ops"].as_array().unwrap().iter().enumerate() {
        t += &format!(":S{i} a sh:NodeShape");
        for p in s.as_array().unwrap() {
            t += &format!(" ;\n  sh:property [ sh:path :{}", name(p));
            let d = p["d"].as_u64().map(|d| TYPES[d as usize]);
            t += &d.map_or_else(|| format!(" ; sh:node :S{}", target(w, p)), |d| format!(" ; sh:datatype xsd:{d}"));
            for (k, n) in [("lo", "minInclusive"), ("hi", "maxInclusive"), ("xlo", "minExclusive"), ("xhi", "maxExclusive")] {
                if !p[k].is_null() {
                    t += &format!(" ; sh:{n} {}", num(&p[k], d == Some("decimal")));
                }
            }
            for (k, n) in [("min", "minCount"), ("max", "maxCount")] {
                if !p[k].is_null() {
                    t += &format!(" ; sh:{n} {}", p[k]);
                }
            }
            t += " ]";
        }
        t += " .\n";
    }
    t
}
fn name(p: &Value) -> &'static str {
    NAMES[p["n"].as_u64().unwrap() as usize % NAMES.len()]
}
fn target(w: &Value, p: &Value) -> u64 {
    p["r"].as_u64().unwrap() % w["ops"].as_array().unwrap().len() as u64
}
/// cardinality of a property
fn card(w: &Value, p: &Value) -> (u64, Option<u64>) {
    match (p["min"].as_u64(), p["max"].as_u64()) {
        (None, None) if w["lang"] == "shex" => (1, Some(1)),
        (a, b) => (a.unwrap_or(0), b),
    }
}
fn config(w: &Value, s: &Value) -> String {
    let k = w["ops"].as_array().unwrap().len();
    let mut g = json!({});
    for f in ["property_fill_probability", "ignore_min_cardinality", "max_properties_per_instance", "property_selection_strategy", "property_count_variance", "cardinality_strategy"] {
        if !w[f].is_null() {
            g[f] = w[f].clone();
        }
    }
    if let Some(x) = w["exclude"].as_array() {
        g["excluded_properties"] = x.iter().map(|n| json!(format!("{EX}{}", NAMES[n.as_u64().unwrap() as usize]))).collect();
    }
    if let Some(x) = w["dist"].as_array() {
        let m: BTreeMap<String, Value> = (0..k).map(|i| (format!("{EX}S{i}"), if w["custom"] == json!(true) { x[i].clone() } else { json!(x[i].as_f64().unwrap() / 4.0) })).collect();
        g["entity_distribution"] = if w["custom"] == json!(true) { json!({"Custom": m}) } else { json!({"Weighted": m}) };
    }
    if let Some(o) = w["over"].as_object() {
        g["type_overrides"] = o
            .iter()
            .filter(|x| x.0.parse::<usize>().unwrap() < k)
            .map(|(i, x)| {
                let mut x = x.clone();
                if let Some(e) = x.as_object_mut().unwrap().remove("exclude") {
                    x["excluded_properties"] = e.as_array().unwrap().iter().map(|n| json!(format!("{EX}{}", NAMES[n.as_u64().unwrap() as usize]))).collect();
                }
                (format!("{EX}S{i}"), x)
            })
            .collect::<serde_json::Map<_, _>>()
            .into();
    }
    g["entity_count"] = s["n"].clone();
    if !w["seed"].is_null() && s["cliseed"] != json!(true) {
        g["seed"] = w["seed"].clone();
    }
    let mut c = json!({"generation": g, "output": {"path": "/sim/o/g.ttl"}, "parallel": {}});
    if let Some(n) = s["files"].as_u64() {
        c["output"]["parallel_writing"] = json!(true);
        c["output"]["parallel_file_count"] = json!(n);
    }
    if !s["batch"].is_null() {
        c["parallel"]["batch_size"] = s["batch"].clone();
    }
    if s["stats"] == json!(false) {
        c["output"]["write_stats"] = json!(false);
    }
    c.to_string()
}
fn args(w: &Value, s: &Value) -> Vec<String> {
    let mut a: Vec<String> = ["rudof", "generate", "-s"].iter().map(|x| x.to_string()).collect();
    a.push(if w["lang"] == "shex" { "/sim/w/s.shex".into() } else { "/sim/w/s.ttl".into() });
    let mut more = |x: &str| a.extend(x.split_whitespace().map(String::from));
    if s["conf"] == json!(true) {
        more("--generator-config /sim/w/g.json");
    }
    if s["o"] == json!(true) || s["conf"] != json!(true) {
        more("-o /sim/o/g.ttl --force-overwrite");
    }
    if s["conf"] != json!(true) || s["clin"] == json!(true) {
        more(&format!("-n {}", s["n"]));
    }
    if !w["seed"].is_null() && (s["conf"] != json!(true) || s["cliseed"] == json!(true)) {
        more(&format!("--seed {}", w["seed"]));
    }
    if let Some(n) = s["p"].as_u64() {
        more(&format!("-p {n}"));
    }
    more(&format!("-r {}", s["fmt"].as_str().unwrap()));
    a
}
type Triples = BTreeSet<(String, String, String)>;
struct Written {
    triples: Triples,
    stats: Option<Value>,
    files: Vec<String>,
}
/// a setting for a shape
fn setting<'a>(w: &'a Value, i: usize, key: &str) -> &'a Value {
    let o = &w["over"][i.to_string()][key];
    if o.is_null() { &w[key] } else { o }
}
/// what a run left behind
fn written(s: &Value, im: &fs::Image) -> Result<Written, String> {
    let text = |p: &str| im.get(p).and_then(fs::bytes_of).ok_or(format!("{p} is missing"));
    let conf = s["conf"] == json!(true);
    let files: Vec<String> = if conf && s["files"].is_number() {
        String::from_utf8_lossy(&text("/o/g.manifest.txt")?).lines().filter(|l| !l.starts_with('#') && !l.is_empty()).map(|l| l.trim_start_matches("/sim").to_string()).collect()
    } else {
        vec!["/o/g.ttl".into()]
    };
    let mut triples = Triples::new();
    let mut n = 0;
    for f in &files {
        let d = quads(if s["fmt"] == "turtle" { "ttl" } else { "nt" }, &text(f)?).map_err(|e| format!("{f}: {e}"))?;
        n += d.len();
        triples.extend(d.iter().map(|q| (q.subject.to_string(), q.predicate.as_str().to_string(), q.object.to_string())));
    }
    if n != triples.len() {
        return Err(format!("{} triples are in more than one of the files {files:?}", n - triples.len()));
    }
    let stats = if conf && s["stats"] == json!(false) {
        None
    } else {
        let mut v: Value = serde_json::from_slice(&text("/o/g.stats.json")?).map_err(|e| format!("statistics: {e}"))?;
        v["generation_time"] = Value::Null;
        Some(v)
    };
    Ok(Written { triples, stats, files })
}
/// the statistics describe what was written
fn describes(o: &Written) -> Result<(), String> {
    let Some(s) = &o.stats else { return Ok(()) };
    let distinct = |f: fn(&(String, String, String)) -> &String| o.triples.iter().map(f).collect::<BTreeSet<_>>().len() as u64;
    let mut shapes: BTreeMap<String, u64> = BTreeMap::new();
    for t in o.triples.iter().filter(|t| t.1 == RDF_TYPE) {
        *shapes.entry(t.2.trim_matches(['<', '>']).to_string()).or_default() += 1;
    }
    let want = json!([o.triples.len(), distinct(|t| &t.0), distinct(|t| &t.1), distinct(|t| &t.2), shapes]);
    let got = json!([s["total_triples"], s["total_subjects"], s["total_predicates"], s["total_objects"], s["shape_counts"]]);
    if want != got { Err(format!("statistics (triples, subjects, predicates, objects, shapes) say {got}, the files {:?} hold {want}", o.files)) } else { Ok(()) }
}
fn valid(d: &str, v: &str) -> bool {
    let digits = |s: &str, n: usize| s.len() == n && s.bytes().all(|b| b.is_ascii_digit());
    let date = |s: &str| {
        let f: Vec<&str> = s.split('-').collect();
        f.len() == 3 && digits(f[0], 4) && digits(f[1], 2) && digits(f[2], 2) && ("01"..="12").contains(&f[1]) && ("01"..="28").contains(&f[2])
    };
    match d {
        "integer" => v.parse::<i64>().is_ok(),
        "decimal" => v.parse::<f64>().is_ok() && v.bytes().all(|b| b.is_ascii_digit() || b"-+.".contains(&b)),
        "boolean" => v == "true" || v == "false",
        "date" => date(v),
        "dateTime" => v.strip_suffix('Z').and_then(|v| v.split_once('T')).is_some_and(|(a, b)| date(a) && b.split(':').count() == 3 && b.split(':').all(|x| digits(x, 2)) && b < "24"),
        _ => true,
    }
}
/// Do the data have the entities asked for, each as its shape says?
fn fits(w: &Value, s: &Value, t: &Triples) -> Result<(), String> {
    let shapes = w["ops"].as_array().unwrap();
    let conf = s["conf"] == json!(true);
    let mut by: BTreeMap<&str, BTreeMap<&str, Vec<&str>>> = BTreeMap::new();
    for (a, p, o) in t {
        by.entry(a).or_default().entry(p).or_default().push(o);
    }
    let none = vec![];
    let mut count: Vec<u64> = vec![0; shapes.len()];
    for (subj, props) in &by {
        let iri = subj.trim_matches(['<', '>']);
        let Some((shape, rest)) = iri.strip_prefix(EX).and_then(|x| x.strip_prefix('S')).and_then(|x| x.split_once('-')) else { return Err(format!("unexpected subject {subj}")) };
        let (i, own) = (shape.parse::<usize>().map_err(|_| format!("unexpected subject {subj}"))?, !rest.contains('-'));
        if i >= shapes.len() {
            return Err(format!("unexpected subject {subj}"));
        }
        if props.get(RDF_TYPE).unwrap_or(&none) != &vec![format!("<{EX}S{i}>").as_str()] {
            return Err(format!("{subj} has types {:?}", props.get(RDF_TYPE)));
        }
        if own {
            count[i] += 1;
            let n: u64 = rest.parse().map_err(|_| format!("unexpected subject {subj}"))?;
            if n == 0 || n > 100_000 {
                return Err(format!("unexpected subject {subj}"));
            }
        }
        let mut known: BTreeSet<String> = [RDF_TYPE.to_string()].into();
        let mut literals = 0;
        for p in shapes[i].as_array().unwrap() {
            let pi = format!("{EX}{}", name(p));
            let vals = props.get(pi.as_str()).unwrap_or(&none);
            known.insert(pi.clone());
            let excluded = conf && setting(w, i, "exclude").as_array().is_some_and(|x| x.iter().any(|n| NAMES[n.as_u64().unwrap() as usize] == name(p)));
            let (min, max) = card(w, p);
            let Some(d) = p["d"].as_u64().map(|d| TYPES[d as usize]) else {
                for v in vals {
                    let tt = target(w, p);
                    if !by.get(v).and_then(|x| x.get(RDF_TYPE)).is_some_and(|x| x[0] == format!("<{EX}S{tt}>")) {
                        return Err(format!("{subj} :{} {v}: not an entity of :S{tt}", name(p)));
                    }
                }
                continue;
            };
            literals += (!vals.is_empty()) as u64;
            for v in vals {
                let (lex, dt) = match v.rsplit_once("\"^^<") {
                    Some((l, t)) => (&l[1..], t.trim_end_matches('>').trim_start_matches(XSD)),
                    None => (v.trim_matches('"'), "string"),
                };
                if dt != d || !valid(d, lex) {
                    return Err(format!("{subj} :{} {v}: not an xsd:{d}", name(p)));
                }
                if matches!(d, "integer" | "decimal") {
                    let x: f64 = lex.parse().unwrap();
                    let b = |k: &str| p[k].as_i64().map(|_| num(&p[k], d == "decimal").parse::<f64>().unwrap());
                    if b("lo").is_some_and(|l| x < l) || b("hi").is_some_and(|l| x > l) || b("xlo").is_some_and(|l| x <= l) || b("xhi").is_some_and(|l| x >= l) {
                        return Err(format!("{subj} :{} {v}: out of range {p}", name(p)));
                    }
                }
            }
            if !own {
                continue;
            }
            if max.is_some_and(|m| vals.len() as u64 > m) {
                return Err(format!("{subj} has {} values of :{}, at most {max:?} allowed", vals.len(), name(p)));
            }
            if excluded && !vals.is_empty() {
                return Err(format!("{subj} has the excluded property :{}", name(p)));
            }
            let relaxed = conf && (setting(w, i, "ignore_min_cardinality") == &json!(true) || setting(w, i, "max_properties_per_instance").as_u64().unwrap_or(0) > 0 || excluded);
            if !relaxed && min > 0 && vals.is_empty() {
                return Err(format!("{subj} has no value of :{}, which must have {min}", name(p)));
            }
        }
        if let Some(p) = props.keys().find(|p| !known.contains(**p)) {
            return Err(format!("{subj} has the unknown property {p}"));
        }
        if own && conf && let Some(m) = setting(w, i, "max_properties_per_instance").as_u64().filter(|m| *m > 0) && literals > m {
            return Err(format!("{subj} has {literals} properties, at most {m} allowed"));
        }
    }
    // how many of each
    let n = s["n"].as_u64().unwrap();
    let k = shapes.len() as u64;
    let cli = s["clin"] == json!(true) || !conf;
    let _ = cli;
    match w["dist"].as_array().filter(|_| conf) {
        None => {
            if count.iter().sum::<u64>() != n || count.iter().any(|c| *c != n / k && *c != n / k + 1) {
                return Err(format!("{n} entities of {k} shapes asked for, {count:?} generated"));
            }
        },
        Some(d) if w["custom"] == json!(true) => {
            let want: Vec<u64> = d.iter().take(shapes.len()).map(|x| x.as_u64().unwrap()).collect();
            if want != count {
                return Err(format!("{want:?} entities of the shapes asked for, {count:?} generated"));
            }
        },
        Some(d) => {
            let total: f64 = d.iter().take(shapes.len()).map(|x| x.as_f64().unwrap()).sum();
            for (i, c) in count.iter().enumerate() {
                let want = d[i].as_f64().unwrap() / total * n as f64;
                if (want - *c as f64).abs() > 0.51 {
                    return Err(format!("{want} entities of :S{i} asked for, {c} generated"));
                }
            }
        },
    }
    Ok(())
}

fn settings(r: &mut Rng, conf: bool, n: u64) -> Value {
    let mut s = json!({"n": n, "conf": conf, "fmt": *r.pick(&["turtle", "ntriples"])});
    if r.pct(40) {
        s["p"] = json!(*r.pick(&[1u64, 2, 3, 8]));
    }
    if conf {
        if r.pct(60) {
            s["files"] = json!(*r.pick(&[0u64, 1, 2, 3, 5, 8, 16]));
        }
        for (k, p) in [("o", 40), ("clin", 30), ("cliseed", 40)] {
            if r.pct(p) {
                s[k] = json!(true);
            }
        }
        if r.pct(20) {
            s["stats"] = json!(false);
        }
        if r.pct(30) {
            s["batch"] = json!(*r.pick(&[1u64, 7, 1000]));
        }
    }
    s
}
const FAULTS: &[(&str, &str)] = &[
    ("write", "short"), ("write", "one"), ("write", "eintr"), ("write", "eio"), ("write", "enospc"), ("write", "full"),
    ("open_w", "eio"), ("open_w", "emfile"), ("open_w", "enospc"), ("open_w", "eintr"), ("open_w", "eacces"),
    ("read", "short"), ("read", "one"), ("read", "eintr"), ("read", "eio"), ("open_r", "eio"), ("open_r", "eacces"), ("open_r", "eintr"),
];

impl Scenario for Gen {
    fn property(&self) -> &'static str {
        if self.faults { "G02" } else { "G01" }
    }
    fn level(&self) -> &'static str {
        if self.faults { "fault_enumeration" } else { "exploration" }
    }
    fn rule(&self) -> &'static str {
        if self.faults {
            "each run generates data from a schema, possibly over the files of an earlier run, under disk faults; non-trivial when a fault was injected or an earlier run's files were there"
        } else {
            "each run generates data twice from one seed under different schedules, hash seeds, CPU counts and output settings; non-trivial when both succeeded"
        }
    }
    fn real(&self) -> &'static [&'static str] {
        &["rudof_cli main, rudof_lib, rudof_generate: converters, generators, writers", "std::fs, rand, tokio"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["disk, scheduler, clock, entropy"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let k = r.range(1, 4);
        let lang = *r.pick(&["shex", "shex", "shacl"]);
        let conf = r.pct(75);
        let shapes: Vec<Value> = (0..k)
            .map(|_| {
                let mut names: Vec<u64> = (0..NAMES.len() as u64).collect();
                r.shuffle(&mut names);
                let m = r.range(1, 5) as usize;
                names[..m]
                    .iter()
                    .map(|n| {
                        let mut p = json!({"n": n});
                        if r.pct(25) {
                            p["r"] = json!(r.below(k));
                        } else {
                            let d = r.below(TYPES.len() as u64);
                            p["d"] = json!(d);
                            if matches!(TYPES[d as usize], "integer" | "decimal") && r.pct(60) {
                                let a = *r.pick(&[-5000i64, -10, 0, 3, 100, 9_990, 70_000, 5_000_000_000]);
                                let b = a + *r.pick(&[2i64, 2, 10, 1000]);
                                let x = TYPES[d as usize] == "integer" && r.pct(30);
                                if r.pct(80) {
                                    p[if x { "xlo" } else { "lo" }] = json!(a);
                                }
                                if r.pct(80) {
                                    p[if x { "xhi" } else { "hi" }] = json!(b);
                                }
                            }
                        }
                        match r.below(6) {
                            0 | 1 => {},
                            2 => p["min"] = json!(r.below(4)),
                            3 if lang == "shacl" => p["max"] = json!(r.range(1, 3)),
                            _ => {
                                let a = r.below(3);
                                p["min"] = json!(a);
                                p["max"] = json!((a + r.below(3)).max(1));
                            },
                        }
                        p
                    })
                    .collect()
            })
            .collect();
        let big = if tier == Tier::Thorough { 3000 } else { 400 };
        let n = |r: &mut Rng| *r.pick(&[1u64, 2, 5, 7, 20, 20, 120, big]);
        let mut w = json!({"lang": lang, "ops": shapes});
        let (na, nb) = (n(r), n(r));
        if conf {
            if r.pct(30) {
                w["dist"] = (0..4).map(|_| json!(r.range(1, 30))).collect();
                w["custom"] = json!(r.pct(50));
            }
            if r.pct(70) {
                w["cardinality_strategy"] = json!(*r.pick(&["Minimum", "Maximum", "Random", "Random", "Balanced"]));
            }
            if r.pct(40) {
                w["property_fill_probability"] = json!(*r.pick(&[0.0, 0.3, 0.8]));
            }
            if r.pct(20) {
                w["property_count_variance"] = json!(0.5);
            }
            if r.pct(15) {
                w["ignore_min_cardinality"] = json!(true);
            }
            if r.pct(15) {
                w["max_properties_per_instance"] = json!(r.range(1, 3));
            }
            if r.pct(25) {
                w["property_selection_strategy"] = json!(*r.pick(&["Random", "All", "Weighted"]));
            }
            if r.pct(15) {
                w["exclude"] = json!([r.below(8)]);
            }
            if r.pct(25) {
                let mut o = json!({});
                match r.below(5) {
                    0 => o["exclude"] = (0..r.range(0, 3)).map(|_| json!(r.below(8))).collect(),
                    1 => o["ignore_min_cardinality"] = json!(r.pct(50)),
                    2 => o["max_properties_per_instance"] = json!(r.below(4)),
                    3 => o["property_fill_probability"] = json!(*r.pick(&[0.0, 0.5, 1.0])),
                    _ => o["property_selection_strategy"] = json!(*r.pick(&["Random", "All"])),
                }
                w["over"] = json!({r.below(k).to_string(): o});
            }
        }
        if !self.faults || r.pct(70) {
            w["seed"] = json!(*r.pick(&[0u64, 1, 42, 12345, u32::MAX as u64, 1 << 60]));
        }
        w["a"] = settings(r, conf, na);
        w["b"] = settings(r, conf, if self.faults { nb } else { na });
        if self.faults {
            w["again"] = json!(r.pct(50));
            let m = *r.pick(&[0u64, 1, 1, 2]);
            w["rates"] = (0..m)
                .map(|_| {
                    let (c, k) = *r.pick(FAULTS);
                    let benign = matches!(k, "short" | "one" | "eintr");
                    json!([c, k, *r.pick(if benign { &[50_000u64, 500_000][..] } else { &[20_000, 100_000, 600_000, 1_000_000][..] })])
                })
                .collect();
            if r.pct(50) {
                w["aim"] = json!([r.below(1 << 20), r.below(1 << 20), *r.pick(&[1u64, 1, 2, 1_000_000]), r.below(1 << 20)]);
                if r.pct(60) {
                    w["rates"] = json!([]);
                }
            }
        } else {
            w["rates"] = json!(if r.pct(30) { vec![json!(["write", *r.pick(&["short", "eintr", "stall"]), 200_000u64])] } else { vec![] });
        }
        w["max"] = json!(*r.pick(&[1u64, 2, 1_000_000]));
        w
    }
    fn shrink(&self, w: &Value) -> Vec<Value> {
        let mut v = shrink_array(w, "ops");
        v.retain(|x| !x["ops"].as_array().unwrap().is_empty());
        for (i, s) in w["ops"].as_array().unwrap().iter().enumerate() {
            for (j, p) in s.as_array().unwrap().iter().enumerate() {
                let mut z = w.clone();
                z["ops"][i].as_array_mut().unwrap().remove(j);
                if s.as_array().unwrap().len() > 1 {
                    v.push(z);
                }
                for k in ["lo", "hi", "xlo", "xhi", "min", "max"] {
                    if !p[k].is_null() {
                        let mut z = w.clone();
                        z["ops"][i][j][k] = Value::Null;
                        v.push(z);
                    }
                }
            }
        }
        for k in ["dist", "cardinality_strategy", "property_fill_probability", "property_count_variance", "ignore_min_cardinality", "max_properties_per_instance", "property_selection_strategy", "exclude", "over", "aim", "again"] {
            if !w[k].is_null() && w[k] != json!(false) {
                let mut z = w.clone();
                z[k] = Value::Null;
                v.push(z);
            }
        }
        v.extend(shrink_array(w, "rates"));
        for s in ["a", "b"] {
            for k in ["p", "files", "o", "clin", "cliseed", "stats", "batch"] {
                if !w[s][k].is_null() {
                    let mut z = w.clone();
                    z[s][k] = Value::Null;
                    v.push(z);
                }
            }
            for n in [1u64, 2, 5] {
                if w[s]["n"].as_u64().unwrap() > n {
                    let mut z = w.clone();
                    z[s]["n"] = json!(n);
                    if !self.faults {
                        z["a"]["n"] = json!(n);
                        z["b"]["n"] = json!(n);
                    }
                    v.push(z);
                }
            }
        }
        v
    }
    fn next(&self, w: &Value, seed: u64, done: &[Out]) -> Next {
        let i = done.len();
        if let Some(o) = done.last()
            && o.gave_up()
        {
            return Next::Done(Verdict::Inconclusive(format!("{} {}", o.status, o.msg)));
        }
        let again = self.faults && w["again"] == json!(true);
        let last = if again { 2 } else { 1 };
        if i > 0 && let Some(v) = self.judge(w, done, last) {
            return Next::Done(v);
        }
        let s = if self.faults && i == 1 && again || !self.faults && i == 0 { &w["a"] } else { &w["b"] };
        let mut c = draw_cfg(seed, i as u64);
        if self.faults {
            c.preempt_gap = if i < last { 0 } else { c.preempt_gap };
        }
        if i == last {
            for x in w["rates"].as_array().into_iter().flatten() {
                c.rates.push(rate(x[0].as_str().unwrap(), x[1].as_str().unwrap(), x[2].as_u64().unwrap()));
            }
            c.max_faults = w["max"].as_u64().unwrap();
            if w["aim"].is_array() {
                c.max_faults = 1_000_000;
                let a = |n: usize| w["aim"][n].as_u64().unwrap();
                let ops = &done[0].stats["ops"];
                let mut classes: Vec<&str> = FAULTS.iter().map(|x| x.0).filter(|c| ops[*c].as_u64().unwrap_or(0) > 0).collect();
                classes.dedup();
                if !classes.is_empty() {
                    let cl = classes[(a(0) % classes.len() as u64) as usize];
                    let kinds: Vec<&str> = FAULTS.iter().filter(|x| x.0 == cl).map(|x| x.1).collect();
                    let kind = kinds[(a(1) % kinds.len() as u64) as usize];
                    let n = ops[cl].as_u64().unwrap();
                    let from = match a(3) % 3 {
                        0 => n - 1 - (a(3) / 3) % n.min(3),
                        _ => (a(3) / 3) % n,
                    };
                    let len = if kind == "eintr" { a(2).min(20) } else { a(2) };
                    c.plan.push(sim::Planned { class: cl.into(), kind: kind.into(), from, len });
                }
            }
        }
        let mut p = Phase::new(c);
        for d in ["/w", "/home", "/tmp", "/o"] {
            p.image.insert(d.into(), fs::Node::Dir);
        }
        if again && i == 2 {
            p.image = done[1].image();
        }
        p.image.insert("/w/s.shex".into(), fs::Node::Text(shex(w)));
        p.image.insert("/w/s.ttl".into(), fs::Node::Text(shacl(w)));
        p.image.insert("/w/g.json".into(), fs::Node::Text(config(w, s)));
        p.env = env();
        p.args = args(w, s);
        Next::Run(Box::new(p))
    }
    fn body(&self, _w: &Value, _phase: usize, _carry: &Value) -> Value {
        run_main()
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        match t {
            Tier::Quick => (1_000_000, 40),
            Tier::Thorough => (3_000_000, 1200),
        }
    }
    fn describe(&self, w: &Value) -> Value {
        json!({"schema": if w["lang"] == "shex" { shex(w) } else { shacl(w) }, "first": args(w, &w["a"]).join(" "), "second": args(w, &w["b"]).join(" "),
            "config_a": config(w, &w["a"]), "config_b": config(w, &w["b"]), "rates": w["rates"], "aim": w["aim"]})
    }
}

impl Gen {
    /// None: go on
    fn judge(&self, w: &Value, done: &[Out], last: usize) -> Option<Verdict> {
        let i = done.len() - 1;
        let o = &done[i];
        let faulted = i == last && (!o.trace.faults.is_empty());
        let benign = o.trace.faults.iter().all(|f| matches!(f.kind.as_str(), "short" | "one" | "eintr" | "stall"));
        let s = if self.faults && i == 1 && last == 2 || !self.faults && i == 0 { &w["a"] } else { &w["b"] };
        let cmd = args(w, s)[1..].join(" ");
        if code(o) != Some(0) {
            if faulted && !benign {
                return Some(Verdict::Held(true));
            }
            return Some(violation("fails", format!("{cmd}: status {:?} {} {}", code(o), o.extra["msg"], super::m01::tail(&o.stderr))));
        }
        let bad = |e: String, k: &str| Some(violation(k, format!("{cmd}: exit 0 but {e}")));
        let x = match written(s, &o.image()) {
            Ok(x) => x,
            Err(e) => return bad(e, "incomplete-output"),
        };
        if let Err(e) = describes(&x) {
            return bad(e, "incomplete-output");
        }
        if self.faults
            && let Err(e) = fits(w, s, &x.triples)
        {
            return bad(e, "wrong-data");
        }
        if i < last {
            return None;
        }
        if !w["seed"].is_null() {
            let first = &w[if self.faults { "b" } else { "a" }];
            let Ok(y) = written(first, &done[0].image()) else { return Some(Verdict::Held(false)) };
            if x.triples != y.triples {
                let d = |a: &Triples, b: &Triples| a.difference(b).take(3).cloned().collect::<Vec<_>>();
                return bad(
                    format!("another run with the same seed gives other data: {} triples instead of {}, {:?} instead of {:?}", x.triples.len(), y.triples.len(), d(&x.triples, &y.triples), d(&y.triples, &x.triples)),
                    if self.faults { "incomplete-output" } else { "not-reproducible" },
                );
            }
            if let (Some(a), Some(b)) = (&x.stats, &y.stats)
                && a != b
            {
                return bad(format!("another run with the same seed gives other statistics: {a} instead of {b}"), "not-reproducible");
            }
        }
        Some(Verdict::Held(!self.faults || faulted || last == 2))
    }
}
