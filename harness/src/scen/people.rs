//! Generated data set shared by the CLI scenarios, with a reference model of what the schemas in
//! data/cli say about it.
use crate::sim::rng::Rng;
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

const NAMES: [&str; 8] = ["\"Ana\"", "\"Bo\"", "\"Zoë\"", "\"Miguel Ángel\"", "23", "\"Mia\"@en", "\"Quo\\\"te\"", "\"Luz\""];
const STAT: [&str; 3] = ["Active", "Waiting", "Walking"];

pub fn generate(r: &mut Rng, max: u64) -> Value {
    let n = r.range(1, max);
    let v: Vec<Value> = (0..n)
        .map(|i| {
            let names: Vec<&str> = match r.below(10) {
                0 => vec![],
                1 => vec![NAMES[r.below(4) as usize], NAMES[4 + r.below(4) as usize]],
                2 => vec![NAMES[r.below(8) as usize]],
                _ => vec![NAMES[r.below(4) as usize]],
            };
            let k: BTreeSet<u64> = (0..*r.pick(&[0, 0, 1, 1, 2, 3])).map(|_| if r.pct(97) { r.below(n) } else { n + 5 }).collect();
            let st: Vec<&str> = match r.below(10) {
                0 => vec!["Walking"],
                1 => vec!["Active", "Waiting"],
                2..=4 => vec![],
                x => vec![STAT[(x % 2) as usize]],
            };
            json!({"i": i, "n": names, "k": k, "s": st})
        })
        .collect();
    json!(v)
}

#[derive(Clone, Debug, Default)]
pub struct Person {
    pub names: BTreeSet<String>,
    pub knows: BTreeSet<u64>,
    pub status: BTreeSet<String>,
}
pub struct People(pub BTreeMap<u64, Person>);
fn lit(l: &str) -> String {
    if l == "23" { "\"23\"^^<http://www.w3.org/2001/XMLSchema#integer>".into() } else { l.into() }
}
const E: &str = "http://example.org/";
const S: &str = "http://schema.org/";
impl People {
    pub fn of(v: &Value) -> People {
        let mut m = BTreeMap::new();
        for p in v.as_array().into_iter().flatten() {
            let st = |k: &str| p[k].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect::<BTreeSet<_>>();
            m.insert(
                p["i"].as_u64().unwrap(),
                Person { names: st("n"), knows: p["k"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect(), status: st("s") },
            );
        }
        People(m)
    }
    pub fn turtle(&self) -> String {
        let mut s = String::from("prefix : <http://example.org/>\nprefix schema: <http://schema.org/>\n");
        for (i, p) in &self.0 {
            for n in &p.names {
                s.push_str(&format!(":p{i} schema:name {n} .\n"));
            }
            for k in &p.knows {
                s.push_str(&format!(":p{i} schema:knows :p{k} .\n"));
            }
            for t in &p.status {
                s.push_str(&format!(":p{i} :status :{t} .\n"));
            }
        }
        s
    }
    /// N-Triples lines, each one triple in canonical form
    pub fn triples(&self) -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        for (i, p) in &self.0 {
            for n in &p.names {
                s.insert(format!("<{E}p{i}> <{S}name> {}", lit(n)));
            }
            for k in &p.knows {
                s.insert(format!("<{E}p{i}> <{S}knows> <{E}p{k}>"));
            }
            for t in &p.status {
                s.insert(format!("<{E}p{i}> <{E}status> <{E}{t}>"));
            }
        }
        s
    }
    pub fn ntriples(&self) -> String {
        self.triples().iter().map(|t| format!("{t} .\n")).collect()
    }
    fn val(n: &str) -> (String, &'static str) {
        // lexical form, kind
        if n == "23" {
            ("23".into(), "int")
        } else if let Some(x) = n.strip_suffix("@en") {
            (x.trim_matches('"').into(), "en")
        } else {
            (n[1..n.len() - 1].replace("\\\"", "\""), "")
        }
    }
    pub fn jsonld(&self) -> String {
        let g: Vec<Value> = self
            .0
            .iter()
            .map(|(i, p)| {
                let names: Vec<Value> = p
                    .names
                    .iter()
                    .map(|n| match Self::val(n) {
                        (_, "int") => json!(23),
                        (l, "en") => json!({"@value": l, "@language": "en"}),
                        (l, _) => json!(l),
                    })
                    .collect();
                json!({"@id": format!("{E}p{i}"), "name": names,
                    "knows": p.knows.iter().map(|k| json!({"@id": format!("{E}p{k}")})).collect::<Vec<_>>(),
                    "status": p.status.iter().map(|k| json!({"@id": format!("{E}{k}")})).collect::<Vec<_>>()})
            })
            .collect();
        json!({"@context": {"name": format!("{S}name"), "knows": format!("{S}knows"), "status": format!("{E}status")}, "@graph": g}).to_string()
    }
    pub fn rdfxml(&self) -> String {
        let mut s = format!("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\" xmlns:s=\"{S}\" xmlns:e=\"{E}\">\n");
        for (i, p) in &self.0 {
            s.push_str(&format!("<rdf:Description rdf:about=\"{E}p{i}\">\n"));
            for n in &p.names {
                let (l, k) = Self::val(n);
                let a = match k {
                    "int" => " rdf:datatype=\"http://www.w3.org/2001/XMLSchema#integer\"",
                    "en" => " xml:lang=\"en\"",
                    _ => "",
                };
                s.push_str(&format!("  <s:name{a}>{}</s:name>\n", l.replace('"', "&quot;")));
            }
            for k in &p.knows {
                s.push_str(&format!("  <s:knows rdf:resource=\"{E}p{k}\"/>\n"));
            }
            for k in &p.status {
                s.push_str(&format!("  <e:status rdf:resource=\"{E}{k}\"/>\n"));
            }
            s.push_str("</rdf:Description>\n");
        }
        s + "</rdf:RDF>\n"
    }
    pub fn shapemap(&self) -> String {
        self.0.keys().map(|i| format!("<{E}p{i}>@<{E}User>")).collect::<Vec<_>>().join(",")
    }
    pub fn select(&self) -> BTreeSet<(String, String, String)> {
        let mut s = BTreeSet::new();
        for (i, p) in &self.0 {
            for n in &p.names {
                for t in &p.status {
                    s.insert((format!("<{E}p{i}>"), lit(n), format!("<{E}{t}>")));
                }
            }
        }
        s
    }
    pub fn construct(&self) -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        for (i, p) in &self.0 {
            if !p.names.is_empty() {
                for n in &p.names {
                    s.insert(format!("<{E}p{i}> <{E}label> {}", lit(n)));
                }
                for k in &p.knows {
                    s.insert(format!("<{E}p{i}> <{E}friend> <{E}p{k}>"));
                }
            }
        }
        s
    }
    pub fn ask(&self) -> bool {
        self.0.values().any(|p| p.status.contains("Active"))
    }
    fn string(n: &str) -> bool {
        n != "23" && !n.ends_with("@en")
    }
    /// nodes conforming to :User of user.shex (greatest fixpoint)
    pub fn users(&self) -> BTreeSet<u64> {
        let mut ok: BTreeSet<u64> = self
            .0
            .iter()
            .filter(|(_, p)| p.names.len() == 1 && p.names.iter().all(|n| Self::string(n)) && p.status.len() <= 1 && p.status.iter().all(|s| s != "Walking"))
            .map(|(i, _)| *i)
            .collect();
        loop {
            let next: BTreeSet<u64> = ok.iter().copied().filter(|i| self.0[i].knows.iter().all(|k| ok.contains(k))).collect();
            if next == ok {
                return ok;
            }
            ok = next;
        }
    }
    /// (focus node, constraint component, path, value) for every result shapes.ttl asks for
    pub fn shacl(&self) -> BTreeSet<(String, String, String, String)> {
        let mut s = BTreeSet::new();
        let named = |i: &u64| self.0.get(i).is_some_and(|p| !p.names.is_empty() && p.names.iter().all(|n| Self::string(n)));
        for (i, p) in &self.0 {
            if p.names.is_empty() {
                continue;
            }
            let f = format!("<{E}p{i}>");
            for n in p.names.iter().filter(|n| !Self::string(n)) {
                s.insert((f.clone(), "Datatype".into(), format!("<{S}name>"), lit(n)));
            }
            for k in p.knows.iter().filter(|k| !named(k)) {
                s.insert((f.clone(), "Node".into(), format!("<{S}knows>"), format!("<{E}p{k}>")));
            }
            for t in p.status.iter().filter(|t| *t == "Walking") {
                s.insert((f.clone(), "In".into(), format!("<{E}status>"), format!("<{E}{t}>")));
            }
            if p.status.len() > 1 {
                s.insert((f.clone(), "MaxCount".into(), format!("<{E}status>"), String::new()));
            }
        }
        s
    }
}
