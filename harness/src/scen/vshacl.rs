//! V01: generated SHACL shapes graphs against a reference evaluator, under every schedule of the
//! validation threads, hash seed and CPU count.
use super::cli::{code, env, quads, run_main};
use crate::runner::*;
use crate::sim::{fs, rng::Rng};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

const E: &str = "http://e.x/";
const XSD: &str = "http://www.w3.org/2001/XMLSchema#";
const TYPE: &str = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>";
const SUB: &str = "<http://www.w3.org/2000/01/rdf-schema#subClassOf>";
const SH: &str = "http://www.w3.org/ns/shacl#";

pub fn iri(l: &str) -> String {
    format!("<{E}{l}>")
}
pub fn int(n: i64) -> String {
    format!("\"{n}\"^^<{XSD}integer>")
}
fn term(r: &mut Rng, nodes: u64) -> String {
    match r.below(8) {
        0 => int(r.range(1, 4) as i64),
        1 if r.pct(25) => format!("\"{}>", r.pick(&["2.5\"^^<{}decimal", "1.5\"^^<{}double", "true\"^^<{}boolean", "false\"^^<{}boolean", "x\"^^<{}integer", "x\"^^<{}boolean", "2015-01-01\"^^<{}date"]).replace("{}", XSD)),
        1 => (*r.pick(&["\"a\"", "\"bb\"", "\"ccc\""])).to_string(),
        2 if r.pct(50) => (*r.pick(&["\"x\"@en", "\"bx\"@en", "\"y\"@fr", "\"y\"@en-us"])).to_string(),
        _ => iri(&format!("n{}", r.below(nodes))),
    }
}
/// triples as (subject, predicate, object) in N-Triples form
pub fn data(r: &mut Rng, nodes: u64, n: u64, blanks: bool) -> Vec<Value> {
    let mut v = BTreeSet::new();
    let langs = r.pct(12);
    for _ in 0..n {
        let s = if blanks && r.pct(12) { format!("_:b{}", r.below(2)) } else { iri(&format!("n{}", r.below(nodes))) };
        if r.pct(15) {
            // two properties with integers only, which can be compared
            v.insert((s, iri(&format!("p{}", r.range(3, 4))), int(r.range(1, 4) as i64)));
        } else if r.pct(6) {
            v.insert((iri(&format!("C{}", r.below(4))), SUB.to_string(), iri(&format!("C{}", r.below(4)))));
        } else if r.pct(20) {
            let c = if r.pct(25) { format!("s{}", r.below(5)) } else { format!("C{}", r.below(4)) };
            v.insert((s, TYPE.to_string(), iri(&c)));
        } else {
            let p = iri(&format!("p{}", r.below(3)));
            let o = if langs && r.pct(40) {
                format!("\"{}\"@{}", r.pick(&["x", "y"]), r.pick(&["en", "en", "fr", "en-us", "en-gb", "fr-be"]))
            } else if blanks && r.pct(12) { format!("_:b{}", r.below(2)) } else { term(r, nodes) };
            v.insert((s, p, o));
        }
    }
    v.into_iter().map(|t| json!(t)).collect()
}
pub struct Graph {
    pub all: BTreeSet<(String, String, String)>,
    out: BTreeMap<(String, String), BTreeSet<String>>,
    inc: BTreeMap<(String, String), BTreeSet<String>>,
}
impl Graph {
    pub fn of(v: &Value) -> Graph {
        let mut g = Graph { all: Default::default(), out: Default::default(), inc: Default::default() };
        for t in v.as_array().into_iter().flatten() {
            let x = |i: usize| t[i].as_str().unwrap().to_string();
            let (s, p, o) = (x(0), x(1), x(2));
            g.out.entry((s.clone(), p.clone())).or_default().insert(o.clone());
            g.inc.entry((o.clone(), p.clone())).or_default().insert(s.clone());
            g.all.insert((s, p, o));
        }
        g
    }
    pub fn ntriples(&self) -> String {
        self.all.iter().map(|(s, p, o)| format!("{s} {p} {o} .\n")).collect()
    }
    pub fn objs(&self, s: &str, p: &str) -> BTreeSet<String> {
        self.out.get(&(s.to_string(), p.to_string())).cloned().unwrap_or_default()
    }
    pub fn subjs(&self, o: &str, p: &str) -> BTreeSet<String> {
        self.inc.get(&(o.to_string(), p.to_string())).cloned().unwrap_or_default()
    }
    /// SHACL instances: types and their superclasses
    pub fn classes(&self, v: &str) -> BTreeSet<String> {
        let mut seen = self.objs(v, TYPE);
        let mut todo: Vec<String> = seen.iter().cloned().collect();
        while let Some(c) = todo.pop() {
            for d in self.objs(&c, SUB) {
                if seen.insert(d.clone()) {
                    todo.push(d);
                }
            }
        }
        seen
    }
    /// what `path` leads to from `f`
    pub fn path(&self, f: &str, path: &str) -> BTreeSet<String> {
        self.walk(f, &Path::of(path), false)
    }
    fn walk(&self, f: &str, p: &Path, back: bool) -> BTreeSet<String> {
        match p {
            Path::P(l) if back => self.subjs(f, &iri(l)),
            Path::P(l) => self.objs(f, &iri(l)),
            Path::Inv(x) => self.walk(f, x, !back),
            Path::Alt(v) => v.iter().flat_map(|x| self.walk(f, x, back)).collect(),
            Path::Seq(v) => {
                let mut at: BTreeSet<String> = [f.to_string()].into();
                let step = |at: BTreeSet<String>, x: &Path| at.iter().flat_map(|n| self.walk(n, x, back)).collect();
                if back {
                    for x in v.iter().rev() {
                        at = step(at, x);
                    }
                } else {
                    for x in v {
                        at = step(at, x);
                    }
                }
                at
            },
            Path::Rep(x, '?') => {
                let mut v = self.walk(f, x, back);
                v.insert(f.to_string());
                v
            },
            Path::Rep(x, k) => {
                let mut seen: BTreeSet<String> = if *k == '*' { [f.to_string()].into() } else { self.walk(f, x, back) };
                let mut todo: Vec<String> = seen.iter().cloned().collect();
                while let Some(n) = todo.pop() {
                    for y in self.walk(&n, x, back) {
                        if seen.insert(y.clone()) {
                            todo.push(y);
                        }
                    }
                }
                seen
            },
        }
    }
}
/// property paths: "p0", "^p0", "p0/(p1|^p2)*"
#[derive(Clone, Debug)]
enum Path {
    P(String),
    Inv(Box<Path>),
    Alt(Vec<Path>),
    Seq(Vec<Path>),
    Rep(Box<Path>, char),
}
impl Path {
    fn of(s: &str) -> Path {
        let c: Vec<char> = s.chars().collect();
        let mut i = 0;
        Path::alt(&c, &mut i)
    }
    fn alt(c: &[char], i: &mut usize) -> Path {
        let mut v = vec![Path::seq(c, i)];
        while c.get(*i) == Some(&'|') {
            *i += 1;
            v.push(Path::seq(c, i));
        }
        if v.len() == 1 { v.remove(0) } else { Path::Alt(v) }
    }
    fn seq(c: &[char], i: &mut usize) -> Path {
        let mut v = vec![Path::elt(c, i)];
        while c.get(*i) == Some(&'/') {
            *i += 1;
            v.push(Path::elt(c, i));
        }
        if v.len() == 1 { v.remove(0) } else { Path::Seq(v) }
    }
    fn elt(c: &[char], i: &mut usize) -> Path {
        if c.get(*i) == Some(&'^') {
            *i += 1;
            return Path::Inv(Box::new(Path::elt(c, i)));
        }
        let mut p = if c.get(*i) == Some(&'(') {
            *i += 1;
            let p = Path::alt(c, i);
            *i += 1;
            p
        } else {
            let a = *i;
            while c.get(*i).is_some_and(|x| x.is_alphanumeric()) {
                *i += 1;
            }
            Path::P(c[a..*i].iter().collect())
        };
        while let Some(k @ ('*' | '+' | '?')) = c.get(*i) {
            *i += 1;
            p = Path::Rep(Box::new(p), *k);
        }
        p
    }
    fn ttl(&self) -> String {
        let list = |v: &[Path]| format!("( {} )", v.iter().map(|x| x.ttl()).collect::<Vec<_>>().join(" "));
        match self {
            Path::P(l) => iri(l),
            Path::Inv(x) => format!("[ sh:inversePath {} ]", x.ttl()),
            Path::Alt(v) => format!("[ sh:alternativePath {} ]", list(v)),
            Path::Seq(v) => list(v),
            Path::Rep(x, k) => format!("[ sh:{}Path {} ]", match k { '*' => "zeroOrMore", '+' => "oneOrMore", _ => "zeroOrOne" }, x.ttl()),
        }
    }
    /// the same form as `path_of` gives to a path in a report
    fn shape(&self) -> String {
        let list = |v: &[Path]| format!("({})", v.iter().map(|x| x.shape()).collect::<Vec<_>>().join(" "));
        match self {
            Path::P(l) => iri(l),
            Path::Inv(x) => format!("[inverse {}]", x.shape()),
            Path::Alt(v) => format!("[alternative {}]", list(v)),
            Path::Seq(v) => list(v),
            Path::Rep(x, k) => format!("[{} {}]", match k { '*' => "zeroOrMore", '+' => "oneOrMore", _ => "zeroOrOne" }, x.shape()),
        }
    }
}
fn path_of(d: &oxrdf::Dataset, t: oxrdf::TermRef, depth: usize) -> String {
    let oxrdf::TermRef::BlankNode(n) = t else { return t.to_string() };
    if depth > 40 {
        return "endless".into();
    }
    let mut v: Vec<String> = vec![];
    for q in d.quads_for_subject(n) {
        let p = q.predicate.as_str();
        if p.ends_with("#first") {
            // a list
            let mut items = vec![];
            let mut at: oxrdf::TermRef = t;
            while let oxrdf::TermRef::BlankNode(m) = at {
                let get = |l: &str| d.quads_for_subject(m).filter(|q| q.predicate.as_str().ends_with(l)).map(|q| q.object).collect::<Vec<_>>();
                let (f, r) = (get("#first"), get("#rest"));
                if f.len() != 1 || r.len() != 1 || items.len() > 40 {
                    return "bad list".into();
                }
                items.push(path_of(d, f[0], depth + 1));
                at = r[0];
            }
            return format!("({})", items.join(" "));
        }
        if let Some(k) = p.strip_prefix(SH).and_then(|p| p.strip_suffix("Path")) {
            v.push(format!("[{k} {}]", path_of(d, q.object, depth + 1)));
        }
    }
    v.sort();
    v.join("|")
}
pub fn is_lit(t: &str) -> bool {
    t.starts_with('"')
}
pub fn int_of(t: &str) -> Option<i64> {
    t.strip_suffix(&format!("^^<{XSD}integer>"))?.trim_matches('"').parse().ok()
}
/// the value of a number, times two
fn num(t: &str) -> Option<i64> {
    match t {
        _ if t.contains("#decimal>") => Some(5),
        _ if t.contains("#double>") => Some(3),
        _ => int_of(t).map(|n| n * 2),
    }
}
fn typed(t: &str, ty: &str) -> bool {
    match ty {
        "string" => t.ends_with('"'),
        "integer" => int_of(t).is_some(),
        // (only these are well formed)
        "boolean" => t.ends_with("#boolean>") && !t.starts_with("\"x\""),
        _ => t.ends_with(&format!("#{ty}>")),
    }
}
fn lang(t: &str) -> Option<&str> {
    t.rsplit_once("\"@").map(|x| x.1)
}
fn lex(t: &str) -> &str {
    if is_lit(t) { t[1..].split('"').next().unwrap() } else { t.trim_matches(|c| c == '<' || c == '>') }
}

fn path(r: &mut Rng, depth: u64) -> String {
    if depth == 0 || r.pct(30) {
        return format!("p{}", r.below(3));
    }
    let list = |r: &mut Rng, by: &str| format!("({})", (0..r.range(2, 3)).map(|_| path(r, depth - 1)).collect::<Vec<_>>().join(by));
    match r.below(6) {
        0 => list(r, "/"),
        1 => list(r, "|"),
        2 | 3 => format!("({}){}", path(r, depth - 1), r.pick(&["*", "+", "?"])),
        4 => format!("^({})", path(r, depth - 1)),
        _ => format!("^p{}", r.below(3)),
    }
}
fn shapes(r: &mut Rng, nodes: u64, n: u64) -> Vec<Value> {
    let mut v: Vec<Value> = vec![];
    // every shape refers to the one before
    let chain = r.pct(15);
    for i in 0..n {
        let prop = r.pct(45);
        let mut s = json!({"i": i, "prop": prop, "b": r.pct(20), "t": [], "c": []});
        if prop {
            let p = r.below(3);
            s["path"] = json!(match r.below(14) {
                0 | 13 if r.pct(50) => path(r, 3),
                0 if r.pct(30) => format!("p{p}+"),
                0 if r.pct(30) => format!("p{p}?"),
                0 => format!("^p{p}"),
                12 => format!("p{p}/p{}", r.below(3)),
                13 => format!("p{p}|p{}", (p + 1) % 3),
                3 => format!("p{p}*"),
                1 | 2 => format!("p{}", r.range(3, 4)),
                _ => format!("p{p}"),
            });
        }
        // the later a shape, the more often it is a root: shapes refer to earlier ones
        if r.pct(if i * 2 >= n { 80 } else { 30 }) {
            s["b"] = json!(false);
            let mut t = vec![];
            for _ in 0..r.range(1, 2) {
                t.push(match r.below(9) {
                    8 => json!(["implicit", ""]),
                    0 | 1 => json!(["node", term(r, nodes)]),
                    2 => json!(["class", format!("C{}", r.below(4))]),
                    3..=5 => json!(["subj", format!("p{}", r.below(3))]),
                    _ => json!(["obj", format!("p{}", r.below(3))]),
                });
            }
            s["t"] = json!(t);
        }
        let mut c = vec![];
        let refs = |r: &mut Rng| r.below(i);
        for _ in 0..*r.pick(&[1, 1, 2, 3]) {
            if i > 0 && r.pct(60) {
                let list = |r: &mut Rng| (0..r.range(1, 3)).map(|_| refs(r)).collect::<Vec<_>>();
                c.push(match r.below(12) {
                    0..=2 => json!(["node", refs(r)]),
                    3..=6 => json!(["property", refs(r)]),
                    7 => json!(["not", refs(r)]),
                    8 => json!(["and", list(r)]),
                    9 => json!(["or", list(r)]),
                    10 => json!(["xone", list(r)]),
                    _ if prop => {
                        let n = |r: &mut Rng| if r.pct(25) { json!(null) } else { json!(r.range(0, 2)) };
                        let (mut a, b) = (n(r), n(r));
                        if a.is_null() && b.is_null() {
                            a = json!(1);
                        }
                        json!(["qual", refs(r), a, b, r.pct(40)])
                    },
                    _ => json!(["node", refs(r)]),
                });
            } else {
                c.push(match r.below(if prop { 15 } else { 10 }) {
                    0 => json!(["datatype", *r.pick(&["string", "integer", "string", "integer", "decimal", "boolean", "double", "date"])]),
                    1 => json!(["nodeKind", *r.pick(&["IRI", "Literal", "BlankNodeOrIRI", "BlankNode", "BlankNodeOrLiteral", "IRIOrLiteral"])]),
                    2 => json!(["in", [term(r, nodes), term(r, nodes), term(r, nodes)]]),
                    3 => json!(["hasValue", term(r, nodes)]),
                    4 => json!(["class", format!("C{}", r.below(4))]),
                    5 => json!([*r.pick(&["minLength", "maxLength"]), r.range(1, 14)]),
                    9 => json!(["languageIn", *r.pick(&["en", "fr", "en-us", "e", "fr en-us"])]),
                    14 => json!(["uniqueLang", true]),
                    13 | 12 if matches!(s["path"].as_str(), Some("p3" | "p4")) => json!([*r.pick(&["lessThan", "lessThanOrEquals"]), format!("p{}", r.range(3, 4))]),
                    6 => json!(["pattern", *r.pick(&["n[0-2]$", "^b", "x", "^B", "N1"]), r.pct(30)]),
                    7 => json!([*r.pick(&["minInclusive", "maxExclusive", "minExclusive", "maxInclusive"]), r.range(1, 4)]),
                    8 if !prop => json!(["closed", format!("p{}", r.below(3))]),
                    8 => json!(["datatype", "string"]),
                    10 => json!(["minCount", r.range(1, 2)]),
                    11 => json!(["maxCount", r.range(0, 2)]),
                    _ => json!([*r.pick(&["equals", "disjoint"]), format!("p{}", r.below(3))]),
                });
            }
        }
        if chain && i > 0 && r.pct(90) {
            c = if r.pct(30) { c.drain(..1).filter(|x| !x[0].as_str().unwrap().starts_with("sPARQL")).collect() } else { vec![] };
            c.push(match v[i as usize - 1]["prop"] == json!(true) {
                true => json!(["property", i - 1]),
                false => match r.below(8) {
                    0 => json!(["not", i - 1]),
                    1 => json!(["and", [i - 1]]),
                    2 if prop => json!(["qual", i - 1, 1, null, false]),
                    _ => json!(["node", i - 1]),
                },
            });
        }
        // qualified shapes with several siblings
        let ps: Vec<usize> = (1..i as usize).filter(|k| v[*k]["prop"] == json!(true)).collect();
        if !prop && ps.len() > 1 && r.pct(25) {
            let path = v[ps[0]]["path"].clone();
            for k in ps.iter().rev().take(r.range(2, 4) as usize) {
                let q = json!(["qual", r.below(*k as u64), if r.pct(60) { json!(r.range(1, 2)) } else { json!(null) }, if r.pct(60) { json!(r.range(0, 1)) } else { json!(null) }, r.pct(80)]);
                let q = if q[2].is_null() && q[3].is_null() { json!(["qual", q[1], 1, null, q[4]]) } else { q };
                let s = &mut v[*k];
                s["path"] = path.clone();
                let l = s["c"].as_array_mut().unwrap();
                // (these depend on the path)
                l.retain(|x: &Value| !matches!(x[0].as_str().unwrap(), "qual" | "lessThan" | "lessThanOrEquals" | "sPARQL"));
                l.push(q);
                c.push(json!(["property", k]));
            }
        }
        // closed shapes usually list several properties
        if !prop && i > 0 && r.pct(12) {
            c.push(json!(["closed", format!("p{}", r.below(3))]));
            for _ in 0..r.range(1, 3) {
                c.push(json!(["property", refs(r)]));
            }
        }
        if r.pct(8) {
            // (a focus node outside the graph has itself as value of p*, but not in a query with VALUES)
            let k = if prop && !s["path"].as_str().unwrap().contains(['*', '?']) { 3 } else { 2 };
            c.push(json!(["sPARQL", r.below(k), format!("p{}", r.below(3)), *r.pick(&[json!(true), json!(false), json!(null), json!(null)])]));
        }
        // one value per parameter
        let mut seen = BTreeSet::new();
        c.retain(|x: &Value| {
            let k = x[0].as_str().unwrap().to_string();
            matches!(k.as_str(), "node" | "property" | "not" | "and" | "or" | "xone" | "hasValue" | "class") || seen.insert(k)
        });
        s["c"] = json!(c);
        if r.pct(10) {
            s["off"] = json!(true);
        }
        if r.pct(15) {
            s["sev"] = json!(*r.pick(&["Warning", "Info"]));
        }
        v.push(s);
    }
    v
}

type Res = (String, String, String, String, String, String);
/// the shapes of a workload, references resolved (those to shapes that were shrunk away are dropped)
pub struct Shapes(BTreeMap<u64, Value>);
impl Shapes {
    pub fn of(v: &Value) -> Shapes {
        let all: BTreeMap<u64, Value> = v.as_array().unwrap().iter().map(|s| (s["i"].as_u64().unwrap(), s.clone())).collect();
        let mut out = all.clone();
        for s in out.values_mut() {
            let c = s["c"].as_array().unwrap().iter().filter_map(|c| {
                let ok = |x: &Value| x.as_u64().is_some_and(|k| all.contains_key(&k));
                let is_prop = |x: &Value| ok(x) && all[&x.as_u64().unwrap()]["prop"] == json!(true);
                match c[0].as_str().unwrap() {
                    "property" => is_prop(&c[1]).then(|| c.clone()),
                    "node" => (ok(&c[1]) && !is_prop(&c[1])).then(|| c.clone()),
                    "not" | "qual" => ok(&c[1]).then(|| c.clone()),
                    "and" | "or" | "xone" => {
                        let mut l: Vec<Value> = c[1].as_array().unwrap().iter().filter(|x| ok(x)).cloned().collect();
                        // a list member twice is one member twice; keep lists simple
                        l.sort_by_key(|x| x.as_u64());
                        l.dedup();
                        (!l.is_empty()).then(|| json!([c[0], l]))
                    },
                    _ => Some(c.clone()),
                }
            }).collect::<Vec<Value>>();
            s["c"] = json!(c);
        }
        let mut z = Shapes(out);
        if z.circular() {
            for s in z.0.values_mut() {
                for c in s["c"].as_array_mut().unwrap().iter_mut().filter(|c| c[0] == "qual") {
                    c[4] = json!(false);
                }
            }
        }
        z
    }
    /// the shapes that qualified values of this shape must not conform to
    fn siblings(&self, i: u64, x: &Value) -> BTreeSet<u64> {
        let mut sib = BTreeSet::new();
        for par in self.0.values() {
            let props: Vec<u64> = par["c"].as_array().unwrap().iter().filter(|c| c[0] == "property").map(|c| c[1].as_u64().unwrap()).collect();
            if props.contains(&i) {
                for q in props {
                    sib.extend(self.0[&q]["c"].as_array().unwrap().iter().filter(|c| c[0] == "qual" && c[1] != *x).filter_map(|c| c[1].as_u64()));
                }
            }
        }
        sib
    }
    /// Does a shape depend on itself, by way of siblings? (the rest refers to earlier shapes)
    fn circular(&self) -> bool {
        let refs = |i: u64| -> BTreeSet<u64> {
            let mut v = BTreeSet::new();
            for c in self.0[&i]["c"].as_array().unwrap() {
                match c[0].as_str().unwrap() {
                    "property" | "node" | "not" => v.extend(c[1].as_u64()),
                    "and" | "or" | "xone" => v.extend(c[1].as_array().unwrap().iter().filter_map(|x| x.as_u64())),
                    "qual" => {
                        v.extend(c[1].as_u64());
                        if c[4] == json!(true) {
                            v.extend(self.siblings(i, &c[1]));
                        }
                    },
                    _ => {},
                }
            }
            v
        };
        self.0.keys().any(|i| {
            let (mut seen, mut todo) = (BTreeSet::new(), refs(*i));
            while let Some(k) = todo.pop_first() {
                if k == *i {
                    return true;
                }
                if seen.insert(k) {
                    todo.extend(refs(k));
                }
            }
            false
        })
    }
}
impl Shapes {
    fn name(&self, i: u64) -> String {
        if self.0[&i]["b"] == json!(true) { format!("_:s{i}") } else { iri(&format!("s{i}")) }
    }
    pub fn turtle(&self) -> String {
        let mut o = format!("prefix sh: <{SH}>\nprefix xsd: <{XSD}>\n");
        if self.0.values().any(|s| s["c"].as_array().unwrap().iter().any(|c| c[0] == "sPARQL")) {
            o.push_str(&format!("<{E}o> sh:declare [ sh:prefix \"e\" ; sh:namespace \"{E}\"^^xsd:anyURI ] .\n"));
        }
        for (i, s) in &self.0 {
            let mut l = vec![format!("a sh:{}", if s["prop"] == json!(true) { "PropertyShape" } else { "NodeShape" })];
            if let Some(p) = s["path"].as_str() {
                l.push(format!("sh:path {}", Path::of(p).ttl()));
            }
            for t in s["t"].as_array().unwrap() {
                let x = t[1].as_str().unwrap();
                l.push(match t[0].as_str().unwrap() {
                    "node" => format!("sh:targetNode {x}"),
                    "class" => format!("sh:targetClass {}", iri(x)),
                    "implicit" => "a <http://www.w3.org/2000/01/rdf-schema#Class>".into(),
                    "subj" => format!("sh:targetSubjectsOf {}", iri(x)),
                    _ => format!("sh:targetObjectsOf {}", iri(x)),
                });
            }
            for c in s["c"].as_array().unwrap() {
                let k = c[0].as_str().unwrap();
                let x = &c[1];
                l.push(match k {
                    "node" | "property" | "not" => format!("sh:{k} {}", self.name(x.as_u64().unwrap())),
                    "and" | "or" | "xone" => format!("sh:{k} ( {} )", x.as_array().unwrap().iter().map(|y| self.name(y.as_u64().unwrap())).collect::<Vec<_>>().join(" ")),
                    "qual" => format!("sh:qualifiedValueShape {}{}{}{}", self.name(x.as_u64().unwrap()), c[2].as_u64().map_or(String::new(), |n| format!(" ; sh:qualifiedMinCount {n}")), c[3].as_u64().map_or(String::new(), |n| format!(" ; sh:qualifiedMaxCount {n}")), if c[4] == json!(true) { " ; sh:qualifiedValueShapesDisjoint true" } else { "" }),
                    "languageIn" => format!("sh:languageIn ( {} )", x.as_str().unwrap().split(' ').map(|l| format!("{l:?}")).collect::<Vec<_>>().join(" ")),
                    "datatype" => format!("sh:datatype xsd:{}", x.as_str().unwrap()),
                    "nodeKind" => format!("sh:nodeKind sh:{}", x.as_str().unwrap()),
                    "in" => format!("sh:in ( {} )", x.as_array().unwrap().iter().map(|y| y.as_str().unwrap()).collect::<Vec<_>>().join(" ")),
                    "hasValue" => format!("sh:hasValue {}", x.as_str().unwrap()),
                    "pattern" => format!("sh:pattern {x}{}", if c[2] == json!(true) { " ; sh:flags \"i\"" } else { "" }),
                    "closed" => format!("sh:closed true ; sh:ignoredProperties ( {TYPE} {} )", iri(x.as_str().unwrap())),
                    "sPARQL" => {
                        let q = match x.as_u64().unwrap() {
                            0 => format!("SELECT $this ?value WHERE {{ $this e:{} ?value FILTER(isLiteral(?value)) }}", c[2].as_str().unwrap()),
                            1 => format!("SELECT $this ?path ?value WHERE {{ $this ?path ?value FILTER(?path != e:{} && isIRI(?value)) }}", c[2].as_str().unwrap()),
                            _ => format!("SELECT $this ?value WHERE {{ $this $PATH ?value FILTER NOT EXISTS {{ ?value e:{} ?y }} }}", c[2].as_str().unwrap()),
                        };
                        format!("sh:sparql [ sh:prefixes <{E}o> ; sh:select \"{q}\"{} ]", c[3].as_bool().map_or(String::new(), |b| format!(" ; sh:deactivated {b}")))
                    },
                    "class" | "equals" | "disjoint" | "lessThan" | "lessThanOrEquals" => format!("sh:{k} {}", iri(x.as_str().unwrap())),
                    _ => format!("sh:{k} {x}"),
                });
            }
            if s["off"] == json!(true) {
                l.push("sh:deactivated true".into());
            }
            if let Some(v) = s["sev"].as_str() {
                l.push(format!("sh:severity sh:{v}"));
            }
            o.push_str(&format!("{} {} .\n", self.name(*i), l.join(" ; ")));
        }
        o
    }
    fn eval(&self, g: &Graph, i: u64, f: &str, out: &mut BTreeSet<Res>) {
        let s = &self.0[&i];
        if s["off"] == json!(true) {
            return;
        }
        let path = s["path"].as_str();
        let vals: BTreeSet<String> = match path {
            Some(p) => g.path(f, p),
            None => [f.to_string()].into(),
        };
        let rp = match path {
            Some(p) => Path::of(p).shape(),
            None => String::new(),
        };
        let src = if s["b"] == json!(true) { "_".to_string() } else { self.name(i) };
        let sev = s["sev"].as_str().unwrap_or("Violation").to_string();
        let ok = |j: &Value, v: &str| {
            let mut o = BTreeSet::new();
            self.eval(g, j.as_u64().unwrap(), v, &mut o);
            o.is_empty()
        };
        for c in s["c"].as_array().unwrap() {
            let k = c[0].as_str().unwrap();
            let x = &c[1];
            let xs = x.as_str().unwrap_or("");
            let mut add = |comp: &str, path: &str, v: &str| {
                out.insert((f.to_string(), comp.to_string(), path.to_string(), v.to_string(), src.clone(), sev.clone()));
            };
            let comp = {
                let mut z = k.chars();
                z.next().unwrap().to_uppercase().collect::<String>() + z.as_str()
            };
            match k {
                "property" => {
                    for v in &vals {
                        self.eval(g, x.as_u64().unwrap(), v, out);
                    }
                },
                "minCount" if (vals.len() as u64) < x.as_u64().unwrap() => add(&comp, &rp, ""),
                "maxCount" if (vals.len() as u64) > x.as_u64().unwrap() => add(&comp, &rp, ""),
                "minCount" | "maxCount" => {},
                "hasValue" => {
                    if !vals.contains(xs) {
                        add(&comp, &rp, "")
                    }
                },
                "qual" => {
                    // sibling qualified value shapes
                    let sib: Vec<Value> = if c[4] == json!(true) { self.siblings(i, x).into_iter().map(|y| json!(y)).collect() } else { vec![] };
                    let n = vals.iter().filter(|v| ok(x, v) && !sib.iter().any(|y| ok(y, v))).count() as u64;
                    if c[2].as_u64().is_some_and(|m| n < m) {
                        add("QualifiedMinCount", &rp, "");
                    }
                    if c[3].as_u64().is_some_and(|m| n > m) {
                        add("QualifiedMaxCount", &rp, "");
                    }
                },
                "closed" => {
                    let mut allowed: BTreeSet<String> = [TYPE.to_string(), iri(xs)].into();
                    for c in s["c"].as_array().unwrap().iter().filter(|c| c[0] == "property") {
                        if let Some(p) = self.0[&c[1].as_u64().unwrap()]["path"].as_str() {
                            allowed.insert(iri(p));
                        }
                    }
                    for v in &vals {
                        for (_, p, o) in g.all.iter().filter(|t| t.0 == *v && !allowed.contains(&t.1)) {
                            add(&comp, p, o);
                        }
                    }
                },
                "equals" | "disjoint" => {
                    let w = g.objs(f, &iri(xs));
                    if k == "equals" {
                        for v in w.symmetric_difference(&vals) {
                            add(&comp, &rp, v);
                        }
                    } else {
                        for v in w.intersection(&vals) {
                            add(&comp, &rp, v);
                        }
                    }
                },
                "lessThan" | "lessThanOrEquals" => {
                    for w in g.objs(f, &iri(xs)) {
                        for v in &vals {
                            let lt = match (int_of(v), int_of(&w)) {
                                (Some(a), Some(b)) => a < b || (k != "lessThan" && a == b),
                                _ => v.ends_with('"') && w.ends_with('"') && (v < &w || (k != "lessThan" && v == &w)),
                            };
                            if !lt {
                                add(&comp, &rp, v);
                            }
                        }
                    }
                },
                "sPARQL" if c[3] == json!(true) => {},
                "sPARQL" => {
                    let p = iri(c[2].as_str().unwrap());
                    match x.as_u64().unwrap() {
                        0 => g.objs(f, &p).iter().filter(|v| is_lit(v)).for_each(|v| add(&comp, &rp, v)),
                        1 => g.all.iter().filter(|t| t.0 == f && t.1 != p && !is_lit(&t.2)).for_each(|t| add(&comp, &t.1, &t.2)),
                        _ => vals.iter().filter(|v| g.objs(v, &p).is_empty()).for_each(|v| add(&comp, &rp, v)),
                    }
                },
                "uniqueLang" => {
                    let langs: Vec<&str> = vals.iter().filter_map(|v| lang(v)).collect();
                    if langs.iter().any(|l| langs.iter().filter(|m| *m == l).count() > 1) {
                        add(&comp, &rp, "");
                    }
                },
                _ => {
                    for v in &vals {
                        let good = match k {
                            "node" => ok(x, v),
                            "not" => !ok(x, v),
                            "and" => x.as_array().unwrap().iter().all(|j| ok(j, v)),
                            "or" => x.as_array().unwrap().iter().any(|j| ok(j, v)),
                            "xone" => x.as_array().unwrap().iter().filter(|j| ok(j, v)).count() == 1,
                            "datatype" => typed(v, xs),
                            "nodeKind" => xs.contains(if is_lit(v) { "Literal" } else if v.starts_with('_') { "BlankNode" } else { "IRI" }),
                            "in" => x.as_array().unwrap().iter().any(|y| y == v),
                            "class" => g.classes(v).contains(&iri(xs)),
                            "languageIn" => lang(v).is_some_and(|l| xs.split(' ').any(|x| l == x || l.starts_with(&format!("{x}-")))),
                            "minLength" | "maxLength" | "pattern" if v.starts_with('_') => false,
                            "maxLength" => lex(v).chars().count() as u64 <= x.as_u64().unwrap(),
                            "minLength" => lex(v).chars().count() as u64 >= x.as_u64().unwrap(),
                            "pattern" => match xs {
                                "n[0-2]$" => ["n0", "n1", "n2"].iter().any(|e| lex(v).ends_with(e)),
                                "^b" | "^B" => lex(v).starts_with(if c[2] == json!(true) { "b" } else { xs.trim_start_matches('^') }),
                                "N1" => c[2] == json!(true) && lex(v).contains("n1"),
                                _ => lex(v).contains('x'),
                            },
                            "minInclusive" => num(v).is_some_and(|n| n >= 2 * x.as_i64().unwrap()),
                            "minExclusive" => num(v).is_some_and(|n| n > 2 * x.as_i64().unwrap()),
                            "maxInclusive" => num(v).is_some_and(|n| n <= 2 * x.as_i64().unwrap()),
                            "maxExclusive" => num(v).is_some_and(|n| n < 2 * x.as_i64().unwrap()),
                            _ => unreachable!(),
                        };
                        if !good {
                            let comp = match k {
                                "closed" => "Closed",
                                _ => comp.as_str(),
                            };
                            add(comp, &rp, v);
                        }
                    }
                },
            }
        }
    }
    pub fn results(&self, g: &Graph) -> BTreeSet<Res> {
        let mut out = BTreeSet::new();
        for (i, s) in &self.0 {
            let mut foc = BTreeSet::new();
            for t in s["t"].as_array().unwrap() {
                let x = t[1].as_str().unwrap();
                match t[0].as_str().unwrap() {
                    "node" => {
                        foc.insert(x.to_string());
                    },
                    "class" | "implicit" => {
                        let c = if x.is_empty() { self.name(*i) } else { iri(x) };
                        foc.extend(g.all.iter().filter(|t| t.1 == TYPE && g.classes(&t.0).contains(&c)).map(|t| t.0.clone()))
                    },
                    "subj" => foc.extend(g.all.iter().filter(|t| t.1 == iri(x)).map(|t| t.0.clone())),
                    _ => foc.extend(g.all.iter().filter(|t| t.1 == iri(x)).map(|t| t.2.clone())),
                }
            }
            for f in foc {
                self.eval(g, *i, &f, &mut out);
            }
        }
        // blank nodes have no name in a report
        let m = |t: String| if t.starts_with('_') { "_".to_string() } else { t };
        out.into_iter().map(|r| (m(r.0), r.1, r.2, m(r.3), r.4, r.5)).collect()
    }
}
/// sh:conforms and the results of a report, with source shape and severity
pub fn full_report(b: &[u8]) -> Result<(bool, BTreeSet<Res>), String> {
    let d = quads("ttl", b)?;
    let get = |n: oxrdf::NamedOrBlankNodeRef, l: &str| -> String {
        let p = oxrdf::NamedNode::new_unchecked(format!("{SH}{l}"));
        let mut v: Vec<String> =
            d.quads_for_subject(n).filter(|q| q.predicate == p.as_ref()).map(|q| if q.object.is_blank_node() { "_".to_string() } else { q.object.to_string() }).collect();
        v.sort();
        v.join("|")
    };
    let path = |n: oxrdf::NamedOrBlankNodeRef| {
        let mut v: Vec<String> = d.quads_for_subject(n).filter(|q| q.predicate.as_str() == format!("{SH}resultPath")).map(|q| path_of(&d, q.object, 0)).collect();
        v.sort();
        v.join("|")
    };
    let (pc, pr) = (oxrdf::NamedNode::new_unchecked(format!("{SH}conforms")), oxrdf::NamedNode::new_unchecked(format!("{SH}result")));
    let conf: Vec<bool> = d.quads_for_predicate(&pc).map(|q| q.object.to_string().contains("true")).collect();
    if conf.len() != 1 {
        return Err(format!("{} sh:conforms values", conf.len()));
    }
    let mut out = BTreeSet::new();
    for q in d.quads_for_predicate(&pr) {
        let oxrdf::TermRef::BlankNode(n) = q.object else { return Err("result is not a blank node".into()) };
        let n: oxrdf::NamedOrBlankNodeRef = n.into();
        let sh = |l: &str| get(n, l).trim_start_matches(&format!("<{SH}")).trim_end_matches('>').to_string();
        out.insert((get(n, "focusNode"), sh("sourceConstraintComponent").trim_end_matches("ConstraintComponent").to_string(), path(n), get(n, "value"), get(n, "sourceShape"), sh("resultSeverity")));
    }
    Ok((conf[0], out))
}

pub fn generate(r: &mut Rng, nodes: u64, n: u64, k: u64) -> Value {
    let mode = *r.pick(&["native", "native", "sparql"]);
    // (the SPARQL engine cannot name blank nodes in its queries)
    let blanks = mode == "native" && r.pct(50);
    let mut w = json!({"data": data(r, nodes, n, blanks), "ops": shapes(r, nodes, k), "mode": mode});
    if blanks {
        for s in w["ops"].as_array_mut().unwrap() {
            s["c"].as_array_mut().unwrap().retain(|c| c[0] != "sPARQL");
        }
    }
    w
}
pub fn shrink(w: &Value) -> Vec<Value> {
    let mut v = shrink_array(w, "ops");
    v.extend(shrink_array(w, "data"));
    for (i, s) in w["ops"].as_array().unwrap().iter().enumerate() {
        for k in ["c", "t"] {
            if s[k].as_array().unwrap().len() > 1 || k == "c" {
                for x in shrink_array(s, k) {
                    let mut z = w.clone();
                    z["ops"][i] = x;
                    v.push(z);
                }
            }
        }
    }
    v
}

/// is this the report of the reference evaluator?
pub fn judge(w: &Value, b: &[u8]) -> Verdict {
    let (g, s) = (Graph::of(&w["data"]), Shapes::of(&w["ops"]));
    let (conf, got) = match full_report(b) {
        Ok(x) => x,
        Err(e) => return violation("bad-report", e),
    };
    let want = s.results(&g);
    if got != want {
        return violation(
            "wrong-results",
            format!("missing {:?}, unexpected {:?}", want.difference(&got).take(4).collect::<Vec<_>>(), got.difference(&want).take(4).collect::<Vec<_>>()),
        );
    }
    if conf != want.is_empty() {
        return violation("wrong-verdict", format!("sh:conforms {conf} with {} results", want.len()));
    }
    Verdict::Held(!want.is_empty())
}

pub struct ShaclGen;
impl Scenario for ShaclGen {
    fn property(&self) -> &'static str {
        "V01"
    }
    fn rule(&self) -> &'static str {
        "each run validates a generated data graph against a generated shapes graph on simulated CPUs and threads; non-trivial when the reference evaluator expects at least one result"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rudof_cli main", "rudof_lib", "shacl: parser, compiler, dependency levels, parallel validation, shared cache, report", "rayon"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["disk, stdout, scheduler, clock, entropy"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let big = tier == Tier::Thorough && r.pct(30);
        let nodes = *r.pick(&[2u64, 3, 5, 6]);
        let n = *r.pick(if big { &[30u64, 80][..] } else { &[4, 8, 12, 20] });
        let k = *r.pick(if big { &[8u64, 16, 30][..] } else { &[2, 3, 5, 8] });
        generate(r, nodes, n, k)
    }
    fn shrink(&self, w: &Value) -> Vec<Value> {
        shrink(w)
    }
    fn next(&self, w: &Value, seed: u64, done: &[Out]) -> Next {
        let (g, s) = (Graph::of(&w["data"]), Shapes::of(&w["ops"]));
        if let Some(o) = done.last() {
            if o.gave_up() {
                return Next::Done(Verdict::Inconclusive(format!("{} {}", o.status, o.msg)));
            }
            if code(o) != Some(0) {
                return Next::Done(violation("no-report", format!("validation ended with {} {} {} {}", o.status, o.msg, o.extra["msg"], super::m01::tail(&o.stderr))));
            }
            let b = o.image().get("/o/r").and_then(fs::bytes_of).unwrap_or_default();
            return Next::Done(judge(w, &b));
        }
        let mut p = Phase::new(draw_cfg(seed, 0));
        for d in ["/w", "/home", "/tmp", "/o"] {
            p.image.insert(d.into(), fs::Node::Dir);
        }
        p.image.insert("/w/d.nt".into(), fs::Node::Text(g.ntriples()));
        p.image.insert("/w/s.ttl".into(), fs::Node::Text(s.turtle()));
        p.env = env();
        p.args = ["rudof", "shacl-validate", "-s", "/sim/w/s.ttl", "/sim/w/d.nt", "-t", "ntriples", "-m", w["mode"].as_str().unwrap(), "-r", "turtle", "-o", "/sim/o/r"].map(String::from).to_vec();
        Next::Run(Box::new(p))
    }
    fn body(&self, _w: &Value, _phase: usize, _carry: &Value) -> Value {
        run_main()
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        match t {
            Tier::Quick => (1_000_000, 45),
            Tier::Thorough => (4_000_000, 1500),
        }
    }
    fn describe(&self, w: &Value) -> Value {
        json!({"data": Graph::of(&w["data"]).ntriples(), "shapes": Shapes::of(&w["ops"]).turtle(), "mode": w["mode"]})
    }
}
