//! V02: generated ShEx schemas against a reference matcher, under every hash seed and schedule.
//!
//! The reference follows the ShEx specification: the triples of a node whose predicate a shape
//! mentions must be distributed over its triple constraints so that the counts belong to the bag
//! language of the triple expression; a triple left over is allowed only when its predicate is in
//! EXTRA and it satisfies no constraint of that predicate; CLOSED allows no other predicates.
//! References are read as the greatest typing, and negation (NOT, EXTRA) only reaches shapes of a
//! lower stratum, as the specification demands.
use super::cli::{code, env, run_main};
use super::vshacl::{Graph, int, int_of, iri, is_lit};
use crate::runner::*;
use crate::sim::{fs, rng::Rng};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};

const XSD: &str = "http://www.w3.org/2001/XMLSchema#";

/// literals of further datatypes: lexical form, datatype, value in thousandths (if a number)
const ODD: [(&str, &str, Option<i64>); 32] = [
    ("-2", "integer", Some(-2000)), ("10", "integer", Some(10000)), ("02", "integer", Some(2000)), ("x", "integer", None), ("2.0", "integer", None),
    ("2.5", "decimal", Some(2500)), ("2.50", "decimal", Some(2500)), ("-0.5", "decimal", Some(-500)), ("3.0", "decimal", Some(3000)), ("12.25", "decimal", Some(12250)), ("0.1", "decimal", Some(100)), ("-0.4", "decimal", Some(-400)), ("1.2", "decimal", Some(1200)), ("+1.5", "decimal", Some(1500)), ("y", "decimal", None),
    ("1.5E0", "double", Some(1500)), ("2.0E0", "double", Some(2000)), ("3.5", "float", Some(3500)), ("z", "double", None),
    ("3", "byte", Some(3000)), ("300", "byte", None), ("2", "nonNegativeInteger", Some(2000)), ("-1", "nonNegativeInteger", None), ("1", "long", Some(1000)), ("4", "unsignedInt", Some(4000)), ("0", "positiveInteger", None),
    ("true", "boolean", None), ("maybe", "boolean", None), ("2020-02-29", "date", None), ("2020-01-01T00:00:00Z", "dateTime", None), ("nope", "dateTime", None), ("a", "normalizedString", None),
];
fn typed(l: &str, dt: &str) -> String {
    format!("\"{l}\"^^<{XSD}{dt}>")
}
fn odd(r: &mut Rng) -> String {
    let x = r.pick(&ODD);
    typed(x.0, x.1)
}
/// the value of a number, in thousandths
fn num(v: &str) -> Option<i64> {
    int_of(v).map(|n| n * 1000).or_else(|| ODD.iter().find(|o| typed(o.0, o.1) == v)?.2)
}
/// is this literal of the datatype, and well formed?
fn has_type(v: &str, dt: &str) -> bool {
    match ODD.iter().find(|o| typed(o.0, o.1) == v) {
        Some(o) => o.1 == dt && (o.2.is_some() || ["true", "2020-02-29", "2020-01-01T00:00:00Z"].contains(&o.0) || o.1 == "normalizedString"),
        None if dt == "integer" => int_of(v).is_some(),
        None => dt == "string" && is_lit(v) && v.ends_with('"'),
    }
}
fn thousandths(e: &Value) -> i64 {
    match e.as_str() {
        Some(t) => (t.parse::<f64>().unwrap() * 1000.0).round() as i64,
        None => e.as_i64().unwrap() * 1000,
    }
}

pub fn data(r: &mut Rng, nodes: u64, n: u64) -> Vec<Value> {
    let mut v = BTreeSet::new();
    for _ in 0..n {
        let s = if r.pct(6) { "_:b0".to_string() } else { iri(&format!("n{}", r.below(nodes))) };
        let o = match r.below(12) {
            0..=2 if r.pct(25) => odd(r),
            0..=2 => int(r.range(1, 4) as i64),
            3 | 4 => (*r.pick(&["\"a\"", "\"bb\"", "\"ccc\""])).to_string(),
            5 => (*r.pick(&["\"x\"@en", "\"y\"@fr", "\"y\"@en-us"])).to_string(),
            6 => if r.pct(50) { "_:b0".to_string() } else { iri("m1") },
            _ => iri(&format!("n{}", r.below(nodes))),
        };
        v.insert((s, iri(&format!("p{}", r.below(3))), o));
    }
    v.into_iter().map(|t| json!(t)).collect()
}

/// node constraints: one array of facets, all of which must hold
fn nc(r: &mut Rng) -> Value {
    match r.below(9) {
        0 if r.pct(30) => json!(["dt", r.pick(&ODD).1]),
        0 => json!(["dt", *r.pick(&["integer", "string"])]),
        1 | 2 => json!(["kind", *r.pick(&["IRI", "LITERAL", "BNODE", "NONLITERAL"])]),
        3 if r.pct(30) => json!(["len", *r.pick(&["MINLENGTH", "MAXLENGTH", "LENGTH"]), r.range(12, 14), "IRI"]),
        3 => json!(["len", *r.pick(&["MINLENGTH", "MAXLENGTH", "LENGTH"]), r.range(1, 3)]),
        4 if r.pct(30) => {
            let n = json!(["num", *r.pick(&["MININCLUSIVE", "MINEXCLUSIVE", "MAXINCLUSIVE", "MAXEXCLUSIVE"]), *r.pick(&["2.5", "1.5", "-0.5", "-2", "3.0", "2.0E0", "0.05", "-0.05", "1.05", "+1.5", ".5", "-0.5e1", "12.250"])]);
            if r.pct(50) { json!(["all", [["dt", r.pick(&ODD).1], n]]) } else { n }
        },
        4 => {
            let n = json!(["num", *r.pick(&["MININCLUSIVE", "MINEXCLUSIVE", "MAXINCLUSIVE", "MAXEXCLUSIVE"]), r.range(1, 4)]);
            if r.pct(50) { json!(["all", [["dt", "integer"], n]]) } else { n }
        },
        5 if r.pct(40) => json!(["re", *r.pick(&["^b", "n[0-2]$", "c+", "x|y"]), *r.pick(&["IRI", "LITERAL"])]),
        _ => {
            let n = r.range(1, 3);
            let mut s = BTreeSet::new();
            if r.pct(12) {
                // (which terms a wildcard matches beyond those of the kind of its exclusions is left open)
                let (kind, x) = match r.below(3) {
                    0 => ("IRI", format!(". - {} - <http://e.x/n{}>{}", iri("m1"), r.below(3), if r.pct(50) { "~" } else { "" })),
                    1 => ("@", (*r.pick(&[". - @en", ". - @en~", ". - @fr - @en-us~"])).to_string()),
                    _ => ("LITERAL", (*r.pick(&[". - \"a\"", ". - \"bb\" - \"a\"~", ". - \"b\"~"])).to_string()),
                };
                let k = if kind == "@" { json!(["in", ["@en~", "@fr~"]]) } else { json!(["kind", kind]) };
                return json!(["and", [k, ["in", [x]]]]);
            }
            for _ in 0..n {
                s.insert(match r.below(15) {
                    12 => (*r.pick(&["\"b\"~ - \"bb\"", "\"\"~ - \"a\"~", "\"b\"~ - \"bbb\"~", "\"c\"~ - \"cc\"~ - \"a\""])).to_string(),
                    13 => (*r.pick(&["@en~ - @en-us~", "@en-us", "@en~ - @fr - @en", "@fr~"])).to_string(),
                    14 => odd(r),
                    9 => "\"b\"~".to_string(),
                    10 => format!("@en~ - @en-us"),
                    11 => format!("<http://e.x/n>~ - {} - <http://e.x/n1>~", iri(&format!("n{}", r.below(3)))),
                    0..=2 => int(r.range(1, 4) as i64),
                    3 => (*r.pick(&["\"a\"", "\"bb\"", "\"x\"@en"])).to_string(),
                    4 => "@en~".to_string(),
                    5 => "@fr".to_string(),
                    6 => "<http://e.x/n>~".to_string(),
                    7 => format!("<http://e.x/n>~ - {}", iri(&format!("n{}", r.below(3)))),
                    _ => iri(&format!("n{}", r.below(4))),
                });
            }
            json!(["in", s])
        },
    }
}
struct Gen<'a> {
    r: &'a mut Rng,
    /// references that may occur positively, and anywhere
    pos: Vec<u64>,
    low: Vec<u64>,
    /// named triple expressions of earlier shapes
    names: Vec<u64>,
}
impl Gen<'_> {
    fn lower(&mut self) {
        self.pos = self.low.clone();
        self.names.clear();
    }
    fn card(&mut self) -> Value {
        let c: &[i64; 2] = self.r.pick(&[[1, 1], [1, 1], [0, 1], [0, -1], [1, -1], [0, -1], [2, 2], [1, 2], [2, -1], [0, 2], [0, 0]]);
        json!(c)
    }
    fn value(&mut self, extra: bool, budget: &mut u64) -> Value {
        let refs = if extra { &self.low } else { &self.pos };
        if !refs.is_empty() && self.r.pct(40) {
            let x = *self.r.pick(refs);
            if self.r.pct(15) && !self.low.is_empty() {
                let y = *self.r.pick(&self.low);
                return json!(["and", [["ref", x], ["not", ["ref", y]]]]);
            }
            return json!(["ref", x]);
        }
        if self.r.pct(20) && *budget > 0 {
            let (pos, names) = (self.pos.clone(), self.names.clone());
            if extra {
                self.lower();
            }
            *budget -= 1;
            let depth = if *budget > 1 && self.r.pct(50) { 1 } else { 0 };
            let e = self.expr_with(depth, budget);
            (self.pos, self.names) = (pos, names);
            return e;
        }
        if self.r.pct(25) { json!(["any"]) } else { nc(self.r) }
    }
    fn te(&mut self, depth: u64, extra: &[String], budget: &mut u64) -> Value {
        let k = self.r.below(10);
        if depth == 0 || k < 3 || *budget < 2 {
            *budget = budget.saturating_sub(1);
            if self.r.pct(8) {
                // (an incoming arc that no constraint can take is outside the reference model)
                return json!({"tc": format!("^p{}", self.r.below(3)), "v": ["any"], "card": if self.r.pct(50) { json!([0, -1]) } else { json!([1, -1]) }});
            }
            let p = format!("p{}", self.r.below(3));
            let v = self.value(extra.contains(&p), budget);
            return json!({"tc": p, "v": v, "card": self.card()});
        }
        if !self.names.is_empty() && self.r.pct(10) && extra.is_empty() {
            return json!({"inc": *self.r.pick(&self.names)});
        }
        let n = self.r.range(2, 3);
        let v: Vec<Value> = (0..n).map(|_| self.te(depth - 1, extra, budget)).collect();
        let c = if self.r.pct(70) { json!([1, 1]) } else { self.card() };
        json!({if k < 7 { "each" } else { "one" }: v, "card": c})
    }
    fn shape(&mut self, budget: &mut u64, plain: bool) -> Value {
        let extra: Vec<String> = if !plain && self.r.pct(35) { vec![format!("p{}", self.r.below(3))] } else { vec![] };
        let te = if self.r.pct(4) { Value::Null } else { self.te(2, &extra, budget) };
        let mut m = BTreeSet::new();
        preds(&te, &mut m);
        let extra: Vec<String> = extra.into_iter().filter(|p| m.contains(p)).collect();
        json!(["shape", {"closed": !plain && self.r.pct(25), "extra": extra, "te": te}])
    }
    fn expr(&mut self, depth: u64) -> Value {
        self.expr_with(depth, &mut 5)
    }
    fn expr_with(&mut self, depth: u64, budget: &mut u64) -> Value {
        if depth == 0 {
            return match self.r.below(6) {
                0 => nc(self.r),
                1 if !self.pos.is_empty() => json!(["ref", *self.r.pick(&self.pos)]),
                _ => self.shape(budget, false),
            };
        }
        match self.r.below(8) {
            k @ (0 | 1) => {
                let n = self.r.range(2, 3);
                json!([if k == 0 { "and" } else { "or" }, (0..n).map(|_| self.expr_with(depth - 1, budget)).collect::<Vec<_>>()])
            },
            2 => {
                let (pos, names) = (self.pos.clone(), self.names.clone());
                self.lower();
                let e = self.expr_with(depth - 1, budget);
                (self.pos, self.names) = (pos, names);
                json!(["not", e])
            },
            _ => self.expr_with(0, budget),
        }
    }
}
fn preds(te: &Value, m: &mut BTreeSet<String>) {
    if let Some(p) = te["tc"].as_str() {
        m.insert(p.to_string());
    }
    for k in ["each", "one"] {
        for x in te[k].as_array().into_iter().flatten() {
            preds(x, m);
        }
    }
}
/// Shapes 0..low may be negated by the others; positive references are free within a stratum.
pub fn schema(r: &mut Rng, n: u64) -> Vec<Value> {
    let low = if n < 2 { 0 } else { r.range(1, n - 1) };
    let (files, inherit) = (*r.pick(&[1u64, 1, 1, 2, 3]), r.pct(35));
    // shapes that others may extend, and the stratum they are in
    let mut bases: Vec<u64> = vec![];
    let mut names: [Vec<u64>; 2] = [vec![], vec![]];
    let mut ops: Vec<Value> = (0..n)
        .map(|i| {
            let (pos, l) = if i < low { ((0..low).collect(), vec![]) } else { ((0..n).collect(), (0..low).collect()) };
            let nm = names[(i >= low) as usize].clone();
            let mut g = Gen { r, pos, low: l, names: nm };
            let mut op = json!({"id": i, "file": if i == 0 { 0 } else { g.r.below(files) }});
            if inherit && g.r.pct(60) {
                let mut budget = 3;
                let same: Vec<u64> = bases.iter().copied().filter(|b| (*b < low) == (i < low)).collect();
                let mut ext = BTreeSet::new();
                if !same.is_empty() && g.r.pct(80) {
                    for _ in 0..g.r.range(1, 2) {
                        ext.insert(*g.r.pick(&same));
                    }
                }
                let e = g.shape(&mut budget, true);
                if ext.is_empty() || g.r.pct(50) {
                    bases.push(i);
                }
                op["ext"] = json!(ext);
                op["e"] = e;
                return op;
            }
            // a reference to itself or a cycle without a triple constraint in between is not
            // allowed: top level references only go to smaller shapes
            let mut e = g.expr(2);
            if e[0] == "shape" && e[1]["te"]["tc"].is_null() && e[1]["te"].is_object() && e[1]["te"]["inc"].is_null() && e[1]["extra"] == json!([]) && g.r.pct(40) {
                e[1]["te"]["name"] = json!(i);
                names[(i >= low) as usize].push(i);
            }
            unloop(&mut e, i, low, &mut 0);
            op["e"] = e;
            op
        })
        .collect();
    // a shape that others extend may be abstract: then only those of its heirs count
    let parents: BTreeSet<u64> = ops.iter().flat_map(|s| ids(&s["ext"])).collect();
    for p in parents {
        if r.pct(25) {
            ops[p as usize]["abs"] = json!(true);
        }
    }
    ops
}
/// outside triple expressions, references only go to shapes with a smaller number
fn unloop(e: &mut Value, i: u64, low: u64, kept: &mut u64) {
    match e[0].as_str().unwrap() {
        "ref" => {
            let x = e[1].as_u64().unwrap();
            if x >= i {
                *e = if i == 0 { json!(["kind", "IRI"]) } else { json!(["ref", x % i.min(if x < low { low } else { i })]) };
            }
            *kept += 1;
        },
        "and" | "or" => {
            for x in e[1].as_array_mut().unwrap() {
                unloop(x, i, low, kept);
            }
        },
        "not" => unloop(&mut e[1], i, low, kept),
        _ => {},
    }
}

// ---- concrete syntax
fn nc_text(e: &Value) -> String {
    let s = |i: usize| e[i].as_str().unwrap();
    match s(0) {
        "any" => ".".into(),
        "dt" => format!("<{XSD}{}>", s(1)),
        "kind" => s(1).into(),
        "len" => format!("{} {} {}", e[3].as_str().unwrap_or("LITERAL"), s(1), e[2]),
        "num" => format!("{} {}", s(1), e[2].as_str().map_or_else(|| e[2].to_string(), str::to_string)),
        // (the label of a blank node is not a thing to rely on)
        "re" => format!("{} /{}/", e[2].as_str().unwrap_or("LITERAL"), s(1)),
        "all" => e[1].as_array().unwrap().iter().map(nc_text).collect::<Vec<_>>().join(" "),
        _ => format!("[{}]", e[1].as_array().unwrap().iter().enumerate().map(|(i, x)| short(x.as_str().unwrap(), i)).collect::<Vec<_>>().join(" ")),
    }
}
/// every other number or truth value without quotes (a sign could also be read as the start of an
/// exclusion)
fn short(x: &str, i: usize) -> &str {
    let t = ["integer", "decimal", "double", "boolean"].iter().any(|t| x.ends_with(&format!("#{t}>")) && has_type(x, t));
    if t && i % 2 == 1 && !lex(x).starts_with(['+', '-']) { lex(x) } else { x }
}
fn label(i: &Value) -> String {
    iri(&format!("S{i}"))
}
fn value_text(e: &Value) -> String {
    match e[0].as_str().unwrap() {
        "and" | "or" => format!("({})", expr_text(e)),
        _ => expr_text(e),
    }
}
fn card_text(c: &Value) -> String {
    match (c[0].as_i64().unwrap(), c[1].as_i64().unwrap()) {
        (1, 1) => "".into(),
        (0, 1) => " ?".into(),
        (0, -1) => " *".into(),
        (1, -1) => " +".into(),
        (a, -1) => format!(" {{{a},}}"),
        (a, b) if a == b => format!(" {{{a}}}"),
        (a, b) => format!(" {{{a},{b}}}"),
    }
}
fn te_text(te: &Value, top: bool) -> String {
    if let Some(i) = te["inc"].as_u64() {
        return format!("&{}", iri(&format!("t{i}")));
    }
    if let Some(i) = te["name"].as_u64() {
        let mut t = te.clone();
        t["name"] = Value::Null;
        let t = te_text(&t, false);
        return format!("${} {}", iri(&format!("t{i}")), t);
    }
    if let Some(p) = te["tc"].as_str() {
        let p = p.strip_prefix('^').map_or_else(|| iri(p), |q| format!("^{}", iri(q)));
        return format!("{p} {}{}", value_text(&te["v"]), card_text(&te["card"]));
    }
    for (k, sep) in [("each", " ; "), ("one", " | ")] {
        if let Some(v) = te[k].as_array() {
            let b = v.iter().map(|x| te_text(x, false)).collect::<Vec<_>>().join(sep);
            let c = card_text(&te["card"]);
            return if top && c.is_empty() { b } else { format!("( {b} ){c}") };
        }
    }
    String::new()
}
fn expr_text(e: &Value) -> String {
    let paren = |x: &Value| format!("({})", expr_text(x));
    match e[0].as_str().unwrap() {
        "ref" => format!("@{}", label(&e[1])),
        k @ ("and" | "or") => e[1].as_array().unwrap().iter().map(paren).collect::<Vec<_>>().join(if k == "and" { " AND " } else { " OR " }),
        "not" => format!("NOT {}", paren(&e[1])),
        "shape" => {
            let s = &e[1];
            let x: Vec<String> = s["extra"].as_array().unwrap().iter().map(|p| iri(p.as_str().unwrap())).collect();
            format!(
                "{}{}{{ {} }}",
                if s["closed"] == true { "CLOSED " } else { "" },
                if x.is_empty() { String::new() } else { format!("EXTRA {} ", x.join(" ")) },
                te_text(&s["te"], true)
            )
        },
        _ => nc_text(e),
    }
}
/// which file imports which, when the workload says so
fn edges(w: &Value) -> Vec<(u64, u64)> {
    w["imports"].as_array().into_iter().flatten().map(|e| (e[0].as_u64().unwrap(), e[1].as_u64().unwrap())).collect()
}
/// the files of a schema; the first imports the others, which import each other in a ring
pub fn texts(w: &Value) -> BTreeMap<u64, String> {
    let mut m: BTreeMap<u64, String> = [(0, String::new())].into();
    for s in w["ops"].as_array().unwrap() {
        let ext: String = s["ext"].as_array().into_iter().flatten().map(|p| format!("EXTENDS @{} ", label(p))).collect();
        let and: String = s["and"].as_array().into_iter().flatten().map(|c| format!(" AND ({})", expr_text(c))).collect();
        m.entry(s["file"].as_u64().unwrap_or(0)).or_default().push_str(&format!("{}{} {ext}{}{and}\n", if s["abs"] == true { "ABSTRACT " } else { "" }, label(&s["id"]), expr_text(&s["e"])));
    }
    let given = edges(w);
    for (f, g) in &given {
        m.entry(*f).or_default();
        m.entry(*g).or_default();
    }
    let files: Vec<u64> = m.keys().copied().collect();
    for (i, f) in files.iter().enumerate() {
        let mut t = String::new();
        let to: Vec<u64> = if w["imports"].is_array() {
            given.iter().filter(|e| e.0 == *f).map(|e| e.1).collect()
        } else if files.len() < 2 {
            vec![]
        } else if i == 0 {
            files[1..].to_vec()
        } else {
            vec![files[(i + 1) % files.len()]]
        };
        for g in to {
            t.push_str(&format!("import <file:///sim/w/s{g}.shex>\n"));
        }
        if let (0, Some(x)) = (i, w["start"].as_u64()) {
            t.push_str(&format!("start = @{}\n", label(&json!(x))));
        }
        let body = m[f].clone();
        m.insert(*f, t + &body);
    }
    m
}

// ---- reference
type Bag = Vec<u8>;
fn lex(t: &str) -> &str {
    if is_lit(t) { t[1..].split('"').next().unwrap() } else { t.trim_matches(|c| c == '<' || c == '>') }
}
fn nc_ok(e: &Value, v: &str) -> bool {
    let s = |i: usize| e[i].as_str().unwrap();
    match s(0) {
        "any" => true,
        "dt" => has_type(v, s(1)),
        "kind" => match s(1) {
            "IRI" => v.starts_with('<'),
            "LITERAL" => is_lit(v),
            "BNODE" => v.starts_with('_'),
            _ => !is_lit(v),
        },
        "len" => {
            let (n, m) = (lex(v).chars().count() as u64, e[2].as_u64().unwrap());
            (if e[3] == "IRI" { v.starts_with('<') } else { is_lit(v) }) && match s(1) {
                "MINLENGTH" => n >= m,
                "MAXLENGTH" => n <= m,
                _ => n == m,
            }
        },
        "num" => num(v).is_some_and(|n| {
            let m = thousandths(&e[2]);
            match s(1) {
                "MININCLUSIVE" => n >= m,
                "MINEXCLUSIVE" => n > m,
                "MAXINCLUSIVE" => n <= m,
                _ => n < m,
            }
        }),
        "all" => e[1].as_array().unwrap().iter().all(|x| nc_ok(x, v)),
        "re" if v.starts_with('_') || is_lit(v) != (e[2] != "IRI") => false,
        "re" => match s(1) {
            "^b" => lex(v).starts_with('b'),
            "n[0-2]$" => ["n0", "n1", "n2"].iter().any(|x| lex(v).ends_with(x)),
            "c+" => lex(v).contains('c'),
            _ => lex(v).contains(['x', 'y']),
        },
        _ => e[1].as_array().unwrap().iter().any(|x| {
            let mut parts = x.as_str().unwrap().split(" - ");
            vs_ok(parts.next().unwrap(), v) && !parts.any(|y| vs_ok(y, v) || is_lit(y) && !y.ends_with('~') && is_lit(v) && lex(y) == lex(v))
        }),
    }
}
/// a term of a value set: a value, a stem or a language
fn vs_ok(x: &str, v: &str) -> bool {
    let lang = v.rsplit_once("\"@").map(|l| l.1);
    if let Some(l) = x.strip_prefix('@') {
        return match l.strip_suffix('~') {
            Some(l) => lang.is_some_and(|m| m == l || m.starts_with(&format!("{l}-"))),
            None => lang == Some(l),
        };
    }
    if x == "." {
        return true;
    }
    match x.strip_suffix('~') {
        Some(stem) if is_lit(stem) => is_lit(v) && lex(v).starts_with(lex(stem)),
        Some(stem) => v.starts_with(stem.trim_end_matches('>')),
        None => v == x,
    }
}
/// leaves of a triple expression, in order
fn leaves<'a>(te: &'a Value, v: &mut Vec<&'a Value>) {
    if te["tc"].is_string() {
        v.push(te);
    }
    for k in ["each", "one"] {
        for x in te[k].as_array().into_iter().flatten() {
            leaves(x, v);
        }
    }
}
fn nleaves(te: &Value) -> usize {
    let mut v = vec![];
    leaves(te, &mut v);
    v.len()
}
/// does this bag (count per leaf of `te`) belong to the language of `te`, cardinality included?
fn member(te: &Value, b: &[u8]) -> bool {
    let (lo, hi) = (te["card"][0].as_i64().unwrap(), te["card"][1].as_i64().unwrap());
    if te["tc"].is_string() {
        let n = b[0] as i64;
        return n >= lo && (hi < 0 || n <= hi);
    }
    if (lo, hi) == (1, 1) {
        return body(te, b);
    }
    let mut memo = BTreeMap::new();
    let ks = splits(te, b, &mut memo);
    let nullable = body(te, &vec![0; b.len()]);
    ks.iter().any(|k| {
        let k = *k as i64;
        (hi < 0 || k <= hi) && (k >= lo || nullable)
    })
}
/// numbers of non-empty parts the bag can be split into, each in the language of the body
fn splits(te: &Value, b: &[u8], memo: &mut BTreeMap<Bag, BTreeSet<u8>>) -> BTreeSet<u8> {
    if b.iter().all(|x| *x == 0) {
        return [0].into();
    }
    if let Some(x) = memo.get(b) {
        return x.clone();
    }
    let mut out = BTreeSet::new();
    let mut part: Bag = vec![0; b.len()];
    // every sub-bag in turn
    loop {
        let mut i = 0;
        while i < b.len() && part[i] == b[i] {
            part[i] = 0;
            i += 1;
        }
        if i == b.len() {
            break;
        }
        part[i] += 1;
        if body(te, &part) {
            let rest: Bag = b.iter().zip(&part).map(|(x, y)| x - y).collect();
            out.extend(splits(te, &rest, memo).into_iter().map(|k| k + 1));
        }
    }
    memo.insert(b.to_vec(), out.clone());
    out
}
fn body(te: &Value, b: &[u8]) -> bool {
    let parts = |v: &[Value]| {
        let mut at = 0;
        v.iter()
            .map(|x| {
                let n = nleaves(x);
                at += n;
                (at - n, at)
            })
            .collect::<Vec<_>>()
    };
    if let Some(v) = te["each"].as_array() {
        return v.iter().zip(parts(v)).all(|(x, (i, j))| member(x, &b[i..j]));
    }
    if let Some(v) = te["one"].as_array() {
        return v.iter().zip(parts(v)).any(|(x, (i, j))| b[..i].iter().chain(&b[j..]).all(|n| *n == 0) && member(x, &b[i..j]));
    }
    b[0] == 1
}

/// replaces the included triple expressions by copies
fn include(v: &mut Value, named: &BTreeMap<u64, Value>) {
    if let Some(i) = v["inc"].as_u64() {
        *v = named[&i].clone();
    }
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| include(x, named)),
        Value::Object(o) => o.values_mut().for_each(|x| include(x, named)),
        _ => {},
    }
}
fn ids(v: &Value) -> Vec<u64> {
    v.as_array().into_iter().flatten().map(|p| p.as_u64().unwrap()).collect()
}
/// One way to combine a shape with the shapes it extends.
struct Selection {
    te: Value,
    /// the shape that each leaf of `te` comes from
    owner: Vec<u64>,
    /// conditions on the triples that go to some of the shapes
    rules: Vec<(BTreeSet<u64>, Value)>,
}
#[derive(Clone, Default)]
struct Parts {
    buckets: BTreeSet<u64>,
    rules: Vec<(BTreeSet<u64>, Value)>,
}
fn selections(ops: &BTreeMap<u64, &Value>, i: u64) -> Vec<Parts> {
    let s = ops[&i];
    if s["alts"].is_array() {
        return ids(&s["alts"]).iter().flat_map(|a| selections(ops, *a)).collect();
    }
    let mut all = vec![Parts { buckets: [i].into(), rules: vec![] }];
    for p in ids(&s["ext"]) {
        let ps = selections(ops, p);
        all = all
            .iter()
            .flat_map(|x| {
                ps.iter().map(|y| {
                    let mut x = x.clone();
                    x.buckets.extend(&y.buckets);
                    x.rules.extend(y.rules.iter().cloned());
                    x
                })
            })
            .collect();
    }
    for x in &mut all {
        for c in s["and"].as_array().into_iter().flatten() {
            x.rules.push((x.buckets.clone(), c.clone()));
        }
    }
    all
}
pub struct Model<'a> {
    g: &'a Graph,
    shapes: BTreeMap<u64, Value>,
    /// the shapes that extend a shape
    children: BTreeMap<u64, Vec<u64>>,
    /// for a shape that extends others: the ways to do so
    ext: BTreeMap<u64, Vec<Selection>>,
    /// further conditions on a shape
    and: BTreeMap<u64, Vec<Value>>,
    /// the abstract shapes
    abs: BTreeSet<u64>,
    nodes: BTreeSet<String>,
    typing: BTreeSet<(String, u64)>,
}
impl<'a> Model<'a> {
    pub fn new(g: &'a Graph, shapes: &'a Value, asked: &[(String, Option<u64>)]) -> Model<'a> {
        let ops: BTreeMap<u64, &Value> = shapes.as_array().unwrap().iter().map(|s| (s["id"].as_u64().unwrap(), s)).collect();
        let mut named = BTreeMap::new();
        for s in ops.values() {
            if let Some(i) = s["e"][1]["te"]["name"].as_u64() {
                named.insert(i, s["e"][1]["te"].clone());
            }
        }
        let mut children: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
        let mut shapes = BTreeMap::new();
        for (i, s) in &ops {
            let mut e = s["e"].clone();
            for p in ids(&s["ext"]) {
                children.entry(p).or_default().push(*i);
            }
            include(&mut e, &named);
            shapes.insert(*i, e);
        }
        let mut nodes: BTreeSet<String> = g.all.iter().flat_map(|t| [t.0.clone(), t.2.clone()]).collect();
        nodes.extend(asked.iter().map(|a| a.0.clone()));
        let mut ext = BTreeMap::new();
        for (i, s) in &ops {
            if ids(&s["ext"]).is_empty() {
                continue;
            }
            // one way to choose an alternative for every parent, each shape once
            let mut v = vec![];
            for mut x in selections(&ops, *i) {
                x.rules.retain(|r| !r.0.contains(i));
                let mut sel = Selection { te: Value::Null, owner: vec![], rules: x.rules };
                let mut tes = vec![];
                for b in &x.buckets {
                    let mut te = ops[b]["e"][1]["te"].clone();
                    include(&mut te, &named);
                    if te.is_object() {
                        sel.owner.extend(vec![*b; nleaves(&te)]);
                        tes.push(te);
                    }
                }
                match tes.len() {
                    0 => {},
                    1 => sel.te = tes.pop().unwrap(),
                    _ => sel.te = json!({"each": tes, "card": [1, 1]}),
                }
                v.push(sel);
            }
            ext.insert(*i, v);
        }
        let and = ops.iter().filter_map(|(i, s)| Some((*i, s["and"].as_array()?.clone()))).collect();
        let abs = ops.iter().filter(|s| s.1["abs"] == true).map(|s| *s.0).collect();
        let mut m = Model { g, shapes, children, ext, and, abs, nodes, typing: Default::default() };
        m.solve();
        m
    }
    fn negated(e: &Value, under: bool, out: &mut BTreeSet<u64>) {
        // shapes that an expression reaches under a negation
        match e[0].as_str().unwrap() {
            "ref" => {
                if under {
                    out.insert(e[1].as_u64().unwrap());
                }
            },
            "and" | "or" => e[1].as_array().unwrap().iter().for_each(|x| Self::negated(x, under, out)),
            "not" => Self::negated(&e[1], true, out),
            "shape" => {
                let mut l = vec![];
                leaves(&e[1]["te"], &mut l);
                for t in l {
                    let x = e[1]["extra"].as_array().unwrap().iter().any(|p| *p == t["tc"]);
                    Self::negated(&t["v"], under || x, out);
                }
            },
            _ => {},
        }
    }
    fn all_refs(e: &Value, out: &mut BTreeSet<u64>) {
        match e[0].as_str().unwrap() {
            "ref" => {
                out.insert(e[1].as_u64().unwrap());
            },
            "and" | "or" => e[1].as_array().unwrap().iter().for_each(|x| Self::all_refs(x, out)),
            "not" => Self::all_refs(&e[1], out),
            "shape" => {
                let mut l = vec![];
                leaves(&e[1]["te"], &mut l);
                l.iter().for_each(|t| Self::all_refs(&t["v"], out));
            },
            _ => {},
        }
    }
    fn solve(&mut self) {
        // a shape comes after all shapes whose negation it needs, and not before any it needs
        let mut level: BTreeMap<u64, usize> = self.shapes.keys().map(|i| (*i, 0)).collect();
        for _ in 0..=level.len() * level.len() {
            let mut more = level.clone();
            for (i, e) in &self.shapes {
                let (mut neg, mut all) = (BTreeSet::new(), BTreeSet::new());
                Self::negated(e, false, &mut neg);
                Self::all_refs(e, &mut all);
                for c in self.and.get(i).into_iter().flatten() {
                    Self::negated(c, false, &mut neg);
                    Self::all_refs(c, &mut all);
                }
                all.extend(self.children.get(i).into_iter().flatten());
                all.extend(self.children.iter().filter(|c| c.1.contains(i)).map(|c| c.0));
                let l = neg.iter().map(|j| level[j] + 1).chain(all.iter().map(|j| level[j])).max().unwrap_or(0);
                more.insert(*i, l.max(level[i]).min(self.shapes.len()));
            }
            if more == level {
                break;
            }
            level = more;
        }
        for stratum in 0..=self.shapes.len() {
            let ids: Vec<u64> = self.shapes.keys().copied().filter(|i| level[i] == stratum).collect();
            if ids.is_empty() {
                continue;
            }
            for n in &self.nodes {
                for i in &ids {
                    self.typing.insert((n.clone(), *i));
                }
            }
            loop {
                let bad: Vec<(String, u64)> = self.typing.iter().filter(|(n, i)| ids.contains(i) && !self.shape_or_child(*i, n)).cloned().collect();
                if bad.is_empty() {
                    break;
                }
                for b in bad {
                    self.typing.remove(&b);
                }
            }
        }
    }
    fn shape_or_child(&self, i: u64, n: &str) -> bool {
        let me = match self.ext.get(&i) {
            Some(v) => v.iter().any(|x| self.selection_ok(&self.shapes[&i][1], x, n)),
            None => self.ok(&self.shapes[&i], n),
        };
        !self.abs.contains(&i) && me && self.and.get(&i).into_iter().flatten().all(|c| self.ok(c, n)) || self.children.get(&i).into_iter().flatten().any(|c| self.conforms(n, *c))
    }
    pub fn conforms(&self, n: &str, i: u64) -> bool {
        self.typing.contains(&(n.to_string(), i))
    }
    fn ok(&self, e: &Value, n: &str) -> bool {
        match e[0].as_str().unwrap() {
            "ref" => self.conforms(n, e[1].as_u64().unwrap()),
            "and" => e[1].as_array().unwrap().iter().all(|x| self.ok(x, n)),
            "or" => e[1].as_array().unwrap().iter().any(|x| self.ok(x, n)),
            "not" => !self.ok(&e[1], n),
            "shape" => self.shape_ok(&e[1], n),
            _ => nc_ok(e, n),
        }
    }
    fn shape_ok(&self, s: &Value, n: &str) -> bool {
        let Some((ls, cands)) = self.candidates(s, &s["te"], n) else { return false };
        if s["te"].is_null() {
            return true;
        }
        // all count vectors
        let mut bags: BTreeSet<Bag> = [vec![0; ls]].into();
        for (_, c) in cands {
            bags = bags
                .iter()
                .flat_map(|b| {
                    c.iter().map(|i| {
                        let mut x = b.clone();
                        x[*i] += 1;
                        x
                    })
                })
                .collect();
        }
        bags.iter().any(|b| member(&s["te"], b))
    }
    /// the leaves that each triple with a mentioned predicate can go to (none if the shape fails)
    #[allow(clippy::type_complexity)]
    fn candidates(&self, s: &Value, te: &Value, n: &str) -> Option<(usize, Vec<((String, String), Vec<usize>)>)> {
        let mut ls = vec![];
        leaves(te, &mut ls);
        let names: BTreeSet<&str> = ls.iter().map(|t| t["tc"].as_str().unwrap()).collect();
        if s["closed"] == true && self.g.all.iter().any(|t| t.0 == n && !names.iter().any(|p| iri(p) == t.1)) {
            return None;
        }
        let mut cands = vec![];
        for p in names {
            let vals = match p.strip_prefix('^') {
                Some(q) => self.g.subjs(n, &iri(q)),
                None => self.g.objs(n, &iri(p)),
            };
            for v in vals {
                let c: Vec<usize> = (0..ls.len()).filter(|i| ls[*i]["tc"] == p && self.ok(&ls[*i]["v"], &v)).collect();
                if c.is_empty() {
                    if !s["extra"].as_array().unwrap().iter().any(|x| x == p) {
                        return None;
                    }
                } else {
                    cands.push(((p.to_string(), v), c));
                }
            }
        }
        Some((ls.len(), cands))
    }
    fn selection_ok(&self, s: &Value, x: &Selection, n: &str) -> bool {
        if x.rules.is_empty() {
            let mut s = s.clone();
            s["te"] = x.te.clone();
            return self.shape_ok(&s, n);
        }
        let Some((ls, cands)) = self.candidates(s, &x.te, n) else { return false };
        // every assignment of the triples to the leaves
        let mut at = vec![0; cands.len()];
        loop {
            let mut bag = vec![0; ls];
            cands.iter().zip(&at).for_each(|(c, i)| bag[c.1[*i]] += 1);
            if (x.te.is_null() || member(&x.te, &bag))
                && x.rules.iter().all(|(scope, c)| {
                    if c[0] != "shape" {
                        return self.ok(c, n);
                    }
                    let got: Vec<&(String, String)> = cands.iter().zip(&at).filter(|(c, i)| scope.contains(&x.owner[c.1[**i]])).map(|(c, _)| &c.0).collect();
                    self.rule_ok(&c[1], &got)
                })
            {
                return true;
            }
            let mut k = 0;
            while k < at.len() && at[k] + 1 == cands[k].1.len() {
                at[k] = 0;
                k += 1;
            }
            if k == at.len() {
                return false;
            }
            at[k] += 1;
        }
    }
    /// do these triples match a triple expression? (those of other predicates do not matter)
    fn rule_ok(&self, s: &Value, got: &[&(String, String)]) -> bool {
        let te = &s["te"];
        let mut ls = vec![];
        leaves(te, &mut ls);
        let mut bags: BTreeSet<Bag> = [vec![0; ls.len()]].into();
        for (p, v) in got {
            if !ls.iter().any(|t| t["tc"] == **p) {
                if s["closed"] == true {
                    return false;
                }
                continue;
            }
            let c: Vec<usize> = (0..ls.len()).filter(|i| ls[*i]["tc"] == **p && self.ok(&ls[*i]["v"], v)).collect();
            if c.is_empty() && s["extra"].as_array().unwrap().iter().any(|x| *x == **p) {
                continue;
            }
            bags = bags
                .iter()
                .flat_map(|b| {
                    c.iter().map(|i| {
                        let mut x = b.clone();
                        x[*i] += 1;
                        x
                    })
                })
                .collect();
        }
        bags.iter().any(|b| member(te, b))
    }
}

/// triples that one way of satisfying a triple expression needs (references go to any node)
fn sample(r: &mut Rng, te: &Value, nodes: u64, out: &mut Vec<(String, String)>, depth: u64) {
    let (lo, hi) = (te["card"][0].as_i64().unwrap_or(0), te["card"][1].as_i64().unwrap_or(0));
    let n = if hi < 0 { r.range(lo as u64, lo as u64 + 2) } else { r.range(lo as u64, hi as u64) };
    for _ in 0..n {
        if let Some(p) = te["tc"].as_str() {
            let mut pool: Vec<String> = (0..nodes).map(|i| iri(&format!("n{i}"))).collect();
            pool.extend((1..5).map(int));
            pool.extend(["\"a\"", "\"bb\"", "\"ccc\"", "\"x\"@en", "\"y\"@fr", "\"y\"@en-us"].map(String::from));
            let v = &te["v"];
            if ["ref", "and", "or", "not", "shape"].contains(&v[0].as_str().unwrap()) {
                pool.truncate(nodes as usize);
            } else {
                pool.retain(|x| nc_ok(v, x));
            }
            if !p.starts_with('^') && !pool.is_empty() {
                out.push((p.to_string(), r.pick(&pool).clone()));
            }
        } else if let Some(v) = te["each"].as_array() {
            v.iter().for_each(|x| sample(r, x, nodes, out, depth + 1));
        } else if let Some(v) = te["one"].as_array() {
            let x = r.below(v.len() as u64) as usize;
            sample(r, &v[x], nodes, out, depth + 1);
        }
    }
}

/// shapes that refer to each other in a ring, and nodes that do the same, with something amiss
fn rings(r: &mut Rng) -> Value {
    let (k, nodes) = (r.range(2, 5), r.range(2, 5));
    let tc = |r: &mut Rng, x: u64| json!({"tc": "p0", "v": ["ref", x], "card": *r.pick(&[[1, 1], [1, -1], [0, -1], [0, 1], [1, 2]])});
    let mut ops: Vec<Value> = (0..k)
        .map(|i| {
            let mut v = vec![tc(r, (i + 1) % k)];
            if r.pct(35) {
                let x = r.below(k);
                v.push(if r.pct(50) { tc(r, x) } else { json!({"tc": "p1", "v": ["ref", x], "card": [0, -1]}) });
            }
            if r.pct(40) {
                v.push(json!({"tc": "p2", "v": *r.pick(&[json!(["any"]), json!(["in", [int(1)]]), json!(["in", [int(1), int(2)]])]), "card": *r.pick(&[[1, 1], [1, 1], [0, 1]])}));
            }
            let te = if v.len() == 1 { v.pop().unwrap() } else { json!({if r.pct(80) { "each" } else { "one" }: v, "card": [1, 1]}) };
            let e = json!(["shape", {"closed": r.pct(15), "extra": if r.pct(15) && k > 2 { json!(["p2"]) } else { json!([]) }, "te": te}]);
            let mut m = BTreeSet::new();
            preds(&te, &mut m);
            let e = if m.contains("p2") { e } else { json!(["shape", {"closed": e[1]["closed"], "extra": [], "te": te}]) };
            let e = match r.below(10) {
                0 if i > 0 => json!(["or", [e, ["ref", r.below(i)]]]),
                1 => json!(["and", [e, ["kind", "IRI"]]]),
                2 => json!(["or", [e, ["shape", {"closed": false, "extra": [], "te": {"tc": "p2", "v": ["in", [int(3)]], "card": [1, 1]}}]]]),
                _ => e,
            };
            json!({"id": i, "file": 0, "e": e})
        })
        .collect();
    if r.pct(30) {
        // (of a higher stratum)
        let e = json!(["shape", {"closed": false, "extra": [], "te": {"tc": "p0", "v": ["not", ["ref", r.below(k)]], "card": *r.pick(&[[1, 1], [1, -1], [0, -1]])}}]);
        ops.push(json!({"id": k, "file": 0, "e": e}));
    }
    let mut d = BTreeSet::new();
    let n = |i: u64| iri(&format!("n{i}"));
    for i in 0..nodes {
        if r.pct(90) {
            d.insert((n(i), iri("p0"), n((i + 1) % nodes)));
        }
        if r.pct(30) {
            d.insert((n(i), iri(&format!("p{}", r.below(2))), n(r.below(nodes))));
        }
        if r.pct(70) {
            d.insert((n(i), iri("p2"), int(*r.pick(&[1, 1, 1, 2, 3]))));
        }
    }
    let mut asks = vec![];
    for _ in 0..r.range(3, 9) {
        let a = json!([n(r.below(nodes)), r.below(ops.len() as u64)]);
        if !asks.contains(&a) {
            asks.push(a);
        }
    }
    json!({"data": d.into_iter().map(|t| json!(t)).collect::<Vec<_>>(), "ops": ops, "asks": asks, "start": null})
}
/// groups of groups with ranges, and nodes with about the right number of values
fn bags(r: &mut Rng) -> Value {
    fn te(r: &mut Rng, depth: u64, leaf: &mut u64) -> Value {
        let card = *r.pick(&[[1, 1], [0, 1], [1, 2], [2, 2], [2, 3], [0, 2], [1, 3], [1, -1], [0, -1], [2, -1], [2, 4]]);
        if depth == 0 || *leaf > 3 || r.pct(25) {
            let p = if r.pct(75) { *leaf } else { r.below(*leaf + 1) };
            *leaf += 1;
            let v = match r.below(5) {
                0 => json!(["in", [int(1), int(2), int(3)]]),
                1 => json!(["kind", "LITERAL"]),
                _ => json!(["any"]),
            };
            return json!({"tc": format!("p{p}"), "v": v, "card": card});
        }
        let v: Vec<Value> = (0..r.range(2, 3)).map(|_| te(r, depth - 1, leaf)).collect();
        json!({if r.pct(60) { "each" } else { "one" }: v, "card": if r.pct(25) { [1, 1] } else { card }})
    }
    let ops: Vec<Value> = (0..r.range(1, 2))
        .map(|i| {
            let mut leaf = 0;
            let mut t = te(r, 2, &mut leaf);
            if t["tc"].is_string() {
                t = json!({"each": [t, te(r, 1, &mut leaf)], "card": *r.pick(&[[1, 1], [1, 2], [2, 3], [2, 2], [0, 2]])});
            }
            json!({"id": i, "file": 0, "e": ["shape", {"closed": r.pct(15), "extra": [], "te": t}]})
        })
        .collect();
    let (mut d, mut asks) = (BTreeSet::new(), vec![]);
    for n in 0..r.range(2, 4) {
        let s = r.below(ops.len() as u64);
        let mut arcs = vec![];
        sample(r, &ops[s as usize]["e"][1]["te"], 4, &mut arcs, 0);
        let extra = if r.pct(50) { r.below(3) } else { 0 };
        arcs.truncate(8);
        for (j, (p, o)) in arcs.into_iter().enumerate() {
            // values that differ, where the constraint does not care
            let o = if r.pct(60) && o.starts_with('<') { int(j as i64 % 6 + 1) } else { o };
            if extra != 1 || j > 0 {
                d.insert((iri(&format!("n{n}")), iri(&p), o));
            }
        }
        if extra == 2 {
            d.insert((iri(&format!("n{n}")), iri(&format!("p{}", r.below(4))), int(r.range(1, 6) as i64)));
        }
        asks.push(json!([iri(&format!("n{n}")), s]));
        if ops.len() > 1 && r.pct(40) {
            asks.push(json!([iri(&format!("n{n}")), 1 - s]));
        }
    }
    json!({"data": d.into_iter().map(|t| json!(t)).collect::<Vec<_>>(), "ops": ops, "asks": asks, "start": null})
}
/// shapes that extend several others, which compete for the same predicates
fn heirs(r: &mut Rng) -> Value {
    let np = r.range(1, 2);
    let val = |r: &mut Rng| match r.below(4) {
        0 => json!(["any"]),
        1 => json!(["dt", "integer"]),
        _ => {
            let mut v = BTreeSet::new();
            for _ in 0..r.range(1, 3) {
                v.insert(int(r.range(1, 5) as i64));
            }
            json!(["in", v])
        },
    };
    let tc = |r: &mut Rng| json!({"tc": format!("p{}", r.below(np)), "v": val(r), "card": *r.pick(&[[1, 1], [1, 1], [0, 1], [1, -1], [0, -1], [2, 2], [1, 2]])});
    let te = |r: &mut Rng| match r.below(10) {
        0 => Value::Null,
        1 | 2 => json!({if r.pct(60) { "each" } else { "one" }: [tc(r), tc(r)], "card": [1, 1]}),
        _ => tc(r),
    };
    let k = r.range(3, 6);
    let mut ops: Vec<Value> = vec![];
    for i in 0..k {
        if i >= 2 && i + 1 < k && r.pct(15) {
            let (a, b) = (r.below(i), r.below(i));
            if a != b && [a, b].iter().all(|x| ops[*x as usize]["alts"].is_null()) {
                ops.push(json!({"id": i, "file": 0, "alts": [a, b], "e": ["or", [["ref", a], ["ref", b]]]}));
                continue;
            }
        }
        let mut ext = BTreeSet::new();
        if i > 0 {
            for _ in 0..(if i + 1 == k { r.range(2, 3) } else { r.below(3) }) {
                ext.insert(r.below(i));
            }
        }
        let mut op = json!({"id": i, "file": 0, "ext": ext, "e": ["shape", {"closed": r.pct(25), "extra": [], "te": te(r)}]});
        if r.pct(25) {
            let simple = |r: &mut Rng| {
                let t = tc(r);
                let extra = if r.pct(30) { json!([t["tc"]]) } else { json!([]) };
                json!(["shape", {"closed": r.pct(15), "extra": extra, "te": t}])
            };
            let c: Vec<Value> = (0..r.range(1, 2))
                .map(|_| match r.below(8) {
                    0 => json!(["not", simple(r)]),
                    1 => json!(["or", [simple(r), simple(r)]]),
                    2 => json!(["kind", "IRI"]),
                    _ => simple(r),
                })
                .collect();
            op["and"] = json!(c);
        }
        ops.push(op);
    }
    let (mut d, mut asks) = (BTreeSet::new(), vec![]);
    let map: BTreeMap<u64, &Value> = ops.iter().map(|s| (s["id"].as_u64().unwrap(), s)).collect();
    let n = r.range(2, 4);
    // a shape whose heirs are not plain is left out: whether they count as that shape is another matter
    let parent_of = |i: u64| ops.iter().any(|s| ids(&s["ext"]).contains(&i) || ids(&s["alts"]).contains(&i));
    let ok: Vec<u64> = (0..k).filter(|i| !parent_of(*i) && map[i]["alts"].is_null()).collect();
    for i in 0..n {
        let s = *r.pick(&ok);
        let sel = selections(&map, s);
        let x = r.pick(&sel);
        let mut arcs = vec![];
        for b in &x.buckets {
            sample(r, &map[b]["e"][1]["te"], 3, &mut arcs, 0);
        }
        arcs.truncate(6);
        let drop = r.pct(25);
        for (j, (p, o)) in arcs.into_iter().enumerate() {
            if !(drop && j == 0) {
                d.insert((iri(&format!("n{i}")), iri(&p), o));
            }
        }
        if r.pct(30) {
            d.insert((iri(&format!("n{i}")), iri(&format!("p{}", r.below(3))), int(r.range(1, 5) as i64)));
        }
        asks.push(json!([iri(&format!("n{i}")), s]));
    }
    for _ in 0..r.below(3) {
        let a = json!([iri(&format!("n{}", r.below(n))), *r.pick(&ok)]);
        if !asks.contains(&a) {
            asks.push(a);
        }
    }
    json!({"data": d.into_iter().map(|t| json!(t)).collect::<Vec<_>>(), "ops": ops, "asks": asks, "start": null})
}
/// the shapes spread over files that import each other
fn spread(r: &mut Rng, w: &mut Value) {
    let files = r.range(3, 8);
    let mut e: Vec<(u64, u64)> = match r.below(3) {
        0 => (1..files).map(|g| (g - 1, g)).collect(),
        1 => (1..files).map(|g| (r.below(g), g)).collect(),
        _ => (1..files).map(|g| ((g - 1) / 2, g)).collect(),
    };
    for _ in 0..r.below(4) {
        let x = (r.below(files), r.below(files));
        if !e.contains(&x) {
            e.push(x);
        }
    }
    // the order within a file matters to a loader
    for i in (1..e.len()).rev() {
        e.swap(i, r.below(i as u64 + 1) as usize);
    }
    w["imports"] = json!(e);
    for s in w["ops"].as_array_mut().unwrap() {
        s["file"] = json!(r.below(files));
    }
}
/// Many values against many node constraints, all pairs.
fn facets(r: &mut Rng) -> Value {
    let mut vals: BTreeSet<String> = BTreeSet::new();
    for _ in 0..r.range(6, 14) {
        vals.insert(match r.below(9) {
            0 | 1 => odd(r),
            2 => int(r.range(0, 5) as i64),
            3 => (*r.pick(&["\"a\"", "\"aa\"", "\"b\"", "\"bb\"", "\"bbb\"", "\"ccc\"", "\"cc\"", "\"\""])).to_string(),
            4 | 5 => (*r.pick(&["\"x\"@en", "\"y\"@fr", "\"y\"@en-us", "\"a\"@en", "\"bb\"@en-gb", "\"a\"@fr-be", "\"c\"@eng"])).to_string(),
            6 => if r.pct(50) { "_:b0".to_string() } else { iri("m1") },
            _ => iri(&format!("n{}", r.below(14))),
        });
    }
    let data: Vec<Value> = vals.iter().enumerate().map(|(i, v)| json!([iri(&format!("n{i}")), iri("p0"), v])).collect();
    let k = r.range(2, 6);
    let ops: Vec<Value> = (0..k)
        .map(|i| {
            let mut v = nc(r);
            if r.pct(20) {
                v = json!([*r.pick(&["and", "or"]), [v, nc(r)]]);
            }
            if r.pct(15) {
                v = json!(["not", v]);
            }
            let p = if r.pct(20) { json!(["p0"]) } else { json!([]) };
            json!({"id": i, "file": 0, "e": ["shape", {"closed": r.pct(10), "extra": p, "te": {"tc": "p0", "v": v, "card": *r.pick(&[[1, 1], [1, 1], [0, 1], [1, -1]])}}]})
        })
        .collect();
    let asks: Vec<Value> = (0..vals.len()).flat_map(|i| (0..k).map(move |j| json!([iri(&format!("n{i}")), j]))).collect();
    json!({"data": data, "ops": ops, "asks": asks, "start": null})
}
/// Make a shape depend on the negation of a shape, perhaps of one that leads back to it.
fn tangle(r: &mut Rng, w: &mut Value) {
    let shapes = w["ops"].as_array().unwrap();
    if shapes.iter().any(|s| s["ext"].is_array() || s["and"].is_array() || s["alts"].is_array() || s["abs"] == true) {
        return;
    }
    let n = shapes.len() as u64;
    let mut z = w.clone();
    for _ in 0..r.range(1, 2) {
        let i = r.below(n);
        let e = &mut z["ops"][i as usize]["e"];
        let not = |x: Value, plain: bool, r: &mut Rng| {
            let k = r.below(if plain { 2 } else { 4 });
            let neg = json!(["not", x]);
            match k {
                0 => neg,
                1 => json!(["not", ["shape", {"closed": false, "extra": [], "te": {"tc": "p1", "v": x, "card": [1, 1]}}]]),
                2 => json!([*r.pick(&["or", "and"]), [x, neg]]),
                _ => json!([*r.pick(&["or", "and"]), [neg, x]]),
            }
        };
        if i > 0 && r.pct(40) {
            if e[0] == "shape" && e[1]["te"]["name"].is_u64() {
                continue;
            }
            let x = not(json!(["ref", r.below(i)]), true, r);
            *e = json!([*r.pick(&["or", "and"]), if r.pct(50) { json!([x, e]) } else { json!([e, x]) }]);
        } else if e[0] == "shape" {
            let x = not(json!(["ref", r.below(n)]), false, r);
            let mut te = &mut e[1]["te"];
            while te["each"].is_array() || te["one"].is_array() {
                let l = if te["each"].is_array() { "each" } else { "one" };
                let m = te[l].as_array().unwrap().len() as u64;
                te = &mut te[l][r.below(m) as usize];
            }
            if te["tc"].is_string() && !te["tc"].as_str().unwrap().starts_with('^') {
                te["v"] = x;
            }
        }
    }
    if unstratified(&z).is_some() {
        *w = z;
    }
}
/// Does a shape depend on its own negation? None if that hangs on whether EXTRA counts as a
/// negation, or two negations in a row as none.
fn unstratified(w: &Value) -> Option<bool> {
    fn deps(e: &Value, strict: u8, parity: bool, out: &mut Vec<(u64, u8, bool)>) {
        match e[0].as_str().unwrap() {
            "ref" => out.push((e[1].as_u64().unwrap(), strict, parity)),
            "and" | "or" => e[1].as_array().unwrap().iter().for_each(|x| deps(x, strict, parity, out)),
            "not" => deps(&e[1], strict.max(2), !parity, out),
            "shape" => {
                let mut l = vec![];
                leaves(&e[1]["te"], &mut l);
                for t in l {
                    let x = e[1]["extra"].as_array().unwrap().iter().any(|p| *p == t["tc"]);
                    deps(&t["v"], strict.max(x as u8), parity, out);
                }
            },
            _ => {},
        }
    }
    let ops = w["ops"].as_array().unwrap();
    let mut named = BTreeMap::new();
    for s in ops {
        if let Some(i) = s["e"][1]["te"]["name"].as_u64() {
            named.insert(i, s["e"][1]["te"].clone());
        }
    }
    let mut es: Vec<(u64, u64, u8, bool)> = vec![];
    for s in ops {
        let mut e = s["e"].clone();
        include(&mut e, &named);
        let mut d = vec![];
        deps(&e, 0, false, &mut d);
        let i = s["id"].as_u64().unwrap();
        es.extend(d.into_iter().map(|(j, a, b)| (i, j, a, b)));
    }
    let back = |i: u64, j: u64| {
        let mut seen: BTreeSet<u64> = [j].into();
        for _ in 0..ops.len() {
            seen.extend(es.iter().filter(|e| seen.contains(&e.0)).map(|e| e.1).collect::<Vec<_>>());
        }
        seen.contains(&i)
    };
    let cyc = |f: &dyn Fn(&(u64, u64, u8, bool)) -> bool| es.iter().any(|e| f(e) && back(e.0, e.1));
    let x = [cyc(&|e| e.2 == 2), cyc(&|e| e.2 >= 1), cyc(&|e| e.3)];
    (x[0] == x[1] && x[0] == x[2]).then_some(x[0])
}
pub fn generate(r: &mut Rng, nodes: u64, n: u64, k: u64) -> Value {
    if r.pct(7) {
        return facets(r);
    }
    let mut w = match r.below(20) {
        0..=2 => rings(r),
        3..=5 => bags(r),
        6..=8 => heirs(r),
        _ => general(r, nodes, n, k),
    };
    if r.pct(8) {
        tangle(r, &mut w);
    }
    if r.pct(10) {
        spread(r, &mut w);
    }
    w
}

pub fn general(r: &mut Rng, nodes: u64, n: u64, k: u64) -> Value {
    let s = schema(r, k);
    let guided = r.pct(70);
    let mut d = data(r, nodes, if guided { n / 3 } else { n });
    if guided {
        let mut all: BTreeSet<(String, String, String)> = Graph::of(&json!(d)).all;
        for i in 0..nodes {
            if r.pct(75) {
                let mut es = vec![&s[r.below(k) as usize]["e"]];
                let mut arcs = vec![];
                while let Some(e) = es.pop() {
                    match e[0].as_str().unwrap() {
                        "and" => es.extend(e[1].as_array().unwrap()),
                        "or" => es.push(r.pick(e[1].as_array().unwrap())),
                        "shape" => sample(r, &e[1]["te"], nodes, &mut arcs, 0),
                        _ => {},
                    }
                }
                arcs.truncate(7);
                all.extend(arcs.into_iter().map(|(p, o)| (iri(&format!("n{i}")), iri(&p), o)));
            }
        }
        d = all.into_iter().map(|t| json!(t)).collect();
    }
    let start = if r.pct(30) { json!(r.below(k)) } else { Value::Null };
    let mut asks = vec![];
    for _ in 0..r.range(3, 8) {
        let x = match r.below(14) {
            0 => int(r.range(1, 4) as i64),
            1 => "\"a\"".to_string(),
            _ => iri(&format!("n{}", r.below(nodes))),
        };
        let a = if start.is_u64() && x.starts_with('<') && r.pct(20) { json!([x, "START"]) } else { json!([x, r.below(k)]) };
        if !asks.contains(&a) {
            asks.push(a);
        }
    }
    json!({"data": d, "ops": s, "asks": asks, "start": start})
}
fn asks(w: &Value) -> Vec<(String, Option<u64>)> {
    w["asks"].as_array().into_iter().flatten().map(|a| (a[0].as_str().unwrap().to_string(), a[1].as_u64())).collect()
}
pub fn shapemap(w: &Value) -> String {
    asks(w).iter().map(|(n, s)| format!("{n}@{}", s.map_or("START".into(), |s| iri(&format!("S{s}"))))).collect::<Vec<_>>().join(",\n")
}
/// (node, shape) -> conformant, from the JSON result
pub fn results(b: &[u8]) -> Result<BTreeMap<(String, String), String>, String> {
    let v: Value = serde_json::from_slice(b).map_err(|e| format!("result is not JSON: {e}"))?;
    let mut m = BTreeMap::new();
    for x in v.as_array().ok_or("result is not an array")? {
        let s = |k: &str| x[k].as_str().unwrap_or("?").to_string();
        if m.insert((s("node"), s("shape")), s("status")).is_some() {
            return Err(format!("{} at {} reported twice", s("node"), s("shape")));
        }
    }
    Ok(m)
}
fn refs_ok(w: &Value) -> bool {
    let known: BTreeSet<u64> = w["ops"].as_array().unwrap().iter().map(|s| s["id"].as_u64().unwrap()).collect();
    let mut r: BTreeSet<u64> = asks(w).iter().filter_map(|a| a.1).collect();
    r.extend(w["start"].as_u64());
    if asks(w).iter().any(|a| a.1.is_none()) && !w["start"].is_u64() {
        return false;
    }
    let mut names = BTreeSet::new();
    for s in w["ops"].as_array().unwrap() {
        names.extend(s["e"][1]["te"]["name"].as_u64());
        r.extend(ids(&s["ext"]));
        if s["e"][0] != "shape" && (s["ext"].is_array() || s["and"].is_array()) {
            return false;
        }
        if s["alts"].is_array() && json!(["or", ids(&s["alts"]).iter().map(|a| json!(["ref", a])).collect::<Vec<_>>()]) != s["e"] {
            return false;
        }
    }
    if !included(&w["ops"]).is_subset(&names) {
        return false;
    }
    for s in w["ops"].as_array().unwrap() {
        Model::all_refs(&s["e"], &mut r);
    }
    // every file with shapes can be reached
    if w["imports"].is_array() {
        let mut seen: BTreeSet<u64> = [0].into();
        for _ in edges(w) {
            seen.extend(edges(w).iter().filter(|e| seen.contains(&e.0)).map(|e| e.1).collect::<Vec<_>>());
        }
        if w["ops"].as_array().unwrap().iter().any(|s| !seen.contains(&s["file"].as_u64().unwrap_or(0))) {
            return false;
        }
    }
    unstratified(w).is_some() && !known.is_empty() && r.is_subset(&known) && w["asks"].as_array().is_some_and(|a| !a.is_empty())
}
fn included(v: &Value) -> BTreeSet<u64> {
    match v {
        Value::Array(a) => a.iter().flat_map(included).collect(),
        Value::Object(o) => o.iter().flat_map(|(k, x)| if k == "inc" { x.as_u64().into_iter().collect() } else { included(x) }).collect(),
        _ => Default::default(),
    }
}
/// simpler versions of an expression
fn simpler(e: &Value) -> Vec<Value> {
    let mut out = vec![];
    let sub = |k: usize| e[k].clone();
    match e[0].as_str().unwrap() {
        "and" | "or" => {
            let v = e[1].as_array().unwrap();
            out.extend(v.iter().cloned());
            for (i, x) in v.iter().enumerate() {
                for y in simpler(x) {
                    let mut z = e.clone();
                    z[1][i] = y;
                    out.push(z);
                }
                if v.len() > 2 {
                    let mut z = e.clone();
                    z[1].as_array_mut().unwrap().remove(i);
                    out.push(z);
                }
            }
        },
        "not" => {
            out.push(sub(1));
            out.extend(simpler(&e[1]).into_iter().map(|x| json!(["not", x])));
        },
        "ref" => out.push(json!(["any"])),
        "in" => out.extend((0..e[1].as_array().unwrap().len()).filter(|_| e[1].as_array().unwrap().len() > 1).map(|i| {
            let mut z = e.clone();
            z[1].as_array_mut().unwrap().remove(i);
            z
        })),
        "shape" => {
            for t in simpler_te(&e[1]["te"]) {
                let mut z = e.clone();
                let mut m = BTreeSet::new();
                preds(&t, &mut m);
                z[1]["te"] = t;
                z[1]["extra"].as_array_mut().unwrap().retain(|p| m.contains(p.as_str().unwrap()));
                out.push(z);
            }
            for (k, v) in [("closed", json!(false)), ("extra", json!([]))] {
                if e[1][k] != v {
                    let mut z = e.clone();
                    z[1][k] = v;
                    out.push(z);
                }
            }
        },
        _ => {},
    }
    out
}
fn simpler_te(te: &Value) -> Vec<Value> {
    let mut out = vec![];
    if te.is_null() {
        return out;
    }
    if te["inc"].is_u64() {
        return vec![json!({"tc": "p0", "v": ["any"], "card": [0, -1]})];
    }
    if te["tc"].is_string() {
        if te["v"] != json!(["any"]) {
            let mut z = te.clone();
            z["v"] = json!(["any"]);
            out.push(z);
            for x in simpler(&te["v"]) {
                let mut z = te.clone();
                z["v"] = x;
                out.push(z);
            }
        }
    }
    for k in ["each", "one"] {
        if let Some(v) = te[k].as_array() {
            out.extend(v.iter().cloned());
            for (i, x) in v.iter().enumerate() {
                for y in simpler_te(x) {
                    let mut z = te.clone();
                    z[k][i] = y;
                    out.push(z);
                }
                if v.len() > 2 {
                    let mut z = te.clone();
                    z[k].as_array_mut().unwrap().remove(i);
                    out.push(z);
                }
            }
        }
    }
    if te["card"] != json!([1, 1]) {
        let mut z = te.clone();
        z["card"] = json!([1, 1]);
        out.push(z);
    }
    out
}
pub fn shrink(w: &Value) -> Vec<Value> {
    let mut v = vec![];
    for k in ["asks", "ops", "data", "imports"] {
        v.extend(shrink_array(w, k));
    }
    for (i, s) in w["ops"].as_array().unwrap().iter().enumerate() {
        if s["file"] != 0 {
            let mut z = w.clone();
            z["ops"][i]["file"] = json!(0);
            v.push(z);
        }
        for x in shrink_array(s, "ext").into_iter().chain(shrink_array(s, "and")) {
            let mut z = w.clone();
            z["ops"][i] = x;
            v.push(z);
        }
    }
    for (i, s) in w["ops"].as_array().unwrap().iter().enumerate() {
        for x in simpler(&s["e"]) {
            // (a reference outside a triple constraint stays well-founded: only inner parts moved out
            // of a triple constraint could break that, and those are never moved out)
            let mut z = w.clone();
            z["ops"][i]["e"] = x;
            v.push(z);
        }
    }
    v.retain(refs_ok);
    v
}

/// are these the results of the reference matcher?
pub fn judge(w: &Value, b: &[u8]) -> Verdict {
    let g = Graph::of(&w["data"]);
    let got = match results(b) {
        Ok(x) => x,
        Err(e) => return violation("bad-result", e),
    };
    let a = asks(w);
    let m = Model::new(&g, &w["ops"], &a);
    let (mut yes, mut no) = (0, 0);
    for (n, s) in &a {
        let want = m.conforms(n, s.or(w["start"].as_u64()).unwrap());
        if want { yes += 1 } else { no += 1 }
        let node = if is_lit(n) { n.replace(&format!("<{XSD}integer>"), "xsd:integer") } else { lex(n).to_string() };
        let s = s.map_or("Start".into(), |s| format!("http://e.x/S{s}"));
        let key = (node, s.clone());
        let x = got.get(&key);
        let x = x.map(String::as_str).unwrap_or("missing");
        if x != if want { "conformant" } else { "nonconformant" } {
            return violation("wrong-status", format!("{n}@{s} is {x}, expected conformant = {want}"));
        }
    }
    if got.len() != a.len() {
        return violation("wrong-pairs", format!("{} results for {} associations", got.len(), a.len()));
    }
    Verdict::Held(yes > 0 && no > 0)
}

pub struct ShexGen;
impl Scenario for ShexGen {
    fn property(&self) -> &'static str {
        "V02"
    }
    fn rule(&self) -> &'static str {
        "each run validates nodes of a generated graph against a generated ShEx schema under one hash seed and schedule; non-trivial when both conformant and nonconformant answers are expected"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rudof_cli main", "rudof_lib", "shex_ast: parser, AST to IR, ShapeMap", "shex_validation: engine, typing", "rbe: bag expressions"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["disk, stdout, scheduler, clock, entropy"]
    }
    fn generate(&self, r: &mut Rng, tier: Tier) -> Value {
        let big = tier == Tier::Thorough && r.pct(30);
        let nodes = *r.pick(&[2u64, 3, 4]);
        let n = *r.pick(if big { &[16u64, 24][..] } else { &[4, 7, 10, 14] });
        let k = *r.pick(if big { &[6u64, 10][..] } else { &[1, 2, 3, 4, 5] });
        generate(r, nodes, n, k)
    }
    fn shrink(&self, w: &Value) -> Vec<Value> {
        shrink(w)
    }
    fn next(&self, w: &Value, seed: u64, done: &[Out]) -> Next {
        let g = Graph::of(&w["data"]);
        if let Some(o) = done.last() {
            if o.gave_up() {
                return Next::Done(Verdict::Inconclusive(format!("{} {}", o.status, o.msg)));
            }
            let tangled = unstratified(w) == Some(true);
            if tangled && code(o).is_some_and(|c| c != 0) {
                return Next::Done(Verdict::Held(true));
            }
            if tangled {
                return Next::Done(violation("unstratified-accepted", "a schema in which a shape depends on its own negation has been accepted"));
            }
            if code(o) != Some(0) {
                return Next::Done(violation("no-result", format!("validation ended with {} {} {} {}", o.status, o.msg, o.extra["msg"], super::m01::tail(&o.stderr))));
            }
            let b = o.image().get("/o/r").and_then(fs::bytes_of).unwrap_or_default();
            return Next::Done(judge(w, &b));
        }
        let mut c = draw_cfg(seed, 0);
        // (matching can take exponential time)
        c.max_points = 20_000_000;
        let mut p = Phase::new(c);
        for d in ["/w", "/home", "/tmp", "/o"] {
            p.image.insert(d.into(), fs::Node::Dir);
        }
        p.image.insert("/w/d.nt".into(), fs::Node::Text(g.ntriples()));
        for (i, t) in texts(w) {
            p.image.insert(format!("/w/s{i}.shex"), fs::Node::Text(t));
        }
        p.image.insert("/w/m.sm".into(), fs::Node::Text(shapemap(w)));
        p.env = env();
        p.args = ["rudof", "shex-validate", "-s", "/sim/w/s0.shex", "-m", "/sim/w/m.sm", "/sim/w/d.nt", "-t", "ntriples", "-r", "json", "-o", "/sim/o/r"].map(String::from).to_vec();
        Next::Run(Box::new(p))
    }
    fn body(&self, _w: &Value, _phase: usize, _carry: &Value) -> Value {
        // matching can take exponential space: give up early on such runs
        crate::sim::alloc::LIMIT.store(1 << 30, std::sync::atomic::Ordering::Relaxed);
        run_main()
    }
    fn budget(&self, t: Tier) -> (u64, u64) {
        match t {
            Tier::Quick => (1_000_000, 45),
            Tier::Thorough => (4_000_000, 1500),
        }
    }
    fn describe(&self, w: &Value) -> Value {
        json!({"data": Graph::of(&w["data"]).ntriples(), "schema": texts(w), "shapemap": shapemap(w)})
    }
}
