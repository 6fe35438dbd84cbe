//! What one run of the analysis found, written as JSON for the front end.
use std::collections::*;
pub struct Violation { pub props: BTreeSet<String>, pub key: String, pub place: String, pub ctor: String, pub example: String }
#[derive(Default)]
pub struct Out { pub found: Vec<Violation>, pub counts: BTreeMap<String, usize>, pub undecided: BTreeMap<String, (usize, BTreeSet<String>)>, pub coverage: BTreeMap<String, String>, pub assumptions: BTreeSet<String>, pub samples: BTreeMap<String, Vec<String>> }
fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
impl Out {
    pub fn add(&mut self, prop: &str, key: impl Into<String>, place: impl Into<String>, example: impl Into<String>) {
        let key = key.into();
        if let Some(v) = self.found.iter_mut().find(|v| v.key == key) { v.props.insert(prop.into()); return }
        let p = place.into();
        self.found.push(Violation { props: [prop.to_string()].into(), key, place: p.clone(), ctor: p, example: example.into() });
    }
    pub fn count(&mut self, k: &str, n: usize) { *self.counts.entry(k.into()).or_insert(0) += n }
    pub fn undecided(&mut self, props: &[&str], k: impl Into<String>) { let e = self.undecided.entry(k.into()).or_default(); e.0 += 1; e.1.extend(props.iter().map(|p| p.to_string())) }
    pub fn cover(&mut self, p: &str, s: &str) { self.coverage.insert(p.into(), s.into()); }
    pub fn assume(&mut self, s: &str) { self.assumptions.insert(s.into()); }
    pub fn sample(&mut self, p: &str, s: impl Into<String>) { let v = self.samples.entry(p.into()).or_default(); if v.len() < 6 { v.push(s.into()) } }
    pub fn json(&self) -> String {
        let f: Vec<String> = self.found.iter().map(|v| format!("{{\"props\":[{}],\"key\":{},\"place\":{},\"ctor\":{},\"example\":{}}}", v.props.iter().map(|p| q(p)).collect::<Vec<_>>().join(","), q(&v.key), q(&v.place), q(&v.ctor), q(&v.example))).collect();
        let c: Vec<String> = self.counts.iter().map(|(k, n)| format!("{}:{n}", q(k))).collect();
        let u: Vec<String> = self.undecided.iter().map(|(k, n)| format!("{}:{}", q(k), n.0)).collect();
        let up: Vec<String> = self.undecided.iter().map(|(k, n)| format!("{}:[{}]", q(k), n.1.iter().map(|p| q(p)).collect::<Vec<_>>().join(","))).collect();
        let cv: Vec<String> = self.coverage.iter().map(|(k, n)| format!("{}:{}", q(k), q(n))).collect();
        let asm: Vec<String> = self.assumptions.iter().map(|k| q(k)).collect();
        let s: Vec<String> = self.samples.iter().map(|(k, v)| format!("{}:[{}]", q(k), v.iter().map(|x| q(x)).collect::<Vec<_>>().join(","))).collect();
        format!("{{\"found\":[{}],\"counts\":{{{}}},\"undecided\":{{{}}},\"undecided_props\":{{{}}},\"coverage\":{{{}}},\"assumptions\":[{}],\"samples\":{{{}}}}}\n", f.join(",\n"), c.join(","), u.join(",\n"), up.join(",\n"), cv.join(","), asm.join(","), s.join(","))
    }
}
