//! The concrete-syntax grammar shipped with the parser dependency, turned into
//! per-kind sets of child productions (the abstract tree domain).
use crate::json::J;
use std::collections::*;
use std::rc::Rc;

#[derive(Debug, Clone)]
pub enum G {
    Sym(Rc<str>), Lit(Rc<str>, bool), Pat(Rc<str>), Choice(Vec<G>), Seq(Vec<G>), Rep(Box<G>, usize),
    Field(Rc<str>, Box<G>), Alias(bool, Rc<str>, Rc<G>), Blank,
}
/// What a tree node of some kind is made of.
#[derive(Debug, Clone)]
pub enum Content { Lit(Rc<str>, bool), Pattern(Rc<str>), Rule(Rc<str>), Inner(Rc<G>) }
#[derive(Debug, Clone)]
pub struct Alt { pub kind: Rc<str>, pub named: bool, pub content: Content }
impl Alt {
    pub fn key(&self) -> String { match &self.content { Content::Inner(g) => format!("{}={:p}", self.kind, Rc::as_ptr(g)), Content::Rule(r) => format!("{}:{}", self.kind, r), Content::Lit(l, _) => format!("{}'{}", self.kind, l), Content::Pattern(_) => format!("{}~", self.kind) } }
}
#[derive(Debug, Clone)]
pub struct Slot { pub alts: Vec<Alt>, pub fields: Vec<Rc<str>>, pub visible: bool }
pub type Prod = Vec<Slot>;

pub struct Grammar {
    pub rules: HashMap<Rc<str>, G>, pub order: Vec<Rc<str>>, pub hidden: HashSet<Rc<str>>, pub extras: HashSet<Rc<str>>,
    pub max_rep: usize, pub limit: usize, pub all_names: Vec<Rc<str>>,
}

/// "[cC][lL]" style patterns are case-insensitive keywords; returns the words.
fn ci_literal(j: &J) -> Option<(String, bool)> {
    match j.get("type")?.str() {
        "STRING" => Some((j.get("value")?.str().to_string(), false)),
        "PATTERN" => {
            let p = j.get("value")?.str();
            if p == "[\\s\\n]+" { return Some((" ".into(), true)) }
            let c: Vec<char> = p.chars().collect();
            let mut i = 0; let mut o = String::new();
            while i < c.len() {
                if c[i] == '[' && i + 3 < c.len() && c[i + 3] == ']' && (c[i + 1].to_lowercase().eq(c[i + 2].to_lowercase())) { o.push(c[i + 1].to_ascii_lowercase()); i += 4 } else { return None }
            }
            Some((o, true))
        }
        "TOKEN" | "IMMEDIATE_TOKEN" | "PREC" | "PREC_LEFT" | "PREC_RIGHT" | "ALIAS" => ci_literal(j.get("content")?),
        "SEQ" => { let mut o = String::new(); let mut ci = false; for m in j.get("members")?.arr() { let (s, c) = ci_literal(m)?; o += &s; ci |= c } Some((o, ci)) }
        _ => None,
    }
}

/// Operators whose characters may be separated by blanks ("> >").
fn spaced_literal(p: &str) -> Option<String> {
    let ws = "[\\s\\n]*";
    if !p.contains(ws) { return None }
    let r = p.replace(ws, "");
    let mut o = String::new(); let mut rest = &r[..];
    while let Some(c) = rest.chars().next() {
        if c == '[' { let b: Vec<char> = rest.chars().take(4).collect(); if b.len() == 4 && b[3] == ']' && b[1].to_lowercase().eq(b[2].to_lowercase()) { o.push(b[1].to_ascii_lowercase()); rest = &rest[4..]; continue } return None }
        if "\\(){}|*+?.".contains(c) { return None }
        o.push(c); rest = &rest[c.len_utf8()..];
    }
    if o.is_empty() { None } else { Some(o) }
}

fn conv(j: &J) -> G {
    let t = j.get("type").unwrap().str();
    let content = || j.get("content").unwrap();
    match t {
        "SYMBOL" => G::Sym(j.get("name").unwrap().str().into()),
        "STRING" => G::Lit(j.get("value").unwrap().str().into(), false),
        "PATTERN" | "TOKEN" | "IMMEDIATE_TOKEN" => match ci_literal(j) { Some((s, c)) => G::Lit(s.as_str().into(), c), None => { let p = pat(j); match spaced_literal(&p) { Some(s) => G::Lit(s.as_str().into(), true), None => G::Pat(p.as_str().into()) } } },
        "CHOICE" => G::Choice(j.get("members").unwrap().arr().iter().map(conv).collect()),
        "SEQ" => G::Seq(j.get("members").unwrap().arr().iter().map(conv).collect()),
        "REPEAT" => G::Rep(Box::new(conv(content())), 0),
        "REPEAT1" => G::Rep(Box::new(conv(content())), 1),
        "PREC" | "PREC_LEFT" | "PREC_RIGHT" | "PREC_DYNAMIC" => conv(content()),
        "FIELD" => G::Field(j.get("name").unwrap().str().into(), Box::new(conv(content()))),
        "ALIAS" => {
            // a nested alias: the outer one wins, the inner supplies the text
            let mut inner = conv(content());
            if let G::Alias(_, _, g) = &inner { inner = (**g).clone() }
            G::Alias(j.get("named").unwrap().bool(), j.get("value").unwrap().str().into(), Rc::new(inner))
        }
        "BLANK" => G::Blank,
        _ => panic!("grammar node {t}"),
    }
}
/// Readable rendering of a token pattern.
fn pat(j: &J) -> String {
    match j.get("type").unwrap().str() {
        "PATTERN" | "STRING" => j.get("value").unwrap().str().to_string(),
        "CHOICE" => j.get("members").unwrap().arr().iter().map(pat).collect::<Vec<_>>().join("|"),
        "SEQ" => j.get("members").unwrap().arr().iter().map(pat).collect::<Vec<_>>().join(""),
        "BLANK" => String::new(),
        _ => j.get("content").map(pat).unwrap_or_default(),
    }
}

impl Grammar {
    pub fn load(text: &str, max_rep: usize, limit: usize) -> Grammar {
        let j = crate::json::parse(text);
        let mut rules = HashMap::new(); let mut order = vec![]; let mut hidden = HashSet::new();
        for (k, v) in j.get("rules").unwrap().obj() { let k: Rc<str> = k.as_str().into(); order.push(k.clone()); if k.starts_with('_') { hidden.insert(k.clone()); } rules.insert(k, conv(v)); }
        for n in ["supertypes", "inline"] { for s in j.get(n).unwrap().arr() { hidden.insert(s.str().into()); } }
        let mut extras = HashSet::new();
        for e in j.get("extras").unwrap().arr() { if let Some(n) = e.get("name") { extras.insert(n.str().into()); } }
        let mut g = Grammar { rules, order, hidden, extras, max_rep, limit, all_names: vec![] };
        let mut names = BTreeSet::new();
        for r in g.order.clone() { if !g.hidden.contains(&r) { names.insert(r.clone()); } collect_alias(&g.rules[&r], &mut names); }
        g.all_names = names.into_iter().collect();
        g
    }
    pub fn leaf(&self, rule: &str) -> Option<Content> {
        match &self.rules[rule] { G::Lit(s, ci) => Some(Content::Lit(s.clone(), *ci)), G::Pat(p) => Some(Content::Pattern(p.clone())), _ => None }
    }
    pub fn alt_of_rule(&self, r: &Rc<str>) -> Alt { Alt { kind: r.clone(), named: true, content: self.leaf(r).unwrap_or(Content::Rule(r.clone())) } }
    /// Every alternative that can carry the visible kind `k`.
    pub fn alts_of_kind(&self, k: &str) -> Vec<Alt> {
        let mut v = vec![];
        if self.rules.contains_key(k) && !self.hidden.contains(k) { v.push(self.alt_of_rule(&k.into())) }
        for r in &self.order { find_alias(self, &self.rules[r], k, &mut v); }
        let mut seen = HashSet::new(); v.retain(|a| seen.insert(a.key())); v
    }
    fn alias_alt(&self, named: bool, val: &Rc<str>, g: &Rc<G>) -> Alt {
        let content = match &**g {
            G::Lit(s, ci) => Content::Lit(s.clone(), *ci), G::Pat(p) => Content::Pattern(p.clone()),
            G::Sym(r) if !self.hidden.contains(r) => self.leaf(r).unwrap_or(Content::Rule(r.clone())),
            _ => Content::Inner(g.clone()),
        };
        Alt { kind: val.clone(), named, content }
    }
    pub fn productions(&self, c: &Content) -> Vec<Prod> {
        let mut v = self.raw_productions(c);
        if let Content::Rule(r) = c { crate::scope::restrict(r, &mut v) }
        v
    }
    fn raw_productions(&self, c: &Content) -> Vec<Prod> {
        match c { Content::Rule(r) => self.expand(&self.rules[r], 0), Content::Inner(g) => self.expand(g, 0), _ => vec![vec![]] }
    }
    fn expand(&self, g: &G, depth: usize) -> Vec<Prod> { self.expand_in(g, depth, &mut vec![]) }
    fn expand_in(&self, g: &G, depth: usize, open: &mut Vec<Rc<str>>) -> Vec<Prod> {
        if depth > 60 { return vec![] }
        match g {
            G::Blank => vec![vec![]],
            G::Lit(s, ci) => vec![vec![Slot { alts: vec![Alt { kind: s.clone(), named: false, content: Content::Lit(s.clone(), *ci) }], fields: vec![], visible: true }]],
            G::Pat(p) => vec![vec![Slot { alts: vec![Alt { kind: "<pattern>".into(), named: false, content: Content::Pattern(p.clone()) }], fields: vec![], visible: false }]],
            G::Sym(r) => {
                if self.hidden.contains(r) {
                    // a hidden rule may re-enter itself once (grouping inside grouping)
                    if open.iter().filter(|x| *x == r).count() > 1 { return vec![] }
                    open.push(r.clone()); let v = self.expand_in(&self.rules[r], depth + 1, open); open.pop(); v
                }
                else { vec![vec![Slot { alts: vec![self.alt_of_rule(r)], fields: vec![], visible: true }]] }
            }
            G::Alias(named, val, inner) => vec![vec![Slot { alts: vec![self.alias_alt(*named, val, inner)], fields: vec![], visible: true }]],
            G::Field(f, x) => { let mut v = self.expand_in(x, depth + 1, open); for p in &mut v { for s in p { s.fields.push(f.clone()) } } v }
            G::Choice(m) => { let mut out: Vec<Prod> = vec![]; for x in m { out.extend(self.expand_in(x, depth + 1, open)) } merge(out) }
            G::Seq(m) => {
                let mut out: Vec<Prod> = vec![vec![]];
                for x in m { let e = self.expand_in(x, depth + 1, open); out = self.product(out, &e) }
                out
            }
            G::Rep(x, min) => {
                let e = self.expand_in(x, depth + 1, open);
                let mut out: Vec<Prod> = vec![]; let mut cur: Vec<Prod> = vec![vec![]];
                for n in 0..=self.max_rep.max(*min) { if n >= *min { out.extend(cur.iter().cloned()) } if n < self.max_rep.max(*min) { cur = self.product(cur, &e) } }
                merge(out)
            }
        }
    }
    /// Productions with one repetition taken many times, the rest as short or as full as possible.
    pub fn long_productions(&self, c: &Content, n: usize) -> Vec<Prod> {
        let g = match c { Content::Rule(r) => &self.rules[r], Content::Inner(g) => g, _ => return vec![] };
        let mut out = vec![];
        for full in [false, true] { for which in 0..16 { for skip in 0..3 {
            let mut k = 0; let mut hit = false;
            let p = self.expand_long(g, which, &mut k, &mut hit, n, full, skip, 0);
            if let (true, Some(p)) = (hit, p) { out.push(p) }
        } } }
        if let Content::Rule(r) = c { crate::scope::restrict(r, &mut out) }
        let mut seen = HashSet::new();
        out.retain(|p| seen.insert(p.iter().map(|s| format!("{:?}{}", s.fields, s.alts.iter().map(|a| a.key()).collect::<Vec<_>>().join("|"))).collect::<Vec<_>>().join(" ")));
        out
    }
    #[allow(clippy::too_many_arguments)]
    fn expand_long(&self, g: &G, which: usize, k: &mut usize, hit: &mut bool, n: usize, full: bool, skip: usize, depth: usize) -> Option<Prod> {
        if depth > 40 { return None }
        match g {
            G::Field(f, x) => { let mut p = self.expand_long(x, which, k, hit, n, full, skip, depth + 1)?; for s in &mut p { s.fields.push(f.clone()) } Some(p) }
            G::Seq(m) => { let mut o = vec![]; for x in m { o.extend(self.expand_long(x, which, k, hit, n, full, skip, depth + 1)?) } Some(o) }
            G::Choice(m) => {
                // the alternative with the repetition, otherwise the shortest or longest one
                let mut others = vec![]; let mut found = None; let had = *hit;
                for x in m { if let Some(p) = self.expand_long(x, which, k, hit, n, full, skip, depth + 1) { if *hit && !had && found.is_none() { found = Some(p) } else { others.push(p) } } }
                found.or_else(|| if full { others.into_iter().max_by_key(|p| p.len()) } else { others.into_iter().min_by_key(|p| p.len()) })
            }
            G::Rep(x, min) => {
                *k += 1;
                let e = self.expand_in(x, 0, &mut vec![]);
                if e.is_empty() { return None }
                if *k - 1 == which { *hit = true; let w = e.len().min(4); return Some((0..n).flat_map(|i| e[(i + skip) % w].clone()).collect()) }
                Some((0..(*min).max(full as usize)).flat_map(|_| e[0].clone()).collect())
            }
            G::Sym(r) if self.hidden.contains(r) && depth < 12 => {
                let mut e = self.expand_long(&self.rules[r], which, k, hit, n, full, skip, depth + 1);
                // single slots keep all their alternatives
                if e.as_ref().is_some_and(|p| p.len() <= 1) { let mut v = self.expand_in(g, depth, &mut vec![]); v.retain(|p| p.len() == 1); if let Some(p) = v.into_iter().next() { e = Some(p) } }
                e
            }
            g => self.expand_in(g, depth, &mut vec![]).into_iter().next(),
        }
    }
    /// Cartesian product; beyond the limit a deterministic covering subset
    /// (every pair element appears; combinations are strided).
    fn product(&self, a: Vec<Prod>, b: &[Prod]) -> Vec<Prod> {
        let n = a.len() * b.len();
        let mut out = vec![];
        if n <= self.limit { for x in &a { for y in b { let mut p = x.clone(); p.extend(y.iter().cloned()); out.push(p) } } return out }
        let mut seen = HashSet::new();
        let mut push = |i: usize, j: usize, out: &mut Vec<Prod>| { if seen.insert((i, j)) { let mut p = a[i].clone(); p.extend(b[j].iter().cloned()); out.push(p) } };
        for k in 0..a.len().max(b.len()) { push(k % a.len(), k % b.len(), &mut out) }
        // first/last (usually "absent"/"present") against everything
        for i in 0..a.len() { push(i, 0, &mut out); push(i, b.len() - 1, &mut out) }
        for j in 0..b.len() { push(0, j, &mut out); push(a.len() - 1, j, &mut out) }
        out
    }
    /// Kinds that can directly contain a child of kind k.
    pub fn parents_of(&self, k: &str) -> Vec<(Rc<str>, Alt)> {
        let mut out = vec![];
        for r in &self.order {
            if self.hidden.contains(r) { continue }
            for a in [self.alt_of_rule(r)] { if self.productions(&a.content).iter().any(|p| p.iter().any(|s| s.alts.iter().any(|x| &*x.kind == k))) { out.push((r.clone(), a)) } }
        }
        out
    }
}
fn merge(v: Vec<Prod>) -> Vec<Prod> {
    let mut out: Vec<Prod> = vec![];
    let mut single: Vec<(String, usize)> = vec![];
    for p in v {
        if p.len() == 1 && p[0].visible {
            let key = format!("{:?}{}", p[0].fields, p[0].alts.iter().all(|a| a.named));
            if let Some((_, i)) = single.iter().find(|x| x.0 == key) {
                let have: HashSet<String> = out[*i][0].alts.iter().map(|a| a.key()).collect();
                for a in &p[0].alts { if !have.contains(&a.key()) { out[*i][0].alts.push(a.clone()) } }
                continue;
            }
            single.push((key, out.len()));
        }
        out.push(p);
    }
    let mut seen = HashSet::new();
    out.retain(|p| seen.insert(p.iter().map(|s| format!("{:?}{}", s.fields, s.alts.iter().map(|a| a.key()).collect::<Vec<_>>().join("|"))).collect::<Vec<_>>().join(" ")));
    out
}
fn collect_alias(g: &G, out: &mut BTreeSet<Rc<str>>) {
    match g { G::Alias(true, v, i) => { out.insert(v.clone()); collect_alias(i, out) } G::Alias(_, _, i) => collect_alias(i, out), G::Choice(m) | G::Seq(m) => m.iter().for_each(|x| collect_alias(x, out)), G::Rep(x, _) | G::Field(_, x) => collect_alias(x, out), _ => {} }
}
fn find_alias(gr: &Grammar, g: &G, k: &str, out: &mut Vec<Alt>) {
    match g { G::Alias(n, v, i) => { if *n && &**v == k { out.push(gr.alias_alt(true, v, i)) } find_alias(gr, i, k, out) } G::Choice(m) | G::Seq(m) => m.iter().for_each(|x| find_alias(gr, x, k, out)), G::Rep(x, _) | G::Field(_, x) => find_alias(gr, x, k, out), _ => {} }
}
#[allow(dead_code)]
pub fn show(p: &Prod) -> String { p.iter().map(|s| format!("{}{}", s.fields.iter().map(|f| format!("{f}:")).collect::<String>(), if s.alts.len() > 3 { format!("<{} alts>", s.alts.len()) } else { s.alts.iter().map(|a| a.kind.to_string()).collect::<Vec<_>>().join("|") })).collect::<Vec<_>>().join(" ") }
