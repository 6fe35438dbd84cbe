//! What a document prints, as a sequence of token pieces and separators, and
//! its comparison with the tokens of the syntax it was built from.
use crate::grammar::*;
use crate::interp::*;
use crate::tree::*;
use crate::val::*;
use rustc_public::ty::AdtDef;
use std::collections::*;
use std::rc::Rc;

pub const NONE: u8 = 1;
pub const SP: u8 = 2;
pub const NL: u8 = 4;
/// more than one blank
pub const WIDE: u8 = 8;
/// a text of one blank: the printer leaves it out behind a blank
pub const LONE: u8 = 16;
/// White space followed by white space.
pub fn join(a: u8, b: u8) -> u8 {
    let one = |x, y| match (x, y) { (NL, _) | (_, NL) => NL, (NONE, z) | (z, NONE) | (z, LONE) => z, _ => WIDE };
    let all = [NONE, SP, NL, WIDE, LONE]; let mut r = 0;
    for x in all { for y in all { if a & x != 0 && b & y != 0 { r |= one(x, y) } } }
    r
}
#[derive(Clone, Debug)]
pub enum Piece { Ch(char), Part(Part), Built(Rc<LazyV>) }
impl PartialEq for Piece { fn eq(&self, o: &Piece) -> bool { match (self, o) { (Piece::Ch(a), Piece::Ch(b)) => a == b, (Piece::Part(a), Piece::Part(b)) => a == b, (Piece::Built(a), Piece::Built(b)) => a.id == b.id, _ => false } } }
#[derive(Clone, Debug)]
pub struct Norm { pub p: Vec<Piece>, pub s: Vec<u8> }
impl Norm {
    pub fn empty() -> Norm { Norm { p: vec![], s: vec![NONE] } }
    pub fn sep(m: u8) -> Norm { Norm { p: vec![], s: vec![m] } }
    pub fn cat(&mut self, o: Norm) {
        let l = self.s.len() - 1; self.s[l] = join(self.s[l], o.s[0]);
        self.p.extend(o.p); self.s.extend(o.s.into_iter().skip(1));
    }
    pub fn show(&self, t: &Tree) -> String {
        let mut o = String::new();
        for (i, s) in self.s.iter().enumerate() {
            o.push_str(match *s { NONE => "", SP | LONE => " ", WIDE => "  ", NL => "\\n", 3 | 17 => "(_)", 6 | 20 => "(\\n)", 5 => "(\\n?)", _ => "(*)" });
            if let Some(p) = self.p.get(i) { match p { Piece::Ch(c) => o.push(*c), Piece::Part(Part::Src(n)) => o.push_str(&format!("<text {}>", t.describe(*n))), Piece::Part(x) => o.push_str(&format!("<{}>", show_str(&[x.clone()]))), Piece::Built(l) => o.push_str(&format!("<{}>", t.describe(l.node))) } }
        }
        o
    }
}
pub struct DocInfo { pub names: Vec<String> }
impl DocInfo { pub fn new(d: AdtDef) -> DocInfo { DocInfo { names: d.variants().iter().map(|v| v.name().to_string()).collect() } } }

pub struct Flattener<'a> { pub di: &'a DocInfo, pub diverge: Vec<(String, String)>, pub choices: usize, pub budget: usize, pub cache: HashMap<(usize, bool), Norm> }
impl<'a> Flattener<'a> {
    pub fn text(&self, a: &AStr) -> Norm {
        let mut n = Norm::empty();
        for p in a.iter() { match p { Part::Lit(s) => for c in s.chars() { if c == '\n' { n.cat(Norm::sep(NL)) } else if c.is_whitespace() { n.cat(Norm::sep(SP)) } else { n.p.push(Piece::Ch(c)); n.s.push(NONE) } }, x => { n.p.push(Piece::Part(x.clone())); n.s.push(NONE) } } }
        n
    }
    /// The lines of a document whose layout leaves no choice and whose text is known.
    pub fn lines(&mut self, it: &mut Interp, d: &V, out: &mut Vec<String>) -> R<()> {
        let p = it.last_ptr(d)?;
        match it.load(&p)? {
            V::Agg(i, f) => match &self.di.names.get(i as usize).map(|s| s.clone()).unwrap_or_default()[..] {
                "Newline" | "NewlineWithNoIndent" => { out.push(String::new()); Ok(()) }
                "ForceBreak" => Ok(()),
                "Text" => { let s = it.str_of(&f[0])?; let Some(s) = as_lit(&s) else { return unsup("text of a comment") }; for (k, l) in s.split('\n').enumerate() { if k > 0 || out.is_empty() { out.push(String::new()) } out.last_mut().unwrap().push_str(l) } Ok(()) }
                "Flat" => self.lines(it, &f[0], out),
                "Indent" | "Dedent" | "Align" => self.lines(it, &f[1], out),
                "Concat" => { for x in it.elems(&f[0])? { self.lines(it, &x, out)? } Ok(()) }
                "Choice" => self.lines(it, &f[1], out),
                x => unsup(format!("document variant {x}")),
            },
            x => unsup(format!("document {}", term(&x))),
        }
    }
    pub fn flat(&mut self, it: &mut Interp, d: &V, flat: bool) -> R<Norm> {
        if self.budget == 0 { return Err(Exit::Budget) } self.budget -= 1;
        let p = it.last_ptr(d)?;
        let key = if let V::Ptr(a, q) = &p { if q.is_empty() { Some((*a, flat)) } else { None } } else { None };
        if let Some(k) = key { if let Some(n) = self.cache.get(&k) { return Ok(n.clone()) } }
        let v = it.load(&p)?;
        let r = match v {
            V::Built(l) => Norm { p: vec![Piece::Built(l)], s: vec![NONE, NONE] },
            V::Agg(i, f) => match &self.di.names.get(i as usize).map(|s| s.clone()).unwrap_or_default()[..] {
                "Newline" | "NewlineWithNoIndent" => Norm::sep(NL),
                "ForceBreak" => Norm::empty(),
                "Text" => { let s = it.str_of(&f[0])?; if as_lit(&s).as_deref() == Some(" ") { Norm::sep(LONE) } else { self.text(&s) } }
                "Softline" => Norm::sep(if flat { SP } else { SP | NL }),
                "Maybeline" => Norm::sep(if flat { NONE } else { NONE | NL }),
                "Flat" => self.flat(it, &f[0], true)?,
                "Indent" | "Dedent" | "Align" => self.flat(it, &f[1], flat)?,
                "Concat" => { let mut n = Norm::empty(); for x in it.elems(&f[0])? { let y = self.flat(it, &x, flat)?; n.cat(y) } n }
                "Choice" => {
                    self.choices += 1;
                    let x = self.flat(it, &f[0], flat)?;
                    if flat { x } else {
                        let y = self.flat(it, &f[1], flat)?;
                        if x.p == y.p { Norm { s: x.s.iter().zip(&y.s).map(|(a, b)| a | b).collect(), p: x.p } }
                        else { self.diverge.push((x.show(&it.tree), y.show(&it.tree))); y }
                    }
                }
                x => return unsup(format!("document variant {x}")),
            },
            V::Undef => return unsup("undefined document"),
            x => return unsup(format!("document {}", term(&x))),
        };
        if let Some(k) = key { self.cache.insert(k, r.clone()); }
        Ok(r)
    }
}

impl Ctx {
    /// The literals of a construct that has exactly one spelling.
    pub fn lits(&self, a: &Alt) -> Option<Rc<Vec<(Rc<str>, bool)>>> {
        match &a.content {
            Content::Lit(t, ci) => Some(Rc::new(if t.trim().is_empty() { vec![] } else { vec![(t.clone(), *ci)] })),
            Content::Pattern(p) => if p.starts_with("[\\s") { Some(Rc::new(vec![])) } else { None },
            _ => {
                let k = a.key();
                if let Some(x) = self.lit_memo.borrow().get(&k) { return x.clone() }
                self.lit_memo.borrow_mut().insert(k.clone(), None);
                let ps = self.productions(a);
                let mut out: Option<Rc<Vec<(Rc<str>, bool)>>> = None;
                if ps.len() == 1 { let mut v = vec![]; let mut ok = true; for s in ps[0].iter() { match if s.alts.len() == 1 { self.lits(&s.alts[0]) } else { None } { Some(x) => v.extend(x.iter().cloned()), None => { ok = false; break } } } if ok { out = Some(Rc::new(v)) } }
                self.lit_memo.borrow_mut().insert(k, out.clone()); out
            }
        }
    }
    /// Every spelling consists of fixed tokens.
    pub fn all_lits(&self, a: &Alt) -> bool { self.lits(a).is_some() || (!matches!(a.content, Content::Pattern(_)) && self.productions(a).iter().all(|p| p.iter().all(|s| s.alts.iter().all(|x| self.lits(x).is_some())))) }
    /// The language does not distinguish the letter case of this construct.
    pub fn caseless(&self, a: &Alt) -> bool {
        match &a.content { Content::Lit(_, ci) => *ci, Content::Pattern(p) => matches!(&*a.kind, "decimal_floating_point_literal" | "int") || caseless_pattern(p), _ => self.productions(a).iter().all(|p| p.iter().all(|s| s.alts.iter().all(|x| matches!(x.content, Content::Lit(_, true))))) }
    }
}
/// Every letter occurs in a class with both of its cases.
fn caseless_pattern(p: &str) -> bool {
    let c: Vec<char> = p.chars().collect(); let mut i = 0; let mut letters = false;
    while i < c.len() {
        if c[i] == '[' && i + 3 < c.len() && c[i + 3] == ']' && c[i + 1].eq_ignore_ascii_case(&c[i + 2]) { letters = true; i += 4; continue }
        if c[i] == '\\' && i + 1 < c.len() && matches!(c[i + 1], 's' | 'n' | 'd' | '.') { i += 2; continue }
        if c[i].is_alphabetic() || c[i] == '\\' || c[i] == '[' { return false }
        i += 1;
    }
    letters
}
/// A token (or unexpanded subtree) of the source construct.
#[derive(Clone, Debug)]
pub struct Tok { pub node: usize, pub lit: Option<(Rc<str>, bool)>, pub leaf: bool, pub parent: usize }
pub struct Expected { pub toks: Vec<Tok>, pub range: HashMap<usize, (usize, usize)>, /** comments: node, number of tokens before it */ pub extras: Vec<(usize, usize)> }
pub type Lits = Vec<(Rc<str>, bool)>;
/// How a contract's output differs from its construct at one end: literals it
/// leaves to its parent, or neighbouring literals it prints itself.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Dev { Exact, Missing(Lits), Extra(String) }
pub type Devs = (Dev, Dev);
pub fn exact() -> Devs { (Dev::Exact, Dev::Exact) }
pub fn expected(it: &Interp, root: usize, order: &dyn Fn(&Tree, usize, Vec<usize>) -> Vec<usize>, inner: &HashMap<usize, Devs>) -> Expected {
    fn go(it: &Interp, n: usize, e: &mut Expected, order: &dyn Fn(&Tree, usize, Vec<usize>) -> Vec<usize>, inner: &HashMap<usize, Devs>) {
        let s = e.toks.len();
        let nd = &it.tree.nodes[n];
        match &nd.children {
            Some(c) => { for x in order(&it.tree, n, c.clone()) { if it.tree.nodes[x].extra { let k = e.toks.len(); e.extras.push((x, k)) } else { go(it, x, e, order, inner) } } }
            _ => {
                let par = nd.parent.unwrap_or(n);
                if let Some(t) = it.text_eq.get(&format!("text{n}")) { e.toks.push(Tok { node: n, lit: Some((t.as_str().into(), true)), leaf: true, parent: par }) }
                else {
                    let l = it.c.lits(&nd.alts[0]).filter(|l| nd.alts.iter().skip(1).all(|a| it.c.lits(a).as_ref() == Some(l)));
                    match l {
                        Some(l) => for x in l.iter() { e.toks.push(Tok { node: n, lit: Some(x.clone()), leaf: true, parent: par }) },
                        None => {
                            let d = inner.get(&n).cloned().unwrap_or_else(exact);
                            if let Dev::Missing(l) = &d.0 { for x in l { e.toks.push(Tok { node: n, lit: Some(x.clone()), leaf: true, parent: n }) } }
                            let s = e.toks.len();
                            let leaf = nd.alts.iter().all(|a| matches!(a.content, Content::Lit(..) | Content::Pattern(_)));
                            e.toks.push(Tok { node: n, lit: None, leaf, parent: par });
                            e.range.insert(n, (s, s + 1));
                            if let Dev::Missing(l) = &d.1 { for x in l { e.toks.push(Tok { node: n, lit: Some(x.clone()), leaf: true, parent: n }) } }
                            return;
                        }
                    }
                }
            }
        }
        let end = e.toks.len(); e.range.insert(n, (s, end));
    }
    let mut e = Expected { toks: vec![], range: HashMap::new(), extras: vec![] };
    go(it, root, &mut e, order, inner); e
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Defect { Drop(String), Add(String), Alter(String), /** text derived from the token instead of the token */ Rewrite(String), Split(String), Fuse(String), /** white space between two tokens */ Space(String), Punct(String), Group(String) }
impl Defect {
    pub fn show(&self) -> String { match self { Defect::Drop(s) => format!("drops {s}"), Defect::Add(s) => format!("prints extra {s}"), Defect::Alter(s) => format!("alters {s}"), Defect::Rewrite(s) => format!("rewrites {s}"), Defect::Split(s) => format!("splits {s}"), Defect::Fuse(s) => format!("fuses {s}"), Defect::Space(s) => format!("spacing {s}"), Defect::Punct(s) => format!("punctuation {s}"), Defect::Group(s) => format!("regroups {s}") } }
}
/// Tokens whose absence does not change the program: an empty member or
/// statement, the noise word of a storage alias.
pub fn optional(parent: &str, lit: &str) -> bool {
    match lit { "(" | ")" => matches!(parent, "with_data_cat_filter" | "annotation_argument_list()"), ";" => matches!(parent, "block" | "class_body" | "interface_body" | "constructor_body" | "enum_body" | "trigger_body" | "parser_output"), "as" => parent == "storage_alias", _ => false }
}

/// Which piece covers which tokens.
pub struct Match { /** neighbouring tokens looked at */ pub pairs: usize, pub range: HashMap<usize, (usize, usize)>, /** the tokens that are names, literals, braces or other named elements */ pub named: Vec<Option<usize>>, /** annotations were taken to come first */ pub reordered: bool, pub extras: Vec<(usize, usize)>, pub spans: Vec<(usize, usize, usize, usize)>, pub defects: Vec<Defect>, pub lead: Dev, pub trail: Dev, pub both: bool }
pub struct Matcher<'a> {
    pub it: &'a Interp<'a>, pub e: &'a Expected, pub n: &'a Norm,
    /// whether the contract of a child prints the punctuation that follows it
    pub emits: &'a dyn Fn(&LazyV, &str) -> Vec<bool>,
    /// sibling punctuation after the construct
    pub trailing: Option<String>,
    pub inner: &'a HashMap<usize, Devs>,
    pub own: &'a Devs,
}
fn same(l: &(Rc<str>, bool), t: &Tok) -> bool { t.lit.as_ref().is_some_and(|x| x.0.eq_ignore_ascii_case(&l.0)) }
impl<'a> Matcher<'a> {
    pub fn tok_name(&self, j: usize) -> String { let t = &self.e.toks[j]; match &t.lit { Some((l, _)) => format!("'{l}'"), None => self.it.tree.describe(t.node) } }
    pub fn next_punct(&self, n: usize) -> Option<String> {
        if Some(n) == self.it.root { return None }
        let p = self.it.tree.nodes[n].parent?;
        let vis = self.it.tree.visible_children(p);
        let i = vis.iter().position(|x| *x == n)?;
        for x in &vis[i + 1..] { if self.it.tree.nodes[*x].extra { continue } let k = self.it.tree.kind(*x)?; return if &*k == "," || &*k == ";" { Some(k.to_string()) } else { None } }
        None
    }
    /// Match a word given as literal characters.
    fn chars(&self, i: usize, l: &str, ci: bool) -> Option<usize> {
        let mut k = 0;
        for x in l.chars().filter(|c| !c.is_whitespace()) { match self.n.p.get(i + k) { Some(Piece::Ch(c)) if *c == x || (ci && c.to_lowercase().eq(x.to_lowercase())) => k += 1, _ => return None } }
        Some(k)
    }
    fn case_ok(&self, n: usize) -> bool { self.it.tree.nodes[n].alts.iter().all(|a| self.it.c.caseless(a)) }
    /// (pieces consumed, tokens covered) if piece i starts at token j.
    fn step(&self, i: usize, j: usize) -> Vec<(usize, usize)> {
        let (toks, range) = (&self.e.toks, &self.e.range);
        match &self.n.p[i] {
            Piece::Ch(_) => {
                if j >= toks.len() { return vec![] }
                if let Some((l, ci)) = &toks[j].lit { return self.chars(i, l, *ci).map(|k| (k, 1)).into_iter().collect() }
                vec![]
            }
            Piece::Part(Part::Src(n)) => match range.get(n) { Some((s, e)) if *s == j => vec![(1, e - s)], _ => vec![] },
            Piece::Part(Part::Span(a, b)) => match (range.get(a), range.get(b)) { (Some((s, _)), Some((_, e))) if *s == j && e > s => vec![(1, e - s)], _ => vec![] },
            Piece::Part(Part::Mod(m, x)) => {
                if let ([Part::Src(n)], Some((s, e))) = (&x[..], x.first().and_then(|p| if let Part::Src(n) = p { range.get(n) } else { None })) {
                    let case = m.contains("lowercase") || m.contains("uppercase");
                    if *s == j && ((case && self.case_ok(*n)) || &**m == "trim") { return vec![(1, e - s)] }
                }
                vec![]
            }
            Piece::Part(Part::Kind(n)) => match range.get(n) { Some((s, e)) if *s == j && e - s == 1 && self.it.tree.nodes[*n].alts.iter().all(|a| matches!(&a.content, Content::Lit(l, _) if *l == a.kind)) => vec![(1, 1)], _ => vec![] },
            Piece::Part(_) => vec![],
            Piece::Built(l) => match range.get(&l.node) {
                Some((s, e)) => {
                    let d = self.inner.get(&l.node).cloned().unwrap_or_else(exact);
                    let (mut s, mut e) = (*s, *e);
                    if self.it.tree.nodes[l.node].children.is_some() || toks.get(s).map(|t| t.lit.is_some()).unwrap_or(false) {
                        if let Dev::Missing(x) = &d.0 { s += x.len() } if let Dev::Missing(x) = &d.1 { e = e.saturating_sub(x.len()) }
                    }
                    if let Dev::Extra(x) = &d.0 { match self.backwards(x, s) { Some(k) => s = k, None => return vec![] } }
                    if let Dev::Extra(x) = &d.1 { match self.forwards(x, e) { Some(k) => e = k, None => return vec![] } }
                    if s != j || e < s {
                        // another occurrence of the same punctuation prints the same text
                        return match (self.it.c.lits(&self.it.tree.nodes[l.node].alts[0]), toks.get(j)) { (Some(x), Some(t)) if x.len() == 1 && same(&x[0], t) && matches!(&*x[0].0, "," | ";") => vec![(1, 1)], _ => vec![] };
                    }
                    match self.next_punct(l.node) {
                        Some(p) => (self.emits)(l, &p).into_iter().map(|b| (1, e - s + b as usize)).collect(),
                        None => vec![(1, e - s)],
                    }
                }
                _ => vec![],
            },
        }
    }
    fn backwards(&self, x: &str, mut s: usize) -> Option<usize> { let mut rest = x.to_string(); while !rest.is_empty() { if s == 0 { return None } let (l, ci) = self.e.toks[s - 1].lit.clone()?; let r = if ci { rest.to_lowercase().ends_with(&l.to_lowercase()) } else { rest.ends_with(&*l) }; if !r { return None } rest.truncate(rest.len() - l.len()); s -= 1 } Some(s) }
    fn forwards(&self, x: &str, mut e: usize) -> Option<usize> { let mut rest = x.to_string(); while !rest.is_empty() { let (l, ci) = self.e.toks.get(e)?.lit.clone()?; let r = if ci { rest.to_lowercase().starts_with(&l.to_lowercase()) } else { rest.starts_with(&*l) }; if !r { return None } rest = rest[l.len()..].to_string(); e += 1 } Some(e) }
    pub fn run(&self) -> Match {
        let mut spans = vec![]; let mut defects = vec![]; let (mut lead, mut trail, mut both) = (Dev::Exact, Dev::Exact, false);
        let (mut np, mut nt) = (self.n.p.len(), self.e.toks.len());
        let (mut i, mut j) = (0, 0);
        // the agreed boundary of this construct
        match &self.own.0 { Dev::Missing(l) if nt >= l.len() && l.iter().zip(&self.e.toks).all(|(a, b)| same(a, b)) => j = l.len(), Dev::Extra(x) => if let Some(k) = self.chars(0, x, false) { i = k }, _ => {} }
        match &self.own.1 { Dev::Missing(l) if nt >= j + l.len() && l.iter().zip(&self.e.toks[nt - l.len()..]).all(|(a, b)| same(a, b)) => nt -= l.len(), Dev::Extra(x) => { let k = x.chars().count(); if np >= i + k && self.chars(np - k, x, false).is_some() { np -= k } } _ => {} }
        while i < np || j < nt {
            if i < np {
                let st: Vec<(usize, usize)> = self.step(i, j).into_iter().filter(|x| i + x.0 <= np && j + x.1 <= nt).collect();
                if st.len() > 1 && st.iter().any(|x| x.1 != st[0].1) {
                    // both behaviours are possible: neither may lose or repeat the punctuation
                    let last = j + st.iter().map(|x| x.1).max().unwrap() - 1;
                    let t = &self.e.toks[last];
                    let opt = match (&t.lit, self.it.tree.kind(t.parent)) { (Some((l, _)), Some(p)) => optional(&p, l), _ => false };
                    let p = match &self.n.p[i] { Piece::Built(l) => self.it.tree.describe(l.node), _ => String::new() };
                    if !opt { defects.push(Defect::Punct(format!("after {p} printed only sometimes"))); }
                }
                if let Some((k, m)) = st.first() { if *m > 0 || *k > 0 { spans.push((i, i + k, j, j + m)); i += k; j += m; continue } }
            }
            // resynchronise: next (i', j') with the smallest cost
            let mut best: Option<(usize, usize, usize)> = None;
            for dj in 0..=(nt - j) { for di in 0..=(np - i).min(40) { if di + dj == 0 { continue } let c = di + dj; if let Some(b) = best { if b.0 <= c { break } } let (a, b) = (i + di, j + dj); let ok = (a == np && b == nt) || (a < np && b < nt && self.step(a, b).iter().any(|x| x.1 > 0)); if ok { best = Some((c, di, dj)) } } }
            let (_, di, dj) = best.unwrap_or((0, np - i, nt - j));
            if i + di == np && j == nt && di == 1 { if let (Some(t), Piece::Ch(c)) = (&self.trailing, &self.n.p[i]) { if t.as_str() == c.to_string() { break } } }
            if di == 0 && dj == 0 { break }
            let first = i == 0 && j == 0; let end = i + di == np && j + dj == nt;
            let keep: Vec<usize> = (j..j + dj).filter(|x| {
                let t = &self.e.toks[*x];
                let (Some((l, _)), Some(p)) = (&t.lit, self.it.tree.kind(t.parent)) else { return true };
                let p = match &self.it.tree.nodes[t.parent].children { Some(c) if c.len() == 2 => format!("{p}()"), _ => p.to_string() };
                !((optional(&p, l) || optional(p.trim_end_matches("()"), l)) && self.it.tree.nodes[t.node].fields.is_empty())
            }).collect();
            if first || end {
                let dev = if di == 0 && !keep.is_empty() && keep.iter().all(|x| self.e.toks[*x].lit.is_some()) { Dev::Missing(keep.iter().map(|x| self.e.toks[*x].lit.clone().unwrap()).collect()) }
                    else if keep.is_empty() && di > 0 && (i..i + di).all(|x| matches!(self.n.p[x], Piece::Ch(_))) { Dev::Extra((i..i + di).map(|x| if let Piece::Ch(c) = self.n.p[x] { c } else { ' ' }).collect()) }
                    else { Dev::Exact };
                if first && end { both = true } else if first { lead = dev } else { trail = dev }
            }
            let dropped: Vec<String> = keep.iter().map(|x| self.tok_name(*x)).collect();
            let added = self.pieces(i, i + di);
            if keep.len() == 1 && !added.is_empty() && (i..i + di).any(|x| self.derived(x, self.e.toks[keep[0]].node)) { defects.push(Defect::Rewrite(format!("{} into {added}", dropped.join(" ")))) }
            else if !dropped.is_empty() && !added.is_empty() { defects.push(Defect::Alter(format!("{} into {added}", dropped.join(" ")))) }
            else if !dropped.is_empty() { for d in dropped { defects.push(Defect::Drop(d)) } }
            else if !added.is_empty() { defects.push(Defect::Add(added)) }
            i += di; j += dj;
        }
        Match { pairs: 0, range: self.e.range.clone(), reordered: false, named: self.e.toks.iter().map(|t| if self.it.tree.nodes[t.node].alts.iter().any(|a| a.named) || matches!(&t.lit, Some((l, _)) if &**l == "{" || &**l == "}") { Some(t.node) } else { None }).collect(), extras: self.e.extras.clone(), spans, defects, lead, trail, both }
    }
    /// Does piece `i` print text computed from that of node `n`?
    fn derived(&self, i: usize, n: usize) -> bool {
        fn go(it: &Interp, x: &[Part], n: usize) -> bool { x.iter().any(|p| match p { Part::Src(m) => it.tree.is_ancestor(*m, n) || it.tree.is_ancestor(n, *m), Part::Span(a, b) => it.tree.is_ancestor(n, *a) || it.tree.is_ancestor(n, *b), Part::Mod(_, y) => go(it, y, n), _ => false }) }
        match &self.n.p[i] { Piece::Part(p @ Part::Mod(..)) => go(self.it, &[p.clone()], n), _ => false }
    }
    fn pieces(&self, a: usize, b: usize) -> String {
        let mut o = String::new();
        for k in a..b { match &self.n.p[k] { Piece::Ch(c) => o.push(*c), Piece::Part(Part::Src(n)) => o.push_str(&format!("<{}>", self.it.tree.describe(*n))), Piece::Part(Part::Mod(m, x)) => o.push_str(&format!("<{m} of {}>", x.iter().map(|p| if let Part::Src(n) = p { self.it.tree.describe(*n) } else { show_str(&[p.clone()]) }).collect::<String>())), Piece::Part(p) => o.push_str(&format!("<{}>", show_str(&[p.clone()]))), Piece::Built(l) => o.push_str(&format!("<{}>", self.it.tree.describe(l.node))) } }
        o
    }
}
/// Grouping parentheses of query conditions may be normalised as long as the
/// operator structure is kept.
pub fn grouping_kind(k: &str) -> bool { matches!(k, "where_clause" | "having_clause" | "and_expression" | "or_expression" | "not_expression") }
pub fn must_group(parent: &str, child: &str) -> bool {
    match parent { "and_expression" => matches!(child, "or_expression" | "not_expression"), "or_expression" => matches!(child, "and_expression" | "not_expression"), "not_expression" => child != "comparison_expression", _ => false }
}
pub fn strip_groups(n: &Norm) -> Norm {
    let mut o = Norm::empty();
    for (i, s) in n.s.iter().enumerate() { let l = o.s.len() - 1; o.s[l] = join(o.s[l], *s); if let Some(p) = n.p.get(i) { if !matches!(p, Piece::Ch('(') | Piece::Ch(')')) { o.p.push(p.clone()); o.s.push(NONE) } } }
    o
}
pub fn check_groups(it: &Interp, root: usize, n: &Norm) -> Vec<Defect> {
    let t = &it.tree; let mut out = vec![];
    let Some(rk) = t.kind(root) else { return out };
    let kids: Vec<usize> = t.visible_children(root).into_iter().filter(|c| t.nodes[*c].alts.iter().any(|a| a.named)).collect();
    let operand = |x: usize| -> Option<usize> { let mut x = x; loop { if let Some(i) = kids.iter().position(|k| *k == x) { return Some(i) } x = t.nodes[x].parent? } };
    let mut stack: Vec<usize> = vec![]; let mut wraps = vec![0usize; kids.len()];
    for (i, p) in n.p.iter().enumerate() {
        match p {
            Piece::Ch('(') => stack.push(i),
            Piece::Ch(')') => {
                let Some(s) = stack.pop() else { out.push(Defect::Group("unbalanced parentheses".into())); return out };
                let mut ops = BTreeSet::new(); let mut words = false;
                for q in &n.p[s + 1..i] { match q { Piece::Built(l) => { if let Some(k) = operand(l.node) { ops.insert(k); } } Piece::Part(Part::Src(x)) => { if let Some(k) = operand(*x) { ops.insert(k); } } Piece::Ch('(') | Piece::Ch(')') => {} _ => words = true } }
                if ops.len() == 1 && !words { wraps[*ops.iter().next().unwrap()] += 1 }
                else if ops.len() == kids.len() && words && rk.ends_with("_expression") && n.p[..s].iter().all(|q| matches!(q, Piece::Ch('('))) {}
                else { out.push(Defect::Group(format!("operands of {rk}"))); }
            }
            _ => {}
        }
    }
    if !stack.is_empty() { out.push(Defect::Group("unbalanced parentheses".into())) }
    for (i, k) in kids.iter().enumerate() { for x in t.kinds(*k) { if wraps[i] == 0 && must_group(&rk, &x) { out.push(Defect::Group(format!("ungrouped {x} inside {rk}"))) } } }
    out
}
/// Character classes a token sequence can start / end with.
pub struct Edges { memo: RefCellMap }
type RefCellMap = std::cell::RefCell<HashMap<(String, bool), BTreeSet<char>>>;
impl Edges {
    pub fn new() -> Edges { Edges { memo: Default::default() } }
    pub fn of_alt(&self, c: &Ctx, a: &Alt, first: bool) -> BTreeSet<char> {
        match &a.content {
            Content::Lit(l, _) => one(if first { l.chars().next() } else { l.chars().last() }),
            Content::Pattern(p) => pat_edge(p, first),
            _ => {
                let key = (a.key(), first);
                if let Some(s) = self.memo.borrow().get(&key) { return s.clone() }
                self.memo.borrow_mut().insert(key.clone(), BTreeSet::new());
                let mut out = BTreeSet::new();
                for p in c.productions(a).iter() { if let Some(s) = if first { p.first() } else { p.last() } { for x in &s.alts { out.extend(self.of_alt(c, x, first)) } } }
                self.memo.borrow_mut().insert(key, out.clone()); out
            }
        }
    }
    pub fn of_node(&self, it: &Interp, n: usize, first: bool) -> BTreeSet<char> {
        if let Some(t) = it.text_eq.get(&format!("text{n}")) { return one(if first { t.chars().next() } else { t.chars().last() }) }
        if let Some(ch) = &it.tree.nodes[n].children { if let Some(c) = if first { ch.first() } else { ch.last() } { return self.of_node(it, *c, first) } }
        let mut o = BTreeSet::new(); for a in &it.tree.nodes[n].alts { o.extend(self.of_alt(it.c, a, first)) }
        if first { if let Some(x) = it.first_not.get(&n) { o.retain(|c| !x.contains(c)) } }
        o
    }
}
fn one(c: Option<char>) -> BTreeSet<char> { c.into_iter().map(class).collect() }
pub fn class(c: char) -> char { if c.is_alphanumeric() || c == '_' || c == '$' { 'w' } else { c } }
fn pat_edge(p: &str, first: bool) -> BTreeSet<char> { let t = p.trim_start_matches(['(', '?', ':']); let mut s = BTreeSet::new(); if t.starts_with('\'') || t.starts_with('"') { s.insert('\''); } else { if first && t.starts_with("-?") { s.insert('-'); } s.insert('w'); } s }
pub fn fuses(a: char, b: char) -> bool { matches!((a, b), ('w', 'w') | ('+', '+') | ('-', '-') | ('/', '/') | ('/', '*')) }
