//! Where text is cut: every cut has to fall between two characters, whatever
//! the text holds.
use crate::grammar::*;
use crate::interp::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use std::collections::*;

#[derive(Default, Clone)]
pub struct Cuts { pub seen: usize, pub functions: BTreeSet<String>, pub unclear: BTreeSet<String>, pub bad: BTreeMap<String, String> }

/// Every character the pattern accepts is an ASCII character.
fn ascii_pattern(p: &str) -> bool { p.is_ascii() && !["[^", "\\p", "\\P", "\\u", "\\x", "\\S", "\\W", "\\D", "\\w", "error"].iter().any(|x| p.contains(x)) && !p.replace("\\.", "").replace("[.]", "").contains('.') }
fn ascii(c: &Ctx, a: &Alt, seen: &mut HashSet<String>) -> bool {
    match &a.content {
        Content::Lit(l, _) => l.is_ascii(),
        Content::Pattern(p) => ascii_pattern(p),
        _ => !seen.insert(a.key()) || c.productions(a).iter().all(|p| p.iter().all(|s| s.alts.iter().all(|x| ascii(c, x, seen)))),
    }
}
impl<'c> Interp<'c> {
    fn ascii_part(&self, p: &Part) -> bool {
        match p {
            Part::Lit(t) => t.is_ascii(),
            Part::Kind(_) => true,
            Part::Src(n) => !self.tree.nodes[*n].extra && self.tree.nodes[*n].alts.iter().all(|a| matches!(a.content, Content::Lit(..) | Content::Pattern(_)) && ascii(self.c, a, &mut HashSet::new())),
            Part::Mod(_, x) => x.iter().all(|p| self.ascii_part(p)),
            _ => false,
        }
    }
    /// What the path knows about a number and the texts it comes from.
    fn place(&self, s: &AStr, i: &V) -> Option<bool> {
        if s.iter().all(|p| self.ascii_part(p)) { return Some(true) }
        if let Some(l) = as_lit(s) { return match i { V::Int(i) => Some(*i as usize > l.len() || l.is_char_boundary(*i as usize)), _ => None } }
        let t = show_str(s);
        match i {
            V::Int(0) => Some(true),
            V::Int(i) => {
                let i = *i as usize;
                if let Some(Part::Lit(x)) = s.first() { if i <= x.len() { return Some(x.is_char_boundary(i)) } }
                if self.memo.get(&format!("charboundary({t},{i})")) == Some(&1) { return Some(true) }
                // a character has at most four bytes
                let no = |k: usize| self.memo.get(&format!("charboundary({t},{k})")) == Some(&0);
                if (1..4).all(|d| no(i + d)) || i > 3 && (1..4).all(|d| no(i - d)) { return Some(true) }
                let q = format!("starts_with({t},'");
                if self.memo.iter().any(|(k, v)| *v == 1 && k.strip_prefix(&q).and_then(|k| k.strip_suffix("')")).is_some_and(|p| p.len() >= i && p.is_char_boundary(i))) { return Some(true) }
                if i == 1 { if let [Part::Src(n)] = s[..] {
                    let f = self.c.edges.of_node(self, n, true);
                    let letter = self.tree.nodes[n].alts.iter().any(|a| !ascii(self.c, a, &mut HashSet::new()) && f.iter().any(|c| c.is_alphabetic()));
                    if !f.is_empty() && f.iter().all(|c| c.is_ascii()) && !letter { return Some(true) }
                } }
                // the path has looked at the characters or bytes of the text
                if self.memo.keys().any(|k| !k.starts_with("charboundary(") && k.contains(&t) && ["byte", "char", "ascii", "find", "position"].iter().any(|w| k.replace(&t, "").contains(w))) { return None }
                Some(false)
            }
            V::Ext(k, f) if &**k == "byte" => match (&s[..], &f[0]) { ([Part::Src(_)] | [Part::Span(..)] | [Part::Unk(_)], V::Node(_)) => Some(true), _ => None },
            V::Lin(_) | V::Top(_) => {
                let x = term(i);
                if x == term(&self.len_of(s)) { return Some(true) }
                if self.memo.get(&format!("charboundary({t},{x})")) == Some(&1) { return Some(true) }
                // sums of lengths and numbers
                let l = format!("len({t})");
                let mut rest = x.replace(&l, "");
                let had = rest.len() < x.len();
                for w in ["saturating_sub", "min", "max", "Div", "Sub", "Add", "Mul", "usize"] { rest = rest.replace(w, "") }
                if !rest.chars().all(|c| c.is_ascii_digit() || " ()+-*/,".contains(c)) { return None }
                if had { for (k, v) in &self.memo { if *v == 1 { if let Some(p) = k.strip_prefix(&format!("ends_with({t},'")).and_then(|k| k.strip_suffix("')")) { if (0..=p.len()).any(|n| p.is_char_boundary(p.len() - n) && (x == format!("({l} - {n})") || x == format!("{l}-{n}") || x.contains(&format!("{l},{n})")))) { return Some(true) } } } } }
                Some(false)
            }
            _ => None,
        }
    }
    fn len_of(&self, s: &AStr) -> V { V::top(format!("len({})", show_str(s))) }
    /// Text is cut at a byte.
    pub fn cut(&mut self, s: &AStr, i: &V) {
        let f = self.frames.iter().rev().find(|f| &***f != "lib").cloned().unwrap_or_else(|| "?".into());
        self.cuts.seen += 1; self.cuts.functions.insert(f.to_string());
        match self.place(s, i) {
            Some(true) => {}
            Some(false) => { let x = match i { V::Int(i) => i.to_string(), x => term(x).replace(&show_str(s), "text") }; self.cuts.bad.entry(format!("{f}: cuts text at byte {x}")).or_insert(format!("{} is cut at byte {x}, which can lie inside a character", show_str(s))); }
            None => { self.cuts.unclear.insert(format!("{f}: cuts text at {}", term(i))); }
        }
    }
    /// Is this place between two characters?
    pub fn between(&mut self, s: &AStr, i: &V) -> V {
        if self.place(s, i) == Some(true) { return V::b(true) }
        let t = show_str(s);
        V::top(format!("charboundary({t},{})", term(i)))
    }
    /// The path is one the program can take.
    pub fn settle_cuts(&mut self) {
        if self.cuts.seen == 0 { return }
        let x = std::mem::take(&mut self.cuts);
        let mut c = self.c.cuts.borrow_mut();
        c.seen += x.seen; c.functions.extend(x.functions);
        if self.imprecise.is_empty() { c.bad.extend(x.bad); c.unclear.extend(x.unclear) } else { c.unclear.extend(x.bad.into_keys()); c.unclear.extend(x.unclear) }
    }
}
const OPS: [&str; 14] = ["String::truncate", "String::split_off", "String::drain", "String::remove", "String::insert", "String::insert_str", "String::replace_range", "str::split_at", "str::split_at_mut", "get_unchecked", "get_unchecked_mut", "from_utf8_unchecked", "slice_unchecked", "str::split_at_checked"];
/// All functions that cut text: those no path went through are left open.
pub fn census(c: &Ctx, start: Instance, out: &mut crate::report::Out) {
    let mut starts = vec![start];
    if let Some(m) = rustc_public::entry_fn().and_then(|m| Instance::try_from(m).ok()) { starts.push(m) }
    let mut all = BTreeSet::new(); let mut fns = BTreeSet::new();
    for s in starts { for f in crate::effects::reach(c, s) {
        fns.insert(f.name.clone());
        for (n, p) in &f.calls { if (n.contains("str::") || n.contains("String::")) && OPS.iter().any(|o| n.ends_with(o) || n.replace("<impl str>::", "").ends_with(o)) || n.ends_with("str::index") { all.insert((f.name.clone(), n.clone(), p.clone())); } }
    } }
    out.count("C33 functions", fns.len());
    for (f, n, p) in all { out.sample("C33", format!("{f} ({p}) calls {n}")) }
}
pub fn report(c: &Ctx, out: &mut crate::report::Out) {
    let x = c.cuts.borrow();
    out.count("C33 obligations", x.seen);
    for f in &x.functions { out.sample("C33", format!("{f}: every cut of text examined")) }
    for (k, e) in &x.bad { out.add("C33", k.clone(), k.split(": ").next().unwrap_or(""), e.clone()) }
    for k in &x.unclear { out.undecided(&["C33"], k.clone()) }
}
