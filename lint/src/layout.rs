//! Where a construct's lines begin and end: line breaks, blank lines, blanks
//! and indentation in the layouts of its document.
use crate::contracts::*;
use crate::emit::*;
use crate::grammar::*;
use crate::interp::*;
use crate::tree::*;
use crate::val::*;
use std::collections::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Item { Piece(Piece, i32), /** depth, whether an empty line, whether every layout has it */ Break(i32, bool, bool), Blank }
/// What can stand at an edge of a piece of text.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum E { Blank, /** a text that only consists of a blank: not printed behind another blank; true if it is not indented */ Lone(bool), Break, Text, Built(usize) }
#[derive(Clone, Debug, Default)]
struct Edge { first: BTreeSet<E>, last: BTreeSet<E>, empty: bool }
#[derive(Clone, Default)]
pub struct Lay {
    /// the broken layout
    pub items: Vec<Item>, /** amounts of indentation other than one level */ pub odd: Vec<String>,
    /// neighbours that occur in some layout
    pub pairs: BTreeSet<(E, E)>, pub first: BTreeSet<E>, pub last: BTreeSet<E>,
    /// optional line breaks, and children, outside of every choice of layouts
    pub soft: bool, pub open: BTreeSet<usize>,
    /// widths that are not those of their texts
    pub width: Vec<String>, pub texts: usize,
    pub kids: HashMap<usize, Rc<LazyV>>,
}
impl Lay {
    pub fn of(it: &mut Interp, di: &DocInfo, d: &V) -> R<Lay> {
        let mut l = Lay::default();
        l.walk(it, di, d, 0, false, true, 0)?;
        let mut budget = 100_000; let mut memo = HashMap::new();
        let e = l.edges(it, di, d, 0, false, true, &mut budget, &mut memo)?;
        l.first = e.first; l.last = e.last; Ok(l)
    }
    fn name(di: &DocInfo, i: u32) -> String { di.names.get(i as usize).cloned().unwrap_or_default() }
    fn walk(&mut self, it: &mut Interp, di: &DocInfo, d: &V, depth: i32, flat: bool, sure: bool, rec: usize) -> R<()> {
        if rec > 200 { return Err(Exit::Budget) }
        let p = it.last_ptr(d)?;
        match it.load(&p)? {
            V::Built(l) => { self.kids.insert(l.node, l.clone()); self.items.push(Item::Piece(Piece::Built(l), depth)) }
            V::Agg(i, f) => match &Self::name(di, i)[..] {
                "Newline" => self.items.push(Item::Break(depth, false, sure)),
                "NewlineWithNoIndent" => self.items.push(Item::Break(depth, true, sure)),
                "ForceBreak" => {}
                "Text" => {
                    let s = it.str_of(&f[0])?;
                    self.texts += 1;
                    if let (Some(t), V::Int(w)) = (as_lit(&s), it.deref(&f[1])?) { if w != t.len() as i128 && w != t.chars().count() as i128 { self.width.push(format!("{t:?} of width {w}")) } }
                    for p in s.iter() { match p { Part::Lit(s) => for c in s.chars() { if c == '\n' { self.items.push(Item::Break(depth, false, sure)) } else if c.is_whitespace() { self.items.push(Item::Blank) } else { self.items.push(Item::Piece(Piece::Ch(c), depth)) } }, x => self.items.push(Item::Piece(Piece::Part(x.clone()), depth)) } }
                }
                "Softline" => if flat { self.items.push(Item::Blank) } else { self.items.push(Item::Break(depth, false, false)) },
                "Maybeline" => if !flat { self.items.push(Item::Break(depth, false, false)) },
                "Flat" => self.walk(it, di, &f[0], depth, true, sure, rec + 1)?,
                k @ ("Indent" | "Dedent") => {
                    let t = term(&it.deref(&f[0])?);
                    let one = if t == "0" { 0 } else { if it.unit.is_empty() { it.unit = t.clone() } if t != it.unit || t.parse::<i64>().is_ok() { self.odd.push(t) } 1 };
                    self.walk(it, di, &f[1], depth + if k == "Indent" { one } else { -one }, flat, sure, rec + 1)?
                }
                "Concat" => for x in it.elems(&f[0])? { self.walk(it, di, &x, depth, flat, sure, rec + 1)? },
                "Choice" => self.walk(it, di, &f[if flat { 0 } else { 1 }], depth, flat, false, rec + 1)?,
                x => return unsup(format!("document variant {x}")),
            },
            x => return unsup(format!("document {}", term(&x))),
        }
        Ok(())
    }
    #[allow(clippy::too_many_arguments)]
    fn edges(&mut self, it: &mut Interp, di: &DocInfo, d: &V, depth: i32, flat: bool, open: bool, budget: &mut usize, memo: &mut HashMap<(usize, bool, bool, bool), Edge>) -> R<Edge> {
        if *budget == 0 { return Err(Exit::Budget) } *budget -= 1;
        let p = it.last_ptr(d)?;
        let key = if let V::Ptr(a, q) = &p { if q.is_empty() { Some((*a, depth <= 0, flat, open)) } else { None } } else { None };
        if let Some(k) = key { if let Some(e) = memo.get(&k) { return Ok(e.clone()) } }
        let one = |e: E| Edge { first: [e.clone()].into(), last: [e].into(), empty: false };
        let nothing = || Edge { empty: true, ..Edge::default() };
        let e = match it.load(&p)? {
            V::Built(l) => { if open && !flat { self.open.insert(l.node); } one(E::Built(l.node)) }
            V::Agg(i, f) => match &Self::name(di, i)[..] {
                "Newline" | "NewlineWithNoIndent" => one(E::Break),
                "Text" => {
                    let s = it.str_of(&f[0])?; let mut e = nothing();
                    if as_lit(&s).as_deref() == Some(" ") { return Ok(one(E::Lone(depth <= 0))) }
                    for p in s.iter() { match p { Part::Lit(s) => for c in s.chars() { let x = one(if c == '\n' { E::Break } else if c.is_whitespace() { E::Blank } else { E::Text }); e = self.cat(e, x) }, _ => { let x = one(E::Text); e = self.cat(e, x) } } }
                    e
                }
                "Softline" => { if !flat && open { self.soft = true } one(if flat { E::Blank } else { E::Break }) }
                "Maybeline" => { if !flat && open { self.soft = true } if flat { nothing() } else { one(E::Break) } }
                "Flat" => self.edges(it, di, &f[0], depth, true, open, budget, memo)?,
                k @ ("Indent" | "Dedent") => { let depth = if term(&it.deref(&f[0])?) == "0" { depth } else if k == "Indent" { depth + 1 } else { depth - 1 }; self.edges(it, di, &f[1], depth, flat, open, budget, memo)? }
                "Concat" => { let mut e = nothing(); for x in it.elems(&f[0])? { let y = self.edges(it, di, &x, depth, flat, open, budget, memo)?; e = self.cat(e, y) } e }
                "Choice" => {
                    let mut x = self.edges(it, di, &f[0], depth, flat, false, budget, memo)?;
                    if !flat { let y = self.edges(it, di, &f[1], depth, flat, false, budget, memo)?; x.first.extend(y.first); x.last.extend(y.last); x.empty |= y.empty }
                    x
                }
                _ => nothing(),
            },
            x => return unsup(format!("document {}", term(&x))),
        };
        if let Some(k) = key { memo.insert(k, e.clone()); }
        Ok(e)
    }
    fn cat(&mut self, a: Edge, b: Edge) -> Edge {
        for x in &a.last { if *x != E::Text { for y in &b.first { if *y != E::Text { self.pairs.insert((x.clone(), y.clone())); } } } }
        let mut first = a.first; if a.empty { first.extend(b.first) }
        let mut last = b.last; if b.empty { last.extend(a.last) }
        Edge { first, last, empty: a.empty && b.empty }
    }
    pub fn show(&self, t: &Tree) -> String {
        self.items.iter().map(|x| match x { Item::Piece(Piece::Ch(c), d) => format!("{c}@{d}"), Item::Piece(Piece::Built(l), d) => format!("[{}]@{d}", t.describe(l.node)), Item::Piece(Piece::Part(Part::Src(n)), d) => format!("<{}>@{d}", t.describe(*n)), Item::Piece(p, d) => format!("{p:?}@{d}"), Item::Break(d, e, s) => format!("{}{d}{}", if *e { "EMPTY" } else { "NL" }, if *s { "!" } else { "?" }), Item::Blank => "_".into() }).collect::<Vec<_>>().join(" ")
    }
}

// ------------------------------------------------------------ composition
/// What the layouts of a construct can begin and end with, whether they break,
/// how far left their lines start, whether its text is copied from the source.
#[derive(Clone, Default, PartialEq)]
struct Sum { first: u8, last: u8, breaks: bool, open: bool, /** can stand without indentation */ zero: bool, left: i32, copies: bool }
fn bit(e: &E) -> u8 { match e { E::Blank => 1, E::Break => 2, E::Lone(false) => 4, E::Lone(true) => 12, _ => 0 } }
/// The kinds of the constructs around a construct, and the fields of theirs it
/// stands in, as far as a path looked.
pub type Around = Vec<(BTreeSet<Rc<str>>, Option<BTreeSet<Rc<str>>>)>;
pub fn around(q: &Path, mut n: usize) -> Around {
    let t = &q.it.tree; let mut v = vec![];
    while let (Some(p), true) = (t.nodes[n].parent, v.len() < 3) { v.push((t.kinds(p).into_iter().collect(), t.nodes[p].children.as_ref().map(|_| t.nodes[n].fields.iter().map(|f| (&**f).into()).collect()))); n = p }
    v
}
pub fn fits(a: &Around, b: &Around) -> bool { a.iter().zip(b).all(|(x, y)| x.0.iter().any(|k| y.0.contains(k)) && (x.1.is_none() || y.1.is_none() || x.1 == y.1)) }
/// Per construct: the paths that look at the same surroundings.
type Sums = HashMap<(String, String), Vec<(Around, Sum)>>;
fn each<'s>(s: &'s Sums, q: &'s Path, l: &'s LazyV) -> impl Iterator<Item = &'s Sum> + 's {
    let ar = around(q, l.node);
    q.it.tree.nodes[l.node].alts.iter().filter_map(move |a| s.get(&(l.key.to_string(), a.key()))).flatten().filter(move |x| fits(&x.0, &ar)).map(|x| &x.1)
}
fn of_node(s: &Sums, q: &Path, l: &LazyV) -> Sum { let mut r = Sum::default(); for x in each(s, q, l) { r.first |= x.first; r.last |= x.last; r.breaks |= x.breaks; r.copies |= x.copies; r.left = r.left.min(x.left); r.zero |= x.zero } r }
fn edge_bits(s: &Sums, q: &Path, l: &Lay, e: &E, first: bool) -> u8 { match e { E::Built(n) => l.kids.get(n).map(|k| { let x = of_node(s, q, k); let b = if first { x.first } else { x.last }; if x.zero { b } else { b & !8 } }).unwrap_or(0), e => bit(e) } }
fn sums(cs: &Contracts) -> Sums {
    let mut s: Sums = HashMap::new();
    let ars: HashMap<&(String, String), Vec<usize>> = cs.iter().map(|(k, c)| {
        let v: &mut Vec<(Around, Sum)> = s.entry(k.clone()).or_default();
        (k, c.paths.iter().map(|q| { let a = around(q, q.it.root.unwrap()); v.iter().position(|x| x.0 == a).unwrap_or_else(|| { v.push((a, Sum { open: k.0 == "root", zero: k.0 == "root", ..Sum::default() })); v.len() - 1 }) }).collect())
    }).collect();
    for _round in 0..40 {
        let mut changed = false;
        for (k, c) in cs { for (i, q) in c.paths.iter().enumerate() { if let Some(l) = &q.lay {
            let g = ars[k][i];
            let mut x = s[k][g].1.clone();
            for e in &l.first { x.first |= edge_bits(&s, q, l, e, true) }
            for e in &l.last { x.last |= edge_bits(&s, q, l, e, false) }
            for it in &l.items { match it {
                Item::Break(d, e, _) => { x.breaks = true; if !*e { x.left = x.left.min(*d) } }
                Item::Piece(Piece::Built(m), d) => { let y = of_node(&s, q, m); x.breaks |= y.breaks; if y.breaks { x.left = x.left.min(*d + y.left) } x.copies |= y.copies && Some(m.node) == q.it.root }
                Item::Piece(Piece::Part(p), _) => x.copies |= matches!(p, Part::Src(n) if Some(*n) == q.it.root) && copied(&q.it, p).is_some(),
                _ => {}
            } }
            x.left = x.left.max(-8);
            if x != s[k][g].1 { s.get_mut(k).unwrap()[g].1 = x.clone(); changed = true }
            for (n, m) in &l.kids {
                let open = x.open && l.open.contains(n);
                let zero = x.zero && l.items.iter().any(|i| matches!(i, Item::Piece(Piece::Built(b), d) if b.node == *n && *d <= 0));
                if !open && !zero { continue }
                let ar = around(q, m.node);
                for a in &q.it.tree.nodes[m.node].alts { if let Some(v) = s.get_mut(&(m.key.to_string(), a.key())) { for y in v.iter_mut() { if (open && !y.1.open || zero && !y.1.zero) && fits(&y.0, &ar) { y.1.open |= open; y.1.zero |= zero; changed = true } } } }
            }
        } } }
        if !changed { break }
    }
    s
}

// ------------------------------------------------------------ the rules
/// Constructs whose children each stand on their own lines, with and without
/// blank lines kept between them.
const LISTS: [(&str, bool); 8] = [("parser_output", true), ("class_body", true), ("interface_body", true), ("block", true), ("constructor_body", true), ("trigger_body", true), ("enum_body", false), ("switch_block", false)];
/// Constructs whose values are printed as they are written.
const COPIES: [&str; 4] = ["annotation", "annotation_argument_list", "annotation_key_value", "version_expression"];
pub const PROPS: [&str; 6] = ["C24", "C25", "C27", "C28", "C29", "C30"];
/// The child of the construct a piece belongs to.
fn child_of(it: &Interp, kids: &[usize], p: &Piece) -> Option<usize> {
    fn node(p: &Part) -> Option<usize> { match p { Part::Src(n) | Part::Kind(n) => Some(*n), Part::Span(a, _) => Some(*a), Part::Mod(_, x) => x.iter().find_map(node), _ => None } }
    let n = match p { Piece::Built(l) => l.node, Piece::Part(p) => node(p)?, Piece::Ch(_) => return None };
    kids.iter().copied().find(|k| it.tree.is_ancestor(*k, n))
}
pub fn judge(cs: &Contracts, rep: &mut Report, out: &mut crate::report::Out) {
    let s = sums(cs);
    let ems = Emits::new(cs);
    for (key, k) in cs {
        let kind = &*k.alt.kind;
        let undec = |rep: &mut Report, why: String| { let e = rep.undecided.entry(why).or_default(); e.0 += 1; e.1.extend(PROPS.iter().map(|x| x.to_string())) };
        if !k.complete { undec(rep, format!("{} of {kind}: too many cases", k.key)) }
        for p in PROPS { out.count(&format!("{p} constructs"), 1) }
        for q in &k.paths {
            let (Some(n), Some(l)) = (&q.norm, &q.lay) else { if !matches!(q.exit, Some(Exit::Panic(_))) || !q.it.imprecise.is_empty() { undec(rep, format!("{} {:?}", k.key, q.exit)) } continue };
            if let Some(i) = q.it.imprecise.first() { undec(rep, format!("{}: imprecise {i}", k.key)); continue }
            if ems.doubtful(&q.it, n) { undec(rep, format!("{}: relies on an undecided construct", k.key)); continue }
            let r = q.it.root.unwrap(); let t = &q.it.tree;
            let ex = || format!("{} => {} when {}", shape(&q.it, r), l.show(t), q.it.trace.join(", "));
            let mut add = |p: &'static str, d: String| rep.add([p].into(), kind, d, &k.key, ex());
            // indentation
            for p in PROPS { out.count(&format!("{p} cases"), 1) }
            out.count("C25 obligations", l.items.len());
            for o in &l.odd { add("C25", format!("indents by {o} instead of the indentation setting")) }
            let mut stack: Vec<(i32, Option<i32>, Option<i32>)> = vec![]; // of an opening bracket: depth, line's depth, depth of the first line inside
            let mut line: Option<i32> = None;
            for (i, x) in l.items.iter().enumerate() {
                let (p, d) = match x {
                    Item::Break(d, e, _) => { if !*e { line = Some(*d) } continue }
                    Item::Blank => continue,
                    Item::Piece(p, d) => (p, *d),
                };
                let brk = match i.checked_sub(1).map(|i| &l.items[i]) { Some(Item::Break(d, e, _)) => Some(if *e { 0 } else { *d }), _ => None };
                if let Some(b) = brk {
                    if b != d && matches!(p, Piece::Built(m) if of_node(&s, q, m).breaks) { add("C25", format!("indents the first line of {} and its other lines differently", slot(t, p))) }
                    let after = matches!(i.checked_sub(2).map(|i| &l.items[i]), Some(Item::Piece(Piece::Ch('(' | '[' | '{'), _)));
                    if let Some((o, ln, inner)) = stack.last_mut() {
                        if matches!(p, Piece::Ch(')' | ']' | '}')) {
                            let at = match ln { Some(n) => b == *n, None => b == *o || b == *o - 1 };
                            if !at { add("C25", "a closing bracket is not indented like the line of its opening one".into()) }
                            if inner.is_some_and(|n| n != b + 1) { add("C25", "what stands inside brackets is not one level deeper".into()) }
                        } else if after { *inner = Some(b); if b != ln.unwrap_or(*o) + 1 && !(ln.is_none() && b == *o) { add("C25", format!("{} inside brackets is not one level deeper", slot(t, p))) } }
                        else if inner.is_some_and(|n| b < n) { add("C25", format!("{} inside brackets is not one level deeper", slot(t, p))) }
                    }
                }
                match p { Piece::Ch('(' | '[' | '{') => stack.push((d, line, None)), Piece::Ch(')' | ']' | '}') => { stack.pop(); } _ => {} }
            }
            if LISTS.iter().any(|x| x.0 == kind) { for x in &l.items { if let Item::Piece(p @ Piece::Built(m), d) = x { if d + of_node(&s, q, m).left < *d { add("C25", format!("{} can start a line left of its first one", slot(t, p))) } } } }
            // blanks at the ends of lines
            out.count("C29 obligations", 1 + l.pairs.len());
            let zero = s[key].iter().any(|x| x.1.zero && x.0 == around(q, r));
            for (x, y) in &l.pairs {
                let (a, b) = (edge_bits(&s, q, l, x, false), edge_bits(&s, q, l, y, true));
                let at = |e: &E| match e { E::Built(n) => t.describe(*n), E::Break => "a line break".into(), E::Blank | E::Lone(_) => "a blank".into(), E::Text => "text".into() };
                if a & 5 != 0 && b & 2 != 0 { add("C29", format!("leaves a blank at the end of a line, between {} and {}", at(x), at(y))) }
                if a & 2 != 0 && (b & 1 != 0 || b & 8 != 0 && zero) { add("C29", format!("leaves a stray blank at the start of a line, between {} and {}", at(x), at(y))) }
            }
            if key.0 == "root" {
                let ok = matches!(l.items.last(), Some(Item::Break(0, false, true))) && !matches!(l.items.len().checked_sub(2).map(|i| &l.items[i]), Some(Item::Break(..) | Item::Blank));
                if !ok { add("C29", "the text does not end with exactly one line break".into()) }
                if l.items.len() > 1 && l.first.iter().any(|e| edge_bits(&s, q, l, e, true) != 0) { add("C29", "the text starts with white space".into()) }
            }
            // soft line breaks that no choice of layouts governs
            out.count("C24 obligations", 1);
            if l.soft && s[key].iter().any(|x| x.1.open && x.0 == around(q, r)) { add("C24", "breaks a line whether or not the construct fits".into()) }
            for w in &l.width { add("C24", format!("takes {w}")) }
            // the source's own layout
            let kids = t.visible_children(r);
            out.count("C30 obligations", 1 + l.items.len());
            let list = LISTS.iter().find(|x| x.0 == kind);
            for f in q.it.trace.iter() {
                if !(f.contains("row") || f.contains("col") || f.contains("byte")) || !(f.contains('#') || f.contains("scol") || f.contains("ecol") || f.contains("byte")) { continue }
                let ids: Vec<usize> = { let mut v = vec![]; let b = f.as_bytes(); let mut i = 0; while let Some(p) = f[i..].find("row") { let st = i + p + 3; let mut e = st; while e < b.len() && b[e].is_ascii_digit() { e += 1 } if e > st { v.push(f[st..e].parse().unwrap()) } i = st } v };
                let near = ids.len() == 2 && list.is_some_and(|x| x.1) && ids.iter().all(|n| kids.contains(n)) && !f.contains("col") && !f.contains("byte");
                if !near { add("C30", "the layout depends on the lines or columns of the source".into()) }
            }
            for x in &l.items { match x {
                Item::Piece(Piece::Part(p), _) if !matches!(p, Part::Src(n) if *n == r) => if let Some(w) = copied(&q.it, p) { add("C30", format!("copies the white space inside {w}")) },
                Item::Piece(p @ Piece::Built(m), _) if m.node != r && !COPIES.contains(&kind) && of_node(&s, q, m).copies => add("C30", format!("copies the white space inside {}", slot(t, p))),
                _ => {}
            } }
            // lists of members and statements
            let Some((_, blank)) = list else { if l.items.iter().any(|x| matches!(x, Item::Break(_, true, _))) { add("C28", "prints an empty line".into()) } continue };
            let toks: Vec<usize> = kids.iter().copied().filter(|c| t.named(*c) != Some(false)).collect();
            let at: Vec<(usize, usize, usize)> = toks.iter().filter_map(|c| { let v: Vec<usize> = (0..n.p.len()).filter(|i| child_of(&q.it, &toks, &n.p[*i]) == Some(*c)).collect(); Some((*c, *v.first()?, *v.last()?)) }).collect();
            let between = |a: usize, b: usize| n.s[a..=b].iter().fold(NONE, |m, x| join(m, *x));
            out.count("C27 obligations", at.len());
            for w in at.windows(2) { if between(w[0].2 + 1, w[1].1) != NL { add("C27", format!("can print {} and {} on one line", t.describe(w[0].0), t.describe(w[1].0))) } }
            if let (Some(a), Some(b)) = (at.first(), at.last()) { if n.p.first() == Some(&Piece::Ch('{')) {
                if between(1, a.1) != NL { add("C27", "can print the first one on the line of the opening brace".into()) }
                if n.p.last() != Some(&Piece::Ch('}')) || between(b.2 + 1, n.p.len() - 1) != NL { add("C27", "can print the closing brace on the line of the last one".into()) }
            } }
            // blank lines
            let pos: Vec<(usize, usize, usize)> = toks.iter().filter_map(|c| { let v: Vec<usize> = (0..l.items.len()).filter(|i| matches!(&l.items[*i], Item::Piece(p, _) if child_of(&q.it, &toks, p) == Some(*c))).collect(); Some((*c, *v.first()?, *v.last()?)) }).collect();
            let empties = |a: usize, b: usize| l.items[a..b].iter().filter(|x| matches!(x, Item::Break(_, true, _))).count();
            out.count("C28 obligations", 1 + pos.len());
            let (a, b) = (pos.first().map_or(l.items.len(), |p| p.1), pos.last().map_or(l.items.len(), |p| p.2));
            if empties(0, a) > 0 { add("C28", "prints an empty line before the first one".into()) }
            if empties(b, l.items.len()) > 0 { add("C28", "prints an empty line after the last one".into()) }
            for w in pos.windows(2) {
                let e = empties(w[0].2, w[1].1);
                let (x, y) = (kids.iter().position(|k| *k == w[0].0).unwrap(), kids.iter().position(|k| *k == w[1].0).unwrap());
                let gap = row_sym(w[1].0, false).plus(&row_sym(w[0].0, true), -1).plus(&Lin::int(2), -1); // at least one empty line between
                let none = Lin::int(-1).plus(&gap, -1);
                if e > 1 { add("C28", "prints several empty lines".into()) }
                else if !*blank || x + 1 != y { if e > 0 && (!*blank || none.follows(&q.it.facts)) { add("C28", "prints an empty line the source does not have".into()) } }
                else if e == 1 && !gap.follows(&q.it.facts) { add("C28", "prints an empty line the source does not have".into()) }
                else if e == 0 && !none.follows(&q.it.facts) { add("C28", "loses an empty line of the source".into()) }
            }
        }
    }
}
fn slot(t: &Tree, p: &Piece) -> String { match p { Piece::Built(l) => t.describe(l.node), Piece::Ch(c) => format!("'{c}'"), Piece::Part(Part::Src(n)) => t.describe(*n), _ => "text".into() } }
/// Source text of several tokens is printed with the white space between them.
fn copied(it: &Interp, p: &Part) -> Option<String> {
    match p {
        Part::Src(n) => if several(it, *n) { Some(it.tree.describe(*n)) } else { None },
        Part::Span(a, b) => if a == b && !several(it, *a) { None } else { Some(it.tree.describe(*a)) },
        Part::Mod(_, x) => x.iter().find_map(|y| copied(it, y)),
        _ => None,
    }
}
fn several(it: &Interp, n: usize) -> bool {
    let nd = &it.tree.nodes[n];
    if let Some(c) = &nd.children { return c.len() > 1 || c.iter().any(|x| several(it, *x)) }
    nd.alts.iter().any(|a| several_alt(it, a, &mut HashSet::new()))
}
fn several_alt(it: &Interp, a: &Alt, seen: &mut HashSet<String>) -> bool {
    match &a.content { Content::Lit(..) | Content::Pattern(_) => false, _ => { if !seen.insert(a.key()) { return true } let r = it.c.productions(a).iter().any(|p| p.len() > 1 || p.iter().any(|s| s.alts.iter().any(|x| several_alt(it, x, seen)))); seen.remove(&a.key()); r } }
}
