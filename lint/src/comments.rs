//! Comments. Every contract is analysed again on trees that carry a comment in
//! every gap between two tokens, attached where the parser attaches it; the
//! program's own collector distributes them. A comment is recognised in the
//! printed text by a private character.
use crate::contracts::*;
use crate::emit::*;
use crate::grammar::*;
use crate::interp::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use std::collections::*;
use std::rc::Rc;

/// How the comments of one analysis are laid out: rows between the preceding
/// token and the comment, and between the comment and the following token.
#[derive(Clone, Copy, Debug)]
pub struct Style { pub name: &'static str, pub block: bool, pub before: i128, pub after: i128, pub per_gap: usize }
pub const STYLES: [Style; 7] = [
    Style { name: "inline block comment", block: true, before: 0, after: 0, per_gap: 1 },
    Style { name: "trailing line comment", block: false, before: 0, after: 1, per_gap: 1 },
    Style { name: "block comment on its own line", block: true, before: 1, after: 1, per_gap: 1 },
    Style { name: "line comment on its own line", block: false, before: 1, after: 1, per_gap: 1 },
    Style { name: "line comment between blank lines", block: false, before: 2, after: 2, per_gap: 1 },
    Style { name: "leading block comment", block: true, before: 1, after: 0, per_gap: 1 },
    Style { name: "two line comments", block: false, before: 0, after: 1, per_gap: 2 },
];
/// Which gaps carry comments.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Only { All, Gap(usize), Half(usize), Around }
pub const MARK: u32 = 0xE000;
/// What became of one comment.
#[derive(Clone, Debug)]
pub struct Fate { pub mark: usize, pub node: usize, pub owner: usize, pub role: &'static str, pub marked: bool }
/// One place where a comment is printed: before piece `pos` of the text without comments.
#[derive(Clone, Debug)]
pub struct Shown { pub mark: usize, pub pos: usize, pub before: u8, pub after: u8, pub slash: bool, pub last: bool }
#[derive(Clone)]
pub struct Cm { pub style: Style, pub only: Only, pub list: Vec<usize>, pub rows: HashMap<(usize, bool), i128>, pub around: Option<usize>, pub map: Option<V>, pub owner: HashMap<usize, (usize, &'static str)>, pub snap: HashMap<usize, String>, pub twice: Vec<usize>, pub fates: Vec<Fate>, pub shown: Vec<Shown>, pub torn: bool, /** text of the comment, when it matters */ pub text: Option<String>, pub lines: Vec<String> }
impl Cm { pub fn new(style: Style, only: Only) -> Cm { Cm { style, only, list: vec![], rows: HashMap::new(), around: None, map: None, owner: HashMap::new(), snap: HashMap::new(), twice: vec![], fates: vec![], shown: vec![], torn: false, text: None, lines: vec![] } } }

fn wants(o: Only, gap: usize) -> bool { match o { Only::All => true, Only::Gap(g) => g == gap, Only::Half(h) => gap % 2 == h, Only::Around => false } }
impl<'c> Interp<'c> {
    fn cm(&mut self) -> &mut Cm { self.cm.as_mut().unwrap() }
    fn comment(&mut self, parent: usize) -> usize {
        let (k, block) = { let c = self.cm(); (c.list.len(), c.style.block) };
        let m = char::from_u32(MARK + k as u32).unwrap();
        let t = if let Some(t) = self.cm().text.clone() { t } else if block { format!("/*{m}*/") } else { format!("//{m}") };
        let kind = if block { "block_comment" } else { "line_comment" };
        let n = self.tree.add(vec![Alt { kind: kind.into(), named: true, content: Content::Lit(t.as_str().into(), false) }]);
        let nd = &mut self.tree.nodes[n]; nd.extra = true; nd.parent = Some(parent); nd.children = Some(vec![]); nd.loose = false;
        self.cm().list.push(n); n
    }
    /// Put comments between the children of a construct whose production was just chosen.
    pub fn place_comments(&mut self, n: usize) {
        let Some(c) = &self.cm else { return };
        let (only, per) = (c.only, c.style.per_gap);
        if match only { Only::All | Only::Half(_) => false, Only::Gap(_) => Some(n) != self.root, Only::Around => true } { return }
        let ch = self.tree.nodes[n].children.clone().unwrap_or_default();
        let file = self.tree.kind(n).as_deref() == Some("parser_output");
        let mut out = vec![]; let mut seen = file; let mut gap = 0;
        for x in ch {
            if self.tree.nodes[x].visible { if seen { if wants(only, gap) { for _ in 0..per { out.push(self.comment(n)) } } gap += 1; } seen = true; }
            out.push(x);
        }
        if file { if wants(only, gap) { for _ in 0..per { out.push(self.comment(n)) } } }
        self.tree.nodes[n].children = Some(out); self.tree.reindex(n);
    }
    fn open(&self, n: usize) -> bool { match self.tree.nodes[n].parent { Some(p) => self.tree.nodes[p].children.is_some(), None => false } }
    /// The analysed construct is looked at from outside: comments around it.
    pub fn has_around(&mut self, n: usize) -> bool {
        if self.cm.is_none() || Some(n) != self.root || self.open(n) { return false }
        if matches!(self.cm().only, Only::Gap(_)) { return false }
        match self.tree.kind(n) { Some(k) => !self.c.parents(&k).is_empty(), None => false }
    }
    pub fn around(&mut self) -> R<usize> {
        if let Some(s) = self.cm().around { return Ok(s) }
        let r = self.root.unwrap();
        let next = self.follow(r, 0)?;
        let st = self.cm().style;
        let (pre, post) = match self.cm().only { Only::Half(_) => { let k = self.choose(2, || "comment before or behind".into())?; (k == 0, k == 1) } _ => (true, true) };
        let s = self.tree.add(vec![Alt { kind: "surroundings".into(), named: true, content: Content::Pattern("surroundings".into()) }]);
        let mut ch = vec![];
        if st.before > 0 { let x = match self.tree.nodes[r].sib[3] { Some(x) => x, None => Some(self.outside_named()) }; if let Some(x) = x { ch.push(x) } }
        if pre { for _ in 0..st.per_gap { ch.push(self.comment(s)) } }
        ch.push(r);
        if let Some(x) = next {
            if post { for _ in 0..st.per_gap { ch.push(self.comment(s)) } }
            ch.push(x);
            if post && self.tree.kind(x).is_some_and(|k| matches!(&*k, "," | ";")) { for _ in 0..st.per_gap { ch.push(self.comment(s)) } }
        }
        for (i, x) in ch.iter().enumerate() { if *x != r { self.tree.nodes[*x].parent = Some(s); self.tree.nodes[*x].idx = i } }
        self.tree.nodes[s].children = Some(ch);
        self.cm().around = Some(s); Ok(s)
    }
    fn list_of(&self, n: usize) -> Option<(usize, Vec<usize>)> {
        if let Some(p) = self.tree.nodes[n].parent { if self.tree.nodes[p].children.is_some() { return Some((p, self.tree.visible_children(p))) } }
        if Some(n) == self.root { if let Some(s) = self.cm.as_ref().and_then(|c| c.around) { return Some((s, self.tree.visible_children(s))) } }
        None
    }
    /// Row of the start / end of a node, relative to the analysed construct.
    pub fn row(&mut self, n: usize, end: bool) -> Option<i128> {
        self.cm.as_ref()?;
        if let Some(x) = self.cm().rows.get(&(n, end)) { return Some(*x) }
        let v = if end {
            match self.tree.nodes[n].children.as_ref().and_then(|c| c.iter().rev().copied().find(|x| self.tree.nodes[*x].visible)) {
                Some(l) => self.row(l, true)?,
                None => {
                    let list = self.list_of(n); let r = self.root;
                    // nodes in front of the analysed construct are placed backwards
                    match list { Some((_, l)) if r.is_some_and(|r| l.contains(&r)) && l.iter().position(|x| *x == n) < l.iter().position(|x| Some(*x) == r) => { let i = l.iter().position(|x| *x == n)?; self.row(l[i + 1], false)? - self.step_rows(n, l[i + 1]) } _ => self.row(n, false)? + self.extent(n) }
                }
            }
        } else if Some(n) == self.root { 1000 } else {
            let r = self.root;
            match self.list_of(n) {
                Some((p, l)) => {
                    let i = l.iter().position(|x| *x == n)?;
                    if r.is_some_and(|r| l.contains(&r)) && Some(i) < l.iter().position(|x| Some(*x) == r) { let e = self.row(n, true)?; match self.tree.nodes[n].children.as_ref().and_then(|c| c.first().copied()) { Some(_) => e - self.extent(n), None => e - self.extent(n) } }
                    else if i == 0 { self.row(p, false)? } else { let (a, b) = (l[i - 1], n); self.row(a, true)? + self.step_rows(a, b) }
                }
                None => match self.tree.nodes[n].children.as_ref().and_then(|c| c.iter().copied().find(|x| self.tree.nodes[*x].visible)) { Some(f) if self.list_of(f).is_some_and(|(_, l)| r.is_some_and(|r| l.contains(&r))) => self.row(f, false)?, _ => return None },
            }
        };
        self.cm().rows.insert((n, end), v); Some(v)
    }
    fn step_rows(&mut self, a: usize, b: usize) -> i128 {
        let st = self.cm().style; let (x, y) = (self.tree.nodes[a].extra, self.tree.nodes[b].extra);
        match (x, y) { (false, true) => st.before, (true, false) => st.after, (true, true) => st.before.max(st.after), _ => 0 }
    }
    fn extent(&mut self, n: usize) -> i128 {
        let st = self.cm().style;
        if self.tree.nodes[n].extra || st.before + st.after == 0 || self.tree.nodes[n].alts.iter().all(|a| matches!(a.content, Content::Lit(..) | Content::Pattern(_))) { 0 } else { 40 }
    }
    pub fn mark_collected(&mut self, n: usize) { let mut w = vec![n]; while let Some(x) = w.pop() { if let Some(c) = self.tree.nodes[x].children.clone() { if !c.is_empty() { self.collected.insert(x); } w.extend(c) } } }
    fn mark_of(t: &str) -> Option<usize> { t.chars().find(|c| (MARK..MARK + 0x1000).contains(&(*c as u32))).map(|c| (c as u32 - MARK) as usize) }
    /// (comment, bucket's node, state) for everything in the comment map.
    fn buckets(&mut self, map: &V) -> R<Vec<(usize, usize, String)>> {
        let V::Map(m) = self.deref(map)? else { return unsup("comment map") };
        let mut o = vec![];
        for (k, b) in m.iter() {
            let V::Ext(_, f) = k else { continue }; let Some(V::Node(n)) = f.first() else { continue };
            let b = self.deref(b)?;
            if let V::Agg(_, f) = &b { for x in f.iter() { if let V::Vec(v) = self.deref(x)? { for c in v.iter() { let c = self.deref(c)?; let t = self.state(&c)?; if let Some(k) = Self::mark_of(&t) { o.push((k, *n, t)) } } } } }
        }
        Ok(o)
    }
    fn state(&mut self, v: &V) -> R<String> { Ok(match self.deref(v)? { V::Agg(t, f) => { let mut s = format!("{t}("); for x in f.iter() { s += &self.state(x)?; s.push(',') } s + ")" } x => term(&x) }) }
    pub fn note_comments(&mut self, map: &V) -> R<()> {
        for (k, n, t) in self.buckets(map)? {
            if self.cm().snap.contains_key(&k) { if self.cm().owner[&k].0 != n { self.cm().twice.push(k) } continue }
            let node = self.cm().list[k]; let par = self.tree.nodes[node].parent;
            let l = par.map(|p| self.tree.visible_children(p)).unwrap_or_default();
            let role = if par == Some(n) { "dangling" } else { match (l.iter().position(|x| *x == node), l.iter().position(|x| *x == n)) { (Some(a), Some(b)) => if a < b { "pre" } else { "post" }, _ => "elsewhere" } };
            let c = self.cm(); c.owner.insert(k, (n, role)); c.snap.insert(k, t);
        }
        Ok(())
    }
    /// After a run: who owns each comment, and which were marked as printed.
    pub fn finish_comments(&mut self) -> R<()> {
        let r = self.root.unwrap();
        let map = match self.cm().map.clone() { Some(m) => m, None => self.ptr_to(V::Map(Rc::new(vec![]))) };
        let mut tops = vec![];
        if let Some(p) = self.tree.nodes[r].parent { if self.tree.nodes[p].children.is_some() { tops.push(p) } }
        tops.push(r);
        for t in tops { if self.tree.nodes[t].children.is_some() { self.collect_at(&map, t)? } }
        let now: HashMap<usize, String> = self.buckets(&map)?.into_iter().map(|x| (x.0, x.2)).collect();
        let c = self.cm();
        let mut fates = vec![];
        for (k, node) in c.list.clone().into_iter().enumerate() { if let Some((n, role)) = c.owner.get(&k) { fates.push(Fate { mark: k, node, owner: *n, role, marked: now.get(&k) != c.snap.get(&k) }) } }
        c.fates = fates; Ok(())
    }
}
/// The text without its comments, and where they were.
pub fn strip(n: &Norm) -> (Norm, Vec<Shown>, bool) {
    let mut o = Norm::empty(); let mut shown = vec![]; let mut torn = false;
    let ch = |i: usize| match n.p.get(i) { Some(Piece::Ch(c)) => Some(*c), _ => None };
    let mark = |i: usize| ch(i).and_then(|c| if (MARK..MARK + 0x1000).contains(&(c as u32)) { Some((c as u32 - MARK) as usize) } else { None });
    let mut i = 0;
    let l = o.s.len() - 1; o.s[l] = n.s[0];
    while i < n.p.len() {
        let tight = |k: usize| (1..k).all(|x| n.s[i + x] == NONE);
        let len = if ch(i) == Some('/') && ch(i + 1) == Some('/') && mark(i + 2).is_some() && tight(3) { 3 } else if ch(i) == Some('/') && ch(i + 1) == Some('*') && mark(i + 2).is_some() && ch(i + 3) == Some('*') && ch(i + 4) == Some('/') && tight(5) { 5 } else { 0 };
        if len > 0 {
            let k = mark(i + 2).unwrap(); let l = o.s.len() - 1;
            let slash = matches!(o.p.last(), Some(Piece::Ch('/'))) && i > 0 && ch(i - 1) == Some('/') && n.s[i] & NONE != 0;
            shown.push(Shown { mark: k, pos: o.p.len(), before: n.s[i], after: n.s[i + len], slash, last: i + len == n.p.len() });
            o.s[l] = join(o.s[l], n.s[i + len]); i += len; continue;
        }
        if mark(i).is_some() { torn = true }
        o.p.push(n.p[i].clone()); o.s.push(n.s[i + 1]); i += 1;
    }
    (o, shown, torn)
}
/// (times printed, marked as printed, printed between the right elements)
pub type Fare = (u8, bool, bool);
pub struct Fares<'a, 'c> { pub cs: &'a Contracts<'c>, memo: std::cell::RefCell<HashMap<(String, String, String), BTreeSet<Fare>>> }
impl<'a, 'c> Fares<'a, 'c> {
    pub fn new(cs: &'a Contracts<'c>) -> Self { Fares { cs, memo: Default::default() } }
    /// What the contract does with a comment around its own construct.
    pub fn of(&self, l: &LazyV, alts: &[Alt], role: &str) -> BTreeSet<Fare> { alts.iter().flat_map(|a| self.alt(&l.key, a, role)).collect() }
    fn alt(&self, key: &str, a: &Alt, role: &str) -> BTreeSet<Fare> {
        let k = (key.to_string(), a.key(), role.to_string());
        if let Some(x) = self.memo.borrow().get(&k) { return x.clone() }
        self.memo.borrow_mut().insert(k.clone(), BTreeSet::new());
        let mut s = BTreeSet::new();
        if let Some(ct) = self.cs.get(&(k.0.clone(), k.1.clone())) { for q in &ct.paths {
            let (Some(n), Some(cm)) = (&q.norm, &q.it.cm) else { continue };
            if !q.it.imprecise.is_empty() { continue }
            let r = q.it.root.unwrap();
            let mine = if q.it.tree.nodes[r].parent.is_some_and(|p| q.it.tree.nodes[p].children.is_some()) { true } else { cm.around.is_some() };
            let mut own: Vec<Fare> = vec![];
            if mine { for f in &cm.fates { if role_for(&q.it, r, f).as_deref() == Some(role) { own.push(own_fare(q, n, f)) } } if own.is_empty() { continue } }
            else { own.push((0, false, true)) }
            let again: Vec<&Rc<LazyV>> = n.p.iter().filter_map(|p| if let Piece::Built(l) = p { if l.node == r { Some(l) } else { None } } else { None }).collect();
            for o in own { let mut acc: BTreeSet<Fare> = [o].into(); for l in &again { let x = self.of(l, &q.it.tree.nodes[r].alts, role); if x.is_empty() { continue } acc = acc.iter().flat_map(|a| x.iter().map(move |b| ((a.0 + b.0).min(3), a.1 || b.1, a.2 && b.2))).collect() } s.extend(acc) }
        } }
        self.memo.borrow_mut().insert(k, s.clone()); s
    }
}
/// The relation of a comment to construct `r`, if it lies around it.
pub fn role_for(it: &Interp, r: usize, f: &Fate) -> Option<String> {
    if f.owner == r && f.role != "dangling" { return Some(f.role.into()) }
    // punctuation after the construct
    if it.tree.nodes[f.node].parent != it.tree.nodes[f.owner].parent { return None }
    let k = it.tree.kind(f.owner)?;
    if !matches!(&*k, "," | ";") { return None }
    let p = it.tree.nodes[f.owner].parent?;
    let l = it.tree.visible_children(p); let i = l.iter().position(|x| *x == f.owner)?;
    let prev = l[..i].iter().rev().find(|x| !it.tree.nodes[**x].extra)?;
    if *prev == r { Some(format!("{}{k}", f.role)) } else { None }
}
/// What the run itself did with a comment around its construct.
fn own_fare(q: &Path, n: &Norm, f: &Fate) -> Fare {
    let cm = q.it.cm.as_ref().unwrap();
    let w: Vec<&Shown> = cm.shown.iter().filter(|s| s.mark == f.mark).collect();
    let pre = f.role == "pre" && role_for(&q.it, q.it.root.unwrap(), f).as_deref() == Some("pre");
    let named = |p: &Piece| match p { Piece::Ch(c) => !matches!(c, ',' | ';'), Piece::Built(l) => q.it.tree.nodes[l.node].alts.iter().any(|a| a.named), Piece::Part(Part::Src(x)) => q.it.tree.nodes[*x].alts.iter().any(|a| a.named), _ => true };
    let ok = w.iter().all(|s| if pre { !n.p[..s.pos].iter().any(named) } else { !n.p[s.pos..].iter().any(named) });
    (w.len().min(3) as u8, f.marked, ok)
}
/// A stable name for the gap a comment lies in.
pub fn gap_name(it: &Interp, node: usize) -> String {
    let t = &it.tree; let Some(p) = t.nodes[node].parent else { return "?".into() };
    let l = t.visible_children(p); let i = l.iter().position(|x| *x == node).unwrap_or(0);
    let d = |x: Option<&usize>| x.map(|x| if t.nodes[*x].slot.is_empty() { t.describe(*x) } else { t.nodes[*x].slot.clone() }).unwrap_or_default();
    let a = d(l[..i].iter().rev().find(|x| !t.nodes[**x].extra)); let b = d(l[i + 1..].iter().find(|x| !t.nodes[**x].extra));
    format!("{}: comment between {} and {}", t.kinds(p).join("|"), if a.is_empty() { "start".into() } else { a }, if b.is_empty() { "end".into() } else { b })
}
/// The analyses that decide a property: style and gaps with comments.
pub fn runs(prop: &str) -> Vec<(usize, Only)> {
    let thorough = std::env::var("AFMT_TIER").is_ok_and(|t| t == "thorough");
    let all = (0..STYLES.len()).map(|k| (k, Only::All));
    if thorough { return all.chain((0..STYLES.len()).flat_map(|k| [(k, Only::Half(0)), (k, Only::Half(1))])).collect() }
    if prop == "C32" { return vec![(0, Only::All), (4, Only::All), (0, Only::Half(0)), (0, Only::Half(1))] }
    if prop == "C15" { return vec![(0, Only::All), (3, Only::All)] }
    all.chain([(0, Only::Half(0)), (0, Only::Half(1))]).collect()
}
pub fn run(r: &Runner, style: Style, only: Only, out: &mut crate::report::Out) {
    let r = Runner { c: r.c, base: r.base, di: r.di, build: r.build, max_paths: 4 * r.max_paths, long: vec![], cm: Some((style, only)), text: None };
    let t = std::time::Instant::now();
    let cs = r.all();
    for p in ["C11", "C12", "C13", "C14", "C15"] { out.count(&format!("{p} contracts"), cs.len()); out.count(&format!("{p} paths"), cs.values().map(|c| c.paths.len()).sum()); }
    println!("contracts {} in {:?}", cs.len(), t.elapsed());
    judge(&r, &cs, style, out);
    println!("judged {:?}", t.elapsed());
}
/// A constructor that stops on a construct with comments, but not without them:
/// the gaps whose comment alone makes it stop.
fn blame(r: &Runner, ct: &Contract) -> Vec<String> {
    let one = |cm| Runner { c: r.c, base: r.base, di: r.di, build: r.build, max_paths: r.max_paths, long: vec![], cm, text: None }.contract(&ct.key, &ct.alt, ct.inst, &ct.args);
    let stops = |c: &Contract| c.paths.iter().any(|q| matches!(q.exit, Some(Exit::Panic(_))));
    if stops(&one(None)) { return vec![] }
    let mut o = BTreeSet::new();
    for g in 0..8 {
        let c = one(Some((r.cm.unwrap().0, Only::Gap(g)))); let mut any = false;
        for q in &c.paths { let l = &q.it.cm.as_ref().unwrap().list; if !l.is_empty() { any = true } if matches!(q.exit, Some(Exit::Panic(_))) { for n in l { o.insert(gap_name(&q.it, *n)); } } }
        if !any { break }
    }
    if o.is_empty() { o.insert(format!("{}: comments", ct.alt.kind)); }
    o.into_iter().collect()
}
pub fn judge(r: &Runner, cs: &Contracts, style: Style, out: &mut crate::report::Out) {
    let runner = r;
    let ems = Emits::new(cs); let fares = Fares::new(cs);
    let devs = boundaries(cs, &ems);
    for (key, ct) in cs {
        let own = devs.get(key).cloned().unwrap_or_else(exact);
        let place = crate::place(ct.inst);
        if !ct.complete { out.undecided(&["C11", "C12", "C13", "C14"], format!("{} of {}: too many cases", ct.key, ct.alt.kind)) }
        if let Some(q) = ct.paths.iter().find(|q| matches!(q.exit, Some(Exit::Panic(_)))) { for g in blame(runner, ct) { out.add("C13", format!("{g} not accepted"), &place[..], format!("{} {:?}", shape(&q.it, q.it.root.unwrap()), q.exit)) } }
        for q in &ct.paths {
            let it = &q.it; let cm = it.cm.as_ref().unwrap(); let r = it.root.unwrap();
            if let Some(i) = it.imprecise.first() { out.undecided(&["C11", "C12", "C13", "C14"], format!("{}: imprecise {i}", ct.key)); continue }
            out.count("C32 obligations", 1);
            let Some(n) = &q.norm else { match q.exit.as_ref().unwrap() { Exit::Panic(_) => {} Exit::Endless(e) => out.add("C32", format!("{}: comes to no end with a comment: {e}", ct.alt.kind), &place[..], format!("{} [{}]", shape(it, r), style.name)), e => out.undecided(&["C11", "C12", "C13", "C14", "C32"], format!("{} {:?}", ct.key, e)) } continue };
            if std::env::var("AFMT_DUMP").is_ok_and(|d| *ct.alt.kind == d) { eprintln!("DUMP {} {} => {} shown {:?} fates {:?} around {:?}", ct.key, shape(it, r), n.show(&it.tree), cm.shown, cm.fates, cm.around.map(|s| shape(it, s))) }
            let ex = format!("{} [{}] => {}", shape(it, r), style.name, n.show(&it.tree));
            for p in ["C14", "C15"] { out.count(&format!("{p} obligations"), 1); }
            if cm.torn { out.add("C15", format!("{}: comment text altered", ct.alt.kind), &place[..], &ex[..]) }
            let doubt = ems.doubtful(it, n);
            let mut said: Vec<(&str, String)> = vec![];
            let (m, _) = match_path(&ems, q, n, &devs, &own, None);
            for d in &m.defects { said.push(("C14", format!("{}: {} next to a comment", ct.alt.kind, d.show()).to_string())) }
            for k in &cm.twice { said.push(("C11", format!("{}: attached twice", gap_name(it, cm.list[*k])).to_string())) }
            for s in &cm.shown {
                out.count("C14 obligations", 1);
                if s.slash { said.push(("C14", format!("{}: joined with the preceding '/'", gap_name(it, cm.list[s.mark])).to_string())) }
                if !style.block && s.after != NL { said.push(("C14", format!("{}: code can follow a line comment on its line", gap_name(it, cm.list[s.mark])).to_string())) }
            }
            let raw = |c: usize| n.p.iter().filter(|p| match p { Piece::Part(Part::Src(x)) => it.tree.is_ancestor(*x, c), Piece::Part(Part::Span(a, b)) => matches!((it.tree.order(*a, c), it.tree.order(c, *b)), (Some(std::cmp::Ordering::Less), Some(std::cmp::Ordering::Less))), _ => false }).count() as u8;
            for f in &cm.fates {
                if !it.tree.is_ancestor(r, f.node) { continue }
                let delegated = n.p.iter().any(|p| matches!(p, Piece::Built(l) if l.node == r));
                if delegated { continue }
                let w: Vec<&Shown> = cm.shown.iter().filter(|s| s.mark == f.mark).collect();
                let k = w.len() as u8 + raw(f.node);
                // what the contracts of the neighbours add
                let mut acc: BTreeSet<Fare> = [(k, f.marked, true)].into();
                let mut targets = vec![];
                if f.role != "dangling" { targets.push((f.owner, f.role.to_string())) }
                if it.tree.kind(f.owner).is_some_and(|k| matches!(&*k, "," | ";")) {
                    let p = it.tree.nodes[f.owner].parent.unwrap(); let l = it.tree.visible_children(p); let i = l.iter().position(|x| *x == f.owner).unwrap();
                    if let Some(x) = l[..i].iter().rev().copied().find(|x| !it.tree.nodes[*x].extra) { targets.push((x, format!("{}{}", f.role, it.tree.kind(f.owner).unwrap()))) }
                }
                let mut unknown = f.role == "elsewhere"; let mut known = false; let mut at = vec![];
                for (x, role) in targets { for p in &n.p { if let Piece::Built(l) = p { if l.node == x {
                    let o = fares.of(l, &it.tree.nodes[x].alts, &role);
                    if o.is_empty() { unknown = true; continue }
                    known = true;
                    if o.iter().any(|o| o.0 > 0) { if let Some((a, b)) = m.range.get(&x) { at.push(if role == "pre" { *a } else { *b }) } }
                    acc = acc.iter().flat_map(|a| o.iter().map(move |b| ((a.0 + b.0).min(3), a.1 || b.1, a.2 && b.2))).collect()
                } } } }
                let unknown = unknown && !known;
                if unknown { out.undecided(&["C11", "C12", "C13"], format!("{}: {}", gap_name(it, f.node), style.name)); continue }
                for p in ["C11", "C12", "C13"] { out.count(&format!("{p} obligations"), 1); }
                let g = gap_name(it, f.node);
                for &(k, marked, ok) in &acc {
                    if k == 0 && marked { said.push(("C11", format!("{g} lost").to_string())) }
                    else if k > 1 { said.push(("C11", format!("{g} printed more than once").to_string())) }
                    else if (k == 0 || !marked) && w.is_empty() && raw(f.node) > 0 { said.push(("C13", format!("{}: comment inside text copied from the source not accepted", ct.alt.kind).to_string())) }
                    else if k == 0 || !marked { said.push(("C13", format!("{g} not accepted").to_string())) }
                    else if !ok { said.push(("C12", format!("{g} moved").to_string())) }
                }
                // its place among the tokens
                if m.defects.is_empty() && !m.reordered && k + at.len() as u8 == 1 {
                    if let Some((_, e)) = m.extras.iter().find(|x| x.0 == f.node) {
                        let (lo, hi) = match w.first() {
                            Some(w) => (m.spans.iter().filter(|s| s.1 <= w.pos).map(|s| s.3).max().unwrap_or(0), m.spans.iter().filter(|s| s.0 >= w.pos).map(|s| s.2).min().unwrap_or(m.named.len())),
                            None => match at.first() { Some(x) => (*x, *x), None => (*e, *e) },
                        };
                        let (a, b) = if *e < lo { (*e, lo) } else if *e > hi { (hi, *e) } else { (0, 0) };
                        let (a, b) = (a.min(m.named.len()), b.min(m.named.len()));
                        let empty = f.role == "dangling" && !m.named.iter().flatten().any(|x| it.tree.named(*x) != Some(false));
                        if !empty && m.named[a..b].iter().flatten().any(|x| *x != f.owner) { said.push(("C12", format!("{g} moved past other code").to_string())) }
                    }
                }
            }
            for (p, key) in said { if doubt { out.undecided(&["C11", "C12", "C13", "C14"], format!("{}: relies on an undecided construct", ct.key)) } else { out.add(p, key, &place[..], &ex[..]) } }
        }
    }
}

/// The last line of defence: formatting must not succeed when a comment was
/// not printed. The child documents are represented by their contracts here, so
/// no comment is printed but those marked through the program's own function.
pub fn guard(c: &Ctx, format_one: Instance, marks: &[Instance], place: &str, out: &mut crate::report::Out) {
    const P: [&str; 2] = ["C11", "C13"];
    let mut roles: BTreeSet<&'static str> = BTreeSet::new(); let mut anyway: BTreeSet<String> = BTreeSet::new();
    for style in [STYLES[0], STYLES[3]] { for members in 0..3usize { for commented in [false, true] {
        let mut prefix = vec![];
        for _ in 0..4000 {
            let mut it = Interp::new(c);
            it.prefix = prefix.clone();
            let b = c.body(format_one).unwrap();
            let src = V::Str(Rc::new(vec![Part::Unk("source".into())]));
            let cfg = it.symbolic(b.locals()[2].ty, "config");
            // (comments, left unmarked)
            let seen: Rc<std::cell::RefCell<Option<(usize, Vec<(usize, &'static str)>)>>> = Default::default();
            let s2 = seen.clone(); let mk = marks.to_vec();
            it.hooks = Some(Rc::new(move |it: &mut Interp, _: &str, i: Instance, a: &[V]| {
                if !Interp::is_local(i) { return None }
                // a document turned into text
                if a.iter().any(|x| matches!(it.deref(x), Ok(V::Built(_)))) && it.c.body(i).is_some_and(|b| matches!(b.ret_local().ty.kind(), rustc_public::ty::TyKind::RigidTy(rustc_public::ty::RigidTy::Adt(d, _)) if norm(&rustc_public::CrateDef::name(&d)).ends_with("String"))) {
                    return Some(Ok(V::Str(Rc::new(vec![Part::Unk("formatted".into())]))));
                }
                if s2.borrow().is_some() || a.len() < 2 { return None }
                let mut node = None; let mut map = None;
                for x in a { match it.deref(x) { Ok(V::Cursor(n, _)) | Ok(V::Node(n)) => node = Some(n), Ok(V::Map(_)) => map = Some(x.clone()), _ => {} } }
                let (Some(n), Some(m)) = (node, map) else { return None };
                let (ci, mi) = (a.iter().position(|x| matches!(it.deref(x), Ok(V::Cursor(..)) | Ok(V::Node(_))))?, a.iter().position(|x| matches!(it.deref(x), Ok(V::Map(_))))?);
                let go = |it: &mut Interp| -> R<V> {
                    it.collector = Some((i, a.to_vec(), ci, mi)); it.cmap_ready = true;
                    *s2.borrow_mut() = Some((0, vec![]));
                    it.root = Some(n);
                    if commented { it.cm = Some(Box::new(Cm::new(style, Only::All))) }
                    it.expand(n)?;
                    if it.tree.visible_children(n).iter().filter(|x| !it.tree.nodes[**x].extra).count() != members { return Err(Exit::Infeasible) }
                    it.collected.remove(&n);
                    it.collect_at(&m, n)?;
                    it.root = None;
                    if commented {
                        let V::Ptr(al, q) = it.last_ptr(&m)? else { return unsup("comment map") };
                        let V::Map(mm) = it.deref(&m)? else { return unsup("comment map") };
                        let mut at = vec![];
                        for (e, (_, b)) in mm.iter().enumerate() { let V::Agg(_, f) = it.deref(b)? else { continue }; for (fi, x) in f.iter().enumerate() { if let V::Vec(v) = it.deref(x)? { for k in 0..v.len() { let mut p = (*q).clone(); p.extend([e as u32, fi as u32, k as u32]); let s = it.state(&v[k])?; if let Some(id) = Interp::mark_of(&s) { at.push((id, V::Ptr(al, Rc::new(p)))) } } } } }
                        let owner = it.cm.as_ref().unwrap().owner.clone();
                        let left = if mk.is_empty() { at.len() + 1 } else { it.choose(at.len() + 2, || "printed".into())? };
                        let mut un = vec![];
                        for (k, (id, p)) in at.iter().enumerate() { if left == k || left == at.len() + 1 { un.push((*id, owner.get(id).map(|o| o.1).unwrap_or("?"))); continue } for f in &mk { it.enter(*f, vec![p.clone()])?; } }
                        *s2.borrow_mut() = Some((at.len(), un));
                        it.cm = None; it.cmap_ready = false;
                    }
                    Ok(V::unit())
                };
                Some(go(it))
            }));
            let r = it.enter(format_one, vec![src, cfg]);
            let next = it.next_prefix();
            let errs = it.errs.values().any(|e| *e != 0);
            let got = seen.borrow().clone();
            if let (Some((n, un)), false) = (got, errs) {
                let ex = format!("{} with {members} members, {n} comments, not printed: {:?} -> {:?}", style.name, un, r.as_ref().map(|v| term(v)));
                match &r {
                    Err(Exit::Infeasible) => {}
                    Err(Exit::Panic(p)) if !commented => { anyway.insert(p.clone()); }
                    Err(Exit::Panic(p)) if anyway.contains(p) => {}
                    _ if !it.imprecise.is_empty() => out.undecided(&P, format!("format_one: imprecise {}", it.imprecise[0])),
                    Ok(v) => {
                        for p in P { out.count(&format!("{p} obligations"), 1) }
                        for u in &un { roles.insert(u.1); }
                        if !un.is_empty() { out.add("C11", format!("format_one: succeeds although a {} comment was not printed", un[0].1), place, ex) }
                        else if term(v) != term(&V::Str(Rc::new(vec![Part::Unk("formatted".into())]))) { out.add("C11", "format_one: returns something other than the printed document", place, ex) }
                    }
                    Err(Exit::Panic(_)) => {
                        for p in P { out.count(&format!("{p} obligations"), 1) }
                        for u in &un { roles.insert(u.1); }
                        if !un.is_empty() {
                            out.count("C34 obligations", 1);
                            let t = crate::scenario::told(&it.events, r.as_ref().err());
                            if let Some(u) = un.iter().find(|u| !t.iter().any(|x| x.chars().any(|c| c as u32 == MARK + u.0 as u32))) { if t.iter().any(|x| x.contains("?fmt") || x.contains("?display")) { out.undecided(&["C34"], "format_one: text of a missing comment?") } else { out.add("C34", format!("format_one: does not tell which {} comment is missing", u.1), place, format!("told: {} ; {ex}", t.join(" | "))) } }
                        }
                        if un.is_empty() { out.add("C13", "format_one: fails although every comment was printed", place, ex) }
                    }
                    Err(e) => out.undecided(&P, format!("format_one: {e:?}")),
                }
                if std::env::var("AFMT_VV").is_ok() { println!("GUARD {members} {commented} {} {:?} -> {:?}", n, un, r.as_ref().map(|v| term(v))) }
            } else if std::env::var("AFMT_VV").is_ok() && !errs { println!("GUARD? {members} {commented} {:?} {:?}", it.trace, r.as_ref().map(|v| term(v))) }
            match next { Some(p) => prefix = p, None => break }
        }
    } } }
    for r in ["pre", "post", "dangling"] { if !roles.contains(r) { out.undecided(&P, format!("format_one: no {r} comment reached the guard")) } }
}

/// The content of a comment, apart from its layout.
fn content(text: &str, block: bool) -> Vec<String> {
    if !block { return vec![text.trim_end().to_string()] }
    let ls: Vec<&str> = text.split('\n').collect();
    if !text.starts_with("/**") || text.len() < 5 { return ls.iter().map(|l| l.trim().to_string()).filter(|l| !text.starts_with("/**") || !matches!(&l[..], "/**" | "/**/" | "*/")).collect() }
    let body = text[3..].strip_suffix("*/").unwrap_or(&text[3..]);
    let mut o: Vec<String> = vec![];
    for l in body.split('\n') {
        let l = l.trim();
        // the star in front of a line belongs to the layout, as do more of them on the first
        let l = if o.iter().all(|x: &String| x.is_empty()) { l.trim_start_matches(['*', ' ']) } else { l.strip_prefix('*').unwrap_or(l) };
        o.push(l.trim().to_string());
    }
    while o.last().is_some_and(|l| l.is_empty()) { o.pop(); }
    while o.first().is_some_and(|l| l.is_empty()) { o.remove(0); }
    o
}
/// Every shape of comment text: the words stand for any text.
fn shapes() -> Vec<(String, bool)> {
    let mut o: Vec<(String, bool)> = vec![];
    for t in ["//", "//W", "// W", "//\tW  V", "// W  ", "/// W", "//* W", "// W */", "// /* W", "//W//", "////", "// W \\", "//W\r"] { o.push((t.into(), false)) }
    let first = ["", " ", "W", " W", "W  V ", "* W", " * W", " W *", " *"];
    let inner = ["", "  ", " * W", "*W", "W", "    W  V", " ** W", " * * W", " *", "\tW\r", " * W *", " */* W", "// W", " - W"];
    let last = ["", " ", "W", " * W ", " * W *", "*", " W V ", " * "];
    for open in ["/*", "/**"] { for f in first { for n in 0..3usize { for a in inner { for b in inner { for l in last {
        if n == 0 && (a != inner[0] || b != inner[0]) || n == 1 && b != inner[0] { continue }
        let mut t = format!("{open}{f}");
        if n > 0 { t += "\n"; t += a } if n > 1 { t += "\n"; t += b }
        for t in [format!("{t}\n{l}*/"), format!("{t}*/")] { if !o.iter().rev().take(12).any(|x| x.0 == t) && !t[2..t.len() - 2].contains("*/") { o.push((t, true)) } }
    } } } } } }
    o.sort(); o.dedup(); o
}
/// The text of a comment survives formatting.
pub fn texts(r: &Runner, out: &mut crate::report::Out) {
    let thorough = std::env::var("AFMT_TIER").is_ok_and(|t| t == "thorough");
    let base = &r.base.nodes[r.base.root_node];
    for (k, (t, block)) in shapes().into_iter().enumerate() {
        if !thorough && t.matches('\n').count() > 2 && k % 5 != 0 { continue }
        let style = if block { STYLES[0] } else { STYLES[3] };
        let text: String = t.chars().map(|c| match c { 'W' => '\u{E000}', 'V' => '\u{E100}', c => c }).collect();
        let rr = Runner { c: r.c, base: r.base, di: r.di, build: r.build, max_paths: 50, long: vec![], cm: Some((style, Only::All)), text: Some(text) };
        let shown = t.replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r");
        let mut any = false;
        for a in &base.alts {
            let ct = rr.contract("root", a, r.base.root, &[V::Node(r.base.root_node)]);
            for q in &ct.paths {
                let it = &q.it; let root = it.root.unwrap();
                if it.cm.as_ref().unwrap().list.len() != 1 || it.tree.visible_children(root).len() != 1 { continue }
                any = true;
                if let Some(i) = it.imprecise.first() { out.undecided(&["C15"], format!("comment text: imprecise {i}")); continue }
                match &q.exit { None => {} Some(Exit::Endless(e)) => { out.add("C32", format!("comment text: comes to no end: {e}"), crate::place(ct.inst), shown.to_string()); continue } Some(Exit::Panic(p)) => { out.add("C15", format!("comment {shown}: rejected"), crate::place(ct.inst), p.clone()); continue } Some(e) => { out.undecided(&["C15"], format!("comment text: {e:?}")); continue } }
                out.count("C15 obligations", 1); out.count("C15 comment texts", 1);
                let ls = it.cm.as_ref().unwrap().lines.join("\n");
                let word = |s: &str| -> String { s.chars().map(|c| match c { '\u{E000}' => 'W', '\u{E100}' => 'V', c => c }).collect() };
                let got = word(ls.trim());
                out.sample("C15", format!("{shown} => {}", got.replace('\n', "\\n")));
                let (x, y) = (content(&t, block), content(&got, block));
                if x != y { out.add("C15", format!("comment text: a {} is altered", if !block { "line comment" } else if t.starts_with("/**") { "doc comment" } else { "block comment" }), crate::place(ct.inst), format!("{shown} => {} ; content {x:?} => {y:?}", got.replace('\n', "\\n"))) }
            }
        }
        if !any { out.undecided(&["C15"], "comment text: the document of a comment alone was not built") }
    }
}
