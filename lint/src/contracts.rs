//! Per-construct contracts: what the document built for one syntax construct
//! prints, for every production of the grammar, compared with its tokens.
use crate::emit::*;
use crate::grammar::*;
use crate::interp::*;
use crate::tree::*;
use crate::val::*;
use rustc_public::mir::mono::*;
use rustc_public::ty::*;
use std::collections::*;
use std::rc::Rc;

/// State after parsing and comment collection, shared by all contract runs.
pub struct Base { pub heap: Vec<V>, pub statics: HashMap<StaticDef, usize>, pub nodes: Vec<Node>, pub collector: Option<(Instance, Vec<V>, usize, usize)>, pub first: Vec<Rc<LazyV>>, pub collected: HashSet<usize>, pub root: Instance, pub root_node: usize }
pub struct Path<'c> { pub it: Interp<'c>, pub norm: Option<Norm>, pub diverge: Vec<(String, String)>, pub choices: usize, pub exit: Option<Exit>, pub lay: Option<crate::layout::Lay>, /** one of the paths with a long repetition */ pub long: bool }
pub struct Contract<'c> { pub key: String, pub alt: Alt, pub inst: Instance, pub args: Vec<V>, pub paths: Vec<Path<'c>>, pub complete: bool }
pub type Contracts<'c> = BTreeMap<(String, String), Contract<'c>>;

pub fn fill_follow(c: &mut Ctx) {
    let mut f: HashMap<Rc<str>, BTreeSet<Rc<str>>> = HashMap::new();
    let mut alts: Vec<Alt> = vec![];
    for r in c.g.order.clone() { if !c.g.hidden.contains(&r) { alts.push(c.g.alt_of_rule(&r)) } }
    for n in c.g.all_names.clone() { for a in c.g.alts_of_kind(&n) { if matches!(a.content, Content::Inner(_)) { alts.push(a) } } }
    for a in alts {
        for p in c.productions(&a).iter() {
            let vis: Vec<&Slot> = p.iter().filter(|s| s.visible).collect();
            for (i, s) in vis.iter().enumerate() {
                let next: Vec<Rc<str>> = match vis.get(i + 1) { None => vec!["".into()], Some(t) => t.alts.iter().map(|a| if a.named { format!("n:{}", a.kind).as_str().into() } else { a.kind.clone() }).collect() };
                for k in &s.alts { let e = f.entry(k.kind.clone()).or_default(); for n in &next { e.insert(n.clone()); } }
            }
        }
    }
    c.follow = f;
}
/// Resolve `DocBuild::build` for the type a constructor returns.
pub fn build_fn(c: &Ctx, trait_build: FnDef, inst: Instance) -> Option<Instance> {
    let b = c.body(inst)?;
    let ty = b.ret_local().ty;
    let mut ga = vec![GenericArgKind::Type(ty)];
    for k in 0..2 { let _ = k; let r = Instance::resolve(trait_build, &GenericArgs(ga.clone())); if let Ok(i) = r { return Some(i) } ga.insert(1, GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased })); }
    None
}
/// Reveal the spelling of constructs that were consumed without being printed.
fn settle(it: &mut Interp, n: &Norm, root: usize) -> R<()> {
    let mut used: HashSet<usize> = HashSet::new();
    fn part(p: &Part, u: &mut HashSet<usize>) { match p { Part::Src(n) | Part::Kind(n) => { u.insert(*n); } Part::Span(a, b) => { u.insert(*a); u.insert(*b); } Part::Mod(_, x) => x.iter().for_each(|p| part(p, u)), _ => {} } }
    for p in &n.p { match p { Piece::Built(l) => { used.insert(l.node); } Piece::Part(p) => part(p, &mut used), _ => {} } }
    let mut work = vec![root];
    while let Some(x) = work.pop() {
        if used.contains(&x) { continue }
        if it.tree.nodes[x].children.is_none() {
            let a = it.tree.nodes[x].alts.clone();
            if a.iter().any(|a| matches!(a.content, Content::Pattern(_) | Content::Lit(..))) || a.len() > 1 || it.c.lits(&a[0]).is_some() { continue }
            if x != root && !it.c.all_lits(&a[0]) { continue }
            it.expand(x)?;
        }
        if let Some(c) = it.tree.nodes[x].children.clone() { work.extend(c.into_iter().rev()) }
    }
    Ok(())
}
pub struct Runner<'c> { pub c: &'c Ctx, pub base: &'c Base, pub di: &'c DocInfo, pub build: FnDef, pub max_paths: usize, /** lengths of the long repetitions */ pub long: Vec<usize>, pub cm: Option<(crate::comments::Style, crate::comments::Only)>, /** what every comment says */ pub text: Option<String> }
impl<'c> Runner<'c> {
    pub fn fresh(&self) -> Interp<'c> {
        let mut it = Interp::new(self.c);
        it.heap = self.base.heap.clone(); it.statics = self.base.statics.clone(); it.tree.nodes = self.base.nodes.clone();
        it.collector = self.base.collector.clone(); it.collected = self.base.collected.clone(); it.cmap_ready = true; it
    }
    pub fn contract(&self, key: &str, alt: &Alt, inst: Instance, args: &[V]) -> Contract<'c> {
        let me = (key.to_string(), alt.key());
        let mut paths = vec![]; let mut prefix = vec![]; let mut complete = true; let mut runs = 0;
        loop {
            let (p, next) = self.path(alt, inst, args, prefix, None, &me);
            paths.extend(p);
            if paths.last().is_some_and(|q| Self::path_reaches_out(q)) { break }
            match next { Some(p) => prefix = p, None => break }
            runs += 1;
            if std::env::var("AFMT_VV").is_ok() { if let Some(p) = paths.last() { eprintln!("  {:?} {:?} steps {}", p.it.trace, p.exit, p.it.steps); } }
            if runs > self.max_paths { complete = false; break }
        }
        // long repetitions: some of their paths
        if self.cm.is_none() && !paths.iter().any(Self::path_reaches_out) {
            for (i, p) in self.long.iter().flat_map(|n| self.c.g.long_productions(&alt.content, *n)).enumerate() {
                let dice: &[u64] = &[0, 0x9e3779b97f4a7c15, 0xd1b54a32d192ed03];
                for d in dice { if let (Some(mut q), _) = self.path(alt, inst, args, vec![], Some((&p, d.wrapping_mul(2 * i as u64 + 1))), &me) {
                    q.long = true;
                    if q.it.imprecise.is_empty() && (q.norm.is_some() || matches!(q.exit, Some(Exit::Panic(_) | Exit::Endless(_)))) && !Self::path_reaches_out(&q) { paths.push(q) }
                    if std::env::var("AFMT_VV").is_ok() { if let Some(p) = paths.last() { eprintln!("  LONG {:?} steps {}", p.exit, p.it.steps); } }
                } }
            }
        }
        Contract { key: key.into(), alt: alt.clone(), inst, args: args.to_vec(), paths, complete }
    }
    /// One path through the constructor and the builder.
    fn path(&self, alt: &Alt, inst: Instance, args: &[V], prefix: Vec<usize>, long: Option<(&Prod, u64)>, look: &(String, String)) -> (Option<Path<'c>>, Option<Vec<usize>>) {
            let mut it = self.fresh(); it.prefix = prefix;
            let n = it.tree.add(vec![alt.clone()]);
            if let Some((p, d)) = long { it.tree.set_children(n, p); it.dice = d }
            it.root = Some(n); it.root_inst = Some(inst);
            it.cm = self.cm.map(|(s, o)| { let mut c = crate::comments::Cm::new(s, o); c.text = self.text.clone(); Box::new(c) });
            let mut a = args.to_vec();
            for x in a.iter_mut() { if let V::Ptr(..) = x { if let Ok(V::Node(_)) = it.load(x) { *x = it.ptr_to(V::Node(n)) } } else if let V::Node(_) = x { *x = V::Node(n) } }
            let mut fl = Flattener { di: self.di, diverge: vec![], choices: 0, budget: 200_000, cache: HashMap::new() };
            let mut lay = None;
            let r = (|| -> R<Norm> {
                let v = it.enter(inst, a)?;
                let p = it.ptr_to(v);
                let bf = build_fn(self.c, self.build, inst).ok_or(Exit::Unsup("no build".into()))?;
                let bp = it.ptr_to(V::top("b"));
                let d = it.enter(bf, vec![p, bp])?;
                if it.cm.as_ref().is_some_and(|c| c.text.is_some()) { let mut l = vec![]; fl.lines(&mut it, &d, &mut l)?; it.cm.as_mut().unwrap().lines = l; return Ok(Norm::empty()) }
                let nrm = fl.flat(&mut it, &d, false)?;
                if it.cm.is_none() { settle(&mut it, &nrm, n)?; if let Some(p) = self.c.look.borrow().get(look) { it.look_up(p)? } lay = Some(crate::layout::Lay::of(&mut it, self.di, &d)?); return Ok(nrm) }
                it.finish_comments()?;
                let (nrm, shown, torn) = crate::comments::strip(&nrm);
                settle(&mut it, &nrm, n)?;
                let cm = it.cm.as_mut().unwrap(); cm.shown = shown; cm.torn = torn;
                Ok(nrm)
            })();
            let next = it.next_prefix();
            if !matches!(r, Err(Exit::Infeasible)) { it.settle_cuts() }
            it.heap = vec![]; it.stack = vec![]; it.forced.clear(); it.host.clear(); it.statics.clear();
            let diverge = std::mem::take(&mut fl.diverge);
            let path = match r { Err(Exit::Infeasible) => None, Ok(n) => Some(Path { it, norm: Some(n), diverge, choices: fl.choices, exit: None, lay, long: false }), Err(e) => Some(Path { it, norm: None, diverge, choices: 0, exit: Some(e), lay: None, long: false }) };
            (path, next)
    }
    /// Does the contract print anything outside its own construct?
    fn reaches_out(&self, c: &Contract) -> bool { c.paths.iter().any(Self::path_reaches_out) }
    fn path_reaches_out(q: &Path) -> bool {
        matches!(q.exit, Some(Exit::Outer)) || ({ let r = q.it.root.unwrap(); q.norm.as_ref().is_some_and(|n| n.p.iter().any(|p| match p { Piece::Built(l) => !q.it.tree.is_ancestor(r, l.node) && Some(l.node) != q.it.tree.nodes[r].sib[0].flatten() && q.it.tree.named(l.node) == Some(true), Piece::Part(Part::Src(x)) => !q.it.tree.is_ancestor(r, *x), _ => false })) })
    }
    pub fn all(&self) -> Contracts<'c> {
        let mut out: Contracts<'c> = BTreeMap::new();
        let mut work: Vec<(String, Alt, Instance, Vec<V>)> = vec![];
        let mut seen: HashSet<(String, String)> = HashSet::new();
        let rn = &self.base.nodes[self.base.root_node];
        for a in &rn.alts { work.push(("root".into(), a.clone(), self.base.root, vec![V::Node(self.base.root_node)])) }
        loop {
            let Some((k, a, i, args)) = work.pop() else {
                if self.cm.is_none() { work = self.look(&out) }
                if work.is_empty() { break }
                for w in &work { let w = (w.0.clone(), w.1.key()); seen.remove(&w); out.remove(&w); }
                continue;
            };
            if !seen.insert((k.clone(), a.key())) { continue }
            let t = std::time::Instant::now();
            if std::env::var("AFMT_V").is_ok() { eprintln!("start {k} {}", a.key()); }
            let c = self.contract(&k, &a, i, &args);
            if std::env::var("AFMT_V").is_ok() { eprintln!("{k} {} paths {} {:?}", a.key(), c.paths.len(), t.elapsed()); }
            for p in &c.paths { for l in &p.it.lazies { for x in &p.it.tree.nodes[l.node].alts { if !seen.contains(&(l.key.to_string(), x.key())) { work.push((l.key.to_string(), x.clone(), l.inst, l.args.clone())) } } } }
            if k != "root" && self.reaches_out(&c) && self.c.inline.borrow_mut().insert(k.clone()) {
                // analyse it inside its callers instead
                let mut again = vec![];
                out.retain(|_, o: &mut Contract| { let uses = o.paths.iter().any(|p| p.it.lazies.iter().any(|l| *l.key == *k)); if uses { again.push((o.key.clone(), o.alt.clone(), o.inst, o.args.clone())) } !uses && o.key != k });
                for w in &again { seen.remove(&(w.0.clone(), w.1.key())); }
                work.retain(|w| w.0 != k); work.extend(again);
                continue;
            }
            out.insert((k, a.key()), c);
        }
        out
    }
    /// Constructs that have to be told apart by what stands around them, because
    /// one of their parts looks beyond them.
    fn look(&self, cs: &Contracts<'c>) -> Vec<(String, Alt, Instance, Vec<V>)> {
        use crate::layout::*;
        let mut again = vec![];
        let deep: HashMap<(String, String), BTreeSet<Around>> = cs.iter().map(|(k, c)| (k.clone(), c.paths.iter().map(|q| around(q, q.it.root.unwrap())).filter(|a| a.len() >= 2).collect::<BTreeSet<_>>())).filter(|x| !x.1.is_empty()).collect();
        for (key, c) in cs {
            if key.0 == "root" { continue }
            let mut want: BTreeSet<Around> = BTreeSet::new();
            for q in &c.paths { for l in &q.it.lazies {
                let r = q.it.root.unwrap();
                let (mut d, mut x) = (0, l.node); while x != r { match q.it.tree.nodes[x].parent { Some(p) => { x = p; d += 1 } None => { d = 0; break } } }
                if d == 0 { continue }
                let ar = around(q, l.node);
                for a in &q.it.tree.nodes[l.node].alts { for p in deep.get(&(l.key.to_string(), a.key())).into_iter().flatten() { if p.len() > d && fits(p, &ar) { want.insert(p[d..].to_vec()); } } }
            } }
            let mut look = self.c.look.borrow_mut();
            let have = look.entry(key.clone()).or_default();
            let n = have.len();
            for p in want { if !have.contains(&p) { have.push(p) } }
            if have.len() > n { if std::env::var("AFMT_V").is_ok() { eprintln!("look {key:?}") } again.push((key.0.clone(), c.alt.clone(), c.inst, c.args.clone())) }
        }
        again
    }
}
/// Does the contract print the punctuation `p` following the construct?
pub struct Emits<'a, 'c> { cs: &'a Contracts<'c>, memo: std::cell::RefCell<HashMap<(String, String, String), BTreeSet<bool>>>, doubt: std::cell::RefCell<HashMap<(String, String), bool>> }
impl<'a, 'c> Emits<'a, 'c> {
    pub fn new(cs: &'a Contracts<'c>) -> Self { Emits { cs, memo: Default::default(), doubt: Default::default() } }
    pub fn of(&self, l: &LazyV, alts: &[Alt], p: &str) -> Vec<bool> {
        let mut s = BTreeSet::new();
        for a in alts { s.extend(self.alt(&l.key, a, p)) }
        s.into_iter().collect()
    }
    /// Does the path rely on a contract that is not completely known?
    pub fn doubtful(&self, it: &Interp, n: &Norm) -> bool { n.p.iter().any(|p| match p { Piece::Built(l) => it.tree.nodes[l.node].alts.iter().any(|a| self.doubt(&l.key, a)), _ => false }) }
    fn doubt(&self, key: &str, a: &Alt) -> bool {
        let k = (key.to_string(), a.key());
        if let Some(x) = self.doubt.borrow().get(&k) { return *x }
        self.doubt.borrow_mut().insert(k.clone(), false);
        let d = self.cs.get(&k).is_some_and(|c| !c.complete || c.paths.iter().any(|q| !q.it.imprecise.is_empty() || match (&q.norm, &q.exit) { (Some(n), _) => n.p.iter().any(|p| matches!(p, Piece::Built(m) if m.node == q.it.root.unwrap() && q.it.tree.nodes[m.node].alts.iter().any(|a| self.doubt(&m.key, a)))), (None, Some(Exit::Panic(_))) => false, _ => true }));
        self.doubt.borrow_mut().insert(k, d); d
    }
    fn alt(&self, key: &str, a: &Alt, p: &str) -> BTreeSet<bool> {
        let k = (key.to_string(), a.key(), p.to_string());
        if let Some(x) = self.memo.borrow().get(&k) { return x.clone() }
        self.memo.borrow_mut().insert(k.clone(), BTreeSet::new());
        let mut s = BTreeSet::new();
        if let Some(c) = self.cs.get(&(k.0.clone(), k.1.clone())) { for q in &c.paths { if let Some(n) = &q.norm {
            if let Some(Piece::Built(m)) = n.p.last() { if m.node == q.it.root.unwrap() { for a in &q.it.tree.nodes[m.node].alts { s.extend(self.alt(&m.key, a, p)) } continue } }
            if let Some(e) = path_emits(q, n, p) { s.insert(e); }
        } } }
        self.memo.borrow_mut().insert(k, s.clone()); s
    }
}
/// What follows the construct, as far as this path looked: unknown / nothing / a node.
fn next_of(it: &Interp) -> Option<Option<usize>> {
    let r = it.root.unwrap();
    if let Some(p) = it.tree.nodes[r].parent { if it.tree.nodes[p].children.is_some() { let v = it.tree.visible_children(p); let i = v.iter().position(|x| *x == r)?; return Some(v.get(i + 1).copied()) } }
    it.tree.nodes[r].sib[0]
}
/// None: the path belongs to a different continuation.
fn path_emits(q: &Path, n: &Norm, p: &str) -> Option<bool> {
    let r = q.it.root.unwrap();
    match next_of(&q.it) {
        None => Some(false),
        Some(None) => None,
        Some(Some(s)) => {
            if !q.it.tree.kinds(s).iter().any(|k| &**k == p) { return None }
            let ch = p.chars().next()?;
            let tail = n.p.iter().rev().take_while(|x| matches!(x, Piece::Ch(c) if *c == ch)).count();
            let e = expected(&q.it, r, &|_, _, c| c, &HashMap::new());
            let own = e.toks.iter().rev().take_while(|t| matches!(&t.lit, Some((l, _)) if &**l == p)).count();
            Some(tail > own)
        }
    }
}
/// Separators a contract's own output can begin / end with.
pub struct Masks<'a, 'c> { cs: &'a Contracts<'c>, memo: std::cell::RefCell<HashMap<(String, String, bool), u8>> }
impl<'a, 'c> Masks<'a, 'c> {
    pub fn new(cs: &'a Contracts<'c>) -> Self { Masks { cs, memo: Default::default() } }
    pub fn of(&self, it: &Interp, l: &LazyV, first: bool) -> u8 { it.tree.nodes[l.node].alts.iter().fold(0, |m, a| m | self.alt(&l.key, a, first)) }
    fn alt(&self, key: &str, a: &Alt, first: bool) -> u8 {
        let k = (key.to_string(), a.key(), first);
        if let Some(x) = self.memo.borrow().get(&k) { return *x }
        self.memo.borrow_mut().insert(k.clone(), 0);
        let mut m = 0;
        if let Some(c) = self.cs.get(&(k.0.clone(), k.1.clone())) { for q in &c.paths { if let Some(n) = &q.norm {
            let e = if first { n.s[0] } else { *n.s.last().unwrap() };
            m |= match if first { n.p.first() } else { n.p.last() } { Some(Piece::Built(l)) => { let k = self.of(&q.it, l, first); if first { join(e, k) } else { join(k, e) } } _ => e };
        } } }
        self.memo.borrow_mut().insert(k, m); m
    }
}
/// Words run together, or torn apart, by the separators between pieces.
fn spacing(q: &Path, n: &Norm, m: &Match, e: &Expected, masks: &Masks) -> (Vec<Defect>, usize) {
    let it = &q.it; let mut out = vec![];
    let group = it.tree.kind(it.root.unwrap()).is_some_and(|k| grouping_kind(&k));
    let mut pairs = 0;
    // the punctuation behind the construct, printed by the construct itself
    if let (Some(Piece::Ch(c @ (',' | ';'))), true) = (n.p.last(), n.p.len() > 1 && !group) {
        let k = n.p.len() - 1; let own = m.spans.last().is_some_and(|x| x.0 == k && x.3 > x.2);
        let tail = match &n.p[k - 1] { Piece::Built(l) => masks.of(it, l, false), _ => NONE };
        if !own { pairs += 1; if join(tail, n.s[k]) != NONE { out.push(Defect::Space(format!("before the '{c}' behind it: no blank before '{c}'"))) } }
    }
    let mut prev: Option<(usize, usize, u8)> = None; // end piece, end token, separator so far
    for (a, b, j, k) in &m.spans {
        let (lead, tail) = match &n.p[*a] { Piece::Built(l) => (masks.of(it, l, true), masks.of(it, l, false)), _ => (NONE, NONE) };
        if let (Piece::Ch(_), Some((t, _))) = (&n.p[*a], e.toks.get(*j).and_then(|t| t.lit.clone())) {
            let mut x = *a;
            let mut ws = false;
            for c in t.chars() {
                if c.is_whitespace() { ws = true; continue }
                if x > *a { let s = n.s[x]; if (ws && s & NONE != 0) || (!ws && s & !NONE != 0) { out.push(Defect::Split(format!("'{t}'"))); break } }
                ws = false; x += 1;
            }
        }
        if k > j {
            if let Some((pb, pt, mut s)) = prev {
                if pb <= *a { s = join(s, n.s[*a]) }
                s = join(s, lead);
                if pt < *j && !group { pairs += 1; if let Some(why) = crate::spacing::odd(it, &e.toks[pt], &e.toks[*j], s) { out.push(Defect::Space(format!("{} and {}: {why}", tokname(it, &e.toks[pt]), tokname(it, &e.toks[*j])))) } }
                if s & NONE != 0 && pt < *j + 1 && !group {
                    let l = edge(it, &e.toks[pt], false); let r = edge(it, &e.toks[*j], true);
                    if l.iter().any(|x| r.iter().any(|y| fuses(*x, *y))) { out.push(Defect::Fuse(format!("{} and {}", tokname(it, &e.toks[pt]), tokname(it, &e.toks[*j])))) }
                }
            }
            prev = Some((*b, *k - 1, tail));
        } else if let Some((pb, pt, s)) = prev { let s2 = if pb <= *a { join(s, n.s[*a]) } else { s }; prev = Some((*b, pt, join(s2, join(lead, tail)))) }
    }
    (out, pairs)
}
pub fn edge(it: &Interp, t: &Tok, first: bool) -> BTreeSet<char> {
    match &t.lit { Some((l, _)) => if first { l.chars().next() } else { l.chars().last() }.into_iter().map(class).collect(), None => it.c.edges.of_node(it, t.node, first) }
}
fn tokname(it: &Interp, t: &Tok) -> String { match &t.lit { Some((l, _)) => format!("'{l}'"), None => it.tree.describe(t.node) } }
#[derive(Default)]
pub struct Finding { pub props: BTreeSet<&'static str>, pub construct: String, pub defect: String, pub ctor: String, pub example: String }
#[derive(Default)]
pub struct Report { pub findings: BTreeMap<String, Finding>, pub undecided: BTreeMap<String, (usize, BTreeSet<String>)>, pub paths: usize, pub tokens: usize, pub contracts: usize, pub seps: usize, pub choices: usize, pub decided: usize }
impl Report {
    pub fn add(&mut self, props: BTreeSet<&'static str>, kind: &str, defect: String, ctor: &str, example: String) { self.findings.entry(format!("{kind}: {defect}")).or_insert(Finding { props, construct: kind.into(), defect, ctor: ctor.into(), example }); }
}
fn annotations_first(t: &Tree, n: usize, c: Vec<usize>) -> Vec<usize> {
    if t.kind(n).as_deref() != Some("modifiers") { return c }
    let is_ann = |x: &usize| t.kind(*x).as_deref() == Some("annotation");
    c.iter().copied().filter(is_ann).chain(c.iter().copied().filter(|x| !is_ann(x))).collect()
}
pub type DevMap = HashMap<(String, String), Devs>;
/// Agreed boundary of a child printed through its contract.
fn dev_of(it: &Interp, l: &LazyV, devs: &DevMap) -> Option<Devs> {
    let mut out: Option<Devs> = None;
    for a in &it.tree.nodes[l.node].alts { let d = devs.get(&(l.key.to_string(), a.key())).cloned().unwrap_or_else(exact); match &out { None => out = Some(d), Some(o) if *o == d => {} _ => return None } }
    out
}
pub fn match_path(cs: &Emits, q: &Path, n: &Norm, devs: &DevMap, own: &Devs, masks: Option<&Masks>) -> (Match, usize) {
    let r = q.it.root.unwrap();
    let em = |l: &LazyV, p: &str| { let v = cs.of(l, &q.it.tree.nodes[l.node].alts, p); if v.is_empty() { vec![false] } else { v } };
    let trailing = next_of(&q.it).flatten().and_then(|s| q.it.tree.kind(s)).map(|k| k.to_string()).filter(|k| k == "," || k == ";");
    let mut inner: HashMap<usize, Devs> = HashMap::new();
    for p in &n.p { if let Piece::Built(l) = p { if let Some(d) = dev_of(&q.it, l, devs) { if d != exact() { inner.insert(l.node, d); } } } }
    let group = q.it.tree.kind(r).is_some_and(|k| grouping_kind(&k));
    let stripped; let n = if group { stripped = strip_groups(n); &stripped } else { n };
    let mut best: Option<(Match, Expected)> = None; let mut toks = 0;
    for (k, o) in [&(|_: &Tree, _: usize, c: Vec<usize>| c) as &dyn Fn(&Tree, usize, Vec<usize>) -> Vec<usize>, &annotations_first].into_iter().enumerate() {
        let mut e = expected(&q.it, r, o, &inner);
        if group { regroup(&q.it, &mut e) }
        toks = e.toks.len();
        let mut m = Matcher { it: &q.it, e: &e, n, emits: &em, trailing: trailing.clone(), inner: &inner, own }.run(); m.reordered = k > 0;
        if best.as_ref().map(|b| m.defects.len() < b.0.defects.len()).unwrap_or(true) { best = Some((m, e)) }
        if best.as_ref().unwrap().0.defects.is_empty() { break }
    }
    let (mut m, e) = best.unwrap();
    if let Some(k) = masks { if m.defects.is_empty() { let (d, k) = spacing(q, n, &m, &e, k); m.defects.extend(d); m.pairs = k } }
    (m, toks)
}
/// Leave the grouping parentheses of a condition to the grouping rule.
fn regroup(it: &Interp, e: &mut Expected) {
    let r = it.root.unwrap();
    let drop: Vec<bool> = e.toks.iter().map(|t| t.parent == r && matches!(&t.lit, Some((l, _)) if &**l == "(" || &**l == ")")).collect();
    let pos: Vec<usize> = { let mut v = vec![0]; for d in &drop { let l = *v.last().unwrap(); v.push(l + !*d as usize) } v };
    e.toks = e.toks.iter().zip(&drop).filter(|x| !*x.1).map(|x| x.0.clone()).collect();
    for (a, b) in e.range.values_mut() { *a = pos[*a]; *b = pos[*b] }
    for x in e.extras.iter_mut() { x.1 = pos[x.1] }
}
pub fn boundaries(cs: &Contracts, ems: &Emits) -> DevMap {
    // boundaries agreed between constructs and their parents
    let mut devs: DevMap = HashMap::new(); let mut banned: HashSet<(String, String)> = HashSet::new();
    let mut cache: HashMap<(String, String), Vec<(Match, usize)>> = HashMap::new();
    let mut dirty: Vec<(String, String)> = cs.keys().cloned().collect();
    for _round in 0..6 {
        for k in &dirty {
            let ct = &cs[k]; let own = devs.get(k).cloned().unwrap_or_else(exact);
            let v: Vec<(Match, usize)> = ct.paths.iter().filter_map(|q| q.norm.as_ref().map(|n| match_path(ems, q, n, &devs, &own, None))).collect();
            cache.insert(k.clone(), v);
        }
        let mut changed: HashSet<(String, String)> = HashSet::new();
        for (k, ct) in cs {
            if devs.contains_key(k) || banned.contains(k) || k.0 == "root" { continue }
            let v = &cache[k];
            let cand = (v.iter().map(|m| m.0.lead.clone()).find(|d| *d != Dev::Exact).unwrap_or(Dev::Exact), v.iter().map(|m| m.0.trail.clone()).find(|d| *d != Dev::Exact).unwrap_or(Dev::Exact));
            if cand == exact() { continue }
            let before: usize = v.iter().map(|m| m.0.defects.len()).sum();
            let w: Vec<(Match, usize)> = ct.paths.iter().filter_map(|q| q.norm.as_ref().map(|n| match_path(ems, q, n, &devs, &cand, None))).collect();
            let after: usize = w.iter().map(|m| m.0.defects.len()).sum();
            if w.iter().all(|m| m.0.lead == Dev::Exact && m.0.trail == Dev::Exact && !m.0.both) && after < before { changed.insert(k.clone()); devs.insert(k.clone(), cand); cache.insert(k.clone(), w); }
        }
        // a use that cannot rely on one boundary takes none
        for ct in cs.values() { for q in &ct.paths { if let Some(n) = &q.norm { for p in &n.p { if let Piece::Built(l) = p { if dev_of(&q.it, l, &devs).is_none() { for a in &q.it.tree.nodes[l.node].alts { let k = (l.key.to_string(), a.key()); if devs.remove(&k).is_some() { banned.insert(k.clone()); changed.insert(k); } } } } } } } }
        if changed.is_empty() { break }
        let keys: HashSet<&str> = changed.iter().map(|x| &*x.0).collect();
        dirty = cs.iter().filter(|(k, ct)| banned.contains(*k) || ct.paths.iter().any(|q| q.it.lazies.iter().any(|l| keys.contains(&*l.key)))).map(|x| x.0.clone()).collect();
    }
    devs
}
pub fn compare(cs: &Contracts, c: &Ctx, out: &mut crate::report::Out) -> Report {
    let mut rep = Report::default();
    let areas = Areas::new(c);
    let ems = Emits::new(cs);
    let devs = boundaries(cs, &ems);
    if std::env::var("AFMT_V").is_ok() { for (k, d) in &devs { eprintln!("boundary {} {} {d:?}", k.0, k.1) } }
    let masks = Masks::new(cs);
    for (key, k) in cs {
        let own = devs.get(key).cloned().unwrap_or_else(exact);
        rep.contracts += 1;
        let ar = areas.of(&k.alt.kind);
        let grouped = grouping_kind(&k.alt.kind);
        let undec = |rep: &mut Report, key: String| { let e = rep.undecided.entry(key).or_default(); e.0 += 1; e.1.extend(ar.iter().chain(&["C07", "C08", "C09", "C10", "C31", "C32"]).map(|x| x.to_string())); if grouped { e.1.insert("C06".into()); } };
        if !k.complete { undec(&mut rep, format!("{} of {}: too many cases", k.key, k.alt.kind)) }
        for a in &ar { out.count(&format!("{a} constructs"), 1); }
        for p in ["C07", "C08", "C09", "C10", "C31", "C32"] { out.count(&format!("{p} constructs"), 1); }
        order_free(k, &mut rep, out);
        for q in &k.paths {
            rep.paths += 1;
            let r = q.it.root.unwrap();
            // a path through an unmodelled library function proves nothing
            if let Some(i) = q.it.imprecise.first() { undec(&mut rep, format!("{}: imprecise {i}", k.key)); continue }
            out.count("C09 obligations", 1); out.count("C32 obligations", 1);
            let Some(n) = &q.norm else {
                match q.exit.as_ref().unwrap() {
                    Exit::Panic(m) if q.long && k.paths.iter().any(|o| !o.long && matches!(&o.exit, Some(Exit::Panic(x)) if x == m)) => {}
                    Exit::Panic(m) => { let d = format!("rejects {}", rejected(&q.it, r, k, m)); rep.add(["C09"].into(), &k.alt.kind, d, &k.key, format!("{}: {m}", shape(&q.it, r))); }
                    Exit::Endless(m) => rep.add(["C32"].into(), &k.alt.kind, format!("comes to no end: {m}"), &k.key, format!("{} when {}", shape(&q.it, r), q.it.trace.join(", "))),
                    e => undec(&mut rep, format!("{} {:?}", k.key, e)),
                }
                continue;
            };
            if std::env::var("AFMT_DUMP").is_ok_and(|d| d == "*" || *k.alt.kind == d) { eprintln!("DUMP {} {} => {}", k.key, shape(&q.it, r), n.show(&q.it.tree)); if let Some(l) = &q.lay { eprintln!("   LAY {} odd {:?} when {:?}", l.show(&q.it.tree), l.odd, q.it.trace) } }
            rep.seps += n.s.len();
            for d in &q.diverge { rep.add(["C10"].into(), &k.alt.kind, "layout alternatives print different text".into(), &k.key, format!("{} / {}", d.0, d.1)); }
            let (m, toks) = match_path(&ems, q, n, &devs, &own, Some(&masks));
            rep.tokens += toks;
            let mut ds = m.defects.clone();
            if q.it.tree.kind(r).is_some_and(|k| grouping_kind(&k)) { ds.extend(check_groups(&q.it, r, n)) }
            if !ds.is_empty() && ems.doubtful(&q.it, n) { undec(&mut rep, format!("{}: relies on an undecided construct", k.key)); continue }
            out.count("C07 obligations", n.s.len()); out.count("C10 obligations", q.choices); out.count("C31 obligations", m.pairs); out.count("C08 obligations", m.spans.iter().filter(|x| !matches!(n.p[x.0], Piece::Ch(_))).count());
            for a in &ar { out.count(&format!("{a} cases"), 1); out.count(&format!("{a} obligations"), toks); if ds.is_empty() && toks > 2 { out.sample(a, format!("{}: {} => {}", k.key, shape(&q.it, r), n.show(&q.it.tree))) } }
            if grouped { out.count("C06 obligations", 1); if toks > 2 { out.sample("C06", format!("{} => {}", shape(&q.it, r), n.show(&q.it.tree))) } }
            if toks > 3 && n.p.len() % 5 == 2 { out.sample("C07", format!("{} => {}", shape(&q.it, r), n.show(&q.it.tree))) }
            if m.pairs > 3 && n.p.len() % 4 == 1 { out.sample("C31", format!("{} => {}", shape(&q.it, r), n.show(&q.it.tree))) }
            if q.choices > 0 { out.sample("C10", format!("{} => {} ({} choices)", shape(&q.it, r), n.show(&q.it.tree), q.choices)) }
            for d in ds {
                let mut ps: BTreeSet<&'static str> = BTreeSet::new();
                match &d { Defect::Group(_) => { ps.insert("C06"); } Defect::Split(_) | Defect::Fuse(_) => { ps.insert("C07"); } Defect::Space(_) => { ps.insert("C31"); } Defect::Rewrite(_) => { ps.insert("C08"); ps.extend(areas.of(&k.alt.kind)); } _ => ps.extend(areas.of(&k.alt.kind)) }
                rep.add(ps, &k.alt.kind, d.show(), &k.key, format!("{} => {}", shape(&q.it, r), n.show(&q.it.tree)));
            }
        }
    }
    rep
}
/// The text must not depend on the order of a hash table or of addresses.
fn order_free(k: &Contract, rep: &mut Report, out: &mut crate::report::Out) {
    let chance = |t: &str| t.starts_with("hash order") || ((t.contains(" < ") || t.contains(" > ") || t.contains(" <= ") || t.contains(" >= ")) && t.contains("id(node"));
    out.count("C22 constructs", 1);
    let mut by: HashMap<String, (String, bool)> = HashMap::new();
    for q in &k.paths {
        let luck = q.it.trace.iter().any(|t| chance(t));
        let key = q.it.trace.iter().filter(|t| !chance(t)).cloned().collect::<Vec<_>>().join(";");
        let got = match &q.norm { Some(n) => n.show(&q.it.tree), None => format!("{:?}", q.exit) };
        match by.get(&key) { Some((g, l)) if *g != got && (*l || luck) => rep.add(["C22"].into(), &k.alt.kind, "the text depends on the order of a hash table or of addresses".into(), &k.key, format!("{} / {}", g, got)), None => { by.insert(key, (got, luck)); } _ => {} }
    }
}
/// Which part of the language a construct belongs to.
pub struct Areas { soql: BTreeSet<String>, sosl: BTreeSet<String>, code: BTreeSet<String> }
impl Areas {
    pub fn new(c: &Ctx) -> Areas {
        let reach = |from: &str, stop: &[&str]| { let mut seen = BTreeSet::new(); let mut out = BTreeSet::new(); let mut w = c.g.alts_of_kind(from); while let Some(a) = w.pop() { if !seen.insert(a.key()) { continue } out.insert(a.kind.to_string()); if stop.contains(&&*a.kind) || !matches!(a.content, Content::Rule(_) | Content::Inner(_)) { continue } for p in c.productions(&a).iter() { for s in p.iter() { for x in &s.alts { if x.named { w.push(x.clone()) } } } } } out };
        let code = reach("parser_output", &["query_expression"]);
        let soql = &reach("soql_query_body", &["bound_apex_expression"]) - &code; let sosl = &reach("sosl_query_body", &["bound_apex_expression"]) - &code;
        Areas { soql, sosl, code }
    }
    pub fn of(&self, k: &str) -> BTreeSet<&'static str> {
        let mut o = BTreeSet::new();
        if self.soql.contains(k) { o.insert("C04"); }
        if self.sosl.contains(k) { o.insert("C05"); }
        // constructs that belong to more than one part
        let also: &[&str] = match k {
            "dml_expression" | "dml_type" | "dml_security_mode" | "switch_expression" | "parenthesized_expression" => &["C02", "C03"],
            "array_initializer" | "map_initializer" | "map_key_initializer" => &["C03"],
            "local_variable_declaration" | "variable_declarator" | "block" | "catch_formal_parameter" => &["C01", "C02"],
            "explicit_constructor_invocation" => &["C01", "C02", "C03"],
            "query_expression" => &["C03", "C04", "C05"],
            "bound_apex_expression" => &["C03", "C04", "C05"],
            "type_arguments" | "dimensions" | "type_identifier" | "java_type" | "java_field_access" => &["C01", "C03"],
            "identifier" | "safe_navigation_operator" | "assignment_operator" => &["C01", "C02", "C03"],
            k if k.ends_with("_type") || k.ends_with("type_identifier") => if o.is_empty() { &["C01", "C03"] } else { &[] },
            _ => &[],
        };
        o.extend(also);
        if !o.is_empty() { return o }
        let _ = &self.code;
        let st = ["_statement", "switch_block", "switch_rule", "switch_label", "switch_expression"];
        o.insert(if k == "block" || k.starts_with("catch_") || k.starts_with("when_") || k == "finally_clause" || k == "local_variable_declaration" || st.iter().any(|s| k.ends_with(s)) { "C02" }
            else if k.ends_with("_declaration") || k.ends_with("_body") || k.ends_with("_type") || k.starts_with("type_") || k.starts_with("modifier") || k.starts_with("annotation") || k.starts_with("formal_parameter") || k.starts_with("accessor") || k.starts_with("trigger") || k.contains("interfaces") || k.ends_with("_initializer") || k.ends_with("_constant") || k.ends_with("type_identifier") || matches!(k, "dimensions" | "superclass" | "variable_declarator" | "parser_output" | "explicit_constructor_invocation") { "C01" } else { "C03" });
        o
    }
}
/// What a constructor refuses: the kinds of the node named in the message, the
/// construct itself, or the shape it was given.
fn rejected(it: &Interp, r: usize, k: &Contract, m: &str) -> String {
    if let Some(p) = m.find("<kind ") { if let Some(n) = m[p + 6..].split('>').next().and_then(|x| x.parse::<usize>().ok()) { let ks = it.tree.kinds(n); if ks.len() < 12 { return ks.join("|") } } }
    if it.tree.nodes[r].children.is_none() { return format!("it in {}", k.key.rsplit("::").nth(1).unwrap_or(&k.key)) }
    shape(it, r)
}
pub fn shape(it: &Interp, n: usize) -> String {
    match &it.tree.nodes[n].children { Some(c) => format!("{}({})", it.tree.kind(n).unwrap_or("?".into()), c.iter().map(|x| { let f = it.tree.nodes[*x].fields.last().map(|f| format!("{f}:")).unwrap_or_default(); format!("{f}{}", shape(it, *x)) }).collect::<Vec<_>>().join(" ")), None => { let k = it.tree.kinds(n); if k.len() > 3 { "_".into() } else { k.join("|") } } }
}
