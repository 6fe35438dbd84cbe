//! Abstract interpreter over compiler MIR. Values are abstract (see val.rs);
//! branch conditions that the abstraction cannot decide split the analysis.
use crate::grammar::*;
use crate::tree::*;
use crate::val::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
use std::cell::RefCell;
use std::collections::*;
use std::rc::Rc;
use rustc_public_bridge::IndexedVal;

#[derive(Debug, Clone)]
pub enum Exit { Panic(String), Unsup(String), Infeasible, ProcExit(V), Budget, /** comes to no end */ Endless(String), Stop(V), /** depends on the enclosing construct */ Outer }
pub type R<T> = Result<T, Exit>;
pub fn unsup<T>(s: impl Into<String>) -> R<T> { Err(Exit::Unsup(s.into())) }

pub const STK: usize = 1 << 40;

/// Facts shared by every analysis of one program.
pub struct Ctx {
    pub g: Grammar,
    pub bodies: RefCell<HashMap<Instance, Option<&'static Body>>>,
    pub names: RefCell<HashMap<FnDef, Rc<str>>>,
    pub targets: RefCell<HashMap<Ty, Option<(Instance, Rc<str>)>>>,
    pub prods: RefCell<HashMap<String, Rc<Vec<Prod>>>>,
    pub doc_adts: HashSet<AdtDef>,
    pub parents: RefCell<HashMap<String, Rc<Vec<Alt>>>>,
    pub follow: HashMap<Rc<str>, BTreeSet<Rc<str>>>,
    pub analysed_fns: RefCell<BTreeSet<String>>,
    pub foreign: RefCell<BTreeMap<String, usize>>,
    /// paths that did not come to an end
    pub endless: std::cell::Cell<usize>,
    /// Places where text is cut: (looked at, not understood, in the middle of a character).
    pub cuts: RefCell<crate::cuts::Cuts>,
    pub lit_memo: RefCell<HashMap<String, Option<Rc<Vec<(Rc<str>, bool)>>>>>,
    /// constructors analysed inside their callers (they read beyond their own construct)
    pub inline: RefCell<HashSet<String>>,
    /// Per construct: surroundings that its parts look at and that it has to be told apart by.
    pub look: RefCell<HashMap<(String, String), Vec<crate::layout::Around>>>,
    pub edges: crate::emit::Edges,
}
impl Ctx {
    pub fn productions(&self, a: &Alt) -> Rc<Vec<Prod>> {
        let k = a.key();
        if let Some(p) = self.prods.borrow().get(&k) { return p.clone() }
        let p = Rc::new(self.g.productions(&a.content));
        self.prods.borrow_mut().insert(k, p.clone()); p
    }
    pub fn body(&self, i: Instance) -> Option<&'static Body> {
        if let Some(b) = self.bodies.borrow().get(&i) { return *b }
        let b: Option<&'static Body> = i.body().map(|b| &*Box::leak(Box::new(b)));
        self.bodies.borrow_mut().insert(i, b); b
    }
    pub fn parents(&self, kind: &str) -> Rc<Vec<Alt>> {
        if let Some(p) = self.parents.borrow().get(kind) { return p.clone() }
        let p: Rc<Vec<Alt>> = Rc::new(self.g.parents_of(kind).into_iter().map(|x| x.1).collect());
        self.parents.borrow_mut().insert(kind.into(), p.clone()); p
    }
    pub fn name(&self, d: FnDef) -> Rc<str> {
        if let Some(n) = self.names.borrow().get(&d) { return n.clone() }
        let n: Rc<str> = norm(&d.name()).as_str().into();
        self.names.borrow_mut().insert(d, n.clone()); n
    }
}
/// Drop generic argument lists from a path.
pub fn norm(s: &str) -> String {
    let b: Vec<char> = s.chars().collect();
    let mut o = String::new(); let mut i = 0;
    while i < b.len() {
        if b[i] == ':' && i + 2 < b.len() && b[i + 1] == ':' && b[i + 2] == '<' && !s[..].is_empty() && !(i + 7 < b.len() && b[i + 3..i + 7] == ['i', 'm', 'p', 'l']) {
            let mut d = 0; i += 2;
            while i < b.len() { if b[i] == '<' { d += 1 } if b[i] == '>' && b[i - 1] != '-' { d -= 1; if d == 0 { i += 1; break } } i += 1 }
            continue;
        }
        o.push(b[i]); i += 1;
    }
    o
}

pub enum Loc { Mem(usize, Vec<u32>), Val(V), Sl(usize, Rc<Vec<u32>>, usize, usize) }

#[derive(Clone, Debug)]
pub struct Event { pub what: String, pub args: Vec<V>, pub stack: Vec<String> }

pub struct Interp<'c> {
    pub c: &'c Ctx,
    pub heap: Vec<V>,
    pub stack: Vec<V>,
    pub tree: Tree,
    pub statics: HashMap<StaticDef, usize>,
    pub prefix: Vec<usize>, /** beyond the prefix: 0 takes the first alternative, otherwise any */ pub dice: u64,
    pub taken: Vec<(usize, usize)>,
    pub memo: HashMap<String, usize>, pub facts: Vec<Lin>, pub rows: Vec<(usize, bool)>, pub unit: String,
    pub text_eq: HashMap<String, String>,
    /// first characters a node's text is known not to have
    pub first_not: HashMap<usize, BTreeSet<char>>,
    pub trace: Vec<String>,
    pub depth: usize,
    pub steps: usize,
    pub max_steps: usize,
    /// number of decisions and steps at the last of them
    pub chosen: (usize, usize),
    /// calls in progress at great depth, with their arguments
    pub deep: Vec<(usize, usize, u64, Instance)>,
    pub bounded: Vec<(usize, usize)>, pub alive: [usize; 2],
    pub root: Option<usize>,
    pub cut: bool,
    pub cut_same: bool,
    pub root_inst: Option<Instance>,
    pub lazies: Vec<Rc<LazyV>>,
    pub forced: HashMap<usize, V>,
    pub events: Vec<Event>,
    pub imprecise: Vec<String>,
    pub frames: Vec<Rc<str>>,
    pub cuts: crate::cuts::Cuts,
    pub collector: Option<(Instance, Vec<V>, usize, usize)>,
    pub collected: HashSet<usize>,
    pub collecting: Option<usize>,
    pub prune: bool,
    pub ordered: Option<usize>,
    pub cm: Option<Box<crate::comments::Cm>>,
    pub hooks: Option<Rc<dyn Fn(&mut Interp, &str, Instance, &[V]) -> Option<R<V>> + 'c>>,
    pub cmap_ready: bool,
    pub host: HashMap<usize, Vec<V>>,
    pub tls: HashSet<StaticDef>,
    /// nodes of a tree with a syntax error: 0 none, 1 below, 2 error, 3 missing
    pub errs: HashMap<usize, u8>,
}

impl<'c> Interp<'c> {
    pub fn new(c: &'c Ctx) -> Self {
        Interp { c, heap: vec![], stack: vec![], tree: Tree::default(), statics: HashMap::new(), prefix: vec![], dice: 0, taken: vec![], memo: HashMap::new(), facts: vec![], rows: vec![], unit: String::new(), ordered: None, text_eq: HashMap::new(), first_not: HashMap::new(), trace: vec![], depth: 0, steps: 0, max_steps: if c.endless.get() > 5 { 30_000 } else { 1_000_000 }, chosen: (0, 0), deep: vec![], bounded: vec![], alive: [0; 2], root: None, cut: true, cut_same: false, root_inst: None, lazies: vec![], forced: HashMap::new(), events: vec![], imprecise: vec![], frames: vec![], cuts: Default::default(), collector: None, collected: HashSet::new(), collecting: None, prune: true, cm: None, hooks: None, cmap_ready: false, host: HashMap::new(), tls: HashSet::new(), errs: HashMap::new() }
    }
    // ---------- decisions
    pub fn choose(&mut self, n: usize, what: impl FnOnce() -> String) -> R<usize> {
        if n == 0 { return Err(Exit::Infeasible) }
        if n == 1 { return Ok(0) }
        let i = self.taken.len();
        let d = if i < self.prefix.len() { self.prefix[i] } else if self.dice > 0 { self.dice = self.dice.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) | 1; (self.dice >> 33) as usize % n } else { 0 };
        self.taken.push((d, n));
        self.trace.push(format!("{}={}", what(), d));
        Ok(d)
    }
    pub fn choose_memo(&mut self, key: &str, n: usize) -> R<usize> {
        if let Some(x) = self.memo.get(key) { return Ok(*x) }
        let k = key.to_string();
        let d = self.choose(n, || k)?;
        self.memo.insert(key.into(), d); Ok(d)
    }
    pub fn next_prefix(&self) -> Option<Vec<usize>> {
        let mut t = self.taken.clone();
        while let Some((d, n)) = t.pop() { if d + 1 < n { let mut p: Vec<usize> = t.iter().map(|x| x.0).collect(); p.push(d + 1); return Some(p) } }
        None
    }
    pub fn truth(&mut self, v: &V) -> R<bool> {
        match v {
            V::Int(i) => Ok(*i != 0),
            V::Top(s) => {
                if let Some(r) = s.strip_prefix('!') { let r = V::top(r); return Ok(!self.truth(&r)?) }
                Ok(self.choose_memo(&s.clone(), 2)? == 1)
            }
            V::Undef => unsup("branch on undefined"),
            x => unsup(format!("branch on {}", term(x))),
        }
    }
    // ---------- progress
    /// Does the value own the sending end of a channel?
    pub fn sender(v: &V, q: Option<usize>, d: usize) -> bool {
        if d > 5 { return false }
        match v {
            V::Ext(n, f) if &**n == "chan" => matches!((&f[0], &f[1]), (V::Ptr(a, _), V::Int(0)) if q.is_none_or(|q| q == *a)),
            V::Agg(_, f) | V::Vec(f) | V::Ext(_, f) => f.iter().any(|x| Self::sender(x, q, d + 1)),
            V::Dyn(x, _) | V::ClosPtr(x, _) => Self::sender(x, q, d + 1),
            _ => false,
        }
    }
    /// What can be reached from some values, independent of addresses.
    fn shape_of(&self, vs: &[V]) -> u64 {
        use std::hash::{Hash, Hasher};
        struct St<'a, 'c> { it: &'a Interp<'c>, h: std::collections::hash_map::DefaultHasher, seen: HashMap<usize, usize>, room: usize }
        impl St<'_, '_> {
            fn cell(&mut self, a: usize) { let n = self.seen.len(); match self.seen.get(&a) { Some(k) => k.hash(&mut self.h), None => { self.seen.insert(a, n); if let Ok(v) = self.it.cell(a) { self.go(v) } } } }
            fn go(&mut self, v: &V) {
                if self.room == 0 { return } self.room -= 1;
                std::mem::discriminant(v).hash(&mut self.h);
                match v {
                    V::Agg(t, f) => { t.hash(&mut self.h); f.len().hash(&mut self.h); for x in f.iter() { self.go(x) } }
                    V::Vec(f) => { f.len().hash(&mut self.h); for x in f.iter() { self.go(x) } }
                    V::Ext(n, f) => { n.hash(&mut self.h); f.len().hash(&mut self.h); for x in f.iter() { self.go(x) } }
                    V::Map(f) => { f.len().hash(&mut self.h); for (a, b) in f.iter() { self.go(a); self.go(b) } }
                    V::Ptr(a, p) => { p.hash(&mut self.h); self.cell(*a) }
                    V::Slice(a, p, s, n) => { (p, s, n).hash(&mut self.h); self.cell(*a) }
                    V::Dyn(x, _) | V::ClosPtr(x, _) | V::FmtArg(x, ..) => self.go(x),
                    V::Cursor(a, b) => (a, b).hash(&mut self.h),
                    V::Lazy(l) | V::Built(l) => l.id.hash(&mut self.h),
                    V::Iter(i) => self.iter(i),
                    x => { term(x).hash(&mut self.h); if let V::Tree(n) = x { n.hash(&mut self.h) } }
                }
            }
            fn iter(&mut self, i: &Iter) {
                std::mem::discriminant(i).hash(&mut self.h);
                match i {
                    Iter::Seq(x) => { x.len().hash(&mut self.h); for v in x { self.go(v) } }
                    Iter::Range(a, b, k) => { self.go(a); self.go(b); k.hash(&mut self.h) }
                    x => format!("{x:?}").hash(&mut self.h),
                }
            }
        }
        let mut s = St { it: self, h: Default::default(), seen: HashMap::new(), room: 200_000 };
        for v in vs { s.go(v) }
        let mut k: Vec<usize> = self.statics.values().copied().collect(); k.sort(); for a in k { s.cell(a) }
        let mut k: Vec<&usize> = self.host.keys().collect(); k.sort(); for a in k { for v in &self.host[a] { s.go(v) } }
        (self.tree.nodes.len(), self.tree.nodes.iter().map(|n| n.alts.len() + n.children.is_some() as usize).sum::<usize>(), self.memo.len(), self.facts.len(), self.forced.len(), self.text_eq.len()).hash(&mut s.h);
        // a state too large to be compared is like no other
        if s.room == 0 { return self.steps as u64 ^ 0xdead_0000_0000_0000 }
        s.h.finish()
    }
    // ---------- memory
    pub fn alloc(&mut self, v: V) -> usize { self.heap.push(v); self.heap.len() - 1 }
    pub fn ptr_to(&mut self, v: V) -> V { let a = self.alloc(v); V::Ptr(a, Rc::new(vec![])) }
    fn cell(&self, a: usize) -> R<&V> { if a >= STK { self.stack.get(a - STK).ok_or(Exit::Unsup("dangling".into())) } else { Ok(&self.heap[a]) } }
    fn cell_mut(&mut self, a: usize) -> R<&mut V> { if a >= STK { self.stack.get_mut(a - STK).ok_or(Exit::Unsup("dangling".into())) } else { Ok(&mut self.heap[a]) } }
    pub fn get(&mut self, a: usize, path: &[u32]) -> R<V> {
        'again: loop {
            let mut v = self.cell(a)?;
            for (d, i) in path.iter().enumerate() {
                let i = *i as usize;
                match v {
                    V::Agg(_, f) | V::Vec(f) => { match f.get(i) { Some(x) => v = x, None => { if matches!(v, V::Agg(..)) { return Ok(V::Undef) } return unsup("index beyond") } } }
                    V::Map(f) => match f.get(i) { Some(x) => v = &x.1, None => return unsup("map entry") },
                    V::Ptr(..) | V::Slice(..) | V::Dyn(..) | V::Int(_) | V::Str(_) | V::Ext(..) | V::Iter(_) => {}
                    V::Top(s) => { let s = s.clone(); let rest: String = path[d..].iter().map(|x| format!(".{x}")).collect(); return Ok(V::top(format!("{s}{rest}"))) }
                    V::Undef => return Ok(V::Undef),
                    V::Lazy(l) => { let l = l.clone(); self.force_at(a, &path[..d].to_vec(), l)?; continue 'again }
                    x => { let t = term(x); return unsup(format!("field of {t}")) }
                }
            }
            return Ok(v.clone());
        }
    }
    pub fn slot(&mut self, a: usize, path: &[u32]) -> R<&mut V> {
        // force lazies on the way
        loop {
            let mut lazy = None;
            { let mut v = self.cell(a)?; for (d, i) in path.iter().enumerate() { let i = *i as usize; match v { V::Agg(_, f) | V::Vec(f) => match f.get(i) { Some(x) => v = x, None => break }, V::Map(f) => match f.get(i) { Some(x) => v = &x.1, None => break }, V::Lazy(l) => { lazy = Some((l.clone(), d)); break } _ => break } } }
            match lazy { Some((l, d)) => self.force_at(a, &path[..d].to_vec(), l)?, None => break }
        }
        let mut v = self.cell_mut(a)?;
        for i in path {
            let i = *i as usize;
            if matches!(v, V::Undef | V::Top(_)) { *v = V::agg(0, vec![]) }
            match v {
                V::Agg(_, f) => { let f = Rc::make_mut(f); while f.len() <= i { f.push(V::Undef) } v = &mut f[i] }
                V::Vec(f) => { let f = Rc::make_mut(f); if i >= f.len() { return unsup("store beyond") } v = &mut f[i] }
                V::Map(f) => { let f = Rc::make_mut(f); v = &mut f[i].1 }
                _ => {}
            }
        }
        Ok(v)
    }
    pub fn set(&mut self, a: usize, path: &[u32], x: V) -> R<()> { *self.slot(a, path)? = x; Ok(()) }
    fn force_at(&mut self, a: usize, path: &[u32], l: Rc<LazyV>) -> R<()> {
        let v = self.force(&l)?;
        *self.slot_raw(a, path)? = v; Ok(())
    }
    fn slot_raw(&mut self, a: usize, path: &[u32]) -> R<&mut V> {
        let mut v = self.cell_mut(a)?;
        for i in path { let i = *i as usize; match v { V::Agg(_, f) | V::Vec(f) => { let f = Rc::make_mut(f); v = &mut f[i] } V::Map(f) => { let f = Rc::make_mut(f); v = &mut f[i].1 } _ => {} } }
        Ok(v)
    }
    pub fn force(&mut self, l: &Rc<LazyV>) -> R<V> {
        if let Some(v) = self.forced.get(&l.id) { return Ok(v.clone()) }
        let v = self.enter(l.inst, l.args.clone())?;
        self.forced.insert(l.id, v.clone()); Ok(v)
    }
    pub fn strong(&mut self, v: V) -> R<V> { match v { V::Lazy(l) => self.force(&l), x => Ok(x) } }
    /// Read through every level of reference.
    pub fn deref(&mut self, v: &V) -> R<V> {
        let mut v = v.clone();
        loop { match &v { V::Ptr(a, p) => { let p = p.clone(); v = self.get(*a, &p)? } V::Dyn(x, _) => v = (**x).clone(), _ => return Ok(v) } }
    }
    pub fn load(&mut self, v: &V) -> R<V> { match v { V::Ptr(a, p) => { let p = p.clone(); self.get(*a, &p) } V::Dyn(x, _) => { let x = (**x).clone(); self.load(&x) } x => Ok(x.clone()) } }
    pub fn store(&mut self, p: &V, x: V) -> R<()> { match self.last_ptr(p)? { V::Ptr(a, q) => self.set(a, &q, x), o => unsup(format!("store through {}", term(&o))) } }
    /// Innermost pointer in a chain of references.
    pub fn last_ptr(&mut self, v: &V) -> R<V> {
        let mut cur = v.clone();
        loop {
            if let V::Dyn(x, _) = &cur { cur = (**x).clone(); continue }
            let n = self.load(&cur)?;
            match n { V::Ptr(..) if matches!(cur, V::Ptr(..)) => cur = n, V::Dyn(..) => cur = n, _ => return Ok(cur) }
        }
    }
    pub fn str_of(&mut self, v: &V) -> R<AStr> {
        match self.deref(v)? {
            V::Str(a) => Ok(a),
            V::Top(s) => Ok(Rc::new(vec![Part::Unk(s)])),
            x => unsup(format!("text of {}", term(&x))),
        }
    }
    /// (allocation, path, start, len) of a slice-like pointer.
    pub fn slice(&mut self, v: &V) -> R<(usize, Rc<Vec<u32>>, usize, usize)> {
        let p = match v { V::Slice(a, p, s, l) => return Ok((*a, p.clone(), *s, *l)), V::Vec(_) => self.ptr_to(v.clone()), x => x.clone() };
        if let V::Ptr(a, p) = &p {
            let inner = self.get(*a, p)?;
            match inner { V::Vec(x) => return Ok((*a, p.clone(), 0, x.len())), V::Ptr(..) | V::Slice(..) => return self.slice(&inner), V::Undef => return unsup("slice of undefined"), x => return unsup(format!("slice of {}", term(&x))) }
        }
        unsup(format!("slice of {}", term(&p)))
    }
    pub fn elem(a: usize, p: &Rc<Vec<u32>>, i: usize) -> V { let mut q = (**p).clone(); q.push(i as u32); V::Ptr(a, Rc::new(q)) }
    pub fn elem_ptrs(&mut self, v: &V) -> R<Vec<V>> { let (a, p, s, l) = self.slice(v)?; Ok((s..s + l).map(|i| Self::elem(a, &p, i)).collect()) }
    pub fn elems(&mut self, v: &V) -> R<Vec<V>> { let ps = self.elem_ptrs(v)?; let mut o = vec![]; for p in ps { o.push(self.load(&p)?) } Ok(o) }
    pub fn vec_mut<T>(&mut self, p: &V, f: impl FnOnce(&mut Vec<V>) -> T) -> R<T> {
        match self.last_ptr(p)? { V::Ptr(a, q) => match self.slot(a, &q)? { V::Vec(x) => Ok(f(Rc::make_mut(x))), x => { let t = term(x); unsup(format!("vec op on {t}")) } }, x => unsup(format!("vec op through {}", term(&x))) }
    }
    // ---------- places
    fn place_loc(&mut self, base: usize, p: &Place) -> R<Loc> {
        let mut l = Loc::Mem(STK + base + p.local, vec![]);
        for e in &p.projection {
            l = match e {
                ProjectionElem::Deref => {
                    let v = match l { Loc::Mem(a, q) => self.get(a, &q)?, Loc::Val(v) => v, Loc::Sl(a, p, s, n) => V::Slice(a, p, s, n) };
                    self.deref_loc(v)?
                }
                ProjectionElem::Field(i, _) => match l {
                    Loc::Mem(a, mut q) => { q.push(*i as u32); Loc::Mem(a, q) }
                    Loc::Val(v) => { let a = self.alloc(v); Loc::Mem(a, vec![*i as u32]) }
                    Loc::Sl(..) => return unsup("field of slice"),
                },
                ProjectionElem::Downcast(_) | ProjectionElem::OpaqueCast(_) => l,
                ProjectionElem::Index(x) => {
                    let i = match self.get(STK + base + x, &[])? { V::Int(i) => i as usize, o => return unsup(format!("index {}", term(&o))) };
                    self.index_loc(l, i, false)?
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => self.index_loc(l, *offset as usize, *from_end)?,
                ProjectionElem::Subslice { from, to, from_end } => {
                    let (a, p, s, n) = self.loc_slice(l)?;
                    let end = if *from_end { n - *to as usize } else { *to as usize };
                    Loc::Sl(a, p, s + *from as usize, end - *from as usize)
                }
            };
        }
        Ok(l)
    }
    fn deref_loc(&mut self, v: V) -> R<Loc> {
        Ok(match v {
            V::Ptr(a, q) => Loc::Mem(a, (*q).clone()),
            V::Slice(a, p, s, n) => Loc::Sl(a, p, s, n),
            V::Dyn(x, _) => return self.deref_loc(*x),
            V::Undef => return unsup("deref of undefined"),
            x => Loc::Val(x),
        })
    }
    fn loc_slice(&mut self, l: Loc) -> R<(usize, Rc<Vec<u32>>, usize, usize)> {
        match l { Loc::Sl(a, p, s, n) => Ok((a, p, s, n)), Loc::Mem(a, q) => self.slice(&V::Ptr(a, Rc::new(q))), Loc::Val(v) => self.slice(&v) }
    }
    fn index_loc(&mut self, l: Loc, i: usize, from_end: bool) -> R<Loc> {
        let (a, p, s, n) = self.loc_slice(l)?;
        let i = if from_end { n - i } else { i };
        if i >= n { return Err(Exit::Panic("index out of bounds".into())) }
        let mut q = (*p).clone(); q.push((s + i) as u32); Ok(Loc::Mem(a, q))
    }
    fn read_loc(&mut self, l: Loc) -> R<V> { match l { Loc::Mem(a, q) => self.get(a, &q), Loc::Val(v) => Ok(v), Loc::Sl(a, p, s, n) => Ok(V::Slice(a, p, s, n)) } }
    fn read_place(&mut self, base: usize, p: &Place) -> R<V> { if p.projection.is_empty() { return Ok(self.stack[base + p.local].clone()) } let l = self.place_loc(base, p)?; self.read_loc(l) }
    fn write_place(&mut self, base: usize, p: &Place, v: V) -> R<()> {
        if p.projection.is_empty() { self.stack[base + p.local] = v; return Ok(()) }
        match self.place_loc(base, p)? { Loc::Mem(a, q) => self.set(a, &q, v), Loc::Val(x) => unsup(format!("write through {}", term(&x))), Loc::Sl(..) => unsup("write slice") }
    }
    fn ref_place(&mut self, base: usize, p: &Place) -> R<V> {
        Ok(match self.place_loc(base, p)? {
            Loc::Mem(a, q) => {
                // a reference to unsized text is the text itself
                if !q.is_empty() || !p.projection.is_empty() { if let Some(ProjectionElem::Deref) = p.projection.last() { return Ok(V::Ptr(a, Rc::new(q))) } }
                V::Ptr(a, Rc::new(q))
            }
            Loc::Val(v) => v,
            Loc::Sl(a, q, s, n) => V::Slice(a, q, s, n),
        })
    }
    pub fn operand(&mut self, base: usize, o: &Operand) -> R<V> {
        match o {
            Operand::Copy(p) => self.read_place(base, p),
            Operand::Move(p) => { if p.projection.is_empty() { Ok(std::mem::replace(&mut self.stack[base + p.local], V::Undef)) } else { let v = self.read_place(base, p)?; if matches!(&v, V::Ext(n, _) if &**n == "chan") { self.write_place(base, p, V::Undef)? } Ok(v) } }
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(_) => Ok(V::Int(0)),
        }
    }
    // ---------- constants
    pub fn constant(&mut self, c: &MirConst) -> R<V> {
        match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, c.ty()),
            ConstantKind::ZeroSized => self.zst(c.ty()),
            ConstantKind::Ty(t) => match t.kind() { TyConstKind::Value(ty, a) => self.decode(a, 0, *ty), TyConstKind::ZSTValue(ty) => self.zst(*ty), x => unsup(format!("const {x:?}")) },
            x => unsup(format!("constant {x:?}")),
        }
    }
    pub fn zst(&mut self, t: Ty) -> R<V> {
        Ok(match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) { Ok(i) => V::Fn(i), Err(_) => V::unit() },
            TyKind::RigidTy(RigidTy::Array(..)) => V::vec(vec![]),
            _ => V::unit(),
        })
    }
    fn raw_int(a: &Allocation, off: usize, n: usize) -> R<u128> {
        let mut v = 0u128;
        for i in 0..n { match a.bytes.get(off + i) { Some(Some(b)) => v |= (*b as u128) << (8 * i), _ => return unsup("uninit const") } }
        Ok(v)
    }
    pub fn decode(&mut self, al: &Allocation, off: usize, ty: Ty) -> R<V> {
        let TyKind::RigidTy(k) = ty.kind() else { return unsup("const type") };
        let size = |t: Ty| -> R<usize> { t.layout().map(|l| l.shape().size.bytes()).map_err(|e| Exit::Unsup(format!("{e:?}"))) };
        Ok(match &k {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => V::Int(Self::raw_int(al, off, size(ty)?)? as i128),
            RigidTy::Int(_) => { let n = size(ty)?; let r = Self::raw_int(al, off, n)?; let sh = 128 - 8 * n as u32; V::Int(((r << sh) as i128) >> sh) }
            RigidTy::Float(_) => V::top("float"),
            RigidTy::FnDef(..) => self.zst(ty)?,
            RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => {
                let Some((_, pr)) = al.provenance.ptrs.iter().find(|x| x.0 == off) else { return Ok(V::top("rawptr")) };
                let boff = Self::raw_int(al, off, 8)? as usize;
                let ga = GlobalAlloc::from(pr.0);
                let TyKind::RigidTy(pt) = t.kind() else { return unsup("const ptr") };
                match ga {
                    GlobalAlloc::Memory(m) => match &pt {
                        RigidTy::Str => { let n = Self::raw_int(al, off + 8, 8)? as usize; let b: Vec<u8> = m.bytes[boff..boff + n].iter().map(|x| x.unwrap_or(b'?')).collect(); V::lit(&String::from_utf8_lossy(&b)) }
                        RigidTy::Slice(e) => { let n = Self::raw_int(al, off + 8, 8)? as usize; let es = size(*e)?; let mut v = vec![]; for i in 0..n { v.push(self.decode(&m, boff + i * es, *e)?) } self.ptr_to(V::vec(v)) }
                        RigidTy::Dynamic(..) => return unsup("const dyn"),
                        _ => { let v = self.decode(&m, boff, *t)?; self.ptr_to(v) }
                    },
                    GlobalAlloc::Static(s) => V::Ptr(self.static_cell(s)?, Rc::new(vec![])),
                    GlobalAlloc::Function(i) => V::Fn(i),
                    x => return unsup(format!("const alloc {x:?}")),
                }
            }
            RigidTy::FnPtr(_) => {
                let Some((_, pr)) = al.provenance.ptrs.iter().find(|x| x.0 == off) else { return Ok(V::top("fnptr")) };
                match GlobalAlloc::from(pr.0) { GlobalAlloc::Function(i) => V::Fn(i), x => return unsup(format!("const fn {x:?}")) }
            }
            RigidTy::Array(e, n) => { let n = n.eval_target_usize().map_err(|e| Exit::Unsup(format!("{e:?}")))? as usize; let es = size(*e)?; let mut v = vec![]; for i in 0..n { v.push(self.decode(al, off + i * es, *e)?) } V::vec(v) }
            RigidTy::Tuple(ts) => {
                let sh = ty.layout().map_err(|e| Exit::Unsup(format!("{e:?}")))?.shape();
                let rustc_public::abi::FieldsShape::Arbitrary { offsets } = sh.fields else { return Ok(V::unit()) };
                let mut v = vec![]; for (i, t) in ts.iter().enumerate() { v.push(self.decode(al, off + offsets[i].bytes(), *t)?) } V::agg(0, v)
            }
            RigidTy::Adt(d, args) => {
                let nm = d.name();
                if nm.ends_with("::String") || nm.ends_with("string::String") { return Ok(V::lit("")) }
                if nm.ends_with("vec::Vec") { return Ok(V::vec(vec![])) }
                let sh = ty.layout().map_err(|e| Exit::Unsup(format!("{e:?}")))?.shape();
                use rustc_public::abi::*;
                let (idx, offs): (usize, Vec<usize>) = match &sh.variants {
                    VariantsShape::Empty => return unsup("uninhabited const"),
                    VariantsShape::Single { index } => (index.to_index(), match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(), FieldsShape::Union(_) => { let f = &d.variants()[0].fields(); let mut best = None; for x in f.iter() { let t = x.ty_with_args(args); if size(t)? == sh.size.bytes() { best = Some(t) } } return match best { Some(t) => self.decode(al, off, t), None => Ok(V::Undef) } } _ => vec![] }),
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => 0 };
                        let (prim_ptr, tsz) = match tag { Scalar::Initialized { value, .. } | Scalar::Union { value } => match value { Primitive::Int { length, .. } => (false, length.bits() / 8), Primitive::Pointer(_) => (true, 8), _ => (false, 8) } };
                        let has_ptr = al.provenance.ptrs.iter().any(|x| x.0 == off + toff);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => { let t = Self::raw_int(al, off + toff, tsz)?; let mut r = 0; for (i, _) in d.variants().iter().enumerate() { let dv = d.discriminant_for_variant(VariantIdx::to_val(i)).val; if dv & mask(tsz) == t { r = i } } r }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if prim_ptr && has_ptr { untagged_variant.to_index() } else {
                                    let t = Self::raw_int(al, off + toff, tsz)?;
                                    let rel = t.wrapping_sub(*niche_start) & mask(tsz);
                                    let span = (niche_variants.end().to_index() - niche_variants.start().to_index()) as u128;
                                    if rel <= span { niche_variants.start().to_index() + rel as usize } else { untagged_variant.to_index() }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                    }
                };
                let vars = d.variants();
                let mut f = vec![];
                for (i, x) in vars[idx].fields().iter().enumerate() { let t = x.ty_with_args(args); let o = offs.get(i).copied().unwrap_or(0); f.push(if size(t)? == 0 { self.zst(t)? } else { self.decode(al, off + o, t)? }) }
                V::agg(idx as u32, f)
            }
            RigidTy::Closure(..) => V::unit(),
            x => return unsup(format!("const of {x:?}")),
        })
    }
    pub fn static_cell(&mut self, s: StaticDef) -> R<usize> {
        if let Some(a) = self.statics.get(&s) { return Ok(*a) }
        let v = match s.eval_initializer() { Ok(al) => self.decode(&al, 0, s.ty())?, Err(e) => return unsup(format!("static {e:?}")) };
        let a = self.alloc(v); self.statics.insert(s, a); Ok(a)
    }
    // ---------- calls
    /// Call a value that can be called; `t` is its static type.
    pub fn call_value(&mut self, f: &V, t: Ty, args: Vec<V>) -> R<V> {
        let TyKind::RigidTy(k) = t.kind() else { return unsup("callee type") };
        match k {
            RigidTy::FnDef(d, a) => match Instance::resolve(d, &a) { Ok(i) => self.call(i, args), Err(e) => unsup(format!("resolve {e:?}")) },
            RigidTy::Closure(d, a) => {
                let i = Instance::resolve_closure(d, &a, ClosureKind::Fn).map_err(|e| Exit::Unsup(format!("{e:?}")))?;
                let b = self.c.body(i).ok_or_else(|| Exit::Unsup("closure body".into()))?;
                let by_ref = matches!(b.locals()[1].ty.kind(), TyKind::RigidTy(RigidTy::Ref(..)));
                let me = match (by_ref, f) { (true, V::Ptr(..)) => f.clone(), (true, x) => self.ptr_to(x.clone()), (false, V::Ptr(..)) => { let v = self.load(f)?; if matches!(v, V::Agg(..)) { v } else { f.clone() } } (false, x) => x.clone() };
                let mut a = vec![me]; a.extend(args); self.enter(i, a)
            }
            RigidTy::FnPtr(_) => match f { V::Fn(i) => self.call(*i, args), V::ClosPtr(c, t) => { let (c, t) = ((**c).clone(), *t); self.call_value(&c, t, args) } x => unsup(format!("call of {}", term(x))) },
            RigidTy::Ref(_, t, _) => { if let V::Ptr(..) = f { if matches!(t.kind(), TyKind::RigidTy(RigidTy::Closure(..))) { return self.call_value(f, t, args) } let v = self.load(f)?; return self.call_value(&v, t, args) } self.call_value(f, t, args) }
            RigidTy::Adt(_, ga) => { if let Some(GenericArgKind::Type(t)) = ga.0.first() { let t = *t; return self.call_value(f, t, args) } unsup("call adt") }
            RigidTy::Dynamic(..) => match &self.deref(f)? { V::Dyn(x, t) => { let (x, t) = ((**x).clone(), *t); self.call_value(&x, t, args) } x => unsup(format!("call dyn {}", term(x))) },
            x => unsup(format!("call of type {x:?}")),
        }
    }
    pub fn is_local(i: Instance) -> bool { let k = i.def.krate().name; k == "sf_afmt" || k == "afmt" }
    pub fn fn_name(&self, i: Instance) -> Rc<str> {
        match i.ty().kind() { TyKind::RigidTy(RigidTy::FnDef(d, _)) => self.c.name(d), _ => i.name().as_str().into() }
    }
    pub fn call(&mut self, i: Instance, args: Vec<V>) -> R<V> {
        let name = self.fn_name(i);
        self.call_named(i, &name, args)
    }
    pub fn call_named(&mut self, i: Instance, name: &str, args: Vec<V>) -> R<V> {
        if let Some(h) = self.hooks.clone() { if let Some(r) = h(self, name, i, &args) { return r } }
        let local = Self::is_local(i);
        if local {
            if let Some(v) = self.local_call(i, name, &args)? { return Ok(v) }
            return self.enter(i, args);
        }
        let m = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.model(name, i, &args))).unwrap_or_else(|_| unsup(format!("model of {name}")));
        if let Some(v) = m? { return Ok(v) }
        *self.c.foreign.borrow_mut().entry(name.to_string()).or_insert(0) += 1;
        if i.kind == InstanceKind::Shim { if let Some(v) = self.shim(i, &args)? { return Ok(v) } }
        // library code without a model: analyse its body
        if self.c.body(i).is_some() && self.depth < 120 {
            let d = self.frames.len(); let st = self.stack.len(); let dep = self.depth;
            match self.enter(i, args) {
                Err(Exit::Unsup(e)) => { self.frames.truncate(d); self.stack.truncate(st); self.depth = dep; self.imprecise.push(format!("{name}: {e}")); return Ok(V::top(format!("{name}#{}", self.imprecise.len()))) }
                r => return r,
            }
        }
        self.imprecise.push(name.to_string());
        Ok(V::top(format!("{name}#{}", self.imprecise.len())))
    }
    fn shim(&mut self, _i: Instance, _args: &[V]) -> R<Option<V>> { Ok(None) }
    pub fn plain(v: &V) -> bool { match v { V::Int(_) => true, V::Str(s) => as_lit(s).is_some(), V::Agg(_, f) => f.iter().all(Self::plain), _ => false } }
    fn node_arg(&mut self, v: &V) -> Option<usize> { match v { V::Node(n) => Some(*n), V::Ptr(a, p) => { let p = p.clone(); match self.get(*a, &p) { Ok(V::Node(n)) => Some(n), _ => None } } _ => None } }
    pub fn returns_doc(&self, i: Instance) -> bool {
        let Some(b) = self.c.body(i) else { return false };
        match b.ret_local().ty.kind() { TyKind::RigidTy(RigidTy::Adt(d, _)) => self.c.doc_adts.contains(&d), _ => false }
    }
    fn local_call(&mut self, i: Instance, name: &str, args: &[V]) -> R<Option<V>> {
        // methods of the document-building trait on a child that is represented by its contract
        if name.contains("DocBuild::") && !args.is_empty() {
            let p = self.last_ptr(&args[0])?;
            let v = self.load(&p)?;
            if let V::Lazy(l) = v {
                if args.len() == 2 { return Ok(Some(self.ptr_to(V::Built(l)))) }
                if args.len() == 3 { let d = self.ptr_to(V::Built(l)); self.vec_mut(&args[2], |x| x.push(d))?; return Ok(Some(V::unit())) }
            }
        }
        if self.collector.is_none() && args.len() >= 2 && !self.cmap_ready {
            let (mut ci, mut mi, mut ok) = (None, None, true);
            for (k, a) in args.iter().enumerate() { match self.deref(a) { Ok(V::Cursor(..)) | Ok(V::Node(_)) => if ci.is_none() { ci = Some(k) } else { ok = false }, Ok(V::Map(_)) => mi = Some(k), _ => ok &= Self::plain(a) } }
            if let (Some(c), Some(m), true) = (ci, mi, ok) { self.collector = Some((i, args.to_vec(), c, m)) }
        }
        if self.cut && !args.is_empty() && self.returns_doc(i) {
            let mut node = None; let mut ok = true;
            for a in args { match self.node_arg(a) { Some(n) if node.is_none() => node = Some(n), Some(_) => ok = false, None => ok &= Self::plain(a) } }
            if let (Some(n), true) = (node, ok) {
                let inside = match self.root { None => true, Some(r) => (n != r || (self.cut_same && self.root_inst.is_some_and(|x| x != i))) && self.tree.is_ancestor(r, n) };
                if inside {
                    let key: S = format!("{}{}", self.c_key(i), args.iter().filter(|a| !matches!(a, V::Node(_) | V::Ptr(..))).map(|a| format!("[{}]", term(a))).collect::<String>()).as_str().into();
                    if self.c.inline.borrow().contains(&*key) { return Ok(None) }
                    let l = Rc::new(LazyV { id: self.lazies.len(), inst: i, args: args.to_vec(), node: n, key });
                    self.lazies.push(l.clone());
                    return Ok(Some(V::Lazy(l)));
                }
            }
        }
        Ok(None)
    }
    pub fn c_key(&self, i: Instance) -> String { i.name().to_string().replace("sf_afmt::", "") }
    pub fn enter(&mut self, i: Instance, args: Vec<V>) -> R<V> {
        let Some(b) = self.c.body(i) else { return unsup(format!("no body: {}", i.name())) };
        if self.depth > 120 {
            let s = self.shape_of(&args);
            while self.deep.last().is_some_and(|x| x.0 >= self.depth) { self.deep.pop(); }
            if Self::is_local(i) && self.deep.iter().any(|x| x.1 == self.taken.len() && x.2 == s && x.3 == i) { return Err(Exit::Endless(format!("{} calls itself", self.fn_name(i)))) }
            self.deep.push((self.depth, self.taken.len(), s, i));
        }
        if self.depth > 260 { return unsup("recursion depth") }
        if Self::is_local(i) { let n = self.fn_name(i); if !self.c.analysed_fns.borrow().contains(&*n) { self.c.analysed_fns.borrow_mut().insert(n.to_string()); } self.frames.push(n) } else { self.frames.push("lib".into()) }
        self.depth += 1;
        let base = self.stack.len();
        let n = b.locals().len();
        self.stack.resize(base + n, V::Undef);
        let argc = b.arg_locals().len();
        if let (Some(_), true) = (b.spread_arg(), true) {
            // (self, (args...)) received as separate values
            let lead = argc - 1;
            let arity = match b.locals()[argc].ty.kind() { TyKind::RigidTy(RigidTy::Tuple(t)) => t.len(), _ => 1 };
            let mut args = args;
            // a captureless closure reached through a function pointer
            if args.len() + 1 == lead + arity { args.insert(0, V::unit()) }
            let mut it = args.into_iter();
            for k in 0..lead { if let Some(v) = it.next() { self.stack[base + 1 + k] = v } }
            let rest: Vec<V> = it.collect();
            self.stack[base + argc] = V::agg(0, rest);
        } else {
            if args.len() != argc {
                // closure called with a tuple
                if args.len() == 2 { if let V::Agg(_, f) = &args[1] { if f.len() + 1 == argc { self.stack[base + 1] = args[0].clone(); for (k, v) in f.iter().enumerate() { self.stack[base + 2 + k] = v.clone() } } else { return unsup("arity") } } else { return unsup("arity") } }
                else { return unsup(format!("arity of {} {} {}", i.name(), args.len(), argc)) }
            } else { for (k, v) in args.into_iter().enumerate() { self.stack[base + 1 + k] = v } }
        }
        let r = self.run(i, b, base);
        if r.is_ok() || !matches!(r, Err(Exit::Panic(_))) { /* keep */ }
        let ret = if r.is_ok() { std::mem::replace(&mut self.stack[base], V::Undef) } else { V::Undef };
        self.stack.truncate(base);
        self.depth -= 1; self.frames.pop();
        r.map(|_| ret)
    }
    fn run(&mut self, inst: Instance, b: &'static Body, base: usize) -> R<()> {
        let mut bb = 0usize;
        // a loop that comes back to a state it was in, without a decision in between, does not end
        let (mut turns, mut mark) = (0usize, (usize::MAX, 0, 0u64));
        loop {
            self.steps += 1; turns += 1;
            if self.taken.len() != self.chosen.0 { self.chosen = (self.taken.len(), self.steps) }
            if self.steps > self.max_steps { return Err(if self.steps - self.chosen.1 > self.max_steps / 2 { self.c.endless.set(self.c.endless.get() + 1); Exit::Endless(format!("{} never gets done", self.fn_name(inst))) } else { Exit::Budget }) }
            if turns >= 1024 && (turns.is_power_of_two() || mark.0 == bb && mark.1 == self.taken.len()) {
                let s = self.shape_of(&self.stack[base..base + b.locals().len()]);
                if mark == (bb, self.taken.len(), s) { return Err(Exit::Endless(format!("a loop in {}", self.fn_name(inst)))) }
                if turns.is_power_of_two() { mark = (bb, self.taken.len(), s) }
            }
            let blk = &b.blocks[bb];
            for s in &blk.statements {
                match &s.kind {
                    StatementKind::Assign(p, rv) => { let v = self.rvalue(base, b, rv)?; self.write_place(base, p, v)? }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let v = self.read_place(base, place)?;
                        let f = match v { V::Agg(_, f) => (*f).clone(), _ => vec![] };
                        self.write_place(base, place, V::agg(variant_index.to_index() as u32, f))?
                    }
                    _ => {}
                }
            }
            match &blk.terminator.kind {
                TerminatorKind::Goto { target } => bb = *target,
                TerminatorKind::Return => return Ok(()),
                TerminatorKind::Unreachable => return Err(Exit::Infeasible),
                TerminatorKind::Resume | TerminatorKind::Abort => return Err(Exit::Panic("resume".into())),
                TerminatorKind::Drop { target, place, .. } => { if self.alive[0] > 0 { if let Ok(v) = self.read_place(base, place) { if Self::sender(&v, None, 0) { self.write_place(base, place, V::Undef)? } } } bb = *target }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let c = self.operand(base, cond)?;
                    // arithmetic/bounds assertions on unknown values are assumed to hold
                    // (sizes stay far below the limits of their types), except that a difference can be negative
                    match c { V::Int(x) => { if (x != 0) != *expected { return Err(Exit::Panic(format!("assertion {msg:?}"))) } } V::Top(ref s) if s.contains(" < ") && matches!(msg, AssertMessage::Overflow(BinOp::Sub, ..)) => { if self.truth(&c)? != *expected { return Err(Exit::Panic(format!("subtraction underflow {s}"))) } } _ => {} }
                    bb = *target
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v = self.operand(base, discr)?;
                    bb = self.switch(&v, targets)?;
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(b.locals()).map_err(|e| Exit::Unsup(format!("{e:?}")))?;
                    let mut av = Vec::with_capacity(args.len());
                    for a in args { av.push(self.operand(base, a)?) }
                    let got = self.c.targets.borrow().get(&fty).cloned();
                    let tgt = match got { Some(t) => t, None => {
                        let t = match fty.kind() { TyKind::RigidTy(RigidTy::FnDef(d, ga)) => Instance::resolve(d, &ga).ok().map(|i| (i, self.c.name(d))), _ => None };
                        self.c.targets.borrow_mut().insert(fty, t.clone()); t
                    } };
                    let r = match tgt {
                        Some((_, n)) if n.ends_with("FnOnce::call_once") || n.ends_with("FnMut::call_mut") || n.ends_with("ops::Fn::call") => {
                            let TyKind::RigidTy(RigidTy::FnDef(_, ga)) = fty.kind() else { return unsup("callable") };
                            let Some(GenericArgKind::Type(ft)) = ga.0.first().cloned() else { return unsup("callable") };
                            let tupled = av.len() == 2 && matches!((args[1].ty(b.locals()), ga.0.get(1)), (Ok(t), Some(GenericArgKind::Type(u))) if t == *u);
                            let inner = if !tupled { av[1..].to_vec() } else { match &av[1] { V::Agg(_, f) => (**f).clone(), x => return unsup(format!("call arguments {}", term(x))) } };
                            let f = av[0].clone();
                            self.call_value(&f, ft, inner)?
                        }
                        Some((i, n)) => self.call_named_dyn(i, &n, av, fty)?,
                        None => { let f = self.operand(base, func)?; self.call_value(&f, fty, av)? }
                    };
                    let Some(t) = target else { return Err(Exit::Panic(format!("diverging call in {}", inst.name()))) };
                    self.write_place(base, destination, r)?;
                    bb = *t;
                }
                TerminatorKind::InlineAsm { .. } => return unsup("asm"),
            }
        }
    }
    fn call_named_dyn(&mut self, i: Instance, name: &str, args: Vec<V>, fty: Ty) -> R<V> {
        if let InstanceKind::Virtual { .. } = i.kind {
            // dynamic dispatch: substitute the concrete type behind the object
            let mut o = args[0].clone();
            while let V::Ptr(..) = o { o = self.load(&o)? }
            if let V::Dyn(inner, t) = o {
                if let TyKind::RigidTy(RigidTy::FnDef(d, ga)) = fty.kind() {
                    let mut g = ga.clone(); g.0[0] = GenericArgKind::Type(t);
                    if let Ok(ni) = Instance::resolve(d, &g) { let mut a = args; a[0] = (*inner).clone(); return self.call_named(ni, name, a) }
                }
            }
            return unsup(format!("virtual call {name}"));
        }
        self.call_named(i, name, args)
    }
    fn switch(&mut self, v: &V, t: &SwitchTargets) -> R<usize> {
        match v {
            V::Int(i) => {
                for (val, bb) in t.branches() { if val as i128 == *i || (*i < 0 && ((*i as u128) & 0xff == val || (*i as u128) & 0xffff_ffff == val || (*i as u128) & 0xffff_ffff_ffff_ffff == val)) { return Ok(bb) } }
                Ok(t.otherwise())
            }
            V::Top(s) => {
                let br: Vec<(u128, usize)> = t.branches().collect();
                if br.len() == 1 && br[0].0 == 0 { return Ok(if self.truth(v)? { t.otherwise() } else { br[0].1 }) }
                let key = format!("{s}@{}", br.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(","));
                let d = self.choose_memo(&key, br.len() + 1)?;
                Ok(if d < br.len() { br[d].1 } else { t.otherwise() })
            }
            x => unsup(format!("switch on {}", term(x))),
        }
    }
    // ---------- rvalues
    fn rvalue(&mut self, base: usize, b: &'static Body, rv: &Rvalue) -> R<V> {
        Ok(match rv {
            Rvalue::Use(o, _) => self.operand(base, o)?,
            Rvalue::CopyForDeref(p) => self.read_place(base, p)?,
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => self.ref_place(base, p)?,
            Rvalue::Aggregate(k, ops) => {
                let mut v = Vec::with_capacity(ops.len());
                for o in ops { v.push(self.operand(base, o)?) }
                match k {
                    AggregateKind::Array(_) => V::vec(v),
                    AggregateKind::Adt(_, idx, _, _, uf) => { if let Some(f) = uf { let mut x = vec![V::Undef; *f]; x.push(v.pop().unwrap()); return Ok(V::agg(0, x)) } V::agg(idx.to_index() as u32, v) }
                    AggregateKind::RawPtr(..) => { let meta = v.pop(); let p = v.pop().unwrap(); match (p, meta) { (V::Ptr(a, q), Some(V::Int(n))) => { let mut q2 = (*q).clone(); if let Some(s) = q2.pop() { if matches!(self.get(a, &q2), Ok(V::Vec(_))) { return Ok(V::Slice(a, Rc::new(q2), s as usize, n as usize)) } } V::Slice(a, q, 0, n as usize) } (p, _) => p } }
                    _ => V::agg(0, v),
                }
            }
            Rvalue::Discriminant(p) => {
                let mut v = self.read_place(base, p)?;
                if let V::Lazy(l) = &v { let l = l.clone(); let f = self.force(&l)?; self.write_place(base, p, f.clone())?; v = f }
                let t = p.ty(b.locals()).map_err(|e| Exit::Unsup(format!("{e:?}")))?;
                match v {
                    V::Agg(i, _) => match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum => { let x = d.discriminant_for_variant(VariantIdx::to_val(i as usize)); V::Int(x.val as i128) } _ => V::Int(0) },
                    V::Top(s) => {
                        // split over the variants of the type
                        let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() else { return unsup("discriminant") };
                        let vs = d.variants();
                        let i = self.choose_memo(&format!("variant of {s}"), vs.len())?;
                        let f: Vec<V> = (0..vs[i].fields().len()).map(|k| V::top(format!("{s}.{}.{k}", vs[i].name()))).collect();
                        self.write_place(base, p, V::agg(i as u32, f))?;
                        V::Int(d.discriminant_for_variant(VariantIdx::to_val(i)).val as i128)
                    }
                    V::Int(i) => V::Int(i),
                    V::Iter(_) | V::Ptr(..) | V::Str(_) => V::Int(1),
                    x => return unsup(format!("discriminant of {}", term(&x))),
                }
            }
            Rvalue::Len(p) => { let l = self.place_loc(base, p)?; let (_, _, _, n) = self.loc_slice(l)?; V::Int(n as i128) }
            Rvalue::Repeat(o, n) => { let v = self.operand(base, o)?; let n = n.eval_target_usize().map_err(|e| Exit::Unsup(format!("{e:?}")))?; if n > 4096 { return unsup("big array") } V::vec(vec![v; n as usize]) }
            Rvalue::ThreadLocalRef(it) => { let s: StaticDef = (*it).try_into().map_err(|_| Exit::Unsup("thread local".into()))?; self.tls.insert(s); V::Ptr(self.static_cell(s)?, Rc::new(vec![])) }
            Rvalue::BinaryOp(op, x, y) => { let (x, y) = (self.operand(base, x)?, self.operand(base, y)?); self.binop(*op, x, y)? }
            Rvalue::CheckedBinaryOp(op, x, y) => { let (x, y) = (self.operand(base, x)?, self.operand(base, y)?); let v = self.binop(*op, x.clone(), y.clone())?; let o = match &v { V::Int(i) => V::b(*i < 0), _ if matches!(op, BinOp::Sub) => self.binop(BinOp::Lt, x, y)?, _ => V::top("overflow") }; let o = if let V::Int(1) = o { V::b(false) } else { o }; V::agg(0, vec![v, o]) }
            Rvalue::UnaryOp(op, x) => {
                let v = self.operand(base, x)?;
                match (op, v) {
                    (UnOp::Not, V::Int(i)) => { let t = x.ty(b.locals()).ok().map(|t| t.kind()); if matches!(t, Some(TyKind::RigidTy(RigidTy::Bool))) { V::b(i == 0) } else { V::Int(!i) } }
                    (UnOp::Not, V::Top(s)) => match s.strip_prefix('!') { Some(r) => V::top(r), None => V::top(format!("!{s}")) },
                    (UnOp::Neg, V::Int(i)) => V::Int(-i),
                    (UnOp::PtrMetadata, p) => match p { V::Str(s) => self.str_len(&s), V::Slice(_, _, _, n) => V::Int(n as i128), q => { let (_, _, _, n) = self.slice(&q)?; V::Int(n as i128) } },
                    (_, v) => V::top(format!("un({})", term(&v))),
                }
            }
            Rvalue::Cast(k, o, ty) => {
                let v = self.operand(base, o)?;
                let from = o.ty(b.locals()).map_err(|e| Exit::Unsup(format!("{e:?}")))?;
                match k {
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => v,
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => V::ClosPtr(Box::new(v), from),
                    CastKind::PointerCoercion(PointerCoercion::Unsize) => self.unsize(v, from, *ty),
                    CastKind::IntToInt => match v { V::Int(i) => V::Int(wrap(i, *ty)), x => x },
                    _ => v,
                }
            }
        })
    }
    fn unsize(&mut self, v: V, from: Ty, to: Ty) -> V {
        fn pointee(t: Ty) -> Option<Ty> { match t.kind() { TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t), TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().find_map(|x| if let GenericArgKind::Type(t) = x { Some(*t) } else { None }), _ => None } }
        if let (Some(f), Some(t)) = (pointee(from), pointee(to)) { if matches!(t.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) && !matches!(f.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) { return V::Dyn(Box::new(v), f) } }
        v
    }
    pub fn binop(&mut self, op: BinOp, x: V, y: V) -> R<V> {
        use BinOp::*;
        if let (V::Int(a), V::Int(b)) = (&x, &y) {
            let (a, b) = (*a, *b);
            return Ok(match op {
                Add | AddUnchecked => V::Int(a + b), Sub | SubUnchecked => V::Int(a - b), Mul | MulUnchecked => V::Int(a * b),
                Div => if b == 0 { return Err(Exit::Panic("div by zero".into())) } else { V::Int(a / b) }, Rem => if b == 0 { return Err(Exit::Panic("rem by zero".into())) } else { V::Int(a % b) },
                BitXor => V::Int(a ^ b), BitAnd => V::Int(a & b), BitOr => V::Int(a | b), Shl | ShlUnchecked => V::Int(a << (b & 63)), Shr | ShrUnchecked => V::Int(a >> (b & 63)),
                Eq => V::b(a == b), Ne => V::b(a != b), Lt => V::b(a < b), Le => V::b(a <= b), Gt => V::b(a > b), Ge => V::b(a >= b),
                Cmp => V::Int(a.cmp(&b) as i128), Offset => V::Int(a + b),
            });
        }
        if let (true, Some(a), Some(b)) = (matches!(x, V::Lin(_)) || matches!(y, V::Lin(_)), Lin::of(&x), Lin::of(&y)) {
            let (d, e) = (a.plus(&b, -1), b.plus(&a, -1)); let one = Lin::int(1);
            return Ok(match op {
                Add | AddUnchecked => a.plus(&b, 1).value(), Sub | SubUnchecked => d.value(),
                Le => V::b(self.at_least(&e)?), Lt => V::b(self.at_least(&e.plus(&one, -1))?), Ge => V::b(self.at_least(&d)?), Gt => V::b(self.at_least(&d.plus(&one, -1))?),
                Eq => V::b(self.at_least(&d)? && self.at_least(&e)?), Ne => V::b(!(self.at_least(&d)? && self.at_least(&e)?)),
                Cmp => V::Int(if !self.at_least(&d)? { -1 } else if self.at_least(&e)? { 0 } else { 1 }),
                _ => V::top(format!("{op:?}({},{})", term(&x), term(&y))),
            });
        }
        if let (V::Ext(n, f), V::Ext(m, h)) = (&x, &y) { if &**n == "byte" && &**m == "byte" { if let Some(o) = self.byte_cmp(f, h) { return Ok(match op { Eq => V::b(o.is_eq()), Ne => V::b(o.is_ne()), Lt => V::b(o.is_lt()), Le => V::b(o.is_le()), Gt => V::b(o.is_gt()), Ge => V::b(o.is_ge()), _ => V::top(format!("{op:?}({},{})", term(&x), term(&y))) }) } } }
        if let (V::Ext(n, f), V::Ext(m, h)) = (&x, &y) { if &**n == "id" && &**m == "id" { let e = term(&f[0]) == term(&h[0]); match op { Eq => return Ok(V::b(e)), Ne => return Ok(V::b(!e)), _ => {} } } }
        let (a, b) = (term(&x), term(&y));
        if matches!(op, Offset) { if let (V::Ptr(al, p), V::Int(n)) = (&x, &y) { let mut q = (**p).clone(); if let Some(l) = q.last_mut() { *l = (*l as i128 + n) as u32; return Ok(V::Ptr(*al, Rc::new(q))) } if *n == 0 { return Ok(x) } } }
        if a == b { match op { Eq | Le | Ge => return Ok(V::b(true)), Ne | Lt | Gt => return Ok(V::b(false)), Sub => return Ok(V::Int(0)), _ => {} } }
        if let (V::Ptr(..), V::Ptr(..)) = (&x, &y) { match op { Eq => return Ok(V::b(false)), Ne => return Ok(V::b(true)), _ => {} } }
        let eq = |p: &str, q: &str| { let (p, q) = if p <= q { (p, q) } else { (q, p) }; format!("({p} == {q})") };
        Ok(match op {
            Eq => V::top(eq(&a, &b)), Ne => V::top(format!("!{}", eq(&a, &b))),
            Lt => V::top(format!("({a} < {b})")), Gt => V::top(format!("({b} < {a})")),
            Ge => V::top(format!("!({a} < {b})")), Le => V::top(format!("!({b} < {a})")),
            Add | AddUnchecked => { if b == "0" { return Ok(x) } V::top(format!("({a} + {b})")) } Sub | SubUnchecked => { if b == "0" { return Ok(x) } V::top(format!("({a} - {b})")) }
            BitAnd | BitOr => {
                // booleans
                match (&x, &y) { (V::Int(0), o) | (o, V::Int(0)) => if matches!(op, BitAnd) { V::Int(0) } else { o.clone() }, (V::Int(1), o) | (o, V::Int(1)) => if matches!(op, BitAnd) { o.clone() } else { V::Int(1) }, _ => V::top(format!("{op:?}({a},{b})")) }
            }
            _ => V::top(format!("{op:?}({a},{b})")),
        })
    }
    fn byte_cmp(&self, f: &Rc<Vec<V>>, h: &Rc<Vec<V>>) -> Option<std::cmp::Ordering> {
        if let (V::Node(a), V::Int(ea), V::Node(b), V::Int(eb)) = (&f[0], &f[1], &h[0], &h[1]) {
            if a == b { return Some(ea.cmp(eb)) }
            if self.tree.is_ancestor(*a, *b) { return Some(if *ea == 0 { if *eb == 0 { return None } else { std::cmp::Ordering::Less } } else { if *eb == 1 { return None } else { std::cmp::Ordering::Greater } }) }
            if self.tree.is_ancestor(*b, *a) { return self.byte_cmp(h, f).map(|o| o.reverse()) }
            return self.tree.order(*a, *b);
        }
        None
    }
    /// Is the sum at least zero? Both answers are followed unless one is excluded by earlier answers.
    pub fn at_least(&mut self, l: &Lin) -> R<bool> {
        let not = Lin::int(-1).plus(l, -1);
        if l.follows(&self.facts) { return Ok(true) }
        if not.follows(&self.facts) { return Ok(false) }
        let k = format!("{} >= 0", l.show());
        let r = self.choose(2, || k)? == 0;
        self.facts.push(if r { l.clone() } else { not }); Ok(r)
    }
    /// The line a node begins or ends on: a number that agrees with the order of the nodes.
    pub fn row_value(&mut self, n: usize, end: bool) -> V {
        if let Some(r) = self.row(n, end) { return V::Int(r) }
        let me = row_sym(n, end);
        if !self.rows.contains(&(n, end)) {
            for (m, e) in self.rows.clone() {
                let o = row_sym(m, e);
                // which of the two comes first
                let first = if n == m { Some(end) } else { match self.tree.order(m, n) { Some(std::cmp::Ordering::Less) => Some(true), Some(std::cmp::Ordering::Greater) => Some(false), _ => if self.tree.is_ancestor(m, n) { Some(!e) } else if self.tree.is_ancestor(n, m) { Some(end) } else { None } } };
                match first { Some(true) => self.facts.push(me.plus(&o, -1)), Some(false) => self.facts.push(o.plus(&me, -1)), None => {} }
            }
            self.rows.push((n, end));
        }
        me.value()
    }
    pub fn str_len(&mut self, s: &AStr) -> V { if s.iter().any(sealed) && s.iter().all(|p| sealed(p) || matches!(p, Part::Lit(_))) { let mut l = Lin::default(); for p in s.iter() { match p { Part::Lit(t) => l.c += t.len() as i128, Part::Unk(n) => l = l.plus(&Lin::sym(n), 1), _ => {} } } return l.value() } match as_lit(s) { Some(l) => V::Int(l.len() as i128), None => V::top(format!("len({})", show_str(s))) } }
}
pub fn row_sym(n: usize, end: bool) -> Lin { Lin::sym(&format!("#{}row{n}", if end { "e" } else { "s" })) }
fn mask(n: usize) -> u128 { if n >= 16 { u128::MAX } else { (1u128 << (8 * n)) - 1 } }
pub fn wrap(i: i128, t: Ty) -> i128 {
    let bits = match t.kind() { TyKind::RigidTy(RigidTy::Uint(u)) => match u { UintTy::U8 => 8, UintTy::U16 => 16, UintTy::U32 => 32, UintTy::U64 | UintTy::Usize => 64, _ => return i }, _ => return i };
    i & ((1i128 << bits) - 1)
}
