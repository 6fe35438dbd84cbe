//! Abstract values.
use rustc_public::mir::mono::Instance;
use rustc_public::ty::Ty;
use std::rc::Rc;

pub type S = Rc<str>;

#[derive(Clone, Debug, PartialEq)]
pub enum Part {
    Lit(S),
    /// source text of a tree node, verbatim
    Src(usize),
    /// source text from the start of one node to the end of another
    Span(usize, usize),
    /// kind name of a node (not narrowed yet)
    Kind(usize),
    /// text derived from other text by a named operation
    Mod(S, Rc<Vec<Part>>),
    Unk(S),
}
pub type AStr = Rc<Vec<Part>>;

#[derive(Clone, Debug)]
pub struct LazyV { pub id: usize, pub inst: Instance, pub args: Vec<V>, pub node: usize, pub key: S }

#[derive(Clone, Debug)]
pub enum Iter {
    Seq(std::collections::VecDeque<V>),
    Range(V, V, bool),
    Repeat(V),
    MapWhile(Box<Iter>, V, Ty),
    Map(Box<Iter>, V, Ty),
    Filter(Box<Iter>, V, Ty),
    FilterMap(Box<Iter>, V, Ty),
    TakeWhile(Box<Iter>, V, Ty, bool),
    SkipWhile(Box<Iter>, V, Ty, bool),
    Inspect(Box<Iter>, V, Ty),
    Enumerate(Box<Iter>, usize),
    Chain(Box<Iter>, Box<Iter>),
    Cloned(Box<Iter>, Ty),
    Zip(Box<Iter>, Box<Iter>),
    Take(Box<Iter>, usize),
    Skip(Box<Iter>, usize),
    StepBy(Box<Iter>, usize, bool),
    Peek(Box<Iter>, Option<Option<Box<V>>>),
    Flat(Box<Iter>, Option<(V, Ty)>, Option<Box<Iter>>, Ty),
    User(V, Ty),
    FromFn(V, Ty),
    Successors(V, V, Ty),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Lin { pub c: i128, pub t: std::collections::BTreeMap<S, i128> }
impl Lin {
    pub fn int(c: i128) -> Lin { Lin { c, t: Default::default() } }
    pub fn sym(s: &str) -> Lin { Lin { c: 0, t: [(s.into(), 1)].into() } }
    /// self + k * o
    pub fn plus(&self, o: &Lin, k: i128) -> Lin { let mut r = self.clone(); r.c += k * o.c; for (s, n) in &o.t { *r.t.entry(s.clone()).or_default() += k * n } r.t.retain(|_, n| *n != 0); r }
    pub fn of(v: &V) -> Option<Lin> { match v { V::Int(i) => Some(Lin::int(*i)), V::Lin(l) => Some((**l).clone()), _ => None } }
    pub fn value(self) -> V { if self.t.is_empty() { V::Int(self.c) } else { V::Lin(Rc::new(self)) } }
    pub fn show(&self) -> String { let mut o: Vec<String> = self.t.iter().map(|(s, n)| if *n == 1 { s.to_string() } else { format!("{n}{s}") }).collect(); if self.c != 0 || o.is_empty() { o.push(self.c.to_string()) } o.join("+").replace("+-", "-") }
    /// never negative, because its numbers are not
    fn positive(&self) -> bool { self.c >= 0 && self.t.values().all(|n| *n >= 0) }
    /// does self >= 0 follow from the facts (each >= 0)?
    pub fn follows(&self, facts: &[Lin]) -> bool {
        if self.positive() { return true }
        for (i, f) in facts.iter().enumerate() {
            let a = self.plus(f, -1); if a.positive() { return true }
            for g in &facts[i + 1..] { let b = a.plus(g, -1); if b.positive() { return true } }
        }
        false
    }
}
#[derive(Clone, Debug)]
pub enum V {
    Undef,
    Int(i128),
    Top(S),
    /// a sum of unknown non-negative numbers
    Lin(Rc<Lin>),
    Str(AStr),
    Agg(u32, Rc<Vec<V>>),
    Vec(Rc<Vec<V>>),
    Map(Rc<Vec<(V, V)>>),
    Ptr(usize, Rc<Vec<u32>>),
    Slice(usize, Rc<Vec<u32>>, usize, usize),
    Dyn(Box<V>, Ty),
    Fn(Instance),
    ClosPtr(Box<V>, Ty),
    Node(usize),
    Cursor(usize, usize),
    Tree(usize),
    Lazy(Rc<LazyV>),
    /// document built by the contract of a child
    Built(Rc<LazyV>),
    Iter(Box<Iter>),
    FmtArg(Box<V>, Ty, bool),
    /// modelled host object (arena, channel, ...)
    Ext(S, Rc<Vec<V>>),
}
impl V {
    pub fn unit() -> V { V::Agg(0, Rc::new(vec![])) }
    pub fn agg(v: u32, f: Vec<V>) -> V { V::Agg(v, Rc::new(f)) }
    pub fn none() -> V { V::agg(0, vec![]) }
    pub fn some(x: V) -> V { V::agg(1, vec![x]) }
    pub fn ok(x: V) -> V { V::agg(0, vec![x]) }
    pub fn err(x: V) -> V { V::agg(1, vec![x]) }
    pub fn b(x: bool) -> V { V::Int(x as i128) }
    pub fn lit(x: &str) -> V { V::Str(lit(x)) }
    pub fn vec(x: Vec<V>) -> V { V::Vec(Rc::new(x)) }
    pub fn top(x: impl Into<String>) -> V { V::Top(x.into().as_str().into()) }
    pub fn seq(x: impl IntoIterator<Item = V>) -> V { V::Iter(Box::new(Iter::Seq(x.into_iter().collect()))) }
}
pub fn lit(x: &str) -> AStr { if x.is_empty() { Rc::new(vec![]) } else { Rc::new(vec![Part::Lit(x.into())]) } }
/// a piece of text that is not looked into: not blank, on one line
pub fn sealed(p: &Part) -> bool { matches!(p, Part::Unk(s) if s.starts_with('#')) }
pub fn as_lit(a: &AStr) -> Option<String> { let mut o = String::new(); for p in a.iter() { if let Part::Lit(s) = p { o.push_str(s) } else { return None } } Some(o) }
pub fn cat(a: &AStr, b: &AStr) -> AStr {
    let mut v = (**a).clone();
    for p in b.iter() {
        if let (Some(Part::Lit(x)), Part::Lit(y)) = (v.last(), p) { let s = format!("{x}{y}"); let n = v.len(); v[n - 1] = Part::Lit(s.as_str().into()); continue }
        v.push(p.clone());
    }
    Rc::new(v)
}
pub fn show_str(a: &[Part]) -> String {
    let mut o = String::new();
    for p in a { match p { Part::Lit(s) => o.push_str(&format!("'{s}'")), Part::Src(n) => o.push_str(&format!("<src {n}>")), Part::Span(a, b) => o.push_str(&format!("<span {a}-{b}>")), Part::Kind(n) => o.push_str(&format!("<kind {n}>")), Part::Mod(m, x) => o.push_str(&format!("{m}({})", show_str(x))), Part::Unk(s) => o.push_str(&format!("?{s}")) } }
    o
}
/// Stable rendering used as the identity of symbolic terms.
pub fn term(v: &V) -> String {
    match v {
        V::Int(i) => i.to_string(), V::Top(s) => s.to_string(), V::Lin(l) => l.show(), V::Str(a) => show_str(a),
        V::Agg(t, f) => format!("{t}({})", f.iter().map(term).collect::<Vec<_>>().join(",")),
        V::Vec(f) => format!("[{}]", f.iter().map(term).collect::<Vec<_>>().join(",")),
        V::Ptr(a, p) => format!("&{a}{p:?}"), V::Node(n) => format!("node{n}"), V::Lazy(l) => format!("{}({})", l.key, l.node), V::Built(l) => format!("built {}({})", l.key, l.node),
        V::Ext(n, f) => format!("{n}({})", f.iter().map(term).collect::<Vec<_>>().join(",")),
        V::Dyn(x, _) => term(x), V::Undef => "undef".into(), V::Fn(i) => i.name(),
        V::Iter(_) => "iter".into(), V::Slice(a, p, s, l) => format!("&{a}{p:?}[{s};{l}]"), _ => "val".into(),
    }
}
