//! Abstract syntax tree: nodes whose kind is a set and whose children are
//! revealed production by production.
use crate::grammar::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Node {
    pub alts: Vec<Alt>,
    pub fields: Vec<Rc<str>>,
    pub visible: bool,
    pub extra: bool,
    pub parent: Option<usize>,
    pub idx: usize,
    pub children: Option<Vec<usize>>,
    /// surroundings of this node are not part of the analysed shape
    pub loose: bool,
    pub sib: [Option<Option<usize>>; 4],
    pub label: String,
    /// what the grammar allows here, before anything was decided
    pub slot: String,
}
#[derive(Default)]
pub struct Tree { pub nodes: Vec<Node> }
impl Tree {
    pub fn add(&mut self, alts: Vec<Alt>) -> usize {
        self.nodes.push(Node { alts, fields: vec![], visible: true, extra: false, parent: None, idx: 0, children: None, loose: true, sib: [None, None, None, None], label: String::new(), slot: String::new() });
        self.nodes.len() - 1
    }
    pub fn kind(&self, n: usize) -> Option<Rc<str>> {
        let a = &self.nodes[n].alts; let k = &a[0].kind;
        if a.iter().all(|x| x.kind == *k) { Some(k.clone()) } else { None }
    }
    pub fn kinds(&self, n: usize) -> Vec<Rc<str>> { let mut v: Vec<Rc<str>> = self.nodes[n].alts.iter().map(|a| a.kind.clone()).collect(); v.sort(); v.dedup(); v }
    pub fn named(&self, n: usize) -> Option<bool> { let a = &self.nodes[n].alts; let k = a[0].named; if a.iter().all(|x| x.named == k) { Some(k) } else { None } }
    pub fn set_children(&mut self, n: usize, p: &Prod) {
        let mut ch = vec![];
        for (i, s) in p.iter().enumerate() {
            let c = self.add(s.alts.clone());
            let nd = &mut self.nodes[c];
            nd.fields = s.fields.clone(); nd.visible = s.visible; nd.parent = Some(n); nd.idx = i; nd.loose = false;
            self.nodes[c].slot = self.describe(c);
            ch.push(c);
        }
        self.nodes[n].children = Some(ch);
    }
    pub fn visible_children(&self, n: usize) -> Vec<usize> { self.nodes[n].children.as_ref().map(|c| c.iter().copied().filter(|x| self.nodes[*x].visible).collect()).unwrap_or_default() }
    /// Human-readable, stable name of a child slot: field name or kind(s).
    pub fn describe(&self, n: usize) -> String {
        let nd = &self.nodes[n];
        if let Some(f) = nd.fields.last() { if nd.alts.iter().any(|a| a.named) { return format!("field {f}") } }
        let k = self.kinds(n);
        if k.len() > 3 { return "child".into() }
        k.iter().map(|x| if nd.alts[0].named { x.to_string() } else { format!("'{x}'") }).collect::<Vec<_>>().join("|")
    }
    pub fn is_ancestor(&self, a: usize, mut n: usize) -> bool { loop { if n == a { return true } match self.nodes[n].parent { Some(p) => n = p, None => return false } } }
    fn path(&self, mut n: usize) -> Vec<usize> { let mut v = vec![n]; while let Some(p) = self.nodes[n].parent { v.push(p); n = p } v.reverse(); v }
    /// Source order of two nodes, when neither contains the other.
    pub fn order(&self, a: usize, b: usize) -> Option<std::cmp::Ordering> {
        let (x, y) = (self.path(a), self.path(b));
        for (p, q) in x.iter().zip(y.iter()) { if p != q { return if self.nodes[*p].parent.is_some() && self.nodes[*p].parent == self.nodes[*q].parent { Some(self.nodes[*p].idx.cmp(&self.nodes[*q].idx)) } else { None } } }
        None
    }
    pub fn reindex(&mut self, n: usize) { if let Some(c) = self.nodes[n].children.clone() { for (i, x) in c.iter().enumerate() { self.nodes[*x].idx = i; self.nodes[*x].parent = Some(n) } } }
}
