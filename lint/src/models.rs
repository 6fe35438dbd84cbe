//! Transfer functions for library operations (std, tree-sitter, arena, ...).
use crate::grammar::*;
use crate::interp::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::*;
use std::collections::*;
use rustc_public::mir::BinOp;
use std::rc::Rc;

fn ty_arg(i: &Instance, k: usize) -> Option<Ty> { i.args().0.iter().filter_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None }).nth(k) }
fn last_ty(i: &Instance) -> Option<Ty> { i.args().0.iter().filter_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None }).last() }
pub fn adt_name(t: Ty) -> String { match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, _)) => d.trimmed_name().to_string().rsplit("::").next().unwrap_or("").to_string(), TyKind::RigidTy(RigidTy::Ref(_, t, _)) => format!("&{}", adt_name(t)), TyKind::RigidTy(RigidTy::Str) => "str".into(), TyKind::RigidTy(RigidTy::Slice(_)) => "[]".into(), TyKind::RigidTy(RigidTy::Array(..)) => "[;]".into(), x => format!("{x:?}") } }
fn adt_args(t: Ty) -> Vec<Ty> { match t.kind() { TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().filter_map(|x| if let GenericArgKind::Type(t) = x { Some(*t) } else { None }).collect(), _ => vec![] } }
fn md(name: &str, a: &AStr) -> AStr { if a.is_empty() { a.clone() } else { Rc::new(vec![Part::Mod(name.into(), a.clone())]) } }

enum Pat { Str(String), Chars(Vec<char>) }
fn ty_range(t: Option<Ty>) -> Option<(i128, i128)> { t.and_then(|t| int_range(&format!("<impl {}>", match t.kind() { TyKind::RigidTy(RigidTy::Int(i)) => format!("{i:?}").to_lowercase(), TyKind::RigidTy(RigidTy::Uint(i)) => format!("{i:?}").to_lowercase(), _ => String::new() }))) }
fn int_range(n: &str) -> Option<(i128, i128)> {
    let t = n.split("<impl ").nth(1)?.split('>').next()?;
    let bits = match t.get(1..)? { "8" => 8, "16" => 16, "32" => 32, "64" | "size" => 64, _ => return None };
    match &t[..1] { "u" => Some((0, (1i128 << bits) - 1)), "i" => Some((-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1)), _ => None }
}
fn last_ty_before_alloc(i: &Instance) -> Option<Ty> { ty_arg(i, 1) }
fn range_ty(i: &Instance) -> String { i.args().0.iter().filter_map(|a| if let GenericArgKind::Type(t) = a { Some(adt_name(*t)) } else { None }).find(|n| n.starts_with("Range")).unwrap_or_default() }
fn range_of(rt: &str, v: &V, l: usize) -> R<(usize, usize)> {
    let f: Vec<V> = match v { V::Agg(_, f) => (**f).clone(), _ => vec![] };
    let g = |k: usize| -> R<usize> { match f.get(k) { Some(V::Int(i)) => Ok(*i as usize), _ => unsup("range") } };
    Ok(match rt { "Range" => (g(0)?, g(1)?), "RangeFrom" => (g(0)?, l), "RangeTo" => (0, g(0)?), "RangeFull" => (0, l), "RangeInclusive" => (g(0)?, g(1)? + 1), "RangeToInclusive" => (0, g(0)? + 1), _ => return unsup(format!("index by {rt}")) })
}

impl<'c> Interp<'c> {
    pub fn model(&mut self, name: &str, inst: Instance, a: &[V]) -> R<Option<V>> {
        if let Some(v) = self.model_tree(name, &inst, a)? { return Ok(Some(v)) }
        if let Some(v) = self.model_iter(name, &inst, a)? { return Ok(Some(v)) }
        if let Some(v) = self.model_str(name, &inst, a)? { return Ok(Some(v)) }
        self.model_std(name, &inst, a)
    }
    fn ptr_elem(p: &V, i: u32) -> R<V> { match p { V::Ptr(a, q) => { let mut q = (**q).clone(); q.push(i); Ok(V::Ptr(*a, Rc::new(q))) } x => unsup(format!("element of {}", term(x))) } }

    // ------------------------------------------------------------ text
    fn lit_of(&mut self, v: &V) -> R<Option<String>> { Ok(match self.deref(v)? { V::Str(s) => match &s[..] { [Part::Src(n)] => match self.leaf_content(*n) { Some(Content::Lit(t, false)) => Some(t.to_string()), _ => None }, _ => as_lit(&s) }, V::Int(c) => char::from_u32(c as u32).map(|c| c.to_string()), V::Top(_) => None, _ => return Ok(None) }) }
    pub fn str_eq(&mut self, x: &AStr, y: &AStr) -> R<V> {
        if let (Some(p), Some(q)) = (as_lit(x), as_lit(y)) { return Ok(V::b(p == q)) }
        if show_str(x) == show_str(y) { return Ok(V::b(true)) }
        for (p, q) in [(x, y), (y, x)] { if let (true, Some(l)) = (p.iter().any(sealed), as_lit(q)) { if l.trim().is_empty() { return Ok(V::b(false)) } } }
        for (p, q) in [(x, y), (y, x)] {
            if let (Some(Part::Kind(n)), Some(l), 1) = (p.first(), as_lit(q), p.len()) { return self.kind_is(*n, &l).map(V::b) }
            if let (Some(Part::Src(n)), Some(l), 1) = (p.first(), as_lit(q), p.len()) { return self.text_is(*n, &l).map(V::b) }
            if let (Some(Part::Mod(m, i)), Some(l), 1) = (p.first(), as_lit(q), p.len()) {
                // case folding of keyword-like text
                if &**m == "to_lowercase" || &**m == "to_ascii_lowercase" || &**m == "to_uppercase" || &**m == "to_ascii_uppercase" { if let (Some(Part::Src(n)), 1) = (i.first(), i.len()) { if let Some(Content::Lit(t, _)) = self.leaf_content(*n) { let t = if m.contains("lower") { t.to_lowercase() } else { t.to_uppercase() }; return Ok(V::b(t == l)) } } }
            }
        }
        let (p, q) = (show_str(x), show_str(y));
        let (p, q) = if p <= q { (p, q) } else { (q, p) };
        Ok(V::top(format!("({p} == {q})")))
    }
    pub fn leaf_content(&self, n: usize) -> Option<Content> { let a = &self.tree.nodes[n].alts; if a.len() == 1 { match &a[0].content { c @ (Content::Lit(..) | Content::Pattern(_)) => Some(c.clone()), _ => None } } else { None } }
    pub fn kind_is(&mut self, n: usize, k: &str) -> R<bool> {
        let kinds = self.tree.kinds(n);
        if !kinds.iter().any(|x| &**x == k) { return Ok(false) }
        if kinds.len() == 1 { return Ok(true) }
        let d = self.choose(2, || format!("kind of {n} is {k}"))? == 1;
        self.tree.nodes[n].alts.retain(|a| (&*a.kind == k) == d);
        Ok(d)
    }
    pub fn text_is(&mut self, n: usize, l: &str) -> R<bool> {
        self.narrow_alt(n)?;
        match self.tree.nodes[n].alts[0].content.clone() {
            Content::Lit(t, false) => Ok(&*t == l),
            Content::Lit(t, true) => { if t.to_lowercase() != l.to_lowercase() { return Ok(false) } self.text_choice(n, l) }
            _ => {
                // a composite node whose text can only be one of a few literals
                if let Some(set) = self.literal_texts(n) { if !set.iter().any(|(t, ci)| &**t == l || (*ci && t.eq_ignore_ascii_case(l))) { return Ok(false) } }
                self.text_choice(n, l)
            }
        }
    }
    fn text_choice(&mut self, n: usize, l: &str) -> R<bool> {
        let key = format!("text{n}");
        if let Some(t) = self.text_eq.get(&key) { return Ok(t == l) }
        let d = self.choose_memo(&format!("text {n} == {l}"), 2)? == 1;
        if d { self.text_eq.insert(key, l.to_string()); }
        Ok(d)
    }
    /// All source texts of a node when they form a finite set.
    pub fn literal_texts(&mut self, n: usize) -> Option<Vec<(Rc<str>, bool)>> {
        let mut out = vec![];
        for a in self.tree.nodes[n].alts.clone() {
            match &a.content { Content::Lit(t, ci) => out.push((t.clone(), *ci)), Content::Pattern(_) => return None, _ => {
                for p in self.c.productions(&a).iter() { if p.len() != 1 { return None } for x in &p[0].alts { if let Content::Lit(t, ci) = &x.content { out.push((t.clone(), *ci)) } else { return None } } }
            } }
        }
        Some(out)
    }
    fn model_str(&mut self, name: &str, inst: &Instance, a: &[V]) -> R<Option<V>> {
        let m = name.rsplit("::").next().unwrap_or("");
        if name.ends_with("from_utf8_lossy") { if let V::Ext(n, f) = self.deref(&a[0])? { if &*n == "bytes" { return Ok(Some(V::agg(0, vec![f[0].clone()]))) } } if let V::Vec(x) = self.deref(&a[0])? { let o: Vec<u8> = x.iter().filter_map(|e| if let V::Int(c) = e { Some(*c as u8) } else { None }).collect(); if o.len() == x.len() { return Ok(Some(V::agg(0, vec![V::lit(&String::from_utf8_lossy(&o))]))) } } }
        let is_str = name.contains("str::<impl str>::");
        let is_string = name.contains("string::String::") || name.contains("String::");
        if m == "to_string" && name.contains("ToString") {
            let v = self.deref(&a[0])?;
            return Ok(Some(match v { V::Str(s) => V::Str(s), V::Int(i) => { let t = ty_arg(inst, 0); if matches!(t.map(|t| t.kind()), Some(TyKind::RigidTy(RigidTy::Char))) { V::lit(&char::from_u32(i as u32).unwrap_or('?').to_string()) } else { V::lit(&i.to_string()) } } V::Top(s) => V::Str(Rc::new(vec![Part::Unk(s)])), x => { let t = ty_arg(inst, 0).unwrap(); self.display(&x, t, &a[0])? } }));
        }
        if name.ends_with("String::new") || name.ends_with("String::with_capacity") { return Ok(Some(V::lit(""))) }
        if name.contains("String as std::convert::From") || name.contains("From::from") && matches!(last_ty(inst).map(adt_name), Some(ref s) if s == "String" || s == "&str" || s == "&String") { if let Ok(s) = self.str_of(&a[0]) { return Ok(Some(V::Str(s))) } }
        if name.ends_with("From::from") || name.ends_with("Into::into") { if let Ok(V::Str(s)) = self.deref(&a[0]) { return Ok(Some(V::Str(s))) } }
        if name.ends_with("ToOwned::to_owned") || name.ends_with("Clone::clone") || name.ends_with("into_boxed_str") || name.ends_with("into_string") { if let V::Str(s) = self.deref(&a[0])? { return Ok(Some(V::Str(s))) } }
        if name.ends_with("Borrow::borrow") || name.ends_with("AsRef::as_ref") { if let V::Str(s) = self.deref(&a[0])? { return Ok(Some(V::Str(s))) } }
        if !(is_str || is_string) {
            // comparisons and concatenation reach us through traits
            if name.ends_with("PartialEq::eq") || name.ends_with("PartialEq::ne") {
                let (x, y) = (self.deref(&a[0])?, self.deref(&a[1])?);
                if let (V::Str(x), V::Str(y)) = (&x, &y) { let r = self.str_eq(x, y)?; return Ok(Some(if name.ends_with("ne") { neg(r) } else { r })) }
                if let (V::Str(x), V::Top(t)) | (V::Top(t), V::Str(x)) = (&x, &y) { let r = self.str_eq(x, &Rc::new(vec![Part::Unk(t.clone())]))?; return Ok(Some(if name.ends_with("ne") { neg(r) } else { r })) }
            }
            if  name.ends_with("str::from_utf8") || name.ends_with("String::from_utf8") || name.ends_with("from_utf8_unchecked") {
                let t = match self.deref(&a[0])? { V::Ext(n, f) if &*n == "bytes" => self.str_of(&f[0])?, V::Vec(x) => { let mut o = vec![]; for e in x.iter() { if let V::Int(c) = e { o.push(*c as u8) } else { return unsup("bytes") } } match String::from_utf8(o) { Ok(s) => lit(&s), Err(_) => return unsup("bytes") } } _ => return unsup("bytes") };
                return Ok(Some(if name.ends_with("str::from_utf8") || name.ends_with("String::from_utf8") { V::ok(V::Str(t)) } else { V::Str(t) }));
            }
            if ["PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge", "Ord::cmp", "PartialOrd::partial_cmp"].iter().any(|e| name.ends_with(e)) {
                if let (V::Str(x), V::Str(y)) = (self.deref(&a[0])?, self.deref(&a[1])?) {
                    let (Some(x), Some(y)) = (as_lit(&x), as_lit(&y)) else { return unsup("order of texts") };
                    let o = V::agg((x.cmp(&y) as i32 + 1) as u32, vec![]);
                    return Ok(Some(match m { "lt" => V::b(x < y), "le" => V::b(x <= y), "gt" => V::b(x > y), "ge" => V::b(x >= y), "cmp" => o, _ => V::some(o) }));
                }
            }
            if name.ends_with("Add::add") { if let V::Str(x) = &a[0] { let y = self.str_of(&a[1])?; return Ok(Some(V::Str(cat(x, &y)))) } }
            if name.ends_with("AddAssign::add_assign") { if let V::Str(x) = self.deref(&a[0])? { let y = self.str_of(&a[1])?; self.store(&a[0], V::Str(cat(&x, &y)))?; return Ok(Some(V::unit())) } }
            if name.ends_with("fmt::Write::write_str") { if let V::Str(x) = self.deref(&a[0])? { let y = self.str_of(&a[1])?; self.store(&a[0], V::Str(cat(&x, &y)))?; return Ok(Some(V::ok(V::unit()))) } }
            if name.ends_with("fmt::Write::write_fmt") { if let V::Str(x) = self.deref(&a[0])? { let y = self.render_args(&a[1])?; self.store(&a[0], V::Str(cat(&x, &y)))?; return Ok(Some(V::ok(V::unit()))) } }
            if name.ends_with("Index::index") { if let V::Str(s) = self.deref(&a[0])? { return self.str_slice(&s, &a[1], inst).map(Some) } }
            if name.ends_with("slice::<impl [S]>::join") || name.ends_with("slice::<impl [T]>::join") || name.ends_with("<impl [T]>::concat") || name.ends_with("<impl [V]>::concat") || name.ends_with("<impl [S]>::concat") {
                let sep = if a.len() > 1 { self.str_of(&a[1])? } else { lit("") };
                let mut o = lit(""); for (k, e) in self.elems(&a[0])?.iter().enumerate() { if k > 0 { o = cat(&o, &sep) } let s = self.str_of(e)?; o = cat(&o, &s) }
                return Ok(Some(V::Str(o)));
            }
            return Ok(None);
        }
        let s = match a.first() { Some(v) => match self.deref(v)? { V::Str(s) => s, V::Top(t) => Rc::new(vec![Part::Unk(t)]), _ => return Ok(None) }, None => return Ok(None) };
        let l = as_lit(&s);
        if let Some(l) = &l { if let Some(v) = self.concrete_str(m, l, inst, a)? { return Ok(Some(v)) } }
        Ok(Some(match m {
            "push_str" => { let y = self.str_of(&a[1])?; self.store(&a[0], V::Str(cat(&s, &y)))?; V::unit() }
            "push" => { let y = match &a[1] { V::Int(c) => lit(&char::from_u32(*c as u32).unwrap_or('?').to_string()), x => Rc::new(vec![Part::Unk(term(x).as_str().into())]) }; self.store(&a[0], V::Str(cat(&s, &y)))?; V::unit() }
            "insert_str" | "insert" if matches!(a[1], V::Int(0)) => { let y = match self.deref(&a[2])? { V::Str(y) => y, V::Int(c) => lit(&char::from_u32(c as u32).unwrap_or('?').to_string()), _ => return unsup("insert") }; self.store(&a[0], V::Str(cat(&y, &s)))?; V::unit() }
            "clear" => { self.store(&a[0], V::lit(""))?; V::unit() }
            "len" => self.str_len(&s),
            "is_empty" => match &l { Some(l) => V::b(l.is_empty()), None => { if s.iter().any(|p| matches!(p, Part::Lit(x) if !x.is_empty())) { V::b(false) } else if let [Part::Src(n)] = s[..] { if self.can_be_empty_text(n) { V::top(format!("empty({})", show_str(&s))) } else { V::b(false) } } else { V::top(format!("empty({})", show_str(&s))) } } },
            "as_str" | "as_mut_str" | "to_owned" | "into_boxed_str" | "as_ref" | "into_string" => V::Str(s),
            "as_bytes" | "into_bytes" => V::Ext("bytes".into(), Rc::new(vec![V::Str(s)])),
            "reserve" | "shrink_to_fit" => V::unit(),
            "to_lowercase" | "to_ascii_lowercase" => match l { Some(l) => V::lit(&l.to_lowercase()), None => V::Str(md(m, &s)) },
            "to_uppercase" | "to_ascii_uppercase" => match l { Some(l) => V::lit(&l.to_uppercase()), None => V::Str(md(m, &s)) },
            "trim" | "trim_start" | "trim_end" => match l { Some(l) => V::lit(match m { "trim" => l.trim(), "trim_start" => l.trim_start(), _ => l.trim_end() }), None => V::Str(self.trim_parts(m, &s)) },
            "trim_matches" | "trim_start_matches" | "trim_end_matches" => match (l, self.lit_of(&a[1])?) { (Some(l), Some(p)) => V::lit(match m { "trim_start_matches" => l.trim_start_matches(&p[..]), "trim_end_matches" => l.trim_end_matches(&p[..]), _ => return unsup("trim_matches") }), _ => V::Str(md(m, &s)) },
            "starts_with" | "ends_with" | "contains" | "eq_ignore_ascii_case" => {
                let p = self.lit_of(&a[1])?;
                match (l, p) {
                    (Some(l), Some(p)) => V::b(match m { "starts_with" => l.starts_with(&p[..]), "ends_with" => l.ends_with(&p[..]), "contains" => l.contains(&p[..]), _ => l.eq_ignore_ascii_case(&p) }),
                    (None, Some(p)) => { self.str_pred(m, &s, &p)? }
                    _ => { let t = self.deref(&a[1])?; V::top(format!("{m}({},{})", show_str(&s), term(&t))) }
                }
            }
            "strip_prefix" | "strip_suffix" => {
                let p = self.lit_of(&a[1])?.unwrap_or_else(|| "?".into());
                match l { Some(l) => match if m == "strip_prefix" { l.strip_prefix(&p[..]) } else { l.strip_suffix(&p[..]) } { Some(x) => V::some(V::lit(x)), None => V::none() },
                    None => { let q = if m == "strip_prefix" { "starts_with" } else { "ends_with" }; let c = self.str_pred(q, &s, &p)?; if self.truth(&c)? { V::some(V::Str(md(&format!("{m}'{p}'"), &s))) } else { V::none() } } }
            }
            "split" | "lines" | "split_terminator" | "split_whitespace" => {
                let p = if m == "split" || m == "split_terminator" { self.lit_of(&a[1])? } else { Some("\n".into()) };
                match (l, p) {
                    (Some(l), Some(p)) => V::seq(match m { "split" => l.split(&p[..]).map(V::lit).collect::<Vec<_>>(), "lines" => l.lines().map(V::lit).collect(), "split_whitespace" => l.split_whitespace().map(V::lit).collect(), _ => l.split_terminator(&p[..]).map(V::lit).collect() }),
                    (None, p) => { let t = show_str(&s); let n = self.choose_memo(&format!("pieces({t})"), 3)? + 1; V::seq((0..n).map(|i| V::Str(md(&format!("{m}'{}'[{i}/{n}]", p.clone().unwrap_or_default().escape_debug()), &s)))) }
                    _ => return unsup("split"),
                }
            }
            "chars" | "bytes" => match l { Some(l) => V::seq(l.chars().map(|c| V::Int(c as i128)).collect::<Vec<_>>()), None => { let t = show_str(&s); let n = self.choose_memo(&format!("chars({t})"), 2)? + 1; V::seq((0..n).map(|i| V::top(format!("{m}[{i}/{n}]({t})"))).collect::<Vec<_>>()) } },
            "find" | "rfind" => { let p = self.lit_of(&a[1])?; match (l, p) { (Some(l), Some(p)) => match if m == "find" { l.find(&p[..]) } else { l.rfind(&p[..]) } { Some(i) => V::some(V::Int(i as i128)), None => V::none() }, _ => return unsup("find in text") } }
            "replace" => { let (p, q) = (self.lit_of(&a[1])?, self.lit_of(&a[2])?); match (l, p, q) { (Some(l), Some(p), Some(q)) => V::lit(&l.replace(&p[..], &q)), (_, p, q) => V::Str(md(&format!("replace'{}''{}'", p.unwrap_or_default(), q.unwrap_or_default()), &s)) } }
            "repeat" => match (l, &a[1]) { (Some(l), V::Int(n)) if *n < 10000 => V::lit(&l.repeat(*n as usize)), (_, n) => V::Str(md(&format!("repeat {}", term(n)), &s)) },
            "pop" => match l { Some(mut l) => { let c = l.pop(); self.store(&a[0], V::lit(&l))?; match c { Some(c) => V::some(V::Int(c as i128)), None => V::none() } } None => return unsup("pop of text") },
            "truncate" => match ({ self.cut(&s, &a[1]); l }, &a[1]) { (Some(mut l), V::Int(n)) => { l.truncate(*n as usize); self.store(&a[0], V::lit(&l))?; V::unit() } _ => { let t = md(&format!("truncate {}", term(&a[1])), &s); self.store(&a[0], V::Str(t))?; V::unit() } },
            "get" => return Ok(None),
            "split_off" => { self.cut(&s, &a[1]); let i = term(&a[1]); let (x, y) = match (l, &a[1]) { (Some(l), V::Int(n)) => match (l.get(..*n as usize), l.get(*n as usize..)) { (Some(x), Some(y)) => (lit(x), lit(y)), _ => return Err(Exit::Panic("str slice".into())) }, _ => (md(&format!("slice 0..{i}"), &s), md(&format!("slice {i}.."), &s)) }; self.store(&a[0], V::Str(x))?; V::Str(y) }
            "split_at" => { self.cut(&s, &a[1]); let i = term(&a[1]); V::agg(0, vec![V::Str(md(&format!("slice 0..{i}"), &s)), V::Str(md(&format!("slice {i}.."), &s))]) }
            "is_char_boundary" => self.between(&s, &a[1]),
            _ => return Ok(None),
        }))
    }
    /// A search pattern over known text: a string or the set of characters it accepts.
    fn pattern(&mut self, v: &V, l: &str, inst: &Instance) -> R<Option<Pat>> {
        Ok(Some(match self.deref(v)? {
            V::Str(s) => match as_lit(&s) { Some(s) => Pat::Str(s), None => return Ok(None) },
            V::Int(c) => Pat::Chars(char::from_u32(c as u32).into_iter().collect()),
            V::Vec(x) => { let mut o = vec![]; for e in x.iter() { if let V::Int(c) = self.deref(e)? { o.extend(char::from_u32(c as u32)) } else { return Ok(None) } } Pat::Chars(o) }
            V::Top(_) => return Ok(None),
            f => {
                let t = ty_arg(inst, 0).or_else(|| last_ty(inst)); let Some(t) = t else { return Ok(None) };
                let callable = matches!(t.kind(), TyKind::RigidTy(RigidTy::Closure(..) | RigidTy::FnDef(..) | RigidTy::FnPtr(..)));
                if !callable { return Ok(None) }
                let mut o = vec![]; let set: BTreeSet<char> = l.chars().collect();
                for c in set { let r = self.call_value(&f, t, vec![V::Int(c as i128)])?; if self.truth(&r)? { o.push(c) } }
                Pat::Chars(o)
            }
        }))
    }
    /// Operations on known text are carried out.
    fn concrete_str(&mut self, m: &str, l: &str, inst: &Instance, a: &[V]) -> R<Option<V>> {
        let pat = |it: &mut Self, k: usize| -> R<Option<Pat>> { match a.get(k) { Some(v) => it.pattern(v, l, inst), None => Ok(None) } };
        let two = |o: Option<(&str, &str)>| match o { Some((x, y)) => V::some(V::agg(0, vec![V::lit(x), V::lit(y)])), None => V::none() };
        let pos = |o: Option<usize>| match o { Some(x) => V::some(V::Int(x as i128)), None => V::none() };
        let seq = |o: Vec<&str>| V::seq(o.into_iter().map(V::lit).collect::<Vec<_>>());
        macro_rules! with { ($k:expr, |$p:ident| $e:expr) => { match pat(self, $k)? { Some(Pat::Str(q)) => { let $p = &q[..]; $e } Some(Pat::Chars(q)) => { let $p = &q[..]; $e } None => return Ok(None) } } }
        Ok(Some(match m {
            "split" => with!(1, |p| seq(l.split(p).collect())),
            "split_inclusive" => with!(1, |p| seq(l.split_inclusive(p).collect())),
            "rsplit" => match pat(self, 1)? { Some(Pat::Str(q)) => seq(l.rsplit(&q[..]).collect()), Some(Pat::Chars(q)) => seq(l.rsplit(&q[..]).collect()), None => return Ok(None) },
            "splitn" | "rsplitn" => { let V::Int(n) = a[1] else { return Ok(None) }; let n = n as usize; match pat(self, 2)? { Some(Pat::Str(q)) => seq(if m == "splitn" { l.splitn(n, &q[..]).collect() } else { l.rsplitn(n, &q[..]).collect() }), Some(Pat::Chars(q)) => seq(if m == "splitn" { l.splitn(n, &q[..]).collect() } else { l.rsplitn(n, &q[..]).collect() }), None => return Ok(None) } }
            "split_once" => with!(1, |p| two(l.split_once(p))),
            "rsplit_once" => with!(1, |p| two(l.rsplit_once(p))),
            "find" => with!(1, |p| pos(l.find(p))),
            "rfind" => with!(1, |p| pos(l.rfind(p))),
            "matches" => with!(1, |p| seq(l.matches(p).collect())),
            "contains" => with!(1, |p| V::b(l.contains(p))),
            "starts_with" => with!(1, |p| V::b(l.starts_with(p))),
            "ends_with" => with!(1, |p| V::b(l.ends_with(p))),
            "strip_prefix" => with!(1, |p| match l.strip_prefix(p) { Some(x) => V::some(V::lit(x)), None => V::none() }),
            "strip_suffix" => with!(1, |p| match l.strip_suffix(p) { Some(x) => V::some(V::lit(x)), None => V::none() }),
            "trim_start_matches" => with!(1, |p| V::lit(l.trim_start_matches(p))),
            "trim_end_matches" => with!(1, |p| V::lit(l.trim_end_matches(p))),
            "trim_matches" => match pat(self, 1)? { Some(Pat::Chars(q)) => V::lit(l.trim_matches(&q[..])), _ => return Ok(None) },
            "replace" | "replacen" => { let Some(to) = self.lit_of(&a[2])? else { return Ok(None) }; let n = match a.get(3) { Some(V::Int(n)) => *n as usize, Some(_) => return Ok(None), None => usize::MAX }; with!(1, |p| V::lit(&l.replacen(p, &to, n))) }
            "char_indices" => V::seq(l.char_indices().map(|(i, c)| V::agg(0, vec![V::Int(i as i128), V::Int(c as i128)])).collect::<Vec<_>>()),
            "bytes" => V::seq(l.bytes().map(|c| V::Int(c as i128)).collect::<Vec<_>>()),
            "split_whitespace" | "split_ascii_whitespace" => seq(l.split_whitespace().collect()),
            "lines" => seq(l.lines().collect()),
            "is_char_boundary" => match a[1] { V::Int(i) => V::b(l.is_char_boundary(i as usize)), _ => return Ok(None) },
            "is_ascii" => V::b(l.is_ascii()),
            "to_ascii_lowercase" => V::lit(&l.to_ascii_lowercase()), "to_ascii_uppercase" => V::lit(&l.to_ascii_uppercase()),
            "get" => {
                let names: Vec<String> = inst.args().0.iter().filter_map(|x| if let GenericArgKind::Type(t) = x { Some(adt_name(*t)) } else { None }).collect();
                let (V::Agg(_, f), Some(rt)) = (&a[1], names.iter().find(|n| n.starts_with("Range"))) else { return Ok(None) };
                let g = |k: usize| match f.get(k) { Some(V::Int(i)) => Some(*i as usize), _ => None };
                let r = match &rt[..] { "Range" => g(0).zip(g(1)), "RangeFrom" => g(0).map(|x| (x, l.len())), "RangeTo" => g(0).map(|x| (0, x)), "RangeFull" => Some((0, l.len())), "RangeInclusive" => g(0).zip(g(1).map(|x| x + 1)), _ => None };
                let Some((x, y)) = r else { return Ok(None) };
                match l.get(x..y) { Some(t) => V::some(V::lit(t)), None => V::none() }
            }
            "parse" => { let t = last_ty(inst); match (t.map(|t| t.kind()), l.parse::<i128>()) { (Some(TyKind::RigidTy(RigidTy::Int(_) | RigidTy::Uint(_))), Ok(i)) => V::ok(V::Int(i)), (Some(TyKind::RigidTy(RigidTy::Int(_) | RigidTy::Uint(_))), Err(_)) => V::err(V::top("parse error")), _ => return Ok(None) } }
            "remove" => { let V::Int(i) = a[1] else { return Ok(None) }; let mut t = l.to_string(); if i as usize >= t.len() { return Err(Exit::Panic("remove".into())) } let c = t.remove(i as usize); self.store(&a[0], V::lit(&t))?; V::Int(c as i128) }
            "insert" | "insert_str" => { let V::Int(i) = a[1] else { return Ok(None) }; let Some(y) = self.lit_of(&a[2])? else { return Ok(None) }; let mut t = l.to_string(); t.insert_str(i as usize, &y); self.store(&a[0], V::lit(&t))?; V::unit() }
            "split_off" => { let V::Int(i) = a[1] else { return Ok(None) }; let mut t = l.to_string(); let u = t.split_off(i as usize); self.store(&a[0], V::lit(&t))?; V::lit(&u) }
            "retain" => { let t = last_ty(inst).unwrap(); let mut o = String::new(); for c in l.chars() { let r = self.call_value(&a[1], t, vec![V::Int(c as i128)])?; if self.truth(&r)? { o.push(c) } } self.store(&a[0], V::lit(&o))?; V::unit() }
            _ => return Ok(None),
        }))
    }
    fn can_be_empty_text(&self, _n: usize) -> bool { false }
    fn trim_parts(&mut self, m: &str, s: &AStr) -> AStr {
        // token text has no surrounding blanks; only literal ends can be trimmed
        let mut v = (**s).clone();
        if m != "trim_end" { if let Some(Part::Lit(x)) = v.first().cloned() { let t = x.trim_start(); if t.is_empty() { v.remove(0); return self.trim_parts(m, &Rc::new(v)) } v[0] = Part::Lit(t.into()) } }
        if m != "trim_start" { if let Some(Part::Lit(x)) = v.last().cloned() { let t = x.trim_end(); if t.is_empty() { v.pop(); return self.trim_parts(m, &Rc::new(v)) } let n = v.len(); v[n - 1] = Part::Lit(t.into()) } }
        let sym = |p: &Part| (matches!(p, Part::Mod(..) | Part::Unk(_)) && !sealed(p)) || matches!(p, Part::Src(n) if self.tree.nodes[*n].extra);
        let need = (m != "trim_end" && v.first().map(&sym).unwrap_or(false)) || (m != "trim_start" && v.last().map(&sym).unwrap_or(false));
        if need { md(m, &Rc::new(v)) } else { Rc::new(v) }
    }
    fn str_pred(&mut self, m: &str, s: &AStr, p: &str) -> R<V> {
        if p.is_empty() && m != "eq_ignore_ascii_case" { return Ok(V::b(true)) }
        if s.iter().any(sealed) && s.iter().all(|x| sealed(x) || matches!(x, Part::Lit(_))) && p.chars().all(|c| c.is_whitespace()) {
            // inside an sealed text there may be blanks, but not at its ends
            let lit = |x: &Part| if let Part::Lit(t) = x { Some(t.clone()) } else { None };
            match m {
                "starts_with" => return Ok(V::b(s.first().and_then(lit).is_some_and(|t| t.starts_with(p)))),
                "ends_with" => return Ok(V::b(s.last().and_then(lit).is_some_and(|t| t.ends_with(p)))),
                "contains" if p.contains('\n') => return Ok(V::b(s.iter().filter_map(lit).any(|t| t.contains(p)))),
                "eq_ignore_ascii_case" => return Ok(V::b(false)),
                _ => {}
            }
        }
        match m {
            "starts_with" => if let Some(Part::Lit(x)) = s.first() { if x.len() >= p.len() { return Ok(V::b(x.starts_with(p))) } },
            "ends_with" => if let Some(Part::Lit(x)) = s.last() { if x.len() >= p.len() { return Ok(V::b(x.ends_with(p))) } },
            "eq_ignore_ascii_case" => if let [Part::Src(n)] = s[..] { if let Some(Content::Lit(t, _)) = self.leaf_content(n) { return Ok(V::b(t.eq_ignore_ascii_case(p))) } if let Some(set) = self.literal_texts(n) { if !set.iter().any(|x| x.0.eq_ignore_ascii_case(p)) { return Ok(V::b(false)) } } },
            _ => {}
        }
        if let [Part::Src(n)] = s[..] { if let Some(Content::Lit(t, false)) = self.leaf_content(n) { return Ok(V::b(match m { "starts_with" => t.starts_with(p), "ends_with" => t.ends_with(p), "contains" => t.contains(p), _ => t.eq_ignore_ascii_case(p) })) } }
        // which first character a construct can have follows from the grammar
        if let (true, [Part::Src(n)], true) = (m == "starts_with", &s[..], p.chars().count() == 1) {
            let ch = p.chars().next().unwrap();
            if ch.is_ascii_punctuation() && ch != '_' && ch != '$' { let n = *n; return self.first_char_is(n, ch).map(V::b) }
        }
        Ok(V::top(format!("{m}({},'{p}')", show_str(s))))
    }
    fn first_char_is(&mut self, n: usize, ch: char) -> R<bool> {
        if let Some(t) = self.text_eq.get(&format!("text{n}")) { return Ok(t.starts_with(ch)) }
        let c = self.c;
        if let Some(k) = self.tree.nodes[n].children.clone() { if let Some(x) = k.first() { return self.first_char_is(*x, ch) } }
        let has = |a: &Alt| c.edges.of_alt(c, a, true).contains(&ch);
        let (yes, no): (Vec<Alt>, Vec<Alt>) = self.tree.nodes[n].alts.iter().cloned().partition(|a| has(a));
        if yes.is_empty() { return Ok(false) }
        if no.is_empty() && yes.iter().all(|a| c.edges.of_alt(c, a, true).len() == 1) { return Ok(true) }
        let d = self.choose_memo(&format!("first of {n} is {ch}"), 2)? == 1;
        if d { self.tree.nodes[n].alts = yes } else { self.tree.nodes[n].alts.retain(|a| c.edges.of_alt(c, a, true).iter().any(|x| *x != ch)); self.first_not.entry(n).or_default().insert(ch); }
        Ok(d)
    }
    fn str_slice(&mut self, s: &AStr, r: &V, inst: &Instance) -> R<V> {
        let rt = range_ty(inst);
        let f: Vec<V> = match r { V::Agg(_, f) => (**f).clone(), _ => vec![] };
        let (lo, hi) = match (&rt[..], &f[..]) { ("Range", [x, y]) => (x.clone(), Some(y.clone())), ("RangeFrom", [x]) => (x.clone(), None), ("RangeTo", [x]) => (V::Int(0), Some(x.clone())), ("RangeFull", _) => return Ok(V::Str(s.clone())), _ => return unsup(format!("slice by {rt}")) };
        if let (V::Ext(n, p), Some(V::Ext(m, q))) = (&lo, &hi) { if &**n == "byte" && &**m == "byte" { if let (V::Node(a), V::Node(b), V::Int(0), V::Int(1)) = (&p[0], &q[0], &p[1], &q[1]) { return Ok(V::Str(Rc::new(vec![if a == b { Part::Src(*a) } else { Part::Span(*a, *b) }]))) } } }
        for x in hi.iter().chain([&lo]) { self.cut(s, x) }
        if let (Some(l), V::Int(x)) = (as_lit(s), &lo) { let y = match &hi { Some(V::Int(y)) => *y as usize, None => l.len(), _ => return unsup("slice") }; return match l.get(*x as usize..y) { Some(t) => Ok(V::lit(t)), None => Err(Exit::Panic("str slice".into())) } }
        Ok(V::Str(md(&format!("slice {}..{}", term(&lo), hi.as_ref().map(term).unwrap_or_default()), s)))
    }
    // ------------------------------------------------------------ formatting
    fn display(&mut self, v: &V, t: Ty, p: &V) -> R<V> {
        Ok(match v {
            V::Str(s) => V::Str(s.clone()),
            V::Int(i) => if matches!(strip_ref(t).kind(), TyKind::RigidTy(RigidTy::Char)) { V::lit(&char::from_u32(*i as u32).unwrap_or('?').to_string()) } else if matches!(strip_ref(t).kind(), TyKind::RigidTy(RigidTy::Bool)) { V::lit(if *i != 0 { "true" } else { "false" }) } else { V::lit(&i.to_string()) },
            V::Top(s) => V::Str(Rc::new(vec![Part::Unk(s.clone())])),
            x => { let _ = p; V::Str(Rc::new(vec![Part::Unk(format!("display {}", term(x)).as_str().into())])) }
        })
    }
    pub fn render_args(&mut self, v: &V) -> R<AStr> {
        let V::Ext(n, f) = self.deref(v)? else { return Ok(Rc::new(vec![Part::Unk("fmt".into())])) };
        if &*n != "fmt" { return unsup("format arguments") }
        match &f[0] { V::Str(s) => Ok(s.clone()), _ => unsup("format text") }
    }
    fn fmt_args(&mut self, tpl: &V, args: &V) -> R<V> {
        // template bytes: see core::fmt::Arguments
        let bytes: Vec<u8> = match self.deref(tpl)? { V::Vec(v) => v.iter().map(|x| if let V::Int(i) = x { *i as u8 } else { 0 }).collect(), x => return unsup(format!("template {}", term(&x))) };
        let av = self.elems(args)?;
        let mut o = lit(""); let mut i = 0; let mut next = 0usize;
        while i < bytes.len() {
            let b = bytes[i]; i += 1;
            if b == 0 { break }
            if b < 0x80 { let n = b as usize; o = cat(&o, &lit(&String::from_utf8_lossy(&bytes[i..i + n]))); i += n }
            else if b == 0x80 { let n = bytes[i] as usize | (bytes[i + 1] as usize) << 8; i += 2; o = cat(&o, &lit(&String::from_utf8_lossy(&bytes[i..i + n]))); i += n }
            else {
                let mut special = false; let (mut flags, mut width) = (0u32, 0usize);
                if b & 1 != 0 { flags = u32::from_le_bytes([bytes[i], bytes[i + 1], bytes[i + 2], bytes[i + 3]]); i += 4; special = true } if b & 2 != 0 { width = bytes[i] as usize | (bytes[i + 1] as usize) << 8; i += 2; special = true } if b & 4 != 0 { i += 2; special = true; flags = u32::MAX }
                let k = if b & 8 != 0 { let k = bytes[i] as usize | (bytes[i + 1] as usize) << 8; i += 2; k } else { next };
                next = k + 1;
                let V::FmtArg(v, t, dbg) = &av[k] else { return unsup("format argument") };
                let d = self.deref(v)?;
                let s = if *dbg && !special && (matches!(&d, V::Str(s) if as_lit(s).is_some()) || matches!(&d, V::Int(_)) && matches!(strip_ref(*t).kind(), TyKind::RigidTy(RigidTy::Int(_) | RigidTy::Uint(_)))) { match &d { V::Str(s) => lit(&format!("{:?}", as_lit(s).unwrap_or_default())), V::Int(i) => lit(&i.to_string()), _ => lit("") } } else if let (true, false, Some(t)) = (special, *dbg, self.padded(&d, *t, v, flags, width, b & 0x10 != 0, b & 0x20 != 0, &av)?) { lit(&t) } else if *dbg || special { Rc::new(vec![Part::Unk(format!("fmt {}", term(&d)).as_str().into())]) } else { match self.display(&d, *t, v)? { V::Str(s) => s, _ => lit("") } };
                o = cat(&o, &s);
            }
        }
        Ok(V::Ext("fmt".into(), Rc::new(vec![V::Str(o)])))
    }
    /// Width and alignment over known values.
    #[allow(clippy::too_many_arguments)]
    fn padded(&mut self, d: &V, t: Ty, v: &V, flags: u32, width: usize, wi: bool, pi: bool, av: &[V]) -> R<Option<String>> {
        if pi || flags & (0b1111 << 21 | 0b11 << 25 | 1 << 28) != 0 && flags & (1 << 24) == 0 || flags == u32::MAX { return Ok(None) }
        let w = if wi { match av.get(width) { Some(V::FmtArg(x, ..)) => match self.deref(x)? { V::Int(i) => i as usize, _ => return Ok(None) }, Some(x) => match self.deref(x)? { V::Int(i) => i as usize, _ => return Ok(None) }, None => return Ok(None) } } else { width };
        let V::Str(s) = self.display(d, t, v)? else { return Ok(None) };
        let Some(s) = as_lit(&s) else { return Ok(None) };
        let num = matches!(d, V::Int(_)) && !matches!(strip_ref(t).kind(), TyKind::RigidTy(RigidTy::Char | RigidTy::Bool));
        let n = w.saturating_sub(s.chars().count());
        let zero = flags & (1 << 24) != 0;
        if zero && num { return Ok(Some(format!("{}{s}", "0".repeat(n)))) }
        let fill = char::from_u32(flags & 0x1f_ffff).unwrap_or(' ').to_string();
        let left = match flags >> 29 & 3 { 0 => 0, 1 => n, 2 => n / 2, _ => if num { n } else { 0 } };
        Ok(Some(format!("{}{s}{}", fill.repeat(left), fill.repeat(n - left))))
    }
    // ------------------------------------------------------------ general std
    fn model_std(&mut self, name: &str, inst: &Instance, a: &[V]) -> R<Option<V>> {
        let m = name.rsplit("::").next().unwrap_or("");
        // diverging helpers
        if name.starts_with("core::panicking::") || name.starts_with("std::rt::panic") || name.starts_with("std::panicking::") || m == "unwrap_failed" || m == "expect_failed" || m == "panic_explicit" || m == "resume_unwind" || m == "panic_any" || m == "begin_panic" || m == "unreachable_display" || m == "panic_const" || name.contains("panic_bounds_check") || name.contains("slice_error_fail") || name.starts_with("std::option::unwrap_failed") || name.contains("::panic_fmt") {
            let msg = a.iter().map(|x| match self.deref(x) { Ok(V::Str(s)) => show_str(&s), Ok(v @ V::Top(_)) => term(&v), _ => self.render_args(x).map(|s| show_str(&s)).unwrap_or_else(|_| term(x)) }).collect::<Vec<_>>().join(" ");
            return Err(Exit::Panic(format!("{msg} in {}", self.frames.iter().rev().find(|f| &***f != "lib").map(|x| x.to_string()).unwrap_or_default())));
        }
        if m == "unreachable_unchecked" { return Err(Exit::Infeasible) }
        if name.ends_with("process::exit") { return Err(Exit::ProcExit(a[0].clone())) }
        if name.ends_with("process::abort") { return Err(Exit::ProcExit(V::Int(134))) }
        Ok(Some(match name {
            // formatting
            n if n.ends_with("rt::Argument::new_display") => V::FmtArg(Box::new(a[0].clone()), ty_arg(inst, 0).unwrap(), false),
            n if n.contains("rt::Argument::new_") && !n.ends_with("new_debug") && !n.ends_with("from_usize") => { let d = self.deref(&a[0])?; V::FmtArg(Box::new(V::top(format!("{m} {}", term(&d)))), ty_arg(inst, 0).unwrap_or_else(|| inst.ty()), true) }
            n if n.contains("rt::Argument::new_") || n.ends_with("Argument::from_usize") => V::FmtArg(Box::new(a[0].clone()), ty_arg(inst, 0).unwrap_or_else(|| inst.ty()), true),
            n if n.ends_with("fmt::Arguments::new") => self.fmt_args(&a[0], &a[1])?,
            n if n.ends_with("fmt::Arguments::from_str") || n.ends_with("fmt::Arguments::new_const") || n.ends_with("fmt::Arguments::from_str_nonconst") => V::Ext("fmt".into(), Rc::new(vec![V::Str(self.str_of(&a[0])?)])),
            "alloc::fmt::format" | "std::fmt::format" => V::Str(self.render_args(&a[0])?),
            n if n.ends_with("::_print") || n.ends_with("::_eprint") => { let s = self.render_args(&a[0])?; let w = m.trim_start_matches('_').to_string(); self.event(&w, vec![V::Str(s)]); V::unit() }
            // Vec and slices
            n if n.ends_with("vec::Vec::new") || n.ends_with("vec::Vec::with_capacity") || (n.ends_with("Default::default") && matches!(ty_arg(inst, 0).map(adt_name), Some(ref s) if s == "Vec")) => V::vec(vec![]),
            n if n.ends_with("Default::default") && matches!(ty_arg(inst, 0).map(adt_name), Some(ref s) if s == "String") => V::lit(""),
            n if n.ends_with("Default::default") && matches!(ty_arg(inst, 0).map(adt_name), Some(ref s) if s == "Option") => V::none(),
            n if n.ends_with("Default::default") && matches!(ty_arg(inst, 0).map(adt_name), Some(ref s) if s == "HashMap" || s == "BTreeMap" || s == "HashSet" || s == "BTreeSet") => V::Map(Rc::new(vec![])),
            n if n.contains("vec::Vec::") || n.contains("slice::<impl [T]>::") || n.contains("VecDeque::") => return self.model_vec(m, n, inst, a),
            n if n.contains("box_assume_init_into_vec_unsafe") || n.ends_with("<impl [T]>::into_vec") => self.unwrap_vec(&a[0])?,
            n if n.ends_with("slice::from_ref") => { let V::Ptr(..) = &a[0] else { return unsup("from_ref") }; let v = self.load(&a[0])?; self.ptr_to(V::vec(vec![v])) }
            n if n.ends_with("Deref::deref") || n.ends_with("DerefMut::deref_mut") => { match self.load(&a[0])? { V::Str(s) => V::Str(s), V::Ptr(x, p) => V::Ptr(x, p), V::Vec(_) => a[0].clone(), V::Dyn(x, t) => V::Dyn(x, t), V::Slice(x, p, s, n) => V::Slice(x, p, s, n), V::Ext(k, f) if &*k == "ref" || &*k == "lazylock" => { if f.is_empty() { return Ok(None) } f[0].clone() } _ => return Ok(None) } }
            n if n.ends_with("Index::index") || n.ends_with("IndexMut::index_mut") => return self.model_index(inst, a).map(Some),
            n if n.ends_with("Extend::extend") => { let items = self.drain(&a[1], last_ty(inst))?; match self.deref(&a[0])? { V::Str(mut s) => { for i in items { let t = match self.deref(&i)? { V::Int(c) => lit(&char::from_u32(c as u32).unwrap_or('?').to_string()), x => self.str_of(&x)? }; s = cat(&s, &t) } self.store(&a[0], V::Str(s))? } V::Map(_) => { for i in items { if let V::Agg(_, f) = &i { let (k, v) = (f[0].clone(), f[1].clone()); self.map_insert(&a[0], k, v)?; } } } _ => { let refs = items.iter().any(|x| matches!(x, V::Ptr(..))); let want_copy = refs && matches!(last_ty(inst).map(adt_name), Some(ref s) if s.starts_with('&')); let mut it = vec![]; for i in items { it.push(if want_copy && !self.elem_is_ref(inst) { self.load(&i)? } else { i }) } self.vec_mut(&a[0], |x| x.extend(it))? } } V::unit() }
            // boxes, cells, references
            n if n.ends_with("Box::new") || n.ends_with("Rc::new") || n.ends_with("Arc::new") || n.ends_with("Box::pin") => self.ptr_to(a[0].clone()),
            n if n.ends_with("Box::new_uninit") => self.ptr_to(V::Undef),
            n if n.ends_with("Box::leak") || n.ends_with("Box::into_raw") || n.ends_with("Box::from_raw") || n.ends_with("Box::into_inner_ptr") || n.ends_with("Box::assume_init") || n.ends_with("Box::as_mut_ptr") || n.ends_with("Box::as_ptr") => a[0].clone(),
            n if n.ends_with("MaybeUninit::as_mut_ptr") || n.ends_with("MaybeUninit::as_ptr") || n.ends_with("NonNull::as_ptr") || n.ends_with("NonNull::new_unchecked") || n.ends_with("Unique::as_ptr") => a[0].clone(),
            n if !a.is_empty() && (n.ends_with("Cell::new") || n.ends_with("RefCell::new") || n.ends_with("OnceCell::new") || n.ends_with("UnsafeCell::new") || n.ends_with("Mutex::new")) => a[0].clone(),
            n if n.ends_with("OnceCell::new") => V::none(),
            n if n.ends_with("Cell::get") && !n.contains("UnsafeCell") && !n.contains("OnceCell") => self.load_cell(&a[0])?,
            n if n.ends_with("Cell::set") && n.contains("OnceCell") => { let v = self.load_cell(&a[0])?; match v { V::Agg(1, _) => V::err(a[1].clone()), _ => { self.store_cell(&a[0], V::some(a[1].clone()))?; V::ok(V::unit()) } } }
            n if n.ends_with("OnceCell::get") => { match self.load_cell(&a[0])? { V::Agg(1, _) => V::some(Self::ptr_elem(&a[0], 0)?), _ => V::none() } }
            n if n.ends_with("Cell::set") => { self.store_cell(&a[0], a[1].clone())?; V::unit() }
            n if n.ends_with("Cell::replace") || n.ends_with("mem::replace") => { let v = self.load_cell(&a[0])?; self.store_cell(&a[0], a[1].clone())?; v }
            n if n.ends_with("Cell::take") => { let v = self.load_cell(&a[0])?; let d = self.default_like(&v); self.store_cell(&a[0], d)?; v }
            n if n.ends_with("mem::take") => { let v = self.load_cell(&a[0])?; let d = self.default_like(&v); self.store_cell(&a[0], d)?; v }
            n if n.ends_with("mem::swap") => { let (x, y) = (self.load(&a[0])?, self.load(&a[1])?); self.store(&a[0], y)?; self.store(&a[1], x)?; V::unit() }
            n if n.ends_with("mem::drop") || n.ends_with("mem::forget") || n.ends_with("drop_in_place") => V::unit(),
            n if n.ends_with("RefCell::borrow") || n.ends_with("RefCell::borrow_mut") || n.ends_with("RefCell::get_mut") => V::Ext("ref".into(), Rc::new(vec![a[0].clone()])),
            n if n.ends_with("Clone::clone") || n.ends_with("clone::impls::clone") => {
                let v = self.load(&a[0])?;
                match v { V::Int(_) | V::Str(_) | V::Top(_) | V::Node(_) | V::Cursor(..) | V::Fn(_) | V::Ext(..) => v, V::Ptr(x, p) => { if matches!(ty_arg(inst, 0).map(adt_name), Some(ref s) if s == "Box") { let i = self.load(&V::Ptr(x, p))?; self.ptr_to(i) } else { V::Ptr(x, p) } } V::Vec(x) => { let t = ty_arg(inst, 0).and_then(|t| adt_args(t).first().copied()); let mut o = vec![]; for (k, e) in x.iter().enumerate() { let p = Self::ptr_elem(&self.last_ptr(&a[0])?, k as u32)?; o.push(self.clone_val(e, &p, t)?) } V::vec(o) } V::Iter(_) | V::Built(_) | V::Lazy(_) => v, V::Agg(..) => { if Self::is_local(*inst) { return Ok(None) } return self.clone_agg(v, inst, a) } V::Undef => return unsup("clone of undefined"), x => x }
            }
            n if n.ends_with("LocalKey::with") => {
                let k = self.load(&a[0])?;
                let f = match k { V::Agg(_, f) => f[0].clone(), x => x };
                let V::Fn(i) = f else { return unsup("thread local key") };
                let cell = self.enter(i, vec![V::none()])?;
                let t = ty_arg(inst, 1).ok_or(Exit::Unsup("with".into()))?;
                return self.call_value(&a[1], t, vec![cell]).map(Some);
            }
            n if n.ends_with("hint::must_use") || n.ends_with("hint::black_box") || n.ends_with("convert::identity") => a[0].clone(),
            n if n.ends_with("Arena::new") || n.ends_with("Arena::with_capacity") => V::Ext("arena".into(), Rc::new(vec![])),
            n if n.contains("Arena::alloc") && m == "alloc" => self.ptr_to(a[1].clone()),
            n if n.ends_with("Arena::alloc_str") => V::Str(self.str_of(&a[1])?),
            n if n.ends_with("FnOnce::call_once") || n.ends_with("FnMut::call_mut") || n.ends_with("Fn::call") => { let t = ty_arg(inst, 0).unwrap(); let args = match &a[1] { V::Agg(_, f) => (**f).clone(), _ => return unsup("call args") }; return self.call_value(&a[0], t, args).map(Some) }
            n if n.ends_with("Borrow::borrow") || n.ends_with("AsRef::as_ref") || n.ends_with("BorrowMut::borrow_mut") || n.ends_with("AsMut::as_mut") => match self.load(&a[0])? { V::Ptr(x, p) => V::Ptr(x, p), _ => a[0].clone() },
            n if n.ends_with("Into::into") => { if let (Some(f), Some(t)) = (ty_arg(inst, 0), ty_arg(inst, 1)) { if f == t || matches!(a[0], V::Int(_) | V::Top(_)) { return Ok(Some(a[0].clone())) } } if self.c.body(*inst).is_none() { a[0].clone() } else { return Ok(None) } }
            n if n.ends_with("From::from") => { if let (Some(f), Some(t)) = (ty_arg(inst, 0), ty_arg(inst, 1)) { if f == t || matches!(a[0], V::Int(_)) { return Ok(Some(a[0].clone())) } let (fs, _ts) = (adt_name(f), adt_name(t)); if fs == "Box" || fs == "Rc" { return Ok(Some(self.ptr_to(a[0].clone()))) } if fs == "Option" { return Ok(Some(V::some(a[0].clone()))) } } return Ok(None) }
            n if n.ends_with("TryFrom::try_from") || n.ends_with("TryInto::try_into") => match &a[0] { V::Int(i) if ty_range(ty_arg(inst, if m == "try_from" { 0 } else { 1 })).is_some_and(|r| *i >= r.0 && *i <= r.1) => V::ok(V::Int(*i)), V::Int(i) if ty_range(ty_arg(inst, if m == "try_from" { 0 } else { 1 })).is_some() => V::err(V::top(format!("{i} out of range"))), V::Top(_) => V::ok(a[0].clone()), _ => return Ok(None) },
            // comparison
            n if n.ends_with("PartialEq::eq") || n.ends_with("PartialEq::ne") => {
                let (x, y) = (self.deref(&a[0])?, self.deref(&a[1])?);
                let r = match (&x, &y) { (V::Int(p), V::Int(q)) => V::b(p == q), (V::Node(p), V::Node(q)) => V::b(p == q), (V::Top(_) | V::Lin(_), _) | (_, V::Top(_) | V::Lin(_)) | (V::Ext(..), _) => self.binop(rustc_public::mir::BinOp::Eq, x, y)?, (V::Vec(p), V::Vec(q)) => { if p.len() != q.len() { V::b(false) } else if p.iter().zip(q.iter()).all(|(x, y)| matches!((x, y), (V::Int(a), V::Int(b)) if a == b)) { V::b(true) } else { return Ok(None) } } (V::Agg(i, f), V::Agg(j, g)) => { if i != j { V::b(false) } else if f.is_empty() && g.is_empty() { V::b(true) } else { return Ok(None) } } _ => return Ok(None) };
                if m == "ne" { neg(r) } else { r }
            }
            n if n.ends_with("PartialOrd::lt") || n.ends_with("PartialOrd::le") || n.ends_with("PartialOrd::gt") || n.ends_with("PartialOrd::ge") => { use rustc_public::mir::BinOp; let (x, y) = (self.deref(&a[0])?, self.deref(&a[1])?); if matches!(x, V::Int(_) | V::Lin(_) | V::Top(_) | V::Ext(..)) { self.binop(match m { "lt" => BinOp::Lt, "le" => BinOp::Le, "gt" => BinOp::Gt, _ => BinOp::Ge }, x, y)? } else { return Ok(None) } }
            n if n.ends_with("Ord::cmp") || n.ends_with("PartialOrd::partial_cmp") => { let (x, y) = (self.deref(&a[0])?, self.deref(&a[1])?); let o = match (&x, &y) { (V::Int(p), V::Int(q)) => p.cmp(q) as i128, _ => return Ok(None) }; let v = V::agg((o + 1) as u32, vec![]); if m == "cmp" { v } else { V::some(v) } }
            n if n.ends_with("cmp::min") || n.ends_with("cmp::max") || n.ends_with("Ord::min") || n.ends_with("Ord::max") => match (&a[0], &a[1]) { (V::Int(x), V::Int(y)) => V::Int(if m == "min" { *x.min(y) } else { *x.max(y) }), (x, y) if matches!(x, V::Lin(_)) || matches!(y, V::Lin(_)) => { let le = self.binop(BinOp::Le, x.clone(), y.clone())?; if matches!(le, V::Int(1)) == (m == "min") { x.clone() } else { y.clone() } } (x, y) => V::top(format!("{m}({},{})", term(x), term(y))) },
            // integers
            n if n.contains("num::<impl ") && a.iter().all(|x| matches!(x, V::Int(_))) && int_range(n).is_some() => {
                let (lo, hi) = int_range(n).unwrap();
                let v: Vec<i128> = a.iter().map(|x| if let V::Int(i) = x { *i } else { 0 }).collect();
                let wrap = |x: i128| { let w = hi - lo + 1; (x - lo).rem_euclid(w) + lo };
                let opt = |o: Option<i128>| match o { Some(x) if x >= lo && x <= hi => V::some(V::Int(x)), _ => V::none() };
                match (m, &v[..]) {
                    ("saturating_sub", [x, y]) => V::Int((x - y).clamp(lo, hi)), ("saturating_add", [x, y]) => V::Int((x + y).clamp(lo, hi)), ("saturating_mul", [x, y]) => V::Int(x.saturating_mul(*y).clamp(lo, hi)),
                    ("wrapping_sub", [x, y]) => V::Int(wrap(x - y)), ("wrapping_add", [x, y]) => V::Int(wrap(x + y)),
                    ("checked_sub", [x, y]) => opt(Some(x - y)), ("checked_add", [x, y]) => opt(Some(x + y)), ("checked_mul", [x, y]) => opt(x.checked_mul(*y)), ("checked_div", [x, y]) => opt(x.checked_div(*y)),
                    ("abs_diff", [x, y]) => V::Int((x - y).abs()), ("pow", [x, y]) => match x.checked_pow(*y as u32) { Some(z) if z <= hi && z >= lo => V::Int(z), _ => return Err(Exit::Panic("overflow".into())) },
                    ("div_ceil", [x, y]) if *y > 0 => V::Int(x.div_euclid(*y) + (x.rem_euclid(*y) > 0) as i128), ("next_multiple_of", [x, y]) if *y > 0 => V::Int((x + y - 1) / y * y),
                    ("rem_euclid", [x, y]) if *y != 0 => V::Int(x.rem_euclid(*y)), ("div_euclid", [x, y]) if *y != 0 => V::Int(x.div_euclid(*y)), ("abs", [x]) => V::Int(x.abs()), ("signum", [x]) => V::Int(x.signum()),
                    ("count_ones", [x]) if *x >= 0 => V::Int(x.count_ones() as i128), ("is_power_of_two", [x]) => V::b(x.count_ones() == 1),
                    ("overflowing_add", [x, y]) => V::agg(0, vec![V::Int(wrap(x + y)), V::b(x + y > hi || x + y < lo)]), ("overflowing_sub", [x, y]) => V::agg(0, vec![V::Int(wrap(x - y)), V::b(x - y > hi || x - y < lo)]),
                    ("is_ascii_digit", [x]) => V::b((48..58).contains(x)), ("is_ascii_alphabetic", [x]) => V::b((*x as u8).is_ascii_alphabetic()), ("is_ascii_alphanumeric", [x]) => V::b((*x as u8).is_ascii_alphanumeric()), ("is_ascii_whitespace", [x]) => V::b((*x as u8).is_ascii_whitespace()), ("is_ascii_punctuation", [x]) => V::b((*x as u8).is_ascii_punctuation()),
                    ("to_ascii_lowercase", [x]) => V::Int((*x as u8).to_ascii_lowercase() as i128), ("to_ascii_uppercase", [x]) => V::Int((*x as u8).to_ascii_uppercase() as i128),
                    _ => return Ok(None),
                }
            }
            n if n.contains("num::<impl ") && a.iter().any(|x| matches!(x, V::Lin(_))) && a.len() == 2 && a.iter().all(|x| Lin::of(x).is_some()) => {
                let (x, y) = (a[0].clone(), a[1].clone());
                let ge = |s: &mut Self| -> R<bool> { Ok(matches!(s.binop(BinOp::Ge, x.clone(), y.clone())?, V::Int(1))) };
                match m {
                    "saturating_sub" => if ge(self)? { self.binop(BinOp::Sub, x, y)? } else { V::Int(0) },
                    "checked_sub" => if ge(self)? { let d = self.binop(BinOp::Sub, x, y)?; V::some(d) } else { V::none() },
                    "abs_diff" => if ge(self)? { self.binop(BinOp::Sub, x, y)? } else { self.binop(BinOp::Sub, y, x)? },
                    "wrapping_sub" => if ge(self)? { self.binop(BinOp::Sub, x, y)? } else { return unsup("wrapped difference") },
                    "overflowing_sub" => if ge(self)? { let d = self.binop(BinOp::Sub, x, y)?; V::agg(0, vec![d, V::b(false)]) } else { return unsup("wrapped difference") },
                    "saturating_add" | "wrapping_add" => self.binop(BinOp::Add, x, y)?,
                    "checked_add" => { let d = self.binop(BinOp::Add, x, y)?; V::some(d) }
                    _ => return unsup(format!("{m} of an unknown number")),
                }
            }
            n if n.contains("num::<impl ") => match (m, &a[0], a.get(1)) {
                ("saturating_sub", V::Int(x), Some(V::Int(y))) => V::Int((x - y).max(0)), ("saturating_add" | "wrapping_add", V::Int(x), Some(V::Int(y))) => V::Int(x + y), ("wrapping_sub", V::Int(x), Some(V::Int(y))) => V::Int(x - y),
                ("checked_sub", V::Int(x), Some(V::Int(y))) => if x >= y { V::some(V::Int(x - y)) } else { V::none() }, ("checked_add", V::Int(x), Some(V::Int(y))) => V::some(V::Int(x + y)),
                ("checked_add" | "checked_sub" | "checked_mul", x, Some(y)) => { let d = self.choose_memo(&format!("{m}({},{})", term(x), term(y)), 2)?; if d == 0 { V::some(V::top(format!("{m}({},{})", term(x), term(y)))) } else { V::none() } }
                ("abs_diff", V::Int(x), Some(V::Int(y))) => V::Int((x - y).abs()), ("pow", V::Int(x), Some(V::Int(y))) => V::Int(x.pow(*y as u32)),
                (_, x, Some(y)) => V::top(format!("{m}({},{})", term(x), term(y))), (_, x, None) => V::top(format!("{m}({})", term(x))),
            },
            n if n.ends_with("intrinsics::raw_eq") => { let (x, y) = (self.deref(&a[0])?, self.deref(&a[1])?); match (&x, &y) { (V::Vec(p), V::Vec(q)) if p.iter().chain(q.iter()).all(Self::plain) => V::b(p.len() == q.len() && p.iter().zip(q.iter()).all(|(x, y)| term(x) == term(y))), _ => return Ok(None) } }
            n if n.contains("ptr::") && m == "is_null" => V::b(false),
            n if n.ends_with("vec::from_elem") => { let V::Int(k) = a[1] else { return unsup("from_elem") }; if k > 4096 { return unsup("big vector") } V::vec(vec![a[0].clone(); k as usize]) }
            n if n.ends_with("ptr::write") || n.ends_with("ptr::mut_ptr::<impl *mut T>::write") || n.contains("<impl *mut T>::write") => { self.store_through(&a[0], a[1].clone())?; V::unit() }
            n if n.ends_with("ptr::read") || n.contains("<impl *const T>::read") || n.contains("<impl *mut T>::read") => self.load(&a[0])?,
            n if n.contains("<impl *const T>::cast") || n.contains("<impl *mut T>::cast") || n.ends_with("NonNull::cast") => a[0].clone(),
            // maps
            n if (n.contains("HashMap::") || n.contains("HashSet::") || n.contains("BTreeMap::") || n.contains("BTreeSet::")) => return self.model_map(m, n, inst, a),
            n if n.contains("Entry::or_insert") || n.contains("Entry::or_default") || n.ends_with("OccupiedEntry::into_mut") => {
                let V::Ext(_, f) = &a[0] else { return unsup("entry") };
                let (mp, k) = (f[0].clone(), f[1].clone());
                if let Some(i) = self.map_find(&mp, &k)? { return Ok(Some(Self::ptr_elem(&self.last_ptr(&mp)?, i as u32)?)) }
                let v = if m == "or_insert_with" { self.call_value(&a[1], last_ty(inst).unwrap(), vec![])? } else if m == "or_insert" { a[1].clone() } else if m == "or_default" { let t = last_ty_before_alloc(inst); self.default_of(t)? } else { return unsup(m) };
                if n.contains("btree") || n.contains("BTree") { self.ordered = Some(self.map_place(&mp, &k)?) }
                let i = self.map_push(&mp, k, v)?; Self::ptr_elem(&self.last_ptr(&mp)?, i as u32)?
            }
            n if n.contains("Entry::and_modify") => {
                let V::Ext(_, f) = &a[0] else { return unsup("entry") };
                let (mp, k) = (f[0].clone(), f[1].clone());
                if let Some(i) = self.map_find(&mp, &k)? { let q = Self::ptr_elem(&self.last_ptr(&mp)?, i as u32)?; self.call_value(&a[1], last_ty(inst).unwrap(), vec![q])?; }
                a[0].clone()
            }
            // process, files, threads, time
            n if n.ends_with("fs::read_to_string") => { let p = self.path_of(&a[0])?; self.event("read", vec![V::Str(p.clone())]); let nth = self.events.iter().filter(|e| e.what == "read" && matches!(&e.args[0], V::Str(x) if show_str(x) == show_str(&p))).count(); if self.choose_memo(&format!("read {} fails", show_str(&p)), 2)? == 1 { V::err(V::Top(format!("ioerror(read {})", show_str(&p)).as_str().into())) } else { let _ = nth; V::ok(V::Str(Rc::new(vec![Part::Unk(format!("content of {}", show_str(&p)).as_str().into())]))) } }
            n if n.ends_with("fs::write") => { let p = self.path_of(&a[0])?; let c = self.deref(&a[1])?; let c = match &c { V::Ext(n, f) if &**n == "bytes" => f[0].clone(), c => c.clone() }; self.event("write", vec![V::Str(p.clone()), c]); if self.choose_memo(&format!("write {} fails", show_str(&p)), 2)? == 1 { V::err(V::Top(format!("ioerror(write {})", show_str(&p)).as_str().into())) } else { V::ok(V::unit()) } }
            n if n.ends_with("Path::new") || n.ends_with("PathBuf::from") || n.ends_with("Path::to_path_buf") => V::Str(self.path_of(&a[0])?),
            n if n.starts_with("std::fs::") || n.starts_with("std::process::") || n.starts_with("std::net::") || n.starts_with("std::env::") || n.contains("fs::File::") || n.contains("fs::OpenOptions") => { let mut v = vec![]; for x in a { v.push(self.deref(x).unwrap_or(V::Undef)) } self.event(&format!("sys {n}"), v); let t = V::top(format!("{n}#{}", self.events.len())); t }
            n if n.ends_with("Instant::now") || n.ends_with("SystemTime::now") || n.ends_with("Instant::elapsed") => { self.event("clock", vec![]); V::top("clock") }
            n if n.ends_with("panic::catch_unwind") => {
                let t = ty_arg(inst, 0).unwrap();
                let (fr, st, d) = (self.frames.len(), self.stack.len(), self.depth);
                match self.call_value(&a[0], t, vec![]) { Ok(v) => V::ok(v), Err(Exit::Panic(p)) => { self.frames.truncate(fr); self.stack.truncate(st); self.depth = d; self.event("caught", vec![V::lit(&p)]); V::err(V::top("panic payload")) } Err(e) => return Err(e) }
            }
            n if n.ends_with("panic::set_hook") || n.ends_with("panicking::set_hook") => { self.event("hook", vec![]); V::unit() }
            n if n.ends_with("AssertUnwindSafe") => V::agg(0, a.to_vec()),
            n if n.ends_with("thread::spawn") || n.ends_with("Scope::spawn") => {
                let t = if n.ends_with("Scope::spawn") { ty_arg(inst, 0) } else { ty_arg(inst, 0) }.unwrap();
                self.event("spawn", vec![]);
                // thread-local state is fresh in the new thread
                let saved = self.statics.clone();
                let tls = self.tls.clone(); self.statics.retain(|k, _| !tls.contains(k));
                let (fr, st, d) = (self.frames.len(), self.stack.len(), self.depth);
                let f = if n.ends_with("Scope::spawn") { a[1].clone() } else { a[0].clone() };
                let r = self.call_value(&f, t, vec![]);
                let tls = self.tls.clone(); self.statics.retain(|k, _| !tls.contains(k)); for (k, v) in saved { if tls.contains(&k) { self.statics.insert(k, v); } }
                let r = match r { Ok(v) => V::ok(v), Err(Exit::Panic(p)) => { self.frames.truncate(fr); self.stack.truncate(st); self.depth = d; self.event("thread died", vec![V::lit(&p)]); V::err(V::top("panic payload")) } Err(e) => return Err(e) };
                self.event("joined", vec![]);
                V::Ext("join".into(), Rc::new(vec![r]))
            }
            n if n.ends_with("JoinHandle::join") => { self.alive[1] += 1; for (q, k) in self.bounded.clone() { if self.elems(&V::Ptr(q, Rc::new(vec![])))?.len() > k { return Err(Exit::Endless("waits for a thread that waits for its message to be taken".into())) } } match &a[0] { V::Ext(_, f) => f[0].clone(), _ => return unsup("join") } }
            n if n.ends_with("mpsc::channel") || n.ends_with("mpsc::sync_channel") => { let q = self.alloc(V::vec(vec![])); let h = |x: i128| V::Ext("chan".into(), Rc::new(vec![V::Ptr(q, Rc::new(vec![])), V::Int(x)]));
                if n.ends_with("sync_channel") { if let V::Int(k) = &a[0] { self.bounded.push((q, *k as usize)) } }
                self.alive[0] += 1; V::agg(0, vec![h(0), h(1)]) }
            n if n.ends_with("Sender::send") => { let V::Ext(_, f) = self.deref(&a[0])? else { return unsup("send") }; let x = a[1].clone(); self.event("send", vec![x.clone()]); self.vec_mut(&f[0], |q| q.push(x))?; V::ok(V::unit()) }
            // a message may come later than a receiver that does not wait looks for it
            n if n.ends_with("Receiver::recv") || n.ends_with("Receiver::try_recv") || n.ends_with("Receiver::recv_timeout") => {
                let V::Ext(_, f) = self.deref(&a[0])? else { return unsup("recv") };
                let waits = n.ends_with("Receiver::recv");
                if !waits && self.early()? { return Ok(Some(V::err(V::agg(0, vec![])))) }
                if waits { self.waits(&f[0], false)? }
                match self.receive(&f[0])? { Some(v) => V::ok(v), None => V::err(V::agg(!waits as u32, vec![])) }
            }
            n if n.ends_with("Receiver::iter") || n.ends_with("Receiver::try_iter") => {
                let V::Ext(_, f) = self.deref(&a[0])? else { return unsup("recv") };
                if n.ends_with("Receiver::try_iter") { if self.early()? { return Ok(Some(V::seq(vec![]))) } } else { self.waits(&f[0], true)? }
                let v = self.receive_all(&f[0])?; V::seq(v)
            }
            n if n.ends_with("toml::from_str") || n.ends_with("de::from_str") => { let s = self.str_of(&a[0])?; let t = ty_arg(inst, 0).or(last_ty(inst)).unwrap(); self.event("parse-config", vec![V::Str(s.clone())]); if self.choose_memo(&format!("parse {} fails", show_str(&s)), 2)? == 1 { V::err(V::top(format!("parse error of {}", show_str(&s)))) } else { V::ok(self.symbolic(t, &format!("parsed({})", show_str(&s)))) } }
            n if n.starts_with("clap") => return self.model_clap(m, n, inst, a).map(Some),
            _ => return Ok(None),
        }))
    }
    /// A value of type `t` about which nothing is known.
    pub fn symbolic(&mut self, t: Ty, name: &str) -> V {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, ga)) if d.kind() == AdtKind::Struct => { let n = d.name(); if n.ends_with("String") { return V::Str(Rc::new(vec![Part::Unk(name.into())])) } let k = d.krate().name; if k != "sf_afmt" && k != "afmt" { return V::top(name) } let f = d.variants()[0].fields().iter().map(|f| self.symbolic(f.ty_with_args(&ga), &format!("{name}.{}", f.name))).collect(); V::agg(0, f) }
            TyKind::RigidTy(RigidTy::Ref(_, u, _)) => match u.kind() { TyKind::RigidTy(RigidTy::Str) => V::Str(Rc::new(vec![Part::Unk(name.into())])), _ => { let v = self.symbolic(u, name); self.ptr_to(v) } },
            _ => V::top(name),
        }
    }
    pub fn event(&mut self, what: &str, args: Vec<V>) { let st = self.frames.iter().filter(|f| &***f != "lib").map(|f| f.to_string()).collect(); self.events.push(Event { what: what.into(), args, stack: st }) }
    /// The command-line parser: its specification is recorded, the values it
    /// returns are unknown.
    fn model_clap(&mut self, m: &str, n: &str, inst: &Instance, a: &[V]) -> R<V> {
        let mut v = vec![];
        for (k, x) in a.iter().enumerate() {
            let x = self.deref(x)?;
            let named = |t: Ty| if let (V::Agg(i, f), TyKind::RigidTy(RigidTy::Adt(d, _))) = (&x, t.kind()) { if f.is_empty() && d.kind() == AdtKind::Enum { return Some(V::lit(&d.variants()[*i as usize].name())) } None } else { None };
            let nm = if k > 0 { inst.args().0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None }).find_map(named) } else { None };
            v.push(nm.unwrap_or(x));
        }
        let id = |i: &mut Self| -> R<String> { match a.get(1) { Some(x) => { let s = i.str_of(x)?; as_lit(&s).ok_or(Exit::Unsup("option id".into())) } None => unsup("option id") } };
        Ok(match (m, v.first()) {
            ("new", _) => V::Ext(if n.contains("Command") { "clap:Command" } else { "clap:Arg" }.into(), Rc::new(v)),
            ("get_matches" | "get_matches_mut" | "get_matches_from", Some(x)) => { self.event("cli", vec![x.clone()]); V::Ext("matches".into(), Rc::new(vec![x.clone()])) }
            ("try_get_matches" | "try_get_matches_from", Some(x)) => { self.event("cli", vec![x.clone()]); V::ok(V::Ext("matches".into(), Rc::new(vec![x.clone()]))) }
            ("get_flag", _) => { let i = id(self)?; V::top(format!("flag:{i}")) }
            ("get_one" | "remove_one", Some(V::Ext(_, c))) => {
                let i = id(self)?;
                let req = cli_args(&c[0]).iter().any(|g| g.id == i && g.has("required", "1"));
                if req || self.choose_memo(&format!("given:{i}"), 2)? == 1 { let s = V::Str(Rc::new(vec![Part::Unk(format!("arg:{i}").as_str().into())])); if m == "get_one" { V::some(self.ptr_to(s)) } else { V::some(s) } } else { V::none() }
            }
            ("contains_id", _) => { let i = id(self)?; V::b(self.choose_memo(&format!("given:{i}"), 2)? == 1) }
            (_, Some(V::Ext(k, f))) if k.starts_with("clap:") => { let mut f = (**f).clone(); f.push(V::Ext(m.into(), Rc::new(v[1..].to_vec()))); V::Ext(k.clone(), Rc::new(f)) }
            _ => V::top(format!("{m}({})", v.iter().skip(1).map(term).collect::<Vec<_>>().join(","))),
        })
    }
    /// Messages of concurrent senders arrive in any order.
    fn receive(&mut self, q: &V) -> R<Option<V>> { let n = self.elems(q)?.len(); if n == 0 { return Ok(None) } let k = self.choose(n, || "arrival order".into())?; self.vec_mut(q, |v| Some(v.remove(k))) }
    /// Looks for a message before the thread that sends it has finished.
    fn early(&mut self) -> R<bool> { let spawned = self.events.iter().filter(|e| e.what == "spawn").count(); if self.alive[1] >= spawned || self.events.iter().any(|e| e.what == "no message yet") { return Ok(false) } let e = self.choose(2, || "the message is late".into())? == 1; if e { self.event("no message yet", vec![]) } Ok(e) }
    /// A receiver waits as long as someone could still send.
    fn waits(&mut self, q: &V, all: bool) -> R<()> {
        let V::Ptr(a, _) = q else { return Ok(()) };
        if !all && !self.elems(q)?.is_empty() { return Ok(()) }
        if self.stack.iter().any(|v| Self::sender(v, Some(*a), 0)) { return Err(Exit::Endless("waits for messages although nobody will send or close the channel".into())) }
        Ok(())
    }
    fn receive_all(&mut self, q: &V) -> R<Vec<V>> { let mut o = vec![]; while let Some(x) = self.receive(q)? { o.push(x) } Ok(o) }
    fn path_of(&mut self, v: &V) -> R<AStr> { self.str_of(v) }
    fn elem_is_ref(&self, inst: &Instance) -> bool { match ty_arg(inst, 0) { Some(t) => adt_args(t).first().map(|t| matches!(t.kind(), TyKind::RigidTy(RigidTy::Ref(..)))).unwrap_or(false), None => false } }
    fn clone_val(&mut self, e: &V, _p: &V, t: Option<Ty>) -> R<V> {
        match e {
            V::Ptr(x, q) => { if let Some(t) = t { if adt_name(t) == "Box" { let i = self.load(&V::Ptr(*x, q.clone()))?; return Ok(self.ptr_to(i)) } } Ok(e.clone()) }
            _ => Ok(e.clone()),
        }
    }
    fn clone_agg(&mut self, v: V, _inst: &Instance, _a: &[V]) -> R<Option<V>> { Ok(Some(v)) }
    fn default_like(&self, v: &V) -> V { match v { V::Vec(_) => V::vec(vec![]), V::Str(_) => V::lit(""), V::Map(_) => V::Map(Rc::new(vec![])), V::Agg(..) => V::none(), V::Int(_) => V::Int(0), _ => V::Undef } }
    fn load_cell(&mut self, p: &V) -> R<V> { let mut v = self.load(p)?; while let V::Agg(_, f) = &v { if f.len() == 1 && matches!(f[0], V::Agg(..)) && self.is_cell_wrapper(p) { v = f[0].clone() } else { break } } Ok(v) }
    fn is_cell_wrapper(&self, _p: &V) -> bool { false }
    fn store_cell(&mut self, p: &V, x: V) -> R<()> { self.store_through(p, x) }
    fn store_through(&mut self, p: &V, x: V) -> R<()> { match p { V::Ptr(a, q) => self.set(*a, q, x), V::Dyn(p, _) => { let p = (**p).clone(); self.store_through(&p, x) } o => unsup(format!("store through {}", term(o))) } }
    /// The element vector inside nested box / uninit wrappers.
    fn unwrap_vec(&mut self, v: &V) -> R<V> {
        let mut v = v.clone();
        for _ in 0..12 { match &v { V::Vec(_) => return Ok(v), V::Ptr(a, p) => { let p = p.clone(); v = self.get(*a, &p)? } V::Agg(_, f) => { match f.iter().find(|x| !matches!(x, V::Undef) && !matches!(x, V::Agg(_, g) if g.is_empty())) { Some(x) => v = x.clone(), None => return unsup("boxed array") } } _ => break } }
        unsup(format!("boxed array {}", term(&v)))
    }
    fn model_vec(&mut self, m: &str, n: &str, inst: &Instance, a: &[V]) -> R<Option<V>> {
        if matches!(m, "new" | "with_capacity") { return Ok(Some(V::vec(vec![]))) }
        if a.is_empty() { return Ok(None) }
        // only values we understand
        let ok = match self.last_ptr(&a[0]) { Ok(p) => matches!(self.load(&p), Ok(V::Vec(_))) || matches!(p, V::Slice(..) | V::Vec(_)), Err(_) => false };
        if !ok { let v = self.deref(&a[0])?; if let V::Top(s) = v { if n.contains("impl [T]") || m == "len" || m == "is_empty" { return Ok(Some(V::top(format!("{m}({s})")))) } } return if matches!(a[0], V::Str(_)) || matches!(self.deref(&a[0])?, V::Ext(..)) { Ok(Some(V::top(format!("{m}({})", term(&self.deref(&a[0])?))))) } else { unsup(format!("{m} on {}", term(&a[0]))) } }
        Ok(Some(match m {
            "push" | "push_back" => { let x = a[1].clone(); self.vec_mut(&a[0], |v| v.push(x))?; V::unit() }
            "push_front" => { let x = a[1].clone(); self.vec_mut(&a[0], |v| v.insert(0, x))?; V::unit() }
            "pop" | "pop_back" => match self.vec_mut(&a[0], |v| v.pop())? { Some(x) => V::some(x), None => V::none() },
            "pop_front" => match self.vec_mut(&a[0], |v| if v.is_empty() { None } else { Some(v.remove(0)) })? { Some(x) => V::some(x), None => V::none() },
            "append" => { let src = self.vec_mut(&a[1], std::mem::take)?; self.vec_mut(&a[0], |v| v.extend(src))?; V::unit() }
            "extend_from_slice" => { let src = self.elems(&a[1])?; self.vec_mut(&a[0], |v| v.extend(src))?; V::unit() }
            "clear" => { self.vec_mut(&a[0], |v| v.clear())?; V::unit() }
            "reserve" | "shrink_to_fit" | "reserve_exact" => V::unit(),
            "len" => { let (_, _, _, l) = self.slice(&a[0])?; V::Int(l as i128) }
            "is_empty" => { let (_, _, _, l) = self.slice(&a[0])?; V::b(l == 0) }
            "insert" => { let V::Int(i) = a[1] else { return unsup("insert at unknown") }; let x = a[2].clone(); self.vec_mut(&a[0], |v| if i as usize <= v.len() { v.insert(i as usize, x); true } else { false })?; V::unit() }
            "swap_remove" => { let V::Int(i) = a[1] else { return unsup("remove at unknown") }; match self.vec_mut(&a[0], |v| if (i as usize) < v.len() { Some(v.swap_remove(i as usize)) } else { None })? { Some(x) => x, None => return Err(Exit::Panic("remove index".into())) } }
            "remove" => { let V::Int(i) = a[1] else { return unsup("remove at unknown") }; match self.vec_mut(&a[0], |v| if (i as usize) < v.len() { Some(v.remove(i as usize)) } else { None })? { Some(x) => x, None => return Err(Exit::Panic("remove index".into())) } }
            "truncate" => { let V::Int(i) = a[1] else { return unsup("truncate") }; self.vec_mut(&a[0], |v| v.truncate(i as usize))?; V::unit() }
            "reverse" => { let (al, p, s, l) = self.slice(&a[0])?; if let V::Vec(v) = self.slot(al, &p)? { Rc::make_mut(v)[s..s + l].reverse() } V::unit() }
            "swap" => { let (V::Int(i), V::Int(j)) = (&a[1], &a[2]) else { return unsup("swap") }; let (al, p, s, _) = self.slice(&a[0])?; if let V::Vec(v) = self.slot(al, &p)? { Rc::make_mut(v).swap(s + *i as usize, s + *j as usize) } V::unit() }
            "drain" => { let rt = range_ty(inst); let (_, _, _, l) = self.slice(&a[0])?; let (x, y) = range_of(&rt, &a[1], l)?; if x > y || y > l { return Err(Exit::Panic("drain range".into())) } V::seq(self.vec_mut(&a[0], |v| v.drain(x..y).collect::<Vec<_>>())?) }
            "retain" => { let ps = self.elem_ptrs(&a[0])?; let t = last_ty(inst).unwrap(); let mut keep = vec![]; for p in ps { let r = self.call_value(&a[1], t, vec![p.clone()])?; if self.truth(&r)? { keep.push(self.load(&p)?) } } self.vec_mut(&a[0], |v| *v = keep)?; V::unit() }
            "split_off" => { let V::Int(i) = a[1] else { return unsup("split_off") }; V::vec(self.vec_mut(&a[0], |v| v.split_off(i as usize))?) }
            "as_slice" | "as_mut_slice" | "as_ref" | "into_boxed_slice" | "as_ptr" | "as_mut_ptr" | "into_vec" => a[0].clone(),
            "to_vec" | "to_owned" => V::vec(self.elems(&a[0])?),
            "iter" | "iter_mut" => V::seq(self.elem_ptrs(&a[0])?),
            "first" | "first_mut" => { match self.elem_ptrs(&a[0])?.first() { Some(x) => V::some(x.clone()), None => V::none() } }
            "last" | "last_mut" => match self.elem_ptrs(&a[0])?.last() { Some(x) => V::some(x.clone()), None => V::none() },
            "get" | "get_mut" => { let V::Int(i) = a[1] else { return unsup("get by unknown index") }; match self.elem_ptrs(&a[0])?.get(i as usize) { Some(x) => V::some(x.clone()), None => V::none() } }
            "get_unchecked" | "get_unchecked_mut" => { let V::Int(i) = a[1] else { return unsup("get by unknown index") }; match self.elem_ptrs(&a[0])?.get(i as usize) { Some(x) => x.clone(), None => return unsup("out of range") } }
            "split_first" => { let (al, p, s, l) = self.slice(&a[0])?; if l == 0 { V::none() } else { V::some(V::agg(0, vec![Self::elem(al, &p, s), V::Slice(al, p, s + 1, l - 1)])) } }
            "split_last" => { let (al, p, s, l) = self.slice(&a[0])?; if l == 0 { V::none() } else { V::some(V::agg(0, vec![Self::elem(al, &p, s + l - 1), V::Slice(al, p, s, l - 1)])) } }
            "split_at" => { let V::Int(i) = a[1] else { return unsup("split_at") }; let (al, p, s, l) = self.slice(&a[0])?; let i = i as usize; if i > l { return Err(Exit::Panic("split_at".into())) } V::agg(0, vec![V::Slice(al, p.clone(), s, i), V::Slice(al, p, s + i, l - i)]) }
            "windows" | "chunks" | "chunks_exact" | "rchunks" => { let V::Int(k) = a[1] else { return unsup(m) }; let k = k as usize; let (al, p, s, l) = self.slice(&a[0])?; let mut o = vec![]; if m == "windows" { for i in 0..(l + 1).saturating_sub(k) { o.push(V::Slice(al, p.clone(), s + i, k)) } } else if m == "rchunks" { let mut i = l; while i > 0 { let n = k.min(i); i -= n; o.push(V::Slice(al, p.clone(), s + i, n)) } } else { let mut i = 0; while i < l { if m == "chunks" || i + k <= l { o.push(V::Slice(al, p.clone(), s + i, k.min(l - i))) } i += k } } V::seq(o) }
            "contains" => {
                let x = self.deref(&a[1])?;
                for e in self.elems(&a[0])? {
                    let e = self.deref(&e)?;
                    let r = match (&e, &x) { (V::Str(p), V::Str(q)) => { let (p, q) = (p.clone(), q.clone()); self.str_eq(&p, &q)? } (V::Int(p), V::Int(q)) => V::b(p == q), (p, q) => self.binop(rustc_public::mir::BinOp::Eq, p.clone(), q.clone())? };
                    if self.truth(&r)? { return Ok(Some(V::b(true))) }
                }
                V::b(false)
            }
            "starts_with" | "ends_with" | "concat" | "join" => return unsup(format!("slice {m}")),
            "sort" | "sort_by" | "sort_by_key" | "sort_unstable" | "sort_unstable_by" | "sort_unstable_by_key" => {
                let mut items = self.elems(&a[0])?; let t = last_ty(inst);
                // insertion sort, comparisons decided abstractly
                let mut out: Vec<V> = vec![];
                for x in items.drain(..) {
                    let mut pos = out.len();
                    for (k, y) in out.clone().iter().enumerate() { if self.sort_less(m, &a[1..], t, &x, y)? { pos = k; break } }
                    out.insert(pos, x);
                }
                self.vec_mut(&a[0], |v| *v = out)?; V::unit()
            }
            "dedup" => { let mut o: Vec<V> = vec![]; for x in self.elems(&a[0])? { let same = match o.last().cloned() { Some(y) => { let (p, q) = (self.deref(&x)?, self.deref(&y)?); let r = match (&p, &q) { (V::Str(p), V::Str(q)) => self.str_eq(p, q)?, (V::Int(_) | V::Top(_), V::Int(_) | V::Top(_)) => self.binop(rustc_public::mir::BinOp::Eq, p, q)?, _ => return unsup("dedup") }; self.truth(&r)? } None => false }; if !same { o.push(x) } } self.vec_mut(&a[0], |v| *v = o)?; V::unit() }
            "front" => match self.elem_ptrs(&a[0])?.first() { Some(x) => V::some(x.clone()), None => V::none() },
            "back" => match self.elem_ptrs(&a[0])?.last() { Some(x) => V::some(x.clone()), None => V::none() },
            "make_contiguous" => a[0].clone(),
            "resize" => { let V::Int(n) = a[1] else { return unsup("resize") }; let x = a[2].clone(); self.vec_mut(&a[0], |v| v.resize(n as usize, x))?; V::unit() }
            "fill" => { let x = a[1].clone(); let (al, p, s, l) = self.slice(&a[0])?; if let V::Vec(v) = self.slot(al, &p)? { for e in &mut Rc::make_mut(v)[s..s + l] { *e = x.clone() } } V::unit() }
            _ => return Ok(None),
        }))
    }
    fn sort_less(&mut self, m: &str, f: &[V], t: Option<Ty>, x: &V, y: &V) -> R<bool> {
        use rustc_public::mir::BinOp;
        let (px, py) = (self.ptr_to(x.clone()), self.ptr_to(y.clone()));
        if m.ends_with("_by") { let r = self.call_value(&f[0], t.unwrap(), vec![px, py])?; return match r { V::Agg(0, _) => Ok(true), V::Agg(..) => Ok(false), V::Int(i) => Ok(i < 0), x => unsup(format!("ordering {}", term(&x))) } }
        let (kx, ky) = if m.ends_with("_key") { (self.call_value(&f[0], t.unwrap(), vec![px])?, self.call_value(&f[0], t.unwrap(), vec![py])?) } else { (x.clone(), y.clone()) };
        let (kx, ky) = (self.deref(&kx)?, self.deref(&ky)?);
        let r = match (&kx, &ky) { (V::Str(p), V::Str(q)) => match (as_lit(p), as_lit(q)) { (Some(p), Some(q)) => V::b(p < q), _ => V::top(format!("({} < {})", show_str(p), show_str(q))) }, _ => self.binop(BinOp::Lt, kx, ky)? };
        self.truth(&r)
    }
    fn model_index(&mut self, inst: &Instance, a: &[V]) -> R<V> {
        let base = self.deref(&a[0])?;
        if let V::Map(_) = base { return match self.map_find(&a[0], &a[1])? { Some(i) => Self::ptr_elem(&self.last_ptr(&a[0])?, i as u32), None => Err(Exit::Panic("missing key".into())) } }
        let (al, p, s, l) = self.slice(&a[0])?;
        match &a[1] {
            V::Int(i) => { if *i as usize >= l { return Err(Exit::Panic("index out of bounds".into())) } Ok(Self::elem(al, &p, s + *i as usize)) }
            V::Agg(_, f) => {
                let _ = f; let (x, y) = range_of(&range_ty(inst), &a[1], l)?;
                if x > y || y > l { return Err(Exit::Panic("slice index".into())) }
                Ok(V::Slice(al, p, s + x, y - x))
            }
            x => unsup(format!("index by {}", term(x))),
        }
    }
    // ------------------------------------------------------------ maps
    fn map_of(&mut self, p: &V) -> R<Rc<Vec<(V, V)>>> { match self.deref(p)? { V::Map(m) => Ok(m), x => unsup(format!("map {}", term(&x))) } }
    fn map_find(&mut self, p: &V, k: &V) -> R<Option<usize>> {
        let k = self.deref(k)?;
        if self.cmap_ready { if let V::Ext(n, f) = &k { if &**n == "id" { if let V::Node(n) = f[0] { self.need_comments(p, n)? } } } }
        let m = self.map_of(p)?;
        for (i, (x, _)) in m.iter().enumerate() {
            let e = match (x, &k) { (V::Str(a), V::Str(b)) => { let (a, b) = (a.clone(), b.clone()); self.str_eq(&a, &b)? } (V::Top(_), _) | (_, V::Top(_)) => { let r = self.binop(rustc_public::mir::BinOp::Eq, x.clone(), k.clone())?; r } _ => V::b(term(x) == term(&k)) };
            if self.truth(&e)? { return Ok(Some(i)) }
        }
        Ok(None)
    }
    /// Where a key belongs in an ordered map.
    fn map_place(&mut self, p: &V, k: &V) -> R<usize> {
        let m = self.map_of(p)?; let k = self.deref(k)?;
        for (i, (x, _)) in m.iter().enumerate() {
            let x = self.deref(x)?;
            let after = match (&x, &k) { (V::Int(x), V::Int(k)) => x > k, (V::Str(x), V::Str(k)) => match (as_lit(x), as_lit(k)) { (Some(x), Some(k)) => x > k, _ => return unsup("order of keys") }, _ => return unsup("order of keys") };
            if after { return Ok(i) }
        }
        Ok(m.len())
    }
    fn map_push(&mut self, p: &V, k: V, v: V) -> R<usize> {
        if let Some(at) = self.ordered.take() { if let V::Ptr(a, q) = self.last_ptr(p)? { if let V::Map(m) = self.slot(a, &q)? { Rc::make_mut(m).insert(at, (k, v)); return Ok(at) } } return unsup("ordered map") }

        match self.last_ptr(p)? { V::Ptr(a, q) => match self.slot(a, &q)? { V::Map(m) => { let m = Rc::make_mut(m); m.push((k, v)); Ok(m.len() - 1) } x => { let t = term(x); unsup(format!("map {t}")) } }, _ => unsup("map pointer") }
    }
    fn map_insert(&mut self, p: &V, k: V, v: V) -> R<Option<V>> {
        match self.map_find(p, &k)? { Some(i) => { let q = Self::ptr_elem(&self.last_ptr(p)?, i as u32)?; let old = self.load(&q)?; self.store_through(&q, v)?; Ok(Some(old)) } None => { self.map_push(p, k, v)?; Ok(None) } }
    }
    fn model_map(&mut self, m: &str, n: &str, _inst: &Instance, a: &[V]) -> R<Option<V>> {
        let set = n.contains("Set::"); let sorted = n.contains("BTree");
        self.ordered = None;
        if sorted && m == "insert" && self.map_find(&a[0], &a[1])?.is_none() { self.ordered = Some(self.map_place(&a[0], &a[1])?) }
        Ok(Some(match m {
            "new" | "with_capacity" => V::Map(Rc::new(vec![])),
            "entry" => V::Ext("entry".into(), Rc::new(vec![a[0].clone(), a[1].clone()])),
            "get" | "get_mut" => match self.map_find(&a[0], &a[1])? { Some(i) => V::some(Self::ptr_elem(&self.last_ptr(&a[0])?, i as u32)?), None => V::none() },
            "contains_key" | "contains" => V::b(self.map_find(&a[0], &a[1])?.is_some()),
            "insert" => { if set { let had = self.map_find(&a[0], &a[1])?.is_some(); if !had { self.map_push(&a[0], a[1].clone(), V::unit())?; } V::b(!had) } else { match self.map_insert(&a[0], a[1].clone(), a[2].clone())? { Some(o) => V::some(o), None => V::none() } } }
            "remove" => match self.map_find(&a[0], &a[1])? { Some(i) => { let V::Ptr(al, q) = self.last_ptr(&a[0])? else { return unsup("map") }; let V::Map(mm) = self.slot(al, &q)? else { return unsup("map") }; let (_, v) = Rc::make_mut(mm).remove(i); if set { V::b(true) } else { V::some(v) } } None => if set { V::b(false) } else { V::none() } },
            "len" => { let mm = self.map_of(&a[0])?; V::Int(mm.len() as i128) }
            "is_empty" => { let mm = self.map_of(&a[0])?; V::b(mm.is_empty()) }
            "values" | "values_mut" | "iter" | "iter_mut" | "keys" | "into_values" | "into_keys" => {
                let mm = self.map_of(&a[0])?; let p = self.last_ptr(&a[0])?;
                let back = !sorted && self.any_order(mm.len())?;
                let mut o = vec![];
                for i in 0..mm.len() { let vp = Self::ptr_elem(&p, i as u32)?; o.push(match m { "values" | "values_mut" => vp, "into_values" => mm[i].1.clone(), "into_keys" => mm[i].0.clone(), "keys" => { let k = mm[i].0.clone(); self.ptr_to(k) } _ => { let k = mm[i].0.clone(); let k = self.ptr_to(k); if set { k } else { V::agg(0, vec![k, vp]) } } }) }
                if back { o.reverse() }
                V::seq(o)
            }
            "clear" => { let q = self.last_ptr(&a[0])?; self.store_through(&q, V::Map(Rc::new(vec![])))?; V::unit() }
            "extend" => return Ok(None),
            "retain" => {
                let mm = self.map_of(&a[0])?; let q = self.last_ptr(&a[0])?; let mut keep = vec![];
                for i in 0..mm.len() { let k = self.ptr_to(mm[i].0.clone()); let vp = Self::ptr_elem(&q, i as u32)?; let r = self.call_value(&a[1], last_ty(_inst).unwrap(), if set { vec![k] } else { vec![k, vp] })?; keep.push(self.truth(&r)?) }
                let now = self.map_of(&a[0])?; let left: Vec<(V, V)> = now.iter().zip(keep).filter(|x| x.1).map(|x| x.0.clone()).collect();
                self.store_through(&q, V::Map(Rc::new(left)))?; V::unit()
            }
            _ => return unsup(format!("map {m}")),
        }))
    }
    fn default_of(&mut self, t: Option<Ty>) -> R<V> {
        let Some(t) = t else { return unsup("default") };
        Ok(match t.kind() {
            TyKind::RigidTy(RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Bool) => V::Int(0),
            _ => match &adt_name(t)[..] { "Vec" | "VecDeque" => V::vec(vec![]), "String" | "&str" => V::lit(""), "Option" => V::none(), "HashMap" | "BTreeMap" | "HashSet" | "BTreeSet" => V::Map(Rc::new(vec![])), x => return unsup(format!("default of {x}")) },
        })
    }
    /// Comment buckets of the neighbourhood of a node are produced on demand
    /// by the program's own collector.
    fn need_comments(&mut self, map: &V, n: usize) -> R<()> {
        let mut at = match self.tree.nodes[n].parent { Some(p) if self.tree.nodes[p].children.is_some() => p, _ => n };
        if self.cm.is_some() {
            let m = self.last_ptr(map)?; self.cm.as_mut().unwrap().map = Some(m);
            // the production decides whether comments dangle inside the construct
            if Some(n) == self.root && self.tree.nodes[n].alts.iter().all(|a| matches!(a.content, Content::Rule(_) | Content::Inner(_))) { self.expand(n)? }
            if self.has_around(n) { at = self.around()? }
            self.collect_at(map, at)?;
            if self.tree.nodes[n].children.as_ref().is_some_and(|c| !c.is_empty()) { self.collect_at(map, n)? }
            return Ok(())
        }
        self.collect_at(map, at)
    }
    pub fn collect_at(&mut self, map: &V, at: usize) -> R<()> {
        let Some((col, tpl, ci, mi)) = self.collector.clone() else { return self.default_bucket(map, at) };
        if !self.collected.insert(at) { return Ok(()) }
        self.cmap_ready = false;
        let cur = match self.deref(&tpl[ci]) { Ok(V::Node(_)) => V::Node(at), _ => V::Cursor(at, at) };
        let cur = if matches!(tpl[ci], V::Ptr(..)) { self.ptr_to(cur) } else { cur };
        let (cut, pr) = (self.cut, self.prune); self.cut = false; self.prune = true;
        let mp = self.last_ptr(map)?;
        let mut args = tpl; args[ci] = cur; args[mi] = mp;
        let (root, around) = (self.root, self.cm.as_ref().and_then(|c| c.around));
        let keep = match (root, around) { (Some(r), Some(s)) if s == at => { let k = self.tree.nodes[r].parent; self.tree.nodes[r].parent = Some(s); Some((r, k)) } _ => None };
        let at_before = self.collecting.replace(at);
        let r = self.enter(col, args);
        self.collecting = at_before;
        if let Some((r, k)) = keep { self.tree.nodes[r].parent = k }
        self.cut = cut; self.prune = pr; self.cmap_ready = true;
        r?;
        if self.cm.is_some() {
            self.mark_collected(at);
            self.note_comments(map)?;
        }
        Ok(())
    }
    /// Without a recognisable collector: an empty bucket for every node that has one.
    fn default_bucket(&mut self, map: &V, n: usize) -> R<()> {
        let k = self.tree.kinds(n);
        if !self.is_named(n)? && !k.iter().all(|k| matches!(&**k, "," | ";" | "else")) { return Ok(()) }
        let m = self.map_of(map)?;
        let id = V::Ext("id".into(), Rc::new(vec![V::Node(n)]));
        if m.iter().any(|e| term(&e.0) == term(&id)) { return Ok(()) }
        let Some((_, V::Agg(_, f))) = m.first() else { return unsup("no sample comment bucket") };
        let f = f.iter().map(|x| self.default_like(x)).collect();
        self.map_push(map, id, V::agg(0, f)).map(|_| ())
    }
    /// A hash table is walked in an order nobody controls.
    fn any_order(&mut self, n: usize) -> R<bool> { if n < 2 { return Ok(false) } self.event("hash-order", vec![]); Ok(self.choose(2, || "hash order".into())? == 1) }
    fn hashed(&self, t: Option<Ty>) -> bool { !t.is_some_and(|t| adt_name(strip_ref(t)).starts_with("BTree")) }
    // ------------------------------------------------------------ iterators
    pub fn into_iter(&mut self, v: &V, t: Option<Ty>) -> R<Iter> {
        match v {
            V::Iter(i) => return Ok((**i).clone()),
            V::Vec(x) => return Ok(Iter::Seq(x.iter().cloned().collect())),
            V::Slice(..) => return Ok(Iter::Seq(self.elem_ptrs(v)?.into())),
            V::Map(m) => { let back = self.hashed(t) && self.any_order(m.len())?; let mut o: VecDeque<V> = m.iter().map(|(k, x)| if matches!(x, V::Agg(0, f) if f.is_empty()) { k.clone() } else { V::agg(0, vec![k.clone(), x.clone()]) }).collect(); if back { o.make_contiguous().reverse() } return Ok(Iter::Seq(o)) }
            V::Ext(n, f) if &**n == "chan" => { self.waits(&f[0], true)?; return Ok(Iter::Seq(self.receive_all(&f[0])?.into())) },
            V::Ptr(..) => {
                let d = self.load(v)?;
                match d {
                    V::Vec(_) | V::Slice(..) => return Ok(Iter::Seq(self.elem_ptrs(v)?.into())),
                    V::Iter(_) => return Ok(Iter::User(v.clone(), t.unwrap())),
                    V::Ptr(..) => { if let Some(TyKind::RigidTy(RigidTy::Adt(..))) = t.map(|t| t.kind()) { } return self.into_iter(&d, t.map(strip_one)) }
                    V::Map(m) => { let back = self.hashed(t) && self.any_order(m.len())?; let mut o = VecDeque::new(); for i in 0..m.len() { let k = self.ptr_to(m[i].0.clone()); o.push_back(V::agg(0, vec![k, Self::ptr_elem(v, i as u32)?])) } if back { o.make_contiguous().reverse() } return Ok(Iter::Seq(o)) }
                    V::Agg(i, _) if matches!(t.map(|t| adt_name(strip_ref(t))), Some(ref s) if s == "Option") => return Ok(Iter::Seq(if i == 1 { VecDeque::from(vec![Self::ptr_elem(v, 0)?]) } else { VecDeque::new() })),
                    V::Ext(n, f) if &*n == "chan" => { self.waits(&f[0], true)?; return Ok(Iter::Seq(self.receive_all(&f[0])?.into())) },
                    _ => {}
                }
            }
            V::Agg(i, f) => {
                let n = t.map(adt_name).unwrap_or_default();
                match &n[..] { "Option" => return Ok(Iter::Seq(if *i == 1 { VecDeque::from(vec![f[0].clone()]) } else { VecDeque::new() })), "Range" => return Ok(Iter::Range(f[0].clone(), f[1].clone(), false)), "RangeInclusive" => return Ok(Iter::Range(f[0].clone(), f[1].clone(), true)), "[;]" => return Ok(Iter::Seq(f.iter().cloned().collect())), _ => {} }
            }
            _ => {}
        }
        match t { Some(t) => Ok(Iter::User(self.ptr_to(v.clone()), t)), None => unsup(format!("iterate {}", term(v))) }
    }
    fn drain(&mut self, v: &V, t: Option<Ty>) -> R<Vec<V>> { let mut i = self.into_iter(v, t)?; self.drain_iter(&mut i) }
    pub fn drain_iter(&mut self, i: &mut Iter) -> R<Vec<V>> { let mut o = vec![]; while let Some(x) = self.iter_next(i)? { o.push(x); if o.len() > 5000 { return Err(Exit::Budget) } } Ok(o) }
    pub fn iter_next(&mut self, it: &mut Iter) -> R<Option<V>> {
        Ok(match it {
            Iter::Seq(q) => q.pop_front(),
            Iter::Range(a, b, inc) => match (&*a, &*b) { (V::Int(x), V::Int(y)) => if x < y || (*inc && x == y) { let x = *x; *a = V::Int(x + 1); Some(V::Int(x)) } else { None }, (x, y) => { let t = format!("range {} {}", term(x), term(y)); if self.choose(2, || t)? == 0 { return Ok(None) } let x = x.clone(); let n = self.binop(rustc_public::mir::BinOp::Add, x.clone(), V::Int(1))?; *a = n; if term(a).len() > 400 { return Err(Exit::Infeasible) } Some(x) } },
            Iter::Map(i, f, t) => match self.iter_next(i)? { Some(x) => Some(self.call_value(&f.clone(), *t, vec![x])?), None => None },
            Iter::Filter(i, f, t) => loop { match self.iter_next(i)? { Some(x) => { let p = self.ptr_to(x); let r = self.call_value(&f.clone(), *t, vec![p.clone()])?; if self.truth(&r)? { let v = self.load(&p)?; break Some(v) } } None => break None } },
            Iter::FilterMap(i, f, t) => loop { match self.iter_next(i)? { Some(x) => { match self.call_value(&f.clone(), *t, vec![x])? { V::Agg(1, g) => break Some(g[0].clone()), V::Agg(..) => {} x => return unsup(format!("filter_map {}", term(&x))) } } None => break None } },
            Iter::TakeWhile(i, f, t, done) => { if *done { None } else { match self.iter_next(i)? { Some(x) => { let p = self.ptr_to(x); let r = self.call_value(&f.clone(), *t, vec![p.clone()])?; if self.truth(&r)? { Some(self.load(&p)?) } else { *done = true; None } } None => None } } }
            Iter::SkipWhile(i, f, t, done) => loop { match self.iter_next(i)? { Some(x) => { if *done { break Some(x) } let p = self.ptr_to(x); let r = self.call_value(&f.clone(), *t, vec![p.clone()])?; if !self.truth(&r)? { *done = true; break Some(self.load(&p)?) } } None => break None } },
            Iter::Inspect(i, f, t) => match self.iter_next(i)? { Some(x) => { let p = self.ptr_to(x.clone()); self.call_value(&f.clone(), *t, vec![p])?; Some(x) } None => None },
            Iter::Enumerate(i, n) => match self.iter_next(i)? { Some(x) => { *n += 1; Some(V::agg(0, vec![V::Int(*n as i128 - 1), x])) } None => None },
            Iter::Chain(a, b) => match self.iter_next(a)? { Some(x) => Some(x), None => self.iter_next(b)? },
            Iter::Cloned(i, t) => match self.iter_next(i)? { Some(x) => { let v = self.load(&x)?; let t = *t; Some(self.clone_val(&v, &x, Some(t))?) } None => None },
            Iter::Zip(a, b) => match self.iter_next(a)? { Some(x) => self.iter_next(b)?.map(|y| V::agg(0, vec![x, y])), None => None },
            Iter::Take(i, n) => if *n == 0 { None } else { *n -= 1; self.iter_next(i)? },
            Iter::Skip(i, n) => { while *n > 0 { *n -= 1; if self.iter_next(i)?.is_none() { return Ok(None) } } self.iter_next(i)? }
            Iter::StepBy(i, n, first) => { if *first { *first = false; self.iter_next(i)? } else { for _ in 0..*n - 1 { if self.iter_next(i)?.is_none() { return Ok(None) } } self.iter_next(i)? } }
            Iter::Peek(i, p) => match p.take() { Some(x) => x.map(|b| *b), None => self.iter_next(i)? },
            Iter::Flat(i, f, cur, t) => loop {
                if let Some(c) = cur { if let Some(x) = self.iter_next(c)? { break Some(x) } *cur = None; }
                match self.iter_next(i)? { Some(x) => { let (y, yt) = match f { Some((g, gt)) => { let (g, gt) = (g.clone(), *gt); (self.call_value(&g, gt, vec![x])?, *t) } None => (x, *t) }; *cur = Some(Box::new(self.into_iter(&y, Some(yt))?)) } None => break None }
            },
            Iter::User(p, t) => {
                // an iterator behind a reference, or one defined by the program
                let v = self.deref(p)?;
                if let V::Iter(i) = v { let mut i = *i; let r = self.iter_next(&mut i)?; self.store(&p.clone(), V::Iter(Box::new(i)))?; r }
                else {
                    let _ = t; return unsup(format!("next of {}", term(&v)));
                }
            }
            Iter::Repeat(x) => Some(x.clone()),
            Iter::MapWhile(i, f, t) => match self.iter_next(i)? { Some(x) => match self.call_value(&f.clone(), *t, vec![x])? { V::Agg(1, g) => Some(g[0].clone()), V::Agg(..) => None, x => return unsup(format!("map_while {}", term(&x))) }, None => None },
            Iter::FromFn(f, t) => match self.call_value(&f.clone(), *t, vec![])? { V::Agg(1, g) => Some(g[0].clone()), V::Agg(..) => None, x => return unsup(format!("from_fn {}", term(&x))) },
            Iter::Successors(cur, f, t) => match cur.clone() { V::Agg(1, g) => { let x = g[0].clone(); let p = self.ptr_to(x.clone()); let n = self.call_value(&f.clone(), *t, vec![p])?; *cur = n; Some(x) } _ => None },
        })
    }
    fn model_iter(&mut self, name: &str, inst: &Instance, a: &[V]) -> R<Option<V>> {
        let m = name.rsplit("::").next().unwrap_or("");
        if name.ends_with("IntoIterator::into_iter") { let t = inst.fn_abi().ok().and_then(|b| b.args.first().map(|x| x.ty)).or(ty_arg(inst, 0)); return Ok(Some(V::Iter(Box::new(self.into_iter(&a[0], t)?)))) }
        if name.ends_with("iter::once") { return Ok(Some(V::seq([a[0].clone()]))) }
        if name.ends_with("iter::empty") { return Ok(Some(V::seq([]))) }
        if name.ends_with("iter::repeat") { return Ok(Some(V::Iter(Box::new(Iter::Repeat(a[0].clone()))))) }
        if name.ends_with("iter::repeat_n") { if let V::Int(n) = a[1] { return Ok(Some(V::seq(vec![a[0].clone(); n as usize]))) } }
        if name.ends_with("iter::repeat_n") || name.ends_with("iter::repeat_with") { return unsup("iter::repeat") }
        if name.ends_with("iter::from_fn") { return Ok(Some(V::Iter(Box::new(Iter::FromFn(a[0].clone(), last_ty(inst).unwrap()))))) }
        if name.ends_with("iter::successors") { return Ok(Some(V::Iter(Box::new(Iter::Successors(a[0].clone(), a[1].clone(), last_ty(inst).unwrap()))))) }
        if name.ends_with("iter::zip") { let (x, y) = (self.into_iter(&a[0], ty_arg(inst, 0))?, self.into_iter(&a[1], ty_arg(inst, 1))?); return Ok(Some(V::Iter(Box::new(Iter::Zip(Box::new(x), Box::new(y)))))) }
        if (name.ends_with("Result::iter") || name.ends_with("Result::iter_mut")) && !a.is_empty() { let p = self.last_ptr(&a[0])?; let v = self.load(&p)?; let v = self.strong(v)?; return match v { V::Agg(0, _) => Ok(Some(V::seq([Self::ptr_elem(&p, 0)?]))), V::Agg(..) => Ok(Some(V::seq([]))), _ => unsup("result iter") } }
        if (name.ends_with("Option::iter") || name.ends_with("Option::iter_mut") || name.ends_with("Option::as_slice")) && !a.is_empty() { let p = self.last_ptr(&a[0])?; let v = self.load(&p)?; let v = self.strong(v)?; return match v { V::Agg(1, _) => Ok(Some(V::seq([Self::ptr_elem(&p, 0)?]))), V::Agg(..) => Ok(Some(V::seq([]))), x => unsup(format!("iter of {}", term(&x))) } }
        let it_trait = name.contains("Iterator::") || name.contains("iter::Peekable::") || name.contains("iter::traits::");
        if !it_trait { return Ok(None) }
        // receivers by reference: next, any, all, find, position, peek, by_ref, nth
        let by_ref = matches!(m, "next" | "any" | "all" | "find" | "find_map" | "position" | "rposition" | "peek" | "peek_mut" | "nth" | "next_back" | "len" | "size_hint" | "next_if" | "by_ref" | "try_fold" | "try_for_each" | "is_empty");
        let self_ty = ty_arg(inst, 0);
        if by_ref {
            let p = self.last_ptr(&a[0])?;
            let v = self.load(&p)?;
            let mut it = match v { V::Iter(i) => *i, x => { if m == "by_ref" { return Ok(Some(a[0].clone())) } match (&x, self_ty.map(adt_name).as_deref()) { (V::Agg(_, f), Some("Range")) if m == "next" => { let mut r = Iter::Range(f[0].clone(), f[1].clone(), false); let o = self.iter_next(&mut r)?; if let Iter::Range(s, e, _) = r { self.store_through(&p, V::agg(0, vec![s, e]))? } return Ok(Some(match o { Some(x) => V::some(x), None => V::none() })) } (V::Agg(_, f), Some("Range")) => Iter::Range(f[0].clone(), f[1].clone(), false), _ => { if m == "next" { return Ok(None) } Iter::User(p.clone(), self_ty.unwrap()) } } } };
            if m == "by_ref" { return Ok(Some(a[0].clone())) }
            let ft = last_ty(inst);
            let opt = |o: Option<V>| match o { Some(x) => V::some(x), None => V::none() };
            let r = match m {
                "next" => opt(self.iter_next(&mut it)?),
                "next_back" => { let mut v = self.drain_iter(&mut it)?; let x = v.pop(); it = Iter::Seq(v.into()); opt(x) }
                "nth" => { let V::Int(n) = a[1] else { return unsup("nth") }; let mut x = None; for _ in 0..=n { x = self.iter_next(&mut it)?; if x.is_none() { break } } opt(x) }
                "len" | "size_hint" => { let v = self.drain_iter(&mut it)?; let n = v.len() as i128; it = Iter::Seq(v.into()); if m == "len" { V::Int(n) } else { V::agg(0, vec![V::Int(n), V::some(V::Int(n))]) } }
                "any" | "all" => { let want = m == "any"; let mut r = !want; while let Some(x) = self.iter_next(&mut it)? { let c = self.call_value(&a[1], ft.unwrap(), vec![x])?; if self.truth(&c)? == want { r = want; break } } V::b(r) }
                "find" => { let mut r = None; while let Some(x) = self.iter_next(&mut it)? { let p = self.ptr_to(x.clone()); let c = self.call_value(&a[1], ft.unwrap(), vec![p])?; if self.truth(&c)? { r = Some(x); break } } opt(r) }
                "find_map" => { let mut r = V::none(); while let Some(x) = self.iter_next(&mut it)? { let c = self.call_value(&a[1], ft.unwrap(), vec![x])?; if matches!(c, V::Agg(1, _)) { r = c; break } } r }
                "position" => { let mut r = None; let mut k = 0; while let Some(x) = self.iter_next(&mut it)? { let c = self.call_value(&a[1], ft.unwrap(), vec![x])?; if self.truth(&c)? { r = Some(V::Int(k)); break } k += 1 } opt(r) }
                "rposition" => { let v = self.drain_iter(&mut it)?; let mut r = V::none(); for (k, x) in v.into_iter().enumerate().rev() { let c = self.call_value(&a[1], ft.unwrap(), vec![x])?; if self.truth(&c)? { r = V::some(V::Int(k as i128)); break } } r }
                "try_fold" | "try_for_each" => {
                    let tys: Vec<Ty> = inst.args().0.iter().filter_map(|x| if let GenericArgKind::Type(t) = x { Some(*t) } else { None }).collect();
                    if tys.len() < 2 { return unsup("try_fold") }
                    let good = match &adt_name(tys[tys.len() - 1])[..] { "Option" => 1, "Result" | "ControlFlow" => 0, x => return unsup(format!("try_fold into {x}")) };
                    let ft = tys[tys.len() - 2]; let fold = m == "try_fold";
                    let mut acc = if fold { a[1].clone() } else { V::unit() }; let f = a[if fold { 2 } else { 1 }].clone();
                    let mut stop = None;
                    while let Some(x) = self.iter_next(&mut it)? {
                        let r = self.call_value(&f, ft, if fold { vec![acc.clone(), x] } else { vec![x] })?;
                        match self.strong(r)? { V::Agg(i, g) if i == good => acc = g.first().cloned().unwrap_or(V::unit()), r @ V::Agg(..) => { stop = Some(r); break } x => return unsup(format!("try_fold {}", term(&x))) }
                    }
                    stop.unwrap_or_else(|| V::agg(good, vec![acc]))
                }
                "peek" => { match &mut it { Iter::Peek(i, p) => { if p.is_none() { let x = self.iter_next(i)?; *p = Some(x.map(Box::new)) } match p.as_ref().unwrap() { Some(x) => { let q = self.ptr_to((**x).clone()); V::some(q) } None => V::none() } } _ => return unsup("peek") } }
                "next_if" => { match &mut it { Iter::Peek(i, p) => { if p.is_none() { let x = self.iter_next(i)?; *p = Some(x.map(Box::new)) } match p.clone().unwrap() { Some(x) => { let q = self.ptr_to((*x).clone()); let c = self.call_value(&a[1], ft.unwrap(), vec![q])?; if self.truth(&c)? { *p = None; V::some(*x) } else { V::none() } } None => V::none() } } _ => return unsup("next_if") } }
                _ => return unsup(format!("iterator {m}")),
            };
            if matches!(self.load(&p)?, V::Iter(_)) { self.store_through(&p, V::Iter(Box::new(it)))? }
            return Ok(Some(r));
        }
        let mut it = self.into_iter(&a[0], self_ty)?;
        let tys: Vec<Ty> = inst.args().0.iter().filter_map(|x| if let GenericArgKind::Type(t) = x { Some(*t) } else { None }).collect();
        let ft = tys.last().copied();
        let bx = |i: Iter| V::Iter(Box::new(i));
        let opt = |o: Option<V>| match o { Some(x) => V::some(x), None => V::none() };
        Ok(Some(match m {
            "map" => bx(Iter::Map(Box::new(it), a[1].clone(), ft.unwrap())),
            "filter" => bx(Iter::Filter(Box::new(it), a[1].clone(), ft.unwrap())),
            "filter_map" => bx(Iter::FilterMap(Box::new(it), a[1].clone(), ft.unwrap())),
            "take_while" => bx(Iter::TakeWhile(Box::new(it), a[1].clone(), ft.unwrap(), false)),
            "skip_while" => bx(Iter::SkipWhile(Box::new(it), a[1].clone(), ft.unwrap(), false)),
            "map_while" => bx(Iter::MapWhile(Box::new(it), a[1].clone(), ft.unwrap())),
            "inspect" => bx(Iter::Inspect(Box::new(it), a[1].clone(), ft.unwrap())),
            "enumerate" => bx(Iter::Enumerate(Box::new(it), 0)),
            "chain" => { let j = self.into_iter(&a[1], ft)?; bx(Iter::Chain(Box::new(it), Box::new(j))) }
            "zip" => { let j = self.into_iter(&a[1], ft)?; bx(Iter::Zip(Box::new(it), Box::new(j))) }
            "cloned" | "copied" => { let t = ft.unwrap(); let t = tys.get(1).copied().unwrap_or(t); bx(Iter::Cloned(Box::new(it), t)) }
            "take" => { let V::Int(n) = a[1] else { return unsup("take") }; bx(Iter::Take(Box::new(it), n as usize)) }
            "skip" => { let V::Int(n) = a[1] else { return unsup("skip") }; bx(Iter::Skip(Box::new(it), n as usize)) }
            "step_by" => { let V::Int(n) = a[1] else { return unsup("step_by") }; bx(Iter::StepBy(Box::new(it), n as usize, true)) }
            "peekable" => bx(Iter::Peek(Box::new(it), None)),
            "fuse" | "into_iter" => bx(it),
            "flat_map" => { let ut = tys[tys.len() - 2]; bx(Iter::Flat(Box::new(it), Some((a[1].clone(), ft.unwrap())), None, ut)) }
            "flatten" => { let v = self.drain_iter(&mut it)?; let mut o = VecDeque::new(); let t = self.item_ty(self_ty); for x in v { match (&x, t) { (V::Agg(1, f), _) => o.push_back(f[0].clone()), (V::Agg(0, f), _) if f.is_empty() => {} (x, t) => { let mut j = self.into_iter(x, t)?; o.extend(self.drain_iter(&mut j)?) } } } bx(Iter::Seq(o)) }
            "rev" => { let mut v = self.drain_iter(&mut it)?; v.reverse(); bx(Iter::Seq(v.into())) }
            "collect" => { let v = self.drain_iter(&mut it)?; return self.collect(v, ft.unwrap()).map(Some) }
            "count" => V::Int(self.drain_iter(&mut it)?.len() as i128),
            "last" => { let v = self.drain_iter(&mut it)?; opt(v.last().cloned()) }
            "for_each" => { while let Some(x) = self.iter_next(&mut it)? { self.call_value(&a[1], ft.unwrap(), vec![x])?; } V::unit() }
            "fold" => { let mut acc = a[1].clone(); while let Some(x) = self.iter_next(&mut it)? { acc = self.call_value(&a[2], ft.unwrap(), vec![acc, x])? } acc }
            "reduce" => { let Some(mut acc) = self.iter_next(&mut it)? else { return Ok(Some(V::none())) }; while let Some(x) = self.iter_next(&mut it)? { acc = self.call_value(&a[1], ft.unwrap(), vec![acc, x])? } V::some(acc) }
            "sum" => { let v = self.drain_iter(&mut it)?; let mut s = V::Int(0); for x in v { let x = self.deref(&x)?; s = self.binop(rustc_public::mir::BinOp::Add, s, x)? } s }
            "product" => { let v = self.drain_iter(&mut it)?; let mut s = V::Int(1); for x in v { let x = self.deref(&x)?; s = self.binop(rustc_public::mir::BinOp::Mul, s, x)? } s }
            "max_by_key" | "min_by_key" | "max_by" | "min_by" => {
                // of equal elements the last maximum and the first minimum are kept
                let mut best: Option<(V, V)> = None;
                while let Some(x) = self.iter_next(&mut it)? {
                    let p = self.ptr_to(x.clone());
                    let k = if m.ends_with("key") { let k = self.call_value(&a[1], ft.unwrap(), vec![p])?; self.deref(&k)? } else { p };
                    let Some((_, bk)) = &best else { best = Some((x, k)); continue };
                    let less = if m.ends_with("key") { use rustc_public::mir::BinOp; let r = match (&k, bk) { (V::Str(p), V::Str(q)) => match (as_lit(p), as_lit(q)) { (Some(p), Some(q)) => V::b(p < q), _ => return unsup("order of texts") }, _ => self.binop(BinOp::Lt, k.clone(), bk.clone())? }; self.truth(&r)? }
                        else { match self.call_value(&a[1], ft.unwrap(), vec![k.clone(), bk.clone()])? { V::Agg(i, _) => i == 0, V::Int(i) => i < 0, x => return unsup(format!("ordering {}", term(&x))) } };
                    if less == m.starts_with("min") { best = Some((x, k)) }
                }
                opt(best.map(|b| b.0))
            }
            "partition" => { let (mut x, mut y) = (vec![], vec![]); while let Some(e) = self.iter_next(&mut it)? { let p = self.ptr_to(e.clone()); let c = self.call_value(&a[1], ft.unwrap(), vec![p])?; if self.truth(&c)? { x.push(e) } else { y.push(e) } } V::agg(0, vec![V::vec(x), V::vec(y)]) }
            "unzip" => { let (mut x, mut y) = (vec![], vec![]); for e in self.drain_iter(&mut it)? { if let V::Agg(_, f) = e { x.push(f[0].clone()); y.push(f[1].clone()) } } V::agg(0, vec![V::vec(x), V::vec(y)]) }
            "max" | "min" => { let v = self.drain_iter(&mut it)?; let mut ints = vec![]; for x in &v { match self.deref(x)? { V::Int(i) => ints.push(i), _ => return Ok(Some(if v.is_empty() { V::none() } else { V::some(V::top(format!("{m} of iter"))) })) } } match if m == "max" { ints.iter().max() } else { ints.iter().min() } { Some(i) => V::some(V::Int(*i)), None => V::none() } }
            "eq" | "ne" => {
                let mut j = self.into_iter(&a[1], ft)?;
                let (x, y) = (self.drain_iter(&mut it)?, self.drain_iter(&mut j)?);
                let mut same = x.len() == y.len();
                for (p, q) in x.iter().zip(&y) { if !same { break } let (p, q) = (self.deref(p)?, self.deref(q)?); let c = match (&p, &q) { (V::Str(p), V::Str(q)) => self.str_eq(p, q)?, _ => self.binop(rustc_public::mir::BinOp::Eq, p, q)? }; same = self.truth(&c)? }
                V::b(same == (m == "eq"))
            }
            _ => return unsup(format!("iterator method {m}")),
        }))
    }
    fn item_ty(&self, _t: Option<Ty>) -> Option<Ty> { None }
    fn collect(&mut self, v: Vec<V>, t: Ty) -> R<V> {
        let n = adt_name(t); let ta = adt_args(t);
        Ok(match &n[..] {
            "Vec" | "VecDeque" => V::vec(v),
            "Box" => { let x = V::vec(v); self.ptr_to(x) }
            "String" => { let mut o = lit(""); for x in v { let s = match self.deref(&x)? { V::Int(c) => lit(&char::from_u32(c as u32).unwrap_or('?').to_string()), y => self.str_of(&y)? }; o = cat(&o, &s) } V::Str(o) }
            "Result" | "Option" => { let good = if n == "Result" { 0 } else { 1 }; let mut o = vec![]; for x in v { let x = self.strong(x)?; match &x { V::Agg(i, f) if *i == good => o.push(f[0].clone()), V::Agg(..) => return Ok(x), y => return unsup(format!("collect {}", term(y))) } } let inner = self.collect(o, ta[0])?; V::agg(good, vec![inner]) }
            "BTreeMap" if v.len() > 1 => { let mut o: Vec<(i128, V, V)> = vec![]; for x in v { let V::Agg(_, f) = x else { return unsup("collect map") }; let k = match self.deref(&f[0])? { V::Int(i) => i, _ => return unsup("collect into ordered map") }; match o.iter().position(|e| e.0 >= k) { Some(p) if o[p].0 == k => o[p].2 = f[1].clone(), Some(p) => o.insert(p, (k, f[0].clone(), f[1].clone())), None => o.push((k, f[0].clone(), f[1].clone())) } } V::Map(Rc::new(o.into_iter().map(|e| (e.1, e.2)).collect())) }
            "HashMap" | "BTreeMap" => V::Map(Rc::new(v.into_iter().map(|x| match x { V::Agg(_, f) => (f[0].clone(), f[1].clone()), x => (x, V::unit()) }).collect())),
            "HashSet" | "BTreeSet" => { let mut o: Vec<(V, V)> = vec![]; for x in v { if !o.iter().any(|y| term(&y.0) == term(&x)) { o.push((x, V::unit())) } } V::Map(Rc::new(o)) }
            _ => return unsup(format!("collect into {n}")),
        })
    }
    // ------------------------------------------------------------ syntax tree
    pub fn narrow_alt(&mut self, n: usize) -> R<()> {
        let k = self.tree.nodes[n].alts.len();
        if k > 1 { let d = self.choose(k, || format!("alternative of {n}"))?; let a = self.tree.nodes[n].alts[d].clone(); self.tree.nodes[n].alts = vec![a] }
        Ok(())
    }
    pub fn expand(&mut self, n: usize) -> R<()> {
        if self.tree.nodes[n].children.is_some() { return Ok(()) }
        self.narrow_alt(n)?;
        let a = self.tree.nodes[n].alts[0].clone();
        let ps = self.c.productions(&a);
        let d = self.choose(ps.len(), || format!("production of {n}:{}", a.kind))?;
        self.tree.set_children(n, &ps[d]);
        self.place_comments(n);
        Ok(())
    }
    fn kids(&mut self, n: usize) -> R<Vec<usize>> {
        if self.tree.nodes[n].children.is_none() && self.tree.nodes[n].label == "outside" { self.reveal_parent(n)? }
        self.expand(n)?; Ok(self.tree.visible_children(n))
    }
    /// Surroundings of the analysed construct: one production of its parent.
    fn reveal_parent(&mut self, p: usize) -> R<()> {
        let Some(root) = self.root else { return unsup("children of an outside node") };
        let mut r = root;
        while let Some(q) = self.tree.nodes[r].parent { if q == p { break } r = q }
        if self.tree.nodes[r].parent != Some(p) { return unsup("children of a node outside the analysed construct") }
        if r == root && self.cm.as_ref().is_some_and(|c| c.around.is_some()) { return unsup("parent revealed after its comments") }
        if self.tree.nodes[p].alts.len() > 1 {
            if r == root { return Err(Exit::Outer) }
            let d = self.choose(self.tree.nodes[p].alts.len(), || format!("form of {p}"))?;
            let a = self.tree.nodes[p].alts[d].clone(); self.tree.nodes[p].alts = vec![a];
        }
        let a = self.tree.nodes[p].alts[0].clone();
        let keys: Vec<String> = self.tree.nodes[r].alts.iter().map(|a| a.key()).collect();
        let mut places = vec![];
        for (pi, prod) in self.c.productions(&a).iter().enumerate() { for (si, s) in prod.iter().enumerate() { if s.visible && s.alts.iter().any(|x| keys.contains(&x.key())) { places.push((pi, si)) } } }
        if places.is_empty() { return Err(Exit::Infeasible) }
        let d = self.choose(places.len(), || format!("place in {p}:{}", a.kind))?;
        let (pi, si) = places[d];
        let prod = self.c.productions(&a)[pi].clone();
        self.tree.set_children(p, &prod);
        let mut ch = self.tree.nodes[p].children.clone().unwrap();
        let slot = &prod[si]; let sk: Vec<String> = slot.alts.iter().map(|a| a.key()).collect();
        ch[si] = r;
        let nd = &mut self.tree.nodes[r]; nd.fields = slot.fields.clone(); nd.idx = si; nd.parent = Some(p); nd.alts.retain(|a| sk.contains(&a.key()));
        self.tree.nodes[p].children = Some(ch.clone());
        // agree with what was already assumed about the neighbours
        if let Some(s) = self.tree.nodes[r].sib[0] {
            let next = ch[si + 1..].iter().copied().find(|x| self.tree.nodes[*x].visible);
            match (s, next) { (None, None) => {} (Some(a), Some(b)) => { let ks = self.tree.kinds(a); self.tree.nodes[b].alts.retain(|x| ks.contains(&x.kind)); if self.tree.nodes[b].alts.is_empty() { return Err(Exit::Infeasible) } } _ => return Err(Exit::Infeasible) }
        }
        self.place_comments(p);
        Ok(())
    }
    /// A tree with a syntax error: the root itself is an error node, or an error
    /// or missing node occurs below it.
    fn error_tree(&mut self, n: usize) -> R<()> {
        let bad = |t: &mut crate::tree::Tree, p: usize, kind: &str, named: bool| { let c = t.add(vec![Alt { kind: kind.into(), named, content: Content::Pattern("error".into()) }]); t.nodes[c].parent = Some(p); t.nodes[c].loose = false; c };
        match self.choose_memo(&format!("error place of {n}"), 4)? {
            0 => { self.tree.nodes[n].alts = vec![Alt { kind: "ERROR".into(), named: true, content: Content::Pattern("error".into()) }]; self.errs.insert(n, 2); self.tree.nodes[n].children = Some(vec![]) }
            1 => { let c = bad(&mut self.tree, n, "ERROR", true); self.errs.insert(c, 2); self.tree.nodes[n].children = Some(vec![c]) }
            2 => { let c = bad(&mut self.tree, n, ";", false); self.errs.insert(c, 3); self.tree.nodes[n].children = Some(vec![c]) }
            _ => {
                let c = bad(&mut self.tree, n, "class_declaration", true); self.errs.insert(c, 1); self.tree.nodes[n].children = Some(vec![c]);
                let d = bad(&mut self.tree, c, "ERROR", true); self.errs.insert(d, 2); self.tree.nodes[c].children = Some(vec![d]);
            }
        }
        Ok(())
    }
    fn is_named(&mut self, n: usize) -> R<bool> {
        if let Some(b) = self.tree.named(n) { return Ok(b) }
        let d = self.choose(2, || format!("named {n}"))? == 1;
        self.tree.nodes[n].alts.retain(|a| a.named == d); Ok(d)
    }
    fn named_kids(&mut self, n: usize) -> R<Vec<usize>> { let mut o = vec![]; for c in self.kids(n)? { if self.is_named(c)? { o.push(c) } } Ok(o) }
    pub fn kind_str(&mut self, n: usize) -> AStr { match self.tree.kind(n) { Some(k) => lit(&k), None => Rc::new(vec![Part::Kind(n)]) } }
    fn outside(&mut self, alts: Vec<Alt>) -> usize { let n = self.tree.add(alts); self.tree.nodes[n].loose = true; self.tree.nodes[n].label = "outside".into(); n }
    /// Decide which of the given surroundings the root stands in.
    pub fn look_up(&mut self, pats: &[crate::layout::Around]) -> R<()> {
        let (mut n, mut live, mut i) = (self.root.unwrap(), pats.iter().collect::<Vec<_>>(), 0);
        loop {
            live.retain(|p| p.len() > i && p[i].0.len() == 1);
            if live.is_empty() { return Ok(()) }
            let Some(p) = self.parent_of(n)? else { return Ok(()) };
            let ks: BTreeSet<Rc<str>> = live.iter().filter_map(|p| p[i].0.first().cloned()).collect();
            let mut found = None;
            for k in ks {
                let (yes, no): (Vec<Alt>, Vec<Alt>) = self.tree.nodes[p].alts.iter().cloned().partition(|a| a.kind == k);
                if yes.is_empty() { continue }
                if !no.is_empty() && self.choose(2, || format!("surroundings {p}:{k}"))? == 0 { self.tree.nodes[p].alts = no; continue }
                self.tree.nodes[p].alts = yes; found = Some(k); break;
            }
            let Some(k) = found else { return Ok(()) };
            live.retain(|p| p[i].0.contains(&k));
            if live.iter().any(|p| p[i].1.is_some()) {
                if self.tree.nodes[p].children.is_none() { if self.tree.nodes[p].alts.len() > 1 { let d = self.choose(self.tree.nodes[p].alts.len(), || format!("form of {p}"))?; let a = self.tree.nodes[p].alts[d].clone(); self.tree.nodes[p].alts = vec![a]; } self.reveal_parent(p)? }
                let f: BTreeSet<Rc<str>> = self.tree.nodes[n].fields.iter().cloned().collect();
                live.retain(|p| p[i].1.as_ref().is_none_or(|x| *x == f));
            }
            n = p; i += 1;
        }
    }
    /// How far above the root n stands.
    fn height(&self, n: usize) -> usize {
        let (mut x, mut h) = (self.root, 0);
        while let Some(y) = x { if y == n { return h } h += 1; x = self.tree.nodes[y].parent }
        0
    }
    /// Whether n contains the root (an ancestor met by walking up from it).
    fn above_root(&self, n: usize) -> bool {
        let mut x = self.root;
        while let Some(p) = x.and_then(|x| self.tree.nodes[x].parent) { if p == n { return true } x = Some(p) }
        false
    }
    fn parent_of(&mut self, n: usize) -> R<Option<usize>> {
        if let (Some(p), Some(s)) = (self.tree.nodes[n].parent, self.cm.as_ref().and_then(|c| c.around)) { if p == s && Some(n) != self.root { return self.parent_of(self.root.unwrap()) } }
        if let Some(p) = self.tree.nodes[n].parent { return Ok(Some(p)) }
        if self.tree.nodes[n].label == "outside" && !self.above_root(n) {
            let Some(r) = self.root else { return unsup("parent of outside node") };
            let Some(p) = self.parent_of(r)? else { return unsup("parent of outside node") };
            // what stands next to the root has the same parent
            if let Some(k) = self.tree.kind(n) { let ps = self.c.parents(&k); let m: Vec<Alt> = self.tree.nodes[p].alts.iter().filter(|a| ps.iter().any(|b| b.kind == a.kind)).cloned().collect(); if !m.is_empty() { self.tree.nodes[p].alts = m } }
            return Ok(Some(p));
        }
        let Some(k) = self.tree.kind(n) else { return unsup("parent of undetermined node") };
        let ps = self.c.parents(&k);
        if ps.is_empty() { return Ok(None) }
        let mut alts: Vec<Alt> = vec![]; for p in ps.iter() { if !alts.iter().any(|a| a.key() == p.key()) { alts.push(p.clone()) } }
        if self.height(n) > 2 { return Err(Exit::Infeasible) }
        let p = self.outside(alts);
        self.tree.nodes[n].parent = Some(p); Ok(Some(p))
    }
    fn sibling(&mut self, n: usize, which: usize) -> R<Option<usize>> {
        let (fwd, named) = (which == 0 || which == 2, which >= 2);
        if let Some(p) = self.tree.nodes[n].parent {
            if self.tree.nodes[p].children.is_some() {
                let vis = self.tree.visible_children(p);
                let i = vis.iter().position(|x| *x == n).unwrap_or(0);
                let list: Vec<usize> = if fwd { vis[i + 1..].to_vec() } else { vis[..i].iter().rev().copied().collect() };
                for x in list { if !named || self.is_named(x)? { return Ok(Some(x)) } }
                return Ok(None);
            }
        }
        if self.has_around(n) {
            let s = self.around()?;
            let vis = self.tree.visible_children(s);
            let i = vis.iter().position(|x| *x == n).unwrap_or(0);
            let list: Vec<usize> = if fwd { vis[i + 1..].to_vec() } else { vis[..i].iter().rev().copied().collect() };
            for x in list { if !named || self.is_named(x)? { return Ok(Some(x)) } }
            return Ok(None);
        }
        self.follow(n, which)
    }
    /// A neighbour of a node whose surroundings are open.
    pub fn follow(&mut self, n: usize, which: usize) -> R<Option<usize>> {
        if let Some(x) = self.tree.nodes[n].sib[which] { return Ok(x) }
        if self.tree.nodes[n].label == "outside" { let r = self.outside_named(); self.tree.nodes[n].sib[which] = Some(Some(r)); return if self.choose(2, || format!("sibling {which} of {n}"))? == 1 { Ok(Some(r)) } else { self.tree.nodes[n].sib[which] = Some(None); Ok(None) } }
        let Some(k) = self.tree.kind(n) else { return unsup("sibling of undetermined node") };
        let r = if which == 0 {
            let f = self.c.follow.get(&k).cloned().unwrap_or_default();
            let opts: Vec<String> = f.iter().map(|x| x.to_string()).collect();
            let punct: Vec<String> = opts.iter().filter(|x| *x == "," || *x == ";").cloned().collect();
            let others: Vec<String> = opts.iter().filter(|x| *x != "," && *x != ";" && !x.is_empty()).cloned().collect();
            let mut choices: Vec<Option<Vec<String>>> = vec![];
            if opts.iter().any(|x| x.is_empty()) || opts.is_empty() { choices.push(None) }
            for p in punct { choices.push(Some(vec![p])) }
            if !others.is_empty() { choices.push(Some(others)) }
            let d = self.choose(choices.len(), || format!("next sibling of {n}:{k}"))?;
            match &choices[d] { None => None, Some(ks) => { let mut alts = vec![]; for k in ks { let named = k.strip_prefix("n:"); match named { Some(k) => alts.extend(self.c.g.alts_of_kind(k)), None => alts.push(Alt { kind: k.as_str().into(), named: false, content: Content::Lit(k.as_str().into(), false) }) } } Some(self.outside(alts)) } }
        } else if self.choose(2, || format!("sibling {which} of {n}"))? == 1 { Some(self.outside_named()) } else { None };
        self.tree.nodes[n].sib[which] = Some(r);
        Ok(r)
    }
    pub fn outside_named(&mut self) -> usize { let mut alts = vec![]; for k in self.c.g.all_names.clone() { alts.push(Alt { kind: k.clone(), named: true, content: Content::Rule(k) }) } self.outside(alts) }
    fn node_of(&mut self, v: &V) -> R<usize> { match self.deref(v)? { V::Node(n) => Ok(n), x => unsup(format!("node {}", term(&x))) } }
    fn cursor_of(&mut self, v: &V) -> R<(usize, usize)> { match self.deref(v)? { V::Cursor(s, n) => Ok((s, n)), x => unsup(format!("cursor {}", term(&x))) } }
    fn model_tree(&mut self, name: &str, _inst: &Instance, a: &[V]) -> R<Option<V>> {
        let Some(rest) = name.strip_prefix("tree_sitter::") else { if name.contains("tree_sitter::") && name.ends_with("Clone::clone") { return Ok(Some(self.load(&a[0])?)) } return Ok(None) };
        let m = rest.rsplit("::").next().unwrap_or("");
        let opt = |o: Option<usize>| match o { Some(x) => V::some(V::Node(x)), None => V::none() };
        if rest.starts_with("Node::") {
            let n = self.node_of(&a[0])?;
            return Ok(Some(match m {
                "kind" | "grammar_name" => V::Str(self.kind_str(n)),
                "kind_id" | "grammar_id" => V::top(format!("kind_id{n}")),
                "id" => V::Ext("id".into(), Rc::new(vec![V::Node(n)])),
                "is_named" => V::b(self.is_named(n)?),
                "is_extra" => V::b(self.tree.nodes[n].extra),
                "is_error" => V::b(self.errs.get(&n).is_some_and(|e| *e == 2)),
                "is_missing" => V::b(self.errs.get(&n).is_some_and(|e| *e == 3)),
                "has_error" => {
                    if self.root.is_some() { return Ok(Some(V::b(false))) }
                    if !self.errs.contains_key(&n) {
                        let d = if self.tree.nodes[n].children.is_some() || self.tree.nodes[n].parent.is_some() { 0 } else { self.choose_memo(&format!("has_error(node{n})"), 2)? };
                        self.errs.insert(n, d as u8);
                        if d == 1 { self.error_tree(n)? }
                    }
                    V::b(self.errs[&n] != 0)
                }
                "child_count" => V::Int(self.kids(n)?.len() as i128),
                "named_child_count" => V::Int(self.named_kids(n)?.len() as i128),
                "child" => { let V::Int(i) = a[1] else { return unsup("child index") }; let k = self.kids(n)?; opt(k.get(i as usize).copied()) }
                "named_child" => { let V::Int(i) = a[1] else { return unsup("child index") }; let k = self.named_kids(n)?; opt(k.get(i as usize).copied()) }
                "child_by_field_name" => { let f = self.str_of(&a[1])?; let Some(f) = as_lit(&f) else { return unsup("field name") }; let k = self.kids(n)?; opt(k.into_iter().find(|c| !self.tree.nodes[*c].extra && self.tree.nodes[*c].fields.iter().any(|x| **x == *f))) }
                "children_by_field_name" => { let f = self.str_of(&a[1])?; let Some(f) = as_lit(&f) else { return unsup("field name") }; let k = self.kids(n)?; V::seq(k.into_iter().filter(|c| !self.tree.nodes[*c].extra && self.tree.nodes[*c].fields.iter().any(|x| **x == *f)).map(V::Node).collect::<Vec<_>>()) }
                "children" => V::seq(self.kids(n)?.into_iter().map(V::Node).collect::<Vec<_>>()),
                "named_children" => V::seq(self.named_kids(n)?.into_iter().map(V::Node).collect::<Vec<_>>()),
                "field_name_for_child" => { let V::Int(i) = a[1] else { return unsup("child index") }; let k = self.kids(n)?; match k.get(i as usize).and_then(|c| self.tree.nodes[*c].fields.last().cloned()) { Some(f) => V::some(V::lit(&f)), None => V::none() } }
                "walk" => V::Cursor(n, n),
                "parent" => { let p = self.parent_of(n)?; opt(p) }
                "next_sibling" => { let x = self.sibling(n, 0)?; opt(x) }
                "prev_sibling" => { let x = self.sibling(n, 1)?; opt(x) }
                "next_named_sibling" => { let x = self.sibling(n, 2)?; opt(x) }
                "prev_named_sibling" => { let x = self.sibling(n, 3)?; opt(x) }
                "start_position" => V::agg(0, vec![self.row_value(n, false), V::top(format!("scol{n}"))]),
                "end_position" => V::agg(0, vec![self.row_value(n, true), V::top(format!("ecol{n}"))]),
                "start_byte" => V::Ext("byte".into(), Rc::new(vec![V::Node(n), V::Int(0)])),
                "end_byte" => V::Ext("byte".into(), Rc::new(vec![V::Node(n), V::Int(1)])),
                "byte_range" => V::agg(0, vec![V::Ext("byte".into(), Rc::new(vec![V::Node(n), V::Int(0)])), V::Ext("byte".into(), Rc::new(vec![V::Node(n), V::Int(1)]))]),
                "utf8_text" => { if let Some(t) = self.text_eq.get(&format!("text{n}")) { let t = t.clone(); return Ok(Some(V::ok(V::lit(&t)))) } V::ok(V::Str(self.src_text(n))) }
                "to_sexp" => V::Str(Rc::new(vec![Part::Unk("sexp".into())])),
                "descendant_count" => V::top(format!("descendants{n}")),
                _ => return unsup(format!("Node::{m}")),
            }));
        }
        if rest.starts_with("TreeCursor::") {
            let (s, n) = self.cursor_of(&a[0])?;
            let p = self.last_ptr(&a[0])?;
            return Ok(Some(match m {
                "node" => V::Node(n),
                "goto_first_child" => { if self.prune && self.tree.nodes[n].children.is_none() { return Ok(Some(V::b(false))) } if self.cm.is_some() && self.prune && self.collecting.is_some_and(|a| a != n) && self.collected.contains(&n) { return Ok(Some(V::b(false))) } match self.kids(n)?.first() { Some(c) => { let c = *c; self.store_through(&p, V::Cursor(s, c))?; V::b(true) } None => V::b(false) } }
                "goto_last_child" => match self.kids(n)?.last() { Some(c) => { let c = *c; self.store_through(&p, V::Cursor(s, c))?; V::b(true) } None => V::b(false) },
                "goto_next_sibling" | "goto_previous_sibling" => { if s == n { return Ok(Some(V::b(false))) } match self.sibling(n, if m == "goto_next_sibling" { 0 } else { 1 })? { Some(c) => { self.store_through(&p, V::Cursor(s, c))?; V::b(true) } None => V::b(false) } }
                "goto_parent" => { if s == n { V::b(false) } else { match self.tree.nodes[n].parent { Some(c) => { self.store_through(&p, V::Cursor(s, c))?; V::b(true) } None => V::b(false) } } }
                "field_name" => match self.tree.nodes[n].fields.last().cloned() { Some(f) if s != n => V::some(V::lit(&f)), _ => V::none() },
                "reset" => { let k = self.node_of(&a[1])?; self.store_through(&p, V::Cursor(k, k))?; V::unit() }
                _ => return unsup(format!("TreeCursor::{m}")),
            }));
        }
        if rest.starts_with("Tree::") { let V::Tree(r) = self.deref(&a[0])? else { return unsup("tree") }; return Ok(Some(match m { "root_node" => V::Node(r), "walk" => V::Cursor(r, r), _ => return unsup(format!("Tree::{m}")) })) }
        if rest.starts_with("Parser::") {
            return Ok(Some(match m {
                "new" => V::Ext("parser".into(), Rc::new(vec![])),
                "set_language" => V::ok(V::unit()),
                "parse" => { let s = self.str_of(&a[1])?; self.event("parse", vec![V::Str(s)]); let r = self.tree.add(self.c.g.alts_of_kind("parser_output")); V::some(V::Tree(r)) }
                _ => return unsup(format!("Parser::{m}")),
            }));
        }
        if m == "clone" { return Ok(Some(self.load(&a[0])?)) }
        if m == "eq" { let (x, y) = (self.node_of(&a[0])?, self.node_of(&a[1])?); return Ok(Some(V::b(x == y))) }
        if rest.starts_with("Language") || rest.contains("Language") { return Ok(Some(V::Ext("language".into(), Rc::new(vec![])))) }
        Ok(None)
    }
    /// Source text of a node; keywords and operators have a fixed text.
    pub fn src_text(&mut self, n: usize) -> AStr { match self.leaf_content(n) { Some(Content::Lit(t, false)) => lit(&t), _ => Rc::new(vec![Part::Src(n)]) } }
}
/// One declared command-line option: its identifier and builder calls.
pub struct CliArg { pub id: String, pub calls: Vec<(String, String)> }
impl CliArg { pub fn has(&self, m: &str, v: &str) -> bool { self.calls.iter().any(|(a, b)| a == m && b == v) } pub fn get(&self, m: &str) -> Option<&str> { self.calls.iter().find(|(a, _)| a == m).map(|x| &x.1[..]) } }
pub fn cli_args(cmd: &V) -> Vec<CliArg> {
    let V::Ext(_, f) = cmd else { return vec![] };
    let plain = |v: &V| match v { V::Str(s) => as_lit(s).unwrap_or_default(), V::Int(i) => i.to_string(), x => term(x) };
    let mut o = vec![];
    fn each<'a>(v: &'a V, o: &mut Vec<&'a V>) { match v { V::Ext(k, _) if &**k == "clap:Arg" => o.push(v), V::Ext(_, f) | V::Vec(f) => f.iter().for_each(|x| each(x, o)), _ => {} } }
    let mut args = vec![]; for x in f.iter() { each(x, &mut args) }
    for x in args { if let V::Ext(_, g) = x { o.push(CliArg { id: plain(&g[0]), calls: g[1..].iter().filter_map(|c| if let V::Ext(m, v) = c { Some((m.to_string(), v.first().map(plain).unwrap_or_default())) } else { None }).collect() }) } }
    o
}
pub fn neg(v: V) -> V { match v { V::Int(i) => V::b(i == 0), V::Top(s) => match s.strip_prefix('!') { Some(r) => V::top(r), None => V::top(format!("!{s}")) }, x => x } }
pub fn strip_ref(t: Ty) -> Ty { match t.kind() { TyKind::RigidTy(RigidTy::Ref(_, u, _)) => strip_ref(u), _ => t } }
fn strip_one(t: Ty) -> Ty { match t.kind() { TyKind::RigidTy(RigidTy::Ref(_, u, _)) => u, _ => t } }
