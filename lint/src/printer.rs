//! The printer: what it writes for a document, at an unknown line width and
//! with texts of unknown length, compared with what the document says.
use crate::interp::*;
use crate::report::Out;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use crate::models::strip_ref;
use rustc_public::ty::*;
use rustc_public::*;
use std::collections::*;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum D { /** a text */ T(usize), /** a text that ends in a blank */ Ts(usize), Sp, Nil, N, E, F, So, Ma, Flat(Rc<D>), In(u32, Rc<D>), De(u32, Rc<D>), Cat(Vec<Rc<D>>), Ch(Rc<D>, Rc<D>) }
use D::*;
/// One written element.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum W { T(usize), Ch(char) }

fn show(d: &D) -> String {
    match d {
        T(k) => format!("text{k}"), Ts(k) => format!("text{k}_"), Sp => "' '".into(), Nil => "''".into(), N => "newline".into(), E => "newline0".into(), F => "force".into(), So => "softline".into(), Ma => "maybeline".into(),
        Flat(x) => format!("flat({})", show(x)), In(i, x) => format!("indent{i}({})", show(x)), De(i, x) => format!("dedent{i}({})", show(x)),
        Cat(v) => format!("[{}]", v.iter().map(|x| show(x)).collect::<Vec<_>>().join(", ")),
        Ch(x, y) if matches!(&**x, Flat(z) if z == y) => format!("group({})", show(y)),
        Ch(x, y) => format!("choice({}, {})", show(x), show(y)),
    }
}
fn written(o: &[W]) -> String { o.iter().map(|w| match w { W::T(k) => format!("<{k}>"), W::Ch('\n') => "\\n".into(), W::Ch(c) => c.to_string() }).collect() }
fn width(k: usize) -> Lin { Lin::sym(&format!("#{k}")) }

// ------------------------------------------------------------ the meaning of a document
struct Rest<'a> { d: &'a D, ind: u32, flat: bool, next: Option<Rc<Rest<'a>>> }
fn push<'a>(d: &'a D, ind: u32, flat: bool, next: &Option<Rc<Rest<'a>>>) -> Option<Rc<Rest<'a>>> { Some(Rc::new(Rest { d, ind, flat, next: next.clone() })) }
/// A decision between two layouts: which one, and the room the first one needs.
struct Pick { first: bool, col: Lin, need: Option<Lin> }
fn need<'a>(d: &'a D, flat: bool, rest: &Option<Rc<Rest<'a>>>) -> Option<Lin> {
    // the room taken up to the next possible line break; None: it must break
    let mut sum = Lin::default(); let mut inside: Vec<(&D, bool)> = vec![(d, flat)]; let mut rest = rest.clone(); let mut group = true;
    loop {
        let (d, flat) = match inside.pop() { Some(x) => x, None => match rest.clone() { Some(r) => { group = false; rest = r.next.clone(); (r.d, r.flat) } None => return Some(sum) } };
        match d {
            T(k) => sum = sum.plus(&width(*k), 1), Ts(k) => { sum = sum.plus(&width(*k), 1); sum.c += 1 } Sp => sum.c += 1, Nil => {}
            N | E => return Some(sum),
            F => if group { return None },
            So => if flat { sum.c += 1 } else { return Some(sum) },
            Ma => if !flat { return Some(sum) },
            Flat(x) => inside.push((&**x, true)),
            In(_, x) | De(_, x) => inside.push((&**x, flat)),
            Cat(v) => for x in v.iter().rev() { inside.push((&**x, flat)) },
            Ch(x, y) => inside.push((if flat { &**x } else { &**y }, flat)),
        }
    }
}
fn meaning(d: &D, bits: u32) -> (Vec<W>, Vec<Pick>) {
    let mut out: Vec<W> = vec![]; let mut picks = vec![]; let mut pending: Option<u32> = None; let mut col = Lin::default();
    fn flush(p: &mut Option<u32>, out: &mut Vec<W>, col: &mut Lin) { if let Some(i) = p.take() { out.push(W::Ch('\n')); for _ in 0..i { out.push(W::Ch(' ')) } *col = Lin::int(i as i128) } }
    let mut stack = Some(Rc::new(Rest { d, ind: 0, flat: false, next: None }));
    while let Some(r) = stack {
        stack = r.next.clone();
        let (ind, flat) = (r.ind, r.flat);
        match r.d {
            T(k) => { flush(&mut pending, &mut out, &mut col); out.push(W::T(*k)); col = col.plus(&width(*k), 1) }
            Ts(k) => { flush(&mut pending, &mut out, &mut col); out.push(W::T(*k)); out.push(W::Ch(' ')); col = col.plus(&width(*k), 1); col.c += 1 }
            Sp => { flush(&mut pending, &mut out, &mut col); if out.last() != Some(&W::Ch(' ')) { out.push(W::Ch(' ')); col.c += 1 } }
            Nil => flush(&mut pending, &mut out, &mut col),
            N => pending = Some(ind),
            E => { pending = None; out.push(W::Ch('\n')); col = Lin::default() }
            F => {}
            So => if flat { out.push(W::Ch(' ')); col.c += 1 } else { pending = Some(ind) },
            Ma => if !flat { pending = Some(ind) },
            Flat(x) => stack = push(x, ind, true, &stack),
            In(i, x) => stack = push(x, ind + i, flat, &stack),
            De(i, x) => stack = push(x, ind.saturating_sub(*i), flat, &stack),
            Cat(v) => for x in v.iter().rev() { stack = push(x, ind, flat, &stack) },
            Ch(x, y) => {
                flush(&mut pending, &mut out, &mut col);
                if flat { stack = push(x, ind, true, &stack) } else {
                    let first = bits >> picks.len().min(31) & 1 == 1;
                    picks.push(Pick { first, col: col.clone(), need: need(x, false, &stack) });
                    stack = push(if first { x } else { y }, ind, flat, &stack)
                }
            }
        }
    }
    flush(&mut pending, &mut out, &mut col);
    (out, picks)
}
/// Does the path's answers about widths agree with the choice of layout?
fn agrees(p: &Pick, facts: &[Lin]) -> bool {
    let w = Lin::sym("#W");
    match (&p.need, p.first) {
        (None, f) => !f,
        (Some(s), true) => (s.t.is_empty() && s.c == 0) || w.plus(&p.col, -1).plus(s, -1).follows(facts),
        (Some(s), false) => s.plus(&Lin::int(1), -1).follows(facts) && p.col.plus(s, 1).plus(&w, -1).plus(&Lin::int(1), -1).follows(facts),
    }
}

// ------------------------------------------------------------ the documents
fn atoms() -> Vec<D> { vec![T(0), So, Ma, N, Sp, E, F, Nil, Ts(0), Cat(vec![])] }
fn size(n: usize) -> Vec<Vec<D>> {
    let mut by: Vec<Vec<D>> = vec![vec![], atoms()];
    for k in 2..=n {
        let mut v = vec![];
        for x in &by[k - 1] { let x = Rc::new(x.clone()); v.push(Ch(Rc::new(Flat(x.clone())), x.clone())); v.push(In(0, x.clone())); v.push(Flat(x.clone())); v.push(De(0, x.clone())); }
        for i in 1..k - 1 { for x in &by[i] { for y in &by[k - 1 - i] { let (x, y) = (Rc::new(x.clone()), Rc::new(y.clone())); v.push(Cat(vec![x.clone(), y.clone()])); v.push(Ch(x, y)) } } }
        by.push(v);
    }
    by
}
/// Layouts of the kind the builders make: groups of indented lists.
fn typical(deep: bool) -> Vec<D> {
    let r = |d: D| Rc::new(d); let grp = |d: D| { let d = Rc::new(d); Ch(Rc::new(Flat(d.clone())), d) };
    let cat = |v: Vec<D>| Cat(v.into_iter().map(Rc::new).collect());
    let mut out = vec![];
    let inner: Vec<D> = vec![T(0), grp(cat(vec![T(0), So, T(0)])), grp(cat(vec![T(0), In(0, r(cat(vec![Ma, T(0)]))), Ma, T(0)])), cat(vec![T(0), N, T(0)]), cat(vec![T(0), F, T(0)]), cat(vec![T(0), Sp, T(0)]), In(0, r(cat(vec![N, T(0), E, N, T(0)]))), cat(vec![Ts(0), Sp, T(0)]), cat(vec![N, T(0)]), Ch(r(cat(vec![T(0), Sp, T(0)])), r(cat(vec![T(0), N, T(0)])))];
    for a in &inner { for b in if deep { &inner[..] } else { &inner[..1] } { for open in [Ma, So, N] { for sep in [So, N, Sp] {
        let list = cat(vec![a.clone(), T(0), sep.clone(), b.clone()]);
        let body = cat(vec![T(0), In(0, r(open.clone())), In(0, r(list)), open.clone(), T(0)]);
        out.push(grp(body.clone())); out.push(cat(vec![body.clone(), E, N, T(0)])); out.push(In(0, r(cat(vec![N, grp(body.clone()), De(0, r(cat(vec![N, T(0)])))]))));
    } } } }
    out
}
/// Texts and indentations get their own numbers; shared documents stay shared.
fn number(d: &Rc<D>, n: &mut (usize, usize), done: &mut HashMap<*const D, (Rc<D>, Rc<D>)>, share: bool) -> Rc<D> {
    if share { if let Some((_, x)) = done.get(&Rc::as_ptr(d)) { return x.clone() } }
    let ind = |n: &mut (usize, usize)| { n.1 += 1; [2, 3, 5, 7, 11, 13][n.1 % 6] };
    let x = Rc::new(match &**d {
        T(_) => { n.0 += 1; T(n.0 - 1) } Ts(_) => { n.0 += 1; Ts(n.0 - 1) }
        In(_, x) => { let i = ind(n); In(i, number(x, n, done, share)) } De(_, x) => { let i = ind(n); De(i, number(x, n, done, share)) }
        Flat(x) => Flat(number(x, n, done, share)),
        Cat(v) => Cat(v.iter().map(|x| number(x, n, done, share)).collect()),
        Ch(x, y) => { let group = matches!(&**x, Flat(z) if Rc::ptr_eq(z, y)); if group { let y = number(y, n, done, share); Ch(Rc::new(Flat(y.clone())), y) } else { Ch(number(x, n, done, share), number(y, n, done, share)) } }
        o => o.clone(),
    });
    done.insert(Rc::as_ptr(d), (d.clone(), x.clone())); x
}

// ------------------------------------------------------------ running the printer
pub struct Shape { variants: Vec<(String, Vec<Ty>)> }
impl Shape {
    pub fn new(d: AdtDef, args: &GenericArgs) -> Shape { Shape { variants: d.variants().iter().map(|v| (v.name().to_string(), v.fields().iter().map(|f| f.ty_with_args(args)).collect())).collect() } }
    fn make(&self, it: &mut Interp, d: &Rc<D>, done: &mut HashMap<*const D, V>) -> R<V> {
        if let Some(v) = done.get(&Rc::as_ptr(d)) { return Ok(v.clone()) }
        let one = |k: usize, blank: bool| { let mut p = vec![Part::Unk(format!("#{k}").as_str().into())]; let mut w = width(k); if blank { p.push(Part::Lit(" ".into())); w.c += 1 } (Rc::new(p), w) };
        let (name, text, num, kids): (&str, Option<(AStr, Lin)>, u32, Vec<&Rc<D>>) = match &**d {
            T(k) => ("Text", Some(one(*k, false)), 0, vec![]), Ts(k) => ("Text", Some(one(*k, true)), 0, vec![]), Sp => ("Text", Some((lit(" "), Lin::int(1))), 0, vec![]), Nil => ("Text", Some((lit(""), Lin::int(0))), 0, vec![]),
            N => ("Newline", None, 0, vec![]), E => ("NewlineWithNoIndent", None, 0, vec![]), F => ("ForceBreak", None, 0, vec![]), So => ("Softline", None, 0, vec![]), Ma => ("Maybeline", None, 0, vec![]),
            Flat(x) => ("Flat", None, 0, vec![x]), In(i, x) => ("Indent", None, *i, vec![x]), De(i, x) => ("Dedent", None, *i, vec![x]), Cat(v) => ("Concat", None, 0, v.iter().collect()), Ch(x, y) => ("Choice", None, 0, vec![x, y]),
        };
        let Some(i) = self.variants.iter().position(|v| v.0 == name) else { return unsup(format!("no document variant {name}")) };
        let mut kids = kids.into_iter(); let mut fields = vec![];
        for t in &self.variants[i].1 {
            let n = strip_ref(*t).kind();
            fields.push(match n {
                TyKind::RigidTy(RigidTy::Uint(_)) | TyKind::RigidTy(RigidTy::Int(_)) => match &text { Some((_, w)) => w.clone().value(), None => V::Int(num as i128) },
                TyKind::RigidTy(RigidTy::Str) => V::Str(text.clone().ok_or(Exit::Unsup("text".into()))?.0),
                TyKind::RigidTy(RigidTy::Adt(a, _)) if a.name().ends_with("String") => V::Str(text.clone().ok_or(Exit::Unsup("text".into()))?.0),
                TyKind::RigidTy(RigidTy::Adt(a, _)) if a.name().ends_with("Vec") => { let mut o = vec![]; for k in kids.by_ref() { o.push(self.make(it, k, done)?) } V::vec(o) }
                TyKind::RigidTy(RigidTy::Adt(..)) => { let Some(k) = kids.next() else { return unsup("document fields") }; self.make(it, k, done)? }
                x => return unsup(format!("document field {x:?}")),
            });
        }
        if kids.next().is_some() { return unsup("document fields") }
        let p = it.ptr_to(V::agg(i as u32, fields)); done.insert(Rc::as_ptr(d), p.clone()); Ok(p)
    }
}
fn observed(s: &AStr) -> Option<Vec<W>> {
    let mut o = vec![];
    for p in s.iter() { match p { Part::Lit(t) => o.extend(t.chars().map(W::Ch)), Part::Unk(k) => o.push(W::T(k.strip_prefix('#')?.parse().ok()?)), _ => return None } }
    Some(o)
}
const TEXT: [&str; 10] = ["C01", "C02", "C03", "C04", "C05", "C08", "C10", "C11", "C15", "C23"];
/// The printer of type `fn(&Doc, width) -> String`.
pub fn check(c: &Ctx, print: Instance, shape: &Shape, place: &str, out: &mut Out) {
    let deep = std::env::var("AFMT_TIER").is_ok_and(|t| t == "thorough");
    let mut docs: Vec<D> = size(if deep { 5 } else { 4 }).concat(); let small = docs.len(); docs.extend(typical(deep));
    for (k, d) in docs.into_iter().enumerate() {
        for after in [true, false] {
            if !after && k >= small { continue }
            let r = Rc::new(d.clone());
            let whole = Rc::new(Cat(if after { vec![Rc::new(T(0)), r, Rc::new(T(0))] } else { vec![Rc::new(T(0)), r] }));
            let whole = number(&whole, &mut (0, 0), &mut HashMap::new(), false);
            one(c, print, shape, &whole, place, out);
        }
    }
    for d in large() { one(c, print, shape, &Rc::new(d), place, out) }
}
/// Documents with many elements, deep ones, and large indentations.
fn large() -> Vec<D> {
    let r = |d: D| Rc::new(d);
    let group = |d: D| { let d = Rc::new(d); Ch(Rc::new(Flat(d.clone())), d) };
    let deep = |n: usize, step: u32| (0..n).fold(T(0), |d, k| Cat(vec![r(T(2 * k + 1)), r(In(step, r(Cat(vec![r(N), r(d)])))), r(N), r(T(2 * k + 2))]));
    let wide = |n: usize, sep: D| Cat((0..n).flat_map(|k| [r(T(k)), r(sep.clone())]).chain([r(T(n))]).collect());
    let nest = |n: usize| (0..n).fold(T(0), |d, k| Cat(vec![r(T(k + 1)), r(Flat(r(In(2, r(Cat(vec![r(So), r(d)]))))))]));
    vec![deep(3, 700), deep(120, 4), wide(300, N), wide(300, Cat(vec![r(E), r(N)])), wide(150, Sp), Cat(vec![r(wide(40, N)), r(N), r(group(Cat(vec![r(T(50)), r(So), r(T(51))])))]), group(nest(30)), In(900, r(Cat(vec![r(T(0)), r(N), r(group(Cat(vec![r(T(1)), r(In(1000, r(Ma))), r(De(400, r(So))), r(T(2)), r(N), r(T(3))])))])))]
}
fn one(c: &Ctx, print: Instance, shape: &Shape, d: &Rc<D>, place: &str, out: &mut Out) {
    let mut prefix = vec![]; let mut runs = 0;
    if out.counts.get("C32 endless").is_some_and(|n| *n > 3) { return }
    let means: Vec<(Vec<W>, Vec<Pick>)> = { let mut v: Vec<(Vec<W>, Vec<Pick>)> = vec![]; let mut bits = 0u32; loop { let m = meaning(d, bits); let n = m.1.len() as u32; v.push(m); // next resolution: flip the last taken `second`
        let mut k = n; loop { if k == 0 { break } k -= 1; if bits >> k & 1 == 0 { bits |= 1 << k; bits &= (1 << (k + 1)) - 1; k = u32::MAX; break } } if k != u32::MAX { break } } v };
    out.count("documents", 1);
    loop {
        let mut it = Interp::new(c); it.prefix = prefix;
        let n = { fn texts(d: &D) -> usize { match d { T(k) | Ts(k) => k + 1, Flat(x) | In(_, x) | De(_, x) => texts(x), Cat(v) => v.iter().map(|x| texts(x)).max().unwrap_or(0), Ch(x, y) => texts(x).max(texts(y)), _ => 0 } } texts(d) };
        for k in 0..n { it.facts.push(width(k).plus(&Lin::int(1), -1)) }
        let r = (|| -> R<AStr> { let v = shape.make(&mut it, d, &mut HashMap::new())?; let v = it.enter(print, vec![v, Lin::sym("#W").value()])?; it.str_of(&v) })();
        let next = it.next_prefix(); runs += 1;
        let ex = |o: &str| format!("{} when {} : {o}", show(d), if it.trace.is_empty() { "always".into() } else { it.trace.join(", ") });
        match r {
            Err(Exit::Infeasible) => {}
            Err(Exit::Panic(p)) => { out.add("C09", "printer: stops with an internal error", place, ex(&p)); out.add("C23", "printer: stops with an internal error", place, "") }
            Err(Exit::Endless(e)) => { out.add("C32", format!("printer: comes to no end: {e}"), place, ex("")); out.count("C32 endless", 1); break }
            Err(e) => out.undecided(&["C23", "C24", "C25", "C32"], format!("printer: {e:?}")),
            Ok(s) => match observed(&s) {
                _ if !it.imprecise.is_empty() => out.undecided(&["C23", "C24", "C25"], format!("printer: imprecise {}", it.imprecise[0])),
                None => out.undecided(&["C23", "C24", "C25"], format!("printer: writes {}", show_str(&s))),
                Some(o) => {
                    out.count("C23 obligations", 1); out.count("C25 obligations", 1); out.count("C32 obligations", 1);
                    let same: Vec<&(Vec<W>, Vec<Pick>)> = means.iter().filter(|m| m.0 == o).collect();
                    let texts = |o: &[W]| -> Vec<W> { o.iter().filter(|w| **w != W::Ch(' ') && **w != W::Ch('\n')).cloned().collect() };
                    // blanks at the ends of lines and the depth of the indentation left out
                    let breaks = |o: &[W]| -> Vec<W> { let mut v: Vec<W> = vec![]; for w in o { if *w == W::Ch(' ') && v.last() == Some(&W::Ch('\n')) { continue } v.push(w.clone()) } v };
                    let ex = || ex(&format!("writes {} instead of {}", written(&o), means.iter().map(|m| written(&m.0)).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(" or ")));
                    if !same.is_empty() {
                        out.count("C24 obligations", same[0].1.len());
                        if !same.iter().any(|m| m.1.iter().all(|p| agrees(p, &it.facts))) {
                            let m = same[0]; let bad = m.1.iter().find(|p| !agrees(p, &it.facts)).unwrap();
                            out.add("C24", if bad.first { "printer: keeps a layout on one line that does not fit" } else { "printer: breaks a layout that fits on one line" }, place, ex());
                        }
                    } else if !means.iter().any(|m| texts(&m.0) == texts(&o)) { for p in TEXT { out.add(p, "printer: loses, repeats, changes or reorders text", place, ex()) } }
                    else if means.iter().any(|m| breaks(&m.0) == breaks(&o)) { for p in ["C23", "C25"] { out.add(p, "printer: indents a line by something other than the depth of its layout", place, ex()) } }
                    else { for p in ["C07", "C14", "C23"] { out.add(p, "printer: loses or adds a blank or line break", place, ex()) } }
                }
            },
        }
        match next { Some(p) => prefix = p, None => break }
        if runs > 1500 { out.undecided(&["C23", "C24", "C25"], "printer: too many paths"); break }
    }
    out.count("printer paths", runs);
}
