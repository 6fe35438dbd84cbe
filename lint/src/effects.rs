//! Effects of everything reachable from an entry point: which library
//! functions are called, and which process-wide variables are used.
use crate::interp::*;
use crate::report::Out;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::visit::MirVisitor;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::*;
use rustc_public::mir::{alloc, visit};
use std::collections::*;

#[derive(Default)]
struct Seen { tys: HashSet<Ty>, globals: BTreeSet<String>, casts: usize }
impl MirVisitor for Seen {
    fn visit_ty(&mut self, t: &Ty, _: visit::Location) { self.tys.insert(*t); }
    fn visit_mir_const(&mut self, c: &MirConst, l: visit::Location) {
        self.tys.insert(c.ty());
        if let ConstantKind::Allocated(a) = c.kind() { for (_, p) in &a.provenance.ptrs { if let alloc::GlobalAlloc::Static(s) = alloc::GlobalAlloc::from(p.0) {
            let t = s.ty(); let m = if let TyKind::RigidTy(RigidTy::RawPtr(_, Mutability::Mut)) = c.ty().kind() { "mut " } else { "" };
            self.globals.insert(format!("{} : {m}{t}", s.name()));
        } } }
        self.super_mir_const(c, l)
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: visit::Location) {
        if let Rvalue::Cast(CastKind::PointerExposeAddress, ..) = r { self.casts += 1 }
        self.super_rvalue(r, l)
    }
}
pub struct Fun { pub name: String, pub place: String, pub calls: BTreeMap<String, String>, pub casts: usize, pub globals: BTreeSet<String> }
fn at(s: rustc_public::ty::Span) -> String { format!("{}:{}", s.get_filename(), s.get_lines().start_line) }
/// Everything of the program's own code reachable from `start`.
pub fn reach(c: &Ctx, start: Instance) -> Vec<Fun> {
    let mut out = vec![]; let mut seen: HashSet<Instance> = [start].into(); let mut work = vec![start];
    let push = |i: Instance, seen: &mut HashSet<Instance>, work: &mut Vec<Instance>| { if Interp::is_local(i) && seen.insert(i) { work.push(i) } };
    while let Some(i) = work.pop() {
        let Some(b) = c.body(i) else { continue };
        let mut v = Seen::default();
        v.visit_body(b);
        for l in b.locals() { v.tys.insert(l.ty); }
        let mut f = Fun { name: norm(&i.name()), place: at(i.def.span()), calls: BTreeMap::new(), casts: v.casts, globals: v.globals };
        for bb in &b.blocks { if let TerminatorKind::Call { func, .. } = &bb.terminator.kind { if let Ok(t) = func.ty(b.locals()) { if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = t.kind() { f.calls.entry(c.name(d).to_string()).or_insert(at(bb.terminator.source_info.span)); } } } }
        for t in v.tys { if let TyKind::RigidTy(k) = t.kind() { match k {
            RigidTy::FnDef(d, a) => { f.calls.entry(c.name(d).to_string()).or_insert(f.place.clone()); if let Ok(x) = Instance::resolve(d, &a) { push(x, &mut seen, &mut work); } }
            RigidTy::Closure(d, a) => { for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] { if let Ok(x) = Instance::resolve_closure(d, &a, k) { push(x, &mut seen, &mut work); break } } }
            _ => {}
        } } }
        out.push(f);
    }
    out
}

const WORLD: &[(&str, &str)] = &[
    ("std::time::Instant::now", "the clock"), ("std::time::SystemTime::now", "the clock"), ("Instant::elapsed", "the clock"),
    ("std::env::", "the environment"), ("std::fs::", "the file system"), ("std::net::", "the network"), ("std::process::", "a process"), ("std::io::stdin", "standard input"),
    ("std::thread::current", "the thread's identity"), ("ThreadId", "the thread's identity"), ("available_parallelism", "the machine"), ("RandomState", "a random hash seed"), ("DefaultHasher", "a hash"), ("hash_one", "a random hash seed"), ("BuildHasher", "a random hash seed"), ("rand::", "a random number"), ("fmt::Pointer", "an address"), ("Argument::new_pointer", "an address"), ("ptr::addr", "an address"), ("::expose_provenance", "an address"),
];
/// Formatting reads nothing but the source and the settings.
pub fn pure(c: &Ctx, start: Instance, out: &mut Out) {
    let fs = reach(c, start);
    out.count("C22 functions", fs.len());
    for f in &fs {
        out.count("C22 obligations", f.calls.len());
        for (n, p) in &f.calls {
            for (w, what) in WORLD { if n.contains(w) { out.add("C22", format!("{}: reads {what}", f.name), p.clone(), format!("{} calls {n}", f.name)) } }
            // process-wide state that one file can leave behind for another
            if (n.contains("sync::atomic") || n.contains("sync::")) && !["Arc", "mpsc", "LazyLock"].iter().any(|x| n.contains(x)) { out.add("C20", format!("{}: shares state between files", f.name), p.clone(), format!("{} calls {n}", f.name)) }
        }
        if f.casts > 0 { out.add("C22", format!("{}: uses an address as a number", f.name), f.place.clone(), f.name.clone()) }
        for g in &f.globals { if std::env::var("AFMT_V").is_ok() { eprintln!("global {} uses {g}", f.name) } if let Some((_, t)) = g.split_once(" : ") { if t.starts_with("mut ") || ["Atomic", "Mutex", "RwLock", "OnceLock", "OnceCell", "UnsafeCell", "RefCell"].iter().any(|x| t.contains(x)) && !t.starts_with("LazyLock") { out.add("C20", format!("{}: shares state between files", f.name), f.place.clone(), g.clone()) } } }
        if f.calls.len() > 8 { out.sample("C22", format!("{} ({}): {} library calls, none reads the clock, environment, files, addresses or hash seeds", f.name, f.place, f.calls.len())) }
    }
}
