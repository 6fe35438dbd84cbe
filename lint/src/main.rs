#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_hir;
extern crate rustc_public;
extern crate rustc_public_bridge;
mod grammar; mod scope; mod json; mod val; mod tree; mod interp; mod models; mod emit; mod contracts; mod report; mod scenario; mod effects; mod comments;
mod cuts; mod printer; mod layout; mod spacing;
use rustc_public::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::collections::*;
use std::ops::ControlFlow;
use std::rc::Rc;
use interp::*;
use val::*;

/// Properties decided by the comment analysis.
const COMMENTS: [&str; 5] = ["C11", "C12", "C13", "C14", "C15"];
fn find_fn(krate: &str, name: &str) -> Option<FnDef> { find_crates(krate).into_iter().chain([local_crate()]).flat_map(|c| c.fn_defs()).find(|f| norm(&f.name()).ends_with(name)) }

/// Source position of a function.
fn place(i: Instance) -> String { use rustc_public::CrateDef; let s = i.def.span(); let l = s.get_lines(); format!("{}:{}", s.get_filename(), l.start_line) }
fn analyze(_tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<()> {
    let g = grammar::Grammar::load(&std::fs::read_to_string(std::env::var("AFMT_GRAMMAR").unwrap()).unwrap(), if std::env::var("AFMT_TIER").is_ok_and(|t| t == "thorough") { 3 } else { 2 }, 100000);
    let mut doc_adts = HashSet::new();
    for c in find_crates("sf_afmt") { for im in c.trait_impls() { let tr = im.trait_impl().value; if tr.def_id.name().ends_with("DocBuild") { if let TyKind::RigidTy(RigidTy::Adt(d, _)) = tr.self_ty().kind() { doc_adts.insert(d); } } } }
    println!("doc adts {}", doc_adts.len());
    let mut c = Ctx { g, bodies: Default::default(), names: Default::default(), targets: Default::default(), prods: Default::default(), doc_adts, parents: Default::default(), follow: HashMap::new(), analysed_fns: Default::default(), foreign: Default::default(), endless: Default::default(), cuts: Default::default(), lit_memo: Default::default(), inline: Default::default(), look: Default::default(), edges: emit::Edges::new() };
    contracts::fill_follow(&mut c);
    if std::env::var("AFMT_PROBE").is_ok() {
        for f in find_crates("sf_afmt").into_iter().flat_map(|c| c.fn_defs()) { if f.name().contains("probe_") && !f.name().contains("{") { if let Ok(i) = Instance::resolve(f, &GenericArgs(vec![])) { let (rs, _) = scenario::explore(&c, i, &|_| vec![], false, 50); for r in rs { println!("PROBE {} {:?} {:?} {:?}", f.name(), r.end.as_ref().map(|v| term(v)), r.imprecise, r.trace) } } } }
        return ControlFlow::Continue(());
    }
    let f = find_fn("sf_afmt", "Formatter::format_one").expect("format_one");
    let inst = Instance::resolve(f, &GenericArgs(vec![GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased })])).or_else(|_| Instance::resolve(f, &GenericArgs(vec![]))).expect("resolve");
    let plain = |f: FnDef| Instance::resolve(f, &GenericArgs(vec![GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased })])).or_else(|_| Instance::resolve(f, &GenericArgs(vec![]))).ok();
    let docd = find_crates("sf_afmt").into_iter().flat_map(|c| c.fn_defs()).find_map(|f| { if !norm(&f.name()).ends_with("DocBuild::build") { return None } let b = f.fn_sig().skip_binder().output(); if let TyKind::RigidTy(RigidTy::Ref(_, t, _)) = b.kind() { if let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() { return Some(d) } } None }).expect("Doc");
    let is_doc = move |t: Ty| matches!(t.kind(), TyKind::RigidTy(RigidTy::Ref(_, t, _)) if matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(d, _)) if d == docd));
    let print = find_crates("sf_afmt").into_iter().flat_map(|c| c.fn_defs()).find(|f| { let s = f.fn_sig(); let s = s.skip_binder(); s.inputs().len() == 2 && is_doc(s.inputs()[0]) && matches!(s.inputs()[1].kind(), TyKind::RigidTy(RigidTy::Uint(_))) && matches!(s.output().kind(), TyKind::RigidTy(RigidTy::Adt(d, _)) if d.name().ends_with("String")) }).and_then(plain);
    let print_name: Option<Rc<str>> = print.map(|p| p.name().as_str().into());
    let is_print = Rc::new(move |i: Instance| print_name.as_ref().is_some_and(|p| *i.name() == **p));
    let mut out = report::Out::default();
    let mut prefix = vec![];
    let mut base = None; let mut syntax = vec![];
    loop {
        let mut it = Interp::new(&c);
        it.prefix = prefix.clone();
        let b = c.body(inst).unwrap();
        let src = V::Str(Rc::new(vec![Part::Unk("source".into())]));
        let cfg = it.symbolic(b.locals()[2].ty, "config");
        let snap: Rc<std::cell::RefCell<Option<contracts::Base>>> = Default::default();
        let s2 = snap.clone(); let is_print = is_print.clone();
        it.hooks = Some(Rc::new(move |it: &mut Interp, name: &str, i: Instance, a: &[V]| {
            // the layout and the printer, and the settings they are given
            if Interp::is_local(i) && a.len() == 2 && !matches!(a[0], V::Node(_)) && it.c.body(i).is_some_and(|b| is_doc(b.ret_local().ty)) { let mut l = vec![]; if settings(it, &a[1], 0, &mut l).is_ok() { it.event("layout", l) } }
            if is_print(i) { let t = it.load(&a[0]).unwrap_or(V::Undef); it.event("printed", vec![t, a[1].clone()]); return Some(Ok(V::Str(Rc::new(vec![Part::Unk("printed".into())])))) }
            // the first document constructor marks the end of the shared prefix
            if s2.borrow().is_none() && a.len() == 1 && Interp::is_local(i) && it.returns_doc(i) { if let V::Node(n) = a[0] { let _ = name; *s2.borrow_mut() = Some(contracts::Base { heap: it.heap.clone(), statics: it.statics.clone(), nodes: it.tree.nodes.clone(), collector: it.collector.clone(), first: vec![], collected: it.collected.clone(), root: i, root_node: n }); } }
            None
        }));
        let r = it.enter(inst, vec![src, cfg]);
        let ended = r.as_ref().err().cloned();
        let root_doc = snap.borrow().as_ref().map(|b| b.root_node);
        println!("path {:?} -> {:?} steps {} imprecise {:?}", it.trace, r.as_ref().map(|v| term(v)), it.steps, it.imprecise);
        let taken = snap.borrow_mut().take();
        if taken.is_some() { scenario::settings(&it, root_doc, r, &place(inst), &mut out) }
        syntax.push(scenario::Parsed { trace: it.trace.clone(), exit: ended.clone(), errs: it.errs.clone(), built: taken.is_some(), told: scenario::told(&it.events, ended.as_ref()), imprecise: !it.imprecise.is_empty() });
        if let Some(b) = taken { if base.is_none() { base = Some(b) } }
        if !matches!(ended, Some(Exit::Infeasible)) { it.settle_cuts() }
        match it.next_prefix() { Some(p) => prefix = p, None => break }
    }
    let base = base.expect("no document root");
    if std::env::var("AFMT_CM").is_err() && std::env::var("AFMT_PROPS").is_ok_and(|p| p == "C32" || COMMENTS.contains(&&*p)) { out.count("comment styles", comments::runs(&std::env::var("AFMT_PROPS").unwrap()).len()) }
    effects::pure(&c, inst, &mut out);
    cuts::census(&c, inst, &mut out);
    scenario::syntax(&syntax, &place(inst), &mut out);
    match rustc_public::entry_fn().and_then(|m| Instance::try_from(m).ok()) { Some(m) => scenario::program(&c, m, "src/main.rs", &mut out), None => out.undecided(&["C16", "C17", "C18", "C21", "C26"], "no main") }
    match find_fn("sf_afmt", "Formatter::format").and_then(plain) { Some(m) => scenario::batch(&c, m, &place(m), &mut out), None => out.undecided(&["C20"], "no Formatter::format") }
    if std::env::var("AFMT_CM").is_err() {
        // functions that take nothing but a value with interior mutability
        let marks: Vec<Instance> = find_crates("sf_afmt").into_iter().flat_map(|c| c.fn_defs()).filter(|f| { let s = f.fn_sig(); let s = s.skip_binder(); let unit = matches!(s.output().kind(), TyKind::RigidTy(RigidTy::Tuple(t)) if t.is_empty()); unit && s.inputs().len() == 1 && match s.inputs()[0].kind() { TyKind::RigidTy(RigidTy::Ref(_, t, mir::Mutability::Not)) => match t.kind() { TyKind::RigidTy(RigidTy::Adt(d, a)) if d.kind() == AdtKind::Struct => d.variants()[0].fields().iter().any(|f| { let n = format!("{:?}", f.ty_with_args(&a).kind()); n.contains("Cell") || n.contains("Atomic") }), _ => false }, _ => false } }).filter_map(plain).collect();
        println!("marks {:?}", marks.iter().map(|m| m.name()).collect::<Vec<_>>());
        comments::guard(&c, inst, &marks, &place(inst), &mut out);
    }
    let program = std::env::var("AFMT_PROPS").is_ok_and(|p| PROGRAM.contains(&&*p));
    if std::env::var("AFMT_CM").is_err() && !program && std::env::var("AFMT_ONLY").is_err() {
        let t = std::time::Instant::now();
        match print { Some(p) => printer::check(&c, p, &printer::Shape::new(docd, &GenericArgs(vec![GenericArgKind::Lifetime(Region { kind: RegionKind::ReErased })])), &place(p), &mut out), None => out.undecided(&["C23", "C24", "C25"], "printer: no function from a document and a width to text") }
        println!("printer {:?} in {:?}", out.counts.iter().filter(|x| x.0.contains("doc") || x.0.contains("printer")).collect::<Vec<_>>(), t.elapsed());
        if std::env::var("AFMT_PRINTER").is_ok() || std::env::var("AFMT_PROPS").is_ok_and(|p| p == "C23") { report(&c, &mut out); return ControlFlow::Continue(()) }
    }
    if std::env::var("AFMT_ONLY").is_ok() || std::env::var("AFMT_PROPS").is_ok_and(|p| PROGRAM.contains(&&*p) || std::env::var("AFMT_CM").is_err() && p != "C15" && COMMENTS.contains(&&*p)) { report(&c, &mut out); return ControlFlow::Continue(()) }
    let build = find_fn("sf_afmt", "DocBuild::build").expect("DocBuild::build");
    let di = emit::DocInfo::new(docd);
    println!("doc variants {:?} root {}", di.names, base.root.name());
    let r = contracts::Runner { c: &c, base: &base, di: &di, build, max_paths: 4000, long: if std::env::var("AFMT_TIER").is_ok_and(|t| t == "thorough") { vec![4, 5, 6, 7, 8, 40] } else { vec![3, 4, 17] }, cm: None, text: None };
    if let Ok(k) = std::env::var("AFMT_CM") { let (s, only) = comments::runs(&std::env::var("AFMT_PROPS").unwrap_or_default())[k.parse::<usize>().unwrap()]; comments::run(&r, comments::STYLES[s], only, &mut out); report(&c, &mut out); std::process::exit(0) }
    comments::texts(&r, &mut out);
    if std::env::var("AFMT_TEXTS").is_ok() || std::env::var("AFMT_PROPS").is_ok_and(|p| p == "C15") { report(&c, &mut out); return ControlFlow::Continue(()) }
    let t = std::time::Instant::now();
    let cs = r.all();
    println!("contracts {} in {:?}", cs.len(), t.elapsed());
    let mut rep = contracts::compare(&cs, &c, &mut out);
    layout::judge(&cs, &mut rep, &mut out);
    println!("paths {} tokens {} in {:?}", rep.paths, rep.tokens, t.elapsed());
    let places: HashMap<String, String> = cs.values().map(|k| (k.key.clone(), place(k.inst))).collect();
    for (k, f) in &rep.findings { out.found.push(report::Violation { props: f.props.iter().map(|p| p.to_string()).collect(), key: k.clone(), place: places.get(&f.ctor).cloned().unwrap_or_default(), ctor: f.ctor.clone(), example: f.example.clone() }); }
    for (k, n) in &rep.undecided { let e = out.undecided.entry(k.clone()).or_default(); e.0 += n.0; e.1.extend(n.1.iter().cloned()) }
    report(&c, &mut out);
    println!("foreign {:?}", c.foreign.borrow());
    ControlFlow::Continue(())
}

const PROGRAM: [&str; 8] = ["C34", "C16", "C17", "C18", "C19", "C20", "C21", "C26"];
/// The numbers a value is made of.
fn settings(it: &mut Interp, v: &V, d: usize, out: &mut Vec<V>) -> R<()> {
    if d > 6 { return Ok(()) }
    match it.deref(v)? { V::Agg(_, f) => for x in f.iter() { settings(it, x, d + 1, out)? }, x @ (V::Int(_) | V::Top(_) | V::Lin(_)) => out.push(x), _ => {} }
    Ok(())
}
fn report(c: &Ctx, out: &mut report::Out) {
    cuts::report(c, out);
    cover(out);
    out.count("functions", c.analysed_fns.borrow().len());
    for v in &out.found { println!("FINDING {:?} {}\n    {} {}\n    {}", v.props, v.key, v.ctor, v.place, v.example); }
    for (k, n) in &out.undecided { println!("UNDECIDED {} {k}", n.0); }
    println!("counts {:?}", out.counts);
    if let Ok(p) = std::env::var("AFMT_OUT") { std::fs::write(p, out.json()).unwrap(); }
}
fn cover(out: &mut report::Out) {
    let how = "For every construct of the parser's grammar that reaches a constructor, the compiled constructor and its document builder are interpreted over an abstract tree of that construct (every production, repetitions up to the tier's bound), with the children replaced by their own contracts; the printed pieces are matched against the construct's tokens. ";
    for (p, s) in [("C01", "Tokens of declarations, types and modifiers: nothing dropped, added, altered or reordered."), ("C02", "Tokens of statements."), ("C03", "Tokens of expressions."), ("C04", "Tokens of SOQL queries."), ("C05", "Tokens of SOSL queries."), ("C06", "Operand grouping of query conditions: parentheses printed around every operand whose grouping matters, and only around whole operands."), ("C07", "The separators between printed pieces: word-like neighbours are separated, a token is never torn apart."), ("C08", "Source text printed through a transformation (case change, replacement, trimming, slicing) is reported unless the language ignores that change."), ("C09", "Paths that end in a panic although the construct is valid."), ("C10", "Every pair of layout alternatives prints the same pieces.")] { out.cover(p, &format!("{how}{s}")) }
    let prog = "The program's entry point is interpreted from main with every combination of options, every outcome of reading, parsing, formatting and writing; the effects of each path (files read and written, text printed, exit status) are compared with what its decisions call for. ";
    for (p, s) in [("C16", "Files are written only on request, only at the given path, only with the formatted text."), ("C17", "The check mode compares the file's content with its formatted text and writes nothing; it excludes the write mode."), ("C18", "Every failing step ends in a non-zero status with a message and without writing; no other path does."), ("C21", "The settings that reach the formatter are those of the configuration file, or the documented defaults; the content formatted is the file's."), ("C26", "The declared options, and what is printed without options.")] { out.cover(p, &format!("{prog}{s}")) }
    out.cover("C19", "Formatting one source is interpreted up to the first document for trees without a syntax error and with error or missing nodes in several positions; a document is built exactly for the former.");
    out.cover("C20", "Formatting of 0 to 3 files is interpreted with every outcome per file and every order in which the threads can deliver their results; one result per file, in order, failures contained, one file per thread; no function reachable from formatting one file uses process-wide mutable state.");
    out.cover("C22", "Every function reachable from formatting one source (call graph over the compiled code) is scanned for reads of the clock, the environment, files, addresses and hash seeds; walking a hash table is interpreted in both directions and must give the same text.");
    out.cover("C23", "The printer is interpreted over every document of the layout language up to the tier's size and over typical nested groups, with opaque texts whose widths and the line width are unknown numbers; what every path writes is compared with the meaning of the document.");
    out.cover("C24", "The printer's decisions between two layouts are compared with the room the first one needs (linear arithmetic over unknown widths); for the constructs, every optional line break is followed through the contracts to a group, and every literal text's width is its length.");
    out.cover("C34", "What every failing path of the program, of parsing and of the comment guard prints (or panics with) must hold the path and reason of the failed step, the place of an erroneous node, the name of the setting, or the text of every comment that is missing.");
    out.cover("C33", "Every place at which a path cuts text by a number of bytes (slicing, truncating, splitting), in constructors, builders, comment texts, the printer and the program's entry point: the number must be a place between two characters, known from the text's own letters, a test the path made, or the length of a text that was found there.");
    out.cover("C32", "Every path of the constructors and builders (trees without and with comments), of the printer over enumerated documents, of comment texts and of the program's entry point is followed to its end; a loop or recursion that returns to a state it has been in without a decision in between, or that goes on without end on a finite tree, is reported, and so is waiting for a message or a thread that never comes.");
    let lay = "For every construct and every path of its constructor and builder, the broken layout and the neighbours in all layouts are derived from the document, with children composed through their own contracts. ";
    for (p, s) in [("C25", "Indentation amounts, brackets, first and other lines of children, and the indentation the printer writes."), ("C27", "Separators between the members of every kind of body, in all layouts."), ("C28", "Empty lines against the distance of the members' source lines, which are unknown numbers in source order."), ("C29", "Blanks next to line breaks in any layout, ends of the text."), ("C30", "Decisions on source positions and source text copied with white space."), ("C31", "The white space between every two neighbouring tokens, in all layouts, against the conventions for these two tokens (lint/src/spacing.rs), including punctuation that a construct prints behind itself.")] { out.cover(p, &format!("{lay}{s}")) }
    let com = "For every construct, a comment is put into every gap between its tokens (seven styles of comment: line or block, on its own line or next to code, one or two); the association of comments with code, constructors and builders are interpreted over these trees, and every comment is followed from the association through the contracts of the neighbouring constructs into the printed pieces. ";
    for (p, s) in [("C11", "A comment marked as printed appears in the pieces exactly once; format_one fails when a comment was not marked, whatever its kind and place."), ("C12", "A comment is printed between the tokens it stood between in the source, or at least next to the construct it belongs to."), ("C13", "No constructor stops, and no comment stays unmarked, because of where a comment is."), ("C14", "With comments the construct still prints its tokens in order; code never follows a line comment on its line, and a comment is never joined with an operator."), ("C15", "The pieces of a comment are its source text; for every shape of comment text (about 8000 line, block and doc comments) the printed lines have the same content.")] { out.cover(p, &format!("{com}{s}")) }
    for a in ["the parser's grammar.json describes the trees the parser returns", "constructs outside the Apex language that the Java-derived grammar accepts are listed in lint/src/scope.rs and left out", "library functions behave as modelled in lint/src/models.rs", "repetitions beyond the tier's bound behave like those within it"] { out.assume(a) }
}
fn main() {
    use std::os::unix::process::CommandExt;
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(0); }
    let name = args.iter().position(|a| a == "--crate-name").map(|i| args[i+1].clone()).unwrap_or_default();
    if name != "afmt" || std::env::var("AFMT_WARM").is_ok() {
        let e = std::process::Command::new(&args[0]).args(&args[1..]).exec();
        panic!("{e}");
    }
    let comments = std::env::var("AFMT_PROPS").is_ok_and(|p| p == "C32" || COMMENTS.contains(&&*p));
    if comments && std::env::var("AFMT_CM").is_err() {
        // one process per comment style; the front end merges their reports
        let me = std::env::current_exe().unwrap(); let out = std::env::var("AFMT_OUT").unwrap_or_default();
        let n = comments::runs(&std::env::var("AFMT_PROPS").unwrap()).len();
        let next = std::sync::atomic::AtomicUsize::new(0);
        let workers = std::thread::available_parallelism().map_or(4, |n| n.get()).min(10) + 1;
        std::thread::scope(|s| for _ in 0..workers { s.spawn(|| loop {
            let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            if k >= n { break }
            let _ = std::process::Command::new(&me).args(std::env::args().skip(1)).env("AFMT_CM", k.to_string()).env("AFMT_OUT", format!("{out}.{k}")).status();
        }); });
    }
    if let Some(i) = args.iter().position(|a| a.starts_with("incremental=")) { args.drain(i - 1..=i); }
    let r = run_with_tcx!(&args, analyze);
    std::process::exit(if r.is_ok() {0} else {1});
}
