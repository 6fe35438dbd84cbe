//! Whole-program scenarios: the command line, files, threads and failures.
//! The entry points are interpreted with unknown arguments and files; every
//! path's effects are compared with what its decisions call for.
use crate::interp::*;
use crate::models::*;
use crate::report::Out;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::collections::*;
use std::rc::Rc;

pub struct Run { pub events: Vec<Event>, pub memo: HashMap<String, usize>, pub end: Result<V, Exit>, pub imprecise: Vec<String>, pub trace: Vec<String> }
impl Run { fn is(&self, k: &str) -> bool { self.memo.get(k) == Some(&1) } }

/// Formatting one file is represented by its outcome.
fn outcome(it: &mut Interp, name: &str, i: Instance, a: &[V]) -> Option<R<V>> {
    if !Interp::is_local(i) || !name.ends_with("Formatter::format_one") { return None }
    let go = |it: &mut Interp| -> R<V> {
        let s = it.str_of(&a[0])?; let cfg = it.deref(&a[1])?;
        let t = it.c.body(i).map(|b| b.locals()[2].ty);
        let cfg = match (cfg, t.map(|t| strip_ref(t).kind())) { (V::Agg(_, f), Some(TyKind::RigidTy(RigidTy::Adt(d, _)))) => { let mut v = vec![]; for (x, n) in f.iter().zip(d.variants()[0].fields()) { let x = it.deref(x)?; v.push(format!("{}={}", n.name, term(&x))) } v.sort(); v.join(",") } (x, _) => term(&x) };
        it.event("format", vec![V::Str(s.clone()), V::top(cfg.clone())]);
        let what = format!("{}; {cfg}", show_str(&s));
        if it.choose_memo(&format!("format {what} fails"), 2)? == 1 { return Err(Exit::Panic("formatting failed".into())) }
        Ok(V::Str(Rc::new(vec![Part::Unk(format!("formatted({what})").as_str().into())])))
    };
    Some(go(it))
}
pub fn explore<'c>(c: &'c Ctx, inst: Instance, args: &dyn Fn(&mut Interp<'c>) -> Vec<V>, hook: bool, max: usize) -> (Vec<Run>, bool) {
    let mut out = vec![]; let mut prefix = vec![]; let mut whole = true;
    loop {
        let mut it = Interp::new(c);
        it.prefix = prefix;
        if hook { it.hooks = Some(Rc::new(|it: &mut Interp, n: &str, i: Instance, a: &[V]| outcome(it, n, i, a))) }
        let a = args(&mut it);
        let mut end = it.enter(inst, a);
        if let Ok(v) = &end { let v = v.clone(); end = deep(&mut it, &v, 0).map_err(|e| e) }
        let next = it.next_prefix();
        if !matches!(end, Err(Exit::Infeasible)) { it.settle_cuts() }
        if !matches!(end, Err(Exit::Infeasible)) { out.push(Run { events: it.events.clone(), memo: it.memo.clone(), end, imprecise: it.imprecise.clone(), trace: it.trace.clone() }) }
        match next { Some(p) => prefix = p, None => break }
        if out.len() > max { whole = false; break }
    }
    (out, whole)
}
/// A value with its references followed.
fn deep(it: &mut Interp, v: &V, d: usize) -> R<V> {
    if d > 8 { return Ok(v.clone()) }
    Ok(match it.deref(v)? { V::Agg(i, f) => { let mut o = vec![]; for x in f.iter() { o.push(deep(it, x, d + 1)?) } V::agg(i, o) } V::Vec(f) => { let mut o = vec![]; for x in f.iter() { o.push(deep(it, x, d + 1)?) } V::vec(o) } x => x })
}
fn text(v: &V) -> String { match v { V::Str(a) => show_str(a), x => term(x) } }
fn show(r: &Run) -> String {
    let ev: Vec<String> = r.events.iter().filter(|e| !matches!(&e.what[..], "cli" | "clock")).map(|e| format!("{}({})", e.what, e.args.iter().map(text).collect::<Vec<_>>().join(", "))).collect();
    let mut m: Vec<String> = r.memo.iter().filter(|(k, _)| !k.contains("variant of")).map(|(k, v)| format!("{k}={v}")).collect(); m.sort();
    format!("when {} : effects {} ; ends {:?}", m.join(", "), ev.join(" -> "), r.end.as_ref().map(text))
}

/// The program as a whole.
pub fn program(c: &Ctx, main: Instance, place: &str, out: &mut Out) {
    const P: [&str; 5] = ["C16", "C17", "C18", "C21", "C26"];
    let (runs, whole) = explore(c, main, &|_| vec![], true, 4000);
    if !whole { out.undecided(&P, "main: too many paths") }
    let mut spec: Option<V> = None;
    for r in &runs { for e in &r.events { if e.what == "cli" { spec = Some(e.args[0].clone()) } } }
    let Some(spec) = spec else { out.undecided(&P, "main: no command-line specification recognised"); for r in runs.iter().take(3) { out.undecided(&P, format!("main: {:?}", r.end.as_ref().err())) } return };
    let args = cli_args(&spec);
    let by_long = |l: &str| args.iter().find(|a| a.get("long") == Some(l));
    // the documented options
    for (l, s, action) in [("write", "w", Some("SetTrue")), ("check", "C", Some("SetTrue")), ("time", "t", Some("SetTrue")), ("config", "c", None)] {
        out.count("C26 obligations", 1);
        match by_long(l) {
            None => out.add("C26", format!("command line: no option --{l}"), place, "the documented option is not declared"),
            Some(a) => {
                let short = a.get("short").map(|x| x.parse::<u32>().ok().and_then(char::from_u32).map(|c| c.to_string()).unwrap_or(x.to_string()));
                if short.as_deref() != Some(s) { out.add("C26", format!("command line: --{l} is not -{s}"), place, format!("short option {short:?}")) }
                if let Some(w) = action { if a.get("action") != Some(w) { out.add("C26", format!("command line: --{l} is not a switch"), place, format!("{:?}", a.calls)) } }
                else if a.get("action").is_some_and(|x| x != "Set") { out.add("C26", format!("command line: --{l} takes no value"), place, format!("{:?}", a.calls)) }
            }
        }
    }
    let file = args.iter().find(|a| a.get("index") == Some("1") || (a.get("long").is_none() && a.get("short").is_none()));
    let Some(file) = file else { out.add("C26", "command line: no positional file", place, "the file to format cannot be given"); return };
    if !file.has("required", "1") { out.add("C26", "command line: the file is optional", place, format!("{:?}", file.calls)) }
    let id = |l: &str| by_long(l).map(|a| a.id.clone()).unwrap_or_default();
    let (w, k, cf) = (id("write"), id("check"), id("config"));
    let conflict = args.iter().any(|a| (a.id == w && a.has("conflicts_with", &k)) || (a.id == k && a.has("conflicts_with", &w)));
    out.count("C17 obligations", 1);
    if !conflict { out.add("C17", "command line: --check and --write are not exclusive", place, "both modes can be requested at once") }
    let path = format!("?arg:{}", file.id);
    let content = format!("?content of {path}");
    let mut seen = [0usize; 8];
    for r in &runs {
        if let Err(Exit::Unsup(e)) = &r.end { out.undecided(&P, format!("main: {e}")); continue }
        if !r.imprecise.is_empty() { out.undecided(&P, format!("main: imprecise {}", r.imprecise[0])); continue }
        out.count("C32 obligations", 1);
        if let Err(Exit::Endless(e)) = &r.end { out.add("C32", format!("main: comes to no end: {e}"), place, show(r)); continue }
        if let Err(Exit::Budget) = &r.end { out.undecided(&P, "main: budget"); continue }
        let (write, check) = (r.is(&format!("flag:{w}")), r.is(&format!("flag:{k}")));
        if conflict && write && check { continue }
        let given = r.is(&format!("given:{cf}"));
        let cpath = format!("?arg:{cf}");
        let cfg = if given { format!("?content of {cpath}") } else { String::new() };
        let want_cfg = if given { format!("indent_size=parsed({cfg}).indent_size,max_width=parsed({cfg}).max_width") } else { "indent_size=2,max_width=80".to_string() };
        let want = format!("?formatted({content}; {want_cfg})");
        let failed: Vec<&String> = r.memo.iter().filter(|(k, v)| **v == 1 && k.ends_with(" fails")).map(|x| x.0).collect();
        let early = failed.iter().any(|k| !k.starts_with("write "));
        let code = match &r.end { Ok(_) => Some(0), Err(Exit::ProcExit(V::Int(i))) => Some(*i), Err(Exit::ProcExit(v)) => { out.undecided(&["C18"], format!("main: exit status {}", term(v))); None } Err(_) => Some(101) };
        let formats: Vec<&Event> = r.events.iter().filter(|e| e.what == "format").collect();
        let ex = show(r);
        for e in &formats {
            seen[0] += 1;
            if text(&e.args[0]) != content { out.add("C21", "main: formats something other than the file's content", place, ex.clone()); }
            if term(&e.args[1]) != want_cfg { out.add("C21", if given { "main: the configuration file's settings are not the ones used" } else { "main: defaults are not width 80 and indent 2" }, place, ex.clone()) }
        }
        if given && !failed.iter().any(|f| f.starts_with("read") && f.contains(&cpath) || f.starts_with("parse")) && !r.events.iter().any(|e| e.what == "parse-config" && text(&e.args[0]) == cfg) && !formats.is_empty() { out.add("C21", "main: the configuration file is ignored", place, ex.clone()) }
        let writes: Vec<&Event> = r.events.iter().filter(|e| e.what == "write").collect();
        for e in r.events.iter().filter(|e| e.what.starts_with("sys ")) { out.add("C16", format!("main: {} outside the documented effects", e.what), place, ex.clone()) }
        for e in r.events.iter().filter(|e| e.what == "read") { let p = text(&e.args[0]); if p != path && p != cpath { out.add("C16", "main: reads another file", place, ex.clone()) } }
        for e in &writes {
            seen[1] += 1;
            if check { out.add("C17", "main: writes in check mode", place, ex.clone()) }
            if !write { out.add("C16", "main: writes without --write", place, ex.clone()) }
            if text(&e.args[0]) != path { out.add("C16", "main: writes another file", place, ex.clone()) }
            if early { out.add("C18", "main: writes although a step failed", place, ex.clone()) }
            else if text(&e.args[1]) != want { out.add("C16", "main: writes something other than the formatted text", place, ex.clone()) }
        }
        if writes.len() > 1 { out.add("C16", "main: writes the file more than once", place, ex.clone()) }
        let mut mismatch = false;
        if check && !early {
            seen[2] += 1;
            let (a, b) = (format!("({content} == {want})"), format!("({want} == {content})"));
            let exact = r.memo.get(&a).or(r.memo.get(&b)).map(|v| *v == 1);
            let other: Vec<(&String, &usize)> = r.memo.iter().filter(|(k, _)| **k != a && **k != b && k.contains(" == ") && k.contains(&content) && k.contains("formatted(")).collect();
            let differ = exact == Some(false) || other.iter().any(|x| *x.1 == 0);
            mismatch = exact != Some(true) && differ;
            if let Some(c) = code {
                if c == 0 && exact != Some(true) { out.add("C17", if differ { "main: check passes a file that is not formatted" } else if other.is_empty() { "main: check does not compare the file with its formatted text" } else { "main: check compares something other than the file and its formatted text" }, place, ex.clone()) }
                if c != 0 && !mismatch { out.add("C17", if exact == Some(true) { "main: check fails a formatted file" } else { "main: check does not compare the file with its formatted text" }, place, ex.clone()) }
            }
        }
        if let Some(c) = code {
            seen[3] += 1;
            if !failed.is_empty() && c == 0 { out.add("C18", "main: exit status 0 after a failure", place, ex.clone()) }
            if !failed.is_empty() && !r.events.iter().any(|e| e.what == "eprint") && !matches!(r.end, Err(Exit::Panic(_))) { out.add("C18", "main: a failure is not reported on standard error", place, ex.clone()) }
            if failed.is_empty() && !mismatch && c != 0 { out.add("C18", "main: non-zero exit status without a failure", place, ex.clone()) }
        }
        if !early && failed.is_empty() && !check {
            let prints: Vec<String> = r.events.iter().filter(|e| e.what == "print").map(|e| text(&e.args[0])).collect();
            if write { seen[4] += 1; if writes.is_empty() { out.add("C16", "main: --write does not write the file", place, ex.clone()) } }
            else { seen[5] += 1; if prints.iter().filter(|p| **p == want || **p == format!("{want}'\n'")).count() != 1 { out.add("C26", "main: the formatted text is not printed as it is", place, ex.clone()) } }
        }
        let t = told(&r.events, r.end.as_ref().err());
        if r.events.iter().any(|e| e.what == "hook") && !failed.is_empty() { out.undecided(&["C34"], "main: panics are told by the program") } else {
            let contents = [format!("?content of {path}"), format!("?content of {cpath}")];
            for f in &failed {
                let p = if f.contains(&cpath) { &cpath } else { &path };
                let what = if *p == cpath { "the configuration file" } else { "the file" };
                let (reason, verb) = match f.split(' ').next() { Some("read") => (format!("?ioerror(read {p})"), "read"), Some("write") => (format!("?ioerror(write {p})"), "written"), Some("parse") => (format!("?parse error of ?content of {p}"), "understood"), _ => continue };
                explained(out, &t, &[p, &reason], &[&reason, &contents[0], &contents[1]], &format!("main: does not tell which {} cannot be {verb}, or why", what.trim_start_matches("the ")), place, &ex);
            }
            if mismatch && failed.is_empty() { explained(out, &t, &[&path], &[&contents[0], &contents[1]], "main: does not tell which file is not formatted", place, &ex) }
        }
        if check && !early && formats.is_empty() { out.add("C17", "main: check does not format the file", place, ex.clone()) }
        if let Err(Exit::Panic(p)) = &r.end { out.add("C18", "main: stops with an internal error", place, format!("{p}; {ex}")) }
    }
    for (p, n) in [("C16", seen[1] + seen[4]), ("C17", seen[2]), ("C18", seen[3]), ("C21", seen[0]), ("C26", seen[5])] { out.count(&format!("{p} obligations"), n); out.count(&format!("{p} cases"), runs.len()) }
    for r in runs.iter().take(3) { for p in P { out.sample(p, show(r)) } }
}

/// What a path shows to whoever runs the program: printed texts and the texts of panics.
pub fn told(events: &[Event], end: Option<&Exit>) -> Vec<String> {
    let mut t: Vec<String> = events.iter().filter(|e| matches!(&e.what[..], "print" | "eprint" | "caught" | "thread died")).map(|e| text(&e.args[0])).collect();
    if let Some(Exit::Panic(p)) = end { t.push(p.clone()) }
    t
}
/// A text holds something the analysis does not see through.
fn veiled(t: &str) -> bool { t.contains("?fmt") || t.split("?display ").skip(1).any(|x| !x.starts_with("byte(")) || t.contains('&') || t.contains("val") && t.contains("#") }
/// A failure is told with everything in `need` in its message.
pub fn explained(out: &mut Out, t: &[String], need: &[&str], strip: &[&str], key: &str, place: &str, ex: &str) {
    out.count("C34 obligations", 1);
    let bare: Vec<String> = t.iter().map(|x| strip.iter().fold(x.clone(), |x, s| x.replace(s, ""))).collect();
    let has = |n: &str| if strip.contains(&n) { t.iter().any(|x| x.contains(n)) } else { bare.iter().any(|x| x.contains(n)) };
    if need.iter().all(|n| has(n)) { return }
    if t.iter().any(|x| veiled(x)) { out.undecided(&["C34"], format!("{key}?")); return }
    out.add("C34", key, place, format!("told: {} ; {ex}", t.join(" | ")))
}

/// Several files handed to one formatter.
pub fn batch(c: &Ctx, format: Instance, place: &str, out: &mut Out) {
    let cfg_ty = c.body(format).map(|b| b.locals()[1].ty);
    let Some(t) = cfg_ty else { out.undecided(&["C20"], "format: no body"); return };
    let files = ["file1", "file2", "file3"];
    for n in 0..=3usize {
        let (runs, whole) = explore(c, format, &|it| {
            let v = it.symbolic(strip_ref(t), "formatter");
            let V::Agg(_, f) = v else { return vec![] };
            let list = V::vec(files[..n].iter().map(|x| V::Str(Rc::new(vec![Part::Unk((*x).into())]))).collect());
            let f: Vec<V> = f.iter().map(|x| match x { V::Top(_) => list.clone(), y => y.clone() }).collect();
            let p = it.ptr_to(V::agg(0, f)); vec![p]
        }, true, 6000);
        if !whole { out.undecided(&["C20"], format!("format: {n} files: too many paths")) }
        for r in &runs {
            out.count("C20 cases", 1);
            let ex = show(r);
            if !r.imprecise.is_empty() { out.undecided(&["C20"], format!("format: imprecise {}", r.imprecise[0])); continue }
            out.count("C32 obligations", 1);
            let v = match &r.end { Err(Exit::Endless(e)) => { out.add("C32", format!("format: comes to no end: {e}"), place, ex); continue } Ok(V::Vec(v)) => v.clone(), Ok(x) => { out.undecided(&["C20"], format!("format returns {}", term(x))); continue } Err(Exit::Panic(p)) => { out.add("C20", "format: a failure of one file stops the others", place, format!("{p}; {ex}")); continue } Err(e) => { out.undecided(&["C20"], format!("format: {e:?}")); continue } };
            out.count("C20 obligations", n);
            if v.len() != n { out.add("C20", "format: not one result per file", place, ex.clone()); continue }
            for (k, x) in v.iter().enumerate() {
                let content = format!("?content of ?{}", files[k]);
                let bad = r.memo.iter().any(|(m, v)| *v == 1 && m.ends_with(" fails") && (m.contains(&content) || *m == format!("read ?{} fails", files[k])));
                match x {
                    V::Agg(0, f) if !bad => { let t = text(&f[0]); if !t.starts_with(&format!("?formatted({content};")) { out.add("C20", if t.starts_with("?formatted(") { "format: results are not in the order of the files" } else { "format: a result is not the formatted file" }, place, ex.clone()) } }
                    V::Agg(1, _) if bad => {}
                    V::Agg(0, _) => out.add("C20", if v.iter().any(|y| matches!(y, V::Agg(1, _))) { "format: results are not in the order of the files" } else { "format: a failure is reported as success" }, place, ex.clone()),
                    V::Agg(1, _) => out.add("C20", if v.iter().any(|y| matches!(y, V::Agg(0, _))) { "format: results are not in the order of the files" } else { "format: a file is reported as failed because of another" }, place, ex.clone()),
                    x => out.undecided(&["C20"], format!("format: result {}", term(x))),
                }
            }
            for e in r.events.iter().filter(|e| e.what == "format") { out.count("C21 obligations", 1); if term(&e.args[1]) != "indent_size=formatter.config.indent_size,max_width=formatter.config.max_width" { out.add("C21", "format: not the formatter's settings", place, ex.clone()) } }
            // state of one file must not be visible to another: a thread formats one file
            let mut in_thread = vec![0];
            for e in &r.events { match &e.what[..] { "spawn" => in_thread.push(0), "joined" => { in_thread.pop(); } "format" => { let l = in_thread.len() - 1; in_thread[l] += 1; if in_thread[l] > 1 || l == 0 { out.add("C20", "format: two files share a thread's state", place, ex.clone()) } } _ => {} } }
        }
    }
}

/// Sources with syntax errors.
pub struct Parsed { pub trace: Vec<String>, pub exit: Option<Exit>, pub errs: HashMap<usize, u8>, pub built: bool, pub told: Vec<String>, pub imprecise: bool }
pub fn syntax(runs: &[Parsed], place: &str, out: &mut Out) {
    for Parsed { trace, exit, errs, built, told, imprecise } in runs {
        let error = &errs.values().any(|e| *e != 0);
        if let (Some(Exit::Panic(_)), false) = (exit, imprecise) {
            out.count("C34 obligations", 1);
            let ex = format!("told: {} ; {}", told.join(" | "), trace.join(", "));
            let at = |n: usize| told.iter().any(|t| t.contains("?sexp") || [format!("node{n}"), format!("#srow{n}"), format!("#erow{n}"), format!("scol{n}"), format!("ecol{n}")].iter().any(|p| t.match_indices(&p[..]).any(|(i, _)| !t[i + p.len()..].starts_with(|c: char| c.is_ascii_digit()))));
            if *error { if !errs.iter().any(|(n, e)| *e >= 2 && at(*n)) { if told.iter().any(|t| veiled(t)) { out.undecided(&["C34"], "format_one: place of a syntax error?") } else { out.add("C34", "format_one: does not tell the place of a syntax error", place, ex) } } }
            else if !told.iter().any(|t| { let t = t.to_lowercase(); t.contains("indent") || t.contains("width") || veiled(&t) }) { out.add("C34", "format_one: fails without naming the setting that is the cause", place, ex) }
        }
        out.count("C19 cases", 1); out.count("C19 obligations", 1);
        let ex = trace.join(", ");
        out.count("C32 obligations", 1);
        if let Some(Exit::Endless(e)) = exit { out.add("C32", format!("format_one: comes to no end: {e}"), place, ex); continue }
        if *error && (exit.is_none() || *built) { out.add("C19", "format_one: formats a source with a syntax error", place, ex) }
        else if !*error && !*built { match exit { Some(Exit::Unsup(e)) => out.undecided(&["C19"], format!("format_one: {e}")), _ => out.add("C19", "format_one: rejects a source without syntax errors", place, ex) } }
    }
}

/// Formatting one source: the layout and the printer get the given settings.
pub fn settings(it: &Interp, root: Option<usize>, r: R<V>, place: &str, out: &mut Out) {
    let show = |e: &Event| format!("{}({})", e.what, e.args.iter().map(text).collect::<Vec<_>>().join(", "));
    let ex = || format!("when {} : {}", it.trace.join(", "), it.events.iter().filter(|e| matches!(&e.what[..], "layout" | "printed")).map(show).collect::<Vec<_>>().join(" -> "));
    let v = match r { Ok(v) => v, Err(Exit::Panic(_) | Exit::Endless(_)) => return, Err(e) => { out.undecided(&["C21"], format!("format_one: {e:?}")); return } };
    let printed: Vec<&Event> = it.events.iter().filter(|e| e.what == "printed").collect();
    let layout: Vec<&Event> = it.events.iter().filter(|e| e.what == "layout").collect();
    out.count("C21 obligations", 1 + printed.len() + layout.len());
    let want = |v: &V, n: &str| term(v) == format!("config.{n}");
    for e in &layout { if !e.args.iter().any(|x| want(x, "indent_size")) || !e.args.iter().all(|x| want(x, "indent_size") || want(x, "max_width")) { out.add("C21", "format_one: the layout is not built with the configured indent size", place, ex()) } }
    for e in &printed {
        if !want(&e.args[1], "max_width") { out.add("C21", "format_one: the printer is not given the configured width", place, ex()) }
        match &e.args[0] { V::Built(l) if Some(l.node) == root => {} x => out.undecided(&["C21"], format!("format_one: prints {}", term(x))) }
    }
    if printed.is_empty() || layout.is_empty() { out.undecided(&["C21"], "format_one: no printer or layout recognised"); return }
    if text(&v) != "?printed" { for p in ["C16", "C23", "C26"] { out.add(p, "format_one: returns something other than the printed text", place, format!("{} ; {}", text(&v), ex())) } }
}
