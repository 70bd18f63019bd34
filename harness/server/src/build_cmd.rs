//! `vertigo build`: what ends up in the destination.
use crate::base::*;
use crate::build::{run, BuildOpts, BuildOptsInner};
use crate::cargo::*;
use crate::codec::*;
use crate::commons::models::CommonOpts;
use crate::serve::{ServeOpts, ServeOptsInner};
use std::rc::Rc;
use symrt::*;
use world::world;

/// `name.<hash>.ext`
fn hashed(f: &str, name: &str, ext: &str) -> bool { f.len() > name.len() + ext.len() + 2 && f.starts_with(name) && f.as_bytes()[name.len()] == b'.' && f.ends_with(ext) && f.as_bytes()[f.len() - ext.len() - 1] == b'.' && f.as_bytes()[name.len() + 1..f.len() - ext.len() - 1].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-' || *c == b'_') }
fn json(b: &[u8], k: &str) -> String { serde_json::from_slice::<serde_json::Value>(b).ok().and_then(|v| v.get(k).and_then(|v| v.as_str()).map(|s| s.to_string())).unwrap_or_default() }
struct Out { run: String, wasm: String }
/// Checks a finished build; the names of the run script and the program.
fn built(ws: &Shared, dest: &str, public: &str, map: bool, program: &[u8]) -> Option<Out> {
    let l = below(dest); let w = ws.borrow();
    let find = |name: &str, ext: &str| { let m: Vec<&(String, Vec<u8>)> = l.iter().filter(|f| hashed(&f.0, name, ext)).collect(); check(m.len() == 1, "the destination does not hold one run script and one program named after their content"); m.first().map(|f| (*f).clone()) };
    let (run, wasm) = (find("wasm_run", "js")?, find("my_app", "wasm")?);
    check(run.1 == RUN, "the run script differs from vertigo's"); check(wasm.1 == program, "the program in the destination is another one");
    let Some(index) = l.iter().find(|f| f.0 == "index.json") else { check(false, "there is no index.json"); return None };
    check(json(&index.1, "run_js") == format!("{public}/{}", run.0) && json(&index.1, "wasm") == format!("{public}/{}", wasm.0), "index.json does not name the files under the public path");
    let mut want = 3;
    if map { want += 1; let m = l.iter().find(|f| f.0 == "wasm_run.js.map"); check(m.map(|m| m.1.clone()) == Some(String::from_utf8_lossy(MAP).replace("wasm_run.js", &run.0).into_bytes()), "the source map does not belong to the run script"); }
    for (n, b) in &w.include { want += 1; check(l.iter().any(|f| f.0 == *n && f.1 == *b), "a file the program includes is missing"); }
    check(l.len() == want, "the destination holds files that are not part of the build");
    Some(Out { run: run.0, wasm: wasm.0 })
}
pub fn options(dest: &str, package: Option<&str>, public: &str, no_opt: bool, map: bool) -> BuildOpts { BuildOpts { common: CommonOpts { dest_dir: dest.into() }, inner: BuildOptsInner { package_name: package.map(|p| p.into()), public_path: public.into(), disable_wasm_opt: no_opt, wasm_run_source_map: map } } }
#[no_mangle]
pub extern "C" fn h_build() {
    let layout = choice("layout", 3); let cdylib = flag("cdylib");
    let ws = project(layout, if cdylib { vec!["cdylib", "rlib"] } else { vec!["lib"] });
    let named = choice("package", 3); let package = match named { 0 => None, 1 => Some("my-app"), _ => Some("no-such") };
    let (public, dest) = [("/build", "./build"), ("/a/b", "out/x")][choice("place", 2)];
    let (no_opt, map) = [(false, false), (true, false), (false, true)][choice("options", 3)];
    { let mut w = ws.borrow_mut(); w.reversed = layout > 0 && flag("reversed"); w.installed = flag("installed"); w.broken = flag("broken"); w.opt = [None, Some(1), Some(0), Some(2)][choice("optimiser", 4)]; w.opt_out = b"\0asmO".to_vec();
      for i in 0..2 * choice("includes", 2) { w.include.push((["logo.aa-_.png", "x.bb.css"][i].to_string(), vec![i as u8, 0])); } }
    // something is there already
    for (n, b) in [("old.js", &b"x"[..]), ("index.json", b"{}"), ("wasm_run.js.map", b"y"), ("my_app.wasm", b"z")] { let k = world_key(dest, n); world(|w| w.files.push((k, b.to_vec()))) }
    let (installed, broken, opt) = { let w = ws.borrow(); (w.installed, w.broken, w.opt) };
    let before = below(dest);
    let r = run(options(dest, package, public, no_opt, map));
    // without a name: the first member that is a cdylib
    let which = match named { 0 => if cdylib { Some("my-app") } else if layout > 0 { Some("tool") } else { None }, 1 => Some("my-app"), _ => Some("no-such") };
    let Some(which) = which else { check(r.is_err(), "a build without a package succeeds"); check(below(dest) == before, "a build without a package changes the destination"); reach("nothing to build"); return };
    { let w = ws.borrow(); check(w.built == [(which.to_string(), Some(public.to_string()))], "another package or public path is built"); check(w.added != installed, "the target is not installed, or installed again"); }
    if broken || which == "no-such" { check(r.is_err(), "a failed build is reported as a success"); check(!below(dest).iter().any(|f| f.0 == "index.json"), "a failed build can be served"); reach("failed"); return; }
    check(r.is_ok(), "the build fails");
    if which == "tool" { check(below(dest).iter().any(|f| hashed(&f.0, "tool", "wasm")), "another package than the first cdylib is built"); reach("first cdylib"); return; }
    check(ws.borrow().opts == if no_opt { 0 } else { 1 }, "the optimiser runs although it is turned off, or not once");
    let program: &[u8] = if !no_opt && opt == Some(0) { reach("optimised"); b"\0asmO" } else { b"\0asm1" };
    let Some(o) = built(&ws, dest, public, map, program) else { return };
    // the program changes, or not, and is built again
    let changed = flag("changed"); { let mut w = ws.borrow_mut(); if changed { w.wasm = b"\0asm2".to_vec(); w.opt_out = b"\0asmP".to_vec(); } w.emptied = w.include.is_empty() || flag("emptied"); w.installed = true; w.built.clear(); w.opts = 0; }
    check(run(options(dest, package, public, no_opt, map)).is_ok(), "the second build fails");
    let program: &[u8] = match (!no_opt && opt == Some(0), changed) { (true, false) => b"\0asmO", (true, true) => b"\0asmP", (false, false) => b"\0asm1", _ => b"\0asm2" };
    let Some(p) = built(&ws, dest, public, map, program) else { return };
    check(o.run == p.run && (o.wasm == p.wasm) != changed, "the name of a file does not follow its content"); if changed { reach("changed"); }
    // the result can be served
    script(|a| a.dom(skeleton()));
    let (run2, wasm2, program, public2) = (p.run.clone(), p.wasm.clone(), program.to_vec(), public.to_string()); let inc = ws.borrow().include.clone();
    world(|w| w.serve = Some(Rc::new(move |app| {
        let get = |n: &str| page(app, &format!("{public2}/{n}"));
        let (r, m, h) = (get(&run2), get(&wasm2), page(app, "/"));
        check(r.status == 200 && r.body == RUN && m.status == 200 && m.body == program, "a file of the build is not served");
        check(inc.iter().all(|(n, b)| { let r = get(n); r.status == 200 && r.body == *b }), "an included file is not served");
        let has = |s: &str| h.body.windows(s.len()).any(|w| w == s.as_bytes());
        check(h.status == 200 && has(&format!("\"{public2}/{run2}\"")) && has(&format!("\"{public2}/{wasm2}\"")), "the page does not name the files of the build");
        reach("served");
    })));
    let r = world::block_on(crate::serve::run(ServeOpts { common: CommonOpts { dest_dir: dest.into() }, inner: ServeOptsInner { host: "127.0.0.1".into(), port: 4444, proxy: vec![], env: vec![] } }, None));
    check(matches!(r, Some(Ok(()))), "the build cannot be served"); trace(p.wasm.len() as u64);
    let _ = V::Undef;
}
fn world_key(dest: &str, n: &str) -> String { world::place(&format!("{dest}/{n}")) }
/// Two programs that differ in their last n and m bytes: their names are equal exactly if they are.
#[no_mangle]
pub extern "C" fn h_names(n: usize, m: usize) {
    let ws = project(0, vec!["cdylib"]); let (a, b) = (bytes("a", n), bytes("b", m));
    ws.borrow_mut().wasm = a.clone(); check(run(options("build", None, "/build", true, false)).is_ok(), "the build fails"); let Some(p) = built(&ws, "build", "/build", false, &a) else { return };
    ws.borrow_mut().wasm = b.clone(); check(run(options("build", None, "/build", true, false)).is_ok(), "the second build fails"); let Some(q) = built(&ws, "build", "/build", false, &b) else { return };
    check((p.wasm == q.wasm) == (a == b), "two programs share a name, or one program has two"); reach("end");
}
fn bytes(n: &str, k: usize) -> Vec<u8> { b"\0asm".iter().copied().chain((0..k).map(|i| int(&format!("{n}{i}"), 8, 0, 3) as u8)).collect() }
