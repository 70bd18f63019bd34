//! Files a program includes: the address the macro puts into the program is the one they are served at.
use crate::base::*;
use crate::build_cmd::options;
use crate::cargo::*;
use crate::commons::models::CommonOpts;
use crate::serve::{ServeOpts, ServeOptsInner};
use std::cell::RefCell;
use std::rc::Rc;
use symrt::*;
use world::world;

thread_local! { static ERRORS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }
pub fn error(s: String) { ERRORS.with(|e| e.borrow_mut().push(s)) }
pub fn errors() -> usize { ERRORS.with(|e| e.borrow().len()) }
/// What the macro, used in `file` with the literal, puts into the program.
pub fn expand(file: &str, literal: &str) -> String {
    proc_macro::set_source(file); let t = crate::macros::include_static::include_static_inner(proc_macro::TokenStream(format!("\"{literal}\""))).0;
    check(t.len() >= 2 && t.starts_with('"') && t.ends_with('"'), "the macro does not become a text"); t[1..t.len() - 1].to_string()
}
fn put(k: &str, b: &[u8]) { let k = world::place(k); world(|w| { w.files.retain(|f| f.0 != k); w.files.push((k, b.to_vec())) }) }
fn content(n: &str, k: usize) -> Vec<u8> { b"c".iter().copied().chain((0..k).map(|i| int(&format!("{n}{i}"), 8, 0, 3) as u8)).collect() }
#[no_mangle]
pub extern "C" fn h_include(n: usize) {
    let layout = choice("layout", 3); let ws = project(layout, vec!["cdylib", "rlib"]); let dir = if layout == 0 { "" } else { "my-app/" };
    let (public, dest) = [("/build", "./build"), ("/a/b", "out/x")][choice("place", 2)];
    // a file beside the source, one elsewhere (of the same name, or not)
    let second = [("../img/a.txt", "img/a.txt"), ("sub/b.tar.gz", "src/sub/b.tar.gz"), ("a.txt", "src/a.txt")][choice("second", 3)];
    let files = [(format!("{dir}src/main.rs"), "a.txt", format!("/w/{dir}src/a.txt")), (format!("{dir}src/lib.rs"), second.0, format!("/w/{dir}{}", second.1))];
    let same_file = second.0 == "a.txt";
    { let mut w = ws.borrow_mut(); w.sites = files.iter().map(|f| (f.0.clone(), f.1.to_string())).collect(); match choice("target", 3) { 0 => {} 1 => w.target_var = Some("/t".into()), _ => w.target_conf = Some("/w/out-of-the-way".into()) } }
    let mut data = vec![content("a", n), content("b", 1)]; if same_file { data[1] = data[0].clone(); }
    let missing = flag("missing"); for i in 0..2 { if !(missing && i == 1) { put(&files[i].2, &data[i]); } }
    if missing && same_file { assume(false); }
    let before = below(dest).len();
    let run = || crate::build::run(options(dest, None, public, true, false));
    if missing { check(run().is_err(), "a program that includes a file that is not there is built"); check(errors() == 1 && ERRORS.with(|e| e.borrow()[0].contains(&second.0[..second.0.len() - 1])), "a missing file is not named"); reach("missing"); return; }
    let round = |data: &[Vec<u8>]| -> Vec<String> {
        check(run().is_ok() && errors() == 0, "a program that includes files is not built"); let l = below(dest); let a = ws.borrow().addresses.clone(); check(a.len() == 2, "a file is not included");
        let mut want = 3;
        for i in 0..2 {
            let Some(name) = a[i].strip_prefix(public).and_then(|r| r.strip_prefix('/')) else { check(false, "an included file is not below the public path"); return a };
            check(l.iter().any(|f| f.0 == name && f.1 == data[i]), "the build does not hold an included file under its address"); if i == 0 || a[1] != a[0] { want += 1; }
            let (stem, ext) = if i == 1 && second.0.ends_with("gz") { ("b.tar", "gz") } else { ("a", "txt") };
            check(name.starts_with(stem) && name.as_bytes()[stem.len()] == b'.' && name.ends_with(ext) && name.as_bytes()[name.len() - ext.len() - 1] == b'.' && !name.contains('/'), "an included file has another kind of name");
        }
        check(l.len() == want, "the destination holds files that are not part of the build");
        if !second.0.ends_with("gz") { check((a[0] == a[1]) == (data[0] == data[1]), "different files share an address, or equal ones do not"); if a[0] == a[1] { reach("equal"); } }
        a
    };
    check(before == 0, "unused"); let first = round(&data);
    // one of them changes, or none, or the program
    let old = data.clone();
    match choice("change", 3) { 0 => {} 1 => { data[0] = content("c", n); if same_file { data[1] = data[0].clone(); } put(&files[0].2, &data[0]); } _ => ws.borrow_mut().wasm = b"\0asm2".to_vec() }
    ws.borrow_mut().emptied = true; let again = round(&data);
    check((first[0] == again[0]) == (old[0] == data[0]), "the address of a file does not follow its content"); check(same_file || first[1] == again[1], "the address of a file changes although it did not");
    if old[0] != data[0] { reach("changed"); }
    script(|a| a.dom(skeleton()));
    world(|w| w.serve = Some(Rc::new(move |app| { for i in 0..2 { let r = page(app, &again[i]); check(r.status == 200 && r.body == data[i], "an included file is not served at its address"); } reach("served"); })));
    let r = world::block_on(crate::serve::run(ServeOpts { common: CommonOpts { dest_dir: dest.into() }, inner: ServeOptsInner { host: "127.0.0.1".into(), port: 4444, proxy: vec![], env: vec![] } }, None));
    check(matches!(r, Some(Ok(()))), "the build cannot be served");
}
