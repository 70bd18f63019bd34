//! `vertigo watch`: edits, builds, the server and the browsers that listen.
use crate::base::*;
use crate::build::BuildOptsInner;
use crate::cargo::*;
use crate::commons::models::CommonOpts;
use crate::serve::ServeOptsInner;
use crate::watch::{run, WatchOpts};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use symrt::*;
use world::{world, Guest};

struct Tab { c: poem::Client, seen: usize }
#[derive(Default)]
struct State { edits: usize, pending: bool, left: usize, settle: usize, noise: usize, tabs: Vec<Tab>, dest: Vec<(String, Vec<u8>)> }
fn options(dest: &str, package: Option<&str>, port: u16, add: Vec<String>) -> WatchOpts {
    WatchOpts { common: CommonOpts { dest_dir: dest.into() }, build: BuildOptsInner { package_name: package.map(|p| p.into()), public_path: "/build".into(), disable_wasm_opt: true, wasm_run_source_map: false }, serve: ServeOptsInner { host: "127.0.0.1".into(), port: 4444, proxy: vec![], env: vec![] }, port_watch: port, add_watch_path: add }
}
fn program(n: usize) -> Vec<u8> { format!("\0asm{n}").into_bytes() }
fn edit(ws: &Shared, st: &Rc<RefCell<State>>, broken: bool, file: &str) { { let mut s = st.borrow_mut(); s.edits += 1; let mut w = ws.borrow_mut(); w.wasm = program(s.edits); w.broken = broken; s.pending = true; } notify::change(&[file]); }
fn version(m: &str) -> Option<u32> { m.strip_prefix("Version = ").and_then(|n| n.parse().ok()) }
/// layout: as in project(); n: edits and other events; wild: where else things are.
#[no_mangle]
pub extern "C" fn h_watch_loop(layout: usize, n: usize, wild: usize) {
    let ws = project(layout, vec!["cdylib", "rlib"]); let app_dir = if layout == 0 { "/w" } else { "/w/my-app" };
    let dest = if wild == 1 { ["./build", "my-app/build", "out"][choice("dest", if layout == 1 { 2 } else { 1 })] } else { "./build" };
    let port = if wild == 1 { [5555, 6000][choice("port", 2)] } else { 5555 }; let more = wild == 1 && flag("more");
    let during = Rc::new(Cell::new(n > 0)); let st: Rc<RefCell<State>> = Rc::default(); st.borrow_mut().left = n;
    for i in 0..=n { let t = format!("v{i}"); let s: Rc<dyn Guest> = Rc::new(Script { entry: Box::new(move |a| { let mut l = skeleton(); l.push(text(9, t.as_bytes())); l.push(insert(3, 9, None)); a.dom(l); Ok(()) }), callback: Box::new(|_, _, _| Ok(0)) }); world(|w| w.guests.push((program(i), s))); }
    ws.borrow_mut().wasm = program(0);
    let file = format!("{app_dir}/src/lib.rs"); let ours = format!("{app_dir}/other.txt");
    // a build writes below target; the program may be edited while it is built
    { let (w2, s2, d2, f2) = (ws.clone(), st.clone(), during.clone(), file.clone()); let p = world(|w| w.proc.clone()).unwrap();
      world(|w| w.proc = Some(Rc::new(move |c| { let r = p(c); if c.bin == "cargo" && c.args.first().map(|s| &s[..]) == Some("build") {
          s2.borrow_mut().pending = false; notify::change(&["/w/target/wasm32-unknown-unknown/release/my_app.wasm"]);
          if d2.get() && s2.borrow().left > 0 && flag("during") { s2.borrow_mut().left -= 1; edit(&w2, &s2, flag("broken"), &f2); reach("edit during a build"); } }
          r }))); }
    let (w2, s2) = (ws.clone(), st.clone()); let busy = Cell::new(false);
    let dest2 = dest.to_string();
    world(|w| { w.hold = true; w.idle = Some(Rc::new(move || {
        if busy.replace(true) { return false; }
        let r = step(&w2, &s2, port, &file, &ours, more, &dest2); busy.set(false); r
    })) });
    let r = world::block_on(run(options(dest, if wild == 1 && flag("named") { Some("my-app") } else { None }, port, if more { vec!["/shared".into()] } else { vec![] })));
    check(r.is_none(), "watching stops by itself");
    // everything is quiet
    let mut s = st.borrow_mut(); for t in s.tabs.iter_mut() { t.c.run(); }
    let (builds, broken, edits) = { let w = ws.borrow(); (w.built.len(), w.broken, s.edits) };
    check(!s.pending, "a change is not built"); check(builds >= 1 && builds <= 1 + edits, "a build starts although nothing changed");
    if builds > 1 { reach("rebuilt"); }
    for t in &s.tabs {
        let Some(last) = t.c.got.last() else { check(false, "a browser that connects hears nothing"); continue };
        if broken { check(last == "Errors", "a browser is not told that the build failed"); reach("errors"); } else { check(version(last).is_some(), "a browser is not told of the last version"); reach("version"); }
    }
    let l: Vec<&String> = s.tabs.iter().filter_map(|t| t.c.got.last()).collect(); check(l.windows(2).all(|w| w[0] == w[1]), "browsers are told of different versions");
    if !broken { check(shown() == Some(format!("v{edits}")), "the last build is not served"); }
    reach("end"); trace(builds as u64);
}
/// The text of the page, if it is served; the page must connect to the right place.
fn shown() -> Option<String> {
    let app = world(|w| w.app.clone())?; let r = page(&*app, "/"); if r.status != 200 { return None; }
    let s = String::from_utf8_lossy(&r.body).into_owned(); let i = s.find("<body>")? + 6; Some(s[i..].trim_start().chars().take_while(|c| c.is_ascii_alphanumeric()).collect())
}
fn endpoint() -> Option<(String, String)> {
    let app = world(|w| w.app.clone())?; let r = page(&*app, "/"); let s = String::from_utf8_lossy(&r.body).into_owned();
    let i = s.find("'http://")? + 8; let e = s[i..].find('\'')? + i; let u = &s[i..e]; let p = u.find('/')?; Some((u[..p].to_string(), u[p..].to_string()))
}
fn step(ws: &Shared, st: &Rc<RefCell<State>>, port: u16, file: &str, other: &str, more: bool, dest: &str) -> bool {
    // files written to the destination are noticed
    let now = below(dest); if now != st.borrow().dest { let l: Vec<String> = now.iter().map(|f| world::absolute(&format!("{dest}/{}", f.0))).collect(); st.borrow_mut().dest = now; let mut s = st.borrow_mut(); s.noise += 1; check(s.noise < 20, "builds follow from what a build writes"); drop(s); notify::change(&l.iter().map(|s| &s[..]).collect::<Vec<_>>()); }
    { let mut s = st.borrow_mut(); if s.settle < 4 { s.settle += 1; for t in s.tabs.iter_mut() { t.c.run(); } return true; } s.settle = 0; }
    // a browser that hears of a version gets it
    let mut s = st.borrow_mut(); let mut news = false;
    for t in s.tabs.iter_mut() { t.c.run(); if t.c.got.len() > t.seen { let g = &t.c.got; check(g.windows(2).all(|w| w[0] != w[1]), "a browser is told the same twice"); let v: Vec<u32> = g.iter().filter_map(|m| version(m)).collect(); check(v.windows(2).all(|w| w[0] < w[1]), "versions do not grow"); t.seen = g.len(); news |= version(&g[g.len() - 1]).is_some(); } }
    let (edits, pending) = (s.edits, s.pending); drop(s);
    if news && !pending { check(shown() == Some(format!("v{edits}")), "a version is announced that is not served"); }
    let left = st.borrow().left;
    if left > 0 {
        let e = choice("event", if more { 6 } else { 5 });
        if e > 0 { st.borrow_mut().left -= 1; }
        match e {
            0 => {}
            1 => edit(ws, st, false, file),
            2 => edit(ws, st, true, file),
            3 => { notify::change(&["/w/target/x", &world::absolute(&format!("{dest}/y"))]); reach("noise"); }
            4 => { // the page that is open, or one that was
                let a = endpoint(); if let Some((h, p)) = &a { check(*h == format!("127.0.0.1:{port}"), "the page listens at another port"); let _ = p; }
                let (h, p) = a.unwrap_or((format!("127.0.0.1:{port}"), "/events".into()));
                match poem::connect(&h, &p) { Some(c) => { let mut t = Tab { c, seen: 0 }; t.c.run(); st.borrow_mut().tabs.push(t); reach("browser"); } None => check(false, "nothing listens where the page connects") }
            }
            _ => { edit(ws, st, false, "/shared/a.rs"); reach("more"); }
        }
        if e > 0 { return true; }
    }
    let _ = other;
    if let Some(i) = world::pending_sleep() { world::fire_sleep(i); return true; }
    false
}
/// Projects that cannot be watched.
#[no_mangle]
pub extern "C" fn h_watch_refused() {
    let layout = choice("layout", 2); let named = flag("named"); let ws = project(layout, vec!["lib"]); if layout > 0 { ws.borrow_mut().members[2].kind = vec!["bin"]; }
    let r = world::block_on(run(options("./build", if named { Some("no-such") } else { None }, 5555, vec![])));
    check(matches!(r, Some(Err(_))), "a package that does not exist is watched"); check(ws.borrow().built.is_empty(), "a package that does not exist is built"); reach("end");
}
