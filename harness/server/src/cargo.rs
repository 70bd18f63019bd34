//! The workspace of the application and the commands `vertigo build` starts in it.
use std::cell::RefCell;
use std::rc::Rc;
use symrt::check;
use world::{world, Cmd};

pub const RUN: &[u8] = b"run wasm_run.js"; pub const MAP: &[u8] = b"{\"file\":\"wasm_run.js\",\"sources\":[\"wasm_run.ts\"]}";
#[derive(Clone, Default)]
pub struct Member { pub name: String, pub dir: String, pub kind: Vec<&'static str> }
/// What cargo and wasm-opt see and do.
#[derive(Clone, Default)]
pub struct Ws {
    pub root: String, pub members: Vec<Member>, pub reversed: bool, pub installed: bool, pub broken: bool,
    /// Content of the program, and what it includes as static files.
    pub wasm: Vec<u8>, pub include: Vec<(String, Vec<u8>)>,
    /// The directory of included files was emptied by vertigo's build script.
    pub emptied: bool,
    /// None = no such command.
    pub opt: Option<i32>, pub opt_out: Vec<u8>,
    /// Uses of include_static!: the file it is used in (seen from the workspace), the literal; what they became.
    pub sites: Vec<(String, String)>, pub addresses: Vec<String>,
    /// Target directory: of the environment, of cargo's configuration.
    pub target_var: Option<String>, pub target_conf: Option<String>,
    pub built: Vec<(String, Option<String>)>, pub added: bool, pub opts: u32,
}
pub type Shared = Rc<RefCell<Ws>>;
impl Ws {
    pub fn target_dir(&self) -> String { self.target_var.clone().or(self.target_conf.clone()).unwrap_or(format!("{}/target", self.root)) }
    pub fn target(&self) -> String { format!("{}/wasm32-unknown-unknown/release", self.target_dir()) }
    fn metadata(&self) -> Vec<u8> {
        let id = |m: &Member| format!("path+file://{}#{}@0.1.0", m.dir, m.name);
        let mut p: Vec<String> = self.members.iter().map(|m| format!("{{\"id\":\"{}\",\"name\":\"{}\",\"manifest_path\":\"{}/Cargo.toml\",\"targets\":[{}],\"license\":null}}", id(m), m.name, m.dir, m.kind.iter().map(|k| format!("{{\"kind\":[\"{k}\"],\"name\":\"x\"}}")).collect::<Vec<_>>().join(","))).collect();
        if self.reversed { p.reverse(); }
        // a dependency that is not a member
        p.insert(0, "{\"id\":\"registry+x#dep@1.0.0\",\"name\":\"dep\",\"manifest_path\":\"/reg/dep/Cargo.toml\",\"targets\":[{\"kind\":[\"cdylib\"]}]}".into());
        format!("{{\"packages\":[{}],\"target_directory\":\"{}\",\"version\":1,\"workspace_members\":[{}],\"workspace_root\":\"{}\",\"resolve\":null}}", p.join(","), self.target_dir(), self.members.iter().map(|m| format!("\"{}\"", id(m))).collect::<Vec<_>>().join(","), self.root).into_bytes()
    }
}
fn put(p: &str, c: &[u8]) { if let Some(i) = p.rfind('/') { let _ = std::fs::create_dir_all(&p[..i]); } let _ = std::fs::write(p, c); }
fn have(p: &str) -> bool { std::path::Path::new(p).exists() }
pub fn commands(ws: &Shared) {
    let ws = ws.clone();
    world(|w| w.proc = Some(Rc::new(move |c: &Cmd| {
        let a: Vec<&str> = c.args.iter().map(|s| &s[..]).collect();
        match (&c.bin[..], a.first().copied().unwrap_or("")) {
            ("cargo", "metadata") => Some((0, ws.borrow().metadata())),
            ("rustup", "target") => if a.get(1) == Some(&"add") { check(a[2..] == ["wasm32-unknown-unknown"], "another target is installed"); let mut w = ws.borrow_mut(); w.added = true; w.installed = true; Some((0, vec![])) } else { Some((0, if ws.borrow().installed { b"x86_64-unknown-linux-gnu (installed)\nwasm32-unknown-unknown (installed)\nwasm32-wasi\n".to_vec() } else { b"x86_64-unknown-linux-gnu (installed)\nwasm32-unknown-unknown\nwasm32-wasi (installed)\n".to_vec() })) },
            ("cargo", "build") => { let r = build(&mut ws.borrow_mut(), c, &a); Some((r, if r == 0 { vec![] } else { b"error".to_vec() })) }
            ("wasm-opt", _) => {
                let mut w = ws.borrow_mut(); w.opts += 1; let code = w.opt?;
                // it may fail before or after it wrote a part of its output
                if code != 0 { if code == 2 { if let Some(o) = a.iter().position(|x| *x == "-o") { put(a[o + 1], b"part"); } } return Some((code, vec![])); }
                let Some(o) = a.iter().position(|x| *x == "-o") else { check(false, "the optimiser has no output"); return None };
                let from: Vec<&&str> = a.iter().enumerate().filter(|(i, x)| !x.starts_with('-') && *i != o + 1).map(|x| x.1).collect();
                check(from.len() == 1, "the optimiser gets one program"); let src = std::fs::read(from[0]).unwrap_or_default();
                check(src == w.wasm, "the optimiser gets another program than the one that was built");
                put(a[o + 1], &w.opt_out); Some((0, vec![]))
            }
            _ => { check(false, "an unknown command is started"); None }
        }
    })));
}
fn build(w: &mut Ws, c: &Cmd, a: &[&str]) -> i32 {
    let after = |k: &str| a.iter().position(|x| *x == k).and_then(|i| a.get(i + 1)).map(|s| s.to_string()).or_else(|| a.iter().find_map(|x| x.strip_prefix(k).and_then(|r| r.strip_prefix('=')).map(|s| s.to_string())));
    let p = after("--package").or_else(|| after("-p")); let public = c.env.iter().find(|e| e.0 == "VERTIGO_PUBLIC_PATH").map(|e| e.1.clone());
    check(a.contains(&"--release"), "the program is not built for release"); check(after("--target").as_deref() == Some("wasm32-unknown-unknown"), "the program is built for another target");
    let Some(p) = p else { check(false, "cargo builds every package"); return 101 };
    w.built.push((p.clone(), public.clone()));
    let Some(m) = w.members.iter().find(|m| m.name == p) else { return 101 };
    check(w.installed, "the program is built before its target is installed");
    if w.broken { return 101; }
    let (t, lib) = (w.target(), m.name.replace('-', "_")); let rlib = format!("{t}/deps/lib{lib}.rlib");
    // a target directory given to cargo by vertigo itself
    if let Some(e) = c.env.iter().find(|e| e.0 == "CARGO_TARGET_DIR") { check(e.1 == w.target_dir(), "the program is built into another directory than cargo says"); }
    put(&format!("{t}/static/wasm_run.js"), RUN); put(&format!("{t}/static/wasm_run.js.map"), MAP);
    if w.emptied { let _ = std::fs::remove_dir_all(format!("{t}/static/included")); }
    let _ = std::fs::create_dir_all(format!("{t}/static/included"));
    if !have(&rlib) || std::fs::read(&rlib).map_or(true, |b| b != w.wasm) { // compiled anew
        put(&rlib, &w.wasm); put(&format!("{t}/{lib}.wasm"), &w.wasm);
        if !w.sites.is_empty() {
            let (root, mut vars) = (w.root.clone(), c.env.clone()); if let (Some(d), false) = (&w.target_var, vars.iter().any(|v| v.0 == "CARGO_TARGET_DIR")) { vars.push(("CARGO_TARGET_DIR".into(), d.clone())); }
            let cwd = world::chdir(&root); let vars = world(|x| std::mem::replace(&mut x.vars, vars));
            w.addresses = w.sites.iter().map(|(f, l)| crate::include::expand(f, l)).collect();
            world::chdir(&cwd); world(|x| x.vars = vars);
            if crate::include::errors() > 0 { return 101; }
        }
        for (n, b) in &w.include { put(&format!("{t}/static/included/{n}"), b); }
    }
    0
}
/// The project: 0 = one package; 1 = a workspace, started at its root; 2 = started in the package's directory.
pub fn project(layout: usize, kind: Vec<&'static str>) -> Shared {
    let (root, cwd) = ("/w".to_string(), if layout == 2 { "/w/my-app" } else { "/w" });
    world(|w| w.cwd = cwd.into());
    let app = |dir: &str| Member { name: "my-app".into(), dir: dir.into(), kind: kind.clone() };
    let members = if layout == 0 { vec![app("/w")] } else { vec![Member { name: "util".into(), dir: "/w/util".into(), kind: vec!["lib"] }, app("/w/my-app"), Member { name: "tool".into(), dir: "/w/tool".into(), kind: vec!["bin", "cdylib"] }] };
    let ws: Shared = Rc::new(RefCell::new(Ws { root, members, installed: true, wasm: b"\0asm1".to_vec(), ..Ws::default() }));
    commands(&ws); ws
}
/// Files below a directory (relative to it).
pub fn below(dir: &str) -> Vec<(String, Vec<u8>)> { let d = world::place(dir); world(|w| { let mut l: Vec<(String, Vec<u8>)> = w.files.iter().filter(|f| f.0.len() > d.len() && f.0.starts_with(&d) && f.0.as_bytes()[d.len()] == b'/').map(|f| (f.0[d.len() + 1..].to_string(), f.1.clone())).collect(); l.sort(); l }) }
