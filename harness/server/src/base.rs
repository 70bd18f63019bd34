//! Runs `vertigo serve` (serve::run) against a modelled outside: the program being served is a
//! scripted guest, the network and the clock follow the harness.
use crate::codec::*;
use crate::commons::models::CommonOpts;
use crate::serve::{run, ServeOpts, ServeOptsInner};
use std::cell::RefCell;
use std::rc::Rc;
use symrt::check;
use world::{world, App, Guest, Imports, Resp};
const BASE: u32 = wasmtime::BASE as u32;

thread_local! { static BLOCKS: RefCell<Vec<(u32, &'static [u8])>> = const { RefCell::new(Vec::new()) }; }
fn galloc(n: usize) -> u32 { let b: &'static mut [u8] = Box::leak(vec![0u8; n.max(1)].into_boxed_slice()); let p = b.as_ptr() as usize as u32; BLOCKS.with(|x| x.borrow_mut().push((p, unsafe { std::slice::from_raw_parts(p as usize as *const u8, n) }))); p - BASE }
fn taken(p: u32) -> V {
    if p == 0 { return V::Undef; }
    let b = BLOCKS.with(|x| { let mut x = x.borrow_mut(); match x.iter().position(|b| b.0 == p + BASE) { Some(i) => Some(x.remove(i).1), None => None } });
    match b { Some(b) => { let mut r = Rd::new(b); let v = r.val(); check(!r.bad && r.o == b.len(), "the server handed the program a malformed value"); v } None => { check(false, "the server handed the program memory it did not allocate"); V::Undef } }
}
/// What the served program can do.
pub struct Api<'a>(&'a Imports);
impl<'a> Api<'a> {
    pub fn send(&self, v: V) -> V { let mut b = Vec::new(); enc(&mut b, &v); let r = (self.0.dom_access)(b.as_ptr() as usize as u32 - BASE, b.len() as u32); taken(r) }
    pub fn api(&self, steps: &[V]) -> V { let mut l = vec![V::List(vec![V::s("api")])]; l.extend(steps.iter().cloned()); self.send(V::List(l)) }
    pub fn dom(&self, cmds: Vec<J>) { let r = self.api(&[get("dom"), V::List(vec![V::s("call"), V::s("dom_bulk_update"), V::Json(J::List(cmds))])]); check(r == V::Undef, "a bulk update is answered with a value"); }
    pub fn timeout(&self, ms: u32, cb: u64) -> V { self.api(&[get("interval"), V::List(vec![V::s("call"), V::s("timeout_set"), V::U32(ms), V::U64(cb)])]) }
    pub fn fetch(&self, cb: u64, method: &str, url: V, headers: J, body: V) { let r = self.api(&[get("fetch"), V::List(vec![V::s("call"), V::s("fetch_send_request"), V::U64(cb), V::s(method), url, V::Json(headers), body])]); check(r == V::Undef, "a request is answered at once"); }
    pub fn plain(&self, body: V) { self.send(V::List(vec![V::List(vec![V::s("plain_response")]), body])); }
    pub fn raw(&self, b: &[u8]) { (self.0.dom_access)(b.as_ptr() as usize as u32 - BASE, b.len() as u32); }
    pub fn panic(&self, m: &[u8]) { (self.0.panic_message)(m.as_ptr() as usize as u32 - BASE, m.len() as u32) }
}
pub fn get(n: &str) -> V { V::List(vec![V::s("get"), V::s(n)]) }
pub fn call(l: &[&str]) -> V { let mut v = vec![V::s("call")]; for x in l { v.push(V::s(x)); } V::List(v) }
/// Err = the program traps.
pub type Entry = Box<dyn Fn(&Api) -> Result<(), ()>>;
pub type Callback = Box<dyn Fn(&Api, u64, V) -> Result<u64, ()>>;
pub struct Script { pub entry: Entry, pub callback: Callback }
impl Guest for Script {
    fn call(&self, name: &str, a: &[u64], i: &Imports) -> Result<u64, String> {
        match name {
            "alloc" => Ok(galloc(a[0] as usize) as u64),
            "vertigo_entry_function" => { check(a.len() == 2, "entry takes the version"); (self.entry)(&Api(i)).map(|_| 0).map_err(|_| "unreachable".to_string()) }
            "wasm_callback" => { let v = taken(a[1] as u32); (self.callback)(&Api(i), a[0], v).map_err(|_| "unreachable".to_string()) }
            _ => Err("no such export".into()),
        }
    }
}
pub fn script(entry: impl Fn(&Api) + 'static) { program(move |a| { entry(a); Ok(()) }, |_, _, _| Ok(0)); }
pub fn program(entry: impl Fn(&Api) -> Result<(), ()> + 'static, callback: impl Fn(&Api, u64, V) -> Result<u64, ()> + 'static) { world::set_guest(Rc::new(Script { entry: Box::new(entry), callback: Box::new(callback) })); }

#[derive(Default)]
pub struct Opts { pub proxy: Vec<(String, String)>, pub env: Vec<(String, String)>, pub watch: Option<u16>, pub public: &'static str }
pub fn serve(o: Opts, f: impl Fn(&dyn App) + 'static) {
    let p = if o.public.is_empty() { "/build" } else { o.public };
    world(|w| {
        w.files.push(("dest/index.json".into(), format!("{{\"run_js\":\"{p}/run.js\",\"wasm\":\"{p}/app.wasm\"}}").into_bytes()));
        w.files.push(("dest/app.wasm".into(), b"\0asm".to_vec()));
        w.files.push(("dest/run.js".into(), b"js".to_vec()));
        let done = Rc::new(f); w.serve = Some(Rc::new(move |a| done(a)));
    });
    let r = world::block_on(run(ServeOpts { common: CommonOpts { dest_dir: "dest".into() }, inner: ServeOptsInner { host: "127.0.0.1".into(), port: 4444, proxy: o.proxy, env: o.env } }, o.watch));
    check(matches!(r, Some(Ok(()))), "the server does not start");
}
pub fn page(app: &dyn App, url: &str) -> Resp { app.request("GET", url, world::HeaderMap::new(), vec![]) }
pub fn header(r: &Resp, k: &str) -> Vec<u8> { r.headers.get(k).map(|h| h.0.clone()).unwrap_or_default() }

// commands of the application, as the driver writes them
pub fn obj(l: &[(&str, J)]) -> J { J::Obj(l.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.clone())).collect()) }
pub fn node(id: u64, name: &str) -> J { obj(&[("type", J::s("create_node")), ("id", J::n(id as f64)), ("name", J::s(name))]) }
pub fn text(id: u64, v: &[u8]) -> J { obj(&[("type", J::s("create_text")), ("id", J::n(id as f64)), ("value", J::Str(v.to_vec()))]) }
pub fn comment(id: u64, v: &str) -> J { obj(&[("type", J::s("create_comment")), ("id", J::n(id as f64)), ("value", J::s(v))]) }
pub fn update(id: u64, v: &[u8]) -> J { obj(&[("type", J::s("update_text")), ("id", J::n(id as f64)), ("value", J::Str(v.to_vec()))]) }
pub fn attr(id: u64, n: &[u8], v: &[u8]) -> J { obj(&[("type", J::s("set_attr")), ("id", J::n(id as f64)), ("name", J::Str(n.to_vec())), ("value", J::Str(v.to_vec()))]) }
pub fn rmattr(id: u64, n: &[u8]) -> J { obj(&[("type", J::s("remove_attr")), ("id", J::n(id as f64)), ("name", J::Str(n.to_vec()))]) }
pub fn insert(parent: u64, child: u64, before: Option<u64>) -> J { obj(&[("type", J::s("insert_before")), ("parent", J::n(parent as f64)), ("child", J::n(child as f64)), ("ref_id", before.map_or(J::Null, |r| J::n(r as f64)))]) }
pub fn remove(kind: &str, id: u64) -> J { obj(&[("type", J::s(kind)), ("id", J::n(id as f64))]) }
pub fn style(sel: &[u8], v: &[u8]) -> J { obj(&[("type", J::s("insert_css")), ("selector", J::Str(sel.to_vec())), ("value", J::Str(v.to_vec()))]) }
pub fn event(kind: &str, id: u64, cb: u64) -> J { obj(&[("type", J::s(kind)), ("id", J::n(id as f64)), ("event_name", J::s("click")), ("callback_id", J::n(cb as f64))]) }
/// html(1) > head(2) > body(3)
pub fn skeleton() -> Vec<J> { vec![node(1, "html"), node(2, "head"), node(3, "body"), insert(1, 2, None), insert(1, 3, None)] }
