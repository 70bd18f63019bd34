//! A program written with vertigo, served by the server: both sides are the real code.
use crate::base::*;
use crate::dom::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use symrt::*;
use vertigo::prelude::*;
use vertigo::{css, get_driver, router::Router, LazyCache, RequestBody, RequestBuilder, Resource};
use world::{world, Answer, Guest, HeaderMap, Imports};
const BASE: u32 = wasmtime::BASE as u32;

thread_local! { static IMPORTS: Cell<*const Imports> = const { Cell::new(std::ptr::null()) }; static CFG: RefCell<Cfg> = RefCell::new(Cfg::default()); }
#[derive(Default, Clone)]
struct Cfg { plain: String, text: String, color: String, dep: bool, mode: usize, version: Option<(u32, u32)> }
#[no_mangle]
pub extern "C" fn __host_dom_access(ptr: u32, size: u32) -> u32 { let i = IMPORTS.with(|i| i.get()); let r = unsafe { ((*i).dom_access)(ptr - BASE, size) }; if r == 0 { 0 } else { r + BASE } }
#[no_mangle]
pub extern "C" fn __host_panic_message(ptr: u32, size: u32) { let i = IMPORTS.with(|i| i.get()); unsafe { ((*i).panic_message)(ptr - BASE, size) } }
struct Real;
impl Guest for Real {
    fn call(&self, name: &str, a: &[u64], i: &Imports) -> Result<u64, String> {
        let prev = IMPORTS.with(|x| x.replace(i as *const Imports));
        let r = match name {
            "alloc" => Ok((vertigo::alloc(a[0] as u32) - BASE) as u64),
            "vertigo_entry_function" => { vertigo_entry_function(CFG.with(|c| c.borrow().version).unwrap_or((a[0] as u32, a[1] as u32))); Ok(0) }
            "wasm_callback" => { let r = vertigo::wasm_callback(a[0], if a[1] == 0 { 0 } else { a[1] as u32 + BASE }); check(r == 0, "a callback of the program answers the server with a value"); Ok(r) }
            _ => Err("no such export".into()),
        };
        IMPORTS.with(|x| x.set(prev)); r
    }
}
#[derive(Clone, PartialEq)]
enum Route { Home, Item(String), Other }
impl From<String> for Route { fn from(s: String) -> Route { if s == "/" { Route::Home } else if let Some(r) = s.strip_prefix("/item/") { Route::Item(r.to_string()) } else { Route::Other } } }
impl std::fmt::Display for Route { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { Route::Home => f.write_str("/"), Route::Item(s) => write!(f, "/item/{s}"), Route::Other => f.write_str("/404") } } }
fn cache(url: &str) -> LazyCache<Vec<String>> { RequestBuilder::get(url).lazy_cache(|s, b| if s == 200 { Some(b.into::<Vec<String>>()) } else { None }) }

#[vertigo::main]
fn app() -> DomNode {
    let c = CFG.with(|c| c.borrow().clone());
    get_driver().plains(|u| if u == "/robots" { Some(CFG.with(|c| c.borrow().plain.clone())) } else { None });
    let router: Router<Route> = Router::new_history_router();
    let route = router.to_computed().map(|r| match r { Route::Home => "home".to_string(), Route::Item(s) => format!("item {s}"), Route::Other => "nothing".to_string() });
    let look = css!("color: {c.color};");
    let count = Value::new(0); // changed before the page is sent
    let shown = count.to_computed().map(|n| format!("{n} times"));
    let typed = Value::new("v".to_string()); let t2 = typed.clone(); let c2 = count.clone();
    let button = count.to_computed().render_value_option(move |n| { let c2 = c2.clone(); if n == 1 { None } else { Some(dom! { <button on_click={move || c2.set(n + 1)}>"+"</button> }) } });
    let (text, set) = (c.text.clone(), get_driver().env("k"));
    let where_ = if get_driver().is_browser() { "browser" } else { "server" };
    let extra: DomNode = match c.mode {
        0 => dom! { <hr/> },
        1 => {
            let (items, more) = (cache("/items"), cache("/more"));
            let dep = c.dep;
            items.to_computed().render_value(move |r| match r {
                Resource::Loading => dom! { <p>"loading"</p> },
                Resource::Error(_) => dom! { <p>"error"</p> },
                Resource::Ready(l) => { let l = (*l).clone(); let list = Computed::from(move |_| l.clone()).render_list(|s| s.clone(), |s| dom! { <li>{s}</li> });
                    let tail: DomNode = if dep { more.to_computed().render_value(|r| match r { Resource::Ready(l) => dom! { <b>{l.len()}</b> }, _ => dom! { <b>"?"</b> } }) } else { dom! { <i/> } };
                    dom! { <ul>{list}</ul> <div>{tail}</div> } }
            })
        }
        _ => { let n = count.clone(); get_driver().spawn(async move { n.set(1); get_driver().sleep(0).await; n.set(2); }); dom! { <em>"task"</em> } }
    };
    let set = set.map(|s| dom! { <q>{s}</q> });
    dom! { <html lang="en"><head><title>{&text}</title></head><body><h1 css={look} title={&text}>{route}</h1><p>{where_}</p>{..set}{extra}<s>{shown}</s><input on_input={move |s: String| t2.set(s)} on_blur={|| ()} value={typed} />{button}</body></html> }
}
/// Kinds of programs: static, requests (with a dependent one), tasks, plain responses.
#[no_mangle]
pub extern "C" fn h_whole(mode: usize, n: usize) {
    let text = unicode("text", 1, if mode == 0 { 3 } else { 1 }); let color = word("color", 1, b"rgb"); let dep = mode == 1 && flag("dependent");
    let item = word("item", n, b"ab<&."); let (url, rt) = match if mode == 0 { choice("url", 4) } else { 0 } { 0 => ("/".to_string(), "home".to_string()), 1 => (format!("/item/{item}"), format!("item {item}")), 2 => ("/?q".to_string(), "nothing".to_string()), _ => ("/robots".to_string(), String::new()) };
    let env = if mode == 0 && flag("setting") { Some(word("setting", 1, b"ab\"<")) } else { None };
    let plain = if url == "/robots" && flag("emptyplain") { String::new() } else { text.clone() };
    // the server's own version, or any other
    let version = if mode == 2 && flag("version") { Some([(0u32, 6u32), (0, 7), (1, 6), (0, 5), (6, 0)][choice("other", 5)]) } else { None };
    CFG.with(|c| *c.borrow_mut() = Cfg { plain: plain.clone(), text: text.clone(), color: color.clone(), dep, mode, version });
    world::set_guest(Rc::new(Real)); world(|w| w.keep_logs = mode == 2);
    let got: Rc<RefCell<Vec<(String, Option<Vec<Vec<u8>>>)>>> = Rc::default(); let g2 = got.clone();
    world(|w| w.idle = Some(Rc::new(move || {
        let p = world::unanswered();
        if !p.is_empty() {
            let i = p[choice("event", p.len())]; let u = world(|w| w.outs[i].url.clone()); let mut h = HeaderMap::new(); h.append("content-type", "application/json".into());
            let (st, body, items): (u16, Vec<u8>, Option<Vec<Vec<u8>>>) = match choice("answer", 5) {
                0 => (200, b"[]".to_vec(), Some(vec![])),
                1 => { let w = word("w", 1, b"ab&"); (200, [b"[\"", w.as_bytes(), b"\",\"z\"]"].concat(), Some(vec![w.into_bytes(), b"z".to_vec()])) }
                2 => (200, b"[1]".to_vec(), None), 3 => (int("status", 16, 201, 999) as u16, b"[]".to_vec(), None),
                _ => { g2.borrow_mut().push((u, None)); world(|w| w.outs[i].answer = Some(Answer::NetError)); return true; }
            };
            g2.borrow_mut().push((u, items)); world(|w| w.outs[i].answer = Some(Answer::Ok(st, h, body))); true
        } else { false }
    })));
    let e2 = env.clone();
    serve(Opts { env: e2.into_iter().map(|v| ("k".to_string(), v)).collect(), ..Opts::default() }, move |app| {
        let r = page(app, &url);
        if url == "/robots" { check(r.status == 200 && r.body == plain.as_bytes() && header(&r, "content-type") == b"text/plain", "a plain response is not what the handler returned"); reach("plain"); return; }
        check(r.status == 200, "the page of a program is an error");
        if mode != 1 { world(|w| match version { Some(v) if v != (0, 6) => { check(w.logs.iter().any(|l| l.0 == 'w' && l.1.contains(&format!("{}.{}", v.0, v.1)) && l.1.contains("0.6")), "a program made for another version of the server does not say so"); reach("version"); } _ => check(w.errors == 0 && !w.logs.iter().any(|l| l.0 == 'w'), "something is reported as an error although all is well") }); }
        let Some(h) = read(&r.body) else { check(false, "the page is not well-formed html"); return };
        let g = &*got.borrow();
        let class = child(&h, b"body").and_then(|b| child(b, b"h1")).and_then(|h| h.attrs.iter().find(|a| a.0 == b"class")).map(|a| String::from_utf8(a.1.clone()).unwrap_or_default()).unwrap_or_default();
        check(!class.is_empty(), "a styled element has no class");
        let t = |s: &[u8]| if s.is_empty() { vec![] } else { vec![N::Text(s.to_vec())] };
        let e = |n: &str, k: Vec<N>| N::El(el(n, &[], k));
        let mut kids = vec![e("style", t(format!(".{class} {{ color: {color} }}").as_bytes())), N::El(el("h1", &[("class", &class), ("title", &text)], t(rt.as_bytes()))), e("p", t(b"server"))];
        if let Some(s) = &env { kids.push(e("q", t(s.as_bytes()))); reach("setting"); }
        let ans = |u: &str| g.iter().find(|a| a.0 == u).map(|a| a.1.clone());
        match mode {
            0 => kids.push(e("hr", vec![])),
            1 => match ans("/items") {
                None => check(false, "the page is sent before its request is answered"),
                Some(None) => { kids.push(e("p", t(b"error"))); reach("error"); }
                Some(Some(l)) => { kids.push(e("ul", l.iter().map(|x| e("li", t(x))).collect())); reach("list");
                    if dep { let b: Vec<u8> = match ans("/more") { Some(Some(l)) => { reach("dependent"); l.len().to_string().into_bytes() } Some(None) => b"?".to_vec(), None => { check(false, "the page is sent before a request of an answer is answered"); vec![] } }; kids.push(e("div", vec![e("b", t(&b))])); } else { kids.push(e("div", vec![e("i", vec![])])); } }
            },
            _ => { kids.push(e("em", t(b"task"))); reach("task"); }
        }
        kids.push(e("s", t(if mode == 2 { b"2 times" } else { b"0 times" }))); kids.push(N::El(el("input", &[("value", "v")], vec![]))); kids.push(e("button", t(b"+")));
        kids.push(N::El(run_script()));
        let mut want = el("html", &[("lang", "en")], vec![e("head", vec![e("title", t(text.as_bytes()))]), e("body", kids)]);
        if let Some(s) = &env { want.attrs.push((b"data-env-k".to_vec(), s.clone().into_bytes())); }
        // a last semicolon in a rule makes no difference
        let mut h = h; for k in h.kids.iter_mut() { if let N::El(b) = k { for k in b.kids.iter_mut() { if let N::El(s) = k { if s.name == b"style" { for t in s.kids.iter_mut() { if let N::Text(t) = t { t.retain(|c| *c != b';'); } } } } } } }
        same(&h, &want, "the page is not the view of the program's values");
        world(|w| check(w.outs.len() == g.len(), "a request is sent twice"));
        reach("end"); trace(r.body.len() as u64);
    });
}
