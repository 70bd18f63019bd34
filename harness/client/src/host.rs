//! Model of the JavaScript host.  It has its own codec for the boundary format (written from the
//! TypeScript side, src_js/jsvalue.ts), a clock, timers, pending fetches and a DOM that applies the
//! bulk updates the way src_js/api_browser/dom does.
use std::cell::RefCell;
use symrt::check;

pub use crate::codec::*;

pub struct Timer { pub id: i32, pub ms: u32, pub cb: u64, pub repeat: bool, pub live: bool }
pub struct Fetch { pub cb: u64, pub method: Vec<u8>, pub url: Vec<u8>, pub headers: J, pub body: V, pub done: bool }
#[derive(Default)]
pub struct Host {
    pub now: i64, pub clock64: bool, pub server: bool, pub strict: bool, pub timers: Vec<Timer>, pub fetches: Vec<Fetch>, pub hash: Vec<u8>, pub path: Vec<u8>,
    pub hash_cb: Vec<u64>, pub path_cb: Vec<u64>, pub errors: u32, pub warns: u32, pub panics: u32, pub dom: Vec<J>, pub batches: u32, pub last: Option<V>, pub calls: u32,
    pub ws: Vec<(Vec<u8>, u64)>, pub ws_sent: Vec<(u64, Vec<u8>)>, pub cookies: Vec<(Vec<u8>, V)>, pub env: Vec<(Vec<u8>, Vec<u8>)>, pub plain: Option<Vec<u8>>,
    pub panic_has: Option<Vec<u8>>, pub log: Vec<V>, pub answer: Option<V>, pub record: bool, pub replaced: u32, pub pushed: u32, pub backs: u32,
}
thread_local! { pub static HOST: RefCell<Host> = RefCell::new(Host { now: 1000, ..Host::default() }); }
pub fn host<R>(f: impl FnOnce(&mut Host) -> R) -> R { HOST.with(|h| f(&mut h.borrow_mut())) }

/// Copies a value into the module's memory the way the host does: alloc, then write.
pub fn to_wasm(v: &V) -> u32 {
    if *v == V::Undef { return 0; }
    let mut b = Vec::new(); enc(&mut b, v);
    bytes_to_wasm(&b)
}
pub fn bytes_to_wasm(b: &[u8]) -> u32 {
    let p = vertigo::alloc(b.len() as u32);
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), p as usize as *mut u8, b.len()) };
    p
}
/// Invokes a callback of the module and decodes its answer.
pub fn call(cb: u64, v: &V) -> V { let p = to_wasm(v); call_ptr(cb, p) }
pub fn call_ptr(cb: u64, p: u32) -> V {
    let r = vertigo::wasm_callback(cb, p);
    if r == 0 { return V::Undef; }
    let (ptr, size) = ((r >> 32) as usize, (r & 0xffff_ffff) as usize);
    let b = unsafe { std::slice::from_raw_parts(ptr as *const u8, size) };
    let mut rd = Rd::new(b); let v = rd.val();
    check(!rd.bad && rd.o == size, "the answer of a callback is not a well-formed value");
    vertigo::free(ptr as u32);
    v
}
pub fn fire_timer(i: usize) {
    let (cb, ok) = host(|h| { let t = &mut h.timers[i]; let ok = t.live; if !t.repeat { t.live = false; } (t.cb, ok) });
    if ok { call(cb, &V::Undef); }
}
pub fn live_timers() -> Vec<usize> { host(|h| (0..h.timers.len()).filter(|i| h.timers[*i].live).collect()) }
/// Fires due zero-delay timers until none is left (spawned tasks run this way).
pub fn run_microtasks() {
    for _ in 0..200 {
        let n = host(|h| h.timers.iter().position(|t| t.live && t.ms == 0 && !t.repeat));
        match n { Some(i) => fire_timer(i), None => return }
    }
    check(false, "zero-delay timers never drain");
}
pub fn respond(i: usize, success: bool, status: u32, body: V) {
    let cb = host(|h| { h.fetches[i].done = true; h.fetches[i].cb });
    call(cb, &V::List(vec![if success { V::True } else { V::False }, V::U32(status), body]));
}
pub fn pending() -> Vec<usize> { host(|h| (0..h.fetches.len()).filter(|i| !h.fetches[*i].done).collect()) }
pub fn set_path(p: &str) { let cbs = host(|h| { h.path = p.as_bytes().to_vec(); h.path_cb.clone() }); for c in cbs { call(c, &V::s(p)); } }
pub fn set_hash(p: &str) { let cbs = host(|h| { h.hash = p.as_bytes().to_vec(); h.hash_cb.clone() }); for c in cbs { call(c, &V::s(p)); } }

fn dispatch(v: V) -> V {
    let V::List(steps) = &v else { check(false, "a host call is not a list"); return V::Undef };
    let mut path: Vec<&V> = Vec::new(); // names walked
    if host(|h| h.record) { host(|h| h.log.push(v.clone())); if let Some(a) = host(|h| h.answer.clone()) { return a; } }
    let mut i = 0;
    while i < steps.len() {
        let V::List(st) = &steps[i] else { check(false, "a step of a host call is not a list"); return V::Undef };
        if st.is_empty() { check(false, "an empty step in a host call"); return V::Undef; }
        if st[0].is_str("api") { }
        else if st[0].is_str("root") || st[0].is_str("get") { path.push(&st[1]); }
        else if st[0].is_str("plain_response") { let b = steps[i + 1].as_str(); host(|h| h.plain = Some(b)); return V::Undef; }
        else if st[0].is_str("call") { return api_call(&path, &st[1], &st[2..]); }
        else { return V::Undef; }
        i += 1;
    }
    V::Undef
}
fn api_call(path: &[&V], name: &V, a: &[V]) -> V {
    let at = |s: &str| path.last().map_or(false, |p| p.is_str(s));
    if at("Date") { return host(|h| if h.clock64 { V::I64(h.now) } else { V::F64((h.now as f64).to_bits()) }); }
    if at("console") { host(|h| { if name.is_str("error") { h.errors += 1 } else if name.is_str("warn") { h.warns += 1 } }); return V::Undef; }
    if at("dom") { if let Some(V::Json(J::List(l))) = a.first() { host(|h| { h.batches += 1; h.dom.extend(l.iter().cloned()) }); } else { check(false, "a bulk update is not a json list"); } return V::Undef; }
    if at("interval") {
        if name.is_str("interval_clear") { let V::I32(id) = a[0] else { check(false, "timer id expected"); return V::Undef }; host(|h| for t in h.timers.iter_mut() { if t.id == id { t.live = false; } }); return V::Undef; }
        let V::U32(ms) = a[0] else { check(false, "timer duration expected"); return V::Undef };
        let cb = a[1].as_u64(); let rep = name.is_str("interval_set");
        return host(|h| { let id = h.timers.len() as i32 + 1; h.timers.push(Timer { id, ms, cb, repeat: rep, live: true }); V::I32(id) });
    }
    if at("fetch") {
        let J0 = match &a[3] { V::Json(j) => j.clone(), _ => { check(false, "fetch headers are json"); J::Null } };
        host(|h| h.fetches.push(Fetch { cb: a[0].as_u64(), method: a[1].as_str(), url: a[2].as_str(), headers: J0, body: a[4].clone(), done: false }));
        return V::Undef;
    }
    if at("hashRouter") || at("historyLocation") {
        let hs = at("hashRouter");
        if name.is_str("get") { return V::Str(host(|h| if hs { h.hash.clone() } else { h.path.clone() })); }
        if name.is_str("add") { let c = a[0].as_u64(); host(|h| if hs { h.hash_cb.push(c) } else { h.path_cb.push(c) }); return V::Undef; }
        if name.is_str("remove") { let c = a[0].as_u64(); host(|h| if hs { h.hash_cb.retain(|x| *x != c) } else { h.path_cb.retain(|x| *x != c) }); return V::Undef; }
        // push / replace: like the browser objects, a changed location is announced to the listeners
        let v = a[0].as_str();
        let cbs = host(|h| {
            if name.is_str("replace") { h.replaced += 1 } else { h.pushed += 1 }
            let cur = if hs { &mut h.hash } else { &mut h.path };
            let same = *cur == v; *cur = v.clone();
            if same { Vec::new() } else if hs { h.hash_cb.clone() } else { h.path_cb.clone() }
        });
        for c in cbs { call(c, &V::Str(v.clone())); }
        return V::Undef;
    }
    if at("history") { host(|h| h.backs += 1); return V::Undef; }
    if at("websocket") {
        if name.is_str("websocket_register_callback") { let (n, c) = (a[0].as_str(), a[1].as_u64()); host(|h| h.ws.push((n, c))); }
        else if name.is_str("websocket_unregister_callback") { let c = a[0].as_u64(); host(|h| h.ws.retain(|x| x.1 != c)); }
        else { let (c, m) = (a[0].as_u64(), a[1].as_str()); host(|h| h.ws_sent.push((c, m))); }
        return V::Undef;
    }
    if at("cookie") {
        let k = a[0].as_str();
        if name.is_str("get") { return host(|h| h.cookies.iter().rev().find(|c| c.0 == k).map_or(V::s(""), |c| c.1.clone())); }
        if name.is_str("get_json") { return host(|h| h.cookies.iter().rev().find(|c| c.0 == k).map_or(V::Null, |c| c.1.clone())); }
        let v = a[1].clone(); host(|h| h.cookies.push((k, v))); return V::Undef;
    }
    if name.is_str("isBrowser") { return if host(|h| h.server) { V::False } else { V::True }; }
    if name.is_str("getTimezoneOffset") { return V::I32(-60); }
    if name.is_str("getRandom") { let (lo, hi) = (a[0].as_u64(), a[1].as_u64()); return V::I32(symrt::int("random", 32, lo, hi) as i32); }
    if name.is_str("get_env") { let k = a[0].as_str(); return host(|h| h.env.iter().find(|e| e.0 == k).map_or(V::Null, |e| V::Str(e.1.clone()))); }
    V::Undef
}

#[no_mangle]
pub extern "C" fn __host_dom_access(ptr: u32, size: u32) -> u32 {
    let b = unsafe { std::slice::from_raw_parts(ptr as usize as *const u8, size as usize) };
    let mut rd = Rd::new(b); let v = rd.val();
    check(!rd.bad && rd.o == size as usize, "a host call is not a well-formed value");
    let r = dispatch(v);
    to_wasm(&r)
}
#[no_mangle]
pub extern "C" fn __host_panic_message(ptr: u32, size: u32) {
    let want = host(|h| { h.panics += 1; h.panic_has.take() });
    if let Some(w) = want { let b = unsafe { std::slice::from_raw_parts(ptr as usize as *const u8, size as usize) }; check(b.windows(w.len()).any(|x| x == w.as_slice()), "the host is not told why the program stopped"); symrt::reach("panic"); symrt::end(); }
}
