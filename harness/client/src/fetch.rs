//! Requests, cached requests, holding back of document updates, resources.
use crate::{domtree::{el, tx, T}, domview::{quiet, start}, host::{self, host, pending, respond, run_microtasks, J, V}};
use std::{cell::RefCell, collections::HashMap, rc::Rc};
use symrt::*;
use vertigo::{get_driver, transaction, Computed, Driver, DomElement, DomText, DropResource, FetchMethod, JsJson, LazyCache, RequestBody, RequestBuilder, Resource, Value};

#[derive(Clone, PartialEq, Debug)]
enum R { Loading, Ready(Vec<u8>), Err(Vec<u8>) }
fn seen(r: &Resource<Rc<String>>) -> R { match r { Resource::Loading => R::Loading, Resource::Ready(s) => R::Ready(s.as_bytes().to_vec()), Resource::Error(e) => R::Err(e.as_bytes().to_vec()) } }
struct Lazy { cache: LazyCache<String>, other: LazyCache<String>, val: Option<R>, expiry: Option<u64>, pending: bool, ttl: Option<u64>, requests: usize, sub: Option<DropResource>, log: Rc<RefCell<Vec<R>>>, comp: Computed<Resource<Rc<String>>>, seen: bool }
impl Lazy {
    fn now() -> u64 { host(|h| h.now) as u64 }
    fn need(&self) -> bool { match self.val { None => true, Some(_) => match self.expiry { None => false, Some(e) => Self::now() > e } } }
    fn view(&self) -> R { self.val.clone().unwrap_or(R::Loading) }
    fn go(&mut self) { self.pending = true; self.requests += 1; }
    fn access(&mut self) { if !self.pending && self.need() { self.go(); } }
    fn changed(&mut self) { if self.sub.is_some() { self.access(); } }
    fn settle(&mut self) {
        run_microtasks();
        check(host(|h| h.fetches.len()) == self.requests, if host(|h| h.fetches.len()) > self.requests { "a cached request is sent although none is due, or twice" } else { "a cached request is not sent although it is due" });
        let p = pending(); check(p.len() == self.pending as usize, "another request is pending");
        if let Some(i) = p.first() { host(|h| { let f = &h.fetches[*i]; check(f.method == b"GET" && f.url == b"/u" && f.body == V::Undef, "a cached request is sent with other parameters"); }); }
        if self.sub.is_some() { let l = self.log.borrow(); check(l.last() == Some(&self.view()), "a subscriber of a cached request does not have its current state"); for w in l.windows(2) { check(w[0] != w[1], "a subscriber of a cached request is called without a change"); } }
    }
}
/// F01: a cached request is sent exactly when it is needed and its result is what everybody sees.
#[no_mangle]
pub extern "C" fn h_lazy(steps: u32, prefix: u32) {
    // a fixed beginning: nothing; a result that expired and is being refreshed; a subscriber with a result; a forced refresh
    let script: &[usize] = [&[][..], &[0, 2, 6, 0], &[1, 2], &[1, 2, 4]][prefix as usize];
    host(|h| { h.clock64 = true; h.now = 1000; });
    let (req, ttl) = match choice("ttl", 4) { 0 => (RequestBuilder::get("/u"), None), 1 => (RequestBuilder::get("/u").ttl_seconds(3), Some(3_000)), 2 => (RequestBuilder::get("/u").ttl_minutes(1), Some(60_000)), _ => (RequestBuilder::get("/u").ttl_seconds(0), Some(0)) };
    let cache: LazyCache<String> = req.lazy_cache(|status, body| match status { 200 => Some(body.into::<String>()), 201 => Some(Err("e".into())), _ => None });
    let comp = cache.to_computed();
    let mut m = Lazy { other: cache.clone(), cache, val: None, expiry: None, pending: false, ttl, requests: 0, sub: None, log: Rc::default(), comp, seen: false };
    m.settle();
    for i in 0..script.len() + steps as usize { let scripted = i < script.len(); let flag = |n: &str| !scripted && flag(n); let choice = |n: &str, k: usize| if scripted { 0 } else { choice(n, k) };
        match if scripted { script[i] } else { choice("op", 8) } {
            0 => { let c = if flag("clone") { &m.other } else { &m.cache }; let r = transaction(|x| c.get(x)); check(seen(&r) == m.view(), "reading a cached request returns another state"); m.access(); reach("get"); }
            1 => { if m.sub.is_some() { m.sub = None; m.seen = false; } else { let l = m.log.clone(); l.borrow_mut().clear(); m.sub = Some(m.comp.clone().subscribe(move |v| l.borrow_mut().push(seen(&v)))); run_microtasks(); if !m.seen || host(|h| h.fetches.len()) > m.requests { m.access(); } reach("sub"); } }
            2 => { let p = pending(); if p.is_empty() { return; }
                let body = ascii("body", 1);
                let st = match choice("answer", 6) {
                    0 => { respond(p[0], true, 200, V::Json(J::s(&body))); R::Ready(body.into_bytes()) }
                    1 => { respond(p[0], true, 201, V::Json(J::s(&body))); R::Err(b"e".to_vec()) }
                    2 => { respond(p[0], true, 404, V::Str(body.into_bytes())); R::Err(b"Unhandled response code 404".to_vec()) }
                    3 => { respond(p[0], false, 0, V::Str(b"net".to_vec())); R::Err(b"Text(\n    \"net\",\n)".to_vec()) }
                    4 => { respond(p[0], true, 200, V::Str(body.into_bytes())); R::Err(b"FetchBody.into() - expected json, received text".to_vec()) }
                    _ => { respond(p[0], true, 200, V::Vec(body.into_bytes())); R::Err(b"FetchBody.into() - expected json, received binary".to_vec()) } };
                run_microtasks();
                m.pending = false; m.val = Some(st); m.expiry = m.ttl.map(|t| Lazy::now() + t); reach("answered"); m.changed(); }
            3 => { m.cache.forget(); m.val = None; m.expiry = None; m.changed(); reach("forget"); }
            4 => { let w = flag("loading"); m.other.force_update(w); if !m.pending { m.go(); if w { m.val = Some(R::Loading); m.expiry = None; } reach("force"); } }
            5 => { let w = flag("loading"); m.cache.update(w, false); if !m.pending && m.need() { m.go(); if w { m.val = Some(R::Loading); m.expiry = None; } reach("update"); } }
            6 => { let dt = if scripted { 70_000 } else { int("dt", 32, 0, 200_000) }; host(|h| h.now += dt as i64); reach("clock"); }
            _ => { let r = transaction(|x| m.comp.get(x)); let fresh = m.view(); check(seen(&r) == fresh, "reading a cached request returns another state"); if m.sub.is_none() { run_microtasks(); // the derived value may still be up to date, then the request is not read again
                let known = m.seen; if !known || host(|h| h.fetches.len()) > m.requests { m.access(); } m.seen = true; } }
        }
        m.settle();
    }
    let st = transaction(|x| m.cache.get(x)); check(seen(&st) == m.view(), "reading a cached request returns another state");
    check(m.cache == m.other, "two handles of one cached request differ");
    reach("end");
}
/// F02: requests reach the host as built; each is answered once with what the host answered.
#[no_mangle]
pub extern "C" fn h_fetch(n: u32, answers: u32) {
    let vary = answers == 0; // vary the requests, or the answers
    start(|| DomElement::new("div").into());
    type Out = Rc<RefCell<Vec<Result<Vec<u8>, Vec<u8>>>>>;
    let mut outs: Vec<Out> = Vec::new();
    for i in 0..n {
        let url = [format!("/{i}"), word("url", 1, b"abc?")].concat();
        let (m, mn) = match choice("method", if vary && i == 0 { 9 } else if vary { 2 } else { 1 }) { 0 => (FetchMethod::GET, "GET"), 1 => (FetchMethod::POST, "POST"), 2 => (FetchMethod::HEAD, "HEAD"), 3 => (FetchMethod::PUT, "PUT"), 4 => (FetchMethod::DELETE, "DELETE"), 5 => (FetchMethod::CONNECT, "CONNECT"), 6 => (FetchMethod::OPTIONS, "OPTIONS"), 7 => (FetchMethod::TRACE, "TRACE"), _ => (FetchMethod::PATCH, "PATCH") };
        let mut r = match (mn, vary && flag("short")) { ("GET", true) => get_driver().request_get(url.clone()), ("POST", true) => RequestBuilder::post(url.clone()), (_, true) => return, _ => RequestBuilder::new(m, url.clone()) };
        let mut heads: Vec<(Vec<u8>, J)> = Vec::new();
        match choice("headers", if vary && i == 0 { 5 } else { 1 }) {
            0 => {}
            1 => { let v = ascii("hv", 1); r = r.set_header("A", v.clone()); heads.push((b"A".to_vec(), J::s(&v))); }
            2 => { let v = ascii("hv", 1); r = r.set_header("A", "x").bearer_auth(v.clone()).set_header("A", v.clone()); heads.push((b"A".to_vec(), J::s(&v))); heads.push((b"Authorization".to_vec(), J::s(&format!("Bearer {v}")))); }
            3 => { let v = ascii("hv", 1); r = r.set_header("A", "x").headers(HashMap::from([("B".to_string(), v.clone())])); heads.push((b"B".to_vec(), J::s(&v))); }
            _ => { let v = ascii("hv", 1); r = r.headers(HashMap::from([("B".to_string(), "y".to_string())])).set_header("B", v.clone()).set_header("C", "z"); heads.push((b"B".to_vec(), J::s(&v))); heads.push((b"C".to_vec(), J::s("z"))); }
        }
        let b = if vary && i == 0 && flag("empty") { String::new() } else { ascii("body", 1) };
        let body = match choice("reqbody", if vary && i == 0 { 5 } else if vary { 2 } else { 1 }) { 0 => V::Undef, 1 => { r = r.body(RequestBody::Text(b.clone())); V::Str(b.into_bytes()) } 2 => { r = r.body(RequestBody::Json(JsJson::String(b.clone()))); V::Json(J::s(&b)) } 3 => { r = r.body(RequestBody::Binary(b.clone().into_bytes())); V::Vec(b.into_bytes()) } _ => { r = r.body(RequestBody::Text("old".into())).body_json(b.clone()); V::Json(J::s(&b)) } };
        let out: Out = Rc::default(); let o = out.clone(); let conv = if vary { 1 } else { choice("use", 4) };
        get_driver().spawn(async move {
            let r = r.call().await;
            let st = r.status();
            let v = match conv {
                0 => r.into_data::<String>().map(|s| s.into_bytes()).map_err(|s| s.into_bytes()),
                1 => r.into(|s, b| if s == 65535 { None } else { Some(Ok(match b { RequestBody::Text(t) => [vec![b'T', st.unwrap() as u8, (st.unwrap() >> 8) as u8, s as u8, (s >> 8) as u8], t.into_bytes()].concat(), RequestBody::Json(JsJson::String(t)) => [vec![b'J', st.unwrap() as u8, (st.unwrap() >> 8) as u8, s as u8, (s >> 8) as u8], t.into_bytes()].concat(), RequestBody::Json(_) => b"J?".to_vec(), RequestBody::Binary(t) => [vec![b'B', st.unwrap() as u8, (st.unwrap() >> 8) as u8, s as u8, (s >> 8) as u8], t].concat() })) }).map_err(|s| s.into_bytes()),
                2 => r.into(|_, _| Some(Err::<Vec<u8>, _>("mine".to_string()))).map_err(|s| s.into_bytes()),
                _ => r.into_error_message::<Vec<u8>>().map_err(|s| s.into_bytes()),
            };
            o.borrow_mut().push(v);
        });
        check(host(|h| h.fetches.len()) == i as usize, "a request is sent before it is called");
        run_microtasks();
        host(|h| { check(h.fetches.len() == i as usize + 1, "a called request must be sent exactly once"); let f = &h.fetches[i as usize];
            check(f.method == mn.as_bytes(), "a request is sent with another method"); check(f.url == url.as_bytes(), "a request is sent to another address");
            let J::Obj(l) = &f.headers else { check(false, "the headers of a request are not an object"); return }; check(l.len() == heads.len(), "a request is sent with other headers"); for (k, v) in &heads { check(f.headers.get(std::str::from_utf8(k).unwrap()) == Some(v), "a request is sent with other headers"); }
            check(f.body == body, "a request is sent with another body"); });
        outs.push(out);
        trace(conv as u64); CONV.with(|c| c.borrow_mut().push(conv));
    }
    let mut left: Vec<usize> = (0..n as usize).collect(); let mut done: Vec<bool> = vec![false; n as usize];
    while !left.is_empty() {
        let k = left.remove(choice("next", left.len())); let a = if !vary && flag("empty-answer") { String::new() } else { ascii("answer", 1) }; let st = if vary { u8("status") as u32 } else { u16("status") as u32 }; let conv = CONV.with(|c| c.borrow()[k]);
        let shape = if vary { 0 } else { choice("shape", 4) };
        if shape == 3 { let cb = host(|h| { h.fetches[k].done = true; h.fetches[k].cb }); // an answer the host must not give
            match choice("bad", 3) { 0 => { host::call(cb, &V::Undef); } 1 => { host::call(cb, &V::List(vec![V::True, V::U32(200), V::Null])); } _ => { host::call(cb, &V::List(vec![V::True, V::U32(200), V::s("x"), V::Null])); } }
            run_microtasks(); done[k] = true; reach("malformed");
            let o = outs[k].borrow(); check(o.len() == 1, "a request whose answer is malformed never completes"); check(o[0].is_err(), "a malformed answer counts as success"); }
        else {
            let ok = vary || flag("ok"); let (kind, v) = match shape { 0 => (b'T', V::s(&a)), 1 => (b'J', V::Json(J::s(&a))), _ => (b'B', V::Vec(a.clone().into_bytes())) };
            let code = match conv { 3 => 7, _ => st }; respond(k, ok, code, v); run_microtasks(); done[k] = true;
            let o = outs[k].borrow(); check(o.len() == 1, "an answered request must complete exactly once");
            match (ok, conv) {
                (false, _) => { check(o[0].is_err(), "a failed request counts as success"); reach("failed"); }
                (true, 0) => match kind { b'J' => check(o[0] == Ok(a.clone().into_bytes()), "the answer of a request arrives changed"), _ => check(o[0].is_err(), "an answer that is not json is accepted as json") },
                (true, 1) if st == 65535 => check(o[0] == Err(b"Unhandled response code 65535".to_vec()), "an answer the conversion does not handle is not an error with its status"),
                (true, 1) => check(o[0] == Ok([vec![kind, st as u8, (st >> 8) as u8, st as u8, (st >> 8) as u8], a.clone().into_bytes()].concat()), "the answer of a request arrives changed"),
                (true, 2) => check(o[0] == Err(b"mine".to_vec()), "the error of the application's conversion is lost"),
                _ => { let e = o[0].clone().err().unwrap_or_default(); check(e.starts_with(b"API error 7: "), "the error message does not carry the status"); }
            }
            reach("answered");
        }
        let e = host(|h| h.errors); let cb = host(|h| h.fetches[k].cb); host::call(cb, &V::List(vec![V::True, V::U32(200), V::s("again")])); run_microtasks();
        check(host(|h| h.errors) > e, "a second answer to one request is not reported"); check(outs[k].borrow().len() == 1, "an answered request must complete exactly once");
        for i in 0..n as usize { if !done[i] { check(outs[i].borrow().is_empty(), "a request completes with the answer of another one"); } }
    }
    reach("end");
}
thread_local! { static CONV: RefCell<Vec<usize>> = RefCell::new(Vec::new()); }
/// F03: the first document update waits for all requests of the initial view.
#[no_mangle]
pub extern "C" fn h_fetch_hold(n: u32, steps: u32) {
    let mk = |u: String| -> LazyCache<String> { RequestBuilder::get(u).lazy_cache(|s, b| if s == 200 { Some(b.into::<String>()) } else { None }) };
    let caches: Vec<LazyCache<String>> = (0..n).map(|i| mk(format!("/{i}"))).collect(); let late = mk("/late".into());
    let dep = n > 0 && flag("dependent");
    let text = Value::new(String::from("i"));
    let t2 = text.clone(); let c2 = caches.clone(); let l2 = late.clone();
    let show = |c: LazyCache<String>| -> Computed<String> { c.to_computed().map(|r| match r { Resource::Loading => "L".into(), Resource::Ready(s) => (*s).clone(), Resource::Error(_) => "E".into() }) };
    let mut d = start(move || {
        let div = DomElement::new("div"); div.add_child(DomText::new_computed(t2.to_computed()));
        for (i, c) in c2.iter().enumerate() { let v = show(c.clone());
            let v = if dep && i == 0 { let l = show(l2.clone()); Computed::from(move |x| { let a = v.get(x); if a == "L" { a } else { format!("{a}{}", l.get(x)) } }) } else { v };
            let p = DomElement::new("p"); p.add_child(DomText::new_computed(v)); div.add_child(p); }
        div.into()
    });
    let mut t = b"i".to_vec(); let mut val: Vec<Vec<u8>> = vec![b"L".to_vec(); n as usize]; let mut l = b"L".to_vec(); let mut ready = n == 0; let mut held = 0;
    let mut urls_expected = n as usize;
    let view = |t: &[u8], val: &[Vec<u8>], l: &[u8]| -> Vec<T> { let mut k = vec![tx(t)]; for (i, v) in val.iter().enumerate() { let s = if dep && i == 0 && v != b"L" { [v, l].concat() } else { v.clone() }; k.push(el("p", vec![tx(s)])); } vec![el("div", k)] };
    let verify = |d: &mut crate::domtree::Dom, ready: bool, t: &[u8], val: &[Vec<u8>], l: &[u8]| {
        if !ready { check(host(|h| h.batches) == 0, "the document is updated although requests of the initial view are pending"); }
        else if host(|h| h.batches) == 0 { check(!pending().is_empty(), "all initial requests have finished but the document is not filled"); } else { d.apply(); d.same_children(3, &view(t, val, l), "the document differs from the view after the initial requests have finished"); d.no_orphans(); }
    };
    verify(&mut d, ready, &t, &val, &l); if n == 0 { check(host(|h| h.batches) > 0, "nothing is pending but the document is not filled"); }
    run_microtasks(); verify(&mut d, ready, &t, &val, &l);
    for _ in 0..steps {
        check(host(|h| h.fetches.len()) == urls_expected, "an initial request is sent twice or not at all");
        let p = pending(); let b0 = host(|h| h.batches);
        let k = choice("op", p.len() + 2);
        if k < p.len() {
            let s = ascii("answer", 1); assume(s.as_bytes()[0] != b'L'); let how = choice("answer", 5); let ok = how == 0; let cb = host(|h| h.fetches[p[k]].cb);
            match how { 0 | 1 => respond(p[k], true, if ok { 200 } else { 500 }, V::Json(J::s(&s))), 2 => respond(p[k], false, 0, V::s("net")), 3 => { host(|h| h.fetches[p[k]].done = true); host::call(cb, &V::s("nonsense")); } _ => { host(|h| h.fetches[p[k]].done = true); host::call(cb, &V::List(vec![V::True, V::U32(200)])); } }
            let v = if ok { s.into_bytes() } else { b"E".to_vec() };
            let u = host(|h| h.fetches[p[k]].url.clone()); if u == b"/late" { l = v } else { let i = (u[1] - b'0') as usize; if dep && i == 0 && val[0] == b"L" { urls_expected += 1; reach("dependent"); } val[i] = v; }
            run_microtasks();
            if p.len() == 1 && !ready { ready = true; reach("released"); } // (requests that only start after the last answer are not waited for)
        } else if k == p.len() { let s = ascii("text", 1); let same = s.as_bytes() == t; t = s.clone().into_bytes(); text.set(s); if !ready { held += 1; reach("held"); } else { check(b0 == 0 || host(|h| h.batches) == b0 + !same as u32, "one change must be one update of the document"); } }
        else { if !ready { return; } // later requests do not hold anything back
            let Some(c) = caches.first() else { return }; if !p.is_empty() { return; } c.force_update(true); run_microtasks(); val[0] = b"L".to_vec(); urls_expected += 1; reach("later"); }
        verify(&mut d, ready, &t, &val, &l);
    }
    let _ = held; quiet_errors(); reach("end");
}
fn quiet_errors() { host(|h| check(h.panics == 0, "rendering reported an error")); }
/// F04: resources: mapping, the question-mark operator, equality.
#[no_mangle]
pub extern "C" fn h_resource(_x: u32) {
    let mk = || -> (Resource<u32>, u32, Vec<u8>, usize) { match choice("res", 3) { 0 => (Resource::Loading, 0, vec![], 0), 1 => { let v = u32("v"); (Resource::Ready(v), v, vec![], 1) } _ => { let e = ascii("e", 1); (Resource::Error(e.clone()), 0, e.into_bytes(), 2) } } };
    let (a, av, ae, ak) = mk(); let (b, bv, be, bk) = mk();
    let is = |r: &Resource<u32>, k: usize, v: u32, e: &[u8]| match r { Resource::Loading => k == 0, Resource::Ready(x) => k == 1 && *x == v, Resource::Error(x) => k == 2 && x.as_bytes() == e };
    check((a == b) == (ak == bk && av == bv && ae == be), "comparing two resources is wrong");
    check(is(&a.clone().map(|x| x ^ 5), ak, av ^ 5, &ae) && is(&a.ref_map(|x| x ^ 5), ak, av ^ 5, &ae) && is(&a.ref_clone(), ak, av, &ae), "mapping a resource changes its state");
    let both = |a: &Resource<u32>, b: &Resource<u32>| -> Resource<u32> { let x = a.clone()?; let y = b.clone()?; Resource::Ready(x ^ y) };
    let r = both(&a, &b);
    if ak != 1 { check(is(&r, ak, 0, &ae), "the question-mark operator loses the first state that is not ready"); reach("first"); } else if bk != 1 { check(is(&r, bk, 0, &be), "the question-mark operator loses the first state that is not ready"); } else { check(is(&r, 1, av ^ bv, &[]), "the question-mark operator changes a value"); reach("ready"); }
    // request bodies
    let s = ascii("s", 1);
    check(RequestBody::Json(JsJson::String(s.clone())).into::<String>() == Ok(s.clone()), "a json body is read as another value");
    check(RequestBody::Json(JsJson::Null).into::<String>().is_err() && RequestBody::Text(s.clone()).into::<String>().is_err() && RequestBody::Binary(s.into_bytes()).into::<String>().is_err(), "a body of the wrong kind is accepted");
    let (n, x) = (choice("unit", 4), int("ttl", 32, 0, u32::MAX as u64)); let q = RequestBuilder::get("/");
    let (q, f) = match n { 0 => (q.ttl_seconds(x), 1), 1 => (q.ttl_minutes(x), 60), 2 => (q.ttl_hours(x), 3600), _ => (q.ttl_days(x), 86400) };
    check(q.get_ttl() == Some(std::time::Duration::from_secs(x * f)), "a time to live is another span"); check(RequestBuilder::get("/").get_ttl().is_none(), "a request without time to live has one");
    reach("end");
}
#[allow(dead_code)] fn _u(_: Driver) { quiet() }
