//! Routers and web sockets.
use crate::host::{self, host, V};
use std::{cell::{Cell, RefCell}, rc::Rc};
use symrt::*;
use vertigo::{get_driver, router::Router, transaction, Computed, DropResource, Reactive, ToComputed, Value, WebsocketConnection, WebsocketMessage};

/// A route that forgets part of the location, as routes do.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Route { Page(u8), Other }
impl From<String> for Route { fn from(s: String) -> Self { match s.as_bytes() { [b'/', b'p', c] => Route::Page(*c), _ => Route::Other } } }
#[allow(clippy::to_string_trait_impl)]
impl ToString for Route { fn to_string(&self) -> String { match self { Route::Page(c) => unsafe { String::from_utf8_unchecked(vec![b'/', b'p', *c]) }, Route::Other => "/404".to_string() } } }
fn loc() -> Vec<u8> { match choice("location", 3) { 0 => Vec::new(), 1 => b"/x".to_vec(), _ => vec![b'/', b'p', u8("page") & 0x7f] } }
fn route(l: &[u8]) -> Route { match l { [b'/', b'p', c] => Route::Page(*c), _ => Route::Other } }
/// R01: while something observes it, a router's value is the route of the current location.
#[no_mangle]
pub extern "C" fn h_router(steps: u32) {
    let hist = flag("history");
    let l0 = loc(); let other = vec![b'/', b'p', b'o'];
    host(|h| if hist { h.path = l0.clone(); h.hash = other.clone(); } else { h.hash = l0.clone(); h.path = other.clone(); });
    let r: Router<Route> = if hist { if flag("default") { Router::default() } else { Router::new_history_router() } } else { Router::new_hash_router() };
    let r2 = r.clone(); let bystander: Router<Route> = if hist { Router::new_hash_router() } else { Router::new_history_router() };
    let side: Rc<RefCell<Vec<Route>>> = Rc::default(); let s2 = side.clone(); let _by = bystander.to_computed().subscribe(move |v| s2.borrow_mut().push(v));
    let comp: Computed<Route> = if flag("mapped") { let r = r.clone(); Computed::from(move |c| r.get(c)) } else { r.to_computed() };
    let mut cur = l0.clone();       // location of the browser
    let mut val = route(&l0);       // what the router shows
    let mut sub: Option<DropResource> = None; let log: Rc<RefCell<Vec<Route>>> = Rc::default(); let mut pushed = 0; let mut seen: Vec<Route> = Vec::new();
    for _ in 0..steps {
        macro_rules! go { ($n:expr) => {{ cur = $n; let v = route(&cur); if v != val { val = v; if sub.is_some() { seen.push(v); } } }} }
        match choice("op", 5) {
            0 => { let v = if flag("other") { Route::Other } else { Route::Page(u8("page") & 0x7f) }; let how = choice("how", 3);
                match how { 0 => r.set(v), 1 => Reactive::set(&r2, v), _ => transaction(|_| r2.set(v)) }
                pushed += 1; go!(v.to_string().into_bytes()); reach("set"); }
            1 => { let got = Cell::new(None); let k = u8("page") & 0x7f;
                let f = |x: &mut Route| { got.set(Some(*x)); *x = match *x { Route::Page(c) => Route::Page(c ^ k), Route::Other => Route::Page(k) }; };
                Reactive::change(&r, f);
                check(got.get() == Some(val), "changing a route starts from another route");
                let Some(g) = got.get() else { check(false, "changing a route does not run the change"); return };
                let v = match g { Route::Page(c) => Route::Page(c ^ k), Route::Other => Route::Page(k) };
                pushed += 1; go!(v.to_string().into_bytes()); reach("change"); }
            2 => { let l = loc(); let s = unsafe { std::str::from_utf8_unchecked(&l) }; if hist { host::set_path(s) } else { host::set_hash(s) } go!(l.clone()); reach("browser"); }
            3 => { if sub.is_some() { sub = None; reach("unsub"); } else { seen.clear(); log.borrow_mut().clear(); let l = log.clone(); sub = Some(comp.clone().subscribe(move |v| l.borrow_mut().push(v))); seen.push(val); reach("sub"); } }
            _ => { let v = transaction(|x| r.get(x)); check(v == val, "a router has another route than its location"); reach("read"); }
        }
        host(|h| check(h.path_cb.len() <= 1 && h.hash_cb.len() <= 1, "a router listens twice"));
        if sub.is_some() { check(*log.borrow() == seen, "subscribers of a router see other routes than the locations visited"); check(transaction(|x| r2.get(x)) == val, "clones of a router differ"); }
        else if !log.borrow().is_empty() && log.borrow().len() > seen.len() { check(false, "a subscriber of a router is called after it left"); }
        host(|h| { check(h.pushed == pushed, "setting a route does not push exactly one location"); check(if hist { h.path == cur && h.hash == other } else { h.hash == cur && h.path == other }, "setting a route leads to another location"); check(h.replaced == 0 && h.errors == 0, "a router reported an error"); });
        check(*side.borrow() == [Route::Page(b'o')], "a router follows the other kind of location");
    }
    check(r == r2, "clones of a router are not equal");
    drop((_by, sub, comp, r, r2, bystander)); host(|h| check(h.path_cb.is_empty() && h.hash_cb.is_empty(), "a released router still listens to the location"));
    reach("end");
}

/// W01: a web socket delivers what the host reports, in order, to its own handler, until it is dropped.
#[no_mangle]
pub extern "C" fn h_ws(steps: u32) {
    #[derive(Clone, PartialEq, Debug)] enum Ev { Open, Msg(Vec<u8>), Close }
    struct Ws { id: u64, log: Rc<RefCell<Vec<Ev>>>, exp: Vec<Ev>, conn: Rc<RefCell<Option<WebsocketConnection>>>, drop: Option<DropResource> }
    let mut all: Vec<Ws> = Vec::new(); let mut sent: Vec<(u64, Vec<u8>)> = Vec::new();
    vertigo::start_app(|| vertigo::DomNode::from(vertigo::DomElement::new("html"))); let echo = flag("echo"); // the handler answers from inside, and changes a value
    let val = Value::new(0u32); let hits = Rc::new(Cell::new(0)); let h2 = hits.clone(); let _s = val.to_computed().subscribe(move |_| h2.set(h2.get() + 1));
    let open = |k: usize| -> Ws {
        let url = ["ws://h", &k.to_string(), &ascii("url", 1)].concat();
        let log: Rc<RefCell<Vec<Ev>>> = Rc::default(); let conn: Rc<RefCell<Option<WebsocketConnection>>> = Rc::default(); let (l, c, v) = (log.clone(), conn.clone(), val.clone());
        let d = get_driver().websocket(url.clone(), move |m| match m {
            WebsocketMessage::Connection(x) => { if echo { x.send("hello"); } *c.borrow_mut() = Some(x); l.borrow_mut().push(Ev::Open); }
            WebsocketMessage::Message(s) => { if echo { if let Some(x) = &*c.borrow() { x.clone().send(s.clone()); } v.change(|x| *x += 1); } l.borrow_mut().push(Ev::Msg(s.into_bytes())); }
            WebsocketMessage::Close => { c.borrow_mut().take(); l.borrow_mut().push(Ev::Close); } });
        let id = host(|h| { let w = h.ws.last(); check(w.is_some_and(|w| w.0 == url.as_bytes()), "a web socket is opened to another address"); w.map_or(0, |w| w.1) });
        Ws { id, log, exp: Vec::new(), conn, drop: Some(d) }
    };
    all.push(open(0)); all.push(open(1)); let mut msgs = 0;
    for _ in 0..steps {
        let k = choice("k", 2);
        match choice("op", 6) {
            0 => { let live = all[k].drop.is_some(); let e = host(|h| h.errors); host::call(all[k].id, &V::True); if live { all[k].exp.push(Ev::Open); if echo { sent.push((all[k].id, b"hello".to_vec())); } check(all[k].conn.borrow().is_some(), "an opened web socket has no connection"); } check((host(|h| h.errors) > e) != live, "a message for a closed web socket must be reported, one for an open socket not"); reach("open"); }
            1 => { let live = all[k].drop.is_some(); let e = host(|h| h.errors); let m = unicode("msg", 1, 2); host::call(all[k].id, &V::Str(m.clone().into_bytes())); if live { all[k].exp.push(Ev::Msg(m.clone().into_bytes())); if echo { msgs += 1; if all[k].conn.borrow().is_some() { sent.push((all[k].id, m.into_bytes())); } } } check((host(|h| h.errors) > e) != live, "a message for a closed web socket must be reported, one for an open socket not"); reach("message"); }
            2 => { let live = all[k].drop.is_some(); host::call(all[k].id, &V::False); if live { all[k].exp.push(Ev::Close); reach("close"); } }
            3 => { let c = all[k].conn.borrow().clone(); let Some(c) = c else { return }; let m = unicode("send", 1, 2); c.send(m.clone()); sent.push((all[k].id, m.into_bytes())); reach("sent"); }
            4 => { if all[k].drop.take().is_none() { return; } host(|h| check(!h.ws.iter().any(|w| w.1 == all[k].id), "a dropped web socket stays open")); let j = 1 - k; host(|h| check(h.ws.iter().any(|w| w.1 == all[j].id) == all[j].drop.is_some(), "dropping a web socket closes another one")); reach("dropped"); }
            _ => { let e = host(|h| h.errors); let live = all[k].drop.is_some(); host::call(all[k].id, &match choice("odd", 3) { 0 => V::Null, 1 => V::U32(u32("n")), _ => V::List(vec![V::True]) }); if live { check(host(|h| h.errors) == e + 1, "a malformed web socket message is not reported"); } reach("odd"); }
        }
        for w in &all { check(*w.log.borrow() == w.exp, "a web socket's handler ran for events that were not its own, or missed some"); }
        host(|h| check(h.ws_sent == sent, "messages sent through a web socket reach the host changed or through another socket"));
        check(hits.get() == 1 + msgs, "a change made by a web socket's handler is not one transaction");
        let (a, b) = (all[0].conn.borrow().clone(), all[1].conn.borrow().clone()); if let (Some(a), Some(b)) = (&a, &b) { check(a != b && *a == a.clone(), "connections of two web sockets are equal"); }
    }
    reach("end");
}
