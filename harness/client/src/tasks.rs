//! Callbacks, memory blocks, timers, spawned tasks, host services.
use crate::host::{self, fire_timer, host, live_timers, V, J};
use std::{cell::{Cell, RefCell}, future::Future, pin::Pin, rc::Rc, task::Poll};
use symrt::*;
use vertigo::{get_driver, DropResource, FutureBox, FutureBoxSend, WebsocketMessage, Value};

fn log_on() { vertigo::start_app(|| vertigo::DomNode::from(vertigo::DomElement::new("html"))); }
/// B05: callbacks of the host reach the live callback they name, exactly once, and nothing else.
#[no_mangle]
pub extern "C" fn h_callbacks(steps: u32, spontaneous: u32) {
    log_on();
    struct Reg { id: u64, log: Rc<RefCell<Vec<Vec<u8>>>>, drop: Rc<RefCell<Option<DropResource>>>, exp: Vec<Vec<u8>> }
    let mut regs: Vec<Reg> = Vec::new();
    let new = |own: bool| -> Reg {
        let log = Rc::new(RefCell::new(Vec::new())); let drop = Rc::new(RefCell::new(None::<DropResource>)); let (l, d) = (log.clone(), drop.clone());
        let own_data = [0x5au64, 0xa5]; // captured by value: it must outlive the run in which the callback releases itself
        let r = get_driver().websocket("h", move |m| { if let WebsocketMessage::Message(s) = m { l.borrow_mut().push(s.into_bytes()); if own { let h = d.borrow_mut().take(); std::mem::drop(h); } let x = std::hint::black_box(&own_data); check(x[0] == 0x5a && x[1] == 0xa5, "a callback that releases itself loses its data while it runs"); } });
        *drop.borrow_mut() = Some(r);
        Reg { id: host(|h| h.ws.last().unwrap().1), log, drop, exp: Vec::new() }
    };
    regs.push(new(false)); regs.push(new(spontaneous == 1));
    check(regs[0].id != regs[1].id, "two callbacks share one id");
    for _ in 0..steps {
        match choice("op", 4) {
            0 => { let k = choice("k", regs.len()); let own = spontaneous == 1 && k == 1; let live = regs[k].drop.borrow().is_some(); let b = vec![u8("m") & 0x7f];
                let e = host(|h| h.errors); let r = host::call(regs[k].id, &V::Str(b.clone()));
                check(r == V::Undef, "a callback without an answer must answer undefined");
                if live { regs[k].exp.push(b); check(host(|h| h.errors) == e, "calling a live callback is reported as an error"); reach("called"); if own { check(regs[k].drop.borrow().is_none(), "a callback cannot release itself"); reach("self-drop"); } } else { check(host(|h| h.errors) > e, "calling a released callback is not reported"); reach("dead"); } }
            1 => { let k = choice("k", regs.len()); let d = regs[k].drop.borrow_mut().take(); if d.is_none() { return; } std::mem::drop(d); reach("dropped"); }
            2 => { let r = new(false); for q in &regs { check(q.id != r.id, "two callbacks share one id"); } regs.push(r); }
            _ => { let e = host(|h| h.errors); let top = regs.iter().map(|r| r.id).max().unwrap(); host::call(top + 1000, &V::s("x")); check(host(|h| h.errors) > e, "calling an unknown callback is not reported"); }
        }
        for r in &regs { check(*r.log.borrow() == r.exp, "a callback ran for a message that was not its own, ran twice, or was skipped"); }
    }
}
/// B05: argument blocks are handed out disjoint, consumed once and returned.
#[no_mangle]
pub extern "C" fn h_blocks(n: u32) {
    log_on();
    let got = Rc::new(Cell::new(0u32)); let g = got.clone();
    let _d = get_driver().websocket("h", move |m| if let WebsocketMessage::Message(s) = m { g.set(s.len() as u32) });
    let id = host(|h| h.ws[0].1);
    for _ in 0..2 { host::call(id, &V::s("xy")); let p = vertigo::alloc(3); vertigo::free(p); let q = vertigo::alloc(5); let r = vertigo::alloc(5); vertigo::free(q); vertigo::free(r); vertigo::free(r); }
    for _ in 0..6 { let q = vertigo::alloc(9); vertigo::free(q); }
    let blocks0: Vec<u32> = (0..n).map(|_| vertigo::alloc(4)).collect(); for b in &blocks0 { vertigo::free(*b); }
    drop(blocks0);
    let base = live_allocs();
    let mut blocks: Vec<(u32, u32, u8)> = Vec::new();
    for _ in 0..n { let size = 1 + choice("size", 3) as u32 * 7; let p = vertigo::alloc(size); let v = u8("fill");
        for i in 0..size { unsafe { *((p + i) as usize as *mut u8) = v } }
        for (q, s, _) in &blocks { check(p + size <= *q || q + s <= p, "two live argument blocks overlap"); }
        blocks.push((p, size, v)); }
    for (p, s, v) in &blocks { for i in 0..*s { check(unsafe { *((p + i) as usize as *const u8) } == *v, "an argument block lost its contents"); } }
    while !blocks.is_empty() {
        let k = choice("k", blocks.len()); let (p, s, _) = blocks.remove(k);
        if s >= 6 && flag("use") { // the block becomes the argument of a call: a 1-character text message
            let m = [11u8, 0, 0, 0, 1, b'a']; unsafe { std::ptr::copy_nonoverlapping(m.as_ptr(), p as usize as *mut u8, 6) };
            got.set(0); host::call_ptr(id, p); check(got.get() == 1, "a callback did not receive its argument"); reach("used");
        } else { vertigo::free(p); }
        let e = host(|h| h.errors); vertigo::free(p); check(host(|h| h.errors) == e + 1, "releasing a block twice is not reported");
    }
    drop(blocks);
    check(live_allocs() == base, "argument blocks are not returned");
    reach("end");
}

struct Yield(u32);
impl Future for Yield { type Output = (); fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<()> { if self.0 == 0 { Poll::Ready(()) } else { self.0 -= 1; cx.waker().wake_by_ref(); cx.waker().clone().wake(); Poll::Pending } } }
struct Join(Option<FutureBox<u32>>, Option<FutureBox<()>>, u32);
impl Future for Join { type Output = u32; fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<u32> {
    if let Some(f) = self.0.as_mut() { if let Poll::Ready(v) = Pin::new(f).poll(cx) { self.2 = v; self.0 = None; } }
    if let Some(f) = self.1.as_mut() { if let Poll::Ready(()) = Pin::new(f).poll(cx) { self.1 = None; } }
    if self.0.is_none() && self.1.is_none() { Poll::Ready(self.2) } else { Poll::Pending } } }
fn spawn_one(kind: usize, f: FutureBox<u32>, out: Rc<RefCell<Vec<u32>>>, ms: u32) {
    let d = get_driver();
    match kind {
        0 => d.spawn(async move { let v = f.await; out.borrow_mut().push(v); }),
        1 => d.spawn(async move { d.sleep(ms).await; let v = f.await; out.borrow_mut().push(v); }),
        2 => d.spawn(async move { let v = f.await; d.sleep(ms).await; out.borrow_mut().push(v); }),
        3 => { let s = d.sleep(ms); d.spawn(async move { let v = Join(Some(f), Some(s), 0).await; out.borrow_mut().push(v); }) }
        4 => d.spawn(async move { Yield(2).await; let v = f.await; Yield(1).await; out.borrow_mut().push(v); }),
        6 => { // looked at by one task, awaited by another
            let shared = Rc::new(RefCell::new(Some(f))); let s1 = shared.clone(); let early = Rc::new(Cell::new(None)); let e1 = early.clone();
            d.spawn(async move { std::future::poll_fn(move |cx| { if let Some(f) = s1.borrow_mut().as_mut() { if let Poll::Ready(v) = Pin::new(f).poll(cx) { e1.set(Some(v)); } } Poll::Ready(()) }).await; });
            d.spawn(async move { get_driver().sleep(ms).await; let f = shared.borrow_mut().take().unwrap(); let v = match early.get() { Some(v) => v, None => f.await }; out.borrow_mut().push(v); }) }
        _ => d.spawn(async move { let (tx, rx) = FutureBox::new(); get_driver().spawn(async move { let v = f.await; tx.publish(v); }); let v = rx.await; out.borrow_mut().push(v); }),
    }
}
/// B06: whatever the order of timers and results, every spawned task finishes exactly once.
#[no_mangle]
pub extern "C" fn h_tasks(n: u32, steps: u32) {
    let mut tx: Vec<Option<FutureBoxSend<u32>>> = Vec::new(); let mut outs = Vec::new(); let mut vals = Vec::new();
    for _ in 0..n { let (s, f) = FutureBox::new(); let out = Rc::new(RefCell::new(Vec::new())); let k = choice("kind", 7); spawn_one(k, f, out.clone(), 5); tx.push(Some(s)); outs.push(out); vals.push(u32("value")); }
    for o in &outs { check(o.borrow().is_empty(), "a task finished before its result exists"); }
    for _ in 0..steps {
        let t = live_timers(); let k = choice("next", t.len() + n as usize);
        if k < t.len() { fire_timer(t[k]); reach("timer"); } else { let i = k - t.len(); if let Some(s) = tx[i].take() { s.publish(vals[i]); } else { return; } }
        for i in 0..n as usize { let o = outs[i].borrow(); check(o.len() <= 1, "a task finished twice"); if tx[i].is_some() { check(o.is_empty(), "a task finished before its result exists"); } }
    }
    for i in 0..n as usize { if let Some(s) = tx[i].take() { s.publish(vals[i]); } }
    for _ in 0..40 { let t = live_timers(); if t.is_empty() { break; } let k = if t.len() > 1 && steps < 3 { choice("drain", 2) * (t.len() - 1) } else { 0 }; fire_timer(t[k]); }
    check(live_timers().is_empty(), "timers never drain");
    for i in 0..n as usize { let o = outs[i].borrow(); check(o.len() == 1, "a spawned task never finished although everything it waits for has happened"); check(o[0] == vals[i], "a task received another result"); }
    host(|h| check(h.errors == 0 && h.panics == 0, "running tasks reported an error"));
    reach("end");
}
/// B06: a finished task leaves nothing behind.
#[no_mangle]
pub extern "C" fn h_task_release(_x: u32) {
    let kind = choice("kind", 7);
    let round = |k: usize| { let (s, f) = FutureBox::new(); let out = Rc::new(RefCell::new(Vec::new())); spawn_one(k, f, out.clone(), 5);
        if flag("early") { s.publish(1); }  else { for _ in 0..4 { let t = live_timers(); if let Some(x) = t.first() { fire_timer(*x); } } s.publish(1); }
        for _ in 0..40 { let t = live_timers(); if t.is_empty() { break; } fire_timer(t[0]); } check(out.borrow().len() == 1, "a spawned task never finished although everything it waits for has happened"); host(|h| h.timers.clear()); };
    for _ in 0..3 { round(kind); }
    let base = live_allocs(); round(kind); check(live_allocs() == base, "a finished task is not released"); reach("end");
}
/// B06: timers: durations, repetition, cancelling.
#[no_mangle]
pub extern "C" fn h_timers(steps: u32) {
    let d = get_driver(); let n = Rc::new(Cell::new(0u32)); let n2 = n.clone(); let ms = u32("ms");
    let mut res = Some(d.set_interval(ms, move || n2.set(n2.get() + 1)));
    host(|h| { check(h.timers.len() == 1 && h.timers[0].repeat && h.timers[0].ms == ms, "an interval is registered with another period"); });
    let other = Rc::new(Cell::new(0u32)); let o2 = other.clone();
    let _keep = d.set_interval(7, move || o2.set(o2.get() + 1));
    let ms2 = u32("ms"); let done = Rc::new(Cell::new(0u32)); let d2 = done.clone(); let sleep = d.sleep(ms2);
    host(|h| check(h.timers.len() == 3 && !h.timers[2].repeat && h.timers[2].ms == ms2, "a sleep is registered with another duration"));
    d.spawn(async move { sleep.await; d2.set(d2.get() + 1); });
    let (mut en, mut eo, mut slept) = (0, 0, false);
    for _ in 0..steps {
        match choice("op", 4) {
            0 => { // the host may still deliver a tick it had queued
                let cb = host(|h| h.timers[0].cb); host::call(cb, &V::Undef); if res.is_some() { en += 1; } else { reach("late"); } }
            1 => { fire_timer(1); eo += 1; }
            2 => { if res.is_none() { return; } res = None; host(|h| check(!h.timers[0].live && h.timers[1].live, "cancelling an interval clears another timer or none")); reach("cancelled"); }
            _ => { if slept { return; } fire_timer(2); slept = true; host::run_microtasks(); }
        }
        check(n.get() == en, "an interval ran after it was cancelled, or missed a tick"); check(other.get() == eo, "cancelling one interval disturbed another");
        if !slept { check(done.get() == 0, "a sleeping task continued before its time"); }
    }
    if !slept { fire_timer(2); } host::run_microtasks();
    check(done.get() == 1, "a sleeping task never continued");
    reach("end");
}
/// B07: host services are asked for what the application asked for and their answers come back.
#[no_mangle]
pub extern "C" fn h_services(_x: u32) {
    log_on(); let d = get_driver();
    let ask = |a: V| host(|h| { h.record = true; h.log.clear(); h.answer = Some(a); });
    // the call named `name` on `path`, with its arguments
    let last = |path: &[&str], name: &str| -> Vec<V> {
        let l = host(|h| { h.record = false; h.log.clone() }); check(l.len() == 1, "a host service is not asked exactly once");
        let V::List(st) = &l[0] else { check(false, "a host call is not a list"); return Vec::new() };
        check(st.len() == path.len() + 1, "a host service is asked under another name");
        for (s, p) in st.iter().zip(path.iter()) { let V::List(x) = s else { check(false, "a host call is not a list"); return Vec::new() }; check(x.last().map_or(false, |v| v.is_str(p)), "a host service is asked under another name"); }
        let V::List(c) = st.last().unwrap() else { check(false, "a host call is not a list"); return Vec::new() };
        check(c[0].is_str("call") && c[1].is_str(name), "a host service is asked under another name"); c[2..].to_vec()
    };
    let name = ascii("name", 2); let val = ascii("val", 2);
    match choice("service", 12) {
        0 => { ask(V::s("cv")); let r = d.cookie_get(&name); check(r == "cv" && last(&["api", "cookie"], "get") == vec![V::s(&name)], "reading a cookie returns another cookie or value"); }
        1 => { let e = u64("exp"); host(|h| h.cookies.clear()); d.cookie_set(&name, &val, e); host(|h| check(h.cookies.len() == 1 && h.cookies[0].0 == name.as_bytes() && h.cookies[0].1 == V::s(&val), "a cookie is stored under another name or value"));
               host(|h| { h.server = true; h.cookies.clear() }); d.cookie_set(&name, &val, e); host(|h| check(h.cookies.is_empty(), "the server renders a cookie write")); }
        2 => { let e = u64("exp"); ask(V::Undef); d.cookie_set_json(&name, vertigo::JsJson::String(val.clone()), e); check(last(&["api", "cookie"], "set_json") == vec![V::s(&name), V::Json(J::s(&val)), V::U64(e)], "a cookie is stored under another name, value or lifetime"); }
        3 => { host(|h| h.cookies.push((name.clone().into_bytes(), V::Json(J::s(&val))))); check(d.cookie_get_json(&name) == vertigo::JsJson::String(val.clone()), "reading a cookie returns another cookie or value");
               host(|h| h.cookies.clear()); check(d.cookie_get_json(&name) == vertigo::JsJson::Null, "a missing cookie is not null"); }
        4 => { let k = flag("there"); host(|h| if k { h.env.push((name.clone().into_bytes(), val.clone().into_bytes())) }); let r = d.env(name.clone()); check(r == if k { Some(val.clone()) } else { None }, "an environment variable has another value"); }
        5 => { let (lo, hi) = (u32("lo"), u32("hi")); let a = u32("rnd"); ask(V::I32(a as i32)); let r = d.get_random(lo, hi); check(r == a && last(&["api"], "getRandom") == vec![V::U32(lo), V::U32(hi)], "a random number is not drawn from the requested range"); }
        6 => { let l = [u32("e"), u32("e"), u32("e")]; let n = choice("n", 4); if n == 0 { check(d.get_random_from::<u32>(&[]).is_none(), "choosing from nothing gives something"); } else { let a = choice("idx", n); ask(V::I32(a as i32)); let r = d.get_random_from(&l[..n]); check(r == Some(l[a]) && last(&["api"], "getRandom") == vec![V::U32(0), V::U32(n as u32 - 1)], "choosing from a list misses an element or leaves the list"); } }
        7 => { let m = int("m", 16, 0, 2000) as i32 - 1000; ask(V::I32(m)); check(d.timezone_offset() == -m * 60, "the time zone offset is wrong"); }
        8 => { let t = int("t", 53, 0, (1 << 53) - 1); ask(V::I64(t as i64)); check(d.utc_now() == t as i64, "the clock is garbled"); ask(V::F64((t as f64).to_bits())); check(d.utc_now() == t as i64, "the clock is garbled"); last(&["window", "Date"], "now"); }
        9 => { let (t0, t1) = (int("t0", 42, 0, (1 << 42) - 1), int("t1", 42, 0, (1 << 42) - 1)); assume(t0 <= t1); ask(V::I64(t0 as i64)); let i = d.now(); ask(V::I64(t1 as i64)); check(i.elapsed() == t1 - t0, "elapsed time is not the difference of the two instants"); check(i.seconds_elapsed() == (t1 - t0) / 1000, "elapsed seconds are wrong");
               let dl = int("dur", 14, 0, 16383); let j = i.add_duration(std::time::Duration::from_millis(dl)); check(j.instant == t0 + dl, "a deadline is wrong"); check(j.is_expire() == (t1 > t0 + dl), "a deadline expires early or late"); check(i.refresh().instant == t1, "a refreshed instant is not now"); }
        10 => { ask(V::Undef); d.history_replace(&val); check(last(&["api", "historyLocation"], "replace") == vec![V::s(&val)], "replacing the address replaces it by another"); ask(V::Undef); d.history_back(); last(&["window", "history"], "back"); }
        _ => { // plain responses are produced on the server only, for the current address
            let mut d = d; let v2 = val.clone(); d.plains(move |u| if u.len() == 2 { Some([u, v2.as_str()].concat()) } else { None });
            host(|h| h.path = name.clone().into_bytes()); d.try_get_plain(); check(host(|h| h.plain.clone()).is_none(), "a browser produced a plain response"); check(d.is_browser() && !d.is_server(), "the platform is reported wrong");
            host(|h| h.server = true); check(!d.is_browser() && d.is_server(), "the platform is reported wrong"); d.try_get_plain(); check(host(|h| h.plain.clone()) == Some([name.as_bytes(), val.as_bytes()].concat()), "the plain response of the current address is missing or wrong");
            host(|h| { h.plain = None; h.path = b"x".to_vec() }); d.try_get_plain(); check(host(|h| h.plain.clone()).is_none(), "an address without plain response produced one"); }
    }
    reach("end");
}
/// G07: event emitters call every live listener exactly once, in order of registration.
#[no_mangle]
pub extern "C" fn h_emitter(steps: u32) {
    // public face: end-of-transaction hooks and interval handles
    let d = get_driver(); let log = Rc::new(RefCell::new(Vec::new())); let v = Value::new(0u32);
    type Hooks = Rc<RefCell<Vec<Option<DropResource>>>>; let hooks: Hooks = Rc::new(RefCell::new(Vec::new()));
    /// 0 plain, 1 removes the next live hook when it runs (once), 2 removes the one before, 3 registers another one (once), 4 removes itself, 5 runs a transaction (once)
    fn add(kind: usize, hooks: &Hooks, log: &Rc<RefCell<Vec<usize>>>, v: &Value<u32>) {
        let (h, l, v) = (hooks.clone(), log.clone(), v.clone()); let id = hooks.borrow().len(); let armed = Cell::new(true);
        let r = get_driver().on_after_transaction(move || {
            l.borrow_mut().push(id); if !armed.replace(false) { return; }
            match kind {
                1 => { let x = { let mut b = h.borrow_mut(); let n = b.len(); (id + 1..n).find(|k| b[*k].is_some()).and_then(|k| b[k].take()) }; drop(x); }
                2 => { let x = { let mut b = h.borrow_mut(); (0..id).rev().find(|k| b[*k].is_some()).and_then(|k| b[k].take()) }; drop(x); }
                3 => add(0, &h, &l, &v),
                4 => { let x = h.borrow_mut()[id].take(); drop(x); }
                5 => v.set(5),
                _ => {}
            }
        });
        hooks.borrow_mut().push(Some(r));
    }
    let mut kinds: Vec<(usize, bool)> = Vec::new();
    for _ in 0..steps {
        match choice("op", 3) {
            0 => { let kind = choice("kind", 6); add(kind, &hooks, &log, &v); kinds.push((kind, true)); }
            1 => { let n = hooks.borrow().len(); if n == 0 { return; } let k = choice("k", n); let x = hooks.borrow_mut()[k].take(); if x.is_none() { return; } drop(x); }
            _ => {
                log.borrow_mut().clear();
                // the oracle: the hooks alive when the transaction ends, in order, skipping those removed meanwhile
                let mut alive: Vec<bool> = hooks.borrow().iter().map(|h| h.is_some()).collect(); let mut want = Vec::new();
                fn fire(alive: &mut Vec<bool>, kinds: &mut Vec<(usize, bool)>, want: &mut Vec<usize>) {
                    let list: Vec<usize> = (0..alive.len()).filter(|k| alive[*k]).collect();
                    for k in list { if !alive[k] { reach("removed-meanwhile"); continue; } want.push(k); if !kinds[k].1 { continue; } kinds[k].1 = false;
                        match kinds[k].0 { 1 => if let Some(j) = (k + 1..alive.len()).find(|j| alive[*j]) { alive[j] = false; }, 2 => if let Some(j) = (0..k).rev().find(|j| alive[*j]) { alive[j] = false; },
                            3 => { alive.push(true); kinds.push((0, true)); } 4 => alive[k] = false, 5 => fire(alive, kinds, want), _ => {} } }
                }
                fire(&mut alive, &mut kinds, &mut want);
                v.set(u32("v")); check(*log.borrow() == want, "an end-of-transaction hook was skipped, repeated, or ran after it was removed"); reach("fired");
            }
        }
    }
    let left = std::mem::take(&mut *hooks.borrow_mut()); drop(left); log.borrow_mut().clear(); v.set(9); check(log.borrow().is_empty(), "an end-of-transaction hook ran after it was removed");
    let n = Rc::new(Cell::new(0u32)); let n2 = n.clone(); let r = DropResource::new(move || n2.set(n2.get() + 1));
    check(n.get() == 0, "a release action ran early");
    if flag("off") { r.off(); } else { drop(r); } check(n.get() == 1, "a release action must run exactly once");
    reach("end");
}
