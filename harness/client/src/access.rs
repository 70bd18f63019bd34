//! Direct access to the host's objects, log records, panics; closures that capture (bind!, bind_rc!, bind_spawn!); tuples and generic values.
use crate::{domview::start, host::{self, host, run_microtasks, J, V}, wire::{gen_v, js_value, norm_v, same_value}};
use std::{cell::{Cell, RefCell}, collections::HashMap, rc::Rc};
use symrt::*;
use vertigo::{self, bind, bind_rc, bind_spawn, computed_tuple, document, get_driver, transaction, window, Computed, Context, DomElement, DropResource, JsValue, Reactive, ToComputed, Value};

const A: &str = "the host is asked for something else than the program wrote";
fn ask(a: V) { host(|h| { h.record = true; h.log.clear(); h.answer = Some(a); }) }
fn asked() -> Vec<V> { host(|h| { h.record = false; h.log.iter().map(norm_v).collect() }) }
fn step(v: Vec<V>) -> V { V::List(v) }
/// B08: a chain of steps reaches the host as written and its answer comes back.
#[no_mangle]
pub extern "C" fn h_access(steps: u32, rich: u32) {
    let mut a = get_driver().dom_access(); let mut want = Vec::new();
    for _ in 0..steps {
        let name = ascii("name", 1); let n = V::s(&name);
        match choice("step", 7) {
            0 => { a = a.api(); want.push(step(vec![V::s("api")])); }
            1 => { a = a.root(name); want.push(step(vec![V::s("root"), n])); }
            2 => { a = a.get(name); want.push(step(vec![V::s("get"), n])); }
            3 => { let v = some_v(rich); a = a.set(name, js_value(&v)); want.push(step(vec![V::s("set"), n, v])); reach("set"); }
            4 => { let k = choice("args", 3); let l: Vec<V> = (0..k).map(|i| if i == 0 { some_v(rich) } else { V::U32(u32("arg")) }).collect(); a = a.call(name, l.iter().map(js_value).collect()); let mut s = vec![V::s("call"), n]; s.extend(l); want.push(step(s)); reach("call"); }
            5 => { let p = ascii("prop", 1); let k = choice("props", 3); let l = [name.as_str(), p.as_str()]; a = a.get_props(&l[..k]); let mut s = vec![V::s("get_props")]; s.extend(l[..k].iter().map(|x| V::s(x))); want.push(step(s)); }
            _ => { a = a.synthetic(name, JsValue::from(p_str())); want.push(step(vec![n])); want.push(V::s(&p_str())); }
        }
    }
    let want = norm_v(&V::List(want));
    if flag("exec") {
        let ans = [V::Undef, V::Null, V::U32(1), V::True, V::s("x"), V::List(vec![])][choice("answer", 6)].clone();
        ask(ans.clone()); a.exec(); check(asked() == vec![want], A);
        host(|h| check(if ans == V::Undef { h.panics == 0 } else { h.panics == 1 }, "an unexpected answer of the host is not reported, or an expected one is")); reach("exec");
    } else {
        let ans = some_v(rich); ask(ans.clone()); let r = a.fetch(); check(asked() == vec![want], A); check(same_value(&ans, &r), "the host's answer is not what the program receives"); host(|h| check(h.panics == 0, A));
    }
    reach("end");
}
fn some_v(rich: u32) -> V { if rich == 1 { gen_v(1, 1, 1) } else { match choice("v", 4) { 0 => V::Undef, 1 => V::U32(u32("u")), 2 => V::s(&ascii("t", 1)), _ => V::List(vec![V::I64(i64("l"))]) } } }
fn p_str() -> String { "plain".into() }
/// B08: window!, document!, element references.
#[no_mangle]
pub extern "C" fn h_access_macro(_x: u32) {
    let ans = gen_v(0, 0, 1); let s = ascii("s", 1); let (i, l, u, ul, f, b) = (i32("i"), i64("l"), u32("u"), u64("ul"), f64("f"), flag("b"));
    let root = |n: &str| step(vec![V::s("root"), V::s(n)]); let get = |n: &str| step(vec![V::s("get"), V::s(n)]);
    let call = |n: &str, a: Vec<V>| { let mut s = vec![V::s("call"), V::s(n)]; s.extend(a); step(s) }; let jb = |b: bool| if b { V::True } else { V::False };
    match choice("what", 9) {
        7 => { ask(V::Undef); window!(r"data"); check(asked() == vec![step(vec![root("window"), get("data")])], A); ask(V::Undef); document!(r#"a"b"#); check(asked() == vec![step(vec![root("document"), get("a\"b")])], A);
               ask(V::Undef); window!("\u{41}\t\\"); check(asked() == vec![step(vec![root("window"), get("A\t\\")])], A); reach("raw"); }
        0 => { ask(ans.clone()); let r = window!("innerWidth"); check(same_value(&ans, &r), "the host's answer is not what the program receives"); check(asked() == vec![step(vec![root("window"), get("innerWidth")])], A); }
        1 => { ask(ans.clone()); let r = document!("title"); check(same_value(&ans, &r), "the host's answer is not what the program receives"); check(asked() == vec![step(vec![root("document"), get("title")])], A); }
        2 => { ask(ans.clone()); let r = window!("fn_1()", s.as_str(), i, l, u, ul, f, b, -5, "x", 2.5); check(same_value(&ans, &r), "the host's answer is not what the program receives");
               check(asked() == vec![step(vec![root("window"), call("fn_1", vec![V::s(&s), V::I32(i), V::I64(l), V::U32(u), V::U64(ul), V::F64(f.to_bits()), jb(b), V::I32(-5), V::s("x"), V::F64(2.5f64.to_bits())])])], A); }
        3 => { ask(ans.clone()); let r = document!("close()"); check(same_value(&ans, &r), "the host's answer is not what the program receives"); check(asked() == vec![step(vec![root("document"), call("close", vec![])])], A);
               ask(V::Undef); document!("createEvent()", s.clone()); check(asked() == vec![step(vec![root("document"), call("createEvent", vec![V::s(&s)])])], A); }
        4 => { // small integers keep their value; objects keep their members
               let (i8_, i16_, u8_, u16_) = (i as i8, i as i16, u as u8, u as u16); ask(V::Undef); window!("f()", i8_, i16_, u8_, u16_, l as isize, ul as usize);
               check(asked() == vec![step(vec![root("window"), call("f", vec![V::I32(i8_ as i32), V::I32(i16_ as i32), V::U32(u8_ as u32), V::U32(u16_ as u32), V::I64(l as isize as i64), V::U64(ul as usize as u64)])])], A); }
        5 => { let mut m = HashMap::new(); m.insert("k".to_string(), JsValue::from(u)); let n = JsValue::Null;
               ask(V::Undef); window!("f()", m, vec![("a", JsValue::from(b)), ("b", n.clone())], vec![("c".to_string(), JsValue::string_option(if b { Some(s.clone()) } else { None }))], JsValue::bool(b));
               check(asked() == vec![step(vec![root("window"), call("f", vec![V::Obj(vec![(b"k".to_vec(), V::U32(u))]), V::Obj(vec![(b"a".to_vec(), jb(b)), (b"b".to_vec(), V::Null)]), V::Obj(vec![(b"c".to_vec(), if b { V::s(&s) } else { V::Null })]), jb(b)])])], A); }
        _ => { // a reference to an element names the element's node
               let refs = Rc::new(RefCell::new(Vec::new())); let r2 = refs.clone(); let n = choice("n", 3);
               let d = start(move || { let e = DomElement::new("div"); for k in ["i0", "i1", "i2"] { let c = DomElement::new(k); r2.borrow_mut().push(c.get_ref()); e.add_child(c); } e.into() });
               let id = d.find(["i0", "i1", "i2"][n]); let r = refs.borrow()[n].clone(); let base = step(vec![V::s("root"), V::U64(id)]);
               ask(ans.clone()); let v = r.dom_access().get("value").fetch(); check(same_value(&ans, &v), "the host's answer is not what the program receives"); check(asked() == vec![step(vec![base.clone(), get("value")])], "a reference to an element names another node");
               ask(V::Undef); r.dom_access().get("style").set(s.clone(), JsValue::from(u)).exec(); check(asked() == vec![step(vec![base.clone(), get("style"), step(vec![V::s("set"), V::s(&s), V::U32(u)])])], "a reference to an element names another node");
               ask(V::Undef); r.dom_access().call("focus", vec![]).exec(); check(asked() == vec![step(vec![base, call("focus", vec![])])], "a reference to an element names another node");
               check(r == refs.borrow()[n] && r != refs.borrow()[(n + 1) % 3], "references to different elements are equal"); reach("ref"); }
    }
    host(|h| check(h.panics == 0, A)); reach("end");
}
/// B08: log records and the panic message reach the host.
#[no_mangle]
pub extern "C" fn h_log(_x: u32) {
    start(|| DomElement::new("div").into()); let s = ascii("text", 2); let n = u32("n"); let k = choice("level", 6);
    if k == 5 { host(|h| h.panic_has = Some(format!("stop {s}").into_bytes())); real_panic(); panic!("stop {s}"); }
    ask(V::Undef); let line = match k { 0 => { log::error!("{s}/{}", n as u8 & 1); line!() } 1 => { log::warn!("{s}/{}", n as u8 & 1); line!() } 2 => { log::info!("{s}/{}", n as u8 & 1); line!() } 3 => { log::debug!("{s}/{}", n as u8 & 1); line!() } _ => { log::trace!("{s}"); line!() } };
    let l = asked(); let msg = "a log record does not reach the console of its level with its text";
    if k == 4 { check(l.is_empty(), msg); reach("trace"); return; }
    check(l.len() == 1, msg); let Some(V::List(st)) = l.first() else { check(false, msg); return };
    check(st.len() == 3 && st[0] == step(vec![V::s("root"), V::s("window")]) && st[1] == step(vec![V::s("get"), V::s("console")]), msg);
    let V::List(c) = &st[2] else { check(false, msg); return };
    check(c.len() == 6 && c[0].is_str("call") && c[1].is_str(["error", "warn", "info", "log"][k]), msg);
    let text = c[2].as_str(); let level = ["ERROR", "WARN", "INFO", "DEBUG"][k];
    let mut head = format!("%c{level}%c src/access.rs:{line}%c ").into_bytes(); head.extend_from_slice(s.as_bytes()); head.extend_from_slice(if n & 1 == 1 { b"/1" } else { b"/0" }); check(text == head, msg);
    check(c[3..].iter().all(|x| matches!(x, V::Str(_))), msg); host(|h| check(h.panics == 0, msg)); reach("end");
}
/// M02: closures made by bind!, bind_rc! and bind_spawn! see the values their names had, every time they run.
#[no_mangle]
pub extern "C" fn h_bind(_x: u32) {
    struct Inner { value: u32, name: String } struct State { inner: Inner, count: Value<u32> }
    let (x, y) = (u32("x"), u32("y")); let s = ascii("s", 1); let st = State { inner: Inner { value: x, name: s.clone() }, count: Value::new(y) }; let m = "a closure sees other values than the ones that were bound";
    let out: Rc<RefCell<Vec<(u32, String)>>> = Rc::new(RefCell::new(vec![])); let mut rounds = 2;
    let get = |v: &Value<u32>| transaction(|c| v.get(c));
    match choice("form", 10) {
        9 => { // a bound name hides what it was read from, for the bindings after it only
            #[derive(Clone)] struct In { value: u32, name: u32 } struct Out { inner: In } let inner = In { value: x, name: y }; let other = Out { inner: In { value: y ^ 1, name: x ^ 1 } };
            let f = bind!(inner.value, other.inner, || -> (u32, u32, u32) { (value, inner.value, inner.name) }); check(f() == (x, y ^ 1, x ^ 1), m);
            let f = bind!(other.inner, inner.value, || -> (u32, u32) { (value, inner.name) }); check(f() == (y ^ 1, x ^ 1), m);
            let f = bind_rc!(inner.value, inner.name, other.inner, |k: u32| -> u32 { value ^ name ^ inner.value ^ k }); check(f(3) == x ^ y ^ (y ^ 1) ^ 3, m); rounds = 0; }
        0 => { let f = bind!(x, s, || -> (u32, String) { (x, s.clone()) }); for _ in 0..2 { check(f() == (x, s.clone()), m); } rounds = 0; }
        1 => { let f = bind!(st.inner.value, st.inner.name, |k: u32, t: &str| -> (u32, String) { (value.wrapping_add(k), format!("{name}{t}")) }); for _ in 0..2 { check(f(y, "z") == (x.wrapping_add(y), format!("{s}z")), m); } rounds = 0; }
        2 => { let f = bind_rc!(st.inner.value, out, |k: u32| { out.borrow_mut().push((value ^ k, String::new())); }); let g: Rc<dyn Fn(u32)> = f.clone(); g(y); f(y); check(*out.borrow() == vec![(x ^ y, String::new()), (x ^ y, String::new())], m); rounds = 0; }
        3 => { let f = bind_rc!(s, x, |a: u32, b: String| -> String { if a == x { b } else { s.clone() } }); check(f(x, "q".into()) == "q", m); check(f(x ^ 1, "q".into()) == s, m); rounds = 0; }
        4 => { let f = bind!(out, s, x, bind!(out, s, || out.borrow_mut().push((x, s.clone())))); f(); f(); }
        5 => { let f = bind_spawn!(out, s, x, async move { out.borrow_mut().push((x, s)); }); f(); f(); check(out.borrow().is_empty(), "a spawned closure runs before it is its turn"); run_microtasks(); }
        6 => { let count = st.count.clone(); let f = bind!(count, || { let c = get_driver(); c.transaction(|ctx| { let v = count.get(ctx); count.set(v.wrapping_add(1)); }) }); f(); f(); check(get(&st.count) == y.wrapping_add(2), m); rounds = 0; }
        7 => { let f = bind_spawn!(st.inner.value, out, s, async move { get_driver().sleep(1).await; out.borrow_mut().push((value, s)); }); f(); f(); run_microtasks(); check(out.borrow().is_empty(), "a spawned closure runs before it is its turn"); for i in host::live_timers() { host::fire_timer(i); } run_microtasks(); }
        _ => { let f = bind!(x, |a: u32| { let g = bind!(x, a, |b: u32| -> u32 { x ^ a ^ b }); g }); check(f(y)(7) == x ^ y ^ 7, m); rounds = 0; }
    }
    let _ = &st; check(*out.borrow() == vec![(x, s.clone()); rounds] || rounds == 0, m); reach("end");
}
/// G-level helpers: tuples, mapped and generic values follow their sources.
#[no_mangle]
pub extern "C" fn h_tuple(steps: u32) {
    let a = Value::new(0u32); let b: Value<String> = Value::default(); let pair = (Value::new(1u8), Computed::from({ let a = a.clone(); move |c| a.get(c) ^ 5 })); let m = "a derived value differs from a fresh computation";
    let (a2, b2) = (a.clone(), b.clone()); let t2 = computed_tuple!(a2, b2); let t3 = computed_tuple!(x => pair.0, y => pair.1, z => b); let len = b.map(|s| s.len()); let twice = t3.map(|t| (t.1, t.0)); let same: Computed<u32> = (&a).to_computed(); let same2 = ToComputed::to_computed(&same);
    let seen = Rc::new(RefCell::new(Vec::new())); let s2 = seen.clone(); let every = Rc::new(Cell::new(0u32)); let e2 = every.clone(); let released = Rc::new(Cell::new(0u32)); let r2 = released.clone();
    let sub = t2.clone().subscribe(move |v| { s2.borrow_mut().push(v); let r = r2.clone(); DropResource::new(move || r.set(r.get() + 1)) }); let held = Rc::new(RefCell::new(Vec::<u32>::new())); let h2 = held.clone();
    let all = len.clone().subscribe_all(move |_| { let k = e2.get() + 1; e2.set(k); h2.borrow_mut().push(k); let h = h2.clone(); DropResource::new(move || h.borrow_mut().retain(|x| *x != k)) });
    let (mut ca, mut cb, mut cp) = (0u32, String::new(), 1u8); let (mut want, mut sets) = (vec![(0u32, String::new())], 1u32);
    for _ in 0..steps {
        fn write<R: Reactive<u32>>(r: &R, v: u32, how: usize) { if how == 0 { r.set(v) } else { r.change(|x| *x ^= v) } }
        fn read<R: Reactive<u32>>(r: &R, c: &Context) -> u32 { r.get(c) }
        match choice("op", 4) {
            0 => { let v = u32("a"); let h = choice("how", 2); write(&a, v, h); let n = if h == 0 { v } else { ca ^ v }; if n != ca { want.push((n, cb.clone())); reach("changed"); } ca = n; check(transaction(|c| read(&a, c)) == ca, m); }
            1 => { let n = choice("b", 3); cb = ["", "x", "yy"][n].into(); let old = want.last().unwrap().1.clone(); b.set(cb.clone()); if old != cb { want.push((ca, cb.clone())); } sets += 1; }
            2 => { let n = choice("b", 3); let s: String = ["", "x", "yy"][n].into(); b.set_value_and_compare(s.clone()); if s != cb { want.push((ca, s.clone())); sets += 1; } cb = s; }
            _ => { cp = u8("p"); pair.0.set(cp); }
        }
        transaction(|c| { check(t2.get(c) == (ca, cb.clone()), m); check(t3.get(c) == (cp, ca ^ 5, cb.clone()), m); check(len.get(c) == cb.len(), m); check(twice.get(c) == (ca ^ 5, cp), m); check(same.get(c) == ca && same2.get(c) == ca, m); });
        check(*seen.borrow() == want, "a subscriber misses a change or hears of one that is none"); check(every.get() == sets, "a subscriber to everything misses a write"); check(released.get() as usize == want.len() - 1 && *held.borrow() == vec![sets], "what a subscriber made for an old value is not released exactly once");
    }
    let n = seen.borrow().len(); drop(sub); check(released.get() as usize == n, "what a subscriber made is not released when it ends"); drop(all); check(held.borrow().is_empty(), "what a subscriber made is not released when it ends"); a.set(ca ^ 1); b.set("q".into()); check(seen.borrow().len() == n && every.get() == sets, "a subscriber hears of changes after it ended"); reach("end");
}
