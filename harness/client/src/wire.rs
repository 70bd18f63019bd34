//! The boundary format and the JSON layer.
use crate::host::{self, host, V, J};
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use symrt::*;
use vertigo::{from_json, to_json, AutoJsJson, JsJson, JsValue};

const KEYS: [&str; 3] = ["a", "bc", ""];
fn gen_text(max: usize) -> Vec<u8> { let n = choice("len", max + 1); unicode("s", n, 4).into_bytes() }
pub fn gen_j(depth: usize, w: usize, text: usize) -> J {
    match choice("jkind", if depth > 0 { 7 } else { 5 }) {
        0 => J::True, 1 => J::False, 2 => J::Null, 3 => J::Str(gen_text(text)), 4 => J::Num(u64("num")),
        5 => { let n = choice("n", w + 1); J::List((0..n).map(|_| gen_j(depth - 1, w, text)).collect()) }
        _ => { let n = choice("n", w + 1); J::Obj((0..n).map(|i| (KEYS[i].as_bytes().to_vec(), gen_j(depth - 1, w, text))).collect()) }
    }
}
pub fn gen_v(depth: usize, w: usize, text: usize) -> V {
    match choice("kind", if depth > 0 { 14 } else { 11 }) {
        0 => V::U32(u32("u32")), 1 => V::I32(i32("i32")), 2 => V::U64(u64("u64")), 3 => V::I64(i64("i64")), 4 => V::F64(u64("f64")),
        5 => V::True, 6 => V::False, 7 => V::Null, 8 => V::Undef,
        9 => { let n = choice("len", text + 1); V::Vec(bytes("b", n)) }
        10 => V::Str(gen_text(text)),
        11 => { let n = choice("n", w + 1); V::List((0..n).map(|_| gen_v(depth - 1, w, text)).collect()) }
        12 => { let n = choice("n", w + 1); V::Obj((0..n).map(|i| (KEYS[i].as_bytes().to_vec(), gen_v(depth - 1, w, text))).collect()) }
        _ => V::Json(gen_j(depth - 1, w, text)),
    }
}
fn text(b: &[u8]) -> String { unsafe { String::from_utf8_unchecked(b.to_vec()) } }
pub fn js_json(j: &J) -> JsJson {
    match j { J::True => JsJson::True, J::False => JsJson::False, J::Null => JsJson::Null, J::Str(s) => JsJson::String(text(s)), J::Num(b) => JsJson::Number(f64::from_bits(*b)),
        J::List(l) => JsJson::List(l.iter().map(js_json).collect()), J::Obj(l) => { let mut m = HashMap::new(); for (k, v) in l { m.insert(text(k), js_json(v)); } JsJson::Object(m) } }
}
pub fn js_value(v: &V) -> JsValue {
    match v { V::U32(x) => JsValue::U32(*x), V::I32(x) => JsValue::I32(*x), V::U64(x) => JsValue::U64(*x), V::I64(x) => JsValue::I64(*x), V::F64(x) => JsValue::F64(f64::from_bits(*x)),
        V::True => JsValue::True, V::False => JsValue::False, V::Null => JsValue::Null, V::Undef => JsValue::Undefined, V::Vec(b) => JsValue::Vec(b.clone()), V::Str(b) => JsValue::String(text(b)),
        V::List(l) => JsValue::List(l.iter().map(js_value).collect()), V::Obj(l) => { let mut m = HashMap::new(); for (k, x) in l { m.insert(text(k), js_value(x)); } JsValue::Object(m) } V::Json(j) => JsValue::Json(js_json(j)) }
}
pub fn same_json(a: &J, b: &JsJson) -> bool {
    match (a, b) { (J::True, JsJson::True) | (J::False, JsJson::False) | (J::Null, JsJson::Null) => true, (J::Str(x), JsJson::String(y)) => x.as_slice() == y.as_bytes(), (J::Num(x), JsJson::Number(y)) => *x == y.to_bits(),
        (J::List(x), JsJson::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_json(p, q)),
        (J::Obj(x), JsJson::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(&text(k)).map_or(false, |q| same_json(v, q))), _ => false }
}
pub fn same_value(a: &V, b: &JsValue) -> bool {
    match (a, b) { (V::U32(x), JsValue::U32(y)) => x == y, (V::I32(x), JsValue::I32(y)) => x == y, (V::U64(x), JsValue::U64(y)) => x == y, (V::I64(x), JsValue::I64(y)) => x == y, (V::F64(x), JsValue::F64(y)) => *x == y.to_bits(),
        (V::True, JsValue::True) | (V::False, JsValue::False) | (V::Null, JsValue::Null) | (V::Undef, JsValue::Undefined) => true, (V::Vec(x), JsValue::Vec(y)) => x == y, (V::Str(x), JsValue::String(y)) => x.as_slice() == y.as_bytes(),
        (V::List(x), JsValue::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_value(p, q)),
        (V::Obj(x), JsValue::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(&text(k)).map_or(false, |q| same_value(v, q))), (V::Json(x), JsValue::Json(y)) => same_json(x, y), _ => false }
}
fn norm_j(j: &J) -> J { match j { J::List(l) => J::List(l.iter().map(norm_j).collect()), J::Obj(l) => { let mut l: Vec<_> = l.iter().map(|(k, v)| (k.clone(), norm_j(v))).collect(); l.sort_by(|a, b| a.0.cmp(&b.0)); J::Obj(l) } x => x.clone() } }
pub fn norm_v(v: &V) -> V { match v { V::List(l) => V::List(l.iter().map(norm_v).collect()), V::Obj(l) => { let mut l: Vec<_> = l.iter().map(|(k, v)| (k.clone(), norm_v(v))).collect(); l.sort_by(|a, b| a.0.cmp(&b.0)); V::Obj(l) } V::Json(j) => V::Json(norm_j(j)), x => x.clone() } }
fn send(v: &V) -> JsValue { vertigo::get_driver().dom_access().api().call("x", vec![js_value(v)]).fetch() }

/// B01: what the application passes arrives at the host, and what the host answers arrives back.
#[no_mangle]
pub extern "C" fn h_wire_out(depth: u32, w: u32, t: u32) {
    let v = gen_v(depth as usize, w as usize, t as usize);
    host(|h| { h.record = true; h.answer = Some(V::Undef) });
    let base = live_allocs(); let _ = base;
    let r = send(&v);
    check(matches!(r, JsValue::Undefined), "an undefined answer is decoded as something else");
    let log = host(|h| h.log.clone());
    check(log.len() == 1, "one call of the host is one message");
    let V::List(steps) = &log[0] else { check(false, "a host call is not a list"); return };
    check(steps.len() == 2 && steps[0] == V::List(vec![V::s("api")]), "the path of a host call is garbled");
    let V::List(c) = &steps[1] else { check(false, "a host call is not a list"); return };
    check(c.len() == 3 && c[0].is_str("call") && c[1].is_str("x"), "the name of a host call is garbled");
    check(norm_v(&c[2]) == norm_v(&v), "a value passed to the host arrives changed");
    match &v { V::Obj(_) => reach("object"), V::List(_) => reach("list"), V::Json(_) => reach("json"), V::Str(_) => reach("string"), _ => reach("plain") }
}
#[no_mangle]
pub extern "C" fn h_wire_in(depth: u32, w: u32, t: u32) {
    let v = gen_v(depth as usize, w as usize, t as usize);
    host(|h| { h.record = true; h.answer = Some(v.clone()) });
    let r = send(&V::Null);
    check(same_value(&v, &r), "a value answered by the host arrives changed");
    host(|h| check(h.errors == 0 && h.log.len() == 1, "decoding a well-formed value reported an error"));
    match &v { V::Obj(_) => reach("object"), V::List(_) => reach("list"), V::Json(_) => reach("json"), V::Str(_) => reach("string"), _ => reach("plain") }
}
/// B01: the answer of a callback travels to the host unchanged.
#[no_mangle]
pub extern "C" fn h_wire_echo(depth: u32, w: u32, t: u32) {
    let v = gen_v(depth as usize, w as usize, t as usize);
    // an event handler receives the host's value; the harness reads it through the callback table
    let got = std::rc::Rc::new(std::cell::RefCell::new(None)); let g2 = got.clone();
    let _d = vertigo::get_driver().websocket("h", move |m| { if let vertigo::WebsocketMessage::Message(s) = m { *g2.borrow_mut() = Some(s); } });
    let cb = host(|h| h.ws[0].1);
    let before = live_allocs();
    let r = host::call(cb, &v);
    check(r == V::Undef, "a callback without an answer must answer undefined");
    match (&v, &*got.borrow()) { (V::Str(b), Some(s)) => { check(b.as_slice() == s.as_bytes(), "a text message arrives changed"); reach("text") } (V::Str(_), None) => check(false, "a text message got lost"), (_, Some(_)) => check(false, "a value that is no text arrived as a text message"), _ => {} }
    got.borrow_mut().take();
    check(host(|h| h.errors) > 0 || live_allocs() <= before + 1, "an argument block is kept after the call");
}
/// B04: malformed blocks and unknown type prefixes never become a value; reading them never goes out of bounds silently.
#[no_mangle]
pub extern "C" fn h_wire_bad(n: u32) {
    vertigo::start_app(|| vertigo::DomNode::from(vertigo::DomElement::new("html")));
    host(|h| { h.record = false; });
    // a type prefix and a body of symbolic bytes; the high bytes of a length are zero, the low ones reach past the end
    let b = bytes("raw", n as usize);
    if n > 4 && b[0] >= 10 { assume(b[1] == 0 && b[2] == 0 && (b[0] == 13 || (b[3] == 0 && b[4] <= 16))); }
    if b[0] == 13 && n > 6 { assume(b[3] == 0 && b[4] == 0 && b[5] == 0); }
    let mut rd = host::Rd::new(&b); let m = rd.val();
    let p = host::bytes_to_wasm(&b);
    let cb = std::rc::Rc::new(std::cell::RefCell::new(0u32)); let c2 = cb.clone();
    let _d = vertigo::get_driver().websocket("h", move |x| { *c2.borrow_mut() += match x { vertigo::WebsocketMessage::Message(_) => 1, vertigo::WebsocketMessage::Connection(_) => 100, vertigo::WebsocketMessage::Close => 10000 } });
    let id = host(|h| h.ws[0].1);
    expect_panic(rd.bad); // a truncated block may stop the program, never yield a value
    let e0 = host(|h| h.errors);
    host::call_ptr(id, p);
    expect_panic(false);
    let utf8 = match &m { V::Str(s) => std::str::from_utf8(s).is_ok(), _ => true };
    let n = *cb.borrow();
    let want = if rd.bad { 0 } else { match &m { V::Str(_) if utf8 => 1, V::True => 100, V::False => 10000, _ => 0 } };
    check(n == want, "a malformed message reached the application as a value, or a well-formed one did not");
    if want == 0 { check(host(|h| h.errors) > e0, "a message that cannot be delivered is not reported"); reach("rejected") } else { reach("accepted") }
}
/// B02: equality and hashing of JSON values.
fn rebuilt(j: &JsJson) -> JsJson { match j { JsJson::Object(m) => JsJson::Object(m.iter().map(|(k, v)| (k.clone(), rebuilt(v))).collect()), JsJson::List(l) => JsJson::List(l.iter().map(rebuilt).collect()), o => o.clone() } }
struct Collect(Vec<u8>);
impl Hasher for Collect { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } }
#[no_mangle]
pub extern "C" fn h_json_eq(depth: u32, w: u32, t: u32) {
    let (a, b) = (gen_j(depth as usize, w as usize, t as usize), gen_j(depth as usize, w as usize, t as usize));
    let (x, y) = (js_json(&a), { // built in the opposite order
        fn rev(j: &J) -> JsJson { match j { J::Obj(l) => { let mut m = HashMap::new(); for (k, v) in l.iter().rev() { m.insert(text(k), rev(v)); } JsJson::Object(m) } J::List(l) => JsJson::List(l.iter().map(rev).collect()), o => js_json(o) } }
        rev(&b) });
    let same = norm_j(&a) == norm_j(&b);
    check((x == y) == same, "two JSON values compare equal although they differ, or the other way round");
    check((y == x) == same, "equality of JSON values is not symmetric");
    check(x == x.clone(), "a JSON value differs from its clone");
    if same {
        let mut p = Collect(Vec::new()); x.hash(&mut p);
        let mut again = y; // every rebuilt map has another iteration order
        for _ in 0..4 { let mut q = Collect(Vec::new()); again.hash(&mut q); check(p.0 == q.0, "equal JSON values hash differently"); again = rebuilt(&again); }
        reach("equal");
    } else { reach("different"); }
}
// ---- B03
#[derive(AutoJsJson, Clone, PartialEq, Debug)]
struct Inner { x: i32, r#type: String }
#[derive(AutoJsJson, Clone, PartialEq, Debug)]
struct Pair(u32, bool);
#[derive(AutoJsJson, Clone, PartialEq, Debug)]
struct New(String);
#[derive(AutoJsJson, Clone, PartialEq, Debug)]
enum Shape { Nothing, Other, Text(String), Tuple(i32, u32, bool), Point { x: i32, y: Option<bool> }, Nested(Inner) }
#[derive(AutoJsJson, Clone, PartialEq, Debug)]
struct Outer { id: u32, name: String, flag: Option<bool>, list: Vec<i32>, inner: Inner, shape: Shape, #[js_json(default = 7)] extra: u32 }
#[derive(AutoJsJson, Clone, PartialEq, Debug)]
struct Box2(i32, Vec<Pair>);
/// names that differ only in case, prefix or underscores
#[allow(non_snake_case)]
#[derive(AutoJsJson, Clone, PartialEq, Debug)]
struct Names { a: u32, A: u32, r#type: String, type_: String, r#fn: Option<Box2> }
#[derive(AutoJsJson, Clone, PartialEq, Debug)]
enum Twins { Ab { x: u32 }, AB { x: u32 }, A(u32), Aa(u32), On, ON, Once, Tup(u32, u32), Tup2(u32, u32), Opt(Option<u32>), All(Vec<Twins>) }
fn gen_twins() -> Twins { let x = u32("x"); match choice("twin", 11) { 0 => Twins::Ab { x }, 1 => Twins::AB { x }, 2 => Twins::A(x), 3 => Twins::Aa(x), 4 => Twins::On, 5 => Twins::ON, 6 => Twins::Once, 7 => Twins::Tup(x, u32("y")), 8 => Twins::Tup2(x, u32("y")), 9 => Twins::Opt(if flag("o") { Some(x) } else { None }), _ => Twins::All(vec![Twins::AB { x }, Twins::On]) } }
fn s(n: usize) -> String { let k = choice("len", n + 1); text(&bytes_utf8(k)) }
fn bytes_utf8(k: usize) -> Vec<u8> { ascii("s", k).into_bytes() }
fn gen_inner() -> Inner { Inner { x: i32("x"), r#type: s(1) } }
fn gen_shape() -> Shape { match choice("shape", 6) { 0 => Shape::Nothing, 1 => Shape::Other, 2 => Shape::Text(s(2)), 3 => Shape::Tuple(i32("a"), u32("b"), bool("c")), 4 => Shape::Point { x: i32("x"), y: if flag("y") { Some(bool("yv")) } else { None } }, _ => Shape::Nested(gen_inner()) } }
fn round<T: vertigo::JsJsonSerialize + vertigo::JsJsonDeserialize + Clone + PartialEq>(v: T) {
    match from_json::<T>(to_json(v.clone())) { Ok(w) => check(w == v, "a value changes when it is converted to JSON and back"), Err(_) => check(false, "a value cannot be read back from its own JSON") }
}
#[no_mangle]
pub extern "C" fn h_json_round(_x: u32) {
    match choice("type", 22) {
        14 => { let n = choice("n", 3); let mut m = HashMap::new(); for i in 0..n { m.insert(KEYS[i].to_string(), if flag("some") { Some(u32("v")) } else { None }); } round(m); }
        15 => { let n = choice("n", 3); round((0..n).map(|_| if flag("some") { Some((0..choice("m", 3)).map(|_| bool("v")).collect::<Vec<_>>()) } else { None }).collect::<Vec<_>>()); }
        16 => round(gen_twins()),
        17 => { let n = choice("n", 3); let mut m = BTreeMap::new(); for i in 0..n { m.insert(KEYS[i].to_string(), gen_twins()); } round(m); }
        18 => round(Names { a: u32("a"), A: u32("A"), r#type: s(1), type_: s(1), r#fn: if flag("f") { Some(Box2(i32("x"), vec![Pair(u32("p"), bool("q"))])) } else { None } }),
        19 => { let n = choice("n", 3); round((0..n).map(|_| gen_shape()).collect::<Vec<_>>()); }
        20 => { let y = [0, 1, 4, 99, 1970, 2024, 9999][choice("y", 7)]; let m = 1 + choice("m", 12) as u32; let d = [1, 9, 10, 28, 29, 30, 31][choice("d", 7)]; let Some(v) = chrono::NaiveDate::from_ymd_opt(y, m, d) else { return }; round(v); }
        21 => { let (y, m) = ([1, 1969, 1970, 2024, 9999][choice("y", 5)], [1, 2, 12][choice("m", 3)]); let t = [(0, 0, 0), (9, 59, 1), (12, 0, 59), (23, 59, 59)][choice("t", 4)]; let n = [0u32, 1, 1000, 500_000_000, 999_999_999][choice("n", 5)];
            let v = chrono::NaiveDate::from_ymd_opt(y, m, 28).unwrap().and_hms_nano_opt(t.0, t.1, t.2, n).unwrap().and_utc(); round(v); }
        0 => round(u32("v")), 1 => round(i32("v")),
        2 => round(int("v", 53, 0, (1 << 53) - 1)),
        3 => { let v = (int("v", 54, 0, (1 << 54) - 1) << 10) as i64 >> 10; round(v); }
        4 => round(bool("v")), 5 => round(s(2)), 6 => round(()),
        7 => round(if flag("some") { Some(u32("v")) } else { None }),
        8 => { let n = choice("n", 3); round((0..n).map(|_| i32("v")).collect::<Vec<_>>()); }
        9 => { let n = choice("n", 4); let mut m = HashMap::new(); for i in 0..n { m.insert(KEYS[i].to_string(), bool("v")); } round(m); }
        10 => { let n = choice("n", 4); let mut m = BTreeMap::new(); for i in 0..n { m.insert(KEYS[i].to_string(), Some(u32("v"))); } round(m); }
        11 => round(gen_shape()),
        12 => round(Pair(u32("a"), bool("b"))),
        _ => round(New(s(2))),
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn h_json_derive(_x: u32) {
    let v = Outer { id: u32("id"), name: s(1), flag: if flag("f") { Some(bool("fv")) } else { None }, list: (0..choice("n", 3)).map(|_| i32("l")).collect(), inner: gen_inner(), shape: gen_shape(), extra: u32("extra") };
    let j = to_json(v.clone());
    // the documented layout
    let JsJson::Object(m) = &j else { check(false, "a struct is not an object"); return };
    check(m.len() == 7, "a struct has one property per field");
    check(m.get("id") == Some(&JsJson::Number(v.id as f64)) && m.get("name") == Some(&JsJson::String(v.name.clone())), "a field is stored under another name or value");
    let sh = m.get("shape").cloned();
    let ok = match (&v.shape, &sh) {
        (Shape::Nothing, Some(JsJson::String(s))) => s == "Nothing", (Shape::Other, Some(JsJson::String(s))) => s == "Other",
        (Shape::Text(t), Some(JsJson::Object(o))) => o.len() == 1 && o.get("Text") == Some(&JsJson::String(t.clone())),
        (Shape::Tuple(a, b, c), Some(JsJson::Object(o))) => o.len() == 1 && o.get("Tuple") == Some(&JsJson::List(vec![JsJson::Number(*a as f64), JsJson::Number(*b as f64), if *c { JsJson::True } else { JsJson::False }])),
        (Shape::Point { x, .. }, Some(JsJson::Object(o))) => o.len() == 1 && matches!(o.get("Point"), Some(JsJson::Object(p)) if p.get("x") == Some(&JsJson::Number(*x as f64)) && p.len() == 2),
        (Shape::Nested(i), Some(JsJson::Object(o))) => o.len() == 1 && matches!(o.get("Nested"), Some(JsJson::Object(p)) if p.get("type") == Some(&JsJson::String(i.r#type.clone()))),
        _ => false };
    check(ok, "an enum variant is not stored in the documented layout");
    round(v.clone());
    // a missing field is an error that names it, unless it has a default
    let mut m2 = m.clone(); m2.remove("extra");
    match from_json::<Outer>(JsJson::Object(m2)) { Ok(o) => check(o.extra == 7 && o.id == v.id && o.shape == v.shape, "a missing field with a default is not filled with it"), Err(_) => check(false, "a missing field with a default is an error") }
    for k in ["id", "name", "flag", "list", "inner", "shape"] {
        let mut m3 = m.clone(); m3.remove(k);
        match from_json::<Outer>(JsJson::Object(m3)) { Ok(_) => check(false, "a missing field is accepted"), Err(e) => check(e.contains(k), "the error of a missing field does not name it") }
    }
    reach("end");
}
/// B04: any JSON value offered to any type is either accepted, then it means the same, or an error.
fn offer<T: vertigo::JsJsonDeserialize>(j: &J, ok: impl Fn(&J) -> bool, same: impl Fn(&J, &T) -> bool) {
    match from_json::<T>(js_json(j)) {
        Ok(v) => { check(ok(j), "a JSON value of another type was accepted"); check(same(j, &v), "a JSON value was read as another value"); reach("accepted") }
        Err(e) => { check(!ok(j), "a JSON value of the right type was refused"); check(e.starts_with("root"), "a decoding error does not start at the root"); reach("refused") }
    }
}
#[no_mangle]
pub extern "C" fn h_json_offer(depth: u32, w: u32) {
    let j = gen_j(depth as usize, w as usize, 1);
    let num = |j: &J| matches!(j, J::Num(_));
    let boolean = |j: &J| matches!(j, J::True | J::False);
    let list = |j: &J| if let J::List(l) = j { Some(l.clone()) } else { None };
    let obj = |j: &J| if let J::Obj(l) = j { Some(l.clone()) } else { None };
    match choice("type", 12) {
        0 => offer::<String>(&j, |j| matches!(j, J::Str(_)), |j, v| matches!(j, J::Str(s) if s.as_slice() == v.as_bytes())),
        1 => offer::<bool>(&j, boolean, |j, v| (*j == J::True) == *v),
        2 => offer::<u32>(&j, num, |j, v| { let J::Num(b) = j else { return false }; let f = f64::from_bits(*b); if f >= 0.0 && f < 4294967296.0 { let t = f as u64; *v as u64 == t } else { true } }),
        3 => offer::<i32>(&j, num, |j, v| { let J::Num(b) = j else { return false }; let f = f64::from_bits(*b); if f > -2147483649.0 && f < 2147483648.0 { let t = f as i64; *v as i64 == t } else { true } }),
        4 => offer::<u64>(&j, num, |_, _| true),
        5 => offer::<i64>(&j, num, |_, _| true),
        6 => offer::<()>(&j, |j| matches!(j, J::Obj(l) if l.is_empty()), |_, _| true),
        7 => offer::<Option<bool>>(&j, |j| boolean(j) || *j == J::Null, |j, v| match v { None => *j == J::Null, Some(b) => (*j == J::True) == *b }),
        8 => offer::<Vec<bool>>(&j, |j| list(j).map_or(false, |l| l.iter().all(boolean)), |j, v| { let l = list(j).unwrap(); l.len() == v.len() && l.iter().zip(v).all(|(a, b)| (*a == J::True) == *b) }),
        9 => offer::<HashMap<String, bool>>(&j, |j| obj(j).map_or(false, |l| l.iter().all(|x| boolean(&x.1))), |j, v| { let l = obj(j).unwrap(); l.len() == v.len() && l.iter().all(|(k, b)| v.get(&text(k)) == Some(&(*b == J::True))) }),
        10 => offer::<BTreeMap<String, bool>>(&j, |j| obj(j).map_or(false, |l| l.iter().all(|x| boolean(&x.1))), |j, v| { let l = obj(j).unwrap(); l.len() == v.len() && l.iter().all(|(k, b)| v.get(&text(k)) == Some(&(*b == J::True))) }),
        _ => offer::<Pair>(&j, |j| list(j).map_or(false, |l| l.len() == 2 && num(&l[0]) && boolean(&l[1])), |j, v| { let l = list(j).unwrap(); (l[1] == J::True) == v.1 }),
    }
}
/// B04: a valid value with one part replaced by any other JSON value is refused unless that part is of the right type.
fn fit_num(j: &J) -> bool { matches!(j, J::Num(_)) }
fn fit_str(j: &J) -> bool { matches!(j, J::Str(_)) }
fn fit_bool(j: &J) -> bool { matches!(j, J::True | J::False) }
fn fit_inner(j: &J) -> bool { matches!(j, J::Obj(_)) && j.get("x").map_or(false, fit_num) && j.get("type").map_or(false, fit_str) }
fn fit_shape(j: &J) -> bool {
    if let J::Str(s) = j { return s.as_slice() == b"Nothing" || s.as_slice() == b"Other"; }
    let J::Obj(o) = j else { return false }; if o.len() != 1 { return false; }
    match (&o[0].0[..], &o[0].1) {
        (b"Text", v) => fit_str(v), (b"Tuple", J::List(l)) => l.len() == 3 && fit_num(&l[0]) && fit_num(&l[1]) && fit_bool(&l[2]),
        (b"Point", v @ J::Obj(_)) => v.get("x").map_or(false, fit_num) && v.get("y").map_or(false, |y| *y == J::Null || fit_bool(y)), (b"Nested", v) => fit_inner(v), _ => false }
}
fn obj(l: &[(&str, J)]) -> J { J::Obj(l.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.clone())).collect()) }
fn gen_inner_j() -> J { let mut l = Vec::new(); if flag("x") { l.push(("x", gen_j(0, 0, 1))); } if flag("type") { l.push(("type", gen_j(0, 0, 1))); } obj(&l) }
fn gen_shape_j() -> J {
    match choice("form", 4) {
        0 => J::s(["Nothing", "Other", "Text", "nothing", "", "Point"][choice("name", 6)]),
        1 => gen_j(1, 1, 1),
        _ => {
            let key = ["Text", "Tuple", "Point", "Nested", "Nothing", "text"][choice("key", 6)];
            let v = match choice("payload", 5) { 0 => gen_j(0, 0, 1),
                1 => { let n = choice("n", 5); let odd = choice("odd", n + 1); let g = gen_j(0, 0, 0); J::List((0..n).map(|i| if i == odd { g.clone() } else if i == 2 { J::True } else { J::n(1.0) }).collect()) }
                2 => gen_inner_j(), 3 => { let mut l = vec![("x", gen_j(0, 0, 0))]; if flag("y") { l.push(("y", gen_j(0, 0, 0))); } obj(&l) } _ => J::List(vec![gen_j(0, 0, 1)]) };
            J::Obj(vec![(key.as_bytes().to_vec(), v)])
        }
    }
}
#[no_mangle]
pub extern "C" fn h_json_mutate(_x: u32) {
    let mut l = vec![("id", J::n(1.0)), ("name", J::s("n")), ("flag", J::Null), ("list", J::List(vec![J::n(1.0), J::n(2.0)])), ("inner", obj(&[("x", J::n(3.0)), ("type", J::s("t"))])), ("shape", J::s("Other")), ("extra", J::n(5.0))];
    let k = choice("field", 8);
    if k == 7 { // tuple structs, newtypes
        match choice("tuple", 3) {
            0 => { let n = choice("n", 4); let odd = choice("odd", n + 1); let g = gen_j(0, 0, 1); let j = J::List((0..n).map(|i| if i == odd { g.clone() } else if i == 1 { J::True } else { J::n(1.0) }).collect()); let ok = matches!(&j, J::List(l) if l.len() == 2 && fit_num(&l[0]) && fit_bool(&l[1])); offer::<Pair>(&j, |_| ok, |_, _| true) }
            1 => { let j = gen_j(1, 1, 1); offer::<New>(&j, fit_str, |j, v| matches!(j, J::Str(s) if s.as_slice() == v.0.as_bytes())) }
            _ => { let j = gen_inner_j(); offer::<Option<Inner>>(&j, fit_inner, |_, v| v.is_some()) }
        }
        reach("end"); return;
    }
    let g = match k { 3 => { let n = choice("n", 3); let odd = choice("odd", n + 1); let g = gen_j(1, 1, 0); if n == 0 { gen_j(1, 0, 1) } else { J::List((0..n).map(|i| if i == odd { g.clone() } else { J::n(1.0) }).collect()) } } 4 => if flag("obj") { gen_inner_j() } else { gen_j(1, 1, 1) }, 5 => gen_shape_j(), _ => gen_j(1, 1, 1) };
    let ok = match k { 0 => fit_num(&g), 6 => true, 1 => fit_str(&g), 2 => g == J::Null || fit_bool(&g), 3 => matches!(&g, J::List(l) if l.iter().all(fit_num)), 4 => fit_inner(&g), _ => fit_shape(&g) };
    l[k].1 = g.clone();
    offer::<Outer>(&obj(&l), |_| ok, |_, v| match (k, &v.shape, &g) {
        (1, _, J::Str(s)) => v.name.as_bytes() == s.as_slice(), (2, _, g) => v.flag == match g { J::Null => None, x => Some(*x == J::True) }, (3, _, J::List(l)) => v.list.len() == l.len(), (4, _, j) => matches!(j.get("type"), Some(J::Str(s)) if s.as_slice() == v.inner.r#type.as_bytes()),
        (5, Shape::Nothing, J::Str(s)) => s.as_slice() == b"Nothing", (5, Shape::Other, J::Str(s)) => s.as_slice() == b"Other", (5, Shape::Text(_), j) => j.get("Text").is_some(), (5, Shape::Tuple(_, _, c), j) => matches!(j.get("Tuple"), Some(J::List(l)) if (l[2] == J::True) == *c), (5, Shape::Point { .. }, j) => j.get("Point").is_some(), (5, Shape::Nested(_), j) => j.get("Nested").is_some(), (5, ..) => false, (6, ..) => (v.extra == 7) || fit_num(&g), _ => true } && v.shape.clone() == if k == 5 { v.shape.clone() } else { Shape::Other });
    reach("end");
}
/// B01: lengths that need every byte of their length field.
#[no_mangle]
pub extern "C" fn h_wire_long(_x: u32) {
    let n = [255usize, 256, 300, 65535, 65536, 70000][choice("size", 6)];
    let kind = choice("kind", 8);
    if n > 300 && (kind == 3 || kind == 4 || kind == 6 || kind == 7) { return; }
    let mut b = vec![b'x'; n]; let (p, q) = (u8("first") & 0x7f, u8("last") & 0x7f); b[0] = p; b[n - 1] = q;
    let keys = || (0..n).map(|i| format!("k{i}").into_bytes());
    let v = match kind {
        0 => V::Str(b), 1 => V::Vec(b), 2 => V::Json(J::Str(b)),
        3 => V::List((0..n).map(|i| V::U32(i as u32)).collect()),
        4 => V::Json(J::List((0..n).map(|i| J::n(i as f64)).collect())),
        5 => V::Obj(vec![(vec![b'k'; n], V::U32(u32("val")))]),
        6 => V::Obj(keys().map(|k| (k, V::True)).collect()),
        _ => V::Json(J::Obj(keys().map(|k| (k, J::False)).collect())),
    };
    host(|h| { h.record = true; h.answer = Some(v.clone()) });
    let r = send(&v);
    check(same_value(&v, &r), "a value answered by the host arrives changed");
    let log = host(|h| h.log.clone()); check(log.len() == 1, "one call of the host is one message");
    let V::List(steps) = &log[0] else { check(false, "a host call is not a list"); return };
    let V::List(c) = &steps[1] else { check(false, "a host call is not a list"); return };
    check(norm_v(&c[2]) == norm_v(&v), "a value passed to the host arrives changed");
    reach("end");
}
