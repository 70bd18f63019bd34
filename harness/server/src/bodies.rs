//! How requests and answers are translated between the application and HTTP.
use crate::base::*;
use crate::codec::*;
use std::cell::RefCell;
use std::rc::Rc;
use symrt::*;
use world::{world, Answer, HeaderMap, HeaderValue};

/// Reference JSON reader (RFC 8259, the subset with at most \uXXXX below the surrogates).
struct P<'a>(&'a [u8], usize, bool);
impl<'a> P<'a> {
    fn ws(&mut self) { while self.1 < self.0.len() && matches!(self.0[self.1], b' ' | b'\n' | b'\t' | b'\r') { self.1 += 1; } }
    fn lit(&mut self, s: &[u8]) -> Option<()> { if self.0.len() - self.1 >= s.len() && &self.0[self.1..self.1 + s.len()] == s { self.1 += s.len(); Some(()) } else { None } }
    fn hex(&mut self) -> Option<u32> { let mut v = 0; for _ in 0..4 { let c = *self.0.get(self.1)?; self.1 += 1; v = v * 16 + (c as char).to_digit(16)?; } Some(v) }
    fn string(&mut self) -> Option<Vec<u8>> {
        self.lit(b"\"")?; let mut o = vec![];
        loop {
            let c = *self.0.get(self.1)?; self.1 += 1;
            if c == b'"' { return Some(o); }
            if c < 0x20 { return None; }
            if c != b'\\' { o.push(c); continue; }
            let e = *self.0.get(self.1)?; self.1 += 1;
            match e { b'n' => o.push(10), b't' => o.push(9), b'r' => o.push(13), b'b' => o.push(8), b'f' => o.push(12), b'"' | b'\\' | b'/' => o.push(e),
                b'u' => { let v = self.hex()?; let mut b = [0; 4]; o.extend_from_slice(char::from_u32(v)?.encode_utf8(&mut b).as_bytes()) } _ => return None }
        }
    }
    fn number(&mut self, strict: bool) -> Option<f64> {
        let s = self.1; while self.1 < self.0.len() && matches!(self.0[self.1], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') { self.1 += 1; }
        let t = std::str::from_utf8(&self.0[s..self.1]).ok()?; let v: f64 = t.parse().ok()?;
        // whole numbers are written without a fraction, as JSON.stringify does
        if strict && v.fract() == 0.0 && v.abs() < 1e15 { check(!t.contains('.') && !t.contains('e') && t != "-0", "a whole number is sent as a fraction"); }
        Some(v)
    }
    fn val(&mut self) -> Option<J> {
        self.ws(); let c = *self.0.get(self.1)?;
        let v = match c {
            b'{' => { self.1 += 1; let mut l = vec![]; self.ws(); if self.lit(b"}").is_some() { J::Obj(l) } else { loop { self.ws(); let k = self.string()?; self.ws(); self.lit(b":")?; l.push((k, self.val()?)); self.ws(); if self.lit(b",").is_none() { self.lit(b"}")?; break J::Obj(l); } } } }
            b'[' => { self.1 += 1; let mut l = vec![]; self.ws(); if self.lit(b"]").is_some() { J::List(l) } else { loop { l.push(self.val()?); self.ws(); if self.lit(b",").is_none() { self.lit(b"]")?; break J::List(l); } } } }
            b'"' => J::Str(self.string()?),
            b't' => { self.lit(b"true")?; J::True } b'f' => { self.lit(b"false")?; J::False } b'n' => { self.lit(b"null")?; J::Null }
            _ => J::n({ let s = self.2; self.number(s)? }),
        };
        self.ws(); Some(v)
    }
}
fn parse(b: &[u8], strict: bool) -> Option<J> { let mut p = P(b, 0, strict); let v = p.val()?; if p.1 == b.len() { Some(v) } else { None } }
fn eqj(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Num(x), J::Num(y)) => f64::from_bits(*x) == f64::from_bits(*y) || x == y,
        (J::List(x), J::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| eqj(p, q)),
        (J::Obj(x), J::Obj(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.iter().any(|(l, w)| k == l && eqj(v, w))),
        _ => a == b,
    }
}
const NUMS: [f64; 10] = [0.0, 1.0, -1.0, 1.5, -0.25, 1e300, 1700000000000.0, 9007199254740991.0, f64::NAN, f64::INFINITY];
fn json(n: usize, depth: usize) -> (J, J) { // value, and what JSON can say of it
    let same = |j: J| (j.clone(), j);
    match choice("json", if depth == 0 { 5 } else { 7 }) {
        0 => same(J::True), 1 => same(J::False), 2 => same(J::Null),
        3 => { let v = NUMS[choice("num", NUMS.len())]; if v.is_finite() { same(J::n(v)) } else { reach("notnumber"); (J::n(v), J::Null) } }
        4 => same(J::Str(unicode("str", n, 2).into_bytes())),
        5 => { let (a, b) = json(n, 0); let (c, d) = if flag("two") { json(1, 0) } else { (J::True, J::True) }; reach("list"); (J::List(vec![a, c]), J::List(vec![b, d])) }
        _ => { let (a, b) = json(n, 0); let k = word("key", 1, b"k\"\\").into_bytes(); reach("object"); (J::Obj(vec![(k.clone(), a)]), J::Obj(vec![(k, b)])) }
    }
}

/// One request: what reaches the network.
#[no_mangle]
pub extern "C" fn h_send(n: usize, depth: usize) {
    let kind = choice("bodykind", 4);
    let (v, want): (V, J) = match kind { 0 => (V::Undef, J::Null), 1 => { let t = unicode("text", n, 3).into_bytes(); (V::Str(t.clone()), J::Str(t)) } 2 => { let b = bytes("bin", n); (V::Vec(b.clone()), J::Str(b)) } _ => { let (a, b) = json(n, depth); (V::Json(a), b) } };
    let m = ["GET", "POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS"][choice("method", if kind == 0 { 7 } else { 3 })];
    let names = ["Accept", "content-type", "Content-Type", " X-Y "]; let h = choice("header", 5);
    let hv = word("hv", 1, b"aB/;").into_bytes(); let hv2 = hv.clone();
    let url = word("url", 2, b"/a?&=%").into_bytes(); let u2 = url.clone();
    program(move |a| { a.dom(skeleton()); a.fetch(7, m, V::Str(u2.clone()), if h < 4 { obj(&[(names[h], J::Str(hv2.clone()))]) } else { obj(&[]) }, v.clone()); Ok(()) }, |_, _, _| Ok(0));
    world(|w| w.idle = Some(Rc::new(|| { let p = world::unanswered(); if p.is_empty() { return false; } world(|w| w.outs[p[0]].answer = Some(Answer::NetError)); true })));
    serve(Opts::default(), move |app| {
        page(app, "/");
        world(|w| {
            check(w.outs.len() == 1, "one request, one message"); let o = &w.outs[0];
            check(o.method == m && o.url.as_bytes() == url.as_slice(), "method or address changed");
            let own = h == 1 || h == 2;
            let ct = o.headers.get("content-type").map(|h| h.0.clone());
            check(o.headers.0.iter().filter(|x| x.0 == "content-type").count() <= 1, "two content types");
            let want_ct: Option<&[u8]> = if own { Some(&hv) } else { match kind { 1 => Some(b"text/plain; charset=utf-8"), 3 => Some(b"application/json; charset=utf-8"), _ => None } };
            check(ct.as_deref() == want_ct, "wrong content type");
            if h == 0 { check(o.headers.get("accept").map(|x| x.0.clone()) == Some(hv.clone()), "a header is lost"); }
            if h == 3 { check(o.headers.get("x-y").map(|x| x.0.clone()) == Some(hv.clone()), "a header is lost"); }
            match (kind, &o.body) {
                (0, None) => reach("none"),
                (1 | 2, Some(b)) => { check(J::Str(b.clone()) == want, "the body is changed"); reach("raw") }
                (3, Some(b)) => match parse(b, true) { Some(j) => { check(eqj(&j, &want), "the json body says something else"); reach("json") } None => check(false, "the json body is not json") },
                _ => check(false, "a body is dropped or invented"),
            }
        });
        reach("end"); 
    });
}

/// One answer: what the application is told.
#[no_mangle]
pub extern "C" fn h_answer(n: usize) {
    let got: Rc<RefCell<Vec<V>>> = Rc::new(RefCell::new(vec![])); let g2 = got.clone();
    program(move |a| { a.dom(skeleton()); a.fetch(7, "GET", V::s("/x"), obj(&[]), V::Undef); Ok(()) }, move |_, id, v| { check(id == 7, "another callback is called"); g2.borrow_mut().push(v); Ok(0) });
    let types: [Option<&[u8]>; 10] = [None, Some(b"application/json"), Some(b"Application/JSON; charset=utf-8"), Some(b"text/plain"), Some(b" text/plain ;x"), Some(b"text/html"), Some(b"application/json5"), Some(b"x; application/json"), Some(b"text/plain\xff"), Some(b"")];
    let t = choice("type", types.len()); let class = match t { 1 | 2 => 1, 3 | 4 => 2, _ => 0 };
    let body: Vec<u8> = match choice("body", 4) {
        0 => { let b = bytes("raw", n); if class == 1 { for c in &b { assume(!(*c >= b'0' && *c <= b'9') && *c != b'-'); } } b }
        1 => { let s = word("js", 1, b"a\"\\{\x01").into_bytes(); [b"{\"k\":[1,\"".as_slice(), &s, b"\",null]}"].concat() }
        2 => [b" ".as_slice(), ["0", "-1", "1.5", "12345678901234567890", "-9007199254740993", "1e3", "01", "true", "nul"][choice("num", 9)].as_bytes(), b"\n"].concat(),
        _ => { let b = unicode("text", n, 3).into_bytes(); if class == 1 { for c in &b { assume(!(*c >= b'0' && *c <= b'9') && *c != b'-'); } } b }
    };
    let how = choice("how", 3); let status = int("status", 16, 100, 999) as u16;
    let b2 = body.clone();
    world(|w| w.idle = Some(Rc::new(move || { let p = world::unanswered(); if p.is_empty() { return false; }
        let mut h = HeaderMap::new(); if let Some(t) = types[t] { h.append("content-type", HeaderValue(t.to_vec())); }
        world(|w| w.outs[p[0]].answer = Some(match how { 0 => Answer::NetError, 1 => Answer::BodyError(status, h), _ => Answer::Ok(status, h, b2.clone()) })); true })));
    serve(Opts::default(), move |app| {
        let r = page(app, "/"); check(r.status == 200, "the page fails");
        let l = got.borrow(); check(l.len() == 1, "a request is answered once");
        let V::List(a) = &l[0] else { check(false, "an answer is a list"); return };
        check(a.len() == 3, "an answer has three parts");
        let utf8 = std::str::from_utf8(&body).is_ok();
        let js = if class == 1 && how == 2 { if utf8 { parse_any(&body) } else { None } } else { None };
        let fails = how < 2 || (class == 2 && !utf8) || (class == 1 && js.is_none());
        if fails { check(a[0] == V::False && a[1] == V::U32(0), "a failed request is reported as answered"); reach("failed"); }
        else {
            check(a[0] == V::True && a[1] == V::U32(status as u32), "the status is not the one of the answer");
            match class {
                1 => { let V::Json(j) = &a[2] else { check(false, "a json answer is not json"); return }; check(eqj(j, js.as_ref().unwrap()), "a json answer says something else"); reach("json"); }
                2 => { check(a[2] == V::Str(body.clone()), "a text answer is changed"); reach("text"); }
                _ => { check(a[2] == V::Vec(body.clone()), "a binary answer is changed"); reach("binary"); }
            }
        }
        reach("end"); trace(a[0].clone().eq(&V::True) as u64);
    });
}
/// Long texts and bytes in both directions.
#[no_mangle]
pub extern "C" fn h_long(sizes: usize) {
    let n = [4095usize, 4096, 4097, 65535, 65536, 70001][choice("size", sizes)]; let (a, z) = (word("first", 1, b"ab"), word("last", 1, b"yz"));
    let t = [a.as_bytes(), &vec![b'm'; n - 2], z.as_bytes()].concat(); let bin = flag("binary");
    let got: Rc<RefCell<Vec<V>>> = Rc::new(RefCell::new(vec![])); let g2 = got.clone(); let (t1, t2, t3) = (t.clone(), t.clone(), t.clone());
    program(move |a| { a.dom({ let mut c = skeleton(); c.extend([node(4, "p"), text(5, &t1), insert(4, 5, None), insert(3, 4, None)]); c });
        check(a.api(&[V::List(vec![V::s("call"), V::s("get_env"), V::s("k")])]) == V::Str(t1.clone()), "a long setting arrives changed");
        a.fetch(7, "POST", V::s("/x"), obj(&[]), if bin { V::Vec(t1.clone()) } else { V::Str(t1.clone()) }); Ok(()) }, move |_, _, v| { g2.borrow_mut().push(v); Ok(0) });
    world(|w| w.idle = Some(Rc::new(move || { let p = world::unanswered(); if p.is_empty() { return false; } let mut h = HeaderMap::new(); h.append("content-type", if bin { "image/png" } else { "text/plain" }.into());
        world(|w| { check(w.outs[p[0]].body.as_deref() == Some(&t2[..]), "a long body is sent changed"); w.outs[p[0]].answer = Some(Answer::Ok(200, h, t2.clone())) }); true })));
    serve(Opts { env: vec![("k".into(), String::from_utf8(t3).unwrap())], ..Opts::default() }, move |app| {
        let r = page(app, "/"); check(r.status == 200, "the page fails");
        check(crate::dom::find(&r.body, &t[..8]).is_some() && crate::dom::find(&r.body, &t[n - 8..]).is_some() && r.body.len() > 2 * n, "a long text is not in the page");
        let l = got.borrow(); check(l.len() == 1 && l[0] == V::List(vec![V::True, V::U32(200), if bin { V::Vec(t.clone()) } else { V::Str(t.clone()) }]), "a long answer arrives changed");
        reach("end");
    });
}
fn parse_any(b: &[u8]) -> Option<J> {
    // leading zeros are not JSON
    let t: Vec<u8> = b.iter().copied().filter(|c| !matches!(c, b' ' | b'\n')).collect();
    if t.len() > 1 && t[0] == b'0' && t[1].is_ascii_digit() { return None; }
    parse(b, false)
}
