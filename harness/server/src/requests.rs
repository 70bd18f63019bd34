//! Requests the application makes while its page is rendered, timers, and the moment the page is sent.
use crate::base::*;
use crate::codec::*;
use crate::dom::*;
use std::cell::RefCell;
use std::rc::Rc;
use symrt::*;
use world::{world, Answer, HeaderMap};

#[derive(Clone, PartialEq)]
struct Req { post: bool, url: Vec<u8>, header: u8, body: Option<Vec<u8>> }
#[derive(Default)]
struct Log { asked: Vec<(u64, Req)>, got: Vec<(u64, V)>, zero: Vec<u64>, zero_ran: Vec<u64>, answers: Vec<(usize, bool, u16, Vec<u8>)>, timed_out: bool }

fn ask(a: &Api, log: &Rc<RefCell<Log>>, stride: u64, cb: u64, r: Req) {
    log.borrow_mut().asked.push((cb, r.clone()));
    let headers = match r.header { 0 => obj(&[]), 1 => obj(&[("x-a", J::s("1")), ("x-b", J::s("2")), ("x-c", J::s("3")), ("x-d", J::s("4"))]), _ => obj(&[("x-d", J::s("4")), ("x-b", J::s("2")), ("x-a", J::s("1")), ("x-c", J::s("3"))]) };
    a.fetch(1 + (cb - 100) * stride, if r.post { "POST" } else { "GET" }, V::Str(r.url), headers, r.body.map_or(V::Undef, V::Str));
}
fn req(heads: bool) -> Req { if heads { return Req { post: false, url: if flag("url") { b"u".to_vec() } else { b"v".to_vec() }, header: choice("headers", 3) as u8, body: None }; } Req { post: flag("post"), url: word("url", 1, b"uv").into_bytes(), header: 0, body: if flag("body") { Some(word("b", 1, b"pq").into_bytes()) } else { None } } }
fn same_req(a: &Req, b: &Req) -> bool { a.post == b.post && a.url == b.url && (a.header == 0) == (b.header == 0) && a.body == b.body }

/// n requests issued while the page is built, possibly followed by one from an answer; every order
/// of answers, every kind of answer, or the time limit.
#[no_mangle]
pub extern "C" fn h_requests(n: usize, follow: usize, heads: usize, zero: usize) {
    let stride = [1u64, 64, 1 << 32][choice("stride", 3)]; // of the program's callback numbers
    let log = Rc::new(RefCell::new(Log::default()));
    let reqs: Vec<Req> = (0..n).map(|_| req(heads == 1)).collect();
    let fol = follow == 1 && flag("follow"); let fr = if fol { Some(req(false)) } else { None };
    let z = zero == 1 && flag("zero");
    let (l1, l2, l3) = (log.clone(), log.clone(), log.clone());
    let fr2 = fr.clone();
    program(move |a| {
        let mut c = skeleton(); for k in 0..8u64 { c.push(text(10 + k, b"-")); c.push(node(30 + k, "p")); c.push(insert(30 + k, 10 + k, None)); c.push(insert(3, 30 + k, None)); } a.dom(c);
        for (k, r) in reqs.iter().enumerate() { ask(a, &l1, stride, 100 + k as u64, r.clone()); }
        if z { l1.borrow_mut().zero.push(200); let id = a.timeout(0, 1 + 100 * stride); check(matches!(id, V::I32(_)), "a timer has no id"); a.timeout(int("delay", 32, 1, 0xffff_ffff) as u32, 1 + 101 * stride); reach("zero"); }
        Ok(())
    }, move |a, id, v| {
        check((id - 1) % stride == 0, "the server calls a callback that does not exist"); let id = 100 + (id - 1) / stride;
        if id >= 200 { check(v == V::Undef, "a timer callback gets a value"); l2.borrow_mut().zero_ran.push(id); a.dom(vec![update(17, b"z")]); return Ok(0); }
        l2.borrow_mut().got.push((id, v));
        a.dom(vec![update(10 + id - 100, b"done")]);
        if id == 100 { if let Some(r) = &fr2 { ask(a, &l2, stride, 105, r.clone()); reach("follow"); } }
        if id == 105 { if let Some(r) = &fr2 { ask(a, &l2, stride, 106, r.clone()); reach("again"); } }
        Ok(0)
    });
    world(|w| w.idle = Some(Rc::new(move || {
        let p = world::unanswered(); let s = world::pending_sleep();
        let k = choice("event", p.len() + s.is_some() as usize);
        if k < p.len() {
            let i = p[k]; let mut h = HeaderMap::new(); h.append("content-type", "text/plain".into());
            if flag("neterror") { world(|w| w.outs[i].answer = Some(Answer::NetError)); l3.borrow_mut().answers.push((i, false, 0, vec![])); reach("neterror"); }
            else { let st = int("status", 16, 100, 999) as u16; let b = bytes("answer", 1); assume(b[0] < 0x80); world(|w| w.outs[i].answer = Some(Answer::Ok(st, h, b.clone()))); l3.borrow_mut().answers.push((i, true, st, b)); }
            true
        } else if let Some(i) = s { world::fire_sleep(i); l3.borrow_mut().timed_out = true; reach("timeout"); true } else { false }
    })));
    serve(Opts::default(), move |app| {
        let r = page(app, "/");
        check(r.status == 200, "the page is an error");
        let l = log.borrow();
        // sent once per distinct request, in the order first asked
        let mut distinct: Vec<&Req> = vec![]; for (_, q) in &l.asked { if !distinct.iter().any(|d| same_req(d, q)) { distinct.push(q); } }
        let late = l.timed_out;
        world(|w| {
            check(w.outs.len() == distinct.len() || (late && w.outs.len() <= distinct.len()), "equal requests are sent more than once, or a request is not sent");
            for (o, d) in w.outs.iter().zip(&distinct) {
                check(o.method == if d.post { "POST" } else { "GET" } && o.url.as_bytes() == d.url.as_slice() && o.body == d.body, "a request reaches the network changed");
                check(d.header == 0 || (o.headers.get("x-a").map(|h| h.0.clone()) == Some(b"1".to_vec()) && o.headers.get("x-b").map(|h| h.0.clone()) == Some(b"2".to_vec())), "a header is lost");
            }
        });
        for (i, (cb, v)) in l.got.iter().enumerate() {
            check(!l.got[..i].iter().any(|g| g.0 == *cb), "a request is answered twice");
            let q = &l.asked.iter().find(|a| a.0 == *cb).unwrap().1;
            let at = distinct.iter().position(|d| same_req(d, q)).unwrap();
            match l.answers.iter().find(|a| a.0 == at) {
                None => check(false, "a request is answered before its answer came"),
                Some((_, ok, st, b)) => {
                    let want = V::List(vec![if *ok { V::True } else { V::False }, V::U32(if *ok { *st as u32 } else { 0 }), V::Str(if *ok { b.clone() } else { vec![] })]);
                    check(*v == want, "a request gets another answer than the network gave");
                }
            }
        }
        if !late {
            check(l.got.len() == l.asked.len(), "the page is sent before every request is answered"); reach("complete");
            check(l.zero_ran == l.zero, "a task put off to the end of the turn does not run once");
        } else { check(world(|w| w.now_ms) == 10000, "the page waits longer than ten seconds"); }
        // what the answers changed is in the page
        match read(&r.body) { Some(h) => {
            let body = child(&h, b"body").cloned().unwrap_or_default();
            let ps: Vec<&El> = body.kids.iter().filter_map(|k| match k { N::El(e) if e.name == b"p" => Some(e), _ => None }).collect();
            check(ps.len() == 8, "the page lacks elements");
            for (k, p) in ps.iter().enumerate() {
                let done = l.got.iter().any(|g| g.0 == 100 + k as u64); let want: &[u8] = if done { b"done" } else if k == 7 && !l.zero_ran.is_empty() { b"z" } else { b"-" };
                check(p.kids == vec![N::Text(want.to_vec())], "the page does not show what an answer changed");
            } }
            None => check(false, "the page is not well-formed html") }
        reach("end"); trace(r.body.len() as u64);
    });
}
