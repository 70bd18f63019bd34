//! What the program is told about its surroundings, which program answers a url, and the proxies.
use crate::base::*;
use crate::codec::*;
use crate::dom::*;
use std::cell::RefCell;
use std::rc::Rc;
use symrt::*;
use world::{world, Answer, HeaderMap, HeaderValue};

/// Every question of the program about its surroundings.
#[no_mangle]
pub extern "C" fn h_surroundings(n: usize) {
    let url = [b"/".as_slice(), word("url", n, b"ab/?&=%.~-").as_bytes()].concat(); let u1 = url.clone();
    let key = word("key", 1, b"kl"); let ask = word("ask", 1, b"kl"); let val = if flag("empty") { String::new() } else { unicode("val", 1, 3) };
    let same = key == ask; let (ask2, val2) = (ask.clone(), val.clone());
    let now = 1_700_000_000_000u64 + int("now", 16, 0, 65535); world(|w| w.now_ms = now);
    let seen: Rc<RefCell<Vec<V>>> = Rc::new(RefCell::new(vec![])); let s2 = seen.clone();
    let line = format!("log line {}", word("line", 1, b"x{%")); let level = if key == "k" { "info" } else { "error" };
    script(move |a| {
        a.dom(skeleton()); let line2 = line.clone();
        let r = vec![
            a.api(&[get("historyLocation"), call(&["get"])]),
            a.api(&[V::List(vec![V::s("call"), V::s("get_env"), V::s(&ask2)])]),
            a.api(&[call(&["isBrowser"])]),
            a.send(V::List(vec![V::List(vec![V::s("root"), V::s("window")]), get("Date"), call(&["now"])])),
            a.api(&[get("historyLocation"), V::List(vec![V::s("call"), V::s("add"), V::U64(5)])]),
            a.api(&[get("cookie"), call(&["get", "c"])]),
            a.api(&[get("websocket"), V::List(vec![V::s("call"), V::s("websocket_register_callback"), V::s("ws://h"), V::U64(9)])]),
            a.api(&[get("interval"), V::List(vec![V::s("call"), V::s("interval_set"), V::U32(10), V::U64(6)])]),
            a.api(&[get("interval"), V::List(vec![V::s("call"), V::s("interval_clear"), V::I32(1)])]),
            { world(|w| w.keep_logs = true); let r = a.send(V::List(vec![V::List(vec![V::s("root"), V::s("window")]), get("console"), call(&[level, &line2, "", "", ""])])); let l = world(|w| { w.keep_logs = false; std::mem::take(&mut w.logs) });
              check(l.iter().filter(|x| x.1.contains("log line")).count() == 1 && l.iter().any(|x| x.0 == (if level == "error" { 'w' } else { 'i' }) && x.1.contains(&line2)), "a log record of the program is not in the server's log"); r },
            a.timeout(9, 4),
        ];
        *s2.borrow_mut() = r;
    });
    let url2 = String::from_utf8(url.clone()).unwrap();
    serve(Opts { env: vec![(key, val2)], ..Opts::default() }, move |app| {
        let r = page(app, &url2); check(r.status == 200, "the page fails");
        let s = seen.borrow();
        check(s[0] == V::Str(u1.clone()), "the program sees another location than was asked for");
        if same { check(s[1] == V::Str(val.clone().into_bytes()), "a setting has another value"); reach("set"); } else { check(s[1] == V::Null, "a setting that is not there has a value"); reach("unset"); }
        check(s[2] == V::False, "the program believes it runs in a browser");
        check(s[3] == V::I64(now as i64), "the program sees another time");
        for i in [4, 5, 6, 9] { check(s[i] == V::Undef, "a browser-only service answers on the server"); }
        check(matches!(s[10], V::I32(_)), "a timer has no id");
        check(find(&r.body, &[b"data-env-".as_slice(), b"k"].concat()).is_some() || find(&r.body, b"data-env-l").is_some(), "settings are not passed on to the browser");
        reach("end"); trace(r.body.len() as u64);
    });
}

/// No message of the program, well-formed or not, stops the server.
#[no_mangle]
pub extern "C" fn h_garbage(n: usize, shape: usize) {
    let b = if shape == 0 { bytes("message", n) } else {
        // a call with symbolic names and argument kinds
        let arg = |k: usize| match choice("arg", k) { 0 => V::s("x"), 1 => V::U64(u64("u")), 2 => V::U32(u32("w")), 3 => V::Null, 4 => V::Json(J::Str(word("js", 1, b"a\"").into_bytes())), _ => V::List(vec![]) };
        let names = ["dom", "fetch", "interval", "historyLocation", "cookie", "hashRouter"];
        let calls = ["dom_bulk_update", "fetch_send_request", "timeout_set", "add", "get", "push"];
        let first = if flag("api") { V::List(vec![V::s("api")]) } else { V::List(vec![V::s("plain_response")]) };
        let second = if flag("get") { get(names[choice("name", names.len())]) } else { arg(5) };
        let mut c = vec![V::s("call"), V::s(calls[choice("call", calls.len())])]; for _ in 0..n { c.push(arg(5)); }
        let mut o = vec![]; enc(&mut o, &V::List(vec![first, second, V::List(c)])); o
    };
    script(move |a| { a.dom(skeleton()); a.raw(&b); });
    serve(Opts::default(), move |app| { let r = page(app, "/"); check(r.status == 200, "a message the server does not know breaks the page"); reach("end"); });
}

/// Which part answers a url, and what proxies pass on.
#[no_mangle]
pub extern "C" fn h_routes(n: usize) {
    let case = choice("case", 10);
    let tail = word("tail", n, b"ab?&=./"); let base = ["/build/run.js", "/build/none", "/buildx", "/", "/api", "/api/", "/apix", "/other", "/two", "/two/api"][case];
    let url = if case == 0 { base.to_string() } else if case == 4 && n > 0 { format!("/api/{tail}") } else { format!("{base}{tail}") };
    // dots and doubled slashes in static paths are the file server's business
    let seen: Rc<RefCell<Vec<V>>> = Rc::new(RefCell::new(vec![])); let s2 = seen.clone();
    script(move |a| { a.dom(skeleton()); let v = a.api(&[get("historyLocation"), call(&["get"])]); s2.borrow_mut().push(v); });
    let ans = choice("answer", 3); let st = int("status", 16, 100, 999) as u16; let body = bytes("body", 1); let b2 = body.clone();
    world(|w| w.idle = Some(Rc::new(move || { let p = world::unanswered(); if p.is_empty() { return false; }
        let mut h = HeaderMap::new(); h.append("x-up", "1".into()); h.append("content-type", "image/png".into()); h.append("set-cookie", "a".into()); h.append("set-cookie", "b".into()); if flag("chunked") { h.append("transfer-encoding", "chunked".into()); }
        world(|w| w.outs[p[0]].answer = Some(match ans { 0 => Answer::NetError, 1 => Answer::BodyError(st, h), _ => Answer::Ok(st, h, b2.clone()) })); true })));
    serve(Opts { proxy: vec![("/api".into(), "http://up/v1".into()), ("/two".into(), "http://second:81".into())], ..Opts::default() }, move |app| {
        let r = page(app, &url);
        let path = url.split('?').next().unwrap();
        let under = |p: &str| path == p || (path.starts_with(p) && path.as_bytes()[p.len()] == b'/');
        let outs = world(|w| w.outs.iter().map(|o| (o.method.clone(), o.url.clone())).collect::<Vec<_>>());
        if under("/build") {
            check(seen.borrow().is_empty() && outs.is_empty(), "a static file is rendered");
            check(header(&r, "cache-control") == b"public, max-age=86400", "an answer of the static files has no cache time");
            if url == "/build/run.js" { check(r.status == 200 && r.body == b"js" && header(&r, "cache-control") == b"public, max-age=86400", "a static file is not served for caching"); reach("static"); }
        } else if under("/api") || under("/two") {
            check(seen.borrow().is_empty(), "a proxied address is rendered");
            let up = if under("/api") { "http://up/v1" } else { "http://second:81" };
            let rest = &url[4..]; let want = if rest.is_empty() || rest.starts_with('?') { format!("{up}/{rest}") } else { format!("{up}{rest}") };
            check(outs.len() == 1 && outs[0].0 == "GET" && outs[0].1 == want, "a proxy asks for another address");
            if ans == 2 { check(r.status == st && r.body == body && header(&r, "x-up") == b"1" && header(&r, "content-type") == b"image/png" && header(&r, "cache-control") == b"" && r.headers.iter().filter(|x| x.0 == "set-cookie").map(|x| x.1 .0.clone()).collect::<Vec<_>>() == [b"a".to_vec(), b"b".to_vec()], "a proxy changes the answer"); reach("proxied"); }
            else { check(r.status == 500, "a failing proxy is not an error"); reach("proxyerror"); }
        } else {
            check(outs.is_empty(), "a page is asked from the proxy");
            check(*seen.borrow() == vec![V::Str(url.clone().into_bytes())], "the program sees another location than was asked for");
            check(r.status == 200, "the page fails"); reach("page");
        }
        reach("end"); trace(r.status as u64);
    });
}

/// A posted body through the proxy.
#[no_mangle]
pub extern "C" fn h_proxy_post() {
    let s = word("s", 1, b"a\"\\<"); let k = if s == "\"" { "\\\"".to_string() } else if s == "\\" { "\\\\".to_string() } else { s.clone() };
    let sp = if flag("spaces") { " " } else { "" };
    let body = format!("{{\"b\":{sp}[1,{sp}\"{k}\"],\"a\":null{sp}}}");
    let mut h = HeaderMap::new(); h.append("content-type", "application/json".into()); h.append("content-length", HeaderValue(body.len().to_string().into_bytes())); h.append("x-own", "o".into());
    script(|a| a.dom(skeleton()));
    let st = int("status", 16, 100, 999) as u16; let ans = bytes("body", 1); let b2 = ans.clone(); let fails = flag("fails");
    world(|w| w.idle = Some(Rc::new(move || { let p = world::unanswered(); if p.is_empty() { return false; } let mut h = HeaderMap::new(); h.append("x-up", "1".into()); if flag("chunked") { h.append("transfer-encoding", "chunked".into()); }
        world(|w| w.outs[p[0]].answer = Some(if fails { Answer::NetError } else { Answer::Ok(st, h, b2.clone()) })); true })));
    serve(Opts { proxy: vec![("/api".into(), "http://up/v1".into())], ..Opts::default() }, move |app| {
        let r = app.request("POST", "/api/save?x=1", h.clone(), body.clone().into_bytes());
        world(|w| {
            check(w.outs.len() == 1, "one request, one message"); let o = &w.outs[0];
            check(o.method == "POST" && o.url == "http://up/v1/save?x=1", "a proxy asks for another address");
            let b = o.body.clone().unwrap_or_default();
            let (x, y) = (serde_json::from_slice::<serde_json::Value>(&b).ok(), serde_json::from_slice::<serde_json::Value>(body.as_bytes()).ok());
            check(x.is_some() && x == y, "a proxied body says something else");
            check(o.headers.get("x-own").map(|h| h.0.clone()) == Some(b"o".to_vec()) && o.headers.get("content-type").map(|h| h.0.clone()) == Some(b"application/json".to_vec()), "a header is lost");
            if let Some(l) = o.headers.get("content-length") { check(l.0 == b.len().to_string().into_bytes(), "a proxied body does not have the announced length"); }
        });
        if fails { check(r.status == 500, "a failing proxy is not an error"); } else { check(r.status == st && r.body == ans && header(&r, "x-up") == b"1", "a proxy changes the answer"); reach("proxied"); }
        reach("end");
    });
}

/// The reload script of watch mode.
#[no_mangle]
pub extern "C" fn h_watch(n: usize) {
    let case = choice("case", 3); let port = [4555u16, 1, 65535][choice("port", 3)];
    let t = unicode("text", n, 1).into_bytes(); let t2 = t.clone();
    let mut d = Doc::skeleton(); d.node(4, "p"); d.insert(3, 4, None); d.set(4, b"title", &t); d.nodes.push((5, K::Text(b"</body>".to_vec()))); d.insert(4, 5, None);
    let want = d.page(&[], &[]);
    script(move |a| match case { 0 => a.dom({ let mut c = skeleton(); c.extend([node(4, "p"), insert(3, 4, None), attr(4, b"title", &t2), text(5, b"</body>"), insert(4, 5, None)]); c }), 1 => a.plain(V::Str(t2.clone())), _ => {} });
    serve(Opts { watch: Some(port), ..Opts::default() }, move |app| {
        let r = page(app, "/"); let mark = format!("start_watch('http://127.0.0.1:{port}/events');").into_bytes();
        match case {
            0 => {
                let Some(h) = read(&r.body) else { check(false, "the page is not well-formed html"); return };
                let mut h = h; let mut seen = 0;
                for k in h.kids.iter_mut() { if let N::El(b) = k { if b.name == b"body" { b.kids.retain(|k| match k { N::El(e) if e.name == b"script" && e.attrs.is_empty() => { let N::Text(t) = &e.kids[0] else { return true }; if find(t, &mark).is_some() { seen += 1; false } else { true } } _ => true }); } } }
                check(seen == 1, "the reload script is not in the page once"); same(&h, &want, "watch mode changes the page"); reach("page");
            }
            1 => { check(r.body == t, "watch mode changes a plain response"); reach("plain"); }
            _ => { check(find(&r.body, &mark).is_none() && r.status == 500, "watch mode changes an error"); reach("error"); }
        }
        reach("end"); trace(r.body.len() as u64);
    });
}
