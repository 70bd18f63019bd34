//! What the browser receives: escaping, the tree of the application, the assembled document.
use crate::base::*;
use crate::dom::*;
use symrt::*;
use world::world;
fn chars(name: &str, n: usize, max_width: usize) -> Vec<u8> { unicode(name, n, max_width).into_bytes() }

/// Symbolic text and attribute values in several positions come out of the page unchanged.
#[no_mangle]
pub extern "C" fn h_escape(n: usize, width: usize, place: usize) {
    let t = chars("text", n, width);
    let (pre, post) = [("", ""), ("&", "t;"), ("&#3", "4;"), ("&quo", ";"), ("&am", "; "), ("</", "a>"), ("<!-", "->"), ("]]", ">"), ("&l", " "), ("</div", ">")][choice("form", 10)];
    let t = [pre.as_bytes(), &t, post.as_bytes()].concat();
    let mut d = Doc::skeleton(); let mut c = skeleton(); let mut styles = vec![]; let mut env: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    match choice("place", place) {
        0 => { let e = ["div", "textarea", "title", "pre", "option", "my-style"][choice("element", 6)]; if e == "pre" || e == "textarea" { assume(t.is_empty() || t[0] != b'\n'); }
            c.extend([node(4, e), text(5, &t), insert(4, 5, None), insert(3, 4, None)]); d.node(4, e); d.nodes.push((5, K::Text(t.clone()))); d.insert(4, 5, None); d.insert(3, 4, None); reach("text"); }
        1 => { c.extend([node(4, "a"), attr(4, b"title", &t), insert(3, 4, None)]); d.node(4, "a"); d.set(4, b"title", &t); d.insert(3, 4, None); reach("attr"); }
        2 => { // between elements
            c.extend([node(4, "p"), text(5, &t), node(6, "b"), insert(4, 5, None), insert(4, 6, None), insert(3, 4, None)]);
            d.node(4, "p"); d.nodes.push((5, K::Text(t.clone()))); d.node(6, "b"); d.insert(4, 5, None); d.insert(4, 6, None); d.insert(3, 4, None); reach("mixed"); }
        3 => { let e = ["img", "area", "base", "br", "col", "embed", "hr", "input", "link", "meta", "param", "source", "track", "wbr"][choice("element", if pre.is_empty() { 14 } else { 1 })];
            c.extend([node(4, e), attr(4, b"alt", &t), insert(3, 4, None)]); d.node(4, e); d.set(4, b"alt", &t); d.insert(3, 4, None); reach("void"); }
        4 => { // two texts and a comment in one element
            let (x, y) = t.split_at(cut(&t)); c.extend([node(4, "div"), text(5, x), comment(7, "x"), text(6, y), insert(4, 5, None), insert(4, 7, None), insert(4, 6, None), insert(3, 4, None)]);
            d.node(4, "div"); d.nodes.push((5, K::Text(t.clone()))); d.insert(4, 5, None); d.insert(3, 4, None); reach("two"); }
        5 => { env.push((b"k".to_vec(), t.clone())); reach("env"); }
        _ => { if pre.starts_with('<') { assume(false); } for b in &t { assume(*b != b'<'); } c.push(style(b".x", &t)); styles.push([b".x { ", t.as_slice(), b" }"].concat()); reach("style"); }
    }
    let want = d.page(&styles, &env);
    script(move |a| a.dom(c.clone()));
    let envs = env.iter().map(|(a, b)| (String::from_utf8(a.clone()).unwrap(), unsafe { String::from_utf8_unchecked(b.clone()) })).collect();
    serve(Opts { env: envs, ..Opts::default() }, move |app| {
        let r = page(app, "/");
        check(r.status == 200 && header(&r, "content-type") == b"text/html; charset=utf-8", "a page is not answered as html");
        match read(&r.body) { Some(h) => same(&h, &want, "the page does not show what the application set"), None => check(false, "the page is not well-formed html") }
        reach("end"); trace(r.body.len() as u64);
    });
}
fn cut(t: &[u8]) -> usize { let mut i = t.len() / 2; while i < t.len() && t[i] & 0xc0 == 0x80 { i += 1; } i }

/// Any legal history of tree commands, split over bulk updates at will.
#[no_mangle]
pub extern "C" fn h_tree(steps: usize, pre: usize, rich: usize) {
    let mut d = Doc::skeleton(); let mut batches = vec![skeleton()];
    let names = ["div", "ul", "br"];
    let mut cmds = Vec::new();
    // a prepared list of children, so that moves start early
    for i in 0..pre as u64 { let id = 10 + i; cmds.push(node(id, "p")); cmds.push(insert(3, id, None)); d.node(id, "p"); d.insert(3, id, None);
        if rich == 1 && i == 0 { for n in [&b"id"[..], b"class", b"title"] { cmds.push(attr(id, n, b"v")); d.set(id, n, b"v"); } cmds.push(text(20, b"old")); cmds.push(insert(id, 20, None)); d.nodes.push((20, K::Text(b"old".to_vec()))); d.insert(id, 20, None); } }
    let mut next = 4u64;
    for _ in 0..steps {
        let ids: Vec<u64> = d.nodes.iter().map(|n| n.0).filter(|i| *i > 3).collect();
        let op = choice("op", if ids.is_empty() { 2 } else { 7 });
        match op {
            0 => { // new element or text somewhere
                let id = next; next += 1;
                let kind = choice("kind", 3);
                if kind == 0 { cmds.push(text(id, b"t")); d.nodes.push((id, K::Text(b"t".to_vec()))); }
                else if kind == 1 { cmds.push(node(id, names[0])); cmds.push(event("callback_add", id, 100 + id)); d.node(id, names[0]); }
                else { cmds.push(comment(id, "c")); d.nodes.push((id, K::Comment)); }
                place(&mut d, &mut cmds, id);
            }
            1 => { batches.push(std::mem::take(&mut cmds)); reach("batch"); }
            2 => { let id = ids[choice("move", ids.len())]; place(&mut d, &mut cmds, id); reach("move"); }
            3 => { let id = ids[choice("remove", ids.len())];
                let k = match d.get(id).unwrap() { K::Text(_) => "remove_text", K::Comment => "remove_comment", _ => "remove_node" };
                if k == "remove_node" { cmds.push(event("callback_remove", id, 100 + id)); } cmds.push(remove(k, id)); d.remove(id); reach("remove"); }
            4 => { let ts: Vec<u64> = ids.iter().copied().filter(|i| matches!(d.get(*i), Some(K::Text(_)))).collect(); if ts.is_empty() { assume(false); }
                let id = ts[choice("upd", ts.len())]; let v: &[u8] = if flag("empty") { b"" } else { b"new" }; cmds.push(update(id, v)); *d.get_mut(id) = K::Text(v.to_vec()); reach("update"); }
            5 => { let es: Vec<u64> = ids.iter().copied().filter(|i| matches!(d.get(*i), Some(K::El { .. }))).collect(); if es.is_empty() { assume(false); }
                let id = es[choice("att", es.len())]; let n: &[u8] = if flag("an") { b"id" } else { b"class" }; let v = if flag("noav") { String::new() } else { word("av", 1, b"xy") }; cmds.push(attr(id, n, v.as_bytes())); d.set(id, n, v.as_bytes()); reach("attr"); }
            _ => { let es: Vec<u64> = ids.iter().copied().filter(|i| matches!(d.get(*i), Some(K::El { attrs, .. }) if !attrs.is_empty())).collect(); if es.is_empty() { assume(false); }
                let id = es[choice("rat", es.len())]; let n = if let K::El { attrs, .. } = d.get(id).unwrap() { attrs[choice("ran", attrs.len())].0.clone() } else { vec![] }; cmds.push(rmattr(id, &n)); d.unset(id, &n); reach("rmattr"); }
        }
    }
    batches.push(cmds);
    let want = d.page(&[], &[]);
    script(move |a| { for b in &batches { a.dom(b.clone()) } });
    serve(Opts::default(), move |app| {
        let r = page(app, "/"); check(r.status == 200, "the page of a legal document is an error");
        match read(&r.body) { Some(h) => same(&h, &want, "the page differs from the document the application built"), None => check(false, "the page is not well-formed html") }
        reach("end"); trace(r.body.len() as u64);
    });
}
fn place(d: &mut Doc, cmds: &mut Vec<J>, id: u64) {
    let parents: Vec<u64> = d.nodes.iter().filter(|n| matches!(&n.1, K::El { .. }) && n.0 != 1 && n.0 != 2 && !d.within(n.0, id)).map(|n| n.0).collect();
    let p = parents[choice("parent", parents.len())];
    let sib: Vec<u64> = if let Some(K::El { kids, .. }) = d.get(p) { kids.iter().copied().filter(|k| *k != id).collect() } else { vec![] };
    let k = choice("before", sib.len() + 1); let before = if k == 0 { None } else { Some(sib[k - 1]) };
    cmds.push(insert(p, id, before)); d.insert(p, id, before);
}
use crate::codec::J;

/// The document around the application's tree, and the answers that are not pages.
#[no_mangle]
pub extern "C" fn h_document(styles: usize, envs: usize) {
    let case = choice("case", 11);
    let ns = choice("styles", styles + 1); let ne = choice("envs", envs + 1);
    let mut d = Doc::skeleton(); let mut css = vec![]; let mut cmds = skeleton();
    for i in 0..ns { let v = word("css", 1, b"abc;"); let sel = [if flag("at") { b'@' } else { b'.' }, b'a' + i as u8]; cmds.push(style(&sel, v.as_bytes())); css.push([&sel, b" { ".as_slice(), v.as_bytes(), b" }"].concat()); }
    cmds.extend([node(4, "div"), insert(3, 4, None)]); d.node(4, "div"); d.insert(3, 4, None);
    let env: Vec<(Vec<u8>, Vec<u8>)> = (0..ne).map(|i| (vec![b'k', b'0' + i as u8], word("env", 1, b"xy\"<").into_bytes())).collect();
    let want = d.page(&css, &env);
    let plain = word("plain", 2, b"<&a\n").into_bytes(); let p2 = plain.clone();
    let (status, kind): (u16, u8) = match case { 0 | 7 => (200, 0), 1 => (200, 1), 2 => (200, 1), 3 | 4 | 5 => (500, 2), _ => (500, 3) };
    program(move |a| {
        match case {
            0 => a.dom(cmds.clone()),
            1 => { a.dom(cmds.clone()); a.plain(crate::codec::V::Str(p2.clone())) }
            2 => { a.plain(crate::codec::V::Str(p2.clone())); a.dom(cmds.clone()) }
            3 => {} // nothing mounted
            4 => a.dom(vec![node(1, "div"), node(2, "body"), insert(1, 2, None)]), // no html
            5 => a.dom(vec![node(1, "html"), node(2, "head"), insert(1, 2, None)]), // no body
            6 => { a.dom(cmds.clone()); a.panic(b"boom") ; return Err(()) }
            8 => { a.panic(b"boom"); return Err(()) }
            9 => { a.dom(cmds.clone()); a.timeout(0, 5); }
            10 => { a.dom(cmds.clone()); a.fetch(5, "GET", crate::codec::V::s("/x"), obj(&[]), crate::codec::V::Undef); }
            _ => { // no head: still a page
                a.dom({ let mut c = cmds.clone(); c.remove(3); c }) }
        }
        Ok(())
    }, |a, _, _| { a.panic(b"boom"); Err(()) });
    world(|w| w.idle = Some(std::rc::Rc::new(|| { let p = world::unanswered(); if p.is_empty() { return false; } world(|w| w.outs[p[0]].answer = Some(if flag("neterror") { world::Answer::NetError } else { world::Answer::Ok(200, world::HeaderMap::new(), vec![]) })); true })));
    let want = if case == 7 { let mut w = want; w.kids.remove(0); w } else { want };
    let es = env.iter().map(|(a, b)| (String::from_utf8(a.clone()).unwrap(), unsafe { String::from_utf8_unchecked(b.clone()) })).collect();
    serve(Opts { env: es, ..Opts::default() }, move |app| {
        let r = page(app, "/a?b");
        check(r.status == status, "wrong status of the answer");
        match kind {
            0 => { check(header(&r, "content-type") == b"text/html; charset=utf-8", "a page is not answered as html");
                match read(&r.body) { Some(h) => { same(&h, &want, "the document lacks or misplaces styles, settings or the start script");
                    // styles and script keep their order
                    reach("page") } None => check(false, "the page is not well-formed html") } }
            1 => { check(header(&r, "content-type") == b"text/plain" && r.body == plain, "a plain response is not sent as it is"); reach("plain"); }
            2 => { check(header(&r, "content-type") == b"text/plain", "an error is not plain text"); reach("error"); }
            _ => { check(header(&r, "content-type") == b"text/plain" && find(&r.body, b"boom").is_some(), "a panic's message is not in the answer"); reach("panic"); }
        }
        check(header(&r, "cache-control") == b"private, no-cache, no-store, must-revalidate, max-age=0", "answers must not be cached");
        reach("end"); trace(r.status as u64);
    });
}
