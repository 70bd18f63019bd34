//! Attributes, classes, styles, events, release, loading layers.
use crate::{domtree::{el, tx, Dom}, domview::{quiet, start}, host::{self, host, J, V}};
use std::{cell::{Cell, RefCell}, rc::Rc};
use symrt::*;
use vertigo::{self, css, dom, Computed, Css, DomElement, DomNode, DomText, DropFileEvent, KeyDownEvent, Value};

fn opt(n: &str) -> Option<String> { if flag(n) { Some(ascii(n, 1)) } else { None } }
/// The rules the class names of `id` stand for, after the literal part `lit`.
fn styles(d: &Dom, id: u64, lit: Option<&[u8]>) -> Vec<Vec<u8>> {
    let c = d.attr(id, "class").unwrap_or_default(); let mut rest: &[u8] = &c;
    if let Some(l) = lit { check(rest.len() >= l.len() && &rest[..l.len()] == l, "the class attribute lacks the class that was set"); rest = &rest[l.len()..]; if !rest.is_empty() { check(rest[0] == b' ', "class names run together"); rest = &rest[1..]; } }
    let mut out = Vec::new(); if rest.is_empty() { return out; }
    for name in rest.split(|b| *b == b' ') { let mut sel = b".".to_vec(); sel.extend_from_slice(name); let r: Vec<_> = d.css.iter().filter(|x| x.0 == sel).collect(); check(r.len() == 1, "a class name does not stand for exactly one style rule"); if let Some(r) = r.first() { out.push(r.1.clone()); } }
    out
}
/// D03: attributes and classes show the latest values.
#[no_mangle]
pub extern "C" fn h_dom_attr(steps: u32) {
    let s = Value::new("s".to_string()); let o = Value::new(None::<String>); let cls = Value::new(Some("c".to_string())); let color = Value::new(0u32); let width = Value::new(1u32);
    let (s2, o2, cls2, color2, width2) = (s.clone(), o.clone(), cls.clone(), color.clone(), width.clone());
    let which = choice("order", 2);
    let mut d = start(move || {
        let style = Computed::from(move |c| { let w = width2.get(c); match color2.get(c) { 0 => css! {"color: red;"}, 1 => css! {"color: blue;"}, 2 => css! {"width: {w}px;"}, _ => css! {"color: red;"}.extend(css! {"width: {w}px;"}) } });
        let up: Computed<String> = s2.to_computed().map(|s| format!("<{s}>")); let co: Computed<Option<String>> = o2.to_computed();
        let e = DomElement::new("p").attr("id", "p").attr("title", up).attr("lang", &s2.clone().to_computed().map(|s| Some(s)));
        let e = if which == 0 { e.attr("class", cls2).css(style) } else { e.css(style).attr("class", cls2) };
        let e = e.attr("alt", &o2).attr("rel", co).attr("dir", s2.clone()).attrs(vec![("a", 1), ("b", 2)]);
        DomElement::new("div").css(css! {"color: blue;"}).child(e).into()
    });
    let p = d.find("p"); let div = d.find("div");
    let (mut cs, mut co, mut cc, mut ccol, mut cw) = (b"s".to_vec(), None::<Vec<u8>>, Some(b"c".to_vec()), 0u32, 1u32);
    for i in 0..steps + 1 {
        let a = "an attribute does not show its latest value";
        let mut up = b"<".to_vec(); up.extend_from_slice(&cs); up.push(b'>');
        check(d.attr(p, "id") == Some(b"p".to_vec()) && d.attr(p, "a") == Some(b"1".to_vec()) && d.attr(p, "b") == Some(b"2".to_vec()), a);
        check(d.attr(p, "title") == Some(up), a); check(d.attr(p, "lang") == Some(cs.clone()), a); check(d.attr(p, "dir") == Some(cs.clone()), a); check(d.attr(p, "alt") == co, a); check(d.attr(p, "rel") == co, a);
        let w = format!("width: {cw}px").into_bytes(); let r = b"color: red".to_vec(); let b = b"color: blue".to_vec();
        check(styles(&d, p, cc.as_deref()) == match ccol { 0 => vec![r], 1 => vec![b.clone()], 2 => vec![w], _ => vec![r, w] }, "the classes of an element stand for other styles than the current ones");
        check(styles(&d, div, None) == vec![b], "the classes of an element stand for other styles than the current ones");
        for (i, x) in d.css.iter().enumerate() { check(!d.css[..i].iter().any(|y| y.0 == x.0 || y.1 == x.1), "a style rule is inserted twice"); }
        if i == steps { break; }
        match choice("op", 5) {
            0 => { let v = ascii("s", 1); cs = v.clone().into_bytes(); s.set(v); }
            1 => { let v = opt("o"); co = v.clone().map(|v| v.into_bytes()); o.set(v); if co.is_none() { reach("absent"); } }
            2 => { let v = opt("c"); if let Some(v) = &v { assume(v.as_bytes()[0] > b' '); } cc = v.clone().map(|v| v.into_bytes()); cls.set(v); }
            3 => { ccol = choice("color", 4) as u32; color.set(ccol); }
            _ => { cw = 1 + choice("w", 3) as u32; width.set(cw); }
        }
        d.apply();
    }
    quiet(); reach("end");
}
/// D03: attributes that are given more than once, in every form; groups; classes and styles alone and together.
#[no_mangle]
pub extern "C" fn h_dom_attr_once(n: u32) {
    type A = (usize, usize, Option<Vec<u8>>); // name, form, value now
    let names = ["a", "b", "class"]; let mut e = DomElement::new("p"); let mut all: Vec<A> = Vec::new(); let mut change: Vec<Option<Box<dyn Fn(Option<String>)>>> = Vec::new();
    let css = choice("css", 4); let color = Value::new(0u32); let c2 = color.clone(); let early = css > 0 && flag("early");
    fn style(c: u32) -> Css { if c == 0 { css! {"color: red;"} } else { css! {"color: blue;"} } }
    let put = |e: DomElement| match css { 0 => e, 1 => e.css(style(0)), 2 => { let c = c2.to_computed(); e.css(c.map(style)) } _ => e.css(style(1)).css(style(0)) };
    if early { e = put(e); }
    for _ in 0..n {
        let (k, f) = (choice("name", 3), choice("form", 6)); let txt = ["s", "t", "u"][all.len() % 3].to_string(); let v = if f == 3 || f == 4 { if flag("some") { Some(txt) } else { None } } else { Some(txt) };
        let b = |v: &Option<String>| v.clone().map(|v| v.into_bytes()); let cur = b(&v);
        match f {
            0 => { e = e.attr(names[k], v.unwrap()); change.push(None); all.push((k, f, cur)); }
            1 => { let x = Value::new(v.unwrap()); e.add_attr(names[k], &x); change.push(Some(Box::new(move |s| x.set(s.unwrap())))); all.push((k, f, cur)); }
            2 => { let x = Value::new(v.unwrap()); e = e.attr(names[k], x.to_computed()); change.push(Some(Box::new(move |s| x.set(s.unwrap())))); all.push((k, f, cur)); }
            3 => { let x = Value::new(v); e = e.attr(names[k], x.clone()); change.push(Some(Box::new(move |s| x.set(s)))); all.push((k, f, cur)); }
            4 => { let x = Value::new(v); e = e.attr(names[k], x.to_computed()); change.push(Some(Box::new(move |s| x.set(s)))); all.push((k, f, cur)); }
            _ => { let o = (k + 1) % 3; e = e.attrs(vec![(names[k], "g1"), (names[o], "g2"), (names[k], "g3")]); for (k, t) in [(k, "g1"), (o, "g2"), (k, "g3")] { change.push(None); all.push((k, f, Some(t.as_bytes().to_vec()))); } }
        }
    }
    if !early { e = put(e); }
    let mut d = start(move || e.into()); let p = d.find("p"); let mut col = 0u32;
    for round in 0..2 {
        for k in 0..2 { let want = all.iter().rev().find(|a| a.0 == k).and_then(|a| a.2.clone()); check(d.attr(p, names[k]) == want, "an attribute does not show the value given last"); }
        let cls = all.iter().rev().find(|a| a.0 == 2).and_then(|a| a.2.clone());
        let want = match (css, col) { (0, _) => vec![], (2, 1) => vec![b"color: blue".to_vec()], _ => vec![b"color: red".to_vec()] };
        if css == 0 { check(d.attr(p, "class").unwrap_or_default() == cls.unwrap_or_default(), "the class attribute does not show its latest value"); } else { check(styles(&d, p, cls.as_deref()) == want, "the classes of an element stand for other styles than the current ones"); }
        if round == 1 { break; }
        // only the entry that counts for its name changes
        let i = choice("changed", all.len() + 1);
        if i == all.len() { col = 1; color.set(1); } else {
            if change[i].is_none() || all[i + 1..].iter().any(|a| a.0 == all[i].0) { return; }
            let s = if all[i].1 >= 3 && flag("gone") { reach("gone"); None } else { Some(ascii("new", 1)) }; if let (Some(s), 2) = (&s, all[i].0) { assume(s.as_bytes()[0] > b' '); }
            all[i].2 = s.clone().map(|s| s.into_bytes()); change[i].as_ref().unwrap()(s);
        }
        d.apply();
    }
    quiet(); reach("end");
}
pub const EVENTS: [&str; 12] = ["click", "mousedown", "mouseup", "mouseenter", "mouseleave", "input", "change", "blur", "keydown", "drop", "hook_keydown", "load"];
fn js_bool(b: bool) -> V { if b { V::True } else { V::False } }
/// D04: events reach their handler with their data; dynamic handlers are current; unmounted ones are gone.
#[no_mangle]
pub extern "C" fn h_dom_events(dynamic: u32) {
    let k = choice("event", 12); let e = EVENTS[k];
    let log: Rc<RefCell<Vec<(u32, V)>>> = Rc::new(RefCell::new(Vec::new())); let ans = Rc::new(Cell::new(false)); let show = Value::new(true); let which = Value::new(1u32);
    let (l, a, s, w) = (log.clone(), ans.clone(), show.clone(), which.clone());
    fn key(e: KeyDownEvent) -> V { V::List(vec![V::Str(e.key.into_bytes()), V::Str(e.code.into_bytes()), js_bool(e.alt_key), js_bool(e.ctrl_key), js_bool(e.shift_key), js_bool(e.meta_key)]) }
    fn files(e: DropFileEvent) -> V { V::List(vec![V::List(e.items.into_iter().map(|f| V::List(vec![V::Str(f.name.into_bytes()), V::Vec((*f.data).clone())])).collect())]) }
    let mut d = start(move || s.render_value_option(move |show| { if !show { return None; }
        let (l, a) = (l.clone(), a.clone()); let b = DomElement::new("button");
        if dynamic == 0 {
            let c0 = { let l = l.clone(); move || l.borrow_mut().push((0, V::Undef)) }; let cb = { let (l, a) = (l.clone(), a.clone()); move || { l.borrow_mut().push((0, V::Undef)); a.get() } };
            let cs = { let l = l.clone(); move |t: String| l.borrow_mut().push((0, V::Str(t.into_bytes()))) }; let ck = { let (l, a) = (l.clone(), a.clone()); move |e: KeyDownEvent| { l.borrow_mut().push((0, key(e))); a.get() } };
            let cf = { let l = l.clone(); move |e: DropFileEvent| l.borrow_mut().push((0, files(e))) };
            Some(match k { 0 => b.on_click(c0), 1 => b.on_mouse_down(cb), 2 => b.on_mouse_up(cb), 3 => b.on_mouse_enter(c0), 4 => b.on_mouse_leave(c0), 5 => b.on_input(cs), 6 => b.on_change(cs), 7 => b.on_blur(c0), 8 => b.on_key_down(ck), 9 => b.on_dropfile(cf), 10 => b.hook_key_down(ck), _ => b.on_load(c0) }.into())
        } else {
            let w = w.to_computed();
            let (l1, l2, l3, l4, l5, a2, a4) = (l.clone(), l.clone(), l.clone(), l.clone(), l.clone(), a.clone(), a.clone());
            let c0: Computed<Rc<dyn Fn()>> = w.map(move |w| { let l = l1.clone(); Rc::new(move || l.borrow_mut().push((w, V::Undef))) as Rc<dyn Fn()> });
            let cb: Computed<Rc<dyn Fn() -> bool>> = w.map(move |w| { let (l, a) = (l2.clone(), a2.clone()); Rc::new(move || { l.borrow_mut().push((w, V::Undef)); a.get() }) as Rc<dyn Fn() -> bool> });
            let cs: Computed<Rc<dyn Fn(String)>> = w.map(move |w| { let l = l3.clone(); Rc::new(move |t: String| l.borrow_mut().push((w, V::Str(t.into_bytes())))) as Rc<dyn Fn(String)> });
            let ck: Computed<Rc<dyn Fn(KeyDownEvent) -> bool>> = w.map(move |w| { let (l, a) = (l4.clone(), a4.clone()); Rc::new(move |e| { l.borrow_mut().push((w, key(e))); a.get() }) as Rc<dyn Fn(KeyDownEvent) -> bool> });
            let cf: Computed<Rc<dyn Fn(DropFileEvent)>> = w.map(move |w| { let l = l5.clone(); Rc::new(move |e| l.borrow_mut().push((w, files(e)))) as Rc<dyn Fn(DropFileEvent)> });
            Some(match k { 0 => b.on_click(c0), 1 => b.on_mouse_down(cb), 2 => b.on_mouse_up(cb), 3 => b.on_mouse_enter(c0), 4 => b.on_mouse_leave(c0), 5 => b.on_input(cs), 6 => b.on_change(cs), 7 => b.on_blur(c0), 8 => b.on_key_down(ck), 9 => b.on_dropfile(cf), 10 => b.hook_key_down(ck), _ => b.on_load(c0) }.into())
        } }));
    let id = d.find("button"); let ls = d.listeners_of(id, e); check(ls.len() == 1 && d.listeners.len() == 1, "an event handler is not attached exactly once under its event name");
    let cb = ls.first().copied().unwrap_or(0); let mut current = if dynamic == 0 { 0 } else { 1 };
    for round in 0..2 {
        let vary = |n: &str| if dynamic == 1 && round == 0 { n == "alt" } else { flag(n) };
        let data = match k { 5 | 6 => V::Str(unicode("text", 1, 2).into_bytes()), 8 | 10 => V::List(vec![V::Str(ascii("key", 1).into_bytes()), V::Str(ascii("code", 1).into_bytes()), js_bool(vary("alt")), js_bool(vary("ctrl")), js_bool(vary("shift")), js_bool(vary("meta"))]),
            9 => { let n = choice("files", 3); V::List(vec![V::List((0..n).map(|_| V::List(vec![V::Str(ascii("name", 1).into_bytes()), V::Vec(bytes("data", 2))])).collect())]) } _ => V::Undef };
        ans.set(flag("answer"));
        let r = host::call(cb, &data);
        let exp = match k { 1 | 2 | 8 | 10 => js_bool(ans.get()), _ => V::Undef };
        check(r == exp, "the answer of an event handler is lost or changed");
        let got = log.borrow_mut().split_off(0); check(got.len() == 1, "an event reaches its handler not exactly once"); if let Some(g) = got.first() { check(g.1 == data, "an event handler receives other data than the event carries"); check(g.0 == current, "an event reaches an outdated handler"); }
        if round == 0 { if dynamic == 1 { current = 2; which.set(2); d.apply(); check(d.listeners_of(id, e) == vec![cb], "replacing a handler detaches the event"); } else { break; } }
    }
    quiet();
    // data of the wrong shape
    if k == 5 || k == 6 || k >= 8 && k <= 10 { let bad = malformed(k);
        let r = host::call(cb, &bad); check(log.borrow().is_empty(), "an event with malformed data reaches its handler"); check(host(|h| h.errors) == 1, "an event with malformed data is not reported"); check(r == if k == 8 || k == 10 { V::False } else { V::Undef }, "an event with malformed data is answered"); host(|h| h.errors = 0); reach("bad"); }
    show.set(false); d.apply(); d.no_orphans(); check(d.listeners.is_empty(), "the handler of an unmounted element stays attached"); quiet();
    host::call(cb, &V::Undef); check(log.borrow().is_empty(), "the handler of an unmounted element still runs"); check(host(|h| h.errors) >= 1, "an event for an unmounted element is not reported");
    reach("end");
}
/// Data an event of kind `k` must not carry: another kind of value, or the right shape with one part missing or of another kind.
fn malformed(k: usize) -> V {
    let whole = [V::Undef, V::Null, V::U32(1), V::True, V::List(vec![]), V::List(vec![V::s("x")]), V::Vec(vec![b'x']), V::Json(J::s("x"))];
    let n = choice("bad", if k == 5 || k == 6 { 8 } else { 10 }); if n < 8 { return if n == 4 && k == 9 { V::List(vec![V::Null]) } else { whole[n].clone() }; }
    let spoil = |l: &mut Vec<V>| { let i = choice("part", l.len()); let w = choice("how", 3); match w { 0 => { l.remove(i); } 1 => l[i] = V::Null, _ => l[i] = if matches!(l[i], V::True | V::False | V::Vec(_)) { V::s("x") } else { V::True } } };
    if k != 9 { let mut l = vec![V::s("k"), V::s("c"), V::True, V::False, V::True, V::False]; spoil(&mut l); return V::List(l); }
    let file = |n: &str| vec![V::s(n), V::Vec(vec![1, 2])]; let mut f = vec![file("a"), file("b")]; let i = choice("file", 2);
    if n == 8 { spoil(&mut f[i]); V::List(vec![V::List(f.into_iter().map(V::List).collect())]) }
    else { let mut l: Vec<V> = f.into_iter().map(V::List).collect(); l[i] = [V::Null, V::s("x"), V::Vec(vec![1])][choice("item", 3)].clone(); V::List(vec![V::List(l)]) }
}
/// D05: a subtree that is unmounted leaves nothing behind.
#[no_mangle]
pub extern "C" fn h_dom_release(_x: u32) {
    let kind = choice("kind", 7); let mode = Value::new(0u32); let text = Value::new("t".to_string()); let (m, t) = (mode.clone(), text.clone());
    fn layer(l: bool) -> Css { if l { css! {"display: block;"} } else { css! {"display: none;"} } }
    let mut d = start(move || { let part = m.render_value_option(move |m| { if m == 0 { return None; } let t = t.clone(); Some(match kind {
        0 => dom! { <p class={&t} title={&t.to_computed().map(Some)}>{&t}<b>"x"</b></p> },
        1 => dom! { <p on_click={|| {}} css={css!{"color: red;"}}>{&t}</p> },
        2 => t.to_computed().map(|t| vec![t.clone(), t]).render_list(|x| x.clone(), |x| DomElement::new("i").child_text(x.clone()).into()),
        3 => { let t2 = t.clone(); t.to_computed().render_value(move |v| dom! { <u>{v}{&t2}</u> }) }
        4 => dom! { <p vertigo-suspense={layer}><vertigo-suspense /></p> },
        5 => dom! { <i>"a"</i> <b on_key_down={|_| true}>{&t}</b> },
        _ => { let f: Computed<Rc<dyn Fn()>> = t.to_computed().map(|_| Rc::new(|| {}) as Rc<dyn Fn()>); DomElement::new("p").on_click(f).child(DomText::new_computed(t.to_computed())).into() } }) });
        DomElement::new("div").child(part).into() });
    let div = d.find("div");
    let mut base = 0;
    for i in 0..4 { mode.set(1); d.apply(); check(!d.visible(div).is_empty(), "a part of the view is missing"); if flag("edit") { text.set(if i % 2 == 0 { "u".into() } else { "t".into() }); d.apply(); } mode.set(0); d.apply(); d.no_orphans(); check(d.visible(div).is_empty() && d.listeners.is_empty(), "an unmounted part of the view stays in the document");
        host(|h| { h.dom.clear(); h.dom.shrink_to_fit() }); d.at = 0; let n = d.nodes.len(); d.nodes.shrink_to(n); d.listeners.shrink_to_fit();
        if i == 2 { base = live_allocs(); } if i == 3 { check(live_allocs() == base, "an unmounted part of the view is not released"); } }
    quiet(); reach("end");
}
fn loading_css(l: bool) -> Css { if l { css! {"display: block;"} } else { css! {"display: none;"} } }
/// D06: layers show the loading style exactly while something below their parent is loading.
#[no_mangle]
pub extern "C" fn h_dom_suspense(steps: u32) {
    let l: Vec<Value<u32>> = (0..3).map(|_| Value::new(0u32)).collect(); let wrap = Value::new(true); let late = Value::new(false); let late2 = late.clone(); let order = Value::new(vec![0u8, 1]); let (l2, w2, o2) = (l.clone(), wrap.clone(), order.clone());
    let mut d = start(move || {
        fn slot(v: &Value<u32>) -> DomNode { v.render_value(|n| match n { 0 => dom! { <i>"done"</i> }, 1 => dom! { <vertigo-suspense /> }, _ => dom! { <b><s><vertigo-suspense /></s></b> } }) }
        let (a, b, c) = (l2[0].clone(), l2[1].clone(), l2[2].clone());
        // outer parent: layer o1, content with inner parent (layer i1, slots 0 and 1 in a list), slot 2
        let inner = w2.render_value_option(move |w| { if !w { return None; } let (a, b) = (a.clone(), b.clone());
            Some(dom! { <section><h2 vertigo-suspense={loading_css}>"inner"</h2><div>{ o2.to_computed().render_list(|x| *x, move |x| { let v = if *x == 0 { &a } else { &b }; DomElement::new("li").child(slot(v)).into() }) }</div></section> }) });
        let late = late2.render_value_option(|l| if l { Some(dom! { <h3 vertigo-suspense={loading_css}>"late"</h3> }) } else { None });
        dom! { <main><h1 vertigo-suspense={loading_css}>"outer"</h1>{inner}<p>{slot(&c)}{late}</p></main> }
    });
    let (mut cur, mut w, mut items, mut lt) = ([0u32; 3], true, vec![0u8, 1], false);
    for i in 0..steps + 1 {
        let inner = w && items.iter().any(|x| cur[*x as usize] != 0);
        let shows = |d: &Dom, n: &str| styles(d, d.find(n), None) == vec![b"display: block".to_vec()];
        let msg = "a layer shows its loading style although nothing below its parent is loading, or the other way round";
        check(shows(&d, "h1") == (inner || cur[2] != 0), msg); if w { check(shows(&d, "h2") == inner, msg); reach("inner"); } if lt { check(shows(&d, "h3") == (cur[2] != 0), msg); }
        if i == steps { break; }
        match choice("op", 4) {
            3 => { lt = !lt; late.set(lt); reach("late"); }
            0 => { let k = choice("slot", 3); cur[k] = choice("state", 3) as u32; l[k].set(cur[k]); }
            1 => { w = !w; wrap.set(w); }
            _ => { items = match choice("order", 4) { 0 => vec![0, 1], 1 => vec![1, 0], 2 => vec![1], _ => vec![] }; order.set(items.clone()); }
        }
        d.apply(); d.no_orphans();
    }
    quiet(); reach("end");
}
/// Two shapes of the same document part, so the model itself is exercised.
#[no_mangle]
pub extern "C" fn h_dom_static(_x: u32) {
    let s = unicode("s", 1, 4); let s2 = s.clone(); let n = u32("n") as u16 as i32;
    let neg = choice("n4", 4) as i32 - 2; let _ = n;
    let items = vec!["a", "b"]; let k = choice("k", 3);
    let d = start(move || dom! { <div data-x={s2.clone()} n={neg}>{s2.as_str()}{neg}{..items.iter().take(k)}<br/>{vertigo::html_entities::amp}</div> });
    let nn = neg.to_string();
    let mut kids = vec![tx(&s), tx(&nn)]; for i in ["a", "b"].iter().take(k) { kids.push(tx(i)); } kids.push(el("br", vec![])); kids.push(tx("&"));
    d.same_children(3, &[crate::domtree::ela("div", vec![("data-x", s.clone().into_bytes()), ("n", nn.into_bytes())], kids)], "the document differs from the view of the current values");
    quiet(); reach("end");
}
