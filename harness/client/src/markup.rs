//! The markup and closure macros: dom!, dom_element!, #[component], bind!, bind_rc!, bind_spawn!.
use crate::{domattr::EVENTS, domtree::{el, ela, tx, Dom, T}, domview::{quiet, start}, host::{self, host, V}};
use std::{cell::RefCell, rc::Rc};
use symrt::*;
use vertigo::{self, bind, bind_rc, bind_spawn, component, css, dom, dom_element, transaction, Computed, Css, DomElement, DomNode, DomText, DropFileEvent, DropResource, EmbedDom, KeyDownEvent, Reactive, Value};

const M: &str = "the markup does not build the elements, attributes and children that are written";
fn b(s: &str) -> Vec<u8> { s.as_bytes().to_vec() }
mod parts {
    use vertigo::{self, component, dom, Value};
    #[component] pub fn Badge(label: String, count: u32, extra: Option<String>) { dom! { <em title={label.clone()} n={count}>{label}{extra.unwrap_or_default()}</em> } }
    #[component] pub fn Live(value: Value<String>, on: bool) { if on { dom! { <q>{value}</q> } } else { dom! { <q>"off"</q> <hr/> } } }
}
use parts::{Badge, Live};
#[component] fn Wrap<T: ToString + Clone + PartialEq + 'static>(value: T, inner: DomNode, list: Vec<u8>) { let n = list.len(); dom! { <section n={n} {value}>{inner}{..list}</section> } }
#[component] fn Plain() { dom! { <nav /> } }
#[derive(Clone, PartialEq)]
struct Upper { inner: Value<String> }
impl EmbedDom for Upper { fn embed(self) -> DomNode { self.inner.embed() } }
impl Reactive<String> for Upper {
    fn set(&self, v: String) { self.inner.set(v.to_ascii_uppercase()) }
    fn get(&self, c: &vertigo::Context) -> String { self.inner.get(c) }
    fn change(&self, f: impl FnOnce(&mut String)) { self.inner.change(|v| { f(v); *v = v.to_ascii_uppercase(); }) }
}
#[component] fn Generic<R: Reactive<String> + EmbedDom>(saying: R) { dom! { <blockquote>{saying}</blockquote> } }

/// M01: what is written is what is built.
#[no_mangle]
pub extern "C" fn h_markup(kind: u32) {
    let s = if kind != 4 && flag("empty") { reach("empty"); String::new() } else { ascii("s", 1) }; let s2 = s.clone(); let n = choice("n", 3) as u32; let live = Value::new(s.clone()); let (l2, some) = (live.clone(), flag("some"));
    let opt = if some { Some(s.clone()) } else { None }; let o2 = opt.clone(); let ov = Value::new(opt.clone()); let ov2 = ov.clone();
    let sb = s.clone().into_bytes(); let ns = b(&n.to_string());
    let mut d = start(move || { let s = s2; match kind {
        // elements and attributes
        0 => { let title = s.clone(); let data_x = n; let id = "short"; let lang = ov2.clone();
            dom! { <article id="a" {title} n={n} data-x={data_x} aria-label={{ let k = s.clone(); k + "!" }} {id} a_b="c">
                <p class="one two" title={l2.clone()} lang={&lang}>"t1" <b><i>"deep"<u/></i>"after"</b> "t2"</p>
                <input type="text" value={&s} checked="checked" placeholder="" data-q="a \"b\" &lt; c"/>
                <svg view-box="0 0"><my-tag x={l2.to_computed()} y={o2.clone().unwrap_or_default()}></my-tag></svg>
                <br/>
            </article> } }
        // children
        1 => { let text: &str = &s; let node: DomNode = DomText::new("node").into(); let element = DomElement::new("e1"); let rc: Rc<str> = Rc::from("rc"); let many = vec!["m1".to_string(), s.clone()]; let nodes: Vec<DomNode> = (0..n).map(|i| DomElement::new(if i == 0 { "x0" } else { "x1" }).into()).collect();
            let both = Computed::from({ let l = l2.clone(); move |c| format!("<{}>", l.get(c)) }); let number = Value::new(7i32);
            dom! { <div>"lit"" ""\n""x \"y\" \\ <z> &amp; \u{e9}"{text}""{n}{node}{&both}{element}{rc}{..many}"mid"{..nodes}{l2.clone()}{both}{&l2}{&number}{..o2}{..(0..n).map(|i| dom! { <li n={i}>{i}</li> })}{if n == 1 { "one" } else { "many" }}{'c'}{true}"end"</div> } }
        // components
        2 => { let label = s.clone(); let count = n; let value = l2.clone(); let extra = o2.clone(); let on = some; let list = vec![1u8, 2]; let inner: DomNode = DomText::new("in").into();
            let up = Upper { inner: Value::new(String::new()) }; up.set(s.clone()); let up2 = up.clone(); up2.change(|v| v.push('z'));
            dom! { <main>
                <Badge label="lit" count={n} extra={} />
                <Badge label={&s} count={count + 1} extra={Some("e".to_string())} />
                <Badge {&label} count={Default::default()} extra={o2.as_ref().map(|x| x.clone())} />
                <Badge {label} {count} {extra} />
                <Live {&value} {on} />
                <parts::Live value={value} on=true />
                <Wrap value={&s} inner={inner} {&list} />
                <Wrap value={&n} inner={dom! { <Plain/> }} list={} />
                <Generic saying={&up} />
                <Generic saying={&l2} />
            </main> } }
        // several roots, a component as root, a single element outside of a node
        3 => { let value = l2.clone(); let e: DomElement = dom_element! { <aside n={n}>"in"<Plain/>{..vec!["v"]}</aside> }; e.add_child(DomElement::new("added")); let e = e.attr("late", s.clone());
            let all = dom! { <p>{&value}</p> <Live {&value} on={some} /> <hr/> <Plain/> }; let root = dom! { <Badge label={s} count={n} extra={o2} /> };
            dom! { <div>{all}{e}{root}</div> } }
        // styles
        _ => { fn layer(l: bool) -> Css { if l { css! {"color: blue;"} } else { css! {"color: red;"} } }
            let css = css! { "color: green;" }; let class = "given"; let computed = l2.to_computed().map(|t| if t == "" { css! { "color: white;" } } else { css! { "color: black;" } });
            dom! { <main><p {css} {class}>"1"</p><q css={computed} class={s}/><b vertigo-suspense={layer}>"3"</b></main> } }
    } });
    let exp = |v: &Vec<u8>, o: &Option<Vec<u8>>| -> Vec<T> { match kind {
        0 => { let mut lab = sb.clone(); lab.push(b'!'); let mut p = vec![("class", b("one two")), ("title", v.clone())]; if let Some(o) = o { p.push(("lang", o.clone())); }
            vec![ela("article", vec![("id", b("short")), ("title", sb.clone()), ("n", ns.clone()), ("data-x", ns.clone()), ("aria-label", lab), ("a_b", b("c"))], vec![
                ela("p", p, vec![tx("t1"), el("b", vec![el("i", vec![tx("deep"), el("u", vec![])]), tx("after")]), tx("t2")]),
                ela("input", vec![("type", b("text")), ("value", sb.clone()), ("checked", b("checked")), ("placeholder", vec![]), ("data-q", b("a \"b\" &lt; c"))], vec![]),
                ela("svg", vec![("view-box", b("0 0"))], vec![ela("my-tag", vec![("x", v.clone()), ("y", if some { sb.clone() } else { vec![] })], vec![])]), el("br", vec![])])] }
        1 => { let mut both = b("<"); both.extend_from_slice(v); both.push(b'>'); let mut k = vec![tx("lit"), tx(" "), tx("\n"), tx("x \"y\" \\ <z> &amp; \u{e9}"), tx(&sb), tx(""), tx(&ns), tx("node"), tx(&both), el("e1", vec![]), tx("rc"), tx("m1"), tx(&sb), tx("mid")];
            for i in 0..n { k.push(el(if i == 0 { "x0" } else { "x1" }, vec![])); } k.push(tx(v)); k.push(tx(&both)); k.push(tx(v)); k.push(tx("7")); if some { k.push(tx(&sb)); }
            for i in 0..n { let i = b(&i.to_string()); k.push(ela("li", vec![("n", i.clone())], vec![tx(i)])); } for t in [if n == 1 { "one" } else { "many" }, "c", "true", "end"] { k.push(tx(t)); } vec![el("div", k)] }
        2 => { let badge = |l: &[u8], n: u32, e: &[u8]| ela("em", vec![("title", l.to_vec()), ("n", b(&n.to_string()))], vec![tx(l), tx(e)]); let e: &[u8] = if some { &sb } else { b"" };
            let mut k = vec![badge(b"lit", n, b""), badge(&sb, n + 1, b"e"), badge(&sb, 0, e), badge(&sb, n, e)]; if some { k.push(el("q", vec![tx(v)])); } else { k.push(el("q", vec![tx("off")])); k.push(el("hr", vec![])); } k.push(el("q", vec![tx(v)]));
            k.push(ela("section", vec![("n", b("2")), ("value", sb.clone())], vec![tx("in"), tx("1"), tx("2")])); k.push(ela("section", vec![("n", b("0")), ("value", ns.clone())], vec![el("nav", vec![])]));
            let mut u = sb.to_ascii_uppercase(); u.push(b'Z'); k.push(el("blockquote", vec![tx(u)])); k.push(el("blockquote", vec![tx(v)])); vec![el("main", k)] }
        3 => { let mut k = vec![el("p", vec![tx(v)])]; if some { k.push(el("q", vec![tx(v)])); } else { k.push(el("q", vec![tx("off")])); k.push(el("hr", vec![])); } k.push(el("hr", vec![])); k.push(el("nav", vec![]));
            k.push(ela("aside", vec![("n", ns.clone()), ("late", sb.clone())], vec![tx("in"), el("nav", vec![]), tx("v"), el("added", vec![])])); k.push(ela("em", vec![("title", sb.clone()), ("n", ns.clone())], vec![tx(&sb), tx(if some { &sb[..] } else { b"" })])); vec![el("div", k)] }
        _ => vec![] } };
    if kind == 4 {
        let rule = |d: &Dom, n: &str, lit: &[u8]| -> Vec<u8> { let c = d.attr(d.find(n), "class").unwrap_or_default(); if lit.is_empty() && false { return c; } let rest = if lit.is_empty() { c } else { check(c.len() > lit.len() + 1 && &c[..lit.len()] == lit && c[lit.len()] == b' ', M); c[lit.len() + 1..].to_vec() }; let mut sel = b("."); sel.extend(rest); d.css.iter().find(|x| x.0 == sel).map(|x| x.1.clone()).unwrap_or_default() };
        assume(sb[0] > b' ');
        check(rule(&d, "p", b"given") == b"color: green", M); check(rule(&d, "q", &sb) == b"color: black", M); check(rule(&d, "b", b"") == b"color: red", M);
        check(d.node(d.find("p")).attrs.len() == 1 && d.node(d.find("q")).attrs.len() == 1 && d.node(d.find("b")).attrs.len() == 1, M);
        live.set(String::new()); d.apply(); check(rule(&d, "q", &sb) == b"color: white", M);
    } else {
        d.same_children(3, &exp(&sb, &opt.clone().map(|o| o.into_bytes())), M);
        let t = if flag("cleared") { String::new() } else { ascii("t", 1) }; live.set(t.clone()); ov.set(None); d.apply(); d.same_children(3, &exp(&t.into_bytes(), &None), M);
    }
    check(d.listeners.is_empty(), M); d.no_orphans(); quiet(); reach("end");
}
/// M01: an event attribute attaches its handler to its own event.
#[no_mangle]
pub extern "C" fn h_markup_events(_x: u32) {
    let k = choice("event", 12); let log: Rc<RefCell<Vec<V>>> = Rc::new(RefCell::new(vec![])); let ans = flag("answer"); let l = log.clone();
    let mut d = start(move || {
        let f = bind!(l, || l.borrow_mut().push(V::Undef)); let fb = bind!(l, || -> bool { l.borrow_mut().push(V::Undef); ans }); let fs = bind!(l, |t: String| l.borrow_mut().push(V::Str(t.into_bytes())));
        let fk = bind!(l, |e: KeyDownEvent| -> bool { l.borrow_mut().push(V::Str(e.key.into_bytes())); ans }); let ff = bind!(l, |e: DropFileEvent| l.borrow_mut().push(V::U32(e.items.len() as u32)));
        let on_click = f.clone(); let on_key_down = fk.clone();
        match k { 0 => dom! { <button {on_click} /> }, 1 => dom! { <button on_mouse_down={fb} /> }, 2 => dom! { <button on_mouse_up={fb} /> }, 3 => dom! { <button on_mouse_enter={f} /> }, 4 => dom! { <button on_mouse_leave={f} /> }, 5 => dom! { <button on_input={fs} /> }, 6 => dom! { <button on_change={fs} /> }, 7 => dom! { <button on_blur={f} /> }, 8 => dom! { <button {on_key_down} /> }, 9 => dom! { <button on_dropfile={ff} /> }, 10 => dom! { <button hook_key_down={fk} /> }, _ => dom! { <button on_load={f} /> } }
    });
    d.apply(); let id = d.find("button"); let ls = d.listeners_of(id, EVENTS[k]); check(ls.len() == 1 && d.listeners.len() == 1, "an event attribute does not attach its handler to its own event"); check(d.node(id).attrs.is_empty(), M);
    let text = ascii("text", 1); let data = match k { 5 | 6 => V::Str(text.clone().into_bytes()), 8 | 10 => V::List(vec![V::Str(text.clone().into_bytes()), V::s("c"), V::True, V::False, V::False, V::False]), 9 => V::List(vec![V::List(vec![V::List(vec![V::s("f"), V::Vec(vec![1])])])]), _ => V::Undef };
    let r = host::call(ls.first().copied().unwrap_or(0), &data);
    let want = match k { 5 | 6 | 8 | 10 => V::Str(text.into_bytes()), 9 => V::U32(1), _ => V::Undef };
    check(*log.borrow() == vec![want], "an event attribute does not call the handler that is written"); check(r == match k { 1 | 2 | 8 | 10 => if ans { V::True } else { V::False }, _ => V::Undef }, "the answer of an event handler is lost or changed");
    quiet(); reach("end");
}
