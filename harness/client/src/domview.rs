//! What reaches the document.
use crate::{domtree::{el, ela, tx, Dom, T}, host::host};
use std::{cell::RefCell, rc::Rc};
use symrt::*;
use vertigo::{self, dom, transaction, Computed, DomComment, DomElement, DomNode, DomText, Value};

thread_local! { static APP: RefCell<Option<Box<dyn FnOnce() -> DomNode>>> = RefCell::new(None); }
/// Starts the application with `f` as the content of the body.
pub fn start(f: impl FnOnce() -> DomNode + 'static) -> Dom {
    APP.with(|a| *a.borrow_mut() = Some(Box::new(f)));
    vertigo::start_app(|| { let f = APP.with(|a| a.borrow_mut().take()).unwrap(); let body = DomElement::new("body"); body.add_child(f()); let html = DomElement::new("html"); html.add_child(DomElement::new("head")); html.add_child(body); html.into() });
    let mut d = Dom::new(); d.apply(); d
}
const VIEW: &str = "the document differs from the view of the current values";
pub fn quiet() { host(|h| check(h.errors == 0 && h.panics == 0, "rendering reported an error")); }

/// D01: a view built of every kind of node shows the current values after every change.
#[no_mangle]
pub extern "C" fn h_dom_view(steps: u32, nest: u32) {
    let text = Value::new(String::from("i")); let mode = Value::new(0u32); let num = Value::new(7i32); let opt = Value::new(None::<String>);
    let (t2, m2, n2, o2) = (text.clone(), mode.clone(), num.clone(), opt.clone());
    let mut d = start(move || {
        let both = Computed::from({ let t = t2.clone(); let n = n2.clone(); move |c| format!("{}:{}", t.get(c), if n.get(c) < 0 { "neg" } else { "pos" }) });
        let inner_text = t2.clone();
        let o3 = o2.clone();
        let part = m2.render_value_option(move |m| match m { 0 => None, 1 => Some(dom! { <p class="one">{&inner_text}"."</p> }),
            2 => Some(dom! { <b>"x"</b> <i>{inner_text.to_computed()}</i> }),
            3 => { let o4 = o3.clone(); let it = inner_text.clone(); Some(o4.to_computed().render_value(move |o| match o { Some(s) => { let e = dom! { <u>{s}</u> }; e } None => DomText::new_computed(it.to_computed()).into() })) }
            _ => Some(DomText::new_computed(inner_text.to_computed()).into()) });
        if nest == 1 { dom! { <div id="r"><span>{part}</span>"tail"{&both}</div> } } else { dom! { <div id="r">"head"{part}<a href={&t2}>"l"</a>{&both}</div> } }
    });
    let (mut ct, mut cm, mut cn, mut co) = (b"i".to_vec(), 0u32, false, None::<Vec<u8>>);
    let view = |ct: &Vec<u8>, cm: u32, cn: bool, co: &Option<Vec<u8>>| -> Vec<T> {
        let part: Vec<T> = match cm { 0 => vec![], 1 => vec![ela("p", vec![("class", b"one".to_vec())], vec![tx(ct), tx(".")])], 2 => vec![el("b", vec![tx("x")]), el("i", vec![tx(ct)])],
            3 => match co { Some(s) => vec![el("u", vec![tx(s)])], None => vec![tx(ct)] }, _ => vec![tx(ct)] };
        let mut b = ct.clone(); b.extend_from_slice(if cn { b":neg" } else { b":pos" });
        let mut kids = Vec::new();
        if nest == 1 { kids.push(el("span", part)); kids.push(tx("tail")); kids.push(tx(b)); }
        else { kids.push(tx("head")); kids.extend(part); kids.push(ela("a", vec![("href", ct.clone())], vec![tx("l")])); kids.push(tx(b)); }
        vec![ela("div", vec![("id", b"r".to_vec())], kids)]
    };
    d.same_children(3, &view(&ct, cm, cn, &co), VIEW);
    for _ in 0..steps {
        let mut change = |k: usize| match k {
            0 => { let s = if flag("empty") { String::new() } else { ascii("text", 1) }; ct = s.clone().into_bytes(); text.set(s); }
            1 => { cm = choice("mode", 5) as u32; mode.set(cm); }
            2 => { let v = u32("num") as i32; cn = v < 0; num.set(v); }
            _ => { let s = if flag("some") { Some(ascii("opt", 1)) } else { None }; co = s.clone().map(|s| s.into_bytes()); opt.set(s); }
        };
        match choice("op", 5) { 4 => transaction(|_| { change(1); change(0); reach("both"); }), k => change(k) }
        d.apply(); d.same_children(3, &view(&ct, cm, cn, &co), VIEW); d.no_orphans();
    }
    quiet(); reach("end");
}
#[derive(Clone, PartialEq, Debug)]
struct Item { key: usize, val: u8 }
fn gen_list(max: usize, keys: usize, dup: bool) -> Option<Vec<Item>> {
    let n = choice("len", max + 1); let mut l: Vec<Item> = Vec::new();
    for _ in 0..n { let key = choice("key", keys); if !dup && l.iter().any(|x| x.key == key) { return None; } l.push(Item { key, val: u8("val") }); }
    Some(l)
}
const NAMES: [&str; 5] = ["k0", "k1", "k2", "k3", "k4"];
/// D02: lists.  kind: 0 element items, 1 text items, 2 two-node fragments, 3 nested values, 4 fragments with an optional value and an inner list, 5 mixed.
#[no_mangle]
pub extern "C" fn h_dom_list(max: u32, keys: u32, steps: u32, kind: u32, dup: u32) {
    let (max, keys) = (max as usize, keys as usize);
    let Some(first) = gen_list(max, keys, dup == 1) else { return };
    let list = Value::new(first.clone()); let made = Rc::new(RefCell::new(Vec::<usize>::new())); let (l2, m2) = (list.clone(), made.clone());
    let shown = Value::new(0u32); let s2 = shown.clone();
    let mut d = start(move || {
        let items = l2.to_computed().render_list(|i: &Item| i.key, move |i: &Item| { m2.borrow_mut().push(i.key); let n = NAMES[i.key];
            let k = if kind == 5 { i.key as u32 } else { kind };
            match k { 0 => DomElement::new(n).child_text(n).into(), 1 => DomText::new(n).into(),
                2 => DomComment::dom_fragment(vec![DomElement::new(n).into(), DomText::new(n).into()]).into(),
                4 => { let inner = s2.to_computed().map(|v| if v == 0 { vec![0u8, 1] } else { vec![1u8, 2] }).render_list(|x| *x, |x| DomElement::new(NAMES[*x as usize]).into());
                       let val = s2.to_computed().render_value_option(move |v| if v == 0 { None } else { Some(DomText::new(n).into()) }); DomComment::dom_fragment(vec![val, inner, DomText::new("end").into()]).into() }
                _ => s2.to_computed().render_value(move |v| if v == 0 { DomElement::new(n).into() } else { DomText::new(n).into() }) } });
        let e = DomElement::new("ul"); e.add_child(DomElement::new("pre")); e.add_child(items); e.add_child(DomElement::new("post")); e.into()
    });
    let ul = d.find("ul"); let mut sh = 0u32;
    let view = |l: &Vec<Item>, sh: u32| -> Vec<T> { let mut v = vec![el("pre", vec![])]; for i in l { let n = NAMES[i.key]; let k = if kind == 5 { i.key as u32 } else { kind };
        match k { 0 => v.push(el(n, vec![tx(n)])), 1 => v.push(tx(n)), 2 => { v.push(el(n, vec![])); v.push(tx(n)); } 4 => { if sh == 1 { v.push(tx(n)); } for x in 0..2 { v.push(el(NAMES[x + sh as usize], vec![])); } v.push(tx("end")); } _ => v.push(if sh == 0 { el(n, vec![]) } else { tx(n) }) } } v.push(el("post", vec![])); v };
    d.same_children(ul, &view(&first, 0), "a list is shown in another order or with other items"); check(made.borrow().len() == first.len(), "a list item is rendered more or less than once");
    let mut cur = first;
    for _ in 0..steps {
        let before = d.visible(ul); made.borrow_mut().clear();
        if kind >= 3 && flag("inner") { sh = 1 - sh; shown.set(sh); d.apply(); d.same_children(ul, &view(&cur, sh), "a list is shown in another order or with other items"); d.no_orphans(); continue; }
        let Some(next) = gen_list(max, keys, dup == 1) else { return };
        list.set(next.clone()); d.apply();
        d.same_children(ul, &view(&next, sh), "a list is shown in another order or with other items"); d.no_orphans();
        // items that stay are not rendered again, and keep their nodes
        for k in 0..keys { let had = cur.iter().filter(|i| i.key == k).count(); let has = next.iter().filter(|i| i.key == k).count(); let m = made.borrow().iter().filter(|x| **x == k).count();
            check(m == has.saturating_sub(had), "a list item that stays is rendered again, or a new one is not"); }
        if kind == 0 && dup == 0 { let after = d.visible(ul); for (i, it) in next.iter().enumerate() { if let Some(p) = cur.iter().position(|x| x.key == it.key) { if before.len() == cur.len() + 2 && after.len() == next.len() + 2 { check(before[p + 1] == after[i + 1], "a list item that stays loses its node"); reach("kept"); } } } }
        cur = next;
    }
    quiet(); reach("end");
}
