//! Styles: what a css block becomes in the document.
use crate::{domtree::Dom, domview::{quiet, start}, host::host};
use symrt::*;
use vertigo::{self, css, css_block, Css, CssGroup, DomElement};

type Decl = (&'static str, String);
#[derive(Clone)]
enum Item { Decl(Decl), Pseudo(&'static str, Vec<Decl>), Media(&'static str, Vec<Decl>, Vec<(&'static str, Vec<Decl>)>), Anim(&'static str, String, &'static str) }
fn decls(l: &[Decl], sep: &str) -> String { let mut o = String::new(); for (k, v) in l { o.push_str(k); o.push(':'); o.push_str(sep); o.push_str(v); o.push(';'); o.push_str(sep); } o }
fn source(l: &[Item], sep: &str, last: bool) -> String {
    let mut o = String::from(sep);
    for (i, it) in l.iter().enumerate() {
        match it {
            Item::Decl((k, v)) => { o.push_str(k); o.push(':'); o.push_str(sep); o.push_str(v); o.push_str(sep); }
            Item::Pseudo(s, d) => { o.push_str(s); o.push_str(sep); o.push('{'); o.push_str(sep); o.push_str(&decls(d, sep)); o.push('}'); }
            Item::Media(q, d, p) => { o.push_str("@media "); o.push_str(q); o.push_str(" {"); o.push_str(sep); o.push_str(&decls(d, sep)); for (s, d) in p { o.push_str(s); o.push_str(" {"); o.push_str(&decls(d, sep)); o.push_str("};"); } o.push('}'); }
            Item::Anim(a, f, b) => { o.push_str("animation:"); o.push_str(sep); o.push_str(a); o.push_str(" {"); o.push_str(f); o.push_str("} "); o.push_str(b); }
        }
        if i + 1 < l.len() || last { o.push(';'); o.push_str(sep); }
    }
    o
}
/// A value of a declaration: one arbitrary character between fixed ones.
fn value(wide: usize) -> String {
    let u = unicode("v", 1, wide); let b = u.as_bytes();
    if b.len() == 1 { for x in [b';', b'{', b'}'] { assume(b[0] != x); } }
    ["a", &u, "z"].concat()
}
fn no_space(s: &[u8]) -> Vec<u8> { s.iter().copied().filter(|c| !(*c == b' ' || *c == b'\n')).collect() }
fn trim(s: &[u8]) -> &[u8] { let mut s = s; while let [b' ' | b'\n', r @ ..] = s { s = r; } while let [r @ .., b' ' | b'\n'] = s { s = r; } s }
/// Splits "a: b; c: d;" at the concrete separators of the declarations.
fn same_decls(got: &[u8], want: &[(Vec<u8>, Vec<u8>)], msg: &str) {
    let mut rest = trim(got);
    for (i, (k, v)) in want.iter().enumerate() {
        let full = k.len() + 1; if rest.len() < full { check(false, msg); return; }
        check(&rest[..k.len()] == k.as_slice() && rest[k.len()] == b':', msg); rest = trim(&rest[full..]);
        if rest.len() < v.len() { check(false, msg); return; }
        check(&rest[..v.len()] == v.as_slice(), msg); rest = trim(&rest[v.len()..]);
        if i + 1 < want.len() { check(!rest.is_empty() && rest[0] == b';', msg); if rest.is_empty() { return; } rest = trim(&rest[1..]); }
    }
    check(rest.is_empty() || rest == b";", msg);
}
fn own(d: &[Decl]) -> Vec<(Vec<u8>, Vec<u8>)> { d.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect() }
const RULES: &str = "a css block became other rules than it describes";
fn verify(new: &[(Vec<u8>, Vec<u8>)], class: &[u8], items: &[Item]) {
    let sel = [b".", class].concat();
    let mut at = 0; let mut base = Vec::new();
    let mut next = |what: &str| -> (Vec<u8>, Vec<u8>) { let r = new.get(at).cloned(); check(r.is_some(), what); at += 1; r.unwrap_or_default() };
    for it in items {
        match it {
            Item::Decl((k, v)) => base.push((k.as_bytes().to_vec(), v.as_bytes().to_vec())),
            Item::Pseudo(s, d) => { let (q, t) = next("a nested rule of a css block is missing"); check(no_space(&q) == no_space(&[&sel, s.as_bytes()].concat()), RULES); same_decls(&t, &own(d), RULES); }
            Item::Media(q, d, p) => {
                if d.is_empty() && p.is_empty() { continue; }
                let (s, t) = next("a media rule of a css block is missing"); check(trim(&s) == ["@media ".as_bytes(), q.as_bytes()].concat().as_slice(), RULES);
                let mut rest: &[u8] = &t;
                let mut block = |s: Vec<u8>, d: &[Decl]| { let o = rest.iter().position(|c| *c == b'{'); let e = rest.iter().position(|c| *c == b'}'); let (Some(o), Some(e)) = (o, e) else { check(false, RULES); return }; check(no_space(&rest[..o]) == no_space(&s), RULES); same_decls(&rest[o + 1..e], &own(d), RULES); rest = &rest[e + 1..]; };
                if !d.is_empty() { block(sel.clone(), d); } for (s, d) in p { block([&sel, s.as_bytes()].concat(), d); }
                check(trim(rest).is_empty(), RULES);
            }
            Item::Anim(a, f, b) => { let (s, t) = next("the keyframes of a css block are missing"); let n = b"@keyframes "; check(s.len() > n.len() && &s[..n.len()] == n, RULES); let name = s.get(n.len()..).unwrap_or(&[]).to_vec(); check(name != class, "keyframes and class share one name"); check(trim(&t) == trim(f.as_bytes()), RULES);
                let mut v = a.as_bytes().to_vec(); if !v.is_empty() { v.push(b' '); } v.extend(&name); if !b.is_empty() { v.push(b' '); v.extend(b.as_bytes()); } base.push((b"animation".to_vec(), v)); }
        }
    }
    let (s, t) = next("the own rule of a css block is missing"); check(s == sel, RULES); same_decls(&t, &base, RULES);
    check(at == new.len(), "a css block became more rules than it describes");
}
fn gen(n: usize, wide: usize) -> Vec<Item> {
    let d = |k: &'static str, w: usize| -> Decl { (k, value(w)) };
    (0..n).map(|_| match choice("item", 8) {
        0 => Item::Decl(d("color", wide)), 1 => Item::Decl(("width", "calc(1px + 2em)".into())), 2 => Item::Pseudo(":hover", vec![d("color", wide)]),
        3 => Item::Pseudo([":hover .autocss_9", "[disabled]", "::before"][choice("sel", 3)], vec![d("content", wide), ("--x", "1".into())]),
        4 => Item::Media("screen and (min-width: 4px)", vec![d("color", wide), ("left", "0".into())], vec![]),
        5 => Item::Media(["print", "(30em <= width)"][choice("query", 2)], if flag("own") { vec![d("top", 1)] } else { vec![] }, vec![(":focus", vec![d("color", wide)]), (":focus::first-letter", vec![("top", "1".into()), ("left", "2".into())])]),
        6 => Item::Anim(["1s linear", ""][choice("pre", 2)], format!("0% {{ left: {}; }} 100% {{ left: 1px; }}", value(wide)), ["", "both"][choice("post", 2)]),
        _ => Item::Decl(("background", "url('a:b')".into())),
    }).collect()
}
fn class_of(d: &Dom, id: u64) -> Vec<u8> { d.attr(id, "class").unwrap_or_default() }
/// C01: the rules and the class of a css block.
#[no_mangle]
pub extern "C" fn h_css_rules(n: u32, wide: u32) {
    let items = gen(n as usize, wide as usize); let sep = [" ", "\n  ", ""][choice("sep", 3)]; let text = source(&items, sep, flag("last"));
    let stat = flag("static"); let t = text.clone();
    let mk = move || if stat { Css::str(Box::leak(t.clone().into_boxed_str())) } else { Css::string(t.clone()) };
    let m2 = mk.clone();
    let d = start(move || { let e = DomElement::new("div"); let a = DomElement::new("a").css(m2()); e.add_child(a); e.into() });
    let class = class_of(&d, d.find("a")); check(!class.is_empty() && !class.contains(&b' '), "a css block has no class or several");
    verify(&d.css, &class, &items); quiet(); reach("end");
}
/// C02: one style, one class: equal styles share rules, different ones do not; order of the groups is kept.
#[no_mangle]
pub extern "C" fn h_css_share(n: u32) {
    let (t1, t2) = (ascii("t", 1), ascii("t", 1)); for t in [&t1, &t2] { let b = t.as_bytes()[0]; for x in [b';', b'{', b'}', b' ', b'\n', b'\t', 11, 12, b'\r'] { assume(b != x); } }
    let a = format!("color:a{t1}z"); let b = format!("color:a{t2}z");
    let (sa, sb): (&'static str, &'static str) = (Box::leak(a.clone().into_boxed_str()), Box::leak(b.clone().into_boxed_str()));
    let mut uses: Vec<Vec<usize>> = Vec::new(); // 0: a static, 1: b static, 2: a dynamic, 3: b dynamic
    for _ in 0..n { let k = 1 + choice("groups", 2); uses.push((0..k).map(|_| choice("group", 4)).collect()); }
    let one = |k: usize| match k { 0 => Css::str(sa), 1 => Css::str(sb), 2 => Css::string(a.clone()), _ => Css::string(b.clone()) };
    let list: Vec<Css> = uses.iter().map(|u| { let c = one(u[0]); match u.get(1) { None => c, Some(0) => c.push_str(sa), Some(2) => { let mut c = c; c.push_string(a.clone()); c } Some(k) => c.extend(one(*k)) } }).collect();
    let attr = flag("attr"); let l2 = list.clone();
    let d = start(move || { let e = DomElement::new("div"); for c in l2 { let a = DomElement::new("a"); if attr { a.add_attr("class", "own"); } e.add_child(a.css(c)); } e.into() });
    let els: Vec<u64> = d.nodes.iter().filter(|n| n.name == b"a").map(|n| n.id).collect(); check(els.len() == n as usize, "an element is missing from the document");
    let same = t1 == t2; let mut names: Vec<Option<Vec<u8>>> = vec![None; 4];
    for (u, id) in uses.iter().zip(els) {
        let c = class_of(&d, id); let mut parts: Vec<&[u8]> = c.split(|x| *x == b' ').collect();
        if attr { check(parts[0] == b"own", "the class attribute of an element loses the class given explicitly"); parts.remove(0); }
        check(parts.len() == u.len(), "an element has more or fewer classes than styles"); if parts.len() != u.len() { return; }
        for (k, p) in u.iter().zip(parts) { match &names[*k] { None => names[*k] = Some(p.to_vec()), Some(q) => check(q.as_slice() == p, "one style has two classes") } }
    }
    let mut rules = 0;
    for k in 0..4 { if let Some(p) = &names[k] {
        if same && k % 2 == 1 && names[k - 1].is_some() { check(names[k - 1].as_ref() == Some(p), "one style has two classes"); }
        if !names[..k].iter().any(|n| n.as_ref() == Some(p)) { rules += 1; }
        let r: Vec<_> = d.css.iter().filter(|r| r.0 == [b".", p.as_slice()].concat()).collect(); check(r.len() == 1, "the rule of a style is inserted more than once or never");
        for q in 0..k { if let Some(o) = &names[q] { if !(same || q % 2 == k % 2) { check(o != p, "two styles share one class"); } } }
        if let Some(r) = r.first() { same_decls(&r.1, &[(b"color".to_vec(), [&b"a"[..], if k % 2 == 0 { t1.as_bytes() } else { t2.as_bytes() }, &b"z"[..]].concat())], RULES); }
    } }
    check(d.css.len() == rules, "a rule is inserted although its style is known"); quiet(); reach("end");
}
fn text_of(c: &Css) -> Vec<u8> { let mut o = Vec::new(); for g in &c.groups { match g { CssGroup::CssStatic { value } => o.extend_from_slice(value.as_bytes()), CssGroup::CssDynamic { value } => o.extend_from_slice(value.as_bytes()), _ => check(false, "a css! block is a media group") } } o }
/// C03: the css! macro keeps what is written and puts expressions in their places.
#[no_mangle]
pub extern "C" fn h_css_macro(_x: u32) {
    let v = word("v", 1, b"abc19#"); let w = word("w", 1, b"abc19#"); let (vb, wb) = (v.as_bytes(), w.as_bytes());
    let is = |c: &Css, parts: &[&[u8]], msg: &str| { let got = text_of(c); let want: Vec<u8> = parts.concat(); check(no_nl(&got) == no_nl(&want), msg); };
    fn no_nl(s: &[u8]) -> Vec<u8> { s.iter().map(|c| if *c == b'\n' { b' ' } else { *c }).collect() }
    const M: &str = "a css! block became another text than written";
    match choice("case", 17) {
        0 => is(&css!("color: red; width: 5px;"), &[b"color: red; width: 5px;"], M),
        1 => is(&css!("color: {v}; width: {w}px;"), &[b"color: ", vb, b"; width: ", wb, b"px;"], M),
        2 => is(&css!("border: 1px solid {v};"), &[b"border: 1px solid ", vb, b";"], "an expression inside a value of a css! block is not replaced"),
        3 => is(&css!("width: {v}%; height: {w}em;"), &[b"width: ", vb, b"%; height: ", wb, b"em;"], "a unit after an expression of a css! block is torn off"),
        4 => is(&css!(":hover { color: {v}; }; width: {v};"), &[b":hover { color: ", vb, b"; }; width: ", vb, b";"], M),
        5 => is(&css!("@media screen and (min-width: 4px) { color: {v}; width: {w}; };"), &[b"@media screen and (min-width: 4px) { color: ", vb, b"; width: ", wb, b"; };"], M),
        6 => is(&css!("animation: 1s linear { 0% { left: {v}; } 100% { left: {w}; } };"), &[b"animation: 1s linear { 0% { left: ", vb, b"; } 100% { left: ", wb, b"; } };"], M),
        7 => is(&css!("background-image: url({v});"), &[b"background-image: url('", vb, b"');"], M),
        8 => { let n = u8("n") as usize % 3; is(&css!("width: {n + 1}px; height: {n + 1}px; top: {[7, 8, 9][n]}px;"), &[b"width: ", &[b'1' + n as u8], b"px; height: ", &[b'1' + n as u8], b"px; top: ", &[b'7' + n as u8], b"px;"], M) }
        10 => is(&css!("color: rgba(1,2,3,{v}); background: {v} {w}; top: {v}{w};"), &[b"color: rgba(1,2,3,", vb, b"); background: ", vb, b" ", wb, b"; top: ", vb, wb, b";"], M),
        11 => is(&css!("font-family: 'A b', {v}; color: #aabbcc;"), &[b"font-family: 'A b', ", vb, b"; color: #aabbcc;"], M),
        12 => { const V: u32 = 7; let v = 1 + u32("one") % 3; let (p, q) = ("x".to_string(), vec!["u", "w"]); let s = [b'0' + v as u8]; is(&css!("width: {v}px; height: {V}px; top: {v + 1}px; left: { v }px; right: {v}px; z-index: {v+1};"), &[b"width: ", &s, b"px; height: 7px; top: ", &[s[0] + 1], b"px; left: ", &s, b"px; right: ", &s, b"px; z-index: ", &[s[0] + 1], b";"], M);
            is(&css!("content: {p.as_str()}; color: {q[0]}; left: {q[1]}; top: {p.len() * 2}px;"), &[b"content: x; color: u; left: w; top: 2px;"], M); }
        13 => { let (a, b, c, d) = (&v, &w, "k", 4); is(&css!("margin: {a} {b} {c} {d}; padding: {d}px {c} {b}% {a};"), &[b"margin: ", vb, b" ", wb, b" k 4; padding: 4px k ", wb, b"% ", vb, b";"], M); }
        14 => { let (a, b) = (&v, &w); is(&css!("@media print { left: {a}; :hover { color: {b}; }; }; :focus { top: {b}; }; left: {b};"), &[b"@media print { left: ", vb, b"; :hover { color: ", wb, b"; }; }; :focus { top: ", wb, b"; }; left: ", wb, b";"], M); }
        15 => { is(&css!("/* {not} an expression; */ color: {v}; /* end */"), &[b"color: ", vb, b";"], M); is(&css!("-webkit-x: {v}; grid-area: 1 / 2 / {w} / 3; background: url('a:b;c'); top: {v};"), &[b"-webkit-x: ", vb, b"; grid-area: 1 / 2 / ", wb, b" / 3; background: url('a:b;c'); top: ", vb, b";"], M); }
        _ => { let mut c = css!("color: red;"); c = c.push_str(css_block! { "width: 1px;" }); check(c.groups.len() == 2 && text_of(&c) == b"color: red;width: 1px;", M); }
    }
    let _ = host(|h| h.errors); reach("end");
}
