//! The document as recreated by vertigo::inspect.
use symrt::*;
use vertigo::{self, css, dom, inspect::{log_start, log_take, DomDebugFragment}, DomElement, DomNode, DomText, Value};

/// Compares with a pattern: `#` stands for digits.
fn fits(s: &[u8], p: &[u8]) -> bool {
    let (mut i, mut k) = (0, 0);
    while k < p.len() { if p[k] == b'#' { let a = i; while i < s.len() && s[i].is_ascii_digit() { i += 1; } if i == a { return false; } } else { if i >= s.len() || s[i] != p[k] { return false; } i += 1; } k += 1; }
    i == s.len()
}
/// Without comments and empty classes.
fn bare(s: &[u8]) -> Vec<u8> { let mut o = Vec::new(); let mut i = 0; while i < s.len() { if s[i..].starts_with(b"<!--") { while i < s.len() && !s[i..].starts_with(b"-->") { i += 1; } i += 3; } else if s[i..].starts_with(b" class=''") { i += 9; } else { o.push(s[i]); i += 1; } } o }
/// I01: the pseudo html is the document of the commands since the log was started.
#[no_mangle]
pub extern "C" fn h_inspect(steps: u32) {
    let m = "the recreated document differs from the one that was built";
    let before = DomElement::new("before"); let _ = &before;
    let text = Value::new("t".to_string()); let cls = Value::new(None::<String>); let col = Value::new(0u32); let mode = Value::new(0u32); let list = Value::new(vec![0usize, 1]); let lang = Value::new(None::<String>);
    let names = ["k0", "k1", "k2"]; let t = text.clone(); log_start();
    let style = col.map(|c| match c { 0 => css! {"color: red;"}, 1 => css! {"color: blue;"}, _ => css! {"color: red;"}.extend(css! {"color: blue;"}) });
    let part = mode.render_value_option(move |m| match m { 0 => None, 1 => Some(DomText::new("one").into()), 2 => Some(dom! { <u on_click={|| {}}>{&t}</u> }), _ => Some(dom! { <i/> <s>"x"</s> }) });
    let items = list.render_list(|k| *k, move |k| DomElement::new(names[*k]).child_text(names[*k]).into());
    let el: DomNode = dom! { <div><p title={&text}>"a"{&text}</p>{items}<q class={&cls}/>{part}<b css={style}/><em lang={&lang} on_input={|_| {}}/></div> };
    let (mut ct, mut cc, mut ccol, mut cm, mut cl, mut cn) = ("t".to_string(), None::<&str>, 0u32, 0u32, vec![0usize, 1], false);
    for _ in 0..steps { match choice("op", 6) {
        0 => { ct = word("text", 1, b"uvw<'").to_string(); text.set(ct.clone()); }
        1 => { cc = [None, Some("x"), Some("y z")][choice("class", 3)]; cls.set(cc.map(|c| c.to_string())); reach("class"); }
        2 => { ccol = choice("color", 3) as u32; col.set(ccol); reach("style"); }
        3 => { cm = choice("mode", 4) as u32; mode.set(cm); }
        4 => { cl = [vec![], vec![1, 0], vec![2, 0, 1], vec![1]][choice("list", 4)].clone(); list.set(cl.clone()); }
        _ => { cn = !cn; lang.set(if cn { Some("n".into()) } else { None }); }
    } }
    let html = DomDebugFragment::from_log().to_pseudo_html(); check(log_take().is_empty(), "a log that was taken is not empty");
    let mut want = Vec::new(); let mut put = |s: &str| want.extend_from_slice(s.as_bytes());
    put("<div><p title='"); put(&ct); put("'>a"); put(&ct); put("</p>"); for k in &cl { put("<"); put(names[*k]); put(">"); put(names[*k]); put("</"); put(names[*k]); put(">"); } put("<q");
    if let Some(c) = cc { put(" class='"); put(c); put("'"); } put("></q>"); match cm { 0 => {} 1 => put("one"), 2 => { put("<u click=#>"); put(&ct); put("</u>"); } _ => put("<i></i><s>x</s>") } put("<b ");
    // two rules together keep their class names
    if ccol == 2 { want.extend_from_slice(b"class='autocss_# autocss_#'"); } else { want.extend_from_slice(if ccol == 0 { b"style='color: red'" } else { b"style='color: blue'" }); }
    let mut put = |s: &str| want.extend_from_slice(s.as_bytes()); put("></b><em"); if cn { put(" lang='n'"); } put(" input=#></em></div>");
    note(&html);
    let _ = (cc, ccol, cm, &el); check(fits(&bare(html.as_bytes()), &want), m); reach("end");
}
