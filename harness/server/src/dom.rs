//! A small HTML reader (what a browser makes of the page) and a reference document.
use symrt::check;
#[derive(Clone, PartialEq, Debug)]
pub enum N { El(El), Text(Vec<u8>) }
#[derive(Clone, PartialEq, Debug, Default)]
pub struct El { pub name: Vec<u8>, pub attrs: Vec<(Vec<u8>, Vec<u8>)>, pub kids: Vec<N> }
const VOID: [&[u8]; 14] = [b"area", b"base", b"br", b"col", b"embed", b"hr", b"img", b"input", b"link", b"meta", b"param", b"source", b"track", b"wbr"];
fn is_void(n: &[u8]) -> bool { VOID.iter().any(|v| *v == n) }
fn raw(n: &[u8]) -> bool { n == b"script" || n == b"style" }
fn ws(b: u8) -> bool { b == b' ' || b == b'\n' || b == b'\t' || b == b'\r' || b == 12 }

pub struct Reader<'a> { b: &'a [u8], i: usize, bad: bool }
impl<'a> Reader<'a> {
    fn at(&self, s: &[u8]) -> bool { self.b.len() - self.i >= s.len() && &self.b[self.i..self.i + s.len()] == s }
    fn skip_ws(&mut self) { while self.i < self.b.len() && ws(self.b[self.i]) { self.i += 1; } }
    fn text_of(&mut self, stop: impl Fn(u8) -> bool) -> Vec<u8> {
        let mut out = Vec::new();
        while self.i < self.b.len() && !stop(self.b[self.i]) {
            if self.b[self.i] == b'&' {
                let mut hit = false;
                for (e, c) in [(&b"&amp;"[..], &b"&"[..]), (b"&lt;", b"<"), (b"&gt;", b">"), (b"&quot;", b"\""), (b"&apos;", b"'"), (b"&nbsp;", b"\xc2\xa0"), (b"&amp", b"&"), (b"&lt", b"<"), (b"&gt", b">"), (b"&quot", b"\"")] { if self.at(e) { out.extend_from_slice(c); self.i += e.len(); hit = true; break; } }
                if !hit && self.at(b"&#") {
                    let (mut k, mut v, mut d) = (self.i + 2, 0u32, 0); let hex = k < self.b.len() && (self.b[k] == b'x' || self.b[k] == b'X'); if hex { k += 1; }
                    while k < self.b.len() { match (self.b[k] as char).to_digit(if hex { 16 } else { 10 }) { Some(x) => { v = (v * if hex { 16 } else { 10 } + x).min(0x110000); d += 1; k += 1; } None => break } }
                    if d > 0 { if k < self.b.len() && self.b[k] == b';' { k += 1; } let mut u = [0; 4]; out.extend_from_slice(char::from_u32(v).unwrap_or('\u{fffd}').encode_utf8(&mut u).as_bytes()); self.i = k; hit = true; }
                }
                if hit { continue; }
            }
            out.push(self.b[self.i]); self.i += 1;
        }
        out
    }
    fn name(&mut self) -> Vec<u8> { let s = self.i; while self.i < self.b.len() { let c = self.b[self.i]; if ws(c) || c == b'>' || c == b'/' || c == b'=' || c == b'<' || c == b'"' { break; } self.i += 1; } self.b[s..self.i].to_vec() }
    /// Children up to the closing tag of `parent`.
    fn kids(&mut self, parent: &[u8]) -> Vec<N> {
        let mut out: Vec<N> = Vec::new();
        loop {
            if self.bad || self.i >= self.b.len() { if !parent.is_empty() { self.bad = true; } return out; }
            if self.at(b"</") { self.i += 2; let n = self.name(); self.skip_ws(); if n != parent || !self.at(b">") { self.bad = true; } self.i += 1; return out; }
            if self.at(b"<!--") { match find(&self.b[self.i..], b"-->") { Some(k) => self.i += k + 3, None => self.bad = true } continue; }
            if self.at(b"<") {
                self.i += 1; let mut e = El { name: self.name(), ..El::default() };
                if e.name.is_empty() || !e.name[0].is_ascii_alphabetic() { self.bad = true; return out; }
                let mut closed = false;
                loop {
                    self.skip_ws();
                    if self.at(b"/>") { self.i += 2; closed = true; break; }
                    if self.at(b">") { self.i += 1; break; }
                    let n = self.name(); if n.is_empty() || !self.at(b"=\"") { self.bad = true; return out; }
                    self.i += 2; let v = self.text_of(|c| c == b'"'); if !self.at(b"\"") { self.bad = true; return out; } self.i += 1;
                    e.attrs.push((n, v));
                }
                if closed && !is_void(&e.name) { self.bad = true; }
                if !is_void(&e.name) {
                    if raw(&e.name) {
                        let close = [b"</", e.name.as_slice(), b">"].concat();
                        match find(&self.b[self.i..], &close) { Some(k) => { if k > 0 { e.kids.push(N::Text(self.b[self.i..self.i + k].to_vec())); } self.i += k + close.len() } None => self.bad = true }
                    } else if e.name == b"textarea" || e.name == b"title" {
                        let close = [b"</", e.name.as_slice(), b">"].concat();
                        match find(&self.b[self.i..], &close) { Some(k) => { let mut r = Reader { b: &self.b[..self.i + k], i: self.i, bad: false }; let t = r.text_of(|_| false); if !t.is_empty() { e.kids.push(N::Text(t)); } self.i += k + close.len() } None => self.bad = true }
                    } else { let n = e.name.clone(); e.kids = self.kids(&n); }
                }
                out.push(N::El(e)); continue;
            }
            let t = self.text_of(|c| c == b'<'); out.push(N::Text(t));
        }
    }
}
pub fn find(h: &[u8], n: &[u8]) -> Option<usize> { (0..h.len().saturating_sub(n.len() - 1)).find(|i| &h[*i..*i + n.len()] == n) }
/// Document element of the page, None when it is not a well-formed document with one root.
pub fn read(page: &[u8]) -> Option<El> {
    let mut r = Reader { b: page, i: 0, bad: false };
    if !r.at(b"<!DOCTYPE html>") { return None; }
    r.i += 15; let k = r.kids(b"");
    if r.bad { return None; }
    let mut els = k.into_iter().filter_map(|n| match n { N::El(e) => Some(e), N::Text(_) => None });
    let e = els.next(); if els.next().is_some() { return None; } e
}
fn trim(t: &[u8]) -> &[u8] { let (mut a, mut b) = (0, t.len()); while a < b && ws(t[a]) { a += 1; } while b > a && ws(t[b - 1]) { b -= 1; } &t[a..b] }
/// Merges neighbouring texts; next to elements white space at the ends does not count (the page is
/// indented), alone in an element the text counts as it is.
pub fn normal(e: &El) -> El {
    let mut kids: Vec<N> = Vec::new();
    for k in &e.kids { match k { N::El(c) => kids.push(N::El(normal(c))), N::Text(t) => if let Some(N::Text(p)) = kids.last_mut() { p.extend_from_slice(t) } else { kids.push(N::Text(t.clone())) } } }
    if kids.iter().any(|k| matches!(k, N::El(_))) { for k in kids.iter_mut() { if let N::Text(t) = k { *t = trim(t).to_vec(); } } }
    kids.retain(|k| !matches!(k, N::Text(t) if t.is_empty()));
    El { name: e.name.clone(), attrs: e.attrs.clone(), kids }
}
pub fn same(a: &El, b: &El, what: &str) {
    let (a, b) = (normal(a), normal(b)); cmp(&a, &b, what)
}
fn cmp(a: &El, b: &El, what: &str) {
    // an element without content is written on two lines
    let strip: El; let a = if b.kids.is_empty() { let mut x = a.clone(); x.kids.retain(|k| !matches!(k, N::Text(t) if trim(t).is_empty())); strip = x; &strip } else { a };
    check(a.name == b.name, what);
    check(a.attrs.len() == b.attrs.len(), what);
    for (n, v) in &a.attrs { match b.attrs.iter().find(|x| x.0 == *n) { Some(x) => check(x.1 == *v, what), None => check(false, what) } }
    check(a.kids.len() == b.kids.len(), what);
    for (x, y) in a.kids.iter().zip(&b.kids) { match (x, y) { (N::El(p), N::El(q)) => cmp(p, q, what), (N::Text(p), N::Text(q)) => check(p == q, what), _ => check(false, what) } }
}
pub fn child<'a>(e: &'a El, name: &[u8]) -> Option<&'a El> { e.kids.iter().find_map(|k| match k { N::El(c) if c.name == name => Some(c), _ => None }) }
pub fn el(name: &str, attrs: &[(&str, &str)], kids: Vec<N>) -> El { El { name: name.as_bytes().to_vec(), attrs: attrs.iter().map(|(a, b)| (a.as_bytes().to_vec(), b.as_bytes().to_vec())).collect(), kids } }
pub fn run_script() -> El { el("script", &[("type", "module"), ("data-vertigo-run-wasm", "/build/app.wasm"), ("src", "/build/run.js")], vec![]) }

/// Reference document: the nodes as the browser driver keeps them.
#[derive(Clone)]
pub enum K { El { name: Vec<u8>, attrs: Vec<(Vec<u8>, Vec<u8>)>, kids: Vec<u64> }, Text(Vec<u8>), Comment }
#[derive(Clone, Default)]
pub struct Doc { pub nodes: Vec<(u64, K)> }
impl Doc {
    pub fn get(&self, id: u64) -> Option<&K> { self.nodes.iter().find(|n| n.0 == id).map(|n| &n.1) }
    pub fn get_mut(&mut self, id: u64) -> &mut K { &mut self.nodes.iter_mut().find(|n| n.0 == id).unwrap().1 }
    pub fn node(&mut self, id: u64, name: &str) { self.nodes.push((id, K::El { name: name.as_bytes().to_vec(), attrs: vec![], kids: vec![] })) }
    pub fn detach(&mut self, id: u64) { for n in self.nodes.iter_mut() { if let K::El { kids, .. } = &mut n.1 { kids.retain(|k| *k != id) } } }
    pub fn insert(&mut self, parent: u64, id: u64, before: Option<u64>) { self.detach(id); if let K::El { kids, .. } = self.get_mut(parent) { let at = before.and_then(|b| kids.iter().position(|k| *k == b)).unwrap_or(kids.len()); kids.insert(at, id) } }
    pub fn remove(&mut self, id: u64) { self.detach(id); self.nodes.retain(|n| n.0 != id) }
    pub fn set(&mut self, id: u64, n: &[u8], v: &[u8]) { if let K::El { attrs, .. } = self.get_mut(id) { match attrs.iter_mut().find(|a| a.0 == n) { Some(a) => a.1 = v.to_vec(), None => attrs.push((n.to_vec(), v.to_vec())) } } }
    pub fn unset(&mut self, id: u64, n: &[u8]) { if let K::El { attrs, .. } = self.get_mut(id) { attrs.retain(|a| a.0 != n) } }
    pub fn parent(&self, id: u64) -> Option<u64> { self.nodes.iter().find(|n| matches!(&n.1, K::El { kids, .. } if kids.contains(&id))).map(|n| n.0) }
    pub fn within(&self, id: u64, top: u64) -> bool { let mut c = Some(id); while let Some(x) = c { if x == top { return true; } c = self.parent(x); } false }
    pub fn tree(&self, id: u64) -> Option<N> { match self.get(id)? { K::Comment => None, K::Text(t) => Some(N::Text(t.clone())), K::El { name, attrs, kids } => Some(N::El(El { name: name.clone(), attrs: attrs.clone(), kids: kids.iter().filter_map(|k| self.tree(*k)).collect() })) } }
    pub fn skeleton() -> Doc { let mut d = Doc::default(); d.node(1, "html"); d.node(2, "head"); d.node(3, "body"); d.insert(1, 2, None); d.insert(1, 3, None); d }
    /// The page: the document plus styles in front of the body and the start script at its end.
    pub fn page(&self, styles: &[Vec<u8>], env: &[(Vec<u8>, Vec<u8>)]) -> El {
        let Some(N::El(mut h)) = self.tree(1) else { check(false, "reference document without root"); return El::default() };
        for (n, v) in env { let k = [b"data-env-", n.as_slice()].concat(); match h.attrs.iter_mut().find(|a| a.0 == k) { Some(a) => a.1 = v.clone(), None => h.attrs.push((k, v.clone())) } }
        for k in h.kids.iter_mut() { if let N::El(b) = k { if b.name == b"body" {
            for (i, s) in styles.iter().enumerate() { b.kids.insert(i, N::El(El { name: b"style".to_vec(), attrs: vec![], kids: vec![N::Text(s.clone())] })); }
            b.kids.push(N::El(run_script())); break;
        } } }
        h
    }
}
