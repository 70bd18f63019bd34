//! Model of the browser document: applies bulk updates the way src_js/api_browser/dom/dom.ts does.
//! Anything that would throw there (unknown node, wrong kind, reference that is not a child of the
//! parent, a cycle) is an assertion.
use crate::host::{host, J};
use symrt::check;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { El, Text, Comment }
pub struct Node { pub id: u64, pub kind: Kind, pub name: Vec<u8>, pub text: Vec<u8>, pub attrs: Vec<(Vec<u8>, Vec<u8>)>, pub parent: u64, pub children: Vec<u64>, pub updates: u32 }
/// What the user sees: elements and texts, comments left out.
#[derive(Clone, Debug, PartialEq)]
pub enum T { El(&'static str, Vec<(&'static str, Vec<u8>)>, Vec<T>), Text(Vec<u8>) }
pub fn el(n: &'static str, c: Vec<T>) -> T { T::El(n, Vec::new(), c) }
pub fn ela(n: &'static str, a: Vec<(&'static str, Vec<u8>)>, c: Vec<T>) -> T { T::El(n, a, c) }
pub fn tx(s: impl AsRef<[u8]>) -> T { T::Text(s.as_ref().to_vec()) }

pub struct Dom { pub nodes: Vec<Node>, pub css: Vec<(Vec<u8>, Vec<u8>)>, pub listeners: Vec<(u64, Vec<u8>, u64)>, pub at: usize, pub created: u32, pub removed: u32 }
impl Dom {
    pub fn new() -> Dom {
        let mut d = Dom { nodes: Vec::new(), css: Vec::new(), listeners: Vec::new(), at: 0, created: 0, removed: 0 };
        for (i, n) in [(1u64, "html"), (2, "head"), (3, "body")] { d.nodes.push(Node { id: i, kind: Kind::El, name: n.as_bytes().to_vec(), text: Vec::new(), attrs: Vec::new(), parent: 0, children: Vec::new(), updates: 0 }); }
        d
    }
    fn ix(&self, id: u64) -> Option<usize> { self.nodes.iter().position(|n| n.id == id) }
    pub fn node(&self, id: u64) -> &Node { let i = self.ix(id); check(i.is_some(), "an update names a node the document does not have"); &self.nodes[i.unwrap_or(0)] }
    fn at(&mut self, id: u64, kind: Kind) -> &mut Node {
        let i = self.ix(id); check(i.is_some(), "an update names a node the document does not have");
        let n = &mut self.nodes[i.unwrap_or(0)]; check(n.kind == kind, "an update treats a node as another kind of node"); n
    }
    fn create(&mut self, id: u64, kind: Kind, name: Vec<u8>, text: Vec<u8>) {
        if id <= 3 { check(self.node(id).name == name, "a root node is created under another name"); return; }
        check(self.ix(id).is_none(), "a node is created twice"); self.created += 1;
        self.nodes.push(Node { id, kind, name, text, attrs: Vec::new(), parent: 0, children: Vec::new(), updates: 0 });
    }
    fn detach(&mut self, id: u64) { let p = self.node(id).parent; if p != 0 { if let Some(i) = self.ix(p) { self.nodes[i].children.retain(|c| *c != id); } let i = self.ix(id).unwrap(); self.nodes[i].parent = 0; } }
    fn remove(&mut self, id: u64, kind: Kind) {
        check(id > 3, "a root node is removed"); self.at(id, kind); self.detach(id); let i = self.ix(id).unwrap();
        for c in self.nodes[i].children.clone() { if let Some(k) = self.ix(c) { self.nodes[k].parent = 0; } }
        self.nodes.remove(i); self.removed += 1;
    }
    fn insert(&mut self, parent: u64, child: u64, r: Option<u64>) {
        let mut up = parent; let mut n = 0; while up != 0 { check(up != child, "a node is inserted into itself"); up = self.node(up).parent; n += 1; if n > 100 { break; } }
        check(self.node(parent).kind == Kind::El, "a node is inserted into something that is not an element");
        self.node(child);
        if let Some(r) = r { check(self.node(r).parent == parent, "a node is inserted before a node that is not a child of the same parent"); if r == child { return; } }
        self.detach(child);
        let pi = self.ix(parent).unwrap();
        let pos = match r { None => self.nodes[pi].children.len(), Some(r) => self.nodes[pi].children.iter().position(|c| *c == r).unwrap_or(0) };
        self.nodes[pi].children.insert(pos, child); let ci = self.ix(child).unwrap(); self.nodes[ci].parent = parent;
    }
    /// Applies everything the application has sent since the last call.
    pub fn apply(&mut self) -> usize {
        let l: Vec<J> = host(|h| h.dom[self.at..].to_vec()); self.at += l.len();
        for c in &l { self.command(c); }
        l.len()
    }
    pub fn command(&mut self, c: &J) {
        let ty = c.str("type"); let t = ty.as_slice();
        if t == b"create_node" { self.create(c.num("id"), Kind::El, c.str("name"), Vec::new()); }
        else if t == b"create_text" { self.create(c.num("id"), Kind::Text, Vec::new(), c.str("value")); }
        else if t == b"create_comment" { self.create(c.num("id"), Kind::Comment, Vec::new(), c.str("value")); }
        else if t == b"update_text" { let v = c.str("value"); let n = self.at(c.num("id"), Kind::Text); n.text = v; n.updates += 1; }
        else if t == b"set_attr" { let (k, v) = (c.str("name"), c.str("value")); let n = self.at(c.num("id"), Kind::El); n.updates += 1; match n.attrs.iter_mut().find(|a| a.0 == k) { Some(a) => a.1 = v, None => n.attrs.push((k, v)) } }
        else if t == b"remove_attr" { let k = c.str("name"); let n = self.at(c.num("id"), Kind::El); n.attrs.retain(|a| a.0 != k); }
        else if t == b"remove_node" { self.remove(c.num("id"), Kind::El); }
        else if t == b"remove_text" { self.remove(c.num("id"), Kind::Text); }
        else if t == b"remove_comment" { self.remove(c.num("id"), Kind::Comment); }
        else if t == b"insert_before" { let r = match c.get("ref_id") { Some(J::Null) => None, _ => Some(c.num("ref_id")) }; self.insert(c.num("parent"), c.num("child"), r); }
        else if t == b"insert_css" { self.css.push((c.str("selector"), c.str("value"))); }
        else if t == b"callback_add" { let cb = c.num("callback_id"); self.node(c.num("id")); check(!self.listeners.iter().any(|l| l.2 == cb), "one callback is attached twice"); self.listeners.push((c.num("id"), c.str("event_name"), cb)); }
        else if t == b"callback_remove" { let (id, e, cb) = (c.num("id"), c.str("event_name"), c.num("callback_id")); let i = self.listeners.iter().position(|l| *l == (id, e.clone(), cb)); check(i.is_some(), "a callback is removed that was not attached there"); if e != b"hook_keydown" { self.node(id); } if let Some(i) = i { self.listeners.remove(i); } }
        else { check(false, "an unknown kind of update is sent"); }
    }
    /// Compares the subtree of `id` with the expected view.
    pub fn same(&self, id: u64, t: &T, msg: &str) {
        let n = self.node(id);
        match t {
            T::Text(s) => { check(n.kind == Kind::Text, msg); check(n.text == *s, msg); }
            T::El(name, attrs, kids) => {
                check(n.kind == Kind::El && n.name == name.as_bytes(), msg);
                check(n.attrs.len() == attrs.len(), msg);
                for (k, v) in attrs { let a = n.attrs.iter().find(|a| a.0 == k.as_bytes()); check(a.is_some(), msg); if let Some(a) = a { check(a.1 == *v, msg); } }
                self.same_children(id, kids, msg);
            }
        }
    }
    pub fn same_children(&self, id: u64, kids: &[T], msg: &str) {
        let c = self.visible(id);
        check(c.len() == kids.len(), msg);
        if c.len() == kids.len() { for (c, k) in c.iter().zip(kids) { self.same(*c, k, msg); } }
    }
    /// Children that are not comments, in order.
    pub fn visible(&self, id: u64) -> Vec<u64> { self.node(id).children.iter().copied().filter(|c| self.node(*c).kind != Kind::Comment).collect() }
    /// Every node must hang in the document.
    pub fn no_orphans(&self) { for n in &self.nodes { if n.id > 3 { check(n.parent != 0 && self.ix(n.parent).is_some(), "a node stays registered although it is no longer in the document"); } } }
    pub fn find(&self, name: &str) -> u64 { let n = self.nodes.iter().find(|n| n.name == name.as_bytes()); check(n.is_some(), "an element is missing from the document"); n.map_or(1, |n| n.id) }
    pub fn attr(&self, id: u64, k: &str) -> Option<Vec<u8>> { self.node(id).attrs.iter().find(|a| a.0 == k.as_bytes()).map(|a| a.1.clone()) }
    pub fn listeners_of(&self, id: u64, e: &str) -> Vec<u64> { self.listeners.iter().filter(|l| l.0 == id && l.1 == e.as_bytes()).map(|l| l.2).collect() }
}
