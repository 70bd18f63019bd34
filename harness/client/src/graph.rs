//! Reactive graph: values, computeds, subscriptions, transactions, connections.
use std::{cell::{Cell, RefCell}, rc::Rc};
use symrt::*;
use vertigo::{transaction, AutoMap, Computed, DropResource, Value};

pub const NC: usize = 6;
/// The function each computed is defined to be, over plain values (the oracle).
fn ev(j: usize, m: &[u32; 3]) -> u32 {
    let c0 = || m[0] ^ m[1];
    let c1 = || if m[2] & 1 == 1 { c0() } else { m[1] };
    let c2 = || c0().wrapping_add(c1().wrapping_mul(2));
    match j {
        0 => c0(), 1 => c1(), 2 => c2(),
        3 => c2() & 1,                                           // often unchanged although its sources changed
        4 => if m[0] < 16 { m[2] } else { c2() & 1 },            // switches between a source and a derived value
        _ => (c1() >> 1).wrapping_sub(m[2]),
    }
}
pub struct World { pub s: Vec<Value<u32>>, pub m: [u32; 3], pub c: Vec<Computed<u32>>, pub runs: Rc<Vec<Cell<u32>>> }
impl World {
    pub fn new() -> World {
        let m = [u32("s0"), u32("s1"), u32("s2")];
        let s: Vec<Value<u32>> = m.iter().map(|v| Value::new(*v)).collect();
        let runs: Rc<Vec<Cell<u32>>> = Rc::new((0..NC).map(|_| Cell::new(0)).collect());
        let hit = |j: usize| { let r = runs.clone(); move || r[j].set(r[j].get() + 1) };
        let mut c: Vec<Computed<u32>> = Vec::new();
        { let (a, b, h) = (s[0].clone(), s[1].clone(), hit(0)); c.push(Computed::from(move |x| { h(); a.get(x) ^ b.get(x) })); }
        { let (k, a, b, h) = (s[2].clone(), c[0].clone(), s[1].clone(), hit(1)); c.push(Computed::from(move |x| { h(); if k.get(x) & 1 == 1 { a.get(x) } else { b.get(x) } })); }
        { let (a, b, h) = (c[0].clone(), c[1].clone(), hit(2)); c.push(Computed::from(move |x| { h(); a.get(x).wrapping_add(b.get(x).wrapping_mul(2)) })); }
        { let h = hit(3); c.push(c[2].map(move |v| { h(); v & 1 })); }
        { let (k, a, b, h) = (s[0].clone(), s[2].clone(), c[3].clone(), hit(4)); c.push(Computed::from(move |x| { h(); if k.get(x) < 16 { a.get(x) } else { b.get(x) } })); }
        { let (a, b, h) = (c[1].clone(), s[2].to_computed(), hit(5)); c.push(Computed::from(move |x| { h(); (a.get(x) >> 1).wrapping_sub(b.get(x)) })); }
        World { s, m, c, runs }
    }
    pub fn ev(&self, j: usize) -> u32 { ev(j, &self.m) }
    pub fn read(&self, j: usize) { let v = transaction(|x| self.c[j].get(x)); check(v == self.ev(j), "a derived value differs from a fresh computation over the current sources"); }
    pub fn read_all(&self) { for j in 0..NC { self.read(j); } for i in 0..3 { check(transaction(|x| self.s[i].get(x)) == self.m[i], "a source does not hold the last value written"); } }
}
pub struct Sub { pub j: usize, pub log: Rc<RefCell<Vec<u32>>>, pub drop: Option<DropResource>, pub exp: Vec<u32>, all: bool }
impl Sub {
    pub fn on(c: &Computed<u32>, j: usize, now: u32) -> Sub {
        let log = Rc::new(RefCell::new(Vec::new())); let l = log.clone();
        let d = c.clone().subscribe(move |v: u32| l.borrow_mut().push(v));
        Sub { j, log, drop: Some(d), exp: vec![now], all: false }
    }
    pub fn new(w: &World, j: usize, all: bool) -> Sub {
        let log = Rc::new(RefCell::new(Vec::new())); let l = log.clone();
        let f = move |v: u32| l.borrow_mut().push(v);
        let d = if all { w.c[j].clone().subscribe_all(f) } else { w.c[j].clone().subscribe(f) };
        Sub { j, log, drop: Some(d), exp: vec![w.ev(j)], all }
    }
    /// After a transaction: one call iff the value changed.
    pub fn settle(&mut self, w: &World) { if !self.all { self.settle_to(w.ev(self.j)); } }
    pub fn settle_to(&mut self, v: u32) {
        if self.drop.is_some() { if *self.exp.last().unwrap() != v { reach("changed"); self.exp.push(v); } else { reach("unchanged"); } }
        let l = self.log.borrow();
        check(l.len() <= self.exp.len(), "a subscriber was called although its value did not change, or more than once, or after it unsubscribed");
        check(l.len() >= self.exp.len(), "a subscriber missed a change of its value");
        for (a, b) in l.iter().zip(self.exp.iter()) { check(*a == *b, "a subscriber was called with a value other than the committed one"); }
    }
}
fn write(w: &mut World, i: usize, how: usize) {
    let v = u32("v"); 
    match how {
        0 => w.s[i].set(v),
        1 => w.s[i].change(|x| *x = v),
        _ => w.s[i].set_value_and_compare(v),
    }
    w.m[i] = v;
}

/// G01: histories of writes, reads, subscriptions and unsubscriptions.
#[no_mangle]
pub extern "C" fn h_graph_fresh(steps: u32, maxc: u32) {
    let mut w = World::new();
    let mut subs: Vec<Option<DropResource>> = (0..NC).map(|_| None).collect();
    for _ in 0..steps {
        match choice("op", 5) {
            0 => { let i = choice("i", 3); let v = u32("v"); w.s[i].set(v); w.m[i] = v; }
            1 => { let j = choice("j", maxc as usize); w.read(j); reach("read"); }
            2 => { let j = choice("j", maxc as usize); if subs[j].is_none() { subs[j] = Some(w.c[j].clone().subscribe(|_| {})); reach("sub"); } }
            3 => { let j = choice("j", maxc as usize); if subs[j].is_some() { subs[j] = None; reach("unsub"); } else { return; } }
            _ => { // a transaction that writes two sources and reads in between
                let (a, b) = (u32("v"), u32("v")); let j = choice("j", maxc as usize);
                transaction(|x| {
                    w.s[0].set(a); w.m[0] = a;
                    check(w.c[j].get(x) == ev(j, &w.m), "a read inside a transaction does not see the writes made so far");
                    w.s[2].set(b); w.m[2] = b;
                    check(w.c[j].get(x) == ev(j, &w.m), "a read inside a transaction does not see the writes made so far");
                });
            }
        }
    }
    w.read_all();
    reach("end");
}
/// G02: what subscribers see.
#[no_mangle]
pub extern "C" fn h_graph_notify(steps: u32, maxc: u32) {
    let mut w = World::new();
    let mut subs: Vec<Sub> = Vec::new();
    let first = choice("first", maxc as usize);
    subs.push(Sub::new(&w, first, false));
    for s in subs.iter_mut() { s.settle(&w); }
    for _ in 0..steps {
        match choice("op", 4) {
            0 => { let i = choice("i", 3); let how = choice("how", 3); write(&mut w, i, how); }
            1 => { let j = choice("j", maxc as usize); subs.push(Sub::new(&w, j, false)); }
            2 => { let k = choice("k", subs.len()); if subs[k].drop.is_none() { return; } subs[k].drop = None; reach("dropped"); }
            _ => { let (a, b) = (u32("v"), u32("v")); transaction(|_| { w.s[0].set(b); w.s[1].set(a); w.s[0].set(a); w.s[2].set(b); }); w.m = [a, a, b]; reach("tx"); }
        }
        for s in subs.iter_mut() { s.settle(&w); }
    }
    w.read_all();
    for s in subs.iter_mut() { s.settle(&w); trace(s.log.borrow().len() as u64); }
}
/// A smaller graph for longer histories: two sources, a chain, a switch and a diamond.
struct Small { s: [Value<u32>; 2], m: [u32; 2], c: Vec<Computed<u32>> }
impl Small {
    fn new() -> Small {
        let m = [u8("s0") as u32, u8("s1") as u32]; let s = [Value::new(m[0]), Value::new(m[1])]; let mut c: Vec<Computed<u32>> = Vec::new();
        c.push(s[0].map(|v| v ^ 5));
        { let (k, a) = (s[1].clone(), c[0].clone()); c.push(Computed::from(move |x| { let k = k.get(x); if k & 1 == 1 { a.get(x) } else { k } })); }
        { let (a, b) = (c[1].clone(), c[0].clone()); c.push(Computed::from(move |x| a.get(x).rotate_left(8) ^ b.get(x))); }
        Small { s, m, c }
    }
    fn ev(&self, j: usize) -> u32 { let p = self.m[0] ^ 5; let q = if self.m[1] & 1 == 1 { p } else { self.m[1] }; match j { 0 => p, 1 => q, _ => q.rotate_left(8) ^ p } }
    fn read(&self, j: usize) { let v = transaction(|x| self.c[j].get(x)); check(v == self.ev(j), "a derived value differs from a fresh computation over the current sources"); }
    fn read_all(&self) { for j in 0..3 { self.read(j); } for i in 0..2 { check(transaction(|x| self.s[i].get(x)) == self.m[i], "a source does not hold the last value written"); } }
}
/// G01, G02, G03: any history of operations, nested transactions included, around one derived value and an observer of everything below it.
#[no_mangle]
pub extern "C" fn h_graph_script(budget: u32, from: u32, to: u32) {
    let mut w = Small::new(); let focus = from as usize + choice("focus", (to - from) as usize);
    let mut subs: Vec<Sub> = Vec::new(); let mut left = budget;
    let hooks = Rc::new(Cell::new(0u32)); let h = hooks.clone(); let mut fired = 0;
    let _hook = vertigo::get_driver().on_after_transaction(move || h.set(h.get() + 1));
    struct St<'a> { w: &'a mut Small, subs: &'a mut Vec<Sub>, left: &'a mut u32, focus: usize, hooks: &'a Cell<u32>, fired: u32 }
    /// one transaction, entered; returns after its end was chosen
    fn body(s: &mut St<'_>, x: &vertigo::Context, depth: u32) -> u32 {
        let mut n = 1;
        while *s.left > 0 {
            *s.left -= 1;
            match choice("op", if depth < 2 { 6 } else { 5 }) {
                0 => { let i = choice("i", 2); let v = u8("v") as u32; s.w.s[i].set(v); s.w.m[i] = v; }
                1 => { check(s.w.c[s.focus].get(x) == s.w.ev(s.focus), "a read inside a transaction does not see the writes made so far"); reach("read"); }
                2 => { if s.subs.len() >= 2 { end(); } s.subs.push(Sub::on(&s.w.c[s.focus], s.focus, s.w.ev(s.focus))); reach("sub-inside"); }
                3 => { let Some(b) = s.subs.iter_mut().find(|b| b.drop.is_some()) else { end() }; b.drop = None; }
                4 => return n,
                _ => { let e = *s.left; let r = transaction(|x| body(s, x, depth + 1)); check(r >= 1 && e >= *s.left, "a transaction does not return the value of its body"); n += r; reach("nested"); }
            }
            for b in s.subs.iter() { check(*b.log.borrow() == b.exp, "a subscriber was called before the outermost transaction ended"); }
            check(s.hooks.get() == s.fired, "an end-of-transaction hook ran before the outermost transaction ended");
        }
        n
    }
    while left > 0 {
        left -= 1; let mut tx = true;
        match choice("op", 6) {
            0 => { let i = choice("i", 2); let v = u8("v") as u32; w.s[i].set(v); w.m[i] = v; }
            1 => { w.read(focus); reach("read"); }
            2 => { if subs.len() >= 2 { return; } subs.push(Sub::on(&w.c[focus], focus, w.ev(focus))); tx = false; }
            3 => { let Some(b) = subs.iter_mut().find(|b| b.drop.is_some()) else { return; }; b.drop = None; tx = false; reach("unsub"); }
            4 => { let i = choice("i", 2); let (v, v2) = (u8("v") as u32, u8("v") as u32); w.s[i].set(v); w.m[i] = v; fired += 1; for b in subs.iter_mut() { b.settle_to(w.ev(focus)); } w.s[i].change(|x| *x ^= v2); w.m[i] ^= v2; }
            _ => { let mut s = St { w: &mut w, subs: &mut subs, left: &mut left, focus, hooks: &hooks, fired }; let r = transaction(|x| body(&mut s, x, 0)); check(r >= 1, "a transaction does not return the value of its body"); reach("tx"); }
        }
        if tx { fired += 1; }
        check(hooks.get() == fired, "an end-of-transaction hook must run exactly once per outermost transaction");
        for b in subs.iter_mut() { b.settle_to(w.ev(focus)); }
    }
    w.read_all(); for b in subs.iter_mut() { b.settle_to(w.ev(focus)); }
    reach("end");
}
/// G02: nested subscriptions; the resource returned by a callback lives until the next call.
#[no_mangle]
pub extern "C" fn h_graph_nested(steps: u32) {
    let (mut a, mut b) = (u32("a"), u32("b"));
    let (va, vb) = (Value::new(a), Value::new(b));
    let outer = Rc::new(RefCell::new(Vec::new())); let inner = Rc::new(RefCell::new(Vec::new()));
    let mut exp_o = vec![a]; let mut exp_i = vec![(a, b)];
    let sub = {
        let (o, i, vb) = (outer.clone(), inner.clone(), vb.clone());
        va.to_computed().subscribe(move |x| { o.borrow_mut().push(x); let i = i.clone(); vb.to_computed().subscribe(move |y| i.borrow_mut().push((x, y))) })
    };
    for _ in 0..steps {
        match choice("op", 3) {
            0 => { let n = u32("v"); va.set(n); if n != a { a = n; exp_o.push(n); exp_i.push((a, b)); } }
            1 => { let n = u32("v"); vb.set(n); if n != b { b = n; exp_i.push((a, b)); } }
            _ => { // both in one transaction: the old inner subscription must not run with the new value
                let (n, k) = (u32("v"), u32("v")); transaction(|_| { vb.set(k); va.set(n); });
                if n != a { a = n; b = k; exp_o.push(n); exp_i.push((a, b)); reach("both"); } else if k != b { b = k; exp_i.push((a, b)); }
            }
        }
        check(*outer.borrow() == exp_o, "an outer subscriber saw other values than the committed changes");
        check(*inner.borrow() == exp_i, "a nested subscriber saw other values than the committed changes of its own lifetime");
    }
    drop(sub);
    va.set(u32("v")); vb.set(u32("v"));
    check(outer.borrow().len() == exp_o.len() && inner.borrow().len() == exp_i.len(), "a subscriber was called after it unsubscribed");
    trace(exp_i.len() as u64);
}
/// G03: transactions nest; effects and hooks run once, after the outermost one.
#[no_mangle]
pub extern "C" fn h_graph_tx(depth: u32, steps: u32) {
    let mut w = World::new();
    let hooks = Rc::new(Cell::new(0u32)); let h2 = hooks.clone();
    let seen = Rc::new(RefCell::new(Vec::new())); let s2 = seen.clone();
    let calls = Rc::new(Cell::new(0u32)); let c2 = calls.clone();
    let _sub = w.c[2].clone().subscribe(move |v| { c2.set(c2.get() + 1); s2.borrow_mut().push(v) });
    let s3 = seen.clone();
    let _hook = vertigo::get_driver().on_after_transaction(move || { h2.set(h2.get() + 1); trace(s3.borrow().len() as u64); });
    let before = w.ev(2); let n0 = calls.get(); check(n0 == 1, "a subscriber is called once when it subscribes");
    fn go(w: &mut World, depth: u32, steps: u32, hooks: &Cell<u32>, calls: &Cell<u32>) -> u32 {
        transaction(|x| {
            let mut r = 0u32;
            for _ in 0..steps {
                match choice("op", if depth > 0 { 4 } else { 3 }) {
                    0 => { let i = choice("i", 3); let v = u32("v"); w.s[i].set(v); w.m[i] = v; }
                    1 => { check(w.c[2].get(x) == w.ev(2), "a read inside a transaction does not see the writes made so far"); }
                    2 => { let v = w.m[1].wrapping_add(1); w.s[1].change(|q| *q = q.wrapping_add(1)); w.m[1] = v; }
                    _ => { let k = go(w, depth - 1, steps, hooks, calls); r = r.wrapping_add(k); reach("nested"); }
                }
                check(calls.get() == 1, "a subscriber was called before the outermost transaction ended");
                check(hooks.get() == 0, "an end-of-transaction hook ran before the outermost transaction ended");
            }
            r.wrapping_add(1)
        })
    }
    let r = go(&mut w, depth, steps, &hooks, &calls);
    check(r >= 1, "a transaction does not return the value of its body");
    check(hooks.get() == 1, "the end-of-transaction hook must run exactly once per outermost transaction");
    let after = w.ev(2);
    if after != before { check(calls.get() == 2, "a change made in a transaction must reach the subscriber exactly once"); check(seen.borrow()[1] == after, "a subscriber was called with a value other than the committed one"); reach("changed"); }
    else { check(calls.get() == 1, "a subscriber was called although the transaction left its value unchanged"); reach("same"); }
    w.read_all();
}
/// G04: how often the functions run.
#[no_mangle]
pub extern "C" fn h_graph_work(steps: u32) {
    let mut w = World::new();
    let clear = |w: &World| for r in w.runs.iter() { r.set(0); };
    let count = |w: &World| (0..NC).map(|j| w.runs[j].get()).collect::<Vec<_>>();
    check(count(&w).iter().all(|n| *n == 0), "a derived value was computed before anyone asked for it");
    let j = choice("j", NC);
    // unobserved: writes run nothing
    let v = u32("v"); w.s[0].set(v); w.m[0] = v;
    check(count(&w).iter().all(|n| *n == 0), "a write recomputed a derived value nobody observes");
    // unobserved: reading twice in a row runs nothing the second time, and what the value does not depend on does not run
    if flag("read") { w.read(j); check(count(&w).iter().all(|n| *n <= 1), "a derived value was computed more than once by one read"); check(w.runs[j].get() == 1, "reading a value that was never computed must compute it"); clear(&w); w.read(j); check(count(&w).iter().all(|n| *n == 0), "reading an up-to-date derived value recomputed it"); w.s[0].set(v); check(count(&w).iter().all(|n| *n == 0), "a write recomputed a derived value nobody observes"); reach("lazy"); }
    let k = choice("k", NC);
    let s1 = w.c[j].clone().subscribe(|_| {}); let s2 = w.c[k].clone().subscribe(|_| {});
    check(count(&w).iter().all(|n| *n <= 1), "a derived value was computed more than once on subscription");
    // reading what is subscribed runs nothing
    clear(&w); w.read(j); w.read(k);
    check(w.runs[j].get() == 0 && w.runs[k].get() == 0, "reading an up-to-date derived value recomputed it");
    for _ in 0..steps {
        clear(&w);
        match choice("op", 5) {
            0 => { let v = u32("v"); w.s[0].set(v); w.m[0] = v; }
            1 => { w.read(0); clear(&w); let v = u32("v"); w.s[2].set(v); w.m[2] = v; check(w.runs[0].get() == 0, "a derived value was computed although none of its sources changed"); }
            2 => { // another observer comes, reads and goes
                let l = choice("l", NC); let s = w.c[l].clone().subscribe(|_| {});
                check(w.runs[j].get() == 0 && w.runs[k].get() == 0, "another observer made an up-to-date derived value run again");
                check(count(&w).iter().all(|n| *n <= 1), "a derived value was computed more than once on subscription");
                clear(&w); w.read(l); check(w.runs[l].get() == 0, "reading an up-to-date derived value recomputed it");
                if flag("write") { let v = u32("v"); w.s[1].set(v); w.m[1] = v; check(count(&w).iter().all(|n| *n <= 1), "a derived value was computed more than once for one transaction"); clear(&w); }
                drop(s); check(count(&w).iter().all(|n| *n == 0), "unsubscribing computed something"); reach("other"); }
            3 => { // reads between the writes of one transaction: each value runs at most once per state of the sources
                let (a, b) = (u32("v"), u32("v"));
                transaction(|x| { w.s[0].set(a); w.m[0] = a; check(w.c[j].get(x) == w.ev(j), "a read inside a transaction does not see the writes made so far"); check(w.c[j].get(x) == w.ev(j), "a read inside a transaction does not see the writes made so far");
                    check(count(&w).iter().all(|n| *n <= 1), "a derived value was computed more than once although nothing changed in between"); clear(&w); w.s[1].set(b); w.m[1] = b; });
                check(count(&w).iter().all(|n| *n <= 1), "a derived value was computed more than once for one transaction"); }
            _ => { let (a, b) = (u32("v"), u32("v")); transaction(|_| { w.s[0].set(a); w.s[1].set(b); w.s[0].set(b); }); w.m[0] = b; w.m[1] = b; }
        }
        check(count(&w).iter().all(|n| *n <= 1), "a derived value was computed more than once for one transaction");
        clear(&w); w.read(j); w.read(k);
        check(w.runs[j].get() == 0 && w.runs[k].get() == 0, "reading an up-to-date derived value recomputed it");
    }
    // a source nothing depends on, and a comparing write of an equal value, run nothing
    clear(&w);
    let other = Value::new(1u32); other.set(u32("v"));
    let same = w.m[0]; w.s[0].set_value_and_compare(same);
    check(count(&w).iter().all(|n| *n == 0), "an unrelated or equal write recomputed a derived value");
    // after the last unsubscribe nothing runs
    drop(s1); drop(s2); clear(&w);
    w.s[0].set(u32("v")); w.s[1].set(u32("v")); w.s[2].set(u32("v"));
    check(count(&w).iter().all(|n| *n == 0), "a write recomputed a derived value nobody observes any more");
    reach("end");
}
/// G05: external connections are open exactly while something observes the value; everything is released.
#[no_mangle]
pub extern "C" fn h_graph_connect(steps: u32, reads: u32) {
    let mut read_once = false; // a derived value that was read but is not observed may keep its sources connected
    let opens = Rc::new(Cell::new(0u32)); let closes = Rc::new(Cell::new(0u32)); let slot: Rc<RefCell<Option<Value<u32>>>> = Rc::new(RefCell::new(None));
    let init = u32("init"); let sw = Value::new(true); let (e1, e2) = (Value::new(0u32).to_computed(), Value::new(0u32).to_computed());
    let src = { let (o, c, sl) = (opens.clone(), closes.clone(), slot.clone());
        Value::with_connect(init, move |v| { o.set(o.get() + 1); *sl.borrow_mut() = Some(v.clone()); let c = c.clone(); DropResource::new(move || c.set(c.get() + 1)) }) };
    let d1 = src.map(|v| v ^ 1);
    let e3 = Value::new(0u32).to_computed();
    let d2 = { let (s, d, q) = (sw.clone(), d1.clone(), src.clone()); Computed::from(move |x| e1.get(x) ^ e2.get(x) ^ if s.get(x) { d.get(x) } else { q.get(x) } ^ e3.get(x)) };
    let d3 = { let (s, d) = (sw.clone(), d2.clone()); Computed::from(move |x| if s.get(x) { d.get(x) } else { 5 }) };
    let cs = [src.clone(), d1, d2, d3];
    let mut cur = init; let mut on = true;
    let evm = |j: usize, cur: u32, on: bool| match j { 0 => cur, 1 => cur ^ 1, 2 => if on { cur ^ 1 } else { cur }, _ => if on { cur ^ 1 } else { 5 } };
    let mut subs: Vec<Option<(DropResource, Rc<Cell<u32>>)>> = (0..4).map(|_| None).collect();
    check(opens.get() == 0, "a connection was opened before anything observed the value");
    for _ in 0..steps {
        match choice("op", if reads == 1 { 5 } else { 4 }) {
            4 => { let j = choice("j", 4); if !(0..4).any(|j| subs[j].is_some()) { return; } let v = transaction(|x| cs[j].get(x)); check(v == evm(j, cur, on), "a value derived from a connected one is stale"); if subs[j].is_none() { read_once = true; } reach("read"); }
            0 => { let j = choice("j", 4); if subs[j].is_some() { return; } let last = Rc::new(Cell::new(0)); let l = last.clone(); subs[j] = Some((cs[j].clone().subscribe(move |v| l.set(v)), last)); }
            1 => { let j = choice("j", 4); if subs[j].is_none() { return; } subs[j] = None; reach("unsub"); }
            2 => { on = !on; sw.set(on); }
            _ => { let s = slot.borrow().clone(); if let Some(v) = s { let n = u32("v"); v.set(n); cur = n; reach("pushed"); } else { return; } }
        }
        let active = (0..4).any(|j| subs[j].is_some() && (j < 3 || on));
        let open = opens.get() - closes.get();
        check(open <= 1, "a connection was opened twice");
        check(closes.get() <= opens.get(), "a connection was closed twice");
        if active { check(open == 1, "a value with an observer has no open connection"); } else if !read_once { check(open == 0, "a connection stays open although nothing observes the value"); }
        for j in 0..4 { if let Some((_, last)) = &subs[j] { check(last.get() == evm(j, cur, on), "an observer of a connected value missed a change"); } }
    }
    for s in subs.iter_mut() { *s = None; }
    if !read_once { check(opens.get() == closes.get(), "a connection stays open although nothing observes the value"); }
    drop(cs); drop(src); check(opens.get() == closes.get(), "a connection stays open although everything derived from the value is gone");
    trace(opens.get() as u64); reach("end");
}
/// G05: subscribing and unsubscribing releases all memory of the graph.
#[no_mangle]
pub extern "C" fn h_graph_release(rounds: u32) {
    let a = Value::new(u32("a")); let b = Value::new(u32("b"));
    let round = || {
        let (x, y) = (a.clone(), b.clone());
        let c = Computed::from(move |q| x.get(q) ^ y.get(q)); let z = b.clone(); let c2 = c.clone();
        let d = Computed::from(move |q| if z.get(q) & 1 == 1 { c2.get(q) } else { 7 });
        let s1 = d.clone().subscribe(|_| {}); let s2 = c.clone().map(|v| v + 1).subscribe(|_| {});
        let v = u32("v");
        match choice("order", 4) { 0 => { a.set(v); drop(s1); b.set(v); drop(s2); } 1 => { b.set(v); drop(s2); a.set(v); drop(s1); } 2 => { drop(s1); drop(s2); b.set(v); } _ => { b.set(v); let _ = transaction(|q| d.get(q)); drop(s1); drop(s2); } }
        drop(d); drop(c);
        let gone = Rc::new(()); let (g, probe) = (Rc::downgrade(&gone), gone);
        let src = Value::with_connect(v, move |v| { let p = probe.clone(); v.set(7); DropResource::new(move || drop(p)) });
        let s = src.map(|v| v ^ 1).subscribe(|_| {}); if flag("other") { let t = src.clone().subscribe(|_| {}); drop(s); drop(t); } else { drop(s); }
        drop(src); check(g.upgrade().is_none(), "a connected value that was dropped is kept in memory");
    };
    round(); let base = live_allocs();
    for _ in 0..rounds { round(); check(live_allocs() == base, "unsubscribing does not release the graph's bookkeeping"); }
    reach("end");
}
/// G06: an auto map builds each key once and hands out the same value, also when builders use the map themselves.
#[no_mangle]
pub extern "C" fn h_automap(steps: u32) {
    let made = Rc::new(RefCell::new(Vec::<u32>::new())); let m2 = made.clone(); let nested = choice("nested", 3);
    let outer: Rc<RefCell<Option<AutoMap<u32, Value<u32>>>>> = Rc::new(RefCell::new(None)); let o2 = outer.clone();
    let map: AutoMap<u32, Value<u32>> = AutoMap::new(move |map, k| { m2.borrow_mut().push(*k);
        if nested == 1 && *k > 0 { let _ = map.get(&(*k - 1)); } if nested == 2 && *k > 0 { let o = o2.borrow().clone().unwrap(); let _ = o.get(&(*k - 1)); }
        Value::new(k.wrapping_mul(3)) });
    *outer.borrow_mut() = Some(map.clone());
    let clone = map.clone(); let mut seen: Vec<(u32, Value<u32>, u32)> = Vec::new(); let mut built: Vec<u32> = Vec::new();
    check(map == clone && map != AutoMap::new(|_, k: &u32| Value::new(*k)), "a store is equal to another store, or not to its clone");
    for _ in 0..steps {
        let k = choice("k", 3) as u32; let v = if flag("clone") { clone.get(&k) } else { map.get(&k) };
        let mut found = false;
        for (kk, vv, cur) in seen.iter_mut() { if *kk == k { found = true; check(vv.id() == v.id(), "an auto map handed out two different values for one key"); check(transaction(|x| v.get(x)) == *cur, "an auto map entry lost its state"); let n = u32("n"); v.set(n); *cur = n; } }
        if !found { check(transaction(|x| v.get(x)) == k.wrapping_mul(3), "an auto map entry was not built by its function"); seen.push((k, v, k.wrapping_mul(3))); }
        let mut j = k; loop { if built.contains(&j) { break; } built.push(j); if nested == 0 || j == 0 { break; } j -= 1; }
        let mut b = built.clone(); b.sort(); let mut m = made.borrow().clone(); m.sort();
        check(b == m, "an auto map built a key twice, or one nobody asked for");
    }
    *outer.borrow_mut() = None;
    reach("end");
}
/// A value that does something when it is released.
struct Guard { id: u32, of: (u32, u32), w: std::rc::Weak<GuardWorld> }
struct GuardWorld { v: Value<Rc<Guard>>, w: Value<u32>, c: RefCell<Option<Computed<Rc<Guard>>>>, m: Cell<(u32, u32)>, made: Cell<u32>, gone: RefCell<Vec<u32>>, budget: Cell<u32>, seen: Rc<Cell<(u32, u32)>>, sub: RefCell<Option<DropResource>>, open: Cell<bool> }
fn guard(w: &Rc<GuardWorld>, of: (u32, u32)) -> Rc<Guard> { let id = w.made.get(); w.made.set(id + 1); w.gone.borrow_mut().push(0); Rc::new(Guard { id, of, w: Rc::downgrade(w) }) }
impl GuardWorld {
    fn put(self: &Rc<Self>) { let g = guard(self, (0, 0)); self.m.set((g.id, self.m.get().1)); self.v.set(g); }
    fn look(&self) {
        let m = self.m.get(); let g = transaction(|x| self.v.get(x)); check(g.id == m.0, "a source does not hold the last value written (seen while another value is released)");
        if let Some(c) = &*self.c.borrow() { let d = transaction(|x| c.get(x)); check(d.of == m, "a derived value differs from a fresh computation over the current sources (seen while another value is released)"); }
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        let Some(w) = self.w.upgrade() else { return }; { let mut g = w.gone.borrow_mut(); g[self.id as usize] += 1; check(g[self.id as usize] == 1, "a value was released twice"); }
        if w.budget.get() == 0 || !w.open.get() { return; } w.budget.set(w.budget.get() - 1);
        match choice("in release", 5) { 0 => {} 1 => { reach("look"); w.look() } 2 => { let n = u32("w in release") & 1; w.m.set((w.m.get().0, n)); w.w.set(n); reach("other") } 3 => { reach("self"); w.put() } _ => { w.put(); w.look() } }
    }
}
/// G08: values that read and write the graph when they are released.
#[no_mangle]
pub extern "C" fn h_graph_release_values(steps: u32, budget: u32) {
    let seen = Rc::new(Cell::new((0, 0)));
    let gw: Rc<GuardWorld> = Rc::new_cyclic(|k| GuardWorld { v: Value::new(Rc::new(Guard { id: 0, of: (0, 0), w: k.clone() })), w: Value::new(0), c: RefCell::new(None), m: Cell::new((0, 0)), made: Cell::new(1), gone: RefCell::new(vec![0]), budget: Cell::new(0), seen: seen.clone(), sub: RefCell::new(None), open: Cell::new(true) });
    { let k = Rc::downgrade(&gw); let (v, w) = (gw.v.clone(), gw.w.clone()); let c0 = w.map(|x| x); *gw.c.borrow_mut() = Some(Computed::from(move |x| { let a = v.get(x).id; let b = c0.get(x); guard(&k.upgrade().unwrap_or_else(|| stop()), (a, b)) })); }
    gw.look();
    for _ in 0..steps { gw.budget.set(budget); match choice("op", 5) {
        0 => gw.put(),
        1 => { let n = u32("w") & 1; gw.m.set((gw.m.get().0, n)); gw.w.set(n) }
        2 => { let c = gw.c.borrow().clone().unwrap_or_else(|| stop()); let s = seen.clone(); let d = c.map(|g| g.of).subscribe(move |o| s.set(o)); let old = gw.sub.borrow_mut().replace(d); drop(old); reach("sub") }
        3 => { let d = gw.sub.borrow_mut().take(); drop(d); }
        _ => transaction(|_| { gw.put(); gw.look(); gw.put(); }),
    }
        gw.budget.set(0); gw.look(); if gw.sub.borrow().is_some() { check(gw.seen.get() == gw.m.get(), "a subscriber was not told the last value"); }
    }
    gw.open.set(false); reach("end");
}
fn stop() -> ! { check(false, "the world is gone"); std::process::abort() }
