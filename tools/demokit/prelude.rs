#![allow(dead_code, unused_imports, non_snake_case)]
mod symrt;
mod host;
mod domtree;
mod codec;
use crate::{domtree::*, host::*, symrt::*};
use std::{cell::{Cell, RefCell}, collections::HashMap, future::Future, rc::Rc};
use vertigo::{self, *};
thread_local! { static APP: RefCell<Option<Box<dyn FnOnce() -> DomNode>>> = RefCell::new(None); }
fn start(f: impl FnOnce() -> DomNode + 'static) -> Dom {
    APP.with(|a| *a.borrow_mut() = Some(Box::new(f)));
    vertigo::start_app(|| { let f = APP.with(|a| a.borrow_mut().take()).unwrap(); let body = DomElement::new("body"); body.add_child(f()); let html = DomElement::new("html"); html.add_child(DomElement::new("head")); html.add_child(body); html.into() });
    let mut d = Dom::new(); d.apply(); d
}
fn init() { start(|| DomElement::new("div").into()); }
