#![allow(non_snake_case)]
pub mod codec;
pub mod host;
pub mod graph;
pub mod wire;
pub mod tasks;
pub mod domtree;
pub mod domview;
pub mod domattr;
pub mod fetch;
pub mod css;
pub mod router;
pub mod markup;
pub mod access;
pub mod inspect;
