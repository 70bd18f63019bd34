//! Stand-in for wasmtime: the module is a Guest in the same linear memory.
use std::marker::PhantomData; use std::rc::Rc; use world::{Guest, Imports, GUEST};
/// Guest address 0 is this address of the linear memory.
pub const BASE: usize = 16;
#[derive(Clone, Default)]
pub struct Engine;
#[derive(Clone)]
pub struct Module(Option<Rc<dyn Guest>>);
unsafe impl Send for Module {}
unsafe impl Sync for Module {}
#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl Module { pub fn from_binary(_: &Engine, b: &[u8]) -> Result<Module, Error> { if b.starts_with(b"\0asm") { Ok(Module(world::world(|w| w.guests.iter().find(|g| g.0 == b).map(|g| g.1.clone())))) } else { Err(Error("bad module".into())) } } }
pub struct Store<T> { data: T, imports: Option<Rc<Imports>>, guest: Option<Rc<dyn Guest>> }
impl<T> Store<T> { pub fn new(_: &Engine, data: T) -> Store<T> { Store { data, imports: None, guest: None } } pub fn data(&self) -> &T { &self.data } pub fn data_mut(&mut self) -> &mut T { &mut self.data } }
pub struct StoreContextMut<'a, T>(&'a mut Store<T>);
pub trait AsContextMut { type Data; fn as_context_mut(&mut self) -> StoreContextMut<'_, Self::Data>; }
impl<T> AsContextMut for Store<T> { type Data = T; fn as_context_mut(&mut self) -> StoreContextMut<'_, T> { StoreContextMut(self) } }
impl<'a, T> AsContextMut for StoreContextMut<'a, T> { type Data = T; fn as_context_mut(&mut self) -> StoreContextMut<'_, T> { StoreContextMut(self.0) } }
impl<'a, T> AsContextMut for Caller<'a, T> { type Data = T; fn as_context_mut(&mut self) -> StoreContextMut<'_, T> { StoreContextMut(self.0) } }
impl<X: AsContextMut> AsContextMut for &mut X { type Data = X::Data; fn as_context_mut(&mut self) -> StoreContextMut<'_, X::Data> { (**self).as_context_mut() } }
pub struct Caller<'a, T>(&'a mut Store<T>);
impl<'a, T> Caller<'a, T> { pub fn get_export(&mut self, name: &str) -> Option<Extern> { export(name) } pub fn data(&self) -> &T { &self.0.data } }
fn export(name: &str) -> Option<Extern> { match name { "memory" => Some(Extern::Memory(Memory)), "alloc" | "vertigo_entry_function" | "wasm_callback" => Some(Extern::Func(Func::Export(match name { "alloc" => "alloc", "wasm_callback" => "wasm_callback", _ => "vertigo_entry_function" }))), _ => None } }
#[derive(Clone, Copy)]
pub struct Memory;
impl Memory {
    pub fn data<T>(&self, _: &T) -> &'static [u8] { unsafe { std::slice::from_raw_parts(BASE as *const u8, mem_len()) } }
    pub fn data_mut<T>(&self, _: T) -> &'static mut [u8] { unsafe { std::slice::from_raw_parts_mut(BASE as *mut u8, mem_len()) } }
}
fn mem_len() -> usize { 0x7fff_ff00 }
#[derive(Clone)]
pub enum Extern { Memory(Memory), Func(Func) }
#[derive(Clone)]
pub enum Func { Export(&'static str), Host(Rc<dyn Fn(*mut (), u32, u32) -> u32>) }
impl From<Func> for Extern { fn from(f: Func) -> Extern { Extern::Func(f) } }
pub trait Ret { fn raw(self) -> u32; }
impl Ret for () { fn raw(self) -> u32 { 0 } }
impl Ret for u32 { fn raw(self) -> u32 { self } }
impl Func {
    pub fn wrap<T: 'static, R: Ret>(_: &mut Store<T>, f: impl Fn(Caller<'_, T>, u32, u32) -> R + 'static) -> Func { Func::Host(Rc::new(move |s, a, b| { let st = unsafe { &mut *(s as *mut Store<T>) }; f(Caller(st), a, b).raw() })) }
    pub fn typed<P: WasmParams, R: WasmResults>(&self, _: &mut impl AsContextMut) -> Result<TypedFunc<P, R>, Error> { match self { Func::Export(n) => Ok(TypedFunc(n, PhantomData)), _ => Err(Error("not an export".into())) } }
}
pub trait WasmParams { fn raw(self) -> Vec<u64>; }
impl WasmParams for () { fn raw(self) -> Vec<u64> { vec![] } }
impl WasmParams for u32 { fn raw(self) -> Vec<u64> { vec![self as u64] } }
impl WasmParams for u64 { fn raw(self) -> Vec<u64> { vec![self] } }
impl WasmParams for (u32, u32) { fn raw(self) -> Vec<u64> { vec![self.0 as u64, self.1 as u64] } }
impl WasmParams for (u64, u32) { fn raw(self) -> Vec<u64> { vec![self.0, self.1 as u64] } }
pub trait WasmResults { fn of(v: u64) -> Self; }
impl WasmResults for () { fn of(_: u64) {} }
impl WasmResults for u32 { fn of(v: u64) -> u32 { v as u32 } }
impl WasmResults for u64 { fn of(v: u64) -> u64 { v } }
pub struct TypedFunc<P, R>(&'static str, PhantomData<(P, R)>);
impl<P: WasmParams, R: WasmResults> TypedFunc<P, R> {
    pub fn call(&self, mut s: impl AsContextMut, p: P) -> Result<R, Error> {
        let c = s.as_context_mut(); let (g, i) = (c.0.guest.clone().unwrap(), c.0.imports.clone().unwrap());
        // wasm calls back with the store it was entered with
        let prev = CUR.with(|x| x.replace(c.0 as *mut _ as *mut ()));
        let r = g.call(self.0, &p.raw(), &i);
        CUR.with(|x| x.set(prev));
        r.map(R::of).map_err(Error)
    }
}
thread_local! { static CUR: std::cell::Cell<*mut ()> = const { std::cell::Cell::new(std::ptr::null_mut()) }; }
#[derive(Clone, Copy)]
pub struct Instance;
impl Instance {
    pub fn new<T: 'static>(s: &mut Store<T>, m: &Module, imports: &[Extern]) -> Result<Instance, Error> {
        if imports.len() != 2 { return Err(Error("two imports expected".into())); }
        let f = |n: usize| match &imports[n] { Extern::Func(Func::Host(f)) => Ok(f.clone()), _ => Err(Error("host function expected".into())) };
        let (panic_message, dom_access) = (f(0)?, f(1)?);
        s.imports = Some(Rc::new(Imports { panic_message: Box::new(move |a, b| { panic_message(CUR.with(|c| c.get()), a, b); }), dom_access: Box::new(move |a, b| dom_access(CUR.with(|c| c.get()), a, b)) }));
        s.guest = Some(m.0.clone().or_else(|| GUEST.with(|g| g.borrow().clone())).ok_or(Error("no guest".into()))?);
        Ok(Instance)
    }
    pub fn get_typed_func<P: WasmParams, R: WasmResults>(&self, mut s: impl AsContextMut, name: &'static str) -> Result<TypedFunc<P, R>, Error> { let _ = s.as_context_mut(); Ok(TypedFunc(name, PhantomData)) }
    pub fn get_export(&self, mut s: impl AsContextMut, name: &str) -> Option<Extern> { let _ = s.as_context_mut(); export(name) }
}
