//! The boundary format, written from the TypeScript side (src_js/jsvalue.ts).
use symrt::check;

#[derive(Clone, Debug, PartialEq)]
pub enum J { True, False, Null, Str(Vec<u8>), Num(u64), List(Vec<J>), Obj(Vec<(Vec<u8>, J)>) }
#[derive(Clone, Debug, PartialEq)]
pub enum V { U32(u32), I32(i32), U64(u64), I64(i64), F64(u64), True, False, Null, Undef, Vec(Vec<u8>), Str(Vec<u8>), List(Vec<V>), Obj(Vec<(Vec<u8>, V)>), Json(J) }

impl J {
    pub fn s(v: &str) -> J { J::Str(v.as_bytes().to_vec()) }
    pub fn n(v: f64) -> J { J::Num(v.to_bits()) }
    pub fn get(&self, k: &str) -> Option<&J> { match self { J::Obj(l) => { for (n, v) in l { if n.as_slice() == k.as_bytes() { return Some(v); } } None } _ => None } }
    pub fn num(&self, k: &str) -> u64 { match self.get(k) { Some(J::Num(b)) => f64::from_bits(*b) as u64, _ => { check(false, "a dom command lacks a numeric field"); 0 } } }
    pub fn str(&self, k: &str) -> Vec<u8> { match self.get(k) { Some(J::Str(b)) => b.clone(), _ => { check(false, "a dom command lacks a text field"); Vec::new() } } }
}
impl V {
    pub fn s(v: &str) -> V { V::Str(v.as_bytes().to_vec()) }
    pub fn is_str(&self, s: &str) -> bool { matches!(self, V::Str(b) if b.as_slice() == s.as_bytes()) }
    pub fn as_str(&self) -> Vec<u8> { match self { V::Str(b) => b.clone(), _ => { check(false, "the host expected a string argument"); Vec::new() } } }
    pub fn as_u64(&self) -> u64 { match self { V::U64(b) => *b, V::U32(b) => *b as u64, _ => { check(false, "the host expected an integer argument"); 0 } } }
}

pub struct Rd<'a> { pub b: &'a [u8], pub o: usize, pub bad: bool }
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self { Rd { b, o: 0, bad: false } }
    pub fn take(&mut self, n: usize) -> &'a [u8] { if self.bad || n > self.b.len() - self.o { self.bad = true; return &[]; } let r = &self.b[self.o..self.o + n]; self.o += n; r }
    fn u8(&mut self) -> u8 { let r = self.take(1); if self.bad { 0 } else { symrt::concretize(r[0] as u64) as u8 } }
    fn be(&mut self, n: usize) -> u64 { let r = self.take(n); let mut v = 0u64; for x in r { v = v << 8 | *x as u64; } v }
    fn len(&mut self, n: usize) -> usize { let v = self.be(n); symrt::concretize(v) as usize }
    fn str(&mut self) -> Vec<u8> { let n = self.len(4); self.take(n).to_vec() }
    pub fn json(&mut self) -> J {
        match self.u8() {
            1 => J::True, 2 => J::False, 3 => J::Null, 4 => J::Str(self.str()), 5 => J::Num(self.be(8)),
            6 => { let n = self.len(4); let mut l = Vec::new(); for _ in 0..n { if self.bad { break; } l.push(self.json()); } J::List(l) }
            7 => { let n = self.len(2); let mut l = Vec::new(); for _ in 0..n { if self.bad { break; } let k = self.str(); l.push((k, self.json())); } J::Obj(l) }
            _ => { self.bad = true; J::Null }
        }
    }
    pub fn val(&mut self) -> V {
        match self.u8() {
            1 => V::U32(self.be(4) as u32), 2 => V::I32(self.be(4) as i32), 3 => V::U64(self.be(8)), 4 => V::I64(self.be(8) as i64), 5 => V::F64(self.be(8)),
            6 => V::True, 7 => V::False, 8 => V::Null, 9 => V::Undef, 10 => V::Vec(self.str()), 11 => V::Str(self.str()),
            12 => { let n = self.len(4); let mut l = Vec::new(); for _ in 0..n { if self.bad { break; } l.push(self.val()); } V::List(l) }
            13 => { let n = self.len(2); let mut l = Vec::new(); for _ in 0..n { if self.bad { break; } let k = self.str(); l.push((k, self.val())); } V::Obj(l) }
            14 => V::Json(self.json()),
            _ => { self.bad = true; V::Null }
        }
    }
}
fn wr_str(o: &mut Vec<u8>, s: &[u8]) { o.extend_from_slice(&(s.len() as u32).to_be_bytes()); o.extend_from_slice(s); }
pub fn enc_json(o: &mut Vec<u8>, j: &J) {
    match j {
        J::True => o.push(1), J::False => o.push(2), J::Null => o.push(3),
        J::Str(s) => { o.push(4); wr_str(o, s) }
        J::Num(b) => { o.push(5); o.extend_from_slice(&b.to_be_bytes()) }
        J::List(l) => { o.push(6); o.extend_from_slice(&(l.len() as u32).to_be_bytes()); for x in l { enc_json(o, x) } }
        J::Obj(l) => { o.push(7); o.extend_from_slice(&(l.len() as u16).to_be_bytes()); for (k, x) in l { wr_str(o, k); enc_json(o, x) } }
    }
}
pub fn enc(o: &mut Vec<u8>, v: &V) {
    match v {
        V::U32(x) => { o.push(1); o.extend_from_slice(&x.to_be_bytes()) }
        V::I32(x) => { o.push(2); o.extend_from_slice(&x.to_be_bytes()) }
        V::U64(x) => { o.push(3); o.extend_from_slice(&x.to_be_bytes()) }
        V::I64(x) => { o.push(4); o.extend_from_slice(&x.to_be_bytes()) }
        V::F64(x) => { o.push(5); o.extend_from_slice(&x.to_be_bytes()) }
        V::True => o.push(6), V::False => o.push(7), V::Null => o.push(8), V::Undef => o.push(9),
        V::Vec(b) => { o.push(10); wr_str(o, b) }
        V::Str(b) => { o.push(11); wr_str(o, b) }
        V::List(l) => { o.push(12); o.extend_from_slice(&(l.len() as u32).to_be_bytes()); for x in l { enc(o, x) } }
        V::Obj(l) => { o.push(13); o.extend_from_slice(&(l.len() as u16).to_be_bytes()); for (k, x) in l { wr_str(o, k); enc(o, x) } }
        V::Json(j) => { o.push(14); enc_json(o, j) }
    }
}
