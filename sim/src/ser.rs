//! Minimal binary serialisation for state handed from one incarnation to the next.
use std::collections::{BTreeMap, BTreeSet};

pub struct Reader<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
pub trait Ser: Sized {
    fn put(&self, o: &mut Vec<u8>);
    fn get(r: &mut Reader) -> Self;
    fn to_bytes(&self) -> Vec<u8> {
        let mut v = vec![];
        self.put(&mut v);
        v
    }
    fn from_bytes(b: &[u8]) -> Self {
        Self::get(&mut Reader { b, p: 0 })
    }
}
macro_rules! num { ($($t:ty),*) => { $(impl Ser for $t {
    fn put(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_le_bytes()) }
    fn get(r: &mut Reader) -> Self { const N: usize = std::mem::size_of::<$t>(); let mut a = [0u8; N]; a.copy_from_slice(&r.b[r.p..r.p + N]); r.p += N; <$t>::from_le_bytes(a) }
})* } }
num!(u8, u16, u32, u64, i32, i64, u128);
impl Ser for usize {
    fn put(&self, o: &mut Vec<u8>) { (*self as u64).put(o) }
    fn get(r: &mut Reader) -> Self { u64::get(r) as usize }
}
impl Ser for bool {
    fn put(&self, o: &mut Vec<u8>) { o.push(*self as u8) }
    fn get(r: &mut Reader) -> Self { u8::get(r) != 0 }
}
impl Ser for String {
    fn put(&self, o: &mut Vec<u8>) { self.len().put(o); o.extend_from_slice(self.as_bytes()) }
    fn get(r: &mut Reader) -> Self { let n = usize::get(r); let s = String::from_utf8(r.b[r.p..r.p + n].to_vec()).unwrap(); r.p += n; s }
}
impl<T: Ser> Ser for Vec<T> {
    fn put(&self, o: &mut Vec<u8>) { self.len().put(o); for x in self { x.put(o) } }
    fn get(r: &mut Reader) -> Self { let n = usize::get(r); (0..n).map(|_| T::get(r)).collect() }
}
impl<T: Ser> Ser for Option<T> {
    fn put(&self, o: &mut Vec<u8>) { match self { None => o.push(0), Some(x) => { o.push(1); x.put(o) } } }
    fn get(r: &mut Reader) -> Self { if u8::get(r) == 0 { None } else { Some(T::get(r)) } }
}
impl<T: Ser> Ser for Box<T> {
    fn put(&self, o: &mut Vec<u8>) { (**self).put(o) }
    fn get(r: &mut Reader) -> Self { Box::new(T::get(r)) }
}
impl<A: Ser, B: Ser> Ser for (A, B) {
    fn put(&self, o: &mut Vec<u8>) { self.0.put(o); self.1.put(o) }
    fn get(r: &mut Reader) -> Self { let a = A::get(r); (a, B::get(r)) }
}
impl<A: Ser, B: Ser, C: Ser> Ser for (A, B, C) {
    fn put(&self, o: &mut Vec<u8>) { self.0.put(o); self.1.put(o); self.2.put(o) }
    fn get(r: &mut Reader) -> Self { let a = A::get(r); let b = B::get(r); (a, b, C::get(r)) }
}
impl<K: Ser + Ord, V: Ser> Ser for BTreeMap<K, V> {
    fn put(&self, o: &mut Vec<u8>) { self.len().put(o); for (k, v) in self { k.put(o); v.put(o) } }
    fn get(r: &mut Reader) -> Self { let n = usize::get(r); (0..n).map(|_| { let k = K::get(r); (k, V::get(r)) }).collect() }
}
impl<K: Ser + Ord> Ser for BTreeSet<K> {
    fn put(&self, o: &mut Vec<u8>) { self.len().put(o); for k in self { k.put(o) } }
    fn get(r: &mut Reader) -> Self { let n = usize::get(r); (0..n).map(|_| K::get(r)).collect() }
}
#[macro_export]
macro_rules! ser_struct { ($n:ident { $($f:ident),* $(,)? }) => { impl $crate::ser::Ser for $n {
    fn put(&self, o: &mut Vec<u8>) { $(self.$f.put(o);)* }
    fn get(r: &mut $crate::ser::Reader) -> Self { $(let $f = $crate::ser::Ser::get(r);)* $n { $($f),* } }
} } }
/// Enums whose variants are unit or tuple-like: `ser_enum!(E { A(x, y), B() })`
#[macro_export]
macro_rules! ser_enum { ($n:ident { $($v:ident ( $($f:ident),* )),* $(,)? }) => { impl $crate::ser::Ser for $n {
    #[allow(unused_assignments, unused_variables)]
    fn put(&self, o: &mut Vec<u8>) { let mut i = 0u8; $( if let $n::$v { .. } = self { i.put(o); $crate::ser_enum!(@put self o $n $v ($($f),*)); return; } i += 1; )* unreachable!() }
    #[allow(unused_assignments)]
    fn get(r: &mut $crate::ser::Reader) -> Self { let t = <u8 as $crate::ser::Ser>::get(r); let mut i = 0u8; $( if t == i { return $crate::ser_enum!(@get r $n $v ($($f),*)); } i += 1; )* panic!("bad tag") }
} };
 (@put $s:ident $o:ident $n:ident $v:ident ()) => {};
 (@put $s:ident $o:ident $n:ident $v:ident ($($f:ident),+)) => { if let $n::$v($($f),*) = $s { $($f.put($o);)* } };
 (@get $r:ident $n:ident $v:ident ()) => { $n::$v };
 (@get $r:ident $n:ident $v:ident ($($f:ident),+)) => { { $(let $f = $crate::ser::Ser::get($r);)* $n::$v($($f),*) } };
}
