//! The independent bit-by-bit oracle of flatdata's packed layout, and object-safe access to the
//! generated structs.
use crate::rng::Rng;
use flatdata::{ArrayView, Struct, StructBuf};
use std::marker::PhantomData;

#[derive(Debug, Clone, Copy)]
pub enum Ty {
    Bool,
    Int { signed: bool, size: u32 },
    Enum { signed: bool, size: u32, variants: &'static [i64] },
}

#[derive(Debug, Clone, Copy)]
pub struct Field {
    pub name: &'static str,
    pub off: usize,
    pub bits: usize,
    pub ty: Ty,
}

pub fn get_bits(b: &[u8], off: usize, bits: usize) -> u64 {
    let mut v = 0u64;
    for k in 0..bits {
        let p = off + k;
        if b[p / 8] >> (p % 8) & 1 == 1 {
            v |= 1 << k;
        }
    }
    v
}

pub fn put_bits(b: &mut [u8], off: usize, bits: usize, v: u64) {
    for k in 0..bits {
        let p = off + k;
        let m = 1u8 << (p % 8);
        if v >> k & 1 == 1 {
            b[p / 8] |= m;
        } else {
            b[p / 8] &= !m;
        }
    }
}

/// The value the field shows when its bits hold `raw`.
pub fn interpret(ty: &Ty, bits: usize, raw: u64) -> i128 {
    match *ty {
        Ty::Bool => (raw != 0) as i128,
        Ty::Int { signed, .. } | Ty::Enum { signed, .. } => {
            if signed && bits > 1 && raw >> (bits - 1) & 1 == 1 {
                raw as i128 - (1i128 << bits)
            } else {
                raw as i128
            }
        }
    }
}

/// The bits stored when `v` (a value of the field's Rust type) is written.
pub fn raw_of(ty: &Ty, bits: usize, v: i128) -> u64 {
    let r = match *ty {
        Ty::Bool => (v != 0) as u64,
        _ => v as u64,
    };
    if bits >= 64 {
        r
    } else {
        r & ((1u64 << bits) - 1)
    }
}

/// A random value of the field's Rust type, possibly too wide for the field.
pub fn rand_value(rng: &mut Rng, f: &Field) -> i128 {
    match f.ty {
        Ty::Bool => (rng.next() & 1) as i128,
        Ty::Enum { variants, .. } => *rng.pick(variants) as i128,
        Ty::Int { signed, size } => {
            let r = rng.value();
            if size == 64 {
                if signed {
                    r as i64 as i128
                } else {
                    r as i128
                }
            } else {
                let m = r & ((1u64 << size) - 1);
                if signed && m >> (size - 1) & 1 == 1 {
                    m as i128 - (1i128 << size)
                } else {
                    m as i128
                }
            }
        }
    }
}

/// A random value representable in the field.
pub fn rand_fit(rng: &mut Rng, f: &Field) -> i128 {
    let v = rand_value(rng, f);
    interpret(&f.ty, f.bits, raw_of(&f.ty, f.bits, v))
}

/// Static description and typed access; implemented by the generated structs.
pub trait Dyn<'a>: Struct<'a> {
    const NAME: &'static str;
    const SIZE: usize;
    const FIELDS: &'static [Field];
    fn get(r: &Self::Item, i: usize) -> i128;
    fn getm(r: &Self::ItemMut, i: usize) -> i128;
    fn set(r: &mut Self::ItemMut, i: usize, v: i128);
    fn fill(dst: &mut Self::ItemMut, src: &Self::Item);
    fn into_ref(m: Self::ItemMut) -> Self::Item;
}
pub trait D: for<'a> Dyn<'a> + 'static {}
impl<T: for<'a> Dyn<'a> + 'static> D for T {}

pub type Vals = Vec<i128>;

pub fn fields_of<T: D>() -> &'static [Field] {
    <T as Dyn<'static>>::FIELDS
}
pub fn size_of<T: D>() -> usize {
    <T as Dyn<'static>>::SIZE
}
pub fn name_of<T: D>() -> &'static str {
    <T as Dyn<'static>>::NAME
}
pub fn values<'a, T: D>(r: &<T as Struct<'a>>::Item) -> Vals {
    (0..fields_of::<T>().len()).map(|i| <T as Dyn<'a>>::get(r, i)).collect()
}
pub fn values_mut<'a, T: D>(r: &<T as Struct<'a>>::ItemMut) -> Vals {
    (0..fields_of::<T>().len()).map(|i| <T as Dyn<'a>>::getm(r, i)).collect()
}
pub fn set_every<'a, T: D>(r: &mut <T as Struct<'a>>::ItemMut, v: &[i128]) {
    for (i, x) in v.iter().enumerate() {
        <T as Dyn<'a>>::set(r, i, *x);
    }
}
thread_local! {
    static COIN: std::cell::Cell<u64> = std::cell::Cell::new(0);
}
/// Gives a fresh element its values. Fresh elements are zero, so fields that shall be zero need not be
/// set: every other time they are left alone, every fourth time something else is set before.
pub fn set_all<'a, T: D>(r: &mut <T as Struct<'a>>::ItemMut, v: &[i128]) {
    let n = COIN.with(|c| {
        c.set(c.get().wrapping_add(0x9E37_79B9_7F4A_7C15));
        c.get() >> 32
    });
    for (i, x) in v.iter().enumerate() {
        if *x == 0 && n & 1 == 0 {
            continue;
        }
        if n & 6 == 6 {
            let y = match fields_of::<T>()[i].ty {
                Ty::Enum { variants, .. } => variants[variants.len() - 1] as i128,
                Ty::Bool => 1,
                Ty::Int { .. } => (n & 0x7f) as i128,
            };
            <T as Dyn<'a>>::set(r, i, y);
        }
        <T as Dyn<'a>>::set(r, i, *x);
    }
}
pub fn view_values<'a, T: D>(v: &ArrayView<'a, T>) -> Vec<Vals> {
    (0..v.len()).map(|i| values::<T>(&v.at(i))).collect()
}

pub fn decode(fields: &[Field], b: &[u8]) -> Vals {
    fields.iter().map(|f| interpret(&f.ty, f.bits, get_bits(b, f.off, f.bits))).collect()
}
pub fn encode_into(fields: &[Field], b: &mut [u8], v: &[i128]) {
    for (f, x) in fields.iter().zip(v) {
        put_bits(b, f.off, f.bits, raw_of(&f.ty, f.bits, *x));
    }
}
pub fn encode(fields: &[Field], size: usize, v: &[i128]) -> Vec<u8> {
    let mut b = vec![0; size];
    encode_into(fields, &mut b, v);
    b
}
pub fn rand_vals(fields: &[Field], rng: &mut Rng) -> Vals {
    fields.iter().map(|f| rand_fit(rng, f)).collect()
}

/// What Debug must print for one struct. Enumerations print their variant name `V<k>`.
pub fn debug_of(name: &str, fields: &[Field], v: &[i128]) -> String {
    let parts: Vec<String> = fields
        .iter()
        .zip(v)
        .map(|(f, x)| match f.ty {
            Ty::Bool => format!("{}: {}", f.name, *x != 0),
            Ty::Enum { variants, .. } => {
                let k = variants.iter().position(|y| *y as i128 == *x).map(|k| k as i64).unwrap_or(-1);
                format!("{}: V{}", f.name, k)
            }
            _ => format!("{}: {}", f.name, x),
        })
        .collect();
    format!("{} {{ {} }}", name, parts.join(", "))
}

pub trait Codec: Sync {
    fn name(&self) -> &'static str;
    fn size(&self) -> usize;
    fn fields(&self) -> &'static [Field];
    fn read(&self, b: &[u8]) -> Vals;
    fn read_mut(&self, b: &mut [u8]) -> Vals;
    fn get(&self, b: &[u8], i: usize) -> i128;
    fn getm(&self, b: &mut [u8], i: usize) -> i128;
    /// Writes field i, then reads it through the mutable accessor and through into_ref.
    fn set(&self, b: &mut [u8], i: usize, v: i128) -> (i128, i128);
    fn fill(&self, dst: &mut [u8], src: &[u8]);
    fn equal(&self, a: &[u8], b: &[u8]) -> bool;
    fn debug(&self, a: &[u8]) -> String;
    fn debug_mut(&self, a: &mut [u8]) -> String;
    /// (bytes, values, debug) of a fresh StructBuf with the fields set in the given order.
    fn structbuf(&self, order: &[(usize, i128)]) -> (Vec<u8>, Vals, String);
    fn c06(&self, c: &mut crate::ctx::Ctx, small: bool) -> crate::ctx::V;
    fn c09(&self, c: &mut crate::ctx::Ctx) -> crate::ctx::V;
    fn c10(&self, c: &mut crate::ctx::Ctx) -> crate::ctx::V;
    fn c10_place(&self, c: &mut crate::ctx::Ctx) -> crate::ctx::V;
    fn c20(&self, c: &mut crate::ctx::Ctx) -> crate::ctx::V;
    fn c18(&self, c: &mut crate::ctx::Ctx) -> crate::ctx::V;
    fn encode(&self, v: &[i128]) -> Vec<u8> {
        encode(self.fields(), self.size(), v)
    }
    fn decode(&self, b: &[u8]) -> Vals {
        decode(self.fields(), b)
    }
    fn rand(&self, rng: &mut Rng) -> Vals {
        rand_vals(self.fields(), rng)
    }
}

pub struct Of<T>(pub PhantomData<T>);
unsafe impl<T> Sync for Of<T> {}

impl<T: D> Codec for Of<T> {
    fn name(&self) -> &'static str {
        name_of::<T>()
    }
    fn size(&self) -> usize {
        size_of::<T>()
    }
    fn fields(&self) -> &'static [Field] {
        fields_of::<T>()
    }
    fn read(&self, b: &[u8]) -> Vals {
        values::<T>(&T::create(b))
    }
    fn read_mut(&self, b: &mut [u8]) -> Vals {
        values_mut::<T>(&T::create_mut(b))
    }
    fn get(&self, b: &[u8], i: usize) -> i128 {
        <T as Dyn>::get(&T::create(b), i)
    }
    fn getm(&self, b: &mut [u8], i: usize) -> i128 {
        <T as Dyn>::getm(&T::create_mut(b), i)
    }
    fn set(&self, b: &mut [u8], i: usize, v: i128) -> (i128, i128) {
        let mut m = T::create_mut(b);
        <T as Dyn>::set(&mut m, i, v);
        let a = <T as Dyn>::getm(&m, i);
        let r = <T as Dyn>::into_ref(m);
        (a, <T as Dyn>::get(&r, i))
    }
    fn fill(&self, dst: &mut [u8], src: &[u8]) {
        fill_impl::<T>(dst, src)
    }
    fn equal(&self, a: &[u8], b: &[u8]) -> bool {
        equal_impl::<T>(a, b)
    }
    fn debug(&self, a: &[u8]) -> String {
        format!("{:?}", T::create(a))
    }
    fn debug_mut(&self, a: &mut [u8]) -> String {
        format!("{:?}", T::create_mut(a))
    }
    fn structbuf(&self, order: &[(usize, i128)]) -> (Vec<u8>, Vals, String) {
        let mut s = StructBuf::<T>::new();
        for (i, v) in order {
            let mut m = s.get_mut();
            <T as Dyn>::set(&mut m, *i, *v);
        }
        let vals = values::<T>(&s.get());
        let d = format!("{:?}", s);
        (s.as_bytes().to_vec(), vals, d)
    }
    fn c06(&self, c: &mut crate::ctx::Ctx, small: bool) -> crate::ctx::V {
        crate::stream::c06::<T>(c, small)
    }
    fn c09(&self, c: &mut crate::ctx::Ctx) -> crate::ctx::V {
        crate::lists::c09::<T>(c)
    }
    fn c10(&self, c: &mut crate::ctx::Ctx) -> crate::ctx::V {
        crate::lists::c10::<T>(c)
    }
    fn c10_place(&self, c: &mut crate::ctx::Ctx) -> crate::ctx::V {
        crate::lists::c10_place::<T>(c)
    }
    fn c20(&self, c: &mut crate::ctx::Ctx) -> crate::ctx::V {
        crate::lists::c20::<T>(c)
    }
    fn c18(&self, c: &mut crate::ctx::Ctx) -> crate::ctx::V {
        crate::misc::c18_struct::<T>(c)
    }
}

fn fill_impl<T: D>(dst: &mut [u8], src: &[u8]) {
    // one common lifetime for both references
    fn go<'x, T: D>(dst: &'x mut [u8], src: &'x [u8]) {
        let s = <T as Struct<'x>>::create(src);
        let mut d = <T as Struct<'x>>::create_mut(dst);
        <T as Dyn<'x>>::fill(&mut d, &s);
    }
    go::<T>(dst, src)
}
fn equal_impl<T: D>(a: &[u8], b: &[u8]) -> bool {
    fn go<'x, T: D>(a: &'x [u8], b: &'x [u8]) -> bool {
        let x = <T as Struct<'x>>::create(a);
        let y = <T as Struct<'x>>::create(b);
        let r = x == y;
        assert_eq!(r, !(x != y), "== and != disagree");
        r
    }
    go::<T>(a, b)
}

