//! Generates the struct layouts under test. Layout choice depends on VERIF_SEED, so
//! different seeds exercise different layouts.
use std::env;
use std::fmt::Write as _;
use std::fs;
use std::path::Path;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

#[derive(Clone)]
enum Ty {
    Bool,
    Int(bool, u32),
    // signed, primitive bits, variants
    Enum(String, bool, u32, Vec<i64>),
}
struct F {
    ty: Ty,
    off: usize,
    bits: usize,
}

fn prim(signed: bool, size: u32) -> String {
    format!("{}{}", if signed { "i" } else { "u" }, size)
}

fn emit(out: &mut String, name: &str, size: usize, fields: &[F], typed_arm: bool) {
    let has_enum = fields.iter().any(|f| matches!(f.ty, Ty::Enum(..)));
    for f in fields {
        if let Ty::Enum(ref n, signed, psize, ref vars) = f.ty {
            let p = prim(signed, psize);
            writeln!(out, "#[allow(dead_code)] #[repr({})] #[derive(Debug, Clone, Copy, PartialEq, Eq)]\npub enum {} {{", p, n).unwrap();
            for (k, v) in vars.iter().enumerate() {
                writeln!(out, "    V{} = {},", k, v).unwrap();
            }
            writeln!(out, "}}").unwrap();
            writeln!(out, "impl flatdata::helper::Int for {} {{ const IS_SIGNED: bool = {}; }}", n, signed).unwrap();
            writeln!(out, "impl {} {{ pub fn of(v: i128) -> Self {{ match v as i64 {{", n).unwrap();
            for (k, v) in vars.iter().enumerate() {
                writeln!(out, "    {} => {}::V{},", v, n, k).unwrap();
            }
            writeln!(out, "    _ => unreachable!() }} }} }}").unwrap();
        }
    }
    write!(out, "define_struct!({n}, Ref{n}, RefMut{n}, \"{n} schema\", {s}", n = name, s = size).unwrap();
    for (i, f) in fields.iter().enumerate() {
        let (t, p) = match &f.ty {
            Ty::Bool => ("bool".to_string(), "bool".to_string()),
            Ty::Int(s, b) => (prim(*s, *b), prim(*s, *b)),
            Ty::Enum(n, s, b, _) => (n.clone(), prim(*s, *b)),
        };
        if has_enum || typed_arm {
            write!(out, ",\n    (f{i}, set_f{i}, {t}: {p}, {o}, {b})", i = i, t = t, p = p, o = f.off, b = f.bits).unwrap();
        } else {
            write!(out, ",\n    (f{i}, set_f{i}, {t}, {o}, {b})", i = i, t = t, o = f.off, b = f.bits).unwrap();
        }
    }
    writeln!(out, ");").unwrap();
    writeln!(out, "impl<'a> crate::codec::Dyn<'a> for {} {{", name).unwrap();
    writeln!(out, "    const NAME: &'static str = \"{}\"; const SIZE: usize = {};", name, size).unwrap();
    writeln!(out, "    const FIELDS: &'static [crate::codec::Field] = &[").unwrap();
    for (i, f) in fields.iter().enumerate() {
        let ty = match &f.ty {
            Ty::Bool => "crate::codec::Ty::Bool".to_string(),
            Ty::Int(s, b) => format!("crate::codec::Ty::Int {{ signed: {}, size: {} }}", s, b),
            Ty::Enum(_, s, b, v) => format!("crate::codec::Ty::Enum {{ signed: {}, size: {}, variants: &{:?} }}", s, b, v),
        };
        writeln!(out, "        crate::codec::Field {{ name: \"f{}\", off: {}, bits: {}, ty: {} }},", i, f.off, f.bits, ty).unwrap();
    }
    writeln!(out, "    ];").unwrap();
    for (fnname, argty) in &[("get", "Ref"), ("getm", "RefMut")] {
        writeln!(out, "    fn {}(r: &{}{}<'a>, i: usize) -> i128 {{ match i {{", fnname, argty, name).unwrap();
        for (i, f) in fields.iter().enumerate() {
            match &f.ty {
                Ty::Enum(_, false, 64, _) => writeln!(out, "        {i} => r.f{i}() as u64 as i128,", i = i).unwrap(),
                Ty::Enum(..) => writeln!(out, "        {i} => r.f{i}() as i64 as i128,", i = i).unwrap(),
                _ => writeln!(out, "        {i} => r.f{i}() as i128,", i = i).unwrap(),
            }
        }
        writeln!(out, "        _ => unreachable!() }} }}").unwrap();
    }
    writeln!(out, "    fn set(r: &mut RefMut{}<'a>, i: usize, v: i128) {{ match i {{", name).unwrap();
    for (i, f) in fields.iter().enumerate() {
        match &f.ty {
            Ty::Bool => writeln!(out, "        {i} => {{ r.set_f{i}(v != 0); }}", i = i).unwrap(),
            Ty::Int(s, b) => writeln!(out, "        {i} => {{ r.set_f{i}(v as {p}); }}", i = i, p = prim(*s, *b)).unwrap(),
            Ty::Enum(n, ..) => writeln!(out, "        {i} => {{ r.set_f{i}({n}::of(v)); }}", i = i, n = n).unwrap(),
        }
    }
    writeln!(out, "        _ => unreachable!() }} }}").unwrap();
    writeln!(out, "    fn fill(dst: &mut RefMut{n}<'a>, src: &Ref{n}<'_>) {{ dst.fill_from(src) }}", n = name).unwrap();
    writeln!(out, "    fn into_ref(m: RefMut{n}<'a>) -> Ref{n}<'a> {{ m.into_ref() }}", n = name).unwrap();
    writeln!(out, "}}").unwrap();
}

fn rand_fields(rng: &mut Rng, name: &str, enums: bool) -> (usize, Vec<F>) {
    let n = 1 + rng.below(8) as usize;
    let mut off = rng.below(10) as usize;
    if rng.below(2) == 0 {
        off = 0;
    }
    let mut fs = vec![];
    for i in 0..n {
        let mut sizes = vec![8u32, 16, 32, 64];
        if rng.below(3) == 0 {
            sizes = vec![64];
        }
        let size = sizes[rng.below(sizes.len() as u64) as usize];
        let signed = rng.below(2) == 0;
        let kind = rng.below(if enums { 5 } else { 3 });
        let (ty, bits) = if kind == 0 && rng.below(2) == 0 {
            (Ty::Bool, if rng.below(4) == 0 { 1 + rng.below(8) as usize } else { 1 })
        } else if kind >= 3 || (enums && i == 0) {
            let size = if signed && size == 8 { 16 } else { size };
            let bits = if rng.below(4) == 0 { size as usize } else { 2 + rng.below(size as u64 - 1) as usize };
            let mut vars: Vec<i64> = vec![0];
            let nv = 2 + rng.below(5);
            for _ in 0..nv {
                let m = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
                let mut v = rng.next() & m;
                if rng.below(3) == 0 { v = m; }
                if rng.below(4) == 0 { v = m >> 1; }
                let v = if signed {
                    let sh = 64 - bits as u32;
                    ((v << sh) as i64) >> sh
                } else {
                    // keep unsigned discriminants representable as i64 literals
                    (v & (i64::MAX as u64)) as i64
                };
                if !vars.contains(&v) {
                    vars.push(v);
                }
            }
            (Ty::Enum(format!("Enum{}F{}", name, i), signed, size, vars), bits)
        } else {
            let bits = match rng.below(6) {
                0 => 1,
                1 => size as usize,
                2 => size as usize - 1,
                3 if size == 64 => 57 + rng.below(8) as usize,
                _ => 1 + rng.below(size as u64) as usize,
            };
            (Ty::Int(signed, size), bits)
        };
        fs.push(F { ty, off, bits });
        off += bits;
        if rng.below(2) == 0 {
            off += rng.below(10) as usize;
        }
    }
    let size = (off + 7) / 8 + if rng.below(3) == 0 { rng.below(3) as usize } else { 0 };
    // last field end
    let end = fs.last().map(|f| f.off + f.bits).unwrap();
    let size = size.max((end + 7) / 8);
    (size, fs)
}

fn i(s: bool, b: u32, off: usize, bits: usize) -> F {
    F { ty: Ty::Int(s, b), off, bits }
}

fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_SEED");
    println!("cargo:rerun-if-changed=build.rs");
    // build only the workload of one property (everything when unset): compile time only
    println!("cargo:rerun-if-env-changed=FDVERIF_PROP");
    println!("cargo:rustc-cfg=prop=\"{}\"", env::var("FDVERIF_PROP").unwrap_or_else(|_| "all".into()));
    let seed: u64 = env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut rng = Rng(seed.wrapping_mul(0xD134_2543_DE82_EF95) ^ 0x5eed);
    let mut out = String::new();
    let mut names: Vec<String> = vec![];

    let fixed: Vec<(&str, usize, Vec<F>)> = vec![
        // karenina-like
        ("G0", 2, vec![i(false, 8, 0, 4), i(false, 8, 4, 7)]),
        ("G1", 10, vec![i(true, 32, 0, 16), i(true, 64, 16, 33), F { ty: Ty::Bool, off: 49, bits: 1 }, i(true, 8, 50, 7), i(true, 16, 57, 16), i(false, 8, 73, 1)]),
        // fields spanning nine bytes at various byte offsets
        ("G2", 37, vec![i(false, 16, 0, 9), i(false, 64, 9, 64), i(true, 64, 73, 63), i(false, 64, 141, 60), i(true, 64, 206, 64), i(false, 32, 270, 26)]),
        ("G3", 1, vec![i(false, 8, 0, 8)]),
        ("G4", 4, vec![i(false, 32, 0, 16), i(false, 32, 16, 16)]),
        ("G5", 3, vec![i(false, 32, 0, 24)]),
        ("G6", 8, vec![i(true, 64, 0, 64)]),
        ("G7", 65536, vec![i(false, 64, 0, 64), i(false, 32, 100, 30), i(true, 64, 65536 * 8 - 64, 64)]),
        ("G8", 1048576, vec![i(false, 64, 0, 64), i(false, 32, 1048576 * 8 - 33, 32)]),
        // with the type tag as large as an entry of the largest index
        ("G26", 4095, vec![i(false, 64, 0, 64), i(true, 32, 77, 31), i(false, 16, 4095 * 8 - 13, 13)]),
        ("G9", 5, vec![i(false, 32, 0, 20), i(false, 32, 20, 20)]),
    ];
    for (n, s, f) in &fixed {
        emit(&mut out, n, *s, f, false);
        names.push(n.to_string());
    }
    for k in 10..26 {
        let n = format!("G{}", k);
        let (s, f) = rand_fields(&mut rng, &n, false);
        emit(&mut out, &n, s, &f, k % 2 == 0);
        names.push(n);
    }
    let mut enums: Vec<String> = vec![];
    // small enum struct also used for the undeclared-discriminant probe
    emit(&mut out, "E0", 2, &[
        F { ty: Ty::Enum("EnumE0".into(), false, 8, vec![0, 1, 2]), off: 3, bits: 4 },
        i(false, 8, 7, 8)], true);
    enums.push("E0".into());
    emit(&mut out, "E1", 11, &[
        F { ty: Ty::Enum("EnumE1A".into(), true, 16, vec![0, -1, 5, -8]), off: 1, bits: 4 },
        i(true, 64, 9, 64),
        F { ty: Ty::Enum("EnumE1B".into(), false, 32, vec![0, 7, 255]), off: 73, bits: 8 }
    ], true);
    enums.push("E1".into());
    for k in 2..7 {
        let n = format!("E{}", k);
        let (s, f) = rand_fields(&mut rng, &n, true);
        emit(&mut out, &n, s, &f, true);
        enums.push(n);
    }
    writeln!(out, "pub fn plain_codecs() -> Vec<&'static dyn crate::codec::Codec> {{ vec![").unwrap();
    for n in &names {
        writeln!(out, "    &crate::codec::Of::<{}>(std::marker::PhantomData),", n).unwrap();
    }
    writeln!(out, "] }}\npub fn enum_codecs() -> Vec<&'static dyn crate::codec::Codec> {{ vec![").unwrap();
    for n in &enums {
        writeln!(out, "    &crate::codec::Of::<{}>(std::marker::PhantomData),", n).unwrap();
    }
    writeln!(out, "] }}").unwrap();
    let dir = env::var("OUT_DIR").unwrap();
    fs::write(Path::new(&dir).join("structs.rs"), out).unwrap();
}
