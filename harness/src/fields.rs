//! C01 field round trip, C02 field isolation, C03 portable bytes.
use crate::codec::*;
use crate::ctx::*;
use crate::ensure;
use crate::rng::Rng;

pub fn all_codecs() -> Vec<&'static dyn Codec> {
    let mut v = crate::plain_codecs();
    v.extend(crate::enum_codecs());
    v
}

/// Random bytes in which every enumeration field holds a declared variant.
pub fn background(c: &dyn Codec, rng: &mut Rng, n: usize) -> Vec<u8> {
    let mut b = match rng.below(4) {
        0 => vec![0u8; n],
        1 => vec![0xffu8; n],
        _ => rng.bytes(n),
    };
    for f in c.fields() {
        if let Ty::Enum { .. } = f.ty {
            let v = rand_fit(rng, f);
            put_bits(&mut b, f.off, f.bits, raw_of(&f.ty, f.bits, v));
        }
    }
    b
}

macro_rules! for_types {
    ($mac:ident) => {
        $mac!(i8, 8, true);
        $mac!(u8, 8, false);
        $mac!(i16, 16, true);
        $mac!(u16, 16, false);
        $mac!(i32, 32, true);
        $mac!(u32, 32, false);
        $mac!(i64, 64, true);
        $mac!(u64, 64, false);
    };
}

struct Io {
    name: &'static str,
    size: usize,
    ty: Ty,
    read: fn(&[u8], usize, usize) -> i128,
    write: fn(&mut [u8], i128, usize, usize),
    read3: fn(&[u8], usize) -> i128,
    read2: fn(&[u8]) -> i128,
    write3: fn(&mut [u8], i128, usize),
}

fn ios() -> Vec<Io> {
    let mut v: Vec<Io> = vec![];
    macro_rules! one {
        ($t:tt, $s:expr, $signed:expr) => {
            v.push(Io {
                name: stringify!($t),
                size: $s,
                ty: Ty::Int { signed: $signed, size: $s },
                read: |b, off, bits| read_bytes!($t, b.as_ptr(), off, bits) as i128,
                write: |b, x, off, bits| write_bytes!($t; (x as $t), b, off, bits),
                read3: |b, off| read_bytes!($t, b.as_ptr(), off) as i128,
                read2: |b| read_bytes!($t, b.as_ptr()) as i128,
                write3: |b, x, off| write_bytes!($t; (x as $t), b, off),
            });
        };
    }
    for_types!(one);
    v.push(Io {
        name: "bool",
        size: 8,
        ty: Ty::Bool,
        read: |b, off, bits| read_bytes!(bool, b.as_ptr(), off, bits) as i128,
        write: |b, x, off, bits| write_bytes!(bool; (x != 0), b, off, bits),
        read3: |b, off| read_bytes!(bool, b.as_ptr(), off) as i128,
        read2: |b| read_bytes!(bool, b.as_ptr()) as i128,
        write3: |b, x, off| write_bytes!(bool; (x != 0), b, off),
    });
    v
}

#[derive(Clone, Copy, PartialEq)]
enum Aspect {
    RoundTrip,
    Isolation,
    Layout,
}

/// Every type x width x bit offset (exhaustive over those), several values and backgrounds each.
fn macros(c: &mut Ctx, aspect: Aspect) -> V {
    let max_off = if c.slow() { 9 * c.shards as usize } else { 80 };
    let reps = c.n(6, 60).max(1);
    let mut combos = 0u64;
    for io in ios() {
        for bits in 1..=io.size {
            if c.slow() && bits > 9 && bits + 9 < io.size && bits % 7 != 0 {
                continue;
            }
            for off in 0..max_off {
                combos += 1;
                if c.slow() && combos % c.shards != c.shard {
                    continue;
                }
                let f = Field { name: "x", off, bits, ty: io.ty };
                let n = (off + bits + 7) / 8;
                for rep in 0..reps {
                    let bg = match rep {
                        0 => vec![0u8; n],
                        1 => vec![0xff; n],
                        _ => c.rng.bytes(n),
                    }
                    .into_boxed_slice();
                    let mut v = rand_value(&mut c.rng, &f);
                    if rep == 1 {
                        v = 0;
                    }
                    if rep == 0 {
                        v = interpret(&io.ty, io.size, u64::max_value() >> (64 - io.size));
                    }
                    c.evals += 1;
                    let what = || format!("{} off={} bits={} value={} background={}", io.name, off, bits, v, hex(&bg));
                    // reading
                    if aspect != Aspect::Isolation {
                        let got = guard(|| (io.read)(&bg, off, bits)).map_err(|e| format!("read {}: {}", what(), e))?;
                        let want = interpret(&io.ty, bits, get_bits(&bg, off, bits));
                        ensure!(got == want, "read_bytes! {}: got {} want {}", what(), got, want);
                    }
                    // writing, with canary bytes around the field's bytes in isolation mode
                    let pad = if aspect == Aspect::Isolation { 9 } else { 0 };
                    let mut full = c.rng.bytes(pad);
                    full.extend_from_slice(&bg);
                    full.extend_from_slice(&c.rng.bytes(pad));
                    let mut buf = full.clone().into_boxed_slice();
                    let r = guard(|| (io.write)(&mut buf[pad..], v, off, bits));
                    if let Err(e) = r {
                        return Err(format!("write {}: {}", what(), e));
                    }
                    let raw = raw_of(&io.ty, bits, v);
                    let mut want = full.clone();
                    put_bits(&mut want[pad..], off, bits, raw);
                    match aspect {
                        Aspect::RoundTrip => {
                            let back = guard(|| (io.read)(&buf, off, bits)).map_err(|e| format!("read back {}: {}", what(), e))?;
                            let w = interpret(&io.ty, bits, raw);
                            ensure!(back == w, "write_bytes!/read_bytes! {}: read back {} want {}", what(), back, w);
                        }
                        Aspect::Isolation => {
                            // all bits except the field's own must be what they were
                            let mut got = buf.to_vec();
                            put_bits(&mut got[pad..], off, bits, raw);
                            ensure!(got == want, "write_bytes! {} changed bits outside the field: got {} want {}", what(), hex(&buf), hex(&want));
                        }
                        Aspect::Layout => {
                            ensure!(&buf[..] == &want[..], "write_bytes! {}: bytes {} want {}", what(), hex(&buf), hex(&want));
                        }
                    }
                }
                if bits == io.size && aspect != Aspect::Isolation {
                    let bg = c.rng.bytes(n + 8);
                    let g = guard(|| (io.read3)(&bg, off))?;
                    let w = interpret(&io.ty, bits, get_bits(&bg, off, bits));
                    ensure!(g == w, "read_bytes!({}, data, {}) = {} want {}", io.name, off, g, w);
                    let g = guard(|| (io.read2)(&bg))?;
                    let w = interpret(&io.ty, bits, get_bits(&bg, 0, bits));
                    ensure!(g == w, "read_bytes!({}, data) = {} want {}", io.name, g, w);
                    let v = rand_value(&mut c.rng, &f);
                    let mut got = bg.clone();
                    let mut want = bg.clone();
                    guard(|| (io.write3)(&mut got, v, off))?;
                    put_bits(&mut want, off, bits, raw_of(&io.ty, bits, v));
                    ensure!(got == want, "write_bytes!({}; {}, data, {}): {} want {}", io.name, v, off, hex(&got), hex(&want));
                }
                c.nontrivial(crate::rng::fnv(format!("{} {} {}", io.name, bits, off).as_bytes()));
            }
        }
        let s = format!("macro {}: every width 1..={} at every bit offset 0..{}, {} values/backgrounds each", io.name, io.size, max_off, reps);
        c.case(s);
    }
    c.count("macro type/width/offset combinations", combos);
    Ok(())
}

fn struct_case(c: &mut Ctx, cd: &dyn Codec, aspect: Aspect) -> V {
    let n = cd.size();
    let pad = c.rng.below(12);
    let steps = c.rng.range(1, 8);
    let canary = c.rng.bytes(pad);
    let tail = c.rng.bytes(pad);
    let body = background(cd, &mut c.rng, n);
    let mut buf = canary.clone();
    buf.extend_from_slice(&body);
    buf.extend_from_slice(&tail);
    let mut buf = buf.into_boxed_slice();
    let mut want = buf.clone();
    let mut log = format!("{} size={} start={}", cd.name(), n, hex(&body));
    for _ in 0..steps {
        let i = c.rng.below(cd.fields().len());
        let f = &cd.fields()[i];
        let v = if c.rng.chance(1, 3) { rand_fit(&mut c.rng, f) } else { rand_value(&mut c.rng, f) };
        log += &format!("; set {}(off {} bits {} {:?})={}", f.name, f.off, f.bits, f.ty, v);
        c.cur = log.clone();
        let before = buf.clone();
        let got = guard(|| cd.set(&mut buf[pad..pad + n], i, v))?;
        put_bits(&mut want[pad..pad + n], f.off, f.bits, raw_of(&f.ty, f.bits, v));
        let w = interpret(&f.ty, f.bits, raw_of(&f.ty, f.bits, v));
        match aspect {
            Aspect::RoundTrip => {
                ensure!(got.0 == w, "{}: mutable accessor reads {} want {}", log, got.0, w);
                ensure!(got.1 == w, "{}: into_ref reads {} want {}", log, got.1, w);
                let g = guard(|| cd.get(&buf[pad..], i))?;
                ensure!(g == w, "{}: read-only accessor reads {} want {}", log, g, w);
                // all fields, judged against the bytes that are really there
                let all = guard(|| cd.read(&buf[pad..pad + n]))?;
                let allm = guard(|| cd.read_mut(&mut buf[pad..pad + n]))?;
                let wall = cd.decode(&buf[pad..pad + n]);
                ensure!(all == wall, "{}: fields {:?} but bytes hold {:?}", log, all, wall);
                ensure!(allm == wall, "{}: mutable fields {:?} but bytes hold {:?}", log, allm, wall);
            }
            Aspect::Isolation => {
                let mut masked = buf.clone();
                let mut mb = before.clone();
                put_bits(&mut masked[pad..pad + n], f.off, f.bits, 0);
                put_bits(&mut mb[pad..pad + n], f.off, f.bits, 0);
                ensure!(masked == mb, "{}: bits outside the field changed: before {} after {}", log, hex(&before), hex(&buf));
            }
            Aspect::Layout => {
                ensure!(buf == want, "{}: bytes {} want {}", log, hex(&buf), hex(&want));
            }
        }
        // keep later steps meaningful for enums even after an oracle-tolerated state
        want = buf.clone();
    }
    c.nontrivial(crate::rng::fnv(log.as_bytes()));
    c.case(log);
    c.count("struct field writes observed", steps as u64);
    Ok(())
}

fn fresh_case(c: &mut Ctx, cd: &dyn Codec) -> V {
    // a fresh StructBuf with some fields set, in random order
    let k = c.rng.range(0, cd.fields().len() + 2);
    let mut order = vec![];
    for _ in 0..k {
        let i = c.rng.below(cd.fields().len());
        order.push((i, rand_value(&mut c.rng, &cd.fields()[i])));
    }
    let desc = format!("StructBuf<{}> set {:?}", cd.name(), order);
    c.case(desc.clone());
    let mut want = vec![0u8; cd.size()];
    for (i, v) in &order {
        let f = &cd.fields()[*i];
        put_bits(&mut want, f.off, f.bits, raw_of(&f.ty, f.bits, *v));
    }
    // enumerations whose zero is not a declared variant never occur: variants always contain 0
    let (bytes, vals, _) = guard(|| cd.structbuf(&order))?;
    ensure!(bytes == want, "{}: bytes {} want {}", desc, hex(&bytes), hex(&want));
    ensure!(vals == cd.decode(&want), "{}: values {:?} want {:?}", desc, vals, cd.decode(&want));
    // decoding given bytes
    let b = background(cd, &mut c.rng, cd.size()).into_boxed_slice();
    let got = guard(|| cd.read(&b))?;
    ensure!(got == cd.decode(&b), "{} bytes {}: values {:?} want {:?}", cd.name(), hex(&b), got, cd.decode(&b));
    c.nontrivial_cur();
    Ok(())
}

fn run(c: &mut Ctx, aspect: Aspect) -> V {
    macros(c, aspect)?;
    let reps = c.n(3000, 60000);
    for cd in all_codecs() {
        let big = cd.size() > 1000;
        let r = if big { if c.slow() { 0 } else { (reps / 1000).max(2).min(40) } } else { reps };
        for _ in 0..r {
            struct_case(c, cd, aspect)?;
            if aspect == Aspect::Layout || (aspect == Aspect::RoundTrip && !big) {
                fresh_case(c, cd)?;
            }
        }
    }
    Ok(())
}

pub fn c01(c: &mut Ctx) -> V {
    run(c, Aspect::RoundTrip)
}
pub fn c02(c: &mut Ctx) -> V {
    run(c, Aspect::Isolation)?;
    // fill_from writes only the fields as well
    let reps = c.n(600, 20000);
    for cd in all_codecs() {
        if cd.size() > 1000 {
            continue;
        }
        for _ in 0..reps {
            let src = background(cd, &mut c.rng, cd.size());
            let dst = background(cd, &mut c.rng, cd.size() + 16);
            let mut got = dst.clone();
            c.case(format!("{} fill_from src={} dst={}", cd.name(), hex(&src), hex(&dst)));
            guard(|| cd.fill(&mut got[8..8 + cd.size()], &src))?;
            let mut a = got.clone();
            let mut b = dst.clone();
            for f in cd.fields() {
                put_bits(&mut a[8..], f.off, f.bits, 0);
                put_bits(&mut b[8..], f.off, f.bits, 0);
            }
            ensure!(a == b, "fill_from on {} changed bits outside the fields: before {} after {}", cd.name(), hex(&dst), hex(&got));
        }
    }
    Ok(())
}
pub fn c03(c: &mut Ctx) -> V {
    run(c, Aspect::Layout)?;
    // the same, end to end: archives written on this platform against the platform-independent encoder
    crate::archprops::wire(c, if c.slow() { 3 } else { 20 }, true)
}
