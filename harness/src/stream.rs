//! C06 streaming vectors, C07 multivectors, C08 bounded memory.
use crate::archives::*;
use crate::codec::*;
use crate::ctx::*;
use crate::ensure;
use crate::rng::Rng;
use flatdata::{
    create_external_vector, create_multi_vector, ArrayView, FileResourceStorage, MemoryResourceStorage, MultiArrayView, ResourceStorage,
};
use std::marker::PhantomData;

pub const FLUSH: usize = 32 * 1024 * 1024;

fn elem(fields: &[Field], seed: u64, i: usize) -> Vals {
    let mut r = Rng(seed ^ (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15));
    fields
        .iter()
        .map(|f| match f.ty {
            Ty::Enum { variants, .. } => variants[(r.next() % variants.len() as u64) as usize] as i128,
            _ => match r.next() {
                x if x % 3 == 0 => 0,
                x => interpret(&f.ty, f.bits, raw_of(&f.ty, f.bits, (x >> 2) as i128)),
            },
        })
        .collect()
}

fn storage(c: &mut Ctx, file: bool) -> (St, std::path::PathBuf) {
    let d = c.dir();
    if file {
        (FileResourceStorage::new(d.clone()), d)
    } else {
        (MemoryResourceStorage::new("/mem"), d)
    }
}
fn fresh(file: bool, st: &St, d: &std::path::Path) -> St {
    if file {
        FileResourceStorage::new(d.to_path_buf())
    } else {
        st.clone()
    }
}

/// Compares a payload with the elements 0..n without holding both in memory.
fn check_payload(fields: &[Field], size: usize, seed: u64, n: usize, got: &[u8], what: &str) -> V {
    ensure!(got.len() == n * size, "{}: payload of {} bytes, want {} elements of {} bytes = {}", what, got.len(), n, size, n * size);
    let mut buf = vec![0u8; size];
    for i in 0..n {
        let v = elem(fields, seed, i);
        for b in buf.iter_mut() {
            *b = 0;
        }
        encode_into(fields, &mut buf, &v);
        if buf[..] != got[i * size..(i + 1) * size] {
            return Err(format!("{}: element {} of {} is {} want {} ({:?})", what, i, n, hex(&got[i * size..(i + 1) * size]), hex(&buf), v));
        }
    }
    Ok(())
}

fn c06_run<T: D>(c: &mut Ctx, n: usize, file: bool) -> V {
    let size = size_of::<T>();
    let fields = fields_of::<T>();
    let seed = c.rng.next();
    let desc = format!("streaming vector of {} x {} ({} bytes each) on {} storage", n, name_of::<T>(), size, if file { "file" } else { "memory" });
    c.case(desc.clone());
    let (st, d) = storage(c, file);
    let schema = format!("schema of {}", name_of::<T>());
    {
        let mut v = guard(|| create_external_vector::<T>(&*st, "vec", &schema))?.map_err(|e| format!("{}: create: {}", desc, e))?;
        ensure!(v.len() == 0 && v.is_empty() && v.is_open(), "{}: a fresh vector is not empty and open", desc);
        let r: Result<V, String> = guard(|| {
            for i in 0..n {
                let e = elem(fields, seed, i);
                {
                    let mut m = v.grow().map_err(|e| format!("{}: grow {} failed: {}", desc, i, e))?;
                    set_all::<T>(&mut m, &e);
                }
                ensure!(v.len() == i + 1, "{}: len {} after {} appends", desc, v.len(), i + 1);
            }
            Ok(())
        });
        if r.is_err() || r.as_ref().unwrap().is_err() {
            std::mem::forget(v);
            return Err(match r {
                Err(p) => format!("{}: {}", desc, p),
                Ok(Err(e)) => e,
                _ => unreachable!(),
            });
        }
        let view = guard(|| v.close())?.map_err(|e| format!("{}: close: {}", desc, e))?;
        ensure!(view.len() == n, "{}: view returned on close has {} elements", desc, view.len());
        check_payload(fields, size, seed, n, view.as_bytes(), &format!("{} (view returned on close)", desc))?;
        if n > 0 {
            for _ in 0..20 {
                let i = c.rng.below(n);
                let g = guard(|| values::<T>(&view.at(i)))?;
                ensure!(g == elem(fields, seed, i), "{}: element {} reads {:?}", desc, i, g);
            }
        }
    }
    let st2 = fresh(file, &st, &d);
    {
        let data = guard(|| st2.read("vec", &schema).map(|x| x.to_vec()).map_err(|e| format!("{}", e)))?.map_err(|e| format!("{}: reading it later: {}", desc, e))?;
        check_payload(fields, size, seed, n, &data, &format!("{} (read later)", desc))?;
    }
    c.count("elements appended and verified", n as u64);
    if n * size + 8 > FLUSH {
        c.count("vectors that crossed the internal buffer", 1);
    }
    c.nontrivial_cur();
    let _ = std::fs::remove_dir_all(&d);
    Ok(())
}

pub fn c06<T: D>(c: &mut Ctx, small: bool) -> V {
    let size = size_of::<T>();
    if small {
        let n = match c.rng.below(5) {
            0 => 0,
            1 => 1,
            2 => c.rng.range(2, 9),
            _ => c.rng.range(2, if c.slow() { 20 } else { 3000 }),
        };
        let n = if size > 1000 { n % 5 } else { n };
        let file = c.rng.chance(1, 2) && !c.slow();
        return c06_run::<T>(c, n, file);
    }
    // around the internal buffer: k full buffers plus a little
    let per = (FLUSH - 8) / size + 1; // appends after which the next one flushes
    let k = if size < 4 { 1 } else { c.rng.range(1, 3) };
    let d = c.rng.range(0, 4) as isize - 2;
    let n = ((per * k) as isize + d).max(1) as usize;
    let file = c.rng.chance(2, 3);
    c06_run::<T>(c, n, file)
}

#[cfg(feature = "interpose")]
fn c06_beyond_4g(c: &mut Ctx) -> V {
    use crate::interpose::*;
    use crate::G8;
    let fields = fields_of::<G8>();
    let n = 4096 + c.rng.range(1, 40);
    let seed = c.rng.next();
    let desc = format!("streaming vector of {} x 1 MiB (beyond 4 GiB) on file storage", n);
    c.case(desc.clone());
    let d = c.dir();
    let st = FileResourceStorage::new(d.clone());
    start(&c.scratch, Mode::Sparse);
    let r = guard(|| -> V {
        let mut v = create_external_vector::<G8>(&*st, "vec", "big").map_err(|e| e.to_string())?;
        for i in 0..n {
            let e = elem(fields, seed, i);
            match v.grow() {
                Ok(mut m) => set_all::<G8>(&mut m, &e),
                Err(e) => {
                    std::mem::forget(v);
                    return Err(format!("grow failed: {}", e));
                }
            }
            if v.len() != i + 1 {
                let l = v.len();
                std::mem::forget(v);
                return Err(format!("len {} after {} appends", l, i + 1));
            }
        }
        let view = v.close().map_err(|e| format!("close: {}", e))?;
        check_big(&view, fields, seed, n)
    });
    let rec = stop();
    r.and_then(|x| x).map_err(|e| format!("{}: {}", desc, e))?;
    let st2 = FileResourceStorage::new(d.clone());
    let x = guard(|| -> V {
        let data = st2.read("vec", "big").map_err(|e| e.to_string())?;
        check_big(&ArrayView::<G8>::new(data), fields, seed, n)
    });
    x.and_then(|x| x).map_err(|e| format!("{} (read later): {}", desc, e))?;
    c.count("elements appended and verified", n as u64);
    c.count("write operations observed beyond 4 GiB run", rec.log.len() as u64);
    c.nontrivial_cur();
    let _ = std::fs::remove_dir_all(&d);
    Ok(())
}
#[cfg(feature = "interpose")]
fn check_big(view: &ArrayView<crate::G8>, fields: &[Field], seed: u64, n: usize) -> V {
    ensure!(view.len() == n, "view has {} elements want {}", view.len(), n);
    for i in 0..n {
        let g = values::<crate::G8>(&view.at(i));
        ensure!(g == elem(fields, seed, i), "element {} reads {:?} want {:?}", i, g, elem(fields, seed, i));
    }
    Ok(())
}

pub fn c06_all(c: &mut Ctx) -> V {
    let reps = c.n(60, 1500);
    for cd in crate::fields::all_codecs() {
        if cd.size() > 1000 && c.slow() {
            continue;
        }
        for _ in 0..if cd.size() > 1000 { 4 } else { reps } {
            cd.c06(c, true)?;
        }
    }
    if c.slow() {
        return Ok(());
    }
    // buffer crossings: every generated layout in thorough, a choice in quick
    let codecs = crate::fields::all_codecs();
    let fast = c.kind == Kind::Rel;
    for (k, cd) in codecs.iter().enumerate() {
        let pick = match (fast, c.thorough) {
            (true, true) => cd.size() > 1,
            (true, false) => cd.size() >= 30 || c.rng.chance(1, 5),
            (false, true) => cd.size() > 4,
            (false, false) => cd.size() >= 1000,
        };
        if k as u64 % c.shards != c.shard {
            continue;
        }
        if pick {
            cd.c06(c, false)?;
        }
        if fast && cd.size() >= 1000 {
            for _ in 0..4 {
                cd.c06(c, false)?;
            }
        }
    }
    #[cfg(feature = "interpose")]
    {
        if fast && c.shard + 1 == c.shards {
            for _ in 0..if c.thorough { 3 } else { 1 } {
                c06_beyond_4g(c)?;
            }
        }
    }
    Ok(())
}

//
// C07
//
fn item_of(vars: &[(u8, &'static dyn Codec)], seed: u64, i: usize, shape: usize) -> Item {
    if shape >= 1000 {
        // one element of the first variant each, after a first item of small ones
        let (t, cd) = vars[(i == 0 && shape > 1000) as usize];
        let n = if i == 0 && shape > 1000 { shape - 1000 } else { 1 };
        return (0..n).map(|k| (t, elem(cd.fields(), seed ^ 77, i * 131 + k))).collect();
    }
    let mut r = Rng(seed ^ (i as u64 + 1).wrapping_mul(0xD134_2543_DE82_EF95));
    let n = match shape {
        0 => 0,
        1 => 1,
        _ => {
            if r.below(4) == 0 {
                0
            } else if shape > 200 {
                shape
            } else {
                r.below(shape + 1)
            }
        }
    };
    (0..n)
        .map(|k| {
            let (t, cd) = vars[r.below(vars.len())];
            (t, elem(cd.fields(), seed ^ 77, i * 131 + k))
        })
        .collect()
}

struct Expect<'x> {
    vars: &'x [(u8, &'static dyn Codec)],
    seed: u64,
    n: usize,
    shape: usize,
}

fn check_multi<I: IdxInfo, T: Var>(v: &MultiArrayView<I, T>, x: &Expect) -> V {
    ensure!(v.len() == x.n, "view has {} items want {}", v.len(), x.n);
    for i in 0..x.n {
        let w = item_of(x.vars, x.seed, i, x.shape);
        let g: Item = v.at(i).map(|e| <T as VarDyn>::read(&e)).collect();
        ensure!(g == w, "item {} of {}: got {:?} want {:?}", i, x.n, g, w);
    }
    Ok(())
}

fn c07_run<I: IdxInfo, T: Var>(c: &mut Ctx, n: usize, shape: usize, file: bool, exact: bool) -> V {
    let vars = <T as VarDyn>::variants();
    let seed = c.rng.next();
    let desc = format!(
        "multivector of {} items (shape {}) over {:?}, {}-bit index, on {} storage",
        n,
        shape,
        vars.iter().map(|v| (v.0, v.1.name())).collect::<Vec<_>>(),
        I::IBITS,
        if file { "file" } else { "memory" }
    );
    c.case(desc.clone());
    let (st, d) = storage(c, file);
    let x = Expect { vars: &vars, seed, n, shape };
    let mut elements = 0u64;
    let r = guard(|| -> V {
        let mut mv = create_multi_vector::<I, T>(&*st, "mv", "some multi").map_err(|e| e.to_string())?;
        for i in 0..n {
            let it = item_of(&vars, seed, i, shape);
            let r = match mv.grow() {
                Ok(mut b) => {
                    for (t, v) in &it {
                        <T as VarDyn>::add(&mut b, *t, v);
                        elements += 1;
                    }
                    Ok(())
                }
                Err(e) => Err(format!("grow {} failed: {}", i, e)),
            };
            if r.is_err() {
                std::mem::forget(mv);
                return r;
            }
        }
        let view = mv.close().map_err(|e| format!("close: {}", e))?;
        check_multi(&view, &x).map_err(|e| format!("view returned on close: {}", e))
    });
    r.and_then(|x| x).map_err(|e| format!("{}: {}", desc, e))?;
    let st2 = fresh(file, &st, &d);
    let r = guard(|| -> V {
        let index = st2.read("mv_index", "index(some multi)").map_err(|e| format!("index: {}", e))?;
        let data = st2.read("mv", "some multi").map_err(|e| format!("data: {}", e))?;
        if exact {
            let items: Vec<Item> = (0..n).map(|i| item_of(&vars, seed, i, shape)).collect();
            let (wi, wd) = multi_payloads(&vars, I::ISIZE, I::IBITS, &items);
            ensure!(index == &wi[..], "index payload differs: {} want {}", hex(index), hex(&wi));
            ensure!(data == &wd[..], "data payload differs ({} bytes, want {})", data.len(), wd.len());
        }
        check_multi(&MultiArrayView::<I, T>::new(ArrayView::new(index), data), &x)
    });
    r.and_then(|x| x).map_err(|e| format!("{} (read later): {}", desc, e))?;
    c.count("items appended and verified", n as u64);
    c.count("elements appended and verified", elements);
    c.nontrivial_cur();
    let _ = std::fs::remove_dir_all(&d);
    Ok(())
}

#[cfg(feature = "interpose")]
fn c07_beyond_4g<I: IdxInfo>(c: &mut Ctx) -> V {
    use crate::interpose::*;
    start(&c.scratch, Mode::Sparse);
    // 0.38 MiB per item on average
    let n = 14_000;
    let r = c07_run::<I, VarC>(c, n, 3, true, false);
    stop();
    if r.is_ok() {
        let bytes = totals().written;
        ensure!(bytes > 5 << 30, "harness: {} bytes in a multivector beyond 4 GiB", bytes);
    }
    c.count("multivectors beyond 4 GiB", 1);
    r
}

pub fn c07_all(c: &mut Ctx) -> V {
    let reps = c.n(250, 8000);
    let m = if c.slow() { 8 } else { 300 };
    for _ in 0..reps {
        let file = c.rng.chance(1, 3) && !c.slow();
        let n = match c.rng.below(5) {
            0 => 0,
            1 => 1,
            2 => c.rng.below(6),
            _ => c.rng.below(m),
        };
        let shape = c.rng.below(6);
        match c.rng.below(6) {
            0 => c07_run::<Idx32, VarA>(c, n, shape, file, true)?,
            1 => c07_run::<Idx40, VarB>(c, n, shape, file, true)?,
            2 => c07_run::<Idx24, VarD>(c, n, shape, file, true)?,
            3 => c07_run::<Idx33, VarS>(c, n, shape, file, true)?,
            4 => c07_run::<Idx64, VarA>(c, n, shape, file, true)?,
            _ => c07_run::<IdxBig, VarS>(c, n.min(40), shape, file, true)?,
        }
    }
    if c.slow() {
        return Ok(());
    }
    let fast = c.kind == Kind::Rel;
    // data buffer crossings with large elements (items of up to 5 elements of up to 1 MiB)
    for _ in 0..c.n(if fast { 3 } else { 1 }, if fast { 40 } else { 4 }) {
        let n = c.rng.range(30, 90);
        let shape = c.rng.range(2, 5);
        let file = c.rng.chance(2, 3);
        c07_run::<Idx64, VarC>(c, n, shape, file, true)?;
        let n = c.rng.range(33, 40);
        c07_run::<Idx40, VarC>(c, n, 3, file, true)?;
        // one item larger than the buffer
        let n = c.rng.range(1, 3);
        c07_run::<Idx40, VarC>(c, n, 90, file, true)?;
    }
    // items several times as large as the buffer
    if c.shard == 0 {
        let shape = c.rng.range(250, 330);
        c07_run::<Idx64, VarC>(c, 3, shape, true, true)?;
    }
    // data buffer crossings with small elements
    if fast && c.shard == 0 {
        c07_run::<Idx40, VarB>(c, 2_300_000, 4, true, true)?;
        // index buffer crossings: 8192 index entries of 4096 bytes per buffer
        for d in &[8191usize, 8192, 8193, 20000] {
            c07_run::<IdxBig, VarS>(c, *d, if *d > 9000 { 2 } else { 1 }, true, true)?;
        }
        c07_run::<Idx64, VarS>(c, 4_300_000, 0, true, true)?;
    }
    // both buffers cross in the same call, or one call apart: records of 4096 bytes like the index entries
    if c.shard + 1 == c.shards {
        for first in &[1000usize, 1001, 1000 + 2048, 1000 + 2049] {
            let n = 8192 * if fast { 2 } else { 1 } + c.rng.range(1, 20);
            c07_run::<IdxBig, VarE>(c, n, *first, *first % 2 == 0, false)?;
        }
    }
    // index and data buffer crossings at different paces
    if fast && c.shard == 1 % c.shards {
        let n = 8_500_000 + c.rng.below(99);
        c07_run::<Idx32, VarA>(c, n, 1, true, false)?;
        c07_run::<Idx64, VarB>(c, n, 2, true, false)?;
    }
    #[cfg(feature = "interpose")]
    {
        if fast && c.shard + 1 == c.shards {
            c07_beyond_4g::<Idx40>(c)?;
            if c.thorough {
                c07_beyond_4g::<Idx64>(c)?;
                c07_beyond_4g::<Idx33>(c)?;
                c07_beyond_4g::<IdxBig>(c)?;
            }
        }
    }
    Ok(())
}

//
// C08
//
#[cfg(feature = "interpose")]
pub fn c08(c: &mut Ctx) -> V {
    use crate::alloc::{current, peak, reset_peak};
    use crate::interpose::*;
    const BOUND: usize = 256 << 20;
    const SLACK: usize = 6 << 20;

    // one run: append step() `n` times, watch the heap
    fn watch(c: &mut Ctx, desc: String, n: usize, bytes: usize, steady: bool, mut step: impl FnMut(usize) -> V, base: usize) -> V {
        c.case(desc.clone());
        let mut peaks = [0usize; 3];
        let mut third = 0;
        reset_peak();
        for i in 0..n {
            if i * 3 / n != third {
                peaks[third] = peak();
                reset_peak();
                third = i * 3 / n;
            }
            let r = guard(|| step(i))?;
            r.map_err(|e| format!("{}: {}", desc, e))?;
            if i % 1024 == 0 || bytes / n > 10000 {
                let cur = current().saturating_sub(base);
                ensure!(cur <= BOUND, "{}: {} bytes of heap held after {} of {} appends (bound {})", desc, cur, i + 1, n, BOUND);
            }
        }
        peaks[third] = peak();
        let rel: Vec<usize> = peaks.iter().map(|p| p.saturating_sub(base)).collect();
        ensure!(rel.iter().all(|p| *p <= BOUND), "{}: peak heap {:?} per third of the run (bound {})", desc, rel, BOUND);
        // only where every buffer has been filled and flushed several times within the first third
        ensure!(!steady || rel[2] <= rel[0] + SLACK, "{}: heap grows with the amount of data: peak {:?} per third of the run", desc, rel);
        c.count("appends watched", n as u64);
        c.count("MiB appended", (bytes >> 20) as u64);
        c.count(&format!("peak heap KiB: {}", desc), (*rel.iter().max().unwrap() >> 10) as u64);
        c.nontrivial_cur();
        Ok(())
    }
    fn vector<T: D>(c: &mut Ctx, total: usize) -> V {
        let size = size_of::<T>();
        let fields = fields_of::<T>();
        let n = total / size;
        let d = c.dir();
        let st = FileResourceStorage::new(d.clone());
        start(&c.scratch, Mode::Sparse);
        let base = current();
        let seed = c.rng.next();
        let mut v = create_external_vector::<T>(&*st, "v", "s").map_err(|e| e.to_string())?;
        let e = elem(fields, seed, 1);
        let r = watch(
            c,
            format!("streaming vector of {} x {} bytes", n, size),
            n,
            n * size,
            true,
            |_| {
                let mut m = v.grow().map_err(|e| e.to_string())?;
                <T as Dyn>::set(&mut m, 0, e[0]);
                Ok(())
            },
            base,
        );
        if r.is_err() {
            std::mem::forget(v);
            return r;
        }
        reset_peak();
        let view = v.close().map_err(|e| e.to_string())?;
        let p = peak().saturating_sub(base);
        ensure!(p <= BOUND, "closing a vector of {} x {} bytes takes {} bytes of heap", n, size, p);
        ensure!(view.len() == n, "lost elements: {} of {}", view.len(), n);
        drop(view);
        stop();
        drop(st);
        let _ = std::fs::remove_dir_all(&d);
        let left = current().saturating_sub(base);
        ensure!(left < 1 << 20, "{} bytes of heap still held after the streaming vector and its storage are gone", left);
        Ok(())
    }
    fn multi<I: IdxInfo, T: Var>(c: &mut Ctx, n: usize, item: Item, bytes: usize) -> V {
        let d = c.dir();
        let st = FileResourceStorage::new(d.clone());
        start(&c.scratch, Mode::Sparse);
        let base = current();
        let mut v = create_multi_vector::<I, T>(&*st, "v", "s").map_err(|e| e.to_string())?;
        let r = watch(
            c,
            format!("multivector of {} items of {} elements, {} byte index entries", n, item.len(), I::ISIZE),
            n,
            n * bytes,
            (n * I::ISIZE < 8 << 20 || n * I::ISIZE > 400 << 20) && n * bytes > 400 << 20,
            |_| {
                let mut m = v.grow().map_err(|e| e.to_string())?;
                for (t, x) in &item {
                    <T as VarDyn>::add(&mut m, *t, x);
                }
                Ok(())
            },
            base,
        );
        if r.is_err() {
            std::mem::forget(v);
            return r;
        }
        reset_peak();
        let view = v.close().map_err(|e| e.to_string())?;
        let p = peak().saturating_sub(base);
        ensure!(p <= BOUND, "closing a multivector of {} items takes {} bytes of heap", n, p);
        ensure!(view.len() == n, "lost items: {} of {}", view.len(), n);
        drop(view);
        stop();
        drop(st);
        let _ = std::fs::remove_dir_all(&d);
        Ok(())
    }
    let gib = 1usize << 30;
    let k = if c.thorough { 4 } else { 1 };
    let item = |vars: Vec<(u8, &'static dyn Codec)>, tags: &[u8], seed: u64| -> Item {
        tags.iter().map(|t| (*t, elem(vars.iter().find(|v| v.0 == *t).unwrap().1.fields(), seed, 5))).collect()
    };
    let s = c.rng.next();
    vector::<crate::G7>(c, k * gib)?;
    vector::<crate::G8>(c, 2 * k * gib)?;
    vector::<crate::G2>(c, k * gib)?;
    vector::<IdxBigElem>(c, k * gib)?;
    multi::<Idx40, VarC>(c, 1000 * k, item(VarC::variants(), &[4, 3, 5], s), (1 << 20) + 65536 + 3)?;
    multi::<Idx64, VarC>(c, 20000 * k, item(VarC::variants(), &[4], s), 65537)?;
    // index much larger than data, and empty items only
    multi::<IdxBig, VarS>(c, 200_000 * k, item(VarS::variants(), &[1], s), 4096 + 4)?;
    multi::<IdxBig, VarS>(c, 200_000 * k, vec![], 4096)?;
    multi::<Idx40, VarB>(c, 10_000_000 * k, item(VarB::variants(), &[0, 7, 255], s), 27)?;
    if c.thorough {
        vector::<crate::G4>(c, 2 * gib)?;
        multi::<Idx24, VarS>(c, 100_000_000, vec![], 3)?;
    }
    let _: PhantomData<()> = PhantomData;
    Ok(())
}
#[cfg(feature = "interpose")]
type IdxBigElem = crate::G5;
