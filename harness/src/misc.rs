//! Storage map semantics, memory safety, lifetimes, threads, schema diffs.
use crate::archives::*;
use crate::archprops::*;
use crate::codec::*;
use crate::ctx::*;
use crate::ensure;
use crate::lists::{rand_range, resolve};
use crate::rng::{fnv, Rng};
use flatdata::{
    create_external_vector, create_multi_vector, ArrayView, FileResourceStorage, MemoryResourceStorage, MultiArrayView, ResourceStorage,
    Struct, Vector,
};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{self, Seek, SeekFrom, Write};
use std::marker::PhantomData;
use std::path::PathBuf;
use std::rc::Rc;

//
// C20: streaming vectors
//
pub fn writer_debug(c: &mut Ctx) -> V {
    fn one<T: D>(c: &mut Ctx, n: usize, every: usize) -> V {
        c.case(format!("Debug of a streaming vector of {} x {}", n, name_of::<T>()));
        let st = MemoryResourceStorage::new("/mem");
        let mut v = create_external_vector::<T>(&*st, "v", "s").map_err(|e| e.to_string())?;
        let r = (|| -> V {
            for i in 0..=n {
                if i < 4 || i % every == 0 || i == n {
                    let got = guard(|| format!("{:?}", v))?;
                    let want = format!("ExternalVector {{ len: {} }}", i);
                    ensure!(got == want, "Debug after {} appends: {} want {}", i, got, want);
                    c.count("printed forms compared", 1);
                }
                if i < n {
                    v.grow().map_err(|e| e.to_string())?;
                }
            }
            Ok(())
        })();
        if r.is_err() {
            std::mem::forget(v);
            return r;
        }
        v.close().map_err(|e| e.to_string())?;
        c.nontrivial_cur();
        Ok(())
    }
    one::<crate::G0>(c, 20, 3)?;
    one::<crate::G9>(c, 5, 1)?;
    if !c.slow() {
        // crosses the internal buffer
        let n = (33 << 20) / size_of::<crate::G8>() + 3;
        one::<crate::G8>(c, n, 97)?;
    }
    Ok(())
}

//
// C17
//
const ALL_KEYS: &[&str] = &[
    "a", "b", "b.schema", "a.schema", "x", "x.schema", "z", "long name \u{e9}", "d/x", "d/x.schema", "d/y", "d/a", "d/d/x", "d/d/a", "d/e/x", "d/e/a", "d/e/z", "d/e/z.schema",
    "d/e/w", "A", "X", "d/X", "d/e/X", "a.", "a ", " a", "x.schem", "e\u{301}", "\u{e9}", "f/x", "f/a", "f/g/h/i", "f/g/h/x", "f/g/h/a",
];
const DIRS: &[&str] = &["d", "d/e", "d/d", "f", "f/g", "f/g/h"];

/// Writes to a stream kept open (the stream's trait is not nameable outside the crate).
type Sink = Box<dyn FnMut(&[u8]) -> io::Result<()>>;
struct Handle {
    prefix: String,
    st: St,
    how: String,
}
fn make_handle(c: &mut Ctx, file: bool, dir: &PathBuf, root: &St) -> Handle {
    let pick = c.rng.below(if file { 9 } else { 6 });
    match pick {
        0 => Handle { prefix: "".into(), st: root.clone(), how: "root".into() },
        1 => Handle { prefix: "d/".into(), st: root.subdir("d"), how: "subdir(d)".into() },
        2 => Handle { prefix: "d/e/".into(), st: root.subdir("d/e"), how: "subdir(d/e)".into() },
        3 => Handle { prefix: "d/e/".into(), st: root.subdir("d").subdir("e"), how: "subdir(d).subdir(e)".into() },
        4 => Handle { prefix: "f/g/h/".into(), st: root.subdir("f/g").subdir("h"), how: "subdir(f/g).subdir(h)".into() },
        5 => Handle { prefix: "f/".into(), st: root.subdir("f"), how: "subdir(f)".into() },
        6 => Handle { prefix: "".into(), st: FileResourceStorage::new(dir.clone()), how: "fresh root".into() },
        7 => Handle { prefix: "d/".into(), st: FileResourceStorage::new(dir.join("d")), how: "fresh d".into() },
        _ => Handle { prefix: "d/e/".into(), st: FileResourceStorage::new(dir.join("d")).subdir("e"), how: "fresh d.subdir(e)".into() },
    }
}

fn c17_case(c: &mut Ctx, file: bool) -> V {
    let dir = c.dir();
    let base = if file { dir.join("x").join("y") } else { dir.clone() };
    if file && c.rng.chance(1, 2) {
        std::fs::create_dir_all(&base).unwrap();
    }
    let root: St = new_storage(file, &base);
    let mut map: Map = Map::new();
    // few keys, such that they are written and read repeatedly; often the same name in several directories
    let same = c.rng.chance(1, 2);
    let name = *c.rng.pick(&["x", "a"]);
    let mut keys: Vec<&'static str> = ALL_KEYS.iter().filter(|k| !same || k.rsplit('/').next() == Some(name)).cloned().collect();
    let few = c.rng.range(3, 9);
    while keys.len() > few {
        let k = c.rng.below(keys.len());
        keys.swap_remove(k);
    }
    let keys = &keys[..];
    let mut handles: Vec<Handle> = vec![Handle { prefix: "".into(), st: root.clone(), how: "root".into() }];
    let mut log = format!("{}:", if file { "file" } else { "memory" });
    // a stream left open between operations: key, handle index, position, content
    let mut open: Option<(String, Sink, u64, Vec<u8>)> = None;
    let steps = if c.slow() { 14 } else { c.rng.range(4, 40) };
    let mut r = Ok(());
    for _ in 0..steps {
        if c.rng.chance(1, 6) && handles.len() < 7 {
            let h = make_handle(c, file, &base, &root);
            log += &format!(" +[{}]", h.how);
            handles.push(h);
        }
        let hi = c.rng.below(handles.len());
        let pre = handles[hi].prefix.clone();
        let here: Vec<&str> = keys.iter().filter(|k| k.starts_with(&pre)).cloned().collect();
        if here.is_empty() {
            continue;
        }
        let full = c.rng.pick(&here).to_string();
        if open.as_ref().map_or(false, |o| o.0 == full) {
            continue;
        }
        let rel = full[pre.len()..].to_string();
        let (st, how) = (handles[hi].st.clone(), handles[hi].how.clone());
        r = c17_step(c, &*st, &how, &full, &rel, &mut map, &mut open, &mut log, &pre);
        if r.is_err() {
            break;
        }
    }
    if let (Ok(()), Some((k, s, _, content))) = (&r, open.take()) {
        drop(s);
        map.insert(k, content);
    }
    c.case(log.clone());
    r.map_err(|e| format!("{}: {}", log, e))?;
    // at the end: every key through every handle
    for h in &handles {
        for full in ALL_KEYS.iter().filter(|k| k.starts_with(&h.prefix)) {
            let rel = &full[h.prefix.len()..];
            check_key(&*h.st, rel, full, &map).map_err(|e| format!("{} END through {}: {}", log, h.how, e))?;
            c.count("final reads compared", 1);
        }
        for d in DIRS.iter().filter(|k| k.starts_with(&h.prefix) && k.len() > h.prefix.len()) {
            let rel = &d[h.prefix.len()..];
            check_key(&*h.st, rel, d, &map).map_err(|e| format!("{} END through {}: {}", log, h.how, e))?;
        }
    }
    if file {
        let got = tree(&base).0;
        if let Some(x) = diff_maps(&got, &map) {
            return Err(format!("{} END: files on disk: {}", log, x));
        }
    }
    c.nontrivial_cur();
    clean(&dir);
    Ok(())
}

fn check_key(st: &ResourceStorage, rel: &str, full: &str, map: &Map) -> V {
    let want = map.get(full);
    let ex = guard(|| st.exists(rel))?;
    ensure!(ex == want.is_some(), "exists('{}') = {} but the key was {}written", rel, ex, if want.is_some() { "" } else { "never " });
    match (guard(|| st.read_resource(rel).map(|b| b.to_vec())).map_err(|e| format!("read_resource('{}'): {}", rel, e))?, want) {
        (Ok(g), Some(w)) => ensure!(&g == w, "read_resource('{}') returns {} ({} bytes) want {} ({} bytes)", rel, hex(&g), g.len(), hex(w), w.len()),
        (Err(e), None) => ensure!(e.kind() == io::ErrorKind::NotFound, "read_resource('{}') of a missing key fails with {:?}, not NotFound", rel, e),
        (Ok(g), None) => return Err(format!("read_resource('{}') of a missing key returns {} bytes", rel, g.len())),
        (Err(e), Some(w)) => return Err(format!("read_resource('{}') fails with {:?} although {} bytes were written", rel, e, w.len())),
    }
    Ok(())
}

fn rand_data(rng: &mut Rng) -> Vec<u8> {
    if !cfg!(miri) && rng.chance(1, 60) {
        let n = rng.outsized(4 << 20);
        return rng.bytes(n);
    }
    let n = match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => rng.range(4090, 4100),
        3 => rng.range(8000, 9000),
        4 | 5 => 6,
        _ => rng.range(0, 40),
    };
    rng.bytes(n)
}

#[allow(clippy::too_many_arguments)]
fn c17_step(
    c: &mut Ctx,
    st: &ResourceStorage,
    how: &str,
    full: &str,
    rel: &str,
    map: &mut Map,
    open: &mut Option<(String, Sink, u64, Vec<u8>)>,
    log: &mut String,
    pre: &str,
) -> V {
    match c.rng.below(12) {
        // a whole resource written through a stream in pieces, with seeks
        0..=2 => {
            let data = rand_data(&mut c.rng);
            *log += &format!(" stream({} {} {}B)", how, rel, data.len());
            let s = guard(|| st.create_output_stream(rel))?.map_err(|e| format!("create_output_stream('{}'): {}", rel, e))?;
            let mut content: Vec<u8> = vec![];
            let mut pos = 0usize;
            let mut left = &data[..];
            while !left.is_empty() {
                let k = c.rng.range(1, left.len());
                guard(|| s.borrow_mut().write_all(&left[..k]))?.map_err(|e| format!("write: {}", e))?;
                put_at(&mut content, pos, &left[..k]);
                pos += k;
                left = &left[k..];
                if c.rng.chance(1, 4) {
                    let (to, want) = match c.rng.below(3) {
                        0 => {
                            let p = c.rng.below(content.len() + 1);
                            (SeekFrom::Start(p as u64), p)
                        }
                        1 => {
                            let p = c.rng.below(content.len() + 1);
                            (SeekFrom::End(p as i64 - content.len() as i64), p)
                        }
                        _ => {
                            let p = c.rng.below(content.len() + 5);
                            (SeekFrom::Current(p as i64 - pos as i64), p)
                        }
                    };
                    let got = guard(|| s.borrow_mut().seek(to))?.map_err(|e| format!("seek: {}", e))?;
                    ensure!(got == want as u64, "seek returned {} want {}", got, want);
                    pos = want;
                    *log += &format!(" seek({})", pos);
                }
            }
            if c.rng.chance(1, 2) {
                guard(|| s.borrow_mut().flush())?.map_err(|e| format!("flush: {}", e))?;
            }
            drop(s);
            map.insert(full.into(), content);
            c.count("resources written", 1);
            if c.rng.chance(1, 2) {
                check_key(st, rel, full, map)?;
            }
        }
        // a flatdata resource: data and schema
        3 | 4 => {
            if full.ends_with(".schema") {
                return Ok(());
            }
            let data = rand_data(&mut c.rng);
            let schema = (*c.rng.pick(&["", "s", "schema\nof x\n", "\u{e9}\u{4e2d}"])).to_string();
            let sk = format!("{}.schema", full);
            if open.as_ref().map_or(false, |o| o.0 == sk) {
                return Ok(());
            }
            *log += &format!(" write({} {} {}B schema {}B)", how, rel, data.len(), schema.len());
            guard(|| st.write(rel, &schema, &data))?.map_err(|e| format!("write('{}'): {}", rel, e))?;
            map.insert(full.into(), framed(&data));
            map.insert(sk, schema.into_bytes());
            c.count("resources written", 1);
        }
        // rewrite something already there with a value of related length
        5 | 6 => {
            let old = match map.get(full) {
                Some(o) => o.clone(),
                None => return Ok(()),
            };
            let mut data = match c.rng.below(4) {
                0 => c.rng.bytes(old.len()),
                1 => c.rng.bytes(old.len() / 2),
                2 => c.rng.bytes(old.len() + 7),
                _ => {
                    let mut d = old.clone();
                    if !d.is_empty() {
                        let at = if c.rng.chance(1, 2) { d.len() - 1 } else { c.rng.below(d.len()) };
                        d[at] ^= 1;
                    }
                    d
                }
            };
            if c.rng.chance(1, 8) {
                data = vec![];
            }
            *log += &format!(" rewrite({} {} {}B->{}B)", how, rel, old.len(), data.len());
            let s = guard(|| st.create_output_stream(rel))?.map_err(|e| format!("create_output_stream('{}'): {}", rel, e))?;
            guard(|| s.borrow_mut().write_all(&data))?.map_err(|e| format!("write: {}", e))?;
            drop(s);
            map.insert(full.into(), data);
            c.count("resources rewritten", 1);
        }
        // start or continue or finish a stream that stays open across other operations
        7 => match open.take() {
            None => {
                *log += &format!(" open({} {})", how, rel);
                let s = guard(|| st.create_output_stream(rel))?.map_err(|e| format!("create_output_stream('{}'): {}", rel, e))?;
                *open = Some((full.to_string(), Box::new(move |b: &[u8]| s.borrow_mut().write_all(b)), 0, vec![]));
                map.remove(full);
            }
            Some((k, mut s, mut pos, mut content)) => {
                let d = c.rng.bytes_upto(30);
                *log += &format!(" more({} {}B)", k, d.len());
                guard(|| s(&d))?.map_err(|e| format!("write: {}", e))?;
                put_at(&mut content, pos as usize, &d);
                pos += d.len() as u64;
                if c.rng.chance(1, 2) {
                    drop(s);
                    map.insert(k, content);
                } else {
                    *open = Some((k, s, pos, content));
                }
            }
        },
        8 | 9 => {
            *log += &format!(" read({} {})", how, rel);
            check_key(st, rel, full, map)?;
            c.count("reads compared", 1);
        }
        10 => {
            // checked read
            if full.ends_with(".schema") {
                return Ok(());
            }
            let sk = format!("{}.schema", full);
            if open.as_ref().map_or(false, |o| o.0 == sk) {
                return Ok(());
            }
            let right = map.get(&sk).and_then(|b| String::from_utf8(b.clone()).ok()).unwrap_or_default();
            let schema = if c.rng.chance(2, 3) { right } else { "other".to_string() };
            *log += &format!(" checked({} {})", how, rel);
            let want = status(map, full, &schema, 0);
            let got = guard(|| st.read(rel, &schema).map(|b| b.to_vec())).map_err(|e| format!("read('{}'): {}", rel, e))?;
            match (got, want) {
                (Ok(g), Ok(w)) => ensure!(&g[..] == w, "read('{}') returns {} want {}", rel, hex(&g), hex(w)),
                (Err(e), Err(causes)) => ensure!(causes.contains(&class_of(&e)), "read('{}') fails with {:?}, expected one of {:?}", rel, e, causes),
                (Ok(g), Err(causes)) => return Err(format!("read('{}') returns {} bytes, expected an error {:?}", rel, g.len(), causes)),
                (Err(e), Ok(w)) => return Err(format!("read('{}') fails with {:?}, expected {} bytes", rel, e, w.len())),
            }
            c.count("checked reads compared", 1);
        }
        _ => {
            let ds: Vec<&&str> = DIRS.iter().filter(|d| d.starts_with(pre) && d.len() > pre.len()).collect();
            if let Some(d) = ds.get(c.rng.below(ds.len().max(1))) {
                let rel = &d[pre.len()..];
                *log += &format!(" isdir({} {})", how, rel);
                check_key(st, rel, d, map)?;
            }
        }
    }
    Ok(())
}

fn put_at(v: &mut Vec<u8>, pos: usize, d: &[u8]) {
    if v.len() < pos + d.len() {
        v.resize(pos + d.len(), 0);
    }
    v[pos..pos + d.len()].copy_from_slice(d);
}

/// Many resources in one storage, read through one handle, with few file descriptors available.
fn c17_many(c: &mut Ctx, file: bool, n: usize) -> V {
    c.case(format!("{} keys in one {} storage", n, if file { "file" } else { "memory" }));
    let dir = c.dir();
    let st = new_storage(file, &dir);
    let val = |i: usize| -> Vec<u8> { format!("value {}", i * i).into_bytes() };
    for i in 0..n {
        let s = guard(|| st.create_output_stream(&format!("k{}/r{}", i % 5, i)))?.map_err(|e| format!("creating key {}: {}", i, e))?;
        guard(|| s.borrow_mut().write_all(&val(i)))?.map_err(|e| e.to_string())?;
    }
    for pass in 0..2 {
        let mut held = vec![];
        for i in 0..n {
            let k = format!("k{}/r{}", i % 5, i);
            let b = guard(|| st.read_resource(&k))?.map_err(|e| format!("pass {}: reading key {} of {}: {:?}", pass, i, n, e))?;
            ensure!(b == &val(i)[..], "pass {}: key {} reads as {}", pass, i, hex(b));
            held.push(b);
            c.count("reads compared", 1);
        }
        for (i, b) in held.iter().enumerate() {
            ensure!(*b == &val(i)[..], "pass {}: key {} changed to {}", pass, i, hex(b));
        }
    }
    c.nontrivial_cur();
    clean(&dir);
    Ok(())
}

pub fn c17(c: &mut Ctx) -> V {
    for _ in 0..c.n(4000, 150_000) {
        let file = pick_file(c);
        c17_case(c, file)?;
    }
    if !c.slow() {
        unsafe {
            let l = libc::rlimit { rlim_cur: 200, rlim_max: 200 };
            libc::setrlimit(libc::RLIMIT_NOFILE, &l);
        }
        c17_many(c, true, 700)?;
        c17_many(c, false, 700)?;
    }
    Ok(())
}

//
// C18
//
/// Any read-only use of a view over arbitrary bytes: nothing but values and panics may come out.
fn abuse_view<T: D>(c: &mut Ctx, data: &[u8]) {
    let view = ArrayView::<T>::new(data);
    let n = view.len();
    for _ in 0..8 {
        let i = crate::lists::bad_or_good_index(&mut c.rng, n, size_of::<T>());
        if guard(|| values::<T>(&view.at(i))).is_err() {
            c.count("panics on misuse or malformed data", 1);
        } else {
            c.count("values read", 1);
        }
        let r = rand_range(&mut c.rng, n);
        let _ = guard(|| {
            let s = view.slice(r);
            let k = s.len().min(50);
            for e in s.iter().take(k) {
                values::<T>(&e);
            }
            for e in s.iter().rev().take(20) {
                values::<T>(&e);
            }
            let _ = format!("{:?} {:?}", s, s.iter());
            if s.len() > 0 {
                values::<T>(&s.at(s.len() - 1));
            }
            s.as_bytes().iter().fold(0u8, |a, b| a ^ b)
        });
    }
}
fn abuse_multi<I: IdxInfo, T: Var>(c: &mut Ctx, index: &[u8], data: &[u8]) {
    // never reads an enumeration with an undeclared value: the caller passes enum-free variants
    let view = match guard(|| {
        let v = MultiArrayView::<I, T>::new(ArrayView::new(index), data);
        v.len();
        v
    }) {
        Ok(v) => v,
        Err(_) => {
            c.count("panics on misuse or malformed data", 1);
            return;
        }
    };
    let n = index.len() / I::ISIZE;
    for _ in 0..8 {
        let i = crate::lists::bad_or_good_index(&mut c.rng, n, I::ISIZE);
        let r = guard(|| {
            let it = view.at(i);
            let mut k = 0;
            for e in it.clone() {
                <T as VarDyn>::read(&e);
                k += 1;
                if k > 100 {
                    break;
                }
            }
            let _ = format!("{:?}", it);
        });
        c.count(if r.is_err() { "panics on misuse or malformed data" } else { "items read" }, 1);
        let rg = rand_range(&mut c.rng, n);
        let _ = guard(|| {
            let s = view.slice(rg);
            for e in s.iter().take(20) {
                for x in e.take(20) {
                    <T as VarDyn>::read(&x);
                }
            }
            for e in s.iter().rev().take(10) {
                for x in e.take(20) {
                    <T as VarDyn>::read(&x);
                }
            }
            format!("{:?}", s)
        });
    }
}
fn malformed<I: IdxInfo, T: Var>(c: &mut Ctx) {
    let vars = <T as VarDyn>::variants();
    let k = c.rng.range(0, 6);
    let items: Vec<Item> = (0..k).map(|_| rand_item(&vars, &mut c.rng, 4)).collect();
    let (mut index, mut data) = multi_payloads(&vars, I::ISIZE, I::IBITS, &items);
    let what = c.rng.below(6);
    match what {
        0 => {
            let n = c.rng.below(data.len() + 1);
            data.truncate(n);
        }
        1 => {
            let n = c.rng.below(index.len() + 1);
            index.truncate(n);
        }
        2 => {
            for _ in 0..3 {
                let p = c.rng.below(index.len());
                index[p] = c.rng.next() as u8;
            }
        }
        3 => {
            if !data.is_empty() {
                for _ in 0..3 {
                    let p = c.rng.below(data.len());
                    data[p] = c.rng.next() as u8;
                }
            }
        }
        4 => index = c.rng.bytes_upto(60),
        _ => data = c.rng.bytes_upto(60),
    }
    c.case(format!("malformed multivector (kind {}): index {} data {}", what, hex(&index), hex(&data)));
    let (index, data) = (index.into_boxed_slice(), data.into_boxed_slice());
    abuse_multi::<I, T>(c, &index, &data);
    c.nontrivial_cur();
}

/// A struct reference over fewer bytes than the struct has.
fn short_struct<T: D>(c: &mut Ctx) -> V {
    let size = size_of::<T>();
    let fields = fields_of::<T>();
    if fields.iter().any(|f| match f.ty {
        Ty::Enum { .. } => true,
        _ => false,
    }) {
        return Ok(());
    }
    let n = c.rng.below(size);
    let data = c.rng.bytes(n).into_boxed_slice();
    for (i, f) in fields.iter().enumerate() {
        if (f.off + f.bits + 7) / 8 <= n {
            continue;
        }
        c.case(format!("field {} of {} ({} bytes) over {} bytes", f.name, name_of::<T>(), size, n));
        let r = guard(|| <T as Dyn>::get(&<T as Struct>::create(&data), i));
        ensure!(r.is_err(), "{}: reading a field that is not inside the given {} bytes yields {:?} instead of a panic", c.cur, n, r);
        let mut buf = data.clone();
        let r = guard(|| {
            let mut m = <T as Struct>::create_mut(&mut buf);
            <T as Dyn>::getm(&m, i)
        });
        ensure!(r.is_err(), "{}: reading (mutable reference) a field outside the given {} bytes yields {:?} instead of a panic", c.cur, n, r);
        let r = guard(|| {
            let mut m = <T as Struct>::create_mut(&mut buf);
            <T as Dyn>::set(&mut m, i, 0);
        });
        ensure!(r.is_err(), "{}: writing a field outside the given {} bytes succeeds", c.cur, n);
        c.count("panics on misuse or malformed data", 3);
        c.nontrivial_cur();
    }
    Ok(())
}

pub fn has_enum(cd: &dyn Codec) -> bool {
    cd.fields().iter().any(|f| match f.ty {
        Ty::Enum { .. } => true,
        _ => false,
    })
}
/// Opens and fully reads archives with arbitrarily damaged resources.
fn c18_archives(c: &mut Ctx, n: usize) {
    for _ in 0..n {
        // archives without enumerations: any bytes are valid field values
        let d = if c.rng.chance(1, 2) { pure() } else { leaf() };
        let z = if c.slow() { 2 } else { 6 };
        let m = rand_model(&d, &mut c.rng, z);
        let file = pick_file(c) && c.rng.chance(1, 3);
        let mut bad = Map::new();
        encode_archive(&d, &m, "", &mut bad);
        let keys: Vec<String> = bad.keys().cloned().collect();
        let k = c.rng.range(1, 3);
        let mut what = String::new();
        for _ in 0..k {
            let key = c.rng.pick(&keys).clone();
            let b = bad.get_mut(&key).unwrap();
            let schema = key.ends_with(".schema");
            match c.rng.below(if schema { 3 } else { 7 }) {
                0 => {
                    let n = c.rng.below(b.len() + 1);
                    b.truncate(n);
                }
                1 => {
                    let e = c.rng.bytes_upto(12);
                    b.extend_from_slice(&e);
                }
                2 => *b = c.rng.bytes_upto(40),
                // payload replaced, header consistent
                3 | 4 => {
                    let p = c.rng.bytes_upto(60);
                    *b = framed(&p);
                }
                5 => {
                    let n = b.len();
                    if n >= 8 {
                        let v = match c.rng.below(5) {
                            0 => u64::max_value() - c.rng.below(20) as u64,
                            1 => (n as u64).wrapping_sub(c.rng.below(20) as u64),
                            2 => c.rng.next(),
                            3 => (1 << 63) + c.rng.below(20) as u64 - 10,
                            _ => c.rng.below(40) as u64,
                        };
                        for i in 0..8 {
                            b[i] = (v >> (8 * i)) as u8;
                        }
                    }
                }
                _ => {
                    // payload bytes flipped
                    let n = b.len();
                    if n > 16 {
                        for _ in 0..4 {
                            let p = 8 + c.rng.below(n - 16);
                            b[p] = c.rng.next() as u8;
                        }
                    }
                }
            }
            what += &format!(" {} -> {} bytes", key, b.len());
        }
        c.case(format!("open and read {} on {} storage with damaged{}", d.name, if file { "file" } else { "memory" }, what));
        let dir = c.dir();
        let st = new_storage(file, &dir);
        if guard(|| install(file, &dir, &st, &bad)).is_err() {
            continue;
        }
        let st = reader(file, &dir, &st);
        let r = guard(|| match (d.open)(st.clone()) {
            Ok(a) => {
                let r1 = guard(|| a.model());
                let r2 = guard(|| a.debug());
                drop(st);
                let b = a.dup();
                drop(a);
                let r3 = guard(|| b.raws().iter().map(|x| x.iter().fold(0u8, |a, b| a ^ b)).fold(0, |a, b| a ^ b));
                let panics = r1.is_err() as u64 + r2.is_err() as u64 + r3.is_err() as u64;
                (1u64, 0u64, panics)
            }
            Err(_) => (0, 1, 0),
        });
        if let Ok((o, e, p)) = r {
            c.count("malformed archives opened", o);
            c.count("malformed archives refused", e);
            c.count("panics on misuse or malformed data", p);
        }
        c.nontrivial_cur();
        clean(&dir);
    }
}

pub fn c18_struct<T: D>(c: &mut Ctx) -> V {
    short_struct::<T>(c)?;
    let n = c.rng.range(0, 5 * size_of::<T>().min(40)) + if c.rng.chance(1, 2) { 0 } else { size_of::<T>() };
    let enums = fields_of::<T>().iter().any(|f| match f.ty {
        Ty::Enum { .. } => true,
        _ => false,
    });
    if !enums {
        let data = c.rng.bytes(n).into_boxed_slice();
        c.case(format!("view of {} over {} arbitrary bytes", name_of::<T>(), n));
        abuse_view::<T>(c, &data);
        c.nontrivial_cur();
    }
    // misuse of in-memory vectors
    c.case(format!("vector of {} accessed with arbitrary indices", name_of::<T>()));
    let mut v = Vector::<T>::with_len(c.rng.below(4));
    for _ in 0..6 {
        match c.rng.below(5) {
            0 => {
                v.grow();
            }
            1 => {
                let k = c.rng.below(20);
                v.reserve(k)
            }
            2 => {
                // absurd sizes must fail cleanly, not wrap around
                let k = (usize::max_value() / size_of::<T>().max(1)).wrapping_add(c.rng.below(5)).wrapping_sub(2);
                let r = guard(|| {
                    let mut w = Vector::<T>::with_len(k);
                    let mut m = w.at_mut(3);
                    let f = fields_of::<T>();
                    if !f.is_empty() {
                        <T as Dyn>::set(&mut m, 0, if enums { values::<T>(&Vector::<T>::with_len(1).at(0))[0] } else { 0 });
                    }
                });
                ensure!(r.is_err(), "Vector::with_len({}) of {} byte structs succeeded", k, size_of::<T>());
                c.count("panics on misuse or malformed data", 1);
            }
            _ => {
                let i = crate::lists::bad_or_good_index(&mut c.rng, v.len(), size_of::<T>());
                let inside = i < v.len();
                let r = guard(|| values::<T>(&v.at(i)));
                ensure!(inside == r.is_ok(), "Vector::at({}) of {} elements: {:?}", i, v.len(), r.map(|_| "a value"));
                if inside {
                    let w = rand_vals(fields_of::<T>(), &mut c.rng);
                    let mut m = v.at_mut(i);
                    set_every::<T>(&mut m, &w);
                } else {
                    let r = guard(|| {
                        let mut m = v.at_mut(i);
                        let f = fields_of::<T>();
                        if !f.is_empty() {
                            let w = rand_vals(f, &mut c.rng);
                            set_every::<T>(&mut m, &w);
                        }
                    });
                    ensure!(r.is_err(), "Vector::at_mut({}) of {} elements succeeded", i, v.len());
                    c.count("panics on misuse or malformed data", 2);
                }
            }
        }
    }
    let _ = guard(|| format!("{:?}", v));
    c.nontrivial_cur();
    Ok(())
}

/// Misuse of writers: absurd calls end in errors or panics.
fn c18_writers(c: &mut Ctx) -> V {
    let file = pick_file(c);
    let dir = c.dir();
    c.case(format!("writers dropped, closed and reused in odd orders on {} storage", if file { "file" } else { "memory" }));
    let st = new_storage(file, &dir);
    let n = c.rng.below(6);
    // dropped without close, inside and outside an unwinding
    let _ = guard(|| {
        let mut v = create_external_vector::<crate::G2>(&*st, "v", "s").unwrap();
        for _ in 0..n {
            v.grow().unwrap();
        }
    });
    let _ = guard(|| {
        let mut v = create_multi_vector::<Idx32, VarA>(&*st, "m", "s").unwrap();
        let mut w = create_external_vector::<crate::G3>(&*st, "w", "s").unwrap();
        for i in 0..n {
            let mut it = v.grow().unwrap();
            <VarA as VarDyn>::add(&mut it, 0, &vec![0; fields_of::<crate::G0>().len()]);
            let _ = i;
            w.grow().unwrap();
        }
        panic!("user panic");
    });
    // two writers on one resource, one read while the other is open
    let _ = guard(|| {
        let mut v = create_external_vector::<crate::G2>(&*st, "v", "s").unwrap();
        v.grow().unwrap();
        let mut w = create_external_vector::<crate::G2>(&*st, "v", "s").unwrap();
        w.grow().unwrap();
        let a = w.close().map(|x| x.as_bytes().to_vec());
        let b = v.close().map(|x| x.as_bytes().to_vec());
        let _ = (a.is_ok(), b.is_ok());
    });
    let _ = guard(|| {
        let s = st.create_output_stream("raw").unwrap();
        s.borrow_mut().write_all(&[1, 2, 3]).unwrap();
        let a = st.read_resource("raw").map(|b| b.len());
        s.borrow_mut().seek(SeekFrom::Start(100)).unwrap();
        s.borrow_mut().write_all(&[1, 2, 3]).unwrap();
        let b = st.read_resource("raw").map(|b| b.iter().map(|x| *x as u32).sum::<u32>());
        let c = st.read("raw", "s").map(|b| b.len());
        let _ = (a.is_ok(), b.is_ok(), c.is_ok());
    });
    for k in &["v", "m", "m_index", "w", "raw", "nope", "v.schema"] {
        let _ = guard(|| st.read(k, "s").map(|b| b.iter().fold(0u8, |a, b| a ^ b)));
        let _ = guard(|| st.read_resource(k).map(|b| b.iter().fold(0u8, |a, b| a ^ b)));
    }
    c.nontrivial_cur();
    clean(&dir);
    Ok(())
}

/// Under Miri the parts of the workload are divided between the processes.
fn c18_part(c: &mut Ctx, k: &mut u64, name: &str, f: impl FnOnce(&mut Ctx) -> V) -> V {
    *k += 1;
    if c.slow() && *k % c.shards != c.shard {
        return Ok(());
    }
    let t = std::time::Instant::now();
    let r = f(c);
    if c.slow() {
        println!("part {} took {:.1} s", name, t.elapsed().as_secs_f64());
    }
    r
}
pub fn c18(c: &mut Ctx) -> V {
    let mut k = 0;
    c18_part(c, &mut k, "structs", |c| {
        let n = c.n(200, 4000);
        for cd in crate::fields::all_codecs() {
            let r = if cd.size() > 1000 { if c.slow() { 0 } else { 3 } } else { n };
            for _ in 0..r {
                cd.c18(c)?;
            }
        }
        Ok(())
    })?;
    c18_part(c, &mut k, "malformed", |c| {
        for _ in 0..c.n(1500, 30_000) {
            malformed::<Idx32, VarA>(c);
            malformed::<Idx40, VarB>(c);
            malformed::<Idx24, VarB>(c);
            malformed::<Idx64, VarC>(c);
        }
        Ok(())
    })?;
    c18_part(c, &mut k, "archives", |c| {
        let k = c.n(4000, 60_000);
        c18_archives(c, k);
        Ok(())
    })?;
    c18_part(c, &mut k, "writers", |c| {
        for _ in 0..c.n(400, 4000) {
            c18_writers(c)?;
        }
        Ok(())
    })?;
    // ordinary use, for the sanitizers; its results are judged by the other properties
    let m = c.mult;
    c.mult = m * if c.kind == Kind::Rel || c.kind == Kind::Dbg { 0.1 } else { 0.5 };
    let fs: Vec<(&str, fn(&mut Ctx) -> V)> = vec![
        ("fields", crate::fields::c01),
        ("vectors", crate::lists::c09_all),
        ("array views", crate::lists::c10_all),
        ("multivector views", crate::lists::c11),
        ("printing", crate::lists::c20_all),
        ("archives", c05),
        ("opening", c12),
        ("storages", c17_plain),
        ("lifetimes", c19),
    ];
    for (name, f) in fs {
        c18_part(c, &mut k, name, |c| {
            let r = guard(|| f(c));
            c.count(&format!("ordinary use run under this instrument: {}", name), 1);
            if let Ok(Err(_)) | Err(_) = r {
                c.count("ordinary use stopped early (other property)", 1);
            }
            Ok(())
        })?;
    }
    c.mult = m;
    #[cfg(feature = "interpose")]
    {
        if c.kind != Kind::Miri {
            k2(c);
        }
    }
    Ok(())
}
fn c17_plain(c: &mut Ctx) -> V {
    for _ in 0..c.n(4000, 100_000) {
        let file = pick_file(c);
        c17_case(c, file)?;
    }
    Ok(())
}

/// Known finding K2: shrinking a resource that is still mapped.
#[cfg(feature = "interpose")]
fn k2(c: &mut Ctx) {
    let dir = c.dir();
    std::fs::create_dir_all(&dir).unwrap();
    let st = FileResourceStorage::new(dir.clone());
    st.write("r", "s", &vec![7u8; 100_000]).unwrap();
    let status = fork_run(|| {
        unsafe {
            // no core, no report: the signal is the observation
            for s in &[libc::SIGBUS, libc::SIGSEGV] {
                libc::signal(*s, libc::SIG_DFL);
            }
        }
        let held = st.read("r", "s").unwrap();
        st.write("r", "s", &[1, 2, 3]).unwrap();
        let x = held.iter().fold(0u8, |a, b| a.wrapping_add(*b));
        std::hint::black_box(x);
    });
    if libc::WIFSIGNALED(status) && libc::WTERMSIG(status) == libc::SIGBUS {
        c.known.push("K2".into());
    }
    clean(&dir);
}

/// Known finding K1 (only meaningful under Miri): an enumeration field holding an undeclared value.
pub fn k1(c: &mut Ctx) -> V {
    for cd in crate::fields::all_codecs() {
        for (i, f) in cd.fields().iter().enumerate() {
            if let Ty::Enum { variants, .. } = &f.ty {
                for raw in 0..(1u64 << f.bits.min(8)) {
                    let v = interpret(&f.ty, f.bits, raw);
                    if !variants.contains(&(v as i64)) {
                        let mut b = vec![0u8; cd.size()];
                        put_bits(&mut b, f.off, f.bits, raw);
                        c.case(format!("K1: field {} of {} = {}", f.name, cd.name(), v));
                        let _ = cd.get(&b, i);
                        return Ok(());
                    }
                }
            }
        }
    }
    Ok(())
}

//
// C19
//
struct Held {
    what: String,
    owner: usize,
    bytes: &'static [u8],
    copy: Vec<u8>,
}
pub fn c19(c: &mut Ctx) -> V {
    for _ in 0..c.n(500, 20_000) {
        let file = pick_file(c);
        c19_case(c, file)?;
    }
    if !c.slow() && c.shard == 0 {
        c19_many(c, true, if c.thorough { 6000 } else { 1500 })?;
        c19_many(c, false, if c.thorough { 6000 } else { 1500 })?;
        c19_large(c)?;
    }
    Ok(())
}
/// Everything handed out by one storage stays valid while very many resources are opened through it.
fn c19_many(c: &mut Ctx, file: bool, n: usize) -> V {
    let dir = c.dir();
    let st: St = new_storage(file, &dir);
    c.case(format!("{} resources held at once on {} storage", n, if file { "file" } else { "memory" }));
    let mut held: Vec<(&'static [u8], u64, u64)> = vec![];
    let content = |i: u64| -> Vec<u8> { (0..(1 + i % 97)).map(|k| (i.wrapping_mul(31) + k * 7) as u8).collect() };
    for i in 0..n as u64 {
        let name = format!("m{}/r{}", i % 7, i);
        guard(|| st.write(&name, "schema", &content(i)))?.map_err(|e| format!("{}: {}", c.cur, e))?;
        let b = guard(|| st.read(&name, "schema").map(|b| unsafe { forever(b) }))?.map_err(|e| format!("{}: {}", c.cur, e))?;
        held.push((b, i, i));
        let j = (c.rng.next() % held.len() as u64) as usize;
        ensure!(held[j].0 == &content(held[j].1)[..], "{}: after {} resources, the slice of resource {} changed", c.cur, i + 1, j);
        if i % 256 == 255 || i + 1 == n as u64 {
            for h in &held {
                ensure!(h.0 == &content(h.1)[..], "{}: after {} resources, the slice of resource {} changed", c.cur, i + 1, h.2);
            }
            c.count("held slices re-read", held.len() as u64);
        }
    }
    c.nontrivial_cur();
    drop(st);
    clean(&dir);
    Ok(())
}
/// The same with resources which add up to much address space (sparse files).
fn c19_large(c: &mut Ctx) -> V {
    use std::io::{Seek, SeekFrom};
    let dir = c.dir();
    let n = 24usize;
    let size = 256u64 << 20;
    c.case(format!("{} sparse resources of {} bytes mapped through one storage", n, size));
    let st: St = new_storage(true, &dir);
    let mut held: Vec<(&'static [u8], u8)> = vec![];
    std::fs::create_dir_all(&dir).unwrap();
    for i in 0..n {
        {
            let mut f = std::fs::File::create(dir.join(format!("l{}", i))).unwrap();
            f.set_len(size).unwrap();
            for pos in &[0, size / 2, size - 1] {
                f.seek(SeekFrom::Start(*pos)).unwrap();
                f.write_all(&[i as u8 + 1]).unwrap();
            }
        }
        let b = guard(|| st.read_resource(&format!("l{}", i)).map(|b| unsafe { forever(b) }))?.map_err(|e| format!("{}: {}", c.cur, e))?;
        held.push((b, i as u8 + 1));
        for (b, v) in &held {
            ensure!(
                b.len() as u64 == size && b[0] == *v && b[b.len() / 2] == *v && b[b.len() - 1] == *v && b[1] == 0,
                "{}: after {} resources, the slice of resource {} changed",
                c.cur,
                i + 1,
                v - 1
            );
            c.count("held slices re-read", 1);
        }
    }
    c.nontrivial_cur();
    drop(st);
    clean(&dir);
    Ok(())
}
unsafe fn forever(b: &[u8]) -> &'static [u8] {
    std::mem::transmute(b)
}
fn c19_case(c: &mut Ctx, file: bool) -> V {
    let dir = c.dir();
    let base: St = new_storage(file, &dir);
    let d = if c.rng.chance(1, 2) { root() } else { flat() };
    let z = if c.slow() { 2 } else { 8 };
    let m = rand_model(&d, &mut c.rng, z);
    let mut map = Map::new();
    encode_archive(&d, &m, "", &mut map);
    install(file, &dir, &base, &map);
    let keys: Vec<String> = map.keys().cloned().collect();
    let mut log = String::new();
    // storages (owners of slices), archives
    let mut stores: Vec<Option<St>> = vec![Some(base.clone())];
    drop(base);
    let mut archives: Vec<(Box<dyn ArchRead>, Vec<(&'static [u8], Vec<u8>)>, ArchDesc, Model)> = vec![];
    let known = |a: &Box<dyn ArchRead>| a.raws().iter().map(|b| (unsafe { forever(b) }, b.to_vec())).collect();
    let mut held: Vec<Held> = vec![];
    let mut extra = 0usize;
    let mut extras: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let steps = if c.slow() { 12 } else { c.rng.range(6, 40) };
    let mut r: V = Ok(());
    for _ in 0..steps {
        r = (|| -> V {
            let live: Vec<usize> = (0..stores.len()).filter(|i| stores[*i].is_some()).collect();
            match c.rng.below(14) {
                12 if !live.is_empty() => {
                    // many resources written and read, some of them held
                    let o = *c.rng.pick(&live);
                    let k = if c.slow() { 4 } else { c.rng.range(20, 150) };
                    log += &format!(" write+read({} x{})", o, k);
                    let st = stores[o].clone().unwrap();
                    for _ in 0..k {
                        extra += 1;
                        let name = format!("{}many{}", if c.rng.chance(1, 4) { "deep/" } else { "" }, extra);
                        let b: Vec<u8> = { let n = c.rng.range(0, 80); (0..n).map(|_| c.rng.next() as u8).collect() };
                        let _ = guard(|| st.exists(&name))?;
                        guard(|| -> io::Result<()> {
                            let s = st.create_output_stream(&name)?;
                            s.borrow_mut().write_all(&b)?;
                            Ok(())
                        })?
                        .map_err(|e| format!("write: {}", e))?;
                        let g = guard(|| st.read_resource(&name).map(|b| unsafe { forever(b) }))?.map_err(|e| format!("read '{}': {}", name, e))?;
                        ensure!(g == &b[..], "'{}' reads as {} bytes other than stored", name, g.len());
                        if c.rng.chance(1, 4) {
                            held.push(Held { what: name.clone(), owner: o, bytes: g, copy: b.clone() });
                        }
                        c.count("resources opened next to held ones", 1);
                        extras.insert(name, b);
                    }
                }
                13 if !live.is_empty() && !extras.is_empty() => {
                    // resources nobody holds are rewritten with other sizes and read again
                    let o = *c.rng.pick(&live);
                    let st = stores[o].clone().unwrap();
                    let ks: Vec<String> = extras.keys().filter(|k| !held.iter().any(|h| h.what == **k)).cloned().collect();
                    for _ in 0..c.rng.range(1, 6) {
                        if ks.is_empty() {
                            break;
                        }
                        let k = c.rng.pick(&ks).clone();
                        let mut b = rand_data(&mut c.rng);
                        // a resource of unchanged size is the business of C17
                        while b.len() == extras[&k].len() {
                            b.push(7);
                        }
                        log += &format!(" rewrite({} {})", o, k);
                        guard(|| -> io::Result<()> {
                            let s = st.create_output_stream(&k)?;
                            s.borrow_mut().write_all(&b)?;
                            Ok(())
                        })?
                        .map_err(|e| format!("write: {}", e))?;
                        let n = guard(|| st.read_resource(&k).map(|x| x.len()))?.map_err(|e| format!("read '{}': {}", k, e))?;
                        ensure!(n == b.len(), "rewritten '{}' reads as {} bytes instead of {}", k, n, b.len());
                        extras.insert(k, b);
                    }
                }
                0 | 1 if !live.is_empty() => {
                    let o = *c.rng.pick(&live);
                    let st = stores[o].clone().unwrap();
                    let k = if !extras.is_empty() && c.rng.chance(1, 3) {
                        let ks: Vec<&String> = extras.keys().collect();
                        (*c.rng.pick(&ks)).clone()
                    } else {
                        c.rng.pick(&keys).clone()
                    };
                    log += &format!(" hold({} {})", o, k);
                    let want = extras.get(&k).or_else(|| map.get(&k)).unwrap().clone();
                    let b = guard(|| st.read_resource(&k).map(|b| unsafe { forever(b) }))?.map_err(|e| format!("read '{}': {}", k, e))?;
                    ensure!(b == &want[..], "'{}' reads as {} bytes other than stored", k, b.len());
                    held.push(Held { what: k, owner: o, bytes: b, copy: want });
                }
                2 if !live.is_empty() => {
                    // checked reads hand out payload slices
                    let o = *c.rng.pick(&live);
                    let st = stores[o].clone().unwrap();
                    let k = c.rng.pick(&keys).clone();
                    if k.ends_with(".schema") {
                        return Ok(());
                    }
                    let schema = String::from_utf8(map[&format!("{}.schema", k)].clone()).unwrap();
                    log += &format!(" holdpayload({} {})", o, k);
                    let b = guard(|| st.read(&k, &schema).map(|b| unsafe { forever(b) }))?.map_err(|e| format!("read '{}': {}", k, e))?;
                    let w = &map[&k];
                    let want = w[8..w.len() - 8].to_vec();
                    ensure!(b == &want[..], "payload of '{}' differs", k);
                    held.push(Held { what: k, owner: o, bytes: b, copy: want });
                }
                3 | 4 if !live.is_empty() && archives.len() < 6 => {
                    let o = *c.rng.pick(&live);
                    log += &format!(" open({})", o);
                    let a = guard(|| (d.open)(stores[o].clone().unwrap()))?.map_err(|e| format!("open: {}", e))?;
                    let raws = known(&a);
                    archives.push((a, raws, d.clone(), m.clone()));
                }
                5 if !archives.is_empty() => {
                    let i = c.rng.below(archives.len());
                    log += &format!(" clone(archive {})", i);
                    // of the archive, or of one of its sub-archives
                    let mut a = archives[i].0.dup();
                    let mut ad = archives[i].2.clone();
                    let mut am = archives[i].3.clone();
                    while c.rng.chance(1, 2) {
                        let subs = a.subs();
                        if subs.is_empty() {
                            break;
                        }
                        let k = c.rng.below(subs.len());
                        let at = ad.res.len() - subs.len() + k;
                        let inner = match subs.into_iter().nth(k).unwrap() {
                            Some(x) => x,
                            None => break,
                        };
                        let (sd, sm) = match (&ad.res[at].kind, &am[at]) {
                            (RKind::Sub(sd), Some(ResVal::Sub(sm))) => (sd.clone(), sm.clone()),
                            _ => return Err(format!("sub-archive '{}' is there, but was not stored", ad.res[at].name)),
                        };
                        log += &format!(" {} of", ad.res[at].name);
                        c.count("sub-archives held on their own", 1);
                        a = inner;
                        ad = sd;
                        am = sm;
                    }
                    let raws = known(&a);
                    archives.push((a, raws, ad, am));
                    if c.rng.chance(1, 2) {
                        archives.swap_remove(i);
                        log += "+drop";
                    }
                }
                6 if archives.len() > 1 => {
                    let i = c.rng.below(archives.len());
                    log += &format!(" drop(archive {})", i);
                    archives.swap_remove(i);
                }
                7 | 8 if !live.is_empty() => {
                    // other resources written through the same storage
                    let o = *c.rng.pick(&live);
                    let k = c.rng.range(1, if c.slow() { 3 } else { 20 });
                    log += &format!(" write({} x{})", o, k);
                    for _ in 0..k {
                        extra += 1;
                        let name = format!("extra{}", extra);
                        let b = rand_data(&mut c.rng);
                        let st = stores[o].clone().unwrap();
                        guard(|| -> io::Result<()> {
                            let s = st.create_output_stream(&name)?;
                            s.borrow_mut().write_all(&b)?;
                            Ok(())
                        })?
                        .map_err(|e| format!("write: {}", e))?;
                        extras.insert(name, b);
                    }
                }
                9 if !live.is_empty() => {
                    let o = *c.rng.pick(&live);
                    log += &format!(" misses({})", o);
                    let st = stores[o].clone().unwrap();
                    let _ = guard(|| st.read_resource("missing").map(|b| b.len()));
                    let _ = guard(|| st.read(&keys[0], "wrong schema").map(|b| b.len()));
                    let _ = guard(|| (gen().open)(st.clone()).map(|_| ()));
                    let _ = guard(|| (d.create)(st.clone()).map(|_| ()));
                }
                10 if !live.is_empty() => {
                    // another handle to the same storage
                    let o = *c.rng.pick(&live);
                    if file && c.rng.chance(1, 2) {
                        stores.push(Some(FileResourceStorage::new(dir.clone())));
                        log += " handle";
                    } else if file {
                        // drop a handle (and with it the slices it owns)
                        if live.len() > 1 {
                            log += &format!(" drop({})", o);
                            held.retain(|h| h.owner != o);
                            stores[o] = None;
                        }
                    } else {
                        let s = stores[o].clone().unwrap();
                        let sub = s.subdir("sub");
                        let _ = guard(|| sub.read_resource("x").map(|b| b.len()));
                        drop(sub);
                        log += " subdir";
                    }
                }
                11 if live.len() == 1 && !archives.is_empty() && c.rng.chance(1, 2) => {
                    // only archives keep the data alive from here on
                    let o = live[0];
                    log += &format!(" droplast({})", o);
                    held.retain(|h| h.owner != o);
                    stores[o] = None;
                }
                _ => {}
            }
            for h in &held {
                ensure!(h.bytes == &h.copy[..], "the slice handed out for '{}' changed from {} to {}", h.what, hex(&h.copy), hex(h.bytes));
                c.count("held slices re-read", 1);
            }
            for (i, (a, raws, d, m)) in archives.iter().enumerate() {
                for (b, w) in raws {
                    ensure!(*b == &w[..], "a raw data slice of open archive {} changed", i);
                    c.count("held slices re-read", 1);
                }
                if c.rng.chance(1, 3) {
                    let g = guard(|| a.model())?;
                    if let Some(x) = diff_models(d, &g, m) {
                        return Err(format!("open archive {} changed: {}", i, x));
                    }
                    c.count("open archives re-read", 1);
                }
            }
            Ok(())
        })();
        if r.is_err() {
            break;
        }
    }
    c.case(format!("{} on {} storage:{}", d.name, if file { "file" } else { "memory" }, log));
    r.map_err(|e| format!("{}: {}", c.cur, e))?;
    for (a, _, d, m) in &archives {
        let g = guard(|| a.model())?;
        if let Some(x) = diff_models(d, &g, m) {
            return Err(format!("{}: END: open archive changed: {}", c.cur, x));
        }
    }
    // views and struct references taken once and used to the end
    c19_views(c, file)?;
    c.nontrivial_cur();
    clean(&dir);
    Ok(())
}
fn c19_views(c: &mut Ctx, file: bool) -> V {
    let dir = c.dir();
    let st: St = new_storage(file, &dir);
    let d = flat();
    let m = rand_model(&d, &mut c.rng, 6);
    let mut map = Map::new();
    encode_archive(&d, &m, "", &mut map);
    install(file, &dir, &st, &map);
    let a = guard(|| <Flat as flatdata::Archive>::open(st.clone()))?.map_err(|e| e.to_string())?;
    let b = a.clone();
    let held = if file && c.rng.chance(1, 2) {
        drop(st);
        None
    } else {
        Some(st)
    };
    let meta = a.meta();
    let verts = a.verts();
    let first = if verts.len() > 0 { Some(verts.at(0)) } else { None };
    let it = verts.iter();
    let props = a.props();
    let names = a.names();
    let before = (values::<crate::G1>(&meta), view_values::<crate::G0>(&verts), read_multi::<Idx32, VarA>(&props), names.to_vec());
    // unrelated activity
    {
        let other = Some(b);
        if let Some(s) = &held {
            for i in 0..10 {
                let s2 = guard(|| s.create_output_stream(&format!("other{}", i)))?.map_err(|e| e.to_string())?;
                guard(|| s2.borrow_mut().write_all(&[i as u8; 300]))?.map_err(|e| e.to_string())?;
                let _ = guard(|| s.read_resource(&format!("other{}", i)).map(|x| x.len()));
                let _ = guard(|| (d.open)(s.clone()).map(|a| a.model()));
            }
        }
        drop(other);
        drop(held);
    }
    let after = (values::<crate::G1>(&meta), view_values::<crate::G0>(&verts), read_multi::<Idx32, VarA>(&props), names.to_vec());
    ensure!(before == after, "{}: views of an open archive changed while it was alive", c.cur);
    let f = first.map(|x| values::<crate::G0>(&x));
    ensure!(f == before.1.get(0).cloned(), "{}: a struct reference changed while its archive was alive", c.cur);
    let l: Vec<Vals> = it.map(|x| values::<crate::G0>(&x)).collect();
    ensure!(l == before.1, "{}: an iterator yields other values than before", c.cur);
    if let Some(ResVal::Vec(w)) = &m[2] {
        ensure!(&before.1 == w, "{}: the view differs from what was stored", c.cur);
    }
    c.count("views, references and iterators held across other activity", 5);
    clean(&dir);
    Ok(())
}

//
// C21
//
struct AssertSync<T>(T);
unsafe impl<T> Sync for AssertSync<T> {}
unsafe impl<T> Send for AssertSync<T> {}

struct Probe<T: ?Sized>(PhantomData<T>);
trait NotSync {
    fn is_sync(&self) -> bool {
        false
    }
    fn is_send(&self) -> bool {
        false
    }
}
impl<T: ?Sized> NotSync for &Probe<T> {}
struct ProbeSync<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized + Sync> ProbeSync<T> {
    fn is_sync(&self) -> bool {
        true
    }
}
impl<T: ?Sized> NotSync for &ProbeSync<T> {}

use std::sync::atomic::{AtomicUsize, Ordering};

/// What the threads of `c21_shared` share: contents of one length and the views over them.
struct Contents {
    n: usize,
    vals: Vec<Vals>,
    evals: Vec<Vals>,
    items: Vec<Item>,
    bytes: Vec<u8>,
    ebytes: Vec<u8>,
    index: Vec<u8>,
    data: Vec<u8>,
}
impl Contents {
    fn new(rng: &mut Rng, n: usize) -> Contents {
        let vars = <VarA as VarDyn>::variants();
        let vals: Vec<Vals> = (0..n).map(|_| rand_vals(fields_of::<crate::G3>(), rng)).collect();
        let mut bytes = vec![];
        for v in &vals {
            bytes.extend_from_slice(&encode(fields_of::<crate::G3>(), size_of::<crate::G3>(), v));
        }
        let evals: Vec<Vals> = (0..n).map(|_| rand_vals(fields_of::<crate::E1>(), rng)).collect();
        let mut ebytes = vec![];
        for v in &evals {
            ebytes.extend_from_slice(&encode(fields_of::<crate::E1>(), size_of::<crate::E1>(), v));
        }
        let items: Vec<Item> = (0..n).map(|_| rand_item(&vars, rng, 4)).collect();
        let (index, data) = multi_payloads(&vars, Idx32::SIZE_IN_BYTES, Idx32::IBITS, &items);
        Contents { n, vals, evals, items, bytes, ebytes, index, data }
    }
}
struct Shared<'a> {
    c: &'a Contents,
    view: ArrayView<'a, crate::G3>,
    eview: ArrayView<'a, crate::E1>,
    multi: MultiArrayView<'a, Idx32, VarA>,
    vec: Vector<crate::G3>,
    // what the main thread sees, for comparison: whole, and from one element on
    text: String,
    itertext: String,
    tails: Vec<(usize, String)>,
}
impl<'a> Shared<'a> {
    fn new(c: &'a Contents, rng: &mut Rng) -> Shared<'a> {
        let view = ArrayView::<crate::G3>::new(&c.bytes);
        let eview = ArrayView::<crate::E1>::new(&c.ebytes);
        let multi = MultiArrayView::<Idx32, VarA>::new(ArrayView::new(&c.index), &c.data);
        let mut vec = Vector::<crate::G3>::new();
        for x in &c.vals {
            let mut m = vec.grow();
            set_all::<crate::G3>(&mut m, x);
        }
        let text = format!("{:?} {:?} {:?} {:?}", view, multi, vec, eview);
        let itertext = format!("{:?} {:?}", view.iter(), multi.iter());
        let tails = (0..3)
            .map(|_| {
                let i = rng.below(c.n);
                (i, format!("{:?} {:?} {:?}", view.slice(i..), multi.slice(i..), view.at(i)))
            })
            .collect();
        Shared { c, view, eview, multi, vec, text, itertext, tails }
    }
    fn read(&self, op: usize, rng: &mut Rng) -> V {
        let n = self.c.n;
        let i = rng.below(n);
        match op {
            0 => {
                let g = values::<crate::G3>(&self.view.at(i));
                ensure!(g == self.c.vals[i], "element {}: {:?} want {:?}", i, g, self.c.vals[i]);
            }
            1 => {
                let g = view_values::<crate::G3>(&self.view.slice(i..));
                ensure!(g == self.c.vals[i..].to_vec(), "slice {}..", i);
            }
            2 => {
                let g: Vec<Vals> = self.view.iter().rev().map(|e| values::<crate::G3>(&e)).collect();
                ensure!(g.iter().rev().cloned().collect::<Vec<_>>() == self.c.vals, "backward iteration");
            }
            3 => {
                let g: Item = self.multi.at(i).map(|e| <VarA as VarDyn>::read(&e)).collect();
                ensure!(g == self.c.items[i], "item {}: {:?} want {:?}", i, g, self.c.items[i]);
            }
            4 => {
                let m2 = self.multi.slice(i..);
                ensure!(read_multi::<Idx32, VarA>(&m2) == self.c.items[i..].to_vec(), "items {}..", i);
            }
            5 => {
                let g: Vec<Item> = self.multi.iter().map(|e| e.map(|x| <VarA as VarDyn>::read(&x)).collect()).collect();
                ensure!(g == self.c.items, "item iteration");
            }
            6 => {
                let g = format!("{:?} {:?} {:?} {:?}", self.view, self.multi, self.vec, self.eview);
                ensure!(g == self.text, "printed form {} want {}", g, self.text);
            }
            7 => {
                let v2 = self.view.clone();
                ensure!(v2.len() == n && self.vec.len() == n && self.multi.len() == n, "lengths");
                let g = values::<crate::G3>(&self.vec.at(i));
                ensure!(g == self.c.vals[i], "vector element {}", i);
                ensure!(self.vec.at(i) == self.view.at(i), "comparison of element {}", i);
                let j = rng.below(n);
                ensure!((self.vec.at(i) == self.view.at(j)) == (self.c.vals[i] == self.c.vals[j]), "comparison of elements {} and {}", i, j);
            }
            8 => {
                let g = format!("{:?} {:?}", self.view.iter(), self.multi.iter());
                ensure!(g == self.itertext, "printed iterators {} want {}", g, self.itertext);
            }
            9 => {
                let (i, want) = rng.pick(&self.tails);
                let g = format!("{:?} {:?} {:?}", self.view.slice(*i..), self.multi.slice(*i..), self.view.at(*i));
                ensure!(g == *want, "printed form from {} on: {} want {}", i, g, want);
            }
            10 => {
                // interleaved iterators
                let (mut a, mut b, mut m) = (self.view.iter(), self.view.iter(), self.multi.iter());
                for k in 0..n {
                    ensure!(a.len() == n - k, "{} elements left instead of {}", a.len(), n - k);
                    ensure!(m.len() == n - k, "{} items left instead of {}", m.len(), n - k);
                    let (x, y) = (a.next().map(|e| values::<crate::G3>(&e)), b.next_back().map(|e| values::<crate::G3>(&e)));
                    ensure!(x.as_ref() == Some(&self.c.vals[k]) && y.as_ref() == Some(&self.c.vals[n - 1 - k]), "step {} of interleaved iteration", k);
                    let g: Option<Item> = m.next().map(|e| e.map(|x| <VarA as VarDyn>::read(&x)).collect());
                    ensure!(g.as_ref() == Some(&self.c.items[k]), "step {} of item iteration", k);
                }
                ensure!(a.next().is_none() && m.next().is_none(), "iteration goes on");
            }
            11 => {
                // vectors, structs and multivectors of this thread alone
                let mut v = Vector::<crate::G3>::new();
                for x in self.c.vals.iter().skip(i) {
                    let mut e = v.grow();
                    set_all::<crate::G3>(&mut e, x);
                }
                ensure!(view_values::<crate::G3>(&v.as_view()) == self.c.vals[i..].to_vec(), "a vector of one thread holds other elements than appended");
                let st = new_storage(false, &PathBuf::from("/none"));
                {
                    let mut w = create_multi_vector::<Idx32, VarA>(&*st, "m", "schema").map_err(|e| e.to_string())?;
                    for it in self.c.items.iter().skip(i) {
                        let mut g = w.grow().map_err(|e| e.to_string())?;
                        for e in it {
                            <VarA as VarDyn>::add(&mut g, e.0, &e.1);
                        }
                    }
                    let view = w.close().map_err(|e| e.to_string())?;
                    ensure!(read_multi::<Idx32, VarA>(&view) == self.c.items[i..].to_vec(), "a multivector of one thread holds other items than appended");
                }
                {
                    let mut w = create_external_vector::<crate::G3>(&*st, "v", "schema").map_err(|e| e.to_string())?;
                    for x in self.c.vals.iter().skip(i) {
                        let mut e = w.grow().map_err(|e| e.to_string())?;
                        set_all::<crate::G3>(&mut e, x);
                    }
                    let view = w.close().map_err(|e| e.to_string())?;
                    ensure!(view_values::<crate::G3>(&view) == self.c.vals[i..].to_vec(), "an external vector of one thread holds other elements than appended");
                }
            }
            _ => {
                let g = values::<crate::E1>(&self.eview.at(i));
                ensure!(g == self.c.evals[i], "enum element {}: {:?} want {:?}", i, g, self.c.evals[i]);
            }
        }
        Ok(())
    }
}
const READS: usize = 13;

/// Concurrent readers of shared views; the order in which operations of the threads were observed is recorded.
fn c21_shared(c: &mut Ctx) -> V {
    let top = if c.slow() { 4 } else { 60 };
    let mut contents = vec![];
    for _ in 0..c.rng.range(1, 3) {
        let n = c.rng.range(1, top);
        contents.push(Contents::new(&mut c.rng, n));
    }
    let threads = if c.slow() { 3 } else { c.rng.range(2, 8) };
    let ops = if c.slow() { 4 } else { 40 };
    // all threads doing the same at the same time, or any mixture
    let burst = if c.rng.chance(1, 2) { Some((c.rng.below(READS), c.rng.below(READS))) } else { None };
    c.case(format!(
        "{} threads x {} reads ({:?}) of shared views of {:?} elements and items",
        threads,
        ops,
        burst,
        contents.iter().map(|x| x.n).collect::<Vec<_>>()
    ));
    let shared = AssertSync(contents.iter().map(|x| Shared::new(x, &mut c.rng)).collect::<Vec<_>>());
    let start = std::sync::Barrier::new(threads);
    let clock = AtomicUsize::new(0);
    let seeds: Vec<u64> = (0..threads).map(|_| c.rng.next()).collect();
    let outcomes: Vec<Result<(Vec<usize>, u64), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|seed| {
                let (shared, clock, start) = (&shared, &clock, &start);
                let seed = *seed;
                s.spawn(move || {
                    let mut rng = Rng(seed);
                    let mut ticks = vec![];
                    let mut reads = 0u64;
                    start.wait();
                    let r = guard(|| -> V {
                        for _ in 0..ops {
                            ticks.push(clock.fetch_add(1, Ordering::Relaxed));
                            reads += 1;
                            let op = match burst {
                                Some((a, b)) => *rng.pick(&[a, b]),
                                None => rng.below(READS),
                            };
                            let k = rng.below(shared.0.len());
                            shared.0[k].read(op, &mut rng).map_err(|e| format!("contents {}: {}", k, e))?;
                            if rng.chance(1, 6) {
                                std::thread::yield_now();
                            }
                        }
                        Ok(())
                    });
                    match r {
                        Ok(Ok(())) => Ok((ticks, reads)),
                        Ok(Err(e)) => Err(e),
                        Err(e) => Err(e),
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    let mut order = vec![];
    for (t, o) in outcomes.into_iter().enumerate() {
        let (ticks, reads) = o.map_err(|e| format!("{}: thread {}: {}", c.cur, t, e))?;
        c.count("concurrent reads checked", reads);
        order.extend(ticks.into_iter().map(|x| (x, t)));
    }
    order.sort();
    let who: Vec<u8> = order.iter().map(|x| x.1 as u8).collect();
    let switches = who.windows(2).filter(|w| w[0] != w[1]).count() as u64;
    c.count("thread switches observed", switches);
    if switches > threads as u64 {
        c.nontrivial(fnv(&who));
    }
    Ok(())
}

/// Threads with storages and archives of their own, same names everywhere.
fn c21_separate(c: &mut Ctx) -> V {
    let threads = if c.slow() { 2 } else { c.rng.range(2, 8) };
    let files: Vec<bool> = (0..threads).map(|_| pick_file(c)).collect();
    let seeds: Vec<u64> = (0..threads).map(|_| c.rng.next()).collect();
    let rounds = if c.slow() { 1 } else { 3 };
    let dirs: Vec<PathBuf> = (0..threads).map(|_| c.dir()).collect();
    c.case(format!("{} threads with archives of their own, file storage: {:?}", threads, files));
    let clock = AtomicUsize::new(0);
    let size = if c.slow() { 2 } else { 6 };
    let outcomes: Vec<Result<Vec<usize>, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (clock, dir, file, seed) = (&clock, &dirs[t], files[t], seeds[t]);
                s.spawn(move || {
                    let mut rng = Rng(seed);
                    let mut ticks = vec![];
                    let r = guard(|| -> V {
                        for round in 0..rounds {
                            let ds = small_archives();
                            let d = rng.pick(&ds).clone();
                            let m = rand_model(&d, &mut rng, size);
                            let plan = rand_plan(&d, &m, &mut rng);
                            let dir = dir.join(format!("r{}", round));
                            let st = new_storage(file, &dir);
                            ticks.push(clock.fetch_add(1, Ordering::Relaxed));
                            for chunk in 0..1 {
                                let _ = chunk;
                                write_all(&d, &m, &st, &plan)?;
                            }
                            ticks.push(clock.fetch_add(1, Ordering::Relaxed));
                            let h = reader(file, &dir, &st);
                            match open_model(&d, &h)? {
                                Ok(g) => {
                                    if let Some(x) = diff_models(&d, &g, &m) {
                                        return Err(x);
                                    }
                                }
                                Err(e) => return Err(format!("open: {}", e)),
                            }
                            ticks.push(clock.fetch_add(1, Ordering::Relaxed));
                            // errors and panics of one thread stay in it
                            if rng.chance(1, 3) {
                                let _ = guard(|| {
                                    let mut v = create_external_vector::<crate::G2>(&*h, "left open", "s").unwrap();
                                    v.grow().unwrap();
                                });
                            }
                            let r = guard(|| (d.create)(h.clone()).map(|_| ()))?;
                            ensure!(r.is_err(), "an existing archive was created again");
                            // the stored bytes are this thread's alone
                            if file {
                                let mut want = Map::new();
                                encode_archive(&d, &m, "", &mut want);
                                let mut got = tree(&dir).0;
                                got.retain(|k, _| !k.starts_with("left open"));
                                if let Some(x) = diff_maps(&got, &want) {
                                    return Err(format!("stored bytes: {}", x));
                                }
                            }
                        }
                        Ok(())
                    });
                    match r {
                        Ok(Ok(())) => Ok(ticks),
                        Ok(Err(e)) => Err(e),
                        Err(e) => Err(e),
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    let mut order = vec![];
    for (t, o) in outcomes.into_iter().enumerate() {
        let ticks = o.map_err(|e| format!("{}: thread {}: {}", c.cur, t, e))?;
        order.extend(ticks.into_iter().map(|x| (x, t)));
    }
    order.sort();
    let who: Vec<u8> = order.iter().map(|x| x.1 as u8).collect();
    let switches = who.windows(2).filter(|w| w[0] != w[1]).count() as u64;
    c.count("thread switches observed", switches);
    c.count("archives written and read concurrently", (threads * rounds) as u64);
    c.nontrivial(fnv(&who) ^ fnv(format!("{:?}", seeds).as_bytes()));
    for d in dirs {
        clean(&d);
    }
    Ok(())
}

pub fn c21(c: &mut Ctx) -> V {
    // the compiler lets threads share views (otherwise the claim is void)
    c.case("views can be shared between threads");
    ensure!((&ProbeSync::<ArrayView<'static, crate::G3>>(PhantomData)).is_sync(), "ArrayView can no longer be shared between threads");
    ensure!(
        (&ProbeSync::<MultiArrayView<'static, Idx32, VarA>>(PhantomData)).is_sync(),
        "MultiArrayView can no longer be shared between threads"
    );
    for _ in 0..c.n(1500, 20_000) {
        c21_shared(c)?;
    }
    for _ in 0..c.n(120, 3_000) {
        c21_separate(c)?;
    }
    Ok(())
}

//
// C22
//
fn rand_schema(rng: &mut Rng) -> String {
    let words = ["struct A {", "}", "  x : u32 : 5;", "", " ", "+", "-", " x", "archive X", "// \u{e9}\u{4e2d}\u{1f600}", "\t", "-- ", "++a", "u\u{301}"];
    let n = match rng.below(60) {
        0..=9 => 0,
        10..=19 => 1,
        20 if !cfg!(miri) && rng.chance(1, 40) => rng.outsized(3000),
        20 => rng.range(50, 400),
        _ => rng.range(0, 12),
    };
    let long = rng.chance(1, 2);
    let mut s = (0..n)
        .map(|i| {
            let w = *rng.pick(&words);
            match rng.below(40) {
                0 if n < 10 && !cfg!(miri) && rng.chance(1, 100) => w.repeat(rng.outsized(1 << 16)),
                0 => w.repeat(rng.range(1, 200)),
                x if long && x < 20 => format!("{} {}", w, i),
                _ => w.to_string(),
            }
        })
        .collect::<Vec<_>>()
        .join("\n");
    if rng.chance(1, 3) {
        s.push('\n');
    }
    s
}
fn edit_schema(rng: &mut Rng, s: &str) -> String {
    // differences that an editor or a version control system makes
    match rng.below(12) {
        0 => return s.replace('\n', "\r\n"),
        1 => return s.replace('\n', "\r"),
        2 => return s.lines().map(|l| l.trim_end()).collect::<Vec<_>>().join("\n"),
        3 => return s.lines().map(|l| l.trim_start()).collect::<Vec<_>>().join("\n"),
        4 => return s.trim().to_string(),
        5 => return s.replace('\t', "    "),
        6 => return format!("{}\r\n", s),
        7 => return s.to_uppercase(),
        8 => return s.split_whitespace().collect::<Vec<_>>().join(" "),
        9 => return s.replace("u\u{301}", "\u{fa}"),
        10 => return s.lines().filter(|l| !l.starts_with("//") && !l.is_empty()).collect::<Vec<_>>().join("\n"),
        _ => (),
    }
    let mut v: Vec<char> = s.chars().collect();
    let p = rng.below(v.len() + 1);
    match rng.below(10) {
        0 => v.insert(p, ' '),
        1 => v.insert(p, '\n'),
        2 => v.push('\n'),
        3 => v.push(' '),
        4 => v.insert(0, '\u{feff}'),
        5 if !v.is_empty() => {
            v.remove(p.min(v.len() - 1));
        }
        6 if !v.is_empty() => {
            let p = p.min(v.len() - 1);
            v[p] = if v[p].is_ascii_lowercase() { v[p].to_ascii_uppercase() } else { 'x' };
        }
        7 => v.truncate(p),
        8 => v.push('\0'),
        _ => {
            let t: Vec<char> = s.chars().collect();
            v.extend(t);
        }
    }
    v.into_iter().collect()
}
/// The diff's lines: (common+removed, common+added)
fn sides(diff: &str) -> Result<(String, String), String> {
    let (mut l, mut r) = (vec![], vec![]);
    if diff.is_empty() {
        return Ok(("".into(), "".into()));
    }
    for line in diff.split('\n') {
        let mut ch = line.chars();
        match ch.next() {
            Some(' ') => {
                l.push(ch.as_str());
                r.push(ch.as_str());
            }
            Some('-') => l.push(ch.as_str()),
            Some('+') => r.push(ch.as_str()),
            x => return Err(format!("diff line {:?} starts with {:?}", line, x)),
        }
    }
    Ok((l.join("\n"), r.join("\n")))
}
fn check_mismatch(e: &Rse, name: &str, stored: &str, expected: &str) -> V {
    match e {
        Rse::WrongSignature { resource_name, diff } => {
            ensure!(resource_name == name || resource_name.ends_with(&format!("/{}", name)), "the error names {:?}, the affected resource is {:?}", resource_name, name);
            let (l, r) = sides(diff)?;
            ensure!(l == stored, "common and removed lines spell {:?}, stored is {:?} (diff {:?})", l, stored, diff);
            ensure!(r == expected, "common and added lines spell {:?}, expected is {:?} (diff {:?})", r, expected, diff);
            let text = format!("{}", e);
            ensure!(text.contains(name), "printed error {:?} does not name {:?}", text, name);
            Ok(())
        }
        e => Err(format!("fails with {:?}, not with a schema mismatch", e)),
    }
}

pub fn c22(c: &mut Ctx) -> V {
    for _ in 0..c.n(6000, 200_000) {
        let file = pick_file(c) && c.rng.chance(1, 2);
        let stored = rand_schema(&mut c.rng);
        let expected = match c.rng.below(4) {
            0 => rand_schema(&mut c.rng),
            1 => stored.clone(),
            _ => edit_schema(&mut c.rng, &stored),
        };
        let (stored, expected) = if c.rng.chance(1, 2) { (stored, expected) } else { (expected, stored) };
        let name = (*c.rng.pick(&["r", "some_resource", "X.archive", "d/r", "\u{e9}"])).to_string();
        let payload = c.rng.bytes_upto(10);
        c.case(format!("stored schema {:?}, expected {:?}, resource {:?}", stored, expected, name));
        let dir = c.dir();
        let st = new_storage(file, &dir);
        let mut map = Map::new();
        map.insert(name.clone(), framed(&payload));
        map.insert(format!("{}.schema", name), stored.clone().into_bytes());
        install(file, &dir, &st, &map);
        let st = reader(file, &dir, &st);
        let got = guard(|| st.read(&name, &expected).map(|b| b.to_vec())).map_err(|e| format!("{}: {}", c.cur, e))?;
        match got {
            Ok(b) => {
                ensure!(stored == expected, "{}: accepted although the schemas differ", c.cur);
                ensure!(b == payload, "{}: wrong payload", c.cur);
                c.count("equal schemas accepted", 1);
            }
            Err(e) => {
                ensure!(stored != expected, "{}: equal schemas are refused: {:?}", c.cur, e);
                check_mismatch(&e, &name, &stored, &expected).map_err(|x| format!("{}: {}", c.cur, x))?;
                c.count("diffs reconstructed", 1);
            }
        }
        c.nontrivial_cur();
        clean(&dir);
    }
    // mismatches met while opening archives: the mandatory resource is named
    for _ in 0..c.n(600, 20_000) {
        let d = {
            let v = small_archives();
            c.rng.pick(&v).clone()
        };
        let m = rand_model(&d, &mut c.rng, 3);
        let file = pick_file(c) && c.rng.chance(1, 2);
        let mut map = Map::new();
        encode_archive(&d, &m, "", &mut map);
        let keys: Vec<String> = map.keys().filter(|k| k.ends_with(".schema")).cloned().collect();
        let k = c.rng.pick(&keys).clone();
        let stored = String::from_utf8(map[&k].clone()).unwrap();
        let bad = edit_schema(&mut c.rng, &stored);
        if bad == stored {
            continue;
        }
        map.insert(k.clone(), bad.clone().into_bytes());
        c.case(format!("archive {} with the schema in {} changed to {:?}", d.name, k, bad));
        let full = &k[..k.len() - ".schema".len()];
        let base = &full[full.rfind('/').map_or(0, |p| p + 1)..];
        let dir = c.dir();
        let st = new_storage(file, &dir);
        install(file, &dir, &st, &map);
        match open_model(&d, &reader(file, &dir, &st))? {
            // an optional part
            Ok(_) => {
                ensure!(oracle_open(&d, &map, "").is_ok(), "{}: opened", c.cur);
                c.count("optional mismatches absorbed", 1);
            }
            Err(e) => {
                check_mismatch(&e, base, &bad, &stored).map_err(|x| format!("{}: {}", c.cur, x))?;
                c.count("diffs reconstructed", 1);
            }
        }
        c.nontrivial_cur();
        clean(&dir);
    }
    Ok(())
}
