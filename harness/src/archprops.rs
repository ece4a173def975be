//! Properties of whole archives and storages.
use crate::archives::*;
use crate::codec::*;
use crate::ctx::*;
use crate::ensure;
use crate::rng::{fnv, Rng};
use flatdata::{
    create_external_vector, create_multi_vector, ArrayView, FileResourceStorage, MemoryResourceStorage, MultiArrayView, ResourceStorage,
    Struct,
};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{self, Seek, SeekFrom, Write};
use std::path::{Path as FsPath, PathBuf};
use std::rc::Rc;

//
// helpers
//
pub fn new_storage(file: bool, dir: &FsPath) -> St {
    if file {
        FileResourceStorage::new(dir.to_path_buf())
    } else {
        MemoryResourceStorage::new("/mem")
    }
}
/// A storage handle as a later reader would get it: fresh for files, the same one for memory.
pub fn reader(file: bool, dir: &FsPath, st: &St) -> St {
    if file {
        FileResourceStorage::new(dir.to_path_buf())
    } else {
        st.clone()
    }
}
pub fn can_file(c: &Ctx) -> bool {
    c.kind != Kind::Miri
}
pub fn pick_file(c: &mut Ctx) -> bool {
    c.rng.chance(1, 2) && can_file(c)
}
pub fn clean(d: &FsPath) {
    let _ = std::fs::remove_dir_all(d);
}

/// All files below a directory (relative slash-separated name -> bytes) and all directories.
pub fn tree(d: &FsPath) -> (Map, BTreeSet<String>) {
    fn go(d: &FsPath, pre: &str, out: &mut Map, dirs: &mut BTreeSet<String>) {
        let rd = match std::fs::read_dir(d) {
            Ok(x) => x,
            Err(_) => return,
        };
        for e in rd {
            let e = e.unwrap();
            let name = format!("{}{}", pre, e.file_name().to_str().unwrap());
            if e.file_type().unwrap().is_dir() {
                dirs.insert(name.clone());
                go(&e.path(), &format!("{}/", name), out, dirs);
            } else {
                out.insert(name, std::fs::read(e.path()).unwrap());
            }
        }
    }
    let mut out = Map::new();
    let mut dirs = BTreeSet::new();
    if d.exists() {
        dirs.insert(String::new());
    }
    go(d, "", &mut out, &mut dirs);
    (out, dirs)
}

/// Puts given bytes under given keys, without the writers under test where possible.
pub fn install(file: bool, dir: &FsPath, st: &St, map: &Map) {
    for (k, v) in map {
        put_key(file, dir, st, k, v);
    }
}
pub fn put_key(file: bool, dir: &FsPath, st: &St, k: &str, v: &[u8]) {
    if file {
        let p = dir.join(k);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, v).unwrap();
    } else {
        let s = st.create_output_stream(k).expect("create_output_stream");
        s.borrow_mut().write_all(v).expect("write");
    }
}

pub fn diff_maps(got: &Map, want: &Map) -> Option<String> {
    for (k, v) in want {
        match got.get(k) {
            None => return Some(format!("'{}' is missing", k)),
            Some(g) if g != v => {
                let p = g.iter().zip(v.iter()).position(|(a, b)| a != b).unwrap_or_else(|| g.len().min(v.len()));
                return Some(format!("'{}' has {} bytes want {}, first difference at byte {}: {} want {}", k, g.len(), v.len(), p, hex(&g[p.saturating_sub(4)..]), hex(&v[p.saturating_sub(4)..])));
            }
            _ => {}
        }
    }
    for k in got.keys() {
        if !want.contains_key(k) {
            return Some(format!("unexpected '{}'", k));
        }
    }
    None
}

pub fn write_all(d: &ArchDesc, m: &Model, st: &St, plan: &[Step]) -> V {
    let r = guard(|| -> V {
        let mut ex = Exec::new(d, m, st.clone());
        for s in plan {
            let r = ex.step(s).map_err(|e| format!("step {} failed: {:?}", show_plan(d, std::slice::from_ref(s)), e));
            let r = match (r, ex.mismatch.take()) {
                (Ok(()), Some(x)) => Err(x),
                (r, _) => r,
            };
            if r.is_err() {
                std::mem::forget(ex);
                return r;
            }
        }
        Ok(())
    });
    r.and_then(|x| x)
}

pub fn open_model(d: &ArchDesc, st: &St) -> Result<Result<Model, Rse>, String> {
    guard(|| (d.open)(st.clone()).map(|a| a.model()))
}

/// A sparse file with the frame of a finished resource of `n` payload bytes.
fn sparse(path: &FsPath, n: u64, parts: &[(u64, Vec<u8>)]) -> V {
    let put = || -> std::io::Result<()> {
        std::fs::create_dir_all(path.parent().unwrap())?;
        let mut f = std::fs::File::create(path)?;
        f.set_len(n + 16)?;
        f.write_all(&n.to_le_bytes())?;
        for (pos, b) in parts {
            f.seek(SeekFrom::Start(8 + pos))?;
            f.write_all(b)?;
        }
        Ok(())
    };
    put().map_err(|e| format!("harness: {}", e))
}

/// Positions well spread over 0..n, at least `gap` apart.
fn spread(rng: &mut Rng, n: u64, gap: u64, k: usize) -> Vec<u64> {
    let mut v: BTreeSet<u64> = BTreeSet::new();
    let ok = |v: &BTreeSet<u64>, p: u64| v.range(p.saturating_sub(gap - 1)..=p.saturating_add(gap - 1)).next().is_none();
    for i in 0..k {
        let p = match i {
            0 => n - 1,
            1 => n / 2,
            _ => rng.next() % n,
        };
        if ok(&v, p) {
            v.insert(p);
        }
    }
    v.into_iter().collect()
}

/// Writes the archive with about `bytes` per resource; returns the probes: resource, position, expected content.
pub fn big_archive(d: &ArchDesc, dir: &FsPath, bytes: u64, index_bytes: u64, rng: &mut Rng, k: usize, wanted: impl Fn(&ResDesc) -> bool) -> Result<Vec<(usize, usize, ResVal)>, String> {
    let mut probes = vec![];
    let schema = |name: &str, s: &str| std::fs::write(dir.join(format!("{}.schema", name)), s).map_err(|e| format!("harness: {}", e));
    std::fs::create_dir_all(dir).unwrap();
    sparse(&dir.join(format!("{}.archive", d.name)), 0, &[])?;
    schema(&format!("{}.archive", d.name), d.schema)?;
    for (i, r) in d.res.iter().enumerate() {
        let path = dir.join(r.name);
        if !wanted(r) {
            continue;
        }
        match &r.kind {
            RKind::Struct(x) => {
                let v = x.rand(rng);
                sparse(&path, x.size() as u64, &[(0, x.encode(&v))])?;
                probes.push((i, 0, ResVal::Struct(v)));
            }
            RKind::Vec(x) => {
                let size = x.size() as u64;
                let n = bytes / size;
                ensure!(n > 0, "harness: too little room");
                let mut parts = vec![];
                for p in spread(rng, n, 1, k) {
                    let v = x.rand(rng);
                    parts.push((p * size, x.encode(&v)));
                    probes.push((i, p as usize, ResVal::Vec(vec![v])));
                }
                sparse(&path, n * size, &parts)?;
            }
            RKind::Raw => {
                let mut parts = vec![];
                for p in spread(rng, bytes, 1, k) {
                    let b = rng.next() as u8;
                    parts.push((p, vec![b]));
                    probes.push((i, p as usize, ResVal::Raw(vec![b])));
                }
                sparse(&path, bytes, &parts)?;
            }
            RKind::Multi { vars, isize, ibits } => {
                let n = index_bytes / *isize as u64;
                let total = bytes.min(if *ibits >= 63 { u64::max_value() } else { (1 << ibits) - 1 });
                let (mut index, mut data) = (vec![], vec![]);
                let entry = |v: u64| {
                    let mut e = vec![0u8; *isize];
                    put_bits(&mut e, 0, *ibits, v);
                    e
                };
                // the last entry is the end of the data
                index.push(((n - 1) * *isize as u64, entry(total)));
                let room = 8 + 4 * (1 + vars.iter().map(|v| v.1.size() as u64).max().unwrap());
                ensure!(room < total && n > 3000, "harness: too little room");
                let starts = spread(rng, total - room, room, k);
                let mut places = spread(rng, n - 2000, 4, k);
                places.truncate(starts.len());
                for (p, s) in places.iter().zip(starts) {
                    let p = p + 1000;
                    let item = rand_item(vars, rng, 4);
                    let (_, b) = multi_payloads(vars, *isize, *ibits, &[item.clone()]);
                    index.push((p * *isize as u64, entry(s)));
                    index.push(((p + 1) * *isize as u64, entry(s + b.len() as u64)));
                    data.push((s, b));
                    probes.push((i, p as usize, ResVal::Multi(vec![item])));
                }
                let idx = format!("{}_index", r.name);
                sparse(&dir.join(&idx), n * *isize as u64, &index)?;
                schema(&idx, &format!("index({})", r.schema))?;
                sparse(&path, total, &data)?;
            }
            RKind::Sub(s) => {
                // small, complete
                let mut map = Map::new();
                let m = rand_model(s, rng, 4);
                encode_archive(s, &m, &format!("{}/", r.name), &mut map);
                let st: St = FileResourceStorage::new(dir.to_path_buf());
                install(true, dir, &st, &map);
                continue;
            }
        }
        schema(r.name, r.schema)?;
    }
    Ok(probes)
}


/// A single view on more than 4 GiB, read at random positions in several ways.
pub fn big_view(c: &mut Ctx, d: &ArchDesc, name: &str, bytes: u64, n: usize) -> V {
    let dir = c.dir();
    let k = d.res.iter().position(|r| r.name == name).unwrap();
    c.case(format!("{}.{} of {} bytes on file storage, {} random accesses", d.name, name, bytes, n));
    let mut rng = Rng::new(c.rng.next());
    let probes = big_archive(d, &dir, bytes, 512 << 20, &mut rng, 300, |r| r.name == name)?;
    let st: St = FileResourceStorage::new(dir.clone());
    let a = guard(|| (d.open)(st.clone()))?.map_err(|e| format!("{}: {}", c.cur, e))?;
    for _ in 0..n {
        let (_, pos, want) = rng.pick(&probes);
        let how = rng.below(30);
        let got = guard(|| a.sample(k, *pos, how)).map_err(|e| format!("{}: at {} (way {}): {}", c.cur, pos, how, e))?;
        ensure!(got.as_ref() == Some(want), "{}: at {} (way {}): {:?} instead of {:?}", c.cur, pos, how, got, want);
    }
    c.count("accesses beyond 4 GiB or spread over large views", n as u64);
    c.nontrivial_cur();
    drop(a);
    drop(st);
    clean(&dir);
    Ok(())
}

pub fn any_desc(c: &mut Ctx) -> ArchDesc {
    let v = small_archives();
    c.rng.pick(&v).clone()
}
pub fn case_of(c: &mut Ctx, what: &str, d: &ArchDesc, m: &Model, file: bool, extra: &str) -> String {
    let s = format!("{}: {} on {} storage, {{{}}} {}", what, d.name, if file { "file" } else { "memory" }, summary(d, m), extra);
    c.case(s.clone());
    s
}
fn model_hash(m: &Model) -> u64 {
    fnv(format!("{:?}", m).as_bytes())
}

//
// C04 (and the end-to-end part of C03)
//
pub fn wire(c: &mut Ctx, n: usize, memonly: bool) -> V {
    for _ in 0..n {
        let d = any_desc(c);
        wire_case(c, &d, if c.slow() { 3 } else { 12 }, memonly)?;
    }
    Ok(())
}
fn wire_case(c: &mut Ctx, d: &ArchDesc, size: usize, memonly: bool) -> V {
    let m = rand_model(d, &mut c.rng, size);
    let plan = rand_plan_rewriting(d, &m, &mut c.rng);
    let file = !memonly && pick_file(c);
    let desc = case_of(c, "bytes", d, &m, file, &show_plan(d, &plan));
    let dir = c.dir();
    let st = new_storage(file, &dir);
    write_all(d, &m, &st, &plan).map_err(|e| format!("{}: {}", desc, e))?;
    let mut want = Map::new();
    encode_archive(d, &m, "", &mut want);
    let got = if file {
        tree(&dir).0
    } else {
        let mut g = Map::new();
        for k in want.keys() {
            // the key may live in a subdirectory handle
            let (h, name) = match k.rfind('/') {
                Some(p) => (st.subdir(&k[..p]), &k[p + 1..]),
                None => (st.clone(), &k[..]),
            };
            let r = guard(|| h.read_resource(name).map(|x| x.to_vec()))?;
            if let Ok(b) = r {
                g.insert(k.clone(), b);
            }
        }
        g
    };
    if let Some(x) = diff_maps(&got, &want) {
        return Err(format!("{}: stored bytes: {}", desc, x));
    }
    c.count("stored resources compared byte for byte", want.len() as u64);
    c.count("bytes compared", want.values().map(|v| v.len() as u64).sum());
    // written by another conforming writer
    let dir2 = c.dir();
    let st2 = new_storage(file, &dir2);
    install(file, &dir2, &st2, &want);
    match open_model(d, &reader(file, &dir2, &st2))? {
        Ok(g) => {
            if let Some(x) = diff_models(d, &g, &m) {
                return Err(format!("{}: decoding conforming bytes: {}", desc, x));
            }
        }
        Err(e) => return Err(format!("{}: conforming bytes are rejected: {}", desc, e)),
    }
    c.count("archives decoded from independently encoded bytes", 1);
    c.nontrivial(model_hash(&m) ^ fnv(desc.as_bytes()));
    clean(&dir);
    clean(&dir2);
    Ok(())
}
pub fn c04(c: &mut Ctx) -> V {
    let n = c.n(1200, 40000);
    wire(c, n, false)?;
    if c.kind == Kind::Rel || (c.kind == Kind::Dbg && c.thorough) {
        for _ in 0..if c.thorough { 25 } else { 3 } {
            wire_case(c, &huge(), 40, false)?;
        }
    }
    Ok(())
}

//
// C05
//
fn c05_case(c: &mut Ctx, d: &ArchDesc, size: usize) -> V {
    let m = rand_model(d, &mut c.rng, size);
    let plan = rand_plan_rewriting(d, &m, &mut c.rng);
    let file = pick_file(c);
    let desc = case_of(c, "round trip", d, &m, file, &show_plan(d, &plan));
    let dir = c.dir();
    let st = new_storage(file, &dir);
    write_all(d, &m, &st, &plan).map_err(|e| format!("{}: {}", desc, e))?;
    let check = |what: &str, st: &St| -> V {
        match open_model(d, st).map_err(|e| format!("{}: opening ({}): {}", desc, what, e))? {
            Ok(g) => match diff_models(d, &g, &m) {
                Some(x) => Err(format!("{}: {}: {}", desc, what, x)),
                None => Ok(()),
            },
            Err(e) => Err(format!("{}: opening ({}) failed: {}", desc, what, e)),
        }
    };
    check("same handle", &st)?;
    check("same handle again", &st)?;
    if file {
        check("fresh handle", &reader(file, &dir, &st))?;
        // a handle spelled differently
        let odd = dir.join(".").join("");
        check("fresh handle, other spelling", &(FileResourceStorage::new(odd) as St))?;
    }
    // the sub-archives on their own
    for (r, v) in d.res.iter().zip(&m) {
        if let (RKind::Sub(s), Some(ResVal::Sub(sm))) = (&r.kind, v) {
            match open_model(s, &st.subdir(r.name))? {
                Ok(g) => {
                    if let Some(x) = diff_models(s, &g, sm) {
                        return Err(format!("{}: sub-archive {} through its own handle: {}", desc, r.name, x));
                    }
                }
                Err(e) => return Err(format!("{}: sub-archive {} cannot be opened through its own handle: {}", desc, r.name, e)),
            }
        }
    }
    c.count("plan steps executed", plan.len() as u64);
    c.count("archives read back and compared", 1);
    c.nontrivial(model_hash(&m) ^ fnv(desc.as_bytes()));
    clean(&dir);
    Ok(())
}
pub fn c05(c: &mut Ctx) -> V {
    let n = c.n(1500, 50000);
    for _ in 0..n {
        let d = any_desc(c);
        c05_case(c, &d, if c.slow() { 3 } else { 14 })?;
    }
    // two archives of different names side by side
    for _ in 0..c.n(60, 2000) {
        let file = pick_file(c);
        let (a, b) = (flat(), leaf());
        let (ma, mb) = (rand_model(&a, &mut c.rng, 6), rand_model(&b, &mut c.rng, 6));
        let desc = case_of(c, "two archives side by side", &a, &ma, file, &summary(&b, &mb));
        let dir = c.dir();
        let st = new_storage(file, &dir);
        let (pa, pb) = (rand_plan_rewriting(&a, &ma, &mut c.rng), rand_plan_rewriting(&b, &mb, &mut c.rng));
        write_all(&a, &ma, &st, &pa).map_err(|e| format!("{}: {}", desc, e))?;
        write_all(&b, &mb, &st, &pb).map_err(|e| format!("{}: second archive: {}", desc, e))?;
        for (d, m) in &[(&a, &ma), (&b, &mb)] {
            match open_model(d, &reader(file, &dir, &st))? {
                Ok(g) => {
                    if let Some(x) = diff_models(d, &g, m) {
                        return Err(format!("{}: {}", desc, x));
                    }
                }
                Err(e) => return Err(format!("{}: {} cannot be opened: {}", desc, d.name, e)),
            }
        }
        c.nontrivial_cur();
        clean(&dir);
    }
    if c.kind == Kind::Rel || (c.kind == Kind::Dbg && c.thorough) {
        for _ in 0..if c.thorough { 30 } else { 4 } {
            c05_case(c, &huge(), 42)?;
        }
    }
    #[cfg(feature = "interpose")]
    {
        if c.kind == Kind::Rel && (c.shard == 0 || c.thorough) {
            c05_beyond_4g(c)?;
        }
    }
    Ok(())
}

/// Resources beyond 4 GiB written at once.
#[cfg(feature = "interpose")]
fn c05_beyond_4g(c: &mut Ctx) -> V {
    use crate::archives::{Pure, PureBuilder};
    use crate::cost::Zeros;
    let n = (4usize << 30) + 4096 * 5 * c.rng.range(1, 40);
    let mut mem = Zeros::new(n)?;
    let marks: Vec<(usize, u8)> = [0, n / 2, n - 1, 4 << 30, (4 << 30) - 1].iter().map(|p| (*p, c.rng.range(1, 255) as u8)).collect();
    for (p, x) in &marks {
        mem.all()[*p] = *x;
    }
    let data: &[u8] = &*mem.all();
    for how in 0..4 {
        c.case(format!("{} of {} bytes written at once", ["raw data", "vector of 1 byte elements", "vector of 5 byte elements", "resource"][how], n));
        let dir = c.dir();
        let st = new_storage(true, &dir);
        let b = <PureBuilder as flatdata::ArchiveBuilder>::new(st.clone()).map_err(|e| e.to_string())?;
        b.set_p0(flatdata::StructBuf::<crate::G1>::new().get()).map_err(|e| e.to_string())?;
        b.start_p4().map_err(|e| e.to_string())?.close().map_err(|e| e.to_string())?;
        if how != 1 {
            b.set_p2(&ArrayView::new(&[])).map_err(|e| e.to_string())?;
        }
        crate::interpose::start(&dir, crate::interpose::Mode::Sparse);
        let r = guard(|| match how {
            0 => b.set_p6(data),
            1 => b.set_p2(&ArrayView::<crate::G3>::new(data)),
            2 => b.set_p3(&ArrayView::<crate::G9>::new(data)),
            _ => st.write("x", "schema", data),
        });
        crate::interpose::stop();
        r?.map_err(|e| format!("{}: {}", c.cur, e))?;
        let st = reader(true, &dir, &st);
        let a = <Pure as flatdata::Archive>::open(st.clone()).map_err(|e| format!("{}: the archive cannot be opened: {}", c.cur, e))?;
        let got: &[u8] = match how {
            0 => a.p6().ok_or_else(|| format!("{}: absent", c.cur))?,
            1 => {
                let v = a.p2();
                ensure!(v.len() == n / size_of::<crate::G3>(), "{}: {} elements", c.cur, v.len());
                st.read("p2", "p2").map_err(|e| e.to_string())?
            }
            2 => {
                let v = a.p3().ok_or_else(|| format!("{}: absent", c.cur))?;
                ensure!(v.len() == n / size_of::<crate::G9>(), "{}: {} elements", c.cur, v.len());
                st.read("p3", "p3").map_err(|e| e.to_string())?
            }
            _ => st.read("x", "schema").map_err(|e| format!("{}: {}", c.cur, e))?,
        };
        let whole = if how == 2 { n / size_of::<crate::G9>() * size_of::<crate::G9>() } else { n };
        ensure!(got.len() == n || got.len() == whole, "{}: {} bytes are read back", c.cur, got.len());
        for (p, x) in &marks {
            ensure!(*p >= got.len() || got[*p] == *x, "{}: byte {} reads {} instead of {}", c.cur, p, got[*p], x);
        }
        c.count("resources beyond 4 GiB written at once", 1);
        c.nontrivial_cur();
        clean(&dir);
    }
    Ok(())
}

//
// C12: an independent model of what opening must do
//
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Class {
    Missing,
    Size,
    Utf8,
    Schema,
    OtherIo,
}
pub fn class_of(e: &Rse) -> Class {
    match e {
        Rse::Io(e, _) if e.kind() == io::ErrorKind::NotFound => Class::Missing,
        Rse::Io(..) => Class::OtherIo,
        Rse::MissingSchema(_) => Class::Missing,
        Rse::WrongSignature { .. } => Class::Schema,
        Rse::UnexpectedDataSize => Class::Size,
        Rse::Utf8Error(_) => Class::Utf8,
    }
}
pub type Causes = BTreeSet<Class>;

pub fn status<'a>(map: &'a Map, key: &str, schema: &str, min: usize) -> Result<&'a [u8], Causes> {
    let mut causes = Causes::new();
    let mut payload = None;
    match map.get(key) {
        None => {
            causes.insert(Class::Missing);
        }
        Some(b) => {
            if b.is_empty() {
                causes.insert(Class::OtherIo);
            }
            if b.len() < 16 {
                causes.insert(Class::Size);
            } else {
                let mut n = 0u64;
                for k in (0..8).rev() {
                    n = n << 8 | u64::from(b[k]);
                }
                if n != (b.len() - 16) as u64 || (b.len() - 16) < min {
                    causes.insert(Class::Size);
                } else {
                    payload = Some(&b[8..b.len() - 8]);
                }
            }
        }
    }
    match map.get(&format!("{}.schema", key)) {
        None => {
            causes.insert(Class::Missing);
        }
        Some(s) => match std::str::from_utf8(s) {
            Err(_) => {
                causes.insert(Class::Utf8);
            }
            Ok(s) => {
                if s != schema {
                    causes.insert(Class::Schema);
                    if s.is_empty() {
                        causes.insert(Class::OtherIo);
                    }
                }
            }
        },
    }
    if causes.is_empty() {
        Ok(payload.unwrap())
    } else {
        Err(causes)
    }
}

/// What opening `d` on these bytes must yield. Multivector payloads must be unmodified where readable.
pub fn oracle_open(d: &ArchDesc, map: &Map, prefix: &str) -> Result<Model, Causes> {
    let mut causes = Causes::new();
    let mut model: Model = vec![];
    let key = |n: &str| format!("{}{}", prefix, n);
    if let Err(x) = status(map, &key(&format!("{}.archive", d.name)), d.schema, 0) {
        causes.extend(x);
    }
    for r in &d.res {
        let v: Result<ResVal, Causes> = match &r.kind {
            RKind::Struct(cd) => status(map, &key(r.name), r.schema, cd.size()).map(|p| ResVal::Struct(cd.decode(&p[..cd.size()]))),
            RKind::Vec(cd) => status(map, &key(r.name), r.schema, 0).map(|p| ResVal::Vec(p.chunks(cd.size()).filter(|x| x.len() == cd.size()).map(|x| cd.decode(x)).collect())),
            RKind::Raw => status(map, &key(r.name), r.schema, 0).map(|p| ResVal::Raw(p.to_vec())),
            RKind::Multi { vars, isize, ibits } => {
                let i = status(map, &key(&format!("{}_index", r.name)), &format!("index({})", r.schema), 0);
                let p = status(map, &key(r.name), r.schema, 0);
                match (i, p) {
                    (Ok(i), Ok(p)) => Ok(ResVal::Multi(decode_multi(vars, *isize, *ibits, i, p))),
                    (a, b) => {
                        let mut x = Causes::new();
                        x.extend(a.err().unwrap_or_default());
                        x.extend(b.err().unwrap_or_default());
                        Err(x)
                    }
                }
            }
            RKind::Sub(s) => oracle_open(s, map, &format!("{}{}/", prefix, r.name)).map(ResVal::Sub),
        };
        match v {
            Ok(v) => model.push(Some(v)),
            Err(_) if r.opt => model.push(None),
            Err(x) => {
                causes.extend(x);
                model.push(None);
            }
        }
    }
    if causes.is_empty() {
        Ok(model)
    } else {
        Err(causes)
    }
}
pub fn decode_multi(vars: &[(u8, &'static dyn Codec)], isize: usize, ibits: usize, index: &[u8], data: &[u8]) -> Vec<Item> {
    let offs: Vec<usize> = index.chunks(isize).filter(|x| x.len() == isize).map(|x| get_bits(x, 0, ibits) as usize).collect();
    offs.windows(2)
        .map(|w| {
            let mut it = vec![];
            let mut p = w[0];
            while p < w[1] {
                let cd = vars.iter().find(|v| v.0 == data[p]).unwrap().1;
                it.push((data[p], cd.decode(&data[p + 1..p + 1 + cd.size()])));
                p += 1 + cd.size();
            }
            it
        })
        .collect()
}

/// Damages one key. Returns a description.
pub fn damage(rng: &mut Rng, map: &mut Map, keys: &[String], structs: &BTreeMap<String, usize>, plain: &BTreeSet<String>) -> String {
    let k = rng.pick(keys).clone();
    if !map.contains_key(&k) {
        return format!("('{}' already gone)", k);
    }
    let is_schema = k.ends_with(".schema");
    if rng.chance(1, 6) {
        map.remove(&k);
        return format!("'{}' deleted", k);
    }
    let is_struct = structs.contains_key(&k);
    let is_plain = plain.contains(&k);
    let b = map.get_mut(&k).unwrap();
    let setn = |b: &mut Vec<u8>, n: u64| {
        if b.len() >= 8 {
            b[..8].copy_from_slice(&n.to_le_bytes());
        }
    };
    if b.is_empty() {
        b.push(b'x');
        return format!("'{}' extended from empty by a byte", k);
    }
    if is_schema {
        match rng.below(9) {
            0 => {
                let n = rng.below(b.len());
                b.truncate(n);
                format!("'{}' truncated to {}", k, n)
            }
            1 => {
                let x = *rng.pick(b" \n\0a/");
                b.push(x);
                format!("'{}' extended by {:?}", k, x as char)
            }
            2 => {
                b.clear();
                format!("'{}' emptied", k)
            }
            3 => {
                let p = rng.below(b.len() + 1);
                let bad: &[u8] = match rng.below(3) {
                    0 => &[0xff],
                    1 => &[0xc3],
                    _ => &[0xed, 0xa0, 0x80],
                };
                for (i, x) in bad.iter().enumerate() {
                    b.insert(p + i, *x);
                }
                format!("'{}' with invalid UTF-8 at {}", k, p)
            }
            4 => {
                b.insert(0, b' ');
                format!("'{}' with a leading blank", k)
            }
            5 => {
                let c2 = b.clone();
                b.extend_from_slice(&c2);
                format!("'{}' doubled", k)
            }
            _ => {
                let p = rng.below(b.len());
                let old = b[p];
                b[p] ^= 1 << rng.below(7);
                format!("'{}' byte {} {:#x} -> {:#x}", k, p, old, b[p])
            }
        }
    } else {
        let len = b.len();
        let n = (len as u64).wrapping_sub(16);
        match rng.below(if is_struct { 14 } else if is_plain { 12 } else { 10 }) {
            0 => {
                let m = rng.below(len.max(1));
                b.truncate(m);
                format!("'{}' truncated to {} of {}", k, m, len)
            }
            1 => {
                let m = (1 + rng.below(9)).min(len);
                b.truncate(len - m);
                format!("'{}' truncated by {}", k, m)
            }
            2 => {
                let m = 1 + rng.below(20);
                let x = rng.bytes(m);
                b.extend_from_slice(&x);
                format!("'{}' extended by {}", k, m)
            }
            3 => {
                setn(b, n.wrapping_add(1));
                format!("'{}' header {}", k, n.wrapping_add(1))
            }
            4 => {
                setn(b, n.wrapping_sub(1));
                format!("'{}' header {}", k, n.wrapping_sub(1))
            }
            5 => {
                let v = match rng.below(9) {
                    0 => u64::max_value(),
                    1 => u64::max_value() - 7,
                    2 => u64::max_value() - 15,
                    3 => 1 << 63,
                    4 => n.wrapping_add(1 << 32),
                    5 => n.wrapping_sub(16),
                    6 => n.wrapping_add(16),
                    7 => n.swap_bytes() ^ 1,
                    _ => rng.next(),
                };
                setn(b, v);
                format!("'{}' header {:#x}", k, v)
            }
            6 => {
                // header 0, as of an unfinished writer
                setn(b, 0);
                format!("'{}' header 0 (was {})", k, n)
            }
            7 => {
                b.clear();
                format!("'{}' emptied", k)
            }
            8 => {
                let m = *rng.pick(&[7usize, 8, 9, 15]);
                b.truncate(m);
                format!("'{}' truncated to {}", k, m)
            }
            9 => {
                // header shifted into the other byte order
                let v = n.swap_bytes();
                setn(b, v);
                format!("'{}' header byte order", k)
            }
            10 => {
                // a consistent longer or shorter resource (payload still readable)
                let m = rng.below(len);
                if len >= 16 && m > 0 {
                    let m = m % (len - 15);
                    let pad = b.split_off(len - 8);
                    b.truncate(8 + m);
                    b.extend_from_slice(&pad);
                    setn(b, m as u64);
                }
                format!("'{}' consistently shortened to {} bytes", k, b.len())
            }
            11 => {
                let m = 1 + rng.below(12);
                if len >= 16 {
                    let pad = b.split_off(len - 8);
                    let x = rng.bytes(m);
                    b.extend_from_slice(&x);
                    b.extend_from_slice(&pad);
                    setn(b, (len - 16 + m) as u64);
                }
                format!("'{}' consistently extended to {} bytes", k, b.len())
            }
            12 => {
                if len >= 17 {
                    let pad = b.split_off(len - 8);
                    b.truncate(len - 8 - 1);
                    b.extend_from_slice(&pad);
                    setn(b, (len - 17) as u64);
                }
                format!("'{}' consistently one byte short of the struct", k)
            }
            _ => {
                let v = framed(&[]);
                *b = v;
                format!("'{}' with an empty payload", k)
            }
        }
    }
}

/// Keys of struct resources with their size, and keys of resources without enumerations whose payload may be cut freely.
pub fn shapes(d: &ArchDesc, prefix: &str, structs: &mut BTreeMap<String, usize>, plain: &mut BTreeSet<String>) {
    for r in &d.res {
        let k = format!("{}{}", prefix, r.name);
        let no_enum = |cd: &&'static dyn Codec| !cd.fields().iter().any(|f| match f.ty {
            Ty::Enum { .. } => true,
            _ => false,
        });
        match &r.kind {
            RKind::Struct(cd) => {
                structs.insert(k.clone(), cd.size());
                if no_enum(cd) {
                    plain.insert(k);
                }
            }
            RKind::Vec(cd) => {
                if no_enum(cd) {
                    plain.insert(k);
                }
            }
            RKind::Raw => {
                plain.insert(k);
            }
            RKind::Sub(s) => shapes(s, &format!("{}/", k), structs, plain),
            _ => {}
        }
    }
}

fn verdict(d: &ArchDesc, got: Result<Model, Rse>, want: &Result<Model, Causes>) -> V {
    match (got, want) {
        (Ok(g), Ok(w)) => match diff_models(d, &g, w) {
            Some(x) => Err(format!("opened, but {}", x)),
            None => Ok(()),
        },
        (Ok(_), Err(x)) => Err(format!("opened, although a mandatory part is damaged ({:?})", x)),
        (Err(e), Ok(_)) => Err(format!("failed to open with {}, although every mandatory part is intact", e)),
        (Err(e), Err(x)) => {
            // the text of the error must be printable
            let _ = format!("{} {:?}", e, e);
            ensure!(x.contains(&class_of(&e)), "error {} does not describe the cause ({:?})", e, x);
            Ok(())
        }
    }
}

/// A resource is readable exactly when its header tells the size of what is between header and padding.
fn headers(c: &mut Ctx) -> V {
    for _ in 0..if c.slow() { 200 } else { c.n(300, 3000) } {
        let file = pick_file(c);
        let dir = c.dir();
        let st = new_storage(file, &dir);
        let n = *c.rng.pick(&[0u64, 1, 2, 7, 8, 9, 16, 100]);
        let v = match c.rng.below(8) {
            0 => n,
            1 => n.wrapping_add(1 << (31 + c.rng.below(33))),
            2 => n ^ (1 << c.rng.below(64)),
            3 => n.wrapping_add(c.rng.below(40) as u64).wrapping_sub(20),
            4 => n.wrapping_neg(),
            5 => n | c.rng.next() << 32,
            6 => u64::from(u32::max_value()) - c.rng.below(20) as u64,
            _ => u64::max_value() - c.rng.below(20) as u64,
        };
        let desc = format!("resource of {} bytes on {} storage with {:#x} in its header", n, if file { "file" } else { "memory" }, v);
        c.case(desc.clone());
        let body = c.rng.bytes(n as usize);
        let mut b = v.to_le_bytes().to_vec();
        b.extend_from_slice(&body);
        b.extend_from_slice(&[0; 8]);
        let mut map = Map::new();
        map.insert("r".to_string(), b);
        map.insert("r.schema".to_string(), b"s".to_vec());
        install(file, &dir, &st, &map);
        let st1 = reader(file, &dir, &st);
        match guard(|| st1.read("r", "s").map(|x| x.to_vec())).map_err(|e| format!("{}: {}", desc, e))? {
            Ok(x) => {
                ensure!(v == n, "{}: is accepted as {} bytes", desc, x.len());
                ensure!(x == body, "{}: other content is returned", desc);
            }
            Err(e) => {
                ensure!(v != n, "{}: is refused: {:?}", desc, e);
                ensure!(class_of(&e) == Class::Size, "{}: is refused with {:?}", desc, e);
            }
        }
        c.count("headers judged", 1);
        c.nontrivial(fnv(desc.as_bytes()));
        clean(&dir);
    }
    Ok(())
}

/// Schemas of any length that differ anywhere are told apart.
fn schemas(c: &mut Ctx) -> V {
    for _ in 0..if c.slow() { 10 } else { c.n(150, 3000) } {
        let file = pick_file(c);
        let dir = c.dir();
        let st = new_storage(file, &dir);
        let n = if c.slow() { c.rng.below(300) } else { c.rng.outsized(1 << 19) };
        // the time and space to print a difference is quadratic in the number of lines
        let lines = if n > 4000 { 40 } else { n / 20 };
        let mut text: Vec<u8> = (0..n).map(|_| *c.rng.pick(b"abcdefgh :;{}_019\t/")).collect();
        for _ in 0..lines {
            let k = c.rng.below(n);
            text[k] = b'\n';
        }
        let want = String::from_utf8(text.clone()).unwrap();
        let what = match c.rng.below(7) {
            _ if text.is_empty() => "as it is".to_string(),
            0 => "as it is".to_string(),
            1 => {
                let k = c.rng.below(text.len());
                text.truncate(k);
                format!("truncated to {}", k)
            }
            2 => {
                text.push(b'x');
                "extended".to_string()
            }
            3 => {
                let k = c.rng.below(text.len());
                let x = text.remove(k);
                text.push(x);
                format!("byte {} moved to the end", k)
            }
            _ => {
                let k = c.rng.below(text.len());
                text[k] ^= 1;
                format!("byte {} changed", k)
            }
        };
        let desc = format!("resource on {} storage with a schema of {} bytes, {}", if file { "file" } else { "memory" }, n, what);
        c.case(desc.clone());
        let same = text == want.as_bytes();
        let mut map = Map::new();
        map.insert("r".to_string(), framed(b"content"));
        map.insert("r.schema".to_string(), text);
        install(file, &dir, &st, &map);
        let st1 = reader(file, &dir, &st);
        match guard(|| st1.read("r", &want).map(|x| x.to_vec())).map_err(|e| format!("{}: {}", desc, e))? {
            Ok(x) => {
                ensure!(same, "{}: is accepted", desc);
                ensure!(x == b"content", "{}: other content is returned", desc);
            }
            Err(e) => {
                ensure!(!same, "{}: is refused: {:?}", desc, class_of(&e));
                ensure!(class_of(&e) == Class::Schema, "{}: is refused with {:?}", desc, class_of(&e));
            }
        }
        c.count("schemas judged", 1);
        c.nontrivial(fnv(desc.as_bytes()));
        clean(&dir);
    }
    Ok(())
}

pub fn c12(c: &mut Ctx) -> V {
    headers(c)?;
    schemas(c)?;
    if c.slow() && std::mem::size_of::<usize>() == 4 {
        // the rest does not depend on the size of an address
        return Ok(());
    }
    // damaged archives
    let n = c.n(2500, 80000);
    for _ in 0..n {
        let d = any_desc(c);
        let m = { let z = if c.slow() { 2 } else { 5 }; rand_model(&d, &mut c.rng, z) };
        let file = pick_file(c);
        let mut good = Map::new();
        encode_archive(&d, &m, "", &mut good);
        let keys: Vec<String> = good.keys().cloned().collect();
        let mut structs = BTreeMap::new();
        let mut plain = BTreeSet::new();
        shapes(&d, "", &mut structs, &mut plain);
        let mut bad = good.clone();
        let k = if c.rng.chance(2, 3) { 1 } else { c.rng.range(0, 3) };
        let mut what = vec![];
        for _ in 0..k {
            what.push(damage(&mut c.rng, &mut bad, &keys, &structs, &plain));
        }
        let want = oracle_open(&d, &bad, "");
        let desc = case_of(c, "open", &d, &m, file, &format!("with {}", what.join(" and ")));
        let dir = c.dir();
        let st = new_storage(file, &dir);
        install(file, &dir, &st, &bad);
        let st1 = reader(file, &dir, &st);
        let got = open_model(&d, &st1).map_err(|e| format!("{}: open: {}", desc, e))?;
        c.count(if got.is_ok() { "opened" } else { "refused" }, 1);
        if let Err(e) = &got {
            c.count(&format!("refused with {:?}", class_of(e)), 1);
        }
        verdict(&d, got, &want).map_err(|e| format!("{}: {}", desc, e))?;
        // a second attempt through the same handle agrees
        let got = open_model(&d, &st1).map_err(|e| format!("{}: second open: {}", desc, e))?;
        verdict(&d, got, &want).map_err(|e| format!("{}: second attempt through the same handle: {}", desc, e))?;
        // repair, then open through the same handle
        for k in keys.iter() {
            if bad.get(k) != good.get(k) {
                // by another process for files, or through the handle
                let by_handle = !file || c.rng.chance(1, 2);
                if by_handle {
                    guard(|| -> io::Result<()> {
                        let s = st1.create_output_stream(k)?;
                        s.borrow_mut().write_all(&good[k])?;
                        Ok(())
                    })?
                    .map_err(|e| format!("{}: rewriting '{}' through the handle: {}", desc, k, e))?;
                } else {
                    put_key(file, &dir, &st, k, &good[k]);
                }
            }
        }
        let got = open_model(&d, &st1).map_err(|e| format!("{}: open after repair: {}", desc, e))?;
        verdict(&d, got, &Ok(m.clone())).map_err(|e| format!("{}: after repair, through the same handle: {}", desc, e))?;
        if file {
            let got = open_model(&d, &reader(file, &dir, &st)).map_err(|e| format!("{}: open after repair: {}", desc, e))?;
            verdict(&d, got, &Ok(m.clone())).map_err(|e| format!("{}: after repair, through a fresh handle: {}", desc, e))?;
        }
        c.nontrivial(fnv(desc.as_bytes()));
        clean(&dir);
    }
    // archives under construction, opened after every step
    for _ in 0..c.n(250, 8000) {
        let d = any_desc(c);
        let m = { let z = if c.slow() { 2 } else { 6 }; rand_model(&d, &mut c.rng, z) };
        let plan = rand_plan(&d, &m, &mut c.rng);
        let file = pick_file(c);
        let desc = case_of(c, "open under construction", &d, &m, file, &show_plan(&d, &plan));
        let dir = c.dir();
        let st = new_storage(file, &dir);
        let every = c.rng.chance(1, 2);
        // before anything is written
        let got = open_model(&d, &st)?;
        ensure!(got.is_err(), "{}: an archive that does not exist was opened", desc);
        let mut ex = Exec::new(&d, &m, st.clone());
        let mut done: BTreeSet<Path> = BTreeSet::new();
        let r = (|| -> V {
            for (k, s) in plan.iter().enumerate() {
                guard(|| ex.step(s))?.map_err(|e| format!("step {:?}: {:?}", s, e))?;
                match s {
                    Step::Create(p) | Step::Set(p, _) | Step::Close(p) => {
                        done.insert(p.clone());
                    }
                    _ => {}
                }
                if !every && k + 1 < plan.len() && !c.rng.chance(1, 4) {
                    continue;
                }
                let want = partial(&d, &m, &vec![], &done);
                let handles = if file { vec![("same", st.clone()), ("fresh", reader(file, &dir, &st))] } else { vec![("same", st.clone())] };
                for (name, h) in handles {
                    let got = open_model(&d, &h).map_err(|e| format!("open after step {}: {}", k, e))?;
                    c.count("opens during construction", 1);
                    match (&got, &want) {
                        (Ok(_), Some(_)) | (Err(_), None) => {}
                        (Ok(_), None) => return Err(format!("opened through the {} handle after step {} ({:?}) although mandatory parts are not written", name, k, s)),
                        (Err(e), Some(_)) => return Err(format!("failed to open through the {} handle after step {} ({:?}): {}", name, k, s, e)),
                    }
                    if let (Ok(g), Some(w)) = (&got, &want) {
                        if let Some(x) = diff_models(&d, g, w) {
                            return Err(format!("opened through the {} handle after step {}: {}", name, k, x));
                        }
                    }
                }
            }
            Ok(())
        })();
        if let Err(e) = r {
            std::mem::forget(ex);
            return Err(format!("{}: {}", desc, e));
        }
        drop(ex);
        c.nontrivial(fnv(desc.as_bytes()));
        clean(&dir);
    }
    Ok(())
}

/// What an archive under construction must show: None if it must not open.
fn partial(d: &ArchDesc, m: &Model, path: &Path, done: &BTreeSet<Path>) -> Option<Model> {
    if !done.contains(path) {
        return None;
    }
    let mut out: Model = vec![];
    for (i, (r, v)) in d.res.iter().zip(m).enumerate() {
        let mut p = path.clone();
        p.push(i);
        let x = match (&r.kind, v) {
            (_, None) => None,
            (RKind::Sub(s), Some(ResVal::Sub(sm))) => partial(s, sm, &p, done).map(ResVal::Sub),
            (_, Some(v)) => {
                if done.contains(&p) {
                    Some(v.clone())
                } else {
                    None
                }
            }
        };
        if x.is_none() && !r.opt {
            return None;
        }
        out.push(x);
    }
    Some(out)
}

/// After a crash or fault: every mandatory part equal, every optional part absent or equal.
pub fn sound(d: &ArchDesc, got: &Model, want: &Model) -> V {
    for (i, r) in d.res.iter().enumerate() {
        match (&got[i], &want[i]) {
            (None, _) if r.opt => {}
            (Some(ResVal::Sub(a)), Some(ResVal::Sub(b))) => {
                if let RKind::Sub(s) = &r.kind {
                    sound(s, a, b).map_err(|e| format!("{}/{}", r.name, e))?;
                }
            }
            (a, b) if a == b => {}
            _ => return Err(diff_models(d, got, want).unwrap_or_else(|| r.name.to_string())),
        }
    }
    Ok(())
}

//
// C13, C14
//
#[cfg(feature = "interpose")]
mod faults {
    use super::*;
    use crate::interpose::*;

    /// Runs `f` in a forked child; returns the raw wait status.
    pub fn fork_run(f: impl FnOnce()) -> i32 {
        unsafe {
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                // a child that never ends is killed by SIGXCPU
                let lim = libc::rlimit { rlim_cur: 150, rlim_max: 160 };
                libc::setrlimit(libc::RLIMIT_CPU, &lim);
                let r = guard(f);
                libc::_exit(if r.is_ok() { 0 } else { 101 });
            }
            let mut st = 0;
            loop {
                let r = libc::waitpid(pid, &mut st, 0);
                if r == pid {
                    return st;
                }
            }
        }
    }

    fn run_plan(d: &ArchDesc, m: &Model, dir: &FsPath, plan: &[Step]) {
        let st: St = FileResourceStorage::new(dir.to_path_buf());
        let mut ex = Exec::new(d, m, st);
        for s in plan {
            ex.step(s).expect("step failed");
        }
    }

    fn c13_plan(c: &mut Ctx, d: &ArchDesc, size: usize, all: bool) -> V {
        let m = rand_model(d, &mut c.rng, size);
        let plan = rand_plan(d, &m, &mut c.rng);
        let desc = format!("crash: {} {{{}}} {}", d.name, summary(d, &m), show_plan(d, &plan));
        c.case(desc.clone());
        // the sequence of file-system operations without a crash
        let dir = c.dir();
        start(&dir, Mode::Watch);
        let r = guard(|| run_plan(d, &m, &dir, &plan));
        let rec = stop();
        r.map_err(|e| format!("{}: {}", desc, e))?;
        clean(&dir);
        c.count("file-system operations observed", rec.log.len() as u64);
        let mut points: Vec<(Mode, String)> = vec![];
        for (k, (op, len)) in rec.log.iter().enumerate() {
            if !op.mutating() && *op != Op::Seek {
                continue;
            }
            points.push((Mode::CrashBefore { at: k }, format!("before operation {} ({:?} {})", k, op, len)));
            points.push((Mode::CrashAfter { at: k }, format!("after operation {} ({:?} {})", k, op, len)));
            if *op == Op::Write && *len > 1 {
                let mut ns: Vec<usize> = vec![1, 2, 4, 7, 8, 9, 15, 16, 17, len / 2, len - 1, 1 + c.rng.below(len - 1)];
                ns.retain(|n| *n > 0 && n < len);
                ns.sort();
                ns.dedup();
                for n in ns {
                    points.push((Mode::CrashPartial { at: k, n }, format!("after {} of {} bytes of write operation {}", n, len, k)));
                }
            }
        }
        if !all {
            // keep a random choice
            let want = 40;
            while points.len() > want {
                let i = c.rng.below(points.len());
                points.swap_remove(i);
            }
        }
        for (mode, what) in points {
            c.case(format!("{} -- dies {}", desc, what));
            let dir = c.dir();
            let st = fork_run(|| {
                start(&dir, mode);
                run_plan(d, &m, &dir, &plan);
            });
            if libc::WIFSIGNALED(st) {
                return Err(format!("{} -- dies {}: the writer was killed by signal {}", desc, what, libc::WTERMSIG(st)));
            }
            let code = libc::WEXITSTATUS(st);
            ensure!(code == CRASH_CODE || code == 0, "{} -- dies {}: the writer panicked (exit {})", desc, what, code);
            ensure!(code == CRASH_CODE, "{} -- dies {}: crash point was not reached", desc, what);
            c.count("crashes injected", 1);
            judge(c, d, &m, &dir, &format!("{} -- dies {}", desc, what))?;
            c.nontrivial(fnv(what.as_bytes()) ^ fnv(desc.as_bytes()));
            clean(&dir);
        }
        // death by panic between two steps: destructors run while unwinding
        for k in 0..plan.len() {
            if !all && !c.rng.chance(1, 4) {
                continue;
            }
            c.case(format!("{} -- panics before step {}", desc, k));
            let dir = c.dir();
            let r = guard(|| {
                let st: St = FileResourceStorage::new(dir.to_path_buf());
                let mut ex = Exec::new(d, &m, st);
                for s in &plan[..k] {
                    ex.step(s).expect("step failed");
                }
                panic!("stop here");
            });
            let _: Result<(), String> = r;
            c.count("panics injected", 1);
            let what = format!("{} -- panics before step {}", desc, k);
            judge(c, d, &m, &dir, &what)?;
            c.nontrivial(fnv(what.as_bytes()));
            clean(&dir);
        }
        Ok(())
    }

    /// `m` with the resource at `p` replaced.
    fn with_value(m: &Model, p: &[usize], v: &ResVal) -> Model {
        let mut m = m.clone();
        m[p[0]] = match (&m[p[0]], p.len()) {
            (_, 1) => Some(v.clone()),
            (Some(ResVal::Sub(s)), _) => Some(ResVal::Sub(with_value(s, &p[1..], v))),
            _ => unreachable!(),
        };
        m
    }

    /// A complete archive, and steps which write some of its resources again with the given values.
    fn rewriting(c: &mut Ctx, d: &ArchDesc, size: usize) -> Option<(Model, Vec<Step>, Vec<(Path, ResVal)>, Vec<Step>)> {
        let m = rand_model(d, &mut c.rng, size);
        let plan = rand_plan(d, &m, &mut c.rng);
        let mut leaves: Vec<Path> = plan
            .iter()
            .filter_map(|s| match s {
                Step::Set(p, _) | Step::Start(p) => Some(p.clone()),
                _ => None,
            })
            .collect();
        if leaves.is_empty() {
            return None;
        }
        while leaves.len() > 3 {
            let k = c.rng.below(leaves.len());
            leaves.swap_remove(k);
        }
        // every version some resource has: its path, its value
        let mut versions: Vec<(Path, ResVal)> = vec![];
        let mut again: Vec<Step> = vec![];
        for p in &leaves {
            let (r, old) = at(d, &m, p);
            for _ in 0..c.rng.range(1, 2) {
                // mostly of the same size
                let mut seed = c.rng.next();
                for _ in 0..30 {
                    let same = match (crate::archives::rand_resource(r, &mut Rng::new(seed), 8), old) {
                        (ResVal::Vec(a), ResVal::Vec(b)) => a.len() == b.len(),
                        (ResVal::Multi(a), ResVal::Multi(b)) => a.len() == b.len(),
                        (ResVal::Raw(a), ResVal::Raw(b)) => a.len() == b.len(),
                        _ => true,
                    };
                    if same || c.rng.chance(1, 20) {
                        break;
                    }
                    seed = c.rng.next();
                }
                versions.push((p.clone(), crate::archives::rand_resource(r, &mut Rng::new(seed), 8)));
                again.push(Step::Draft(p.clone(), seed));
            }
        }
        Some((m, plan, versions, again))
    }

    /// Resources of a complete archive are written again, and the process dies meanwhile: each of them is one
    /// of the values it ever had, or refused; all others are unchanged.
    fn c13_rewrite(c: &mut Ctx, d: &ArchDesc, size: usize, points_wanted: usize) -> V {
        let (m, plan, versions, again) = match rewriting(c, d, size) {
            Some(x) => x,
            None => return Ok(()),
        };
        let leaves: Vec<Path> = versions.iter().map(|v| v.0.clone()).collect();
        let desc = format!("crash: {} {{{}}} {} complete, then {}", d.name, summary(d, &m), show_plan(d, &plan), show_plan(d, &again));
        c.case(desc.clone());
        let run = |dir: &FsPath, mode: Mode| {
            let st: St = FileResourceStorage::new(dir.to_path_buf());
            let mut ex = Exec::new(d, &m, st);
            for s in &plan {
                ex.step(s).expect("step failed");
            }
            start(dir, mode);
            for s in &again {
                ex.step(s).expect("step failed");
            }
        };
        let dir = c.dir();
        let r = guard(|| run(&dir, Mode::Watch));
        let rec = stop();
        r.map_err(|e| format!("{}: {}", desc, e))?;
        clean(&dir);
        let mut points: Vec<(Mode, String)> = vec![];
        for (k, (op, len)) in rec.log.iter().enumerate() {
            if !op.mutating() && *op != Op::Seek {
                continue;
            }
            points.push((Mode::CrashAfter { at: k }, format!("after operation {} ({:?} {})", k, op, len)));
            if *op == Op::Write && *len > 1 {
                for n in &[1, len / 2, len - 1, 1 + c.rng.below(len - 1)] {
                    points.push((Mode::CrashPartial { at: k, n: *n }, format!("after {} of {} bytes of write operation {}", n, len, k)));
                }
            }
        }
        while points.len() > points_wanted {
            let k = c.rng.below(points.len());
            points.swap_remove(k);
        }
        // what each resource may hold
        let mut models = vec![m.clone()];
        for (p, v) in &versions {
            models.push(with_value(&m, p, v));
        }
        let maps: Vec<Map> = models
            .iter()
            .map(|m| {
                let mut x = Map::new();
                encode_archive(d, m, "", &mut x);
                x
            })
            .collect();
        fn allowed(d: &ArchDesc, got: &Model, ms: &[&Model]) -> V {
            for (i, r) in d.res.iter().enumerate() {
                if got[i].is_none() && r.opt {
                    continue;
                }
                if ms.iter().any(|m| m[i] == got[i]) {
                    continue;
                }
                if let (RKind::Sub(s), Some(ResVal::Sub(g))) = (&r.kind, &got[i]) {
                    let subs: Vec<&Model> = ms
                        .iter()
                        .filter_map(|m| match &m[i] {
                            Some(ResVal::Sub(x)) => Some(x),
                            _ => None,
                        })
                        .collect();
                    allowed(s, g, &subs).map_err(|e| format!("{}/{}", r.name, e))?;
                    continue;
                }
                return Err(format!("{}: none of the values ever written", r.name));
            }
            Ok(())
        }
        for (mode, what) in points {
            let what = format!("{} -- dies {}", desc, what);
            c.case(what.clone());
            let dir = c.dir();
            let st = fork_run(|| run(&dir, mode));
            ensure!(libc::WIFEXITED(st), "{}: the writer was killed", what);
            ensure!(libc::WEXITSTATUS(st) == CRASH_CODE, "{}: the writer panicked or did not reach the crash point (exit {})", what, libc::WEXITSTATUS(st));
            c.count("crashes injected while rewriting", 1);
            let st: St = FileResourceStorage::new(dir.to_path_buf());
            match open_model(d, &st).map_err(|e| format!("{}: opening afterwards: {}", what, e))? {
                Ok(g) => {
                    c.count("opened after the crash", 1);
                    allowed(d, &g, &models.iter().collect::<Vec<_>>()).map_err(|e| format!("{}: silently damaged archive: {}", what, e))?;
                }
                Err(_) => c.count("refused after the crash", 1),
            }
            for k in maps[0].keys().filter(|k| !k.ends_with(".schema")) {
                let schema = String::from_utf8(maps[0][&format!("{}.schema", k)].clone()).unwrap();
                let got = guard(|| st.read(k, &schema).map(|x| x.to_vec())).map_err(|e| format!("{}: reading {}: {}", what, k, e))?;
                let rewritten = maps.iter().any(|x| x[k] != maps[0][k]) || leaves.iter().any(|p| k.split('/').last().unwrap().starts_with(at(d, &m, p).0.name));
                match got {
                    Ok(b) => {
                        ensure!(maps.iter().any(|x| b[..] == x[k][8..x[k].len() - 8]), "{}: resource '{}' reads as valid with {} bytes it never had", what, k, b.len());
                        c.count("resources readable after the crash", 1);
                    }
                    Err(e) => {
                        ensure!(rewritten, "{}: resource '{}' was not written again but fails with {:?}", what, k, e);
                        c.count("resources refused after the crash", 1);
                    }
                }
            }
            c.nontrivial(fnv(what.as_bytes()));
            clean(&dir);
        }
        Ok(())
    }

    fn judge(c: &mut Ctx, d: &ArchDesc, m: &Model, dir: &FsPath, what: &str) -> V {
        let st: St = FileResourceStorage::new(dir.to_path_buf());
        match open_model(d, &st).map_err(|e| format!("{}: opening afterwards: {}", what, e))? {
            Ok(g) => {
                c.count("opened after the crash", 1);
                sound(d, &g, m).map_err(|e| format!("{}: silently damaged archive: {}", what, e))?;
            }
            Err(_) => c.count("refused after the crash", 1),
        }
        // sub-archives and side resources on their own
        for (r, v) in d.res.iter().zip(m) {
            if let (RKind::Sub(s), Some(ResVal::Sub(sm))) = (&r.kind, v) {
                if let Ok(g) = open_model(s, &st.subdir(r.name)).map_err(|e| format!("{}: opening sub-archive afterwards: {}", what, e))? {
                    sound(s, &g, sm).map_err(|e| format!("{}: silently damaged sub-archive {}: {}", what, r.name, e))?;
                    c.count("sub-archives opened after the crash", 1);
                }
            }
        }
        // every single resource: either not readable, or complete
        let mut want = Map::new();
        encode_archive(d, m, "", &mut want);
        for (k, v) in want.iter().filter(|(k, _)| !k.ends_with(".schema")) {
            let schema = String::from_utf8(want[&format!("{}.schema", k)].clone()).unwrap();
            let r = guard(|| st.read(k, &schema).map(|x| x.to_vec())).map_err(|e| format!("{}: reading {}: {}", what, k, e))?;
            if let Ok(b) = r {
                ensure!(b[..] == v[8..v.len() - 8], "{}: resource '{}' reads as valid with {} bytes, but the writer stored {}", what, k, b.len(), v.len() - 16);
                c.count("resources readable after the crash", 1);
            } else {
                c.count("resources refused after the crash", 1);
            }
        }
        Ok(())
    }

    pub fn c13(c: &mut Ctx) -> V {
        for d in small_archives() {
            for _ in 0..c.n(2, 25) {
                c13_plan(c, &d, 4, true)?;
            }
        }
        for _ in 0..c.n(25, 250) {
            let d = any_desc(c);
            c13_plan(c, &d, 10, false)?;
        }
        for _ in 0..c.n(60, 600) {
            let d = any_desc(c);
            c13_rewrite(c, &d, 8, 25)?;
        }
        // flushed data: streams beyond the internal buffer
        if c.kind == Kind::Rel || c.thorough {
            for _ in 0..c.n(3, 30) {
                c13_plan(c, &huge(), 42, false)?;
            }
        }
        crash_in_stream(c)
    }

    /// Streaming writers with tiny first writes: the first payload bytes that reach the disk.
    fn crash_in_stream(c: &mut Ctx) -> V {
        for k in 0..c.n(12, 120) {
            let n = 33 + c.rng.below(40);
            let multi = k % 3 == 0;
            let desc = format!("crash in a {} of {} x 1 MiB", if multi { "multivector" } else { "streaming vector" }, n);
            c.case(desc.clone());
            let cut = *c.rng.pick(&[1usize, 7, 8, 9, 16, 24, 4096]);
            let run = |dir: &FsPath| {
                let st: St = FileResourceStorage::new(dir.to_path_buf());
                if multi {
                    let mut v = create_multi_vector::<Idx64, VarC>(&*st, "v", "s").unwrap();
                    for _ in 0..n {
                        v.grow().unwrap().add_g8();
                    }
                    v.close().unwrap();
                } else {
                    let mut v = create_external_vector::<crate::G8>(&*st, "v", "s").unwrap();
                    for i in 0..n {
                        let mut e = v.grow().unwrap();
                        e.set_f0(i as u64 * 3 + 1);
                    }
                    v.close().unwrap();
                }
            };
            let dir = c.dir();
            start(&dir, Mode::Watch);
            let r = guard(|| run(&dir));
            let rec = stop();
            r.map_err(|e| format!("{}: {}", desc, e))?;
            let full = std::fs::read(dir.join("v")).unwrap();
            let full_index = std::fs::read(dir.join("v_index")).unwrap_or_default();
            clean(&dir);
            let writes: Vec<usize> = rec.log.iter().enumerate().filter(|(_, o)| o.0 == Op::Write).map(|(k, _)| k).collect();
            for at in writes {
                let dir = c.dir();
                let st = fork_run(|| {
                    start(&dir, Mode::CrashPartial { at, n: cut });
                    run(&dir);
                });
                ensure!(libc::WIFEXITED(st) && (libc::WEXITSTATUS(st) == CRASH_CODE || libc::WEXITSTATUS(st) == 0), "{}: the writer died unexpectedly ({})", desc, st);
                c.count("crashes injected", 1);
                let h: St = FileResourceStorage::new(dir.clone());
                for (name, schema, full) in &[("v", "s", &full), ("v_index", "index(s)", &full_index)] {
                    if let Ok(b) = guard(|| h.read(name, schema).map(|x| x.to_vec()))? {
                        ensure!(b[..] == full[8..full.len() - 8], "{}: dies after {} bytes of operation {}: '{}' reads as valid with {} bytes, the writer stores {}", desc, cut, at, name, b.len(), full.len() - 16);
                    }
                }
                c.nontrivial(fnv(format!("{} {} {}", desc, cut, at).as_bytes()));
                clean(&dir);
            }
        }
        Ok(())
    }

    //
    // C14
    //
    /// Executes a plan under a fault, never letting a writer that was not disturbed go unclosed.
    fn faulty_run(c: &mut Ctx, d: &ArchDesc, m: &Model, dir: &FsPath, plan: &[Step], mode: Mode, begin: fn(&FsPath, Mode)) -> Result<(BTreeMap<Path, usize>, BTreeSet<Path>, u64), String> {
        let st: St = FileResourceStorage::new(dir.to_path_buf());
        let policy = c.rng.below(4);
        begin(dir, mode);
        let mut ex = Exec::new(d, m, st.clone());
        // resources whose final call reported success, with the number of elements in them
        let mut ok: BTreeMap<Path, usize> = BTreeMap::new();
        let mut created: BTreeSet<Path> = BTreeSet::new();
        let mut errors = 0u64;
        let mut retired: BTreeSet<Path> = BTreeSet::new();
        let res = (|| -> V {
            for s in plan {
                let p = match s {
                    Step::Create(p) | Step::Set(p, _) | Step::Start(p) | Step::Push(p, ..) | Step::Close(p) | Step::Draft(p, _) | Step::Abandon(p, _) => p.clone(),
                };
                if !p.is_empty() && !ex.builders.contains_key(&p[..p.len() - 1].to_vec()) {
                    continue; // the enclosing archive could not be created
                }
                if retired.contains(&p) {
                    continue;
                }
                let has_writer = ex.writers.contains_key(&p);
                match s {
                    Step::Push(..) | Step::Close(..) if !has_writer => continue,
                    _ => {}
                }
                let mut tries = 0;
                loop {
                    let before = hits();
                    let lost = write_hits();
                    let r = guard(|| ex.step(s)).map_err(|e| format!("step {}: {}", show_plan(d, std::slice::from_ref(s)), e))?;
                    if let Some(x) = ex.mismatch.take() {
                        return Err(format!("step {}: {}", show_plan(d, std::slice::from_ref(s)), x));
                    }
                    let e = match r {
                        Ok(()) => {
                            ensure!(write_hits() == lost, "step {}: writing to the file system failed during it, but it reports success", show_plan(d, std::slice::from_ref(s)));
                            match s {
                                Step::Create(p) => {
                                    created.insert(p.clone());
                                }
                                Step::Set(p, _) => {
                                    ok.insert(p.clone(), usize::max_value());
                                }
                                Step::Close(p) => {
                                    ok.insert(p.clone(), ex.pushed[p]);
                                }
                                _ => {}
                            }
                            break;
                        }
                        Err(e) => e,
                    };
                    errors += 1;
                    let _ = format!("{:?}", e);
                    ensure!(hits() > 0 || before > 0, "step {} reports {:?} although no fault was injected", show_plan(d, std::slice::from_ref(s)), e);
                    match s {
                        Step::Push(pp, lo, hi) => {
                            // close now, drop now, or try again and then close
                            if policy == 0 && tries < 2 {
                                tries += 1;
                                let k = ex.pushed[pp];
                                let rest = Step::Push(pp.clone(), k.max(*lo), *hi);
                                let lost = write_hits();
                                let r = guard(|| ex.step(&rest)).map_err(|e| format!("append after a failed append: {}", e))?;
                                if r.is_ok() {
                                    ensure!(write_hits() == lost, "append after a failed append: writing to the file system failed during it, but it reports success");
                                    break;
                                }
                            }
                            if policy == 1 {
                                let w = ex.writers.remove(pp);
                                guard(|| drop(w)).map_err(|e| format!("dropping the writer after a failed append: {}", e))?;
                            } else {
                                let lost = write_hits();
                                let r = guard(|| ex.step(&Step::Close(pp.clone()))).map_err(|e| format!("closing the writer after a failed append: {}", e))?;
                                ensure!(r.is_err() || write_hits() == lost, "closing after a failed append: writing to the file system failed during it, but it reports success");
                                if let Some(x) = ex.mismatch.take() {
                                    return Err(format!("closing after a failed append: {}", x));
                                }
                                if r.is_ok() {
                                    ok.insert(pp.clone(), ex.pushed[pp]);
                                }
                            }
                            retired.insert(pp.clone());
                            break;
                        }
                        Step::Set(..) | Step::Start(..) if policy != 3 && tries < 1 => {
                            tries += 1;
                            continue;
                        }
                        _ => {
                            retired.insert(p.clone());
                            break;
                        }
                    }
                }
            }
            Ok(())
        })();
        stop();
        // whatever is still open now is an error of this harness or was reported above
        if res.is_err() {
            std::mem::forget(ex);
            return Err(res.unwrap_err());
        }
        guard(move || drop(ex)).map_err(|e| format!("dropping builders: {}", e))?;
        Ok((ok, created, errors))
    }

    fn prefix_of(d: &ArchDesc, path: &Path) -> (String, ArchDesc) {
        // key prefix and descriptor of the archive at `path`
        let mut pre = String::new();
        let mut cur = d.clone();
        for i in path {
            let r = cur.res[*i].clone();
            pre += r.name;
            pre.push('/');
            cur = match r.kind {
                RKind::Sub(s) => s,
                _ => unreachable!(),
            };
        }
        (pre, cur)
    }

    fn check_ok(c: &mut Ctx, d: &ArchDesc, m: &Model, dir: &FsPath, ok: &BTreeMap<Path, usize>, created: &BTreeSet<Path>) -> V {
        let st: St = FileResourceStorage::new(dir.to_path_buf());
        let read = |k: &str, schema: &str| -> Result<Vec<u8>, String> {
            guard(|| st.read(k, schema).map(|x| x.to_vec()).map_err(|e| format!("'{}' was reported as stored but reading it fails: {}", k, e))).and_then(|x| x)
        };
        for p in created {
            let (pre, s) = prefix_of(d, p);
            let b = read(&format!("{}{}.archive", pre, s.name), s.schema)?;
            ensure!(b.is_empty(), "signature of {} has payload", s.name);
        }
        for (p, n) in ok {
            let (pre, s) = prefix_of(d, &p[..p.len() - 1].to_vec());
            let r = &s.res[p[p.len() - 1]];
            let v = at(d, m, p).1;
            let v = match v {
                ResVal::Vec(v) => ResVal::Vec(v[..(*n).min(v.len())].to_vec()),
                ResVal::Multi(v) => ResVal::Multi(v[..(*n).min(v.len())].to_vec()),
                v => v.clone(),
            };
            let one = ArchDesc { res: vec![r.clone()], ..s.clone() };
            let mut want = Map::new();
            encode_archive(&one, &vec![Some(v)], "", &mut want);
            for (k, v) in want.iter().filter(|(k, _)| !k.ends_with(".schema") && !k.ends_with(".archive")) {
                let schema = String::from_utf8(want[&format!("{}.schema", k)].clone()).unwrap();
                let b = read(&format!("{}{}", pre, k), &schema)?;
                ensure!(b[..] == v[8..v.len() - 8], "'{}{}' was reported as stored but holds {} bytes want {}: {} want {}", pre, k, b.len(), v.len() - 16, hex(&b), hex(&v[8..v.len() - 8]));
                c.count("resources reported as stored and verified", 1);
            }
        }
        Ok(())
    }

    fn c14_plan(c: &mut Ctx, d: &ArchDesc, size: usize, limit: usize) -> V {
        let m = rand_model(d, &mut c.rng, size);
        let plan = rand_plan(d, &m, &mut c.rng);
        let desc = format!("fault: {} {{{}}} {}", d.name, summary(d, &m), show_plan(d, &plan));
        c.case(desc.clone());
        let dir = c.dir();
        let stats = c.rng.chance(1, 3);
        let begin: fn(&FsPath, Mode) = if stats { start_with_stats } else { start };
        let (ok, created, errors) = faulty_run(c, d, &m, &dir, &plan, Mode::Watch, begin).map_err(|e| format!("{}: {}", desc, e))?;
        ensure!(errors == 0, "{}: errors without a fault", desc);
        check_ok(c, d, &m, &dir, &ok, &created).map_err(|e| format!("{}: {}", desc, e))?;
        clean(&dir);
        // count operations again (a fresh directory each time)
        let dir = c.dir();
        begin(&dir, Mode::Watch);
        let r = guard(|| run_plan(d, &m, &dir, &plan));
        let rec = stop();
        r.map_err(|e| format!("{}: {}", desc, e))?;
        clean(&dir);
        let mut points: Vec<Mode> = vec![];
        for (k, (op, len)) in rec.log.iter().enumerate() {
            let errnos: &[i32] = match op {
                Op::Write => &[libc::ENOSPC, libc::EIO, libc::EDQUOT],
                Op::OpenWrite => &[libc::EACCES, libc::EMFILE, libc::ENOSPC],
                Op::OpenRead => &[libc::EMFILE, libc::EACCES, libc::ENOENT],
                Op::Mmap => &[libc::ENOMEM, libc::EACCES],
                Op::Mkdir => &[libc::EACCES, libc::ENOSPC],
                Op::Stat => &[libc::EACCES, libc::EIO, libc::ENOENT],
                _ => &[libc::EIO],
            };
            for (i, stick) in &[(0usize, false), (1, true)] {
                let errno = errnos[(i + c.rng.below(errnos.len())) % errnos.len()];
                points.push(Mode::Fail { at: k, errno, partial: 0, stick: *stick });
                if *op == Op::Write && *len > 1 {
                    let partial = *c.rng.pick(&[1, 7.min(len - 1), 8.min(len - 1), len / 2, len - 1]);
                    points.push(Mode::Fail { at: k, errno, partial, stick: *stick });
                }
            }
        }
        while points.len() > limit {
            let i = c.rng.below(points.len());
            points.swap_remove(i);
        }
        for mode in points {
            let what = format!("{} -- {:?}", desc, mode);
            c.case(what.clone());
            let dir = c.dir();
            let (ok, created, errors) = faulty_run(c, d, &m, &dir, &plan, mode, begin).map_err(|e| format!("{}: {}", what, e))?;
            c.count("faults injected while writing", 1);
            c.count("calls that reported the fault", errors);
            check_ok(c, d, &m, &dir, &ok, &created).map_err(|e| format!("{}: {}", what, e))?;
            // nothing that failed is presented as valid with wrong content
            let st: St = FileResourceStorage::new(dir.clone());
            if let Ok(g) = open_model(d, &st).map_err(|e| format!("{}: open afterwards: {}", what, e))? {
                // elements may be fewer where a writer was closed early, so compare only complete runs
                if errors == 0 {
                    if let Some(x) = diff_models(d, &g, &m) {
                        return Err(format!("{}: no call failed but {}", what, x));
                    }
                }
            } else {
                ensure!(errors > 0, "{}: no call failed but the archive cannot be opened", what);
            }
            if errors > 0 {
                c.nontrivial(fnv(what.as_bytes()));
            }
            clean(&dir);
        }
        Ok(())
    }

    /// Resources of a complete archive are written again, and operations fail meanwhile: a call that succeeds has
    /// stored its value; after one that fails the resource is refused or one of the values it was given; all
    /// others are unchanged; afterwards everything can be written.
    fn c14_rewrite(c: &mut Ctx, d: &ArchDesc, size: usize, limit: usize) -> V {
        let (m, plan, versions, again) = match rewriting(c, d, size) {
            Some(x) => x,
            None => return Ok(()),
        };
        let desc = format!("fault: {} {{{}}} {} complete, then {}", d.name, summary(d, &m), show_plan(d, &plan), show_plan(d, &again));
        c.case(desc.clone());
        let complete = |dir: &FsPath| -> Result<Exec, String> {
            let st: St = FileResourceStorage::new(dir.to_path_buf());
            let mut ex = Exec::new(d, &m, st);
            for s in &plan {
                ex.step(s).map_err(|e| format!("{:?}", e))?;
            }
            Ok(ex)
        };
        let payloads = |m: &Model| {
            let mut x = Map::new();
            encode_archive(d, m, "", &mut x);
            x
        };
        let base = payloads(&m);
        let maps: Vec<Map> = versions.iter().map(|(p, v)| payloads(&with_value(&m, p, v))).collect();
        // the keys each step is about
        let keys: Vec<Vec<String>> = versions
            .iter()
            .map(|(p, v)| {
                let mut prefix = String::new();
                let mut desc = d;
                for i in &p[..p.len() - 1] {
                    prefix += &format!("{}/", desc.res[*i].name);
                    desc = match &desc.res[*i].kind {
                        RKind::Sub(s) => s,
                        _ => unreachable!(),
                    };
                }
                let r = &desc.res[p[p.len() - 1]];
                let key = format!("{}{}", prefix, r.name);
                match v {
                    ResVal::Multi(_) => vec![format!("{}_index", key), key],
                    _ => vec![key],
                }
            })
            .collect();
        let dir = c.dir();
        let log = {
            let mut ex = complete(&dir)?;
            start(&dir, Mode::Watch);
            for s in &again {
                ex.step(s).map_err(|e| format!("{}: without fault: {:?}", desc, e))?;
            }
            let log = stop().log;
            ensure!(ex.mismatch.is_none(), "{}: {:?}", desc, ex.mismatch);
            log
        };
        clean(&dir);
        let mut points: Vec<Mode> = vec![];
        for (k, (op, len)) in log.iter().enumerate() {
            let errnos: &[i32] = match op {
                Op::Write => &[libc::ENOSPC, libc::EIO, libc::EDQUOT],
                Op::OpenWrite | Op::OpenRead => &[libc::EACCES, libc::EMFILE, libc::ENOSPC],
                Op::Mmap => &[libc::ENOMEM, libc::EACCES],
                _ => &[libc::EIO],
            };
            for stick in &[false, true] {
                let errno = *c.rng.pick(errnos);
                let partial = if *op == Op::Write && *len > 1 { *c.rng.pick(&[0, 1, len / 2, len - 1]) } else { 0 };
                points.push(Mode::Fail { at: k, errno, partial, stick: *stick });
            }
        }
        while points.len() > limit {
            let i = c.rng.below(points.len());
            points.swap_remove(i);
        }
        for mode in points {
            let what = format!("{} -- {:?}", desc, mode);
            c.case(what.clone());
            let dir = c.dir();
            let mut ex = complete(&dir).map_err(|e| format!("{}: {}", what, e))?;
            start(&dir, mode);
            let mut ok = vec![];
            for s in &again {
                let r = guard(|| ex.step(s));
                match r {
                    Ok(r) => ok.push(r.is_ok()),
                    Err(e) => {
                        stop();
                        return Err(format!("{}: {:?} panics: {}", what, s, e));
                    }
                }
            }
            stop();
            ensure!(ex.mismatch.is_none(), "{}: {:?}", what, ex.mismatch);
            let errors = ok.iter().filter(|x| !**x).count();
            c.count("faults injected while writing again", 1);
            c.count("calls that reported the fault", errors as u64);
            let st: St = FileResourceStorage::new(dir.clone());
            let mut whole = true;
            for k in base.keys().filter(|k| !k.ends_with(".schema")) {
                let schema = String::from_utf8(base[&format!("{}.schema", k)].clone()).unwrap();
                let about: Vec<usize> = (0..again.len()).filter(|i| keys[*i].contains(k)).collect();
                for h in &[&st, &ex.storage] {
                    let got = guard(|| h.read(k, &schema).map(|x| x.to_vec())).map_err(|e| format!("{}: reading {}: {}", what, k, e))?;
                    match (about.last(), got) {
                        (None, Ok(b)) => ensure!(b[..] == base[k][8..base[k].len() - 8], "{}: '{}' was not written again but has changed", what, k),
                        (None, Err(e)) => return Err(format!("{}: '{}' was not written again but fails with {:?}", what, k, e)),
                        (Some(i), Ok(b)) if ok[*i] => ensure!(b[..] == maps[*i][k][8..maps[*i][k].len() - 8], "{}: '{}' was reported as stored but has other content", what, k),
                        (Some(i), Err(e)) if ok[*i] => return Err(format!("{}: '{}' was reported as stored but fails with {:?}", what, k, e)),
                        (_, Ok(b)) => {
                            let any = b[..] == base[k][8..base[k].len() - 8] || about.iter().any(|i| b[..] == maps[*i][k][8..maps[*i][k].len() - 8]);
                            ensure!(any, "{}: '{}' was not stored but reads as valid with content it never had", what, k);
                        }
                        (_, Err(_)) => whole = false,
                    }
                }
            }
            if whole && errors == 0 {
                c.count("faults without effect", 1);
            }
            // the fault is gone
            for s in &again {
                let r = guard(|| ex.step(s)).map_err(|e| format!("{}: later: {}", what, e))?;
                r.map_err(|e| format!("{}: writing again later fails with {:?}", what, e))?;
            }
            ensure!(ex.mismatch.is_none(), "{}: {:?}", what, ex.mismatch);
            let mut want = m.clone();
            for (p, v) in &versions {
                want = with_value(&want, p, v);
            }
            for h in &[&st, &ex.storage] {
                match open_model(d, h).map_err(|e| format!("{}: later: {}", what, e))? {
                    Ok(g) => {
                        if let Some(x) = diff_models(d, &g, &want) {
                            return Err(format!("{}: written again later: {}", what, x));
                        }
                    }
                    Err(e) => return Err(format!("{}: written again later, but opening fails with {:?}", what, e)),
                }
            }
            if errors > 0 {
                c.nontrivial(fnv(what.as_bytes()));
            }
            drop(ex);
            clean(&dir);
        }
        Ok(())
    }

    fn c14_open(c: &mut Ctx, d: &ArchDesc) -> V {
        let m = rand_model(d, &mut c.rng, 5);
        let desc = format!("fault while opening: {} {{{}}}", d.name, summary(d, &m));
        let dir = c.dir();
        let mut map = Map::new();
        encode_archive(d, &m, "", &mut map);
        let dummy: St = FileResourceStorage::new(dir.clone());
        install(true, &dir, &dummy, &map);
        start_with_stats(&dir, Mode::Watch);
        let st: St = FileResourceStorage::new(dir.clone());
        let r = open_model(d, &st);
        let rec = stop();
        ensure!(r.as_ref().map(|x| x.is_ok()).unwrap_or(false), "{}: cannot open without fault: {:?}", desc, r);
        for k in 0..rec.log.len() {
            for stick in &[false, true] {
                let errno = *c.rng.pick(&[libc::EMFILE, libc::EIO, libc::ENOMEM, libc::EACCES, libc::ENOENT]);
                let what = format!("{} -- operation {} ({:?}) fails with errno {}{}", desc, k, rec.log[k].0, errno, if *stick { " and so do all later ones" } else { "" });
                c.case(what.clone());
                let st: St = FileResourceStorage::new(dir.clone());
                start_with_stats(&dir, Mode::Fail { at: k, errno, partial: 0, stick: *stick });
                let r = open_model(d, &st);
                let rec = stop();
                c.count("faults injected while opening", rec.hits.min(1) as u64);
                match r.map_err(|e| format!("{}: {}", what, e))? {
                    Ok(g) => sound(d, &g, &m).map_err(|e| format!("{}: wrong content: {}", what, e))?,
                    Err(_) => c.count("opens refused", 1),
                }
                // the fault is gone: the same handle works
                match open_model(d, &st).map_err(|e| format!("{}: later open: {}", what, e))? {
                    Ok(g) => {
                        if let Some(x) = diff_models(d, &g, &m) {
                            return Err(format!("{}: later open: {}", what, x));
                        }
                    }
                    Err(e) => return Err(format!("{}: later open through the same handle fails: {}", what, e)),
                }
                c.nontrivial(fnv(what.as_bytes()));
            }
        }
        // single resources, as bytes and checked
        let keys: Vec<String> = map.keys().cloned().collect();
        for _ in 0..4 {
            let key = c.rng.pick(&keys).clone();
            let checked = map.contains_key(&format!("{}.schema", key)) && c.rng.chance(1, 2);
            let opened_before = c.rng.chance(1, 3);
            let read = |st: &St| -> Result<Result<Vec<u8>, String>, String> {
                guard(|| {
                    if checked {
                        let schema = String::from_utf8(map[&format!("{}.schema", key)].clone()).unwrap();
                        st.read(&key, &schema).map(|b| b.to_vec()).map_err(|e| format!("{:?}", e))
                    } else {
                        st.read_resource(&key).map(|b| b.to_vec()).map_err(|e| format!("{:?}", e))
                    }
                })
            };
            let w = &map[&key];
            let want: Vec<u8> = if checked { w[8..w.len() - 8].to_vec() } else { w.clone() };
            for k in 0..64 {
                let errno = *c.rng.pick(&[libc::EMFILE, libc::EIO, libc::ENOMEM, libc::EACCES, libc::ENOENT]);
                let stick = c.rng.chance(1, 2);
                let what = format!(
                    "{} -- reading '{}' (checked: {}, opened before: {}), operation {} fails with errno {}{}",
                    desc, key, checked, opened_before, k, errno, if stick { " and so do all later ones" } else { "" }
                );
                let st: St = FileResourceStorage::new(dir.clone());
                if opened_before {
                    read(&st)?.map_err(|e| format!("{}: without fault: {}", what, e))?;
                }
                start_with_stats(&dir, Mode::Fail { at: k, errno, partial: 0, stick });
                let r = read(&st);
                let rec = stop();
                if rec.hits == 0 {
                    break;
                }
                c.case(what.clone());
                c.count("faults injected while reading", 1);
                match r.map_err(|e| format!("{}: {}", what, e))? {
                    Ok(b) => ensure!(b == want, "{}: reported success with {} bytes, stored are {}", what, b.len(), want.len()),
                    Err(_) => c.count("reads refused", 1),
                }
                let b = read(&st)?.map_err(|e| format!("{}: later read through the same handle fails: {}", what, e))?;
                ensure!(b == want, "{}: later read through the same handle yields {} bytes, stored are {}", what, b.len(), want.len());
                c.nontrivial(fnv(what.as_bytes()));
            }
        }
        clean(&dir);
        Ok(())
    }

    fn c14_benign(c: &mut Ctx, d: &ArchDesc, size: usize) -> V {
        let m = rand_model(d, &mut c.rng, size);
        let plan = rand_plan(d, &m, &mut c.rng);
        let mode = Mode::Benign { seed: c.rng.next(), eintr: c.rng.chance(2, 3), short: c.rng.chance(2, 3) };
        let desc = format!("benign {:?}: {} {{{}}} {}", mode, d.name, summary(d, &m), show_plan(d, &plan));
        c.case(desc.clone());
        let dir = c.dir();
        let st: St = FileResourceStorage::new(dir.clone());
        start(&dir, mode);
        let r = write_all(d, &m, &st, &plan);
        let g = open_model(d, &(FileResourceStorage::new(dir.clone()) as St));
        let rec = stop();
        r.map_err(|e| format!("{}: {}", desc, e))?;
        let mut want = Map::new();
        encode_archive(d, &m, "", &mut want);
        if let Some(x) = diff_maps(&tree(&dir).0, &want) {
            return Err(format!("{}: stored bytes: {}", desc, x));
        }
        match g? {
            Ok(g) => {
                if let Some(x) = diff_models(d, &g, &m) {
                    return Err(format!("{}: {}", desc, x));
                }
            }
            Err(e) => return Err(format!("{}: open failed: {}", desc, e)),
        }
        c.count("interrupted and short operations injected", rec.hits as u64);
        if rec.hits > 0 {
            c.nontrivial(fnv(desc.as_bytes()));
        }
        clean(&dir);
        Ok(())
    }

    /// Writers that flush while they are appended to: every write of such a run fails in turn, and
    /// exactly the calls during which one failed report it.
    fn c14_streams(c: &mut Ctx) -> V {
        for k in 0..c.n(6, 60) {
            let kind = k % 3;
            let n = match kind {
                2 => 8190 + c.rng.below(9000),
                _ => 33 + c.rng.below(70),
            };
            let desc = format!("fault in a {} of {} elements", ["streaming vector of 1 MiB elements,", "multivector of 1 MiB elements,", "multivector with a 4 KiB index element,"][kind], n);
            c.case(desc.clone());
            type Grow<'x> = Box<dyn FnMut(usize) -> io::Result<()> + 'x>;
            type Close<'x> = Box<dyn FnOnce(bool) -> Result<(), String> + 'x>;
            // what happened: elements stored with success, calls that failed, whether close succeeded
            let run = |dir: &FsPath, mode: Mode, policy: usize| -> Result<(Vec<usize>, usize, Option<bool>, Record), String> {
                let st: St = FileResourceStorage::new(dir.to_path_buf());
                start(dir, mode);
                let mut oks = vec![];
                let mut failed = 0;
                let mut closed = None;
                let r = (|| -> V {
                    let lost = |what: &str, before: usize, ok: bool| -> V {
                        ensure!(!ok || write_hits() == before, "{}: writing to the file system failed during it, but it reports success", what);
                        ensure!(ok || hits() > 0, "{}: fails without a fault", what);
                        Ok(())
                    };
                    let cell_v = std::cell::RefCell::new(None);
                    let cell_m = std::cell::RefCell::new(None);
                    let cell_i = std::cell::RefCell::new(None);
                    let (made, mut grow, close): (io::Result<()>, Grow, Close) = match kind {
                        0 => (
                            create_external_vector::<crate::G8>(&*st, "v", "s").map(|v| *cell_v.borrow_mut() = Some(v)),
                            Box::new(|i| cell_v.borrow_mut().as_mut().unwrap().grow().map(|mut e| e.set_f0(i as u64 * 3 + 1))),
                            Box::new(|close| if close { cell_v.borrow_mut().take().unwrap().close().map(|_| ()).map_err(|e| format!("{:?}", e)) } else { drop(cell_v.borrow_mut().take()); Ok(()) }),
                        ),
                        1 => (
                            create_multi_vector::<Idx64, VarC>(&*st, "v", "s").map(|v| *cell_m.borrow_mut() = Some(v)),
                            Box::new(|i| cell_m.borrow_mut().as_mut().unwrap().grow().map(|mut e| e.add_g8().set_f0(i as u64 * 3 + 1))),
                            Box::new(|close| if close { cell_m.borrow_mut().take().unwrap().close().map(|_| ()).map_err(|e| format!("{:?}", e)) } else { drop(cell_m.borrow_mut().take()); Ok(()) }),
                        ),
                        _ => (
                            create_multi_vector::<IdxBig, VarC>(&*st, "v", "s").map(|v| *cell_i.borrow_mut() = Some(v)),
                            Box::new(|i| cell_i.borrow_mut().as_mut().unwrap().grow().map(|mut e| if i % 1000 == 0 { e.add_g3(); })),
                            Box::new(|close| if close { cell_i.borrow_mut().take().unwrap().close().map(|_| ()).map_err(|e| format!("{:?}", e)) } else { drop(cell_i.borrow_mut().take()); Ok(()) }),
                        ),
                    };
                    lost("create", 0, made.is_ok())?;
                    if made.is_err() {
                        failed += 1;
                        return Ok(());
                    }
                    for i in 0..n {
                        let before = write_hits();
                        let r = guard(|| grow(i)).map_err(|e| format!("grow {}: {}", i, e))?;
                        lost(&format!("grow {}", i), before, r.is_ok())?;
                        if r.is_ok() {
                            oks.push(i);
                        } else {
                            failed += 1;
                            if policy != 1 {
                                break;
                            }
                        }
                    }
                    let before = write_hits();
                    let dropping = policy == 2 && failed > 0;
                    let r = guard(|| close(!dropping)).map_err(|e| format!("{}: {}", if dropping { "drop after a failed append" } else { "close" }, e))?;
                    if !dropping {
                        lost("close", before, r.is_ok())?;
                        closed = Some(r.is_ok());
                    }
                    Ok(())
                })();
                let rec = stop();
                r?;
                Ok((oks, failed, closed, rec))
            };
            let dir = c.dir();
            let (_, failed, closed, rec) = run(&dir, Mode::Watch, 0).map_err(|e| format!("{}: {}", desc, e))?;
            ensure!(failed == 0 && closed == Some(true), "{}: fails without a fault", desc);
            clean(&dir);
            let writes: Vec<(usize, usize)> = rec.log.iter().enumerate().filter(|(_, o)| o.0 == Op::Write || o.0 == Op::OpenWrite).map(|(k, o)| (k, o.1)).collect();
            for (at, len) in writes {
                let partial = if c.rng.chance(1, 2) || len < 2 { 0 } else { *c.rng.pick(&[1, len / 2, len - 1]) };
                let mode = Mode::Fail { at, errno: *c.rng.pick(&[libc::ENOSPC, libc::EIO]), partial, stick: c.rng.chance(1, 2) };
                let policy = c.rng.below(3);
                let what = format!("{} -- {:?}, after an error {}", desc, mode, ["close", "append more and close", "drop"][policy]);
                c.case(what.clone());
                let dir = c.dir();
                let (oks, failed, closed, rec) = run(&dir, mode, policy).map_err(|e| format!("{}: {}", what, e))?;
                ensure!(rec.hits > 0, "{}: the fault was not met", what);
                c.count("faults injected into long streams", 1);
                c.count("calls that reported the fault", failed as u64 + (closed == Some(false)) as u64);
                if closed == Some(true) {
                    let st: St = FileResourceStorage::new(dir.clone());
                    let data = st.read("v", "s").map_err(|e| format!("{}: closed with success but cannot be read: {}", what, e))?;
                    let mut k = 0usize;
                    let got = match kind {
                        0 => {
                            let v = ArrayView::<crate::G8>::new(data);
                            ensure!(v.len() == oks.len(), "{}: {} elements stored of {}", what, v.len(), oks.len());
                            oks.iter().all(|i| { k += 1; v.at(k - 1).f0() == *i as u64 * 3 + 1 })
                        }
                        _ => {
                            let index = st.read("v_index", "index(s)").map_err(|e| format!("{}: closed with success but the index cannot be read: {}", what, e))?;
                            index.len() == (oks.len() + 1) * if kind == 1 { 8 } else { 4096 }
                        }
                    };
                    ensure!(got, "{}: closed with success but holds something else", what);
                }
                c.nontrivial(fnv(what.as_bytes()));
                clean(&dir);
            }
        }
        Ok(())
    }

    pub fn c14(c: &mut Ctx) -> V {
        for d in small_archives() {
            for _ in 0..c.n(3, 60) {
                c14_plan(c, &d, 4, usize::max_value())?;
            }
            for _ in 0..c.n(6, 150) {
                c14_open(c, &d)?;
            }
            for _ in 0..c.n(30, 800) {
                c14_benign(c, &d, 12)?;
            }
        }
        for _ in 0..c.n(60, 900) {
            let d = any_desc(c);
            c14_rewrite(c, &d, 8, 24)?;
        }
        if c.kind == Kind::Rel || c.thorough {
            for _ in 0..c.n(4, 40) {
                c14_plan(c, &huge(), 42, 40)?;
            }
            for _ in 0..c.n(1, 12) {
                c14_benign(c, &huge(), 40)?;
            }
            c14_streams(c)?;
        }
        Ok(())
    }
}
#[cfg(feature = "interpose")]
pub use faults::{c13, c14, fork_run};

//
// C15
//
struct Snap {
    files: Map,
    dirs: BTreeSet<String>,
}
fn snap(file: bool, dir: &FsPath, st: &St, keys: &[String]) -> Snap {
    if file {
        let (files, dirs) = tree(dir);
        return Snap { files, dirs };
    }
    let mut files = Map::new();
    for k in keys {
        if let Ok(b) = st.read_resource(k) {
            files.insert(k.clone(), b.to_vec());
        }
    }
    Snap { files, dirs: BTreeSet::new() }
}
fn same_snap(a: &Snap, b: &Snap) -> V {
    if let Some(x) = diff_maps(&b.files, &a.files) {
        return Err(format!("the storage changed: {}", x));
    }
    ensure!(a.dirs == b.dirs, "directories changed: {:?} -> {:?}", a.dirs, b.dirs);
    Ok(())
}
#[cfg(feature = "interpose")]
fn watched<R>(dir: &FsPath, f: impl FnOnce() -> R) -> (R, usize, usize) {
    use crate::interpose::*;
    start(dir, Mode::Watch);
    let r = f();
    let rec = stop();
    let n = rec.log.iter().filter(|o| o.0.mutating()).count();
    (r, n, rec.log.len())
}
#[cfg(not(feature = "interpose"))]
fn watched<R>(_: &FsPath, f: impl FnOnce() -> R) -> (R, usize, usize) {
    (f(), 0, 0)
}

pub fn c15(c: &mut Ctx) -> V {
    // creating where an archive exists
    for _ in 0..c.n(700, 20000) {
        let d = any_desc(c);
        let m = rand_model(&d, &mut c.rng, 5);
        let plan = rand_plan_rewriting(&d, &m, &mut c.rng);
        let file = pick_file(c);
        let k = if c.rng.chance(1, 2) { plan.len() } else { c.rng.range(1, plan.len()) };
        let desc = case_of(c, "create again", &d, &m, file, &format!("after {} of: {}", k, show_plan(&d, &plan)));
        let dir = c.dir();
        let st = new_storage(file, &dir);
        let mut want = Map::new();
        encode_archive(&d, &m, "", &mut want);
        let keys: Vec<String> = want.keys().cloned().collect();
        let mut ex = Exec::new(&d, &m, st.clone());
        let r = (|| -> V {
            for s in &plan[..k] {
                guard(|| ex.step(s))?.map_err(|e| format!("step {:?}: {:?}", s, e))?;
            }
            let before = snap(file, &dir, &st, &keys);
            let handles: Vec<St> = if file { vec![st.clone(), reader(true, &dir, &st)] } else { vec![st.clone()] };
            for h in handles {
                // top level
                let (r, mutating, seen) = watched(&dir, || guard(|| (d.create)(h.clone()).map(|_| ())));
                exists_error(r?, "create")?;
                ensure!(mutating == 0, "the refused create performed {} modifying file-system operations", mutating);
                c.count("file-system operations watched", seen as u64);
            }
            same_snap(&before, &snap(file, &dir, &st, &keys))?;
            // every sub-archive created so far, through its parent's builder
            let paths: Vec<Path> = ex.builders.keys().filter(|p| !p.is_empty()).cloned().collect();
            for p in paths {
                let parent = ex.builders[&p[..p.len() - 1].to_vec()].dup();
                let (r, mutating, _) = watched(&dir, || guard(|| parent.sub(p[p.len() - 1]).map(|_| ())));
                exists_error(r?, &format!("create sub-archive {}", path_name(&d, &p)))?;
                ensure!(mutating == 0, "the refused sub-archive create performed {} modifying file-system operations", mutating);
                c.count("refused sub-archive creations", 1);
            }
            same_snap(&before, &snap(file, &dir, &st, &keys))?;
            c.count("refused creations", 1);
            // the first archive can still be finished
            for s in &plan[k..] {
                guard(|| ex.step(s))?.map_err(|e| format!("step {:?} after the refused create: {:?}", s, e))?;
            }
            match open_model(&d, &st)? {
                Ok(g) => {
                    if let Some(x) = diff_models(&d, &g, &m) {
                        return Err(format!("after a refused create: {}", x));
                    }
                }
                Err(e) => return Err(format!("after a refused create: {}", e)),
            }
            Ok(())
        })();
        if r.is_err() {
            std::mem::forget(ex);
            return r.map_err(|e| format!("{}: {}", desc, e));
        }
        drop(ex);
        c.nontrivial(fnv(desc.as_bytes()));
        clean(&dir);
    }
    // leftovers under the signature's name
    for _ in 0..c.n(150, 4000) {
        let d = any_desc(c);
        let m = rand_model(&d, &mut c.rng, 3);
        let file = pick_file(c);
        let mut map = Map::new();
        encode_archive(&d, &m, "", &mut map);
        let sig = format!("{}.archive", d.name);
        let what = match c.rng.below(5) {
            0 => {
                map.insert(sig.clone(), vec![]);
                "empty signature"
            }
            1 => {
                map.insert(sig.clone(), vec![1, 2, 3]);
                "short signature"
            }
            2 => {
                map.insert(format!("{}.schema", sig), b"other".to_vec());
                "signature of another version"
            }
            3 => {
                map.remove(&format!("{}.schema", sig));
                "signature without schema"
            }
            _ => {
                map.retain(|k, _| *k == sig);
                "nothing but the signature"
            }
        };
        let desc = case_of(c, "create over leftovers", &d, &m, file, what);
        let dir = c.dir();
        let st = new_storage(file, &dir);
        install(file, &dir, &st, &map);
        let keys: Vec<String> = map.keys().cloned().collect();
        let before = snap(file, &dir, &st, &keys);
        let (r, mutating, _) = watched(&dir, || guard(|| (d.create)(reader(file, &dir, &st)).map(|_| ())));
        exists_error(r?, "create").map_err(|e| format!("{}: {}", desc, e))?;
        ensure!(mutating == 0, "{}: the refused create performed {} modifying operations", desc, mutating);
        same_snap(&before, &snap(file, &dir, &st, &keys)).map_err(|e| format!("{}: {}", desc, e))?;
        c.nontrivial(fnv(desc.as_bytes()));
        clean(&dir);
    }
    // reading
    for _ in 0..c.n(1200, 30000) {
        let d = any_desc(c);
        let m = rand_model(&d, &mut c.rng, 4);
        let file = pick_file(c);
        let mut map = Map::new();
        encode_archive(&d, &m, "", &mut map);
        let keys: Vec<String> = map.keys().cloned().collect();
        let (mut structs, mut plain) = (BTreeMap::new(), BTreeSet::new());
        shapes(&d, "", &mut structs, &mut plain);
        let mut what = vec![];
        if c.rng.chance(2, 3) {
            what.push(damage(&mut c.rng, &mut map, &keys, &structs, &plain));
        }
        let gone = c.rng.chance(1, 8);
        if gone {
            map.clear();
            what = vec!["nothing there".to_string()];
        }
        let desc = case_of(c, "read", &d, &m, file, &format!("with {}", what.join(" and ")));
        let dir = c.dir();
        let st = new_storage(file, &dir);
        install(file, &dir, &st, &map);
        let before = snap(file, &dir, &st, &keys);
        let h = reader(file, &dir, &st);
        let (r, mutating, seen) = watched(&dir, || {
            guard(|| {
                if let Ok(a) = (d.open)(h.clone()) {
                    let b = a.dup();
                    let _ = (a.model(), b.debug());
                    drop(a);
                    drop(b);
                }
                for k in &keys {
                    let _ = h.exists(k);
                    let _ = h.read(k, "no such schema");
                    let _ = h.read_resource(k);
                    let _ = h.subdir("nosuchdir").exists(k);
                    let _ = h.subdir("nosuchdir").read_resource(k);
                }
                let _ = h.read("nosuchkey", "x");
                let _ = h.exists("nosuchkey");
            })
        });
        r.map_err(|e| format!("{}: {}", desc, e))?;
        ensure!(mutating == 0, "{}: reading performed {} modifying file-system operations", desc, mutating);
        same_snap(&before, &snap(file, &dir, &st, &keys)).map_err(|e| format!("{}: reading: {}", desc, e))?;
        if file && gone {
            ensure!(!dir.exists(), "{}: reading created the directory", desc);
        }
        ensure!(!guard(|| h.exists("nosuchkey") || h.subdir("nosuchdir").exists("x"))?, "{}: a key that was only read exists", desc);
        c.count("file-system operations watched", seen as u64);
        c.count("reads without side effects", 1);
        c.nontrivial(fnv(desc.as_bytes()));
        clean(&dir);
    }
    Ok(())
}
fn exists_error(r: Result<(), Rse>, what: &str) -> V {
    match r {
        Ok(()) => Err(format!("{} succeeded although the archive exists", what)),
        Err(Rse::Io(ref e, _)) if e.kind() == io::ErrorKind::AlreadyExists => Ok(()),
        Err(e) => Err(format!("{} failed with {} instead of already-exists", what, e)),
    }
}

//
// C16
//
fn readable(st: &St, name: &str, schema: &str) -> Result<Option<Vec<u8>>, String> {
    guard(|| st.read(name, schema).ok().map(|x| x.to_vec()))
}
pub fn c16(c: &mut Ctx) -> V {
    for k in 0..c.n(800, 25000) {
        let multi = c.rng.chance(1, 2);
        let file = pick_file(c);
        let big = k % 100 == 99 && !c.slow() && c.kind != Kind::Asan;
        let n = if big { c.rng.range(33, 70) } else { c.rng.below(if c.slow() { 4 } else { 12 }) };
        let end = c.rng.below(5);
        let desc = format!(
            "{} with {} {} on {} storage, then {}",
            if multi { "multivector" } else { "streaming vector" },
            n,
            if big { "appends of 1 MiB" } else { "appends" },
            if file { "file" } else { "memory" },
            ["dropped", "dropped while unwinding", "closed", "two writers dropped", "dropped while unwinding with another writer"][end]
        );
        c.case(desc.clone());
        let dir = c.dir();
        let st = new_storage(file, &dir);
        let seed = c.rng.next();
        let mut log: Vec<(u64, Vec<u8>)> = vec![];
        let r = if multi && big {
            c16_multi::<Idx64, VarC>(c, &st, file, &dir, n, seed, end, 5)
        } else if multi {
            match c.rng.below(3) {
                0 => c16_multi::<Idx32, VarA>(c, &st, file, &dir, n, seed, end, 0),
                1 => c16_multi::<Idx40, VarB>(c, &st, file, &dir, n, seed, end, 0),
                _ => c16_multi::<Idx33, VarS>(c, &st, file, &dir, n, seed, end, 0),
            }
        } else if big {
            c16_vec::<crate::G8>(c, &st, file, &dir, n, seed, end)
        } else {
            match c.rng.below(4) {
                0 => c16_vec::<crate::G0>(c, &st, file, &dir, n, seed, end),
                1 => c16_vec::<crate::G6>(c, &st, file, &dir, n, seed, end),
                2 => c16_vec::<crate::G2>(c, &st, file, &dir, n, seed, end),
                _ => c16_vec::<crate::G3>(c, &st, file, &dir, n, seed, end),
            }
        };
        log.clear();
        r.map_err(|e| format!("{}: {}", desc, e))?;
        c.count(["dropped unclosed", "dropped while unwinding", "closed", "two writers dropped", "dropped while unwinding with another writer"][end], 1);
        c.nontrivial(fnv(format!("{} {}", desc, seed).as_bytes()));
        clean(&dir);
    }
    // inside whole archives: abandoned at any step
    for _ in 0..c.n(200, 6000) {
        let d = any_desc(c);
        let m = rand_model(&d, &mut c.rng, 5);
        let plan = rand_plan(&d, &m, &mut c.rng);
        let file = pick_file(c);
        let k = c.rng.range(1, plan.len());
        let desc = case_of(c, "abandoned", &d, &m, file, &format!("after {} of: {}", k, show_plan(&d, &plan)));
        let dir = c.dir();
        let st = new_storage(file, &dir);
        let unwinding = c.rng.chance(1, 2);
        let mut open = 0;
        let mut unfinished: Vec<Path> = vec![];
        let r = guard(|| {
            let mut ex = Exec::new(&d, &m, st.clone());
            for s in &plan[..k] {
                if let Err(e) = ex.step(s) {
                    std::mem::forget(ex);
                    panic!("HARNESS step {:?}: {:?}", s, e);
                }
            }
            open = ex.writers.len();
            unfinished = ex.writers.keys().cloned().collect();
            if unwinding {
                panic!("the original panic");
            }
            drop(ex);
        });
        match (&r, open, unwinding) {
            (Err(e), _, _) if e.contains("HARNESS") => return Err(format!("{}: {}", desc, e)),
            (Err(e), _, true) => ensure!(e.contains("the original panic"), "{}: unwinding ended in {}", desc, e),
            (Ok(()), 0, false) => {}
            (Ok(()), n, false) => return Err(format!("{}: {} unclosed writers were dropped silently", desc, n)),
            (Err(e), 0, false) => return Err(format!("{}: dropping finished writers: {}", desc, e)),
            (Err(_), _, false) => {}
            (Ok(()), _, true) => unreachable!(),
        }
        let h = reader(file, &dir, &st);
        for p in unfinished {
            let r = at(&d, &m, &p).0;
            let key = path_name(&d, &p);
            let (dirn, name) = match key.rfind('/') {
                Some(i) => (h.subdir(&key[..i]), key[i + 1..].to_string()),
                None => (h.clone(), key.clone()),
            };
            ensure!(readable(&dirn, &name, r.schema)?.is_none(), "{}: the unclosed '{}' reads as valid", desc, key);
            c.count("abandoned resources checked", 1);
        }
        c.nontrivial(fnv(desc.as_bytes()));
        clean(&dir);
    }
    Ok(())
}

fn finish_open<W, R>(w: W, st: &St, end: usize, close: impl FnOnce(W) -> Result<R, String>, other: impl FnOnce(&St) -> Box<dyn std::any::Any>) -> Result<Option<R>, String> {
    match end {
        0 => {
            let r = guard(move || drop(w));
            ensure!(r.is_err(), "dropped without close, but no panic");
            Ok(None)
        }
        1 => {
            let r: Result<(), String> = guard(move || {
                let _w = w;
                panic!("the original panic 4711");
            });
            let e = r.unwrap_err();
            ensure!(e.contains("the original panic 4711"), "unwinding ended in {}", e);
            Ok(None)
        }
        2 => guard(move || close(w))?.map(Some),
        3 => {
            let o = other(st);
            let r = guard(move || {
                let _o = o;
                let _w = w;
            });
            ensure!(r.is_err(), "two writers dropped without close, but no panic");
            Ok(None)
        }
        _ => {
            let o = other(st);
            let r: Result<(), String> = guard(move || {
                let _w = w;
                let _o = o;
                let v: Vec<u8> = vec![];
                let _ = v[std::env::args().count() + 5];
            });
            let e = r.unwrap_err();
            ensure!(e.contains("out of bounds"), "unwinding ended in {}", e);
            Ok(None)
        }
    }
}

struct OtherVec(#[allow(dead_code)] Option<flatdata::ExternalVector<'static, crate::G0>>, Option<St>);
impl Drop for OtherVec {
    fn drop(&mut self) {
        // the vector borrows the storage: drop it first, also when that panics
        struct Keep(Option<St>);
        let _keep = Keep(self.1.take());
        let v = self.0.take();
        drop(v);
    }
}
fn other_vec(st: &St) -> Box<dyn std::any::Any> {
    let keep = st.clone();
    let r: &'static dyn ResourceStorage = unsafe { std::mem::transmute::<&dyn ResourceStorage, &'static dyn ResourceStorage>(&*keep) };
    let mut v = create_external_vector::<crate::G0>(r, "other", "other schema").expect("second writer");
    v.grow().expect("grow");
    Box::new(OtherVec(Some(v), Some(keep)))
}

fn elems<T: D>(seed: u64, i: usize) -> Vals {
    let mut r = Rng(seed ^ (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15));
    rand_vals(fields_of::<T>(), &mut r)
}

fn c16_vec<T: D>(c: &mut Ctx, st: &St, file: bool, dir: &FsPath, n: usize, seed: u64, end: usize) -> V {
    let never = |c: &mut Ctx, when: &str| -> V {
        for h in &[reader(file, dir, st), st.clone()] {
            if let Some(b) = readable(h, "v", "the schema")? {
                return Err(format!("{}: the unclosed resource reads as valid ({} bytes)", when, b.len()));
            }
            c.count("reads of unclosed resources refused", 1);
        }
        Ok(())
    };
    let mut v = create_external_vector::<T>(&**st, "v", "the schema").map_err(|e| e.to_string())?;
    let r = (|| -> V {
        never(c, "after creation")?;
        for i in 0..n {
            {
                let mut m = v.grow().map_err(|e| e.to_string())?;
                set_all::<T>(&mut m, &elems::<T>(seed, i));
            }
            if i < 3 || c.rng.chance(1, 8) || i + 1 == n {
                never(c, &format!("after {} appends", i + 1))?;
            }
            ensure!(v.is_open(), "not open after {} appends", i + 1);
        }
        Ok(())
    })();
    if r.is_err() {
        std::mem::forget(v);
        return r;
    }
    let want: Vec<Vals> = (0..n).map(|i| elems::<T>(seed, i)).collect();
    let got = finish_open(v, st, end, |v| v.close().map(|x| (x.as_bytes().to_vec(), view_values::<T>(&x))).map_err(|e| format!("close: {}", e)), other_vec)?;
    match got {
        None => never(c, "after the writer was dropped"),
        Some((bytes, vals)) => {
            ensure!(vals == want, "view returned by close: {} elements, appended {}", vals.len(), n);
            let mut enc = vec![];
            for x in &want {
                enc.extend_from_slice(&encode(fields_of::<T>(), size_of::<T>(), x));
            }
            ensure!(bytes == enc, "view returned by close has other bytes than appended");
            let b = readable(&reader(file, dir, st), "v", "the schema")?.ok_or("closed successfully but not readable")?;
            ensure!(b == enc, "stored resource differs from the appended elements");
            Ok(())
        }
    }
}

fn c16_multi<I: IdxInfo, T: Var>(c: &mut Ctx, st: &St, file: bool, dir: &FsPath, n: usize, seed: u64, end: usize, fixed: u8) -> V {
    let vars = <T as VarDyn>::variants();
    let item = |i: usize| -> Item {
        let mut r = Rng(seed ^ (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15));
        if fixed != 0 {
            let cd = vars.iter().find(|v| v.0 == 3).unwrap();
            return vec![(3, cd.1.rand(&mut r))];
        }
        rand_item(&vars, &mut r, 3)
    };
    let never = |c: &mut Ctx, when: &str| -> V {
        for h in &[reader(file, dir, st), st.clone()] {
            for (k, s) in &[("v", "the schema"), ("v_index", "index(the schema)")] {
                if let Some(b) = readable(h, k, s)? {
                    return Err(format!("{}: the unclosed resource '{}' reads as valid ({} bytes)", when, k, b.len()));
                }
            }
            c.count("reads of unclosed resources refused", 1);
        }
        Ok(())
    };
    let mut v = create_multi_vector::<I, T>(&**st, "v", "the schema").map_err(|e| e.to_string())?;
    let r = (|| -> V {
        never(c, "after creation")?;
        for i in 0..n {
            {
                let mut m = v.grow().map_err(|e| e.to_string())?;
                for (t, x) in &item(i) {
                    <T as VarDyn>::add(&mut m, *t, x);
                }
            }
            if i < 3 || c.rng.chance(1, 8) || i + 1 == n {
                never(c, &format!("after {} appends", i + 1))?;
            }
        }
        Ok(())
    })();
    if r.is_err() {
        std::mem::forget(v);
        return r;
    }
    let want: Vec<Item> = (0..n).map(item).collect();
    let got = finish_open(v, st, end, |v| v.close().map(|x| read_multi::<I, T>(&x)).map_err(|e| format!("close: {}", e)), other_vec)?;
    match got {
        None => never(c, "after the writer was dropped"),
        Some(vals) => {
            ensure!(vals == want, "view returned by close: {} items, appended {}", vals.len(), n);
            let (wi, wd) = multi_payloads(&vars, I::ISIZE, I::IBITS, &want);
            let h = reader(file, dir, st);
            let i = readable(&h, "v_index", "index(the schema)")?.ok_or("closed successfully but index not readable")?;
            let b = readable(&h, "v", "the schema")?.ok_or("closed successfully but data not readable")?;
            ensure!(i == wi && b == wd, "stored resource differs from the appended items");
            Ok(())
        }
    }
}
