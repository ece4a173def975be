//! C26 what writing costs: bytes and calls that reach the file system, bytes of heap ever asked for
//! and processor time, compared with the amount of data written.
use crate::alloc::total;
use crate::archives::*;
use crate::archprops::*;
use crate::codec::*;
use crate::cost::Zeros;
use crate::ctx::*;
use crate::ensure;
use crate::interpose::{self, Mode};
use crate::rng::{fnv, Rng};
use flatdata::*;
use std::path::Path as FsPath;

fn cpu_us() -> u64 {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_THREAD, &mut u);
        u.ru_utime.tv_sec as u64 * 1_000_000 + u.ru_utime.tv_usec as u64
    }
}
fn bytes_read() -> u64 {
    let io = std::fs::read_to_string("/proc/self/io").unwrap_or_default();
    io.lines().find_map(|l| l.strip_prefix("rchar: ")).and_then(|x| x.parse().ok()).unwrap_or(0)
}

/// What was written so far.
#[derive(Clone, Copy, Debug, Default)]
struct Done {
    bytes: u64,
    /// elements and items
    elems: u64,
    /// files, with their schemas (two per resource)
    files: u64,
}
struct Meter {
    what: String,
    cpu: u64,
    heap: u64,
    read: u64,
    /// heap that may be asked for: bytes per byte written, and on top of that
    factor: u64,
    slack: u64,
}
impl Meter {
    fn start(what: String, dir: &FsPath, mode: Mode, factor: u64, slack: u64) -> Meter {
        let m = Meter { what, cpu: cpu_us(), heap: total() as u64, read: bytes_read(), factor, slack };
        interpose::start_with_stats(dir, mode);
        m
    }
    /// Cheap enough to be asked again and again while writing.
    fn check(&self, d: Done) -> V {
        let t = interpose::totals();
        let over = |n: &str, got: u64, limit: u64| -> V {
            ensure!(
                got <= limit,
                "{}: {} {} for {} bytes in {} elements and {} files (limit {})",
                self.what,
                got,
                n,
                d.bytes,
                d.elems,
                d.files,
                limit
            );
            Ok(())
        };
        // the schemas are part of the bytes
        over("bytes written to files", t.written, d.bytes + d.bytes / 20 + 64 * d.files)?;
        over("write operations", t.writes() as u64, d.bytes / 4096 + 32 * d.files + 8)?;
        over("other file-system operations", t.others() as u64, d.bytes / 4096 + 24 * d.files + 24)?;
        over("bytes of heap allocated in total", total() as u64 - self.heap, self.factor * d.bytes + self.slack + 64 * d.elems + 16384 * d.files)?;
        over("microseconds of processor time in user mode", cpu_us() - self.cpu, 1_000_000 + d.bytes / 100 + 3 * d.elems + 1000 * d.files)
    }
    fn end(self, c: &mut Ctx, d: Done) -> V {
        self.check(d)?;
        let t = interpose::totals();
        let rec = interpose::stop();
        drop(rec);
        let read = bytes_read() - self.read;
        ensure!(read <= d.bytes + (1 << 20), "{}: {} bytes read by system calls while writing {}", self.what, read, d.bytes);
        c.count("metered runs", 1);
        c.count("KiB of payload metered", d.bytes >> 10);
        c.count("elements metered", d.elems);
        c.count("file-system operations metered", (t.writes() + t.others()) as u64);
        let used = (cpu_us() - self.cpu) / 1000;
        let limit = (1_000_000 + d.bytes / 100 + 3 * d.elems + 1000 * d.files) / 1000;
        let k = "largest part of the processor time allowed that was used, in percent";
        let old = c.counters.get(k).cloned().unwrap_or(0);
        c.counters.insert(k.into(), old.max(100 * used / limit));
        Ok(())
    }
}

/// Runs `f(i)` for all elements, checking the meter often.
fn append(c: &mut Ctx, m: &Meter, n: usize, size: usize, files: u64, schema: u64, mut f: impl FnMut(usize) -> V) -> V {
    let every = (1 + (1 << 20) / size.max(1)).min(4096);
    for i in 0..n {
        f(i).map_err(|e| format!("{}: append {}: {}", m.what, i, e))?;
        if i % every == 0 {
            PROGRESS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            m.check(Done { bytes: (i + 1) as u64 * size as u64 + schema, elems: (i + 1) as u64, files })?;
        }
    }
    let _ = c;
    Ok(())
}

fn stream_vector<T: D>(c: &mut Ctx, total: usize, file: bool) -> V {
    let size = <T as Struct>::SIZE_IN_BYTES;
    let n = total / size;
    c.case(format!("streaming vector of {} x {} bytes on {} storage", n, size, if file { "file" } else { "memory" }));
    let dir = c.dir();
    let st = new_storage(file, &dir);
    let m = Meter::start(c.cur.clone(), &dir, Mode::Sparse, if file { 4 } else { 12 }, 256 << 20);
    let r = guard(|| -> V {
        let mut w = create_external_vector::<T>(&*st, "v", "s").map_err(|e| e.to_string())?;
        let r = append(c, &m, n, size, 2, 1, |i| {
            let mut x = w.grow().map_err(|e| e.to_string())?;
            if i % 1000 == 0 {
                <T as Dyn>::set(&mut x, 0, 1);
            }
            Ok(())
        });
        if r.is_err() {
            std::mem::forget(w);
            return r;
        }
        let v = w.close().map_err(|e| e.to_string())?;
        ensure!(v.len() == n, "{} elements instead of {}", v.len(), n);
        Ok(())
    });
    r.and_then(|x| x)?;
    m.end(c, Done { bytes: (n * size) as u64 + 1, elems: n as u64, files: 2 })?;
    drop(st);
    clean(&dir);
    c.nontrivial_cur();
    Ok(())
}

fn stream_multi<I: IdxInfo, T: Var>(c: &mut Ctx, n: usize, tags: &[u8], file: bool) -> V {
    let vars = <T as VarDyn>::variants();
    let item: Item = tags.iter().map(|t| (*t, vec![0; vars.iter().find(|v| v.0 == *t).unwrap().1.fields().len()])).collect();
    let size: usize = I::ISIZE + tags.iter().map(|t| 1 + vars.iter().find(|v| v.0 == *t).unwrap().1.size()).sum::<usize>();
    c.case(format!("streaming multivector of {} items of {} elements, {} bytes with the index, on {} storage", n, tags.len(), size, if file { "file" } else { "memory" }));
    let dir = c.dir();
    let st = new_storage(file, &dir);
    let m = Meter::start(c.cur.clone(), &dir, Mode::Sparse, if file { 4 } else { 12 }, 512 << 20);
    // setting the fields of the elements counts as well
    let weight = 1 + tags.len() as u64;
    let r = guard(|| -> V {
        let mut w = create_multi_vector::<I, T>(&*st, "v", "s").map_err(|e| e.to_string())?;
        let r = append(c, &m, n, size, 4, 16, |_| {
            let mut x = w.grow().map_err(|e| e.to_string())?;
            for (t, v) in &item {
                <T as VarDyn>::add(&mut x, *t, v);
            }
            Ok(())
        });
        if r.is_err() {
            std::mem::forget(w);
            return r;
        }
        let v = w.close().map_err(|e| e.to_string())?;
        ensure!(v.len() == n, "{} items instead of {}", v.len(), n);
        Ok(())
    });
    r.and_then(|x| x)?;
    m.end(c, Done { bytes: (n * size + I::ISIZE) as u64 + 16, elems: n as u64 * weight, files: 4 })?;
    drop(st);
    clean(&dir);
    c.nontrivial_cur();
    Ok(())
}

fn vectors<T: D>(c: &mut Ctx, bytes: usize) -> V {
    let size = <T as Struct>::SIZE_IN_BYTES;
    let n = bytes / size;
    let dir = c.dir();
    for how in 0..5 {
        let name = ["grown", "reserved and grown", "reserved one by one and grown", "created with its length", "created, cloned, then grown"][how];
        c.case(format!("vector of {} x {} bytes, {}", n, size, name));
        let m = Meter::start(c.cur.clone(), &dir, Mode::Watch, 8, 1 << 20);
        let r = guard(|| -> V {
            let mut v = match how {
                3 => Vector::<T>::with_len(n),
                4 => {
                    let a = Vector::<T>::with_len(n / 2);
                    a.clone()
                }
                _ => Vector::<T>::new(),
            };
            if how == 1 {
                v.reserve(n);
            }
            let before = crate::alloc::calls();
            if how == 3 {
                for i in 0..n {
                    <T as Dyn>::set(&mut v.at_mut(i), 0, 1);
                    if i % 4096 == 0 {
                        m.check(Done { bytes: (n * size) as u64, elems: (i + 1) as u64, files: 0 })?;
                    }
                }
            } else {
                let k = n - v.len();
                let (b, from) = (v.size_in_bytes(), v.len());
                append(c, &m, k, size, 0, if how == 1 { (n * size) as u64 } else { b as u64 }, |i| {
                    if how == 2 {
                        v.reserve(1);
                    }
                    <T as Dyn>::set(&mut v.grow(), 0, 1);
                    ensure!(i % 512 != 0 || v.len() == from + i + 1, "the vector has length {} after {} elements", v.len(), from + i + 1);
                    Ok(())
                })?;
            }
            if how == 1 {
                let calls = crate::alloc::calls() - before;
                ensure!(calls == 0, "{}: {} allocations for appending the {} elements for which there is room", m.what, calls, n);
            }
            ensure!(v.len() == n && v.as_bytes().len() == n * size, "the vector has length {} instead of {}", v.len(), n);
            // looking at it does not copy it
            let h = total();
            let mut sum = 0;
            for i in 0..2000.min(n) {
                let view = v.as_view();
                sum += view.len() + v.as_bytes().len() + AsRef::<[u8]>::as_ref(&v).len() + v.is_empty() as usize;
                ensure!(i % 100 != 0 || !format!("{:?}", v).is_empty(), "nothing printed");
            }
            ensure!(sum > 0 || n == 0, "lengths");
            ensure!(total() - h < 4 << 20, "{}: looking at the vector allocates {} bytes", m.what, total() - h);
            Ok(())
        });
        r.and_then(|x| x)?;
        m.end(c, Done { bytes: (n * size) as u64, elems: n as u64, files: 0 })?;
        c.nontrivial_cur();
    }
    Ok(())
}

/// Everything at once.
fn sets(c: &mut Ctx, n: usize) -> V {
    let dir = c.dir();
    let mut mem = Zeros::new(n)?;
    let data: &[u8] = &*mem.all();
    for file in &[true, false] {
        let data = if *file { data } else { &data[..n.min(48 << 20)] };
        let n = data.len();
        for how in 0..4 {
            let what = ["raw resource", "vector of 1 byte elements", "vector of 5 byte elements", "resource of the storage"][how];
            c.case(format!("{} of {} bytes written at once on {} storage", what, n, if *file { "file" } else { "memory" }));
            let st = new_storage(*file, &dir);
            let b = <PureBuilder as ArchiveBuilder>::new(st.clone()).map_err(|e| e.to_string())?;
            let m = Meter::start(c.cur.clone(), &dir, Mode::Sparse, if *file { 3 } else { 10 }, 1 << 20);
            let r = guard(|| match how {
                0 => b.set_p6(data),
                1 => b.set_p2(&ArrayView::<crate::G3>::new(data)),
                2 => b.set_p3(&ArrayView::<crate::G9>::new(&data[..n / 5 * 5])),
                _ => st.write("x", "schema", data),
            })?;
            r.map_err(|e| format!("{}: {}", c.cur, e))?;
            m.end(c, Done { bytes: n as u64 + 8, elems: 0, files: 2 })?;
            c.nontrivial_cur();
            drop(b);
            drop(st);
            clean(&dir);
        }
    }
    drop(mem);
    Ok(())
}

/// Many resources, directories and archives in one storage.
fn many(c: &mut Ctx, n: usize, file: bool) -> V {
    let dir = c.dir();
    let st = new_storage(file, &dir);
    for how in 0..5 {
        let what = ["resources", "resources in directories of their own", "archives", "streaming vectors", "rewritten resources"][how];
        c.case(format!("{} {} on one {} storage", n, what, if file { "file" } else { "memory" }));
        let m = Meter::start(c.cur.clone(), &dir, Mode::Watch, 64, 4 << 20);
        let r = guard(|| -> V {
            for i in 0..n {
                let e = |e: &dyn std::fmt::Display| format!("{}: {}: {}", m.what, i, e);
                let files = match how {
                    0 => {
                        st.write(&format!("r{}", i), "schema", b"0123456789").map_err(|x| e(&x))?;
                        2
                    }
                    1 => {
                        st.write(&format!("d{}/r", i), "schema", b"0123456789").map_err(|x| e(&x))?;
                        2
                    }
                    2 => {
                        let b = <LeafBuilder as ArchiveBuilder>::new(st.subdir(&format!("a{}", i))).map_err(|x| e(&x))?;
                        b.set_blob(b"blob").map_err(|x| e(&x))?;
                        4
                    }
                    3 => {
                        let name = format!("v{}", i);
                        let mut w = create_external_vector::<crate::G9>(&*st, &name, "schema").map_err(|x| e(&x))?;
                        w.grow().map_err(|x| e(&x))?.set_f0(1);
                        let v = w.close().map_err(|x| e(&x))?;
                        ensure!(v.len() == 1, "length");
                        2
                    }
                    _ => {
                        st.write("again", "schema", b"0123456789").map_err(|x| e(&x))?;
                        2
                    }
                };
                if i % 64 == 0 {
                    m.check(Done { bytes: 64 * (i + 1) as u64, elems: 0, files: files * (i + 1) as u64 })?;
                }
            }
            Ok(())
        });
        r.and_then(|x| x)?;
        m.end(c, Done { bytes: 64 * n as u64, elems: 0, files: n as u64 * if how == 2 { 4 } else { 2 } })?;
        c.nontrivial_cur();
    }
    drop(st);
    clean(&dir);
    Ok(())
}

/// Whole histories, then opening: the operations on files depend on the number of files only.
fn histories(c: &mut Ctx) -> V {
    let d = any_desc(c);
    let m = rand_model(&d, &mut c.rng, 12);
    let plan = rand_plan(&d, &m, &mut c.rng);
    let what = case_of(c, "cost of", &d, &m, true, &show_plan(&d, &plan));
    let dir = c.dir();
    let mut map = Map::new();
    encode_archive(&d, &m, "", &mut map);
    let done = Done { bytes: map.values().map(|v| v.len() as u64).sum(), elems: 0, files: map.len() as u64 };
    let st = new_storage(true, &dir);
    let meter = Meter::start(what.clone(), &dir, Mode::Watch, 1 << 20, 1 << 40);
    write_all(&d, &m, &st, &plan)?;
    meter.end(c, done)?;
    // opening by somebody else
    let st = reader(true, &dir, &st);
    interpose::start_with_stats(&dir, Mode::Watch);
    let h = total();
    let r = guard(|| (d.open)(st.clone()).map(|a| drop(a)))?;
    let heap = total() - h;
    let t = interpose::totals();
    interpose::stop();
    r.map_err(|e| format!("{}: {}", what, e))?;
    let files = map.len();
    // optional parts that are absent are asked for, too
    let all = count_resources(&d);
    ensure!(t.written == 0 && t.writes() == 0, "{}: opening writes", what);
    ensure!(t.others() <= 12 * files + 8 * all + 24, "{}: opening takes {} file-system operations for {} files", what, t.others(), files);
    ensure!(heap <= (files + all) * 16384 + (64 << 10), "{}: opening allocates {} bytes for {} files", what, heap, files);
    c.count("openings metered", 1);
    c.nontrivial(fnv(what.as_bytes()));
    drop(st);
    clean(&dir);
    Ok(())
}
fn count_resources(d: &ArchDesc) -> usize {
    2 + d.res
        .iter()
        .map(|r| match &r.kind {
            RKind::Sub(s) => 2 + count_resources(s),
            RKind::Multi { .. } => 4,
            _ => 2,
        })
        .sum::<usize>()
}

pub fn c26(c: &mut Ctx) -> V {
    let k = if c.thorough { 4 } else { 1 };
    let mib = 1usize << 20;
    for _ in 0..c.n(400, 6000) {
        histories(c)?;
    }
    for file in &[true, false] {
        let unit = if *file { 8 * mib } else { mib } * k;
        stream_vector::<crate::G3>(c, unit, *file)?;
        stream_vector::<crate::G9>(c, 4 * unit, *file)?;
        stream_vector::<crate::G2>(c, 24 * unit, *file)?;
        stream_vector::<crate::G26>(c, 40 * unit, *file)?;
        stream_vector::<crate::G7>(c, 40 * unit, *file)?;
        stream_multi::<Idx24, VarS>(c, unit / 2, &[], *file)?;
        stream_multi::<Idx33, VarS>(c, unit, &[1], *file)?;
        stream_multi::<Idx40, VarB>(c, unit / 2, &[0, 255], *file)?;
        stream_multi::<Idx64, VarE>(c, unit / 64, &[2, 6, 2], *file)?;
        stream_multi::<IdxBig, VarS>(c, unit / 128, &[1], *file)?;
        stream_multi::<Idx64, VarC>(c, unit / 2048, &[4, 5], *file)?;
        many(c, if c.thorough { 6000 } else { 1500 }, *file)?;
    }
    vectors::<crate::G3>(c, 2 * mib * k)?;
    vectors::<crate::G9>(c, 8 * mib * k)?;
    vectors::<crate::G2>(c, 32 * mib * k)?;
    vectors::<crate::G26>(c, 64 * mib * k)?;
    sets(c, 256 * mib * k)?;
    let _: Option<Rng> = None;
    Ok(())
}
