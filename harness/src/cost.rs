//! C23 what reading costs, C24 giving back what was used: counting allocator, processor time, page
//! faults, bytes read by system calls, open descriptors and mappings.
use crate::alloc::{current, peak, reset_peak};
use crate::archives::*;
use crate::archprops::*;
use crate::codec::*;
use crate::ctx::*;
use crate::ensure;
use crate::interpose::{self, Mode};
use crate::rng::{fnv, Rng};
use flatdata::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fs::File;
use std::io::{Seek, SeekFrom, Write};
use std::path::Path as FsPath;

/// What the process has used so far.
#[derive(Clone, Copy, Debug)]
struct Used {
    cpu_ms: u64,
    faults: u64,
    read: u64,
    file_kib: u64,
}
fn used() -> Used {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_THREAD, &mut u);
        let ms = |t: libc::timeval| t.tv_sec as u64 * 1000 + t.tv_usec as u64 / 1000;
        let io = std::fs::read_to_string("/proc/self/io").unwrap_or_default();
        let read = io.lines().find_map(|l| l.strip_prefix("rchar: ")).and_then(|x| x.parse().ok()).unwrap_or(0);
        let status = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
        let file_kib = status.lines().find_map(|l| l.strip_prefix("RssFile:")).and_then(|x| x.split_whitespace().next()).and_then(|x| x.parse().ok()).unwrap_or(0);
        Used { file_kib, cpu_ms: ms(u.ru_utime), faults: (u.ru_minflt + u.ru_majflt) as u64, read }
    }
}

struct Limits {
    heap: usize,
    cpu_ms: u64,
    faults: u64,
    read: u64,
    /// growth of the part of mapped files that is in memory
    file_kib: u64,
}
/// Runs `f` and compares what it used with the limits.
fn within<R>(c: &mut Ctx, what: &str, l: Limits, f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    let before = used();
    let base = current();
    reset_peak();
    let r = guard(f);
    let heap = peak().saturating_sub(base);
    let after = used();
    let (cpu, faults, read) = (after.cpu_ms - before.cpu_ms, after.faults - before.faults, after.read - before.read);
    let r = r.and_then(|x| x).map_err(|e| format!("{}: {}: {}", c.cur, what, e))?;
    let over = |n: &str, got: u64, limit: u64| -> V {
        ensure!(got <= limit, "{}: {} takes {} {} (limit {}, which does not depend on the amount of data)", c.cur, what, got, n, limit);
        Ok(())
    };
    over("bytes of heap", heap as u64, l.heap as u64)?;
    over("ms of processor time in user mode", cpu, l.cpu_ms)?;
    over("page faults", faults, l.faults)?;
    over("KiB of files in memory", after.file_kib.saturating_sub(before.file_kib), l.file_kib)?;
    over("bytes read by system calls", read, l.read)?;
    let short = what.split(" (").next().unwrap();
    for (n, x) in &[("heap bytes", heap as u64), ("cpu ms", cpu), ("page faults", faults), ("KiB of files", after.file_kib.saturating_sub(before.file_kib))] {
        let k = format!("peak {}: {}", n, short);
        let old = c.counters.get(&k).cloned().unwrap_or(0);
        c.counters.insert(k, old.max(*x));
    }
    Ok(r)
}

//
// C23
//
fn plain(d: &ArchDesc) -> bool {
    fn ok(x: &dyn Codec) -> bool {
        !crate::misc::has_enum(x)
    }
    d.res.iter().all(|r| match &r.kind {
        RKind::Struct(x) | RKind::Vec(x) => ok(*x),
        RKind::Multi { vars, .. } => vars.iter().all(|v| ok(v.1)),
        _ => true,
    })
}

fn c23_case(c: &mut Ctx, d: &ArchDesc, bytes: u64, accesses: usize) -> V {
    let dir = c.dir();
    let mut rng = Rng::new(c.rng.next());
    c.case(format!("{} with {} bytes in each resource", d.name, bytes));
    let probes = big_archive(d, &dir, bytes, bytes, &mut rng, 200, |_| true)?;
    const OPEN: Limits = Limits { heap: 1 << 20, cpu_ms: 1000, faults: 2000, read: 1 << 20, file_kib: 64 << 10 };
    let st: St = FileResourceStorage::new(dir.clone());
    let a = within(c, "opening", OPEN, || (d.open)(st.clone()).map_err(|e| e.to_string()))?;
    // a second archive object and clones of both
    let b = within(c, "opening again", OPEN, || (d.open)(FileResourceStorage::new(dir.clone())).map_err(|e| e.to_string()))?;
    let e = within(c, "cloning", OPEN, || Ok(b.dup()))?;
    let zero = |i: usize| -> Option<ResVal> {
        match &d.res[i].kind {
            RKind::Vec(x) => Some(ResVal::Vec(vec![x.decode(&vec![0; x.size()])])),
            _ => None,
        }
    };
    let access = Limits {
        // (the harness itself decodes elements of up to a MiB)
        heap: 8 << 20,
        cpu_ms: 2000 + accesses as u64 / 10,
        faults: 4000 + 8 * accesses as u64,
        read: 1 << 20,
        file_kib: u64::max_value(),
    };
    let cur = c.cur.clone();
    let taken = within(c, "accessing single elements (at random positions)", access, || {
        let mut seen = 0u64;
        for k in 0..accesses {
            let h = if k % 3 == 0 { &e } else { &a };
            let (i, pos, want) = if k % 16 != 3 || probes.is_empty() {
                let (i, pos, want) = rng.pick(&probes);
                (*i, *pos, Some(want.clone()))
            } else {
                let i = rng.below(d.res.len());
                match (h.count(i), zero(i)) {
                    (Some(n), Some(z)) if n > 0 => {
                        let pos = rng.below(n);
                        if probes.iter().any(|p| p.0 == i && p.1 == pos) {
                            continue;
                        }
                        (i, pos, Some(z))
                    }
                    _ => continue,
                }
            };
            let got = h.sample(i, pos, rng.below(30));
            if got != want {
                return Err(format!("{} at {} is {:?} instead of {:?}", d.res[i].name, pos, got, want));
            }
            seen += 1;
        }
        Ok(seen)
    })?;
    c.count("random accesses", taken);
    let sizes = within(c, "lengths", OPEN, || Ok((0..d.res.len()).map(|i| a.count(i)).collect::<Vec<_>>()))?;
    for (r, n) in d.res.iter().zip(&sizes) {
        let want = match &r.kind {
            RKind::Vec(x) => bytes as usize / x.size(),
            RKind::Raw => bytes as usize,
            RKind::Multi { isize, .. } => bytes as usize / isize - 1,
            _ => continue,
        };
        ensure!(*n == Some(want), "{}: {} has length {:?} instead of {}", cur, r.name, n, want);
    }
    let printed = within(c, "printing views", OPEN, || Ok((0..d.res.len()).filter_map(|i| a.preview(i)).map(|s| s.len()).sum::<usize>()))?;
    c.count("bytes of printed previews", printed as u64);
    within(c, "closing", OPEN, || {
        drop(a);
        drop(b);
        drop(e);
        Ok(())
    })?;
    drop(st);
    clean(&dir);
    c.count("MiB of resources opened", (bytes >> 20) * d.res.len() as u64);
    c.nontrivial_cur();
    Ok(())
}

/// Address space full of zeros, of which no page is in memory.
pub struct Zeros(*mut u8, usize);
impl Zeros {
    pub fn new(n: usize) -> Result<Zeros, String> {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        ensure!(p != libc::MAP_FAILED, "harness: no address space");
        unsafe { libc::madvise(p, n, libc::MADV_NOHUGEPAGE) };
        Ok(Zeros(p as *mut u8, n))
    }
    pub fn all(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.0, self.1) }
    }
}
impl Drop for Zeros {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0 as *mut libc::c_void, self.1) };
    }
}

/// Views over data that is already there.
fn c23_views<T: D>(c: &mut Ctx, n: usize) -> V {
    let size = <T as Struct>::SIZE_IN_BYTES;
    c.case(format!("views on {} bytes of elements of {}", n, size));
    let mut mem = Zeros::new(n)?;
    let last = n / size - 1;
    let vals = rand_vals(fields_of::<T>(), &mut c.rng);
    set_all::<T>(&mut <T as Struct>::create_mut(&mut mem.all()[last * size..]), &vals);
    let mut rng = Rng::new(c.rng.next());
    let l = Limits { heap: 1 << 18, cpu_ms: 1500, faults: 4000 + 40_000, read: 1 << 20, file_kib: 64 << 10 };
    let data = &*mem.all();
    within(c, "views, slices and iterators", l, || {
        for k in 0..5_000 {
            let view = ArrayView::<T>::new(data);
            if view.len() != last + 1 || view.is_empty() {
                return Err(format!("the view has length {}", view.len()));
            }
            let pos = rng.below(last + 1);
            let s = view.slice(pos..);
            if s.len() != last + 1 - pos {
                return Err(format!("slice from {} has length {}", pos, s.len()));
            }
            let got = values::<T>(&s.at(s.len() - 1));
            if got != vals {
                return Err(format!("last element of the slice from {} is {:?} instead of {:?}", pos, got, vals));
            }
            let mut it = s.iter();
            let got = values::<T>(&it.next_back().unwrap());
            if got != vals {
                return Err(format!("last element of the iterator from {} is {:?} instead of {:?}", pos, got, vals));
            }
            if it.len() != last - pos || it.size_hint() != (last - pos, Some(last - pos)) || it.clone().rev().len() != last - pos {
                return Err(format!("the iterator from {} without the last has length {}", pos, it.len()));
            }
            if k % 100 == 0 && (format!("{:?}", s).len() > 100_000 || format!("{:#?}", it).len() > 100_000) {
                return Err("the printed form is not short".into());
            }
            if k % 1000 == 0 && view.as_bytes().len() != n {
                return Err("as_bytes has another length".into());
            }
        }
        Ok(())
    })?;
    c.nontrivial_cur();
    Ok(())
}

/// Multi-array views over an index of `n` bytes.
fn c23_multi_views<I: IdxInfo, T: Var>(c: &mut Ctx, n: usize) -> V {
    let (isize, ibits) = (I::ISIZE, I::IBITS);
    c.case(format!("multi-array views on an index of {} bytes with entries of {}", n, isize));
    let mut mem = Zeros::new(n)?;
    let items = n / isize - 1;
    let vars = <T as VarDyn>::variants();
    let mut rng = Rng::new(c.rng.next());
    let item = loop {
        let i = rand_item(&vars, &mut rng, 4);
        if !i.is_empty() {
            break i;
        }
    };
    let (_, data) = multi_payloads(&vars, isize, ibits, &[item.clone()]);
    // the last item is the only one that is not empty
    put_bits(&mut mem.all()[items * isize..], 0, ibits, data.len() as u64);
    let l = Limits { heap: 1 << 18, cpu_ms: 1500, faults: 4000 + 40_000, read: 1 << 20, file_kib: 64 << 10 };
    let index = &*mem.all();
    within(c, "multi-array views, slices and iterators", l, || {
        for k in 0..5_000 {
            let view = MultiArrayView::<I, T>::new(ArrayView::new(index), &data);
            if view.len() != items || view.is_empty() {
                return Err(format!("the view has length {}", view.len()));
            }
            let pos = rng.below(items);
            let s = view.slice(pos..);
            if s.len() != items - pos {
                return Err(format!("slice from {} has length {}", pos, s.len()));
            }
            let mut it = s.iter();
            for x in vec![s.at(s.len() - 1), it.next_back().unwrap()] {
                let got: Item = x.map(|e| <T as VarDyn>::read(&e)).collect();
                if got != item {
                    return Err(format!("last item of the slice from {} is {:?} instead of {:?}", pos, got, item));
                }
            }
            if it.len() != items - pos - 1 || it.size_hint() != (it.len(), Some(it.len())) {
                return Err(format!("the iterator from {} without the last has length {}", pos, it.len()));
            }
            if s.len() > 1 && s.at(0).next().is_some() {
                return Err(format!("the item at {} is not empty", pos));
            }
            if k % 100 == 0 && (format!("{:?}", s).len() > 100_000 || format!("{:#?}", it).len() > 100_000) {
                return Err("the printed form is not short".into());
            }
        }
        Ok(())
    })?;
    c.nontrivial_cur();
    Ok(())
}

pub fn c23(c: &mut Ctx) -> V {
    let ds: Vec<ArchDesc> = vec![pure(), huge(), flat(), gen(), mid()].into_iter().filter(|d| plain(d)).collect();
    ensure!(ds.iter().any(|d| d.name == "Pure"), "harness: Pure has enumerations");
    let sizes: &[u64] = if c.thorough { &[24 << 20, 512 << 20, 5 << 30, 40 << 30, 200 << 30] } else { &[24 << 20, 512 << 20, 5 << 30, 40 << 30] };
    for bytes in sizes {
        for d in &ds {
            let n = c.n(20_000, 200_000);
            c23_case(c, d, *bytes, n)?;
        }
    }
    for n in &[8usize << 20, 1 << 30, 100 << 30] {
        c23_views::<crate::G3>(c, *n)?;
        c23_views::<crate::G2>(c, *n)?;
        c23_views::<crate::G26>(c, *n)?;
        c23_multi_views::<Idx64, VarC>(c, *n)?;
        c23_multi_views::<Idx40, VarB>(c, *n)?;
    }
    Ok(())
}

//
// C24
//
fn fds_below(dir: &FsPath) -> Vec<String> {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir("/proc/self/fd") {
        for e in rd.flatten() {
            if let Ok(t) = std::fs::read_link(e.path()) {
                if t.starts_with(dir) {
                    v.push(t.to_string_lossy().into_owned());
                }
            }
        }
    }
    v
}
fn maps_below(dir: &FsPath) -> Vec<String> {
    let d = format!("{}/", dir.display());
    let t = std::fs::read_to_string("/proc/self/maps").expect("reading /proc/self/maps");
    t.lines().filter_map(|l| l.find(&d).map(|i| l[i..].to_string())).collect()
}
fn nothing_left(dir: &FsPath, when: &str) -> V {
    let f = fds_below(dir);
    ensure!(f.is_empty(), "{}: descriptors still open: {:?}", when, f);
    let m = maps_below(dir);
    ensure!(m.is_empty(), "{}: files still mapped: {:?}", when, m);
    Ok(())
}
fn no_fds(dir: &FsPath, when: &str) -> V {
    let f = fds_below(dir);
    ensure!(f.is_empty(), "{}: descriptors still open: {:?}", when, f);
    Ok(())
}

#[derive(Clone, Debug)]
struct History {
    file: bool,
    plan: Vec<Step>,
    /// perform only that many steps, then abandon everything
    steps: usize,
    fault: Option<Mode>,
    /// remove a stored file before opening
    spoil: Option<usize>,
    opens: usize,
    again: bool,
    order: u64,
    thread: bool,
}

/// One whole life of a storage: everything it used is gone when it returns.
fn live(d: &ArchDesc, m: &Model, dir: &FsPath, h: &History) -> Result<u64, String> {
    clean(dir);
    let mut seen = 0;
    let st = new_storage(h.file, dir);
    if let Some(f) = h.fault {
        interpose::start_with_stats(dir, f);
    }
    let mut after: V = Ok(());
    let r = guard(|| {
        let mut ex = Exec::new(d, m, st.clone());
        let mut bad = false;
        for s in &h.plan[..h.steps] {
            let parent_missing = bad && match s {
                Step::Create(p) | Step::Set(p, _) | Step::Draft(p, _) | Step::Abandon(p, _) | Step::Start(p) | Step::Push(p, _, _) | Step::Close(p) => {
                    !p.is_empty() && !ex.builders.contains_key(&p[..p.len() - 1])
                }
            };
            let no_writer = match s {
                Step::Push(p, _, _) | Step::Close(p) => !ex.writers.contains_key(p),
                _ => false,
            };
            if parent_missing || no_writer {
                continue;
            }
            if ex.step(s).is_err() {
                bad = true;
                if let Step::Close(p) | Step::Push(p, _, _) = s {
                    // an abandoned writer complains when dropped
                    let w = ex.writers.remove(p);
                    let _ = guard(|| drop(w));
                }
            }
        }
        if h.file && ex.writers.is_empty() {
            let on = interpose::pause();
            after = no_fds(dir, "all writers closed, the builders still there");
            interpose::resume(on);
        }
    });
    if h.fault.is_some() {
        seen += interpose::stop().hits as u64;
    }
    // abandoned writers complain: that is a panic, and not one of the process
    if r.is_err() {
        seen += 1;
    }
    after?;
    if h.file {
        no_fds(dir, "builders and writers gone")?;
    }
    if let (Some(k), true) = (h.spoil, h.file) {
        let files: Vec<String> = tree(dir).0.keys().cloned().collect();
        if !files.is_empty() {
            std::fs::remove_file(dir.join(&files[k % files.len()])).map_err(|e| format!("harness: {}", e))?;
        }
    }
    let mut held: Vec<Option<Box<dyn ArchRead>>> = vec![];
    let mut storages = vec![];
    for k in 0..h.opens {
        let s = if k % 2 == 0 { st.clone() } else { reader(h.file, dir, &st) };
        match guard(|| (d.open)(s.clone()))? {
            Ok(a) => {
                seen += a.model().len() as u64;
                held.push(Some(a.dup()));
                held.push(Some(a));
            }
            Err(_) => {
                // with the error dropped, no descriptor is left
                if h.file {
                    no_fds(dir, "a failed open")?;
                }
            }
        }
        if h.again {
            let r = guard(|| (d.create)(s.clone()).is_ok())?;
            seen += r as u64;
        }
        storages.push(s);
    }
    drop(st);
    let mut rng = Rng::new(h.order);
    while !held.is_empty() || !storages.is_empty() {
        if !held.is_empty() && (storages.is_empty() || rng.chance(1, 2)) {
            let k = rng.below(held.len());
            held.swap_remove(k);
        } else {
            let k = rng.below(storages.len());
            storages.swap_remove(k);
        }
    }
    drop(held);
    drop(storages);
    Ok(seen)
}

fn c24_case(c: &mut Ctx) -> V {
    let d = any_desc(c);
    let file = c.rng.chance(2, 3);
    let m = rand_model(&d, &mut c.rng, 6);
    let plan = if c.rng.chance(1, 2) { rand_plan(&d, &m, &mut c.rng) } else { rand_plan_rewriting(&d, &m, &mut c.rng) };
    let kind = c.rng.below(4);
    let n = plan.len();
    let h = History {
        file,
        steps: if kind == 1 { c.rng.below(n + 1) } else { n },
        fault: if kind == 2 && file {
            let errno = *c.rng.pick(&[libc::EIO, libc::ENOSPC, libc::EMFILE, libc::EACCES, libc::ENOENT]);
            Some(Mode::Fail { at: c.rng.below(8 * n + 1), errno, partial: c.rng.below(20), stick: c.rng.chance(1, 2) })
        } else {
            None
        },
        spoil: if kind == 3 { Some(c.rng.below(1000)) } else { None },
        opens: c.rng.below(4),
        again: c.rng.chance(1, 3),
        order: c.rng.next(),
        thread: c.rng.chance(1, 8),
        plan,
    };
    let what = format!(
        "one life of a {} storage: {} {{{}}} {}, {} steps, fault {:?}, spoil {:?}, {} opens{}",
        if file { "file" } else { "memory" },
        d.name,
        summary(&d, &m),
        show_plan(&d, &h.plan),
        h.steps,
        h.fault,
        h.spoil,
        h.opens,
        if h.again { ", create again" } else { "" }
    );
    c.case(what.clone());
    let dir = c.dir();
    let mut base = 0;
    let mut seen = 0;
    const WARM: usize = 3;
    const RUNS: usize = 6;
    for k in 0..WARM + RUNS {
        if k == WARM {
            base = current();
        }
        seen = live(&d, &m, &dir, &h).map_err(|e| format!("{}: {}", what, e))?;
        if file && (k == 0 || k + 1 == WARM + RUNS) {
            nothing_left(&dir, "everything dropped").map_err(|e| format!("{}: {}", what, e))?;
        }
    }
    let left = current() as i64 - base as i64;
    ensure!(left < RUNS as i64 * 8, "{}: {} bytes of heap are left after {} more lives like this", what, left, RUNS);
    c.count("lives of a storage", (WARM + RUNS) as u64);
    if h.fault.is_some() {
        c.count("lives with a fault", 1);
    }
    if seen > 0 {
        c.nontrivial(fnv(what.as_bytes()));
    }
    clean(&dir);
    Ok(())
}

/// Reading the same unchanged things again does not accumulate anything.
fn c24_again(c: &mut Ctx, file: bool) -> V {
    let d = any_desc(c);
    let m = rand_model(&d, &mut c.rng, 12);
    let what = case_of(c, "reading again and again", &d, &m, file, "");
    let dir = c.dir();
    let st = new_storage(file, &dir);
    let plan = rand_plan(&d, &m, &mut c.rng);
    write_all(&d, &m, &st, &plan)?;
    let mut map = Map::new();
    encode_archive(&d, &m, "", &mut map);
    let keys: Vec<&String> = map.keys().collect();
    let subs: Vec<St> = vec![st.subdir("mid"), st.subdir("leaf"), st.subdir("side")];
    let seed = c.rng.next();
    let mode = c.rng.below(5);
    let mut base = (0, 0);
    const WARM: usize = 4;
    const RUNS: usize = 12;
    let r = guard(|| -> V {
        for k in 0..WARM + RUNS {
            if k == WARM {
                base = (current(), maps_below(&dir).len());
            }
            let mut rng = Rng::new(seed);
            for key in &keys {
                let schema_key = format!("{}.schema", key);
                match mode {
                    0 => drop(st.read_resource(key).map_err(|e| e.to_string())?),
                    1 => match map.get(&schema_key) {
                        // the right and a wrong schema
                        Some(s) => {
                            let s = std::str::from_utf8(s).unwrap();
                            st.read(key, s).map_err(|e| e.to_string())?;
                            ensure!(st.read(key, &format!("{} ", s)).is_err(), "wrong schema accepted");
                        }
                        None => {
                            let _ = st.read(key, "x");
                        }
                    },
                    2 => {
                        let _ = st.read_resource(&format!("{}x", key));
                        let _ = st.exists(key);
                        ensure!(!st.exists(&format!("{}x", key)), "exists");
                    }
                    3 => {
                        let s = &subs[rng.below(subs.len())];
                        let rel = key.rsplit('/').next().unwrap();
                        let _ = s.read_resource(rel);
                        let _ = s.exists(rel);
                    }
                    _ => {}
                }
            }
            if mode == 4 || mode == 0 {
                let a = (d.open)(st.clone()).map_err(|e| e.to_string())?;
                let b = a.dup();
                drop(a);
                let n = b.model().len() + b.debug().len();
                ensure!(n > 0 || d.res.is_empty(), "empty");
                ensure!((d.create)(st.clone()).is_err(), "created over an existing archive");
            }
        }
        Ok(())
    });
    r.and_then(|x| x).map_err(|e| format!("{}: {}", what, e))?;
    let heap = current() as i64 - base.0 as i64;
    let maps = maps_below(&dir).len();
    ensure!(heap < RUNS as i64 * 8, "{}: {} bytes of heap are left by {} more rounds of the same reads (kind {})", what, heap, RUNS, mode);
    ensure!(maps <= base.1, "{}: {} mappings before, {} after {} more rounds of the same reads (kind {})", what, base.1, maps, RUNS, mode);
    if file {
        no_fds(&dir, &what)?;
    }
    c.count("rounds of repeated reads", (WARM + RUNS) as u64);
    c.nontrivial(fnv(format!("{} {}", what, mode).as_bytes()));
    drop(subs);
    drop(st);
    if file {
        nothing_left(&dir, &what)?;
    }
    clean(&dir);
    Ok(())
}

/// Many resources at once with few descriptors.
fn c24_many(c: &mut Ctx, n: usize) -> V {
    c.case(format!("{} resources written and read at once with 40 descriptors", n));
    let dir = c.dir();
    let st: St = new_storage(true, &dir);
    let mut old: libc::rlimit = unsafe { std::mem::zeroed() };
    unsafe { libc::getrlimit(libc::RLIMIT_NOFILE, &mut old) };
    let limit = libc::rlimit { rlim_cur: 40, rlim_max: old.rlim_max };
    unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &limit) };
    let r = guard(|| -> V {
        let mut held: Vec<&[u8]> = vec![];
        for i in 0..n {
            let name = format!("d{}/r{}", i % 5, i);
            st.write(&name, "s", &i.to_le_bytes()).map_err(|e| format!("writing resource {}: {}", i, e))?;
        }
        for i in 0..n {
            let name = format!("d{}/r{}", i % 5, i);
            held.push(st.read(&name, "s").map_err(|e| format!("reading resource {}: {}", i, e))?);
        }
        for (i, b) in held.iter().enumerate() {
            ensure!(*b == &i.to_le_bytes()[..], "resource {} changed", i);
        }
        // the same with elements
        for i in 0..n {
            let dirname = format!("e{}", i);
            let s = st.subdir(&dirname);
            let b = <LeafBuilder as ArchiveBuilder>::new(s.clone()).map_err(|e| format!("builder {}: {}", i, e))?;
            b.set_blob(&i.to_le_bytes()).map_err(|e| format!("builder {}: {}", i, e))?;
            let w = b.start_items().map_err(|e| format!("builder {}: {}", i, e))?;
            w.close().map_err(|e| format!("builder {}: {}", i, e))?;
            if i + 1 == n {
                break;
            }
        }
        Ok(())
    });
    unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &old) };
    r.and_then(|x| x).map_err(|e| format!("{}: {}", c.cur, e))?;
    no_fds(&dir, &c.cur)?;
    c.count("resources under a descriptor limit", 2 * n as u64);
    c.nontrivial_cur();
    drop(st);
    nothing_left(&dir, "many resources, storage dropped")?;
    clean(&dir);
    Ok(())
}

/// Streaming writers in every way of ending, with more data than their buffers hold.
fn c24_writers(c: &mut Ctx) -> V {
    let end = c.rng.below(5);
    let multi = c.rng.chance(1, 2);
    let n = *c.rng.pick(&[0usize, 1, 1000, 200_000]);
    let file = c.rng.chance(3, 4);
    let at = c.rng.below(6);
    c.case(format!("streaming {} of {} on {} storage, ending {}, fault at {}", if multi { "multivector" } else { "vector" }, n, if file { "file" } else { "memory" }, end, at));
    let dir = c.dir();
    let mut base = 0;
    for k in 0..7 {
        if k == 3 {
            base = current();
        }
        clean(&dir);
        let st = new_storage(file, &dir);
        if end == 4 && file {
            interpose::start(&dir, Mode::Fail { at, errno: libc::ENOSPC, partial: 3, stick: true });
        }
        // 0 closed, 1 dropped, 2 dropped by a panic, 3 moved into a thread-like closure and dropped, 4 under a fault
        let r = guard(|| {
            if multi {
                let mut w = match create_multi_vector::<Idx64, VarA>(&*st, "w", "s") {
                    Ok(w) => w,
                    Err(_) => return,
                };
                let vals = vec![vec![0i128; VarA::variants()[0].1.fields().len()]];
                for _ in 0..n {
                    match w.grow() {
                        Ok(mut i) => <VarA as VarDyn>::add(&mut i, VarA::variants()[0].0, &vals[0]),
                        Err(_) => break,
                    }
                }
                match end {
                    0 | 4 => drop(w.close().map(|v| v.len())),
                    1 => drop(w),
                    2 => panic!("unwinding"),
                    _ => (move || drop(w))(),
                }
            } else {
                let mut w = match create_external_vector::<crate::G3>(&*st, "w", "s") {
                    Ok(w) => w,
                    Err(_) => return,
                };
                for _ in 0..n {
                    if w.grow().is_err() {
                        break;
                    }
                }
                match end {
                    0 | 4 => drop(w.close().map(|v| v.len())),
                    1 => drop(w),
                    2 => panic!("unwinding"),
                    _ => (move || drop(w))(),
                }
            }
        });
        if end == 4 && file {
            interpose::stop();
        }
        ensure!(end == 0 || end == 4 || r.is_err(), "{}: dropped without a panic", c.cur);
        if file {
            no_fds(&dir, &c.cur)?;
        }
        drop(st);
        drop(r);
        if file {
            nothing_left(&dir, &c.cur)?;
        }
    }
    let left = current() as i64 - base as i64;
    ensure!(left < 32, "{}: {} bytes of heap are left after 4 more writers like this", c.cur, left);
    c.count("streaming writers ended", 7);
    c.nontrivial_cur();
    clean(&dir);
    Ok(())
}

pub fn c24(c: &mut Ctx) -> V {
    for _ in 0..c.n(900, 20_000) {
        c24_case(c)?;
    }
    for k in 0..c.n(500, 10_000) {
        c24_again(c, k % 3 != 2)?;
    }
    for _ in 0..c.n(60, 800) {
        c24_writers(c)?;
    }
    c24_many(c, if c.thorough { 3000 } else { 600 })
}
