//! C27 where an archive lies does not matter: forms of its path, moving, copying, linking, deleting
//! while it is open, neighbours in the same directory, other processes.
use crate::archives::*;
use crate::archprops::*;
use crate::codec::*;
use crate::ctx::*;
use crate::ensure;
use crate::rng::{fnv, Rng};
use flatdata::*;
use std::ffi::OsStr;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path as FsPath, PathBuf};

/// A directory name that no other call returns.
fn component(rng: &mut Rng, k: usize) -> (PathBuf, &'static str) {
    let long = |s: &str, n: usize| -> Vec<u8> {
        let mut v = format!("{}-", k).into_bytes();
        while v.len() + s.len() <= n {
            v.extend_from_slice(s.as_bytes());
        }
        v
    };
    let (b, what): (Vec<u8>, &'static str) = match rng.below(16) {
        0 => (format!("plain{}", k).into_bytes(), "plain"),
        1 => (format!("with some spaces {} ", k).into_bytes(), "spaces"),
        2 => (format!("\u{4e2d}\u{e9}\u{1f600}{}", k).into_bytes(), "unicode"),
        3 => (format!("line\nbreak\t{}", k).into_bytes(), "newline"),
        4 => (long("x", 255), "255 bytes"),
        5 => (long("\u{4e2d}", 254), "long unicode"),
        6 => ([format!("{}", k).as_bytes(), &b"\xff\xfe\x80"[..]].concat(), "not UTF-8"),
        7 => ([&b"\xc3"[..], format!("{}", k).as_bytes()].concat(), "truncated UTF-8"),
        8 => (format!(".hidden{}", k).into_bytes(), "hidden"),
        9 => (format!("-{}", k).into_bytes(), "dash"),
        10 => (format!("Flat{}.archive", k).into_bytes(), "like a signature"),
        11 => (format!("x{}.schema", k).into_bytes(), "like a schema"),
        12 => (format!("v{}_index", k).into_bytes(), "like an index"),
        13 => (format!("%2e%2F{}\\..\\", k).into_bytes(), "escapes"),
        14 => (format!("'\"$(){};*?[]~{}", '{', k).into_bytes(), "shell characters"),
        _ => (format!("...{}", k).into_bytes(), "dots"),
    };
    (PathBuf::from(std::ffi::OsString::from_vec(b)), what)
}

/// A fresh directory path below `base`, somewhat deep.
fn location(rng: &mut Rng, base: &FsPath, k: &mut usize, what: &mut Vec<&'static str>) -> PathBuf {
    let mut p = base.to_path_buf();
    let depth = if rng.chance(1, 10) { 12 } else { 1 + rng.below(3) };
    for _ in 0..depth {
        *k += 1;
        let (n, w) = component(rng, *k);
        if p.as_os_str().len() + n.as_os_str().len() > 3500 {
            break;
        }
        p.push(n);
        if what.len() < 6 {
            what.push(w);
        }
    }
    p
}

fn join(parts: &[&[u8]]) -> PathBuf {
    PathBuf::from(OsStr::from_bytes(&parts.concat()).to_os_string())
}

/// Another way to name the directory `p` (whose parent exists); the working directory may change.
fn form(rng: &mut Rng, p: &FsPath, base: &FsPath, k: &mut usize) -> (PathBuf, &'static str) {
    let parent = p.parent().unwrap();
    let full = p.as_os_str().as_bytes();
    let par = parent.as_os_str().as_bytes();
    let name = p.file_name().unwrap().as_bytes();
    let cd = |d: &FsPath| std::env::set_current_dir(d).expect("harness: chdir");
    *k += 1;
    match rng.below(15) {
        0 => (p.to_path_buf(), "absolute"),
        1 => (join(&[full, b"/"]), "trailing slash"),
        2 => (join(&[full, b"/."]), "trailing dot"),
        3 => (join(&[par, b"//", name, b"///"]), "several slashes"),
        4 => (join(&[par, b"/./", name]), "dot inside"),
        5 => {
            let x = parent.join(format!("aside{}", k));
            std::fs::create_dir_all(&x).expect("harness: mkdir");
            if rng.chance(1, 2) {
                // the parent of where the link points to
                let l = base.join(format!("there{}", k));
                std::os::unix::fs::symlink(&x, &l).expect("harness: symlink");
                return (join(&[l.as_os_str().as_bytes(), b"/../", name]), "dot dot after a symbolic link");
            }
            (join(&[x.as_os_str().as_bytes(), b"/../", name]), "dot dot inside")
        }
        6 | 7 => {
            // a link to the parent directory
            let l = base.join(format!("link{}", k));
            std::os::unix::fs::symlink(parent, &l).expect("harness: symlink");
            (join(&[l.as_os_str().as_bytes(), b"/", name]), "below a symbolic link")
        }
        8 => {
            let l = base.join(format!("rel{}", k));
            let target = join(&[parent.strip_prefix(base).map(|x| x.as_os_str().as_bytes()).unwrap_or(par)]);
            if target.as_os_str().is_empty() {
                return (p.to_path_buf(), "absolute");
            }
            std::os::unix::fs::symlink(&target, &l).expect("harness: symlink");
            (join(&[l.as_os_str().as_bytes(), b"/", name]), "below a relative symbolic link")
        }
        9 => {
            cd(parent);
            (PathBuf::from(OsStr::from_bytes(name).to_os_string()), "relative")
        }
        10 => {
            cd(parent);
            (join(&[b"./", name]), "relative with dot")
        }
        11 => {
            let x = parent.join(format!("below{}", k));
            std::fs::create_dir_all(&x).expect("harness: mkdir");
            cd(&x);
            (join(&[b"../", name]), "relative with dot dot")
        }
        12 | 13 if p.is_dir() => {
            cd(p);
            if rng.chance(1, 2) {
                (PathBuf::from("."), "dot")
            } else {
                (PathBuf::new(), "empty")
            }
        }
        14 if p.is_dir() => {
            let l = base.join(format!("dir{}", k));
            std::os::unix::fs::symlink(p, &l).expect("harness: symlink");
            (l, "symbolic link")
        }
        _ => (p.to_path_buf(), "absolute"),
    }
}

fn copy_tree(a: &FsPath, b: &FsPath) {
    std::fs::create_dir_all(b).expect("harness: mkdir");
    for e in std::fs::read_dir(a).expect("harness: read_dir") {
        let e = e.unwrap();
        let to = b.join(e.file_name());
        if e.path().is_dir() {
            copy_tree(&e.path(), &to);
        } else {
            std::fs::copy(e.path(), to).expect("harness: copy");
        }
    }
}
/// Replaces files by links to files kept elsewhere.
fn link_files(rng: &mut Rng, dir: &FsPath, store: &FsPath, k: &mut usize) -> usize {
    std::fs::create_dir_all(store).expect("harness: mkdir");
    let mut n = 0;
    for e in std::fs::read_dir(dir).expect("harness: read_dir") {
        let p = e.unwrap().path();
        if p.symlink_metadata().unwrap().file_type().is_dir() {
            if rng.chance(1, 4) {
                *k += 1;
                let to = store.join(format!("tree{}", k));
                std::fs::rename(&p, &to).expect("harness: rename");
                std::os::unix::fs::symlink(&to, &p).expect("harness: symlink");
                n += 1 + link_files(rng, &to, store, k);
            } else {
                n += link_files(rng, &p, store, k);
            }
        } else if rng.chance(2, 3) {
            *k += 1;
            let to = store.join(format!("blob{}", k));
            std::fs::rename(&p, &to).expect("harness: rename");
            if rng.chance(2, 3) {
                std::os::unix::fs::symlink(&to, &p).expect("harness: symlink");
            } else {
                std::fs::hard_link(&to, &p).expect("harness: link");
            }
            n += 1;
        }
    }
    n
}
/// Other files and other times.
fn litter(rng: &mut Rng, dir: &FsPath) {
    for n in &["README", "Flat", ".archive", "x.schema", "meta.tmp", "verts~", "lost.archive.schema"] {
        if rng.chance(1, 3) {
            std::fs::write(dir.join(n), n).expect("harness: write");
        }
    }
    if rng.chance(1, 2) {
        std::fs::create_dir_all(dir.join("other dir/verts")).expect("harness: mkdir");
    }
    for e in std::fs::read_dir(dir).expect("harness: read_dir") {
        if rng.chance(1, 2) {
            let p = std::ffi::CString::new(e.unwrap().path().as_os_str().as_bytes()).unwrap();
            let t = libc::timespec { tv_sec: *rng.pick(&[0i64, 1, 4_000_000_000, 1 << 33]) as libc::time_t, tv_nsec: 5 };
            let t = [t, t];
            unsafe { libc::utimensat(libc::AT_FDCWD, p.as_ptr(), t.as_ptr(), 0) };
        }
    }
}

fn same(d: &ArchDesc, m: &Model, st: &St, what: &str, when: &str) -> Result<Box<dyn ArchRead>, String> {
    let a = guard(|| (d.open)(st.clone()))
        .map_err(|e| format!("{}: {}: {}", what, when, e))?
        .map_err(|e| format!("{}: {}: cannot be opened: {}", what, when, e))?;
    unchanged(d, m, &*a, what, when)?;
    Ok(a)
}
fn unchanged(d: &ArchDesc, m: &Model, a: &dyn ArchRead, what: &str, when: &str) -> V {
    let got = guard(|| a.model()).map_err(|e| format!("{}: {}: {}", what, when, e))?;
    match diff_models(d, &got, m) {
        Some(x) => Err(format!("{}: {}: {}", what, when, x)),
        None => Ok(()),
    }
}
fn file_st(p: &FsPath) -> St {
    FileResourceStorage::new(p.to_path_buf())
}
/// The sub-archives opened as archives of their own.
fn parts(c: &mut Ctx, d: &ArchDesc, m: &Model, st: &St, at: &dyn Fn(&str) -> St, what: &str) -> V {
    for (r, v) in d.res.iter().zip(m) {
        if let (RKind::Sub(s), Some(ResVal::Sub(sm))) = (&r.kind, v) {
            same(s, sm, &st.subdir(r.name), what, &format!("sub-archive {} through subdir", r.name))?;
            same(s, sm, &at(r.name), what, &format!("sub-archive {} as an archive of its own", r.name))?;
            c.count("sub-archives opened on their own", 1);
        }
    }
    Ok(())
}

fn c27_case(c: &mut Ctx, home: &FsPath) -> V {
    let d = any_desc(c);
    let m = rand_model(&d, &mut c.rng, 6);
    let base = c.dir();
    std::fs::create_dir_all(&base).expect("harness: mkdir");
    let mut rng = Rng::new(c.rng.next());
    let mut k = 0;
    let mut names = vec![];
    let loc = location(&mut rng, &base, &mut k, &mut names);
    // written below directories that may not exist yet
    let exists = rng.chance(1, 2);
    let mut how = "absolute";
    let mut path = loc.clone();
    if exists {
        std::fs::create_dir_all(if rng.chance(1, 2) { &loc } else { loc.parent().unwrap() }).expect("harness: mkdir");
        let (p, h) = form(&mut rng, &loc, &base, &mut k);
        path = p;
        how = h;
    }
    let what = case_of(c, "place", &d, &m, true, &format!("written to {:?} ({}, {})", names, how, if exists { "parent there" } else { "nothing there" }));
    let st = file_st(&path);
    let plan = rand_plan(&d, &m, &mut rng);
    write_all(&d, &m, &st, &plan)?;
    let mut want = Map::new();
    encode_archive(&d, &m, "", &mut want);
    if let Some(x) = diff_maps(&tree(&loc).0, &want) {
        return Err(format!("{}: {}", what, x));
    }
    c.count(&format!("written: {}", how), 1);
    drop(same(&d, &m, &st, &what, "same handle")?);
    // the writing handle may depend on the working directory: it is gone before that changes
    drop(st);
    // read through other forms
    for _ in 0..3 {
        std::env::set_current_dir(home).expect("harness: chdir");
        let (p, h) = form(&mut rng, &loc, &base, &mut k);
        let st = file_st(&p);
        drop(same(&d, &m, &st, &what, &format!("read as {}", h))?);
        parts(c, &d, &m, &st, &|n| file_st(&p.join(n)), &what)?;
        // another creation is refused wherever it comes from
        let (p, h2) = form(&mut rng, &loc, &base, &mut k);
        let again = guard(|| (d.create)(file_st(&p)).is_err()).map_err(|e| format!("{}: {}", what, e))?;
        ensure!(again, "{}: written again as {}", what, h2);
        c.count(&format!("read: {}", h), 1);
    }
    std::env::set_current_dir(home).expect("harness: chdir");
    // things that do not belong to the archive, and other times
    litter(&mut rng, &loc);
    let st = file_st(&loc);
    let a = same(&d, &m, &st, &what, "next to other files")?;
    let copy = a.dup();
    // somebody else
    if rng.chance(1, 8) {
        #[cfg(feature = "interpose")]
        {
            let s = fork_run(|| {
                drop(same(&d, &m, &file_st(&loc), &what, "another process").expect("another process"));
                unchanged(&d, &m, &*a, &what, "another process").expect("another process");
            });
            ensure!(s == 0, "{}: another process reads something else (status {:#x})", what, s);
            c.count("other processes", 1);
        }
    }
    // copied, moved, linked, in turn; the open archive stays what it is
    let mut at = loc.clone();
    for _ in 0..1 + rng.below(3) {
        let mut n2 = vec![];
        let to = location(&mut rng, &base, &mut k, &mut n2);
        let kind = rng.below(4);
        let step;
        match kind {
            0 => {
                copy_tree(&at, &to);
                step = format!("copied to {:?}", n2);
            }
            1 => {
                std::fs::create_dir_all(to.parent().unwrap()).expect("harness: mkdir");
                std::fs::rename(&at, &to).expect("harness: rename");
                step = format!("moved to {:?}", n2);
                let gone = guard(|| (d.open)(file_st(&at)).is_err()).map_err(|e| format!("{}: {}: {}", what, step, e))?;
                ensure!(gone, "{}: {}: still opens at the old place through a new handle", what, step);
            }
            2 => {
                copy_tree(&at, &to);
                k += 1;
                let n = link_files(&mut rng, &to, &base.join(format!("store{}", k)), &mut k);
                step = format!("copied to {:?}, {} of the files links", n2, n);
                c.count("links in place of files", n as u64);
            }
            _ => {
                // the parent directory moves
                k += 1;
                let old = at.parent().unwrap().to_path_buf();
                if old == base {
                    continue;
                }
                let new = base.join(format!("moved{}", k));
                std::fs::rename(&old, &new).expect("harness: rename");
                let p = new.join(at.file_name().unwrap());
                step = "its parent moved".into();
                drop(same(&d, &m, &file_st(&p), &what, &step)?);
                at = p;
                unchanged(&d, &m, &*a, &what, &format!("the open archive after: {}", step))?;
                continue;
            }
        }
        at = to;
        drop(same(&d, &m, &file_st(&at), &what, &step)?);
        elsewhere(c, &d, &m, &st, &want, &what, &step)?;
        unchanged(&d, &m, &*a, &what, &format!("the open archive after: {}", step))?;
        c.count(&format!("place changed: {}", ["copied", "moved", "links", ""][kind]), 1);
    }
    // everything is deleted while the archive is open
    clean(&base);
    elsewhere(c, &d, &m, &st, &want, &what, "everything deleted")?;
    clean(&base);
    drop(st);
    unchanged(&d, &m, &*a, &what, "the open archive after its files were deleted")?;
    drop(a);
    unchanged(&d, &m, &*copy, &what, "a clone of the open archive after its files were deleted")?;
    c.nontrivial(fnv(what.as_bytes()));
    Ok(())
}

/// The handle of an open archive is used for other things after its files went away.
fn elsewhere(c: &mut Ctx, d: &ArchDesc, m: &Model, st: &St, want: &Map, what: &str, when: &str) -> V {
    let e = |e: String| format!("{}: {}: the same handle: {}", what, when, e);
    if c.rng.chance(1, 2) {
        // whatever it answers, if it has an archive then the right one
        if let Some(g) = guard(|| (d.open)(st.clone()).map(|a| a.model()).ok()).map_err(e)? {
            sound(d, &g, m).map_err(e)?;
        }
    }
    if c.rng.chance(2, 3) {
        // (never the same name twice: a file replaced by one of the same size keeps being read)
        let key = format!("beside{}", c.rng.next());
        if want.contains_key(&key) {
            return Ok(());
        }
        let v = c.rng.bytes(40);
        guard(|| st.write(&key, "x", &v)).map_err(e)?.map_err(|x| e(format!("{:?}", x)))?;
        let got = guard(|| st.read(&key, "x").map(|b| b.to_vec())).map_err(e)?;
        ensure!(got.as_ref().ok() == Some(&v), "{}: {}: written through the same handle, read: {:?}", what, when, got);
        c.count("other resources written through a handle whose files went away", 1);
    }
    Ok(())
}

/// Two archives of different types in one place, written in turns.
fn c27_neighbours(c: &mut Ctx) -> V {
    let ds = small_archives();
    let (i, j) = (c.rng.below(ds.len()), c.rng.below(ds.len()));
    if i == j {
        return Ok(());
    }
    let ds = vec![ds[i].clone(), ds[j].clone()];
    let file = pick_file(c);
    let ms: Vec<Model> = ds.iter().map(|d| rand_model(d, &mut c.rng, 6)).collect();
    let plans: Vec<Vec<Step>> = ds.iter().zip(&ms).map(|(d, m)| rand_plan(d, m, &mut c.rng)).collect();
    c.case(format!(
        "{} {{{}}} and {} {{{}}} in one place of {} storage",
        ds[0].name,
        summary(&ds[0], &ms[0]),
        ds[1].name,
        summary(&ds[1], &ms[1]),
        if file { "file" } else { "memory" }
    ));
    let what = c.cur.clone();
    let mut want = Map::new();
    for (d, m) in ds.iter().zip(&ms) {
        let n = want.len();
        let mut one = Map::new();
        encode_archive(d, m, "", &mut one);
        let k = one.len();
        want.extend(one);
        if want.len() != n + k {
            // they share a name
            return Ok(());
        }
    }
    // a directory of one that is a file of the other
    for k in want.keys() {
        if let Some(p) = k.find('/') {
            if want.contains_key(&k[..p]) {
                return Ok(());
            }
        }
    }
    // sub-archives of the same name
    let subs = |d: &ArchDesc| -> Vec<&'static str> { d.res.iter().filter(|r| if let RKind::Sub(_) = r.kind { true } else { false }).map(|r| r.name).collect() };
    let all = |d: &ArchDesc| -> Vec<&'static str> { d.res.iter().map(|r| r.name).collect() };
    if subs(&ds[0]).iter().any(|n| all(&ds[1]).contains(n)) || subs(&ds[1]).iter().any(|n| all(&ds[0]).contains(n)) {
        return Ok(());
    }
    let dir = c.dir();
    let one = new_storage(file, &dir);
    let two = if c.rng.chance(1, 2) { one.clone() } else { reader(file, &dir, &one) };
    let r = guard(|| -> V {
        let mut exs = vec![Exec::new(&ds[0], &ms[0], one.clone()), Exec::new(&ds[1], &ms[1], two.clone())];
        let mut pos = [0, 0];
        while pos[0] < plans[0].len() || pos[1] < plans[1].len() {
            let mut k = c.rng.below(2);
            if pos[k] == plans[k].len() {
                k = 1 - k;
            }
            let s = &plans[k][pos[k]];
            pos[k] += 1;
            let r = exs[k].step(s).map_err(|e| format!("{}: step {} of {} failed: {:?}", what, pos[k], ds[k].name, e));
            let r = match (r, exs[k].mismatch.take()) {
                (Ok(()), Some(x)) => Err(format!("{}: {}", what, x)),
                (r, _) => r,
            };
            if r.is_err() {
                std::mem::forget(exs);
                return r;
            }
        }
        Ok(())
    });
    r.and_then(|x| x)?;
    if file {
        if let Some(x) = diff_maps(&tree(&dir).0, &want) {
            return Err(format!("{}: {}", what, x));
        }
    }
    let st = reader(file, &dir, &one);
    let a = same(&ds[0], &ms[0], &st, &what, "the first")?;
    let b = same(&ds[1], &ms[1], &one, &what, "the second")?;
    unchanged(&ds[0], &ms[0], &*a, &what, "the first again")?;
    unchanged(&ds[1], &ms[1], &*b, &what, "the second again")?;
    c.count("pairs of archives in one place", 1);
    c.nontrivial(fnv(what.as_bytes()));
    drop((a, b, st));
    clean(&dir);
    Ok(())
}

/// The name of a memory storage is only a name.
fn c27_memory(c: &mut Ctx) -> V {
    let d = any_desc(c);
    let m = rand_model(&d, &mut c.rng, 6);
    let mut k = 0;
    let mut names = vec![];
    let p = match c.rng.below(5) {
        0 => PathBuf::new(),
        1 => PathBuf::from("/"),
        2 => PathBuf::from("relative/./with/../dots//"),
        _ => location(&mut c.rng, FsPath::new("/mem"), &mut k, &mut names),
    };
    let what = case_of(c, "memory", &d, &m, false, &format!("named {:?}", p));
    let st: St = MemoryResourceStorage::new(p.clone());
    let other: St = MemoryResourceStorage::new(p.clone());
    let plan = rand_plan(&d, &m, &mut c.rng);
    write_all(&d, &m, &st, &plan)?;
    drop(same(&d, &m, &st, &what, "same handle")?);
    parts(c, &d, &m, &st, &|n| st.subdir(n), &what)?;
    let r = guard(|| (d.open)(other.clone()).is_err()).map_err(|e| format!("{}: {}", what, e))?;
    ensure!(r, "{}: another memory storage of the same name has the same content", what);
    ensure!(!p.exists() || p.as_os_str() == "/" || p.as_os_str().is_empty(), "{}: something was written to disk", what);
    c.count("memory storages named", 1);
    c.nontrivial(fnv(what.as_bytes()));
    Ok(())
}

#[cfg(feature = "interpose")]
fn protect(dir: &FsPath, on: bool) {
    use std::os::unix::fs::PermissionsExt;
    let set = |p: &FsPath, m: u32| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m)).expect("harness: chmod");
    set(dir, if on { 0o555 } else { 0o755 });
    for e in std::fs::read_dir(dir).expect("harness: readdir") {
        let p = e.expect("harness: readdir").path();
        if p.is_dir() {
            protect(&p, on);
        } else {
            set(&p, if on { 0o444 } else { 0o644 });
        }
    }
}

/// An archive of somebody else, which may only be read.
#[cfg(feature = "interpose")]
fn c27_protected(c: &mut Ctx) -> V {
    let d = any_desc(c);
    let m = rand_model(&d, &mut c.rng, 6);
    let what = case_of(c, "write-protected archive", &d, &m, true, "");
    let dir = c.dir();
    let mut map = Map::new();
    encode_archive(&d, &m, "", &mut map);
    let st = file_st(&dir);
    install(true, &dir, &st, &map);
    drop(st);
    protect(&dir, true);
    std::env::set_current_dir(&dir).expect("harness: chdir");
    let by_name = c.rng.chance(1, 2);
    let s = fork_run(|| unsafe {
        // only here: the parent keeps its rights
        if libc::setgroups(0, std::ptr::null()) != 0 || libc::setgid(65534) != 0 || libc::setuid(65534) != 0 {
            libc::_exit(3);
        }
        let st = if by_name { file_st(FsPath::new("")) } else { file_st(FsPath::new(".")) };
        for _ in 0..2 {
            if let Err(e) = same(&d, &m, &st, &what, "by another user") {
                eprintln!("{}", e);
                libc::_exit(1);
            }
        }
        // refused, but nothing worse
        if !matches_err(&d, &st) {
            libc::_exit(2);
        }
    });
    let home = c.scratch.clone();
    std::env::set_current_dir(&home).expect("harness: chdir");
    protect(&dir, false);
    match s {
        0 => c.count("write-protected archives opened by another user", 1),
        0x300 => c.count("users could not be changed", 1),
        0x200 => return Err(format!("{}: creating it again is not refused", what)),
        s => return Err(format!("{}: cannot be opened by a user who may only read (status {:#x})", what, s)),
    }
    if let Some(x) = diff_maps(&tree(&dir).0, &map) {
        return Err(format!("{}: files changed: {}", what, x));
    }
    c.nontrivial(fnv(what.as_bytes()));
    clean(&dir);
    Ok(())
}
#[cfg(feature = "interpose")]
fn matches_err(d: &ArchDesc, st: &St) -> bool {
    match guard(|| (d.create)(st.clone()).map(|_| ())) {
        Ok(Err(Rse::Io(ref e, _))) => e.kind() == std::io::ErrorKind::AlreadyExists,
        _ => false,
    }
}

pub fn c27(c: &mut Ctx) -> V {
    #[cfg(feature = "interpose")]
    {
        for _ in 0..c.n(60, 1500) {
            c27_protected(c)?;
        }
    }
    let home = c.scratch.clone();
    for k in 0..c.n(500, 12_000) {
        let r = c27_case(c, &home);
        std::env::set_current_dir(&home).expect("harness: chdir");
        r?;
        if k % 2 == 0 {
            c27_neighbours(c)?;
        }
        if k % 4 == 0 {
            c27_memory(c)?;
        }
    }
    Ok(())
}
