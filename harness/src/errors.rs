//! C29 what errors say.
use crate::archives::*;
use crate::archprops::*;
use crate::codec::*;
use crate::ctx::*;
use crate::ensure;
use crate::interpose::{self, Mode, Op};
use crate::rng::{fnv, Rng};
use flatdata::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io;
use std::path::Path as FsPath;

/// What may be wrong: the name of the resource as the code under test knows it, its full key, and how.
type Named = BTreeSet<(String, String, Class)>;

fn causes(map: &Map, prefix: &str, name: &str, schema: &str, min: usize, out: &mut Named) -> bool {
    let key = format!("{}{}", prefix, name);
    match status(map, &key, schema, min) {
        Ok(_) => true,
        Err(x) => {
            out.extend(x.into_iter().map(|c| (name.to_string(), key.clone(), c)));
            false
        }
    }
}

/// Everything that may be given as the reason why this archive cannot be opened.
fn reasons(d: &ArchDesc, map: &Map, prefix: &str) -> Named {
    let mut out = Named::new();
    causes(map, prefix, &format!("{}.archive", d.name), d.schema, 0, &mut out);
    for r in d.res.iter().filter(|r| !r.opt) {
        match &r.kind {
            RKind::Struct(cd) => {
                causes(map, prefix, r.name, r.schema, cd.size(), &mut out);
            }
            RKind::Vec(_) | RKind::Raw => {
                causes(map, prefix, r.name, r.schema, 0, &mut out);
            }
            RKind::Multi { .. } => {
                causes(map, prefix, &format!("{}_index", r.name), &format!("index({})", r.schema), 0, &mut out);
                causes(map, prefix, r.name, r.schema, 0, &mut out);
            }
            RKind::Sub(s) => out.extend(reasons(s, map, &format!("{}{}/", prefix, r.name))),
        }
    }
    out
}

fn carried(e: &Rse) -> Option<&str> {
    match e {
        Rse::Io(_, n) => Some(n),
        Rse::MissingSchema(n) => Some(n),
        Rse::WrongSignature { resource_name, .. } => Some(resource_name),
        _ => None,
    }
}

/// The message of an I/O error without its number, as every printed form must show it.
fn message(e: &io::Error) -> String {
    let t = e.to_string();
    match t.find(" (os error") {
        Some(i) => t[..i].to_string(),
        None => t,
    }
}

/// What holds for every error, whatever it is about.
fn well_formed(e: &Rse) -> V {
    #[allow(deprecated)]
    let d = guard(|| std::error::Error::description(e).to_string())?;
    ensure!(!d.is_empty(), "the description of {:?} is empty", e);
    let text = guard(|| format!("{}", e))?;
    ensure!(!text.trim().is_empty(), "{:?} prints as nothing", e);
    let dbg = guard(|| format!("{:?}", e))?;
    if let Some(n) = carried(e) {
        ensure!(!n.is_empty(), "an error without a name: {:?}", e);
        ensure!(text.contains(n) && dbg.contains(n), "printed error {:?} does not name {:?}", text, n);
    }
    if let Rse::Io(x, _) = e {
        ensure!(text.contains(&message(x)), "printed error {:?} does not tell the cause {:?}", text, message(x));
    }
    Ok(())
}
fn kinds_differ() -> V {
    // the kinds of errors can be told apart by what they print
    let bad = std::str::from_utf8(&[0xff]).unwrap_err();
    let all = vec![
        Rse::Io(io::Error::new(io::ErrorKind::Other, "cause"), "name".into()),
        Rse::Utf8Error(bad),
        Rse::MissingSchema("name".into()),
        Rse::WrongSignature { resource_name: "name".into(), diff: "-a\n+b".into() },
        Rse::UnexpectedDataSize,
    ];
    let mut seen = BTreeSet::new();
    for e in &all {
        well_formed(e)?;
        ensure!(seen.insert(format!("{}", e)), "two kinds of errors print as {}", e);
        #[allow(deprecated)]
        let d = std::error::Error::description(e).to_string();
        ensure!(seen.insert(format!("description: {}", d)), "two kinds of errors are described as {}", d);
    }
    let e = Rse::from_io_error(io::Error::from_raw_os_error(libc::ENOSPC), "x/y".into());
    match &e {
        Rse::Io(x, n) if x.raw_os_error() == Some(libc::ENOSPC) && n == "x/y" => (),
        e => return Err(format!("from_io_error changes what it is given: {:?}", e)),
    }
    well_formed(&e)
}

/// The error must be one of the reasons.
fn told(e: &Rse, want: &Named, map: &Map) -> V {
    well_formed(e)?;
    let cl = class_of(e);
    let fits: Vec<_> = want.iter().filter(|w| w.2 == cl && carried(e).map_or(true, |n| n == w.0)).collect();
    ensure!(!fits.is_empty(), "the error {:?} is none of the reasons {:?}", e, want);
    match e {
        Rse::Io(x, _) if x.kind() == io::ErrorKind::NotFound => {
            let t = x.to_string();
            ensure!(fits.iter().any(|w| t.contains(&w.1)) || x.raw_os_error().is_some(), "the cause {:?} does not tell which key is missing ({:?})", t, fits);
        }
        Rse::Utf8Error(x) => {
            let ok = fits.iter().any(|w| match map.get(&format!("{}.schema", w.1)).map(|s| std::str::from_utf8(s)) {
                Some(Err(y)) => y == *x,
                _ => false,
            });
            ensure!(ok, "{:?} is not where any schema is invalid", x);
        }
        _ => (),
    }
    Ok(())
}

/// What can be compared between storages.
fn gist(e: &Rse) -> String {
    match e {
        Rse::Io(x, n) => format!("{:?} {}", x.kind(), n),
        e => format!("{:?}", e),
    }
}

fn damaged(c: &mut Ctx) -> V {
    let d = any_desc(c);
    let m = rand_model(&d, &mut c.rng, 4);
    let mut good = Map::new();
    encode_archive(&d, &m, "", &mut good);
    let keys: Vec<String> = good.keys().cloned().collect();
    let (mut structs, mut plain) = (BTreeMap::new(), BTreeSet::new());
    shapes(&d, "", &mut structs, &mut plain);
    let mut bad = good.clone();
    let k = if c.rng.chance(3, 4) { 1 } else { c.rng.range(2, 4) };
    let what: Vec<String> = (0..k).map(|_| damage(&mut c.rng, &mut bad, &keys, &structs, &plain)).collect();
    let want = reasons(&d, &bad, "");
    let desc = case_of(c, "error of", &d, &m, true, &what.join(" and "));
    let dir = c.dir();
    let mut gists = vec![];
    for file in &[false, true] {
        let st = new_storage(*file, &dir);
        install(*file, &dir, &st, &bad);
        let st = reader(*file, &dir, &st);
        for _ in 0..2 {
            match open_model(&d, &st).map_err(|e| format!("{}: {}", desc, e))? {
                // whether it may be opened is checked elsewhere
                Ok(_) => c.count("opened", 1),
                Err(e) => {
                    if want.is_empty() {
                        continue;
                    }
                    told(&e, &want, &bad).map_err(|x| format!("{} ({}): {}", desc, if *file { "file" } else { "memory" }, x))?;
                    c.count(&format!("errors of class {:?} understood", class_of(&e)), 1);
                    gists.push(gist(&e));
                }
            }
        }
        // single resources under their keys
        for _ in 0..4 {
            let key = c.rng.pick(&keys).clone();
            if key.ends_with(".schema") {
                continue;
            }
            let schema = String::from_utf8(good[&format!("{}.schema", key)].clone()).unwrap();
            let mut want = Named::new();
            causes(&bad, "", &key, &schema, 0, &mut want);
            if let Err(e) = guard(|| st.read(&key, &schema).map(|_| ())).map_err(|e| format!("{}: {}", desc, e))? {
                ensure!(!want.is_empty(), "{}: reading '{}' fails with {:?} although it is intact", desc, key, e);
                told(&e, &want, &bad).map_err(|x| format!("{}: reading '{}': {}", desc, key, x))?;
                c.count("errors of single reads understood", 1);
            }
        }
        // something that was never there
        let none = c.rng.pick(&["nothing", "no/such/key", "mid/nothing", "x.schema"]).to_string();
        match guard(|| st.read(&none, "s").map(|_| ())).map_err(|e| format!("{}: {}", desc, e))? {
            Err(Rse::Io(ref x, ref n)) if x.kind() == io::ErrorKind::NotFound && *n == none && x.to_string().contains(none.as_str()) => (),
            r => return Err(format!("{}: reading the missing '{}' gives {:?}", desc, none, r)),
        }
        match guard(|| st.read_resource(&none).map(|_| ())).map_err(|e| format!("{}: {}", desc, e))? {
            Err(ref x) if x.kind() == io::ErrorKind::NotFound && x.to_string().contains(none.as_str()) => (),
            r => return Err(format!("{}: reading the missing '{}' unchecked gives {:?}", desc, none, r)),
        }
        // creating it again
        if bad.contains_key(&format!("{}.archive", d.name)) {
            let sig = format!("{}.archive", d.name);
            match guard(|| (d.create)(st.clone()).map(|_| ())).map_err(|e| format!("{}: {}", desc, e))? {
                Err(e) => {
                    well_formed(&e).map_err(|x| format!("{}: {}", desc, x))?;
                    match &e {
                        Rse::Io(x, n) if x.kind() == io::ErrorKind::AlreadyExists && *n == sig => c.count("refused creations understood", 1),
                        e => return Err(format!("{}: creating it again gives {:?}", desc, e)),
                    }
                }
                Ok(()) => return Err(format!("{}: created a second time", desc)),
            }
        }
    }
    gists.dedup();
    ensure!(gists.len() < 2, "{}: different errors for the same damage: {:?}", desc, gists);
    c.nontrivial(fnv(desc.as_bytes()));
    clean(&dir);
    Ok(())
}

/// The names under which an error about these paths may come: the resource, or the multivector whose long index
/// is written in between.
fn names_of(dir: &FsPath, failed: &[(Op, String)], long: bool) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let base = dir.to_str().unwrap();
    for (_, p) in failed {
        let rel = p.strip_prefix(base).unwrap_or(p).trim_start_matches('/');
        let name = rel.rsplit('/').next().unwrap_or("");
        let name = if name.ends_with(".schema") { &name[..name.len() - 7] } else { name };
        out.insert(name.to_string());
        if long && name.ends_with("_index") {
            out.insert(name[..name.len() - 6].to_string());
        }
    }
    out
}

fn same_cause(x: &io::Error, errno: i32, failed: &[(Op, String)]) -> V {
    // a query which fails only says that the file is not there: what is tried then can fail in turn
    let absent = failed.iter().any(|f| f.0 == Op::Stat) && (x.kind() == io::ErrorKind::NotFound || x.kind() == io::ErrorKind::AlreadyExists);
    ensure!(x.raw_os_error() == Some(errno) || absent, "the operating system reported error {} ({:?}), the call reports {:?}", errno, failed, x);
    Ok(())
}

fn faulty_open(c: &mut Ctx) -> V {
    let d = any_desc(c);
    let m = rand_model(&d, &mut c.rng, 3);
    let mut map = Map::new();
    encode_archive(&d, &m, "", &mut map);
    let desc = format!("fault while opening: {} {{{}}}", d.name, summary(&d, &m));
    c.case(desc.clone());
    let dir = c.dir();
    let dummy: St = FileResourceStorage::new(dir.clone());
    install(true, &dir, &dummy, &map);
    let keys: Vec<String> = map.keys().filter(|k| !k.ends_with(".schema")).cloned().collect();
    for k in 0.. {
        let errno = *c.rng.pick(&[libc::EMFILE, libc::EIO, libc::ENOMEM, libc::EACCES, libc::ENFILE, libc::ELOOP]);
        let stick = c.rng.chance(1, 3);
        let single = if c.rng.chance(1, 4) { Some(c.rng.pick(&keys).clone()) } else { None };
        let what = format!("{} -- {} operation {} fails with errno {}{}", desc, single.as_ref().map_or("opening,", |s| s.as_str()), k, errno, if stick { " and so do all later ones" } else { "" });
        let st: St = FileResourceStorage::new(dir.clone());
        interpose::start_with_names(&dir, Mode::Fail { at: if single.is_some() { k % 5 } else { k }, errno, partial: 0, stick });
        let r = match &single {
            None => open_model(&d, &st).map(|x| x.map(|_| ())),
            Some(s) => guard(|| {
                let schema = String::from_utf8(map[&format!("{}.schema", s)].clone()).unwrap();
                st.read(s, &schema).map(|_| ())
            }),
        };
        interpose::stop();
        let failed = interpose::failed();
        if failed.is_empty() {
            if single.is_some() {
                continue;
            }
            break;
        }
        c.case(what.clone());
        match r.map_err(|e| format!("{}: {}", what, e))? {
            Ok(()) => c.count("faults without consequences", 1),
            Err(e) => {
                well_formed(&e).map_err(|x| format!("{}: {}", what, x))?;
                match &e {
                    Rse::Io(x, n) => {
                        same_cause(x, errno, &failed).map_err(|y| format!("{}: {}", what, y))?;
                        match &single {
                            Some(s) => ensure!(n == s, "{}: the error is attributed to '{}'", what, n),
                            None => {
                                let names = names_of(&dir, &failed, false);
                                ensure!(names.contains(n), "{}: the error is attributed to '{}', what failed is {:?}", what, n, names);
                            }
                        }
                        c.count("reported faults of reading understood", 1);
                    }
                    e => return Err(format!("{}: an I/O error of {:?} is reported as {:?}", what, failed, e)),
                }
                c.nontrivial(fnv(what.as_bytes()));
            }
        }
    }
    clean(&dir);
    Ok(())
}

fn faulty_write(c: &mut Ctx, d: &ArchDesc, size: usize, limit: usize) -> V {
    let m = rand_model(d, &mut c.rng, size);
    let plan = rand_plan(d, &m, &mut c.rng);
    let desc = format!("fault while writing: {} {{{}}} {}", d.name, summary(d, &m), show_plan(d, &plan));
    c.case(desc.clone());
    let mut total = 1;
    let mut k = 0;
    let mut done = 0;
    while k < total && done < limit {
        // the first run only counts
        let first = k == 0 && done == 0;
        let errno = *c.rng.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EMFILE, libc::EACCES, libc::EROFS]);
        let stick = c.rng.chance(1, 3);
        let partial = if c.rng.chance(1, 3) { c.rng.range(1, 9) } else { 0 };
        let what = format!("{} -- operation {} fails with errno {} (first {} bytes stored){}", desc, k, errno, partial, if stick { " and so do all later ones" } else { "" });
        if !first {
            c.case(what.clone());
        }
        let dir = c.dir();
        let st: St = FileResourceStorage::new(dir.clone());
        let mut ex = Exec::new(d, &m, st.clone());
        interpose::start_with_names(&dir, if first { Mode::Watch } else { Mode::Fail { at: k, errno, partial, stick } });
        let mut seen: Option<(usize, StepErr)> = None;
        let mut trouble = None;
        for (i, s) in plan.iter().enumerate() {
            match guard(|| ex.step(s)) {
                Err(e) => {
                    trouble = Some(format!("step {}: {}", show_plan(d, std::slice::from_ref(s)), e));
                    break;
                }
                Ok(Err(e)) => {
                    seen = Some((i, e));
                    break;
                }
                Ok(Ok(())) => (),
            }
        }
        let ops = interpose::ops();
        interpose::stop();
        let failed = interpose::failed();
        if trouble.is_some() {
            std::mem::forget(ex);
            return Err(format!("{}: {}", what, trouble.unwrap()));
        }
        if first {
            total = ops;
            ensure!(seen.is_none(), "{}: fails without a fault", desc);
        }
        let r = (|| -> V {
            let (i, e) = match seen {
                None => return Ok(()),
                Some(x) => x,
            };
            let step = show_plan(d, std::slice::from_ref(&plan[i]));
            ensure!(!failed.is_empty(), "{}: {} fails with {:?} without a fault", what, step, e);
            let names = names_of(&dir, &failed, size > 40);
            match &e {
                StepErr::Io(x) => same_cause(x, errno, &failed).map_err(|y| format!("{}: {}: {}", what, step, y))?,
                StepErr::Rse(e) => {
                    well_formed(e).map_err(|x| format!("{}: {}: {}", what, step, x))?;
                    match e {
                        Rse::Io(x, n) => {
                            same_cause(x, errno, &failed).map_err(|y| format!("{}: {}: {}", what, step, y))?;
                            // a directory that cannot be created is reported for what was to be created in it
                            let for_dir = failed.iter().any(|f| f.0 == Op::Mkdir || f.0 == Op::Stat) && n.ends_with(".archive");
                            ensure!(names.contains(n) || for_dir, "{}: {}: the error is attributed to '{}', what failed is {:?}", what, step, n, names);
                        }
                        e => return Err(format!("{}: {}: an I/O error of {:?} is reported as {:?}", what, step, failed, e)),
                    }
                }
            }
            c.count("reported faults of writing understood", 1);
            // the writer that failed names itself when it is closed
            if let Step::Push(p, _, _) = &plan[i] {
                let own = at(d, &m, p).0.name;
                match guard(|| ex.step(&Step::Close(p.clone()))).map_err(|e| format!("{}: closing after a failed append: {}", what, e))? {
                    Err(StepErr::Rse(e)) => {
                        well_formed(&e).map_err(|x| format!("{}: closing after {}: {}", what, step, x))?;
                        match &e {
                            Rse::Io(_, n) => ensure!(n == own || *n == format!("{}_index", own), "{}: closing after {}: the error is attributed to '{}'", what, step, n),
                            e => return Err(format!("{}: closing after {}: {:?}", what, step, e)),
                        }
                        c.count("errors of closing after a failure understood", 1);
                    }
                    Err(e) => return Err(format!("{}: closing after {}: {:?}", what, step, e)),
                    Ok(()) => (),
                }
            }
            c.nontrivial(fnv(what.as_bytes()));
            Ok(())
        })();
        // unfinished writers panic
        let _ = guard(move || drop(ex));
        r?;
        clean(&dir);
        if !first {
            k += 1 + c.rng.below((total / limit.max(1)).max(1));
        }
        done += 1;
    }
    Ok(())
}

/// Streams long enough to be written in between: the append that has to write fails, and so does closing.
fn flushed(c: &mut Ctx) -> V {
    let multi = c.rng.chance(1, 2);
    let name = c.rng.pick(&["v", "props", "a_index"]).to_string();
    let n = 36 + c.rng.below(4);
    let run = |dir: &FsPath, mode: Mode| {
        let st: St = FileResourceStorage::new(dir.to_path_buf());
        interpose::start_with_names(dir, mode);
        let r = guard(|| -> (Option<io::Error>, Option<Rse>) {
            let mut early = None;
            macro_rules! fill {
                ($made:expr, $x:ident, $i:ident, $set:expr) => {
                    match $made {
                        Err(e) => (Some(e), None),
                        Ok(mut w) => {
                            for i in 0..n {
                                if let Err(e) = { let $i = i as u64; w.grow().map(|mut $x| { $set; }) } {
                                    early = Some(e);
                                    break;
                                }
                            }
                            let late = w.close().map(|_| ()).err();
                            (early, late)
                        }
                    }
                };
            }
            if multi {
                fill!(create_multi_vector::<Idx64, VarC>(&*st, &name, "s"), x, i, x.add_g8().set_f0(i))
            } else {
                fill!(create_external_vector::<crate::G8>(&*st, &name, "s"), x, i, x.set_f0(i))
            }
        });
        let ops = interpose::ops();
        interpose::stop();
        r.map(|(a, b)| (a, b, ops, interpose::failed()))
    };
    let desc = format!("long {} '{}' of {} MiB", if multi { "multivector" } else { "vector" }, name, n);
    c.case(desc.clone());
    let dir = c.dir();
    let (a, b, total, _) = run(&dir, Mode::Watch).map_err(|e| format!("{}: {}", desc, e))?;
    ensure!(a.is_none() && b.is_none(), "{}: fails without a fault: {:?} {:?}", desc, a, b);
    clean(&dir);
    for at in 0..total {
        let errno = *c.rng.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EMFILE, libc::EACCES, libc::EFBIG]);
        let stick = c.rng.chance(1, 2);
        let what = format!("{} -- operation {} fails with errno {}{}", desc, at, errno, if stick { " and so do all later ones" } else { "" });
        c.case(what.clone());
        let dir = c.dir();
        let (early, late, _, failed) = run(&dir, Mode::Fail { at, errno, partial: 0, stick }).map_err(|e| format!("{}: {}", what, e))?;
        if let Some(x) = &early {
            ensure!(!failed.is_empty(), "{}: fails without a fault: {:?}", what, x);
            same_cause(x, errno, &failed).map_err(|y| format!("{}: {}", what, y))?;
            c.count("failed appends understood", 1);
        }
        if let Some(e) = &late {
            well_formed(e).map_err(|x| format!("{}: {}", what, x))?;
            let names = names_of(&dir, &failed, false);
            match e {
                Rse::Io(x, n) => {
                    ensure!(*n == name || *n == format!("{}_index", name), "{}: closing names '{}'", what, n);
                    if early.is_none() {
                        same_cause(x, errno, &failed).map_err(|y| format!("{}: closing: {}", what, y))?;
                        ensure!(names.contains(n), "{}: closing names '{}', what failed is {:?}", what, n, names);
                    } else {
                        c.count("errors of closing after a failure understood", 1);
                    }
                }
                e => return Err(format!("{}: an I/O error of {:?} is reported as {:?}", what, failed, e)),
            }
        }
        c.nontrivial(fnv(what.as_bytes()));
        clean(&dir);
    }
    Ok(())
}

pub fn c29(c: &mut Ctx) -> V {
    kinds_differ()?;
    for _ in 0..c.n(1500, 40_000) {
        damaged(c)?;
    }
    for _ in 0..c.n(60, 1500) {
        faulty_open(c)?;
    }
    for d in small_archives() {
        for _ in 0..c.n(3, 60) {
            faulty_write(c, &d, 4, 200)?;
        }
    }
    if c.kind == Kind::Rel || c.thorough {
        for _ in 0..c.n(4, 40) {
            flushed(c)?;
        }
        for _ in 0..c.n(2, 20) {
            faulty_write(c, &huge(), 42, 30)?;
        }
    }
    Ok(())
}
