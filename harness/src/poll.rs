//! C28 readers that poll a place where an archive is being written.
use crate::archives::*;
use crate::archprops::*;
use crate::codec::*;
use crate::ctx::*;
use crate::ensure;
use crate::interpose::{self, Mode};
use crate::rng::{fnv, Rng};
use flatdata::*;
use std::cell::RefCell;
use std::path::{Path as FsPath, PathBuf};
use std::rc::Rc;

/// Somebody who looks at an archive again and again.
struct Poller {
    d: ArchDesc,
    m: Model,
    want: Vec<(String, String, Vec<u8>)>,
    dir: PathBuf,
    file: bool,
    /// a handle that was there before anything was written
    kept: St,
    held: Vec<(Box<dyn ArchRead>, Model)>,
    rng: Rng,
    error: Option<String>,
    polls: u64,
    opened: u64,
    refused: u64,
    read: u64,
    /// most mandatory and optional parts seen
    best: usize,
}
impl Poller {
    fn new(d: &ArchDesc, m: &Model, dir: &FsPath, kept: St, file: bool, seed: u64) -> Poller {
        let mut map = Map::new();
        encode_archive(d, m, "", &mut map);
        let want = map
            .iter()
            .filter(|(k, _)| !k.ends_with(".schema"))
            .map(|(k, v)| (k.clone(), String::from_utf8(map[&format!("{}.schema", k)].clone()).unwrap(), v[8..v.len() - 8].to_vec()))
            .collect();
        Poller { d: d.clone(), m: m.clone(), want, dir: dir.to_path_buf(), file, kept, held: vec![], rng: Rng::new(seed), error: None, polls: 0, opened: 0, refused: 0, read: 0, best: 0 }
    }
    fn handle(&mut self) -> (St, &'static str) {
        if self.file && self.rng.chance(1, 2) {
            (FileResourceStorage::new(self.dir.clone()), "a new handle")
        } else {
            (self.kept.clone(), "the handle that was there before")
        }
    }
    fn look(&mut self) -> V {
        self.polls += 1;
        let (st, who) = self.handle();
        match guard(|| (self.d.open)(st.clone())).map_err(|e| format!("opening through {}: {}", who, e))? {
            Ok(a) => {
                self.opened += 1;
                let g = guard(|| a.model()).map_err(|e| format!("reading what {} opened: {}", who, e))?;
                sound(&self.d, &g, &self.m).map_err(|e| format!("{} opened an archive with wrong content: {}", who, e))?;
                self.best = self.best.max(g.iter().filter(|x| x.is_some()).count());
                if self.held.len() < 8 {
                    self.held.push((a, g));
                } else {
                    let k = self.rng.below(24);
                    if k < 8 {
                        self.held[k] = (a, g);
                    }
                }
            }
            Err(_) => self.refused += 1,
        }
        // parts of it
        for _ in 0..2 {
            let k = self.rng.below(self.want.len().max(1));
            let (st, who) = self.handle();
            if let Some((key, schema, v)) = self.want.get(k) {
                let _ = guard(|| st.exists(key)).map_err(|e| format!("exists of {} through {}: {}", key, who, e))?;
                let r = guard(|| st.read(key, schema).map(|b| b.to_vec()).ok()).map_err(|e| format!("reading {} through {}: {}", key, who, e))?;
                if let Some(b) = r {
                    self.read += 1;
                    ensure!(b == *v, "{} reads {} bytes of '{}' as finished, {} is right{}", who, b.len(), key, v.len(), if b.len() == v.len() { " (other bytes)" } else { "" });
                }
            }
        }
        for (k, (r, v)) in self.d.res.iter().zip(&self.m).enumerate() {
            if let (RKind::Sub(s), Some(ResVal::Sub(sm))) = (&r.kind, v) {
                if self.rng.chance(1, 3) {
                    let sub = self.kept.subdir(r.name);
                    let g = guard(|| (s.open)(sub).map(|a| a.model()).ok()).map_err(|e| format!("sub-archive {}: {}", k, e))?;
                    if let Some(g) = g {
                        sound(s, &g, sm).map_err(|e| format!("sub-archive {}: wrong content: {}", r.name, e))?;
                    }
                }
            }
        }
        // what was opened before does not change
        if !self.held.is_empty() {
            let k = self.rng.below(self.held.len());
            self.same(k)?;
        }
        Ok(())
    }
    fn same(&self, k: usize) -> V {
        let (a, g) = &self.held[k];
        let now = guard(|| a.model()).map_err(|e| format!("an archive opened earlier: {}", e))?;
        match diff_models(&self.d, &now, g) {
            Some(x) => Err(format!("an archive opened earlier changed: {}", x)),
            None => Ok(()),
        }
    }
    fn poll(&mut self, when: &str) {
        if self.error.is_none() {
            if let Err(e) = self.look() {
                self.error = Some(format!("{}: {}", when, e));
            }
        }
    }
    /// Everything is written: every handle sees all of it.
    fn done(&mut self) -> V {
        if let Some(e) = self.error.take() {
            return Err(e);
        }
        let mut handles = vec![(self.kept.clone(), "the handle that was there before")];
        if self.file {
            handles.push((FileResourceStorage::new(self.dir.clone()), "a new handle"));
        }
        for (st, who) in handles {
            let g = open_model(&self.d, &st)?.map_err(|e| format!("finished, but {} cannot open it: {}", who, e))?;
            if let Some(x) = diff_models(&self.d, &g, &self.m) {
                return Err(format!("finished, but {} sees something else: {}", who, x));
            }
        }
        for k in 0..self.held.len() {
            self.same(k)?;
        }
        Ok(())
    }
}

fn tally(c: &mut Ctx, p: &Poller, how: &str) {
    c.count(&format!("polls {}", how), p.polls);
    c.count(&format!("polls {} that opened the archive", how), p.opened);
    c.count(&format!("polls {} that were refused", how), p.refused);
    c.count("single resources read while writing", p.read);
}

/// Polls at every operation on the file system and between all steps.
fn at_operations(c: &mut Ctx, d: &ArchDesc, size: usize) -> V {
    let m = rand_model(d, &mut c.rng, size);
    let plan = rand_plan(d, &m, &mut c.rng);
    let what = case_of(c, "polled at every operation", d, &m, true, &show_plan(d, &plan));
    let dir = c.dir();
    let st = new_storage(true, &dir);
    // the writer's own handle polls between the steps
    let own = c.rng.chance(1, 3);
    let kept: St = FileResourceStorage::new(dir.clone());
    let p = Rc::new(RefCell::new(Poller::new(d, &m, &dir, kept, true, c.rng.next())));
    let mode = if c.rng.chance(1, 2) { Mode::Benign { seed: c.rng.next(), eintr: false, short: true } } else { Mode::Watch };
    // not at every operation of large archives
    let every = if size > 20 { 3 } else { 1 };
    let q = p.clone();
    let mut n = 0usize;
    interpose::hook(Some(Box::new(move || {
        n += 1;
        if n % every == 0 {
            q.borrow_mut().poll(&format!("before operation {}", n));
        }
    })));
    interpose::start(&dir, mode);
    let r = guard(|| -> V {
        let mut ex = Exec::new(d, &m, st.clone());
        for (k, s) in plan.iter().enumerate() {
            let r = ex.step(s).map_err(|e| format!("step {} failed: {:?}", k, e));
            let r = match (r, ex.mismatch.take()) {
                (Ok(()), Some(x)) => Err(x),
                (r, _) => r,
            };
            if own && r.is_ok() {
                let on = interpose::pause();
                let mut p = p.borrow_mut();
                let old = std::mem::replace(&mut p.kept, st.clone());
                p.file = false;
                p.poll(&format!("after step {}, the writer itself", k));
                p.kept = old;
                p.file = true;
                interpose::resume(on);
            }
            if r.is_err() {
                std::mem::forget(ex);
                return r;
            }
        }
        Ok(())
    });
    let rec = interpose::stop();
    interpose::hook(None);
    // what the readers saw comes first
    let mut p = match Rc::try_unwrap(p) {
        Ok(p) => p.into_inner(),
        Err(_) => return Err("harness: poller in use".into()),
    };
    tally(c, &p, "at operations");
    c.count("operations of polled writers", rec.log.len() as u64);
    if let Some(e) = p.error.take() {
        return Err(format!("{}: {}", what, e));
    }
    r.and_then(|x| x).map_err(|e| format!("{}: a polled writer: {}", what, e))?;
    p.done().map_err(|e| format!("{}: {}", what, e))?;
    drop(same_st(&st, d, &m, &what)?);
    if p.polls > 0 {
        c.nontrivial(fnv(what.as_bytes()));
    }
    drop(p);
    drop(st);
    clean(&dir);
    Ok(())
}
fn same_st(st: &St, d: &ArchDesc, m: &Model, what: &str) -> Result<(), String> {
    let g = open_model(d, st)?.map_err(|e| format!("{}: the writer cannot open it: {}", what, e))?;
    match diff_models(d, &g, m) {
        Some(x) => Err(format!("{}: the writer sees something else: {}", what, x)),
        None => Ok(()),
    }
}

/// The memory storage, between all steps.
fn in_memory(c: &mut Ctx, d: &ArchDesc) -> V {
    let m = rand_model(d, &mut c.rng, 8);
    let plan = rand_plan(d, &m, &mut c.rng);
    let what = case_of(c, "polled between steps", d, &m, false, &show_plan(d, &plan));
    let st = new_storage(false, FsPath::new("/mem"));
    let mut p = Poller::new(d, &m, FsPath::new("/mem"), st.clone(), false, c.rng.next());
    let r = guard(|| -> V {
        let mut ex = Exec::new(d, &m, st.clone());
        for (k, s) in plan.iter().enumerate() {
            p.poll(&format!("before step {}", k));
            let r = ex.step(s).map_err(|e| format!("step {} failed: {:?}", k, e));
            let r = match (r, ex.mismatch.take()) {
                (Ok(()), Some(x)) => Err(x),
                (r, _) => r,
            };
            if r.is_err() {
                std::mem::forget(ex);
                return r;
            }
        }
        Ok(())
    });
    tally(c, &p, "of memory storages");
    if let Some(e) = p.error.take() {
        return Err(format!("{}: {}", what, e));
    }
    r.and_then(|x| x).map_err(|e| format!("{}: a polled writer: {}", what, e))?;
    p.done().map_err(|e| format!("{}: {}", what, e))?;
    c.nontrivial(fnv(what.as_bytes()));
    Ok(())
}

/// The writer is another process with a pace of its own.
fn beside(c: &mut Ctx, d: &ArchDesc, size: usize) -> V {
    let m = rand_model(d, &mut c.rng, size);
    let plan = rand_plan(d, &m, &mut c.rng);
    let what = case_of(c, "polled by another process", d, &m, true, &show_plan(d, &plan));
    let dir = c.dir();
    let seed = c.rng.next();
    let pace = *c.rng.pick(&[0u64, 20, 100, 400]);
    let short = c.rng.chance(1, 2);
    let pid = unsafe { libc::fork() };
    ensure!(pid >= 0, "harness: fork");
    if pid == 0 {
        // SIGALRM ends a child that never ends
        unsafe { libc::alarm(300) };
        let mut rng = Rng::new(seed);
        interpose::hook(Some(Box::new(move || unsafe {
            let us = rng.below(2 * pace as usize + 1);
            if us > 0 {
                libc::usleep(us as u32);
            } else {
                libc::sched_yield();
            }
        })));
        interpose::start(&dir, if short { Mode::Benign { seed, eintr: false, short: true } } else { Mode::Watch });
        let r = guard(|| {
            let st: St = FileResourceStorage::new(dir.clone());
            let mut ex = Exec::new(d, &m, st);
            for s in &plan {
                ex.step(s).expect("step failed");
            }
            ex.mismatch.take()
        });
        unsafe {
            libc::_exit(match r {
                Ok(None) => 0,
                _ => 101,
            })
        }
    }
    let kept: St = FileResourceStorage::new(dir.clone());
    let mut p = Poller::new(d, &m, &dir, kept, true, seed ^ 7);
    let mut status = 0;
    let ended = loop {
        let r = unsafe { libc::waitpid(pid, &mut status, libc::WNOHANG) };
        if r == pid {
            break true;
        }
        PROGRESS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        p.poll("while another process writes");
        if p.error.is_some() {
            unsafe {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut status, 0);
            }
            break false;
        }
    };
    tally(c, &p, "beside another process");
    if let Some(e) = p.error.take() {
        return Err(format!("{}: {}", what, e));
    }
    ensure!(ended && status == 0, "{}: the polled writer ended with status {:#x}", what, status);
    p.done().map_err(|e| format!("{}: {}", what, e))?;
    if p.polls > 1 {
        c.nontrivial(fnv(what.as_bytes()));
    }
    drop(p);
    clean(&dir);
    Ok(())
}

pub fn c28(c: &mut Ctx) -> V {
    for _ in 0..c.n(250, 4000) {
        let d = any_desc(c);
        at_operations(c, &d, 5)?;
        in_memory(c, &d)?;
    }
    for _ in 0..c.n(30, 400) {
        let d = if c.rng.chance(1, 2) { wide() } else { any_desc(c) };
        at_operations(c, &d, 30)?;
    }
    for k in 0..c.n(120, 2000) {
        let d = any_desc(c);
        let size = if k % 3 == 0 { 40 } else { 8 };
        beside(c, &d, size)?;
    }
    // beyond the buffers of streaming writers
    if c.kind == Kind::Rel || c.thorough {
        for _ in 0..c.n(2, 20) {
            at_operations(c, &huge(), 42)?;
            beside(c, &huge(), 42)?;
        }
    }
    Ok(())
}
