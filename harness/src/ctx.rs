//! What a run observed: evaluations, distinct non-trivial cases, samples, counters, and the guard
//! that turns panics of the code under test into values.
use crate::rng::Rng;
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{self, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

/// Cases started so far, for the watchdog.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

pub type V = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Dbg,
    Rel,
    Asan,
    Tsan,
    Miri,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub kind: Kind,
    pub seed: u64,
    pub rng: Rng,
    pub scratch: PathBuf,
    pub out: PathBuf,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub counters: BTreeMap<String, u64>,
    pub known: Vec<String>,
    pub cur: String,
    pub mult: f64,
    /// this process is number `shard` of `shards` that run the same property and kind
    pub shard: u64,
    pub shards: u64,
    uniq: u64,
    sample_next: u64,
}

impl Ctx {
    pub fn new(prop: &str, thorough: bool, kind: Kind, seed: u64, scratch: PathBuf, out: PathBuf) -> Ctx {
        let mut h = crate::rng::fnv(prop.as_bytes());
        h ^= seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= (kind as u64) << 7;
        Ctx {
            prop: prop.into(),
            thorough,
            kind,
            seed,
            rng: Rng::new(h),
            scratch,
            out,
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            counters: BTreeMap::new(),
            known: vec![],
            cur: String::new(),
            mult: 1.0,
            shard: 0,
            shards: 1,
            uniq: 0,
            sample_next: 1,
        }
    }
    /// Number of cases for this tier; slow instruments get fewer.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        let n = if self.thorough { thorough } else { quick } as f64;
        let k = match self.kind {
            Kind::Dbg | Kind::Rel => 1.0,
            Kind::Asan => 0.25,
            Kind::Tsan => 0.2,
            Kind::Miri => 0.002,
        };
        ((n * k * self.mult) as usize).max(1)
    }
    pub fn slow(&self) -> bool {
        self.kind == Kind::Miri
    }
    pub fn case<S: Into<String>>(&mut self, desc: S) {
        self.evals += 1;
        PROGRESS.fetch_add(1, SeqCst);
        self.cur = desc.into();
        if self.evals >= self.sample_next && self.samples.len() < 14 {
            let mut s = self.cur.clone();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str("...");
            }
            self.samples.push(s);
            self.sample_next = self.sample_next * 3 + 1;
        }
    }
    /// Marks the current case as non-trivial, identified by `h`.
    pub fn nontrivial(&mut self, h: u64) {
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn nontrivial_cur(&mut self) {
        let h = crate::rng::fnv(self.cur.as_bytes());
        self.nontrivial(h);
    }
    pub fn count(&mut self, key: &str, n: u64) {
        match self.counters.get_mut(key) {
            Some(c) => *c += n,
            None => {
                self.counters.insert(key.to_string(), n);
            }
        }
    }
    /// A fresh scratch directory path (not created).
    pub fn dir(&mut self) -> PathBuf {
        self.uniq += 1;
        self.scratch.join(format!("d{}", self.uniq))
    }
}

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = payload(info.payload());
        LAST.with(|l| *l.borrow_mut() = format!("panic '{}' at {}", msg, loc));
    }));
}

pub fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string payload>".into()
    }
}

/// Runs `f`; a panic becomes `Err(description)`.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

/// Reports a case that uses more than `limit` seconds of processor time (a call that never returns).
/// Processor time, not wall time: a busy machine does not matter.
pub fn watchdog(c: &Ctx, limit: u64) {
    let p = c as *const Ctx as usize;
    std::thread::spawn(move || {
        let cpu = || unsafe {
            let mut t: libc::timespec = std::mem::zeroed();
            libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t);
            t.tv_sec as u64
        };
        let (mut seen, mut since) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let (n, t) = (PROGRESS.load(SeqCst), cpu());
            if n != seen {
                seen = n;
                since = t;
            } else if t - since > limit {
                // the main thread is stuck inside the case, which therefore does not change any more
                let c = unsafe { &*(p as *const Ctx) };
                let v = format!("does not end: one case has used more than {} s of processor time", limit);
                let _ = std::fs::write(&c.out, c.report(Some(&v), t as f64));
                eprintln!("violation: {}\n  case: {}", v, c.cur);
                unsafe { libc::_exit(1) }
            }
        }
    });
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(200) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 200 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

impl Ctx {
    pub fn report(&self, violation: Option<&str>, wall: f64) -> String {
        let mut s = String::from("{");
        s += &format!("\"prop\":{},\"kind\":{},\"seed\":{},", json_str(&self.prop), json_str(&format!("{:?}", self.kind)), self.seed);
        s += &format!("\"evaluations\":{},\"distinct\":{},\"wall_s\":{:.3},", self.evals, self.distinct.len(), wall);
        s += "\"samples\":[";
        s += &self.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",");
        s += "],\"counters\":{";
        s += &self.counters.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",");
        s += "},\"known\":[";
        s += &self.known.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",");
        s += "]";
        if let Some(v) = violation {
            s += &format!(",\"violation\":{},\"case\":{}", json_str(v), json_str(&self.cur));
        }
        s += "}\n";
        s
    }
}
