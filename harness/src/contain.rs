//! C25: a call that fails or panics affects nothing but what it was about.
use crate::archives::*;
use crate::archprops::*;
use crate::codec::*;
use crate::ctx::*;
use crate::ensure;
#[cfg(feature = "interpose")]
use crate::interpose::{self, Mode};
use crate::rng::{fnv, Rng};
use flatdata::*;
use std::collections::BTreeMap;
use std::path::Path as FsPath;

/// What a key that does not belong to the archive holds.
#[derive(Clone, Debug, PartialEq)]
enum Kept {
    Done(String, Vec<u8>),
    /// a writer was abandoned
    Unfinished,
    /// attempts to write the last of these failed; one of them may be there, but nothing else
    Attempted(String, Vec<Vec<u8>>),
}

/// What surrounds the failing calls and has to stay as it is.
struct Around<'h> {
    st: &'h dyn ResourceStorage,
    keys: BTreeMap<String, Kept>,
    held: Vec<(String, &'h [u8], Vec<u8>)>,
    vec: Vector<crate::G0>,
    vec_model: Vec<Vals>,
    other: ArchDesc,
    other_st: St,
    other_model: Model,
    other_open: Box<dyn ArchRead>,
    next: usize,
}

fn vec_values(v: &Vector<crate::G0>) -> Vec<Vals> {
    (0..v.len()).map(|i| values::<crate::G0>(&v.at(i))).collect()
}

impl<'h> Around<'h> {
    fn rand_content(rng: &mut Rng) -> (String, Vec<u8>) {
        let n = *rng.pick(&[0usize, 1, 7, 8, 9, 40, 4096, 5000]);
        ((*rng.pick(&["s", "", "another schema\nof two lines"])).to_string(), rng.bytes(n))
    }
    fn check_key(&self, k: &str) -> V {
        match &self.keys[k] {
            Kept::Done(s, b) => {
                let got = self.st.read(k, s).map_err(|e| format!("{} can no longer be read: {}", k, e))?;
                ensure!(got == &b[..], "{} holds {} bytes which are not the {} written", k, got.len(), b.len());
                ensure!(self.st.read(k, "a schema nobody used").is_err(), "{} can be read with a wrong schema", k);
            }
            Kept::Unfinished => ensure!(self.st.read(k, "s").is_err(), "{} was left unfinished but can be read", k),
            Kept::Attempted(s, b) => {
                if let Ok(got) = self.st.read(k, s) {
                    ensure!(b.iter().any(|b| got == &b[..]), "after a failed attempt {} holds {} bytes, which nobody wrote", k, got.len());
                }
            }
        }
        Ok(())
    }
    /// Everything around is as before, and new things can be done.
    fn check(&mut self, rng: &mut Rng, thorough: bool) -> V {
        for (k, got, want) in &self.held {
            ensure!(*got == &want[..], "the bytes held of {} changed", k);
        }
        if thorough {
            for k in self.keys.keys() {
                self.check_key(k)?;
            }
        } else if !self.keys.is_empty() {
            let ks: Vec<&String> = self.keys.keys().collect();
            self.check_key(rng.pick(&ks))?;
        }
        ensure!(vec_values(&self.vec) == self.vec_model, "a vector in memory has other elements than before");
        if thorough || rng.chance(1, 4) {
            if let Some(x) = diff_models(&self.other, &self.other_open.model(), &self.other_model) {
                return Err(format!("another archive that is open changed: {}", x));
            }
        }
        if thorough || rng.chance(1, 6) {
            match open_model(&self.other, &self.other_st)? {
                Ok(g) => {
                    if let Some(x) = diff_models(&self.other, &g, &self.other_model) {
                        return Err(format!("another archive reads differently when opened again: {}", x));
                    }
                }
                Err(e) => return Err(format!("another archive cannot be opened again: {}", e)),
            }
        }
        // something new
        if rng.chance(1, 2) {
            let k = if rng.chance(1, 2) || self.keys.is_empty() {
                self.fresh("new")
            } else {
                let ks: Vec<&String> = self.keys.keys().filter(|k| !self.held.iter().any(|h| h.0 == **k)).collect();
                if ks.is_empty() {
                    self.fresh("new")
                } else {
                    (*rng.pick(&ks)).clone()
                }
            };
            let (s, b) = Self::rand_content(rng);
            self.st.write(&k, &s, &b).map_err(|e| format!("writing {} fails: {}", k, e))?;
            self.keys.insert(k.clone(), Kept::Done(s.clone(), b.clone()));
            self.check_key(&k)?;
            if rng.chance(1, 3) && !self.held.iter().any(|h| h.0 == k) && k.starts_with("hold") {
                let got = self.st.read(&k, &s).map_err(|e| e.to_string())?;
                self.held.push((k, got, b));
            }
        }
        if rng.chance(1, 3) {
            let vals = rand_vals(fields_of::<crate::G0>(), rng);
            if rng.chance(1, 2) || self.vec_model.is_empty() {
                set_all::<crate::G0>(&mut self.vec.grow(), &vals);
                self.vec_model.push(vals);
            } else {
                let i = rng.below(self.vec_model.len());
                set_every::<crate::G0>(&mut self.vec.at_mut(i), &vals);
                self.vec_model[i] = vals;
            }
            ensure!(vec_values(&self.vec) == self.vec_model, "a vector in memory no longer takes updates");
        }
        if rng.chance(1, 4) {
            // keep hold of something from now on
            let k = self.fresh("hold");
            let (s, b) = Self::rand_content(rng);
            self.st.write(&k, &s, &b).map_err(|e| format!("writing {} fails: {}", k, e))?;
            self.keys.insert(k.clone(), Kept::Done(s.clone(), b.clone()));
            let got = self.st.read(&k, &s).map_err(|e| format!("reading {} fails: {}", k, e))?;
            self.held.push((k, got, b));
        }
        Ok(())
    }
    fn attempted(&mut self, k: String, s: String, b: Vec<u8>) -> Option<Kept> {
        let mut l = match self.keys.remove(&k) {
            Some(Kept::Done(_, b)) => vec![b],
            Some(Kept::Attempted(_, l)) => l,
            _ => vec![],
        };
        l.push(b);
        self.keys.insert(k, Kept::Attempted(s, l))
    }
    fn fresh(&mut self, what: &str) -> String {
        self.next += 1;
        let dirs = ["", "", "x/", "x/y/"];
        format!("{}{}{}", dirs[self.next % 4], what, self.next)
    }
    /// A key whose content may be replaced.
    fn target(&mut self, rng: &mut Rng) -> String {
        let ks: Vec<String> = self.keys.keys().filter(|k| !self.held.iter().any(|h| h.0 == **k)).cloned().collect();
        if ks.is_empty() || rng.chance(2, 3) {
            self.fresh("stray")
        } else {
            rng.pick(&ks).clone()
        }
    }
}

/// The last failing calls.
fn hist(log: &[&'static str]) -> String {
    log[log.len().saturating_sub(6)..].join("; ")
}
fn panics<R>(what: &str, f: impl FnOnce() -> R) -> V {
    match guard(f) {
        Ok(_) => Err(format!("{} does not panic", what)),
        Err(_) => Ok(()),
    }
}

fn fill_vec(w: &mut ExternalVector<crate::G0>, n: usize, rng: &mut Rng) -> Result<Vec<Vals>, String> {
    let mut m = vec![];
    for _ in 0..n {
        let v = rand_vals(fields_of::<crate::G0>(), rng);
        set_all::<crate::G0>(&mut w.grow().map_err(|e| format!("appending fails: {}", e))?, &v);
        m.push(v);
    }
    Ok(m)
}
fn fill_multi(w: &mut MultiVector<Idx32, VarA>, n: usize, rng: &mut Rng) -> Result<Vec<Item>, String> {
    let vars = <VarA as VarDyn>::variants();
    let mut m = vec![];
    for _ in 0..n {
        let item = rand_item(&vars, rng, 4);
        let mut it = w.grow().map_err(|e| format!("appending fails: {}", e))?;
        for (t, v) in &item {
            <VarA as VarDyn>::add(&mut it, *t, v);
        }
        m.push(item);
    }
    Ok(m)
}

/// Takes n bytes, then fails or panics.
struct Sink {
    n: usize,
    panic: bool,
    got: String,
}
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.n {
            if self.panic {
                panic!("writer of the user");
            }
            return Err(std::fmt::Error);
        }
        self.n -= s.len();
        self.got.push_str(s);
        Ok(())
    }
}

const KINDS: usize = 17;

/// One call, or a few, of which something fails.
fn bad<'h>(a: &mut Around<'h>, ds: &[ArchDesc], d: &ArchDesc, created: bool, file: bool, dir: &FsPath, st: &St, rng: &mut Rng) -> Result<&'static str, String> {
    let _ = (file, dir);
    Ok(match rng.below(KINDS) {
        0 => {
            let k = a.target(rng);
            let n = rng.below(6);
            let mut w = create_external_vector::<crate::G0>(a.st, &k, "s").map_err(|e| e.to_string())?;
            fill_vec(&mut w, n, rng)?;
            panics("dropping an unfinished streaming vector", move || drop(w))?;
            a.keys.insert(k, Kept::Unfinished);
            "streaming vector dropped unfinished"
        }
        1 => {
            let k = a.target(rng);
            let n = rng.below(6);
            let mut w = create_multi_vector::<Idx32, VarA>(a.st, &k, "s").map_err(|e| e.to_string())?;
            fill_multi(&mut w, n, rng)?;
            panics("dropping an unfinished multivector", move || drop(w))?;
            a.keys.insert(format!("{}_index", k), Kept::Unfinished);
            a.keys.insert(k, Kept::Unfinished);
            "multivector dropped unfinished"
        }
        2 => {
            // the user panics while writers are open
            let (k, l) = (a.fresh("stray"), a.fresh("stray"));
            let s = a.st;
            let mut e = None;
            panics("a panic of the user", || {
                let mut v = create_external_vector::<crate::G0>(s, &k, "s").expect("create");
                let mut m = create_multi_vector::<Idx32, VarA>(s, &l, "s").expect("create");
                e = fill_vec(&mut v, 3, rng).err().or(fill_multi(&mut m, 2, rng).err());
                let _item = m.grow().expect("grow");
                panic!("user");
            })?;
            if let Some(e) = e {
                return Err(e);
            }
            a.keys.insert(k, Kept::Unfinished);
            a.keys.insert(format!("{}_index", l), Kept::Unfinished);
            a.keys.insert(l, Kept::Unfinished);
            "panic of the user while writing"
        }
        3 => {
            ensure!(a.st.read("never written", "s").is_err() && a.st.read("x/never written", "s").is_err(), "a missing resource can be read");
            ensure!(a.st.read_resource("never written").is_err(), "a missing resource can be read");
            ensure!(!a.st.exists("never written"), "a missing resource exists");
            let ks: Vec<String> = a.keys.keys().cloned().collect();
            if let Some(k) = ks.first() {
                ensure!(a.st.read(k, "a schema nobody used").is_err(), "{} can be read with a wrong schema", k);
            }
            "reads refused"
        }
        4 => {
            // other archives are not there; the one being written may be there or not
            for x in ds {
                if x.name != d.name && x.name != a.other.name {
                    ensure!((x.open)(st.clone()).is_err(), "archive {} was never written but opens", x.name);
                }
            }
            guard(|| drop((d.open)(st.clone()))).map_err(|e| format!("opening an archive that is being written: {}", e))?;
            ensure!((d.open)(a.other_st.clone()).is_err() || d.name == a.other.name, "archive {} opens where it was never written", d.name);
            "opens refused"
        }
        5 => {
            if created {
                ensure!((d.create)(st.clone()).is_err(), "{} can be created twice", d.name);
            }
            ensure!((a.other.create)(a.other_st.clone()).is_err(), "{} can be created twice", a.other.name);
            "creations refused"
        }
        6 => {
            let n = a.vec_model.len();
            for i in &[n, n + 1, n + 1000, usize::max_value(), usize::max_value() / 2 + 1] {
                panics("Vector::at past the end", || a.vec.at(*i).clone())?;
                let v = &mut a.vec;
                panics("Vector::at_mut past the end", || {
                    v.at_mut(*i);
                })?;
                panics("ArrayView::at past the end", || a.vec.as_view().at(*i).clone())?;
                panics("ArrayView::slice past the end", || a.vec.as_view().slice(..=*i).len())?;
            }
            let view = a.vec.as_view();
            let mut it = view.iter();
            let mut got = vec![];
            while let Some(x) = it.next() {
                panics("ArrayView::at past the end", || view.at(n).clone())?;
                got.push(values::<crate::G0>(&x));
            }
            ensure!(got == a.vec_model, "an iterator yields other elements after accesses out of range");
            "accesses out of range"
        }
        7 => {
            let v = &mut a.vec;
            panics("reserving the impossible", || v.reserve(usize::max_value()))?;
            panics("creating the impossible", || Vector::<crate::G0>::with_len(usize::max_value()))?;
            "impossible capacities"
        }
        8 => {
            // one item of a multivector is malformed
            let vars = <VarA as VarDyn>::variants();
            let n = rng.range(1, 6);
            let items: Vec<Item> = (0..n).map(|_| rand_item(&vars, rng, 3)).collect();
            let bad_at = rng.below(n);
            let (mut index, mut data) = (vec![], vec![]);
            let mut push = |index: &mut Vec<u8>, o: usize| {
                let mut e = vec![0u8; <Idx32 as IdxInfo>::ISIZE];
                put_bits(&mut e, 0, <Idx32 as IdxInfo>::IBITS, o as u64);
                index.extend(e);
            };
            for (i, it) in items.iter().enumerate() {
                push(&mut index, data.len());
                let (_, b) = multi_payloads(&vars, <Idx32 as IdxInfo>::ISIZE, <Idx32 as IdxInfo>::IBITS, &[it.clone()]);
                data.extend(b);
                if i == bad_at {
                    data.extend(&[250u8, 1, 2, 3]);
                }
            }
            push(&mut index, data.len());
            let view = MultiArrayView::<Idx32, VarA>::new(ArrayView::new(&index), &data);
            let read = |i: usize| -> Item { view.at(i).map(|e| <VarA as VarDyn>::read(&e)).collect() };
            panics("reading an unknown type tag", || read(bad_at))?;
            panics("an item out of range", || read(n))?;
            // printing meets the malformed item; printing what is sound is not affected
            let sound = MultiArrayView::<Idx32, VarA>::new(ArrayView::new(&index[..(bad_at + 1) * <Idx32 as IdxInfo>::ISIZE]), &data);
            let before = (format!("{:?}", a.vec), format!("{:?}", sound));
            if bad_at < 10 {
                panics("printing an unknown type tag", || format!("{:?}", view))?;
                panics("printing an unknown type tag", || format!("{:?}", view.at(bad_at)))?;
                panics("printing an unknown type tag", || format!("{:?}", view.iter()))?;
            }
            ensure!(before == (format!("{:?}", a.vec), format!("{:?}", sound)), "views print differently after a panic while printing");
            let mut it = view.iter();
            for i in 0..n {
                let x = it.next().ok_or("an iterator ends after a panic")?;
                if i != bad_at {
                    let got: Item = x.map(|e| <VarA as VarDyn>::read(&e)).collect();
                    ensure!(got == items[i] && read(i) == items[i], "item {} is {:?} instead of {:?} after a panic at item {}", i, got, items[i], bad_at);
                }
            }
            "malformed items"
        }
        9 => {
            // the user panics in the middle of an element or item, and goes on with the same writer
            let (k, l) = (a.target(rng), a.fresh("stray"));
            let mut v = create_external_vector::<crate::G0>(a.st, &k, "s").map_err(|e| e.to_string())?;
            let mut m = create_multi_vector::<Idx32, VarA>(a.st, &l, "s").map_err(|e| e.to_string())?;
            let vars = <VarA as VarDyn>::variants();
            let r = (|| -> V {
                let mut want = fill_vec(&mut v, rng.below(3), rng)?;
                let x = rand_vals(fields_of::<crate::G0>(), rng);
                panics("a panic of the user", || {
                    let mut e = v.grow().expect("grow");
                    set_all::<crate::G0>(&mut e, &x);
                    if true {
                        panic!("user");
                    }
                })?;
                want.push(x);
                let mut items = fill_multi(&mut m, rng.below(3), rng)?;
                let part = rand_item(&vars, rng, 3);
                panics("a panic of the user", || {
                    let mut it = m.grow().expect("grow");
                    for (t, v) in &part {
                        <VarA as VarDyn>::add(&mut it, *t, v);
                    }
                    panic!("user");
                })?;
                items.push(part);
                want.extend(fill_vec(&mut v, rng.below(3), rng)?);
                items.extend(fill_multi(&mut m, rng.below(3), rng)?);
                ensure!(v.len() == want.len(), "a streaming vector has length {} instead of {} after a panic of the user", v.len(), want.len());
                let got = view_values::<crate::G0>(&v.close().map_err(|e| format!("close after a panic of the user: {}", e))?);
                ensure!(got == want, "a streaming vector has other elements after a panic of the user");
                let got = read_multi(&m.close().map_err(|e| format!("close after a panic of the user: {}", e))?);
                ensure!(got == items, "a multivector has other items after a panic of the user");
                let bytes = a.st.read(&k, "s").map_err(|e| e.to_string())?.to_vec();
                a.keys.insert(k.clone(), Kept::Done("s".into(), bytes));
                for x in &[l.clone(), format!("{}_index", l)] {
                    let s = if *x == l { "s" } else { "index(s)" };
                    let bytes = a.st.read(x, s).map_err(|e| e.to_string())?.to_vec();
                    a.keys.insert(x.clone(), Kept::Done(s.into(), bytes));
                }
                Ok(())
            })();
            if let Err(e) = r {
                return Err(e);
            }
            "panic of the user inside an element"
        }
        #[cfg(feature = "interpose")]
        10 if file => {
            let k = a.target(rng);
            let (s, b) = Around::rand_content(rng);
            start_fault(dir, rng);
            let r = guard(|| a.st.write(&k, &s, &b));
            interpose::stop();
            match r.map_err(|e| format!("a failing write: {}", e))? {
                Ok(()) => a.keys.insert(k, Kept::Done(s, b)),
                Err(_) => a.attempted(k, s, b),
            };
            "failing write"
        }
        #[cfg(feature = "interpose")]
        11 if file => {
            // reading and opening under faults; nothing is remembered of it
            let ks: Vec<String> = a.keys.keys().cloned().collect();
            start_fault(dir, rng);
            let other = guard(|| (a.other.open)(a.other_st.clone()).is_ok());
            let r = guard(|| {
                for k in &ks {
                    if let Kept::Done(s, b) = &a.keys[k] {
                        if let Ok(got) = a.st.read(k, s) {
                            if got != &b[..] {
                                return Some(k.clone());
                            }
                        }
                    }
                }
                None
            });
            interpose::stop();
            other.map_err(|e| format!("a failing open: {}", e))?;
            if let Some(k) = r.map_err(|e| format!("a failing read: {}", e))? {
                return Err(format!("{} reads differently while operations fail", k));
            }
            "failing reads"
        }
        #[cfg(feature = "interpose")]
        12 if file => {
            // a streaming writer that fails at some point
            let k = a.target(rng);
            let n = rng.below(4);
            start_fault(dir, rng);
            let r = guard(|| -> Result<(), String> {
                let mut w = create_external_vector::<crate::G0>(a.st, &k, "s").map_err(|e| e.to_string())?;
                for _ in 0..n {
                    w.grow().map_err(|e| e.to_string())?;
                }
                w.close().map(|_| ()).map_err(|e| e.to_string())
            });
            interpose::stop();
            let want = vec![0u8; n * <crate::G0 as Struct>::SIZE_IN_BYTES];
            match r.map_err(|e| format!("a failing streaming vector: {}", e))? {
                Ok(()) => a.keys.insert(k, Kept::Done("s".into(), want)),
                Err(_) => a.attempted(k, "s".into(), want),
            };
            "failing streaming vector"
        }
        13 if file => {
            // below something that is a file nothing can be created
            let ks: Vec<String> = a.keys.iter().filter(|(_, v)| if let Kept::Done(..) = v { true } else { false }).map(|(k, _)| k.clone()).collect();
            if ks.is_empty() {
                return Ok("nothing");
            }
            let k = rng.pick(&ks).clone();
            let below = a.st.subdir(&k);
            ensure!(guard(|| a.st.write(&format!("{}/x", k), "s", &[1, 2]).is_err())?, "a resource can be written below a file");
            ensure!(guard(|| below.write("x", "s", &[1, 2]).is_err())?, "a resource can be written below a file");
            ensure!(guard(|| create_external_vector::<crate::G0>(&*below, "x", "s").is_err())?, "a vector can be created below a file");
            ensure!(guard(|| create_multi_vector::<Idx32, VarA>(a.st, &format!("{}/x/y", k), "s").is_err())?, "a multivector can be created below a file");
            ensure!(guard(|| (d.create)(below.clone()).is_err())?, "an archive can be created below a file");
            ensure!(guard(|| below.read("x", "s").is_err())? && !below.exists("x"), "something below a file can be read");
            "creations below a file"
        }
        14 => {
            // printing to something that fails
            use std::fmt::Write;
            let view = a.vec.as_view();
            let small = Vector::<crate::G0>::with_len(2);
            let want = [format!("{:?}", view), format!("{:?}", a.vec), format!("{:?}", view.iter()), format!("{:#?}", small.at(0)), format!("{:?}", a.st.read("never written", "s"))];
            let print = |k: usize, to: &mut Sink| match k {
                0 => write!(to, "{:?}", view),
                1 => write!(to, "{:?}", a.vec),
                2 => write!(to, "{:?}", view.iter()),
                3 => write!(to, "{:#?}", small.at(0)),
                _ => write!(to, "{:?}", a.st.read("never written", "s")),
            };
            for k in 0..want.len() {
                let cut = rng.below(want[k].len());
                for panic in &[false, true] {
                    let mut to = Sink { n: cut, panic: *panic, got: String::new() };
                    let r = guard(|| print(k, &mut to));
                    ensure!(r.is_err() == *panic && (*panic || r == Ok(Err(std::fmt::Error))), "printing to a writer that {} at byte {} of {} gives {:?}", if *panic { "panics" } else { "fails" }, cut, want[k].len(), r);
                    ensure!(want[k].starts_with(&to.got), "printed {:?}, which is not how {:?} begins", to.got, want[k]);
                    let mut to = Sink { n: want[k].len(), panic: true, got: String::new() };
                    print(k, &mut to).map_err(|e| e.to_string())?;
                    ensure!(to.got == want[k], "prints as {:?} instead of {:?} after printing failed", to.got, want[k]);
                }
            }
            "failing printing"
        }
        15 => {
            // a stream the user holds, writes into and panics with
            let k = a.fresh("stray");
            let other = a.fresh("stray");
            let stream = a.st.create_output_stream(&k).map_err(|e| e.to_string())?;
            let s = a.st;
            let mut e = None;
            panics("a panic of the user", || {
                use std::io::Write;
                let mut w = stream.borrow_mut();
                w.write_all(b"0123").expect("write");
                // the stream is in use, other resources are not
                e = s.write(&other, "s", &[5, 6]).err().map(|e| e.to_string());
                if e.is_none() {
                    e = match s.read(&other, "s") {
                        Ok(b) if b == &[5, 6][..] => None,
                        x => Some(format!("{:?}", x)),
                    };
                }
                if s.exists("never written") || !s.exists(&other) {
                    e = Some("wrong existence".into());
                }
                if file {
                    // of a stream in memory the content is borrowed
                    let _ = s.read(&k, "s");
                }
                panic!("user");
            })?;
            if let Some(e) = e {
                return Err(format!("while a stream is in use, another resource is not written and read: {}", e));
            }
            drop(stream);
            a.keys.insert(other, Kept::Done("s".into(), vec![5, 6]));
            a.keys.insert(k, Kept::Unfinished);
            "panic of the user while using a stream"
        }
        _ => {
            let data = vec![7u8; 3];
            panics("a struct of too few bytes", || crate::G2::create(&data[..0]).clone())?;
            let empty = ArrayView::<crate::G0>::new(&data[..0]);
            panics("an element of nothing", || empty.at(0).clone())?;
            panics("an inverted range", || a.vec.as_view().slice(1..0).len())?;
            "misuse of views"
        }
    })
}

#[cfg(feature = "interpose")]
fn start_fault(dir: &FsPath, rng: &mut Rng) {
    let errno = *rng.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EMFILE, libc::ENOMEM]);
    let m = Mode::Fail { at: rng.below(8), errno, partial: rng.below(10), stick: rng.chance(1, 2) };
    if rng.chance(1, 3) {
        interpose::start_with_stats(dir, m);
    } else {
        interpose::start(dir, m);
    }
}

fn c25_case(c: &mut Ctx, size: usize) -> V {
    let ds: Vec<ArchDesc> = vec![flat(), leaf(), mid(), pure()];
    let d = any_desc(c);
    let m = rand_model(&d, &mut c.rng, size);
    let mut plan = rand_plan_rewriting(&d, &m, &mut c.rng);
    let file = pick_file(c);
    // resources that are begun and abandoned before they are written
    let starts: Vec<Path> = plan.iter().filter_map(|s| if let Step::Start(p) = s { Some(p.clone()) } else { None }).collect();
    for p in starts {
        if c.rng.chance(1, 3) {
            let lo = plan.iter().position(|s| *s == Step::Create(p[..p.len() - 1].to_vec())).unwrap() + 1;
            let hi = plan.iter().position(|s| *s == Step::Start(p.clone())).unwrap();
            plan.insert(c.rng.range(lo, hi), Step::Abandon(p, c.rng.next()));
        }
    }
    let seed = c.rng.next();
    let desc = case_of(c, "failing calls in between", &d, &m, file, &format!("{} (seed {})", show_plan(&d, &plan), seed));
    let dir = c.dir();
    let st = new_storage(file, &dir);
    let mut rng = Rng::new(seed);
    let other = leaf();
    let other_model = rand_model(&other, &mut rng, 5);
    let other_st = st.subdir("elsewhere");
    let other_plan = rand_plan(&other, &other_model, &mut rng);
    write_all(&other, &other_model, &other_st, &other_plan).map_err(|e| format!("{}: other archive: {}", desc, e))?;
    let other_open = (other.open)(other_st.clone()).map_err(|e| format!("{}: other archive: {}", desc, e))?;
    let mut a = Around {
        st: &*st,
        keys: BTreeMap::new(),
        held: vec![],
        vec: Vector::new(),
        vec_model: vec![],
        other,
        other_st,
        other_model,
        other_open,
        next: 0,
    };
    let mut kinds: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut log: Vec<&'static str> = vec![];
    {
        let mut ex = Exec::new(&d, &m, st.clone());
        let density = rng.range(1, 6);
        let mut r = (|| -> V {
            let mut created = false;
            for s in plan.iter() {
                while rng.chance(density, 8) {
                    let k = bad(&mut a, &ds, &d, created, file, &dir, &st, &mut rng).map_err(|e| format!("after {}: {}", hist(&log), e))?;
                    log.push(k);
                    *kinds.entry(k).or_insert(0) += 1;
                    a.check(&mut rng, false).map_err(|e| format!("after {}: {}", hist(&log), e))?;
                }
                #[cfg(feature = "interpose")]
                {
                    let setting = match s {
                        Step::Set(..) | Step::Draft(..) => true,
                        _ => false,
                    };
                    if file && setting && rng.chance(1, 4) {
                        // the first attempt meets a fault
                        start_fault(&dir, &mut rng);
                        let r = guard(|| ex.step(s).map_err(|e| format!("{:?}", e)));
                        interpose::stop();
                        let r = r.map_err(|e| format!("a failing step panics: {}", e))?;
                        if r.is_err() {
                            *kinds.entry("failing steps of the archive's own").or_insert(0) += 1;
                            log.push("failed step");
                        }
                    }
                }
                ex.step(s).map_err(|e| format!("after [{}]: step {} fails: {:?}", hist(&log), show_plan(&d, &[s.clone()]), e))?;
                created = true;
                if let Some(x) = ex.mismatch.take() {
                    return Err(format!("after [{}]: {}", hist(&log), x));
                }
            }
            Ok(())
        })();
        if r.is_err() {
            // do not let the open writers hide the violation
            let _ = guard(|| drop(std::mem::replace(&mut ex.writers, BTreeMap::new())));
        }
        r = r.map_err(|e| format!("{}: {}", desc, e));
        r?;
    }
    for _ in 0..rng.below(4) {
        let k = bad(&mut a, &ds, &d, true, file, &dir, &st, &mut rng).map_err(|e| format!("{}: after [{}]: {}", desc, hist(&log), e))?;
        log.push(k);
        *kinds.entry(k).or_insert(0) += 1;
    }
    a.check(&mut rng, true).map_err(|e| format!("{}: after [{}]: {}", desc, hist(&log), e))?;
    for (what, s) in vec![("same handle", st.clone()), ("reader's handle", reader(file, &dir, &st))] {
        match open_model(&d, &s).map_err(|e| format!("{}: after [{}]: opening: {}", desc, hist(&log), e))? {
            Ok(g) => {
                if let Some(x) = diff_models(&d, &g, &m) {
                    return Err(format!("{}: after [{}]: {}: {}", desc, hist(&log), what, x));
                }
            }
            Err(e) => return Err(format!("{}: after [{}]: cannot be opened ({}): {}", desc, hist(&log), what, e)),
        }
    }
    c.count("held slices, keys and vectors compared after failing calls", log.len() as u64 * 3);
    for (k, n) in &kinds {
        c.count(k, *n);
    }
    if !log.is_empty() {
        c.nontrivial(fnv(desc.as_bytes()));
    }
    drop(a);
    clean(&dir);
    Ok(())
}

pub fn c25(c: &mut Ctx) -> V {
    for _ in 0..c.n(1500, 60000) {
        c25_case(c, if c.slow() { 2 } else { 8 })?;
    }
    Ok(())
}
