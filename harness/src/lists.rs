//! C09 vectors, C10 array views, C11 multivector views, C20 equality/copy/print: list models.
use crate::archives::*;
use crate::codec::*;
use crate::ctx::*;
use crate::ensure;
use crate::fields::background;
use crate::rng::Rng;
use flatdata::{ArrayView, MultiArrayView, StructBuf, Vector};
use std::collections::VecDeque;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::ops::Bound;

fn codec<T: D>() -> &'static dyn Codec {
    &Of::<T>(PhantomData)
}

/// Indices that are out of range for `len`, including ones whose byte offset wraps around.
fn bad_index(rng: &mut Rng, len: usize, size: usize) -> usize {
    match rng.below(9) {
        0 => len,
        1 => len + 1,
        2 => len + rng.below(9),
        3 => usize::max_value(),
        4 => (usize::max_value() / size).max(len),
        5 => (usize::max_value() / size).wrapping_add(1).max(len),
        6 => (usize::max_value() / size).wrapping_add(1 + rng.below(len + 1)).max(len),
        7 => usize::max_value() / 2 + 1 + rng.below(3),
        _ => (rng.next() as usize).max(len),
    }
}

pub fn bad_or_good_index(rng: &mut Rng, len: usize, size: usize) -> usize {
    if rng.chance(1, 2) {
        bad_index(rng, len, size.max(1))
    } else {
        rng.below(len + 1)
    }
}

//
// C09
//
pub fn c09<T: D>(c: &mut Ctx) -> V {
    let size = size_of::<T>();
    let fields = fields_of::<T>();
    let n0 = match c.rng.below(2) {
        0 => 0,
        _ if !cfg!(miri) && size < 1000 && c.rng.chance(1, 300) => c.rng.outsized(1 << 17) / size,
        _ => c.rng.below(6),
    };
    let steps = c.rng.range(1, 40);
    let mut log = format!("Vector<{}>", name_of::<T>());
    // several vectors with their models (field values and full element bytes are both checked)
    let mut vs: Vec<(Vector<T>, Vec<Vec<u8>>)> = vec![];
    if n0 == 0 && c.rng.chance(1, 2) {
        log += " new";
        vs.push((if c.rng.chance(1, 2) { Vector::new() } else { Vector::default() }, vec![]));
    } else {
        log += &format!(" with_len({})", n0);
        vs.push((Vector::with_len(n0), vec![vec![0; size]; n0]));
    }
    let mut hits = 0;
    for _ in 0..steps {
        let k = c.rng.below(vs.len());
        let len = vs[k].1.len();
        match c.rng.below(12) {
            0..=3 => {
                log += &format!("; v{}.grow", k);
                c.cur = log.clone();
                let mut sets = vec![];
                for (i, f) in fields.iter().enumerate() {
                    if c.rng.chance(2, 3) {
                        sets.push((i, rand_value(&mut c.rng, f)));
                    }
                }
                let fresh = {
                    let v = &mut vs[k].0;
                    guard(|| {
                        let mut m = v.grow();
                        let fresh = values_mut::<T>(&m);
                        for (i, x) in &sets {
                            <T as Dyn>::set(&mut m, *i, *x);
                        }
                        fresh
                    })?
                };
                ensure!(fresh.iter().all(|x| *x == 0), "{}: appended element is not zero: {:?}", log, fresh);
                let mut e = vec![0; size];
                for (i, x) in &sets {
                    let f = &fields[*i];
                    put_bits(&mut e, f.off, f.bits, raw_of(&f.ty, f.bits, *x));
                }
                log += &format!(" set {:?}", sets);
                vs[k].1.push(e);
            }
            4 | 5 if len > 0 => {
                let j = c.rng.below(len);
                let i = c.rng.below(fields.len());
                let f = &fields[i];
                let x = rand_value(&mut c.rng, f);
                log += &format!("; v{}[{}].{}={}", k, j, f.name, x);
                c.cur = log.clone();
                let v = &mut vs[k].0;
                guard(|| {
                    let mut m = v.at_mut(j);
                    <T as Dyn>::set(&mut m, i, x);
                })?;
                put_bits(&mut vs[k].1[j], f.off, f.bits, raw_of(&f.ty, f.bits, x));
            }
            6 => {
                let n = c.rng.below(50);
                log += &format!("; v{}.reserve({})", k, n);
                c.cur = log.clone();
                let v = &mut vs[k].0;
                guard(|| v.reserve(n))?;
            }
            7 if vs.len() > 1 && c.rng.chance(1, 2) => {
                let j = c.rng.below(vs.len());
                if j != k {
                    log += &format!("; v{}.clone_from(v{})", k, j);
                    c.cur = log.clone();
                    let src = guard(|| vs[j].0.clone())?;
                    let m = vs[j].1.clone();
                    guard(|| vs[k].0.clone_from(&src))?;
                    vs[k].1 = m;
                }
            }
            7 if vs.len() < 4 => {
                log += &format!("; clone v{}", k);
                let x = guard(|| vs[k].0.clone())?;
                let m = vs[k].1.clone();
                vs.push((x, m));
            }
            8 | 9 => {
                let j = bad_index(&mut c.rng, len, size);
                log += &format!("; v{}[{}] (len {})", k, j, len);
                c.cur = log.clone();
                hits += 1;
                let v = &mut vs[k].0;
                if c.rng.chance(1, 2) {
                    // only the accessor is taken here; reading through it would be undefined behaviour if it was handed out
                    ensure!(guard(|| { v.at(j); }).is_err(), "{}: at({}) on a vector of {} elements did not panic", log, j, len);
                } else {
                    ensure!(guard(|| { v.at_mut(j); }).is_err(), "{}: at_mut({}) on a vector of {} elements did not panic", log, j, len);
                }
            }
            10 if vs.len() > 1 => {
                log += &format!("; drop v{}", k);
                vs.remove(k);
            }
            _ => {
                // full read-out through a random route, kept values compared below
            }
        }
        for (n, (v, m)) in vs.iter().enumerate() {
            let len = m.len();
            c.cur = log.clone();
            let flat: Vec<u8> = m.concat();
            ensure!(v.len() == len && v.is_empty() == (len == 0), "{}: v{} len {} want {}", log, n, v.len(), len);
            ensure!(v.size_in_bytes() == len * size, "{}: v{} size_in_bytes {} want {}", log, n, v.size_in_bytes(), len * size);
            ensure!(v.as_bytes() == &flat[..] && v.as_ref() == &flat[..], "{}: v{} bytes {} want {}", log, n, hex(v.as_bytes()), hex(&flat));
            let view = guard(|| v.as_view())?;
            ensure!(view.as_bytes() == &flat[..] && view.len() == len, "{}: v{} as_view differs", log, n);
            let from = ArrayView::from(v);
            ensure!(from.len() == len && from.as_ref() == &flat[..], "{}: v{} ArrayView::from differs", log, n);
            if size < 1000 && c.rng.chance(1, 3) {
                for j in 0..len {
                    let w = decode(fields, &m[j]);
                    let a = guard(|| values::<T>(&v.at(j)))?;
                    let b = guard(|| values::<T>(&view.at(j)))?;
                    ensure!(a == w && b == w, "{}: v{}[{}] = {:?} (view {:?}) want {:?}", log, n, j, a, b, w);
                }
            }
        }
    }
    c.count("vector operations observed", steps as u64);
    c.count("out-of-range accesses observed", hits);
    c.case(log);
    c.nontrivial_cur();
    Ok(())
}

//
// ranges and iterators, shared by C10 and C11
//
pub type Rg = (Bound<usize>, Bound<usize>);

fn rand_bound(rng: &mut Rng, len: usize) -> usize {
    match rng.below(16) {
        0 => usize::max_value(),
        1 => usize::max_value() - 1,
        2 => len + 1,
        3 => len + 2,
        4 => rng.next() as usize,
        5 => len,
        // byte offsets of small elements that wrap around
        6 => (usize::max_value() / (1 + rng.below(40))).wrapping_add(rng.below(3)),
        _ => rng.below(len + 1),
    }
}
pub fn rand_range(rng: &mut Rng, len: usize) -> Rg {
    let s = match rng.below(5) {
        0 => Bound::Unbounded,
        1 => Bound::Excluded(rand_bound(rng, len)),
        _ => Bound::Included(rand_bound(rng, len)),
    };
    let e = match rng.below(5) {
        0 => Bound::Unbounded,
        1 | 2 => Bound::Included(rand_bound(rng, len)),
        _ => Bound::Excluded(rand_bound(rng, len)),
    };
    (s, e)
}
/// The element range denoted by `r`, or None if it is not inside 0..len.
pub fn resolve(r: &Rg, len: usize) -> Option<(usize, usize)> {
    let s = match r.0 {
        Bound::Included(x) => x,
        Bound::Excluded(x) => x.checked_add(1)?,
        Bound::Unbounded => 0,
    };
    let e = match r.1 {
        Bound::Included(x) => x.checked_add(1)?,
        Bound::Excluded(x) => x,
        Bound::Unbounded => len,
    };
    if s <= e && e <= len {
        Some((s, e))
    } else {
        None
    }
}

/// Drives an iterator and a deque through the same random operations.
fn drive<I, X, F>(rng: &mut Rng, it: I, model: &[X], f: F, log: &mut String) -> Result<u64, String>
where
    I: Iterator + DoubleEndedIterator + ExactSizeIterator + Clone + Debug,
    X: Clone + PartialEq + Debug,
    F: Fn(I::Item) -> X + Copy,
{
    let mut it = it;
    let mut m: VecDeque<X> = model.iter().cloned().collect();
    let steps = rng.range(1, 14);
    for _ in 0..steps {
        let far = |rng: &mut Rng, n: usize| match rng.below(6) {
            0 => n,
            1 => n + 1,
            2 => usize::max_value(),
            _ => rng.below(n + 1),
        };
        match rng.below(12) {
            0..=2 => {
                *log += ".next";
                let a = guard(|| it.next().map(f)).map_err(|e| format!("{}: {}", log, e))?;
                let b = m.pop_front();
                ensure!(a == b, "{}: got {:?} want {:?}", log, a, b);
            }
            3..=5 => {
                *log += ".next_back";
                let a = guard(|| it.next_back().map(f)).map_err(|e| format!("{}: {}", log, e))?;
                let b = m.pop_back();
                ensure!(a == b, "{}: got {:?} want {:?}", log, a, b);
            }
            6 => {
                let k = far(rng, m.len());
                *log += &format!(".nth({})", k);
                let a = guard(|| it.nth(k).map(f)).map_err(|e| format!("{}: {}", log, e))?;
                let b = if k < m.len() {
                    m.drain(..k);
                    m.pop_front()
                } else {
                    m.clear();
                    None
                };
                ensure!(a == b, "{}: got {:?} want {:?}", log, a, b);
            }
            7 => {
                let k = far(rng, m.len());
                *log += &format!(".nth_back({})", k);
                let a = guard(|| it.nth_back(k).map(f)).map_err(|e| format!("{}: {}", log, e))?;
                let b = if k < m.len() {
                    let n = m.len() - k;
                    m.truncate(n);
                    m.pop_back()
                } else {
                    m.clear();
                    None
                };
                ensure!(a == b, "{}: got {:?} want {:?}", log, a, b);
            }
            8 => {
                *log += ".clone";
                let it2 = it.clone();
                let a: Vec<X> = guard(|| it2.map(f).collect()).map_err(|e| format!("{}: {}", log, e))?;
                let b: Vec<X> = m.iter().cloned().collect();
                ensure!(a == b, "{}.collect: got {} elements want {}", log, a.len(), b.len());
            }
            9 => {
                let a: Vec<X> = guard(|| it.clone().rev().map(f).collect()).map_err(|e| format!("{}.rev: {}", log, e))?;
                let b: Vec<X> = m.iter().rev().cloned().collect();
                ensure!(a == b, "{}.rev.collect: got {} elements want {}", log, a.len(), b.len());
            }
            10 => {
                // adaptors that rely on the exact size
                let k = rng.below(m.len() + 3);
                let w = m.len().saturating_sub(k);
                let a = guard(|| it.clone().skip(k).len()).map_err(|e| format!("{}.skip({}).len(): {}", log, k, e))?;
                ensure!(a == w, "{}.skip({}).len() = {} want {}", log, k, a, w);
                let a = guard(|| it.clone().take(k).len()).map_err(|e| format!("{}.take({}).len(): {}", log, k, e))?;
                ensure!(a == m.len().min(k), "{}.take({}).len() = {} want {}", log, k, a, m.len().min(k));
                let s = 1 + rng.below(4);
                let a: Vec<X> = guard(|| it.clone().step_by(s).map(f).collect()).map_err(|e| format!("{}.step_by: {}", log, e))?;
                let b: Vec<X> = m.iter().step_by(s).cloned().collect();
                ensure!(a == b, "{}.step_by({}): got {} elements want {}", log, s, a.len(), b.len());
                let a = guard(|| it.clone().enumerate().rev().map(|(i, x)| (i, f(x))).collect::<Vec<_>>())
                    .map_err(|e| format!("{}.enumerate.rev: {}", log, e))?;
                let b: Vec<(usize, X)> = m.iter().cloned().enumerate().rev().collect();
                ensure!(a == b, "{}.enumerate().rev() differs", log);
                let a = guard(|| it.clone().zip(it.clone().skip(1)).rev().map(|(x, y)| (f(x), f(y))).collect::<Vec<_>>())
                    .map_err(|e| format!("{}.zip.rev: {}", log, e))?;
                let b: Vec<(X, X)> = m.iter().cloned().zip(m.iter().cloned().skip(1)).rev().collect();
                ensure!(a == b, "{}.zip(skip(1)).rev() differs", log);
            }
            _ => {
                let a = guard(|| (it.clone().count(), it.clone().last().map(f), it.clone().fold(0usize, |n, _| n + 1), it.clone().rfold(0usize, |n, _| n + 1)))
                    .map_err(|e| format!("{}.count: {}", log, e))?;
                let b = (m.len(), m.back().cloned(), m.len(), m.len());
                ensure!(a == b, "{}: count/last/fold/rfold {:?} want {:?}", log, a, b);
                guard(|| format!("{:?}", it)).map_err(|e| format!("{}: Debug: {}", log, e))?;
            }
        }
        let n = guard(|| it.len()).map_err(|e| format!("{}.len(): {}", log, e))?;
        ensure!(n == m.len(), "{}: iterator len {} want {}", log, n, m.len());
        let h = guard(|| it.size_hint())?;
        ensure!(h == (m.len(), Some(m.len())), "{}: size_hint {:?} want exactly {}", log, h, m.len());
        if m.is_empty() {
            for _ in 0..3 {
                ensure!(guard(|| it.next().is_none())?, "{}: exhausted iterator yields from the front", log);
                ensure!(guard(|| it.next_back().is_none())?, "{}: exhausted iterator yields from the back", log);
            }
        }
    }
    Ok(steps as u64)
}

//
// C10
//
pub fn c10<T: D>(c: &mut Ctx) -> V {
    let size = size_of::<T>();
    let cd = codec::<T>();
    let n = match c.rng.below(4) {
        0 => 0,
        1 => 1,
        _ if !cfg!(miri) && size < 1000 && c.rng.chance(1, 400) => c.rng.outsized(1 << 18) / size,
        _ => c.rng.range(0, 14),
    };
    let extra = if c.rng.chance(1, 3) { c.rng.below(size) } else { 0 };
    let mut data = vec![];
    for _ in 0..n {
        data.extend_from_slice(&background(cd, &mut c.rng, size));
    }
    data.extend_from_slice(&c.rng.bytes(extra));
    let data = data.into_boxed_slice();
    let model: Vec<Vals> = (0..n).map(|i| cd.decode(&data[i * size..(i + 1) * size])).collect();
    let mut log = format!("ArrayView<{}> of {} bytes ({} elements)", cd.name(), data.len(), n);
    let mut view = ArrayView::<T>::new(&data);
    ensure!(view.as_bytes() == &data[..], "{}: as_bytes differs", log);
    let mut lo = 0;
    let mut hi = n;
    let mut bad = 0u64;
    let mut ops = 0u64;
    let rounds = c.rng.range(1, 6);
    for _ in 0..rounds {
        let m = &model[lo..hi];
        c.cur = log.clone();
        ensure!(view.len() == m.len() && view.is_empty() == m.is_empty(), "{}: len {} want {}", log, view.len(), m.len());
        for (i, w) in m.iter().enumerate() {
            let g = guard(|| values::<T>(&view.at(i)))?;
            ensure!(&g == w, "{}: at({}) = {:?} want {:?}", log, i, g, w);
        }
        for _ in 0..2 {
            let j = bad_index(&mut c.rng, m.len(), size);
            bad += 1;
            ensure!(guard(|| { view.at(j); }).is_err(), "{}: at({}) did not panic (len {})", log, j, m.len());
        }
        // whole iteration by the IntoIterator impls
        let a: Vec<Vals> = guard(|| view.clone().into_iter().map(|r| values::<T>(&r)).collect())?;
        let b: Vec<Vals> = guard(|| {
            let mut o = vec![];
            for r in &view {
                o.push(values::<T>(&r));
            }
            o
        })?;
        ensure!(a == m && b == m, "{}: iteration yields {} / {} elements want {}", log, a.len(), b.len(), m.len());
        let mut il = format!("{}.iter()", log);
        let v2 = view.clone();
        ops += drive(&mut c.rng, v2.iter(), m, |r| values::<T>(&r), &mut il)?;
        // slicing: a few probes, then continue in one valid sub-slice
        let mut nextv = None;
        for _ in 0..4 {
            let r = rand_range(&mut c.rng, m.len());
            let s = guard(|| view.slice(r));
            ops += 1;
            match resolve(&r, m.len()) {
                None => {
                    bad += 1;
                    ensure!(s.is_err(), "{}: slice({:?}) of {} elements did not panic", log, r, m.len());
                }
                Some((x, y)) => {
                    let s = s.map_err(|e| format!("{}: slice({:?}) of {} elements: {}", log, r, m.len(), e))?;
                    ensure!(s.len() == y - x, "{}: slice({:?}) has {} elements want {}", log, r, s.len(), y - x);
                    let g: Vec<Vals> = guard(|| view_values::<T>(&s))?;
                    ensure!(g == m[x..y], "{}: slice({:?}) holds other elements", log, r);
                    nextv = Some((s, lo + x, lo + y, r));
                }
            }
        }
        // the range types of the language
        if m.len() >= 2 {
            let k = c.rng.range(1, m.len() - 1);
            let l = m.len();
            let got = guard(|| {
                vec![
                    view_values::<T>(&view.slice(k..)),
                    view_values::<T>(&view.slice(..k)),
                    view_values::<T>(&view.slice(..=k)),
                    view_values::<T>(&view.slice(1..=k)),
                    view_values::<T>(&view.slice(..)),
                    view_values::<T>(&view.slice(k..l)),
                ]
            })?;
            let want = vec![m[k..].to_vec(), m[..k].to_vec(), m[..=k].to_vec(), m[1..=k].to_vec(), m.to_vec(), m[k..l].to_vec()];
            ensure!(got == want, "{}: slicing at {} differs", log, k);
        }
        match nextv {
            Some((s, a, b, r)) => {
                log += &format!(".slice({:?})", r);
                view = s;
                lo = a;
                hi = b;
            }
            None => break,
        }
    }
    c.count("view operations observed", ops);
    c.count("out-of-range accesses observed", bad);
    c.case(format!("{} data {}", log, hex(&data)));
    c.nontrivial_cur();
    Ok(())
}

//
// C11
//
pub fn c11_one<I: IdxInfo, T: Var>(c: &mut Ctx, max: usize) -> V {
    let vars = <T as VarDyn>::variants();
    let n = match c.rng.below(4) {
        0 => 0,
        1 => 1,
        _ if max > 9 && !cfg!(miri) && c.rng.chance(1, 400) => c.rng.outsized(5000),
        _ => c.rng.range(0, max),
    };
    let mut items: Vec<Item> = (0..n).map(|_| rand_item(&vars, &mut c.rng, 4)).collect();
    if n > 0 && n < 99 && max > 9 && !cfg!(miri) && c.rng.chance(1, 300) {
        let k = c.rng.below(n);
        let l = c.rng.outsized(5000);
        items[k] = rand_item(&vars, &mut c.rng, l);
    }
    let (index, data) = multi_payloads(&vars, I::ISIZE, I::IBITS, &items);
    let index = index.into_boxed_slice();
    let data = data.into_boxed_slice();
    let mut log = format!("MultiArrayView of {} items ({} index bytes, {} data bytes)", n, index.len(), data.len());
    c.cur = log.clone();
    let mut view = guard(|| MultiArrayView::<I, T>::new(ArrayView::new(&index), &data))?;
    let mut lo = 0;
    let mut hi = n;
    let (mut bad, mut ops) = (0u64, 0u64);
    let rounds = c.rng.range(1, 5);
    for _ in 0..rounds {
        let m = &items[lo..hi];
        let len = guard(|| view.len())?;
        ensure!(len == m.len() && view.is_empty() == m.is_empty(), "{}: len {} want {}", log, len, m.len());
        for (i, w) in m.iter().enumerate() {
            let it = guard(|| view.at(i))?;
            let hint = it.size_hint();
            ensure!(hint.0 <= w.len() && hint.1.map_or(true, |h| h >= w.len()), "{}: item {} size_hint {:?} but {} elements", log, i, hint, w.len());
            let g: Item = guard(|| it.clone().map(|e| <T as VarDyn>::read(&e)).collect())?;
            ensure!(&g == w, "{}: item {} = {:?} want {:?}", log, i, g, w);
            let mut it = it;
            guard(|| {
                while let Some(_) = it.next() {}
            })?;
            for _ in 0..3 {
                ensure!(guard(|| it.next().is_none())?, "{}: exhausted item iterator yields again", log);
            }
            guard(|| format!("{:?}", view.at(i)))?;
        }
        for _ in 0..2 {
            let j = bad_index(&mut c.rng, m.len(), I::ISIZE);
            bad += 1;
            ensure!(guard(|| { view.at(j); }).is_err(), "{}: at({}) did not panic (len {})", log, j, m.len());
        }
        let read = |it: flatdata_item::It<'_, T>| it.0.map(|e| <T as VarDyn>::read(&e)).collect::<Item>();
        let a: Vec<Item> = guard(|| view.clone().into_iter().map(|x| read(flatdata_item::It(Box::new(x)))).collect())?;
        let b: Vec<Item> = guard(|| (&view).into_iter().map(|x| read(flatdata_item::It(Box::new(x)))).collect())?;
        ensure!(a == m && b == m, "{}: iteration yields {} / {} items want {}", log, a.len(), b.len(), m.len());
        let mut il = format!("{}.iter()", log);
        let v2 = view.clone();
        ops += drive(&mut c.rng, v2.iter(), m, |x| read(flatdata_item::It(Box::new(x))), &mut il)?;
        let mut nextv = None;
        for _ in 0..4 {
            let r = rand_range(&mut c.rng, m.len());
            ops += 1;
            let s = guard(|| view.slice(r));
            match resolve(&r, m.len()) {
                None => {
                    bad += 1;
                    ensure!(s.is_err(), "{}: slice({:?}) of {} items did not panic", log, r, m.len());
                }
                Some((x, y)) => {
                    let s = s.map_err(|e| format!("{}: slice({:?}) of {} items: {}", log, r, m.len(), e))?;
                    let l = guard(|| s.len())?;
                    ensure!(l == y - x, "{}: slice({:?}) has {} items want {}", log, r, l, y - x);
                    let g = guard(|| read_multi::<I, T>(&s))?;
                    ensure!(g == m[x..y], "{}: slice({:?}) holds other items", log, r);
                    nextv = Some((s, lo + x, lo + y, r));
                }
            }
        }
        match nextv {
            Some((s, a, b, r)) => {
                log += &format!(".slice({:?})", r);
                view = s;
                lo = a;
                hi = b;
            }
            None => break,
        }
    }
    c.count("view operations observed", ops);
    c.count("out-of-range accesses observed", bad);
    c.case(format!("{} items {:?}", log, items));
    c.nontrivial_cur();
    Ok(())
}

/// A nameable wrapper for the item iterator type, which flatdata does not export.
mod flatdata_item {
    use flatdata::VariadicStruct;
    pub struct It<'a, T: VariadicStruct<'a>>(pub Box<dyn Iterator<Item = <T as VariadicStruct<'a>>::Item> + 'a>);
}

/// Views one after the other in the same place: each shows what is there now.
fn c11_place<I: IdxInfo, T: Var>(c: &mut Ctx) -> V {
    let vars = <T as VarDyn>::variants();
    let mut index = vec![0u8; 0];
    let mut data = vec![0u8; 0];
    index.reserve(4096);
    data.reserve(1 << 16);
    let n = c.rng.range(1, 8);
    let mut log = format!("MultiArrayViews of {} items in one place", n);
    for round in 0..c.rng.range(2, 6) {
        let items: Vec<Item> = (0..n).map(|_| rand_item(&vars, &mut c.rng, 3)).collect();
        let (i, d) = multi_payloads(&vars, I::ISIZE, I::IBITS, &items);
        if i.len() > 4096 || d.len() > 1 << 16 {
            return Ok(());
        }
        index.clear();
        index.extend_from_slice(&i);
        data.clear();
        data.extend_from_slice(&d);
        log += &format!("; view {}:", round);
        let view = guard(|| MultiArrayView::<I, T>::new(ArrayView::new(&index), &data))?;
        macro_rules! read {
            ($it:expr) => {
                $it.map(|e| <T as VarDyn>::read(&e)).collect::<Item>()
            };
        }
        for _ in 0..c.rng.range(1, 4) {
            let k = c.rng.below(n);
            let (got, want) = match c.rng.below(3) {
                0 => {
                    log += &format!(" at({})", k);
                    (vec![guard(|| read!(view.at(k)))?], vec![items[k].clone()])
                }
                1 => {
                    log += &format!(" slice({}..)", k);
                    (guard(|| view.slice(k..).iter().map(|x| read!(x)).collect())?, items[k..].to_vec())
                }
                _ => {
                    log += &format!(" skip({})", k);
                    (guard(|| view.iter().skip(k).take(1).map(|x| read!(x)).collect())?, vec![items[k].clone()])
                }
            };
            ensure!(got == want, "{} yields {:?} want {:?}", log, got, want);
        }
    }
    c.case(log);
    c.count("views at the place of an earlier one", 1);
    Ok(())
}

/// The same for views on elements.
pub fn c10_place<T: D>(c: &mut Ctx) -> V {
    let size = size_of::<T>();
    let cd = codec::<T>();
    let n = c.rng.range(1, 8);
    let mut data = vec![0u8; n * size];
    let mut log = format!("ArrayViews<{}> of {} elements in one place", cd.name(), n);
    for round in 0..c.rng.range(2, 6) {
        for k in 0..n {
            if round == 0 || c.rng.chance(1, 2) {
                let b = background(cd, &mut c.rng, size);
                data[k * size..(k + 1) * size].copy_from_slice(&b);
            }
        }
        log += &format!("; view {}:", round);
        let view = ArrayView::<T>::new(&data);
        for _ in 0..c.rng.range(1, 4) {
            let k = c.rng.below(n);
            let want = cd.decode(&data[k * size..(k + 1) * size]);
            let got = match c.rng.below(3) {
                0 => {
                    log += &format!(" at({})", k);
                    guard(|| values::<T>(&view.at(k)))?
                }
                1 => {
                    log += &format!(" slice({}..)", k);
                    guard(|| values::<T>(&view.slice(k..).at(0)))?
                }
                _ => {
                    log += &format!(" skip({})", k);
                    guard(|| values::<T>(&view.iter().skip(k).next().unwrap()))?
                }
            };
            ensure!(got == want, "{} yields {:?} want {:?}", log, got, want);
        }
    }
    c.case(log);
    c.count("views at the place of an earlier one", 1);
    Ok(())
}

pub fn c11(c: &mut Ctx) -> V {
    let n = c.n(1500, 40000);
    for k in 0..n {
        c11_one::<Idx32, VarA>(c, 13)?;
        c11_one::<Idx40, VarB>(c, 13)?;
        c11_one::<Idx24, VarD>(c, 13)?;
        c11_one::<Idx33, VarS>(c, 30)?;
        c11_one::<Idx64, VarA>(c, 6)?;
        c11_place::<Idx32, VarA>(c)?;
        c11_place::<Idx40, VarB>(c)?;
        if k % 10 == 0 && !c.slow() {
            c11_one::<IdxBig, VarS>(c, 6)?;
            c11_one::<Idx64, VarC>(c, 2)?;
        }
    }
    if !c.slow() && c.shard == 0 {
        use crate::archprops::big_view;
        big_view(c, &wide(), "w33", 8 << 30, 20_000)?;
        big_view(c, &wide(), "w40", 9 << 30, 20_000)?;
        big_view(c, &wide(), "w64", 5 << 30, 20_000)?;
    }
    Ok(())
}

//
// C20
//
fn expect_list(name: &str, items: &[String]) -> String {
    let n = items.len();
    format!("{} {{ len: {}, data: [{}]{} }}", name, n, items.iter().take(10).cloned().collect::<Vec<_>>().join(", "), if n > 10 { "..." } else { "" })
}

pub fn c20<T: D>(c: &mut Ctx) -> V {
    let size = size_of::<T>();
    let fields = fields_of::<T>();
    let cd = codec::<T>();
    // equality: same fields, different unused bits and alignment
    let vals = rand_vals(fields, &mut c.rng);
    let pa = c.rng.below(8);
    let pb = c.rng.below(8);
    let mut a = background(cd, &mut c.rng, pa + size);
    let mut b = background(cd, &mut c.rng, pb + size);
    encode_into(fields, &mut a[pa..], &vals);
    encode_into(fields, &mut b[pb..], &vals);
    c.case(format!("{} a={} b={} values {:?}", cd.name(), hex(&a[pa..]), hex(&b[pb..]), vals));
    ensure!(guard(|| cd.equal(&a[pa..], &b[pb..]))?, "{}: equal fields compare unequal: {} vs {}", cd.name(), hex(&a[pa..]), hex(&b[pb..]));
    // single-field and single-bit differences
    for (i, f) in fields.iter().enumerate() {
        let mut x = rand_fit(&mut c.rng, f);
        if x == vals[i] {
            x = match f.ty {
                Ty::Enum { variants, .. } => variants.iter().map(|v| *v as i128).find(|v| *v != vals[i]).unwrap_or(vals[i]),
                _ => interpret(&f.ty, f.bits, raw_of(&f.ty, f.bits, vals[i]) ^ (1 << c.rng.below(f.bits))),
            };
        } else if let Ty::Int { .. } = f.ty {
            if c.rng.chance(1, 2) {
                x = interpret(&f.ty, f.bits, raw_of(&f.ty, f.bits, vals[i]) ^ (1 << c.rng.below(f.bits)));
            }
        }
        let mut v2 = vals.clone();
        v2[i] = x;
        let mut b2 = b.clone();
        encode_into(fields, &mut b2[pb..], &v2);
        // the bytes decide (a boolean wider than one bit has several representations of true)
        let want = decode(fields, &a[pa..]) == decode(fields, &b2[pb..]);
        let got = guard(|| cd.equal(&a[pa..], &b2[pb..]))?;
        let got2 = guard(|| cd.equal(&b2[pb..], &a[pa..]))?;
        ensure!(got == want && got2 == want, "{}: {:?} == {:?} gives {}/{} want {}", cd.name(), vals, v2, got, got2, want);
    }
    // copying
    let src = background(cd, &mut c.rng, size);
    let dst = background(cd, &mut c.rng, size + 16);
    let mut out = dst.clone();
    guard(|| cd.fill(&mut out[8..8 + size], &src))?;
    let sv = decode(fields, &src);
    let mut want = dst.clone();
    encode_into(fields, &mut want[8..], &sv);
    ensure!(decode(fields, &out[8..]) == sv, "{}: fill_from {} gives {:?} want {:?}", cd.name(), hex(&src), decode(fields, &out[8..]), sv);
    ensure!(out == want, "{}: fill_from changed bits beyond the fields: {} want {}", cd.name(), hex(&out), hex(&want));
    ensure!(guard(|| cd.equal(&out[8..8 + size], &src))?, "{}: copy is not equal to the source", cd.name());
    // printing
    let w = debug_of(cd.name(), fields, &sv);
    let g = guard(|| cd.debug(&src))?;
    ensure!(g == w, "Debug of {}: {} want {}", cd.name(), g, w);
    let mut s2 = src.clone();
    let g = guard(|| cd.debug_mut(&mut s2))?;
    ensure!(g == w, "Debug of mutable {}: {} want {}", cd.name(), g, w);
    let order: Vec<(usize, i128)> = sv.iter().cloned().enumerate().collect();
    let g = guard(|| cd.structbuf(&order).2)?;
    ensure!(g == format!("StructBuf {{ resource: {} }}", w), "Debug of StructBuf<{}>: {}", cd.name(), g);
    let _: Option<StructBuf<T>> = None;
    // sequences
    let n = match c.rng.below(4) {
        0 => c.rng.range(9, 12),
        _ => c.rng.range(0, 25),
    };
    let mut v = Vector::<T>::with_len(n);
    let mut texts = vec![];
    for i in 0..n {
        let x = rand_vals(fields, &mut c.rng);
        let mut m = v.at_mut(i);
        set_all::<T>(&mut m, &x);
        texts.push(debug_of(cd.name(), fields, &x));
    }
    let view = v.as_view();
    let mut it = view.iter();
    for (got, name, t) in vec![
        (guard(|| format!("{:?}", v))?, "Vector", &texts[..]),
        (guard(|| format!("{:?}", view))?, "ArrayView", &texts[..]),
        (guard(|| format!("{:?}", it))?, "ArrayViewIter", &texts[..]),
    ] {
        let want = expect_list(name, t);
        ensure!(got == want, "Debug of {} with {} elements: {} want {}", name, n, got, want);
    }
    let a = c.rng.below(n + 1);
    for _ in 0..a {
        it.next();
    }
    let b = c.rng.below(n - a + 1);
    for _ in 0..b {
        it.next_back();
    }
    let want = expect_list("ArrayViewIter", &texts[a..n - b]);
    let got = guard(|| format!("{:?}", it))?;
    ensure!(got == want, "Debug of an advanced iterator: {} want {}", got, want);
    c.count("printed forms compared", 8);
    c.nontrivial_cur();
    Ok(())
}

fn c20_multi<I: IdxInfo, T: Var>(c: &mut Ctx) -> V {
    let vars = <T as VarDyn>::variants();
    let n = if c.rng.chance(1, 3) { c.rng.range(9, 12) } else { c.rng.range(0, 20) };
    // now and then more elements in one item than a preview of a container shows
    let most = if c.rng.chance(1, 6) { 26 } else { 3 };
    let mut items: Vec<Item> = (0..n).map(|_| rand_item(&vars, &mut c.rng, most)).collect();
    if n > 0 && !cfg!(miri) && c.rng.chance(1, 400) {
        let k = c.rng.below(n);
        let l = c.rng.outsized(3000);
        items[k] = rand_item(&vars, &mut c.rng, l);
    }
    let (index, data) = multi_payloads(&vars, I::ISIZE, I::IBITS, &items);
    let (index, data) = (index.into_boxed_slice(), data.into_boxed_slice());
    let view = MultiArrayView::<I, T>::new(ArrayView::new(&index), &data);
    c.case(format!("MultiArrayView of {:?}", items));
    let el = |e: &Elem| {
        let cd = vars.iter().find(|x| x.0 == e.0).unwrap().1;
        debug_of(cd.name(), cd.fields(), &e.1)
    };
    let texts: Vec<String> = items.iter().map(|i| format!("[{}]", i.iter().map(|e| el(e)).collect::<Vec<_>>().join(", "))).collect();
    let numbered = |t: &[String]| -> Vec<String> { t.iter().enumerate().map(|(i, x)| format!("({}, {})", i, x)).collect() };
    let want = expect_list("MultiArrayView", &numbered(&texts));
    let got = guard(|| format!("{:?}", view))?;
    ensure!(got == want, "Debug of MultiArrayView: {} want {}", got, want);
    let mut it = view.iter();
    let a = c.rng.below(n + 1);
    for _ in 0..a {
        it.next();
    }
    let want = expect_list("MultiArrayViewIter", &numbered(&texts[a..]));
    let got = guard(|| format!("{:?}", it))?;
    ensure!(got == want, "Debug of MultiArrayViewIter: {} want {}", got, want);
    for (i, t) in texts.iter().enumerate() {
        let got = guard(|| format!("{:?}", view.at(i)))?;
        let want = format!("MultiArrayViewItemIter {{ data: {} }}", t);
        ensure!(got == want, "Debug of an item: {} want {}", got, want);
        if items[i].len() > 10 {
            c.count("printed items with more than ten elements", 1);
        }
        let skip = c.rng.below(items[i].len() + 1);
        let mut it = view.at(i);
        for _ in 0..skip {
            it.next();
        }
        let rest = format!("[{}]", items[i][skip..].iter().map(|e| el(e)).collect::<Vec<_>>().join(", "));
        let got = guard(|| format!("{:?}", it))?;
        let want = format!("MultiArrayViewItemIter {{ data: {} }}", rest);
        ensure!(got == want, "Debug of an item after {} elements: {} want {}", skip, got, want);
    }
    // equality of variants: equal iff same variant and equal fields
    let all: Vec<_> = (0..n).flat_map(|i| view.at(i)).collect();
    let flat: Vec<&Elem> = items.iter().flat_map(|i| i.iter()).collect();
    for i in 0..all.len().min(8) {
        for j in 0..all.len().min(8) {
            let got = guard(|| all[i] == all[j])?;
            ensure!(got == (flat[i] == flat[j]), "variants {:?} == {:?} gives {}", flat[i], flat[j], got);
        }
    }
    c.nontrivial_cur();
    Ok(())
}

pub fn c20_all(c: &mut Ctx) -> V {
    let n = c.n(1200, 25000);
    for cd in crate::fields::all_codecs() {
        let r = if cd.size() > 1000 { if c.slow() { 0 } else { 2 } } else { n };
        for _ in 0..r {
            cd.c20(c)?;
        }
    }
    for _ in 0..n {
        c20_multi::<Idx32, VarA>(c)?;
        c20_multi::<Idx40, VarB>(c)?;
        c20_multi::<Idx24, VarD>(c)?;
    }
    for _ in 0..n / 8 {
        c20_archive(c)?;
    }
    crate::misc::writer_debug(c)
}
/// An archive prints as its name and its resources in the order of their declaration.
fn c20_archive(c: &mut Ctx) -> V {
    use crate::archives::*;
    use crate::archprops::*;
    let d = any_desc(c);
    let m = rand_model(&d, &mut c.rng, 4);
    let mut map = Map::new();
    encode_archive(&d, &m, "", &mut map);
    c.case(format!("printed archive {} {{{}}}", d.name, summary(&d, &m)));
    let dir = c.dir();
    let file = !c.slow() && c.rng.chance(1, 4);
    let st = new_storage(file, &dir);
    install(file, &dir, &st, &map);
    let a = match guard(|| (d.open)(st.clone()))? {
        Ok(a) => a,
        Err(e) => return Err(format!("{}: cannot be opened: {:?}", c.cur, e)),
    };
    let got = guard(|| a.debug())?;
    let parts = guard(|| a.prints())?;
    // runs of text between the gaps
    let mut texts = vec![String::new()];
    for p in parts {
        match p {
            Some(x) => texts.last_mut().unwrap().push_str(&x),
            None => texts.push(String::new()),
        }
    }
    let mut rest = got.as_str();
    for (i, x) in texts.iter().enumerate() {
        let at = if i == 0 { if rest.starts_with(x.as_str()) { Some(0) } else { None } } else if i + 1 == texts.len() { if rest.ends_with(x.as_str()) { Some(rest.len() - x.len()) } else { None } } else { rest.find(x.as_str()) };
        match at {
            Some(at) => rest = &rest[at + x.len()..],
            None => return Err(format!("{}: prints as {} which has no {:?} where it belongs", c.cur, got, x)),
        }
    }
    ensure!(texts.len() > 1 || rest.is_empty(), "{}: prints as {}, {:?} is too much", c.cur, got, rest);
    ensure!(guard(|| a.dup().debug())? == got, "{}: its clone prints differently", c.cur);
    ensure!(guard(|| a.debug())? == got, "{}: prints differently the second time", c.cur);
    c.count("printed archives compared", 1);
    c.nontrivial_cur();
    clean(&dir);
    Ok(())
}
/// Vectors of more than 4 GiB, of which only a few pages are touched.
fn c09_huge<T: D>(c: &mut Ctx, bytes: usize) -> V {
    let size = size_of::<T>();
    let fields = fields_of::<T>();
    let n = bytes / size + c.rng.below(100);
    c.case(format!("Vector<{}> with {} elements ({} bytes)", name_of::<T>(), n, n * size));
    let mut v = guard(|| Vector::<T>::with_len(n))?;
    ensure!(v.len() == n, "{}: len {}", c.cur, v.len());
    let mut model: std::collections::BTreeMap<usize, Vals> = Default::default();
    let zero = decode(fields, &vec![0; size]);
    for _ in 0..300 {
        let base = *c.rng.pick(&[0, (1u64 << 32) as usize / size, (1u64 << 32) as usize, (1 << 31) / size, n / 2, n - 1]);
        let j = base.saturating_sub(c.rng.below(4)).saturating_add(c.rng.below(8)).min(n - 1);
        if c.rng.chance(1, 2) {
            let i = c.rng.below(fields.len());
            let x = rand_value(&mut c.rng, &fields[i]);
            guard(|| {
                let mut m = v.at_mut(j);
                <T as Dyn>::set(&mut m, i, x);
            })?;
            let f = &fields[i];
            model.entry(j).or_insert_with(|| zero.clone())[i] = interpret(&f.ty, f.bits, raw_of(&f.ty, f.bits, x));
        }
        for j in &[j, (j as u32) as usize, ((j * size) as u32) as usize / size] {
            let want = model.get(j).unwrap_or(&zero);
            let got = guard(|| values::<T>(&v.at(*j)))?;
            ensure!(&got == want, "{}: at({}) = {:?} want {:?}", c.cur, j, got, want);
            let got = guard(|| values::<T>(&v.as_view().at(*j)))?;
            ensure!(&got == want, "{}: as_view().at({}) = {:?} want {:?}", c.cur, j, got, want);
        }
        let j = bad_index(&mut c.rng, n, size);
        ensure!(guard(|| { v.at(j); }).is_err() && guard(|| { v.at_mut(j); }).is_err(), "{}: at({}) did not panic", c.cur, j);
    }
    ensure!(guard(|| v.as_bytes().len())? == n * size, "{}: as_bytes of {} bytes", c.cur, v.as_bytes().len());
    c.count("accesses to vectors beyond 4 GiB", 300);
    c.nontrivial_cur();
    Ok(())
}

pub fn c09_all(c: &mut Ctx) -> V {
    if !c.slow() && c.shard == 0 && std::mem::size_of::<usize>() == 8 && (c.kind == Kind::Rel || c.kind == Kind::Dbg) {
        c09_huge::<crate::G3>(c, ((4u64 << 30) + (1 << 20)) as usize)?;
        c09_huge::<crate::G1>(c, (5u64 << 30) as usize)?;
    }
    let n = c.n(1200, 25000);
    for cd in crate::fields::all_codecs() {
        let r = if cd.size() > 1000 { if c.slow() { 0 } else { 2 } } else { n };
        for _ in 0..r {
            cd.c09(c)?;
        }
    }
    Ok(())
}
pub fn c10_all(c: &mut Ctx) -> V {
    let n = c.n(800, 20000);
    for cd in crate::fields::all_codecs() {
        let r = if cd.size() > 1000 { if c.slow() { 0 } else { 2 } } else { n };
        for _ in 0..r {
            cd.c10(c)?;
        }
        for _ in 0..if cd.size() > 1000 { 0 } else { 1 + n / 8 } {
            cd.c10_place(c)?;
        }
    }
    if !c.slow() && c.shard == 0 {
        use crate::archprops::big_view;
        big_view(c, &wide(), "small", 5 << 30, 20_000)?;
        big_view(c, &wide(), "mid", (4 << 30) - 1000, 5_000)?;
        big_view(c, &wide(), "mid", 9 << 30, 20_000)?;
    }
    Ok(())
}
