//! fdverif <PROPERTY> --tier quick|thorough --kind dbg|rel|asan|tsan|miri --seed N --shard K --out FILE --scratch DIR
//!
//! Runs the monitored workload of one property against the flatdata crate in /repo and writes what
//! the monitors observed. Exit 0: held; 1: violation (described in the report); 3: usage error.
#![allow(dead_code, unexpected_cfgs, unused_imports, bare_trait_objects, clippy::all)]

#[macro_use]
extern crate flatdata;

#[macro_use]
mod ctx;
#[cfg(feature = "interpose")]
mod alloc;
mod archives;
mod archprops;
mod codec;
#[cfg(feature = "interpose")]
mod cost;
mod contain;
#[cfg(feature = "interpose")]
mod errors;
mod fields;
#[cfg(feature = "interpose")]
mod interpose;
mod lists;
mod misc;
mod place;
#[cfg(feature = "interpose")]
mod poll;
mod rng;
mod stream;
#[cfg(feature = "interpose")]
mod work;

include!(concat!(env!("OUT_DIR"), "/structs.rs"));

use ctx::*;
use std::path::PathBuf;
use std::time::Instant;

fn dispatch(c: &mut Ctx) -> V {
    let p = c.prop.clone();
    match p.as_str() {
        #[cfg(any(prop = "all", prop = "C01"))]
        "C01" => fields::c01(c),
        #[cfg(any(prop = "all", prop = "C02"))]
        "C02" => fields::c02(c),
        #[cfg(any(prop = "all", prop = "C03"))]
        "C03" => fields::c03(c),
        #[cfg(any(prop = "all", prop = "C04"))]
        "C04" => archprops::c04(c),
        #[cfg(any(prop = "all", prop = "C05"))]
        "C05" => archprops::c05(c),
        #[cfg(any(prop = "all", prop = "C06"))]
        "C06" => stream::c06_all(c),
        #[cfg(any(prop = "all", prop = "C07"))]
        "C07" => stream::c07_all(c),
        #[cfg(any(prop = "all", prop = "C09"))]
        "C09" => lists::c09_all(c),
        #[cfg(any(prop = "all", prop = "C10"))]
        "C10" => lists::c10_all(c),
        #[cfg(any(prop = "all", prop = "C11"))]
        "C11" => lists::c11(c),
        #[cfg(any(prop = "all", prop = "C12"))]
        "C12" => archprops::c12(c),
        #[cfg(any(prop = "all", prop = "C15"))]
        "C15" => archprops::c15(c),
        #[cfg(any(prop = "all", prop = "C16"))]
        "C16" => archprops::c16(c),
        #[cfg(any(prop = "all", prop = "C17"))]
        "C17" => misc::c17(c),
        #[cfg(any(prop = "all", prop = "C18"))]
        "C18" => misc::c18(c),
        #[cfg(any(prop = "all", prop = "C19"))]
        "C19" => misc::c19(c),
        #[cfg(any(prop = "all", prop = "C20"))]
        "C20" => lists::c20_all(c),
        #[cfg(any(prop = "all", prop = "C21"))]
        "C21" => misc::c21(c),
        #[cfg(any(prop = "all", prop = "C22"))]
        "C22" => misc::c22(c),
        #[cfg(any(prop = "all", prop = "C18"))]
        "C18K1" => misc::k1(c),
        #[cfg(any(prop = "all", prop = "C25"))]
        "C25" => contain::c25(c),
        #[cfg(any(prop = "all", prop = "C27"))]
        "C27" => place::c27(c),
        #[cfg(all(feature = "interpose", any(prop = "all", prop = "C28")))]
        "C28" => poll::c28(c),
        #[cfg(all(feature = "interpose", any(prop = "all", prop = "C29")))]
        "C29" => errors::c29(c),
        #[cfg(all(feature = "interpose", any(prop = "all", prop = "C08")))]
        "C08" => stream::c08(c),
        #[cfg(all(feature = "interpose", any(prop = "all", prop = "C13")))]
        "C13" => archprops::c13(c),
        #[cfg(all(feature = "interpose", any(prop = "all", prop = "C14")))]
        "C14" => archprops::c14(c),
        #[cfg(all(feature = "interpose", any(prop = "all", prop = "C23")))]
        "C23" => cost::c23(c),
        #[cfg(all(feature = "interpose", any(prop = "all", prop = "C24")))]
        "C24" => cost::c24(c),
        #[cfg(all(feature = "interpose", any(prop = "all", prop = "C26")))]
        "C26" => work::c26(c),
        _ => {
            eprintln!("unknown property {}", p);
            std::process::exit(3)
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |name: &str, def: &str| -> String {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned().unwrap_or_else(|| def.to_string())
    };
    if args.is_empty() {
        eprintln!("usage: fdverif PROP --tier T --kind K --seed N --shard K --out FILE --scratch DIR");
        std::process::exit(3);
    }
    let kind = match get("--kind", "dbg").as_str() {
        "dbg" | "raw" => Kind::Dbg,
        "rel" => Kind::Rel,
        "asan" => Kind::Asan,
        "tsan" => Kind::Tsan,
        "miri" => Kind::Miri,
        k => {
            eprintln!("bad kind {}", k);
            std::process::exit(3)
        }
    };
    let seed: u64 = get("--seed", "1").parse().unwrap_or(1);
    let shard: u64 = get("--shard", "0").parse().unwrap_or(0);
    let out = PathBuf::from(get("--out", "/dev/null"));
    let scratch = PathBuf::from(get("--scratch", ""));
    let mult: f64 = get("--mult", "1").parse().unwrap_or(1.0);
    let mut c = Ctx::new(&args[0], get("--tier", "quick") == "thorough", kind, seed, scratch, out.clone());
    c.mult = mult;
    c.shard = shard;
    c.shards = get("--shards", "1").parse().unwrap_or(1);
    for _ in 0..shard {
        let r = c.rng.next();
        c.rng = rng::Rng::new(r ^ 0x5bd1);
    }
    install_hook();
    if kind != Kind::Miri && kind != Kind::Tsan {
        watchdog(&c, if args[0] == "C23" { 60 } else { 240 });
    }
    let t0 = Instant::now();
    let r = match guard(|| dispatch(&mut c)) {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected {}", p)),
    };
    #[cfg(feature = "interpose")]
    interpose::stop();
    let v = r.err();
    let text = c.report(v.as_ref().map(|x| x.as_str()), t0.elapsed().as_secs_f64());
    if kind == Kind::Miri {
        // no files under Miri: the report goes to standard output
        println!("REPORT {}", text.trim());
    } else {
        std::fs::write(&out, &text).expect("writing the report");
        if c.distinct.len() <= 1_500_000 {
            // the identities of the distinct cases, so that several processes can be counted together
            let b: Vec<u8> = c.distinct.iter().flat_map(|h| h.to_le_bytes().to_vec()).collect();
            let _ = std::fs::write(out.with_extension("ids"), b);
        }
    }
    if let Some(v) = v {
        eprintln!("violation: {}\n  case: {}", v, c.cur);
        std::process::exit(1);
    }
}
