#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--keep]

Builds the harness (harness/) against the crate in /repo's working tree, once per kind of
instrumentation, runs the monitored workload of one property and writes evidence/PROPERTY.json.

exit 0  the property held on everything explored
exit 1  violated; a line "VIOLATION property=<id> replay=<path>" says where the failing case is
exit 2  no answer (build failure, timeout, out of memory)
"""
import array, fcntl, json, os, resource, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target", "check")
HOST = "x86_64-unknown-linux-gnu"
GIB = 1 << 30

FAULTS = {"C13", "C14"}

# stage: kind, processes, multiplier of the number of cases, further options
def plan(prop, thorough):
    def st(kind, procs=1, mult=1.0, **kw):
        return dict(kind=kind, procs=procs, mult=mult, **kw)
    q = {
        "C01": [st("dbg", 2), st("rel", 2), st("miri", 2, 0.4)],
        "C02": [st("dbg", 2), st("rel", 2)],
        "C03": [st("dbg", 2), st("rel", 2), st("miri", 2, 0.4, target="s390x-unknown-linux-gnu"), st("miri", 2, 0.4, target="i686-unknown-linux-gnu")],
        "C06": [st("dbg", 2), st("rel", 4)],
        "C07": [st("dbg", 2), st("rel", 3)],
        "C08": [st("dbg"), st("rel")],
        "C12": [st("dbg", 3, 0.7), st("rel", 3, 0.7), st("miri", target="i686-unknown-linux-gnu")],
        "C13": [st("dbg", 3, 0.5), st("rel", 3, 0.5)],
        "C14": [st("dbg", 3, 0.5), st("rel", 3, 0.5)],
        "C18": [st("dbg", 2, 0.6), st("rel", 2, 0.6), st("asan", 2), st("miri", 5, 0.4), st("miri", prop="C18K1")],
        "C19": [st("dbg", 3, 0.7), st("rel", 3, 0.7), st("asan", 1, 0.5)],
        "C23": [st("raw", 2), st("rel", 2)],
        "C24": [st("dbg", 3, 0.6), st("rel", 3, 0.6)],
        "C25": [st("dbg", 3, 0.6), st("rel", 3), st("asan", 2, 0.4)],
        "C26": [st("dbg", 2), st("rel", 2)],
        "C27": [st("dbg", 3), st("rel", 3)],
        "C28": [st("dbg", 3), st("rel", 3)],
        "C29": [st("dbg", 4), st("rel", 4)],
        "C21": [st("dbg", 1), st("rel", 2), st("tsan", 2), st("miri", 2, flags="-Zmiri-disable-stacked-borrows -Zmiri-preemption-rate=0.05")],
    }
    default = [st("dbg", 3, 0.7), st("rel", 3, 0.7)]
    stages = q.get(prop, default)
    if not thorough:
        # more cases where they are cheap
        more = {"C01": 3, "C02": 8, "C04": 8, "C05": 8, "C06": 3, "C07": 8, "C09": 4, "C10": 6, "C11": 15, "C12": 6, "C15": 4, "C16": 12, "C17": 2, "C20": 8, "C22": 10, "C27": 3, "C28": 4, "C29": 4}.get(prop, 1)
        for s in stages:
            if s["kind"] in ("dbg", "rel", "raw"):
                s["mult"] *= more
        return stages
    stages = [dict(s) for s in stages]
    for s in stages:
        if s["kind"] in ("dbg", "rel") and prop not in ("C08", "C23", "C26"):
            s["procs"] = 4
    if prop not in ("C08", "C13", "C14", "C18", "C19", "C23", "C24", "C25", "C26", "C28", "C29"):
        stages.append(st("asan", 2))
    if prop in ("C01", "C02", "C03", "C04", "C05", "C07", "C09", "C10", "C11", "C16", "C20"):
        stages.append(st("miri", mult=0.3))
    if prop == "C03":
        stages.append(st("miri", target="powerpc-unknown-linux-gnu"))
    if prop == "C18":
        for s in stages:
            if s["kind"] == "miri" and "prop" not in s:
                s.update(mult=1.5, flags="-Zmiri-tree-borrows")
        stages.append(st("miri", 5, target="i686-unknown-linux-gnu", mult=0.5))
    if prop == "C21":
        stages.append(st("miri", mult=0.5))
    return stages

RULES = {
    "C01": "every (type, bit width, bit offset) reachable through the bit macros and every generated struct layout, with boundary and random values over random surrounding bytes; a case is non-trivial when a value was stored and read back through both accessors; distinct by field position, value and surroundings",
    "C02": "as C01, also with values that exceed the width; non-trivial when a write or a field-wise copy happened between canary bytes",
    "C03": "every layout x values, bytes compared with a bit-by-bit codec, natively and interpreted on big-endian and 32-bit targets; non-trivial when bytes were compared",
    "C04": "random archive contents written through random plans of API calls on both storages, stored bytes compared with an independent encoder, and archives encoded independently read back; distinct by archive content and plan",
    "C05": "random archive contents (nested, optional parts missing) x random plans x both storages, reopened through the same, other and fresh handles; distinct by content and plan",
    "C06": "random element counts and layouts, counts around the flush boundaries and totals beyond 4 GiB; distinct by layout, count and seed",
    "C07": "random item sequences over variant sets and index widths, flush boundaries of data and of index, totals beyond 4 GiB; distinct by variant set, index width and items",
    "C08": "long appending runs with an allocator that counts; one case per element size and container",
    "C09": "random operation histories over element layouts compared with a list after every step; distinct by history",
    "C10": "random views (also with incomplete last elements), nested slices with all bound kinds, in-range and out-of-range arguments, iterator histories from both ends; distinct by description",
    "C11": "as C10 over multivector views and item iterators",
    "C12": "archives with one damage (deletion, truncation, extension, header values, schema edits) or several, partially written archives and later completion through the same handle; distinct by archive, damage and content",
    "C13": "writer histories, each killed before, after and inside every mutating file-system operation (and by a panic between any two steps); distinct by history and crash point",
    "C14": "writer and open histories, each file-system operation failed in turn with several errors, once or from then on, partially or fully; interrupted and short operations; distinct by history and fault, counted when a call reported the fault or disturbances were injected",
    "C15": "complete, partial and damaged archives x create/open/read sequences on both storages with snapshots; distinct by state and sequence",
    "C16": "histories of several writers, closed or dropped, also while unwinding; distinct by history",
    "C17": "random sequences of storage operations run in lockstep with a plain map on both storages; distinct by sequence",
    "C18": "malformed archives, views, multivectors, structs and writer misuse plus the ordinary workloads of the other properties, under overflow checks, AddressSanitizer and Miri; distinct by input",
    "C19": "interleavings of opening, reading, writing other resources, cloning and dropping handles, with checksums of everything held; distinct by history",
    "C20": "pairs of struct contents over all layouts, containers around the preview length; distinct by content",
    "C21": "threads sharing views and threads with archives of their own, under ThreadSanitizer and without, with checksums against the expected content; distinct by scenario",
    "C22": "pairs of different schemas (random, edited) at every kind of resource; distinct by pair and resource",
    "C23": "archives of sparse files from 24 MiB to 40 GiB per resource, opened, cloned, printed and accessed at random positions and ends under a counting allocator and counters of page faults, processor time and bytes read; distinct by archive and size",
    "C25": "archive histories and calls on an unrelated storage, view, vector and archive, interleaved with calls that fail or panic on their own account (out of range, unfinished writers, refused and faulty reads, writes and creations, malformed items, panicking user code, printing that panics), with everything else compared after each; distinct by history",
    "C26": "every way of writing (grown, reserved, streamed, at once, many resources, whole random histories) on both storages with element sizes from 1 byte to 64 KiB, with the counters of file-system operations, bytes, allocations and processor time compared with the limits while writing; distinct by way, amount and storage",
    "C27": "archives written and read through random path forms and names, then copied, moved, linked, littered and deleted in random order, each with the whole content compared; distinct by archive, place and history",
    "C28": "writing histories polled before every file-system operation, between steps and by another process, through new, old and the writer's own handles; distinct by history; the evidence counts polls that opened the archive and polls that were refused",
    "C29": "damaged stores, faults at every operation of opening, reading, writing and flushing, refused creations; distinct by archive, content, damage or fault; the evidence counts the errors that were compared with their real cause",
    "C24": "whole lives of storages (complete, abandoned, faulty, damaged, reopened, in random order of dropping) repeated, with the heap, the open descriptors and the mappings compared; repeated reads of unchanged data; many resources under a descriptor limit; distinct by history",
}
COMMON = [
    "The harness's oracles (bit codec, list and byte-map models, wire-format encoder) are right; they share no code with the crate.",
    "Cases outside those generated are not covered: this is sampling and enumeration of executions, not proof.",
    "64-bit Linux; crash means death of the process, not power loss.",
]


class Stage:
    pass


def log(*a):
    print(*a, flush=True)


def env_for(kind, seed, prop, flags="-Zmiri-disable-stacked-borrows"):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "MIRIFLAGS", "RUSTDOCFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["VERIF_SEED"] = str(seed)
    e["FDVERIF_PROP"] = prop
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUST_BACKTRACE"] = "0"
    if kind == "asan":
        e["RUSTFLAGS"] = "-Zsanitizer=address --cap-lints=allow"
    if kind == "tsan":
        e["RUSTFLAGS"] = "-Zsanitizer=thread --cap-lints=allow"
    if kind == "miri":
        e["RUSTFLAGS"] = "--cap-lints=warn"  # cargo miri cannot cope with the flags of .cargo/config.toml
        e["MIRIFLAGS"] = flags + " -Zmiri-disable-isolation"
    e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=66"
    e["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=1:report_signal_unsafe=0"
    return e


def run(cmd, env, timeout, out, err, as_limit=None, cwd=None):
    def pre():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if as_limit:
            resource.setrlimit(resource.RLIMIT_AS, (as_limit, as_limit))
    with open(out, "wb") as fo, open(err, "wb") as fe:
        p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, preexec_fn=pre)
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            return None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()


def tail(path, n=3000):
    try:
        with open(path, "rb") as f:
            b = f.read()
        return b[-n:].decode("utf-8", "replace")
    except OSError:
        return ""


def text(path):
    try:
        with open(path, "rb") as f:
            return f.read().decode("utf-8", "replace")
    except OSError:
        return ""


def build(kind, prop, seed, work, timeout):
    """Returns the path of a fresh binary, or None with the log printed."""
    tdir = os.path.join(TARGET, kind)
    os.makedirs(tdir, exist_ok=True)
    cmd = ["cargo"]
    if kind in ("asan", "tsan"):
        cmd.append("+nightly")
    cmd += ["build", "--offline", "--target-dir", tdir]
    if kind == "raw":
        cmd += ["--profile", "raw"]
    elif kind != "dbg":
        cmd.append("--release")
    sub = {"dbg": "debug", "raw": "raw"}.get(kind, "release")
    if kind in ("asan", "tsan"):
        cmd += ["--no-default-features", "--target", HOST]
        sub = os.path.join(HOST, sub)
    if kind == "tsan":
        cmd += ["-Zbuild-std"]
    exe = os.path.join(work, "fdverif-" + kind)
    with open(os.path.join(tdir, ".lock-check"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        o, e = os.path.join(work, "build-%s.out" % kind), os.path.join(work, "build-%s.err" % kind)
        rc = run(cmd, env_for(kind, seed, prop), timeout, o, e, cwd=HARNESS)
        if rc != 0:
            log("build of kind %s failed (rc %s):" % (kind, rc))
            log(tail(e))
            return None
        shutil.copy2(os.path.join(tdir, sub, "fdverif"), exe)
    return exe


def classify(rc, kind, err):
    """-> None (fine), ('violation', text) or ('error', text)"""
    if rc == 0:
        return None
    if rc is None:
        return ("error", "timeout")
    if kind in ("asan", "tsan") and rc == 66 or "ERROR: AddressSanitizer" in err or "WARNING: ThreadSanitizer" in err:
        if "ERROR: AddressSanitizer: out of memory" in err or "failed to allocate" in err and "heap-" not in err:
            return ("error", "sanitizer out of memory")
        i = max(err.find("ERROR: AddressSanitizer"), err.find("WARNING: ThreadSanitizer"), 0)
        return ("violation", err[i:i + 1500])
    if kind == "miri":
        for m in ("Undefined Behavior", "Data race detected", "memory access failed"):
            if m in err:
                i = err.find("error:")
                return ("violation", "Miri: " + err[i:i + 1500])
        if rc == 1 and '"violation"' in err:
            return ("violation", "")
        return ("error", "Miri ended with %s: %s" % (rc, err[max(err.find("error"), 0):][:1500]))
    if rc == 1:
        return ("violation", "")
    if rc < 0 and -rc in (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
        return ("violation", "killed by %s; last output: %s" % (signal.Signals(-rc).name, err[-800:]))
    return ("error", "ended with %s: %s" % (rc, err[-800:]))


def main():
    args = sys.argv[1:]
    opts = {}
    pos = []
    i = 0
    while i < len(args):
        if args[i] in ("--tier", "--seed", "--kinds"):
            opts[args[i][2:]] = args[i + 1]
            i += 2
        else:
            pos.append(args[i])
            i += 1
    prop = pos[0]
    tier = opts.get("tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(opts.get("seed") or os.environ.get("VERIF_SEED") or "1")
    thorough = tier == "thorough"
    limit = 3300 if thorough else 780
    t0 = time.time()
    left = lambda: max(5, limit - (time.time() - t0))
    stages = plan(prop, thorough)
    if "kinds" in opts:
        stages = [s for s in stages if s["kind"] in opts["kinds"].split(",")]
    known = {}
    fixed_or_known = text(os.path.join(HERE, "known-findings.txt"))
    for line in fixed_or_known.splitlines():
        if line.startswith("known:"):
            kv = dict(x.split("=", 1) for x in line.split()[1:3])
            known[(kv["property"], kv["id"])] = line.split(None, 3)[3]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="fdverif-%s-" % prop)
    results = []  # (stage, shard, report or None, verdict, cmdline)
    lock = threading.Lock()
    sem = threading.BoundedSemaphore(8)
    errors = []

    def one(stage, idx, shard, exe):
        kind = stage["kind"]
        name = "%s%d-%d" % (kind, idx, shard)
        scratch = os.path.join(work, "s-" + name)
        os.makedirs(scratch)
        rep = os.path.join(work, name + ".json")
        o, e = os.path.join(work, name + ".out"), os.path.join(work, name + ".err")
        p = stage.get("prop", prop)
        hargs = [p, "--tier", tier, "--kind", kind, "--seed", str(seed), "--shard", str(shard), "--shards", str(stage["procs"]),
                 "--mult", str(stage["mult"]), "--out", rep, "--scratch", scratch]
        as_limit = None
        if kind == "miri":
            cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--no-default-features", "--target-dir", os.path.join(TARGET, "miri")]
            if "target" in stage:
                cmd += ["--target", stage["target"]]
            cmd += ["--"] + hargs
            cwd = HARNESS
        else:
            cmd, cwd = [exe] + hargs, None
            if kind in ("dbg", "rel", "raw"):
                as_limit = None if prop == "C23" else (24 if prop in ("C06", "C07", "C08", "C10", "C11", "C18") else 10) * GIB
        t = time.time()
        with sem:
            rc = run(cmd, env_for(kind, seed, prop, **({"flags": stage["flags"]} if "flags" in stage else {})), left(), o, e, as_limit, cwd)
        err = text(e)
        if kind == "miri":
            out = text(o)
            err_all = err + out
            r = [l for l in out.splitlines() if l.startswith("REPORT ")]
            report = json.loads(r[-1][7:]) if r else None
            v = classify(rc, kind, err_all)
        else:
            try:
                report = json.loads(text(rep))
            except ValueError:
                report = None
            v = classify(rc, kind, err)
            if v is None and report is None:
                v = ("error", "no report")
        if v and v[0] == "violation" and report and report.get("violation") and not v[1]:
            v = ("violation", report["violation"])
        k1 = p == "C18K1"
        if k1:
            # the recorded finding: exactly this undefined behaviour and nothing else
            if v and v[0] == "violation" and "enum" in v[1] and ("invalid value" in v[1] or "invalid enum tag" in v[1] or "invalid tag" in v[1]):
                report = dict(report or {}, known=["K1"])
                v = None
            elif v is None:
                report = dict(report or {}, known=[])
        shutil.rmtree(scratch, ignore_errors=True)
        with lock:
            results.append((stage, shard, report, v, cmd, rep))
            log("  %-12s %s  %.1fs  %s" % (name, "target=" + stage["target"] if "target" in stage else "", time.time() - t,
                "ok" if v is None else v[0] + ": " + v[1][:300].replace("\n", " | ")))

    miri_lock = threading.Lock()

    def do_stage(stage, idx):
        try:
            exe = None
            if stage["kind"] == "miri":
                # sysroot and build once, one at a time
                with miri_lock:
                    e = env_for("miri", seed, prop)
                    cmd = ["cargo", "+nightly", "miri", "setup"] + (["--target", stage["target"]] if "target" in stage else [])
                    rc = run(cmd, e, left(), os.path.join(work, "ms.out"), os.path.join(work, "ms.err"), cwd=HARNESS)
                    if rc != 0:
                        raise RuntimeError("miri setup failed: " + tail(os.path.join(work, "ms.err")))
            else:
                exe = build(stage["kind"], prop, seed, work, left())
                if exe is None:
                    raise RuntimeError("build failed")
            ts = [threading.Thread(target=one, args=(stage, idx, s, exe)) for s in range(stage["procs"])]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        except Exception as ex:  # noqa
            with lock:
                errors.append("%s: %s" % (stage["kind"], ex))

    ts = [threading.Thread(target=do_stage, args=(s, i)) for i, s in enumerate(stages)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()

    # findings and violations
    vio = []
    seen_known = set()
    for stage, shard, report, v, cmd, _ in results:
        if v and v[0] == "violation":
            vio.append((stage, shard, report, v[1], cmd))
        elif v:
            errors.append("%s shard %d: %s" % (stage["kind"], shard, v[1]))
        for k in (report or {}).get("known", []):
            if (prop, k) in known:
                seen_known.add(k)
            else:
                vio.append((stage, shard, report, "unlisted finding " + k, cmd))
    for k in sorted(seen_known):
        log("KNOWN-FINDING: property=%s %s %s" % (prop, k, known[(prop, k)]))

    # evidence
    ev, distinct = 0, 0
    ids, loose = set(), 0
    counters, samples, per = {}, [], []
    for stage, shard, report, v, cmd, rep in sorted(results, key=lambda r: (r[0]["kind"], r[1])):
        if not report:
            continue
        ev += report.get("evaluations", 0)
        a = array.array("Q")
        try:
            with open(os.path.splitext(rep)[0] + ".ids", "rb") as f:
                a.frombytes(f.read())
            ids.update(a)
        except (OSError, ValueError):
            loose = max(loose, report.get("distinct", 0))
        for k, n in report.get("counters", {}).items():
            counters[k] = max(counters.get(k, 0), n) if k.startswith("peak") else counters.get(k, 0) + n
        samples += report.get("samples", [])[:3 if len(samples) < 24 else 0]
        per.append({"kind": stage["kind"], "target": stage.get("target", HOST), "shard": shard,
                    "cases": report.get("evaluations", 0), "wall_s": report.get("wall_s", 0)})
    # processes too large to list their identities contribute only as far as they exceed what is listed
    distinct = max(len(ids), loose)
    level = "fault_enumeration" if prop in FAULTS else "exploration"
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {"evaluations": ev, "distinct_nontrivial": distinct, "rule": RULES[prop],
                     "samples": samples or ["(none completed)"], "observed": counters, "processes": per,
                     "known_findings_reproduced": sorted(seen_known)},
        "assumptions": COMMON, "wall_s": round(time.time() - t0, 2), "violations": len(vio),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    code = 0
    if vio:
        rdir = os.path.join(HERE, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump([{"property": prop, "tier": tier, "seed": seed, "kind": s["kind"], "target": s.get("target", HOST), "shard": sh,
                        "violation": txt, "case": (rep or {}).get("case"),
                        "rerun": "VERIF_SEED=%d python3 %s %s --tier %s --kinds %s" % (seed, os.path.join(HERE, "check.py"), prop, tier, s["kind"]),
                        "cmd": cmd} for s, sh, rep, txt, cmd in vio], f, indent=1)
        for s, sh, rep, txt, cmd in vio[:3]:
            log("%s shard %d: %s" % (s["kind"], sh, txt[:1500]))
            if rep and rep.get("case"):
                log("  case: " + rep["case"][:1500])
        log("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif errors:
        for e in errors:
            log("ERROR " + e)
        code = 2
    else:
        log("%s held: %d cases, %d distinct non-trivial, %.1f s" % (prop, ev, distinct, time.time() - t0))
    shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()
