#!/usr/bin/env python3
"""Build the harness against /repo's working tree and run the check of one property.

usage: check.py PROPERTY [--replay FILE] | check.py --setup
exit 0: the property held on everything explored
exit 1: violated; prints `VIOLATION property=<id> replay=<path>`
other:  the check itself failed (build error, timeout, ...)
"""
import fcntl
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path("/repo")
TARGET = VERIF / "target"
REPLAY = VERIF / "replay"
EVIDENCE = VERIF / "evidence"

# builds: which configurations of the crate are exercised
# bins:   whether the command line programs are run
CONFIG = json.loads((VERIF / "checks.json").read_text())

LIB_FEATURES = {"multi": [], "single": ["--no-default-features"]}
BIN_FEATURES = {
    "multi": ["--features", "capi,stripper-xml"],
    "single": ["--no-default-features", "--features", "lhef,stripper-xml"],
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def fail(msg, code=2):
    log("ERROR:", msg)
    sys.exit(code)


def ensure_lock():
    lock = REPO / "Cargo.lock"  # ignored by git
    if not lock.exists():
        src = Path("/opt/vp/Cargo.lock")
        if not src.exists():
            src = VERIF / "harness" / "repo-Cargo.lock"
        shutil.copy(src, lock)


def source_hash():
    h = hashlib.sha256()
    for f in sorted([REPO / "Cargo.toml", REPO / "build.rs", *(REPO / "src").rglob("*")]):
        if f.is_file():
            h.update(str(f).encode() + b"\0" + f.read_bytes() + b"\0")
    return h.hexdigest()


def cargo(args, env):
    """Returns cargo's messages about the crate cres"""
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--message-format=json-render-diagnostics", *args],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        log(p.stderr[-6000:])
        fail("build failed")
    msgs = [json.loads(l) for l in p.stdout.splitlines() if l.startswith("{")]
    return [m for m in msgs if "/repo#" in m.get("package_id", "")]


def build_driver(msgs, dest):
    """Compile the C program which calls the C interface"""
    outs = [m["out_dir"] for m in msgs if m.get("reason") == "build-script-executed"]
    libs = [f for m in msgs if m.get("reason") == "compiler-artifact" for f in m.get("filenames", [])
            if f.endswith("/libcres.so")]
    if not outs or not libs:
        fail("cannot find the library and the header file of the C interface")
    shutil.copy(libs[-1], dest / "libcres.so.new")
    os.replace(dest / "libcres.so.new", dest / "libcres.so")
    p = subprocess.run(["cc", "-O1", "-ffp-contract=off", "-D_GNU_SOURCE", "-w", "-I", outs[-1], str(VERIF / "capi/driver.c"),
                        "-o", str(dest / "cres-driver.new"), "-L", str(dest), "-lcres", "-lpthread", "-Wl,-rpath,$ORIGIN"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout[-6000:])
        fail("cannot compile a C program using the C interface")
    os.replace(dest / "cres-driver.new", dest / "cres-driver")


def build(builds, bins):
    """Returns {build: directory with executables}"""
    TARGET.mkdir(exist_ok=True)
    with open(TARGET / "cresv.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # do not rely on time stamps to notice that the code has changed
        stamp = TARGET / "cresv.hash"
        now = source_hash()
        if not stamp.exists() or stamp.read_text() != now:
            for f in TARGET.glob("release/.fingerprint/cres-*"):
                shutil.rmtree(f, ignore_errors=True)
            stamp.write_text(now)
        env = dict(os.environ, CARGO_NET_OFFLINE="true")
        for k in list(env):
            if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
                del env[k]
        env.update(CARGO_PROFILE_RELEASE_DEBUG="0", CARGO_PROFILE_RELEASE_OPT_LEVEL="2",
                   CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="true", CARGO_PROFILE_RELEASE_INCREMENTAL="false")
        res = {}
        for b in builds:
            dest = TARGET / f"bin-{b}"
            dest.mkdir(exist_ok=True)
            want = []
            cargo(["--manifest-path", str(VERIF / "harness/Cargo.toml"), "--target-dir", str(TARGET),
                   *LIB_FEATURES[b]], env)
            want.append("cresv")
            if bins:
                ensure_lock()
                msgs = cargo(["--lib", "--bins", "--manifest-path", str(REPO / "Cargo.toml"), "--target-dir", str(TARGET),
                       *BIN_FEATURES[b]], env)
                want += ["cres", "cres-partition", "cres-classify-events"]
                if b == "multi":
                    build_driver(msgs, dest)
            for w in want:
                tmp = dest / (w + ".new")
                shutil.copy(TARGET / "release" / w, tmp)
                os.replace(tmp, dest / w)
            res[b] = dest
        return res


CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def crashed(rc):
    return rc < 0 and -rc in CRASH


def run(cmd, env, timeout):
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None, "", ""
    try:
        # programs that did not end
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    return p.returncode, out, err


def scratch_root():
    shm = "/dev/shm"
    try:
        if os.access(shm, os.W_OK) and shutil.disk_usage(shm).free > 2**31:
            return shm
    except OSError:
        pass
    return None


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        build(["multi", "single"], True)
        return
    if not args or args[0] not in CONFIG:
        fail("usage: check.py PROPERTY [--replay FILE]")
    prop = args[0]
    conf = CONFIG[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    builds = conf["builds"]
    if replay:
        b = json.loads(Path(replay).read_text()).get("build")
        if b:
            builds = [b]
    t0 = time.time()
    dirs = build(builds, conf.get("bins", False))
    log(f"build: {time.time() - t0:.1f} s")
    EVIDENCE.mkdir(exist_ok=True)
    REPLAY.mkdir(exist_ok=True)
    scratch = Path(tempfile.mkdtemp(prefix=f"cresv-{prop}-", dir=scratch_root()))
    os.chmod(scratch, 0o755)
    try:
        code = check(prop, conf, tier, seed, replay, dirs, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def check(prop, conf, tier, seed, replay, dirs, scratch):
    t0 = time.time()
    limit = 800 if tier == "quick" else 6 * 3600
    docs, violations = [], []
    for b, d in dirs.items():
        rdir = REPLAY / b
        rdir.mkdir(exist_ok=True)
        for f in rdir.glob(f"inflight-{prop}-*"):
            f.unlink()
        env = dict(os.environ, CRESV_SCRATCH=str(scratch), CRESV_BIN=str(d), VERIF_ROOT=str(VERIF),
                   RUST_BACKTRACE="0",
                   # avoid contention in mmap/munmap (large buffers of compressors, many threads)
                   MALLOC_MMAP_THRESHOLD_=str(2**30), MALLOC_TRIM_THRESHOLD_=str(2**32),
                   MALLOC_TOP_PAD_=str(2**26))
        for k in ("CRES_LOG", "RUST_LOG", "RAYON_NUM_THREADS"):
            env.pop(k, None)
        if replay:
            env["CRESV_REPEAT"] = str(conf.get("repeat", 1))
        out = scratch / f"out-{b}.json"
        base = [str(d / "cresv"), prop, "--tier", tier, "--seed", str(seed), "--replay-dir", str(rdir)]
        cmd = base + (["--replay", replay] if replay else ["--out", str(out)])
        rc, stdout, stderr = run(cmd, env, limit)
        for line in stdout.splitlines():
            if not line.startswith("VIOLATION"):
                print(line)
        if rc is None:
            fail(f"no answer within {limit} s")
        if crashed(rc):
            if replay:
                violations.append(("crash", f"signal {-rc}", replay))
                break
            # find out which case it was
            found = None
            for f in sorted(rdir.glob(f"inflight-{prop}-*")):
                rc2, _, _ = run(base + ["--replay", str(f)], env, limit)
                if rc2 is not None and crashed(rc2):
                    found = f
                    break
            if not found:
                log(stderr[-3000:])
                fail(f"the harness died with signal {-rc}; not reproduced from the cases in flight")
            dest = rdir / f"{prop}-crash.json"
            doc = json.loads(found.read_text())
            doc.update(build=b, message=f"process killed by signal {-rc2}")
            dest.write_text(json.dumps(doc, indent=1))
            violations.append((doc["part"], doc["message"], str(dest)))
            docs.append({"build": b, "evaluations": 1, "distinct_nontrivial": 1, "rule": "crashed", "samples": [doc["case"]]})
            break
        if replay:
            if rc == 1:
                violations.append(("replay", "", replay))
            elif rc != 0:
                log(stderr[-3000:])
                fail(f"replay ended with {rc}")
            continue
        if rc not in (0, 1) or not out.exists():
            log(stderr[-3000:])
            fail(f"the harness ended with {rc}")
        doc = json.loads(out.read_text())
        docs.append(doc)
        for v in doc["violations"]:
            r = Path(v["replay"])
            rd = json.loads(r.read_text())
            rd["build"] = b
            r.write_text(json.dumps(rd, indent=1))
            violations.append((v["part"], v["message"], v["replay"]))
        if violations:
            break
    if not replay:
        coverage = {
            "evaluations": sum(d["evaluations"] for d in docs),
            "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in docs),
            "rule": docs[0]["rule"],
            "samples": [dict(build=d["build"], sample=s) for d in docs for s in d.get("samples", [])][:16],
            "builds": [d["build"] for d in docs],
            "parts": {d["build"]: d.get("parts") for d in docs},
            "classes": {d["build"]: d.get("classes") for d in docs},
        }
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": conf["level"],
            "coverage": coverage,
            "assumptions": conf.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(violations),
        }
        (EVIDENCE / f"{prop}.json").write_text(json.dumps(ev, indent=1))
        print(f"{prop}: {coverage['evaluations']} cases, {coverage['distinct_nontrivial']} distinct non-trivial, "
              f"{ev['wall_s']} s")
    for f in known(prop):
        print(f)
    for part, msg, rep in violations:
        print(f"{part}: {msg}"[:2000])
        print(f"VIOLATION property={prop} replay={rep}")
    return 1 if violations else 0


def known(prop):
    f = VERIF / "KNOWN_FINDINGS.txt"
    if not f.exists():
        return []
    return [l for l in f.read_text().splitlines() if l.startswith(f"KNOWN-FINDING: property={prop} ")]


if __name__ == "__main__":
    main()
