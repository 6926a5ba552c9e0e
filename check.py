#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   run one check
check.py replay <file>                  run one recorded case again
check.py build                          build everything the checks use

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Anything else: no answer.
"""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
OUT = os.path.join(VERIF, "out")
EVIDENCE = os.path.join(VERIF, "evidence")
CRATES = ["smtp-message", "smtp-server", "smtp-queue"]
NSHARDS = 8
HOOK = "--cfg yuubind_verif"
CAP_LINTS = "-Awarnings"


class NoAnswer(Exception):
    pass


def run(cmd, env=None, cwd=None, timeout=1200):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "MIRIFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(env or {})
    e["CARGO_NET_OFFLINE"] = "true"
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


# ---- building

def sources():
    r = []
    for c in CRATES:
        for d, ds, fs in os.walk(os.path.join(REPO, c)):
            ds[:] = sorted(x for x in ds if x != "target")
            r += [os.path.join(d, f) for f in sorted(fs)]
    return r


def stamp():
    h = hashlib.sha256()
    for f in sources() + [os.path.join(VERIF, "tools", "rustc-cov")]:
        try:
            b = open(f, "rb").read()
        except OSError:
            continue
        h.update(f.encode() + b"\0" + b + b"\0")
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def cargo_build(name, manifest_dir, env, toolchain=None, extra=(), verb=("build",)):
    """Builds into .build/<name>; if the sources differ from those of the last build there, the
    crates of the repository are rebuilt whatever their time stamps say"""
    target = os.path.join(BUILD, name)
    os.makedirs(target, exist_ok=True)
    e = dict(env, CARGO_TARGET_DIR=target)
    tc = [toolchain] if toolchain else []
    s = stamp()
    sf = os.path.join(target, "stamp")
    old = open(sf).read() if os.path.exists(sf) else None
    if old != s:
        for d, ds, _ in os.walk(target):
            if os.path.basename(d) == ".fingerprint":
                for x in ds:
                    if re.match(r"(smtp-(message|server|queue)|yv-glue)-[0-9a-f]+$", x):
                        shutil.rmtree(os.path.join(d, x))
                ds[:] = []
    rc, out = run(["cargo"] + tc + list(verb) + ["--offline", "--locked"] + list(extra), env=e, cwd=manifest_dir)
    if rc != 0:
        raise NoAnswer("building %s failed:\n%s" % (name, out[-6000:]))
    open(sf, "w").write(s)
    return target


def binary(prop):
    return {"Q": "yvq", "R": "yvr"}.get(prop[0], "yv")


def build_plain(which):
    d, b = {"yv": ("harness", "yv"), "yvq": ("qharness", "yvq"), "yvr": ("rharness", "yvr")}[which]
    with Lock(which):
        t = cargo_build(which, os.path.join(VERIF, d),
                        {"RUSTFLAGS": HOOK + " " + CAP_LINTS, "RUSTC_WRAPPER": os.path.join(VERIF, "tools", "rustc-cov")})
        # a private copy: another check may rebuild meanwhile
        p = os.path.join(OUT, "bin-%s-%d" % (b, os.getpid()))
        os.makedirs(OUT, exist_ok=True)
        shutil.copy2(os.path.join(t, "debug", b), p)
    return p


def dictionary():
    """Literals of the sources under test, to make inputs out of"""
    ints, strs = set(), set()
    esc = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", '"': '"', "'": "'"}

    def unescape(x):
        def f(m):
            g = m.group(1)
            if g[0] == "x":
                return chr(int(g[1:], 16))
            if g[0] in "\n":
                return ""
            return esc.get(g, g)
        return re.sub(r"\\(x[0-9a-fA-F]{2}|.|\n)", f, x, flags=re.S)
    for f in sources():
        if not f.endswith(".rs"):
            continue
        t = open(f, encoding="utf8", errors="replace").read()
        for m in re.finditer(r'b?"((?:[^"\\]|\\.)*)"', t, flags=re.S):
            s = unescape(m.group(1)).encode("utf8", "replace")
            if 0 < len(s) <= 60:
                strs.add(s)
        for m in re.finditer(r"b?'((?:[^'\\]|\\x[0-9a-fA-F]{2}|\\.))'", t):
            s = unescape(m.group(1)).encode("utf8", "replace")
            strs.add(s)
        for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|[0-9][0-9_]*)(?:u8|u16|u32|u64|usize|i32|i64)?\b", t):
            try:
                v = int(m.group(1).replace("_", ""), 0)
            except ValueError:
                continue
            if 1 < v <= 100000:
                ints.add(v)
    p = os.path.join(OUT, "dict-%d" % os.getpid())
    with open(p, "w") as o:
        for v in sorted(ints):
            o.write("i %d\n" % v)
        for s in sorted(strs):
            o.write("s %s\n" % s.hex())
    return p


# ---- running workers

def limits(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if gb:
            resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f


CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE}


class Shard:
    def __init__(self, tag, cmd, env=None, cwd=None, mem=3, timeout=840, fixed_out=True):
        self.tag, self.cmd, self.timeout = tag, list(cmd), timeout
        self.base = os.path.join(OUT, "%s-%d" % (tag, os.getpid()))
        for s in (".json", ".hashes", ".replay", ".log"):
            if os.path.exists(self.base + s):
                os.remove(self.base + s)
        self.cmd += ["--out", self.base + ".json", "--hashes", self.base + ".hashes", "--replay-out", self.base + ".replay"]
        e = dict(os.environ)
        e.pop("RUSTFLAGS", None)
        e.pop("RUSTC_WRAPPER", None)
        e.update(env or {})
        self.log = open(self.base + ".log", "w+b")
        self.start = time.time()
        self.p = subprocess.Popen(self.cmd, env=e, cwd=cwd, stdout=self.log, stderr=subprocess.STDOUT, preexec_fn=limits(mem), start_new_session=True)

    def wait(self):
        try:
            self.rc = self.p.wait(max(1, self.timeout - (time.time() - self.start)))
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
            self.rc = None
        self.log.seek(0)
        self.text = self.log.read().decode("utf8", "replace")
        self.log.close()
        try:
            self.j = json.load(open(self.base + ".json"))
        except (OSError, ValueError):
            self.j = None
        return self

    def hashes(self):
        try:
            return open(self.base + ".hashes", "rb").read()
        except OSError:
            return b""

    def clean(self):
        for s in (".json", ".hashes", ".replay", ".log"):
            try:
                os.remove(self.base + s)
            except OSError:
                pass


class Broken(Exception):
    def __init__(self, message, replay):
        Exception.__init__(self, message)
        self.message, self.replay = message, replay


def keep(prop, seed, text):
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-seed%d.txt" % (prop, seed))
    open(p, "w").write(text)
    return p


def judge(prop, seed, shards):
    """First a violation, if there is one; then anything that did not answer"""
    for s in shards:
        if s.rc == 1 and s.j and s.j.get("status") == "violation":
            try:
                t = open(s.base + ".replay").read()
            except OSError:
                t = "property %s\ncommand %s\n--- what failed\n%s\n" % (prop, " ".join(s.cmd), s.j.get("message"))
            raise Broken(s.j.get("message", ""), keep(prop, seed, t))
    for s in shards:
        if s.rc is not None and s.rc < 0 and -s.rc in CRASH:
            m = "the process was ended by signal %d while running the code under test" % -s.rc
            raise Broken(m, keep(prop, seed, "property %s\ncommand %s\n--- what failed\n%s\n--- its output\n%s\n" % (
                prop, " ".join(s.cmd), m, s.text[-20000:])))
    for s in shards:
        if s.rc != 0 or not s.j or s.j.get("status") != "held":
            raise NoAnswer("%s: exit %s, %s\n%s" % (s.tag, s.rc, s.j and s.j.get("message"), s.text[-3000:]))


def merge(shards):
    tot = {k: sum(s.j[k] for s in shards) for k in ("enumerated", "random", "guided", "nontrivial")}
    seen = set()
    for s in shards:
        b = s.hashes()
        seen.update(b[i:i + 8] for i in range(0, len(b), 8))
    counts, maxima = {}, {}
    for s in shards:
        for k, v in s.j["counts"].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in s.j["maxima"].items():
            maxima[k] = max(maxima.get(k, 0), v)
    bm = [s.j["edge_bitmap"] for s in shards]
    n = max((len(b) for b in bm), default=0)
    edges = sum(1 for i in range(n) if any(i < len(b) and b[i] == "1" for b in bm))
    samples = [x for s in shards for x in s.j["samples"]][:4]
    return tot, len(seen), counts, maxima, edges, n, samples


def strip(p):
    return [x[:1500] for x in p]


def evidence(prop, tier, seed, cov, wall, violations, assumptions):
    os.makedirs(EVIDENCE, exist_ok=True)
    e = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": assumptions, "wall_s": round(wall, 3), "violations": violations}
    p = os.path.join(EVIDENCE, prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1, ensure_ascii=False)
    os.replace(p + ".tmp", p)


ASSUME = ["the harness's models of the protocol are right where they judge (see DESIGN.md)",
          "what the workloads did not reach was not observed"]


def check_workload(prop, tier, seed, t0):
    exe = build_plain(binary(prop))
    d = dictionary()
    limit = 300 if tier == "quick" else 780
    shards = [Shard("%s-%d" % (prop, i),
                    [exe, "worker", prop, "--seed", str(seed), "--shard", str(i), "--nshards", str(NSHARDS), "--dict", d,
                     "--thorough", str(int(tier == "thorough")), "--time", str(limit)], timeout=limit + 60)
              for i in range(NSHARDS)]
    try:
        for s in shards:
            s.wait()
        judge(prop, seed, shards)
        tot, distinct, counts, maxima, edges, n, samples = merge(shards)
        rule = shards[0].j["rule"]
        et = shards[0].j["enum_total"]
        capped = any(s.j["time_capped"] for s in shards)
        ran = tot["enumerated"] + tot["random"] + tot["guided"]
        if distinct < 2 or tot["random"] == 0:
            raise NoAnswer("nothing was observed: %r" % tot)
        cov = {"evaluations": ran, "distinct_nontrivial": distinct, "rule": rule, "samples": samples,
               "enumerated": tot["enumerated"], "enumeration_complete": tot["enumerated"] == et,
               "random": tot["random"], "coverage_guided": tot["guided"], "nontrivial": tot["nontrivial"],
               "code_edges_reached": edges, "code_edges_instrumented": n, "stopped_by_time": capped,
               "observed": counts, "largest": maxima}
        return cov
    finally:
        for s in shards:
            if s.p.poll() is None:
                os.killpg(s.p.pid, signal.SIGKILL)
            s.clean()
        for f in (exe, d):
            if os.path.exists(f):
                os.remove(f)


# ---- memory safety: the same workloads under sanitizers

SHIM = [("mem::uninitialized()", "mem::zeroed()"),
        ("ptr = self.inner.ptr.offset(self.inner.len as isize);",
         "ptr = if self.inner.kind() == KIND_ARC { self.inner.ptr.offset(self.inner.len as isize) } else { ::std::ptr::null_mut() };")]


def sanitizer_tree():
    """A copy of the harness whose `bytes` crate keeps everything on the heap: the released one
    stores short strings inside the handle in ways that are undefined behaviour by themselves, and
    which would also hide misuse of them by the code under test"""
    top = os.path.join(BUILD, "san")
    h = hashlib.sha256()
    for d in ("engine", "glue", "harness"):
        for a, ds, fs in os.walk(os.path.join(VERIF, d)):
            ds[:] = sorted(x for x in ds if x != "target")
            for f in sorted(fs):
                h.update(open(os.path.join(a, f), "rb").read())
    h.update(open(os.path.abspath(__file__), "rb").read())
    sf = os.path.join(top, "stamp")
    if os.path.exists(sf) and open(sf).read() == h.hexdigest():
        return os.path.join(top, "harness")
    if os.path.exists(top):
        shutil.rmtree(top)
    os.makedirs(top)
    for d in ("engine", "glue", "harness"):
        shutil.copytree(os.path.join(VERIF, d), os.path.join(top, d), ignore=shutil.ignore_patterns("target"))
    cargo_home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    src = None
    base = os.path.join(cargo_home, "registry", "src")
    for x in sorted(os.listdir(base)):
        if os.path.isdir(os.path.join(base, x, "bytes-0.4.12")):
            src = os.path.join(base, x, "bytes-0.4.12")
    if not src:
        raise NoAnswer("no source of bytes 0.4.12")
    b = os.path.join(top, "bytes")
    shutil.copytree(src, b)
    p = os.path.join(b, "src", "bytes.rs")
    t = open(p).read()
    for a, z in SHIM:
        if a not in t:
            raise NoAnswer("unexpected source of bytes")
        t = t.replace(a, z)
    t = re.sub(r"(?m)^const INLINE_CAP: usize = .*;$", "const INLINE_CAP: usize = 0;", t)
    open(p, "w").write(t)
    p = os.path.join(b, "src", "lib.rs")
    t = open(p).read()
    open(p, "w").write(re.sub(r"(?m)^#!\[deny\(warnings.*$", "#![allow(warnings)]", t))
    with open(os.path.join(top, "harness", "Cargo.toml"), "a") as f:
        f.write('\n[patch.crates-io]\nbytes = { path = "../bytes" }\n')
    # the lock file names the registry's bytes; only that entry changes
    p = os.path.join(top, "harness", "Cargo.lock")
    t = open(p).read()
    t = re.sub(r'(name = "bytes"\nversion = "0\.4\.12"\n)source = .*\nchecksum = .*\n', r"\1", t)
    open(p, "w").write(t)
    open(sf, "w").write(h.hexdigest())
    return os.path.join(top, "harness")


TRIPLE = "x86_64-unknown-linux-gnu"
REPORT = re.compile(r"ERROR: AddressSanitizer|WARNING: ThreadSanitizer|error: Undefined Behavior|error: unsupported operation|runtime error:")
# bytes 0.4 orders the release of a shared buffer by a memory fence, which ThreadSanitizer does not model
TSAN_SUPP = "race:release_shared\nrace:bytes::bytes::release_shared\n"


def check_memory(prop, tier, seed, t0):
    deep = tier == "thorough"
    with Lock("san"):
        h = sanitizer_tree()
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            a = ex.submit(cargo_build, "asan", h, {"RUSTFLAGS": "-Zsanitizer=address -Cforce-frame-pointers=yes " + HOOK + " " + CAP_LINTS},
                          "+nightly", ["--target", TRIPLE])
            t = ex.submit(cargo_build, "tsan", h, {"RUSTFLAGS": "-Zsanitizer=thread " + HOOK + " " + CAP_LINTS},
                          "+nightly", ["--target", TRIPLE, "-Zbuild-std"])
            menv = {"RUSTFLAGS": HOOK + " " + CAP_LINTS, "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks",
                    "MIRI_SYSROOT": ""}
            menv.pop("MIRI_SYSROOT")
            m = ex.submit(cargo_build, "miri", h, menv, "+nightly", ["--", "list"], ("miri", "run"))
            a, t, mt = a.result(), t.result(), m.result()
        bins = {}
        for n, d in (("asan", a), ("tsan", t)):
            p = os.path.join(OUT, "bin-%s-%d" % (n, os.getpid()))
            os.makedirs(OUT, exist_ok=True)
            shutil.copy2(os.path.join(d, TRIPLE, "debug", "yv"), p)
            bins[n] = p
    supp = os.path.join(OUT, "tsan-%d.supp" % os.getpid())
    open(supp, "w").write(TSAN_SUPP)
    limit = 240 if not deep else 700
    common = ["--seed", str(seed), "--guided", "0", "--enum", "0", "--cpu-limit", "240", "--nshards", str(NSHARDS)]
    jobs = []
    aenv = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=77"}
    tenv = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=77:suppressions=" + supp}
    m_env = dict(menv, CARGO_TARGET_DIR=mt, CARGO_NET_OFFLINE="true")
    miri = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--"]
    size = lambda q, d: str(d if deep else q)
    for i in range(NSHARDS):
        # (name, what, command, env, cwd)
        jobs.append(("asan", "U01", [bins["asan"], "worker", "U01", "--random", size(15000, 400000)], aenv, None, i))
        jobs.append(("asan-threads", "U01T", [bins["asan"], "worker", "U01T", "--random", size(1200, 30000)], aenv, None, i))
        jobs.append(("tsan", "U01T", [bins["tsan"], "worker", "U01T", "--random", size(1200, 30000)], tenv, None, i))
        jobs.append(("miri", "U01", miri + ["worker", "U01", "--scale", "0", "--random", size(12, 1200)], m_env, h, i))
        jobs.append(("miri-threads", "U01T", miri + ["worker", "U01T", "--scale", "0", "--random", size(2, 100)], dict(m_env, MIRIFLAGS=m_env["MIRIFLAGS"] + " -Zmiri-seed=%d" % (seed * 8 + i)), h, i))

    def go(j):
        name, what, cmd, env, cwd, i = j
        s = Shard("%s-%s-%d" % (prop, name, i), cmd + common + ["--shard", str(i), "--time", str(limit)], env, cwd, 0, limit + 200)
        s.kind, s.what, s.env = name, what, env
        return s.wait()

    # Miri first: its shards take longest
    jobs.sort(key=lambda j: (not j[0].startswith("miri"), j[5]))
    shards = []
    try:
        with concurrent.futures.ThreadPoolExecutor(NSHARDS) as ex:
            shards = list(ex.map(go, jobs))
        for s in shards:
            k = REPORT.search(s.text)
            if k and k.group(0) == "error: unsupported operation":
                raise NoAnswer(s.text[-3000:])
            if k:
                env = " ".join("%s='%s'" % x for x in s.env.items())
                line = s.text[k.start():].splitlines()[0]
                raise Broken("%s: %s" % (s.kind, line), keep(prop, seed, "property %s\ncommand %s %s\n--- what failed\n%s\n" % (
                    prop, env, " ".join(s.cmd), s.text[k.start():k.start() + 20000])))
        for s in shards:
            if s.rc == 77:
                raise NoAnswer("%s ended with the sanitizer's exit code but no report\n%s" % (s.tag, s.text[-3000:]))
        judge(prop, seed, shards)
        per, distinct, samples, observed = {}, set(), [], {}
        for s in shards:
            e = per.setdefault(s.kind, {"runs": 0, "cpu_wall_s": 0, "stopped_by_time": False})
            e["cpu_wall_s"] += s.j["wall_s"]
            e["runs"] += s.j["random"]
            e["stopped_by_time"] |= s.j["time_capped"]
            for k, v in s.j["counts"].items():
                key = "%s: %s" % (s.kind, k)
                observed[key] = observed.get(key, 0) + v
            b = s.hashes()
            distinct.update((s.what, b[i:i + 8]) for i in range(0, len(b), 8))
            if len(samples) < 4:
                samples += strip(s.j["samples"][:1])
        if min(e["runs"] for e in per.values()) == 0:
            raise NoAnswer("nothing was observed: %r" % per)
        return {"evaluations": sum(e["runs"] for e in per.values()), "distinct_nontrivial": len(distinct),
                "rule": "Cases: the other checks' random cases with their verdicts ignored, writers and sources that note being moved after "
                        "first use, items that count their drops, values sharing buffers dropped in random order (U01), and sessions fed by "
                        "other threads out of one buffer next to threads using the same parsed values (U01T), run under AddressSanitizer, "
                        "ThreadSanitizer and Miri; oracle: no report, no move, each item dropped once, equal output. Non-trivial: the pinned "
                        "place was used more than once, more than one value shared the buffer, or any case of another check; distinct by what was "
                        "parsed, fed and pinned.",
                "samples": samples, "per_sanitizer": per, "observed": observed}
    finally:
        for s in shards:
            s.clean()
        for f in list(bins.values()) + [supp]:
            if os.path.exists(f):
                os.remove(f)


def replay(path):
    t = open(path).read().splitlines()
    prop = t[0].split(" ", 1)[1]
    if t[1].startswith("command "):
        print("run in /verif after 'check.py build':\n" + t[1][8:])
        return 0
    exe = build_plain(binary(prop))
    try:
        return subprocess.run([exe, "replay", path], preexec_fn=limits(3)).returncode
    finally:
        os.remove(exe)


def main():
    a = sys.argv[1:]
    if a and a[0] == "replay":
        return replay(a[1])
    if a and a[0] == "build":
        for w in ("yv", "yvq", "yvr"):
            os.remove(build_plain(w))
        return 0
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    try:
        cov = (check_memory if prop == "U01" else check_workload)(prop, tier, seed, t0)
    except Broken as b:
        evidence(prop, tier, seed, {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the case that failed; the run stopped there",
                                    "samples": [open(b.replay).read()[:3000]]}, time.time() - t0, 1, ASSUME)
        print(b.message[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, b.replay))
        return 1
    except NoAnswer as n:
        print("NO ANSWER property=%s: %s" % (prop, n))
        return 3
    except Exception:  # a fault of this program says nothing about the property
        traceback.print_exc()
        print("NO ANSWER property=%s: the check itself failed" % prop)
        return 3
    evidence(prop, tier, seed, cov, time.time() - t0, 0, ASSUME)
    print("HELD property=%s on %d cases, %d of them distinct and non-trivial, %.1f s" % (
        prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
