#!/usr/bin/env python3
"""Checks of the properties in properties.jsonl.

    run.py Cnn              check one property against /repo as it is now
    run.py --setup          build what does not depend on /repo
    run.py --replay FILE    repeat a recorded counterexample

Exit 0: held.  Exit 1: violated, replayed on the real code, VIOLATION line
printed.  Exit 2: no answer."""
import hashlib, json, os, re, resource, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
VARIANTS = ["n509", "n677", "n821", "n701"]
LOGQ = {"n509": 11, "n677": 11, "n821": 12, "n701": 13}
NAMES = {"n509": "NTRU-HPS-2048-509", "n677": "NTRU-HPS-2048-677",
         "n821": "NTRU-HPS-4096-821", "n701": "NTRU-HRSS-701"}
SIZE = {  # seed, public key, secret key, ciphertext, ternary bytes
    "n509": (2413, 699, 935, 699, 102), "n677": (3211, 930, 1234, 930, 136),
    "n821": (3895, 1230, 1590, 1230, 164), "n701": (1400, 1138, 1450, 1138, 140)}
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
START = time.time()
BUDGET = 3000 if THOROUGH else 780     # seconds for one check
MEMORY = 27 << 30                      # all engine processes together
TOOLS = subprocess.run(["rustc", "--print", "sysroot"], capture_output=True, text=True,
                       env=dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
                                PATH="/root/.cargo/bin:" + os.environ.get("PATH", ""))).stdout.strip()
TOOLS += "/lib/rustlib/x86_64-unknown-linux-gnu/bin/"


class NoAnswer(Exception):
    pass


def log(*a):
    print("[%6.1f]" % (time.time() - START), *a, file=sys.stderr, flush=True)


def left():
    return BUDGET - (time.time() - START)


# ------------------------------------------------------------------ building

def cargo_env(target, flags=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "ntrust_bench", "bench", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(HOME=e.get("HOME", "/root"), RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=target,
             PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin"))
    if flags:
        e["RUSTFLAGS"] = flags
    return e


def sh(cmd, cwd, env, what, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    if r.returncode != 0:
        raise NoAnswer("%s failed:\n%s" % (what, (r.stdout + r.stderr)[-3000:]))
    return r.stdout


def engine():
    t = BUILD + "/engine"
    sh(["cargo", "build", "-q", "--release", "--offline"], HERE + "/engine", cargo_env(t), "building the engine")
    return t + "/release/vsym"


IRFLAGS = ("--emit=llvm-bc -Cno-prepopulate-passes -Ccodegen-units=1 -Cpanic=abort -Copt-level=3 "
           "-Coverflow-checks=on -Cdebug-assertions=off -Awarnings")
FUNCS = {}


def path(s):
    """3kem14crypto_kem_enc... -> kem::crypto_kem_enc"""
    r = []
    while True:
        m = re.match(r"\D?(\d+)_?", s)
        if not m:
            return "::".join(r)
        k = int(m.group(1))
        r.append(s[m.end():m.end() + k])
        s = s[m.end() + k:]


def encode(v):
    """LLVM IR of the crate as it is now, of the reference and of the entries"""
    t = "%s/ir_%s" % (BUILD, v)
    deps = t + "/x86_64-unknown-linux-gnu/debug/deps"
    os.makedirs(deps, exist_ok=True)
    for f in os.listdir(deps):
        if f.endswith(".bc"):
            os.remove(os.path.join(deps, f))
    for d in ("/debug/.fingerprint", "/x86_64-unknown-linux-gnu/debug/.fingerprint"):
        shutil.rmtree(t + d, ignore_errors=True)
    sh(["cargo", "build", "-q", "--offline", "--target", "x86_64-unknown-linux-gnu", "--features", v],
       HERE + "/sym", cargo_env(t, IRFLAGS), "compiling /repo (%s) to IR" % v)
    bcs = sorted(os.path.join(deps, f) for f in os.listdir(deps) if f.endswith(".bc"))
    src = open(HERE + "/sym/src/lib.rs").read()
    api = ",".join(re.findall(r"pub fn (vp_\w+)", src))
    sh([TOOLS + "llvm-link"] + bcs + ["-o", t + "/all.bc"], HERE, cargo_env(t), "llvm-link")
    sh([TOOLS + "opt", "-passes=internalize,strip-dead-debug-info,default<O2>", "-internalize-public-api-list=" + api,
        "-vectorize-loops=false", "-vectorize-slp=false", "-enable-nontrivial-unswitch=false", "--strip-debug",
        t + "/all.bc", "-S", "-o", t + "/all.ll"], HERE, cargo_env(t), "opt")
    crate = [b for b in bcs if os.path.basename(b).startswith("ntrust_native-")]
    names = []
    for b in crate:
        for l in sh([TOOLS + "llvm-nm", "--defined-only", b], HERE, cargo_env(t), "llvm-nm").splitlines():
            n = l.split()[-1]
            m = re.search(r"13ntrust_native(.*)", n)
            if m and l.split()[-2] in "tT":
                names.append(path(m.group(1)))
    FUNCS[v] = sorted(set(n for n in names if n))
    return t + "/all.ll"


def native(v, profile):
    t = "%s/native_%s" % (BUILD, v)
    cmd = ["cargo", "build", "-q", "--offline", "--features", v] + (["--release"] if profile == "release" else [])
    sh(cmd, HERE + "/native", cargo_env(t), "building the native driver (%s)" % v)
    return "%s/%s/vnative" % (t, profile)


_native = {}
_native_lock = {(v, p): threading.Lock() for v in VARIANTS for p in ("debug", "release")}
_cargo_lock = {v: threading.Lock() for v in VARIANTS}


def driver(v, profile):
    with _native_lock[(v, profile)]:
        if (v, profile) not in _native:
            with _cargo_lock[v]:
                _native[(v, profile)] = native(v, profile)
        return _native[(v, profile)]


def ask(v, profile, line, timeout=120):
    try:
        r = subprocess.run([driver(v, profile)], input=line + "\n", capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "HANG"
    if r.returncode != 0:
        return "DIFF crash %d %s" % (r.returncode, r.stderr[-300:])
    return r.stdout.strip()


# ------------------------------------------------------------- engine runs

class Job:
    def __init__(self, v, entry, presets=None, mem=1, limit=420, public="", search=False, expect=None, tag=""):
        self.v, self.entry, self.mem, self.limit, self.public = v, entry, mem, limit, public
        self.presets = {60: "00000000", 61: "00000000"}
        self.presets.update(presets or {})
        self.search, self.expect, self.tag = search, expect or {}, tag
        self.out = None
        self.proc = None
        self.killed = ""

    def name(self):
        return "%s %s%s" % (self.v, self.entry, " " + self.tag if self.tag else "")


class Pool:
    """runs engine jobs side by side within the memory and the cores there are"""

    def __init__(self):
        self.cv = threading.Condition()
        self.mem = 0
        self.running = []
        self.stop = False
        self.cap = 26
        self.cores = max(2, (os.cpu_count() or 8))

    def run(self, job):
        with self.cv:
            while not self.stop and self.running and (
                    self.mem + job.mem > self.cap or len(self.running) >= self.cores):
                self.cv.wait()
            if self.stop:
                job.killed = "stopped"
                return job
            self.mem += job.mem
            self.running.append(job)
        try:
            self.go(job)
        finally:
            with self.cv:
                self.mem -= job.mem
                self.running.remove(job)
                self.cv.notify_all()
        return job

    def go(self, job):
        limit = int(min(job.limit, left() - 60))
        if limit < 5:
            job.killed = "no time left"
            return
        d = BUILD + "/run"
        os.makedirs(d, exist_ok=True)
        f = "%s/%d_%d" % (d, os.getpid(), id(job))
        with open(f + ".pre", "w") as h:
            for k, x in job.presets.items():
                h.write("%d:%s\n" % (k, x))
        cmd = [ENGINE, IR[job.v], "--entry", job.entry, "--modw", str(LOGQ[job.v]), "--seed", str(SEED),
               "--timeout", "60000" if THOROUGH else "20000", "--limit", str(limit), "--presets", f + ".pre",
               "--out", f + ".json"]
        if job.public:
            cmd += ["--public", job.public]
        if job.search:
            cmd += ["--search"]
        if job.entry in ("vp_drbg", "vp_init", "vp_state"):
            cmd += ["--deep"]
        if THOROUGH and job.tag == "cross":
            cmd += ["--cross"]
        env = dict(os.environ, GLIBC_TUNABLES="glibc.malloc.hugetlb=1")
        try:
            job.proc = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=open(f + ".err", "w"))
            try:
                job.proc.wait(timeout=limit + 45)
            except subprocess.TimeoutExpired:
                job.killed = "time limit"
                job.proc.kill()
                job.proc.wait()
            if os.path.exists(f + ".json"):
                job.out = json.load(open(f + ".json"))
            elif not job.killed:
                job.killed = "engine stopped: " + open(f + ".err").read()[-300:]
        finally:
            for s in (".pre", ".json", ".err"):
                if os.path.exists(f + s):
                    os.remove(f + s)
        o = job.out or {}
        log(job.name(), job.killed or o.get("result"), o.get("search", ""), "failed", o.get("failed"), "%ss" % o.get("wall_s"))

    def watch(self):
        """the largest process goes before the machine runs out of memory"""
        page = os.sysconf("SC_PAGE_SIZE")
        while True:
            time.sleep(1)
            sizes = []
            for j in list(self.running):
                try:
                    sizes.append((int(open("/proc/%d/statm" % j.proc.pid).read().split()[1]) * page, j))
                except Exception:
                    pass
            if sum(s for s, _ in sizes) > MEMORY:
                s, j = max(sizes, key=lambda x: x[0])
                j.killed = "memory limit"
                j.proc.kill()

    def halt(self):
        with self.cv:
            self.stop = True
            for j in self.running:
                j.killed = "stopped"
                if j.proc:
                    j.proc.kill()
            self.cv.notify_all()


POOL = Pool()
IR = {}
ENGINE = None


def run_jobs(jobs):
    jobs = sorted(jobs, key=lambda j: -j.mem)
    with ThreadPoolExecutor(32) as ex:
        return list(ex.map(POOL.run, jobs))


# -------------------------------------------------------- candidate inputs

class Candidates:
    """Turns what the solver could not exclude into concrete inputs that fail
    on the real code.  Nothing is reported that did not fail there."""

    def __init__(self, prop):
        self.prop = prop
        self.found = None
        self.lock = threading.Lock()
        self.tried = []

    def report(self, v, profile, line, answer, source):
        with self.lock:
            if not self.found:
                self.found = dict(property=self.prop, variant=v, profile=profile, request=line, answer=answer, source=source)
                POOL.halt()
        return True

    def attempt(self, v, line, source, bad=None):
        bad = bad or (lambda a: a.startswith("DIFF") or a == "HANG")
        for profile in ("release", "debug"):
            a = ask(v, profile, line)
            self.tried.append("%s %s %s: %s" % (v, profile, source, a[:60]))
            if bad(a):
                return self.report(v, profile, line, a, source)
        return False

    def hunt(self, v, kind, seconds, bad=None, profiles=("release", "debug")):
        for i, profile in enumerate(profiles):
            if self.found:
                return
            try:
                r = subprocess.run([driver(v, profile), "hunt", kind, str(seconds), str(SEED + 100 * i)],
                                   capture_output=True, text=True, timeout=seconds + 60)
            except subprocess.TimeoutExpired:
                continue
            first = (r.stdout.splitlines() or [""])[0]
            if first.startswith("FOUND "):
                line = first[6:]
                a = ask(v, profile, line)
                if (bad or (lambda a: a.startswith("DIFF")))(a):
                    self.report(v, profile, line, a, "search among structured inputs")
            else:
                self.tried.append("%s %s %s: %s" % (v, profile, kind, first))


# ------------------------------------------------------------- properties

def le32(n):
    return n.to_bytes(4, "little").hex()


def num(h):
    x = int.from_bytes(bytes.fromhex(h), "little")
    return x - (1 << 32) if x >= 1 << 31 else x


KPMEM = {"n509": 4, "n677": 6, "n821": 8, "n701": 8}
KPREAL = {"n509": 3, "n677": 4, "n821": 7, "n701": 5}


def ints(b):
    return [k for k in b]


def line_of(entry, b):
    """request line for the buffers of a model"""
    g = lambda i: b.get(str(i)) or "-"
    if "keypair" in entry:
        return "keypair %s %s %s" % (g(1), g(2), g(3) if "3" in b else "00")
    if "enc" in entry:
        return "enc %s %s %s" % (g(2), g(1), g(3) if "3" in b else "00")
    if "dec" in entry or "padding" in entry:
        return "dec %s %s %s" % (g(1), g(2), g(3) if "3" in b else "00")
    return None


def conformance(entry, hunt, mem, labels):
    """real == reference for every input"""

    def plan(variants):
        return [Job(v, entry, mem=mem(v), presets=labels.get("presets"), limit=480 if THOROUGH else 400,
                    expect=labels["expect"](v)) for v in variants]

    return plan


def trits(xs):
    o = []
    for i in range(0, len(xs), 5):
        o.append(sum((t % 3) * 3 ** k for k, t in enumerate(xs[i:i + 5])))
    return bytes(o)


def packq(xs, logq, n):
    a = 0
    for i, x in enumerate(xs):
        a |= (x % (1 << logq)) << (logq * i)
    return a.to_bytes(n, "little")


def plain_key(v):
    """f = 1, 1/f = 1, 1/h = 1/3: decryption of 3r + m gives (r, m)"""
    seed, pk, sk, ct, tb = SIZE[v]
    n = int(v[1:])
    one = trits([1] + [0] * (n - 2))
    q = 1 << LOGQ[v]
    h = packq([pow(3, -1, q)] + [0] * (n - 2), LOGQ[v], pk)
    return (one + one + h + bytes(range(32))).hex()


def windows(prop, v, rnd):
    """Jobs with part of the input free and the rest fixed: the solver either
    finds an input on which real and reference differ, or none exists there."""
    seed, pk, sk, ct, tb = SIZE[v]
    jobs = []
    n = int(v[1:])
    if prop in ("C03", "C04", "C10"):
        only = {"C03": 1, "C04": 2, "C10": 2}[prop]
        key = plain_key(v)
        # an accepted ciphertext of the plain key: m of full weight, r = 0
        if v == "n701":
            base = [0] * (n - 1)
        else:
            w = ((1 << LOGQ[v]) // 8 - 2) // 2
            base = [1] * w + [-1] * w + [0] * (n - 1 - 2 * w)
        b = packq(base, LOGQ[v], ct).hex()
        spots = sorted(set([ct - 1, 0, 1, ct - 2, ct // 2] + [rnd.randrange(ct) for _ in range(3)]))
        for at in spots:
            w = 1 if at == ct - 1 else 2
            h = b[:2 * at] + "??" * w + b[2 * (at + w):]
            h = h[:2 * ct]
            jobs.append(Job(v, "vp_dec", {60: le32(only), 1: h, 2: key, 3: "00" * 32}, mem=2, limit=60, search=True,
                            tag="window ct[%d..%d]" % (at, at + w)))
    if prop == "C01":
        base = bytes(rnd.randrange(256) for _ in range(pk)).hex()
        s = bytes(rnd.randrange(256) for _ in range(seed)).hex()
        for at in sorted(set([pk - 1, 0, rnd.randrange(pk)])):
            jobs.append(Job(v, "vp_enc", {1: s, 2: base[:2 * at] + "??" + base[2 * at + 2:], 3: "00" * ct, 4: "00" * 32},
                            mem=2, limit=60, search=True, tag="window pk[%d]" % at))
        for at in sorted(set([0, n - 2, rnd.randrange(n - 1)])):
            jobs.append(Job(v, "vp_enc", {1: s[:2 * at] + "??" + s[2 * at + 2:], 2: base, 3: "00" * ct, 4: "00" * 32},
                            mem=2, limit=60, search=True, tag="window seed[%d]" % at))
    return jobs


def drbg_lengths():
    if THOROUGH:
        return list(range(0, 4097, 1))
    return list(range(0, 66)) + [80, 96, 127, 128, 129, 255, 256, 257, 1024, 4095, 4096] + [s[0] for s in SIZE.values()]


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.cand = Candidates(prop)
        self.variants = list(VARIANTS)
        self.assume = [
            "SHA3-256 and AES-256 are uninterpreted functions (the dependencies tiny-keccak and aes are replaced by stubs); "
            "equal arguments give equal results, known arguments give the real value",
            "the LLVM IR rustc 1.99.1 emits (optimised by the LLVM passes named in DESIGN.md) means what the machine code means",
        ]
        self.bounds = []
        self.outside = []

    # --- what to prove
    def jobs(self):
        p = self.prop
        J = []
        for v in self.variants:
            seed, pk, sk, ct, tb = SIZE[v]
            if p == "C01":
                J.append(Job(v, "vp_enc", mem=1, limit=300, expect={"1": 1, "10": ct, "11": 32}))
            if p == "C02":
                J.append(Job(v, "vp_keypair", mem=KPMEM[v], limit=460, expect={"1": 1, "10": pk, "11": sk}))
            if p in ("C03", "C04"):
                J.append(Job(v, "vp_dec", {60: le32(1 if p == "C03" else 2)}, mem=2, limit=300, expect={"1": 1, "10": 32}))
            if p in ("C05", "C06"):
                J.append(Job(v, "vp_keypair_real", mem=KPREAL[v], limit=460, public="3,4", expect={"1": 1}))
                J.append(Job(v, "vp_enc_real", mem=1, limit=300, public="2,3,4", expect={"1": 1}))
                J.append(Job(v, "vp_dec_real", mem=1, limit=300, public="1,3", expect={"1": 1}))
            if p == "C05":
                for n in drbg_lengths() if v == "n509" else (0, 1, 16, 17, 48, 1000, seed):
                    J.append(Job(v, "vp_drbg", {60: le32(n)}, limit=120, expect={"1": 1}, tag="length %d" % n))
                J.append(Job(v, "vp_init", limit=120))
            if p == "C07":
                for n in drbg_lengths() if v == "n509" else (0, 1, 15, 16, 17, 33, 64, seed):
                    J.append(Job(v, "vp_drbg", {60: le32(n)}, limit=200, expect={"1": 1, "10": n, "12": 52}, tag="length %d" % n))
                J.append(Job(v, "vp_init", limit=120, expect={"12": 52}))
                J.append(Job(v, "vp_state", limit=120, expect={"12": 156}))
                J.append(Job(v, "vp_counter", limit=120, expect={"10": 16}))
            if p == "C08":
                J.append(Job(v, "vp_keypair_real", mem=KPREAL[v], limit=460, public="3,4", expect={"1": 1, "2": 1}))
                J.append(Job(v, "vp_enc_real", mem=1, limit=300, public="2,3,4", expect={"1": 1, "2": 1}))
                J.append(Job(v, "vp_enc_fault", limit=300, expect={"2": 1, "3": 4}, tag="request 0 fails"))
                for k in (0, 1):
                    J.append(Job(v, "vp_keypair_fault", {60: le32(k)}, mem=KPREAL[v], limit=460, expect={"2": 1, "3": 4},
                                 tag="request %d fails" % k))
            if p == "C09":
                J.append(Job(v, "vp_keypair_pure", mem=KPREAL[v] + 1, limit=480, expect={"1": 2, "10": pk, "11": sk}))
                J.append(Job(v, "vp_enc_pure", mem=1, limit=300, expect={"1": 2, "10": ct, "11": 32, "12": pk}))
                J.append(Job(v, "vp_dec_pure", mem=1, limit=300, expect={"1": 2, "10": 32}))
            if p == "C10" and v != "n821":
                J.append(Job(v, "vp_padding", mem=2, limit=300, expect={"1": 1, "10": 32}))
            if p == "C11":
                J.append(Job(v, "vp_keypair_real", mem=KPREAL[v], limit=460, public="3,4", expect={"10": 1, "11": 2 * tb + 1}))
                J.append(Job(v, "vp_enc_real", mem=1, limit=300, public="2,3,4", expect={"10": 1}))
        return J

    # --- guards: each of these must fail
    def guards(self):
        p = self.prop
        v = "n509"
        one = {61: le32(1)}
        if p in ("C01", "C08", "C11", "C06", "C05", "C09"):
            return [Job(v, "vp_enc", one, limit=200, tag="wrong on purpose")]
        if p in ("C03", "C04"):
            return [Job(v, "vp_dec", {61: le32(1), 60: le32(1 if p == "C03" else 2)}, mem=2, limit=200, tag="wrong on purpose")]
        if p == "C10":
            return [Job(v, "vp_padding", one, mem=2, limit=200, tag="wrong on purpose")]
        if p == "C07":
            return [Job(v, "vp_drbg", {61: le32(1), 60: le32(33)}, limit=200, tag="wrong on purpose")]
        return []

    # --- which kinds of events and labels count
    def problems(self, j):
        """what of this run speaks against the property"""
        p = self.prop
        o = j.out
        if o is None:
            return ["no verdict (%s)" % j.killed]
        r = []
        if o["result"] != "complete":
            r.append(o["result"])
        for f in o["failed"]:
            if str(f["label"]) in j.expect:
                r.append("label %d %s x%d" % (f["label"], f["verdict"], f["count"]))
        for e in o["events"]:
            k = e["kind"]
            if k == "panic" and p in ("C01", "C02", "C03", "C04", "C05", "C07", "C10"):
                r.append("panic possible at %s" % e["site"])
            if k == "hidden-state" and p in ("C09",):
                r.append("hidden state at %s" % e["site"])
            if k in ("branch", "address", "division") and p == "C06" and not e["public"]:
                r.append("%s at %s" % (k, e["site"]))
        if not r:
            for l, n in j.expect.items():
                if o["proved"].get(l, 0) != n:
                    r.append("label %s reached %d times instead of %d" % (l, o["proved"].get(l, 0), n))
        return r


def known_findings():
    return []


def validate(check):
    """the encoding run on concrete inputs gives what the real code gives"""
    import random
    rnd = random.Random(SEED)
    done = []
    p = check.prop
    jobs = []
    rb = lambda n: bytes(rnd.randrange(256) for _ in range(n)).hex()
    for v in check.variants:
        seed, pk, sk, ct, tb = SIZE[v]
        if p in ("C01", "C05", "C06", "C08", "C09", "C11"):
            jobs.append((Job(v, "vp_enc", {1: rb(seed), 2: rb(pk), 3: "00" * ct, 4: "00" * 32}, limit=120, tag="concrete"), ("10", "11")))
        if p in ("C03", "C04", "C10", "C12"):
            jobs.append((Job(v, "vp_dec", {1: rb(ct), 2: rb(sk), 3: "00" * 32}, limit=120, tag="concrete"), ("10",)))
        if p == "C07":
            jobs.append((Job(v, "vp_drbg", {60: le32(100), 1: rb(32), 2: rb(16), 3: rb(4), 4: "00" * 100}, limit=120, tag="concrete"), ("10",)))
        if p == "C02":
            jobs.append((Job(v, "vp_keypair", {1: rb(seed), 2: rb(32), 3: "00" * pk, 4: "00" * sk}, mem=1, limit=200, tag="concrete"), ("10", "11")))
    run_jobs([j for j, _ in jobs])
    for j, labels in jobs:
        if j.killed == "stopped":
            continue
        if j.out is None or j.out["result"].startswith("error"):
            raise NoAnswer("concrete run of %s: %s" % (j.name(), j.killed or j.out["result"]))
        if j.out["result"] != "complete":
            continue
        if j.entry == "vp_drbg":
            line = "drbg %s %s %d 100" % (j.presets[1], j.presets[2], num(j.presets[3]))
        else:
            line = line_of(j.entry, {str(k): x for k, x in j.presets.items()})
        a = ask(j.v, "release", line)
        m = re.search(r"real=(\S+)", a)
        got = "".join(j.out["outputs"].get(l, "?") for l in labels)
        if "panic" in a or "error" in a:
            continue
        if not m or not m.group(1).startswith(got):
            raise NoAnswer("the encoding of %s does not behave like the real code" % j.name())
        done.append(j.name())
    return done


def concretise(check, bad):
    """bad: [(job, problems)]"""
    p = check.prop
    c = check.cand
    import random
    rnd = random.Random(SEED)
    panics = lambda a: "panic:" in a or a == "HANG" or "crash" in a
    dec_bad = {"C03": lambda a: a.startswith("DIFF accept"), "C04": lambda a: a.startswith("DIFF reject"),
               "C10": lambda a: a.startswith("DIFF reject")}
    # 1. inputs from the models of this run
    for j, _ in bad:
        if not j.out or c.found:
            continue
        bufs = [w["buffers"] for w in j.out.get("witness", [])]
        bufs += [e["buffers"] for e in j.out["events"] if e["kind"] == "panic" and e["buffers"]]
        for b in bufs[:6]:
            b = {k: x for k, x in b.items() if k not in ("60", "61")}
            if j.entry == "vp_drbg":
                n = int.from_bytes(bytes.fromhex(j.presets[60]), "little")
                c.attempt(j.v, "drbg %s %s %d %d" % (b["1"], b["2"], num(b["3"]), n), "model", panics if p == "C05" else None)
            elif j.entry == "vp_init":
                c.attempt(j.v, "init %s %s %d %s" % (b["1"], b["2"], num(b["3"]), b["4"]), "model", panics if p == "C05" else None)
            elif j.entry == "vp_state":
                c.attempt(j.v, "state %s %s %d %s %s %d" % (b["1"], b["2"], num(b["3"]), b["5"], b["6"], num(b["7"])), "model")
            else:
                l = line_of(j.entry, b)
                if not l:
                    continue
                f = l.split()
                if p == "C05":
                    c.attempt(j.v, l, "model", panics)
                elif p in dec_bad:
                    c.attempt(j.v, l, "model", dec_bad[p])
                elif p in ("C01", "C02"):
                    c.attempt(j.v, l, "model")
                elif p == "C11":
                    c.attempt(j.v, "canon %s %s %s" % tuple(f[:3]), "model")
                elif p == "C08" and "fault" not in j.entry:
                    c.attempt(j.v, "requests %s %s %s" % tuple(f[:3]), "model")
                elif p == "C09":
                    c.attempt(j.v, "pure %s %s %s 200" % tuple(f[:3]), "model", lambda a: a.startswith("DIFF"))
    if c.found:
        return
    vs = sorted(set(j.v for j, _ in bad), key=VARIANTS.index)
    work = []
    secs = 40 if THOROUGH else 20
    rb = lambda n: bytes(rnd.randrange(256) for _ in range(n)).hex()
    for v in vs:
        seed, pk, sk, ct, tb = SIZE[v]
        mine = [j for j, _ in bad if j.v == v]
        ents = set(j.entry for j in mine)
        if p in ("C01", "C02", "C03", "C04"):
            kind = {"C01": "enc", "C02": "keypair", "C03": "accept", "C04": "reject"}[p]
            work.append(lambda v=v, kind=kind: c.hunt(v, kind, secs, dec_bad.get(p)))
        if p == "C10":
            work.append(lambda v=v: c.hunt(v, "padding", secs, dec_bad[p]))
        if p == "C05":
            for e, kind in (("vp_keypair_real", "panickeypair"), ("vp_enc_real", "panicenc"), ("vp_dec_real", "panicdec"),
                            ("vp_drbg", "panicdrbg")):
                if e in ents:
                    work.append(lambda v=v, kind=kind: c.hunt(v, kind, secs, panics, ("debug", "release")))
        if p == "C07":
            work.append(lambda v=v: c.hunt(v, "drbg", secs / 2))
            work.append(lambda v=v: c.hunt(v, "init", secs / 2))
            work.append(lambda v=v: c.hunt(v, "state", secs / 4))
        if p == "C08":
            for e in ents:
                name = "keypair" if "keypair" in e else "enc"
                if "fault" in e:
                    for k in (0, 1) if name == "keypair" else (0,):
                        for code in (0, 7, 0xdeadbeef):
                            work.append(lambda v=v, name=name, k=k, code=code: c.attempt(v, "fault %s %d %d" % (name, k, code), "failing generator"))
                else:
                    work.append(lambda v=v, name=name: c.hunt(v, "requests" + name, secs))
        if p == "C09":
            for e in ents:
                name = "keypair" if "keypair" in e else "enc" if "enc" in e else "dec"
                a, b = {"keypair": (seed, 32), "enc": (pk, seed), "dec": (ct, sk)}[name]
                rounds = {"keypair": 400, "enc": 4000, "dec": 4000}[name]
                for name, a, b in [(name, a, b)] + ([("honest", seed, seed)] if name == "dec" else []):
                    work.append(lambda v=v, name=name, a=a, b=b, rounds=rounds: c.attempt(
                        v, "pure %s %s %s %d" % (name, rb(a), rb(b), rounds), "repetition", lambda a: a.startswith("DIFF")))
        if p == "C11":
            for e in ents:
                work.append(lambda v=v, e=e: c.hunt(v, "canonkeypair" if "keypair" in e else "canonenc", secs))
        if p == "C06":
            for j in mine:
                work.append(lambda j=j: leak(c, j))
    for v in vs:
        for w in windows(p, v, rnd):
            def go(w=w):
                if c.found:
                    return
                POOL.run(w)
                o = w.out
                if o and o["search"] == "sat":
                    for x in o["witness"]:
                        l = line_of(w.entry, {k: y for k, y in x["buffers"].items() if k not in ("60", "61")})
                        c.attempt(w.v, l, "model of " + w.tag, dec_bad.get(p))
                WINDOWS.append(w)
            work.append(go)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda f: None if c.found else f(), work))


WINDOWS = []


def leak(c, j):
    """memory checker run of the real code with the secret inputs marked: does
    a jump, address or division of the crate depend on them?"""
    import random
    rnd = random.Random(SEED)
    v = j.v
    seed, pk, sk, ct, tb = SIZE[v]
    name = "keypair" if "keypair" in j.entry else "enc" if "enc" in j.entry else "dec"
    a, b = {"keypair": (seed, 32), "enc": (pk, seed), "dec": (ct, sk)}[name]
    kinds = [e for e in (j.out or {}).get("events", []) if e["kind"] in ("branch", "address", "division")]
    rb = lambda n: bytes(rnd.randrange(256) for _ in range(n)).hex()
    if any(e["kind"] == "division" for e in kinds) and not shutil.which("valgrind"):
        return
    for profile in ("release", "debug"):
        for k in range(2):
            line = "run %s %s %s" % (name, rb(a), rb(b))
            r = memcheck(v, profile, line)
            if r:
                c.report(v, profile, line, r, "memory checker")
                return
            c.tried.append("%s %s %s: no dependence seen" % (v, profile, name))


def memcheck(v, profile, line):
    try:
        r = subprocess.run(["valgrind", "-q", "--error-limit=no", "--num-callers=30", "--max-stackframe=80000000",
                            "--main-stacksize=16000000", driver(v, profile)],
                           input=line + "\n", capture_output=True, text=True, timeout=240)
    except (subprocess.TimeoutExpired, FileNotFoundError):
        return None
    blocks = re.split(r"==\d+== \n", r.stderr)
    for b in blocks:
        m = re.search(r"(Conditional jump or move depends on uninitialised|Use of uninitialised value)", b)
        if m and "ntrust_native" in b and not re.search(r"(at|by) 0x\w+: .*(memcmp|memcpy|panic)", b.split("\n")[1] if "\n" in b else ""):
            return "DIFF " + " | ".join(re.sub(r"==\d+==\s*", "", l) for l in b.strip().splitlines()[:5])
    return None


# ------------------------------------------------------------------- one check

def write_replay(found):
    os.makedirs(EVID, exist_ok=True)
    f = "%s/%s.replay.json" % (EVID, found["property"])
    json.dump(found, open(f, "w"), indent=1)
    return f


def replay(f):
    d = json.load(open(f))
    if d["request"].startswith("run "):
        a = memcheck(d["variant"], d["profile"], d["request"]) or "SAME"
    else:
        a = ask(d["variant"], d["profile"], d["request"])
    print(a)
    return 1 if a.startswith("DIFF") or a == "HANG" else 0


BOUNDS = json.load(open(HERE + "/bounds.json"))


def check(prop):
    global ENGINE
    ck = Check(prop)
    threading.Thread(target=POOL.watch, daemon=True).start()
    os.makedirs(BUILD, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        e = ex.submit(engine)
        irs = {v: ex.submit(encode, v) for v in VARIANTS}
        ENGINE = e.result()
        for v in VARIANTS:
            IR[v] = irs[v].result()
    log("encoded", {v: len(FUNCS[v]) for v in VARIANTS})
    jobs = ck.jobs()
    guards = ck.guards()
    ex = ThreadPoolExecutor(8)
    side = []
    if prop == "C02":
        # key generation takes minutes: concrete candidates are tried meanwhile
        for v in VARIANTS:
            side.append(ex.submit(ck.cand.hunt, v, "keypair", 15, None, ("release",)))
    val = ex.submit(validate, ck)
    run_jobs(jobs + guards)
    for s in side:
        s.result()
    if not ck.cand.found:
        validated = val.result()
        for g in guards:
            if g.out is not None and not (g.out["failed"] or g.out["events"] or g.out["result"] != "complete"):
                raise NoAnswer("the guard %s did not fail: the encoding would show anything" % g.name())
        bad = [(j, ck.problems(j)) for j in jobs]
        bad = [(j, r) for j, r in bad if r]
        if not bad:
            # nothing counts as shown next to a guard that gave no verdict
            bad = [(g, ["the guard gave no verdict"]) for g in guards
                   if g.out is None and g.killed != "stopped"]
        for j, r in bad:
            log("not shown:", j.name(), r[:4])
        if bad:
            errors = [(j, r) for j, r in bad if j.out and j.out["result"].startswith("error")]
            concretise(ck, bad)
    else:
        bad, validated = [], []
    return finish(ck, jobs, guards, bad, validated)


def finish(ck, jobs, guards, bad, validated):
    prop = ck.prop
    outs = [j.out for j in jobs if j.out]
    found = ck.cand.found
    tot = lambda k: sum(o[k] for o in outs)
    open_jobs = set(id(j) for j, _ in bad)
    obligations = sum(sum(j.expect.values()) for j in jobs)
    discharged = sum(min(j.out["proved"].get(l, 0), n) for j in jobs if j.out for l, n in j.expect.items())
    obligations += tot("panic_checks") + tot("matched")
    discharged += tot("panic_excluded") + tot("matched")
    level = "proof"
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd="build/engine/release/vsym (symbolic execution of the IR) with z3-new; rerun by python3 run.py " + prop,
        trusted_base=["rustc and LLVM front half", "the symbolic executor in engine/", "z3",
                      "the reference in spec/ (independently written from the NTRU specification)"],
        runs=len(jobs), runs_proved=len(jobs) - len(open_jobs),
        solver_queries=tot("queries"), unsat=tot("unsat"), sat=tot("sat"), unknown=tot("unknown"),
        answered_from_same_shape=tot("cached"), normal_form=tot("normal"), cross_checked=tot("crossed"),
        solver_seconds=round(sum(o["solver_s"] for o in outs), 2),
        instructions=tot("steps"), terms=tot("terms"), cut_points=tot("cuts"),
        comparisons=tot("compared"), comparisons_matched=tot("matched"),
        panic_sites_checked=tot("panic_checks"), panic_sites_excluded=tot("panic_excluded"),
        functions_encoded={v: FUNCS[v] for v in VARIANTS},
        bounds=BOUNDS[prop]["bounds"], outside=BOUNDS[prop]["outside"],
        guards_that_failed_as_they_must=[g.name() for g in guards if g.out and g.out["failed"]],
        validated_against_real_code=validated,
        entries=[dict(run=j.name(), result=(j.out or {}).get("result", j.killed), proved=(j.out or {}).get("proved"),
                      queries=(j.out or {}).get("queries"), wall_s=(j.out or {}).get("wall_s")) for j in jobs][:60],
    )
    if any(o["cross_mismatch"] for o in outs):
        raise NoAnswer("the two solvers disagree")
    if bad and not found:
        level = "other"
        cov["explanation"] = (
            "Not every part could be shown for all inputs on this tree; what is open is listed under not_shown. "
            "No input among the models, the solver windows and the structured candidates below fails on the real code.")
        cov["not_shown"] = [dict(run=j.name(), why=r[:5]) for j, r in bad]
        cov["windows"] = [dict(run=w.name(), verdict=(w.out or {}).get("search", w.killed)) for w in WINDOWS]
        cov["candidates"] = ck.cand.tried[:60]
    ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level, coverage=cov,
              assumptions=ck.assume + BOUNDS[prop].get("assume", []), wall_s=round(time.time() - START, 1),
              violations=1 if found else 0)
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open("%s/%s.json" % (EVID, prop), "w"), indent=1)
    if found:
        f = write_replay(found)
        print("%s %s build, %s:" % (NAMES[found["variant"]], found["profile"], found["source"]))
        print("  " + found["request"][:400])
        print("  " + found["answer"][:400])
        print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    if bad:
        print("%s: no violation; %d of %d runs not shown for all inputs, see evidence" % (prop, len(bad), len(jobs)))
    else:
        print("%s: held, %d obligations discharged in %d runs" % (prop, discharged, len(jobs)))
    return 0


def setup():
    os.makedirs(BUILD, exist_ok=True)
    engine()
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(encode, VARIANTS))
        list(ex.map(lambda v: [driver(v, "release"), driver(v, "debug")], VARIANTS))


def main():
    if sys.argv[1:] == ["--setup"]:
        setup()
        return 0
    if sys.argv[1:2] == ["--replay"]:
        return replay(sys.argv[2])
    try:
        return check(sys.argv[1])
    except NoAnswer as e:
        print("no answer:", e)
        return 2
    finally:
        POOL.halt()


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
