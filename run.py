#!/usr/bin/env python3
"""Orchestrator of the property checks for mickjc750/str.

  run.py setup                              build everything the checks use
  run.py check C07 --tier quick|thorough    decide one property on /repo's working tree
  run.py replay FILE                        run a replay file again (prints the case)
  run.py list
"""
import argparse, array, concurrent.futures as cf, fcntl, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
JOBS = 8
sys.path.insert(0, H)
import p_inc  # C36: generated programs

# ------------------------------------------------------------------ what is built
GROUPS = {
    "oom":  dict(cc=["p_oom"], lib=["strbuf", "strview", "crypt"], shim=["shim_buf", "shim_crypt"]),
    "buf":  dict(cc=["p_buf"], lib=["strbuf", "strview", "crypt"], shim=["shim_buf", "shim_crypt"]),
    "huge": dict(cc=["p_huge"], lib=["strbuf", "strview"], shim=["shim_buf"], c=["-Dmemcpy=vf_memcpy", "-Dmemmove=vf_memmove", "-Dmemset=vf_memset"]),
    "hacc": dict(cc=["p_hacc"], lib=["strbuf", "strview", "crypt", "acc"], shim=["shim_buf", "shim_crypt", "shim_acc"], c=["-Dmemcpy=vf_memcpy", "-Dmemmove=vf_memmove", "-Dmemset=vf_memset"]),
    "view": dict(cc=["p_view"], lib=["strbuf", "strview"], shim=["shim_buf", "shim_view"]),
    "hview": dict(cc=["p_hview"], lib=["strbuf", "strview", "strnum"], shim=["shim_buf", "shim_view", "shim_num"]),
    "num":  dict(cc=["p_num"], lib=["strbuf", "strview", "strnum"], shim=["shim_buf", "shim_num"]),
    "acc":  dict(cc=["p_acc"], lib=["strbuf", "strview", "crypt", "acc"], shim=["shim_buf", "shim_crypt", "shim_acc"]),
    "mac":  dict(cc=["p_mac"], lib=["strbuf", "strview", "strnum"], shim=["shim_buf", "shim_view", "shim_num", "shim_mac"]),
    "conc": dict(base=["engine"], cc=["p_conc"], lib=["strbuf", "strview", "strnum", "crypt", "acc"], shim=["shim_buf", "shim_view", "shim_num", "shim_crypt", "shim_acc"]),
    "plat": dict(cc=["p_plat", "p_buf", "p_huge", "p_view", "p_num", "p_acc"], lib=["strbuf", "strview", "strnum", "crypt", "acc"], shim=["shim_buf", "shim_view", "shim_num", "shim_crypt", "shim_acc"]),
    "ro":   dict(cc=["p_ro", "p_buf", "p_view", "p_num", "p_acc"], lib=["strbuf", "strview", "strnum", "crypt", "acc"], shim=["shim_buf", "shim_view", "shim_num", "shim_crypt", "shim_acc"]),
    "stk":  dict(cc=["p_stk"], lib=["strbuf", "strview", "strnum", "crypt", "acc"], shim=["shim_buf", "shim_view", "shim_num", "shim_crypt", "shim_acc"]),
    "loc":  dict(cc=["p_loc"], lib=["strbuf", "strview", "strnum"], shim=["shim_buf", "shim_view", "shim_num"]),
    "cfg":  dict(cc=["p_cfg", "p_num", "p_view"], lib=["strbuf", "strview", "strnum"], shim=["shim_buf", "shim_view", "shim_num"]),
}
AES_DIR = "accessories/strbuf_crypt/aes"
AES = sorted(f[:-2] for f in (os.listdir(os.path.join(REPO, AES_DIR)) if os.path.isdir(os.path.join(REPO, AES_DIR)) else []) if f.endswith(".c"))
ALLOC = ["-Drealloc=vf_realloc", "-Dfree=vf_free", "-Dmalloc=vf_malloc", "-Dcalloc=vf_calloc"]
LIB = {
    "strbuf": [("strbuf.c", ALLOC)],
    "strview": [("strview.c", [])],
    "strnum": [("strnum.c", [])],
    "acc": [("accessories/strbuf_io.c", ["-Dread=vf_read", "-Dwrite=vf_write"]), ("accessories/strview_io.c", ["-Dread=vf_read", "-Dwrite=vf_write"]),
            ("examples/parse-uri/parse-uri.c", ["-Dmain=vf_uri_main"])],
    "crypt": [("accessories/strbuf_crypt/strbuf_crypt.c", ALLOC)]
             + [("accessories/strbuf_crypt/aes/%s.c" % a, []) for a in AES],
}
PF, PN, DA, AS, NF, UD = ("-DSTRBUF_PROVIDE_PRINTF", "-DSTRBUF_PROVIDE_PRNF", "-DSTRBUF_DEFAULT_ALLOCATOR_STDLIB",
                          "-DSTRBUF_ASSERT_DEFAULT_ALLOCATOR_STDLIB", "-DSTRNUM_NOFLOAT", "-DVF_USER_DEFAULT")
def step(n): return "-DSTRBUF_CAPACITY_GROW_STEP=%d" % n
CONFIGS = {
    "base": [PF, PN, DA, AS],
    "step1": [PF, PN, DA, AS, step(1)], "step37": [PF, PN, DA, AS, step(37)], "step4096": [PF, PN, DA, AS, step(4096)], "step1m": [PF, PN, DA, AS, step(1000000)],
    "plain": [DA], "noprintf": [PN, DA], "noprnf": [PF, DA, AS], "nofloat": [PF, PN, DA, NF], "nodefault": [PF, PN], "minimal": [NF, step(1)],
    "user": [PF, UD, step(64)], "user_min": [UD, NF],
}
# any other combination: "x" + letters (p printf, n prnf, f no floating point, d stdlib default allocator, a with assert, u user default) + growth step
for _o in range(96):
    _d = ("", "d", "da", "u")[_o // 8 % 4]; _st = (None, 1, 13, 300)[_o // 32 + 1 if _o % 3 else 0]
    CONFIGS["x" + ("p" if _o & 1 else "") + ("n" if _o & 2 else "") + ("f" if _o & 4 else "") + _d + (str(_st) if _st else "")] = (
        [PF] * (_o & 1) + [PN] * (_o >> 1 & 1) + [NF] * (_o >> 2 & 1) + {"": [], "d": [DA], "da": [DA, AS], "u": [UD]}[_d] + ([step(_st)] if _st else []))
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,nonnull-attribute,vla-bound", "-fno-sanitize-recover=all"]
SAN_GCC = ["-fsanitize=address,undefined", "-fno-sanitize=pointer-overflow,nonnull-attribute,vla-bound", "-fno-sanitize-recover=all"]
HSAN = ["-fsanitize=address", "-fwrapv"]  # the harness itself: memory errors only
WARN = ["-w"]
VARIANTS = {
    "asan": dict(cc="clang", cxx="clang++", c=["-O1", "-g"] + SAN + ["-ftrivial-auto-var-init=pattern"], cxxf=["-O1", "-g"] + HSAN + ["-ftrivial-auto-var-init=pattern"], link=SAN),
    "gasan": dict(cc="gcc", cxx="g++", c=["-O1", "-g"] + SAN_GCC, cxxf=["-O1", "-g"] + HSAN, link=SAN_GCC),
    "opt": dict(cc="gcc", cxx="g++", c=["-O2", "-g", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"], cxxf=["-O2", "-g", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"], link=[]),
    "tsan": dict(cc="clang", cxx="clang++", c=["-O1", "-g", "-fsanitize=thread"], cxxf=["-O1", "-g", "-fsanitize=thread"], link=["-fsanitize=thread"]),
    "fuzz": dict(cc="clang", cxx="clang++", c=["-O1", "-g", "-fsanitize=fuzzer-no-link"] + SAN + ["-ftrivial-auto-var-init=pattern"],
                 cxxf=["-O1", "-g", "-DVF_FUZZ"] + HSAN + ["-ftrivial-auto-var-init=pattern"], link=["-fsanitize=fuzzer"] + SAN),
}
for _n in ("asan", "opt"): VARIANTS["ro" + _n] = dict(VARIANTS[_n], cxxf=VARIANTS[_n]["cxxf"] + ["-DVF_RO"])
UC = ["-funsigned-char"]
VARIANTS["uasan"] = dict(VARIANTS["asan"], c=VARIANTS["asan"]["c"] + UC, cxxf=VARIANTS["asan"]["cxxf"] + UC)
for _n, _cc, _fl in (("uopt", "gcc", ["-O2"] + UC), ("o0", "gcc", ["-O0"]), ("o3", "gcc", ["-O3"]), ("os", "gcc", ["-Os"]), ("cl3", "clang", ["-O3"]), ("ucl", "clang", ["-O2"] + UC)):
    VARIANTS[_n] = dict(cc=_cc, cxx={"gcc": "g++", "clang": "clang++"}[_cc], c=_fl + ["-g", "-U_FORTIFY_SOURCE"], cxxf=(UC if UC[0] in _fl else []) + ["-O1", "-g", "-fwrapv", "-U_FORTIFY_SOURCE"], link=[])
INC = ["-I" + H, "-I" + REPO, "-I" + REPO + "/accessories", "-I" + REPO + "/test"]

class BuildError(Exception):
    def __init__(self, what, cmd, out, api):
        super().__init__(what); self.what, self.cmd, self.out, self.api = what, cmd, out, api

def repo_files():
    r = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in (".git", "_build") and not x.startswith(".")]
        r += [os.path.join(d, f) for f in fs if f.endswith((".c", ".h"))]
    return sorted(r)
def tree_hash():
    h = hashlib.sha256()
    for f in repo_files() + sorted(os.path.join(H, x) for x in os.listdir(H) if x.endswith((".c", ".cc", ".h", ".py"))) + [os.path.abspath(__file__)]:
        h.update(f.encode() + b"\0"); h.update(open(f, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:16]

class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.dir = os.path.join(BUILD, tree_hash())
        self.lock = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        os.makedirs(self.dir, exist_ok=True); os.utime(self.dir)
        olds = sorted((d for d in (os.path.join(BUILD, x) for x in os.listdir(BUILD)) if os.path.isdir(d) and d != self.dir), key=os.path.getmtime)
        for d in olds[:-3]:
            if time.time() - os.path.getmtime(d) > 3600: shutil.rmtree(d, ignore_errors=True)
        for g in ("cat", "mac"):
            gen = os.path.join(self.dir, g + "_gen.h")
            if not os.path.exists(gen): subprocess.run([sys.executable, os.path.join(H, "gen_%s.py" % g), gen], check=True)
        self.jobs = {}
    def close(self):
        fcntl.flock(self.lock, fcntl.LOCK_UN); self.lock.close()
    def obj(self, src, cmd, tag):
        o = os.path.join(self.dir, "%s-%s.o" % (tag, hashlib.sha256("\0".join(cmd + [src]).encode()).hexdigest()[:10]))
        self.jobs[o] = (cmd + ["-c", src, "-o"], src); return o
    def target(self, group, variant, config):
        g, v = GROUPS[group], VARIANTS[variant]; objs = []
        base = ["-std=c++17", "-Wno-unknown-warning-option"] + WARN + ["-I" + H]
        for f in g.get("base", ["engine", "bufworld"]) + g["cc"]: objs.append(self.obj(os.path.join(H, f + ".cc"), [v["cxx"]] + base + v["cxxf"], variant + "-" + f))
        cb = [v["cc"], "-std=gnu99", "-DPLATFORM_PC"] + WARN + ["-I" + self.dir] + INC + v["c"] + CONFIGS[config] + g.get("c", [])
        libs = [x for l in g["lib"] for x in LIB[l]] + ([("test/prnf.c", [])] if PN in CONFIGS[config] else [])
        for f, fl in libs: objs.append(self.obj(os.path.join(REPO, f), cb + fl, variant + "-" + config + "-" + os.path.basename(f)[:-2]))
        for f in g["shim"]: objs.append(self.obj(os.path.join(H, f + ".c"), cb, variant + "-" + config + "-" + f))
        exe = os.path.join(self.dir, "%s-%s-%s" % (group, variant, config))
        return exe, objs, v
    def one(self, o):
        if os.path.exists(o): return None
        cmd, src = self.jobs[o]
        p = subprocess.run(cmd + [o + ".tmp"], capture_output=True, text=True)
        if p.returncode == 0: os.rename(o + ".tmp", o); return None
        return (src, cmd, p.stderr)
    def build(self, targets):
        """targets: [(group, variant, config)] -> {target: exe}; raises BuildError"""
        ts = [(t, self.target(*t)) for t in targets]; objs = [o for _, (e, os_, _) in ts if not os.path.exists(e) for o in os_]
        objs = list(dict.fromkeys(objs))
        objs.sort(key=lambda o: 0 if self.jobs[o][1].endswith(".cc") else 1)
        with cf.ThreadPoolExecutor(JOBS) as ex: bad = [b for b in ex.map(self.one, objs) if b]
        if bad:
            lib = [b for b in bad if b[0].startswith(REPO + "/")]; harness = [b for b in bad if b[0].endswith(".cc")]
            src, cmd, err = (lib or bad)[0]
            raise BuildError("cannot compile %s" % src, cmd, err, api=not lib and not harness)
        def link(t):
            exe, os_, v = t[1]
            if os.path.exists(exe): return None
            cmd = [v["cxx"]] + os_ + v["link"] + ["-o", exe + ".tmp"]
            p = subprocess.run(cmd, capture_output=True, text=True)
            if p.returncode: return (exe, cmd, p.stderr)
            os.rename(exe + ".tmp", exe)
        with cf.ThreadPoolExecutor(JOBS) as ex: bad = [b for b in ex.map(link, ts) if b]
        if bad: raise BuildError("cannot link %s" % bad[0][0], bad[0][1], bad[0][2], api=False)
        return {t: x[0] for t, x in ts}

# ------------------------------------------------------------------ what is run
def G(pid):
    n = int(pid[1:])
    return "buf" if n <= 9 else "huge" if n == 10 else "view" if n <= 20 else "num" if n <= 24 else "cfg" if n == 29 else "conc" if n == 31 else "plat" if n == 32 else "hview" if n == 33 else "hacc" if n == 34 else "mac" if n == 35 else "oom" if n == 37 else "ro" if n == 38 else "stk" if n == 39 else "loc" if n == 40 else "acc"

# C40: locales, made from the C library's definitions (without them the check still has C.UTF-8)
LOCALES = ("de_DE.UTF-8", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "tr_TR.ISO-8859-9", "zh_TW.BIG5", "hi_IN.UTF-8")
def make_locales():
    """the directory that holds them, and those that could not be made"""
    d = os.path.join(BUILD, "locales"); os.makedirs(d, exist_ok=True); missing = []
    with open(os.path.join(BUILD, "locales.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for n in LOCALES:
            if os.path.isdir(os.path.join(d, n)): continue
            t = os.path.join(d, n + ".tmp"); shutil.rmtree(t, ignore_errors=True); lang, enc = n.split(".", 1)
            try: subprocess.run(["localedef", "--no-archive", "-c", "-i", lang, "-f", enc, t], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            except (OSError, subprocess.TimeoutExpired): pass
            if os.path.exists(os.path.join(t, "LC_CTYPE")): os.rename(t, os.path.join(d, n))
            else: missing.append(n); shutil.rmtree(t, ignore_errors=True)
    return d, missing
from plan import PLAN, PROPS
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0:symbolize=1:malloc_context_size=6",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=99:halt_on_error=1", TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_signal_unsafe=0:die_after_fork=0", MALLOC_ARENA_MAX="2", LC_ALL="C", TZ="UTC")
ENV.pop("VF_PROP", None); ENV.pop("VF_SMALL", None)

def failing(rc): return rc not in (0, 3, -9, -15, -2)

def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, env=dict(ENV, **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return -15, (e.stdout or b"").decode("utf-8", "replace") + "\n(timed out)"

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time(); self.ev = dict(evaluations=0, hashes=set(), hash_overflow=0, labels={}, samples=[], rule="", parts=[]); self.notes = []
    def log(self, s): print("[%s %6.1fs] %s" % (self.pid, time.time() - self.t0, s), flush=True)
    def merge(self, prefix, part):
        try: txt = open(prefix + ".txt").read()
        except OSError: return
        n = nt = 0
        for l in txt.splitlines():
            a = l.split(" ", 2)
            if a[0] == "evals": n = int(a[1])
            elif a[0] == "nontrivial": nt = int(a[1])
            elif a[0] == "label": self.ev["labels"][a[2]] = self.ev["labels"].get(a[2], 0) + int(a[1])
            elif a[0] == "rule": self.ev["rule"] = l[5:]
        self.ev["evaluations"] += n
        h = array.array("Q")
        try:
            with open(prefix + ".hashes", "rb") as f: h.frombytes(f.read())
        except OSError: pass
        # hashes of different configurations are kept apart: the same input in another build is another case
        self.ev["hashes"].update((x ^ part["salt"]) for x in h)
        part.update(evaluations=n, nontrivial=nt); self.ev["parts"].append({k: v for k, v in part.items() if k != "salt"})
        try:
            sm = [x for x in open(prefix + ".samples", errors="replace").read().split("\x1e") if x.strip()]
            if part["worker"] < 3: self.ev["samples"] += sm[:2]
        except OSError: pass
    def go(self):
        plan = PLAN(self.pid, self.tier); grp = G(self.pid)
        if grp == "loc":
            ENV["LOCPATH"], missing = make_locales()
            if missing: self.notes.append("locales that could not be made here: " + ", ".join(missing))
        targets = []
        for kind, variant, config, workers, n in plan:
            for v in ([variant] if kind == "rand" else ["fuzz", "asan"]):
                if (grp, v, config) not in targets: targets.append((grp, v, config))
        b = Builder()
        try:
            try: exes = b.build(targets)
            except BuildError as e:
                # a library source clang rejects but gcc accepts is still testable
                if any(t[1] in ("asan", "fuzz") for t in targets):
                    try:
                        g = [(t[0], "gasan" if t[1] == "asan" else t[1], t[2]) for t in targets if t[1] != "fuzz"]
                        exes = b.build(list(dict.fromkeys(g))); exes = {(k[0], "asan" if k[1] == "gasan" else k[1], k[2]): v for k, v in exes.items()}
                        plan = [p for p in plan if p[0] != "fuzz"]; self.notes.append("clang build failed, used gcc sanitizers: " + e.what)
                    except BuildError as e2: return self.build_failed(e2)
                else: return self.build_failed(e)
        finally: b.close()
        self.log("built %d binaries" % len(targets))
        tmp = tempfile.mkdtemp(prefix="vf-%s-" % self.pid)
        try: return self.drive(plan, grp, exes, tmp)
        finally: shutil.rmtree(tmp, ignore_errors=True)
    def build_failed(self, e):
        print(e.what); print(" ".join(e.cmd)); print(e.out[-4000:])
        if e.api or self.pid == "C29":
            # the library compiles, but documented calls to it (or a documented configuration) no longer do
            rp = self.replay_path("build")
            json.dump(dict(property=self.pid, kind="build", what=e.what, cmd=e.cmd, output=e.out[-6000:]), open(rp, "w"), indent=1)
            self.evidence(1, extra="documented use of the API does not compile: " + e.what)
            print("VIOLATION property=%s replay=%s" % (self.pid, rp)); return 1
        return 2
    def replay_path(self, kind):
        d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
        return os.path.join(d, "%s-%s-%d.json" % (self.pid, kind, int(time.time())))
    def drive(self, plan, grp, exes, tmp):
        tasks = []; w = 0
        wall = 260 if self.tier == "quick" else 3000
        for pi, (kind, variant, config, workers, n) in enumerate(plan):
            salt = int.from_bytes(hashlib.sha256(("%s/%s" % (config, "r" if kind == "rand" else "f")).encode()).digest()[:8], "little")
            for k in range(workers):
                w += 1
                tasks.append(dict(kind=kind, variant="fuzz" if kind == "fuzz" else variant, config=config, worker=w, n=n, prefix=os.path.join(tmp, "w%d" % w), salt=salt))
        found = []
        def work(t):
            if found: return None
            exe = exes[(grp, t["variant"], t["config"])]; pre = t["prefix"]
            if t["kind"] == "rand":
                rc, out = run([exe, "run", self.pid, "--seed", str(self.seed), "--worker", str(t["worker"]), "--cases", str(t["n"]), "--secs", str(wall), "--out", pre], wall + 60)
                if failing(rc):
                    found.append((t, rc, out)); return
            else:
                aexe = exes[(grp, "asan", t["config"])]
                corp = pre + ".corpus"; os.makedirs(corp)
                crc, _ = run([aexe, "corpus", self.pid, corp, "--seed", str(self.seed), "--worker", str(1000 + t["worker"]), "--cases", "150"], 120, VF_SMALL="1")
                art = pre + ".art-"
                rc, out = run([exe, corp, "-runs=%d" % t["n"], "-seed=%d" % (self.seed * 100 + t["worker"]), "-max_len=3000", "-len_control=0", "-artifact_prefix=" + art, "-rss_limit_mb=0",
                               "-timeout=60", "-detect_leaks=0", "-print_final_stats=1", "-verbosity=0", "-max_total_time=%d" % wall, "-use_value_profile=%d" % (t["worker"] & 1), "-handle_abrt=1"], wall + 90, VF_PROP=self.pid, VF_STATS=pre, VF_SMALL="1")
                if rc != 0:
                    arts = sorted(x for x in os.listdir(tmp) if x.startswith(os.path.basename(art)) and not x.endswith(".txt"))
                    if arts: t["artifact"] = os.path.join(tmp, arts[0]); found.append((t, rc, out)); return
                    if rc not in (-15, -9): self.notes.append("fuzz worker ended with %d: %s" % (rc, out[-300:]))
                    if rc in (-15, -9): self.notes.append("fuzz worker stopped early (%d)" % rc)
            if rc in (3, -9, -15) and t["kind"] == "rand": self.notes.append("worker %d (%s/%s) stopped early: rc %d %s" % (t["worker"], t["variant"], t["config"], rc, out[-300:]))
            self.merge(pre, dict(kind=t["kind"], build=t["variant"], config=t["config"], worker=t["worker"], salt=t["salt"]))
        with cf.ThreadPoolExecutor(JOBS) as ex: list(ex.map(work, tasks))
        for t, rc, out in found:
            v = self.confirm(t, rc, out, grp, exes, tmp)
            if v: self.evidence(1); print("VIOLATION property=%s replay=%s" % (self.pid, v), flush=True); return 1
        self.evidence(0)
        if self.ev["evaluations"] == 0:
            print("no case completed: " + "; ".join(self.notes)); return 2
        self.log("held on %d cases, %d distinct non-trivial" % (self.ev["evaluations"], len(self.ev["hashes"])))
        for n in self.notes: self.log("note: " + n)
        return 0
    def confirm(self, t, rc, out, grp, exes, tmp):
        self.log("worker %d (%s, %s) reported a failure (rc %d); confirming" % (t["worker"], t["variant"], t["config"], rc))
        var = "asan" if t["kind"] == "fuzz" else t["variant"]; exe = exes[(grp, var, t["config"])]
        inp = os.path.join(tmp, "fail-%d.bin" % t["worker"]); idx = None
        if t["kind"] == "fuzz": shutil.copy(t["artifact"], inp)
        else:
            with open(t["prefix"] + ".state", "rb") as f: st = f.read()
            idx = int.from_bytes(st[:8], "little"); ln = int.from_bytes(st[8:12], "little")
            open(inp, "wb").write(st[16:16 + ln])
        env = dict(VF_SMALL="1") if t["kind"] == "fuzz" else {}
        def thrice(cmd):
            r = []
            while len(r) < 3:
                t0 = time.time(); r.append(run(cmd, 300, **env))
                if not failing(r[-1][0]) or (r[-1][0] == 78 and time.time() - t0 > 20): break # 78: ran into its CPU limit
            return all(failing(x[0]) for x in r), r[-1]
        ok, last = thrice([exe, "replay", self.pid, inp])
        info = dict(property=self.pid, config=t["config"], variant=var, seed=self.seed, env=env, statement=PROPS.get(self.pid, {}).get("title", ""))
        if ok:
            small = inp + ".small"
            if last[0] != 78 or self.pid not in ("C10", "C32", "C33", "C34"): run([exe, "shrink", self.pid, inp, small, "--secs", "25" if self.tier == "quick" else "90"], 200, **env)
            if os.path.exists(small) and os.path.getsize(small) <= os.path.getsize(inp):
                ok2, last2 = thrice([exe, "replay", self.pid, small])
                if ok2: inp, last = small, last2
            info.update(kind="case", hex=open(inp, "rb").read().hex(), rc=last[0], trace=last[1][-8000:])
            rp = self.replay_path("case")
        elif idx is not None:
            cmd = [exe, "range", self.pid, "--seed", str(self.seed), "--worker", str(t["worker"]), "--from", "0", "--to", str(idx)]
            ok, last = thrice(cmd)
            if not ok:
                self.notes.append("a failure did not reproduce: rc %d, case %d of worker %d\n%s" % (rc, idx, t["worker"], out[-1500:])); return None
            info.update(kind="range", cmd=cmd[1:], rc=last[0], trace=last[1][-8000:]); rp = self.replay_path("range")
        else:
            self.notes.append("a fuzz failure did not reproduce: rc %d\n%s" % (rc, out[-1500:])); return None
        json.dump(info, open(rp, "w"), indent=1)
        print(info["trace"][-5000:], flush=True)
        return rp
    def evidence(self, violations, extra=""):
        e = self.ev; man = {}
        cov = dict(evaluations=e["evaluations"], distinct_nontrivial=len(e["hashes"]),
                   rule="A case is one choice sequence (seeded random generation or coverage-guided mutation) turned into inputs/operations and compared with the oracle. Non-trivial: " + (e["rule"] or "-") + ". Distinct by hash of the drawn values, per build configuration.",
                   samples=[dict(text=x) for x in e["samples"][:8]], labels=e["labels"], workers=e["parts"], notes=self.notes + ([extra] if extra else []))
        rec = dict(property=self.pid, tier=self.tier, seed=self.seed, level="exploration", coverage=cov, wall_s=round(time.time() - self.t0, 2), violations=violations,
                   assumptions=["clang 18 / gcc 13 on x86-64 Linux, little endian", "C locale" if self.pid != "C40" else "the C library's own locale definitions", "the default allocator fails at chosen requests" if self.pid == "C37" else "no failing allocators (documented as unsupported)"])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f: json.dump(rec, f, indent=1)
        os.rename(p + ".tmp", p)

def cmd_replay(path):
    r = json.load(open(path)); pid = r["property"]
    if G(r["property"]) == "loc": ENV["LOCPATH"] = make_locales()[0]
    if r["kind"] == "program": return p_inc.replay(sys.modules[__name__], r, path)
    if r["kind"] == "build":
        print("replay of a build failure:", " ".join(r["cmd"])); c = Check(pid, "quick", 1); rc = c.go(); return 1 if rc == 1 else 0
    b = Builder()
    try: exe = b.build([(G(pid), r["variant"], r["config"])])[(G(pid), r["variant"], r["config"])]
    finally: b.close()
    if r["kind"] == "range": rc, out = run([exe] + r["cmd"], 900)
    else:
        with tempfile.NamedTemporaryFile() as f:
            f.write(bytes.fromhex(r["hex"])); f.flush(); rc, out = run([exe, "replay", pid, f.name], 300, **r.get("env", {}))
    print(out); print("exit", rc)
    if failing(rc): print("VIOLATION property=%s replay=%s" % (pid, path)); return 1
    return 0

def main():
    ap = argparse.ArgumentParser(); sub = ap.add_subparsers(dest="cmd", required=True)
    sub.add_parser("setup"); sub.add_parser("list")
    c = sub.add_parser("check"); c.add_argument("property"); c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); c.add_argument("--seed", type=int)
    r = sub.add_parser("replay"); r.add_argument("file")
    a = ap.parse_args()
    if a.cmd == "list":
        for p in PROPS.values(): print(p["id"], p["title"])
        return 0
    if a.cmd == "setup":
        b = Builder(); ts = []
        for pid in PROPS:
            for kind, variant, config, _, _ in PLAN(pid, "quick"):
                for v in ([variant] if kind == "rand" else ["fuzz", "asan"]):
                    if (G(pid), v, config) not in ts: ts.append((G(pid), v, config))
        try: b.build(ts)
        except BuildError as e: print(e.what, e.out[-3000:])
        finally: b.close()
        p_inc.setup(sys.modules[__name__]); make_locales()
        print("built", len(ts)); return 0
    if a.cmd == "replay": return cmd_replay(a.file)
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    if a.property not in PROPS: print("unknown property"); return 2
    if a.property == "C36": return p_inc.check(sys.modules[__name__], a.tier, seed)
    return Check(a.property, a.tier, seed).go()

if __name__ == "__main__":
    sys.exit(main())
