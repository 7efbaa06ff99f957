#!/usr/bin/env python3
"""Driver: builds the harness of one property against /repo's working tree, runs generated cases on all
cores, shrinks failures, replays them and reports.  See DESIGN.md."""
import argparse, hashlib, json, mmap, os, re, shutil, struct, subprocess, sys, time, threading, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
MAXP, MAXS, MAXMSG, MAXNOTE, MAXLABEL = 1 << 14, 1 << 17, 1 << 14, 1 << 15, 256
HDR = struct.Struct("<IIQIIIIIIQQQQII")
LAB = 64

BASE = ["-std=c++20", "-g", "-Wno-everything", "-pthread", "-fno-omit-frame-pointer"]
VARIANTS = {
    "asan": dict(cflags=["-O1", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
                 rt=["-O1"], link=["-fsanitize=address,undefined"]),
    "tsan": dict(cflags=["-O1", "-fsanitize=thread", "-DVRT_TSAN=1", "-D_GLIBCXX_ASSERTIONS"],
                 rt=["-O1", "-DVRT_TSAN=1"], link=["-fsanitize=thread"]),
    # assertions compiled out: the library must not depend on assert() side effects
    "ndebug": dict(cflags=["-O2", "-ftrivial-auto-var-init=pattern", "-DNDEBUG", "-fsanitize=address"], rt=["-O1"], link=["-fsanitize=address"]),
    "ucontext": dict(cflags=["-O1", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                             "-DASYNCPP_FIBER_USE_UCONTEXT=1"], rt=["-O1"], link=["-fsanitize=address,undefined"]),
    "gcc": dict(cxx="g++", cflags=["-O1", "-ftrivial-auto-var-init=pattern", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-w", "-DASYNCPP_HAS_ASAN=1"], rt=["-O1"],
                link=["-fsanitize=address,undefined"]),
    "plain": dict(cflags=["-O2"], rt=["-O2"], link=[]),
}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=78:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=1:detect_odr_violation=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=79:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:detect_deadlocks=0:report_atomic_races=1:second_deadlock_stack=0:history_size=4:suppressions=" + os.path.join(VERIF, "lib", "tsan.supp"),
    "LSAN_OPTIONS": "",
})

def log(*a):
    print(*a, file=sys.stderr, flush=True)

class Shm:
    def __init__(self, path):
        self.path = path
    def read(self):
        try:
            b = open(self.path, "rb").read()
        except OSError:
            return None
        if len(b) < HDR.size: return None
        h = HDR.unpack_from(b, 0)
        d = dict(zip("magic state case_idx scenario np ns msglen notelen flags cases nontrivial points switches nlabels pad".split(), h))
        if d["magic"] != 0x56525431: return None
        o = HDR.size
        labels = {}
        for i in range(min(d["nlabels"], MAXLABEL)):
            name = b[o + i * LAB: o + i * LAB + 56].split(b"\0")[0].decode(errors="replace")
            labels[name] = struct.unpack_from("<Q", b, o + i * LAB + 56)[0]
        o += MAXLABEL * LAB
        d["labels"] = labels
        d["scen"] = b[o:o + 64].split(b"\0")[0].decode(errors="replace"); o += 64
        d["msg"] = b[o:o + MAXMSG].split(b"\0")[0].decode(errors="replace"); o += MAXMSG
        d["notes"] = b[o:o + min(d["notelen"], MAXNOTE)].decode(errors="replace"); o += MAXNOTE
        d["pc"] = list(struct.unpack_from("<%dH" % min(d["np"], MAXP), b, o)); o += 2 * MAXP
        d["sc"] = list(struct.unpack_from("<%dH" % min(d["ns"], MAXS), b, o))
        return d

def sanitizer_summary(err):
    for pat in (r"SUMMARY: \w+: (.*)", r"runtime error: (.*)", r"Assertion `(.*?)' failed", r"(terminate called.*)"):
        m = re.search(pat, err)
        if m: return m.group(0).strip()[:300]
    return ""

def classify(rc, sh, err):
    """returns (kind, message) or None if the run ended normally"""
    if rc == 0 and sh and sh["state"] == 3: return None
    if sh and sh["state"] == 2: return ("check", sh["msg"])
    s = sanitizer_summary(err)
    if rc == 66: return ("race", s or "ThreadSanitizer report")
    if rc in (78, 79) or rc == 1 and "runtime error" in err: return ("sanitizer", s or "sanitizer report")
    if rc is not None and rc < 0: return ("crash", "killed by signal %d %s" % (-rc, s))
    if "Assertion" in err: return ("assert", s)
    return ("crash", "exit code %s %s" % (rc, s))

class Binary:
    def __init__(self, prop, variant, defs=()):
        self.prop, self.variant, self.defs = prop, variant, list(defs)
        self.gcc = False  # built with g++ because clang++ rejects the code
        self.dir = os.path.join(BUILD, prop)
        self.path = os.path.join(self.dir, "%s_%s" % (prop, variant))
    def build(self):
        """None, or the messages of the compiler.  The project is built with g++, so code that only clang++ rejects
        (a statement in a naked function, say) is no reason to say anything: it is checked with g++ instead."""
        own = "cxx" in VARIANTS[self.variant]
        force = os.environ.get("VERIF_GCC") and not own
        e = None if force else self.build_with(False)
        if (e or force) and not own:
            g = self.build_with(True)
            if g is None:
                self.gcc = True
                if e: log("%s: rejected by clang++, built with g++ instead:\n%s" % (self.path, e[-2000:]))
                return None
            e = (e or "") + g
        return e
    def build_with(self, gcc):
        os.makedirs(self.dir, exist_ok=True)
        v = VARIANTS[self.variant]
        cxx = "g++" if gcc else v.get("cxx", "clang++")
        extra = []
        if gcc:
            extra = ["-w"]
            for san, m in (("address", "ASAN"), ("thread", "TSAN")):
                if any(san in f for f in v["cflags"] if f.startswith("-fsanitize=")): extra.append("-DASYNCPP_HAS_%s=1" % m)
        rt = os.path.join(self.dir, "vrt_%s.o" % self.variant)
        src = os.path.join(VERIF, "checks", self.prop + ".cpp")
        tu2 = os.path.join(VERIF, "checks", self.prop + "_tu2.cpp")  # optional second translation unit
        objs = [self.path + ".o", rt] + ([self.path + "_tu2.o"] if os.path.exists(tu2) else [])
        for p in [self.path] + objs:
            if os.path.exists(p): os.unlink(p)
        def go(cmd):
            return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        c = [cxx] + BASE + v["cflags"] + extra + self.defs + ["-I" + os.path.join(REPO, "include"), "-c", src, "-o", self.path + ".o"]
        r = [cxx] + BASE + v["rt"] + ["-c", os.path.join(VERIF, "lib", "vrt.cpp"), "-o", rt]
        jobs = [c, r]
        if os.path.exists(tu2): jobs.append(c[:-3] + [tu2, "-o", self.path + "_tu2.o"])
        with ThreadPoolExecutor(3) as ex:
            for f in [ex.submit(go, j) for j in jobs]:
                if f.result().returncode: return f.result().stdout
        l = go([cxx] + v["link"] + ["-pthread"] + objs + ["-o", self.path])
        return l.stdout if l.returncode else None

def interface_errors(b):
    """The harness is an ordinary user of the library.  If it does not compile even with the standard library as it is
    (no scheduler shim), a use of the interface that the property covers is rejected by the code under test."""
    v = VARIANTS[b.variant]
    tu2 = os.path.join(VERIF, "checks", b.prop + "_tu2.cpp")
    out = ""
    for src in [os.path.join(VERIF, "checks", b.prop + ".cpp")] + ([tu2] if os.path.exists(tu2) else []):
        rejected = []
        for cxx in ([v["cxx"]] if "cxx" in v else ["g++", "clang++"]):
            cmd = [cxx] + BASE + (["-w"] if cxx == "g++" else []) + v["cflags"] + b.defs + ["-DVRT_NOSHIM=1", "-I" + os.path.join(REPO, "include"), "-fsyntax-only"]
            try: r = subprocess.run(cmd + [src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
            except subprocess.TimeoutExpired: break
            if not (r.returncode == 1 and re.search(r"error: ", r.stdout) and not re.search(r"internal compiler error|Killed|No space left|out of memory", r.stdout)): break
            rejected.append(r.stdout)
        else: out += rejected[0]
    return out

def run(cmd, shm, timeout):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
        rc, err = p.returncode, (p.stdout + p.stderr).decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        rc, err = None, ((e.stdout or b"") + (e.stderr or b"")).decode(errors="replace")
    return rc, err, Shm(shm).read()

class Fail:
    def __init__(self, binary, scen, pc, sc, kind, msg, err, notes, seed, idx):
        self.__dict__.update(locals())

def write_case(path, scen, pc, sc):
    with open(path, "w") as f:
        f.write("%s %d\n%s\n%d\n%s\n" % (scen, len(pc), " ".join(map(str, pc)), len(sc), " ".join(map(str, sc))))

def replay(binary, scen, pc, sc, tmp, timeout=90):
    cf = tempfile.mktemp(prefix="case", dir=tmp)
    shm = cf + ".shm"
    write_case(cf, scen, pc, sc)
    rc, err, sh = run([binary.path, "--replay", cf, "--shm", shm], shm, timeout)
    for p in (cf, shm):
        try: os.unlink(p)
        except OSError: pass
    if rc is None: return ("hang", "no answer within %d s" % timeout), err, sh
    return classify(rc, sh, err), err, sh

def replay_range(binary, seed, lo, hi, only, tier, tmp):
    shm = tempfile.mktemp(prefix="range", dir=tmp)
    cmd = [binary.path, "--seed", str(seed), "--from", str(lo), "--to", str(hi), "--shm", shm]
    if only: cmd += ["--only", only]
    if tier == "thorough": cmd.append("--thorough")
    rc, err, sh = run(cmd, shm, 300)
    try: os.unlink(shm)
    except OSError: pass
    if rc is None: return ("hang", "no answer"), err, sh
    return classify(rc, sh, err), err, sh

def same(a, b):
    if a is None or b is None: return False
    if a[0] != b[0]: return False
    return True

def shrink(f, tmp, seconds, jobs):
    """Greedy parallel shrinking of both choice streams; keeps the failure kind."""
    end = time.time() + seconds
    best = (f.pc, f.sc, (f.kind, f.msg), f.err, None)
    tried = 0
    def trim(x):
        n = len(x)
        while n and x[n - 1] == 0: n -= 1
        return x[:n]
    def attempt(cand):
        c, err, sh = replay(f.binary, f.scen, cand[0], cand[1], tmp, 60)
        if c and c[0] == f.kind and sh: return (sh["pc"][:], sh["sc"][:], c, err, sh)
        return None
    def key(pc, sc): return (len(trim(pc)), sum(trim(pc)), len([x for x in sc if x]), len(trim(sc)), sum(sc))
    with ThreadPoolExecutor(jobs) as ex:
        # make the outcome canonical
        r = attempt((best[0], best[1]))
        if r is None: return best, 0
        best = r
        progress = True
        while progress and time.time() < end:
            progress = False
            def cands():
                pc, sc = trim(best[0]), trim(best[1])
                yield (pc, [])
                for L in (len(sc) // 2, len(sc) // 4, len(sc) * 3 // 4): yield (pc, sc[:L])
                for k in (len(pc) // 2, len(pc) // 4, 8, 4, 3, 2, 1):
                    if k < 1: continue
                    for i in range(len(pc) - k, -1, -max(1, k // 2 if k > 4 else 1)):
                        yield (pc[:i] + pc[i + k:], sc)
                for k in (len(sc) // 4, len(sc) // 8, 16, 4, 1):
                    if k < 1: continue
                    for i in range(0, len(sc), k):
                        if any(sc[i:i + k]): yield (pc, sc[:i] + [0] * len(sc[i:i + k]) + sc[i + k:])
                        if k > 1 or True: yield (pc, sc[:i] + sc[i + k:])
                for i in range(len(pc)):
                    if pc[i] > 0:
                        yield (pc[:i] + [0] + pc[i + 1:], sc)
                        if pc[i] > 1:
                            yield (pc[:i] + [pc[i] // 2] + pc[i + 1:], sc)
                            yield (pc[:i] + [pc[i] - 1] + pc[i + 1:], sc)
            gen = cands()
            while time.time() < end:
                chunk = []
                for c in gen:
                    chunk.append(c)
                    if len(chunk) >= jobs * 2: break
                if not chunk: break
                tried += len(chunk)
                got = False
                for r in ex.map(attempt, chunk):
                    if r and key(r[0], r[1]) < key(best[0], best[1]):
                        best = r; got = True
                if got:
                    progress = True
                    break
    return best, tried

def load_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [x for x in json.load(open(p)) if x.get("property") == prop and x.get("status") == "known"]

def match_finding(findings, scen, kind, msg, notes):
    for k in findings:
        if k.get("scenario") and k["scenario"] != scen: continue
        if re.search(k["match"], msg): return k
    return None

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-shrink", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    cfg = json.load(open(os.path.join(VERIF, "checks", "config.json")))
    pc = cfg[a.prop]
    seed = a.seed
    cores = sorted(os.sched_getaffinity(0))
    jobs = len(cores)
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % a.prop)
    rc = 2
    try:
        rc = check(a, cfg, pc, seed, cores, jobs, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def check(a, cfg, pc, seed, cores, jobs, tmp, t0):
    tier = a.tier
    variants = pc["variants"]
    if tier == "thorough": variants = pc.get("thorough_variants", variants)
    if a.replay:
        r = json.load(open(a.replay))
        b = Binary(a.prop, r["variant"])
        if r.get("build"):
            e = interface_errors(b)
            print(e[-6000:] or "the harness compiles")
            return 1 if e else 0
        e = b.build()
        if e: log(e); return 2
        if "range" in r:
            g = r["range"]
            c, err, sh = replay_range(b, g["seed"], g["first"], g["last"] + 1, g["only"], g["tier"], tmp)
        else:
            c, err, sh = replay(b, r["scenario"], r["program"], r["schedule"], tmp)
        print(sh["notes"] if sh else "")
        print("outcome:", c)
        print(err[-6000:])
        return 1 if c else 0
    bins = [Binary(a.prop, v) for v in variants]
    for i, b in enumerate(bins): b.seed = seed + 1000003 * i  # every build runs other cases
    with ThreadPoolExecutor(jobs) as ex:
        for b, e in zip(bins, ex.map(lambda b: b.build(), bins)):
            if e:
                log("BUILD FAILED for %s\n%s" % (b.path, e[-6000:]))
                e = interface_errors(b)
                if not e: return 2
                rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
                path = os.path.join(rd, "%s-interface.json" % a.prop)
                first = [l for l in e.splitlines() if "error: " in l][0]
                json.dump(dict(property=a.prop, variant=b.variant, build=True, kind="interface", message=first, report=e.splitlines()[:200],
                               how="python3 tools/vp.py %s --replay %s" % (a.prop, path)), open(path, "w"), indent=1)
                os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
                json.dump(dict(property=a.prop, tier=tier, seed=seed, level=cfg["_level"].get(a.prop, "exploration"),
                               coverage=dict(evaluations=1, distinct_nontrivial=1, rule=pc["rule"],
                                             samples=["use of the interface rejected by the compiler: " + first]),
                               assumptions=cfg["_assumptions"] + pc.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1),
                          open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
                log("%s: a use of the interface that compiles on the unchanged tree is rejected: %s" % (a.prop, first))
                print("VIOLATION property=%s replay=%s" % (a.prop, path), flush=True)
                return 1
    tb = time.time()
    budget = pc["budget"][tier]           # seconds of search (wall), cut off => fewer cases, never a verdict
    work = []
    for b in bins:
        n = int(pc["cases"][tier][b.variant] * a.scale) if b.variant in pc["cases"][tier] else 0
        batch = max(1, min(pc.get("batch", 500), n // (jobs * 2) or 1))
        work.append([(b, i, min(i + batch, n)) for i in range(0, n, batch)])
    # interleave variants so that a time cut hits all of them alike
    queue = []
    idx = [0] * len(work)
    tot = sum(len(w) for w in work)
    while len(queue) < tot:
        k = min((i for i in range(len(work)) if idx[i] < len(work[i])), key=lambda i: idx[i] / len(work[i]))
        queue.append(work[k][idx[k]]); idx[k] += 1
    lock = threading.Lock()
    st = dict(cases=0, nontrivial=0, points=0, switches=0, labels={}, perbin={}, hashes=set(), samples=[], known={}, cut=False, unrepro=[])
    fails = []
    stop = threading.Event()
    findings = load_findings(a.prop)
    deadline = tb + budget

    def merge(b, sh):
        with lock:
            st["cases"] += sh["cases"]; st["nontrivial"] += sh["nontrivial"]
            st["points"] += sh["points"]; st["switches"] += sh["switches"]
            st["perbin"][b.variant] = st["perbin"].get(b.variant, 0) + sh["cases"]
            for k, v in sh["labels"].items(): st["labels"][k] = st["labels"].get(k, 0) + v

    def worker(wi):
        cpu = cores[wi % len(cores)]
        while not stop.is_set():
            with lock:
                if not queue: return
                if time.time() > deadline:
                    st["cut"] = True; return
                b, lo, hi = queue.pop(0)
            while lo < hi and not stop.is_set():
                base = os.path.join(tmp, "w%d" % wi)
                shm, hs, sm = base + ".shm", base + ".hash", base + ".samples"
                for p in (shm, hs, sm):
                    if os.path.exists(p): os.unlink(p)
                cmd = [b.path, "--seed", str(b.seed), "--from", str(lo), "--to", str(hi), "--shm", shm, "--hashes", hs, "--cpu", str(cpu)]
                if a.only: cmd += ["--only", a.only]
                if tier == "thorough": cmd.append("--thorough")
                if lo == 0: cmd += ["--samples", sm]
                rc, err, sh = run(cmd, shm, 600)
                if sh: merge(b, sh)
                if os.path.exists(sm):
                    with lock:
                        for s in open(sm, errors="replace").read().split("\x1e"):
                            if s.strip() and len(st["samples"]) < 6: st["samples"].append(b.variant + ": " + s.strip()[:1500])
                if os.path.exists(hs):
                    d = open(hs, "rb").read()
                    with lock:
                        if len(st["hashes"]) < 6000000: st["hashes"].update(struct.unpack("<%dQ" % (len(d) // 8), d))
                c = classify(rc, sh, err) if rc is not None else ("hang", "no progress for 600 s of wall time")
                if c is None: break
                if sh is None or sh["state"] == 0 and not sh["scen"]:
                    with lock: st.setdefault("errors", []).append((c, err[-2000:]))
                    stop.set(); return
                f = Fail(b, sh["scen"], sh["pc"], sh["sc"], c[0], c[1], err, sh["notes"], b.seed, sh["case_idx"])
                f.lo = lo
                k = match_finding(findings, f.scen, f.kind, f.msg, f.notes)
                if k:
                    with lock:
                        st["known"].setdefault(k["id"], 0); st["known"][k["id"]] += 1
                else:
                    with lock: fails.append(f)
                    stop.set(); return
                lo = sh["case_idx"] + 1
    status = 0
    violation = None
    for attempt_no in range(6):
        fails.clear()
        stop.clear()
        th = [threading.Thread(target=worker, args=(i,)) for i in range(jobs)]
        for t in th: t.start()
        for t in th: t.join()
        if st.get("errors"):
            log("harness error:", st["errors"][0])
            status = 2
            break
        for f in sorted(fails, key=lambda f: (len(f.pc) + len(f.sc))):
            # must reproduce three times in fresh processes
            ok, last = 0, None
            for _ in range(3):
                c, err, sh = replay(f.binary, f.scen, f.pc, f.sc, tmp)
                last = c
                if c and (c[0] == "race") == (f.kind == "race"): ok += 1
            rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
            if ok < 3:
                # it may need the cases that ran before it in the same process
                okr = 0
                for _ in range(3):
                    c, err, sh = replay_range(f.binary, f.seed, f.lo, f.idx + 1, a.only, tier, tmp)
                    if c and sh and sh["case_idx"] == f.idx: okr += 1
                if okr == 3:
                    path = os.path.join(rd, "%s-%s-range-%d-%d-%d.json" % (a.prop, f.scen, f.seed, f.lo, f.idx))
                    json.dump(dict(property=a.prop, variant=f.binary.variant, scenario=f.scen, range=dict(seed=f.seed, first=f.lo, last=f.idx, only=a.only, tier=tier),
                                   kind=c[0], message=c[1], trace=sh["notes"].splitlines(), report=err[-4000:].splitlines(),
                                   how="python3 tools/vp.py %s --replay %s" % (a.prop, path)), open(path, "w"), indent=1)
                    violation = (path, f, c, sh)
                    break
                st["unrepro"].append("%s/%s case %d: %s (reproduced %d/3: %s)" % (f.binary.variant, f.scen, f.idx, f.msg, ok, last))
                log("not reproducible:", st["unrepro"][-1])
                continue
            best, tried = (((f.pc, f.sc, (f.kind, f.msg), f.err, None), 0) if a.no_shrink else shrink(f, tmp, 40 if tier == "quick" else 90, jobs))
            p_, s_, c, err, sh = best
            path = os.path.join(rd, "%s-%s-%s.json" % (a.prop, f.scen, hashlib.sha1(repr((p_, s_)).encode()).hexdigest()[:10]))
            json.dump(dict(property=a.prop, variant=f.binary.variant, scenario=f.scen, program=p_, schedule=s_, kind=c[0], message=c[1],
                           original=dict(seed=f.seed, case=f.idx, program=len(f.pc), schedule=len(f.sc), message=f.msg), shrink_candidates=tried,
                           trace=(sh["notes"] if sh else f.notes).splitlines(), report=err[-4000:].splitlines(),
                           how="python3 tools/vp.py %s --replay %s" % (a.prop, path)), open(path, "w"), indent=1)
            violation = (path, f, c, sh)
            break
        if violation or not fails or not queue or time.time() > deadline: break
        # failures that do not replay decide nothing: go on with the rest of the cases
    ev = dict(property=a.prop, tier=tier, seed=seed, level=cfg["_level"].get(a.prop, "exploration"),
              coverage=dict(evaluations=st["cases"], distinct_nontrivial=len(st["hashes"]), rule=pc["rule"],
                            samples=st["samples"] or ["(no sample: run ended at the first case)"],
                            cases_per_build=st["perbin"], schedule_points=st["points"], thread_switches=st["switches"],
                            nontrivial_evaluations=st["nontrivial"], labels=st["labels"], time_cut=st["cut"],
                            known_findings_hit=st["known"], not_reproduced=st["unrepro"]),
              assumptions=cfg["_assumptions"] + pc.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
    for k in findings:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
    log("%s %s: %d cases (%d nontrivial, %d distinct), build %.1fs, total %.1fs %s" % (a.prop, tier, st["cases"], st["nontrivial"], len(st["hashes"]), tb - t0, time.time() - t0, "TIME CUT" if st["cut"] else ""))
    if violation:
        path, f, c, sh = violation
        log("%s scenario %s build %s: %s" % (a.prop, f.scen, f.binary.variant, c[1]))
        log((sh["notes"] if sh else f.notes)[-3000:])
        print("VIOLATION property=%s replay=%s" % (a.prop, path), flush=True)
        return 1
    return status

if __name__ == "__main__":
    main()
