#!/usr/bin/env python3
"""Build the library from /repo's working tree in the configurations a property
needs, explore its bounded space with one harness per property, confirm every
reported violation by replaying that trace alone, and write the evidence file.

  run.py <property> [--tier quick|thorough] [--replay FILE]
"""
import concurrent.futures as cf, glob, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from checks import CHECKS

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/libs/e_float/src"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CACHE = os.environ.get("VERIF_CACHE")            # development only; unset in registered commands
EVID = os.environ.get("VERIF_EVID", VERIF + "/evidence")


INST = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Builder:
    def __init__(self, work):
        self.work = work
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.hdr = None
        self.ref = {}

    def header_hash(self):
        if self.hdr is None:
            h = hashlib.sha256()
            for f in sorted(glob.glob(REPO + "/libs/**/*.h", recursive=True) + glob.glob(REPO + "/libs/**/*.hpp", recursive=True) + glob.glob(VERIF + "/harness/*.h")):
                h.update(f.encode()); h.update(open(f, "rb").read())
            self.hdr = h.hexdigest()
        return self.hdr

    def compile(self, src, obj, flags, opt, cc="g++"):
        cmd = [cc, "-std=c++17" if src.startswith(VERIF) else "-std=c++14", opt, "-w", "-c", src, "-o", obj,
               "-I" + SRC, "-I" + REPO + "/libs/math/include", "-I" + VERIF + "/harness"] + flags
        if CACHE:
            key = hashlib.sha256((self.header_hash() + " ".join(cmd[:4] + flags) + src).encode() + open(src, "rb").read()).hexdigest()
            c = os.path.join(CACHE, key + ".o")
            if os.path.exists(c):
                shutil.copy(c, obj); return
        r = sh(cmd)
        if r.returncode != 0:
            raise RuntimeError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
        if CACHE:
            os.makedirs(CACHE, exist_ok=True); shutil.copy(obj, c + ".tmp%d" % threading.get_ident()); os.replace(c + ".tmp%d" % threading.get_ident(), c)

    def start(self, backend, digits, harness, extra=(), lib=True, ldextra=(), opt="-O1", core=False, inst=False):
        """Submit all compilations; return a function that waits and links."""
        tag = "%s_%s_%s" % (backend, digits, hashlib.md5((harness + " ".join(extra) + opt).encode()).hexdigest()[:6])
        d = os.path.join(self.work, tag); os.makedirs(d, exist_ok=True)
        flags = ["-DE_FLOAT_TYPE_" + backend.upper(), "-DE_FLOAT_TEST_REAL_IMAG_TESTS", "-DE_FLOAT_VERIF_DIGITS10=%d" % digits, "-D_GLIBCXX_ASSERTIONS"] + list(extra)
        srcs = []
        if lib:
            # core: without the special functions and their tables (used by configurations too large for them)
            for pat in ("e_float/*.cpp", "e_float/%s/*.cpp" % backend) + (("functions/constants/*.cpp", "functions/elementary/*.cpp") if core else ("functions/**/*.cpp",)) + ("utility/*.cpp",):
                srcs += glob.glob(SRC + "/" + pat, recursive=True)
        srcs = sorted(set(srcs), key=lambda f: (-os.path.getsize(f), f))
        hsrc = os.path.join(VERIF, "harness", harness + ".cpp")
        # inst: every memory access and synchronisation of the library reported to the harness, which is not instrumented itself
        ops = os.path.join(VERIF, "harness", "ops.cpp")
        if inst:
            srcs = [ops] + srcs
        jobs = [(hsrc, "-O2" if inst else opt)] + ([] if inst else [(os.path.join(VERIF, "harness", "ref.cpp"), "-O2")]) + [(f, "-O0" if "/tables/" in f else opt) for f in srcs]
        futs, objs = [], []
        if core:
            flags = flags + ["-DVERIF_CORE"]; ldextra = list(ldextra) + ["-Wl,--unresolved-symbols=ignore-all"]
        for i, (f, o) in enumerate(jobs):
            if f.endswith("/ref.cpp"):                   # the same for every configuration
                k = (o, tuple(x for x in extra if x.startswith("-fsanitize")))
                if k not in self.ref:
                    ro = os.path.join(self.work, "ref%d.o" % len(self.ref)); self.ref[k] = (ro, self.pool.submit(self.compile, f, ro, list(k[1]), o))
                objs.append(self.ref[k][0]); futs.append(self.ref[k][1]); continue
            obj = os.path.join(d, "%02d_%s.o" % (i, os.path.basename(f)))
            objs.append(obj)
            if inst and f != hsrc:
                futs.append(self.pool.submit(self.compile, f, obj, flags + INST, o, "clang++"))
            else:
                futs.append(self.pool.submit(self.compile, f, obj, flags, o))
        exe = os.path.join(d, "explore")

        def finish():
            for f in futs:
                f.result()
            r = sh(["g++", "-o", exe] + objs + [x for x in extra if x.startswith("-fsanitize")] + list(ldextra) + ["-lmpfr", "-lgmp", "-pthread", "-ldl"])
            if r.returncode != 0:
                raise RuntimeError("link failed\n" + r.stdout[-3000:])
            return exe
        return finish


def load_known():
    known, p = {}, os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) :: (.*)", line)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


def read_cur(path):
    try:
        b = open(path, "rb").read()
        beat = struct.unpack("Q", b[:8])[0]
        unit = b[8:264].split(b"\0")[0].decode(errors="replace")
        key = b[264:264 + 768].split(b"\0")[0].decode(errors="replace")
        return beat, unit + "#" + key
    except Exception:
        return 0, "?"


class Config:
    def __init__(self, name, exe, args, env):
        self.name, self.exe, self.args, self.env = name, exe, args, env


def replay_one(cfg, key, tier, work, limit):
    """Run one trace alone. Returns list of (key,msg)."""
    tag = hashlib.md5((cfg.name + key).encode()).hexdigest()[:10] + str(time.time())
    out, cur = os.path.join(work, "rp" + tag), os.path.join(work, "rc" + tag)
    try:
        p = subprocess.run([cfg.exe, "--tier", tier, "--out", out, "--cur", cur, "--only", key] + cfg.args, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=limit, env=cfg.env, cwd=work)
    except subprocess.TimeoutExpired:
        return [(key, "does not terminate (ran alone for %d s)" % limit)]
    res = []
    if os.path.exists(out + ".viol"):
        for line in open(out + ".viol", errors="replace"):
            f = line.rstrip("\n").split("\t")
            if len(f) >= 3:
                res.append((f[1], f[2]))
    if p.returncode != 0 and not res:
        err = (p.stderr or b"").decode(errors="replace")
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|terminate called[^\n]*(\n[^\n]*)?|Assertion[^\n]*)", err)
        res.append((key, "abnormal termination, exit status %d %s" % (p.returncode, (m.group(1).replace("\n", " ") if m else err[-200:].replace("\n", " ")))))
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    rc = 2
    try:
        if "--replay" in sys.argv:
            rc = do_replay(prop, chk, tier, work, sys.argv[sys.argv.index("--replay") + 1])
        else:
            rc = explore(prop, chk, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def configs_of(chk, tier):
    cs = list(chk["configs"])
    if tier == "thorough":
        cs += chk.get("thorough_configs", [])
    return cs


def cfg_name(c):
    return "%s-%d%s" % (c["backend"], c["digits"], "-" + c["tag"] if c.get("tag") else "")


def run_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=0"
    return e


def build_cfg(b, c, chk):
    return b.start(c["backend"], c["digits"], c.get("harness", chk["harness"]), extra=tuple(c.get("flags", ())), lib=c.get("lib", True), ldextra=tuple(c.get("ld", ())), opt=c.get("opt", "-O1"), core=c.get("core", False), inst=c.get("inst", False))


def do_replay(prop, chk, tier, work, path):
    r = json.load(open(path))
    c = [c for c in configs_of(chk, "thorough") if cfg_name(c) == r["config"]][0]
    b = Builder(work)
    exe = build_cfg(b, c, chk)()
    res = replay_one(Config(r["config"], exe, c.get("args", []), run_env()), r["key"], r.get("tier", tier), work, 600)
    for k, m in res:
        print("replayed %s %s: %s" % (r["config"], k, m))
    return 1 if res else 0


def explore(prop, chk, tier, seed, work, t0):
    known = load_known()
    limit = 820 if tier == "quick" else 3 * 3600
    b = Builder(work)
    cl = configs_of(chk, tier)
    fins = [(c, build_cfg(b, c, chk)) for c in cl]
    env = run_env()
    results, viols, errors, samples = [], [], [], []
    total = {"units": 0, "states": 0, "transitions": 0, "traces": 0}
    counters, per_cfg = {}, {}
    lock = threading.Lock()
    budget = threading.BoundedSemaphore(JOBS)
    stop = threading.Event()
    cfgs = {}

    def worker(cfg, c, i, nproc, claims):
        out = os.path.join(work, "%s.o%d" % (cfg.name, i)); cur = os.path.join(work, "%s.c%d" % (cfg.name, i))
        skipf = os.path.join(work, cfg.name + ".skip")
        with budget:
            if stop.is_set():
                return None
            errf = open(out + ".err", "wb")
            p = subprocess.Popen([cfg.exe, "--tier", tier, "--out", out, "--cur", cur, "--claims", claims, "--skip", skipf] + cfg.args, stdout=subprocess.DEVNULL, stderr=errf, env=cfg.env, cwd=work)
            last, lastt, hung = -1, time.time(), None
            while p.poll() is None:
                time.sleep(0.05)
                if time.time() - t0 > limit or stop.is_set():
                    p.kill(); p.wait()
                    if not stop.is_set():
                        with lock: errors.append("time limit reached in " + cfg.name)
                    return None
                beat, key = read_cur(cur)
                if beat != last:
                    last, lastt = beat, time.time()
                elif time.time() - lastt > chk.get("hang_s", 200 if tier == "quick" else 600):
                    hung = key; p.kill(); p.wait(); break
            beat, key = read_cur(cur)
            got = []
            if os.path.exists(out + ".viol"):
                for line in open(out + ".viol", errors="replace"):
                    f = line.rstrip("\n").split("\t")
                    if len(f) >= 3: got.append((cfg, f[1], f[2], c))
            if hung or p.returncode != 0:
                got.append((cfg, key, "hang" if hung else "crash (exit status %s)" % p.returncode, c))
            res = None
            if os.path.exists(out):
                res = json.load(open(out))
                res["st"] = out + ".st"
            with lock:
                viols.extend(got)
            return res

    def run_config(c, fin):
        name = cfg_name(c)
        try:
            exe = fin()
        except Exception as e:
            with lock: errors.append(str(e))
            stop.set(); return
        cfg = Config(name, exe, c.get("args", []), env)
        cfgs[name] = cfg
        # traces listed as known findings that end the process are skipped in the sweep and replayed alone
        with open(os.path.join(work, name + ".skip"), "w") as f:
            for (p_, k), what in known.items():
                if p_ == prop and k.startswith(name + ":") and "[aborts]" in what:
                    f.write(k[len(name) + 1:] + "\n")
        n = c.get("procs", JOBS)
        claims = os.path.join(work, name + ".claims")
        with cf.ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(lambda i: worker(cfg, c, i, n, claims), range(n)))
        states = set(); agg = {"units": 0, "transitions": 0, "traces": 0}
        for r in rs:
            if not r: continue
            for k in agg: agg[k] += r[k]
            for k, v in r["counters"].items(): counters[k] = counters.get(k, 0) + v
            if r["samples"] and len(samples) < 12: samples.extend("%s: %s" % (name, s) for s in r["samples"][:2])
            data = open(r["st"], "rb").read()
            states.update(struct.unpack("%dQ" % (len(data) // 8), data))
            if r.get("truncated"): counters["truncated_after_violations"] = counters.get("truncated_after_violations", 0) + 1
        agg["states"] = len(states)
        with lock:
            per_cfg[name] = agg
            for k in agg: total[k] += agg[k]

    ths = [threading.Thread(target=run_config, args=cf_) for cf_ in fins]
    for t in ths: t.start()
    for t in ths: t.join()

    if errors:
        print("ERROR: " + "\n".join(errors)); return 2

    if os.environ.get("VERIF_DUMP"):                    # development: every raw violation
        with open(os.environ["VERIF_DUMP"], "w") as f:
            for v in viols: f.write("%s\t%s\t%s\n" % (v[0].name, v[1], v[2]))
    # replay before report
    confirmed, known_hit = [], []
    seen = set()
    order = sorted(viols, key=lambda v: (v[0].name, len(v[1]), v[1]))
    new = [v for v in order if (prop, v[0].name + ":" + v[1]) not in known]
    for v in order:
        k = v[0].name + ":" + v[1]
        if (prop, k) in known and k not in seen:
            seen.add(k); known_hit.append((k, known[(prop, k)]))
    for (p_, k), what in known.items():                 # crash findings: replay alone
        if p_ == prop and "[aborts]" in what:
            name, key = k.split(":", 1)
            if name in cfgs and replay_one(cfgs[name], key, tier, work, 120):
                known_hit.append((k, what))
    repdir = os.path.join(EVID, "replay"); os.makedirs(repdir, exist_ok=True)
    flaky = 0
    for v in new:
        if len(confirmed) >= 5: break
        if v[0].name + ":" + v[1] in seen: continue
        seen.add(v[0].name + ":" + v[1])
        res = replay_one(v[0], v[1], tier, work, 300)
        res = [x for x in res if (prop, v[0].name + ":" + x[0]) not in known]
        if not res:
            flaky += 1; print("note: %s %s did not reproduce alone: %s" % (v[0].name, v[1], v[2])); continue
        confirmed.append((v[0].name, v[1], res[0][1]))
    for i, (cname, key, msg) in enumerate(confirmed):
        path = os.path.join(repdir, "%s_%d.json" % (prop, i))
        json.dump({"property": prop, "config": cname, "key": key, "message": msg, "tier": tier,
                   "how": "python3 run.py %s --replay %s" % (prop, path)}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   %s %s: %s" % (cname, key, msg[:600]))
    for k, what in known_hit:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, what.replace("[aborts]", "").strip(), k))

    lvl = "model_checking"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": lvl,
          "coverage": {"states": total["states"], "transitions": total["transitions"], "traces_validated_against_impl": total["traces"],
                       "units": total["units"], "per_configuration": per_cfg, "counters": counters, "samples": samples[:12] or ["none"],
                       "exhaustive": not counters.get("truncated_after_violations"), "bounds": chk.get("bounds", "")},
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(EVID + "/%s.json" % prop, "w"), indent=1)
    print("%s %s: %d states, %d transitions, %d traces in %.1fs; violations %d, known %d%s" % (prop, tier, total["states"], total["transitions"], total["traces"], time.time() - t0, len(confirmed), len(known_hit), ", unreproduced %d" % flaky if flaky else ""))
    if confirmed:
        return 1
    if flaky:
        print("ERROR: a reported violation did not reproduce"); return 2
    if total["traces"] < chk.get("min_traces", 1) or total["transitions"] == 0:
        print("ERROR: vacuous exploration"); return 2
    return 0


if __name__ == "__main__":
    main()
