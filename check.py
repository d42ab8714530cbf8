#!/usr/bin/env python3
"""Driver: builds /repo's current sources with a harness, runs it in shards,
turns what the monitors observed into an exit code, VIOLATION lines and
evidence.  Usage: check.py <ID> | check.py --setup | check.py --build-all"""
import sys, os, re, json, time, hashlib, subprocess, shutil, signal, struct, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")
HARN = os.path.join(VERIF, "harness")
NCPU = max(2, min(8, os.cpu_count() or 8))

sys.path.insert(0, VERIF)
from checks import CHECKS          # what to run per property

ARCH = ["-march=x86-64-v2", "-maes", "-mpclmul"]
CXXINC = ["-include", "cstdint", "-include", "stdexcept", "-include", "array"]
LOCK = ["-DENABLE_MEMORY_LOCK"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
VARIANTS = {
    # as the project builds it: assertions on, memory lock on
    "plain":  dict(cc="gcc", cxx="g++", flags=["-O2", "-g1"] + LOCK, link=[]),
    # assertions off (a release build)
    "release": dict(cc="gcc", cxx="g++", flags=["-O3", "-g1", "-DNDEBUG"] + LOCK, link=[]),
    # unoptimised, as the project's Debug build
    "debug":  dict(cc="gcc", cxx="g++", flags=["-O0", "-g1"] + LOCK, link=[]),
    # memory lock configured off
    "nolock": dict(cc="gcc", cxx="g++", flags=["-O2", "-g1"], link=[]),
    "asan":   dict(cc="gcc", cxx="g++", flags=["-O1", "-g1"] + LOCK + SAN, link=SAN),
    "asanrel":  dict(cc="gcc", cxx="g++", flags=["-O1", "-g1", "-DNDEBUG"] + LOCK + SAN, link=SAN),
    "tsan":   dict(cc="gcc", cxx="g++", flags=["-O1", "-g1"] + LOCK + ["-fsanitize=thread"], link=["-fsanitize=thread"]),
    "clang":  dict(cc="clang", cxx="clang++", flags=["-O2", "-g1"] + LOCK, link=[]),
    "fuzz":   dict(cc="clang", cxx="clang++", flags=["-O1", "-g1"] + LOCK + ["-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize-recover=all"],
                   link=["-fsanitize=address,undefined", "-Wl,--whole-archive", "/usr/lib/llvm-18/lib/clang/18/lib/linux/libclang_rt.fuzzer_no_main-x86_64.a", "-Wl,--no-whole-archive", "-lstdc++"]),
}

class HarnessError(Exception):
    pass

def log(*a):
    print(*a, file=sys.stderr, flush=True)

# ------------------------------------------------------------------ building
def lib_sources(ppke):
    lf = os.path.join(REPO, "src", "CMakeLists.txt")
    text = re.sub(r"#[^\n]*", "", open(lf).read())
    m = re.search(r"add_library\([ \t\r\n]*sse_crypto[ \t\r\n]([^)]*)\)", text)
    if not m:
        raise HarnessError("no add_library(sse_crypto ...) in " + lf)
    names = re.findall(r"[^ \t\r\n\"]+\.(?:cpp|cc|c)\b", m.group(1))
    out = []
    for n in names:
        if not ppke and (n.startswith("ppke/") or n == "puncturable_enc.cpp"):
            continue
        out.append(os.path.join(REPO, "src", n))
    return out

_tree = None
def tree_hash():
    """Hash of every header (and textually included file) of the library."""
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        for d, dn, fs in sorted(os.walk(os.path.join(REPO, "src"))):
            dn.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".hh", ".inc", ".ipp", ".def")):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
        for d in (HARN,):
            for dd, dn, fs in sorted(os.walk(d)):
                dn.sort()
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp")):
                        p = os.path.join(dd, f)
                        h.update(p.encode()); h.update(open(p, "rb").read())
        _tree = h.hexdigest()
    return _tree

NORELIC = [
    r'^#include "ppke/relic_wrapper/relic_api\.h"[ \t]*$',
    r'^[ \t]*static relicxx::relicResourceHandle\* *g_relic_handle_;[ \t]*$',
    r'^[ \t]*g_relic_handle_ = new relicxx::relicResourceHandle\(true\);[ \t]*$',
    r'^[ \t]*delete g_relic_handle_;[ \t]*$',
    r'^[ \t]*g_relic_handle_ = nullptr;[ \t]*$',
]

def run_cmd(cmd, timeout=800):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise HarnessError("command timed out: " + " ".join(cmd))
    return p.returncode, p.stdout.decode("utf-8", "replace")

def compile_one(job):
    src, variant, extra = job
    v = VARIANTS[variant]
    is_c = src.endswith(".c")
    data = open(src, "rb").read()
    harness = src.startswith(HARN)
    ppke = "-DVH_PPKE" in extra
    gen = None
    if src == os.path.join(REPO, "src", "utils.cpp") and not ppke:
        text = data.decode("utf-8", "replace")
        for r in NORELIC:
            text = re.sub(r, "", text, flags=re.M)
        gen = '#line 1 "%s"\n%s' % (src, text)
    cmd = [v["cc"] if is_c else v["cxx"]]
    cmd += ["-std=gnu99"] if is_c else ["-std=c++17" if harness else "-std=c++11", "-fno-rtti"] + CXXINC
    cmd += ["-w", "-fPIC"] + ARCH + v["flags"] + list(extra)
    if ppke:
        cmd += ["-I" + os.path.join(HARN, "fakerelic")]
    cmd += ["-I" + os.path.join(REPO, "src/include"), "-I" + os.path.join(REPO, "src"),
            "-I" + os.path.join(REPO, "src/include/sse/crypto")]
    if harness:
        cmd += ["-I" + HARN]
    h = hashlib.sha256()
    h.update("\0".join(cmd).encode()); h.update(src.encode()); h.update(data)
    h.update(tree_hash().encode())
    key = h.hexdigest()[:32]
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    obj = os.path.join(odir, key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = "%s.%d.tmp.o" % (obj, os.getpid())
    insrc = src
    if gen is not None:
        insrc = os.path.join(odir, key + ".gen.cpp")
        open(insrc, "w").write(gen)
    rc, out = run_cmd(cmd + ["-c", insrc, "-o", tmp])
    if rc != 0:
        raise HarnessError("compilation failed: %s [%s]\n%s" % (src, variant, out[-4000:]))
    os.rename(tmp, obj)
    return obj

def prune():
    fs = []
    for sub in ("obj", "bin"):
        d = os.path.join(BUILD, sub)
        if os.path.isdir(d):
            for f in os.listdir(d):
                try:
                    p = os.path.join(d, f)
                    fs.append((os.path.getmtime(p), os.path.getsize(p), p))
                except OSError:
                    pass
    total = sum(s for _, s, _ in fs)
    for t, s, p in sorted(fs):
        if total < 1500 << 20:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        total -= s

def unit_jobs(unit):
    """unit: (harness file, variant, extra compile flags, extra link flags)"""
    hfile, variant, extra, link = unit
    ppke = "-DVH_PPKE" in extra
    libextra = tuple(x for x in extra if x == "-DVH_PPKE" or x.startswith("-DLIB_"))
    hs = [hfile] if isinstance(hfile, str) else list(hfile)
    return ([(os.path.join(HARN, x), variant, tuple(extra)) for x in hs],
            [(s, variant, libextra) for s in lib_sources(ppke)])

def build_all(units):
    """Compile everything the units need in one pool, then link."""
    hj, lj = [], []
    for u in units:
        h, l = unit_jobs(u)
        hj += h; lj += l
    jobs = list(dict.fromkeys(hj + lj))      # harnesses (slowest) first
    with ThreadPoolExecutor(NCPU) as ex:
        objs = dict(zip(jobs, ex.map(compile_one, jobs)))
        exes = list(ex.map(lambda u: link_one(u, objs), units))
    return dict(zip((repr(u) for u in units), exes))

def link_one(unit, objmap):
    hfile, variant, extra, link = unit
    h, l = unit_jobs(unit)
    objs = [objmap[j] for j in h + l]
    v = VARIANTS[variant]
    hh = hashlib.sha256(("\0".join(objs) + repr(link) + repr(v)).encode()).hexdigest()[:24]
    bdir = os.path.join(BUILD, "bin")
    os.makedirs(bdir, exist_ok=True)
    name = hfile if isinstance(hfile, str) else hfile[0]
    exe = os.path.join(bdir, "%s-%s-%s" % (os.path.splitext(name)[0], variant, hh))
    if not os.path.exists(exe):
        tmp = "%s.%d.tmp" % (exe, os.getpid())
        cmd = [v["cxx"], "-rdynamic"] + v["link"] + ["-o", tmp] + objs + list(link) + ["-lsodium", "-lcrypto", "-lgmp", "-lpthread", "-ldl"]
        rc, out = run_cmd(cmd)
        if rc != 0:
            raise HarnessError("link failed: %s\n%s" % (exe, out[-4000:]))
        os.rename(tmp, exe)
    else:
        os.utime(exe)
    return exe

# ------------------------------------------------------------------- running
ENV_SAN = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0:allow_user_segv_handler=1:strict_string_checks=0:hard_rss_limit_mb=8000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:history_size=4:second_deadlock_stack=1:report_bugs=1",
    "LSAN_OPTIONS": "exitcode=99:report_objects=0:max_leaks=20",
}

class Res:
    pass
BAD = [0]       # time of the first violation

def run_shard(a):
    exe, args, shard, nshards, seed, tier, timeout, wd, env = a
    r = Res()
    base = os.path.join(wd, "%s-%s-%d" % (os.path.basename(exe), hashlib.md5(repr((args, seed, tier)).encode()).hexdigest()[:8], shard))
    cmd = [exe, "--seed", str(seed), "--shard", str(shard), "--nshards", str(nshards), "--tier", tier, "--out", base] + list(args)
    if env and "VH_RUNNER" in env:      # e.g. valgrind
        cmd = env["VH_RUNNER"].split() + cmd
    e = dict(os.environ); e.update(ENV_SAN)
    for k, val in (env or {}).items():
        e[k] = (e[k] + ":" + val) if k in ENV_SAN else val
    e["TMPDIR"] = wd
    r.cmd, r.exe, r.args, r.shard, r.nshards = cmd, exe, args, shard, nshards
    r.env = env
    r.aborted = False
    run = cmd
    if re.search(r"-(plain|release|debug|nolock|clang)-[0-9a-f]+$", os.path.basename(exe)) and "VH_RUNNER" not in (env or {}):
        gb = 20 if "VH_HUGE" in (env or {}) else 6      # a broken library must not take the machine's memory
        run = ["sh", "-c", 'ulimit -d %d; exec "$@"' % (gb << 20), "sh"] + cmd
    hard = timeout * (3 if tier == "quick" else 1.5)
    for attempt in (0, 1):
        t0 = time.time()
        try:
            with open(base + ".stdout", "wb") as fo, open(base + ".stderr", "wb") as fe:
                p = subprocess.Popen(run, stdout=fo, stderr=fe, env=e, stdin=subprocess.DEVNULL, cwd=wd, start_new_session=True)
                last, since = None, t0
                while True:
                    try:
                        p.wait(timeout=0.3 if time.time() - t0 < 20 else 1)
                        r.rc, r.hang = p.returncode, False
                        break
                    except subprocess.TimeoutExpired:
                        now = time.time()
                        if BAD[0] and now - BAD[0] > 45:        # a violation is already in hand
                            os.killpg(p.pid, signal.SIGKILL); p.wait()
                            r.rc, r.hang, r.aborted = -9, False, True
                            break
                        try:
                            cur = open(base + ".case", "rb").read(4096).split(b"\0")[0]
                        except OSError:
                            cur = b""
                        if cur != last:
                            last, since = cur, now
                        # a hang: over the time limit and stuck in one case
                        if (now - t0 > timeout * (1 if attempt == 0 else 1.5) and now - since > timeout * 0.4) or now - t0 > hard:
                            os.killpg(p.pid, signal.SIGKILL); p.wait()
                            r.rc, r.hang = -9, True
                            break
        except OSError as ex:
            raise HarnessError("cannot run %s: %s" % (exe, ex))
        r.wall = time.time() - t0
        if r.aborted:
            break
        # a SIGKILL that is not ours: out of memory or an external kill; try again
        if not r.hang and r.rc != -9:
            break
    def rd(s, lim=None):
        try:
            b = open(base + s, "rb").read()
        except OSError:
            b = b""
        return b if lim is None else b[-lim:]
    r.stdout = rd(".stdout").decode("utf-8", "replace")
    r.stderr = rd(".stderr").decode("utf-8", "replace")
    r.case = rd(".case").split(b"\0")[0].decode("utf-8", "replace")
    hb = rd(".hash")
    r.hashes = set(struct.unpack("<%dQ" % (len(hb) // 8), hb[:len(hb) // 8 * 8])) if hb else set()
    r.stats, r.samples, r.viol, r.done, r.errors, r.shared = {}, [], [], False, [], []
    for l in r.stdout.splitlines():
        if l.startswith("STAT "):
            k, _, val = l[5:].partition("=")
            r.stats[k] = r.stats.get(k, 0) + int(val)
        elif l.startswith("SAMPLE "):
            r.samples.append(l[7:])
        elif l.startswith("VIOL "):
            k, _, d = l[5:].partition(" ")
            r.viol.append((k, d))
        elif l.startswith("CMP "):
            r.shared.append(l[4:])
        elif l.startswith("HARNESS-ERROR "):
            r.errors.append(l[14:])
        elif l == "DONE":
            r.done = True
    if not BAD[0] and not r.aborted and (r.viol or r.hang or (r.rc != 0 and r.rc != 97)):
        BAD[0] = time.time()
    return r

def san_signature(err):
    m = re.search(r"SUMMARY: (\w+Sanitizer): (.*)", err)
    if m:
        s = re.sub(r"/\S*/", "", m.group(2))
        s = re.sub(r"\d+ byte\(s\)|\(\S*\+0x[0-9a-f]+\)|:\d+(:\d+)?", "", s)
        return "%s:%s" % (m.group(1), re.sub(r"\s+", "_", s.strip())[:100])
    m = re.search(r"([\w./]+):\d+:\d+: runtime error: (.*)", err)
    if m:
        return "UBSan:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"\W+", "_", m.group(2))[:80])
    m = re.search(r"==\d+== ((?:Conditional jump|Use of uninit|Invalid|Mismatched|Source and dest|Syscall param|Argument|Process terminating|\d[\d,]* bytes in \S+ blocks are)[^\n]*)((?:\n==\d+==    [^\n]*){1,12})", err)
    if m:
        f = re.search(r"(?:at|by) 0x\w+: (?!.*vg_replace)(.*)", m.group(2))
        return "valgrind:%s:%s" % (re.sub(r"\W+", "_", re.sub(r"\d", "", m.group(1)))[:40], re.sub(r"\W+", "_", f.group(1) if f else "")[:60])
    m = re.search(r"Assertion `(.*)' failed", err)
    if m:
        return "assert:" + re.sub(r"\W+", "_", m.group(1))[:80]
    return None

def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                known.append((m.group(1), m.group(2), m.group(3)))
    return known

def main():
    if len(sys.argv) > 1 and sys.argv[1] in ("--setup", "--build-all"):
        # checks build for themselves; this only proves the toolchain works
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        if sys.argv[1] == "--build-all":
            units = {repr(st["unit"]): st["unit"] for c in CHECKS.values() for st in c["stages"]}
            build_all(list(units.values()))
        else:
            build_all([CHECKS["C01"]["stages"][0]["unit"]])
        return 0
    pid = sys.argv[1]
    if pid not in CHECKS:
        log("unknown property", pid); return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1") & 0x7fffffff
    c = CHECKS[pid]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    evf = os.path.join(EVID, pid + ".json")
    if os.path.exists(evf):
        os.unlink(evf)
    wd = tempfile.mkdtemp(prefix="vh-%s-" % pid)
    rdir = os.path.join(EVID, "replay")
    try:
        stages = [s for s in c["stages"] if tier == "thorough" or not s.get("thorough_only")]
        builds = build_all(list({repr(st["unit"]): st["unit"] for st in stages}.values()))
        bt = time.time() - t0
        work = []
        for si, st in enumerate(stages):
            exe = builds[repr(st["unit"])]
            n = st.get("shards", NCPU)
            to = st.get("timeout", 120 if tier == "quick" else 3600)
            # each stage draws its own cases, unless they are compared across stages
            sd = seed if st.get("same_seed") else seed * 64 + si
            for i in range(n):
                work.append((exe, tuple(st.get("args", ())), i, n, sd, tier, to, wd, st.get("env")))
            if tier == "thorough":      # and the quick workload again, under other seeds
                for rnd in range(1, st.get("rounds", 6) + 1):
                    for i in range(n):
                        work.append((exe, tuple(st.get("args", ())), i, n, sd + 1000003 * rnd, "quick", to, wd, st.get("env")))
        # longest stages first is up to the order in checks.py
        with ThreadPoolExecutor(NCPU) as ex:
            results = list(ex.map(run_shard, work))
        # ---- judge
        viol = {}   # key -> (detail, result)
        stats, hashes, samples, errors = {}, set(), [], []
        shared = {}
        for r in results:
            for k, v in r.stats.items():
                stats[k] = stats.get(k, 0) + v
            hashes |= r.hashes
            samples += [s for s in r.samples[:3] if s not in samples]
            errors += r.errors
            for k, d in r.viol:
                viol.setdefault(k, (d, r))
            for l in r.shared:      # values which must agree across stages and shards
                k, _, v = l.partition(" ")
                o = shared.setdefault(k, (v, r))
                if o[0] != v:
                    viol.setdefault("disagree:" + k, ("%s: %s in %s, %s in %s" % (k, o[0], os.path.basename(o[1].exe), v, os.path.basename(r.exe)), r))
            sig = san_signature(r.stderr)
            if r.hang:
                viol.setdefault("hang", ("no progress within the time limit, twice; case: " + r.case, r))
            elif r.aborted:
                pass
            elif not r.done:
                if r.rc == 97:
                    errors.append("harness error in %s: %s" % (os.path.basename(r.exe), r.stderr[-1500:]))
                else:
                    how = "signal %d" % -r.rc if r.rc < 0 else "exit %d" % r.rc
                    k = sig or ("crash:" + re.sub(r"\W+", "_", r.case)[:40])
                    viol.setdefault(k, ("process ended with %s in case: %s\n%s" % (how, r.case, r.stderr[-3000:]), r))
            elif r.rc != 0 and not r.viol:
                viol.setdefault(sig or "exit%d" % r.rc, ("sanitizer or exit report (exit %d)\n%s" % (r.rc, r.stderr[:6000]), r))
        if errors and not viol:
            raise HarnessError("; ".join(errors)[:4000])
        if stats.get("evals", 0) == 0 and not viol:
            raise HarnessError("nothing was observed")
        for k, mn in c.get("require", {}).items():
            if stats.get(k, 0) < mn and not viol:
                raise HarnessError("monitor %s observed %d events, expected at least %d" % (k, stats.get(k, 0), mn))
        known = {k: t for p_, k, t in load_known() if p_ == pid}
        new = {k: v for k, v in viol.items() if k not in known}
        for k in viol:
            if k in known:
                print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
        nv = 0
        for k, (d, r) in sorted(new.items()):
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, "%s-%d.json" % (pid, nv))
            unit = [s["unit"] for s in stages if builds[repr(s["unit"])] == r.exe][0]
            json.dump(dict(property=pid, key=k, detail=d[:20000], case=r.case, seed=seed, tier=tier,
                           harness=unit[0], variant=unit[1], args=list(r.args), shard=r.shard, nshards=r.nshards,
                           env=r.env, replay="VERIF_SEED=%d VERIF_TIER=%s python3 /verif/check.py %s" % (seed, tier, pid),
                           command=" ".join(r.cmd), stderr=r.stderr[-8000:]), open(rp, "w"), indent=1)
            if nv < 8:
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                print("  %s: %s" % (k, d[:600].replace("\n", "\n    ")))
            nv += 1
        cov = dict(evaluations=stats.get("evals", 0), distinct_nontrivial=len(hashes), rule=c["rule"],
                   samples=samples[:12] or ["(none)"],
                   observed={k: v for k, v in sorted(stats.items()) if k != "evals"},
                   variants=sorted({s["unit"][1] for s in stages}),
                   processes=len(results), build_s=round(bt, 1))
        json.dump(dict(property=pid, tier=tier, seed=seed, level=c["level"], coverage=cov,
                       assumptions=c.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=nv),
                  open(evf, "w"), indent=1)
        print("%s: %d evaluations, %d distinct, %d violations, %.1fs (build %.1fs)" %
              (pid, cov["evaluations"], cov["distinct_nontrivial"], nv, time.time() - t0, bt))
        return 1 if nv else 0
    except HarnessError as e:
        log("ERROR (no verdict): %s" % e)
        return 3
    finally:
        shutil.rmtree(wd, ignore_errors=True)
        prune()

if __name__ == "__main__":
    sys.exit(main())
