#!/usr/bin/env python3
"""Runs the check of one property: run.py <ID> [quick|thorough]   |   run.py --replay FILE   |   run.py --setup
Builds the library from /repo's working tree in the build flavours the property needs, drives the
generators with VERIF_SEED, shrinks and re-confirms any failure, writes evidence/<ID>.json."""
import sys, os, re, json, hashlib, subprocess, time, fcntl, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); R = os.environ.get("RACRYPT_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", V + "/build"); H = V + "/h"
O = os.environ.get("VERIF_OUT", V)   # where evidence/ and replays/ go
NCPU = int(os.environ.get("VERIF_JOBS", "8"))
sys.path.insert(0, V)
from plan import FLAVOURS, PLAN

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def rd(p):
    with open(p, "rb") as f: return f.read()
def hsh(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def lib_sources():
    """the sources CMakeLists.txt puts into the library (fallback: everything outside src/test)"""
    try: t = rd(R + "/CMakeLists.txt").decode(errors="replace")
    except OSError: t = ""
    t = re.sub(r"#.*", "", t)
    s = sorted(set(x for x in re.findall(r"src/[\w/]+\.c\b", t) if not x.startswith("src/test/") and os.path.exists(R + "/" + x)))
    if not s:
        s = []
        for d, _, fs in os.walk(R + "/src"):
            if "/test" in d: continue
            s += [os.path.relpath(os.path.join(d, f), R) for f in fs if f.endswith(".c")]
        s.sort()
    return [x for x in s if "arm64" not in x]

def headers_key():
    k = []
    for d, _, fs in sorted(os.walk(R + "/src")):
        for f in sorted(fs):
            if f.endswith((".h", ".inc", ".def")): p = os.path.join(d, f); k.append(os.path.relpath(p, R).encode() + b":" + rd(p))
    return hsh(*k)

class BuildError(Exception): pass
SKIPPED = {}   # builds for other platforms that could not be made here

def compile1(args):
    cmd, out = args
    if os.path.exists(out): return None
    tmp = out + ".tmp%d" % os.getpid()
    r = sh(cmd + ["-o", tmp])
    if r.returncode != 0: return " ".join(cmd) + "\n" + r.stdout
    os.replace(tmp, out); return None

def inc_dir(fl):
    f = FLAVOURS[fl]
    if not f.get("noroll"): return R + "/src/include"
    d = "%s/inc_noroll_%s" % (B, headers_key())
    if not os.path.isdir(d):
        t = d + ".tmp%d" % os.getpid(); shutil.copytree(R + "/src/include", t)
        p = t + "/racrypt.h"; s = rd(p).decode(); s = re.sub(r"(?m)^\s*#\s*define\s+RACRYPT_DIGEST_UNROLL\b.*$", "", s)
        with open(p, "w") as o: o.write(s)
        try: os.rename(t, d)
        except OSError: shutil.rmtree(t, ignore_errors=True)
    return d

SHIM = rd(H + "/alt/shim_ms.h")
def lib_jobs(fl):
    f = FLAVOURS[fl]; hk = headers_key(); inc = inc_dir(fl); jobs = []; objs = []
    for s in lib_sources():
        if s.endswith("_x86.c") and not f.get("asm"): continue
        flags = f["cflags"].replace("{H}", H).split() + (["-DRACRYPT_USE_ASM"] if f.get("asm") else []) + f.get("fpic", [])
        if f.get("noroll"): # sources include <racrypt.h> (angle) and sibling quotes
            pass
        o = "%s/obj/%s_%s.o" % (B, os.path.basename(s)[:-2], hsh(rd(R + "/" + s), hk, SHIM if "shim_" in f["cflags"] else "", f["cc"], *flags, inc, s))
        jobs.append(([f["cc"]] + flags + ["-w", "-I", inc, "-I", os.path.dirname(R + "/" + s), "-c", R + "/" + s], o)); objs.append(o)
    return jobs, objs

def harness_jobs(fl, files, extra=()):
    f = FLAVOURS[fl]; hk = headers_key(); inc = inc_dir(fl); jobs = []; objs = []
    hh = hsh(*[rd(H + "/" + x) for x in sorted(os.listdir(H)) if x.endswith((".h", ".hpp", ".inc"))])
    for s in files:
        flags = f["cxxflags"].split() + list(extra)
        o = "%s/obj/h_%s_%s.o" % (B, os.path.basename(s)[:-4], hsh(rd(H + "/" + s), hh, hk, f["cxx"], *flags, inc))
        jobs.append(([f["cxx"], "-std=c++17"] + flags + ["-w", "-I", inc, "-I", H, "-c", H + "/" + s], o)); objs.append(o)
    return jobs, objs

WRAPS = ["malloc", "calloc", "realloc", "free", "open", "open64", "openat", "__open_2", "read", "__read_chk", "close", "getrandom", "getentropy", "fopen", "strdup", "reallocarray", "aligned_alloc", "memalign", "posix_memalign", "clock_gettime"]

def run_jobs(jobs):
    os.makedirs(B + "/obj", exist_ok=True)
    seen = {}; [seen.setdefault(o, c) for c, o in jobs]
    todo = [(c, o) for o, c in seen.items() if not os.path.exists(o)]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for e in ex.map(compile1, todo):
            if e: raise BuildError(e)

def link(fl, objs, tag, extra=()):
    f = FLAVOURS[fl]
    exe = "%s/bin_%s_%s" % (B, tag, hsh(*objs, f["cxx"], f["ldflags"], *extra))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        w = [] if f.get("nowrap") else ["-Wl," + ",".join("--wrap=" + x for x in WRAPS)]
        r = sh([f["cxx"]] + f["ldflags"].split() + list(extra) + objs + w + ["-lcrypto", "-lpthread", "-ldl", "-o", tmp])
        if r.returncode: raise BuildError(r.stdout)
        os.replace(tmp, exe)
    return exe

def asm_objs(bits):
    """the Windows assembly (MASM) assembled by llvm-ml; three spellings llvm-ml takes differently are rewritten first"""
    outs = []
    for n in ("cipher/aes", "digest/sha1", "digest/sha2"):
        t = rd("%s/src/%s_x86%s.asm" % (R, n, "_64" if bits == 64 else "")).decode(errors="replace")
        o = "%s/obj/masm%d_%s_%s.obj" % (B, bits, os.path.basename(n), hsh(t, "2"))
        if not os.path.exists(o):
            t = re.sub(r"(?m)^(\w+)[ \t]+EQU[ \t]+(\[[^\]\n]*\])", r"\1 TEXTEQU <\2>", t)
            for l in re.findall(r"(?m)^(\w+)[ \t]+d[bdq]\b", t): t = re.sub(r"(?m)^(\s*\w+\s+xmm\d+\s*,\s*)%s\b" % l, r"\1xmmword ptr %s" % l, t)
            for l in re.findall(r"(?m)^(\w+)[ \t]+PROC\b", t): t = re.sub(r"(?mi)^(\s*mov\s+\w+\s*,\s*)%s\b" % l, r"\1offset %s" % l, t)
            tmp = o + ".%d" % os.getpid(); a = tmp + ".asm"
            with open(a, "w") as f: f.write(t)
            r = sh(["llvm-ml-18", "--m%d" % bits, "-c", "-Fo", tmp, a]); os.unlink(a)
            if r.returncode or not os.path.exists(tmp): raise BuildError(r.stdout)
            os.replace(tmp, o)
        outs.append(o)
    return outs

def arm_image(opt, sha2):
    """the arm64 sources compiled for that processor, as one shared image for the emulator"""
    srcs = ["%s/src/%s_arm64.c" % (R, x) for x in ("cipher/aes", "digest/sha1") + (("digest/sha2",) if sha2 else ())]; inc = H + "/alt/a64"
    k = hsh(headers_key(), opt, *[rd(x) for x in srcs]); o = "%s/obj/a64_%s.so" % (B, k)
    if not os.path.exists(o):
        tmp = o + ".tmp%d" % os.getpid(); objs = []
        for i, x in enumerate(srcs):
            objs.append("%s.%d.o" % (tmp, i))
            r = sh(["clang", "--target=aarch64-linux-gnu", "-march=armv8-a+aes+crypto", "-ffreestanding", "-fPIC", opt, "-w", "-isystem", inc, "-I", R + "/src/include", "-I", os.path.dirname(x), "-isystem", "/usr/include", "-isystem", "/usr/include/x86_64-linux-gnu", "-c", x, "-o", objs[-1]])
            if r.returncode: raise BuildError(r.stdout)
        r = sh(["/usr/lib/llvm-18/bin/ld.lld", "-shared", "-Bsymbolic", "--hash-style=sysv"] + objs + ["-o", tmp])
        for x in objs: os.unlink(x)
        if r.returncode: raise BuildError(r.stdout)
        os.replace(tmp, o)
    return o

def build_alt_so(fl):
    """variants with another platform's assembly behind the instruction set checks"""
    f = FLAVOURS[fl]; kind = f["alt"]; jobs, objs = lib_jobs(fl); flags = f["cflags"].replace("{H}", H).split() + f["fpic"]
    if kind == "arm64": img = arm_image(f.get("opt", "-O2"), f.get("sha2")); defs = ['-DIMAGE="%s"' % img] + (["-DARM_SHA2"] if f.get("sha2") else []); g = "glue_arm64.c"
    else: a = asm_objs(32 if kind == "masm32" else 64); defs = ['-DOBJ_%s="%s"' % (n, x) for n, x in zip(("AES", "SHA1", "SHA2"), a)] + (["-DMASM32"] if kind == "masm32" else []); g = "glue_masm.c"
    go = "%s/obj/%s_%s.o" % (B, g[:-2], hsh(rd(H + "/alt/" + g), headers_key(), *flags, *defs))
    jobs.append((["gcc"] + flags + ["-w", "-I", inc_dir(fl)] + defs + ["-c", H + "/alt/" + g], go)); run_jobs(jobs)
    so = "%s/lib_%s_%s.so" % (B, fl, hsh(go, *objs))
    if not os.path.exists(so):
        tmp = so + ".tmp%d" % os.getpid(); r = sh(["gcc", "-shared", "-Wl,-Bsymbolic"] + objs + [go, "-o", tmp])
        if r.returncode: raise BuildError(r.stdout)
        os.replace(tmp, so)
    return so

def build_variant_so(fl):
    """library as a shared object, for in-process differential runs"""
    if FLAVOURS[fl].get("alt"):
        try: return build_alt_so(fl)
        except (BuildError, OSError) as e: SKIPPED[fl] = str(e)[-600:]; return None
    jobs, objs = lib_jobs(fl); run_jobs(jobs)
    so = "%s/lib_%s_%s.so" % (B, fl, hsh(*objs))
    if not os.path.exists(so):
        tmp = so + ".tmp%d" % os.getpid(); f = FLAVOURS[fl]
        r = sh([f["cc"], "-shared", "-Wl,-Bsymbolic", "-Wl,-z,notext"] + objs + ["-o", tmp])
        if r.returncode: raise BuildError(r.stdout)
        os.replace(tmp, so)
    return so

def prune():
    """keep the build directory from growing over many source states"""
    try:
        fs = [os.path.join(d, x) for d, _, xs in os.walk(B) for x in xs]
        tot = sum(os.path.getsize(f) for f in fs)
        if tot > 1500e6:
            now = time.time()
            for f in sorted(fs, key=os.path.getmtime):
                if now - os.path.getmtime(f) > 1800 and not f.endswith(".lock"):
                    tot -= os.path.getsize(f); os.unlink(f)
                if tot < 800e6: break
    except OSError: pass

def build(pid, flavours, fuzz=False):
    files = ["core.cpp"] + PLAN[pid]["files"]
    alljobs = []; per = {}; optjobs = {}
    for fl in flavours:
        lj, lo = lib_jobs(fl); hj, ho = harness_jobs(fl, files, ["-DFUZZ_MAIN"] if fl == "fuzz" else [])
        if FLAVOURS[fl].get("opt"): optjobs[fl] = lj; alljobs += hj
        else: alljobs += hj + lj
        per[fl] = ho + lo
    with open(B + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        prune()
        run_jobs(alljobs)
        for fl, lj in optjobs.items():   # stand-ins for another compiler: no verdict if they do not build here
            try: run_jobs(lj)
            except BuildError as e: SKIPPED[fl] = str(e)[-600:]
        exes = {fl: link(fl, per[fl], "%s_%s" % (pid, fl)) for fl in flavours if fl not in SKIPPED}
        sos = [x for x in (build_variant_so(x) for x in PLAN[pid].get("variants", [])) if x]
    for x in list(exes.values()) + sos:
        try: os.utime(x)
        except OSError: pass
    return exes, sos

def envfor(fl, sos):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:allow_user_segv_handler=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:print_stacktrace=0"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0:detect_deadlocks=0"
    e["KNOWN_FINDINGS"] = " ".join(re.findall(r"(?m)^finding: property=\S+ id=(\S+)", rd(V + "/known_findings.txt").decode())) if os.path.exists(V + "/known_findings.txt") else ""
    if sos: e["VARIANTS"] = ":".join(sos)
    return e

def replay_file(path):
    d = json.load(open(path)); pid = d["property"]; fl = d["flavour"]
    exes, sos = build(pid, [fl]); tmp = "%s/replay_%d.bin" % (B, os.getpid())
    with open(tmp, "wb") as f: f.write(bytes.fromhex("" if d["bytes"] == "-" else d["bytes"]))
    how = ["--history", d["history"]] + (["--prefix", d["prefix"]] if d.get("prefix") else []) if d.get("history") else ["--replay", tmp]
    r = sh([exes[fl], "--prop", pid, "--flavour", fl] + how + ["--limit", str(PLAN[pid].get("limit", 20))] + (["--thorough"] if d.get("tier") == "thorough" else []), env=envfor(fl, sos))
    os.unlink(tmp); print(r.stdout); return r.returncode

def main():
    if sys.argv[1] == "--replay": os.makedirs(B, exist_ok=True); sys.exit(replay_file(sys.argv[2]))
    if sys.argv[1] == "--setup":
        os.makedirs(B, exist_ok=True)
        try:
            for pid in PLAN: build(pid, sorted(set(f for f, *_ in PLAN[pid]["quick"])))
        except BuildError as e: print(e)
        return
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    os.makedirs(B, exist_ok=True); os.makedirs(O + "/evidence", exist_ok=True); os.makedirs(O + "/replays", exist_ok=True)
    plan = PLAN[pid]; steps = plan[tier]     # list of (flavour, workers, cases per worker)
    fls = sorted(set(f for f, *_ in steps))
    try: exes, sos = build(pid, fls)
    except BuildError as e:
        print("BUILD FAILED\n" + str(e)); sys.exit(3)
    tb = time.time() - t0
    maxt = plan.get("maxtime", {}).get(tier, 240 if tier == "quick" else 2400)
    work = "%s/run_%s_%d" % (B, pid, os.getpid()); os.makedirs(work, exist_ok=True)
    jobs = []
    fls = [f for f in fls if f in exes]; steps = [x for x in steps if x[0] in exes]
    for fl, workers, cases, *pre in steps:
        for w in range(workers):
            out = "%s/%s_%d.json" % (work, fl, len(jobs))
            jobs.append((fl, out, [exes[fl], "--prop", pid, "--flavour", fl, "--seed", str(seed * 1000003 + len(jobs)), "--cases", str(cases), "--maxtime", str(maxt), "--out", out, "--limit", str(plan.get("limit", 20) * (3 if "san" in fl else 1))] + (["--thorough"] if tier == "thorough" else []) + (["--prefix", pre[0][w % len(pre[0])]] if pre else [])))
    # the longest first; stop handing out work after a failure
    res = []; failed = []
    deadline = t0 + (780 if tier == "quick" else 14000)
    def go(j):
        if failed or time.time() > deadline: return None
        r = sh(j[2], env=envfor(j[0], sos), timeout=None)
        try: d = json.load(open(j[1]))
        except Exception: d = {"error": r.stdout[-2000:], "rc": r.returncode, "flavour": j[0]}
        if "--prefix" in j[2]: d["prefix"] = j[2][j[2].index("--prefix") + 1]
        if d.get("fail"): failed.append(d)
        return d
    with cf.ThreadPoolExecutor(NCPU) as ex: res = [x for x in ex.map(go, jobs) if x]
    fz = []
    if tier == "thorough" and plan.get("fuzz") and not failed: fz = fuzz(pid, seed, plan["fuzz"], failed, sos)
    errs = [x for x in res if "error" in x]
    distinct = 0
    for fl in fls:
        hs = ["%s/%s" % (work, x) for x in os.listdir(work) if x.startswith(fl + "_") and x.endswith(".hashes")]
        if hs: distinct += int(sh([exes[fl], "--union"] + hs).stdout.strip() or 0)
    good = [x for x in res if "error" not in x]
    samples = []; classes = {}; byfl = {}
    for x in good:
        for k, v in x["classes"].items(): classes[k] = classes.get(k, 0) + v
        b = byfl.setdefault(x["flavour"], {"evaluations": 0, "nontrivial": 0, "discarded": 0, "unreproduced": 0})
        b["evaluations"] += x["evals"]; b["nontrivial"] += x["nontrivial"]; b["discarded"] += x["discards"]; b["unreproduced"] += x["unreproduced"]
        if len(samples) < 8: samples += ["[%s] %s" % (x["flavour"], s[:600]) for s in x["samples"][:2]]
    rule = next((x["rule"] for x in good), "")
    known = re.findall(r"(?m)^finding: property=(\S+) (.*)$", rd(V + "/known_findings.txt").decode()) if os.path.exists(V + "/known_findings.txt") else []
    cov = {"evaluations": sum(x["evals"] for x in good) + sum(x["execs"] for x in fz), "distinct_nontrivial": distinct, "rule": rule, "samples": samples[:8] or ["none"], "per_build": byfl, "distribution": dict(sorted(classes.items(), key=lambda kv: -kv[1])[:80]), "build_s": round(tb, 1)}
    if fz: cov["coverage_guided"] = fz
    if plan.get("variants"): cov["builds_compared"] = [os.path.basename(x).split("_")[2] for x in sos]
    if SKIPPED: cov["builds_skipped"] = SKIPPED
    if any(x["unreproduced"] for x in good): cov["unreproduced_messages"] = [x["unreproduced_msg"][:300] for x in good if x["unreproduced"]][:5]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": plan.get("level", "exploration"), "coverage": cov, "assumptions": plan.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(failed)}
    tmp = O + "/evidence/.%s.tmp%d" % (pid, os.getpid())
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    os.replace(tmp, O + "/evidence/%s.json" % pid)
    shutil.rmtree(work, ignore_errors=True)
    if failed:
        d = failed[0]; rp = "%s/replays/%s_%s_%s.json" % (O, pid, d["flavour"], hsh(d["bytes"])[:8])
        with open(rp, "w") as f: json.dump({"property": pid, "flavour": d["flavour"], "tier": tier, "seed": d.get("seed"), "message": d["fail"], "case": d.get("notes", ""), "bytes": d["bytes"], **({"history": d["history"], "prefix": d.get("prefix", "")} if d.get("history") else {}), "how": "python3 /verif/run.py --replay <this file>"}, f, indent=1)
        print("case: %s" % d.get("notes", "")[:1500]); print("failure [%s]: %s" % (d["flavour"], d["fail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp)); sys.exit(1)
    for kp, what in known:
        if kp == pid: print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if errs or not good:
        print("check error: %s" % (errs[:2],)); sys.exit(3)
    print("%s %s: ok, %d cases (%d distinct non-trivial) in %.1fs (build %.1fs) %s" % (pid, tier, cov["evaluations"], distinct, ev["wall_s"], tb, {k: v["evaluations"] for k, v in byfl.items()}))

def fuzz(pid, seed, secs, failed, sos):
    """coverage-guided search over the same choice bytes (thorough tier)"""
    exes, _ = build(pid, ["fuzz", "asan"]); out = []
    def one(k):
        d = "%s/fuzz_%s_%d_%d" % (B, pid, os.getpid(), k); os.makedirs(d + "/c", exist_ok=True)
        e = envfor("fuzz", sos); e["FUZZ_PROP"] = pid; e["FUZZ_FLAVOUR"] = "asan"
        r = sh([exes["fuzz"], "-seed=%d" % (seed * 100 + k + 1), "-max_total_time=%d" % secs, "-max_len=%d" % (4096 if k % 2 else 600), "-len_control=20", "-use_value_profile=%d" % (k % 2), "-timeout=60", "-rss_limit_mb=3000", "-print_final_stats=1", "-artifact_prefix=" + d + "/", d + "/c"], env=e)
        m = re.search(r"stat::number_of_executed_units:\s+(\d+)", r.stdout); cov = re.findall(r"cov: (\d+)", r.stdout)
        arts = [d + "/" + x for x in os.listdir(d) if x.startswith(("crash-", "timeout-"))]
        for a in arts:
            rr = [sh([exes["asan"], "--prop", pid, "--flavour", "asan", "--replay", a, "--limit", "60"], env=envfor("asan", sos)) for _ in range(3)]
            if all(x.returncode == 1 for x in rr):
                x = sh([exes["asan"], "--prop", pid, "--flavour", "asan", "--replay", a, "--limit", "60"], env=dict(envfor("asan", sos), SHRINK="1"))
                failed.append({"flavour": "asan", "fail": x.stdout[-1500:], "notes": "found by libFuzzer", "bytes": rd(a).hex() or "-"})
        n = len(os.listdir(d + "/c")); shutil.rmtree(d, ignore_errors=True)
        return {"execs": int(m.group(1)) if m else 0, "edges": int(cov[-1]) if cov else 0, "corpus": n}
    with cf.ThreadPoolExecutor(NCPU) as ex: out = list(ex.map(one, range(NCPU)))
    return out

if __name__ == "__main__": main()
