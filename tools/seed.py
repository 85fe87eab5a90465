#!/usr/bin/env python3
"""tools/seed.py ID [checks...]: verifies seeded/ID in a scratch copy of /repo that a private mount namespace shows as /repo:
applies, builds, stable tests pass, demo fails with it and passes without it; then runs the property's check (or the named ones)."""
import sys, os, json, subprocess, shutil, time
V = "/verif"; i = sys.argv[1]; d = "%s/seeded/%s" % (V, i); meta = json.load(open(d + "/meta.json"))
checks = sys.argv[2:] or [meta["property"]]
S = "/tmp/sc/%s" % i; shutil.rmtree(S, ignore_errors=True); os.makedirs(S + "/out")
subprocess.run(["cp", "-a", "/repo", S + "/repo"], check=True)
subprocess.run(["cp", "-a", d, S + "/demo"], check=True)
for f in ("patch.diff", "meta.json"): os.unlink("%s/demo/%s" % (S, f))
sh = """mount --bind %(S)s/repo /repo && cd /repo || exit 90
git checkout -q -- . && bash /opt/vp/build.sh >%(S)s/b0.log 2>&1 || exit 91
timeout 300 bash %(S)s/demo/demo.sh >%(S)s/d0.log 2>&1; echo "demo clean: $?"
git apply %(d)s/patch.diff || exit 92
bash /opt/vp/test.sh %(S)s/t.json >%(S)s/t.log 2>&1 || exit 93
timeout 300 bash %(S)s/demo/demo.sh >%(S)s/d1.log 2>&1; echo "demo patched: $?"
""" % dict(S=S, d=d)
for c in checks: sh += "cd /verif; VERIF_OUT=%s/out VERIF_SEED=1 VERIF_TIER=quick python3 run.py %s quick >%s/c_%s.log 2>&1; echo \"check %s: $? $(grep -a -o 'VIOLATION.*' %s/c_%s.log | cut -c1-60)\"\n" % (S, c, S, c, c, S, c)
env = dict(os.environ, VERIF_BUILD=S + "/build")
r = subprocess.run(["unshare", "-rm", "bash", "-c", sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
print(i, "rc", r.returncode); print(r.stdout.strip())
try:
    t = json.load(open(S + "/t.json")); b = json.load(open("/opt/vp/BASELINE.json")); print("stable tests lost:", sorted(set(b["stable"]) - set(t["passed"])) or "none")
except Exception as e: print("tests:", e)
for f in ("d1.log",): print(f, open(S + "/" + f).read()[-300:].strip() if os.path.exists(S + "/" + f) else "-")
for c in checks:
    p = "%s/c_%s.log" % (S, c)
    if os.path.exists(p): print(c, open(p, errors="replace").read()[-500:].strip())
if not os.environ.get("KEEP"): shutil.rmtree(S, ignore_errors=True)
