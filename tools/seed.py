#!/usr/bin/env python3
"""seed.py WORKDIR ID PROPERTY: apply seeded/ID/patch.diff to a scratch copy WORKDIR of /repo's HEAD
(made if missing), run the property's check on it and report the outcome."""
import os, subprocess, sys, time
work, sid, props = sys.argv[1], sys.argv[2], sys.argv[3].split(",")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, cwd=None, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if not os.path.isdir(work):
    os.makedirs(work)
    sh("git -C /repo archive HEAD | tar x -C %s; git init -q; git add -A; git -c user.name=a -c user.email=a@a commit -qm x" % work, cwd=work)
sh("git checkout -q -- .", cwd=work)
patch = "%s/seeded/%s/patch.diff" % (V, sid)
if not os.path.exists(patch):
    patch = "/tmp/mw/surv/%s/patch.diff" % sid
r = sh("git apply %s" % patch, cwd=work)
assert r.returncode == 0, r.stdout
for p in props:
    t = time.time()
    env = dict(os.environ, VERIF_REPO=work, VERIF_TIER=os.environ.get("VERIF_TIER", "quick"))
    r = sh("python3 bin/check.py %s" % p, cwd=V, env=env)
    last = [l for l in r.stdout.splitlines() if l.strip()]
    why = last[-2][:160] if len(last) > 1 else ""
    print("%-26s %s rc=%d %.0fs %s | %s" % (sid, p, r.returncode, time.time() - t, last[-1][:110] if last else "", why), flush=True)
sh("git checkout -q -- .", cwd=work)
