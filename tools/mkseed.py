#!/usr/bin/env python3
"""mkseed.py ID PROPERTY DIFF REPLAY NEEDS BREAKS : turns a change and a replay of its effect into /verif/seeded/ID
(REPLAY may be a directory holding a hand-written demo.sh instead.) Confirms that the demonstration passes without and fails with the change."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, diff, rep, needs, breaks = sys.argv[1:7]
d = f"{V}/seeded/{i}"
os.makedirs(d, exist_ok=True)
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
psim = os.environ.get("PSIM", "/tmp/psim")
if os.path.isdir(rep):
    for f in os.listdir(rep): shutil.copy(os.path.join(rep, f), d)
else:
    r = sh(psim, "--work", "/dev/shm/mkseed", "--tmpl", "/repo/lemon/lempar.c", "--replay", rep, "--export", d)
    kv = dict(l.split("=", 1) for l in r.stdout.splitlines() if "=" in l)
    lem = "DEFS" in kv
    t = open(f"{V}/tools/demo/demo_{'lemon' if lem else 'yacc'}.sh").read()
    for k, v in kv.items(): t = t.replace("@%s@" % k, v.strip())
    open(d + "/demo.sh", "w").write(t)
    for f in ["demo_rt.c"] + (["lemon_body.h"] if lem else []): shutil.copy(f"{V}/tools/demo/{f}", d)
    shutil.copy(V + "/psim/psim_rt.h", d)
    open(d + "/expected.txt", "w").write("")
    cap = t.replace('if [ $rc', 'cp out.txt "$CAP"; if [ $rc')
    open(d + "/cap.sh", "w").write(cap)
    outs = []
    for k in range(2):
        r = sh("bash", d + "/cap.sh", cwd="/repo", env=dict(os.environ, CAP="/tmp/cap%d" % k, PAD="x" * 100 * k))
        outs.append(open("/tmp/cap%d" % k).read())
    os.unlink(d + "/cap.sh")
    assert outs[0] == outs[1] and outs[0], "demo output is not repeatable"
    open(d + "/expected.txt", "w").write(outs[0])
shutil.copy(diff, d + "/patch.diff")
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
os.chmod(d + "/demo.sh", 0o755)
r = sh("bash", d + "/demo.sh", cwd="/repo"); assert r.returncode == 0, r.stdout + r.stderr
try:
    r = sh("git", "-C", "/repo", "apply", d + "/patch.diff"); assert r.returncode == 0, r.stderr
    r = sh("bash", "/opt/vp/test.sh", "/tmp/mkseed.json"); assert "542 passed" in r.stdout, r.stdout
    r = sh("bash", d + "/demo.sh", cwd="/repo"); print("with change:", r.returncode, r.stdout[:600])
    assert r.returncode != 0
finally:
    sh("git", "-C", "/repo", "checkout", "-q", "--", "."); sh("bash", "/opt/vp/build.sh")
r = sh("bash", d + "/demo.sh", cwd="/repo"); assert r.returncode == 0
print("kept", d)
