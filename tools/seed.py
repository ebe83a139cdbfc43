"""Development helper: make and confirm one planted bug.

python3 tools/seed.py DIR   where DIR = /tmp/seedsrc/<id>/ holds edits.py, demo.sh (+ helper files) and meta.json
edits.py: EDITS = [(file, old, new), ...]
Confirms in a scratch copy: patch changes original lines, tests pass (3x), demo passes without and fails with it.
Writes /verif/seeded/<id>/.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
src = sys.argv[1].rstrip("/")
sid = os.path.basename(src)
ns = runpy.run_path(src + "/edits.py")
base = json.load(open("/opt/vp/BASELINE.json"))
d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)
try:
    r = d + "/repo"
    shutil.copytree("/repo", r, symlinks=True)
    for f, old, new in ns["EDITS"]:
        s = open(os.path.join(r, f)).read()
        assert s.count(old) == 1, "%s: found %d times: %r" % (f, s.count(old), old)
        open(os.path.join(r, f), "w").write(s.replace(old, new))
    diff = sh(["git", "diff"], r).stdout
    assert diff.strip()
    # which removed lines are original
    orig = 0
    for f in {e[0] for e in ns["EDITS"]}:
        bl = sh(["git", "blame", "-s", "HEAD", "--", f], r).stdout.splitlines()
        own = [l.startswith("^3e45a28") for l in bl]
        cur = None
        for l in sh(["git", "diff", "-U0", "--", f], r).stdout.splitlines():
            if l.startswith("@@"):
                a = l.split()[1][1:]; st, n = (a.split(",") + ["1"])[:2]
                orig += sum(own[int(st) - 1:int(st) - 1 + int(n)])
    print("original lines changed:", orig)
    assert orig or "--noorig" in sys.argv
    open(d + "/patch.diff", "w").write(diff)
    dd = d + "/elsewhere"; shutil.copytree(src, dd); os.remove(dd + "/edits.py"); os.remove(dd + "/meta.json")
    # clean / patched run of the demo, run with /repo bind-mounted in a user namespace
    def demo(tree):
        cmd = "ip link set lo up; mount --bind %s /repo && cd /repo && timeout 300 bash %s/demo.sh" % (tree, dd)
        p = sh(["unshare", "-Urmn", "bash", "-c", cmd], "/")
        return p.returncode, (p.stdout + p.stderr)[-1500:]
    c = d + "/clean"; shutil.copytree("/repo", c, symlinks=True)
    for i in range(3):
        rc, out = demo(c)
        if rc != 0: print("DEMO FAILS ON CLEAN", rc, out); sys.exit(1)
    for i in range(3):
        rc, out2 = demo(r)
        if rc == 0: print("DEMO PASSES WITH THE PATCH", out2); sys.exit(1)
    print("demo with patch: rc", rc, out2[-300:])
    for i in range(3):
        p = sh(["unshare", "-Urmn", "bash", "-c", "ip link set lo up; mkdir -p %s/rep; mount --bind %s/rep /opt/vp/reports; mount --bind %s /repo && cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; sed s,/opt/vp/reports,%s/rep2, /opt/vp/test.sh > %s/t.sh; bash %s/t.sh %s/o.json" % (d, d, r, d, d, d, d)], "/")
        o = json.load(open(d + "/o.json"))
        passed = set(o.get("passed") or [])
        miss = [t for t in base.get("stable", base.get("tests", base.get("passed", []))) if t not in passed]
        if miss: print("TESTS FAIL", miss); sys.exit(1)
    out = "/verif/seeded/" + sid
    if os.path.exists(out): shutil.rmtree(out)
    shutil.copytree(src, out); os.remove(out + "/edits.py"); shutil.copy(d + "/patch.diff", out + "/patch.diff")
    m = json.load(open(out + "/meta.json")); assert {"property", "needs", "what_it_breaks"} <= set(m)
    a = sh(["git", "apply", "--check", out + "/patch.diff"], "/repo"); assert a.returncode == 0, a.stderr
    if "--nocheck" not in sys.argv:
        p = sh(["./run.sh", m["property"]], "/verif", env=dict(os.environ, MC_REPO=r))
        print("CHECK", m["property"], "exit", p.returncode, [l[:250] for l in p.stdout.splitlines() if l.startswith("VIOL") or "violates" in l][:3])
    print("OK", sid)
finally:
    shutil.rmtree(d)
