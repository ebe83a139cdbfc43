"""Development helper: python3 tools/mut.py CXX[,CYY] FILE <<< 'old\n====\nnew' ; runs the checks against a scratch copy with one change."""
import subprocess, sys, shutil, os, tempfile
props, f = sys.argv[1].split(","), sys.argv[2]
extra = sys.argv[3:]
old, new = sys.stdin.read().split("\n====\n")
new = new.rstrip("\n"); old = old.rstrip("\n")
d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
try:
    r = d + "/repo"
    shutil.copytree("/repo", r, symlinks=True)
    s = open(r + "/" + f).read()
    assert s.count(old) == 1, "found %d times" % s.count(old)
    open(r + "/" + f, "w").write(s.replace(old, new))
    t = subprocess.run(["/opt/venv/bin/python", "-m", "compileall", "-q", r + "/" + f])
    for p in props:
        o = subprocess.run(["./run.sh", p] + extra, cwd="/verif", env=dict(os.environ, MC_REPO=r), capture_output=True, text=True)
        out = o.stdout.strip().split("\n")
        print(p, "exit", o.returncode, [l[:300] for l in out if "violates" in l or l.startswith("VIOL") or l.startswith("ERR")])
        i = [k for k, l in enumerate(out) if "violates" in l]
        if i: print("   ", "\n    ".join(x[:400] for x in out[i[0]+1:i[0]+4]))
        if o.returncode == 2: print(o.stderr[-800:], o.stdout[-600:])
finally:
    shutil.rmtree(d)
