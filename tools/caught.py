"""Development helper: python3 tools/caught.py ID... ; runs each planted bug's check against a patched scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
missed = []
for sid in ids:
    d = tempfile.mkdtemp(prefix="caught", dir="/tmp")
    try:
        r = d + "/repo"
        shutil.copytree("/repo", r, symlinks=True)
        subprocess.run(["git", "apply", "/verif/seeded/%s/patch.diff" % sid], cwd=r, check=True)
        p = json.load(open("/verif/seeded/%s/meta.json" % sid))["property"]
        o = subprocess.run(["./run.sh", p], cwd="/verif", env=dict(os.environ, MC_REPO=r), capture_output=True, text=True)
        ls = [l[:220] for l in o.stdout.splitlines() if l.startswith(("VIOL", "OK")) or "violates" in l]
        print("%-32s exit %d %s" % (sid, o.returncode, ls[:2]), flush=True)
        if o.returncode != 1:
            missed.append(sid)
    finally:
        shutil.rmtree(d)
print("missed:", missed)
