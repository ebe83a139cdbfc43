"""Runs the check of one property: python -B -m mc.main CXX [--tier quick|thorough] | replay FILE"""
import hashlib
import importlib
import json
import os
import sys
import time

_real_time = time.monotonic
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known(prop):
    known, lines = {}, []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for l in f:
                l = l.strip()
                if l.startswith("known:") and ("property=%s " % prop) in l:
                    parts = l.split(None, 3)
                    key = [x for x in parts if x.startswith("key=")][0][4:]
                    known[key] = parts[3]
    return known


def main(argv):
    if argv and argv[0] == "replay":
        return replay(argv[1])
    if argv and argv[0] == "setup":
        # nothing to build: the checks import the code from /repo as it is
        for f in sorted(os.listdir(os.path.join(ROOT, "checks"))):
            if f.startswith("c") and f.endswith(".py"):
                compile(open(os.path.join(ROOT, "checks", f)).read(), f, "exec")
        print("ready")
        return 0
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    for i, a in enumerate(argv):
        if a == "--tier":
            tier = argv[i + 1]
        if a == "--only":
            only = argv[i + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = float(os.environ.get("MC_BUDGET", "0")) or (100.0 if tier == "quick" else 780.0)
    t0 = _real_time()
    from mc import boot
    out = sys.stdout
    boot.boot()
    from mc import explore
    mod = importlib.import_module("checks." + prop.lower())
    scs = mod.scenarios(tier)
    if only:
        scs = [s for s in scs if only in s.name]
    known = load_known(prop)
    pool = explore.Pool(scs, set(known))
    results = []
    viol = None
    err = None
    try:
        for i, sc in enumerate(scs):
            left = budget - (_real_time() - t0)
            # a scenario may use its share of what is left, but never less than a few seconds
            share = max(4.0, left / max(1, len(scs) - i) * 3.0)
            r = pool.explore(i, _real_time() + min(share, max(left, 4.0)))
            results.append(r)
            out.write("%-28s runs=%-8d decisions=%-9d states=%-7d outcomes=%-6d bound=%d/%d %s %.1fs%s\n" % (
                sc.name, r.execs, r.decisions, len(r.states), len(r.fps), r.done_bound, sc.bound,
                "complete" if r.complete else "PARTIAL", r.wall,
                " diverged=%d" % r.diverged if r.diverged else ""))
            out.flush()
            if r.error:
                err = "%s: %s" % (sc.name, r.error)
                break
            if r.violation:
                ok, text = confirm(prop, sc, r.violation)
                if ok:
                    viol = (sc, r.violation, text)
                    break
                out.write("note: an observation in %s was not reproduced on replay and is not reported: %s\n"
                          % (sc.name, r.violation[0][:1500]))
    finally:
        pool.close()
    wall = _real_time() - t0
    write_evidence(prop, tier, seed, mod, scs, results, wall, viol, known)
    for k, text in sorted(known.items()):
        n = sum(r.known.get(k, 0) for r in results)
        out.write("KNOWN-FINDING: property=%s %s (met in %d executions of this run)\n" % (prop, text, n))
    if viol:
        sc, v, text = viol
        path = save_replay(prop, sc, v, tier)
        out.write("\n%s: scenario %s violates the property\n%s\n\n%s\n" % (prop, sc.name, v[0], text[-6000:]))
        out.write("VIOLATION property=%s replay=%s\n" % (prop, path))
        out.flush()
        return 1
    if err:
        out.write("ERROR %s %s\n" % (prop, err))
        return 2
    out.write("OK %s: held on everything explored (%.1f s)\n" % (prop, wall))
    return 0


def confirm(prop, sc, v):
    """Replay in a fresh process; returns (reproduced, trace text)."""
    import subprocess
    d = dict(property=prop, scenario=sc.name, choices=list(v[2]), tier=os.environ.get("VERIF_TIER", "quick"))
    env = dict(os.environ)
    text = ""
    for attempt in range(2):
        p = subprocess.Popen([sys.executable, "-B", "-m", "mc.main", "replay", "-"], cwd=ROOT, env=env,
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        text, rc = _communicate(p, json.dumps(d).encode(), 60)
        if rc is None:
            if v[1] == "hang":
                return True, text
            continue
        if rc == 1:
            return True, text
        if v[1] == "hang" and rc not in (0, 1, 2):
            return True, text
    return False, text


def _communicate(p, data, timeout):
    """subprocess with a real-time limit, without the (replaced) selectors and threads."""
    import os as _os
    from mc.explore import _poll, _sleep
    import select
    fd = p.stdout.fileno()
    try:
        _os.write(p.stdin.fileno(), data)
    except OSError:
        pass
    p.stdin.close()
    out = b""
    end = _real_time() + timeout
    po = _poll()
    po.register(fd, 1 | 16)
    while _real_time() < end:
        if po.poll(500):
            b = _os.read(fd, 65536)
            if not b:
                break
            out += b
            if len(out) > 4000000:
                out = out[-2000000:]
    else:
        p.kill()
        _os.waitpid(p.pid, 0)
        p.returncode = -9
        return out.decode("utf-8", "replace"), None
    _, st = _os.waitpid(p.pid, 0)
    p.returncode = _os.waitstatus_to_exitcode(st)
    return out.decode("utf-8", "replace"), p.returncode


def save_replay(prop, sc, v, tier):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(repr((sc.name, v[2])).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(path, "w") as f:
        json.dump(dict(property=prop, scenario=sc.name, choices=list(v[2]), tier=tier, message=v[0][:4000]), f, indent=1)
    return path


def replay(path):
    if path == "-":
        d = json.loads(sys.stdin.read())
    else:
        with open(path) as f:
            d = json.load(f)
    from mc import boot
    boot.boot()
    from mc import explore
    mod = importlib.import_module("checks." + d["property"].lower())
    scs = []
    for tier in (d.get("tier") or "quick", "quick", "thorough"):
        scs = [s for s in mod.scenarios(tier) if s.name == d["scenario"]]
        if scs:
            break
    if not scs:
        print("no scenario %s" % d["scenario"])
        return 2
    import gc
    gc.disable()
    gc.freeze()
    sys.unraisablehook = lambda *a: None
    try:
        o, ch = explore.run_one(scs[0], d["choices"], True)
    except explore.Divergence as e:
        print("diverged: %s" % e)
        return 3
    if o.violation:
        print("VIOLATED: %s" % o.violation)
        return 1
    print("held; outcome %s" % (o.note,))
    return 0


def write_evidence(prop, tier, seed, mod, scs, results, wall, viol, known):
    states = sum(len(r.states) for r in results)
    trans = sum(r.decisions for r in results)
    execs = sum(r.execs for r in results)
    steps = sum(r.steps for r in results)
    samples = []
    for r in results:
        if r.sample:
            samples.append(dict(scenario=r.name, **r.sample))
    cov = dict(
        states=max(states, 0), transitions=trans, traces_validated_against_impl=execs,
        executions=execs, scheduler_steps=steps,
        distinct_outcomes=sum(len(r.fps) for r in results),
        exhaustive=all(r.complete for r in results) and len(results) == len(scs),
        explanation="Stateless model checking of the real code: every execution counted runs the code of /repo itself "
                    "under the controlled scheduler/environment, so each explored trace is an implementation trace. "
                    "'states' are distinct decision states (positions of all threads, virtual time, observations so "
                    "far, enabled alternatives; for input enumerations the distinct input classes), 'transitions' "
                    "the decisions taken.",
        scenarios=[dict(name=sc.name, about=sc.about, kind=sc.kind, deviation_bound=sc.bound,
                        bound_completed=r.done_bound, complete=r.complete, executions=r.execs,
                        decisions=r.decisions, states=len(r.states), outcomes=len(r.fps),
                        nontrivial_outcomes=len(r.nontrivial), executions_per_level=r.by_level,
                        diverged=r.diverged, wall_s=round(r.wall, 2))
                   for sc, r in zip(scs, results)],
        samples=samples[:12])
    if known:
        cov["known_findings_met"] = {k: sum(r.known.get(k, 0) for r in results) for k in known}
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
                  "CPython executes one bytecode at a time; races below bytecode level do not exist",
                  "the standard library's asyncio, queue, socketserver, struct and requests behave as shipped; their "
                  "locks, clocks, sockets and selectors are replaced by controlled equivalents",
                  "the search is exhaustive up to the stated deviation bound per scenario, no further"],
              wall_s=round(wall, 2), violations=1 if viol else 0)
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, prop + ".json"))


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
