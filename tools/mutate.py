"""Development helper: systematic source mutants of the code under test.

python3 tools/mutate.py list                -> writes /tmp/mut/list.json (mutants that compile and pass the tests)
python3 tools/mutate.py run [FILESUBSTR]    -> runs the relevant checks against each, until one reports a violation;
                                               appends to /tmp/mut/result.jsonl (resumable)
"""
import ast, concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile
REPO = os.environ.get("MUT_REPO", "/repo")
OUT = "/tmp/mut"
CHECKS = {
    "anthunder/client/aio_client.py": "C05 C04 C26 C08 C09 C07 C06 C10 C25",
    "anthunder/client/base.py": "C23 C07 C25",
    "anthunder/client/client.py": "C15 C10 C25 C19",
    "anthunder/command/fail_response.py": "C01 C11 C14",
    "anthunder/command/heartbeat.py": "C01 C09",
    "anthunder/helpers/immutable_dict.py": "C23",
    "anthunder/helpers/request_id.py": "C03",
    "anthunder/helpers/singleton.py": "C22",
    "anthunder/listener/aio_listener.py": "C11 C12 C13 C10 C27 C09 C24 C25",
    "anthunder/listener/base_listener.py": "C24 C13 C27 C22",
    "anthunder/listener/sock_listener.py": "C14 C13 C10 C27 C09 C25",
    "anthunder/mesh/mesh_client.py": "C22 C23 C24",
    "anthunder/protocol/_package_base.py": "C01 C02 C15 C11",
    "anthunder/protocol/_request_pkg.py": "C01 C02 C07",
    "anthunder/protocol/_response_pkg.py": "C01 C02 C11",
    "anthunder/protocol/_rpc_trace_context.py": "C19",
    "anthunder/protocol/_sofa_header.py": "C02 C01 C19 C07",
    "anthunder/protocol/constants.py": "C01 C02 C05",
    "anthunder/protocol/exceptions.py": "C02 C01",
    "anthunder/exceptions.py": "C05 C15",
    "mytracer/_rpc_id.py": "C20 C19",
    "mytracer/_trace_id.py": "C21 C19 C20",
    "mytracer/helpers.py": "C20",
    "mytracer/span.py": "C20 C19",
    "mytracer/span_context.py": "C19 C20 C21",
    "mytracer/tracer.py": "C19 C20",
    "mysockpool/_wait.py": "C28 C16 C15",
    "mysockpool/connection.py": "C28 C16 C15",
    "mysockpool/connection_pool.py": "C16 C17 C15",
    "mysockpool/pool_manager.py": "C17 C16 C15",
    "mysockpool/recently_used_container.py": "C18 C17",
    "mysockpool/utils.py": "C28 C16",
}


def is_log(n):
    t = ast.unparse(n)
    return t.startswith(("logger.", "log.", "logging.", "warnings."))


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    lines = src.split("\n")
    offs, o = [], 0
    bs = src.encode()
    for l in lines:
        offs.append(o)
        o += len(l.encode()) + 1

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    out = []

    def add(n, new, what):
        a, b = span(n)
        s = (bs[:a] + new.encode() + bs[b:]).decode()
        out.append((n.lineno, what, s))
    tree = ast.parse(src)
    logs = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and is_log(n.value):
            for m in ast.walk(n):
                logs.add(id(m))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            logs.add(id(n)), logs.add(id(n.value))
    U = ast.unparse
    for n in ast.walk(tree):
        if id(n) in logs:
            continue
        if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Await)):
            add(n, "pass", "delete " + U(n)[:60])
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and not isinstance(getattr(n, "value", None), (ast.Constant,)) and n.col_offset > 4:
            add(n, "pass", "delete " + U(n)[:60])
        elif isinstance(n, (ast.Raise, ast.Continue, ast.Break)):
            add(n, "pass", "delete " + U(n)[:60])
        elif isinstance(n, ast.Return) and n.value is not None:
            add(n, "return None", "return None for " + U(n)[:60])
        elif isinstance(n, ast.Return):
            add(n, "pass", "delete return")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = n.test
            add(t, "(True)", "if True for " + U(t)[:60])
            add(t, "(False)", "if False for " + U(t)[:60])
        elif isinstance(n, ast.With):
            it = n.items[0]
            e = it.context_expr
            if "lock" in U(e).lower():
                add(e, "__import__('contextlib').nullcontext()", "no lock " + U(e))
        elif isinstance(n, ast.AsyncWith):
            add(n.items[0].context_expr, "__import__('contextlib').nullcontext()", "no async lock " + U(n.items[0].context_expr)[:40])
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
                  ast.In: "not in", ast.NotIn: "in"}
            op = sw[type(n.ops[0])]
            add(n, "(%s %s %s)" % (U(n.left), op, U(n.comparators[0])), "compare %s -> %s" % (U(n)[:50], op))
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join("(%s)" % U(v) for v in n.values) + ")", "bool " + U(n)[:60])
            for i in range(len(n.values)):
                add(n, "(" + U(n.values[i]) + ")", "only %s of %s" % (U(n.values[i])[:30], U(n)[:40]))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(" + U(n.operand) + ")", "drop not: " + U(n)[:60])
        elif isinstance(n, ast.Constant) and type(n.value) in (int, bool, float):
            if isinstance(n.value, bool):
                add(n, repr(not n.value), "const %r" % n.value)
            else:
                add(n, repr(n.value + 1), "const %r+1" % n.value)
                add(n, "(%r)" % (n.value - 1), "const %r-1" % n.value)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and not isinstance(n.left, ast.Constant):
            op = "-" if isinstance(n.op, ast.Add) else "+"
            add(n, "(%s %s %s)" % (U(n.left), op, U(n.right)), "arith " + U(n)[:50])
        elif isinstance(n, ast.ExceptHandler):
            if n.type is not None and not isinstance(n.type, ast.Tuple) and U(n.type) in ("Exception",):
                add(n.type, "ZeroDivisionError", "no handler " + U(n.type))
            elif n.type is not None and isinstance(n.type, ast.Tuple):
                for i in range(len(n.type.elts)):
                    add(n.type, "(" + ", ".join(U(x) for j, x in enumerate(n.type.elts) if j != i) + ",)", "handler without " + U(n.type.elts[i]))
            elif n.type is not None:
                add(n.type, "ZeroDivisionError", "no handler " + U(n.type))
        elif isinstance(n, ast.Call):
            for kw in n.keywords:
                if kw.arg:
                    x = ast.parse(U(n), mode="eval").body
                    x.keywords = [k for k in x.keywords if k.arg != kw.arg]
                    add(n, U(x), "drop keyword %s of %s" % (kw.arg, U(n.func)))
            if U(n.func).endswith((".copy",)):
                add(n, U(n.func.value), "no copy " + U(n)[:50])
            if U(n.func) in ("list", "bytes", "tuple", "dict", "max", "min", "str") and len(n.args) >= 1:
                add(n, U(n.args[0]), "drop %s()" % U(n.func) + U(n)[:40])
                if len(n.args) == 2:
                    add(n, U(n.args[1]), "other of " + U(n)[:40])
    return out


def apply(path, text):
    d = tempfile.mkdtemp(prefix="m", dir=OUT)
    r = d + "/repo"
    shutil.copytree(REPO, r, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    open(os.path.join(r, path), "w").write(text)
    return d, r


def survives(job):
    i, path, line, what, text = job
    try:
        compile(text, path, "exec")
    except SyntaxError:
        return None
    d, r = apply(path, text)
    try:
        p = subprocess.run(["unshare", "-Urmn", "bash", "-c", "ip link set lo up; mount --bind %s /repo && cd /repo && timeout 60 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=30 tests 2>&1 | tail -3" % r],
                           capture_output=True, text=True)
        return (i, path, line, what) if "26 passed" in p.stdout else None
    finally:
        shutil.rmtree(d)


def all_mutants():
    i = 0
    for path in sorted(CHECKS):
        for line, what, text in mutants(path):
            yield i, path, line, what, text
            i += 1


def main():
    os.makedirs(OUT, exist_ok=True)
    if sys.argv[1] == "list":
        jobs = list(all_mutants())
        print(len(jobs), "mutants")
        with cf.ThreadPoolExecutor(int(os.environ.get("MUT_J", "8"))) as ex:
            keep = [x for x in ex.map(survives, jobs) if x]
        json.dump(keep, open(OUT + "/list.json", "w"))
        print(len(keep), "pass the tests")
        return
    sub = sys.argv[2] if len(sys.argv) > 2 else ""
    done = set()
    res = OUT + "/result.jsonl"
    if os.path.exists(res):
        done = set(json.loads(l)["i"] for l in open(res))
    keep = set(x[0] for x in json.load(open(OUT + "/list.json")))
    todo = list(all_mutants())
    random.Random(7).shuffle(todo)
    k, n = map(int, os.environ.get("MUT_SHARD", "0/1").split("/"))
    for i, path, line, what, text in todo[k::n]:
        if i not in keep or i in done or sub not in path:
            continue
        d, r = apply(path, text)
        try:
            caught, rcs = None, []
            for c in CHECKS[path].split():
                try:
                    p = subprocess.run(["./run.sh", c], cwd=os.environ.get("MUT_VERIF", "/verif"), env=dict(os.environ, MC_REPO=r), capture_output=True, text=True, timeout=400)
                    rcs.append(p.returncode)
                    if p.returncode == 1:
                        caught = c
                        break
                except subprocess.TimeoutExpired:
                    rcs.append("timeout")
                    caught = c + " timeout"
                    break
            open(res, "a").write(json.dumps(dict(i=i, path=path, line=line, what=what, caught=caught, rcs=rcs)) + "\n")
        finally:
            shutil.rmtree(d)


main()
