"""Mutation campaign (development only): which small changes that survive the existing tests survive the checks too.

python3 tools/mutate.py tests OUT.jsonl N SEED     generate N mutants, keep those that pass the tests
python3 tools/mutate.py checks IN.jsonl OUT.txt    run the relevant checks on the survivors, stopping at the first alarm
Uses scratch copies of /repo under /tmp. Sampling is fine here: this judges the checks, it is not one.
"""
import ast, concurrent.futures, hashlib, json, os, pathlib, random, shutil, subprocess, sys
V = pathlib.Path(__file__).resolve().parent.parent
FILES = ["constants", "frequencies", "initial_conditions", "orbit", "plunge", "spacetime", "stable", "units"]
CHECKS = {
    "constants": "C01 C05 C15 C02 C03 C10 C12 C04",
    "frequencies": "C15 C06 C10 C03 C07 C08",
    "initial_conditions": "C13 C12 C11 C04",
    "orbit": "C15 C13 C14 C17 C12 C11",
    "plunge": "C15 C14 C17 C10 C13 C12 C11",
    "spacetime": "C16 C17 C18 C11",
    "stable": "C15 C14 C17 C08 C03 C04 C07 C12",
    "units": "C15",
}
# lines of orbit.py from which plotting, and animation, starts
PLOTS, ANIMATE = [1 + [i for i, l in enumerate(open('/repo/kerrgeopy/orbit.py')) if t in l][0] for t in ('def is_visible', 'def animate')]
SW = {"Lt": "<=", "LtE": "<", "Gt": ">=", "GtE": ">", "Eq": "!=", "NotEq": "=="}
NEG = {"Lt": ">=", "LtE": ">", "Gt": "<=", "GtE": "<", "Eq": ">=", "NotEq": "=="}
NAMES = {"r1": "r2", "r2": "r1", "r3": "r4", "r4": "r3", "z_minus": "z_plus", "sin": "cos", "cos": "sin", "z1": "z2", "upsilon_r": "upsilon_theta",
         "upsilon_theta": "upsilon_r", "E": "L", "q_r0": "q_theta0", "q_theta0": "q_r0", "q_t0": "q_phi0", "q_phi0": "q_t0", "r_minus": "r_plus", "r_plus": "r_minus",
         "h_plus": "h_minus", "h_minus": "h_plus", "min": "max", "max": "min", "ellipkinc": "ellipeinc", "ellipk": "ellipe", "lambda0": "lambda1", "rho_r": "rho_i", "A": "B", "B": "A",
         "M": "mu", "mu": "M", "elevation": "azimuth", "azimuth": "elevation"}


def mutants(path):
    src = path.read_text()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    txt = lambda n: b[slice(*pos(n))].decode()
    out = []

    def add(n, new, what):
        s, e = pos(n)
        if b[s:e].decode() != new:
            out.append((s, e, new, n.lineno, what))

    def par(s):
        return "(" + s + ")"

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0]).__name__
            for t in (SW, NEG):
                if o in t:
                    add(n, par(par(txt(n.left)) + t[o] + par(txt(n.comparators[0]))), "compare")
            if o == "Is":
                add(n, par(txt(n.left) + " is not " + txt(n.comparators[0])), "is")
            if o == "IsNot":
                add(n, par(txt(n.left) + " is " + txt(n.comparators[0])), "is")
        elif isinstance(n, ast.BinOp):
            o = {"Add": "-", "Sub": "+", "Mult": "/", "Div": "*", "BitAnd": "|", "BitOr": "&"}.get(type(n.op).__name__)
            if o:
                add(n, par(par(txt(n.left)) + o + par(txt(n.right))), "operator")
        elif isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, par(o.join(par(txt(v)) for v in n.values)), "bool")
        elif isinstance(n, ast.UnaryOp):
            add(n, par(txt(n.operand)), "unary")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            v = n.value
            add(n, repr(v + 1) if isinstance(v, int) else repr(v * 10), "constant")
            if v not in (0, 1):
                add(n, repr(v * 1.001) if isinstance(v, int) else repr(v / 10), "constant")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, repr(not n.value), "bool")
        elif isinstance(n, ast.Name) and n.id in NAMES and isinstance(n.ctx, ast.Load):
            add(n, NAMES[n.id], "name")
        elif isinstance(n, ast.Call):
            f = txt(n.func)
            if f in ("abs", "np.abs", "float", "np.real", "copysign") and n.args:
                add(n, par(txt(n.args[0])), "drop call")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                i = 0
                s, _ = pos(n.args[i]); _, e = pos(n.args[i + 1])
                out.append((s, e, txt(n.args[i + 1]) + ", " + txt(n.args[i]), n.lineno, "swap arguments"))
            if n.args and f not in ("ValueError", "print") and len(n.args) + len(n.keywords) > 2:
                for k in n.keywords:
                    if k.arg:
                        args = [txt(a) for a in n.args] + [txt(q) for q in n.keywords if q is not k]
                        add(n, f + par(", ".join(args)), "drop keyword")
        elif isinstance(n, ast.If) or isinstance(n, ast.IfExp):
            add(n.test, "(not " + par(txt(n.test)) + ")", "condition")
            add(n.test, "False", "condition")
        elif isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(n, "pass", "drop statement")
        elif isinstance(n, ast.Raise):
            add(n, "pass", "drop raise")
        elif isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and 2 <= len(n.elts) <= 4:
            e = [txt(q) for q in n.elts]
            add(n, "(" + ", ".join(e[:-2] + [e[-1], e[-2]]) + ")", "swap elements")
    res = []
    for s, e, new, line, what in out:
        m = (b[:s] + new.encode() + b[e:]).decode()
        try:
            compile(m, "m", "exec")
        except Exception:
            continue
        res.append({"file": path.stem, "line": line, "what": what, "old": b[s:e].decode()[:80], "new": new[:80], "src": m})
    return res


def worker_dir(k):
    w = "/tmp/mut/w%d" % k
    if not os.path.exists(w):
        subprocess.run(["cp", "-a", "/repo", w], check=True)
    return w


def put(w, m):
    for f in FILES:
        src = "/repo/kerrgeopy/%s.py" % f
        pathlib.Path(w, "kerrgeopy", f + ".py").write_text(m["src"] if f == m["file"] else open(src).read())


def test_one(args):
    k, m = args
    w = worker_dir(k)
    put(w, m)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    try:
        r = subprocess.run("/opt/venv/bin/python -m pytest tests -q -x -p no:cacheprovider --timeout=120", shell=True, cwd=w, env=env, capture_output=True, text=True, timeout=400)
        tail = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
        ok = r.returncode == 0 and "32 passed" in tail and "failed" not in tail
    except subprocess.TimeoutExpired:
        ok = False
    return ok


def main_tests(out, n, seed):
    ms = [m for f in FILES for m in mutants(pathlib.Path("/repo/kerrgeopy") / (f + ".py"))]
    print("mutants", len(ms), flush=True)
    random.Random(seed).shuffle(ms)
    ms = ms[:n]
    import queue, threading
    q, res, lock = queue.Queue(), [], threading.Lock()
    for m in ms:
        q.put(m)

    def go(k):
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            ok = test_one((k, m))
            with lock:
                res.append(ok)
                if ok:
                    with open(out, "a") as fh:
                        fh.write(json.dumps(m) + "\n")
                if len(res) % 50 == 0:
                    print(len(res), sum(res), flush=True)

    ts = [threading.Thread(target=go, args=(k,)) for k in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print("done", len(res), sum(res))


def main_checks(inp, out):
    done = set()
    if os.path.exists(out):
        done = {l.split()[0] for l in open(out)}
    for l in open(inp):
        m = json.loads(l)
        key = hashlib.md5(m["src"].encode()).hexdigest()[:10]
        if key in done:
            continue
        w = worker_dir(99)
        put(w, m)
        hit = None
        todo = CHECKS[m["file"]]
        if m["file"] == "orbit" and m["line"] > PLOTS:
            todo = "C20 C21" if m["line"] < ANIMATE else "C21"
        for c in todo.split():
            r = subprocess.run([str(V / "run.sh"), c], cwd=V, env=dict(os.environ, VERIF_REPO=w, VERIF_FAILFAST="1"), capture_output=True, text=True)
            if r.returncode:
                hit = c
                first = next((q for q in r.stdout.splitlines() if "broken:" in q), "")[:120]
                break
        with open(out, "a") as fh:
            fh.write("%s %s %s:%d %s | %r -> %r %s\n" % (key, "CAUGHT " + hit if hit else "SURVIVED", m["file"], m["line"], m["what"], m["old"], m["new"], first if hit else ""))


if __name__ == "__main__":
    if sys.argv[1] == "tests":
        main_tests(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
    else:
        main_checks(sys.argv[2], sys.argv[3])
