"""python3 tools/matrix.py [--all] [BUG ...]: which check catches which planted bug, on scratch copies of /repo."""
import json, os, pathlib, shutil, subprocess, sys, time
V = pathlib.Path(__file__).resolve().parent.parent
args = [a for a in sys.argv[1:] if not a.startswith("-")]
ids = args or sorted(d.name for d in (V / "seeded").iterdir())
allc = "--all" in sys.argv
props = sorted(p.stem for p in (V / "mc/props").glob("C*.py"))
for b in ids:
    d = V / "seeded" / b
    w = f"/tmp/mx_{os.getpid()}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    r = subprocess.run(["git", "apply", str(d / "patch.diff")], cwd=w, capture_output=True, text=True)
    if r.returncode:
        print(b, "DOES NOT APPLY", r.stderr[:200]); continue
    own = json.load(open(d / "meta.json"))["property"]
    for c in (props if allc else [own]):
        t = time.time()
        r = subprocess.run([str(V / "run.sh"), c], cwd=V, env=dict(os.environ, VERIF_REPO=w), capture_output=True, text=True)
        hit = f"VIOLATION property={c} " in r.stdout and r.returncode == 1
        first = next((l for l in r.stdout.splitlines() if "broken:" in l), "")
        if not allc or hit:
            print(b, c, "CAUGHT" if hit else f"MISSED rc={r.returncode}", "%.0fs" % (time.time() - t), first[:150], flush=True)
    shutil.rmtree(w, ignore_errors=True)
