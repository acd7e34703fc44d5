"""Writes /verif/seeded/<id>/ from the list of planted bugs in tools/bugs*.py.

python3 tools/plant.py [ID ...]   (re)generate and confirm: applies, 32 tests pass, demo 0 clean / nonzero patched.
Uses a scratch copy of /repo under /tmp, removed afterwards.
"""
import json, os, pathlib, re, shutil, subprocess, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
PRE = "import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\nimport warnings\nwarnings.simplefilter('ignore')\nimport numpy as np\n"
DEMO = '#!/bin/bash\n# cwd: the repository after its build\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def bugs():
    out = []
    for f in sorted((V / "tools").glob("bugs*.py")):
        ns = {}
        exec(compile(f.read_text(), str(f), "exec"), ns)
        out += ns["BUGS"]
    return out


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def original_lines(repo, path):
    out = run(f"git blame -s {path}", repo).stdout.splitlines()
    base = run("git rev-list --max-parents=0 HEAD", repo).stdout.strip()[:7]
    return [l.lstrip("^").startswith(base) for l in out]


def main():
    want = set(sys.argv[1:])
    for b in bugs():
        if want and b["id"] not in want:
            continue
        d = V / "seeded" / b["id"]
        w = f"/tmp/plant_{os.getpid()}"
        shutil.rmtree(w, ignore_errors=True)
        run(f"cp -a /repo {w}", "/")
        try:
            ok = []
            for path, old, new in b["edits"]:
                p = pathlib.Path(w) / "kerrgeopy" / path
                s = p.read_text()
                n = s.count(old)
                if n != 1:
                    print(b["id"], "PROBLEM: edit matches", n, "times", repr(old[:60]))
                    break
                p.write_text(s.replace(old, new))
            else:
                diff = run("git diff", w).stdout
                d.mkdir(parents=True, exist_ok=True)
                (d / "patch.diff").write_text(diff)
                (d / "demo.sh").write_text(DEMO); os.chmod(d / "demo.sh", 0o755)
                (d / "demo.py").write_text(PRE + b["demo"])
                (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
                r1 = run(f"bash {d}/demo.sh", w)
                run("git stash -q", w)
                own = []
                base = run("git rev-list --max-parents=0 HEAD", w).stdout.strip()
                for f in re.findall(r"^--- a/(\S+)", diff, re.M):
                    bl = [l.split()[0].lstrip("^") for l in run(f"git blame -s {f}", w).stdout.splitlines()]
                    cur = None
                    ln = 0
                    infile = False
                    for l in diff.splitlines():
                        if l.startswith("--- "):
                            infile = l == f"--- a/{f}"
                        elif l.startswith("@@"):
                            ln = int(re.match(r"@@ -(\d+)", l).group(1))
                        elif infile and l.startswith("-"):
                            if not base.startswith(bl[ln - 1][:7]):
                                own.append((f, ln))
                            ln += 1
                        elif infile and not l.startswith("+"):
                            ln += 1
                r0 = run(f"bash {d}/demo.sh", w)
                run("git stash pop -q", w)
                t = run("MPLBACKEND=Agg /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider 2>&1 | tail -1", w)
                print(b["id"], b["property"], "clean", r0.returncode, "patched", r1.returncode, "own lines" if own else "", own or "", "|", " ".join(t.stdout.split())[-60:])
                if r0.returncode:
                    print("   CLEAN:", (r0.stdout + r0.stderr)[-600:])
                if not r1.returncode:
                    print("   PATCHED:", (r1.stdout + r1.stderr)[-600:])
                else:
                    print("   ", (r1.stdout + r1.stderr).strip().splitlines()[-1][:200])
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
