#!/usr/bin/env python3
"""developer tool: make planted bugs from tools/bugs/*.py, confirm them in a scratch copy, store them in seeded/.
A bug file defines: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], and DEMO (python text: exits non-zero when broken)."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="")
SH = '#!/bin/bash\ncd "${REPO_DIR:-$PWD}" || exit 2\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$(realpath "$0")")/demo.py"\n'
PRE = 'import sys, os, logging, warnings\nsys.path.insert(0, os.getcwd()); sys.dont_write_bytecode = True\nwarnings.simplefilter("ignore"); logging.disable(logging.CRITICAL)\n'
def one(path, tests=True):
    spec = importlib.util.spec_from_file_location("bug", path); b = importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
    tmp = tempfile.mkdtemp(prefix="seed_"); wt = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", wt, symlinks=True)
        out = os.path.join(tmp, "s"); os.makedirs(out)
        open(out + "/demo.py", "w").write(PRE + b.DEMO); open(out + "/demo.sh", "w").write(SH)
        d = lambda: subprocess.run(["bash", out + "/demo.sh"], cwd=wt, env=ENV, capture_output=True, text=True, timeout=280)
        r = d()
        if r.returncode != 0: return f"{b.ID}: demo fails on the unchanged tree\n{r.stdout[-500:]}{r.stderr[-1500:]}"
        blame_bad = []
        for f, old, new in b.EDITS:
            s = open(f"{wt}/{f}").read()
            if s.count(old) != 1: return f"{b.ID}: edit text found {s.count(old)} times in {f}: {old!r}"
            base = subprocess.run(["git", "-C", "/repo", "show", f"89c490b:{f}"], capture_output=True, text=True).stdout
            if old.strip() not in base: blame_bad.append(old)
            open(f"{wt}/{f}", "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
        r = d()
        if r.returncode == 0: return f"{b.ID}: demo passes with the change\n{r.stdout[-500:]}"
        if tests:
            x = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=300", "-W", "ignore", "-o", "junit_family=xunit2", f"--junitxml={tmp}/j.xml"],
                               cwd=wt, env=ENV, capture_output=True, text=True)
            subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", f"{tmp}/r.json", f"junit:{tmp}/j.xml"], capture_output=True)
            res = json.load(open(f"{tmp}/r.json")); miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(res["passed"])
            if miss: return f"{b.ID}: stable tests fail: {sorted(miss)[:4]} ({len(miss)})"
        dst = os.path.join(VERIF, "seeded", b.ID); os.makedirs(dst, exist_ok=True)
        open(dst + "/patch.diff", "w").write(diff)
        shutil.copy(out + "/demo.py", dst); shutil.copy(out + "/demo.sh", dst); os.chmod(dst + "/demo.sh", 0o755)
        json.dump(dict(property=b.PROPERTY, needs=b.NEEDS, what_it_breaks=b.BREAKS), open(dst + "/meta.json", "w"), indent=1)
        return f"{b.ID}: ok (demo: {r.stdout.strip().splitlines()[-1:] or r.stderr.strip().splitlines()[-1:]})" + (f"  WARNING: not an original line: {blame_bad}" if blame_bad else "")
    finally: shutil.rmtree(tmp, ignore_errors=True)
if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    args = [a for a in sys.argv[1:] if a != "--notests"]
    with ThreadPoolExecutor(6) as ex:
        for r in ex.map(lambda p: one(p, "--notests" not in sys.argv), args): print(r, flush=True)
