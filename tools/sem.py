"""Hand-written changes in bulk: sem.py LIST.py [first [last]].

LIST.py defines M = [(property, file, old, new), ...] (or a list of
(file, old, new) in place of file, with old, new = None).  Each is applied in a
scratch copy of PLANT_REPO (default /repo), the repository's tests are run and
then the quick check of the property.
"""
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("PLANT_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    M = ns["M"]
    a = int(sys.argv[2]) if len(sys.argv) > 2 else 0
    b = int(sys.argv[3]) if len(sys.argv) > 3 else len(M)
    for i in range(a, b):
        prop, fn, old, new = M[i]
        edits = fn if isinstance(fn, list) else [(fn, old, new)]
        d = tempfile.mkdtemp(prefix="sem.", dir="/tmp")
        try:
            r = d + "/r"
            os.mkdir(r)
            subprocess.run("git -C %s archive HEAD | tar x -C %s" % (REPO, r),
                           shell=True, check=True)
            v = REPO + "/src/qutip_qtrl/version.py"
            if os.path.exists(v):
                shutil.copy(v, r + "/src/qutip_qtrl/version.py")
            tag = "%3d %s %s" % (i, prop, edits[0][0])
            bad = None
            for f, o, n in edits:
                p = r + "/src/qutip_qtrl/" + f
                s = open(p).read()
                if s.count(o) != 1:
                    bad = "%d matches of %r" % (s.count(o), o[:60])
                    break
                open(p, "w").write(s.replace(o, n))
            if bad:
                print(tag, "BAD", bad, flush=True)
                continue
            env = dict(os.environ, PYTHONPATH=r + "/src",
                       PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                       OMP_NUM_THREADS="1")
            t = subprocess.run(
                ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p",
                 "no:cacheprovider", "tests"], cwd=r, env=env,
                capture_output=True, text=True)
            if t.returncode:
                print(tag, "tests fail", flush=True)
                continue
            env = dict(os.environ, VERIF_SEED="1", VERIF_REPO=r)
            out = []
            hit = False
            for q in prop.split("+"):
                c = subprocess.run([ROOT + "/check.sh", q], env=env,
                                   capture_output=True, text=True)
                x = [x for x in c.stdout.splitlines()
                     if x.startswith(("part=", "VIOLATION", "OK",
                                      "CHECK ERROR"))]
                hit = hit or c.returncode == 1
                out.append("%d %s" % (c.returncode, (x or ["?"])[0][:150]))
            print(tag, "caught" if hit else "MISSED", out, flush=True)
        finally:
            shutil.rmtree(d)
            shutil.rmtree(d + "/r.out", ignore_errors=True)


main()
