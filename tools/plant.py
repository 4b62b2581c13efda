"""Plants a bug: plant.py SPEC.py [--check].

SPEC.py defines ID, PROPERTY, EDITS [(file, old, new)], DEMO (python source),
NEEDS, BREAKS.  The bug is applied in /repo, the stable tests are run, the
demonstration is run with and without it, everything is undone, and the files
are written to /verif/seeded/ID.  With --check the quick check of the property
runs against the bug as well.
"""
import json
import os
import subprocess
import sys

# (PLANT_REPO: a clone of /repo to work in instead)
REPO = os.environ.get("PLANT_REPO", "/repo")
SRC = REPO + "/src/qutip_qtrl/"
ENV = dict(os.environ, PYTHONPATH=REPO + "/src", PYTHONDONTWRITEBYTECODE="1",
           MPLBACKEND="Agg", OMP_NUM_THREADS="1")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def git(*a):
    return subprocess.run(["git", "-C", REPO] + list(a), check=True,
                          capture_output=True, text=True).stdout


def demo(d):
    r = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=REPO, env=ENV,
                       capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    assert git("status", "--porcelain") == "", "repo not clean"
    d = os.path.join(ROOT, "seeded", ns["ID"])
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.py", "w") as f:
        f.write(ns["DEMO"].lstrip())
    with open(d + "/demo.sh", "w") as f:
        f.write("#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 "
                "OMP_NUM_THREADS=1\n"
                "exec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    with open(d + "/meta.json", "w") as f:
        json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"],
                       what_it_breaks=ns["BREAKS"]), f, indent=1)
    rc, out = demo(d)
    ok = rc == 0
    print(ns["ID"], "demo unchanged:", rc, "" if rc == 0 else out)
    try:
        for fn, old, new in ns["EDITS"]:
            s = open(SRC + fn).read()
            assert s.count(old) == 1, (fn, old, s.count(old))
            open(SRC + fn, "w").write(s.replace(old, new))
        diff = git("diff")
        with open(d + "/patch.diff", "w") as f:
            f.write(diff)
        # only lines of the original repository may be changed
        base = git("rev-list", "--max-parents=0", "HEAD").strip()
        for fn, old, new in ns["EDITS"]:
            orig = git("show", base + ":src/qutip_qtrl/" + fn).splitlines()
            orig = set(map(str.strip, orig))
            for ln in diff.splitlines():
                if ln.startswith("-") and not ln.startswith("---") and \
                        ln[1:].strip() and ln[1:].strip() not in orig:
                    print("  NOTE: changes a line not in the original: "
                          + ln)
        rc, out = demo(d)
        print("  demo with the bug:", rc, out.strip().splitlines()[-1:])
        ok = ok and rc != 0
        if REPO == "/repo":
            subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/plant_out.json"],
                           capture_output=True)
            r = json.load(open("/tmp/plant_out.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            names = base if isinstance(base, list) else next(
                v for v in base.values() if isinstance(v, list) and
                len(v) > 50)
            bad = [t for t in names if t not in set(r["passed"])]
        else:
            r = subprocess.run(
                ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p",
                 "no:cacheprovider", "tests"], cwd=REPO, env=ENV,
                capture_output=True, text=True)
            bad = [x for x in r.stdout.splitlines()
                   if x.startswith(("FAILED", "ERROR"))]
            if r.returncode and not bad:
                bad = ["pytest ends with %d" % r.returncode]
        print("  stable tests failing:", bad[:5], len(bad))
        ok = ok and not bad
        if "--check" in sys.argv:
            env = dict(os.environ, VERIF_SEED="1")
            if REPO != "/repo":
                env["VERIF_REPO"] = REPO
            c = subprocess.run([ROOT + "/check.sh", ns["PROPERTY"]], env=env,
                               capture_output=True, text=True)
            print("  check:", c.returncode,
                  [x for x in c.stdout.splitlines()
                   if x.startswith(("part=", "VIOLATION", "OK"))][:2])
    finally:
        git("checkout", "--", ".")
    print("  KEEP" if ok else "  NOT VALID")
    if not ok:
        for x in os.listdir(d):
            os.unlink(os.path.join(d, x))
        os.rmdir(d)


main()
