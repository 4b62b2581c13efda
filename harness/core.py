"""Property-check runner built on Hypothesis.

A property module (checks/cNN.py) defines

    ID = "C01"
    RULE = "how cases are made, and what makes one non-trivial"
    PARTS = [Part(name, strategy, check, quick, thorough), ...]

A case is a JSON-able value drawn by `strategy`; `check(case, rec)` raises
Violation when the property does not hold for it.  All random choices are made
by Hypothesis, from VERIF_SEED.  Every run is split in shards (one process
each); a shard runs every part with its own derived seed.
"""
import hashlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import io
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import types
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
# (VERIF_REPO: another tree to judge, for trying the checks out)
REPO = os.environ.get("VERIF_REPO", "/repo")
# VERIF_SCALE: a factor for the numbers of cases, also only for trying out
OUT = ROOT if REPO == "/repo" else REPO.rstrip("/") + ".out"
CASE_SECONDS = 100
SRC = os.path.join(REPO, "src")
PY = "/opt/venv/bin/python"
LEVEL = "exploration"


# --------------------------------------------------------------------------
# environment
# --------------------------------------------------------------------------
class _OnlyFinder(importlib.abc.MetaPathFinder):
    """Serves a few named packages from a directory and nothing else of it."""

    def __init__(self, directory, names):
        self.directory, self.names = directory, names

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names and path is None:
            return importlib.machinery.PathFinder.find_spec(
                name, [self.directory], target
            )
        return None


def _provide_hypothesis():
    try:
        import hypothesis  # noqa

        return
    except ImportError:
        pass
    names = {"hypothesis", "sortedcontainers", "attr", "attrs",
             "_hypothesis_pytestplugin", "_hypothesis_ftz_detector",
             "_hypothesis_globals"}
    vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if os.path.isdir(os.path.join(vt, "hypothesis")):
        sys.meta_path.append(_OnlyFinder(vt, names))
    else:
        import glob
        import zipfile

        tmp = tempfile.mkdtemp(prefix="hyp")
        for pat in ("hypothesis-*cp312*.whl", "sortedcontainers-*.whl",
                    "attrs-*.whl"):
            for w in glob.glob("/opt/veriftools/wheels/" + pat):
                zipfile.ZipFile(w).extractall(tmp)
        sys.meta_path.append(_OnlyFinder(tmp, names))
    import hypothesis  # noqa


def setup_env():
    """Make hypothesis and /repo's current sources importable."""
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    if SRC in sys.path:
        sys.path.remove(SRC)
    sys.path.insert(0, SRC)
    if not os.path.exists(os.path.join(SRC, "qutip_qtrl", "version.py")):
        m = types.ModuleType("qutip_qtrl.version")
        m.version = m.short_version = "0+check"
        m.release = False
        sys.modules["qutip_qtrl.version"] = m
    warnings.simplefilter("ignore")
    _provide_hypothesis()
    import qutip_qtrl

    assert qutip_qtrl.__file__.startswith(SRC + "/"), qutip_qtrl.__file__
    import logging

    import qutip_qtrl.logging_utils as lu

    lu.get_logger().setLevel(logging.ERROR)
    logging.getLogger().setLevel(logging.CRITICAL)


# --------------------------------------------------------------------------
# verdicts
# --------------------------------------------------------------------------
class Violation(Exception):
    """The property does not hold for this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The case turned out to be outside of the domain (counts as trivial)."""


class TimeOut(BaseException):
    """A case takes thousands of times longer than it should."""


def _alarm(signum, frame):
    raise TimeOut()


class Part:
    def __init__(self, name, strategy, check, quick, thorough=None,
                 classes=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12


class Rec:
    """Per-shard record: classes seen, non-trivial cases, samples."""

    def __init__(self):
        self.labels = {}
        self.nontrivial = set()
        self.evaluations = 0
        self.samples = []
        self.known = {}
        self._nt = False

    def label(self, *names):
        for n in names:
            self.labels[str(n)] = self.labels.get(str(n), 0) + 1

    def trivial(self):
        self._nt = False


def short(case, n=1500):
    s = json.dumps(case, sort_keys=True, default=str)
    if len(s) <= n:
        return case
    return s[:n] + "..."


def in_repo_tb(exc):
    """Does the traceback of exc pass through the code under test?"""
    tb = exc.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(SRC + "/qutip_qtrl"):
            return True
        tb = tb.tb_next
    return False


def load_known(pid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {
        d["key"]: d["what"]
        for d in data.get("findings", [])
        if d["property"] == pid and d.get("status") == "known"
    }


def run_case(part, case, rec, known):
    """Run one case; raise Violation or a harness error."""
    rec._nt = True
    import numpy as np

    np.random.seed(0)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
            try:
                part.check(case, rec)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except TimeOut as e:
            if in_repo_tb(e):
                raise Violation("no end after %d s" % CASE_SECONDS) from e
            raise
        except Skip as e:
            rec.label("skipped: %s" % e)
            rec.trivial()
        except Violation as e:
            if e.key is not None and e.key in known:
                rec.known[e.key] = rec.known.get(e.key, 0) + 1
                rec._nt = False
                return
            raise
        except Exception as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            if isinstance(e, (MemoryError, OSError, NameError)) and not in_repo_tb(e):
                raise
            # The checks raise nothing on the unchanged tree: a result of
            # the code under test that they cannot even read is wrong too.
            raise Violation(
                "unexpected %s %s: %s\n%s"
                % (type(e).__name__,
                   "from the code under test" if in_repo_tb(e)
                   else "on reading the result", e,
                   "".join(traceback.format_exception(e)[-4:]))
            ) from e


def derive_seed(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def run_shard(mod, tier, seed, shard, nshards, only=None):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as eng

    eng.MAX_SHRINKING_SECONDS = 45
    known = load_known(mod.ID)
    out = dict(evaluations=0, nontrivial=[], labels={}, samples=[],
               violation=None, error=None, parts={}, known={})
    for part in mod.PARTS:
        if only and part.name not in only:
            continue
        n = part.quick if tier == "quick" else part.thorough
        n = max(1, -(-n // nshards))
        n = max(1, int(n * float(os.environ.get("VERIF_SCALE", "1"))))
        rec = Rec()
        last = {}

        def body(case):
            rec.evaluations += 1
            last["case"] = case
            run_case(part, case, rec, known)
            if rec._nt:
                s = json.dumps(case, sort_keys=True, default=str)
                rec.nontrivial.add(hashlib.md5(s.encode()).hexdigest()[:16])
                if len(rec.samples) < 2:
                    rec.samples.append(dict(part=part.name, case=short(case)))

        test = hypothesis.seed(
            derive_seed(seed, mod.ID, part.name, shard)
        )(
            settings(
                max_examples=n, database=None, deadline=None,
                suppress_health_check=list(HealthCheck),
                phases=[Phase.generate, Phase.shrink],
                report_multiple_bugs=False, print_blob=False,
                verbosity=hypothesis.Verbosity.quiet,
            )(given(part.strategy)(body))
        )
        t0 = time.time()
        try:
            test()
        except Violation as e:
            out["violation"] = dict(part=part.name, message=str(e),
                                    case=last["case"])
        except BaseException as e:  # harness error
            v = _find_violation(e)
            if v is not None:
                out["violation"] = dict(part=part.name, message=str(v),
                                        case=last["case"])
            else:
                out["error"] = "".join(traceback.format_exception(e))[-6000:]
        out["evaluations"] += rec.evaluations
        out["nontrivial"] += [part.name + rec_h for rec_h in rec.nontrivial]
        for k, v in rec.labels.items():
            kk = part.name + ":" + k
            out["labels"][kk] = out["labels"].get(kk, 0) + v
        out["samples"] += rec.samples
        for k, v in rec.known.items():
            out["known"][k] = out["known"].get(k, 0) + v
        out["parts"][part.name] = dict(
            evaluations=rec.evaluations, nontrivial=len(rec.nontrivial),
            seconds=round(time.time() - t0, 2))
        if out["violation"] or out["error"]:
            break
    return out


def _find_violation(e, depth=0):
    """A Violation inside an exception group or a hypothesis Flaky report."""
    if isinstance(e, Violation):
        return e
    if depth > 5:
        return None
    if isinstance(e, BaseExceptionGroup):
        for x in e.exceptions:
            v = _find_violation(x, depth + 1)
            if v is not None:
                return v
    for x in (e.__cause__, e.__context__):
        if x is not None:
            v = _find_violation(x, depth + 1)
            if v is not None:
                return v
    return None


def load_module(pid):
    sys.path.insert(0, HERE)
    return importlib.import_module("checks." + pid.lower())


def child_main(argv):
    pid, tier, seed, shard, nshards, outfile = argv[:6]
    only = argv[6].split(",") if len(argv) > 6 and argv[6] else None
    scratch = tempfile.mkdtemp(prefix="vchk_")
    os.chdir(scratch)
    try:
        try:
            setup_env()
            mod = load_module(pid)
            out = run_shard(mod, tier, int(seed), int(shard), int(nshards),
                            only)
        except BaseException as e:
            out = dict(error="".join(traceback.format_exception(e))[-6000:],
                       evaluations=0, nontrivial=[], labels={}, samples=[],
                       violation=None, parts={}, known={})
        with open(outfile, "w") as f:
            json.dump(out, f, default=str)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--only", default="")
    ap.add_argument("--replay")
    ap.add_argument("--labels", action="store_true")
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    pid = a.pid.upper()
    if a.replay:
        return replay(pid, a.replay)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vrun_")
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MPLBACKEND="Agg",
               MPLCONFIGDIR=os.path.join(tmp, "mpl"), TMPDIR=tmp, HOME=tmp)
    procs = []
    for s in range(a.shards):
        of = os.path.join(tmp, "out%d.json" % s)
        err = open(os.path.join(tmp, "err%d" % s), "wb")
        p = subprocess.Popen(
            [PY, os.path.join(HERE, "run.py"), "--child", pid, a.tier,
             str(a.seed), str(s), str(a.shards), of, a.only],
            stdout=subprocess.DEVNULL, stderr=err, env=env, cwd=tmp)
        procs.append((s, p, of))
    outs = {}
    pending = list(procs)
    failing = None
    while pending:
        still = []
        for s, p, of in pending:
            rc = p.poll()
            if rc is None:
                still.append((s, p, of))
                continue
            try:
                with open(of) as f:
                    outs[s] = json.load(f)
            except Exception:
                with open(os.path.join(tmp, "err%d" % s), "rb") as f:
                    tail = f.read()[-3000:].decode(errors="replace")
                outs[s] = dict(error="shard %d ended with %s\n%s" % (
                    s, rc, tail), evaluations=0, nontrivial=[], labels={},
                    samples=[], violation=None, parts={}, known={})
            if outs[s]["violation"] and failing is None:
                failing = s
        pending = still
        if failing is not None:
            for s, p, of in pending:
                p.kill()
                p.wait()
            break
        if pending:
            time.sleep(0.1)
    mod_rule = _rule_of(pid)
    nt = set()
    labels, parts, samples, known = {}, {}, [], {}
    ev = 0
    for s in sorted(outs):
        o = outs[s]
        ev += o["evaluations"]
        nt.update(o["nontrivial"])
        for k, v in o["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in o["parts"].items():
            d = parts.setdefault(k, dict(evaluations=0, seconds=0.0))
            d["evaluations"] += v["evaluations"]
            d["seconds"] = round(max(d["seconds"], v["seconds"]), 2)
        for k, v in o["known"].items():
            known[k] = known.get(k, 0) + v
        for smp in o["samples"]:
            if sum(1 for x in samples if x["part"] == smp["part"]) < 2:
                samples.append(smp)
    for k in parts:
        parts[k]["distinct_nontrivial"] = sum(
            1 for h in nt if h.startswith(k) and len(h) == len(k) + 16)
    wall = time.time() - t0
    viol = outs[failing]["violation"] if failing is not None else None
    ev_path = os.path.join(OUT, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    with open(ev_path, "w") as f:
        json.dump(dict(
            property=pid, tier=a.tier, seed=a.seed, level=LEVEL,
            coverage=dict(evaluations=ev, distinct_nontrivial=len(nt),
                          rule=mod_rule, samples=samples, parts=parts,
                          classes=dict(sorted(labels.items())),
                          known_finding_hits=known),
            wall_s=round(wall, 2), violations=1 if viol else 0), f, indent=1)
        f.write("\n")
    kn = load_known(pid)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (
            pid, kn[k], known[k]))
    rc = 0
    if viol:
        rp = os.path.join(OUT, "replays", "%s_%s.json" % (
            pid, viol["part"]))
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            json.dump(dict(property=pid, part=viol["part"],
                           message=viol["message"], case=viol["case"]), f,
                      indent=1)
            f.write("\n")
        print("part=%s: %s" % (viol["part"], viol["message"][:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc = 1
    else:
        errs = [o["error"] for o in outs.values() if o.get("error")]
        if errs:
            print("CHECK ERROR (%d shards)\n%s" % (len(errs), errs[0]))
            rc = 2
    if rc == 0:
        print("OK property=%s evaluations=%d distinct_nontrivial=%d %.1fs" % (
            pid, ev, len(nt), wall))
    if a.labels:
        print(json.dumps(dict(parts=parts, labels=labels), indent=1,
                         sort_keys=True))
    shutil.rmtree(tmp, ignore_errors=True)
    return rc


def _rule_of(pid):
    """RULE of the property module, read without importing it."""
    import ast

    path = os.path.join(HERE, "checks", pid.lower() + ".py")
    with open(path) as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and any(
            isinstance(t, ast.Name) and t.id == "RULE" for t in node.targets
        ):
            return ast.literal_eval(node.value)
    return ""


def replay(pid, path):
    path = os.path.abspath(path)
    with open(path) as f:
        d = json.load(f)
    scratch = tempfile.mkdtemp(prefix="vchk_")
    os.environ["MPLCONFIGDIR"] = scratch
    os.chdir(scratch)
    try:
        setup_env()
        mod = load_module(pid)
        part = [p for p in mod.PARTS if p.name == d["part"]][0]
        try:
            run_case(part, d["case"], Rec(), load_known(pid))
        except Violation as e:
            print(str(e)[:3000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("OK property=%s: the replayed case passes" % pid)
        return 0
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
