"""Files of amplitudes."""
import os

from hypothesis import strategies as st
import numpy as np

import gens
from build import dynamics
from checks import c14
from checks.c18 import in_scratch, listing
from common import expect
from core import Part
from ref import Prob

ID = "C21"
RULE = ("A case is a random control problem and a list of savings (file name, "
        "times and amplitudes given or not, amplitudes of magnitudes 1e-300 "
        "to 1e300) with changes of the amplitudes and time grid in between, "
        "every file being read back; or one to three runs through an entry "
        "point with an output extension, the files being compared with the "
        "results. Non-trivial: at least one saved amplitude is non-zero "
        "(files), the run changed the amplitudes (runs).")


def read(path):
    """The rows of a tab separated file, as they are written."""
    with open(path) as f:
        lines = f.read().split("\n")
    expect(lines[-1] == "", "%s does not end with a line end" % path)
    return [[float(t) for t in ln.split("\t")] for ln in lines[:-1]]


def six(v):
    return float("%.5e" % v)


def compare(path, times, amps, what):
    rows = read(path)
    amps = np.asarray(amps, dtype=float)
    cols = amps.shape[1] + (times is not None)
    expect(len(rows) == amps.shape[0], "%s: %d rows for %d timeslots"
           % (what, len(rows), amps.shape[0]))
    for k, r in enumerate(rows):
        expect(len(r) == cols, "%s: row %d has %d columns, expected %d"
               % (what, k, len(r), cols))
        want = ([] if times is None else [times[k]]) + list(amps[k])
        for x, y in zip(r, want):
            expect(x == six(y) or abs(x - y) <= 5.001e-6 * abs(y) or
                   np.isnan(x) and np.isnan(y),
                   "%s: row %d is\n%s\nexpected\n%s" % (what, k, r, want))
    # the file can be read the usual way
    got = np.loadtxt(path, ndmin=2)
    expect(got.shape == (amps.shape[0], cols), "%s: loadtxt gives shape %s"
           % (what, got.shape))


def check_files(c, rec):
    in_scratch(lambda tmp, cwd: _files(c, rec, tmp, cwd))


def _files(c, rec, tmp, cwd):
    P = Prob(c["p"])
    dyn = dynamics(P)
    if c["def_name"]:
        dyn.def_amps_fname = c["def_name"]
    files, nz = {}, False
    for i, o in enumerate(c["ops"]):
        what = "saving %d" % i
        if o["op"] == "amps":
            dyn.update_ctrl_amps(np.array(o["a"], dtype=float))
            continue
        if o["op"] == "init":
            dyn.tau = np.array(o["tau"])
            dyn.initialize_controls(np.array(o["a"], dtype=float))
            continue
        kw, name = {}, dyn.def_amps_fname
        if o["name"]:
            name = os.path.join(tmp, o["name"]) if o["abs"] else o["name"]
            kw["file_name"] = name
        now = np.array(dyn.ctrl_amps)
        amps = now
        times = np.concatenate([[0.0], np.cumsum(np.asarray(
            dyn.tau, dtype=float))])[:-1]
        tm = o["times"]
        if o["amps"] is not None:
            amps = np.array(o["amps"], dtype=float)
            kw["amps"] = amps.copy()
            if amps.shape[0] != now.shape[0] and tm is None:
                tm = "given"
        if tm in ("exclude", "EXCLUDE", "Exclude"):
            kw["times"], times = tm, None
        elif tm == "unknown":
            kw["times"] = "no such option"
            if amps.shape[0] != now.shape[0]:
                continue
        elif tm in ("given", "list"):
            times = np.resize(np.array(o["tv"], dtype=float), amps.shape[0])
            kw["times"] = times.copy() if tm == "given" else list(times)
        if o["verbose"] is not None:
            kw["verbose"] = o["verbose"]
        dyn.save_amps(**kw)
        files[os.path.join(cwd, name)] = (times, amps, what)
        for k in ("amps", "times"):
            if isinstance(kw.get(k), np.ndarray):
                expect(np.array_equal(kw[k], amps if k == "amps" else times,
                                      equal_nan=True), what + ": argument "
                       + k + " was changed")
        expect(np.array_equal(dyn.ctrl_amps, now, equal_nan=True),
               what + " changed the amplitudes")
        nz = nz or bool(np.abs(amps).max() > 0)
        rec.label("times " + str(o["times"]),
                  "amps given" if o["amps"] is not None else "amps current")
        for f, v in files.items():
            expect(os.path.isfile(f), "%s: no file %s; there are %s %s"
                   % (what, f, listing(cwd), listing(tmp)))
            compare(f, *v[:2], v[2] + ": " + f)
        got = {os.path.join(tmp, f) for f in listing(tmp)}
        expect(got == set(files), "%s: files are %s, expected %s"
               % (what, sorted(got), sorted(files)))
    if not nz:
        rec.trivial()


VAL = st.one_of(
    st.floats(-10, 10), st.floats(-1e6, 1e6),
    st.floats(allow_nan=False, allow_infinity=False),
    st.sampled_from([0.0, -0.0, 1e-300, -1e300, 0.1, 1.0000005, 999999.5,
                     -1e-5, 123456.7, 1e100, -9.999995e-100]))


@st.composite
def mat(draw, r, c):
    return [[draw(VAL) for _ in range(c)] for _ in range(r)]


@st.composite
def op(draw, nts, nc):
    k = draw(st.sampled_from(["save"] * 4 + ["amps", "amps", "init"]))
    o = dict(op=k)
    if k == "amps":
        o["a"] = draw(mat(nts, nc))
    elif k == "init":
        n = nts
        o["tau"] = [x / 16.0 for x in draw(st.lists(
            st.integers(1, 40), min_size=n, max_size=n))]
        o["a"] = draw(mat(n, nc))
    else:
        o["name"] = draw(st.sampled_from([None, "a.txt", "b.dat", "c",
                                          "sp ace.txt"]))
        o["abs"] = draw(st.booleans())
        o["times"] = draw(st.sampled_from(
            [None, None, "exclude", "EXCLUDE", "Exclude", "unknown", "given",
             "list"]))
        o["amps"] = None
        if draw(st.booleans()):
            o["amps"] = draw(mat(draw(st.integers(1, 6)),
                                 draw(st.integers(1, 4))))
        o["tv"] = [draw(VAL) for _ in range(8)]
        o["verbose"] = draw(st.sampled_from([None, True, False]))
    return o


@st.composite
def files_case(draw):
    p = draw(gens.problem_cfg(
        max_ts=5, dims=(2,), big=40,
        big_kw=dict(kinds=("slots", "ctrls"), max_ts=30)))
    if p["td"] or p["tc"]:
        # the number of slots may not change with these
        pass
    return dict(p=p, def_name=draw(st.sampled_from([None, None, "mine.txt"])),
                ops=draw(st.lists(op(p["nts"], p["nc"]), min_size=1,
                                  max_size=5)))


# ------------------------------------------------------------------------ runs
def check_runs(c, rec):
    in_scratch(lambda tmp, cwd: _runs(c, rec, cwd))


def _runs(c, rec, cwd):
    P = Prob(c["c"]["p"])
    want, moved = {}, False
    for i, r in enumerate(c["runs"]):
        ext = r["ext"]
        eps = [e for e in c14.entry_points(c["c"], P, out_file_ext=ext)
               if "factory" not in e[0] and e[0] != "create_pulse_optimizer"]
        name, f = eps[r["ep"] % len(eps)]
        np.random.seed(r["seed"])
        res = f()
        if not np.isfinite(res.final_amps).all():
            rec.label("not finite")
            rec.trivial()
            return
        rec.label(name)
        if ext is not None:
            want["ctrl_amps_initial_" + ext] = (res.time[:-1],
                                                res.initial_amps)
            want["ctrl_amps_final_" + ext] = (res.time[:-1], res.final_amps)
        what = "run %d (%s)" % (i, name)
        files = listing(cwd)
        expect(files == set(want), "%s: files are %s, expected %s"
               % (what, sorted(files), sorted(want)))
        for f, v in want.items():
            compare(f, v[0], v[1], what + ": " + f)
        moved = moved or not np.array_equal(res.initial_amps, res.final_amps)
    if not moved or not want:
        rec.trivial()


RUNS = st.fixed_dictionaries(dict(
    c=c14.agree_case(),
    runs=st.lists(st.fixed_dictionaries(dict(
        ext=st.sampled_from([None, "a.txt", "a.txt", "b.dat", "", "x y"]),
        ep=st.integers(0, 9), seed=st.integers(0, 9))),
        min_size=1, max_size=3)))

PARTS = [Part("files", files_case(), check_files, 4000, 60000),
         Part("runs", RUNS, check_runs, 600, 6000)]
