"""Dumped data and dump files."""
import os
import re
import tempfile
import timeit

from hypothesis import strategies as st
import numpy as np
from qutip import Qobj
import qutip_qtrl.io as qtrlio
import qutip_qtrl.optimconfig as optimconfig

import gens
import runs
from build import arr, optimizer
from common import expect
from core import Part, Violation
from ref import Prob, evolve

ID = "C18"
RULE = ("A case is a random control problem, dumping levels (or selections) "
        "for dynamics and optimiser, file options and a list of operations "
        "(error and gradient callbacks with new, changed or the same "
        "amplitudes, iteration callbacks, changes of level or selection, "
        "clearing); or a whole optimisation run. Recorded items are compared "
        "with copies taken from the public attributes when they were made, "
        "files are parsed and compared with the items. Non-trivial: at least "
        "two evolutions are computed while something is dumped. Part dirs: "
        "output directories that are new, exist or are blocked by a file, "
        "given in every form; non-trivial unless nothing is to be made.")

KINDS = [("dump_amps", "ctrl_amps"), ("dump_dyn_gen", "dyn_gen"),
         ("dump_prop", "prop"), ("dump_prop_grad", "prop_grad"),
         ("dump_fwd_evo", "fwd_evo"), ("dump_onwd_evo", "onwd_evo"),
         ("dump_onto_evo", "onto_evo")]
OLOGS = ["dump_fid_err", "dump_grad_norm", "dump_grad"]


# ------------------------------------------------------------------ settings
def apply_level(host, s, flags):
    """Set the level (and selection) s on host; returns flags in force."""
    lvl = s["level"]
    if lvl is None:
        host.dumping = None
        return None
    host.dumping = lvl.lower() if s.get("lower") else lvl
    up = lvl.upper()
    if up == "NONE":
        return None
    if up == "FULL":
        cur = {f: True for f in flags}
    elif up == "SUMMARY" or s["was"] != "CUSTOM":
        cur = {f: False for f in flags}
    else:
        cur = dict(s["old"])    # CUSTOM again: selection kept
    if up != "CUSTOM" or s["was"] != "CUSTOM":
        cur["dump_summary"] = True
    if up == "CUSTOM":
        for f, v in s["sel"].items():
            if f in cur:
                setattr(host.dump, f, v)
                cur[f] = v
    return cur


def check_level(host, cur, flags, what):
    if cur is None:
        expect(host.dump is None and host.dumping == "NONE",
               "%s: dumping is %s, not NONE" % (what, host.dumping))
        return
    for f in cur:
        if f in ("dump_onwd_evo", "dump_onto_evo"):
            continue            # only in force when used
        expect(bool(getattr(host.dump, f)) == bool(cur[f]),
               "%s: %s is %s" % (what, f, getattr(host.dump, f)))


def level_name(cur, used):
    if cur["dump_summary"] and not any(cur[f] for f in cur
                                       if f != "dump_summary"):
        return "SUMMARY"
    if cur["dump_summary"] and all(cur[f] for f in used):
        return "FULL"
    return "CUSTOM"


# --------------------------------------------------------------------- files
NUM = re.compile(r"^\s*[-+(]?\d|^\s*\(?[-+]?(\d|inf|nan)")


def cnum(s):
    s = s.strip()
    if s.startswith("("):
        s = s[1:-1].replace("+-", "-")
    return complex(s)


def parse(path_or_bytes, sep):
    """Blocks [(heading or None, rows)] of a file of headings and numbers."""
    if isinstance(path_or_bytes, bytes):
        text = path_or_bytes.decode()
    else:
        with open(path_or_bytes) as f:
            text = f.read()
    blocks = []
    for ln in text.splitlines():
        if not ln.strip():
            continue
        if NUM.match(ln):
            if not blocks:
                blocks.append([None, []])
            toks = ln.split() if sep == " " else ln.split(sep)
            blocks[-1][1].append([cnum(t) for t in toks])
        else:
            blocks.append([ln, []])
    return blocks


def item_blocks(item):
    """What one item must contain: kind -> list of matrices."""
    d = {}
    for _, k in KINDS:
        v = getattr(item, k)
        if v is None:
            continue
        if k == "ctrl_amps":
            d[k] = [np.array(v)]
        elif k == "prop_grad":
            d[k] = [arr(v[i, j]) for i in range(v.shape[0])
                    for j in range(v.shape[1])]
        else:
            d[k] = [arr(x) for x in v]
    return d


def match(rows, a, tol, what):
    a = np.asarray(a)
    if a.ndim == 1:
        a = a[:, None]
    if len(rows) != a.shape[0] or any(len(r) != a.shape[1] for r in rows):
        raise Violation("%s: the file has %s rows, the recorded array shape "
                        "%s" % (what, [len(r) for r in rows], a.shape))
    b = np.array(rows).reshape(a.shape)
    bad = np.abs(a - b) > tol * np.maximum(np.abs(a), 1e-300)
    if bad.any():
        raise Violation("%s: the file has\n%s\nrecorded is\n%s"
                        % (what, b, a))


def amps_tol(k):
    return 6e-6 if k == "ctrl_amps" else 1e-14


def check_summary_lines(lines, summaries, sep, what):
    names = summaries[0].summary_property_names if summaries else None
    if not summaries:
        expect(not lines, "%s: %d lines for no summaries"
               % (what, len(lines)))
        return
    split = (lambda s: s.split()) if sep == " " else (
        lambda s: s.split(sep))
    expect(tuple(split(lines[0])) == tuple(names),
           "%s: heading %r" % (what, lines[0]))
    expect(len(lines) == 1 + len(summaries), "%s: %d value lines for %d "
           "summaries" % (what, len(lines) - 1, len(summaries)))
    for ln, s in zip(lines[1:], summaries):
        toks = split(ln)
        expect(len(toks) == len(names), "%s: line %r" % (what, ln))
        for n, t in zip(names, toks):
            v = getattr(s, n)
            t = t.strip()
            if v is None:
                ok = t == "None"
            elif not np.isfinite(float(v)):
                ok = str(float(t)) == str(float(v))
            else:
                ok = abs(float(t) - float(v)) <= 0.06 * abs(float(v)) \
                    if n == "wall_time" else \
                    abs(float(t) - float(v)) <= 6e-3 * abs(float(v))
            expect(ok, "%s: %s is %s in the file, %r recorded"
                   % (what, n, t, v))


def read_lines(path):
    with open(path) as f:
        return [ln for ln in f.read().splitlines() if ln.strip()]


def check_summary_file(path, summaries, dump, what):
    """A summary file named by the user."""
    if os.path.exists(path) or summaries:
        expect(os.path.isfile(path), "%s: no summary file %s" % (what, path))
        check_summary_lines(read_lines(path), summaries, dump.summary_sep,
                            what + ": " + path)


def check_dyn_dir(d, dump, what, summary=True, named=None):
    """The files in d are exactly those of the dynamics dump."""
    if named:
        check_summary_file(named, dump.evo_summary, dump, what)
    want = {}
    for it in dump.evo_dumps:
        for k, ms in item_blocks(it).items():
            want["%s-evo%d-%s.%s" % (dump.fname_base, it.idx, k,
                                     dump.dump_file_ext)] = (k, ms)
    sm = "%s-summary.%s" % (dump.fname_base, dump.dump_file_ext)
    files = set(os.listdir(d))
    names = set(want)
    if named:
        files.discard(os.path.relpath(named, d))
        expect(sm not in files, "%s: summary in %s, not in %s" % (
            what, sm, named))
    elif dump.evo_summary and summary or sm in files:
        names.add(sm)
    if files != names:
        raise Violation("%s: files missing %s, unexpected %s" % (
            what, sorted(names - files), sorted(files - names)))
    for n, (k, ms) in want.items():
        bl = [b for b in parse(os.path.join(d, n), dump.data_sep) if b[1]]
        expect(len(bl) == len(ms), "%s: %s has %d arrays, %d recorded"
               % (what, n, len(bl), len(ms)))
        for b, m in zip(bl, ms):
            match(b[1], m, amps_tol(k), "%s: %s (%s)" % (what, n, b[0]))
    if sm in files:
        check_summary_lines(read_lines(os.path.join(d, sm)),
                            dump.evo_summary, dump.summary_sep,
                            what + ": " + sm)


def check_optim_dir(d, dump, what, named=None):
    if named:
        check_summary_file(named, dump.iter_summary, dump, what)
    base, ext = dump.fname_base, dump.dump_file_ext
    want = {}
    if dump.fid_err_log:
        want["%s-fid_err_log.%s" % (base, ext)] = np.array(dump.fid_err_log)
    if dump.grad_norm_log:
        want["%s-grad_norm_log.%s" % (base, ext)] = np.array(
            dump.grad_norm_log)
    for i, g in enumerate(dump.grad_log):
        want["%s-fid_err_gradients%d.%s" % (base, i + 1, ext)] = g
    sm = "%s-summary.%s" % (base, ext)
    files = set(os.listdir(d))
    names = set(want)
    if named:
        files.discard(os.path.relpath(named, d))
        expect(sm not in files, "%s: summary in %s, not in %s" % (
            what, sm, named))
    elif dump.iter_summary or sm in files:
        names.add(sm)
    for n in files - names:
        # logs written out empty
        if n in ("%s-fid_err_log.%s" % (base, ext),
                 "%s-grad_norm_log.%s" % (base, ext)) and \
                not read_lines(os.path.join(d, n)):
            names.add(n)
    if files != names:
        raise Violation("%s: files missing %s, unexpected %s" % (
            what, sorted(names - files), sorted(files - names)))
    for n, a in want.items():
        bl = parse(os.path.join(d, n), dump.data_sep)
        expect(len(bl) == 1, "%s: %s has %d blocks" % (what, n, len(bl)))
        match(bl[0][1], a, 1e-14, what + ": " + n)
    if sm in files:
        check_summary_lines(read_lines(os.path.join(d, sm)),
                            dump.iter_summary, dump.summary_sep,
                            what + ": " + sm)


def check_single(data, dump, kind, what):
    """Everything written to one file or stream."""
    text = data.decode()
    summ = dump.evo_summary if kind == "dyn" else dump.iter_summary
    lines = [ln for ln in text.splitlines() if ln.strip()]
    n = 0
    if dump.dump_summary and summ:
        n = 1 + len(summ)
        check_summary_lines(lines[:n], summ, dump.summary_sep, what)
    rest = "\n".join(lines[n:]).encode()
    want = []
    if kind == "dyn":
        for it in dump.evo_dumps:
            for k, ms in item_blocks(it).items():
                want += [(m, amps_tol(k)) for m in ms]
        bl = [b for b in parse(rest, dump.data_sep) if b[1]]
    else:
        if dump.dump_fid_err and dump.fid_err_log:
            want.append((np.array(dump.fid_err_log), 1e-14))
        if dump.dump_grad_norm and dump.grad_norm_log:
            want.append((np.array(dump.grad_norm_log), 1e-14))
        if dump.dump_grad:
            want += [(g, 1e-14) for g in dump.grad_log]
        bl = [b for b in parse(rest, " ") if b[1]]
    expect(len(bl) == len(want), "%s: %d arrays in the file, %d recorded"
           % (what, len(bl), len(want)))
    for b, (m, t) in zip(bl, want):
        match(b[1], m, t, "%s: %s" % (what, b[0]))


def writeouts(dump, kind, how, tmp, what):
    """Write everything out explicitly and compare."""
    d = tempfile.mkdtemp(dir=tmp)
    if how == "dir":
        dump.dump_dir = d
        dump.writeout()
        keep = dump.dump_summary
        if kind == "dyn":
            check_dyn_dir(d, dump, what + " written out", keep)
        else:
            _optim_written(d, dump, what + " written out")
        expect(keep == dump.dump_summary, "writeout changed the settings")
        return
    path = os.path.join(d, "all.txt")
    if how == "file":
        dump.writeout(path)
    else:
        with open(path, "wb") as f:
            dump.writeout(f)
            expect(not f.closed, "the stream given was closed")
    expect(os.listdir(d) == ["all.txt"], "other files were written")
    with open(path, "rb") as f:
        check_single(f.read(), dump, kind, what + " written to one file")


def _optim_written(d, dump, what):
    # logs whose dumping is off are not written out
    view = type("View", (), {})()
    view.fname_base, view.dump_file_ext = dump.fname_base, dump.dump_file_ext
    view.data_sep, view.summary_sep = dump.data_sep, dump.summary_sep
    view.fid_err_log = dump.fid_err_log if dump.dump_fid_err else []
    view.grad_norm_log = dump.grad_norm_log if dump.dump_grad_norm else []
    view.grad_log = dump.grad_log if dump.dump_grad else []
    view.iter_summary = dump.iter_summary if dump.dump_summary else []
    check_optim_dir(d, view, what)


# ------------------------------------------------------------------ snapshot
def snap(dyn, cur):
    """Copies of what is exposed now, of the kinds selected."""
    fc = dyn.fid_computer
    out = {}
    for f, k in KINDS:
        v = None
        if cur[f]:
            if k == "ctrl_amps":
                v = np.array(dyn.ctrl_amps)
            elif k == "prop_grad":
                if dyn.prop_computer.grad_exact and dyn.cache_prop_grad:
                    q = dyn.prop_grad
                    v = [arr(q[i, j]).copy() for i in range(len(q))
                         for j in range(len(q[i]))]
            elif k == "onwd_evo" and not fc.uses_onwd_evo:
                v = None
            elif k == "onto_evo" and not fc.uses_onto_evo:
                v = None
            else:
                v = [arr(x).copy() for x in getattr(dyn, k)]
        out[k] = v
    return out


def check_item(item, want, what):
    got = item_blocks(item)
    for k, v in want.items():
        if v is None:
            expect(k not in got, "%s: %s is recorded although it is not "
                   "selected" % (what, k))
            continue
        expect(k in got, "%s: %s is not recorded" % (what, k))
        g = got[k]
        if k == "ctrl_amps":
            expect(np.array_equal(g[0], v), "%s: recorded amplitudes\n%s\n"
                   "were\n%s" % (what, g[0], v))
            continue
        expect(len(g) == len(v), "%s: %d entries of %s, %d computed"
               % (what, len(g), k, len(v)))
        for i, (x, y) in enumerate(zip(g, v)):
            if x.shape != y.shape or np.abs(x - y).max() > 1e-12 * (
                    1 + np.abs(y).max()):
                raise Violation("%s: recorded %s[%d]\n%s\nwas\n%s"
                                % (what, k, i, x, y))


class Hist:
    """Expected contents of both dumps."""

    def __init__(self):
        self.items, self.evo, self.err, self.gn, self.g, self.it = (
            [], [], [], [], [], [])


def compare(dyn, opt, h, dcur, ocur, what):
    dd, od = dyn.dump, opt.dump
    if dcur is not None:
        expect(len(dd.evo_dumps) == len(h.items), "%s: %d dump items, %d "
               "evolutions dumped" % (what, len(dd.evo_dumps), len(h.items)))
        for i, (a, b) in enumerate(zip(dd.evo_dumps, h.items)):
            expect(a.idx == i, "%s: item %d has index %r" % (what, i, a.idx))
            check_item(a, b, "%s: item %d" % (what, i))
        expect(len(dd.evo_summary) == len(h.evo), "%s: %d evolution "
               "summaries, expected %d" % (what, len(dd.evo_summary),
                                           len(h.evo)))
        for i, (a, b) in enumerate(zip(dd.evo_summary, h.evo)):
            for n, v in dict(b, idx=i).items():
                expect(getattr(a, n) == v, "%s: %s of evolution summary %d "
                       "is %r, expected %r" % (what, n, i, getattr(a, n),
                                               v))
    if ocur is not None:
        for name, want in (("fid_err_log", h.err), ("grad_norm_log", h.gn)):
            got = [float(x) for x in getattr(od, name)]
            expect(got == want, "%s: %s is %s, expected %s"
                   % (what, name, got, want))
        expect(len(od.grad_log) == len(h.g), "%s: %d gradients, expected %d"
               % (what, len(od.grad_log), len(h.g)))
        for i, (a, b) in enumerate(zip(od.grad_log, h.g)):
            expect(np.array_equal(a, b), "%s: gradient %d is\n%s\nit was\n%s"
                   % (what, i, a, b))
        expect(len(od.iter_summary) == len(h.it), "%s: %d iteration "
               "summaries, expected %d" % (what, len(od.iter_summary),
                                           len(h.it)))
        for i, (a, b) in enumerate(zip(od.iter_summary, h.it)):
            for n, v in dict(b, idx=i).items():
                expect(getattr(a, n) == v, "%s: %s of iteration summary %d "
                       "is %r, expected %r" % (what, n, i, getattr(a, n),
                                               v))


DFLAGS = [f for f, _ in KINDS]


def setup_files(host, c, d, cwd, base):
    """Ask for files in a directory named in one of the ways accepted."""
    how = c["dir"]
    if how == "abs":
        path = real = os.path.join(d, base, "x")
    elif how == "rel":
        path = os.path.join(base, "y")
        real = os.path.join(cwd, path)
    else:
        path = "~/" + base
        real = os.path.expanduser(path)
    host.dump_to_file = True
    host.dump_dir = path
    if host.dump is not None:
        if c["sep"] != " ":
            host.dump.summary_sep = c["sep"]
            host.dump.data_sep = c["sep"]
        if c["ext"]:
            host.dump.dump_file_ext = c["ext"]
        if c["base"]:
            # (the name of the summary file follows, also if asked before)
            host.dump.summary_file
            host.dump.fname_base = c["base"] + base
    k, name, named = c.get("summ"), base + "_s.txt", None
    if k and host.dump is not None:
        if k == "abs":
            named = path = os.path.join(cwd, "s_" + name)
        elif k == "home":
            path, named = "~/" + name, os.path.join(
                os.path.expanduser("~"), name)
        else:
            path, named = name, os.path.join(real, name)
        host.dump.summary_file = path
    return real, named


STALE = "123.5 7.25\n"
OLD = ["%s-fid_err_log.%s", "%s-grad_norm_log.%s", "%s-summary.%s",
       "%s-fid_err_gradients1.%s", "%s-evo0-ctrl_amps.%s",
       "%s-evo0-prop.%s"]


def leave_old(d, dump):
    """Files of an earlier session."""
    for n in OLD:
        with open(os.path.join(d, n % (dump.fname_base,
                                       dump.dump_file_ext)), "w") as f:
            f.write(STALE)


def drop_old(d):
    """Remove those which were not replaced."""
    for n in os.listdir(d):
        with open(os.path.join(d, n)) as f:
            if f.read() != STALE:
                continue
        os.remove(os.path.join(d, n))


def listing(d):
    out = set()
    for r, _, fs in os.walk(d):
        out.update(os.path.relpath(os.path.join(r, f), d) for f in fs)
    return out


def in_scratch(f):
    """Run f with cwd and home in scratch directories."""
    old, home = os.getcwd(), os.environ.get("HOME")
    with tempfile.TemporaryDirectory() as tmp:
        cwd, hm = os.path.join(tmp, "cwd"), os.path.join(tmp, "home")
        os.mkdir(cwd)
        os.mkdir(hm)
        os.chdir(cwd)
        os.environ["HOME"] = hm
        try:
            return f(tmp, cwd)
        finally:
            os.chdir(old)
            if home is not None:
                os.environ["HOME"] = home


def check(c, rec):
    in_scratch(lambda tmp, cwd: _check(c, rec, tmp, cwd))


def _check(c, rec, tmp, cwd):
    P = Prob(c["p"])
    opt = optimizer(P, gen_stats=c["stats"])
    dyn = opt.dynamics
    tc = opt.termination_conditions
    tc.fid_err_targ, tc.min_gradient_norm = -1.0, -1.0
    tc.max_fid_func_calls = 10 ** 9
    dcur = apply_level(dyn, dict(c["dyn"], was=None), DFLAGS)
    ocur = apply_level(opt, dict(c["opt"], was=None), OLOGS)
    dlev, olev = c["dyn"]["level"], c["opt"]["level"]
    check_level(dyn, dcur, DFLAGS, "at first")
    check_level(opt, ocur, OLOGS, "at first")
    real = {}
    files = c["files"]
    if files:
        # naming a directory switches summaries on
        if dcur is None:
            dcur = dict({f: False for f in DFLAGS}, dump_summary=True)
            dlev = "SUMMARY"
        if ocur is None:
            ocur = dict({f: False for f in OLOGS}, dump_summary=True)
            olev = "SUMMARY"
        real["dyn"], nd = setup_files(dyn, files, tmp, cwd, "dyn")
        real["opt"], no = setup_files(opt, files, tmp, cwd, "opt")
        if files.get("old"):
            leave_old(real["dyn"], dyn.dump)
            leave_old(real["opt"], opt.dump)
            rec.label("old files")
        rec.label("files " + files["dir"])
    used = [f for f in DFLAGS if not (
        f == "dump_onwd_evo" and not dyn.fid_computer.uses_onwd_evo
        or f == "dump_onto_evo" and not dyn.fid_computer.uses_onto_evo)]
    dyn.initialize_controls(np.array(P.amps))
    opt.init_optim(tc)
    opt.wall_time_optimize_start = timeit.default_timer()
    h = Hist()
    cur, fresh = np.array(P.amps), True
    nf = ng = ni = 0
    # what the optimiser's summary holds; it exists while dumping is on
    summ = dict(iter_num=None, fid_func_call_num=None,
                grad_func_call_num=None, fid_err=None, grad_norm=None)
    has_summ = ocur is not None
    computed = dumped = 0
    for i, o in enumerate(c["ops"]):
        t, what = o["op"], "step %d (%s)" % (i, o["op"])
        if t in ("err", "grad"):
            a = cur.copy()
            if o["how"] == "new":
                a = np.resize(np.array(o["a"], float), a.shape)
            elif o["how"] == "one":
                a[o["k"] % a.shape[0], o["j"] % a.shape[1]] += 0.25
            changed = int((a != cur).sum())
            chts = int((a != cur).any(axis=1).sum())
            if t == "err":
                v = opt.fid_err_func_wrapper(a.ravel().copy())
                nf += 1
            else:
                v = opt.fid_err_grad_wrapper(a.ravel().copy())
                ng += 1
            if changed or fresh:
                computed += 1
                if dcur is not None:
                    item = None
                    if any(dcur[f] for f in DFLAGS):
                        item = len(h.items)
                        h.items.append(snap(dyn, dcur))
                        dumped += 1
                    if dcur["dump_summary"]:
                        e = dict(num_amps_changed=changed,
                                 num_timeslots_changed=chts,
                                 evo_dump_idx=item)
                        if c["stats"]:
                            e.update(iter_num=ni, fid_func_call_num=nf,
                                     grad_func_call_num=ng)
                        else:
                            e.update(iter_num=None, fid_func_call_num=None,
                                     grad_func_call_num=None)
                        h.evo.append(e)
                        dumped += 1
            cur, fresh = a, False
            if t == "err":
                if has_summ:
                    summ.update(fid_func_call_num=nf, fid_err=v)
                if ocur is not None and ocur["dump_fid_err"]:
                    h.err.append(float(v))
                    dumped += 1
            else:
                gn = float(dyn.fid_computer.grad_norm)
                if has_summ:
                    summ.update(grad_func_call_num=ng, grad_norm=gn)
                if ocur is not None and ocur["dump_grad_norm"]:
                    h.gn.append(gn)
                    dumped += 1
                if ocur is not None and ocur["dump_grad"]:
                    h.g.append(np.array(v).reshape(cur.shape))
                    dumped += 1
        elif t == "flag":
            dyn.flag_system_changed()
            fresh = True
        elif t == "init":
            dyn.initialize_controls(cur.copy())
            fresh = True
        elif t == "iter":
            if ocur is not None and not has_summ:
                continue
            opt.iter_step_callback_func(cur.ravel().copy())
            ni += 1
            if has_summ:
                summ["iter_num"] = ni
                if ocur is not None and ocur["dump_summary"]:
                    h.it.append(dict(summ))
                    dumped += 1
        elif t == "dyn":
            if dcur is None and files:
                continue
            s = dict(o["s"], was=dlev, old=dcur)
            if files and (s["level"] or "NONE").upper() == "NONE":
                continue        # a new dump would write elsewhere
            had = dcur is not None
            if not had:
                s["was"] = None
            dcur = apply_level(dyn, s, DFLAGS)
            dlev = (s["level"] or "NONE").upper()
            if dcur is None or not had:
                h.items, h.evo = [], []
            check_level(dyn, dcur, DFLAGS, what)
        elif t == "opt":
            s = dict(o["s"], was=olev, old=ocur)
            if files and (s["level"] or "NONE").upper() == "NONE":
                continue
            had = ocur is not None
            if not had:
                s["was"] = None
            ocur = apply_level(opt, s, OLOGS)
            olev = (s["level"] or "NONE").upper()
            if ocur is None or not had:
                h.err, h.gn, h.g, h.it = [], [], [], []
            check_level(opt, ocur, OLOGS, what)
        elif t == "clear" and not files:
            if dcur is not None:
                dyn.dump.clear()
            if ocur is not None:
                opt.dump.clear()
            h.__init__()
        if dcur is not None:
            want = level_name(dcur, used)
            if any(dcur[f] for f in used) == any(dcur[f] for f in DFLAGS):
                expect(dyn.dumping == want, "%s: dumping is %s, expected %s"
                       % (what, dyn.dumping, want))
        if ocur is not None:
            want = level_name(ocur, OLOGS)
            expect(opt.dumping == want, "%s: dumping is %s, expected %s"
                   % (what, opt.dumping, want))
        rec.label(t)
    compare(dyn, opt, h, dcur, ocur, "at the end")
    home = os.environ["HOME"]
    if files:
        if files.get("old"):
            drop_old(real["dyn"])
            drop_old(real["opt"])
        check_dyn_dir(real["dyn"], dyn.dump, "dynamics dump", named=nd)
        check_optim_dir(real["opt"], opt.dump, "optimiser dump", named=no)
        inside = sum(1 for x in (nd, no) if x and os.path.exists(x) and
                     os.path.dirname(x) not in real.values())
        inside += sum(len(os.listdir(r)) for r in real.values())
        n = len(listing(cwd)) + len(listing(home)) + len(
            listing(os.path.join(tmp, "dyn"))) + len(
            listing(os.path.join(tmp, "opt")))
        expect(n == inside, "files were written outside %s: %s %s"
               % (real, listing(cwd), listing(home)))
    else:
        expect(not listing(cwd) and not listing(home),
               "files were written although not asked for: %s %s"
               % (listing(cwd), listing(home)))
    for how in c["write"]:
        if how == "dir" and files and files.get("summ"):
            continue            # the named file would be written again
        if dcur is not None:
            writeouts(dyn.dump, "dyn", how, tmp, "dynamics dump")
        if ocur is not None:
            writeouts(opt.dump, "opt", how, tmp, "optimiser dump")
        rec.label("written out to " + how)
    compare(dyn, opt, h, dcur, ocur, "after writing out")
    rec.label("dyn " + str(dlev), "opt " + str(olev))
    if computed < 2 or not dumped:
        rec.trivial()


# ------------------------------------------------------------------ strategy
@st.composite
def level(draw, flags):
    lvl = draw(st.sampled_from(["NONE", "SUMMARY", "FULL", "FULL", "CUSTOM",
                                "CUSTOM", "CUSTOM", None]))
    sel = {}
    if lvl == "CUSTOM":
        for f in flags + ["dump_summary"]:
            if draw(st.booleans()):
                sel[f] = draw(st.booleans())
    return dict(level=lvl, sel=sel, lower=draw(st.integers(0, 5)) == 0)


@st.composite
def op(draw, nts, nc):
    t = draw(st.sampled_from(["err", "err", "err", "grad", "grad", "grad",
                              "iter", "iter", "dyn", "opt", "clear", "flag",
                              "init"]))
    o = dict(op=t)
    if t in ("err", "grad"):
        o["how"] = draw(st.sampled_from(["new", "one", "same"]))
        if o["how"] == "new":
            o["a"] = draw(gens.amplitudes(nts, nc))
        elif o["how"] == "one":
            o["k"], o["j"] = draw(st.integers(0, 9)), draw(
                st.integers(0, 9))
    elif t == "dyn":
        o["s"] = draw(level(DFLAGS))
    elif t == "opt":
        o["s"] = draw(level(OLOGS))
    return o


@st.composite
def ops(draw, nts, nc):
    out = draw(st.lists(op(nts, nc), min_size=2, max_size=10))
    if draw(st.integers(0, 9)) == 4:
        # a long history: more than ten, up to a hundred of a kind
        more = [o for o in out if o["op"] not in ("clear", "opt", "dyn")]
        for i in range(draw(st.integers(4, 24))):
            for k, o in enumerate(more[:5]):
                o = dict(o)
                if o.get("how") == "same":
                    o.update(how="one", k=i, j=k)
                out.append(o)
    return out


FILES = st.fixed_dictionaries(dict(
    dir=st.sampled_from(["abs", "rel", "home"]),
    sep=st.sampled_from([" ", " ", ",", ";"]),
    ext=st.sampled_from([None, "dat"]),
    old=st.booleans(),
    base=st.sampled_from([None, "my"]),
    summ=st.sampled_from([None, None, "rel", "abs", "home"])))


@st.composite
def strat(draw):
    p = draw(gens.problem_cfg(
        max_ts=3, max_nc=2, dims=(2, 2, 3), big=50,
        big_kw=dict(max_ts=12, max_dim=8, max_nc=4)))
    if p["fid"] == "TD" and draw(st.integers(0, 5)) == 0:
        p["fid"], p["prop"] = "TDA", "APPROX"
    return dict(
        p=p, dyn=draw(level(DFLAGS)), opt=draw(level(OLOGS)),
        stats=draw(st.booleans()),
        files=draw(st.one_of(st.none(), FILES)),
        ops=draw(ops(p["nts"], p["nc"])),
        write=draw(st.lists(st.sampled_from(["dir", "file", "stream"]),
                            max_size=2)))


# ---------------------------------------------------------------------- runs
def check_runs(c, rec):
    in_scratch(lambda tmp, cwd: _check_runs(c, rec, tmp, cwd))


def _check_runs(c, rec, tmp, cwd):
    d = c["dump"]
    op, dp = {}, {}
    if c["c"].get("approx"):
        op["approx_grad"] = True
    for params, base, key in ((op, "optim", "opt"), (dp, "dyn", "dyn")):
        params["dumping"] = d[key]
        if d["files"]:
            params["dump_to_file"] = True
            params["dump_dir"] = os.path.join(tmp, base)
    cfg = dict(c["c"]["p"].get("cfg") or {})
    from build import dyn_params
    dp = dict(dyn_params(cfg), **dp)
    seq, cur = [], None
    fe, gn, gs, it = [], [], [], []
    n = 0
    for P, opt, i, tc, tau, amps, res, obs in runs.each_run(
            c["c"], rec, optim_params=op, dyn_params=dp):
        dyn = opt.dynamics
        fresh = runs.fresh(c["c"], i)
        if fresh:
            cur = None
        steps = [amps] + [e.amps for e in obs.events if e.kind != "it"] + [
            np.array(res.final_amps)]
        for a in steps:
            if not np.isfinite(a).all():
                return
            if cur is None or not np.array_equal(a, cur):
                seq.append(np.array(a))
                cur = a
        for e in obs.events:
            if e.kind == "f":
                fe.append(e.err)
            elif e.kind == "g":
                gn.append(e.gnorm)
                gs.append(None if e.out is None else
                          np.array(e.out).reshape(P.nts, P.nc))
            else:
                it.append(i)
        w = "after run %d: " % i
        full = d["dyn"] == "FULL"
        got = [x.ctrl_amps for x in dyn.dump.evo_dumps]
        if full:
            expect(len(got) == len(seq) and all(
                np.array_equal(x, y) for x, y in zip(got, seq)),
                "%samplitudes dumped\n%s\nevaluated\n%s" % (w, got, seq))
            expect(dyn.dumping == "FULL", "%sthe dumping level asked for is "
                   "FULL, it is %s" % (w, dyn.dumping))
            fc = dyn.fid_computer
            kinds = {"ctrl_amps", "dyn_gen", "prop", "fwd_evo"}
            if dyn.prop_computer.grad_exact and dyn.cache_prop_grad:
                kinds.add("prop_grad")
            if fc.uses_onwd_evo:
                kinds.add("onwd_evo")
            if fc.uses_onto_evo:
                kinds.add("onto_evo")
            for k, x in enumerate(dyn.dump.evo_dumps):
                have = {n for _, n in KINDS if getattr(x, n) is not None}
                expect(have == kinds, "%sitem %d at level FULL contains %s, "
                       "expected %s" % (w, k, sorted(have), sorted(kinds)))
        else:
            expect(not got, w + "items are dumped at level SUMMARY")
        expect(len(dyn.dump.evo_summary) == len(seq), "%s%d evolution "
               "summaries for %d evolutions"
               % (w, len(dyn.dump.evo_summary), len(seq)))
        od = opt.dump
        full = d["opt"] == "FULL"
        for name, want in (("fid_err_log", fe), ("grad_norm_log", gn)):
            g = [float(x) for x in getattr(od, name)]
            expect(g == (want if full else []), "%s%s is %s, seen were %s"
                   % (w, name, g, want))
        expect(len(od.grad_log) == (len(gs) if full else 0),
               "%s%d gradients" % (w, len(od.grad_log)))
        if full:
            for x, y in zip(od.grad_log, gs):
                expect(y is None or np.array_equal(x, y),
                       "%sgradient\n%s\nseen was\n%s" % (w, x, y))
        expect(len(od.iter_summary) == len(it), "%s%d iteration summaries "
               "for %d iterations" % (w, len(od.iter_summary), len(it)))
        last = [s for s, r in zip(od.iter_summary, it) if r == i]
        for k, s in enumerate(last):
            expect(s.iter_num == k + 1, "%siteration number %r of summary "
                   "%d" % (w, s.iter_num, k))
        if last and res.num_iter == len(last):
            nf = 0
            k = 0
            err = None
            for e in obs.events:
                if e.kind == "f":
                    nf += 1
                    err = e.err
                elif e.kind == "it":
                    s = last[k]
                    k += 1
                    expect(s.fid_func_call_num == (nf or None) and
                           s.fid_err == err, "%ssummary of iteration %d has "
                           "%r calls and error %r, seen were %d and %r" % (
                               w, k, s.fid_func_call_num, s.fid_err, nf,
                               err))
        n = len(seq)
    if d["files"]:
        check_dyn_dir(os.path.join(tmp, "dyn"), dyn.dump, "dynamics dump")
        check_optim_dir(os.path.join(tmp, "optim"), opt.dump,
                        "optimiser dump")
        expect(not listing(cwd) and not listing(os.environ["HOME"]),
               "files outside the directories")
    rec.label("dyn " + d["dyn"], "opt " + d["opt"],
              "files" if d["files"] else "no files")
    if n < 2:
        rec.trivial()


RUN_TC = st.fixed_dictionaries(dict(
    targ=st.sampled_from([-1.0, 0.01]), min_grad=st.just(1e-8),
    max_iter=st.integers(1, 5), max_f=st.one_of(st.none(),
                                                st.integers(3, 15))))

RUNS = st.fixed_dictionaries(dict(
    c=runs.run_case(max_runs=2, max_ts=3, tcs=RUN_TC, bounded=False),
    dump=st.fixed_dictionaries(dict(
        dyn=st.sampled_from(["FULL", "FULL", "SUMMARY"]),
        opt=st.sampled_from(["FULL", "FULL", "SUMMARY"]),
        files=st.booleans()))))

# --------------------------------------------------------------- directories
def tree(d):
    """Everything below d with contents."""
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d)] = None
        for x in fs:
            with open(os.path.join(r, x), "rb") as f:
                out[os.path.relpath(os.path.join(r, x), d)] = f.read()
    return out


def check_dirs(c, rec):
    in_scratch(lambda tmp, cwd: _check_dirs(c, rec, tmp, cwd))


def _check_dirs(c, rec, tmp, cwd):
    home = os.environ["HOME"]
    base = {"abs": os.path.join(tmp, "out"), "rel": cwd, "home": home,
            "dot": cwd}[c["at"]]
    rel = os.path.join(*c["path"])
    real = os.path.join(base, rel)
    given = {"abs": real, "rel": rel, "home": os.path.join("~", rel),
             "dot": os.path.join(".", "x", "..", rel)}[c["at"]]
    state = c["state"]
    if state == "below" and len(c["path"]) < 2:
        state = "file"
    if state == "dir":
        os.makedirs(real)
        with open(os.path.join(real, "old"), "w") as f:
            f.write("kept")
    elif state in ("file", "below"):
        x = real if state == "file" else os.path.dirname(real)
        os.makedirs(os.path.dirname(x), exist_ok=True)
        with open(x, "w") as f:
            f.write("kept")
    ok = state in ("new", "dir")
    before = tree(tmp)
    rec.label(c["via"], state, c["at"])
    if c["via"] in ("io", "config"):
        f = qtrlio.create_dir if c["via"] == "io" else \
            optimconfig.OptimConfig().check_create_output_dir
        kw = dict(desc=c["desc"]) if c["desc"] else {}
        r, name, msg = f(given, **kw)
        expect(bool(r) == ok, "%s: success is %r for %s"
               % (c["via"], r, state))
        expect(os.path.isabs(name) and os.path.normpath(name) == real,
               "directory %r for %r, expected %r" % (name, given, real))
        expect((c["desc"] or "output") in msg, "message %r" % msg)
    else:
        P = Prob(c["p"])
        opt = optimizer(P)
        host = opt.dynamics if c["via"] == "dyn" else opt
        expect(host.dump_dir is None, "dump_dir %r without dumping"
               % host.dump_dir)
        if c["level"]:
            host.dumping = c["level"]
            host.dump.write_to_file = True
        host.dump_dir = given
        expect(host.dumping == (c["level"] or "SUMMARY"), "dumping is %r "
               "after dump_dir was set (%s before)"
               % (host.dumping, c["level"]))
        if not c["level"] and ok:
            host.dump.write_to_file = True
        expect(bool(host.dump.write_to_file) == ok,
               "write_to_file is %r" % host.dump.write_to_file)
        if ok:
            expect(os.path.normpath(host.dump_dir) == real,
                   "dump_dir is %r for %r" % (host.dump_dir, given))
        mid = tree(tmp)
        opt.dynamics.initialize_controls(np.array(P.amps))
        opt.init_optim(runs.term_conds({}, None))
        opt.fid_err_func_wrapper(np.array(P.amps).ravel() + 0.5)
        new = set(tree(tmp)) - set(mid)
        if ok:
            # (a summary of the optimiser is written with each iteration)
            if c["via"] == "dyn":
                expect(new, "nothing was written")
            expect(all(os.path.join(tmp, x).startswith(real + "/")
                       for x in new), "written elsewhere: %s" % sorted(new))
        else:
            expect(not new, "written although the directory could not be "
                   "made: %s" % sorted(new))
        ev = evolve(P, np.array(opt.dynamics.tau, float),
                    np.array(P.amps) + 0.5)
        expect(np.abs(arr(opt.dynamics.full_evo) - ev["full"]).max()
               <= 1e-8 * max(1.0, np.abs(ev["full"]).max()) or
               np.abs(ev["full"]).max() > 1e4, "evolution")
    after = tree(tmp)
    for k, v in before.items():
        expect(k in after and after[k] == v, "%s was %s" % (
            k, "changed" if k in after else "removed"))
    if ok:
        expect(os.path.isdir(real), "%r was not created" % real)
    if state == "dir" and c["via"] in ("io", "config"):
        rec.trivial()


@st.composite
def strat_dirs(draw):
    c = dict(at=draw(st.sampled_from(["abs", "rel", "home", "dot"])),
             path=draw(st.lists(st.sampled_from(
                 ["a", "b c", "d.e", "run-1"]), min_size=1, max_size=3)),
             state=draw(st.sampled_from(["new", "new", "dir", "file",
                                         "below"])),
             via=draw(st.sampled_from(["io", "config", "dyn", "opt"])),
             desc=draw(st.sampled_from([None, "plot"])),
             level=draw(st.sampled_from([None, "SUMMARY", "FULL"])))
    if c["via"] in ("dyn", "opt"):
        c["p"] = draw(gens.problem_cfg(max_ts=3, dims=(2,)))
    return c


PARTS = [Part("history", strat(), check, 2400, 30000),
         Part("runs", RUNS, check_runs, 800, 8000),
         Part("dirs", strat_dirs(), check_dirs, 600, 6000)]
