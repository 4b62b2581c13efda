"""Initial pulses."""
import contextlib
import io

from hypothesis import strategies as st
import numpy as np

import qutip_qtrl.pulsegen as pulsegen
from build import optimizer
from common import expect
from core import Part
from ref import Prob

ID = "C12"
RULE = ("A case is a pulse type, a time grid (equal or unequal slots, "
        "attached to a dynamics object or standalone), waveform parameters "
        "given as parameters, attributes or arguments, scaling, offset, "
        "bounds and a random seed. The pulse is compared with the documented "
        "waveform, or for random types with its documented range, step size "
        "and spectral content; then the bounded pulse with the unbounded one. "
        "Non-trivial: the pulse is not constant and has at least two slots.")

WAVES = ["SINE", "SQUARE", "SAW", "TRIANGLE"]
RANDOM = ["RND", "RNDFOURIER", "RNDWAVES", "RNDWALK1", "RNDWALK2"]
OTHER = ["LIN", "ZERO", "GAUSSIAN", "GAUSSIAN_EDGE"]


@st.composite
def grid(draw, max_ts=24):
    n = draw(st.integers(1, max_ts))
    if max_ts > 20 and draw(st.integers(0, 39)) == 20:
        n = draw(st.sampled_from([50, 100, 128, 300]))
        if draw(st.booleans()):
            r = np.random.RandomState(draw(st.integers(0, 999)))
            return dict(tau=(r.randint(1, 33, n) / 128.0).tolist())
    if draw(st.booleans()):
        return dict(n=n, T=draw(st.integers(1, 160)) / 16.0)
    t = draw(st.lists(st.integers(1, 32), min_size=n, max_size=n))
    return dict(tau=[x / 16.0 for x in t])


@st.composite
def base_case(draw, types):
    c = dict(type=draw(st.sampled_from(types)), grid=draw(grid()),
             how=draw(st.sampled_from(["dyn", "dyn", "params", "attr"])),
             scaling=draw(st.sampled_from([None, 1.0, 0.5, 3.0, -2.0, 0.0])),
             offset=draw(st.sampled_from([None, 0.0, 0.75, -1.5])),
             seed=draw(st.integers(0, 9999)))
    w = {}
    q = st.integers(1, 40).map(lambda i: i / 8.0)
    t = c["type"]
    if t in WAVES:
        k = draw(st.sampled_from(["num_waves", "wavelen", "freq", "none"]))
        if k == "num_waves":
            w[k] = draw(st.one_of(st.integers(1, 8), q))
        elif k != "none":
            w[k] = draw(q)
        if draw(st.booleans()):
            w["start_phase"] = draw(st.sampled_from(
                [0.0, 0.5, 1.0, np.pi / 2, np.pi, 3 * np.pi / 2, 6.0, 7.5,
                 -0.5, -2.0, 20.0]))
    elif t == "LIN":
        k = draw(st.sampled_from(["none", "both", "grad", "start", "end"]))
        v = st.integers(-16, 16).map(lambda i: i / 8.0)
        if k in ("both", "start", "grad"):
            w["start_val"] = draw(v)
        if k in ("both", "end"):
            w["end_val"] = draw(v)
        if k == "grad":
            w["gradient"] = draw(v)
            w["end_val"] = None
    elif t == "GAUSSIAN":
        if draw(st.booleans()):
            w["mean"] = draw(st.integers(0, 80)) / 16.0
        if draw(st.booleans()):
            w["variance"] = draw(q)
    elif t == "GAUSSIAN_EDGE":
        if draw(st.booleans()):
            w["decay_time"] = draw(q)
    elif t == "RNDFOURIER":
        if draw(st.booleans()):
            w["min_wavelen"] = draw(st.integers(1, 15)) / 16.0  # of T
    elif t == "RNDWAVES":
        if draw(st.booleans()):
            w["num_comp_waves"] = draw(st.integers(1, 5))
        if draw(st.booleans()):
            w["min_wavelen"] = draw(st.integers(1, 15)) / 16.0
            w["max_wavelen"] = draw(st.sampled_from([1e-7, 0.5, 2.0]))
    elif t == "RNDWALK1":
        if draw(st.booleans()):
            w["max_d_amp"] = draw(q)
    elif t == "RNDWALK2":
        if draw(st.booleans()):
            w["max_d2_amp"] = draw(q)
    c["wave"] = w
    c["where"] = draw(st.sampled_from(["params", "args", "init"]))
    lb = draw(st.integers(-24, 16)) / 8.0
    ub = lb + draw(st.integers(0, 24)) / 8.0
    k = draw(st.sampled_from(["both", "both", "lo", "hi", "inf", "zlo",
                              "zhi"]))
    c["bounds"] = {"both": [lb, ub], "lo": [lb, None], "hi": [None, ub],
                   "inf": [lb, "inf"], "zlo": [0.0, abs(ub)],
                   "zhi": ["-inf", 0.0]}[k]
    return c


_DYN = {}


def make(c, g, T, tau, extra=None):
    """A pulse generator for the case."""
    w = real_wave(c, T)
    attr = {}
    if c["scaling"] is not None:
        attr["scaling"] = c["scaling"]
    if c["offset"] is not None:
        attr["offset"] = c["offset"]
    params = dict(w) if c["where"] == "params" else {}
    params.update(extra or {})
    if c["how"] == "dyn":
        one = dict(s=[2, 2], re=[1, 0, 0, -1], im=[], d=1)
        P = Prob(dict(dyn="UNIT", n=2, nts=len(tau), nc=1, drift=[one],
                      td=False, ctrls=[[one]], tc=False, initial=one,
                      target=one, state=False, fid="PSU",
                      tau=dict(T=g["T"]) if "T" in g else list(g["tau"]),
                      amps=[[0.0]] * len(tau), cfg={}))
        kw = dict(num_tslots=g["n"], evo_time=g["T"]) if "T" in g \
            else dict(tau=np.array(g["tau"]))
        opt = optimizer(P, **kw)
        dyn = opt.dynamics
        if "T" in g:
            dyn.init_timeslots()
        for k, v in attr.items():
            setattr(dyn, "initial_ctrl_" + k, v)
        pg = pulsegen.create_pulse_gen(c["type"], dyn, params)
    elif c["how"] == "params" or derived_defaults(c):
        if "T" in g:
            params.update(num_tslots=g["n"], pulse_time=g["T"])
        else:
            params["tau"] = np.array(g["tau"])
        params.update(attr)
        pg = pulsegen.create_pulse_gen(c["type"], pulse_params=params)
    else:
        pg = pulsegen.create_pulse_gen(c["type"], pulse_params=params)
        if "T" in g:
            pg.num_tslots, pg.pulse_time = g["n"], g["T"]
        else:
            pg.tau = np.array(g["tau"])
        for k, v in attr.items():
            setattr(pg, k, v)
    return pg


def derived_defaults(c):
    """Types whose default parameters are worked out from the pulse time."""
    return c["type"] in ("GAUSSIAN", "GAUSSIAN_EDGE", "RNDFOURIER",
                         "RNDWAVES")


def real_wave(c, T):
    w = dict(c["wave"])
    if "min_wavelen" in w:
        w["min_wavelen"] *= T
    if "max_wavelen" in w:
        w["max_wavelen"] = w["min_wavelen"] * (1 + w["max_wavelen"])
    return w


def generate(c, pg, w):
    """Generate the pulse, with the parameters given where the case says."""
    out = io.StringIO()
    np.random.seed(c["seed"])
    with contextlib.redirect_stdout(out):
        if c["where"] == "params":
            p = pg.gen_pulse()
        elif c["where"] == "init" and c["type"] in WAVES + ["LIN"]:
            pg.init_pulse(**w)
            p = pg.gen_pulse()
        else:
            p = pg.gen_pulse(**w)
    expect(out.getvalue() == "", "generating printed %r" % out.getvalue())
    return p


def waveform(c, t, T, tau, w):
    """The documented waveform, and where it is not near a jump."""
    ty = c["type"]
    ok = np.ones(len(t), bool)
    if ty == "ZERO":
        return np.zeros(len(t)), ok
    if ty == "LIN":
        a = w.get("start_val", -1.0)
        b = w.get("end_val", 1.0)
        if b is None:
            return a + w["gradient"] * t, ok
        if len(t) == 1:
            return np.array([a]), ok
        return a + (b - a) * t / t[-1], ok
    if ty == "GAUSSIAN":
        m, v = w.get("mean", 0.5 * T), w.get("variance", 0.5 * T)
        return np.exp(-(t - m) ** 2 / (2 * v)), ok
    if ty == "GAUSSIAN_EDGE":
        d = w.get("decay_time", T / 10)
        return 1 - np.exp(-t ** 2 / d) - np.exp(-(t - T) ** 2 / d), ok
    if w.get("num_waves") is not None:
        f = w["num_waves"] / T
    elif w.get("wavelen") is not None:
        f = 1.0 / w["wavelen"]
    else:
        f = w.get("freq", 1.0)
    x = f * t + w.get("start_phase", 0.0) / (2 * np.pi)
    u = x - np.floor(x)         # part of the cycle
    eps = 3e-6 * (1 + f * T)
    if ty == "SINE":
        return np.sin(2 * np.pi * x), ok
    if ty == "SQUARE":
        ok = np.minimum(np.abs(u - 0.5), np.minimum(u, 1 - u)) > eps
        return np.where(u < 0.5, 1.0, -1.0), ok
    if ty == "SAW":
        ok = np.abs(u - 0.5) > eps
        return np.where(u < 0.5, 2 * u, 2 * u - 2), ok
    tri = np.where(u < 0.25, 4 * u, np.where(u < 0.75, 2 - 4 * u, 4 * u - 4))
    return tri, ok


def times(c):
    g = c["grid"]
    if "T" in g:
        tau = np.full(g["n"], g["T"] / g["n"])
    else:
        tau = np.array(g["tau"])
    T = float(tau.sum())
    return g, tau, T, np.concatenate([[0.0], np.cumsum(tau)[:-1]])


def bound_of(x):
    return {"inf": np.inf, "-inf": -np.inf}.get(x, x) \
        if isinstance(x, str) else x


def check_bounds(c, rec, g, T, tau, w, free, same):
    """Relation between the pulse without and with bounds."""
    lb, ub = (bound_of(b) for b in c["bounds"])
    ex = {}
    if c["where"] == "params":
        ex = dict(lbound=lb, ubound=ub)
    pg = make(c, g, T, tau, ex)
    if not ex:
        pg.lbound, pg.ubound = lb, ub
    got = np.asarray(generate(c, pg, w), dtype=float)
    expect(got.shape == free.shape, "bounded pulse has shape %s"
           % (got.shape,))
    lo = -np.inf if lb is None else lb
    hi = np.inf if ub is None else ub
    sc = max(1.0, np.abs(free).max(), *(abs(b) for b in (lo, hi)
                                        if np.isfinite(b)))
    tol = 1e-12 * sc
    expect(np.isfinite(got).all() and got.min() >= lo - tol and
           got.max() <= hi + tol, "pulse %s outside [%s, %s]" % (got, lo, hi))
    if not same:
        return
    rng = free.max() - free.min()
    if free.max() <= hi and free.min() >= lo:
        rec.label("fits")
        expect(np.abs(got - free).max() <= tol, "bounds [%s, %s] changed the "
               "pulse %s to %s" % (lo, hi, free, got))
        return
    at = min(np.abs(got - b).min() for b in (lo, hi) if np.isfinite(b))
    expect(at <= 10 * tol, "pulse %s moved to %s, away from its bounds %s, %s"
           % (free, got, lo, hi))
    d = got - free
    if rng < (hi - lo) - tol or not np.isfinite(hi - lo):
        rec.label("shifted")
        expect(np.abs(d - d[0]).max() <= 10 * tol, "pulse %s with range %g "
               "was not only shifted by bounds [%s, %s]: %s" % (
                   free, rng, lo, hi, got))
    elif rng > (hi - lo) + tol:
        rec.label("scaled")
        i, j = int(free.argmax()), int(free.argmin())
        a = (hi - lo) / rng
        expect(np.abs((got - got[j]) - a * (free - free[j])).max()
               <= 100 * tol, "pulse %s was not scaled to the range of the "
               "bounds [%s, %s]: %s" % (free, lo, hi, got))


def check_wave(c, rec):
    g, tau, T, t = times(c)
    w = real_wave(c, T)
    pg = make(c, g, T, tau)
    got = np.asarray(generate(c, pg, w))
    expect(got.shape == t.shape and got.dtype.kind == "f",
           "pulse of %d slots has shape %s, type %s" % (
               len(t), got.shape, got.dtype))
    y, ok = waveform(c, t, T, tau, w)
    s = 1.0 if c["scaling"] is None else c["scaling"]
    o = 0.0 if c["offset"] is None else c["offset"]
    want = s * y + o
    lip = 1.0
    if c["type"] in WAVES:
        f = (w["num_waves"] / T if w.get("num_waves") else
             1 / w["wavelen"] if w.get("wavelen") else w.get("freq", 1.0))
        lip = 1 + 10 * f * T
        if c["where"] != "args":
            for k, x in (("freq", f), ("wavelen", 1 / f),
                         ("num_waves", f * T)):
                v = getattr(pg, k)
                expect(v is not None and abs(v - x) <= 1e-6 * x, "pulse "
                       "generator given %s over time %g has %s %s, expected "
                       "%g" % (w, T, k, v, x))
    elif c["type"] == "GAUSSIAN_EDGE":
        d = w.get("decay_time", T / 10)
        lip = 1 + 4 * T / np.sqrt(d)
    elif c["type"] == "GAUSSIAN":
        lip = 1 + 4 * T / np.sqrt(w.get("variance", 0.5 * T))
    elif c["type"] == "LIN":
        lip = 1 + np.abs(y).max()
    tol = 2e-6 * lip * max(1.0, abs(s))
    err = np.abs(got - want)[ok]
    expect(err.size == 0 or err.max() <= tol,
           "%s %s: pulse\n%s\nexpected\n%s\nat times %s" % (
               c["type"], w, got, want, t))
    again = np.asarray(generate(c, pg, w))
    expect(np.abs(again - got)[ok].max(initial=0.0) <= tol,
           "a second pulse differs: %s, %s" % (again, got))
    rec.label(c["type"], c["how"], c["where"])
    if len(t) < 2 or np.ptp(got) == 0:
        rec.trivial()
    check_bounds(c, rec, g, T, tau, w, got, True)


def residual(y, t, wavelens):
    cols = []
    for wl in wavelens:
        cols += [np.sin(2 * np.pi * t / wl), np.cos(2 * np.pi * t / wl)]
    A = np.array(cols).T
    x = np.linalg.lstsq(A, y, rcond=None)[0]
    return np.abs(A @ x - y).max()


def check_random(c, rec):
    g, tau, T, t = times(c)
    w = real_wave(c, T)
    pg = make(c, g, T, tau)
    got = np.asarray(generate(c, pg, w))
    expect(got.shape == t.shape and got.dtype.kind == "f",
           "pulse of %d slots has shape %s" % (len(t), got.shape))
    s = abs(1.0 if c["scaling"] is None else c["scaling"])
    o = 0.0 if c["offset"] is None else c["offset"]
    y = got - o
    ty = c["type"]
    e = 1e-9 * max(1.0, s, abs(o))
    if ty == "RND":
        expect(np.abs(y).max() <= s + e, "%s outside -/+%g" % (y, s))
    elif ty in ("RNDFOURIER", "RNDWAVES"):
        expect(np.abs(y).max() <= np.sqrt(8) * s + e, "%s outside -/+%g"
               % (y, np.sqrt(8) * s))
        if ty == "RNDFOURIER":
            mn = w.get("min_wavelen", T / 10)
            wl = [2 * T]
            while wl[-1] / 2 > mn * (1 - 1e-5):
                wl.append(wl[-1] / 2)
            if 2 * len(wl) < len(t):
                rec.label("spectrum")
                r = residual(y, t, wl)
                expect(r <= 1e-4 * max(s, 1e-3), "not a Fourier series with "
                       "wavelengths %s: residual %g of\n%s" % (wl, r, y))
        elif "max_wavelen" in w and \
                w["max_wavelen"] < w["min_wavelen"] * 1.001 and len(t) > 2:
            rec.label("spectrum")
            r = residual(y, t, [w["min_wavelen"]])
            expect(r <= 1e-4 * T / w["min_wavelen"] * max(s, 1e-3), "not a "
                   "sum of waves of length %g: residual %g of\n%s" % (
                       w["min_wavelen"], r, y))
    elif ty == "RNDWALK1":
        d = w.get("max_d_amp", 0.1) * s
        expect(abs(y[0]) <= s + e, "starts at %g, scaling %g" % (y[0], s))
        expect(np.abs(np.diff(y)).max(initial=0.0) <= d + e, "steps of %s "
               "exceed %g" % (np.diff(y), d))
    elif ty == "RNDWALK2":
        d = w.get("max_d2_amp", 0.01) * s
        expect(abs(y[0]) <= s + e, "starts at %g, scaling %g" % (y[0], s))
        d2 = np.diff(np.concatenate([y[:1], y]), 2)
        expect(np.abs(d2).max(initial=0.0) <= d + e, "changes of gradient %s "
               "exceed %g" % (d2, d))
    # random: depends on the random state only, and differs between pulses
    twin = np.asarray(generate(c, make(c, g, T, tau), w))
    expect(np.array_equal(twin, got), "same random state, but pulses differ "
           "%s, %s" % (got, twin))
    if s > 0:
        # (a sine of random phase and amplitude is never exactly repeated)
        nxt = np.asarray(pg.gen_pulse())
        expect(not np.allclose(nxt, got, rtol=0, atol=1e-12 * s),
               "two random pulses are equal: %s" % got)
    rec.label(ty, c["how"], c["where"])
    if len(t) < 2 or np.ptp(got) == 0:
        rec.trivial()
    check_bounds(c, rec, g, T, tau, w, got, True)


# ----------------------------------------- one generator, used repeatedly
KEPT = WAVES + RANDOM + ["LIN"]


@st.composite
def reuse_case(draw):
    c = draw(base_case(WAVES + OTHER + RANDOM))
    c["how"] = draw(st.sampled_from(["dyn", "params"]))
    c["where"] = "params"
    ops = []
    for _ in range(draw(st.integers(2, 6))):
        k = draw(st.sampled_from(["gen", "gen", "args", "args", "scaling",
                                  "offset", "bounds", "init", "reset",
                                  "tau"]))
        o = dict(op=k)
        if k in ("args", "bounds"):
            d = draw(base_case([c["type"]]))
            o["v"] = d["wave" if k == "args" else "bounds"]
        elif k == "tau":
            o["v"] = [x / 16.0 for x in draw(
                st.lists(st.integers(1, 32), min_size=1, max_size=12))]
            last = [p["v"] for p in ops if p["op"] == "tau"]
            if last and draw(st.integers(0, 2)) == 0:
                # nearly the same times as before
                o["v"] = [x * (1 + 2.0 ** -15) for x in last[-1]]
        elif k == "scaling":
            o["v"] = draw(st.sampled_from([1.0, 0.5, 3.0, -2.0, 0.0]))
        elif k == "offset":
            o["v"] = draw(st.sampled_from([0.0, 0.75, -1.5]))
        o["seed"] = draw(st.integers(0, 999))
        ops.append(o)
    c["ops"] = ops
    return c


def merged(c, w, args):
    """The waveform parameters after some were given to gen_pulse."""
    out = dict(w)
    if c["type"] in WAVES and set(args) & {"num_waves", "wavelen", "freq"}:
        for k in ("num_waves", "wavelen", "freq"):
            out.pop(k, None)
    if c["type"] == "LIN":
        if args.get("gradient") is not None:
            out["end_val"] = None
        elif args.get("end_val") is not None:
            out.pop("gradient", None)
    out.update((k, v) for k, v in args.items() if v is not None)
    return out


def check_reuse(c, rec):
    """A generator used again gives what a new one with its present settings
    would give."""
    g, tau, T, t = times(c)
    pg = make(c, g, T, tau)
    first = dict(wave=dict(c["wave"]), scaling=c["scaling"],
                 offset=c["offset"], bounds=None)
    now = dict(first)
    n = 0
    for i, o in enumerate(c["ops"] + [dict(op="gen", seed=c["seed"])]):
        k = o["op"]
        args = {}
        here = dict(now)
        if k == "args":
            a = real_wave(dict(c, wave=o["v"]), T)
            args = {x: y for x, y in a.items() if y is not None}
            here["wave"] = merged(c, now["wave"], o["v"])
            if c["type"] in KEPT:
                now = here
        elif k in ("scaling", "offset"):
            setattr(pg, k, o["v"])
            now[k] = o["v"]
            continue
        elif k == "bounds":
            pg.lbound, pg.ubound = (bound_of(b) for b in o["v"])
            now["bounds"] = o["v"]
            continue
        elif k == "init":
            pg.init_pulse()
            continue
        elif k == "tau":
            # other slots (a standalone generator)
            names = {"GAUSSIAN": ("mean", "variance"),
                     "GAUSSIAN_EDGE": ("decay_time",)}.get(c["type"])
            if c["how"] == "dyn" or (derived_defaults(c) and not names):
                continue
            if names:
                # (the parameters stay as derived from the first time)
                now = dict(now, wave={x: getattr(pg, x) for x in names})
            pg.tau = np.array(o["v"])
            if c["type"] in WAVES:
                # (which of the attributes is given is to be said again)
                w = {x: y for x, y in now["wave"].items()
                     if x != "start_phase"} or dict(freq=1.0)
                pg.init_pulse(**w)
            else:
                pg.init_pulse()
            rec.label("other slots")
            g, tau, T, t = times(dict(grid=dict(tau=o["v"])))
            continue
        elif k == "reset":
            pg.reset()
            now = dict(first)
            g, tau, T, t = times(c)
            continue
        c2 = dict(c, **here)
        ex = {}
        if here["bounds"] is not None:
            ex = dict(zip(("lbound", "ubound"),
                          (bound_of(b) for b in here["bounds"])))
        w2 = real_wave(c2, T)
        if c["type"] == "RNDWAVES" and w2.get(
                "max_wavelen", 2 * T) <= w2.get("min_wavelen", T / 10):
            rec.label("refused")
            return
        np.random.seed(o["seed"])
        got = np.asarray(pg.gen_pulse(**args))
        fresh = make(c2, g, T, tau, ex)
        np.random.seed(o["seed"])
        want = np.asarray(fresh.gen_pulse())
        y, ok = waveform(c2, t, T, tau, w2) if c["type"] not in RANDOM \
            else (want, np.ones(len(t), bool))
        sc = max(1.0, abs(here["scaling"] or 1.0), np.abs(want).max())
        f = 1.0
        if c["type"] in WAVES:
            f = T * (w2["num_waves"] / T if w2.get("num_waves") else
                     1 / w2["wavelen"] if w2.get("wavelen") else
                     w2.get("freq", 1.0))
        elif c["type"] in ("RNDFOURIER", "RNDWAVES"):
            f = T / w2.get("min_wavelen", T / 10)
        if not ok.all() and here["bounds"] is not None:
            # (samples at a jump may move all others)
            rec.label("at a jump")
            continue
        expect(got.shape == want.shape, "step %d: %s samples for %s slots"
               % (i, got.shape, want.shape))
        err = np.abs(got - want)[ok]
        expect((err.size == 0 or err.max() <= 1e-5 * sc * (1 + 10 * f)),
               "step %d: pulse\n%s\nbut a new %s generator with %s gives\n%s"
               % (i, got, c["type"], here, want))
        n += 1
    rec.label(c["type"], c["how"])
    if n < 2:
        rec.trivial()


# -------------------------------------------------------------- statistics
@st.composite
def spread_case(draw):
    return dict(type=draw(st.sampled_from(RANDOM)),
                scaling=draw(st.sampled_from([1.0, 0.25, 8.0])),
                offset=draw(st.sampled_from([0.0, 2.0])),
                n=draw(st.integers(150, 400)),
                seed=draw(st.integers(0, 9999)))


def check_spread(c, rec):
    """Random pulses use the whole of their documented range."""
    np.random.seed(c["seed"])
    n, s = c["n"], c["scaling"]
    par = dict(num_tslots=n, pulse_time=2.0, scaling=s, offset=c["offset"])
    pg = pulsegen.create_pulse_gen(c["type"], pulse_params=par)
    y = np.asarray(pg.gen_pulse()) - c["offset"]
    rec.label(c["type"])

    def both(v, m, what):
        expect(v.max() > 0.6 * m and v.min() < -0.6 * m, "%s of %d samples "
               "of a %s pulse lie in [%g, %g], allowed +-%g" % (
                   what, v.size, c["type"], v.min(), v.max(), m))

    if c["type"] == "RND":
        both(y, s, "values")
        expect(abs(np.mean(y)) < 0.5 * s, "mean %g" % np.mean(y))
    elif c["type"] == "RNDWALK1":
        both(np.diff(y), 0.1 * s, "steps")
    elif c["type"] == "RNDWALK2":
        both(np.diff(y, 2), 0.01 * s, "second differences")
    else:
        # over several pulses both signs occur at every point in time
        ys = np.array([pg.gen_pulse() for _ in range(60)]) - c["offset"]
        expect(ys.max() > 0.3 * s and ys.min() < -0.3 * s, "60 pulses lie in "
               "[%g, %g], scaling %g" % (ys.min(), ys.max(), s))
        expect((ys.max(axis=0) > 0).all() and (ys.min(axis=0) < 0).all(),
               "samples with one sign in 60 pulses")


PARTS = [
    Part("waveforms", base_case(WAVES + OTHER), check_wave, quick=6000,
         thorough=80000),
    Part("random", base_case(RANDOM), check_random, quick=4000,
         thorough=50000),
    Part("reuse", reuse_case(), check_reuse, quick=2500, thorough=30000),
    Part("spread", spread_case(), check_spread, quick=400, thorough=4000),
]
