"""CRAB pulses."""
from hypothesis import strategies as st
import numpy as np

import gens
import qutip_qtrl.pulsegen as pulsegen
from build import optimizer
from common import expect
from core import Part
from ref import Prob
import runs
from checks import c10, c12

ID = "C13"
RULE = ("A case is a time grid, number of coefficients, fixed or free, exact "
        "or randomised frequencies, coefficients, guess pulse with action, "
        "ramping pulse and bounds, standalone or attached to a problem; or an "
        "observed basis function optimisation with several controls; or a "
        "generator with hundreds of random coefficients, whose ranges are "
        "compared with the documented ones. Each "
        "pulse is compared with the written-out series. Non-trivial: the "
        "coefficients are not all zero and there are at least two slots.")


def limit(y, lb, ub, scaling, nco, guess):
    """Documented tanh bounding."""
    lb = None if lb is None or np.isinf(lb) else lb
    ub = None if ub is None or np.isinf(ub) else ub
    if lb is None and ub is None:
        return y
    if lb is not None and ub is not None:
        return 0.5 * (ub - lb) * np.tanh(y) + 0.5 * (ub + lb)
    g = 0.0
    if guess is not None:
        g = max(guess.max() - guess.min(), guess.max())
    room = scaling * nco + g
    if ub is not None:
        m, s = (0.0, ub) if ub > 0 else (ub - abs(room), room)
        return np.where(y > m, m + s * np.tanh(y), y)
    m, s = (0.0, -lb) if lb < 0 else (lb + abs(room), room)
    return np.where(y < m, m + s * np.tanh(y), y)


def series(t, freqs, co, free, guess, action, ramp, lb, ub, scaling):
    y = np.zeros(len(t))
    for i in range(co.shape[0]):
        w = co[i, 2] if free else freqs[i]
        y = y + co[i, 0] * np.sin(w * t) + co[i, 1] * np.cos(w * t)
    if guess is not None and action is not None:
        if action.upper() == "MODULATE":
            y = (1 + y) * guess
        elif action.upper() == "ADD":
            y = y + guess
    if ramp is not None:
        y = y * ramp
    return limit(y, lb, ub, scaling, co.shape[0], guess)


def tol_of(t, T, freqs, co, free, guess, ramp, lb, ub):
    w = np.abs(co[:, 2]).max() if free else np.abs(freqs).max()
    g = 1.0 if guess is None else 1 + np.abs(guess).max()
    r = 1.0 if ramp is None else 1 + np.abs(ramp).max()
    b = 1.0 + sum(abs(x) for x in (lb, ub)
                  if x is not None and np.isfinite(x))
    return 2e-6 * (1 + w * T) * (1 + np.abs(co[:, :2]).sum()) * g * r * b


# ---------------------------------------------------------- (a) generators
@st.composite
def gen_case(draw):
    c = dict(grid=draw(c12.grid(max_ts=12)), how=draw(st.sampled_from(
        ["dyn", "params", "factory"])),
        nco=draw(st.sampled_from([None, 1, 2, 3, 5, 3, 2, 8, 20])),
        free=draw(st.booleans()), rfreq=draw(st.booleans()),
        rco=draw(st.booleans()),
        scaling=draw(st.sampled_from([1.0, 0.5, 4.0, -2.0, 0.0])),
        seed=draw(st.integers(0, 9999)),
        dim=draw(st.sampled_from([2, 3, 5])))
    n = 12
    if draw(st.booleans()):
        c["guess"] = [x / 4.0 for x in draw(st.lists(
            st.integers(-8, 8), min_size=n, max_size=n))]
        c["action"] = draw(st.sampled_from(["MODULATE", "ADD", "add",
                                            "modulate", None, "OTHER"]))
    if draw(st.integers(0, 2)) == 0:
        c["ramp"] = [x / 4.0 for x in draw(st.lists(
            st.integers(0, 8), min_size=n, max_size=n))]
    if draw(st.booleans()):
        c["lb"], c["ub"] = draw(c10.any_bounds(1))
        for k in ("lb", "ub"):
            if isinstance(c[k], list):
                c[k] = c[k][0]
    else:
        c["lb"] = c["ub"] = None
    c["co"] = [[x / 4.0 for x in draw(st.lists(
        st.integers(-12, 12), min_size=15, max_size=15))] for _ in range(3)]
    c["set"] = [draw(st.sampled_from(["vars", "vars", "init", "arg", "list"]))
                for _ in range(3)]
    return c


def build(c, g, tau):
    n = len(tau)
    guess = np.array(c["guess"][:n]) if c.get("guess") else None
    ramp = np.array(c["ramp"][:n]) if c.get("ramp") else None
    at = dict(randomize_freqs=c["rfreq"], randomize_coeffs=c["rco"])
    if guess is not None:
        at["guess_pulse"] = guess.copy()
        at["guess_pulse_action"] = c["action"]
    if ramp is not None:
        at["ramping_pulse"] = ramp.copy()
    if c["lb"] is not None:
        at["lbound"] = c["lb"]
    if c["ub"] is not None:
        at["ubound"] = c["ub"]
    if c["how"] == "params":
        at["scaling"] = c["scaling"]
        if "T" in g:
            at.update(num_tslots=g["n"], pulse_time=g["T"])
        else:
            at["tau"] = np.array(tau)
        if c["seed"] % 2:
            # every parameter through the general factory
            at["fix_freqs"] = not c["free"]
            if c["nco"]:
                at["num_coeffs"] = c["nco"]
            pg = pulsegen.create_pulse_gen("CRAB_FOURIER", pulse_params=at)
        else:
            pg = pulsegen.PulseGenCrabFourier(
                num_coeffs=c["nco"], params=at, fix_freqs=not c["free"])
        if c["seed"] % 3 == 0:
            pg.reset()
        return pg, guess, ramp
    d = c["dim"]
    one = gens.enc(np.diag(np.arange(d)))
    eye = gens.enc(np.eye(d))
    P = Prob(dict(dyn="UNIT", n=d, nts=n, nc=1, drift=[one], td=False,
                  ctrls=[[one]], tc=False, initial=eye, target=eye,
                  state=False, fid="PSU", tau=dict(T=1.0) if "T" in g else
                  list(tau), amps=[[0.0]] * n, cfg={}))
    kw = dict(num_tslots=g["n"], evo_time=g["T"]) if "T" in g \
        else dict(tau=np.array(tau))
    if c["how"] == "factory":
        ap = dict(fix_frequency=not c["free"], crab_pulse_params=at,
                  init_coeff_scaling=c["scaling"])
        if c["nco"]:
            ap["num_coeffs"] = c["nco"]
        kw.update(alg="CRAB", alg_params=ap)
        if c["lb"] is not None:
            kw["amp_lbound"] = c["lb"]
        if c["ub"] is not None:
            kw["amp_ubound"] = c["ub"]
        opt = optimizer(P, **kw)
        pg, = opt.pulse_generator
        opt.dynamics.init_timeslots()
        return pg, guess, ramp
    opt = optimizer(P, **kw)
    if "T" in g:
        opt.dynamics.init_timeslots()
    opt.dynamics.initial_ctrl_scaling = c["scaling"]
    pg = pulsegen.PulseGenCrabFourier(opt.dynamics, num_coeffs=c["nco"],
                                      params=at, fix_freqs=not c["free"])
    return pg, guess, ramp


def check_gen(c, rec):
    g, tau, T, t = c12.times(c)
    np.random.seed(c["seed"])
    pg, guess, ramp = build(c, g, tau)
    pg.init_pulse()
    nco = c["nco"]
    if nco is None:
        nco = 4 if c["how"] == "params" else max(2, c["dim"] - 1)
    nb = 3 if c["free"] else 2
    expect(pg.num_coeffs == nco and pg.num_basis_funcs == nb and
           pg.num_optim_vars == nco * nb,
           "coefficients %s, basis functions %s, variables %s; expected %d, "
           "%d, %d" % (pg.num_coeffs, pg.num_basis_funcs, pg.num_optim_vars,
                       nco, nb, nco * nb))
    co = np.array(pg.coeffs, dtype=float)
    expect(co.shape == (nco, nb), "coefficients have shape %s" % (co.shape,))
    if c["rco"]:
        expect(np.abs(co).max() <= abs(c["scaling"]) * (1 + 1e-12),
               "initial coefficients %s, scaling %g" % (co, c["scaling"]))
        expect(c["scaling"] == 0 or np.ptp(co) > 0, "random coefficients are "
               "all equal %s" % co)
    else:
        expect((co == c["scaling"]).all(), "initial coefficients %s, scaling "
               "%g" % (co, c["scaling"]))
    harm = 2 * np.pi * np.arange(1, nco + 1) / T
    fr = np.array(pg.freqs, dtype=float)
    d = np.abs(fr - harm)
    e = 1e-6 * harm.max()
    if c["rfreq"]:
        expect(d.max() <= 0.5 + e and d.max() > 1e-9, "frequencies %s, "
               "harmonics %s" % (fr, harm))
    else:
        expect(d.max() <= e, "frequencies %s, harmonics %s" % (fr, harm))
    lb, ub = c["lb"], c["ub"]
    action = c.get("action")
    if action == "OTHER":
        action = None
    rec.label(c["how"], "free" if c["free"] else "fixed",
              "guess:%s" % c.get("action") if guess is not None else
              "no guess", "bounded" if lb is not None or ub is not None
              else "unbounded")

    def verify(co, what, got):
        want = series(t, fr, co, c["free"], guess, action, ramp, lb, ub,
                      c["scaling"])
        tol = tol_of(t, T, fr, co, c["free"], guess, ramp, lb, ub)
        got = np.asarray(got)
        expect(got.shape == t.shape, "pulse has shape %s" % (got.shape,))
        # one-sided bounding is not continuous where it sets in
        bad = np.abs(got - want) > tol
        if bad.any() and (lb is None) != (ub is None):
            lo = series(t, fr, co, c["free"], guess, action, ramp, None, None,
                        c["scaling"])
            m = switch(lb, ub, c, nco, guess)
            bad &= np.abs(lo - m) > tol
        expect(not bad.any(), "%s: pulse\n%s\nexpected\n%s\ncoefficients\n%s"
               "\nfrequencies %s" % (what, got, want, co, fr))

    verify(co, "initial", pg.gen_pulse())
    n = nco * nb
    for k, (v, how) in enumerate(zip(c["co"], c["set"])):
        v = np.resize(np.array(v), n)
        what = "coefficients %d set by %s" % (k, how)
        shaped = v.reshape(nco, nb)
        if how == "vars":
            pg.set_optim_var_vals(v.copy())
            got = pg.gen_pulse()
        elif how == "list":
            pg.init_coeffs(init_coeffs=list(v))
            got = pg.gen_pulse()
        elif how == "init":
            pg.init_coeffs(init_coeffs=v.copy())
            got = pg.gen_pulse()
        else:
            got = pg.gen_pulse(shaped.copy())
        verify(shaped, what, got)
        r = list(pg.get_optim_var_vals())
        expect(r == list(v), what + ": variables %s read back as %s"
               % (list(v), r))
        pg.set_optim_var_vals(np.array(r))
        again = pg.gen_pulse()
        expect(np.array_equal(got, again), what + ": writing the variables "
               "back changed the pulse %s to %s" % (got, again))
    # the pulses given are not changed
    if guess is not None:
        expect(np.array_equal(pg.guess_pulse, guess), "guess pulse changed")
    if ramp is not None:
        expect(np.array_equal(pg.ramping_pulse, ramp), "ramping pulse changed")
    if len(t) < 2 or not any(np.any(v) for v in c["co"]):
        rec.trivial()


def switch(lb, ub, c, nco, guess):
    lb = None if lb is None or np.isinf(lb) else lb
    ub = None if ub is None or np.isinf(ub) else ub
    g = 0.0
    if guess is not None:
        g = max(guess.max() - guess.min(), guess.max())
    room = abs(c["scaling"] * nco + g)
    if ub is not None:
        return 0.0 if ub > 0 else ub - room
    if lb is None:
        return np.inf
    return 0.0 if lb < 0 else lb + room


# ------------------------------------------------------- random initial values
def check_random(c, rec):
    """Many random coefficients and frequencies fill their documented ranges
    (each bound below fails by chance once in 1e9)."""
    np.random.seed(c["seed"])
    pg = pulsegen.PulseGenCrabFourier(
        num_coeffs=c["nco"], fix_freqs=not c["free"], params=dict(
            scaling=c["scaling"], num_tslots=c["nts"], pulse_time=c["T"],
            tau=np.full(c["nts"], c["T"] / c["nts"])))
    pg.init_pulse()
    r = np.array(pg.coeffs, dtype=float).ravel() / c["scaling"]
    expect(np.abs(r).max() <= 1 + 1e-12, "coefficients %s times the scaling"
           % r)
    expect(r.max() > 0.8 and r.min() < -0.8, "coefficients only from %g to %g "
           "times the scaling" % (r.min(), r.max()))
    d = np.array(pg.freqs) - 2 * np.pi * np.arange(1, c["nco"] + 1) / c["T"]
    expect(np.abs(d).max() <= 0.5 * (1 + 1e-9) + 1e-12 * c["nco"] / c["T"],
           "frequencies differ from the harmonics by up to %g"
           % np.abs(d).max())
    expect(d.max() > 0.4 and d.min() < -0.4, "frequencies differ from the "
           "harmonics by %g to %g only" % (d.min(), d.max()))


random_case = st.fixed_dictionaries(dict(
    seed=st.integers(0, 10 ** 6), nco=st.integers(200, 400),
    free=st.booleans(), nts=st.integers(1, 4),
    scaling=st.sampled_from([1.0, 0.25, 2.0 ** -10, 4.0, 100.0, -3.0]),
    T=st.sampled_from([1.0, 0.125, 8.0, 100.0, 2.0 ** 12])))


# ------------------------------------------- one generator, used repeatedly
@st.composite
def reuse_case(draw):
    c = draw(gen_case())
    c["how"] = draw(st.sampled_from(["dyn", "params"]))
    c["first"] = draw(st.sampled_from(["init", "gen", "arg", "arg"]))
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        k = draw(st.sampled_from(
            ["gen", "vars", "arg", "list", "init", "init_nco", "init_co",
             "scaling", "bounds", "guess", "action", "ramp", "rfreq", "rco",
             "reset", "tau", "scribble"]))
        o = dict(op=k, seed=draw(st.integers(0, 999)))
        if k in ("vars", "arg", "list", "init_co"):
            o["v"] = [x / 4.0 for x in draw(st.lists(
                st.integers(-12, 12), min_size=15, max_size=15))]
        if k == "init_nco" or k == "init_co":
            o["nco"] = draw(st.integers(1, 5))
        elif k == "scaling":
            o["v"] = draw(st.sampled_from([1.0, 0.5, 4.0, -2.0]))
        elif k == "bounds":
            o["v"] = [draw(st.sampled_from([None, -1.0, -2.0, 0.0])),
                      draw(st.sampled_from([None, 1.0, 0.5, 3.0]))]
        elif k in ("guess", "ramp"):
            o["v"] = draw(st.one_of(st.none(), st.lists(
                st.integers(-8, 8).map(lambda x: x / 4.0), min_size=12,
                max_size=12)))
        elif k == "action":
            o["v"] = draw(st.sampled_from(["MODULATE", "ADD", None]))
        elif k in ("rfreq", "rco"):
            o["v"] = draw(st.booleans())
        elif k == "tau":
            o["v"] = [x / 16.0 for x in draw(
                st.lists(st.integers(1, 32), min_size=1, max_size=12))]
        ops.append(o)
    c["ops"] = ops
    return c


def check_reuse(c, rec):
    """Settings in force at the last initialisation and the coefficients
    given last make the pulse, whatever was set and generated before."""
    g, tau, T, t = c12.times(c)
    np.random.seed(c["seed"])
    pg, guess, ramp = build(c, g, tau)
    S = dict(nco=c["nco"] or (4 if c["how"] == "params" else
                              max(2, c["dim"] - 1)),
             scaling=c["scaling"], lb=c["lb"], ub=c["ub"], guess=guess,
             action="MODULATE" if guess is None else c["action"],
             ramp=ramp, rfreq=c["rfreq"],
             rco=c["rco"])
    first, grid0 = dict(S), (tau, T, t)
    # the guess pulse is None or has the length of the grid
    co, fr = None, None
    stale = True    # something changed since the last initialisation
    nb = 3 if c["free"] else 2
    given = [None]

    def fit(v):
        return None if v is None else np.resize(np.array(v), len(t))

    def inited():
        nonlocal co, fr, stale
        stale = False
        n = S["nco"]
        fr = np.array(pg.freqs, dtype=float)
        harm = 2 * np.pi * np.arange(1, n + 1) / T
        expect(fr.shape == harm.shape, "%d coefficients, frequencies %s" % (
            n, fr))
        d = np.abs(fr - harm)
        e = 1e-6 * harm.max()
        expect((0 if not S["rfreq"] else 1e-9) <= d.max() <=
               e + (0.5 if S["rfreq"] else 0), "frequencies %s, harmonics %s, "
               "randomised: %s" % (fr, harm, S["rfreq"]))
        if co is None:
            co = np.array(pg.coeffs, dtype=float)
            expect(co.shape == (n, nb), "coefficients have shape %s" % (
                co.shape,))
            expect((np.abs(co) <= abs(S["scaling"]) * (1 + 1e-12)).all() if
                   S["rco"] else (co == S["scaling"]).all(), "initial "
                   "coefficients %s, scaling %g" % (co, S["scaling"]))
        expect(pg.num_coeffs == n and pg.num_optim_vars == n * nb,
               "%s coefficients, %s variables; expected %d, %d" % (
                   pg.num_coeffs, pg.num_optim_vars, n, n * nb))

    def verify(got, what):
        act = S["action"]
        act = None if act == "OTHER" else act
        args = (t, fr, co, c["free"], S["guess"], act, S["ramp"])
        want = series(*args, S["lb"], S["ub"], S["scaling"])
        tol = tol_of(t, T, fr, co, c["free"], S["guess"], S["ramp"],
                     S["lb"], S["ub"])
        bad = np.abs(np.asarray(got) - want) > tol
        if bad.any() and (S["lb"] is None) != (S["ub"] is None):
            lo = series(*args, None, None, S["scaling"])
            m = switch(S["lb"], S["ub"], S, S["nco"], S["guess"])
            bad &= np.abs(lo - m) > tol
        expect(not bad.any(), "%s: pulse\n%s\nexpected\n%s\ncoefficients\n"
               "%s\nfrequencies %s" % (what, got, want, co, fr))
        expect(np.array_equal(np.ravel(pg.get_optim_var_vals()), co.ravel()),
               "%s: variables %s, coefficients %s" % (
                   what, pg.get_optim_var_vals(), co))

    def values(o):
        return np.resize(np.array(o["v"]), (S["nco"], nb))

    if c["first"] == "init":
        pg.init_pulse()
        inited()
    elif c["first"] == "gen":
        got = pg.gen_pulse()
        inited()
        verify(got, "first pulse")
    else:
        co = values(dict(v=c["co"][0]))
        given[0] = co.copy()
        got = pg.gen_pulse(given[0])
        inited()
        verify(got, "first pulse, of given coefficients")
    rec.label("first: " + c["first"], c["how"])
    moved = 0
    for i, o in enumerate(c["ops"]):
        k, what = o["op"], "step %d (%s)" % (i, o["op"])
        np.random.seed(o["seed"])
        if k == "scribble":
            # arrays given earlier are the caller's own
            if given[0] is not None:
                given[0][:] = 7.5
            k = "gen"
        if k == "reset":
            pg.reset()
            # (the number of coefficients is not an attribute that is reset
            # unless given as a parameter)
            S.update({x: y for x, y in first.items() if x != "nco"})
            tau, T, t = grid0
            if c["nco"] and "num_coeffs" in (pg.params or {}):
                S["nco"] = c["nco"]
            stale = True
            continue
        if k in ("scaling", "rfreq", "rco", "action", "guess", "ramp"):
            name = dict(scaling="scaling", rfreq="randomize_freqs",
                        rco="randomize_coeffs", action="guess_pulse_action",
                        guess="guess_pulse", ramp="ramping_pulse")[k]
            v = fit(o["v"]) if k in ("guess", "ramp") else o["v"]
            if k == "guess" and v is None and S["guess"] is not None:
                # (taken away: only by a reset)
                continue
            setattr(pg, name, v.copy() if isinstance(v, np.ndarray) else v)
            S[k] = v
            stale = True
            continue
        if k == "bounds":
            pg.lbound, pg.ubound = o["v"]
            S["lb"], S["ub"] = o["v"]
            stale = True
            continue
        if k == "tau":
            if c["how"] == "dyn":
                continue
            tau = np.array(o["v"])
            T = float(tau.sum())
            t = np.concatenate([[0.0], np.cumsum(tau)[:-1]])
            pg.tau = tau.copy()
            for q, name in (("guess", "guess_pulse"),
                            ("ramp", "ramping_pulse")):
                if S[q] is not None:
                    S[q] = fit(S[q])
                    setattr(pg, name, S[q].copy())
            stale = True
            continue
        if stale or k.startswith("init"):
            co = None
            if k == "init_nco":
                S["nco"] = o["nco"]
                pg.init_pulse(num_coeffs=o["nco"])
            elif k == "init_co":
                S["nco"] = o["nco"]
                co = values(o)
                pg.init_pulse(num_coeffs=o["nco"], init_coeffs=co.ravel())
            else:
                pg.init_pulse()
            inited()
            verify(pg.gen_pulse(), what + " after initialisation")
        if k == "vars":
            co = values(o)
            pg.set_optim_var_vals(co.ravel())
        elif k == "list":
            co = values(o)
            pg.init_coeffs(init_coeffs=list(co.ravel()))
        if k == "arg":
            co = values(o)
            given[0] = co.copy()
            got = pg.gen_pulse(given[0])
        else:
            got = pg.gen_pulse()
        moved += 1
        verify(got, what)
        rec.label(k)
    if not moved:
        rec.trivial()


# -------------------------------------------------------- (b) optimisations
@st.composite
def optim_case(draw):
    c = draw(runs.run_case(algs=("CRAB",), max_runs=2, max_ts=5, max_nc=3,
                           big=0))
    if draw(st.booleans()):
        c["lb"] = c["ub"] = None
    if draw(st.booleans()):
        c["guess"] = dict(
            type=draw(st.sampled_from(c10.PULSES[1:])),
            scaling=draw(st.sampled_from([1.0, 0.5, 3.0])),
            offset=draw(st.sampled_from([0.0, 0.5])),
            action=draw(st.sampled_from(["MODULATE", "ADD", None])))
    if draw(st.integers(0, 2)) == 0:
        c["ramp"] = draw(st.sampled_from(["GAUSSIAN_EDGE", "GAUSSIAN"]))
    c["cscale"] = draw(st.sampled_from([1.0, 1.0, 4.0, 0.25]))
    c["fixf"] = draw(st.booleans())
    c["ncos"] = draw(st.lists(st.integers(1, 3), min_size=3, max_size=3))
    return c


def partition(x, pgs):
    out, off = [], 0
    for pg in pgs:
        n = pg.num_coeffs * (2 if pg.fix_freqs else 3)
        out.append(x[off:off + n].reshape(pg.num_coeffs, -1))
        off += n
    expect(off == len(x), "%d variables for %d coefficients" % (len(x), off))
    return out


def check_optim(c, rec):
    np.random.seed(c["seed"])
    P, opt = runs.make(c, **c10.crab_kw(c))
    dyn = opt.dynamics
    pgs = opt.pulse_generator
    expect(len(pgs) == P.nc, "%d generators for %d controls"
           % (len(pgs), P.nc))
    amps = np.empty((P.nts, P.nc))
    for j, pg in enumerate(pgs):
        # different numbers of coefficients for the controls
        pg.init_pulse(num_coeffs=c["ncos"][j])
        amps[:, j] = pg.gen_pulse()
    dyn.initialize_controls(amps.copy())
    tau = np.array(dyn.tau, dtype=float)
    T = float(tau.sum())
    t = np.concatenate([[0.0], np.cumsum(tau)[:-1]])
    x0 = np.concatenate([pg.get_optim_var_vals() for pg in pgs])
    frs = [np.array(pg.freqs) for pg in pgs]
    guesses = [None if pg.guess_pulse is None else np.array(pg.guess_pulse)
               for pg in pgs]
    ramps = [None if pg.ramping_pulse is None else np.array(pg.ramping_pulse)
             for pg in pgs]
    expect(all((g is not None) == bool(c.get("guess")) for g in guesses),
           "guess pulses %s" % guesses)
    expect(all((r is not None) == bool(c.get("ramp")) for r in ramps),
           "ramping pulses %s" % ramps)
    expect(len(pgs) < 2 or not np.array_equal(frs[0], frs[1]) or
           len(frs[0]) == 0, "equal random frequencies %s" % frs)
    rec.label(c["method"], "nc=%d" % P.nc,
              "fixed" if c["fixf"] else "free")

    def verify(x, got, what):
        for j, (pg, co) in enumerate(zip(pgs, partition(x, pgs))):
            lb = runs.bound(c["lb"], j, None)
            ub = runs.bound(c["ub"], j, None)
            act = (c.get("guess") or {}).get("action") or "MODULATE"
            want = series(t, frs[j], co, not c["fixf"], guesses[j], act,
                          ramps[j], lb, ub, c["cscale"])
            tol = tol_of(t, T, frs[j], co, not c["fixf"], guesses[j],
                         ramps[j], lb, ub)
            bad = np.abs(got[:, j] - want) > tol
            if bad.any() and (lb is None) != (ub is None):
                raw = series(t, frs[j], co, not c["fixf"], guesses[j], act,
                             ramps[j], None, None, c["cscale"])
                m = switch(lb, ub, dict(scaling=c["cscale"]), co.shape[0],
                           guesses[j])
                bad &= np.abs(raw - m) > tol
            expect(not bad.any(), "%s: amplitudes of control %d\n%s\nexpected"
                   "\n%s\nfor coefficients %s" % (what, j, got[:, j], want,
                                                  co))

    verify(x0, amps, "start")
    moved = False
    for i, d in enumerate(c["runs"]):
        tc = runs.term_conds(d, 1.0)
        x0 = np.concatenate([pg.get_optim_var_vals() for pg in pgs])
        res, obs = runs.run(opt, tc)
        fs = [e for e in obs.events if e.kind in "fg"]
        if fs:
            expect(np.allclose(fs[0].x, x0, rtol=0, atol=1e-12),
                   "run %d starts with variables %s instead of %s" % (
                       i, fs[0].x, x0))
        for k, e in enumerate(fs):
            verify(np.ravel(e.x), e.amps, "run %d call %d" % (i, k))
            moved = moved or not np.array_equal(e.x, x0)
        x = np.concatenate([pg.get_optim_var_vals() for pg in pgs])
        verify(x, res.final_amps, "run %d final" % i)
        expect(opt.num_optim_vars == len(x), "num_optim_vars %s, %d variables"
               % (opt.num_optim_vars, len(x)))
    if not moved:
        rec.trivial()


PARTS = [
    Part("generator", gen_case(), check_gen, quick=4000, thorough=50000),
    Part("reuse", reuse_case(), check_reuse, quick=2000, thorough=20000),
    Part("optimisation", optim_case(), check_optim, quick=800,
         thorough=10000),
    Part("random", random_case, check_random, quick=200, thorough=2000),
]
