"""Loading parameters from ini files."""
import pathlib
import tempfile
import os

from hypothesis import strategies as st
import numpy as np
from qutip import Qobj

from common import expect
from core import Part, Violation

import qutip_qtrl.dynamics as dynamics
import qutip_qtrl.loadparams as loadparams
import qutip_qtrl.optimconfig as optimconfig
import qutip_qtrl.optimizer as optimizer
import qutip_qtrl.pulsegen as pulsegen
import qutip_qtrl.termcond as termcond

ID = "C17"
RULE = ("A case is one or two parameter files (sections in any order, with "
        "comments, both delimiters, values in every notation accepted for "
        "the type of the attribute, possibly malformed ones) and a set of "
        "objects to load them into. All attributes of all objects are "
        "compared before and after. Non-trivial: at least two attributes "
        "are set by the files.")

SECTION = dict(config="optimconfig", term_conds="termconds",
               dynamics="dynamics", optim="optimizer", pulsegen="pulsegen",
               obj="mine")
PULSES = ["RND", "RNDFOURIER", "RNDWAVES", "RNDWALK1", "RNDWALK2", "LIN",
          "ZERO", "SINE", "SQUARE", "SAW", "TRIANGLE", "GAUSSIAN",
          "CRAB_FOURIER", "GAUSSIAN_EDGE"]


class Plain:
    """An object with attributes of every type."""

    def __init__(self):
        self.i1, self.i2 = 3, 0
        self.f1, self.f2 = 0.5, float("inf")
        self.b1, self.b2 = True, False
        self.s1, self.s2 = "text", ""
        self.c1 = 1 + 2j
        self.n1, self.n2 = None, None
        self.l1 = [1, 2]
        self.af = np.zeros(3)
        self.ai = np.array([1, 2])
        self.ac = np.array([[1j, 0], [0, 1]])
        self.a2 = np.ones((2, 3))
        self.q1 = Qobj([[1, 0], [0, 1]])


def make(kind, sub):
    cfg = optimconfig.OptimConfig()
    if kind == "config":
        return cfg
    if kind == "term_conds":
        return termcond.TerminationConditions()
    dyn = [dynamics.DynamicsUnitary, dynamics.DynamicsGenMat,
           dynamics.DynamicsSymplectic]
    if kind == "dynamics":
        return dyn[sub % 3](cfg)
    if kind == "optim":
        c = [optimizer.Optimizer, optimizer.OptimizerBFGS,
             optimizer.OptimizerLBFGSB, optimizer.OptimizerCrab]
        return c[sub % 4](cfg, dyn[0](cfg))
    if kind == "pulsegen":
        return pulsegen.create_pulse_gen(PULSES[sub % len(PULSES)])
    return Plain()


PROPS = dict(dynamics=dict(evo_time="float", num_tslots="int",
                           dumping="level"),
             optim=dict(dumping="level"))
SKIP = {"config", "dynamics", "fid_computer", "prop_computer",
        "tslot_computer", "parent", "dump", "time"}


def typ(v):
    if v is None:
        return "none"
    for t, n in ((bool, "bool"), (int, "int"), (float, "float"),
                 (str, "str"), (complex, "complex"), (list, "list"),
                 (Qobj, "qobj")):
        if type(v) is t:
            return n
    if isinstance(v, np.ndarray):
        return "nd" + v.dtype.kind
    return None


def attributes(kind, sub):
    """Names and types of the attributes a file may set."""
    o = make(kind, sub)
    d = {}
    for k, v in vars(o).items():
        if k.startswith("_") or k in SKIP or k != k.lower():
            continue
        t = typ(v)
        if t:
            d[k] = t
    d.update(PROPS.get(kind, {}))
    return d


ATTRS = {}


def attrs(kind, sub):
    n = dict(config=1, term_conds=1, dynamics=3, optim=4,
             pulsegen=len(PULSES), obj=1)[kind]
    key = (kind, sub % n)
    if key not in ATTRS:
        ATTRS[key] = sorted(attributes(*key).items())
    return ATTRS[key]


def value(t, text):
    """What a well-formed text stands for."""
    if t in ("str", "level"):
        return text
    if t in ("int", "float", "none_int", "none_float", "complex"):
        return eval(text, {"np": np, "inf": np.inf, "nan": np.nan})
    if t in ("bool", "none_bool"):
        return text.lower() in ("1", "yes", "true", "on")
    if t == "none_text":
        return text
    v = eval(text, {"np": np, "Qobj": Qobj})
    if t == "list":
        return list(v)
    if t == "qobj":
        return Qobj(v)
    return np.array(v, dtype={"ndf": float, "ndi": int, "ndc": complex}[t])


def same(a, b, t):
    if t.startswith("nd"):
        return (isinstance(a, np.ndarray) and a.dtype == b.dtype
                and np.array_equal(a, b))
    if t == "qobj":
        return isinstance(a, Qobj) and a.dims == b.dims and np.array_equal(
            a.full(), b.full())
    if t in ("bool", "none_bool"):
        return type(a) is bool and a is b
    if t in ("int", "none_int"):
        return type(a) is int and a == b
    if t in ("float", "none_float", "complex"):
        return type(a) is (complex if t == "complex" else float) and a == b
    return type(a) is type(b) and a == b


WORDS = ["abc", "LIN", "DEF", "two words", "a=b", "x:y", "12", "1.5", "yes",
         "True", "0", "None", "[1, 2]", "a;b", "1e3", "FMIN_L_BFGS_B", "-", '"quoted"',
         "'x y'", "a, b", "no # comment", "%d" % 10, "nan"]


def texts(t):
    if t == "int":
        return st.one_of(st.integers(-10 ** 6, 10 ** 12).map(str),
                         st.integers(0, 99).map(lambda i: "+%d" % i))
    if t == "float":
        return st.one_of(
            st.floats(allow_nan=False).map(repr), st.integers(-9, 99).map(str),
            st.sampled_from(["1e-10", ".5", "2.", "1E6", "inf", "-inf",
                             "2*np.pi", "1/4", "2**0.5", "60*60*2",
                             "np.sqrt(2)"]))
    if t == "bool":
        return st.sampled_from(["1", "0", "yes", "no", "true", "False", "ON",
                                "off", "True", "FALSE", "Yes"])
    if t == "str":
        return st.sampled_from(WORDS)
    if t == "level":
        return st.sampled_from(["SUMMARY", "FULL"])
    if t == "complex":
        return st.sampled_from(["1+2j", "3", "-1j", "0.5-0.25j", "1e3j",
                                "1.0000001+2j", "1+2.000000001j", "1-2j"])
    if t == "none_int":
        return st.integers(-9, 10 ** 6).map(str)
    if t == "none_float":
        return st.floats(allow_nan=False, allow_infinity=False).map(repr)
    if t == "none_bool":
        return st.sampled_from(["yes", "no", "true", "False", "ON", "off"])
    if t == "none_text":
        return st.sampled_from(["abc", "two words", "Qobj", "a=b", "x:y",
                                "no # comment"])
    if t == "list":
        return st.sampled_from(["[1, 2.5, 'a']", "(1, 2)", "[]", "[[1], [2]]",
                                "range(3)"])
    if t == "ndf":
        return st.sampled_from(["[1, 2]", "[0.5, 1e-3]", "[1, 2, 3, 4, 5, 6]",
                                "[[1, 2], [3, 4], [5, 6]]", "[[1, 2, 3]]", "[[1, 0], [0, 1]]",
                                "np.arange(3)", "0.25", "[1e-9, 0, 1e-10]",
                                "np.ones((2, 3)) * (1 + 1e-7)"])
    if t == "ndi":
        return st.sampled_from(["[1, 2]", "[[1, 0], [0, 1]]", "np.arange(3)"])
    if t == "ndc":
        return st.sampled_from(["[1, 2]", "[1j, 0.5]", "np.eye(2)*1j",
                                "[1, 2j, 3, 4]", "[[1], [2], [3], [4j]]"])
    if t == "qobj":
        return st.sampled_from(["[[1, 0], [0, 1]]", "[[0, -1j], [1j, 0]]",
                                "np.eye(3)", "[[1], [0]]",
                                "np.eye(2) * (1 + 1e-7)"])
    raise AssertionError(t)


BAD = dict(int=["abc", "1.5", "1e3", "", "[1]"],
           float=["abc", "1,5 x", "", "1..2"],
           bool=["abc", "2", "maybe", "", "y", "t", "n", "1.0", "T"],
           complex=["abc", "1+2k", "", "3 - 4j", "(1+3j"],
           ndf=["abc", "[1, 'x']", "[[1, 0], [1]]"],
           ndi=["abc", "[1,"], ndc=["abc"], list=["abc", "5", "[1"],
           qobj=["abc", "[[1, 0],"])


def snapshot(o):
    d = {}
    for k, v in vars(o).items():
        d[k] = np.array(v) if isinstance(v, np.ndarray) else (
            list(v) if isinstance(v, list) else v)
    return d


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and \
            a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, (int, float, complex, str, bool, list, type(None))):
        return type(a) is type(b) and (a == b or (a != a and b != b))
    return a is b


def write(path, f):
    with open(path, "w") as out:
        for s in f["sections"]:
            out.write("[%s]\n" % s["name"])
            for i, (k, v) in enumerate(s["options"]):
                st_ = (f["style"] + i) % 6
                if st_ == 3:
                    out.write("# comment\n\n")
                if f["upper"]:
                    k = k.upper()
                out.write({0: "%s=%s\n", 1: "%s = %s\n", 2: "%s: %s\n",
                           3: "%s =%s\n", 4: "%s  :  %s   \n",
                           5: "%s= %s\n; other comment\n"}[st_] % (k, v))
            out.write("\n")


def check(c, rec):
    objs = {k: make(k, s) for k, s in c["objs"]}
    every = dict(objs)
    sub = dict(c["objs"])
    nset = 0
    with tempfile.TemporaryDirectory() as d:
        for i, f in enumerate(c["files"]):
            path = os.path.join(d, "p%d.ini" % i)
            write(path, f)
            given = {k: o for k, o in objs.items() if k in f["load"]}
            pvals = {k: {p: getattr(o, p) for p in PROPS.get(k, {})}
                     for k, o in every.items()}
            before = {k: snapshot(o) for k, o in every.items()}
            kw = dict(given)
            if "obj" in kw:
                kw["section"] = "mine"
            if f["path"]:
                path = pathlib.Path(path)
            loadparams.load_parameters(path, **kw)
            for k, o in every.items():
                sec = next((s for s in f["sections"]
                            if s["name"] == SECTION[k]), None)
                opts = dict(sec["options"]) if sec and k in given else {}
                types = dict(attrs(k, sub[k]))
                bad = sec["bad"] if sec else None
                names = [n for n, _ in sec["options"]] if sec else []
                props_set = [n for n in opts if n in PROPS.get(k, {})]
                for n, text in opts.items():
                    if n not in types:
                        continue
                    what = "%s.%s = %s" % (SECTION[k], n, text)
                    cur = getattr(o, n)
                    old = (pvals[k][n] if n in PROPS.get(k, {})
                           else before[k][n])
                    if bad is not None and n == bad:
                        expect(eq(cur, old), "%s: malformed, but the value "
                               "changed from %r to %r" % (what, old, cur))
                        rec.label("malformed " + types[n])
                        continue
                    t = sec["types"][n]
                    want = value(t, text)
                    if bad is not None and names.index(n) > names.index(bad):
                        expect(same(cur, want, t) or eq(cur, old),
                               "%s: after a malformed option the value is "
                               "%r" % (what, cur))
                        continue
                    if not same(cur, want, t):
                        raise Violation("%s: the attribute (was %r) is %r, "
                                        "expected %r" % (what, old, cur,
                                                         want))
                    nset += 1
                    rec.label("type " + t)
                # nothing else changes
                for n, v in before[k].items():
                    if n in opts:
                        continue
                    if props_set and (n.startswith("_") or n in (
                            "dump", "stats", "time")):
                        continue
                    if not eq(getattr(o, n), v):
                        raise Violation(
                            "%s of %s changed from %r to %r, but the file "
                            "does not name it" % (n, k, v, getattr(o, n)))
                for n in vars(o):
                    expect(n in before[k] or n in opts or props_set,
                           "new attribute %s" % n)
    if nset < 2:
        rec.trivial()


@st.composite
def section(draw, kind, sub, bad_ok=True):
    names = attrs(kind, sub)
    pick = draw(st.lists(st.sampled_from(names), max_size=6,
                         unique_by=lambda x: x[0]))
    opts, types, bad = [], {}, None
    for n, t in pick:
        if t == "none":
            t = draw(st.sampled_from(["none_int", "none_float", "none_bool",
                                      "none_text"]))
        if n in PROPS.get(kind, {}) and n in ("evo_time", "num_tslots"):
            text = str(draw(st.integers(1, 20)))
        elif bad_ok and bad is None and t in BAD and \
                draw(st.integers(0, 7)) == 0:
            text = draw(st.sampled_from(BAD[t]))
            bad = n
        elif t == "float" and draw(st.integers(0, 5)) == 0:
            # a value close to the present one
            v = float(getattr(make(kind, sub), n))
            text = repr(v * draw(st.sampled_from([1 + 1e-7, 1 - 1e-10, 1.0,
                                                  -1.0]))
                        if v else draw(st.sampled_from([1e-10, -1e-14])))
        else:
            text = draw(texts(t))
        opts.append([n, text])
        types[n] = t
    if draw(st.integers(0, 4)) == 0:
        opts.insert(draw(st.integers(0, len(opts))),
                    ["no_such_thing", "5"])
    if bad is not None and draw(st.booleans()):
        opts.sort(key=lambda o: o[0] == bad)
    return dict(name=SECTION[kind], options=opts, types=types, bad=bad)


@st.composite
def strat(draw):
    kinds = draw(st.lists(st.sampled_from(sorted(SECTION)), min_size=1,
                          max_size=6, unique=True))
    objs = [[k, draw(st.integers(0, 27))] for k in kinds]
    two = draw(st.integers(0, 2)) == 0
    files = []
    for i in range(2 if two else 1):
        secs = []
        for k, s in objs:
            if draw(st.integers(0, 5)):
                secs.append(draw(section(k, s, bad_ok=True)))
        secs = draw(st.permutations(secs)) if len(secs) > 1 else secs
        # in a second file types are those of the values now there
        if i == 1:
            for s in secs:
                prev = next((x for x in files[0]["sections"]
                             if x["name"] == s["name"]), None)
                s["options"] = [
                    [n, v] for n, v in s["options"]
                    if not (s["types"].get(n, "") in
                            ("none_int", "none_float", "none_bool",
                             "none_text")
                            and prev and n in prev["types"])
                    # an unset value, or a list etc. set before
                ]
                if s["bad"] not in [n for n, _ in s["options"]]:
                    s["bad"] = None
        load = [k for k in kinds if draw(st.integers(0, 5))]
        files.append(dict(sections=[dict(s) for s in secs], load=load,
                          style=draw(st.integers(0, 5)),
                          upper=draw(st.integers(0, 4)) == 0,
                          path=draw(st.booleans())))
    return dict(objs=objs, files=files)


def check_reject(c, rec):
    o = make(*c["obj"])
    before = snapshot(o)
    kw = {c["obj"][0]: o}
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "p.ini")
        if c["why"] == "missing file":
            if c["obj"][0] == "obj":
                kw["section"] = "mine"
        else:
            with open(path, "w") as f:
                f.write("[mine]\ni1 = 7\n")
            kw = dict(obj=o)
            if c["why"] == "section not text":
                kw["section"] = c["section"]
        try:
            loadparams.load_parameters(path, **kw)
        except ValueError:
            pass
        else:
            raise Violation("%s is accepted" % c["why"])
    for n, v in before.items():
        expect(eq(getattr(o, n), v), "%s changed" % n)
    rec.label(c["why"])


reject = st.fixed_dictionaries(dict(
    obj=st.tuples(st.sampled_from(sorted(SECTION)), st.integers(0, 27)),
    why=st.sampled_from(["missing file", "section missing",
                         "section not text"]),
    section=st.sampled_from([None, 5, ["mine"]])))

PARTS = [Part("files", strat(), check, 6000, 60000),
         Part("rejected", reject, check_reject, 200, 1000)]
