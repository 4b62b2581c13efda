"""Random small changes of the code under test: which checks notice them.

usage: mutate.py OUTDIR COVDIR N [seed] [workers]
COVDIR holds the output of cover.py for every check.  Every change that leaves
the repository's own tests passing is given to the checks that execute the
changed line, with reduced numbers of cases, until one reports a violation.
Results are appended to OUTDIR/results.jsonl; the rest (noticed by no check)
is for looking at by hand.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
CHECK = os.path.join(HERE, "..", "check.sh")
PKG = "src/qutip_qtrl"
FILES = ["dump.py", "dynamics.py", "fidcomp.py", "grape.py", "io.py",
         "loadparams.py", "optimizer.py", "optimresult.py", "propcomp.py",
         "pulsegen.py", "pulseoptim.py", "stats.py", "symplectic.py",
         "termcond.py", "tslotcomp.py"]
SKIP_CLASSES = {"TSlotCompDynUpdate", "EvoCompSummary"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
       ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
       ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*",
       ast.Pow: "*", ast.FloorDiv: "*", ast.MatMult: "*"}


def sites(src):
    """(line, start offset, end offset, new text, description)"""
    tree = ast.parse(src)
    starts = [0]
    for line in src.splitlines(True):
        starts.append(starts[-1] + len(line.encode()))
    out = []

    def pos(n):
        return (starts[n.lineno - 1] + n.col_offset,
                starts[n.end_lineno - 1] + n.end_col_offset)

    def add(n, new, desc):
        a, b = pos(n)
        out.append((n.lineno, a, b, new, desc))

    def u(n):
        return ast.unparse(n)

    def is_log(n):
        t = u(n)
        return t.startswith(("logger.", "warnings.", "metalogger.", "_func_dep",
                             "_attrib_dep", "_param_dep"))

    def visit(n, infunc):
        if isinstance(n, ast.ClassDef) and n.name in SKIP_CLASSES:
            return
        if isinstance(n, ast.stmt):
            if isinstance(n, ast.Expr):
                if isinstance(n.value, ast.Constant) or is_log(n.value):
                    return
                if infunc:
                    add(n, "pass", "statement removed")
            elif isinstance(n, (ast.Assign, ast.AugAssign)) and infunc:
                if u(n).startswith(("msg", "errmsg", "err_msg")):
                    return
                add(n, "pass", "statement removed")
            elif isinstance(n, ast.Raise):
                return
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                return
            elif isinstance(n, ast.If):
                if infunc:
                    add(n.test, "(True or (%s))" % u(n.test), "if True")
                    add(n.test, "(False and (%s))" % u(n.test), "if False")
            elif isinstance(n, ast.Return) and n.value is not None:
                pass
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            op = CMP.get(type(n.ops[0]))
            if op:
                add(n, "%s %s %s" % (u(n.left), op, u(n.comparators[0])),
                    "comparison " + op)
        elif isinstance(n, ast.BinOp):
            op = BIN.get(type(n.op))
            if op and not isinstance(n.left, (ast.JoinedStr,)) and not (
                    isinstance(n.left, ast.Constant) and
                    isinstance(n.left.value, str)):
                add(n, "(%s) %s (%s)" % (u(n.left), op, u(n.right)),
                    "operator " + op)
                if op in ("-", "+"):
                    add(n, u(n.left), "right operand dropped")
        elif isinstance(n, ast.BoolOp):
            op = "or" if isinstance(n.op, ast.And) else "and"
            add(n, "(" + (" %s " % op).join("(%s)" % u(v) for v in n.values) +
                ")", "bool " + op)
        elif isinstance(n, ast.UnaryOp):
            add(n, "(%s)" % u(n.operand), "unary dropped")
        elif isinstance(n, ast.Constant) and infunc:
            if n.value is True or n.value is False:
                add(n, str(not n.value), "boolean")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "constant + 1")
                if n.value:
                    add(n, str(n.value - 1), "constant - 1")
            elif isinstance(n.value, float):
                add(n, repr(n.value * 2 if n.value else 0.5), "float")
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in (
                    "copy", "conj", "dag", "transpose", "upper", "lower",
                    "clear", "ravel", "flatten"):
                if not n.args and f.attr != "clear":
                    add(n, u(f.value), f.attr + " dropped")
            if len(n.args) == 1 and not n.keywords and u(f) in (
                    "abs", "np.abs", "np.array", "float", "int", "np.real",
                    "list", "dict", "copy.copy", "np.sqrt", "np.conj"):
                add(n, "(%s)" % u(n.args[0]), u(f) + " dropped")
            if len(n.args) >= 2 and not any(
                    isinstance(a, ast.Starred) for a in n.args):
                m = ast.unparse(n.args[1]), ast.unparse(n.args[0])
                rest = [u(a) for a in n.args[2:]] + [
                    (k.arg + "=" if k.arg else "**") + u(k.value)
                    for k in n.keywords]
                if m[0] != m[1] and u(f) not in ("isinstance", "hasattr",
                                                 "getattr"):
                    add(n, "%s(%s)" % (u(f), ", ".join(list(m) + rest)),
                        "arguments swapped")
            for i, k in enumerate(n.keywords):
                if k.arg:
                    c = ast.Call(n.func, n.args, [x for j, x in enumerate(
                        n.keywords) if j != i])
                    add(n, u(c), "keyword %s dropped" % k.arg)
        elif isinstance(n, ast.Subscript) and isinstance(
                n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            a, b = n.slice.elts
            if u(a) != u(b):
                add(n, "%s[%s, %s]" % (u(n.value), u(b), u(a)),
                    "indices swapped")
        for f, v in ast.iter_fields(n):
            if f in ("decorator_list", "annotation", "returns", "msg"):
                continue
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST):
                    visit(c, infunc or isinstance(n, (ast.FunctionDef,
                                                      ast.Lambda)))

    visit(tree, False)
    good = []
    raw = src.encode()
    for line, a, b, new, desc in out:
        if raw[a:b].decode() == new:
            continue
        t = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        good.append((line, a, b, new, desc))
    return good


def main():
    out, cov, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    workers = int(sys.argv[5]) if len(sys.argv) > 5 else 6
    os.makedirs(out, exist_ok=True)
    base = os.path.join(out, "base")
    shutil.rmtree(base, ignore_errors=True)
    shutil.copytree("/repo", base, ignore=shutil.ignore_patterns(".git"))
    hits = {}
    for f in os.listdir(cov):
        d = json.load(open(os.path.join(cov, f)))
        hits[f[:-5]] = {k: set(v) for k, v in d.items()}
    allm = []
    for f in FILES:
        src = open(os.path.join(base, PKG, f)).read()
        for s in sites(src):
            if any(s[0] in h.get(f, ()) for h in hits.values()):
                allm.append((f,) + s)
    print(len(allm), "sites")
    rng = random.Random(seed)
    rng.shuffle(allm)
    # spread over the lines: at most one change per line
    seen, todo = set(), []
    for m in allm:
        if (m[0], m[1]) in seen:
            continue
        seen.add((m[0], m[1]))
        todo.append(m)
    todo = todo[:n]
    print(len(todo), "chosen")
    lock = threading.Lock()
    kills = {}
    done = set()
    rp = os.path.join(out, "results.jsonl")
    if os.path.exists(rp):
        for line in open(rp):
            d = json.loads(line)
            done.add((d["file"], d["start"], d["new"]))
    it = iter([m for m in todo if (m[0], m[2], m[4]) not in done])

    def judge(w, m):
        f, line, a, b, new, desc = m
        root = os.path.join(out, "w%d" % w, "repo")
        path = os.path.join(root, PKG, f)
        raw = open(os.path.join(base, PKG, f), "rb").read()
        with open(path, "wb") as g:
            g.write(raw[:a] + new.encode() + raw[b:])
        env = dict(os.environ, PYTHONPATH=os.path.join(root, "src"),
                   PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg",
                   HOME=os.path.join(out, "w%d" % w))
        r = dict(file=f, line=line, start=a, new=new, desc=desc,
                 old=raw[a:b].decode(),
                 text=raw.decode().split("\n")[line - 1].strip())
        try:
            try:
                p = subprocess.run(
                    ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p",
                     "no:cacheprovider", "--timeout=60", "tests"], cwd=root,
                    env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    timeout=200)
                ok = p.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            if not ok:
                r["tests"] = "fail"
                return r
            r["tests"] = "pass"
            with lock:
                order = sorted((i for i in hits
                                if line in hits[i].get(f, ())),
                               key=lambda i: -kills.get((f, i), 0))
            env.pop("PYTHONPATH")
            env["VERIF_REPO"] = root
            r["tried"] = []
            for scale in os.environ.get("MUTATE_SCALES", "0.15").split(","):
                for i in order:
                    env["VERIF_SCALE"] = scale
                    try:
                        p = subprocess.run(
                            [CHECK, i, "--shards", "1"], env=env, cwd=out,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                            timeout=500)
                        rc = p.returncode
                        txt = p.stdout.decode(errors="replace")
                    except subprocess.TimeoutExpired:
                        rc, txt = "timeout", ""
                    r["tried"].append([i, rc])
                    if rc == 1:
                        r["killed"] = i
                        r["how"] = [x for x in txt.split("\n")
                                    if x.startswith("part=")][:1]
                        with lock:
                            kills[f, i] = kills.get((f, i), 0) + 1
                        return r
            return r
        finally:
            with open(path, "wb") as g:
                g.write(raw)

    def worker(w):
        d = os.path.join(out, "w%d" % w)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(base, os.path.join(d, "repo"))
        while True:
            with lock:
                m = next(it, None)
            if m is None:
                return
            r = judge(w, m)
            with lock:
                with open(rp, "a") as g:
                    g.write(json.dumps(r) + "\n")

    ts = [threading.Thread(target=worker, args=(w,)) for w in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()
