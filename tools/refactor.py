"""Behaviour-preserving rewrites of a copy of the sources: the checks must stay
quiet on them.  refactor.py SRC_DIR [private] [branch] [helper] [locals]"""
import ast
import os
import re
import sys

src, kinds = sys.argv[1], set(sys.argv[2:]) or {"private", "branch", "helper",
                                                "locals"}
trees = {}
for fn in sorted(os.listdir(src)):
    if fn.endswith(".py"):
        trees[fn] = ast.parse(open(os.path.join(src, fn)).read())

# private methods and functions get other names, everywhere
defs, strings, attrs = set(), set(), set()
for t in trees.values():
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and \
                re.match(r"_[a-z]", n.name):
            defs.add(n.name)
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            strings.add(n.value)
# (documented to be replaced by users: _apply_phase)
defs -= strings | {"_apply_phase"}


class Private(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.name in defs:
            n.name += "_impl"
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in defs:
            n.attr += "_impl"
        return n

    def visit_Name(self, n):
        if n.id in defs:
            n.id += "_impl"
        return n

    def visit_ImportFrom(self, n):
        for a in n.names:
            if a.name in defs:
                a.name += "_impl"
        return n


class Branch(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and
                             isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
        return n


class Helper(ast.NodeTransformer):
    """Every method calls a helper with its former body."""
    def visit_ClassDef(self, n):
        out = []
        for m in n.body:
            if isinstance(m, ast.FunctionDef) and not m.decorator_list and \
                    not m.name.startswith("__") and "super()" not in \
                    ast.unparse(m) and not any(
                    isinstance(x, (ast.Yield, ast.YieldFrom))
                    for x in ast.walk(m)) and not m.args.kwonlyargs:
                a = m.args
                names = [x.arg for x in a.posonlyargs + a.args]
                call = ast.Call(
                    ast.Attribute(ast.Name(names[0], ast.Load()),
                                  "_do_%s_%s" % (n.name, m.name), ast.Load()),
                    [ast.Name(x, ast.Load()) for x in names[1:]] + (
                        [ast.Starred(ast.Name(a.vararg.arg, ast.Load()),
                                     ast.Load())] if a.vararg else []),
                    [ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))]
                    if a.kwarg else [])
                h = ast.FunctionDef(
                    "_do_%s_%s" % (n.name, m.name),
                    ast.arguments(a.posonlyargs, a.args, a.vararg, [], [],
                                  a.kwarg, []),
                    m.body, [], None)
                new = ast.FunctionDef(m.name, a, [ast.Return(call)], [], None)
                d = ast.get_docstring(m, clean=False)
                if d is not None:
                    new.body.insert(0, m.body[0])
                out += [new, h]
            else:
                out.append(m)
        n.body = out
        return n


class Locals(ast.NodeTransformer):
    """Local variables get other names."""
    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global,
                              ast.Nonlocal)) and x is not n
               for x in ast.walk(n)) or "locals()" in ast.unparse(n):
            return n
        args = {x.arg for x in n.args.args + n.args.posonlyargs +
                n.args.kwonlyargs}
        for x in (n.args.vararg, n.args.kwarg):
            if x:
                args.add(x.arg)
        ls = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and
              isinstance(x.ctx, ast.Store)} - args
        imp = {(a.asname or a.name).split(".")[0] for x in ast.walk(n)
               if isinstance(x, (ast.Import, ast.ImportFrom))
               for a in x.names}
        ls -= imp
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in ls:
                x.id += "_v"
            if isinstance(x, ast.ExceptHandler) and x.name in ls:
                x.name += "_v"
        return n


for fn, t in trees.items():
    for name, cls in (("private", Private), ("branch", Branch),
                      ("helper", Helper), ("locals", Locals)):
        if name in kinds:
            t = ast.fix_missing_locations(cls().visit(t))
    ast.fix_missing_locations(t)
    with open(os.path.join(src, fn), "w") as f:
        f.write(ast.unparse(t) + "\n")
print("rewritten:", sorted(kinds), len(defs), "private names")
