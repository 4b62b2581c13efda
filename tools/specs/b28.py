ID="booleans-by-eval"; PROPERTY="C17"
EDITS=[("loadparams.py","            b = parser.getboolean(section, attrib_name)\n","            b = bool(eval(val.strip().title()))\n")]
NEEDS="a boolean written as yes, no, on or off"
BREAKS="the value is not recognised and the attribute keeps its default"
DEMO='''
import os
import tempfile
from qutip_qtrl.optimconfig import OptimConfig
from qutip_qtrl.loadparams import load_parameters

class X:
    a = True
    b = False

with tempfile.TemporaryDirectory() as d:
    fn = os.path.join(d, "p.ini")
    with open(fn, "w") as f:
        f.write("[s]\\na: no\\nb: on\\n")
    x = X()
    load_parameters(fn, obj=x, section="s")
assert x.a is False and x.b is True, (x.a, x.b)
'''
