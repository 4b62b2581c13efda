ID="late-penalty-index"; PROPERTY="C15"
EDITS=[("cy_grape.py","    for m in range(M - 1):\n        P = U_b_list[m] @ U\n        for j in range(J):\n","    for j in range(J):\n        for m in range(M - 1):\n            P = U_b_list[m] @ U\n"),
("cy_grape.py","            if alpha > 0.0:\n                # penalty term for high power control signals u\n                du += -2 * alpha * u[r, j, m] * dt\n\n            if beta:\n                # penalty term for late control signals u\n                du += -2 * beta * m**2 * u[r, j, m] * dt\n","            if alpha > 0.0:\n                # penalty term for high power control signals u\n                du += -2 * alpha * u[r, j, m] * dt\n            elif beta:\n                # penalty term for late control signals u\n                du += -2 * beta * m**2 * u[r, j, m] * dt\n")]
NEEDS="both penalties, for high power and for late signals, at the same time"
BREAKS="the time penalty is dropped"
DEMO='''
import numpy as np
import warnings
from qutip import sigmax, sigmay, sigmaz
from qutip_qtrl.grape import grape_unitary, cy_grape_unitary

warnings.simplefilter("ignore")
kw = dict(eps=0.1, u_start=np.ones((1, 5)), alpha=0.2, beta=0.5)
t = np.linspace(0, 1, 5)
a = grape_unitary(sigmax(), sigmaz(), [sigmay()], 3, t, **kw).u
b = cy_grape_unitary(sigmax(), sigmaz(), [sigmay()], 3, t, **kw).u
assert np.allclose(a, b), np.abs(a - b).max()
'''
