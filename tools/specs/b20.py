ID="accept-small-regressions"; PROPERTY="C16"
EDITS=[("grape.py","        if _prev_overlap > _k_overlap[best_k]:\n","        if _prev_overlap > _k_overlap[best_k] + 1e-2:\n")]
NEEDS="an adaptive step whose three candidates are all slightly worse than the current pulse (large step near the optimum)"
BREAKS="a step that lowers the overlap is accepted"
DEMO='''
import numpy as np
from qutip import sigmax, sigmay, sigmaz
from qutip_qtrl.grape import grape_unitary_adaptive, _overlap

bad = []
for seed in range(30):
    rng = np.random.default_rng(seed)
    H0 = 0.3 * sigmaz()
    ops = [sigmax(), sigmay()]
    U = (-1j * sum(c * s for c, s in zip(
        rng.normal(size=3), (sigmax(), sigmay(), sigmaz())))).expm()
    times = np.linspace(0, 2.0, 6)
    r = grape_unitary_adaptive(U, H0, ops, 25, times, eps=6.0,
                               u_start=rng.normal(size=(2, 6)),
                               phase_sensitive=False)
    f = []
    for it in range(r.u.shape[0]):
        V = 1
        for m in range(5):
            h = H0 + sum(r.u[it, j, m] * ops[j] for j in range(2))
            V = (-1j * h * (times[1] - times[0])).expm() * V
        f.append(abs(_overlap(U, V)) ** 2)
    bad.append(np.min(np.diff(f)))
assert min(bad) > -1e-9, min(bad)
'''
