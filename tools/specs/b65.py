ID="short-slots-share-propagator"; PROPERTY="C01"
EDITS=[("tslotcomp.py","""            else:
                dyn._prop[k] = prop_comp._compute_propagator(k)

        if ecs:
""","""            elif (
                k > 0
                and not dyn.time_depend_drift
                and not dyn.time_depend_ctrl_dyn_gen
                and np.array_equal(dyn.ctrl_amps[k], dyn.ctrl_amps[k - 1])
                and np.isclose(dyn.tau[k], dyn.tau[k - 1], atol=1e-3)
            ):
                dyn._prop[k] = dyn._prop[k - 1]
            else:
                dyn._prop[k] = prop_comp._compute_propagator(k)

        if ecs:
""")]
NEEDS="no gradient with the propagator, neighbouring slots with equal amplitudes and durations that differ by less than 1e-3"
BREAKS="the propagator of the second slot is that of the first"
DEMO='''
import numpy as np
from qutip import sigmax, sigmaz, qeye
import scipy.linalg as la
import qutip_qtrl.pulseoptim as cpo
tau = np.array([0.01, 0.0105])
for prop in ("DIAG", "FRECHET", "DEF"):
    o = cpo.create_pulse_optimizer(
        sigmaz(), [sigmax()], qeye(2), sigmax(), tau=tau,
        dyn_type="UNIT", prop_type=prop)
    for fid in ("exact", "approx"):
        d = o.dynamics
        d.initialize_controls(np.full((2, 1), 0.5))
        d.prop_computer.grad_exact = fid == "exact"
        d.compute_evolution()
        H = sigmaz().full() + 0.5 * sigmax().full()
        x = d.full_evo
        x = np.array(x.full() if hasattr(x, "full") else x)
        assert np.abs(x - la.expm(-1j * H * tau.sum())).max() < 1e-9
o = cpo.create_pulse_optimizer(
    sigmaz(), [sigmax()], qeye(2), sigmax(), tau=tau,
    dyn_type="GEN_MAT", prop_type="APPROX", fid_type="TDAPPROX")
d = o.dynamics
d.initialize_controls(np.full((2, 1), 0.5))
d.compute_evolution()
x = d.full_evo
x = np.array(x.full() if hasattr(x, "full") else x)
M = sigmaz().full() + 0.5 * sigmax().full()
assert np.abs(x - la.expm(M * tau.sum())).max() < 1e-9
'''
