ID="tdem-jvec-keeps-factors-for-shorter-steps"
PROPERTY="C05"
NEEDS="a time discretisation in which a step is shorter than the one before it (for instance a new fine interval after a long one, as at the end of a ramp)"
BREAKS="Jvec keeps the factorization of the longer step for the shorter one, so it is no longer the derivative of the predicted data"
EDITS=[("simpeg/electromagnetics/time_domain/simulation.py",
"""            if Adiaginv is not None and (tInd > 0 and dt != self.time_steps[tInd - 1]):
                Adiaginv.clean()
""",
"""            if Adiaginv is not None and (tInd > 0 and dt > self.time_steps[tInd - 1]):
                Adiaginv.clean()
""")]
DEMO='''
import numpy as np, discretize
from simpeg import maps
from simpeg.electromagnetics import time_domain as tdem
mesh = discretize.TensorMesh([[(20.0, 6)], [(20.0, 6)], [(20.0, 6)]], x0="CCC")
rng = np.random.default_rng(1)
rx = tdem.receivers.PointMagneticFluxTimeDerivative(np.array([[5.0, 5.0, 0.0]]), times=np.r_[5.5e-5], orientation="z")
src = tdem.sources.MagDipole([rx], location=np.r_[0.0, 0, 0])
sim = tdem.Simulation3DMagneticFluxDensity(mesh, survey=tdem.Survey([src]), sigmaMap=maps.ExpMap(mesh),
                                           time_steps=[(2e-5, 2), (5e-6, 4)])
m = np.log(1e-1) + 0.1 * rng.standard_normal(mesh.nC)
v = rng.standard_normal(mesh.nC)
jv = sim.Jvec(m, v)
h = 1e-4
fd = (sim.dpred(m + h * v) - sim.dpred(m - h * v)) / (2 * h)
print(jv, fd)
assert np.all(np.abs(jv - fd) <= 1e-4 * np.abs(fd)), (jv, fd)
'''
