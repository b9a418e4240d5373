ID="dc1d-kept-sensitivity-thickness-only"
PROPERTY="C09"
NEEDS="a 1-D DC inversion for layer thicknesses only (fixed resistivities), sensitivities evaluated at two models on one simulation"
BREAKS="the stored sensitivity of the first model survives a change of the thicknesses"
EDITS=[("simpeg/electromagnetics/static/resistivity/simulation_1d.py",
"""        if not self.fix_Jmatrix:
            to_delete = to_delete + ["_Jmatrix"]
""",
"""        if not self.fix_Jmatrix and (
            self.sigmaMap is not None or self.rhoMap is not None
        ):
            to_delete = to_delete + ["_Jmatrix"]
""")]
DEMO='''
import numpy as np
from simpeg import maps
from simpeg.electromagnetics.static import resistivity as dc
srcs = []
for a in (5.0, 15.0, 40.0):
    rx = dc.receivers.Dipole(np.r_[-a / 3, 0, 0], np.r_[a / 3, 0, 0])
    srcs.append(dc.sources.Dipole([rx], np.r_[-a, 0, 0], np.r_[a, 0, 0]))
sim = dc.Simulation1DLayers(survey=dc.Survey(srcs), rho=np.r_[100.0, 10.0, 1000.0], thicknessesMap=maps.IdentityMap(nP=2))
v = np.r_[1.0, 1.0]
sim.Jvec(np.r_[5.0, 5.0], v)
m = np.r_[9.0, 3.0]
jv = sim.Jvec(m, v)
h = 1e-5
fd = (sim.dpred(m + h * v) - sim.dpred(m - h * v)) / (2 * h)
assert np.all(np.abs(jv - fd) <= 1e-4 * np.abs(fd).max()), (jv, fd)
'''
