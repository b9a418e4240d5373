ID="fdem-h-mu-deriv-frequency"
PROPERTY="C02"
NEEDS="frequency-domain h formulation with permeability in the model and more than one frequency"
BREAKS="derivative of the system matrix with respect to permeability scales with frequency incorrectly (uses the first frequency of the survey), in forward and adjoint mode alike"
EDITS=[("simpeg/electromagnetics/frequency_domain/simulation.py",
"""        if adjoint is True:
            return 1j * omega(freq) * (MeMuDeriv.T * v)

        return 1j * omega(freq) * (MeMuDeriv * v)
""",
"""        iomega = 1j * omega(self.survey.frequencies[0])
        if adjoint is True:
            return iomega * (MeMuDeriv.T * v)

        return iomega * (MeMuDeriv * v)
""")]
DEMO='''
import numpy as np, discretize
from scipy.constants import mu_0
from simpeg import maps
from simpeg.electromagnetics import frequency_domain as fdem
mesh = discretize.TensorMesh([[(10.0, 4)], [(10.0, 4)], [(10.0, 4)]], x0="CCC")
rng = np.random.default_rng(1)
freqs = [1.0, 30.0]
srcs = [fdem.sources.MagDipole([fdem.receivers.PointMagneticField(np.r_[5.0, 5, 5], "z", "real")], f, location=np.r_[0.0, 0, 0]) for f in freqs]
sim = fdem.Simulation3DMagneticField(mesh, survey=fdem.Survey(srcs), muMap=maps.ExpMap(mesh), rho=10.0)
m, v = np.log(mu_0) + 0.3 * rng.standard_normal(mesh.nC), rng.standard_normal(mesh.nC)
u = rng.standard_normal(mesh.nE)
h = 1e-5
for f in freqs:
    sim.model = m
    d = sim.getADeriv(f, u, v)
    sim.model = m + h * v; p = sim.getA(f) @ u
    sim.model = m - h * v; q = sim.getA(f) @ u
    fd = (p - q) / (2 * h)
    err = np.linalg.norm(fd - d) / np.linalg.norm(fd)
    print(f, err)
    assert err < 1e-5, (f, err)
'''
