ID="tdem-j-adiag-deriv-permeability"
PROPERTY="C02"
NEEDS="time-domain j formulation on a model with magnetic permeability different from free space"
BREAKS="the forward and adjoint products of the diagonal-block derivative stay transposes of each other but are no longer the derivative of the matrix that is solved (a permeability mass matrix inverse replaced by the unit mass inverse over mu_0)"
EDITS=[("simpeg/electromagnetics/time_domain/simulation.py",
"""        C = self.mesh.edge_curl
        MfRho = self.MfRho
        MeMuI = self.MeMuI

        if adjoint:
            if self._makeASymmetric:
                v = MfRho * v
            return self.MfRhoDeriv(u, C * (MeMuI.T * (C.T * v)), adjoint)
""",
"""        C = self.mesh.edge_curl
        MfRho = self.MfRho
        MeMuI = self.MeI / mu_0

        if adjoint:
            if self._makeASymmetric:
                v = MfRho * v
            return self.MfRhoDeriv(u, C * (MeMuI.T * (C.T * v)), adjoint)
"""),
("simpeg/electromagnetics/time_domain/simulation.py",
"import scipy.sparse as sp\n", "import scipy.sparse as sp\nfrom scipy.constants import mu_0\n")]
DEMO='''
import numpy as np, discretize, scipy.sparse as sp, scipy.sparse.linalg
from scipy.constants import mu_0
from simpeg import maps
from simpeg.electromagnetics import time_domain as tdem
mesh = discretize.TensorMesh([[(10.0, 4)], [(10.0, 4)], [(10.0, 4)]], x0="CCC")
rng = np.random.default_rng(1)
for mu in (mu_0, mu_0 * (1 + rng.random(mesh.nC))):
    sim = tdem.Simulation3DCurrentDensity(mesh, rhoMap=maps.ExpMap(mesh), mu=mu, time_steps=[(1e-4, 2)])
    m, v = np.log(100.0) + 0.3 * rng.standard_normal(mesh.nC), rng.standard_normal(mesh.nC)
    u = rng.standard_normal(mesh.nF)
    sim.model = m
    unsym = lambda x: sp.linalg.spsolve(sim.MfRho.T.tocsc(), x) if sim._makeASymmetric else x
    d = unsym(sim.getAdiagDeriv(0, u, v))
    h = 1e-5
    sim.model = m + h * v; p = unsym(sim.getAdiag(0) @ u)
    sim.model = m - h * v; q = unsym(sim.getAdiag(0) @ u)
    fd = (p - q) / (2 * h)
    err = np.linalg.norm(fd - d) / np.linalg.norm(fd)
    print(err)
    assert err < 1e-5, err
'''
