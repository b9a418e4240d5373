ID="tdem-b-rhs-adjoint-weight"
PROPERTY="C01"
NEEDS="time-domain b formulation with the symmetrised system, a grounded line source that is on at the time step (non-zero electric source term), adjoint mode of the right-hand-side derivative"
BREAKS="the adjoint of the RHS derivative is no longer the transpose of the forward product: the face weighting is applied after C^T v was already formed"
EDITS=[("simpeg/electromagnetics/time_domain/simulation.py",
"""        if adjoint:
            if self._makeASymmetric is True:
                v = self.MfMui * v
            if isinstance(s_e, Zero):
                MeSigmaIDerivT_v = Zero()
            else:
                MeSigmaIDerivT_v = self.MeSigmaIDeriv(s_e, C.T * v, adjoint)

            RHSDeriv = MeSigmaIDerivT_v + s_eDeriv(MeSigmaI.T * (C.T * v)) + s_mDeriv(v)
""",
"""        if adjoint:
            CTv = C.T * v
            if self._makeASymmetric is True:
                v = self.MfMui * v
            if isinstance(s_e, Zero):
                MeSigmaIDerivT_v = Zero()
            else:
                MeSigmaIDerivT_v = self.MeSigmaIDeriv(s_e, CTv, adjoint)

            RHSDeriv = MeSigmaIDerivT_v + s_eDeriv(MeSigmaI.T * CTv) + s_mDeriv(v)
""")]
DEMO='''
import numpy as np, discretize
from simpeg import maps
from simpeg.electromagnetics import time_domain as tdem
mesh = discretize.TensorMesh([[(10.0, 6)], [(10.0, 6)], [(10.0, 6)]], x0="CCC")
rng = np.random.default_rng(1)
rx = tdem.receivers.PointElectricField(np.r_[5.0, 5.0, 0.0], times=np.r_[2e-4], orientation="x")
src = tdem.sources.LineCurrent([rx], location=np.array([[-15.0, 0, 0], [15.0, 0, 0]]),
                               waveform=tdem.sources.RampOffWaveform(off_time=1e-3))
sim = tdem.Simulation3DMagneticFluxDensity(mesh, survey=tdem.Survey([src]), sigmaMap=maps.ExpMap(mesh),
                                           time_steps=[(1e-4, 4)])
sim.model = np.log(1e-2) + 0.3 * rng.standard_normal(mesh.nC)
v, w = rng.standard_normal(mesh.nC), rng.standard_normal(mesh.nF)
a = w @ np.asarray(sim.getRHSDeriv(1, src, v))
b = v @ np.asarray(sim.getRHSDeriv(1, src, w, adjoint=True))
print(a, b)
assert abs(a) > 0 and abs(a - b) <= 1e-8 * abs(a), (a, b)
'''
