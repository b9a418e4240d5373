ID="dc-cc-current-density-deriv-u"
PROPERTY="C03"
NEEDS="derivative of the current density of the cell-centred DC fields with respect to the potential, conductivities other than one"
BREAKS="the derivative of j with respect to the potential weighs with the plain face inner product instead of the resistivity one, which is the derivative of the electric field"
EDITS=[("simpeg/electromagnetics/static/resistivity/fields.py",
"""            return self._Grad.T * (self._MfRhoI.T * v)
        return self._MfRhoI * (self._Grad * v)
""",
"""            return self._Grad.T * (self._MfI.T * v)
        return self._MfI * (self._Grad * v)
""")]
DEMO='''
import numpy as np, discretize
from simpeg import maps
from simpeg.electromagnetics.static import resistivity as dc
mesh = discretize.TensorMesh([[(10.0, 5)], [(10.0, 5)], [(10.0, 5)]], x0="CCN")
rng = np.random.default_rng(1)
rx = dc.receivers.Pole(np.array([[5.0, 5.0, -5.0]]))
src = dc.sources.Dipole([rx], np.r_[-15.0, 0, -5], np.r_[15.0, 0, -5])
sim = dc.Simulation3DCellCentered(mesh, survey=dc.Survey([src]), sigmaMap=maps.ExpMap(mesh))
m = np.log(1e-2) + 0.3 * rng.standard_normal(mesh.nC)
f = sim.fields(m)
phi, v = f[src, "phiSolution"].ravel(), rng.standard_normal(mesh.nC)
a = (f._j(phi + v, [src]) - f._j(phi, [src])).ravel()
b = np.asarray(f._jDeriv_u(src, v)).ravel()
assert np.linalg.norm(a) > 0 and np.linalg.norm(a - b) <= 1e-8 * np.linalg.norm(a), (np.linalg.norm(a), np.linalg.norm(b))
'''
