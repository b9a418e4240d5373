ID="fdem-jtvec-keeps-last-model"
PROPERTY="C10"
NEEDS="FDEM Jtvec(m, v, f) with fields computed earlier for m, after the simulation was used with another model"
BREAKS="Jtvec evaluates the derivatives of the system at the model of the last call instead of the model given"
EDITS=[("simpeg/electromagnetics/frequency_domain/simulation.py",
"""        if f is None:
            f = self.fields(m)

        self.model = m

        # Get dict of flat array slices for each source-receiver pair in the survey
        survey_slices = self.survey.get_all_slices()

        Jtv =""",
"""        if f is None:
            f = self.fields(m)  # sets the model too

        # Get dict of flat array slices for each source-receiver pair in the survey
        survey_slices = self.survey.get_all_slices()

        Jtv =""")]
DEMO='''
import numpy as np, discretize
from simpeg import maps
from simpeg.electromagnetics import frequency_domain as fdem
mesh = discretize.TensorMesh([[(10.0, 4)], [(10.0, 4)], [(10.0, 4)]], x0="CCC")
rng = np.random.default_rng(1)
rx = fdem.receivers.PointElectricField(np.array([[3.0, 2.0, 1.0]]), orientation="x", component="real")
src = fdem.sources.MagDipole([rx], 10.0, location=np.r_[1.0, 0, 0])
sim = fdem.Simulation3DElectricField(mesh, survey=fdem.Survey([src]), sigmaMap=maps.ExpMap(mesh))
m = np.log(1e-1) + 0.2 * rng.standard_normal(mesh.nC)
f = sim.fields(m)
v = rng.standard_normal(1)
a = sim.Jtvec(m, v, f=f)
sim.model = m + 1.0
b = sim.Jtvec(m, v, f=f)
assert np.allclose(a, b, rtol=1e-8, atol=0), (a, b)
'''
