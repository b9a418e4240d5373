ID="circle-map-derivative-linear-conductivity"
PROPERTY="C08"
NEEDS="ParametricCircleMap with logSigma=False and a first conductivity other than one"
BREAKS="the derivative with respect to the first conductivity keeps the constant of the logarithmic case, so deriv is not the derivative of the map"
EDITS=[("simpeg/maps/_parametric.py",
"""                    np.arctan(a * (-r + np.sqrt((X - x) ** 2 + (Y - y) ** 2))) / np.pi
                    + 0.5
                )
                + 1.0
            )
""",
"""                    np.arctan(a * (-r + np.sqrt((X - x) ** 2 + (Y - y) ** 2))) / np.pi
                    + 0.5
                )
                + sig1
            )
""")]
DEMO='''
import numpy as np, discretize
from simpeg import maps
mesh = discretize.TensorMesh([12, 12])
mp = maps.ParametricCircleMap(mesh, logSigma=False)
m = np.r_[0.3, 2.0, 0.5, 0.45, 0.2]
v = np.r_[1.0, 0.5, 0.2, -0.1, 0.3]
h = 1e-6
fd = (mp * (m + h * v) - mp * (m - h * v)) / (2 * h)
d = mp.deriv(m) @ v
assert np.linalg.norm(fd - d) <= 1e-5 * np.linalg.norm(fd), (np.linalg.norm(fd), np.linalg.norm(fd - d))
'''
