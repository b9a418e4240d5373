ID="l2-hessian-product-weights-not-transposed"
PROPERTY="C07"
NEEDS="an L2ObjectiveFunction with a weighting matrix that is not symmetric, and the Hessian applied to a vector"
BREAKS="deriv2(m, v) applies W twice instead of W transpose W, so it is not the derivative of deriv(m) along v (nor deriv2(m) @ v)"
EDITS=[("simpeg/objective_function.py",
"""                * (self.W.T * (self.W * (self.mapping.deriv(m) * v)))
""",
"""                * (self.W * (self.W * (self.mapping.deriv(m) * v)))
""")]
DEMO='''
import numpy as np, scipy.sparse as sp
from simpeg import objective_function
rng = np.random.default_rng(1)
n = 6
W = sp.csr_matrix(np.triu(rng.standard_normal((n, n))))
phi = objective_function.L2ObjectiveFunction(nP=n, W=W)
m, v = rng.standard_normal(n), rng.standard_normal(n)
a = phi.deriv2(m, v)
b = phi.deriv(m + v) - phi.deriv(m)
assert np.allclose(a, b, rtol=1e-8), (a, b)
assert np.allclose(a, phi.deriv2(m) @ v, rtol=1e-8)
'''
