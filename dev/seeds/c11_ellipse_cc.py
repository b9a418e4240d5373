ID="ellipse-model-shifts-callers-cell-centres"
PROPERTY="C11"
NEEDS="create_ellipse_in_wholespace called with an array of cell centres (or a mesh) and a centre away from the origin"
BREAKS="the caller's cell-centre array (or the cell centres the mesh keeps) are shifted in place"
EDITS=[("simpeg/utils/model_builder.py",
"""    G = cell_centers.copy()
    dim = cell_centers.shape[1]
""",
"""    G = np.asarray(cell_centers)
    dim = cell_centers.shape[1]
""")]
DEMO='''
import numpy as np, discretize
from simpeg.utils import model_builder
mesh = discretize.TensorMesh([6, 5])
cc = np.array(mesh.cell_centers)
before = cc.copy()
model_builder.create_ellipse_in_wholespace(cc, center=[0.5, 0.25], anisotropy=[1, 2])
assert np.array_equal(cc, before), np.abs(cc - before).max()
'''
