def P(id, title, statement, over, text, why, files, mech, technique="", level_note="", na=""):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                why_tests_cant=why, anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
                technique=technique, level_note=level_note, na=na)

EM = "simpeg/electromagnetics/"
PROPS = [
P("C01", "Adjoint products are transposes of the forward derivative products",
  "For every routine that offers a derivative product with a forward and an adjoint mode (system matrices, right-hand "
  "sides, initial conditions, fields, receivers, sources, mass matrices and property maps of the simulations), the adjoint "
  "product is the transpose of the forward product: w'(Dv) = v'(D'w) for all v and w, at every model, frequency, time step, "
  "source and configuration. (For complex-valued data the real-valued pairing used throughout the package applies.)",
  ["inputs", "configurations"], "all vectors v, w; all models, meshes, sources, frequencies, time steps, formulations and symmetrisation/permittivity configurations",
  "The dot-product tests sample a few random vectors on one mesh per formulation for the whole sensitivity chain, with tolerances; several formulations (time-domain, 3-D natural source, most frequency-domain inverse problems) are not exercised at all by the stable suite, and terms that vanish for the tested sources are never seen.",
  [EM+"time_domain/simulation.py", EM+"time_domain/fields.py", EM+"time_domain/receivers.py", EM+"frequency_domain/simulation.py", EM+"frequency_domain/fields.py", EM+"frequency_domain/receivers.py", EM+"natural_source/receivers.py", EM+"natural_source/fields.py", EM+"static/resistivity/simulation.py", EM+"static/resistivity/fields.py", EM+"static/induced_polarization/simulation.py", "simpeg/base/pde_simulation.py"],
  [("get*Deriv(..., adjoint)", "simulation.py of each formulation"), ("_*Deriv_u/_*Deriv_m", "fields.py"), ("evalDeriv", "receivers.py, sources.py")],
  "abstract interpretation of every adjoint/forward path into a normal form over linear operators (value numbering modulo linear-algebra identities, no execution); each adjoint normal form is compared with the transposed forward normal form",
  "each path pair is decided by equality of operator normal forms for all inputs; library matrices are opaque symbols with declared symmetry; path pairs the interpreter cannot express are reported undecided, never as violations"),
P("C02", "System-matrix and right-hand-side derivatives match the system solved",
  "In every PDE simulation, the derivative product offered for the discrete system matrix applied to a state, for the off-diagonal "
  "time-step block, for the DC initial-condition matrix and for the right-hand side is the exact derivative with respect to the model "
  "of the matrix and right-hand side that the forward problem uses, for every invertible physical property, source, frequency and time step.",
  ["inputs", "configurations"], "all models, states, sources, frequencies, time steps, formulations",
  "Derivative tests are finite-difference checks of the whole sensitivity at one model; errors in terms that are zero for the tested sources or properties, or in untested formulations, do not show.",
  [EM+"time_domain/simulation.py", EM+"frequency_domain/simulation.py", EM+"natural_source/simulation.py", EM+"static/resistivity/simulation.py", EM+"static/resistivity/simulation_2d.py", EM+"static/self_potential/simulation.py", "simpeg/base/pde_simulation.py"],
  [("getA/getADeriv, getRHS/getRHSDeriv, getAdiag/getAdiagDeriv, getAsubdiag/getAsubdiagDeriv, getAdc/getAdcDeriv", "simulation.py of each formulation"), ("M*Deriv", "simpeg/base/pde_simulation.py")],
  "abstract interpretation of the matrix/RHS routines to operator normal forms, formal (term-rewriting) differentiation of the normal form, comparison with the normal form of the derivative routine on every pair of compatible paths",
  "decided by equality of operator normal forms for all inputs; derivative of a mass matrix is its declared derivative operator; undecidable path pairs are reported undecided"),
P("C03", "Field derivatives match the fields users compute",
  "For every electromagnetic fields object, the derivative products offered for a derived field (electric and magnetic field, "
  "flux, current density, charge, and their time derivatives) with respect to the discrete solution and with respect to the "
  "model are the exact derivatives of the value that is returned when that field is requested, for each source separately and "
  "every source, frequency, time step and invertible property.",
  ["inputs", "configurations"], "all solutions, models, sources, source counts, frequencies, formulations",
  "Only a handful of field/receiver combinations are differentiated by tests, with one or two sources and primary fields or source terms that vanish, so missing derivative terms of secondary quantities are invisible.",
  [EM+"frequency_domain/fields.py", EM+"time_domain/fields.py", EM+"static/resistivity/fields.py", EM+"static/resistivity/fields_2d.py", EM+"natural_source/fields.py"],
  [("field methods named in aliasFields and their *Deriv_u/*Deriv_m partners", "fields.py of each formulation")],
  "abstract interpretation of the field function to a normal form for a generic source column, formal differentiation of it, comparison with the normal form of the offered derivative routine",
  "decided by equality of operator normal forms for all inputs; derivatives of mass matrices and source terms are opaque derivative operators"),
P("C05", "Sensitivity products are the derivative of the predicted data",
  "In the frequency-domain, natural-source, time-domain, DC resistivity (3-D and 2-D, plain and miniaturized, with and without storeJ) and self-potential "
  "simulations, Jvec(m, v) is the derivative of dpred(m) along v, assembled from the derivatives of the system, the right-hand side, the initial "
  "fields, the fields and the receivers for every source, receiver, frequency and time step and placed in the order of the predicted data; "
  "Jtvec(m, w) is its transpose applied to w; getJ(m), where offered, is the same matrix; and the adjoint solves use a matrix equal to its transpose "
  "or its transposed factorization. (Induced-polarization simulations, which linearise about a background, are outside.)",
  ["inputs", "configurations"], "all models and vectors; any number of sources, receivers per source, data per receiver, frequencies and time steps (equal and unequal)",
  "The derivative and dot-product tests use one or two sources and a couple of time steps with tolerances; a missing first or last step, a wrong offset for a second receiver, a reused factorization or a term that vanishes for step-off sources passes unnoticed, and most of these tests are not in the stable suite.",
  [EM+"frequency_domain/simulation.py", EM+"natural_source/simulation.py", EM+"time_domain/simulation.py", EM+"static/resistivity/simulation.py", EM+"static/resistivity/simulation_2d.py", EM+"static/self_potential/simulation.py", "simpeg/simulation.py"],
  [("fields / dpred / Jvec / Jtvec / getJ", "simulation.py of each method"), ("_mini_survey_data / _mini_survey_dataT", "static/resistivity/simulation*.py")],
  "abstract interpretation of fields, dpred, Jvec, Jtvec and getJ into operator normal forms on a symbolic survey (3 sources x 2 receivers, 2 frequencies, 4 time steps with equal and unequal lengths, 2 wavenumbers, symbolic data counts), the formal derivative of the stored solution as oracle",
  "equality of operator normal forms for all models, vectors and data counts on a survey of fixed shape; derivatives of systems, fields and receivers are the contracts decided by C01-C03; cell-centred DC matrices are assumed symmetric"),
P("C07", "Objective-function gradients and Hessians are those of the value",
  "For every data misfit, regularization term and composite objective function, deriv(m) is the gradient of the value __call__ returns (at the given "
  "weights, reference model and iteratively re-weighted norms), deriv2(m) is the derivative of deriv(m) in the Gauss-Newton sense (the derivative of the "
  "mapping or of the simulation held fixed), deriv2(m, v) equals deriv2(m) applied to v, and it is symmetric; sums and scalar multiples of "
  "objective functions, and the inverse problem's own function, gradient and Hessian, combine the parts with the same multipliers and the same "
  "model and fields for each part. (Vector-amplitude terms are covered for linear mappings; Gaussian-mixture terms only in their approximate form.)",
  ["inputs", "configurations"], "all models, vectors, weights, reference models, norms, mesh dimensions and options of every objective-function class",
  "Derivative tests check one random model per class on small meshes with default options; weights, reference models in gradients, non-identity mappings, norms other than 2 and composite misfits with cached fields are rarely combined.",
  ["simpeg/objective_function.py", "simpeg/data_misfit.py", "simpeg/inverse_problem.py", "simpeg/regularization/base.py", "simpeg/regularization/sparse.py", "simpeg/regularization/vector.py", "simpeg/regularization/cross_gradient.py", "simpeg/regularization/jtv.py", "simpeg/regularization/correspondence.py", "simpeg/regularization/pgi.py", "simpeg/regularization/_gradient.py"],
  [("__call__ / deriv / deriv2", "every BaseObjectiveFunction subclass"), ("BaseInvProblem.evalFunction", "simpeg/inverse_problem.py")],
  "abstract interpretation of __call__, deriv and deriv2 to expression graphs on every path; formal differentiation of the value graph and graph equality by value numbering under random interpretation of opaque symbols, not by running the code",
  "equality of expression graphs over opaque operators for generic models; composites unrolled over three symbolic parts; paths the interpreter cannot express are reported undecided"),
P("C08", "Model maps: derivatives, adjoint products and inverses match the map",
  "For every model mapping (pointwise, projection, tiling, parametric, petrophysical, spline, polynomial, interpolation and composed "
  "maps), deriv(m) is the exact derivative of the map at m, deriv(m, v) is deriv(m) applied to v, and where the map offers an inverse, "
  "applying the map to inverse(u) gives u back, and deriv/inverse are consistent with each other, for every model, mesh dimension, "
  "index set and constructor option under which the routine returns.",
  ["inputs", "configurations"], "all models in the map's domain, all vectors v, mesh dimensions 1-3, constructor options, compositions of maps",
  "Map tests finite-difference one random model on a tiny mesh per map class with default options; other dimensions, options (log parameters, normals, coordinate subsets) and models away from the sampled one are not exercised.",
  ["simpeg/maps/_base.py", "simpeg/maps/_property_maps.py", "simpeg/maps/_parametric.py", "simpeg/maps/_injection.py", "simpeg/maps/_surjection.py", "simpeg/maps/_clustering.py"],
  [("_transform / deriv / inverse", "every IdentityMap subclass"), ("ComboMap.deriv, SumMap.deriv chain rule", "simpeg/maps/_base.py")],
  "abstract interpretation of _transform, deriv and inverse to expression graphs on every path; formal differentiation of the transform graph and graph equality by value numbering under random interpretation of opaque symbols (Gulwani-Necula), not by running the code",
  "equality of expression graphs over opaque meshes/operators for generic models; ComboMap/SumMap unrolled over three symbolic maps; PolynomialPetroClusterMap and impossible option combinations are reported undecided"),
P("C09", "Model-dependent state is discarded when the model or a property changes",
  "Whatever a simulation keeps from one call to the next and computed from the model (system and mass matrices and their derivatives and "
  "inverses, stored sensitivities, stored diagonals, boundary-condition derivatives, factorizations, predicted or stored fields) is "
  "discarded when a different model is assigned, whichever mapping makes it depend on the model, and kept only when the new model is the "
  "same object or exactly equal; assigning a physical property directly discards the mass matrices computed from its old value; and "
  "composite simulations hand every changed model to their parts. (Options documented to freeze a sensitivity, such as fix_Jmatrix, and "
  "simulations linearised about a fixed background are outside.)",
  ["histories", "configurations"], "all sequences of model assignments and calls; all combinations of active mappings",
  "Unit tests rarely evaluate two models on one simulation object with every mapping and every stored quantity, so a cache that survives a model change only shows as a subtly wrong gradient late in an inversion.",
  ["simpeg/props.py", "simpeg/base/pde_simulation.py", EM+"frequency_domain/simulation.py", EM+"time_domain/simulation.py", EM+"natural_source/simulation.py", EM+"natural_source/simulation_1d.py", EM+"base_1d.py", EM+"static/resistivity/simulation.py", EM+"static/resistivity/simulation_2d.py", EM+"static/resistivity/simulation_1d.py", "simpeg/potential_fields/magnetics/simulation.py", "simpeg/meta/simulation.py"],
  [("HasModel.model setter, _delete_on_model_update", "simpeg/props.py and every simulation"), ("with_property_mass_matrices", "simpeg/base/pde_simulation.py")],
  "interprocedural effect and dependence analysis: attributes whose stored value depends (through property, mass-matrix and helper reads) on an invertible property and that are read before being recomputed must be in the evaluated delete list for each active mapping; path enumeration of the model setters",
  "flow-insensitive dependence over-approximation with a short list of reviewed exemptions; values of the delete list are evaluated per mapping scenario"),
P("C10", "Results are for the model and arguments given",
  "A simulation method that is given a model m (fields, dpred, Jvec, Jtvec, getJ, getJtJdiag, residual, make_synthetic_data, ...) "
  "evaluates at m: it makes m the current model before reading the model, a physical property, a mass matrix or any kept model-dependent "
  "result, so that what earlier calls did with other models does not show in the result. And wherever an object keeps a result computed from a "
  "method's arguments (weights, mesh, grid location, simulation, times), a later call with other arguments is not answered with the kept one.",
  ["histories", "inputs"], "all sequences of calls on one object with differing models and arguments",
  "Tests use one model, one mesh and one set of weights per object, so the order-dependence of a method, or a kept result returned for other arguments, is not sampled.",
  ["simpeg/simulation.py", "simpeg/survey.py", "simpeg/meta/simulation.py", "simpeg/meta/multiprocessing.py", "simpeg/meta/dask_sim.py", EM+"base_1d.py", EM+"frequency_domain/simulation.py", EM+"frequency_domain/sources.py", EM+"time_domain/simulation.py", EM+"time_domain/sources.py", EM+"time_domain/receivers.py", EM+"natural_source/simulation_1d.py", EM+"natural_source/sources.py", EM+"static/resistivity/simulation.py", EM+"static/resistivity/receivers.py", EM+"static/induced_polarization/simulation.py", "simpeg/potential_fields/gravity/simulation.py", "simpeg/potential_fields/magnetics/simulation.py"],
  [("self.model = m before first model-dependent read", "every public simulation method taking m"), ("memo tests and keys", "getP, Mejs, getJtJdiag, ePrimary")],
  "path enumeration of every public method taking m for every simulation class (method and super() calls summarised interprocedurally) for a model-dependent read before the model is set; backward slices of memo writes against the arguments tested before reuse",
  "a method that hands its work to another object's method is followed only within its own class hierarchy; derived values of fields objects handed in as f are outside"),
P("C11", "Arguments and stored arrays are not changed in place",
  "Calling a public function or method, or constructing or using an object, does not change the arrays, lists, dictionaries or other "
  "containers the caller passed in: the caller's model, data, weights, index lists and option dictionaries hold the same values afterwards "
  "(also when the object keeps the argument and uses it later). And reading a value a component keeps (properties, accessors, mesh and "
  "survey attributes, stored matrices) and computing with it does not change the kept value. Routines whose documented purpose is to write "
  "into the object they are given (item assignment, explicit output buffers) are outside.",
  ["inputs", "histories"], "all argument values and array dtypes/layouts; all sequences of calls sharing an argument or a stored array",
  "Tests build fresh inputs for each call and look at return values; an in-place update of a view, a default-free option dictionary or a stored matrix only shows when the same object is used again.",
  ["simpeg/data.py", "simpeg/utils/", "simpeg/maps/", "simpeg/regularization/", "simpeg/potential_fields/", "simpeg/electromagnetics/", "simpeg/directives/", "simpeg/optimization.py", "simpeg/simulation.py"],
  [("in-place operators, item/attribute stores and mutating method calls on parameters, their views and aliases", "every module of simpeg"), ("arrays reachable through properties and accessors", "every class of simpeg")],
  "interprocedural alias and mutation-effect analysis on reaching definitions: every in-place operation is traced to the objects its target may alias (parameter, view of a parameter, stored attribute, property result) through helpers and overrides",
  "may-alias through names, attributes, views, helper returns; calls into libraries are taken to be non-mutating except for a table of mutating numpy/list/dict operations"),
]
