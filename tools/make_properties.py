"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier={"over": over, "text": text},
            why_tests_cant=why,
            anchors=a,
        )
    )


S = "src/elli/"

prop(
    "C01",
    "The 2x2 solver gives the exact Fresnel/transfer-matrix answer",
    "For every stack of isotropic, passive layers (attenuation within the floating-point range) between a transparent and any isotropic half-space, every wavelength set and every angle of incidence, the fast 2x2 solver returns the complex p and s amplitude reflection and transmission coefficients of Maxwell's equations (cross terms zero) and the matching power reflectance and transmittance. This includes absorbing layers, total internal reflection, an empty layer list and normal incidence, with the sign and phase convention of the 4x4 solver.",
    ["inputs", "configurations"],
    "all layer counts, thicknesses, real and complex refractive indices, wavelengths and angles below grazing incidence",
    "The tests compare a handful of fixed stacks with stored arrays or the other solver; a wrong branch of Snell's law, a layer order slip or a wrong phase only shows for particular index/angle combinations.",
    [S + "solver2x2.py"],
    [("Snell angles with forward branch choice", S + "solver2x2.py:Solver2x2.list_snell"),
     ("Fresnel coefficients and transfer matrix", S + "solver2x2.py:Solver2x2.calculate"),
     ("power correction", S + "solver2x2.py:Solver2x2.calculate")],
    ["Result.jones_matrix_r", "Result.jones_matrix_t", "Result.R", "Result.T"],
)
prop(
    "C02",
    "The 4x4 solver solves Maxwell's equations for anisotropic stacks",
    "For every stack of layers with arbitrary (symmetric or, for user-defined materials, gyrotropic; rotated, absorbing) permittivity tensors between an isotropic front medium and an isotropic or anisotropic back medium, the reflection Jones matrix (including p/s cross-polarisation terms) and, for an isotropic back medium, the transmission Jones matrix equal the solution of the plane-wave boundary-value problem. The answer does not depend on which exact propagator is chosen.",
    ["inputs", "configurations"],
    "all tensors, orientations, layer counts, thicknesses, wavelengths, angles, and exact propagator choices",
    "Tests cover a few hand-derived crystals (uniaxial plate, twisted nematic, total internal reflection) on fixed orientations; a sign slip in one off-diagonal tensor element is invisible unless that element is non-zero.",
    [S + "solver4x4.py"],
    [("Berreman delta matrix", S + "solver4x4.py:Solver4x4.build_delta_matrix"),
     ("half-space transition matrices", S + "solver4x4.py:Solver4x4.transition_matrix_halfspace, transition_matrix_iso_halfspace"),
     ("propagators", S + "solver4x4.py:PropagatorExpm, PropagatorEig")],
    ["Result.jones_matrix_r", "Result.jones_matrix_t"],
)
prop(
    "C03",
    "All solvers and propagators agree wherever they are applicable",
    "For isotropic structures the 2x2 solver and the 4x4 solver with every exact propagator (matrix exponential with each backend, eigenvalue decomposition) return the same Jones matrices, ellipsometric angles, reflectance and transmittance. The linear propagator converges to the same result as a layer is cut into thinner slices, and the default solver choice equals the explicit one; an unknown backend is rejected with a ValueError.",
    ["inputs", "configurations"],
    "all isotropic structures, wavelengths, angles and solver/propagator/backend combinations",
    "The solver tests compare the solvers on two or three fixed structures.",
    [S + "solver4x4.py", S + "solver2x2.py", S + "experiment.py", S + "structure.py"],
    [("backend table", S + "solver4x4.py:PropagatorExpm.__init__"),
     ("eigen decomposition propagator", S + "solver4x4.py:PropagatorEig"),
     ("solver dispatch", S + "experiment.py:Experiment.evaluate; " + S + "structure.py:Structure.evaluate")],
)
prop(
    "C04",
    "Energy is conserved: R+T=1 lossless, R+T<=1 absorbing, all within [0,1]",
    "For every passive structure with transparent front medium, reported reflectances and transmittances lie in [0,1] and, for each incident polarisation (linear or circular), total reflected plus transmitted power never exceeds the incident power. When all media are lossless and the exit medium is isotropic, reflected plus transmitted power equals the incident power, also for anisotropic layers; under total internal reflection transmittance is zero and reflectance one.",
    ["inputs", "configurations"],
    "all passive structures, both solvers, all angles, wavelengths and incident polarisations",
    "No test checks an energy balance over generated structures; a wrong power correction factor is invisible to amplitude comparisons.",
    [S + "result.py", S + "solver2x2.py", S + "solver4x4.py"],
    [("power correction", S + "solver2x2.py:Solver2x2.calculate; " + S + "solver4x4.py:Solver4x4.calculate"),
     ("R/T matrices", S + "result.py:Result.R_matrix, T_matrix, Rc_matrix, Tc_matrix")],
)
prop(
    "C05",
    "Optically equivalent structures give equal results",
    "Zero-thickness layers, splitting one homogeneous layer into parts, merging equal neighbours, writing out a repeated block (with its leading and trailing extra layers, also nested), a layer of the back material on the back side or of a transparent front material on the front side (up to its phase) never change the optical response. Scaling all thicknesses and wavelengths by one factor with constant permittivities, or rotating isotropic materials, leaves the response unchanged.",
    ["inputs", "programs"],
    "all structures and all sequences of response-preserving rewrites of the layer list",
    "Tests evaluate single hand-written structures (a Bragg mirror) and never relate two structures.",
    [S + "structure.py", S + "solver4x4.py", S + "solver2x2.py"],
    [("structure expansion", S + "structure.py:Structure.get_permittivity_profile, RepeatedLayers.get_permittivity_profile"),
     ("layer product order", S + "solver4x4.py:Solver4x4.calculate; " + S + "solver2x2.py:Solver2x2.calculate")],
)
prop(
    "C06",
    "Wavelengths are evaluated independently of each other and of their container",
    "Evaluating a structure, material or dispersion on an array of wavelengths gives at each position exactly what evaluating that wavelength alone gives, whatever the order, duplicates or length of the array. (Models without wavelength dependence may return one value standing for all wavelengths.) A scalar wavelength behaves as a one-element array, integer and float wavelengths are equivalent, and a list or tuple of wavelengths given to an evaluation behaves as the array.",
    ["inputs"],
    "all wavelength arrays (any order, duplicates, length one), structures, materials, solvers",
    "Tests use ascending wavelength grids; coupling between positions (broadcasting or sorting mistakes, length-3/4 arrays meeting tensor axes) shows only on other shapes.",
    [S + "experiment.py", S + "materials.py", S + "solver4x4.py", S + "solver2x2.py", S + "dispersions/base_dispersion.py"],
    [("wavelength normalisation", S + "experiment.py:Experiment.set_lbda"),
     ("tensor assembly per wavelength", S + "materials.py:SingleMaterial.get_tensor")],
)
prop(
    "C07",
    "Evaluation has no side effects and results are snapshots",
    "Any sequence of evaluations, property reads and profile queries leaves structures, materials, layers, dispersions, experiments and user arrays unchanged, so repeating a query yields the identical answer. A result keeps reporting the values of the moment it was computed even when the structure, experiment, material or dispersion parameters are changed afterwards, and a changed object is reflected by the next evaluation.",
    ["histories"],
    "all interleavings of evaluate, read, modify (setters and parameter edits) and re-evaluate operations on shared objects",
    "Tests build fresh objects, evaluate once and stop; aliasing shows only over a history with shared sub-objects.",
    [S + "solver.py", S + "experiment.py", S + "structure.py", S + "result.py", S + "materials.py"],
    [("deep copy on evaluation", S + "solver.py:Solver.__init__"),
     ("stored Jones matrices", S + "result.py:Result")],
    state=[("structure graph", "layers, materials and dispersions shared between structures", S + "structure.py")],
)
prop(
    "C08",
    "Anisotropic responses obey symmetry, rotation and reciprocity laws",
    "Mirroring a whole sample at the plane of incidence flips the sign of only the cross-polarised coefficients. Reciprocity holds: turning it by 180 degrees about the surface normal exchanges r_ps and r_sp (with a sign) and keeps r_pp and r_ss, and turning it upside down transposes the power transmittances of the reversed beam. At normal incidence rotating the sample about the normal by any angle rotates the Jones matrices covariantly, samples with principal axes along x, y, z show no cross-polarisation, and a uniaxial crystal rotated about its own axis is unchanged.",
    ["inputs"],
    "all anisotropic stacks, tensors and rotation angles",
    "Only a few fixed orientations of single crystals are tested.",
    [S + "solver4x4.py", S + "materials.py", S + "utils.py"],
    [("tensor rotation", S + "materials.py:SingleMaterial.set_rotation, get_tensor"),
     ("Berreman delta matrix", S + "solver4x4.py:Solver4x4.build_delta_matrix")],
)
prop(
    "C09",
    "Incident polarisation given as Jones or Stokes vector is used consistently",
    "A Jones vector and the Stokes vector of the same polarisation state describe the same experiment, conversion in both directions is the textbook relation up to a global phase and intensity, and the default is light polarised at +45 degrees. The measured psi and delta depend only on the polarisation state, equal the ratio of the p and s components of the reflected (transmitted) field, and are invariant under global phase and intensity.",
    ["inputs"],
    "all Jones vectors, fully and partially polarised Stokes vectors, and structures",
    "Tests never pass a non-default vector to an anisotropic sample and never compare the two descriptions.",
    [S + "experiment.py", S + "result.py"],
    [("vector conversion", S + "experiment.py:Experiment.set_vector"),
     ("rho from Jones matrix and vector", S + "result.py:Result.rho, rho_t")],
)
prop(
    "C10",
    "Psi, delta and rho follow from the Jones matrices in the chosen delta range",
    "For reflection and transmission, rho, psi and delta (reduced values and full matrices) satisfy rho = tan(psi) exp(-i delta) with rho the ratio to the ss coefficient, psi lies in [0,90] degrees and delta lies in the selected 360 degree range. Choosing another admissible range changes delta only by whole turns (the range 0..180 folds it to its magnitude), never changes psi, and inadmissible ranges are rejected; shifting stored delta values with the range conversion function does the same.",
    ["inputs", "histories"],
    "all Jones matrices, all admissible integer delta ranges, and sequences of range changes",
    "The result tests that touch this need a database that is absent, and use the ranges whose lower bound is a multiple of 180.",
    [S + "result.py", S + "utils.py"],
    [("delta range", S + "utils.py:DeltaRange, convert_delta_range; " + S + "result.py:Result.as_delta_range"),
     ("psi/delta/rho", S + "result.py:Result.psi, delta, psi_matrix, delta_matrix and _t variants")],
)
prop(
    "C11",
    "Mueller matrices are the physical image of the Jones matrix",
    "The normalised Mueller matrix has M11 = 1, maps the Stokes vector of any incident Jones state to the Stokes vector of the reflected state (up to the normalisation), and is therefore a pure, passive-realisable Mueller matrix (rank-one coherency matrix). For isotropic samples it has the N/C/S block form given by psi and delta, and the conversion of psi/delta tables to Mueller matrices yields that same matrix for every angle and wavelength.",
    ["inputs"],
    "all Jones matrices, incident states and psi/delta tables (any angles, any order of rows)",
    "No Mueller matrix element is compared with an independent oracle in a runnable test.",
    [S + "result.py", S + "utils.py"],
    [("Kronecker construction", S + "result.py:Result.mueller_matrix"),
     ("isotropic conversion", S + "utils.py:convert_psi_delta_to_isotropic_mueller_matrix")],
)
prop(
    "C12",
    "Every result quantity is reachable by name and indices select the right element",
    "Each documented quantity is available as attribute and through get() with the same value; suffixes _ij (p/s, L/R, 1..4) select exactly row i and column j of the matching matrix, including Greek-letter names and transmission variants. Unpolarised R and T are half the sum of the pp and ss entries, circular matrices are the linear ones in the circular basis, power matrices are the squared amplitudes (times the transmission power factor), and unknown names or indices raise an error.",
    ["inputs"],
    "all quantity names, index suffixes and generated Jones matrices",
    "Only a few names are read in tests, mostly on isotropic samples where swapped indices and rows give the same zeros.",
    [S + "result.py"],
    [("name lookup", S + "result.py:Result.__getattr__, get, _convert_index"),
     ("circular basis", S + "result.py:Result.jones_matrix_rc, jones_matrix_tc")],
)
prop(
    "C13",
    "Result lists stack their members in order and average over members only",
    "A list of n results returns every quantity as the stack of the members' values in insertion order (singleton axes removed) and has length n; appending adds exactly one member. The averaged list returns for every quantity, any number of members (one included) and any number of wavelengths the arithmetic mean over the members, in the shape a single result has, and refuses to be averaged again.",
    ["inputs", "histories"],
    "all list lengths including one, wavelength counts including one, append sequences, and quantities",
    "Tests use one list with several members and several wavelengths.",
    [S + "result.py"],
    [("stacking and averaging", S + "result.py:ResultList, AveragedResultList")],
)
prop(
    "C14",
    "Every dispersion model evaluates its documented formula",
    "For every parameter set (including any number of oscillator terms) and wavelength, each built-in dispersion model returns the value of its documented formula in the convention eps1 + i eps2 / n + i k, with the documented parameter units. Oscillator terms add up, their order is irrelevant, and passive parameter sets never yield gain for models that are passive by construction.",
    ["inputs", "configurations"],
    "all models, parameters, numbers of terms and wavelengths",
    "Each model is compared with one stored curve at one parameter set, which leaves powers, units and terms with default or zero parameters undecided.",
    [S + "dispersions/"],
    [("model formulas", S + "dispersions/*.py: dielectric_function / refractive_index")],
)
prop(
    "C15",
    "Dispersion parameters are bound as declared and invalid ones are rejected",
    "Positional, keyword, mixed and default arguments of a dispersion (and of each added oscillator) end up bound to the declared parameter, independently of other instances; creating a model by its name gives the same object as constructing it directly. Unknown names, too many values, doubly given and missing required parameters raise the invalid-parameter error and leave no partially added term, unknown model names raise ValueError, and the textual form lists every parameter with its value.",
    ["inputs", "histories"],
    "all models, argument splits, invalid argument combinations, and sequences of constructions and additions",
    "Tests check a few invalid calls on one model.",
    [S + "dispersions/base_dispersion.py"],
    [("parameter binding", S + "dispersions/base_dispersion.py:BaseDispersion._fill_params_dict, __init__, add"),
     ("factory", S + "dispersions/base_dispersion.py:DispersionFactory.get_dispersion")],
)
prop(
    "C16",
    "Sums of dispersions are pointwise sums and do not alter their terms",
    "Adding dispersions of the same kind and plain numbers in any grouping and order gives a dispersion whose permittivity (or refractive index, for index-based models) is the pointwise sum, tables and Python's sum() included. Forming a sum changes neither operand, mixing the two kinds raises TypeError unless converted explicitly, and a later change of a term's parameters is the only thing that changes it.",
    ["programs", "histories"],
    "all expression trees over dispersions, tables, sums and numbers, with shared operands",
    "The tests add two or three terms once; they never reuse an operand after a sum was formed.",
    [S + "dispersions/base_dispersion.py", S + "dispersions/table_index.py", S + "dispersions/table_epsilon.py"],
    [("operators", S + "dispersions/base_dispersion.py:Dispersion.__add__, DispersionSum, IndexDispersionSum"),
     ("table operators", S + "dispersions/table_index.py, table_epsilon.py")],
)
prop(
    "C17",
    "Index, permittivity and data-frame views of a dispersion are consistent",
    "For every dispersion the permittivity is the square of the complex refractive index, both data-frame views contain the same numbers as real columns indexed by the requested wavelengths, and the conjugate option flips exactly the sign of the imaginary column. Without wavelengths the model's default range is used, and the views through an isotropic material or the index-based conversion return the same values.",
    ["inputs"],
    "all models, wavelength containers, conjugate flags, defaults",
    "Tests read the views of few models on default wavelengths.",
    [S + "dispersions/base_dispersion.py", S + "materials.py"],
    [("views", S + "dispersions/base_dispersion.py:get_dielectric, get_refractive_index, *_df, as_index, get_mat")],
)
prop(
    "C18",
    "Tabulated dispersions interpolate their data and guard their range",
    "A tabulated dispersion returns exactly the tabulated complex value at each node and, between nodes, the interpolation of the requested kind (linear by default, so between the neighbours) in the stored quantity, for any order of the nodes. Empty or mismatched tables are rejected, wavelengths outside the table raise an error instead of extrapolating, and the default wavelength range is the table's own; a spectral table file yields the same dispersion as its arrays whether given over wavelength or energy.",
    ["inputs"],
    "all tables, interpolation kinds, query points inside and outside, and table files",
    "Tests interpolate one table and never query nodes, unsorted tables or the range ends.",
    [S + "dispersions/table_index.py", S + "dispersions/table_epsilon.py", S + "dispersions/table_spectraray.py", S + "dispersions/pseudo_dielectric.py"],
    [("interpolation", S + "dispersions/table_index.py, table_epsilon.py, pseudo_dielectric.py"),
     ("file reading", S + "dispersions/table_spectraray.py")],
)
prop(
    "C19",
    "Formula dispersions compute the value of the written expression",
    "A formula string evaluates, at every wavelength, to what ordinary arithmetic gives for it: operator precedence, parentheses, powers, functions, constants, single parameters, sums over repeated parameters, and the axis variable converted to the stated unit (length or energy), with the parameter values the dispersion has at that moment, also after terms were added or values changed. Ill-formed formulas, unknown names or units, missing parameters and repeated parameters of unequal length are rejected with an error instead of returning a value, and parsing one formula never affects another.",
    ["programs", "inputs"],
    "all expressions of the formula grammar, parameter values, units and wavelengths",
    "Tests evaluate a few fixed formulas (Cauchy, Sellmeier); precedence, nesting, unit and error paths of the grammar are unsampled.",
    [S + "formula_parser/parser.py", S + "dispersions/formula.py"],
    [("grammar and transformer", S + "formula_parser/parser.py"),
     ("unit conversion and guards", S + "dispersions/formula.py")],
)
prop(
    "C20",
    "Kramers-Kronig transforms match their definition and causal models obey them",
    "Each transform equals the Maclaurin-rule sum of the Kramers-Kronig integral on its equidistant axis (in the wavelength variant: the reciprocal axis), is linear in its input, maps real and imaginary parts of causal oscillators onto each other within discretisation error, and rejects inputs of unequal length. The built-in absorbing models that are causal satisfy these relations between their real and imaginary parts.",
    ["inputs"],
    "all axes, spectra, lengths (odd and even), number types and oscillator parameters",
    "One stored spectrum per transform is compared.",
    [S + "kkr/kkr.py", S + "dispersions/"],
    [("Maclaurin sums", S + "kkr/kkr.py:im2re, re2im, *_reciprocal"),
     ("causal models", S + "dispersions/tauc_lorentz.py, gaussian.py, cody_lorentz.py, tanguy.py")],
)
prop(
    "C21",
    "Material tensors carry the given axes and rotate as tensors",
    "Isotropic, uniaxial and biaxial materials place each dispersion on its documented axis, and a rotation turns the tensor as R eps R^T, preserving symmetry, eigenvalues and trace; setting a new rotation or dispersion replaces the old one. The rotation helpers return proper orthogonal matrices that agree with each other, turn right-handedly by the stated angles in the documented axis order and have the documented inverses.",
    ["inputs", "histories"],
    "all axes, angles, Euler triples, dispersions, and sequences of setter calls",
    "Tests check the tensors of few fixed materials with one or two rotations.",
    [S + "materials.py", S + "utils.py"],
    [("tensor assembly", S + "materials.py:SingleMaterial.get_tensor"),
     ("rotation helpers", S + "utils.py:rotation_euler, rotation_v, rotation_v_theta")],
)
prop(
    "C22",
    "Effective-medium mixtures solve their documented mixing equation",
    "Each mixture model returns the documented effective permittivity for host, guest and fraction: it equals the host at fraction 0 and the guest at 1, equals the common value for identical constituents, satisfies its defining equation, and for passive constituents the Bruggeman solution is the physical (passive, continuous) root, symmetric under exchanging host and guest with the complementary fraction. Fractions outside 0..1 are rejected, mixtures may be nested, and global numerical error settings are untouched.",
    ["inputs"],
    "all host/guest tensors (isotropic, anisotropic, absorbing, equal), fractions and nestings",
    "The mixture tests need an absent database and compare single stored values.",
    [S + "materials.py"],
    [("mixture formulas", S + "materials.py:VCAMaterial, LooyengaEMA, MaxwellGarnettEMA, BruggemanEMA"),
     ("fraction guard", S + "materials.py:MixtureMaterial.set_fraction")],
)
prop(
    "C23",
    "Layer stacks expand to the documented depth profile",
    "The permittivity profile of a structure lists front half-space, every layer from front to back and back half-space, with infinite outer and exact inner thicknesses; a repeated block expands to its trailing extras, the repetitions and its leading extras. Graded and twisted layers consist of equally thick slices that sum to the layer thickness, each holding the tensor of its midpoint (mixing fraction from the modulation function over relative depth, or material rotated about the normal in proportion to depth).",
    ["inputs", "programs"],
    "all nestings of layers, repeated blocks, twisted and graded layers with any slice count and modulation",
    "Tests look at one repeated and one twisted structure.",
    [S + "structure.py"],
    [("profile expansion", S + "structure.py:Structure.get_permittivity_profile, RepeatedLayers, InhomogeneousLayer, TwistedLayer, VaryingMixtureLayer")],
)
prop(
    "C24",
    "Invalid structure descriptions are rejected and leave objects unchanged",
    "Negative thicknesses, repetition counts below one, negative extra-layer counts, slice counts below one, fractions outside 0..1 and arguments of the wrong kind (not a material, layer, layer list, mixture or dispersion) raise ValueError or TypeError in constructors and setters alike. After a rejected setter call the object still describes its previous state, and every valid boundary value (zero thickness, fractions 0 and 1, one repetition, one slice) is accepted.",
    ["inputs", "histories"],
    "all setters and constructors, valid boundary and invalid values, and sequences of accepted and rejected calls",
    "Tests try a few invalid constructor calls and never look at the object afterwards.",
    [S + "structure.py", S + "materials.py"],
    [("guards", S + "structure.py and " + S + "materials.py setters")],
)
prop(
    "C25",
    "Unit conversions and pseudo-optical functions invert and agree",
    "Wavelength, energy, frequency and wavenumber conversions agree with the physical constants, with each other and are their own or each other's inverse for scalars and arrays. The pseudo-dielectric function of data simulated for a bare isotropic substrate returns the substrate's permittivity (in each output form), psi/delta tables and rho convert into each other, and the quarter-wave thickness really is a quarter of the wavelength in the material.",
    ["inputs"],
    "all values, containers, substrates, angles and output forms",
    "The tests convert one or two values.",
    [S + "utils.py"],
    [("conversions", S + "utils.py:conversion_*"),
     ("pseudo dielectric", S + "utils.py:calc_rho, calc_pseudo_diel")],
)
prop(
    "C26",
    "Text measurement files are read back faithfully",
    "For every measurement written in one of the supported text formats (SpectraRay, Woollam WVASE and CompleteEASE, Accurion), the importer returns a table with one row per written angle and wavelength holding exactly the written psi and delta (or Mueller elements), indexed by angle of incidence in degrees and wavelength in nm (SpectraRay and Accurion deltas mapped to -180..180 degrees, Woollam deltas as written). The wavelength unit, separators, header variants and text encodings of the format do not change the result, rho importers return the matching complex ratio, and files of an unsupported kind raise an error.",
    ["inputs"],
    "all measurements (angles, wavelengths, values) and format variants",
    "Each importer reads one or two sample files and compares with stored data.",
    [S + "importer/spectraray.py", S + "importer/woollam.py", S + "importer/accurion.py", S + "utils.py"],
    [("parsers", S + "importer/spectraray.py, woollam.py, accurion.py"),
     ("encoding detection", S + "utils.py:detect_encoding")],
)
prop(
    "C27",
    "NeXus files yield exactly the stored measurements and materials",
    "For every NeXus ellipsometry file in one of the two supported layouts, the importer returns one row per stored angle and wavelength with exactly the stored psi and delta and the matching rho. Materials stored as formula or table dispersions, sums of them, over wavelength or energy axes, isotropic or uniaxial, are rebuilt as materials whose permittivity equals what the file describes.",
    ["inputs"],
    "all generated files: angle and wavelength counts, layouts, dispersion kinds, axes and parameters",
    "One measurement file and a few material files are read in tests.",
    [S + "importer/nexus.py"],
    [("measurement reader", S + "importer/nexus.py:read_nexus_psi_delta, read_nexus_rho"),
     ("material reader", S + "importer/nexus.py:read_nexus_materials")],
)
prop(
    "C28",
    "Database entries load as the data and formulas they contain",
    "For every database catalogue and entry in the documented format (tabulated n, k or nk data, and the supported formula types), searching finds exactly the entries matching the query and wavelength filter with ranges in nm, and loading an entry returns a dispersion or material whose n and k equal the tabulated values or the documented formula. Identifiers that name no entry or more than one, and entries of unsupported type, are rejected with an error.",
    ["inputs", "configurations"],
    "all generated catalogues, entries, formula types, coefficients and queries",
    "The database tests need the database submodule, which is not available here, so nothing of this is tested at all.",
    [S + "database/refractive_index_info.py"],
    [("catalogue parsing and search", S + "database/refractive_index_info.py:RII.__init__, search"),
     ("entry loading", S + "database/refractive_index_info.py:RII.get_dispersion, get_mat")],
)
prop(
    "C29",
    "Fit parameter history behaves as a bounded stack of exact snapshots",
    "For every sequence of tracked edits, commits, reverts and pops, the parameter history holds the committed states in order, never more than its maximum length (dropping the oldest), and reverting or popping restores exactly the committed values, limits and fixed flags. Stored snapshots never change when the parameters are edited later, and edits of unknown parameters or an empty history fail without altering the state.",
    ["histories"],
    "all operation sequences and maximum lengths",
    "The history has no test at all.",
    [S + "fitting/params_hist.py"],
    [("history", S + "fitting/params_hist.py:ParamsHist")],
    state=[("history", "list of committed parameter snapshots", S + "fitting/params_hist.py")],
)
prop(
    "C30",
    "Fitting minimises the model-data difference and undo/redo restores states",
    "For every model function, parameter set and measurement, the quantity a psi/delta or Mueller-matrix fit minimises is the difference between the simulated and the measured data, vanishes for data simulated from the same parameters, and fitting such data from a nearby start recovers the parameters and stores them. Model data for given parameters equals direct evaluation at the measured wavelengths and angle, undo, redo and reset move exactly through the visited parameter states, and the displayed curves and input fields are those of the current parameters.",
    ["inputs", "histories"],
    "all models, parameters, start values, and sequences of edits, fits, undos, redos and resets",
    "No fitting code is executed by a runnable test.",
    [S + "fitting/decorator.py", S + "fitting/decorator_psi_delta.py", S + "fitting/decorator_mmatrix.py"],
    [("residuals", S + "fitting/decorator_psi_delta.py:FitRho.fit_function; " + S + "fitting/decorator_mmatrix.py:FitMuellerMatrix.fit_function"),
     ("undo stack", S + "fitting/decorator.py:FitDecorator")],
)
prop(
    "C31",
    "Plots and matrix tables show exactly the simulated data",
    "A structure plot shows, for every structure and wavelength, the refractive index of each layer over its true depth interval, front to back, with every slice of graded layers and repeated blocks present. A Mueller-matrix table holds each matrix element under its own label at its own wavelength, and a Mueller-matrix plot draws each selected element from its own column, in the grid position of its indices (for the full set of sixteen elements).",
    ["inputs"],
    "all structures, wavelengths, Mueller matrices and display selections",
    "The plotting code is only run inside example notebooks without looking at the drawn data.",
    [S + "plot/structure.py", S + "plot/mueller_matrix.py", S + "fitting/decorator_mmatrix.py"],
    [("structure profile", S + "plot/structure.py"),
     ("Mueller table and plot", S + "plot/mueller_matrix.py:plot_mmatrix; " + S + "fitting/decorator_mmatrix.py:mmatrix_to_dataframe")],
)

prop(
    "C32",
    "Copies behave like the original and are independent of it",
    "A deep copy or unpickled copy of any dispersion, material, mixture, layer, structure, experiment, result, result list or parameter history (where it holds no user function that Python cannot pickle) gives the same answers as the original. Changing the original afterwards (parameters, terms, layers, thicknesses, angles) leaves the copy's answers unchanged and the other way round, and the change takes full effect in the changed object, including in converted and summed dispersions and formulas.",
    ["inputs", "histories"],
    "all objects of the public classes, copying methods, and sequences of changes to either side",
    "No test copies an object; fits and parameter studies do it all the time.",
    [S + "dispersions/base_dispersion.py", S + "dispersions/formula.py", S + "result.py", S + "structure.py", S + "materials.py", S + "fitting/params_hist.py"],
    [("dispersion state", S + "dispersions/base_dispersion.py:BaseDispersion; " + S + "dispersions/formula.py:FormulaParser"),
     ("result lists", S + "result.py:ResultList, AveragedResultList"),
     ("history", S + "fitting/params_hist.py:ParamsHist")],
)
prop(
    "C33",
    "Interleaved evaluations do not influence one another",
    "Evaluations of structures, materials, dispersions and result quantities that overlap in time (several threads, or an evaluation started from within another one by a user-defined dispersion, material or mixture fraction) each give exactly the answer they give alone, whether or not they share structures, layers, materials, solvers or wavelength arrays, as long as no shared object is changed meanwhile.",
    ["schedules", "inputs"],
    "all sets of evaluations, sharing of objects and interleavings",
    "Tests run one evaluation at a time; state kept at class or module level or on shared objects during an evaluation only shows when two overlap.",
    [S + "solver.py", S + "solver2x2.py", S + "solver4x4.py", S + "structure.py", S + "materials.py", S + "result.py", S + "dispersions/base_dispersion.py"],
    [("experiment and solver state", S + "solver.py:Solver; " + S + "structure.py:Structure.evaluate"),
     ("material and layer state", S + "materials.py; " + S + "structure.py:get_permittivity_profile"),
     ("result caches", S + "result.py:Result")],
)

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P), encoding="utf-8")
print(len(P))
