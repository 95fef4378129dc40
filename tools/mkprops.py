import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["CasimirRio/" + f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Results never depend on what was computed before",
  "Every evaluation of a two-sphere geometry or of its thermodynamics returns what a freshly constructed object with the same parameters returns, whatever evaluations came before it on that object, including ones that failed. Reusing, overwriting or sharing the arrays and lists passed in, or overwriting arrays returned earlier, does not change any result, and no evaluation modifies the arrays, lists or parameters it was given.",
  ["histories", "inputs"], "all sequences of evaluations (finite frequencies, zero frequency, single m, trace series, force attempts, energies, entropies, Matsubara terms) on one object, with shared or mutated argument arrays",
  "Tests build a fresh object for nearly every assertion; caches of scattering coefficients and flags only show after particular call sequences.",
  ["geometry.py", "thermodynamics.py", "stratified_sphere_scattering.py"],
  [("cache keyed on the wavenumber array", "geometry.SphereSphere.roundTrip_elements"), ("zero-frequency cache", "geometry.SphereSphere.roundTrip_elements_k0"), ("force flag handling", "geometry.SphereSphere.supermatrix, thermodynamics.finiteT.force")],
  [("K, MieA, MieB", "cached wavenumbers and scattering coefficients", "geometry.SphereSphere"), ("MieA_k0, MieB_k0", "cached zero-frequency coefficients", "geometry.SphereSphere"), ("f_matsubaras", "memoised Matsubara terms", "thermodynamics.finiteT")],
  ["return values of the public evaluation methods", "argument objects after the call"])

p("C02", "A batch of frequencies equals the frequencies one by one",
  "Evaluating an array of wavenumbers gives, element by element and in the order given, what evaluating each wavenumber on its own gives, for unsorted arrays, repeated values and values spanning many orders of magnitude. This holds for the round-trip values (up to the requested precision), for scattering and translation coefficients, for the Bessel functions and for the material responses.",
  ["inputs"], "all arrays of positive wavenumbers, any length, order and spread, optionally preceded by the zero frequency",
  "Tests use ascending arrays in one regime; element-wise behaviour under permutation and mixing of small and large arguments is never compared.",
  ["geometry.py", "bessel_sk.py", "scattering.py", "translation.py", "materials.py"],
  [("vectorised Bessel recursion with small/large split", "bessel_sk.lniknu, bessel_sk.fnu"), ("per-frequency scaling", "geometry.dynamic_scaling"), ("axis layout of block matrices", "geometry.SphereSphere.blockmatrices")],
  (), ["returned arrays"])

p("C03", "One Matsubara term per frequency, zero frequency at half weight",
  "The list of Matsubara terms from a first to a last index contains exactly one term per index, in order, each equal to the round-trip value at that multiple of the base temperature, except that the zero-frequency term enters with weight one half. The result does not depend on the length of the slices in which it is computed, nor on whether the zero-frequency term is taken analytically or as a small-frequency limit.",
  ["inputs", "configurations"], "all first and last indices, slice lengths, base temperatures, analytic and numerical zero-frequency treatment, solid and layered spheres",
  "Tests evaluate a handful of terms with the default slice length; the slice boundaries and the zero term interact only for particular lengths.",
  ["thermodynamics.py"],
  [("slicing", "thermodynamics.slicewise_eval"), ("zero-frequency weight", "thermodynamics.finiteT.F_alle"), ("assembly", "thermodynamics.finiteT.get_f_matsubaras")],
  (), ["returned arrays"])

p("C04", "Free energy, entropy, force and T=0 energy follow from the Matsubara terms",
  "The free energy at j times the base temperature is that temperature times the sum of every j-th Matsubara term, reported for every multiple up to the maximum temperature; the entropy is minus its temperature derivative, and the zero-temperature energy over a wavenumber interval is the integral of the round-trip value. The force is minus the derivative of the free energy with respect to the centre distance.",
  ["inputs", "configurations", "histories"], "all base temperatures, numbers of terms, maximum temperatures (including fewer terms than temperatures) and orders in which the quantities are requested",
  "Tests check one temperature list of one geometry; the sub-sampling, the derivative grid and fewer terms than temperatures are not compared.",
  ["thermodynamics.py"],
  [("sub-sampled sums", "thermodynamics.finiteT.free_energy"), ("gradient", "thermodynamics.finiteT.entropy"), ("quadrature", "thermodynamics.finiteT.e0"), ("force", "thermodynamics.finiteT.force")],
  [("f_matsubaras", "memoised terms", "thermodynamics.finiteT")], ["returned arrays"])

p("C05", "Two spheres side by side: the round-trip value is the exact one",
  "For two spheres outside each other at any positive wavenumber, the value for each angular-momentum projection is the logarithm of the determinant of one minus the exact truncated round-trip operator of Maxwell's equations, and the total is the sum over all projections from minus to plus the largest order. This holds for every combination of perfectly conducting, metallic, dielectric, magnetic and user-defined materials and media, radii, distances and truncation orders.",
  ["inputs", "configurations"], "all exterior geometries, material triples, wavenumbers from 1e-4 to 50 inverse microns, truncation orders and projections",
  "Tests compare a few perfectly conducting configurations with stored numbers; no independent reference exists for other materials, media, orders and projections.",
  ["geometry.py", "scattering.py", "translation.py", "bessel_sk.py", "cython_gaunt.pyx", "materials.py"],
  [("assembly of the round-trip blocks", "geometry.SphereSphere.blockmatrices"), ("sum over m", "geometry.SphereSphere.mSumme"), ("log-determinant", "geometry.balanced_slogdet")],
  (), ["values for single projections and totals"])

p("C06", "Sphere inside a cavity: the round-trip value is the exact one",
  "For a sphere placed inside a spherical cavity at any positive wavenumber, the value for each angular-momentum projection is the logarithm of the determinant of one minus the exact truncated round-trip operator of Maxwell's equations, and the total is the sum over all projections. This holds for every combination of sphere, wall and filling materials, radii, displacements and truncation orders.",
  ["inputs", "configurations"], "all interior geometries, material triples, wavenumbers, truncation orders and projections",
  "Tests touch the interior geometry with at most one configuration and no independent reference.",
  ["geometry.py", "scattering.py", "translation.py", "bessel_sk.py"],
  [("cavity scattering", "scattering.scattering.mie_internal"), ("regular translation", "translation.translation.get_vl1l2"), ("choice of geometry", "geometry.SphereSphere.__init__")],
  (), ["values for single projections and totals"])

p("C07", "The zero-frequency term is the limit of the finite-frequency value",
  "The analytically evaluated zero-frequency value of a geometry, for each projection and in total, equals the limit of its finite-frequency value as the wavenumber goes to zero, for exterior and interior geometries. This holds for perfect conductors, plasma and Drude metals, dielectrics and magnetic materials in any dielectric medium, at any truncation order.",
  ["inputs", "configurations"], "all geometries with non-layered spheres, all material classes, all dielectric media, all orders and projections",
  "Tests compare one or two material pairs at low order; every material class has its own limiting formula.",
  ["geometry.py", "scattering.py", "translation.py"],
  [("static scattering", "scattering.scattering.mie_k0, mie_internal_k0"), ("static translation", "translation.translation.trans_k0_ext, trans_k0_int"), ("static blocks", "geometry.SphereSphere.blockmatrices_k0_ext, blockmatrices_k0_int")],
  [("MieA_k0, MieB_k0", "cached static coefficients", "geometry.SphereSphere")], ["zero-frequency values"])

p("C08", "Scattering coefficients of solid spheres and cavities are exact",
  "The electric and magnetic scattering coefficients returned for a solid sphere, and for the wall of a spherical cavity, together with their logarithmic scale, equal the solutions of the electromagnetic boundary conditions for every order in the requested range. They stay finite and accurate for all wavenumbers, radii, refractive indices and orders for which the bare coefficients would over- or underflow.",
  ["inputs"], "all material pairs, wavenumbers times radius from 1e-4 to 300, orders 1 to 40, any requested order range",
  "Tests compare a few orders of a few materials with low-precision references; scaling errors and order offsets appear only in particular ranges.",
  ["scattering.py", "bessel_sk.py"],
  [("external scattering", "scattering.scattering.mie, miePEC"), ("internal scattering", "scattering.scattering.mie_internal, miePEC_internal"), ("static coefficients", "scattering.scattering.mie_k0, mie_internal_k0")],
  (), ["coefficient times exponential of scale"])

p("C09", "Layered and coated spheres scatter as the boundary conditions demand",
  "The scattering coefficients of a sphere with any number of concentric layers satisfy the boundary conditions at every interface; layers made of the neighbouring material, of the surrounding medium or of vanishing contrast drop out. A geometry built from layered or coated spheres gives the round-trip value of the exact truncated operator with those coefficients.",
  ["inputs", "configurations"], "all layer sequences of up to four materials and radii, wavenumbers and orders; coated and layered two-sphere geometries",
  "Tests compare one or two layerings; the recursion over layers and the removal of invisible layers are only exercised by longer sequences.",
  ["stratified_sphere_scattering.py", "scattering.py", "geometry.py"],
  [("layer recursion", "stratified_sphere_scattering.StratifiedMieScattering.mie_stratified"), ("coated sphere", "scattering.coated_miescattering.mie_coated"), ("geometry of coated spheres", "geometry.CoatedSphereSphere")],
  (), ["coefficients", "round-trip values"])

p("C10", "Translation coefficients and Gaunt integrals are exact",
  "The coefficients that translate vector multipoles along the line of centres, in both directions, for outgoing and regular waves and for conserved and mixed polarisation, together with their logarithmic scale, equal their definition as sums of Gaunt integrals and Bessel functions. The Gaunt integrals equal the integral of three spherical harmonics for every allowed set of indices and vanish for forbidden ones, and the static coefficients are the limits of the dynamic ones.",
  ["inputs"], "all orders up to 40, projections, wavenumbers, distances and media; Gaunt integrals for orders up to 60 and both signs of the projection",
  "Tests tabulate a few Gaunt coefficients and compare a few translation coefficients; the recursion passes through many more index combinations.",
  ["translation.py", "cython_gaunt.pyx", "bessel_sk.py"],
  [("recursion for Gaunt coefficients", "cython_gaunt.gaunt"), ("sum over intermediate orders", "translation.translation.get_vl1l2"), ("static translation", "translation.translation.trans_k0_ext, trans_k0_int")],
  (), ["coefficient times exponential of scale"])

p("C11", "Logarithms of the modified spherical Bessel functions are accurate",
  "The logarithms of the regular and irregular modified spherical Bessel functions, and the ratios of neighbouring regular ones, agree with their definition for every order and every positive argument, small, moderate or large, alone or in an array, sorted or not. The requested range of orders, and only that range, is returned.",
  ["inputs"], "all orders 0 to 100 and arguments from 1e-8 to 1e4, in arrays of any order",
  "Tests sample a few arguments per regime in ascending arrays and low orders.",
  ["bessel_sk.py"],
  [("upward recursion", "bessel_sk.lnknu"), ("continued fraction and Wronskian", "bessel_sk.lniknu, bessel_sk.fnu"), ("range selection", "bessel_sk.mie_bessels, bessel_sk.trans_bessels")],
  (), ["returned logarithms"])

p("C12", "Material responses follow their documented oscillator models",
  "For every predefined and every user-defined material, permittivity and permeability at imaginary wavenumbers equal the documented sum of oscillators with the documented parameters, have the shape of the argument, are at least one for non-magnetic and decrease with the wavenumber. The classification as perfect conductor, dielectric, magnetic or finitely conducting follows from the oscillators alone.",
  ["inputs", "configurations"], "all predefined materials, user-defined oscillator lists, scalars and arrays of wavenumbers",
  "Tests check a couple of materials at a couple of wavenumbers; parameters and flags of the others are never evaluated.",
  ["materials.py"],
  [("oscillator sum", "materials.LorentzMaterial.epsilon, mu"), ("Smith conductivity", "materials.LorentzSmithMaterial.epsilon"), ("classification", "materials.is_sigma_finite, is_dielectric, is_magnetic"), ("parameter tables", "materials module level")],
  (), ["returned values and flags"])

p("C13", "Balancing and block-matrix algebra preserve the exact result",
  "Balancing a real matrix is an exact diagonal similarity by powers of two: it terminates, never rounds, keeps diagonal, determinant and characteristic polynomial, and leaves rows and columns of comparable norm. Log-determinants, block inverses, products, traces and rescalings of stacks of matrices equal their mathematical definition for each matrix of the stack separately.",
  ["inputs"], "all square matrices of sizes 1 to 12 including zero, triangular, permuted and badly scaled ones, and stacks of them",
  "Tests use a few random matrices and compare determinants with tolerance; exactness, zero rows or columns and termination need structured inputs.",
  ["matrix_balancing.pyx", "geometry.py"],
  [("balancing loop", "matrix_balancing.balance"), ("log-determinants", "geometry.balanced_slogdet, sln_det_3d, sln_det_blockdiagonal"), ("block inverse", "geometry.inv_3d_blockmatrix, inv_3d_matrix, dot_3d_matrices, trace_dot_3d"), ("rescaling", "geometry.single_k_scale, dynamic_scaling")],
  (), ["returned matrices and numbers"])

p("C14", "Truncated sums stay within the requested precision",
  "Ending the sum over projections early, and ending the series over round trips early, changes the result by no more than the order of the requested precision, and the log-determinant and round-trip-series evaluations of the same geometry agree to that precision. The single-round-trip evaluation is the trace of the round-trip operator over the requested projections, and a series of prescribed order is exactly that partial sum.",
  ["inputs", "configurations"], "all geometries, wavenumbers, requested precisions, series orders and largest projections",
  "Tests look at the final value of one configuration at one precision; stopping rules fire at different places for other inputs.",
  ["geometry.py"],
  [("stopping rule of the m-sum", "geometry.SphereSphere.mSumme, mSumme_k0"), ("round-trip series", "geometry.SphereSphere.arbitrary_roundtrips, mSum_roundtrips"), ("single round trip", "geometry.SphereSphere.mSum_oneRoundtrip")],
  [("roundTrip_dct", "order of the series per projection", "geometry.SphereSphere")], ["returned values"])

p("C15", "Physical symmetries: exchange, scale invariance, attraction, monotonicity",
  "Exchanging the two spheres together with their materials and truncation orders, and, for scale-free materials, scaling all lengths together with the inverse wavenumber, leaves every value unchanged; a sphere made of the surrounding medium contributes nothing. Between two equal spheres in any medium every value is negative (zero if transparent) and decreases in magnitude with their distance.",
  ["inputs", "configurations"], "all exterior geometries and, for scaling and transparency, interior ones; all materials",
  "Tests contain no relation between two different evaluations.",
  ["geometry.py", "scattering.py", "translation.py"],
  [("round-trip operator", "geometry.SphereSphere.blockmatrices"), ("static operator", "geometry.SphereSphere.blockmatrices_k0_ext")],
  (), ["returned values"])

p("C16", "Automatic truncation orders are sufficient and explicit ones are honoured",
  "Orders and numbers of terms given explicitly are used as given; automatic ones are integers of at least one and do not depend on which sphere is named first. Automatic orders grow when the spheres come closer, when the precision is tightened or when the offset is raised, the automatic number of terms grows when the temperature is lowered, and the second sphere gets an order larger in proportion to the ratio of radii. With automatic orders and the smaller sphere named first, the static value and the values at wavenumbers up to the inverse gap agree with the converged ones to the order of the requested precision.",
  ["inputs", "configurations"], "all radii, distances, precisions, offsets and temperatures, exterior and interior",
  "Tests do not evaluate the heuristics outside one configuration.",
  ["geometry.py", "thermodynamics.py"],
  [("order heuristic", "geometry.get_lmax"), ("order of second sphere", "geometry.SphereSphere.__init__"), ("number of terms", "thermodynamics.finiteT.__init__")],
  (), ["chosen orders", "values at those orders"])

p("C17", "Plane-plane energies and pressures are the Lifshitz integrals",
  "The free energy per area, its polarisation-resolved Matsubara terms, its high- and zero-temperature limits and the pressure between two half-spaces equal the Lifshitz formula with the exact reflection coefficients for any materials and medium. Shielding removes exactly the zero-frequency term, and the pressure is minus the distance derivative of the free energy.",
  ["inputs", "configurations"], "all material triples, separations and temperatures, with and without shielding",
  "Tests compare the perfectly conducting case with stored numbers.",
  ["PFA.py", "raw_PFA.py", "scattering.py"],
  [("reflection", "scattering.scattering.fresnel, fresnelPEC"), ("round trip", "PFA.SphereSpherePFA.roundTrip, roundTrips, pressureRoundTrip"), ("integration and sum", "PFA.SphereSpherePFA.planeplaneFreeEnergy, planeplanePressure, planeplaneFreeEnergyHT, get_f_matsubaras, planeplane_e0")],
  (), ["returned values"])

p("C18", "The sphere-sphere proximity approximation integrates the plane result",
  "The proximity-force energy of two spheres is the integral of the plane-plane free energy over the local surface distance across the smaller sphere, and the force is the plane-plane free energy at closest approach times the effective circumference, for spheres side by side and for a sphere in a cavity. Both honour temperature and shielding, and do not depend on which of two external spheres is named first. The simplified variant (raw_PFA) has the same force, and half the gap times the force as energy.",
  ["inputs", "configurations"], "all radii, distances, temperatures and materials, exterior and interior",
  "Tests evaluate single numbers for one configuration.",
  ["PFA.py"],
  [("local distance", "PFA.SphereSpherePFA.distance"), ("energy integral", "PFA.SphereSpherePFA.spheresphereEnergy"), ("force", "PFA.SphereSpherePFA.spheresphereForce")],
  (), ["returned values"])

p("C19", "A job computes what its configuration says and never destroys results",
  "Running a job writes the requested quantity, computed with exactly the radii, distance, materials, orders, precision, evaluation type, zero-frequency treatment, temperatures and number of terms of the configuration (or the distance given on the command line), together with a header stating the parameters used. No existing file is ever modified or replaced by a job, however often it is repeated and whatever other jobs create in the meantime, and a job that fails writes no data.",
  ["configurations", "histories"], "all combinations of configuration options, sequences of jobs with the same result file, pre-existing files, a competing job creating the file at the moment of writing",
  "The tests never start the job runner.",
  ["worker.py", "geometry.py", "thermodynamics.py"],
  [("configuration", "worker.return_geometry, worker.do_calculation"), ("header", "worker.job_infos"), ("choice of file name", "worker.save_result")],
  (), ["files in the working directory", "exit status"])

p("C20", "Invalid requests are rejected instead of answered",
  "Requests that are not meaningful or not implemented - unknown evaluation types, malformed layer lists, non-integer orders, inverted order ranges, non-positive slice lengths, mismatched or wrongly shaped matrices, conducting media at zero frequency, zero frequency of layered spheres, negative process numbers, foreign geometry objects - raise an error. They never return a number and never leave an object in a state that changes later results.",
  ["inputs", "histories"], "all enumerated classes of invalid requests, before and after valid ones",
  "Tests check a few of the errors and never evaluate the object afterwards.",
  ["geometry.py", "thermodynamics.py", "bessel_sk.py", "scattering.py", "stratified_sphere_scattering.py", "helper_functions.py"],
  [("argument checks", "constructors and entry points of the modules")],
  (), ["exceptions", "results after the rejected request"])

p("C21", "Numerical helpers: differences, factorials, interpolation, conversion",
  "The finite-difference derivative is exact for polynomials up to the order its stencil promises at every interior and edge point of an equidistant grid, the logarithmic factorials are exact, and interpolated optical data reproduce the table at its nodes, are linear between them and follow a Drude curve outside. Oscillator strengths and energies in electronvolts convert to the frequencies of the oscillator model. Arguments are left unchanged.",
  ["inputs"], "all grids of five or more points, polynomials, factorial arguments and data tables",
  "Tests compare one function on one grid with a loose tolerance.",
  ["helper_functions.py", "data_inter_extrapolation.py", "materials_converter.py"],
  [("five-point formula", "helper_functions.num_derivative"), ("factorials", "helper_functions.lfac, ln_2dbl"), ("interpolation", "data_inter_extrapolation.data_interp_extrap.interpolate, get_drude_data")],
  (), ["returned arrays"])

p("C22", "Round-trip matrices and their polarisation channels are exact",
  "The blocks of the round-trip operator returned for a projection at a list of wavenumbers, zero frequency included, are those of the exact truncated operator up to the normalisation of the multipoles: diagonal elements and products of mirrored elements equal the exact ones, for polarisation-conserving and polarisation-mixing blocks. The channels into which the blocks are resolved have the exact values too and add up to the blocks, the polarisations decouple at zero frequency, and the assembled matrix consists of the four blocks.",
  ["inputs", "configurations"], "all exterior and interior geometries of solid and layered spheres, materials, orders, projections and lists of wavenumbers",
  "Tests compare only determinants of a few operators; exchanged or mis-assigned channels leave most determinants unchanged.",
  ["geometry.py", "scattering.py", "translation.py"],
  [("blocks", "geometry.SphereSphere.blockmatrices, blockmatrices_k0_ext, blockmatrices_k0_int"), ("channels", "geometry.SphereSphere.blockmatrices_channels"), ("assembly", "geometry.SphereSphere.supermatrix"), ("rescaling", "geometry.dynamic_scaling, single_k_scale")],
  (), ["returned matrices"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
print(len(P))
