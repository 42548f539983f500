import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe]}})

add("P01", "Element shape functions are exactly the polynomials their family defines",
    "For every primitive family, node count, element length and evaluation point, the shape functions take the values their family prescribes (Lagrange or Hermite interpolation conditions at all nodes up to the family's derivative order, integrated-Legendre polynomials for the spectral family), and every reported derivative order is the true derivative with respect to the physical coordinate. "
    "The function-over-radius form and its derivatives equal the quotient rule applied to the function, and stay finite and correct as the radius goes to zero. "
    "Dropping boundary functions removes exactly the requested value and/or derivative function, and unsupported families, node counts or derivative orders are refused with an error.",
    ["inputs", "configurations"], "all families (Lagrange, Hermite orders 1-3, Legendre, Chebyshev-node variants), 2..20 nodes, all derivative orders offered, all element lengths and points in the reference element, all boundary-drop flag combinations",
    "Tests sample three node counts and r -> 0 only; the generated closed-form derivative tables have one branch per derivative order and per family.",
    ["libhelfem/include/LIPBasis.h", "libhelfem/include/LIPBasis_eval.h", "libhelfem/include/HIPBasis.h", "libhelfem/include/HIPBasis_eval.h", "libhelfem/include/HIPBasis_over_r.h", "libhelfem/include/HIP2Basis.h", "libhelfem/include/HIP2Basis_eval.h", "libhelfem/include/HIP2Basis_over_r.h", "libhelfem/include/HIP3Basis.h", "libhelfem/include/HIP3Basis_eval.h", "libhelfem/include/HIP3Basis_over_r.h", "libhelfem/include/LegendreBasis.h", "libhelfem/include/legendre_poly.h", "libhelfem/src/PolynomialBasis.cpp"],
    [("PolynomialBasisT::eval_dnf / eval_over_r", "libhelfem/include/PolynomialBasisT.h"), ("basis factory", "libhelfem/src/PolynomialBasis.cpp")],
    "polynomial basis public evaluation interface")

add("P02", "Finite-element assembly builds a conforming basis with its boundary conditions",
    "For every element grid, primitive family and boundary-condition choice, the global functions are continuous across element boundaries to the order the family promises, satisfy the requested value/derivative conditions at both ends, and the local-to-global numbering covers each global function consistently. "
    "Global matrix elements and vectors of arbitrary weights, within one basis or between two different bases, equal independent quadrature of the evaluated functions; functions and derivatives evaluated at any coordinate agree with the element-local ones, and any coordinate is assigned to an element that contains it. "
    "Inserting an element boundary only refines the space: functions of the old basis stay exactly representable.",
    ["inputs", "configurations", "histories"], "all families and node counts, 1..n elements with arbitrary boundaries, all 16 boundary flag combinations, arbitrary smooth weights, arbitrary evaluation points including element boundaries, sequences of boundary insertions",
    "No test touches the assembly; errors show only for particular overlap orders, flag combinations or element pairs.",
    ["libhelfem/include/FiniteElementBasis.h", "libhelfem/src/FiniteElementBasis.cpp"],
    [("FiniteElementBasisT::matrix_element, vector_element", "libhelfem/src/FiniteElementBasis.cpp"), ("get_idx / find_element / add_boundary", "libhelfem/src/FiniteElementBasis.cpp")],
    "FiniteElementBasis public interface")

add("P03", "Quadrature rules and radial element grids are what they claim to be",
    "For every order, the Gauss-Lobatto, Gauss-Chebyshev and angular rules have positive weights, ordered nodes inside the interval (on the sphere for the angular rule) and integrate every polynomial or spherical harmonic in their exactness class, and the smooth-function rules converge to the true integral. "
    "Every element grid (all grid types, finite-nucleus, off-centre-nucleus, inserted and confinement-shifted variants) is strictly increasing, starts at zero, ends exactly at the requested practical infinity, follows its documented spacing law, and contains the requested special radii as element boundaries. "
    "Invalid orders, grid types or exponents are refused.",
    ["inputs", "configurations"], "all orders, grid types, element counts, exponents, nuclear sizes and off-centre distances",
    "Tests use a handful of fixed grids; exactness class and endpoint law are for-all statements over order and parameters.",
    ["libhelfem/include/lobatto.h", "libhelfem/include/chebyshev.h", "libhelfem/include/grid.h", "libhelfem/src/grid.cpp", "src/general/angular.cpp", "src/atomic/basis.cpp"],
    [("lobatto_compute, chebyshev, radial_chebyshev", "libhelfem/include"), ("get_grid", "libhelfem/include/grid.h"), ("form_grid and helpers", "src/atomic/basis.cpp"), ("compound angular rule", "src/general/angular.cpp")],
    "returned nodes, weights and element boundaries")

add("P04", "Radial one-electron matrices equal the integrals they denote",
    "For every radial basis, the overlap, kinetic (radial and centrifugal), nuclear, moment, Bessel-weighted, model-potential, off-centre-nucleus, confinement and cross-basis matrices equal independent high-order quadrature of the corresponding operator between the evaluated basis functions, are symmetric, and have the definiteness of the operator. "
    "Radial functions, their derivatives and quantities derived from them (orbital values, densities at the nucleus and their gradients, the electrostatic potential of basis-function products) agree with direct evaluation at every radius including the origin. "
    "The result does not depend on the requested starting quadrature order.",
    ["inputs", "configurations"], "all primitive families, node counts, element grids, moment orders, angular momenta, screening lengths, confinement kinds/exponents/shifts, nuclear distances",
    "No unit test evaluates any radial matrix; failures depend on operator, power, element and family.",
    ["libhelfem/include/RadialBasis.h", "libhelfem/src/RadialBasis.cpp", "libhelfem/src/quadrature.cpp", "libhelfem/src/ModelPotential.cpp", "libhelfem/include/math.h"],
    [("FEMRadialBasisT one-electron members", "libhelfem/src/RadialBasis.cpp"), ("spherical_potential", "libhelfem/src/RadialBasis.cpp"), ("radial quadratures", "libhelfem/src/quadrature.cpp")],
    "FEMRadialBasis public interface")

add("P05", "Radial two-electron integrals equal the double integral of their kernel",
    "For every radial basis, multipole order and screening parameter, the Coulomb, Yukawa-screened and complementary-error-function-screened radial two-electron integrals equal the double radial integral of the corresponding multipole kernel between basis-function products, within an element and between elements. "
    "Their factorised (Cholesky) forms and exchange-ordered forms reproduce the same integrals to the requested tolerance, and Coulomb and exchange matrices assembled from any density through any of the assembly variants agree with direct contraction of the integrals. "
    "The screened kernels interpolate between the bare kernel at vanishing screening and zero at strong screening, and the short- and long-range parts add up to the bare kernel.",
    ["inputs", "configurations"], "all families, grids, multipole orders, screening parameters, factorisation tolerances, density matrices",
    "The integrals have separate code paths per element pair and kernel; no unit test computes any of them.",
    ["libhelfem/src/quadrature.cpp", "libhelfem/src/erfc_expn.cpp", "libhelfem/src/RadialBasis.cpp", "libhelfem/src/utils.cpp", "libhelfemqc/include/CoulombExchangeFE.h"],
    [("twoe_integral, yukawa_integral, erfc_integral and Cholesky variants", "libhelfem/src/RadialBasis.cpp"), ("Phi(n,Xi,xi)", "libhelfem/src/erfc_expn.cpp"), ("J/K assembly", "libhelfemqc/include/CoulombExchangeFE.h"), ("exchange_tei", "libhelfem/src/utils.cpp")],
    "returned integral blocks and assembled J/K")

add("P06", "Nuclear models are the electrostatics of a charge Z with the requested size",
    "For every charge, size and radius, each nuclear model's potential equals minus Z over r outside (or in the tail of) its charge distribution, is finite and smooth inside for finite models, and is the Coulomb potential of its documented charge distribution, whose total charge is Z and whose root-mean-square radius is the requested one. "
    "The regularized model is the documented softened potential at every radius and equals the point nucleus beyond the range set by its parameter. "
    "Potential values scale linearly with the charge (the regularized model as Z squared times the unit model at Z r), and model selection by number yields the requested model or an error.",
    ["inputs"], "all models, charges, rms radii, radii from 0 to infinity across model-internal branch points",
    "Branches around the nuclear surface and series expansions near the origin are only reached by particular radii.",
    ["libhelfemqc/src/PointNucleus.cpp", "libhelfemqc/src/GaussianNucleus.cpp", "libhelfemqc/src/SphericalNucleus.cpp", "libhelfemqc/src/HollowNucleus.cpp", "libhelfemqc/src/RegularizedNucleus.cpp", "src/general/model_potential.cpp"],
    [("V(R) of each model", "libhelfemqc/src"), ("get_nuclear_model", "src/general/model_potential.cpp")],
    "potential values")

add("P07", "Screened-atom guess potentials interpolate from the bare nucleus to neutrality",
    "For every supported element, each guess potential (tabulated superposition-of-atomic-potentials, Green-Sellin-Zachor, Thomas-Fermi, and the one computed from tabulated atomic orbitals) is attractive with an effective charge that equals the nuclear charge at the nucleus, stays within physical bounds, varies continuously with radius, decays to the asymptotic value of a neutral atom, and uses the parameters of that element. "
    "Quantities derived from tabulated atomic orbitals (density and its derivatives, enclosed charge, electrostatic and exchange-correlation screening) are mutually consistent and equal independent evaluation from the orbitals. "
    "Element symbols and numbers map to each other consistently, and unsupported charges or functionals are refused.",
    ["inputs"], "all nuclear charges, all radii including 0, table knots and beyond the table, all functionals of the supported kinds",
    "Tables have >100 elements times hundreds of knots; off-by-one lookups pass any spot check of other elements.",
    ["src/general/gsz.cpp", "src/general/sap.cpp", "src/general/model_potential.cpp", "src/general/atomdb.cpp", "src/general/elements.cpp", "libhelfem/src/RadialPotential.cpp"],
    [("GSZ parameters", "src/general/gsz.cpp"), ("SAP effective charge interpolation", "src/general/sap.cpp"), ("atomdb::Atom", "src/general/atomdb.cpp")],
    "potential/effective charge values")

add("P08", "Contracted radial functions reproduce the functions and operators they expand",
    "Gaussian-type and Slater-type radial functions are normalised, their derivatives are true derivatives, and their analytic overlap, kinetic, nuclear and moment matrices equal numerical integration. "
    "A numerical-atomic-orbital contraction of a radial basis evaluates to the linear combination of its primitives, and its one- and two-electron matrices are the exact transforms of the primitive ones for any contraction coefficients. "
    "Invalid exponents, quantum numbers or coefficient shapes are refused.",
    ["inputs"], "all exponents, angular momenta, contraction matrices and underlying element bases",
    "No test exercises these classes.",
    ["libhelfemqc/include/GTO.h", "libhelfemqc/include/STO.h", "libhelfemqc/include/NAORadialBasis.h", "src/general/lcao.cpp"],
    [("GTO/STO radial bases", "libhelfemqc/include"), ("NAORadialBasis", "libhelfemqc/include/NAORadialBasis.h"), ("radial_GTO / radial_STO", "src/general/lcao.cpp")],
    "evaluated functions and matrices")

add("P09", "Orthonormalisation and eigenvalue helpers solve the problem they are given",
    "For every symmetric positive-definite overlap matrix, the orthonormalising matrices (symmetric or Cholesky) satisfy X'SX = 1, and an overlap that is not positive definite is refused by the Cholesky form. "
    "Every generalised eigenvalue routine, with or without symmetry blocking or a reduced subspace, returns orthonormal vectors with ascending eigenvalues satisfying the eigenvalue equation, and block-by-block solutions agree with the full one when the matrices are block diagonal. "
    "Text matrices and vectors that are written are read back with the same shape and values.",
    ["inputs"], "all matrix sizes, conditionings, degeneracies, symmetry partitions and number of requested vectors",
    "Conditioning, degeneracy and block order are arbitrary inputs.",
    ["src/general/scf_helpers.cpp", "libhelfem/src/utils.cpp", "src/general/eigen_io.h", "src/general/radial_block_helper.h"],
    [("form_Sinvh, eig_gsym, eig_gsym_sub", "src/general/scf_helpers.cpp"), ("invh", "libhelfem/src/utils.cpp"), ("text matrix I/O", "src/general/eigen_io.h")],
    "returned matrices")

add("P10", "Associated Legendre functions are accurate on every branch of their domain",
    "For every degree, order and real argument, both on the cut and outside it, the first- and second-kind associated Legendre functions agree with an independent high-precision evaluation to near the precision of the scalar type, whichever internal recurrence regime applies. "
    "They satisfy the Wronskian/Casoratian relation and their defining recurrences, entries outside the order range are zero as documented, and requesting a larger table never changes the entries of a smaller one beyond rounding. "
    "Singular arguments and negative sizes are refused.",
    ["inputs"], "all degrees, orders, and arguments across regime switch points, in double and long double",
    "Reference tables sample fixed arguments; regime switches depend on both argument and table size.",
    ["src/legendre/Legendre.h", "src/legendre/Legendre.cpp", "libhelfem/include/legendre_poly.h"],
    [("plm / qlm", "src/legendre/Legendre.h")],
    "returned tables")

add("P11", "Spherical harmonics and angular couplings are mutually exact",
    "Spherical harmonics are orthonormal on the sphere, obey the conjugation symmetry, and agree with an independent evaluation for every degree, order and direction. "
    "Every Gaunt coefficient and every cosine/sine-power coupling, looked up from tables of any size and order cap, equals the sphere integral of the corresponding product; the selection rules hold exactly, entries outside the stored degree range are zero and outside the stored order window are refused. "
    "Products of spherical harmonics are reproduced by their coupling expansion at every direction.",
    ["inputs", "configurations"], "all degree/order triples, table sizes, order caps, directions",
    "The symmetry-reduced table layout has index arithmetic whose errors appear only for particular triples or caps.",
    ["src/general/gaunt.cpp", "src/general/gaunt.h", "src/general/spherical_harmonics.cpp"],
    [("GauntT table lookup", "src/general/gaunt.cpp"), ("coupling helpers", "src/general/gaunt.cpp"), ("spherical_harmonics", "src/general/spherical_harmonics.cpp")],
    "returned coefficients")

add("P12", "Atomic basis operators equal integrals over the evaluated basis functions",
    "For every atomic basis, the overlap, kinetic, nuclear (centred, finite and off-centre), model-potential, confinement, dipole, quadrupole and magnetic-field matrices equal three-dimensional quadrature of the operator between basis functions evaluated from independent formulas, are symmetric, and couple only symmetry-allowed angular shells. "
    "Evaluated basis functions, gradients and Laplacians agree with the radial functions times spherical harmonics at every point. "
    "Symmetry index sets partition the basis, carry matching labels, and overlaps between different bases equal direct integration.",
    ["inputs", "configurations"], "all angular expansions (including explicit shell lists and negative orders), radial bases, nuclear models, field strengths, off-centre charges and distances",
    "No unit test builds an atomic basis.",
    ["src/atomic/TwoDBasis.cpp", "src/atomic/TwoDBasis.h", "src/atomic/basis.cpp", "src/general/angular_index_helpers.h", "src/general/radial_block_helper.h"],
    [("TwoDBasisT one-electron members", "src/atomic/TwoDBasis.cpp"), ("eval_bf/df/lf", "src/atomic/TwoDBasis.cpp"), ("get_sym_idx / labels", "src/atomic/TwoDBasis.cpp")],
    "matrices and evaluated functions")

add("P13", "Atomic Coulomb and exchange matrices are exact contractions of the repulsion",
    "For every atomic basis and every density matrix, the Coulomb and exchange matrices (bare and range-separated) equal contraction with independently computed electron-repulsion integrals, are symmetric and linear in the density, and satisfy the permutation symmetry of the repulsion and exchange of one-orbital densities cancelling their Coulomb self-energy. "
    "They are covariant under rotation of the density and independent of which integral storage or factorised form is used. "
    "The density-fitting factors reproduce the radial integrals to the requested tolerance.",
    ["inputs", "configurations"], "all angular expansions, radial bases, density matrices (including indefinite, m-mixing ones), screening parameters, factorisation tolerances",
    "Each density element exercises different angular couplings; tests have none.",
    ["src/atomic/TwoDBasis.cpp", "libhelfemqc/include/CoulombExchangeFE.h"],
    [("coulomb / exchange / rs_exchange", "src/atomic/TwoDBasis.cpp"), ("radial_df_factors", "src/atomic/TwoDBasis.cpp")],
    "J, K matrices and energies")

add("P14", "Diatomic basis operators equal integrals over the evaluated basis functions",
    "For every diatomic basis, the overlap, kinetic, nuclear, model-potential, dipole, quadrupole and magnetic-field matrices equal quadrature in prolate spheroidal coordinates of the operator between independently evaluated basis functions, are symmetric, and couple only symmetry-allowed shells. "
    "Evaluated basis functions, gradients and Laplacians agree with the product form at every point, exchanging the two nuclei mirrors every matrix, and overlaps with other bases and projections of Gaussian, Slater and numerical atomic functions equal direct integration. "
    "Symmetry index sets (by order, parity and absolute order) partition the basis with matching labels, and removing and restoring boundary functions is lossless.",
    ["inputs", "configurations"], "all charges, bond lengths, shell lists, radial bases, field strengths, probe functions",
    "No unit test builds a diatomic basis.",
    ["src/diatomic/basis.cpp", "src/diatomic/basis.h", "src/diatomic/twodquadrature.cpp"],
    [("TwoDBasis one-electron members", "src/diatomic/basis.cpp"), ("eval_bf/df/lf", "src/diatomic/basis.cpp"), ("TwoDGrid projections", "src/diatomic/twodquadrature.cpp")],
    "matrices and evaluated functions")

add("P15", "Diatomic Coulomb and exchange matrices are exact contractions of the repulsion",
    "For every diatomic basis and density matrix, the Coulomb and exchange matrices equal contraction with independently computed electron-repulsion integrals from the Neumann expansion, are symmetric and linear, obey the permutation symmetry of the repulsion and the cancellation of self-energy for one-orbital densities. "
    "Swapping the nuclei mirrors the result, the shortcut for densities symmetric in the sign of the azimuthal order gives the same matrices as the general path, and densities localised far from each other repel as point charges. "
    "In-element kernels agree between the stored and the on-the-fly evaluation.",
    ["inputs", "configurations"], "all bond lengths, shell lists, radial bases and density matrices",
    "Each multipole and element pair has its own path; tests have none.",
    ["src/diatomic/basis.cpp", "src/diatomic/quadrature.cpp", "src/legendre/Legendre.h"],
    [("coulomb / exchange", "src/diatomic/basis.cpp"), ("twoe_integral", "src/diatomic/quadrature.cpp")],
    "J, K matrices and energies")

add("P16", "Spherically averaged atoms: matrices and derived properties follow the density",
    "For every spherically averaged atomic basis, one-electron, Coulomb and exchange matrices (bare and range-separated) equal the spherical average of the full three-dimensional ones, for every set of per-angular-momentum densities. "
    "Every reported density-derived quantity (electron density and its derivatives, electron count, radial moments, nuclear density and cusp, Coulomb and exchange-correlation screening, effective charge, van der Waals radius, confinement energies, radial orbitals) satisfies its defining relation to the density it was computed from. "
    "Results for a density are independent of quantities computed earlier from other densities.",
    ["inputs", "configurations", "histories"], "all radial bases, angular cut-offs, density matrices, functionals and thresholds",
    "No unit test covers this module.",
    ["src/sadatom/basis.cpp", "src/sadatom/basis.h"],
    [("TwoDBasis matrices", "src/sadatom/basis.cpp"), ("density-derived quantities", "src/sadatom/basis.cpp")],
    "matrices and reported quantities")

add("P17", "Exchange-correlation potentials are the derivative of the reported energy",
    "For every density functional of a supported kind (LDA, GGA, meta-GGA with kinetic energy density and/or Laplacian, exchange and correlation alone or together), every basis (spherical atom, atom, diatomic general and fixed-order grids) and every density matrix, the exchange-correlation matrix is the derivative of the reported energy with respect to the density matrix, for spin-restricted and spin-polarised evaluation. "
    "The reported electron count and kinetic energy equal the exact traces, restricted and polarised evaluation agree on equal spin densities, exchanging spins exchanges the matrices, and the energy equals independent quadrature of the functional on the evaluated density. "
    "Grids specialised to fixed azimuthal order agree with the general grid.",
    ["inputs", "configurations"], "functionals, bases, density matrices (spin-pure, fully polarised, one-spin-empty), grid orders",
    "Derivative consistency must hold for each functional family times spin treatment times geometry; no unit test evaluates any functional.",
    ["src/general/dftgrid_common.cpp", "src/general/dftgrid_common.h", "src/general/dftfuncs.cpp", "src/sadatom/dftgrid.cpp", "src/atomic/dftgrid.cpp", "src/diatomic/dftgrid.cpp", "src/diatomic/dftgrid_purem.cpp"],
    [("eval_Fxc of the four grids", "src/*/dftgrid*.cpp"), ("compute_xc", "src/general/dftgrid_common.cpp")],
    "XC energy, matrices, electron count")

add("P18", "Shared SCF building blocks conserve electrons and energy consistency",
    "For every charge, multiplicity, explicit spin counts and spin mode, the derived spin-up/spin-down counts are non-negative, sum to the nuclear charge minus the ionic charge, and realise the requested multiplicity, and inconsistent requests are refused. "
    "For every block structure, overlap, orbitals and occupations, the assembled density traces to the occupations, the saved density equals the density used in the energy, initial orbitals rebuilt from a density reproduce that density, and the block Fock matrices are the orthonormal-basis transforms of the full Fock matrices including the opposite spin-Zeeman shifts. "
    "Exchange energies equal half the trace with the exchange matrix in every spin mode.",
    ["inputs", "configurations"], "all charges/multiplicities/counts, block partitions with empty and mirrored blocks, random orbitals and occupations",
    "Not compiled by the unit tests at all.",
    ["src/general/scf_driver_common.h", "src/general/scf_helpers.cpp"],
    [("derive_nela_nelb_restricted / parse_nela_nelb", "src/general"), ("accumulate_density_block, assemble_final_density, fill_block_from_density", "src/general/scf_driver_common.h"), ("assemble_fock_blocks", "src/general/scf_driver_common.h")],
    "returned counts, densities, Fock blocks")

add("P19", "Checkpoints return exactly what was last written, through any history",
    "For every sequence of opening, writing, overwriting, removing, reading and closing, a checkpoint returns for each name exactly the value last written (scalars, strings, integer and floating-point vectors and matrices, cubes, in every supported precision), reports existence correctly, and leaves other entries untouched. "
    "A failing read (missing entry, wrong type or shape, read-only write) raises an error, changes nothing, leaves the file in the same open or closed state as before the call, and later operations still work. "
    "A stored atomic or diatomic basis is restored to one that yields the same matrices, and reopening in read mode preserves all entries.",
    ["histories", "inputs", "fault_sequences"], "operation sequences over names and types, including failing operations, reopen cycles and several checkpoints at once",
    "Tests cannot enumerate histories mixing types, overwrites and failures.",
    ["src/general/checkpoint.cpp", "src/general/checkpoint.h"],
    [("Checkpoint read/write/remove/exist/open/close", "src/general/checkpoint.cpp")],
    "values read back, exceptions, open state")

add("P20", "User input is parsed faithfully or refused",
    "For every option table and argument list, the command-line parser yields exactly the values given (long and short forms, attached or separate values, grouped flags, defaults, leftovers), and reports unknown, missing, malformed or out-of-domain options as errors rather than guessing. "
    "Functional names resolve to the same functional as the functional library regardless of separator form and case, exchange-correlation pairs split correctly, and functional properties (exact-exchange fraction, range separation, required density ingredients) match the library's description. "
    "Parameter files and occupation tables with valid content are read to the values written, and malformed ones are refused.",
    ["inputs"], "random option tables and argument vectors, all functional names, random numeric files",
    "The space of argument vectors is unbounded.",
    ["src/general/cmdline.h", "src/general/dftfuncs.cpp", "src/general/scf_helpers.cpp", "src/general/eigen_io.h", "src/general/elements.cpp"],
    [("cmdline::parser", "src/general/cmdline.h"), ("parse_xc_func, find_func, range_separation", "src/general/dftfuncs.cpp"), ("parse_xc_params", "src/general/scf_helpers.cpp")],
    "parsed values and errors")

add("P21", "The atomic program reports the physically correct energy of its input",
    "For every atom, ion, field, confinement, basis and method combination the atomic program accepts, the effective one-electron operators it hands to the solver are the derivative of the total energy it reports, and the reported energy components sum to the total. "
    "One-electron systems reproduce the exact hydrogenic levels, enlarging the basis never raises the variational energy, and the result is independent of symmetry mode, spin treatment of closed shells, initial guess, grid type and primitive family within the basis-set error. "
    "A saved run can be loaded and immediately reproduces its energy; reversing a field's sign mirrors the result.",
    ["inputs", "configurations", "histories"], "program option sets: charge, multiplicity, functional, fields, nuclear model, symmetry, basis parameters; save/load chains",
    "The repository's end-to-end tests need external reference data and packages; energies must be right for every option combination.",
    ["src/atomic/main.cpp", "src/atomic/TwoDBasis.cpp", "src/general/scf_driver_common.h", "src/atomic/dftgrid.cpp"],
    [("Fock builder lambda", "src/atomic/main.cpp"), ("save / load", "src/atomic/main.cpp")],
    "program output")

add("P22", "The diatomic program reports the physically correct energy of its input",
    "For every pair of nuclei, bond length, field, basis and method combination the diatomic program accepts, the effective one-electron operators it hands to the solver are the derivative of the total energy it reports, and the components sum to the total. "
    "One-electron molecular ions reproduce independently computed exact energies, a molecule with one bare ghost nucleus reproduces the atom, exchanging the nuclei leaves the energy unchanged, and the result is independent of symmetry mode, spin treatment of closed shells, exchange-correlation grid kind and initial guess. "
    "A saved run can be loaded and immediately reproduces its energy in every symmetry mode.",
    ["inputs", "configurations", "histories"], "program option sets: charges, bond lengths, functional, fields, symmetry modes, basis parameters; save/load chains",
    "The repository's end-to-end tests need external reference data and packages.",
    ["src/diatomic/main.cpp", "src/diatomic/basis.cpp", "src/diatomic/dftgrid.cpp", "src/diatomic/dftgrid_purem.cpp", "src/diatomic/twodquadrature.cpp", "src/general/scf_driver_common.h"],
    [("Fock builder lambda", "src/diatomic/main.cpp"), ("save / load", "src/diatomic/main.cpp")],
    "program output")

add("P23", "The spherical-atom solver reports correct energies, potentials and properties",
    "For every atom or ion, functional, confinement and basis, the spherically averaged solver's operators are the derivative of its reported energy, energy components sum to the total, one-electron ions reproduce exact levels, and the energy agrees with the full atomic program for spherical closed-shell atoms. "
    "Batched evaluation of several densities equals one-by-one evaluation, restricted and unrestricted treatments agree for closed shells, and saved runs reload to the same energy. "
    "The reported effective potential and radial quantities are those of the converged density, with the effective charge equal to the nuclear charge at the origin and to the ionic charge asymptotically.",
    ["inputs", "configurations", "histories", "schedules"], "charges, occupations, functionals, confinements, guesses, save/load chains, batch sizes and thread counts",
    "Not linked by the unit tests at all.",
    ["src/sadatom/scf.cpp", "src/sadatom/scf.h", "src/sadatom/main.cpp", "src/sadatom/basis.cpp", "src/sadatom/dftgrid.cpp"],
    [("run_atomic_scf", "src/sadatom/scf.cpp"), ("batched Fock build", "src/sadatom/scf.cpp")],
    "returned results and program output")

add("P24", "One-dimensional and one-electron model programs reproduce exact spectra",
    "The harmonic, Morse and soft-Coulomb oscillator programs and the one-electron atom and diatomic programs report eigenvalues that agree with the exact or independently computed spectra for every well parameter, interval and basis, to within a bound that shrinks with the basis. "
    "Eigenvalues are reported in ascending order, converge from above for variational problems, and do not depend on the primitive family beyond the discretisation error.",
    ["inputs", "configurations"], "program parameters, all primitive families and grids",
    "The programs are not run by the unit tests.",
    ["src/harmonic/main.cpp", "src/harmonic/morse.cpp", "src/harmonic/softcoulomb.cpp", "src/sadatom/1e.cpp", "src/diatomic/1e.cpp"],
    [("program mains", "src/harmonic, src/sadatom/1e.cpp, src/diatomic/1e.cpp")],
    "program output")

add("P25", "Every scalar precision computes the same quantities to its own accuracy",
    "Shape functions, quadratures, radial and atomic matrices, two-electron integrals, angular couplings, orthonormalisation and checkpoint I/O evaluated in double, long double and quadruple precision agree to the accuracy of the narrower type. "
    "The wider types deliver residuals of defining identities (orthonormality, exactness of quadrature, symmetry) that improve with the type instead of stalling at double accuracy.",
    ["inputs", "configurations"], "the same generated bases and operators instantiated in three scalar types",
    "A constant or helper silently fixed to double is invisible at double precision.",
    ["libhelfem/include/types.h", "libhelfem/src/RadialBasis.cpp", "libhelfem/src/FiniteElementBasis.cpp", "libhelfem/src/quadrature.cpp", "libhelfem/src/utils.cpp", "src/atomic/TwoDBasis.cpp", "src/general/gaunt.cpp", "libhelfem/src/erfc_expn.cpp"],
    [("explicit instantiations", "libhelfem/src/*.cpp")],
    "values at each precision")

add("P26", "Results do not depend on thread count, evaluation order or earlier queries",
    "For every basis and density, Coulomb, exchange and exchange-correlation builds, integral precomputation and potential evaluation give the same result with one or many threads, when repeated, and whichever other queries or precomputations were made before on the same object or a copy of it. "
    "Objects shared read-only between threads can be evaluated concurrently without changing each other's results.",
    ["schedules", "histories"], "thread counts, interleavings of queries on shared objects, random sequences of precomputations and queries",
    "Unit tests run single-threaded, single-history.",
    ["src/atomic/TwoDBasis.cpp", "src/diatomic/basis.cpp", "src/sadatom/basis.cpp", "src/sadatom/dftgrid.cpp", "src/atomic/dftgrid.cpp", "src/diatomic/dftgrid.cpp", "src/general/atomdb.cpp", "libhelfem/src/RadialBasis.cpp"],
    [("OpenMP regions and lazy caches", "src/*/basis.cpp, libhelfem/src/RadialBasis.cpp")],
    "returned matrices")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
