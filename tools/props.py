"""Which harness decides which property."""
ASSUME = ("the oracles in harness/*.cpp are right; libxc, HDF5, Eigen, libm and the compiler are right; "
          "OpenOrbitalOptimizer, wignernj and the generated atom table are absent here and replaced by the stand-ins in /verif/shim")
PROPS = {
    "P01": {"bin": "p01_shape", "tech": "generated families, node sets, drop flags, derivative orders and points against a 100-digit Hermite/Legendre reference construction",
            "note": "up to 16 nodes (12 for second and third order Hermite); tolerances follow the conditioning of the closed forms"},
    "P02": {"bin": "p02_fe", "tech": "generated element grids, boundary flags, weights and boundary-insertion sequences against an independent node-based numbering and Gauss-Legendre quadrature",
            "note": "up to 9 elements and 9 nodes; weights are smooth with optional kinks"},
    "P03": {"bin": "p03_grids", "tech": "generated orders and grid parameters; oracle: exactness class, defining transformation and spacing law computed independently",
            "note": "rules up to 300 nodes, grids up to 40 elements"},
    "P04": {"bin": "p04_radial1e", "tech": "generated radial bases, operators, weights, confinement and nuclear models against independent Gauss-Legendre panel quadrature of the evaluated functions",
            "note": "up to 6 elements and 9 nodes; quotient forms near the origin are compared at the accuracy the quotient reference allows"},
    "P05": {"bin": "p05_radial2e", "tech": "generated radial bases, multipole orders, screening parameters and densities against nested Gauss-Legendre quadrature of the kernel (quad-precision reference for the screened multipoles)",
            "note": "up to 4 elements; the fixed-order erfc blocks are compared at the accuracy their cusp quadrature documents"},
    "P06": {"bin": "p06_nuclei", "tech": "generated models, charges, sizes and radii around every branch point against numerical electrostatics of the charge distribution and the defining equation of the regularised potential",
            "note": "regularisation parameter 1.2 to 30; normalisation of the reference orbital compared at the accuracy of the 100-point rule the model documents"},
    "P07": {"bin": "p07_guess", "tech": "generated elements, radii and functionals against the published tables and formulas and an independent evaluation of the tabulated orbitals",
            "note": "the orbital table itself is a synthetic stand-in (Z=1..18)"},
    "P08": {"bin": "p08_nao", "tech": "generated contracted Slater and Gaussian sets and random contractions against closed-form integrals, nested quadrature and explicit transformation sums",
            "note": "exponent ratio bounded so that the default expansion grid resolves every primitive"},
    "P09": {"bin": "p09_linalg", "tech": "generated overlap matrices (condition number, scaling, block structure), Fock matrices, subspaces and text tables; oracle: defining equations, an independent generalised eigensolver, interlacing and read-back",
            "note": "up to 25 functions, condition numbers up to 1e9"},
    "P10": {"bin": "p10_legendre", "tech": "generated degrees, orders, table sizes and arguments across all regimes against derivatives of P_l and Q_l in 420-digit arithmetic, plus Wronskians and table-size independence",
            "note": "degree up to 60, order up to 12, arguments up to 1e4"},
    "P11": {"bin": "p11_angular", "tech": "generated table sizes, order caps, triples and directions against Gauss-Legendre sphere integrals of independently computed harmonics",
            "note": "degrees up to 26 in tables and 60 for single harmonics; the library that supplies exact Gaunt integrals is a stand-in here"},
    "P12": {"bin": "p12_atomic1e", "tech": "generated radial bases, shell lists, charges, nuclear models, fields and directions against independent radial and angular Gauss-Legendre quadrature and independently computed harmonics",
            "note": "up to 4 elements, 8 shells, degree 6; the off-centre distance is an element boundary (anything else is refused, see P04)"},
    "P13": {"bin": "p13_atomic2e", "tech": "generated radial bases, shell lists, densities and screening parameters against explicit contraction with nested-quadrature radial integrals and independently integrated couplings; rotation, permutation, self-energy and factorisation relations",
            "note": "up to 3 elements, 7 shells, degree 5; the erfc blocks themselves are decided under P05"},
    "P14": {"bin": "p14_diatomic1e", "tech": "generated radial bases, shell lists, charges, bond lengths, fields and probe functions against two-dimensional Gauss-Legendre quadrature in prolate spheroidal coordinates and independently computed harmonics",
            "note": "up to 3 elements, 8 shells, degree 5; the sign of a projected probe function is treated as conventional"},
    "P15": {"bin": "p15_diatomic2e", "tech": "generated radial bases, shell lists, bond lengths and densities against explicit contraction with an independently integrated Neumann expansion (itself checked to sum to the inverse distance), closed-form Slater repulsion between the centres, and permutation, reflection, scaling and self-energy relations",
            "note": "up to 3 elements, 7 shells, degree 5; closed-form comparison at the accuracy of the projected basis"},
    "P16": {"bin": "p16_sadatom", "tech": "generated radial bases, angular cut-offs, densities, functionals and thresholds: matrices against nested quadrature with independently summed couplings and against the full three-dimensional basis, density-derived quantities against their defining integrals, roots and functional derivatives; operation histories against fresh objects",
            "note": "up to 6 elements and angular momentum 3; van der Waals radii only where the density decays monotonically through the threshold"},
    "P17": {"bin": "p17_xc", "tech": "generated functionals (LDA, GGA, meta-GGA with kinetic energy density and Laplacian, hybrids, potentials without energy, altered parameters), bases, grids and densities on the four grids: energies, electron counts, kinetic energies and matrices against pointwise evaluation of independently computed densities, matrices against finite differences of the energy, spin exchange, equal-spin and fully polarised limits, grid agreement",
            "note": "libxc itself is trusted; up to 3 elements and 4 shells; finite differences are skipped where the functional is not smooth enough to estimate their error"},
    "P18": {"bin": "p18_scf", "tech": "generated charges, multiplicities, counts and spin modes against enumeration of all admissible counts; generated block structures (empty, permuted and mirrored blocks), overlaps, orbitals and occupations: density assembly, save, reload and Fock blocks against direct summation, round trips and electron counting",
            "note": "up to 5 blocks of 5 functions; the building blocks are driven directly, the full programs are covered by P21-P23"},
    "P19": {"bin": "p19_checkpoint", "flavour": "quad", "tech": "stateful generation: histories of construct, open, close, flush, write, overwrite, read, remove and exist over several checkpoints and files, with failing operations, against a map model; final verification in both modes; leaked-handle count; basis round trips by their matrices; garbage files",
            "note": "histories of up to 40 operations over 3 checkpoints on 2 files; one process; crashes in the middle of a write are not generated (HDF5 does not promise to survive them)"},
    "P20": {"bin": "p20_input", "programs": ["prog_atomic", "prog_diatomic", "prog_gensap"], "tech": "generated option tables and argument lists (long, short, grouped, attached, repeated, unknown, malformed, out-of-domain) against a parser model; generated functional names, pairs and numbers against libxc; element symbols, parameter files, occupation tables (valid and malformed) against their written values; generated occupation tables and bad options through the programs",
            "note": "tables of up to 8 options; the reporting text of the usage message is only searched for the option names"},
    "P21": {"bin": "p21_atomic", "programs": ["prog_atomic"], "tech": "generated runs of the atomic program (all basis types, grids, methods, fields, confinements, nuclear models, external charges, symmetry modes) under a reference solver: finite-difference derivative of the printed energy against the operators handed to the solver; one-electron states against an independent radial solver; Stark, Zeeman and quadrupole shifts against exact perturbation theory; reflection and field-reversal symmetry; invariance under symmetry mode, guess, spin treatment and quadrature; basis-set limits, variational bounds and the virial theorem; save/load histories across symmetry modes and bases", "note": "small bases (up to about 200 functions) so that a run takes seconds; the finite-difference directions are random; the solver is this framework's stand-in for OpenOrbitalOptimizer"},
    "P22": {"bin": "p22_diatomic", "programs": ["prog_diatomic"], "tech": "generated runs of the diatomic program under a reference solver: finite-difference derivative of the printed energy against the operators handed to the solver; one electron and two charges against the separated prolate-spheroidal equation; exchange of the nuclei; invariance under symmetry mode, guess, spin treatment and pure-m or full quadrature; Hartree-Fock and exchange-only limits, variational bounds; off-centre ions in dipole, quadrupole and magnetic fields; save/load histories across symmetry modes and bases; refused requests", "note": "small bases (up to about 250 functions) so that a run takes seconds; the solver is this framework's stand-in for OpenOrbitalOptimizer"},
    "P23": {"bin": "p23_gensap", "programs": ["prog_gensap", "prog_atomic"], "tech": "generated runs of the spherical-atom program (charges, multiplicities, explicit and fractional occupations, methods, confinements, bases) under a reference solver: finite-difference derivative of the printed energy against the operators handed to the solver; batched against one-by-one evaluation at several thread counts; core levels of every angular momentum and one-electron ions against an independent radial solver; the full atomic program in the same radial basis; basis-set limits and the virial theorem; tabulated potential, densities, orbitals, radii and profiles against each other and against closed forms; save/load histories; refused requests", "note": "the functional of the tabulated potential is checked in closed form for exchange-only LDA, through its limits otherwise; the solver is this framework's stand-in for OpenOrbitalOptimizer"},
    "P24": {"bin": "p24_models", "programs": ["prog_harmonic", "prog_morse", "prog_softcoulomb", "prog_1e_atom", "prog_diatomic_1e"], "tech": "generated runs of the five programs (wells, charges, intervals, grids, nuclear models, primitive families) against eigenvalues computed independently in exactly the same space of piecewise polynomials, closed-form spectra and variational bounds; the two-centre problem against the separated prolate-spheroidal equation; saved orbitals, weights and energies re-checked", "note": "the two-centre comparison is at the accuracy of the converged basis"},
    "P25": {"bin": "p25_precision", "flavour": "quad", "tech": "the same generated bases, operators, densities and arguments (cast from double) instantiated at double, long double and quad: agreement with quad within a stated multiple of each narrower type's epsilon, and quad values against independent quad-precision oracles (polynomial reproduction, exact Gauss integration, closed forms, sum rules, orthonormality)",
            "note": "up to 4 elements and 20 nodes; checkpoint input and output at each type is covered by P19; the multipole expansion of erfc is limited by its documented cancellation"},
}
