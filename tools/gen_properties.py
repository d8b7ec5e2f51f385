#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
L = "libgrpp/"
prop("C01", "Overlap integrals equal the exact Gaussian overlaps",
 """libgrpp_overlap_integrals fills, for any two contracted shells, every element <A_m|B_n> with the exact overlap of the
 contracted Cartesian Gaussians (primitive norm (2a/pi)^(3/4)(4a)^(L/2)), stored at [m*size_B+n] in the shells' own component order.
 Whatever the output array held before is overwritten.""",
 ["inputs"], "all exponents > 0, contraction coefficients, centres (coincident or not), contraction lengths and L_A, L_B in 0..10",
 "The matrices of a handful of molecules (L<=5, fixed geometries) are compared with stored numbers; no test varies exponent, geometry, component order or L beyond them.",
 [L+"overlap.c", L+"norm_gaussian.c", L+"shell.c"],
 [("Obara-Saika 1-D recursion", L+"overlap.c"), ("primitive norm factor", L+"norm_gaussian.c")])
prop("C02", "Kinetic-energy and momentum integrals equal the exact operators' elements",
 """libgrpp_kinetic_energy_integrals gives -1/2 <A_m|nabla^2|B_n> and libgrpp_momentum_integrals gives the imaginary part of
 <A_m|-i d/dx_k|B_n> (that is -<A_m|d/dx_k|B_n>) for every pair of contracted shells. Kinetic matrices are therefore symmetric, and
 momentum matrices antisymmetric, under exchange of bra and ket.""",
 ["inputs"], "all exponents > 0, coefficients, centres, contraction lengths and L_A, L_B in 0..10",
 "Only the molecules' fixed bases are compared; momentum integrals appear in no stable test beyond stored matrices.",
 [L+"kinetic.c", L+"momentum.c", L+"norm_gaussian.c"],
 [("1-D second-derivative recursion", L+"kinetic.c"), ("1-D first-derivative recursion", L+"momentum.c")])
prop("C03", "Local (type-1) potential and point-charge integrals are exact",
 """libgrpp_type1_integrals gives <A_m| sum_k d_k r_C^(n_k-2) exp(-z_k r_C^2) |B_n> for every n_k in {0,1,2}, and
 libgrpp_nuclear_attraction_integrals for a point charge gives <A_m| -Z/r_C |B_n>, in terms of the Boys and G functions.
 Terms add linearly over primitives and potential terms, and a potential without terms (or NULL) gives the zero matrix.""",
 ["inputs"], "all exponents, coefficients, centres (any coincidence pattern), potential lengths and powers 0,1,2, L_A, L_B in 0..10",
 "Stored matrices exercise few power/L/geometry combinations; accumulation over terms and coincident centres are sampled only.",
 [L+"type1_integrals.c", L+"type1_mcmurchie_davidson.c", L+"nuclear_attraction.c", L+"potential.c"],
 [("McMurchie-Davidson E and R/G recursions", L+"type1_mcmurchie_davidson.c"), ("dispatch on the power n", L+"type1_integrals.c")])
prop("C04", "Semilocal (type-2) integrals equal the projector matrix elements",
 """libgrpp_type2_integrals gives sum_m <A| U(r_C) |l m><l m| B> with |lm> the real spherical harmonics about the potential's origin, for every
 projector l and every pair of contracted shells, in every arrangement of the three centres including one- and two-centre cases.""",
 ["inputs"], "all exponents, coefficients, potential terms, centres in every coincidence pattern, L_A, L_B in 0..10, l in 0..10",
 "Type-2 matrices are compared for a few molecules only: l<=4, a few geometries, never the boundary arrangements systematically.",
 [L+"type2_integrals.c", L+"angular_integrals.c", L+"spherical_harmonics.c", L+"radial_type2_integral.c"],
 [("binomial shift to the potential centre", L+"type2_integrals.c"), ("angular x radial factorisation", L+"angular_integrals.c, "+L+"radial_type2_integral.c")])
prop("C05", "Spin-orbit integrals equal <A|U P_l L_k P_l|B> up to the documented i",
 """libgrpp_spin_orbit_integrals gives, for k=x,y,z, the real antisymmetric matrices of <A| U(r_C) P_l (l_k) P_l |B> (imaginary unit
 dropped) where l is the orbital angular momentum about the potential origin. For l=0 all three matrices are zero.""",
 ["inputs"], "all exponents, coefficients, centres in every coincidence pattern, L_A, L_B in 0..10, l in 0..10",
 "Only stored matrices for fixed molecules; sign, phase and component conventions at other l, L or geometry are not reached.",
 [L+"spin_orbit_integrals.c", L+"lmatrix.c", L+"angular_integrals.c"],
 [("L matrices in the real spherical basis", L+"lmatrix.c"), ("Pitzer-Winter contraction", L+"spin_orbit_integrals.c")])
prop("C06", "Outercore (non-local) integrals equal the GRPP projector formula",
 """libgrpp_outercore_potential_integrals gives the matrix elements of sum V_{n,lj} built from the outercore shells and potentials: the
 U|nlj><nlj|+|nlj><nlj|U terms minus the <nlj|(U_n+U_n')/2|n'lj> double-projector terms, weighted (l+1)/(2l+1) or l/(2l+1) for the
 scalar part and +-2/(2l+1) for the spin-orbit part. Only pairs of outercore shells with equal L and J are coupled.""",
 ["inputs"], "any list of outercore shells (L, J=2j, contraction) and potentials, any shell pair and centres",
 "Tests use two molecules' GRPPs; lists with several principal numbers, mixed L/J or order variations are not reached.",
 [L+"outercore_integrals.c", L+"spherical_harmonics.c", L+"lmatrix.c", L+"type1_integrals.c", L+"overlap.c"],
 [("part 1 / part 2 assembly", L+"outercore_integrals.c")])
prop("C07", "Full GRPP integrals are the sum of the operator's parts",
 """libgrpp_full_grpp_integrals equals local + all semilocal + outercore scalar contributions in the scalar matrix and the sum of
 2/(2l+1)-weighted spin-orbit contributions plus outercore spin-orbit contributions in the three spin-orbit matrices, for every GRPP object.
 Absent parts (no local, no spin-orbit, no outercore) contribute nothing, and outputs are overwritten.""",
 ["inputs"], "every GRPP object with any number of averaged, spin-orbit and outercore components and any L in each",
 "Test drivers call the parts separately or on one GRPP file; empty or unusual compositions are not reached.",
 [L+"full_grpp_integrals.c", L+"grpp.c"], [("accumulation of parts", L+"full_grpp_integrals.c")])
prop("C08", "Analytic gradients are the derivatives of the integrals",
 """Every *_gradient routine returns d<A|O|B>/dP_k for the overlap, local, semilocal, spin-orbit, outercore and full GRPP operators with
 respect to every centre sitting at the differentiation point P. The gradient is zero when P carries no centre or when all centres
 coincide, and gradients over the distinct centres sum to zero.""",
 ["inputs"], "all exponents, coefficients, centres in every coincidence pattern (A,B,C,P equal or not), L up to 10",
 "Only a few gradient matrices at fixed geometry are compared; coincidence patterns and zero-power components are not covered systematically.",
 [L+"grpp_integrals_gradient.c", L+"overlap_gradient.c", L+"diff_gaussian.c"],
 [("translational-invariance case analysis", L+"grpp_integrals_gradient.c"), ("shell differentiation", L+"diff_gaussian.c")])
prop("C09", "Exchange symmetry of bra and ket holds for every operator",
 """Swapping the two shells transposes the matrices of overlap, kinetic, local, nuclear, semilocal, scalar outercore and full scalar
 integrals, and transposes and negates the momentum and spin-orbit (including outercore spin-orbit) matrices.""",
 ["inputs"], "every shell pair, operator and geometry",
 "No test compares the two orders of a pair under a varied input; stored matrices contain each pair once.",
 [L+"overlap.c", L+"kinetic.c", L+"momentum.c", L+"type1_integrals.c", L+"type2_integrals.c", L+"spin_orbit_integrals.c", L+"outercore_integrals.c"],
 [("bra/ket index bookkeeping", L+"type2_integrals.c")])
prop("C10", "Component order is a pure permutation chosen when a shell is made",
 """Both built-in orders list every (r,s,t) with r+s+t=L exactly once, in their documented sequence, for every L in 0..11, and
 libgrpp_set_cartesian_order / libgrpp_set_cartesian_generator / libgrpp_set_default_parameters select the order used by shells created
 afterwards. An integral belongs to its (component of A, component of B) labels and does not change when the order of listing changes;
 existing shells and their copies keep their order.""",
 ["inputs", "configurations", "histories"], "all L in 0..11, both orders and user generators, any history of order changes",
 "Every test uses the default order.",
 [L+"parameters.c", L+"shell.c"], [("cartesian generators", L+"parameters.c"), ("shell constructor and copy", L+"shell.c")])
prop("C11", "No invalid memory access or aborted call for supported inputs up to L=10",
 """For every supported input (basis L and projector l up to the documented maximum 10, any contraction lengths, any component) no library
 routine reads or writes outside its arrays, uses uninitialised or freed memory, trips an assertion or terminates the process.
 Gradient routines accept shells up to L=10 as well.""",
 ["inputs"], "all L_A, L_B, l in 0..10 and all real-valued parameters",
 "Tests run L<=5 without bounds instrumentation; overflows inside fixed-size tables go unnoticed.",
 [L+"overlap.c", L+"kinetic.c", L+"momentum.c", L+"type1_mcmurchie_davidson.c", L+"overlap_gradient.c", L+"grpp_integrals_gradient.c", L+"factorial.c"],
 [("fixed-size work arrays", L+"overlap.c, "+L+"kinetic.c, "+L+"momentum.c, "+L+"type1_mcmurchie_davidson.c")])
prop("C12", "Integral calls are re-entrant: nothing but the outputs is written",
 """After initialisation, an integral or gradient call writes only to the output arrays it was given and to memory it allocates itself (which
 it releases), never to its input objects, to parameters or to any other state shared between calls. Hence calls from any number of
 threads, sharing shells, potentials and GRPP objects, give the same results in every interleaving.""",
 ["schedules", "inputs"], "every interleaving of any number of concurrent integral calls sharing input objects",
 "Tests run with one thread (the baseline notes say the library races).",
 [L+"outercore_integrals.c", L+"overlap_gradient.c", L+"init_finalize.c", L+"spherical_harmonics.c"],
 [("absence of shared writes", "all integral routines")])
prop("C13", "Special functions are accurate over their whole range",
 """The Boys functions F_n(x), the G_n(x)/Dawson functions, the scaled modified spherical Bessel functions exp(-x) i_n(x) and the
 complete Fermi-type functions S_k agree with their mathematical definitions to the accuracy their tables are designed for, at every argument
 and every order used, including table seams and the switch-over to asymptotic formulas. Designed accuracies (exact arithmetic): F_n: 2e-14
 absolute and 4e-13 relative for x <= 30, of the order exp(-x) beyond, where the asymptotic form is used; exp(-x) i_n: 3e-13 absolute, and the
 error of the fourth-order Taylor expansion of step 0.01; S_k(x) = sum_{j>=1} (-1)^j exp(jx)/j^k (x <= 0): 4e-11 exp(x) or better; G_n: 1.5e-10 absolute or better;
 Dawson's integral: 2e-15.""",
 ["inputs"], "every real x >= 0 and every order used for L up to 10",
 "A wrong table entry or a seam shows up only for arguments falling in one cell; tests touch few cells.",
 [L+"specfunc_boys.c", L+"specfunc_gfun.c", L+"specfunc_dawson.c", L+"specfunc_scaled_mod_sph_bessel.c", L+"specfunc_bessel_table.c", L+"specfunc_fermi_sk.c"],
 [("Taylor tables with step", L+"specfunc_boys.c"), ("asymptotic branches", L+"specfunc_boys.c")])
prop("C14", "Nuclear models: potentials solve Poisson's equation for their densities",
 """For the ball, Gaussian, Fermi and Fermi-bubble models the density integrates to Z, the Coulomb potential is the one generated by that
 density (Poisson's equation, continuity, -Z/r far away, finite at the nucleus), and the r.m.s. radius routines return the density's
 r.m.s. radius. The Fermi-parameter estimate reproduces the requested r.m.s. radius or reports an error.""",
 ["inputs"], "all radii r >= 0 and all admissible model parameters",
 "The finite-nucleus tests do not pass at baseline and the bubble model is never exercised.",
 [L+"nuclear_models.c", L+"specfunc_fermi_sk.c"], [("closed-form potentials", L+"nuclear_models.c")])
prop("C15", "Nuclear attraction: model dispatch, parameters and charge",
 """libgrpp_nuclear_attraction_integrals integrates exactly the potential of the model it is asked for with the documented parameter order,
 every specialised routine (point, ball, Gaussian, Fermi, Fermi-bubble) returns what the general routine returns for the same physical
 parameters, and results are linear in the charge.""",
 ["inputs", "configurations"], "every model, every parameter value, charge and shell pair",
 "Specialised wrappers for finite nuclei are not called by any test.",
 [L+"nuclear_attraction.c", L+"radial_type1_integral.c", L+"nuclear_models.c"], [("model dispatch", L+"nuclear_attraction.c")])
prop("C16", "The Fortran interface is the C interface",
 """Every Fortran-callable entry point forwards its arguments to the C routine of the same meaning, in the right order and roles, returns its
 results unchanged, releases everything it allocates and leaves its input arguments untouched; the normalisation helper returns the factor
 that makes the pure-power component of the contracted shell self-overlap equal to (2L-1)!!.""",
 ["inputs"], "every argument value of every Fortran entry point",
 "Fortran tests cover some entry points with default values; leaks and argument roles that coincide in the tests are invisible.",
 [L+"fortran.c"], [("argument forwarding", L+"fortran.c")])
prop("C17", "Shells, potentials and GRPP objects: values, ownership and lifetime",
 """Constructors copy their arguments (later changes to the caller's arrays have no effect), potentials keep exactly the terms with non-zero
 coefficients in order, the value of a potential at r is sum_k d_k r^(n_k-2) exp(-a_k r^2), normalisation multiplies every coefficient by its primitive norm, shrinking removes only zero terms, deep copies are equal and independent, and GRPP containers hold every added component in order, any
 number of them. Each object is released exactly once by its delete routine, with no leak, double free or use after free.""",
 ["inputs", "histories"], "every sequence of constructor, add, set, shrink, copy and delete calls",
 "Tests build a few well-formed objects and exit without checking leaks or limits.",
 [L+"shell.c", L+"potential.c", L+"grpp.c"], [("ownership rules", L+"grpp.c"), ("zero filtering", L+"potential.c")])
prop("C18", "Angular algebra: real spherical harmonics and L matrices",
 """The real spherical harmonics are orthonormal solid harmonics (harmonic, homogeneous, with the documented Condon-Shortley-free real
 convention), their Cartesian expansions, angular integrals and one-centre integrals are exact, and the L matrices are Hermitian
 representations satisfying [Lx,Ly]=iLz and L^2=l(l+1) in the same basis.""",
 ["inputs"], "all l up to the supported maximum, all directions",
 "Tests reach the algebra only through a few integrals with small l.",
 [L+"spherical_harmonics.c", L+"lmatrix.c", L+"angular_integrals.c"],
 [("RSH coefficient tables", L+"spherical_harmonics.c"), ("L matrices", L+"lmatrix.c")])
prop("C19", "Initialisation and parameters behave as a state machine",
 """libgrpp_is_initialized reports exactly whether the library is between init and finalize, init is idempotent and may follow finalize, and
 repeated cycles neither change results nor grow memory without bound. Parameter setters change exactly the parameter they name and
 libgrpp_set_default_parameters restores all documented defaults.""",
 ["histories", "schedules"], "every sequence of init, finalize, query, setter and default calls",
 "Drivers initialise once and finalise once.",
 [L+"init_finalize.c", L+"parameters.c"], [("initialised flag", L+"init_finalize.c"), ("parameter record", L+"parameters.c")])
prop("C20", "Combinatorial and linear-algebra primitives are exact",
 """Factorials, factorial ratios, double factorials and binomials return the exact value (to 1e-14 of it where it exceeds 2^53) over
 the whole range the integrals need for L up to 10 (n up to 40 in binomials, 2n in factorials), the vector/matrix helpers compute exactly
 y+=a*x and C+=A*B, and points are reported equal exactly when they coincide (to about 1e-12 in each coordinate).""",
 ["inputs"], "all arguments in the ranges the integral code can request",
 "Only small arguments occur in tests; wrong large table entries stay unseen.",
 [L+"factorial.c", L+"binomial.c", L+"utils.c"], [("tables and recursions", L+"factorial.c")])
prop("C21", "Radial quadrature refines one consistent rule and stops only when converged",
 """The numerical radial integrals use the same quadrature rule at every refinement level (nested points, each visited once with the right
 weight, so a refined sum equals the rule evaluated from scratch), skip only contributions whose value is of the order of
 the tolerance (at most ten times it), and accept a value only when two successive levels agree to the requested tolerance (1e-16 for type 2,
 the one set by libgrpp_set_radial_tolerance for type 1) or the maximum grid is reached. One-centre type 2 integrals equal their closed form.""",
 ["inputs", "configurations"], "all exponents, centres, powers, tolerances and all grid sizes up to the maximum",
 "Tests compare final numbers at 1e-10 for a few cases; a wrong refinement or stop rule shows only when extra levels are needed.",
 [L+"radial_type2_integral.c", L+"radial_type1_integral.c", L+"screening.c", L+"parameters.c"],
 [("Log3 grid expansion", L+"radial_type2_integral.c"), ("screening estimates", L+"screening.c")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
