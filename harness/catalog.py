"""
The list of properties and of the checks that decide them.

`python3 harness/catalog.py` (any Python 3) rewrites properties.jsonl and
MANIFEST.json from this file, so that the two never drift apart.
"""

import json
import os

P = []
CHECKS = {}
NOT_APPLICABLE = []


def prop(
        pid, title, statement, over, text, why, files, mechanism, observe,
        module, technique, note, *, kernels=False, state=(), claimed=True,
):
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": ["HamiltonianPy/" + f for f in files],
            "state": [
                {"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [
                {"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe, "hook_needed": None,
        },
    })
    if claimed:
        CHECKS[pid] = {
            "module": module, "technique": technique, "note": note,
            "kernels": kernels,
        }


BASE_NOTE = (
    "Bounded generated-input search (Hypothesis, seeded by VERIF_SEED): no "
    "proof of absence. Trusts numpy/scipy, the independent oracle, and the "
    "stated domain of valid inputs. ")

prop(
    "C01", "Fock basis enumeration is exact, ordered and rejects bad specifiers",
    "For every valid description of a many-particle space (disjoint groups of "
    "single-particle states, each with a fixed or an unconstrained particle "
    "number) the generated base vectors are exactly the occupation bit "
    "patterns with those particle numbers: each one once, ascending when "
    "sorted, the same set when unsorted, in the requested container. All ways "
    "of describing and asking for the same space (integer, pair or explicit "
    "states; list, tuple or set; the function or either space object, before "
    "or after other queries) give the same answer. Overlapping groups, more "
    "particles than states, and empty, negative or non-integer states are "
    "rejected with an error instead of an answer.",
    ["inputs", "configurations"],
    "all lists of disjoint subspace specifiers, in every spelling, with state "
    "indices up to 63, and all invalid specifiers",
    "the tests enumerate a handful of small specifiers; which combinations of "
    "groups, spellings, gaps and high state indices occur is unbounded",
    ["hilbertspace.py"],
    [("specifier validation and standard form",
      "subspace_specifier_preprocess, is_valid_*"),
     ("product of combinations per group",
      "SimpleHilbertSpace.base_vectors, HilbertSpace.base_vectors, "
      "base_vectors")],
    ["base_vectors()", "HilbertSpace.base_vectors()",
     "SimpleHilbertSpace.base_vectors()"],
    "c01_basis",
    "property-based testing: structured specifier generator vs a bit-counting "
    "reference enumeration",
    BASE_NOTE,
)

prop(
    "C02", "Matrix of a fermion operator string is exact in any basis pair",
    "For every product of creation and annihilation operators, every sorted "
    "source basis and every sorted target basis that contains the images, the "
    "matrix has exactly the elements of the second-quantised operator (with "
    "the fermionic sign of all occupied lower-indexed states) times the "
    "coefficient, shape target-by-source, no stored zeros, and the coordinate "
    "form holds the same data. State indices up to 63 and complex "
    "coefficients are handled. If some image lies outside the target basis "
    "the request is refused with a key error rather than answered.",
    ["inputs"],
    "all operator strings over up to 64 states, all sub-bases, all "
    "coefficients, both output forms",
    "the tests compare a few short strings on small full bases; signs depend "
    "on every occupied bit between the operators, and on index ranges the "
    "tests never reach",
    ["quantumoperator/matrixrepr.py", "quantumoperator/particlesystem.py"],
    [("compiled kernels that move kets and count swaps",
      "_core_general, _core_hopping, _core_particle_number, _core_coulomb"),
     ("assembly of the sparse matrix", "matrix_function"),
     ("state to bit translation", "AoC.matrix_repr, "
      "NumberOperator.matrix_repr, ParticleTerm.matrix_repr")],
    ["matrix_function()", "AoC.matrix_repr()", "ParticleTerm.matrix_repr()",
     "NumberOperator.matrix_repr()"],
    "c02_matrix",
    "property-based testing: differential against an independent big-integer "
    "Fock-space reference",
    BASE_NOTE, kernels=True,
)

prop(
    "C03", "Specialised term classes give the same matrix as the general one",
    "A term labelled as hopping, particle-number or Coulomb, whose operators "
    "really have that form, has the same matrix as the same operators "
    "labelled general, for every source basis, target basis, coefficient and "
    "output form. This includes target bases that differ from the source "
    "basis and the refusal of targets that miss an image. The compatibility "
    "query answers true exactly for labels that fit the operators, and terms "
    "made from labelled ones (products, multiples, conjugates) never carry a "
    "label that does not fit.",
    ["inputs"],
    "all compatible operator/label pairs, bases, target bases, coefficients; "
    "all label/operator pairs for the compatibility query",
    "the tests compare the fast paths with the general one on a single basis "
    "each and never with a separate target basis",
    ["quantumoperator/matrixrepr.py", "quantumoperator/particlesystem.py"],
    [("dispatch on the label", "matrix_function(special_tag=...)"),
     ("label check", "ParticleTerm.check_compatibility")],
    ["ParticleTerm.matrix_repr()", "matrix_function()",
     "ParticleTerm.check_compatibility()"],
    "c03_special",
    "property-based testing: differential between code paths, plus the Fock "
    "reference",
    BASE_NOTE, kernels=True,
)

prop(
    "C04", "Operator algebra: anticommutators, products, daggers, scalars",
    "The matrices of creation and annihilation operators satisfy the canonical "
    "anticommutation relations in the full Fock space for every assignment of "
    "states to bits. Multiplying operators, number operators, terms and "
    "scalars in any grouping gives a term whose matrix is the product of the "
    "factors' matrices, and the Hermitian conjugate of an operator or term has "
    "the conjugate-transposed matrix. Forming products, daggers or derived "
    "operators never changes the operands.",
    ["inputs", "programs"],
    "all expressions built from operators, number operators, terms and real "
    "or complex scalars with multiplication and Hermitian conjugation",
    "the tests check attributes of a few two-factor products; the algebra "
    "must hold for every expression tree and every state-to-bit table",
    ["quantumoperator/particlesystem.py", "quantumoperator/matrixrepr.py"],
    [("products", "AoC.__mul__, AoC.__rmul__, NumberOperator.__mul__, "
      "ParticleTerm.__mul__, __rmul__"),
     ("conjugation", "AoC.dagger, ParticleTerm.dagger, NumberOperator.dagger"),
     ("relations", "AoC.conjugate_of, AoC.same_state, derive")],
    ["matrix_repr() of expressions", "components/coeff of results"],
    "c04_algebra",
    "property-based testing: random expression trees, homomorphism into "
    "matrices built by Jordan-Wigner",
    BASE_NOTE, kernels=True,
)

prop(
    "C05", "Normal ordering sorts correctly and counts the right sign",
    "Normal ordering a sequence of creation and annihilation operators returns "
    "the same operators with all creators first (ascending states) and then "
    "annihilators (descending states), and the parity of the reported number "
    "of swaps is the sign that makes the reordered product equal to the "
    "original one. It is refused, with the dedicated error, exactly when an "
    "annihilator would have to move past the creator of the same state. The "
    "input sequence is left unchanged.",
    ["inputs"],
    "all operator sequences, with repeated states and repeated operators",
    "the tests use a couple of fixed sequences; sign and refusal depend on the "
    "whole permutation",
    ["quantumoperator/particlesystem.py"],
    [("bubble sort with swap counting", "ParticleTerm.normalize"),
     ("operator order", "AoC.__lt__, AoC.__gt__"),
     ("refusal", "SwapFermionError")],
    ["ParticleTerm.normalize()"],
    "c05_normal_order",
    "property-based testing: order predicate + sign checked by matrices and "
    "by permutation parity",
    BASE_NOTE, kernels=True,
)

prop(
    "C06", "Spin operator and interaction matrices are the right tensor products",
    "The matrix of a spin-1/2 operator is the identity on every other site and "
    "the 2x2 spin matrix on its own, with site 0 as the fastest index; the "
    "matrix of an interaction is the coefficient times the ordered product of "
    "its operators' matrices, for any number of operators including repeated "
    "sites. Products, scalar multiples and Hermitian conjugates of operators "
    "and interactions have the corresponding matrix products, multiples and "
    "conjugate transposes. Operators on one site satisfy the su(2) "
    "commutation relations and operators on different sites commute.",
    ["inputs", "programs"],
    "all operator strings over 1..7 sites, all site-to-index tables, real and "
    "complex coefficients, all expression groupings",
    "the tests check fixed two-spin terms on small tables; ordering on shared "
    "sites, longer strings and the special two-spin path are not covered "
    "exhaustively",
    ["quantumoperator/spinsystem.py", "quantumoperator/constant.py"],
    [("embedding", "SpinOperator.matrix_function"),
     ("two-spin fast path and general path",
      "SpinInteraction.matrix_function"),
     ("sorting by site", "SpinInteraction.__init__"),
     ("conjugation", "SpinOperator.dagger, SpinInteraction.dagger")],
    ["matrix_repr()", "matrix()", "components", "coeff"],
    "c06_spin",
    "property-based testing: differential against a per-element tensor-product "
    "reference",
    BASE_NOTE,
)

prop(
    "C07", "Schwinger-fermion form of spin terms acts like the spin term",
    "For every spin operator and every spin interaction, the list of fermion "
    "terms returned as its Schwinger-fermion form, summed and restricted to "
    "states with exactly one fermion per site, has the same matrix as the "
    "spin term when the product spin state |s1 s2 ...> is identified with "
    "c+_(1,s1) c+_(2,s2) ...|vacuum>. In the full Fock space the sum equals the product of the "
    "single-operator forms times the coefficient.",
    ["inputs"],
    "all spin operators and interactions on up to 4 sites, with repeated sites "
    "and complex coefficients",
    "the tests look at the components of a few terms, never at the action",
    ["quantumoperator/spinsystem.py"],
    [("term expansion", "SpinOperator.Schwinger, SpinInteraction.Schwinger")],
    ["Schwinger() terms' matrix_repr()"],
    "c07_schwinger",
    "property-based testing: differential between spin matrices and fermion "
    "matrices on the singly occupied sector",
    BASE_NOTE, kernels=True,
)

prop(
    "C08", "Term factories build exactly the operators they name",
    "Each factory (creator, annihilator, chemical potential, hopping, pairing, "
    "Hubbard, Coulomb, Heisenberg, Ising, two-spin) returns a term whose "
    "action is the named second-quantised or spin operator on exactly the "
    "given sites, spins and orbits, with the documented defaults and the given "
    "coefficient. The matrices equal those of the textbook formula for every "
    "combination of arguments, including coinciding states. Undocumented "
    "option values are rejected.",
    ["inputs"],
    "all argument combinations of the ten factories (sites in 1-3 dimensions, "
    "spins, orbits, coefficients, option spellings)",
    "the tests and doctests show one or two calls per factory",
    ["quantumoperator/factory.py"],
    [("factories", "CPFactory, HoppingFactory, PairingFactory, "
      "HubbardFactory, CoulombFactory, HeisenbergFactory, IsingFactory, "
      "TwoSpinTermFactory, Creator, Annihilator")],
    ["matrix_repr() of the returned terms", "components", "coeff",
     "check_compatibility()"],
    "c08_factory",
    "property-based testing: differential against textbook operators in the "
    "Fock-space and spin references",
    BASE_NOTE, kernels=True,
)

prop(
    "C09", "Identity, hashing and order of sites, states and operators agree",
    "Two sites, states or operators are equal exactly when their kind, spin, "
    "orbit, operator type and coordinates (truncated to the configured number "
    "of decimals) agree; equal objects have equal hashes and are "
    "interchangeable as dictionary and table keys. The six comparison "
    "operators form one consistent total order per class: sites by "
    "coordinates, states by site, spin, orbit, creators before annihilators "
    "with creators ascending and annihilators descending. Derived copies, "
    "daggers and conjugate or same-state queries respect that identity, also "
    "when coordinates come as lists, tuples, arrays, integers or floats.",
    ["inputs", "histories"],
    "all pairs and triples of objects of each class, all coordinate "
    "spellings, all precision settings made before the objects",
    "the tests compare a few hand-picked objects at the default precision",
    ["quantumoperator/quantumstate.py", "quantumoperator/particlesystem.py",
     "quantumoperator/spinsystem.py"],
    [("truncated tuple form", "SiteID.__init__, StateID.__init__"),
     ("order", "__lt__/__gt__/__le__/__ge__ of each class"),
     ("precision", "set_float_point_precision")],
    ["==, !=, <, <=, >, >=, hash(), sorted(), dict lookup, derive()"],
    "c09_identity",
    "property-based testing: model-based comparison with plain tuples, order "
    "laws over generated triples",
    BASE_NOTE,
)

prop(
    "C10", "Index tables are bijections with a documented rejection contract",
    "A table built from distinct hashable objects of one type assigns them the "
    "consecutive integers from the given start, in the given order, and "
    "looking up an object and looking up an index are inverse to each other; "
    "length, iteration, index view and object view agree with that "
    "assignment. Duplicates and mixed types are rejected at construction, "
    "unknown keys and indices with a key error and keys of another type or "
    "non-integer indices with a type error. The index helpers of sites, "
    "states and operators return the table's answer.",
    ["inputs", "histories"],
    "all object lists (numbers, tuples, strings, sites, states, operators, "
    "subclass mixtures), all starts, all query sequences",
    "the tests build two small tables",
    ["indextable.py", "quantumoperator/quantumstate.py",
     "quantumoperator/particlesystem.py", "quantumoperator/spinsystem.py"],
    [("two ordered dictionaries", "IndexTable.__init__"),
     ("lookups", "query_index, query_object, __call__"),
     ("helpers", "getIndex, getStateIndex, getSiteIndex")],
    ["query_index(), query_object(), __call__(), iter(), len(), indices(), "
     "objects(), str()"],
    "c10_indextable",
    "property-based testing: model-based query histories against a list and a "
    "dict",
    BASE_NOTE,
)

prop(
    "C11", "Bond geometry and bond identity follow the endpoints",
    "Length, displacement and azimuth of a bond are those of its endpoints "
    "(degrees or radians, rounding only when asked, polar and azimuthal angle "
    "in three dimensions), flipping exchanges the endpoints and is an "
    "involution, and direction-dependent queries are refused for undirected "
    "bonds. Two bonds are equal, with equal hashes, exactly when their "
    "directedness agrees and their endpoints agree after truncation to the "
    "configured decimals, in order for directed and in either order for "
    "undirected bonds; a bond is opposite to another exactly when its flip "
    "equals it. Bonds keep their own copy of the endpoints.",
    ["inputs", "histories"],
    "all endpoint pairs in 1-3 dimensions, integer and float, both kinds of "
    "directedness, all rounding options",
    "the tests use four fixed bonds",
    ["bond.py"],
    [("geometry", "getLength, getDisplace, getAzimuth"),
     ("identity", "__init__, __eq__, __hash__"),
     ("direction", "flip, oppositeTo")],
    ["getLength(), getDisplace(), getAzimuth(), flip(), oppositeTo(), ==, "
     "hash(), endpoints"],
    "c11_bond",
    "property-based testing: reference geometry with math functions, "
    "metamorphic relations under flip and translation",
    BASE_NOTE,
)

prop(
    "C12", "Lattice folding: decomposition, site index and reciprocal vectors",
    "Every point obtained by translating a cluster point by an integer "
    "combination of the translation vectors decomposes into that cluster point "
    "and that translation, however far away and however skewed the vectors; "
    "the folded index query returns the cluster point's index and the unfolded "
    "query accepts exactly cluster points. Points that are not on the lattice "
    "are rejected by decomposition, by the index query (key error) and by the "
    "membership test. The reciprocal vectors satisfy a_i . b_j = 2 pi delta_ij "
    "and lie in the span of the translation vectors.",
    ["inputs", "histories"],
    "all clusters of inequivalent points with 1-3 translation vectors in 1-3 "
    "dimensions, all lattice and off-lattice points, in any query order",
    "the tests use one square lattice and translations of at most a few cells",
    ["lattice/lattice.py"],
    [("decomposition and its search scope", "Lattice.decompose, "
      "_guess_scope, _searching"),
     ("index", "Lattice.getIndex, getSite, in_cluster"),
     ("reciprocal vectors", "Lattice.__init__")],
    ["decompose(), getIndex(), getSite(), in_cluster(), bs"],
    "c12_lattice",
    "property-based testing: round trip of generated translations, metamorphic "
    "off-lattice rejection",
    BASE_NOTE,
)

prop(
    "C13", "Neighbour distances are those of the infinite lattice, always",
    "The n-th neighbour distance (0 for on-site) is the n-th smallest of the "
    "distinct distances between a cluster point and any lattice point, "
    "rounded to the configured decimals. The answer does not depend on how "
    "the lattice is cut into clusters, on which distances or bonds were asked "
    "for before, or on the order of points and vectors.",
    ["inputs", "histories"],
    "all lattices as in C12, all neighbour orders up to 8, all query "
    "histories on one object",
    "the tests ask one lattice for its first distances in increasing order",
    ["lattice/lattice.py"],
    [("distance cache", "Lattice.__init__, neighbor_distance"),
     ("patch of translated clusters", "_sites_factory")],
    ["neighbor_distance()"],
    "c13_distance",
    "property-based testing: brute-force reference over a provably sufficient "
    "patch, query histories, metamorphic re-cutting",
    BASE_NOTE,
    state=[("distance cache", "distinct distances known so far",
            "Lattice instance")],
)

prop(
    "C14", "Bond lists are complete, without repeats, and fold correctly",
    "For every neighbour order the bond lists contain, exactly once up to "
    "lattice translation and reversal, every pair of lattice points at the "
    "n-th neighbour distance with one end in the cluster (or at any "
    "smaller or equal non-zero distance when asked for all), split into bonds "
    "inside the cluster and bonds leaving it. With folding, each leaving bond "
    "ends on the equivalent cluster point instead; order zero gives one "
    "on-site bond per point. All of them are directional bonds. The lists do "
    "not depend on earlier queries.",
    ["inputs", "histories"],
    "all lattices as in C12 and the named lattices and clusters, neighbour "
    "orders 0..5, both option flags",
    "the tests compare one square cluster with stored lists; completeness on "
    "skewed cells, multi-point cells and higher orders is never tested",
    ["lattice/lattice.py", "bond.py"],
    [("half patch of clusters", "_sites_factory(no_inversion)"),
     ("pair search", "Lattice.bonds"), ("folding", "Lattice.decompose")],
    ["bonds()"],
    "c14_bonds",
    "property-based testing: brute-force bond enumeration modulo translation, "
    "coordination-number invariants",
    BASE_NOTE,
)

prop(
    "C15", "Named lattices and clusters tile their parent lattice",
    "Every named cell, every generated multi-cell cluster and every named "
    "cluster describes, with its translation vectors, exactly the parent "
    "lattice: all points are lattice points, no two are equivalent, and the "
    "number of points matches the volume ratio. Every alias yields the same "
    "object as its full name, multi-cell names and dimensions are as "
    "requested, returned lattices are independent of each other, and unknown "
    "names are rejected. The exported reciprocal vectors and high-symmetry "
    "points belong to the corresponding lattices.",
    ["inputs", "configurations"],
    "all names and aliases, all cell numbers per direction up to 4, all "
    "mutations of previously returned objects",
    "the tests do not touch the cluster database",
    ["lattice/_lattice_database.py", "lattice/__init__.py"],
    [("database", "special_cluster"), ("generator", "lattice_generator"),
     ("constants", "*_BS, *_POINTS, *_VECTORS, high-symmetry points")],
    ["special_cluster()", "lattice_generator()", "module constants"],
    "c15_database",
    "property-based testing: coset (tiling) check against independently coded "
    "parent lattices",
    BASE_NOTE,
)

prop(
    "C16", "K-paths visit the anchors, in straight, evenly sampled segments",
    "The path starts at the first anchor, ends at the last (or back at the "
    "first when looped), passes through every anchor at the reported index, "
    "and between consecutive anchors consists of equally spaced points of the "
    "straight segment. The shortest segment has exactly the requested number "
    "of points and every other segment has its length-proportional number, "
    "rounded down. Too few anchors, repeated neighbours or a "
    "non-positive or non-integer sampling number are rejected.",
    ["inputs"],
    "all anchor lists in 2 and 3 dimensions, all sampling numbers, both flags",
    "the tests use two fixed square-lattice paths",
    ["lattice/lattice.py"],
    [("segment sampling", "KPath")],
    ["KPath()"],
    "c16_kpath",
    "property-based testing: geometric validity predicate and exact-rational "
    "sampling counts",
    BASE_NOTE,
)

prop(
    "C17", "Lanczos projection represents the matrix in its Krylov space",
    "For every Hermitian matrix (dense or sparse, real or complex) and "
    "starting vector the projected matrix is real symmetric tridiagonal, no "
    "larger than requested, has the same moments along the starting vector as "
    "the full matrix, and equals the full matrix in an orthonormal basis of "
    "the Krylov space, stopping early exactly when that space is exhausted. "
    "Projected vectors are the components in that same basis, for every "
    "labelled vector. The multi-start form equals the single-start form "
    "per label, zero starting vectors are rejected, and no input is modified.",
    ["inputs", "histories"],
    "all well-conditioned Hermitian matrices up to dimension 40, starting "
    "vectors, label sets, subspace sizes and thresholds",
    "the tests check one random matrix at full dimension",
    ["lanczos.py"],
    [("three-term recurrence", "KrylovRepresentation"),
     ("loop over starts", "MultiKrylov"), ("threshold", "set_threshold")],
    ["KrylovRepresentation()", "MultiKrylov()"],
    "c17_lanczos",
    "property-based testing: independent fully re-orthogonalised Krylov basis, "
    "moment invariants, matrices with a planned spectrum",
    BASE_NOTE,
)

prop(
    "C18", "Exact Green functions equal their spectral definition",
    "For every Hermitian Hamiltonian matrix, reference energy, excited states, "
    "frequencies and broadening, the exact solvers return "
    "<A^+ gs|(z -/+ (H - E))^-1|B gs> with z = omega + i eta, the minus or "
    "plus branch as selected, and the retarded solvers the sum or "
    "difference of the particle and hole parts. The many-operator form equals "
    "the one-operator form entry by entry, in array and in dictionary layout, "
    "in the order of the given operators and frequencies. Inputs are not "
    "modified.",
    ["inputs", "configurations"],
    "all Hermitian matrices, energies, operator lists (with repeats and "
    "daggers), frequency grids, broadenings, signs and layouts",
    "the tests contain no test of the Green-function module",
    ["GreenFunction/_GFSolver.py"],
    [("linear solves", "GFSolverExactSingle, GFSolverExactMultiple, "
      "RGFSolverExactSingle, RGFSolverExactMultiple")],
    ["GFSolverExact*(), RGFSolverExact*()"],
    "c18_gf_exact",
    "property-based testing: differential against the eigen-decomposition "
    "(Lehmann) formula",
    BASE_NOTE,
)

prop(
    "C19", "Lanczos Green functions equal the exact ones in a complete space",
    "When the Krylov space is exhausted, the Lanczos Green-function solvers "
    "return the same numbers as the exact ones for every operator pair, "
    "frequency, sign and broadening, and the retarded solvers the documented "
    "combination of two projections. In a smaller Krylov space they return "
    "the resolvent of the projected matrix between the projected states, in "
    "the space that starts from the ket, and need no other projections than "
    "the documented ones. The many-operator form equals the "
    "one-operator form entry by entry in both layouts. Inputs are not "
    "modified.",
    ["inputs", "configurations"],
    "all Hermitian matrices with well-separated spectra, operator lists, "
    "frequency grids, broadenings, signs and layouts",
    "the tests contain no test of the Green-function module",
    ["GreenFunction/_GFSolver.py", "lanczos.py"],
    [("projected solves", "GFSolverLanczosSingle, GFSolverLanczosMultiple, "
      "RGFSolverLanczosSingle, RGFSolverLanczosMultiple")],
    ["GFSolverLanczos*(), RGFSolverLanczos*()"],
    "c19_gf_lanczos",
    "property-based testing: differential between Lanczos and Lehmann results",
    BASE_NOTE,
)

prop(
    "C20", "End to end: lattice models reproduce exactly solvable physics",
    "A quadratic Hamiltonian assembled from lattice bonds, term factories, an "
    "index table and base vectors has exactly the many-particle spectrum and "
    "Green functions of its single-particle matrix, in every particle-number "
    "sector, however states are mapped to bits; the Green function of a "
    "cluster, extended by the bonds that leave it, is that of the infinite "
    "lattice. Interacting Hamiltonians are Hermitian, commute with particle number and spin where the terms do, "
    "restrict to a sector as the corresponding block of the full matrix, keep "
    "their spectrum under relabelling of states and translation of the "
    "lattice, and the fermion and spin forms of the Heisenberg model agree on "
    "singly occupied states.",
    ["inputs", "programs", "configurations"],
    "all small clusters, bond sets, complex hoppings with Peierls phases, "
    "on-site energies, pairing, interactions, sectors and state orders",
    "no test runs the pieces together",
    ["quantumoperator/matrixrepr.py", "quantumoperator/factory.py",
     "hilbertspace.py", "indextable.py", "lattice/lattice.py", "lanczos.py",
     "GreenFunction/_GFSolver.py"],
    [("assembly pipeline", "bonds -> factories -> matrix_repr -> MultiKrylov "
      "-> GFSolver*")],
    ["spectra, expectation values and Green functions of assembled models"],
    "c20_models",
    "property-based testing: model-level differential against single-particle "
    "theory, symmetry and relabelling invariants",
    BASE_NOTE, kernels=True,
)

prop(
    "C21", "Rotations are orthogonal, turn the right way and compose correctly",
    "Every rotation matrix (about x, y, z, a general axis, or by Euler angles) "
    "is orthogonal, has determinant +1, or -1 and the opposite sign when "
    "inversion is requested, keeps its axis fixed and turns vectors by the "
    "given angle counter-clockwise about it, in radians or degrees, whatever "
    "the length of the axis and whichever way the axis is given (Cartesian or "
    "two angles; list, tuple or array). Rotations about one axis add their "
    "angles, the general form agrees with the coordinate-axis forms, and the "
    "Euler rotation is the z-y-z product of its three angles. The exported "
    "constants are the rotations and reflections their names say, and zero or "
    "ill-formed axes are rejected.",
    ["inputs"],
    "all angles, axes in every spelling, units, inversion flags; all exported "
    "constants",
    "the tests use fixed angles and axes",
    ["rotation3d.py"],
    [("matrices", "RotationX, RotationY, RotationZ, RotationGeneral, "
      "RotationEuler"), ("constants", "RX*, RY*, RZ*, R111_*, AP*")],
    ["Rotation*()", "module constants"],
    "c21_rotation",
    "property-based testing: differential against Rodrigues' formula, group "
    "laws",
    BASE_NOTE,
)

prop(
    "C22", "Planar lines: location of points, coordinates and sampled points",
    "For every line through two distinct points, horizontal and vertical are "
    "recognised, a point is reported on the line exactly when it is (within "
    "the tolerance), otherwise above or below it, or left or right of a "
    "vertical line, whatever the order and distance of the two defining "
    "points. The coordinate query returns the point of the line with the given "
    "x or y and refuses the query that has no unique answer. Points sampled at "
    "given ratios are the corresponding affine combinations, coincident "
    "defining points are rejected, and the line keeps its own copy of them.",
    ["inputs"],
    "all lines with rational defining points, including vertical, horizontal "
    "and steep ones, and all query points",
    "the tests use six fixed configurations",
    ["line2d.py"],
    [("line algebra", "Line2D.LocationRelation, Coordinate, PointsFactory")],
    ["Line2D methods"],
    "c22_line2d",
    "property-based testing: differential against exact Fraction geometry",
    BASE_NOTE,
)

prop(
    "C23", "Convex polygons classify points as corner, boundary, in or out",
    "For every convex polygon (vertices in boundary order, either direction, "
    "possibly in line with their neighbours), "
    "every interior reference point and every query point, the reported "
    "location is corner at a vertex, boundary on an edge between its ends, "
    "inside in the open interior and outside otherwise. The answer does not "
    "depend on the starting vertex, the direction or the reference point. "
    "Fewer than three vertices, duplicate vertices and wrong shapes are "
    "rejected.",
    ["inputs"],
    "all convex polygons with up to 8 rational vertices, with vertical and "
    "horizontal edges and vertices in line with their neighbours, and query "
    "points on vertices, edges, edge extensions, inside and outside",
    "there is no test of polygons",
    ["polygon.py", "line2d.py"],
    [("edge by edge comparison with the reference point",
      "Polygon.LocationRelation")],
    ["Polygon.LocationRelation()"],
    "c23_polygon",
    "property-based testing: differential against exact Fraction orientation "
    "tests",
    BASE_NOTE,
)

prop(
    "C24", "Averages and total-spin matrices equal their definitions",
    "The average of an operator over a state is <ket|O|ket>/<ket|ket> for "
    "every non-zero state and operator. The total-spin matrices are the sums "
    "of the single-spin matrices embedded with site 0 as the fastest index "
    "(the y component returned as its imaginary part), identical in both "
    "places that provide them and consistent with the sums of single-site spin "
    "operators; the total-spin averages are the averages of S^2, Sx, Sy and "
    "Sz, independent of the norm and phase of the state, with the state left "
    "unchanged.",
    ["inputs"],
    "all real and complex states, in vector or column form, of 1..7 spins; "
    "all sparse operators",
    "there is no test of these modules",
    ["averages.py", "tools/TotalSpin.py"],
    [("averages", "QuantumAverages, TotalSpinAverages"),
     ("matrices", "TotalSpinMatrices, TotalSpin")],
    ["QuantumAverages()", "TotalSpinMatrices()", "TotalSpinAverages()",
     "TotalSpin()"],
    "c24_averages",
    "property-based testing: dense differential, su(2) and scaling relations",
    BASE_NOTE,
)

prop(
    "C25", "Counting functions are exact integers for every size",
    "The number of permutations and of combinations of k out of n items, with "
    "and without repetition, is the exact integer for every 0 <= k <= n, "
    "however large. Negative, non-integer or too large arguments are rejected.",
    ["inputs"],
    "all n up to several hundred, all k, both flags",
    "there is no test of this module",
    ["tools/PandC.py"],
    [("factorial formulas", "Permutation, Combination")],
    ["Permutation()", "Combination()"],
    "c25_counting",
    "property-based testing: differential against math.perm/math.comb and "
    "Pascal-type recurrences",
    BASE_NOTE,
)

prop(
    "C26", "Colour decoration wraps text in the right ANSI sequences only",
    "Decorated text is the given text, unchanged, between the ANSI sequences "
    "that select exactly the requested foreground, background and bold in the "
    "requested 4-, 8- or 24-bit scheme, and the reset sequence; every "
    "documented spelling of a colour (long, short, upper case, number, triple, "
    "hexadecimal) selects that colour. Colours outside the scheme are "
    "rejected. Coloured printing writes exactly what plain printing writes for "
    "the same separator, end and file, wrapped in the decoration.",
    ["inputs"],
    "all texts, all colour spellings and numbers in every scheme, all printing "
    "options",
    "there is no test of this module",
    ["tools/colorprint.py"],
    [("control sequences", "coloring"), ("printing", "color_print")],
    ["coloring()", "color_print()"],
    "c26_color",
    "property-based testing: an ANSI SGR parser as the oracle",
    BASE_NOTE,
)

prop(
    "C27", "The temporary run-time environment is undone on every exit",
    "Leaving the environment, normally or through an exception, restores "
    "standard output to what it was before and the number of compute threads "
    "to its previous value, closes the log and lets the exception propagate. "
    "Inside, standard output goes to one log file in the requested (created) "
    "folder, as it was meant when the environment was made, and the thread number is the requested one; everything printed "
    "inside, and the exception if any, is in the log. Without redirection "
    "standard output is untouched and invalid thread numbers are rejected.",
    ["inputs", "histories", "fault_sequences"],
    "all nestings and sequences of environments, options, printed text and "
    "exceptions raised inside",
    "there is no test of this module",
    ["tools/runtimeenv.py"],
    [("enter/exit", "RunTimeEnv.__enter__, RunTimeEnv.__exit__")],
    ["sys.stdout, mkl.get_max_threads(), the log files"],
    "c27_runtimeenv",
    "property-based testing: model-based histories of nested environments with "
    "injected exceptions, in a scratch folder",
    BASE_NOTE,
)

prop(
    "C28", "Objects own their data: no aliasing, no side effects on arguments",
    "Arrays handed to lattices, bonds, lines, polygons, sites and operators "
    "are copied, and arrays read from them are copies: changing either "
    "afterwards changes no later answer of the object. Building, querying and "
    "combining objects never modifies the arguments (operator lists, bases, "
    "vectors, matrices, dictionaries), the shared spin and rotation constants, "
    "or the database lattices.",
    ["inputs", "histories"],
    "all interleavings of constructions, reads, in-place modifications of "
    "inputs and outputs, and queries",
    "the tests never modify an array after passing or receiving it",
    ["lattice/lattice.py", "bond.py", "line2d.py",
     "quantumoperator/quantumstate.py", "quantumoperator/spinsystem.py",
     "lattice/_lattice_database.py", "lanczos.py",
     "GreenFunction/_GFSolver.py"],
    [("copies", "np.array(..., copy=True) in constructors and properties")],
    ["all accessors and queries before and after modification"],
    "c28_isolation",
    "property-based testing: mutation histories, differential against an "
    "untouched twin object",
    BASE_NOTE, kernels=True,
)

prop(
    "C29", "Text forms identify the object: repr evaluates back, LaTeX is exact",
    "The official representation of a site, state, operator, number operator, "
    "spin operator, bond, line or space evaluates to an object equal to the "
    "original, and printed descriptions state the same contents. The LaTeX "
    "form shows the rounded coordinates, or the given or tabulated site index, "
    "the spin arrow or number, the orbit when asked for, the operator type, "
    "and for terms the coefficient followed by all operators in order.",
    ["inputs"],
    "all objects of these classes, all formatting options",
    "the tests check a few literal strings",
    ["quantumoperator/quantumstate.py", "quantumoperator/particlesystem.py",
     "quantumoperator/spinsystem.py", "bond.py", "line2d.py",
     "hilbertspace.py"],
    [("text forms", "__repr__, __str__, tolatex")],
    ["repr(), str(), tolatex()"],
    "c29_text",
    "property-based testing: eval round trip and an independent formatter",
    BASE_NOTE,
)


prop(
    "C30", "Drawings show the objects they are made from, and only save where asked",
    "Showing a lattice draws exactly its sites in all cells up to the given "
    "scope, named in the title; showing a Brillouin zone draws the nine "
    "combinations of the reciprocal vectors with coefficients -1, 0 and 1, "
    "labelled by the coefficients, and the perpendicular bisectors of the eight non-zero ones; lines and polygons "
    "show their defining points, their straight extent or closed boundary and "
    "the query point; operators and terms show their LaTeX form; the lattice "
    "drawing tool shows the requested cells, and, when asked, exactly the "
    "bonds between nearest neighbours, in the requested styles. A picture is "
    "saved exactly when asked for, under the documented name in the requested "
    "folder, which is created if missing; nothing else is written. The drawing "
    "tool does the same from the command line, and the Brillouin zone script "
    "marks the corners and edge centres of the hexagonal zone. "
    "Three-dimensional lattices, invalid scopes and unknown lattice names are "
    "refused.",
    ["inputs", "configurations"],
    "all lattices of one to three dimensions with every scope, all pairs of "
    "independent vectors, all lines and polygons, all operators and terms, all "
    "options of the drawing tool",
    "no test draws anything",
    ["lattice/lattice.py", "lattice/__init__.py", "line2d.py",
     "polygon.py", "tools/Draw2DLattice.py",
     "quantumoperator/particlesystem.py", "quantumoperator/spinsystem.py"],
    [("drawing", "show, ShowFirstBZ, ShowLine, ShowPolygon, "
      "ShowLocationRelation")],
    ["the data of the shown figures and the files written"],
    "c30_drawings",
    "property-based testing: the figures handed to plt.show and savefig are "
    "compared with independently computed points, bonds and labels",
    BASE_NOTE,
)


prop(
    "C31", "Settings and defaults do what they are documented to do",
    "Setting the float-point precision of sites, of bonds or of lattices, or "
    "the threshold of rotations or of the Lanczos method, decides from then "
    "on which coordinates are equal, which distances are the same and which "
    "numbers count as zero, in that module only; called without a value the "
    "documented default comes back, and an invalid value is refused and "
    "changes nothing. Leaving out an optional argument of any documented "
    "function is the same as passing its documented default.",
    ["inputs", "histories", "configurations"],
    "all histories of changes of the five settings, probed with all modules "
    "after each; all public functions with optional arguments and all subsets "
    "of these arguments",
    "the tests look at the module variables after one change, and never leave "
    "out and spell out the same argument",
    ["quantumoperator/quantumstate.py", "bond.py", "lattice/lattice.py",
     "rotation3d.py", "lanczos.py", "hilbertspace.py", "line2d.py",
     "polygon.py", "quantumoperator/factory.py",
     "quantumoperator/matrixrepr.py", "GreenFunction/_GFSolver.py",
     "tools/PandC.py", "tools/colorprint.py", "tools/runtimeenv.py"],
    [("settings", "set_float_point_precision, set_threshold"),
     ("defaults", "signatures of the public functions")],
    ["equality, rejection and results after changing a setting"],
    "c31_settings",
    "property-based testing: model-based histories of setting changes with "
    "probes on both sides of the limit; metamorphic relation between leaving "
    "out and spelling out defaults",
    BASE_NOTE,
    state=[("_ZOOM", "precision of identities", "quantumstate.py, bond.py, "
            "lattice.py"),
           ("_VIEW_AS_ZERO", "what counts as zero",
            "lattice.py, rotation3d.py, lanczos.py")],
    kernels=True,
)


prop(
    "C32", "Answers do not depend on what was asked before",
    "Apart from the documented settings and coefficients, what an object or "
    "function of the library answers depends only on the object and the "
    "arguments as they are at the time of the call: whatever was computed "
    "before, with the same or other objects, with equal or nearly equal keys, "
    "or with arrays that have been changed in place since, the answer is the "
    "one a new process would give to the same request.",
    ["histories", "inputs"],
    "all histories of requests to all modules, with shared objects and shared "
    "buffers",
    "every test asks new objects, once, in an order that never changes",
    ["quantumoperator/particlesystem.py", "quantumoperator/spinsystem.py",
     "quantumoperator/matrixrepr.py", "quantumoperator/quantumstate.py",
     "quantumoperator/factory.py", "indextable.py", "hilbertspace.py",
     "bond.py", "line2d.py", "polygon.py", "lattice/lattice.py",
     "lattice/_lattice_database.py", "lanczos.py",
     "GreenFunction/_GFSolver.py", "averages.py", "rotation3d.py",
     "tools/PandC.py", "tools/colorprint.py"],
    [("histories", "every public query")],
    ["results of queries"],
    "c32_history",
    "property-based testing: generated request histories; differential oracle "
    "is the same request alone in a fresh forked process",
    BASE_NOTE,
    state=[("_all_distances", "neighbour distances found so far",
            "lattice/lattice.py")],
    kernels=True,
)

prop(
    "C33", "Copies of objects answer like the original, in every process",
    "An operator, term, table, Hilbert space, lattice, bond, line, polygon, or "
    "the Krylov data of a Green-function calculation that is copied "
    "(copy.copy, copy.deepcopy), pickled and loaded (protocols 2-5), or sent to "
    "another Python process and back - before or after it has been used - "
    "equals the original, has the same hash, is found where the original is a "
    "key, and answers every query with the same value; using the copy (giving "
    "it another coefficient, say) does not change the original. Every query "
    "gives the same value in a process with another hash seed, so that the "
    "processes of a parallel calculation agree on indices, matrices, lattices "
    "and spectra.",
    ["inputs", "histories"],
    "every object and query of every family, copied at every point of a short "
    "sequence of queries",
    "no test copies, pickles or sends an object, or runs in two processes",
    ["quantumoperator/particlesystem.py", "quantumoperator/spinsystem.py",
     "quantumoperator/quantumstate.py", "quantumoperator/factory.py",
     "indextable.py", "hilbertspace.py", "bond.py", "line2d.py", "polygon.py",
     "lattice/lattice.py", "lattice/_lattice_database.py", "lanczos.py",
     "GreenFunction/_GFSolver.py"],
    [("copies", "copies of every class"),
     ("processes", "another process with another hash seed")],
    ["pickle streams"],
    "c33_copies",
    "property-based testing: generated request sequences around copies, "
    "pickles and visits to a second process; the oracle is the original object",
    BASE_NOTE,
    kernels=True,
)


def write():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as fp:
        for item in P:
            fp.write(json.dumps(item) + "\n")
    checks = []
    for item in P:
        pid = item["id"]
        if pid not in CHECKS:
            continue
        if not os.path.exists(os.path.join(
                root, "harness", "checks", CHECKS[pid]["module"] + ".py")):
            continue
        checks.append({
            "property": pid,
            "quick_cmd": "bash run.sh {0} quick".format(pid),
            "thorough_cmd": "bash run.sh {0} thorough".format(pid),
            "technique": CHECKS[pid]["technique"],
            "level": "exploration",
            "level_note": CHECKS[pid]["note"],
        })
    claimed = {c["property"] for c in checks}
    manifest = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": NOT_APPLICABLE + [
            {"property": i["id"], "reason": "check not built yet"}
            for i in P if i["id"] not in claimed
            and i["id"] not in {n["property"] for n in NOT_APPLICABLE}],
        "notes": "All checks share harness/core.py and harness/main.py; "
                 "no hooks in /repo are needed.",
    }
    with open(os.path.join(root, "MANIFEST.json"), "w") as fp:
        json.dump(manifest, fp, indent=1)
        fp.write("\n")


if __name__ == "__main__":
    write()
