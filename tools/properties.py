"""The properties: the source of properties.jsonl and MANIFEST.json (see meta.py)."""
T1 = "The tests call this on a handful of fixed values; the claim is for every input. "

PROPS = [
    dict(id="A01", title="Commutators of operator products equal their Fock-space commutators",
         statement="For products of fermionic operators with concrete indices, commutate(a, b, ...) yields a list of terms whose sum acts on every occupation state exactly like ab - ba. This holds for every combination of lengths at least one of which is even (including empty products), for repeated or coinciding operators, and for prefactors of the terms; generated terms are appended and the arguments stay untouched, also when they are elements of the list appended to.",
         over=["inputs"], for_all="all pairs of products/terms of 0..6 operators with 1..3 numeric indices over alphabets small enough for indices to coincide, and products of up to 40 operators on 60 modes, compared on selected occupation states",
         why=T1 + "No stable test calls commutate at all.",
         files=["algebra/commutator.hpp", "algebra/anticommutator.hpp", "algebra/term/list.hpp"],
         mechanism=[("commutate", "algebra/commutator.hpp"), ("anticommutates", "algebra/anticommutator.hpp")]),
    dict(id="A02", title="Symbolic commutators hold under every assignment of the indices",
         statement="Commuting terms whose indices are symbols yields terms with Kronecker deltas such that, for every assignment of concrete values to the symbols (coinciding ones included), the sum of the terms with their deltas evaluated equals the commutator of the assigned operators. Deltas already present in the prefactors are kept, and nested commutators keep the equality.",
         over=["inputs"], for_all="all pairs of symbolic terms over up to 6 symbols per index, all assignments sampled from 3 values, nesting depth up to 3",
         why=T1 + "No stable test calls the symbolic commutator; equality over assignments is a universally quantified statement.",
         files=["algebra/commutator.hpp", "algebra/anticommutator.hpp", "algebra/kronecker.hpp", "symbolic/prefactor.hpp", "symbolic/index.hpp"],
         mechanism=[("symbolic anticommutator producing Kronecker deltas", "algebra/anticommutator.hpp"), ("prefactor multiplication", "symbolic/prefactor.hpp")]),
    dict(id="A03", title="Conjugation is the adjoint; multiplication is the operator product",
         statement="Conjugating an operator, product or term yields the operator adjoint: matrix elements are conjugated and transposed, applying it twice restores the original, and the in-place and copying forms agree. Multiplying products and terms (in place or not, also of an object with itself, by single operators and by numbers) concatenates the operators in order and multiplies the prefactors; equality and inequality compare all parts.",
         over=["inputs", "histories"], for_all="all operators/products/terms with 1..3 indices, all interleavings of conjugation and multiplication up to a bounded length, products of up to 40 operators",
         why=T1 + "The tests conjugate two fixed products and multiply four.",
         files=["algebra/operator/operator.hpp", "algebra/monomial/monomial.hpp", "algebra/term/term.hpp", "types/number/complex.hpp"],
         mechanism=[("Operator::conjugate, Monomial::conjugate, Term::conjugate", "algebra/monomial/monomial.hpp"), ("operator*=", "algebra/term/term.hpp")]),
    dict(id="A04", title="The orders of operators and terms are strict total orders",
         statement="The less-than comparison of operators is a strict total order consistent with equality in which creators precede annihilators and indices compare lexicographically. The comparison of terms puts terms with fewer operators first and otherwise compares operators lexicographically, ignoring prefactors; the greater-than comparison is the exact converse of each.",
         over=["inputs"], for_all="all triples of operators with 1..4 indices of several types, all triples of terms of 0..5 and sometimes up to 20 or more than 256 operators",
         why=T1 + "The tests compare a few hand-picked pairs; totality and transitivity quantify over triples.",
         files=["algebra/operator/order.hpp", "algebra/term/order.hpp"],
         mechanism=[("lexicographic comparison helper", "algebra/operator/order.hpp"), ("TermSmaller/TermGreater", "algebra/term/order.hpp")]),
    dict(id="A05", title="Collecting unique terms preserves the sum",
         statement="Collecting the unique terms of a list yields exactly one term per operator string that occurs, carrying the sum of the prefactors of that string, in ascending term order. The results are appended to the output and the input list keeps its contents.",
         over=["inputs"], for_all="all lists of 0..24 and sometimes up to 2500 terms with heavily duplicated operator strings, real, integer and complex prefactors",
         why=T1 + "No stable test instantiates it (it did not compile).",
         files=["algebra/term/list.hpp", "algebra/term/checks.hpp", "algebra/term/order.hpp"],
         mechanism=[("copy_as_unique_terms", "algebra/term/list.hpp"), ("have_same_operators", "algebra/term/checks.hpp")]),
    dict(id="A06", title="Kronecker deltas and prefactors form a consistent algebra",
         statement="Kronecker deltas are equal exactly when they relate the same pair of indices in either orientation. Multiplying prefactors multiplies their values and takes the union of their deltas (with repetition, also for a prefactor times itself), and ordering the deltas yields one canonical sorted sequence for every permutation and orientation of the same deltas.",
         over=["inputs", "histories"], for_all="all prefactors with 0..8 and sometimes up to 40 deltas over string and numeric indices, all multiplication sequences of bounded length",
         why=T1 + "No stable test covers prefactors or deltas.",
         files=["algebra/kronecker.hpp", "symbolic/prefactor.hpp"],
         mechanism=[("Kronecker::operator== and order", "algebra/kronecker.hpp"), ("Prefactor::operator*= and order_kroneckers", "symbolic/prefactor.hpp")]),
    dict(id="A07", title="Rendering of operators, products, terms and tuples is faithful",
         statement="Streaming an operator, product, term, delta, prefactor, symbolic index or tuple writes every index, dagger, delta, coefficient and spin arrow in order in the documented notation, and leaves the object unchanged. Empty products and terms without deltas, coefficients 1 and -1, custom delimiters and tuples of every length are included.",
         over=["inputs"], for_all="all operators with 1..4 indices of integer, string, spin and symbolic types, products of 0..6 and sometimes up to 40 operators, prefactors with 0..4 deltas, tuples of 1..9 elements",
         why=T1 + "No stable test prints anything.",
         files=["algebra/operator/io.hpp", "algebra/monomial/io.hpp", "algebra/term/io.hpp", "algebra/kronecker.hpp", "symbolic/prefactor.hpp", "symbolic/index.hpp", "tuple.hpp"],
         mechanism=[("operator<< overloads", "algebra/operator/io.hpp"), ("print_tuple", "tuple.hpp"), ("Prefactor output", "symbolic/prefactor.hpp")]),
    dict(id="A08", title="Operators keep the indices they are made from",
         statement="An operator made by any of the construction helpers (creator, annihilator, from tuple) has the given kind and returns, through every accessor (members, positional access on mutable, constant and temporary objects, index tuple), exactly the indices given. Writing through a mutable accessor changes that index only; equality and the same-indices test compare every index, and the type queries answer for every position.",
         over=["inputs"], for_all="all operators with 1..4 indices of mixed types and all positions",
         why=T1 + "The tests use single fixed indices.",
         files=["algebra/operator/operator.hpp", "algebra/operator/make.hpp", "algebra/operator/get_index.hpp", "algebra/operator/is_symbolic.hpp"],
         mechanism=[("get_index", "algebra/operator/get_index.hpp"), ("make_creator/make_annihilator", "algebra/operator/make.hpp")]),
    dict(id="A09", title="Spin, particle and momentum counts are additive over a product",
         statement="The total number of creations, the total spin and the total momentum of a term equal the sums of 1, of the spin sign and of the lattice vector over its operators, with creators counted positively and annihilators negatively. They are therefore additive under multiplication and change sign under conjugation.",
         over=["inputs"], for_all="all products of 0..8 operators with 1..3 indices and spin or momentum at any position",
         why=T1 + "No stable test covers them.",
         files=["algebra/term/checks.hpp"],
         mechanism=[("total_spin, total_creations, total_momentum", "algebra/term/checks.hpp")]),
    dict(id="A10", title="The anticommutation test is exact for numbers and sound for symbols",
         statement="Two operators are reported to anticommute exactly if their anticommutator vanishes: for numeric indices when both are of one kind or differ in an index, for symbolic indices when it vanishes under every assignment of the symbols. The test is symmetric; otherwise the Kronecker deltas added to a prefactor hold exactly under the assignments where the anticommutator is one, on top of the deltas already present and with an unchanged value.",
         over=["inputs"], for_all="all pairs of operators with 1..4 indices of numeric, spin and symbolic (string, char pointer) type in any position, all assignments sampled from 3 values",
         why=T1 + "The tests check a few fixed pairs.",
         files=["algebra/anticommutator.hpp", "algebra/kronecker.hpp", "symbolic/prefactor.hpp"],
         mechanism=[("anticommutates", "algebra/anticommutator.hpp"), ("anticommutator", "algebra/anticommutator.hpp")]),
    dict(id="C01", title="Parallel loops give the serial result under every schedule",
         statement="Filling bases, dispersions, expectation values and Fourier coefficients, evaluating site occupations and Fermi jumps and multiplying vectors by function matrices, and the programs that do so, are free of data races and yield what one thread yields (sums up to rounding), for every number of threads, every size of the team up to it and every order in which the threads run, whatever was computed before on objects of other sizes.",
         over=["inputs", "schedules", "histories"], for_all="teams of 1 to 8 and sometimes up to 24 threads, concurrent ones judged by happens-before order and sequential ones in arbitrary orders, on chains and squares of up to 300 sites, all bases, sequences of up to 3 observables, 5 programs",
         why="A race shows in a test only when two threads happen to meet, on objects much larger than those of the tests, and the stable tests never vary the number of threads or their order.",
         files=["openmp.hpp", "models/hubbard_real_space/basis.hpp", "models/hubbard_momentum_space/basis.hpp", "models/hubbard_real_space/expectation_value.hpp", "models/hubbard/dispersion.hpp", "models/hubbard_real_space/fermi_jump/1d.hpp", "models/hubbard_real_space/fermi_jump/2d.hpp", "models/hubbard_real_space/fermi_jump_no.hpp", "models/hubbard_real_space/site_occupation.hpp", "types/blaze/multiply_assign.hpp", "types/eigen/multiply_assign.hpp", "src/hubbard/hubbard_real_1d_kinetic_theory.cpp"],
         mechanism=[("SiteOccupation::operator()", "models/hubbard_real_space/site_occupation.hpp"), ("FermiJump1D::operator()", "models/hubbard_real_space/fermi_jump/1d.hpp"), ("multiply_assign", "types/blaze/multiply_assign.hpp")]),
    dict(id="I01", title="The integer iterator is a random-access iterator over the integers",
         statement="A range of integer iterators visits exactly the integers from begin to end once in order, and increment, decrement, +=, -=, +, -, difference, subscript-free comparison and standard algorithms agree with arithmetic on the underlying integer. Copies are independent, and prefix/postfix forms return the new/old position.",
         over=["inputs", "histories"], for_all="all start values of signed and unsigned 16..64 bit types, all sequences of up to 40 iterator operations",
         why=T1 + "No stable test covers the iterator itself.",
         files=["iterators/integer_iterator.hpp"],
         mechanism=[("IntegerIterator operators", "iterators/integer_iterator.hpp")]),
    dict(id="L01", title="Positions and position lookup of the periodic chain are inverse",
         statement="On a periodic chain of any length the position of a site determines the site: looking up the position of a site, also after translation by whole periods or a perturbation of less than half a spacing, gives that site back, and the closest-site search returns a site at minimal periodic distance. Origin, length, spacing, lattice vectors and iteration agree with the constructor arguments for real-space and momentum-space chains.",
         over=["inputs"], for_all="all lengths 1..3000 (position lookup: up to 2^36 sites), spacings over several decades, float and double, signed and unsigned site types",
         why=T1 + "The tests use lengths up to a few sites with unit spacing.",
         files=["lattices/periodic_chain.hpp"],
         mechanism=[("operator[], operator(), closest", "lattices/periodic_chain.hpp")]),
    dict(id="L02", title="Neighbours and distances on the periodic chain are consistent",
         statement="On a periodic chain of any length the neighbours of a site are its two periodic translations by one step, the unique neighbour is the one to the right, and adjacency is symmetric and agrees with the neighbour list. The lattice distance is the number of steps along the shorter way around the ring, hence symmetric, zero exactly for equal sites and obeying the triangle inequality.",
         over=["inputs"], for_all="all lengths up to 2^45 and all triples of sites, float and double, signed and unsigned site types",
         why=T1 + "The tests check fixed small chains.",
         files=["lattices/periodic_chain.hpp"],
         mechanism=[("neighbors, neighboring, lattice_distance, distance", "lattices/periodic_chain.hpp")]),
    dict(id="L03", title="Square-lattice sites, coordinates and positions are in bijection",
         statement="On a periodic rectangular lattice of any side lengths, site number, coordinate pair and position are in bijection; position lookup tolerates whole periods in either direction and perturbations below half a spacing, and the closest-site search returns a site at minimal periodic distance. Origins, lengths, spacings, lattice vectors and iteration agree with the constructor arguments for real-space and momentum-space lattices.",
         over=["inputs"], for_all="all side lengths 1..40 per direction (independent; position lookup: up to 2^31 per direction), spacings over several decades, float and double",
         why=T1 + "The 2D lattice test is not built here (needs Blaze) and uses square lattices only.",
         files=["lattices/periodic_square_lattice.hpp"],
         mechanism=[("operator[], operator(), closest, index", "lattices/periodic_square_lattice.hpp")]),
    dict(id="L04", title="Neighbours and distances on the square lattice are consistent",
         statement="On a periodic rectangular lattice the four neighbours of a site are its periodic translations by one step in either direction, the two unique neighbours are the forward ones, and adjacency of two different sites is symmetric and agrees with the neighbour list. The lattice distances in x and y are the shorter ways around the respective ring, hence symmetric and obeying the triangle inequality.",
         over=["inputs"], for_all="all side lengths up to 2^31 per direction (independent) and all triples of sites",
         why=T1 + "The 2D lattice test is not built here (needs Blaze).",
         files=["lattices/periodic_square_lattice.hpp"],
         mechanism=[("neighbors, neighboring, lattice_distance, distance", "lattices/periodic_square_lattice.hpp")]),
    dict(id="L05", title="The dispersion is the tight-binding band on every momentum",
         statement="For every momentum of a chain or rectangular lattice the dispersion equals -2J times the sum over directions of cos(k a), with the hopping and lattice spacing given (hopping 1 by default). The table has one entry per momentum, does not depend on the number of threads, and the Fermi momentum of a filling is the filling times pi.",
         over=["inputs", "schedules"], for_all="all chain lengths up to 70000 and rectangles up to 40x40, any hopping and spacings, 1 to 8 threads, float, double and long double",
         why=T1 + "The tests check one chain and one square with hopping 1.",
         files=["models/hubbard/dispersion.hpp"],
         mechanism=[("Dispersion constructors and make_dispersion", "models/hubbard/dispersion.hpp"), ("calculate_fermi_momentum_1d", "models/hubbard/dispersion.hpp")]),
    dict(id="M01", title="The real-space bases enumerate each basis operator exactly once",
         statement="The one-operator basis holds the spin-up creator of every site in order; the three-operator basis holds these first and then every product of a spin-up creator, spin-down creator and spin-down annihilator exactly once, at the position the index function returns for its three sites. The conjugated basis holds the adjoint of every element at the same position and leaves the original alone.",
         over=["inputs", "histories"], for_all="all chains and rectangles up to 12 sites (three operators) or 500 sites (one operator), 1 to 8 threads, two site types, sequences of bases of different sizes",
         why=T1 + "The tests check a few fixed sizes.",
         files=["models/hubbard_real_space/basis.hpp"],
         mechanism=[("Basis1Operator, Basis3Operator, get_3op_index, get_conjugate", "models/hubbard_real_space/basis.hpp")]),
    dict(id="M02", title="The momentum-space basis conserves momentum and enumerates every pair",
         statement="The momentum-space basis for a momentum q holds the spin-up creator of q followed by one product per pair of momenta (k1, k2), at the position the index function returns, whose annihilator carries the momentum k1 + k2 - q folded back into the Brillouin zone. Conjugating the basis, in place or as a copy, yields the adjoint of every element and is an involution.",
         over=["inputs", "schedules"], for_all="momenta of chains up to 40 and sometimes 300 sites and rectangles up to 7x7 and sometimes 17x17, 1 to 8 threads",
         why=T1 + "The tests check one fixed chain.",
         files=["models/hubbard_momentum_space/basis.hpp"],
         mechanism=[("Basis3Operator, get_3op_index, conjugate", "models/hubbard_momentum_space/basis.hpp")]),
    dict(id="M03", title="Half-filled expectation values are those of the Fermi sea",
         statement="The one-particle expectation values between two sites equal the filling on one site and sin(k_F r)/(pi r) at lattice distance r on the chain, and the integral over the half-filled tight-binding Fermi surface on the rectangle. They depend only on the shorter periodic distance in each direction, hence are symmetric and translation invariant, and do not depend on the number of threads.",
         over=["inputs", "schedules"], for_all="all pairs of sites on chains up to 1500 sites with any spacing, filling and Fermi momentum and on rectangles up to 80x80, 1 to 8 threads, float and double",
         why=T1 + "The tests check one chain and one square.",
         files=["models/hubbard_real_space/expectation_value.hpp"],
         mechanism=[("ExpectationValue1DHalfFilled, ExpectationValue2DHalfFilled", "models/hubbard_real_space/expectation_value.hpp")]),
    dict(id="M04", title="Site occupation obeys Wick's theorem for every pair of basis operators",
         statement="For every two elements of the real-space bases the expectation value used by the site occupation equals the one Wick's theorem gives for the normalized operators and the supplied one-particle expectation values. The site occupation of an amplitude vector is the corresponding quadratic form, with or without use of the inversion symmetry and for any number of threads.",
         over=["inputs", "schedules"], for_all="all pairs of basis operators on up to 30 sites (three operators; whole amplitude vectors: 6) or 24 sites (one operator), arbitrary dyadic one-particle expectation values, arbitrary complex amplitudes, single and double precision, 1 to 24 threads",
         why=T1 + "No stable test evaluates the three-operator occupation; it read uninitialised monomials.",
         files=["models/hubbard_real_space/site_occupation.hpp"],
         mechanism=[("expectation_value_1_1/1_3/3_1/3_3", "models/hubbard_real_space/site_occupation.hpp"), ("SiteOccupation::operator()", "models/hubbard_real_space/site_occupation.hpp")]),
    dict(id="M05", title="The Fermi jump on the chain is the Fourier transform at k_F squared",
         statement="The jump observable of the chain is the absolute square of the Fourier transform at the Fermi momentum of the amplitudes reduced to single creators, where three-operator amplitudes contribute with the one-particle expectation values of their spin-down pair. It is the same for every number of threads, in both normal-ordered and plain form, for copies, and when several observables of different sizes are evaluated in turn; the amplitudes are left alone.",
         over=["inputs", "histories", "schedules"], for_all="all interleavings of up to 5 observables on chains up to 200 sites (one operator) or 20 and sometimes 43 sites (three operators), any spacing, Fermi momentum, expectation values and amplitudes, single and double precision, 1 to 24 threads",
         why=T1 + "No stable test covers it; it shared a static vector between observables of different sizes.",
         files=["models/hubbard_real_space/fermi_jump/1d.hpp", "models/hubbard_real_space/fermi_jump_no.hpp"],
         mechanism=[("FermiJump1D::operator()", "models/hubbard_real_space/fermi_jump/1d.hpp"), ("FermiJump1D_NO", "models/hubbard_real_space/fermi_jump_no.hpp")]),
    dict(id="M06", title="The Fermi jump on the square lattice follows every direction",
         statement="On the square lattice the jump observable gives, for every Fermi momentum vector and every pair of spacings, the absolute square of the Fourier transform of the reduced three-operator amplitudes at that momentum, as on the chain. It is the same for every number of threads and for observables of different sizes evaluated in turn.",
         over=["inputs", "histories", "schedules"], for_all="all rectangles up to 6x5 and sometimes 7x6 sites, any spacings and Fermi momenta, expectation values and amplitudes, single and double precision, interleaved observables, 1 to 4 threads",
         why=T1 + "No test instantiates the two-dimensional jump.",
         files=["models/hubbard_real_space/fermi_jump/2d.hpp"],
         mechanism=[("FermiJump2D::operator()", "models/hubbard_real_space/fermi_jump/2d.hpp")]),
    dict(id="M08", title="The excited Fermi sea agrees with a table of occupation numbers",
         statement="Applying any sequence of creators, annihilators and products to the Fermi sea yields a state that vanishes exactly when the occupation-number table says so, lists exactly the particles and holes that differ from the Fermi sea (sorted after an operator or product was applied), and counts as the Fermi sea exactly when nothing differs. Applying an operator or product reports success exactly when the state does not vanish. A level counts as occupied exactly when its energy lies below the Fermi energy (zero by default); copies are independent.",
         over=["histories", "inputs"], for_all="all sequences of up to 25 operations over up to 700 levels with energies and Fermi energies over many orders of magnitude, also next to each other",
         why=T1 + "The tests apply a few operators to one chain.",
         files=["models/hubbard_momentum_space/excited_fermi_sea.hpp"],
         mechanism=[("create_particle, annihilate_particle, apply_operator, apply_monomial", "models/hubbard_momentum_space/excited_fermi_sea.hpp")]),
    dict(id="M09", title="Exactly the non-vanishing Fermi-sea expectation values are listed",
         statement="The list of non-vanishing expectation values of a momentum-space basis contains each pair of basis elements whose expectation value in the Fermi sea does not vanish exactly once, with the right value, and no other pair, for every Fermi energy (zero by default). Sorting the list orders it by the pair and changes nothing else.",
         over=["inputs"], for_all="all momenta of chains and rectangles up to 18 sites, energies and Fermi energies over many orders of magnitude, also next to each other",
         why=T1 + "The tests check one half-filled chain.",
         files=["models/hubbard_momentum_space/non_vanishing_expectation_values.hpp", "models/hubbard_momentum_space/excited_fermi_sea.hpp"],
         mechanism=[("NonVanishingExpectationValues", "models/hubbard_momentum_space/non_vanishing_expectation_values.hpp")]),
    dict(id="M10", title="The particle number is the norm of the evolved creator on the Fermi sea",
         statement="The particle number of a momentum computed from the amplitudes of its basis equals the squared norm of the combination of basis operators applied to the Fermi sea, hence is never negative; the Fermi energy is zero by default. At the start of the time evolution it is 1 for momenta inside the Fermi sea and 0 outside.",
         over=["inputs"], for_all="all momenta of chains and rectangles up to 18 sites, arbitrary energies, Fermi energies and amplitudes, single and double precision",
         why=T1 + "The tests evaluate one fixed amplitude vector.",
         files=["models/hubbard_momentum_space/particle_number.hpp", "models/hubbard_momentum_space/non_vanishing_expectation_values.hpp"],
         mechanism=[("ParticleNumber::operator()", "models/hubbard_momentum_space/particle_number.hpp")]),
    dict(id="M11", title="The real-space Liouvillian is the commutator with the Hamiltonian",
         statement="Each row of the real-space Liouvillian matrix holds the coefficients of the commutator of the Hubbard Hamiltonian with a basis operator, projected onto the operator basis that is orthonormal at infinite temperature; the matrix is hermitian, and the kinetic matrix holds the hopping part. Hopping and interaction are one by default; filling a matrix replaces whatever it held before.",
         over=["inputs", "histories"], for_all="all chains of 3 to 43 sites and rectangles of 3x3 to 4x3 (kinetic matrix: up to 300 sites or 15x15), any hopping and interaction, real and complex matrices in single and double precision, refilled matrices",
         why=T1 + "No stable test compares the matrix with a commutator (the matrix headers need Blaze, which is not installed).",
         files=["models/hubbard_real_space/blaze_sparse.hpp", "models/hubbard_real_space/liouvillian.hpp", "types/blaze/matrix_insert.hpp"],
         mechanism=[("init_matrix, init_kinetic_matrix", "models/hubbard_real_space/blaze_sparse.hpp")]),
    dict(id="M12", title="The normal-ordered Liouvillian is the normal-ordered commutator",
         statement="Each row of the normal-ordered Liouvillian matrix holds the coefficients of the commutator of the Hubbard Hamiltonian with a basis operator, normal-ordered with respect to the supplied one-particle expectation values and truncated to the basis. Filling a matrix replaces whatever it held before.",
         over=["inputs", "histories"], for_all="all chains of 3 to 20 sites and rectangles of 3x3 and 4x3 (kinetic matrix: up to 200 sites or 12x12), any hopping and interaction, any translation-invariant expectation values (without hopping: any with equal occupations), real and complex matrices in single and double precision, refilled matrices",
         why=T1 + "No stable test instantiates it.",
         files=["models/hubbard_real_space/blaze_sparse_no.hpp"],
         mechanism=[("init_matrix_no, init_kinetic_matrix_no", "models/hubbard_real_space/blaze_sparse_no.hpp")]),
    dict(id="M13", title="The momentum-space Liouvillian is the Fourier-transformed commutator",
         statement="The momentum-space Liouvillian matrix of a momentum equals, on lattices with even sides, the Fourier transform of the real-space commutator with the Hamiltonian, and for arbitrary band energies it holds these on the diagonal and the interaction in the scattering elements. Hopping and interaction are one by default; filling a matrix replaces whatever it held before.",
         over=["inputs", "histories"], for_all="all momenta of chains up to 40 sites and rectangles up to 7x7 (against the Fourier transform: up to 6 sites), any band energies, hopping and interaction, real and complex matrices",
         why=T1 + "No stable test builds the matrix (it needs Blaze, which is not installed).",
         files=["models/hubbard_momentum_space/blaze_sparse.hpp", "models/hubbard_momentum_space/liouvillian.hpp"],
         mechanism=[("init_matrix", "models/hubbard_momentum_space/blaze_sparse.hpp"), ("make_liouvillian", "models/hubbard_momentum_space/liouvillian.hpp")]),
    dict(id="N01", title="The RK4 integrator takes exact fourth-order steps",
         statement="For a constant linear system a step of the integrator multiplies the state by the fourth-order Taylor polynomial of the exponential of the matrix times the step, for dense, sparse and function matrices, real and complex numbers, Blaze- and Eigen-style containers and any step size. Integrators for different systems that take turns do not disturb each other.",
         over=["inputs", "histories"], for_all="all matrices up to 200x200 (sparse, dense, vanishing), step sizes of either sign, sequences of up to 12 interleaved steps, matrices changed in place and vectors set back between steps",
         why=T1 + "The tests integrate one fixed system.",
         files=["ode/rk4.hpp", "types/multiply_assign.hpp", "types/function_matrix.hpp", "types/blaze/multiply_assign.hpp", "types/eigen/multiply_assign.hpp"],
         mechanism=[("RK4::step", "ode/rk4.hpp"), ("multiply_assign", "types/multiply_assign.hpp")]),
    dict(id="T01", title="Triplet lists keep the row they represent",
         statement="Sorting the elements collected for a matrix row orders them by column and keeps every element. Merging the columns yields exactly one element per column whose sum does not vanish, in ascending order and carrying that sum, and leaves the original list alone; the uniqueness test tells whether a column repeats.",
         over=["inputs"], for_all="all lists of 0 to 40 (sometimes 3000) elements with repeated and cancelling columns, real, complex and integer values, columns of the whole index type",
         why=T1 + "The tests use one fixed list; empty lists crashed.",
         files=["types/triplet.hpp"],
         mechanism=[("TripletList::sort, has_unique_columns, make_columns_unique", "types/triplet.hpp")]),
    dict(id="T02", title="Number helpers respect their tolerances and the complex field",
         statement="Equality and zero tests compare the real and the imaginary part with the tolerance (a deviation counts if it is strictly smaller; exactly for integers), are reflexive and symmetric, and are false for not-a-number. Conjugation leaves real numbers alone and is an involution; the products with conjugates match complex arithmetic.",
         over=["inputs"], for_all="all real, integer and complex numbers over many decades, differences on both sides of the tolerance, float, double and long double",
         why=T1 + "The tests use a handful of fixed numbers.",
         files=["types/number/complex.hpp", "types/number/is_equal.hpp", "types/number/is_zero.hpp"],
         mechanism=[("IsEqual", "types/number/is_equal.hpp"), ("IsZero", "types/number/is_zero.hpp"), ("conjugate, multiply_with_conjugate, add_conjugate_products", "types/number/complex.hpp")]),
    dict(id="T03", title="Matrix predicates and function matrices judge every element",
         statement="The predicates for quadratic, symmetric, hermitian and vanishing matrices hold exactly if the defining condition holds for every element, wherever the offending element is, for dense, sparse and function matrices of every shape. A function matrix returns and prints the value of its function at every position, and two of them are equal exactly when dimensions and all elements agree. Elements that differ by less than the machine epsilon count as equal.",
         over=["inputs"], for_all="all matrices up to 8x8 and sometimes up to 200x200 (empty and rectangular ones included), often with one perturbed element, real and complex, single and double precision, several index types",
         why=T1 + "The tests use a few fixed matrices; hermiticity compared elements with themselves.",
         files=["types/function_matrix.hpp", "types/matrix_check.hpp", "types/matrix.hpp"],
         mechanism=[("is_quadratic, is_symmetric, is_hermitian, IsZero", "types/matrix_check.hpp"), ("FunctionMatrix", "types/function_matrix.hpp")]),
    dict(id="T04", title="Matrix-vector products and dot products match the definition",
         statement="Multiplying a vector by a matrix in place yields the textbook matrix-vector product for every kind of matrix (dense, sparse, function) and container (Blaze, Eigen), for any number of threads and sizes that change from call to call. Scalar products and dimensions agree with the definition for every container and length; inserting an element into a sparse matrix sets that element and no other.",
         over=["inputs", "histories"], for_all="all matrices with up to 9 and sometimes up to 70 rows and columns (empty and rectangular ones included), real and complex, single and double precision, both storage orders, sequences of up to 4 products, 1 to 4 threads",
         why=T1 + "The tests use fixed vectors.",
         files=["types/multiply_assign.hpp", "types/dot_product.hpp", "types/matrix.hpp", "types/blaze/multiply_assign.hpp", "types/blaze/dot_product.hpp", "types/blaze/matrix_insert.hpp", "types/eigen/multiply_assign.hpp", "types/eigen/dot_product.hpp"],
         mechanism=[("multiply_assign", "types/multiply_assign.hpp"), ("dot_product", "types/dot_product.hpp")]),
    dict(id="T05", title="Eigen matrices are filled from every element of a function",
         statement="Filling an Eigen matrix from a function sets every element to the value at its position; the symmetric variant takes the lower triangle and mirrors it. Sparse matrices hold exactly the elements that do not vanish, and earlier content does not survive.",
         over=["inputs", "histories"], for_all="all matrices up to 10x10 and sometimes up to 60x60, dense and sparse, row and column major, real and complex, single and double precision, refilled matrices",
         why=T1 + "No stable test instantiates it (it did not compile).",
         files=["types/eigen/init.hpp", "types/eigen/traits.hpp"],
         mechanism=[("init, init_symmetric", "types/eigen/init.hpp")]),
    dict(id="P01", title="Reading lines skips comments and blank lines and nothing else",
         statement="A line counts as skippable exactly if it holds only whitespace or its first other character is '#', whatever its length. Reading the next line returns the remaining lines that are not skippable in order and unchanged, and reports the end of the stream with an exception.",
         over=["inputs", "histories"], for_all="all lines up to 200000 characters of arbitrary bytes and all streams of up to 40 lines, with and without a final newline and carriage returns",
         why=T1 + "The tests check a handful of short lines; long comments and the end of the stream crashed or hung.",
         files=["io/line.hpp", "io/exception.hpp"],
         mechanism=[("is_skippable_line", "io/line.hpp"), ("next_line", "io/line.hpp")]),
    dict(id="P02", title="Sparse Eigen matrices survive writing and reading",
         statement="Writing a sparse matrix prints every stored element exactly once with its row, column and value, and reading these lines after the dimensions and the number of elements restores the matrix, replaces earlier content and consumes nothing beyond it, whatever guess of the elements per row or column is given. Malformed dimensions and truncated input are reported with an exception.",
         over=["inputs"], for_all="all matrices up to 3000x3000 with up to 40 elements, row and column major, compressed or not, integers, floats, doubles and complex numbers, interspersed comments and blank lines",
         why=T1 + "No stable test covers it (it did not compile).",
         files=["io/eigen/sparse.hpp", "types/eigen.hpp", "io/line.hpp"],
         mechanism=[("write_matrix", "io/eigen/sparse.hpp"), ("read_matrix", "io/eigen/sparse.hpp")]),
    dict(id="P03", title="Errors, version and header output tell the truth",
         statement="Exceptions are caught as their own type, as Exception and as std::exception and show the place and the complete message, also as copies and after everything they were made from is gone. Composed strings are the concatenation of their parts. The constants are pi, pi/2 and 2 pi to the precision of the type, and type names are those of the types. The reported user, host, number of threads, byte order and versions are the actual ones; a run lists them, the name of the program and the options it was given in the header of its output, and --version and --help print them and all options instead of computing anything.",
         over=["inputs"], for_all="all messages and file names of arbitrary bytes, composed strings of up to 8 texts and numbers, any user and number of threads, kinetic programs with any options and --help or --version anywhere among them",
         why=T1 + "The tests check none of it; two programs signed their output with the name of another.",
         files=["exception.hpp", "io/exception.hpp", "string.hpp", "constants.hpp", "platform.hpp", "types/names.hpp", "src/hubbard/include/application.hpp", "src/hubbard/include/application_timer.hpp", "src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp"],
         mechanism=[("create_exception", "exception.hpp"), ("Platform", "platform.hpp"), ("Application, print_version", "src/hubbard/include/application.hpp")]),
    dict(id="S01", title="Options and response files determine the parameters of a run",
         statement="Every option has the value given on the command line, otherwise the one of the response file, otherwise its default; the response file and the header written by a run list every option with its value. Running a program from its response file repeats the run. Response file, log and matrix file lie beside the output file and are named after it. Unknown options, malformed numbers and missing response files end a program with an error and without data.",
         over=["inputs"], for_all="all sets of up to 9 integer, real and text options with and without defaults, any notation and order on the command line; kinetic programs with any combination of their options",
         why=T1 + "There are no tests of the programs or their options; a missing response file was read forever.",
         files=["src/hubbard/include/cli.hpp", "src/hubbard/include/application.hpp", "src/hubbard/hubbard_real_1d_kinetic_rk4.cpp"],
         mechanism=[("parse_command_line_options, read_response_file", "src/hubbard/include/cli.hpp"), ("Application", "src/hubbard/include/application.hpp")]),
    dict(id="S02", title="The chain programs write the observables of the evolved operator",
         statement="The programs for the chain write one line per measurement, at the start and whenever the interval has passed until the final time, with the site occupation, Fermi jump or amplitudes of the operator evolved with fourth-order Runge-Kutta steps under the Hubbard Hamiltonian with the given hopping, interaction, filling and number of sites. The numbers do not depend on the number of threads, the notation of the options or the environment.",
         over=["inputs", "schedules"], for_all="chains of 3 to 5 and sometimes up to 10 sites (kinetic programs: 3 to 24), any hopping, interaction, filling, step, final time and measurement interval, runs of up to 1200 steps, 1 to 4 threads",
         why=T1 + "There are no tests of the programs.",
         files=["src/hubbard/hubbard_real_1d_rk4.cpp", "src/hubbard/hubbard_real_1d_rk4_jump.cpp", "src/hubbard/hubbard_real_1d_rk4_coefficients.cpp", "src/hubbard/hubbard_real_1d_kinetic_rk4.cpp", "src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp", "src/hubbard/real_space/matrix.hpp", "src/hubbard/real_space/site_occupation.hpp", "src/hubbard/include/common.hpp"],
         mechanism=[("main", "src/hubbard/hubbard_real_1d_rk4.cpp"), ("has_time_interval_passed", "src/hubbard/include/common.hpp")]),
    dict(id="S03", title="Measurement times, checkpoints and cleaned files keep their content",
         statement="A measurement is due exactly when the given number of steps has passed since the last one, in spite of rounded times. The initial vector is the first basis operator. A checkpoint restores the amplitudes exactly and its number is one larger than that of the one before; a matrix file restores the matrix. Cleaning an output file keeps the lines up to the last entry to keep unchanged and in order and no later entry.",
         over=["inputs", "histories"], for_all="up to 20000 steps of 1e-6 to 10 (starts up to 2^38 steps after zero) and intervals up to 1000 (exact times: 2^50), single and double precision, amplitude vectors up to 60 elements and sequences of up to 5 checkpoints that may replace older files, sparse matrices up to 20x20, output files of up to 40 and sometimes 3000 lines with comments",
         why=T1 + "There are no tests of these functions; cleaning a file joined its lines and did not end.",
         files=["src/hubbard/include/common.hpp", "src/hubbard/include/checkpoint.hpp", "src/hubbard/include/vector.hpp", "src/hubbard/include/rk4.hpp"],
         mechanism=[("has_time_interval_passed, clean_output_file", "src/hubbard/include/common.hpp"), ("write_checkpoint_file, read_checkpoint_file", "src/hubbard/include/checkpoint.hpp")]),
    dict(id="S04", title="The square, momentum, theory and fixed programs compute their models",
         statement="The square-lattice program writes the Fermi jump of the evolved operator for the given momentum at the measurement times. The momentum program prints the particle number of the evolved momentum operator and saves its Liouvillian. The theory program writes the site occupation of the analytic solution in terms of Bessel functions, the dispersion program the band of the chain and the four-operator program the evolved amplitudes and a particle number, which is real, each for any number of threads.",
         over=["inputs", "schedules"], for_all="rectangles 3x3, 3x4 and momentum chains up to 15 sites with any hopping, interaction and step, random lines of the analytic solution, 1 to 8 threads",
         why=T1 + "There are no tests of the programs.",
         files=["src/hubbard/hubbard_real_2d_rk4_jump.cpp", "src/hubbard/hubbard_momentum_1d_rk4.cpp", "src/hubbard/hubbard_real_1d_kinetic_theory.cpp", "src/hubbard/hubbard_dispersion_1d.cpp", "src/hubbard/hubbard_trivial.cpp"],
         mechanism=[("main", "src/hubbard/hubbard_momentum_1d_rk4.cpp"), ("main", "src/hubbard/hubbard_real_2d_rk4_jump.cpp")]),
    dict(id="S05", title="The printed commutators hold for every assignment of the indices",
         statement="The commutators of the Hubbard Hamiltonian with symbolic basis operators that the commutator programs print are those of the canonical anticommutation relations, for every assignment of sites or momenta and spins to the indices.",
         over=["inputs"], for_all="all printed commutators in real and momentum space under arbitrary assignments of the free indices to up to 3 sites or momenta, compared as operators on Fock space",
         why=T1 + "There are no tests of the programs.",
         files=["src/hubbard/hubbard_commutators_real_space.cpp", "src/hubbard/hubbard_commutators_momentum_space.cpp", "algebra/commutator.hpp"],
         mechanism=[("main", "src/hubbard/hubbard_commutators_real_space.cpp"), ("commutator", "algebra/commutator.hpp")]),
    dict(id="D01", title="The source tools treat exactly the files they are for",
         statement="The include-guard tool reports exactly the headers of the library whose guard is missing, inconsistent or not named after their path and fails exactly if there is one. The include-style tool turns exactly the angle-bracket includes of the library's own headers into quoted ones and changes nothing else; the formatter rewrites exactly the source files of the library, programs and tests; the line counter counts exactly their lines. The configure tool writes the version that git reports (or that it is unknown) and leaves a header alone that is up to date. The renderer turns each line of its input into one row of the document.",
         over=["inputs", "histories"], for_all="all trees of up to 20 files in up to 4 levels of directories with up to 300 lines, right and wrong guards of seven kinds, versions known and unknown, inputs of up to 200 lines; git, clang-format and xelatex are stand-ins",
         why="There are no tests of the tools; the trees they run on change with every commit.",
         files=["tools/include-guards.py", "tools/include-style.py", "tools/loc.py", "tools/configure.py", "tools/clang-format.py", "tools/render.py"],
         mechanism=[("regex_include_guard", "tools/include-guards.py"), ("regex_bad_include", "tools/include-style.py")]),
]

NOT_APPLICABLE = []
LEVEL_NOTES = {}
TECHNIQUES = {}
