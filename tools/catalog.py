"""The properties, as written to properties.jsonl by gen.py."""
P = []


def prop(id, title, statement, over, quantifier, tests, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quantifier),
                  why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))


A = "include/ieompp/algebra/"
RS = "include/ieompp/models/hubbard_real_space/"
MS = "include/ieompp/models/hubbard_momentum_space/"

prop("C01", "Hermitian conjugation is an involution that reverses products",
     "Conjugating an operator, a product of operators or a term turns creators into annihilators and back, keeps every "
     "index, reverses the order of the factors and complex-conjugates the prefactor, in place and as a copy alike. "
     "Conjugating twice gives the original back, the conjugate of a product is the reversed product of the conjugates, and "
     "two objects are reported as conjugates of each other exactly when one is the conjugate of the other.",
     ["inputs", "histories"],
     "every operator with one to four indices of any index type, every product of any length, every real or complex "
     "prefactor, in-place and copying form, applied any number of times",
     "The tests conjugate a few operators and one monomial; they never conjugate a term, never compare non-conjugates of "
     "equal length and never mix lengths, prefactor types and index counts.",
     [A + "operator/operator.hpp", A + "monomial/monomial.hpp", A + "term/term.hpp", "include/ieompp/types/number/complex.hpp"],
     [("operator conjugation", A + "operator/operator.hpp: conjugate, get_conjugate, is_conjugate"),
      ("monomial conjugation", A + "monomial/monomial.hpp: conjugate, get_conjugate, is_conjugate"),
      ("term conjugation", A + "term/term.hpp: conjugate, get_conjugate")],
     observe=["the operators and prefactor of the conjugated object"])

prop("C02", "Operators and terms: equality is exact and the order is total",
     "Two operators are equal exactly when both create or both annihilate and all their indices agree; the order puts "
     "creators before annihilators and then compares the indices lexicographically, and less-than and greater-than are "
     "exact mirrors of each other and consistent with equality. Terms are ordered by number of operators, then operator by "
     "operator, and the factories and index accessors return the operator and the indices they were given.",
     ["inputs"],
     "every pair and triple of operators with one to four indices of any types, and of operator products",
     "The tests compare a few hand-picked operators; antisymmetry and transitivity over triples, operators with three or "
     "more indices and term order are never tested.",
     [A + "operator/operator.hpp", A + "operator/order.hpp", A + "operator/get_index.hpp", A + "operator/make.hpp", A + "term/order.hpp",
      A + "monomial/monomial.hpp", A + "term/term.hpp"],
     [("equality", A + "operator/operator.hpp: operator==, operator!=, same_indices"),
      ("order", A + "operator/order.hpp: OperatorSmaller, OperatorGreater; " + A + "term/order.hpp: TermSmaller, TermGreater"),
      ("access", A + "operator/get_index.hpp; " + A + "operator/make.hpp")],
     observe=["results of the comparisons and accessors"])

prop("C03", "Commutators of concrete operator products are exact in Fock space",
     "For any two products of fermionic operators with concrete indices, at least one of them of even length, the terms "
     "appended by the commutator add up, as an operator on Fock space and including prefactors and signs, to AB - BA. "
     "Results are appended to what the result container already holds, even if the arguments are elements of it, and the "
     "arguments are not changed. Two operators are said to anticommute exactly if they are of the same kind or differ in an "
     "index.",
     ["inputs"],
     "every pair of operator products of any lengths (one of them even) over any set of modes, with any integer, real or "
     "complex prefactors",
     "No test calls the commutator at all; signs depend on both lengths and on both positions, and repeated operators "
     "matter only in products the examples do not use.",
     [A + "commutator.hpp", A + "anticommutator.hpp"],
     [("commutator expansion", A + "commutator.hpp: commutate"),
      ("elementary anticommutators", A + "anticommutator.hpp: anticommutates, anticommutator")],
     observe=["terms appended to the result container"])

prop("C04", "Symbolic commutators agree with every substitution of concrete indices",
     "When operators carry symbolic indices, substituting concrete values for the symbols in the resulting terms, with each "
     "Kronecker delta evaluated to one or zero, gives exactly the commutator of the substituted operators. This holds for "
     "every substitution, whether or not it makes different symbols equal, and for operators that mix symbolic and concrete "
     "indices. Two operators are said to anticommute exactly if they do so under every substitution.",
     ["inputs"],
     "every pair of products with symbolic indices (one, two or three indices, some of them concrete) and every assignment "
     "of values to the symbols",
     "No test covers the symbolic commutator; the two example programs print a fixed set of commutators that nobody compares "
     "with anything.",
     [A + "commutator.hpp", A + "anticommutator.hpp", A + "kronecker.hpp", A + "operator/is_symbolic.hpp", "include/ieompp/symbolic/prefactor.hpp"],
     [("symbolic anticommutator", A + "anticommutator.hpp: AnticommutatesHelper, AnticommutatorHelper"),
      ("Kronecker creation", A + "kronecker.hpp: make_kronecker"),
      ("prefactor product", "include/ieompp/symbolic/prefactor.hpp: operator*=")],
     observe=["prefactor, Kronecker deltas and operators of the resulting terms"])

prop("C05", "Kronecker deltas are symmetric and ordering them is canonical",
     "A Kronecker delta does not depend on the order of its two indices, neither in comparisons nor after ordering. Ordering "
     "the deltas of a prefactor keeps their number and meaning and the value, orders the indices within each delta, sorts the "
     "deltas lexicographically, and gives the same list for every initial arrangement of the same deltas.",
     ["inputs"],
     "every list of Kronecker deltas of any length over any index names, in any arrangement",
     "No test touches Kronecker deltas or symbolic prefactors; a comparison that is no strict weak order only misbehaves for "
     "particular lists and lengths.",
     [A + "kronecker.hpp", "include/ieompp/symbolic/prefactor.hpp"],
     [("delta order", A + "kronecker.hpp: order, operator=="),
      ("list order", "include/ieompp/symbolic/prefactor.hpp: order_kroneckers")],
     observe=["the list of deltas after ordering"])

prop("C06", "Collecting like terms preserves the sum and leaves no duplicates",
     "Collecting a sequence of terms yields terms sorted by the term order in which every operator product of the input "
     "occurs exactly once, with the sum of the prefactors of the equal products in the input (also when that is zero). The input is not changed, and the "
     "result is appended to what the result container holds.",
     ["inputs", "histories"],
     "every sequence of terms over any operators, in any order and with any multiplicities and prefactors",
     "No test collects terms; merging goes wrong only for particular orders and multiplicities.",
     [A + "term/list.hpp", A + "term/order.hpp", A + "term/term.hpp"],
     [("collection", A + "term/list.hpp: copy_as_unique_terms"), ("order", A + "term/order.hpp: TermSmaller")],
     observe=["the result container"])

prop("C07", "Products concatenate operators and multiply prefactors in any history",
     "Multiplying products of operators, terms or symbolic prefactors, in place or not, by another object or by themselves, "
     "appends the right factor's operators and deltas in order and multiplies the values; the right factor is unchanged "
     "unless it is the left factor itself. Equality of products holds exactly for equal sequences, and multiplication is "
     "associative.",
     ["histories", "inputs"],
     "every history of multiplications, self-multiplications, copies and conjugations of any objects",
     "The tests multiply two monomials once; they never multiply an object with itself, never chain, and never multiply terms "
     "or symbolic prefactors.",
     [A + "monomial/monomial.hpp", A + "term/term.hpp", "include/ieompp/symbolic/prefactor.hpp"],
     [("monomial product", A + "monomial/monomial.hpp: operator*=, operator*"),
      ("term product", A + "term/term.hpp: operator*=, operator*"),
      ("prefactor product", "include/ieompp/symbolic/prefactor.hpp: operator*=, operator*")],
     observe=["operators, deltas and values after each step"])

prop("C08", "Particle number, spin and momentum balances are additive and conserved",
     "The net number of created particles, the net spin and the net momentum of a term are the sums of the contributions of "
     "its operators: they add up under multiplication and change sign under conjugation. Every term of a commutator of two "
     "terms has exactly the sum of their net particle number, net spin and net momentum.",
     ["inputs"],
     "every term of any length over site and spin indices, and every commutator of two such terms",
     "No test calls the balance functions.",
     [A + "term/checks.hpp", A + "commutator.hpp"],
     [("balances", A + "term/checks.hpp: total_creations, total_spin, total_momentum")],
     observe=["returned balances"])

prop("C09", "Integer iterators obey the laws of random access iterators",
     "An integer iterator behaves as a random access iterator over consecutive integers: advancing, stepping back, prefix and "
     "postfix forms, offsets from either side, differences, subscripts, comparisons and swaps agree with integer arithmetic. "
     "This holds after any sequence of such operations and for every integer type.",
     ["histories", "inputs"],
     "every sequence of iterator operations on any integer type, for constant and mutable iterators",
     "The tests only use the iterators through range-based for loops, which need prefix increment and comparison alone.",
     ["include/ieompp/iterators/integer_iterator.hpp"],
     [("iterator operations", "include/ieompp/iterators/integer_iterator.hpp: IntegerIterator")],
     [("value", "the integer the iterator points at", "include/ieompp/iterators/integer_iterator.hpp")],
     ["dereferenced values, differences and comparisons"])

prop("C10", "Periodic chain: neighbours, distances and extents form a ring",
     "On a periodic chain of any size, the neighbours of a site are its predecessor and successor on the ring, the unique "
     "neighbours list each bond once, the lattice distance is the shortest way around the ring, and two sites are neighbouring "
     "exactly when they are one step apart. Iteration visits every site once in order, and size, extents, spacing and lattice "
     "vector agree with the construction in real and in momentum space.",
     ["inputs", "configurations"],
     "every chain size, every pair of sites, every floating point and index type, real and momentum space",
     "The tests use one chain size and check the neighbours of its sites; distances, the neighbouring predicate and other "
     "sizes, odd, small or large, are not covered.",
     ["include/ieompp/lattices/periodic_chain.hpp"],
     [("ring topology", "include/ieompp/lattices/periodic_chain.hpp: neighbors, unique_neighbors, neighboring, lattice_distance"),
      ("extents", "include/ieompp/lattices/periodic_chain.hpp: constructors and accessors")],
     observe=["returned site indices and extents"])

prop("C11", "Periodic square lattice: indices, neighbours and distances form a torus",
     "On a periodic Nx by Ny lattice, also when Nx and Ny differ, the map between site index and coordinates is a bijection, "
     "the neighbours of a site are the four sites one step away on the torus, the unique neighbours list each bond once, and "
     "the distances along x and y are the shortest ways around. Two sites are neighbouring exactly when they are one step apart "
     "along one axis, and iteration, extents, spacings and lattice vectors agree with the construction.",
     ["inputs", "configurations"],
     "every pair of sizes Nx, Ny, every pair of sites, every floating point and index type, real and momentum space",
     "The tests of this class need a library that is absent here and are not run; they use one lattice.",
     ["include/ieompp/lattices/periodic_square_lattice.hpp"],
     [("torus topology", "include/ieompp/lattices/periodic_square_lattice.hpp: index, x_index, y_index, neighbors, unique_neighbors, neighboring, lattice_distance_x, lattice_distance_y"),
      ("extents", "include/ieompp/lattices/periodic_square_lattice.hpp: constructors and accessors")],
     observe=["returned site indices and extents"])

prop("C12", "Sites and positions convert into each other, across periodic images",
     "The position of a site maps back to that site, and so does any position displaced from it by less than half a lattice "
     "spacing along each axis and by any whole number of periods. The nearest-site search returns the same site as the direct "
     "conversion, in real and momentum space, on chains and on square lattices.",
     ["inputs", "configurations"],
     "every lattice size and spacing, every site, every displacement below half a spacing, every number of periods, every "
     "floating point type",
     "The tests probe a handful of positions near the ends of one real space lattice; the momentum space boundary, other sizes "
     "and images several periods away are not covered.",
     ["include/ieompp/lattices/periodic_chain.hpp", "include/ieompp/lattices/periodic_square_lattice.hpp"],
     [("position of a site", "include/ieompp/lattices/*.hpp: operator[]"), ("site of a position", "include/ieompp/lattices/*.hpp: operator(), closest")],
     observe=["returned site indices"])

prop("C13", "The tight-binding dispersion is -2J times the sum of cosines for every momentum",
     "For every momentum of the discretised Brillouin zone, the tabulated dispersion equals -2J times the sum over the lattice "
     "vectors of the cosine of momentum times lattice vector, for any hopping J, lattice spacing, size and dimension. It does "
     "not depend on other tables built before, and the one-dimensional Fermi momentum is the filling factor times pi.",
     ["inputs", "configurations", "histories"],
     "every Brillouin zone size, spacing, J, filling factor and floating point type, on chains and square lattices",
     "The tests check one chain with J = 1; the two-dimensional test is not run here.",
     ["include/ieompp/models/hubbard/dispersion.hpp"],
     [("dispersion table", "include/ieompp/models/hubbard/dispersion.hpp: Dispersion, make_dispersion, calculate_fermi_momentum_1d"),
      ("dot product", "include/ieompp/types/dot_product.hpp; include/ieompp/types/blaze/dot_product.hpp")],
     observe=["tabulated energies"])

prop("C14", "Momentum space operator basis: complete, indexed and momentum conserving",
     "For every Brillouin zone size and every total momentum, the three-operator basis in momentum space starts with the single "
     "creator of that momentum and then holds, once for each pair of the first two momenta and at the advertised index, the "
     "product of two creators and one annihilator with the right spins whose momenta add up to the total momentum modulo a "
     "reciprocal lattice vector. Conjugating the basis conjugates each element in place and as a copy.",
     ["inputs", "configurations"],
     "every Brillouin zone size, even or odd, every total momentum, chains and square lattices",
     "The tests look at one basis of one size.",
     [MS + "basis.hpp"],
     [("basis construction", MS + "basis.hpp: Basis3Operator"), ("index map", MS + "basis.hpp: get_3op_index")],
     observe=["basis elements and indices"])

prop("C15", "Real space operator bases: complete, indexed and conjugable",
     "For every lattice the one-operator basis holds the spin-up creator of each site in order, and the three-operator basis "
     "holds these followed by every combination of spin-up creator, spin-down creator and spin-down annihilator exactly once, "
     "at the index the index function advertises. The conjugate basis holds the conjugate of each element at the same index and "
     "leaves the original unchanged.",
     ["inputs", "configurations"],
     "every lattice size, chains and square lattices, every triple of sites",
     "The tests enumerate one small chain.",
     [RS + "basis.hpp"],
     [("basis construction", RS + "basis.hpp: Basis1Operator, Basis3Operator"), ("index map", RS + "basis.hpp: get_3op_index"),
      ("conjugation", RS + "basis.hpp: get_conjugate")],
     observe=["basis elements and indices"])

prop("C16", "Operators act on the excited Fermi sea as on occupation numbers",
     "Starting from the Fermi sea of any dispersion and Fermi energy, any sequence of creation and annihilation operators, "
     "applied singly or as products from right to left, leaves the state exactly as the occupation numbers say: it vanishes, "
     "and stays vanished, as soon as an occupied mode is created or an empty one annihilated, and otherwise the lists of created "
     "and annihilated particles are the sorted differences to the initial sea. The state is reported as the initial Fermi sea "
     "exactly when it has not vanished and every occupation number is back at its initial value.",
     ["histories", "inputs", "configurations"],
     "every sequence of operators on any set of momenta and both spins, every dispersion and Fermi energy",
     "The tests apply single operators to one sea; sequences that create, annihilate and restore the same modes in different "
     "orders are not covered.",
     [MS + "excited_fermi_sea.hpp"],
     [("state transitions", MS + "excited_fermi_sea.hpp: apply_monomial, apply_operator, create_particle, annihilate_particle")],
     [("created_particles", "modes occupied now and empty in the sea", MS + "excited_fermi_sea.hpp"),
      ("annihilated_particles", "modes empty now and occupied in the sea", MS + "excited_fermi_sea.hpp"),
      ("vanishes", "the state is zero", MS + "excited_fermi_sea.hpp")],
     ["lists of created and annihilated particles, vanishing flag"])

prop("C17", "Non-vanishing expectation values: exactly the contributing pairs, each once",
     "For every pair of basis operators the table of non-vanishing Fermi sea expectation values has exactly one entry if one of "
     "the operator products in the normal-ordered pair, with weights 2 per three-operator factor and 1 per Kronecker delta, maps "
     "the Fermi sea back to itself, and none otherwise. The entry's value is the sum of the weights of the contributing products, "
     "and sorting the table orders it by left, then right index without changing its entries.",
     ["inputs", "configurations"],
     "every Brillouin zone size, total momentum, dispersion and Fermi energy, every pair of basis operators",
     "The test looks at one basis with three momenta.",
     [MS + "non_vanishing_expectation_values.hpp", MS + "excited_fermi_sea.hpp", MS + "basis.hpp"],
     [("pair table", MS + "non_vanishing_expectation_values.hpp: NonVanishingExpectationValues"), ("sorting", MS + "non_vanishing_expectation_values.hpp: sort")],
     observe=["entries of the table"])

prop("C18", "Momentum space Liouvillian matrix is the exact projection of the commutator",
     "The matrix of the Hubbard Liouvillian in the momentum space basis holds, for every pair of basis elements, the overlap of "
     "the commutator of the Hamiltonian with one element and the other element, with its normal ordering: energies and half the "
     "interaction on the diagonal, the interaction coupling between the single creator and the three-operator products, and "
     "nothing else. A matrix that is filled again holds nothing of its previous content."
     " The matrix is filled row by row and needs no more elements than are reserved for it.",
     ["inputs", "configurations", "histories"],
     "every Brillouin zone size, total momentum, hopping and interaction strength",
     "No test builds a matrix; the code needs a library that is absent here.",
     [MS + "blaze_sparse.hpp", MS + "liouvillian.hpp"],
     [("matrix assembly", MS + "blaze_sparse.hpp: init_matrix"), ("Liouvillian", MS + "liouvillian.hpp: make_liouvillian")],
     observe=["stored matrix elements"])

prop("C19", "Momentum space particle number is the quadratic form of its expectation values",
     "For every coefficient vector the particle number observable equals the sum over the tabulated non-vanishing expectation "
     "values of value times left coefficient times conjugated right coefficient, and is real. It depends on nothing but the "
     "vector it is given, whatever was evaluated before.",
     ["inputs", "histories"],
     "every coefficient vector, basis size, total momentum and Fermi energy, any sequence of evaluations",
     "The test of this observable needs an absent library and is not run here.",
     [MS + "particle_number.hpp", "include/ieompp/types/number/complex.hpp"],
     [("quadratic form", MS + "particle_number.hpp: ParticleNumber::operator()"), ("conjugate product", "include/ieompp/types/number/complex.hpp: multiply_with_conjugate")],
     observe=["returned number"])

prop("C20", "Real space Liouvillian matrix is the exact projection of the commutator",
     "The matrix of the Hubbard Liouvillian in the three-operator real space basis holds, for every pair of basis elements, the "
     "overlap of the commutator of the Hamiltonian with one element and the other element: hopping between neighbouring sites "
     "for each of the operators with its sign, half the interaction on the diagonal and between a creator and the local "
     "three-operator product. It is real symmetric, holds one element per row and column even where neighbours coincide, and "
     "keeps nothing of the matrix's previous content."
     " The matrix is filled row by row and needs no more elements than are reserved for it.",
     ["inputs", "configurations", "histories"],
     "every chain and square lattice size, hopping and interaction strength",
     "No test builds a matrix; the code needs a library that is absent here.",
     [RS + "blaze_sparse.hpp", RS + "liouvillian.hpp"],
     [("matrix assembly", RS + "blaze_sparse.hpp: init_matrix")],
     observe=["stored matrix elements"])

prop("C21", "The kinetic matrix hops between neighbours with amplitude -J only",
     "The kinetic matrix in the one-operator basis, in the plain and in the normal-ordered variant, has -J times the number of "
     "bonds between two sites as its element for these sites and nothing else, for every lattice. Each row is stored sorted with "
     "one element per column."
     " The matrix is filled row by row and needs no more elements than are reserved for it.",
     ["inputs", "configurations"],
     "every chain and square lattice size and every hopping strength",
     "No test builds a matrix; the code needs a library that is absent here.",
     [RS + "blaze_sparse.hpp", RS + "blaze_sparse_no.hpp"],
     [("matrix assembly", RS + "blaze_sparse.hpp: init_kinetic_matrix; " + RS + "blaze_sparse_no.hpp: init_kinetic_matrix_no")],
     observe=["stored matrix elements"])

prop("C22", "Normal-ordered Liouvillian matrix agrees with Wick's theorem",
     "The matrix of the Hubbard Liouvillian for operators normal ordered with respect to given one-particle expectation values "
     "holds, for every row, the coefficients of the one- and three-operator products in the normal-ordered "
     "expansion of the commutator, contributions to the same column being added up. Hopping contributes with its sign for each "
     "operator, and each row is stored sorted with one element per column."
     " The matrix is filled row by row and needs no more elements than are reserved for it.",
     ["inputs", "configurations"],
     "every chain and square lattice size, hopping, interaction and every symmetric, translation invariant table of expectation values",
     "No test builds a matrix; the code needs a library that is absent here.",
     [RS + "blaze_sparse_no.hpp"],
     [("matrix assembly", RS + "blaze_sparse_no.hpp: init_matrix_no")],
     observe=["stored matrix elements"])

prop("C23", "Half-filled expectation values depend only on the periodic distance",
     "The one-particle expectation value between two sites equals the closed form of the infinite system at their shortest "
     "periodic distance: the filling factor at distance zero and sin(k_F d)/(pi d) on the chain, and the half-filled formula on "
     "the square lattice. It is symmetric, translation invariant on the ring or torus, and independent of other tables.",
     ["inputs", "configurations", "histories"],
     "every lattice size, even or odd, equal sides or not, spacing, filling factor and Fermi momentum, every pair of sites",
     "The tests check the chain formula for a few sizes; the two-dimensional test is not run here.",
     [RS + "expectation_value.hpp"],
     [("chain table", RS + "expectation_value.hpp: ExpectationValue1DHalfFilled"), ("square table", RS + "expectation_value.hpp: ExpectationValue2DHalfFilled")],
     observe=["returned expectation values"])

prop("C24", "Site occupation agrees with Wick's theorem for every coefficient vector",
     "The site occupation observable equals half the sum over all pairs of basis elements of left coefficient times conjugated "
     "right coefficient times the expectation value of the pair of normal-ordered operators by Wick's theorem, for one- and "
     "three-operator bases. The shortcut for inversion-symmetric systems gives the same result as the full sum, and repeated "
     "evaluation gives the same result.",
     ["inputs", "configurations", "histories"],
     "every lattice size, every symmetric table of expectation values, every coefficient vector, with and without the symmetry "
     "shortcut, any number of threads",
     "The test evaluates single expectation values on one chain; the sum over pairs is not covered.",
     [RS + "site_occupation.hpp", "include/ieompp/types/number/complex.hpp"],
     [("pair expectation values", RS + "site_occupation.hpp: expectation_value_1_1, _1_3, _3_1, _3_3, expectation_value"),
      ("quadratic form", RS + "site_occupation.hpp: operator()")],
     observe=["returned occupation and pair expectation values"])

prop("C25", "Fermi jump is the squared Fourier component of the normal-ordered coefficients",
     "The Fermi jump equals the squared modulus of the Fourier sum, at the given Fermi momentum, of the one-operator "
     "coefficients plus the three-operator coefficients contracted with twice the expectation value minus the Kronecker delta, "
     "in one and two dimensions; the observable of one-operator bases and the normal-ordered ones (with Fermi momentum pi/2) use "
     "the one-operator coefficients alone. Its result depends only on the coefficients passed in: not on earlier evaluations, nor "
     "on other lattices evaluated before.",
     ["inputs", "configurations", "histories"],
     "every lattice size, Fermi momentum, expectation value table and coefficient vector, any sequence of evaluations on "
     "observables of different sizes, any number of threads",
     "The test checks the Fourier coefficients of one chain; no test evaluates the observable.",
     [RS + "fermi_jump/1d.hpp", RS + "fermi_jump/2d.hpp", RS + "fermi_jump_no.hpp"],
     [("Fourier coefficients", RS + "fermi_jump/1d.hpp, 2d.hpp: constructors"), ("observable", RS + "fermi_jump/1d.hpp, 2d.hpp, ../fermi_jump_no.hpp: operator()")],
     observe=["Fourier coefficients and returned jump"])

prop("C26", "A Runge-Kutta step is the fourth-order Taylor polynomial of the exact flow",
     "For every linear system, one integration step multiplies the state by the Taylor polynomial of the exponential of step "
     "size times matrix through fourth order, for dense, sparse and function-defined matrices, with the vectors and matrices of Blaze and "
     "of Eigen. The matrix is not changed.",
     ["inputs", "configurations"],
     "every matrix, state, step size and dimension, dense, sparse or defined by a function",
     "No test runs the integrator; the code needs a library that is absent here.",
     ["include/ieompp/ode/rk4.hpp", "include/ieompp/types/multiply_assign.hpp", "include/ieompp/types/blaze/multiply_assign.hpp",
      "include/ieompp/types/eigen/multiply_assign.hpp", "include/ieompp/types/function_matrix.hpp"],
     [("step", "include/ieompp/ode/rk4.hpp: RK4::step"), ("function matrix product", "include/ieompp/types/blaze/multiply_assign.hpp: multiply_assign")],
     observe=["state after the step"])

prop("C27", "Integration steps do not depend on what was integrated before",
     "The result of an integration step depends only on matrix, state and step size: any interleaving of steps of several "
     "integrators of different dimensions, step sizes and matrix kinds gives each of them the trajectory it has alone. Applying "
     "a matrix to a vector likewise leaves nothing behind.",
     ["histories"],
     "every interleaving of the steps of any number of integrators and matrix products",
     "No test runs the integrator, let alone two of them in turn.",
     ["include/ieompp/ode/rk4.hpp", "include/ieompp/types/blaze/multiply_assign.hpp", "include/ieompp/types/eigen/multiply_assign.hpp"],
     [("work buffers", "include/ieompp/ode/rk4.hpp: static k_1..k_4; include/ieompp/types/blaze/multiply_assign.hpp: static temp")],
     [("work buffers", "kept between calls", "include/ieompp/ode/rk4.hpp")],
     ["state after each step"])

prop("C28", "Collecting matrix entries adds up duplicates and loses nothing",
     "Sorting the entries of a matrix row orders them by column and keeps every entry; merging a sorted list gives, in order, "
     "one entry for each column whose values do not add up to zero, holding the sum of that column's values. A list is reported "
     "free of duplicates exactly when no two adjacent entries share a column, and all of this includes empty lists and lists of "
     "one entry.",
     ["inputs"],
     "every list of entries of any length, with any columns, multiplicities and integer, real or complex values",
     "No test covers the entry lists.",
     ["include/ieompp/types/triplet.hpp"],
     [("merging", "include/ieompp/types/triplet.hpp: make_columns_unique"), ("sorting", "include/ieompp/types/triplet.hpp: sort"), ("duplicate test", "include/ieompp/types/triplet.hpp: has_unique_columns")],
     observe=["resulting list"])

prop("C29", "Matrix predicates decide symmetry, hermiticity, zero and equality exactly",
     "A matrix is reported square, symmetric, hermitian or zero exactly when it is, for real and complex dense, sparse and "
     "function-defined matrices of any size. Function-defined matrices return the function's values and compare equal to another "
     "matrix exactly when sizes and all elements agree.",
     ["inputs"],
     "every matrix of any shape over real or complex values, whichever single element breaks the predicate",
     "No test covers the predicates.",
     ["include/ieompp/types/matrix_check.hpp", "include/ieompp/types/function_matrix.hpp", "include/ieompp/types/matrix.hpp"],
     [("predicates", "include/ieompp/types/matrix_check.hpp: is_quadratic, is_symmetric, is_hermitian, IsZero"),
      ("function matrices", "include/ieompp/types/function_matrix.hpp: FunctionMatrix, is_symmetric, is_hermitian")],
     observe=["returned truth values"])

prop("C30", "Number helpers: conjugates, products and tolerant comparisons are exact",
     "Conjugation, the product with a conjugate and the sum of the two mixed conjugate products agree with complex arithmetic for "
     "every pair of numbers. Tolerant comparisons hold exactly when the deviation of each component is below machine epsilon plus "
     "the given tolerance, symmetrically and regardless of sign, and are exact for integers.",
     ["inputs"],
     "every pair of integer, real or complex numbers of any precision and every tolerance",
     "No test covers the number helpers.",
     ["include/ieompp/types/number/complex.hpp", "include/ieompp/types/number/is_equal.hpp", "include/ieompp/types/number/is_zero.hpp"],
     [("complex helpers", "include/ieompp/types/number/complex.hpp"), ("comparisons", "include/ieompp/types/number/is_equal.hpp, is_zero.hpp")],
     observe=["returned numbers and truth values"])

prop("C31", "Printed operators, products, terms and prefactors are unambiguous",
     "The printed form of an operator names its kind and all its indices in order, with spins as arrows; products print their "
     "operators in order separated by blanks, terms their prefactor before them, and symbolic prefactors their value and deltas, "
     "with a value of one left out and minus one printed as a sign. A symbolic index prints its name: r, k or sigma for position, "
     "momentum and spin, with a number if it has one, and indices are equal exactly if their names are. Different operators, products and terms therefore print "
     "differently, and printing does not change them.",
     ["inputs"],
     "every operator with one to four indices, every product, term and symbolic prefactor of any length",
     "The tests never print anything.",
     [A + "operator/io.hpp", A + "monomial/io.hpp", A + "term/io.hpp", A + "kronecker.hpp", "include/ieompp/symbolic/prefactor.hpp", "include/ieompp/symbolic/index.hpp"],
     [("operator output", A + "operator/io.hpp"), ("product and term output", A + "monomial/io.hpp; " + A + "term/io.hpp"),
      ("prefactor output", "include/ieompp/symbolic/prefactor.hpp: operator<<")],
     observe=["text written to the stream"])

prop("C32", "Reading lines skips exactly blank and comment lines and always ends",
     "Reading the next line of a text stream returns the first remaining line that is neither blank nor a comment, unchanged, and "
     "consumes nothing after it; a line counts as skippable exactly when it is empty, white space only, or has # as its first "
     "other character. At the end of the stream an empty line is returned.",
     ["inputs", "histories"],
     "every text, with or without a final line break, and every number of reads beyond its end",
     "No test reads lines.",
     ["include/ieompp/io/line.hpp"],
     [("line reader", "include/ieompp/io/line.hpp: next_line, is_skippable_line")],
     observe=["returned lines and stream position"])

prop("C33", "Checkpoints restore the state and cleaning keeps exactly the first entries",
     "A vector written to a checkpoint and read back is identical, whatever vectors were written before; successive checkpoints "
     "get successive numbers and record their time. Cleaning an output file keeps a backup of the old file, complete at every "
     "moment, and leaves the file with exactly its leading lines up to and including the requested number of data entries, comments and line breaks intact, "
     "or the whole file when it has fewer.",
     ["histories", "inputs", "crash_points"],
     "every sequence of checkpoints, every vector, every output file content (also cut off at any byte) and every number of "
     "entries",
     "No test writes a checkpoint or cleans a file; the code needs libraries that are absent here.",
     ["src/hubbard/include/checkpoint.hpp", "src/hubbard/include/common.hpp", "include/ieompp/io/line.hpp"],
     [("checkpoint files", "src/hubbard/include/checkpoint.hpp: write_checkpoint_file, read_checkpoint_file"), ("output cleaning", "src/hubbard/include/checkpoint.hpp: clean_output_file")],
     observe=["files on disk"])

prop("C34", "Program options survive the round trip through a response file",
     "A program started without a response file records every option with the value in effect, given or default, and a program "
     "started with that file runs with the same values. Options given on the command line take precedence over the response file, "
     "and the file takes precedence over defaults. A response file that cannot be read is refused before any file is written.",
     ["inputs", "configurations"],
     "every combination of options given on the command line, in the response file or not at all, and all values",
     "No test parses options; the code needs libraries that are absent here.",
     ["src/hubbard/include/cli.hpp", "src/hubbard/include/application.hpp"],
     [("option parsing", "src/hubbard/include/cli.hpp: parse_command_line_options"), ("response file", "src/hubbard/include/cli.hpp: read_response_file; src/hubbard/include/application.hpp: Application")],
     observe=["option values, response file, header of the output file"])

prop("C35", "Measurements are taken exactly when their interval has passed",
     "A measurement is due exactly when time has advanced since the last one by at least the requested number of steps, counted "
     "to the nearest step so that accumulated rounding never moves, drops or repeats a measurement. It is never due at or before "
     "the time of the last measurement.",
     ["histories", "inputs"],
     "every step width, measurement interval, number of steps and accumulated time",
     "No test covers the schedule; the code needs libraries that are absent here.",
     ["src/hubbard/include/common.hpp"],
     [("schedule", "src/hubbard/include/common.hpp: has_time_interval_passed")],
     observe=["steps at which a measurement is due"])

prop("C36", "Text and compile-time helpers report exactly what they are given",
     "Printing a tuple prints every element in order between the delimiters, composing a text concatenates all parts, and an "
     "exception carries file, line and message. The compile-time queries for symbolic indices, index types, Hubbard operators and "
     "number kinds answer correctly for every type, and constants have the precision of their type.",
     ["inputs", "programs"],
     "every tuple of any size and delimiters, every list of parts, every operator type with one to four indices",
     "No test covers these helpers.",
     ["include/ieompp/tuple.hpp", "include/ieompp/string.hpp", "include/ieompp/exception.hpp", "include/ieompp/io/exception.hpp", "include/ieompp/types/names.hpp",
      "include/ieompp/types/blaze/traits.hpp", A + "operator.hpp", A + "operator/is_symbolic.hpp",
      "include/ieompp/models/hubbard/operator_traits.hpp", "include/ieompp/constants.hpp", "include/ieompp/types/matrix.hpp"],
     [("tuple output", "include/ieompp/tuple.hpp: print_tuple"), ("text", "include/ieompp/string.hpp: compose; include/ieompp/exception.hpp"),
      ("type queries", A + "operator.hpp: HasIndexOfType; " + A + "operator/is_symbolic.hpp; include/ieompp/models/hubbard/operator_traits.hpp")],
     observe=["text written, query results"])

prop("C37", "Tables and bases come out the same for every number of threads and schedule",
     "Building the dispersion, the expectation value tables, conjugate bases and Fourier coefficients in parallel gives bit for "
     "bit the sequential result, for every number of threads and every interleaving of them. No two threads access the same "
     "memory without order, one of them writing.",
     ["schedules", "configurations"],
     "every team size and every interleaving of the threads' conflicting accesses and loop assignments",
     "The tests run with whatever schedule the machine happens to choose and compare with a tolerance.",
     ["include/ieompp/models/hubbard/dispersion.hpp", RS + "expectation_value.hpp", RS + "basis.hpp", MS + "basis.hpp", RS + "fermi_jump/1d.hpp", RS + "fermi_jump/2d.hpp", RS + "fermi_jump_no.hpp"],
     [("parallel loops", "#pragma omp in the files above")],
     observe=["tables after construction; memory accesses of the threads"])

prop("C38", "Observables and matrix products are the same for every number of threads",
     "Evaluating site occupation, Fermi jump and products with function-defined matrices in parallel gives the sequential result, "
     "up to the rounding of a reordered sum, for every number of threads and every interleaving and loop assignment. No two "
     "threads access the same memory without order, one of them writing.",
     ["schedules", "configurations"],
     "every team size and every interleaving of the threads' conflicting accesses and dynamic loop assignments",
     "The tests run with whatever schedule the machine happens to choose, and none evaluates these observables.",
     [RS + "site_occupation.hpp", RS + "fermi_jump/1d.hpp", RS + "fermi_jump/2d.hpp", RS + "fermi_jump_no.hpp", "include/ieompp/types/blaze/multiply_assign.hpp",
      "include/ieompp/types/eigen/multiply_assign.hpp"],
     [("parallel reductions", RS + "site_occupation.hpp: operator(); " + RS + "fermi_jump*: operator()"), ("parallel product", "include/ieompp/types/blaze/multiply_assign.hpp")],
     observe=["returned values; memory accesses of the threads"])

prop("C39", "The kinetic theory program tabulates the exact free evolution",
     "The program writes one line for each of its time steps with the time and the site occupation of the half-filled free chain, "
     "namely the sum over all pairs of sites of expectation value and Bessel function amplitudes with their phases; real and imaginary part "
     "agree with the formula at every step. The result does not depend on the number of threads.",
     ["configurations", "inputs", "schedules"],
     "every line of the table, every number of threads",
     "No test runs the program.",
     ["src/hubbard/hubbard_real_1d_kinetic_theory.cpp", RS + "expectation_value.hpp", "include/ieompp/lattices/periodic_chain.hpp"],
     [("amplitudes", "src/hubbard/hubbard_real_1d_kinetic_theory.cpp: minus_i_power, main"), ("parallel sum", "src/hubbard/hubbard_real_1d_kinetic_theory.cpp: results")],
     observe=["theory.txt"])

prop("C40", "The commutator programs print the Hubbard commutators correctly",
     "Every commutator printed by the real space and momentum space commutator programs, read back with its prefactor, deltas and "
     "operators, equals the commutator of the Hamiltonian terms with the basis operators named on it for every substitution of "
     "the symbols, stands under the heading that names it and has its deltas in lexicographic order. All Hamiltonian terms and both "
     "basis operators are covered, and the programs exit successfully.",
     ["programs", "inputs"],
     "every printed commutator and every assignment of sites or momenta to the symbols",
     "No test runs the programs.",
     ["src/hubbard/hubbard_commutators_real_space.cpp", "src/hubbard/hubbard_commutators_momentum_space.cpp", A + "commutator.hpp", A + "anticommutator.hpp", A + "term/io.hpp"],
     [("program output", "src/hubbard/hubbard_commutators_*.cpp")],
     observe=["standard output"])

prop("C41", "The dispersion program tabulates the band for the whole Brillouin zone",
     "The program writes, for each of the points of its Brillouin zone in order, the momentum and the energy -2J cos(k). The table "
     "is complete and the same for every number of threads.",
     ["configurations", "inputs"],
     "every line of the table, every number of threads",
     "No test runs the program.",
     ["src/hubbard/hubbard_dispersion_1d.cpp", "include/ieompp/models/hubbard/dispersion.hpp", "include/ieompp/lattices/periodic_chain.hpp"],
     [("table", "src/hubbard/hubbard_dispersion_1d.cpp")],
     observe=["dispersion.txt"])

prop("C42", "The simulation programs write the exact time evolution on schedule",
     "For every choice of sizes, couplings, step width, end time, measurement interval and filling, the time evolution programs "
     "write the observable, or the coefficients, at time zero and at each scheduled time through the end time, with the values of "
     "the fourth-order integration of the equations of motion from the single initial operator. The output starts with a header "
     "that records the options in effect.",
     ["configurations", "inputs", "histories"],
     "every combination of program options within the supported ranges, for each of the programs",
     "No test runs the programs; they need libraries that are absent here.",
     ["src/hubbard/hubbard_real_1d_rk4.cpp", "src/hubbard/hubbard_real_1d_rk4_jump.cpp", "src/hubbard/hubbard_real_1d_rk4_coefficients.cpp",
      "src/hubbard/hubbard_real_2d_rk4_jump.cpp", "src/hubbard/hubbard_real_1d_kinetic_rk4.cpp", "src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp",
      "src/hubbard/hubbard_momentum_1d_rk4.cpp", "src/hubbard/hubbard_trivial.cpp"],
     [("time loops", "src/hubbard/*.cpp: main"), ("setup helpers", "src/hubbard/real_space/*.hpp, momentum_space/*.hpp, include/*.hpp")],
     observe=["output files"])

prop("C43", "Every program reports its version, platform and options truthfully",
     "Version output, help output, log and header of a program name the program, the versions of the libraries, architecture, "
     "operating system, compiler, byte order, host and user of the machine it runs on, whatever the environment; a user that is not "
     "known is called unknown. The help lists every option once with its default, help and version leave no files behind, and a "
     "program built without OpenMP has a single thread numbered zero.",
     ["configurations", "histories"],
     "every environment and every sequence of queries and program starts",
     "No test calls the platform queries or starts a program.",
     ["include/ieompp/platform.hpp", "include/ieompp/openmp.hpp", "include/ieompp/types/blaze.hpp", "src/hubbard/include/application.hpp",
      "src/hubbard/include/logging.hpp", "src/hubbard/include/cli.hpp"],
     [("platform queries", "include/ieompp/platform.hpp: Platform"), ("header, help, version", "src/hubbard/include/application.hpp: Application"),
      ("threads without OpenMP", "include/ieompp/openmp.hpp")],
     observe=["standard output, output file, log file"])

prop("C44", "The log of a program run is complete and agrees with its output",
     "The log of a run records every option in effect, the number of lattice sites, the dimension of the vector, the number of "
     "non-zero matrix elements and their percentage, every integration step in order with its times, every measurement with the "
     "value that the output file has for it, and once the time in seconds that the run took, for any reading of the clock.",
     ["configurations", "histories"],
     "every combination of program options within the supported ranges, for each of the programs",
     "No test runs the programs; they need libraries that are absent here.",
     ["src/hubbard/include/logging.hpp", "src/hubbard/include/application.hpp", "src/hubbard/include/application_timer.hpp", "src/hubbard/include/vector.hpp", "src/hubbard/real_space/periodic_chain.hpp",
      "src/hubbard/real_space/periodic_square_lattice.hpp", "src/hubbard/real_space/matrix.hpp", "src/hubbard/hubbard_real_1d_rk4.cpp",
      "src/hubbard/hubbard_real_1d_rk4_jump.cpp", "src/hubbard/hubbard_real_2d_rk4_jump.cpp"],
     [("records", "src/hubbard/include/*.hpp, src/hubbard/real_space/*.hpp: get_loggers()"), ("steps and measurements", "src/hubbard/*.cpp: main")],
     observe=["log file, output file"])

prop("C45", "The programs' set-up helpers build exactly the objects asked for",
     "For every lattice size, coupling and filling the set-up helpers return the lattice of that size and spacing, its operator "
     "basis, the unit vector of the first basis element, an integrator with that step width and dimension, the expectation values and "
     "observables for that filling, the Liouvillian with these couplings, and its matrix times the imaginary unit, "
     "independent of earlier set-ups. A matrix file holds exactly the matrix it was last given.",
     ["inputs", "configurations", "histories"],
     "every lattice size, coupling, filling and step width, every sparse matrix and every earlier set-up or file",
     "No test builds a program's set-up; the helpers need libraries that are absent here.",
     ["src/hubbard/real_space/" + f + ".hpp" for f in ("basis1", "basis3", "expectation_value_1d", "expectation_value_2d", "fermi_jump", "fermi_jump_no",
      "liouvillian", "matrix", "matrix_no", "periodic_chain", "periodic_square_lattice", "site_occupation")]
     + ["src/hubbard/momentum_space/momentum_space.hpp", "src/hubbard/momentum_space/momentum_space_1d.hpp", "src/hubbard/include/rk4.hpp",
        "src/hubbard/include/vector.hpp", "src/hubbard/include/common.hpp"],
     [("set-up helpers", "src/hubbard/real_space/*.hpp, momentum_space/*.hpp, include/rk4.hpp, include/vector.hpp: init_*, compute_*"),
      ("matrix file", "src/hubbard/include/common.hpp: write_matrix_file")],
     observe=["the objects returned, the matrix file"])

prop("C46", "Vector and matrix adapters calculate exactly and leave no traces",
     "The scalar product of two numbers or vectors is the sum of the products of their components; inserting an element into a sparse "
     "matrix stores it at its row and column and changes no other; multiplying a vector in place gives the product of matrix and "
     "vector. A printed matrix has a line for each row with every element, and the stream prints afterwards as it did before.",
     ["inputs", "histories"],
     "every pair of numbers or vectors, every sequence of insertions, every matrix and vector, every state of the stream",
     "No test covers the adapters.",
     ["include/ieompp/types/dot_product.hpp", "include/ieompp/types/blaze/dot_product.hpp", "include/ieompp/types/blaze/matrix_insert.hpp",
      "include/ieompp/types/multiply_assign.hpp", "include/ieompp/types/blaze/multiply_assign.hpp", "include/ieompp/types/function_matrix.hpp"],
     [("scalar products", "include/ieompp/types/dot_product.hpp, blaze/dot_product.hpp"), ("insertion", "include/ieompp/types/blaze/matrix_insert.hpp"),
      ("products in place", "include/ieompp/types/multiply_assign.hpp, blaze/multiply_assign.hpp"), ("output", "include/ieompp/types/function_matrix.hpp: operator<<")],
     observe=["returned numbers, vectors, matrix elements, printed text"])

prop("C47", "The version header follows the state of the repository",
     "After the configuration script has run, the version header compiles, also when included twice, and its version is what git says "
     "about the repository: the nearest annotated tag, the number of commits since and the commit, marked as dirty exactly if tracked "
     "files are changed, and 0.0.0-unknown if there is no repository, no such tag or no git. This holds whatever was left of an earlier "
     "header, complete or not. A header that is up to date is not written again, and no other file is touched.",
     ["histories", "crash points"],
     "every history of commits, tags, changes and earlier runs, and every partly written header",
     "No test runs the script; the build runs it once in one state.",
     ["tools/configure.py"],
     [("version header", "tools/configure.py")],
     state=[("version header", "the version programs report", "include/ieompp/version.hpp")],
     observe=["the header, its time of modification, other files"])

prop("C48", "The header tools report and repair exactly the faulty headers",
     "The include guard tool names exactly the headers below include/ieompp whose guard is missing, inconsistent or not the one that "
     "belongs to their path, and fails exactly if there is one, without changing a file. The include style tool turns every include of an "
     "own header in angle brackets into one in quotes and leaves every other line and file as it was, so that a second run changes "
     "nothing. The line counter counts the lines of all source files and headers per directory and in total.",
     ["inputs"],
     "every set of headers and sources with any content",
     "The tools have no tests.",
     ["tools/include-guards.py", "tools/include-style.py", "tools/loc.py"],
     [("include guards", "tools/include-guards.py"), ("include style", "tools/include-style.py"), ("line counter", "tools/loc.py")],
     observe=["exit status, printed reports, contents of the files"])

prop("C49", "Matrices and vectors of the Eigen library keep every element in its place",
     "A dense or sparse matrix initialised from a function has the size asked for and the function's value at every row and column, "
     "whatever it held before; symmetric initialisation gives both halves. Writing a sparse matrix lists each stored element once with "
     "row, column and value; reading size, count and elements in any order, with comments and blank lines between, gives that matrix, and "
     "a size line or an element that is missing or malformed is refused with an exception. Scalar products and products "
     "with function-defined matrices equal their definition whatever was computed before, and the type queries tell matrices, row and column vectors apart.",
     ["inputs", "histories"],
     "every matrix, function, text and vector, every sequence of products",
     "No test includes the Eigen headers.",
     ["include/ieompp/types/eigen.hpp", "include/ieompp/types/eigen/init.hpp", "include/ieompp/types/eigen/traits.hpp", "include/ieompp/types/eigen/dot_product.hpp",
      "include/ieompp/types/eigen/multiply_assign.hpp", "include/ieompp/io/eigen/sparse.hpp"],
     [("initialisation", "include/ieompp/types/eigen/init.hpp: init, init_symmetric"), ("text", "include/ieompp/io/eigen/sparse.hpp: write_matrix, read_matrix"),
      ("products", "include/ieompp/types/eigen/dot_product.hpp, multiply_assign.hpp"), ("type queries", "include/ieompp/types/eigen/traits.hpp")],
     observe=["elements and sizes, written text, exceptions, returned numbers"])

prop("C50", "A simulation stopped at any moment keeps what it measured and can be repeated",
     "At every moment of a run the output file on disk is the beginning of that of the complete run, and it holds every measurement "
     "made before the integration step that was last finished; the other files of the run are complete by then. Starting the program again "
     "with the same options over what a stopped run, or an earlier run with other options, left gives the files of an undisturbed run.",
     ["crash_points", "histories"],
     "every point at which the process can end in a run with any program options, for each of the simulation programs",
     "No test runs the programs, let alone stops one.",
     ["src/hubbard/hubbard_real_1d_rk4.cpp", "src/hubbard/hubbard_real_1d_rk4_jump.cpp", "src/hubbard/hubbard_real_1d_rk4_coefficients.cpp",
      "src/hubbard/hubbard_real_1d_kinetic_rk4.cpp", "src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp", "src/hubbard/hubbard_real_2d_rk4_jump.cpp",
      "src/hubbard/include/application.hpp", "src/hubbard/include/common.hpp"],
     [("measurements", "src/hubbard/hubbard_real_1d_rk4.cpp: main"), ("files", "src/hubbard/include/application.hpp: Application"),
      ("matrix file", "src/hubbard/include/common.hpp: write_matrix_file")],
     observe=["files on disk at the moment the process ends, files after a new start"])

prop("C51", "The tools reach every file, lose none and unpack nothing unverified",
     "The formatting tool replaces exactly the .cpp and .hpp files below include/ieompp, src and tests by what the formatter makes of them; "
     "if the formatter fails or is missing, the tool and the commit hook fail and every file holds its old text or the formatted one. The checking "
     "tools hand every source below src to their checker exactly once with the options of the project, also if one check fails, and change "
     "nothing themselves. The fetching tool unpacks the Eigen archive, and succeeds, only if the checksum was computed and is the expected "
     "one, downloads it only if it is missing, and fails if any step fails; the copy to the memory disk is made only if there is one.",
     ["crash_points", "histories", "inputs"],
     "every tree of files and contents, every call of another program that can fail, every history of runs",
     "The tools have no tests, and what matters is what happens when the program they run fails.",
     ["tools/clang-format.py", "tools/clang-tidy.py", "tools/include-what-you-use.py", "tools/get_external.sh", "tools/sync-ramdisk.sh",
      "tools/pre-commit-hook.sh"],
     [("formatting", "tools/clang-format.py"), ("checkers", "tools/clang-tidy.py"), ("fetching", "tools/get_external.sh"),
      ("hook", "tools/pre-commit-hook.sh")],
     observe=["calls of the other programs, exit status, contents of the files"])

prop("C52", "Objects that are only read can be used by several threads at once",
     "Querying one lattice, basis, dispersion, expectation value table, observable or function-defined matrix, through its const "
     "functions, from several threads gives every thread what it gets alone, under every interleaving, inside a parallel region as well as "
     "outside. The same holds for algebraic, text and matrix set-up computations on separate results from shared inputs. No two threads access the "
     "same memory without order, one of them writing.",
     ["schedules", "configurations"],
     "every team size of the bound and every interleaving of the threads' conflicting accesses",
     "No test uses an object from more than one thread, though the library's own loops do.",
     ["include/ieompp/lattices/periodic_chain.hpp", "include/ieompp/lattices/periodic_square_lattice.hpp", "include/ieompp/models/hubbard/dispersion.hpp",
      RS + "expectation_value.hpp", RS + "site_occupation.hpp", RS + "fermi_jump/1d.hpp", RS + "fermi_jump/2d.hpp", RS + "fermi_jump_no.hpp", RS + "basis.hpp",
      RS + "blaze_sparse.hpp", RS + "blaze_sparse_no.hpp", MS + "particle_number.hpp", MS + "basis.hpp", MS + "excited_fermi_sea.hpp",
      A + "commutator.hpp", A + "term/list.hpp", A + "operator/io.hpp", "include/ieompp/types/eigen/init.hpp", "include/ieompp/io/eigen/sparse.hpp"],
     [("shared queries", RS + "site_occupation.hpp: operator(); " + MS + "particle_number.hpp: operator(); lattices: const functions"),
      ("shared inputs", RS + "blaze_sparse_no.hpp: init_matrix_no; " + A + "commutator.hpp: commutate")],
     observe=["returned values of every thread; memory accesses of the threads"])

prop("C53", "A computation that is aborted half way leaves nothing behind",
     "If a function of the caller (matrix elements, expectation values, energies) throws while the library computes with it, or memory runs out, "
     "in a build without OpenMP, the exception reaches the caller, what was passed to be read is as before, the vector of an integration "
     "step or product with a function-defined matrix is as before if the caller's function threw, the same computation started again gives what it gives "
     "without the failure, and no memory is lost. This holds for integration steps, products and predicates of matrices, the algebra, "
     "bases, tables, matrix set-up and observables.",
     ["crash_points", "histories", "inputs"],
     "every call of the caller's function and every allocation in a computation as the point of failure",
     "No test lets an element function throw or an allocation fail, let alone computes again afterwards, though the library keeps buffers between calls.",
     ["include/ieompp/ode/rk4.hpp", "include/ieompp/types/blaze/multiply_assign.hpp", "include/ieompp/types/eigen/multiply_assign.hpp",
      "include/ieompp/types/function_matrix.hpp", "include/ieompp/types/eigen/init.hpp", "include/ieompp/types/triplet.hpp", A + "commutator.hpp",
      A + "term/list.hpp", RS + "basis.hpp", MS + "basis.hpp", RS + "blaze_sparse.hpp", RS + "blaze_sparse_no.hpp", MS + "blaze_sparse.hpp",
      RS + "site_occupation.hpp", RS + "fermi_jump/1d.hpp", RS + "fermi_jump/2d.hpp", RS + "fermi_jump_no.hpp", MS + "particle_number.hpp"],
     [("kept buffers", "include/ieompp/ode/rk4.hpp: RK4::step; include/ieompp/types/blaze/multiply_assign.hpp: multiply_assign"),
      ("set-up", RS + "blaze_sparse.hpp: init_matrix"), ("observables", RS + "site_occupation.hpp: operator(); " + MS + "particle_number.hpp: operator()")],
     observe=["inputs after the exception, results of the repeated computation, memory in use"])

prop("C54", "What cannot be written or read is reported",
     "If a file cannot be opened, written, read, closed or renamed (full disk, quota, permissions, input or output error, also half way through "
     "a write), then a simulation or table program ends with a status other than zero, and the helpers for checkpoints, output files, matrix "
     "files and response files throw, unless every file is complete all the same. What is in the output file then is the beginning of the output "
     "of an undisturbed run, earlier checkpoints and the entries of a cleaned file are still on disk, and the same run made again writes what "
     "an undisturbed run does. Transfers that the system does in parts or interrupts are completed.",
     ["crash_points", "inputs", "configurations"],
     "every file operation (of the output, response, matrix and checkpoint files) of a run as the point of failure, for every kind of failure",
     "No test makes a file operation fail; results of long runs would be lost without a word.",
     ["src/hubbard/include/application.hpp", "src/hubbard/include/common.hpp", "src/hubbard/include/checkpoint.hpp", "src/hubbard/include/cli.hpp",
      "src/hubbard/hubbard_trivial.cpp", "src/hubbard/hubbard_dispersion_1d.cpp", "src/hubbard/hubbard_real_1d_kinetic_theory.cpp",
      "src/hubbard/hubbard_real_1d_rk4.cpp", "src/hubbard/hubbard_real_1d_rk4_jump.cpp", "src/hubbard/hubbard_real_1d_rk4_coefficients.cpp",
      "src/hubbard/hubbard_real_1d_kinetic_rk4.cpp", "src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp", "src/hubbard/hubbard_real_2d_rk4_jump.cpp"],
     [("output", "src/hubbard/include/application.hpp: Application"), ("matrix file", "src/hubbard/include/common.hpp: write_matrix_file"),
      ("checkpoints", "src/hubbard/include/checkpoint.hpp: write_checkpoint_file, clean_output_file")],
     observe=["exit status or exception, files on disk, files after a new run"])

prop("C55", "Results have the precision of the number type they are computed in",
     "For float, double and long double (and complex numbers of these, where prefactors or matrix elements may be complex), what the library computes "
     "agrees with the exact value for the given inputs up to a few rounding errors of that type: matrix elements of the Hubbard Liouvillians and "
     "kinetic matrices in real and momentum space, energies, particle numbers, Fourier coefficients and Fermi jumps, prefactors of products, conjugates, "
     "commutators and collected terms, merged matrix entries, and integration steps and matrix products of real vectors.",
     ["inputs", "configurations"],
     "every listed computation for every number type, with inputs that have no finite binary expansion, in relation to the unit roundoff of the type",
     "All tests use double or exactly representable numbers; a value that passes through a narrower type or a constant of another type goes unnoticed.",
     [RS + "fermi_jump/1d.hpp", RS + "fermi_jump/2d.hpp", RS + "fermi_jump_no.hpp", RS + "blaze_sparse.hpp", RS + "blaze_sparse_no.hpp", MS + "blaze_sparse.hpp",
      RS + "liouvillian.hpp", MS + "liouvillian.hpp", MS + "particle_number.hpp", MS + "non_vanishing_expectation_values.hpp", "include/ieompp/models/hubbard/dispersion.hpp",
      A + "commutator.hpp", A + "term/term.hpp", A + "term/list.hpp", "include/ieompp/types/triplet.hpp", "include/ieompp/ode/rk4.hpp",
      "include/ieompp/types/blaze/multiply_assign.hpp"],
     [("matrices", RS + "blaze_sparse.hpp: init_matrix; " + RS + "blaze_sparse_no.hpp: init_matrix_no; " + MS + "blaze_sparse.hpp: init_matrix"),
      ("observables", RS + "fermi_jump/2d.hpp: FermiJump2D; " + MS + "particle_number.hpp: operator()"), ("steps", "include/ieompp/ode/rk4.hpp: RK4::step")],
     observe=["returned numbers, stored matrix elements and prefactors"])

prop("C56", "Objects own what they need and copies are independent",
     "Objects of the library do not depend on what they were made from once they exist, except where they refer to a lattice (tables of expectation "
     "values) or to bases (site occupation and three-operator Fermi jumps): lattice sizes, couplings, names, messages, energies, expectation value "
     "functions, bases of tables and lattices of bases may change or cease to exist. A copy equals its original and stays as it is when the original is "
     "changed, moved from or destroyed, whether it was made by copying, assignment, exchange, in a container or in a closure; an object assigned to itself "
     "or moved keeps its value. This holds for operators, products, terms, prefactors, iterators, lattices, bases, tables, Liouvillians, states, "
     "observables, integrators, function-defined matrices and exceptions.",
     ["histories", "inputs"],
     "every sequence of making, copying, moving, assigning, exchanging, changing and destroying two objects of each class",
     "Tests use one object of each class in one scope; a reference kept to an argument or shared between copies shows only when the argument is gone.",
     ["include/ieompp/lattices/periodic_chain.hpp", "include/ieompp/lattices/periodic_square_lattice.hpp", "include/ieompp/models/hubbard/dispersion.hpp",
      RS + "basis.hpp", MS + "basis.hpp", RS + "expectation_value.hpp", RS + "site_occupation.hpp", RS + "fermi_jump/1d.hpp", RS + "fermi_jump/2d.hpp",
      RS + "fermi_jump_no.hpp", RS + "liouvillian.hpp", MS + "liouvillian.hpp", MS + "particle_number.hpp", MS + "non_vanishing_expectation_values.hpp",
      MS + "excited_fermi_sea.hpp", A + "operator/operator.hpp", A + "monomial/monomial.hpp", A + "term/term.hpp", "include/ieompp/symbolic/prefactor.hpp",
      "include/ieompp/symbolic/index.hpp", "include/ieompp/iterators/integer_iterator.hpp", "include/ieompp/types/function_matrix.hpp",
      "include/ieompp/types/triplet.hpp", "include/ieompp/ode/rk4.hpp", "include/ieompp/exception.hpp"],
     [("kept functions", RS + "fermi_jump/1d.hpp: FermiJump1D; include/ieompp/types/function_matrix.hpp: FunctionMatrix"),
      ("tables", "include/ieompp/models/hubbard/dispersion.hpp: Dispersion; " + MS + "particle_number.hpp: ParticleNumber")],
     observe=["everything that can be asked of an object, after every operation; memory accesses"])

prop("C57", "Runs with different output files do not disturb each other",
     "Simulation programs whose output files differ in more than their extension can run at the same time, also in one directory, with the same options or "
     "from one response file: under every interleaving of their file operations each ends with status zero and writes the files that it writes alone, and no "
     "others. It does so as well if the other is killed at any moment. The helpers for checkpoints, output files, matrix files and response files work on "
     "different files at the same time, or read the same one, in the same way.",
     ["schedules", "crash points", "configurations"],
     "every interleaving of the file operations of two processes within the bound, for pairs of names, options and sources of options; every moment of the death of one",
     "Tests run one program at a time; a name that two runs share shows only if one uses it between two operations of the other.",
     ["src/hubbard/include/application.hpp", "src/hubbard/include/checkpoint.hpp", "src/hubbard/include/common.hpp", "src/hubbard/include/cli.hpp",
      "src/hubbard/include/logging.hpp", "src/hubbard/hubbard_real_1d_rk4.cpp", "src/hubbard/hubbard_real_1d_rk4_jump.cpp",
      "src/hubbard/hubbard_real_1d_rk4_coefficients.cpp", "src/hubbard/hubbard_real_1d_kinetic_rk4.cpp",
      "src/hubbard/hubbard_real_1d_kinetic_rk4_coefficients.cpp", "src/hubbard/hubbard_real_2d_rk4_jump.cpp"],
     [("names", "src/hubbard/include/application.hpp: Application"), ("matrix file", "src/hubbard/include/common.hpp: write_matrix_file"),
      ("checkpoints", "src/hubbard/include/checkpoint.hpp: write_checkpoint_file, clean_output_file")],
     observe=["exit status and files of both runs"])
