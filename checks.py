"""The checks: which explorers decide which property."""
CHECKS = {}
NOT_APPLICABLE = {}

EXHAUSTIVE = ("the real code is run on every case of the stated bounded space and each result is compared with an "
              "independent oracle; no sampling")


def check(pid, level, technique, rule, note, units, assumptions=()):
    CHECKS[pid] = dict(level=level, technique=technique, rule=rule,
                       level_note=note, assumptions=list(assumptions), units=units)


def unit(src, *parts, variant="asan", flags=(), libs=(), deep=()):
    return dict(src=src, variant=variant, flags=list(flags), libs=list(libs), parts=list(parts),
                thorough_parts=list(deep))


MC = "model_checking"
EX = "exploration"

check("C01", EX, "bounded-exhaustive enumeration against a Fock-space model",
      "every operator over sampled-value index domains for 14 index signatures, every product up to the stated length plus "
      "long words, every listed prefactor and container; a case is non-trivial when it is a distinct object",
      EXHAUSTIVE + "; the adjoint is also checked on every Fock basis state of two sites with spin",
      [unit("c01.cpp", "ops", "monomials", "terms", "fock")],
      ["operators beyond the enumerated lengths behave like shorter ones"])
check("C02", EX, "bounded-exhaustive enumeration of operator and product pairs",
      "every pair of operators over 15 index signatures and every pair of products up to the stated length; distinct "
      "objects count as non-trivial",
      EXHAUSTIVE + "; the oracle is a strict total order on an index-free model, so transitivity over triples follows from "
      "agreement on all pairs",
      [unit("c02.cpp", "ops", "terms")])
check("C03", MC, "exhaustive enumeration of products, compared with a Fock-space model state by state",
      "states: Fock basis states on which a commutator was compared; transitions: operator applications in the model; "
      "traces: commutators computed by the real code and compared with AB - BA on all basis states",
      EXHAUSTIVE + "; the model is an explicit Jordan-Wigner occupation number space",
      [unit("c03.cpp", "queries", "one_mode", "two_modes", "three_modes", "spin", "long", "longer", variant="plain"), unit("c03.cpp", "inside")])
check("C04", MC, "exhaustive enumeration of symbolic products and substitutions against a Fock-space model",
      "states: Fock basis states on which a substituted commutator was compared; transitions: operator applications in the "
      "model; traces: symbolic commutators computed by the real code and compared under every substitution",
      EXHAUSTIVE + "; every assignment of values to the symbols, equal or not, is evaluated on every basis state",
      [unit("c04.cpp", "one_index", "spin", "more_indices", variant="plain")])
check("C05", EX, "bounded-exhaustive enumeration of delta lists",
      "every list of deltas up to the stated length over three and four names, every arrangement of long lists from a fixed "
      "family; distinct lists count as non-trivial",
      EXHAUSTIVE, [unit("c05.cpp", "delta", "lists", "names", "long")])
check("C06", EX, "bounded-exhaustive enumeration of term sequences",
      "every sequence of up to five terms over six products with distinguishable prefactors, further containers and "
      "operator types, long sequences; distinct sequences count as non-trivial",
      EXHAUSTIVE, [unit("c06.cpp", "short", "alphabet")])
check("C08", EX, "bounded-exhaustive enumeration of terms and commutators",
      "every term up to the stated length and every commutator of two such terms; distinct terms count as non-trivial",
      EXHAUSTIVE, [unit("c08.cpp", "terms", "commutators")],
      ["the momentum space is a stand-in with exact integer vectors (the function needs an Eigen-like vector type)"])
check("C07", MC, "exhaustive exploration of operation histories on the real objects, in lockstep with a model",
      "states: distinct states of the two-register model; transitions: operations applied; traces: histories replayed on the "
      "real objects, compared with the model after each operation",
      EXHAUSTIVE + "; every history of multiplications (also with itself), copies, swaps and conjugations up to the depth is "
      "executed on the real classes",
      [unit("c07.cpp", "monomial", "term", "prefactor", "laws", "long")])
check("C09", MC, "exhaustive exploration of iterator operation histories in lockstep with integers",
      "states: distinct pairs of positions reached; transitions: operations applied; traces: histories replayed on the real "
      "iterators, every observation compared after each operation",
      EXHAUSTIVE, [unit("c09.cpp", "wide", "narrow")])
check("C10", EX, "bounded-exhaustive enumeration of chains, sites and pairs of sites",
      "every chain size up to the bound (and seven large ones), both spaces, five type combinations; a case is a site with all "
      "its partners; distinct (chain, site) count as non-trivial",
      EXHAUSTIVE, [unit("c10.cpp", "double_u64", "double_u32", "double_int", "float_long", "ldouble_u64", variant="plain")])
check("C11", EX, "bounded-exhaustive enumeration of square lattices, sites and pairs of sites",
      "every pair of side lengths up to the bound (and eight long or large ones), both spaces, five type combinations; distinct "
      "(lattice, site) count as non-trivial",
      EXHAUSTIVE, [unit("c11.cpp", "double_u64", "double_u32", "double_int", "float_long", "ldouble_u64", variant="plain")])
check("C12", EX, "bounded-exhaustive enumeration of lattices, sites, displacements and periodic images",
      "every lattice up to the bound with every site, a fixed set of displacements below half a spacing and every image up to "
      "three periods away; distinct (lattice, site) count as non-trivial",
      EXHAUSTIVE + "; displacements stay far enough below half a spacing that rounding cannot decide",
      [unit("c12.cpp", "chain_double", "chain_float", "chain_ldouble", "large", "square_double", "square_double_int", "square_float",
            "square_ldouble", variant="plain")])
check("C13", EX, "bounded-exhaustive enumeration of Brillouin zones, lattices and hoppings",
      "every size up to the bound with every spacing and hopping of a fixed set, each momentum compared with the closed form; "
      "distinct configurations count as non-trivial",
      EXHAUSTIVE + "; the closed form is evaluated in extended precision",
      [unit("c13.cpp", "chain_double", "chain_float", "chain_ldouble", "square_double", "square_float", "square_ldouble", variant="plain")])
check("C14", EX, "bounded-exhaustive enumeration of Brillouin zones, total momenta and basis elements",
      "every chain size and square lattice up to the bound with every total momentum, every element compared; distinct bases "
      "count as non-trivial",
      EXHAUSTIVE + "; the third momentum comes from integer arithmetic on the indices",
      [unit("c14.cpp", "chain", "large", "chain_ldouble", "square", variant="plain")])
check("C15", EX, "bounded-exhaustive enumeration of lattices and basis elements",
      "every chain and square lattice up to the bound, every element compared; distinct bases count as non-trivial",
      EXHAUSTIVE, [unit("c15.cpp", "chain", "square", variant="plain"),
                   unit("c15.cpp", "wide", variant="plain", flags=["-O2", "-UMC_MEMORY_GB", "-DMC_MEMORY_GB=8"])])
check("C16", MC, "explicit-state exploration of the excited Fermi sea in lockstep with occupation numbers",
      "states: states of the real class visited (all occupations, and all list orders for direct calls); transitions: operators "
      "or products applied; traces: results of the real class compared with the model",
      EXHAUSTIVE + "; every initial sea of the bounded size, every operator in every reachable state, every product up to the "
      "stated length",
      [unit("c16.cpp", "operators", "products2", "products3", "direct", "labels", "many", "hundreds", "band", variant="plain", deep=("deep4",))])
check("C17", MC, "exhaustive evaluation of an occupation number model for every pair of basis operators",
      "states: pairs of basis operators evaluated in the model; transitions: operator products applied to the sea; traces: "
      "tables of the real code compared entry by entry",
      EXHAUSTIVE + "; every occupation pattern of the sea up to the bound, and cosine bands beyond",
      [unit("c17.cpp", "patterns_small", "patterns5", "bands", "squares", "large", "edges", "sorting", variant="plain", deep=("patterns7",))])
check("C18", MC, "Fock-space evaluation of every matrix element, exhaustive over small Brillouin zones",
      "states: Fock basis states on which a commutator was evaluated; transitions: operator products applied; traces: "
      "matrices built by the real code and compared element by element, with the Fock model and with its closed form",
      EXHAUSTIVE + "; the closed form used for larger zones is itself the one the Fock model confirms on small zones",
      [unit("c18.cpp", "fock_chain", "fock_square", "chains", "squares", "large", "spacings", "defaults", variant="plain")],
      ["matrices are filled through a stand-in for the Blaze library, which is absent here"])
check("C19", EX, "bounded-exhaustive enumeration of coefficient vectors that determine a quadratic form",
      "every basis up to the bound, every pair of components with nine pairs of values (these determine a quadratic form "
      "completely), every dense vector over four values for small bases; distinct vectors count as non-trivial",
      EXHAUSTIVE + "; the oracle sums over a table built separately from the observable, and that table is checked by C17",
      [unit("c19.cpp", "small", "medium", "squares", "wide", "edges", variant="plain", deep=("large",))])
check("C20", MC, "Fock-space evaluation of every matrix element, exhaustive over small lattices",
      "states: Fock basis states on which a commutator was evaluated; transitions: operator products applied; traces: "
      "matrices built by the real code and compared element by element, with the Fock model and with its closed form",
      EXHAUSTIVE + "; the closed form used for larger lattices is itself the one the Fock model confirms on small lattices",
      [unit("c20.cpp", "fock_chain", "fock_square", "chains", "squares", "large", "defaults", variant="plain")],
      ["matrices are filled through a stand-in for the Blaze library, which is absent here"])
check("C21", EX, "bounded-exhaustive enumeration of lattices and hoppings",
      "every chain and square lattice up to the bound with every hopping of a fixed set, each row compared as stored; distinct "
      "configurations count as non-trivial",
      EXHAUSTIVE + "; on small chains the oracle is the commutator evaluated on every Fock basis state",
      [unit("c21.cpp", "chains", "squares", "fock", "large", variant="plain")],
      ["matrices are filled through a stand-in for the Blaze library, which is absent here"])
check("C22", MC, "complete Wick expansion of every commutator, exhaustive over small lattices",
      "states: complete contractions evaluated; transitions: steps of the expansion; traces: matrices built by the real code and "
      "compared row by row with the expansion",
      EXHAUSTIVE + "; the oracle enumerates every partial contraction of H A and A H for every row",
      [unit("c22.cpp", "chains", "squares", "large", variant="plain")],
      ["matrices are filled through a stand-in for the Blaze library, which is absent here"])
check("C23", EX, "bounded-exhaustive enumeration of lattices, spacings, fillings and pairs of sites",
      "every lattice up to the bound (and some larger) with every spacing, filling and Fermi momentum of a fixed set, every "
      "pair of sites compared with the closed form; distinct configurations count as non-trivial",
      EXHAUSTIVE + "; the closed form is evaluated in extended precision",
      [unit("c23.cpp", "chain_double", "chain_int", "chain_float", "chain_ldouble", "square_double", "square_int",
            "square_float", "square_ldouble", variant="plain")])
check("C24", MC, "complete Wick contraction of every pair of basis elements",
      "states: pairs of basis elements evaluated with Wick's theorem; transitions: contraction steps; traces: values of the real "
      "code compared (pair expectation values and observables)",
      EXHAUSTIVE + "; the oracle sums all complete contractions of the products, with symmetric tables that are different on "
      "every element",
      [unit("c24.cpp", "one", "three_small", "three_4", "three_5", "three_8", "labels", variant="plain", deep=("three_6",)),
       unit("c24.cpp", "inexact", variant="plain", flags=["-DNDEBUG"])])
check("C25", EX, "bounded-exhaustive enumeration of lattices and of coefficient vectors that determine the observable",
      "every lattice up to the bound with every Fermi momentum and table of a fixed set, every component and pairs of components "
      "of the coefficient vector, dense vectors with another observable evaluated in between; distinct vectors count as "
      "non-trivial",
      EXHAUSTIVE + "; the oracle is evaluated in extended precision",
      [unit("c25.cpp", "chain_one", "chain_three", "square_three", "ordered", "inexact", "large", variant="plain"),
       unit("c25.cpp", "wide", variant="plain", flags=["-O2", "-UMC_MEMORY_GB", "-DMC_MEMORY_GB=8"])])
EIGEN = ("-DODE_EIGEN", "-isystem", "/usr/include/eigen3")
check("C26", EX, "bounded-exhaustive enumeration of matrices, states and step sizes",
      "every matrix over a small alphabet up to dimension three, every single element and structured matrices beyond, three "
      "kinds of matrices, every unit vector; distinct matrices count as non-trivial",
      EXHAUSTIVE + "; the oracle is the fourth-order Taylor polynomial in extended precision",
      [unit("c26.cpp", "real_small", "complex_small", "three", "tiny", "larger", "large", variant="plain"),
       unit("c26.cpp", "real_small", "complex_small", "three", "tiny", "larger", "large", variant="plain", flags=EIGEN)],
      ["the Blaze library is a stand-in, as it is absent here; the Eigen library is the real one"])
check("C27", MC, "exhaustive exploration of all interleavings of integrators' steps on the real code",
      "states: prefixes of interleavings; transitions: steps and matrix products executed; traces: complete interleavings run on "
      "the real code, each state compared with the trajectory the integrator has alone",
      EXHAUSTIVE + "; every order of the steps of two, three and four out of ten participants",
      [unit("c27.cpp", "pairs", "triples", "quadruples", variant="plain"),
       unit("c27.cpp", "quadruples", variant="asan"),
       unit("c27.cpp", "pairs", "triples", "quadruples", variant="plain", flags=EIGEN)],
      ["the Blaze library is a stand-in, as it is absent here; the Eigen library is the real one"])
check("C28", EX, "bounded-exhaustive enumeration of entry lists",
      "every list up to the stated length over small sets of columns and values (with cancelling values), long lists from fixed "
      "families; distinct lists count as non-trivial",
      EXHAUSTIVE, [unit("c28.cpp", "real", "columns", "cancel", "integer", "complex", "tiny", "long", variant="plain"),
                   unit("c28.cpp", "columns", "long", variant="asan")])
check("C29", EX, "bounded-exhaustive enumeration of matrices",
      "every matrix over small alphabets for all shapes up to the bound, five kinds of matrices, each element changed alone; "
      "distinct matrices count as non-trivial",
      EXHAUSTIVE, [unit("c29.cpp", "real", "real3", "complex", "complex2", "single", "tiny", "large", variant="plain"),
                   unit("c29.cpp", "real", "real3", "complex", "complex2", "single", "tiny", "large", variant="plain", flags=EIGEN)],
      ["the Blaze library is a stand-in, as it is absent here; the Eigen library is the real one"])
check("C30", EX, "bounded-exhaustive enumeration of pairs of numbers",
      "every pair of numbers from grids around zero, epsilon, one and the tolerances, in three precisions, every pair of small "
      "Gaussian integers, extreme integers; distinct left numbers count as non-trivial",
      EXHAUSTIVE, [unit("c30.cpp", "float", "double", "ldouble", "cfloat", "cdouble", "cldouble", "exact", "integers", variant="plain")])
SRC_FLAGS = ("-I" + __import__("os").environ.get("VERIF_REPO", "/repo") + "/src/hubbard/include",)
check("C31", EX, "bounded-exhaustive enumeration of operators, products, terms and prefactors, printed and read back",
      "every operator over 14 index signatures, every product, term and symbolic prefactor up to the stated length, each printed "
      "and read back by an independent parser; distinct texts count as non-trivial",
      EXHAUSTIVE, [unit("c31.cpp", "indices", "ops", "terms", "prefactors", variant="plain"),
                   unit("c31.cpp", "ops", "terms", variant="plain", flags=["-DIEOMPP_DISABLE_ARROWS"])])
check("C32", EX, "bounded-exhaustive enumeration of texts",
      "every text up to the stated length over an alphabet of line breaks, comment signs and letters, every blank combination, "
      "every byte value, long lines; distinct texts count as non-trivial",
      EXHAUSTIVE, [unit("c32.cpp", "texts", "blanks", "bytes", "long", variant="plain"),
                   unit("c32.cpp", "bytes", variant="asan")])
check("C33", MC, "exhaustive exploration of checkpoint histories, output files and crash points on the real code",
      "states: disk states after which the files were inspected; transitions: file operations at which the program was stopped "
      "(every write, rename and open, and cut-off writes); traces: histories run on the real code and compared with a model of the files",
      EXHAUSTIVE + "; the real functions run on real files in a scratch directory, a crash is a process ended at the operation",
      [unit("c33.cpp", "clean", "blanks", "outputs", "checkpoints", "long", "crash", variant="plain", flags=SRC_FLAGS,
            libs=("-lboost_filesystem", "-lboost_system", "-ldl"))],
      ["the log library is a stand-in, as it is absent here"])
check("C34", EX, "bounded-exhaustive enumeration of option sources",
      "every combination of sources (default, command line, response file) per option, every listed value, each after a run with "
      "other options and the same files; distinct configurations count as non-trivial",
      EXHAUSTIVE, [unit("c34.cpp", "sources", "values", "unreadable", variant="plain", flags=SRC_FLAGS,
                        libs=("-lboost_program_options", "-lboost_filesystem", "-lboost_system"))],
      ["the log library is a stand-in, as it is absent here"])
check("C35", EX, "bounded-exhaustive enumeration of step widths, intervals and end times",
      "every combination of the grids of step widths, measurement intervals and end times, complete runs of the time loop; "
      "distinct combinations count as non-trivial",
      EXHAUSTIVE, [unit("c35.cpp", "grid", "runs", "late", "large", variant="plain", flags=SRC_FLAGS,
                        libs=("-lboost_program_options", "-lboost_filesystem", "-lboost_system"))])
check("C36", EX, "bounded-exhaustive enumeration of tuples, texts and types",
      "every tuple and list of parts over small sets of values with every combination of delimiters, every operator type with one "
      "to four indices over a set of index types; distinct texts and types count as non-trivial",
      EXHAUSTIVE, [unit("c36.cpp", "tuples", "texts", "queries", "kinds", variant="plain")])
OMP_NOTE = ("the real code runs under a controlled OpenMP runtime; schedules are enumerated at work-share requests, locks and "
            "every instrumented access at which threads conflict, with up to two (thorough: three) preemptions there; code "
            "without conflicting accesses has one schedule per order of the threads, all of which are run")
OMP_ASSUME = ["accesses inside uninstrumented library code are not seen", "sequentially consistent memory: races are reported instead of weak behaviours"]
check("C37", MC, "stateless exploration of thread interleavings of the real code with race detection",
      "states: scheduling decisions and complete schedules; transitions: thread starts, work-share requests and lock operations "
      "scheduled; traces: executions of the real code whose result was compared with the sequential one bit for bit",
      OMP_NOTE, [unit("c37.cpp", "tables", "bases", "fourier", variant="tsan")], OMP_ASSUME)
check("C38", MC, "stateless exploration of thread interleavings of the real code with race detection",
      "states: scheduling decisions and complete schedules; transitions: thread starts, work-share requests and lock operations "
      "scheduled; traces: executions of the real code whose result was compared with the sequential one",
      OMP_NOTE, [unit("c38.cpp", "occupation", "jump", "products", variant="tsan"),
                 unit("c38_eigen.cpp", "products", variant="tsan", flags=EIGEN), unit("omp_self.cpp", "self", variant="tsan")],
      OMP_ASSUME + ["the vectors are those of a stand-in for the Blaze library, which is absent here"])
PROG = ("-I" + __import__("os").environ.get("VERIF_REPO", "/repo"),)
check("C39", MC, "complete runs of the real program under a controlled OpenMP runtime for every team size, with race detection",
      "states: lines of the table compared with the closed form; transitions: thread starts and lock operations scheduled; traces: "
      "complete runs of the program",
      "the real program runs as it is for every team size of the bound and every line is compared; the closed form is evaluated "
      "with Bessel functions of its own; in an instrumented run the first 200000 accesses of every thread and parallel region are "
      "checked for order",
      [unit("c39.cpp", "few", "some", "many", variant="fast", flags=PROG, libs=("-ldl",), deep=("more",)),
       unit("c39.cpp", "races", variant="tsan", flags=PROG, libs=("-ldl",), deep=("races3",))], OMP_ASSUME)
check("C41", MC, "complete runs of the real program under a controlled OpenMP runtime for every team size, with race detection",
      "states: lines of the table compared with the closed form; transitions: thread starts scheduled; traces: complete runs of the program",
      OMP_NOTE + "; every line of every run is compared",
      [unit("c41.cpp", "small", "large", variant="tsan", flags=PROG, libs=("-ldl",))], OMP_ASSUME)
check("C40", MC, "exhaustive evaluation of the programs' printed commutators against a Fock-space model",
      "states: Fock basis states on which a printed commutator was compared; transitions: operator applications in the model; "
      "traces: printed commutators read back and compared under every substitution of the bound",
      "the real programs run, everything they print is parsed and compared with the model for every assignment of values to the "
      "symbols within the bound and every basis state",
      [unit("c40_real.cpp", "commutators", "hamiltonian", variant="plain", flags=PROG, libs=("-ldl",)),
       unit("c40_momentum.cpp", "all", variant="plain", flags=PROG, libs=("-ldl",))])
SIM_LIBS = ("-ldl", "-lboost_program_options", "-lboost_filesystem", "-lboost_system")


def sim_flags(i):
    return ("-DSIM=%d" % i, "-DNDEBUG") + PROG + SRC_FLAGS


check("C42", MC, "exhaustive exploration of complete runs of the real programs in lockstep with a model of the time evolution",
      "states: measured states compared with the model; transitions: integration steps of the model; traces: complete runs of the "
      "real programs",
      "each program's own main() runs for every configuration of the bound (sizes, couplings, fillings, momenta, schedules, ways of "
      "giving the options) in a process and directory of its own; header and every row are compared with an independent model",
      [unit("c42.cpp", "values", "schedules", "defaults", *(("large",) if i in (4, 5) else ()), variant="plain", flags=sim_flags(i), libs=SIM_LIBS) for i in range(1, 7)]
      + [unit("c42.cpp", "few", flags=sim_flags(i), libs=SIM_LIBS) for i in (1, 2, 5, 6)]
      + [unit("c42_momentum.cpp", "runs", variant="plain", flags=("-DNDEBUG",) + PROG + SRC_FLAGS, libs=SIM_LIBS),
         unit("c42_trivial.cpp", "table", variant="plain", flags=("-DNDEBUG",) + PROG + SRC_FLAGS, libs=SIM_LIBS)],
      ["the log library and the Blaze library are stand-ins, as they are absent here",
       "momentum program: sizes without a momentum exactly on the Fermi surface"])
check("C43", EX, "bounded-exhaustive enumeration of environments and histories of the platform queries and of program runs",
      "every combination of user name, host, machine and preceding calls, and every run of a program over ways of asking for help, "
      "version and output; distinct combinations count as non-trivial",
      EXHAUSTIVE + "; gethostname and uname are answered by the check, every run has a process and directory of its own",
      [unit("c43.cpp", "histories", "programs", variant="plain", flags=SRC_FLAGS, libs=("-lboost_program_options", "-lboost_filesystem", "-lboost_system")),
       unit("c43.cpp", "histories", "programs", variant="plain", flags=SRC_FLAGS + ("-fopenmp",),
            libs=("-lboost_program_options", "-lboost_filesystem", "-lboost_system", "-lgomp")),
       unit("c43.cpp", "histories", "programs", variant="asan", flags=SRC_FLAGS, libs=("-lboost_program_options", "-lboost_filesystem", "-lboost_system"))],
      ["the log library and the Blaze library are stand-ins, as they are absent here"])
check("C44", MC, "exhaustive exploration of complete runs of the real programs, their log read back and compared with a model of the run",
      "states: measured states compared with the model; transitions: integration steps of the model; traces: complete runs of the "
      "real programs",
      "each program's own main() runs for every configuration of the bound; every record of its log with a number in it is compared "
      "with the model of the run and with the output",
      [unit("c42.cpp", "logs", variant="plain", flags=sim_flags(i), libs=SIM_LIBS) for i in range(1, 7)]
      + [unit("c44_time.cpp", "timer", "application", variant="plain", flags=SRC_FLAGS, libs=("-lboost_program_options", "-lboost_filesystem", "-lboost_system"))],
      ["the log library and the Blaze library are stand-ins, as they are absent here"])
SETUP_LIBS = ("-lboost_program_options", "-lboost_filesystem", "-lboost_system")
check("C45", EX, "bounded-exhaustive enumeration of set-ups of the programs against models of lattice, matrix and observables",
      "every combination of lattice, size, couplings, filling and earlier set-up; every pattern of small matrices written over every "
      "earlier file; distinct combinations count as non-trivial",
      EXHAUSTIVE + "; the matrices are compared with the Wick and Fock models of C18, C20-C22, the observables with those of C24, C25",
      [unit("c45.cpp", "objects", "lattices", variant="plain", flags=("-DNDEBUG", "-DSETUP=%d" % i) + PROG + SRC_FLAGS, libs=SETUP_LIBS) for i in range(1, 7)]
      + [unit("c45.cpp", "files", "setup", variant="plain", flags=("-DNDEBUG", "-DSETUP=7") + PROG + SRC_FLAGS, libs=SETUP_LIBS)],
      ["the log library and the Blaze library are stand-ins, as they are absent here"])
check("C46", EX, "bounded-exhaustive enumeration of vectors, insertion histories, matrices and stream states",
      "every pair of vectors over three numbers, every sequence of insertions, every matrix over three numbers to dimension three, "
      "every printed shape with every stream state; distinct cases count as non-trivial",
      EXHAUSTIVE, [unit("c46.cpp", "products", "inserts", "print"), unit("c46.cpp", "turns", "place", variant="plain")],
      ["the Blaze library is a stand-in, as it is absent here"])
check("C47", MC, "exhaustive exploration of repository histories and torn headers with the real script, in lockstep with a model",
      "states: states in which the script ran and everything was compared with the model; transitions: events applied (commits, tags, "
      "changes, damage to the header); traces: pairs of runs of the real script compared with the model",
      EXHAUSTIVE + "; the script runs in a copy of the project made up in a scratch directory, with a git repository of its own",
      [unit("c47.cpp", "plain", "tagged", "later", "two", "torn", "no_git", variant="plain")])
check("C48", EX, "bounded-exhaustive enumeration of header trees",
      "every combination of contents for up to three headers, every sequence of lines up to the stated length, every combination of "
      "sources in three directories; distinct cases count as non-trivial",
      EXHAUSTIVE + "; the tools run in a project made up in a scratch directory",
      [unit("c48.cpp", "guards", "style", "lines", variant="plain")])
check("C49", EX, "bounded-exhaustive enumeration of matrices, texts, vectors and sequences of products, with the real Eigen library",
      "every filling of small matrices and of symmetric ones over earlier contents, every stored pattern written and read back, every "
      "order and layout of the entries of a text, every text cut or with a line lost, every pair of small vectors, every sequence of "
      "three products; distinct cases count as non-trivial",
      EXHAUSTIVE, [unit("c49.cpp", "dense", "sparse", "writing", "reading", "longer", "broken", "products", "place", "kinds", variant="plain", flags=EIGEN)])
check("C52", MC, "stateless exploration of thread interleavings of the real code on shared objects, with race detection",
      "states: scheduling decisions and complete schedules; transitions: thread starts and lock operations scheduled; traces: executions "
      "of the real code in which every thread's results were compared with those it gets alone",
      OMP_NOTE + "; objects are built anew in every execution, so that what is computed on first use is computed inside the team",
      [unit("c52.cpp", "lattices", "models", "observables", "computations", variant="tsan"),
       unit("c52_eigen.cpp", "set_ups", "texts", "vectors", variant="tsan", flags=EIGEN), unit("omp_self.cpp", "self", variant="tsan")],
      OMP_ASSUME + ["the vectors and matrices are those of a stand-in for the Blaze library, which is absent here"])
check("C53", MC, "fault injection: every allocation fails and every call of a caller's function throws, on the real code, in turn",
      "states: computations aborted at an enumerated point; transitions: points at which they could be aborted; traces: executions of the "
      "real code, the aborted ones repeated and compared with one that was not aborted; distinct computations count as non-trivial",
      "every allocation and every call of a function of the caller in each computation fails in turn; the inputs are compared with "
      "their earlier values, the repeated computation with the undisturbed one, and the memory is counted over three rounds",
      [unit("c53.cpp", "steps", "algebra", "models", "observables", variant="plain"), unit("c53.cpp", "steps", variant="plain", flags=EIGEN)],
      ["the vectors and matrices are those of a stand-in for the Blaze library, which is absent here"])
check("C50", MC, "fault injection on the real programs: the process dies at every write, opening and renaming of a file and in torn writes",
      "states: points at which the process died; transitions: those points; traces: complete and stopped runs of the real program; distinct "
      "configurations count as non-trivial",
      "every point at which the process can die in a run is enumerated: before each write, opening and renaming of a file and after a third and two "
      "thirds of each write; what is left on disk is compared with the complete run, and the run is repeated over it",
      [unit("c50.cpp", "stops", variant="plain", flags=sim_flags(i), libs=SIM_LIBS) for i in range(1, 7)],
      ["the log library and the Blaze library are stand-ins, as they are absent here; the stand-in writes each record at once",
       "data handed to the operating system survives the death of the process (not a power failure)"])
check("C54", MC, "fault injection: every opening, write, read, close and renaming of a file fails, is torn, split or interrupted, on the real programs",
      "states: combinations of computation, operation and kind of failure; transitions: operations that failed; traces: runs of the real "
      "programs and helpers, disturbed and undisturbed; distinct configurations count as non-trivial",
      "every file operation of a run fails in turn, in five ways (once, for good, torn, in parts, interrupted); the exit status or exception is "
      "compared with what is left on disk",
      [unit("c54.cpp", "runs", variant="plain", flags=sim_flags(i), libs=SIM_LIBS) for i in range(1, 10)]
      + [unit("c54_files.cpp", "checkpoints", "cleaning", "matrices", "responses", variant="plain", flags=("-DNDEBUG",) + SRC_FLAGS, libs=SIM_LIBS)],
      ["the log library and the Blaze library are stand-ins, as they are absent here; the log file is left out, its library decides about it"])
check("C57", MC, "stateless exploration of the interleavings of the file operations of two real processes",
      "states: schedules of two processes; transitions: file operations; traces: pairs of complete runs of the real programs or helpers; "
      "distinct combinations count as non-trivial",
      "every place for one change from the first process to the second (for some pairs also back), taking turns after one to three operations, and "
      "the death of the first process before every operation; each run writes what it writes alone",
      [unit("c57.cpp", "runs", variant="plain", flags=sim_flags(i), libs=SIM_LIBS) for i in range(1, 7)]
      + [unit("c57_files.cpp", "helpers", variant="plain", flags=("-DNDEBUG",) + SRC_FLAGS, libs=SIM_LIBS)],
      ["the log library and the Blaze library are stand-ins, as they are absent here; the stand-in writes each record at once",
       "file operations of a process are atomic: opening, reading, writing, renaming, removing"])
check("C51", MC, "fault injection: every call of an external program by the tools fails, is killed or finds no program, in every history of runs",
      "states: combinations of files, contents, failing steps and earlier runs; transitions: runs of a tool; traces: runs of the real tool; "
      "distinct configurations count as non-trivial",
      "every combination of the stated files and every step that can fail is enumerated; the external programs are stand-ins that record "
      "what they are asked to do",
      [unit("c51.cpp", "format", "failing", "checkers", "external", "scripts", variant="plain")],
      ["clang-format, clang-tidy, include-what-you-use, rsync, git, curl, tar and the checksum program are stand-ins"])
check("C55", EX, "bounded-exhaustive enumeration of computations, number types and inputs against a calculation with 113 bits",
      "every listed computation over number types, sizes and inputs without a finite binary expansion; distinct combinations count as non-trivial",
      EXHAUSTIVE + "; the structure of matrices is that of double, decided by C18 and C20-C22, their values are calculated with 113 bits from the "
      "inputs as rounded to the number type",
      [unit("c55.cpp", "real_matrices", "momentum", "jumps", "terms", "steps", variant="plain", flags=("-DNDEBUG",), libs=("-lquadmath",))],
      ["the vectors and matrices are those of a stand-in for the Blaze library, which is absent here",
       "site occupation and integration of complex vectors exist for double only (they do not compile for other types)"])
check("C56", MC, "exhaustive exploration of operation histories on pairs of real objects, in lockstep with a model",
      "states: objects compared with the model; transitions: operations applied; traces: histories replayed on the real objects; distinct first "
      "operations of each class count as non-trivial",
      EXHAUSTIVE + "; every history to depth 3 (4 in the thorough tier) runs on the real classes under the address sanitizer, the objects they "
      "were made from being gone",
      [unit("c56.cpp", "algebra", "bases", "observables", flags=("-DNDEBUG",))])
