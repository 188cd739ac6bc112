"""Property texts, techniques and level notes."""

AI = ('static abstract interpretation of the current sources over a Herbrand/GVN term domain for matrices, with trace partitioning '
      'on kind/format/dtype and a heap model for aliasing; no code of the repository is executed and no solver is used')
NAT = ('static abstract interpretation of the Cython sources (Cython syntax tree) and C++ templates (clang syntax tree of the instantiated classes) over GF(2) polynomials for the '
       'bits of symbolic product states, affine integers and roots of unity, with path partitioning; nothing is compiled to code or executed and no solver is used')
NATNOTE = ('Each obligation holds for all product states of the stated size at once. Trusted: the transfer functions for C integer arithmetic and the reading of the syntax trees. '
           'Results the analysis cannot decide are counted, not reported; the check fails if the decided count falls below its floor.')
D1 = 'quspin/basis/basis_1d/_basis_1d_core'
DG = 'quspin/basis/basis_general/_basis_general_core/source'
NOTE = ('Every client program in the enumerated entry contexts is analysed for all matrix values, drive functions and scalars at once '
        '(terms are uninterpreted; generic position). Trusted: the hand-written transfer functions for numpy/scipy calls and the '
        'kernel interface (y = a*A*x, +=) used by the Python layer. Results the analysis cannot decide are counted, not reported; '
        'the check fails if the decided count falls below its floor.')

HAM = 'quspin/operators/hamiltonian_core.py'
QOP = 'quspin/operators/quantum_operator_core.py'
FUN = 'quspin/operators/_functions.py'
MAKE = 'quspin/operators/_make_hamiltonian.py'
EV = 'quspin/tools/evolution.py'
MV = 'quspin/tools/matvec/_oputils.pyx'


def P(id, title, statement, over, qtext, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
             anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]})
    d.update(kw)
    return d


PROPS = [
    P('C01', 'hamiltonian objects form a *-algebra over time-dependent operators',
      'For hamiltonian objects A(t), B(t) (any mixture of static and driven parts, dense or sparse storage, float or complex dtype), numpy/scipy '
      'matrices and scalars, the results of +, -, *, unary -, integer powers, /, their in-place forms, transpose, conjugate, adjoint, commutators, '
      'projection and rotation represent at every time t exactly the operator that matrix algebra prescribes, including the order of factors and '
      'the conjugation of drive functions. In-place forms modify and return the left operand itself; operands that cannot be combined '
      '(wrong shape or rank) are rejected with an exception.',
      ['inputs', 'programs'], 'all operators, drives, scalars, storage formats, dtypes and operand kinds of each operation',
      'The tests sample a few operators in one or two storage formats; the static/driven, dense/sparse, real/complex, left/right combinations '
      'multiply to thousands of cases of which a handful are exercised.',
      [HAM, FUN],
      [('operator overloads', HAM + ': hamiltonian.__add__/__mul__/...'), ('drive algebra', FUN + ': function'),
       ('module-level commutators', HAM + ': commutator/anti_commutator')],
      technique=AI, level_note=NOTE),
    P('C02', 'All routes to evaluate a time-dependent operator agree',
      'For a hamiltonian with static part S and driven parts f_k(t) D_k, every way of using it at time t -- applying it to vectors, matrices of '
      'states, density matrices or sparse states from the left or right (with scale factor, output buffer, accumulation, one time or an array of '
      'times), converting to dense or sparse matrices, indexing, diagonal, trace, linear-operator view, expectation values, matrix elements, '
      'quantum fluctuations and the eigensolvers -- uses the matrix H(t)=S+sum_k f_k(t) D_k, with t=0 when no time is given.',
      ['inputs', 'configurations'], 'all times, drives, states and scale factors; every storage format of static and driven parts; every evaluation route',
      'Routes branch on storage format, rank of the state, scalar or array time, output buffer and purity flags; tests exercise a few combinations '
      'with mostly symmetric operators for which a transposed or unconjugated route gives the same number.',
      [HAM, MV], [('application', HAM + ': dot, rdot'), ('conversions', HAM + ': toarray, todense, tocsr, tocsc, __call__'),
                  ('measurements', HAM + ': expt_value, matrix_ele, quant_fluct')],
      technique=AI, level_note=NOTE),
    P('C03', 'A parameter-dependent operator means sum_k p_k O_k everywhere',
      'A quantum_operator with operators O_k, used with parameters p_k (missing parameters count as 1), is the matrix sum_k p_k O_k in every '
      'evaluation: application from the left or right with scale, output buffer or accumulation, dense/sparse conversion, diagonal, trace, linear-operator '
      'view including its adjoint action, conversion to a hamiltonian, expectation values, matrix elements, fluctuations and eigensolvers. '
      'Sums, differences, negation, scalar products and quotients, transposes, conjugates, adjoints, copies and changes of storage format '
      'act on each O_k separately, matched by key.',
      ['inputs', 'configurations'], 'all parameter values and subsets of given parameters, states and scale factors; every storage format of the operators',
      'Tests use symmetric real operators, all parameters given and one storage format; asymmetric operators, missing parameters, complex '
      'parameters and mixed formats take different branches.',
      [QOP], [('application and conversion', QOP + ': dot, toarray, ...'), ('algebra by key', QOP + ': __add__, __mul__, ...'),
              ('parameter defaults', QOP + ': _check_scalar_pars')],
      technique=AI, level_note=NOTE),
    P('C04', 'An exp_op acts as exp(a O) in every view, on every grid and in every route',
      'An exp_op built from an operator O with prefactor a acts as the matrix exponential exp(a O): applied to vectors, matrices, sparse matrices and hamiltonians from '
      'the left (exp(aO) A), from the right (A exp(aO)) and as a sandwich (exp(aO)^dagger A exp(aO)), with an optional shift added to O, and as an explicit matrix. '
      'On a grid the same holds with a multiplied by each grid point, in order, whether the results are returned together or one at a time. '
      'Transpose, conjugate and adjoint give the transformed exponential and, like every use of it, leave the original exp_op as it was.',
      ['inputs', 'configurations', 'histories'], 'all operators, prefactors, shifts, grids and operands; every combination of operator kind, setting, view and route enumerated in the evidence',
      'Only a few uses of exp_op occur in the tests, on real symmetric operators, without views, shifts or operand hamiltonians; most branches are never executed.',
      ['quspin/operators/exp_op_core.py'],
      [('application', 'quspin/operators/exp_op_core.py: dot, rdot, sandwich'), ('grids', 'quspin/operators/exp_op_core.py: _iter_dot, _hamiltonian_iter_dot, ...'),
       ('views', 'quspin/operators/exp_op_core.py: transpose, conj, getH')],
      technique=AI, level_note=NOTE + ' Layout of gridded results: matrices of a 2-d operand are read in the axis order the code documents by use (grid last for dot and sandwich, first for rdot).'),
    P('C05', 'The matrix-free operator acts like the explicit matrix in every view and route',
      'A quantum_LinearOperator built from a site-coupling list and an optional diagonal acts, from either side and on vectors, collections of states, sparse '
      'matrices and hamiltonians, exactly like the matrix the list describes. Its transpose, conjugate, adjoint, copy and scalar multiples, in any combination, act '
      'like the corresponding transformed matrix. Output buffers, prefactors, expectation values, matrix elements and fluctuations agree with that matrix too.',
      ['inputs', 'configurations', 'histories'], 'all couplings, diagonals, states and scalars; every combination of list structure, view and route enumerated in the evidence; every user-defined basis',
      'Tests compare one hermitian model with hamiltonian and never combine views, scalars, diagonals or non-hermitian lists.',
      ['quspin/operators/quantum_LinearOperator_core.py', 'quspin/basis/base.py'],
      [('views', 'quspin/operators/quantum_LinearOperator_core.py: transpose, conjugate, getH, copy'),
       ('application', 'quspin/operators/quantum_LinearOperator_core.py: _matvec, _mul_sparse, dot'), ('matrix-free kernel', 'quspin/basis/base.py: basis._inplace_Op')],
      technique=AI, level_note=NOTE + ' The basis is represented by an arbitrary user-defined subclass; the compiled in-place kernels of the built-in bases are outside this check.'),
    P('C06', 'Operator operations leave their operands and arguments unchanged',
      'Evaluating, combining, transforming or applying a hamiltonian or quantum_operator never changes the operands or arguments: the other operand, arrays, lists and '
      'parameter and keyword dictionaries passed in, and (except for explicitly in-place operations and requested output arrays) the operator itself keep '
      'the same observable value.',
      ['inputs', 'histories'], 'every operation of the hamiltonian interface, every operand kind, storage format and dtype',
      'Tests compare results of an operation; they almost never re-inspect the operands afterwards, and corruption shows only for specific '
      'storage formats or drive structures.',
      [HAM, FUN, QOP], [('operator overloads', HAM + ': hamiltonian'), ('caches', HAM + ': _get_matvecs')],
      technique=AI, level_note=NOTE),
    P('C07', 'Derived operators do not share state with the operators they came from',
      'A hamiltonian or quantum_operator produced by arithmetic, copying or a copying transformation is independent of the objects it was made from: modifying '
      'either one in place afterwards never changes the observable value of the other.',
      ['histories', 'inputs'], 'every producing operation followed by every in-place modification of the result or of an operand',
      'Needs a two-step history (derive, then modify) per operation and format; tests derive and compare once.',
      [HAM, QOP], [('copy semantics', HAM + ': hamiltonian.__init__(copy=...), copy'), ('sums and products', HAM + ': _add_hamiltonian/...')],
      technique=AI, level_note=NOTE),
    P('C08', 'An operator stays coherent with itself after every operation',
      'After any operation on hamiltonian or quantum_operator objects, the reported dimension, shape, data type and denseness agree with the stored matrices, and '
      'applying the operator to a state gives the same result as its explicit matrix at that time.',
      ['histories', 'inputs'], 'every operation result, in every storage format and dtype, evaluated afterwards',
      'Cached product routines and flags go stale only after particular operation/format sequences that tests do not chain.',
      [HAM, QOP], [('cached products', HAM + ': _get_matvecs'), ('metadata', HAM + ': shape/Ns/dtype/is_dense')],
      technique=AI, level_note=NOTE),
    P('C09', 'Time evolution integrates the documented equation of motion',
      'Whatever the storage format, data type, number of simultaneous states or packing of complex states into real arrays, hamiltonian.evolve '
      'integrates d psi/dt = -iH(t)psi for the Schroedinger equation, d psi/dt = -H(t)psi (with each state rescaled to the norm of its initial '
      'state) for imaginary time, and d rho/dt = -i[H(t),rho] for the Liouville-von Neumann equation, and the evolve function integrates exactly '
      'the user-supplied equation with the user-supplied parameters.',
      ['inputs', 'configurations'], 'all operators, drives, states and times; every storage format, dtype, equation of motion and state rank',
      'Each right-hand side exists in several hand-written variants selected by storage format and options; tests integrate a few symmetric '
      'examples to loose tolerance.',
      [HAM, EV], [('right-hand sides', HAM + ': __SO, __SO_real, __ISO, __LO'), ('packing', EV + ': evolve, _cmplx_f, _format_output')],
      technique=AI, level_note=NOTE),
    P('C10', 'The evolution driver returns the right state for every requested time or raises',
      'For a list of times, a single time or iterate=True, evolve returns for every requested time, in the requested order, the solution that starts '
      'from the given initial state at t0 (the initial state itself at t0), in the shape of the initial state. '
      'If the integrator does not reach a requested time an exception is raised; the chosen solver and solver options reach the integrator; '
      'neither the initial state nor the operator is modified and returned states do not share memory with them or with each other.',
      ['faults', 'inputs', 'histories'], 'all initial states, times and operators; success or failure of every integration step; every output form',
      'Integrator failures, times equal to t0, generators consumed lazily and the memory shared with solver buffers are not exercised by tests.',
      [EV, HAM], [('drivers', EV + ': _evolve_scalar, _evolve_list, _evolve_iter'), ('front end', HAM + ': evolve')],
      technique=AI, level_note=NOTE),
    P('C13', 'No operation fails because of an internal slip',
      'No public function or method fails, on any of its branches, because of a slip inside the package: every name, imported symbol, module member and '
      'instance attribute it reads is defined at that point, every call of a package, native or library function passes arguments its signature '
      'accepts, every object it raises is an exception, and every error message can be formatted with the values given to it.',
      ['inputs', 'configurations'], 'every branch of every function, for every class of object that can run it',
      'A misspelt attribute, a variable assigned on one branch only, or a keyword the callee does not have is met only by the inputs that reach that branch; '
      'error paths, rarely used options and special storage formats are not run by the tests.',
      ['quspin'],
      [('operators', 'quspin/operators'), ('basis classes', 'quspin/basis'), ('tools', 'quspin/tools')],
      technique='static name, attribute and call-signature resolution over the syntax trees of the Python and Cython sources, with a may-be-unassigned '
                'dataflow analysis per function; no code of the repository is executed',
      level_note='Every function of every module is analysed on all its paths. Trusted: tables of the members and signatures of numpy, scipy and the other '
                 'libraries (generated from the installed versions). Receivers of unknown class are checked only against the union of all known attribute '
                 'names; instance attributes count as defined when any method of the class hierarchy assigns them.'),
    P('C15', 'Constructors add up exactly the listed terms, check them and reject bad input',
      'A hamiltonian, quantum_operator or quantum_LinearOperator built from site-coupling lists and/or matrices represents exactly the sum of all listed terms with '
      'their couplings and drives (repeated strings, repeated bonds, shared drives, any order, any storage format), in the requested storage format, for any '
      'user-defined basis. Hermiticity, symmetry and particle-conservation of the complete lists are checked unless switched off, and a refusal by the basis '
      'propagates. Malformed or inconsistent input raises an exception, and the lists, matrices and parameters passed in are not modified.',
      ['inputs', 'configurations'], 'all couplings, matrix elements and drives; list structures and input mixtures as enumerated in the evidence; every user-defined basis',
      'Tests build standard models without repeated bonds, mixed matrices or vanishing terms, and do not inspect the lists afterwards or try malformed ones.',
      [MAKE, 'quspin/basis/base.py', HAM, QOP, 'quspin/operators/quantum_LinearOperator_core.py'],
      [('list consolidation', MAKE + ': make_static, make_dynamic'), ('matrix assembly', 'quspin/basis/base.py: basis._make_matrix'),
       ('constructors', HAM + ': hamiltonian.__init__')],
      technique=AI, level_note=NOTE + ' The basis is represented by an arbitrary user-defined subclass; the compiled bases are outside this check.'),
    P('C24', 'Hermiticity, conservation and symmetry checks accept exactly what they should',
      'For every built-in basis, the hermiticity check accepts a list of operator strings with couplings and drives exactly when the listed operator is hermitian term by term, '
      'the particle-conservation check accepts exactly the operators that conserve the particle number or magnetisation of the basis, and the symmetry check accepts exactly the '
      'operators invariant under each symmetry of the basis. The answer does not depend on how terms are ordered, split into lists or written (operators on different sites may be '
      'listed in any order, with the fermionic sign this implies), couplings, repetitions and drives count, and every refusal is a TypeError.',
      ['inputs', 'configurations'], 'all couplings and drives; for each basis class and symmetry the list structures enumerated in the evidence',
      'The tests switch the checks off or pass symmetric standard models; a check that accepts too much is never noticed by them.',
      ['quspin/basis/base.py', 'quspin/basis/basis_1d', 'quspin/basis/basis_general', 'quspin/basis/tensor.py', 'quspin/basis/photon.py'],
      [('hermiticity and sorting', 'quspin/basis/base.py: check_hermitian, _sort_local_list'), ('symmetry checks', 'quspin/basis/basis_1d/_check_1d_symm.py'),
       ('general maps', 'quspin/basis/basis_general/base_general.py: _check_symm'), ('products', 'quspin/basis/tensor.py, quspin/basis/photon.py: check hooks')],
      technique=AI, level_note=NOTE + ' Oracle: an independent algebra of operator words (adjoint, graded commutation of operators on different sites, site maps, spin inversion), '
      'validated during development against explicit matrices. Chains of 4 sites; user-defined bases and the simple_symm=False particle-hole maps of spinful fermions are outside.'),
    P('C17', 'State words are wide enough for every configuration',
      'Whatever the number of sites, levels per site and requested particle sector, the integers a basis keeps its states in can hold any configuration of the sites, including those an operator '
      'string passes through outside of the sector. No operator on any site loses or invents particles because a word is too short.',
      ['inputs', 'configurations'], 'chains to 90 sites and lattices to 400 sites with up to ten levels per site; empty, small, half-filled and full sectors, alone and together',
      'Tests use small chains, where every choice of word is wide enough.',
      [D1, DG],
      [('chains', D1 + '/*_basis.pyx: get_basis_type'), ('lattices', DG + '/../general_basis_utils.pyx: get_basis_type')],
      technique='static interval-style evaluation of the syntax trees of the type-selection routines over all enumerated sizes and sectors, compared with the bits needed by any configuration of the sites; '
      'nothing of the package is compiled or executed and no solver is used',
      level_note='Sizes are enumerated, not symbolic. Trusted: the names of the integer types state their widths; the use of those words by single operators is C19.'),
    P('C19', 'Operator strings act on product states as the site algebra says',
      'For spins, hard-core bosons, bosons, higher spins and spinless or spinful fermions, on chains and on general lattices, every operator string with any coupling sends each '
      'product state to exactly the product state and matrix element (with phase and fermionic sign) that the site operators, multiplied from right to left, define. This holds for '
      'every site index, string and lattice size up to the full width of the machine word; unknown letters, and complex elements in a real matrix, are refused with an error code.',
      ['inputs', 'configurations'], 'all product states at once; strings of up to three letters on every site order of small lattices, boundary-crossing strings at word-filling sizes',
      'Tests compare a few models on short chains with each other; signs and edge sites of long chains and rarely used letters never occur.',
      [D1, DG],
      [('chain operators', D1 + '/*_ops.pyx: op_func'), ('general operators', DG + '/*_basis_core.h: op'), ('core parameters', 'quspin/basis/basis_1d/*.py: pars')],
      technique=NAT, level_note=NATNOTE),
    P('C26', 'Symmetry maps move product states exactly as declared',
      'Translation, reflection, inversion and their sublattice variants on chains, and every site map of a general lattice, send each product state to the one with sites moved (and '
      'occupations inverted) exactly as declared, whatever the lattice size up to the full width of the machine word and whatever translation distance. For fermions the accompanying '
      'sign is that of reordering the occupied sites; a particle-hole map acts on every creation operator by one fixed sign.',
      ['inputs', 'configurations'], 'all product states at once; the maps, distances and lattice sizes enumerated in the evidence',
      'Tests use short chains and a few lattices; word-filling sizes, large distances and the sign conventions of maps are not sampled.',
      [D1 + '/sources', DG],
      [('chain maps', D1 + '/sources/*_bitops.pyx'), ('general maps', DG + '/*_basis_core.h: map_state'), ('bit networks', DG + '/benes_perm.h')],
      technique=NAT, level_note=NATNOTE),
    P('C27', 'Fixed-number states are enumerated completely, in order',
      'For fixed particle numbers every product state of the sector is visited exactly once, in ascending order from the lowest one, for hard-core, fermionic and many-level sites up to the full width '
      'of the machine word and beyond it. The reported sector sizes are exact, the room set aside is never too small for a symmetry sector, and several sectors given together are joined without '
      'gaps, overlaps or wrong particle numbers.',
      ['inputs', 'configurations'], 'all states by their lowest occupied block with arbitrary contents above; lattices up to 64 sites and more; sectors enumerated in the evidence',
      'Tests enumerate a few small sectors; word-filling sizes, full or empty sectors and sector lists in unusual order are not sampled.',
      [D1 + '/sources', DG],
      [('successors', D1 + '/sources/*_bitops.pyx, *_next_state.pyx; ' + DG + '/*_basis_core.h: next_state_pcon'), ('first states and sizes', DG + '/../*_core.pyx, ' + D1 + '/*_basis.pyx'),
       ('sector loops', D1 + '/sources/*_basis.pyx: n_*_basis')],
      technique='static abstract interpretation of the Cython sources and of the instantiated C++ templates over symbolic bit patterns (the digits the successor inspects are enumerated, all higher ones are '
      'arbitrary), and evaluation of the counting routines; compared with the combinatorial enumeration; nothing of the package is compiled or executed and no solver is used',
      level_note='The lowest occupied block and the gap above it are enumerated with every offset, the contents above them stay symbolic. Trusted: the transfer functions of the Cython and C++ operations; '
      'that symmetric sectors keep the right representatives is C28 and C29.'),
    P('C28', 'Symmetry sectors of chains are exact projections',
      'The basis a chain builds for any combination of symmetry blocks (translation with any unit cell, reflection, inversion, sublattice inversions, their products, with or without '
      'fixed particle number) holds exactly one normalised state for each independent symmetric combination of product states. Operators built in that basis have exactly the matrix '
      'elements the full operators have between those states, for every site dimension and fermion sign. Projectors and lifted vectors in the full space are exactly those states.',
      ['inputs', 'configurations'], 'all product states of any chain with the enumerated numbers of unit cells (by their stabiliser and its sign character), all sectors',
      'Tests compare spectra of short chains; rare stabilisers, unit cells, long chains and fermion sign characters are not sampled.',
      ['quspin/basis/basis_1d', D1 + '/sources'],
      [('representatives', D1 + '/sources/checkstate.pyx, refstate.pyx'), ('bases', D1 + '/sources/basis_templates.pyx'), ('matrix elements', D1 + '/sources/op_templates.pyx'),
       ('driver and projectors', 'quspin/basis/basis_1d/base_1d.py')],
      technique='static abstract interpretation of the Cython sources and of the Python class driving them over a finite orbit abstraction (a product state is replaced by its coset, stabiliser and '
      'sign character in the symmetry group), compared with the explicit projection; nothing of the package is compiled or executed and no solver is used',
      level_note='States enter the routines only through comparisons and symmetry maps, so the orbit types stand for all states of all chains with the given number of unit cells (2 to 4 cells '
      'quick, to 6 thorough; unit cells to 31 sites for the width of the normalisation tables). Order of the states within an orbit below the largest is sampled. Trusted: the transfer '
      'functions of the Cython and array operations; the symmetry maps themselves are C26, the enumeration of states and single operators C27 and C19.'),
    P('C29', 'Symmetry sectors of general lattices are exact projections',
      'The basis built for any commuting symmetry maps of a general lattice holds exactly one normalised state for each symmetric combination that exists in the sector. Matrices, '
      'in-place products, changes of sector, individual matrix elements, amplitudes and projections in either direction agree with those normalised states, whatever the number of '
      'threads and with or without fixed particle number or look-up blocks. States outside a sector are dropped, errors of single operators and complex values in real arrays are reported.',
      ['inputs', 'configurations', 'schedules'], 'all product states (by stabiliser and sign character) of products of cyclic maps, all sectors; one and three threads switching at barriers',
      'Tests compare spectra of a few lattices with one or two maps; rare stabilisers, several maps together, sign characters and the less used entry points are not sampled.',
      [DG],
      [('bases', DG + '/make_general_basis.h, general_basis_core.h'), ('operators', DG + '/general_basis_op.h'), ('projections', DG + '/general_basis_get_vec.h'),
       ('amplitudes and representatives', DG + '/general_basis_get_amp.h, general_basis_rep.h')],
      technique='static abstract interpretation of the syntax tree of the instantiated C++ templates, OpenMP regions included, over a finite orbit abstraction (a product state is replaced by its '
      'coset, stabiliser and sign character in the symmetry group), compared with the explicit projection; nothing of the package is compiled or executed and no solver is used',
      level_note='States enter these routines only through comparisons, symmetry maps and the operator, so the orbit types stand for all states of all lattices with the given periods (products '
      'of up to three cyclic maps; larger groups in the thorough tier). Threads are switched at barriers only: races inside a region are outside. Trusted: the transfer functions of the C++ '
      'operations; the symmetry maps are C26, the single operators C19. The Cython wrappers and the Python class around the routines are outside.'),
    P('C25', 'Product states are found at their position in a basis',
      'Asked for the position of a product state, given as integers or as text, every lattice basis returns the position of exactly that state and refuses states it does not contain; converting a '
      'state to its name and back gives the same state. A composite basis finds the state made of the states of its parts, a photon basis the state with the given number of photons, however many, '
      'with or without a fixed total.',
      ['inputs', 'configurations'], 'all states of lattices of two and three sites, all kinds of lattice basis, photon numbers up to thirteen',
      'Tests look up a handful of spin states with few photons.',
      ['quspin/basis'],
      [('look-ups', 'quspin/basis/basis_1d/base_1d.py (_index, _int_to_state), quspin/basis/basis_general/base_general.py, fermion.py (index)'), ('composite bases', 'quspin/basis/tensor.py, quspin/basis/photon.py (index)')],
      technique='static abstract interpretation of the syntax trees of the look-up routines, constructors and base classes over enumerated states, compiled routines replaced by their specification, '
      'compared with the enumeration of the basis; nothing of the package is compiled or executed and no solver is used',
      level_note='Lattice sizes and states are enumerated. Trusted: the transfer functions of the array operations; the compiled search of the general bases is replaced by its specification.'),
    P('C30', 'Requested particle sectors are all present exactly once',
      'A basis asked for particle numbers as a number, a density, a list, tuple or range in any order, or as the total of a photon and lattice system, holds exactly the product states of those '
      'sectors, each once and in descending order, also on lattices too large for 64-bit states. A photon basis with a fixed total pairs each lattice state with the one photon number that completes the total, whatever the kind of lattice basis and '
      'however large the total.',
      ['inputs', 'configurations'], 'all sector requests on lattices of up to five sites, all densities on lattices of up to 24 sites, all totals up to beyond the full lattice',
      'Tests use one sector or a few totals on single kinds of lattice basis.',
      ['quspin/basis'],
      [('constructors', 'quspin/basis/basis_1d/{spin,boson,fermion}.py, quspin/basis/basis_general/*.py'), ('base classes', 'quspin/basis/basis_1d/base_1d.py, quspin/basis/basis_general/base_general.py'),
       ('photon basis', 'quspin/basis/photon.py')],
      technique='static abstract interpretation of the syntax trees of the constructors and base classes over enumerated sector requests, every compiled enumeration routine replaced by its specification '
      '(the sectors it is asked for and the element types of its arrays), compared with the union of the requested sectors; nothing of the package is compiled or executed and no solver is used',
      level_note='Lattice sizes and requests are enumerated. Trusted: the transfer functions of the array operations; the replaced enumeration routines are C27, symmetry reduction is C28 and C29. '
      'Composite bases other than the photon basis are outside.'),
    P('C50', 'The sectors of a symmetry together reproduce the full spectrum',
      'For operators that respect the symmetries given to a basis, the eigenvalues found in all symmetry sectors together, with multiplicity, are exactly '
      'the eigenvalues in the full Hilbert space, for every lattice, symmetry group and particle sector.',
      ['inputs'], 'all lattices, symmetry maps, sectors and operators',
      'Tests compare a handful of lattices and models.',
      ['quspin/basis/basis_general', 'quspin/basis/basis_1d'], [('representatives and normalisations', 'quspin/basis/basis_general/_basis_general_core/source')],
      na='that each sector is the exact projection is decided for chains and general lattices by C28 and C29; that the eigenvalues of assembled matrices '
         'together exhaust the spectrum of a user-supplied operator is a statement about run-time numbers that no dataflow argument in reach bounds'),
    P('C51', 'Projectors between reduced and full bases are isometries',
      'The projector returned by a basis has orthonormal columns, and lifting a state to the full basis and projecting it back returns the state, for every '
      'lattice, symmetry and sector.',
      ['inputs'], 'all bases and states', 'Tests sample small lattices.',
      ['quspin/basis/basis_general/base_general.py'], [('get_proj / project_from / project_to', 'quspin/basis/basis_general/base_general.py')],
      na='decided for chains and general lattices as part of C28 and C29; for every basis, user-defined and composite ones included, it is a numerical fact '
         'about run-time tables, not about the source'),
    P('C52', 'Entropies and reduced density matrices have their defining properties',
      'Reduced density matrices are positive with unit trace, pure-state entropies of complementary subsystems agree, and Renyi entropies tend to the von '
      'Neumann entropy, for every state and subsystem.',
      ['inputs'], 'all states, subsystems and basis types', 'Tests sample random states.',
      ['quspin/basis/lattice.py', 'quspin/basis/tensor.py', 'quspin/basis/photon.py'], [('ent_entropy, partial_trace', 'quspin/basis')],
      na='positivity, traces and logarithms of singular values are numerical facts about run-time arrays; the index permutations involved depend on the '
         'run-time subsystem list'),
    P('C53', 'Krylov, Taylor and ODE iterations converge to the exact result',
      'Lanczos exponentials and finite-temperature averages, the parallel Taylor exponential and the ODE integrators approach the exact result within the '
      'requested tolerance for every hermitian operator and state.',
      ['inputs'], 'all operators, states, times and tolerances', 'Tests compare single cases against dense diagonalisation.',
      ['quspin/tools/lanczos', 'quspin/tools/expm_multiply_parallel_core', 'quspin/tools/evolution.py'], [('iterations', 'quspin/tools/lanczos')],
      na='convergence and rounding of floating-point iterations is outside static reach (the algebra of the right-hand sides and drivers is decided in C09 and C10)'),
    P('C54', 'The specialised 1d bases and the general bases describe the same physics',
      'A basis built by the specialised one-dimensional classes and the general-lattice basis with the corresponding symmetry maps give unitarily '
      'equivalent operators with the same matrix elements up to basis phases.',
      ['inputs'], 'all chain lengths, sectors and operators', 'Tests compare some chains.',
      ['quspin/basis/basis_1d', 'quspin/basis/basis_general'], [('two implementations', 'quspin/basis')],
      na='two unrelated bit-manipulation algorithms with run-time loops; equivalence is a semantic fact about their outputs that static analysis in reach cannot relate'),
]
