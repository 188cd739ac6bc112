"""Properties decided on client programs of the operator classes."""
from ..program import Program
from ..report import Report
from ..runner import run_items, feed, settle
from . import hamops, evalham, evolve, qops, construct, linop, expop, symm, native, sector, lattice, succ, filling
from .hamops import Undecided, Budget

# property -> rules taken from each scenario family
RULES = {
    'C01': {'algebra': ('value', 'reject', 'identity', 'promote')},
    'C02': {'routes': ('route',)},
    'C03': {'qop': ('qroute', 'qalg', 'identity')},
    'C04': {'expop': ('exp',)},
    'C05': {'linop': ('route',)},
    'C06': {'algebra': ('purity',), 'routes': ('purity',), 'qop': ('purity',), 'linop': ('purity',), 'expop': ('purity',)},
    'C07': {'algebra': ('independence',), 'routes': ('alias',), 'qop': ('independence', 'alias'), 'linop': ('alias',)},
    'C08': {'algebra': ('evaluate', 'metadata'), 'qop': ('evaluate', 'metadata')},
    'C09': {'evolve': ('rhs', 'norm')},
    'C10': {'evolve': ('state', 'fail', 'options', 'inputs')},
    'C15': {'construct': ('construct', 'inputs', 'checks', 'reject')},
    'C19': {'act': ('act', 'reject')},
    'C24': {'symm': ('herm', 'pcon', 'symm')},
    'C26': {'map': ('map',)},
    'C28': {'sector': ('basis', 'matrix'), 'driver': ('driver', 'lift')},
    'C29': {'lattice': ('basis', 'representative', 'blocks', 'op', 'apply', 'shift', 'braket', 'braket-number', 'project', 'project-number', 'amplitude', 'status', 'free')},
    'C17': {'width': ('width',), 'word': ('word',)},
    'C27': {'succ': ('next', 'last', 'room', 'loop', 'ends')},
    'C25': {'index': ('index',)},
    'C30': {'filling': ('sectors', 'photon', 'density')},
}
FLOOR = {
    'C01': {'value': 400, 'identity': 100, 'reject': 4},
    'C02': {'route': 350},
    'C03': {'qroute': 600, 'qalg': 800, 'identity': 100},
    'C04': {'exp': 2000},
    'C05': {'route': 1500},
    'C06': {'purity': 10000},
    'C07': {'independence': 1500, 'alias': 3000},
    'C08': {'evaluate': 800, 'metadata': 800},
    'C09': {'rhs': 400, 'norm': 100},
    'C10': {'state': 600, 'fail': 400, 'options': 400, 'inputs': 1000},
    'C15': {'construct': 250, 'inputs': 300, 'checks': 60, 'reject': 35},
    'C19': {'act': 300},
    'C26': {'map': 200},
    'C28': {'basis': 200, 'matrix': 200, 'driver': 150, 'lift': 300},
    'C29': {'basis': 40, 'op': 40, 'apply': 40, 'shift': 40, 'braket': 40, 'project': 40, 'amplitude': 40},
    'C17': {'width': 300, 'word': 800},
    'C27': {'next': 40, 'room': 20, 'loop': 100, 'ends': 20},
    'C25': {'index': 150},
    'C30': {'sectors': 400, 'photon': 300, 'density': 1000},
    'C24': {'herm': 3000, 'pcon': 400, 'symm': 5000},
}
TEXT = {
    'C01': 'abstract interpretation of every operator-algebra client program (operation x storage format x drive structure x dtype) '
           'over the Herbrand/GVN term domain; the denotation static+sum f_k(t) D_k of the result is compared with the ring-theoretic '
           'specification, in-place forms must keep the object identity, and results that do not fit must be rejected',
    'C02': 'abstract interpretation of one client program per public evaluation route (application from either side, conversion, indexing, '
           'measurement, diagonalisation) x storage format x drive structure; the term computed by the route is compared with the term '
           'computed from the explicit matrix static+sum f_k(t) D_k',
    'C03': 'abstract interpretation of one client program per evaluation route and per algebraic operation of the parameter-dependent operator x '
           'storage format x which parameters are given; the result is compared with the term computed from sum_k p_k O_k (missing p_k = 1)',
    'C04': 'abstract interpretation of one client program per kind of operator, setting (prefactor, grid, end point, iteration, changed afterwards), view '
           '(transpose, conjugate, adjoint, copy) and route (application from either side, sandwich, explicit matrix, rotation of a hamiltonian) of exp_op; every '
           'grid point of the result is compared with the term exp(a*g*O) applied as specified, matrix exponentials being uninterpreted up to exp(A^T)=exp(A)^T, '
           'exp(A)^H=exp(A^H) and exp(xA)exp(yA)=exp((x+y)A)',
    'C05': 'abstract interpretation of one client program per view (transpose, conjugate, adjoint, copy, scaling and their combinations) and evaluation route '
           '(products with vectors, matrices, sparse matrices and hamiltonians from either side, measurements, in-place scaling) of the matrix-free operator over '
           'a user-defined basis with symbolic matrix elements; the result is compared with the term computed from the explicit matrix of the coupling list plus diagonal',
    'C06': 'effect analysis by abstract interpretation: the observable state of every operand and input array before and after each '
           'operation and each evaluation route is compared',
    'C07': 'alias analysis by abstract interpretation: after each operation the result (and each operand) is modified in place and the '
           'observable state of all other objects is compared; arrays returned by evaluation routes are overwritten likewise',
    'C08': 'coherence of cached products, dimension, shape and denseness with the stored matrices for every operation result',
    'C09': 'abstract interpretation of H.evolve / evolve with an uninterpreted ODE integrator: the right-hand side handed to the integrator '
           'is evaluated on a symbolic state and, after undoing the packing of the state, compared with the equation of motion',
    'C10': 'abstract interpretation of the evolution driver (generators, lists, scalars) with an uninterpreted integrator: the returned states are '
           'flow terms whose initial value, start time, end time and order are compared with the request; both outcomes of every integration step '
           'are explored, solver options are traced to the integrator, and inputs/results are checked for modification and sharing',
    'C15': 'abstract interpretation of the constructors of hamiltonian, quantum_operator and quantum_LinearOperator on coupling lists and matrices (repeated '
           'strings and bonds, diagonal and off-diagonal, vanishing, mixed with dense and sparse matrices, shared and distinct drives) over a user-defined '
           'basis whose matrix elements are symbolic coordinate triples; the represented matrix is compared with the sum of the listed terms, the calls of the '
           'hermiticity/symmetry/particle checks are traced, inputs are compared before and after, and malformed inputs must raise on every path; compiled '
           'element loops (numba) are summarised by their dataflow',
    'C19': 'abstract interpretation of the compiled operator routines (op_func of the chain extensions from the Cython syntax tree with the parameters the Python '
           'constructors pass, op of the general cores from clang\'s syntax tree of the instantiated templates) on one symbolic product state whose bits are GF(2) polynomials; '
           'on every partition the final state, the matrix element, its phase and its fermionic sign are compared with the operator algebra of the site',
    'C26': 'abstract interpretation of the compiled symmetry maps (translation, reflection, inversion of the chain extensions; map_state of the general cores, with the bit-permutation '
           'networks their constructors build) on a symbolic product state; the image must be the state with the sites moved and inverted as the map says, the sign the parity of '
           'the inversions among occupied sites, and no shift may leave the width of the word',
    'C28': 'abstract interpretation of the basis construction and operator routines of the chain extensions (Cython syntax tree) and of the Python class driving them over abstract '
           'orbits: a product state is its coset in the symmetry group, for every stabiliser and every sign character of the stabiliser; the states kept, the matrix elements of every '
           'elementary operator and the lifted vectors are compared with the explicit projection in the signed permutation representation',
    'C29': 'abstract interpretation of the instantiated C++ templates of the general bases (clang syntax tree; parallel regions with one and with three threads) over abstract orbits '
           'of products of cyclic symmetry maps: representatives, norms, look-up tables, matrix elements, in-place application, sector changes, individual matrix elements, projection '
           'in both directions and amplitudes are compared with the explicit projection in the signed permutation representation',
    'C17': 'interpretation of the syntax trees of the routines that choose the integer type of a basis, for every number of sites up to 90 (and up to 400 on lattices), levels per site and '
           'particle sector, and of the constructors that call them; the type is compared with the number of bits needed by any configuration of the sites',
    'C27': 'abstract interpretation of the successor functions of fixed-number states (Cython chain sources, Python integers included, and instantiated C++ templates of the general cores) over bit '
           'patterns with arbitrary prefix, and interpretation of the first-state, counting, allocation and sector-loop routines; compared with the combinatorial enumeration and with Burnside counts '
           'of orbits',
    'C25': 'interpretation of the syntax trees of the look-up, naming and constructor routines of all lattice, tensor and photon bases for every state of small systems, as integers and as text; '
           'positions are compared with the enumeration of the states of the basis',
    'C30': 'interpretation of the syntax trees of every lattice-basis constructor, the chain and general base classes and the photon basis for every request of particle sectors (numbers, lists, '
           'tuples, ranges, densities, total particle and photon number), the compiled enumeration replaced by its specification; states, dimension and photon numbers are compared with the union of the sectors',
    'C24': 'abstract interpretation of check_hermitian, check_pcon and check_symm of every basis class on generated coupling lists with symbolic couplings '
           '(adjoint pairs, symmetry orbits, number-conserving words; each also incomplete, with a wrong sign, another coupling or another drive, listed twice, '
           'rewritten in another order); acceptance is compared with a reference algebra of operator words (adjoint, graded reordering, site maps, spin inversion)',
}


def algebra(prog, it):
    sc, spec = it
    try:
        for cl, vd, oc, msg, loc in settle(hamops.run_scenario(prog, sc, spec)):
            yield (cl, sc.label, vd, oc, msg, loc)
    except (Undecided, Budget, RecursionError) as e:
        for cl in ('value', 'purity', 'independence', 'evaluate', 'metadata'):
            yield (cl, sc.label, 'undecided', '%s %s' % (type(e).__name__, e), '', None)


def item(prog, it):
    fam, x = it
    return {'algebra': algebra, 'routes': evalham.run_route, 'evolve': evolve.run_evolve, 'qop': qops.run_qop,
            'construct': construct.run_construct, 'linop': linop.run_linop, 'expop': expop.run_expop, 'symm': symm.run_symm,
            'act': native.run_act, 'map': native.run_map, 'sector': sector.run_sector, 'driver': sector.run_driver, 'lattice': lattice.run_lattice, 'width': succ.run_succ, 'succ': succ.run_succ,
            'filling': filling.run_filling, 'word': filling.run_word, 'index': filling.run_index}[fam](prog, x)


def run(prop):
    rep = Report(prop, 'other', FLOOR[prop])
    prog = Program()
    fams = {'algebra': hamops.scenarios, 'routes': evalham.scenarios, 'evolve': evolve.scenarios, 'qop': qops.scenarios,
            'construct': construct.scenarios, 'linop': linop.scenarios, 'expop': expop.scenarios, 'symm': symm.scenarios,
            'act': native.act_scenarios, 'map': native.map_scenarios, 'sector': sector.scenarios, 'driver': sector.driver_scenarios, 'lattice': lattice.scenarios, 'width': succ.width_scenarios, 'succ': succ.scenarios,
            'filling': filling.scenarios, 'word': filling.word_scenarios, 'index': filling.index_scenarios}
    broken, cov, n = None, set(), {}
    for fam, rules in RULES[prop].items():
        items = [(fam, x) for x in fams[fam](rep.tier)]
        res, errs, cv = run_items(prog, items, item)
        cov.update(cv)
        n[fam] = len(items)
        feed(rep, res, rules)
        for i, e in errs:
            rep.undecided(rules[0], str(items[i][0]), 'analyser error: ' + e.strip().splitlines()[-1])
        if len(errs) > len(items) // 4:
            broken = 'analyser error in %d client programs: %s' % (len(errs), errs[0][1].strip().splitlines()[-1])
    return rep.finish(TEXT[prop], units={'client_programs': n, 'functions_interpreted': sorted(c for c in cov if c.startswith('quspin'))}, broken=broken)
