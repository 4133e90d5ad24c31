"""Per-property configuration: harness units, sources, functions under contract, assumptions."""
PROPS = {}
FE = ['tetra.cpp', 'triangle.cpp']
GP = [{}, {'ONE_GAUSS_POINT': 1}]
def P(pid, units, functions, **k): PROPS[pid] = dict(units=units, functions=functions, **k)
def U(harness, srcs=(), **k): return dict(harness=harness, srcs=list(srcs), **k)

P('C01', [U('c01.cpp')], ['Nodes::Node::setBasis (src/node.h)'])
P('C02', [U('c02.cpp')], ['Nodes::Node::make_evol', 'Nodes::Node::evolution', 'Nodes::Node::proj_ep/proj_eq', 'Nodes getters (src/node.h)'])
P('C03', [U('c03.cpp', FE, variants=GP)], ['Tetra::Tet::Tet', 'Tet::orientate', 'Tet::Jacobian', 'Tet::calc_vol', 'element::element', 'element::existNodes'])
P('C04', [U('c04.cpp', FE, variants=GP)], ['Triangle::Tri::Tri', 'Tri::calc_norm', 'Tri::calc_surf', 'Tri::operator=='])
P('C05', [U('c05.cpp', FE, variants=GP)], ['Tet::interpolation (3 overloads)', 'Tet::interpolation_field', 'Tet::getPtGauss', 'Tri::interpolation (2 overloads)', 'Tri::getPtGauss', 'quadrature tables of tetra.h and triangle.h'])
P('C06', [U('c06.cpp', FE, variants=GP)], ['Tet::integrales', 'Tet::lumping', 'Tet::calcDiagBlock', 'Tet::calcOffDiagBlock', 'Tet::add_drift_BE', 'element::buildMatP'],
  assumptions=['calc_alpha_eff is replaced by its contract (C07) inside integrales; calc_aniso_cub is used through its contract (C08)',
   'the recentering drift term is specified with the reduced step gamma0*theta*dt as the code documents it'])
P('C07', [U('c07.cpp', FE, variants=GP)], ['Tetra::calc_alpha_eff', 'timing::timing', 'timing::set_dt', 'timing::inc_t', 'timing::set_t', 'timing::is_dt_TooSmall'])
P('C08', [U('c08.cpp', FE, variants=GP)], ['Tet::calc_aniso_uniax', 'Tet::calc_aniso_cub', 'Tri::integrales', 'Tet::uniaxialAnisotropyEnergy', 'Tet::cubicAnisotropyEnergy', 'Tri::anisotropyEnergy'])

P("C09", [U("c09.cpp", FE, variants=GP), U("c09b.cpp", FE + ["mesh.cpp", "energy.cpp"])], ["Fem::energy", "Fem::evolution", "Fem::Fem", "Settings::getField / getFieldTime / getFieldSpace", "Tet::exchangeEnergy", "Tet::uniaxialAnisotropyEnergy", "Tet::cubicAnisotropyEnergy", "Tet::demagEnergy", "Tet::zeemanEnergy (2 overloads)", "Tri::anisotropyEnergy", "Tri::demagEnergy"],
  assumptions=["mesh::init_distrib replaced by a no-op contract where only energies are checked"],
  bounded=["Fem::energy: one 3-tetrahedron mesh with 6 region layouts, with and without surface elements, charge suppression and anisotropies; all fields and constants symbolic"])
P("C10", [U("c10.cpp", FE, variants=GP, entry_opts={"potential_value": dict(native_only=True)}), U("c10b.cpp", FE + ["mesh.cpp"])], ["scal_fmm::fmm::fmm", "fmm::insertCharges", "fmm::calc_charges", "fmm::demag", "fmm::calc_demag", "Tet::charges", "Tri::charges", "Tri::correctionCharges", "Tri::potential (bounded: replay against quadrature)"],
  assumptions=["ScalFMM is not installed: its containers are replaced by stubs/vf_scalfmm.h, which keeps the inserted particles; the far-field solver returns arbitrary potentials", "Tri::correctionCharges inside calc_charges is used through its contract (own three nodes only)"],
  bounded=["Tri::potential: compared with a numerical quadrature on sampled triangles only", "charge list: one 3-tetrahedron mesh with 6 region layouts; all nodal fields symbolic; two successive computations"])
P("C11", [U("c11.cpp", entry_opts={"large": dict(native_only=True, samples=60)})], ["SparseMatrix::SparseMatrix", "SparseMatrix::set", "SparseMatrix::add", "SparseMatrix::clear", "SparseMatrix::operator()", "SparseMatrix::mult", "SparseMatrix::build_diag_precond", "algebra::scaled/add/sub/scaled_add/p_direct/applyMask/dot/norm/check"],
  bounded=["matrix and vector sizes up to 4 (values symbolic, every subset shape of one row); step contracts from an arbitrary state make histories unbounded"])
MS = FE + ['mesh.cpp']
LARGE = {"large": dict(native_only=True, samples=60)}   # replay on meshes of some hundred elements
P("C12", [U("c12.cpp", MS, entry_opts=LARGE)], ["solver<1|2|3>::build_shape", "solver<1|2|3>::buildMat<3|4>", "solver<1|2|3>::buildVect<3|4>"],
  assumptions=["SparseMatrix::add is used through its contract (C11) where node numbers are symbolic"],
  bounded=["pattern: every edge set and filter on up to 4 nodes; scatter with concrete node numbers: 5 nodes, arbitrary prior state (scatter of matrices is also proved for symbolic node numbers without bound)"])
P("C13", [U("c13.cpp")], ["algebra::cg", "algebra::cg_dir", "algebra::bicg", "algebra::bicg_dir (2 overloads)", "algebra::iteration (constructor, reset, ++, converged, finished, getters)", "SparseMatrix::mult and vector primitives inside the loops"],
  assumptions=["norm is used through its contract (C11); scalar products are unconstrained reals inside the loops", "NaN and infinities inside the recurrences are covered by the monitor contract (a NaN residual is never a success), not by the real-number semantics"],
  bounded=["systems of 3 unknowns with symbolic coefficients; the number of iterations is unbounded (loop invariant)"])
P("C14", [U("c14.cpp", MS + ['solver.cpp', 'linear_algebra.cpp', 'chronometer.cpp'])], ["LinAlgebra::LinAlgebra", "LinAlgebra::solve", "LinAlgebra::buildInitGuess", "LinAlgebra::prepareElements (2 overloads)", "mesh::updateNode", "mesh::setBasis", "mesh::evolution", "mesh::isMagnetic", "solver<2>::buildMat/buildVect/build_shape"],
  assumptions=["bicg_dir is used through its contract (C13), Node::make_evol and setBasis through theirs (C02, C01), Tet::integrales and Tri::integrales through theirs (C06, C08)", "verbose output off"],
  bounded=["three mesh configurations (3 tetrahedra, 3 triangles, 6 nodes; one, two or three magnetic tetrahedra) with symbolic element systems, node states and leftovers of earlier solves"])
P("C15", [U("c15.cpp", MS, opts=dict(maxpaths=20000), entry_opts=LARGE)], ["mesh::controlTriangles", "mesh::diffTriHandler", "mesh::assertNoErrInTriangle", "BasicTri", "Tri::Tri (created elements)"],
  bounded=["meshes of up to 3 tetrahedra and 4 surface elements on 6 nodes (every index order of a tetrahedron, every order of surface elements, every region combination of the test bed); saturation magnetizations symbolic"])
P("C16", [U("c16.cpp", MS, entry_opts=LARGE)], ["mesh::mesh (full constructor)", "mesh::sortNodes", "mesh::doOnNodes / minNodes / maxNodes", "mesh::setExtSpaceField", "mesh::isMagnetic (2 overloads)", "mesh::controlTriangles (inlined)"],
  assumptions=["gmsh input replaced by the harness mesh; the JavaScript field is an uninterpreted function of the position"],
  bounded=["extent: up to 4 nodes with symbolic coordinates; renumbering: 5 nodes with symbolic coordinates and contents (all orders and ties), 3 axes; full constructor: one 7-node, 3-tetrahedron mesh under an arbitrary symbolic translation, 3 aspect ratios, 4 index orders, 6 region layouts, surface elements with and without suppression"])
P("C17", [U("c17.cpp", MS, variants=GP, entry_opts=LARGE)], ["mesh::avg", "mesh::thiele", "mesh::max_angle", "Nodes::get_u_comp / get_v_comp", "Tet::interpolation (component getter)"],
  assumptions=["cos(acos(x)) = x: the argument of acos lies in [-1,1]"],
  bounded=["meshes of 3 tetrahedra on 6 nodes, 6 region layouts, symbolic gradients, volumes and nodal fields"])
P("C18", [U("c18.cpp", MS + ["chronometer.cpp"], entry_opts={"integrate_many": dict(native_only=True)})], ["Fem::time_integration", "Fem::compute_all", "Fem::evolution", "TimeStepper::TimeStepper", "TimeStepper::operator()", "TimeStepper::set_soft_limit", "timing::inc_t / set_t / get_t / is_dt_TooSmall", "Settings::getField / getFieldTime"],
  assumptions=["LinAlgebra::solve, base_projection, prepareElements, Fem::energy, recenter, saver are used through their contracts (C14, C09, C23, C21): the harness supplies every outcome of a solve", "fmm::calc_demag and mesh::max_angle through C10 and C17; timing::set_dt through C07; LogStats::add through C22", "no signal is received", "real arithmetic: exactness of the output times under rounding is replayed natively only"],
  bounded=["number of output times of the run: 1 to 3 (each interval with any number of accepted and rejected steps: invariant at the choice of the step); longer runs are replayed natively"])
P("C19", [U("c19.cpp", MS + ["electrostatSolver.cpp", "chronometer.cpp"])], ["electrostatSolver::electrostatSolver", "electrostatSolver::integrales (tetrahedron, triangle)", "electrostatSolver::getSigma / getCurrentDensity", "electrostatSolver::solve", "electrostatSolver::compute", "electrostatSolver::checkBoundaryConditions", "solver<1>::buildMat / buildVect / build_shape", "suppress_copies"],
  assumptions=["cg_dir is used through its contract (C13)", "gradients and weights of the elements are arbitrary reals here (C03, C04 prove what they are)", "the optional potential file is not written"],
  bounded=["assembly: one mesh of 6 nodes, 3 tetrahedra and 4 surface elements with 9 region/surface layouts; every coefficient, gradient and weight symbolic; element contracts are for one arbitrary element"])
P("C20", [U("c20.cpp", MS + ["electrostatSolver.cpp", "spinAccumulationSolver.cpp", "chronometer.cpp"])], ["spinAcc::spinAcc", "spinAcc::integrales (matrix, source)", "spinAcc::boundaryConditions / fillDirichletData", "spinAcc::solve", "spinAcc::compute", "spinAcc::prepareExtraField", "spinAcc::checkBoundaryConditions", "spinAcc::getDiffusionCst and getters", "Tetra::calc_gradV", "Tetra::calc_Hst", "Tet::calcDiagBlock / calcOffDiagBlock", "solver<3>::buildMat / buildVect / build_shape"],
  assumptions=["bicg_dir and cg_dir are used through their contracts (C13, C19)", "gradients and weights of the elements are arbitrary reals (C03, C04 prove what they are)", "as implemented, the precession blocks use the CURRENT state of the nodes and the source the NEXT one", "the right-hand side of prescribed components is not constrained: bicg_dir masks it (C13)"],
  bounded=["assembly: one mesh of 6 nodes, 3 tetrahedra and 4 surface elements with 9 region/surface layouts; every coefficient, gradient, weight, nodal state and leftover of earlier computations symbolic; element contracts are for one arbitrary element"])
P("C21", [U("c21.cpp", MS + ["chronometer.cpp"], entry_opts=LARGE)], ["mesh::savesol", "mesh::readSol", "electrostatSolver::save", "on_fail_msg_error"],
  assumptions=["the text of a number is an opaque word that reads back as the number (precision is recorded; the real formatting is replayed natively)", "std::ofstream, std::ifstream and std::istringstream are replaced by the classes of vf_files.h in the verifier run"],
  bounded=["files of 3 and 4 nodes, every node order; values symbolic"])
P("C22", [U("c22.cpp")], ["LogStats::add", "LogStats::count", "LogStats::mean", "LogStats::stddev"])
P("C23", [U("c23.cpp", MS + ["recentering.cpp"])], ["Fem::recenter", "Fem::direction", "Fem::Fem (recentering part)"],
  assumptions=["the ANN library (not in /repo) is used through its contract: it returns the index of a nearest node", "mesh::avg is used through its contract (C17)", "every node belongs to a magnetic region"],
  bounded=["one 7-node, 3-tetrahedron mesh; node coordinates, magnetization, thresholds and axes symbolic or exhaustively enumerated"])
P("C24", [U("c24.cpp", MS + ["chronometer.cpp"], libs=["-lyaml-cpp"])], ["Settings::Settings", "Settings::read(YAML::Node)", "Settings::toYaml", "Settings::evolMetadata / solMetadata / commonMetadata", "assign (scalar, vector)", "str / replace", "isOrthogonal", "Settings::findRegionIdx"],
  assumptions=["yaml-cpp (not in /repo) is used through its contract: harness/ym.h reads the part of YAML these documents use; the native replay uses the real library", "the text of a number is an opaque word that reads back as the number (the digits printed are replayed natively)", "the default document is taken from src/default-settings.yml, comment lines dropped (the build embeds it with ld)", "ExpressionParser::set_function and set_expressions are used through their contract (C27)"],
  bounded=["documents with every key present, absent or empty (one at a time, and by section), fixed sets of names, expressions and metadata; every number symbolic"])
P("C26", [U("c26.cpp", MS)], ["mesh::readMesh", "mesh::checkMeshFile", "mesh::readNodes", "mesh::readTetraedrons", "mesh::readTriangles", "checkNamedObjects", "all_elems_are"],
  assumptions=["gmsh (not in /repo) is used through its contract: harness/gm.h answers every query from one model of the file"],
  bounded=["files of a few nodes, elements and groups, every tag order of the bed; coordinates and scale symbolic"])
P("C27", [U("c27.cpp", MS)], ["ExpressionParser::*", "Settings::getField / getFieldSpace / getFieldTime / getMagnetization / getMagType", "mesh::init_distrib", "Nodes::Node initial state"],
  assumptions=["duktape is used through its contract: harness/dk.h is a stack machine whose functions are uninterpreted functions of their arguments", "the user's magnetization vector is not zero"],
  bounded=["one 7-node mesh and its region layouts; positions, times and values of the expressions symbolic"])
P("C28", [U("c28.cpp", MS + ["chronometer.cpp"])], ["Fem::saver", "mesh::savesol", "Settings::getField", "Settings::findRegionIdx<Tetra::prm>", "mesh::avg / thiele / max_angle (callees, C17)"],
  assumptions=["the text of a number is an opaque word that reads back as the number (vf_files.h; the real formatting is replayed natively)", "Settings::solMetadata is used through its contract (C24)", "mesh::init_distrib replaced by a no-op contract (the state is arbitrary)"],
  bounded=["one 7-node mesh with 2 region layouts; every column name, alone and in tables of 2 and 3 columns, for every region; all values symbolic"])

P("C25", [U("c25.cpp", MS + ["energy.cpp", "linear_algebra.cpp", "solver.cpp", "electrostatSolver.cpp", "spinAccumulationSolver.cpp", "chronometer.cpp"], variants=[{'ENABLE_SEQ': 0}], defs=['-include', 'par.h'], entry_opts={"threads": dict(native_only=True, samples=6)})],
  ["every loop of the list below that takes EXEC_POL: its iterations own what they modify", "mesh::mesh (sort, unique)", "mesh::setBasis / evolution", "mesh::init_distrib", "mesh::avg / thiele / max_angle", "LinAlgebra::prepareElements (2 overloads)", "LinAlgebra::solve", "SparseMatrix::add / mult", "solver<D>::buildMat / buildVect", "Fem::energy, electrostatSolver::solve, spinAcc::solve, fmm::calc_demag (no parallel loop today)"],
  assumptions=["the parallel algorithms of the standard library are used through their contract: each iteration runs once, in any order, concurrently with the others; reductions associate and commute (harness/par.h)", "freedom from shared modifications (except under one lock, atomic or thread-local) means that every interleaving gives the result of some order; two orders are compared", "std::sort and std::unique under the parallel policy sort like the sequential ones", "ScalFMM's own OpenMP threads are not in /repo", "bicg_dir, cg_dir, make_evol, setBasis and correctionCharges through their contracts (they take no policy)"],
  bounded=["one 7-node, 3-tetrahedron mesh with 6 region layouts (assembly: symbolic element systems; element integrals: 3 concrete states); footprints are those of the executions of these inputs; replayed with 8 threads on meshes of some hundred elements"])

NOT_APPLICABLE = {}

# entries whose obligations range over a bounded domain (sizes, topologies, names); all their values are symbolic
BOUNDED = {
 'C09': 'energies.*', 'C10': 'demag', 'C11': '.*', 'C12': 'pattern.*|scatter.*', 'C13': 'cg|cg_dir|bicg|bicg_dir|bicg_mask', 'C14': '.*', 'C15': '.*', 'C16': '.*', 'C17': '.*',
 'C18': 'integrate.*', 'C19': 'solve|compute|boundary_conditions', 'C20': 'boundary_values|solve|compute|construct|validation', 'C21': '.*', 'C22': 'logstats_history', 'C23': 'recenter',
 'C24': '.*', 'C25': '.*', 'C26': '.*', 'C27': 'initial_state', 'C28': '.*',
}
for k, v in BOUNDED.items(): PROPS[k]['bounded_entries'] = v
def level_of(c): return c.get('level') or ('other' if c.get('bounded_entries') == '.*' else 'proof')
