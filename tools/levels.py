NA = {}
LEVEL = {
 'C01': ('proof', 'solution mappings proved for any number of nodes, states, parameters and constants (z3, arrays of symbolic size); whole-chain round trip on generated problems is bounded'),
 'C02': ('proof', 'scale_sol / max_mag / factor evaluation proved for arrays of any size and any scale set (z3); compiled scale factors on generated problems are bounded'),
 'C03': ('proof', 'schedule and guesses proved for any number of cases and constants (z3); log spacing over the reals'),
 'C04': ('other', 'grid sizes enumerated up to the stated bound, start and target values symbolic (z3)'),
 'C05': ('proof', 'nearest-converged choice proved for any number of stored solutions and constants (z3); histories of add/next bounded'),
 'C06': ('proof', 'inductive step proved for any schedule and any point of it (z3); whole runs bounded'),
 'C07': ('other', 'driver run with an arbitrary solver on at most 2 steps of 2 cases with all values symbolic (z3), longer runs generated'),
 'C08': ('other', 'dimensions bounded as stated, dynamics/costs/constraints arbitrary functions; expression identities decided by sympy normal forms and z3'),
 'C09': ('other', 'dimensions and option combinations bounded as stated, ingredients arbitrary functions'),
 'C10': ('other', 'dimensions bounded as stated, ingredients arbitrary functions'),
 'C11': ('other', 'number of candidates, controls and nodes bounded as stated, all functions and values arbitrary (z3)'),
 'C12': ('other', 'dimensions bounded as stated, functions arbitrary; equality of expressions by normal form'),
 'C13': ('other', 'dimensions bounded as stated, ingredients arbitrary functions'),
 'C14': ('other', 'problem dimensions bounded, bounds/activators/values arbitrary (z3 over the reals)'),
 'C15': ('other', 'number and nesting of quantities and branches bounded as stated, expressions arbitrary'),
 'C16': ('proof', 'composition laws by structural induction over opaque transformations (z3); powers bounded as stated'),
 'C17': ('other', 'dimensions bounded as stated, functions and values arbitrary (z3); cost of a trajectory proved for any number of nodes; compiled (jit) code sampled'),
 'C19': ('proof', 'posed system, Jacobians and unpacking proved for any mesh, sizes and solver outcome (z3); scipy.integrate.solve_bvp assumed to return anything'),
 'C20': ('proof', 'propagation and quadrature reconstruction proved for any number of states and nodes (z3); scipy.integrate.solve_ivp assumed to return a grid over the span starting at the start'),
 'C21': ('proof', 'evaluation, indexing and interpolation proved for any number of nodes and columns (z3); interp1d assumed linear between samples'),
 'C18': ('other', 'arcs <=3, states <=2, quadratures <=1, parameters <=1+1, at most two Newton steps; all values, dynamics, conditions and optimiser outcomes arbitrary (z3)'),
 'C22': ('proof', 'spline tables proved for any number of data points (z3; tridiagonal solve assumed to return a solution of the system it is given); naming and derivative expressions bounded as stated and generated'),
 'C23': ('other', 'number of grid points, arguments and derivative orders bounded as stated; grids, coefficients, points and steps arbitrary (z3, sympy normal forms)'),
 'C24': ('proof', 'declaration step proved from an arbitrary earlier state for every kind of declaration and both answers of the name lookup; declaration histories and repeated solves with an arbitrary solver are generated (bounded)'),
 'C25': ('proof', 'which parts are written under which name and read back is proved against the contracts of open and the serialiser; round trips through the real serialiser and across processes are generated (bounded)'),
 'C26': ('proof', 'guesses and matched constants proved for any number of states, controls, quadratures and nodes (z3), the propagator and the solution map by contract; guesses through solve generated (bounded)'),
}
