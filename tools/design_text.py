"""How each property is decided (text of DESIGN.md) and what a quick run costs."""
HOW = {
'C01': ('Every accessor is called on fields whose presence is decided lazily by symbolic booleans (a field that the code asks for is there '
        'or not, so all subsets are covered without enumeration), with values computed from one symbolic ideal-gas state (rho, c, u, gamma). '
        'Goal: the answer is the value of that state; a refusal only when the quantity is neither given nor determined by a documented combination.', '20 s'),
'C02': ('As C01 with symbolic gradients of the state; the oracle is the directional derivative of the closed form of each quantity, computed by '
        'automatic differentiation of the oracle, not of the code.', '35 s'),
'C03': ('The transformation matrices are built on symbolic states and symbolic unit directions; products and derivatives are compared entry by entry.', '5 s'),
'C04': ('The directional Jacobian is compared with the derivative of the flux the code itself returns; eigenvectors, speeds and homogeneity as polynomial identities.', '9 s'),
'C05': ('All sign patterns of the wave speeds fork; in each the parts are compared with the spectral projection; zero speeds are paths of their own.', '3 s'),
'C06': ('Stabilisation matrices are applied to eigenvectors and to arbitrary vectors; positivity, consistency with |A|, speed bounds and contact '
        'restoration are decided per sign pattern.', '10 s'),
'C07': ('The complete set of forms is built by the real code on a two-cell mesh of the stand-in; the integrand at each site (cell, facet from '
        'either side, boundary) is evaluated for symbolic states, test values and normals. Goals: consistency with the Euler and '
        'Navier-Stokes flux when all traces agree, equal and opposite sums over both sides of an inner facet, nothing on domain boundaries but the condition.', '60 s'),
'C08': ('Residual of each condition and sponge for a uniform flow is zero for all flows; single incoming or outgoing waves are let in or out '
        'as demanded; relaxation matrices follow the given factors; sponges vanish at their target and have the sign of a decay.', '115 s'),
'C09': ('The boundary integrand is solved for the trace: it vanishes exactly when the trace equals the physical state built by the oracle (solver decides both directions).', '5 s'),
'C10': ('Stress, heat flux, viscous flux, dissipation and drag/lift are compared with the Navier-Stokes expressions; non-negative dissipation is an SMT query over all gradients.', '7 s'),
'C11': ('Mixed forms are tested against arbitrary test functions: Green\'s identity makes the mixed unknowns the velocity and temperature gradients; the diffusive Jacobians are derivatives of the viscous flux.', '26 s'),
'C12': ('Every order of setting scaling, numbers and gas is a symbolic choice; dimensional values obtained are recombined to the dimensionless numbers.', '8 s'),
'C13': ('Laws are evaluated on all temperatures and scalings with Sutherland powers as algebraic numbers; compared with the law in dimensional form.', '4 s'),
'C14': ('Instants are symbolic decimals plus bounded float error; the loop bounds fork; exactness of the rounding is decided with integer arithmetic.', '50 s'),
'C15': ('Form coefficients are extracted from the real temporal forms for polynomials in time with symbolic coefficients; histories are symbolic vectors that must shift by one per step, whatever the iteration does.', '3 s'),
'C16': ('The Newton loop runs on systems whose residual, Jacobian and error are symbolic, with a fresh Jacobian in each iteration; each convergence decision forks; the oracle is the textbook iteration.', '17 s'),
'C17': ('Pseudo-time steps of a run are recorded and compared with the recurrence of the documented rule.', '19 s'),
'C18': ('The writers are replaced by recorders; symbolic rates fork the modulo decisions; the record (what, when, labelled how, with which state) is compared with the schedule.', '90 s'),
'C19': ('A run with symbolic states saves, a fresh configuration loads; states, order and instants are compared, also with records missing; a saved mesh is read back.', '30 s'),
'C20': ('Configurations with symbolic option values are exported and restored; live objects are checked for identity; every alternative of every option is visited by the solver\'s choice; saved settings in every format are applied to a fresh configuration.', '25 s'),
'C21': ('Sequences of changes with symbolic choice of folder and target; the oracle keeps the paths relative to the root.', '40 s'),
'C22': ('Histories of assignments with symbolic choices; the oracle evaluates which condition acts on which region; forms, initial states and sponges must follow.', '26 s'),
'C23': ('Every helper on symbolic entries of every shape within the bound against the definition in linear algebra.', '6 s'),
'C24': ('Ramps evaluated at symbolic points; ends, monotony (two points), range and the layer sums are SMT queries.', '5 s'),
'C25': ('Mappings at symbolic points; constants are the fixed point of the iteration of the code (its map is executed symbolically once); monotony by two points; witnesses replay convergence.', '140 s'),
'C26': ('Ladders and order limits for symbolic integers; the element orders and facet dofs of the row of cells are read from the stand-in spaces.', '22 s'),
'C27': ('The mesh is built with symbolic radii; element areas, orientation, conformity and boundaries are decided for all radii per layout.', '60 s'),
'C28': ('Sensors of symbolic fields on the two-level mesh; each cell of each row is compared with the exact integral, norm or point value belonging to the labels of its column.', '35 s'),
'C31': ('Solutions of order one are set through the public function `Set` with symbolic coefficients (the stand-in represents them by monomials); '
        'the returned fields are evaluated at a point of a cell and compared with the state and its exact derivatives.', '20 s'),
'C32': ('Two solvers get the same symbolic parameters, one before and one after everything derived from it was built; values and integrands must agree for all states.', '45 s'),
'C33': ('The mass matrix and load vector the code sets up are assembled exactly by the stand-in (monomial or nodal basis, rational quadrature) and solved; '
        'the resulting function with symbolic coefficients is compared at a point of every domain.', '8 s'),
'C34': ('The vtk writer and the drawings of NGSolve are replaced by recorders that evaluate every field they are given at the moment of writing; symbolic cell '
        'values per instant are compared with what was recorded; runs, fields, regions and changes between runs are symbolic choices.', '15 s'),
'C29': ('Runs with every subset of streams (symbolic), failing anywhere or abandoned; recorder counts openings, writes and releases.', '10 s'),
}

NOTES = """
## Decisions on what is a property and what is not
- The sign of drag and lift is the traction on the fluid with the outward normal of the mesh, as implemented and documented nowhere else.
- Away from uniform flow the target of the temperature inflow is not pinned by the documentation; only uniform flow is claimed.
- A stagnant initial state can give a singular far-field block; this is a property of the continuous condition, not pursued.
- Whether the instant is yielded before or after it is saved is not promised; the record only has to hold the right state.
- Stream options do not accept dictionaries; options of alternatives that are not selected are not part of an export (C20 states it).
- Only the root moves the other folders (C21); folder names are representatives up to equality and nesting.
- Two initial states on one region are reported by a warning and otherwise undefined.
- PML, Force and Perturbation are refused loudly by the flow solver.
- GridDeformation: the dimension has to precede the mappings.
- The open cascade mesh of `get_cylinder_mesh` cannot be encoded (compiled CAD kernel).
- `load_as_dataframe` is a call of pandas; the file it reads is covered by C28.
- 3-D `primitive_from_characteristic` returns a NotImplementedError object instead of raising it; any use of the result fails, so no wrong value results.

## False alarms met and how they were resolved
- C16 wrapped an internal update function, which a behaviour-preserving inlining would have evaded; rewritten on observable vectors only.
- C05 did not decide a differently factored identity in time; parametrised by wave speeds (and the engine learns linear equalities of a path).
- Three copies of /repo with about 60 behaviour-preserving edits (helpers extracted, loops and orders rewritten, formulas refactored) are quiet in all checks.

## Robustness of a run
Each check has a deadline below the 900 s limit; exceeding it is exit 2 (inconclusive), never 0. Unknown answers of the solver are retried with
a second tactic; what stays unknown is inconclusive. Every check demands at least one replayed witness per scenario.
"""
