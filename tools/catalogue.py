"""The catalogue of properties: properties.jsonl and MANIFEST.json are generated from it
(python3 tools/catalogue.py), so the two never drift apart."""
import json, pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
EOS, CONS, RIEM, SOLV, SCAL, VISC = ('dream/compressible/eos.py', 'dream/compressible/formulations/conservative.py',
                                     'dream/compressible/riemann_solver.py', 'dream/compressible/solver.py',
                                     'dream/compressible/scaling.py', 'dream/compressible/viscosity.py')
CCFG, CFG, IO, MESH, GS, TIME, BLA = ('dream/compressible/config.py', 'dream/config.py', 'dream/io.py', 'dream/mesh.py',
                                      'dream/solver.py', 'dream/time.py', 'dream/bla.py')
P = []


def prop(id, title, statement, over, text, tests, files, mech, claim=True, reason=None, level_note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  claim=claim, reason=reason, level_note=level_note))


prop('C01', 'Thermodynamic closure is one and the same ideal-gas state',
     'Whatever combination of flow quantities a user supplies for a state, every other quantity the solver derives from it (density, '
     'pressure, temperature, energies and specific energies, enthalpies, momentum, velocity, speed of sound, local Mach and Reynolds number, isentropic density) is the '
     'value of the one ideal-gas state those inputs describe. A quantity that is given is returned as given, and a quantity that cannot be '
     'derived is reported as missing, never answered with a wrong value. The derived values do not depend on which sufficient combination '
     'was supplied.',
     ['inputs', 'configurations'],
     'every physical state (density, pressure, velocity, gamma>1) in 2 and 3 dimensions and every subset of given quantities',
     'tests fix one state and one combination per accessor; the claim ranges over all real states and all subsets of given quantities',
     [EOS, SOLV, CCFG],
     [('ideal gas accessors', f'{EOS}: IdealGas.density ... IdealGas.specific_entropy'),
      ('state dispatch', f'{SOLV}: CompressibleFlowSolver.density ... get_fields')])
prop('C02', 'Gradient equations are the derivatives of the state equations',
     'Every derived gradient (of density, velocity, momentum, pressure, temperature, all energies and the enthalpy) equals the exact '
     'derivative of the corresponding quantity along the flow, with row index for component and column index for direction, whichever '
     'sufficient combination of quantities and gradients was given. The strain-rate tensor is the symmetric part of the velocity '
     'gradient minus a third of its divergence on the diagonal.',
     ['inputs', 'configurations'],
     'every smooth flow (arbitrary values and arbitrary first derivatives at a point), 2 and 3 dimensions, every sufficient combination of '
     'given gradients',
     'tests compare a few fixed numbers; the chain rule must hold for all values and derivatives',
     [EOS, CCFG, SOLV],
     [('gradient equations', f'{EOS}: IdealGas.density_gradient ... energy_gradient'),
      ('velocity gradients', f'{CCFG}: flowfields / strain rate helpers in {EOS}')])
prop('C03', 'Variable transformations are the Jacobians between variable sets',
     'The transformation matrices between conservative, primitive and characteristic variables are mutually inverse, compose '
     'consistently, and the conservative/primitive pair equals the derivative of one set with respect to the other. This holds for every '
     'state and every unit direction.',
     ['inputs'],
     'all physical states, all unit directions, 2 space dimensions (3 where the code supports it)',
     'tests evaluate one state and one direction; matrix identities have to hold as rational functions',
     [EOS], [('transformation matrices', f'{EOS}: IdealGas.conservative_from_primitive, primitive_from_conservative, *_characteristic*')])
prop('C04', 'Convective Jacobians are the flux derivative with the right wave speeds',
     'The convective flux is the Euler flux of the state, and its directional Jacobian in conservative, primitive and characteristic '
     'variables is exactly the derivative of that flux, with eigenvalues u·n and u·n±c and the stated eigenvectors. The flux is '
     'homogeneous and the Jacobians of the different variable sets are similar to each other.',
     ['inputs'], 'all physical states, all directions, gamma>1, 2 and 3 space dimensions where supported',
     'tests sample states with hand-written expected numbers; the derivative identity ranges over all states and directions',
     [EOS, SOLV], [('convective flux', f'{SOLV}: get_convective_flux'), ('Jacobians', f'{EOS}: primitive_convective_jacobian_x ..., '
                   'characteristic_velocities')])
prop('C05', 'Incoming and outgoing waves partition the convective operator',
     'For every state and unit direction the outgoing and incoming parts of the characteristic speeds, of the convective Jacobians and '
     'of the identity add up exactly to the whole, with each wave counted on exactly one side, also when a wave speed vanishes; the '
     'absolute part is outgoing minus incoming. Outgoing speeds are never negative and incoming speeds never positive, and an unknown '
     'selection is refused.',
     ['inputs'], 'all physical states, sub- and supersonic in either direction, including exactly sonic and stagnant states; all unit '
     'directions',
     'tests use one subsonic state; the partition must survive every sign pattern of the wave speeds',
     [EOS, SOLV], [('speed selection', f'{EOS}: characteristic_velocities'),
                   ('identities', f'{SOLV}: get_characteristic_identity, get_conservative_convective_identity ...')])
prop('C06', 'Riemann stabilisation matrices are consistent and upwind',
     'Each Riemann solver produces the stabilisation of its scheme: Lax-Friedrichs the maximal wave speed times the identity, Roe the '
     'absolute convective Jacobian, HLL the larger signal speed or zero, HLLEM the HLL matrix with its contact and shear waves '
     'restored, and upwind the outgoing part. None of them injects energy: the '
     'wave speeds used as stabilisation are never negative and bound the physical ones where the scheme promises it.',
     ['inputs', 'configurations'], 'all physical trace states and unit directions, sub- and supersonic, every Riemann solver and its options',
     'no test evaluates the matrices; they range over all states and directions',
     [RIEM, CONS], [('stabilisation matrices', f'{RIEM}: LaxFriedrich, Roe, HLL, HLLEM, Upwind'),
                    ('Roe average/HLL speeds', f'{EOS}: ')])
prop('C07', 'The discrete flux is consistent and conservative across facets',
     'When cell and facet unknowns agree the numerical flux through a facet is the physical flux in the normal direction, and the '
     'facet equation makes the fluxes leaving the two neighbouring elements cancel, for every Riemann solver, mixed '
     'method and discretisation choice. The interior balance is the weak divergence of the physical flux, and no term acts on facets '
     'that were handed to a boundary condition.',
     ['inputs', 'configurations'], 'all physical states on either side of a facet, all normals, all combinations of formulation '
     'options',
     'tests only check that spaces are created; the assembled form is never evaluated',
     [CONS, RIEM, SOLV], [('convective form', f'{CONS}: add_convective_form'), ('numerical flux', f'{SOLV}/{CONS}: '
                          'get_convective_numerical_flux')])
prop('C08', 'Uniform flow is preserved by far-field, characteristic and sponge terms',
     'If the flow is everywhere equal to the target state of a far-field condition, a characteristic condition, a sponge layer or a '
     'perfectly matched sponge, the terms added by that condition vanish and impose no change. Away from the target state a condition '
     'only acts on incoming waves: outgoing waves leave unchanged, and the target is enforced exactly where all waves enter.',
     ['inputs', 'configurations'], 'all uniform states and normals, all targets and relaxation options of each condition',
     'boundary conditions have no value-level test; the claim ranges over states, normals and options',
     [CONS, CCFG], [('far field', f'{CONS}: add_farfield_formulation'), ('characteristic conditions', f'{CONS}: add_cbc_formulation'),
                    ('sponge layers', f'{CONS}: add_sponge_layer_formulation, add_psponge_layer_formulation')])
prop('C09', 'Walls, symmetry, inflow and outflow impose exactly their physical state',
     'The equations imposed at a boundary are solved exactly by trace states that satisfy the physical condition: no normal flow at '
     'inviscid walls and symmetry planes, no slip and the prescribed temperature or vanishing heat flux at viscous walls, the '
     'prescribed static pressure at outflows, the prescribed values at inflows and periodic matching without extra terms. They never '
     'constrain quantities the condition leaves free.',
     ['inputs', 'configurations'], 'all interior states, normals, targets, formulations',
     'tests cover no boundary value; claim ranges over all states and normals',
     [CONS, CCFG], [('boundary formulations', f'{CONS}: add_inviscid_wall_formulation, add_isothermal_wall_formulation, '
                    'add_adiabatic_wall_formulation, add_outflow_formulation, add_inflow_formulation')])
prop('C10', 'The viscous flux is Navier-Stokes and dissipative',
     'The diffusive flux has no mass component, a symmetric stress 2·mu/Re times the deviatoric strain rate, and an energy component '
     'made of viscous work and Fourier heat flux, for every scaling and viscosity law. Entropy production is never negative: stress '
     'does non-negative work on the strain rate and heat flows down the temperature gradient; an inviscid configuration yields no '
     'diffusive flux.',
     ['inputs', 'configurations'], 'all states and gradients, Reynolds/Prandtl/Mach numbers>0, every scaling and viscosity law',
     'tests assert one stress and one flux value', [SOLV, EOS, VISC],
     [('stress and heat flux', f'{SOLV}: deviatoric_stress_tensor, heat_flux, get_diffusive_flux')])
prop('C11', 'Mixed strain-heat unknowns are consistent with the flow gradients',
     'In the mixed method the auxiliary unknowns are exactly the deviatoric strain rate and the temperature gradient whenever the flow '
     'is exact, on cells and across facets. The viscous flux and the viscous boundary terms computed from them equal those computed '
     'from true gradients.',
     ['inputs', 'configurations'], 'all smooth flows at a point, all normals, 2 dimensions',
     'tests only check that spaces and dof names exist', [CONS],
     [('mixed form', f'{CONS}: StrainHeat.add_mixed_form'), ('viscous terms', f'{CONS}: StrainHeat.get_cbc_viscous_terms')])
prop('C12', 'Scalings describe one physical flow and keep the dimensionless numbers',
     'In every scaling the dimensionless far-field state has the configured Mach number, the given flow direction, and '
     'satisfies the same ideal-gas law; Reynolds scaling multiplies viscous terms so that the configured Reynolds number is the one '
     'obtained. Converting to dimensional values multiplies each quantity with exactly its reference value, and the dimensionless ratios '
     'of the far field are the same in all scalings.',
     ['inputs', 'configurations'], 'all Mach numbers>0, Reynolds numbers, gamma>1, reference values and all scalings',
     'tests check single numbers per scaling', [SCAL, SOLV, CCFG],
     [('scalings', f'{SCAL}: Aerodynamic, Acoustic, Aeroacoustic'), ('far field', f'{SOLV}: get_farfield_fields')])
prop('C13', 'Viscosity laws follow their physical law in every scaling',
     'The constant law gives viscosity one at every temperature, the Sutherland law gives the same physical viscosity ratio for a given '
     'physical temperature in every scaling and exactly one at the reference temperature, and the inviscid law refuses to provide a '
     'viscosity. Sutherland viscosity is positive and grows with temperature.',
     ['inputs', 'configurations'], 'all temperatures>0, all measurement temperatures and constants, all scalings',
     'tests check single temperatures', [VISC, SCAL], [('laws', f'{VISC}: Inviscid, Constant, Sutherland')])
prop('C14', 'The simulation clock visits exactly the configured instants',
     'Iterating a time interval yields, in increasing order, start plus every whole multiple of the step up to and including the end, '
     'each exactly once and without accumulated round-off, and leaves the clock parameter at the value yielded; what a user leaves in the clock in between does not change the instants. Stride and start arguments '
     'select exactly the corresponding subset, never an instant beyond the end. Invalid intervals are refused and change nothing.',
     ['inputs', 'histories'], 'all decimal intervals, steps, strides and starts within the stated digit bounds',
     'tests iterate two or three intervals; rounding and end-point inclusion depend on digits and magnitude',
     [TIME], [('clock', f'{TIME}: Timer')])
prop('C15', 'Time schemes are consistent and advance state exactly once per step',
     'Implicit Euler and BDF2 discretise the time derivative exactly for polynomials up to their order, and constants produce no time '
     'derivative. After each step the stored history holds exactly the previous states in order, so a multi-step method always sees the '
     'last states at the right distance, also right after initialisation.',
     ['inputs', 'histories'], 'all states, steps and histories up to the stated number of steps',
     'tests do not run a time step', [TIME, 'dream/solver.py'], [('schemes', f'{TIME}: ImplicitEuler, BDF2'),
                                                                ('history', f'{TIME}: update_gridfunctions, set_initial_conditions')])
prop('C16', 'The nonlinear iteration stops exactly by its rule and reports honestly',
     'The Newton loop performs a damped step with the solution of the linearised system per iteration, stops as soon as the error is '
     'below the tolerance, not before, and never beyond the iteration limit. Converged is reported only if the tolerance was met, and '
     'a not-a-number error is reported as failure and ends the iteration.',
     ['inputs', 'histories'], 'all error histories and linear system answers, tolerances, damping, iteration limits up to the bound',
     'no test runs the nonlinear solver', [GS], [('Newton', f'{GS}: NonlinearSolver / NonlinearMethod')])
prop('C17', 'Pseudo-time stepping grows the step by its rule and never past its limit',
     'In pseudo time stepping the step grows by exactly the increment factor every increment-at iterations, is cut off at the maximal '
     'step (an initial step beyond it is kept), and never shrinks for factors of at least one; the time derivative of each iteration uses '
     'the value just set. The iteration ends when converged or at the iteration limit.',
     ['inputs', 'histories'], 'all step sizes, factors, limits and iteration histories up to the bound',
     'tests exercise no pseudo time run', [TIME, GS], [('pseudo time', f'{TIME}: PseudoTimeSteppingConfig')])
prop('C18', 'Output is written exactly at the scheduled steps',
     'In a transient run every enabled field stream, vtk stream and sensor writes the initial state, then at exactly every rate-th step '
     'counting from the start, and the final state, and never otherwise; stored time levels follow their own level rate in the same way. '
     'Mesh and settings are written once. Streams do not influence each other, and the name or time column of each record '
     'identifies the instant it belongs to uniquely.',
     ['inputs', 'histories', 'configurations'], 'all rates, step counts and combinations of enabled streams within the bound',
     'tests drive single streams by hand', [IO, TIME], [('streams', f'{IO}: Stream.save_in_time_routine and subclasses'),
                                                       ('lifecycle', f'{TIME}: TransientConfig')])
prop('C19', 'Loading replays exactly the states that were saved',
     'Loading a transient run visits exactly the instants after the start at which a state was saved by rate, in order, each with the '
     'state saved for that instant, for every interval, step and output rate; the saved start can be loaded by its time. The clock shows '
     'the instant of the state being loaded, time levels come back in their positions, and a missing record is reported rather than replaced. '
     'A saved mesh comes back with its elements, vertices and region names.',
     ['inputs', 'histories'], 'all intervals, steps, rates within the bound', 'one test loads one run at rate one',
     [IO, TIME], [('load', f'{IO}: GridfunctionStream.load_transient_routine')])
prop('C20', 'Configurations round-trip and keep one live value per option',
     'Exporting a configuration and applying the export to a fresh one, directly or by way of its saved settings, reproduces every option, and applying the same options in any '
     'order or form (dotted, one by one, nested where an option set takes a dictionary) yields the same configuration. A parameter handed out once keeps '
     'following later changes of the option; invalid names and values are refused and leave the option unchanged. Every option set '
     'belongs to one solver: mesh and solver are the same seen from every part of it.',
     ['inputs', 'configurations', 'histories'], 'all option values of each kind, all update orders up to the bound',
     'tests set single options', [CFG, IO, SOLV], [('descriptors', f'{CFG}: configuration, parameter, any, unique, ...'),
                                                    ('trees', f'{CFG}: UniqueConfiguration.update, to_tree')])
prop('C21', 'Output folders follow the root folder',
     'After any sequence of changes of root and output folders every output folder lies below the current root under its own name, '
     'whether set as plain name, nested name, text or path; only a folder given as an absolute place outside of the root stays there. '
     'Each kind of record is written into its folder and nowhere else.',
     ['inputs', 'histories'], 'all sequences of folder changes up to the bound', 'tests perform one change',
     [IO], [('paths', f'{IO}: path, IOConfiguration')])
prop('C22', 'Conditions act on exactly the regions they were assigned to',
     'A boundary or domain condition assigned to a pattern of region names acts on exactly the regions named and on no other, once each, '
     'however the pattern is written and whatever was assigned before; different conditions on one region all act, each region starts '
     'from the initial state assigned to it, and all queries about regions and conditions agree with the assignments. Unknown regions are reported, '
     'and unknown conditions, things that are no condition, and periodic meshes without a periodic condition are refused.',
     ['inputs', 'configurations', 'histories'], 'all assignment histories over the bounded sets of region names, patterns and conditions, '
     'all values of their fields',
     'tests use a handful of fixed names', [MESH, CONS], [('conditions', f'{MESH}: Conditions, BoundaryConditions, DomainConditions'),
     ('terms', f'{CONS}: add_boundary_conditions, add_domain_conditions, set_initial_conditions')])
prop('C23', 'Linear algebra helpers agree with linear algebra',
     'Absolute value, maximum, minimum, cut-off, trace, diagonal matrices, unit vectors, inner and outer products, symmetric and '
     'skew-symmetric matrices from their entries, shape queries, conversions and the fixed-point iteration return the mathematically '
     'defined result for every number, vector and matrix they accept, given as numbers, sequences or functions, and refuse the rest. '
     'What is reported to be zero is zero.',
     ['inputs'], 'all vectors and matrices of the accepted sizes', 'tests evaluate one number per helper',
     [BLA], [('helpers', f'{BLA}')])
prop('C24', 'Sponge and buffer coordinates are continuous and monotone ramps',
     'A layer coordinate equals the (shifted) physical coordinate inside the layer, stays constant beyond both of its ends, and runs '
     'monotonically and continuously across it; sponge weights are zero before the layer, non-negative, non-decreasing, and reach their '
     'nominal value at the outer end. This holds for every layer position, direction, polynomial order and geometry (axes, radial). '
     'Layer functions that are shown have the weight of each layer in its regions and zero elsewhere.',
     ['inputs', 'configurations'], 'all positions, layer limits in both directions, orders, offsets', 'tests sample a few coordinates',
     [MESH], [('coordinates', f'{MESH}: BufferCoord'), ('weights', f'{MESH}: SpongeFunction')])
prop('C25', 'Grid deformations are monotone maps that fix the undeformed part',
     'A grid mapping leaves the physical domain untouched, is continuous at the layer interface, strictly increasing and reaches the '
     'configured end. In the mesh deformation built from it nothing moves before the layer, each point of the layer moves exactly to '
     'its image, everything beyond moves with the end of the layer, radial mappings move points along their rays, and mappings of '
     'several coordinates combine in any order of assignment.',
     ['inputs', 'configurations'], 'all layer limits, factors, thicknesses and points', 'tests sample a few coordinates',
     [MESH], [('mappings', f'{MESH}: GridMapping'), ('deformation', f'{MESH}: GridDeformation')])
prop('C26', 'Sponge polynomial orders are valid, complete and increasing towards the wall',
     'The orders of a polynomial sponge are accepted exactly if they lie between zero and the full order, in whatever order the limits '
     'are given; its ladder of orders has no gaps and ends at the lowest order. Cells of a sub-layer get its order, '
     'facets the highest order of the sub-layers they bound, and everything outside keeps the full order, for all '
     'unknowns of the solver. Invalid combinations are refused.',
     ['inputs', 'configurations'], 'all high and low orders within the bound, all numbers of layers', 'tests do not cover it',
     [MESH, CONS], [('p-sponge', f'{MESH}: PSpongeLayer'), ('order policy', f'{MESH}/{CONS}')])
prop('C27', 'Generated ring meshes are conforming and closed',
     'The structured mesh around a circle has exactly one element per cell of the requested layout, all positively oriented, sharing '
     'vertices so that no gap or overlap is left, with inner and outer boundary named as requested and lying on the requested radii. '
     'Layouts whose layers would overlap are refused.',
     ['inputs', 'configurations'], 'all radii and all layouts up to the bound', 'no test builds the mesh',
     [MESH], [('ring mesh', f'{MESH}: get_cylinder_omesh')])
prop('C28', 'Sensor records have one value per named column and belong to their region',
     'Every sensor record holds exactly one value for each column of its header, in the same order, for each region, point and field '
     'component, and each value is the quantity of that name (point value, integral or L2 norm) on that region at that time. Sampling '
     'never mixes regions, fields or sensors; unknown regions are reported and left out, and sensors without fields or of one name '
     'are refused.',
     ['inputs', 'configurations'], 'all field sets, component counts, region and point sets within the bound',
     'tests check single headers', [IO], [('sensors', f'{IO}: Sensor, RegionSensor, DomainSensor, BoundarySensor, PointSensor')])
prop('C29', 'Output resources are opened and closed once and only enabled streams act',
     'During a run each enabled stream is initialised before its first write, and what it opens (vtk writers, row files) is released at '
     'the end of the run, also when the solver fails or the run is abandoned; a disabled stream never opens or writes anything. This '
     'holds for each combination of enabled streams and for stationary, transient and pseudo-time runs.',
     ['configurations', 'histories'], 'all subsets of enabled streams, all run kinds', 'tests use one stream at a time',
     [IO, TIME], [('lifecycle', f'{IO}: IOConfiguration'), ('runs', f'{TIME}: StationaryConfig, TransientConfig, PseudoTimeSteppingConfig')])
prop('C30', 'Converged solutions approach the exact solution at the expected order',
     'On smooth problems the computed solution converges with the order of the polynomial space and of the time scheme as mesh and '
     'step are refined. Linear solver residuals are below their tolerance.',
     ['inputs'], 'all smooth problems, meshes and orders', 'no test runs a convergence study', [CONS, TIME, GS],
     [('whole discretisation', f'{CONS}, {TIME}')],
     reason='asymptotic statement about the numerical behaviour of compiled finite-element assembly and sparse direct solvers '
            '(ngsolve C++); neither the C++ kernels nor limits over mesh refinement can be encoded for an SMT solver within reach')

prop('C31', 'Fields read from a solver are those of its current solution',
     'The fields a solver returns hold density, velocity, pressure and temperature (unless switched off) and exactly the further '
     'quantities asked for, under either of their names. Everywhere in the domain each has the value, or the gradient, it takes for the '
     'current discrete solution; strain and temperature gradient of viscous configurations are those of the mixed unknowns. The fields '
     'follow the solution when it changes, and right after initialisation they are the initial state. What is not available is reported and left out.',
     ['inputs', 'configurations', 'histories'], 'all solutions of the stated order with arbitrary values and gradients, all quantities',
     'no test reads the fields of a solution', [CONS, GS, CCFG],
     [('field selection', f'{CONS}: ConservativeFiniteElementMethod.get_fields'),
      ('derived fields', f'{CONS}: ConservativeMethod.get_conservative_fields, get_conservative_gradient_fields')])

prop('C32', 'Everything derived from a solver follows its parameters',
     'Heat capacity ratio, Mach, Reynolds and Prandtl number and time step can be set at any time: every thermodynamic quantity, flux, '
     'Jacobian, wave, stabilisation, far-field state and force obtained from a solver before, and every integrand of forms that are already '
     'built (cells, facets, boundary conditions, sponges, time derivative), takes exactly the value it has when obtained after the change. '
     'The clock follows interval and step the same way.',
     ['inputs', 'configurations', 'histories'], 'all values of the parameters, states and gradients in the stated combinations of options',
     'tests evaluate with the parameters set beforehand', [SOLV, EOS, CONS, CCFG, TIME, CFG],
     [('parameters', f'{CFG}: parameter'), ('forms', f'{CONS}: ConservativeFiniteElementMethod'), ('clock', f'{TIME}: Timer, TimeSchemes')])

prop('C33', 'Layer functions reach the mesh where and as they were defined',
     'The discrete function of the sponge layers, and the mesh deformation built from the grid deformations, has in every domain the value of '
     'the functions assigned to that domain, whenever the order chosen for the layer can represent them (their mean in each cell for order zero), and is zero in all other domains: for '
     'any number of layers, equal or different orders, assigned by name or by pattern in any order, taken from the conditions of the domain or '
     'named for the call.',
     ['inputs', 'configurations'], 'all coefficients of the functions, all scales, all layouts of layers within the bound',
     'tests integrate one norm over one layout', [MESH, GS],
     [('buffer functions', f'{MESH}: DomainConditions.get_buffer_function_, get_sponge_layer_function, get_grid_deformation_function'),
      ('spaces', f'{MESH}: SpongeLayer.get_space, GridDeformation.get_space'), ('application', f'{GS}: SolverConfiguration.set_grid_deformation')])

prop('C34', 'What is shown is the current solution',
     'Each vtk record holds exactly the configured fields under their names, each with the value it takes for the solution at the instant of the '
     'record, on exactly the elements of the configured region (everywhere without one) and with the configured subdivision; what is configured '
     'later holds from the next run on, and a run without fields to write is refused before it starts. Drawn scenes show the given fields under '
     'their names and are redrawn with the solution reached after every time step, in pseudo-time in every iteration and at its end.',
     ['inputs', 'configurations', 'histories'], 'all solutions with any value per cell and instant, all sets of fields and regions within the bound',
     'no test writes vtk files or draws', [IO, TIME, CFG],
     [('vtk', f'{IO}: VTKStream'), ('drawing', f'{IO}: IOConfiguration.draw, redraw'), ('runs', f'{TIME}: start_solution_routine'),
      ('fields', f'{CFG}: ngsdict')])

TECH = ('symbolic execution of the real Python source on exact real-arithmetic terms with path forking; every assertion decided by Z3 '
        'over all values within the bounds, counterexamples and path witnesses replayed on the real code')
NOTE = ('bounded symbolic model checking: holds for all real values of the symbolic inputs along every path within the stated bounds; '
        'trusts the ngsolve/netgen stub (whose semantics are cross-checked on real ngsolve by replaying path witnesses), real arithmetic '
        'instead of floats, and Z3')

if __name__ == '__main__':
    have = {p.stem.upper() for p in (ROOT / 'props').glob('c[0-9]*.py')}
    with open(ROOT / 'properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['tests'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}},
                               ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in have:
            checks.append({'property': p['id'], 'quick_cmd': f"python3-vt run.py {p['id']}",
                           'thorough_cmd': f"python3-vt run.py {p['id']} --thorough", 'technique': TECH, 'level': 'model_checking',
                           'level_note': p['level_note'] or NOTE})
        else:
            na.append({'property': p['id'], 'reason': p['reason'] or 'check still under construction'})
    (ROOT / 'MANIFEST.json').write_text(json.dumps({'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'checks': checks,
                                                    'not_applicable': na,
                                                    'notes': 'no hooks: /repo carries only fix: commits'}, indent=1) + '\n')
