"""Property catalogue, part 1 (walker, seeding, iteration)."""
LWF, PTF = 'dorado/lagrangian_walker.py', 'dorado/particle_track.py'
T_IN = 'The tests evaluate a handful of concrete cells and values; '
PROPS = [
 dict(id='C01', title='One consistent eight-direction neighbourhood',
  statement='The default direction tables, the neighbour windows and the cell moves all describe the same 3x3 neighbourhood: for each of the nine directions the row/column step, the unit vector, the heading and the length (1 for edge neighbours and the centre, sqrt(2) for diagonals) are those of the neighbour that direction reads values from and moves to. The value a cell reads for a direction is the value of exactly that neighbour, and cells on the border of the grid read no neighbours.',
  over=['inputs', 'configurations'], q='every raster shape and content, every cell and all nine directions',
  why=T_IN + 'they check single windows and one or two directions, not that all nine tables agree for every cell.',
  files=[LWF, PTF], mech=[('direction tables', PTF + ' Particles.__init__'), ('neighbour windows', LWF + ' big_sliding_window, tile_*'), ('moves', LWF + ' calculate_new_ind, step_update')],
  obs=['Particles(...).distances/ivec/jvec/iwalk/jwalk/angles', 'values returned by the window and move helpers']),
 dict(id='C02', title='Routing weights follow the documented formula',
  statement='For every interior cell the weight of a direction is depth^theta times gamma times the share of positive water-surface slope plus (1-gamma) times the share of positive discharge towards that neighbour, each share normalised over the nine directions, and zero for neighbours that are dry (depth not above the dry threshold, or land cells). If no direction has a positive weight, the deepest cells of the neighbourhood get weight one; a direction whose slope is undefined gets none; cells on the border of the grid have no weights at all.',
  over=['inputs', 'configurations'], q='every grid shape, depth, stage, discharge and cell-type field and every theta, gamma and dry depth',
  why=T_IN + 'the formula has about ten interacting cases per cell and neighbours of nine kinds; the tests fix one field at a time.',
  files=[LWF], mech=[('weight computation', LWF + ' make_weight')], obs=['Particles(...).weight', 'which cells particles can move to']),
 dict(id='C03', title='Next direction drawn from the weights, staying when there are none',
  statement='The random mode picks a direction with probability proportional to its weight (an undefined weight counts as zero) and never a direction without weight; the steepest-descent mode picks only among the non-central directions that carry the maximum weight. A particle whose neighbourhood carries no weight stays where it is. Choosing a direction does not change the routing weights.',
  over=['inputs', 'schedules'], q='every weight vector, with ties, zeros and undefined entries, and every random draw',
  why=T_IN + 'random draws are sampled a few times with fixed seeds, ties and all-zero neighbourhoods are barely reached.',
  files=[LWF], mech=[('picking', LWF + ' get_weight, random_pick, steep_descent')], obs=['cells visited by particles']),
 dict(id='C04', title='Travel time of a move follows the documented formula',
  statement='The time of a move is half the distance projected on the local flow direction (never negative) times the sum of the reciprocal speeds of the old and the new cell, times a random factor within half the diffusion coefficient of one when diffusion is on. A particle that does not change its cell takes no time. A step adds exactly that time to the clock of the particle, fractions included when it started at a whole number.',
  over=['inputs', 'schedules'], q='every pair of cells, direction, distance, velocity field, diffusion coefficient and random draw',
  why=T_IN + 'they compare one or two hand-computed times with diffusion switched off or a fixed seed.',
  files=[LWF], mech=[('travel time', LWF + ' calc_travel_times')], obs=['travel_times of the walk data']),
 dict(id='C05', title='Time never runs backwards',
  statement='For every diffusion coefficient up to 2, negative ones included, no step decreases the travel time of a particle.',
  over=['inputs', 'schedules'], q='every field, cell, direction, random draw and diffusion coefficient of at most 2',
  why='A sign over all real inputs and draws: tests sample finitely many draws with the default coefficient.',
  files=[LWF], mech=[('travel time', LWF + ' calc_travel_times'), ('accumulation', LWF + ' particle_stepper')], obs=['travel_times of the walk data']),
 dict(id='C06', title='Particles at the edge of the domain stay put',
  statement='A particle whose cell lies on the border of the grid, or has an edge cell in its 3x3 neighbourhood, never changes its cell, accumulates no travel time and gets no further history entries, in a single step and when iterating towards a target time. Every other particle moves as chosen.',
  over=['inputs', 'histories'], q='every cell-type layout, position, grid size, iteration mode and number of particles',
  why='The tests walk a few particles on small grids that rarely reach an edge, and not in both modes.',
  files=[LWF, PTF], mech=[('boundary rule', LWF + ' check_for_boundary'), ('target-time guard', PTF + ' Particles.run_iteration')], obs=['walk data after an iteration']),
 dict(id='C07', title='Histories of a particle stay in lockstep',
  statement='After seeding and after every iteration, in either mode, the row, column, travel-time and every optional history of a particle have the same number of entries and every history covers the same number of particles. This also holds when a variable is recorded that older walk data did not contain.',
  over=['histories', 'configurations'], q='any sequence of seeding and iterations, number of particles, set of recorded variables and previous walk data',
  why='Tests check a few lengths after one or two calls with one combination of variables.',
  files=[PTF], mech=[('recording', PTF + ' Particles.run_iteration, generate_particles')], state=[('walk data', 'the histories of all particles', 'Particles.walk_data')], obs=['walk data returned and stored']),
 dict(id='C08', title='Recorded history is never rewritten',
  statement='Seeding more particles or iterating, in either mode, only appends: every entry of every history recorded before, of the own walk and of previous walk data handed in, is still there afterwards at the same position with the same value.',
  over=['histories'], q='any existing histories, seeding and iterations',
  why='Tests look at final states, not at every earlier entry for arbitrary histories.',
  files=[PTF], mech=[('recording', PTF + ' Particles.run_iteration, generate_particles')], state=[('walk data', 'the histories of all particles', 'Particles.walk_data')], obs=['walk data returned and stored']),
 dict(id='C09', title='A stationary particle leaves no entry',
  statement='An iteration appends exactly one entry per step that changed the cell of a particle and none for a step that did not, so a history never repeats its cell from one entry to the next through stepping. Each appended entry holds the new cell and the accumulated time of that step.',
  over=['histories', 'inputs'], q='every field, position, draw and iteration mode',
  why='The distinction shows only for particular draws and layouts; tests run moving particles.',
  files=[PTF], mech=[('recording', PTF + ' Particles.run_iteration')], obs=['walk data after an iteration']),
 dict(id='C10', title='Iterating to a target time is bounded and stops closest to it',
  statement='When iterating to a target time, each particle keeps stepping as long as its time plus its estimated next time step (0.1 before the first move, then its last one but at least 0.1) is not farther from the target than its current time, and stops when it no longer moves. It takes at most the permitted number of steps (10000 by default), and with warnings enabled exactly the particles that exhausted them are all reported.',
  over=['inputs', 'histories'], q='every target time, step limit, history and number of particles',
  why='Loop bounds over arbitrary fields and histories; tests run one target with the default limit.',
  files=[PTF], mech=[('target-time loop', PTF + ' Particles.run_iteration')], obs=['walk data', 'warnings']),
 dict(id='C11', title='Particles move independently of each other',
  statement='The new cell and travel time of each particle depend only on its own cell, its own time and its own random draws: results are in the order of the particles, one per particle, and adding, removing or reordering other particles changes nothing for it. Particles parked in the corner cell stay there. The position and time lists handed to a step are not modified.',
  over=['inputs', 'histories'], q='any number of particles at any cells, in a step and in both iteration modes',
  why='Needs all pairs of particles; tests use one or a few identical particles.',
  files=[LWF, PTF], mech=[('vectorised step', LWF + ' particle_stepper'), ('iteration', PTF + ' Particles.run_iteration')], obs=['new cells and times', 'walk data']),
 dict(id='C12', title='Recorded variables are the grid values of the recorded cells',
  statement='Every recorded variable (depth, stage, discharge and velocity components, region-of-interest flag) of a history entry equals that field at the cell recorded in the same entry, both for seeded particles and for every step of both iteration modes. Entries made before a variable was recorded are marked as missing. The requested list of variables decides what is recorded, with the region flag added when a region is given, and the list of the caller is left as it was.',
  over=['inputs', 'histories', 'configurations'], q='every field, set of recorded variables, history and mode',
  why='Two cooperating places (seeding and stepping) and seven fields; tests look at one or two variables after one mode.',
  files=[LWF, PTF], mech=[('sampling', PTF + ' generate_particles; ' + LWF + ' particle_stepper'), ('variable table', PTF + ' Particles.__init__')], obs=['optional histories of the walk data']),
 dict(id='C13', title='Seeding adds exactly the requested particles and keeps the rest',
  statement='Seeding yields the particles of previous walk data first, then those of the own walk, then exactly the requested number of new ones, each with one entry at its seed time. Exact seeding uses the given location pairs cyclically in order; random seeding draws row and column independently from the given lists, every entry with the same chance (or with the given weights). The object then knows the total number of particles, and the lists and walk data of the caller are not changed.',
  over=['inputs', 'histories'], q='any number of particles (also none or fewer than locations), location lists, existing walk and previous data',
  why='Counts, remainders and concatenation order over all sizes; tests use one or two sizes.',
  files=[PTF, LWF], mech=[('seeding', PTF + ' generate_particles'), ('seed choice', LWF + ' random_pick_seed')], obs=['walk data after seeding']),
]
