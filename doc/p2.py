"""Property catalogue, part 2 (construction, validation, parallel runs, measures)."""
LWF, PTF, PRF = 'dorado/lagrangian_walker.py', 'dorado/particle_track.py', 'dorado/parallel_routing.py'
PROPS = [
 dict(id='C14', title='A rejected request changes nothing',
  statement='Seeding with a count, location list, seed time or method of the wrong type, an unknown method, an unknown variable or a region flag without a region is rejected with the documented exception, and neither the object nor the arguments have changed afterwards. Iterating before any seeding is rejected with a ValueError. Location lists given as arrays or columns are accepted like lists, and clearing the walk data leaves none.',
  over=['inputs', 'histories'], q='every invalid argument, on a fresh object, after a walk and with previous walk data',
  why='Tests check that an exception is raised, not that every attribute and argument is as before.',
  files=[PTF], mech=[('argument checks', PTF + ' gen_input_check, Particles.generate_particles, run_iteration, clear_walk_data')],
  state=[('walk data', 'the histories of all particles', 'Particles.walk_data')], obs=['exceptions', 'attributes of the object after a rejected call']),
 dict(id='C15', title='Incomplete parameters are rejected, complete ones are not',
  statement='Construction raises a ValueError exactly when something required is missing: the cell size, one of the three combinations of depth, stage and topography that determine the water, or both discharge and velocity components. A missing or None value counts as missing. A region of interest is accepted exactly when it has the shape of the grid.',
  over=['configurations', 'inputs'], q='every subset of the grid fields, given, missing or None, every model name, every shape of the region',
  why='The combinations multiply; tests try a few incomplete sets.',
  files=[PTF], mech=[('parameter checks', PTF + ' Particles.__init__')], obs=['exceptions of the constructor']),
 dict(id='C16', title='Derived grid fields are consistent with the given ones',
  statement='Depth, stage and topography of a constructed object satisfy the documented relation, with undefined values in the depth treated as dry (zero depth); the flow components are those given, rotated to the row/column axes for DeltaRCM as documented and otherwise mapped to (-y, x); velocity is discharge over depth, and discharge velocity times depth, with a floor on the depth divided by; the speed is the length of the velocity vector and the angle its direction. Another object built from the same parameters has the same fields.',
  over=['inputs', 'configurations'], q='every field content and every accepted combination of given fields and model',
  why='Six flow cases times four water cases over arbitrary fields; tests compare a few uniform fields.',
  files=[PTF], mech=[('derived fields', PTF + ' Particles.__init__')], obs=['fields of a constructed object']),
 dict(id='C17', title='No undefined or zero speed enters the routing',
  statement='After construction no depth, discharge, velocity, speed or flow angle is undefined, whatever undefined entries the given fields contain, and every speed is at least 1e-8 so travel times are finite. Only the stage may be undefined, and only where it was given or derived so.',
  over=['inputs', 'configurations'], q='every content of the given fields, undefined entries included',
  why='Depends on the interplay of undefined entries in several fields; tests use fully defined fields or one undefined entry.',
  files=[PTF], mech=[('cleaning of fields', PTF + ' Particles.__init__')], obs=['fields of a constructed object']),
 dict(id='C18', title='Parameters are honoured and have the documented defaults',
  statement='Every tunable given (theta, gamma, dry depth, diffusion coefficient, steepest descent, cell types, tables, region, verbosity) is the one used; when missing or None the documented default is, and gamma and the diffusion coefficient are computed from the documented quantities. A new object has no walk data and no particles.',
  over=['configurations'], q='every tunable given, missing or None, for every model name',
  why='About fifteen tunables with model dependent defaults, of which tests read a few.',
  files=[PTF], mech=[('defaults', PTF + ' Particles.__init__')], obs=['attributes of a constructed object']),
 dict(id='C19', title='A parallel run loses and duplicates no work',
  statement='Every process seeds the requested number of particles per process from the given locations and iterates the requested number of times; the combined result holds the histories of all particles of all processes, in order, each exactly once and unchanged.',
  over=['configurations', 'schedules'], q='any number of processes, iterations, particles and results of any length',
  why='Tests run two processes and look at the number of particles.',
  files=[PRF], mech=[('driver', PRF + ' parallel_routing'), ('work of a process', PRF + ' run_iter'), ('combination', PRF + ' combine_result')], obs=['result of parallel_routing']),
 dict(id='C20', title='Parallel processes use independent reproducible random streams',
  statement='Each process reseeds the global random number generator before it draws, with a seed that the generator accepts, that differs from process to process within the run and depends only on the state of the caller\'s generator, so the same seed of the caller gives the same run and no two processes follow the same stream.',
  over=['schedules', 'configurations'], q='any number of processes and any state of the generator',
  why='Identical streams are plausible walks; no test compares the processes or repeats a run.',
  files=[PRF], mech=[('seeding of processes', PRF + ' parallel_routing, run_iter')], obs=['particle paths of different processes and repeated runs']),
 dict(id='C21', title='Coordinate and cell conversions are inverse to each other',
  statement='Converting cells to coordinates gives the corner-origin based coordinates of the cells, with rows counted from the top of the raster; converting coordinates to cells gives the nearest cell, with the same convention. Cells to coordinates and back is the identity for any raster and origin, and coordinates come back within half a cell; other variables of the walk are carried along.',
  over=['inputs'], q='every cell size, origin, raster shape and walk, defaults included',
  why='Tests convert one or two walks with integer origins.',
  files=[PTF], mech=[('conversion', PTF + ' coord2ind, ind2coord')], obs=['converted coordinates and cells']),
 dict(id='C22', title='Exposure time is the time a particle spends in the region',
  statement='The exposure time of a particle is the sum, over its moves, of the whole time step if both cells lie in the region and of half of it if only one does; a particle with a single entry has none. Each particle is measured on its own history only, the results are in particle order, and exactly the particles that end inside the region are reported as still in it.',
  over=['inputs', 'histories'], q='every walk, region and number of particles, histories of different lengths',
  why='Tests compare totals of one or two short walks.',
  files=[PTF], mech=[('exposure', PTF + ' exposure_time')], obs=['exposure times, reported particles']),
 dict(id='C23', title='Nourishment maps count visits and mean times of all particles',
  statement='The nourishment area is the number of history entries of each cell over all particles, clipped at the given percentile, smoothed by the given width, scaled to a maximum of one and undefined where nothing was visited; the nourishment time is the mean of half the time from the previous to the next entry over the inner entries in the cell, treated likewise but not scaled. Both have the shape asked for and leave the walk data alone.',
  over=['inputs', 'histories'], q='every walk, raster shape, smoothing width and clipping percentile',
  why='Tests use one short walk with all histories of equal length.',
  files=[PTF], mech=[('maps', PTF + ' nourishment_area, nourishment_time')], obs=['returned maps']),
]
