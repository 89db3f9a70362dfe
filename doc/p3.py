"""Property catalogue, part 3 (queries of a walk, chunks, thresholds, gridding, seeding by discharge)."""
RTF, SPF, PTF = 'dorado/routines.py', 'dorado/spatial.py', 'dorado/particle_track.py'
PROPS = [
 dict(id='C24', title='State queries return each particle\'s own entry of the history',
  statement='The state at an iteration holds, for every particle, its position and time of exactly that entry of its history, or of the last entry when its history is shorter. The state at a travel time holds the entry closest in time, the first one on ties. Rows, columns and times of one particle come from the same entry and the walk is left as it was.',
  over=['inputs', 'histories'], q='every walk with histories of different lengths, every iteration and target time',
  why='Tests query one or two regular walks in which all particles have the same number of entries.',
  files=[RTF], mech=[('queries', RTF + ' get_state, get_time_state')], obs=['returned positions and times']),
 dict(id='C25', title='Chunked exposure attributes each particle to the chunk of its start',
  statement='The system-wide and localized analyses divide the raster into chunks in row-major order, the remainder belonging to the last chunk of a row or column. Each chunk gets the exposure times of exactly the particles that start in it (particles without history in none), measured in the region (for the localized analysis only the part inside the chunk), and chunks without region are undefined.',
  over=['inputs', 'histories', 'configurations'], q='every raster shape, chunk size, region and walk',
  why='Boundaries, remainders and empty chunks multiply; tests use one walk on one raster.',
  files=[SPF], mech=[('chunks', SPF + ' systemwide, localized, _find_common_indices_info')], obs=['exposure times and times of every chunk']),
 dict(id='C26', title='Threshold maps hold the quantiles of the exposure in each chunk',
  statement='Every chunk gets the 50, 75 and 90 percent quantiles of the distribution estimated from its non-zero defined exposure times, in units of the given time, in the map cell of that chunk; chunks with fewer than five distinct values are undefined. The filter replaces every defined cell by the mean of the entries of its window that deviate from their median by at most the given multiple of the median deviation (by the median if that is zero), and leaves undefined cells undefined.',
  over=['inputs', 'configurations'], q='every set of exposure times, map shape, window and filter limit',
  why='Tests compare a few fixed samples; the cell of a chunk and undefined entries depend on the data.',
  files=[SPF], mech=[('quantiles', SPF + ' compute_thresholds, percentile_from_cdf'), ('filter', SPF + ' median_absolute_deviation_filter')], obs=['threshold maps']),
 dict(id='C27', title='Seeding by discharge hands out exactly the particles asked for',
  statement='The numbers of particles over the seeding times add up to the number asked for, are never negative, differ from the share of the discharge by less than one particle, and times without discharge get none. A ValueError is raised exactly when there are fewer discharge values than steps or no discharge at all.',
  over=['inputs'], q='every hydrograph, time step and number of particles',
  why='Rounding errors accumulate differently for every hydrograph; tests sum two of them.',
  files=[PTF, 'dorado/routines.py'], mech=[('allocation', 'flux_proportional_seeding')], obs=['returned times and numbers']),
 dict(id='C28', title='Gridding places every value at the cell of its coordinates',
  statement='A raster made from scattered data holds in every cell the inverse-distance weighted mean (or nearest value) of the data around the coordinates of that cell, with the last row the southernmost, and is undefined outside the given boundary. Cropping removes exactly the fully undefined rows and columns. The returned function grids further data the same way, and lists of unequal length raise a ValueError.',
  over=['inputs', 'configurations'], q='every set of points, values, cell size, number of neighbours and boundary',
  why='Orientation and weights depend on the data; tests grid a handful of points.',
  files=[PTF], mech=[('gridding', PTF + ' unstruct2grid')], obs=['returned raster and function']),
]
