"""Property catalogue, part 4 (routines that run, draw and save; logging)."""
RTF, LGF, PTF = 'dorado/routines.py', 'dorado/logging_config.py', 'dorado/particle_track.py'
SPF = 'dorado/spatial.py'
PROPS = [
 dict(id='C29', title='Looking at a walk does not change it',
  statement='Analysis, query, plotting, conversion and seeding functions leave the walk, rasters, exposure times and seed lists they are given as they were. Iterating leaves the earlier entries of every history, the start cells and the fields and parameters of the object as they were.',
  over=['inputs', 'histories'], q='every walk, raster, list of exposure times, seed list and option',
  why='Tests look at the result of one call and rarely at its arguments afterwards.',
  files=[RTF, PTF, 'dorado/spatial.py', 'dorado/lagrangian_walker.py'],
  mech=[('arguments', PTF + ' exposure_time, nourishment_area, nourishment_time; ' + RTF + ' get_state, get_time_state, plots; dorado/spatial.py systemwide, localized')], obs=['arguments after each call']),
 dict(id='C30', title='Routines write exactly their documented files where asked',
  statement='With a folder given, steady_plots, time_plots and the exposure plots write exactly the documented figures and data files below that folder, and without one below the current directory. Every directory exists before a file goes into it and nothing already there is removed. With saving switched off nothing is written or created.',
  over=['inputs', 'configurations'], q='every folder name, number of iterations or steps, and saving switch',
  why='Tests use one folder, one length and look at a few of the files.',
  files=[RTF], mech=[('writing', RTF + ' steady_plots, time_plots, plot_exposure_time, plot_exposure_time_thresholds')], obs=['paths written, directories made']),
 dict(id='C31', title='Routines save and return the walk they made',
  statement='steady_plots and time_plots continue the walk exactly as often as asked (for time_plots to the multiples of the time step) and return the resulting histories of all particles. The saved data.txt equals what is returned; saved exposure times equal the given ones. Zero iterations give the walk as it was.',
  over=['inputs', 'histories'], q='every object, number of iterations or steps and time step',
  why='Tests check lengths for a few iterations and do not compare the saved data.',
  files=[RTF], mech=[('saving', RTF + ' steady_plots, time_plots, plot_exposure_time')], obs=['calls of run_iteration, returned walk, data.txt']),
 dict(id='C32', title='Unsteady runs move particles through the field of each step',
  statement='Step i of unsteady_plots uses the i-th file, in sorted order, of each variable and the given cell size, seeds particles only in the first step and continues all of them up to (i+1) time steps. The number of steps is capped by the files available and an unknown file type raises a ValueError before anything moves. The returned and saved walk is the last one and figure i shows its own step.',
  over=['inputs', 'histories', 'configurations'], q='every set of input files, file type, number of steps and time step',
  why='No test runs the unsteady routine over several outputs.',
  files=[RTF], mech=[('stepping', RTF + ' unsteady_plots')], obs=['files read, parameters, walk and figures of each step']),
 dict(id='C35', title='Plots show every particle at its own cell over the untransposed field',
  statement='Every plot of particles draws entry (row, column) of a particle at abscissa column and ordinate row over the raster as stored. Starts, positions, colours and titles of a frame come from the iteration or time that the frame is for, and a travel path shows exactly the chosen entries of the chosen particle in order and is named after it in the legend.',
  over=['inputs', 'histories', 'configurations'], q='every walk, iteration, time, selection of particles and plot option',
  why='Tests of plots only check that the calls return or that files exist.',
  files=[RTF], mech=[('drawing', RTF + ' steady_plots, time_plots, plot_state, draw_travel_path, show_nourishment_area, show_nourishment_time')], obs=['arguments of the drawing calls']),
 dict(id='C36', title='Logging and verbosity settings do what they say',
  statement='setup_logging sets the level asked for, adds each handler given once and a console handler only when there is none; an invalid level raises a ValueError and changes nothing. The deprecated verbose switch warns exactly when it is given and then sets INFO or ERROR.',
  over=['inputs', 'configurations'], q='every level, handler list, logger state and verbose value',
  why='Tests cover single settings of a fresh logger.',
  files=[LGF, PTF], mech=[('logging', LGF + ' setup_logging, handle_verbose_deprecation')], obs=['level, handlers and warnings']),
 dict(id='C37', title='Exposure curves and reported quantiles are those of the exposure times',
  statement='The cumulative curve counts, at every time, the share of all particles whose exposure time is over by then, leaving out particles never exposed or still inside at the end; the smooth curve and the rate curve follow from it. The times reported for 50, 75 and 90 percent are where the curve reaches them, and a quantile is reported as not reached exactly when it is not.',
  over=['inputs', 'histories'], q='every list of exposure times, end time and time step',
  why='Which particles drop out and which quantiles are reached depends on the data; tests use one example.',
  files=[RTF], mech=[('curves', RTF + ' plot_exposure_time, plot_exposure_time_thresholds')], obs=['curves drawn, messages, returned values']),
 dict(id='C38', title='Snake plots trail each particle through its own recent history',
  statement='snake_plots writes one figure for every step that some particle has reached, named by that step. In it each particle that has got so far is drawn with the pieces of its own history that end at the step, newest first, at most the tail length, fading linearly. The walk is left as it was.',
  over=['inputs', 'histories', 'configurations'], q='every walk with histories of any length, tail length and range of steps',
  why='Tests draw one regular walk and look for files only.',
  files=[RTF], mech=[('snakes', RTF + ' snake_plots')], obs=['files and drawn pieces']),
 dict(id='C33', title='Recording further variables changes nothing else',
  statement='Positions, times, query results, measures, figures and returned values are the same whether or not optional variables are recorded along with a walk. This holds for every query, measure, plot and routine that takes walk data, and for iterating in either mode with the same random draws.',
  over=['inputs', 'histories', 'configurations'], q='every walk, with any of the optional variables recorded from the start, from now on, or not at all',
  why='Tests run each routine with one fixed set of variables.',
  files=[RTF, PTF, SPF], mech=[('catalogue', 'every function taking walk data'), ('iteration', PTF + ' run_iteration')], obs=['results, drawings and files of both variants']),
 dict(id='C34', title='Analyses and routines accept every valid walk',
  statement='No query, measure, conversion, plot or analysis of chunks fails on a valid walk: one particle or many, histories of different lengths down to a single entry, with or without optional variables. Asking a routine for zero iterations gives back the walk as it is.',
  over=['inputs', 'histories', 'configurations'], q='every walk with at least one particle; free and small numbers of particles',
  why='Degenerate walks (a particle that never moved, a single particle) do not occur in the tests.',
  files=[RTF, PTF, SPF], mech=[('catalogue', 'every function taking walk data'), ('zero iterations', RTF + ' steady_plots, time_plots')], obs=['exceptions, returned walk']),
 dict(id='C39', title='Animations play the saved figures in order',
  statement='animate_plots plays exactly the figures output<i>.png below figs of the given folder, for i from the start value up to but not including the end value, in order and upright. It writes animation.mp4 into that folder and nothing else.',
  over=['inputs'], q='every start and end value',
  why='No test covers the animation.',
  files=[RTF], mech=[('animation', RTF + ' animate_plots')], obs=['frames, figures read, files written']),
 dict(id='C40', title='Spatial maps line up with the raster they were made from',
  statement='plot_spatial shows the maps in the order given, one panel each from left to right, each over the elevation; both are spread over all rows and columns of the elevation with the first row on top, untransposed. All panels and the colour bar share one scale of evenly spaced levels from zero to the given maximum, and the bar carries these levels and the given title.',
  over=['inputs'], q='every list of one to three maps of any shape, elevation of any shape, maximum, number of levels',
  why='Tests only check the types of what is returned.',
  files=[SPF], mech=[('maps', SPF + ' plot_spatial')], obs=['images, panels, extents, scales, ticks and labels']),
 dict(id='C41', title='Calls leave no hidden state behind',
  statement='What a call computes depends on its arguments, the objects it is given, the files it reads and the random stream, not on which calls were made before on the same or other objects; no call alters what an earlier one returned. Constructing, seeding, moving and clearing one object leaves every other object as it was. No call changes settings of the process (working directory, environment, handling of warnings and of numerical errors).',
  over=['inputs', 'histories'], q='every pair of calls of the same function on unrelated data; every pair of objects',
  why='Tests use one object and one call at a time; a cache, a shared container or a mutable default only shows in the second call on other data.',
  files=[PTF, 'dorado/lagrangian_walker.py', RTF, SPF, 'dorado/parallel_routing.py'],
  mech=[('calls', 'every construction, seeding, iteration, query, measure, plot and parallel run')], obs=['results of a call after another one, other objects, effect log']),
 dict(id='C42', title='Walks consist of plain numbers that can be saved and shared',
  statement='Every number a walk records (cells, times, tracked variables, coordinates) is a plain Python number or a double, whatever number type the rasters have and whether seed cells are given as lists or arrays. So every walk can be saved as JSON by the routines, reloaded and passed between processes.',
  over=['inputs', 'configurations'], q='every raster type, tracked variable, way of seeding and iteration mode',
  why='Tests use double precision rasters and lists of seed cells; a single precision or integer raster shows the difference only when the walk is saved.',
  files=[PTF, 'dorado/lagrangian_walker.py'], mech=[('recording', PTF + ' generate_particles, run_iteration; lagrangian_walker.particle_stepper')], obs=['number kinds of the recorded walk']),
 dict(id='C43', title='Arguments left out or named mean what is documented',
  statement='Leaving out an optional argument of a public function is the same as giving its documented default, also when other options are given. Arguments given by position in the documented order mean the same as arguments given by their documented names.',
  over=['inputs', 'configurations'], q='every value of the required arguments; each optional argument left out or given',
  why='Tests call most functions in one way, with small inputs on which many defaults have no effect.',
  files=[RTF, PTF, SPF], mech=[('signatures', PTF + ' seeding, iteration, measures, conversions, gridding; ' + RTF + ' routines; ' + SPF + ' chunk analyses, filter, maps')], obs=['results, histories, drawings and files of both calls']),
]
