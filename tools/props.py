"""Source of properties.jsonl and MANIFEST.json (see meta.py)."""

NOTE = ('Sampled executions of the real code judged by an independent oracle; assurance is limited to the executions '
        'observed (counts in the evidence file). Trusts CPython, numpy/scipy/numba and the oracle in harness/props/%s.py. ')


def P(id, title, statement, over, over_text, why, files, mech, state, observe, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, over_text=over_text, why=why, files=files, mech=mech,
                state=state, observe=observe, technique=technique, note=NOTE % id.lower() + note)


PROPS = [
    P('C01', 'Bed level change equals the net mass exchanged with the air',
      'In every time step and every cell the bed level changes by exactly the exchanged mass divided by the bulk density '
      '(sediment density times one minus porosity), for erosion as well as deposition of any size. It does not change where '
      'bed updating is off or where there is no exchange, and the reported (yearly, averaged) bed level change is that change.',
      ['inputs', 'configurations', 'histories'],
      'every grid, grain-size composition, number of layers, wind history, solver, scheme, and any size of exchange per step',
      'Tests compare a handful of end states with stored references; the relation has to hold per cell for every '
      'exchange, in particular for exchanges larger than a bed layer and mixed erosion/deposition, which they never produce.',
      ['aeolis/bed.py', 'aeolis/model.py'],
      [('bed update', 'aeolis/bed.py:update'), ('average change', 'aeolis/bed.py:average_change')],
      [('zb', 'bed level', 'aeolis/constants.py'), ('dzb', 'bed level change', 'aeolis/bed.py:update'), ('pickup', 'exchanged mass', 'aeolis/model.py:update')],
      ['model state before and after each bed update and each time step'],
      'runtime monitor: per-cell mass/bed-level ledger around every bed update', ''),
    P('C02', 'Bed layers: mass is conserved and layers keep their thickness',
      'Sediment is moved between bed layers and exchanged with the air without being created or destroyed per grain class: '
      'what leaves the air enters the top layer and vice versa, only the bottom layer is replenished or relieved, from a '
      'reservoir with its own composition. Every layer keeps its total mass, and no class of any layer ever becomes negative.',
      ['inputs', 'configurations', 'histories'],
      'every initial composition (uniform, per layer, per cell), number of layers, grain classes and history of erosion and deposition',
      'Tests only check shapes and end states of one- or two-layer runs; the ledger has to close for each class, cell and '
      'layer in each step of any history.',
      ['aeolis/bed.py'],
      [('layer shifting', 'aeolis/bed.py:update'), ('redistribution', 'aeolis/bed.py:arrange_layers'), ('negative mass', 'aeolis/bed.py:prevent_negative_mass')],
      [('mass', 'sediment per cell, layer and class', 'aeolis/constants.py')],
      ['layer masses before and after each bed update, initial layer masses'],
      'runtime monitor: per-class, per-layer mass ledger', 'Layers of a cell initially hold equal mass.'),
    P('C03', 'Airborne sediment obeys the advection balance in every cell',
      'After every step the concentration of each grain class satisfies the discretised advection balance of its cell: '
      'storage plus net outflow to the neighbours equals the exchange with the bed, with the configured boundary '
      'conditions. Concentrations are finite and non-negative, nothing blows in calms, and reported fluxes are '
      'concentration times velocity.',
      ['inputs', 'configurations', 'histories'],
      'every wind direction and history, grid, class count, cross-shore boundary type, solver and time integration scheme',
      'Tests run three solver variants on one 1-D input and compare with stored output; errors in 2-D, oblique or '
      'reversing winds, at circular borders or for several classes never show.',
      ['aeolis/model.py'],
      [('implicit and explicit solvers', 'aeolis/model.py:solve'), ('steady solver', 'aeolis/model.py:solve_steadystate'),
       ('second discretisation', 'aeolis/model.py:solve_pieter')],
      [('Ct', 'concentration', 'aeolis/constants.py'), ('us/un', 'saltation velocity', 'aeolis/transport.py'), ('pickup', 'exchange', 'aeolis/model.py')],
      ['state after every time step'],
      'runtime monitor: residual of the cell balance recomputed independently each step', 'Cells beside a reversal of the wind are not judged.'),
    P('C04', 'No more sediment is entrained than the surface layer holds',
      'In no step does any cell give off more of a grain class than its surface layer holds at that moment; a class that '
      'is absent from the bed surface is not entrained. The surface layer therefore never runs negative and the airborne '
      'sediment stays finite when supply is exhausted.',
      ['inputs', 'configurations', 'histories'],
      'every wind, layer thickness, time step, composition and non-erodible floor, up to complete exhaustion of the bed',
      'Tests use thick layers and moderate wind: supply limitation is hardly ever active, let alone per class and per cell.',
      ['aeolis/model.py', 'aeolis/bed.py', 'aeolis/transport.py'],
      [('supply iteration', 'aeolis/model.py:solve'), ('weights', 'aeolis/transport.py:compute_weights')],
      [('mass', 'available sediment', 'aeolis/constants.py'), ('pickup', 'entrained mass', 'aeolis/model.py')],
      ['exchange and surface layer at every bed update'],
      'runtime monitor: entrained versus available mass at every bed update', 'Steps in which the solver reports non-convergence are not judged.'),
    P('C05', 'Saturated transport: nothing below threshold, formula above it',
      'The saturated sediment concentration is zero exactly where the shear velocity does not exceed the threshold, and '
      'positive and equal to the selected transport formula elsewhere. Saltation velocity has the direction of the wind and '
      'the magnitude of the selected method.',
      ['inputs', 'configurations', 'histories'],
      'every wind speed and direction, shear field, threshold field, grain size, transport formula and velocity method',
      'Tests execute the default formula on one profile and do not look at the saturation field.',
      ['aeolis/transport.py'],
      [('equilibrium', 'aeolis/transport.py:equilibrium'), ('saltation velocity', 'aeolis/transport.py:duran_grainspeed')],
      [('Cu', 'saturated concentration', 'aeolis/transport.py'), ('uth', 'threshold', 'aeolis/threshold.py'), ('ustar', 'shear velocity', 'aeolis/wind.py')],
      ['state after every time step and around the equilibrium computation'],
      'runtime monitor: independent re-evaluation of saturation and velocity', ''),
    P('C06', 'Threshold of motion follows the state of the surface',
      'The threshold shear velocity of each cell and class is the Bagnold value raised by moisture, salt, sheltering and the user '
      'mask as configured, and infinite where the surface is too wet, flooded, or non-erodible. No process ever lowers it, and '
      'the fluid threshold is kept.',
      ['inputs', 'configurations', 'histories'],
      'every moisture, salt, composition, water level and non-erodible floor, and each moisture formulation',
      'Tests compute the threshold for one or two formulations on single values.',
      ['aeolis/threshold.py'],
      [('threshold', 'aeolis/threshold.py:compute'), ('moisture', 'aeolis/threshold.py:compute_moisture'), ('non-erodible', 'aeolis/threshold.py:non_erodible')],
      [('uth', 'threshold shear velocity', 'aeolis/constants.py'), ('uthf', 'fluid threshold', 'aeolis/constants.py')],
      ['state before and after each threshold computation'],
      'runtime monitor: independent re-evaluation of the threshold each step', ''),
    P('C07', 'Wind record is interpolated, oriented and converted consistently',
      'At every time the free-stream wind is the circularly interpolated record, interpreted in the configured direction '
      'convention and decomposed along the grid axes; shear velocity and stress follow from it with the configured roughness. '
      'Wind imposed by a coupled model is used unchanged.',
      ['inputs', 'configurations', 'histories'],
      'every wind record (irregular, crossing north, shorter than the run), direction convention, grid angle, roughness method',
      'Tests use constant or one stored record and only compare end results.',
      ['aeolis/wind.py', 'aeolis/utils.py'],
      [('interpolation', 'aeolis/wind.py:interpolate'), ('roughness', 'aeolis/wind.py:calculate_z0'), ('circular', 'aeolis/utils.py:interp_circular')],
      [('uw/uws/uwn/udir', 'free-stream wind', 'aeolis/constants.py'), ('tau/ustar', 'stress and velocity', 'aeolis/constants.py')],
      ['state after every time step'],
      'runtime monitor: independent re-evaluation of the wind each step', ''),
    P('C08', 'Wind shear over topography respects symmetry and reference solutions',
      'Over a flat bed topography leaves the wind undisturbed whatever the datum, grid angle, wind direction and roughness. '
      'Perturbations do not depend on datum, coordinates or mirror images, scale with the wind, speed up windward slopes, and '
      'reduce it in the lee; stress and shear velocity stay parallel and consistent.',
      ['inputs', 'configurations'],
      'every topography, datum, wind direction and speed, grid size and angle, with and without flow separation',
      'Tests compare one 1-D and one 2-D result with stored references computed by the same code.',
      ['aeolis/shear.py', 'aeolis/wind.py'],
      [('2-D shear', 'aeolis/shear.py:WindShear.__call__'), ('separation', 'aeolis/shear.py:WindShear.separation'), ('1-D shear', 'aeolis/wind.py:compute_shear1d')],
      [('taus/taun', 'stress', 'aeolis/constants.py'), ('zsep', 'separation surface', 'aeolis/constants.py')],
      ['state around each shear computation, twin runs'],
      'runtime monitor with metamorphic twin runs and reference formula', ''),
    P('C09', 'Results do not depend on the orientation of the grid',
      'The same beach, described in a grid turned by any supported angle with the wind turned along, evolves identically: '
      'scalars, time steps and grid-relative components are the same and world-relative directions turn along. The grid the user '
      'supplied is kept, with the cell sizes it implies.',
      ['inputs', 'configurations', 'histories'],
      'every supported grid angle, with shear, vegetation, tide and avalanching, over completed and skipped steps',
      'The tests contain one rotated grid and no unrotated twin to compare with.',
      ['aeolis/gridparams.py', 'aeolis/model.py', 'aeolis/wind.py', 'aeolis/shear.py'],
      [('grid', 'aeolis/gridparams.py:initialize'), ('rotation', 'aeolis/model.py:grid_rotate')],
      [('x/y/ds/dn/alfa', 'grid geometry', 'aeolis/gridparams.py')],
      ['state of twin models after every step'],
      'runtime monitor with twin runs (metamorphic)', 'Angles in the quadrants the package announces as supported.'),
    P('C10', 'Clock: every step moves forward, respects its limits and ends on time',
      'Each update advances the clock by exactly the step it used, which is positive and never larger than requested, the '
      'Courant limit (explicit scheme) or the bed level change limit require. Fast-forwarding changes nothing but the '
      'clock, a calm changes no sediment, and a run always ends at its end time.',
      ['schedules', 'inputs', 'configurations'],
      'every sequence of configured, given and fast-forwarded steps, wind history, scheme and limits',
      'Tests run a fixed step to the end; limits, calms and mixed schedules are not exercised.',
      ['aeolis/model.py'],
      [('step', 'aeolis/model.py:update'), ('time step', 'aeolis/model.py:set_timestep')],
      [('t/dt', 'clock', 'aeolis/model.py')],
      ['clock before and after every update'],
      'runtime monitor over the clock of random schedules', ''),
    P('C11', 'Avalanching relaxes slopes to repose without creating sediment',
      'Slopes below the static angle of repose never move; steeper ones are relaxed until no slope exceeds the dynamic angle. '
      'Avalanching creates no sediment and loses none away from the border, never moves sand upward, never digs into a '
      'non-erodible floor, and treats mirrored beds alike.',
      ['inputs', 'configurations'],
      'every bed (above and below datum), repose angles, grid, with and without non-erodible floor',
      'Avalanching appears in one stored-output case only.',
      ['aeolis/avalanching.py'],
      [('avalanching', 'aeolis/avalanching.py:avalanche'), ('slopes', 'aeolis/avalanching.py:calc_gradients')],
      [('zb', 'bed level', 'aeolis/constants.py'), ('zne', 'non-erodible level', 'aeolis/constants.py')],
      ['bed level around every avalanching pass and step'],
      'runtime monitor: conservation, repose and range oracles around every pass', 'Cells of 1 m and more.'),
    P('C12', 'Water levels, waves and run-up follow the records and the local depth',
      'The still water level, wave height and period at any instant are those of the given records (linear between entries, '
      'repeated beyond their end), modified by the masks where supplied. Waves are limited by the local depth, set-up, '
      'swash and run-up follow the documented formula, no water surface lies below the bed, and without a process its level does not rise.',
      ['inputs', 'configurations', 'histories'],
      'every record (shorter or longer than the run), process combination, mask, bed and imposed wave or water level field',
      'Tests contain a few tidal runs with default settings and judge only the final bed.',
      ['aeolis/hydro.py'],
      [('records', 'aeolis/hydro.py:interpolate'), ('run-up', 'aeolis/hydro.py:calc_runup_stockdon')],
      [('SWL/zs/TWL/DSWL', 'water levels', 'aeolis/constants.py'), ('Hs/Tp/R', 'waves and run-up', 'aeolis/constants.py')],
      ['state around every evaluation of the hydrodynamics'],
      'runtime monitor: reference evaluation of records and run-up at every call', ''),
    P('C13', 'Groundwater: each transect obeys its own water balance',
      'The water table never rises above the bed, follows the sea on the wet side and relaxes to the steady profile its boundaries '
      'imply. A horizontal table at sea level stays at rest, infiltrating run-up only adds water, sub-steps cover exactly the model '
      'step, and each transect of a 2-D model behaves as it would alone.',
      ['inputs', 'configurations', 'histories'],
      'every beach profile, position of the water line, tide and wave record, landward boundary, with and without seepage face',
      'Groundwater appears in one stored-output case.',
      ['aeolis/hydro.py'],
      [('water balance', 'aeolis/hydro.py:update'), ('Boussinesq', 'aeolis/hydro.py:Boussinesq')],
      [('gw/gw_prev', 'groundwater level', 'aeolis/constants.py')],
      ['state around every hydrodynamic update and groundwater sub-step'],
      'runtime monitor: bounds, rest states, analytic limits, transect twins', 'Stable groundwater sub-steps only.'),
    P('C14', 'Vegetation grows, spreads, shelters and dies by its rules',
      'Vegetation only appears by germination or spreading, at their rates, only above its minimum elevation, and dies where flooded '
      'or where burial or erosion exceeds what it tolerates. Cover stays between none and its maximum, height and cover stay consistent, '
      'growth is proportional to time, and plants only ever reduce the shear, by the documented factor, keeping its direction.',
      ['inputs', 'configurations', 'histories'],
      'every initial cover, growth and sheltering model, burial history, tide, time step and time acceleration',
      'Tests compare a few final vegetation maps with stored ones.',
      ['aeolis/vegetation.py'],
      [('sheltering', 'aeolis/vegetation.py:vegshear'), ('germination', 'aeolis/vegetation.py:germinate'), ('growth', 'aeolis/vegetation.py:grow')],
      [('rhoveg/hveg', 'cover and height', 'aeolis/constants.py')],
      ['state around sheltering, germination and growth'],
      'runtime monitor: per-cell growth ledger and germination frequencies', 'Random draws judged within six standard deviations.'),
    P('C15', 'Sand fences shelter only their lee and lose height as they are buried',
      'A fence sticks out of the bed by its fixed top minus the bed level; it has no effect once buried to less than 0.1 m and for good '
      'once more than 1.5 m of it is exposed. Fences never speed up or turn the wind, leave it unchanged everywhere but at '
      'the fence and in its lee, reduce it there (by the documented formula in 1-D), and do nothing where there are none.',
      ['inputs', 'configurations', 'histories'],
      'every fence layout, wind direction, grid orientation and history of burial and exposure',
      'The tests contain no fences.',
      ['aeolis/fences.py'],
      [('fence height', 'aeolis/fences.py:update_fence_height'), ('1-D lee', 'aeolis/fences.py:fence_shear1d'), ('2-D lee', 'aeolis/fences.py:fence_shear2d')],
      [('fence_height/fence_top', 'fences', 'aeolis/constants.py')],
      ['state around the fence stage, bed levels imposed between steps'],
      'runtime monitor: fence height ledger, reference lee formula, wake geometry', '2-D wakes judged outside a two-cell margin.'),
    P('C16', 'Configuration files are read, written and defaulted faithfully',
      'Every parameter keeps its value and kind when a configuration is written and read back: numbers at full precision, booleans, '
      'strings, lists, empty values and referenced data files, whatever their spacing, comments or order. Parameters that are not '
      'given take their documented defaults; writing alters no parameter and keeps a backup of the files it replaces.',
      ['inputs', 'configurations'],
      'every combination of parameter values, notations, comments, spacing and referenced array files',
      'Tests parse a few literal values; the round trip is never checked for random content.',
      ['aeolis/inout.py'],
      [('reading', 'aeolis/inout.py:read_configfile'), ('parsing', 'aeolis/inout.py:parse_value'), ('writing', 'aeolis/inout.py:write_configfile')],
      [('p', 'parameters', 'aeolis/constants.py')],
      ['parameters before writing and after reading'],
      'runtime monitor: write-read round trips against the source values', 'Masks are only checked for reading.'),
    P('C17', 'The model interface reads and writes the very state of the model',
      'Variables and parameters are returned and set under their own names with their own shapes: what is set is what is returned and '
      'what the next step computes with, except for variables declared immutable, which the model no longer overwrites. Arrays '
      'passed in stay the property of the caller, dimensions and types match the state, and one update advances by the step asked for.',
      ['inputs', 'configurations', 'histories'],
      'every variable and parameter, any sequence of setting, getting and stepping, for every grid',
      'Tests touch a few getters on a default model.',
      ['aeolis/model.py'],
      [('interface', 'aeolis/model.py:AeoLiS.set_var'), ('immutable state', 'aeolis/model.py:ModelState')],
      [('s', 'model state', 'aeolis/constants.py'), ('p', 'parameters', 'aeolis/constants.py')],
      ['state and parameters around each interface call and step'],
      'runtime monitor: interface calls mirrored in a reference store', ''),
    P('C18', 'Output statistics are those of the steps they cover',
      'The average, sum, minimum, maximum and (sample) variance of a variable are those over exactly the steps since statistics were '
      'last cleared, for every variable and cell, in every notation. Requests clear them with the next step if and only if asked to, '
      'a fast-forward starts afresh, and requests for instantaneous values return the present state.',
      ['inputs', 'configurations', 'histories'],
      'every list of output variables and statistics and every history of steps, fast-forwards, requests and clearing',
      'No test recomputes a statistic.',
      ['aeolis/model.py'],
      [('accumulation', 'aeolis/model.py:output_update'), ('request', 'aeolis/model.py:get_statistic'), ('clearing', 'aeolis/model.py:output_clear')],
      [('o', 'output statistics', 'aeolis/model.py')],
      ['state after every step, answers to requests'],
      'runtime monitor: statistics recomputed from the recorded history', ''),
    P('C19', 'The output file holds what the model computed, when it was due',
      'A completed run leaves a file with exactly the requested variables and statistics, at the start and at every due output '
      'time, with values, dimensions, units, coordinates and gapless time bounds that match the model at those times. A run that '
      'breaks off leaves a readable file with all output due until then, and leftovers of earlier runs never show up in it.',
      ['inputs', 'configurations', 'histories', 'crash_points'],
      'every selection of variables and statistics, output interval, start time, grid, and every step at which a run breaks off',
      'The only test of file contents compares one stored run; intervals, statistics and aborted runs are not covered.',
      ['aeolis/netcdf.py', 'aeolis/model.py'],
      [('initialisation', 'aeolis/netcdf.py:initialize'), ('appending', 'aeolis/netcdf.py:append'), ('output', 'aeolis/model.py:AeoLiSRunner.output_write')],
      [('aeolis.nc', 'output file', 'aeolis/netcdf.py'), ('tout', 'time of last output', 'aeolis/model.py')],
      ['state after every step, output file during and after the run'],
      'runtime monitor: output file against the recorded history', 'Coordinates x and y are not requested as variables.'),
    P('C20', 'A run resumed from a restart file equals the uninterrupted run',
      'Restart files are written when due and hold the complete model at that time. A run resumed from any of them, including one '
      'left by a run that crashed, steps through the same times with the same states as the uninterrupted run.',
      ['inputs', 'configurations', 'histories', 'crash_points'],
      'every combination of processes, every restart interval and every step at which a run is broken off',
      'No test writes or reads a restart file.',
      ['aeolis/model.py'],
      [('dump', 'aeolis/model.py:AeoLiSRunner.dump_restartfile'), ('load', 'aeolis/model.py:AeoLiSRunner.load_restartfile')],
      [('trestart', 'time of last restart file', 'aeolis/model.py'), ('s, l, p, t, dt', 'dumped model', 'aeolis/model.py')],
      ['state after every step of both runs, restart files'],
      'runtime monitor: twin run resumed from recorded restart files', 'Random vegetation processes off.'),
    P('C21', 'A run does what stepping the model by hand does, and calls back in between',
      'Running a model goes through the same times and states as stepping it by hand, from its own directory and back, until its end '
      'time, leaving inputs alone and writing only log and output. Callbacks are called once before every step with the model itself '
      'and may change it; parameters and hotstart files given beforehand take effect; errors in callbacks surface.',
      ['inputs', 'configurations', 'histories', 'crash_points'],
      'every way to give a callback, every set of changed parameters and hotstart files, and every step at which a callback fails',
      'Tests start one runner and look at its instance variables.',
      ['aeolis/model.py'],
      [('run', 'aeolis/model.py:AeoLiSRunner.run'), ('callback', 'aeolis/model.py:AeoLiSRunner.parse_callback'), ('hotstart', 'aeolis/model.py:AeoLiSRunner.load_hotstartfiles')],
      [('working directory', 'process state', 'aeolis/model.py'), ('n', 'number of time steps', 'aeolis/model.py')],
      ['calls, steps, states, files and working directory during runs'],
      'runtime monitor: recorded run against hand-stepped model', ''),
    P('C22', 'Model instances are repeatable and independent of each other',
      'The same set-up gives bit by bit the same results each time, also in a fresh process, with its configuration in another order, '
      'or with other models stepped or tampered with in between. Models share no state, change no package tables, and draw random '
      'numbers only for the random processes, repeatably.',
      ['inputs', 'configurations', 'schedules', 'histories'],
      'every interleaving of steps and interface calls of several models in one process',
      'Tests run one model at a time and once.',
      ['aeolis/model.py', 'aeolis/constants.py'],
      [('instance set-up', 'aeolis/model.py:AeoLiS.__init__'), ('defaults', 'aeolis/constants.py:DEFAULT_CONFIG')],
      [('s, p, l, c', 'state of each instance', 'aeolis/model.py'), ('DEFAULT_CONFIG', 'package table', 'aeolis/constants.py')],
      ['state digests of all models after every step, package tables'],
      'runtime monitor: bitwise twin runs under interleaved schedules', ''),
    P('C23', 'Generated wind records have the requested times and distribution',
      'A generated record starts at zero, advances by the requested step and just covers the requested duration, with finite speeds '
      'between zero and the maximum. Its mean and spread are those of the requested Weibull distribution, successive speeds are '
      'persistent, and written files hold the record and drive a model.',
      ['inputs', 'configurations'],
      'every mean and maximum speed, number of states, shape, scale, step and duration',
      'The generator is not tested.',
      ['aeolis/model.py'],
      [('generation', 'aeolis/model.py:WindGenerator.generate'), ('file', 'aeolis/model.py:WindGenerator.write_time_series')],
      [('wind speed record', 'generator state', 'aeolis/model.py')],
      ['generated records and files'],
      'runtime monitor: statistical oracle over generated records', 'Distribution within six batch standard errors.'),
    P('C24', 'Equivalent descriptions of a beach evolve equally',
      'A uniform coast evolves like its transect; shifting a circular coast, mirroring it, raising its datum or moving its records and '
      'clock in time shifts, mirrors, raises or moves the results. Splitting a grain class in two equal ones or listing classes in '
      'another order changes no totals while supply lasts.',
      ['inputs', 'configurations', 'histories'],
      'every beach, combination of processes, and history, for each of the equivalent descriptions',
      'Tests hold no pairs of equivalent models.',
      ['aeolis/model.py', 'aeolis/wind.py', 'aeolis/hydro.py', 'aeolis/threshold.py', 'aeolis/transport.py', 'aeolis/bed.py'],
      [('time step', 'aeolis/model.py:AeoLiS.update'), ('solver', 'aeolis/model.py:AeoLiS.solve')],
      [('s', 'all state variables', 'aeolis/constants.py')],
      ['state of both models after every step'],
      'runtime monitor: metamorphic twin runs', 'Processes that are not symmetric by design are left out per symmetry.'),
    P('C25', 'The command line does what the library does and reports failure',
      'Running a configuration from the command line gives the same output as the library, honouring callback, restart file and '
      'directory. Wind records follow the options and the printed summary, examples are copied completely without touching work of '
      'the user, and failures and deprecated calls end with a non-zero status without side effects.',
      ['inputs', 'configurations', 'histories'],
      'every command with every combination of options, from any directory',
      'Tests do not touch the command line.',
      ['aeolis/console.py'],
      [('run', 'aeolis/console.py:run'), ('wind', 'aeolis/console.py:wind'), ('examples', 'aeolis/console.py:examples')],
      [('files', 'inputs and outputs in the directory of the model', 'aeolis/console.py')],
      ['exit status, printed text, files, output'],
      'runtime monitor: command runs against library runs', 'Most runs call the application object in process.'),
    P('C28', 'Surface moisture and salt obey their water and salt balance',
      'Moisture stays between residual content and saturation; cells under water are saturated, the others dry and wet at the given '
      'rates following rain, evaporation or the water table with its wetting and drying curves. Salt stays between zero and its '
      'maximum: flooded cells take up sea water, evaporation concentrates and rain dilutes it.',
      ['inputs', 'configurations', 'histories'],
      'every soil, weather record, tide, moisture method, with and without groundwater, scanning curves and imposed moisture',
      'Moisture is covered by end states of a few default runs only.',
      ['aeolis/hydro.py'],
      [('moisture and salt', 'aeolis/hydro.py:update'), ('evaporation', 'aeolis/hydro.py:evaporation')],
      [('moist', 'surface moisture', 'aeolis/constants.py'), ('salt', 'salt content', 'aeolis/constants.py')],
      ['state around every hydrodynamic update'],
      'runtime monitor: water and salt balance recomputed every step', 'Salt only with the surface moisture method.'),
    P('C26', 'Waves mix exactly the layers they disturb and keep every grain',
      'Wherever waves reach the bed the layers within the depth of disturbance obtain one common composition, layers below and '
      'cells without waves keep theirs. Mixing preserves the mass of every layer and of every class, and a switched off process '
      'changes nothing.',
      ['inputs', 'configurations'],
      'every composition, layering, wave height and mask',
      'Tests hold no case with waves and several layers.',
      ['aeolis/bed.py', 'aeolis/hydro.py'],
      [('mixing', 'aeolis/bed.py:mixtoplayer'), ('disturbance depth', 'aeolis/hydro.py:interpolate')],
      [('mass', 'sediment mass per layer and class', 'aeolis/constants.py'), ('Hsmix', 'wave height for mixing', 'aeolis/constants.py')],
      ['mass before and after each mixing'],
      'runtime monitor: mixing recomputed around each call', 'Depth of disturbance as fraction of local wave height.'),
    P('C27', 'Surge and wave erode dunes as given and wet beds recover',
      'The dune front above the toe retreats, to the nearest cell, by the volume that coefficient, run-up and number of waves give, along the '
      'given erosion slope, and by nothing while the water stays below the toe. A wet bed returns to its initial level at the given '
      'rate, dry cells remain untouched; switched off processes change nothing.',
      ['inputs', 'configurations', 'histories'],
      'every dune, surge, wave climate and time step',
      'Tests do not touch dune erosion; one default run resets a wet bed.',
      ['aeolis/erosion.py', 'aeolis/bed.py', 'aeolis/hydro.py'],
      [('dune erosion', 'aeolis/erosion.py:run_ph12'), ('wet bed reset', 'aeolis/bed.py:wet_bed_reset')],
      [('zb', 'bed level', 'aeolis/constants.py'), ('TWL', 'total water level', 'aeolis/constants.py')],
      ['bed level before and after each stage'],
      'runtime monitor: erosion volume and reset recomputed around each call', 'Sea at the first column.'),
    P('C29', 'Shipped set-ups run and keep mass, bounds and consistency',
      'Every example shipped with the package runs from any moment of its records, under stronger or turned winds and with its '
      'processes, solver or time step changed. In every state values are finite, concentrations and masses not negative, exchanged '
      'mass balances, shear and thresholds are consistent, water, moisture and vegetation stay within bounds.',
      ['inputs', 'configurations', 'histories'],
      'every example, starting moment, wind and combination of processes',
      'Tests run two shipped set-ups once and compare the names of output variables.',
      ['aeolis/model.py', 'aeolis/bed.py', 'aeolis/wind.py', 'aeolis/hydro.py', 'aeolis/avalanching.py', 'aeolis/examples'],
      [('time step', 'aeolis/model.py:AeoLiS.update')],
      [('s', 'all state variables', 'aeolis/constants.py')],
      ['state after every step, stages around bed update, mixing and avalanching'],
      'runtime monitor: invariants over realistic set-ups', 'Wind of the sand engine is generated, it is not shipped.'),
    P('C30', 'Options that do not exist are refused, those that exist are not',
      'An unknown name of a scheme, solver, formulation, convention or boundary condition, a combination that is not implemented, and '
      'missing or malformed input end with an error of the right kind naming it, before results are produced; none is silently '
      'computed as something else. Every documented name is accepted and runs.',
      ['inputs', 'configurations'],
      'every option, every name, solver and input file',
      'Tests refuse two configurations.',
      ['aeolis/model.py', 'aeolis/inout.py', 'aeolis/wind.py', 'aeolis/threshold.py', 'aeolis/transport.py', 'aeolis/hydro.py', 'aeolis/bed.py'],
      [('configuration check', 'aeolis/inout.py:check_configuration'), ('boundary conditions', 'aeolis/model.py:AeoLiS.solve')],
      [('p', 'configuration', 'aeolis/constants.py')],
      ['exceptions, steps and files before them'],
      'runtime monitor: error watch under invalid and valid configurations', 'Two methods known not to run at all are left out.'),
    P('C31', 'Shared numerical helpers keep their contracts on every call',
      'Records repeat circularly and are linear in between, normalised values are proportional and sum to one or give the fill value, '
      'masks multiply and add, rotations preserve distances and invert, percentiles and means of grain size follow the surface '
      'composition, only tiny negatives are replaced. Backups keep every generation of a file.',
      ['inputs', 'histories'],
      'every argument, and every call made by running models',
      'Tests sample a few arguments of some helpers.',
      ['aeolis/utils.py', 'aeolis/inout.py'],
      [('helpers', 'aeolis/utils.py:interp_circular'), ('backup', 'aeolis/inout.py:backup')],
      [('mass', 'sediment mass per layer and class', 'aeolis/constants.py')],
      ['arguments and results of every call'],
      'runtime monitor: contracts on hooked helper calls', 'Names of helpers as in the package; missing ones are only noted.'),
    P('C32', 'Flow over topography follows the documented perturbation theory',
      'Shear stress over any topography is the free stress with the perturbation of Weng et al. added along the wind, never against it. '
      'Behind steep brinks, and only there, the flow follows the documented separation polynomial, above the bed, down to its '
      'reattachment; it shelters the bed below by the given slope. Transects do the same, whichever way they are drawn.',
      ['inputs', 'configurations'],
      'every topography, wind direction and speed, roughness, cell size, grid orientation and separation parameter',
      'Tests compare one 1-D and one 2-D result with stored references computed by the same code.',
      ['aeolis/shear.py', 'aeolis/wind.py'],
      [('perturbation', 'aeolis/shear.py:compute_shear'), ('separation', 'aeolis/shear.py:separation'), ('transects', 'aeolis/wind.py:compute_shear1d')],
      [('tau/taus/taun', 'shear stress', 'aeolis/constants.py'), ('zsep', 'separation surface', 'aeolis/constants.py')],
      ['bed, wind, stresses and separation surface around each shear stage'],
      'runtime monitor: comparison with an independent boundary-layer reference at each call',
      'Extent of the computational grid as the code chooses it; no filtering of the separation surface.'),
    P('C33', 'Inspection figures show what the model computes with; set-up tools make it',
      'With inspection switched on, the figures show exactly the grid, boundary conditions, records, fields and masks the model has at that moment, and drawing changes nothing in the computation. '
      'Grids and beds made by the set-up tools have the number, size, orientation and place of cells asked for and give just that model when loaded. '
      'Plots of an output file show its values of the chosen time, transect and class.',
      ['inputs', 'configurations'],
      'every model that can be inspected, every grid size, spacing and rotation, every output file',
      'No test draws a figure or runs a tool.',
      ['aeolis/inout.py', 'aeolis/model.py', 'tools/setup/setup_tools.py', 'tools/visualization/plotting.py'],
      [('inspection', 'aeolis/inout.py:visualize_grid'), ('records', 'aeolis/inout.py:visualize_timeseries'), ('fields', 'aeolis/inout.py:visualize_spatial'),
       ('set-up', 'tools/setup/setup_tools.py:create_grd')],
      [('figures', 'axes, lines, meshes, labels at the moment of saving', 'aeolis/inout.py')],
      ['figures when saved, state after each step, files of the set-up tools'],
      'runtime monitor: content of captured figures and files against state, records and requested geometry; twin run without figures',
      'plot3d does not run with current plotting libraries. Arrows are judged on grids along x and y only.'),
]

NOT_APPLICABLE = []
