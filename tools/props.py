T_HYD = 'The stable tests run ten fixed hydraulic set-ups and look at no more than that the solver returns; '


def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        a['observe_at'] = observe
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why, 'anchors': a}


NOT_APPLICABLE = {}

PROPS = [
    P('C01', 'Model and real-world coordinates convert both ways without error',
      'Converting a point from model to real-world coordinates and back, or the other way round, returns the point, for every '
      'origin and shoreline direction. The conversion is a rigid rotation and shift in which model +y points offshore along the '
      'shore-normal bearing and +x lies to its right, so distances are preserved. Arrays of points convert exactly as the '
      'points do one by one.',
      ['inputs', 'configurations'], 'every point, origin and shore-normal bearing in [-pi, 2 pi]',
      'No stable test converts coordinates, and the error only shows at particular bearings.',
      ['hapuamod/geom.py'], [('mod2real, real2mod', 'hapuamod/geom.py')],
      ['initial outlet and shoreline placement', 'real-world coordinates in output']),
    P('C02', 'Transect and polyline intersections are complete and lie on the line',
      'Intersecting a cross-shore transect with a digitised line returns, in order along the line, one position for each line '
      'segment whose ends lie on either side of the transect (a vertex exactly on the transect counts as right of it) and no '
      'others, and each returned position lies on that segment. A transect crosses a closed outline an even number of times. '
      'The line itself is left unchanged.',
      ['inputs'], 'every polyline vertex position and transect position, including vertices exactly on the transect',
      'No stable test calls it; vertices on a transect and vertical segments are measure-zero cases a sample misses.',
      ['hapuamod/geom.py'], [('intersectPolyline', 'hapuamod/geom.py')]),
    P('C03', 'Longshore transport follows the breaking wave angle on each shore segment',
      'On every shore segment the longshore transport is a finite number, is zero when waves travel offshore relative to that '
      'segment, and otherwise is directed to the right (positive) or left (negative) by the side from which the waves approach '
      'the segment, with magnitude at most the transport coefficient times wave power. It depends only on that segment\'s '
      'own orientation. Mirroring the shoreline and the waves left-right mirrors the transport and reverses its sign. Between '
      'the depth of the wave data and breaking the waves turn towards the shore in proportion to their celerity (Snell\'s law; linear waves at the wave '
      'data depth, shallow water at breaking), and keep their angle where they break further out. The shoreline given is not changed.',
      ['inputs'], 'every shoreline shape, wave height/power, period, depth and direction, including waves going offshore',
      'No stable test computes longshore transport; the defects needed obliquely oriented segments or long steep waves.',
      ['hapuamod/coast.py'], [('longShoreTransport', 'hapuamod/coast.py')]),
    P('C04', 'Wave overtopping occurs only above the barrier crest and is partitioned',
      'Runup is finite, nonnegative and grows with wave height, period and slope as the documented formula says; a barrier '
      'transect receives overtopping sediment if and only if sea level plus runup exceeds its own crest, by the documented power law '
      'of the excess, never decreasing as runup increases. The overtopping sediment goes wholly onto the crest or wholly over the '
      'back of the barrier, as barrier height compares with the width-dependent limit: the width being that of the seaward barrier '
      'where an outlet channel runs in front of the lagoon, always onto the back (overwash) where the seaward barrier has no width left and '
      'never where no lagoon lies behind it.',
      ['inputs', 'configurations'], 'every runup, sea level, crest height, barrier and outlet position, and coefficient',
      'No stable test exercises overtopping.',
      ['hapuamod/coast.py'], [('runup, overtopping', 'hapuamod/coast.py')]),
    P('C05', 'Bedload moves with the flow, only above threshold, at the documented rate',
      'Bedload is zero where the shear stress is at or below the critical value, otherwise is directed as the water flows, and '
      'has the magnitude of the documented excess-shear-stress formula converted to bulk volume over the channel width. The rate '
      'in each reach is the weighted mean of the rates at its two end sections with the configured upwinding weight, and '
      'reversing the flow reverses it exactly. The hydraulic inputs are not modified.',
      ['inputs', 'configurations'], 'every depth, velocity (either sign), width, grain and transport parameter and weight',
      'TestBedload does not pass on this tree, and samples one channel only.',
      ['hapuamod/riv.py'], [('calcBedload', 'hapuamod/riv.py')]),
    P('C06', 'Steady hydraulics return a physical backwater profile or fail loudly',
      'The steady solution is always a finite, positive depth no shallower than critical at every cross-section, with a velocity '
      'carrying exactly the inflow; at the downstream end the depth matches the downstream water level or is critical if that is '
      'deeper. Wherever the depth is above critical, the energy equation between neighbouring cross-sections balances within the configured '
      'tolerance. If no such profile is found within the iteration limit an error is raised rather than a wrong profile returned.',
      ['inputs', 'configurations'], 'every inflow, downstream level, bed profile (steps included) and channel width',
      T_HYD + 'a bed drop that makes a Newton iterate negative is not among them.',
      ['hapuamod/riv.py'], [('solveSteady', 'hapuamod/riv.py')]),
    P('C07', 'Unsteady river hydraulics conserve water and honour their boundaries',
      'A converged time step of the unsteady solution balances water in every reach over the step: inflow minus outflow minus seepage '
      'through the barrier (driven by the difference in level from the sea, at both ends of the step) equals the change of water stored in the channel and in the attached '
      'lagoon. Momentum balances likewise. The upstream flow equals '
      'the river inflow and the downstream level the sea level (no outflow when the lagoon is closed, until it fills). A profile the '
      'steady equations call steady and still water at sea level are left unchanged. Dividing a series of steps between calls makes no '
      'difference. When the iteration fails, the '
      'steady solution for that step\'s own boundary conditions is what is carried on, for every step of the series.',
      ['inputs', 'histories'], 'every depth, velocity, bed, width, storage, flow, sea level and permeability, one to two steps',
      T_HYD + 'the water balance is never computed, nor the fallback taken.',
      ['hapuamod/riv.py'], [('solveFullPreissmann', 'hapuamod/riv.py')],
      None, [('depths and velocities', 'hydraulic state of each cross-section, updated in place', 'hapuamod/riv.py')]),
    P('C08', 'The assembled river-lagoon-outlet channel matches the map of the hapua',
      'The channel handed to the hydraulics is the river, then every lagoon transect from the river mouth to the outlet, then every '
      'outlet-channel transect to the outlet end, each with its own bed level, width, length and water state; transects without '
      'outlet water state take values interpolated along the channel. All lagoon area and barrier length that is not part of that channel is '
      'attached exactly once to the end of the online lagoon nearest to it. The lagoon is reported closed exactly when it was '
      'closed already or a section of the lagoon or outlet on the way to the sea is narrower than the minimum, and then ends '
      'there with no outlet. The map and water state given are not changed.',
      ['inputs', 'histories'], 'every combination of lagoon and outlet widths, bed levels, river position, outlet start and end, and water state',
      'No stable test assembles a channel; river left or right of the outlet, outlet in line, and closure inside the lagoon are separate code paths.',
      ['hapuamod/riv.py'], [('assembleChannel', 'hapuamod/riv.py')]),
    P('C09', 'Water state and bedload are filed back where they belong on the map',
      'After the hydraulics each lagoon transect has the water level and velocity of its own section of the channel, and lagoon '
      'off the channel takes the level of the nearest end of the online lagoon; each outlet-channel transect and the outlet end have '
      'their own depth and velocity, and there is none where there is no outlet. Reassembling the channel from what was stored on an '
      'unchanged map gives back the same depths and velocities. Each reach\'s bedload is filed under the section it leaves, '
      'with none leaving a closed lagoon.',
      ['inputs', 'histories'], 'every depth, velocity, bed level, bedload rate, width and layout of the channel over the transects',
      'No stable test stores the hydraulic state back on the map; a shifted index gives plausible numbers.',
      ['hapuamod/riv.py'], [('storeHydraulics, storeBedload, assembleChannel', 'hapuamod/riv.py')],
      None, [('lagoon and outlet water levels', 'hydraulic state per transect between steps', 'hapuamod/riv.py')]),
    P('C10', 'River sediment is conserved as it moves the beds, banks and outlet',
      'Over a step the bed and bank change of every river, lagoon and outlet section accounts exactly for the bedload entering less the '
      'bedload leaving it; sediment eroded comes from bed and banks according to the channel\'s width and depth as configured, and '
      'the first river section is fixed. Sediment leaving the outlet end all goes to widen the shoreline near the outlet, spread over the '
      'configured distance. Transects not on the channel are not changed by the river.',
      ['inputs', 'configurations'], 'every bedload, width, depth and level, on every layout of the outlet (closed, left, right, in line)',
      'No stable test moves any sediment.',
      ['hapuamod/mor.py'], [('updateMorphology', 'hapuamod/mor.py')],
      None, [('transect positions and levels', 'shoreline, outlet channel, lagoon and cliff of each transect', 'hapuamod/mor.py')]),
    P('C11', 'Wave-driven sediment is conserved along the shore and across the barrier',
      'Over a step every shoreline transect moves by the longshore transport arriving less that leaving, less what overtops; overtopped sediment '
      'raises the crest or moves the back of the barrier, and is nowhere created or lost. Transport that would cross the open '
      'outlet instead moves the outlet end downdrift and narrows the outlet by the volume it holds. Longshore transport never '
      'crosses the domain ends and leaves the total shoreline volume unchanged but for what the outlet intercepts.',
      ['inputs', 'configurations'], 'every longshore and overtopping rate and width, outlet on either side, either transport direction',
      'No stable test moves any sediment; right to left transport is a separate code path which was wrong.',
      ['hapuamod/mor.py'], [('updateMorphology', 'hapuamod/mor.py')]),
    P('C12', 'The adaptive timestep stays in range and limits morphological change',
      'Each step\'s length lies within the configured range, and no position or level changes by more than the configured maximum unless '
      'the step is at its minimum, where the change is limited without changing its direction. The length is halved (not below the minimum) '
      'only while the largest change would exceed the maximum, then doubled (not above the longest) only while it would be under half of it. '
      'The changes made are the rates times the step length returned.',
      ['inputs', 'configurations', 'schedules'], 'every transport rate, timestep range and current timestep (fractions of seconds included)',
      'No stable test takes a morphological step; fractions of seconds and range ends need particular values.',
      ['hapuamod/mor.py'], [('updateMorphology', 'hapuamod/mor.py')]),
    P('C13', 'The barrier geometry stays valid through any morphological step',
      'Whatever the waves and river do in a step, the step completes and leaves a valid hapua: all positions and levels are numbers, an outlet '
      'channel on a transect is there entirely or not at all, and no lagoon, channel or barrier has negative width. The '
      'outlet channel stays continuous from its start on the lagoon to its end and within the domain, and the river mouth keeps a lagoon.',
      ['inputs', 'histories'], 'every width, level and transport on one or two neighbouring transects, in every layout of lagoon and outlet',
      'No stable test takes a morphological step; defects need two things to happen on a transect within the same step.',
      ['hapuamod/mor.py'], [('updateMorphology', 'hapuamod/mor.py')]),
    P('C14', 'The barrier breaches where and when it should, and only there',
      'The barrier breaches only where it has been eroded through, or where the lagoon overtops its crest, in front of a lagoon '
      'connected to the river by more than the minimum width (in an open lagoon, only within reach of the river); of several eroded candidates the one nearest the '
      'river breaches, of several overtopped ones the one most deeply overtopped. A breach makes a new open outlet straight to the sea there, with at least twice the minimum width and at most the maximum '
      'bed level, or reopens the existing channel if that is what is breached, and the old channel is left as a relic. Eroded '
      'barrier that does not breach is restored, and otherwise nothing is opened.',
      ['inputs', 'histories'], 'every crest, water level, barrier and lagoon width in each layout of lagoon, outlet and relic channel',
      'No stable test breaches the barrier; most branches need two or more transects in particular states.',
      ['hapuamod/mor.py'], [('updateMorphology', 'hapuamod/mor.py')]),
    P('C15', 'The morphological step does not favour left or right',
      'A step taken from the mirror image of a hapua, with the mirror image of the transport, gives the mirror image of the result: '
      'shorelines, channels, levels, outlet, river bed, timestep and breaching alike. This holds whichever way the outlet '
      'runs, open or closed.',
      ['inputs'], 'every width, level and transport on one or two transects, in every layout and in the breaching cases',
      'No stable test takes a morphological step; left and right are separate code paths throughout.',
      ['hapuamod/mor.py'], [('updateMorphology', 'hapuamod/mor.py')]),
    P('C16', 'The results file holds what the model computed, and reads back the same',
      'Each record written to the results and timeseries files holds exactly the time, boundary conditions, positions, levels, water and '
      'transport given for it, in its own variable with the units stated (rates per hour, angles as labelled), with no value missing, and no '
      'record changes another. Reading a record back gives the state that was written, including which transects the outlet '
      'channel runs along and in which order. Asking for a time gives the nearest record. Times are exact and other values kept to single precision; '
      'writing changes nothing in the model.',
      ['inputs', 'histories'], 'every value of every variable, increasing output times, outlet layout, closed or open',
      'No stable test writes a file; swapped variables and lost fractions of units look plausible.',
      ['hapuamod/out.py'], [('newOutFile, writeCurrent, newTsOutFile, writeTsOut', 'hapuamod/out.py'),
                            ('readTimestep, closestTimeIx', 'hapuamod/out.py')],
      ['netCDF results file', 'netCDF timeseries file', 'hot start and post-processing input']),
    P('C17', 'Existing results are never overwritten without permission',
      'An existing results or timeseries file is replaced only if the overwrite option was given or the user answers yes when asked; with '
      'any other answer the run stops and the file is left as it was. The user is only asked when there is a file and '
      'no option, and no other file is touched. The command line passes on the configuration file and option as given.',
      ['inputs', 'configurations'], 'every answer typed, combination of options, and presence or content of the file',
      'No stable test creates an output file or runs the command line.',
      ['hapuamod/out.py', 'hapuamod/__main__.py'], [('newOutFile, newTsOutFile', 'hapuamod/out.py'), ('command line', 'hapuamod/__main__.py')],
      ['output files on disk']),
    P('C18', 'The run covers exactly the period asked for, in order, and records it',
      'A run advances from the start time to exactly the end time by the morphological steps returned, each preceded by hydraulic steps at '
      'multiples of the hydraulic timestep with river flow and sea level taken at the end of each, and waves taken at the start of the '
      'morphological step. Each step uses the state and transport the one before left: hydraulics carry over, a closed outlet stays closed '
      'until a breach, and a failed unsteady solution is replaced by the steady one for the last boundary conditions. A record of '
      'the initial state is written, and one of the state at the first step to reach each output time. The live display shows the state of the first step to reach each plot time.',
      ['inputs', 'schedules', 'histories'], 'every timestep, output interval, end time, sequence of adaptive steps, closures, breaches and solver failures',
      'No stable test runs the model; drift and off-by-one records depend on how steps and intervals fall.',
      ['hapuamod/core.py'], [('main', 'hapuamod/core.py')],
      ['output records', 'inputs to each process']),
    P('C19', 'Boundary conditions are interpolated linearly between the samples given',
      'At every time asked for, each boundary condition has the value on the straight line in time between the samples before and after it, '
      'exactly the sample\'s value where there is one, and the last sample\'s value after the last. Every quantity is interpolated '
      'separately and in the order of the times asked for, and the series given is not changed.',
      ['inputs'], 'every sample time and value, and time asked for, regular or irregular, on or off samples',
      'No stable test interpolates a series; coincident times and irregular spacing are special cases.',
      ['hapuamod/core.py'], [('interpolate_at', 'hapuamod/core.py')]),
    P('C20', 'The straight-shoreline start is a valid model of what was configured',
      'For any transect spacing, lengths, widths and levels, the model started without spatial inputs has evenly spaced transects covering the '
      'lengths asked for, exactly one of them in line with the river, a river bed of the given slope and length down to the lagoon, and a '
      'single open outlet of the given width straight out to sea through the barrier. Everywhere shoreline, outlet channel, lagoon and cliff '
      'are in this order from the sea, every level is the one configured, and derived coefficients, timesteps and output options follow '
      'from the configuration.',
      ['configurations'], 'every length, width, level and slope, for spacings which are and are not exact in binary',
      'The tests load one configuration; spacings whose multiples are rounded and a level river bed are special cases.',
      ['hapuamod/loadmod.py'], [('loadModel', 'hapuamod/loadmod.py')]),
    P('C21', 'Boundary condition series reach the model complete and unaltered',
      'For any river flow, sea level and wave series, the model accepts them exactly when they cover the whole run, and between the start of '
      'the run and the longest possible overrun of its end (or the end of the series) the values used are those supplied, at the times supplied (read as '
      'day/month/year hour:minute), however the series is cut down to the run. Wave records stay together, and wave directions are expressed relative to the normal to the shore, in radians '
      'between minus and plus pi.',
      ['inputs'], 'every spacing of the records, position of the run within them and value',
      'The tests use one set of files; it takes records at particular distances from the start and end to show a trimming fault.',
      ['hapuamod/loadmod.py'], [('loadModel', 'hapuamod/loadmod.py')]),
    P('C22', 'The synthetic tide has the configured level, range, period and duration',
      'A run with a harmonic sea level, of any duration, starting at any time and with any interval between tide values, is accepted and has '
      'sea levels at that interval over the whole run including an overrun by the longest timestep. They follow a sine of period 12 hours 25.2 '
      'minutes about the mean level, rising through it at the start time, between half the range above and below.',
      ['configurations'], 'every start, duration, level and range, for intervals which do and do not divide the period',
      'The tests use one duration, a multiple of the interval.',
      ['hapuamod/synth.py', 'hapuamod/loadmod.py'], [('harmonicTide', 'hapuamod/synth.py'), ('loadModel', 'hapuamod/loadmod.py')]),
    P('C23', 'The synthetic flow hydrograph is a complete, positive and reproducible record',
      'For any sequence of random numbers, the synthetic river flow is evenly spaced at the configured interval over the whole run, has no missing '
      'values, is never negative nor above the mean flow plus all floods so far, and is determined by the configured seed. Before the first '
      'flood and between floods it recedes from the mean flow and the flood peaks at the configured fast and slow decay rates, each '
      'flood rising along a straight line over the configured time, further floods adding to it; the time between floods and their size scale with the configured means, which may be fractions of a day.',
      ['inputs', 'histories'], 'every sequence of random numbers, so every time and size of the floods',
      'A test sees the hydrograph of one seed; missing values need a rising limb longer than the interval.',
      ['hapuamod/synth.py', 'hapuamod/loadmod.py'], [('shotNoise', 'hapuamod/synth.py'), ('loadModel', 'hapuamod/loadmod.py')]),
    P('C24', 'A hot start resumes exactly the saved state at the requested time',
      'Starting from any results file, with the outlet open in any position or closed, the model begins from the record nearest to the '
      'requested time: the shoreline, barrier, lagoon, river, outlet channel and water surface are those written in that record, and '
      'orientation and origin are those of the file. When continuing a simulation the start time becomes that of the record, and synthetic tide and flow go on as in the run continued; otherwise it stays '
      'as configured otherwise. State is held in double precision, and a transect spacing other than that of the results is refused.',
      ['histories', 'configurations'], 'every state of every record, any times of the records and the hot start',
      'The tests hot start nothing; the outlet position and closure are recovered from which values are missing.',
      ['hapuamod/loadmod.py', 'hapuamod/out.py'], [('loadModel', 'hapuamod/loadmod.py'), ('readTimestep', 'hapuamod/out.py'),
                                                    ('closestTimeIx', 'hapuamod/out.py')]),
    P('C25', 'The mapped start places shoreline, barrier, cliff and outlet as they were mapped',
      'Started from a mapped shoreline, river, barrier backshore, cliff toe and outlet, whichever way the coast faces, wherever the map origin is '
      'and in whichever direction the lines were drawn, the model faces the sea and has its origin on the shore in line with the river. '
      'On evenly spaced transects, one of them in line with the river, shoreline, lagoon edge and cliff are where the lines cross the transect, and '
      'the outlet channel is centred on its line with the configured width wherever it fits in the barrier; a short outlet between transects is put on '
      'the transect beside it. The outlet runs from lagoon to sea on the mapped side with its bed graded between the configured levels, everything is '
      'in order from sea to cliff, and maps the model cannot represent are refused. Files are found relative to the folder of the configuration file.',
      ['configurations', 'inputs'], 'every position of the mapped points within the order from sea to land, for given orientations',
      'The only mapped site in the repository faces south-east and is not loaded by the tests.',
      ['hapuamod/loadmod.py', 'hapuamod/geom.py'], [('loadModel', 'hapuamod/loadmod.py'), ('real2mod', 'hapuamod/geom.py'),
                                                    ('intersectPolyline', 'hapuamod/geom.py')]),
    P('C26', 'Wave model output becomes offshore wave conditions without losing energy',
      'For every record of the wave model, the prepared wave conditions keep its time to the minute, its period and wavelength, and give the '
      'power and the direction it comes from, in 0 to 360 degrees, of the energy transport. The offshore wave height is the one whose energy flux, '
      'refracted by Snell\'s law and shoaled by linear theory, gives the recorded height at the recorded depth and angle to the shore. '
      'Waves travelling offshore have no offshore height.',
      ['inputs'], 'every depth, wavelength, height, direction and transport',
      'No test runs the preparation of the wave data.',
      ['preprocessing/WaveDataFromSwanOutput.py'], [('(script)', 'preprocessing/WaveDataFromSwanOutput.py')]),
    P('C27', 'Long section, transect view and boundary plot show the state given',
      'The long section shows each cross-section at its distance downstream, with its bed and water level, width, velocity, flow, Froude number, and '
      'bedload in cubic metres per hour, and the energy line midway between them, flow and bedload within their axes. The transect view shows the ground from the '
      'closure depth over beach, crest, channel, spit and lagoon to the backshore, and the water levels, of the transect nearest the position '
      'asked for. The boundary plot shows each series against its times. An update shows the new state, redrawn, and changes no data. The view is the area asked for.',
      ['inputs', 'histories'], 'every state drawn and every state it is updated to',
      'No test looks at a figure; plots are how users read the model.',
      ['hapuamod/visualise.py'], [('longSection', 'hapuamod/visualise.py'), ('newTransectFig', 'hapuamod/visualise.py'),
                                  ('bdyCndFig', 'hapuamod/visualise.py')]),
    P('C28', 'The plan view draws the hapua where it is',
      'The map draws shoreline, lagoon edge, cliff, river, channel and crest through the positions of the transects, broken exactly by the outlet '
      'mouth, the inlet from the lagoon and the river. The outlet banks run from the lagoon edge to the shoreline, through the seaward bank on the '
      'one side and the landward bank on the other at the transects crossed. A closed outlet leaves shoreline and lagoon edge unbroken. The wave '
      'arrow points where the waves go, and transport arrows along and across the shore. A mirrored hapua gives the mirrored map. The view is the area asked for. The real-world map shows it by the origin and facing of the shore.',
      ['inputs', 'histories'], 'every shape of the hapua, outlet position, direction and width, wave direction and transport',
      'Geometry of the drawn outlet depends on where its banks fall between transects and on the direction it runs.',
      ['hapuamod/visualise.py'], [('modelView', 'hapuamod/visualise.py'), ('updateModelView', 'hapuamod/visualise.py')]),
    P('C29', 'An animation shows the records asked for, each as it was recorded',
      'An animation of a results file has one frame for every record from the first to the last asked for, at the interval asked for, in order, and '
      'each frame shows the record of its time: the map, the transect nearest the position asked for, or the long section of the channel from '
      'river to sea, whether the outlet is open or closed in that record or in the ones before. The film is saved under the name given, at the frame rate asked for.',
      ['inputs', 'histories'], 'every content of the records, sequence of open and closed outlets, and range and interval of records',
      'No test makes an animation; frames showing a stale or shifted record look plausible.',
      ['hapuamod/animate.py', 'hapuamod/visualise.py'], [('main', 'hapuamod/animate.py'), ('animateMap', 'hapuamod/animate.py'),
                                                         ('animateTransect', 'hapuamod/animate.py'), ('animateLongSec', 'hapuamod/animate.py')]),
    P('C30', 'Settings reach the model as given, within their ranges, or the run is refused',
      'Loading a configuration file, each setting is used as given, under its own name (times and intervals in seconds), or, if it was left out, with its '
      'default; a setting outside its permitted range, a text where a number belongs, and a missing setting without default are refused with an error '
      'before anything is run. Permitted: lengths, widths, densities, intervals, coefficients and shoreline extents not negative; VoidRatio, RiverSlope, '
      'GrainSize, OutletBankEroFac, Theta and FastFlowProp 0 to 1; roughnesses 0 to 0.3; CritShieldsStress 0 to 0.1; Psi 0 to 0.5; WidthDepthRatio and '
      'OT_exp from 1; MaxIt a whole number from 1; levels and ShorelineErosionRate any. Defaults: RhoSed 2650, RhoSea 1025, RhoRiv 1000, VoidRatio 0.3, Gravity 9.81, '
      'GammaRatio 0.5, CritShieldsStress 0.0495, MPM_coef 3.97, MPM_exp 1.5, OT_coef 0.0002, OT_exp 2, OutletSedSpreadDist 100, OutletBankEroFac 0, '
      'BarrierPermeability 0, ShorelineErosionRate 0, Beta 1.05, Theta 0.7, Psi 0.4, ErrTol 0.001, MaxIt 30, WarnTol 0.1, MaxMorChange 0.05, PlotInt 0, '
      'HydrographDt and SeaLevelDt 60 (minutes), MeanSeaLevel 0. K2coef, BreakerCoef and the target barrier line follow from the settings by their documented formulas.',
      ['inputs'], 'every value of every setting',
      'Tests load one configuration; a setting swapped for another, in other units, or accepted out of range gives plausible results.',
      ['hapuamod/loadmod.py', 'hapuamod/configspec.cnf'], [('loadModel', 'hapuamod/loadmod.py')]),
    P('C31', 'Overwash that overfills the lagoon or a channel raises the barrier by its excess',
      'Where more sediment is washed over the barrier in a step than fits in the lagoon or channel behind its crest, none of it is lost: the lagoon or '
      'channel closes exactly, to zero width, and the excess goes on top of the barrier. Without a channel all of it raises the crest, so that what is put '
      'on the crest and in the lagoon together is what overtopped. With a channel it goes on the lower of the crests in front of and behind the channel '
      'until the two are level (the front one by the volume over the width of the front barrier, the back one over that of the back); '
      'if there is more, the channel is removed there and the rest raises the whole barrier from the higher crest. Where there is room, and on '
      'all other transects, none of this happens; beds and the cliff stay as they are.',
      ['inputs'], 'every width, level and overtopping rate on one or two transects, with lagoon, old channel, channel in use or both',
      'No stable test fills a lagoon or channel with overwash; the amounts lost or doubled are small beside the barrier.',
      ['hapuamod/mor.py'], [('updateMorphology', 'hapuamod/mor.py')]),
    P('C32', 'The outlet channel lengthening, and merging with lagoon, cliff or sea',
      'When the end of the outlet migrates past a transect, the channel is extended there: a barrier of the spit width in front of it, the width and bed level '
      'of the outlet end, the beach top elevation as front crest and the previous crest behind; the outlet never passes the second or second-last transect. '
      'Where the bank between channel and lagoon is gone, the two become one lagoon: width added, bed the mean of both by width, and the outlet starts at '
      'the next transect. Where the sea reaches the channel, the channel is filled from the shore face (crest the inner one, shoreline retreated '
      'by the volume that took) and the outlet ends there. Channels on a single, first or last transect keep a positive width: banks swap sediment. '
      'A channel reaching the cliff where there is no lagoon, and a shoreline reaching the cliff, neither gain nor lose sediment. '
      'Transects not concerned do not change, and none of this closes or opens an outlet by itself.',
      ['inputs'], 'every position, width, level and outlet end on up to six transects, for outlets to either side',
      'The stable tests run one geometry for a few steps and never merge or extend a channel.',
      ['hapuamod/mor.py'], [('updateMorphology', 'hapuamod/mor.py')]),
]
