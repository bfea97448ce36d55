#!/usr/bin/env python3
"""writes /verif/properties.jsonl"""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)
RIV, MOR, COAST, GEOM, CORE, OUT, LOAD, SYN, VIS = ['hapuamod/%s.py' % s for s in
    ('riv', 'mor', 'coast', 'geom', 'core', 'out', 'loadmod', 'synth', 'visualise')]

p('G01', 'Model and real-world coordinates convert back and forth without distortion',
  'For every origin and shore-normal direction, converting points from model to real-world coordinates and back (or the other way round) returns the original points, and distances between points are preserved. The model origin maps to the configured real-world origin and the offshore model axis points along the configured shore-normal bearing.',
  ['inputs', 'configurations'], 'all finite point coordinates (scalar or array), all origins and all bearings in radians',
  'No existing test calls the conversions; a handful of bearings could not tell a sign or quadrant error from a correct formula.',
  [GEOM], [('rotation and translation', 'geom.mod2real'), ('inverse via distance and bearing', 'geom.real2mod')], observe=['return values'])
p('G02', 'Polyline crossings: one correct ordinate per crossing segment, in order',
  'Intersecting a polyline with a line of constant x returns exactly one ordinate for every consecutive pair of vertices that lie on opposite sides of that x (a vertex exactly on x counts as not left of it), in polyline order, and nothing else. Each returned ordinate is the linear interpolation of that segment at x, and the polyline itself is not changed.',
  ['inputs'], 'every polyline of at least two finite vertices, of any length, and every x',
  'Not exercised by any test; number and order of crossings depend on arbitrary vertex sequences.',
  [GEOM], [('crossing detection and interpolation loop', 'geom.intersectPolyline')], observe=['returned array'])
p('C01', 'Longshore drift: CERC rate on each local shore angle, none for offshore waves',
  'For every shoreline, the longshore transport on each segment between neighbouring transects equals the CERC energy-flux formula applied to the wave direction relative to that segment own orientation, with the breaker angle from Snell refraction between the wave-data depth and the depth-limited breaker depth. Waves that travel offshore relative to a segment (more than 90 degrees from its normal) move no sediment there, transport is directed down-wave, and no input is modified.',
  ['inputs'], 'all shorelines of any number of transects, all wave states whose breaker celerity does not exceed the celerity at the data depth, all positive physical parameters',
  'The function is never called by a test; offshore-directed segments only occur on strongly curved shorelines.',
  [COAST], [('local angle, offshore mask, refraction and transport', 'coast.longShoreTransport')], observe=['returned transport array'])
p('C02', 'Overtopping: flux from run-up excess, split between crest and backshore',
  'Run-up is 0.49 times the square root of beach slope times period times offshore wave height; the cross-shore flux at a transect is coefficient times (run-up plus sea level minus barrier crest, floored at zero) to the configured exponent, hence never negative and zero where the crest is not reached. All of it is overwash where the crest is higher than the configured height-width line allows, or where the outlet channel there has closed to zero or negative width; otherwise all goes to the crest, as it also does where there is neither lagoon nor outlet channel. The barrier width used is crest to lagoon (at least 1 mm), or crest to outlet channel where a channel is present.',
  ['inputs'], 'all shorelines of any number of transects with any pattern of present/absent outlet channel, all water levels and run-ups, all positive parameters',
  'Not exercised by any test; masks interact transect by transect in combinations a sample does not cover.',
  [COAST], [('run-up formula', 'coast.runup'), ('flux, masks and partition', 'coast.overtopping')], observe=['returned flux and partition arrays'])
p('H01', 'Steady river profile obeys continuity, energy balance and critical depth',
  'Whenever the steady solver returns, the same discharge passes every cross-section, no depth is below critical depth (or is not a number), and the downstream depth is the larger of critical depth and the depth implied by the downstream water level. At every other cross-section either the energy equation with mean Manning friction to its downstream neighbour is met within the configured tolerance or the depth is exactly critical; if the iteration cannot converge the solver raises instead of returning.',
  ['inputs', 'configurations'], 'every channel of any length with arbitrary bed levels, positive widths, spacings, roughness, discharge, and any downstream level and tolerance',
  'Tests run five channels and only check that no exception is raised.',
  [RIV], [('standard-step Newton iteration from downstream', 'riv.solveSteady')], observe=['returned depths and velocities'])
p('H02', 'Unsteady river solver conserves water in every reach and at both ends',
  'When the unsteady solver accepts a step, the change in stored water of each reach (channel plus attached lagoon area) equals time-weighted inflow minus outflow minus barrier seepage over the step, up to the square of the convergence tolerance; the upstream discharge equals the supplied inflow to the same order. With an open mouth the downstream level equals the supplied sea level (the level before the first step being the one already held at the downstream section), and with a closed mouth no water leaves downstream.',
  ['inputs', 'histories'], 'every channel geometry, initial state, time step, boundary series and parameter set for which the iteration converges without a depth or velocity being clamped',
  'Tests run a few channels and only check that no exception is raised; volume errors would go unnoticed.',
  [RIV], [('Preissmann continuity residual, boundary residuals, Newton update', 'riv.solveFullPreissmann')],
  state=[('depth and velocity arrays', 'updated in place', 'riv.solveFullPreissmann h, V')], observe=['depth and velocity arrays after the call'])
p('H03', 'Unsteady river solver satisfies the momentum balance it discretises',
  'When the unsteady solver accepts a step, each reach satisfies the Preissmann-discretised Saint-Venant momentum equation (time-weighted momentum flux, pressure gradient, bed slope and Manning friction) for forward flow to the order of the convergence tolerance. Each correction solves the exact linearisation of the discrete equations about the current iterate, so acceptance is decided on true Newton corrections.',
  ['inputs', 'histories'], 'every channel geometry, positive depths, forward velocities, time step, boundary series and parameters',
  'Tests only check that no exception is raised; an inexact term changes answers silently.',
  [RIV], [('Preissmann momentum residual and banded Jacobian', 'riv.solveFullPreissmann')], observe=['depth and velocity arrays after the call'])
p('H04', 'Unsteady river solver always leaves a usable state with its caller',
  'After the unsteady solver returns, every depth the caller holds is positive and every velocity non-zero. If a step does not converge within the allowed number of iterations, the state the caller holds after that step is the steady-state profile for the inflow and downstream level of that same step. With an open mouth and positive inflow, running a series of boundary values in one call gives the same state as running it split over several successive calls, as long as each step converges.',
  ['inputs', 'histories'], 'every channel, initial state, boundary series of any length and iteration limit',
  'The non-converging path is not reached by the tests, and tests do not look at the state afterwards.',
  [RIV], [('clamping of depths and velocities, non-convergence fallback', 'riv.solveFullPreissmann')], observe=['depth and velocity arrays after the call'])
p('H05', 'River, lagoon and outlet are joined into one consistent channel',
  'The assembled channel lists the river sections, then the online lagoon transects walking away from the river mouth towards the outlet, then (if open) the online outlet transects from lagoon to sea and two end sections; bed levels, widths, type flags and initial hydraulics all refer to the same section, and spacing (one shorter) is the transect spacing between lagoon or outlet sections and the distance to the outlet end for the last outlet section. The mouth is reported closed exactly when it was already closed or some outlet width, the outlet end width or an online lagoon width is below the minimum; a closed channel ends in the lagoon with zero end velocity. Online lagoon widths are all positive, missing depths and velocities are filled in, and no input is modified.',
  ['inputs', 'histories'], 'every valid barrier/lagoon/outlet geometry of any number of transects, with the outlet to the left, right or in line with the river, open or closed',
  'No test calls it; index bookkeeping depends on outlet position, orientation and closure patterns.',
  [RIV], [('selection and concatenation of sections, closure detection', 'riv.assembleChannel')], observe=['returned arrays and closed flag'])
p('H06', 'Lagoon surface beyond the flow path is attached to the channel exactly once',
  'The storage area attached to the first online lagoon section is the lagoon area on the side of the river facing away from the outlet, and that attached to the last online lagoon section is the lagoon area beyond the online part on the outlet side (for an open outlet: beyond the transect where the outlet starts); if both fall on the same section they add up, and no other section has any. The lagoon length used for seepage follows the same rule counting only transects where the lagoon has width, plus one transect spacing per online section.',
  ['inputs', 'histories'], 'every valid geometry, outlet left, right or in line with the river, open or closed, including a lagoon that is one transect long or pinched off part way',
  'No test calls it; a wrong side or a lost area changes water storage silently.',
  [RIV], [('offline area and length accounting', 'riv.assembleChannel')], observe=['returned storage areas and lengths'])
p('H07', 'Storing channel hydraulics by transect and reassembling them loses nothing',
  'Storing channel results into lagoon and outlet transects puts each depth and velocity at the transect it belongs to: lagoon level is bed plus depth on online transects and continues the nearest online level beyond both ends, and everything not online has no (NaN) velocity or outlet depth. Reassembling an unchanged, still open geometry from the stored values gives back exactly the same depths and velocities.',
  ['inputs', 'histories'], 'every channel result and every set of online lagoon and outlet transects, increasing or decreasing, open or closed',
  'No test calls it; a mirrored order only shows for leftward outlets with non-uniform flow.',
  [RIV], [('scatter of channel results', 'riv.storeHydraulics'), ('gather of initial conditions', 'riv.assembleChannel')], observe=['returned arrays'])
p('B01', 'Bedload follows Meyer-Peter Mueller with the flow and only above threshold',
  'Bedload in each reach is the configured weighting of its two end sections, each carrying the Meyer-Peter Mueller bulk rate for its grain-roughness shear stress. A section carries nothing at or below the critical Shields stress, and otherwise carries sediment in the direction of its flow; no input is modified.',
  ['inputs'], 'every channel of any length with positive depths and widths, any velocities of either sign, any positive parameters and weighting between 0 and 1',
  'Not exercised by any test; formula and direction errors are silent.',
  [RIV], [('shear stress, excess transport and reach averaging', 'riv.calcBedload')], observe=['returned reach transport'])
p('B02', 'Reported bedload appears at the transects it was computed for',
  'For output, the bedload leaving each online lagoon and outlet section is reported at that section transect, zero everywhere else, with the outlet-end bedload reported when open and zero when closed. When the mouth is closed the last online lagoon section, which has no reach below it, reports zero.',
  ['inputs', 'histories'], 'every set of online lagoon/outlet transects in either direction, open or closed',
  'Not exercised by any test.',
  [RIV], [('scatter of reach bedload', 'riv.storeBedload')], observe=['returned arrays'])
p('M01', 'A morphology step moves exactly the sediment the transport rates imply',
  'As long as no change limit applies and no channel is created, removed, extended or truncated in the step, each river, lagoon, outlet, barrier and shoreline position or level changes by exactly its own sediment budget times the time step: bed change from the difference of bedload in and out (erosion of narrow sections going half to each bank instead), shoreline change from longshore convergence less overtopping loss plus bedload spread from the outlet, barrier crest and backshore gains from the overtopping split. Longshore sediment arriving at the outlet goes to narrowing and shifting the outlet instead of crossing it, and everything moves for the same length of time.',
  ['inputs', 'histories'], 'every valid geometry of any number of transects, every transport field, open (either orientation) or closed',
  'No test calls the morphology update.',
  [MOR], [('rates of change and their application', 'mor.updateMorphology')], observe=['geometry arrays after the call'])
p('M02', 'Morphological time step adapts within its limits and caps change per step',
  'The time step returned is the previous one repeatedly halved while the largest rate of change times the step exceeds the configured maximum change and the step is above its minimum, then doubled while it is below half of that and the step is below its maximum, so it never falls below half the minimum nor reaches twice the maximum. Before topology adjustments no position or level moves by more than the configured maximum change in one step, in either direction.',
  ['inputs', 'histories'], 'all transport fields, all previous time steps and limits',
  'No test calls the morphology update; overflow of the cap needs extreme transport.',
  [MOR], [('adaptive time step and rate limiting', 'mor.updateMorphology')], observe=['returned time step; geometry arrays'])
p('M03', 'Barrier geometry stays well-formed after every morphology update',
  'After a completed morphology update shoreline, lagoon edge and cliff positions, crest and lagoon bed levels are defined everywhere, outlet bank positions are present in pairs, and inner-barrier and outlet-bed levels are present exactly where banks are. Where an outlet channel is present it does not overlap the lagoon or the sea, the barrier has positive width, and the lagoon at the river mouth is at least as wide as the minimum.',
  ['inputs', 'histories'], 'every well-formed geometry before the update and every transport field; every sequence of collisions, truncations and breaches within one update',
  'No test calls the morphology update; the collisions need specific geometry.',
  [MOR], [('collision handling after the update', 'mor.updateMorphology')], observe=['geometry arrays after the call'])
p('M04', 'A breach happens only where connected water meets a lost or overtopped barrier',
  'A breach is reported only if somewhere hydraulically connected to the river the barrier has been completely eroded or the water stands above the barrier crest (end transects of the domain excepted), and when the mouth is closed such a place always causes one. A breach through the barrier puts a new outlet straight through that transect, at least twice the closure width wide, fitting between lagoon and sea; for a breach on an existing connected channel only the seaward end moves there. With an open outlet only places closer to the river than the outlet may breach.',
  ['inputs', 'histories'], 'every well-formed geometry, water level and closure state',
  'No test calls the morphology update; breaching needs specific water levels and erosion.',
  [MOR], [('erosion and overtopping breach logic', 'mor.updateMorphology')], observe=['breach flag, outlet position, geometry arrays'])
p('M05', 'The outlet mouth stays inside the model domain',
  'However fast the outlet migrates, after a morphology update its seaward end lies between the second and the second-last transect, and an end pushed past one edge is held at that same edge. Inputs that describe forcing (transport rates, water levels, parameters) are left untouched, and the river bed changes only through its own bedload budget.',
  ['inputs', 'histories'], 'every geometry and outlet migration rate, either orientation',
  'No test calls the morphology update; reaching the domain edge takes a long run.',
  [MOR], [('domain edge clamp', 'mor.updateMorphology')], observe=['outlet end position; all arguments'])
p('O01', 'What is written to an output file is what is read back',
  'Reading a written timestep back from an output file returns, for every model variable it stores (shoreline, barrier levels, lagoon and outlet state, river bed, level and velocity, outlet end position, level, width and hydraulics, forcing, closed flag), the values that were written for that time. Each write appends exactly one new time and leaves all earlier ones unchanged, and the record closest to a requested time is found.',
  ['inputs', 'histories'], 'every number and order of writes and every state of any size',
  'No test writes output files.',
  [OUT], [('append of current state', 'out.writeCurrent'), ('extraction of one timestep', 'out.readTimestep'), ('time series append', 'out.writeTsOut')], observe=['files; values returned by reading'])
p('O02', 'An existing result file is never overwritten without consent',
  'Creating an output file or a time-series file when one of that name already exists destroys it only if overwriting was requested or the user answers yes to the prompt; otherwise the existing file is left untouched and the run stops with an error. When no file exists a new one is created with the model grid, origin and parameters.',
  ['inputs', 'histories'], 'every answer to the prompt, every combination of existing files and the overwrite flag',
  'No test creates output files.',
  [OUT], [('file creation guards', 'out.newOutFile, out.newTsOutFile')], observe=['file system operations'])
p('T01', 'Boundary series are interpolated linearly in time at exactly the requested times',
  'Interpolating a flow, wave or sea-level series at any increasing requested times inside its range gives, for every column and in the requested order, the straight-line interpolation between the neighbouring samples, which at a sample time is the sample itself. The source series is not changed.',
  ['inputs'], 'every time-indexed series without gaps with increasing times, every increasing list of requested times inside its range',
  'No test calls it.',
  [CORE], [('subset, reindex and interpolate', 'core.interpolate_at')], observe=['returned series'])
p('T02', 'A run advances to its end time and writes outputs on schedule',
  'A model run started from a valid configuration advances time strictly, never past the configured end time, and ends normally when it is reached. An output record is written for the start time and then at the first step reaching each due output time (one record when a step passes several); a breach in one step re-opens a closed mouth for the next.',
  ['configurations', 'histories'], 'every configured start, end, time step limits (hydraulic step at most half the minimum morphological one), output interval and forcing',
  'No test runs the whole model.',
  [CORE], [('time stepping loop', 'core.main')], observe=['sequence of records written; return of the run'])
p('S01', 'Synthetic tide is a 12 h 25.2 min sine about mean level at regular times',
  'The synthetic tide has one value at every output interval from the start date up to the end date, each equal to mean level plus half the range times the sine of elapsed time over a period of 12 hours 25.2 minutes. It therefore never leaves mean level plus or minus half the range and starts at mean level.',
  ['inputs'], 'all start/end dates, output intervals, mean levels and ranges',
  'No test calls it.',
  [SYN], [('harmonic formula', 'synth.harmonicTide')], observe=['returned series'])
p('V01', 'Plotting never alters the model state',
  'Drawing or updating any live plot of the model (long-section, plan view, boundary conditions) leaves every model array and parameter passed to it unchanged.',
  ['inputs', 'histories'], 'every model state passed to the plotting functions, open or closed, with or without optional arguments',
  'The plot tests only check that no exception is raised.',
  [VIS], [('plot construction and update', 'visualise.longSection, updateLongSection, modelView, updateModelView, bdyCndFig, updateBdyCndFig')], observe=['arrays passed in'])
if __name__ == '__main__':
    ids = [d['id'] for d in P]; assert len(set(ids)) == len(ids)
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
        for d in P: f.write(json.dumps(d) + '\n')
    print(len(P))
