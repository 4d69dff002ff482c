#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run after editing)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

prop("P01", "Rays obey Snell's law and the exact ray equations",
 "In an ocean whose sound speed depends only on depth, every ray of a propagated wavefront conserves its spherical ray parameter (radius times cosine of depression/elevation angle over sound speed), keeps its direction vector normalised to the reciprocal of the local sound speed, and stays in the vertical great-circle plane of its launch azimuth. Away from boundaries its position and path length at every time step agree with the exact ray solution: a straight line in isovelocity water, and the independently integrated ray in any other smooth profile, including sound speeds that also vary horizontally, whose gradients in all three directions bend the ray. This holds for every launch angle, time step, source location (away from the poles, where spherical coordinates are singular) and profile, to the accuracy of the third-order time integration.",
 ["inputs"], "all source positions, launch fans, time steps and smooth sound speed fields",
 "The unit tests integrate a handful of fixed fans in a few fixed profiles at one location; a wrong metric or gradient term that cancels at 45N/45W, at small angles, or with a constant gradient passes them.",
 ["waveq3d/wave_queue.cc","waveq3d/wave_front.cc","waveq3d/ode_integ.cc","waveq3d/ode_integ.h","ocean/profile_linear.cc","ocean/profile_n2.cc","ocean/profile_munk.cc"],
 [("position/ndirection/distance","ray state of the current wavefront","waveq3d/wave_front.h"),("gradients","derivatives of the state","waveq3d/wave_front.cc compute_profile/update")],
 [("Adams-Bashforth / Runge-Kutta integration","waveq3d/ode_integ.cc"),("ray equations in spherical coordinates","waveq3d/wave_front.cc")],
 ["curr()->position, ndirection, sound_speed, distance after each step"])

prop("P02", "Boundary reflection is specular, contained and fully accounted",
 "When a ray meets the sea surface or the bottom it is reflected specularly about the local boundary normal at the point of contact, so the component of its direction along the normal changes sign and the tangential component is kept. After any number of reflections the ray stays inside the water column, its surface and bottom counts equal the number of contacts that the exact ray makes, and its accumulated loss and phase equal the sum of the loss and phase that the boundary models give for those contacts. (Documented limits: contacts within about a degree of grazing, and water so shallow that one time step crosses it several times, are approximated.)",
 ["inputs"], "all launch angles, time steps, depths, flat and sloped bottoms, reflection loss models",
 "Tests reflect a few fixed angles from a flat or one sloped bottom; grazing contacts, several contacts close together, contact points in the middle of a time step and sloped bottoms under oblique azimuths are not sampled.",
 ["waveq3d/reflection_model.cc","waveq3d/wave_queue.cc","ocean/boundary_flat.h","ocean/boundary_slope.cc","ocean/reflect_loss_rayleigh.cc"],
 [("surface/bottom counts","number of contacts so far","waveq3d/wave_front.h"),("attenuation/phase","accumulated loss and phase","waveq3d/wave_front.h")],
 [("bottom_reflection/surface_reflection","waveq3d/reflection_model.cc"),("reflection_reinit","waveq3d/wave_queue.cc")],
 ["curr()->position, surface, bottom, attenuation, phase after each step","reflection callbacks"])

prop("P03", "Eigenrays are exactly the acoustic paths to each target",
 "In isovelocity water bounded by a flat surface and bottom, the eigenrays reported for a target are exactly the mirror-image paths that the fan resolves (the launch angle lies inside the launch fan, away from its edges and from the rays that separate one sequence of reflections from another) and whose travel time is inside the simulated time: none missing, none duplicated, none spurious. Each has the travel time, launch angles, arrival angles, and surface, bottom and caustic counts of its image path, within the accuracy of the ray spacing. In any other smooth profile, a target on an exact ray gets exactly one eigenray for it, with the travel time, launch and arrival angles, and counts of contacts, vertices and folds of that ray.",
 ["inputs"], "all source and target positions, fans, frequencies, and time steps",
 "Tests look at one or a few fixed source/target pairs and often only at the first arrivals; a target between particular rays, close to a ray family edge, or at an unusual bearing exercises other branches of the closest-point search.",
 ["waveq3d/wave_queue.cc","waveq3d/wave_front.cc","eigenrays/eigenray_collection.cc"],
 [("target distance stencil","27 squared distances around a closest point of approach","waveq3d/wave_queue.cc is_closest_ray/build_eigenray")],
 [("detect_eigenrays/compute_offsets","waveq3d/wave_queue.cc")],
 ["eigenray lists delivered to the eigenray listener"])

prop("P04", "Path loss and phase equal spreading, absorption and boundary terms",
 "Along each acoustic path the reported transmission loss is geometric spreading for that path plus the volume absorption accumulated over its length plus the reflection losses of its boundary contacts, and the reported phase is the sum of boundary and caustic phase shifts. In isovelocity water the geometric spreading is spherical (20 log10 of path length) for every path, at every frequency for which the Gaussian beam width is resolved; in any smooth profile it is the area of the tube of rays around the path, as long as that tube does not fold. Adding a lossy boundary or an absorbing medium changes the loss by exactly the added terms and nothing else.",
 ["inputs"], "all paths, frequencies, absorption and reflection loss models",
 "The tests compare loss at a few ranges and one frequency against plots or wide tolerances; path-, frequency- and angle-dependent bookkeeping errors stay invisible.",
 ["waveq3d/spreading_ray.cc","waveq3d/spreading_hybrid_gaussian.cc","waveq3d/wave_front.cc","waveq3d/wave_queue.cc","ocean/attenuation_model.h"],
 [("attenuation/phase","accumulated per frequency","waveq3d/wave_front.h")],
 [("intensity()","waveq3d/spreading_ray.cc, spreading_hybrid_gaussian.cc"),("attenuation interpolation","waveq3d/wave_queue.cc build_eigenray")],
 ["intensity and phase of the eigenrays"])

prop("P05", "Propagation results do not depend on bookkeeping or viewpoint",
 "Propagation results depend only on the physics: turning the whole scenario around the earth's axis or mirroring it east-west, reordering targets or adding targets elsewhere, adding frequencies, and replacing a constant-speed or flat-bottom model with an equal tabulated one leave the eigenrays of a given target unchanged. Running the same scenario twice gives identical results. Exchanging source and target keeps travel time and exchanges launch and arrival angles.",
 ["inputs","configurations"], "all scenarios and all of the listed transformations",
 "A unit test runs one scenario; a relation between two runs over arbitrary scenarios is not something an example can pin.",
 ["waveq3d/wave_queue.cc","waveq3d/wave_front.cc","waveq3d/spreading_hybrid_gaussian.cc","types/wposition.cc"],
 [("targets grid","target positions by row and column","waveq3d/wave_queue.h")],
 [("per-target, per-frequency loops","waveq3d/wave_queue.cc, wave_front.cc")],
 ["eigenray lists of two related runs"])

prop("P06", "Boundary eigenverbs describe the patch of boundary each ray illuminates",
 "Every time a ray of the launch fan reaches the surface, bottom or a scattering layer (after the first time step and below the accumulated loss and count limits), exactly one eigenverb is reported for that interface, carrying the travel time, position, grazing angle, heading, sound speed and launch angles of that contact as the exact ray has them. Its length and width follow from the ray spacing, and its power is the fraction of the source energy carried by that ray tube, reduced by the boundary losses and absorption accumulated on the way (up to the integration step in which the contact happens). Crossings of a scattering layer are kept apart by direction, downward and upward. No contact inside the time window is missed, and none is reported twice.",
 ["inputs"], "all scenarios, fans, and frequencies",
 "The tests check one flat-bottom scenario at selected angles.",
 ["waveq3d/wave_queue.cc","waveq3d/reflection_model.cc","eigenverbs/eigenverb_model.h"],
 [("eigenverb","power, length, width, position, direction, grazing","eigenverbs/eigenverb_model.h")],
 [("build_eigenverb","waveq3d/wave_queue.cc")],
 ["eigenverbs delivered to the eigenverb listener"])

prop("P07", "Eigenray collections keep, total, update and store every path",
 "A collection returns for each target exactly the eigenrays that were added to it, and its totals per frequency are the coherent (complex pressure) or incoherent (power) sum of those paths, with the earliest, strongest or weighted descriptors documented for the totals. Writing the collection to disk and reading the file back recovers every target, source, frequency and path value. Dead reckoning after a small move of either end changes the travel time of each path by the change of geometric length along that path's own direction, and leaves everything else alone.",
 ["inputs","histories"], "all lists of eigenrays, target grids, frequency lists, and small displacements",
 "Tests total two or three hand-made rays and dead-reckon one scenario with small, mostly horizontal moves.",
 ["eigenrays/eigenray_collection.cc","eigenrays/eigenray_model.h","waveq3d/wave_queue.cc"],
 [("eigenray lists","per-target list of paths","eigenrays/eigenray_collection.h")],
 [("sum_eigenrays","eigenrays/eigenray_collection.cc"),("dead_reckon","eigenrays/eigenray_collection.cc"),("write_netcdf","eigenrays/eigenray_collection.cc")],
 ["eigenrays(), total(), netCDF file contents"])

prop("P08", "Eigenverb collections return every stored patch that a search should find",
 "Every eigenverb added to a collection stays retrievable under its interface, unchanged and exactly once per addition. A spatial search around a patch returns every stored patch whose centre lies well inside the searched area and none that lies well outside it, wherever on the earth the patch is. Writing an interface to disk and reading it back reproduces the collection.",
 ["inputs","histories"], "all sets of eigenverbs anywhere on the globe, all search patches",
 "Tests search near one mid-latitude, small-longitude position, and never read a written file back.",
 ["eigenverbs/eigenverb_collection.cc","eigenverbs/eigenverb_collection.h"],
 [("spatial index","R-tree of patch locations per interface","eigenverbs/eigenverb_collection.h")],
 [("find_eigenverbs","eigenverbs/eigenverb_collection.cc"),("read_netcdf/write_netcdf","eigenverbs/eigenverb_collection.cc")],
 ["find_eigenverbs, eigenverbs, size, files"])

prop("P09", "Bistatic patches are the Gaussian overlap of the two patches that made them",
 "The bistatic reverberation contribution made from a source patch and a receiver patch has power equal to the product of both powers, the scattering strength and the overlap integral of the two Gaussian footprints, for any relative offset and rotation. It is symmetric under exchange of source and receiver, invariant under rotating both patches together, decreases as the patches move apart, and its two-way time is the sum of the one-way times and its duration follows from the size of the overlap. Contributions under the power threshold are dropped and no other ones.",
 ["inputs"], "all pairs of patches",
 "The tests use aligned or symmetric patches, for which sign and cross-term errors vanish.",
 ["biverbs/biverb_collection.cc","biverbs/biverb_model.h","rvbts"],
 [("biverb","power, time, duration, angles","biverbs/biverb_model.h")],
 [("add_biverb","biverbs/biverb_collection.cc")],
 ["biverbs() of the collection"])

prop("P10", "Reverberation time series is the sum of its bistatic contributions",
 "The reverberation intensity at each receiver channel and time is the sum over bistatic contributions of source level, transmit and receive beam levels in the contribution's own directions relative to the array's orientation, and contribution power, spread over a Gaussian envelope whose area matches its energy and whose peak follows the contribution's arrival (pulse start plus travel time) by one envelope duration, the duration of the contribution plus that of the pulse. It is never negative, is linear in the set of contributions, and a channel's result does not depend on which other channels exist. With no contributions it is zero.",
 ["inputs","histories"], "all lists of contributions, schedules, beams and orientations",
 "There is no unit test of the envelope generation beyond running it inside the sensor tests.",
 ["rvbts/rvbts_collection.cc","rvbts/rvbts_generator.cc"],
 [("time series matrix","channel by time intensity","rvbts/rvbts_collection.h")],
 [("add_biverb","rvbts/rvbts_collection.cc")],
 ["time_series()"])

prop("P11", "Table interpolation passes through its data and stays within its bounds",
 "Interpolating tabulated data in any number of dimensions reproduces the stored value at every grid point, for nearest, linear and monotone-cubic methods, on uniform and non-uniform axes. Linear interpolation reproduces every multilinear function and its derivatives exactly; monotone-cubic interpolation is continuous with its derivative, reproduces straight lines, never overshoots monotone data and agrees with the published algorithm; nearest returns the value of the closest node. Outside of the axes, with edge limiting on, the value is that of the nearest edge of the table.",
 ["inputs"], "all axes, data, dimensions, method combinations, and query points inside and outside the table",
 "Tests interpolate a few smooth functions on uniform axes with tolerances large enough to hide end-cell and non-uniform-spacing errors.",
 ["types/gen_grid.h","types/data_grid.h","types/seq_vector.cc"],
 [("axes, data","grid axes and node values","types/data_grid.h")],
 [("recursive interpolation, linear/pchip/nearest","types/gen_grid.h")],
 ["interpolate() value and derivative"])

prop("P12", "Specialised fast grids agree with the general interpolation",
 "The specialised sound-speed and bathymetry tables give the same values as the general table with the same data and methods (nearest, linear, and for sound speed cubic in depth and linear in position), at every location inside the table, at its edges and outside of it, and the derivatives they report are those of the values. The cubic bathymetry table reproduces its node values, is smooth across cell boundaries, and equals the bicubic surface with centred-difference slopes that it documents.",
 ["inputs"], "all tables and query points",
 "Tests compare the fast and general grids on one real bathymetry or one analytic profile at scattered interior points.",
 ["types/data_grid_bathy.cc","types/data_grid_svp.cc","types/data_grid_bathy.h","types/data_grid_svp.h"],
 [("precomputed derivatives","finite differences stored per node","types/data_grid_bathy.cc, data_grid_svp.cc")],
 [("fast interpolation","types/data_grid_bathy.cc, data_grid_svp.cc")],
 ["interpolate() of both grids"])

prop("P13", "Axis sequences return the right elements and locate any value",
 "A sequence built from first value, increment or limits and size contains exactly the documented values, in order, whether linear, logarithmic, augmented or an arbitrary monotonic list, rising or falling. Looking up a value returns the interval (or the nearest node) that contains it, clamped to the ends of the sequence, and lookups never leave the sequence. Clipping a sequence keeps exactly the part that covers the requested range; non-monotonic data is refused.",
 ["inputs"], "all kinds, directions, sizes and lookup values",
 "Tests check a few fixed sequences and interior lookups.",
 ["types/seq_linear.cc","types/seq_log.cc","types/seq_data.cc","types/seq_augment.cc","types/seq_rayfan.cc","types/seq_vector.cc"],
 [("_data/_increment","element values and spacing","types/seq_vector.h")],
 [("find_index/find_nearest","types/seq_*.cc"),("clip/build_best","types/seq_vector.cc")],
 ["operator(), increment(), find_index(), clip()"])

prop("P14", "Earth geometry conversions are exact and mutually consistent",
 "Converting positions between latitude/longitude/altitude, spherical and Cartesian earth-centred coordinates and back gives the same position everywhere on the globe, for single positions and for grids alike. Straight-line and great-circle distance, bearing, end-point, dot product and angle computations agree with vector geometry on the sphere, are symmetric where geometry is, and travelling a given range along a given bearing arrives at a point with that range and bearing.",
 ["inputs"], "all positions including both hemispheres, the equator, near poles, and across the date line",
 "Tests use a few fixed positions.",
 ["types/wposition.cc","types/wposition1.cc","types/wvector.cc","types/wvector1.cc"],
 [("rho, theta, phi","spherical earth coordinates","types/wposition.h, wposition1.h")],
 [("conversion, gc_range, distance, direction","types/wposition1.cc, wposition.cc, wvector1.cc")],
 ["public accessors and distance functions"])

prop("P15", "Directions and platform orientations form consistent rotations",
 "Rotating a direction vector by a platform orientation is a proper rotation: it keeps length and the angle between vectors, undoing it restores the vector, and combining orientations equals applying them one after the other. Heading, pitch and roll, and depression/elevation and azimuth angles, survive conversion to rotation form or vector form and back. Copying, assigning or partially updating an orientation never changes the angles that were not set.",
 ["inputs","histories"], "all angles and sequences of updates",
 "Tests rotate unit vectors by a few multiples of 90 degrees and one general case.",
 ["types/orientation.cc","types/orientation.h","types/bvector.cc","types/bvector.h"],
 [("rotation matrix/angles","types/orientation.h","types/orientation.h")],
 [("compute_rotation, compute_angles, rotate","types/orientation.cc")],
 ["accessors, rotate, inverse rotate"])

prop("P16", "Vector and matrix math equals the scalar function of every element",
 "Every element-wise function of a vector or matrix, of real or complex, single or double elements, returns for each element the mathematically correct value of that function, for all elements in the function's domain and every combination of vector and scalar operands. Inverse functions undo their forward function, and unit conversions undo each other.",
 ["inputs"], "all element values in the domain, all sizes and types",
 "The tests sweep one ramp of values in a small range, for which cancellation and branch errors do not show.",
 ["ublas/math_traits.h","ublas/scalar_math.h","ublas/vector_math.h","ublas/matrix_math.h"],
 [("math_traits","scalar implementations per type","ublas/math_traits.h")],
 [("expression templates","ublas/vector_math.h, matrix_math.h")],
 ["results of the public functions"])

prop("P17", "Random numbers are reproducible and follow their distribution",
 "Two generators with the same seed produce the same sequence, whether numbers are drawn one at a time, as vectors or as matrices, and reseeding restarts the sequence completely whatever was drawn before. Uniform numbers lie in [0,1) and, like Gaussian and complex Gaussian numbers, follow their documented distribution.",
 ["inputs","histories"], "all seeds and all histories of draws",
 "Tests draw a fixed sequence from one seed.",
 ["ublas/randgen.cc","ublas/randgen.h"],
 [("_generator, distributions","engine and distribution state","ublas/randgen.h")],
 [("seed(), uniform(), gaussian(), cgaussian()","ublas/randgen.cc")],
 ["returned numbers"])

prop("P18", "Sound speed profiles return their documented speed and its true gradient",
 "Every sound speed model returns the sound speed of its documented formula or table at every position, and the gradient it reports is the derivative of that speed in each spherical coordinate (for tables, the derivative that the table reports), including the flat-earth correction. The result for a position does not depend on which other positions are evaluated with it. Sound speed computed from temperature, salinity and depth follows the published equation.",
 ["inputs"], "all models, parameters, and positions",
 "Tests evaluate single profiles at one latitude on a fixed depth list.",
 ["ocean/profile_linear.cc","ocean/profile_n2.cc","ocean/profile_munk.cc","ocean/profile_mackenzie.cc","ocean/profile_catenary.cc","ocean/profile_grid.h","ocean/profile_lock.h","ocean/data_grid_mackenzie.cc"],
 [("sound speed, gradient","per position results","ocean/profile_model.h")],
 [("sound_speed()","ocean/profile_*.cc")],
 ["sound_speed() value and gradient"])

prop("P19", "Boundary models return true heights and true unit normals",
 "Every surface and bottom model returns its documented height at every latitude and longitude, and the normal it reports is a unit vector, points into the water, and inside of a table is perpendicular to the surface formed by those heights; a sloped bottom has the normal of its documented slopes everywhere. The scalar and the grid form of the query agree, and results do not depend on which other positions are evaluated with it.",
 ["inputs"], "all boundary models, parameters, and positions",
 "Tests check a few points of one slope or one gridded bottom.",
 ["ocean/boundary_flat.h","ocean/boundary_slope.cc","ocean/boundary_grid.h","ocean/boundary_lock.h","ocean/ocean_model.cc"],
 [("height, normal","boundary geometry","ocean/boundary_model.h")],
 [("height()","ocean/boundary_*.cc")],
 ["height() value and normal"])

prop("P20", "Loss, absorption, scattering and noise models follow their published formulas",
 "Boundary reflection loss, volume absorption, scattering strength and ambient noise models return the value of the formula or table they document for every frequency, angle and location, are independent between frequencies and between positions evaluated together, and are physically admissible: losses and absorption are never negative, strengths and levels are finite. Limiting cases (normal incidence, critical angle, equal media, zero wind) take their limiting values.",
 ["inputs"], "all models, parameters, frequencies, angles, wind speeds",
 "Tests tabulate selected angles for one or two parameter sets.",
 ["ocean/reflect_loss_rayleigh.cc","ocean/reflect_loss_eckart.h","ocean/reflect_loss_beckmann.cc","ocean/reflect_loss_netcdf.cc","ocean/attenuation_thorp.cc","ocean/attenuation_constant.h","ocean/scattering_chapman.cc","ocean/scattering_lambert.h","ocean/ambient_wenz.cc"],
 [("model parameters","bottom type, wind, rates","ocean/*.h")],
 [("reflect_loss(), attenuation(), scattering(), ambient()","ocean/*.cc")],
 ["returned losses"])

prop("P21", "Environmental files load at the right place; gap filling leaves data alone",
 "Loading bathymetry, profiles or other gridded data for a geographic window gives a table in which every node holds exactly the value that the file stores for that latitude, longitude and depth, for ascending or descending file axes and for windows on either side of the date line or prime meridian, and the table covers the window, to within half a grid step where the file reaches that far. Filling missing data leaves every valid value unchanged and leaves no gap where any valid data exists. Tables written to disk or text and read back are identical.",
 ["inputs"], "all file layouts and windows",
 "Almost all netCDF tests need data files that are not in the repository, so they do not run; those that do use one region.",
 ["netcdf/netcdf_bathy.cc","netcdf/netcdf_profile.cc","netcdf/netcdf_coards.h","netcdf/netcdf_woa.h","ocean/ascii_arc_bathy.cc","ocean/ascii_profile.cc","types/data_grid.h"],
 [("axes, data","extracted table","netcdf/netcdf_bathy.cc, netcdf_profile.cc")],
 [("longitude wrapping and index search","netcdf/netcdf_bathy.cc"),("fill_missing","netcdf/netcdf_profile.cc")],
 ["axes and data of the loaded grids"])

prop("P22", "Beam patterns are normalised, steer to their target and match their definition",
 "Every beam pattern returns the closed-form response of the array, shape, table or combination that it documents, for all arrival directions, steerings, frequencies and sound speeds: a level between zero and one that equals one in its steered direction (sums may exceed one). The reported directivity follows the documented closed form of the pattern, or else is the average of the level over all directions, whatever the output held before. The response for a given direction relative to the array does not depend on how the array is turned, and each frequency is computed independently.",
 ["inputs"], "all patterns, parameters, directions, steerings and orientations",
 "Tests plot or spot-check a few steering angles.",
 ["beampatterns"],
 [("level, directivity","per-frequency results","beampatterns/bp_model.h")],
 [("beam_level/directivity","beampatterns/*.cc")],
 ["beam_level(), directivity()"])

prop("P23", "Transmit signals have the envelope, phase and timing they describe",
 "A generated transmit signal has the documented number of samples, a magnitude equal to its window at every sample and the instantaneous phase of its described frequency modulation, and consecutive pulses continue the phase that was returned. Every shading window is symmetric, lies between zero and one and follows its published formula for any length. A transmit schedule keeps its pulses with their delays, levels, bands and steerings unchanged.",
 ["inputs","histories"], "all pulse types, sizes, bands, rates and windows",
 "Tests generate one pulse per type and look at it.",
 ["transmit"],
 [("pulse parameters","center frequency, duration, bandwidth, level","transmit/transmit_model.h")],
 [("asignal/window","transmit/transmit_cw.cc, transmit_lfm.cc, window.cc")],
 ["samples returned"])

prop("P24", "The task pool runs every accepted task once and always comes to rest",
 "Every task handed to the pool is executed exactly once, or is skipped only if it was aborted or its pool was destroyed before it started, whatever the number of workers and the order of submissions. Waiting for the pool returns once all accepted tasks are finished, and not before; destroying the pool never blocks forever and never runs a task after it has returned. Task identifiers are unique and the count of active tasks is exact even when tasks are created and finished on many threads at once.",
 ["schedules","histories"], "all numbers of workers, submissions from many threads, abort and shutdown points",
 "Tests submit one fixed batch with one schedule.",
 ["threads/thread_pool.cc","threads/thread_task.cc","threads/thread_controller.cc","threads/read_write_lock.h"],
 [("_num_active, task queue","tasks in flight","threads/thread_task.h, thread_pool.h")],
 [("thread_pool::run, wait","threads/thread_pool.cc, thread_controller.cc")],
 ["task execution records, num_active, id"])

prop("P25", "Managed objects and their listeners keep exact membership",
 "After any history of adding, removing, finding and clearing managed objects, the manager contains exactly the objects added and not removed, each found under its key and listed once; adding a duplicate key or removing an unknown one is refused without changing anything. Listeners registered for an object's updates are each notified exactly once per update while registered and never after being removed. Parent and child platform links always agree with each other, and children move and turn with their parent.",
 ["histories"], "all histories of operations",
 "Tests use one short scripted history.",
 ["managed/manager_template.h","managed/managed_obj.h","managed/update_listener.h","managed/update_notifier.h","platforms/platform_model.cc","platforms/platform_manager.cc"],
 [("object map","key to object","managed/manager_template.h"),("children, host","platform tree","platforms/platform_model.h")],
 [("add/remove/find","managed/manager_template.h"),("add_child/remove_child/update","platforms/platform_model.cc")],
 ["list(), find(), notifications, positions"])

prop("P26", "The sensor manager pairs exactly the sensors that hear each other",
 "After any history of adding and removing sensors, the set of source/receiver pairs equals the set implied by the rules: each source that is itself a receiver (and asks for no minimum range) has a monostatic pair, and every source forms a bistatic pair with every receiver of the same multistatic group. Removing a sensor removes all of its pairs and no others, and re-adding it restores them. Pairs refer to the right source and receiver, and searches by source, receiver or key find exactly them.",
 ["histories"], "all histories of sensors with and without source/receiver and multistatic roles",
 "Tests use one scripted set of sensors.",
 ["sensors/sensor_manager.cc","sensors/sensor_pair.cc","sensors/sensor_model.cc"],
 [("pair list","active source/receiver pairs","sensors/sensor_manager.h")],
 [("add_sensor/remove_sensor, multistatics","sensors/sensor_manager.cc")],
 ["find_*, list, keys"])

prop("P27", "Sensor updates deliver the acoustic picture of the current geometry",
 "Moving or turning a sensor starts new acoustic computations exactly when the change exceeds the documented thresholds. When the computation finishes each pair holds the direct paths, reverberation paths and echoes of the geometry at which it was started, equal to those of a direct propagation run with the same ocean and settings. Smaller moves leave the existing picture in place, and superseded computations never overwrite newer results.",
 ["histories","schedules"], "all histories of sensor moves and all completion orders",
 "Tests move sensors once or twice and look at log output.",
 ["sensors/sensor_model.cc","sensors/sensor_pair.cc","wavegen/wavefront_generator.cc","wavegen/wavefront_listener.h","platforms/platform_model.cc"],
 [("_initial_pos/_orient at last update","threshold reference","sensors/sensor_model.h"),("fathometers, eigenverbs","results of last computation","sensors/sensor_pair.h")],
 [("update/check_thresholds","sensors/sensor_model.cc"),("update_wavefront_data","sensors/sensor_pair.cc")],
 ["dirpaths, srcverbs, rcvverbs, notifications"])

prop("P28", "Reference solutions and readers used for validation are themselves right",
 "The analytic eigenray solutions supplied for the downward refracting reference ocean satisfy Snell's law and give the travel time, launch and arrival angles of an independently integrated ray, in flat and spherical earth coordinates. The readers for eigenray, wavefront, bathymetry and profile files return exactly what the library wrote: units converted, every target and path in order.",
 ["inputs"], "all source and target depths, ranges, files",
 "The Python tests compare the analytic solutions with one model run at a few fixed depths.",
 ["python/src/usml/pedersen.py","python/src/usml/netcdf.py","python/src/usml/eigenrays.py"],
 [("Eigenrays","arrays of path products","python/src/usml/netcdf.py")],
 [("analytic_cycle/eigenrays","python/src/usml/pedersen.py"),("readers","python/src/usml/netcdf.py")],
 ["returned arrays"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
