#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, obs=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in (state or [])],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": obs or [], "hook_needed": hook}})

prop("C01", "A running pool executes every submitted task exactly once, in order",
 "Every task handed to a thread pool that stays alive is executed exactly once, whatever other tasks do (including throwing any kind of exception). Tasks are picked up in the order in which they were submitted: when a task starts in a pool of W workers, fewer than W tasks submitted before it are still waiting, and never more than W tasks execute at the same time.",
 ["schedules","histories"], "All interleavings of any number of submitting threads with any number of workers, for every mix of normal and throwing tasks.",
 "threads_test runs one fixed set of tasks under one OS schedule and only checks that each ends; order, duplication and loss under other interleavings are never looked at.",
 ["threads/thread_pool.cc","threads/thread_pool.h","threads/thread_task.cc"],
 [("task queue guarded by a mutex","threads/thread_pool.cc thread_pool::run, worker lambda"),("exception firewall","threads/thread_task.cc thread_task::start")],
 [("_task_queue","tasks waiting for a worker","threads/thread_pool.h")], ["thread_task::run of a user task","thread_pool::run"])

prop("C02", "Task accounting is exact: unique ids, active count, and wait",
 "Every task gets a different identification number, also when tasks are created concurrently. The number of active tasks always equals the number of tasks that have been created but have neither finished running nor been discarded, so that waiting for the background work to end returns only when every task submitted before the wait has finished, and throws when a maximum time is given and the work is not finished by then.",
 ["schedules","histories"], "All interleavings of concurrent task creation, submission, execution, disposal and waiting.",
 "threads_test looks at the count once after the work is over; concurrent creation, discarded tasks and wait racing with the end of a task are never exercised.",
 ["threads/thread_task.cc","threads/thread_task.h","threads/thread_pool.cc"],
 [("atomic counters","threads/thread_task.cc _id_next/_num_active"),("polling wait","threads/thread_task.h thread_task::wait")],
 [("_num_active","tasks created and not yet finished","threads/thread_task.cc"),("_id_next","next id","threads/thread_task.cc")],
 ["thread_task::id","thread_task::num_active","thread_task::wait"])

prop("C03", "Shutting down or replacing a pool always completes",
 "Destroying a thread pool, or replacing the shared one, always returns, at whatever moment it happens. A task that is executing at that moment runs to its end first, no task of that pool starts after the destruction returned, and tasks which were still queued are disposed of without leaving anything that a later wait for background work would wait for.",
 ["schedules","histories"], "All interleavings of the destroying thread with the workers and with tasks in any state (queued, running, finished), for any number of workers.",
 "The tests destroy pools only when they are idle and under whatever schedule the OS happens to produce.",
 ["threads/thread_pool.cc","threads/thread_controller.cc","threads/thread_task.cc"],
 [("stop flag and join","threads/thread_pool.cc ~thread_pool"),("singleton replacement","threads/thread_controller.cc reset")],
 [("_running","workers keep polling while true","threads/thread_pool.h")], ["~thread_pool","thread_controller::reset","thread_task::wait"])

prop("C04", "Managed collections are atomic keyed maps with exact notifications",
 "A managed collection behaves, under any concurrent use, like one atomic map: adding an object whose key is present fails and changes nothing, removing an absent key reports false and changes nothing, looking up a key returns the object or null, and the list contains exactly the present objects in key order. Each registered listener is told exactly once about every successful addition (the object already present) and every successful removal (before the object disappears), in the order in which they took effect, and is told nothing about failed operations or while it is not registered.",
 ["schedules","histories"], "All interleavings and sequences of add, remove, find, list, listener registration and deregistration by any number of threads.",
 "managed_test performs one fixed single-threaded sequence with one listener.",
 ["managed/manager_template.h","managed/managed_obj.h","managed/manager_listener.h"],
 [("one write lock per mutation including its notification","managed/manager_template.h add/remove")],
 [("_object_map","present objects","managed/manager_template.h"),("_listeners","registered listeners","managed/manager_template.h")],
 ["manager_template add/remove/find/list","manager_listener callbacks"])

prop("C05", "Platform keys are unique and automatic keys never clash",
 "The platform manager is a single shared instance until it is reset, also when several threads ask for it first at the same time. A platform added with key zero receives a fresh key, larger than every key that was ever accepted by this manager, and keeps it; a platform added with a key that is in use is refused and leaves the manager as it was; a refused or removed platform never causes a later automatic key to clash.",
 ["schedules","histories"], "All sequences and interleavings of additions with explicit and automatic keys, removals, lookups and resets.",
 "platforms_test adds a handful of platforms in one order, without duplicates, removals or concurrency.",
 ["platforms/platform_manager.cc","platforms/platform_manager.h","managed/manager_template.h"],
 [("running maximum of keys","platforms/platform_manager.cc add"),("double-checked singleton","platforms/platform_manager.cc instance")],
 [("_max_key","largest key seen","platforms/platform_manager.h")], ["platform_manager::add","platform_manager::instance"])

prop("C06", "Attached platforms move rigidly with their host",
 "After every update of a platform, each platform attached to it (directly or through other attached platforms) has the host's time and speed, the host's orientation combined with its own mounting orientation, and the host's position displaced by its mounting offset turned into the host's orientation; this already holds when attaching returns. A platform's host is the platform it is currently attached to, an attachment that is refused changes nothing, and a platform that was detached no longer has a host and no longer moves. Updating a platform with only a new time moves it from its last position along its heading by speed times elapsed time.",
 ["histories","inputs"], "All attach/detach/update sequences over all shapes of the attachment tree and all orientations and offsets.",
 "platforms_test attaches one platform hierarchy once and prints positions; detaching, refused attachments and nested rotations are not checked.",
 ["platforms/platform_model.cc","platforms/platform_model.h","types/orientation.cc","types/orientation.h"],
 [("recursive propagation","platforms/platform_model.cc update_internals"),("linkage record","platforms/platform_model.h linkage")],
 [("_host","platform that controls this one","platforms/platform_model.h"),("_child_manager","attached platforms","platforms/platform_model.h")],
 ["platform_model::update/add_child/remove_child/host/position/orient"])

prop("C07", "Sensor pairs are exactly those implied by the registered sensors",
 "At any time the sensor manager holds exactly one pair for each registered sensor that is both source and receiver and has no minimum range (monostatic), and one for each ordered combination of a registered source and a different registered receiver that are in the same non-zero multistatic group; nothing else, whatever sensors were added, removed and added again before. Queries by source or receiver return exactly the pairs in which the sensor has that role, and a sensor can be added only after frequencies and its maximum time are defined; a refused addition changes nothing. Listeners supplied with an addition are attached to exactly the pairs this addition creates.",
 ["histories","configurations"], "All sequences of additions and removals of sensors of every role, group and range.",
 "sensors_test adds a few sensors and counts the pairs once; removal of receivers, re-adding and refused additions are not exercised.",
 ["sensors/sensor_manager.cc","sensors/sensor_manager.h","sensors/sensor_pair.cc"],
 [("source/receiver id lists","sensors/sensor_manager.cc _src_list/_rcv_list"),("pair construction and removal","sensors/sensor_manager.cc add_*/remove_*")],
 [("_src_list/_rcv_list","active roles","sensors/sensor_manager.h")], ["sensor_manager list/find_source/find_receiver/find"])

prop("C08", "Acoustics are recomputed exactly when, and for what, they should be",
 "An update of a sensor starts a new wavefront calculation if and only if updates are not suppressed and a calculation is due, and there is something to compute for (a target or reverberation): it is due when it is forced, when the sensor was created or paired since the last unsuppressed update, or when its position or orientation differs by at least a threshold from those at the time a calculation was last due. The calculation uses the new position and exactly the acoustic targets within the sensor's range limits, at their current positions; suppressed or sub-threshold updates still move the sensor.",
 ["histories","inputs"], "All sequences of movements, forced/suppressed updates, threshold settings, target placements and pairings.",
 "sensors_test performs one update from one initial position; drifting below the thresholds, suppressed updates and range limits are never checked.",
 ["sensors/sensor_model.cc","platforms/motion_thresholds.cc","platforms/motion_thresholds.h"],
 [("threshold test and target search","sensors/sensor_model.cc update_internals/find_targets")],
 [("_update_position/_update_orient","motion at last calculation","sensors/sensor_model.h"),("_needs_update","calculation due","sensors/sensor_model.h")],
 ["wavefront_listener::update_wavefront_data","sensor_model::wavefront_task"])

prop("C09", "A superseded or aborted background calculation publishes nothing",
 "A background calculation (wavefront, bistatic reverberation, reverberation time series) that is aborted, explicitly or because a newer calculation for the same sensor or pair was started, before it has finished computing delivers no result to anyone; a calculation that is not aborted delivers its result exactly once to every registered listener. When all background work has ended, a sensor's and a pair's published results stem from the most recently started calculations.",
 ["schedules","histories"], "All interleavings of newer requests and aborts with every stage of the running calculations, for any number of workers.",
 "The tests start calculations one at a time and wait for each; nothing is ever superseded.",
 ["wavegen/wavefront_generator.cc","biverbs/biverb_generator.cc","rvbts/rvbts_generator.cc","sensors/sensor_pair.cc","sensors/sensor_model.cc"],
 [("abort flag polled in each stage","*_generator.cc run"),("abort of the previous task","sensors/sensor_model.cc update_internals, sensors/sensor_pair.cc update_wavefront_data/notify_update")],
 [("_wavefront_task/_biverb_task/_rvbts_task","calculation in flight","sensors/sensor_model.h, sensors/sensor_pair.h")],
 ["wavefront_listener callbacks","sensor_pair::biverbs/rvbts","update_listener<sensor_pair> callbacks"])

prop("C10", "A pair combines its sensors' results correctly and notifies once",
 "When a wavefront result of its source or receiver arrives, a pair publishes the direct paths between its own source and receiver, described from source to receiver no matter which of the two computed them. If the pair computes reverberation it keeps the interface collisions of each side under that side, starts the bistatic calculation exactly when both sides are known, with the latest of both, and after it the time series exactly when the source has a transmit schedule. Listeners of the pair are notified exactly once per finished chain.",
 ["histories","configurations"], "All orders of source and receiver results, changes of the transmit schedule, monostatic and bistatic pairs, with and without reverberation.",
 "sensors_test delivers one result per pair and checks a few fields.",
 ["sensors/sensor_pair.cc","sensors/sensor_pair.h","sensors/sensor_model.cc"],
 [("stage chaining","sensors/sensor_pair.cc update_wavefront_data/notify_update")],
 [("_dirpaths/_src_eigenverbs/_rcv_eigenverbs/_biverbs/_rvbts","published results","sensors/sensor_pair.h")],
 ["sensor_pair accessors","update_listener<sensor_pair>::notify_update"])

prop("C11", "Sensors and pairs can be removed while calculations are in flight",
 "Removing a sensor (and its pairs) at any moment, also while calculations for it are queued or executing, neither crashes nor blocks, lets all background work drain, and leaves the results of the remaining pairs as they would be without the removed sensor. Nothing that was destroyed is used afterwards, and a pair that has been removed starts no further calculations.",
 ["schedules","histories"], "All interleavings of removal with every stage of the calculation pipeline.",
 "The tests remove sensors only after all work is finished.",
 ["sensors/sensor_manager.cc","sensors/sensor_pair.cc","sensors/sensor_model.cc","wavegen/wavefront_generator.cc","wavegen/wavefront_notifier.cc"],
 [("shared ownership of pairs by tasks","biverbs/biverb_generator.h"),("listener deregistration","sensors/sensor_pair.cc ~sensor_pair")],
 [("wavefront listeners","pairs interested in a sensor","wavegen/wavefront_notifier.h")], ["process survives","thread_task::wait"])

prop("C12", "Concurrent use of managers, platforms and sensors never deadlocks",
 "Operations on the platform manager, the sensor manager, platforms, sensors and pairs that are called from any threads at the same time, while background calculations deliver their results, all return; no set of them waits for each other forever.",
 ["schedules"], "All interleavings of updates, additions, removals, queries, schedule changes and background deliveries.",
 "The tests drive the managers from one thread.",
 ["sensors/sensor_manager.cc","sensors/sensor_model.cc","sensors/sensor_pair.cc","platforms/platform_model.cc","platforms/platform_manager.cc","managed/manager_template.h"],
 [("lock hierarchy","sensor_manager::_mutex, platform_model::_mutex, sensor_pair::_mutex, manager_template::_mutex")],
 [], ["calls return"])

prop("C13", "Eigenray collections keep, find and total the rays of each target",
 "An eigenray collection returns for each target exactly the eigenrays that were added for it, in order, finds them by target identifier, and reports the earliest arrival per target. Totals combine exactly the rays of that target: the coherent (or incoherent) sum of their pressures per frequency, the power-weighted means of time and angles, and the path counts of the strongest ray; totalling twice gives the same as once.",
 ["inputs","histories"], "All collections: any number of targets, rays, frequencies, phases, path counts and any order of additions and totals.",
 "eigenrays_test builds one small collection and looks at single values.",
 ["eigenrays/eigenray_collection.cc","eigenrays/eigenray_collection.h"],
 [("per-target lists","eigenrays/eigenray_collection.cc add_eigenray"),("phasor sum","eigenrays/eigenray_collection.cc sum_eigenrays")],
 [("_eigenrays/_total/_initial_time","rays and totals per target","eigenrays/eigenray_collection.h")], ["eigenray_collection accessors"])

prop("C14", "Result files hold exactly the collection they were written from",
 "The file of an eigenray collection contains for every target its total followed by its eigenrays, with index and count tables that delimit them exactly, and every attribute value and identifier as in memory. The file of an eigenverb interface contains exactly the eigenverbs of that interface, an empty interface can be written, and reading such a file into another collection reproduces them.",
 ["inputs","histories"], "All collections, including empty targets and interfaces and any mix of ray counts.",
 "The tests write files with one shape and only the Python plots read some of them back; eigenverb files are never read back by the library.",
 ["eigenrays/eigenray_collection.cc","eigenverbs/eigenverb_collection.cc"],
 [("ragged index arrays","eigenrays/eigenray_collection.cc write_netcdf"),("record layout","eigenverbs/eigenverb_collection.cc write_netcdf/read_netcdf")],
 [], ["netCDF files","eigenverb_collection::read_netcdf"])

prop("C15", "Eigenverbs and biverbs are stored per interface and matched locally",
 "Eigenverbs are kept per interface: they are listed for the interface they were added to and no other. A search around a reference patch returns exactly the stored eigenverbs of that interface whose centres lie inside the reference patch's search area. Combining a source and a receiver eigenverb adds exactly one bistatic contribution to that interface, with summed travel time and each side's angles and counts on its own side, unless its power is below the threshold, and contributions are listed in order of travel time.",
 ["inputs","histories"], "All sets of eigenverbs over all interfaces, positions, orientations, sizes and powers.",
 "eigenverbs_test and biverbs_test store a few records and print them.",
 ["eigenverbs/eigenverb_collection.cc","biverbs/biverb_collection.cc","biverbs/biverb_generator.cc"],
 [("spatial index per interface","eigenverbs/eigenverb_collection.cc"),("overlap and threshold","biverbs/biverb_collection.cc add_biverb")],
 [("_collection","records per interface","eigenverbs/eigenverb_collection.h, biverbs/biverb_collection.h")], ["eigenverbs/find_eigenverbs/biverbs"])

prop("C16", "Wavefront propagation keeps consistent ray histories",
 "Every step advances the wavefront by exactly one time step and keeps the previous, current and next wavefronts consecutive. Along each ray the numbers of surface and bottom bounces, caustics and upper and lower vertices never decrease; a bounce is counted exactly when the ray reflects from that boundary and exactly one reflection is reported for it; travelled path length and attenuation never decrease, and rays never leave the ocean between surface and bottom.",
 ["inputs","histories"], "All oceans, ray fans, frequencies, time steps and numbers of steps.",
 "waveq3d tests compare selected rays with analytic solutions in a few oceans and write logs; the bookkeeping of the other rays is not examined.",
 ["waveq3d/wave_queue.cc","waveq3d/reflection_model.cc","waveq3d/wave_front.cc","waveq3d/ode_integ.cc"],
 [("rotate and integrate","waveq3d/wave_queue.cc step"),("reflection recursion","waveq3d/reflection_model.cc bottom_reflection/surface_reflection")],
 [("past/prev/curr/next","consecutive wavefronts","waveq3d/wave_queue.h")], ["wave_queue accessors","reflection_listener callbacks"])

prop("C17", "Bounce, intensity and angle limits select exactly the reported results",
 "Eigenrays and eigenverbs are reported only for rays which are within the configured maximum numbers of bottom and surface bounces and not weaker than the intensity threshold, and raising a limit only adds results. Each boundary collision of a ray that is within the limits and not on the excluded edge of the fan yields exactly one eigenverb, on the interface where it happened and with the ray's launch angles and counts at that moment, and every registered listener receives every reported result exactly once.",
 ["inputs","configurations"], "All limit settings, ray fans, oceans with and without volume layers, and sets of listeners.",
 "The tests use the default limits, or one setting with one listener.",
 ["waveq3d/wave_queue.cc","waveq3d/wave_thresholds.h","waveq3d/reflection_model.cc","eigenverbs/eigenverb_notifier.cc","eigenrays/eigenray_notifier.cc"],
 [("threshold tests","waveq3d/wave_queue.cc detect_eigenrays/build_eigenverb, waveq3d/wave_thresholds.h")],
 [], ["eigenray_listener/eigenverb_listener callbacks"])

prop("C18", "Each ray-family crossing of a target is reported as one eigenray",
 "In an ocean where the paths are known (constant sound speed, flat boundaries), each target inside the ray fan receives exactly one eigenray per distinct path (direct, and each combination of surface and bottom bounces) arriving within the calculated time, none twice and none for other paths, whatever the order and number of targets computed together; the travel time, angles and bounce counts of each agree with that path.",
 ["inputs","configurations"], "All source and target geometries inside the fan, alone or together with other targets.",
 "The tests examine hand-picked geometries with one or few targets.",
 ["waveq3d/wave_queue.cc","waveq3d/wave_queue.h"],
 [("closest point of approach test","waveq3d/wave_queue.cc detect_eigenrays/is_closest_ray/build_eigenray")],
 [], ["eigenray_listener callbacks"])

prop("C19", "Sequence lookups are consistent for every kind of sequence",
 "For every monotonic sequence (linear, logarithmic, ray fan or tabulated; rising or falling; one or more elements) looking up a value returns the interval which contains it, clamped to the first and last interval, and looking up the nearest element returns an element that no other is closer than. Forward and backward iteration visit all elements, access beyond the end clamps, clipping keeps exactly the elements inside the limits, and a sequence rebuilt from a list of values has those values.",
 ["inputs"], "All sequences of every kind, length and direction, and all lookup values inside, at and outside their limits.",
 "sequence_test checks a few lookups of rising sequences.",
 ["types/seq_vector.h","types/seq_vector.cc","types/seq_linear.h","types/seq_log.h","types/seq_data.h","types/seq_data.cc","types/seq_rayfan.cc"],
 [("index computation","types/seq_*.h find_index"),("reconstruction","types/seq_vector.cc build_best/clip")],
 [], ["seq_vector members"])

prop("C20", "Gridded data interpolates through its nodes and respects edge limits",
 "Interpolating gridded data (gen_grid) of any dimension returns the stored value at every node, for every interpolation type per axis. Between nodes the nearest type returns the closest stored value, the linear type the multilinear blend with its slope as derivative, and the cubic type stays between neighbouring values of monotonic data and reproduces straight lines, with a derivative that is continuous across nodes. Outside an axis the end value is used when edges are limited and the end interval is extrapolated when they are not; falling axes give the same results as the mirrored rising ones.",
 ["inputs","configurations"], "All grids: dimensions, axis kinds and directions, data, interpolation types and edge settings, and all locations.",
 "datagrid_test samples a few smooth functions on uniform rising axes and compares with loose tolerances.",
 ["types/data_grid.h","types/gen_grid.h","types/gen_grid_utils.h"],
 [("recursive interpolation","types/gen_grid.h interp/nearest/linear/pchip"),("edge limiting","types/gen_grid.h interpolate")],
 [], ["gen_grid::interpolate"])

prop("C21", "The shared ocean changes atomically and calculations keep theirs",
 "Reading the shared ocean returns the most recently completed update (or nothing after a reset or before the first one), complete and never a mixture, also under concurrent updates. A wavefront calculation uses the ocean that was current when it was requested from start to end, even when the shared ocean is replaced while it is queued or executing, and that ocean lives as long as the calculation needs it.",
 ["schedules","histories"], "All interleavings of readers, updates, resets and calculations.",
 "The tests set the ocean once before they start.",
 ["ocean/ocean_shared.cc","ocean/ocean_shared.h","wavegen/wavefront_generator.cc"],
 [("lock around a shared pointer","ocean/ocean_shared.cc"),("snapshot at construction","wavegen/wavefront_generator.cc")],
 [("_current","current ocean","ocean/ocean_shared.cc")], ["ocean_shared::current/update/reset"])

prop("C22", "Reverberation time series superpose contributions per channel",
 "The reverberation time series of a receiver is the sum, per receiver channel and time, of the contributions of all bistatic contributions and transmitted pulses, independent of their order; one contribution changes only times around its arrival, pulses follow each other as their delays (after the end of the previous pulse) say, and each contribution is the product of the source level, source beam level, power and receiver beam level. Beam levels are those for the direction of the path relative to the sensor as it was oriented when the calculation was created. A contribution whose power is given at several frequencies counts with its power at the pulse's frequency, as if given at that frequency alone.",
 ["inputs","histories"], "All sets and orders of contributions, pulses, channels, frequencies and times.",
 "rvbts_test computes one scenario and compares an overall level.",
 ["rvbts/rvbts_collection.cc","rvbts/rvbts_collection.h","rvbts/rvbts_generator.cc"],
 [("Gaussian accumulation","rvbts/rvbts_collection.cc add_biverb")],
 [("_time_series","level per channel and time","rvbts/rvbts_collection.h")], ["rvbts_collection::time_series"])

prop("C25", "Dead reckoned eigenrays follow the motion of source and target",
 "When source and target have moved since eigenrays were calculated, dead reckoning changes the length of each path by the motion of the target along the arriving ray minus the motion of the source along the departing ray: a source moving towards where a ray leaves makes its path shorter. Travel time follows the change of length at the local speed of sound, and the intensity loses the spreading and absorption of the added length at each frequency. Angles, path counts and the stored eigenrays themselves stay as they were.",
 ["inputs","histories"], "All motions of source and target and all ray directions, times and frequencies.",
 "The tests exercise dead reckoning on a single geometry without looking at signs.",
 ["eigenrays/eigenray_collection.cc","eigenrays/eigenray_collection.h"],
 [("path length along the rays","eigenrays/eigenray_collection.cc dead_reckon/dead_reckon_one")],
 [("_eigenrays","rays per target","eigenrays/eigenray_collection.h")], ["eigenray_collection::dead_reckon"])

prop("C23", "Propagation results agree with physics to the documented accuracy",
 "Travel times, angles, transmission loss and reverberation levels agree with the analytic or benchmark solutions of the wave equation for the modelled ocean, to the accuracy which the documentation states.",
 ["inputs","configurations"], "All oceans and geometries for which reference solutions exist.",
 "The tests compare a handful of classical cases with fixed tolerances.",
 ["waveq3d/wave_queue.cc","waveq3d/spreading_hybrid_gaussian.cc","waveq3d/ode_integ.cc","ocean/profile_model.cc"],
 [("ray integration and Gaussian beams","waveq3d")], [], ["eigenrays","proploss"])

prop("C24", "Beam patterns and boundary losses follow their published formulas",
 "Beam pattern levels, boundary reflection losses, scattering strengths, ambient noise and attenuation equal the published formulas of the selected models for every angle, frequency and parameter.",
 ["inputs"], "All parameters, angles and frequencies.",
 "The tests tabulate some curves and compare selected values.",
 ["beampatterns/bp_model.h","ocean/reflect_loss_rayleigh.cc","ocean/ambient_wenz.cc","ocean/attenuation_thorp.cc"],
 [("closed-form numeric models","beampatterns, ocean")], [], ["model outputs"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
