"""Properties, in one place; tools/gen.py writes properties.jsonl and MANIFEST.json from here."""

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique,
         state=None, observe=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files,
                     'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    PROPS.append((d, {'technique': technique, 'level_note': level_note}))


prop('P01', 'Objects are triggered in an order that respects every connection',
     'In every iteration, an object that reads an output of another one is processed after its '
     'producer, and an object that reads an output delayed by one step (":-1") is processed '
     'before the producer refreshes it, whatever the shape of the graph, the kind of input '
     '(single or list) and the order of the objects in the parameter file. Every object that can '
     'be ordered is processed exactly once per iteration in which its inputs are refreshed. '
     'A connection graph that admits no such order never runs its objects in a wrong order.',
     ['programs', 'configurations'],
     'All connection graphs (direct, delayed, both) of up to 3 objects completely and 4 objects '
     'up to an edge bound, with both file orders and input styles.',
     'The tests build a handful of fixed graphs; the order is a fixpoint over the whole graph, so '
     'only enumerating graphs reaches the shapes (diamonds, mixed direct/delayed pairs, cycles '
     'broken by delays) that decide it.',
     ['specula/simul.py', 'specula/loop_control.py', 'specula/base_processing_obj.py'],
     [('iterative removal of leaves, delayed consumers before producers',
       'specula/simul.py: build_trigger_order, is_leaf, has_delayed_output, remove_inputs'),
      ('three-phase processing per order index', 'specula/loop_control.py: iter')],
     'All graphs within the bound are run by the real simulator with recording objects; the '
     'recorded event order is checked edge by edge. Trusts the recording object.',
     'bounded exhaustive enumeration of connection graphs on the real simulator',
     observe=['order of prepare/trigger/post events of recording objects'])

prop('P02', 'Every object sees exactly the current or previous data of its producers',
     'At every iteration an object is triggered if and only if it has no connected inputs or at '
     'least one of its inputs was refreshed in this iteration; when triggered it sees, for a '
     'direct input, the value and time stamp left by its producer in this iteration (or the last '
     'one it produced), and, for an input delayed by one step, those left at the end of the '
     'previous iteration. List inputs hold all their sources in the order written, and optional '
     'inputs that are not connected are seen as absent.',
     ['histories', 'programs', 'configurations'],
     'All orderable graphs of up to 4 objects (bounded edges) x periodic refresh patterns of '
     'every object x wiring styles, over 4 iterations.',
     'Data correctness in a loop depends on the history of refreshes of every producer; tests '
     'check a few fixed pipelines whose objects refresh at every step.',
     ['specula/base_processing_obj.py', 'specula/connections.py', 'specula/simul.py',
      'specula/loop_control.py'],
     [('freshness test on generation time', 'specula/base_processing_obj.py: checkInputTimes, check_ready'),
      ('input resolution', 'specula/connections.py: _InputItem.get, InputList.get'),
      ('phase separation', 'specula/loop_control.py: iter')],
     'Every case is compared, observation by observation, with an independent interpreter of the '
     'documented loop semantics.',
     'explicit-state exploration of graphs x refresh histories against a reference interpreter',
     state=[('generation_time', 'when the data were last refreshed', 'specula/base_time_obj.py')])

prop('P03', 'Simulated time is an exact integer grid and every object lives its cycle once',
     'Times given in seconds convert to the nearest integer number of nanoseconds and back '
     'without drift, so that a simulation of duration T with time step dt processes exactly the '
     'instants t0 + k dt smaller than t0 + T, with identical time stamps in every object. '
     'Every object is set up once before the first step and finalized once after the last one, '
     'also when the loop is driven manually.',
     ['inputs', 'configurations', 'histories'],
     'All multiples of 10^k ns in stated ranges; all (time step, duration, start time, groups) '
     'of the grid, including durations that are not multiples of the step.',
     'Floating-point conversions fail on isolated values (0.000065 s did) that no sampled test '
     'list contains.',
     ['specula/base_time_obj.py', 'specula/loop_control.py', 'specula/simul.py'],
     [('seconds/ns conversion', 'specula/base_time_obj.py: seconds_to_t, t_to_seconds'),
      ('iteration grid', 'specula/loop_control.py: start, run, iter, finish')],
     'Conversions are enumerated value by value against exact rational arithmetic; loops are run '
     'for real.',
     'exhaustive enumeration of time values and loop configurations against rational arithmetic')

prop('P04', 'Combining parameter files and overrides has the documented result',
     'Reading a base parameter file followed by additional files and override strings builds '
     'exactly the objects, parameters and connections that the documented rules prescribe: '
     'overrides change only the named parameters of the named object, removal deletes the object '
     'and the inputs that refer to it, entries specific to a simulation index apply only to that '
     'simulation and take precedence over the general ones, and new objects are added. '
     'A contradictory combination (an object redefined, an override or removal of an object that '
     'does not exist) is refused, and the files given are not changed.',
     ['configurations', 'inputs', 'histories'],
     'All ordered sequences of up to 3 entries out of 20 kinds in one additional file, 1-2 + 1-2 '
     'entries in two files, both simulation indices, and all override strings of one or two '
     'assignments.',
     'Tests try one override, one removal and one addition each; interactions between entries, '
     'files and simulation indices are combinatorial.',
     ['specula/simul.py', 'specula/__init__.py'],
     [('combination of parameter files', 'specula/simul.py: combine_params, apply_overrides'),
      ('removal of inputs', 'specula/simul.py: remove_inputs')],
     'Reference: an independent fold over the documented rules, compared with what the real '
     'simulator built and ran.',
     'exhaustive enumeration of entry sequences against a reference fold')

prop('P05', 'Objects are built with the instances and calibration data they name',
     'Every reference parameter (single, list or dictionary) gives the constructor the very '
     'object it names, built exactly once, before its users, in the order written, wherever it '
     'stands in the file; circular references are refused. Every calibration tag (single, list '
     'or dictionary) gives the contents of the file with that tag in the directory of its kind, '
     'and what is written in the calibration tree is read back unchanged, without disturbing '
     'entries with other tags or kinds; what a calibration object writes in one simulation is '
     'found by its tag in the next one, and a folder given explicitly is the one used.',
     ['configurations', 'histories', 'inputs'],
     'All directed reference graphs of 2-3 objects and sparse ones of 4, all tag assignments of '
     'up to 3 entries per kind of parameter, all write/read sequences of length <= 3 on a '
     'calibration tree.',
     'Construction order is a property of the whole reference graph; tests use two-object chains.',
     ['specula/simul.py', 'specula/calib_manager.py'],
     [('build order', 'specula/simul.py: build_order, build_objects'),
      ('calibration files', 'specula/calib_manager.py: CalibManager.filename, write, read')],
     'The instances received by every constructor are compared by identity, calibration contents '
     'by value.',
     'exhaustive enumeration of reference graphs, tag assignments and tree operation sequences')

prop('P06', 'An erroneous configuration is refused before anything is triggered',
     'A parameter file with a wrong class, an unknown or missing parameter, a reference to a '
     'missing object, an input or output that does not exist, an input of the wrong type, a '
     'required input left unconnected, several sources for a single input, a missing calibration '
     'file, or parameters beside those of a restored object stops the '
     'simulation with an error before any object has been triggered; the same file without the '
     'fault runs.',
     ['fault_sequences', 'configurations'],
     'Every fault of the catalogue at every place of all orderable graphs of 2-3 objects and of '
     'three library configurations.',
     'Tests try a few faults at one place; a check lost at one place is silent on valid files.',
     ['specula/simul.py', 'specula/base_processing_obj.py', 'specula/connections.py'],
     [('parameter checks', 'specula/simul.py: build_objects, connect_objects'),
      ('declared inputs/outputs', 'specula/base_processing_obj.py: sanity_check'),
      ('type checks', 'specula/connections.py: InputList.append, InputValue.get')],
     'Single-fault model: each configuration is valid except for one injected fault.',
     'exhaustive single-fault injection into bounded configurations')

prop('P07', 'A simulation split over processes computes what one process computes',
     'For every assignment of the objects of a simulation to processes, every object sees at '
     'every iteration the same input values and time stamps as when all objects run in one '
     'process, and ends with the same outputs. No process waits for ever and no message is left '
     'unread, whatever the duration of the simulation and the relative speed of the processes.',
     ['schedules', 'configurations', 'histories'],
     'All orderable graphs of 2-3 objects (sparse ones of 4) x all rank assignments; four '
     'library simulations x all rank assignments; all schedules with up to 2 preemptions at '
     'communication points for the small graphs.',
     'The MPI tests are skipped without mpi4py; even with it, one fixed graph and one OS schedule '
     'cannot show absence of deadlock or stale data.',
     ['specula/base_processing_obj.py', 'specula/connections.py', 'specula/simul.py',
      'specula/loop_control.py'],
     [('sending of remote outputs', 'specula/base_processing_obj.py: send_outputs, send_remote_output'),
      ('receiving', 'specula/connections.py: _InputItem.receive_new_value'),
      ('matching of ranks and tags', 'specula/simul.py: connect, computeTag'),
      ('send schedule', 'specula/loop_control.py: start, iter')],
     'Real simulator instances, one per rank, over a controlled communicator with a cooperative '
     'scheduler; sequentially consistent FIFO communicator is assumed; ranks share module state.',
     'stateless exploration of rank schedules (preemption bounded) and enumeration of rank assignments')

prop('P08', 'Stored data are what was produced, at its times, and play back identically',
     'A data store writes, for every input, exactly the samples its producer refreshed from the '
     'start time on, one every N as requested (globally or per input), with their values in the '
     'storage precision and their exact time stamps, in either file format; with split storage '
     'every sample is in exactly one chunk, the one of its iteration, including the last '
     'incomplete one. Playing the files back gives objects of the same type and '
     'parameters, refreshed at exactly the stored times with the stored values. A data buffer '
     'emits every N iterations exactly the samples received in them, in order.',
     ['histories', 'configurations', 'inputs'],
     'All refresh patterns of two producers up to period 2 (3) x 1-5 (7) iterations x formats x '
     'downsampling x start times x time steps x chunk sizes; all pairs of 10 stored types.',
     'Which samples reach the disk depends on the whole history of refreshes and the storage '
     'counters; tests store one or two samples of one generator.',
     ['specula/processing_objects/data_store.py', 'specula/processing_objects/data_source.py',
      'specula/processing_objects/data_buffer.py', 'specula/data_objects/'],
     [('sampling and chunking', 'specula/processing_objects/data_store.py: trigger_code, finalize'),
      ('playback', 'specula/processing_objects/data_source.py: trigger_code, load_fits, load_pickle'),
      ('headers', 'specula/data_objects/*.py: get_fits_header, from_header')],
     'Files are read back independently and through the real playback object.',
     'exhaustive enumeration of refresh histories x storage options on the real store and source')

prop('P09', 'A replay reproduces the simulation that was stored',
     'Running the replay file written by a data store, with everything refreshed from the first '
     'iteration on and no downsampling, shows every remaining object the same input values at '
     'the same iterations as the original run, for direct, delayed and list inputs, and for '
     'objects of which only some outputs were stored. A replay built for chosen target objects '
     'contains exactly the objects needed to compute them from the stored data, reproduces what '
     'they observed, and building it leaves the parameters given unchanged.',
     ['histories', 'programs', 'configurations'],
     'All orderable graphs of 2-3 objects (bounded edges) x all stored subsets, all targets and '
     'pairs of targets, four library simulations x stored subsets.',
     'The rewiring depends on the graph, the delays and the stored subset; tests look at one '
     'chain and mostly at the generated dictionary, not at the replayed run.',
     ['specula/simul.py', 'specula/processing_objects/data_source.py',
      'specula/processing_objects/data_store.py'],
     [('replay construction', 'specula/simul.py: build_replay, build_targeted_replay, data_store_to_data_source')],
     'Original and replayed runs are both real; observations are compared event by event.',
     'exhaustive enumeration of graphs x stored subsets, differential against the original run')

prop('P10', 'Data objects keep their contents through any use, saving and restoring',
     'After any sequence of their documented operations (setting values, changing the number of '
     'modes or slopes, cutting modes, resizing, rotating and remapping slopes, combining fields), '
     'the calibration and data objects (interaction, reconstruction and modes-to-commands '
     'matrices, influence functions and inverses, fields, layers, pupil stops, pixels, intensities, '
     'slopes, values, pupil and subaperture geometries, launch telescopes, sources, lenslets, '
     'time histories, spatio-temporal arrays, filters and convolution kernels) hold what the '
     'operations define, and an object saved to disk and restored holds the same contents and '
     'described parameters, so that going on with the restored one is the same as going on with '
     'the original. Saving does not change the object, and the restored object shares nothing '
     'with it.',
     ['histories', 'inputs'],
     '22 types x grids of initial objects x all sequences of up to 3 (4) operations, saving and '
     'restoring being one of them.',
     'Round trips and resizing are tested one operation at a time from one initial object; the '
     'state left by one operation decides the next.',
     ['specula/data_objects/', 'specula/base_value.py', 'specula/base_data_obj.py'],
     [('restore and headers', 'specula/data_objects/*.py: save, restore, from_header, get_fits_header'),
      ('resizing', 'specula/data_objects/intmat.py, slopes.py, m2c.py, ifunc.py')],
     'Every step is compared with a plain numpy model of the object.',
     'explicit-state enumeration of operation sequences on the real objects against a model')

prop('P11', 'Files shared between runs are complete, transparent, and never lost',
     'Phase screens and laser kernels kept in a folder by any earlier runs, with any parameters, '
     'give a later run exactly what it computes with an empty folder; a kernel is the normalised '
     'image of the present sodium column as each lens sees it (or its transform, as requested), '
     'after any history of profiles and changes. Runs that prepare the same or other files at the '
     'same time all get the right contents, and data stores started at the same time write to '
     'different folders. A run killed at any moment never leaves a screen or a kernel that a later '
     'run misreads or stumbles on, nor damages the chunks of split storage it had completed. '
     'The results of a calibration that are already on disk are never changed unless overwriting '
     'was asked, and then they are those of the new calibration; the run that would change them is '
     'refused.',
     ['histories', 'schedules', 'crash_points'],
     'All ordered pairs (with return) of 27 kernels x up to 4 profiles; all sequences of 3 (4) '
     'changes; all sequences of 3 (4) of 10 screens; all schedules with up to 2 (3) preemptions of '
     'two runs, 1 (2) of three; kills at every file operation and half block, twice in a row; all '
     'subsets of files present x overwrite for 8 calibrators.',
     'Tests use each cache once, from one process that lives; a stale, partial or shared file only '
     'shows with another run, at a precise moment.',
     ['specula/data_objects/convolution_kernel.py',
      'specula/data_objects/gaussian_convolution_kernel.py',
      'specula/lib/phasescreen_manager.py', 'specula/processing_objects/data_store.py',
      'specula/processing_objects/im_calibrator.py', 'specula/processing_objects/rec_calibrator.py'],
     [('kernel cache', 'specula/data_objects/convolution_kernel.py: prepare_for_sh, build, restore'),
      ('screen cache', 'specula/lib/phasescreen_manager.py: phasescreens_manager'),
      ('run folders', 'specula/processing_objects/data_store.py: create_TN_folder'),
      ('overwrite', 'specula/processing_objects/*_calibrator.py')],
     'Simultaneous runs are threads with their own process id, switched at file operations (tests '
     'of existence, creations, half blocks, renames, removals). A kill keeps what was written, in '
     'order.',
     'exhaustive enumeration of cache histories and of crash points, and stateless exploration of '
     'the schedules of file operations up to a preemption bound, on the real code')


prop('P12', 'A detector counts every photon once, in the right exposure',
     'A detector frame holds exactly the light of the iterations of its exposure (light x time step '
     'x bandwidth x efficiency), binning adds pixels so that light is conserved, the frame is '
     'stamped at the last iteration of the exposure and held until the next is complete, and '
     'nothing is emitted before the first, counted from the start time; windowed integration '
     'gives in the same way the mean of each window. An exposure that is not a multiple of the '
     'time step is refused. Exactly the enabled noises are applied, in the documented '
     'order, so that detectors with the same seeds and light give the same frames; the light '
     'received is never modified.',
     ['histories', 'configurations', 'inputs'],
     'All (time step, exposure, start, shape, binning, efficiency, bandwidth) of a grid for 5-16 '
     'iterations; all admissible subsets of the 8 noise options x 3 frames.',
     'Exposures depend on integer-time arithmetic over histories and noise steps on each other; '
     'tests look at one schedule and one noise at a time.',
     ['specula/processing_objects/ccd.py', 'specula/processing_objects/windowed_integration.py',
      'specula/lib/toccd.py', 'specula/lib/rebin.py'],
     [('exposure', 'specula/processing_objects/ccd.py: trigger_code, apply_binning'),
      ('noise chain', 'specula/processing_objects/ccd.py: apply_noise, apply_qe'),
      ('windows', 'specula/processing_objects/windowed_integration.py: trigger, post_trigger')],
     'Every frame is compared with the sum over the exposure computed independently.',
     'exhaustive enumeration of schedules and noise subsets on the real objects against a model')

prop('P14', 'Control filters compute their difference equation, and predict it',
     'At every step a control filter (IIR, integrator, low-pass, state-space, dynamic, multirate '
     'fusion) outputs the value of the difference equation given by its coefficients, gains and '
     'gain modulation on the whole history of inputs since the start or the last reset, '
     'delayed by the requested, possibly fractional, number of steps; equivalent descriptions '
     'of a filter give the same output; gain changes and resets act from their own step on, only '
     'on the modes given. Readers of the commands see them at their own step whatever the order '
     'of the parameter file. What the filter data state about themselves (frequency response, '
     'rejection and noise functions, stability, largest stable gain, cut-off) is the measured '
     'behaviour of the filters in open and closed loop, and conversion to and from transfer '
     'functions does not change the filter. The multirate filter refuses exactly the updates of '
     'slow sensors at wrong frames.',
     ['histories', 'inputs', 'configurations'],
     'All input words of 4 (5) letters x 5 filter banks x 7 delays x gain modulation; all words '
     'of 3 (4) resets and gain events; closed loops over 364 (1600) gains, leaks and delays; '
     'all update patterns of 4 (5) frames; all orders of a parameter file.',
     'The state of a filter is its whole history; tests compare a few steps of one history.',
     ['specula/processing_objects/base_filter.py', 'specula/processing_objects/iir_filter.py',
      'specula/processing_objects/integrator.py', 'specula/processing_objects/ssr_filter.py',
      'specula/processing_objects/dynamic_iir_filter.py',
      'specula/processing_objects/dynamic_integrator.py',
      'specula/processing_objects/low_pass_filter.py',
      'specula/processing_objects/multirate_complementary_filter.py',
      'specula/data_objects/iir_filter_data.py', 'specula/data_objects/ssr_filter_data.py'],
     [('delay and outputs', 'specula/processing_objects/base_filter.py: prepare_trigger, post_trigger'),
      ('difference equation', 'specula/processing_objects/iir_filter.py: trigger_code'),
      ('predictions', 'specula/data_objects/iir_filter_data.py: is_stable, max_stable_gain, RTF, NTF, from_control_tf')],
     'Every output is compared with a direct evaluation of the difference equation.',
     'exhaustive enumeration of input and event words on the real filters against a model')

prop('P13', 'Resampling and geometry: light, positions and masks survive any change of grid',
     'For every pair of shapes and pixel scales, resampling an image onto a detector grid '
     '(toccd, rebin) spreads each pixel by the area it overlaps: the total is conserved, the '
     'centroid stays, and sampling or replication modes pick exactly the documented pixels. '
     'Interpolation (Interp2D) is bilinear in the rotated, shifted, magnified coordinates, and '
     'clamped to the grid. Extrapolating a field beyond its pupil leaves the inside untouched '
     'and uses only the neighbours inside it, for every mask. A field interpolator produces a '
     'result which depends only on its present parameters and input, after any history of '
     'parameter updates and for any other interpolators alive, and never modifies its input. '
     'Coordinate grids, pupil masks, sub-pixel shift phases, index unravelling, local means, '
     'radial profiles and encircled energy are what their definitions say at every size.',
     ['inputs', 'histories', 'configurations'],
     'All pairs of shapes up to 6 (9) with every single-pixel image as a basis; all masks of a '
     '3x3 pupil; all histories of 2 (3) parameter updates; all mask parameters in a lattice.',
     'A size, a factor or an order of updates that the tests do not use is silently wrong.',
     ['specula/lib/rebin.py', 'specula/lib/toccd.py', 'specula/lib/interp2d.py',
      'specula/lib/extrapolation_2d.py', 'specula/lib/make_xy.py', 'specula/lib/make_mask.py',
      'specula/lib/utils.py', 'specula/lib/radial_profile.py',
      'specula/processing_objects/ciao_ciao_sensor.py'],
     [('area resampling', 'specula/lib/toccd.py: toccd; specula/lib/rebin.py: rebin2d'),
      ('interpolation', 'specula/lib/interp2d.py: Interp2D.interpolate'),
      ('field interpolator', 'specula/lib/extrapolation_2d.py: EFInterpolator')],
     'The operations are linear: every single-pixel image decides all images of that shape.',
     'exhaustive enumeration of shapes, basis images, masks and update histories against a model')

prop('P15', 'Vector blocks and signal generators follow their definition at every step',
     'For every parameter set and every history of refreshed inputs, the vector blocks output the '
     'stated function of their present inputs, in memory of their own, at the time of the step: '
     'BaseOperation (product, quotient, sum, difference, concatenation, constants, limits; second '
     'vector shorter or remapped), BaseSlicer (indices or slices, also counted from the end), '
     'BaseInserter, LinearCombination, MVM and MirrorCommandsCombinator; so a reader of the '
     'previous step sees the previous values wherever it is placed in the parameter file. The '
     'generators follow their formula or table at every iteration: waves (amplitude, frequency, '
     'offset, constant, slope, vsize), schedules (each switch at its own time), push-pull '
     'calibration sequences (each mode, sign, cycle and repetition once), time histories, random '
     'and vibration generators (size, amplitude, seed, no repetition between steps). The '
     'Demodulator reports the amplitude of each listed mode of its vector, at its own carrier, '
     'once per window, from that window only.',
     ['inputs', 'histories', 'configurations'],
     'All operations x all shapes to 3 (4) x all words of refreshed inputs; all slices of vectors '
     'up to 6; all insertions; all schedules with up to 3 (4) switches; all push-pull settings of '
     'a grid; all orders of a parameter file with a delayed reader.',
     'A view instead of a copy, a wrong index, or an off-by-one in a schedule changes a simulation '
     'silently and only for some orders, sizes or times.',
     ['specula/processing_objects/base_operation.py', 'specula/processing_objects/base_slicer.py',
      'specula/processing_objects/base_inserter.py', 'specula/processing_objects/mvm.py',
      'specula/processing_objects/linear_combination.py',
      'specula/processing_objects/mirror_commands_combinator.py',
      'specula/processing_objects/wave_generator.py',
      'specula/processing_objects/schedule_generator.py',
      'specula/processing_objects/push_pull_generator.py',
      'specula/processing_objects/random_generator.py',
      'specula/processing_objects/vibration_generator.py',
      'specula/processing_objects/demodulator.py', 'specula/lib/modal_pushpull_signal.py'],
     [('vector operations', 'specula/processing_objects/base_operation.py: BaseOperation.trigger_code'),
      ('slices', 'specula/processing_objects/base_slicer.py: BaseSlicer.trigger_code'),
      ('push-pull', 'specula/lib/modal_pushpull_signal.py: modal_pushpull_signal'),
      ('demodulation', 'specula/processing_objects/demodulator.py: Demodulator.trigger_code')],
     'Linear blocks are decided by basis vectors; random generators only by size, scale, seed and '
     'distinctness of the steps.',
     'exhaustive enumeration of parameters and input histories on the real objects, against formulas')

prop('P16', 'Slope computers and their calibrations measure what the frame says',
     'For every frame, threshold, weighting, window, order (interleaved or not) and history of '
     'frames, a slope computer outputs the stated function of the pixels of its own subapertures: '
     'the (weighted) centroid for the Shack-Hartmann, the normalised pupil differences or '
     'intensities for the pyramid and the double roof, the normalised intensity for the Zernike '
     'sensor, the contrast of the two images for the curvature sensor; fluxes and counts are the '
     'sums of those pixels; a reference is subtracted element by element; a filter removes its '
     'modes and nothing else; slopes stay finite when a subaperture, or the whole frame, is dark; '
     'the input frame is not modified. A calibrated reference is the mean of the slopes which '
     'produced it, in their order. The subapertures selected by a calibration are exactly those '
     'above its threshold, each with its own pixels, and the four pupils found by the pyramid '
     'calibration are where the light is, pixel by pixel in the same order.',
     ['inputs', 'histories', 'configurations'],
     'All frames of 3 subapertures over an alphabet of images x all options; all pyramid frames '
     'over small alphabets; all words of frames for accumulated weights; all subsets of '
     'illuminated subapertures; all displacements of the pupils by one pixel.',
     'A slope computed from a neighbouring pixel, a lost order or a NaN breaks a loop far from '
     'the cause; the tests use a few smooth frames.',
     ['specula/processing_objects/slopec.py', 'specula/processing_objects/sh_slopec.py',
      'specula/processing_objects/pyr_slopec.py', 'specula/processing_objects/double_roof_slopec.py',
      'specula/processing_objects/zwfs_slopec.py', 'specula/processing_objects/cur_wfs_slopec.py',
      'specula/processing_objects/sn_calibrator.py',
      'specula/processing_objects/sh_subap_calibrator.py',
      'specula/processing_objects/pyr_pupdata_calibrator.py', 'specula/data_objects/slopes.py',
      'specula/data_objects/subap_data.py', 'specula/data_objects/pupdata.py'],
     [('centroids', 'specula/processing_objects/sh_slopec.py: ShSlopec.calc_slopes_nofor'),
      ('pupil differences', 'specula/processing_objects/pyr_slopec.py: PyrSlopec.trigger_code'),
      ('reference and filter', 'specula/processing_objects/slopec.py: Slopec.post_trigger'),
      ('geometry', 'specula/processing_objects/sh_subap_calibrator.py; '
       'specula/processing_objects/pyr_pupdata_calibrator.py')],
     'Frames of up to 3 subapertures of 2-4 pixels; the slopes of a subaperture depend on the '
     'others only through the mean flux.',
     'exhaustive enumeration of frames, options and histories on the real objects, against formulas')

prop('P17', 'Calibration gives the response of the system, and reconstruction inverts it',
     'For every history of pokes, signs, amplitudes, refreshed and old measurements, the '
     'interaction matrix produced by a calibrator (ImCalibrator, MultiImCalibrator, '
     'Intmat.build_from_slopes) has in the column of each mode of its range the mean of '
     'slopes/amplitude over the fresh measurements made while that mode was poked, nothing '
     'elsewhere, and is saved as such. Reconstructors computed from it (RecCalibrator, '
     'MultiRecCalibrator, generate_rec) are its pseudo-inverse restricted to the requested modes, '
     'or the minimum mean square error formula for every form and scale of the noise and signal '
     'covariances. A modal reconstructor outputs matrix times latest slopes whenever a sensor is '
     'refreshed, for one or several sensors, without altering matrices shared with others; pseudo '
     'open loop control outputs P R (s + D c) - c, explicit or implicit, from one command vector '
     'or several, and only for new slopes; the multi-rate reconstructor uses for every set of '
     'refreshed sensors the matrix of that set, and zeros for the others. A push-pull calibration '
     'followed by a reconstruction returns the commands applied, in every order of the parameter '
     'file.',
     ['inputs', 'histories', 'configurations'],
     'All words of 3 (5) steps over pokes, signs, old slopes and old commands; all refresh words of '
     '1-3 sensors; all words of validity masks; all orders of the calibration file; all sequences '
     'of 3 (4) resizings; noise models at 4 scales.',
     'Calibration errors are silent: the loop runs with a slightly wrong matrix. Old measurements, '
     'negative indices and shared matrices need a particular history to show.',
     ['specula/processing_objects/im_calibrator.py',
      'specula/processing_objects/multi_im_calibrator.py',
      'specula/processing_objects/rec_calibrator.py',
      'specula/processing_objects/multi_rec_calibrator.py', 'specula/data_objects/intmat.py',
      'specula/data_objects/recmat.py', 'specula/lib/mmse_reconstructor.py',
      'specula/processing_objects/modalrec.py',
      'specula/processing_objects/modalrec_implicit_polc.py',
      'specula/processing_objects/modalrec_multirate.py'],
     [('interaction matrix', 'specula/processing_objects/im_calibrator.py: ImCalibrator.trigger_code'),
      ('inversion', 'specula/data_objects/intmat.py: Intmat.generate_rec'),
      ('reconstruction', 'specula/processing_objects/modalrec.py: Modalrec.trigger_code'),
      ('multi-rate', 'specula/processing_objects/modalrec_multirate.py: ModalrecMultirate.trigger_code')],
     'Linear sensors, up to 6 slopes and 4 modes, full rank matrices.',
     'exhaustive enumeration of poke and refresh words on the real objects, against a direct mean')

prop('P19', 'Light propagation: a field is what its line of sight crosses',
     'For every set of layers and sources, AtmoPropagation gives each source the product of the '
     'amplitudes and the sum of the phases of all the layers (common and atmospheric), each sampled '
     'by bilinear interpolation on the footprint of the pupil along the direction of the source: '
     'displaced by angle x height x airmass (and by the pupil position, and chromatically for '
     'atmospheric layers when asked), shrunk by the cone effect of a source at finite height, with '
     'the shift, rotation and magnification of the layer; always from the present content of the '
     'layers, with the flux of the source, upwards or downwards. Sources whose footprint leaves a '
     'layer are refused. With physical propagation the field is the angular spectrum propagation '
     'from layer to layer. The phase of a DM is sign x commands x influence functions of the '
     'selected modes (through the modes-to-commands matrix if any) inside its mask and zero '
     'outside, and depends only on the last command vector. Combining fields multiplies '
     'amplitudes and adds phases and fluxes, reflection changes the sign of the phase, flattening '
     'removes the mean phase of the lit pixels only, and none of them alters its inputs. Field '
     'values at a wavelength, products, areas and displayed arrays follow from amplitude and phase.',
     ['inputs', 'histories', 'configurations'],
     'All combinations of 3-5 layer sizes x heights x zenith x shifts x rotations x magnifications '
     'x pupil positions x 7 sources; all subsets of 5 layers x direction x all refresh histories of '
     '2 (3) steps; all mode selections of a DM x all command histories of 3 (4) steps; all layer '
     'stacks, paddings and band limits of physical propagation.',
     'Every simulation rests on this geometry; the tests check a few symmetric cases where sign, '
     'axis and scale errors cancel.',
     ['specula/processing_objects/atmo_propagation.py', 'specula/lib/interp2d.py',
      'specula/lib/make_xy.py', 'specula/data_objects/electric_field.py',
      'specula/data_objects/layer.py', 'specula/data_objects/source.py',
      'specula/processing_objects/dm.py',
      'specula/processing_objects/electric_field_combinator.py',
      'specula/processing_objects/electric_field_reflection.py',
      'specula/processing_objects/phase_flattening.py'],
     [('footprint', 'specula/processing_objects/atmo_propagation.py: AtmoPropagation.layer_interpolator'),
      ('accumulation', 'specula/processing_objects/atmo_propagation.py: AtmoPropagation.trigger_code'),
      ('mirror', 'specula/processing_objects/dm.py: DM.trigger_code')],
     'Pupils of 4-6 pixels, square layers up to 24 pixels; contributions of the layers merged.',
     'exhaustive enumeration of geometries and refresh histories on the real objects, against a '
     'per-pixel line of sight')

prop('P22', 'Turbulence moves as the wind says and is reproducible',
     'For every history of time steps, wind speeds, wind directions and seeing values, each layer '
     'of the atmosphere objects (AtmoEvolution, AtmoInfiniteEvolution and their up/down versions) '
     'is the phase screen of its seed, outer scale and Cn2 fraction read at the distance travelled '
     'so far (the integral of wind speed over time plus the constant time offset of the layer), '
     'interpolated linearly between pixels, turned to the wind direction, and scaled to the present '
     'seeing and airmass; a finite screen restarts from its beginning when the wind reaches its '
     'end. The amplitude is one and all layers carry the present time. With infinite screens and a '
     'wind along an axis the screen at a time does not depend on how time was cut in steps; up and '
     'down lists differ only by their time offsets. Screens depend only on seed, outer scale, size, '
     'pitch and precision: never on what the screen cache contains, on other objects or on the '
     'global random state. AtmoRandomPhase gives one screen after the other, each for '
     'update_interval steps, and PhaseScreenCube the cube interpolated linearly in time, within '
     'the mask of the pupil.',
     ['inputs', 'histories', 'configurations'],
     'All step histories of 3 (4) steps x layer configurations x winds x directions x offsets; all '
     'wind histories of 3 (4) steps; all compositions of 5 (6) time units; all pairs of up/down '
     'offsets; all histories of 3 (4) constructions over a shared cache.',
     'A wrong screen, position or scale still looks like turbulence: only the comparison with the '
     'screen itself shows it.',
     ['specula/processing_objects/atmo_evolution.py',
      'specula/processing_objects/atmo_evolution_up_down.py',
      'specula/processing_objects/atmo_infinite_evolution.py',
      'specula/processing_objects/atmo_infinite_evolution_up_down.py',
      'specula/processing_objects/atmo_random_phase.py',
      'specula/processing_objects/phase_screen_cube.py', 'specula/lib/phasescreen_manager.py',
      'specula/data_objects/infinite_phase_screen.py'],
     [('finite screens', 'specula/processing_objects/atmo_evolution.py: AtmoEvolution._update_layer_list'),
      ('infinite screens', 'specula/processing_objects/atmo_infinite_evolution.py: '
       'AtmoInfiniteEvolution._process_propagation_direction'),
      ('cache', 'specula/lib/phasescreen_manager.py: phasescreens_manager')],
     'Screens of 16-64 pixels; the statistics of the screens themselves are not claimed.',
     'exhaustive enumeration of wind and step histories on the real objects, against direct reading '
     'of the screens')

prop('P21', 'Focal planes: PSF, Strehl ratio and coronagraphs follow the field',
     'For every pupil, sampling and wavelength, the PSF is the squared modulus of the Fourier '
     'transform of the padded field, normalised to unit sum, centred on the central pixel of the '
     'array; its sampling is the closest to the requested one; the Strehl ratio is the peak over '
     'the peak of the same pupil without aberrations; integrated PSF and Strehl ratio are the means '
     'over exactly the frames from start_time on, and standard deviations likewise. '
     'Coronagraphs (Lyot, knife edge, vortex, four quadrant, PAPL, APP) give the field that goes '
     'through their apodiser, focal plane mask and pupil stop, with working angles and sizes in '
     'lambda/D as requested; a mask that lets all pass and no stop leave the field as it is, also '
     'when the field is interpolated to reach the field of view. Nothing depends on earlier frames, '
     'and inputs are never modified.',
     ['inputs', 'histories', 'configurations'],
     'All histories of 3 (4) steps over 4 kinds of field and no field x pupils x samplings x '
     'starting times; all masks x working angles x pupil stops x 3-frame histories; all '
     'interpolation factors; samplings.',
     'Contrast and Strehl ratio are what simulations are run for; a mask half a pixel off or a '
     'normalisation of one path only is invisible in a qualitative test.',
     ['specula/processing_objects/psf.py', 'specula/processing_objects/psf_coronagraph.py',
      'specula/lib/calc_psf.py', 'specula/processing_objects/abstract_coronagraph.py',
      'specula/processing_objects/focal_plane_filter.py',
      'specula/processing_objects/lyot_coronagraph.py',
      'specula/processing_objects/vortex_coronagraph.py',
      'specula/processing_objects/four_quadrant_coronagraph.py',
      'specula/processing_objects/papl_coronagraph.py',
      'specula/processing_objects/app_coronagraph.py'],
     [('psf', 'specula/lib/calc_psf.py'),
      ('averages', 'specula/processing_objects/psf.py: PSF.post_trigger'),
      ('masks', 'specula/processing_objects/abstract_coronagraph.py')],
     'Pupils of 4-8 pixels; the dark hole radius of the APP is not claimed unless fft_res is 2.',
     'exhaustive enumeration of pupils, masks and frame histories on the real objects, against '
     'direct Fourier sums')

prop('P23', 'Shack-Hartmann: every lens sees its own part of the pupil',
     'For every assignment of wavefronts to the subapertures, each subaperture image of SH is the '
     'diffraction pattern of its own part of the field only, at the requested pixel scale, limited '
     'to the requested field of view, independent of the piston and of what the other subapertures '
     'see; the flux is shared as the light on the lenses (total flux x masked area, less what the '
     'field stop takes away); with an oversampled or rotated field the flux is conserved, spots of a '
     'flat wavefront are equal and symmetric, and tilts move spots the right way. Images depend '
     'only on the present field, and are the same whatever other sensors exist in the process and '
     'in whatever order they work. DistributedSH slices together give exactly the image of SH, for '
     'every number of slices. PolyChromSH is the weighted sum of the monochromatic images, each '
     'with its own tilt in arcsec, scaled to the total flux. With a laser launch telescope every '
     'image is convolved with the image, at the same scale, of the present sodium column as its '
     'lens sees it. Inputs are never modified.',
     ['inputs', 'configurations', 'histories'],
     'All assignments of 4 (6) wavefronts to 2x2 and 3x3 lenslets x geometries; all pairs (triples) '
     'of sensors in a process x trigger orders x 3 frames; all slice numbers; all wavelength, '
     'weight and tilt sets; all sequences of 2 (3) fields and sodium profiles x 6 launch telescopes.',
     'Buffers are shared between sensors and subapertures for speed: contamination depends on '
     'which sensors exist and in which order they ran, which unit tests never combine.',
     ['specula/processing_objects/sh.py', 'specula/processing_objects/distributed_sh.py',
      'specula/processing_objects/poly_chrom_sh.py', 'specula/processing_objects/poly_chrom_wfs.py',
      'specula/lib/extrapolation_2d.py', 'specula/lib/toccd.py'],
     [('lenses', 'specula/processing_objects/sh.py: SH.trigger_code'),
      ('shared buffers', 'specula/processing_objects/sh.py: SH.zeros_common'),
      ('slices', 'specula/processing_objects/distributed_sh.py')],
     'Up to 5x5 lenses of 4-12 pixels; interpolated fields only up to the exactness of the '
     'interpolation grid.',
     'exhaustive enumeration of subaperture fields, sensor groups and slices on the real objects, '
     'against direct Fourier sums')

prop('P24', 'Pyramid sensors: image, flux and geometry for every modulation',
     'For every modulation (circular, vertical, horizontal, alternating), amplitude and number of '
     'steps, the image of ModulatedPyramid is the weighted mean of the images of the field tilted '
     'to each point of the modulation, each diffracted through field stop and faces; its total is '
     'flux x pupil area x transmission x fraction inside the detector, which are the ratios of the '
     'PSFs after and before the stop and of the light inside the detector; alternating modulation '
     'is vertical on even frames and horizontal on odd ones; nothing else depends on earlier '
     'frames. The four pupils have the requested diameter and distance. The same holds for '
     'ModulatedDoubleRoof and ZernikeSensor. ExtSourcePyramid is the flux-weighted mean over the '
     'points of its source, whatever the batch size and the stream option, also when the source '
     'changes and changes size. PolyCromPyramid is the weighted sum of its wavelengths. Sensors in '
     'the same process do not influence each other. Inputs are never modified.',
     ['inputs', 'histories', 'configurations'],
     'All modulations x 6 geometries x frame sequences; all histories of 3 steps over 8 extended '
     'sources x batch sizes x stream options; all wavelength, weight and tilt sets; pupil sizes and '
     'distances; all ordered pairs (triples) of sensors x trigger orders x own or shared field.',
     'The image goes through buffers, caches and chained normalisations that cancel for the flat '
     'symmetric fields the tests use.',
     ['specula/processing_objects/modulated_pyramid.py',
      'specula/processing_objects/modulated_double_roof.py',
      'specula/processing_objects/zernike_sensor.py',
      'specula/processing_objects/ext_source_pyramid.py',
      'specula/processing_objects/poly_crom_pyramid.py', 'specula/lib/calc_geometry.py',
      'specula/lib/toccd.py', 'specula/lib/extrapolation_2d.py'],
     [('modulation', 'specula/processing_objects/modulated_pyramid.py: ModulatedPyramid.cache_ttexp'),
      ('image', 'specula/processing_objects/modulated_pyramid.py: ModulatedPyramid.trigger_code'),
      ('points', 'specula/processing_objects/ext_source_pyramid.py: ExtSourcePyramid.trigger_code')],
     'Pupils of 12-60 pixels; edge and tip defects of the pyramid are random and not claimed.',
     'exhaustive enumeration of modulations, frame and source histories on the real objects, '
     'against a direct Fourier model')
prop('P20', 'Objects do not interfere with each other, within a run and between runs',
     'What an object reads and produces depends on its parameters and its inputs only. A simulation '
     'gives, for every object, the same inputs at every trigger and the same outputs when any other '
     'object (or all of them) is declared twice, when an object runs alone with what it depends on, '
     'for any order of the objects in the file, up to the end of a shorter or longer duration, and '
     'after any other simulations in the same process. No call of the life cycle of an object '
     '(setup, check_ready, trigger, post_trigger, finalize) changes the outputs of another object '
     'or a data object declared in the file. ModalAnalysis gives the modes of every field of its '
     'list.',
     ['programs', 'histories', 'configurations'],
     'Five simulations that use most processing objects; every object (pair of objects) duplicated; '
     'every object alone; every object first and last; all durations up to 6 (12) steps; all '
     'sequences of 2-3 (4) simulations; every life-cycle call of every object.',
     'Caches, buffers swapped in post_trigger, arrays shared by reference and global generators only '
     'interfere with a second user in the same process: tests build one object at a time.',
     ['specula/base_processing_obj.py', 'specula/base_data_obj.py', 'specula/simul.py',
      'specula/lib', 'specula/processing_objects', 'specula/data_objects'],
     [('life cycle', 'specula/loop_control.py: LoopControl.iter'),
      ('shared inputs by reference', 'specula/connections.py: InputValue.get'),
      ('caches', 'specula/lib/extrapolation_2d.py: EFInterpolator, '
       'specula/data_objects/iir_filter_data.py, specula/lib/zernike_generator.py')],
     'Comparison to 1e-6 (memory alignment changes last bits). CPU, double precision.',
     'exhaustive enumeration of duplications, subsets, orders, durations and sequences of complete '
     'simulations on the real simulator, against the simulation alone in a fresh process')

prop('P18', 'The display server shows the current data, in order, and never disturbs the run',
     'With a display server, in image or data mode, a request of a client is answered by the first '
     'trigger that finds it with one item per known output or input (list outputs whole), holding '
     'the value at that trigger, in the order requested, followed by one speed report and one '
     '"done" event; nothing is sent to a client that did not ask, to another client, twice, or '
     'after the terminator of its request. Status reports reach the front end once each, in order, '
     'while it is reachable. The server lives until the simulation ends and is terminated then. '
     'Results of the simulation are those without display, and its data objects are unchanged. '
     'The plot of a name shows the last value plotted (all of it, within the axes), whatever was '
     'plotted before under that name; a scalar shows its history.',
     ['schedules', 'histories', 'programs'],
     'All interleavings of simulation, server threads and one or two clients up to a preemption '
     'bound of 2 (two clients: 1; thorough 3 and 2) for 94 scripts; all outputs and inputs of five '
     'library simulations in both modes; all sequences of up to 3 values of 15 kinds.',
     'The order of items handed over between a process and two threads depends on the schedule; '
     'tests call each method alone with mock queues and sleep until something arrives.',
     ['specula/processing_objects/display_server.py', 'specula/lib/display_server_api.py',
      'specula/display/data_plotter.py', 'specula/simul.py', 'specula/data_objects/slopes.py'],
     [('request loop', 'specula/processing_objects/display_server.py: trigger, '
       '_trigger_image_mode, _trigger_data_mode, remove_xp_np, _process_for_dpg'),
      ('server threads', 'specula/lib/display_server_api.py: FlaskServer.status_update, '
       'handle_responses, terminator_response_handler, set_up handlers'),
      ('plots', 'specula/display/data_plotter.py: DataPlotter')],
     'The real object, threads and handlers run; queues, sockets, clock and process boundary are '
     'stand-ins (reliable, ordered). Switches happen at queue operations, locks, sleeps and socket '
     'events. Colours and layout of plots are not judged.',
     'stateless exploration of all thread interleavings up to a preemption bound with a controlled '
     'scheduler on the real code; exhaustive enumeration of requests and value sequences')

prop('P25', 'Objects commanded during the run obey each command, and survive wrong ones',
     'Commands reach their object at the step they arrive, once, in order, the last value of a name '
     'winning; names that are not declared are ignored. DynamicDarkCalibrator: a trigger starts an '
     'acquisition of nframes new frames (again, if one is running); the dark frame is their mean, '
     'whatever is commanded meanwhile, stamped when the last one arrives; reset, load and a new '
     'nframes act at their step; each frame less the dark frame known before it is the output; a '
     'saved file holds the dark frame of that step. DynamicPyrPupdataCalibrator: every measurement '
     'uses the frames since the previous one, failed or not, with the thresholds and dt in force, '
     'publishes parameters and status, keeps the last good pupils when it fails, and saves under '
     'the tag in force. A wrong value (not a number, not positive, missing or unsuitable file) '
     'changes nothing and does not stop the simulation.',
     ['histories', 'inputs', 'schedules'],
     'All sequences of up to 6 (thorough 7) steps over 7 combinations of frame and command, of 4 (5) over '
     '12 with files and wrong values; pupil frames (three kinds or none) x 14 commands x a second '
     'one x dt; all message sequences up to 4 over three steps; all typed lines of up to 3 words; '
     'all placements of two commands in whole simulations.',
     'Commands are typed at any moment: before, during and after an acquisition, between frames; '
     'the tests set one value and look at the attribute.',
     ['specula/processing_objects/dynamic_dark_calibrator.py',
      'specula/processing_objects/dynamic_pyr_pupdata_calibrator.py',
      'specula/processing_objects/pyr_pupdata_calibrator.py',
      'specula/processing_objects/specula_input.py',
      'specula/processing_objects/terminal_input.py'],
     [('dark frames', 'specula/processing_objects/dynamic_dark_calibrator.py: '
       'DynamicDarkCalibrator.prepare_trigger, trigger_code'),
      ('pupils', 'specula/processing_objects/dynamic_pyr_pupdata_calibrator.py: '
       'DynamicPyrPupdataCalibrator.prepare_trigger'),
      ('commands', 'specula/processing_objects/specula_input.py: SpeculaInput.trigger_code')],
     'The geometry of one pupil measurement is that of the plain calibrator (P16). A new nframes '
     'in the same step as a trigger is not claimed. Saving over a file is refused loudly (P11).',
     'exhaustive enumeration of command and frame sequences on the real objects and simulations, '
     'against a reference model')

prop('P26', 'Mode bases, mirrors and modal analysis agree with their definitions',
     'Zernike polynomials and derivatives are those of Noll; a Zernike influence function is zero mean, '
     'unit rms and is its polynomial (with its sign) less the previous ones. Zonal influence functions '
     'are thin plate splines through their actuator, with the documented geometry, coupling between '
     'neighbours by distance, slaving weights and mask. The shape of a mirror is sign times the sum of '
     'command times influence function over its modes (through m2c when given); shorter vectors are '
     'padded, longer ones cut, nothing else changes. Modal analysis is the pseudo-inverse on the '
     'pixels of the mask, for one field or a list, gives back the commands of a mirror, and sees '
     'through phase wrapping. A modal base is orthonormal, free of piston and of the filtered modes, '
     'decorrelated and ordered by turbulent variance, and its m2c gives its modes up to piston.',
     ['inputs', 'histories'],
     'All modes up to order 8 (thorough 12) on even and odd grids; all geometries of up to 5 actuators per '
     'side with all option combinations; all sequences of 2 or 3 commands of several lengths x mode '
     'ranges x m2c x sign; all masks x bases x field kinds for the analysis.',
     'Conventions (sign, order, piston, filtered modes) hold for one grid and one option set at a '
     'time in the tests, which compare shapes or stored files.',
     ['specula/processing_objects/dm.py', 'specula/processing_objects/modal_analysis.py',
      'specula/data_objects/ifunc.py', 'specula/data_objects/ifunc_inv.py',
      'specula/data_objects/m2c.py', 'specula/lib/zernike_generator.py',
      'specula/lib/compute_zern_ifunc.py', 'specula/lib/compute_zonal_ifunc.py',
      'specula/lib/modal_base_generator.py', 'specula/lib/utils.py'],
     [('polynomials', 'specula/lib/zernike_generator.py: ZernikeGenerator'),
      ('influence functions', 'specula/lib/compute_zonal_ifunc.py: compute_zonal_ifunc; '
       'specula/lib/compute_zern_ifunc.py: compute_zern_ifunc'),
      ('mirror', 'specula/processing_objects/dm.py: DM.trigger_code'),
      ('analysis', 'specula/processing_objects/modal_analysis.py: ModalAnalysis.trigger_code'),
      ('bases', 'specula/lib/modal_base_generator.py: make_modal_base_from_ifs_fft')],
     'Zernike modes are only nearly orthogonal on obstructed masks (not claimed). Unwrapping is claimed '
     'where the gradient is below half a wavelength. Slaving to collinear neighbours is excluded.',
     'exhaustive enumeration of geometries, masks, mode sets and command sequences on the real code '
     'against reference implementations')

prop('P27', 'Extended sources, curvature, interference, derivative sensors are exact',
     'Curvature sensor: its two images are the intensity of the field with plus and minus the defocus, '
     'cut to the field of view, with the photons of the field, and a tilt moves both by its angle '
     'whatever the oversampling. Interferometric sensor: the image is the squared sum of the field '
     'and its tilted copy with the given split, normalised to the photons when asked; its slopes are '
     'the phase of the windowed sideband about its centre, in nm, for odd and even detectors, zero '
     'outside the overlap of the pupils. Extended source: at least one point, fluxes summing to one, '
     'points and weights by shape and sampling, the tilt of a point is the plane wave of its angle, '
     'layers copy the points with their intensity, tilt and focus; a source from a PSF follows each '
     'new PSF and is stamped when it changes. Ideal derivative sensor: slopes are the mean gradient '
     'over the lit pixels of a subaperture. Each frame alone decides; inputs are unchanged.',
     ['inputs', 'histories'],
     'Products of detector and field sizes, tilts, defocus, splits, normalisations and apertures; all '
     'source shapes x samplings x sizes x layers; all sequences of up to 3 PSFs of 5 kinds; all '
     'pairs of input frames.',
     'Half-pixel offsets, odd sizes and oversampling factors leave images plausible; tests look at '
     'one size and at shapes.',
     ['specula/processing_objects/curvature_sensor.py',
      'specula/processing_objects/ciao_ciao_sensor.py',
      'specula/processing_objects/ciao_ciao_slopec.py',
      'specula/processing_objects/extended_source.py',
      'specula/processing_objects/ideal_derivative_sensor.py'],
     [('curvature', 'specula/processing_objects/curvature_sensor.py: CurvatureSensor'),
      ('interference', 'specula/processing_objects/ciao_ciao_sensor.py: CiaoCiaoSensor; '
       'specula/processing_objects/ciao_ciao_slopec.py: CiaoCiaoSlopec'),
      ('sources', 'specula/processing_objects/extended_source.py: ExtendedSource'),
      ('derivative', 'specula/processing_objects/ideal_derivative_sensor.py: '
       'IdealDerivativeSensor.trigger_code')],
     'The image of the curvature sensor is centred on pixel n/2. Combinations that are not implemented '
     '(polar Gaussian, rings from a PSF) are refused loudly. The focus of a layer may follow either '
     'of two documented conventions.',
     'exhaustive enumeration of geometries, options and frame sequences on the real objects against '
     'a reference model')

prop('P28', 'Estimators and monitors report what the loop data say, when they say it',
     'Optical gain: updated by its formula at exactly the steps at which both demodulated values are '
     'fresh and the command is not null; the output never exceeds one and is stamped at every '
     'trigger. Gain optimisation: at multiples of its interval, and only then, each gain of the '
     'shared filter becomes the one of the grid below the largest stable gain that minimises the '
     'rejected power of the pseudo open loop data (all frames so far, Welch), limited, scaled by the '
     'last change of the optical gain and by the safety factors; shapes of filters are kept; nothing '
     'happens with less than two frames. Printing: at the first frame and then at most once per '
     'interval, the values asked in the format asked. Spot monitor: the summed image is the sum of '
     'the subapertures, model, residual, chi2 and FWHM are those of the parameters, noise free spots '
     'are recovered, each frame alone decides. Misregistration: estimated when due with ten frames '
     'or more, from the frames since the last estimate only, by the documented iteration; matrix, '
     'parameters and error are those of the end of the iteration and stamped only then.',
     ['inputs', 'histories'],
     'All sequences of 3 (4) arrivals of 7 kinds; signals x delays x options x patterns of missing '
     'frames x intervals; all refresh patterns over 6 steps; all pairs (triples) of spots x '
     'geometries; misregistration: gains x forgetting x iterations x intervals x every missing frame.',
     'The outputs depend on when each input was last refreshed and on everything since the last '
     'estimate; tests feed every input at every step and call internal methods.',
     ['specula/processing_objects/optical_gain_estimator.py',
      'specula/processing_objects/gain_optimizer.py', 'specula/processing_objects/data_print.py',
      'specula/processing_objects/spot_monitor.py',
      'specula/processing_objects/base_sprint_estimator.py', 'specula/lib/demodulate_signal.py'],
     [('optical gain', 'specula/processing_objects/optical_gain_estimator.py: '
       'OpticalGainEstimator.trigger_code'),
      ('gains', 'specula/processing_objects/gain_optimizer.py: GainOptimizer.trigger_code, '
       'post_trigger'),
      ('printing', 'specula/processing_objects/data_print.py: DataPrint.trigger'),
      ('spots', 'specula/processing_objects/spot_monitor.py: SpotMonitor.trigger_code'),
      ('misregistration', 'specula/processing_objects/base_sprint_estimator.py: '
       'BaseSprintEstimator.trigger_code')],
     'Gains whose rejected power ties within 1e-6 are all accepted. The fit of a spot may stop in a '
     'local minimum: recovery is claimed for boxes of 8 pixels and spots near the initial guess. '
     'Slopes that are all zero (no measured matrix) are excluded. The running_mean option has no '
     'effect in the code and is not claimed.',
     'exhaustive enumeration of input histories on the real objects against a reference model')

prop('P29', 'Analysis and design of filters describe the filter that runs in the loop',
     'The frequency response of a filter is the transfer function of its coefficients and the '
     'transform of what the running filter does. Rejection and noise transfer functions, stability, '
     'largest stable gain and resonance agree with the closed loop of any delay, whole or '
     'fractional, run with the real filter object; the analysis of one mode is that of all; the '
     'stability analysis takes the resonance at 99% of the largest gain whatever the current gain. '
     'After any history of gains (scalars, shorter vectors, missing values, zeros) the filter is '
     'that of the last given gains with the same shape. Designs (gain and forgetting factor, '
     'Butterworth low pass of order 1 or even, low pass with amplitude) have the documented response '
     'and cut-off. Conversion to the control library and back keeps the filter.',
     ['inputs', 'histories'],
     '10 filters x delays 0..3 in quarters x gains, each run for up to 1600 steps in closed loop; all '
     'histories of up to 3 gains of 8 kinds; designs over cut-offs x orders x amplitudes x rates.',
     'Tests look at an integrator with one delay and at the shape of arrays; stability near the limit '
     'and fractional delays show only when the loop is run.',
     ['specula/data_objects/iir_filter_data.py', 'specula/processing_objects/iir_filter.py',
      'specula/processing_objects/base_filter.py'],
     [('analysis', 'specula/data_objects/iir_filter_data.py: frequency_response, RTF, NTF, is_stable, '
       'max_stable_gain, resonance_frequency, stability_analysis'),
      ('gains', 'specula/data_objects/iir_filter_data.py: set_gain'),
      ('designs', 'specula/data_objects/iir_filter_data.py: from_gain_and_ff, lpf_from_fc, '
       'lpf_from_fc_and_ampl'),
      ('loop', 'specula/processing_objects/iir_filter.py: IirFilter.trigger_code')],
     'A loop is judged by its run only when its slowest pole is further than 2% from the unit circle. '
     'get_zeros/get_poles return reciprocals, pinned by a test, and are not claimed.',
     'exhaustive enumeration of filters, delays, gain histories and designs, each run on the real '
     'filter and compared with its analysis')

prop('P30', 'Field analysis of a stored run equals the run with those sources in it',
     'For any stored simulation whose mirror commands were saved, FieldAnalyser returns for each '
     'field source the PSF, the Strehl ratio, the modes (with their average and variance) and the '
     'phases that the simulation itself computes when it is run with those sources: for any '
     'turbulence, mirrors at any height, controller delay, storage format and precision (also when '
     'the current precision is another one), any sampling, wavelength, start time and mode options, '
     'any number and order of sources, near ones and negative angles included. Repeating an analysis, '
     'or making several of the same run in any order, with or without recomputation, gives each its '
     'own result, and never changes the stored run.',
     ['configurations', 'histories'],
     '2 atmospheres x 4 sets of mirrors x formats x stored outputs x delays x precisions x sources; '
     'all pairs (triples) of 12 analyses of a run, repeated and forced.',
     'It takes a whole simulation, its replay with other objects and cached files of earlier analyses; '
     'the test compares one on-axis analysis with the run.',
     ['specula/field_analyser.py', 'specula/simul.py', 'specula/processing_objects/data_store.py',
      'specula/processing_objects/data_source.py', 'specula/processing_objects/psf.py'],
     [('replay parameters', 'specula/field_analyser.py: FieldAnalyser._build_replay_params_psf, '
       '_build_replay_params_modal, _build_replay_params_cube, _add_field_sources_to_params'),
      ('targeted replay', 'specula/simul.py: Simul.build_targeted_replay'),
      ('cached results', 'specula/field_analyser.py: compute_field_psf, compute_modal_analysis, '
       'compute_phase_cube')],
     'The propagation object must be named prop and the commands of every mirror stored; end_time has '
     'no effect in the code and is not claimed; two rows of two numbers are radii and angles. One '
     'store per simulation.',
     'exhaustive enumeration of loops and sequences of analyses, each compared with a second real '
     'simulation that contains the field sources')

prop('P31', 'Displays show the present data and never disturb the simulation',
     'At every step each display shows its present input and nothing else: the field without piston '
     'inside its pupil, the PSF, slopes, detector image or modes as they are, with the requested scale, '
     'crop region, ranges and labels, the last points of a history with their times, the pupils where '
     'they are on the image, pairs of fields with their present and average spectra. Colours and '
     'automatic limits cover all that is shown. An input that cannot be shown gives a message in the '
     'figure, never an exception, and the next valid one is shown again. Displays never change what '
     'they show.',
     ['histories', 'configurations'],
     'all sequences of up to 4 (5-6) refreshes, invalid inputs and pauses x options of each display.',
     'It is about what the figure contains after any history of valid and invalid inputs; the tests '
     'show one or a few valid frames.',
     ['specula/display/base_display.py', 'specula/display/phase_display.py', 'specula/display/psf_display.py',
      'specula/display/pixels_display.py', 'specula/display/pixels_pup_display.py',
      'specula/display/slopec_display.py', 'specula/display/modes_display.py',
      'specula/display/plot_display.py', 'specula/display/plot_vector_display.py',
      'specula/display/double_phase_display.py'],
     [('errors and updates', 'specula/display/base_display.py: BaseDisplay.trigger_code, _show_error, '
       '_update_image_data'),
      ('histories', 'specula/display/plot_display.py: PlotDisplay._update_display'),
      ('pupils', 'specula/display/pixels_pup_display.py: PixelsPupDisplay._draw_pupils')],
     'What is in the figure (artists, their data and limits) is compared, not the rendered pixels; '
     'windows and notebooks are not reached. A change of the size of a vector is refused by a message.',
     'exhaustive enumeration of input histories, the content of the figure compared with the '
     'definition after each step')

prop('P32', 'Calculators of photons, air, wind, petals, plate scales and noise are right',
     'Photons follow magnitude, band or wavelength, width, area, time and zero point in every photometric '
     'model, also through a source; the refractivity of air follows its formulas for every temperature, '
     'pressure and humidity; the wind seen following an object, its point ahead angle and light times are '
     'the vector sums of the motions. Petals partition the pupil from the requested angle, apart from '
     'spiders, with centred unit tilts. Plate scale coefficients are the projections of focus and '
     'astigmatisms of each mirror on the ground one. The noise of elongated spots is that of the geometry. '
     'Phase plates reach the contrast between the requested angles or say so, absorbing nothing.',
     ['configurations'],
     'all combinations of the arguments from finite sets, of maps of 8-25 pixels and 1-8 petals, 3 mirrors, '
     '3-9 subapertures, plates of 16-32 pixels.',
     'It is about all arguments; the tests compare a few values, and mostly check shapes.',
     ['specula/lib/n_phot.py', 'specula/lib/air_refraction.py', 'specula/lib/fsoc_lib.py',
      'specula/lib/compute_petal_ifunc.py', 'specula/lib/make_mask.py', 'specula/lib/platescale_coeff.py',
      'specula/lib/calc_noise_cov_elong.py', 'specula/processing_objects/apodizer_coronagraph.py',
      'specula/data_objects/source.py'],
     [('photons', 'specula/lib/n_phot.py: n_phot; specula/data_objects/source.py: Source.phot_density'),
      ('air', 'specula/lib/air_refraction.py: MatharAirRefraction.get_refractive_index'),
      ('wind', 'specula/lib/fsoc_lib.py: calc_effective_wind_speed'),
      ('petals', 'specula/lib/compute_petal_ifunc.py: compute_petal_ifunc'),
      ('plate scale', 'specula/lib/platescale_coeff.py: platescale_coeff'),
      ('noise', 'specula/lib/calc_noise_cov_elong.py: calc_noise_cov_elong'),
      ('dark zone', 'specula/processing_objects/apodizer_coronagraph.py: APPCoronagraph.define_apodizing_phase, '
       'generate_app_keller')],
     'Each calculator is compared with an independent definition (for air also with physics that is not in '
     'the tables). Sign of a Zernike mode of a mirror, special_last_petal, positions at the corner of '
     'subapertures, measured sodium profiles and half a pixel of the dark zone are not claimed.',
     'exhaustive enumeration of arguments, each result compared with the definition')
