"""Source of properties.jsonl: python3 tools/mkprops.py > properties.jsonl"""
import json

P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
  P.append({
      "id": id, "title": title, "statement": statement,
      "quantifier": {"over": over.split(), "text": text},
      "why_tests_cant": why,
      "anchors": {
          "files": files,
          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
          "observe_at": list(observe),
          "hook_needed": hook,
      }})


p("C01", "Known modes are recovered from audio, whatever the analysis settings",
  "Fitting the model on a sound that is a sum of well-separated, exponentially decaying sinusoids returns, for each audible sinusoid, one mode whose frequency, decay and amplitude match the true ones within the method's resolution, and returns no other mode of comparable energy. This holds for every valid sampling rate, hop, window and FFT size, with and without zero-padding, for forward and time-reversed analysis, and scaling the signal together with the level thresholds scales the amplitudes only. Resynthesising with the learned modes reproduces the energy envelope of the sound.",
  "inputs configurations", "all modal sounds with separated partials, all analysis configurations",
  "Tests fit one fixed 3-mode-like sound at the default configuration and compare a handful of numbers; nothing varies fs, h, w, n, padding and reversal together.",
  ["sample/sample.py", "sample/sms/sm.py", "sample/sms/mm.py", "sample/sms/dsp.py", "sample/hinge.py"],
  [("decay/amplitude conversion and time axis", "SAMPLE._preprocess_track, SAMPLE._fit_track"), ("STFT and tracking", "SinusoidalModel.fit")],
  ["param_matrix_, freqs_, decays_, amps_ after fit"])

p("C02", "Learned modes are always physically meaningful",
  "After fitting on any finite audio signal (music-like, noise, silence, clicks, DC, steps, clipped, very short or very quiet), the learned parameters are a 3-by-N matrix of finite numbers with frequencies inside the configured frequency bounds, positive amplitudes and positive decays, so that the resynthesis never grows. Every mode is the fit of exactly one tracked sinusoid on its physical time axis, in track order, and only tracks whose fit is not finite and decaying are dropped. Fitting never crashes on such input.",
  "inputs configurations", "all finite audio signals and analysis configurations",
  "Tests only fit clean synthetic modal sounds; degenerate and hostile audio is never analysed.",
  ["sample/sample.py", "sample/sms/mm.py", "sample/hinge.py"],
  [("validity mask", "SAMPLE._valid_params_"), ("track acceptance", "ModalTracker.track_ok")],
  ["param_matrix_ after fit, sinusoidal.tracks_"])

p("C03", "Resynthesis is exactly the sum of the selected damped partials",
  "Synthesised audio at every time instant equals the sum over the selected modes of amplitude times exponential envelope times cosine (complex exponential in analytic mode) with the given starting phases, for scalar-sized, short and long time axes. Selecting a number of modes keeps exactly that many first modes of the requested ordering (by energy, frequency, decay or amplitude, in either direction), with phases following their own mode; the model's own limit applies when no number is given. Random phases are uniform, reproducible from a seed, and prediction never alters the model or its inputs.",
  "inputs configurations", "all parameter matrices, orderings, mode counts, phases and time axes",
  "Tests compare one synthesis against a reference and never vary ordering, truncation, phases and analytic together.",
  ["sample/sample.py"], [("synthesis", "additive_synth"), ("mode selection", "SAMPLE.predict, SAMPLE.mode_argsort_")], ["predict(), additive_synth() output"])

p("C04", "SDT export is a faithful and portable description of the model",
  "The exported physical-model parameters are pure JSON that round-trips without loss and contains every learned mode exactly once, with frequency, decay and gain still belonging together, sorted by the requested feature and direction. Counts agree with list lengths, the number of active modes never exceeds the number of modes or the configured limit, and pickup weights sum to one. This holds for any number of modes including none.",
  "inputs configurations", "all learned parameter matrices, orderings and mode limits",
  "Tests export a single fitted model once; zero modes, ties, orderings and limits are not exercised.",
  ["sample/sample.py"], [("export", "SAMPLE.sdt_params_")], ["sdt_params_() output"])

p("C05", "Fitting depends only on the parameters and the input, not on history",
  "Refitting an estimator after any sequence of earlier fits, predictions, parameter changes, failures or clones gives exactly what a freshly built estimator with the same parameters gives on the same input. Fitting never modifies the caller's arrays, the regressor and decision-maker templates given by the user, other estimators, global warning filters or the global random state. Intermediate results saved during a fit describe that fit only.",
  "histories", "all sequences of fit/predict/set_params/clone on shared and separate estimators",
  "Every test uses a freshly built estimator once.",
  ["sample/sample.py", "sample/beatsdrop/sample.py", "sample/sms/sm.py", "sample/utils/learn.py", "sample/hinge.py", "sample/utils/__init__.py"],
  [("tracker reset", "SineTracker.reset"), ("storage reset", "OptionalStorage.reset"), ("clone per track", "SAMPLE._fit_track")], ["param_matrix_, intermediate.get_state(), warnings.filters"])

p("C06", "Parallel fitting is indistinguishable from serial fitting",
  "Fitting with any number of worker processes, with a caller-supplied pool or manager, and under any scheduling of the workers gives the same modes in the same order, and the same saved intermediate results, as fitting serially. A completed fit reports progress for both of its stages: the announced totals are the numbers of frames and of tracks, reported progress never goes backwards, one step is reported for every item, and every start has a stop. Afterwards, including when fitting fails midway, the model holds its own ordinary components again, stays usable and copyable, and no process is left running.",
  "schedules fault_sequences", "all worker counts, completion orders, delays and worker failures",
  "Tests compare one parallel fit with one serial fit under natural scheduling; delays, failures and reuse are never injected.",
  ["sample/_training.py", "sample/sample.py", "sample/beatsdrop/sample.py", "sample/utils/learn.py"],
  [("ordered asynchronous starmap", "_progress_starmap"), ("managed storage swap and restore", "_wrap_as_managed"), ("process-safe storage", "OptionalStorage")],
  ["fit results, progress callbacks, model.get_params()"])

p("C07", "Sinusoidal tracking obeys its continuation rules on every frame",
  "Each spectral peak of a frame belongs to at most one track and every value stored in a track is a peak of the frame it claims, with consecutive frequencies closer than the configured frequency-dependent deviation. Louder peaks choose first and take the nearest free active track; tracks that find no peak end at that frame, remaining peaks start new tracks while the number of active tracks is below the maximum. Ended tracks are kept exactly when they last at least the configured minimum duration, and tracks still active at the end are reported under the same rule.",
  "histories inputs configurations", "all sequences of peak lists and tracker configurations",
  "Tests run the tracker on one synthetic sound and only check the final tracks loosely.",
  ["sample/sms/sm.py"], [("greedy continuation", "SineTracker.__call__"), ("activation and deactivation", "SineTracker.deactivate, SineTracker.all_tracks_")],
  ["tracks_, all_tracks_, n_active_tracks after each frame"], [("active tracks", "tracks being continued", "SineTracker"), ("frame counter", "current frame", "SineTracker")])

p("C08", "Modal track selection, merging and stripping are exact",
  "Among ended tracks, exactly those are kept as modal whose mean frequency lies in the bounds, whose level does not rise in physical time and whose fitted initial level reaches the threshold, in forward and in reversed analysis. An ended track that is kept is merged into an earlier one exactly when, among those separated from its start by at least one empty frame, that one is the closest in frequency by the chosen strategy and within the allowed deviation; merging loses and alters no value, marks the gap as missing and keeps frames aligned. With a strip time, exactly the tracks whose physical onset is not later than it are reported.",
  "histories inputs configurations", "all sequences of tracks, merge strategies, directions and strip times",
  "Tests never build fragmented tracks, gaps or reversed strip cases explicitly.",
  ["sample/sms/mm.py"], [("selection", "ModalTracker.track_ok"), ("merging", "ModalTracker.deactivate"), ("stripping", "ModalTracker.all_tracks_")], ["tracks_, all_tracks_"])

p("C09", "Spectral frames and peaks describe the analysed signal",
  "Every analysis frame covers the documented segment of the (optionally padded or reversed) signal, no full frame is skipped, and its spectrum is the zero-phase windowed transform of that segment in decibels with unwrapped phase. Detected peaks are exactly the strict local maxima above the threshold, refined to the vertex of the parabola through three bins, at most half a bin away and never lower than the bin, with phase read at the refined position. Saved intermediate results contain these frames and peaks one entry per frame.",
  "inputs configurations", "all signals, window lengths, FFT sizes, hops and thresholds",
  "Tests compare with a reference implementation on one sound at default sizes (and that reference needs the network).",
  ["sample/sms/dsp.py", "sample/sms/sm.py", "sample/utils/dsp.py"], [("transform", "dft"), ("peak picking", "peak_detect, peak_refine"), ("framing", "SinusoidalModel.time_frames, pad_input")], ["intermediate storage, module functions"])

p("C10", "Envelope regression returns a feasible and near-optimal hinge fit",
  "For every track envelope the regression returns a knee, slope and intercept inside its declared bounds whose squared error is not worse than that of its own starting point, and it recovers noiseless decaying-then-flat envelopes (including those with no flat part) accurately. The fitted curve equals the line before the knee and stays constant after it. The fit does not depend on the order of the samples, and on noiseless envelopes it follows changes of level and of time unit exactly.",
  "inputs", "all envelopes (time axis, level) including short, constant, unsorted and noisy",
  "Tests recover one fixed hinge.",
  ["sample/hinge.py"], [("bounded least squares", "HingeRegression.fit"), ("model function", "hinge_function")], ["a_, k_, q_, predict()"])

p("C11", "The beat model is the two-partial sum it claims to be",
  "For all amplitudes, frequencies, decays and phases, the modelled amplitude modulation is the exact envelope of the sum of the two damped partials and the carrier driven by the modelled instantaneous frequency reproduces that sum. Instantaneous frequency is the time derivative of the phase of that sum, reported angular frequency and hertz agree, and analytic derivatives agree with finite differences. Constant and time-dependent parameters give consistent results, quantities requested together equal those requested one at a time, and copies of a model compute the same. The carrier is integrated over the given time axis, which starts at zero.",
  "inputs", "all beat parameters and time axes",
  "Tests compare selected quantities at one or two parameter sets.",
  ["sample/beatsdrop/__init__.py"], [("beat equations", "Beat, ModalBeat")], ["am, fm, pm, x, compute()"])

p("C12", "Beat regression is bounded, descends and keeps the best association",
  "On any track the beat regression either declares failure or returns finite parameters that lie within its declared bounds (which contain the initial guess, itself made from the data or by the caller). It never returns a worse fit than its starting point on the amplitude and frequency losses it minimises with the options of the call. Of the two associations between amplitudes and frequencies, the dual regression keeps the one with the smaller squared error unless told otherwise. On clean synthetic beats it almost always recovers the two partials. Sorting parameters keeps each partial together and does not depend on labelling. Predictions equal the beat model evaluated at the fitted parameters, and inputs are never modified.",
  "inputs configurations", "all tracks (pure beats, single partials, noise, constant tracks, gaps)",
  "Tests fit a few fixed beats.",
  ["sample/beatsdrop/regression.py"], [("bounds and initial guess", "BeatRegression"), ("dual fit and disambiguation", "DualBeatRegression")], ["params_, result_, predict()"])

p("C13", "Beat decisions, columns, phases and intermediates stay consistent",
  "A beat-aware fit yields for every track exactly one mode, or the two modes of the beat regression when and only when the decision says beat; the modes keep track order and each mode's starting phase belongs to it, also when invalid modes are dropped. A decision that always says no gives exactly the modes of the ordinary model. Saved intermediate decisions correspond one-to-one to the tracks and explain the number of modes.",
  "inputs histories schedules", "all mixes of beating and non-beating tracks, decision strategies, serial and parallel",
  "Tests fit one beat sound with the default strategy.",
  ["sample/beatsdrop/sample.py", "sample/beatsdrop/decision.py"], [("decision and fallback", "SAMPLEBeatsDROP._fit_track"), ("decision-makers", "BeatDecisor and subclasses")], ["param_matrix_, phases, beat_decisor.intermediate"])

p("C14", "Perceptual scales are monotone and invertible",
  "Each frequency-to-scale conversion (Bark in all its variants, ERB-rate, Mel) is strictly increasing over audible frequencies and is the inverse of its companion conversion in both directions, element-wise for any shape. Loudness weighting is zero decibels at 1 kHz, agrees between linear and decibel outputs, attenuates both extremes as in the standard, and critical bandwidths are positive and consistent with the derivative of their scale. Variants chosen by name use the documented formulas.",
  "inputs configurations", "all audible frequencies, array shapes and scale variants",
  "Tests sample some points per scale with loose tolerances.",
  ["sample/psycho.py"], [("scales", "hz2bark, bark2hz, hz2cams, cams2hz, hz2mel, mel2hz"), ("weighting", "a_weighting, db2phon"), ("bandwidth", "erb")], ["module functions"])

p("C15", "Auditory filters and banks have the declared shape",
  "A gammatone filter's impulse response is the declared function of order, centre frequency, bandwidth, phase, leading time and scale, with unit energy when normalised; its envelope is the modulus of the analytic response, its peak sits at the declared group delay and its declared decay time is where the level has dropped by 60 dB from the peak. The real part of the analytic response is the real response. A filter bank is the ordered collection of these filters at the declared frequencies, its attributes list those of its filters, precomputed responses carry the delays that align them, and copies of filters and banks are equal and independent.",
  "inputs configurations", "all orders, centre frequencies, bandwidths, sampling rates and bank layouts",
  "Tests use one bank with default parameters.",
  ["sample/psycho.py"], [("filter response", "GammatoneFilter"), ("bank", "GammatoneFilterbank")], ["ir(), a(), wavefun(), t60()"])

p("C16", "Cochleagram computation strategies agree",
  "A cochleagram is, row by row, the full convolution of the input with the impulse response of each filter of the bank, aligned in time and post-processed as requested (half-wave rectified by default when real), and it is the same whatever the computation strategy (overlap-add, FFT or direct), whether the bank is given, precomputed or built on the fly, up to floating-point error. With a stride, the result is exactly the decimation of the unstrided one, over its whole length. Rows and centre frequencies returned match the bank, contradictory options are rejected, and the input is never modified.",
  "inputs configurations", "all signals, strides, banks and strategies",
  "Tests compare two strategies on one signal and one stride.",
  ["sample/psycho.py", "sample/utils/dsp.py"], [("cochleagram", "cochleagram"), ("strided convolution", "strided_convolution_complex_kernel")], ["cochleagram() output"])

p("C17", "Mel filterbank and spectrograms conserve and localise energy",
  "Mel filters are non-negative triangles, one at the centre and zero at both edges and beyond, in increasing order, whose corners are evenly spaced on the requested scale inside the requested range (each filter's edges are its neighbours' centres, so that together they add up to one) or have the requested centres and bandwidths. The Mel spectrogram is that bank applied to the requested power of the magnitude of the signal's spectrogram, brought back to magnitude, with frames at the declared times; it scales with the input, and a pure tone peaks in the band that contains it. Requests with no filters are rejected, and inputs are never modified.",
  "inputs configurations", "all signals, bank sizes, frequency ranges and sampling rates",
  "Tests only compare shapes and one default spectrogram.",
  ["sample/psycho.py"], [("triangular bank", "mel_triangular_filterbank"), ("spectrogram", "mel_spectrogram, stft")], ["module functions"])

p("C18", "Evaluation losses are proper distances",
  "Every loss is a real non-negative number, zero for identical signals and symmetric, satisfies the triangle inequality for norms with exponent at least one, and grows as the level of one signal is moved further from the other; the linear part and cochleagram losses scale with the signals. The spectral loss is the norm of the difference of magnitude spectrograms plus the declared weight times that of the floored decibel spectrograms; multi-scale losses are the sum over scales with the options of the call applied to each, and cochleagram losses the norm of the difference of cochleagrams. The result is the same computed serially, in a pool or with parallel jobs and for repeated calls, does not change the inputs, and does not depend on earlier calls nor on sample types.",
  "inputs configurations schedules", "all pairs of signals, norms, scales and worker counts",
  "Tests evaluate fixed pairs with the default settings.",
  ["sample/evaluation/metrics.py"], [("losses", "MultiScaleSpectralLoss, CochleagramLoss, lp_distance")], ["loss values"])

p("C19", "Random beat generation respects its declared distributions",
  "Every generated triplet of partials respects the declared ranges of frequency, beat frequency, Bark distance, decay and amplitude, with the declared total level and distributions; the generated sound is the sum of exactly the returned partials, with noise of the declared level, at the declared sampling rate and duration, down to empty and one-sample sounds. The stream is a function of the seed (or generator) and of the sequence of calls only: generating in bulk or one at a time, repeatedly or interleaved with other generators gives the same values, and global random state is never touched.",
  "inputs histories configurations", "all seeds, sizes and generator options",
  "Tests draw a few samples with one seed.",
  ["sample/evaluation/random.py"], [("generator", "BeatsGenerator")], ["generated parameters and audio"])

p("C20", "Onset detection finds every attack, in order, once",
  "Local maxima are exactly the samples not exceeded within the requested radius in the function or in the given key, excluding borders, and can be combined with previous flags. Spectral flux is the sum over frequencies of magnitude increases between frames. Onsets are exactly the local maxima above both the local average of the normalised detection function by the declared threshold and its decaying envelope, mapped back to one flag per audio sample: gain does not matter, silence has none, and isolated attacks above the noise give exactly one onset close to each.",
  "inputs configurations", "all signals, window settings and selection parameters",
  "Tests detect onsets in one synthetic sound.",
  ["sample/utils/dsp.py"], [("onset detection", "onset_detection, onset_selection, spectral_flux"), ("maxima", "local_maxima")], ["module functions"])

p("C21", "Signal helpers are exact, total and memory-safe",
  "Decibel conversions invert each other and honour scalar or element-wise floors for every finite level; normalisation (by peak, deviation or range) reaches its target exactly and leaves silence finite; frames are exactly the complete windows of the declared size and hop, read-only unless asked, and as views never expose memory outside the input, for any memory layout. Strided convolution with real or complex kernels equals ordinary convolution (valid part) followed by decimation, for every kernel length and stride. Autocorrelation, Lomb-Scargle periodogram, zero-crossing search, detrending, and bin and frequency conversions equal their textbook definition; requests with no answer are rejected.",
  "inputs configurations", "all arrays, shapes, strides, modes, dtypes",
  "Tests cover a few shapes; boundary sizes, strides and modes are not combined.",
  ["sample/utils/dsp.py"], [("conversions", "a2db, db2a"), ("framing", "overlapping_windows"), ("convolution", "strided_convolution, fft variants")], ["module functions"])

p("C22", "Preallocated outputs are honoured everywhere",
  "Any numerical function that accepts an output array (scales, weightings, bandwidths, decibels, normalisation, rectification, hinge, decays, gammatone responses, energies, maxima) writes its complete result into exactly that array and nowhere else, returns that same array, and gives the same values as without it, for every option of the function. Inputs are never modified unless the caller passes the input itself as the output, in which case element-wise functions still give the right values. Results never alias inputs otherwise, scalars give scalars, the result has the declared type, and named variants select the right function or are rejected listing the options.",
  "inputs configurations", "all functions accepting an output array, all options, shapes and dtypes",
  "Tests check outputs only for some functions at default options.",
  ["sample/utils/__init__.py", "sample/psycho.py", "sample/utils/dsp.py", "sample/sample.py", "sample/hinge.py", "sample/beatsdrop/__init__.py"],
  [("output handling", "numpy_out")], ["identity and content of the output array"])

p("C23", "Estimators obey the parameter protocol",
  "For every estimator, parameters set (directly, nested, or at construction) are read back identically, cloning gives an independent equal estimator, and unknown parameters are rejected. Components that are not given get fresh defaults that are never shared between instances, and resetting one to nothing restores its default. Optional storage records exactly what is appended when saving is on, nothing when it is off, and always passes the value through.",
  "histories configurations", "all estimators, all their nested parameters, all sequences of sets, gets, clones and copies",
  "Tests set a few parameters on a few estimators.",
  ["sample/utils/learn.py", "sample/sample.py", "sample/sms/sm.py", "sample/beatsdrop/sample.py", "sample/beatsdrop/regression.py"], [("default components", "default_property"), ("storage", "OptionalStorage")], ["get_params/set_params/clone"])

p("C24", "Old argument names keep working",
  "Every deprecated argument of a public constructor, setter, fit or function has exactly the effect of its documented replacement, wherever it is given, and emits a deprecation warning naming it. Combining several deprecated and current names works like giving the replacements. Current names alone emit no warning, and unknown names are rejected, never silently dropped. Helpers that declare deprecations, default keyword arguments and warning filters do only that: they never alter other arguments, results, the caller's dictionaries or global warning filters.",
  "configurations", "all deprecated names, callables and combinations",
  "Tests use no deprecated name beyond a couple of cases.",
  ["sample/utils/__init__.py", "sample/sample.py", "sample/sms/sm.py", "sample/sms/mm.py", "sample/optimize.py"], [("translation", "deprecated_argument")], ["get_params after construction, warnings"])

p("C25", "Hyper-parameter optimisation evaluates and returns what it says",
  "Every point explored is turned into a valid model configuration (window not longer than the transform, positive hop, integer sizes, inside the declared ranges); what is not explored keeps its value in the given model, which is never modified. The recorded score is the loss between the input and the resynthesis (clipped to the peak of the input if requested) of a model fitted in that configuration. The best result is the minimum of those recorded, the returned model is fitted with it, the same seed gives the same search for the same losses, and a saved state continues without evaluating again nor losing anything. Errors of single evaluations reach the caller. Progress callbacks count every evaluation once.",
  "inputs histories configurations", "all search spaces, points and interruption positions",
  "Tests run a few evaluations once.",
  ["sample/optimize.py"], [("parameter remapping", "sample_kwargs_remapper"), ("optimiser", "SAMPLEOptimizer")], ["loss calls, gp_minimize results"])

p("C26", "Settings typed in the GUI are parsed, applied and survive crashes",
  "Every text a user can type in a setting gives, when applied, a value inside the documented domain of that setting: the number it means (clipped, rounded or raised to a power of two where documented), or the documented default when it means none. No text raises an unhandled error. What is applied reaches the model unchanged, is shown back, does not change when applied again, is saved, and is found identical at the next start. Themes are validated, and the program is reloaded only if the theme changed and the user agreed. Killing a save of the settings or of the audio cache at any point, or failing in it, leaves the old or the new content, never a mixture or a fragment; and whatever the settings file contains (damaged, foreign, older, wrong types) the program starts with parameters in the domain and repairs the file.",
  "inputs crash_points histories", "all strings per setting, all settings files, all interruption points of a save",
  "There are no GUI tests.",
  ["sample/widgets/settings.py", "sample/widgets/userfiles.py", "sample/widgets/utils.py"], [("parsers", "settings"), ("persistence", "UserFile")], ["parsed values, file content"])

p("C27", "Audio loaded, trimmed and exported in the GUI is preserved",
  "Loading a sound file of any supported sample type and number of channels gives its samples as floating point in the nominal range, mixed to mono, at its own sampling rate; when a file cannot be loaded or the dialog is cancelled, what was loaded stays. The trim selection always is a non-empty segment inside the sound, also for silence and for sounds without onsets; automatic, typed and mouse trimming select the segment they were asked for to the sample, the entries agree with it, and that segment is what is played and analysed. Sounds exported or cached by the program are loaded again with the same content.",
  "inputs histories", "all sample formats, channel counts, contents and sequences of trim operations",
  "There are no GUI tests.",
  ["sample/widgets/audioload.py", "sample/widgets/audio.py"], [("loading and trimming", "AudioLoadTab")], ["loaded array, trim state, exported file"])

p("C28", "GUI analysis never runs twice at once and always ends cleanly",
  "However often and whenever the buttons are pressed, also while an analysis refreshes the window, at most one analysis runs at a time, further requests are dropped without blocking, and a new analysis can start after every outcome including errors. An analysis gives the result of an independent fit of the selected segment with the settings then applied, at the rate of the audio; plots, resynthesis and exports show that result in its time and rate. Errors are reported once, raise nothing, and leave no result. The progress shown grows within a phase, a phase starts after a full bar, and a successful analysis ends complete. The launcher restarts the program exactly when it asked to (theme change accepted, reload flag), with the new theme and the same audio, and stops when it is closed, crashes, is killed or cannot start.",
  "schedules fault_sequences histories", "all interleavings of button presses with analysis threads, all failures",
  "There are no GUI tests.",
  ["sample/widgets/analysis.py", "sample/widgets/sample.py", "sample/gui.py"], [("lock", "_non_block_lock"), ("throttled progress", "_GUIFitArgs"), ("reload loop", "gui.run")], ["lock state, callbacks, process starts"])

p("C29", "Plots show the data they are given",
  "Every curve and image drawn by the plotting functions carries exactly the data of the model and signal, once per track, signal or regression, with time in seconds, frequency in hertz and level in decibels (floored as asked), for tracks with gaps, no tracks, one track, one model and reversed analysis, whose time runs backwards in every view; beating tracks are dashed. Regressions are compared on the data that SAMPLE would fit. Plotting never changes the data, models or options it is given, draws on the given axes or figure and no other, and calls back once per signal in order.",
  "inputs configurations", "all fitted models and options",
  "No test inspects what is drawn.",
  ["sample/plots.py"], [("plot functions", "sample/plots.py")], ["matplotlib artists"])

p("C30", "Notebook widgets play and show the right data",
  "The sound of a notebook player, also with several players on a page, is the given one, channel for channel and sample for sample at the given rate, for every supported shape and sample type; the players of a list keep labels and order, clip at full scale and normalise only when asked. The parameter view of a model lists every parameter once, in its section, with the full text of its documentation without markup, and a click opens or closes its own section only. Timers show the time taken by their body in the requested unit and digits. Nothing is modified in the caller's data.",
  "inputs", "all sample arrays, types, shapes and rates",
  "Tests check that a widget object is built.",
  ["sample/ipython.py"], [("encoder", "WebAudio")], ["generated HTML/JS"])

p("C31", "Release tooling is lossless and order-correct",
  "The generated changelog includes every version file exactly once, newest version first by number, by a path that resolves from where it is written; extracting a version gives exactly the text of its file after the title, pre-release suffixes aside. Formatting a notebook changes only code style: code keeps its meaning, magics and shell lines, cells that cannot be parsed or ask to be ignored, outputs, metadata and other cells come back identical in every style, error tags appear only if asked, formatting twice changes nothing more, and dry runs write nothing.",
  "inputs", "all tag sets, changelogs and notebooks",
  "Release scripts have no tests.",
  ["scripts/utils/make_changelog.py", "scripts/utils/extract_changelog.py", "scripts/utils/yapf_nbformat.py"], [("scripts", "scripts/utils")], ["files written"])

p("C32", "Evaluation campaigns are complete, resumable and safe from crashes",
  "An evaluation campaign gives a table with every requested case exactly once, in order, with its own ground truth and estimates, whatever the number of processes, the order in which cases end, the checkpoint period, and how many times it was interrupted and started again. Killed at any point, also while it writes, the next run resumes from its last checkpoint: it computes nothing again that was saved, loses nothing, and leaves no checkpoints or fragments when it is complete. A larger campaign adds cases to a previous one; when told not to resume everything is computed again, reports included. Failing cases are logged with their trace and do not lose the others, and are tried again by the next run. Sounds are saved whole. The reports, rankings, decision tables, posteriors and figures describe the data in the table, not older data.",
  "histories crash_points fault_sequences", "all sequences of runs, interruptions, failures and options",
  "Scripts have no tests.",
  ["scripts/beatsdrop/evaluation.py", "sample/evaluation/random.py"], [("campaign", "scripts/beatsdrop/evaluation.py")], ["tables, checkpoints, logs, sounds and reports written"])

p("C33", "The example and benchmark scripts treat their data faithfully",
  "The example loads any sound file, local or downloaded, as floating point in the nominal range mixed to mono; it analyses exactly the part asked for (given times, the onsets around them, the longest event, or everything), saves that part unchanged, and saves the resynthesis of an independent analysis of it, of the same length and rate, turned down only when it exceeds full scale and clipping is not allowed, never over its input; its progress bar ends complete. The benchmark measures every combination of duration, stride and method exactly once with equivalent statements at the requested rate; interrupted or killed and started again with the same options, it keeps what it had saved and continues without measuring it again; what it draws is the speed-up in its table.",
  "inputs histories crash_points", "all sound files, crop choices, options and interruptions",
  "Scripts have no tests.",
  ["scripts/beatsdrop/example.py", "scripts/cim22/performance.py", "scripts/cim22/cochleagram_setup.py.in"], [("example", "scripts/beatsdrop/example.py"), ("benchmark", "scripts/cim22/performance.py")], ["sounds, tables and images written"])

p("C34", "Results depend on the values of data, not on how they are stored",
  "Every function and estimator that takes arrays gives for equal values the same result however they are stored: one channel of an interleaved recording, a reversed view, a slice of a larger buffer, row- or column-major order, read-only memory, another byte order, unaligned memory; and recordings with integer or single-precision samples give the result of the same values in double precision wherever audio is taken (fits, frames, onset detection, filterbanks, cochleagrams, mel spectrograms, losses). It never changes the data it is given or the memory around them.",
  "inputs", "all arrays, storages and sample types",
  "Tests pass freshly made contiguous arrays of doubles.",
  ["sample/sample.py", "sample/psycho.py", "sample/utils/dsp.py", "sample/utils/__init__.py", "sample/sms/dsp.py", "sample/sms/sm.py", "sample/hinge.py", "sample/beatsdrop/regression.py", "sample/evaluation/metrics.py"], [("functions", "sample/utils/dsp.py")], ["results", "input arrays and surrounding memory"])

p("C35", "Calls are independent of each other, of the process and of other threads",
  "A call of any function, or the use of an object made for it, gives the result it gives as the first call of a fresh process, whatever was called before, on the same or other data (also in the same memory with new content), whatever the caller did with previous results, under any process-wide settings (random state, floating-point error handling, warning filters, print options, plot defaults, working directory), and while other threads use other objects. It leaves no side effects: global random state, warning filters, error handling, plot defaults, open figures, environment, working directory, logging, signal handlers and threads are as before, also when the call fails or is interrupted part way, and analysis, synthesis and plots on given axes write no files, start no processes and open no connections.",
  "histories schedules", "all interleavings of calls, and schedules of threads that use separate objects",
  "Tests call each function once in an ordinary process.",
  ["sample/sample.py", "sample/psycho.py", "sample/utils/__init__.py", "sample/utils/learn.py", "sample/utils/dsp.py", "sample/sms/sm.py", "sample/sms/mm.py", "sample/beatsdrop/__init__.py", "sample/beatsdrop/regression.py", "sample/evaluation/metrics.py", "sample/evaluation/random.py", "sample/plots.py"], [("functions", "sample/utils/__init__.py")], ["results", "process-wide state", "files, processes and sockets"])

if __name__ == "__main__":
  for q in P:
    assert len(q["title"]) <= 80, q["id"]
    print(json.dumps(q))
