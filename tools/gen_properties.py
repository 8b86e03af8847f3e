#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so that the lines stay readable)."""
import json, os
R = "visqol-rs/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook="crate-internal items are reached through `mod verif` (cfg visqol_verif)"):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[(f if "/" in f else R + f) for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=R + b if "/" not in b else b) for a, b in mech],
            observe_at=observe or [], hook_needed=hook)))

prop("C01", "The quality score is always a finite number between 1 and 5",
 "For every vector of per-band similarities, in wideband (scaled and unscaled) and fullband mode, the predicted MOS-LQO is a finite number in [1, 5]. When the mean similarity over the bands is below 0.15 the reported score is exactly 1.0; otherwise the reported score is exactly the one the mode's similarity-to-quality mapping predicts.",
 ["inputs", "configurations"], "all similarity vectors (any real entries), both MOS scalings, any regression model output",
 "Tests check three fixed similarity vectors and a handful of audio files; none comes near the clamps or the 0.15 threshold.",
 ["speech_similarity_to_quality_mapper.rs", "svr_similarity_to_quality_mapper.rs", "visqol.rs", "math_utils.rs"],
 [("clamp(1.0, 5.0) in both mappers", "speech_similarity_to_quality_mapper.rs"), ("similarity-extreme override", "visqol.rs")],
 observe=["SimilarityResult.moslqo", "SimilarityResult.vnsim"])

prop("C02", "Wideband quality never falls when similarity rises; perfect similarity is top",
 "In wideband mode the score depends only on the mean of the band similarities and is a non-decreasing function of that mean. A perfect mean similarity of 1.0 scores 5.0 with the default scaled mapping (within 1e-4) and about 4.156 with the unscaled mapping, and for equal similarities the scaled score is never lower than the unscaled one. Before clamping the score is the published exponential fit 1.155945 + exp(4.685115*(s-0.765523)), times 1.2031409 when scaled.",
 ["inputs", "configurations"], "all pairs of similarity vectors with entries in [-1, 1], both scalings",
 "Monotonicity relates all pairs of inputs; the tests evaluate the exponential at one point.",
 ["speech_similarity_to_quality_mapper.rs", "math_utils.rs"],
 [("exponential fit and FIT_SCALE", "speech_similarity_to_quality_mapper.rs"), ("exponential_from_fit", "math_utils.rs")],
 observe=["predicted quality for a similarity vector"])

prop("C03", "NSIM follows its definition: bounded, symmetric, 1 for identical patches",
 "For any two spectrogram patches of equal shape, the reported per-band mean, per-band standard deviation and overall similarity are those of the NSIM formula (intensity times structure over Gaussian-weighted 3x3 neighbourhoods, C1=0.0001, C3=0.00045, negative variance products treated as zero deviation), and the per-band degraded energy is the band mean of the degraded patch. Swapping the two patches leaves the similarities unchanged, comparing a patch with itself gives similarity 1 in every band, and no similarity exceeds 1 (up to rounding).",
 ["inputs"], "all pairs of patches up to the stated shapes with entries in the range a prepared spectrogram can take",
 "One test compares one pair of patches; symmetry, self-similarity and the bound quantify over all patches.",
 ["neurogram_similiarity_index_measure.rs", "convolution_2d.rs"],
 [("measure_patch_similarity", "neurogram_similiarity_index_measure.rs")],
 observe=["PatchSimilarityResult fields"])

prop("C04", "Neighbourhood filtering is a true 3x3 convolution with replicated edges",
 "Filtering a matrix of any shape with a 3x3 kernel yields a matrix of the same shape in which every cell is the exact kernel-weighted sum (kernel rotated by 180 degrees, i.e. a convolution) of its neighbourhood, where cells outside the matrix take the value of the nearest edge cell. The input matrix is left unchanged and, with a kernel summing to one, a constant matrix maps to itself.",
 ["inputs"], "all matrices up to the stated shapes and all (also asymmetric) 3x3 kernels",
 "The tests convolve one 3x3 example; a wrong edge, a transposed index or a kernel flip for an asymmetric kernel or non-square matrix is not reached.",
 ["convolution_2d.rs"], [("perform_valid_2d_conv_with_boundary", "convolution_2d.rs"), ("add_matrix_boundary", "convolution_2d.rs")],
 observe=["returned matrix"])

prop("C05", "Spectrogram cells are per-frame filter-bank RMS values on the documented grid",
 "A signal of n samples yields exactly 1 + (n - window) / hop frames (hop = window * overlap), and cell (band, frame) is the RMS of that band's filter output, started from rest, over that frame's samples only - so a sample outside a frame never influences it and frames never influence each other. All cells are non-negative, scaling the signal scales every cell by the absolute factor, and a signal shorter than one window is refused with an error naming found and required sample counts.",
 ["inputs", "histories"], "all sample values, signal lengths within the bound, and any earlier use of the same builder",
 "One test compares one recording's spectrogram; frame-boundary and state-leak errors need specific lengths and histories.",
 ["gammatone_spectrogram_builder.rs", "gammatone_filterbank.rs", "analysis_window.rs"],
 [("windows().step_by(hop)", "gammatone_spectrogram_builder.rs"), ("reset_filter_conditions per frame", "gammatone_spectrogram_builder.rs")],
 state=[("filter_conditions_1..4", "state of the four filter stages per band", R + "gammatone_filterbank.rs")],
 observe=["Spectrogram.data", "VisqolError::TooFewSamples"])

prop("C06", "Filter bank realises its difference equation and carries state exactly",
 "Each filtering stage outputs y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2] for all inputs and coefficients, and the final conditions it returns make block-wise filtering identical to filtering the concatenated signal. The filter bank applies the four stages in cascade with each band's own coefficients (gain divided out exactly once), is linear in its input, and after a reset behaves as if new.",
 ["inputs", "histories"], "all coefficients, signals, initial conditions and split points within the bound",
 "One test filters one impulse; block continuity, linearity and band isolation range over all splits and signals.",
 ["signal_filter.rs", "gammatone_filterbank.rs"], [("filter_signal", "signal_filter.rs"), ("apply_filter", "gammatone_filterbank.rs")],
 state=[("filter_conditions_1..4", "state of the four filter stages per band", R + "gammatone_filterbank.rs")],
 observe=["filtered signal", "final conditions"])

prop("C07", "The ERB bands are ordered and cover the requested frequency range",
 "For every sample rate the band centre frequencies lie within [lowest frequency, upper limit], are strictly monotonic and equally spaced on the ERB-rate scale, with the lowest band exactly at the 50 Hz minimum, where the upper limit is 8 kHz for the 21-band speech bank and half the sample rate otherwise, never above half the sample rate. Reported centre frequencies are ascending and row i of a spectrogram belongs to the i-th reported frequency; every filter has a stable pole pair.",
 ["inputs", "configurations"], "all sample rates in the stated range, band counts instantiated",
 "One test compares the coefficients of one configuration.",
 ["equivalent_rectangular_bandwidth.rs", "gammatone_spectrogram_builder.rs"],
 [("calculate_uniform_center_freqs", "equivalent_rectangular_bandwidth.rs"), ("make_filters", "equivalent_rectangular_bandwidth.rs"), ("invert_axis + sort", "gammatone_spectrogram_builder.rs")],
 observe=["SimilarityResult.center_freq_bands", "filter coefficients"])

prop("C08", "The degraded signal's playback level does not matter",
 "Before comparison the degraded signal is multiplied by one constant so that its RMS level equals the reference's; sample count, sample rate and waveform shape are unchanged and the reference is untouched. Hence amplifying or attenuating the degraded signal by any positive factor leaves the level-matched signal unchanged (up to rounding), and silent inputs never turn into non-finite samples.",
 ["inputs"], "all signals up to the stated length, all positive gains, including silence on either side",
 "No test calls the level matching; invariance relates all pairs (signal, gain).",
 ["audio_utils.rs"], [("scale_to_match_sound_pressure_level", "audio_utils.rs")],
 observe=["level-matched signal"])

prop("C09", "Spectrogram preparation: common zero floor, 45 dB dynamic range, no NaN",
 "Preparing a reference and a degraded spectrogram converts every cell to decibels (10*log10 of the magnitude, machine epsilon for zero), raises it to an absolute floor of -45 dB and, in each frame both have, to at most 45 dB below the louder of the two frames' peaks, then subtracts the one common minimum from both. Afterwards every cell is finite and non-negative, the overall minimum over both is 0, and level differences between reference and degraded cells above the floors are preserved.",
 ["inputs"], "all non-negative spectrogram contents (silence included) and frame counts within the bound, equal or unequal on the two sides",
 "Tests cover the dB conversion of one value and floor subtraction on one matrix; the joint per-frame floor is untested.",
 ["audio_utils.rs", "spectrogram.rs"], [("prepare_spectrograms_for_comparison", "audio_utils.rs"), ("raise_floor_per_frame", "spectrogram.rs"), ("convert_to_db", "spectrogram.rs")],
 observe=["Spectrogram.data of both sides"])

prop("C10", "The detected lag maximises the absolute cross-correlation",
 "For any two signals the reported lag is one at which the absolute value of their true linear (zero-padded, not circular) cross-correlation is maximal among all lags from -(m-1) to m-1, m being the longer length, with the sign convention that a degraded signal delayed by d gives lag -d. Ties may go to any of the lags attaining the maximum; a peak that stands out by more than numerical noise (1e-6) is always the one reported.",
 ["inputs"], "all signals up to the stated lengths, equal or unequal",
 "Four tests use four fixed pairs; maximality quantifies over every pair and every competing lag.",
 ["xcorr.rs", "fast_fourier_transform.rs", "fft_manager.rs", "math_utils.rs"],
 [("calculate_best_lag", "xcorr.rs"), ("FFT point-wise product", "xcorr.rs")],
 observe=["lag"])

prop("C11", "FFT sizes are powers of two and the transform round-trips",
 "For every requested length n >= 1 the transform size is the smallest power of two >= n, and at least 32, so no sample is ever cut off. Forward followed by inverse transform returns the original samples (zero-padded), and the forward transform of a signal is its discrete Fourier transform.",
 ["inputs"], "every length up to 2^32 for the size; all sample values for the transform at the sizes stated",
 "The size test samples a few small integers; round trips are tested on fixed vectors.",
 ["math_utils.rs", "fft_manager.rs", "fast_fourier_transform.rs"],
 [("next_pow_two", "math_utils.rs"), ("FftManager", "fft_manager.rs")],
 observe=["FFT size", "transformed samples"])

prop("C12", "Global alignment shifts by the detected lag and changes nothing else",
 "Given the lag between the signals' envelopes, global alignment returns the degraded signal unchanged with lag 0 if the lag is zero or larger than half the reference, with exactly |lag| leading samples removed if it is negative, and with exactly lag zeros prepended if it is positive, and reports lag/sample-rate seconds. Every remaining sample keeps its value and order, the sample rate is kept and the inputs are not modified.",
 ["inputs"], "every lag value, signal contents and lengths within the bound",
 "No test exercises the alignment of one signal to another for arbitrary lags and lengths.",
 ["alignment.rs"], [("globally_align", "alignment.rs")],
 observe=["aligned degraded signal", "lag in seconds"],
 hook="guarded stub point so that the lag can be an arbitrary value (cfg visqol_verif)")

prop("C13", "Align-and-truncate yields equally long, sample-exact segments",
 "After aligning and truncating, the reference and degraded segments cover the same time span sample by sample: for a positive lag both lose exactly the padded lag samples at the start, for a negative lag the reference is cut to the shortened degraded length, and no sample is altered. This holds for every lag and sample rate, without being off by one through rounding of lag * sample-rate, and never panics for equally long inputs.",
 ["inputs", "configurations"], "all lags within half the length, all sample rates in range, lengths within the bound",
 "No test calls it directly; the rounding of lag*rate only fails for particular (lag, rate) pairs.",
 ["alignment.rs"], [("align_and_truncate", "alignment.rs")],
 observe=["truncated pair", "lag"],
 hook="guarded stub point so that the lag can be an arbitrary value (cfg visqol_verif)")

prop("C14", "Voice activity: level threshold with a three-chunk hangover",
 "A chunk is active if and only if its RMS over 16-bit samples is at least 5000. The first two chunks are always reported as voiced, and every later chunk is reported silent if and only if it and both chunks before it are inactive; there is exactly one decision per processed chunk (at least two overall).",
 ["inputs", "histories"], "all 16-bit chunk contents and all activity histories within the bound",
 "Three tests feed three fixed level sequences.",
 ["rms_vad.rs"], [("process_chunk", "rms_vad.rs"), ("get_vad_results", "rms_vad.rs")],
 state=[("results_per_chunk", "raw per-chunk activity", R + "rms_vad.rs")],
 observe=["VAD decision vector"])

prop("C15", "Reference patches are the documented frames, inside the spectrogram",
 "In both modes reference patches are non-overlapping, ascending, one patch length apart starting at frame (patch length / 2 - 1), have exactly the patch length and lie completely inside the reference spectrogram; in wideband mode a patch is used if and only if at least one of its frames has voice activity, decided on the reference normalised by its largest sample in hop-sized chunks that start at sample (patch length / 2 - 1). In fullband mode the first patch is always used and a later one starting at frame p if and only if p + 1 + patch length is below the spectrogram length. A reference spectrogram too short for one patch is refused with an error naming the found and the really required length (patch length plus its half; one frame less in wideband mode) - never a panic, never a truncated patch.",
 ["inputs", "configurations"], "all spectrogram lengths up to the bound, any voice-activity pattern, all signal lengths consistent with the spectrogram",
 "Tests cover one long recording; the short-signal boundary lengths are never reached.",
 ["vad_patch_creator.rs", "image_patch_creator.rs", "patch_creator.rs"],
 [("create_ref_patch_indices", "vad_patch_creator.rs"), ("create_ref_patch_indices_from_spectrogram", "image_patch_creator.rs")],
 observe=["patch indices", "patches", "VisqolError::ReferenceSpectrogramTooSmall"])

prop("C16", "Patch matching is order preserving, within the window and optimal",
 "Matched degraded patches appear in strictly increasing time order with the reference patches, each within the search radius (in patches) of its reference position and starting inside the degraded spectrogram, and the total similarity of the chosen assignment is the maximum over all such assignments, where any reference patch except the first may be left unmatched (then reported with similarity and band means 0 and times 0). Similarities are taken to be positive and the radius at least one patch. Reported times are frame index times frame duration, with end = start + patch duration.",
 ["inputs"], "all similarity tables (every value the comparison of patch i with offset j may take), patch counts, spectrogram lengths and radii within the bound",
 "Three tests use three hand-made spectrograms; optimality quantifies over all similarity tables and all competing assignments.",
 ["comparison_patches_selector.rs"], [("dynamic programme and back-trace", "comparison_patches_selector.rs")],
 state=[("cumulative_similarity_dp / backtrace", "best cumulative similarity ending at an offset, and the predecessor", R + "comparison_patches_selector.rs")],
 observe=["PatchSimilarityResult times and similarity"],
 hook="guarded stub point for the patch comparison so that similarities are arbitrary values (cfg visqol_verif)")

prop("C17", "Mismatched lengths end in an error or a shorter match, never a crash",
 "For any number of reference patches (including none) and any reference/degraded length ratio (degraded spectrogram of at least one frame), patch matching either returns one result per kept reference patch - the kept ones being exactly the leading patches whose start is no more than half a patch beyond the degraded signal's end - or, when none can be kept, the signals-too-different error. It never panics.",
 ["inputs"], "all patch index lists, degraded lengths and patch sizes within the bound",
 "The tests' signal pairs have nearly equal lengths; a single patch, no patch or a very short degraded signal is never tried.",
 ["comparison_patches_selector.rs", "visqol.rs"], [("calc_max_num_patches", "comparison_patches_selector.rs"), ("VisqolError::SignalsTooDifferent", "visqol_error.rs")],
 observe=["Result of patch matching"],
 hook="guarded stub point for the patch comparison (cfg visqol_verif)")

prop("C18", "Time slicing is sample exact and zero-pads outside the signal",
 "Cutting [start, end) seconds out of a signal (start not after the signal's end, end not before its beginning) returns, for all boundaries that fall on samples, exactly the samples from start*rate to end*rate, with zeros for every requested sample after the signal's end or before its beginning, so the result always has (end-start)*rate samples. Building a degraded patch at any frame offset returns exactly the requested frames with zero frames beyond the spectrogram's end.",
 ["inputs"], "all sample contents, offsets and lengths within the bound",
 "One test cuts one interval inside a long signal.",
 ["comparison_patches_selector.rs"], [("slice", "comparison_patches_selector.rs"), ("build_degraded_patch", "comparison_patches_selector.rs")],
 observe=["sliced signal", "degraded patch"])

prop("C19", "Fine realignment never makes a patch worse and keeps its times consistent",
 "For every matched patch pair, fine time alignment returns either the coarse result unchanged or a realigned result whose similarity is at least the coarse one, in which the start of the leading side is shifted by exactly the detected lag and both end times equal start plus the realigned duration. Unmatched patches pass through untouched, and the number and order of patches is kept.",
 ["inputs"], "every coarse similarity, every fine similarity, every lag within the bound",
 "End-to-end tests reach this only with real recordings and compare just the final score.",
 ["comparison_patches_selector.rs", "alignment.rs"], [("finely_align_and_recreate_patches", "comparison_patches_selector.rs")],
 observe=["PatchSimilarityResult similarity and times"],
 hook="guarded stub points for patch comparison and lag (cfg visqol_verif)")

prop("C20", "Per-band statistics in the result are the stated aggregates of all patches",
 "The reported per-band similarity and degraded energy are the arithmetic means over all patches, the reported overall similarity is the mean of the per-band similarities, and the reported per-band deviation is the pooled standard deviation over the patches' frames (zero when rounding makes the variance negative). Every patch counts, once, and each band only from its own values.",
 ["inputs"], "all per-patch statistics, 1..4 patches, band counts within the bound",
 "Only the final score of a few recordings is asserted; the statistics themselves are not.",
 ["visqol.rs", "similarity_result.rs"], [("calc_per_patch_mean_*", "visqol.rs")],
 observe=["SimilarityResult.fvnsim, fstdnsim, fvdegenergy, vnsim"])

prop("C21", "WAV loading: 16-bit PCM becomes normalised mono, anything malformed is an error",
 "A 16-bit PCM WAV file with any number of channels loads as one sample per frame, equal to the mean over the channels of sample/32767, with the file's sample rate. A file that is not 16-bit, is truncated, or whose header is corrupt yields an error value - never a panic.",
 ["inputs", "fault_sequences"], "all sample values, channel counts and header/truncation corruptions within the bound",
 "Tests load four intact files (two with other bit depths).",
 ["wav_reader.rs", "audio_utils.rs", "math_utils.rs"], [("WavFile::open", "wav_reader.rs"), ("load_as_mono", "audio_utils.rs")],
 observe=["AudioSignal", "Result::Err"])

prop("C22", "Incomparable inputs are refused: sample rates must match",
 "Comparing two files succeeds in reaching the analysis only if their sample rates are equal; otherwise the comparison is refused with an error carrying both rates, in the right roles, before any signal processing. A mere difference in duration is never a reason for refusal by this validation, and signals too short, or sampling rates too low, for the analysis give an error, not a panic.",
 ["inputs", "configurations"], "all pairs of sample rates, lengths and contents within the bound",
 "No test feeds two different sample rates.",
 ["visqol_manager.rs", "visqol_error.rs"], [("validate_input_audio", "visqol_manager.rs")],
 observe=["VisqolError::DifferentSampleRates", "Result of a run"])

prop("C23", "Results do not depend on earlier comparisons or modify the inputs",
 "Running a comparison on an analyser that has processed any other signals before gives bit-for-bit the same spectrograms, patches and voice-activity decisions as a fresh one. A patch comparison leaves both patches unchanged, so candidates shared between searches are never corrupted.",
 ["histories", "inputs"], "any preceding call with arbitrary contents, length and sample rate within the bound",
 "Every test starts from a fresh object; batch mode reuses one object for many file pairs.",
 ["gammatone_spectrogram_builder.rs", "gammatone_filterbank.rs", "vad_patch_creator.rs", "neurogram_similiarity_index_measure.rs", "visqol_manager.rs"],
 [("reset_filter_conditions / set_filter_coefficients in build", "gammatone_spectrogram_builder.rs")],
 state=[("filter conditions and coefficients", "persist in the manager's spectrogram builder", R + "gammatone_filterbank.rs")],
 observe=["Spectrogram", "patch matrices"])

prop("C24", "Each mode uses its own documented analysis parameters",
 "Wideband comparisons use 20-frame voiced patches and the exponential speech mapping (scaled to 5.0 unless unscaled mapping is requested), fullband comparisons 30-frame patches over the whole signal and the support-vector mapping; both analyse 80 ms windows with 25 % hop from 50 Hz upwards, and search the configured radius.",
 ["configurations"], "all modes, mapping flags, search radii and sample rates",
 "The unit tests build each component by hand with explicit sizes and never look at what the manager configures.",
 ["visqol_manager.rs", "constants.rs", "analysis_window.rs"], [("VisqolManager::new", "visqol_manager.rs"), ("AnalysisWindow::new", "analysis_window.rs")],
 observe=["patch indices, window size and mapping of a manager"])

prop("C25", "Fullband quality is the trained support-vector regression, order preserving",
 "For every similarity vector, the fullband score before clamping is the model's regression value: the coefficient-weighted sum of radial-basis kernels between the similarity vector and each support vector, minus rho, with feature i of the vector being band i. The prediction does not depend on earlier predictions.",
 ["inputs", "histories"], "all similarity vectors with entries in [0, 1] for small models of the file format",
 "One test checks one vector against the shipped model.",
 ["support_vector_regression_model.rs", "svr_similarity_to_quality_mapper.rs"], [("predict", "support_vector_regression_model.rs")],
 observe=["predicted quality"])

prop("C26", "Batch runs and result files keep one complete record per file pair",
 "The command line accepts either a reference/degraded pair (both required) or a batch list, evaluates every listed pair in order, and writes one CSV row and one JSON record per pair, each attributable to its pair.",
 ["inputs", "configurations"], "all argument combinations and batch lists",
 "One test reads one batch file; the output writers have no test.",
 ["visqol/src/main.rs", "visqol/src/output_utils.rs", "visqol/src/command_line_utils.rs"],
 [("clap argument declarations", "visqol/src/command_line_utils.rs"), ("write_debug_json / write_results_to_csv", "visqol/src/output_utils.rs")],
 observe=["CSV, JSON and console output"], hook=None)

ids = [p["id"] for p in P]; assert len(ids) == len(set(ids))
for p in P: assert len(p["title"]) <= 80, p["title"]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
open(out, "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
