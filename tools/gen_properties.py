#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []

def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": hook}})

SIG = "sumpf/_data/_signals/_signal.py"; SPE = "sumpf/_data/_spectrums/_spectrum.py"
SPG = "sumpf/_data/_spectrograms/_spectrogram.py"; SD = "sumpf/_data/_sampled_data.py"
FIL = "sumpf/_data/_filters/_base/_filter.py"; TERMS = "sumpf/_data/_filters/_base/_terms"
PER = "sumpf/_internal/_persistence"

prop("S01", "Arithmetic combines data sets at equal positions",
     "When two signals, spectrums or spectrograms (or a spectrogram and a signal or spectrum) are combined with + - * / ** or %, every result sample equals that operation on the operands' samples at the same channel and the same absolute time/frequency position, with a single-channel operand applied to every channel of the other one. "
     "Positions covered by only one operand hold that operand's value (negated for the right operand of a difference, reciprocal for the right operand of a quotient), positions between the operands hold zero, and the result spans exactly from the earliest to the latest covered time position. "
     "A number or array on either side is combined sample-wise, and the result keeps the sampling rate/resolution of the left data set (a spectrogram combined with a signal or spectrum keeps the spectrogram's) and, with a number or array, also the offset and labels. "
     "A spectrogram and a spectrum with another number of frequencies raise a ValueError, a signal and a spectrum a TypeError.",
     ["inputs", "programs"],
     "all pairs of data sets with any channel counts, lengths, offsets (overlapping, contained, touching, disjoint, in both orders), all operators, both operand orders, all operand type combinations",
     "The tests sample a few hand-made shapes for each branch with small integer data; the case analysis has dozens of shape/offset/channel-count/operand-order branches, and only a few of them are ever executed with distinguishable sample values.",
     [SD, SIG, SPE, SPG], [("shape-dependent broadcasting helpers", SIG + ", " + SPG), ("right-hand operators", SD)],
     observe=["channels(), offset(), labels(), sampling_rate(), resolution() of operator results"])

prop("S02", "Operations never modify the objects they work on",
     "Signals, spectrums, spectrograms and filters behave as immutable values: after any public operation (operators, methods, slicing, saving, converting, being added to a processing block, being passed as an argument), every object that existed before still has bit-identical samples and unchanged meta data, and arrays, mappings or lists passed in by the caller are unmodified. "
     "The result of an operation depends only on the content of its operands and arguments: repeating it gives the same result, also after other operations (such as the same method with other parameters) have been done with the same objects, and also when several threads operate on the same objects at the same time.",
     ["programs", "histories", "schedules"],
     "any sequence of public operations on shared objects, from any number of threads",
     "Tests check results, never the operands after the call; aliasing (slices and offset shifts share memory, in-place numpy tricks with out=) shows only for specific operation sequences.",
     [SIG, SPE, SPG, FIL, TERMS, "sumpf/_data/_signals/_sweep.py", "sumpf/_internal/_functions.py"],
     [("in-place numpy operations with out= on freshly allocated arrays", "all of sumpf/_data"), ("shared memory allocation", "sumpf/_internal/_functions.py")],
     observe=["digests of all live objects before and after each public call"])

prop("S03", "Slicing, padding and shifting keep samples at their time positions",
     "Slicing a signal or spectrogram with integers, floats between 0 and 1 (fractions of the length), negative indices or open/over-long ranges selects the same samples and channels as slicing the sample array, and the result's offset and labels are such that each selected sample keeps its original time position and channel label. "
     "Padding keeps the existing samples in place and appends the given value or crops the end; shifting by offset changes only the offset, cropping shifts move the samples and fill with zeros, padding shifts lose no sample (zeros are prepended, or appended for negative shifts), cyclic shifts rotate (the known finding for shifts beyond the length aside). "
     "Reversing reverses the order of the samples, mirrored around the zero point in time (the known finding for the sign of the resulting offset aside).",
     ["inputs"], "all data sets, all slice bounds and key shapes, all shift amounts (also beyond the length) and modes",
     "Tests use a fixed handful of slices; boundary cases (bounds beyond the length, negative fractions, whole-length shifts) are not asserted.",
     ["sumpf/_internal/_indexing.py", SIG, SPE, SPG, "sumpf/_internal/_functions.py"],
     [("key conversion", "sumpf/_internal/_indexing.py"), ("offset computation in slicing", SIG)],
     observe=["time_samples(), channels(), labels(), offset()"])

prop("S04", "Equality, hashing and textual representation agree with content",
     "Two data sets or filters compare equal exactly when they are of the same kind and their samples/transfer functions, labels, sampling rate or resolution, and offset are equal; comparing objects of different shape or kind yields False instead of an error, and != is always the negation. "
     "Equal data sets have equal hashes. "
     "Evaluating the textual representation of a signal, spectrum, spectrogram, filter or bands filter with finite samples reproduces an equal object (a filter's unsimplified expression may come back simplified, which is a known finding).",
     ["inputs"], "all pairs of objects differing in any single aspect or none; all objects whose representation is evaluated, with any length, dtype, labels and nesting of transfer functions",
     "Tests compare a few pairs that differ in one aspect; equality of deeply nested transfer functions and representations of large or unusual arrays are not covered.",
     [SD, SIG, SPE, SPG, FIL, TERMS, "sumpf/_data/_filters/_bands.py"],
     [("__eq__/__hash__/__repr__", "all data classes")], observe=["==, !=, hash(), repr()"])

prop("S05", "Fourier transform and its inverse are faithful",
     "The spectrum of a signal equals the discrete Fourier sum of its samples taken at their true time positions (so the offset appears as a linear phase), with frequency resolution sampling rate/length. "
     "The inverse transform equals the inverse Fourier sum, transforming an even-length signal forth and back reproduces samples, sampling rate and labels, both directions are linear, and the level computed from samples and from the spectrum agree. "
     "Inverting a signal yields the signal whose circular convolution with the original is a unit impulse.",
     ["inputs"], "all lengths (odd, even, one, empty), offsets of either sign, channel counts and sampling rates",
     "Tests use hypothesis round trips on well-behaved signals, and a few known transforms without offsets; odd lengths and offset phases at every bin are not compared to a definition.",
     [SIG, SPE], [("full transform with group delay compensation", SIG), ("inverse transform", SPE)],
     observe=["fourier_transform(), inverse_fourier_transform(), ~signal"])

prop("S06", "Block-wise and short-time transforms account for every sample",
     "A short-time Fourier transform equals the windowed discrete Fourier transform of each segment at its true time position, and transforming back with the same window and overlap reconstructs the signal for every window/overlap pair that permits it, at the right time position. "
     "A block-wise Fourier transform equals the scaled sum of the windowed segments' Fourier sums taken at their true times, for every signal length, offset, window, overlap and padding choice, with every sample of the signal contributing when padding is enabled.",
     ["inputs", "configurations"], "all signal lengths relative to the window (shorter, equal, longer, not a multiple), all windows (integer, array, signal, multi-channel), overlaps (integer, fraction, negative), padding on/off, offsets",
     "Tests compare a few configurations against the very same scipy call or only at zero offset.",
     [SIG, SPG, "sumpf/_internal/_functions.py"], [("segment loops with partial blocks", SIG), ("window creation and scaling", "sumpf/_internal/_functions.py")],
     observe=["fourier_transform(window=...), short_time_fourier_transform(), inverse_short_time_fourier_transform()"])

prop("S07", "Convolution and correlation are correct and correctly placed in time",
     "For every mode, convolving (correlating) two signals or a signal and an array gives the mathematically defined convolution (cross-correlation) samples of the corresponding channels - complete, central, fully overlapping or circular part, depending on the mode - and an offset that places each sample at its true time (lag). "
     "A single-channel operand is combined with all channels of the other one, otherwise the channels are combined pairwise; the padded frequency-domain mode agrees with the full time-domain mode.",
     ["inputs", "configurations"], "all modes, all length pairs (equal, shorter, longer, odd, even, one), channel count pairs, offsets, operand types",
     "Tests compute their references with the library's own transforms and shift functions, with the same index arithmetic as the implementation, and assert offsets by copies of the implementation's formulas.",
     ["sumpf/_internal/_convolution.py", SIG], [("mode-specific padding, cycling and offset arithmetic", "sumpf/_internal/_convolution.py")],
     observe=["convolve(), correlate()"])

prop("S08", "Levels and statistics match their definitions",
     "The level (root mean square), mean, (population) variance and standard deviation, skewness and excess kurtosis of a signal, per channel or for all samples, equal their textbook definitions; the level of a spectrum equals the level of the corresponding signal. "
     "The time dependent level of a signal is, at each sample, the root mean square over the integration interval centred on that sample (with partially covered edge samples weighted by their coverage), with the interval clipped to the signal or zero-extended as requested.",
     ["inputs"], "all signals, lengths, integration times relative to the length, padding choices",
     "Tests use constant signals or check only a few positions; edge weighting, long integration times and odd lengths are sampled sparsely.",
     [SIG, SPE], [("level_vs_time window construction", SIG), ("spectrum level", SPE)], observe=["level(), level_vs_time(), mean(), variance(), ..."])

prop("S09", "Filter algebra is pointwise algebra of transfer functions",
     "For any filters a and b and any number c, evaluating a+b, a-b, a*b, a/b, ~a, abs(a), -a, and the same with c on either side at any frequency gives that operation on the individual evaluations at that frequency, channel by channel with single-channel broadcasting, no matter how deeply expressions are nested, simplified or combined with lowpass-to-highpass transformed parts (apart from the known finding for sums of transformed and untransformed terms at exactly 0 Hz; bands filters with the same supporting points, interpolation and extrapolation are combined by their values). "
     "Evaluating a filter at a scalar, at an array of frequencies or by sampling a spectrum gives identical values.",
     ["programs", "inputs"], "all expression trees over the primitive transfer functions with and without the lowpass-to-highpass transformation, all frequencies including zero, all channel counts",
     "Tests check each operator once on simple operands; the term simplifications interact in combinations (transform flags, zero/one constants, nesting) that are never evaluated.",
     [FIL, TERMS, "sumpf/_data/_filters/_base/_s.py"], [("term simplification and factories", TERMS), ("frequency transformation", "sumpf/_data/_filters/_base/_s.py")],
     observe=["filter(frequencies), filter.spectrum()"])

prop("S10", "Standard filters have the textbook frequency responses",
     "Butterworth, Bessel, Chebyshev type 1 and 2 filters of any order, cutoff frequency, ripple and lowpass/highpass choice have the complex frequency response of the corresponding analog prototype (Chebyshev 1 lowpasses of even order have a gain of one at 0 Hz, Bessel filters are normalised by their group delay); delay and derivative filters have the responses exp(-j*2*pi*f*t) and j*2*pi*f. "
     "The A, B, C, D and U weighting filters have their standardized responses, being 0 dB at 1 kHz.",
     ["inputs", "configurations"], "all orders, cutoff frequencies, ripples, frequencies over the whole axis, both filter types",
     "Tests compare magnitude at a few frequencies or orders; phase and high orders are not covered.",
     ["sumpf/_data/_filters/_butterworth.py", "sumpf/_data/_filters/_bessel.py", "sumpf/_data/_filters/_chebyshev.py", "sumpf/_data/_filters/_weighting.py", "sumpf/_data/_filters/_delay.py", "sumpf/_data/_filters/_derivative.py"],
     [("second-order section coefficients", "sumpf/_data/_filters/_*.py")], observe=["filter(frequencies)"])

prop("S11", "Applying a filter equals multiplying by its sampled response",
     "Multiplying a filter with a spectrum or spectrogram, on either side, multiplies every frequency bin of every channel (and time frame) by the filter's response at that bin's frequency, with the resolution and time axis preserved. "
     "Multiplying a filter with a signal, on either side, of even length filters it accordingly in the frequency domain while samples stay at their true time positions (up to circularity). "
     "Filter and data have equal channel counts or one of them has a single channel. "
     "Sampling a filter gives the response at each multiple of the requested resolution.",
     ["inputs", "configurations"], "all filters (also multi-channel), data sets of any length, resolution, offset and channel count, both operand orders",
     "Tests filter one or two data sets per kind with single-channel filters.",
     [FIL, SPG, SPE], [("conversion of the filter to the data set's frequency axis", FIL)], observe=["filter * data, data * filter, filter.spectrum()"])

prop("S12", "Bands filters interpolate and extrapolate as specified",
     "A bands filter returns exactly the specified value at each supporting frequency, between them the value given by the selected interpolation (zero, one, linear, logarithmic, half-logarithmic, nearest), and outside of them the value of the selected extrapolation, for scalar and array frequencies, in any order (logarithmic interpolations are defined for positive values and frequencies, exactly in the middle between two supporting points either one is the nearest). "
     "Converting to decibels and back restores the band values; both conversions act on each band and keep frequencies, labels and interpolation settings.",
     ["inputs", "configurations"], "all band sets, all interpolation/extrapolation pairs, all frequencies and their orderings, all channel counts with per-channel settings",
     "Tests check a few fixed points per interpolation function.",
     ["sumpf/_data/_filters/_bands.py", "sumpf/_internal/_interpolation.py", TERMS + "/_primitive.py"], [("interpolation functions", "sumpf/_internal/_interpolation.py"), ("range split", TERMS + "/_primitive.py")],
     observe=["bands(frequencies), to_db(), from_db()"])

prop("S13", "Saved signals are restored",
     "Saving a signal to a file and loading it restores the samples of every channel in order and the sampling rate: bit-exactly, including offset and labels, for JSON, NPZ and pickle files, with exact samples and a sampling rate and offset up to rounding for CSV and NPY files (with two samples or more; NPY files contain no labels), and within the quantization step of the stored sample format for audio formats; channels of files without labels are labelled with the file's name and the channel number. "
     "Explicitly chosen formats are honoured, the automatic choice depends on the file name's ending, overwriting an existing file leaves nothing of it behind, and a failed save or load (missing, foreign or damaged files, unwritable paths, a full disk for the formats that SuMPF itself writes) raises an error instead of returning wrong data; truncated CSV and audio files may be read as far as they go.",
     ["inputs", "configurations", "fault_sequences"], "all signals, all formats available in the environment, arbitrary file names, existing files, truncated or foreign files",
     "Tests save one signal per format with friendly sample values and default names.",
     [PER, SIG], [("format writers/readers", PER)], observe=["save(), load()"])

prop("S14", "Saved spectrums and spectrograms are restored",
     "Saving a spectrum or spectrogram to a file and loading it restores an equal object - samples (complex and real), resolution, sampling rate, offset and labels - for every file format that stores all of this data; channels of files without labels are labelled with the file's name and the channel number. "
     "This holds for any channel count, length and label content, also when an existing file is overwritten.",
     ["inputs", "configurations"], "all spectrums and spectrograms, all formats available",
     "Tests save one instance per format.", [PER, SPE, SPG], [("format writers/readers", PER)], observe=["save(), load()"])

prop("S15", "Saved filters are restored",
     "Saving a filter to a file and loading it restores a filter with the same labels and, at every frequency, the same response in each channel, for every transfer function expression and every lossless format; bands filters are restored with their bands and, where the format stores them, their interpolations. "
     "Tables of band values written by other programs in the documented layouts are read with the values as written.",
     ["inputs", "configurations", "programs"], "all transfer function expressions including transformed, nested and complex valued ones, all bands, all formats and table layouts",
     "Tests save a fixed list of filters; nested and transformed terms and unusual numbers in tables are not covered.",
     [PER, FIL, TERMS], [("dict serialization of terms", TERMS), ("table regular expressions", PER + "/_filter_readers.py")], observe=["save(), load()"])

prop("S16", "Merging reflects exactly the current inputs",
     "After any history of adding, replacing and removing data sets and changing the mode, the merged signal, spectrum, spectrogram or filter contains exactly the channels and labels of the currently added data sets, in the order defined by the mode (data set by data set in order of addition, or first channels first), each at its own time or frequency position with zeros elsewhere. "
     "Meta data, that all data sets share, is taken from the first one; data sets of different types raise an error instead of being merged wrongly.",
     ["histories", "inputs"], "all histories of add/replace/remove/set-mode interleaved with reads, for all data types and differing shapes and offsets",
     "Tests run short fixed scripts.", ["sumpf/_blocks/_merge.py"], [("merge strategies", "sumpf/_blocks/_merge.py")],
     state=[("input collection", "ordered mapping of added data sets", "sumpf/_blocks/_merge.py")], observe=["output() after each history step"])

prop("S17", "Concatenation reflects exactly the current inputs in order",
     "After any history of adding, replacing and removing data sets, the concatenated signal or spectrogram starts each data set where the previous one ended plus its own offset: every sample of every input appears at its position, overlapping samples are added, gaps are zero, and the total start and length cover exactly all inputs. "
     "The sampling rate of the first data set and complex values are preserved, the channels are labelled \"Concatenation 1\", \"Concatenation 2\" and so on, a single data set is returned unchanged, and data sets of different types raise an error.",
     ["histories", "inputs"], "all histories of add/replace/remove interleaved with reads, all lengths, offsets and channel counts",
     "Tests run short fixed scripts with offset-free data.", ["sumpf/_blocks/_concatenate.py"], [("concatenation index arithmetic", "sumpf/_blocks/_concatenate.py")],
     state=[("input collection", "ordered mapping of added data sets", "sumpf/_blocks/_concatenate.py")], observe=["output() after each history step"])

prop("S18", "Audio playback and recording are sample-exact",
     "When a signal is played back and recorded through the audio server, every sample of every playback channel is sent exactly once and in order to its output port, followed by silence, and the recorded signal contains exactly the received samples in order, with the playback signal's length, for every signal length in relation to the server's block size. "
     "Repeated runs, changed signals, port names and connections do not leak samples from one run into another: connections belong to the channel and survive the (automatic) deactivation and the replacement of ports, changing the signal waits for a running recording, and lost samples are reported with their number, position and delay.",
     ["inputs", "schedules", "histories"], "all signal lengths relative to the block size, channel counts, sequences of runs and port changes",
     "Tests need a server and use few lengths with one fixed block size.", ["sumpf/_blocks/_jack.py"], [("process callback", "sumpf/_blocks/_jack.py")],
     state=[("playback index", "position of the next block", "sumpf/_blocks/_jack.py")], observe=["port buffers, output signal"])

prop("S19", "Sweeps follow their frequency law and pair with their inverses",
     "The phase of a linear or exponential sweep (or inverse sweep) advances according to its reported instantaneous frequency, which passes the start and the stop frequency at the bounds of the given interval, for short and long signals alike; minimum and maximum frequencies are those reached between the signal's first sample and the end of its last one. "
     "Convolving a sweep with its inverse gives a unit impulse at time zero within the excited band. "
     "The harmonic impulse responses cut from a measured response contain the delayed part that belongs to the requested harmonic.",
     ["inputs", "configurations"], "all lengths (also beyond the thresholds where another computation path is used), intervals, phases, frequency ranges, harmonics",
     "Tests use few parameter sets and compare with the same formula.", ["sumpf/_data/_signals/_sweep.py"], [("sweep parameter computation", "sumpf/_data/_signals/_sweep.py")],
     observe=["channels(), instantaneous_frequency(), harmonic_impulse_response()"])

prop("S20", "Window functions match their definitions and metrics",
     "Each window has the samples of its mathematical definition for any length, in the symmetric variant or the periodic one (one sample longer and cropped), with a plateau of the requested number of ones in the middle between the window's two halves (one more, if the remaining samples cannot be divided equally). "
     "The scaling factor, amplitude and power flatness, overlap correlation, recommended overlap, scalloping loss and bandwidth equal their definitions, for integer and fractional overlaps, and for arrays of overlaps.",
     ["inputs", "configurations"], "all window types and parameters, lengths, plateaus, overlaps",
     "Tests compare few lengths and metrics.", ["sumpf/_data/_signals/_windows.py", "sumpf/_data/_signals/_windows_scipy.py"], [("window base class", "sumpf/_data/_signals/_windows.py")],
     observe=["channels() and metric methods"])

prop("S21", "Synthetic signals have their specified samples and are reproducible",
     "Seeded noise signals, maximum length sequences and constant-magnitude noise spectrums are reproduced exactly by the same parameters, independently of anything else the process computes, and their samples follow the requested distribution; a maximum length sequence is two-valued, periodic with 2^n-1 samples and has the ideal periodic autocorrelation. "
     "Sine and square waves, constants and fades have the samples that their frequency, phase, value and rise/fall intervals specify, including overlapping, nested and reversed fade intervals given as integers, fractions or negative indices (the gains of overlapping fades are multiplied if the fade in starts first, and added otherwise).",
     ["inputs", "configurations", "histories"], "all generator parameters, lengths and seeds",
     "Tests check determinism of some and statistics of others for a few parameters.",
     ["sumpf/_data/_signals/_noise.py", "sumpf/_data/_signals/_mls.py", "sumpf/_data/_signals/_waves.py", "sumpf/_data/_signals/_fade.py", "sumpf/_data/_signals/_constant.py", "sumpf/_data/_spectrums/_rudinshapiro.py", "sumpf/_data/_spectrums/_constant.py", "sumpf/_data/_spectrograms/_constant.py"],
     [("generators", "sumpf/_data/_signals")], observe=["channels() and parameter getters"])

prop("S22", "Energy decay curves and reverberation times are physical",
     "The energy decay curve of an impulse response equals, at each sample, the backward-integrated energy (sum of squared samples) from that sample to the end, so that it starts with the total energy, never increases, and keeps the channels, offset, sampling rate and labels. "
     "The reverberation time derived from it is the time for a decay of 60 dB of the straight line that is fitted to the logarithmic decay between the given start and stop samples, so that an exponentially decaying response yields its true reverberation time.",
     ["inputs"], "all impulse responses, lengths, channel counts, decay rates and evaluation ranges",
     "Tests check one synthetic decay.", ["sumpf/_data/_signals/_energy_decay.py"], [("backward integration", "sumpf/_data/_signals/_energy_decay.py")], observe=["channels(), reverberation_time()"])

prop("S23", "Loading depends only on the file, not on history",
     "What a load returns, or whether it fails, depends only on the content and name of the file: it is not affected by which files have been loaded or saved before, by earlier failures, by wrong or upper-case file name endings, or by simultaneous loads and saves of other files in other threads. "
     "A file whose content is of another supported format than its ending suggests is still read or is rejected with the documented error; unreadable files are rejected with the documented error. "
     "What a save writes, including the automatically chosen format, depends only on the data, the format and the file name.",
     ["histories", "fault_sequences", "schedules"], "all sequences of saves and loads of mixed formats, endings and data types, with failures in between",
     "Tests load each file once in a fresh order.", [PER], [("reader cache and fallback order", PER)],
     state=[("reader/writer cache", "instances found for endings and formats", PER)], observe=["load()/save() results over long histories"])

prop("S24", "Axes, accessors and derived data are consistent",
     "Time samples are (index+offset)/sampling rate, frequency samples are index*resolution, durations and maximum frequencies, magnitude, phase, real and imaginary parts, conjugates, inverses, negatives and absolutes of signals, spectrums and spectrograms equal their definitions sample by sample, and all keep labels, shape, offset and axis parameters. "
     "Labels always match the number of channels: missing ones are empty and surplus ones are dropped.",
     ["inputs"], "all data sets with any offset, length, channel count, labels and sample values",
     "Tests check some accessors on a few instances.", [SD, SIG, SPE, SPG, "sumpf/_internal/_functions.py"], [("accessors", "sumpf/_data")], observe=["accessor results"])

prop("S25", "Optional libraries change only availability, not results",
     "Without the optional libraries the package imports, everything that does not need them works and gives the same results as with them (in particular numerically evaluated sweeps and stored files), and features that need them fail with an explicit error at use; a library whose native part is missing counts as missing. "
     "Data written with one set of installed libraries can be read with another whenever the format is supported there.",
     ["configurations", "inputs"], "all subsets of missing optional libraries, over a workload that covers all parts of the package",
     "Tests only check the import with all optional libraries missing.", ["sumpf/_data/_signals/_sweep.py", PER, "sumpf/_blocks/_jack.py", "sumpf/_data/_signals/_windows_scipy.py"],
     [("guarded imports", "sumpf")], observe=["results of the same workload in processes with blocked imports"])

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
