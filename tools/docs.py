"""Regenerates properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INP, CFG, HIS, FLT = 'inputs', 'configurations', 'histories', 'fault_sequences'
P = []


def p(pid, title, statement, over, text, tests, files, mech, oracle):
    P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), oracle=oracle))


p('C01', 'PRBS generation is the LFSR sequence, however it is cut into calls',
  'For every supported PRBS order (and other primitive polynomials), every non-zero seed and every length, the generated bits follow the linear recurrence of the polynomial and the returned seed '
  'continues the sequence. Generating a sequence in any number of consecutive pieces, or bit by bit with the iterator, gives the same bits and the same final seed as one call. '
  'The standard polynomials have the full period 2^n-1, including lengths beyond one period.',
  [INP, HIS], 'all orders, seeds, lengths (around order, period and multiples of it) and cut points',
  'the tests generate a few fixed lengths from the all-ones seed; pieces, odd seeds and lengths past a period are not sampled',
  ['CommDspy/tx/prbs_generator.py', 'CommDspy/tx/prbs_iterator.py', 'CommDspy/auxiliary.py'],
  [('sequence generation and seed hand-over', 'CommDspy/tx/prbs_generator.py: prbs_generator'), ('bit iterator', 'CommDspy/tx/prbs_iterator.py: PrbsIterator'), ('polynomials', 'CommDspy/auxiliary.py: get_polynomial')],
  'differential: bit-serial LFSR model; metamorphic: pieces = whole; exhaustive periods up to order 15')
p('C02', 'Bit/symbol packing is a flag-controlled bijection',
  'For any bit stream, alphabet of 2, 4, 8, ... symbols and any combination of the bit-order, MSB, LSB and polarity inversion flags, packing bits into symbols gives exactly the documented '
  'symbol per group of bits (incomplete trailing groups are dropped), and unpacking with the same flags returns the bits. Unsigned-integer packing and its inverse agree for arrays of any '
  'shape, and the list of all k-bit words is complete and in counting order.',
  [INP, CFG], 'all bit streams, shapes, dtypes, memory layouts, alphabet sizes and 16 flag combinations',
  'the tests use a few flag combinations on one PRBS; single symbols, wide alphabets, matrices and flag combinations are not covered',
  ['CommDspy/tx/bin2symbol.py', 'CommDspy/rx/symbol2bin.py', 'CommDspy/auxiliary.py'],
  [('packing', 'CommDspy/tx/bin2symbol.py: bin2symbol'), ('unpacking', 'CommDspy/rx/symbol2bin.py: symbol2bin'), ('integer packing', 'CommDspy/auxiliary.py: bin2uint, uint2bin, get_bin_perm')],
  'differential: bit-by-bit reference; round trip')
p('C03', 'Mapping uses the documented levels and demapping inverts it',
  'For every constellation, scaling and polarity option, symbols are placed on the documented levels (unit mean power when full scale is requested, or the levels supplied by the caller). '
  'Demapping with the same options returns every symbol, for arrays of any shape, also when samples are displaced by less than half a level spacing.',
  [INP, CFG], 'all symbol arrays (any integer type), constellations, scale/polarity options, custom level tables (integer or real) and bounded displacements',
  'the tests map one pattern per constellation with undisturbed levels',
  ['CommDspy/tx/mapping.py', 'CommDspy/rx/demapping.py', 'CommDspy/auxiliary.py'],
  [('levels', 'CommDspy/auxiliary.py: get_levels'), ('mapping', 'CommDspy/tx/mapping.py: mapping'), ('demapping', 'CommDspy/rx/demapping.py: demapping')],
  'documented level tables; round trip with bounded displacement')
p('C04', 'Slicing and quantisation return the nearest allowed level',
  'For any set of increasing levels and any samples, the slicer returns for every sample a level at minimal distance, in the shape of the input, also outside the range of the levels and for plain lists. '
  'Quantisation does the same on the documented fixed-point grid for every bit width, fractional width (negative too) and type, saturates outside the range, and leaves already quantised values unchanged.',
  [INP, CFG], 'all level sets, samples (at and next to thresholds, far outside; floats, singles, integers of any type, lists), shapes, bit widths, fractional widths and types',
  'the tests slice one noisy PAM4/NRZ signal and quantise one ramp',
  ['CommDspy/rx/slicer.py', 'CommDspy/rx/quantiztion.py'],
  [('nearest level decision', 'CommDspy/rx/slicer.py: slicer'), ('fixed-point grid', 'CommDspy/rx/quantiztion.py: quantize')],
  'brute-force nearest level; idempotence')
p('C05', 'Gray and differential coding follow their definition and are inverted',
  'Gray numbering is the reflected binary code for any number of levels, Gray coding maps symbol by symbol with it, and coding and decoding are mutually inverse for alphabets of two or four symbols. Differential coding is the running sum '
  'modulo the number of levels over the flattened stream, its decoding is the exact inverse for arrays of any shape, is blind to a rotation of all symbols after the first, and spreads one symbol error over at most two symbols.',
  [INP, CFG], 'all symbol streams, shapes, dtypes and constellations; all level counts 2..69 and larger samples',
  'the tests code one PRBS pattern per constellation',
  ['CommDspy/tx/coding.py', 'CommDspy/rx/decoding.py', 'CommDspy/auxiliary.py'],
  [('coders', 'CommDspy/tx/coding.py: coding_gray, coding_differential'), ('decoders', 'CommDspy/rx/decoding.py: decoding_gray, decoding_differential'), ('Gray table', 'CommDspy/auxiliary.py: get_gray_level_vec')],
  'definitions written out; round trips; metamorphic rotation and error locality')
p('C06', 'Line codes obey their waveform rules, invert exactly and mark errors',
  'For every bit stream and shape, Manchester, differential Manchester, bipolar (AMI) and MLT-3 coding produce the waveform their rules prescribe over the whole stream, and each decoder returns the bits. '
  'On any received stream, illegal Manchester pairs decode to one half and bipolar violations are marked as plus or minus one half when error detection is on, and only those.',
  [INP, FLT], 'all bit strings up to 8 bits, all ternary strings up to 6, and arbitrary longer 1- to 3-dimensional streams with any received errors',
  'the tests code one PRBS and decode a handful of corrupted positions',
  ['CommDspy/tx/coding.py', 'CommDspy/rx/decoding.py'],
  [('line coders', 'CommDspy/tx/coding.py: coding_manchester, coding_differential_manchester, coding_bipolar, coding_mlt3'), ('line decoders', 'CommDspy/rx/decoding.py: decoding_manchester, decoding_differential_manchester, decoding_bipolar, decoding_mlt3')],
  'waveform rules; exhaustive small scope; round trips; violation marks')
p('C07', 'Linear block codes encode over GF(2) and decode to a nearest codeword',
  'For every binary generator matrix and message, block encoding is the modulo-2 product of the zero-padded message blocks with the matrix. Decoding returns, for every received block, a message whose codeword is at minimal Hamming distance '
  '(bits after the last whole block are ignored), so errors within the correction radius are always corrected, and the reported error probability is zero for codewords and one over the number of nearest codewords otherwise.',
  [INP, FLT, CFG], 'all generator matrices up to 12x24 (decoding 6x12), messages, error patterns and residual lengths',
  'the tests use one Hamming code and a few flipped bits',
  ['CommDspy/tx/coding.py', 'CommDspy/rx/decoding.py', 'CommDspy/misc/ml_decoding.py', 'CommDspy/auxiliary.py'],
  [('encoder', 'CommDspy/tx/coding.py: coding_linear'), ('decoder', 'CommDspy/rx/decoding.py: decoding_linear'), ('nearest codeword search', 'CommDspy/misc/ml_decoding.py: ml_decoding')],
  'GF(2) reference product; exhaustive codebook search; correction radius')
p('C08', 'Convolutional encoding is the described GF(2) shift-register machine',
  'For every generator description (any number of inputs, outputs and memory, with or without feedback used by any subset of outputs) and every message of any length, the coded bits are exactly those of the binary shift registers started at zero, '
  'with the message zero-padded to whole input groups. Consequently encoding is linear over GF(2), causal and time invariant.',
  [INP, CFG], 'codes with 1-3 inputs, 1-4 outputs, memory 0-4 per input, all feedback usages; messages up to 70000 bits',
  'the tests encode short messages with three hand-picked codes',
  ['CommDspy/tx/coding.py'], [('encoder', 'CommDspy/tx/coding.py: coding_conv')], 'bit-level shift-register model; linearity, causality, time invariance')
p('C09', 'Convolutional decoding returns a minimum-distance message per block',
  'For every code, traceback length and received stream, exhaustive and Viterbi decoding return for each traceback block a message whose code sequence, from some starting state, is at the minimal Hamming distance from the block over all messages and starting states. '
  'The reported last state ends such a path, the reported error probabilities count the ties, and isolated bit errors in standard codes are corrected.',
  [INP, FLT, CFG], 'codes up to 32 states, up to 400 steps per block, clean, noisy and random received streams, trailing residues',
  'the tests decode clean or barely disturbed streams of two codes, where greedy path selection is indistinguishable from maximum likelihood',
  ['CommDspy/rx/decoding.py', 'CommDspy/misc/ml_decoding.py'],
  [('Viterbi', 'CommDspy/rx/decoding.py: decoding_conv_viterbi'), ('exhaustive decoding', 'CommDspy/rx/decoding.py: decoding_conv_ml'), ('trellis', 'CommDspy/misc/ml_decoding.py: Trellis, create_trellis_bin')],
  'independent dynamic program over the shift-register model; any optimal message accepted')
p('C10', 'Pattern locking returns the whole pattern at its best alignment',
  'Given a pattern and a captured signal (at least a pattern long, with errors, noise or gain), locking returns a rotation of the complete pattern together with the correlation that justifies it. '
  'That rotation has the largest correlation with the signal over all rotations, and a signal that is a clean rotation of the pattern is locked exactly, for short and very long patterns alike.',
  [INP], 'all patterns (binary, multi-level, real), rotations, lengths, error rates and noise',
  'the tests lock a clean PRBS at one or two shifts',
  ['CommDspy/rx/lock_pattern.py'], [('correlation and rotation', 'CommDspy/rx/lock_pattern.py: lock_pattern_to_signal, lock_pattern_to_signal_binary')], 'brute-force correlation over all rotations')
p('C11', 'PRBS checkers count exactly the wrong bits and judge lock correctly',
  'For any received bits, the PRBS checker marks exactly the positions that differ from the best-aligned (or already locked) reference, counts the correct bits, and declares loss of lock exactly when the number of errors reaches the threshold. '
  'The self-seeding checker does the same against the sequence grown from the received bits, skipping corrupted seeds until lock is found.',
  [INP, FLT], 'all orders, rotations, lengths around the period, error patterns and thresholds',
  'the tests inject a few errors into one capture with the default threshold',
  ['CommDspy/rx/checker.py', 'CommDspy/rx/lock_pattern.py'], [('checker', 'CommDspy/rx/checker.py: prbs_checker'), ('self-seeding checker', 'CommDspy/rx/checker.py: prbs_checker_economy')], 'LFSR model and brute-force alignment; injected errors located')
p('C12', 'Framing, rate and distance helpers do exactly what they document',
  'Framing returns every frame of the requested length with the requested overlap or gap and delay, padding the last frame with zeros or dropping it on request. Upsampling inserts zeros, hold repeats samples, Hamming distances are the numbers of differing bits of every block and codeword '
  '(with the index of a nearest codeword per block), and power and RMS are the mean squared magnitude and its root for real and complex signals.',
  [INP, CFG], 'all signals, lengths, overlaps (negative too), delays, rates and shapes',
  'the tests call framing and upsampling with one setting each',
  ['CommDspy/auxiliary.py'], [('helpers', 'CommDspy/auxiliary.py: buffer, upsample, zoh, hamming, power, rms')], 'list-slicing reference')
p('C13', 'Pulse shaping uses the textbook pulses, is ISI free and streams',
  'For every oversampling rate, span and roll-off the rectangular, sinc, raised-cosine and root-raised-cosine pulses take their textbook values, including at removable singularities, and Nyquist pulses are one at their centre and zero at other symbol instants. '
  'Shaping is the convolution of the zero-stuffed symbols with the pulse, and shaping a stream in chunks with the carried memory equals shaping it whole.',
  [INP, CFG, HIS], 'all pulses, oversampling rates, spans, roll-offs in [0.02, 1], symbols and chunk boundaries',
  'the tests shape one pattern per pulse with roll-offs that avoid the singular points',
  ['CommDspy/channel/pulse_shaping.py'], [('pulses', 'CommDspy/channel/pulse_shaping.py: rect_pulse, sinc_pulse, rcos_pulse, rrc_pulse'), ('shaping with memory', 'CommDspy/channel/pulse_shaping.py: pulse_shape')],
  'stable textbook formulas; direct convolution; chunked = whole')
p('C14', 'The channel model is the given difference equation and streams seamlessly',
  'Without noise, the channel output is the difference equation described by the numerator and denominator taps (given as numbers, lists or arrays, leading denominator tap of any value), started from the given or zero memory. '
  'Passing a signal in any chunks with the carried memory equals one pass, and the channel is linear and time invariant.',
  [INP, CFG, HIS], 'all taps, signals, memories and chunk boundaries',
  'the tests pass one signal through one FIR channel in one call',
  ['CommDspy/channel/additive_noise_functions.py'], [('filtering and memory', 'CommDspy/channel/additive_noise_functions.py: awgn_channel')], 'scalar difference equation; linearity; chunked = whole')
p('C15', 'The CTLE realises its zeros, poles and DC gain, stably, and streams',
  'For every choice of zeros, poles, DC gain and sampling rate, the equalizer filter is stable, has the requested DC gain and the frequency response of the analog prototype under the bilinear transform at the oversampled rate. '
  'Filtering applies exactly that filter, and in chunks with the carried memory equals one pass.',
  [INP, CFG, HIS], '1-4 poles, at least one and at most as many zeros, of either sign, corner frequencies 0.1-1.5 times the symbol rate, oversampling up to 32, chunk boundaries',
  'the tests plot one CTLE',
  ['CommDspy/rx/ctle_model.py'], [('filter design', 'CommDspy/rx/ctle_model.py: get_ctle_filter'), ('filtering', 'CommDspy/rx/ctle_model.py: ctle')], 'analog prototype through the bilinear map evaluated on a frequency grid')
p('C16', 'Added noise and jitter have the requested power and statistics',
  'Additive noise has the variance set by the requested SNR relative to the mean power of the (channel output) signal, zero mean, is white, Gaussian, and independent of the signal and between calls. '
  'Random jitter displaces all samples of a symbol together by a zero-mean Gaussian time of the requested deviation, independently per symbol.',
  [INP, CFG], 'signals with and without DC, of one sample to 160000, SNRs -50..80 dB, channels, jitter deviations; statistical bounds with negligible false-alarm probability',
  'the tests look at the noise of one call with loose tolerances or not at all',
  ['CommDspy/channel/additive_noise_functions.py', 'CommDspy/channel/pulse_shaping.py'], [('noise', 'CommDspy/channel/additive_noise_functions.py: awgn, awgn_channel'), ('jitter', 'CommDspy/channel/pulse_shaping.py: pulse_shape')], 'statistical oracles at > 6 sigma with a fixed seed per case')
p('C17', 'The FFE-DFE follows its recursion, carries its memories and streams',
  'For all feed-forward and feedback taps, levels and initial memories, the equalizer output is the documented recursion with nearest-level decisions fed back, and the returned memories are the last inputs and decisions. '
  'At symbol rate, equalising in arbitrary chunks with the carried memories equals one call; with oversampling the feedback is updated once per symbol at the chosen phase, so a held signal gives the symbol-rate result.',
  [INP, CFG, HIS], 'FFE/DFE taps (absent, one, several), levels, memories of both accepted sizes, signals, chunkings, oversampling rates and phases',
  'the tests compare one tap set on one signal in a single call',
  ['CommDspy/rx/ffe_dfe_model.py'], [('recursion, memories and phase', 'CommDspy/rx/ffe_dfe_model.py: ffe_dfe')], 'scalar recursion; chunked = whole; held signal metamorphic relation')
p('C18', 'Fractional delays and digital oversampling interpolate the signal',
  'For every order and delay, Lagrange delay taps are the exact interpolation weights (so polynomials up to the order are reproduced), and sinc and raised-cosine taps are the shifted pulses, finite everywhere and a pure shift for whole delays. '
  'Oversampling keeps the (trimmed) original samples, fills in each intermediate sample with the corresponding delay filter, and returns the matching time axis.',
  [INP, CFG], 'orders, delays, directions, roll-offs, oversampling rates and signals',
  'the tests interpolate one sine with a loose tolerance',
  ['CommDspy/digital_delay.py'], [('delay taps', 'CommDspy/digital_delay.py: dig_delay_lagrange_coeffs, dig_delay_sinc_coeffs, dig_delay_rcos_coeffs'), ('oversampling', 'CommDspy/digital_delay.py: digital_oversample')], 'exact rational arithmetic; stable pulse formulas; polynomial exactness')
p('C19', 'The eye diagram is the per-phase amplitude histogram over two symbols',
  'For any signal, rates, amplitude range and quantisation, every column of the eye is the histogram of the samples at that phase of the symbol over the requested range (every sample inside the range counted once, samples outside left out), repeated over two unit intervals, with an amplitude axis spanning the range. '
  'The logarithmic option only transforms the counts, and asking for a higher rate interpolates the signal first.',
  [INP, CFG], 'signals, input and diagram rates, full-scale values, quantisations, linear and log counts',
  'the tests only draw the figure',
  ['CommDspy/eye_diagram.py'], [('histogramming', 'CommDspy/eye_diagram.py: eye_diagram')], 'independent per-phase histogram')
p('C20', 'PRBS channel estimation recovers the channel taps, gain and position',
  'From a captured PRBS through any channel whose taps fit the requested window, the estimate is the least-squares channel: for clean captures the exact taps at their gain (or normalised to a unit cursor), with the cursor at the requested number of precursors, '
  'for every constellation, polarity, bit order and coding flag, any starting point and any number of repetitions. Noise is averaged over the repetitions.',
  [INP, CFG], 'channels, PRBS orders, constellations, all pattern flags, alignments, repetitions, noise',
  'the tests estimate one channel with the default flags and compare loosely',
  ['CommDspy/channel_estimation.py', 'CommDspy/misc/least_squares.py', 'CommDspy/rx/lock_pattern.py'], [('alignment and least squares', 'CommDspy/channel_estimation.py: channel_estimation_prbs')], 'known channels; independent least-squares system')
p('C21', 'Equalizer estimation returns the least-squares FFE/DFE',
  'For a known reference or a captured PRBS (every pattern flag, full or partial period), the estimated feed-forward and feedback taps minimise the squared error (plus the ridge or lasso penalty when requested) of the equalized signal against the reference, '
  'in tap order, with the cursor at the requested position, and the reported squared error and MSE belong to them. Normalisation scales all taps so that the peak feed-forward tap is one and reports the gain; post-cursor ISI is inverted exactly.',
  [INP, CFG], 'references, channels, noise, tap counts (more DFE taps than post-cursors too), normalisation, regularisation, all PRBS flags',
  'the tests run one or two configurations and look at the error level only',
  ['CommDspy/equalization_estimation.py', 'CommDspy/misc/least_squares.py'], [('system construction', 'CommDspy/equalization_estimation.py: equalization_estimation, equalization_estimation_prbs'), ('solvers', 'CommDspy/misc/least_squares.py: least_squares')], 'independently indexed least-squares system; exact inverses; objective minimality')
p('C22', 'LMS losses and gradients are the documented correlations',
  'For any equalizer inputs, outputs, levels and tap indices, the hard-decision LMS returns the mean squared decision error and, for each requested tap, the documented correlation of the error with the shifted inputs or decisions, using the given reference instead of decisions when there is one. '
  'The soft-decision variant does the same for its Gaussian-mixture loss, and stepping against the gradients lowers the loss.',
  [INP, CFG], 'signals, levels, any precursor/postcursor tap indices, sigma, own decisions or a given reference',
  'the tests run an adaptation loop and check that it converges roughly',
  ['CommDspy/rx/least_mean_squares.py'], [('losses and gradients', 'CommDspy/rx/least_mean_squares.py: ddlms_grad, soft_ddlms_grad')], 'explicit sums; descent on an explicit equalizer')
p('C23', 'The Mueller-Muller step has the right sign, weights and dead zone',
  'The timing step is the sign of the weighted difference of the two one-symbol-shifted correlations between signal and reference symbols, and zero exactly inside the tolerance. It therefore points the same way for any positive scaling, reverses when time is reversed, and reports the dominant pre- or post-cursor of a channel.',
  [INP, CFG], 'signals, references, weights, tolerances',
  'the tests check two directions on one channel',
  ['CommDspy/rx/clock_data_recovery.py'], [('timing function', 'CommDspy/rx/clock_data_recovery.py: mueller_muller_step')], 'explicit sums; symmetries')
p('C24', 'The spectrum analyser reads true power and frequency in every mode',
  'For real and complex signals and every resolution bandwidth, window, overlap, padding and side-band option, the returned spectrum is the averaged windowed periodogram on the matching frequency axis, scaled as the selected mode documents. A single tone is read at its frequency with its power.',
  [INP, CFG], 'signals, sampling rates, resolution bandwidths, windows, overlaps, modes, loads, full scales',
  'the tests only plot a spectrum',
  ['CommDspy/psa.py'], [('periodogram and normalisation', 'CommDspy/psa.py: psa')], 'hand-written averaged periodogram; tone power')
p('C25', 'Calls leave their arguments alone and do not remember each other',
  'No public operation modifies the arrays, lists or dictionaries passed to it, so read-only arrays are accepted everywhere. Deterministic operations do not disturb the global random generator, and repeating a call with equal arguments after any history of other calls, even when the caller overwrote earlier results, gives the same result.',
  [HIS, INP], 'sequences of calls over the whole public interface with arbitrary arguments',
  'the tests call each function once with data they do not look at again',
  ['CommDspy'], [('copying of inputs, absence of shared mutable defaults and caches', 'all modules under CommDspy')], 'argument snapshots; replay after history')
p('C26', 'Inputs that cannot be honoured are rejected with an error',
  'Non-binary data or generators given to binary coders and decoders, memories, level tables, references or alphabets of the wrong size, inconsistent feedback descriptions and unknown pulse, mode, type, regularisation, method or constellation names always raise an error (a value error; an attribute error for the oversampling method) instead of returning a result. '
  'The corresponding valid inputs are accepted.',
  [INP], 'one illegal ingredient of any kind, value, size and position in an otherwise valid call',
  'the tests never pass invalid inputs',
  ['CommDspy/misc/help_functions.py', 'CommDspy/misc/help_classes.py', 'CommDspy/rx', 'CommDspy/tx', 'CommDspy/channel', 'CommDspy/psa.py', 'CommDspy/digital_delay.py'],
  [('binary and feedback validation', 'CommDspy/misc/help_functions.py: check_binary, check_valid_conv'), ('memory size validation', 'CommDspy/rx/ffe_dfe_model.py, CommDspy/channel/pulse_shaping.py, CommDspy/misc/help_classes.py')], 'injection of one illegal ingredient')
p('C27', 'Any transmit chain followed by its matching receive chain returns the bits',
  'For every combination of line, block or convolutional code, packing flags, differential and Gray coding, constellation, scaling and polarity, pulse shape, oversampling and post-cursor ISI removed by a matching equalizer, with a disturbance below the decision distance and every streaming block fed in arbitrary chunks, '
  'the receive blocks return exactly the transmitted symbols and bits.',
  [CFG, INP, HIS], 'all combinations of the listed blocks and options, sources, gains and chunkings',
  'the tests exercise blocks one at a time with one chain at most',
  ['CommDspy/tx', 'CommDspy/channel', 'CommDspy/rx'], [('all blocks of the link', 'CommDspy/tx, CommDspy/channel, CommDspy/rx')], 'bits in = bits out')
p('C28', 'The example link simulation inverts its coding and streams without seams',
  'In the bundled example simulation the decoder inverts the encoder for every coding configuration and corrects a wrong symbol per block of an error-correcting code, consecutive transmitter chunks form one PRBS stream on the configured levels, and channel and equalizer chunks join into the output of one pass. '
  'The converter samples and quantises as configured, a clean full link returns the sent symbols and bits after the pulse delay, and the bit checker counts errors exactly. '
  'While converging, the receiver moves its sampling phase by one timing step per chunk modulo the rate, moves its equalizer taps against the LMS gradient of that chunk, stops adapting each loop, and then as a whole, exactly when the stop condition is met, and adapts anew when convergence is started again. '
  'The simulation memory keeps the signals, phases and taps of every chunk as they were.',
  [CFG, HIS], 'coding configurations, chunk sizes, numbers of chunks, pulses, channels, equalizers, converters, injected bit errors',
  'the tests never run the example simulation',
  ['example_simulation/simulation_parts', 'example_simulation/analyzer'], [('link blocks', 'example_simulation/simulation_parts/transmitter.py, channel.py, receiver.py, full_link.py'), ('bit checker', 'example_simulation/analyzer/analyzer_classes.py')], 'round trip; independent stream models')
p('C29', 'Streaming filter objects follow their recursion over any call history',
  'The direct-form, transposed-form and decision-feedback filter objects produce, over any history of chunks (empty ones included), memory resets and memory loads, exactly the samples of their documented difference equation continued from the current memory.',
  [HIS, INP, CFG], 'filter kinds, taps, levels, initial memories and call histories',
  'the tests filter one signal in one go',
  ['CommDspy/misc/help_classes.py'], [('filter state', 'CommDspy/misc/help_classes.py: Filter, FilterTII, FfeDfeFilterTII')], 'scalar recursions with explicit registers')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, (q['id'], len(q['title']))
            f.write(json.dumps({k: v for k, v in q.items() if k != 'oracle'}) + '\n')
    checks = [dict(property=q['id'], quick_cmd=f"./check {q['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check {q['id']}", evidence_file=f"evidence/{q['id']}.json",
                   technique='property-based testing (Hypothesis and independent random generation, with shrinking): ' + q['oracle'], level='exploration',
                   level_note='Searches generated inputs (seeded, counts in the evidence file) with an explicit oracle; trusts numpy/scipy basics and the independent model in props/'
                              + q['id'].lower() + '.py; no claim beyond the cases explored and the stated domain.') for q in P]
    man = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
               notes='No hooks in /repo. KNOWN_FINDINGS.md lists repaired and recorded defects. ./check --replay <file> re-runs one recorded case.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
