#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
ECC="src/ecc/ecc.c"; ECCC="src/ecc/ecc_const.c"; A24="src/ambe/ambe3600x2400.c"; A245="src/ambe/ambe3600x2450.c"
AC="src/ambe/ambe_common.c"; I72="src/imbe/imbe7200x4400.c"; I71="src/imbe/imbe7100x4400.c"; CORE="src/core/mbelib.c"
AD="src/core/mbe_adaptive.c"; UV="src/core/mbe_unvoiced_fft.c"; PF="src/external/pffft/pffft.c"; H="include/mbelib-neo/mbelib.h"
ALLS=[A24,A245,AC,ECC,ECCC,I71,I72,CORE,AD,UV]
SM=[("cur/prev/prev-enhanced parameter sets","the caller-owned per-stream decoder state that every frame reads and rewrites")]

p("C01","(23,12) Golay decoding corrects every pattern of up to three bit errors",
 "Decoding a 23-bit Golay word always yields the 12 data bits of the unique codeword within Hamming distance three, and the reported count is the number of data bits that were changed; parity positions are passed through unchanged. The packed form returns exactly those 12 data bits, whatever the caller left above bit 22.",
 ["inputs"],"all 2^23 received words, in both the bit-array and the packed entry points, with arbitrary bits above the codeword in the packed form",
 "tests/test_ecc.c corrects a handful of words with at most a few flips; 2^23 received words and the 2048-entry syndrome table are not covered by samples.",
 [ECC,ECCC],[("syndrome computation and lookup","src/ecc/ecc.c mbe_checkGolayBlock / mbe_golay2312"),("syndrome tables","src/ecc/ecc_const.c")])
p("C02","(15,11) Hamming decoding corrects every single bit error, in both bit orders",
 "For both Hamming variants, decoding any 15-bit word returns the unique codeword within distance one, all 15 bits of it, and reports 0 exactly when the word was already a codeword and 1 otherwise.",
 ["inputs"],"all 2^15 received words for each of the two code variants",
 "tests/test_ecc.c tries a few words; a wrong entry in one syndrome slot only shows for the words with that syndrome.",
 [ECC,ECCC],[("syndrome lookup tables","src/ecc/ecc.c ham1511_lut / ham1511_7100_lut"),("generator rows","src/ecc/ecc_const.c")])
p("C03","AMBE 3600 frames: correct, descramble and pack without losing or moving a bit",
 "For both AMBE rates, a frame built from 49 parameter bits by the channel encoder (Golay plus parity on the first row, scrambling of the second row seeded by the first row's data bits, unprotected rest) is unpacked to exactly those bits after any combination of at most three errors in each protected row, and the reported counts are the corrected first-row errors (including a lone parity error) and the corrected data bits of the second row. Array positions that carry no channel bit never influence the result, and scrambling applied twice is the identity. Whatever rows arrive, each protected row is decoded to its nearest codeword and the bits and counts follow from that.",
 ["inputs"],"every received first-row word (2^24), every scrambler seed (2^12), every received second-row word (2^23), every unprotected bit, every noise pattern of weight <= 3 per protected row within the stated frame alphabet",
 "The existing tests push a few all-zero, all-one and golden frames through the frame entry points; AMBE 2400 frames are not exercised at all.",
 [AC,A24,A245,ECC],[("first-row ECC with even parity","src/ambe/ambe_common.c mbe_eccAmbe3600C0_common"),("descrambler","src/ambe/ambe_common.c mbe_demodulateAmbe3600Data_common"),("packing","src/ambe/ambe_common.c mbe_eccAmbe3600Data_common")])
p("C04","IMBE 7200x4400 frames: correct, descramble and pack without losing a bit",
 "A frame built from 88 parameter bits by the channel encoder (Golay rows 0-3, Hamming rows 4-6, plain row 7, rows 1-6 scrambled from row 0's data bits) is unpacked to exactly those bits after at most three errors in each Golay row and one in each Hamming row. The reported counts are the corrected data bits of the Golay rows plus one per corrected Hamming row, and array positions that carry no channel bit never influence the result. Whatever rows arrive, each protected row is decoded to its nearest codeword and the bits and counts follow from that.",
 ["inputs"],"every received word of every row (2^23 per Golay row, 2^15 per Hamming row), every scrambler seed (2^12), every plain bit",
 "tests/test_api.c and the golden test decode a few fixed frames; which of the 144 bit positions goes where, under which of 4096 scrambler seeds, is a universal statement.",
 [I72,ECC],[("row-0 ECC","src/imbe/imbe7200x4400.c mbe_eccImbe7200x4400C0"),("descrambler","src/imbe/imbe7200x4400.c mbe_demodulateImbe7200x4400Data"),("ECC and packing","src/imbe/imbe7200x4400.c mbe_eccImbe7200x4400DataInternal")])
p("C05","IMBE 7100x4400 frames: correct, descramble, pack and convert to 7200 layout",
 "A 7100x4400 frame built by its channel encoder (shortened Golay row 0, Golay rows 1-3, the 7100 Hamming code on rows 4-5, plain row 6, scrambling seeded by the seven data bits of row 0) is unpacked to exactly the transmitted 88 bits under the correctable errors, with matching counts. Whatever rows arrive, each protected row is decoded to its nearest codeword and the bits and counts follow from that. The layout conversion is, for every pitch value, the bijective bit permutation that moves each field to its 7200 position, so a 7100 stream decodes to the same speech parameters as the equivalent 7200 stream.",
 ["inputs"],"every received word of every row, all 128 scrambler seeds, every one of the 256 pitch codes with every single bit position and all pairs",
 "Existing tests decode one all-zero 7100 frame; the permutation depends on the pitch code and needs all of them.",
 [I71,ECC],[("row-0 ECC","src/imbe/imbe7100x4400.c mbe_eccImbe7100x4400C0"),("descrambler","src/imbe/imbe7100x4400.c mbe_demodulateImbe7100x4400Data"),("ECC and packing","src/imbe/imbe7100x4400.c mbe_eccImbe7100x4400DataInternal"),("layout conversion","src/imbe/imbe7100x4400.c mbe_convertImbe7100to7200")])
p("C06","IMBE parameter decoding follows the codec's quantizers and predictor",
 "Every valid IMBE parameter word decodes to the fundamental, band count, per-band voicing and log amplitudes that the codec's bit allocation, quantizer tables, inverse transforms and predictor from the previous frame define, for any previous band count, and every reserved fundamental code is rejected without touching the model. Values are checked against an independent double-precision model of the codec.",
 ["inputs","histories"],"every pitch code; every value of every quantized field and every pair of payload bit deviations from several base words; every (previous band count, current band count) pair",
 "The golden tests hash a few synthesised frames; bit allocation differs for each of the 48 band counts and each table entry is reached by specific field values only.",
 [I72,"src/internal/imbe7200x4400_const.h"],[("parameter decoder","src/imbe/imbe7200x4400.c mbe_decodeImbe4400Parms"),("tables","src/internal/imbe7200x4400_const.h")],SM)
p("C07","AMBE+2 (2450) parameter decoding follows the codec's tables and predictor",
 "Every 49-bit AMBE+2 word classified as voice or silence decodes to the fundamental, band count, voicing, gain and log amplitudes its codebooks and predictor define, for any previous band count, and every word is classified as voice, silence, tone or erasure by its pitch and tone-signature bits alone. Values are checked against an independent double-precision model of the codec.",
 ["inputs","histories"],"every pitch code; every entry of every codebook under several backgrounds; every pair of bit deviations from base words; every (previous, current) band-count pair; every tone signature pattern",
 "The golden tests hash a few synthesised frames; the 512-entry and smaller codebooks and 120 pitch codes are only sampled.",
 [A245,"src/internal/ambe3600x2450_const.h"],[("parameter decoder","src/ambe/ambe3600x2450.c mbe_decodeAmbe2450ParmsInternal"),("tables","src/internal/ambe3600x2450_const.h")],SM)
p("C08","AMBE (2400, D-STAR) parameter decoding follows the codec's tables and predictor",
 "Every 49-bit D-STAR AMBE word decodes either to the fundamental, band count, voicing, gain and log amplitudes its codebooks and predictor define, for any previous band count, or, when the pitch field carries the tone marker, to the tone index its bits encode (single-tone indices are returned, all others are reported as unplayable). Values are checked against an independent double-precision model of the codec.",
 ["inputs","histories"],"every pitch code; every entry of every codebook under several backgrounds; every pair of bit deviations; every (previous, current) band-count pair; every tone index pattern",
 "No existing test decodes a 2400 frame to parameters.",
 [A24,"src/internal/ambe3600x2400_const.h"],[("parameter decoder","src/ambe/ambe3600x2400.c mbe_decodeAmbe2400Parms"),("tables","src/internal/ambe3600x2400_const.h")],SM)
p("C09","IMBE concealment: repeat, mute and reset exactly when the error history says so",
 "For every history of received frames, an IMBE frame is repeated from the previous frame exactly when its fundamental is invalid or its error counts meet the repeat rule, repeats are counted, output is replaced by comfort noise while the repeat limit is reached or the smoothed error rate exceeds the IMBE threshold, a further repeat beyond the limit restarts from the default model, and a good frame clears the repeat count. The status trace and the carried state always agree with that decision.",
 ["histories","inputs"],"all event sequences up to the stated depth over an alphabet of good, invalid, lightly, moderately and heavily errored frames, through the frame and the parameter entry points, from fresh and impaired initial states; all error-count pairs",
 "tests/test_api.c checks a few scripted sequences; the decision depends on the whole error history (repeat counter and recursive error rate).",
 [I72,AD,CORE],[("repeat and mute decision","src/imbe/imbe7200x4400.c mbe_processImbe4400Dataf_withC0"),("muting","src/core/mbelib.c mbe_synthesizeSpeechf"),("headroom reset","src/imbe/imbe7200x4400.c imbe_reset_headroom_defaults")],SM)
p("C10","AMBE+2 (2450) frame handling: voice, silence, tone, erasure, repeat and mute",
 "For every history of received frames, each AMBE+2 frame is handled by its class: voice is synthesised, a frame over the error limits is repeated at most three times in a row and then muted with a fresh model, an erasure gives comfort noise and leaves the erasure model for recovery, a verified tone is played without disturbing the voice model, and an unplayable tone repeats the previous speech. The status trace and the carried state always agree with the class chosen.",
 ["histories","inputs"],"all event sequences up to the stated depth over an alphabet covering every class and error level, through the frame and parameter entry points, from fresh and impaired states; all error-count pairs",
 "Existing tests script single transitions; combinations such as erasure-then-repeat or tone-then-repeat are unreached.",
 [A245,AC,CORE],[("frame handling","src/ambe/ambe3600x2450.c mbe_processAmbe2450Dataf_internal"),("erasure model","src/ambe/ambe_common.c mbe_setAmbeErasureParms_common")],SM)
p("C11","AMBE 2400 (D-STAR) frame handling: voice, tone, repeat and mute",
 "For every history of received frames, each D-STAR frame is handled by its class: voice is synthesised, a frame over the error limit is repeated at most three times in a row and then muted with a fresh model, a valid low-error single tone is audible as that tone, and any other tone frame gives comfort noise and a fresh model. The status trace and the carried state always agree with the class chosen.",
 ["histories","inputs"],"all event sequences up to the stated depth over an alphabet covering every class and error level, through the frame and parameter entry points, from fresh and impaired states; all error-count pairs",
 "No existing test processes a D-STAR frame sequence.",
 [A24,AC,CORE],[("frame handling","src/ambe/ambe3600x2400.c mbe_processAmbe2400Dataf"),("default model","src/ambe/ambe_common.c mbe_initAmbeParms_common")],SM)
p("C12","Every call writes exactly its outputs: 160 samples and a bounded status trace",
 "Each processing and synthesis call writes all 160 output samples and nothing beyond them, writes a terminated status trace that fits the documented size (error count plus three bytes) and consists of one '=' per error followed by the class markers, leaves its input bits and counts unchanged, and touches no memory other than its documented outputs. The legacy quality argument never changes any result.",
 ["inputs","histories"],"every processing entry point on every frame class and error count 0..40, in all event sequences up to the stated depth, with guarded exact-size buffers",
 "Tests pass generously sized buffers and never look around them.",
 [H]+ALLS,[("trace writers","src/imbe/imbe7200x4400.c, src/ambe/ambe3600x2400.c, src/ambe/ambe3600x2450.c process functions")],SM)
p("C13","No frame or history makes the library read or write out of bounds or overflow",
 "No sequence of frames, valid or corrupted, drives the library into an out-of-bounds access, an uninitialised read that influences results, an invalid conversion, a signed overflow or any other undefined behaviour, from any state the library itself can produce.",
 ["inputs","histories"],"all single frames of the field-exhaustive alphabets and all event sequences up to the stated depth, in sanitizer-instrumented builds (address, undefined behaviour, uninitialised memory)",
 "The sanitizer configuration runs the same handful of unit tests; the interesting indices depend on the pair of consecutive band counts and on rare codes.",
 ALLS+[PF],[("band interpolation indices","parameter decoders in src/imbe and src/ambe"),("voicing table index","src/ambe/*.c"),("unvoiced bin ranges","src/core/mbe_unvoiced_fft.c")],SM)
p("C14","PCM and carried state stay finite and bounded on every history",
 "Whatever frames arrive, with any error count up to 20, every sample produced is finite and within the soft-clip limit (95% of full scale), and the carried state stays finite with band counts in range, voicing flags 0 or 1, non-negative amplitudes, and counters, error rate and noise state within their documented ranges.",
 ["histories","inputs"],"all event sequences up to the stated depth over extreme-valued frames of all codecs, every single frame of the field-exhaustive alphabets, and sustained extreme histories",
 "Tests check a few frames for NaN; reaching a non-finite value needs particular pairs of consecutive frame classes.",
 ALLS,[("soft clip","src/core/mbelib.c mbe_clipFloatBuffer"),("enhancement denominators","src/core/mbelib.c mbe_spectralAmpEnhance"),("erasure model","src/ambe/ambe_common.c")],SM)
p("C15","16-bit output is exactly the converted float output of the same call",
 "For every entry point that exists in a float and a 16-bit form, the 16-bit form leaves the same state and returns exactly the conversion of the float form's samples. The conversion multiplies by seven, limits to 95% of full scale and truncates toward zero, independently for each sample position and identically in every supported build.",
 ["inputs","histories"],"all 2^32 float bit patterns except NaN through the conversion in every build (all lanes), and all event sequences up to the stated depth through each pair of entry points",
 "tests/test_floattoshort_parity.c compares a few buffers.",
 [CORE]+[A24,A245,I71,I72,AD],[("conversion and its SIMD versions","src/core/mbelib.c mbe_floattoshort"),("16-bit wrappers","process functions in src/imbe and src/ambe")])
p("C16","Same inputs, same state and same seed always give bit-identical results",
 "After the random generators are seeded, the samples, status and state produced by any sequence of calls depend only on the arguments and the seed, never on what the thread did earlier, on other frames or streams processed before, on buffer addresses, on prior contents of output buffers, or on whether the calls ran on a fresh or a long-lived thread. A zero seed is accepted and behaves like a fixed non-zero seed.",
 ["histories","inputs"],"all event sequences up to the stated depth after every prelude of prior activity of bounded length, on fresh and used threads, with poisoned output buffers and moved state",
 "tests/test_noise_determinism.c repeats one sequence with one seed.",
 [CORE,AD,UV,I72,A24,A245],[("thread-local generators, FFT plan, transform caches","src/core/mbelib.c, src/core/mbe_adaptive.c, src/core/mbe_unvoiced_fft.c, src/imbe/imbe7200x4400.c, src/ambe/*.c"),("local energy","src/core/mbe_adaptive.c mbe_applyAdaptiveSmoothing")])
p("C17","Threads with their own state never influence each other",
 "When several threads each decode with their own state, every interleaving of their execution, including their first uses of the library, gives each thread exactly the results it would get alone, and no two threads ever access the same library memory without synchronisation unless both only read. Seeding the generators affects the calling thread only.",
 ["schedules"],"all interleavings of two and three threads at operation level and all schedules up to the stated preemption bound at memory-access level over every shared location, plus a free-running race-detector pass",
 "No existing test runs two threads.",
 [CORE,AD,UV,I72,A24,A245],[("thread-local lazily built tables, FFT plan and scratch, generators","src/core/*.c, src/imbe/imbe7200x4400.c, src/ambe/*.c")])
p("C18","Streams interleaved on one thread decode as if each were alone",
 "When one thread decodes several streams, each with its own state and of any codec, in any interleaving, each stream's speech output, status and state are the same as when it is decoded alone; only comfort-noise samples, which come from the thread's single generator, may differ.",
 ["histories"],"all interleavings of two and three streams of all codec pairs up to the stated frames per stream, over frame classes including erasures, repeats, mutes and tones",
 "No existing test interleaves streams.",
 [CORE,AD,UV,I72,A24,A245],[("per-thread scratch and hand-off state shared by streams","src/core/mbe_adaptive.c, src/core/mbelib.c, src/core/mbe_unvoiced_fft.c")],SM)
p("C19","Comfort noise is the seeded uniform sequence at the documented level",
 "Comfort noise consists of 160 samples per call taken consecutively from the thread's 48-bit linear congruential generator (24 high bits each, Java-compatible seeding), mapped uniformly onto plus/minus 0.3% of full scale, continuing across calls and frames, restarting only when the thread is seeded and starting from a fixed default on a new thread. The 16-bit form is the conversion of the same samples.",
 ["inputs","histories"],"every one-hot, boundary and low-order seed value in the stated set, sequences of calls of the stated length, all orders of seed, comfort-noise and frame calls up to the stated depth",
 "tests/test_noise_determinism.c only compares two runs with each other.",
 [AD,CORE],[("generator and level","src/core/mbe_adaptive.c mbe_synthesizeComfortNoisef"),("seeding","src/core/mbelib.c mbe_setThreadRngSeed")])
p("C20","Unvoiced noise advances 160 samples per decoded frame without gap",
 "In a stream of voice frames, the unvoiced excitation of each frame decoded from received parameters is the 256-sample window of the codec's fixed linear congruential sequence that starts 160 samples after the window of the previous such frame, with the 96-sample overlap reproduced exactly; a repeated frame replays the window of the frame it repeats. A fresh stream starts with an all-zero window and then the default or, once, the seeded starting point. This holds for every generator state.",
 ["inputs","histories"],"all 53125 generator states times a full overlap check, cold starts under every residue of the seed, and consecutive frames around the whole cycle",
 "tests check determinism of one start state.",
 [UV,CORE],[("noise window and overlap","src/core/mbe_unvoiced_fft.c mbe_generate_noise_with_overlap"),("cold-start seed","src/core/mbe_unvoiced_fft.c mbe_seedUnvoicedNoiseLcg")],[("noise seed and overlap","per-stream generator position and 96 carried samples")])
p("C21","Tones have the indexed frequencies and level and keep phase across frames",
 "Every tone index produces the one or two sinusoids of the standard frequency table at the signalled level (or the fixed D-STAR level), phase-continuous from frame to frame for any number of frames, and every index without a tone produces silence and leaves the oscillator state alone.",
 ["inputs","histories"],"all 256 indices x all 128 levels (AMBE+2), all D-STAR indices including out-of-range ones, all ordered pairs of playable indices in sequence, long runs, and every starting phase in the stated grid",
 "Existing tests synthesise a couple of tone frames.",
 [CORE],[("frequency table","src/core/mbelib.c mbe_lookupToneFreqs"),("oscillators","src/core/mbelib.c mbe_renderTonef"),("tone entry points","src/core/mbelib.c mbe_synthesizeTonef / mbe_synthesizeTonefdstar")],[("swn/un","oscillator phases")])
p("C22","Voiced speech is the windowed and interpolated harmonic sum of the two frames",
 "For any pair of consecutive models, the voiced part of a frame is the sum over bands of the codec's rules: quadratic-phase, linear-amplitude interpolation for low harmonics with stable pitch, otherwise fade-out of the old and fade-in of the new oscillator, with phases advanced by the average pitch, jittered by the noise in proportion to the unvoiced share above the lowest quarter of bands, and absent bands treated as zero amplitude. The result is soft-clipped and the new phases are stored for the next frame.",
 ["inputs","histories"],"all pairs of band counts and pitch steps in the stated grid, every voicing transition per band, single-band and full-band spectra, and every voiced event history up to the stated depth, against an independent double-precision synthesiser",
 "The golden hashes pin four sequences in one build only; they neither explain nor cover pitch steps and voicing transitions.",
 [CORE,"src/internal/mbelib_const.h"],[("voiced synthesis","src/core/mbelib.c mbe_synthesizeSpeechf"),("window","src/internal/mbelib_const.h Ws")],[("PHIl/PSIl","carried phases")])
p("C23","Unvoiced speech has the decoded level in each unvoiced band, nothing elsewhere",
 "The unvoiced part of a frame is the windowed noise spectrum with each unvoiced band normalised to its decoded amplitude over exactly its frequency bins, every bin of voiced or absent bands zeroed, transformed back and overlap-added with the previous frame's unvoiced block by the codec's normalised synthesis window, and the block is stored for the next frame.",
 ["inputs","histories"],"every pitch value with every single band and all bands unvoiced, noise states in the stated set, two-frame overlap combinations, against a direct double-precision Fourier model",
 "The golden hashes pin four sequences; band edges depend on each pitch value.",
 [UV,PF,"src/external/pffft/fftpack.c",CORE],[("spectral shaping and overlap-add","src/core/mbe_unvoiced_fft.c mbe_synthesizeUnvoicedFFTWithNoise"),("FFT","src/external/pffft/pffft.c")],[("previous block","256 carried samples")])
p("C24","Spectral enhancement reweights harmonics within limits and keeps frame energy",
 "Enhancement multiplies each amplitude by the codec's spectral weight limited to 0.5..1.2 (bands up to one eighth of the band count are not weighted), then rescales all bands so that the sum of squared amplitudes is unchanged; it alters nothing but the amplitudes and leaves models without a fundamental untouched.",
 ["inputs"],"every pitch/band-count pair of all three codecs times the stated spectra (flat, tilted, single peaks at every band, pairs of peaks, zeros), at all scales in the stated set",
 "Only covered through golden hashes of a few frames.",
 [CORE],[("enhancement","src/core/mbelib.c mbe_spectralAmpEnhance")])
p("C25","Adaptive smoothing follows the error thresholds and never amplifies",
 "The smoothing step tracks local energy recursively from the frame's energy, forces bands above the error-dependent limit to voiced, updates the amplitude threshold from the error history and scales all amplitudes by one common factor, threshold over sum, exactly when their sum exceeds the threshold; with low error rates it changes no voicing, and for every error count a frame can produce the threshold stays positive and no amplitude increases. The error predicates report exactly the documented threshold comparisons.",
 ["inputs","histories"],"the product of error-rate values straddling every threshold, error totals, coset counts, previous energies and thresholds (including saturated and invalid ones) and spectra, and all event histories up to the stated depth",
 "tests/test_api.c checks a few values of the predicates.",
 [AD,"src/internal/mbe_adaptive.h"],[("smoothing","src/core/mbe_adaptive.c mbe_applyAdaptiveSmoothing"),("predicates","src/core/mbe_adaptive.c")],[("local energy, amplitude threshold, error rate","recursive smoothing state")])
p("C26","Every supported build decodes identically",
 "The scalar, SIMD, optimised and fast-math builds classify, correct, conceal and count identically on every history, produce the same integer state, and produce float state and samples that agree within rounding tolerance.",
 ["configurations","inputs","histories"],"all event sequences up to the stated depth and the field-exhaustive frame alphabets, each run in lock-step in four builds",
 "Each build configuration is tested against its own hashes or not at all; the release and SIMD builds skip the golden comparison.",
 ALLS+[PF],[("SIMD and fast-math variants","src/core/mbelib.c, src/core/mbe_unvoiced_fft.c, src/external/pffft/pffft.c, CMakeLists.txt options")])
p("C27","Disabling tones silences tones and changes nothing else",
 "In a build with tone output disabled, every tone frame of either AMBE rate is silent, and every other frame, the state and the status trace are the same as in the normal build.",
 ["configurations","histories"],"all event sequences up to the stated depth over alphabets with tone frames, run in lock-step in the normal and the tone-less build; all tone indices",
 "The tone-less configuration only runs the same unit tests.",
 [CORE,A24,A245],[("compile-time switch","src/core/mbelib.c DISABLE_AMBE_TONES")])
p("C28","Running out of memory degrades a frame but never breaks decoding",
 "If any allocation the library makes fails, at any point of a stream, the call still completes without crashing, returns 160 finite samples with the correct status, the same decisions and the same voiced part, and full quality returns as soon as memory is available again; nothing is leaked by failed attempts.",
 ["fault_sequences","histories"],"every single allocation failure, every pair, every prefix and every suffix of failures over the allocations of the stated histories, on fresh threads",
 "No existing test injects an allocation failure.",
 [UV,PF,CORE],[("lazy FFT plan","src/core/mbe_unvoiced_fft.c mbe_fft_plan_alloc; src/core/mbelib.c mbe_get_fft_plan"),("FFT setup","src/external/pffft/pffft.c pffft_new_setup")])
p("C29","A state can be handed from codec to codec at any point",
 "Feeding frames of different codecs to one state, in any order, is always well defined: AMBE decoding after IMBE or after generic initialisation starts from the AMBE default model with its own muting rule, IMBE decoding after AMBE applies the IMBE muting rule, and from then on each codec's frames are handled by that codec's rules alone.",
 ["histories"],"all sequences up to the stated depth over frames of all four frame formats and their main classes, on one shared state",
 "Tests use a state with one codec only.",
 [AC,I72,A24,A245],[("default-model normalisation","src/ambe/ambe_common.c mbe_ensureAmbeDefaults_common"),("muting threshold","process functions")],SM)
p("C30","State helpers do exactly what they say",
 "Initialisation gives all three parameter sets the same documented default model, independent of their prior contents; moving or reusing parameters copies every field to the destination and never changes the source; silence helpers write 160 zeros; the version helpers return the terminated project version within 32 bytes; helpers that accept null pointers ignore them.",
 ["inputs","histories"],"all orders of helper calls up to the stated depth on parameter sets with distinct poison patterns in every field; every reachable state kind as source",
 "Tests compare a few fields once.",
 [CORE,AD],[("initialise / move / use-last","src/core/mbelib.c"),("silence, version","src/core/mbelib.c")],SM)
p("C31","Decoders forget: clean frames after any burst restore the undisturbed model",
 "After any burst of corrupted, repeated, erased, muted or tone frames, a bounded run of error-free voice frames brings the speech model (pitch, band count, voicing, gain, amplitudes) back to what an undisturbed decoder would hold, repeating ends with the first good frame and error-rate muting as soon as the error rate has decayed, and no disturbance persists or grows. The burst may contain frames of another codec.",
 ["histories"],"all disturbance bursts up to the stated length over all frame classes, foreign codecs included, each followed by the stated run of clean frames, for each codec",
 "No existing test compares decoders with different pasts.",
 [I72,A24,A245,AD],[("predictors","parameter decoders"),("repeat counters","process functions"),("error-rate recursion","process functions")],SM)
p("C32","Sustained impairment never exhausts a counter or accumulator",
 "A stream can run for days with any constant or periodic error pattern: repeat counters, thresholds, energies, error rate, phases and oscillators stay within their ranges, and the handling of the next frame is the same as the rules prescribe early in the stream.",
 ["histories"],"every period-1 and period-2 event pattern over the stated alphabet, each for the stated number of frames (hundreds of thousands for the accumulators)",
 "Tests decode at most a few hundred frames.",
 [AD,CORE,I72,A24,A245],[("amplitude threshold accumulation","src/core/mbe_adaptive.c mbe_applyAdaptiveSmoothing"),("repeat counters","process functions"),("phase wrap","src/core/mbelib.c mbe_synthesizeSpeechf")],SM)
p("C33","The layered entry points compose: a frame call equals its published stages",
 "Processing a whole frame gives the same parameter bits, counts, samples, status and state as running the published stages by hand (first-row correction, descrambling, remaining correction and packing, layout conversion where applicable) and then the parameter-level call, whenever the parameter-level call makes the same repeat decision and the frame has no error in the IMBE row only the frame call reports (row 4); the parameter-level call in turn equals decode, enhance and synthesise for a plain good frame.",
 ["inputs","histories"],"all four frame formats over the stated frame alphabet with 0..3 errors per row, in all event sequences up to the stated depth",
 "Existing tests call either layer, never compare them.",
 [I71,I72,A24,A245],[("frame entry points","src/imbe/*.c, src/ambe/*.c process...Frame functions"),("parameter-level entry points","process...Data functions")],SM)
p("C34","What the library holds is bounded, whatever the history",
 "Memory held on behalf of a thread never exceeds what it holds after having used every codec and primitive for a long time: no sequence of frames, codec changes, reseeding, initialisation, muting, conversion or primitive calls, however long, makes it grow; and threads that have ended leave nothing behind.",
 ["histories"],"all call sequences up to the stated depth over frames of every codec and class and every public primitive, each on a thread of its own; all alternations of two calls and mixed streams for the stated number of calls; sequences of ended threads",
 "Tests run a few dozen frames in one short process and never account for memory.",
 [CORE,"src/core/mbe_unvoiced_fft.c","src/external/pffft/pffft.c"],[("plan creation","src/core/mbelib.c mbe_get_fft_plan"),("plan allocation and release","src/core/mbe_unvoiced_fft.c mbe_fft_plan_alloc")],SM)
p("C35","Debug logging, the reserved ordering flag and char signedness change nothing",
 "Building with debug logging (MBE_ENABLE_DEBUG_LOGS), with the reserved MBELIB_STRICT_ORDER flag, or on a platform whose char is unsigned gives, for every input and history, exactly the samples, status, parameter bits and carried state of the plain build; the only difference is text on stderr.",
 ["inputs","histories"],"all frame sequences up to the stated depth over each codec's alphabet and a mixed one, in lockstep with the plain build in scalar and SIMD form; every pitch code with patterned payloads; arbitrary words and frames through the correction stages",
 "Tests are built once, without these options, and compare with nothing.",
 [CORE,I72,I71,A24,A245,ECC],[("debug blocks","#ifdef IMBE_DEBUG / AMBE_DEBUG / MBE_DEBUG in src/imbe, src/ambe"),("option definitions","CMakeLists.txt")],SM)
p("C36","Dump helpers print exactly the bits they are given; nothing else prints",
 "Each public dump helper writes to stderr the digits of its frame or parameter bits, every bit once, in the documented order (parameter bits in index order; frame rows in order, each from its highest bit down) with only blanks between them, and leaves its input and all decoder state unchanged; no other call of a build without debug logging writes anything to stdout or stderr.",
 ["inputs","histories"],"every pattern of up to two ones or zeros plus windows, periods and arbitrary contents in every dump helper; all ordered pairs over the full frame alphabet and every other public call with both streams captured",
 "No test calls the dump helpers.",
 [I72,I71],[("dump helpers","src/imbe/imbe7200x4400.c, src/imbe/imbe7100x4400.c mbe_dumpImbe...")],SM)
p("C37","Calls leave thread and process as they found them and take nothing from them",
 "Whatever calls a thread makes, and whatever surroundings it makes them in, the floating-point control settings (rounding, denormal handling, exception masks, register mode), the C random generators, locale, signal handlers and masks, timers, descriptors, working directory, environment and other settings of the thread and process are afterwards what they were before; only raised floating-point flags and errno may differ. Results in turn depend on no locale, environment variable, clock, process or thread identity, raised flag, exception trap, errno, signal mask or C random generator.",
 ["inputs","histories","configurations"],"every call first in a freshly loaded library, every two calls followed by others, and long streams, each on a thread of its own in fifteen surroundings (rounding modes, denormals, x87 precision, raised and trapped exceptions, locale, signals, environment, system answers), in three builds",
 "Tests run in one default surrounding and never look at it; a mode changed by one path and not restored alters the host program, not the test.",
 [CORE,AD,UV,PF,A24,A245,I71,I72],[("SIMD paths and runtime dispatch","src/core/mbelib.c, src/core/mbe_unvoiced_fft.c, src/external/pffft/pffft.c"),("lazy per-thread initialisation","src/core/mbelib.c mbe_get_fft_plan"),("rounding and conversion","src/core/mbelib.c mbe_floattoshort"),("generators and seeding","src/core/mbelib.c mbe_setThreadRngSeed, src/core/mbe_adaptive.c")])
p("C38","Every call does a bounded amount of work, whatever came before",
 "No frame, argument or history makes a call loop for ever or take longer and longer: the work of every call stays within what the same kind of call may need in a short history, after any number of frames, tones, muted frames, reseedings, codec changes and threads, for every seed, tone index, phase, level and quality value.",
 ["inputs","histories"],"every ordered pair of about 190 calls followed by others, every pair of pitches, states at the far ends of every accumulator, calls repeated, alternated and mixed for tens of thousands of times, thousands of threads one after another; every basic block executed is counted",
 "Tests run each call a few times and measure nothing; a loop that ends only for usual values, or grows with the stream, passes them.",
 [CORE,AD,UV,PF,A24,A245,I71,I72],[("phase wrapping and oscillators","src/core/mbelib.c mbe_synthesizeSpeechf, mbe_renderTonef"),("generators and seeding","src/core/mbe_adaptive.c, src/core/mbe_unvoiced_fft.c mbe_seedUnvoicedNoiseLcg"),("lazy per-thread initialisation","src/core/mbelib.c mbe_get_fft_plan")],SM)
p("C39","A decoder state is plain data that can be copied, moved, rewound or forked",
 "Between any two calls a decoder state (its three parameter sets) may be copied to other addresses, kept apart, swapped with another stream's, saved and restored to an earlier point, continued twice with different frames, or handed to another thread or another copy of the library; once the generators are seeded, what follows is bit for bit what would have followed without that, and the branches never influence each other.",
 ["histories","interleavings"],"every ordered pair of about 160 frames and primitives as history, continuations of three calls, eleven manners of taking the state away, three builds",
 "Tests decode each stream in place and forwards only; anything kept per address or per thread about a stream agrees with the state there.",
 [CORE,AD,UV,AC,A24,A245,I71,I72],[("tone oscillators","src/core/mbelib.c mbe_renderTonef"),("previous unvoiced block and noise generator","src/core/mbe_unvoiced_fft.c"),("default models on codec change","src/ambe/ambe_common.c mbe_ensureAmbeDefaults_common"),("state helpers","src/core/mbelib.c mbe_moveMbeParms, mbe_useLastMbeParms")],SM)
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
