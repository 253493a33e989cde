"""Registry: what each check builds and explores."""
CHECKS = {
    "C01": dict(variants=["scalar"], harness="c01.cpp",
                technique="exhaustive enumeration of the finite input space against a code defined by its generator polynomial",
                bounds="all 2^23 words x 46 contents above the codeword (packed form), all 2^23 words (bit-array form); every word in an order where consecutive words are neighbours or carry the same error pattern; 4096 first calls of a thread in a freshly loaded library",
                note="complete for the single-call behaviour of both entry points; assumes bits are 0/1 and long is 64 bits"),
    "C02": dict(variants=["scalar"], harness="c02.cpp",
                technique="exhaustive enumeration of the finite input space against codes defined by their check matrices",
                bounds={"quick": "all 2^15 words of both codes x 4 buffer fills; all words after every 61st word and after each of their neighbours; every 128th word as the first call of a thread in a freshly loaded library", "thorough": "as quick, and all 2^30 ordered pairs of consecutive calls per code"},
                note="complete for single calls of both decoders; assumes 0/1 input bits"),
    "C03": dict(variants=["scalar"], harness="c03.cpp",
                technique="exhaustive enumeration of row values, scrambler seeds and correctable error patterns against an independent channel encoder",
                bounds={"quick": "every received word of each protected row, all 4096 seeds, all patterns of <=3 errors per row for 640 payloads, all pairs of patterns for 1 payload, all weight combinations, all pairs of unused positions; frames in orders where seed or error pattern repeats or a clean frame follows a damaged one; first frames of a freshly loaded library; every input of the data stage called on its own", "thorough": "as quick with 4096 payloads per row and 6 payloads per pair of patterns, all 4096x4096 seed/row-1 combinations"},
                note="cross-row combinations of data values beyond the listed pairs are not enumerated (2^49 frames)"),
    "C04": dict(variants=["scalar"], harness="c04.cpp",
                technique="exhaustive enumeration of row values, scrambler seeds and correctable error patterns against an independent channel encoder",
                bounds={"quick": "every received word of each protected row, all 4096 seeds, all correctable patterns per row for 640 payloads, pairs of rows (a fifth of the Golay x Golay pattern pairs), all weight combinations; frames in orders where seed or error pattern repeats or a clean frame follows a damaged one; first frames of a freshly loaded library; every input of the data stage called on its own", "thorough": "4096 payloads per row, all pattern pairs of all row pairs for 6 payloads"},
                note="cross-row combinations of data values beyond the listed pairs are not enumerated (2^88 frames)"),
    "C05": dict(variants=["scalar"], harness="c05.cpp",
                technique="exhaustive enumeration of row values, scrambler seeds, error patterns and pitch values against an independent encoder and permutation",
                bounds={"quick": "as C04 for the 7100 geometry (every received word of each row); conversion for all 256 pitch codes x all pairs of bits x 2 polarities + 512 payloads; 208 equivalent 7100/7200 streams of 8 frames; all ordered pairs of pitch codes converted one after the other; first conversions and first frames of a freshly loaded library; every input of the data stage called on its own", "thorough": "4096 payloads per row, all pattern pairs of all row pairs for 6 payloads"},
                note="cross-row combinations of data values beyond the listed pairs are not enumerated"),
    "C06": dict(variants=["scalar"], harness="c06.cpp",
                technique="exhaustive enumeration of quantizer fields, pitch codes and predictor geometries against a double-precision codec model",
                bounds={"quick": "all 256 pitch codes x 48 previous band counts x 6 previous models; every value of every field for every pitch code; pairs of quantizer fields over their values; all single and a third of the pairs of bits; all ordered pairs of pitches and of previous band counts; every payload after each neighbour; first decode of a freshly loaded library for each pitch; all 3-frame chains over 26 pitches; every value of every field the rules do not name, in both sets, then arbitrary contents", "thorough": "all bit pairs, 8 field bases, 4-frame chains"},
                note="joint values of more than one field beyond bit pairs are not enumerated (the decoder is linear in them); agreement to 4e-5 in log2 amplitude"),
    "C07": dict(variants=["scalar"], harness="c07.cpp",
                technique="exhaustive enumeration of codebook indices, pitch codes, predictor geometries and classification bits against a double-precision codec model",
                bounds={"quick": "all 2^21 values of the classifying bits; all 128 pitch codes x 48 previous band counts x 6 models; every value of every codebook index per pitch; pairs of quantizer fields over their values; all ordered pairs of pitches and of previous band counts; first decode of a freshly loaded library for each pitch; 3-frame chains over 29 pitches; every value of every field the rules do not name, in both sets, then arbitrary contents", "thorough": "all bit pairs, 8 bases, 4-frame chains"},
                note="joint codebook values beyond bit pairs are not enumerated; agreement to 4e-5 in log2 amplitude"),
    "C08": dict(variants=["scalar"], harness="c08.cpp",
                technique="exhaustive enumeration of codebook indices, pitch codes, predictor geometries and tone indices against a double-precision codec model",
                bounds={"quick": "all 128 pitch codes x 48 previous band counts x 6 models; every value of every codebook index per pitch; pairs of quantizer fields over their values; all 512 tone codes x all pairs of other bits; all ordered pairs of pitches and of previous band counts; first decode of a freshly loaded library for each pitch; 3-frame chains over 30 pitches; every value of every field the rules do not name, in both sets, then arbitrary contents", "thorough": "all bit pairs, 8 bases, 4-frame chains"},
                note="joint codebook values beyond bit pairs are not enumerated; agreement to 4e-5 in log2 amplitude"),
    "C09": dict(variants=["scalar", "scalar2"], harness="c09.cpp",
                technique="explicit-state exploration of received-frame histories on the real decoder, every transition judged by an independent decision machine",
                bounds={"quick": "all 3-frame sequences over the event alphabet (payload kinds x count classes x three entry points); bursts of 1-60 equal frames then frame pairs; one step from 25 error rates x 5 repeat counts for all (payload, c0 0..3, total 0..15, c4) combinations; all 6-frame sequences over six kinds of frame; every ordered pair of events in turn for 18 frames, every three kinds in turn for 40, every two kinds for 700; totals up to 127; every value of every field of each of the three sets before every event, 200 arbitrary contents per event and set; every pitch with arbitrary payloads at every repeat count", "thorough": "all 4-frame sequences, bursts of 1-80 then all pairs, 7-frame sequences of kinds, two kinds in turn for 70000 frames"},
                note="signal processing prescribed by the machine is executed by a second copy of the library's own primitives; decisions within 1e-6 of an error-rate threshold are not judged"),
    "C10": dict(variants=["scalar", "scalar2"], harness="c10.cpp",
                technique="explicit-state exploration of received-frame histories on the real decoder, every transition judged by an independent decision machine",
                bounds={"quick": "all 3-frame sequences over the alphabet (voice/silence/erasure/valid tone/invalid tone x counts x two entry points); bursts of 1-60 equal frames then frame pairs; all classifying bits; class x counts x error rate x repeats grid; all 6-frame sequences over six kinds of frame; every ordered pair of events in turn for 18 frames, every three kinds in turn for 40, every two kinds for 700; totals up to 127; every value of every field of each of the three sets before every event, 200 arbitrary contents per event and set; every pitch with arbitrary payloads at every repeat count", "thorough": "all 4-frame sequences, bursts of 1-80 then all pairs, 7-frame sequences of kinds, two kinds in turn for 70000 frames"},
                note="signal processing prescribed by the machine is executed by a second copy of the library's own primitives"),
    "C11": dict(variants=["scalar", "scalar2"], harness="c11.cpp",
                technique="explicit-state exploration of received-frame histories on the real decoder, every transition judged by an independent decision machine",
                bounds={"quick": "all 3-frame sequences over the alphabet; bursts of 1-60 equal frames then frame pairs; 256 tone indices x counts x repeats; tone runs of 10 frames for every single tone; all 6-frame sequences over six kinds of frame; every ordered pair of events in turn for 18 frames, every three kinds in turn for 40, every two kinds for 700; totals up to 127; every value of every field of each of the three sets before every event, 200 arbitrary contents per event and set; every pitch with arbitrary payloads at every repeat count", "thorough": "all 4-frame sequences, bursts of 1-80 then all pairs, 7-frame sequences of kinds, two kinds in turn for 70000 frames"},
                note="signal processing prescribed by the machine is executed by a second copy of the library's own primitives"),
    "C29": dict(variants=["scalar", "scalar2"], harness="c29.cpp",
                technique="explicit-state exploration of mixed-codec histories on one state, every transition judged by an independent decision machine",
                bounds={"quick": "all 4-frame orders over 14 frames of three codecs; runs of 1-64 equal frames then all pairs; all ordered pairs x 6 carried error rates x 5 repeat counts x third frame", "thorough": "all 5-frame orders, runs of 1-70"},
                note="as C09"),
    "C12": dict(variants=["scalar", "simd"], harness="c12.cpp",
                technique="explicit-state exploration of frame histories on the real code with every buffer alone between unmapped pages",
                bounds={"quick": "all 2-frame sequences per codec over ~55 frames (error counts 0..128) and impaired states, each call in float and 16-bit form, two buffer placements, five fills, nine quality values, scalar and SIMD builds", "thorough": "all 3-frame sequences"},
                note="writes to memory other than the caller's buffers are the subject of C13 and C17"),
    "C33": dict(variants=["scalar"], harness="c33.cpp",
                technique="explicit-state exploration: each transition executed twice on the real code, by the composite call and by its published stages, and compared",
                bounds={"quick": "per codec: all 2-frame sequences and a third of all 3-frame sequences, all pairs of flipped channel bits, 2000 arbitrary 6-frame streams, carried error rates x repeats; good frames: all 3-frame sequences over 14 frames and every pitch code", "thorough": "all 3-frame sequences, 20000 arbitrary streams"},
                note="judged where the parameter-level call makes the same repeat decision by its documented rule"),
    "C20": dict(variants=["scalar"], harness="c20.cpp",
                technique="exhaustive enumeration of all generator states and seeds, and exploration of frame histories, against a continuous run of the generator",
                bounds={"quick": "all 53125 generator states; streams of 4 frames from all 53125 starting points; 12 edge seeds and unseeded threads; all 7-frame histories of good/repeated/tone frames per codec", "thorough": "streams of 12 frames with the block checked everywhere; all 9-frame histories"},
                note="the window is observed through the stored overlap, the phase jitter (samples 1..56) and the unvoiced block (the rest); an AMBE erasure, which returns the generator to the previous model's position, is outside the claim"),
    "C22": dict(variants=["scalar", "simd", "neon", "neon32"], harness="c22.cpp",
                technique="exhaustive enumeration of pairs of models and model histories on the real synthesiser, every step judged by an independent double-precision oracle",
                bounds={"quick": "all 208x208 consecutive pitches (half of six voicing combinations each); every single band for 8 pitch steps; every unvoiced count for every band count; all AMBE pitch pairs; all 5-model histories over 7 models; 300-frame runs; scalar build, and sparser SIMD and emulated NEON (AArch64, 32-bit) builds; every value of every field the rules do not name", "thorough": "all six combinations, 6-model histories, 3000-frame runs"},
                note="phases compared modulo 2 pi; samples within the rounding of a single-precision evaluation; steps within rounding of an interpolation decision are not judged"),
    "C23": dict(variants=["scalar", "simd", "neon", "neon32"], harness="c23.cpp",
                technique="exhaustive enumeration of pitches, voicing patterns and generator states on the real synthesiser, every step judged by an independent double-precision oracle",
                bounds={"quick": "all 330 pitches of the three codecs x 48 voicing patterns; histories that mix voiced, partly voiced and unvoiced models; every single unvoiced band of every pitch; 23 levels; all 53125 generator states; all 5-model histories over 6 models; scalar build, and sparser SIMD and emulated NEON (AArch64, 32-bit) builds; every value of every field the rules do not name", "thorough": "160 patterns, 6-model histories"},
                note="agreement to 2e-4 of the block's peak"),
    "C24": dict(variants=["scalar", "simd", "neon", "neon32"], harness="c24.cpp",
                technique="exhaustive enumeration of pitches, band pairs and amplitude shapes on the real code against a double-precision oracle and two arithmetic-free guarantees",
                bounds={"quick": "all 455 pitches of the three codecs x 12 shapes x 40 levels; all two-band models in steps; every band swept over 33 levels; models without fundamental or energy; scalar build, and sparser SIMD and emulated NEON (AArch64, 32-bit) builds; every value of every field the rules do not name", "thorough": "400 levels, every band pair"},
                note="per-band comparison to 3e-5 plus the conditioning of the weight formula in single precision; amplitudes from 2^-16 to 2^36"),
    "C25": dict(variants=["scalar", "simd"], harness="c25.cpp",
                technique="exhaustive enumeration of error histories, thresholds and models on the real code against the documented recursion in double precision",
                bounds={"quick": "all band counts x 15 error rates x 0..20 errors x row-4 flag x shapes x levels; fine sweeps across both limits; all 6-frame histories of 5 models; 200-frame constant patterns; predicates at every float within 2000 steps of each threshold; every value of every field the rules do not name", "thorough": "8-frame histories, 5000-frame patterns"},
                note="voicing within 3e-5 of the limit is not judged; scaling is judged for counts up to 20"),
    "C15": dict(variants=["scalar", "scalar2", "simd", "simd2", "O0", "O3", "fast", "release", "release2", "clang", "neon", "neon_2", "neon32"], harness="c15.cpp",
                technique="exhaustive enumeration of all 32-bit float inputs in nine builds, and lockstep exploration of frame histories in both output forms",
                bounds={"quick": "all non-NaN floats in the scalar, SIMD, release and emulated-NEON builds (the non-constant range and a third of the rest in five others); 27 values at all 160 positions; all 3-frame histories of each codec in lockstep (every fourth in the SIMD, release and NEON builds); the first calls of a freshly loaded library", "thorough": "all floats and all 3-frame histories in every build"},
                note="NaN inputs are outside the claim"),
    "C19": dict(variants=["scalar"], harness="c19.cpp",
                technique="exhaustive enumeration of seeds and of call sequences on the real code against the 48-bit generator",
                bounds={"quick": "4.2 million seeds (all below 2^21); all 5-call sequences over 9 operations, seeded and on new threads; runs of 20000 calls", "thorough": "all 2^32 seeds; all 7-call sequences; runs of 400000 calls"},
                note="samples to 1e-6; 16-bit samples within 1e-4 of an integer boundary accept either side"),
    "C21": dict(variants=["scalar", "simd"], harness="c21.cpp",
                technique="exhaustive enumeration of tone words, start phases and tone sequences on the real code against the frequency table in double precision",
                bounds={"quick": "all 256 indices x 128 amplitudes x start phases x other bits; D-STAR indices -128..383; all ordered pairs with return; runs of 1500 frames of every index; 6-frame streams of every tone; every value of every field the rules do not name", "thorough": "runs of 60000 frames"},
                note="samples to 4e-6 of the level; oscillators to 160 ticks of 2^-32 turn per frame"),
    "C30": dict(variants=["scalar", "simd"], harness="c30.cpp",
                technique="exhaustive enumeration of prior memory contents and of every word of the parameter set",
                bounds="all 256 fills and every word differing before initialisation; every word x 6 patterns through both copy helpers; all fills for silence and version helpers; every documented null argument; initialisation after 60 mixed histories",
                note="the default model is the documented one (IMBE index 134)"),
    "C14": dict(variants=["scalar", "simd", "fast", "release", "clang"], harness="c14.cpp",
                technique="explicit-state exploration of frame histories on the real code in five builds, every sample and every carried field range-checked after every transition",
                bounds={"quick": "all 3-frame sequences per codec and over a mixed alphabet; every error count 1..20 held for 60 frames then every frame; all ordered pairs of pitch codes; payloads found by exhaustive bit-pair ascent to the loudest and quietest steady state for every second pitch, held for 40 frames and followed by every frame; patterned payloads of every pitch; 4000 streams of arbitrary channel frames", "thorough": "all 4-frame sequences; extremes of every pitch from two starting points followed by all frame pairs; 40000 arbitrary streams"},
                note="'bounded' is judged as amplitude <= 1e18 and |log2| <= 300; phases are only required to be finite here (C22 gives their value)"),
    "C16": dict(variants=["scalar", "scalar2", "simd", "release"], harness="c16.cpp",
                technique="explicit-state exploration: every program replayed on the real code after every history of the same thread and compared bit for bit with a fresh thread",
                bounds={"quick": "3-call programs over ~30 operations (frames of all codecs in both sample forms and every public primitive) after all 2-call histories over ~40 operations (half of the programs per history; SIMD and release builds a 16th), changing addresses and buffer contents, 5 seeds; generator histories; a second copy of the library; sample, bit and state buffers at every 4-byte (16-bit samples: 2-byte) page offset", "thorough": "every program after every history, larger alphabets"},
                note="the caller's state is prepared identically; results are compared bit for bit within one build"),
    "C18": dict(variants=["scalar", "simd"], harness="c18.cpp",
                technique="exhaustive exploration of all interleavings of several streams on one thread of the real code, each frame compared bit for bit with the stream alone on a fresh thread",
                bounds={"quick": "all interleavings (252) of two 5-frame streams for all pairs of 26 streams (three codecs, concealment, tones, primitives), of two 4-frame streams on seeded threads for a quarter of the pairs, of three 2-3-frame streams for all triples of 13, of four 2-frame streams", "thorough": "all pairs of 38 streams at 6 frames (924 interleavings) in both builds, all triples, four 3-frame streams"},
                note="samples of comfort-noise frames are only required to be at comfort-noise level"),
    "C13": dict(variants=["asan", "asansimd", "asanneon"], harness="c13.cpp", module="c13", harness_flags=["-O1", "-fsanitize=address,undefined"],
                technique="explicit-state exploration of frame histories on the real code instrumented for address, undefined-behaviour and initialisation errors, every caller buffer an exact-size heap block",
                bounds={"quick": "all 3-frame sequences per codec and mixed (scalar; a quarter in SIMD and in the emulated NEON build), all ordered pairs of pitch codes, error counts to 5000 held 80 frames, all tone words, 3000 streams of arbitrary channel frames, every public stage on 2000 arbitrary inputs, the loudest reachable spectra; under initialisation tracking all 3-frame (scalar) and 2-frame (SIMD) sequences over the full alphabets", "thorough": "half of all 4-frame sequences, everything in both builds, 20000 arbitrary streams"},
                note="accesses inside one caller structure but outside the indexed array are caught where the compiler knows the array bound"),
    "C26": dict(variants=["scalar", "simd", "O0", "O3", "fast", "release", "clang", "neon", "neon32"], harness="c26.cpp",
                technique="lockstep explicit-state exploration of frame histories on nine builds of the real code",
                bounds={"quick": "per build: all 3-frame sequences per codec from the reference build's state (a third in O0, O3, fast, clang and the emulated NEON builds), 10-frame free-running histories, all ordered pitch pairs, all tone words, arbitrary channel frames, all Golay and Hamming words", "thorough": "a third of all 4-frame sequences, 24-frame free-running histories, everything in every build"},
                note="decisions on a threshold within 3e-6 (error rate) or 3e-4 (voicing limit) are not judged; phases modulo 2 pi to 2e-3; samples to 3e-4 of the peak plus 6e-5 of the summed amplitudes"),
    "C27": dict(variants=["scalar", "notones", "simd", "notonessimd"], harness="c27.cpp",
                technique="lockstep explicit-state exploration of frame histories on the builds with and without tones",
                bounds={"quick": "all 3-frame sequences per codec and mixed (SIMD: a third); all 256 indices x 15 levels of both rates amid voice; 24 mixed streams of 600 frames", "thorough": "all 4-frame sequences, all levels, 4000-frame streams"},
                note="the tone oscillators themselves, which the build without tones does not advance, are not compared"),
    "C17": dict(variants=["tsan", "tsansimd"], harness="c17.cpp", harness_flags=["-O2", "-rdynamic"],
                technique="stateless exploration of thread schedules of the instrumented real code under a controlled scheduler with happens-before race detection, each schedule in a fresh process",
                bounds={"quick": "all ordered pairs of 8 thread programs (every codec's first use, seeding, tones, muting, conversion, primitives): one preemption at every scheduling point (about 340 per run; every eighth in the SIMD build), two preemptions on a 20x20 grid of points (8x8 SIMD), a quarter of the program triples with two hand-overs on a 6x6 grid; all ordered pairs of short programs over every kind of frame and every public primitive, serially and with hand-overs", "thorough": "one preemption everywhere in both builds, two preemptions on a 100x100 grid, all triples on a 24x24 grid"},
                note="scheduling points: function entry and exit, allocation, locks, atomics, and accesses to memory seen by two threads and written by one; memory is explored sequentially consistent, unordered conflicting accesses are reported as such whatever the schedule"),
    "C28": dict(variants=["fault", "fault2", "faultsimd", "faultsimd2"], harness="c28.cpp", harness_flags=["-O2", "-rdynamic"], level="fault_enumeration", rule="every subset (as bounded) of the allocations a stream makes is made to fail, by index of the allocation on the thread, by position within a frame, by window and by period",
                technique="exhaustive enumeration of allocation-failure patterns injected into the real code, in lockstep with a second copy whose allocations never fail",
                bounds={"quick": "11 streams of all codecs in both sample forms, each on a fresh thread: every pattern of failures over the first 13 allocations (11 in the SIMD build); every single failure, pair, window, prefix plus one and suffix over the first 60; every period up to 12 for up to 300 allocations; every subset of the first 8 frames short of memory from every allocation of the frame on", "thorough": "every pattern over the first 20 allocations (SIMD 18), subsets of 12 frames, 3000 allocations"},
                note="an allocation may fail at every call site the library has (malloc, calloc, realloc, aligned allocation); blocks are poisoned when given and when freed"),
    "C31": dict(variants=["scalar"], harness="c31.cpp",
                technique="explicit-state exploration of disturbance bursts on the real code, each followed by clean frames compared with a decoder that never saw the burst",
                bounds={"quick": "every single frame and every second ordered pair over the full alphabet of the codec (about 60 events, arbitrary channel frames included); all triples of the small alphabet; every frame held alone or alternating for up to 2000 frames; every second ordered pair of frames of the other codecs; each followed by clean frames of one of four suffixes for at least 48 frames and until the error rate has decayed", "thorough": "all pairs with all suffixes, all quadruples of the small alphabet, every alternation, held for 40000 frames"},
                note="gain and log amplitudes within 1e-3 after 44 clean frames, the played model once the error rate is below 0.45 percent; phases are not part of the model"),
    "C32": dict(variants=["scalar", "scalar2"], harness="c32.cpp",
                technique="explicit-state exploration of long periodic frame histories on the real code, every frame range-checked and the decision rules judged from the states reached",
                bounds={"quick": "all alternating pairs of each codec's alphabet and a mixed one for 600 frames, every event of the full alphabet alone for 12000 frames, one frame of each kind alone and amid every other for 66000 frames, twelve frames that cost little to decode each alone for 2 million frames, an eighth of the burst patterns (20 shapes per pair) for 400 frames, six lightly impaired streams for 100000 to 400000 frames; the threshold accumulator alone for 1.5 million frames at every error count; all event pairs from states at the far end of every accumulator", "thorough": "12000, 300000, 4000 (all shapes), 3 million and 20 million frames"},
                note="the rules are judged at the powers of two, every 997th frame, the last two, and for four frames of every event at the end"),
    "C34": dict(variants=["fault", "faultsimd"], harness="c34.cpp", harness_flags=["-O2", "-rdynamic"],
                technique="exhaustive enumeration of call histories on the real code with every allocation and release accounted for",
                bounds={"quick": "about 110 calls (frames of every codec and class, every primitive, seeding, initialisation): every ordered pair followed by every fifth third call on a thread of its own (SIMD: every sixteenth), every pair alternating 40 times, every pair of primitives amid 160 calls, 48 streams of 12000 calls, histories of 12000 calls whose arguments never repeat (frames, states at 512 addresses, seeds, tones, models, words, samples), 12 threads after each other from every first call; the bytes held are judged after every call", "thorough": "every sequence of three, 3000 alternations, 400000-call streams, 200 threads"},
                note="judged against what a thread holds that has used everything in a 3000-call warm-up; memory in flight during a call is not bounded"),
    "C35": dict(variants=["scalar", "simd", "debuglog", "debuglogsimd", "strict", "strictsimd", "uchar", "ucharsimd"], harness="c35.cpp",
                technique="lockstep explicit-state exploration of frame histories on the plain build and each option build of the real code, compared bit for bit",
                bounds={"quick": "per option build (debug logging, reserved ordering flag, unsigned char): every ordered pair per codec and mixed followed by every second third frame (SIMD: every ninth), every pitch code with five payloads at both layers, 24 mixed streams of 400 frames, the parameter decoders and the stages after them for every pitch and tone code from four kinds of state, 15000 arbitrary words and frames through the correction stages", "thorough": "all 3-frame and a quarter of all 4-frame sequences, 5000-frame streams"},
                note="log lines on stderr are not judged"),
    "C36": dict(variants=["scalar"], harness="c36.cpp",
                technique="exhaustive enumeration of bit patterns through every dump helper of the real code, and of frame pairs with the standard streams captured",
                bounds={"quick": "every pattern with up to two ones or two zeros in every dump helper, windows, periods and arbitrary contents, cells without a bit set and clear; every ordered pair of about 170 frames and every other public call printing nothing; 1 to 12 times every frame followed by every second frame and another, carried error rates and repeats, 32 streams of 4000 frames and every pitch and tone code printing nothing; and decoding the same with dumps in between", "thorough": "every window, 2000 arbitrary contents per starting digit"},
                note="blanks between the digits are free"),
    "C37": dict(variants=["fault", "faultsimd", "release"], harness="c37.cpp", harness_flags=["-O2", "-rdynamic"],
                technique="explicit-state exploration of call histories on the real code in every surrounding, with the state of thread and process compared around every call or history and the results compared across surroundings",
                bounds={"quick": "about 150 calls (frames of every codec and class, every primitive, ever new arguments), 15 surroundings: every call first in a freshly loaded library, every ordered pair then two more calls (a quarter of the surroundings per pair; SIMD and release a twelfth), every call amid failing allocations (132 patterns), streams of 500 to 1500 calls in all surroundings; floating-point control state compared after every call, about 150 process settings after every history", "thorough": "all surroundings for every pair in every build, streams of 60000 calls"},
                note="raised floating-point flags and errno may change; results are not compared where rounding or denormal handling differ; an operation that traps goes on untrapped and its masks are not judged afterwards"),
    "C38": dict(variants=["count", "countsimd"], harness="c38.cpp", harness_flags=["-O2", "-rdynamic"],
                technique="explicit-state exploration of call histories on the real code with every basic block executed counted",
                bounds={"quick": "about 190 calls (frames of every codec and class, every primitive, arguments at the ends of their ranges, ever new arguments): every ordered pair followed by every eleventh call (SIMD: a quarter of that), every pair 15 times in turn, pairs of pitches of each codec, 64 far-end states x every call, each call 25000 times over (small calls 100000), 48 mixed streams of 25000 calls, 24 x 1500 threads that all make the same calls", "thorough": "all triples, a million calls each, 20000 threads in a row"},
                note="bound: one and a half times the most any call needs in a short history, four times its own for calls that do not synthesise; time inside libm and the kernel is not counted, bytes moved and allocations are"),
    "C39": dict(variants=["scalar", "scalar2", "simd", "simd2", "release", "release2"], harness="c39.cpp",
                technique="explicit-state exploration of call histories on the real code, the state taken, moved, rewound, forked or handed over at every point and the continuation compared bit by bit with the undisturbed one",
                bounds={"quick": "161 frames and primitives: every ordered pair as history, every fortieth frame as continuation (SIMD and release: every 160th), two calls after it, each in eleven manners: rewound, moved, scattered, on a new or a busy thread, in another copy of the library, forked, exchanged with another stream, played twice, moved between frames, in used memory", "thorough": "every fourth continuation in every build"},
                note="the generators are seeded when the state is taken, as their state belongs to the thread; copies of the library are of the same build"),
}
NOT_APPLICABLE = {}
