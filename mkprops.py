import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
S="src/scalar/"
p("C01","Fixed-size kernels compute the exact Hartley transform",
 "Each fixed-size transform (sizes 1, 2, 3, 4, 5, 6, 8, 9 and 16) maps its input x to X[k] = sum_j x[j]*(cos(2*pi*j*k/n)+sin(2*pi*j*k/n)), up to rounding of the element type. The in-place and the out-of-place entry points give the same result.",
 ["inputs","configurations"],"for every kernel size, every real input vector, both entry points, every element type",
 "The tests run one pseudo-random positive vector per kernel and accept a mean absolute error of 0.1, so a wrong or inexact constant, or an error visible only on some inputs, passes; linearity over all inputs and exactness need proof.",
 [S+"butterflies.rs","src/array_utils.rs","src/twiddles.rs"],
 [("size-specific straight-line networks",S+"butterflies.rs: perform_dht_contiguous of each kernel"),("raw aliasing slices","src/array_utils.rs: RawSlice, RawSliceMut")],
 ["Dht::process*", "Butterfly1..16"])
p("C02","The reference transform computes the Hartley definition at every length",
 "The reference (naive) transform of any length n >= 1 maps x to X[k] = sum_j x[j]*cas(2*pi*j*k/n) for every k, in place and out of place.",
 ["inputs","configurations"],"for every length n >= 1 and every real input vector of that length",
 "The tests sample lengths 1 to 19 with one random vector each and a tolerance of 0.1 on the mean; every other transform is tested only against this one.",
 [S+"dht_naive.rs","src/twiddles.rs"],
 [("twiddle table and wrap-around index",S+"dht_naive.rs: DhtNaive::new, perform_dht_out_of_place"),("cas constant","src/twiddles.rs: compute_dht_twiddle")],
 ["DhtNaive::process*"])
p("C03","General two-factor transform equals the Hartley transform of the product length",
 "Given two inner transforms that compute the Hartley transform at lengths w and h, the general mixed-radix transform built from them computes the Hartley transform of length w*h. This holds for every pair of lengths >= 1 (odd, even, equal, coprime or not), in place and out of place.",
 ["inputs","configurations"],"for all widths and heights >= 1, all inner transforms meeting the transform contract, all inputs",
 "Tests sample 1 <= w,h <= 8 with one positive random vector and a tolerance of 0.1 in f32; the identity has parity cases in both factors and index arithmetic that must hold for all w and h.",
 [S+"mixed_radix.rs","src/twiddles.rs"],
 [("four-way mirrored twiddle rotation",S+"mixed_radix.rs: apply_twiddles"),("six-step transposes and half reversals",S+"mixed_radix.rs: perform_dht_inplace, perform_dht_out_of_place"),("twiddle table",S+"mixed_radix.rs: MixedRadix::new")],
 ["MixedRadix::process*"])
p("C04","Radix-2/3/4/5/6 step transforms equal the Hartley transform of r*n",
 "Given an inner transform that computes the Hartley transform at length h >= 1, each of the radix-2, -3, -4, -5 and -6 step transforms built on it computes the Hartley transform of length r*h, for r = 2, 3, 4, 5, 6. In-place and out-of-place entry points agree.",
 ["inputs","configurations"],"for every inner length h >= 1 (odd and even), every inner transform meeting the transform contract, every input, r in 2..6",
 "Tests sample h in 1..6 with one vector each and tolerance 0.1; errors confined to larger columns, to the middle column of even heights, or to signed/zero inputs pass.",
 [S+"radix2.rs",S+"radix3.rs",S+"radix4.rs",S+"radix5.rs",S+"radix6.rs","src/array_utils.rs"],
 [("transpose with reversed second half","src/array_utils.rs: transpose_half_rev_out"),("column loop over (c, h-c) pairs","apply_twiddles of each MixedRadixNxn"),("twiddle tables","new of each MixedRadixNxn")],
 ["MixedRadix2xn..6xn::process*"])
p("C05","Power-of-two transform is the Hartley transform for every power of two",
 "The radix-4 transform of any power-of-two length n = 2^m, m >= 0, computes the Hartley transform of length n, in place and out of place.",
 ["inputs","configurations"],"for every m >= 0 and every input of length 2^m",
 "Tests stop at length 64, i.e. at most one radix-4 layer above the base kernel; the multi-layer reordering and twiddle layout (which was in fact wrong from length 128 on) is never exercised.",
 [S+"radix4.rs",S+"butterflies.rs"],
 [("recursive digit reordering with reversal",S+"radix4.rs: prepare_radix4, prepare_radix4_reversed"),("layered butterflies and packed twiddle layers",S+"radix4.rs: Radix4::new, perform_dht_out_of_place, butterfly_4")],
 ["Radix4::process*"])
p("C06","Split-radix transform equals the Hartley transform of length 4q",
 "Given inner transforms that compute the Hartley transform at lengths q and 2q, the split-radix transform built from them computes the Hartley transform of length 4q for every q >= 1, in place and out of place.",
 ["inputs","configurations"],"for every q >= 1, every inner pair meeting the transform contract, every input",
 "Tests sample q in 1..29 with one positive vector each and tolerance 0.1 in f32, always with the naive inner transform.",
 [S+"split_radix.rs"],
 [("decimation-in-frequency twiddles on mirrored quarters",S+"split_radix.rs: apply_twiddles"),("in-place re-interleave",S+"split_radix.rs: perform_dht_inplace"),("twiddle pairs",S+"split_radix.rs: SplitRadix::new")],
 ["SplitRadix::process*"])
p("C07","Prime-length transform is the Hartley transform for every prime",
 "Given an inner transform that computes the Hartley transform at length p-1, the prime-length (Rader) transform built on it computes the Hartley transform of length p, for every prime p, in place and out of place. Construction succeeds exactly when inner length + 1 is prime, and panics otherwise.",
 ["inputs","configurations"],"for every prime p (p < 2^32, so that index products fit the machine word), every inner transform meeting the contract, every input",
 "Tests sample p = 3, 5, 7 only; correctness rests on a generator of the multiplicative group being found for every prime, and on a cyclic-convolution identity of arbitrary length.",
 [S+"raders_algorithm.rs","src/math_utils.rs","src/twiddles.rs"],
 [("generator search","src/math_utils.rs: primitive_root, distinct_prime_factors, modular_exponent"),("generator-power reordering and convolution",S+"raders_algorithm.rs: new, perform_dht_inplace, perform_dht_out_of_place")],
 ["RadersAlgorithm::new","RadersAlgorithm::process*"])
p("C08","Batches: every chunk is transformed, independently and in order",
 "When a buffer holds several consecutive signals of the transform's length, every signal is replaced by (or, out of place, has written at the same offset of the output) exactly its own transform, whatever the number of signals and whatever the other signals, the scratch or the previous output contents are. The convenience entry point that allocates its own scratch gives the same result.",
 ["inputs","histories"],"for every transform kind, every number of chunks >= 1, every content of the buffer, output and scratch",
 "All tests but one call with a single chunk; chunk iteration, offsets, leftover scratch from the previous chunk and dirty output are universally quantified.",
 ["src/macros.rs","src/array_utils.rs","src/lib.rs",S+"butterflies.rs"],
 [("chunk iteration","src/array_utils.rs: iter_chunks, iter_chunks_zipped"),("process entry points","src/macros.rs, boilerplate_fft_butterfly, Butterfly1, Dht::process")],
 ["Dht::process, process_with_scratch, process_outofplace_with_scratch"])
p("C09","Ill-sized calls are rejected by a panic, well-sized calls are not",
 "For a transform of length n >= 1, a call panics exactly in the documented cases: the buffer is shorter than n or not a multiple of n, the output length differs from the input length, or the scratch is shorter than the reported requirement. Every other call returns normally, for every length and every inner transform.",
 ["inputs","configurations"],"for every transform kind and length, every buffer, output and scratch length",
 "No test calls with a wrong size, with more than one chunk for most transforms, or with surplus scratch; absence of index panics, overflow panics and failed asserts is over all lengths.",
 ["src/lib.rs","src/macros.rs","src/array_utils.rs",S+"*.rs"],
 [("size checks and cold error functions","src/macros.rs, src/lib.rs: dht_error_inplace, dht_error_outofplace"),("remainder detection","src/array_utils.rs: iter_chunks, iter_chunks_zipped")],
 ["Dht::process*"])
p("C10","No memory access outside the caller's buffers",
 "No call through the safe public interface, with any lengths of buffer, output and scratch (valid or not), reads or writes memory outside the slices it was given or its own precomputed tables. Nothing outside the buffer, output, input and scratch arguments is modified.",
 ["inputs","configurations"],"for every transform kind, every length, every combination of argument lengths",
 "The code uses unchecked indexing and raw pointers throughout its inner loops; a test run that stays in bounds says nothing about other lengths, and an out-of-bounds read need not fail a test.",
 ["src/array_utils.rs",S+"*.rs"],
 [("unchecked transposition","src/array_utils.rs: transpose_half_rev_out"),("raw slices","src/array_utils.rs: RawSlice::load, RawSliceMut::store"),("unchecked loops",S+"split_radix.rs, "+S+"radix4.rs, "+S+"butterflies.rs")],
 ["Dht::process* under any argument lengths"])
p("C11","Scratch contract: reported scratch suffices, contents never matter",
 "A call that supplies scratch of at least the reported length succeeds, and its result does not depend on what the scratch or output held before, nor on how much longer the scratch is. A composed transform always hands each inner transform at least the scratch that inner transform reports, however much that is.",
 ["inputs","configurations"],"for every transform kind, every inner transform with arbitrary in-place and out-of-place scratch requirements, every initial content of scratch",
 "Only one of the composed transforms is tested with scratch-hungry inner transforms, at three sizes; the others were never tested with any and violated this.",
 [S+"mixed_radix.rs",S+"radix2.rs",S+"radix3.rs",S+"radix4.rs",S+"radix5.rs",S+"radix6.rs",S+"split_radix.rs",S+"raders_algorithm.rs","src/macros.rs"],
 [("scratch sizing","new of every composed transform: inplace_scratch_len, outofplace_scratch_len"),("scratch routing","perform_dht_inplace / perform_dht_out_of_place of every composed transform")],
 ["get_inplace_scratch_len, get_outofplace_scratch_len, process*"])
p("C12","Constructors report the right length and reject unusable parameters",
 "Every constructed transform reports the length its constructor promises: n for the reference and power-of-two transforms, the product of the factors for the mixed-radix transforms, four times the quarter length for split radix, the inner length plus one for the prime transform, and the fixed size of each kernel. The power-of-two constructor panics for every length that is not a power of two, split radix panics unless the half length is twice the quarter length, and the prime-length constructor panics unless the inner length plus one is prime; all other constructions from non-empty inner transforms succeed.",
 ["configurations"],"for every constructor argument and every inner transform",
 "Tests construct a few dozen valid instances and no invalid one.",
 [S+"*.rs","src/macros.rs"],
 [("constructors and their asserts","new of every transform"),("length report","src/macros.rs: Length impls")],
 ["new, len"])
p("C13","Precomputed constants carry full double precision",
 "Every constant a transform multiplies data by (twiddle factors, kernel constants, normalisation factors) is within rounding error of double precision of its exact mathematical value before conversion to the element type, for every length. Hence f64 transforms are accurate to f64 rounding, not merely to f32.",
 ["configurations","inputs"],"for every transform kind, length and table index",
 "Tests accept a mean error of 0.1 on values of magnitude tens to hundreds, so constants wrong in the fourth digit pass; the f32-rounded sqrt(1/2) that limited f64 results to 1e-8 passed.",
 ["src/twiddles.rs",S+"*.rs"],
 [("constant generators","src/twiddles.rs"),("scale factors","root2 in "+S+"mixed_radix.rs, radix3.rs, radix5.rs, radix6.rs; normalization_scale in raders_algorithm.rs")],
 ["results of process* at f64"])
p("C14","Transforms are pure: no state survives a call",
 "The result of a call depends only on the transform's construction parameters and the data passed in that call: repeating it, interleaving it with other calls, or running it from several threads on the same shared transform gives the same result. Calls never modify the transform or any shared or global state.",
 ["histories","schedules"],"for every history and interleaving of calls on shared transforms",
 "Tests make at most two sequential calls on one instance and no concurrent ones.",
 ["src/lib.rs","src/macros.rs",S+"*.rs"],
 [("shared-reference receivers, Sync bound","src/lib.rs: Dht"),("no interior mutability","fields of every transform struct")],
 ["Dht::process* from several threads"])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
