T = "symbolic execution of the clang IR of the real functions; every assertion decided by z3 over all inputs within bounds"
CLAIMS = {
 "P01": (T, "Layout decided at full width for the listed sizes (every component value); algebra for all reduced coprime forms with small a and windows of large a, c symbolic. GMP calls are modelled (contract), not executed; models are cross-checked by native replay of solver models on the ASan/UBSan build."),
 "P04": (T, "Accept-iff decided for every listed proof length (up to two segments) with every length-changing argument symbolic; the group law, hashing and decoding are uninterpreted functions (decided by P01-P03, P07-P11)."),
 "P02": (T, "Every 100-byte string decided for the listed discriminant and g sizes at full width; decompression re-check decided over unbounded integers with compression abstracted."),
 "P09": (T, "Decided for every form with one small outer coefficient (split on its values), every b in a window wider than the normalised range, and the other outer coefficient symbolic up to 2000 bits; oracle is textbook reduction written independently in the harness."),
 "P10": (T, "Decided for every pair of small a1, a2 listed, all b in a window and all c (polynomial in one symbolic integer), for both branches of NUCOMP/NUDUPL and the slow and reference products; multi-word a on windows. Oracle: Gauss composition and textbook reduction in the harness."),
 "P03": (T, "The real DeserializeForm and from_abd/is_reduced run for every (a, b) in windows and every negative discriminant (all residues modulo 4a, quotients up to about 1010 bits); the byte decoder is an arbitrary function (decided by P01/P02)."),
 "P05": (T, "Verdict decided for every discriminant, iteration count and form; group operations, hashing and encoding are uninterpreted functions of all their arguments (decided by P01, P07, P09-P11)."),
 "P11": (T, "Square-and-multiply run over a formal generator: every exponent below 2^12, 9-bit families of exponents up to 1024 bits; modular power for all bases, exponents and moduli of the stated widths."),
 "P12": (T, "The three generators run over formal group exponents: every combination of quotient digits and every intermediate for the listed T, k, l; the digit formula for every residue, modulus and iteration count. Threads of the parallel prover run in one order."),
 "P13": (T, "Slot arithmetic decided with the iteration symbolic over its whole supported range; buckets, strides and switch residues are listed concretely, the fast engine checkpoint queue and refill with one thread."),
 "P14": (T, "The real driver loop runs with the fast engine replaced by every possible outcome of a batch (any completed count, corruption, stop request), after concrete prefixes that reach the 91 million switch and the 2-weso maximum; every requested count symbolic. Decides also the portable driver. The phased assembly engine itself is outside."),
 "P16": (T, "Layout, chaining and lengths decided for every request; challenge, proof generation and encoding are stand-ins tagged with what they were computed from (decided by P12, P07, P01). Prover threads run at their start; the squaring thread is an environment that advances or stops at each wait."),
 "P18": (T, "All values of every integral type pair instantiated; no bound."),
 "P20": (T, "Every operator against the compiler's native 128-bit type, operands symbolic at full width; 32-bit partial products shared between code and oracle (abstracted); division bounded. String construction and printing are outside."),
 "P21": (T, "All operands. Only the C variants of this architecture can be encoded: MSVC and ARM variants and the inline-assembly instruction itself are outside (the hardware path is switched off)."),
 "P19": (T, "The system allocator is a stand-in that records calls and returns blocks at every 16-byte position within a cache line; failure of the system allocator is outside."),
}
NA = {}
