"""Single source of properties.jsonl and MANIFEST.json: python3-vt props.py"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = list(observe)
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Encoding a form and decoding it gives the form back",
     "Encoding any reduced form of a negative discriminant whose a and b are coprime (every form of the protocol's prime discriminants) yields exactly 100 bytes, and decoding those bytes for that discriminant yields the identical form. The compressed components are laid out as documented (flag byte, size of g, then a, |t|, g, b0 little-endian and zero-padded), a component that does not fit its field is refused, and nothing is written past the encoding.",
     ["inputs"], "every reduced form of every discriminant size up to 1024 bits; every value of every compressed component",
     "tests encode a handful of forms of one or two discriminants; field boundaries, g > 1, negative t and small discriminants are practically never hit",
     ["src/bqfc.c", "src/bqfc.h", "src/proof_common.h"], [("compression of (a,b) and its inverse", "bqfc.c bqfc_compr/bqfc_decompr"), ("byte layout", "bqfc.c bqfc_serialize_only/bqfc_deserialize_only"), ("entry points", "proof_common.h SerializeForm/DeserializeForm")],
     ["the 100 bytes returned by the encoder", "the form returned by the decoder"])
prop("P02", "The decoder accepts only canonical encodings",
     "A 100-byte encoding without the identity/generator flag is accepted only if it is byte for byte the encoding of the coefficients (a, b) it decompresses to (before any class reduction), padding included, so no two accepted encodings decompress to the same coefficients. Encodings of any other length, and any encoding for a discriminant of 0 or more than 1024 bits, are rejected; in strict mode a decompressed b whose magnitude exceeds a is rejected too, so every reduced form then has one accepted encoding; and the flagged special encodings decode to (2,1) when the generator flag is set and (1,1) otherwise whatever the rest holds.",
     ["inputs"], "every byte string of every length, every discriminant size, strict and lenient",
     "tests mutate one or two known encodings; malleability hides in a single unchecked byte or flag bit out of 100",
     ["src/bqfc.c"], [("re-encode and compare", "bqfc.c bqfc_verify_canon"), ("size gates", "bqfc.c bqfc_deserialize, bqfc_get_compr_size"), ("strict range check", "bqfc.c bqfc_decompr")], ["return value of the decoder"])
prop("P03", "A decoded form is a reduced form of the given discriminant",
     "Whenever decoding succeeds, the returned form (a,b,c) satisfies b*b - 4*a*c = D exactly for the discriminant it was decoded for, and is reduced (|b| <= a <= c, and b >= 0 when either equality holds). Every other input is rejected with an exception, without reading outside the given bytes.",
     ["inputs"], "every (a,b) the byte decoder can produce and every negative discriminant",
     "tests decode valid forms of one discriminant; a form with the wrong discriminant or an unreduced one needs crafted input",
     ["src/proof_common.h", "src/vdf_new.h"], [("reconstruction of c and divisibility", "vdf_new.h form::from_abd, form::is_reduced"), ("decode gate", "proof_common.h DeserializeForm")], ["form returned by the decoder or the exception"])
prop("P04", "The n-Wesolowski verifier accepts exactly the valid proofs",
     "Verification of an n-Wesolowski proof accepts if and only if the discriminant is negative with at most 1024 bits, the proof length is exactly that of the claimed depth, every form decodes, the segments taken from the last to the first each carry the challenge prime that hashing their endpoints gives and use up no more than the remaining iterations, and the final pair (y, proof) satisfies proof^B * x^(2^T mod B) = y for the iterations T left over. The variant that is given the last challenge checks it against the recomputed one and returns the encoding of the computed y; the variant that only recovers the challenge returns the hash of the last segment's endpoints.",
     ["inputs"], "every proof blob, depth, iteration count, discriminant and starting form",
     "tests verify honest proofs and a few corrupted ones; unsigned wrap of lengths and iteration counts, segment order and partial consumption need adversarial proofs",
     ["src/verifier.h", "src/proof_common.h"], [("length and depth gate", "verifier.h CheckProofOfTimeNWesolowski"), ("per-segment check", "verifier.h VerifyWesoSegment"), ("WithB and GetB variants", "verifier.h CheckProofOfTimeNWesolowskiCommon/WithB, GetBFromProof")], ["boolean verdict, returned y / challenge, exceptions"])
prop("P05", "The Wesolowski equation is evaluated exactly",
     "Checking a single Wesolowski proof answers true exactly when proof^B * x^(2^T mod B) equals y as forms of the given discriminant, where B is the challenge prime hashed from the 100-byte encodings of x then y. No other input, and no state of a previous call, influences the answer.",
     ["inputs"], "every x, y, proof, iteration count and challenge",
     "tests check honest proofs and one corruption",
     ["src/verifier.h", "src/proof_common.h"], [("equation", "verifier.h VerifyWesolowskiProof"), ("challenge", "proof_common.h GetB, FastPow")], ["is_valid"])
prop("P06", "Untrusted verifier arguments are rejected without memory errors",
     "The verification entry points reachable from the C and Python bindings never read outside the buffers they were given and never crash, abort or divide by zero, whatever the lengths, discriminant, seed, depth or iteration count; malformed arguments give a negative answer or an exception. In particular a starting form shorter than 100 bytes, an empty buffer, a zero, positive or oversized discriminant and an out-of-range size are refused.",
     ["inputs"], "every argument of every binding entry point, every buffer length",
     "tests pass a few bad sizes; an out-of-bounds read of a few bytes goes unnoticed in an ordinary run",
     ["src/verifier.h", "src/python_bindings/fastvdf.cpp", "src/c_bindings/c_wrapper.cpp", "src/create_discriminant.h"], [("range gates", "verifier.h IsDiscSizeBitsInRange/IsDiscriminantInRange"), ("argument conversion", "fastvdf.cpp, c_wrapper.cpp")], ["return values, exceptions, sanitizer reports"])
prop("P07", "Discriminants and challenges are the specified hash-derived primes",
     "Hashing to a prime concatenates SHA-256 digests of the seed followed by successive big-endian counter increments, truncates to the requested size, sets the requested bits and bit 0, and returns the first candidate that is a probable prime, continuing the same counter sequence for later candidates. A discriminant is the negation of such a prime with the top bit and the three low bits set (so it has exactly the requested size and is 1 mod 8); sizes that are not positive multiples of 8 up to 1024 and an empty seed are refused.",
     ["inputs"], "every seed and every size; every outcome of the primality test",
     "tests compare a few seeds against stored values; counter carry, candidate reuse and truncation differ only on rare inputs",
     ["src/proof_common.h", "src/create_discriminant.h"], [("candidate generation", "proof_common.h HashPrime"), ("argument gates", "create_discriminant.h CreateDiscriminant")], ["returned integer, exceptions"])
prop("P08", "The bundled SHA-256 is SHA-256",
     "The bundled hash computes FIPS 180-4 SHA-256 of its input for every message: initial state, round constants and functions, message schedule, big-endian digest and the padding with the 64-bit message length. The digest depends on nothing but the message, also when it is fed in several pieces.",
     ["inputs"], "every message of every length, in one piece or several",
     "tests hash a few short seeds; padding and block-boundary errors appear only for particular lengths",
     ["src/picosha2.h"], [("block function", "picosha2.h detail::hash256_block"), ("padding and length", "picosha2.h hash256_one_by_one")], ["32-byte digest"])
prop("P09", "Reduction keeps the class and returns a reduced form",
     "Reducing any form with positive a and negative discriminant yields a form with the same discriminant that is equivalent to the input (obtained by a unimodular change of variables) and reduced: |b| <= a <= c, with b >= 0 when a = c. The verifier-side, reference and fast reducers agree on that result, up to the sign of b when |b| = a.",
     ["inputs"], "every positive definite form",
     "tests reduce forms arising from a few squarings; boundary cases (a = c, |b| = a, huge quotients) practically never arise",
     ["src/vdf_new.h", "src/Reducer.h", "src/vdf_original.h", "src/proof_common.h"], [("form::reduce/normalize", "vdf_new.h"), ("Pulmark reducer", "Reducer.h"), ("reference reducer", "vdf_original.h")], ["reduced (a,b,c)"])
prop("P10", "Composition and squaring compute the class group product",
     "Composing two forms, or squaring one, of the same discriminant yields a form of that discriminant in the class of the product, in every code path: equal, inverse or identity operands, operands with common factors, and operands whose partial Euclid step is taken or skipped. The slow reference composition and the fast one agree after reduction.",
     ["inputs"], "every pair of forms of the same discriminant",
     "tests square generic forms of large prime discriminants, where common factors and degenerate branches have negligible probability",
     ["src/nucomp.h", "src/xgcd_partial.c", "src/vdf_new.h", "src/vdf_original.h"], [("NUCOMP/NUDUPL", "nucomp.h qfb_nucomp/qfb_nudupl"), ("partial xgcd", "xgcd_partial.c"), ("form multiplication", "vdf_new.h operator*, vdf_original.h")], ["(a,b,c) of the result"])
prop("P11", "Exponentiation raises a form to exactly the given power",
     "Raising a form to a non-negative exponent returns the reduced power for every exponent, including zero (the identity), one, powers of two and exponents far beyond 64 bits. The modular power used for challenges returns 2^e mod B for every e and every non-zero B and refuses B = 0.",
     ["inputs"], "every exponent and base, whether or not intermediate results grow past the reduction threshold",
     "tests use random 264-bit exponents",
     ["src/proof_common.h"], [("square and multiply", "proof_common.h FastPowFormNucomp"), ("modular power", "proof_common.h FastPow")], ["returned form / integer"])
prop("P12", "Every prover produces the Wesolowski quotient power",
     "For every segment length, window size k and stride l, each proof generator returns x^floor(2^T / B) computed from the stored intermediate x^(2^(i*k*l)) forms, where B is the challenge of (x, y): each base-2^k digit of the quotient is used exactly once at its weight, including a partial last window. The digit function returns floor(2^k * (2^(T-k(i+1)) mod B) / B).",
     ["inputs", "configurations"], "every T, k, l and challenge",
     "tests prove a few lengths with the parameters the heuristic picks; remainders of T modulo k*l, odd k and l > 1 are sampled thinly",
     ["src/prover_impl.hpp", "src/prover_slow.h", "src/provers.h"], [("generic prover", "prover_impl.hpp Prover::GenerateProof, GetBlock"), ("parallel prover", "prover_impl.hpp ParallelProver::ProvePart"), ("slow prover", "prover_slow.h GenerateWesolowski, ProveSlow")], ["proof form"])
prop("P13", "Stored intermediates are the ones the prover later reads",
     "Every intermediate form recorded at an iteration is found again at the same iteration by the prover that needs it: within the supported number of iterations (about 8e8 for two-segment proofs, 2^34 for n-segment ones) two different iterations that are simultaneously live never share a slot, no access falls outside the allocated storage, and the switch to a coarser stride keeps every earlier form readable. The final result of a one-segment run is the form after exactly the requested number of iterations.",
     ["inputs", "histories"], "every iteration count, stride, bucket and switch point the constants allow",
     "tests run at most some millions of iterations; the switch at 91 million, window wrap-around and capacity limits are out of reach",
     ["src/callback.h", "src/provers.h", "src/fast_storage.h"], [("slot arithmetic", "callback.h OnIteration/GetPosition of the three callbacks"), ("prover side addressing", "provers.h GetForm")], ["slot written / slot read"])
prop("P14", "The squaring driver counts every iteration exactly once, in order",
     "The repeated squaring loop applies exactly one squaring per counted iteration and reports iterations to the listener as 0,1,2,... without gap or repetition (a batch the fast engine reports as corrupted is redone and reported again from its start), whichever engine performs a batch, whether the fast engine finishes it or stops early, and across the stride switch, which happens once, at a multiple of 100 iterations. It stops only when asked to, when the requested count is exceeded, or at the documented maximum, and the published count never exceeds the squarings performed.",
     ["schedules", "histories"], "every sequence of fast-engine outcomes and stop requests",
     "the fast engine practically never stops early or detects corruption in a test run",
     ["src/vdf.h"], [("batch accounting", "vdf.h repeated_square"), ("slow paths", "vdf.h repeated_square_original, repeated_square_nudupl")], ["listener calls, published iteration count"])
prop("P15", "Assembled n-Wesolowski proofs chain and sum to the request",
     "A proof assembled from finished segments encodes y and the last proof, followed by the earlier segments in reverse order each as 8-byte big-endian length, 33-byte challenge and proof, with lengths that sum to the requested iterations and endpoints that chain; it is what the verifier of the same depth parses. Pending segments are ordered by length then start, and a segment's bucket is the base-4 logarithm of its length over 2^16.",
     ["inputs", "histories"], "every set of finished segments and every requested iteration count",
     "tests obtain whatever segmentation the timing yields for a few requests",
     ["src/vdf.h", "src/util.h"], [("assembly", "vdf.h ProverManager::Prove"), ("ordering", "util.h Segment::IsWorseThan/GetSegmentBucket")], ["proof bytes"])
prop("P16", "One- and two-weso proofs are laid out as the verifier parses them",
     "A one-segment proof, or a two-weso proof made from recorded segments, consists of the final y and proof encodings followed, per earlier segment from last to first, by its big-endian iteration count, challenge and proof encoding, with segment lengths summing to the requested iterations. Parsing it with the verifier's layout recovers the same segments, for every request within the supported limit (799,500,000 iterations). Only recorded iterations are read, no form before it was computed; a stopped computation ends promptly and gives no proof.",
     ["inputs", "histories"], "every requested iteration count relative to the recorded intermediates",
     "tests prove a few counts with one stride",
     ["src/vdf.h"], [("recursive two-weso proof", "vdf.h ProveTwoWeso/ProveOneWesolowski")], ["proof bytes"])
prop("P17", "The timelord client protocol is parsed and framed exactly",
     "The client parses the discriminant-size and form-size fields, the iteration requests and the stop marker exactly as framed and refuses any malformed or out-of-range field without reading past its buffers. Each result is sent as 8-byte iterations, 8-byte y length, y, 1-byte witness type and proof in hexadecimal, with big-endian integers and a 4-byte length prefix that equals the payload length.",
     ["inputs"], "every byte string the peer may send",
     "tests feed a handful of handshakes through a local socket",
     ["src/vdf_client.cpp", "src/vdf_client_session.h", "src/util.h"], [("handshake", "vdf_client_session.h"), ("requests and replies", "vdf_client.cpp ReadIteration/WriteProof"), ("integer encoding", "util.h Int32ToBytes/Int64ToBytes/BytesToInt64")], ["bytes on the socket, parsed values"])
prop("P18", "Checked integer conversion never changes a value",
     "Converting between any two integer types through the checked conversion either returns the identical mathematical value or throws, and it throws exactly when the value does not fit the destination type.",
     ["inputs"], "all values of all pairs of integral types",
     "tests try four values",
     ["src/checked_cast.h"], [("range test", "checked_cast.h")], ["returned value or exception"])
prop("P19", "The custom GMP allocator preserves contents and alignment",
     "Memory handed to the big-integer library by the custom allocator is large enough and carries the promised alignment offset, growing or shrinking a block preserves the common prefix of its contents, every block is released exactly once with the address it was obtained at, and in-place (cache-line aligned) buffers are never released.",
     ["inputs", "histories"], "every allocation size and reallocation pair",
     "tests exercise only the sizes GMP happens to request",
     ["src/alloc.hpp"], [("allocation functions", "alloc.hpp mp_alloc_func/mp_realloc_func/mp_free_func")], ["returned addresses and contents"])
prop("P20", "The portable 128-bit integer agrees with native arithmetic",
     "The portable unsigned 128-bit type's additions, subtractions, multiplications, shifts by any amount, comparisons, bit operations, conversions from and to machine words and increments agree with arithmetic modulo 2^128 for all operands (of its own type or unsigned words); its division and remainder satisfy q*d + r = n with r < d and refuse a zero divisor.",
     ["inputs"], "all pairs of 128-bit operands, all shift counts",
     "no test of the suite exercises this type",
     ["src/uint128_t/uint128_t.cpp"], [("operators", "uint128_t.cpp, uint128_t.h")], ["operator results"])
prop("P21", "Bit-count and bit-manipulation helpers are exact",
     "Every portable leading-zero count variant returns the exact count for every operand including zero, and the bit field helpers extract exactly the requested bits of a big integer or machine word.",
     ["inputs"], "all operands of each width",
     "helpers are exercised only on incidental values, and only the variant of the build host",
     ["src/refcode/lzcnt.c", "src/bit_manipulation.h", "src/nucomp.h", "src/xgcd_partial.c"], [("lzcnt variants", "refcode/lzcnt.c"), ("bit helpers", "bit_manipulation.h, xgcd_partial.c")], ["return values"])
prop("P22", "The primality test never accepts a composite it can rule out",
     "The Baillie-PSW test used to select primes rejects every even number and every number with a small prime factor, declares every small prime prime, performs its base-2 strong test and its strong Lucas test exactly as defined, and treats perfect squares as composite. No input makes it loop forever.",
     ["inputs"], "every positive integer",
     "tests generate a few primes; a wrong branch in either part changes the answer only for rare composites",
     ["src/primetest.h", "src/pprods.h", "src/integer_common.h"], [("strong probable prime", "primetest.h is_prime_bpsw and parts"), ("trial division table", "pprods.h")], ["boolean verdict"])
prop("P23", "Hardware register images encode and decode values exactly",
     "Values written to the VDF ASIC's register image are read back unchanged, sign and width included, each field occupies the documented bytes in the documented order, and reading a status image recovers the iteration count and form it was built from. No transfer touches bytes outside its buffer.",
     ["inputs"], "every field value and buffer length",
     "no hardware test runs here",
     ["src/hw/vdf_driver.cpp", "src/hw/vdf_driver.hpp"], [("register (de)serialisation", "vdf_driver.cpp")], ["register bytes"])
prop("P24", "Hardware proof segmentation covers the requested iterations",
     "The intermediate values the hardware client records are indexed by their iteration and found again by the prover, segments are contiguous and sum to the requested iteration count, and the assembled proof has the layout the verifier parses.",
     ["inputs", "histories"], "every iteration request and recording interval",
     "no hardware test runs here",
     ["src/hw/hw_proof.cpp"], [("interval bookkeeping", "hw_proof.cpp")], ["proof bytes, indices"])
prop("P25", "The hardware client's protocol handling stays within its buffers",
     "The hardware VDF client parses the peer's discriminant, form, iteration and stop messages exactly as framed for every way the bytes are split into reads, and no message makes it write or read outside its connection buffers.",
     ["inputs", "schedules"], "every byte string and every fragmentation",
     "no hardware test runs here",
     ["src/hw/hw_vdf_client.cpp"], [("message state machine", "hw_vdf_client.cpp")], ["connection state, buffer accesses"])
prop("P26", "PLL settings produce the requested clock frequency",
     "Each entry of the PLL table encodes exactly the frequency it is listed under, entries are in increasing order, and looking up a frequency returns the closest setting that does not exceed it within the table's range.",
     ["inputs"], "every table entry and every requested frequency",
     "no hardware test runs here",
     ["src/hw/pll_freqs.cpp", "src/hw/vdf_driver.cpp"], [("table and lookup", "pll_freqs.cpp, vdf_driver.cpp")], ["chosen divider settings"])
prop("P27", "The C bindings pass arguments and results through unchanged",
     "The C interface writes a discriminant as exactly size/8 big-endian magnitude bytes and reports failure without writing, returns the prover's bytes in a buffer of exactly their length or an empty result, and verifies against the negated big-endian discriminant it was given with the caller's iterations, depth and size. No exception ever escapes.",
     ["inputs"], "every argument and every outcome of the wrapped call",
     "the C bindings have no tests in this repository",
     ["src/c_bindings/c_wrapper.cpp"], [("wrappers", "c_wrapper.cpp")], ["returned bytes and flags"])

if __name__ == "__main__":
    claimed = {}
    try:
        from claims import CLAIMS, NA
    except ImportError:
        CLAIMS, NA = {}, {}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3; print(z3.get_version_string())' && clang++-18 --version && opt-18 --version",
         "checks": [{"property": k, "quick_cmd": "./check %s" % k, "thorough_cmd": "./check %s --tier thorough" % k, "technique": t, "level": "model_checking", "level_note": n} for k, (t, n) in CLAIMS.items()],
         "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
    for p in P:
        if p["id"] not in CLAIMS and p["id"] not in NA: m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
        assert len(p["title"]) <= 80, p["title"]
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
