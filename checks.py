"""Registry: property id -> jobs and stated bounds."""
import sys
from engine.check import Job, main
REG = {}
def prop(pid, jobs, **info):
    REG[pid] = (jobs, info)

# ---------------------------------------------------------------- checked_cast
prop("P18", [Job("checked_cast.cpp", "to%d" % i, [i], reach=["throw", "ok"]) for i in range(8)],
     bounds="all values of every integral source type listed in the harness")

# ---------------------------------------------------------------- verifier
prop("P04", [Job("verify_n.cpp", "n_len%d" % l, [0, l, l <= 201], reach=["reject"] + (["accept"] if l in (200, 341, 482) else []), cost=l) for l in (0, 100, 199, 200, 201, 340, 341, 342, 482)]
     + [Job("verify_n.cpp", "withb_len%d" % l, [1, l, l <= 101], reach=["reject"] + (["accept"] if l in (100, 241, 382) else []), cost=l) for l in (0, 99, 100, 101, 200, 241, 382)]
     + [Job("verify_n.cpp", "getb_len%d" % l, [2, l, l <= 201], reach=["reject"] + (["accept"] if l in (200, 341, 482) else []), cost=l) for l in (0, 100, 199, 200, 201, 341, 482)]
     + [Job("verify_n.cpp", "seed_len%d" % l, [3, l, l <= 200], reach=["reject"] + (["accept"] if l in (200, 341) else []), cost=l) for l in (199, 200, 341)]
     + [Job("verify_n.cpp", "null_len%d" % l, [4, l, 0], reach=["reject"]) for l in (0, 200)],
     bounds="proof blobs with up to two intermediate segments (every listed length); every discriminant of at most 1100 bits (70 bits for proofs with intermediate segments), iteration count, depth and size claim; group abstracted to uninterpreted functions")

# ---------------------------------------------------------------- codec
def rt(a, b0, n, k, exact):
    return Job("codec.cpp", "roundtrip_a%d_b%d_c%d" % (a, b0, k), [1, a, b0 % 2 ** 64, n, k, exact], reach=["ok"], opts={"div_fold": 40, "div_fork": 40, "max_bits": 1100}, mode="int", cost=a)
prop("P01", [Job("codec.cpp", "layout_%d_g%d" % (d, g), [0, d, g], reach=["refused"] + (["fits"] if g <= (d + 31) // 32 * 8 else [])) for d in (1, 32, 500, 1024) for g in sorted({1, 8, 9, (d + 31) // 32 * 8 - 5, (d + 31) // 32 * 8, (d + 31) // 32 * 8 + 1})]
     + [rt(a, 1 - a, 2 * a, 9, 0) for a in range(1, 49)] + [rt(a, 1 - a, 2 * a, k, 1) for a, k in ((12, 24), (21, 60), (36, 118), (27, 122))]
     + [rt(a, b, 6, k, 1) for a, b, k in ((45, -44, 500), (32, -9, 507), (30, 7, 1014))]
     + [rt(a, b, 24, k, 1) for a, k in ((0xfffffffb, 33), (0x5555555555, 41), (600851475143, 42), (3 ** 30, 48), (0x3fffffffffffffff, 64)) for b in (1 - a, -12, a - 24)],
     bounds="layout: every value of every component for discriminant sizes 1, 32, 500, 1024 bits and the listed sizes of g; algebra: every reduced primitive form with a <= 48 and c < 2^9, every b for the listed larger c sizes (up to 1014 bits), and b windows for a up to 2^62 (a and b split on their values, c symbolic)")

prop("P02", [Job("canon.cpp", "bytes_%d_g%d_in%d" % (d, g, gi), [0, d, g, gi], reach=["reject", "special"] + (["accept"] if (g + 7) // 8 - 1 == gi else []), cost=d)
             for d, g, gi in ((1, 1, 0), (1, 8, 1), (31, 8, 0), (33, 8, 1), (33, 9, 1), (500, 24, 2), (1024, 8, 0), (1024, 256, 31), (1024, 256, 32), (1024, 256, 255))]
     + [Job("canon.cpp", "sizes", [1, 32, 8], reach=["bad size"]), Job("canon.cpp", "length", [2, 32, 8], reach=["size"]),
        Job("decompr.cpp", "strict", mode="int", branch_ms=400, validate=False, reach=["lenient", "gated", "done"])],
     bounds="every 100-byte string for the listed discriminant sizes and g sizes; every length and size claim; decompression over unbounded integers with compression an arbitrary function")

RED = {"div_fold": 40, "div_fork": 40, "div_guess": 50, "max_bits": 2100, "int_limbs": 40}
def red(w, a, k, sw, lz=0, exact=0):
    return Job("reduce.cpp", "%s_a%d_c%d%s_%s%s" % (("form", "fast", "ref")[w], a, k, "x" if exact else "", "ca" if sw else "ac", lz or ""), [w, a, (-3 * a - 2) % 2 ** 64, 6 * a + 5, k, sw, lz, exact], reach=["ok"], mode="int", opts=RED if w == 1 else dict(RED, int_limbs=0), branch_ms=1000, cost=a + (10 if w == 1 else 0))
prop("P09", [red(w, a, k, sw) for w in (0, 2) for a in range(1, 12) for k, sw in ((10, 0), (200, 0), (10, 1), (1000, 1))]
     + [red(1, a, 10, sw, a & 1) for a in range(1, 6) for sw in (0, 1)]
     + [red(1, a, k, 1, lz, 1) for a, lz in ((1, 0), (3, 1), (5, 1)) for k in (12, 20, 28, 31, 32, 33, 34, 35, 36)]
     + [red(1, a, k, sw, lz, 1) for a, lz in ((1, 1), (4, 0)) for k in (35, 37, 64, 65, 67, 128, 129, 1000, 2000) for sw in (0, 1)],
     bounds="forms with one outer coefficient 1..11 (1..5 for the fast reducer), every b in [-3a-2, 3a+2], the other outer coefficient symbolic: any value below 2^10, 2^200, 2^1000 (form and reference reducers), below 2^10 and any value of the listed exact bit lengths up to 2000 (fast reducer)")

import math
CMP = {"div_fold": 40, "div_fork": 40, "div_guess": 60, "max_bits": 2100, "poly": 1}
def cmpj(w, a1, a2, L, k, cls=("nucomp", "nudupl", "mul", "sqr", "refsqr", "nucomp_inplace")):
    m = math.lcm(a1, a2)
    return Job("compose.cpp", "%s_%d_%d_L%d_t%d" % (cls[w], a1, a2, L, k), [w, a1, a2, m, k, L], reach=["ok"], mode="int", opts=CMP, branch_ms=1000, cost=m)
def bigj(w, n1, n2, lb, n, k, s=1):
    return Job("compose_big.cpp", "%s_big%d_%d_L%d_t%d" % (("nucomp", "nudupl")[w], n1, n2, lb, k), [w, n1, n2 or n1, n, k, lb, s, s + 1], reach=["ok"], mode="int", opts=CMP, branch_ms=1000, cost=40)
XG = dict(mode="bv", opts={"div_fold": 64, "div_fork": 64, "size_fold": 1}, branch_ms=3000, reach=["ok"])
def deep(jobs):
    for j in jobs: j.tier = "thorough"
    return jobs
P10Q = [(1, 1), (2, 2), (2, 3), (3, 3), (4, 2), (5, 3), (6, 4)]
prop("P10", [cmpj(0, a1, a2, 2, 100) for a1, a2 in P10Q[:6]] + [cmpj(0, a1, a2, L, 100) for a1, a2 in P10Q[:5] for L in (1, 1 << 60)] + [cmpj(5, a1, a2, 2, 100) for a1, a2 in ((2, 2), (2, 3), (4, 2))]
     + [cmpj(1, a, a, L, 100) for a in (1, 2, 3) for L in (1, 2, 3, 1 << 60)] + [cmpj(1, a, a, L, 100) for a, L in ((4, 1), (4, 1 << 60), (5, 2), (6, 2))] + [cmpj(2, a1, a2, 0, 100) for a1, a2 in P10Q[:5]]
     + [cmpj(w, a, a, 0, 100) for w in (3, 4) for a in (1, 2, 3, 4)]
     + [bigj(w, n1, n2, lb, 3, k, s) for w, n1, n2, lb, s in ((1, 64, 0, 32, 1), (1, 100, 0, 50, 4), (0, 60, 70, 35, 1), (0, 128, 130, 60, 1)) for k in (n1 - 2, 1000)]
     + [bigj(w, n1, n2, lb, 3, 1000, s) for w, n1, n2, lb, s in ((1, 256, 0, 128, 1), (0, 256, 250, 128, 3))]
     + [Job("xgcd.cpp", "xgcd_%d" % lo, [b, lo, n], **XG) for b, lo, n in ((4, 1, 4), (4, 5, 2), (4, 9, 1))]
     + deep([cmpj(0, 5, 3, L, 100) for L in (1, 1 << 60)] + [cmpj(0, 6, 4, L, 100) for L in (1, 2, 1 << 60)] + [cmpj(1, a, a, L, 100) for a in (4, 5, 6) for L in (1, 2, 3, 1 << 60)] + [cmpj(2, 5, 3, 0, 100)]
            + [cmpj(w, a, a, 0, 100) for w in (3, 4) for a in (5, 6, 7)] + [cmpj(0, a1, a2, 2, 100) for a1, a2 in ((7, 7), (9, 3), (8, 4))] + [cmpj(1, a, a, 2, 100) for a in (7, 8, 9)]
            + [bigj(w, n1, n2, lb, 3, k, s) for w, n1, n2, lb, s in ((1, 256, 0, 128, 1), (0, 256, 250, 128, 3), (1, 500, 0, 250, 3), (0, 400, 500, 256, 1)) for k in (n1 - 2, n1 + n2 + 20, 1500)]
            + [Job("xgcd.cpp", "xgcd_%d" % lo, [b, lo, n], **XG) for b, lo, n in ((4, 7, 1), (4, 8, 1), (4, 10, 1), (4, 11, 1))]),
     bounds="a1, a2 <= 6 (listed pairs), every b1, b2 of a window wider than the normalised range and every residue of c, the rest of c symbolic below 2^100; partial-Euclid bound L in {1, 2, 3, huge} so that both branches run; 60..256-bit a with windows of b and c; the partial Euclid step for moduli up to 9 and every input and bound")

prop("P05", [Job("weso.cpp", "proof_D%d_x%d" % (n, r), [0, n, r], reach=["valid", "invalid"]) for n, r in ((64, 1), (1025, 1), (64, 2))] + [Job("weso.cpp", "segment_D%d" % n, [1, n, 1], reach=["valid", "invalid"]) for n in (64, 1025)],
     bounds="every discriminant of at most 1025 bits, every iteration count below 2^64, forms with one-word coefficients (opaque to the code under test); group operations, hashing and encoding are uninterpreted functions of all their inputs")

def dsj(a, b0, n, tb, rn, ash=0):
    return Job("deser.cpp", "deser_a%d%s_b%d_t%d" % (a, "s%d" % ash if ash else "", b0, tb), [a % 2 ** 64, b0 % 2 ** 64, n, tb, rn, ash, (a + b0) & 1], mode="int", branch_ms=1000,
               opts={"div_fold": 40, "div_fork": 40, "div_guess": 60, "max_bits": 2100, "poly": 1}, reach=["reject"] + (["accept"] if a > 0 else []), cost=abs(a) + ash)
prop("P03", [dsj(a, -3 * abs(a) - 2, 6 * abs(a) + 5, tb, 4 * abs(a) or 4) for a in range(-2, 6) for tb in (6, 1010)]
     + [dsj(a, b0, 3, 1010 - sh, 2, sh) for a, sh in ((1, 40), (3, 200), (5, 500)) for b0 in (-1, 0, -3)],
     bounds="every pair (a, b) with -2 <= a <= 5 and |b| <= 3|a| + 2 and windows of larger a up to 503 bits, against every negative discriminant (every residue modulo 4a) whose quotient by 4a has at most 6 or about 1010 bits; the byte decoder is arbitrary")

def powj(w, s1, s2, fill, dsh, x=1): return Job("pow.cpp", "pow_w%d_%d_%d_f%d_d%d" % (w, s1, s2, fill, dsh), [0, w, s1, s2, fill, dsh, x], mode="int", opts={"poly": 1, "max_bits": 2200}, reach=["ok"], cost=s1 + s2)
prop("P11", [powj(12, 0, 0, 0, d) for d in (61, 130, 1000)] + [powj(3, s1, s2, f, d) for s1, s2, d in ((30, 61, 130), (60, 64, 500), (61, 126, 1000), (128, 260, 1000), (700, 1020, 1000)) for f in (0, 1)]
     + [Job("pow.cpp", "powm_%d" % b, [1, b], reach=["refused", "power"]) for b in (0, 1)],
     bounds="every exponent below 2^12, and 9-bit families (three 3-bit windows at and across limb boundaries, zeros or ones between) of exponents up to 1024 bits, over a formal generator of an abstract cyclic group; modular power: every exponent, base and modulus below 2^64, 2^64, 2^264")

PV = dict(mode="int", opts={"max_bits": 2200}, reach=["ok"])
def pvj(w, T, k, l): return Job("prover.cpp", "%s_T%d_k%d_l%d" % (("slow", "prover", "", "parallel")[w], T, k, l), [w, T, k, l, 16], cost=2 ** T, **PV)
prop("P12", [pvj(w, T, k, l) for w in (0, 1, 3) for T, k, l in ((0, 1, 1), (1, 1, 1), (2, 3, 1), (5, 1, 2), (6, 1, 3), (6, 2, 1), (7, 2, 2), (8, 2, 3), (8, 3, 1), (9, 3, 2), (9, 4, 2), (10, 5, 1)) if not (w == 3 and l == 1)]
     + [Job("prover.cpp", "digit_%s_k%d_B%d" % (("slow", "class")[c], k, n), [2, 0, k, c, n], mode="int", opts={"max_bits": 2200}, reach=["ok"], cost=50) for c in (0, 1) for k, n in ((1, 264), (10, 264), (12, 264), (20, 64), (4, 8))],
     bounds="T <= 10, k <= 5, l <= 3 (listed triples), every combination of digits and arbitrary 16-bit group exponents for the intermediates; the digit formula for every residue, modulus up to 264 bits and iteration count")

def drj(name, mode, full, sym, want, reach, h="drive.cpp", arb=0): return Job(h, name, [mode, full, sym, want, arb], opts={"max_steps": 60000000}, reach=reach, cost=full + sym * 1000)
prop("P14", [drj("any", 0, 0, 2, 1, ["stopped", "finished"]), drj("one_long", 0, 300, 2, 1, ["stopped", "finished"])]
     + [drj("two_%d" % n, 1, n, 1 + (n != 9099), 0, ["stopped"]) for n in (0, 9099, 9100)] + [drj("two_switch", 1, 9098, 4, 0, ["stopped"], arb=1)] + [drj("two_max_%d" % n, 1, n, 2, 0, ["stopped"] * (n < 79951) + ["maximum"] * (n > 79949)) for n in (79947, 79950, 79951)]
     + [drj("fast_%d" % n, 2, n, 2, 1, ["stopped", "finished"]) for n in (0, 2, 30)] + [drj("direct_%d" % n, 3, n, 2, 1, ["stopped", "finished"]) for n in (0, 5)]
     + [Job("drive_noasm.cpp", "noasm_%s" % n, [m, 0, k, w, 0], opts={"max_steps": 60000000}, reach=["stopped"] + ([r] if r else []), cost=k * 1000) for n, m, k, w, r in (("one", 0, 3, 1, "finished"), ("two", 1, 3, 0, 0), ("fast", 2, 8, 0, 0))],
     bounds="any two (around the stride switch, one) consecutive batches with arbitrary outcomes (any completed count, corruption, stop request), after the listed number of full batches: none, around the stride switch at 91 million and around the 2-weso maximum; every requested count; all three listener kinds; the portable driver for three batches")

def twoj(ss): return [Job("slots.cpp", "two_later_S%d" % s, [1, 1, 0, s, 0], reach=["skipped", "distinct", "prover"], cost=40, **SL) for s in ss] + [Job("slots.cpp", "two_%d_S%d" % (w, s), [1, 2, w, s, 0], reach=["distinct", "prover"] if w else ["skipped", "recorded"], cost=40, **SL) for s in ss for w in (0, 4, 5, 7, 8)]
SL = dict(opts={"divq": 1, "max_steps": 60000000})
prop("P13", [Job("slots.cpp", "one_k%d_l%d_%d" % (k, l, m), [0, l, m, k], reach=[("read", "result")[m]], cost=30, **SL) for l, ks in ((1, (8, 10, 12, 14)), (10, (12, 16))) for k in ks for m in (0, 1)]
     + [Job("slots.cpp", "two_0", [1, 0, 0, 0, 0], reach=["skipped", "distinct", "prover"], cost=40, **SL)] + twoj((57,)) + deep(twoj(range(0, 101, 4)))
     + [Job("slots.cpp", "fast_s%d_b%d_%d" % (s, b, m), [2, s, b, m], reach=[("read", "distinct", "checkpoint")[m]], cost=30, **SL) for s, bs in ((1, (0,)), (2, (0, 1)), (7, (0, 1, 2, 5, 6)), (8, (7,))) for b in bs for m in (0, 1)]
     + [Job("slots.cpp", "fastw_s%d" % s, [2, s, 0, 2], reach=["checkpoint"], cost=30, **SL) for s in (1, 2, 7)]
     + [Job("slots.cpp", "refill_s%d" % s, [3, s, m], reach=["refilled"], cost=30, **SL) for s, m in ((1, 3), (7, 11))] + [Job("slots.cpp", "finished", [4], reach=["asked"], cost=30, **SL)],
     bounds="one-segment recording: listed (k, l), every iteration below 2^34 and every request; two-segment: every iteration up to the 79,948 batch maximum (1,000,000,000-iteration storage) from every stride switch point in the listed residues; n-weso callbacks: segment counts s in {1,2,7,8}, every bucket listed, every iteration below 2^34; one driver thread")

prop("P16", [Job("twow.cpp", "two%s_%s_%d" % ("_read%d" % g if g else "", n, st), [0, st, lo, hi, g], opts={"divq": 2, "lincmp": 1}, reach=["ok"] + ["stopped"] * st, cost=30) for n, lo, hi in (("small", 0, 20000000), ("mid", 20000000, 200000000), ("large", 200000000, 799500000)) for st, g in ((0, 0), (1, 0), (0, 1), (0, 389), (0, 900))]
     + [Job("twow.cpp", "one_%d" % st, [1, st, 0, 0, 0], opts={"divq": 2, "lincmp": 1}, reach=["ok"] + ["stopped"] * st, cost=30) for st in (0, 1)],
     bounds="every request from 1 to 799,500,000 iterations, split by its residue modulo 900 (intermediates the prover reads: residues 0, 388, 899 plus the residue-free recording rule); a stop request at any wait; one-segment: every request below 2^40")

prop("P20", [Job("u128.cpp", n, [m, lb, qb, z], opts={"mulabs": 1}, reach=["done"] + ["zero"] * (m == 3 and not qb), cost=30) for n, m, lb, qb, z in (("ops", 0, 0, 0, 0), ("shift", 1, 0, 0, 0), ("mul", 2, 0, 0, 0), ("bits", 4, 0, 0, 0), ("div_small", 3, 5, 0, 1), ("div_lhs8", 3, 8, 0, 0), ("div_q1_128", 3, 128, 1, 2), ("div_q2_72", 3, 72, 2, 2), ("div_q2_65", 3, 65, 2, 2))],
     bounds="all operands for every operator except division (the product over the same 32x32-bit partial products); division and remainder: every divisor and dividends below 2^8, dividends of 64-65 and 71-72 bits with quotient below 4, of 127-128 bits with quotient below 2")

prop("P21", [Job("bits.cpp", n, [m, b], reach=["done"], cost=30) for n, m, b in (("lz32", 0, 0), ("lz64", 1, 0), ("field", 2, 0), ("mpz128", 3, 128), ("mpz64", 3, 64), ("mpz200", 3, 200))],
     bounds="all operands of each width; big integers below 2^200 with every shift below 512")

prop("P19", [Job("alloc.cpp", n, [m, b, c], reach=["done"], cost=30) for n, m, b, c in (("alloc", 0, 0, 0), ("realloc_any", 1, 17, 0), ("realloc", 1, 24, 1))],
     bounds="allocation of every size below 2^62; reallocation from every size up to 17 to every size below 2^62, and between all sizes up to 24, with arbitrary contents, block positions and origins")

if __name__ == "__main__":
    pid = sys.argv[1]
    jobs, info = REG[pid]
    main(pid, jobs, info)
