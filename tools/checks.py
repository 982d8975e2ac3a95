"""One function per property: which models are checked, which traces are recorded and validated."""
from concurrent.futures import ThreadPoolExecutor


def par(*fs):
    with ThreadPoolExecutor(len(fs)) as p:
        return [x.result() for x in [p.submit(f) for f in fs]]


def c01(c):
    t = c.thorough
    progs = c.generate("GenZQ", "programs.txt", num=400 if t else 120, depth=33)
    par(*[lambda K=K: c.model("MC_ZQLimbs", {"K": K}, workers=2) for K in ((3, 4, 5, 6) if t else (3, 4, 5))],
        lambda: c.model("BigIntCheck", {"Rounds": 400 if t else 41}, workers=1),
        lambda: c.model("MC_ZQLimbs", {"K": 3, "ReadFirst": "FALSE"}, workers=2, expect_error=True),
        lambda: c.conform([dict(exe=e, args=[c.seed + g, c.tier, progs], module="Tr_C01", name="c01-%d" % g)
                           for g, e in enumerate(c.builds([(("c01.cpp", "c01-%d" % g), dict(defs=["VH_GROUP=%d" % g])) for g in range(12)]))]))
    c.notes.append("programs are TLC simulations of ZQMachine over 4 registers, run on every modulus size 1..400, every 13th up to 1545 and 42 chosen ones up to 3022, with boundary and random words; every transition of the machine for 2..5 bits")


def rng(n):
    return "{%s}" % ", ".join(map(str, range(n)))


def _parts(c, src, module, n=8, extra_defs=(), **kw):
    exes = c.builds([((src, "%s-%d" % (src[:-4], g)), dict(defs=["VH_PART=%d" % g, *extra_defs], **kw)) for g in range(n)])
    return [dict(exe=e, args=[c.seed * 100 + g, c.tier], module=module, name="%s-%d" % (src[:-4], g), cfg="trace.cfg") for g, e in enumerate(exes)]


def c02(c):
    par(lambda: c.model("MC_Shift", {"MaxK": 9 if c.thorough else 7}, workers=4),
        lambda: c.model("MC_Shift", {"W": 4, "MaxK": 9}, workers=4) if c.thorough else None,
        lambda: c.conform(_parts(c, "c02.cpp", "Tr_C02")))
    c.notes.append("all pairs of 30 sizes (1..2900 bits) with values at the rounding tie and rippling carries; every residue for sizes 1..8; RS on 9 size pairs")


def c03(c):
    par(lambda: c.model("MC_Shift", {"MaxK": 9 if c.thorough else 7}, workers=4),
        lambda: c.conform(_parts(c, "c03.cpp", "Tr_C03")))
    c.notes.append("resize over all pairs of 30 sizes, every residue for sizes 1..8; sign test and double over 45 sizes; polynomials and ciphertexts over 9 pairs")


def c04(c):
    par(lambda: c.model("MC_Decimal", {"K": 12, "W": 8} if c.thorough else None, workers=4),
        lambda: c.conform(_parts(c, "c04.cpp", "Tr_C04")))
    c.notes.append("42 sizes of 1..1300 bits, every residue up to 8 bits, powers of ten and neighbours, sparse and dense words; printed forms of residues, polynomials, ciphertexts")


def c05(c):
    def conf():
        e = c.build("c05.cpp")
        c.conform([dict(exe=e, args=[c.seed * 100 + g, c.tier, g], module="Tr_C05", name="c05-%d" % g, cfg="trace.cfg") for g in range(6)])
    par(lambda: c.model("MC_Word", {"W": 6} if c.thorough else None, workers=4), conf)
    c.notes.append("every pair of W-bit words and modulus in the model; boundary words (all pairs and moduli of 14) and random 64-bit operands, 28 primes up to 2^64-59")


def runs(c, exe, parts, module, name, **kw):
    return [dict(exe=exe, args=[c.seed * 100 + g, c.tier, g], module=module, name="%s-%d" % (name, g), cfg="trace.cfg", **kw) for g in parts]


def c06(c):
    par(lambda: c.model("MC_CRT", {"MaxK": 10} if c.thorough else None, workers=2),
        lambda: c.model("MC_CRT", {"W": 1}, workers=2),
        lambda: c.model("MC_CRT", {"HalfOff": 1}, workers=1, expect_error=True),
        lambda: c.model("MC_CRT", {"ReduceTop": "FALSE", "W": 4}, workers=1, expect_error=True),
        lambda: c.conform(runs(c, c.build("c06.cpp"), range(8), "Tr_C06", "c06")))
    c.notes.append("bases of 1..102 primes (smallest, near 2^60, 2^63, 2^64, mixed) with targets of 1..6400 bits: all residues and residue vectors for tiny bases; extremes, multiples of primes, values around half the product")


def c07(c):
    par(lambda: c.model("MC_NTT", {"N": 4, "Entries": rng(17)} if c.thorough else {"N": 4}, workers=2),
        lambda: c.model("MC_NTT", {"N": 2, "Q": 5, "Entries": rng(5)}, workers=1),
        lambda: c.model("MC_NTT", {"N": 2, "Q": 13, "Entries": rng(13)}, workers=1),
        lambda: c.model("MC_NTT", {"N": 8, "Entries": "{0, 16}"}, workers=2),
        lambda: c.model("MC_NTT", {"N": 8, "Q": 97, "Entries": "{0, 1, 96}"}, workers=4) if c.thorough else None,
        lambda: c.model("MC_NTT", {"BitRev": "FALSE"}, workers=1, expect_error=True),
        lambda: c.conform(runs(c, c.build("c07.cpp"), range(8), "Tr_C07", "c07")))
    c.notes.append("N = 2..512, 1024, 2048, 4096, 16384, 131072; ten primes per small N (smallest three = 1 mod 2N, near 2^32, 2^60, 2^63, 2^64, Goldilocks); reduced, boundary and unreduced words; all points for N <= 128 and for monomials, sampled points above; round trips and products complete")


def c08(c):
    par(lambda: c.model("MC_Conv", {"MaxK": 4} if c.thorough else None, workers=2),
        lambda: c.model("MC_Conv", {"Slack": 2}, workers=1, expect_error=True),
        lambda: c.conform(_parts(c, "c08.cpp", "Tr_C08", opt="-O1")))
    c.notes.append("every number of primes 1..102 at both sides of its step (k = 21+30j, 22+30j); word-boundary sizes; N = 2..2048 with extreme, boundary and random operands, N up to 131072 with constant extremes and sparse operands; aliased results; ternary and small-integer products")


def c09(c):
    def conf():
        shim, real = par(lambda: c.build_shim("c09.cpp", "c09-shim"), lambda: c.build("c09.cpp", "c09-real", defs=["VH_REAL"], opt="-O1"))
        c.conform(runs(c, shim, range(5), "Tr_C09", "c09s", timeout=200) + runs(c, real, range(5), "Tr_C09", "c09r", timeout=200))
    par(lambda: c.model("MC_Par", {"T": 3} if c.thorough else None, workers=2),
        lambda: c.model("MC_Par", {"SharedTemp": "TRUE"}, workers=1, expect_error=True),
        lambda: c.model("MC_Par", {"ByCoef": "TRUE"}, workers=1, expect_error=True),
        conf)
    c.notes.append("products at 8 sizes and the whole library at N = 4, 8 under a scheduler that switches threads at memory accesses (teams of 1..one iteration per thread, all chunkings and orders, seeded interleavings) with every accessed location recorded; the same with libgomp for ten team sizes")


def c10(c):
    c.conform(_parts(c, "c10.cpp", "Tr_C10", n=8, opt="-O1"))
    c.notes.append("keygen for every weight 0..N (N <= 16) and eighths up to N = 8192; encryption and decryption at 22 sizes (k = 1..2900, N = 2..65536) with 6 kinds of keys and 9 of plaintexts, histories of 70 encryptions for the coverage of masks and noise, and adversarial outcomes of rand()")


def c11(c):
    progs = c.generate("GenHE", "programs.txt", num=400 if c.thorough else 100, depth=27)
    exes = c.builds([(("c11.cpp", "c11-%d" % g), dict(defs=["VH_PART=%d" % g], opt="-O1")) for g in range(7)])
    c.conform([dict(exe=e, args=[c.seed * 100 + g, c.tier, progs], module="Tr_C11", name="c11-%d" % g) for g, e in enumerate(exes)])
    c.notes.append("programs are TLC simulations of HEMachine (9 registers on a ladder of three sizes), run on 16 ladders (N up to 1024) with extreme, boundary and uniform components and six kinds of keys; phases are computed by the specification")


def c12(c):
    par(lambda: he_model(c), lambda: c.conform(_parts(c, "c12.cpp", "Tr_C12", n=8, opt="-O1")))
    c.notes.append("22 sizes (k = 2..1450, N = 2..8192), eleven kinds of source keys (ternary, squares, small integers up to N, automorphic images), library and extreme hand-made switching keys, extreme ciphertexts")


def he_model(c):
    par(lambda: c.model("MC_HE", {"Masks": "{0, 1, 127, 128, 255}", "Comps": "{0, 1, 2, 7, 8, 9, 14, 15}"} if c.thorough else None, workers=2),
        lambda: c.model("MC_HE", {"Floor": "TRUE", "B": 0, "NB": 0}, workers=1, expect_error=True),
        lambda: c.model("MC_HE", {"B": 4}, workers=1, expect_error=True))


def c13(c):
    par(lambda: he_model(c), lambda: c.conform(_parts(c, "c13.cpp", "Tr_C13", n=8, opt="-O1")))
    c.notes.append("programs of products over four registers at 20 sizes (k = 2..1450, N = 2..8192), squares included, with evaluation keys of extreme noise and library keys")


def c14(c):
    par(lambda: he_model(c), lambda: c.conform(_parts(c, "c14.cpp", "Tr_C14", n=8, opt="-O1")))
    c.notes.append("programs of rotations (r up to 4N) and conjugations on keys (N = 2..131072) and plaintexts (k = 1..1450) with the composition checked against the start; coefficients of rotations of polynomials up to N = 131072; ciphertexts at 17 sizes up to N = 8192, rotation counts to 2000000")


def c21(c):
    par(lambda: c.model("MC_Raise", {"A": 3, "B": 6} if c.thorough else None, workers=2),
        lambda: c.model("MC_Raise", {"Signed": "FALSE"}, workers=1, expect_error=True),
        lambda: c.conform(_parts(c, "c21.cpp", "Tr_C21", n=5, opt="-O1")))
    c.notes.append("34 pairs of sizes between 1 and 2900 bits, N up to 1024, with the extreme components that reach the bound")


def embed(c, exe, parts, module, name, lg, **kw):
    return [dict(j, cfg="embed.cfg", consts={"MaxLg": lg[i]}) for i, j in enumerate(runs(c, exe, parts, module, name, **kw))]


def c25(c):
    c.conform(embed(c, c.build("c25.cpp", opt="-O1"), range(10), "Tr_C25", "c25", [4, 5, 6, 7, 8, 9, 10, 13, 16, 16]))
    c.notes.append("every unit vector for N <= 32, eight kinds of vectors up to N = 1024 in full and up to N = 65536 at 60 sampled outputs, round trips in full; all columns of the factor products for N <= 32, vectors through the factors up to N = 65536")


def c15(c):
    c.conform(embed(c, c.build("c15.cpp", opt="-O1"), range(9), "Tr_C15", "c15", [4, 5, 6, 7, 8, 9, 10, 13, 16]))
    c.notes.append("N = 4..65536 (sampled coefficients above 1024), exact rounding of constants (ties, odd integers above 2^52, both signs), k = 30..2900, twelve scales 1..2^63 (also not powers of two), slots up to the largest encodable amplitude, coefficients of nine forms up to 2^960")


def c17(c):
    jobs = _parts(c, "c17.cpp", "Tr_C17", n=8, opt="-O1")
    c.conform([dict(j, cfg="embed.cfg", consts={"MaxLg": 10 if i in (6, 7) else 6}) for i, j in enumerate(jobs)])
    c.notes.append("single transforms (dense, supplied keys, secret key) on 12 sizes and on N = 128..1024 with arbitrary components, offsets that coincide or vanish, real-only, imaginary-only and zero diagonals; chains of 2..6 factors, grouped by 1..4, against the exact product")


def c18(c):
    jobs = _parts(c, "c18.cpp", "Tr_C18", n=9, opt="-O1")
    c.conform([dict(j, cfg="embed.cfg", consts={"MaxLg": {6: 9, 7: 10}.get(i, 7)}) for i, j in enumerate(jobs)])
    c.notes.append("20 configurations: N = 8..1024, every grouping that divides log2(N)-1 and the library supports, scales 2^22..2^60, coefficients up to 2^200, six kinds of keys in one process; round trips and SlotToCoeff on slots of any kind")


def c16(c):
    c.conform(runs(c, c.build("c16.cpp", opt="-O1"), range(10), "Tr_C16", "c16"))
    c.notes.append("random programs over four registers, N = 2..16 (and 64..1024), 1..4 diagonals with zero, equal, opposite and random offsets; entries exact in double precision; every element read back after every step")


def c24(c):
    c.conform(embed(c, c.build("c24.cpp", opt="-O1"), range(6), "Tr_C24", "c24", [2, 2, 4, 7, 2, 2]))
    c.notes.append("N = 4..128: message and floating-point plaintext operations on operands whose results are exact in double precision, norms, encodings at seven scales, exact rounding with ties, and plaintext matrix-vector products at k = 60..300 with 1..32 diagonals")


def c19(c):
    def conf():
        jobs = _parts(c, "c19.cpp", "Tr_C19", n=8, opt="-O1")
        c.conform([dict(j, cfg="embed.cfg", consts={"MaxLg": 9 if i in (5, 6) else 5}) for i, j in enumerate(jobs)])
    par(lambda: c.model("MC_Cheb", workers=2),
        lambda: c.model("MC_Cheb", {"LgN": 3, "Coefs": "{1, 2, 4}" if c.thorough else "{2, 3}", "Points": "{1, 4, 5}"}, workers=2),
        lambda: c.model("MC_Cheb", {"Mirror": '"h-1-i"'}, workers=1, expect_error=True),
        conf)
    c.notes.append("basis change and evaluation ladder as a machine on integers, complete for small coefficients; basis changes of 4..1024 coefficients (exact ones exactly); all six degrees at 24 sizes (N = 4..512, scales 2^30..2^60), nine forms of coefficients, slots at the ends of [-1,1], constant, small and at Chebyshev zeros")


def c20(c):
    jobs = _parts(c, "c20.cpp", "Tr_C20", n=7, opt="-O1")
    c.conform([dict(j, cfg="embed.cfg", consts={"MaxLg": 9 if i == 5 else 6}) for i, j in enumerate(jobs)])
    c.notes.append("both variants at 12 sizes (N = 4..512, scales 2^45..2^61), integers -23..23 in every mixture, distances up to 1/64 of both signs and every magnitude, six kinds of keys, extreme evaluation keys")


def c22(c):
    def conf():
        jobs = _parts(c, "c22.cpp", "Tr_C22", n=11, opt="-O1")
        c.conform([dict(j, cfg="embed.cfg", consts={"MaxLg": {7: 7, 8: 9, 9: 9}.get(i, 6)}) for i, j in enumerate(jobs)])
    par(lambda: c.model("MC_Boot", workers=2),
        lambda: c.model("MC_Boot", {"A": 5, "Msg": 12, "E": 4, "I": 9, "Top": 14}, workers=4) if c.thorough else None,
        lambda: c.model("MC_Boot", {"Keep": '"slots"'}, workers=1, expect_error=True),
        lambda: c.model("MC_Boot", {"Top": 7}, workers=1, expect_error=True),
        conf)
    c.notes.append("both pipelines stage by stage at 11 configurations (N = 8..512, groupings 1..4, CoeffToSlot scales 2^22..2^60, base moduli 55 and 60 bits), seven kinds of messages up to |z| = 1, six kinds of keys, adversarial masks, repeated bootstrapping of either result")


def c23(c):
    hist = c.generate("GenHist", "histories.txt", {"Size": "{%s}" % ", ".join(map(str, range(1, 121)))}, num=400 if c.thorough else 60, depth=43)
    base = ["Shared", "Consumed", "FromArg", "DrawsToBuild", "Scratch"]
    def conf():
        exes = c.builds([(("c23.cpp", "c23-%d" % g), dict(defs=["VH_PART=%d" % g], opt="-O1", flags=["-ftrivial-auto-var-init=uninitialized"])) for g in range(7)])
        c.conform([dict(exe=e, args=[c.seed * 100 + g, c.tier, hist], module="Tr_C23", name="c23-%d" % g, cfg="trace.cfg") for g, e in enumerate(exes)])
    par(lambda: c.model("MC_Hist", workers=2), *[lambda m=m: c.model("MC_Hist", {m: "TRUE"}, workers=1, expect_error=True) for m in base], conf)
    c.notes.append("histories are TLC simulations of History over 250 operations at 25 sizes, each in a process of its own, against first calls in fresh processes, the orders up and down, and every operation called up to 400 times over")


def c27(c):
    jobs = _parts(c, "c27.cpp", "Tr_C27", n=3, opt="-O1")
    c.conform([dict(j, cfg="embed.cfg", consts={"MaxLg": 9}) for j in jobs])
    c.notes.append("bit reversal at every width, logarithms around every power of two, 64-bit random words, test, evaluation, rounded and random messages and matrices for N = 4..4096, factor adjoints for N = 8..256, error reports with every maximum position, all printed forms, timers against an outer clock")


def c28(c):
    t = c.thorough
    # programs, lines looked at (0: all), threads; each is built as the repository builds it and run as it is
    progs = [("section4/design_delta_tilde", 0, 1), ("section4/design_delta_tilde_lattigo", 0, 1), ("section4/proposal", 56 if t else 28, 4),
             ("section3/theorem_serial_matmul_error", 0 if t else 5, 4), ("section3/lemma_conv_sum_error", 8 if t else 4, 4),
             ("section3/theorem_single_matmul_error", 20 if t else 5, 2), ("section4/measure_b_evalmod", 6 if t else 3, 2),
             ("section4/example_sup_norm", 35 if t else 25, 2), ("section3/theorem_cts_error", 18 if t else 9, 2), ("section3/lemma_conv_error", 106 if t else 9, 2)]
    def conf():
        drv = c.build("c28.cpp")
        exes = c.build_programs([p for p, _, _ in progs])
        c.conform([dict(exe=drv, args=[c.seed, c.tier, e, p.split("/")[1], n], module="Tr_C28", name="c28-" + p.split("/")[1], cfg="report.cfg", timeout=2400 if t else 300,
                        denv={"OMP_NUM_THREADS": str(k), "OMP_STACKSIZE": "512m"}) for (p, n, k), e in zip(progs, exes)])
    par(conf, lambda: c.model("MC_Noise", workers=1), lambda: c.model("MC_Noise", {"N": 2, "R": 3, "K": 2, "P": 3}, workers=1),
        lambda: c.model("MC_Noise", {"K": 2, "P": 1}, workers=2) if t else None,
        lambda: c.model("MC_Noise", {"N": 2, "K": 2, "P": 1, "Shared": "TRUE"}, workers=1, expect_error=True))
    c.notes.append("the ten experiment programs, built from src/experiment and run as they are, up to the first degree (N = 2^9 for bootstrapping, 2^15 for the lemmas), every formula to the printed precision")


def c26(c):
    hist = c.generate("GenHist", "histories.txt", {"Size": "{%s}" % ", ".join(map(str, range(1, 121)))}, num=60, depth=43)
    env = {"ASAN_OPTIONS": "halt_on_error=0:detect_leaks=0", "OMP_STACKSIZE": "512m", "MALLOC_PERTURB_": ""}
    def conf():
        exes = c.builds([(("c23.cpp", "c26-%d" % g), dict(defs=["VH_SAN", "VH_PART=%d" % g], opt="-O1", flags=["-ftrivial-auto-var-init=uninitialized", *c.SAN])) for g in range(11)])
        c.conform([dict(exe=e, args=[c.seed * 100 + g, c.tier, hist], module="Tr_C26", name="c26-%d" % g, cfg="trace.cfg", denv=env) for g, e in enumerate(exes)])
    par(lambda: c.model("MC_Index", {"MaxK": 40, "MaxG": 6} if c.thorough else None, workers=2),
        lambda: c.model("MC_Index", {"W": 2, "MaxK": 16}, workers=2),
        lambda: c.model("MC_Index", {"Slip": 1}, workers=1, expect_error=True),
        conf)
    c.notes.append("750 operations (every one of the library at several sizes, all pairs of 14 number sizes, bases of 1..98 primes, N up to 32768, every diagonal offset and rotation at the edges for N = 4..32, every polynomial degree, copies and assignments on exact-size heap objects), called upwards and downwards in one process with the storage in use compared")
