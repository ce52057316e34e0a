"""Harness invocations of Engine C (llsym) for each property."""
MODULI_A = ["Field arithmetic is replaced by integers: values and coefficients are computed modulo 2^256 and asserted to stay below the modulus where the field would reduce them."]
WORD_A = ["Constraints hold modulo a prime above 2^254 (as for BLS12-381); linear constraints whose values stay below that are decided over the integers."]
SCHED_A = ["rayon and crossbeam-channel are replaced by stand-ins (llsym/stubs) whose schedule is made of symbolic choices: pending tasks run in any order at any spawn, scope or blocking point, each task atomically."]
TOY_A = ["A toy engine with short encodings stands for the curve: elements of 2 and 3 bytes compressed, 3 and 4 uncompressed, with invalid, valid and identity encodings; real curves' encodings belong to other crates."]
K = range(3)


def word_ops():
    q = []
    for op in (0, 1):  # rotr, shr by every distance class
        for ka in (0, 1, 2):
            for by in (0, 1, 7, 31, 32, 33) if ka == 2 else (1, 13, 32):
                q.append((op, ka, 0, 0, by))
    for ka in K:
        for kb in K:
            q.append((2, ka, kb, 0, 0))
    for op in (3, 4):
        for ka in K:
            for kb in K:
                for kc in K:
                    q.append((op, ka, kb, kc, 0))
    for op in (5, 6, 7):
        for ka in (0, 1, 2):
            q.append((op, ka, 0, 0, 0))
    return q


def word_adds():
    q = []
    for n in range(2, 11):
        q.append((n, 0))                                              # all witnessed
        q.append((n, int("".join("12"[i % 2] for i in range(n)), 4)))  # constants and mixed words
        q.append((n, int("2" * n, 4)))                                 # mixed words only
        q.append((n, int("1" * (n - 1) + "0", 4)))                     # one witnessed
        q.append((n, int("1" * n, 4)))                                 # constants only
        q.append((n, int("0" * (n - 1) + "1", 4)))
    return sorted(set(q))


def shapes():
    q = [(0, 0), (2, 0), (3, 0), (3, 1), (10, 0), (11, 0), (11, 1), (13, 0)]
    q += [(1, i) for i in range(4)] + [(12, i) for i in range(3)] + [(8, i) for i in range(4)]
    two = [a + 4 * b for a in range(4) for b in range(4)]
    three = [a + 4 * b + 16 * c for a in range(4) for b in range(4) for c in range(4)]
    q += [(4, x) for x in two] + [(5, x) for x in two]
    q += [(6, x) for x in three] + [(7, x) for x in three]
    q += [(14, i) for i in range(4)] + [(15, 228), (15, 57), (15, 78), (15, 147)]
    q += [(16, x) for x in three if x in (0, 21, 42, 63) or x % 7 == 3] + [(17, x) for x in three if x in (0, 21, 42, 63) or x % 7 == 5]
    q += [(18, 4 * n + k) for n in (0, 1, 253, 254, 255, 509) for k in range(4)]
    q += [(20, i) for i in range(4)] + [(21, x) for x in two if x % 4 < 3 and x < 12]
    q += [(g, x) for g in (22, 23) for x in (0, 1, 2, 4, 8, 16, 32, 21, 36, 42, 33)]
    q += [(24, (n << 20) + k) for n, k in ((2, 0), (2, 4), (3, 36), (5, 0x2a5), (9, 0x12345), (9, 0))]
    q += [(25, i) for i in range(1, 12)]
    q += [(30, 0), (30, 12), (31, 1), (32, 4 * 3 + 1), (32, 0)]
    return q


SHAPE_B = ["Field arithmetic is replaced by arithmetic on 256-bit integers (inversion by a stand-in): the values only feed the witness, the coefficients compared are computed exactly."]
JOBS = {
    "C13": [
        dict(crate="shape", h="h_shape", args=shapes(), assumptions=SHAPE_B,
             thorough=[(30, 4 * 55), (30, 4 * 56 + 1), (30, 4 * 64 + 2), (30, 4 * 119), (31, 0), (31, 2), (31, 3), (32, 4 * 64), (32, 4 * 65 + 1), (32, 4 * 128 + 3)]
             + [(g, a + 4 * b + 16 * c) for g in (16, 17, 22, 23) for a in range(4) for b in range(4) for c in range(4)],
             bounds="every gadget, operands allocated, negated and constant in the listed combinations; every value of every bit, word and number, against values absent (closures called or not) and known only in part; hashes of 0 and 3 bytes and one block (thorough: up to 128 bytes)"),
        dict(crate="shape", h="h_shape_small", args=[(m, g, x) for m in (2, 4, 6) for g, x in ((3, 1), (11, 0), (11, 1), (18, 4 * 20), (18, 4 * 33 + 2))], reach=["done"], assumptions=SHAPE_B,
             bounds="the same for decompositions and packing in fields of 4 to 64 bits"),
    ],
    "C07": [
        dict(crate="core", h="h_word_op", args=word_ops(), assumptions=WORD_A,
             thorough=[(op, ka, 0, 0, by) for op in (0, 1) for ka in K for by in range(64)],
             bounds="rotr, shr (distances 0-63), xor, sha256_ch, sha256_maj, from/into bits in both endiannesses: all 2^32 values of every operand, operand kinds witnessed / constant / mixed bits (negated and constant bits)"),
        dict(crate="core", h="h_word_add", args=word_adds(), assumptions=WORD_A,
             bounds="addmany of 2 to 10 operands: all 2^(32n) values, operand kinds witnessed / constant / mixed bits"),
    ],
    "C04": [
        dict(crate="core", h="h_bits_u64", args=[()], reach=["done"], bounds="all 2^64 integers, value known or absent"),
        dict(crate="core", h="h_bits_field", args=[(m,) for m in range(8)], reach=["done"], assumptions=MODULI_A,
             bounds="every element of eight prime fields of 4 to 255 bits (BLS12-381 and Jubjub scalars among them), value known or absent"),
        dict(crate="core", h="h_conditional", args=[()], reach=["done"], bounds="every value of the bit and its condition"),
    ],
    "C06": [
        dict(crate="core", h="h_decompose", args=[(0, 1), (1, 1)] + [(m, st) for m in range(2, 8) for st in (0, 1)] + [(0, 0), (1, 0)], reach=["done"], assumptions=MODULI_A,
             bounds="every element of eight prime fields of 4 to 255 bits, strict and plain decomposition; every assignment of the bits that satisfies the constraints"),
    ],
    "C09": [
        dict(crate="core", h="h_sha256", args=[(56, 0), (119, 0), (64, 2), (3, 0), (31, 1), (32, 0), (55, 1), (0, 0)], assumptions=WORD_A,
             thorough=[(n, k) for n in list(range(3, 64)) + [64, 118, 119, 120, 127, 128, 183, 184] for k in (0, 1)],
             bounds="messages of 0, 3, 31, 32, 55, 56, 64 and 119 bytes (one to three blocks, every padding boundary; thorough: 3-64, 118-120, 127, 128, 183, 184): all values of every byte; bits allocated, negated and constant in fixed mixtures"),
        dict(crate="core", h="h_sha256_block", args=[(0,), (1,), (2,)], assumptions=WORD_A,
             bounds="one block without padding: all 2^512 values; bits allocated, negated and constant in fixed mixtures"),
    ],
    "C10": [
        dict(crate="core", h="h_blake2s", args=[(0, 0, 1), (0, 0, 2), (3, 1, 0), (8, 0, 0), (32, 0, 3), (32, 1, 2), (63, 0, 1), (64, 0, 0), (64, 1, 3), (65, 0, 0), (128, 0, 2), (129, 1, 3)], assumptions=WORD_A,
             thorough=[(n, k, q) for n in list(range(3, 70)) + [126, 127, 128, 129, 191, 192, 193] for k in (0, 1) for q in (n % 4,)],
             bounds="messages of 0, 3, 8, 32, 63, 64, 65, 128 and 129 bytes (one to three blocks; thorough: 3-69, 126-129, 191-193): all values of every byte; bits allocated, negated and constant in fixed mixtures; four personalisations"),
    ],
    "C12": [
        dict(crate="core", h="h_pack", args=[(m, n, k) for m, ns in ((0, (0, 1, 253, 254, 255, 509, 600)), (1, (251, 252, 503)), (2, (2, 3, 4, 7)), (3, (6, 7, 20)), (4, (8, 9, 17)), (5, (15, 16, 33))) for n in ns for k in (0, 1, 2)],
             reach=["done"], assumptions=MODULI_A,
             bounds="bit strings around every multiple of the capacity of six prime fields (up to 600 bits), all values; bits allocated, negated and constant in fixed mixtures"),
        dict(crate="core", h="h_bytes_to_bits", args=[(0,), (1,), (5,), (40,)], reach=["done"], bounds="all byte strings of 0, 1, 5 and 40 bytes"),
    ],
    "C18": [
        dict(crate="core", h="h_multiexp", args=[(2, 3, 3, 3, 0, 1, 0), (2, 3, 2, 3, 0, 2, 1), (3, 33, 1, 20, 0, 3, 12), (5, 60, 1, 60, 0, 0, 0), (3, 40, 1, 20, 0, 3, 0), (2, 2, 2, 2, 0, 0, 0), (2, 3, 3, 3, 1, 2, 1), (3, 33, 1, 33, 0, 0, 0),
                                                 (2, 3, 3, 3, 3, 2, 0), (3, 2, 1, 3, 1, 0, 0), (4, 2, 1, 2, 0, 0, 0), (5, 2, 1, 2, 0, 0, 0), (3, 4, 2, 4, 0, 3, 0), (2, 0, 0, 0, 0, 0, 0), (3, 2, 1, 1, 0, 0, 0), (3, 2, 1, 3, 0, 0, 4)],
             thorough=[(4, 33, 2, 34, 1, 1, 0), (5, 2, 2, 2, 0, 0, 0), (3, 3, 3, 4, 1, 2, 1), (4, 5, 2, 5, 0, 2, 1), (5, 60, 2, 30, 0, 3, 0), (2, 4, 4, 4, 0, 2, 1)],
             assumptions=["The crate's multicore feature is off in the analysed build: each window's task runs at once in the caller; what the thread pool does with tasks is C20.",
                          "The group is the free module on the bases, so an equal result is an equal multiset of base multiples; curve arithmetic belongs to other crates."],
             bounds="up to 3 arbitrary exponents among up to 60 over fields of 4 to 16 bits (1 to 6 windows of 3 to 5 bits), every subset of selected indices and of identity bases for up to 3, bases missing at the end, start offsets"),
        dict(crate="sched", h="h_multiexp_pool", args=[(2, 2, 2, 2, 0, 0, 0), (2, 3, 2, 3, 0, 2, 1)], assumptions=SCHED_A,
             bounds="the multicore build: 2 or 3 exponents (2 or more windows), any order of the windows' tasks within the first 6 choices, any number of threads up to 2^10"),
    ],
    "C19": [
        dict(crate="core", h="h_source", args=[(nb, st, k) for nb, st, k in ((3, 0, 3), (4, 1, 3), (0, 0, 2), (1, 1, 2), (2, 3, 2), (5, 2, 3))], thorough=[(4, 0, 4), (6, 1, 4), (3, 3, 4)],
             bounds="every sequence of 3 (thorough 4) reads, accumulations and skips of 0 to 5 on sources of 0 to 5 bases, each base arbitrary or the identity, from positions within, at and past the end"),
        dict(crate="core", h="h_density", args=[(0, 4), (1, 4), (2, 3), (3, 3), (5, 3), (6, 3)], thorough=[(3, 5), (4, 5), (7, 4)], reach=["done"],
             bounds="every sequence of 3 or 4 (thorough 5) additions and marks after 0 to 6 additions"),
    ],
    "C20": [
        dict(crate="sched", h="h_compute", args=[(3, 0, 0, 0, 6), (7, 0, 0, 0, 3), (7, 6627, 0, 0, 8), (7, 5461, 0, 1, 9), (4, 228, 15, 0, 8), (7, 10922, 127, 1, 8), (7, 16383, 1, 1, 8)],
             thorough=[(7, 6627, 3, 1, 11), (5, 228, 31, 0, 9), (12, 0, 0, 2, 9), (12, 0xe4e4e4, 0, 2, 9)], reach=["done"], assumptions=SCHED_A,
             bounds="up to 7 (thorough 12) computations, some starting others, waited for in order, in reverse, dropped at once or at the end; all values; any number of threads up to 2^20, or one (backlog path); every schedule within the first 3 to 9 (thorough 11) choices"),
        dict(crate="sched", h="h_scope", args=[(3, 1, 0, 6), (4, 0, 0, 8), (0, 0, 0, 0)], thorough=[(4, 1, 0, 9), (6, 0, 0, 10)], reach=["done"], assumptions=SCHED_A,
             bounds="up to 4 (thorough 6) scoped tasks, each starting another; any number of elements below 2^64 and of threads up to 2^20; every schedule within the first 6 or 8 (thorough 10) choices"),
        dict(crate="sched", h="h_chunks", args=[(7, 5, 2), (12, 8, 2), (4, 4, 6)], thorough=[(40, 20, 1), (5, 5, 8)], reach=["done"], assumptions=SCHED_A,
             bounds="up to 12 (thorough 40) elements over up to 8 (thorough 20) threads, a task for every chunk"),
        dict(crate="sched", h="h_log", args=[(32,)], reach=["done"], bounds="any number of threads up to 2^32"),
        dict(crate="core", h="h_plain", args=[()], reach=["done"], bounds="the single-threaded build: all values, any number of elements below 2^64 (chunk size), up to 15 elements covered"),
    ],
    "C27": [
        dict(crate="g16", h="h_proof_read", args=[(n, 0) for n in range(0, 10)] + [(7, 1), (9, 1), (5, 1), (7, 2), (9, 2)], assumptions=TOY_A,
             bounds="every byte string of 0 to 9 bytes (a proof has 7); delivered at once, one to three bytes at a time with an interruption at any of the first six calls, or failing at any byte"),
        dict(crate="g16", h="h_proof_write", args=[(0,), (1,), (2,)], reach=["done", "read back"], assumptions=TOY_A,
             bounds="every three elements, the identity included; writers that take one to three bytes at a time, are interrupted, or fail at any byte"),
        dict(crate="g16", h="h_proof_eq", args=[()], reach=["done"], bounds="every two proofs"),
    ],
    "C28": [
        dict(crate="g16", h="h_vk_read", args=[(n, 0, 0) for n in (0, 3, 10, 20, 24, 25, 28, 30, 32)] + [(n, 0, 1) for n in (25, 27, 34)] + [(30, 1, 1), (34, 2, 1), (27, 2, 0)], thorough=[(37, 0, 0), (40, 0, 1), (34, 1, 1), (32, 2, 0)], assumptions=TOY_A,
             bounds="every byte string of up to 34 (thorough 40) bytes (a key with k public-input elements has 25 + 3k), any length field; the same readers as for proofs"),
        dict(crate="g16", h="h_vk_write", args=[(0, 0), (2, 0), (3, 0), (1, 1), (1, 2)], reach=["done", "read back"], assumptions=TOY_A, bounds="every key of up to 3 public-input elements, the same writers as for proofs"),
        dict(crate="g16", h="h_vk_eq", args=[(2, 2), (1, 2), (2, 1), (0, 0)], reach=["done"], bounds="every two keys of up to 2 public-input elements"),
        dict(crate="g16", h="h_params_read", args=[(n, 0, c) for n in (0, 4, 14, 24, 27, 30, 32) for c in (0, 1)] + [(34, 0, 1), (24, 1, 0), (27, 2, 1), (25, 2, 0)], thorough=[(36, 0, 0), (39, 0, 1), (28, 1, 1), (32, 2, 0)], assumptions=TOY_A,
             bounds="every byte string of up to 34 (thorough 39) bytes after a fixed key (five empty queries take 24; the length fields are arbitrary), both modes, the same readers"),
        dict(crate="g16", h="h_params_write", args=[(1365, 0, 1), (1365, 0, 2), (0, 0, 1), (2730, 0, 1), (2730, 0, 2), (1 + 4 * 2 + 64 * 3 + 1024, 0, 2), (1364, 1, 1), (1365, 2, 2)], reach=["done", "read back"], thorough=[(4095, 0, 2), (2730, 1, 2), (2730, 2, 1)], assumptions=TOY_A,
             bounds="all parameters with queries of up to 3 elements in several size patterns, elements also outside the group (unchecked mode), the same writers; read back in both modes"),
        dict(crate="g16", h="h_params_eq", args=[(1365, w) for w in range(6)] + [(1365, 7), (2730, 7), (0, 7)], reach=["done"], bounds="every two parameters with queries of up to 2 elements, sizes equal or differing in any one"),
    ],
}
