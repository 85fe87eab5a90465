# Build flavours and, per property, which flavours/workers/case counts each tier runs.
SAN = "-fsanitize=address,bounds,shift-exponent,integer-divide-by-zero -fno-sanitize-recover=all -fno-omit-frame-pointer"
def fl(cflags, asm=False, cc="gcc", cxx="g++", cxxflags=None, ldflags="", **k):
    d = dict(cflags=cflags, asm=asm, cc=cc, cxx=cxx, cxxflags=cxxflags if cxxflags is not None else "-O2", ldflags=ldflags); d.update(k); return d
FLAVOURS = {
    # as shipped by CMakeLists.txt: -O2 -g, assertions on, hardware paths
    "default":  fl("-O2 -g", asm=True),
    "portable": fl("-O2 -g"),
    "w4":       fl("-O2 -g -DBN_WORD_BYTE=4", cxxflags="-O2 -DBN_WORD_BYTE=4"),
    "g128":     fl("-O2 -g -U__SIZEOF_INT128__"),
    "compact":  fl("-O2 -g -DRACRYPT_AES_MIN_TABLE -DRACRYPT_PRIME_MIN_TABLE", noroll=True),
    "vk":       fl("-O2 -g -DRACRYPT_RSA_VERIFY_KEY", asm=True),
    "asan":     fl("-O1 -g " + SAN, asm=True, cc="clang", cxx="clang++", cxxflags="-O1 -g " + SAN, ldflags=SAN),
    "asanp":    fl("-O1 -g " + SAN, cc="clang", cxx="clang++", cxxflags="-O1 -g " + SAN, ldflags=SAN),
    "asan4":    fl("-O1 -g -DBN_WORD_BYTE=4 " + SAN, cc="clang", cxx="clang++", cxxflags="-O1 -g -DBN_WORD_BYTE=4 " + SAN, ldflags=SAN),
    "asannd":   fl("-O1 -g -DNDEBUG " + SAN, asm=True, cc="clang", cxx="clang++", cxxflags="-O1 -g -DNDEBUG " + SAN, ldflags=SAN),
    "asannd4":  fl("-O1 -g -DNDEBUG -DBN_WORD_BYTE=4 " + SAN, cc="clang", cxx="clang++", cxxflags="-O1 -g -DBN_WORD_BYTE=4 -DNDEBUG " + SAN, ldflags=SAN),
    "tsan":     fl("-O1 -g -fsanitize=thread", cc="clang", cxx="clang++", cxxflags="-O1 -g -fsanitize=thread", ldflags="-fsanitize=thread", asm=True),
    "clang3":   fl("-O3 -g", asm=True, cc="clang", cxx="g++"),
    # the branches Visual C++ compiles, with its intrinsics stood in for (h/alt/shim_ms.h): 2019 16.0 and later, and earlier
    "ms":       fl("-O2 -g -DSHIM_MS_VER=1935 -include {H}/alt/shim_ms.h", opt=True),
    "ms19":     fl("-O2 -g -DSHIM_MS_VER=1916 -include {H}/alt/shim_ms.h", opt=True),
    "fuzz":     fl("-O1 -g -fsanitize=fuzzer-no-link " + SAN, asm=True, cc="clang", cxx="clang++", cxxflags="-O1 -g -fsanitize=fuzzer-no-link " + SAN, ldflags="-fsanitize=fuzzer " + SAN),
}
PLAN = {}
def P(pid, files, quick, technique, note, thorough=None, fuzz=150, **k):
    """quick/thorough: lists of (flavour, workers, cases per worker)"""
    th = thorough or [(f, w * 2, c * 8) for f, w, c in quick]
    PLAN[pid] = dict(files=files, quick=quick, thorough=th, fuzz=fuzz, technique=technique, note=note, **k)

EXACT = "property-based testing against exact integer arithmetic (OpenSSL BIGNUM as oracle), shrinking; coverage-guided in thorough"
BNOTE = "Random and boundary-structured search, no proof: every case is compared with OpenSSL's integers in the shipped, 32-bit-word, no-int128 and sanitizer builds. Trusts libcrypto and the harness. "
BN = ["prop_bn.cpp"]
P("C11", BN, [("default", 2, 600000), ("w4", 2, 400000), ("asan", 3, 200000), ("asan4", 1, 200000)], EXACT, BNOTE + "Operands up to 4096 bits, rarely to 50000, all aliasings.")
P("C12", BN, [("default", 2, 900000), ("w4", 2, 900000), ("g128", 1, 900000), ("asan", 2, 450000), ("asan4", 1, 300000), ("ms", 1, 500000), ("ms19", 1, 300000)], EXACT, BNOTE + "Destinations hold at least the sum of the operands' bit lengths, as the library documents by its own check; the destination is not an operand.")
P("C13", BN, [("asannd", 1, 4000), ("default", 2, 800000), ("w4", 2, 800000), ("g128", 2, 800000), ("asan", 2, 300000), ("asan4", 1, 300000), ("ms", 1, 500000), ("ms19", 1, 400000)], EXACT, BNOTE + "Any quotient/remainder pair meeting the division identity is accepted; division by zero is judged with assertions off (an assertion stops the program otherwise).")
P("C14", BN, [("asannd", 1, 4000), ("default", 2, 1500000), ("w4", 2, 1500000), ("g128", 1, 900000), ("asan", 2, 450000), ("asan4", 1, 300000), ("ms", 1, 800000), ("ms19", 1, 800000)], EXACT, BNOTE + "All words including the most negative one.")
P("C15", BN, [("default", 2, 1000000), ("w4", 2, 1000000), ("asan", 2, 400000), ("asan4", 1, 400000)], EXACT, BNOTE + "Shift counts to 3000, rarely to 30000.")
P("C16", BN, [("default", 2, 400000), ("w4", 2, 400000), ("g128", 1, 240000), ("asan", 2, 160000), ("asan4", 1, 120000), ("ms", 1, 150000), ("ms19", 1, 100000)], "model-based stateful testing: random programs over five variables tracked by exact integers", BNOTE + "Programs of up to 40 steps.")
P("C17", BN, [("default", 2, 1000000), ("w4", 2, 1000000), ("asan", 2, 400000), ("asan4", 1, 250000)], EXACT, BNOTE + "Strings mostly to 170 bytes, rarely to 70 kB; canaried buffers.")

DG = ["prop_dgst.cpp"]
DREF = "property-based testing against reference implementations (OpenSSL; MD2 and HAS-160 written from their definitions), shrinking; coverage-guided in thorough"
P("C01", DG, [("default", 2, 40000), ("portable", 2, 40000), ("compact", 1, 20000), ("clang3", 1, 20000), ("asan", 2, 12000)], DREF, "Random and boundary search over lengths, alignments and contents in the hardware, portable and rolled builds; trusts the references (HAS-160 checked on the published vectors).")
P("C02", DG, [("default", 2, 30000), ("portable", 2, 30000), ("compact", 1, 15000), ("asan", 3, 8000)], "model-based stateful testing of interleaved digest contexts against one-shot references", "Random histories over up to four contexts; every two-piece split of short messages.")
_C03 = ["%02x%02x" % (a, k) for k in (1, 5, 0) for a in range(11)]
P("C03", DG, [("default", 33, 1, _C03)], "property-based testing with multi-gigabyte generated messages against OpenSSL and reference implementations",
  "Every hash just around 2^29 and 2^32 bytes and with a random length between 2^31 and 2^32 per run, random cutting with updates up to 2^31-1 bytes; MD2 (no length field) only shorter messages in quick. The field above 2^61 bytes cannot be reached.",
  thorough=[("default", 66, 2, ["%02x%02x" % (a, k) for k in range(6) for a in range(11)]), ("portable", 66, 1, ["%02x%02x" % (a, k) for k in range(6) for a in range(11)]), ("asan", 11, 1, ["%02x%02x" % (a, 0) for a in range(11)])], fuzz=0, limit=850)

CI = ["prop_cipher.cpp"]
CREF = "property-based testing against reference ciphers (OpenSSL block functions, modes and padding modelled independently), shrinking; coverage-guided in thorough"
CQ = lambda n: [("default", 2, 4 * n), ("portable", 2, 4 * n), ("compact", 1, 2 * n), ("clang3", 1, 2 * n), ("asan", 3, n)]
P("C04", CI, CQ(60000), CREF, "Random and structured keys and blocks in the hardware, portable and small-table builds; trusts libcrypto's block functions.")
P("C05", CI, CQ(60000), CREF, "Messages of up to 200 blocks in all four modes; the mode definitions are re-stated in the harness over libcrypto's block functions.")
P("C06", CI, CQ(40000), "metamorphic and model-based testing of random call cuts against the one-call result and a reference", "Random cuts and all two-piece cuts of short messages. When padding is to be removed the finishing call receives the end of the message.")
P("C07", CI, CQ(60000), CREF, "All residues of the message length and last blocks built around valid padding.")
P("C08", CI, CQ(30000), "model-based stateful testing of interleaved cipher contexts", "Random histories over up to three contexts with re-initialisation and IV changes in mid block.")
P("C09", CI, [("default", 3, 80000), ("clang3", 2, 60000), ("asan", 3, 15000)], "model-based testing against OpenSSL's RC4", "Keys of 1 to 256 bytes, missing and empty keys, in-place calls, streams to 70 kB.")

NU = ["prop_num.cpp"]
P("C18", NU, [("default", 2, 60000), ("w4", 2, 40000), ("g128", 1, 30000), ("asan", 2, 20000), ("asan4", 1, 10000), ("ms", 1, 20000), ("ms19", 1, 20000)], EXACT, BNOTE + "Operands to 1024 bits in quick, continued fractions chosen to stress the quotients.")
P("C19", NU, [("default", 2, 15000), ("w4", 2, 12000), ("g128", 2, 12000), ("asan", 2, 6000), ("asan4", 1, 5000), ("ms", 1, 8000), ("ms19", 1, 8000)], EXACT, BNOTE + "Moduli to 768 bits in quick (2176 in thorough), exponents around the window structure, contexts reused up to four times.")
P("C20", NU, [("default", 3, 6000), ("w4", 2, 4000), ("g128", 1, 3000), ("asan", 2, 1500)], "property-based testing against OpenSSL's primality test with a statistical rule for the permitted error", "A composite counts as accepted only when it is called prime repeatedly far beyond the permitted error; numbers to 1100 bits. Trusts OpenSSL.")
P("C21", NU, [("default", 3, 8000), ("w4", 2, 6000), ("compact", 1, 6000), ("asan", 2, 3000)], "property-based testing against OpenSSL's primality test, metamorphic re-runs", "Sizes from 16 to 215 bits in quick, 600 in thorough; the composite outputs that five Miller-Rabin rounds may miss are told apart by their liar rate.")
P("C22", NU, [("default", 2, 8000), ("w4", 2, 8000), ("asan", 3, 3000), ("asan4", 1, 2000)], "statistical property-based testing of random numbers with fixed seeds", "96 draws per case: a bit is called constant only at a chance of 2^-95.")
P("C23", NU, [("default", 2, 18000), ("portable", 1, 18000), ("w4", 1, 12000), ("asan", 3, 6000)], "metamorphic property-based testing of the generator stream", "Stream equality, seed sensitivity and absence of repetition are searched, unpredictability itself is not decided. Entropy of the system is replaced by a stand-in.")
P("C24", NU, [("default", 3, 180000), ("asan", 2, 60000)], "property-based testing with chosen generator output", "Ends of the range are reached by setting the generator's buffered output.")

RS = ["prop_rsa.cpp"]
P("C25", RS, [("default", 3, 6000), ("w4", 2, 4000), ("compact", 1, 4000), ("asan", 2, 1500)], "property-based testing of generated keys against the RSA definition computed with exact integers", "Even sizes from 32 to 330 bits in quick, 1126 in thorough; small keys are where rare generation accidents show. Components are read back from the exported key.", limit=60)
P("C26", RS, [("default", 2, 12000), ("w4", 2, 8000), ("asan", 3, 4000), ("vk", 1, 4000)], EXACT, "Valid keys and arbitrary odd moduli to 512 bits in quick, messages over the whole range.")
P("C27", RS, [("default", 2, 12000), ("w4", 2, 8000), ("asan", 3, 3000), ("vk", 1, 3000)], "round-trip property-based testing against an independent DER encoder", "Keys with valid and with arbitrary components, every buffer relation to the needed size.")
P("C28", RS, [("asan", 4, 40000), ("asan4", 2, 20000), ("default", 2, 60000), ("vk", 1, 10000), ("asannd", 1, 15000)], "structured fuzzing with mutation and grammar generators, sanitizers, and an independent reader of the same bytes; coverage-guided in thorough", "Random search over mutated keys and random element trees of up to 6 kB. Trusts the independent reader for what an accepted input encodes.")
P("C29", RS, [("default", 3, 24000), ("w4", 2, 16000), ("asan", 2, 8000), ("vk", 1, 6000)], "property-based testing with generated encodings", "Components to 38400 bits, rarely to 65600 bytes, definite lengths in every legal size and indefinite lengths for constructed elements.")
P("C30", RS, [("default", 3, 8000), ("w4", 2, 5000), ("asan", 3, 2500)], "mutation-style property-based testing against the consistency relation computed with exact integers", "Keys to 280 bits in quick; an inconsistent key counts as accepted only when accepted repeatedly (primality is probabilistic).")

SY = ["prop_oom.cpp"]
FLAVOURS["nd"] = fl("-O2 -g -DNDEBUG", asm=True, cxxflags="-O2 -DNDEBUG")
FLAVOURS["nd4"] = fl("-O2 -g -DNDEBUG -DBN_WORD_BYTE=4", cxxflags="-O2 -DBN_WORD_BYTE=4 -DNDEBUG")
P("C31", SY, [("default", 3, 6000), ("w4", 2, 2500), ("asan", 3, 1000), ("vk", 1, 800)], "property-based fault injection: generated operations, every allocation made to fail in turn (alone, and with all later ones), compared with the undisturbed run", "Every allocation index of operations with up to 48 allocations (400 in thorough), a sample of 48 beyond; inputs are random. malloc is interposed at link time.", level="fault_enumeration")
P("C32", SY, [("nd", 2, 300000), ("nd4", 2, 200000), ("asannd", 2, 80000), ("asannd4", 2, 60000)], EXACT, BNOTE + "Capacities at and just below the need; assertions off (with them on, most refusals stop the program before the error is returned).")
P("C33", ["prop_thr.cpp"], [("tsan", 4, 1200), ("default", 2, 3000), ("w4", 1, 2000), ("portable", 1, 2000)], "property-based concurrency testing: generated operation lists on several threads in a fresh process, compared with running alone, under ThreadSanitizer", "Random inputs and whatever interleavings occur; ThreadSanitizer reports unsynchronised access independently of the interleaving seen. Nothing is proved about schedules that were not run.", fuzz=0, limit=200)
P("C34", ["prop_wipe.cpp"], [("default", 3, 30000), ("portable", 1, 30000), ("w4", 1, 20000), ("clang3", 2, 30000), ("asan", 1, 8000)], "metamorphic property-based testing (non-interference): the same history with two secrets, comparing the memory handed back to the allocator", "Every block released by the destroying call, compared in the shipped build with its optimiser (and clang -O3). Leftovers below 6 bytes in an aligned 8-byte group, copies left on the stack and temporaries of other operations are not judged.")

P("C35", ["prop_mem.cpp"], [("asan", 2, 200000), ("asanp", 2, 200000), ("default", 2, 500000), ("portable", 1, 500000), ("w4", 1, 300000)], "property-based testing with exactly placed buffers: the same calls with buffers at an inaccessible page or in separate heap blocks under AddressSanitizer, compared with the calls on roomy buffers", "Random calls with pieces to 70 kB. A write outside a buffer is seen at its end or its beginning, wherever the inaccessible page lies, and within 96 bytes on the other side.")
HI = ["prop_hist.cpp"]
P("C36", HI, [("default", 2, 40000), ("w4", 1, 25000), ("portable", 1, 25000), ("compact", 1, 15000), ("asan", 2, 12000)], "model-based stateful testing: several objects' call sequences interleaved at random, each compared with the same sequence run alone", "Two to five objects of any kind per case, often of the same kind or differing in one byte, created and destroyed at any point. One process; threads are C33's.")
P("C37", HI, [("default", 2, 60000), ("w4", 1, 40000), ("nd", 1, 40000), ("asan", 2, 15000), ("asannd", 1, 15000), ("vk", 1, 20000)], "model-based stateful testing of object lifetimes with counted allocations and descriptors", "Random lives of two to six objects, refused imports and numbers, failing entropy source; running out of memory is C31's.")
P("C38", HI, [("nd", 2, 200000), ("nd4", 1, 120000), ("asannd", 2, 60000), ("asannd4", 1, 40000)], "property-based testing of generated requests that have no answer", "Divisors zero, even and zero moduli, empty imports, impossible sizes, private operations of public keys; judged with assertions off, since an assertion stops the program first.")
P("C39", ["prop_rsa.cpp"], [("default", 3, 20000), ("w4", 2, 12000), ("portable", 1, 8000), ("asan", 2, 3000)], "metamorphic property-based testing: repeated unseeded draws under one clock compared, and the same draw with one bit of the system's entropy inverted", "The entropy source and the clock are replaced at link time. Draws of 96 bits and more, primes and keys from 72 bits. What happens when the source fails is C37's.")
P("C40", ["prop_wear.cpp"], [("default", 3, 2500), ("w4", 2, 1500), ("portable", 2, 1500), ("asan", 1, 300)], "model-based property-based testing of long histories: one object used hundreds to 131079 times, thousands of objects alive at once", "Every single result is compared with the oracle. Counts cluster around 256, 1024, 4096, 32768 and 65536 (131072 when thorough); key sizes stay small so that many uses fit.")
VAR = ["v_default", "v_portable", "v_w4", "v_g128", "v_compact", "v_small4", "v_masm", "v_masm32", "v_arm64", "v_arm64o"]
for _v, _b in [("v_default", "default"), ("v_portable", "portable"), ("v_w4", "w4"), ("v_g128", "g128"), ("v_compact", "compact")]:
    FLAVOURS[_v] = dict(FLAVOURS[_b], fpic=["-fPIC"])
FLAVOURS["v_small4"] = fl("-O1 -g -DBN_WORD_BYTE=4 -DRACRYPT_AES_MIN_TABLE -DRACRYPT_PRIME_MIN_TABLE", noroll=True, asm=True, fpic=["-fPIC"])
# other platforms' assembly: Windows 64-bit and 32-bit (run natively), arm64 (emulated)
_ASM = "-DRACRYPT_USE_ASM"
FLAVOURS["v_masm"] = fl("-O2 -g %s -DSHIM_MS_VER=1935 -include {H}/alt/shim_ms.h" % _ASM, alt="masm", fpic=["-fPIC"])
FLAVOURS["v_masm32"] = fl("-O2 -g %s -DBN_WORD_BYTE=4 -DSHIM_MS_VER=1935 -DSHIM_MS_WIN32 -include {H}/alt/shim_ms.h" % _ASM, alt="masm32", fpic=["-fPIC"])
FLAVOURS["v_arm64"] = fl("-O2 -g -DRACRYPT_USE_ASM_AES -DRACRYPT_USE_ASM_SHA1", alt="arm64", fpic=["-fPIC"])
FLAVOURS["v_arm64o"] = fl("-O2 -g -DRACRYPT_USE_ASM_AES -DRACRYPT_USE_ASM_SHA1 -DRACRYPT_USE_ASM_SHA256", alt="arm64", sha2=True, opt="-O0", fpic=["-fPIC"])
P("C10", ["prop_var.cpp"], [("default", 8, 40000)], "differential property-based testing of ten build variants loaded side by side", "Hardware, portable, looped and small-table, 32-bit-word, no-int128 and a mixed build, the Windows 64- and 32-bit assembly (assembled by llvm-ml, run natively) and the arm64 code (compiled by clang, run in the harness's emulator at -O2 and -O0) receive the same random calls; other platforms' builds are stood in for, so their calling code is not the platform compiler's. Number generation from a random source is left out (bytes drawn depend on the word and table size by design).", variants=VAR, fuzz=0)

# quick counts scaled so that each check takes about half a minute to a minute
for _p, _m in {'C01': 3, 'C02': 8, 'C04': 2.5, 'C05': 2, 'C06': 3, 'C07': 4, 'C08': 3, 'C09': 4, 'C13': 1.5, 'C14': 2, 'C15': 3, 'C17': 3, 'C18': 4, 'C19': 5, 'C21': 2.5, 'C23': 5, 'C25': 2, 'C26': 2.5, 'C27': 3, 'C28': 2, 'C29': 2, 'C30': 2.5}.items():
    PLAN[_p]["quick"] = [(f, w, int(c * _m)) for f, w, c in PLAN[_p]["quick"]]

# other compilers' views of the same sources, in thorough: optimisation levels, uninitialised locals set to a pattern, arithmetic sanitizer
_AR = "-fsanitize=signed-integer-overflow,pointer-overflow,alignment -fno-sanitize-recover=all"
FLAVOURS.update({
    "gcc3":   fl("-O3 -march=native -flto", asm=True, ldflags="-flto"),
    "gccpat": fl("-O2 -fPIE -fstack-protector-all -ftrivial-auto-var-init=pattern", asm=True),
    "clang0": fl("-O0 -g", asm=True, cc="clang"),
    "arith":  fl("-O1 -g " + _AR, asm=True, cc="clang", cxx="clang++", cxxflags="-O1 " + _AR, ldflags=_AR),
    "arith4": fl("-O1 -g -DBN_WORD_BYTE=4 " + _AR, cc="clang", cxx="clang++", cxxflags="-O1 -DBN_WORD_BYTE=4 " + _AR, ldflags=_AR),
})
for _p, _v in PLAN.items():
    if _p in ("C03", "C32", "C33", "C38"): continue
    _n = max(c for f, w, c in _v["quick"])
    _v["thorough"] = _v["thorough"] + [(f, 1, _n) for f in ("gcc3", "gccpat", "clang0", "arith")] + ([("arith4", 1, _n)] if any(f == "w4" for f, w, c in _v["quick"]) else [])
