#include "bn.h"

// ---- C11 -----------------------------------------------------------------------
static int opAS(int op, struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b) { return op == 0 ? BnAdd(r, a, b) : op == 1 ? BnSub(r, a, b) : BnDouble(r, a); }
PROP(C11, addsub, 1, "*", "two signed integers (0..4096 bits, boundary words, related values), op in {add,sub,double}, all aliasings and tight or ample destinations; non-trivial when both operands are non-zero and a carry, borrow or sign change is involved") {
    int op = s.below(3);
    Z a = genZ(s), b = genNear(s, a);
    int alias = s.below(6);              // 0 fresh 1 r=a 2 r=b 3 a=b 4 all same 5 fresh, tight
    if (alias == 3 || alias == 4) b = a;
    Z want = op == 0 ? a + b : op == 1 ? a - b : a.shl(1);
    static const char *on[] = {"add", "sub", "double"};
    NOTE("%s alias=%d a=%s b=%s", on[op], alias, zs(a), zs(b));
    int need = std::max(words(want), op == 2 ? words(a) : std::max(words(a), words(b)));
    LeakCheck lc;
    {
        N A(a, alias == 1 || alias >= 3 ? need - words(a) + (int)s.below(2) : (int)s.below(2)), B(b, alias == 2 && op != 2 ? need - words(b) + (int)s.below(2) : (int)s.below(2));
        W R(need + (alias == 5 ? 0 : (int)s.below(3)));
        R.set(s.below(2) ? Z(0) : -Z::u(s.word(WBITS)));   // previous content must not matter
        struct RaBigNumber *pa = A, *pb = B, *pr = R;
        if (alias == 1) pr = A; if (alias == 2 && op != 2) pr = B; if (alias == 3) pb = A; if (alias == 4) pr = pb = A;
        dirtyStack();
        int ret = opAS(op, pr, pa, pb);
        CHECK(ret == RA_ERR_SUCCESS, "%s of %s and %s returned %d", on[op], zs(a), zs(b), ret);
        expectBn(pr, want, on[op]);
        if (pr != pa) same(pa, a, on[op]);
        if (pr != pb && op != 2) same(pb, b, on[op]);
    }
    lc.done(on[op]);
    if (!a.zero() && (op == 2 || !b.zero()) && (words(want) != words(a) || want.neg() != a.neg() || words(a) > 1)) nontrivial();
    cls(on[op]); if (want.zero()) cls("result zero"); if (words(want) > std::max(words(a), words(b))) cls("carry into a new word"); if (words(want) < std::max(words(a), words(b))) cls("cancellation drops words"); cls(alias ? "aliased or tight" : "distinct objects");
}

// ---- C12 -----------------------------------------------------------------------
PROP(C12, mul, 2, "*", "two signed integers of independent sizes up to 40 words of dense, sparse, all-ones or boundary words; product (and a*a) against the oracle with exact-size destinations; non-trivial when both factors exceed one word or a factor has an all-ones word") {
    Z a = genZ(s, 40), b = s.below(4) == 0 ? genNear(s, a, 40) : genZ(s, 40);
    if (words(b) > 90 && s.below(64)) b = b % Z(1).shl(2560);
    bool sq = s.below(4) == 0; bool selfmul = !sq && s.below(8) == 0; if (sq || selfmul) b = a;
    if (!sq && !selfmul && s.below(8) == 0) { uint64_t w = s.below(2) ? 2 + s.below(s.below(2) ? 16 : 65536) : s.word(WBITS); a = carryWords(s, w, 1 + s.below(6)); b = Z::u(w); if (s.below(2)) b = b + Z::u(s.word(WBITS)).shl(WBITS * (1 + s.below(4))); if (s.below(2)) std::swap(a, b); }
    Z want = a * b;
    NOTE("%s a=%s b=%s", sq ? "sqr" : "mul", zs(a), zs(b));
    LeakCheck lc;
    {
        N A(a, s.below(2)), B(b, s.below(2)); int room = want.zero() ? 1 : (a.bits() + b.bits() + WBITS - 1) / WBITS; W R(room + (int)s.below(3));   // documented room: the two bit lengths added
        // leave stale words in the destination
        for (int i = 0; i < R.p->max_length; i++) R.p->data[i] = (bn_uint_t)(0x5a5a5a5a5a5a5a5aull * (i + 1)); R.p->length = R.p->max_length; R.p->sign = s.below(2);
        dirtyStack();
        int ret = sq ? BnSqr(R, A) : BnMul(R, A, selfmul ? A : B);
        CHECK(ret == RA_ERR_SUCCESS, "product returned %d for %s, %s", ret, zs(a), zs(b));
        expectBn(R, want, sq ? "square" : "product"); same(A, a, "product"); same(B, b, "product");
        if (!sq) { W R2(room); CHECK(BnMul(R2, B, A) == RA_ERR_SUCCESS, "product (commuted) failed"); expectBn(R2, want, "commuted product"); }
    }
    lc.done("product");
    if (words(a) > 1 && words(b) > 1) nontrivial();
    cls(sq ? "square" : "product"); if (words(a) != words(b)) cls("unequal lengths"); if (a.zero() || b.zero()) cls("zero factor"); if (a.neg() != b.neg()) cls("mixed signs");
}

// ---- C13 -----------------------------------------------------------------------
static Z genDivisor(Src &s) {
    Z b;
    switch (s.below(5)) {
    case 0: b = genMag(s, 24); break;
    case 1: { int w = 1 + s.below(6); Z t = genMagW(s, w); uint64_t top = s.one<uint64_t>({1, 2, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, ~0ull, ~1ull, 0xffffffff00000000ull, 0xffffffff00000001ull, 0xffffffffull, 0x100000000ull, 0x80000000ull, 0x80000001ull, 0x8000000080000000ull, 0x80000000ffffffffull}); b = Z::u(top).shl(64 * (w - 1)) + (w > 1 ? t % Z(1).shl(64 * (w - 1)) : Z(0)); break; }
    case 2: b = Z(1).shl(s.below(600)) + Z((long)s.below(3) - 1); break;
    case 3: b = Z::u(s.word(64)); break;
    default: b = genMagW(s, 1 + s.below(4));
    }
    if (b.zero()) b = Z(1);
    return b;
}
static void divCase(Src &s, Z &a, Z &b) {
    b = genDivisor(s);
    switch (s.below(6)) {
    case 0: a = genMag(s, 40); break;
    case 1: { // quotient and remainder with boundary words
        Z q = genMag(s, 16), r; switch (s.below(4)) { case 0: r = b - Z(1); break; case 1: r = Z(0); break; case 2: r = genMag(s, 20) % b; break; default: r = Z((long)s.below(3)) % b; }
        a = q * b + r; break; }
    case 2: { // leading words of a equal those of b (quotient digit estimate saturates)
        int k = 32 * (int)s.range(1, 8); a = b.shl(k) - Z(1) - Z::u(s.word(64)) % b.shl(k); if (s.below(2)) a = b.shl(k) - genMag(s, 6) % b.shl(k); break; }
    case 3: a = b + Z((long)s.below(5) - 2); break;
    case 4: a = b.shl(s.below(200)) + genMag(s, 3) - Z((long)s.below(3)); break;
    default: { // a's top equal to b's top word, zeros or ones below
        int wb = words(b); Z top = b.shr((wb - 1) * WBITS); int k = (int)s.range(0, 6); a = top.shl((wb - 1 + k) * WBITS) + (s.below(2) ? Z(1).shl((wb - 1 + k) * WBITS) - Z(1) : genMagW(s, wb + k) % Z(1).shl((wb - 1 + k) * WBITS)); }
    }
    if (a.neg()) a = -a;
}
PROP(C13, divmod, 3, "*", "dividend/divisor pairs built from boundary quotients, saturating leading words and random values, all sign mixes, minimal destinations; non-trivial when the divisor has at least two words or the quotient does") {
    Z a, b; divCase(s, a, b);
    if (s.below(4) == 0) a = -a; if (s.below(4) == 0) b = -b;
    NOTE("a=%s b=%s", zs(a), zs(b));
    caseCpuLimit(strstr(flavour(), "asan") ? 20 : 6);
    LeakCheck lc;
    {
        N A(a, s.below(2)), B(b, s.below(2));
        int tight = s.below(2);
        W Q(std::max(words(a) - words(b) + 2, 1) + (tight ? 0 : (int)s.below(3))), R(words(b) + (tight ? 0 : (int)s.below(3))), M(words(b) + (tight ? 0 : (int)s.below(3)));
        Q.p->sign = s.below(2); R.p->sign = s.below(2); M.p->sign = s.below(2);
        for (auto *x : {Q.p, R.p, M.p}) { for (int i = 0; i < x->max_length; i++) x->data[i] = (bn_uint_t)0xfefefefefefefefeull; x->length = x->max_length; }
        dirtyStack();
        int ret = BnDiv(Q, R, A, B);
        CHECK(ret == RA_ERR_SUCCESS, "division of %s by %s returned %d", zs(a), zs(b), ret);
        Z q = val(Q), r = val(R);
        CHECK(q * b + r == a, "division identity broken: %s / %s gave quotient %s remainder %s", zs(a), zs(b), zs(q), zs(r));
        CHECK(r.abs() < b.abs(), "remainder %s not smaller than divisor %s (dividend %s)", zs(r), zs(b), zs(a));
        CHECK(r.zero() || r.neg() == b.neg(), "quotient not rounded down: %s / %s gave quotient %s remainder %s", zs(a), zs(b), zs(q), zs(r));
        expectBn(Q, q, "quotient"); expectBn(R, r, "remainder");
        same(A, a, "division"); same(B, b, "division");
        ret = BnMod(M, A, B);
        CHECK(ret == RA_ERR_SUCCESS, "remainder of %s by %s returned %d", zs(a), zs(b), ret);
        Z m = val(M);
        CHECK(m.abs() < b.abs() && (a - m).mod(b.abs()).zero(), "%s mod %s gave %s", zs(a), zs(b), zs(m));
        expectBn(M, m, "mod"); same(A, a, "mod"); same(B, b, "mod");
    }
    lc.done("division");
    if (words(b) > 1 || words(a) > 2) nontrivial();
    if (words(a) < words(b)) cls("dividend shorter"); else if (words(a) == words(b)) cls("same length"); else cls("dividend longer"); if (a.neg() || b.neg()) cls("negative operand"); if ((a % b).zero()) cls("exact");
}
PROP(C13, divrepeat, 1, "*", "repeated reduction: x -> (x*k + c) mod b for a chain of steps with one set of objects; non-trivial when the chain has at least two steps with a multi-word divisor") {
    Z b = genDivisor(s); Z x = genMag(s, 10); int n = 1 + s.below(6);
    NOTE("b=%s x0=%s steps=%d", zs(b), zs(x), n);
    N B(b); W X(words(x) > words(b) ? words(x) : words(b)); X.set(x); W T(std::max(words(x), words(b)) + 4 + 2), R(words(b)), Q(std::max(words(x), words(b)) + 8);
    for (int i = 0; i < n; i++) {
        Z k = genMagW(s, 1 + s.below(2)), c = genMagW(s, 1); N K(k), C(c);
        CHECK(BnMul(T, X, K) == 0, "mul failed"); CHECK(BnAdd(T, T, C) == 0, "add failed"); Z t = x * k + c; expectBn(T, t, "accumulator");
        if (s.below(2)) { CHECK(BnMod(R, T, B) == 0, "mod failed"); } else { CHECK(BnDiv(Q, R, T, B) == 0, "div failed"); expectBn(Q, t / b, "chain quotient"); }
        x = t % b; expectBn(R, x, "chain remainder"); CHECK(BnSet(X, R) == 0, "set failed");
    }
    if (n > 1 && words(b) > 1) nontrivial();
}

// ---- C14 -----------------------------------------------------------------------
PROP(C14, word, 1, "*", "a signed integer (0..1024 bits, also near the word) and a signed or unsigned word with boundary bias; operation among add/sub/mul/div (signed, unsigned), mod, compare; non-trivial when the number is multi-word or crosses zero or the word is at a boundary") {
    Z a = genZ(s, s.below(4) ? 4 : 16); uint64_t w = s.word(WBITS);
    switch (s.below(6)) { case 0: if (words(a) == 1) w = a.low64() & (WBITS == 64 ? ~0ull : 0xffffffffull); break;
        case 1: if (s.below(2)) a = Z::u(w) + Z((long)s.below(5) - 2); else a = -(Z::u(w) + Z((long)s.below(5) - 2)); break;
        case 2: { Z q = genMag(s, 3); a = q * Z::u(w) + (s.below(2) ? Z(0) : Z::u(w) - Z(1)); if (s.below(4) == 0) a = -a; break; } // around multiples
        case 3: { if (s.below(2)) w = 2 + s.below(s.below(2) ? 16 : 65536); uint64_t m = s.below(2) ? w : (WBITS == 64 ? 0 - w : (uint32_t)(0 - w)); a = carryWords(s, m, 1 + s.below(5)); if (s.below(4) == 0) a = -a; break; } // products at the edge of a word
        default: break; }
    bn_int_t sw = (bn_int_t)w; Z zu = Z::u(w), zi = sw < 0 ? -Z::u(0ull - (uint64_t)(int64_t)sw) : Z::u((uint64_t)sw);
    int op = s.below(12);
    static const char *on[] = {"AddInt", "AddUInt", "SubInt", "SubUInt", "MulInt", "MulUInt", "DivInt", "DivUInt", "ModUInt", "CmpInt", "CmpUInt", "Set"};
    NOTE("%s a=%s w=0x%llx", on[op], zs(a), (unsigned long long)w);
    caseCpuLimit(10);
    Z mn = sw < 0 && (bn_uint_t)sw == (bn_uint_t)1 << (WBITS - 1) ? Z(1) : Z(0);
    N A(a, 1 + s.below(2)); int ret = 0; bn_uint_t rem = 77; Z want = a; Z wr;
    dirtyStack();
    switch (op) {
    case 0: ret = BnAddInt(A, sw); want = a + zi; break;
    case 1: ret = BnAddUInt(A, (bn_uint_t)w); want = a + zu; break;
    case 2: ret = BnSubInt(A, sw); want = a - zi; break;
    case 3: ret = BnSubUInt(A, (bn_uint_t)w); want = a - zu; break;
    case 4: ret = BnMulInt(A, sw); want = a * zi; break;
    case 5: ret = BnMulUInt(A, (bn_uint_t)w); want = a * zu; break;
    case 6: if (!sw) throw Discard(); ret = BnDivInt(A, sw, s.below(8) ? &rem : (rem = 0, (bn_uint_t *)NULL)); want = a / zi; wr = a.abs() % zi.abs(); break;
    case 7: if (!w) throw Discard(); ret = BnDivUInt(A, (bn_uint_t)w, s.below(8) ? &rem : (rem = 0, (bn_uint_t *)NULL)); want = a / zu; wr = a.abs() % zu; break;
    case 8: if (!w) throw Discard(); ret = BnModUInt(A, (bn_uint_t)w, &rem); wr = a.abs() % zu; break;
    case 9: { int c = BnCmpInt(A, sw), e = a.cmp(zi); CHECK((c > 0) - (c < 0) == e, "compare of %s with signed word 0x%llx gave %d", zs(a), (unsigned long long)w, c); break; }
    case 10: { int c = BnCmpUInt(A, (bn_uint_t)w), e = a.cmp(zu); CHECK((c > 0) - (c < 0) == e, "compare of %s with unsigned word 0x%llx gave %d", zs(a), (unsigned long long)w, c); break; }
    default: { int k = s.below(6); uint64_t v = s.word(64); Z e;
        switch (k) { case 0: BnSetInt(A, sw); e = zi; break; case 1: BnSetUInt(A, (bn_uint_t)w); e = zu; break; case 2: BnSetInt32(A, (int32_t)v); e = (int32_t)v < 0 ? -Z::u(0ull - (uint64_t)(int64_t)(int32_t)v) : Z::u((uint64_t)(int32_t)v); break;
        case 3: BnSetUInt32(A, (uint32_t)v); e = Z::u((uint32_t)v); break; case 4: BnSetInt64(A, (int64_t)v); e = (int64_t)v < 0 ? -Z::u(0ull - v) : Z::u(v); break; default: BnSetUInt64(A, v); e = Z::u(v); }
        NOTE("set kind %d v=0x%llx", k, (unsigned long long)v); expectBn(A, e, "assignment from a word"); nontrivial(); cls(on[op]); return; }
    }
    CHECK(ret == RA_ERR_SUCCESS, "%s on %s with word 0x%llx returned %d", on[op], zs(a), (unsigned long long)w, ret);
    expectBn(A, want, on[op]);
    if (op >= 6 && op <= 8 && rem != 0) CHECK(Z::u(rem) == wr, "%s of %s by 0x%llx: remainder 0x%llx, expected %s", on[op], zs(a), (unsigned long long)w, (unsigned long long)rem, zs(wr));
    if (op >= 6 && op <= 8 && rem == 0 && !wr.zero()) { bn_uint_t r2 = 5; N A2(a, 1); BnModUInt(A2, op == 6 ? (bn_uint_t)(sw < 0 ? -(bn_uint_t)sw : (bn_uint_t)sw) : (bn_uint_t)w, &r2); CHECK(Z::u(r2) == wr, "remainder 0x%llx expected %s", (unsigned long long)r2, zs(wr)); }
    if (words(a) > 1 || want.neg() != a.neg() || w > (~0ull >> (64 - WBITS)) - 8) nontrivial();
    cls(on[op]); if (want.zero()) cls("result zero"); if (want.neg() != a.neg()) cls("sign change");
}
PROP(C14, divzero, 1, "asannd,ndebug", "word division by zero must return an error and not modify the number") {
    Z a = genZ(s, 4); N A(a, 1); bn_uint_t rem = 5; int k = s.below(3); NOTE("k=%d a=%s", k, zs(a));
    int ret = k == 0 ? BnDivInt(A, 0, &rem) : k == 1 ? BnDivUInt(A, 0, &rem) : BnModUInt(A, 0, &rem);
    CHECK(ret != RA_ERR_SUCCESS, "division by a zero word reported success"); same(A, a, "division by zero"); nontrivial();
}
PROP(C13, divzero, 1, "asannd,ndebug", "division by zero must return an error and leave operands intact") {
    Z a = genZ(s, 6); N A(a, 1), B(Z(0), s.below(2)); W Q(12), R(12); int k = s.below(2); NOTE("k=%d a=%s", k, zs(a));
    int ret = k ? BnDiv(Q, R, A, B) : BnMod(R, A, B);
    CHECK(ret != RA_ERR_SUCCESS, "division by zero reported success"); same(A, a, "division by zero"); same(B, Z(0), "division by zero"); nontrivial();
}

// ---- C15 -----------------------------------------------------------------------
PROP(C15, shift, 1, "*", "a signed integer and a shift count 0..3000, or up to 2^32-1, concentrated at word multiples and at the number's own length, destinations ample or exactly large enough; non-trivial when value and count are non-zero") {
    Z a = genZ(s, s.below(4) ? 5 : 24); uint32_t n;
    switch (s.below(8)) { case 0: n = s.below(70); break; case 1: n = 32 * s.below(12); break; case 2: { int64_t v = (int64_t)a.bits() + (int64_t)s.below(5) - 2; n = v < 0 ? 0 : v; break; } case 3: n = 64 * s.below(10) + s.below(3); break; case 4: n = s.below(s.below(32) ? 3000 : 30000); break; case 6: { uint32_t base[] = {0x7fffffffu, 0x80000000u, 0xffffffffu, 0x40000000u, 0x10000u, 1u << 24}; n = base[s.below(6)] - s.below(3) * (uint32_t)s.below(200); break; } default: n = s.below(300); }
    bool left = s.below(2); if (n > 30000) { cls("huge count"); if (!a.zero()) left = false; } Z want = left ? a.zero() ? a : a.shl(n) : n > 0x7fffffffu ? Z(0) : a.shr(n);
    NOTE("%s a=%s by %u", left ? "left" : "right", zs(a), n);
    int slack = left ? words(want) - words(a) + (s.below(2) ? 0 : (int)s.below(4)) : (int)s.below(2);
    N A(a, slack < 0 ? 0 : slack);
    for (int i = A.p->length; i < A.p->max_length; i++) A.p->data[i] = (bn_uint_t)0xa7a7a7a7a7a7a7a7ull;
    dirtyStack();
    int ret = left ? BnShiftL(A, n) : BnShiftR(A, n);
    CHECK(ret == RA_ERR_SUCCESS, "shift of %s by %u returned %d", zs(a), n, ret);
    expectBn(A, want, left ? "left shift" : "right shift");
    int bl = BnGetBitLength(A), eb = want.zero() ? 1 : want.bits(); CHECK(bl == eb || (want.zero() && bl == 0), "bit length of %s reported as %d", zs(want), bl);
    CHECK(BnGetLength(A) == words(want), "length of %s reported as %d words", zs(want), BnGetLength(A));
    if (!a.zero() && n) nontrivial();
    cls(left ? "left" : "right"); if (n % WBITS == 0) cls("multiple of the word"); if (want.zero()) cls("result zero"); if (left && slack == words(want) - words(a)) cls("exact destination");
}

// ---- C16 -----------------------------------------------------------------------
PROP(C16, machine, 1, "*", "random program of 4..40 operations (assign, add, sub, double, mul, sqr, div, mod, word ops, shifts, import, clone, set, negate, compare) over 5 variables with self-aliasing, every variable checked after every step; non-trivial when at least 5 value-changing steps ran and the program contains a sign change or zero crossing") {
    const int NV = 5, CAP = 48; struct RaBigNumber *v[NV]; Z m[NV]; LeakCheck lc;
    for (int i = 0; i < NV; i++) { v[i] = N::mk(CAP); CHECK(BnGetMaxLength(v[i]) >= CAP, "capacity too small"); expectBn(v[i], Z(0), "new number"); }
    const int LIM = (CAP - 2) * WBITS; int steps = 4 + s.below(37), changed = 0; bool cross = false;
    auto wd = [&](Z &z) { uint64_t x = s.word(WBITS); z = Z::u(x); return (bn_uint_t)x; };
    for (int k = 0; k < steps; k++) {
        int op = s.below(27), i = s.below(NV), j = s.below(NV), t = s.below(NV); Z z; int ret = 0; Z old = m[t]; const char *what = "";
        switch (op) {
        case 0: z = genZ(s, 6); { Bytes b = z.bytes(); if (b.empty()) b.push_back(0); ret = BnSetUByteArray(v[t], b.data(), b.size()); m[t] = z.abs(); if (z.neg()) { _BnInvert(v[t]); m[t] = z; } what = "import"; } break;
        case 1: { Bytes b = s.bytes(1 + s.below(40)); ret = BnSetByteArray(v[t], b.data(), b.size()); z = Z::be(b); if (b[0] & 0x80) z = z - Z(1).shl(8 * b.size()); m[t] = z; what = "signed import"; break; }
        case 2: case 3: case 4: if (std::max(m[i].bits(), m[j].bits()) + 1 > LIM) continue; ret = BnAdd(v[t], v[i], v[j]); m[t] = m[i] + m[j]; what = "add"; break;
        case 5: case 6: case 7: if (std::max(m[i].bits(), m[j].bits()) + 1 > LIM) continue; ret = BnSub(v[t], v[i], v[j]); m[t] = m[i] - m[j]; what = "sub"; break;
        case 8: if (m[i].bits() + 1 > LIM) continue; ret = BnDouble(v[t], v[i]); m[t] = m[i].shl(1); what = "double"; break;
        case 9: if (t == i || t == j || m[i].bits() + m[j].bits() > LIM) continue; ret = BnMul(v[t], v[i], v[j]); m[t] = m[i] * m[j]; what = "mul"; break;
        case 10: if (t == i || 2 * m[i].bits() > LIM) continue; ret = BnSqr(v[t], v[i]); m[t] = m[i] * m[i]; what = "sqr"; break;
        case 11: { int r = s.below(NV); if (t == i || t == j || r == t || r == i || r == j || m[j].zero()) continue; caseCpuLimit(20); ret = BnDiv(v[t], v[r], v[i], v[j]); Z q = val(v[t]), rr = val(v[r]); CHECK(q * m[j] + rr == m[i] && rr.abs() < m[j].abs() && (rr.zero() || rr.neg() == m[j].neg()), "step %d: div of %s by %s gave %s rem %s", k, zs(m[i]), zs(m[j]), zs(q), zs(rr)); m[t] = q; m[r] = rr; what = "div"; break; }
        case 12: { if (t == i || t == j || m[j].zero()) continue; ret = BnMod(v[t], v[i], v[j]); Z rr = val(v[t]); CHECK((m[i] - rr).mod(m[j].abs()).zero() && rr.abs() < m[j].abs(), "step %d: %s mod %s gave %s", k, zs(m[i]), zs(m[j]), zs(rr)); m[t] = rr; what = "mod"; break; }
        case 13: { bn_uint_t w = wd(z); if (m[t].bits() > LIM) continue; if (s.below(2)) { ret = BnAddUInt(v[t], w); m[t] = m[t] + z; } else { ret = BnSubUInt(v[t], w); m[t] = m[t] - z; } what = "word add/sub"; break; }
        case 14: { bn_int_t w = (bn_int_t)wd(z); Z zi = w < 0 ? z - Z(1).shl(WBITS) : z; if (m[t].bits() > LIM) continue; if (s.below(2)) { ret = BnAddInt(v[t], w); m[t] = m[t] + zi; } else { ret = BnSubInt(v[t], w); m[t] = m[t] - zi; } what = "signed word add/sub"; break; }
        case 15: { bn_uint_t w = wd(z); if (m[t].bits() + WBITS > LIM) continue; ret = BnMulUInt(v[t], w); m[t] = m[t] * z; what = "word mul"; break; }
        case 16: { bn_int_t w = (bn_int_t)wd(z); Z zi = w < 0 ? z - Z(1).shl(WBITS) : z; if (m[t].bits() + WBITS > LIM) continue; ret = BnMulInt(v[t], w); m[t] = m[t] * zi; what = "signed word mul"; break; }
        case 17: { bn_uint_t w = wd(z), r; if (!w) continue; ret = BnDivUInt(v[t], w, &r); CHECK(Z::u(r) == m[t].abs() % z, "step %d: word division remainder", k); m[t] = m[t] / z; what = "word div"; break; }
        case 18: { uint32_t n = s.below(2) ? s.below(200) : 64 * s.below(5); if (m[t].bits() + (int)n > LIM) continue; ret = BnShiftL(v[t], n); m[t] = m[t].shl(n); what = "shift left"; break; }
        case 19: { uint32_t n = s.below(2) ? s.below(200) : 64 * s.below(5); ret = BnShiftR(v[t], n); m[t] = m[t].shr(n); what = "shift right"; break; }
        case 20: ret = BnSet(v[t], v[i]); m[t] = m[i]; what = "set"; break;
        case 21: if (!m[t].zero()) { _BnInvert(v[t]); m[t] = -m[t]; } what = "negate"; break;
        case 22: { struct RaBigNumber *c = BnClone(v[i]); CHECK(c, "clone failed"); expectBn(c, m[i], "clone"); BnFree(v[t]); v[t] = c; m[t] = m[i]; what = "clone"; break; }
        case 23: { if (t == i || t == j || m[i].zero() || m[j].zero()) continue; caseCpuLimit(20); ret = GetGCD(v[t], v[i], v[j]); z = m[i].gcd(m[j]); CHECK(val(v[t]).abs() == z.abs(), "step %d: gcd of %s and %s gave %s", k, zs(m[i]), zs(m[j]), zs(val(v[t]))); m[t] = val(v[t]); what = "gcd"; break; }
        case 24: { uint8_t b[CAP * 8 + 2]; int n = BnToByteArray(v[i], b, sizeof b); CHECK(n > 0 && n <= (int)sizeof b, "step %d: export returned %d", k, n); ret = BnSetByteArray(v[t], b, n); m[t] = m[i]; what = "export and import"; break; }
        default: { int kind = s.below(6); uint64_t x = s.word(64); bn_int_t w = (bn_int_t)x; int64_t sx = kind == 0 ? (int64_t)w : kind == 1 ? (int32_t)x : (int64_t)x; uint64_t ux = kind == 3 ? (uint64_t)(bn_uint_t)x : kind == 4 ? (uint32_t)x : x; what = "assign word";
            switch (kind) { case 0: BnSetInt(v[t], w); break; case 1: BnSetInt32(v[t], (int32_t)x); break; case 2: BnSetInt64(v[t], (int64_t)x); break; case 3: BnSetUInt(v[t], (bn_uint_t)x); break; case 4: BnSetUInt32(v[t], (uint32_t)x); break; default: BnSetUInt64(v[t], x); }
            m[t] = kind > 2 ? Z::u(ux) : sx < 0 ? -Z::u(0ull - (uint64_t)sx) : Z::u(sx); break; }
        }
        NOTE("v%d=%s(v%d,v%d)->%s", t, what, i, j, zs(m[t]));
        CHECK(ret == RA_ERR_SUCCESS, "step %d (%s) returned %d", k, what, ret);
        if (m[t] != old) changed++; if (m[t].zero() || m[t].neg() != old.neg()) cross = true;
        for (int q = 0; q < NV; q++) { char b[64]; snprintf(b, 64, "step %d (%s) variable %d", k, what, q); expectBn(v[q], m[q], b); }
        int x = s.below(NV), y = s.below(NV), c = BnCmp(v[x], v[y]); CHECK((c > 0) - (c < 0) == m[x].cmp(m[y]), "step %d: comparing %s with %s gave %d", k, zs(m[x]), zs(m[y]), c);
        if (s.below(4) == 0) { bn_int_t w = (bn_int_t)wd(z); Z zi = w < 0 ? z - Z(1).shl(WBITS) : z; c = BnCmpInt(v[x], w); CHECK((c > 0) - (c < 0) == m[x].cmp(zi), "step %d: comparing %s with word %s gave %d", k, zs(m[x]), zs(zi), c); c = BnCmpUInt(v[x], (bn_uint_t)w); CHECK((c > 0) - (c < 0) == m[x].cmp(z), "step %d: comparing %s with word %s gave %d", k, zs(m[x]), zs(z), c); }
        cls(what);
    }
    for (int i = 0; i < NV; i++) { if (i & 1) BnClearFree(v[i]); else BnFree(v[i]); }
    lc.done("program");
    if (changed >= 5 && cross) nontrivial();
}
PROP(C16, order, 1, "*", "triples of related integers: comparison is the true order, antisymmetric, transitive, and equal integers reached by different routes compare equal; non-trivial when the integers are multi-word or two of them are equal") {
    Z a = genZ(s, 8), b = genNear(s, a, 8), c = genNear(s, b, 8); NOTE("%s %s %s", zs(a), zs(b), zs(c));
    N A(a, s.below(3)), B(b, s.below(3)), C(c, s.below(3)); struct RaBigNumber *p[3] = {A, B, C}; Z *z[3] = {&a, &b, &c};
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { int r = BnCmp(p[i], p[j]); CHECK((r > 0) - (r < 0) == z[i]->cmp(*z[j]), "comparing %s with %s gave %d", zs(*z[i]), zs(*z[j]), r); }
    // the same integer by another route: (a + b) - b
    W T(std::max(words(a), words(b)) + 1), U(std::max(words(a), words(b)) + 2); CHECK(BnAdd(T, A, B) == 0 && BnSub(U, T, B) == 0, "add/sub failed");
    CHECK(BnCmp(U, A) == 0 && BnCmp(A, U) == 0, "(a+b)-b does not compare equal to a for a=%s b=%s", zs(a), zs(b));
    if (words(a) > 1 || a == b) nontrivial();
}

// ---- C17 -----------------------------------------------------------------------
static Bytes twos(const Z &z) { // minimal two's complement
    if (z.zero()) return Bytes(1, 0);
    if (!z.neg()) { Bytes b = z.bytes(); if (b[0] & 0x80) b.insert(b.begin(), 0); return b; }
    int n = 1; while (z < -Z(1).shl(8 * n - 1)) n++;
    Bytes b = (z + Z(1).shl(8 * n)).bytes(); while ((int)b.size() < n) b.insert(b.begin(), 0); return b;
}
PROP(C17, import, 1, "*", "byte strings of 1..150 bytes with structured content and redundant 00/ff prefixes (rarely to 70 kB), signed and unsigned import into destinations from exactly large enough up; non-trivial when longer than one word or with a redundant prefix") {
    Bytes b = s.bytes(s.below(4) ? 1 + s.below(24) : 1 + s.below(150)); int pre = s.below(3) ? 0 : s.below(50) ? 1 + s.below(20) : s.below(50) ? s.below(600) : s.below(70000); if (pre) b.insert(b.begin(), pre, s.below(2) ? 0xff : 0);
    bool sg = s.below(2); Z z = Z::be(b); if (sg && (b[0] & 0x80)) z = z - Z(1).shl(8 * b.size());
    NOTE("%s import %s", sg ? "signed" : "unsigned", hex(b, 200).c_str());
    W A(words(z) + (int)s.below(2)); A.p->sign = s.below(2); Guard in(b, s.below(8));
    // the magnitude of the most negative value may need one more bit than the encoding has words
    dirtyStack();
    int ret = sg ? BnSetByteArray(A, in.p, b.size()) : BnSetUByteArray(A, in.p, b.size());
    CHECK(ret == RA_ERR_SUCCESS, "import of %s returned %d", hex(b, 200).c_str(), ret);
    expectBn(A, z, "imported number"); CHECK(in.get(b.size()) == b, "import changed its input"); in.check("import");
    if (b.size() > (size_t)WB || pre) nontrivial(); cls(sg ? (z.neg() ? "signed negative" : "signed") : "unsigned"); if (pre) cls("redundant prefix");
    CHECK(BnSetByteArray(A, in.p, 0) != RA_ERR_SUCCESS && BnSetUByteArray(A, in.p, 0) != RA_ERR_SUCCESS, "import of zero bytes reported success");
}
PROP(C17, export, 1, "*", "signed integers exported with buffer sizes from zero to beyond the encoding (rarely far beyond, to 70 kB), minimal and fixed-length forms and the size query; non-trivial when the integer is multi-byte") {
    Z a = genZ(s, s.below(4) ? 3 : 20); bool fixed = s.below(2); Bytes want = twos(a); if (fixed) { if (a.neg()) a = -a; want = a.zero() ? Bytes(1, 0) : a.bytes(); }
    NOTE("%s export %s", fixed ? "fixed" : "minimal", zs(a));
    N A(a, s.below(2)); int need = want.size(); int q = fixed ? BnToFixedByteArray(A, NULL, 0) : BnToByteArray(A, NULL, 0); LeakCheck lc;
    CHECK(q == need, "size query for %s answered %d, encoding has %d bytes", zs(a), q, need);
    int bl; switch (s.below(5)) { case 0: bl = need; break; case 1: bl = need + (s.below(20) ? s.below(20) : s.below(50) ? s.below(600) : s.below(70000)); break; case 2: bl = s.below(need + 1); break; case 3: bl = need - 1; break; default: bl = 0; }
    Guard g(bl); dirtyStack();
    int ret = fixed ? BnToFixedByteArray(A, g.p, bl) : BnToByteArray(A, g.p, bl);
    g.check("export");
    if (bl < need) { CHECK(ret == 0, "export of %d bytes into a %d byte buffer returned %d", need, bl, ret); cls("buffer too small"); }
    else {
        CHECK(ret == (fixed ? bl : need), "export returned %d for %s in a buffer of %d", ret, zs(a), bl);
        Bytes e = want; if (fixed) e.insert(e.begin(), bl - need, 0);
        CHECK(g.get(e.size()) == e, "export of %s gave %s, expected %s", zs(a), hex(g.p, e.size(), 200).c_str(), hex(e, 200).c_str());
        CHECK(g.untouchedFrom(e.size()), "export wrote beyond the %zu bytes it returned", e.size());
        W B(words(a) + 1); CHECK((fixed ? BnSetUByteArray(B, g.p, bl) : BnSetByteArray(B, g.p, need)) == 0, "re-import failed"); expectBn(B, a, "re-imported number"); cls("fits");
    }
    same(A, a, "export"); lc.done("export");
    if (fixed && s.below(4) == 0 && !a.zero()) { N M(-a); Guard h(need + 8); CHECK(BnToFixedByteArray(M, h.p, need + 8) == 0, "fixed export of a negative number did not fail"); h.check("fixed export"); }
    if (need > 1) nontrivial();
}
