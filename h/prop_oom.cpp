// C31 running out of memory; C32 destinations without room
#include "scn.h"
extern "C" void entropySeed(uint64_t);

static int runFailing(Scn &x, long from, long to, std::string &res, const char *how) {
    g_alloc_calls = 0; g_failed = 0; g_fail_from = from; g_fail_to = to; std::string r; int rc = x.run(r); g_fail_from = g_fail_to = -1; res = r; return rc;
}
PROP(C31, allocation_failures, 1, "*", "the operation allocates and at least one allocation was made to fail") {
    int kind = s.below(NSCN); auto x = genScn(s, kind, thorough() ? 12 : 5); uint64_t pickSeed = s.raw(2); cls(x->name.c_str()); caseCpuLimit(thorough() ? 200 : 60);
    LeakCheck lk; x->setup(); long before = g_live_allocs; std::string in = x->inputs(), want, got;
    g_alloc_calls = 0; int rc0 = x->run(want), rc; long n = g_alloc_calls; if (rc0) { cls("undisturbed run fails"); CHECK(rc0 != RA_ERR_OUT_OF_MEMORY, "%s reports lack of memory although it is available", x->name.c_str()); } CHECK(g_live_allocs == before, "%s: %ld allocation(s) not released", x->name.c_str(), g_live_allocs - before);
    NOTE("%s makes %ld allocations", x->name.c_str(), n); if (n) nontrivial(); cls(n == 0 ? "no allocation" : n < 10 ? "1-9 allocations" : n < 100 ? "10-99 allocations" : "100+ allocations");
    Rng pk(pickSeed); long full = thorough() ? 400 : 48; std::vector<long> idx; if (n <= full) for (long i = 0; i < n; i++) idx.push_back(i); else { for (long i = 0; i < full; i++) idx.push_back(i < full / 3 ? i : i < 2 * full / 3 ? (long)(pk.next() % n) : n - 1 - (i - 2 * full / 3)); }
    for (long i : idx) for (int persist = 0; persist < 2; persist++) {
        const char *how = persist ? "all allocations from" : "allocation"; rc = runFailing(*x, i, persist ? 0x7fffffff : i, got, how);
        if (!g_failed) continue;
        if (rc == 0) CHECK(rc0 == 0 && got == want, "%s: %s number %ld of %ld failed, yet it reports success with the result %s instead of %s", x->name.c_str(), how, i, n, got.substr(0, 300).c_str(), want.substr(0, 300).c_str());
        else cls("reported");
        CHECK(x->inputs() == in, "%s: an input was changed when %s number %ld failed: %s, was %s", x->name.c_str(), how, i, x->inputs().c_str(), in.c_str());
        CHECK(g_live_allocs == before, "%s: %ld allocation(s) leaked when %s number %ld of %ld failed", x->name.c_str(), g_live_allocs - before, how, i, n);
        got.clear(); rc = x->run(got); CHECK(rc == rc0 && got == want, "%s: repeated with memory available after %s number %ld had failed it returns %d, %s instead of %s", x->name.c_str(), how, i, rc, got.substr(0, 300).c_str(), want.substr(0, 300).c_str());
        CHECK(g_live_allocs == before, "%s: %ld allocation(s) not released by the repetition", x->name.c_str(), g_live_allocs - before);
    }
    // objects in the state a failure left behind can be destroyed
    if (n) { long i = idx[pickSeed % idx.size()]; rc = runFailing(*x, i, 0x7fffffff, got, "all allocations from"); }
    x->drop(); lk.done("destroying the objects of a failed operation");
}

// ---- C32 -----------------------------------------------------------------------
// destinations of 2.. words; the number of words that are really there is what BnGetMaxLength-style fields say
static int cap(Src &s, int need) { int c; switch (s.below(6)) { case 0: c = need; break; case 1: c = need - 1; break; case 2: c = need - 2; break; case 3: c = 1 + s.below(need + 2); break; case 4: c = need - 1 - (int)s.below(3); break; default: c = 2; } if (c < 2) c = 2; return c; }
static void reuse(struct RaBigNumber *p, const char *what) {
    CHECK(p->length >= 1 && p->length <= p->max_length, "%s: word count %d outside 1..%d after the error", what, p->length, p->max_length); CHECK(p->sign == 0 || p->sign == 1, "%s: sign flag %d after the error", what, p->sign);
    int top = p->max_length; BnSetInt(p, -7); expectBn(p, Z(-7), "assignment after an error"); CHECK(BnAddUInt(p, 9) == 0, "addition after an error failed"); expectBn(p, Z(2), "addition after an error");
    CHECK(BnShiftL(p, (top - 1) * WBITS) == 0, "shift into the full size of the destination failed after an error"); expectBn(p, Z(2).shl((top - 1) * WBITS), "shift after an error");
}
PROP(C32, arithmetic, 4, "*", "the result does not fit the destination") {
    int op = s.below(20); const char *nm[] = {"BnAdd", "BnSub", "BnDouble", "BnMul", "BnSqr", "BnMod", "BnDiv", "BnSet", "BnShiftL", "BnAddInt", "BnAddUInt", "BnSubInt", "BnSubUInt", "BnMulInt", "BnMulUInt", "BnSetByteArray", "BnSetUByteArray", "BnAdd in place", "BnSub in place", "BnDouble in place"};
    Z a = genZ(s, 12), b = genNear(s, a, 12); if (s.below(3) == 0) { int k = WBITS * (1 + s.below(8)); a = Z(1).shl(k) - Z(1 + (long)s.below(2)); if (s.below(2)) b = Z((long)s.below(4)); if (s.below(2)) b = a; if (s.below(3) == 0) { a = -a; b = -b; } }
    if ((op == 5 || op == 6) && b.zero()) b = Z(1); Z want; uint64_t w = s.word(WBITS); long sw = (long)(WBITS == 64 ? (int64_t)w : (int32_t)w); unsigned sh = 0; Bytes by;
    bool inplace = op >= 8 && op <= 14; LeakCheck lk; int rc = 0;
    switch (op) { case 0: case 17: want = a + b; break; case 1: case 18: want = a - b; break; case 2: case 19: want = a + a; break; case 3: want = a * b; break; case 4: want = a * a; break; case 5: want = a % b; break; case 6: want = a / b; break; case 7: want = a; break;
        case 8: sh = s.below(6) == 0 ? 0xffffffffu - s.below(2000) : s.below(4) == 0 ? s.below(100000) : s.below(400); if (sh < 200000) want = a.shl(sh); break; case 9: want = a + Z(sw); break; case 10: want = a + Z::u(w); break; case 11: want = a - Z(sw); break; case 12: want = a - Z::u(w); break; case 13: want = a * Z(sw); break; case 14: want = a * Z::u(w); break;
        case 15: by = s.bytes(s.below(100)); want = Z::be(by); if (!by.empty() && (by[0] & 0x80)) want = want - Z(1).shl(8 * by.size()); break; default: by = s.bytes(s.below(100)); want = Z::be(by); }
    bool huge = op == 8 && sh >= 200000; if (huge && a.zero()) { huge = false; want = Z(0); }
    int need = huge ? words(a) + 2 : words(want); int c = cap(s, need);
    if (inplace || op >= 17) { if (c < words(a)) c = words(a); if (c < 2) c = 2; }
    W r(c); c = r.p->max_length; r.set(s.below(2) ? Z(0) : Z(-3)); bool fits = !huge && need <= c;
    NOTE("%s a=%s b=%s word=%llx shift=%u bytes=%s capacity %d, needs %d", nm[op], zs(a), zs(b), (unsigned long long)w, sh, hex(by, 60).c_str(), c, need); cls(nm[op]); if (!fits) nontrivial();
    N la(a), lb(b); if (inplace || op >= 17) r.set(a); W r2(words(a) + words(b) + 2); bool aliasB = op >= 17 && op < 19 && s.below(2) && words(b) <= c; 
    switch (op) { case 0: rc = BnAdd(r, la, lb); break; case 1: rc = BnSub(r, la, lb); break; case 2: rc = BnDouble(r, la); break; case 3: rc = BnMul(r, la, lb); break; case 4: rc = BnSqr(r, la); break; case 5: rc = BnMod(r, la, lb); break;
        case 6: { int who = s.below(3); if (who == 0) { rc = BnDiv(r, r2, la, lb); } else { // the remainder is short of room
                int nr = words(a % b), cr = cap(s, nr); W rr(cr); W q(words(a) + 1); rc = BnDiv(q, rr, la, lb); Z rem; if (rc == 0) { rem = val(rr); Z qq = val(q); CHECK(qq * b + rem == a && rem.abs() < b.abs(), "BnDiv with a short remainder: quotient %s remainder %s", zs(qq), zs(rem)); } else { CHECK(rr.p->max_length < words(b) , "BnDiv reports %d although the remainder object has room for the divisor", rc); reuse(rr, "BnDiv remainder"); } reuse(q, "BnDiv quotient"); same(la, a, "dividend"); same(lb, b, "divisor"); return; } break; }
        case 7: rc = BnSet(r, la); break; case 8: rc = BnShiftL(r, sh); break; case 9: rc = BnAddInt(r, (bn_int_t)sw); break; case 10: rc = BnAddUInt(r, (bn_uint_t)w); break; case 11: rc = BnSubInt(r, (bn_int_t)sw); break; case 12: rc = BnSubUInt(r, (bn_uint_t)w); break; case 13: rc = BnMulInt(r, (bn_int_t)sw); break; case 14: rc = BnMulUInt(r, (bn_uint_t)w); break; case 15: rc = BnSetByteArray(r, by.data(), by.size()); break; case 16: rc = BnSetUByteArray(r, by.data(), by.size()); break;
        case 17: if (aliasB) { r.set(b); rc = BnAdd(r, la, r); } else rc = BnAdd(r, r, lb); break; case 18: if (aliasB) { r.set(b); rc = BnSub(r, la, r); } else rc = BnSub(r, r, lb); break; case 19: rc = BnDouble(r, r); break; }
    CHECK(r.p->max_length == c, "%s changed the capacity of its destination", nm[op]); CHECK(fits || rc != 0, "%s: the result needs %d words, the destination has %d, yet success is reported (value %s)", nm[op], need, c, zs(val(r)));
    if (rc == 0 && op != 6) { if (op == 5) { Z v = val(r); CHECK(v.abs() < b.abs() && ((a - v) % b).zero(), "%s: wrong remainder %s", nm[op], zs(v)); } else expectBn(r, want, nm[op]); } else if (rc == 0) CHECK(val(r) * b + val(r2) == a, "BnDiv: wrong quotient");
    else cls("refused"); if (rc != 0 && fits) cls("refused though it fits");
    if (rc == 0 && fits) cls("done"); reuse(r, nm[op]); same(la, a, "operand"); same(lb, b, "operand"); BnFree(la.p); BnFree(lb.p); la.p = lb.p = NULL; BnFree(r.p); r.p = NULL;
}
PROP(C32, number_theory, 2, "*", "a result does not fit its destination") {
    int op = s.below(7); const char *nm[] = {"GetGCD", "GetGCDEx", "RaMontExpMod", "BnGenRandom", "BnGetRandomRSA", "RaGenPrimeNumber", "RSA"}; LeakCheck lk; cls(nm[op]); entropySeed(s.raw(2)); caseCpuLimit(30); bool small = false; int rc;
    if (op < 2) {
        Z g = genMag(s, 5) + Z(1), a = g * (genMag(s, 5) + Z(1)), b = g * (genMag(s, 5) + Z(1)); Z gg = a.gcd(b); N la(a), lb(b);
        if (op == 0) { W r(cap(s, words(gg))); r.set(Z(9)); small = words(gg) > r.p->max_length; NOTE("GetGCD %s %s capacity %d", zs(a), zs(b), r.p->max_length); rc = GetGCD(r, la, lb); if (rc == 0) expectBn(r, gg, "GetGCD"); else { CHECK(small, "GetGCD refuses (%d) although the result fits", rc); } CHECK(!small || rc, "GetGCD: no error"); reuse(r, "GetGCD"); }
        else { int w = std::max(words(a), words(b)) + 1; int us = s.below(2); W r(cap(s, words(gg))), x(s.below(2) ? w : cap(s, w)), y(s.below(2) ? w : cap(s, w)); NOTE("GetGCDEx %s %s capacities %d %d %d unsigned %d", zs(a), zs(b), r.p->max_length, x.p->max_length, y.p->max_length, us); rc = GetGCDEx(r, x, y, la, lb, us);
            if (rc == 0) { expectBn(r, gg, "GetGCDEx"); Z u = val(x), v = val(y); Z t = u * a + v * b; if (!us) CHECK(t == gg, "GetGCDEx coefficients %s %s", zs(u), zs(v)); else CHECK((u * a - gg).mod(b).zero() && (v * b - gg).mod(a).zero(), "GetGCDEx unsigned coefficients %s %s", zs(u), zs(v)); } else small = true;
            reuse(r, "GetGCDEx"); reuse(x, "GetGCDEx"); reuse(y, "GetGCDEx"); }
        same(la, a, "operand"); same(lb, b, "operand");
    } else if (op == 2) {
        Z n = genMag(s, 8); if (!n.odd()) n = n + Z(1); if (n == Z(1)) n = Z(3); Z a = genMag(s, 8) % n, e = genMag(s, 2), want = a.powm(e, n); N ln(n), la(a), le(e); W r(cap(s, words(want))); r.set(Z(9)); RaMontCtx *c = NULL; CHECK(RaMontCreate(ln, &c) == 0, "RaMontCreate"); NOTE("ExpMod modulus %s base %s exponent %s capacity %d", zs(n), zs(a), zs(e), r.p->max_length);
        rc = RaMontExpMod(c, r, la, le); small = words(want) > r.p->max_length; if (rc == 0) expectBn(r, want, "RaMontExpMod"); CHECK(!small || rc, "RaMontExpMod: no error"); reuse(r, "RaMontExpMod"); same(la, a, "base"); same(le, e, "exponent");
        W ok(words(n)); CHECK(RaMontExpMod(c, ok, la, le) == 0, "RaMontExpMod after an error"); expectBn(ok, want, "RaMontExpMod after an error"); RaMontDestroy(c);
    } else if (op < 6) {
        int bits = op == 5 ? 16 + s.below(300) : 1 + s.below(900), need = (bits + WBITS - 1) / WBITS; W r(cap(s, need)); r.set(Z(-9)); small = need > r.p->max_length; NOTE("%s %d bits capacity %d", nm[op], bits, r.p->max_length); rc = op == 3 ? BnGenRandom(r, bits, NULL) : op == 4 ? (s.below(2) ? BnGetRandomRSA(r, bits, NULL) : BnGetRandomOdd(r, bits, NULL)) : RaGenPrimeNumber(r, bits);
        if (!small) CHECK(rc == 0, "%s refuses (%d) although the result fits", nm[op], rc); if (rc == 0) CHECK(!small && val(r).bits() <= bits, "%s: %s for %d bits", nm[op], zs(val(r)), bits); reuse(r, nm[op]);
    } else {
        RsaKey k = scnKey(s, 20 + s.below(150)); Bytes d = derPkcs8(k); struct RaRsaKeyPair *key = NULL; CHECK(RaRsaCreateKeyFromByteArray(d.data(), d.size(), &key) == 0, "import"); Z m = Z::be(s.rnd(k.n.bytes().size())) % k.n; int o = s.below(3); Z want = o == 0 ? m.powm(k.e, k.n) : m.powm(k.d, k.n); N lm(m); W r(cap(s, words(want))); small = words(want) > r.p->max_length; NOTE("RSA operation %d modulus %s message %s capacity %d", o, zs(k.n), zs(m), r.p->max_length);
        rc = o == 0 ? RaRsaEncrypt(key, lm, r) : o == 1 ? RaRsaDecrypt(key, lm, r) : RaRsaSign(key, lm, r); if (rc == 0) expectBn(r, want, "RSA"); CHECK(!small || rc, "RSA: no error"); reuse(r, "RSA"); same(lm, m, "message"); W ok(words(k.n)); rc = o == 0 ? RaRsaEncrypt(key, lm, ok) : RaRsaDecrypt(key, lm, ok); CHECK(rc == 0, "RSA after an error"); expectBn(ok, want, "RSA after an error"); RaRsaDestroyKeyPair(key);
    }
    if (small) nontrivial();
}
