// C40 objects do not wear out: one object used very often, and very many objects alive at once
#include "scn.h"
#include <algorithm>
extern "C" void entropySeed(uint64_t);
namespace {
// how often: around the ends of 8, 12, 15 and 16 bit counters, or anything in between
int often(Src &s, int cap) {
    int n; switch (s.below(12)) { case 0: case 1: case 2: case 3: n = 250 + s.below(14); break; case 4: n = 1018 + s.below(14); break; case 5: n = 4090 + s.below(14); break; case 6: n = 32762 + s.below(14); break; case 7: n = 65530 + s.below(14); break; case 8: n = thorough() ? 131066 + s.below(14) : 510 + s.below(8); break; default: n = 200 + s.below(3000); }
    if (n > cap) n = 250 + n % (cap - 250 + 1);
    cls(n > 65536 ? "above 65536 uses" : n > 32768 ? "above 32768 uses" : n > 4096 ? "above 4096 uses" : n > 256 ? "above 256 uses" : "up to 256 uses"); if (n > 256) nontrivial(); caseCpuLimit(thorough() ? 400 : 120); return n;
}
const enum RaRandomAlgorithm GEN[] = {RA_RAND_MD5, RA_RAND_SHA160, RA_RAND_SHA256, RA_RAND_SHA512};
Z primeOf(Src &s, int bits) { Z top = Z(1).shl(bits - 1), p = top + Z::be(s.rnd((bits + 7) / 8)) % top; if (!p.odd()) p = p + Z(1); for (;; p = p + Z(2)) { if (p.bits() > bits) p = top + Z(1); if (p.prime()) return p; } }
RsaKey smallKey(Src &s, int bits) {
    RsaKey k; k.e = Z(s.below(2) ? 65537 : 17);
    for (;;) { k.p = primeOf(s, bits); k.q = primeOf(s, bits); if (k.p == k.q) continue; Z p1 = k.p - Z(1), q1 = k.q - Z(1), phi = p1 * q1; k.n = k.p * k.q; if (k.e >= k.n) k.e = Z(3); if (!k.e.inv(phi, k.d)) { k.e = k.e + Z(2); continue; } k.dp = k.d % p1; k.dq = k.d % q1; if (!k.q.inv(k.p, k.qi)) continue; k.priv = true; return k; }
}
// the memory runs out at the k-th allocation of a call
template <class F> void starved(int k, F f) { g_alloc_calls = 0; g_failed = 0; g_fail_from = k; g_fail_to = 0x7fffffff; f(); g_fail_from = g_fail_to = -1; }
Z below(Src &s, const Z &n) { return Z::be(s.rnd((n.bits() + 7) / 8)) % n; }
}
PROP(C40, digest, 3, "*", "more than 256 uses of one context") {
    int a = s.below(NALG), n = often(s, a == D_MD2 ? 70000 : 140000); bool alt = s.below(2) && (a == D_256 || a == D_512), heap = s.below(2); DU u; void *c = &u; LeakCheck lk; uint8_t o[64];
    if (heap) CHECK(dCreate(a, &c) == 0, "%s create", dname[a]); else { dirtyStack(); dInit(a, c, alt); } cls(dname[a]);
    if (s.below(2)) { // many pieces of one message
        int most = 1 + s.below(5), gap = 1 + s.below(n); Bytes pat = s.rnd(64), m; NOTE("%s fed in %d pieces of up to %d bytes%s", dname[a], n, most, heap ? " (heap)" : "");
        for (int i = 0; i < n; i++) { size_t k = (size_t)i % (most + 1), at = (size_t)i * 5 % 50; dUpdate(a, c, &pat[at], (int)k, alt); m.insert(m.end(), &pat[at], &pat[at] + k);
            if (!heap && (i + 1) % gap == 0) { DU t = u; dFinal(a, &t, o, alt); CHECK(Bytes(o, o + dlen[a]) == refDigest(a, m.data(), m.size()), "%s of %zu bytes is wrong after %d pieces", dname[a], m.size(), i + 1); if (gap < 2000) gap = n / 7 + 1; } }
        dFinal(a, c, o, alt); CHECK(Bytes(o, o + dlen[a]) == refDigest(a, m.data(), m.size()), "%s of %zu bytes fed in %d pieces is wrong", dname[a], m.size(), n);
    } else { // many messages one after the other
        Bytes m[4], w[4]; for (int j = 0; j < 4; j++) { m[j] = s.bytes(s.below(j == 3 ? 200 : 60)); w[j] = refDigest(a, m[j].data(), m[j].size()); } if (n > 33000) n = 65540; NOTE("%s of %d messages in one context", dname[a], n);
        for (int i = 0; i < n; i++) { int j = (i * 7 + i / 5) & 3; if (i) dInit(a, c, alt); size_t h = m[j].size() / 2; dUpdate(a, c, m[j].data(), (int)h, alt); dUpdate(a, c, m[j].data() + h, (int)(m[j].size() - h), alt); dFinal(a, c, o, alt); CHECK(!memcmp(o, w[j].data(), dlen[a]), "%s: message %d in the same context gives %s, expected %s", dname[a], i + 1, hex(o, dlen[a], 64).c_str(), hex(w[j], 64).c_str()); }
    }
    if (heap) dDestroy(a, c); lk.done("digest context");
}
PROP(C40, cipher, 4, "*", "more than 256 uses of one context") {
    int c = (int)s.below(NCIPH), B = cblk[c], mode = (int)s.below(4), n = often(s, thorough() ? 140000 : 70000); Bytes key = s.bytes(ckey[c] ? ckey[c] : 1 + s.below(56)), iv = s.bytes(B); bool dec = s.below(2); LeakCheck lk; cls(cname[c]); RefBlock r(c, key);
    { Lib L(c, key.data(), (int)key.size(), mode); L.setiv(iv.data()); bool reuse = s.below(2); NOTE("%s %s, %d %s", cname[c], mname[mode], n, reuse ? "messages in one context" : "pieces of one message");
      if (!reuse) { int most, step = 1; switch (s.below(3)) { case 0: most = 1 + s.below(4); break; case 1: most = 1 + s.below(3 * B); break; default: step = B; most = 1 + s.below(n > 9000 ? 4 : 40); } Bytes v = iv, m = s.rnd(2048), got(most * step + 2 * B), pend; size_t blocks = 0;
        for (int i = 0; i < n; i++) { size_t k = (size_t)i % (most + 1) * step, at = (size_t)i * 11 % 1400; pend.insert(pend.end(), &m[at], &m[at] + k); size_t full = pend.size() / B * B; Bytes w = refMode(r, mode, dec, v, pend.data(), full); pend.erase(pend.begin(), pend.begin() + full); blocks += full / B;
            int x = dec ? L.dec(&m[at], (int)k, got.data()) : L.enc(&m[at], (int)k, got.data()); CHECK(x == (int)full, "%s %s: call %d of %zu bytes returned %d, expected %zu", cname[c], mname[mode], i + 1, k, x, full); CHECK(!memcmp(got.data(), w.data(), full), "%s %s %s: the output of call %d (block %zu of the stream) is wrong", cname[c], mname[mode], dec ? "decryption" : "encryption", i + 1, blocks); }
        cls(blocks > 65536 ? "stream above 65536 blocks" : blocks > 4096 ? "stream above 4096 blocks" : "shorter stream"); }
      else { int pad = (int)s.below(3), init = (int)s.below(3); Bytes m[3], w[3], p[3]; for (int j = 0; j < 3; j++) { m[j] = s.bytes(s.below(3 * B)); p[j] = m[j]; size_t q = m[j].size() % B; if (pad == 0) p[j].resize(m[j].size() - q); else if (pad == 1) { if (q) p[j].resize(m[j].size() + B - q, 0); } else p[j].resize(m[j].size() + B - q, (uint8_t)(B - q)); Bytes v = iv; w[j] = refMode(r, mode, false, v, p[j].data(), p[j].size()); if (pad == 0) m[j] = p[j]; else if (pad == 1) m[j] = p[j]; }
        if (n > 70000) n = 70000; Bytes o(5 * B); for (int i = 0; i < n; i++) { int j = (i + i / 3) % 3; if (init == 1 && i % 5 == 4) L.init(c, key.data(), (int)key.size(), mode); L.setiv(iv.data());
            int x = L.encf(m[j].data(), (int)m[j].size(), o.data(), pad); CHECK(x == (int)w[j].size() && !memcmp(o.data(), w[j].data(), w[j].size()), "%s %s: message %d in one context is encrypted wrongly", cname[c], mname[mode], i + 1);
            L.setiv(iv.data()); x = L.decf(w[j].data(), (int)w[j].size(), o.data(), pad); CHECK(x == (int)m[j].size() && !memcmp(o.data(), m[j].data(), m[j].size()), "%s %s: message %d in one context is decrypted wrongly (%d bytes, expected %zu)", cname[c], mname[mode], i + 1, x, m[j].size()); } } }
    lk.done("cipher context");
}
PROP(C40, rc4, 1, "*", "more than 256 uses of one context") {
    int n = often(s, 140000); Bytes key = s.bytes(1 + s.below(40)); struct RaRc4Ctx *c; LeakCheck lk; CHECK(RaRc4Create(key.data(), (int)key.size(), &c) == 0, "RC4 create"); RC4_KEY rk; RC4_set_key(&rk, (int)key.size(), key.data()); bool again = s.below(2); NOTE("%d RC4 %s", n, again ? "messages in one context" : "pieces of one stream"); uint8_t d[8], o[8], w[8];
    for (int i = 0; i < n; i++) { if (again) { RaRc4Init(c, key.data(), (int)key.size()); RC4_set_key(&rk, (int)key.size(), key.data()); if (n > 20000) n = 20000; } int k = i % 6; for (int j = 0; j < 8; j++) d[j] = (uint8_t)(i * 31 + j); int x = i & 1 ? RaRc4Encrypt(c, d, k, o) : RaRc4Decrypt(c, d, k, o); RC4(&rk, k, d, w); CHECK(x == k && !memcmp(o, w, k), "RC4: call %d is wrong", i + 1); }
    RaRc4Destroy(c); lk.done("RC4 context");
}
PROP(C40, generator, 1, "*", "more than 256 draws") {
    int alg = (int)s.below(4), n = often(s, 140000), most = 1 + s.below(s.below(2) ? 8 : 150); if ((long)n * most > 1500000) most = 1 + most % 8; Bytes seed = s.bytes(1 + s.below(40)); struct RaRandom *a, *b; LeakCheck lk; NOTE("generator %d: %d draws of up to %d bytes", alg, n, most);
    CHECK(RaRandomCreate(GEN[alg], seed.data(), (int)seed.size(), &a) == 0 && RaRandomCreate(GEN[alg], seed.data(), (int)seed.size(), &b) == 0, "create"); Bytes x((size_t)n * most + 1), y; size_t at = 0;
    for (int i = 0; i < n; i++) { int k = i % (most + 1); RaRandomBytes(a, k, &x[at]); at += k; } y.resize(at + 1); RaRandomBytes(b, (int)at, y.data()); for (size_t i = 0; i < at; i++) CHECK(x[i] == y[i], "byte %zu of the stream differs when it is drawn in %d small requests", i, n);
    std::vector<std::string> bl; for (size_t i = 0; i + 16 <= at; i += 4) bl.emplace_back((char *)&y[i], 16); std::sort(bl.begin(), bl.end()); CHECK(std::adjacent_find(bl.begin(), bl.end()) == bl.end(), "16 bytes occur twice in %zu bytes of one stream", at);
    RaRandomDestroy(a); RaRandomDestroy(b); lk.done("generators");
}
PROP(C40, number, 1, "*", "more than 256 operations on the same numbers") {
    int n = often(s, thorough() ? 70000 : 33000); LeakCheck lk; NOTE("%d operations on two numbers", n);
    { W x(96 / WB), y(96 / WB), q(96 / WB), r(96 / WB); Z zx = Z(3), zy = genZ(s, 3); x.set(zx); y.set(zy);
      for (int i = 0; i < n; i++) { int rc = 0; const char *op; 
        switch (s.below(9)) { case 0: rc = BnAdd(x, x, y); zx = zx + zy; op = "BnAdd"; break; case 1: rc = BnSub(x, x, y); zx = zx - zy; op = "BnSub"; break; case 2: rc = BnMul(q, x, y); zx = zx * zy; if (!rc) rc = BnSet(x, q); op = "BnMul"; break; case 3: rc = BnMulUInt(x, 7); zx = zx * Z(7); op = "BnMulUInt"; break; case 4: rc = BnShiftL(x, i % 70); zx = zx.shl(i % 70); op = "BnShiftL"; break;
        case 5: rc = BnSqr(q, y); zx = zy * zy; if (!rc) rc = BnSet(x, q); op = "BnSqr"; break; case 6: rc = BnAddUInt(x, 12345); zx = zx + Z(12345); op = "BnAddUInt"; break; case 7: rc = BnSet(y, x); zy = zx; op = "BnSet"; if (zy.bits() > 180) { y.set(Z(i + 2)); zy = Z(i + 2); } break; default: rc = BnDouble(x, x); zx = zx.shl(1); op = "BnDouble"; }
        CHECK(rc == 0, "%s number %d returned %d", op, i + 1, rc); expectBn(x, zx, op); if (zx.bits() > 250) { Z d = Z(1).shl(100) + Z(i), m = zx.abs() % d; x.set(zx.abs()); N ld(d); rc = BnMod(r, x, ld); CHECK(rc == 0, "BnMod %d", rc); expectBn(r, m, "BnMod"); x.set(m); zx = m; } } }
    lk.done("numbers");
}
PROP(C40, modulus, 2, "*", "more than 256 uses of one context") {
    int n = often(s, thorough() ? 140000 : 70000), w = 1 + s.below(3); if (n > 5000) w = 1; Z mod = Z::be(s.rnd(w * WB)); if (!mod.odd()) mod = mod + Z(1); if (mod.bits() < 8) mod = mod + Z(1).shl(40); LeakCheck lk; NOTE("modulus %s used %d times", zs(mod), n);
    { Z b[4], e[4], want[4]; std::vector<N> lb, le; for (int j = 0; j < 4; j++) { b[j] = below(s, mod); e[j] = j == 3 ? below(s, mod) : Z((long)s.below(40)); want[j] = b[j].powm(e[j], mod); lb.emplace_back(b[j]); le.emplace_back(e[j]); }
      bool fails = s.below(2); N lm(mod); W tiny(1); struct RaMontCtx *c = NULL; CHECK(RaMontCreate(lm, &c) == 0, "RaMontCreate"); W r(words(mod));
      for (int i = 0; i < n; i++) { int j = i % 16 == 15 ? 3 : i % 3; if (fails && i % 3 == 1) { int f = -1; starved(i % 9, [&]() { f = RaMontExpMod(c, r, lb[j], le[j]); }); CHECK(!g_failed || f == RA_ERR_OUT_OF_MEMORY, "use %d without memory returned %d", i + 1, f); f = RaMontExpMod(c, tiny, lb[2], le[2]); CHECK(f ? words(want[2]) > 1 : val(tiny) == want[2], "use %d with one word of room returned %d", i + 1, f); } int rc = RaMontExpMod(c, r, lb[j], le[j]); CHECK(rc == 0, "use %d returned %d", i + 1, rc); CHECK(val(r) == want[j], "use %d of the same modulus gives %s, expected %s", i + 1, zs(val(r)), zs(want[j])); }
      expectBn(r, want[(n - 1) % 16 == 15 ? 3 : (n - 1) % 3], "RaMontExpMod"); RaMontDestroy(c); }
    lk.done("modulus");
}
PROP(C40, rsakey, 2, "*", "more than 256 uses of one key") {
    bool rare = s.below(30) == 29; int n = often(s, rare ? 66000 : 2000); RsaKey k = smallKey(s, rare ? 20 : 20 + s.below(60)); LeakCheck lk; entropySeed(s.raw(4)); NOTE("key n=%s e=%s used %d times", zs(k.n), zs(k.e), n); bool bare = s.below(2); Bytes der = bare ? derPriv(k) : derPkcs8(k); struct RaRsaKeyPair *key = NULL; int rc = (bare ? RaRsaCreateKeyPriv : RaRsaCreateKeyFromByteArray)(der.data(), (int)der.size(), &key); CHECK(rc == 0 && key, "importing the key returned %d", rc);
    { Z m[3], c[3], g[3]; std::vector<N> lm, lc, lg; for (int j = 0; j < 3; j++) { m[j] = below(s, k.n); c[j] = m[j].powm(k.e, k.n); g[j] = m[j].powm(k.d, k.n); lm.emplace_back(m[j]); lc.emplace_back(c[j]); lg.emplace_back(g[j]); } bool fails = s.below(2); N huge(Z(1).shl((words(k.n) + 1) * WBITS)), bad(m[0] + Z(1)); W r(words(k.n)); Bytes first; int only = s.below(3) ? -1 : (int)s.below(6);
      for (int i = 0; i < n; i++) { int j = i % 3, what = only >= 0 ? only : (i * 5 + i / 7) % 6; Z want; const char *nm; if (fails && i % 3 == 1) { uint8_t few[8]; int l = 0, f; switch (i / 3 % 5) { case 0: f = RaRsaVerify(key, huge, lm[0]); break; case 1: f = RaRsaPubKeyToByteArray(key, few, 8, &l); break; case 2: f = RaRsaPrivKeyToByteArray(key, few, 8, &l); break; case 3: starved(i / 15 % 10, [&]() { f = RaRsaVerify(key, lg[j], lm[j]); }); if (!g_failed) f = -1; break; default: starved(i / 15 % 9, [&]() { f = RaRsaSign(key, lm[j], r); }); if (!g_failed) f = -1; } CHECK(f != 0, "use %d: a call that cannot succeed did", i + 1); }
        switch (what) { case 0: rc = RaRsaEncrypt(key, lm[j], r); want = c[j]; nm = "encryption"; break; case 1: rc = RaRsaDecrypt(key, lc[j], r); want = m[j]; nm = "decryption"; break; case 2: rc = RaRsaSign(key, lm[j], r); want = g[j]; nm = "signature"; break;
        case 3: rc = RaRsaVerify(key, lg[j], lm[j]); CHECK(rc == 0, "use %d: a right signature is refused (%d)", i + 1, rc); continue; case 4: rc = RaRsaVerify(key, lg[0], bad); CHECK(rc != 0, "use %d: a wrong signature is accepted", i + 1); continue;
        default: { if (i % 4 && only < 0) continue; bool pub = i & 8; uint8_t b[1200]; int l = -1; rc = pub ? RaRsaPubKeyToByteArray(key, b, sizeof b, &l) : RaRsaPrivKeyToByteArray(key, b, sizeof b, &l); Bytes w = pub ? derSpki(k) : derPkcs8(k); CHECK(rc == 0 && Bytes(b, b + (l > 0 ? l : 0)) == w, "use %d: the exported %s key is wrong", i + 1, pub ? "public" : "private"); continue; } }
        CHECK(rc == 0, "use %d: %s returned %d", i + 1, nm, rc); CHECK(val(r) == want, "use %d of the key: %s gives %s, expected %s", i + 1, nm, zs(val(r)), zs(want)); } }
    RaRsaDestroyKeyPair(key); lk.done("RSA key");
}
// very many objects alive at once, each used after all exist; or very many one after the other
PROP(C40, crowd, 4, "*", "more than 256 objects") {
    int kind = (int)s.below(7); bool churn = s.below(3) == 0, cheap = kind != 5 && kind != 6; int n = often(s, churn ? (cheap ? 70000 : 3000) : cheap && s.below(3) == 0 ? 66000 : 2500), a = (int)s.below(kind == 1 ? NCIPH : kind == 3 ? 4 : NALG), order = (int)s.below(3); if (kind == 1 && n > 5000) n = 5000; static const char *const K[] = {"digest contexts", "cipher contexts", "RC4 contexts", "generators", "numbers", "moduli", "RSA keys"}; NOTE("%d %s %s", n, K[kind], churn ? "one after the other" : "alive at once"); cls(K[kind]); LeakCheck lk; uint64_t salt = s.raw(4);
    int B = kind == 1 ? cblk[a] : 0, mode = (int)s.below(4); auto in = [&](int i, size_t len) { Bytes b(len); Rng g(salt + (uint64_t)i * 77777); for (auto &x : b) x = (uint8_t)(g.next() >> 20); return b; };
    std::vector<RsaKey> ks; std::vector<Bytes> kd; if (kind == 6) for (int j = 0; j < 5; j++) { ks.push_back(smallKey(s, 16 + s.below(40))); kd.push_back(derPkcs8(ks.back())); }
    auto modOf = [&](int i) { Z m = Z::be(in(i, 8 + i % 3 * 8)); return m.odd() ? m + Z(2) : m + Z(1); };
    auto make = [&](int i) -> void * { void *p = NULL; int rc = 0;
        switch (kind) { case 0: rc = dCreate(a, &p); if (!rc) { Bytes d = in(i, i % 150); dUpdate(a, p, d.data(), (int)d.size()); } break; case 1: { Bytes k = in(i, ckey[a] ? ckey[a] : 1 + i % 56); rc = rawCreateP(a, k.data(), (int)k.size(), mode, &p); if (!rc) { Lib L(a, Adopt{p}); L.setiv(in(i + 1, B).data()); L.p = NULL; } break; }
        case 2: { Bytes k = in(i, 1 + i % 40); rc = RaRc4Create(k.data(), (int)k.size(), (struct RaRc4Ctx **)&p); break; } case 3: { Bytes k = in(i, 1 + i % 40); rc = RaRandomCreate(GEN[a], k.data(), (int)k.size(), (struct RaRandom **)&p); break; }
        case 4: { Bytes b = in(i, 1 + i % 60); struct RaBigNumber *q = BnNewW(72 / WB); if (q) BnSetUByteArray(q, b.data(), (int)b.size()); p = q; break; } case 5: { N m(modOf(i)); rc = RaMontCreate(m, (struct RaMontCtx **)&p); break; }
        default: rc = RaRsaCreateKeyFromByteArray(kd[i % 5].data(), (int)kd[i % 5].size(), (struct RaRsaKeyPair **)&p); }
        CHECK(rc == 0 && p, "object %d could not be created (%d)", i + 1, rc); return p; };
    auto useEnd = [&](int i, void *p) {
        switch (kind) {
        case 0: { uint8_t o[64]; Bytes d = in(i, i % 150); dFinal(a, p, o); CHECK(Bytes(o, o + dlen[a]) == refDigest(a, d.data(), d.size()), "%s: context %d of %d gives a wrong digest", dname[a], i + 1, n); dDestroy(a, p); break; }
        case 1: { Bytes k = in(i, ckey[a] ? ckey[a] : 1 + i % 56), v = in(i + 1, B), m = in(i + 2, 2 * B), o(3 * B); RefBlock r(a, k); Bytes w = refMode(r, mode, false, v, m.data(), m.size()); Lib L(a, Adopt{p}); int x = L.enc(m.data(), (int)m.size(), o.data()); CHECK(x == 2 * B && !memcmp(o.data(), w.data(), 2 * B), "%s %s: context %d of %d encrypts wrongly", cname[a], mname[mode], i + 1, n); break; }
        case 2: { Bytes k = in(i, 1 + i % 40), m = in(i + 1, 20), o(20), w(20); RC4_KEY rk; RC4_set_key(&rk, (int)k.size(), k.data()); RC4(&rk, 20, m.data(), w.data()); RaRc4Encrypt((struct RaRc4Ctx *)p, m.data(), 20, o.data()); CHECK(o == w, "RC4 context %d of %d is wrong", i + 1, n); RaRc4Destroy((struct RaRc4Ctx *)p); break; }
        case 3: { Bytes k = in(i, 1 + i % 40), x(40), y(40); struct RaRandom *t; CHECK(RaRandomCreate(GEN[a], k.data(), (int)k.size(), &t) == 0, "create"); RaRandomBytes(t, 40, y.data()); RaRandomDestroy(t); RaRandomBytes((struct RaRandom *)p, 40, x.data()); CHECK(x == y, "generator %d of %d differs from a new one of its seed", i + 1, n); RaRandomDestroy((struct RaRandom *)p); break; }
        case 4: { Bytes b = in(i, 1 + i % 60); Z w = Z::be(b); struct RaBigNumber *q = (struct RaBigNumber *)p; expectBn(q, w, "number"); CHECK(BnAddUInt(q, 1) == 0, "BnAddUInt"); expectBn(q, w + Z(1), "number plus one"); BnFree(q); break; }
        case 5: { Z m = modOf(i), b = Z::be(in(i + 1, 12)) % m, e(i % 50); N lb(b), le(e); W r(words(m)); int rc = RaMontExpMod((struct RaMontCtx *)p, r, lb, le); CHECK(rc == 0 && val(r) == b.powm(e, m), "modulus %d of %d gives a wrong power (%d)", i + 1, n, rc); RaMontDestroy((struct RaMontCtx *)p); break; }
        default: { RsaKey &k = ks[i % 5]; Z m = Z::be(in(i, 16)) % k.n; N lm(m); W r(words(k.n)); int rc = RaRsaSign((struct RaRsaKeyPair *)p, lm, r); CHECK(rc == 0 && val(r) == m.powm(k.d, k.n), "key %d of %d signs wrongly (%d)", i + 1, n, rc); RaRsaDestroyKeyPair((struct RaRsaKeyPair *)p); } } };
    if (churn) for (int i = 0; i < n; i++) useEnd(i, make(i));
    else { std::vector<void *> v; for (int i = 0; i < n; i++) v.push_back(make(i)); Rng g(salt); for (int i = 0; i < n; i++) { int j = order == 0 ? i : order == 1 ? n - 1 - i : -1; if (j < 0) { do j = (int)(g.next() % n); while (!v[j]); if (i > n / 2) { j = 0; order = 3; } } if (order == 3) { for (int q = 0; q < n; q++) if (v[q]) { useEnd(q, v[q]); v[q] = NULL; } break; } useEnd(j, v[j]); v[j] = NULL; } }
    lk.done("objects");
}
