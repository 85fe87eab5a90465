// Scenarios: one library operation each with its own inputs, used for failing allocations (C31)
// and for running side by side on threads (C33). setup/run/check/drop use no OpenSSL and no shared state.
#pragma once
#include "der.h"
#include "dgst.h"
#include "ciph.h"
#include <memory>
extern "C" { void entropySeedThread(uint64_t); }

struct Raw { Bytes le; bool neg; Raw() : neg(false) {} explicit Raw(const Z &z) : neg(z.neg()) { Bytes b = z.bytes(); le.assign(b.rbegin(), b.rend()); }
    int words() const { int w = ((int)le.size() + WB - 1) / WB; return w ? w : 1; } int bits() const { int n = le.size(); while (n && !le[n - 1]) n--; if (!n) return 0; int b = 8 * n; for (int m = 0x80; !(le[n - 1] & m); m >>= 1) b--; return b; } };
inline std::string numStr(const struct RaBigNumber *p) { // canonical text of a library number
    if (p->length < 1 || p->length > p->max_length) failf("number with word count %d of %d", p->length, p->max_length);
    const uint8_t *d = (const uint8_t *)p->data; size_t n = (size_t)p->length * WB; while (n > 1 && !d[n - 1]) n--; std::string s = p->sign ? "-" : ""; static const char *x = "0123456789abcdef"; for (size_t i = n; i--;) { s += x[d[i] >> 4]; s += x[d[i] & 15]; } return s; }
struct Num { struct RaBigNumber *p; Num() : p(NULL) {} void make(int w) { p = BnNewW(w); if (!p) failf("allocation failed in the set-up"); } void set(const Raw &r, int extra = 0) { if (!p) make(r.words() + extra); memset(p->data, 0, (size_t)r.words() * WB); memcpy(p->data, r.le.data(), r.le.size()); p->length = r.words(); p->sign = r.neg; } void drop() { if (p) BnFree(p); p = NULL; } std::string str() const { return numStr(p); } };

struct Scn {
    std::string name; uint64_t seed = 0;
    virtual ~Scn() {}
    virtual void setup() {}
    virtual int run(std::string &res) = 0;              // 0: success
    virtual std::string inputs() { return ""; }         // text of the inputs, must not change
    virtual void drop() {}
};
struct LScn : Scn { // numbers in, numbers out
    std::vector<Raw> in; std::vector<int> outw; std::vector<Num> a, r; std::function<int(LScn &, std::string &)> f;
    void setup() override { a.resize(in.size()); for (size_t i = 0; i < in.size(); i++) a[i].set(in[i]); r.resize(outw.size()); for (size_t i = 0; i < outw.size(); i++) { r[i].make(outw[i]); BnSetUInt(r[i].p, 77); } }
    int run(std::string &res) override { return f(*this, res); }
    std::string inputs() override { std::string s; for (auto &x : a) s += x.str() + ","; return s; }
    void outs(std::string &res) { for (auto &x : r) res += x.str() + ","; }
    void drop() override { for (auto &x : a) x.drop(); for (auto &x : r) x.drop(); }
};
// a key that was handed over must work: no injected failures from here on
static inline void stopFailing() { if (g_fail_from >= 0) g_fail_from = g_fail_to = -1; }
static inline void useKey(struct RaRsaKeyPair *k, bool priv, std::string &r) {
    Num m, c; m.make(2); BnSetUInt(m.p, 2); c.make((RaRsaKeyBitLength(k) + BN_WORD_BIT - 1) / BN_WORD_BIT + 1); BnSetUInt(c.p, 5);
    int rc = RaRsaEncrypt(k, m.p, c.p); r += std::to_string(rc) + c.str(); if (priv) { rc = RaRsaSign(k, m.p, c.p); r += std::to_string(rc) + c.str(); } m.drop(); c.drop();
}
struct KScn : Scn { // operation on an imported RSA key
    Bytes der; std::vector<Raw> in; int outw = 0; struct RaRsaKeyPair *key = NULL; std::vector<Num> a; Num r; std::function<int(KScn &, std::string &)> f;
    void setup() override { if (RaRsaCreateKeyFromByteArray(der.data(), der.size(), &key) != 0) failf("%s: importing the key failed in the set-up", name.c_str()); a.resize(in.size()); for (size_t i = 0; i < in.size(); i++) a[i].set(in[i]); if (outw) { r.make(outw); BnSetUInt(r.p, 77); } }
    int run(std::string &res) override { return f(*this, res); }
    std::string inputs() override { std::string s; for (auto &x : a) s += x.str() + ","; return s; }
    void drop() override { RaRsaDestroyKeyPair(key); key = NULL; for (auto &x : a) x.drop(); r.drop(); }
};
struct FScn : Scn { std::function<int(FScn &, std::string &)> f; int run(std::string &res) override { return f(*this, res); } };

inline RsaKey scnKey(Src &s, int bits) { // valid key with primes of `bits` bits
    RsaKey k; for (int tries = 0;; tries++) { if (tries > 20) throw Discard(); for (int i = 0; i < 2; i++) { Z top = Z(1).shl(bits - 1); Z p = top + Z::be(s.rnd((bits + 7) / 8)) % top; if (!p.odd()) p = p + Z(1); for (;; p = p + Z(2)) { if (p.bits() > bits) p = top + Z(1); if (p.prime() && !(i && p == k.p)) break; } (i ? k.q : k.p) = p; }
        Z p1 = k.p - Z(1), q1 = k.q - Z(1), phi = p1 * q1; k.e = Z(s.below(2) ? 65537 : 3); while (k.e.gcd(phi) != Z(1)) k.e = k.e + Z(2); if (k.e >= k.p * k.q || !k.e.inv(phi, k.d)) continue; k.n = k.p * k.q; k.dp = k.d % p1; k.dq = k.d % q1; k.q.inv(k.p, k.qi); k.priv = true; return k; }
}
inline int useDigest(int a, const Bytes &m, std::string &res) { void *c = NULL; int rc = dCreate(a, &c); if (rc) { if (c) failf("%s: create failed but set the context", dname[a]); return rc; } uint8_t o[64]; size_t h = m.size() / 3; dUpdate(a, c, m.data(), h); dUpdate(a, c, m.data() + h, m.size() - h); dFinal(a, c, o); res += hex(o, dlen[a], 64); dDestroy(a, c); return 0; }
inline int rawCreateP(int c, const uint8_t *kp, int kl, int mode, void **p) {
    auto m = modes[mode];
    switch (cfam[c]) {
    case FAM_AES: return RaAesCreate(kp, (enum RaAesKeyType)(RA_AES_128 + c - C_AES128), m, (struct RaAesCtx **)p);
    case FAM_DES: return RaDesCreate(kp, c == C_DES ? RA_DES : c == C_EDE2 ? RA_DES_EDE2 : RA_DES_EDE3, m, (struct RaDesCtx **)p);
    case FAM_SEED: return RaSeedCreate(kp, m, (struct RaSeedCtx **)p);
    case FAM_ARIA: return RaAriaCreate(kp, c == C_ARIA128 ? RA_ARIA_128 : c == C_ARIA192 ? RA_ARIA_192 : RA_ARIA_256, m, (struct RaAriaCtx **)p);
    default: return RaBlowfishCreate(kp, kl, m, (struct RaBlowfishCtx **)p); }
}
inline int rawCreate(int c, const Bytes &key, int mode, void **p) { return rawCreateP(c, key.data(), (int)key.size(), mode, p); }

inline int useCipher(int c, const Bytes &key, int mode, const Bytes &m, int pad, std::string &res) {
    void *p = NULL; int rc = rawCreate(c, key, mode, &p); if (rc) { if (p) failf("%s: create failed but set the context", cname[c]); return rc; }
    Lib l(c, Adopt{p}); Bytes o(m.size() + 64), d(m.size() + 96); size_t h = m.size() / 2; int n = l.enc(m.data(), h, o.data()); n += l.encf(m.data() + h, m.size() - h, o.data() + n, pad); res += hex(o.data(), n, 4096);
    uint8_t iv[16] = {0}; l.setiv(iv); int k = l.decf(o.data(), n, d.data(), pad); res += "/" + hex(d.data(), k, 4096); return 0;
}
inline const char *algName(int a) { static const char *n[] = {"SHA160", "SHA256", "SHA512", "MD5"}; return n[a]; }

// a random scenario; kinds 0..NSCN-1
static const int NSCN = 24;
inline std::unique_ptr<Scn> genScn(Src &s, int kind, int maxw) {
    auto L = [&](const char *n, std::vector<Z> in, std::vector<int> outw, std::function<int(LScn &, std::string &)> f) { auto p = std::make_unique<LScn>(); p->name = n; for (auto &z : in) p->in.push_back(Raw(z)); p->outw = outw; p->f = f; if (noting()) for (auto &z : in) NOTE("%s input %s", n, zs(z)); return p; };
    uint64_t seed = s.raw(3); std::unique_ptr<Scn> q;
    switch (kind) {
    case 0: { Z a = genMag(s, maxw); q = L("BnMul", {genZ(s, maxw), a}, {0}, NULL); auto *l = (LScn *)q.get(); l->outw = {l->in[0].words() + l->in[1].words() + 1}; l->f = [](LScn &x, std::string &r) { int rc = BnMul(x.r[0].p, x.a[0].p, x.a[1].p); if (!rc) x.outs(r); return rc; }; break; }
    case 1: { Z a = genZ(s, 2 * maxw), b = genMag(s, maxw) + Z(1); q = L("BnDiv", {a, s.below(2) ? b : -b}, {words(a) + 1, words(a) + words(b) + 1}, [](LScn &x, std::string &r) { int rc = BnDiv(x.r[0].p, x.r[1].p, x.a[0].p, x.a[1].p); if (!rc) x.outs(r); return rc; }); break; }
    case 2: { Z a = genZ(s, 2 * maxw), b = genMag(s, maxw) + Z(1); q = L("BnMod", {a, b}, {words(b)}, [](LScn &x, std::string &r) { int rc = BnMod(x.r[0].p, x.a[0].p, x.a[1].p); if (!rc) x.outs(r); return rc; }); break; }
    case 3: { Z g = s.below(2) ? genMag(s, 2) + Z(1) : Z(1), a = (genMag(s, maxw) + Z(1)) * g, b = (genMag(s, maxw) + Z(1)) * g; q = L("GetGCD", {a, b}, {std::max(words(a), words(b)) + 1}, [](LScn &x, std::string &r) { int rc = GetGCD(x.r[0].p, x.a[0].p, x.a[1].p); if (!rc) x.outs(r); return rc; }); break; }
    case 4: { Z g = s.below(2) ? genMag(s, 2) + Z(1) : Z(1), a = (genMag(s, maxw) + Z(1)) * g, b = (genMag(s, maxw) + Z(1)) * g; int w = std::max(words(a), words(b)) + 2; bool us = s.below(2), nr = s.below(3) == 0; q = L("GetGCDEx", {a, b}, {w, w, w}, [us, nr](LScn &x, std::string &r) { int rc = GetGCDEx(nr ? NULL : x.r[0].p, x.r[1].p, x.r[2].p, x.a[0].p, x.a[1].p, us); if (!rc) x.outs(r); return rc; }); break; }
    case 5: { Z n = genMag(s, maxw); if (!n.odd()) n = n + Z(1); if (n == Z(1)) n = Z(3); Z a = genMag(s, maxw) % n, e = genMag(s, std::min(maxw, 4)); bool early = s.below(2);
        struct M : LScn { RaMontCtx *c = NULL; bool early; void setup() override { LScn::setup(); if (early && RaMontCreate(a[0].p, &c)) failf("RaMontCreate failed in the set-up"); } void drop() override { RaMontDestroy(c); c = NULL; LScn::drop(); } };
        auto p = std::make_unique<M>(); p->early = early; p->name = early ? "RaMontExpMod" : "RaMontCreate and RaMontExpMod"; for (auto &z : {n, a, e}) p->in.push_back(Raw(z)); p->outw = {words(n)}; NOTE("modulus %s base %s exponent %s", zs(n), zs(a), zs(e));
        p->f = [](LScn &x, std::string &r) { M &m = (M &)x; RaMontCtx *c = m.c; int rc = 0; if (!c) { rc = RaMontCreate(x.a[0].p, &c); if (rc) { if (c) failf("RaMontCreate failed but set the context"); return rc; } } rc = RaMontExpMod(c, x.r[0].p, x.a[1].p, x.a[2].p); if (!rc) x.outs(r); if (!m.c) RaMontDestroy(c); return rc; }; q = std::move(p); break; }
    case 6: { Z n = genMag(s, std::min(maxw, 4)); int k = s.below(4); if (k < 2) { int b = 8 + s.below(60 * std::min(maxw, 4)); n = Z(1).shl(b) + Z::be(s.rnd(b / 8)); if (!n.odd()) n = n + Z(1); while (!n.prime()) n = n + Z(2); if (k == 1) { n = n * Z(1009) * Z(2003); } }
        struct P : LScn { int run(std::string &res) override { entropySeedThread(seed); int rc = RaIsPrimeNumber(a[0].p); if (rc == 0 || rc == RA_ERR_INVALID_DATA) { res = rc ? "composite" : "prime"; return 0; } return rc; } };
        auto p = std::make_unique<P>(); p->name = "RaIsPrimeNumber"; p->in.push_back(Raw(n)); NOTE("number %s", zs(n)); q = std::move(p); break; }
    case 7: { int bits = s.below(3) ? 16 + s.below(50) : 16 + s.below(64 * std::min(maxw, 3)), how = s.below(3); q = L(how == 0 ? "RaGenPrimeNumber" : "RaGenPrimeNumberEx", {}, {(bits + WBITS - 1) / WBITS}, [bits, how](LScn &x, std::string &r) {
            entropySeedThread(x.seed); struct RaRandom *g = NULL; int rc = 0; if (how == 2) { uint8_t sd[8]; memcpy(sd, &x.seed, 8); rc = RaRandomCreate(RA_RAND_SHA256, sd, 8, &g); if (rc) { if (g) failf("RaRandomCreate failed but set the context"); return rc; } }
            rc = how == 0 ? RaGenPrimeNumber(x.r[0].p, bits) : RaGenPrimeNumberEx(x.r[0].p, bits, NULL, NULL, g); if (!rc) x.outs(r); RaRandomDestroy(g); return rc; }); NOTE("%s %d bits way %d", q->name.c_str(), bits, how); break; }
    case 8: { int bits = 1 + s.below(64 * maxw), which = s.below(4); bool own = s.below(2); static const char *nm[] = {"BnGenRandom", "BnGetRandomOdd", "BnGetRandomRSA", "BnGenRandomByteArray"}; NOTE("%s %d bits own %d", nm[which], bits, own);
        q = L(nm[which], {}, {(bits + WBITS - 1) / WBITS}, [bits, which, own](LScn &x, std::string &r) { entropySeedThread(x.seed); struct RaRandom *g = NULL; int rc = 0; if (own) { rc = RaRandomCreate(RA_RAND_MD5, (uint8_t *)&x.seed, 5, &g); if (rc) return rc; }
            if (which == 3) { Bytes b(bits / 8 + 1); rc = BnGenRandomByteArray(b.data(), b.size(), g); if (!rc) r += hex(b, 4096); } else { rc = which == 0 ? BnGenRandom(x.r[0].p, bits, g) : which == 1 ? BnGetRandomOdd(x.r[0].p, bits, g) : BnGetRandomRSA(x.r[0].p, bits, g); if (!rc) x.outs(r); } RaRandomDestroy(g); return rc; }); break; }
    case 9: { int alg = s.below(4); Bytes sd = s.bytes(s.below(40)); bool none = s.below(3) == 0; auto p = std::make_unique<FScn>(); p->name = std::string("RaRandomCreate ") + algName(alg); NOTE("%s seed %s", p->name.c_str(), none ? "none" : hex(sd).c_str());
        p->f = [alg, sd, none](FScn &x, std::string &r) { entropySeedThread(x.seed); struct RaRandom *g = NULL; Bytes d = sd; int rc = RaRandomCreate((enum RaRandomAlgorithm)alg, none ? NULL : d.data(), d.size(), &g); if (rc) { if (g) failf("RaRandomCreate failed but set the context"); return rc; } uint8_t o[300]; RaRandomBytes(g, 300, o); r += hex(o, 300, 300); r += std::to_string(RaRandomInt(g, 5, 500000)); r += std::to_string(RaRandom(g)); RaRandomDestroy(g); return 0; }; q = std::move(p); break; }
    case 10: case 11: { int a = s.below(NALG); Bytes m = s.bytes(s.len(700, dblk[a])); auto p = std::make_unique<FScn>(); p->name = std::string(dname[a]) + " context"; NOTE("%s over %zu bytes", p->name.c_str(), m.size()); p->f = [a, m](FScn &, std::string &r) { return useDigest(a, m, r); }; q = std::move(p); break; }
    case 12: case 13: case 14: { int c = genCipher(s), mode = s.below(4), pad = s.below(3); Bytes k = genKey(s, c), m = s.bytes(s.len(500, cblk[c])); auto p = std::make_unique<FScn>(); p->name = std::string(cname[c]) + " context"; NOTE("%s %s over %zu bytes", p->name.c_str(), mname[mode], m.size()); p->f = [=](FScn &, std::string &r) { return useCipher(c, k, mode, m, pad, r); }; q = std::move(p); break; }
    case 15: { Bytes k = s.bytes(1 + s.below(40)), m = s.bytes(s.below(600)); auto p = std::make_unique<FScn>(); p->name = "RC4 context"; p->f = [=](FScn &, std::string &r) { struct RaRc4Ctx *c = NULL; int rc = RaRc4Create(k.data(), k.size(), &c); if (rc) { if (c) failf("RaRc4Create failed but set the context"); return rc; } Bytes o(m.size() + 1); RaRc4Encrypt(c, m.data(), m.size(), o.data()); r += hex(o.data(), m.size(), 4096); RaRc4Destroy(c); return 0; }; q = std::move(p); break; }
    case 16: { int bits = 32 + 2 * s.below(maxw * 16); auto p = std::make_unique<FScn>(); p->name = "RaRsaCreateKeyPair"; NOTE("%s %d bits", p->name.c_str(), bits); p->f = [bits](FScn &x, std::string &r) { entropySeedThread(x.seed); struct RaRsaKeyPair *k = NULL; int rc = RaRsaCreateKeyPair(bits, &k); if (rc) { if (k) failf("RaRsaCreateKeyPair failed but set the key"); return rc; }
            int n = 0; Bytes b(8192); for (int i = 0; i < 1; i++) if (RaRsaKeyBitLength(k) != bits) failf("generated key has %d bits instead of %d", RaRsaKeyBitLength(k), bits); stopFailing(); useKey(k, true, r); r += std::to_string(RaRsaKeyBitLength(k)); rc = RaRsaPrivKeyToByteArray(k, b.data(), b.size(), &n); if (!rc) r += hex(b.data(), n, 8192); RaRsaDestroyKeyPair(k); return rc; }; q = std::move(p); break; }
    case 17: { RsaKey k = scnKey(s, 16 + s.below(maxw * 16)); int form = s.below(4); Bytes b = form == 0 ? derPub(k) : form == 1 ? derPriv(k) : form == 2 ? derSpki(k) : derPkcs8(k); if (s.below(4) == 0 && b.size() > 4) { b.resize(b.size() - 1 - s.below(4)); } auto p = std::make_unique<FScn>(); p->name = "RSA key import"; NOTE("%s form %d %s", p->name.c_str(), form, hex(b, 300).c_str());
        p->f = [b, form](FScn &, std::string &r) { struct RaRsaKeyPair *k = NULL; int rc = form == 0 ? RaRsaCreateKeyPub(b.data(), b.size(), &k) : form == 1 ? RaRsaCreateKeyPriv(b.data(), b.size(), &k) : RaRsaCreateKeyFromByteArray(b.data(), b.size(), &k); if (rc) { if (k) failf("a key import failed but set the key"); return rc; }
            stopFailing(); useKey(k, form & 1, r); r += std::to_string(RaRsaKeyBitLength(k)); int n = 0; Bytes o(8192); rc = form & 1 ? RaRsaPrivKeyToByteArray(k, o.data(), 8192, &n) : RaRsaPubKeyToByteArray(k, o.data(), 8192, &n); if (!rc) r += hex(o.data(), n, 8192); RaRsaDestroyKeyPair(k); return rc; }; q = std::move(p); break; }
    case 18: case 19: case 20: { RsaKey k = scnKey(s, 16 + s.below(maxw * 16)); auto p = std::make_unique<KScn>(); int op = kind == 18 ? s.below(3) : kind == 19 ? 3 + s.below(2) : 5 + s.below(2); p->der = derPkcs8(k); if (op == 0 && s.below(2)) p->der = derSpki(k); if (op == 5 && s.below(2)) p->der = derSpki(k); Z m = Z::be(s.rnd(k.n.bytes().size())) % k.n; p->in.push_back(Raw(m)); p->outw = words(k.n) + 1; NOTE("key %s message %s", zs(k.n), zs(m));
        static const char *nm[] = {"RaRsaEncrypt", "RaRsaDecrypt", "RaRsaSign", "RaRsaVerify", "RaRsaVerifyKey", "RaRsaPubKeyToByteArray", "RaRsaPrivKeyToByteArray"}; p->name = nm[op];
        if (op == 3) { Z sg = m.powm(k.d, k.n); if (s.below(2)) sg = sg + Z(1); p->in.push_back(Raw(sg)); }
        if (op == 4 && strcmp(flavour(), "vk") && s.below(3) == 0) { RsaKey t = k; t.dp = t.dp + Z(2); p->der = derPkcs8(t); }
        p->f = [op](KScn &x, std::string &r) { entropySeedThread(x.seed); int rc; switch (op) {
            case 0: rc = RaRsaEncrypt(x.key, x.a[0].p, x.r.p); if (!rc) r += x.r.str(); return rc; case 1: rc = RaRsaDecrypt(x.key, x.a[0].p, x.r.p); if (!rc) r += x.r.str(); return rc; case 2: rc = RaRsaSign(x.key, x.a[0].p, x.r.p); if (!rc) r += x.r.str(); return rc;
            case 3: rc = RaRsaVerify(x.key, x.a[1].p, x.a[0].p); if (rc == 0 || rc == RA_ERR_INVALID_DATA) { r += rc ? "no" : "yes"; return 0; } return rc; case 4: rc = RaRsaVerifyKey(x.key); if (rc == 0 || rc == RA_ERR_INVALID_DATA) { r += rc ? "no" : "yes"; return 0; } return rc;
            default: { int n = 0; rc = op == 5 ? RaRsaPubKeyToByteArray(x.key, NULL, 0, &n) : RaRsaPrivKeyToByteArray(x.key, NULL, 0, &n); if (rc) return rc; Bytes o(n); rc = op == 5 ? RaRsaPubKeyToByteArray(x.key, o.data(), n, &n) : RaRsaPrivKeyToByteArray(x.key, o.data(), n, &n); if (!rc) r += hex(o.data(), n, 8192); return rc; } } };
        q = std::move(p); break; }
    case 21: { Z a = genZ(s, maxw); q = L("BnClone", {a}, {}, [](LScn &x, std::string &r) { struct RaBigNumber *c = BnClone(x.a[0].p); if (!c) return RA_ERR_OUT_OF_MEMORY; r += numStr(c); BnFree(c); c = BnNew(100); if (!c) return RA_ERR_OUT_OF_MEMORY; r += numStr(c); BnClearFree(c); return 0; }); break; }
    case 22: { Z a = genZ(s, maxw); int n = words(a) * WB + 2; bool fixed = s.below(2); if (fixed) a = a.abs(); q = L(fixed ? "BnToFixedByteArray" : "BnToByteArray", {a}, {}, [n, fixed](LScn &x, std::string &r) { Bytes b(n); int k = fixed ? BnToFixedByteArray(x.a[0].p, b.data(), n) : BnToByteArray(x.a[0].p, b.data(), n); if (k <= 0) return RA_ERR_OUT_OF_MEMORY; if (k > n) failf("%s returned %d for a buffer of %d", x.name.c_str(), k, n); r += hex(b.data(), k, 4096); return 0; }); break; }
    default: { Z a = genZ(s, maxw), b = genNear(s, a, maxw); Bytes by = s.bytes(s.below(40)); uint64_t w = s.word(31); int sh = s.below(200); int n = std::max(words(a), words(b)) + 10; q = L("additions, shifts and words", {a, b}, {n, n, n * 2}, [by, w, sh](LScn &x, std::string &r) { int rc = 0; rc |= BnAdd(x.r[0].p, x.a[0].p, x.a[1].p); rc |= BnSub(x.r[1].p, x.a[0].p, x.a[1].p); rc |= BnShiftL(x.r[0].p, sh); rc |= BnShiftR(x.r[1].p, sh); rc |= BnMulUInt(x.r[0].p, (bn_uint_t)w); rc |= BnAddInt(x.r[1].p, -(bn_int_t)w); bn_uint_t rem = 0; if (w) rc |= BnDivUInt(x.r[0].p, (bn_uint_t)w, &rem); rc |= BnSqr(x.r[2].p, x.a[0].p); rc |= BnAddUInt(x.r[0].p, rem); r += std::to_string(BnCmp(x.a[0].p, x.a[1].p)); if (!rc) x.outs(r); return rc; }); break; }
    }
    q->seed = seed; return q;
}
