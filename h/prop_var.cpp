// C10 every build variant computes the same results: the variants are shared objects called side by side
// with the same generated calls; big numbers cross the interface as bytes only.
#include "core.h"
#include <dlfcn.h>
#include <stdlib.h>
#include <stdio.h>
extern "C" {
#include <racrypt.h>
}
#include <openssl/bn.h>

struct Var { std::string name; void *h; std::map<std::string, void *> f; void *sym(const char *n) { auto &p = f[n]; if (!p) { p = dlsym(h, n); if (!p) failf("variant %s has no %s", name.c_str(), n); } return p; } };
static std::vector<Var> &vars() {
    static std::vector<Var> v; if (!v.empty()) return v; const char *e = getenv("VARIANTS"); CHECK(e && *e, "no variants given"); std::string s = e; size_t i = 0;
    while (i <= s.size()) { size_t j = s.find(':', i); if (j == std::string::npos) j = s.size(); std::string p = s.substr(i, j - i); i = j + 1; if (p.empty()) continue; Var x; x.name = p.substr(p.rfind('/') + 1); x.name = x.name.substr(4, x.name.rfind('_') - 4); x.h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL); CHECK(x.h, "dlopen %s: %s", p.c_str(), dlerror()); v.push_back(x); }
    CHECK(v.size() >= 2, "fewer than two variants"); return v;
}
#define CALL(v, fn, ...) ((decltype(&fn))(v).sym(#fn))(__VA_ARGS__)
static void agree(const char *what, std::function<Bytes(Var &)> f) {
    Bytes first; auto &vs = vars(); for (size_t i = 0; i < vs.size(); i++) { Bytes b = f(vs[i]); if (i == 0) { first = b; continue; } CHECK(b == first, "%s: build %s gives %s, build %s gives %s", what, vs[0].name.c_str(), hex(first, 300).c_str(), vs[i].name.c_str(), hex(b, 300).c_str()); }
}
static void put(Bytes &o, const void *p, size_t n) { o.insert(o.end(), (const uint8_t *)p, (const uint8_t *)p + n); }
static void puti(Bytes &o, long v) { put(o, &v, sizeof v); }

// ---- digests and ciphers by a common call list ----------------------------------
struct DF { const char *create, *destroy, *init, *update, *fin; int alg, len; const char *nm; };
static const DF DFS[] = {{"RaMd2Create", "RaMd2Destroy", "RaMd2Init", "RaMd2Update", "RaMd2Final", -1, 16, "MD2"}, {"RaMd4Create", "RaMd4Destroy", "RaMd4Init", "RaMd4Update", "RaMd4Final", -1, 16, "MD4"}, {"RaMd5Create", "RaMd5Destroy", "RaMd5Init", "RaMd5Update", "RaMd5Final", -1, 16, "MD5"}, {"RaSha1Create", "RaSha1Destroy", "RaSha1Init", "RaSha1Update", "RaSha1Final", -1, 20, "SHA-1"}, {"RaHas160Create", "RaHas160Destroy", "RaHas160Init", "RaHas160Update", "RaHas160Final", -1, 20, "HAS-160"},
    {"RaSha2Create", "RaSha2Destroy", "RaSha2Init", "RaSha2Update", "RaSha2Final", RA_DGST_SHA2_224, 28, "SHA-224"}, {"RaSha2Create", "RaSha2Destroy", "RaSha2Init", "RaSha2Update", "RaSha2Final", RA_DGST_SHA2_256, 32, "SHA-256"}, {"RaSha2Create", "RaSha2Destroy", "RaSha2Init", "RaSha2Update", "RaSha2Final", RA_DGST_SHA2_384, 48, "SHA-384"}, {"RaSha2Create", "RaSha2Destroy", "RaSha2Init", "RaSha2Update", "RaSha2Final", RA_DGST_SHA2_512, 64, "SHA-512"}, {"RaSha2Create", "RaSha2Destroy", "RaSha2Init", "RaSha2Update", "RaSha2Final", RA_DGST_SHA2_512_224, 28, "SHA-512/224"}, {"RaSha2Create", "RaSha2Destroy", "RaSha2Init", "RaSha2Update", "RaSha2Final", RA_DGST_SHA2_512_256, 32, "SHA-512/256"}};
PROP(C10, digests, 3, "*", "message longer than one block") {
    const DF &d = DFS[s.below(11)]; size_t n = s.len(1500, d.len > 32 ? 128 : 64); Bytes m = s.bytes(n); std::vector<size_t> cut; size_t at = 0; int pieces = 1 + s.below(5); for (int i = 0; i < pieces - 1; i++) { at += s.below(n - at + 1); cut.push_back(at); } cut.push_back(n); int again = s.below(3); size_t al = s.below(8); Guard g(m, al);
    NOTE("%s over %zu bytes in %d pieces", d.nm, n, pieces); if (n > 64) nontrivial(); cls(d.nm);
    agree(d.nm, [&](Var &v) { Bytes out; void *c = NULL; int rc = d.alg < 0 ? ((int (*)(void **))v.sym(d.create))(&c) : ((int (*)(int, void **))v.sym(d.create))(d.alg, &c); CHECK(rc == 0 && c, "create");
        for (int t = 0; t <= again; t++) { if (t) { if (d.alg < 0) ((void (*)(void *))v.sym(d.init))(c); else ((void (*)(void *, int))v.sym(d.init))(c, d.alg); } size_t p = 0; for (size_t q : cut) { ((void (*)(void *, const uint8_t *, int))v.sym(d.update))(c, g.p + p, q - p); p = q; } Guard o(d.len); ((void (*)(void *, uint8_t *))v.sym(d.fin))(c, o.p); o.check("digest"); put(out, o.p, d.len); }
        ((void (*)(void *))v.sym(d.destroy))(c); return out; });
}
struct CF { const char *pre; int type, key, blk; const char *nm; };
static const CF CFS[] = {{"Aes", RA_AES_128, 16, 16, "AES-128"}, {"Aes", RA_AES_192, 24, 16, "AES-192"}, {"Aes", RA_AES_256, 32, 16, "AES-256"}, {"Des", RA_DES, 8, 8, "DES"}, {"Des", RA_DES_EDE2, 16, 8, "3DES-2key"}, {"Des", RA_DES_EDE3, 24, 8, "3DES-3key"}, {"Seed", -1, 16, 16, "SEED"}, {"Aria", RA_ARIA_128, 16, 16, "ARIA-128"}, {"Aria", RA_ARIA_192, 24, 16, "ARIA-192"}, {"Aria", RA_ARIA_256, 32, 16, "ARIA-256"}, {"Blowfish", -2, 0, 8, "Blowfish"}};
static const enum RaBlockCipherMode MODES[4] = {RA_BLOCK_MODE_ECB, RA_BLOCK_MODE_CBC, RA_BLOCK_MODE_CFB, RA_BLOCK_MODE_OFB}; static const enum RaBlockCipherPaddingType PADS[3] = {RA_BLOCK_PADDING_NONE, RA_BLOCK_PADDING_ZERO, RA_BLOCK_PADDING_PKCS7};
PROP(C10, ciphers, 4, "*", "more than one block was processed") {
    const CF &c = CFS[s.chance(1, 3) ? s.below(3) : s.below(11)]; Bytes key = s.bytes(c.key ? c.key : 1 + s.below(56)), key2 = s.bytes(key.size()); int mode = s.below(4), nops = 1 + s.below(8); struct Op { int k; Bytes d; int pad; }; std::vector<Op> ops; size_t tot = 0;
    for (int i = 0; i < nops; i++) { Op o; o.k = s.pick({5, 5, 2, 2, 1, 1, 1}); o.pad = s.below(3); if (o.k == 4) o.d = s.bytes(c.blk); else if (o.k < 4) { o.d = s.bytes(s.len(600, c.blk)); tot += o.d.size(); } ops.push_back(o); }
    NOTE("%s mode %d, %d operations over %zu bytes", c.nm, mode, nops, tot); if (tot > (size_t)c.blk) nontrivial(); cls(c.nm); size_t al = s.below(4); std::string P = std::string("Ra") + c.pre;
    agree(c.nm, [&](Var &v) { Bytes out; void *x = NULL; std::string f = P + "Create"; void *fp = v.sym(f.c_str()); int rc = c.type == -1 ? ((int (*)(const uint8_t *, int, void **))fp)(key.data(), MODES[mode], &x) : c.type == -2 ? ((int (*)(const uint8_t *, int, int, void **))fp)(key.data(), key.size(), MODES[mode], &x) : ((int (*)(const uint8_t *, int, int, void **))fp)(key.data(), c.type, MODES[mode], &x); CHECK(rc == 0 && x, "create");
        for (auto &o : ops) { auto F = [&](const char *n) { f = P + n; return v.sym(f.c_str()); }; Guard in(o.d, al), w(o.d.size() + 2 * c.blk, al); int n;
            switch (o.k) { case 0: case 1: n = ((int (*)(void *, const uint8_t *, int, uint8_t *))F(o.k ? "Decrypt" : "Encrypt"))(x, in.p, o.d.size(), w.p); puti(out, n); CHECK(n >= 0 && n <= (int)w.n, "count %d", n); put(out, w.p, n); break;
                case 2: case 3: n = ((int (*)(void *, const uint8_t *, int, uint8_t *, int))F(o.k == 3 ? "DecryptFinal" : "EncryptFinal"))(x, in.p, o.d.size(), w.p, PADS[o.pad]); puti(out, n); CHECK(n >= 0 && n <= (int)w.n, "count %d", n); put(out, w.p, n); break;
                case 4: ((void (*)(void *, const uint8_t *))F("SetIV"))(x, in.p); break; case 5: { uint8_t iv[16] = {0}; ((void (*)(void *, uint8_t *))F("GetIV"))(x, iv); put(out, iv, c.blk); break; }
                default: { void *ip = F("Init"); if (c.type == -1) ((void (*)(void *, const uint8_t *, int))ip)(x, key2.data(), MODES[mode]); else if (c.type == -2) ((void (*)(void *, const uint8_t *, int, int))ip)(x, key2.data(), key2.size(), MODES[mode]); else ((void (*)(void *, const uint8_t *, int, int))ip)(x, key2.data(), c.type, MODES[mode]); } }
            w.check("cipher output"); }
        f = P + "Destroy"; ((void (*)(void *))v.sym(f.c_str()))(x); return out; });
}
PROP(C10, rc4_and_generators, 1, "*", "always") {
    nontrivial(); if (s.below(2)) { Bytes k = s.bytes(1 + s.below(60)), m = s.bytes(s.below(500)); NOTE("RC4 key %s over %zu bytes", hex(k).c_str(), m.size()); cls("RC4"); agree("RC4", [&](Var &v) { struct RaRc4Ctx *c; CHECK(CALL(v, RaRc4Create, k.data(), k.size(), &c) == 0, "create"); Bytes o(m.size() + 1); CALL(v, RaRc4Encrypt, c, m.data(), m.size() / 2, o.data()); CALL(v, RaRc4Encrypt, c, m.data() + m.size() / 2, m.size() - m.size() / 2, o.data() + m.size() / 2); CALL(v, RaRc4Destroy, c); return o; }); return; }
    int alg = s.below(4); Bytes sd = s.bytes(s.below(70)); int n = s.below(300); uint32_t lo = s.word(32), hi = s.word(32); if (lo > hi) std::swap(lo, hi); NOTE("generator %d seed %s, %d bytes", alg, hex(sd).c_str(), n); cls("generator");
    agree("random generator", [&](Var &v) { Bytes d = sd; d.push_back(0); struct RaRandom *g; CHECK(CALL(v, RaRandomCreate, (enum RaRandomAlgorithm)alg, d.data(), (int)sd.size(), &g) == 0, "create"); Bytes o(n + 1); CALL(v, RaRandomBytes, g, n, o.data()); double x = CALL(v, RaRandom, g); put(o, &x, 8); puti(o, CALL(v, RaRandomInt, g, lo, hi)); CALL(v, RaRandomDestroy, g); return o; });
}

// ---- numbers ---------------------------------------------------------------------
struct VN { Var &v; struct RaBigNumber *p; VN(Var &v_, int bits) : v(v_) { p = CALL(v, BnNew, bits < 64 ? 64 : bits); CHECK(p, "BnNew"); } VN(Var &v_, const Bytes &b, int extra = 0) : VN(v_, (int)b.size() * 8 + extra) { CHECK(CALL(v, BnSetByteArray, p, b.data(), b.size()) == 0, "import"); } ~VN() { CALL(v, BnFree, p); } VN(const VN &) = delete;
    operator struct RaBigNumber *() { return p; } void out(Bytes &o) { Bytes t(8192); int n = CALL(v, BnToByteArray, p, t.data(), (int)t.size()); puti(o, n); put(o, t.data(), n > 0 ? n : 0); puti(o, CALL(v, BnGetBitLength, p)); } };
static Bytes num(Src &s, int maxb, bool neg = true, bool nonzero = false) { // two's complement bytes
    int n = 1; switch (s.below(5)) { case 0: n = 1 + s.below(4); break; case 1: n = 4 * (1 + s.below(6)); break; case 2: n = 8 * (1 + s.below(6)); break; default: n = 1 + s.below(maxb); } if (n > maxb) n = maxb; Bytes b = s.bytes(n); if (s.below(3) == 0) { int k = s.below(n + 1); for (int i = n - k; i < n; i++) b[i] = s.below(2) ? 0 : 0xff; } if (!neg || s.below(2)) b.insert(b.begin(), 0); if (nonzero) { bool z = true; for (auto x : b) z &= !x; if (z) b.back() = 3; } return b; }
PROP(C10, arithmetic, 4, "*", "operands of more than eight bytes") {
    int op = s.below(14); static const char *nm[] = {"BnAdd", "BnSub", "BnDouble", "BnMul", "BnSqr", "BnMod", "BnDiv", "BnShiftL", "BnShiftR", "BnAddInt and BnSubInt", "BnMulInt", "BnDivUInt and BnModUInt", "BnCmp", "import and export"}; Bytes a = num(s, 200), b = num(s, 200, true, true); if (s.below(4) == 0) b = a; if (op == 5 || op == 6) { bool z = true; for (auto x : b) z &= !x; if (z) b.back() = 1; } unsigned sh = s.below(500); int32_t w = (int32_t)s.word(32); if (op == 11 && !w) w = 3; int xt = (int)(2 * std::max(a.size(), b.size()) + 16) * 8;
    NOTE("%s a=%s b=%s shift %u word %d", nm[op], hex(a, 120).c_str(), hex(b, 120).c_str(), sh, w); cls(nm[op]); if (a.size() > 9 && b.size() > 9) nontrivial();
    agree(nm[op], [&](Var &v) { Bytes o; VN x(v, a, op >= 7 ? xt + 600 : 0), y(v, b), r(v, xt + 600), q(v, xt + 600); int rc = 0;
        switch (op) { case 0: rc = CALL(v, BnAdd, r, x, y); break; case 1: rc = CALL(v, BnSub, r, x, y); break; case 2: rc = CALL(v, BnDouble, r, x); break; case 3: rc = CALL(v, BnMul, r, x, y); break; case 4: rc = CALL(v, BnSqr, r, x); break; case 5: rc = CALL(v, BnMod, r, x, y); break; case 6: rc = CALL(v, BnDiv, q, r, x, y); q.out(o); break;
            case 7: rc = CALL(v, BnShiftL, x, sh); x.out(o); break; case 8: rc = CALL(v, BnShiftR, x, sh); x.out(o); break; case 9: rc = CALL(v, BnAddInt, x, w); x.out(o); rc |= CALL(v, BnSubInt, x, w / 3); x.out(o); break; case 10: rc = CALL(v, BnMulInt, x, w); x.out(o); break;
            case 11: { bn_uint_t rem = 0; uint32_t u = (uint32_t)w; rc = CALL(v, BnModUInt, x, u, &rem); puti(o, (long)(uint32_t)rem); rem = 0; rc |= CALL(v, BnDivUInt, x, u, &rem); puti(o, (long)(uint32_t)rem); x.out(o); break; }
            case 12: puti(o, CALL(v, BnCmp, x, y)); puti(o, CALL(v, BnCmpInt, x, w)); break; default: { Bytes t(a.size() + 5, 0xee); puti(o, CALL(v, BnToFixedByteArray, x, t.data(), (int)t.size())); put(o, t.data(), t.size()); rc = CALL(v, BnSetUByteArray, y, b.data(), b.size()); y.out(o); x.out(o); } }
        puti(o, rc); if (op < 7) r.out(o); return o; });
}
PROP(C10, number_theory, 2, "*", "operands of more than eight bytes") {
    int op = s.below(4); static const char *nm[] = {"GetGCD", "GetGCDEx", "RaMontExpMod", "RaIsPrimeNumber"}; Bytes a = num(s, 60, false, true), b = num(s, 60, false, true), e = num(s, 24, false); int us = s.below(2); if (op == 2) { b.back() |= 1; if (b.size() < 3) b.insert(b.begin() + 1, 5); if (a.size() > b.size()) a.resize(b.size()), a[0] = 0; for (size_t i = 0; i < b.size(); i++) if (b[i]) { b.erase(b.begin(), b.begin() + i); break; } b.insert(b.begin(), 0); if (a.size() >= b.size()) { a.resize(b.size() - 1); if (a.empty()) a.push_back(0); a.insert(a.begin(), 0); } }
    if (op == 3) { a.back() |= 1; BIGNUM *z = BN_bin2bn(a.data(), a.size(), NULL); if (s.below(2)) { BN_CTX *cx = BN_CTX_new(); while (!BN_check_prime(z, cx, NULL)) BN_add_word(z, 2); BN_CTX_free(cx); a.assign(BN_num_bytes(z) + 1, 0); BN_bn2bin(z, &a[1]); } else { BN_mul_word(z, 3 * 5 * 7); BN_mul_word(z, 11 * 13); a.assign(BN_num_bytes(z) + 1, 0); BN_bn2bin(z, &a[1]); } BN_free(z); }
    NOTE("%s a=%s b=%s e=%s", nm[op], hex(a, 80).c_str(), hex(b, 80).c_str(), hex(e).c_str()); cls(nm[op]); if (a.size() > 9 && b.size() > 9) nontrivial(); int bits = (int)std::max(a.size(), b.size()) * 8 + 256;
    agree(nm[op], [&](Var &v) { Bytes o; VN x(v, a), y(v, b), ee(v, e), r(v, bits), p(v, bits), q(v, bits); int rc;
        switch (op) { case 0: rc = CALL(v, GetGCD, r, x, y); if (!rc) r.out(o); break; case 1: rc = CALL(v, GetGCDEx, r, p, q, x, y, us); if (!rc) { r.out(o); p.out(o); q.out(o); } break;
            case 2: { struct RaMontCtx *c = NULL; rc = CALL(v, RaMontCreate, y, &c); if (!rc) { rc = CALL(v, RaMontExpMod, c, r, x, ee); if (!rc) r.out(o); CALL(v, RaMontDestroy, c); } break; } default: rc = CALL(v, RaIsPrimeNumber, x); }
        puti(o, rc); return o; });
}
static void derInt(Bytes &o, const BIGNUM *z) { Bytes b(BN_num_bytes(z) + 1, 0); BN_bn2bin(z, &b[1]); if (b.size() > 1 && !(b[1] & 0x80)) b.erase(b.begin()); o.push_back(2); if (b.size() < 128) o.push_back(b.size()); else { o.push_back(0x82); o.push_back(b.size() >> 8); o.push_back(b.size()); } put(o, b.data(), b.size()); }
PROP(C10, rsa, 1, "*", "a key was imported and used") {
    BN_CTX *cx = BN_CTX_new(); BIGNUM *t[9]; for (auto &z : t) z = BN_new(); BIGNUM *p1 = BN_new(), *q1 = BN_new(), *phi = BN_new(); int n = 3 + s.below(24); // prime bytes
    Bytes pb = s.rnd(n), qb = s.rnd(n); pb[0] |= 0xc0; qb[0] |= 0xc0; pb[n - 1] |= 1; qb[n - 1] |= 1; BN_bin2bn(pb.data(), n, t[3]); BN_bin2bn(qb.data(), n, t[4]); while (!BN_check_prime(t[3], cx, NULL)) BN_add_word(t[3], 2); if (!BN_cmp(t[3], t[4])) BN_add_word(t[4], 2); while (!BN_check_prime(t[4], cx, NULL)) BN_add_word(t[4], 2);
    BN_mul(t[0], t[3], t[4], cx); BN_copy(p1, t[3]); BN_sub_word(p1, 1); BN_copy(q1, t[4]); BN_sub_word(q1, 1); BN_mul(phi, p1, q1, cx); BN_set_word(t[1], 65537); bool ok = BN_mod_inverse(t[2], t[1], phi, cx) && BN_mod_inverse(t[7], t[4], t[3], cx) && BN_cmp(t[3], t[4]);
    Bytes body, der; if (ok) { BN_mod(t[5], t[2], p1, cx); BN_mod(t[6], t[2], q1, cx); BIGNUM *z0 = BN_new(); derInt(body, z0); BN_free(z0); for (int i = 0; i < 8; i++) derInt(body, t[i]); der = {0x30, 0x82, (uint8_t)(body.size() >> 8), (uint8_t)body.size()}; put(der, body.data(), body.size()); }
    int nb = BN_num_bytes(t[0]); for (auto &z : t) BN_free(z); BN_free(p1); BN_free(q1); BN_free(phi); BN_CTX_free(cx); if (!ok) throw Discard();
    Bytes m = s.rnd(nb - 1); m.insert(m.begin(), 0); if (s.below(6) == 0) der[s.below(der.size())] ^= 1 << s.below(8); NOTE("RSA key of %d bytes, message %s, key %s", nb, hex(m).c_str(), hex(der, 200).c_str()); nontrivial(); cls("RSA");
    agree("RSA", [&](Var &v) { Bytes o; struct RaRsaKeyPair *k = NULL; int rc = CALL(v, RaRsaCreateKeyPriv, der.data(), (int)der.size(), &k); puti(o, rc); if (rc) return o; puti(o, CALL(v, RaRsaKeyBitLength, k)); { VN x(v, m, 64), r(v, nb * 8 + 64), r2(v, nb * 8 + 64); rc = CALL(v, RaRsaDecrypt, k, x, r); puti(o, rc); if (!rc) r.out(o); rc = CALL(v, RaRsaEncrypt, k, x, r2); puti(o, rc); if (!rc) r2.out(o); puti(o, CALL(v, RaRsaVerify, k, x, r2)); }
        Bytes e(4096); int l = 0; rc = CALL(v, RaRsaPrivKeyToByteArray, k, e.data(), 4096, &l); puti(o, rc); if (!rc) put(o, e.data(), l); l = 0; rc = CALL(v, RaRsaPubKeyToByteArray, k, e.data(), 4096, &l); puti(o, rc); if (!rc) put(o, e.data(), l); CALL(v, RaRsaDestroyKeyPair, k); return o; });
}
