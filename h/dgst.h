// Digest adapters: the library under test, and independent references (OpenSSL, or an
// own implementation of the published definition for MD2 and HAS-160).
#pragma once
#include "core.h"
extern "C" {
#include <racrypt.h>
}
#include <openssl/evp.h>
#include <openssl/md4.h>
#include <openssl/md5.h>
#include <openssl/sha.h>

static const int NALG = 11;
enum { D_MD2, D_MD4, D_MD5, D_SHA1, D_224, D_256, D_384, D_512, D_512_224, D_512_256, D_HAS160 };
static const char *const dname[NALG] = {"MD2", "MD4", "MD5", "SHA-1", "SHA-224", "SHA-256", "SHA-384", "SHA-512", "SHA-512/224", "SHA-512/256", "HAS-160"};
static const int dlen[NALG] = {16, 16, 16, 20, 28, 32, 48, 64, 28, 32, 20}, dblk[NALG] = {16, 64, 64, 64, 64, 64, 128, 128, 128, 128, 64};

// ---- references ------------------------------------------------------------------
static const uint8_t MD2PI[256] = { // RFC 1319: digits of pi
41,46,67,201,162,216,124,1,61,54,84,161,236,240,6,19,98,167,5,243,192,199,115,140,152,147,43,217,188,76,130,202,30,155,87,60,253,212,224,22,103,66,111,24,138,23,229,18,190,78,196,214,218,158,222,73,160,251,245,142,187,47,238,122,169,104,121,145,21,178,7,63,148,194,16,137,11,34,95,33,128,127,93,154,90,144,50,39,53,62,204,231,191,247,151,3,255,25,48,179,72,165,181,209,215,94,146,42,172,86,170,198,79,184,56,210,150,164,125,182,118,252,107,226,156,116,4,241,69,157,112,89,100,113,135,32,134,91,207,101,230,45,168,2,27,96,37,173,174,176,185,246,28,70,97,105,52,64,126,15,85,71,163,35,221,81,175,58,195,92,249,206,186,197,234,38,44,83,13,110,133,40,132,9,211,223,205,244,65,129,77,82,106,220,55,200,108,193,171,250,36,225,123,8,12,189,177,74,120,136,149,139,227,99,232,109,233,203,213,254,59,0,29,57,242,239,183,14,102,88,208,228,166,119,114,248,235,117,75,10,49,68,80,180,143,237,31,26,219,153,141,51,159,17,131,20};

struct RefBase { virtual ~RefBase() {} virtual void update(const void *p, size_t n) = 0; virtual void fin(uint8_t *o) = 0; };
struct RefMd2 : RefBase {
    uint8_t x[16] = {0}, c[16] = {0}, b[16]; size_t f = 0;
    void block(const uint8_t *d) {
        uint8_t t[48]; for (int i = 0; i < 16; i++) { t[i] = x[i]; t[16 + i] = d[i]; t[32 + i] = x[i] ^ d[i]; }
        uint8_t l = c[15]; for (int i = 0; i < 16; i++) l = c[i] ^= MD2PI[d[i] ^ l];
        unsigned v = 0; for (int j = 0; j < 18; j++) { for (int k = 0; k < 48; k++) v = t[k] ^= MD2PI[v]; v = (v + j) % 256; }
        memcpy(x, t, 16);
    }
    void update(const void *p, size_t n) override { const uint8_t *d = (const uint8_t *)p; while (n) { size_t k = 16 - f < n ? 16 - f : n; memcpy(b + f, d, k); f += k; d += k; n -= k; if (f == 16) { block(b); f = 0; } } }
    void fin(uint8_t *o) override { uint8_t pad = 16 - f; memset(b + f, pad, pad); block(b); uint8_t cc[16]; memcpy(cc, c, 16); block(cc); memcpy(o, x, 16); }
};
struct RefHas160 : RefBase {  // TTAS.KO-12.0011
    uint32_t h[5] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}; uint8_t b[64]; uint64_t n = 0;
    static uint32_t rl(uint32_t v, int s) { return (v << s) | (v >> (32 - s)); }
    void block(const uint8_t *d) {
        static const uint8_t perm[4][16] = {{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}, {3,6,9,12,15,2,5,8,11,14,1,4,7,10,13,0}, {12,5,14,7,0,9,2,11,4,13,6,15,8,1,10,3}, {7,2,13,8,3,14,9,4,15,10,5,0,11,6,1,12}};
        static const uint8_t s1[20] = {5,11,7,15,6,13,8,14,7,12,9,11,8,15,6,12,9,14,5,13}, s2[4] = {10, 17, 25, 30};
        static const uint32_t K[4] = {0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc};
        uint32_t w[16]; for (int i = 0; i < 16; i++) w[i] = d[4 * i] | d[4 * i + 1] << 8 | d[4 * i + 2] << 16 | (uint32_t)d[4 * i + 3] << 24;
        uint32_t A = h[0], B = h[1], C = h[2], D = h[3], E = h[4];
        for (int r = 0; r < 4; r++) {
            uint32_t X[20]; int at = 0, ex[4] = {2, 3, 0, 1};
            for (int g = 0; g < 4; g++) { uint32_t v = 0; for (int k = 0; k < 4; k++) v ^= w[perm[r][4 * ex[g] + k]]; X[at++] = v; for (int k = 0; k < 4; k++) X[at++] = w[perm[r][4 * g + k]]; }
            for (int i = 0; i < 20; i++) { uint32_t f = r == 0 ? (B & C) | (~B & D) : r == 2 ? C ^ (B | ~D) : B ^ C ^ D; uint32_t t = rl(A, s1[i]) + f + E + X[i] + K[r]; E = D; D = C; C = rl(B, s2[r]); B = A; A = t; }
        }
        h[0] += A; h[1] += B; h[2] += C; h[3] += D; h[4] += E;
    }
    void update(const void *p, size_t l) override { const uint8_t *d = (const uint8_t *)p; while (l) { size_t f = n & 63, k = 64 - f < l ? 64 - f : l; if (k == 64) block(d); else { memcpy(b + f, d, k); if (f + k == 64) block(b); } n += k; d += k; l -= k; } }
    void fin(uint8_t *o) override { uint64_t bits = n << 3; uint8_t t[72] = {0x80}; size_t f = n & 63, pad = f < 56 ? 56 - f : 120 - f; for (int i = 0; i < 8; i++) t[pad + i] = (uint8_t)(bits >> (8 * i)); update(t, pad + 8); for (int i = 0; i < 20; i++) o[i] = (uint8_t)(h[i / 4] >> (8 * (i % 4))); }
};
struct RefEvp : RefBase {
    EVP_MD_CTX *c; RefEvp(const char *name) { static thread_local std::map<std::string, EVP_MD *> m; EVP_MD *&e = m[name]; if (!e) e = EVP_MD_fetch(NULL, name, NULL); c = EVP_MD_CTX_new(); EVP_DigestInit_ex2(c, e, NULL); }
    ~RefEvp() { EVP_MD_CTX_free(c); }
    void update(const void *p, size_t n) override { EVP_DigestUpdate(c, p, n); }
    void fin(uint8_t *o) override { unsigned l; EVP_DigestFinal_ex(c, o, &l); }
};
struct RefMd4 : RefBase { MD4_CTX c; RefMd4() { MD4_Init(&c); } void update(const void *p, size_t n) override { MD4_Update(&c, p, n); } void fin(uint8_t *o) override { MD4_Final(o, &c); } };
inline RefBase *refNew(int a) {
    static const char *en[NALG] = {0, 0, "MD5", "SHA1", "SHA224", "SHA256", "SHA384", "SHA512", "SHA512-224", "SHA512-256", 0};
    if (a == D_MD2) return new RefMd2; if (a == D_MD4) return new RefMd4; if (a == D_HAS160) return new RefHas160; return new RefEvp(en[a]);
}
inline Bytes refDigest(int a, const void *p, size_t n) {
    uint8_t o[64];
    switch (a) { case D_MD4: MD4((const uint8_t *)p, n, o); break; case D_MD5: MD5((const uint8_t *)p, n, o); break; case D_SHA1: SHA1((const uint8_t *)p, n, o); break; case D_224: SHA224((const uint8_t *)p, n, o); break; case D_256: SHA256((const uint8_t *)p, n, o); break; case D_384: SHA384((const uint8_t *)p, n, o); break; case D_512: SHA512((const uint8_t *)p, n, o); break;
    default: { RefBase *r = refNew(a); r->update(p, n); r->fin(o); delete r; } }
    return Bytes(o, o + dlen[a]);
}

// ---- library under test -----------------------------------------------------------
union DU { struct RaMd2Ctx md2; struct RaMd4Ctx md4; struct RaMd5Ctx md5; struct RaSha1Ctx sha1; struct RaSha2Ctx sha2; struct RaHas160Ctx has; };
static const enum RaDigestAlgorithm s2alg[NALG] = {RA_DGST_SHA2_256, RA_DGST_SHA2_256, RA_DGST_SHA2_256, RA_DGST_SHA2_256, RA_DGST_SHA2_224, RA_DGST_SHA2_256, RA_DGST_SHA2_384, RA_DGST_SHA2_512, RA_DGST_SHA2_512_224, RA_DGST_SHA2_512_256, RA_DGST_SHA2_256};
inline bool isSha2(int a) { return a >= D_224 && a <= D_512_256; }
inline int dCreate(int a, void **p) {
    switch (a) { case D_MD2: return RaMd2Create((struct RaMd2Ctx **)p); case D_MD4: return RaMd4Create((struct RaMd4Ctx **)p); case D_MD5: return RaMd5Create((struct RaMd5Ctx **)p); case D_SHA1: return RaSha1Create((struct RaSha1Ctx **)p); case D_HAS160: return RaHas160Create((struct RaHas160Ctx **)p); default: return RaSha2Create(s2alg[a], (struct RaSha2Ctx **)p); }
}
inline void dDestroy(int a, void *p) {
    switch (a) { case D_MD2: RaMd2Destroy((struct RaMd2Ctx *)p); break; case D_MD4: RaMd4Destroy((struct RaMd4Ctx *)p); break; case D_MD5: RaMd5Destroy((struct RaMd5Ctx *)p); break; case D_SHA1: RaSha1Destroy((struct RaSha1Ctx *)p); break; case D_HAS160: RaHas160Destroy((struct RaHas160Ctx *)p); break; default: RaSha2Destroy((struct RaSha2Ctx *)p); }
}
// `alt`: use the algorithm-specific entry points where SHA-256/512 have them
inline void dInit(int a, void *p, bool alt = false) {
    switch (a) { case D_MD2: RaMd2Init((struct RaMd2Ctx *)p); break; case D_MD4: RaMd4Init((struct RaMd4Ctx *)p); break; case D_MD5: RaMd5Init((struct RaMd5Ctx *)p); break; case D_SHA1: RaSha1Init((struct RaSha1Ctx *)p); break; case D_HAS160: RaHas160Init((struct RaHas160Ctx *)p); break;
    default: if (alt && a == D_256) RaSha256Init((struct RaSha2Ctx *)p); else if (alt && a == D_512) RaSha512Init((struct RaSha2Ctx *)p); else RaSha2Init((struct RaSha2Ctx *)p, s2alg[a]); }
}
inline void dUpdate(int a, void *p, const uint8_t *d, int n, bool alt = false) {
    switch (a) { case D_MD2: RaMd2Update((struct RaMd2Ctx *)p, d, n); break; case D_MD4: RaMd4Update((struct RaMd4Ctx *)p, d, n); break; case D_MD5: RaMd5Update((struct RaMd5Ctx *)p, d, n); break; case D_SHA1: RaSha1Update((struct RaSha1Ctx *)p, d, n); break; case D_HAS160: RaHas160Update((struct RaHas160Ctx *)p, d, n); break;
    default: if (alt && (a == D_256 || a == D_224)) RaSha256Update((struct RaSha2Ctx *)p, d, n); else if (alt) RaSha512Update((struct RaSha2Ctx *)p, d, n); else RaSha2Update((struct RaSha2Ctx *)p, d, n); }
}
inline void dFinal(int a, void *p, uint8_t *o, bool alt = false) {
    switch (a) { case D_MD2: RaMd2Final((struct RaMd2Ctx *)p, o); break; case D_MD4: RaMd4Final((struct RaMd4Ctx *)p, o); break; case D_MD5: RaMd5Final((struct RaMd5Ctx *)p, o); break; case D_SHA1: RaSha1Final((struct RaSha1Ctx *)p, o); break; case D_HAS160: RaHas160Final((struct RaHas160Ctx *)p, o); break;
    default: if (alt && a == D_256) RaSha256Final((struct RaSha2Ctx *)p, o); else if (alt && a == D_512) RaSha512Final((struct RaSha2Ctx *)p, o); else RaSha2Final((struct RaSha2Ctx *)p, o); }
}
inline bool dOneShot(int a, const uint8_t *d, int n, uint8_t *o) {
    switch (a) { case D_MD2: RaMd2(d, n, o); break; case D_MD4: RaMd4(d, n, o); break; case D_MD5: RaMd5(d, n, o); break; case D_SHA1: RaSha1(d, n, o); break; case D_HAS160: RaHas160(d, n, o); break; case D_256: RaSha256(d, n, o); break; case D_512: RaSha512(d, n, o); break; default: return false; }
    return true;
}
