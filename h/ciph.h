// Block cipher adapters: the library under test and reference block functions (OpenSSL).
#pragma once
#include "core.h"
#include <stdlib.h>
extern "C" {
#include <racrypt.h>
}
#include <openssl/evp.h>
#include <openssl/aes.h>
#include <openssl/des.h>
#include <openssl/seed.h>
#include <openssl/blowfish.h>
#include <openssl/rc4.h>

static const int NCIPH = 11;
enum { C_AES128, C_AES192, C_AES256, C_DES, C_EDE2, C_EDE3, C_SEED, C_ARIA128, C_ARIA192, C_ARIA256, C_BF };
static const char *const cname[NCIPH] = {"AES-128", "AES-192", "AES-256", "DES", "3DES-2key", "3DES-3key", "SEED", "ARIA-128", "ARIA-192", "ARIA-256", "Blowfish"};
static const int ckey[NCIPH] = {16, 24, 32, 8, 16, 24, 16, 16, 24, 32, 0}, cblk[NCIPH] = {16, 16, 16, 8, 8, 8, 16, 16, 16, 16, 8};
enum { FAM_AES, FAM_DES, FAM_SEED, FAM_ARIA, FAM_BF };
static const int cfam[NCIPH] = {0, 0, 0, 1, 1, 1, 2, 3, 3, 3, 4};
static const char *const mname[4] = {"ECB", "CBC", "CFB", "OFB"}, *const pname[3] = {"none", "zero", "PKCS7"};
static const enum RaBlockCipherMode modes[4] = {RA_BLOCK_MODE_ECB, RA_BLOCK_MODE_CBC, RA_BLOCK_MODE_CFB, RA_BLOCK_MODE_OFB};
static const enum RaBlockCipherPaddingType pads[3] = {RA_BLOCK_PADDING_NONE, RA_BLOCK_PADDING_ZERO, RA_BLOCK_PADDING_PKCS7};

// Own DES (FIPS 46-3), with the entry at row 3, column 15 of S-box 1 as a parameter: the published value
// is 13; the pinned library tree has 0 there (known finding "des-s1-63").
struct OwnDes {
    static int s1last; uint64_t k[16];
    static const uint8_t *sb(int i) { static const uint8_t S[8][64] = {
{14,4,13,1,2,15,11,8,3,10,6,12,5,9,0,7,0,15,7,4,14,2,13,1,10,6,12,11,9,5,3,8,4,1,14,8,13,6,2,11,15,12,9,7,3,10,5,0,15,12,8,2,4,9,1,7,5,11,3,14,10,0,6,13},
{15,1,8,14,6,11,3,4,9,7,2,13,12,0,5,10,3,13,4,7,15,2,8,14,12,0,1,10,6,9,11,5,0,14,7,11,10,4,13,1,5,8,12,6,9,3,2,15,13,8,10,1,3,15,4,2,11,6,7,12,0,5,14,9},
{10,0,9,14,6,3,15,5,1,13,12,7,11,4,2,8,13,7,0,9,3,4,6,10,2,8,5,14,12,11,15,1,13,6,4,9,8,15,3,0,11,1,2,12,5,10,14,7,1,10,13,0,6,9,8,7,4,15,14,3,11,5,2,12},
{7,13,14,3,0,6,9,10,1,2,8,5,11,12,4,15,13,8,11,5,6,15,0,3,4,7,2,12,1,10,14,9,10,6,9,0,12,11,7,13,15,1,3,14,5,2,8,4,3,15,0,6,10,1,13,8,9,4,5,11,12,7,2,14},
{2,12,4,1,7,10,11,6,8,5,3,15,13,0,14,9,14,11,2,12,4,7,13,1,5,0,15,10,3,9,8,6,4,2,1,11,10,13,7,8,15,9,12,5,6,3,0,14,11,8,12,7,1,14,2,13,6,15,0,9,10,4,5,3},
{12,1,10,15,9,2,6,8,0,13,3,4,14,7,5,11,10,15,4,2,7,12,9,5,6,1,13,14,0,11,3,8,9,14,15,5,2,8,12,3,7,0,4,10,1,13,11,6,4,3,2,12,9,5,15,10,11,14,1,7,6,0,8,13},
{4,11,2,14,15,0,8,13,3,12,9,7,5,10,6,1,13,0,11,7,4,9,1,10,14,3,5,12,2,15,8,6,1,4,11,13,12,3,7,14,10,15,6,8,0,5,9,2,6,11,13,8,1,4,10,7,9,5,0,15,14,2,3,12},
{13,2,8,4,6,15,11,1,10,9,3,14,5,0,12,7,1,15,13,8,10,3,7,4,12,5,6,11,0,14,9,2,7,11,4,1,9,12,14,2,0,6,10,13,15,3,5,8,2,1,14,7,4,10,8,13,15,12,9,0,3,5,6,11}}; return S[i]; }
    static uint64_t perm(uint64_t v, int inbits, const uint8_t *t, int n) { uint64_t o = 0; for (int i = 0; i < n; i++) o = (o << 1) | ((v >> (inbits - t[i])) & 1); return o; }
    static uint64_t ld(const uint8_t *p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | p[i]; return v; }
    void key(const uint8_t *p) {
        static const uint8_t PC1[56] = {57,49,41,33,25,17,9,1,58,50,42,34,26,18,10,2,59,51,43,35,27,19,11,3,60,52,44,36,63,55,47,39,31,23,15,7,62,54,46,38,30,22,14,6,61,53,45,37,29,21,13,5,28,20,12,4};
        static const uint8_t PC2[48] = {14,17,11,24,1,5,3,28,15,6,21,10,23,19,12,4,26,8,16,7,27,20,13,2,41,52,31,37,47,55,30,40,51,45,33,48,44,49,39,56,34,53,46,42,50,36,29,32};
        uint64_t v = perm(ld(p), 64, PC1, 56); uint32_t c = v >> 28, d = v & 0xfffffff;
        for (int i = 0; i < 16; i++) { int r = (i < 2 || i == 8 || i == 15) ? 1 : 2; c = ((c << r) | (c >> (28 - r))) & 0xfffffff; d = ((d << r) | (d >> (28 - r))) & 0xfffffff; k[i] = perm((uint64_t)c << 28 | d, 56, PC2, 48); } }
    uint64_t run(uint64_t v, bool dec) const {
        static const uint8_t IP[64] = {58,50,42,34,26,18,10,2,60,52,44,36,28,20,12,4,62,54,46,38,30,22,14,6,64,56,48,40,32,24,16,8,57,49,41,33,25,17,9,1,59,51,43,35,27,19,11,3,61,53,45,37,29,21,13,5,63,55,47,39,31,23,15,7};
        static const uint8_t P[32] = {16,7,20,21,29,12,28,17,1,15,23,26,5,18,31,10,2,8,24,14,32,27,3,9,19,13,30,6,22,11,4,25};
        static const uint8_t E[48] = {32,1,2,3,4,5,4,5,6,7,8,9,8,9,10,11,12,13,12,13,14,15,16,17,16,17,18,19,20,21,20,21,22,23,24,25,24,25,26,27,28,29,28,29,30,31,32,1};
        static uint8_t FP[64]; static uint32_t SP[8][64]; static uint64_t ET[4][256], IT[8][256], FT[8][256]; static int ready = -1;
        if (ready != s1last) {
            for (int i = 0; i < 64; i++) FP[IP[i] - 1] = i + 1;
            for (int b = 0; b < 8; b++) for (int x = 0; x < 256; x++) { IT[b][x] = perm((uint64_t)x << (56 - 8 * b), 64, IP, 64); FT[b][x] = perm((uint64_t)x << (56 - 8 * b), 64, FP, 64); if (b < 4) ET[b][x] = perm((uint64_t)x << (24 - 8 * b), 32, E, 48); }
            for (int i = 0; i < 8; i++) for (int x = 0; x < 64; x++) { int row = ((x >> 4) & 2) | (x & 1), col = (x >> 1) & 15; uint32_t y = sb(i)[row * 16 + col]; if (i == 0 && x == 63) y = s1last; SP[i][x] = perm((uint64_t)y << (28 - 4 * i), 32, P, 32); }
            ready = s1last; }
        uint64_t w = 0; for (int b = 0; b < 8; b++) w |= IT[b][(v >> (56 - 8 * b)) & 255];
        uint32_t l = w >> 32, r = (uint32_t)w;
        for (int i = 0; i < 16; i++) { uint64_t e = k[dec ? 15 - i : i]; for (int b = 0; b < 4; b++) e ^= ET[b][(r >> (24 - 8 * b)) & 255]; uint32_t f = 0; for (int b = 0; b < 8; b++) f ^= SP[b][(e >> (42 - 6 * b)) & 63]; uint32_t t = l ^ f; l = r; r = t; }
        w = (uint64_t)r << 32 | l; uint64_t o = 0; for (int b = 0; b < 8; b++) o |= FT[b][(w >> (56 - 8 * b)) & 255]; return o; }
};
inline int OwnDes::s1last = 13;
inline bool knownFinding(const char *id) { const char *k = getenv("KNOWN_FINDINGS"); return k && strstr(k, id); }
// Does the library under test show exactly the known S-box defect? (one probe block that uses the entry)
inline bool desDefect() {
    static int st = -1; if (st >= 0) return st;
    const uint8_t key[8] = {0xf6}, in[8] = {0}; uint8_t lib[8], ref[8]; struct RaDesCtx *x; if (RaDesCreate(key, RA_DES, RA_BLOCK_MODE_ECB, &x) != RA_ERR_SUCCESS) return false; RaDesEncrypt(x, in, 8, lib); RaDesDestroy(x);
    DES_key_schedule k; DES_set_key_unchecked((const_DES_cblock *)key, &k); DES_ecb_encrypt((const_DES_cblock *)in, (DES_cblock *)ref, &k, DES_ENCRYPT);
    OwnDes o; o.key(key); OwnDes::s1last = 13; bool okown = o.run(0, false) == OwnDes::ld(ref); OwnDes::s1last = 0; bool bad = o.run(0, false) == OwnDes::ld(lib);
    if (!okown) abort(); if (!bad) OwnDes::s1last = 13; st = bad; return bad;
}
// ---- reference block function ------------------------------------------------------
struct RefBlock {
    int c; bool own; OwnDes o1, o2, o3; AES_KEY ae, ad; DES_key_schedule k1, k2, k3; SEED_KEY_SCHEDULE sk; BF_KEY bf; EVP_CIPHER_CTX *e, *d;
    // strict: the published cipher is required (C04); otherwise DES follows the library's known S-box defect if it is there
    RefBlock(int c_, const Bytes &key, bool strict = false) : c(c_), e(NULL), d(NULL) {
        own = cfam[c] == FAM_DES && desDefect() && (!strict || knownFinding("des-s1-63"));
        if (own) { cls("known: DES S1[63]"); o1.key(key.data()); o3 = o1; if (c != C_DES) o2.key(key.data() + 8); if (c == C_EDE3) o3.key(key.data() + 16); return; }
        switch (cfam[c]) {
        case FAM_AES: AES_set_encrypt_key(key.data(), ckey[c] * 8, &ae); AES_set_decrypt_key(key.data(), ckey[c] * 8, &ad); break;
        case FAM_DES: DES_set_key_unchecked((const_DES_cblock *)key.data(), &k1);
            if (c == C_EDE2) { DES_set_key_unchecked((const_DES_cblock *)(key.data() + 8), &k2); k3 = k1; }
            if (c == C_EDE3) { DES_set_key_unchecked((const_DES_cblock *)(key.data() + 8), &k2); DES_set_key_unchecked((const_DES_cblock *)(key.data() + 16), &k3); } break;
        case FAM_SEED: SEED_set_key(key.data(), &sk); break;
        case FAM_BF: BF_set_key(&bf, (int)key.size(), key.data()); break;
        case FAM_ARIA: {
            const EVP_CIPHER *k = c == C_ARIA128 ? EVP_aria_128_ecb() : c == C_ARIA192 ? EVP_aria_192_ecb() : EVP_aria_256_ecb();
            e = EVP_CIPHER_CTX_new(); d = EVP_CIPHER_CTX_new();
            if (EVP_EncryptInit_ex(e, k, NULL, key.data(), NULL) != 1 || EVP_DecryptInit_ex(d, k, NULL, key.data(), NULL) != 1) abort();
            EVP_CIPHER_CTX_set_padding(e, 0); EVP_CIPHER_CTX_set_padding(d, 0); }
        }
    }
    ~RefBlock() { if (e) EVP_CIPHER_CTX_free(e); if (d) EVP_CIPHER_CTX_free(d); }
    RefBlock(const RefBlock &) = delete; RefBlock &operator=(const RefBlock &) = delete;
    void own64(const uint8_t *i, uint8_t *o, bool dec) { uint64_t v = OwnDes::ld(i); if (c == C_DES) v = o1.run(v, dec); else if (!dec) v = o3.run(o2.run(o1.run(v, false), true), false); else v = o1.run(o2.run(o3.run(v, true), false), true); for (int j = 0; j < 8; j++) o[j] = (uint8_t)(v >> (56 - 8 * j)); }
    void enc(const uint8_t *i, uint8_t *o) { int n; uint8_t t[16]; if (own) { own64(i, o, false); return; }
        switch (cfam[c]) {
        case FAM_AES: AES_encrypt(i, t, &ae); break;
        case FAM_DES: if (c == C_DES) DES_ecb_encrypt((const_DES_cblock *)i, (DES_cblock *)t, &k1, DES_ENCRYPT); else DES_ecb3_encrypt((const_DES_cblock *)i, (DES_cblock *)t, &k1, &k2, &k3, DES_ENCRYPT); break;
        case FAM_SEED: SEED_encrypt(i, t, &sk); break;
        case FAM_BF: BF_ecb_encrypt(i, t, &bf, BF_ENCRYPT); break;
        case FAM_ARIA: if (EVP_EncryptUpdate(e, t, &n, i, 16) != 1 || n != 16) abort(); }
        memcpy(o, t, cblk[c]); }
    void dec(const uint8_t *i, uint8_t *o) { int n; uint8_t t[16]; if (own) { own64(i, o, true); return; }
        switch (cfam[c]) {
        case FAM_AES: AES_decrypt(i, t, &ad); break;
        case FAM_DES: if (c == C_DES) DES_ecb_encrypt((const_DES_cblock *)i, (DES_cblock *)t, &k1, DES_DECRYPT); else DES_ecb3_encrypt((const_DES_cblock *)i, (DES_cblock *)t, &k1, &k2, &k3, DES_DECRYPT); break;
        case FAM_SEED: SEED_decrypt(i, t, &sk); break;
        case FAM_BF: BF_ecb_encrypt(i, t, &bf, BF_DECRYPT); break;
        case FAM_ARIA: if (EVP_DecryptUpdate(d, t, &n, i, 16) != 1 || n != 16) abort(); }
        memcpy(o, t, cblk[c]); }
};
// standard mode definitions over whole blocks; v = chaining value, updated
inline Bytes refMode(RefBlock &r, int mode, bool dec, Bytes &v, const uint8_t *in, size_t n) {
    int B = cblk[r.c]; Bytes out(n); uint8_t t[16];
    for (size_t o = 0; o + B <= n; o += B) {
        const uint8_t *p = in + o; uint8_t *q = &out[o];
        switch (mode) {
        case 0: if (dec) r.dec(p, q); else r.enc(p, q); break;
        case 1: if (!dec) { for (int i = 0; i < B; i++) t[i] = p[i] ^ v[i]; r.enc(t, q); memcpy(v.data(), q, B); }
                else { r.dec(p, t); for (int i = 0; i < B; i++) q[i] = t[i] ^ v[i]; memcpy(v.data(), p, B); } break;
        case 2: r.enc(v.data(), t); for (int i = 0; i < B; i++) q[i] = t[i] ^ p[i]; memcpy(v.data(), dec ? p : q, B); break;
        case 3: r.enc(v.data(), t); memcpy(v.data(), t, B); for (int i = 0; i < B; i++) q[i] = t[i] ^ p[i]; break;
        }
    }
    return out;
}
// ---- library adapter ------------------------------------------------------------------
struct Adopt { void *q; };
struct Lib {
    int c; void *p;
    Lib(int c_, const uint8_t *key, int keylen, int mode) : c(c_), p(NULL) {
        int rc = 0; auto m = modes[mode]; dirtyStack();
        switch (cfam[c]) {
        case FAM_AES: rc = RaAesCreate(key, (enum RaAesKeyType)(RA_AES_128 + c - C_AES128), m, (struct RaAesCtx **)&p); break;
        case FAM_DES: rc = RaDesCreate(key, c == C_DES ? RA_DES : c == C_EDE2 ? RA_DES_EDE2 : RA_DES_EDE3, m, (struct RaDesCtx **)&p); break;
        case FAM_SEED: rc = RaSeedCreate(key, m, (struct RaSeedCtx **)&p); break;
        case FAM_ARIA: rc = RaAriaCreate(key, c == C_ARIA128 ? RA_ARIA_128 : c == C_ARIA192 ? RA_ARIA_192 : RA_ARIA_256, m, (struct RaAriaCtx **)&p); break;
        case FAM_BF: rc = RaBlowfishCreate(key, keylen, m, (struct RaBlowfishCtx **)&p); break; }
        CHECK(rc == RA_ERR_SUCCESS && p, "%s create failed (%d)", cname[c], rc);
    }
    Lib(int c_, Adopt a) : c(c_), p(a.q) {}
    Lib(Lib &&o) : c(o.c), p(o.p) { o.p = NULL; }
    Lib(const Lib &) = delete; Lib &operator=(Lib &&o) { destroy(); c = o.c; p = o.p; o.p = NULL; return *this; }
    ~Lib() { destroy(); }
    void destroy() { if (!p) return; void *q = p; p = NULL;
        switch (cfam[c]) { case FAM_AES: RaAesDestroy((struct RaAesCtx *)q); break; case FAM_DES: RaDesDestroy((struct RaDesCtx *)q); break; case FAM_SEED: RaSeedDestroy((struct RaSeedCtx *)q); break; case FAM_ARIA: RaAriaDestroy((struct RaAriaCtx *)q); break; case FAM_BF: RaBlowfishDestroy((struct RaBlowfishCtx *)q); } }
    // c2: another key size of the same family
    void init(int c2, const uint8_t *key, int keylen, int mode) { c = c2; auto m = modes[mode];
        switch (cfam[c]) {
        case FAM_AES: RaAesInit((struct RaAesCtx *)p, key, (enum RaAesKeyType)(RA_AES_128 + c - C_AES128), m); break;
        case FAM_DES: RaDesInit((struct RaDesCtx *)p, key, c == C_DES ? RA_DES : c == C_EDE2 ? RA_DES_EDE2 : RA_DES_EDE3, m); break;
        case FAM_SEED: RaSeedInit((struct RaSeedCtx *)p, key, m); break;
        case FAM_ARIA: RaAriaInit((struct RaAriaCtx *)p, key, c == C_ARIA128 ? RA_ARIA_128 : c == C_ARIA192 ? RA_ARIA_192 : RA_ARIA_256, m); break;
        case FAM_BF: RaBlowfishInit((struct RaBlowfishCtx *)p, key, keylen, m); } }
#define FAMSW(F, ...) switch (cfam[c]) { case FAM_AES: return RaAes##F((struct RaAesCtx *)p, __VA_ARGS__); case FAM_DES: return RaDes##F((struct RaDesCtx *)p, __VA_ARGS__); case FAM_SEED: return RaSeed##F((struct RaSeedCtx *)p, __VA_ARGS__); case FAM_ARIA: return RaAria##F((struct RaAriaCtx *)p, __VA_ARGS__); default: return RaBlowfish##F((struct RaBlowfishCtx *)p, __VA_ARGS__); }
    void setiv(const uint8_t *iv) { FAMSW(SetIV, iv) }
    void getiv(uint8_t *iv) { FAMSW(GetIV, iv) }
    int enc(const uint8_t *i, int n, uint8_t *o) { FAMSW(Encrypt, i, n, o) }
    int dec(const uint8_t *i, int n, uint8_t *o) { FAMSW(Decrypt, i, n, o) }
    int encf(const uint8_t *i, int n, uint8_t *o, int pad) { FAMSW(EncryptFinal, i, n, o, pads[pad]) }
    int decf(const uint8_t *i, int n, uint8_t *o, int pad) { FAMSW(DecryptFinal, i, n, o, pads[pad]) }
};
inline int genCipher(Src &s) { return (int)s.below(NCIPH); }
inline Bytes genKey(Src &s, int c) {
    int n = ckey[c]; if (c == C_BF) n = s.chance(1, 8) ? (int)s.range(1, 80) : (int)s.range(1, 56);
    Bytes k = s.bytes(n);
    if (cfam[c] == FAM_DES) { // weak/equal halves now and then
        if (n > 8 && s.chance(1, 8)) memcpy(&k[8], &k[0], 8);
        if (n > 16 && s.chance(1, 8)) memcpy(&k[16], &k[s.below(2) * 8], 8); }
    return k;
}
