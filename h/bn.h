// Big-number helpers: OpenSSL BIGNUM as the exact-integer oracle.
#pragma once
#include "core.h"
extern "C" {
#include <racrypt.h>
}
#include <openssl/bn.h>
#include <utility>

inline BN_CTX *bnctx() { static thread_local BN_CTX *c = BN_CTX_new(); return c; }
struct Z {
    BIGNUM *b;
    Z() : b(BN_new()) {}
    Z(long v) : b(BN_new()) { BN_set_word(b, v < 0 ? 0ul - (unsigned long)v : (unsigned long)v); if (v < 0) BN_set_negative(b, 1); }
    static Z u(uint64_t v) { Z z; BN_set_word(z.b, v); return z; }
    Z(const Z &o) : b(BN_dup(o.b)) {}
    Z(Z &&o) : b(o.b) { o.b = BN_new(); }
    Z &operator=(const Z &o) { if (this != &o) BN_copy(b, o.b); return *this; }
    ~Z() { BN_free(b); }
    static Z be(const uint8_t *p, size_t n) { Z z; BN_bin2bn(p, n, z.b); return z; }
    static Z be(const Bytes &v) { return be(v.data(), v.size()); }
    static Z le(const uint8_t *p, size_t n) { Z z; BN_lebin2bn(p, n, z.b); return z; }
    bool neg() const { return BN_is_negative(b); } bool zero() const { return BN_is_zero(b); } bool odd() const { return BN_is_odd(b); }
    int bits() const { return BN_num_bits(b); }
    Z abs() const { Z z(*this); BN_set_negative(z.b, 0); return z; }
    Z operator-() const { Z z(*this); if (!z.zero()) BN_set_negative(z.b, !z.neg()); return z; }
    Z operator+(const Z &o) const { Z z; BN_add(z.b, b, o.b); return z; }
    Z operator-(const Z &o) const { Z z; BN_sub(z.b, b, o.b); return z; }
    Z operator*(const Z &o) const { Z z; BN_mul(z.b, b, o.b, bnctx()); return z; }
    Z operator/(const Z &o) const { Z z; BN_div(z.b, NULL, b, o.b, bnctx()); return z; }   // truncated
    Z operator%(const Z &o) const { Z z; BN_div(NULL, z.b, b, o.b, bnctx()); return z; }   // sign of dividend
    Z mod(const Z &o) const { Z z; BN_nnmod(z.b, b, o.b, bnctx()); return z; }
    Z shl(int n) const { Z z; BN_lshift(z.b, b, n); return z; }
    Z shr(int n) const { Z z; BN_rshift(z.b, b, n); return z; }                            // magnitude shift
    int cmp(const Z &o) const { return BN_cmp(b, o.b); }
    bool operator==(const Z &o) const { return cmp(o) == 0; } bool operator!=(const Z &o) const { return cmp(o) != 0; }
    bool operator<(const Z &o) const { return cmp(o) < 0; } bool operator>(const Z &o) const { return cmp(o) > 0; } bool operator<=(const Z &o) const { return cmp(o) <= 0; } bool operator>=(const Z &o) const { return cmp(o) >= 0; }
    Z powm(const Z &e, const Z &m) const { Z z; BN_mod_exp(z.b, mod(m).b, e.b, m.b, bnctx()); return z; }
    Z gcd(const Z &o) const { Z z; BN_gcd(z.b, abs().b, o.abs().b, bnctx()); BN_set_negative(z.b, 0); return z; }
    bool inv(const Z &m, Z &r) const { return BN_mod_inverse(r.b, mod(m).b, m.b, bnctx()) != NULL; }
    bool prime() const { return cmp(Z(1)) > 0 && BN_check_prime(b, bnctx(), NULL) == 1; }
    Bytes bytes() const { Bytes v((bits() + 7) / 8); if (!v.empty()) BN_bn2bin(b, v.data()); return v; }
    uint64_t low64() const { Z t(abs()); BN_mask_bits(t.b, 64); return BN_get_word(t.b) == (BN_ULONG)-1 ? ~0ull : BN_get_word(t.b); }
    std::string str() const { char *h = BN_bn2hex(b); std::string r = h; OPENSSL_free(h); size_t i = 0; bool n = r[0] == '-'; i = n; while (i + 1 < r.size() && r[i] == '0') i++; r = (n ? "-0x" : "0x") + r.substr(i); if (r.size() > 700) r = r.substr(0, 340) + "..." + r.substr(r.size() - 340); return r; }
};
inline const char *zs(const Z &z) { static thread_local std::string t[8]; static thread_local int i = 0; i = (i + 1) & 7; t[i] = z.str(); return t[i].c_str(); }

static const int WB = BN_WORD_BYTE, WBITS = BN_WORD_BYTE * 8;
inline int words(const Z &z) { int w = (z.bits() + WBITS - 1) / WBITS; return w ? w : 1; }

// RAII library number
struct N {
    struct RaBigNumber *p;
    explicit N(struct RaBigNumber *q) : p(q) {}
    static struct RaBigNumber *mk(int w) { struct RaBigNumber *q = BnNewW(w < 1 ? 1 : w); CHECK(q, "allocation of a big number failed"); return q; }
    N(const Z &z, int extra = 0) : p(mk(words(z) + extra)) { set(z); }
    N(N &&o) : p(o.p) { o.p = NULL; }
    N(const N &) = delete; N &operator=(const N &) = delete;
    ~N() { if (p) BnFree(p); }
    operator struct RaBigNumber *() const { return p; }
    // writes the words directly, independently of the import routines
    void set(const Z &z) { Bytes v = z.bytes(); int n = words(z); memset(p->data, 0, (size_t)n * WB); uint8_t *d = (uint8_t *)p->data; for (size_t i = 0; i < v.size(); i++) d[i] = v[v.size() - 1 - i]; p->length = n; p->sign = z.neg() ? 1 : 0; }
};
struct W : N { explicit W(int w) : N(mk(w)) {} };

inline Z val(const struct RaBigNumber *p) {
    Z z = Z::le((const uint8_t *)p->data, (size_t)p->length * WB); if (p->sign && !z.zero()) BN_set_negative(z.b, 1); return z;
}
// value and canonical form
inline void expectBn(const struct RaBigNumber *p, const Z &want, const char *what) {
    CHECK(p->length >= 1 && p->length <= p->max_length, "%s: word count %d outside 1..%d", what, p->length, p->max_length);
    Z v = val(p);
    CHECK(v == want, "%s: got %s, expected %s", what, zs(v), zs(want));
    CHECK(p->length == 1 || p->data[p->length - 1] != 0, "%s: result %s has leading zero words (%d words)", what, zs(v), p->length);
    CHECK(p->sign == (want.neg() ? 1 : 0), "%s: result %s carries sign flag %d", what, zs(v), p->sign);
}
inline void same(const struct RaBigNumber *p, const Z &want, const char *what) { CHECK(val(p) == want && p->sign == (want.neg() ? 1 : 0), "%s: an operand was modified: now %s, was %s", what, zs(val(p)), zs(want)); }

// ---- generators --------------------------------------------------------------
inline int genWords(Src &s, int maxw) {
    int w;
    switch (s.below(8)) { case 0: w = s.below(2); break; case 1: case 2: case 3: w = 1 + s.below(4); break; case 4: case 5: w = 1 + s.below(8); break; case 6: w = 1 + s.below(20); break; default: w = 1 + s.below(maxw); }
    if (maxw >= 16 && s.below(1024) == 0) return maxw + (int)s.below(maxw * (s.below(8) ? 4 : 12)); // rarely far above the usual sizes
    return w > maxw ? maxw : w;
}
// non-negative integer of at most w 64-bit words
inline Z genMagW(Src &s, int w) {
    if (w == 0) return Z(0);
    std::vector<uint64_t> d(w);
    switch (s.below(6)) {
    case 0: for (auto &x : d) x = s.word(64); break;
    case 1: { Bytes b = s.rnd((size_t)w * 8); memcpy(d.data(), b.data(), b.size()); break; }
    case 2: { uint64_t a = s.word(64), b = s.word(64); int k = s.below(w + 1); for (int i = 0; i < w; i++) d[i] = i < k ? a : b; break; }
    case 3: { for (auto &x : d) x = ~0ull; d[s.below(w)] = s.word(64); break; }
    case 4: { for (auto &x : d) x = 0; d[w - 1] = s.word(64); d[s.below(w)] ^= s.word(64); break; }
    default: { for (auto &x : d) x = s.below(2) ? ~0ull : 0; d[w - 1] = s.word(64); if (w > 1) d[w - 2] = s.word(64); }
    }
    if (s.below(4) == 0) d[w - 1] &= 0xffffffff;            // odd number of 32-bit words
    return Z::le((uint8_t *)d.data(), (size_t)w * 8);
}
// words whose product with the word w comes close to a multiple of 2^WBITS, so that incoming carries matter
inline Z carryWords(Src &s, uint64_t w, int n) {
    Z r(0), B = Z(1).shl(WBITS), W = Z::u(w ? w : 1);
    for (int i = 0; i < n; i++) { Z k = s.below(3) ? W - Z(1) - Z::u(s.below(3)) : Z::u(s.word(WBITS)) % W; if (k.neg()) k = Z(0); Z x = s.below(8) == 0 ? B - Z(1) : (k * B + B - Z(1) - Z::u(s.below(3) ? 0 : s.below(20))) / W; if (s.below(6) == 0) x = x + Z(1); r = r.shl(WBITS) + x % B; }
    return r;
}
inline Z genMag(Src &s, int maxw = 64) { return genMagW(s, genWords(s, maxw)); }
inline Z genZ(Src &s, int maxw = 64) { Z z = genMag(s, maxw); return s.below(2) ? -z : z; }
// a number related to a (or fresh)
inline Z genNear(Src &s, const Z &a, int maxw = 64) {
    Z r;
    switch (s.below(10)) {
    case 0: r = a; break;
    case 1: r = -a; break;
    case 2: r = a + Z((long)s.below(5) - 2); break;
    case 3: r = -a + Z((long)s.below(5) - 2); break;
    case 4: r = a.shr(s.below(a.bits() + 2)); break;
    case 5: { int k = s.below(a.bits() + 70); r = (a.neg() ? -a : a) + (s.below(2) ? Z(1).shl(k) : -Z(1).shl(k)); break; }
    case 6: { int k = s.below(a.bits() + 1); Z t = a.abs(); Z c = Z(1).shl(t.bits()) - t; r = c + Z((long)s.below(3) - 1); (void)k; break; } // complement: carries ripple
    default: r = genZ(s, maxw);
    }
    if (words(r) > 2 * maxw + 4) r = r % Z(1).shl(64 * maxw);
    return s.below(4) == 0 ? -r : r;
}
