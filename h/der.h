// Independent DER builder / BER reader and RSA key model.
#pragma once
#include "bn.h"

namespace der {
enum LenForm { MIN = 0, LONG1 = 1, LONG2 = 2, LONG3 = 3, LONG4 = 4, INDEF = 5 };
inline void cat(Bytes &a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
inline Bytes lenBytes(size_t n, int form) {
    Bytes r; int need = n < 0x80 ? 0 : n < 0x100 ? 1 : n < 0x10000 ? 2 : n < 0x1000000 ? 3 : 4;
    int k = form == MIN || form == INDEF ? need : std::max(need, form);
    if (!k) { r.push_back((uint8_t)n); return r; }
    r.push_back(0x80 | k); for (int i = k - 1; i >= 0; i--) r.push_back((uint8_t)(n >> (8 * i))); return r;
}
inline Bytes tlv(int tag, const Bytes &v, int form = MIN) {
    Bytes r(1, (uint8_t)tag); if (form == INDEF && (tag & 0x20)) { r.push_back(0x80); cat(r, v); r.push_back(0); r.push_back(0); return r; }
    cat(r, lenBytes(v.size(), form)); cat(r, v); return r;
}
inline Bytes intBody(const Z &z) { // minimal two's complement
    if (!z.neg()) { Bytes b = z.bytes(); if (b.empty() || (b[0] & 0x80)) b.insert(b.begin(), 0); return b; }
    int n = (z.bits() + 7) / 8; Z t = Z(1).shl(8 * n) + z; Bytes b;
    if (t.bits() == 8 * n) b = t.bytes(); else { t = Z(1).shl(8 * (n + 1)) + z; b = t.bytes(); }
    return b;
}
inline Bytes integer(const Z &z, int form = MIN) { return tlv(2, intBody(z), form); }
inline Z intVal(const uint8_t *p, size_t n) { Z z = Z::be(p, n); if (n && (p[0] & 0x80)) z = z - Z(1).shl(8 * n); return z; }

// lenient BER reader following the element structure
struct El { bool ok = false; int tag = 0; const uint8_t *v = 0; size_t n = 0; bool indef = false; const uint8_t *next = 0; };
inline El read(const uint8_t *p, const uint8_t *e, int depth = 0) {
    El r; if (e - p < 2) return r; r.tag = *p++; int l = *p++; size_t n = 0;
    if (l < 0x80) n = l; else if (l == 0x80) {
        if (!(r.tag & 0x20) || depth > 60) return r;
        r.indef = true; r.v = p;                               // walk the children to the end-of-contents mark
        for (;;) { if (e - p >= 2 && p[0] == 0 && p[1] == 0) { r.n = p - r.v; r.next = p + 2; r.ok = true; return r; } El c = read(p, e, depth + 1); if (!c.ok) return r; p = c.next; }
    } else { l &= 0x7f; if (l > 4 || e - p < l) return r; while (l--) n = n << 8 | *p++; }
    if ((size_t)(e - p) < n) return r;
    r.v = p; r.n = n; r.next = p + n; r.ok = true; return r;
}
}

struct RsaKey { Z n, e, d, p, q, dp, dq, qi; bool priv = false;
    const Z &comp(int i) const { const Z *t[8] = {&n, &e, &d, &p, &q, &dp, &dq, &qi}; return *t[i]; }
    Z &comp(int i) { Z *t[8] = {&n, &e, &d, &p, &q, &dp, &dq, &qi}; return *t[i]; } };
static const char *const COMP[8] = {"modulus", "public exponent", "private exponent", "prime1", "prime2", "exponent1", "exponent2", "coefficient"};
static const uint8_t OIDRSA[] = {0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01};

struct Forms { std::function<int()> f; int operator()() const { return f ? f() : 0; } };
inline Bytes derPub(const RsaKey &k, const Forms &f = Forms()) { Bytes b; der::cat(b, der::integer(k.n, f())); der::cat(b, der::integer(k.e, f())); return der::tlv(0x30, b, f()); }
inline Bytes derPriv(const RsaKey &k, const Forms &f = Forms()) { Bytes b = der::integer(Z(0), f()); for (int i = 0; i < 8; i++) der::cat(b, der::integer(k.comp(i), f())); return der::tlv(0x30, b, f()); }
inline Bytes algId(const Forms &f = Forms()) { Bytes b = der::tlv(6, Bytes(OIDRSA, OIDRSA + 9), f()); der::cat(b, der::tlv(5, Bytes(), f())); return der::tlv(0x30, b, f()); }
inline Bytes derSpki(const RsaKey &k, const Forms &f = Forms()) { Bytes b = algId(f), s(1, 0); der::cat(s, derPub(k, f)); der::cat(b, der::tlv(3, s, f())); return der::tlv(0x30, b, f()); }
inline Bytes derPkcs8(const RsaKey &k, const Forms &f = Forms()) { Bytes b = der::integer(Z(0), f()); der::cat(b, algId(f)); der::cat(b, der::tlv(4, derPriv(k, f), f())); return der::tlv(0x30, b, f()); }

// what the bytes encode, read along the path the formats define; false: not such a key
inline bool readInts(const uint8_t *p, const uint8_t *e, int skip, int cnt, RsaKey &k, bool stopAtEnd) {
    der::El s = der::read(p, e); if (!s.ok || !(s.tag & 0x20)) return false;
    p = s.v; e = s.v + s.n; (void)stopAtEnd;
    for (int i = 0; i < skip; i++) { der::El x = der::read(p, e); if (!x.ok) return false; p = x.next; }
    for (int i = 0; i < cnt; i++) { der::El x = der::read(p, e); if (!x.ok || x.tag != 2 || !x.n) return false; k.comp(i) = der::intVal(x.v, x.n); p = x.next; }
    k.priv = cnt == 8; return true;
}
inline bool readPub(const Bytes &b, RsaKey &k) { return readInts(b.data(), b.data() + b.size(), 0, 2, k, false); }
inline bool readPriv(const Bytes &b, RsaKey &k) { return readInts(b.data(), b.data() + b.size(), 1, 8, k, false); }
inline bool readAuto(const Bytes &b, RsaKey &k) {
    der::El s = der::read(b.data(), b.data() + b.size()); if (!s.ok || !(s.tag & 0x20)) return false;
    const uint8_t *p = s.v, *e = s.v + s.n; der::El x = der::read(p, e); if (!x.ok) return false; bool priv = false;
    if (x.tag == 2) { priv = true; x = der::read(x.next, e); if (!x.ok) return false; }
    if (!(x.tag & 0x20)) return false; der::El o = der::read(x.v, x.v + x.n); if (!o.ok || o.tag != 6 || o.n != 9 || memcmp(o.v, OIDRSA, 9)) return false;
    x = der::read(x.next, e); if (!x.ok) return false;
    if (priv) { if (x.tag != 4) return false; return readInts(x.v, x.v + x.n, 1, 8, k, false); }
    if (x.tag != 3 || x.n < 2 || x.v[0]) return false; return readInts(x.v + 1, x.v + x.n, 0, 2, k, false);
}
