// C25-C30 RSA keys
#include "der.h"
#include "bigprimes.h"
#include <set>
extern "C" void entropySeed(uint64_t);
typedef struct RaRsaKeyPair Key;

// ---- key generators ------------------------------------------------------------
static Z primeOf(Src &s, int bits) { // deterministic prime of exactly `bits` bits
    Z top = Z(1).shl(bits - 1); Z p = top + Z::be(s.rnd((bits + 7) / 8)) % top; if (!p.odd()) p = p + Z(1);
    if (bits == 2) return s.below(2) ? Z(2) + Z(1) : Z(3);
    for (;; p = p + Z(2)) { if (p.bits() > bits) p = top + Z(1); if (p.prime()) return p; }
}
static Z lcm(const Z &a, const Z &b) { return a * b / a.gcd(b); }
static bool finish(RsaKey &k, bool viaLcm) {
    Z p1 = k.p - Z(1), q1 = k.q - Z(1), m = viaLcm ? lcm(p1, q1) : p1 * q1; if (!k.e.inv(m, k.d)) return false;
    if (k.d.zero()) return false;
    k.n = k.p * k.q; k.dp = k.d % p1; k.dq = k.d % q1; if (!k.q.inv(k.p, k.qi)) return false; k.priv = true; return true;
}
static RsaKey validKey(Src &s, int maxPrime, bool mayLcm = true) {
    RsaKey k; int pb = s.below(6) == 0 ? 2 + s.below(14) : 16 + s.below(maxPrime - 15), qb = s.below(3) ? pb : (s.below(4) == 0 ? 2 + s.below(20) : 16 + s.below(maxPrime - 15));
    if (qb < 2) qb = 2; if (maxPrime >= 100 && s.below(200) == 199) { pb = 256 + s.below(265); qb = s.below(3) ? pb : 200 + s.below(300); cls("prime above 255 bits"); }
    bool real = maxPrime >= 100 && s.below(400) == 399 && (!strcmp(flavour(), "default") || !strcmp(flavour(), "vk")); if (real) { cls("key of 1536 bits and more"); caseCpuLimit(300); }
    for (int tries = 0; tries < 60; tries++) {
        if (real) { BN_hex2bn(&k.p.b, BIGPRIMES[s.below(NBIGPRIMES)]); BN_hex2bn(&k.q.b, BIGPRIMES[s.below(NBIGPRIMES)]); } else { k.p = primeOf(s, pb); k.q = primeOf(s, qb); } if (k.p == k.q) { pb++; continue; }
        Z phi = (k.p - Z(1)) * (k.q - Z(1)); Z n = k.p * k.q;
        switch (s.below(6)) { case 0: k.e = Z(3); break; case 1: k.e = Z(65537); break; case 2: k.e = Z(17); break; default: k.e = Z::be(s.rnd((n.bits() + 7) / 8)) % (s.below(2) ? phi : Z(1).shl(1 + s.below(phi.bits()))); if (!k.e.odd()) k.e = k.e + Z(1); }
        while (k.e.gcd(phi) != Z(1) && k.e < n) k.e = k.e + Z(2);
        if (k.e >= n || k.e <= Z(1)) { pb++; continue; }
        if (finish(k, mayLcm && s.below(2))) return k;
        pb++;
    }
    throw Discard();
}
// components need not form a real key
static RsaKey anyKey(Src &s, int maxw) {
    RsaKey k; int shape = s.below(4); int w = 1 + s.below(maxw);
    for (int i = 0; i < 8; i++) { Z z = shape == 0 ? genMag(s, maxw) : shape == 1 ? Z::be(s.bytes(1 + s.below(w * 8))) : genMagW(s, 1 + s.below(w)); k.comp(i) = z; }
    if (!k.n.odd()) k.n = k.n + Z(1); if (k.n == Z(1)) k.n = Z(3); k.priv = true; return k;
}
static Bytes exportKey(Key *k, bool priv, const char *what) {
    int len = -1; int rc = priv ? RaRsaPrivKeyToByteArray(k, NULL, 0, &len) : RaRsaPubKeyToByteArray(k, NULL, 0, &len);
    CHECK(rc == RA_ERR_SUCCESS && len > 0, "%s: size query of the %s key returned %d, size %d", what, priv ? "private" : "public", rc, len);
    Guard g(len); int l2 = -1; rc = priv ? RaRsaPrivKeyToByteArray(k, g.p, len, &l2) : RaRsaPubKeyToByteArray(k, g.p, len, &l2); g.check("key export");
    CHECK(rc == RA_ERR_SUCCESS && l2 == len, "%s: export of the %s key into a buffer of the reported size %d returned %d, size %d", what, priv ? "private" : "public", len, rc, l2);
    return g.get(len);
}
static void sameComp(const RsaKey &got, const RsaKey &want, int cnt, const char *what) { for (int i = 0; i < cnt; i++) CHECK(got.comp(i) == want.comp(i), "%s: the %s is %s, expected %s", what, COMP[i], zs(got.comp(i)), zs(want.comp(i))); }
static void noteKey(const RsaKey &k, int cnt) { if (noting()) for (int i = 0; i < cnt; i++) NOTE("%s %s", COMP[i], zs(k.comp(i))); }
static Key *importBytes(const Bytes &b, int fn, int *rc) {
    Guard in(b); Key *sent = (Key *)&sent, *k = sent; *rc = fn == 0 ? RaRsaCreateKeyPub(in.p, b.size(), &k) : fn == 1 ? RaRsaCreateKeyPriv(in.p, b.size(), &k) : RaRsaCreateKeyFromByteArray(in.p, b.size(), &k);
    CHECK(in.get(b.size()) == b, "the import changed its input"); in.check("import");
    if (*rc != RA_ERR_SUCCESS) { CHECK(k == sent || k == NULL, "the import failed with %d but set a key", *rc); return NULL; }
    CHECK(k != sent && k, "the import succeeded without a key"); return k;
}
static Z apply(int op, Key *k, const Z &m, const Z &n, int *rc, Src &s) { // 0 encrypt 1 decrypt 2 sign
    N lm(m); W r(words(n) + (int)s.below(2)); r.set(Z(5)); *rc = op == 0 ? RaRsaEncrypt(k, lm, r) : op == 1 ? RaRsaDecrypt(k, lm, r) : RaRsaSign(k, lm, r);
    same(lm, m, "RSA input"); if (*rc) return Z(0); Z v = val(r); expectBn(r, v, "RSA result"); return v;
}
static Z genMsg(Src &s, const Z &n) {
    switch (s.below(8)) { case 0: return Z(0); case 1: return Z(1); case 2: return n - Z(1); case 3: { Z m = n - Z((long)s.below(5) + 1); return m.neg() ? Z(0) : m; } case 4: return Z(1).shl(s.below(n.bits())); case 5: return Z::u(s.word(32)) % n; default: return Z::be(s.rnd((n.bits() + 7) / 8)) % n; }
}
static Z absZ(const Z &z) { return z.abs(); }

// ---- C25 -----------------------------------------------------------------------
PROP(C25, generated_keys, 1, "*", "a key was generated and used") {
    int half; switch (s.below(9)) { case 8: half = 9 + s.below(7); break; case 0: half = 16; break; case 1: half = 16 + s.below(5); break; case 2: half = 32 + s.below(3) - 1; break; case 3: half = 60 + s.below(10); break; case 4: half = thorough() ? 64 + s.below(500) : 64 + s.below(100); break; default: half = 17 + s.below(40); }
    if (s.below(250) == 249 && strncmp(flavour(), "asan", 4)) half = s.below(2) ? 128 + s.below(413) : 128 * (1 + s.below(4)) + (int)s.below(3) - 1; if (s.below(1500) == 1499 && !strcmp(flavour(), "default")) half = thorough() && s.below(8) == 0 ? 2048 : s.below(3) ? 1024 : 700 + s.below(325);
    int bits = 2 * half; caseCpuLimit(thorough() || half > 128 ? 600 : 60); entropySeed(s.raw(4)); NOTE("generate %d bit key", bits); cls(bits < 32 ? "18-30" : bits == 32 ? "32" : bits <= 64 ? "33-64" : bits <= 128 ? "65-128" : bits < 254 ? "129-253" : "254 and above"); nontrivial();
    LeakCheck lk; Key *k = NULL; int rc = RaRsaCreateKeyPair(bits, &k); CHECK(rc == RA_ERR_SUCCESS && k, "RaRsaCreateKeyPair(%d) returned %d", bits, rc);
    Bytes b = exportKey(k, true, "generated key"); RsaKey r; CHECK(readAuto(b, r) && r.priv, "the exported key is not readable: %s", hex(b, 400).c_str());
    noteKey(r, 8);
    CHECK(r.n.bits() == bits && RaRsaKeyBitLength(k) == bits, "asked for %d bits, modulus has %d (reported %d)", bits, r.n.bits(), RaRsaKeyBitLength(k));
    CHECK(r.p * r.q == r.n, "modulus is not the product of the primes"); CHECK(r.p != r.q, "the two primes are equal");
    CHECK(r.p.prime() && r.q.prime(), "a factor is not prime: %s %s", zs(r.p), zs(r.q));
    Z p1 = r.p - Z(1), q1 = r.q - Z(1), phi = p1 * q1; CHECK(r.e > Z(1) && r.e.odd(), "public exponent %s", zs(r.e));
    CHECK((r.e * r.d).mod(phi) == Z(1), "e*d is not 1 modulo (p-1)(q-1): e=%s d=%s p=%s q=%s", zs(r.e), zs(r.d), zs(r.p), zs(r.q)); CHECK(!r.d.neg() && r.d < r.n, "private exponent out of range: %s", zs(r.d));
    CHECK(r.dp == r.d % p1 && r.dq == r.d % q1, "CRT exponents are wrong: %s %s", zs(r.dp), zs(r.dq)); CHECK((r.qi * r.q).mod(r.p) == Z(1) && r.qi < r.p && !r.qi.neg(), "CRT coefficient %s is not the inverse of q", zs(r.qi));
    int uses = 3; for (int i = 0; i < uses; i++) {
        Z m = i == 0 ? r.n - Z(1) : genMsg(s, r.n); NOTE("message %s", zs(m)); Z c = apply(0, k, m, r.n, &rc, s); CHECK(rc == 0, "encrypt returned %d", rc); Z t = apply(1, k, c, r.n, &rc, s); CHECK(rc == 0 && t == m, "decrypting the encryption of %s gives %s (%d)", zs(m), zs(t), rc);
        Z g = apply(2, k, m, r.n, &rc, s); CHECK(rc == 0, "sign returned %d", rc); N lg(g), lm(m); rc = RaRsaVerify(k, lg, lm); CHECK(rc == 0, "the signature of %s does not verify (%d)", zs(m), rc);
    }
    rc = RaRsaVerifyKey(k); CHECK(rc == 0, "RaRsaVerifyKey rejects the generated key (%d)", rc);
    RaRsaDestroyKeyPair(k); lk.done("key generation and use");
}

// ---- C26 -----------------------------------------------------------------------
PROP(C26, operations, 3, "*", "message above 1 under a modulus of more than a word") {
    RsaKey k = s.below(3) ? validKey(s, thorough() ? 260 : 130) : anyKey(s, thorough() ? 20 : 8); bool pubOnly = s.below(3) == 0; int rc; LeakCheck lk; noteKey(k, 3); NOTE("public only %d", pubOnly);
    Key *key = pubOnly ? (s.below(2) ? importBytes(derPub(k), 0, &rc) : importBytes(derSpki(k), 2, &rc)) : (s.below(2) ? importBytes(derPriv(k), 1, &rc) : importBytes(derPkcs8(k), 2, &rc));
    if (!key && !strcmp(flavour(), "vk")) { lk.done("import"); throw Discard(); }
    CHECK(key, "importing the key returned %d", rc); CHECK(RaRsaKeyBitLength(key) == k.n.bits(), "bit length is reported as %d", RaRsaKeyBitLength(key));
    for (int i = 0, uses = 1 + s.below(4); i < uses; i++) {
        Z m = genMsg(s, k.n); NOTE("message %s", zs(m)); if (m > Z(1) && k.n.bits() > WBITS) nontrivial();
        switch (s.below(4)) {
        case 0: { Z c = apply(0, key, m, k.n, &rc, s); Z w = m.powm(k.e, k.n); CHECK(rc == 0 && c == w, "encrypt gives %s (%d), expected %s", zs(c), rc, zs(w)); cls("encrypt"); break; }
        case 1: case 2: { int op = 1 + s.below(2); Z c = apply(op, key, m, k.n, &rc, s); if (pubOnly) { CHECK(rc != 0, "a private operation succeeded with a public key"); cls("refused"); } else { Z w = m.powm(k.d, k.n); CHECK(rc == 0 && c == w, "%s gives %s (%d), expected %s", op == 1 ? "decrypt" : "sign", zs(c), rc, zs(w)); cls(op == 1 ? "decrypt" : "sign"); } break; }
        default: { // verification is exact
            Z sg = genMsg(s, k.n), p = sg.powm(k.e, k.n), t = p; const char *how = "right";
            int near = s.below(2) ? s.below(8) : 8 + s.below(6); int wd = s.below(2) ? WBITS : 8; Z unit = Z(1).shl(wd * (1 + s.below(std::max(1, k.n.bits() / wd))));
            switch (near) { case 8: t = p % unit; how = "low part of the message"; break; case 9: t = p - p % unit; how = "high part of the message"; break; case 10: t = p / unit; how = "message shifted down"; break; case 11: t = p + unit * Z(1 + s.below(3)); how = "message with more above"; break; case 12: t = Z(0); how = "nothing"; break; case 13: t = p * unit; how = "message shifted up"; break;
                case 0: case 1: break; case 2: t = p + Z(1); how = "message+1"; break; case 3: if (!p.zero()) t = p - Z(1); how = "message-1"; break; case 4: { BN_is_bit_set(t.b, 0); int b = s.below(k.n.bits() + 1); if (BN_is_bit_set(t.b, b)) BN_clear_bit(t.b, b); else BN_set_bit(t.b, b); how = "message bit flipped"; break; }
                case 5: t = -p; how = "negative message"; break; case 6: t = p + k.n; how = "message plus modulus"; break; default: t = genMsg(s, k.n); how = "unrelated message"; }
            N ls(sg), lt(t); rc = RaRsaVerify(key, ls, lt); NOTE("signature %s against %s (%s)", zs(sg), zs(t), how); cls(how);
            CHECK((rc == 0) == (p == t), "verification of signature %s returned %d although its power is %s and the message %s", zs(sg), rc, zs(p), zs(t)); same(ls, sg, "signature"); same(lt, t, "message"); } }
    }
    RaRsaDestroyKeyPair(key); lk.done("RSA operations");
}
PROP(C26, long_signature, 1, "*", "signature with more words than the modulus") {
    RsaKey k = validKey(s, 130); int rc; Key *key = importBytes(derPub(k), 0, &rc); CHECK(key, "importing the key returned %d", rc); nontrivial();
    Z sg = genMsg(s, k.n); Z big = sg + k.n * Z(1).shl(WBITS * (1 + s.below(3))); Z p = sg.powm(k.e, k.n); bool wrong = s.below(2); Z t = wrong ? p + Z(1) : p;
    NOTE("signature %s modulus %s", zs(big), zs(k.n)); N ls(big), lt(t); rc = RaRsaVerify(key, ls, lt);
    if (wrong) CHECK(rc != 0, "an overlong signature verified against a wrong message"); RaRsaDestroyKeyPair(key);
}

// makes the length of one of the nested elements (integer, key sequence, wrapping string, whole key) one at which its encoding changes size
static void fitBoundary(Src &s, RsaKey &k, int comps, bool giant) {
    static const int small[] = {127, 128, 129, 255, 256, 257}, large[] = {65535, 65536, 65537}; int T = giant ? large[s.below(3)] : small[s.below(6)], level = s.below(4), c = s.below(comps), g = T;
    auto content = [](const Bytes &b) { int l = b[1]; return (int)b.size() - 2 - (l < 0x80 ? 0 : l - 0x80); };
    for (int i = 0; i < 3 && g > 0; i++) {
        Bytes v = s.rnd(g); v[0] = 1 + s.below(0x7f); v.back() |= 1; k.comp(c) = Z::be(v); bool pub = comps == 2;
        int have = level == 0 ? g : level == 1 ? content(pub ? derPub(k) : derPriv(k)) : level == 2 ? (int)(pub ? derPub(k).size() + 1 : derPriv(k).size()) : content(pub ? derSpki(k) : derPkcs8(k)); if (have == T) break; g -= have - T; }
    if (g <= 0) k.comp(c) = Z(3);
}

// ---- C27 -----------------------------------------------------------------------
PROP(C27, roundtrip, 3, "*", "components above one word") {
    bool valid = !strcmp(flavour(), "vk") || s.below(2); RsaKey k = valid ? validKey(s, thorough() ? 300 : 140) : anyKey(s, thorough() ? 40 : 20); bool pubOnly = s.below(3) == 0; int rc; LeakCheck lk; noteKey(k, 8); NOTE("public only %d", pubOnly); if (k.n.bits() > 64) nontrivial(); cls(valid ? "real key" : "arbitrary components");
    if (!valid && s.below(4) == 0) { fitBoundary(s, k, pubOnly ? 2 : 8, s.below(40) == 0); cls("length at an encoding boundary"); }
    else if (strcmp(flavour(), "vk") && s.below(300) == 0) { int c = s.below(pubOnly ? 2 : 8); Bytes g = s.rnd((s.below(4) ? 8150 : 65500) + s.below(100)); g[0] |= 1; g.back() |= 1; k.comp(c) = Z::be(g); cls("giant component"); }
    Key *key = pubOnly ? importBytes(derSpki(k), 2, &rc) : importBytes(derPkcs8(k), 2, &rc); CHECK(key, "importing the key returned %d", rc);
    for (int pass = 0; pass < 2; pass++) {
        bool priv = pass == 1; if (priv && pubOnly) {
            int len = -7; uint8_t buf[16]; rc = s.below(2) ? RaRsaPrivKeyToByteArray(key, NULL, 0, &len) : RaRsaPrivKeyToByteArray(key, buf, 16, &len); CHECK(rc != 0, "a public key was exported as private (%d)", rc); break; }
        Bytes want = priv ? derPkcs8(k) : derSpki(k); Bytes got = exportKey(key, priv, "imported key");
        CHECK(got == want, "export of the %s key is %s, canonical DER is %s", priv ? "private" : "public", hex(got, 2000).c_str(), hex(want, 2000).c_str());
        int n = want.size(); for (int t = 0; t < 4; t++) { // smaller and larger buffers
            int sz = t == 0 ? n - 1 : t == 1 ? (int)s.below(n) : t == 2 ? n + 1 + (int)s.below(40) : (int)s.below(30); Guard g(sz); int l = -1; rc = priv ? RaRsaPrivKeyToByteArray(key, g.p, sz, s.below(4) ? &l : NULL) : RaRsaPubKeyToByteArray(key, g.p, sz, s.below(4) ? &l : NULL); g.check("key export");
            if (sz < n) { CHECK(rc != 0, "export into %d of %d needed bytes succeeded", sz, n); } else { CHECK(rc == 0 && g.get(n) == want, "export into a larger buffer returned %d", rc); CHECK(g.untouchedFrom(n), "export wrote past the %d bytes of the key", n); } }
        Key *k2 = importBytes(got, 2, &rc); CHECK(k2, "re-import of the export returned %d", rc); CHECK(exportKey(k2, priv, "re-imported key") == got, "the re-imported key exports differently");
        // usable with identical results
        if (k.n.bits() > 4000 || k.e.bits() > 4000 || k.d.bits() > 4000) { RaRsaDestroyKeyPair(k2); continue; }
        Z m = genMsg(s, k.n), c = apply(0, k2, m, k.n, &rc, s); CHECK(rc == 0 && c == m.powm(k.e, k.n), "the re-imported key encrypts wrongly"); if (priv) { c = apply(1, k2, m, k.n, &rc, s); CHECK(rc == 0 && c == m.powm(k.d, k.n), "the re-imported key decrypts wrongly"); }
        RaRsaDestroyKeyPair(k2);
    }
    RaRsaDestroyKeyPair(key); lk.done("export and import");
}

// ---- C28 -----------------------------------------------------------------------
static Bytes mutate(Src &s, Bytes b) {
    int n = 1 + s.below(3); while (n--) {
        size_t p = b.empty() ? 0 : (s.below(2) ? s.below(b.size()) : s.below(std::min<size_t>(b.size(), 40)));
        switch (s.below(12)) {
        case 0: if (!b.empty()) b[p] ^= 1 << s.below(8); break;
        case 1: if (!b.empty()) b[p] = s.u8(); break;
        case 2: b.resize(s.below(b.size() + 1)); break;
        case 3: { Bytes x = s.bytes(1 + s.below(6)); b.insert(b.begin() + p, x.begin(), x.end()); break; }
        case 4: { size_t l = 1 + s.below(8); if (p + l <= b.size()) b.erase(b.begin() + p, b.begin() + p + l); break; }
        case 5: if (!b.empty()) b[p] = s.one<uint8_t>({0, 0x80, 0x81, 0x82, 0x84, 0x85, 0xff, 0x7f, 0x30, 0x02, 0x20, 0xa0, 0x04, 0x03, 0x06, 0x05, 1}); break;
        case 6: { Bytes x = s.bytes(1 + s.below(20)); b.insert(b.end(), x.begin(), x.end()); break; }
        case 7: { // a length field replaced: find an element header
            for (size_t i = p; i + 1 < b.size(); i++) if (b[i] == 2 || b[i] == 0x30 || b[i] == 4 || b[i] == 3) { int k = s.below(5); Bytes h; if (k == 0) h = {0}; else if (k == 1) h = {0x80}; else { h.push_back(0x80 | (k - 1 ? k : 4)); int c = h[0] & 0x7f; for (int j = 0; j < c; j++) h.push_back(s.below(3) ? s.one<uint8_t>({0, 0xff, 0x7f, 0x80}) : s.u8()); } b.erase(b.begin() + i + 1); b.insert(b.begin() + i + 1, h.begin(), h.end()); break; } break; }
        case 8: { size_t l = 1 + s.below(30); if (p + l <= b.size()) { Bytes x(b.begin() + p, b.begin() + p + l); b.insert(b.begin() + p, x.begin(), x.end()); } break; }
        case 9: { Bytes w = der::tlv(s.one<int>({0x30, 0x31, 0xa0, 0x04, 0x03}), b, s.below(6)); b = w; break; }
        case 10: if (!b.empty()) b.back() = s.u8(); break;
        default: { Bytes z(s.below(5), 0); b.insert(b.end(), z.begin(), z.end()); } }
    }
    if (b.size() > 6000) b.resize(6000); return b;
}
static Bytes randomTlv(Src &s, int depth) { // grammar-shaped but unconstrained elements
    static const int tags[] = {2, 2, 2, 0x30, 0x30, 4, 3, 6, 5, 0x31, 0xa0, 0, 0x24, 0x3f}; int t = tags[s.below(14)]; Bytes v;
    if ((t & 0x20) && depth < 14) { int n = s.below(depth < 3 ? 10 : 3); for (int i = 0; i < n; i++) der::cat(v, randomTlv(s, depth + 1)); } else if (t == 6 && s.below(2)) v = Bytes(OIDRSA, OIDRSA + s.below(10)); else v = s.below(8) ? s.bytes(s.below(20)) : Bytes();
    return der::tlv(t, v, s.below(3) ? 0 : s.below(6));
}
static Bytes hostileKey(Src &s) { // right structure, awkward integers
    RsaKey k = anyKey(s, 6); int n = 1 + s.below(3); std::map<int, Bytes> raw; while (n--) raw[s.below(9)] = s.below(3) == 0 ? Bytes() : s.below(2) ? s.bytes(1 + s.below(20)) : Bytes(1 + s.below(20), s.one<uint8_t>({0, 0xff, 0x80, 1}));
    auto I = [&](int i) { return raw.count(i) ? der::tlv(2, raw[i], s.below(3) ? 0 : s.below(5)) : der::integer(k.comp(i)); };
    auto form = [&]() { return s.below(3) ? 0 : (int)s.below(6); };
    Bytes b; bool pub = s.below(2); if (!pub) b = raw.count(8) ? der::tlv(2, raw[8]) : der::integer(Z(0)); for (int i = 0; i < (pub ? 2 : 8); i++) der::cat(b, I(i)); b = der::tlv(0x30, b, form());
    if (s.below(2)) return b; Bytes a = algId(), o; if (pub) { Bytes z(1, s.below(4) ? 0 : s.u8()); der::cat(z, b); o = a; der::cat(o, der::tlv(3, z, form())); } else { o = der::integer(Z(0)); der::cat(o, a); der::cat(o, der::tlv(4, b, form())); } return der::tlv(0x30, o, form());
}
PROP(C28, arbitrary_bytes, 5, "*", "the input carries at least one complete element, or the key was accepted") {
    Bytes b; int kind = s.below(8); const char *kn;
    if (kind == 0) { b = s.bytes(s.below(200)); kn = "random bytes"; }
    else if (kind == 1) { b = randomTlv(s, 0); if (s.below(3) == 0) b = mutate(s, b); kn = "random elements"; }
    else if (kind <= 3) { b = hostileKey(s); if (s.below(4) == 0) b = mutate(s, b); kn = "awkward integers"; }
    else { RsaKey k = s.below(4) ? anyKey(s, 4) : validKey(s, 80); Forms f; f.f = [&]() { return s.below(4) ? 0 : (int)s.below(6); }; switch (s.below(4)) { case 0: b = derPub(k, f); break; case 1: b = derPriv(k, f); break; case 2: b = derSpki(k, f); break; default: b = derPkcs8(k, f); } b = mutate(s, b); kn = "mutated key"; }
    int fn = s.below(4); if (fn == 3) fn = 2; caseCpuLimit(20);
    NOTE("%s fn=%d bytes=%s", kn, fn, hex(b, 4000).c_str()); if (der::read(b.data(), b.data() + b.size()).ok) nontrivial();
    LeakCheck lk; int rc; Key *key = importBytes(b, fn, &rc); cls(kn);
    if (!key) { cls("refused"); lk.done("failed import"); return; }
    nontrivial(); cls("accepted"); RsaKey r; bool ok = fn == 0 ? readPub(b, r) : fn == 1 ? readPriv(b, r) : readAuto(b, r);
    CHECK(ok, "the import accepted bytes that do not encode such a key: %s", hex(b, 4000).c_str()); if (r.priv) cls("accepted private");
    // use, export and destroy it
    RsaKey x; bool gotPriv = false; Bytes e = exportKey(key, false, "accepted key"); CHECK(readAuto(e, x), "the export of an accepted key is unreadable: %s", hex(e, 4000).c_str()); sameComp(x, r, 2, "accepted key");
    if (r.priv) { e = exportKey(key, true, "accepted key"); CHECK(readAuto(e, x) && x.priv, "the private export of an accepted key is unreadable: %s", hex(e, 4000).c_str()); sameComp(x, r, 8, "accepted key"); gotPriv = true; }
    Z n = absZ(r.n); Z m = n > Z(1) ? genMsg(s, n) : Z(0); Z c = apply(0, key, m, n, &rc, s); if (rc == 0 && !r.e.neg() && !r.n.neg() && n > Z(1)) CHECK(c == m.powm(r.e, n), "an accepted key encrypts %s to %s", zs(m), zs(c));
    c = apply(1 + s.below(2), key, m, n, &rc, s); if (!gotPriv) CHECK(rc != 0, "private operation on a public key"); else if (rc == 0 && !r.d.neg() && !r.n.neg() && n > Z(1)) CHECK(c == m.powm(r.d, n), "an accepted key decrypts %s to %s", zs(m), zs(c));
    { N a(m), d(m); RaRsaVerify(key, a, d); } RaRsaVerifyKey(key); RaRsaKeyBitLength(key); RaRsaDestroyKeyPair(key); lk.done("import, use and destruction");
}
PROP(C28, truncations, 1, "*", "every prefix of a key") {
    RsaKey k = s.below(2) ? anyKey(s, 2) : validKey(s, 40); int form = s.below(4); Forms f; f.f = [&]() { return s.below(4) ? 0 : (int)s.below(6); }; Bytes b = form == 0 ? derPub(k, f) : form == 1 ? derPriv(k, f) : form == 2 ? derSpki(k, f) : derPkcs8(k, f); NOTE("all prefixes of %s", hex(b, 2000).c_str()); nontrivial();
    for (size_t n = 0; n < b.size(); n++) { Bytes c(b.begin(), b.begin() + n); LeakCheck lk; int rc; Key *key = importBytes(c, form == 0 ? 0 : form == 1 ? 1 : 2, &rc); CHECK(!key, "a key cut to %zu of %zu bytes was accepted", n, b.size()); lk.done("failed import"); }
}

// ---- C29 -----------------------------------------------------------------------
PROP(C29, wellformed, 1, "*", "a component above 64 bits or a long-form length") {
    bool vk = !strcmp(flavour(), "vk"); RsaKey k; bool huge = s.below(40) == 0;
    if (vk || s.below(3) == 0) k = validKey(s, thorough() ? 300 : 130); else k = anyKey(s, huge ? 600 : s.below(3) ? 6 : 40);
    int form = s.below(4); bool bnd = false;
    if (!vk && s.below(5) == 0) { fitBoundary(s, k, form == 0 || form == 2 ? 2 : 8, s.below(40) == 0); bnd = true; }
    else if (!vk && s.below(200) == 0) { int c = s.below(3); Bytes g = s.rnd((s.below(3) ? 8150 : s.below(3) ? 4 * 8150 : 65500) + s.below(100)); g[0] |= 1; g.back() |= 1; k.comp(c) = Z::be(g); huge = true; }
    int lf = s.below(4); Forms f; if (lf == 1) f.f = [&]() { return (int)s.below(5); }; else if (lf == 2) { int v = s.below(6); f.f = [v]() { return v; }; } else if (lf == 3) f.f = [&]() { return (int)s.below(6); };
    Bytes b = form == 0 ? derPub(k, f) : form == 1 ? derPriv(k, f) : form == 2 ? derSpki(k, f) : derPkcs8(k, f);
    noteKey(k, form == 0 || form == 2 ? 2 : 8); NOTE("form %d lengths %d: %s", form, lf, hex(b, 1000).c_str()); bool big = lf != 0; for (int i = 0; i < 8; i++) big |= k.comp(i).bits() > 64; if (big) nontrivial();
    cls(form == 0 ? "PKCS#1 public" : form == 1 ? "PKCS#1 private" : form == 2 ? "SubjectPublicKeyInfo" : "PKCS#8"); cls(lf == 0 ? "DER lengths" : "other legal lengths"); if (huge) cls("huge components"); if (bnd) cls("length at an encoding boundary");
    LeakCheck lk; int rc; Key *key = importBytes(b, form >= 2 ? 2 : form, &rc); CHECK(key, "a well-formed key was refused (%d)", rc);
    bool priv = form == 1 || form == 3; RsaKey x; Bytes e = exportKey(key, priv, "imported key"); CHECK(readAuto(e, x) && x.priv == priv, "the export of an imported key is unreadable"); sameComp(x, k, priv ? 8 : 2, "imported key");
    CHECK(RaRsaKeyBitLength(key) == k.n.bits(), "bit length %d, expected %d", RaRsaKeyBitLength(key), k.n.bits());
    if (k.n.bits() < 1500 && k.e.bits() < 3000) { Z m = genMsg(s, k.n), c = apply(0, key, m, k.n, &rc, s); CHECK(rc == 0 && c == m.powm(k.e, k.n), "encryption with the imported key is wrong"); }
    if (priv && k.n.bits() < 1500 && k.d.bits() < 3000) { Z m = genMsg(s, k.n), c = apply(1, key, m, k.n, &rc, s); CHECK(rc == 0 && c == m.powm(k.d, k.n), "decryption with the imported key is wrong"); }
    RaRsaDestroyKeyPair(key); lk.done("import");
}

// ---- C30 -----------------------------------------------------------------------
static bool consistent(const RsaKey &k) {
    if (!(k.p.prime() && k.q.prime()) || k.p == k.q || k.p * k.q != k.n) return false;
    Z p1 = k.p - Z(1), q1 = k.q - Z(1);
    if (k.e <= Z(1) || k.e >= k.n || k.d <= Z(0) || k.d >= k.n) return false;
    if ((k.e * k.d).mod(p1) != Z(1).mod(p1) || (k.e * k.d).mod(q1) != Z(1).mod(q1)) return false;
    return k.dp == k.d % p1 && k.dq == k.d % q1 && !k.qi.neg() && k.qi < k.p && (k.qi * k.q).mod(k.p) == Z(1);
}
static int verifyOf(const RsaKey &k, bool *imported) { int rc; Key *key = importBytes(derPkcs8(k), 2, &rc); *imported = key != NULL; if (!key) return rc; LeakCheck lk; rc = RaRsaVerifyKey(key); lk.done("RaRsaVerifyKey"); Bytes e = exportKey(key, true, "checked key"); CHECK(e == derPkcs8(k), "RaRsaVerifyKey changed the key"); RaRsaDestroyKeyPair(key); return rc; }
PROP(C30, valid_accepted, 2, "*", "valid key of more than 64 bits") {
    caseCpuLimit(300); RsaKey k = validKey(s, thorough() ? 300 : 140); entropySeed(s.raw(3)); noteKey(k, 8); if (k.n.bits() > 64) nontrivial(); LeakCheck lk; bool im; CHECK(consistent(k), "harness: inconsistent key");
    int rc = verifyOf(k, &im); CHECK(im, "a valid key was not imported (%d)", rc); CHECK(rc == 0, "a valid key is rejected (%d)", rc); lk.done("key verification");
    if (s.below(4) == 0) { int r2; Key *key = importBytes(derSpki(k), 2, &r2); CHECK(key, "import"); CHECK(RaRsaVerifyKey(key) == 0, "a valid public key is rejected"); RaRsaDestroyKeyPair(key); }
}
PROP(C30, altered_rejected, 4, "*", "altered key was importable and checked") {
    caseCpuLimit(300); RsaKey k = validKey(s, thorough() ? 200 : 100), o = k; entropySeed(s.raw(3)); const char *how; int c = s.one<int>({0, 2, 3, 4, 5, 6, 7, 2, 3, 4});
    Z p1 = k.p - Z(1), q1 = k.q - Z(1);
    switch (s.below(13)) {
    case 12: { // an exponent that still inverts the other one, below or beyond the modulus
        Z l = p1 * q1, j; if (s.below(2)) { Z g = p1.gcd(q1); l = l / g; } Z &x = s.below(2) ? k.e : k.d; j = s.below(2) ? Z(1) : (k.n - x) / l + Z((long)s.below(2)); x = x + j * l; how = "exponent plus a multiple of lcm or phi"; break; }
    case 0: { Z &z = k.comp(c); int b = s.below(z.bits() + 3); if (BN_is_bit_set(z.b, b)) BN_clear_bit(z.b, b); else BN_set_bit(z.b, b); how = "bit flipped"; break; }
    case 1: k.comp(c) = k.comp(c) + Z(s.below(2) ? 1 : -1); how = "off by one"; break;
    case 2: k.comp(c) = Z((long)s.below(4)); how = "tiny"; break;
    case 3: std::swap(k.p, k.q); how = "primes swapped"; break;
    case 4: std::swap(k.dp, k.dq); how = "CRT exponents swapped"; break;
    case 5: { int j = s.below(8); std::swap(k.comp(c), k.comp(j)); how = "two components swapped"; break; }
    case 6: { // one factor composite, everything else computed accordingly
        Z f = primeOf(s, 10 + s.below(40)), g = primeOf(s, 10 + s.below(40)); if (f == k.q || g == k.q) throw Discard(); (s.below(2) ? k.p : k.q) = f * g; Z pp = k.p - Z(1), qq = k.q - Z(1); k.e = Z(3); Z m = pp * qq; while (k.e.gcd(m) != Z(1)) k.e = k.e + Z(2); if (!finish(k, s.below(2))) throw Discard(); how = "composite factor"; break; }
    case 7: { k.comp(c) = -k.comp(c); how = "negated"; break; }
    case 8: { // multiple of the modulus of that component added
        switch (s.below(5)) { case 0: k.dp = k.dp + p1; break; case 1: k.dq = k.dq + q1; break; case 2: k.qi = k.qi + k.p; break; case 3: k.dp = k.dp - p1; break; default: k.qi = k.qi - k.p; } how = "unreduced CRT component"; break; }
    case 9: { Z f = primeOf(s, o.p.bits()); if (f == k.p) throw Discard(); (s.below(2) ? k.p : k.q) = f; if (s.below(2)) k.n = k.p * k.q; how = "another prime"; break; }
    case 10: { k.q = k.p; k.n = k.p * k.p; k.dq = k.dp; k.d = k.dp; if (s.below(2)) k.qi = Z(0); how = "equal primes"; break; }
    default: { Z &z = k.comp(c); z = Z::be(s.rnd((z.bits() + 7) / 8 ? (z.bits() + 7) / 8 : 1)); how = "random value"; } }
    if (k.n.zero()) throw Discard();
    noteKey(k, 8); NOTE("%s (%s)", how, COMP[c]); bool good = consistent(k); LeakCheck lk; bool im; int rc = verifyOf(k, &im);
    if (!im) { cls("not importable"); CHECK(!good, "a consistent key was refused by the import (%d)", rc); lk.done("key verification"); return; }
    nontrivial(); cls(how);
    if (good) CHECK(rc == 0, "a consistent key is rejected (%d)", rc);
    else if (rc == 0) { int acc = 1; for (int i = 0; i < 30; i++) acc += verifyOf(k, &im) == 0; CHECK(acc < 6, "an inconsistent key (%s, %s) passes the key verification", how, COMP[c]); }
    lk.done("key verification");
}

// ---- C39 -----------------------------------------------------------------------
extern "C" { void entropyFlip(long); uint64_t entropyUsed(); }
// one call that is not given a generator; its result, or for a key its two primes
static const char *const FRESH[] = {"RaRandomCreate", "BnGenRandom", "BnGetRandomOdd", "BnGetRandomRSA", "BnGenRandomByteArray", "RaGenPrimeNumber", "RaGenPrimeNumberEx", "RaRsaCreateKeyPair"};
static std::vector<Bytes> fresh(int kind, int size, int extra) {
    static const enum RaRandomAlgorithm A[] = {RA_RAND_MD5, RA_RAND_SHA160, RA_RAND_SHA256, RA_RAND_SHA512}; auto be = [](const Z &z) { return z.bytes(); };
    switch (kind) {
    case 0: { struct RaRandom *r; CHECK(RaRandomCreate(A[extra & 3], NULL, extra >> 2, &r) == RA_ERR_SUCCESS, "RaRandomCreate without a seed failed"); Bytes b(16); RaRandomBytes(r, 16, b.data()); RaRandomDestroy(r); return {b}; }
    case 4: { Bytes b(16 + size % 50, (uint8_t)extra); CHECK(BnGenRandomByteArray(b.data(), (int)b.size(), NULL) == RA_ERR_SUCCESS, "BnGenRandomByteArray failed"); b.resize(16); return {b}; }
    case 7: { Key *k = NULL; int rc = RaRsaCreateKeyPair(size * 2, &k); CHECK(rc == RA_ERR_SUCCESS && k, "RaRsaCreateKeyPair(%d) returned %d", size * 2, rc); Bytes b = exportKey(k, true, "generated key"); RsaKey r; CHECK(readAuto(b, r) && r.priv, "the exported key is not readable"); RaRsaDestroyKeyPair(k); return {be(r.p), be(r.q)}; }
    default: { W bn((size + WBITS - 1) / WBITS + extra % 3); bn.set(Z(extra % 7)); int rc = kind == 1 ? BnGenRandom(bn, size, NULL) : kind == 2 ? BnGetRandomOdd(bn, size, NULL) : kind == 3 ? BnGetRandomRSA(bn, size, NULL) : kind == 5 ? RaGenPrimeNumber(bn, size) : RaGenPrimeNumberEx(bn, size, NULL, NULL, NULL); CHECK(rc == RA_ERR_SUCCESS, "%s(%d bits) returned %d", FRESH[kind], size, rc); return {be(val(bn))}; }
    }
}
static int freshSize(Src &s, int kind) { return kind == 7 ? 64 + s.below(thorough() ? 60 : 16) : kind >= 5 ? 72 + s.below(thorough() ? 100 : 30) : 96 + s.below(400); }
// the same destination and the same clock throughout: only the system's entropy can make the results differ
PROP(C39, repeated, 3, "*", "two or more results compared") {
    entropySeed(s.raw(4)); int k = 2 + s.below(4), same = (int)s.below(9), extra = s.below(64), size = freshSize(s, same == 8 ? 7 : same); caseCpuLimit(60); nontrivial(); std::set<Bytes> seen; std::string what; LeakCheck lk;
    for (int i = 0; i < k; i++) { int kind = same < 8 ? same : (int)s.below(8); uint64_t used = entropyUsed(); int sz = same < 8 ? size : freshSize(s, kind); NOTE("%s size %d", FRESH[kind], sz); cls(FRESH[kind]);
        for (auto &b : fresh(kind, sz, extra)) { CHECK(b.size() >= 4, "%s drew only %s", FRESH[kind], hex(b).c_str()); CHECK(seen.insert(b).second, "%s, call %d: the result %s was drawn before", FRESH[kind], i + 1, hex(b).c_str()); }
        CHECK(entropyUsed() - used >= 16, "%s took %d bytes of the system's entropy", FRESH[kind], (int)(entropyUsed() - used)); }
    lk.done("unseeded calls");
}
PROP(C39, every_bit_counts, 3, "*", "an entropy bit was inverted") {
    uint64_t seed = s.raw(4); int kind = (int)s.below(8), size = freshSize(s, kind), extra = s.below(64); caseCpuLimit(60); LeakCheck lk; cls(FRESH[kind]);
    entropySeed(seed); auto a = fresh(kind, size, extra); long used = (long)entropyUsed(); CHECK(used >= 16, "%s took %ld bytes of the system's entropy", FRESH[kind], used);
    for (int i = 0, n = 1 + s.below(3); i < n; i++) { long bit = s.below(5) == 0 ? s.one<long>({0, 7, used * 8 - 1, used * 8 - 8, used * 4, used * 4 - 1}) : (long)s.below(used * 8); entropySeed(seed); entropyFlip(bit); NOTE("%s size %d, entropy bit %ld of %ld inverted", FRESH[kind], size, bit, used * 8); auto b = fresh(kind, size, extra); nontrivial();
        for (size_t j = 0; j < a.size() && j < b.size(); j++) CHECK(a[j] != b[j], "%s: inverting bit %ld of the %ld bits of entropy left the result at %s", FRESH[kind], bit, used * 8, hex(a[j]).c_str()); }
    entropySeed(seed); lk.done("unseeded calls");
}
