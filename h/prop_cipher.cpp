// C04..C09: block ciphers, modes, streaming, padding, context history, RC4.
#include "ciph.h"
#include <memory>

static void cmp(const uint8_t *got, const Bytes &want, const char *what, int c, int mode) {
    for (size_t i = 0; i < want.size(); i++) CHECK(got[i] == want[i], "%s %s %s: byte %zu is %02x, expected %02x", cname[c], mname[mode], what, i, got[i], want[i]);
}
// message of len bytes: mostly drawn small, long ones random
static Bytes genMsg(Src &s, size_t max, int B) { size_t n = s.len(max, B); return s.bytes(n); }

PROP(C04, block, 4, "*", "at least one whole block encrypted and decrypted; a case is a distinct (cipher, key, blocks, alignment)") {
    int c = genCipher(s), B = cblk[c]; Bytes key = genKey(s, c); size_t nb = 1 + s.below(5); if (s.below(300) == 299) nb = 6 + s.below(600); Bytes m = nb > 5 ? s.rnd(nb * B) : s.bytes(nb * B);
    NOTE("%s key(%zu)=%s blocks=%s", cname[c], key.size(), hex(key, 80).c_str(), hex(m).c_str()); cls(cname[c]);
    LeakCheck lk; {
    size_t al = s.below(5), al2 = s.below(5), al3 = s.below(5);
    Guard gk(key, al), in(m, al2), out(m.size(), al3), back(m.size(), al2);
    RefBlock r(c, key, true); Bytes iv(B), want = refMode(r, 0, false, iv, m.data(), m.size());
    Lib L(c, gk.p, (int)key.size(), 0);
    int n = L.enc(in.p, (int)m.size(), out.p); CHECK(n == (int)m.size(), "%s ECB encrypt of %zu bytes returned %d", cname[c], m.size(), n);
    cmp(out.p, want, "encryption", c, 0);
    n = L.dec(out.p, (int)m.size(), back.p); CHECK(n == (int)m.size(), "%s ECB decrypt of %zu bytes returned %d", cname[c], m.size(), n);
    cmp(back.p, m, "decryption of the encryption", c, 0);
    // decryption of arbitrary blocks, not only of ciphertext
    Bytes wd = refMode(r, 0, true, iv, m.data(), m.size()); L.dec(in.p, (int)m.size(), back.p); cmp(back.p, wd, "decryption", c, 0);
    CHECK(!memcmp(gk.p, key.data(), key.size()), "%s: the key was modified", cname[c]); CHECK(!memcmp(in.p, m.data(), m.size()), "%s: the input was modified", cname[c]);
    gk.check("key"); in.check("input"); out.check("output"); back.check("output"); }
    lk.done("cipher context"); nontrivial();
}
PROP(C04, keybits, 1, "*", "two keys differing in one bit compared block by block with the reference") {
    int c = genCipher(s), B = cblk[c]; Bytes key = genKey(s, c); Bytes m = s.bytes(B);
    size_t bit = s.below(key.size() * 8); Bytes k2 = key; k2[bit / 8] ^= 1 << (bit % 8);
    NOTE("%s key=%s bit %zu", cname[c], hex(key, 80).c_str(), bit); cls(cname[c]);
    for (const Bytes *k : {&key, &k2}) { RefBlock r(c, *k, true); uint8_t w[16], g[16], h[16]; Lib L(c, k->data(), (int)k->size(), 0); r.enc(m.data(), w); L.enc(m.data(), B, g); cmp(g, Bytes(w, w + B), "encryption", c, 0); L.dec(g, B, h); cmp(h, m, "round trip", c, 0); }
    nontrivial();
}
PROP(C04, nokey, 1, "*", "a Blowfish context made without a key compared with the one of a zero byte") {
    bool init = s.below(2), null = s.below(2); int len = s.below(2) ? 0 : -(int)s.below(1000); if (null && s.below(2)) len = (int)s.below(100); Bytes m = s.bytes(8 * (1 + s.below(4))), k0(1), k1 = genKey(s, C_BF), o(m.size()), w, iv(8); uint8_t junk[4] = {9, 8, 7, 6};
    NOTE("%s with %s, length %d, message %s", init ? "RaBlowfishInit" : "RaBlowfishCreate", null ? "NULL" : "a key", len, hex(m).c_str()); LeakCheck lk; struct RaBlowfishCtx *c = NULL;
    int rc = RaBlowfishCreate(init ? k1.data() : null ? NULL : junk, init ? (int)k1.size() : len, RA_BLOCK_MODE_ECB, &c); CHECK(rc == 0 && c, "RaBlowfishCreate returned %d", rc); if (init) RaBlowfishInit(c, null ? NULL : junk, len, RA_BLOCK_MODE_ECB);
    RefBlock r(C_BF, k0, true); w = refMode(r, 0, false, iv, m.data(), m.size()); int n = RaBlowfishEncrypt(c, m.data(), (int)m.size(), o.data()); CHECK(n == (int)m.size(), "RaBlowfishEncrypt returned %d", n); cmp(o.data(), w, "without a key", C_BF, 0); RaBlowfishDestroy(c); lk.done("context without a key"); nontrivial();
}
PROP(C04, montecarlo, 1, "*", "a chain of 100 dependent encryptions where the output becomes data and key material") {
    int c = genCipher(s), B = cblk[c]; Bytes key = genKey(s, c), m = s.bytes(B); NOTE("%s key=%s", cname[c], hex(key, 80).c_str()); cls(cname[c]);
    int outer = c == C_BF ? 2 : 5;
    Bytes a = m, b = m, key2 = key; std::unique_ptr<Lib> L(new Lib(c, key.data(), (int)key.size(), 0));
    for (int i = 0; i < outer; i++) { RefBlock r(c, key2, true);
        for (int j = 0; j < 20; j++) { uint8_t t[16]; L->enc(a.data(), B, t); memcpy(a.data(), t, B); r.enc(b.data(), t); memcpy(b.data(), t, B); }
        cmp(a.data(), b, "chained encryption", c, 0);
        for (size_t k = 0; k < key2.size(); k++) key2[k] ^= a[k % B]; L->init(c, key2.data(), (int)key2.size(), 0); }
    nontrivial();
}

PROP(C05, modes, 4, "*", "at least two whole blocks in a chaining mode (or one in ECB)") {
    int c = genCipher(s), B = cblk[c], mode = (int)s.below(4); bool dec = s.below(2); Bytes key = genKey(s, c);
    int sz = (int)s.below(2000); bool big = sz >= 1997; size_t nb = big ? (60000 + s.below(sz == 1999 ? 1300000 : 80000)) / B : sz < 200 ? s.below(200) : s.below(9); Bytes m = big ? s.rnd(nb * B) : s.bytes(nb * B), iv = s.bytes(B); if (big) cls("call above 60 kB"); bool setiv = s.chance(7, 8); if (!setiv) iv = Bytes(B);
    NOTE("%s %s %s %zu blocks key=%s iv=%s msg=%s", cname[c], mname[mode], dec ? "decrypt" : "encrypt", nb, hex(key, 80).c_str(), setiv ? hex(iv).c_str() : "default", hex(m).c_str()); cls(cname[c]); cls(mname[mode]);
    LeakCheck lk; {
    RefBlock r(c, key); Bytes v = iv, want = refMode(r, mode, dec, v, m.data(), m.size());
    size_t al = s.below(4); Guard in(m, al), out(m.size(), s.below(4)), gi(iv, s.below(4)), go(B, s.below(4)); Lib L(c, key.data(), (int)key.size(), mode);
    L.getiv(go.p); { Bytes z(B); CHECK(!memcmp(go.p, z.data(), B), "%s: a new context does not start with the zero IV", cname[c]); }
    if (setiv) { L.setiv(gi.p); L.getiv(go.p); CHECK(!memcmp(go.p, iv.data(), B), "%s %s: the IV just set reads back as %s", cname[c], mname[mode], hex(go.p, B).c_str()); }
    int n = dec ? L.dec(in.p, (int)m.size(), out.p) : L.enc(in.p, (int)m.size(), out.p);
    CHECK(n == (int)m.size(), "%s %s: %zu bytes in whole blocks gave %d", cname[c], mname[mode], m.size(), n);
    cmp(out.p, want, dec ? "decryption" : "encryption", c, mode);
    L.getiv(go.p); if (mode != 0) CHECK(!memcmp(go.p, v.data(), B), "%s %s: chaining value read back is %s, expected %s", cname[c], mname[mode], hex(go.p, B).c_str(), hex(v).c_str());
    // a second context continues the message from the IV read back
    Bytes m2 = s.rnd(B * (1 + s.below(3))); Bytes out2(m2.size()), want2 = refMode(r, mode, dec, v, m2.data(), m2.size()); Lib L2(c, key.data(), (int)key.size(), mode); L2.setiv(go.p);
    n = dec ? L2.dec(m2.data(), (int)m2.size(), out2.data()) : L2.enc(m2.data(), (int)m2.size(), out2.data());
    CHECK(n == (int)m2.size(), "%s %s: %zu bytes gave %d", cname[c], mname[mode], m2.size(), n); cmp(out2.data(), want2, "continuation in a second context", c, mode);
    // and the opposite direction undoes it
    Lib L3(c, key.data(), (int)key.size(), mode); if (setiv) L3.setiv(gi.p); Bytes back(m.size());
    n = dec ? L3.enc(out.p, (int)m.size(), back.data()) : L3.dec(out.p, (int)m.size(), back.data()); CHECK(n == (int)m.size(), "inverse returned %d", n); cmp(back.data(), m, "inverse of the operation", c, mode);
    in.check("input"); out.check("output"); gi.check("iv"); go.check("iv buffer"); CHECK(!memcmp(in.p, m.data(), m.size()) && !memcmp(gi.p, iv.data(), B), "input or IV modified"); }
    lk.done("cipher contexts"); if (nb >= 2 || (mode == 0 && nb)) nontrivial();
}
// output written over the input, the way the library's own tests use it
PROP(C05, inplace, 2, "*", "at least two whole blocks processed in place") {
    int c = genCipher(s), B = cblk[c], mode = (int)s.below(4), pad = (int)s.below(3); bool dec = s.below(2), fin = s.below(2); Bytes key = genKey(s, c), iv = s.bytes(B); size_t nb = s.chance(1, 10) ? s.below(100) : s.below(7); if (s.below(1000) == 999) nb = (4000 + s.below(140000)) / B; Bytes m = nb > 100 ? s.rnd(nb * B) : s.bytes(nb * B);
    if (fin && !dec && pad == 2) m.resize(m.size() + s.below(B), 0x11); NOTE("%s %s %s%s %zu bytes in place", cname[c], mname[mode], dec ? "decrypt" : "encrypt", fin ? " final" : "", m.size()); cls(cname[c]); cls(mname[mode]);
    RefBlock r(c, key); Bytes v = iv, data = m; if (fin && !dec && pad == 2) data.resize(m.size() / B * B + B, (uint8_t)(B - m.size() % B));
    Bytes want = refMode(r, mode, dec, v, data.data(), data.size()); Bytes buf = m; buf.resize(data.size(), 0x77); Guard g(buf, s.below(3)); Lib L(c, key.data(), (int)key.size(), mode); L.setiv(iv.data());
    if (dec && fin) pad = (int)s.below(2);   // padding removal is judged by C07
    int n = fin ? (dec ? L.decf(g.p, (int)m.size(), g.p, pad) : L.encf(g.p, (int)m.size(), g.p, pad)) : dec ? L.dec(g.p, (int)m.size(), g.p) : L.enc(g.p, (int)m.size(), g.p);
    CHECK(n == (int)want.size(), "%s %s: %zu bytes in place gave %d, expected %zu", cname[c], mname[mode], m.size(), n, want.size()); cmp(g.p, want, "processing in place", c, mode); g.check("buffer");
    uint8_t w[16]; L.getiv(w); if (mode) CHECK(!memcmp(w, v.data(), B), "%s %s: chaining value after processing in place", cname[c], mname[mode]); if (nb >= 2) nontrivial();
}
// library IV seams: change the IV between pieces, partial data pending is discarded
PROP(C05, ivseam, 2, "*", "at least two segments with an IV set in between, one of them leaving a partial block") {
    int c = genCipher(s), B = cblk[c], mode = (int)s.below(4); bool dec = s.below(2); Bytes key = genKey(s, c); RefBlock r(c, key); Lib L(c, key.data(), (int)key.size(), mode); Bytes v(B); bool partial = false;
    int segs = 2 + (int)s.below(3); NOTE("%s %s %s", cname[c], mname[mode], dec ? "decrypt" : "encrypt"); cls(cname[c]);
    for (int i = 0; i < segs; i++) {
        if (i) { v = s.bytes(B); L.setiv(v.data()); }
        Bytes m = s.bytes(s.below(4 * B + 1)); size_t whole = m.size() / B * B; if (m.size() % B) partial = true; NOTE("segment %zu bytes", m.size());
        Bytes want = refMode(r, mode, dec, v, m.data(), whole); Guard in(m), out(whole);
        int n = dec ? L.dec(in.p, (int)m.size(), out.p) : L.enc(in.p, (int)m.size(), out.p); CHECK(n == (int)whole, "%s %s: %zu bytes after setting the IV gave %d", cname[c], mname[mode], m.size(), n); cmp(out.p, want, "segment after setting the IV", c, mode); out.check("output");
        uint8_t g[16]; L.getiv(g); if (mode) CHECK(!memcmp(g, v.data(), B), "%s %s: chaining value after a segment", cname[c], mname[mode]);
    }
    if (partial) nontrivial();
}

static Bytes padTo(const Bytes &m, int B, int pad) { Bytes p = m; size_t r = m.size() % B;
    if (pad == 0) p.resize(m.size() - r); else if (pad == 1) { if (r) p.resize(m.size() + B - r, 0); } else p.resize(m.size() + B - r, (uint8_t)(B - r)); return p; }
static size_t unpadLen(const Bytes &p, int B, int pad) { if (pad != 2 || p.empty()) return p.size(); uint8_t l = p.back(); if (l < 1 || l > B) return p.size(); for (int i = 0; i < l; i++) if (p[p.size() - 1 - i] != l) return p.size(); return p.size() - l; }

PROP(C06, stream, 4, "*", "at least three calls of which one leaves a partial block") {
    int c = genCipher(s), B = cblk[c], mode = (int)s.below(4), pad = (int)s.below(3); bool dec = s.below(2); Bytes key = genKey(s, c);
    int sz = (int)s.below(2000); bool big = sz >= 1994; Bytes m = big ? s.rnd(66000 + s.below(70000)) : genMsg(s, sz < 100 ? 5000 : 300, B); if (big) cls("above 64 kB"); Bytes iv = s.bytes(B); RefBlock r(c, key); Bytes v = iv;
    if (dec && s.chance(3, 4)) { Bytes pp = padTo(m, B, pad), vv = iv; m = refMode(r, mode, false, vv, pp.data(), pp.size()); }   // real ciphertext most of the time
    Bytes data = dec ? Bytes(m.begin(), m.begin() + m.size() / B * B) : padTo(m, B, pad);
    Bytes want = refMode(r, mode, dec, v, data.data(), data.size());
    NOTE("%s %s %s pad %s %zu bytes", cname[c], mname[mode], dec ? "decrypt" : "encrypt", pname[pad], m.size()); cls(cname[c]); cls(pname[pad]);
    Lib L(c, key.data(), (int)key.size(), mode); L.setiv(iv.data());
    Bytes got; size_t pos = 0, outpos = 0; int calls = 0; bool part = false; uint8_t none;
    // with padding to be removed, the bytes completing the last block go to the finishing call
    size_t limit = m.size(); if (dec && pad == 2) limit = data.size() ? data.size() - 1 : 0;
    int style = (int)s.below(4);
    while (true) {
        bool fin = pos >= limit || s.chance(1, 12) || calls > 300; size_t k;
        if (fin) k = m.size() - pos; else { k = big && s.below(3) == 0 ? (s.below(3) ? s.one<size_t>({65536, 65536, 32768, 16384, 8192, 4096}) + s.below(B) - std::min<size_t>(pos % B, 4096) : s.below(80000)) : s.below(40) == 0 ? s.one<size_t>({256, 512, 1024, 2048, 4096}) + s.below(B) - pos % B : style == 0 ? 1 : style == 1 ? s.below(B + 2) : style == 2 ? s.below(4 * B + 1) : B * s.below(3) + (s.below(3)); if (k > limit - pos) k = limit - pos; }
        size_t fill = pos % B, produced = (fill + k) / B * B, room = produced;
        if (fin && !dec && pad != 0 && ((fill + k) % B || pad == 2)) room += B;
        Bytes piece(m.begin() + pos, m.begin() + pos + k); Guard in(piece, s.below(3)), out(room, s.below(3)); const uint8_t *ip = k || s.below(2) ? in.p : &none;
        int n = fin ? (dec ? L.decf(ip, (int)k, out.p, pad) : L.encf(ip, (int)k, out.p, pad)) : (dec ? L.dec(ip, (int)k, out.p) : L.enc(ip, (int)k, out.p));
        NOTE("%s%zu->%d", fin ? "final " : "", k, n);
        in.check("input"); out.check("output"); CHECK(!memcmp(in.p, piece.data(), k), "%s: the input was modified", cname[c]);
        size_t expect = fin && !dec ? room : produced;
        if (fin && dec && produced) expect = unpadLen(Bytes(want.begin() + outpos, want.end()), B, pad);
        CHECK(n == (int)expect, "%s %s %s: call %d with %zu bytes (%zu pending, padding %s, %s) returned %d, expected %zu", cname[c], mname[mode], dec ? "decrypt" : "encrypt", calls, k, fill, pname[pad], fin ? "finishing" : "piece", n, expect);
        cmp(out.p, Bytes(want.begin() + outpos, want.begin() + outpos + n), dec ? "streamed decryption" : "streamed encryption", c, mode);
        got.insert(got.end(), out.p, out.p + n); outpos += n; pos += k; calls++; if (pos % B && !fin) part = true;
        if (fin) break;
    }
    size_t total = dec ? unpadLen(want, B, pad) : want.size(); CHECK(got.size() == total, "%s %s: streamed total %zu, one call gives %zu", cname[c], mname[mode], got.size(), total);
    // one call
    Lib O(c, key.data(), (int)key.size(), mode); O.setiv(iv.data()); Guard in(m), out(want.size()); int n = dec ? O.decf(in.p, (int)m.size(), out.p, pad) : O.encf(in.p, (int)m.size(), out.p, pad);
    CHECK(n == (int)total, "%s %s one call returned %d, expected %zu", cname[c], mname[mode], n, total); cmp(out.p, got, "one call against the streamed result", c, mode); out.check("output");
    uint8_t a[16], b[16]; L.getiv(a); O.getiv(b); if (mode) CHECK(!memcmp(a, b, B) && !memcmp(a, v.data(), B), "%s %s: chaining value after streaming differs from the one-call value", cname[c], mname[mode]);
    if (calls >= 3 && part) nontrivial();
}
PROP(C06, allsplits, 1, "*", "every cut of a message of up to three blocks into two pieces and a finishing call") {
    int c = genCipher(s), B = cblk[c], mode = (int)s.below(4), pad = (int)s.below(3); Bytes key = genKey(s, c), m = s.bytes(s.below(3 * B + 2)), iv = s.bytes(B); RefBlock r(c, key); Bytes v = iv, pm = padTo(m, B, pad), want = refMode(r, mode, false, v, pm.data(), pm.size());
    NOTE("%s %s pad %s %zu bytes", cname[c], mname[mode], pname[pad], m.size()); cls(cname[c]);
    Lib L(c, key.data(), (int)key.size(), mode), D(c, key.data(), (int)key.size(), mode); size_t n = m.size();
    for (size_t i = 0; i <= n; i++) { size_t j = i + s.below(n - i + 1); Bytes out(want.size() + B); L.setiv(iv.data()); int w = L.enc(m.data(), (int)i, out.data()); CHECK(w == (int)(i / B * B), "first piece %zu gave %d", i, w); int w2 = L.enc(m.data() + i, (int)(j - i), &out[w]); CHECK(w + w2 == (int)(j / B * B), "pieces %zu,%zu gave %d", i, j, w + w2); int w3 = L.encf(m.data() + j, (int)(n - j), &out[w + w2], pad); CHECK(w + w2 + w3 == (int)want.size(), "total %d, expected %zu", w + w2 + w3, want.size()); cmp(out.data(), want, "split encryption", c, mode); }
    Bytes plain = pm; plain.resize(unpadLen(pm, B, pad)); size_t wn = want.size();
    for (size_t i = 0; wn && i < wn; i++) { size_t j = i + s.below(wn - i); Bytes out(wn + B); D.setiv(iv.data()); int w = D.dec(want.data(), (int)i, out.data()); CHECK(w == (int)(i / B * B), "first piece %zu gave %d", i, w); int w2 = D.dec(want.data() + i, (int)(j - i), &out[w]); int w3 = D.decf(want.data() + j, (int)(wn - j), &out[w + w2], pad); CHECK(w + w2 + w3 == (int)plain.size(), "split decryption at %zu,%zu: total %d, expected %zu", i, j, w + w2 + w3, plain.size()); cmp(out.data(), plain, "split decryption", c, mode); }
    if (n > 1) nontrivial();
}

PROP(C07, roundtrip, 3, "*", "any message; classes by length modulo the block") {
    int c = genCipher(s), B = cblk[c], mode = (int)s.below(4), pad = (int)s.below(3); Bytes key = genKey(s, c), iv = s.bytes(B), m = genMsg(s, 400, B); if (s.below(1000) == 999) { m = s.rnd(s.one<size_t>({4096, 32768, 65536, 70000, 131072}) + s.below(40) - 20); cls("message above 4 kB"); }
    if (m.size() && s.chance(1, 3)) { size_t k = s.below(m.size()) + 1; uint8_t x = (uint8_t)s.one<int>({1, 2, 8, 16, B, 0}); for (size_t i = m.size() - k; i < m.size(); i++) m[i] = x; } // looks padded already
    NOTE("%s %s pad %s msg(%zu)=%s", cname[c], mname[mode], pname[pad], m.size(), hex(m).c_str()); cls(pname[pad]); if (m.size() % B == 0) cls("whole blocks");
    Bytes pm = padTo(m, B, pad); RefBlock r(c, key); Bytes v = iv, want = refMode(r, mode, false, v, pm.data(), pm.size());
    Lib L(c, key.data(), (int)key.size(), mode); L.setiv(iv.data()); Guard in(m), ct(pm.size()), pt(pm.size()); int n = L.encf(in.p, (int)m.size(), ct.p, pad);
    CHECK(n == (int)pm.size(), "%s %s: padding %s of %zu bytes gave %d bytes, expected %zu", cname[c], mname[mode], pname[pad], m.size(), n, pm.size()); cmp(ct.p, want, "padded encryption", c, mode);
    L.setiv(iv.data()); n = L.decf(ct.p, n, pt.p, pad); size_t e = pad == 2 ? m.size() : pm.size();
    CHECK(n == (int)e, "%s %s: decryption with padding %s of a %zu byte message returned %d", cname[c], mname[mode], pname[pad], m.size(), n); cmp(pt.p, Bytes(pm.begin(), pm.begin() + e), "padding round trip", c, mode);
    in.check("input"); ct.check("ciphertext"); pt.check("plaintext"); nontrivial();
}
PROP(C07, removal, 3, "*", "decryption of a last block built near a valid padding: right, one byte wrong, length 0 or too large") {
    int c = genCipher(s), B = cblk[c], mode = (int)s.below(4); Bytes key = genKey(s, c), iv = s.bytes(B); size_t nb = 1 + s.below(4); Bytes p = s.rnd(nb * B);
    int pl = (int)s.below(B + 4); int kind = (int)s.below(5); int run = kind == 4 ? (int)s.below(nb * B + 1) : (pl > (int)p.size() ? (int)p.size() : pl);
    for (int i = 0; i < run; i++) p[p.size() - 1 - i] = (uint8_t)pl; if (pl == 0 && kind != 4) p.back() = 0;
    if (kind == 1 && pl > 1) { size_t k = s.below(pl <= B ? pl - 1 : B - 1) + 1; if (k < p.size()) p[p.size() - 1 - k] ^= 1 << s.below(8); }
    if (kind == 2) p.back() = s.u8(); if (kind == 3) p.back() = (uint8_t)s.one<int>({0, 1, B - 1, B, B + 1, 0x80, 0xff, 2 * B});
    size_t want = unpadLen(p, B, 2); NOTE("%s %s tail=%s keep %zu of %zu", cname[c], mname[mode], hex(p.data() + p.size() - B, B).c_str(), want, p.size()); cls(want == p.size() ? "kept" : "removed");
    RefBlock r(c, key); Bytes v = iv, ct = refMode(r, mode, false, v, p.data(), p.size()); Lib L(c, key.data(), (int)key.size(), mode); L.setiv(iv.data()); Guard in(ct), out(p.size());
    size_t extra = s.chance(1, 4) ? s.below(B) : 0; Bytes ct2 = ct; ct2.resize(ct.size() + extra, 0x33); Guard in2(ct2);
    int n = L.decf(in2.p, (int)ct2.size(), out.p, 2); CHECK(n == (int)want, "%s %s: PKCS#7 decryption of %zu bytes ending %s returned %d, expected %zu", cname[c], mname[mode], p.size(), hex(p.data() + p.size() - B, B).c_str(), n, want); cmp(out.p, Bytes(p.begin(), p.begin() + want), "unpadded plaintext", c, mode); out.check("output");
    // the other paddings return everything
    int pad = (int)s.below(2); L.setiv(iv.data()); n = L.decf(in.p, (int)ct.size(), out.p, pad); CHECK(n == (int)p.size(), "decryption with padding %s returned %d of %zu", pname[pad], n, p.size()); cmp(out.p, p, "unpadded decryption", c, mode); nontrivial();
}

// ---- histories ------------------------------------------------------------------------
struct Model { int c, mode; Bytes key, v, buf; std::shared_ptr<RefBlock> r; bool undef = false, undefV = false; int dir = -1; };
static const int famFirst[5] = {C_AES128, C_DES, C_SEED, C_ARIA128, C_BF}, famN[5] = {3, 3, 1, 3, 1};
PROP(C08, history, 1, "*", "at least one re-initialisation or IV change or finishing call happens while partial data is pending or after a finished message, over 1-3 contexts") {
    int nc = 1 + (int)s.below(3); std::vector<Lib> L; std::vector<Model> M; bool interesting = false; bool same = s.chance(1, 3); int c0 = genCipher(s); Bytes key0 = genKey(s, c0);
    LeakCheck lk;
    for (int i = 0; i < nc; i++) { Model m; m.c = same ? c0 : genCipher(s); m.mode = (int)s.below(4); m.key = same ? key0 : genKey(s, m.c); m.v = Bytes(cblk[m.c]); m.r = std::make_shared<RefBlock>(m.c, m.key); L.emplace_back(m.c, m.key.data(), (int)m.key.size(), m.mode); NOTE("ctx%d=%s %s", i, cname[m.c], mname[m.mode]); cls(cname[m.c]); M.push_back(m); }
    int steps = 2 + (int)s.below(25);
    for (int st = 0; st < steps; st++) {
        int i = (int)s.below(nc); Model &m = M[i]; Lib &l = L[i]; int B = cblk[m.c];
        switch (s.pick({2, 2, 1, 9, 4, 1})) {
        case 0: { if (!m.buf.empty() || m.undef) interesting = true; int f = cfam[m.c]; m.c = famFirst[f] + (int)s.below(famN[f]); m.mode = (int)s.below(4); if (s.chance(1, 2) || (int)m.key.size() != ckey[m.c]) m.key = genKey(s, m.c);
            { Bytes tmp = m.key; l.init(m.c, tmp.data(), (int)tmp.size(), m.mode); } m.r = std::make_shared<RefBlock>(m.c, m.key); m.v = Bytes(B); m.buf.clear(); m.undef = m.undefV = false; m.dir = -1; NOTE("init ctx%d %s %s", i, cname[m.c], mname[m.mode]); break; }
        case 1: { if (!m.buf.empty() || m.undef) interesting = true; m.v = s.bytes(B); { Bytes tmp = m.v; l.setiv(tmp.data()); } m.buf.clear(); m.undef = m.undefV = false; m.dir = -1; NOTE("setiv ctx%d", i); break; }
        case 2: { uint8_t g[16]; l.getiv(g); if (!m.undefV && m.mode) CHECK(!memcmp(g, m.v.data(), B), "context %d (%s %s): chaining value %s, expected %s", i, cname[m.c], mname[m.mode], hex(g, B).c_str(), hex(m.v).c_str()); break; }
        case 5: { // replaced by a new context
            m.c = genCipher(s); m.key = genKey(s, m.c); m.mode = (int)s.below(4); m.v = Bytes(cblk[m.c]); m.buf.clear(); m.undef = m.undefV = false; m.dir = -1; m.r = std::make_shared<RefBlock>(m.c, m.key); l = Lib(m.c, m.key.data(), (int)m.key.size(), m.mode); NOTE("new ctx%d %s %s", i, cname[m.c], mname[m.mode]); break; }
        default: { bool fin = s.chance(1, 3); int dir = (int)s.below(2); if (m.dir >= 0 && s.chance(3, 4)) dir = m.dir; int pad = (int)s.below(3); Bytes d = s.bytes(s.below(3 * B + 2)); if (s.below(2500) == 2499) { d = s.rnd(s.one<size_t>({256, 4096, 32768, 65536, 100000}) + s.below(40) - 20); cls("large piece"); }
            if (!m.buf.empty() && m.dir != dir) { m.undef = m.undefV = true; }  // mixing directions inside a block has no meaning: only the next reset is judged
            Bytes all = m.buf; all.insert(all.end(), d.begin(), d.end()); size_t whole = all.size() / B * B; Bytes rest(all.begin() + whole, all.end()); size_t room = whole + (fin && !dir ? B : 0);
            Guard in(d), out(room + (m.undef ? 2 * B : 0)); NOTE("%s%s ctx%d %zu %s", dir ? "dec" : "enc", fin ? "final" : "", i, d.size(), fin ? pname[pad] : "");
            int n = fin ? (dir ? l.decf(in.p, (int)d.size(), out.p, pad) : l.encf(in.p, (int)d.size(), out.p, pad)) : (dir ? l.dec(in.p, (int)d.size(), out.p) : l.enc(in.p, (int)d.size(), out.p));
            out.check("output"); CHECK(!memcmp(in.p, d.data(), d.size()), "input modified");
            if (fin) { if (m.undef) interesting = true; }
            if (m.undef) { if (fin) { m.undef = false; m.buf.clear(); m.dir = -1; } break; } // empty buffer again, chaining value unknown until the next IV
            if (m.undefV && m.mode) { m.buf = fin ? Bytes() : rest; m.dir = m.buf.empty() ? -1 : dir; size_t w = whole; if (fin && !dir && (pad == 2 || (pad == 1 && rest.size()))) w += B; if (!(fin && dir)) CHECK(n == (int)w, "context %d: returned %d, expected %zu", i, n, w); break; }
            if (fin && !dir) { Bytes pm = padTo(all, B, pad); all = pm; whole = pm.size(); }
            Bytes want = refMode(*m.r, m.mode, dir, m.v, all.data(), whole); size_t e = want.size(); if (fin && dir) e = unpadLen(want, B, pad);
            CHECK(n == (int)e, "context %d (%s %s) %s%s of %zu bytes with %zu pending, padding %s: returned %d, expected %zu", i, cname[m.c], mname[m.mode], dir ? "decrypt" : "encrypt", fin ? " final" : "", d.size(), m.buf.size(), pname[pad], n, e);
            cmp(out.p, Bytes(want.begin(), want.begin() + e), "output within a history", m.c, m.mode); if (fin && m.buf.size() + st > 0) interesting = true;
            m.buf = fin ? Bytes() : rest; m.dir = m.buf.empty() ? -1 : dir; } }
    }
    L.clear(); lk.done("contexts"); if (interesting) nontrivial();
}
PROP(C08, twins, 1, "*", "an abused and re-initialised context compared with a new one over the same later calls") {
    int c = genCipher(s), f = cfam[c], B = cblk[c]; Bytes key = genKey(s, c), k1 = genKey(s, c); int mode = (int)s.below(4), c1 = famFirst[f] + (int)s.below(famN[f]); if ((int)k1.size() != ckey[c1]) k1 = genKey(s, c1);
    Lib A(c1, k1.data(), (int)k1.size(), (int)s.below(4)); int abuse = (int)s.below(6); NOTE("%s %s after %d calls with %s", cname[c], mname[mode], abuse, cname[c1]); cls(cname[c]); uint8_t junk[200];
    for (int i = 0; i < abuse; i++) { Bytes d = s.bytes(s.below(70)); switch (s.below(5)) { case 0: A.enc(d.data(), (int)d.size(), junk); break; case 1: A.dec(d.data(), (int)d.size(), junk); break; case 2: A.encf(d.data(), (int)d.size(), junk, (int)s.below(3)); break; case 3: A.decf(d.data(), (int)d.size(), junk, (int)s.below(3)); break; case 4: d.resize(16); A.setiv(d.data()); } }
    A.init(c, key.data(), (int)key.size(), mode); Lib N(c, key.data(), (int)key.size(), mode);
    for (int i = 0; i < 4; i++) { Bytes d = s.bytes(s.below(60)); uint8_t a[100], b[100]; memset(a, 1, 100); memset(b, 1, 100); int x, y, pad = (int)s.below(3); switch (s.below(3)) { case 0: x = A.enc(d.data(), (int)d.size(), a); y = N.enc(d.data(), (int)d.size(), b); break; case 1: x = A.encf(d.data(), (int)d.size(), a, pad); y = N.encf(d.data(), (int)d.size(), b, pad); break; default: x = A.decf(d.data(), (int)d.size(), a, pad); y = N.decf(d.data(), (int)d.size(), b, pad); }
        CHECK(x == y && !memcmp(a, b, 100), "%s %s: a re-initialised context differs from a new one in call %d (%d/%d bytes)", cname[c], mname[mode], i, x, y); uint8_t u[16], w[16]; A.getiv(u); N.getiv(w); CHECK(!memcmp(u, w, B), "%s %s: chaining values of a re-initialised and a new context differ", cname[c], mname[mode]); }
    if (abuse) nontrivial();
}

// ---- RC4 ---------------------------------------------------------------------------------
struct Rc4Ref { RC4_KEY k; Rc4Ref(const Bytes &key) { RC4_set_key(&k, (int)key.size(), key.data()); } void run(const uint8_t *i, size_t n, uint8_t *o) { RC4(&k, n, i, o); } };
PROP(C09, stream, 3, "*", "at least two calls with data between them, over 1-2 contexts") {
    int nc = 1 + (int)s.below(2); struct RaRc4Ctx *x[2] = {0, 0}; std::vector<Rc4Ref> ref; int data = 0; LeakCheck lk;
    auto key = [&](int &kl, const uint8_t *&kp, Bytes &k) { switch (s.below(12)) { case 0: kp = NULL; kl = s.one<int>({0, 5, 16, 256}); k = Bytes(1); break; case 1: k = s.bytes(4); kp = NULL; kl = s.one<int>({0, -1, -256}); static uint8_t any[4] = {1, 2, 3, 4}; kp = any; k = Bytes(1); break;
        default: k = s.bytes(s.chance(1, 3) ? s.one<size_t>({1, 5, 16, 255, 256}) : s.range(1, 256)); kp = NULL; kl = (int)k.size(); } };
    for (int i = 0; i < nc; i++) { int kl; const uint8_t *kp; Bytes k; key(kl, kp, k); std::unique_ptr<Guard> g; if (!kp && kl == (int)k.size() && !(kl == 1 && k[0] == 0)) { g.reset(new Guard(k)); kp = g->p; } NOTE("ctx%d key(%d)=%s", i, kl, kp ? hex(k).c_str() : "NULL"); int rc = RaRc4Create(kp, kl, &x[i]); CHECK(rc == RA_ERR_SUCCESS && x[i], "create failed"); ref.emplace_back(k); }
    int steps = 1 + (int)s.below(12);
    for (int st = 0; st < steps; st++) { int i = (int)s.below(nc);
        if (s.chance(1, 10)) { int kl; const uint8_t *kp; Bytes k; key(kl, kp, k); Guard g(k); if (!kp && kl == (int)k.size()) kp = g.p; RaRc4Init(x[i], kp, kl); ref[i] = Rc4Ref(k); NOTE("init ctx%d key(%d)", i, kl); continue; }
        Bytes d = s.bytes(s.chance(1, 3) ? s.below(1200) : s.below(40)); bool inplace = s.chance(1, 3), dec = s.below(2); Bytes want(d.size()); ref[i].run(d.data(), d.size(), want.data()); Guard in(d, s.below(3)), out(d.size(), s.below(3)); uint8_t *op = inplace ? in.p : out.p;
        int n = dec ? RaRc4Decrypt(x[i], in.p, (int)d.size(), op) : RaRc4Encrypt(x[i], in.p, (int)d.size(), op); NOTE("ctx%d %zu%s", i, d.size(), inplace ? " in place" : "");
        CHECK(n == (int)d.size(), "RC4 of %zu bytes returned %d", d.size(), n); for (size_t j = 0; j < d.size(); j++) CHECK(op[j] == want[j], "RC4 call %d byte %zu is %02x, expected %02x", st, j, op[j], want[j]);
        if (!inplace) CHECK(!memcmp(in.p, d.data(), d.size()), "input modified"); in.check("input"); out.check("output"); if (d.size()) data++; }
    for (int i = 0; i < nc; i++) RaRc4Destroy(x[i]);
    lk.done("RC4 contexts"); if (data >= 2) nontrivial();
}
PROP(C09, longstream, 1, "*", "a stream of at least 64 KiB in irregular pieces") {
    Bytes k = s.bytes(s.range(1, 256)); struct RaRc4Ctx *x; CHECK(RaRc4Create(k.data(), (int)k.size(), &x) == RA_ERR_SUCCESS, "create"); Rc4Ref r(k); size_t tot = 0; Bytes d = s.rnd(9000); int step = 1 + (int)s.below(8999); NOTE("key(%zu) pieces of %d", k.size(), step);
    while (tot < 70000) { size_t n = 1 + (tot * 7 + step) % d.size(); Bytes a(n), b(n); RaRc4Encrypt(x, d.data(), (int)n, a.data()); r.run(d.data(), n, b.data()); CHECK(a == b, "RC4 stream differs from the reference in the piece at offset %zu", tot); tot += n; }
    int b = (int)s.below(40); if (b >= 35) { size_t n = b == 39 ? 1 << 21 : s.one<size_t>({65536, 65537, 65792, 131072, 200001}) + s.below(3) * 65536; Bytes big = s.rnd(n), a(n), w(n); int rc = RaRc4Decrypt(x, big.data(), (int)n, a.data()); r.run(big.data(), n, w.data()); CHECK(rc == (int)n, "RC4 of %zu bytes returned %d", n, rc); for (size_t i = 0; i < n; i++) CHECK(a[i] == w[i], "RC4 call of %zu bytes: byte %zu is %02x, expected %02x", n, i, a[i], w[i]);
        uint8_t e[40], f[40]; memset(e, 0, 40); memset(f, 0, 40); RaRc4Encrypt(x, e, 40, e); r.run(f, 40, f); CHECK(!memcmp(e, f, 40), "RC4 keystream after a call of %zu bytes", n); cls("call above 64 kB"); }
    RaRc4Destroy(x); nontrivial();
}
