#include "dgst.h"
#include <sys/mman.h>
#include <unistd.h>

static void digestOf(int a, int how, const uint8_t *d, size_t n, uint8_t *out) {
    if (how == 0 && dOneShot(a, d, (int)n, out)) return;
    if (how == 1) { void *c = NULL; int r = dCreate(a, &c); CHECK(r == RA_ERR_SUCCESS && c, "%s context creation returned %d", dname[a], r); dUpdate(a, c, d, (int)n); dFinal(a, c, out); dDestroy(a, c); return; }
    DU u; uint64_t g = sideRandom(); for (size_t i = 0; i < sizeof u; i++) ((uint8_t *)&u)[i] = (uint8_t)(g >> (i & 7) * 8) + i;
    dirtyStack(); dInit(a, &u, how == 2); dUpdate(a, &u, d, (int)n, how == 2); dFinal(a, &u, out, how == 2);
}
PROP(C01, message, 6, "*", "one message (0..70000 bytes around block and padding boundaries, structured or random content, any alignment) under one of 11 hashes via one of the entry points; non-trivial when the message does not fit one padded block or is within 20 bytes of a block boundary") {
    int a = s.below(NALG), how = s.below(4); size_t n = s.len(thorough() && s.below(50) == 0 ? 400000 : (a == D_MD2 ? 3000 : 9000), dblk[a]); bool big = false; if (a != D_MD2) { int z = (int)s.below(300); if (z >= 295) n = 60000 + s.below(10000); else if (z == 294 && s.below(8) == 7) { n = (1 << 20) + s.below(1 << 21); big = true; cls("above 1 MiB"); } }
    Bytes m = big ? s.rnd(n) : s.bytes(n); size_t al = s.below(17); Guard in(m, al), out(dlen[a], s.below(8)); NOTE("%s via %d, %zu bytes at alignment %zu: %s", dname[a], how, n, al, hex(m, 40).c_str());
    LeakCheck lc;
    digestOf(a, how, in.p, n, out.p);
    Bytes want = refDigest(a, m.data(), n);
    CHECK(out.get(dlen[a]) == want, "%s of %zu bytes %s: got %s, expected %s", dname[a], n, hex(m, 40).c_str(), hex(out.p, dlen[a], 64).c_str(), hex(want, 64).c_str());
    out.check("digest output"); CHECK(in.get(n) == m, "%s modified its input", dname[a]); in.check("digest input"); lc.done("digest");
    size_t r = n % dblk[a]; if (n >= (size_t)dblk[a] - 17 || r < 20) nontrivial(); cls(dname[a]);
}
PROP(C01, lengths, 1, "*", "every length from 0 to three blocks and a bit of one random message, one hash; always non-trivial") {
    int a = s.below(NALG); Bytes m = s.rnd(3 * dblk[a] + 9); int how = s.below(4); NOTE("%s all lengths 0..%zu via %d", dname[a], m.size(), how);
    for (size_t n = 0; n <= m.size(); n++) {
        Guard in(m.data() ? Bytes(m.begin(), m.begin() + n) : Bytes(), n & 7), out(dlen[a]);
        digestOf(a, how, in.p, n, out.p); Bytes want = refDigest(a, m.data(), n);
        CHECK(out.get(dlen[a]) == want, "%s of %zu bytes %s: got %s, expected %s", dname[a], n, hex(m.data(), n, 64).c_str(), hex(out.p, dlen[a], 64).c_str(), hex(want, 64).c_str()); out.check("digest output");
    }
    nontrivial(); cls("all lengths");
}
PROP(C01, words, 1, "*", "single- and two-block messages whose 32/64-bit words are carry and sign boundary values; always non-trivial") {
    int a = s.below(NALG); Bytes m; int k = 1 + s.below(2 * dblk[a] / 8 + 2); for (int i = 0; i < k; i++) { uint64_t w = s.word(64); for (int j = 0; j < 8; j++) m.push_back((uint8_t)(w >> (8 * (s.pos & 1 ? j : 7 - j)))); }
    NOTE("%s words %s", dname[a], hex(m, 80).c_str()); Guard in(m), out(dlen[a]); digestOf(a, s.below(4), in.p, m.size(), out.p); Bytes want = refDigest(a, m.data(), m.size());
    CHECK(out.get(dlen[a]) == want, "%s of %s: got %s, expected %s", dname[a], hex(m, 300).c_str(), hex(out.p, dlen[a], 64).c_str(), hex(want, 64).c_str()); nontrivial(); cls("boundary words");
}

// ---- C02 ---------------------------------------------------------------------------
PROP(C02, pieces, 1, "*", "1..4 contexts over any hashes, an interleaved history of init, re-init (also to another SHA-2 variant), updates of any piece sizes including empty, final, copying one context over another and digest comparison; non-trivial when a message is cut inside a block and at least two pieces are non-empty") {
    int nc = 1 + s.below(4); struct C { int a; void *p; DU *u; bool heap, alt, open; Bytes m; int pieces; bool cut; }; std::vector<C> v(nc); LeakCheck lc; bool nt = false;
    std::vector<DU> st(nc); for (auto &u : st) { uint64_t g = sideRandom(); for (size_t i = 0; i < sizeof u; i++) ((uint8_t *)&u)[i] = (uint8_t)(g >> (i & 7) * 8); }
    for (int i = 0; i < nc; i++) {
        C &c = v[i]; c.a = s.below(NALG); c.heap = s.below(2); c.alt = s.below(2) && (c.a == D_256 || c.a == D_512); c.open = true; c.pieces = 0; c.cut = false; c.u = &st[i];
        if (c.heap) { CHECK(dCreate(c.a, &c.p) == RA_ERR_SUCCESS, "%s create failed", dname[c.a]); } else { c.p = c.u; dirtyStack(); dInit(c.a, c.p, c.alt); }
        NOTE("ctx%d=%s%s", i, dname[c.a], c.heap ? "(heap)" : "");
    }
    auto finish = [&](int i) {
        C &c = v[i]; Guard out(dlen[c.a], s.below(4)); dFinal(c.a, c.p, out.p, c.alt); Bytes want = refDigest(c.a, c.m.data(), c.m.size());
        CHECK(out.get(dlen[c.a]) == want, "%s fed in %d pieces (%zu bytes): got %s, expected %s", dname[c.a], c.pieces, c.m.size(), hex(out.p, dlen[c.a], 64).c_str(), hex(want, 64).c_str());
        out.check("digest output"); c.open = false; NOTE("ctx%d final", i); if (c.cut && c.pieces >= 2) nt = true; cls(dname[c.a]);
    };
    int steps = 2 + s.below(30);
    for (int k = 0; k < steps; k++) {
        int i = s.below(nc), op = s.below(12); C &c = v[i];
        if (op == 0 || !c.open) { if (op == 1 && isSha2(c.a)) { c.a = D_224 + s.below(6); c.alt = false; } dInit(c.a, c.p, c.alt); c.m.clear(); c.pieces = 0; c.cut = false; c.open = true; NOTE("ctx%d init %s", i, dname[c.a]); continue; }
        if (op == 1) { finish(i); continue; }
        if (op == 2 && !c.heap) { int j = s.below(nc); C &t = v[j]; if (j != i && !t.heap) { *t.u = *c.u; t.a = c.a; t.alt = c.alt; t.open = true; t.m = c.m; t.pieces = c.pieces; t.cut = c.cut; NOTE("ctx%d=copy of ctx%d", j, i); cls("copied context"); continue; } }
        size_t n; int b = dblk[c.a]; switch (s.below(9)) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = b; break; case 3: n = b - c.m.size() % b; break; case 4: n = b - c.m.size() % b - 1; break; case 5: n = b - c.m.size() % b + 1; break; case 6: n = s.below(5 * b); break; default: n = s.below(b); }
        if (c.m.size() + n > 20000) continue;
        Bytes d = s.bytes(n); Guard in(d, s.below(9)); bool nul = n == 0 && s.below(2); dUpdate(c.a, c.p, nul ? NULL : in.p, (int)n, c.alt || (isSha2(c.a) && s.below(3) == 0));
        CHECK(in.get(n) == d, "%s update modified its input", dname[c.a]); c.m.insert(c.m.end(), d.begin(), d.end()); if (n) c.pieces++; if (c.m.size() % b) c.cut = true; NOTE("ctx%d +%zu", i, n);
    }
    for (int i = 0; i < nc; i++) { if (v[i].open) finish(i); if (v[i].heap) dDestroy(v[i].a, v[i].p); }
    lc.done("digest contexts"); if (nt) nontrivial();
}
PROP(C02, split, 1, "*", "one message of up to five blocks fed as every two-piece split, one hash; always non-trivial") {
    int a = s.below(NALG); size_t n = s.below(a == D_MD2 ? 60 : 2 * dblk[a] + 60); Bytes m = s.bytes(n), want = refDigest(a, m.data(), n); DU u; NOTE("%s every split of %zu bytes", dname[a], n);
    for (size_t i = 0; i <= n; i++) { uint8_t o[64]; dInit(a, &u); dUpdate(a, &u, m.data(), i); dUpdate(a, &u, m.data() + i, n - i); dFinal(a, &u, o); CHECK(!memcmp(o, want.data(), dlen[a]), "%s of %zu bytes split at %zu: got %s, expected %s", dname[a], n, i, hex(o, dlen[a], 64).c_str(), hex(want, 64).c_str()); }
    nontrivial(); cls("every split");
}

// ---- C03 ---------------------------------------------------------------------------
static uint8_t *bigMap(const Bytes &pat, size_t total) {   // `total` bytes of address space showing pat over and over
    int fd = memfd_create("big", 0); CHECK(fd >= 0 && ftruncate(fd, pat.size()) == 0 && pwrite(fd, pat.data(), pat.size(), 0) == (ssize_t)pat.size(), "harness: memfd");
    uint8_t *p = (uint8_t *)mmap(NULL, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); CHECK(p != MAP_FAILED, "harness: mmap");
    for (size_t o = 0; o < total; o += pat.size()) CHECK(mmap(p + o, pat.size(), PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED, "harness: mmap");
    close(fd); return p;
}
// first byte: hash; second: length class
PROP(C03, long, 1, "*", "one hash, a message whose length lies just below, at or beyond 2^29 or 2^32 bytes, cut into random updates of 1 byte to nearly 2^31 bytes; non-trivial when the length passes 2^29 bytes") {
    int a = s.u8() % NALG, klass = s.u8() % 6;    // 0: 2^29, 1: 2^32, 2: in between, 3: twice round, 4: 2^31 (bit 31 of the count), 5: random with bit 31 of the count set
    uint64_t base = klass == 0 ? 1ull << 29 : klass == 1 ? 1ull << 32 : klass == 2 ? (1ull << 29) + s.below(3ull << 29) : klass == 3 ? (1ull << 33) : klass == 4 ? (1ull << 31) : (1ull << 31) + s.below(1ull << 31);
    if (a == D_MD2 && !thorough()) base = 1ull << 25;
    uint64_t total = base + s.one<int>({0, 1, 300, 55, 56, 63, 64, 111, 112, 119, 120, 127, 128, 200}) ; bool huge = s.below(2);
    caseCpuLimit(850);
    static const size_t PS = 1 << 20, SPAN = 1ull << 31; Bytes pat = s.rnd(PS); uint8_t *p = bigMap(pat, SPAN); DU u; dInit(a, &u); RefBase *r = refNew(a); uint64_t done = 0; int pieces = 0;
    NOTE("%s length %llu (2^%d class)", dname[a], (unsigned long long)total, klass == 1 ? 32 : klass == 3 ? 33 : klass >= 4 ? 31 : 29);
    while (done < total) {
        uint64_t left = total - done, n; size_t off = done % PS;                      // keep the message a pure repetition of pat
        switch (pieces < 40 ? s.below(huge ? 5 : 4) : 3) { case 0: n = 1 + s.below(300); break; case 1: n = 1 + s.below(1 << 16); break; case 2: n = 64 * (1 + s.below(1 << 10)); break; case 3: n = (64 << 20) + s.below(1 << 12); break; default: n = 0x7fffffffull - s.below(130); }
        if (n > left) n = left; if (off + n > SPAN) n = SPAN - off;
        dUpdate(a, &u, p + off, (int)n); r->update(p + off, n); done += n; pieces++;
    }
    Guard out(dlen[a]); dFinal(a, &u, out.p); uint8_t w[64]; r->fin(w); delete r; munmap(p, SPAN);
    CHECK(!memcmp(out.p, w, dlen[a]), "%s of a %llu byte message in %d updates: got %s, expected %s", dname[a], (unsigned long long)total, pieces, hex(out.p, dlen[a], 64).c_str(), hex(w, dlen[a], 64).c_str());
    out.check("digest output"); if (total >= 1ull << 29) nontrivial(); cls(dname[a]); cls(klass == 1 ? "about 2^32" : klass == 3 ? "about 2^33" : klass >= 4 ? "2^31 to 2^32" : "2^29 and more"); if (huge) cls("updates near 2^31 bytes");
}
