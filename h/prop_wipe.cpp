// C34 destroyed objects leave no secrets behind: the same history is run with two different secrets; what
// the destroying call hands back to the allocator must not tell them apart.
#include "scn.h"
extern "C" void entropySeed(uint64_t);
static std::vector<Bytes> freed; static bool rec;
static void hook(void *p, size_t n) { if (rec) freed.push_back(Bytes((uint8_t *)p, (uint8_t *)p + n)); }
struct Obj { std::function<void()> destroy; std::vector<std::pair<void *, size_t>> live; };
static int diffIn(const Bytes &a, const Bytes &b, size_t o) { int d = 0; for (size_t i = o; i < o + 8 && i < a.size(); i++) d += a[i] != b[i]; return d; }
// make(which) builds and uses the object with secret number `which`; peek returns bytes that hold the secret before destruction
static void compare(Src &s, const char *what, std::function<Obj(int)> make) {
    std::vector<Bytes> f[2]; std::vector<Bytes> pre[2]; LeakCheck lk;
    for (int w = 0; w < 2; w++) {
        g_alloc_calls = 0; g_fill = 0xA5; long before = g_live_allocs; Obj o = make(w); for (auto &l : o.live) pre[w].push_back(Bytes((uint8_t *)l.first, (uint8_t *)l.first + l.second));
        freed.clear(); g_free_hook = hook; rec = true; o.destroy(); rec = false; g_free_hook = NULL; f[w] = freed; CHECK(g_live_allocs == before, "%s: destroying it left %ld allocation(s)", what, g_live_allocs - before); g_fill = -1;
    }
    bool secret = false; for (size_t i = 0; i < pre[0].size() && i < pre[1].size(); i++) for (size_t j = 0; j + 8 <= pre[0][i].size(); j += 8) if (diffIn(pre[0][i], pre[1][i], j) >= 6) secret = true;
    if (secret) nontrivial(); CHECK(!f[0].empty(), "%s: destroying it released nothing", what);
    if (f[0].size() != f[1].size()) throw Discard(); for (size_t i = 0; i < f[0].size(); i++) if (f[0][i].size() != f[1][i].size()) throw Discard();
    for (size_t i = 0; i < f[0].size(); i++) for (size_t j = 0; j < f[0][i].size(); j += 8) CHECK(diffIn(f[0][i], f[1][i], j) < 6, "%s: block %zu of %zu bytes handed back to the allocator still holds secret contents at offset %zu: %s with one secret, %s with another", what, i, f[0][i].size(), j, hex(&f[0][i][j], std::min<size_t>(16, f[0][i].size() - j)).c_str(), hex(&f[1][i][j], std::min<size_t>(16, f[0][i].size() - j)).c_str());
    lk.done(what);
}
static Bytes other(const Bytes &a) { Bytes b(a); Rng r(0xabcdef12345ull + a.size()); for (auto &x : b) x ^= (uint8_t)(1 + r.next() % 255); return b; }
static void randomise(Bytes &k, Src &s) { Bytes x = s.rnd(k.size()); k = x; }
PROP(C34, ciphers, 3, "*", "the object held contents that depend on the secret") {
    int c = s.below(NCIPH + 1); int use = s.below(5); Bytes iv = s.rnd(16), m = s.rnd(s.below(80) + 1); Bytes key = s.rnd(c == NCIPH ? 1 + s.below(64) : c == C_BF ? 5 + s.below(52) : ckey[c]), k2 = other(key), iv2 = other(iv), m2 = other(m); int mode = s.below(4); bool reinit = s.below(4) == 0; int pad = s.below(3);
    const char *nm = c == NCIPH ? "RC4" : cname[c]; NOTE("%s %s key of %zu bytes, use %d over %zu bytes%s", nm, c == NCIPH ? "" : mname[mode], key.size(), use, m.size(), reinit ? ", re-initialised" : ""); cls(nm);
    compare(s, nm, [&](int w) { Obj o; const Bytes &k = w ? k2 : key, &v = w ? iv2 : iv, &d = w ? m2 : m; Bytes out(d.size() + 64);
        if (c == NCIPH) { struct RaRc4Ctx *p; CHECK(RaRc4Create(k.data(), k.size(), &p) == 0, "create"); if (use) RaRc4Encrypt(p, d.data(), d.size(), out.data()); o.live.push_back({p, sizeof *p}); o.destroy = [p] { RaRc4Destroy(p); }; return o; }
        void *p = NULL; CHECK(rawCreate(c, k, mode, &p) == 0 && p, "create"); { Lib l(c, Adopt{p}); if (reinit) l.init(c, k.data(), k.size(), mode); if (use > 0) l.setiv(v.data()); if (use > 1) l.enc(d.data(), d.size(), out.data()); if (use > 2) l.encf(d.data(), d.size() / 2, out.data(), pad); if (use > 3) { l.dec(d.data(), d.size(), out.data()); } l.p = NULL; }
        static const size_t sz[5] = {sizeof(struct RaAesCtx), sizeof(struct RaDesCtx), sizeof(struct RaSeedCtx), sizeof(struct RaAriaCtx), sizeof(struct RaBlowfishCtx)};
        o.live.push_back({p, sz[cfam[c]]}); o.destroy = [c, p] { Lib l(c, Adopt{p}); l.destroy(); }; return o; });
}
PROP(C34, digests, 2, "*", "the object held contents that depend on the secret") {
    int a = s.below(NALG); size_t n = 20 + s.len(600, dblk[a]); Bytes m = s.rnd(n), m2 = other(m); int use = s.below(3); NOTE("%s over %zu secret bytes, use %d", dname[a], n, use); cls(dname[a]);
    static const size_t sz[NALG] = {sizeof(struct RaMd2Ctx), sizeof(struct RaMd4Ctx), sizeof(struct RaMd5Ctx), sizeof(struct RaSha1Ctx), sizeof(struct RaSha2Ctx), sizeof(struct RaSha2Ctx), sizeof(struct RaSha2Ctx), sizeof(struct RaSha2Ctx), sizeof(struct RaSha2Ctx), sizeof(struct RaSha2Ctx), sizeof(struct RaHas160Ctx)};
    compare(s, dname[a], [&](int w) { Obj o; const Bytes &d = w ? m2 : m; void *p; CHECK(dCreate(a, &p) == 0, "create"); dUpdate(a, p, d.data(), d.size()); uint8_t out[64]; if (use) dFinal(a, p, out); if (use == 2) { dInit(a, p); dUpdate(a, p, d.data(), d.size() / 2); } o.live.push_back({p, sz[a]}); o.destroy = [a, p] { dDestroy(a, p); }; return o; });
}
PROP(C34, generators, 1, "*", "the object held contents that depend on the secret") {
    int alg = s.below(4); Bytes sd = s.rnd(16 + s.below(40)), sd2 = other(sd); bool sys = s.below(2); int draw = s.below(200); uint64_t e = s.raw(4); NOTE("generator %d %s, %d bytes drawn", alg, sys ? "seeded by the system" : "seeded", draw); cls(algName(alg));
    compare(s, "random generator", [&](int w) { Obj o; entropySeed(e + w); Bytes d = w ? sd2 : sd; struct RaRandom *g; CHECK(RaRandomCreate((enum RaRandomAlgorithm)alg, sys ? NULL : d.data(), d.size(), &g) == 0, "create"); Bytes out(draw + 1); RaRandomBytes(g, draw, out.data()); o.live.push_back({g, sizeof *g}); o.destroy = [g] { RaRandomDestroy(g); }; return o; });
}
PROP(C34, numbers, 1, "*", "the object held contents that depend on the secret") {
    int w0 = 1 + s.below(20), extra = s.below(4), op = s.below(4); Bytes a = s.rnd((size_t)w0 * WB); a[0] |= 0x80; Bytes b = other(a); b[0] |= 0x80; NOTE("number of %d words, capacity %d, then operation %d", w0, w0 + extra, op);
    compare(s, "big number", [&](int w) { Obj o; struct RaBigNumber *p = BnNewW(w0 + extra); const Bytes &d = w ? b : a; CHECK(BnSetUByteArray(p, d.data(), d.size()) == 0, "import"); if (op == 1) BnShiftR(p, 8); if (op == 2) { BnSetUInt(p, 3); } if (op == 3) BnShiftR(p, WBITS); o.live.push_back({p->data, (size_t)p->max_length * WB}); o.destroy = [p] { BnClearFree(p); }; return o; });
}
PROP(C34, keys, 1, "*", "the object held contents that depend on the secret") {
    int bits = 64 + 2 * s.below(thorough() ? 300 : 100), how = s.below(3); uint64_t e = s.raw(4); caseCpuLimit(60); RsaKey k[2]; if (how != 0) { k[0] = scnKey(s, bits / 2); k[1] = scnKey(s, bits / 2); } int use = s.below(3); NOTE("RSA key of %d bits, %s, used %d times", bits, how == 0 ? "generated" : how == 1 ? "imported PKCS#8" : "imported PKCS#1", use); cls(how == 0 ? "generated" : "imported");
    compare(s, "RSA key", [&](int w) { Obj o; entropySeed(e + w); struct RaRsaKeyPair *p = NULL; Bytes d; if (how == 0) CHECK(RaRsaCreateKeyPair(bits, &p) == 0, "create"); else if (how == 1) { d = derPkcs8(k[w]); CHECK(RaRsaCreateKeyFromByteArray(d.data(), d.size(), &p) == 0, "import"); } else { d = derPriv(k[w]); CHECK(RaRsaCreateKeyPriv(d.data(), d.size(), &p) == 0, "import"); }
        for (int i = 0; i < use; i++) { W r((bits + WBITS - 1) / WBITS + 1); N m(Z::be(Bytes(bits / 8 - 1, (uint8_t)(3 + i + 7 * w)))); CHECK(RaRsaDecrypt(p, m, r) == 0, "decrypt"); }
        nontrivial(); o.destroy = [p] { RaRsaDestroyKeyPair(p); }; return o; });
}
