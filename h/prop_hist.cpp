// C36 objects do not influence each other; C37 everything taken is given back; C38 requests without an answer are refused
#include "scn.h"
extern "C" void entropySeed(uint64_t);

// ---- sessions: an object's life as numbered steps with fixed inputs ------------------
struct St { int k = 0, a = 0, b = 0; Bytes d; Raw x, y; };
// inputs of several objects at one address, overwritten as soon as the call returns
static uint8_t g_slot[4096];
struct Via { uint8_t *p; size_t n; Via(const Bytes &b, bool slot) : p((uint8_t *)b.data()), n(b.size()) { if (slot && n <= sizeof g_slot) { if (n) memcpy(g_slot, b.data(), n); p = g_slot; } } ~Via() { if (p == g_slot) memset(g_slot, 0xa5, n); } };
struct Sess {
    bool slot = false; std::string name; uint64_t seed = 0; std::vector<St> st; Bytes key; int alg = 0, mode = 0; Raw n;
    virtual ~Sess() {}
    virtual void begin(std::string &r) = 0; virtual void use(const St &x, std::string &r) = 0; virtual void end(std::string &r) = 0;
    virtual std::unique_ptr<Sess> twin() const = 0; // same plan, no object yet
    int steps() const { return (int)st.size() + 2; }
    void step(int i, std::string &r) { entropySeed(seed + i); dirtyStack(); if (i == 0) begin(r); else if (i == steps() - 1) end(r); else { use(st[i - 1], r); r += ";"; } }
};
#define TWIN(T) std::unique_ptr<Sess> twin() const override { auto p = std::make_unique<T>(*this); return p; }
struct DgS : Sess { void *c = NULL; TWIN(DgS)
    void begin(std::string &) override { CHECK(dCreate(alg, &c) == 0, "%s create", name.c_str()); }
    void use(const St &x, std::string &r) override { if (x.k == 0) { Via d(x.d, slot); dUpdate(alg, c, d.p, d.n, x.b); } else if (x.k == 1) { uint8_t o[64]; dFinal(alg, c, o, x.b); r += hex(o, dlen[alg], 64); dInit(alg, c, x.b); } else dInit(alg, c, x.b); }
    void end(std::string &r) override { uint8_t o[64]; dFinal(alg, c, o); r += hex(o, dlen[alg], 64); dDestroy(alg, c); c = NULL; } };
struct CiS : Sess { void *p = NULL; TWIN(CiS)
    void begin(std::string &) override { { Via k(key, slot); CHECK(rawCreateP(alg, k.p, k.n, mode, &p) == 0, "%s create", name.c_str()); } uint8_t iv[16]; memset(iv, 0x3c, 16); Lib l(alg, Adopt{p}); l.setiv(iv); l.p = NULL; }
    void use(const St &x, std::string &r) override { Lib l(alg, Adopt{p}); struct Keep { Lib &l; ~Keep() { l.p = NULL; } } keep{l}; Bytes o(x.d.size() + 40, 0xee); int n = 0; uint8_t iv[16];
        switch (x.k) { case 0: n = l.enc(Via(x.d, slot).p, x.d.size(), o.data()); break; case 1: n = l.dec(Via(x.d, slot).p, x.d.size(), o.data()); break; case 2: n = l.encf(Via(x.d, slot).p, x.d.size(), o.data(), x.a); break; case 3: n = l.decf(Via(x.d, slot).p, x.d.size(), o.data(), x.a); break;
            case 4: memcpy(iv, x.d.data(), cblk[alg]); l.setiv(iv); break; case 5: l.init(alg, Via(key, slot).p, key.size(), x.a); memset(iv, x.b, 16); l.setiv(iv); break; default: { l.getiv(iv); r += hex(iv, cblk[alg], 16); } }
        CHECK(n >= 0 && n <= (int)o.size(), "%s returned %d", name.c_str(), n); r += hex(o.data(), n, 4096); }
    void end(std::string &) override { Lib l(alg, Adopt{p}); p = NULL; } };
struct R4S : Sess { struct RaRc4Ctx *c = NULL; TWIN(R4S)
    void begin(std::string &) override { Via k(key, slot); CHECK(RaRc4Create(k.p, k.n, &c) == 0, "RC4 create"); }
    void use(const St &x, std::string &r) override { Bytes o(x.d.size() + 1); Via d(x.d, slot); if (x.k) RaRc4Decrypt(c, d.p, d.n, o.data()); else RaRc4Encrypt(c, d.p, d.n, o.data()); r += hex(o.data(), x.d.size(), 4096); }
    void end(std::string &) override { RaRc4Destroy(c); c = NULL; } };
struct RnS : Sess { struct RaRandom *g = NULL; TWIN(RnS)
    void begin(std::string &) override { Bytes k = key; Via v(k, slot); CHECK(RaRandomCreate((enum RaRandomAlgorithm)alg, mode ? NULL : v.p, v.n, &g) == 0, "random create"); }
    void use(const St &x, std::string &r) override { switch (x.k) { case 0: { Bytes o(x.a + 1); RaRandomBytes(g, x.a, o.data()); r += hex(o.data(), x.a, 4096); break; } case 1: r += std::to_string(RaRandomInt(g, 3, 3 + x.a)); break; case 2: { double v = RaRandom(g); r += hex(&v, 8); break; }
        default: { Num m; m.make((x.a + WBITS - 1) / WBITS + 1); BnSetUInt(m.p, 5); int rc = x.k == 3 ? BnGenRandom(m.p, x.a, g) : x.k == 4 ? BnGetRandomRSA(m.p, x.a, g) : RaGenPrimeNumberEx(m.p, x.a % 3 ? 16 + x.a % 60 : 2 + x.a % 14, NULL, NULL, g); r += std::to_string(rc) + m.str(); m.drop(); } } }
    void end(std::string &) override { RaRandomDestroy(g); g = NULL; } };
struct MoS : Sess { RaMontCtx *c = NULL; TWIN(MoS)
    void begin(std::string &r) override { Num m; m.set(n); int rc = RaMontCreate(m.p, &c); r += std::to_string(rc); CHECK(rc == 0, "RaMontCreate %d", rc); m.drop(); }
    void use(const St &x, std::string &r) override { Num a, e, o; a.set(x.x); e.set(x.y); o.make(n.words()); int rc = RaMontExpMod(c, o.p, a.p, e.p); r += std::to_string(rc) + o.str(); a.drop(); e.drop(); o.drop(); }
    void end(std::string &) override { RaMontDestroy(c); c = NULL; } };
struct RsS : Sess { struct RaRsaKeyPair *k = NULL; TWIN(RsS)
    void begin(std::string &r) override { Via v(key, slot); int rc = mode == 0 ? RaRsaCreateKeyPub(v.p, v.n, &k) : mode == 1 ? RaRsaCreateKeyPriv(v.p, v.n, &k) : RaRsaCreateKeyFromByteArray(v.p, v.n, &k); r += std::to_string(rc); CHECK(rc == 0 && k, "key import %d", rc); }
    void use(const St &x, std::string &r) override { Num m, o; int rc; m.set(x.x); o.make(n.words() + 1); BnSetUInt(o.p, 7); Bytes b(2000); int l = -1;
        switch (x.k) { case 0: rc = RaRsaEncrypt(k, m.p, o.p); break; case 1: rc = RaRsaDecrypt(k, m.p, o.p); break; case 2: rc = RaRsaSign(k, m.p, o.p); break; case 3: { Num t; t.set(x.y); rc = RaRsaVerify(k, t.p, m.p); t.drop(); break; } case 4: rc = RaRsaVerifyKey(k); break; case 5: rc = RaRsaPubKeyToByteArray(k, b.data(), b.size(), &l); break; case 6: rc = RaRsaPrivKeyToByteArray(k, b.data(), b.size(), &l); break; default: rc = RaRsaKeyBitLength(k); }
        r += std::to_string(rc) + (x.k < 3 ? rc ? "refused" : o.str() : "") + (l > 0 && rc == 0 ? hex(b.data(), l, 4096) : ""); m.drop(); o.drop(); }
    void end(std::string &) override { RaRsaDestroyKeyPair(k); k = NULL; } };
struct ScS : Sess { std::shared_ptr<Scn> q; TWIN(ScS)   // a whole operation of scn.h
    void begin(std::string &) override { q->setup(); } void use(const St &x, std::string &r) override { int rc = q->run(r); r += std::to_string(rc); } void end(std::string &) override { q->drop(); } };

static const int NSESS = 7;
static std::unique_ptr<Sess> genSess(Src &s, int kind, int big) {
    std::unique_ptr<Sess> q; int k = 1 + s.below(5);
    auto piece = [&](int B) { size_t n = s.below(60) == 59 ? s.below(3000) : s.len(150, B); return n > 300 ? s.rnd(n) : s.bytes(n); };
    switch (kind) {
    case 0: { q = std::make_unique<DgS>(); q->alg = s.below(NALG); q->name = dname[q->alg]; for (int i = 0; i < k; i++) { St t; t.k = s.pick({6, 2, 1}); t.b = s.below(2); if (t.k == 0) t.d = piece(dblk[q->alg]); q->st.push_back(t); } break; }
    case 1: { q = std::make_unique<CiS>(); q->alg = genCipher(s); q->key = genKey(s, q->alg); q->mode = s.below(4); q->name = cname[q->alg]; int B = cblk[q->alg], fill = 0; bool dec = s.below(2); for (int i = 0; i < k; i++) { St t; int z = s.pick({8, 1, 1, 1}); if (z == 0) { bool fin = s.below(3) == 0; if (!fill) dec = s.below(2); t.k = dec + 2 * fin; t.a = s.below(3); t.d = piece(B); fill = fin ? 0 : (fill + (int)t.d.size()) % B; } else { t.k = 3 + z; t.a = s.below(4); t.b = s.u8(); t.d = s.bytes(16); if (z < 3) fill = 0; } q->st.push_back(t); } break; }
    case 2: { q = std::make_unique<R4S>(); q->key = s.bytes(1 + s.below(60)); q->name = "RC4"; for (int i = 0; i < k; i++) { St t; t.k = s.below(2); t.d = piece(64); q->st.push_back(t); } break; }
    case 3: { q = std::make_unique<RnS>(); q->alg = s.below(4); q->key = s.bytes(s.below(80)); q->mode = s.below(5) == 0; q->name = std::string("random ") + algName(q->alg); for (int i = 0; i < k; i++) { St t; t.k = s.pick({4, 2, 2, 1, 1, 1}); t.a = t.k == 0 ? s.len(200, 32) : 1 + s.below(300); q->st.push_back(t); } break; }
    case 4: { q = std::make_unique<MoS>(); Z n = genMag(s, big); if (!n.odd()) n = n + Z(1); if (n == Z(1)) n = Z(3); q->n = Raw(n); q->name = "Montgomery context"; for (int i = 0; i < k; i++) { St t; t.x = Raw(genMag(s, big) % n); t.y = Raw(genMag(s, 1 + s.below(3))); q->st.push_back(t); } NOTE("modulus %s", zs(n)); break; }
    case 5: { q = std::make_unique<RsS>(); RsaKey r = scnKey(s, 16 + s.below(big * 16)); q->mode = s.below(4); if (q->mode == 3) q->mode = 2, q->key = s.below(2) ? derSpki(r) : derPkcs8(r); else q->key = q->mode == 0 ? derPub(r) : q->mode == 1 ? derPriv(r) : derPkcs8(r); q->n = Raw(r.n); q->name = "RSA key"; for (int i = 0; i < k; i++) { St t; t.k = s.below(8); Z m = s.below(6) ? Z::be(s.rnd(r.n.bytes().size())) % r.n : Z((long)s.below(3)); t.x = Raw(m); t.y = Raw(s.below(2) ? m.powm(r.d, r.n) : m); q->st.push_back(t); } NOTE("RSA modulus %s", zs(r.n)); break; }
    default: { auto p = std::make_unique<ScS>(); p->q = std::shared_ptr<Scn>(genScn(s, s.below(NSCN), big).release()); p->name = p->q->name; p->st.resize(1 + s.below(2)); q = std::move(p); break; }
    }
    q->seed = s.raw(3); q->slot = s.below(2); return q;
}
// another object much like the first one
static std::unique_ptr<Sess> near(Src &s, const Sess &b) {
    if (dynamic_cast<const ScS *>(&b)) { const ScS *o = (const ScS *)&b; auto p = std::make_unique<ScS>(); int kind = -1; (void)o; p->q = std::shared_ptr<Scn>(genScn(s, s.below(NSCN), 3).release()); (void)kind; p->name = p->q->name; p->st.resize(1); p->seed = s.raw(3); return p; }
    auto q = b.twin(); int how = s.below(6);
    if (how == 0) {} // the same
    else if (how == 1 && !q->key.empty() && !dynamic_cast<const RsS *>(&b)) q->key[s.below(3) == 0 ? s.below(q->key.size()) : s.below(2) ? q->key.size() - 1 : 0] ^= s.below(2) ? 1 << s.below(8) : 0x80;
    else if (how == 2) { if (dynamic_cast<const CiS *>(&b)) q->mode = s.below(4); else if (dynamic_cast<const RnS *>(&b)) q->alg = s.below(4); else if (dynamic_cast<const DgS *>(&b)) { int a = s.below(NALG); q->alg = a; q->name = dname[a]; } else if (dynamic_cast<const MoS *>(&b) && q->n.le.size() > 2) { q->n.le[1 + s.below(q->n.le.size() - 2)] ^= 1 << s.below(8); for (auto &t : q->st) { t.x = Raw(Z((long)s.below(3))); } } }
    else if (how == 3) { for (auto &t : q->st) if (!t.d.empty() && s.below(2)) t.d[s.below(t.d.size())] ^= 1 << s.below(8); else if (t.x.le.size() > 2) t.x.le[s.below(t.x.le.size() - 1)] ^= 1; }
    else if (how == 4 && q->st.size() > 1) std::swap(q->st[0], q->st.back());
    else if (how == 5 && q->st.size() > 1) q->st.pop_back();
    if (s.below(2)) q->seed = s.raw(3);
    return q;
}
PROP(C36, interleaved, 1, "*", "at least two objects were alive at the same time and both were used") {
    int m = 2 + s.below(4), big = thorough() ? 8 : 4; caseCpuLimit(thorough() ? 200 : 60); std::vector<std::unique_ptr<Sess>> v; int kind = s.below(NSESS);
    for (int i = 0; i < m; i++) { int z = s.below(3); if (i && z == 0) v.push_back(near(s, *v[s.below(i)])); else v.push_back(genSess(s, z == 1 ? kind : (int)s.below(NSESS), big)); cls(v.back()->name.c_str()); NOTE("object %d: %s, %d steps, key %s", i, v.back()->name.c_str(), v.back()->steps(), hex(v.back()->key, 60).c_str()); }
    LeakCheck lk; std::vector<std::vector<std::string>> alone(m), mixed(m); bool after = s.below(2);
    auto solo = [&](int i, std::vector<std::string> &o) { auto t = v[i]->twin(); o.clear(); for (int j = 0; j < t->steps(); j++) { std::string r; t->step(j, r); o.push_back(r); } };
    auto compare = [&](const char *how) { for (int i = 0; i < m; i++) for (size_t j = 0; j < alone[i].size(); j++) if (alone[i][j] != mixed[i][j]) failf("%s (object %d), step %zu: %s it gives %s, alone it gives %s", v[i]->name.c_str(), i, j, how, mixed[i][j].substr(0, 300).c_str(), alone[i][j].substr(0, 300).c_str()); };
    if (!after) for (int i = 0; i < m; i++) solo(i, alone[i]);
    std::vector<std::unique_ptr<Sess>> w; std::vector<int> pos(m, 0); for (auto &x : v) w.push_back(x->twin()); mixed.assign(m, {}); std::string order; int live = 0, most = 0; int burst = 1 + s.below(3);
    for (;;) { std::vector<int> open; for (int i = 0; i < m; i++) if (pos[i] < w[i]->steps()) open.push_back(i); if (open.empty()) break; int i = open[s.below(open.size())];
        for (int c = 0; c < burst && pos[i] < w[i]->steps(); c++) { if (pos[i] == 0) live++; std::string r; w[i]->step(pos[i], r); mixed[i].push_back(r); pos[i]++; if (pos[i] == w[i]->steps()) live--; most = std::max(most, live); order += (char)('0' + i); } }
    NOTE("order %s", order.c_str()); if (most >= 2) nontrivial(); cls(most >= 3 ? "three or more alive" : most == 2 ? "two alive" : "one after the other");
    if (after) for (int i = m; i--;) solo(i, alone[i]);
    compare("mixed with the others"); lk.done("several objects");
}
// other objects used from inside a call of the library, in the progress callback of the prime search
struct Inside { std::vector<std::unique_ptr<Sess>> *w; std::vector<int> *pos; std::vector<std::vector<std::string>> *out; int calls; bool busy; };
static int insideStep(int n, void *u) { Inside &q = *(Inside *)u; q.calls++; if (q.busy) return 0; q.busy = true; for (size_t i = 0; i < q.w->size(); i++) { int &j = (*q.pos)[i]; Sess &x = *(*q.w)[i]; if (j < x.steps() && (n + (int)i) % 2) { std::string r; x.step(j++, r); (*q.out)[i].push_back(r); } } q.busy = false; return 0; }
PROP(C36, callback, 1, "*", "another object was used while a prime search was running") {
    int m = 1 + s.below(3), bits = 60 + s.below(240), alg = s.below(4); caseCpuLimit(60); Bytes seed = s.bytes(8); NOTE("%d bit search, %s generator, seed %s", bits, algName(alg), hex(seed).c_str()); LeakCheck lk; {
    std::vector<std::unique_ptr<Sess>> v, w; for (int i = 0; i < m; i++) { v.push_back(genSess(s, s.below(NSESS), 4)); cls(v.back()->name.c_str()); NOTE("object %d: %s, %d steps", i, v.back()->name.c_str(), v.back()->steps()); }
    std::vector<std::vector<std::string>> alone(m), in(m); std::vector<int> pos(m, 0); for (int i = 0; i < m; i++) { auto t = v[i]->twin(); for (int j = 0; j < t->steps(); j++) { std::string r; t->step(j, r); alone[i].push_back(r); } w.push_back(v[i]->twin()); }
    Num a, b; a.make((bits + WBITS - 1) / WBITS + 1); b.make((bits + WBITS - 1) / WBITS + 1); Inside q{&w, &pos, &in, 0, false}; int plain = 0;
    for (int k = 0; k < 2; k++) { struct RaRandom *g = NULL; Bytes sd = seed; CHECK(RaRandomCreate((enum RaRandomAlgorithm)alg, sd.data(), sd.size(), &g) == 0, "random create"); int rc = k ? RaGenPrimeNumberEx(b.p, bits, insideStep, &q, g) : RaGenPrimeNumberEx(a.p, bits, [](int, void *u) -> int { ++*(int *)u; return 0; }, &plain, g); CHECK(rc == 0, "prime search returned %d", rc); RaRandomDestroy(g); }
    CHECK(a.str() == b.str() && plain == q.calls, "the prime search gives %s after %d candidates when other objects are used meanwhile, %s after %d alone", b.str().c_str(), q.calls, a.str().c_str(), plain);
    for (int i = 0; i < m; i++) { if (pos[i] > 1) nontrivial(); while (pos[i] < w[i]->steps()) { std::string r; w[i]->step(pos[i]++, r); in[i].push_back(r); } for (size_t j = 0; j < alone[i].size(); j++) if (alone[i][j] != in[i][j]) failf("%s (object %d), step %zu: used inside a prime search it gives %s, alone it gives %s", v[i]->name.c_str(), i, j, in[i][j].substr(0, 300).c_str(), alone[i][j].substr(0, 300).c_str()); }
    a.drop(); b.drop(); } lk.done("objects used in a callback");
}
// ---- C37 -------------------------------------------------------------------------
PROP(C37, histories, 3, "*", "at least two objects were alive at the same time") {
    int m = 2 + s.below(5); caseCpuLimit(60); std::vector<std::unique_ptr<Sess>> v; std::vector<int> pos; long before = g_live_allocs; int live = 0, most = 0; g_entropy_mode = s.below(3) ? 0 : s.below(4);
    if (g_entropy_mode) cls("entropy source failing"); NOTE("entropy source mode %d", g_entropy_mode);
    for (int i = 0; i < m; i++) { v.push_back(genSess(s, s.below(NSESS), 4)); pos.push_back(0); NOTE("object %d: %s", i, v.back()->name.c_str()); cls(v.back()->name.c_str()); }
    for (int turn = 0; turn < 40; turn++) { int i = s.below(m); std::string r; Sess &x = *v[i];
        int j = pos[i]; x.step(j, r); CHECK(g_open_fds == 0, "%s: the entropy device stays open after a call", x.name.c_str());
        if (j == 0) { live++; most = std::max(most, live); } else if (j == x.steps() - 1) live--;
        else { // the same once more: what the first use may keep is kept already
            long h = g_live_allocs; r.clear(); x.step(j, r); CHECK(g_live_allocs <= h, "%s: %ld further allocation(s) kept when the same use is repeated", x.name.c_str(), g_live_allocs - h); if (dynamic_cast<RnS *>(&x) || dynamic_cast<DgS *>(&x) || dynamic_cast<R4S *>(&x)) CHECK(g_live_allocs == h, "%s: allocation count changed", x.name.c_str()); }
        pos[i] = j == x.steps() - 1 ? 0 : j + 1;
        if (pos[i] && s.below(8) == 0) { std::string e; x.step(x.steps() - 1, e); pos[i] = 0; live--; } // destroyed early
        if (!live) CHECK(g_live_allocs == before, "%ld allocation(s) are left when no object exists (last used: %s)", g_live_allocs - before, x.name.c_str()); }
    for (int i : {0, 1}) { (void)i; } std::vector<int> o; for (int i = 0; i < m; i++) o.push_back(i); for (int i = m; i > 1; i--) std::swap(o[i - 1], o[s.below(i)]);
    for (int i : o) if (pos[i]) { std::string e; v[i]->step(v[i]->steps() - 1, e); }
    if (most >= 2) nontrivial(); CHECK(g_live_allocs == before, "%ld allocation(s) are left when every object is destroyed", g_live_allocs - before); g_entropy_mode = 0;
}
// requests that are refused give back what they took
PROP(C37, refused_imports, 2, "*", "the import was refused") {
    RsaKey k; int w = 1 + s.below(6); for (int i = 0; i < 8; i++) k.comp(i) = Z::be(s.bytes(1 + s.below(w * 8))); if (s.below(8)) { if (!k.n.odd()) k.n = k.n + Z(1); } else cls("even modulus"); k.priv = true; if (s.below(10) == 0) { k.n = Z(0); cls("zero modulus"); } Forms f; f.f = [&]() { return s.below(4) ? 0 : (int)s.below(6); };
    int form = s.below(4), fn = s.below(4) ? (form == 0 ? 0 : form == 1 ? 1 : 2) : (int)s.below(3); Bytes b = form == 0 ? derPub(k, f) : form == 1 ? derPriv(k, f) : form == 2 ? derSpki(k, f) : derPkcs8(k, f);
    switch (s.below(5)) { case 0: b.resize(s.below(b.size() + 1)); break; case 1: case 2: for (int i = 0, m = 1 + s.below(3); i < m && !b.empty(); i++) b[s.below(std::min<size_t>(b.size(), s.below(2) ? 40 : 4000))] = s.below(2) ? s.u8() : s.one<uint8_t>({0, 0x80, 0x81, 0x82, 0x84, 0x7f, 0xff, 0x30, 2}); break; case 3: { size_t a = s.below(b.size()), n = s.below(std::min<size_t>(b.size() - a, 40)); b.erase(b.begin() + a, b.begin() + a + n); break; } default:; }
    NOTE("import function %d of %s", fn, hex(b, 500).c_str()); long before = g_live_allocs; struct RaRsaKeyPair *q = NULL; int rc = fn == 0 ? RaRsaCreateKeyPub(b.data(), b.size(), &q) : fn == 1 ? RaRsaCreateKeyPriv(b.data(), b.size(), &q) : RaRsaCreateKeyFromByteArray(b.data(), b.size(), &q);
    if (rc) { nontrivial(); cls("refused"); CHECK(g_live_allocs == before, "a refused import (%d) keeps %ld allocation(s)", rc, g_live_allocs - before); }
    else { cls("accepted"); Num m, o; m.make(w + 2); o.make(g_live_allocs ? 2 * w * 8 / WB + 4 : 4); BnSetUInt(m.p, 2); for (int t = 0; t < 3; t++) { int l; uint8_t tmp[64]; RaRsaPrivKeyToByteArray(q, tmp, s.below(64), &l); RaRsaPubKeyToByteArray(q, tmp, s.below(64), &l); } m.drop(); o.drop(); RaRsaDestroyKeyPair(q); CHECK(g_live_allocs == before, "%ld allocation(s) are left after the imported key was destroyed", g_live_allocs - before); }
}
PROP(C37, refused_numbers, 2, "*", "the operation was refused or stopped") {
    long before = g_live_allocs; bool nd = strstr(flavour(), "nd"); static const int still[] = {0, 4, 5, 6, 7}; int rc = 0, op = nd ? s.below(8) : still[s.below(5)]; caseCpuLimit(30); entropySeed(s.raw(2)); g_entropy_mode = s.below(4); const char *nm[] = {"RaMontCreate", "RaMontExpMod", "GetGCD", "GetGCDEx", "RaGenPrimeNumberEx stopped", "RaGenPrimeNumber too small", "RaRsaCreateKeyPair too small", "BnGetRandomRSA"}; cls(nm[op]); NOTE("%s", nm[op]); // a refusal for size stops the program where assertions are on
    switch (op) {
    case 0: { Z n = genMag(s, 6); if (n.odd()) n = n + Z(1); if (s.below(4) == 0) n = Z(0); N ln(n); RaMontCtx *c = NULL; rc = RaMontCreate(ln, &c); CHECK(rc != 0 && !c, "RaMontCreate of the even number %s returned %d", zs(n), rc); break; }
    case 1: { Z n = genMag(s, 6); if (!n.odd()) n = n + Z(1); if (n == Z(1)) n = Z(3); Z a = genMag(s, 6) % n, e = genMag(s, 2); N ln(n), la(a), le(e); W r(2); RaMontCtx *c = NULL; CHECK(RaMontCreate(ln, &c) == 0, "RaMontCreate"); long h = g_live_allocs; for (int i = 0; i < 3; i++) { rc = RaMontExpMod(c, r, la, le); CHECK(g_live_allocs == h, "RaMontExpMod (%d) keeps %ld allocation(s)", rc, g_live_allocs - h); } RaMontDestroy(c); break; }
    case 2: { Z g = genMag(s, 5) + Z(1); N a(g * (genMag(s, 3) + Z(1))), b(g * (genMag(s, 3) + Z(1))); W r(2); long h = g_live_allocs; rc = GetGCD(r, a, b); CHECK(g_live_allocs == h, "GetGCD (%d) keeps %ld allocation(s)", rc, g_live_allocs - h); break; }
    case 3: { Z g = genMag(s, 3) + Z(1), x = g * (genMag(s, 4) + Z(1)), y = g * (genMag(s, 4) + Z(1)); int w = std::max(words(x), words(y)) + 1; N a(x), b(y); W r(s.below(2) ? 2 : w), u(s.below(2) ? 2 : w), t(s.below(2) ? 2 : w); long h = g_live_allocs; rc = GetGCDEx(s.below(3) ? r.p : NULL, u, t, a, b, s.below(2)); CHECK(g_live_allocs == h, "GetGCDEx (%d) keeps %ld allocation(s)", rc, g_live_allocs - h); break; }
    case 4: { W r(4); struct P { int n, at; } p{0, 1 + (int)s.below(3)}; rc = RaGenPrimeNumberEx(r, s.below(2) ? 2 + s.below(14) : 16 + s.below(90), [](int, void *u) -> int { P *q = (P *)u; return ++q->n >= q->at; }, &p, NULL); if (p.n >= p.at) rc = 1; break; }
    case 5: { W r(1 + s.below(2)); int b = !nd || s.below(3) ? 1 - (int)s.below(4) : 65 * (2 + s.below(3)); rc = RaGenPrimeNumber(r, b); break; }
    case 6: { struct RaRsaKeyPair *k = NULL; rc = RaRsaCreateKeyPair(16 - 2 * (int)s.below(10), &k); CHECK(rc && !k, "key generation of too few bits returned %d", rc); break; }
    default: { W r(2); int b = !nd || s.below(2) ? 0 - (int)s.below(3) : WBITS * 3; rc = s.below(2) ? BnGetRandomRSA(r, b, NULL) : s.below(2) ? BnGenRandom(r, b, NULL) : BnGetRandomOdd(r, b, NULL); break; }
    }
    if (rc) nontrivial(); g_entropy_mode = 0; CHECK(g_live_allocs == before, "%s (%d) keeps %ld allocation(s)", nm[op], rc, g_live_allocs - before); CHECK(g_open_fds == 0, "%s leaves the entropy device open", nm[op]);
}
PROP(C37, nothing, 1, "*", "destroying nothing") {
    long before = g_live_allocs; nontrivial(); BnFree(NULL); BnClearFree(NULL); RaMontDestroy(NULL); RaRsaDestroyKeyPair(NULL); RaRandomDestroy(NULL); int a = s.below(NALG), c = s.below(NCIPH); dDestroy(a, NULL); RaRc4Destroy(NULL);
    switch (cfam[c]) { case FAM_AES: RaAesDestroy(NULL); break; case FAM_DES: RaDesDestroy(NULL); break; case FAM_SEED: RaSeedDestroy(NULL); break; case FAM_ARIA: RaAriaDestroy(NULL); break; default: RaBlowfishDestroy(NULL); }
    NOTE("%s %s", dname[a], cname[c]); CHECK(g_live_allocs == before, "allocation count changed");
}
// ---- C38 -------------------------------------------------------------------------
// an object in a state the caller knows: the refusal must leave it usable, operands untouched
static void usable(struct RaBigNumber *p, const char *what) { CHECK(p->length >= 1 && p->length <= p->max_length && (p->sign == 0 || p->sign == 1), "%s: number left with %d of %d words, sign %d", what, p->length, p->max_length, p->sign); BnSetInt(p, -9); CHECK(BnAddUInt(p, 11) == 0, "%s: addition afterwards failed", what); expectBn(p, Z(2), what); }
PROP(C38, numbers, 3, "*", "the request has no answer") {
    int op = s.below(14); static const char *nm[] = {"BnDiv by 0", "BnMod by 0", "BnDivInt by 0", "BnDivUInt by 0", "BnModUInt by 0", "RaMontCreate of 0", "RaMontCreate of an even number", "BnSetByteArray of no bytes", "BnSetUByteArray of no bytes", "BnGetRandomRSA of no bits", "RaGenPrimeNumber below 2 bits", "random number wider than the destination", "prime wider than the destination", "RaIsPrimeNumber of a number that is none"};
    cls(nm[op]); NOTE("%s", nm[op]); nontrivial(); entropySeed(s.raw(2)); LeakCheck lk; { Z a = genZ(s, 8); N la(a), lz(Z(0)); W r(words(a) + 2), t(words(a) + 2); r.set(Z(77)); t.set(Z(-78)); int rc; bn_uint_t rem = 0; const char *what = nm[op];
    switch (op) {
    case 0: rc = BnDiv(s.below(3) ? r.p : NULL ? NULL : r.p, t, la, lz); CHECK(rc != RA_ERR_SUCCESS, "%s of %s returned %d", what, zs(a), rc); break;
    case 1: rc = BnMod(r, la, lz); CHECK(rc != RA_ERR_SUCCESS, "%s of %s returned %d", what, zs(a), rc); break;
    case 2: case 3: { N x(a, 1); bool nr = s.below(2); rc = op == 2 ? BnDivInt(x, 0, nr ? NULL : &rem) : BnDivUInt(x, 0, nr ? NULL : &rem); CHECK(rc != RA_ERR_SUCCESS, "%s of %s returned %d", what, zs(a), rc); usable(x, what); break; }
    case 4: { N x(a, 1); rc = BnModUInt(x, 0, &rem); CHECK(rc != RA_ERR_SUCCESS, "%s of %s returned %d", what, zs(a), rc); same(x, a, what); break; }
    case 5: case 6: { Z n = op == 5 ? Z(0) : genMag(s, 8); if (n.odd()) n = n + Z(1); N ln(n, 1); RaMontCtx *c = NULL; rc = RaMontCreate(ln, &c); CHECK(rc != RA_ERR_SUCCESS && !c, "RaMontCreate of %s returned %d", zs(n), rc); same(ln, n, what); break; }
    case 7: case 8: { uint8_t d[4] = {1, 2, 3, 4}; int len = s.below(3) ? 0 : -(int)s.below(1000); rc = op == 7 ? BnSetByteArray(r, d, len) : BnSetUByteArray(r, d, len); CHECK(rc != RA_ERR_SUCCESS, "%s (%d) returned success", what, len); same(r, Z(77), what); break; }
    case 9: { int b = -(int)s.below(70); struct RaRandom *g = NULL; if (s.below(2)) CHECK(RaRandomCreate(RA_RAND_MD5, (uint8_t *)"x", 1, &g) == 0, "create"); rc = BnGetRandomRSA(r, b, g); CHECK(rc != RA_ERR_SUCCESS, "%s (%d) returned success with %s", what, b, zs(val(r))); RaRandomDestroy(g); break; }
    case 10: { int b = 1 - (int)s.below(70); rc = s.below(2) ? RaGenPrimeNumber(r, b) : RaGenPrimeNumberEx(r, b, NULL, NULL, NULL); CHECK(rc != RA_ERR_SUCCESS, "%s (%d) returned success with %s", what, b, zs(val(r))); break; }
    case 11: { int b = r.p->max_length * WBITS + 1 + s.below(200), z = s.below(3); rc = z == 0 ? BnGenRandom(r, b, NULL) : z == 1 ? BnGetRandomOdd(r, b, NULL) : BnGetRandomRSA(r, b, NULL); CHECK(rc != RA_ERR_SUCCESS, "%s: %d bits into %d words returned success", what, b, r.p->max_length); break; }
    case 12: { int b = r.p->max_length * WBITS + 1 + s.below(200); rc = RaGenPrimeNumber(r, b); CHECK(rc != RA_ERR_SUCCESS, "%s: %d bits into %d words returned success", what, b, r.p->max_length); break; }
    default: { Z n = Z((long)s.below(2)); if (s.below(2)) n = genMag(s, 4) * Z(2) + Z(4); if (s.below(3) == 0) n = -n; N x(n); rc = RaIsPrimeNumber(x); CHECK(rc != RA_ERR_SUCCESS, "%s is called prime", zs(n)); same(x, n, what); break; }
    }
    same(la, a, what); same(lz, Z(0), what); usable(r, what); usable(t, what); }
    lk.done(nm[op]);
}
// a public key has no private operations; asking for them changes nothing
PROP(C38, public_keys, 2, "*", "a private operation was asked of a public key") {
    RsaKey k = scnKey(s, 16 + s.below(60)); Bytes b = s.below(2) ? derPub(k) : derSpki(k); struct RaRsaKeyPair *q = NULL; bool plain = s.below(2); if (plain) b = derPub(k); NOTE("modulus %s", zs(k.n)); nontrivial(); LeakCheck lk;
    int rc = plain ? RaRsaCreateKeyPub(b.data(), b.size(), &q) : RaRsaCreateKeyFromByteArray(b.data(), b.size(), &q); if (rc && !plain) { b = derSpki(k); rc = RaRsaCreateKeyFromByteArray(b.data(), b.size(), &q); } CHECK(rc == 0 && q, "import returned %d", rc);
    { Z m = Z::be(s.rnd(k.n.bytes().size())) % k.n; N lm(m); W r(words(k.n) + 1); int n = 1 + s.below(5); for (int i = 0; i < n; i++) { int op = s.below(4); r.set(Z(55)); 
        if (op == 0) { rc = RaRsaDecrypt(q, lm, r); CHECK(rc != 0, "RaRsaDecrypt with a public key returned success and %s", zs(val(r))); cls("decrypt"); }
        else if (op == 1) { rc = RaRsaSign(q, lm, r); CHECK(rc != 0, "RaRsaSign with a public key returned success and %s", zs(val(r))); cls("sign"); }
        else if (op == 2) { Guard g(200); int l = -1, room = s.below(201); rc = RaRsaPrivKeyToByteArray(q, s.below(3) ? g.p : NULL, room, &l); CHECK(rc != 0, "exporting the private key of a public key returned success, length %d", l); g.check("private export"); CHECK(g.untouchedFrom(0), "a refused export wrote into the buffer"); cls("private export"); }
        else { rc = RaRsaEncrypt(q, lm, r); CHECK(rc == 0, "RaRsaEncrypt returned %d after refusals", rc); expectBn(r, m.powm(k.e, k.n), "RaRsaEncrypt after refusals"); cls("encrypt"); }
        same(lm, m, "message"); usable(r, "result"); }
      rc = RaRsaVerifyKey(q); CHECK(rc == 0 , "RaRsaVerifyKey of a valid public key returned %d", rc); CHECK(RaRsaKeyBitLength(q) == k.n.bits(), "key length"); }
    RaRsaDestroyKeyPair(q); lk.done("public key");
}
// key sizes that no key has, imports that are no key: no object
PROP(C38, keys, 1, "*", "no key can result") {
    LeakCheck lk; nontrivial(); entropySeed(s.raw(2)); struct RaRsaKeyPair *q = NULL; int rc, op = s.below(4);
    if (op == 0) { int bits = 2 * (8 - (int)s.below(30)); NOTE("generate %d bits", bits); cls("generation"); rc = RaRsaCreateKeyPair(bits, &q); CHECK(rc != 0 && !q, "generating a key of %d bits returned %d", bits, rc); }
    else if (op == 1) { Bytes b = s.bytes(s.below(12)); int fn = s.below(3), len = s.below(4) ? (int)b.size() : -(int)s.below(300); b.resize(12); NOTE("import function %d of %d bytes: %s", fn, len, hex(b).c_str()); cls("short import"); rc = fn == 0 ? RaRsaCreateKeyPub(b.data(), len, &q) : fn == 1 ? RaRsaCreateKeyPriv(b.data(), len, &q) : RaRsaCreateKeyFromByteArray(b.data(), len, &q); if (fn == 0 && rc == 0) { RaRsaDestroyKeyPair(q); throw Discard(); } CHECK(rc != 0 && !q, "importing %d bytes returned %d", len, rc); }
    else { RsaKey k; for (int i = 0; i < 8; i++) k.comp(i) = Z::be(s.bytes(1 + s.below(30))) + Z(1); k.n = op == 2 ? Z(0) : k.n * Z(2); k.priv = true; int form = s.below(4); Bytes b = form == 0 ? derPub(k) : form == 1 ? derPriv(k) : form == 2 ? derSpki(k) : derPkcs8(k); NOTE("modulus %s form %d", zs(k.n), form); cls(op == 2 ? "zero modulus" : "even modulus"); rc = form == 0 ? RaRsaCreateKeyPub(b.data(), b.size(), &q) : form == 1 ? RaRsaCreateKeyPriv(b.data(), b.size(), &q) : RaRsaCreateKeyFromByteArray(b.data(), b.size(), &q); CHECK(rc != 0 && !q, "importing a key with modulus %s returned %d", zs(k.n), rc); }
    lk.done("refused key");
}
