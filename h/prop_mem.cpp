// C35: calls that take byte buffers touch only the bytes they are given. Every buffer is exact: in the sanitizer
// builds a heap block of its own, otherwise one ending at (or beginning after) an inaccessible page, inputs read-only.
#include "der.h"
#include "dgst.h"
#include "ciph.h"
#include <memory>
#include <sys/mman.h>
#include <unistd.h>
extern "C" void entropySeed(uint64_t);

static bool heapMode() { static const bool h = strncmp(flavour(), "asan", 4) == 0; return h; }
struct Slot { uint8_t *p; bool used; };
static const size_t ROOM = 160 * 1024; // of each slot, between inaccessible pages
static Slot *slotNew() {
    static Slot pool[24]; static size_t pg = sysconf(_SC_PAGESIZE);
    for (auto &x : pool) if (!x.used) { if (!x.p) { uint8_t *m = (uint8_t *)mmap(NULL, ROOM + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); CHECK(m != MAP_FAILED, "harness: mmap"); x.p = m + pg; CHECK(!mprotect(x.p, ROOM, PROT_READ | PROT_WRITE), "harness: mprotect"); } x.used = true; return &x; }
    failf("harness: out of slots");
}
enum { ROOMY = 0, HIGH = 1, LOW = 2 };            // in the middle of a larger block; ending at the edge; beginning at the edge
struct Mem {
    size_t n; uint8_t *p; int where; bool ro; Slot *sl = NULL; std::unique_ptr<Guard> g; Bytes roomy; Bytes orig; static const int Z = 96;
    Mem(int where_, size_t n_, const uint8_t *init = NULL, bool input = false) : n(n_), where(where_), ro(input && !heapMode() && where_ != ROOMY) {
        if (where == ROOMY) { roomy.assign(n + 2 * Z, 0x5a); p = roomy.data() + Z; }
        else if (heapMode()) { g.reset(new Guard(n, 0)); p = g->p; }
        else { CHECK(n + Z <= ROOM, "harness: buffer size"); sl = slotNew(); p = where == HIGH ? sl->p + ROOM - n : sl->p; memset(where == HIGH ? p - Z : p, 0xc3, n + Z); }
        if (init && n) memcpy(p, init, n); else if (!init && where != ROOMY) memset(p, 0xc3, n);
        if (input) orig.assign(p, p + n); if (ro) CHECK(!mprotect(sl->p, ROOM, PROT_READ), "harness: mprotect");
    }
    ~Mem() { if (sl) { if (ro) mprotect(sl->p, ROOM, PROT_READ | PROT_WRITE); sl->used = false; } }
    Mem(const Mem &) = delete; Mem &operator=(const Mem &) = delete;
    void done(const char *what) const {
        CHECK(orig.empty() || !memcmp(orig.data(), p, n), "%s: an input was modified", what);
        if (sl && where == HIGH) for (int i = 1; i <= Z; i++) CHECK(p[-i] == 0xc3, "%s: byte %d before a %zu byte buffer was overwritten", what, i, n);
        if (sl && where == LOW) for (int i = 0; i < Z; i++) CHECK(p[n + i] == 0xc3, "%s: byte %d past the end of a %zu byte buffer was overwritten", what, i, n);
        if (where == ROOMY) for (int i = 0; i < Z; i++) CHECK(roomy[i] == 0x5a && p[n + i] == 0x5a, "%s: memory around a %zu byte buffer was overwritten", what, n);
    }
};
struct Step { int k = 0, a = 0, b = 0; Bytes d; };
typedef std::vector<Step> Steps;
// where[i & 7] places the i-th buffer; the transcript must not depend on the placement
struct Place { const uint8_t *w; int i = 0; int next() { return w ? w[i++ & 7] : ROOMY; } };

static int dSize(int a) { switch (a) { case D_MD2: return sizeof(struct RaMd2Ctx); case D_MD4: return sizeof(struct RaMd4Ctx); case D_MD5: return sizeof(struct RaMd5Ctx); case D_SHA1: return sizeof(struct RaSha1Ctx); case D_HAS160: return sizeof(struct RaHas160Ctx); default: return sizeof(struct RaSha2Ctx); } }
static void runDigest(const Steps &st, Place w, std::string &r) { // st[0]: algorithm, way
    int a = st[0].a, how = st[0].b; Mem o(w.next(), dlen[a]);
    if (how == 0 && st.size() == 2) { Mem m(w.next(), st[1].d.size(), st[1].d.data(), true); if (dOneShot(a, m.p, (int)m.n, o.p)) { m.done(dname[a]); o.done(dname[a]); r += hex(o.p, dlen[a], 64); return; } }
    int al = 16; void *c = NULL; std::unique_ptr<Mem> cm; if (how == 1) CHECK(dCreate(a, &c) == RA_ERR_SUCCESS, "create failed"); else { int sz = (dSize(a) + al - 1) / al * al; cm.reset(new Mem(w.next() ? HIGH : ROOMY, sz)); c = cm->p; if (((uintptr_t)c & 7)) { cm.reset(new Mem(ROOMY, sz + 8)); c = (void *)(((uintptr_t)cm->p + 7) & ~(uintptr_t)7); } dInit(a, c, how == 2); }
    for (size_t i = 1; i < st.size(); i++) { Mem m(w.next(), st[i].d.size(), st[i].d.data(), true); dUpdate(a, c, m.p, (int)m.n, how == 2); m.done(dname[a]); }
    dFinal(a, c, o.p, how == 2); o.done(dname[a]); r += hex(o.p, dlen[a], 64); if (how == 1) dDestroy(a, c); else cm->done(dname[a]);
}
static void runCipher(const Steps &st, Place w, std::string &r) { // st[0]: cipher, mode, key; st[1]: iv; then pieces (k: 0 enc 1 dec 2 encfinal 3 decfinal 4 setiv 5 init)
    int c = st[0].a, B = cblk[c]; Mem k(w.next(), st[0].d.size(), st[0].d.data(), true); Lib L(c, k.p, (int)k.n, st[0].b); int fill = 0; k.done("key");
    { Mem iv(w.next(), B, st[1].d.data(), true); L.setiv(iv.p); iv.done("IV"); }
    for (size_t i = 2; i < st.size(); i++) { const Step &x = st[i]; size_t n = x.d.size();
        if (x.k == 4) { Mem iv(w.next(), B, x.d.data(), true); L.setiv(iv.p); iv.done("IV"); fill = 0; continue; }
        if (x.k == 5) { Mem k2(w.next(), st[0].d.size(), st[0].d.data(), true); L.init(c, k2.p, (int)k2.n, x.a); k2.done("key"); fill = 0; continue; }
        size_t whole = (fill + n) / B * B, room = whole; bool fin = x.k & 2; if (x.k == 2 && x.a && ((fill + n) % B || x.a == 2)) room += B;
        int got; const char *what = cname[c];
        if (x.b && !fill) { // in place: the buffer holds the larger of input and output
            Bytes t = x.d; t.resize(std::max(n, room)); Mem io(w.next(), t.size(), t.data()); got = x.k == 0 ? L.enc(io.p, (int)n, io.p) : x.k == 1 ? L.dec(io.p, (int)n, io.p) : x.k == 2 ? L.encf(io.p, (int)n, io.p, x.a) : L.decf(io.p, (int)n, io.p, x.a); CHECK(got >= 0 && got <= (int)room, "%s returned %d", what, got); r += "|" + hex(io.p, got, 200000); io.done(what);
        } else { Mem in(w.next(), n, x.d.data(), true), out(w.next(), room);
            got = x.k == 0 ? L.enc(in.p, (int)n, out.p) : x.k == 1 ? L.dec(in.p, (int)n, out.p) : x.k == 2 ? L.encf(in.p, (int)n, out.p, x.a) : L.decf(in.p, (int)n, out.p, x.a);
            CHECK(got >= 0 && got <= (int)room, "%s returned %d", what, got); r += "|" + hex(out.p, got, 200000); in.done(what); out.done(what); }
        fill = fin ? 0 : (fill + n) % B; Mem iv(w.next(), B); L.getiv(iv.p); iv.done("IV read back"); if (x.k < 2 || st[0].b) r += hex(iv.p, B);
    }
}
static void runRc4(const Steps &st, Place w, std::string &r) {
    struct RaRc4Ctx *x; { Mem k(w.next(), st[0].d.size(), st[0].d.data(), true); CHECK(!RaRc4Create(k.n ? k.p : NULL, (int)k.n, &x), "create"); k.done("RC4 key"); }
    for (size_t i = 1; i < st.size(); i++) { const Bytes &d = st[i].d; if (st[i].b) { Mem io(w.next(), d.size(), d.data()); RaRc4Encrypt(x, io.p, (int)io.n, io.p); r += hex(io.p, io.n, 200000); io.done("RC4"); } else { Mem in(w.next(), d.size(), d.data(), true), o(w.next(), d.size()); RaRc4Decrypt(x, in.p, (int)in.n, o.p); r += hex(o.p, o.n, 200000); in.done("RC4"); o.done("RC4"); } }
    RaRc4Destroy(x);
}
static void runRandom(const Steps &st, Place w, std::string &r) {
    static const enum RaRandomAlgorithm alg[4] = {RA_RAND_SHA160, RA_RAND_SHA256, RA_RAND_SHA512, RA_RAND_MD5}; struct RaRandom *g; { Mem sd(w.next(), st[0].d.size(), st[0].d.data(), true); CHECK(!RaRandomCreate(alg[st[0].a], sd.p, (int)sd.n, &g), "create"); sd.done("seed"); }
    for (size_t i = 1; i < st.size(); i++) { Mem o(w.next(), st[i].b); if (st[i].a) CHECK(!BnGenRandomByteArray(o.p, (int)o.n, g), "BnGenRandomByteArray failed"); else RaRandomBytes(g, (int)o.n, o.p); o.done("random bytes"); r += hex(o.p, o.n, 200000); }
    RaRandomDestroy(g);
}
static void runNumber(const Steps &st, Place w, std::string &r) { // import, export minimal and fixed
    const Bytes &d = st[0].d; bool sg = st[0].a; Mem in(w.next(), d.size(), d.data(), true); struct RaBigNumber *a = BnNewW((int)d.size() / BN_WORD_BYTE + 1); int rc = sg ? BnSetByteArray(a, in.p, (int)in.n) : BnSetUByteArray(a, in.p, (int)in.n); in.done("number import"); CHECK(rc == 0, "import of %zu bytes returned %d", d.size(), rc);
    int need = BnToByteArray(a, NULL, 0); r += std::to_string(need); for (int i = 0; i < 3; i++) { int len = need + (i == 0 ? 0 : i == 1 ? -1 : st[0].b); if (len < 0) len = 0; Mem o(w.next(), len); int q = BnToByteArray(a, o.p, len); o.done("number export"); r += "|" + std::to_string(q); if (q > 0) r += hex(o.p, std::min(len, q), 200000); }
    if (!a->sign) { need = BnToFixedByteArray(a, NULL, 0); r += std::to_string(need); for (int i = 0; i < 3; i++) { int len = need + (i == 0 ? 0 : i == 1 ? -1 : st[0].b); if (len < 0) len = 0; Mem o(w.next(), len); int q = BnToFixedByteArray(a, o.p, len); o.done("fixed export"); r += "|" + std::to_string(q); if (q > 0) r += hex(o.p, std::min(len, q), 200000); } }
    BnFree(a);
}
static void runKey(const Steps &st, Place w, std::string &r) {
    const Bytes &d = st[0].d; int fn = st[0].a; struct RaRsaKeyPair *k = NULL; int rc; entropySeed(3); { Mem in(w.next(), d.size(), d.data(), true); rc = fn == 0 ? RaRsaCreateKeyPub(in.p, (int)in.n, &k) : fn == 1 ? RaRsaCreateKeyPriv(in.p, (int)in.n, &k) : RaRsaCreateKeyFromByteArray(in.p, (int)in.n, &k); in.done("key import"); }
    r += std::to_string(rc); if (rc) return;
    for (int priv = 0; priv < 2; priv++) { int need = -1; rc = priv ? RaRsaPrivKeyToByteArray(k, NULL, 0, &need) : RaRsaPubKeyToByteArray(k, NULL, 0, &need); r += "|" + std::to_string(rc); if (rc) continue;
        for (int i = 0; i < 3; i++) { int len = i == 0 ? need : i == 1 ? need - 1 : st[0].b % need, l = -1; Mem o(w.next(), len); rc = priv ? RaRsaPrivKeyToByteArray(k, o.p, len, &l) : RaRsaPubKeyToByteArray(k, o.p, len, &l); o.done("key export"); r += "," + std::to_string(rc); if (rc == 0) r += hex(o.p, len, 200000); } }
    RaRsaDestroyKeyPair(k);
}
static void both(Src &s, const char *what, const Steps &st, void (*f)(const Steps &, Place, std::string &)) {
    uint8_t w[8]; int style = s.below(4); for (auto &x : w) x = style == 0 ? HIGH : style == 1 ? LOW : 1 + s.below(2); std::string a, b; LeakCheck lk;
    f(st, Place{NULL}, a); f(st, Place{w}, b); size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    CHECK(a == b, "%s: the result depends on where the buffers lie: ...%s against ...%s", what, a.substr(i > 20 ? i - 20 : 0, 60).c_str(), b.substr(i > 20 ? i - 20 : 0, 60).c_str()); lk.done(what); cls(what);
}
static size_t genLen(Src &s, int B) { int z = s.below(200); return z == 199 ? s.below(70000) : z >= 190 ? s.below(3000) : s.len(200, B); }
PROP(C35, digests, 2, "*", "a message that is not empty") {
    Steps st(1); int a = st[0].a = s.below(NALG); st[0].b = s.below(4); int k = 1 + s.below(s.below(2) ? 1 : 5); size_t tot = 0; for (int i = 0; i < k; i++) { Step x; size_t n = genLen(s, dblk[a]); if (a == D_MD2 && n > 2000) n = 2000; x.d = n > 500 ? s.rnd(n) : s.bytes(n); tot += n; st.push_back(x); } if (tot) nontrivial(); NOTE("%s way %d, %d pieces, %zu bytes", dname[a], st[0].b, k, tot); both(s, dname[a], st, runDigest);
}
PROP(C35, ciphers, 4, "*", "at least one byte was processed") {
    Steps st(2); int c = st[0].a = genCipher(s), B = cblk[c]; st[0].b = s.below(4); st[0].d = genKey(s, c); st[1].d = s.bytes(B); int k = 1 + s.below(5); bool dec = s.below(2); NOTE("%s %s", cname[c], mname[st[0].b]);
    for (int i = 0; i < k; i++) { Step x; int z = s.below(14); if (z == 13) { x.k = 4; x.d = s.bytes(B); NOTE("set IV"); } else if (z == 12) { x.k = 5; x.a = s.below(4); NOTE("init %s", mname[x.a]); } else { bool fin = s.below(3) == 0; if (st.back().k >= 2) dec = s.below(2); x.k = dec + 2 * fin; x.a = s.below(3); x.b = s.below(4) == 0; size_t n = genLen(s, B); x.d = n > 500 ? s.rnd(n) : s.bytes(n); if (n) nontrivial(); NOTE("%s%s %zu bytes pad %s%s", dec ? "decrypt" : "encrypt", fin ? " final" : "", n, pname[x.a], x.b ? " in place" : ""); } st.push_back(x); }
    both(s, cname[c], st, runCipher);
}
PROP(C35, rc4, 1, "*", "at least one byte was processed") {
    Steps st(1); st[0].d = s.bytes(s.below(257)); int k = 1 + s.below(4); for (int i = 0; i < k; i++) { Step x; x.b = s.below(3) == 0; size_t n = genLen(s, 64); x.d = n > 500 ? s.rnd(n) : s.bytes(n); if (n) nontrivial(); st.push_back(x); } NOTE("RC4 key of %zu bytes, %d calls", st[0].d.size(), k); both(s, "RC4", st, runRc4);
}
PROP(C35, random, 1, "*", "at least one byte was drawn") {
    Steps st(1); st[0].a = s.below(4); st[0].d = s.bytes(s.below(150)); int k = 1 + s.below(5); for (int i = 0; i < k; i++) { Step x; x.a = s.below(4) == 0; x.b = (int)genLen(s, 32); if (x.b) nontrivial(); st.push_back(x); } NOTE("generator %d, seed of %zu bytes, %d requests", st[0].a, st[0].d.size(), k); both(s, "random bytes", st, runRandom);
}
PROP(C35, numbers, 2, "*", "a number of more than one word") {
    Steps st(1); st[0].a = s.below(2); st[0].b = s.below(20); size_t n = 1 + (s.below(60) == 59 ? s.below(9000) : s.below(60)); st[0].d = n > 500 ? s.rnd(n) : s.bytes(n); if (s.below(4) == 0) for (size_t i = 0; i < n && i < 1 + s.below(12); i++) st[0].d[i] = st[0].a && s.below(2) ? 0xff : 0; if (n > BN_WORD_BYTE) nontrivial(); NOTE("%s import of %s", st[0].a ? "signed" : "unsigned", hex(st[0].d, 100).c_str()); both(s, "number import and export", st, runNumber);
}
PROP(C35, keys, 3, "*", "a key of any kind was read") {
    RsaKey k; int w = 1 + s.below(s.below(40) == 39 ? 80 : 10); for (int i = 0; i < 8; i++) k.comp(i) = Z::be(s.bytes(1 + s.below(w * 8))); if (!k.n.odd()) k.n = k.n + Z(1); k.priv = true; Forms f; f.f = [&]() { return s.below(4) ? 0 : (int)s.below(6); };
    Steps st(1); int form = s.below(4); st[0].a = s.below(4) ? form : (int)s.below(3); if (st[0].a > 2) st[0].a = 2; if (form == 2) st[0].a = 2; Bytes b = form == 0 ? derPub(k, f) : form == 1 ? derPriv(k, f) : form == 2 ? derSpki(k, f) : derPkcs8(k, f);
    switch (s.below(4)) { case 0: b.resize(s.below(b.size() + 1)); break; case 1: for (int i = 0, m = 1 + s.below(4); i < m && !b.empty(); i++) b[s.below(std::min<size_t>(b.size(), s.below(2) ? 30 : 4000))] = s.below(2) ? s.u8() : s.one<uint8_t>({0, 0x80, 0x81, 0x82, 0x84, 0x7f, 0xff, 0x30, 2}); break; default:; }
    if (b.size() > ROOM - 200) throw Discard(); st[0].b = s.below(1 << 14); st[0].d = b; if (b.size() > 4) nontrivial(); NOTE("import function %d of %s", st[0].a, hex(b, 400).c_str()); both(s, "RSA key", st, runKey);
}
