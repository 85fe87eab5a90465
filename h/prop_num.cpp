// C18 gcd, C19 modular exponentiation, C20/C21 primes, C22-C24 random
#include "bn.h"
#include <math.h>
#include <set>
extern "C" void entropySeed(uint64_t);

// ---- C18 ---------------------------------------------------------------------
static Z genNonZero(Src &s, int w) { Z z = genZ(s, w); return z.zero() ? Z(1) : z; }
// pairs with interesting quotient sequences
static void genPair(Src &s, Z &m, Z &n, int maxw) {
    switch (s.below(8)) {
    case 0: { // built from a chosen continued fraction: long and skewed quotient sequences
        Z a(1), b(0); int k = 1 + s.below(40);
        for (int i = 0; i < k; i++) { Z q = s.below(6) == 0 ? Z::u(s.word(64)) : (s.below(8) == 0 ? genMag(s, 4) : Z((long)s.below(4) + 1)); if (q.zero()) q = Z(1); Z t = a * q + b; b = a; a = t; if (words(a) > maxw) break; }
        m = a; n = b.zero() ? Z(1) : b; Z g = s.below(2) ? Z(1) : genMag(s, 3); if (g.zero()) g = Z(1); m = m * g; n = n * g; break; }
    case 1: { Z g = genMag(s, maxw / 2); if (g.zero()) g = Z(1); m = g * genMag(s, maxw / 2 + 1); n = g * genMag(s, maxw / 2 + 1); break; }
    case 2: { m = genMag(s, maxw); n = m; break; }
    case 3: { n = genMag(s, maxw); m = n * genMag(s, 3); if (s.below(2)) std::swap(m, n); break; }
    case 4: { m = Z(1).shl(s.below(maxw * 64)); n = genMag(s, maxw); break; }
    case 5: { m = Z((long)s.below(40)); n = Z((long)s.below(40)); break; }
    default: m = genMag(s, maxw); n = s.below(2) ? genMag(s, maxw) : genNear(s, m, maxw).abs();
    }
    if (m.zero()) m = Z(1); if (n.zero()) n = Z(1);
}
PROP(C18, gcd, 3, "*", "both operands above one word, neither dividing the other") {
    Z m, n; genPair(s, m, n, thorough() ? 40 : 16);
    if (s.below(4) == 0) m = -m; if (s.below(4) == 0) n = -n;
    NOTE("gcd m=%s n=%s", zs(m), zs(n));
    if (m.bits() > WBITS && n.bits() > WBITS && !(m % n).zero() && !(n % m).zero()) nontrivial();
    cls(m.neg() || n.neg() ? "signed" : "positive");
    Z g = m.gcd(n); N lm(m, s.below(2)), ln(n, s.below(2));
    LeakCheck lk; int extra = s.below(2); int al = s.below(6);
    if (al == 0 && words(g) <= words(m)) { int rc = GetGCD(lm, lm, ln); CHECK(rc == RA_ERR_SUCCESS, "GetGCD (result is the first operand) returned %d", rc); expectBn(lm, g, "GetGCD into its first operand"); same(ln, n, "GetGCD second operand"); return; }
    { W r(words(g) + extra); int rc = GetGCD(r, lm, ln); CHECK(rc == RA_ERR_SUCCESS, "GetGCD returned %d", rc); expectBn(r, g, "GetGCD"); }
    same(lm, m, "GetGCD first operand"); same(ln, n, "GetGCD second operand"); lk.done("GetGCD");
}
PROP(C18, bezout, 5, "*", "both operands above one word, neither dividing the other") {
    Z m, n; genPair(s, m, n, thorough() ? 40 : 16);
    bool uns = s.below(2);
    if (!uns) { if (s.below(4) == 0) m = -m; if (s.below(4) == 0) n = -n; }
    int nul = s.below(8); // which outputs are wanted
    NOTE("gcdex m=%s n=%s unsigned=%d outputs=%d", zs(m), zs(n), uns, nul);
    if (m.bits() > WBITS && n.bits() > WBITS && !(m % n).zero() && !(n % m).zero()) nontrivial();
    cls(uns ? "unsigned" : "signed form"); Z g = m.gcd(n); if (g == Z(1)) cls("coprime");
    N lm(m), ln(n); bool wr = nul != 1 && nul != 4, wa = nul != 2 && nul != 4, wb = nul != 3 && nul != 5;
    // room for the widest admissible coefficient
    W r(words(g)), a(std::max(words(n), words(m)) + 1), b(std::max(words(n), words(m)) + 1);
    LeakCheck lk; int rc = GetGCDEx(wr ? (struct RaBigNumber *)r : NULL, wa ? (struct RaBigNumber *)a : NULL, wb ? (struct RaBigNumber *)b : NULL, lm, ln, uns);
    CHECK(rc == RA_ERR_SUCCESS, "GetGCDEx returned %d", rc);
    lk.done("GetGCDEx"); same(lm, m, "GetGCDEx first operand"); same(ln, n, "GetGCDEx second operand");
    if (wr) expectBn(r, g, "GetGCDEx gcd");
    Z za = val(a), zb = val(b);
    if (wa) { expectBn(a, za, "GetGCDEx a"); }
    if (wb) { expectBn(b, zb, "GetGCDEx b"); }
    if (!uns) {
        if (wa && wb) CHECK(za * m + zb * n == g, "a*m+b*n = %s, gcd is %s (a=%s b=%s)", zs(za * m + zb * n), zs(g), zs(za), zs(zb));
        if (wa && !wb) CHECK(((za * m - g) % n).zero(), "a*m is not congruent to the gcd: a=%s", zs(za));
        if (!wa && wb) CHECK(((zb * n - g) % m).zero(), "b*n is not congruent to the gcd: b=%s", zs(zb));
    } else {
        if (wa) { CHECK(!za.neg() && (za < n || za <= Z(1)), "a=%s is not a residue modulo n", zs(za)); CHECK(((za * m - g) % n).zero(), "a*m mod n is not the gcd: a=%s", zs(za)); }
        if (wb) { CHECK(!zb.neg() && (zb < m || zb <= Z(1)), "b=%s is not a residue modulo m", zs(zb)); CHECK(((zb * n - g) % m).zero(), "b*n mod m is not the gcd: b=%s", zs(zb)); }
    }
}
PROP(C18, inverse, 2, "*", "coprime pair above one word") {
    // outputs only as large as the operation needs: the inverse fits the modulus
    Z m, n; genPair(s, m, n, thorough() ? 40 : 16); if (n == Z(1)) n = Z(2);
    Z want; if (!m.inv(n, want)) throw Discard();
    if (n.bits() > WBITS) nontrivial();
    NOTE("inverse of %s mod %s", zs(m), zs(n));
    N lm(m), ln(n); W a(words(n)); LeakCheck lk;
    int rc = GetGCDEx(NULL, a, NULL, lm, ln, 1); CHECK(rc == RA_ERR_SUCCESS, "GetGCDEx returned %d", rc);
    expectBn(a, want, "inverse"); lk.done("GetGCDEx");
}

// ---- C19 ---------------------------------------------------------------------
static Z genOddMod(Src &s, int maxw) {
    Z n;
    switch (s.below(7)) {
    case 0: n = Z(1).shl(1 + s.below(maxw * 64 - 1)) + (s.below(2) ? Z(1) : Z(-1)); break;
    case 1: n = Z(1).shl(64 * (1 + s.below(maxw))) - Z::u(s.word(32)); break;
    case 2: n = Z((long)s.below(300)); break;
    case 3: { // low word(s) all ones / one: extreme Montgomery constants
        n = genMagW(s, 1 + s.below(maxw)); n = n.shr(64).shl(64) + Z::u(s.one<uint64_t>({1, ~0ull, 0x8000000000000001ull, 3, 0xffffffff00000001ull, 0x00000001ffffffffull})); break; }
    default: n = genMagW(s, 1 + s.below(maxw));
    }
    if (!n.odd()) n = n + Z(1);
    if (n == Z(1)) n = Z(3);
    return n;
}
static Z genExp(Src &s, int maxw) {
    switch (s.below(9)) {
    case 0: return Z((long)s.below(70));
    case 1: return Z(1).shl(s.below(maxw * 64));
    case 2: return Z(1).shl(1 + s.below(maxw * 64)) - Z(1);
    case 3: { Z e(0); int k = 1 + s.below(6); for (int i = 0; i < k; i++) e = e + Z(1).shl(s.below(maxw * 64)); return e; } // sparse: long zero runs between windows
    case 4: { Z e = genMag(s, maxw); return e.shl(s.below(70)); }
    case 5: return Z::u(s.word(64));
    case 6: { // nibble patterns around the four-bit window
        Z e(0); int k = 1 + s.below(maxw * 16); static const int pat[] = {0, 1, 2, 4, 8, 3, 5, 9, 15, 7, 11, 13}; Bytes b = s.rnd(k); for (int i = 0; i < k; i++) e = e.shl(4) + Z((long)pat[b[i] % 12]); return e; }
    default: return genMag(s, maxw);
    }
}
static Z genBase(Src &s, const Z &n) {
    Z b;
    switch (s.below(9)) {
    case 0: b = Z((long)s.below(4)); break;
    case 1: b = n - Z((long)s.below(3)); break;
    case 2: b = n + Z((long)s.below(3)); break;
    case 3: b = Z(1).shl(words(n) * WBITS) - Z((long)s.below(4) + 1); break;
    case 4: b = Z(1).shl(s.below(words(n) * WBITS)); break;
    case 5: b = genMag(s, 6); break;
    default: b = Z::le(s.bytes((size_t)words(n) * WB).data(), (size_t)words(n) * WB);
    }
    if (b.neg() || words(b) > words(n)) b = b.abs() % Z(1).shl(words(n) * WBITS);
    return b;
}
PROP(C19, expmod, 6, "*", "modulus above one word, base and exponent above 1") {
    int mw = thorough() ? 34 : 12, rare = s.below(1200); bool huge = rare >= 1192; if (huge) { mw = rare >= 1198 ? 70 : 34; caseCpuLimit(60); cls("modulus above 768 bits"); } Z n = genOddMod(s, huge ? mw : s.below(3) ? 4 : mw); Z a0 = genBase(s, n);
    NOTE("modulus %s", zs(n));
    LeakCheck lk; int rc;
    { N ln(n, s.below(2)); struct RaMontCtx *c = NULL; rc = RaMontCreate(ln, &c); CHECK(rc == RA_ERR_SUCCESS && c, "RaMontCreate returned %d", rc); same(ln, n, "RaMontCreate modulus");
      if (s.below(3) == 0) ln.set(Z(0)); // the context is its own copy
      int uses = 1 + s.below(huge ? 2 : 4);
      for (int i = 0; i < uses; i++) {
          Z a = i ? genBase(s, n) : a0, e = genExp(s, s.below(4) ? 3 : words(n) * WBITS / 64 + 2);
          NOTE("base %s exponent %s", zs(a), zs(e));
          if (n.bits() > WBITS && a > Z(1) && e > Z(1)) nontrivial();
          if (e.zero()) cls("exponent 0"); if (a.zero()) cls("base 0"); if (a >= n) cls("base not reduced");
          N la(a), le(e, s.below(2)); Z want = a.powm(e, n); int al = s.below(6);
          if (al == 0) { N la2(a, words(n) - words(a)); rc = RaMontExpMod(c, la2, la2, le); CHECK(rc == RA_ERR_SUCCESS, "RaMontExpMod (in place) returned %d", rc); expectBn(la2, want, "RaMontExpMod into its base"); }
          else if (al == 1 && words(e) >= words(n)) { rc = RaMontExpMod(c, le, la, le); CHECK(rc == RA_ERR_SUCCESS, "RaMontExpMod (into the exponent) returned %d", rc); expectBn(le, want, "RaMontExpMod into its exponent"); same(la, a, "RaMontExpMod base"); continue; }
          else { W r(words(n) + (int)s.below(2)); r.set(s.below(2) ? Z(0) : -Z(7)); rc = RaMontExpMod(c, r, la, le); CHECK(rc == RA_ERR_SUCCESS, "RaMontExpMod returned %d", rc); expectBn(r, want, "RaMontExpMod"); same(la, a, "RaMontExpMod base"); }
          same(le, e, "RaMontExpMod exponent");
      }
      RaMontDestroy(c); }
    lk.done("modular exponentiation");
}

// ---- C20 ---------------------------------------------------------------------
static Z genPrimeNear(Src &s, int bits) { // deterministic: next prime after a random start
    Z p = Z::be(s.rnd((bits + 7) / 8)); p = p % Z(1).shl(bits); if (p < Z(2)) p = Z(2); if (!p.odd() && p != Z(2)) p = p + Z(1);
    while (!p.prime()) p = p + Z(p == Z(2) ? 1 : 2);
    return p;
}
static int isPrime(const Z &z) { N l(z); LeakCheck lk; int rc = RaIsPrimeNumber(l); same(l, z, "RaIsPrimeNumber operand"); lk.done("RaIsPrimeNumber"); CHECK(rc == RA_ERR_SUCCESS || rc == RA_ERR_INVALID_DATA, "RaIsPrimeNumber(%s) returned %d", zs(z), rc); return rc == RA_ERR_SUCCESS; }
PROP(C20, small, 4, "*", "every number is decided against trial division") {
    long v = s.below(4) ? (long)s.below(5000) : (long)s.below(2000000); if (s.below(6) == 0) v = -v;
    caseCpuLimit(10); entropySeed(s.raw(3));
    Z z(v); nontrivial(); NOTE("isprime %ld", v);
    bool p = v > 1; for (long d = 2; d * d <= v && p; d++) if (v % d == 0) p = false;
    cls(p ? "prime" : v < 0 ? "negative" : "composite");
    int got = isPrime(z);
    if (p) CHECK(got, "the prime %ld was called composite", v);
    else if (got) { int acc = 1; for (int i = 0; i < 40; i++) acc += isPrime(z); CHECK(acc < 6, "the number %ld is not prime but was called prime in %d of 41 calls", v, acc); }
}
static Z genComposite(Src &s, const char **kind) {
    int b = 8 + s.below(thorough() ? 500 : 120);
    switch (s.below(8)) {
    case 0: { Z p = genPrimeNear(s, b); *kind = "square of a prime"; return p * p; }
    case 1: { *kind = "product of two primes"; return genPrimeNear(s, b) * genPrimeNear(s, b); }
    case 2: { *kind = "negative prime"; return -genPrimeNear(s, b); }
    case 3: { // Carmichael numbers
        static const long c[] = {561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 825265, 321197185L, 5394826801L, 232250619601L, 9746347772161L, 1436697831295441L, 60977817398996785L, 7156857700403137441L};
        *kind = "Carmichael"; return Z(c[s.below(sizeof c / sizeof *c)]); }
    case 4: { static const char *sp[] = {"3215031751", "3474749660383", "341550071728321", "3825123056546413051", "318665857834031151167461", "3317044064679887385961981"}; // strong pseudoprimes to the first primes
        Z z; BN_dec2bn(&z.b, sp[s.below(6)]); *kind = "strong pseudoprime to small bases"; return z; }
    case 5: { *kind = "even"; Z z = genMag(s, 8).shl(1); return z == Z(2) ? Z(4) : z; }
    case 6: { *kind = "prime times small"; return genPrimeNear(s, b) * Z((long)(3 + 2 * s.below(60))); }
    default: { *kind = "neighbour of a prime"; Z p = genPrimeNear(s, b); return p + Z(s.below(2) ? 2 : 4); }
    }
}
PROP(C20, large, 4, "*", "prime or composite above 32 bits") {
    caseCpuLimit(60); entropySeed(s.raw(3));
    if (s.below(2)) {
        int b = s.below(8) == 0 ? (thorough() ? 1000 + s.below(100) : 500 + s.below(100)) : 8 + s.below(300);
        Z p; const char *k = "prime"; if (s.below(300) == 299) { p = Z(1).shl(s.below(3) ? 1279 : 2203) - Z(1); cls("above 1024 bits"); goto have; }
        switch (s.below(5)) {
        case 0: { static const int mer[] = {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279}; p = Z(1).shl(mer[s.below(thorough() ? 15 : 14)]) - Z(1); k = "Mersenne prime"; break; } // n-1 = 2*odd
        case 1: { static const int f[] = {1, 2, 4, 8, 16}; p = Z(1).shl(f[s.below(5)]) + Z(1); k = "Fermat prime"; break; }               // n-1 = 2^k
        case 2: { // Proth primes k*2^m+1: large power of two in n-1
            int m = 20 + s.below(180); p = Z::u(1 + 2 * s.below(500)).shl(m) + Z(1); while (!p.prime()) p = p + Z(1).shl(m + 1); k = "prime with a large power of two below it"; break; }
        default: p = genPrimeNear(s, b);
        }
    have:
        NOTE("%s %s", k, zs(p)); cls(k); if (p.bits() > 32) nontrivial();
        CHECK(isPrime(p), "the prime %s was called composite", zs(p));
    } else {
        const char *k; Z c = genComposite(s, &k); if (s.below(300) == 299) { static const int m[] = {521, 607, 1279}; c = (Z(1).shl(m[s.below(3)]) - Z(1)) * (Z(1).shl(m[s.below(3)]) - Z(1)); k = "product of Mersenne primes"; } if (c.prime()) throw Discard();
        NOTE("%s %s", k, zs(c)); cls(k); if (c.bits() > 32) nontrivial();
        if (isPrime(c)) { int acc = 1; for (int i = 0; i < 40; i++) acc += isPrime(c); CHECK(acc < 6, "the composite %s was called prime in %d of 41 calls", zs(c), acc); }
    }
}
// composites for which almost a quarter of all bases lie: the rounds must bring the error down
PROP(C20, worst_composites, 1, "default,w4,asan", "n=(k+1)(2k+1) with about n/4 strong liars, many calls") {
    caseCpuLimit(120); entropySeed(s.raw(3));
    static const char *tab[] = {
"c6a5387777330bdbd7210dff076ce2ef87b0b125ec1d7da0a6eb8c9ebd69fe29d76d4330f1446beab0c11fdecb91ce375bc8fbbcbde5c0994164d8399f782663",
"1975bad1e1df89f876ab176552c12b4c650ac584e36d37cdb39f09e5eb0b05ed0fe4485b7e7c2fe7b36ac8dacff6772973b63484c2693a57235a7c4adbc303cd7",
"14d2a1d0c55dfaef9b1ce74d1a09181d1b0bdeaa262149033df25239f83ba71038bf811867384393392cc272060cc4de029ed9bd1a2830d5324b4742bb91a2063",
"2863770768f37a449cbdc2ff311662cc2d37cbba3af11fd177dc3aa2dec3cb4aa189fe8396ff8b079463ddc332578d5d498309fe9d1c0f8d91e15e976b0e8821b",
"92a8345dc3f47af1ad6ea6dd95b0e3df820ccbfa6109edeae94f297a3447309cd2f9aae1b82ce798423f6a32ce86d216b656c1158ebde9d9761a8e49c7648d459f",
"e2b24b89b5a2edf44483f5c85329ffb20ac6b02353b32fd02803facd91a81114b9c57d8e0497f1865a35d7ed475c0c8d8b5862185eac98efbe1b452d59393ada7afac8c38f7351e9d3d52f"};
    bool big = s.below(400) == 399 && strncmp(flavour(), "asan", 4); Z p; int calls = 300, thr = 9;
    if (big) { // above 1024 bits three rounds are made: the primes are given, finding them is slow
        BN_hex2bn(&p.b, tab[s.below(6)]); calls = 1000; thr = 40; }
    else { int b = 20 + s.below(60); p = Z::be(s.rnd((b + 7) / 8)) % Z(1).shl(b); p = (p + Z(1).shl(b - 1)) % Z(1).shl(b); p = p.shr(2).shl(2) + Z(3);
        for (int i = 0;; i++, p = p + Z(4)) { Z q = p.shl(1) - Z(1); if (p.prime() && q.prime()) break; } }
    Z n = p * (p.shl(1) - Z(1)); nontrivial(); NOTE("%d calls on %s", calls, zs(n)); cls(big ? "3 rounds" : "5 rounds");
    int acc = 0; for (int i = 0; i < calls; i++) acc += isPrime(n);
    // at most 4^-5 (4^-3) per call is claimed: reaching the threshold by chance is below 1e-7
    CHECK(acc < thr, "the composite %s was called prime in %d of %d calls", zs(n), acc, calls);
}

// ---- C21 ---------------------------------------------------------------------
struct Prog { int last, stopAt, calls, bad, answer; };
static int onProgress(int c, void *u) { Prog *p = (Prog *)u; if (c != p->last + 1) p->bad = c; p->last = c; p->calls++; return p->stopAt && c >= p->stopAt ? p->answer : 0; }
static const enum RaRandomAlgorithm ALG[4] = {RA_RAND_SHA160, RA_RAND_SHA256, RA_RAND_SHA512, RA_RAND_MD5};
static bool unlucky(const Z &z) { // could five rounds really have missed this one?
    if (z.neg() || !z.odd() || z < Z(9)) return false;
    Z n1 = z - Z(1); int t = 0; while (BN_is_bit_set(n1.b, t) == 0) t++; Z d = n1.shr(t); int liars = 0; Rng r(99);
    for (int i = 0; i < 400; i++) { Bytes b((z.bits() + 7) / 8); r.fill(b.data(), b.size()); Z a = Z::be(b) % z; if (a < Z(2)) a = Z(2); Z x = a.powm(d, z); bool ok = x == Z(1) || x == n1; for (int k = 1; k < t && !ok; k++) { x = (x * x) % z; ok = x == n1; } liars += ok; }
    return liars > 60;
}
PROP(C21, generate, 6, "*", "a prime of more than 4 bits was produced") {
    int bits;
    switch (s.below(8)) { case 0: bits = 16; break; case 1: bits = 16 + s.below(4); break; case 2: bits = 60 + s.below(10); break; case 3: bits = 32 * (1 + s.below(6)) + (int)s.below(3) - 1; break; case 4: bits = 16 + s.below(thorough() ? 600 : 200); break; default: bits = 16 + s.below(60); }
    if (s.below(6) == 0) bits = 2 + s.below(16); // among the table of small primes
    if (s.below(500) == 499 && strncmp(flavour(), "asan", 4)) { bits = s.below(2) ? 256 + s.below(845) : 256 * (1 + s.below(4)) + (int)s.below(3) - 1; }
    if (s.below(6000) == 5999 && !strcmp(flavour(), "default")) bits = s.below(3) ? 1024 + s.below(100) : 1536 + s.below(600);
    if (bits < 2) bits = 2;
    caseCpuLimit(bits > 700 ? 400 : 60); bool own = s.below(4); Bytes seed = s.bytes(1 + s.below(24)); enum RaRandomAlgorithm alg = ALG[s.below(4)]; entropySeed(s.raw(4));
    int ex = s.below(3); bool cb = s.below(3) != 0; bool plain = !own && !cb && s.below(2);
    NOTE("generate %d bits own=%d seed=%s alg=%d callback=%d plain=%d", bits, own, hex(seed).c_str(), (int)alg, cb, plain);
    if (bits > 4) nontrivial(); cls(bits < 16 ? "below 16" : bits == 16 ? "16" : bits < 64 ? "17-63" : bits <= 128 ? "64-128" : bits < 256 ? ">128" : "256 and above");
    // the first candidate is made of zero and all-ones words (the witnesses come later in the stream)
    uint32_t load = own && s.below(4) == 0 ? 1 + s.below(1 << 20) : 0; uint8_t pat = 0; if (load) cls("chosen source");
    LeakCheck lk; Z first; int runs = own && s.below(2) ? 2 : 1; Prog pr[2];
    for (int k = 0; k < runs; k++) {
        struct RaRandom *r = NULL; if (own) { CHECK(RaRandomCreate(alg, seed.data(), seed.size(), &r) == RA_ERR_SUCCESS, "RaRandomCreate"); if (load) { Rng lr(load); for (size_t i = 0; i < (size_t)r->buffer_len && i < (size_t)(bits + WBITS - 1) / WBITS * (WBITS / 8); i++) { if (i % 8 == 0) lr.fill(&pat, 1); r->buffer[i] = pat % 3 == 0 ? 0 : 0xff; } r->buffer_offset = 0; } }
        { W bn((bits + WBITS - 1) / WBITS + (k ? 1 : ex)); if (k) bn.set(-Z(5)); pr[k] = Prog{0, 0, 0, 0, 0};
          int rc = plain ? RaGenPrimeNumber(bn, bits) : RaGenPrimeNumberEx(bn, bits, cb ? onProgress : NULL, &pr[k], r);
          CHECK(rc == RA_ERR_SUCCESS, "prime generation returned %d", rc);
          Z z = val(bn); expectBn(bn, z, "generated prime");
          CHECK(!z.neg() && z.bits() == bits, "asked for %d bits, got a number of %d bits: %s", bits, z.bits(), zs(z));
          CHECK(z.odd(), "generated number %s is even", zs(z));
          if (!z.prime()) { if (unlucky(z)) throw Discard(); failf("generated number %s is not prime", zs(z)); }
          if (cb) CHECK(pr[k].calls >= 1 && !pr[k].bad, "progress counts are not 1,2,3..: call with %d", pr[k].bad);
          if (k == 0) first = z; else { CHECK(z == first, "the same random source gave %s and then %s", zs(first), zs(z)); if (cb) CHECK(pr[0].calls == pr[1].calls, "the same random source took %d and then %d attempts", pr[0].calls, pr[1].calls); } }
        if (r) RaRandomDestroy(r);
    }
    lk.done("prime generation");
}
// sizes without primes are refused; below 8 bits every prime of the size can come out
PROP(C21, small_sizes, 1, "*", "every prime of the size was looked for") {
    int bits = (int)s.below(7) - 3; if (s.below(40) == 39) bits = 4 + s.below(5); caseCpuLimit(30); entropySeed(s.raw(4)); LeakCheck lk; Bytes seed = s.bytes(8); struct RaRandom *r = NULL; NOTE("%d bits", bits); cls(bits < 2 ? "no prime of this size" : "all primes of the size");
    { W bn(2); bn.set(Z(9));
    if (bits < 2) { bool cb = s.below(2); Prog p{0, 0, 0, 0, 0}; int rc = cb ? RaGenPrimeNumberEx(bn, bits, onProgress, &p, NULL) : RaGenPrimeNumber(bn, bits); CHECK(rc != RA_ERR_SUCCESS, "a prime of %d bits was asked for and success reported", bits); nontrivial(); }
    else { std::vector<char> seen(512); CHECK(RaRandomCreate(RA_RAND_SHA256, seed.data(), seed.size(), &r) == RA_ERR_SUCCESS, "RaRandomCreate"); int draws = 80 << (bits - 2); if (draws < 200) draws = 200; if (bits > 6 && !thorough()) bits = 6, draws = 1280;
        for (int i = 0; i < draws; i++) { CHECK(RaGenPrimeNumberEx(bn, bits, NULL, NULL, r) == RA_ERR_SUCCESS, "prime of %d bits failed", bits); unsigned long v = _BnGetUInt32(bn); CHECK(v >> (bits - 1) == 1 && val(bn) == Z((long)v), "asked for %d bits, got %s", bits, zs(val(bn))); for (unsigned long d = 2; d * d <= v; d++) CHECK(v % d, "asked for a prime of %d bits, got %lu = %lu * %lu", bits, v, d, v / d); seen[v] = 1; }
        // a prime comes out at least when the draw is that prime: chance 2^-(bits-2) each, absent in all draws with chance below e^-80
        for (unsigned long v = 1ul << (bits - 1); v < 1ul << bits; v++) { bool pr = v > 1; for (unsigned long d = 2; d * d <= v; d++) if (v % d == 0) pr = false; if (pr && v > 2) CHECK(seen[v], "the %d bit prime %lu never came out in %d draws", bits, v, draws); } nontrivial(); RaRandomDestroy(r); } }
    lk.done("prime generation");
}
PROP(C21, stop, 2, "*", "the callback stopped the search") {
    int bits = 16 + s.below(100); Prog p{0, 1 + (int)s.below(3), 0, 0, s.one<int>({1, -1, 2, -2, 256, -256, 65536, 0x7fffffff, (int)0x80000000})}; entropySeed(s.raw(4)); caseCpuLimit(30);
    struct RaRandom *r = NULL; Bytes seed = s.bytes(4); LeakCheck lk; if (s.below(2)) CHECK(RaRandomCreate(RA_RAND_SHA256, seed.data(), 4, &r) == RA_ERR_SUCCESS, "RaRandomCreate");
    NOTE("stop after %d of a %d bit search by answering %d", p.stopAt, bits, p.answer);
    { W bn((bits + WBITS - 1) / WBITS); bn.set(Z(9)); int rc = RaGenPrimeNumberEx(bn, bits, onProgress, &p, r); (void)rc; CHECK(!p.bad, "progress count jumped to %d", p.bad); CHECK(p.calls <= p.stopAt, "the callback asked to stop at call %d but was called %d times", p.stopAt, p.calls); if (p.calls == p.stopAt) { nontrivial(); cls("stopped"); } }
    if (r) RaRandomDestroy(r); lk.done("prime generation");
}

// ---- C22 ---------------------------------------------------------------------
PROP(C22, random_numbers, 4, "*", "more than one bit requested") {
    int bits = s.below(3) ? 1 + s.below(200) : (s.below(2) ? WBITS * (1 + s.below(5)) + (int)s.below(3) - 1 : 1 + s.below(2000)); int kind = s.below(3);
    Bytes seed = s.bytes(s.below(20) + 1); enum RaRandomAlgorithm alg = ALG[s.below(4)]; bool own = s.below(6) != 0; entropySeed(s.raw(3));
    NOTE("%s %d bits alg %d own %d", kind == 0 ? "random" : kind == 1 ? "odd" : "RSA", bits, (int)alg, own); if (bits > 1) nontrivial(); cls(kind == 0 ? "random" : kind == 1 ? "odd" : "RSA");
    int w = (bits + WBITS - 1) / WBITS; Z ors(0), ands = Z(1).shl(bits) - Z(1); Z seen[2][12]; int draws = 96;
    LeakCheck lk; int passes = own ? 2 : 1;
    for (int pass = 0; pass < passes; pass++) {
        struct RaRandom *r = NULL; if (own) CHECK(RaRandomCreate(alg, seed.data(), seed.size(), &r) == RA_ERR_SUCCESS, "RaRandomCreate");
        W bn(w + (pass ? 2 : (int)s.below(2)));
        for (int i = 0; i < draws; i++) {
            if (i % 3 == pass) bn.set(pass ? -Z(3) : genZ(s, 1) % Z(1).shl(WBITS)); // what it held before must not matter
            int rc = kind == 0 ? BnGenRandom(bn, bits, r) : kind == 1 ? BnGetRandomOdd(bn, bits, r) : BnGetRandomRSA(bn, bits, r);
            CHECK(rc == RA_ERR_SUCCESS, "random number of %d bits returned %d", bits, rc);
            Z z = val(bn); expectBn(bn, z, "random number"); CHECK(!z.neg() && z.bits() <= bits, "random number of %d bits is %s (%d bits)", bits, zs(z), z.bits());
            if (kind) CHECK(z.odd(), "odd random number is even: %s", zs(z)); if (kind == 2) CHECK(z.bits() == bits, "RSA random number of %d bits has %d", bits, z.bits());
            if (i < 12) seen[pass][i] = z;
            if (pass == 0) { Z t; t = z; for (int k = 0; k < bits; k++) { if (BN_is_bit_set(z.b, k)) BN_set_bit(ors.b, k); else if (BN_is_bit_set(ands.b, k)) BN_clear_bit(ands.b, k); } }
        }
        if (r) RaRandomDestroy(r);
        if (pass) for (int i = 0; i < 12; i++) CHECK(seen[0][i] == seen[1][i], "the same random source gave %s and then %s at draw %d", zs(seen[0][i]), zs(seen[1][i]), i);
    }
    Z full = Z(1).shl(bits) - Z(1); Z fix(0); if (kind >= 1) fix = Z(1); if (kind == 2) BN_set_bit(fix.b, bits - 1);
    // a bit constant over 96 draws by chance: 2^-95
    CHECK(ors == full, "over %d draws of %d bits some bit was never 1: union %s", draws, bits, zs(ors));
    CHECK(ands == fix, "over %d draws of %d bits some bit was never 0: intersection %s", draws, bits, zs(ands));
    lk.done("random numbers");
}
// a generator whose next bytes are runs of zeros and ones: leading zero words, all-ones words
static void loadRandom(Src &s, struct RaRandom *r, size_t n) {
    size_t m = std::min<size_t>(n, r->buffer_len); for (size_t i = 0; i < m;) { size_t k = s.below(3) ? 8 * (1 + s.below(3)) : 1 + s.below(20); int v = s.below(5); for (; k && i < m; k--, i++) r->buffer[i] = v < 2 ? 0 : v < 4 ? 0xff : s.u8(); }
    r->buffer_offset = 0;
}
PROP(C22, chosen_source, 3, "*", "a generator with runs of zero or one bits") {
    int bits = s.below(3) ? 1 + s.below(500) : WBITS * (1 + s.below(7)) + (int)s.below(3) - 1; int kind = s.below(3), w = (bits + WBITS - 1) / WBITS; struct RaRandom *r; nontrivial(); cls(kind == 0 ? "random" : kind == 1 ? "odd" : "RSA");
    LeakCheck lk; CHECK(RaRandomCreate(RA_RAND_SHA512, (uint8_t *)"x", 1, &r) == RA_ERR_SUCCESS, "RaRandomCreate"); loadRandom(s, r, 64); NOTE("%s %d bits from %s", kind == 0 ? "random" : kind == 1 ? "odd" : "RSA", bits, hex(r->buffer, 64).c_str());
    { W bn(w + (int)s.below(2)); bn.set(s.below(2) ? -Z(3) : Z(1).shl(bits) - Z(1));
      int rc = kind == 0 ? BnGenRandom(bn, bits, r) : kind == 1 ? BnGetRandomOdd(bn, bits, r) : BnGetRandomRSA(bn, bits, r); CHECK(rc == RA_ERR_SUCCESS, "random number of %d bits returned %d", bits, rc);
      Z z = val(bn); expectBn(bn, z, "random number"); CHECK(!z.neg() && z.bits() <= bits, "random number of %d bits is %s (%d bits)", bits, zs(z), z.bits());
      if (kind) CHECK(z.odd(), "odd random number is even: %s", zs(z)); if (kind == 2) CHECK(z.bits() == bits, "RSA random number of %d bits has %d", bits, z.bits()); }
    RaRandomDestroy(r); lk.done("random numbers");
}
PROP(C22, no_bits, 1, "*", "zero or fewer bits requested") {
    int bits = -(int)s.below(70); W bn(1); bn.set(-Z(9)); nontrivial(); NOTE("random of %d bits", bits);
    int rc = BnGenRandom(bn, bits, NULL); CHECK(rc == RA_ERR_SUCCESS, "returned %d", rc); expectBn(bn, Z(0), "random number of no bits");
}

// ---- C23 ---------------------------------------------------------------------
static Bytes draw(Src &s, struct RaRandom *r, size_t total, std::vector<int> *cuts) {
    Bytes out; out.reserve(total);
    while (out.size() < total) { size_t n = cuts ? (s.below(4) ? s.below(9) : s.len(total, 20)) : total; if (n > total - out.size()) n = total - out.size(); Guard g(n, s.below(2)); RaRandomBytes(r, (int)n, g.p); g.check("RaRandomBytes"); out.insert(out.end(), g.p, g.p + n); if (cuts) { cuts->push_back((int)n); if (cuts->size() > 400) { cuts = NULL; } } }
    return out;
}
static Bytes genSeed(Src &s) { return s.bytes(s.below(10) == 0 ? 0 : 1 + (s.below(4) ? s.below(40) : s.below(300))); }
PROP(C23, determinism, 5, "*", "stream longer than two internal blocks, requested in several pieces") {
    enum RaRandomAlgorithm alg = ALG[s.below(4)]; Bytes seed = genSeed(s); size_t total = 1 + s.len(thorough() ? 6000 : 1500, 20); uint8_t nothing = 0; if (s.below(100) == 99) { total = 65000 + s.below(8000); cls("above 64 kB"); }
    NOTE("alg %d seed %s total %zu", (int)alg, hex(seed).c_str(), total); if (total > 128) nontrivial();
    LeakCheck lk; Guard sd(seed); struct RaRandom *a, *b, *c;
    CHECK(RaRandomCreate(alg, seed.empty() ? &nothing : sd.p, seed.size(), &a) == RA_ERR_SUCCESS, "create"); entropySeed(s.raw(2) + 7);
    Bytes whole; if (total >= 65000) { whole.resize(total); RaRandomBytes(a, (int)total, whole.data()); } else whole = draw(s, a, total, NULL);
    CHECK(RaRandomCreate(alg, seed.empty() ? &nothing : sd.p, seed.size(), &b) == RA_ERR_SUCCESS, "create"); CHECK(sd.get(seed.size()) == seed, "the seed was modified");
    // another generator in between
    Bytes seed2 = genSeed(s); enum RaRandomAlgorithm alg2 = ALG[s.below(4)]; if (seed2.empty()) seed2.push_back(1);
    CHECK(RaRandomCreate(alg2, seed2.data(), seed2.size(), &c) == RA_ERR_SUCCESS, "create");
    Bytes pieces; std::vector<int> cuts; int n = 0;
    while (pieces.size() < total) { size_t k = s.below(4) ? s.below(9) : s.len(total, 20); if (n++ > 300) k = total; if (k > total - pieces.size()) k = total - pieces.size(); if (s.below(3) == 0) { Bytes junk(1 + s.below(70)); RaRandomBytes(c, junk.size(), junk.data()); } Guard g(k); RaRandomBytes(b, (int)k, g.p); g.check("RaRandomBytes"); pieces.insert(pieces.end(), g.p, g.p + k); }
    CHECK(pieces == whole, "the stream depends on how it is requested or on other generators: %s vs %s", hex(whole).c_str(), hex(pieces).c_str());
    RaRandomDestroy(a); RaRandomDestroy(b); RaRandomDestroy(c); lk.done("random generator");
}
PROP(C23, distinct, 4, "*", "related seeds or generators compared") {
    enum RaRandomAlgorithm alg = ALG[s.below(4)]; Bytes s1 = s.bytes(1 + s.below(100)), s2 = s1; struct RaRandom *a, *b; const char *k; enum RaRandomAlgorithm alg2 = alg;
    switch (s.below(5)) {
    case 0: s2[s.below(s2.size())] ^= 1 << s.below(8); k = "one bit"; break;
    case 1: s2.push_back(0); k = "zero appended"; break;
    case 2: { s2.push_back(s.u8()); k = "byte appended"; break; }
    case 3: { alg2 = ALG[s.below(4)]; k = "another algorithm"; if (alg2 == alg) { s2.insert(s2.begin(), 0); k = "zero prepended"; } break; }
    default: { s2.pop_back(); k = "byte dropped"; if (s2.empty()) s2 = Bytes(2, s1[0]); }
    }
    nontrivial(); cls(k); NOTE("%s: alg %d/%d seeds %s %s", k, (int)alg, (int)alg2, hex(s1).c_str(), hex(s2).c_str());
    LeakCheck lk; CHECK(RaRandomCreate(alg, s1.data(), s1.size(), &a) == 0 && RaRandomCreate(alg2, s2.data(), s2.size(), &b) == 0, "create");
    Bytes x(64 * 4), y(64 * 4); RaRandomBytes(a, x.size(), x.data()); RaRandomBytes(b, y.size(), y.data());
    CHECK(x != y, "different seeds give the same stream"); std::set<Bytes> seen; // no eight-byte group may coincide between or within the streams
    for (int i = 0; i + 8 <= 256; i += 8) { CHECK(seen.insert(Bytes(x.begin() + i, x.begin() + i + 8)).second, "the stream repeats eight bytes at %d", i); CHECK(seen.insert(Bytes(y.begin() + i, y.begin() + i + 8)).second, "the streams share or repeat eight bytes at %d (%s)", i, k); }
    RaRandomDestroy(a); RaRandomDestroy(b); lk.done("random generator");
}
PROP(C23, no_short_repetition, 1, "*", "long stream without a repeated sixteen-byte group") {
    enum RaRandomAlgorithm alg = ALG[s.below(4)]; Bytes seed = genSeed(s); if (seed.empty()) seed.push_back(0); size_t total = thorough() ? 400000 : 60000; int step = 4; if (s.below(100) == 99) { total = 3000000; step = 16; cls("3 MB"); } nontrivial(); NOTE("alg %d seed %s, %zu bytes", (int)alg, hex(seed).c_str(), total);
    struct RaRandom *a; CHECK(RaRandomCreate(alg, seed.data(), seed.size(), &a) == 0, "create"); Bytes x(total); for (size_t o = 0; o < total;) { size_t n = std::min<size_t>(total - o, 1 + s.below(5000)); RaRandomBytes(a, n, &x[o]); o += n; } RaRandomDestroy(a);
    std::vector<std::pair<std::pair<uint64_t, uint64_t>, size_t>> g; for (size_t i = 0; i + 16 <= total; i += step) { uint64_t p, q; memcpy(&p, &x[i], 8); memcpy(&q, &x[i + 8], 8); g.push_back({{p, q}, i}); } std::sort(g.begin(), g.end());
    for (size_t i = 1; i < g.size(); i++) CHECK(g[i].first != g[i - 1].first, "the sixteen bytes at %zu of the stream occur again at %zu", g[i - 1].second, g[i].second);
    long cnt[256] = {0}; for (uint8_t c : x) cnt[c]++; double e = total / 256.0, chi = 0; for (long c : cnt) chi += (c - e) * (c - e) / e;
    CHECK(chi < 255 + 12 * sqrt(2 * 255.0), "byte values are far from evenly spread (chi-square %.1f)", chi);
}
extern "C" int g_urandom_fd;
PROP(C23, unseeded, 2, "*", "several unseeded generators compared") {
    enum RaRandomAlgorithm alg = ALG[s.below(4)]; entropySeed(s.raw(4)); nontrivial(); int k = 2 + s.below(6); NOTE("%d unseeded generators alg %d", k, (int)alg); LeakCheck lk;
    // descriptor 0 is a legal answer of open() when standard input is closed
    if (s.below(3) == 0) { g_urandom_fd = 0; cls("descriptor 0"); }
    std::set<Bytes> seen; for (int i = 0; i < k; i++) { struct RaRandom *a; CHECK(RaRandomCreate(alg, NULL, s.below(2) ? 0 : 9, &a) == 0, "create"); Bytes x(40); RaRandomBytes(a, 40, x.data()); for (int j = 0; j + 8 <= 40; j += 8) CHECK(seen.insert(Bytes(x.begin() + j, x.begin() + j + 8)).second, "unseeded generators produced the same bytes"); RaRandomDestroy(a); }
    g_urandom_fd = 987654; lk.done("unseeded generators");
}

// ---- C24 ---------------------------------------------------------------------
PROP(C24, integers, 5, "*", "bounds differ") {
    uint32_t lo, hi;
    switch (s.below(6)) { case 0: lo = 0; hi = 0xffffffff; break; case 1: lo = s.below(3); hi = 0xffffffff - s.below(3); break; case 2: lo = s.word(32); hi = lo + s.below(40); if (hi < lo) hi = lo; break; case 3: lo = hi = s.word(32); break; default: lo = s.word(32); hi = s.word(32); if (lo > hi) std::swap(lo, hi); }
    Bytes seed = s.bytes(6); struct RaRandom *r; CHECK(RaRandomCreate(ALG[s.below(4)], seed.data(), 6, &r) == 0, "create"); NOTE("integers in [%u,%u]", lo, hi); if (lo != hi) nontrivial();
    uint64_t n = (uint64_t)hi - lo + 1; cls(n == 1ull << 32 ? "full range" : n > 1u << 31 ? "above half" : n <= 40 ? "small" : "medium");
    int draws = n <= 40 ? (int)(n * 40) : 400; std::set<uint32_t> seen; uint32_t mn = ~0u, mx = 0;
    for (int i = 0; i < draws; i++) { uint32_t v = RaRandomInt(r, lo, hi); CHECK(v >= lo && v <= hi, "%u is outside [%u,%u]", v, lo, hi); seen.insert(v); mn = std::min(mn, v); mx = std::max(mx, v); }
    RaRandomDestroy(r);
    if (n <= 40) CHECK(seen.size() == n, "over %d draws only %zu of the %llu values between %u and %u occurred", draws, seen.size(), (unsigned long long)n, lo, hi);
    else { // 400 draws: the chance to miss a whole eighth at either end is below 1e-22
        CHECK(mn - lo <= n / 8 && hi - mx <= n / 8, "400 draws in [%u,%u] stayed within [%u,%u]", lo, hi, mn, mx);
        if (n > 1000000) CHECK(seen.size() > 380, "400 draws from %llu values gave only %zu different ones", (unsigned long long)n, seen.size()); }
}
// generator whose next output is chosen, to reach the ends of the range
PROP(C24, extremes, 4, "*", "chosen generator output") {
    Bytes seed = s.bytes(6); struct RaRandom *r; enum RaRandomAlgorithm alg = ALG[s.below(4)]; CHECK(RaRandomCreate(alg, seed.data(), 6, &r) == 0, "create"); nontrivial();
    int k = 1 + s.below(4); for (int i = 0; i < r->buffer_len; i += 4) { uint32_t v = i < 4 * k ? s.one<uint32_t>({0, 0, 0xffffffff, 0xffffffff, 1, 0xfffffffe, 0x80000000, 0x7fffffff}) : (uint32_t)s.word(32); r->buffer[i] = v >> 24; r->buffer[i + 1] = v >> 16; r->buffer[i + 2] = v >> 8; r->buffer[i + 3] = v; }
    r->buffer_offset = 0; NOTE("generator bytes %s", hex(r->buffer, 16).c_str());
    if (s.below(2)) { for (int i = 0; i < 3; i++) { double d = RaRandom(r); CHECK(d > 0.0 && d < 1.0, "random real %.17g is not strictly between 0 and 1 (generator bytes %s)", d, hex(r->buffer, 16).c_str()); } cls("real"); }
    else { uint32_t lo = s.word(32), hi = s.word(32); if (s.below(3) == 0) { lo = 0; hi = ~0u; } if (lo > hi) std::swap(lo, hi); for (int i = 0; i < 3; i++) { uint32_t v = RaRandomInt(r, lo, hi); CHECK(v >= lo && v <= hi, "%u is outside [%u,%u] (generator bytes %s)", v, lo, hi, hex(r->buffer, 16).c_str()); } cls("integer"); }
    RaRandomDestroy(r);
}
PROP(C24, reals, 2, "*", "many reals drawn") {
    Bytes seed = s.bytes(6); struct RaRandom *r; CHECK(RaRandomCreate(ALG[s.below(4)], seed.data(), 6, &r) == 0, "create"); nontrivial(); NOTE("500 reals, seed %s", hex(seed).c_str()); int b[16] = {0};
    for (int i = 0; i < 500; i++) { double d = RaRandom(r); CHECK(d > 0 && d < 1, "random real %.17g is not strictly between 0 and 1", d); b[(int)(d * 16)]++; }
    for (int i = 0; i < 16; i++) CHECK(b[i] > 0 && b[i] < 120, "500 reals: %d of them between %d/16 and %d/16", b[i], i, i + 1); RaRandomDestroy(r);
}
