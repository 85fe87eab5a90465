// Mini property-based-testing engine: a case is a byte string that drives all
// generator choices, so random search, shrinking, replay and libFuzzer share it.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <initializer_list>

typedef std::vector<uint8_t> Bytes;

struct Discard {};                       // thrown: case is outside the property's domain

struct Rng {                             // splitmix64
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    void fill(void *p, size_t n) { uint8_t *b = (uint8_t *)p; while (n >= 8) { uint64_t v = next(); memcpy(b, &v, 8); b += 8; n -= 8; } if (n) { uint64_t v = next(); memcpy(b, &v, n); } }
};

// ---- choice source -------------------------------------------------------
struct Src {
    bool random; Rng rng;
    const uint8_t *in; size_t inlen, pos;
    uint8_t u8();
    uint64_t raw(int nbytes) { uint64_t v = 0; for (int i = 0; i < nbytes; i++) v |= (uint64_t)u8() << (8 * i); return v; }
    uint64_t u64() { return raw(8); }
    uint32_t u32() { return (uint32_t)raw(4); }
    uint64_t below(uint64_t n) {         // 0..n-1
        if (n <= 1) return 0;
        if (n <= 256) { return n == 256 ? u8() : (n <= 16 ? u8() % n : (raw(2) % n)); }
        if (n <= 65536) return raw(3) % n;
        if (n <= (1ull << 32)) return raw(6) % n;
        return raw(8) % n;
    }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(int num, int den) { return (int)below(den) < num; }   // a zero choice gives true only for num>0
    int pick(std::initializer_list<int> weights) {
        int t = 0; for (int w : weights) t += w;
        int v = (int)below(t), i = 0;
        for (int w : weights) { if (v < w) return i; v -= w; i++; }
        return 0;
    }
    template <class T> T one(std::initializer_list<T> l) { size_t i = below(l.size()); return *(l.begin() + i); }
    uint64_t word(int bits);             // boundary-biased word of `bits` bits
    size_t len(size_t max, size_t block);// boundary-biased length 0..max, aware of a block size
    Bytes bytes(size_t n);               // n bytes, structured or random
    Bytes rnd(size_t n);                 // n bytes from a drawn 64-bit seed (not shrinkable bytewise)
};

// ---- property registry -----------------------------------------------------
struct Prop { const char *id; const char *name; void (*fn)(Src &); int weight; const char *flavours; const char *rule; };
void addProp(const Prop &p);
struct Reg { Reg(const Prop &p) { addProp(p); } };
// PROP(id, name, weight, flavours, rule): one executable check of property `id`.
// flavours: comma separated build flavours it runs in ("*" = every flavour the runner gives the property)
#define PROP(ID, NAME, WEIGHT, FLAV, RULE) \
    static void prop_##ID##_##NAME(Src &s); \
    static Reg reg_##ID##_##NAME({#ID, #NAME, prop_##ID##_##NAME, WEIGHT, FLAV, RULE}); \
    static void prop_##ID##_##NAME(Src &s)

// ---- reporting -------------------------------------------------------------
[[noreturn]] void failf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(c, ...) do { if (!(c)) failf(__VA_ARGS__); } while (0)
bool noting();                            // is a textual description of this case wanted?
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define NOTE(...) do { if (noting()) note(__VA_ARGS__); } while (0)
void nontrivial();                        // this case exercises the property by its rule
void cls(const char *label);              // distribution counter
std::string hex(const void *p, size_t n, size_t max = 48);
inline std::string hex(const Bytes &b, size_t max = 48) { return hex(b.data(), b.size(), max); }
bool thorough();
void caseCpuLimit(double seconds);        // change this case's CPU limit (hang oracle)
const char *flavour();
bool skipCase();
uint64_t sideRandom();                    // per-case randomness that is not a choice (garbage fill)

// ---- guarded buffers -------------------------------------------------------
// Exactly-sized heap block with canary zones (ASan adds its own red zones).
struct Guard {
    static const size_t Z = 64;
    uint8_t *base; size_t n; uint8_t fill; uint8_t *p;
    explicit Guard(size_t n_, size_t align = 0);
    Guard(const Bytes &b, size_t align = 0);
    ~Guard();
    Guard(const Guard &) = delete; Guard &operator=(const Guard &) = delete;
    void check(const char *what) const;          // canaries intact?
    // how many bytes of p[from..n) still hold the fill pattern, contiguous from `from`
    bool untouchedFrom(size_t from) const;
    Bytes get(size_t len) const { return Bytes(p, p + len); }
};

// ---- library allocation interposition ---------------------------------------
extern "C" {
extern long g_live_allocs;                // live library allocations
extern long g_alloc_calls;                // allocations requested since reset
extern long g_fail_from, g_fail_to;       // allocation indices (0-based) that fail; -1 none
extern long g_failed;                     // how many were failed
extern void (*g_free_hook)(void *p, size_t n);
extern int g_track;                       // 1: library phase
extern int g_fill;                        // fresh library memory is filled with this byte (-1: garbage)
extern uint64_t g_entropy;                // seeds the bytes /dev/urandom is replaced with (per case)
extern int g_entropy_on;
extern int g_entropy_mode;              // 1: the entropy device cannot be opened, 2: gives too few bytes, 3: cannot be read
extern long g_open_fds;                 // descriptors of it that are open
}
void allocReset();
struct LeakCheck { long before; LeakCheck() : before(g_live_allocs) {} void done(const char *what) { CHECK(g_live_allocs == before, "%s: %ld library allocation(s) not released", what, g_live_allocs - before); } };
void dirtyStack();                        // fill the stack below with garbage so uninitialised reads show
