#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <pthread.h>
#include <unordered_set>
#include <unordered_map>
#include <mutex>
#include <algorithm>

#if defined(__SANITIZE_ADDRESS__)
#define IS_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define IS_ASAN 1
#endif
#endif
#ifndef IS_ASAN
#define IS_ASAN 0
#endif
#if IS_ASAN
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, n) ((void)0)
#define ASAN_UNPOISON_MEMORY_REGION(a, n) ((void)0)
#endif
#define RECMAX (1u << 20)
struct Shared {
    volatile uint64_t caseIdx; volatile uint32_t reclen; volatile uint32_t done;
    volatile uint64_t evals, discards, nontriv, distinct;
    volatile int propIdx; char msg[8192]; char notes[16384]; uint32_t notelen;
    uint32_t nsamples; char samples[6][2048];
    uint32_t ncls; struct { char name[48]; uint64_t n; } cls[160];
    uint32_t nper; uint64_t per[64];
    uint8_t rec[RECMAX];
};
static Shared *SH;
static std::vector<Prop> &props() { static std::vector<Prop> v; return v; }
void addProp(const Prop &p) { props().push_back(p); }
static bool wantNotes = false, isThorough = false, curNT = false, isFuzz = false;
static std::string flav = "default";
bool thorough() { return isThorough; }
const char *flavour() { return flav.c_str(); }
static Rng side(1);
uint64_t sideRandom() { return side.next(); }

static Bytes g_prefix;                    // forces the first choices of every random case (--prefix)
uint8_t Src::u8() {
    uint8_t b;
    if (random) { b = (uint8_t)(rng.next() >> 24); if (pos < g_prefix.size()) b = g_prefix[pos]; }
    else b = pos < inlen ? in[pos] : 0;
    pos++;
    if (SH) { uint32_t l = SH->reclen; if (l < RECMAX) { SH->rec[l] = b; SH->reclen = l + 1; } else throw Discard(); }
    return b;
}
uint64_t Src::word(int bits) {
    uint64_t mask = bits >= 64 ? ~0ull : (1ull << bits) - 1;
    switch (below(12)) {
    case 0: return below(4);
    case 1: return mask - below(4);
    case 2: return (1ull << below(bits)) & mask;
    case 3: return ((1ull << below(bits)) - 1) & mask;
    case 4: return ~((1ull << below(bits)) - 1) & mask;
    case 5: return ((1ull << below(bits)) ^ (1ull << below(bits))) & mask;
    case 6: return below(256);
    case 7: return (u64() >> below(bits)) & mask;
    case 8: return ((1ull << (bits - 1)) + below(8) - 4) & mask;
    case 9: { uint64_t h = mask >> (bits / 2); return ((u64() & h) | (below(2) ? (h << (bits / 2)) : 0)) & mask; }
    default: return u64() & mask;
    }
}
size_t Src::len(size_t max, size_t blk) {
    size_t v;
    switch (below(8)) {
    case 0: v = below(4); break;
    case 1: v = below(2 * blk + 2); break;
    case 2: v = blk * below(6); break;
    case 3: v = blk * (1 + below(5)) + below(5) - 2; break;
    case 4: v = below(8 * blk + 1); break;
    case 5: v = below(max + 1); break;
    case 6: v = (1ull << below(16)) + below(5) - 2; break;
    default: v = below(3 * blk + 1); break;
    }
    if ((int64_t)v < 0) v = 0;
    return v > max ? max : v;
}
Bytes Src::rnd(size_t n) { Rng r(raw(4)); Bytes b(n); if (n) r.fill(b.data(), n); return b; }
Bytes Src::bytes(size_t n) {
    Bytes b(n);
    if (!n) return b;
    switch (n <= 64 ? below(8) : 1 + below(7)) {
    case 0: for (auto &x : b) x = u8(); break;
    case 1: memset(b.data(), (int)one<int>({0, 0xff, 0x80, 0x01, 0x7f, 0x55, 0xaa}), n); break;
    case 2: { // sparse
        int k = 1 + below(3); int base = below(2) ? 0 : 0xff; memset(b.data(), base, n);
        for (int i = 0; i < k; i++) b[below(n)] ^= 1 << below(8); break; }
    case 3: { // runs
        size_t i = 0; while (i < n) { size_t l = 1 + below(24); int v = one<int>({0, 0xff, 0x80, 0x7f, 1}); while (l-- && i < n) b[i++] = v; if (i > 4096) { Rng r(raw(4)); r.fill(&b[i], n - i); break; } } break; }
    case 4: { int v = u8(), st = u8(); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(v + st * i); break; }
    default: { Rng r(raw(4)); r.fill(b.data(), n); }
    }
    return b;
}
std::string hex(const void *p, size_t n, size_t max) {
    static const char *d = "0123456789abcdef"; std::string s; const uint8_t *b = (const uint8_t *)p;
    size_t k = n > max ? max : n;
    for (size_t i = 0; i < k; i++) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
    if (n > max) { char t[40]; snprintf(t, sizeof t, "..(%zu bytes)", n); s += t; }
    return s.empty() ? "-" : s;
}
bool noting() { return wantNotes; }
void note(const char *fmt, ...) {
    if (!SH) return; va_list ap; va_start(ap, fmt);
    size_t left = sizeof(SH->notes) - SH->notelen;
    if (left > 2) { int k = vsnprintf(SH->notes + SH->notelen, left - 1, fmt, ap); if (k > 0) { SH->notelen += std::min<size_t>(k, left - 2); SH->notes[SH->notelen++] = ';'; SH->notes[SH->notelen++] = ' '; if (SH->notelen >= sizeof(SH->notes)) SH->notelen = sizeof(SH->notes) - 1; SH->notes[SH->notelen] = 0; } }
    va_end(ap);
}
void nontrivial() { curNT = true; }
void cls(const char *label) {
    if (!SH) return; uint32_t i;
    for (i = 0; i < SH->ncls; i++) if (!strncmp(SH->cls[i].name, label, 47)) { SH->cls[i].n++; return; }
    if (SH->ncls < 160) { snprintf(SH->cls[SH->ncls].name, 48, "%s", label); SH->cls[SH->ncls].n = 1; SH->ncls++; }
}
void failf(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    if (SH) vsnprintf(SH->msg, sizeof SH->msg, fmt, ap); else { vfprintf(stderr, fmt, ap); fputc('\n', stderr); }
    va_end(ap);
    if (isFuzz) abort();
    _exit(98);
}
// ---- guard ------------------------------------------------------------------
Guard::Guard(size_t n_, size_t align) : n(n_) {
    fill = (uint8_t)(0xA0 | (side.next() & 0x0f)); 
#if IS_ASAN
    base = (uint8_t *)operator new(n + align); p = base + align; memset(base, fill, n + align);
#else
    base = (uint8_t *)operator new(n + align + 2 * Z); memset(base, fill, n + align + 2 * Z); p = base + Z + align;
#endif
}
Guard::Guard(const Bytes &b, size_t align) : Guard(b.size(), align) { if (n) memcpy(p, b.data(), n); }
Guard::~Guard() { operator delete(base); }
void Guard::check(const char *what) const {
#if !IS_ASAN
    for (const uint8_t *q = base; q < p; q++) CHECK(*q == fill, "%s: byte written %ld before the buffer", what, (long)(p - q));
    for (size_t i = 0; i < Z; i++) CHECK(p[n + i] == fill, "%s: byte written %zu past the end of a %zu byte buffer", what, i, n);
#endif
}
bool Guard::untouchedFrom(size_t from) const { for (size_t i = from; i < n; i++) if (p[i] != fill) return false; return true; }

// ---- CPU limit ---------------------------------------------------------------
static double defLimit = 20;
void caseCpuLimit(double s) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long)s; it.it_value.tv_usec = (long)((s - (long)s) * 1e6); setitimer(ITIMER_PROF, &it, NULL); }
static void onProf(int) { if (SH) snprintf(SH->msg, sizeof SH->msg, "no result: the CPU limit for one case ran out (the operation does not terminate)"); _exit(97); }

__attribute__((noinline)) void dirtyStack() { volatile uint8_t b[6000]; uint8_t v = (uint8_t)side.next(); for (size_t i = 0; i < sizeof b; i++) b[i] = v + (uint8_t)(i * 37); }

// ---- allocation interposition --------------------------------------------------
extern "C" {
long g_live_allocs, g_alloc_calls, g_fail_from = -1, g_fail_to = -1, g_failed;
void (*g_free_hook)(void *, size_t); int g_track; int g_fill = -1; uint64_t g_entropy; int g_entropy_on = 1;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); int __real_close(int);
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_open64(const char *, int, ...); int __real_openat(int, const char *, int, ...); ssize_t __real_getrandom(void *, size_t, unsigned); int __real_getentropy(void *, size_t); FILE *__real_fopen(const char *, const char *);
void *__real_aligned_alloc(size_t, size_t);
#define HDR 32
#define TAIL (IS_ASAN ? 0 : 32)
#define MAGIC 0x5aa55aa5c3c3d2d2ull
static void *alloc_(size_t n, bool zero) {
    long idx = __atomic_fetch_add(&g_alloc_calls, 1, __ATOMIC_RELAXED);
    if (g_fail_from >= 0 && idx >= g_fail_from && idx <= g_fail_to) { __atomic_fetch_add(&g_failed, 1, __ATOMIC_RELAXED); return NULL; }
    uint8_t *b = (uint8_t *)__real_malloc(n + HDR + TAIL); if (!b) return NULL;
    ((uint64_t *)b)[0] = MAGIC; ((uint64_t *)b)[1] = n; memset(b + 16, 0xc7, HDR - 16); memset(b + HDR + n, 0xc7, TAIL);
    __atomic_fetch_add(&g_live_allocs, 1, __ATOMIC_RELAXED);
    if (zero) memset(b + HDR, 0, n); else if (g_fill >= 0) memset(b + HDR, g_fill, n); else { // garbage, so that uninitialised use shows
        size_t k = n < 4096 ? n : 4096; uint64_t v; uint64_t x = (uint64_t)(idx * 0x9e3779b97f4a7c15ull) ^ g_entropy ^ 0xb5b5b5b5b5b5b5b5ull;
        for (size_t i = 0; i < k; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; v = x; memcpy(b + HDR + i, &v, k - i < 8 ? k - i : 8); } }
    ASAN_POISON_MEMORY_REGION(b, HDR);
    return b + HDR;
}
void *__wrap_malloc(size_t n) { return alloc_(n, false); }
void __wrap_free(void *p); void *__wrap_realloc(void *p, size_t n);
char *__wrap_strdup(const char *t) { size_t n = strlen(t) + 1; char *p = (char *)alloc_(n, false); if (p) memcpy(p, t, n); return p; }
void *__wrap_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return NULL; return __wrap_realloc(p, n); }
// blocks with a larger alignment than the header allows are remembered, and counted and failed like the others
static std::mutex bigMu; static std::unordered_map<void *, size_t> *bigBlocks; static int bigAny = 0;
void *__wrap_aligned_alloc(size_t al, size_t n) {
    if (al <= 16) return alloc_(n, false);
    void *t = alloc_(1, false); if (!t) return NULL; // takes its turn in the counting and failing
    void *p = __real_aligned_alloc(al, (n + al - 1) / al * al); memset(p, 0xb5, n); std::lock_guard<std::mutex> g(bigMu); if (!bigBlocks) bigBlocks = new std::unordered_map<void *, size_t>; (*bigBlocks)[p] = n; (*bigBlocks)[(uint8_t *)p + 1] = (size_t)t; bigAny = 1; return p;
}
void *__wrap_memalign(size_t al, size_t n) { return __wrap_aligned_alloc(al, n); }
int __wrap_posix_memalign(void **p, size_t al, size_t n) { void *q = __wrap_aligned_alloc(al, n); if (!q) return ENOMEM; *p = q; return 0; }
static bool bigFree(void *p) {
    void *t; size_t n; { std::lock_guard<std::mutex> g(bigMu); auto i = bigBlocks->find(p); if (i == bigBlocks->end()) return false; n = i->second; t = (void *)(*bigBlocks)[(uint8_t *)p + 1]; bigBlocks->erase(p); bigBlocks->erase((uint8_t *)p + 1); }
    if (g_free_hook) g_free_hook(p, n); memset(p, 0xdb, n); __real_free(p); void (*h)(void *, size_t) = g_free_hook; g_free_hook = NULL; __wrap_free(t); g_free_hook = h; return true;
}
void *__wrap_calloc(size_t a, size_t b) { return alloc_(a * b, true); }
void __wrap_free(void *p) {
    if (!p) return;
    if (bigAny && bigFree(p)) return;
    uint8_t *b = (uint8_t *)p - HDR;
    ASAN_UNPOISON_MEMORY_REGION(b, HDR);
    if (((uint64_t *)b)[0] != MAGIC) failf("free() of a pointer that is not a live library allocation (double free or foreign pointer)");
    size_t n = ((uint64_t *)b)[1];
    for (int i = 16; i < HDR; i++) if (b[i] != 0xc7) failf("heap block underrun: byte %d before a %zu byte library allocation was overwritten", HDR - i, n);
    for (int i = 0; i < TAIL; i++) if (b[HDR + n + i] != 0xc7) failf("heap block overrun: byte %d past the end of a %zu byte library allocation was overwritten", i, n);
    if (g_free_hook) g_free_hook(p, n);
    ((uint64_t *)b)[0] = 0; memset(p, 0xdb, n); __atomic_fetch_sub(&g_live_allocs, 1, __ATOMIC_RELAXED); __real_free(b);
}
void *__wrap_realloc(void *p, size_t n) {
    if (!p) return alloc_(n, false);
    ASAN_UNPOISON_MEMORY_REGION((uint8_t *)p - HDR, HDR);
    size_t o = ((uint64_t *)((uint8_t *)p - HDR))[1]; ASAN_POISON_MEMORY_REGION((uint8_t *)p - HDR, HDR); void *q = alloc_(n, false); if (!q) return NULL;
    memcpy(q, p, o < n ? o : n); __wrap_free(p); return q;
}
static thread_local Rng ent(1); int g_urandom_fd = 987654;
#define FAKEFD g_urandom_fd
static thread_local uint64_t entPos = 0; static thread_local long entFlipBit = -1; // bytes handed out since the last entropySeed; a bit of that stream to invert
static void entFill(void *b, size_t n) { ent.fill(b, n); if (entFlipBit >= 0 && (uint64_t)entFlipBit / 8 >= entPos && (uint64_t)entFlipBit / 8 < entPos + n) ((uint8_t *)b)[entFlipBit / 8 - entPos] ^= 1 << (entFlipBit % 8); entPos += n; }
int g_entropy_mode = 0; long g_open_fds = 0; // mode 1: cannot be opened, 2: too few bytes, 3: cannot be read
static bool isRandomDev(const char *p) { return g_entropy_on && p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }
static int entOpen() { if (g_entropy_mode == 1) { errno = ENOENT; return -1; } __atomic_fetch_add(&g_open_fds, 1, __ATOMIC_RELAXED); return FAKEFD; }
static ssize_t entRead(void *b, size_t n) { if (g_entropy_mode == 3) { errno = EIO; return -1; } if (g_entropy_mode == 2) n = n / 2; entFill(b, n); return n; }
int __wrap_open(const char *path, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
    return isRandomDev(path) ? entOpen() : __real_open(path, fl, mode);
}
int __wrap_open64(const char *path, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); return isRandomDev(path) ? entOpen() : __real_open(path, fl, mode); }
int __wrap_openat(int dir, const char *path, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); return isRandomDev(path) ? entOpen() : __real_openat(dir, path, fl, mode); }
int __wrap___open_2(const char *path, int fl) { return isRandomDev(path) ? entOpen() : __real_open(path, fl, 0); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (g_entropy_on && fd == FAKEFD) return entRead(b, n); return __real_read(fd, b, n); }
ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t room) { if (n > room) failf("read() of %zu bytes into a buffer of %zu", n, room); return __wrap_read(fd, b, n); }
int __wrap_close(int fd) { if (g_entropy_on && fd == FAKEFD) { __atomic_fetch_sub(&g_open_fds, 1, __ATOMIC_RELAXED); return 0; } return __real_close(fd); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned fl) { return g_entropy_on ? (g_entropy_mode == 1 ? -1 : entRead(b, n)) : __real_getrandom(b, n, fl); }
int __wrap_getentropy(void *b, size_t n) { return g_entropy_on ? (g_entropy_mode ? -1 : (entFill(b, n), 0)) : __real_getentropy(b, n); }
static ssize_t cookieRead(void *, char *b, size_t n) { return entRead(b, n); }
static int cookieClose(void *) { __atomic_fetch_sub(&g_open_fds, 1, __ATOMIC_RELAXED); return 0; }
FILE *__wrap_fopen(const char *path, const char *mode) { if (!isRandomDev(path)) return __real_fopen(path, mode); if (entOpen() < 0) return NULL; cookie_io_functions_t f = {cookieRead, NULL, NULL, cookieClose}; FILE *t = fopencookie(NULL, "r", f); if (t) setvbuf(t, NULL, _IONBF, 0); return t; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
    if (!g_entropy_on) return __real_clock_gettime(c, ts);
    ts->tv_sec = 1000 + (g_entropy & 0xffff); ts->tv_nsec = 123456789; return 0; // calls within one tick see the same time
}
}
void allocReset() { g_fill = -1; g_entropy_mode = 0; g_open_fds = 0; g_urandom_fd = 987654; g_alloc_calls = 0; g_fail_from = g_fail_to = -1; g_failed = 0; g_free_hook = NULL; }
static void entropySet(uint64_t e) { g_entropy = e; ent = Rng(e); entPos = 0; entFlipBit = -1; }
extern "C" void entropySeed(uint64_t e) { entropySet(e); }
extern "C" void entropyFlip(long bit) { entFlipBit = bit; }
extern "C" uint64_t entropyUsed() { return entPos; }
extern "C" void entropySeedThread(uint64_t e) { ent = Rng(e); }

// ---- running -------------------------------------------------------------------
static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xd1342543de82ef95ull)); r.next(); return r.next(); }
static uint64_t fnv(const uint8_t *p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull; return h; }
static std::string hashPath; static std::vector<int> wheel;
static const size_t PREFIX = 1;

static void runOne(Src &s, int forced) {
    SH->reclen = 0; SH->notelen = 0; SH->notes[0] = 0; SH->msg[0] = 0; curNT = false;
    int k = wheel[s.below(wheel.size())]; (void)forced;
    SH->propIdx = k;
    side = Rng(0x1234); allocReset(); 
    uint64_t e = 0x51ed; entropySet(e); 
    caseCpuLimit(defLimit);
    props()[k].fn(s);
}
static int childLoop(uint64_t seed, uint64_t from, uint64_t to, double maxtime, std::unordered_set<uint64_t> *seen) {
    struct timespec t0, t1; __real_clock_gettime(CLOCK_MONOTONIC, &t0);
    for (uint64_t i = from; i < to; i++) {
        SH->caseIdx = i;
        Src s; s.random = true; s.rng = Rng(mix(seed, i)); s.pos = 0; s.in = 0; s.inlen = 0;
        wantNotes = (i < 2 || (i & (i - 1)) == 0);
        bool disc = false;
        long live = g_live_allocs;
        try { runOne(s, -1); } catch (Discard &) { disc = true; g_live_allocs = live; }
        SH->evals++;
        if (disc) { SH->discards++; }
        else { if (SH->nper < 64) {} SH->per[SH->propIdx & 63]++;
            if (curNT) { SH->nontriv++; if (seen->size() < 4000000 && seen->insert(fnv(SH->rec, SH->reclen)).second) SH->distinct++; }
            if (wantNotes && curNT && SH->notelen) { uint32_t n = SH->nsamples % 6; snprintf(SH->samples[n], 2048, "%s: %.1900s", props()[SH->propIdx].name, SH->notes); SH->nsamples++; } }
        if ((i & 15) == 0 || defLimit > 30) { __real_clock_gettime(CLOCK_MONOTONIC, &t1); if (t1.tv_sec - t0.tv_sec + (t1.tv_nsec - t0.tv_nsec) / 1e9 > maxtime) { SH->caseIdx = i + 1; break; } }
    }
    if (!hashPath.empty()) { FILE *f = fopen(hashPath.c_str(), "wb"); if (f) { for (uint64_t h : *seen) fwrite(&h, 8, 1, f); fclose(f); } }
    SH->done = 1;
    return 0;
}
static void childSetup() {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGPROF, onProf);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
}
static std::string asanTail(const char *path) {
    std::string r; FILE *f = fopen(path, "r"); if (!f) return r; char l[512]; int n = 0;
    while (fgets(l, sizeof l, f)) { if (strstr(l, "ERROR") || strstr(l, "runtime error") || strstr(l, "Assert") || strstr(l, "assert") || strstr(l, "    #0") || strstr(l, "    #1") || strstr(l, "    #2")|| strstr(l, "    #3") || strstr(l, "WARNING: Thread") || strstr(l, "SUMMARY")) { r += l; if (++n > 14) break; } }
    fclose(f); for (auto &c : r) if (c == '\n') c = '|'; return r;
}
static std::string logPath;
// run one byte string in a child; returns "" if it passes, else a failure message
static std::string tryBytes(const Bytes &b, std::string *notes) {
    pid_t pid = fork();
    if (pid == 0) {
        childSetup(); int fd = __real_open(logPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
        wantNotes = notes != NULL;
        Src s; s.random = false; s.in = b.data(); s.inlen = b.size(); s.pos = 0; 
        try { runOne(s, -1); } catch (Discard &) { _exit(96); }
        _exit(0);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (notes) *notes = SH->notes;
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 96)) return "";
    std::string m = SH->msg; char t[200];
    if (m.empty()) { if (WIFSIGNALED(st)) snprintf(t, sizeof t, "crash: signal %d (%s) ", WTERMSIG(st), strsignal(WTERMSIG(st))); else snprintf(t, sizeof t, "abnormal exit %d ", WEXITSTATUS(st)); m = t; m += asanTail(logPath.c_str()); }
    return m;
}
// A failure may need what earlier cases of the same process left behind (a counter, a cache, a damaged table). A history is the
// list of case numbers run one after another in one process; the cases are determined by the seed.
typedef std::vector<std::pair<uint64_t, uint64_t>> Hist;      // ranges, both ends included
static std::string histText(uint64_t base, const Hist &h) { char t[64]; snprintf(t, sizeof t, "%llx", (unsigned long long)base); std::string r = t; char sep = ':'; for (auto &p : h) { snprintf(t, sizeof t, "%c%llu-%llu", sep, (unsigned long long)p.first, (unsigned long long)p.second); r += t; sep = ','; } return r; }
static Hist histParse(const std::string &t, uint64_t &base) { Hist h; size_t k = t.find(':'); base = strtoull(t.c_str(), 0, 16); while (k != std::string::npos) { char *e; uint64_t a = strtoull(t.c_str() + k + 1, &e, 10), b = *e == '-' ? strtoull(e + 1, NULL, 10) : a; h.push_back({a, b}); k = t.find(',', k + 1); } return h; }
static std::string tryHist(uint64_t base, const Hist &h, std::string *notes) {
    SH->msg[0] = 0; SH->notes[0] = 0; SH->reclen = 0;
    pid_t pid = fork();
    if (pid == 0) {
        childSetup(); int fd = __real_open(logPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
        for (size_t k = 0; k < h.size(); k++) for (uint64_t i = h[k].first; i <= h[k].second; i++) {
            SH->caseIdx = i; Src s; s.random = true; s.rng = Rng(mix(base, i)); s.pos = 0; s.in = 0; s.inlen = 0; wantNotes = notes != NULL; long live = g_live_allocs;
            try { runOne(s, -1); } catch (Discard &) { g_live_allocs = live; } }
        _exit(0);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
    if (notes) *notes = SH->notes;
    std::string m = SH->msg; char t[100];
    if (m.empty()) { if (WIFSIGNALED(st)) snprintf(t, sizeof t, "crash: signal %d (%s) ", WTERMSIG(st), strsignal(WTERMSIG(st))); else snprintf(t, sizeof t, "abnormal exit %d ", WEXITSTATUS(st)); m = t; m += asanTail(logPath.c_str()); }
    return m;
}
static double nowS() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
// confirms that the cases from..idx fail again when run in one process, and shortens the list; "" when they do not
static std::string confirmHist(uint64_t base, uint64_t from, uint64_t idx, double took, Hist &h, std::string &notes) {
    h = {{from, idx}}; double t0 = nowS(); std::string m = tryHist(base, h, &notes); if (m.empty()) return m;
    h = {{from, SH->caseIdx}}; if (took < 130) { m = tryHist(base, h, &notes); if (m.empty()) return m; }
    idx = h[0].second; double budget = nowS() + 45; (void)t0;
    for (uint64_t w = 2; w < idx - from; w *= 4) { if (nowS() > budget) break; Hist c = {{idx - w + 1, idx}}; if (!tryHist(base, c, NULL).empty()) { h = c; h[0].second = SH->caseIdx; break; } }
    if (h[0].second - h[0].first < 5000) {
        std::vector<uint64_t> v; for (uint64_t i = h[0].first; i <= h[0].second; i++) v.push_back(i);
        auto mk = [](const std::vector<uint64_t> &v) { Hist r; for (uint64_t i : v) if (!r.empty() && r.back().second + 1 == i) r.back().second = i; else r.push_back({i, i}); return r; };
        for (size_t sz = v.size() / 2; sz >= 1 && nowS() < budget; sz /= 2) for (size_t i = 0; i < v.size() && v.size() > 1 && nowS() < budget;) { auto c = v; c.erase(c.begin() + i, c.begin() + std::min(i + sz, c.size())); if (!c.empty() && !tryHist(base, mk(c), NULL).empty()) v = c; else i += sz; }
        h = mk(v);
    }
    return tryHist(base, h, &notes);
}
static Bytes shrink(Bytes b, double budget) {
    struct timespec t0, t1; __real_clock_gettime(CLOCK_MONOTONIC, &t0); int tries = 0;
    auto over = [&]() { __real_clock_gettime(CLOCK_MONOTONIC, &t1); return t1.tv_sec - t0.tv_sec > budget || tries > 3000; };
    auto ok = [&](const Bytes &c) { tries++; return !tryBytes(c, NULL).empty(); };
    bool ch = true;
    while (ch && !over()) {
        ch = false;
        while (b.size() > 1 && b.back() == 0) { Bytes c(b.begin(), b.end() - 1); if (!ok(c)) break; b = c; ch = true; if (over()) break; }
        for (size_t sz = b.size() / 2; sz >= 1 && !over(); sz /= 2) {
            for (size_t i = PREFIX; i + sz <= b.size() && !over();) {
                Bytes c(b); c.erase(c.begin() + i, c.begin() + i + sz);
                if (ok(c)) { b = c; ch = true; continue; }
                bool nz = false; for (size_t j = i; j < i + sz; j++) nz |= b[j] != 0;
                if (nz) { c = b; std::fill(c.begin() + i, c.begin() + i + sz, 0); if (ok(c)) { b = c; ch = true; } }
                i += sz;
            }
        }
        for (size_t i = PREFIX; i < b.size() && !over(); i++) {
            while (b[i] && !over()) { Bytes c(b); c[i] = b[i] / 2; if (ok(c)) { b = c; ch = true; continue; } c[i] = b[i] - 1; if (ok(c)) { b = c; ch = true; continue; } break; }
        }
    }
    return b;
}
static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char t[8]; snprintf(t, 8, "\\u%04x", c); o += t; } else o += c; } return o; }

#ifdef FUZZ_MAIN
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    isFuzz = true; SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const char *p = getenv("FUZZ_PROP"), *f = getenv("FUZZ_FLAVOUR"); if (f) flav = f;
    for (size_t i = 0; i < props().size(); i++) if (p && !strcmp(props()[i].id, p)) for (int w = 0; w < props()[i].weight; w++) wheel.push_back(i);
    if (wheel.empty()) { fprintf(stderr, "no such property\n"); exit(2); }
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
    Src s; s.random = false; s.in = d; s.inlen = n; s.pos = 0;
    SH->reclen = 0; SH->msg[0] = 0; SH->notelen = 0; 
    long live = g_live_allocs;
    try { int k = wheel[s.below(wheel.size())]; SH->propIdx = k; side = Rng(0x1234); allocReset(); entropySet(0x51ed); props()[k].fn(s); } catch (Discard &) { g_live_allocs = live; return -1; }
    return 0;
}
#else
int main(int argc, char **argv) {
    std::string prop, out, replay, log, history; uint64_t seed = 1, cases = 1000; double maxt = 60; bool verb = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = v(); else if (a == "--seed") seed = strtoull(v().c_str(), 0, 0); else if (a == "--cases") cases = strtoull(v().c_str(), 0, 0);
        else if (a == "--maxtime") maxt = atof(v().c_str()); else if (a == "--out") out = v(); else if (a == "--replay") replay = v(); else if (a == "--history") history = v();
        else if (a == "--prefix") { std::string h = v(); for (size_t j = 0; j + 1 < h.size(); j += 2) g_prefix.push_back(strtoul(h.substr(j, 2).c_str(), 0, 16)); } else if (a == "--thorough") isThorough = true; else if (a == "--flavour") flav = v(); else if (a == "--limit") defLimit = atof(v().c_str()); else if (a == "-v") verb = true;
        else if (a == "--union") { std::vector<uint64_t> h; for (i++; i < argc; i++) { FILE *f = fopen(argv[i], "rb"); uint64_t x; if (f) { while (fread(&x, 8, 1, f) == 1) h.push_back(x); fclose(f); } } std::sort(h.begin(), h.end()); printf("%zu\n", (size_t)(std::unique(h.begin(), h.end()) - h.begin())); return 0; }
        else if (a == "--list") { for (auto &p : props()) printf("%s %s %d %s\n", p.id, p.name, p.weight, p.flavours); return 0; }
    }
    SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string rules;
    std::string only; size_t dot = prop.find('.'); if (dot != std::string::npos) { only = prop.substr(dot + 1); prop = prop.substr(0, dot); }
    for (size_t i = 0; i < props().size(); i++) if (prop == props()[i].id && (only.empty() || only == props()[i].name)) {
        std::string f = std::string(",") + props()[i].flavours + ",";
        if (f == ",*," || f.find("," + flav + ",") != std::string::npos || !only.empty()) for (int w = 0; w < props()[i].weight; w++) wheel.push_back(i);
        if (!rules.empty()) rules += " | "; rules += std::string(props()[i].name) + ": " + props()[i].rule;
    }
    if (wheel.empty()) { fprintf(stderr, "no check for property %s in flavour %s\n", prop.c_str(), flav.c_str()); return 2; }
    logPath = out.empty() ? "/tmp/h_" + std::to_string(getpid()) + ".log" : out + ".log";
    if (!out.empty()) hashPath = out + ".hashes";
    if (!history.empty()) {
        uint64_t b; Hist h = histParse(history, b); std::string notes, m = tryHist(b, h, &notes); printf("%s\n%s\n", notes.c_str(), m.empty() ? "PASS" : m.c_str()); unlink(logPath.c_str()); return m.empty() ? 0 : 1;
    }
    if (!replay.empty()) {
        FILE *f = fopen(replay.c_str(), "rb"); if (!f) { perror("replay"); return 2; } Bytes b; int c; while ((c = fgetc(f)) != EOF) b.push_back(c); fclose(f);
        std::string notes; std::string m = tryBytes(b, &notes); printf("%s\n%s\n", notes.c_str(), m.empty() ? "PASS" : m.c_str());
        bool dosh = getenv("SHRINK") != NULL;
        if (dosh && !m.empty()) { b = shrink(b, 60); f = fopen(replay.c_str(), "wb"); fwrite(b.data(), 1, b.size(), f); fclose(f); m = tryBytes(b, &notes); printf("SHRUNK %zu bytes: %s\n%s\n", b.size(), notes.c_str(), m.c_str()); }
        unlink(logPath.c_str());
        return m.empty() ? 0 : 1;
    }
    // supervise
    struct timespec t0, t1; __real_clock_gettime(CLOCK_MONOTONIC, &t0);
    uint64_t base = mix(mix(seed, fnv((const uint8_t *)prop.data(), prop.size())), fnv((const uint8_t *)flav.data(), flav.size()));
    uint64_t from = 0; std::string msg, notes, hist; Bytes fail; int unrep = 0, tried = 0; std::string unrepMsg;
    while (from < cases) {
        __real_clock_gettime(CLOCK_MONOTONIC, &t1); double used = t1.tv_sec - t0.tv_sec; if (used > maxt) break;
        SH->done = 0; double began = nowS(); uint64_t first0 = from;
        pid_t pid = fork();
        if (pid == 0) {
            childSetup(); int fd = __real_open(logPath.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0 && !verb) { dup2(fd, 2); dup2(fd, 1); }
            std::unordered_set<uint64_t> seen; childLoop(base, from, cases, maxt - used, &seen); _exit(0);
        }
        int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (SH->done && WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        // failure on case SH->caseIdx
        from = SH->caseIdx + 1; SH->evals++;
        Bytes b(SH->rec, SH->rec + SH->reclen); std::string first = SH->msg; if (first.empty()) first = "child died: status " + std::to_string(st) + " " + asanTail(logPath.c_str());
        int bad = 0; std::string m; for (int k = 0; k < 3; k++) { m = tryBytes(b, &notes); if (!m.empty()) bad++; }
        if (bad < 3 && tried < 2) {
            tried++; Hist h; m = confirmHist(base, first0, from - 1, nowS() - began, h, notes);
            if (!m.empty()) { msg = std::string(props()[SH->propIdx].name) + ": after what earlier cases did: " + m; fail = Bytes(SH->rec, SH->rec + SH->reclen); hist = histText(base, h); break; }
        }
        if (bad < 3) { unrep++; unrepMsg = first; if (unrep > 20) break; continue; }
        b = shrink(b, 40);
        m = tryBytes(b, &notes);
        if (m.empty()) { unrep++; unrepMsg = first; continue; }
        msg = std::string(props()[SH->propIdx].name) + ": " + m; fail = b; break;
    }
    __real_clock_gettime(CLOCK_MONOTONIC, &t1);
    FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w"); if (!f) { perror("out"); return 2; }
    fprintf(f, "{\"prop\":\"%s\",\"flavour\":\"%s\",\"seed\":%llu,\"evals\":%llu,\"discards\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"unreproduced\":%d,\"unreproduced_msg\":\"%s\",\"wall\":%.2f,\"rule\":\"%s\",\"classes\":{", prop.c_str(), flav.c_str(), (unsigned long long)seed, (unsigned long long)SH->evals, (unsigned long long)SH->discards, (unsigned long long)SH->nontriv, (unsigned long long)SH->distinct, unrep, jesc(unrepMsg).c_str(), (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9, jesc(rules).c_str());
    for (uint32_t i = 0; i < SH->ncls; i++) fprintf(f, "%s\"%s\":%llu", i ? "," : "", jesc(SH->cls[i].name).c_str(), (unsigned long long)SH->cls[i].n);
    fprintf(f, "},\"samples\":["); for (uint32_t i = 0; i < std::min<uint32_t>(SH->nsamples, 6); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(SH->samples[i]).c_str());
    fprintf(f, "]");
    if (!msg.empty()) { fprintf(f, ",\"fail\":\"%s\",\"notes\":\"%s\",\"bytes\":\"%s\"", jesc(msg).c_str(), jesc(notes).c_str(), hex(fail, 1 << 24).c_str()); if (!hist.empty()) fprintf(f, ",\"history\":\"%s\"", hist.c_str()); }
    fprintf(f, "}\n"); if (f != stdout) fclose(f);
    if (out.empty()) unlink(logPath.c_str()); else unlink(logPath.c_str());
    return msg.empty() ? 0 : 1;
}
#endif
