/* Runs the arm64 code (compiled by clang for that processor, linked as one image) in a small emulator and puts it behind the
   library's instruction set checks. The image may touch its own stack, the context, the block read and the block written.
   An instruction the emulator does not know is no verdict: the portable code finishes the block instead. */
#define _GNU_SOURCE
#include <racrypt.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <elf.h>
#include <sys/mman.h>
__asm__(".section .rodata\n.balign 16\nimage:\n.incbin \"" IMAGE "\"\nimage_end:\n.previous\n"); extern const uint8_t image[], image_end[];
static void die(const char *m) { fprintf(stderr, "arm64: %s\n", m); fflush(stderr); abort(); }
typedef union { uint8_t b[16]; uint16_t h[8]; uint32_t w[4]; uint64_t d[2]; } V;
static struct { uint64_t x[32], sp, pc; int n, z, c, v; V q[32]; struct { uint64_t a; size_t n; int wr; } ok[8]; int nok; } M;
static jmp_buf unknown; static uint8_t *base, *stk; static size_t imgn; static uint8_t sb[256], ib[256];
enum { STK = 65536 };
static uint32_t rol(uint32_t x, int k) { return x << k | x >> (32 - k); }
static uint8_t xt(uint8_t a) { return a << 1 ^ (a & 0x80 ? 0x1b : 0); }
static uint8_t gm(uint8_t a, uint8_t b) { uint8_t r = 0; for (; b; b >>= 1, a = xt(a)) if (b & 1) r ^= a; return r; }
static void load(void) {
	const Elf64_Ehdr *e = (const void *)image; const Elf64_Phdr *p = (const void *)(image + e->e_phoff); int i, j; for (i = 0; i < e->e_phnum; i++) if (p[i].p_type == PT_LOAD && p[i].p_vaddr + p[i].p_memsz > imgn) imgn = p[i].p_vaddr + p[i].p_memsz;
	base = mmap(NULL, imgn + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); stk = malloc(STK + 64); if (base == MAP_FAILED || !stk) die("no memory"); for (i = 0; i < e->e_phnum; i++) if (p[i].p_type == PT_LOAD) memcpy(base + p[i].p_vaddr, image + p[i].p_offset, p[i].p_filesz);
	const Elf64_Shdr *s = (const void *)(image + e->e_shoff); for (i = 0; i < e->e_shnum; i++) if (s[i].sh_type == SHT_RELA) { const Elf64_Rela *r = (const void *)(image + s[i].sh_offset); for (j = 0; j < (int)(s[i].sh_size / sizeof *r); j++) if (ELF64_R_TYPE(r[j].r_info) == R_AARCH64_RELATIVE) { uint64_t v = (uint64_t)base + r[j].r_addend; memcpy(base + r[j].r_offset, &v, 8); } else longjmp(unknown, 2); }
	for (i = 0; i < 256; i++) { int a = 0; if (i) for (a = 1; gm(i, a) != 1; a++); sb[i] = a ^ (uint8_t)(a << 1 | a >> 7) ^ (uint8_t)(a << 2 | a >> 6) ^ (uint8_t)(a << 3 | a >> 5) ^ (uint8_t)(a << 4 | a >> 4) ^ 0x63; } for (i = 0; i < 256; i++) ib[sb[i]] = i;
}
static uint64_t sym(const char *n) { const Elf64_Ehdr *e = (const void *)image; const Elf64_Shdr *s = (const void *)(image + e->e_shoff); int i, j; for (i = 0; i < e->e_shnum; i++) if (s[i].sh_type == SHT_DYNSYM) { const Elf64_Sym *y = (const void *)(image + s[i].sh_offset); const char *t = (const char *)image + s[s[i].sh_link].sh_offset; for (j = 0; j < (int)(s[i].sh_size / sizeof *y); j++) if (!strcmp(t + y[j].st_name, n) && y[j].st_shndx) return (uint64_t)base + y[j].st_value; } longjmp(unknown, 2); }
static uint8_t *mem(uint64_t a, int n, int wr) { int i; for (i = 0; i < M.nok; i++) if (a >= M.ok[i].a && a + n <= M.ok[i].a + M.ok[i].n && (!wr || M.ok[i].wr)) return (uint8_t *)a; die(wr ? "a write outside the context, the output block and the stack" : "a read outside the context, the blocks and the stack"); return NULL; }
static void allow(const void *p, size_t n, int wr) { M.ok[M.nok].a = (uint64_t)p; M.ok[M.nok].n = n; M.ok[M.nok++].wr = wr; }
static uint64_t X(int r) { return r == 31 ? 0 : M.x[r]; } static uint64_t XS(int r) { return r == 31 ? M.sp : M.x[r]; }
static void W(int r, uint64_t v, int sf) { if (r != 31) M.x[r] = sf ? v : (uint32_t)v; } static void WS(int r, uint64_t v, int sf) { if (!sf) v = (uint32_t)v; if (r == 31) M.sp = v; else M.x[r] = v; }
static uint64_t addc(uint64_t a, uint64_t b, int c, int sf, int flags) { uint64_t r; if (!sf) { a = (uint32_t)a; b = (uint32_t)b; uint64_t t = a + b + c; r = (uint32_t)t; if (flags) { M.n = r >> 31; M.z = !r; M.c = t >> 32; M.v = ((~(a ^ b) & (a ^ r)) >> 31) & 1; } return r; } unsigned __int128 t = (unsigned __int128)a + b + c; r = (uint64_t)t; if (flags) { M.n = r >> 63; M.z = !r; M.c = (int)(t >> 64); M.v = (~(a ^ b) & (a ^ r)) >> 63; } return r; }
static int cond(int c) { int r; switch (c >> 1) { case 0: r = M.z; break; case 1: r = M.c; break; case 2: r = M.n; break; case 3: r = M.v; break; case 4: r = M.c && !M.z; break; case 5: r = M.n == M.v; break; case 6: r = M.n == M.v && !M.z; break; default: return 1; } return (c & 1) ? !r : r; }
static uint64_t shift(uint64_t v, int t, int k, int sf) { int n = sf ? 64 : 32; if (!sf) v = (uint32_t)v; k &= n - 1; if (!k) return v; switch (t) { case 0: v <<= k; break; case 1: v >>= k; break; case 2: v = sf ? (uint64_t)((int64_t)v >> k) : (uint32_t)((int32_t)v >> k); break; default: v = v >> k | v << (n - k); } return sf ? v : (uint32_t)v; }
static uint64_t ext(uint64_t v, int t, int k) { switch (t) { case 0: v = (uint8_t)v; break; case 1: v = (uint16_t)v; break; case 2: v = (uint32_t)v; break; case 4: v = (int64_t)(int8_t)v; break; case 5: v = (int64_t)(int16_t)v; break; case 6: v = (int64_t)(int32_t)v; break; default:; } return v << k; }
static int64_t sx(uint64_t v, int bits) { return (int64_t)(v << (64 - bits)) >> (64 - bits); }
static uint64_t bitmask(int n, int imms, int immr) { int len = 31 - __builtin_clz((n << 6) | (~imms & 63)), S, R, i; if (len < 1) longjmp(unknown, 1); int es = 1 << len; S = imms & (es - 1); R = immr & (es - 1); uint64_t e = S == 63 ? ~0ull : (1ull << (S + 1)) - 1, m = es == 64 ? ~0ull : (1ull << es) - 1, r = 0; if (R) e = (e >> R | e << (es - R)) & m; for (i = 0; i < 64; i += es) r |= e << i; return r; }
#define F(hi, lo) ((int)(i >> (lo) & ((1u << ((hi) - (lo) + 1)) - 1)))
static void ldst(uint32_t i, uint64_t a, int size, int vec, int opc) { /* one register */
	int t = F(4, 0); if (vec) { int n = 1 << (size | (opc & 2 ? 4 : 0)); if (n > 16) longjmp(unknown, 1); if (opc & 1) { V v; memset(&v, 0, sizeof v); memcpy(v.b, mem(a, n, 0), n); M.q[t] = v; } else memcpy(mem(a, n, 1), M.q[t].b, n); return; }
	int n = 1 << size; uint64_t v = 0; if (opc == 0) { v = X(t); memcpy(mem(a, n, 1), &v, n); return; } if (size == 3 && opc == 2) return; memcpy(&v, mem(a, n, 0), n); if (opc == 1) W(t, v, 1); else W(t, sx(v, 8 * n), opc == 2);
}
static void sha256(V *x, V *y, const V *w) { for (int e = 0; e < 4; e++) { uint32_t c = (y->w[0] & y->w[1]) ^ (~y->w[0] & y->w[2]), m = (x->w[0] & x->w[1]) | (x->w[0] & x->w[2]) | (x->w[1] & x->w[2]), t = y->w[3] + (rol(y->w[0], 26) ^ rol(y->w[0], 21) ^ rol(y->w[0], 7)) + c + w->w[e]; x->w[3] += t; y->w[3] = t + (rol(x->w[0], 30) ^ rol(x->w[0], 19) ^ rol(x->w[0], 10)) + m; uint32_t k = y->w[3]; y->w[3] = y->w[2]; y->w[2] = y->w[1]; y->w[1] = y->w[0]; y->w[0] = x->w[3]; x->w[3] = x->w[2]; x->w[2] = x->w[1]; x->w[1] = x->w[0]; x->w[0] = k; } }
static int simd(uint32_t i) {
	int d = F(4, 0), n = F(9, 5), m = F(20, 16), e; V a = M.q[d], b = M.q[n], c = M.q[m], r; memset(&r, 0, sizeof r); int Q = F(30, 30), U = F(29, 29), sz = F(23, 22);
	if ((i & 0xbfff0000) == 0x0c400000 || (i & 0xbfe00000) == 0x0cc00000 || (i & 0xbfff0000) == 0x0c000000 || (i & 0xbfe00000) == 0x0c800000) { /* ld1 st1, one to four registers */
		int op = F(15, 12), k = op == 7 ? 1 : op == 10 ? 2 : op == 6 ? 3 : op == 2 ? 4 : 0, by = Q ? 16 : 8; uint64_t at = XS(n); if (!k) return 0; for (e = 0; e < k; e++) { int t = (d + e) & 31; if (F(22, 22)) { memset(&r, 0, 16); memcpy(r.b, mem(at + e * by, by, 0), by); M.q[t] = r; } else memcpy(mem(at + e * by, by, 1), M.q[t].b, by); } if (F(23, 23)) WS(n, at + (m == 31 ? (uint64_t)k * by : X(m)), 1); return 1; }
	if ((i & 0xbf000000) == 0x0d000000 && !F(21, 21)) { /* ld1 st1, one lane */
		int op = F(15, 13), x, es, S = F(12, 12), z = F(11, 10); if (op == 0) { es = 1; x = Q << 3 | S << 2 | z; } else if (op == 2 && !(z & 1)) { es = 2; x = Q << 2 | S << 1 | z >> 1; } else if (op == 4 && z == 0) { es = 4; x = Q << 1 | S; } else if (op == 4 && z == 1 && !S) { es = 8; x = Q; } else return 0;
		uint64_t at = XS(n); if (F(22, 22)) memcpy(M.q[d].b + x * es, mem(at, es, 0), es); else memcpy(mem(at, es, 1), M.q[d].b + x * es, es); if (F(23, 23)) WS(n, at + (m == 31 ? (uint64_t)es : X(m)), 1); return 1; }
	if ((i & 0xffff0c00) == 0x4e280800) { int op = F(15, 12); V t; switch (op) {
		case 4: for (e = 0; e < 16; e++) t.b[e] = a.b[e] ^ b.b[e]; for (e = 0; e < 16; e++) r.b[e] = sb[t.b[(e + 4 * (e & 3)) & 15]]; break;
		case 5: for (e = 0; e < 16; e++) t.b[e] = a.b[e] ^ b.b[e]; for (e = 0; e < 16; e++) r.b[(e + 4 * (e & 3)) & 15] = ib[t.b[e]]; break;
		case 6: case 7: for (e = 0; e < 16; e++) { const uint8_t *p = b.b + (e & 12); int k = e & 3; r.b[e] = op == 6 ? gm(p[k], 2) ^ gm(p[(k + 1) & 3], 3) ^ p[(k + 2) & 3] ^ p[(k + 3) & 3] : gm(p[k], 14) ^ gm(p[(k + 1) & 3], 11) ^ gm(p[(k + 2) & 3], 13) ^ gm(p[(k + 3) & 3], 9); } break; default: return 0; } M.q[d] = r; return 1; }
	if ((i & 0xffe08c00) == 0x5e000000) { int op = F(14, 12); switch (op) { case 0: case 1: case 2: { uint32_t y = b.w[0]; for (e = 0; e < 4; e++) { uint32_t t = op == 0 ? (a.w[1] & a.w[2]) ^ (~a.w[1] & a.w[3]) : op == 1 ? a.w[1] ^ a.w[2] ^ a.w[3] : (a.w[1] & a.w[2]) | (a.w[1] & a.w[3]) | (a.w[2] & a.w[3]); y += rol(a.w[0], 5) + t + c.w[e]; a.w[1] = rol(a.w[1], 30); uint32_t k = y; y = a.w[3]; a.w[3] = a.w[2]; a.w[2] = a.w[1]; a.w[1] = a.w[0]; a.w[0] = k; } M.q[d] = a; return 1; }
		case 3: r.d[0] = a.d[1]; r.d[1] = b.d[0]; r.d[0] ^= a.d[0] ^ c.d[0]; r.d[1] ^= a.d[1] ^ c.d[1]; M.q[d] = r; return 1;
		case 4: sha256(&a, &b, &c); M.q[d] = a; return 1; case 5: { V x = b, y = a; sha256(&x, &y, &c); M.q[d] = y; return 1; }
		case 6: { uint32_t t0[4] = {b.w[1], b.w[2], b.w[3], c.w[0]}, t1[2] = {c.w[2], c.w[3]}; for (e = 0; e < 4; e++) { uint32_t q = e < 2 ? t1[e] : r.w[e - 2]; r.w[e] = (rol(q, 15) ^ rol(q, 13) ^ q >> 10) + a.w[e] + t0[e]; } M.q[d] = r; return 1; } } return 0; }
	if ((i & 0xffff8c00) == 0x5e280800) { int op = F(14, 12); if (op == 0) r.w[0] = rol(b.w[0], 30); else if (op == 1) { V t = a; t.w[0] ^= b.w[1]; t.w[1] ^= b.w[2]; t.w[2] ^= b.w[3]; for (e = 0; e < 4; e++) r.w[e] = rol(t.w[e], 1); r.w[3] ^= rol(t.w[0], 2); } else if (op == 2) { uint32_t t[4] = {a.w[1], a.w[2], a.w[3], b.w[0]}; for (e = 0; e < 4; e++) r.w[e] = a.w[e] + (rol(t[e], 25) ^ rol(t[e], 14) ^ t[e] >> 3); } else return 0; M.q[d] = r; return 1; }
	if ((i & 0x9f20fc00) == 0x0e201c00) { for (e = 0; e < 2; e++) { uint64_t x = a.d[e], y = b.d[e], z = c.d[e]; r.d[e] = U ? (sz == 0 ? y ^ z : sz == 1 ? (x & y) | (~x & z) : sz == 2 ? (x & ~z) | (y & z) : (x & z) | (y & ~z)) : (sz == 0 ? y & z : sz == 1 ? y & ~z : sz == 2 ? y | z : y | ~z); } if (!Q) r.d[1] = 0; M.q[d] = r; return 1; }
	if ((i & 0x9f20fc00) == 0x0e208400) { for (e = 0; e < 16; e++) { if (sz == 0) r.b[e] = U ? b.b[e] - c.b[e] : b.b[e] + c.b[e]; else if (sz == 1 && e < 8) r.h[e] = U ? b.h[e] - c.h[e] : b.h[e] + c.h[e]; else if (sz == 2 && e < 4) r.w[e] = U ? b.w[e] - c.w[e] : b.w[e] + c.w[e]; else if (sz == 3 && e < 2) r.d[e] = U ? b.d[e] - c.d[e] : b.d[e] + c.d[e]; } if (!Q) r.d[1] = 0; M.q[d] = r; return 1; }
	if ((i & 0x9f3ffc00) == 0x0e200800) { int es = U ? 4 : 8, g = 1 << sz; if (g >= es) return 0; for (e = 0; e < 16; e++) r.b[e] = b.b[(e / es) * es + ((es / g - 1 - (e % es) / g) * g) + e % g]; if (!Q) r.d[1] = 0; M.q[d] = r; return 1; }
	if ((i & 0xbf3ffc00) == 0x0e212800) { V t; memset(&t, 0, 16); for (e = 0; e < 8; e++) { if (sz == 0) t.b[e] = (uint8_t)b.h[e]; else if (sz == 1 && e < 4) t.h[e] = (uint16_t)b.w[e]; else if (sz == 2 && e < 2) t.w[e] = (uint32_t)b.d[e]; } if (sz == 3) return 0; if (Q) { r = a; r.d[1] = t.d[0]; } else r = t; M.q[d] = r; return 1; }
	if ((i & 0xbf80fc00) == 0x2f00a400) { int h = F(22, 19), s = F(22, 16); const int o = Q ? 8 : 0; if (h & 8) return 0; for (e = 0; e < 8; e++) { if (h & 4) { if (e < 2) { uint32_t w; memcpy(&w, b.b + o + 4 * e, 4); r.d[e] = (uint64_t)w << (s - 32); } } else if (h & 2) { if (e < 4) { uint16_t w; memcpy(&w, b.b + o + 2 * e, 2); r.w[e] = (uint32_t)w << (s - 16); } } else r.h[e] = (uint16_t)(b.b[o + e] << (s - 8)); } M.q[d] = r; return 1; }
	if ((i & 0xbfe08400) == 0x2e000000) { int p = F(14, 11); for (e = 0; e < (Q ? 16 : 8); e++) { int k = e + p, w = Q ? 16 : 8; r.b[e] = k < w ? b.b[k] : c.b[k - w]; } M.q[d] = r; return 1; }
	if ((i & 0xfffffc00) == 0x1e260000) { W(d, b.w[0], 0); return 1; } if ((i & 0xfffffc00) == 0x1e270000) { r.w[0] = (uint32_t)X(n); M.q[d] = r; return 1; } if ((i & 0xfffffc00) == 0x9e660000) { W(d, b.d[0], 1); return 1; } if ((i & 0xfffffc00) == 0x9e670000) { r.d[0] = X(n); M.q[d] = r; return 1; }
	if ((i & 0x9ff80400) == 0x0f000400 && F(15, 12) == 0xe && !F(11, 11)) { uint8_t k = F(18, 16) << 5 | F(9, 5); if (U) { for (e = 0; e < 8; e++) r.b[e] = k >> e & 1 ? 255 : 0; } else memset(r.b, k, 8); if (Q) r.d[1] = r.d[0]; M.q[d] = r; return 1; }
	return 0;
}
static int step(void) {
	uint32_t i; if (M.pc < (uint64_t)base || M.pc + 4 > (uint64_t)base + imgn) return 0; memcpy(&i, (void *)M.pc, 4); uint64_t npc = M.pc + 4; int sf = i >> 31, d = F(4, 0), n = F(9, 5), m = F(20, 16);
	if ((i & 0xfffff01f) == 0xd503201f) ; /* hints */
	else if ((i & 0xffffffe0) == 0xd5380600) W(d, 0x0000000000011120ull, 1); /* features: AES, SHA-1, SHA-256 */
	else if ((i & 0x9f000000) == 0x10000000) W(d, M.pc + sx((uint64_t)F(23, 5) << 2 | F(30, 29), 21), 1);
	else if ((i & 0x9f000000) == 0x90000000) W(d, (M.pc & ~4095ull) + (sx((uint64_t)F(23, 5) << 2 | F(30, 29), 21) << 12), 1);
	else if ((i & 0x1f800000) == 0x11000000) { uint64_t k = (uint64_t)F(21, 10) << (F(22, 22) ? 12 : 0); int s = F(29, 29); uint64_t r = F(30, 30) ? addc(XS(n), ~k, 1, sf, s) : addc(XS(n), k, 0, sf, s); if (s) W(d, r, sf); else WS(d, r, sf); }
	else if ((i & 0x1f200000) == 0x0b000000) { uint64_t k = shift(X(m), F(23, 22), F(15, 10), sf); int s = F(29, 29); W(d, F(30, 30) ? addc(X(n), ~k, 1, sf, s) : addc(X(n), k, 0, sf, s), sf); }
	else if ((i & 0x1fe00000) == 0x0b200000) { uint64_t k = ext(X(m), F(15, 13), F(12, 10)); int s = F(29, 29); uint64_t r = F(30, 30) ? addc(XS(n), ~k, 1, sf, s) : addc(XS(n), k, 0, sf, s); if (s) W(d, r, sf); else WS(d, r, sf); }
	else if ((i & 0x1f800000) == 0x12000000) { uint64_t k = bitmask(F(22, 22), F(15, 10), F(21, 16)), r; int op = F(30, 29); r = op == 1 ? X(n) | k : op == 2 ? X(n) ^ k : X(n) & k; if (!sf) r = (uint32_t)r; if (op == 3) { M.n = sf ? r >> 63 : r >> 31; M.z = !r; M.c = M.v = 0; W(d, r, sf); } else WS(d, r, sf); }
	else if ((i & 0x1f000000) == 0x0a000000) { uint64_t k = shift(X(m), F(23, 22), F(15, 10), sf), r; int op = F(30, 29); if (F(21, 21)) k = ~k; r = op == 1 ? X(n) | k : op == 2 ? X(n) ^ k : X(n) & k; if (!sf) r = (uint32_t)r; if (op == 3) { M.n = sf ? r >> 63 : r >> 31; M.z = !r; M.c = M.v = 0; } W(d, r, sf); }
	else if ((i & 0x1f800000) == 0x12800000) { int op = F(30, 29), s = F(22, 21) * 16; uint64_t k = (uint64_t)F(20, 5) << s; W(d, op == 0 ? ~k : op == 2 ? k : (X(d) & ~(0xffffull << s)) | k, sf); }
	else if ((i & 0x1f800000) == 0x13000000) { int op = F(30, 29), r = F(21, 16), s = F(15, 10), w = sf ? 64 : 32; uint64_t v = sf ? X(n) : (uint32_t)X(n), q; if (op == 3) return 0; if (s >= r) { int len = s - r + 1; uint64_t f = v >> r & (len == 64 ? ~0ull : (1ull << len) - 1); q = op == 0 ? (uint64_t)sx(f, len) : op == 2 ? f : (X(d) & ~(len == 64 ? ~0ull : (1ull << len) - 1)) | f; } else { int len = s + 1, at = w - r; uint64_t f = (v & ((1ull << len) - 1)); q = op == 0 ? (uint64_t)sx(f, len) << at : op == 2 ? f << at : (X(d) & ~(((1ull << len) - 1) << at)) | f << at; } W(d, q, sf); }
	else if ((i & 0x7fe00000) == 0x13800000 || (i & 0x7fe00000) == 0x13c00000) { int k = F(15, 10); uint64_t v; if (sf) v = k ? X(n) << (64 - k) | X(m) >> k : X(m); else v = k ? (uint32_t)X(n) << (32 - k) | (uint32_t)X(m) >> k : X(m); W(d, v, sf); }
	else if ((i & 0x7c000000) == 0x14000000) { if (sf) M.x[30] = npc; npc = M.pc + sx((uint64_t)F(25, 0) << 2, 28); }
	else if ((i & 0xff000010) == 0x54000000) { if (cond(F(3, 0))) npc = M.pc + sx((uint64_t)F(23, 5) << 2, 21); }
	else if ((i & 0x7e000000) == 0x34000000) { uint64_t v = sf ? X(d) : (uint32_t)X(d); if ((v != 0) == F(24, 24)) npc = M.pc + sx((uint64_t)F(23, 5) << 2, 21); }
	else if ((i & 0x7e000000) == 0x36000000) { int k = sf << 5 | F(23, 19); if ((int)(X(d) >> k & 1) == F(24, 24)) npc = M.pc + sx((uint64_t)F(18, 5) << 2, 16); }
	else if ((i & 0xff9ffc1f) == 0xd61f0000) { int op = F(22, 21); uint64_t t = X(n); if (op == 3) return 0; if (op == 1) M.x[30] = npc; npc = t; }
	else if ((i & 0x1fe00000) == 0x1a800000) { int op = F(30, 30), o2 = F(10, 10); uint64_t v = cond(F(15, 12)) ? X(n) : (op ? ~X(m) : X(m)) + (o2 ? 1 : 0); W(d, v, sf); }
	else if ((i & 0x3fe00010) == 0x3a400000) { int nz = F(3, 0); uint64_t k = F(11, 11) ? (uint64_t)m : X(m); if (F(10, 10)) return 0; if (cond(F(15, 12))) { if (F(30, 30)) addc(X(n), ~k, 1, sf, 1); else addc(X(n), k, 0, sf, 1); } else { M.n = nz >> 3; M.z = nz >> 2 & 1; M.c = nz >> 1 & 1; M.v = nz & 1; } }
	else if ((i & 0x7fe00000) == 0x1b000000) { uint64_t p = X(n) * X(m); W(d, F(15, 15) ? X(F(14, 10)) - p : X(F(14, 10)) + p, sf); }
	else if ((i & 0x7fe0f000) == 0x1ac02000) { int op = F(11, 10); W(d, shift(X(n), op, (int)(X(m) & 63), sf), sf); }
	else if ((i & 0xfffffc00) == 0x5ac00800) W(d, __builtin_bswap32(X(n)), 0);
	else if ((i & 0xfffffc00) == 0xdac00c00) W(d, __builtin_bswap64(X(n)), 1);
	else if ((i & 0x3b000000) == 0x39000000) { int size = F(31, 30), opc = F(23, 22), vec = F(26, 26), sc = vec && opc & 2 ? 4 : size; ldst(i, XS(n) + ((uint64_t)F(21, 10) << sc), size, vec, opc); }
	else if ((i & 0x3b200000) == 0x38000000) { int k = F(11, 10); uint64_t off = sx(F(20, 12), 9), at = XS(n); if (k == 2) return 0; ldst(i, k == 1 ? at : at + off, F(31, 30), F(26, 26), F(23, 22)); if (k) WS(n, at + off, 1); }
	else if ((i & 0x3b200c00) == 0x38200800) { int size = F(31, 30), opc = F(23, 22), vec = F(26, 26), sc = vec && opc & 2 ? 4 : size; ldst(i, XS(n) + ext(X(m), F(15, 13), F(12, 12) ? sc : 0), size, vec, opc); }
	else if ((i & 0x3a000000) == 0x28000000) { int vec = F(26, 26), opc = F(31, 30), k = F(24, 23), t2 = F(14, 10), sc = vec ? 2 + opc : opc == 2 ? 3 : 2; uint64_t off = sx(F(21, 15), 7) << sc, at = XS(n), a = k == 1 ? at : at + off; int by = 1 << sc; if (!k || opc == 3) return 0;
		if (F(22, 22)) { V p, q; memset(&p, 0, 16); memset(&q, 0, 16); memcpy(p.b, mem(a, by, 0), by); memcpy(q.b, mem(a + by, by, 0), by); if (vec) { M.q[d] = p; M.q[t2] = q; } else { W(d, opc == 1 ? (uint64_t)sx(p.d[0], 32) : p.d[0], 1); W(t2, opc == 1 ? (uint64_t)sx(q.d[0], 32) : q.d[0], 1); } }
		else { uint64_t v; if (vec) { memcpy(mem(a, by, 1), M.q[d].b, by); memcpy(mem(a + by, by, 1), M.q[t2].b, by); } else { v = X(d); memcpy(mem(a, by, 1), &v, by); v = X(t2); memcpy(mem(a + by, by, 1), &v, by); } } if (k != 2) WS(n, at + off, 1); }
	else if (!simd(i)) return 0;
	M.pc = npc; return 1;
}
/* 1: ran; 0: not known to the emulator */
static int run(uint64_t fn, const void *a, const void *b, const void *c) {
	int i; long steps = 0; uint64_t ret = 0x1234567890ull; if (setjmp(unknown)) return 0; for (i = 0; i < 31; i++) M.x[i] = 0x5151000000000000ull + i; for (i = 0; i < 32; i++) M.q[i].d[0] = M.q[i].d[1] = 0x6161000000000000ull + i;
	M.x[0] = (uint64_t)a; M.x[1] = (uint64_t)b; M.x[2] = (uint64_t)c; M.x[30] = ret; M.sp = ((uint64_t)stk + STK) & ~15ull; M.pc = fn; M.n = M.z = M.c = M.v = 0; uint64_t sp0 = M.sp;
	while (M.pc != ret) { if (!step()) { static int said; if (!said++ && getenv("ARM64_DEBUG")) { uint32_t w; memcpy(&w, (void *)M.pc, 4); fprintf(stderr, "arm64: instruction %08x at %lx is not known\n", w, (long)(M.pc - (uint64_t)base)); } return 0; } if (++steps > 10000000) die("the code does not return"); }
	for (i = 19; i < 30; i++) if (M.x[i] != 0x5151000000000000ull + i) die("a register of x19 to x29 was not preserved"); for (i = 8; i < 16; i++) if (M.q[i].d[0] != 0x6161000000000000ull + i) die("a register of d8 to d15 was not preserved"); if (M.sp != sp0) die("the stack pointer was not preserved"); return 1;
}
static void begin(void) { M.nok = 0; allow(stk, STK, 1); allow(base, imgn, 0); }
static uint64_t e_enc, e_dec, e_s1; static blockCipherEncryptBlock p_enc; static blockCipherDecryptBlock p_dec; static void (*p_s1)(struct RaSha1Ctx *, const uint8_t *);
static int ready(void) { static int r = -1; if (r < 0) { r = setjmp(unknown) ? 0 : (load(), 1); } return r; }
static int in_image(uint64_t p) { return p >= (uint64_t)base && p < (uint64_t)base + imgn; }
static void aes(uint64_t fn, struct RaBlockCipher *b, const uint8_t *in, uint8_t *out, void (*port)(struct RaBlockCipher *, const uint8_t *, uint8_t *)) {
	struct RaAesCtx *c = (struct RaAesCtx *)((uint8_t *)b - offsetof(struct RaAesCtx, blockCipher)), keep = *c; uint8_t t[16]; memcpy(t, in, 16); begin(); allow(c, sizeof *c, 0); allow(in, 16, in == out); allow(out, 16, 1);
	if (!run(fn, b, in, out)) { *c = keep; port(b, t, out); }
}
static void enc(struct RaBlockCipher *b, const uint8_t *in, uint8_t *out) { aes(e_enc, b, in, out, p_enc); }
static void dec(struct RaBlockCipher *b, const uint8_t *in, uint8_t *out) { aes(e_dec, b, in, out, p_dec); }
void RaAesCheckForInstructionSet(struct RaBlockCipher *b) {
	blockCipherEncryptBlock p = b->encryptBlock; blockCipherDecryptBlock q = b->decryptBlock; if (!ready()) return; begin(); allow(b, sizeof *b, 1); uint64_t f; if (setjmp(unknown)) return; f = sym("RaAesCheckForInstructionSet");
	if (!run(f, b, NULL, NULL)) { b->encryptBlock = p; b->decryptBlock = q; return; } if (in_image((uint64_t)b->encryptBlock)) { e_enc = (uint64_t)b->encryptBlock; p_enc = p; b->encryptBlock = enc; } if (in_image((uint64_t)b->decryptBlock)) { e_dec = (uint64_t)b->decryptBlock; p_dec = q; b->decryptBlock = dec; }
}
static void s1(struct RaSha1Ctx *c, const uint8_t d[64]) { struct RaSha1Ctx keep = *c; begin(); allow(c, sizeof *c, 1); allow(d, 64, 0); if (!run(e_s1, c, d, NULL)) { *c = keep; p_s1(c, d); } }
void RaSha1CheckForInstructionSet(struct RaSha1Ctx *c) {
	void (*p)(struct RaSha1Ctx *, const uint8_t *) = c->fnRaSha1Process; if (!ready()) return; begin(); allow(c, sizeof *c, 1); uint64_t f; if (setjmp(unknown)) return; f = sym("RaSha1CheckForInstructionSet");
	if (!run(f, c, NULL, NULL)) { c->fnRaSha1Process = p; return; } if (in_image((uint64_t)c->fnRaSha1Process)) { e_s1 = (uint64_t)c->fnRaSha1Process; p_s1 = p; c->fnRaSha1Process = s1; }
}
#ifdef ARM_SHA2
static uint64_t e_s2; static void (*p_s2)(struct RaSha2Ctx *, const uint8_t *);
static void s2(struct RaSha2Ctx *c, const uint8_t d[64]) { struct RaSha2Ctx keep = *c; begin(); allow(c, sizeof *c, 1); allow(d, 64, 0); if (!run(e_s2, c, d, NULL)) { *c = keep; p_s2(c, d); } }
void RaSha256CheckForInstructionSet(struct RaSha2Ctx *c) {
	void (*p)(struct RaSha2Ctx *, const uint8_t *) = c->fnRaSha256Process; if (!ready()) return; begin(); allow(c, sizeof *c, 1); uint64_t f; if (setjmp(unknown)) return; f = sym("RaSha256CheckForInstructionSet");
	if (!run(f, c, NULL, NULL)) { c->fnRaSha256Process = p; return; } if (in_image((uint64_t)c->fnRaSha256Process)) { e_s2 = (uint64_t)c->fnRaSha256Process; p_s2 = p; c->fnRaSha256Process = s2; }
}
#endif
