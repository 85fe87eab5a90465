/* Loads the Windows assembly (COFF objects made by llvm-ml from the .asm sources) into low memory and puts it behind the
   library's instruction set checks: 64-bit code is called with the Windows x64 convention, 32-bit code (MASM32) through a
   far call into a 32-bit code segment with contexts laid out as in a 32-bit build. The registers a function has to preserve are
   filled with patterns and looked at afterwards. */
#define _GNU_SOURCE
#include <racrypt.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#define INC(sym, file) __asm__(".section .rodata\n.balign 16\n" #sym ":\n.incbin \"" file "\"\n" #sym "_end:\n.previous\n"); extern const uint8_t sym[], sym##_end[];
INC(obj_aes, OBJ_AES) INC(obj_sha1, OBJ_SHA1) INC(obj_sha2, OBJ_SHA2)
static void die(const char *m) { fprintf(stderr, "glue: %s\n", m); fflush(stderr); abort(); }
static uint8_t *low(size_t n) { void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_32BIT, -1, 0); if (p == MAP_FAILED) die("no low memory"); return p; }
static uint16_t u16(const uint8_t *p) { uint16_t v; memcpy(&v, p, 2); return v; }
static uint32_t u32(const uint8_t *p) { uint32_t v; memcpy(&v, p, 4); return v; }
/* maps one object, returns the address of a function */
static uintptr_t coff(const uint8_t *o, const char *want) {
	int ns = u16(o + 2), nsym = u32(o + 12), i, j; const uint8_t *sh = o + 20 + u16(o + 16), *st = o + u32(o + 8), *str = st + 18 * nsym; uint8_t *base[64], *mem; size_t tot = 0, at = 0; uintptr_t found = 0;
	if (ns > 60) die("sections");
	for (i = 0; i < ns; i++) tot += (u32(sh + 40 * i + 16) + 8191) & ~4095; mem = low(tot + 4096);
	for (i = 0; i < ns; i++) { const uint8_t *s = sh + 40 * i; size_t n = u32(s + 16); base[i] = mem + at; at += (n + 8191) & ~4095; if (u32(s + 20) && !(u32(s + 36) & 0x80)) memcpy(base[i], o + u32(s + 20), n); }
	#define SYMADDR(k) ((uintptr_t)(base[u16(st + 18 * (k) + 12) - 1] + u32(st + 18 * (k) + 8)))
	for (i = 0; i < ns; i++) { const uint8_t *s = sh + 40 * i, *r = o + u32(s + 24); int nr = u16(s + 32);
		for (j = 0; j < nr; j++, r += 10) { uint8_t *p = base[i] + u32(r); uint32_t k = u32(r + 4); int t = u16(r + 8); uint64_t v; uint32_t w; if ((int16_t)u16(st + 18 * k + 12) <= 0) die("undefined symbol in assembly"); v = SYMADDR(k); w = u32(p);
#ifdef MASM32
			if (t == 6) w += v; else if (t == 0x14) w += v - (uint32_t)(uintptr_t)p - 4; else die("relocation"); memcpy(p, &w, 4);
#else
			if (t == 1) { uint64_t q; memcpy(&q, p, 8); q += v; memcpy(p, &q, 8); } else if (t == 2) { w += v; memcpy(p, &w, 4); } else if (t >= 4 && t <= 9) { w += v - (uint64_t)(uintptr_t)p - 4 - (t - 4); memcpy(p, &w, 4); } else die("relocation");
#endif
		} }
	for (i = 0; i < nsym; i += 1 + st[18 * i + 17]) { char nm[9] = {0}; const char *n; if (u32(st + 18 * i)) { memcpy(nm, st + 18 * i, 8); n = nm; } else n = (const char *)str + u32(st + 18 * i + 4); if (*n == '_' && n[1] == 'R') n++; if (!strcmp(n, want) && (int16_t)u16(st + 18 * i + 12) > 0) found = SYMADDR(i); }
	for (i = 0; i < ns; i++) if (u32(sh + 40 * i + 36) & 0x20000000) mprotect(base[i], (u32(sh + 40 * i + 16) + 4095) & ~4095, PROT_READ | PROT_EXEC); else if (!(u32(sh + 40 * i + 36) & 0x80000000)) mprotect(base[i], (u32(sh + 40 * i + 16) + 4095) & ~4095, PROT_READ);
	if (!found) die("no entry point in assembly"); return found;
}
#ifdef MASM32
struct Gate { uint32_t fn, arg[3], farptr; uint16_t sel, pad; uint32_t stack, res[5]; uint64_t rsp; };
__asm__(".text\ngate_begin:\n.code64\n"
	"push %rbx; push %rbp; push %r12; push %r13; push %r14; push %r15\n mov %rsp, 48(%rdi)\n mov 24(%rdi), %esp\n lcall *16(%rdi)\n mov 48(%rdi), %rsp\n pop %r15; pop %r14; pop %r13; pop %r12; pop %rbp; pop %rbx\n cld\n ret\n"
	"gate_32:\n.code32\n push %ss\n pop %ds\n push %ss\n pop %es\n push %edi\n pushl 12(%edi)\n pushl 8(%edi)\n pushl 4(%edi)\n mov (%edi), %eax\n mov $0x1b1b1b1b, %ebx\n mov $0x2b2b2b2b, %esi\n mov $0x3b3b3b3b, %edi\n mov $0x4b4b4b4b, %ebp\n call *%eax\n add $12, %esp\n mov (%esp), %ecx\n mov %ebx, 28(%ecx)\n mov %esi, 32(%ecx)\n mov %edi, 36(%ecx)\n mov %ebp, 40(%ecx)\n mov %esp, 44(%ecx)\n pop %edi\n lret\ngate_end:\n.code64\n");
extern const uint8_t gate_begin[], gate_32[], gate_end[];
static void call(uintptr_t fn, void *a, const void *b, void *c) {
	static uint8_t *code, *stack; static struct Gate *g; if (!code) { code = low(4096); memcpy(code, gate_begin, gate_end - gate_begin); mprotect(code, 4096, PROT_READ | PROT_EXEC); stack = low(1 << 17); g = (struct Gate *)low(4096); }
	g->fn = fn; g->arg[0] = (uintptr_t)a; g->arg[1] = (uintptr_t)b; g->arg[2] = (uintptr_t)c; g->farptr = (uintptr_t)code + (gate_32 - gate_begin); g->sel = 0x23; g->stack = (uintptr_t)stack + (1 << 17) - 256 - 4 * ((uintptr_t)b & 12) / 4;
	((void (*)(struct Gate *))code)(g);
	if (g->res[0] != 0x1b1b1b1b || g->res[1] != 0x2b2b2b2b || g->res[2] != 0x3b3b3b3b || g->res[3] != 0x4b4b4b4b) die("32-bit assembly did not preserve ebx, esi, edi, ebp"); if (g->res[4] != g->stack - 12) die("32-bit assembly left the stack pointer wrong");
}
static int usable(void) { static int u = -1; if (u < 0) { pid_t p = fork(); if (p == 0) { signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGILL, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGTRAP, SIG_DFL); uint8_t *f = low(4096); f[0] = 0xc3; mprotect(f, 4096, PROT_READ | PROT_EXEC); call((uintptr_t)f, NULL, NULL, NULL); _exit(0); } int st = 1; waitpid(p, &st, 0); u = p > 0 && WIFEXITED(st) && WEXITSTATUS(st) == 0; } return u; }
#define PTR uint32_t
#else
__asm__(".text\nms_call:\n push %rbp; push %rbx; push %r12; push %r13; push %r14; push %r15\n mov %rsp, %rbp\n and $-16, %rsp\n sub $64, %rsp\n mov %r8, 40(%rsp)\n mov %rdi, %rax\n mov %rcx, %r8\n mov %rsi, %rcx\n" /* fn a b c res -> rcx rdx r8 */
	" mov $0x1b1b1b1b1b1b1b1b, %rbx\n mov $0x2b2b2b2b2b2b2b2b, %rsi\n mov $0x3b3b3b3b3b3b3b3b, %rdi\n mov $0x5b5b5b5b5b5b5b5b, %r12\n mov %rbx, %r13\n mov %rsi, %r14\n mov %rdi, %r15\n movq %rbx, %xmm6\n pshufd $0x44, %xmm6, %xmm6\n movdqa %xmm6, %xmm7\n movdqa %xmm6, %xmm8\n movdqa %xmm6, %xmm9\n movdqa %xmm6, %xmm10\n movdqa %xmm6, %xmm11\n movdqa %xmm6, %xmm12\n movdqa %xmm6, %xmm13\n movdqa %xmm6, %xmm14\n movdqa %xmm6, %xmm15\n"
	" mov %rbp, 48(%rsp)\n mov %rsp, 32(%rsp)\n call *%rax\n mov 40(%rsp), %r9\n mov %rbx, (%r9)\n mov %rsi, 8(%r9)\n mov %rdi, 16(%r9)\n mov %r12, 24(%r9)\n mov %r13, 32(%r9)\n mov %r14, 40(%r9)\n mov %r15, 48(%r9)\n mov %rbp, 56(%r9)\n mov 48(%rsp), %rax\n mov %rax, 64(%r9)\n mov %rsp, 72(%r9)\n mov 32(%rsp), %rax\n mov %rax, 80(%r9)\n"
	" movdqu %xmm6, 96(%r9)\n movdqu %xmm7, 112(%r9)\n movdqu %xmm8, 128(%r9)\n movdqu %xmm9, 144(%r9)\n movdqu %xmm10, 160(%r9)\n movdqu %xmm11, 176(%r9)\n movdqu %xmm12, 192(%r9)\n movdqu %xmm13, 208(%r9)\n movdqu %xmm14, 224(%r9)\n movdqu %xmm15, 240(%r9)\n mov 48(%rsp), %rsp\n pop %r15; pop %r14; pop %r13; pop %r12; pop %rbx; pop %rbp\n cld\n ret\n");
extern void ms_call(uintptr_t fn, void *a, const void *b, void *c, uint64_t *res);
static void call(uintptr_t fn, void *a, const void *b, void *c) {
	uint64_t r[32] = {0}; int i; ms_call(fn, a, b, c, r); static const uint64_t w[7] = {0x1b1b1b1b1b1b1b1b, 0x2b2b2b2b2b2b2b2b, 0x3b3b3b3b3b3b3b3b, 0x5b5b5b5b5b5b5b5b, 0x1b1b1b1b1b1b1b1b, 0x2b2b2b2b2b2b2b2b, 0x3b3b3b3b3b3b3b3b};
	for (i = 0; i < 7; i++) if (r[i] != w[i]) die("64-bit assembly did not preserve a register of rbx rsi rdi r12 r13 r14 r15"); if (r[7] != r[8] || r[9] != r[10]) die("64-bit assembly did not preserve rbp or rsp"); for (i = 12; i < 32; i++) if (r[i] != w[0]) die("64-bit assembly did not preserve one of xmm6 to xmm15");
}
static int usable(void) { return 1; }
#define PTR uint64_t
#endif
/* contexts and blocks in low memory, laid out for the assembly */
struct Bc { PTR enc, dec; uint32_t mode; PTR iv, buffer; int32_t bs, filled; };
struct Aes { int32_t nr; uint32_t key[15][4], rev[15][4], iv[4]; uint8_t buffer[16]; struct Bc bc; };
struct S1 { uint32_t h_, l_, h[5]; uint8_t buffer[64]; PTR fn; };
struct S2 { uint64_t hh; uint32_t h_, l_; uint64_t h[8]; uint8_t buffer[128]; uint32_t alg; PTR fn; };
static uint8_t *room(int k) { static uint8_t *m[4]; if (!m[k]) m[k] = low(8192); return m[k]; }
static uint8_t *same(int k, const void *p) { return room(k) + 1024 + ((uintptr_t)p & 15); }
static uintptr_t e_enc, e_dec, e_s1, e_s2;
static void aes(uintptr_t fn, struct RaBlockCipher *b, const uint8_t *in, uint8_t *out) {
	struct RaAesCtx *c = (struct RaAesCtx *)((uint8_t *)b - offsetof(struct RaAesCtx, blockCipher));
#ifdef MASM32
	struct Aes *a = (struct Aes *)(room(0) + 256 + ((uintptr_t)c & 8)); uint8_t *i = same(1, in), *o = in == out ? i : same(2, out), keep[sizeof(struct Aes)]; memset(a, 0x77, sizeof *a); a->nr = c->nr; memcpy(a->key, c->key, 240); memcpy(a->rev, c->rev_key, 240); memcpy(i, in, 16); memset(i + 16, 0x66, 16); memset(o + 16, 0x66, 16);
	memcpy(keep, a, sizeof *a); call(fn, &a->bc, i, o); if (memcmp(keep, a, sizeof *a)) die("32-bit assembly changed the context"); if (o != i && memcmp(i, in, 16)) die("32-bit assembly changed its input"); { int k; for (k = 0; k < 16; k++) if (o[16 + k] != 0x66 || i[16 + k] != 0x66) die("32-bit assembly wrote past the block"); } memcpy(out, o, 16);
#else
	call(fn, b, in, out);
#endif
}
static void enc(struct RaBlockCipher *b, const uint8_t *in, uint8_t *out) { aes(e_enc, b, in, out); }
static void dec(struct RaBlockCipher *b, const uint8_t *in, uint8_t *out) { aes(e_dec, b, in, out); }
void RaAesCheckForInstructionSet(struct RaBlockCipher *b) {
	static uintptr_t entry; if (!usable()) return; if (!entry) entry = coff(obj_aes, "RaAesCheckForInstructionSet");
#ifdef MASM32
	struct Aes *a = (struct Aes *)(room(0) + 256); a->bc.enc = a->bc.dec = 0; call(entry, &a->bc, NULL, NULL); if (a->bc.enc) { e_enc = a->bc.enc; b->encryptBlock = enc; } if (a->bc.dec) { e_dec = a->bc.dec; b->decryptBlock = dec; }
#else
	blockCipherEncryptBlock p = b->encryptBlock, q = b->decryptBlock; call(entry, b, NULL, NULL); if (b->encryptBlock != p) { e_enc = (uintptr_t)b->encryptBlock; b->encryptBlock = enc; } if (b->decryptBlock != q) { e_dec = (uintptr_t)b->decryptBlock; b->decryptBlock = dec; }
#endif
}
static void s1(struct RaSha1Ctx *c, const uint8_t d[64]) {
#ifdef MASM32
	struct S1 *a = (struct S1 *)(room(0) + 256 + ((uintptr_t)c & 8)), k; uint8_t *i = same(1, d); memset(a, 0x77, sizeof *a); memcpy(a->h, c->h, 20); memcpy(i, d, 64); k = *a; call(e_s1, a, i, NULL); memcpy(c->h, a->h, 20); memcpy(k.h, a->h, 20); if (memcmp(&k, a, sizeof k)) die("32-bit assembly changed the context"); if (memcmp(i, d, 64)) die("32-bit assembly changed its input");
#else
	call(e_s1, c, d, NULL);
#endif
}
void RaSha1CheckForInstructionSet(struct RaSha1Ctx *c) {
	static uintptr_t entry; if (!usable()) return; if (!entry) entry = coff(obj_sha1, "RaSha1CheckForInstructionSet");
#ifdef MASM32
	struct S1 *a = (struct S1 *)(room(0) + 256); a->fn = 0; call(entry, a, NULL, NULL); if (a->fn) { e_s1 = a->fn; c->fnRaSha1Process = s1; }
#else
	void *p = c->fnRaSha1Process; call(entry, c, NULL, NULL); if ((void *)c->fnRaSha1Process != p) { e_s1 = (uintptr_t)c->fnRaSha1Process; c->fnRaSha1Process = s1; }
#endif
}
static void s2(struct RaSha2Ctx *c, const uint8_t d[64]) {
#ifdef MASM32
	struct S2 *a = (struct S2 *)(room(0) + 256 + ((uintptr_t)c & 8)), k; uint8_t *i = same(1, d); memset(a, 0x77, sizeof *a); memcpy(a->h, c->h, 64); memcpy(i, d, 64); k = *a; call(e_s2, a, i, NULL); memcpy(c->h, a->h, 64); memcpy(k.h, a->h, 64); if (memcmp(&k, a, sizeof k)) die("32-bit assembly changed the context"); if (memcmp(i, d, 64)) die("32-bit assembly changed its input");
#else
	call(e_s2, c, d, NULL);
#endif
}
void RaSha256CheckForInstructionSet(struct RaSha2Ctx *c) {
	static uintptr_t entry; if (!usable()) return; if (!entry) entry = coff(obj_sha2, "RaSha256CheckForInstructionSet");
#ifdef MASM32
	struct S2 *a = (struct S2 *)(room(0) + 256); a->fn = 0; call(entry, a, NULL, NULL); if (a->fn) { e_s2 = a->fn; c->fnRaSha256Process = s2; }
#else
	void *p = c->fnRaSha256Process; call(entry, c, NULL, NULL); if ((void *)c->fnRaSha256Process != p) { e_s2 = (uintptr_t)c->fnRaSha256Process; c->fnRaSha256Process = s2; }
#endif
}
