/* External functions for C03: weighted sums of their arguments. Each checks that the stack was aligned as the C calling
   convention demands and overwrites every register which that convention lets it overwrite. */
#include <stdio.h>
#include <unistd.h>
typedef unsigned long u;
static void trash(void) {
  __asm__ volatile("movq $0x1111111111111111, %%rcx\n movq %%rcx, %%rdx\n movq %%rcx, %%rsi\n movq %%rcx, %%rdi\n movq %%rcx, %%r8\n"
                   "movq %%rcx, %%r9\n movq %%rcx, %%r10\n movq %%rcx, %%r11\n movq %%rcx, %%xmm0\n movq %%rcx, %%xmm7\n"
                   ::: "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "xmm0", "xmm7", "memory");
}
static void aligned(u frame) {
  if (frame & 15) { static const char m[] = "#misaligned\n"; if (write(1, m, sizeof m - 1) < 0) _exit(78); _exit(77); }
}
static volatile u keep;
/* The stack below an external call is the callee's: anything left there is gone. */
static __attribute__((noinline)) void dirty(void) { volatile u a[128]; for (int i = 0; i < 128; i++) a[i] = 0x2222222222222222ul; keep = a[5]; }
#define W(i, v) ((v) * (u[]){1, 31, 1009, 65537, 10000019, 4294967311ul}[i])
#define IN aligned((u)__builtin_frame_address(0)); dirty()
#define OUT(r) u q = (r); trash(); return q
#define T(v) ((u)((long)(v) >> 1))
#define TAG(v) (((v) << 1) | 1)
u mcr0(void) { IN; OUT(0); }
u mcr1(u a) { IN; OUT(W(0, a)); }
u mcr2(u a, u b) { IN; OUT(W(0, a) + W(1, b)); }
u mcr3(u a, u b, u c) { IN; OUT(W(0, a) + W(1, b) + W(2, c)); }
u mcr4(u a, u b, u c, u d) { IN; OUT(W(0, a) + W(1, b) + W(2, c) + W(3, d)); }
u mcr5(u a, u b, u c, u d, u e) { IN; OUT(W(0, a) + W(1, b) + W(2, c) + W(3, d) + W(4, e)); }
u mcr6(u a, u b, u c, u d, u e, u f) { IN; OUT(W(0, a) + W(1, b) + W(2, c) + W(3, d) + W(4, e) + W(5, f)); }
u mct0(void) { IN; OUT(TAG(0ul)); }
u mct1(u a) { IN; OUT(TAG(W(0, T(a)))); }
u mct2(u a, u b) { IN; OUT(TAG(W(0, T(a)) + W(1, T(b)))); }
u mct3(u a, u b, u c) { IN; OUT(TAG(W(0, T(a)) + W(1, T(b)) + W(2, T(c)))); }
u mct4(u a, u b, u c, u d) { IN; OUT(TAG(W(0, T(a)) + W(1, T(b)) + W(2, T(c)) + W(3, T(d)))); }
u mct5(u a, u b, u c, u d, u e) { IN; OUT(TAG(W(0, T(a)) + W(1, T(b)) + W(2, T(c)) + W(3, T(d)) + W(4, T(e)))); }
u mct6(u a, u b, u c, u d, u e, u f) { IN; OUT(TAG(W(0, T(a)) + W(1, T(b)) + W(2, T(c)) + W(3, T(d)) + W(4, T(e)) + W(5, T(f)))); }
/* Raw strings and arrays point at their contents; integers inside an array keep their tags. */
static u str(const char *s) { u r = 0; while (*s) r = r * 31 + (unsigned char)*s++; return r; }
u mcsi(const char *s, u n) { IN; OUT(str(s) + n * 7); }
u mcis(u n, const char *s) { IN; OUT(str(s) + n * 7); }
u mcai(const u *a, u n) { IN; u r = 0; for (u i = 0; i < n; i++) r = r * 31 + T(a[i]); OUT(r); }
u mcmix(u x, const char *s, const u *a, u n, const char *t, u y) { IN; u r = str(s) * 3 + str(t) * 5; for (u i = 0; i < n; i++) r = r * 31 + T(a[i]); OUT(r + x * 11 + y * 13); }
