// Allocator for the programs under test: every block lives on its own pages between inaccessible ones, addresses are
// never reused, and the pages of a freed block become inaccessible. Any access to reclaimed memory or beyond the end of
// a block is therefore a SIGSEGV, a second free of a block an abort. Also counts blocks and fails chosen allocations.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#define PAGE 4096UL
#define MAXB (1UL << 20)

static char *arena, *next;
static size_t arena_size;
static uint32_t *sizes;          // by page index: size of the block whose pages start here, in bytes rounded to 8
static unsigned char *state;     // by page index: 1 live, 2 freed
static long live, total, peak, countdown = -1, calls;
static uintptr_t lo, hi;         // program text

static void say(const char *s) { if (write(2, s, strlen(s)) < 0) {} }

static int cb(struct dl_phdr_info *i, size_t n, void *d) {
    for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD) {
            uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
            if (!lo || a < lo) lo = a;
            if (b > hi) hi = b;
        }
    return 1; // the first entry is the program itself
}

static void init(void) {
    if (arena) return;
    arena_size = 6UL << 30;
    arena = mmap(0, arena_size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED) { say("gcshim: no arena\n"); _exit(77); }
    next = arena + PAGE;
    size_t pages = arena_size / PAGE;
    sizes = mmap(0, pages * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    state = mmap(0, pages, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    dl_iterate_phdr(cb, 0);
    char *f = getenv("MC_FAIL");
    if (f) countdown = atol(f);
}

static void *get(size_t n, size_t align) {
    init();
    size_t r = (n + align - 1) & ~(align - 1);
    if (r == 0) r = align;
    size_t pages = (r + PAGE - 1) / PAGE;
    if (next + (pages + 1) * PAGE > arena + arena_size) {
        // out of arena: behave as an allocator without memory
        errno = ENOMEM;
        return 0;
    }
    char *base = next;
    next += (pages + 1) * PAGE;
    if (mprotect(base, pages * PAGE, PROT_READ | PROT_WRITE)) { say("gcshim: mprotect\n"); _exit(77); }
    size_t idx = (base - arena) / PAGE;
    sizes[idx] = r;
    state[idx] = 1;
    live++;
    total++;
    if (live > peak) peak = live;
    return base + pages * PAGE - r;
}

static size_t index_of(void *p) {
    // blocks end at a page boundary, so the start may lie anywhere in the first page
    return ((char *)p - arena) / PAGE;
}

static int from_program(void *ret) { return (uintptr_t)ret >= lo && (uintptr_t)ret < hi; }

static int fails(void *ret) {
    init();
    if (!from_program(ret)) return 0;
    calls++;
    if (countdown > 0 && --countdown == 0) return 1;
    return 0;
}

void *calloc(size_t a, size_t b) {
    size_t n;
    if (fails(__builtin_return_address(0)) || __builtin_mul_overflow(a, b, &n) || n > (1UL << 31)) { errno = ENOMEM; return 0; }
    return get(n, 8);
}

void *malloc(size_t n) {
    if (fails(__builtin_return_address(0)) || n > (1UL << 31)) { errno = ENOMEM; return 0; }
    return get(n, 16);
}

void free(void *p) {
    if (!p) return;
    init();
    if ((char *)p < arena || (char *)p >= arena + arena_size) { say("gcshim: free of a pointer that was never allocated\n"); abort(); }
    size_t i = index_of(p);
    if (state[i] != 1) { say("gcshim: block freed twice or never allocated\n"); abort(); }
    size_t pages = (sizes[i] + PAGE - 1) / PAGE;
    char *base = arena + i * PAGE;
    if ((char *)p != base + pages * PAGE - sizes[i]) { say("gcshim: free of an interior pointer\n"); abort(); }
    state[i] = 2;
    live--;
    // replaces the pages by fresh inaccessible ones in one call
    if (mmap(base, pages * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) { say("gcshim: unmap\n"); _exit(77); }
}

void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    void *q = get(n, 16);
    size_t o = sizes[index_of(p)];
    if (q) { memcpy(q, p, o < n ? o : n); free(p); }
    return q;
}

// Callable from programs under test (#[RawValues] external functions)
long mcLive(void) { return live; }
long mcCalls(void) { return calls; } // allocations attempted by the program itself
long mcTotal(void) { return total; }
long mcPeak(void) { return peak; }
void mcResetPeak(void) { peak = live; }
