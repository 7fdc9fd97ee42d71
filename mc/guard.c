/* Allocator put before the C library's (LD_PRELOAD) for the memory check.
 *
 * Memory asked for by karta's own compiled modules lives in an arena of its
 * own: every block ends exactly at the end of a page that is followed by a page
 * nobody may touch, and starts behind bytes that are verified when the block is
 * given back.  A block that was given back may not be touched, and is not used
 * again before 30000 others were given back.  An access outside of a block, or after its release, therefore
 * stops the process at that access.  New memory is filled with 0xff: a pointer,
 * an index or a number read before it was written is useless.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);

#define PAGE 4096UL
#define ARENA (1UL << 36)
#define NPAGES (ARENA / PAGE)
#define FRONT 0xA7
#define REST 30000                  /* released pages are left alone for this many releases */

static char *arena, *top;           /* arena..top has been handed out */
static uint32_t *sizes;             /* by page: 1 + length of the live block that starts there */
static uint32_t *queue;             /* released single pages, oldest first; as long as the arena */
static uint32_t qhead, qtail;
static struct { uintptr_t lo, hi; } mods[512];
static int nmods;
long guard_live, guard_total;

static int ours(void *ra) {
    uintptr_t a = (uintptr_t) ra;
    int i;
    for (i = 0; i < nmods; i++)
        if (a >= mods[i].lo && a < mods[i].hi)
            return 1;
    return 0;
}

/* text of a compiled module, told by the driver after it was loaded */
void guard_module(void *lo, void *hi) {
    if (nmods == 512) _exit(99);
    mods[nmods].lo = (uintptr_t) lo;
    mods[nmods].hi = (uintptr_t) hi;
    nmods++;
}

static void say(const char *s) { if (write(2, s, strlen(s)) < 0) _exit(98); }

static void *give(size_t size) {
    size_t pages = size ? (size + PAGE - 1) / PAGE : 1;
    char *first, *p;
    if (size > (1UL << 31)) return NULL;
    if (!arena) {
        arena = mmap(NULL, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        sizes = mmap(NULL, NPAGES * sizeof(*sizes), PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        queue = mmap(NULL, NPAGES * sizeof(*queue), PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (arena == MAP_FAILED || sizes == MAP_FAILED || queue == MAP_FAILED) { say("guard: no arena\n"); _exit(97); }
        top = arena;
    }
    if (pages == 1 && qtail - qhead > REST) {
        first = arena + PAGE * queue[qhead++ % NPAGES];
    } else {
        first = top;
        top += (pages + 1) * PAGE;  /* block, forbidden page */
        if (top > arena + ARENA) { say("guard: arena is used up\n"); _exit(96); }
    }
    if (mprotect(first, pages * PAGE, PROT_READ | PROT_WRITE)) { say("guard: mprotect\n"); _exit(95); }
    p = first + pages * PAGE - size;
    memset(first, FRONT, p - first);
    memset(p, 0xff, size);
    sizes[(first - arena) / PAGE] = 1 + size;
    guard_live++; guard_total++;
    return p;
}

static int inside(void *p) { return arena && (char *) p >= arena && (char *) p < top; }

static char *first_page(void *p, size_t *size) {
    char *q = (char *) ((uintptr_t) p & ~(PAGE - 1));
    uint32_t s = sizes[(q - arena) / PAGE];
    size_t pages;
    /* an empty block starts where its page ends */
    if (s == 0 && (char *) p == q && sizes[(q - arena) / PAGE - 1] == 1) { q -= PAGE; s = 1; }
    *size = s - 1;
    pages = s > 1 ? (s - 1 + PAGE - 1) / PAGE : 1;
    if (s == 0 || q + pages * PAGE - *size != (char *) p) {
        say("guard: an address that is not the start of a live block is given back\n");
        abort();
    }
    return q;
}

static void take(void *p) {
    size_t size, pages;
    char *q = first_page(p, &size), *c;
    pages = size ? (size + PAGE - 1) / PAGE : 1;
    for (c = q; c < (char *) p; c++)
        if (*(unsigned char *) c != FRONT) {
            say("guard: memory in front of a block was overwritten\n");
            abort();
        }
    guard_live--;
    sizes[(q - arena) / PAGE] = 0;
    mprotect(q, pages * PAGE, PROT_NONE);
    if (pages == 1)
        queue[qtail++ % NPAGES] = (q - arena) / PAGE;
    else
        madvise(q, pages * PAGE, MADV_DONTNEED);
}

void *malloc(size_t n) {
    if (nmods && ours(__builtin_return_address(0))) return give(n);
    return __libc_malloc(n);
}

void *calloc(size_t n, size_t m) {
    if (nmods && ours(__builtin_return_address(0))) {
        void *p;
        if (m && n > SIZE_MAX / m) return NULL;
        p = give(n * m);
        if (p) memset(p, 0, n * m);
        return p;
    }
    return __libc_calloc(n, m);
}

void *realloc(void *p, size_t n) {
    if (p ? inside(p) : (nmods && ours(__builtin_return_address(0)))) {
        void *q;
        size_t old;
        if (!p) return give(n);
        if (n == 0) { take(p); return NULL; }
        first_page(p, &old);
        q = give(n);
        if (!q) return NULL;
        memcpy(q, p, old < n ? old : n);
        take(p);
        return q;
    }
    return __libc_realloc(p, n);
}

void free(void *p) {
    if (p && inside(p)) take(p);
    else __libc_free(p);
}
