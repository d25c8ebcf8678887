/* NumPy data allocator whose blocks end at an inaccessible page.
 *
 * Layout: [no access][info page][data pages, block flush right][no access]
 * The bytes between the end of the block and the page end (alignment 16), the rest of
 * the info page and the unused start of the data pages carry canaries, checked when
 * the block is freed. New blocks are filled with 0xA5. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#define PG 4096UL
#define CAN 0x5C
static unsigned long n_alloc, n_free, n_bytes;

struct info { uint64_t magic, size, pages; };
#define MAGIC 0x677561726462706bULL

static void die(const char *msg)
{
    fprintf(stderr, "GUARD: %s\n", msg);
    fflush(stderr);
    abort();
}

static void *g_malloc(void *ctx, size_t size)
{
    size_t pages = (size + PG - 1) / PG;
    if (size > (1UL << 46))
        return NULL;
    if (!pages)
        pages = 1;
    char *m = mmap(NULL, (pages + 3) * PG, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED)
        return NULL;
    if (mprotect(m, PG, PROT_NONE) || mprotect(m + (pages + 2) * PG, PG, PROT_NONE)) {
        munmap(m, (pages + 3) * PG);
        return NULL;
    }
    struct info *in = (struct info *)(m + PG);
    memset(m + PG, CAN, PG);
    in->magic = MAGIC;
    in->size = size;
    in->pages = pages;
    char *end = m + (pages + 2) * PG;
    char *p = end - ((size + 15) & ~15UL);
    memset(m + 2 * PG, CAN, p - (m + 2 * PG));
    /* huge blocks (a hostile shape) are not touched in full */
    if (size <= (64UL << 20))
        memset(p, 0xA5, size);
    memset(p + size, CAN, end - (p + size));
    n_alloc++;
    n_bytes += size;
    return p;
}

static struct info *check(char *p)
{
    uintptr_t d = (uintptr_t)p & ~(PG - 1);
    /* p lies in the first data page, except when size is 0 */
    struct info *in = (struct info *)(d - PG);
    if (in->magic != MAGIC)
        die("freed pointer or memory before the array overwritten");
    unsigned char *q = (unsigned char *)(in + 1), *stop = (unsigned char *)p;
    for (; q < stop; q++)
        if (*q != CAN)
            die("memory before the array overwritten");
    q = (unsigned char *)p + in->size;
    stop = (unsigned char *)d + in->pages * PG;
    for (; q < stop; q++)
        if (*q != CAN)
            die("memory after the array overwritten");
    return in;
}

static void g_free(void *ctx, void *p, size_t size)
{
    if (!p)
        return;
    struct info *in = check(p);
    n_free++;
    munmap((char *)in - PG, (in->pages + 3) * PG);
}

static void *g_calloc(void *ctx, size_t n, size_t e)
{
    if (e && n > (1UL << 46) / e)
        return NULL;
    void *p = g_malloc(ctx, n * e);
    if (p && n * e <= (64UL << 20))
        memset(p, 0, n * e);
    return p;
}

static void *g_realloc(void *ctx, void *p, size_t size)
{
    void *q = g_malloc(ctx, size);
    if (q && p) {
        struct info *in = check(p);
        memcpy(q, p, in->size < size ? in->size : size);
        g_free(ctx, p, 0);
    }
    return q;
}

struct handler {
    char name[127];
    uint8_t version;
    struct {
        void *ctx;
        void *(*malloc)(void *, size_t);
        void *(*calloc)(void *, size_t, size_t);
        void *(*realloc)(void *, void *, size_t);
        void (*free)(void *, void *, size_t);
    } a;
};

struct handler guard_handler = {
    "bpv_guard", 1, { NULL, g_malloc, g_calloc, g_realloc, g_free }
};

unsigned long guard_allocs(void) { return n_alloc; }
unsigned long guard_frees(void) { return n_free; }
unsigned long guard_bytes(void) { return n_bytes; }

/* self-test: 1 if a write at p[size] would go unseen until free */
int guard_poke(char *p, long at) { p[at] = 1; return 0; }
