/* Simulated allocator seam (NEP 49).  Every numpy array buffer allocated while
 * this handler is current goes through here.  Buffers are 64-byte aligned so
 * that SIMD loop peeling (hence rounding) never depends on the heap layout.
 * While armed, the fail_at-th allocation request returns NULL, which numpy
 * reports to the code under test as MemoryError; with persist!=0 every later
 * request in the same armed window fails as well (sustained memory pressure).
 * Arming is per thread: another simulated thread is not affected. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <malloc.h>

typedef struct { void *ctx; void *(*m)(void*,size_t); void *(*c)(void*,size_t,size_t);
                 void *(*r)(void*,void*,size_t); void (*f)(void*,void*,size_t);} Alloc;
typedef struct { char name[127]; uint8_t version; Alloc a; } Handler;

static __thread int armed = 0, persist = 0;
static __thread long count = 0, fail_at = 0, fired = 0;
static __thread size_t min_size = 0;
static int fill = -1;                    /* what fresh memory contains; -1: whatever is there */
static long total = 0, live = 0, live_bytes = 0;   /* under the GIL */

static int deny(size_t n){
    total++;
    if(!armed || n < min_size) return 0;
    count++;
    if(fail_at > 0 && (count == fail_at || (persist && count > fail_at))){ fired++; return 1; }
    return 0;
}
static size_t rnd(size_t n){ if(n==0) n=1; return (n + 63) & ~(size_t)63; }
static void *al(size_t n){
    void *p = aligned_alloc(64, rnd(n));
    if(p){ live++; live_bytes += malloc_usable_size(p); if(fill >= 0) memset(p, fill, rnd(n)); }
    return p; }
static void rel(void *p){ if(p){ live--; live_bytes -= malloc_usable_size(p); } free(p); }
static void *m_malloc(void *c, size_t n){ (void)c; return deny(n) ? NULL : al(n); }
static void *m_calloc(void *c, size_t a, size_t b){
    (void)c; size_t n;
    if(__builtin_mul_overflow(a,b,&n)) return NULL;
    if(deny(n)) return NULL;
    void *p = al(n); if(p) memset(p,0,rnd(n)); return p; }
static void *m_realloc(void *c, void *p, size_t n){
    (void)c; if(deny(n)) return NULL;
    /* glibc realloc keeps only 16-byte alignment */
    size_t old = p ? malloc_usable_size(p) : 0;
    void *q = al(n);
    if(q && p){ memcpy(q, p, old < n ? old : n); rel(p); }
    return q; }
static void m_free(void *c, void *p, size_t n){ (void)c;(void)n; rel(p); }

static Handler H = { "dst_simalloc", 1, { NULL, m_malloc, m_calloc, m_realloc, m_free } };
void *sim_handler(void){ return &H; }
void sim_arm(long at, size_t minsz, int pers){ fail_at=at; min_size=minsz; persist=pers; count=0; fired=0; armed=1; }
long sim_disarm(void){ armed=0; return count; }
long sim_fired(void){ return fired; }
long sim_count(void){ return count; }
long sim_total(void){ return total; }
long sim_live(void){ return live; }
long sim_live_bytes(void){ return live_bytes; }
void sim_fill(int b){ fill = b; }
