// Replacement of the malloc family that watches every heap block of the
// process: canaries around each block, fill of fresh and freed memory,
// quarantine with write-after-free detection, live block accounting,
// optional page guard placement, and injected allocation failures.
#define VF_NO_USTL 1
#define VF_HEAP 1
#include "vf.h"
#include <sys/mman.h>
#include <unistd.h>

namespace {
typedef unsigned char byte;
struct Hdr {
    Hdr *prev, *next;
    size_t size;	// requested
    size_t total;	// size of the underlying cell
    uint64_t serial;
    uint32_t state;	// LIVE, FREED
    uint32_t mode;
    byte can [16];
};
enum { LIVE = 0x11223344, FREED = 0x55667788, CANARY = 0xC7, TAIL = 32 };
volatile int s_lock = 0;
struct Lock { Lock (void) { while (__atomic_exchange_n (&s_lock, 1, __ATOMIC_ACQUIRE)) {} } ~Lock (void) { __atomic_store_n (&s_lock, 0, __ATOMIC_RELEASE); } };

Hdr s_live = { &s_live, &s_live, 0, 0, 0, 0, 0, {0} };
uint64_t s_serial = 0, s_blocks = 0, s_bytes = 0, s_nfails = 0;
int64_t s_failat = -1; bool s_sticky = false; size_t s_failmin = 0; bool s_failed = false;
int s_mode = -1;	// 0 canary, 1 guard pages

[[noreturn]] void die (const char* what, const Hdr* h, size_t off)
{
    char b [400];
    int n = snprintf (b, sizeof(b), "\nVFHEAP key=heap-%s case=%s#%u seed=%llu :: heap block of %zu bytes (allocation %llu), offset %zd\n", what, vf::g_case_name, vf::g_case_idx, (unsigned long long) vf::g_seed, h ? h->size : 0, h ? (unsigned long long) h->serial : 0, (ssize_t) off);
    if (write (1, b, n) < 0) {}
    _exit (98);
}

void* rawmap (size_t n)
{
    void* p = mmap (nullptr, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    return p == MAP_FAILED ? nullptr : p;
}

//--- cells: size classes over a bump arena
enum { NCLASSES = 24 };
struct Cell { Cell* next; };
Cell* s_free [NCLASSES];
char *s_bump = nullptr, *s_bumpend = nullptr;
unsigned cls (size_t n) { unsigned c = 0; while ((size_t(128) << c) < n) ++c; return c; }
void* cell_get (size_t n, size_t* total)
{
    unsigned c = cls (n);
    if (c >= 13) { *total = (n + 4095) & ~size_t(4095); return rawmap (*total); }
    *total = size_t(128) << c;
    if (s_free[c]) { void* p = s_free[c]; s_free[c] = s_free[c]->next; return p; }
    if (size_t (s_bumpend - s_bump) < *total) {
	size_t chunk = 16 << 20;
	s_bump = (char*) rawmap (chunk);
	if (!s_bump) { s_bumpend = nullptr; return nullptr; }
	s_bumpend = s_bump + chunk;
    }
    void* p = s_bump; s_bump += *total;
    return p;
}
void cell_put (void* p, size_t total)
{
    unsigned c = cls (total);
    if (c >= 13) { munmap (p, total); return; }
    ((Cell*) p)->next = s_free[c]; s_free[c] = (Cell*) p;
}

//--- guard slots: the block ends at an inaccessible page
enum { GSLOTPAGES = 5, GSLOT = GSLOTPAGES * 4096, GMAX = 4 * 4096 - 160, GSLOTS = 1 << 14 };
char* s_gbase = nullptr; uint32_t s_gnext = 0;
Hdr* s_ghdr = nullptr;
uint32_t s_gq [GSLOTS]; uint32_t s_gqh = 0, s_gqn = 0;	// fifo of free slots
bool in_guard (const void* p) { return s_gbase && p >= s_gbase && p < s_gbase + size_t(GSLOT) * GSLOTS; }

enum { QMAX = 512 };
Hdr* s_quar [QMAX]; unsigned s_qh = 0, s_qn = 0; size_t s_qbytes = 0;

byte* data (Hdr* h) { return (byte*)(h + 1); }
void check_live (Hdr* h)
{
    if (h->mode == 1) {
	byte* d = (byte*) h->can; (void) d;
	size_t slot = h - s_ghdr;
	byte* page = (byte*) s_gbase + slot * GSLOT;
	byte* user = page + 4 * 4096 - h->size;
	byte* lo = user - page > 128 ? user - 128 : page;
	for (byte* p = lo; p < user; ++p) if (*p != CANARY) die ("underwrite", h, p - user);
	return;
    }
    if (h->state != LIVE) die ("header", h, 0);
    for (unsigned i = 0; i < sizeof(h->can); ++i) if (h->can[i] != CANARY) die ("underwrite", h, i - sizeof(h->can));
    byte* t = data (h) + h->size;
    for (unsigned i = 0; i < TAIL; ++i) if (t[i] != CANARY) die ("overwrite", h, h->size + i);
}
void check_freed (Hdr* h)
{
    byte* d = data (h);
    size_t n = h->size < 4096 ? h->size : 4096;
    for (size_t i = 0; i < n; ++i) if (d[i] != 0xDB) die ("write-after-free", h, i);
}
uint64_t s_peak = 0, s_maxreq = 0;
void link_live (Hdr* h) { h->prev = &s_live; h->next = s_live.next; s_live.next->prev = h; s_live.next = h; ++s_blocks; s_bytes += h->size; if (s_bytes > s_peak) s_peak = s_bytes; }
void unlink_live (Hdr* h) { h->prev->next = h->next; h->next->prev = h->prev; --s_blocks; s_bytes -= h->size; }

void* do_alloc (size_t n, bool zero)
{
    if (s_mode < 0) { const char* e = getenv ("VF_HEAPMODE"); s_mode = (e && !strcmp (e, "guard")) ? 1 : 0; }
    if (s_failat >= 0 && n >= s_failmin && (s_failat == 0 || s_failat-- == 0)) { if (!s_sticky) s_failat = -1; s_failed = true; ++s_nfails; errno = ENOMEM; return nullptr; }
    ++s_serial;
    if (n > s_maxreq) s_maxreq = n;
    if (n > (size_t(1) << 40)) { errno = ENOMEM; return nullptr; }
    if (s_mode == 1 && n <= GMAX) {
	if (!s_gbase) {
	    s_gbase = (char*) mmap (nullptr, size_t(GSLOT) * GSLOTS, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	    s_ghdr = (Hdr*) rawmap (sizeof(Hdr) * GSLOTS);
	    if (s_gbase == MAP_FAILED || !s_ghdr) _exit (96);
	}
	uint32_t slot = ~0u;
	if (s_gqn > 64) { slot = s_gq[s_gqh]; s_gqh = (s_gqh + 1) % GSLOTS; --s_gqn; }
	else if (s_gnext < GSLOTS) slot = s_gnext++;
	else if (s_gqn) { slot = s_gq[s_gqh]; s_gqh = (s_gqh + 1) % GSLOTS; --s_gqn; }
	if (slot != ~0u) {
	    Hdr* h = s_ghdr + slot;
	    byte* page = (byte*) s_gbase + size_t(slot) * GSLOT;
	    mprotect (page, 4 * 4096, PROT_READ|PROT_WRITE);
	    byte* user = page + 4 * 4096 - n;
	    byte* lo = user - page > 128 ? user - 128 : page;
	    memset (lo, CANARY, user - lo);
	    h->size = n; h->total = 0; h->serial = s_serial; h->state = LIVE; h->mode = 1;
	    link_live (h);
	    memset (user, zero ? 0 : 0xA5, n);
	    return user;
	}
    }
    size_t total, need = sizeof(Hdr) + n + TAIL;
    Hdr* h = (Hdr*) cell_get (need, &total);
    if (!h) { errno = ENOMEM; return nullptr; }
    h->size = n; h->total = total; h->serial = s_serial; h->state = LIVE; h->mode = 0;
    memset (h->can, CANARY, sizeof(h->can));
    link_live (h);
    if (zero || n <= (1u << 20)) memset (data (h), zero ? 0 : 0xA5, n);
    memset (data (h) + n, CANARY, TAIL);
    return data (h);
}
Hdr* hdr_of (void* p, const char* what)
{
    if (in_guard (p)) {
	size_t slot = ((char*) p - s_gbase) / GSLOT;
	Hdr* h = s_ghdr + slot;
	byte* user = (byte*) s_gbase + slot * GSLOT + 4 * 4096 - h->size;
	if (h->state == FREED) die ("double-free", h, 0);
	if (h->state != LIVE || (h->size && user != p) || (!h->size && (byte*) p != user)) die (what, h, (byte*) p - user);
	return h;
    }
    Hdr* h = (Hdr*) p - 1;
    if (h->state == FREED) die ("double-free", h, 0);
    if (h->state != LIVE) die (what, nullptr, 0);
    return h;
}
void do_free (void* p)
{
    Hdr* h = hdr_of (p, "bad-free");
    check_live (h);
    unlink_live (h);
    h->state = FREED;
    if (h->mode == 1) {
	size_t slot = h - s_ghdr;
	mprotect (s_gbase + slot * GSLOT, 4 * 4096, PROT_NONE);
	s_gq[(s_gqh + s_gqn) % GSLOTS] = slot; ++s_gqn;
	return;
    }
    size_t n = h->size < 4096 ? h->size : 4096;
    memset (data (h), 0xDB, n);
    if (h->total > (1u << 20)) { munmap (h, h->total); return; }
    s_quar[(s_qh + s_qn) % QMAX] = h; ++s_qn;
    if (s_qn == QMAX) {
	Hdr* o = s_quar[s_qh]; s_qh = (s_qh + 1) % QMAX; --s_qn;
	check_freed (o);
	o->state = 0;
	cell_put (o, o->total);
    }
}
} // namespace

namespace vf {
bool g_has_heap = true;
HeapStats heap_stats (void) { Lock l; HeapStats s = { s_blocks, s_bytes, s_serial, s_nfails, s_peak, s_maxreq }; return s; }
void heap_peak_reset (void) { Lock l; s_peak = s_bytes; s_maxreq = 0; }
void heap_check (void)
{
    Lock l;
    for (Hdr* h = s_live.next; h != &s_live; h = h->next) check_live (h);
    for (unsigned i = 0; i < s_qn; ++i) check_freed (s_quar[(s_qh + i) % QMAX]);
}
void heap_fail_sticky (bool v) { s_sticky = v; }
void heap_fail_at (i64 n) { Lock l; s_failat = n; s_failed = false; if (n < 0) { s_failmin = 0; s_sticky = false; } }
void heap_fail_min (size_t n) { s_failmin = n; }
bool heap_failed (void) { return s_failed; }
}

extern "C" {
void* malloc (size_t n) { Lock l; return do_alloc (n, false); }
void* calloc (size_t a, size_t b) { size_t n; if (__builtin_mul_overflow (a, b, &n)) { errno = ENOMEM; return nullptr; } Lock l; return do_alloc (n, true); }
void free (void* p) { if (!p) return; int e = errno; { Lock l; do_free (p); } errno = e; }
void* realloc (void* p, size_t n)
{
    Lock l;
    if (!p) return do_alloc (n, false);
    if (!n) { do_free (p); return nullptr; }
    Hdr* h = hdr_of (p, "bad-realloc");
    check_live (h);
    void* np = do_alloc (n, false);	// always moves: stale pointers become visible
    if (!np) return nullptr;
    memcpy (np, p, h->size < n ? h->size : n);
    do_free (p);
    return np;
}
void* memalign (size_t al, size_t n)
{
    Lock l;
    if (al <= 16) return do_alloc (n, false);
    static char* base = nullptr; static size_t used = 0, cap = 0;	// never freed, rare (TLS, atexit tables)
    if (!base || used + n + al > cap) { cap = (n + al + (1 << 20)); base = (char*) rawmap (cap); used = 0; if (!base) return nullptr; }
    uintptr_t a = ((uintptr_t) base + used + sizeof(Hdr) + al - 1) & ~uintptr_t (al - 1);
    (void) a; used = a + n - (uintptr_t) base;
    return (void*) a;
}
int posix_memalign (void** p, size_t al, size_t n) { *p = memalign (al, n); return *p ? 0 : ENOMEM; }
void* aligned_alloc (size_t al, size_t n) { return memalign (al, n); }
size_t malloc_usable_size (void* p) { return p ? hdr_of (p, "bad-pointer")->size : 0; }
}
