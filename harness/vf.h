// Core of the monitoring harness. Uses libc only: ustl defines its own std::
// names, so no libstdc++ header may be included in the same translation unit.
#pragma once
#ifndef VF_NO_USTL
#include <ustl/ustl.h>
#include <ustl/umatrix.h>
#include <ustl/utuple.h>
#include <ustl/simd.h>
#include <ustl/ubitset.h>
#include <ustl/uheap.h>
#include <ustl/typet.h>
#include <ustl/typelist.h>
#endif
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>

namespace vf {

typedef uint64_t u64;
typedef int64_t i64;

//--- random numbers -------------------------------------------------------
inline u64 mix (u64 x) {
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline u64 hmix (u64 a, u64 b) { return mix (a ^ mix (b)); }
inline u64 hbytes (const void* p, size_t n, u64 h = 0) {
    const unsigned char* b = (const unsigned char*) p;
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001B3ull + 0x9E37;
    return mix (h ^ n);
}
struct Rng {
    u64 s;
    explicit Rng (u64 x = 1) : s (x) {}
    u64 next (void) { s += 0x9E3779B97F4A7C15ull; u64 x = s; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
    size_t below (size_t n) { return n ? size_t (next() % n) : 0; }	// [0,n)
    size_t pos (size_t n) { size_t r = below (n + 1); if (n > 40) { unsigned k = next() % 6; size_t d = next() % 10; if (k == 0) r = d; else if (k == 1) r = n - d; } return r; }	// [0,n], the ends of long ranges more often
    i64 range (i64 a, i64 b) { return a + i64 (next() % u64 (b - a + 1)); }	// [a,b]
    bool chance (unsigned num, unsigned den) { return next() % den < num; }
    // sizes with emphasis on small values and power of 2 boundaries
    size_t size (size_t mx) {
	size_t r;
	switch (next() % 8) {
	    case 0: r = 0; break;
	    case 1: r = 1; break;
	    case 2: case 3: r = below (8); break;
	    case 4: r = (size_t(1) << below (12)) + below (3) - 1; break;
	    case 5: r = 7 + below (40); break;
	    default: r = below (mx + 1); break;
	}
	return r > mx ? below (mx + 1) : r;
    }
    u64 bits (void) {	// random width integer
	u64 v = next();
	switch (next() % 8) {
	    case 0: return v & 7;
	    case 1: return 0;
	    case 2: return ~u64(0) - (v & 3);
	    case 3: return (u64(1) << (v % 64)) + (next() % 3) - 1;
	    default: return v >> (next() % 64);
	}
    }
};
extern Rng R;

//--- verdicts ---------------------------------------------------------------
struct Failure {};
[[noreturn]] void fail (const char* key, const char* fmt, ...) __attribute__((format(printf,2,3)));
// Usable from callbacks that must not throw: records the failure and continues.
void note_fail (const char* key, const char* fmt, ...) __attribute__((format(printf,2,3)));
#define VC(cond, key, ...)	do { if (!(cond)) ::vf::fail (key, __VA_ARGS__); } while (0)

//--- coverage ---------------------------------------------------------------
void ops (u64 n = 1);			// monitored operations
void sig (u64 h);			// distinct behaviour signature
void sample (const char* fmt, ...) __attribute__((format(printf,1,2)));
bool want_sample (void);		// true while the case may describe itself
extern bool g_thorough;
extern u64 g_seed;
extern const char* g_case_name;
extern unsigned g_case_idx;
extern size_t g_big;			// 0, or roughly the size of the objects of a case about large ones; 0 again for the next case
extern const char* g_scratch;		// scratch directory for this process

//--- trace of the current case, printed on failure ---------------------------
void trace (const char* fmt, ...) __attribute__((format(printf,1,2)));

//--- arena: memory of the models, not seen by heap monitors -------------------
void* arena (size_t n);
template <typename T> struct Arr {	// plain growable array of PODs or simple types
    T* p; size_t n, cap;
    Arr (void) : p (nullptr), n (0), cap (0) {}
    Arr (const Arr& v) : p (nullptr), n (0), cap (0) { for (size_t i = 0; i < v.n; ++i) push (v.p[i]); }
    Arr& operator= (const Arr& v) { if (this != &v) { n = 0; for (size_t i = 0; i < v.n; ++i) push (v.p[i]); } return *this; }
    void grow (size_t want) {
	if (want <= cap) return;
	size_t nc = cap ? cap * 2 : 16;
	if (nc < want) nc = want;
	T* np = (T*) arena (nc * sizeof(T));
	for (size_t i = 0; i < n; ++i) np[i] = p[i];
	p = np; cap = nc;
    }
    void push (const T& v) { T c (v); grow (n + 1); p[n++] = c; }
    void pop (void) { --n; }
    void insert (size_t at, size_t cnt, const T& v) {
	T c (v); grow (n + cnt);
	for (size_t i = n; i-- > at;) p[i + cnt] = p[i];
	for (size_t i = 0; i < cnt; ++i) p[at + i] = c;
	n += cnt;
    }
    void insert (size_t at, const T* f, size_t cnt) {
	Arr t; for (size_t i = 0; i < cnt; ++i) t.push (f[i]);
	grow (n + cnt);
	for (size_t i = n; i-- > at;) p[i + cnt] = p[i];
	for (size_t i = 0; i < cnt; ++i) p[at + i] = t.p[i];
	n += cnt;
    }
    void erase (size_t at, size_t cnt) { for (size_t i = at; i + cnt < n; ++i) p[i] = p[i + cnt]; n -= cnt; }
    void resize (size_t m, const T& v) { T c (v); grow (m); for (size_t i = n; i < m; ++i) p[i] = c; n = m; }
    void clear (void) { n = 0; }
    T& operator[] (size_t i) { return p[i]; }
    const T& operator[] (size_t i) const { return p[i]; }
    bool operator== (const Arr& v) const { if (n != v.n) return false; for (size_t i = 0; i < n; ++i) if (!(p[i] == v.p[i])) return false; return true; }
    void swap (Arr& v) { Arr t; t.p = p; t.n = n; t.cap = cap; p = v.p; n = v.n; cap = v.cap; v.p = t.p; v.n = t.n; v.cap = t.cap; t.p = nullptr; }
    T* begin (void) { return p; }
    T* end (void) { return p + n; }
    const T* begin (void) const { return p; }
    const T* end (void) const { return p + n; }
};

//--- heap monitor (only in variants linked with heap.cc) ----------------------
struct HeapStats { u64 blocks, bytes, allocs, fails, peak, maxreq; };
extern bool g_has_heap;
HeapStats heap_stats (void);
void heap_peak_reset (void);		// restarts peak (live bytes) and maxreq (largest request)
void heap_check (void);			// verifies canaries of all live and quarantined blocks
void heap_fail_at (i64 n);		// fail allocation number n from now (0 = next); -1 = never
void heap_fail_min (size_t sz);		// fail only allocations of at least this many bytes
void heap_fail_sticky (bool v);		// keep failing from that point on (until heap_fail_at (-1))
bool heap_failed (void);		// an injected failure happened
void heap_allow_leak (void);		// the current case leaks by design
// Copy of n bytes that ends exactly at an inaccessible page; read-only unless rw; lasts until the case ends
char* ro_copy (const void* p, size_t n, bool rw = false);
void* guard_alloc (size_t n);		// block ending exactly at an inaccessible page, never freed by free()
void guard_free (void* p, size_t n);

//--- registry -----------------------------------------------------------------
struct Case { const char* name; void (*fn)(void); unsigned quick, thorough, flags; Case* next; };
enum { NOLEAKCHECK = 1, SERIAL = 2 };
struct Reg { Case c; Reg (const char* n, void (*f)(void), unsigned q, unsigned t, unsigned fl = 0); };
#define VF_CASE(name, ...)	static void name (void); static ::vf::Reg vf_reg_##name (#name, &name, __VA_ARGS__); static void name (void)

// Printable form of bytes, for messages. Uses one of several static buffers.
const char* show (const void* p, size_t n);

} // namespace vf
