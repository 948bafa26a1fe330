// C20: raw copy, fill and rotate move exactly the bytes asked.
#include "vf.h"
#include "cpu.h"
using namespace vf;
namespace {

uint8_t *g_buf = nullptr, *g_want = nullptr, *g_src = nullptr, *g_srccopy = nullptr; size_t g_size = 0;
// room of n bytes: ends at an inaccessible page; guard_alloc also protects what precedes the first page
void room (size_t n)
{
    if (g_size >= n && g_buf) return;
    g_size = (n + 4095) & ~size_t(4095);
    g_buf = (uint8_t*) guard_alloc (g_size); g_src = (uint8_t*) guard_alloc (g_size);
    g_want = (uint8_t*) guard_alloc (g_size); g_srccopy = (uint8_t*) guard_alloc (g_size);
}
void fresh (uint8_t* p, size_t n, u64 seed)
{
    size_t i = 0;
    for (; i + 8 <= n; i += 8) { u64 v = mix (seed + i); memcpy (p + i, &v, 8); }
    for (; i < n; ++i) p[i] = mix (seed + i);
}
[[gnu::noinline]] void bad (const char* what, const uint8_t* got, const uint8_t* want, size_t n, size_t len, const char* how)
{
    size_t i = 0; while (i < n && got[i] == want[i]) ++i;
    fail ("bytes", "%s of %zu bytes (%s): byte %zu of the window is %02x, expected %02x", what, len, how, i, got[i], want[i]);
}
// window [0,n) of the destination
// The window has a margin of MG bytes before position 0 that no operation may touch
enum { MG = 64 };
struct Chk {
    const char* what; size_t n, len; char how [96];
    void begin (const char* w, size_t nn, size_t l) { what = w; n = nn + MG; len = l; u64 s = R.next(); fresh (g_buf + g_size - n, n, s); memcpy (g_want, g_buf + g_size - n, n); how[0] = 0; }
    uint8_t* d (size_t off) { return g_buf + g_size - n + MG + off; }
    uint8_t* m (size_t off) { return g_want + MG + off; }
    size_t last (void) const { return n - MG; }
    void end (void) {
	cpu_check (what);
	if (memcmp (g_buf + g_size - n, g_want, n)) bad (what, g_buf + g_size - n, g_want, n, len, how);
	ops();
    }
};
size_t lensz (void) { return R.chance (1, 40) ? R.below (30000) : R.chance (1, 8) ? R.below (2000) : R.below (200); }

//--- copy between distinct regions: all alignments of both sides ------------------
// kinds of call that copy n bytes forward (from distinct or higher memory)
enum { NFWD = 18 };
uint8_t* fwd (unsigned k, const uint8_t* s, size_t n, uint8_t* d, const char*& what)
{
    using namespace ustl;
    switch (k) {
	case 0: what = "copy_n_fast"; copy_n_fast (s, n, d); return d + n;
	case 1: what = "copy<uint8>"; return copy (s, s + n, d);
	case 2: what = "copy<uint8,nc>"; return copy ((uint8_t*) s, (uint8_t*) s + n, d);
	case 3: what = "copy<char>"; return (uint8_t*) copy ((const char*) s, (const char*) s + n, (char*) d);
	case 4: what = "copy<char,nc>"; return (uint8_t*) copy ((char*) s, (char*) s + n, (char*) d);
	case 5: what = "copy<int8>"; return (uint8_t*) copy ((const int8_t*) s, (const int8_t*) s + n, (int8_t*) d);
	case 6: what = "copy<int8,nc>"; return (uint8_t*) copy ((int8_t*) s, (int8_t*) s + n, (int8_t*) d);
	case 7: what = "copy<void>"; return (uint8_t*) copy ((const void*) s, (const void*) (s + n), (void*) d);
	case 8: what = "copy<void,nc>"; return (uint8_t*) copy ((void*) s, (void*) (s + n), (void*) d);
	case 9: what = "copy_n<uint8>"; return copy_n (s, n, d);
	case 10: what = "copy_n<uint8,nc>"; return copy_n ((uint8_t*) s, n, d);
	case 11: what = "copy_n<char>"; return (uint8_t*) copy_n ((const char*) s, n, (char*) d);
	case 12: what = "copy_n<char,nc>"; return (uint8_t*) copy_n ((char*) s, n, (char*) d);
	case 13: what = "copy_n<int8>"; return (uint8_t*) copy_n ((const int8_t*) s, n, (int8_t*) d);
	case 14: what = "copy_n<int8,nc>"; return (uint8_t*) copy_n ((int8_t*) s, n, (int8_t*) d);
	case 15: what = "copy_n<void>"; return (uint8_t*) copy_n ((const void*) s, n, (void*) d);
	case 16: what = "copy_n<void,nc>"; return (uint8_t*) copy_n ((void*) s, n, (void*) d);
	default: { what = "copy(memlink)"; cmemlink l (s, n); return (uint8_t*) copy (l.begin(), l.end(), (char*) d); }
    }
}
enum { NBWD = 7 };
uint8_t* bwd (unsigned k, const uint8_t* s, size_t n, uint8_t* d, const char*& what)
{
    using namespace ustl;
    switch (k) {
	case 0: what = "copy_backward_fast"; copy_backward_fast (s, s + n, d + n); return d;
	case 1: what = "copy_backward<uint8>"; return copy_backward (s, s + n, d + n);
	case 2: what = "copy_backward<uint8,nc>"; return copy_backward ((uint8_t*) s, (uint8_t*) s + n, d + n);
	case 3: what = "copy_backward<char>"; return (uint8_t*) copy_backward ((char*) s, (char*) s + n, (char*) d + n);
	case 4: what = "copy_backward<int8>"; return (uint8_t*) copy_backward ((int8_t*) s, (int8_t*) s + n, (int8_t*) d + n);
	case 5: what = "copy_backward<void,nc>"; return (uint8_t*) copy_backward ((void*) s, (void*) (s + n), (void*) (d + n));
	default: what = "copy_backward<void>"; return (uint8_t*) copy_backward ((const void*) s, (const void*) (s + n), (void*) (d + n));
    }
}
void check_src (const char* what, size_t n) { if (memcmp (g_src + g_size - n, g_srccopy, n)) bad (what, g_src + g_size - n, g_srccopy, n, n, "its source"); }

// case index is the size: every source alignment by destination alignment
void distinct (size_t n, bool back)
{
    room (40000);
    size_t srcn = n + 64; fresh (g_src + g_size - srcn, srcn, R.next()); memcpy (g_srccopy, g_src + g_size - srcn, srcn);
    bool all = n < 300; Chk c;
    for (size_t sa = 0; sa < 64; sa += all ? 1 : 1 + R.below (9))
	for (size_t da = 0; da < 64; da += all ? 1 + (sa % 16 != 0) * R.below (4) : 1 + R.below (9)) {
	    unsigned k = R.chance (1, 3) ? 0 : R.below (back ? NBWD : NFWD);
	    const uint8_t* s = g_src + g_size - srcn + sa; const char* what = "";
	    if (sa == 62) { s = g_src; fresh (g_src, n, R.next()); memcpy (g_srccopy, g_src + g_size - srcn, srcn); }	// touches the page before it
	    if (sa == 63) s = g_src + g_size - n;	// touches the page after it
	    size_t da2 = da == 63 ? 128 : da;		// 128: so does the destination
	    c.begin ("copy", n + 128, n);
	    snprintf (c.how, sizeof(c.how), "call %u from alignment %zu to %zu", k, size_t(uintptr_t(s) % 64), size_t(uintptr_t(c.d(da2)) % 64));
	    uint8_t* d = c.d (da2);
	    uint8_t* r = back ? bwd (k, s, n, d, what) : fwd (k, s, n, d, what);
	    c.what = what; memcpy (c.m (0) + da2, s, n);
	    c.end();
	    VC (r == (back ? d : d + n), "return", "%s of %zu bytes returned position %td", what, n, r - d);
	    sig (hmix (hmix (k + back * 100, n < 300 ? n : 300 + n / 64), (uintptr_t(s) % 16) * 16 + uintptr_t(d) % 16));
	}
    check_src ("copy", srcn);
}
// overlapping in the permitted direction
void overlap (size_t n, bool back)
{
    room (40000); Chk c;
    for (size_t base = 0; base < 64; base += 1 + R.below (n < 300 ? 5 : 12))
	for (size_t dist = 0; dist < 140; dist += 1 + R.below (n < 300 ? 4 : 12)) {
	    size_t dd = R.chance (1, 8) ? 16 * R.below (8) : dist;
	    unsigned k = R.chance (1, 3) ? 0 : R.below (back ? NBWD : NFWD); const char* what = "";
	    c.begin ("overlapping copy", n + 256, n);
	    size_t lo = base, hi = base + dd, so = back ? lo : hi, dof = back ? hi : lo;
	    snprintf (c.how, sizeof(c.how), "call %u over a distance of %zu, base alignment %zu", k, dd, size_t(uintptr_t(c.d(base)) % 64));
	    uint8_t* r = back ? bwd (k, c.d(so), n, c.d(dof), what) : fwd (k, c.d(so), n, c.d(dof), what);
	    c.what = what; memmove (c.m (0) + dof, c.m (0) + so, n);
	    c.end();
	    VC (r == c.d (back ? dof : dof + n), "return", "%s of %zu bytes returned the wrong position", what, n);
	    sig (hmix (hmix (k + 1000 + back * 100, n < 300 ? n : 300 + n / 64), dd * 16 + uintptr_t(c.d(base)) % 16));
	}
}
// each of 0..299 once, then random; a function of the case number alone
size_t casesize (void) { if (g_case_idx < 300) return g_case_idx * 37 % 300; Rng q (hmix (g_seed, g_case_idx)); return q.chance (1, 40) ? q.below (30000) : 300 + q.below (2500); }

VF_CASE (c20_copy, 330, 900) { distinct (casesize(), false); if (want_sample()) sample ("copies of %zu bytes at all pairs of alignments", casesize()); }
VF_CASE (c20_copy_back, 330, 900) { distinct (casesize(), true); }
VF_CASE (c20_overlap, 330, 900) { overlap (casesize(), false); }
VF_CASE (c20_overlap_back, 330, 900) { overlap (casesize(), true); }

//--- typed copies ------------------------------------------------------------------
struct Odd { char a[7]; Odd (void) {} };
template <typename T> [[gnu::noinline]] void typed_one (const char* tn)
{
    using namespace ustl;
    room (40000); Chk c; size_t n = R.below (4) ? R.below (120) : R.below (1500), bytes = n * sizeof(T), unit = alignof(T);
    while (bytes + 512 > g_size) { n /= 2; bytes = n * sizeof(T); }
    size_t dist = R.below (40) * sizeof(T), base = R.below (64 / unit) * unit;
    unsigned k = R.below (7);
    size_t win = (bytes + 512 + 63) & ~size_t(63);
    c.begin (tn, win, bytes);
    bool back = k >= 4 && k < 6, sep = R.chance (1, 2); size_t lo = base, hi = base + dist, so = back ? lo : hi, dof = back ? hi : lo;
    const T* s; T* d = (T*) c.d (dof);
    if (sep) { size_t off = bytes + R.below (64 / unit) * unit; off = (off + unit - 1) / unit * unit; s = (const T*) (g_src + g_size - off); fresh ((uint8_t*) s, bytes, R.next()); }
    else s = (const T*) c.d (so);
    snprintf (c.how, sizeof(c.how), "call %u %s %s over %zu, base %zu", k, tn, sep ? "apart" : "overlapping", dist, base);
    memcpy (g_srccopy, s, bytes); memcpy (c.m (0) + dof, g_srccopy, bytes);
    T* r = nullptr; T* ex = d + n;
    switch (k) {
	case 0: r = copy (s, s + n, d); break;
	case 1: r = copy ((T*) s, (T*) s + n, d); break;
	case 2: r = copy_n (s, n, d); break;
	case 3: r = copy_n ((T*) s, n, d); break;
	case 4: r = copy_backward (s, s + n, d + n); ex = d; break;
	case 5: r = copy_backward ((T*) s, (T*) s + n, d + n); ex = d; break;
	default: r = copy_if (s, s + n, d, [](const T&){ return true; }); break;
    }
    c.end();
    VC (r == ex, "return", "copy call %u of %zu %s returned position %td", k, n, tn, r - d);
    if (sep && memcmp (s, g_srccopy, bytes)) bad (tn, (const uint8_t*) s, g_srccopy, bytes, bytes, "its source");
    sig (hmix (hmix (k + 2000 + sep * 16, hbytes (tn, strlen (tn))), (n < 64 ? n : 64) * 16 + uintptr_t(d) % 16));
}
#define TYPES(X) X(char) X(int8_t) X(uint8_t) X(int16_t) X(uint16_t) X(int32_t) X(uint32_t) X(int64_t) X(uint64_t) X(float) X(double) X(Odd) X(wchar_t)
VF_CASE (c20_typed, 6000, 30000)
{
    unsigned which = 0, pick = R.below (13);
#define X(T) if (which++ == pick) typed_one<T> (#T);
    for (unsigned i = 0; i < 6; ++i) { which = 0; pick = R.below (13); TYPES(X) }
#undef X
}

//--- fills -------------------------------------------------------------------------
enum { NFILL = 17 };
// returns unit size; value v is truncated to it
unsigned fillcall (unsigned k, uint8_t* d, size_t n, uint32_t v, uint8_t*& r, const char*& what)
{
    using namespace ustl;
    r = nullptr;
    switch (k) {
	case 0: what = "fill_n8_fast"; fill_n8_fast (d, n, v); return 1;
	case 1: what = "fill_n16_fast"; fill_n16_fast ((uint16_t*) d, n, v); return 2;
	case 2: what = "fill_n32_fast"; fill_n32_fast ((uint32_t*) d, n, v); return 4;
	case 3: what = "fill<uint8>"; fill (d, d + n, uint8_t(v)); return 1;
	case 4: what = "fill<char>"; fill ((char*) d, (char*) d + n, char(v)); return 1;
	case 5: what = "fill<char,uint8>"; fill ((char*) d, (char*) d + n, uint8_t(v)); return 1;
	case 6: what = "fill<int8>"; fill ((int8_t*) d, (int8_t*) d + n, int8_t(v)); return 1;
	case 7: what = "fill<void>"; if (v & 1) fill ((void*) d, (void*) (d + n), char(v)); else fill ((void*) d, (void*) (d + n), uint8_t(v)); return 1;
	case 8: what = "fill<16>"; if (v & 1) fill ((uint16_t*) d, (uint16_t*) d + n, uint16_t(v)); else fill ((int16_t*) d, (int16_t*) d + n, int16_t(v)); return 2;
	case 9: what = "fill<32>"; if (v & 1) fill ((uint32_t*) d, (uint32_t*) d + n, uint32_t(v)); else fill ((int32_t*) d, (int32_t*) d + n, int32_t(v)); return 4;
	case 10: what = "fill_n<uint8>"; r = fill_n (d, n, uint8_t(v)); return 1;
	case 11: what = "fill_n<char>"; r = (uint8_t*) ((v & 1) ? fill_n ((char*) d, n, char(v)) : fill_n ((char*) d, n, uint8_t(v))); return 1;
	case 12: what = "fill_n<int8>"; r = (uint8_t*) fill_n ((int8_t*) d, n, int8_t(v)); return 1;
	case 13: what = "fill_n<void>"; r = (uint8_t*) ((v & 1) ? fill_n ((void*) d, n, char(v)) : fill_n ((void*) d, n, uint8_t(v))); return 1;
	case 14: what = "fill_n<16>"; r = (v & 1) ? (uint8_t*) fill_n ((uint16_t*) d, n, uint16_t(v)) : (uint8_t*) fill_n ((int16_t*) d, n, int16_t(v)); return 2;
	case 15: what = "fill_n<32>"; r = (v & 1) ? (uint8_t*) fill_n ((uint32_t*) d, n, uint32_t(v)) : (uint8_t*) fill_n ((int32_t*) d, n, int32_t(v)); return 4;
	default: { what = "fill<float>"; v &= 0xFF7FFFFF; float f; memcpy (&f, &v, 4); if (v & 1) fill ((float*) d, (float*) d + n, f); else r = (uint8_t*) fill_n ((float*) d, n, f); return 4; }
    }
}
const unsigned c_unit [NFILL] = { 1, 2, 4, 1, 1, 1, 1, 1, 2, 4, 1, 1, 1, 1, 2, 4, 4 };
VF_CASE (c20_fill, 400, 1200)
{
    room (140000); Chk c; size_t n = casesize(); bool all = n < 300;
    for (unsigned k = 0; k < NFILL; ++k) {
	unsigned u = c_unit[k];
	for (size_t off = 0; off < 64; off += all ? u : u * (1 + R.below (9))) {
	    uint32_t v = R.next(); if (R.chance (1, 6)) v = R.bits(); if (R.chance (1, 10)) v = 0;
	    size_t len = n * u, o = off;
	    if (off == 0) o = 128;		// ends at the inaccessible page
	    c.begin ("fill", (len + 128 + 3) & ~size_t(3), len);
	    if (off == 0) o = c.last() - len;
	    uint8_t* d = c.d (o); uint8_t* r; const char* what = "";
	    snprintf (c.how, sizeof(c.how), "value %08x at alignment %zu", v, size_t(uintptr_t(d) % 64));
	    fillcall (k, d, n, v, r, what);
	    if (k == 16) v &= 0xFF7FFFFF;
	    c.what = what;
	    for (size_t i = 0; i < n; ++i) memcpy (c.m (0) + o + i * u, &v, u);
	    c.end();
	    VC (!r || r == d + len, "return", "%s of %zu elements returned byte position %td", what, n, r - d);
	    sig (hmix (hmix (k + 3000, n < 300 ? n : 300 + n / 64), uintptr_t(d) % 64));
	}
    }
}
// Regions larger than the caches
VF_CASE (c20_huge, 24, 200, SERIAL)
{
    static const size_t sz [] = { 200000, 600000, 1100000, 2200000, 4300000, 9000000 };
    const size_t n = sz[g_case_idx % 6] + R.below (3000), u0 = R.below (64); room (9300000); Chk c;
    for (unsigned q = 0; q < 4; ++q) {
	const char* what = ""; uint8_t* r; const unsigned kind = (g_case_idx / 6 + q) % 4;
	if (kind < 2) {	// apart
	    const size_t off = n + R.below (64); uint8_t* s = g_src + g_size - off; fresh (s, n, R.next()); memcpy (g_srccopy, s, n);
	    const size_t o = R.chance (1, 3) ? 128 : u0; c.begin ("copy", n + 128, n); const unsigned k = R.below (kind ? NBWD : NFWD);
	    snprintf (c.how, sizeof(c.how), "call %u from alignment %zu to %zu", k, size_t(uintptr_t(s) % 64), size_t(uintptr_t(c.d(o)) % 64));
	    r = kind ? bwd (k, s, n, c.d (o), what) : fwd (k, s, n, c.d (o), what); c.what = what; memcpy (c.m (0) + o, s, n); c.end();
	    VC (r == (kind ? c.d (o) : c.d (o) + n), "return", "%s of %zu bytes", what, n);
	    if (memcmp (s, g_srccopy, n)) bad (what, s, g_srccopy, n, n, "its source");
	} else if (kind == 2) {	// overlapping
	    const bool back = R.chance (1, 2); const size_t dist = R.chance (1, 2) ? 1 + R.below (100) : R.below (60000), lo = u0, hi = u0 + dist, so = back ? lo : hi, dof = back ? hi : lo; const unsigned k = R.below (back ? NBWD : NFWD);
	    c.begin ("overlapping copy", n + dist + 128, n); snprintf (c.how, sizeof(c.how), "call %u over a distance of %zu, base alignment %zu", k, dist, size_t(uintptr_t(c.d(lo)) % 64));
	    r = back ? bwd (k, c.d (so), n, c.d (dof), what) : fwd (k, c.d (so), n, c.d (dof), what); c.what = what; memmove (c.m (0) + dof, c.m (0) + so, n); c.end();
	    VC (r == c.d (back ? dof : dof + n), "return", "%s of %zu bytes", what, n);
	} else {
	    const unsigned k = R.below (NFILL), u = c_unit[k]; const size_t cnt = n / u, o = u0 / u * u; uint32_t v = R.next(); c.begin ("fill", ((cnt * u + 128 + 3) & ~size_t(3)), cnt * u);
	    snprintf (c.how, sizeof(c.how), "call %u of value %08x at alignment %zu", k, v, size_t(uintptr_t(c.d(o)) % 64)); fillcall (k, c.d (o), cnt, v, r, what); c.what = what;
	    if (k == 16) v &= 0xFF7FFFFF;
	    for (size_t i = 0; i < cnt; ++i) memcpy (c.m (0) + o + i * u, &v, u);
	    c.end(); VC (!r || r == c.d (o) + cnt * u, "return", "%s of %zu elements", what, cnt);
	}
	sig (hmix (3200 + kind, n / 50000));
    }
}
// Fills of other element types take the generic loop
VF_CASE (c20_fill_other, 1500, 6000)
{
    using namespace ustl;
    room (40000); Chk c; size_t n = R.below (300), base = R.below (8) * 8;
    c.begin ("fill<64>", (n * 8 + 128), n * 8);
    u64 v = R.next() & 0x7FEFFFFFFFFFFFFFull; u64* d = (u64*) c.d (base); u64* e = d + n;
    switch (R.below (4)) {
	case 0: fill (d, d + n, v); break;
	case 1: VC (fill_n (d, n, v) == e, "return", "fill_n<uint64>"); break;
	case 2: { double f; memcpy (&f, &v, 8); fill ((double*) d, (double*) d + n, f); break; }
	default: { i64 s = v; VC (fill_n ((i64*) d, n, s) == (i64*) e, "return", "fill_n<int64>"); break; }
    }
    for (size_t i = 0; i < n; ++i) memcpy (c.m (0) + base + i * 8, &v, 8);
    c.end(); sig (hmix (3100, n));
}

//--- rotations -----------------------------------------------------------------------
void rotwant (Chk& c, size_t o, size_t a, size_t b) { memcpy (g_srccopy, c.m (0) + o, a); memmove (c.m (0) + o, c.m (0) + o + a, b); memcpy (c.m (0) + o + b, g_srccopy, a); }
template <typename T> [[gnu::noinline]] void rot_typed (Chk& c, size_t o, size_t a, size_t b)
{
    T* f = (T*) c.d (o); T* r = ustl::rotate (f, f + a, f + a + b);
    VC (r == f || r == f + b, "return", "rotate returned %td", r - f);
}
void rot (size_t a, size_t b, size_t o, unsigned k)
{
    Chk c; static const unsigned un [8] = { 1, 1, 1, 1, 2, 4, 8, 7 };
    unsigned u = un[k]; size_t l = (a + b) * u; size_t al = u == 7 ? 1 : u; o = o / al * al;
    room ((l + 128 + 4096) & ~size_t(63));
    c.begin ("rotate", (l + 128 + 7) & ~size_t(7), l);
    if (R.chance (1, 4)) o = (c.last() - l) / al * al;
    snprintf (c.how, sizeof(c.how), "kind %u halves of %zu and %zu elements at alignment %zu", k, a, b, size_t(uintptr_t(c.d(o)) % 64));
    switch (k) {
	case 0: ustl::rotate_fast (c.d(o), c.d(o + a), c.d(o + a + b)); break;
	case 1: rot_typed<uint8_t> (c, o, a, b); break;
	case 2: rot_typed<char> (c, o, a, b); break;
	case 3: rot_typed<int8_t> (c, o, a, b); break;
	case 4: rot_typed<uint16_t> (c, o, a, b); break;
	case 5: rot_typed<uint32_t> (c, o, a, b); break;
	case 6: rot_typed<double> (c, o, a, b); break;
	default: rot_typed<Odd> (c, o, a, b); break;
    }
    rotwant (c, o, a * u, b * u);
    c.end();
    sig (hmix (hmix (k + 4000, a < 64 ? a : 64 + a / 64), (b < 64 ? b : 64 + b / 64) * 16 + uintptr_t(c.d(o)) % 16));
}
VF_CASE (c20_rotate, 600, 2400)
{
    if (g_case_idx < 120) {	// all pairs of small halves
	size_t a = g_case_idx; for (size_t b = 0; b < 120; ++b) { rot (a, b, R.below (64), R.chance (1, 2) ? 0 : 1 + R.below (3)); rot (a, b, R.below (64), R.below (8)); }
    } else for (unsigned i = 0; i < 8; ++i) rot (lensz() / 4, lensz() / 4, R.below (64), R.below (8));
}
// halves too large for a stack
VF_CASE (c20_rotate_large, 16, 64, SERIAL)
{
    static const size_t z [] = { 1, 65534, 65535, 65536, 65537, 70000, 131072, 200001 };
    size_t a = z[g_case_idx % 8];
    for (unsigned k = 0; k < 8; ++k) {
	size_t b = z[k]; if (g_case_idx >= 16) { a += R.below (40); b += R.below (40); }
	const size_t o = R.below (16); uint8_t* p = (uint8_t*) malloc (a + b + o + 16);
	for (size_t i = 0; i < a + b + o + 16; ++i) p[i] = mix (i);
	const bool half = (g_case_idx / 8) & 1 && !(a & 1) && !(b & 1);
	if (half) ustl::rotate ((uint16_t*)(p + o), (uint16_t*)(p + o + a), (uint16_t*)(p + o + a + b)); else ustl::rotate_fast (p + o, p + o + a, p + o + a + b);
	cpu_check ("rotate_fast");
	for (size_t i = 0; i < o; ++i) VC (p[i] == uint8_t (mix (i)), "outside", "rotate_fast of %zu and %zu bytes changed byte %zu before the range", a, b, o - i);
	for (size_t i = 0; i < 16; ++i) VC (p[o + a + b + i] == uint8_t (mix (o + a + b + i)), "outside", "rotate_fast of %zu and %zu bytes changed byte %zu after the range", a, b, i);
	for (size_t i = 0; i < a + b; ++i) if (p[o + i] != uint8_t (mix (o + (i + a) % (a + b)))) { fail ("bytes", "rotate_fast of halves of %zu and %zu bytes: byte %zu is wrong", a, b, i); }
	free (p); ops(); sig (hmix (4200 + (g_case_idx % 8) * 8 + k, half));
    }
}
VF_CASE (c20_rotate_big, 8, 24, SERIAL)
{
    size_t a = g_case_idx % 2 ? R.below (300) + 1 : (12u << 20) + R.below (100), b = g_case_idx % 4 < 2 ? (12u << 20) + R.below (100) : 70000 + R.below (100);
    if (g_case_idx % 8 == 7) { a = 65536 + R.below (3) - 1; b = 65536 + R.below (3) - 1; }
    uint8_t* p = (uint8_t*) malloc (a + b); 
    for (size_t i = 0; i < a + b; ++i) p[i] = mix (i);
    ustl::rotate_fast (p, p + a, p + a + b); cpu_check ("rotate_fast");
    for (size_t i = 0; i < a + b; ++i) if (p[i] != uint8_t (mix ((i + a) % (a + b)))) { fail ("bytes", "rotate_fast of halves of %zu and %zu bytes: byte %zu is wrong", a, b, i); }
    free (p); ops(); sig (hmix (4100, g_case_idx));
}

//--- block insert, erase and fill ------------------------------------------------------
VF_CASE (c20_block, 4000, 16000)
{
    using namespace ustl;
    room (140000); Chk c;
    for (unsigned i = 0; i < 4; ++i) {
	size_t n = R.chance (1, 60) ? R.below (100000) : lensz(), at = R.pos (n), cnt = R.below (n - at + 1), o = R.below (64); unsigned k = R.below (5);
	c.begin ("memlink", n + 128, n); if (R.chance (1, 4)) o = 128;
	memlink l (c.d (o), n);
	snprintf (c.how, sizeof(c.how), "%zu of %zu at %zu, alignment %zu", cnt, n, at, size_t(uintptr_t(c.d(o)) % 64));
	switch (k) {
	    case 0: c.what = "memlink::insert"; l.insert (l.iat (at), cnt); memmove (c.m (0) + o + at + cnt, c.m (0) + o + at, n - at - cnt);
		memcpy (c.m (0) + o + at, c.d (o + at), cnt); break;	// the uncovered bytes are unspecified
	    case 1: c.what = "memlink::erase"; l.erase (l.iat (at), cnt); memmove (c.m (0) + o + at, c.m (0) + o + at + cnt, n - at - cnt);
		memcpy (c.m (0) + o + n - cnt, c.d (o + n - cnt), cnt); break;
	    case 2: { c.what = "memlink::fill"; size_t el = R.chance (1, 3) ? 1 : R.below (40), m = el ? (n - at) / el : R.below (5); m = R.below (m + 1);
		char pat [40]; fresh ((uint8_t*) pat, el, R.next()); l.fill (l.iat (at), ro_copy (pat, el), el, m);
		for (size_t j = 0; j < m; ++j) memcpy (c.m (0) + o + at + j * el, pat, el); break; }
	    case 3: { c.what = "memblock::insert"; memblock b (c.d (o), n); memblock::iterator r = b.insert (b.iat (at), cnt); cpu_check (c.what);
		VC (r == b.iat (at) && b.size() == n + cnt, "return", "memblock::insert of %zu at %zu of %zu", cnt, at, n);
		VC (!memcmp (b.cdata(), c.m (0) + o, at) && !memcmp (b.cdata() + at + cnt, c.m (0) + o + at, n - at), "bytes", "memblock::insert of %zu at %zu of %zu", cnt, at, n); break; }
	    default: { c.what = "memblock::erase"; memblock b (c.d (o), n); memblock::iterator r = b.erase (b.iat (at), cnt); cpu_check (c.what);
		VC (r == b.iat (at) && b.size() == n - cnt, "return", "memblock::erase of %zu at %zu of %zu", cnt, at, n);
		VC (!memcmp (b.cdata(), c.m (0) + o, at) && !memcmp (b.cdata() + at, c.m (0) + o + at + cnt, n - at - cnt), "bytes", "memblock::erase of %zu at %zu of %zu", cnt, at, n); break; }
	}
	c.end();
	sig (hmix (hmix (k + 5000, (n < 100 ? n : 100) * 16 + uintptr_t(c.d(o)) % 16), (at == 0) + 2 * (cnt == 0) + 4 * (at + cnt == n)));
    }
}
// floating point after each operation gives the usual values
VF_CASE (c20_float, 300, 1200)
{
    room (40000); Chk c; volatile long double x = 1 + R.below (1000), y = 3; double e = double (x) / 3;
    c.begin ("fill", 4096, 2048);
    uint8_t* r; const char* what; unsigned k = R.below (NFILL); fillcall (k, c.d (64), R.below (500), R.next(), r, what);
    long double s = 0; for (unsigned i = 0; i < 8; ++i) s += x / y;
    VC (s > 8 * e * 0.999999 && s < 8 * e * 1.000001, "floating point", "after %s the processor computes %Lg / 3 * 8 = %Lg", what, (long double) x, s);
    c.begin ("copy", 4096, 2048); what = "";
    if (R.chance (1, 2)) fwd (R.below (NFWD), g_src, R.below (500), c.d (R.below (64)), what); else bwd (R.below (NBWD), g_src, R.below (500), c.d (R.below (64)), what);
    s = 0; for (unsigned i = 0; i < 8; ++i) s += x / y;
    VC (s > 8 * e * 0.999999 && s < 8 * e * 1.000001, "floating point", "after %s the processor computes %Lg / 3 * 8 = %Lg", what, (long double) x, s);
    ops(); sig (hmix (6000, k));
}
} // namespace
