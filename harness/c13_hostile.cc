// Hostile binary input: every serializable type reads truncated, corrupted and
// random bytes that end at an inaccessible page.
#include "stm.h"
using namespace vf;
namespace {
enum { NTYPES = 0
    #define X(...)	+ 1
    VF_STM_TYPES(X)
    #undef X
};
template <typename T> void scribe (Arr<unsigned char>& b)
{
    T v {}; Gen<T>::mk (v); const T& cv = v;
    const size_t n = ustl::stream_size_of (cv), cap = (n + 31) / 16 * 16;
    unsigned char* t = (unsigned char*) guard_alloc (cap);
    memset (t, 0, cap);
    { ustl::ostream os (t, cap); os << cv; }
    b.clear(); for (size_t i = 0; i < n; ++i) b.push (t[i]);
    guard_free (t, cap);
}
void scribe_k (unsigned k, Arr<unsigned char>& b)
{
    unsigned i = 0;
    #define X(...)	if (i++ == k) return scribe<__VA_ARGS__> (b);
    VF_STM_TYPES(X)
    #undef X
}
// damage: 0 none, 1 truncated only, 2 changed
unsigned damage (Arr<unsigned char>& b)
{
    switch (R.below (10)) {
	case 0: return 0;
	case 1: case 2: if (!b.n) return 0; b.n = R.below (b.n); return 1;
	case 3: { unsigned k = 1 + R.below (4); for (unsigned i = 0; i < k && b.n; ++i) b[R.below (b.n)] ^= 1u << R.below (8); return 2; }
	case 4: if (b.n >= 4) { static const uint32_t v[] = { 0xFFFFFFFFu, 0x7FFFFFFFu, 0x80000000u, 0x40000000u, 0x10000001u, 0x00FFFFFFu, 65536, 256, 0 }; uint32_t x = R.chance (1, 3) ? uint32_t (b.n) + R.range (-5, 5) : v[R.below (9)]; memcpy (b.p + (R.chance (1, 2) ? 0 : R.below (b.n / 4) * 4), &x, 4); } return 2;
	case 5: if (b.n) { static const unsigned char v[] = { 0xFF, 0xFE, 0xFC, 0xF8, 0xF0, 0xE0, 0xC0, 0x80, 0xBF, 0x7F }; b[R.chance (1, 2) ? 0 : R.below (b.n)] = v[R.below (10)]; } return 2;
	case 6: { size_t at = R.below (b.n + 1), c = 1 + R.below (9); for (size_t i = 0; i < c; ++i) b.insert (at, 1, (unsigned char) R.next()); return 2; }
	case 7: if (b.n) { size_t at = R.below (b.n), c = 1 + R.below (b.n - at < 9 ? b.n - at : 9); b.erase (at, c); } return 2;
	case 8: { b.clear(); size_t n = R.size (R.chance (1, 20) ? 3000 : 120); for (size_t i = 0; i < n; ++i) b.push (R.next()); return 2; }
	default: { b.clear(); size_t n = R.size (100); unsigned m = R.below (4); for (size_t i = 0; i < n; ++i) b.push (m == 0 ? 0xFF : m == 1 ? 0 : m == 2 ? R.below (4) : (i & 3) ? 0 : R.below (9)); return 2; }
    }
}
template <typename T> void reread (T& v)
{
    const T& cv = v; const size_t n = ustl::stream_size_of (cv), cap = (n + 31) / 16 * 16;
    char* t = (char*) guard_alloc (cap); memset (t, 0xA5, cap);
    { ustl::ostream os (t, cap); os << cv; VC (os.pos() == n, "use", "%s read from damaged input announces %zu bytes and writes %zu", Gen<T>::name(), n, size_t(os.pos())); }
    guard_free (t, cap);
}
template <typename T> void hostile (Arr<unsigned char>& b, size_t skip, bool exc, unsigned how, bool same)
{
    char* p = ro_copy (b.p, b.n);
    bool threw = false, failed, len = false; size_t pos;
    const bool fresh = R.chance (1, 2);
    {
	T v {}; if (!fresh) Gen<T>::mk (v);
	ustl::istream is (p, b.n); if (!exc) is.exceptions (0);
	is.skip (skip);
	heap_peak_reset(); const u64 b0 = heap_stats().bytes;
	try { is >> v; }
	catch (ustl::stream_bounds_exception&) { threw = true; }
	const HeapStats h = heap_stats();
	ops();
	if (g_has_heap && !(threw && exc)) VC (h.peak - b0 <= 160 * b.n + 4096 && h.maxreq <= 160 * b.n + 4096, "alloc", "%s read from %zu bytes allocated %llu bytes, largest request %llu", Gen<T>::name(), b.n, (unsigned long long)(h.peak - b0), (unsigned long long) h.maxreq);
	failed = is.fail(); pos = is.pos();
	VC (is.pos() >= skip && is.pos() <= b.n && is.size() == b.n, "position", "%s read from %zu bytes leaves position %zu", Gen<T>::name(), b.n, pos);
	VC (!threw || exc, "throw", "%s read from %zu bytes threw with exceptions off", Gen<T>::name(), b.n);
	VC (threw == (exc && failed), "throw", "%s read from %zu bytes with exceptions on: thrown %d, failbit %d", Gen<T>::name(), b.n, threw, failed);
	if (same && how == 1) VC (failed, "unreported", "%s read from %zu bytes of a longer written value without reporting it", Gen<T>::name(), b.n);
	if (same && how == 0) VC (!failed && is.pos() == b.n, "intact", "%s read from intact bytes reported failure or stopped at %zu of %zu", Gen<T>::name(), pos, b.n);
	// the value can be sized, copied, written, assigned, and used again
	reread (v);
	T c (v); reread (c);
	VC (ustl::stream_size_of (c) == ustl::stream_size_of (v), "use", "copy of %s read from damaged input has another size", Gen<T>::name());
	Gen<T>::mk (v); reread (v); c = v; VC (Gen<T>::eq (c, v), "use", "%s cannot be reassigned after reading damaged input", Gen<T>::name());
    }
    sig (hmix (hbytes (Gen<T>::name(), strlen (Gen<T>::name())), hmix (how, hmix (exc, hmix (failed, hmix (len, hmix (pos == b.n, hmix (fresh, same))))))));
}
void hostile_k (unsigned k, Arr<unsigned char>& b, size_t skip, bool exc, unsigned how, bool same)
{
    unsigned i = 0;
    #define X(...)	if (i++ == k) return hostile<__VA_ARGS__> (b, skip, exc, how, same);
    VF_STM_TYPES(X)
    #undef X
}
}
static void values (void) {
    Arr<unsigned char> b; const unsigned k = R.below (NTYPES), r = R.chance (4, 5) ? k : R.below (NTYPES);
    scribe_k (k, b); g_big = 0;
    size_t skip = 0;
    const unsigned how = damage (b);
    if (R.chance (1, 6)) { skip = (1 + R.below (3)) * 8; for (size_t i = 0; i < skip; ++i) b.insert (0, 1, (unsigned char) R.next()); }
    const bool exc = R.chance (1, 2);
    trace ("written as %u read as %u, %zu bytes after %zu, how %u, exceptions %d: %s", k, r, b.n - skip, skip, how, exc, show (b.p + skip, b.n - skip < 60 ? b.n - skip : 60));
    if (want_sample()) sample ("type %u read as type %u from %zu bytes, damage %u", k, r, b.n - skip, how);
    hostile_k (r, b, skip, exc, how, r == k);
}
VF_CASE(c13_values, 9000, 300000) { values(); }
// objects of thousands of elements
VF_CASE(c13_big, 120, 3000) { static const size_t sz [] = { 300, 2060, 5000, 20000, 66000 }; g_big = sz [R.below (R.chance (1, 4) ? 5 : 3)] + R.below (200); values(); }
// every prefix of a written value
VF_CASE(c13_prefixes, 400, 12000) {
    Arr<unsigned char> b; const unsigned k = g_case_idx % NTYPES; scribe_k (k, b);
    const bool whole = b.n <= 400; if (b.n > 400) b.n = 400;
    const size_t n = b.n;
    for (size_t i = 0; i <= n; ++i) { b.n = i; hostile_k (k, b, 0, (i + g_case_idx) & 1, i == n && whole ? 0 : 1, true); }
}
namespace {
template <typename E> void xread (E& x, Arr<unsigned char>& b, bool exc, const char* nm, bool full)
{
    char* p = ro_copy (b.p, b.n);
    {
	ustl::istream is (p, b.n); if (!exc) is.exceptions (0);
	bool threw = false;
	heap_peak_reset(); const u64 b0 = heap_stats().bytes;
	try { is >> x; } catch (ustl::stream_bounds_exception&) { threw = true; }
	const HeapStats h = heap_stats(); ops();
	if (g_has_heap && !threw) VC (h.peak - b0 <= 64 * b.n + 16384, "alloc", "%s read from %zu bytes allocated %llu", nm, b.n, (unsigned long long)(h.peak - b0));
	VC (is.pos() <= b.n, "position", "%s read from %zu bytes leaves position %zu", nm, b.n, size_t(is.pos()));
	VC (threw == (exc && is.fail()), "throw", "%s read with exceptions %d: thrown %d, failbit %d", nm, exc, threw, is.fail());
	VC (full || is.fail(), "unreported", "%s read from %zu bytes of a longer value without reporting it", nm, b.n);
	sig (hmix (hbytes (nm, strlen (nm)), hmix (exc, hmix (threw, is.pos() == b.n))));
    }
}
}
// a reader that walks over hostile bytes with every stream operation
VF_CASE(c13_walk, 1500, 40000) {
    Arr<unsigned char> b; const size_t n = R.size (200); const unsigned zeros = R.below (3);
    for (size_t i = 0; i < n; ++i) b.push (zeros == 0 ? 1 + R.below (255) : zeros == 1 ? R.next() : R.below (3));
    char* p = ro_copy (b.p, n); const bool exc = R.chance (1, 2);
    ustl::istream is (p, n); if (!exc) is.exceptions (0);
    char tmp [300];
    for (unsigned step = 0, ns = 3 + R.below (20); step < ns; ++step) {
	const size_t pos = is.pos(), rem = n - pos; const unsigned op = R.below (12); bool threw = false, over = false; u64 want = 0;
	const size_t k = R.chance (1, 12) ? size_t (R.bits()) & 0x7fffffffffffull : R.size (250);
	trace ("op %u with %zu at %zu of %zu; ", op, k, pos, n);
	ustl::string s ("before"); ustl::memblock mb; ustl::vector<uint16_t> v; size_t np = pos;
	heap_peak_reset(); const u64 b0 = heap_stats().bytes;
	try { switch (op) {
	    case 0: case 1: { size_t z = pos; while (z < n && b[z]) ++z; over = z == n; is.read_strz (s); if (!over) { np = z + 1; VC (s.size() == z - pos && !memcmp (s.data(), b.p + pos, z - pos), "strz", "read_strz over hostile bytes gave %zu bytes of %zu", size_t(s.size()), z - pos); } } break;
	    case 2: { over = k > rem; is.skip (k); if (!over) np = pos + k; } break;
	    case 3: { over = k > n; is.seek (k); if (!over) np = k; } break;
	    case 4: { size_t c = k < 300 ? k : 299; over = c > rem; is.read (tmp, c); if (!over) { np = pos + c; VC (!memcmp (tmp, b.p + pos, c), "bytes", "read of %zu bytes", c); } } break;
	    case 5: { size_t c = k < 300 ? k : 299; over = c > rem; size_t r = is.readsome (tmp, c); size_t e = c < rem ? c : rem; np = pos + e; VC (r == e, "bytes", "readsome of %zu bytes with %zu left gave %zu", c, rem, r); } break;
	    case 6: { size_t g = size_t (1) << R.below (7), e = (pos + g - 1) & ~(g - 1); over = e > n; is.align (g); if (!over) np = e; } break;
	    case 7: { over = k > n; is.seekg (k); if (!over) np = k; } break;
	    case 8: np = ~size_t(0); is >> s; break;
	    case 9: if (pos % 8 == 0) { np = ~size_t(0); is >> mb; want = mb.size(); } break;
	    case 10: if (pos % 8 == 0) { np = ~size_t(0); is >> v; want = v.size() * 2; } break;
	    case 11: { uint64_t x = 0; if (pos % 8 == 0) { over = rem < 8; is >> x; if (!over) { np = pos + 8; VC (!memcmp (&x, b.p + pos, 8), "bytes", "number read"); } } } break;
	} } catch (ustl::stream_bounds_exception&) { threw = true; }
	const HeapStats h = heap_stats(); ops();
	VC (is.pos() <= n && is.size() == n, "position", "operation %u leaves position %zu of %zu", op, size_t(is.pos()), n);
	VC (want <= n, "position", "operation %u gave %llu bytes out of %zu", op, (unsigned long long) want, n);
	if (g_has_heap && !threw) VC (h.peak - b0 <= 16 * n + 4096, "alloc", "operation %u on %zu bytes allocated %llu", op, n, (unsigned long long)(h.peak - b0));
	if (np != ~size_t(0)) {
	    VC (!over || is.fail(), "unreported", "operation %u with %zu at %zu of %zu passed the end without reporting it", op, k, pos, n);
	    VC (!over || !exc || threw, "throw", "operation %u past the end did not throw", op);
	    VC (over || !threw, "throw", "operation %u within bounds threw", op);
	    if (!threw || op != 5) VC (is.pos() == np, "position", "operation %u with %zu at %zu of %zu leaves position %zu, expected %zu", op, k, pos, n, size_t(is.pos()), np);
	}
	sig (hmix (20000 + op, hmix (over, hmix (exc, hmix (rem == 0, zeros)))));
	is.clear();
    }
}
// backtraces and exceptions read from damaged bytes, then printed and copied
VF_CASE(c13_backtrace, 300, 8000) {
    Arr<unsigned char> b;
    { ustl::CBacktrace t; const size_t n = t.stream_size(); char* w = (char*) guard_alloc ((n + 31) / 16 * 16); { ustl::ostream os (w, n); os << t; } for (size_t i = 0; i < n; ++i) b.push (w[i]); guard_free (w, (n + 31) / 16 * 16); }
    const size_t n0 = b.n; const unsigned how = damage (b);
    {
	ustl::CBacktrace v; xread (v, b, R.chance (1, 2), "CBacktrace", how != 1 || b.n == n0);
	ustl::CBacktrace c (v); c = v;
	ustl::string s; ustl::ostringstream os (s); os << c << v; os.flush();
	size_t n = v.stream_size(); VC (n == c.stream_size() && n < 65536 + 64 * b.n, "use", "CBacktrace from damaged input has stream size %zu", n);
    }
}
#ifdef NDEBUG	// with assertions on these insist on a matching header
VF_CASE(c13_exceptions, 300, 8000) {
    Arr<unsigned char> b; const unsigned k = R.below (4);
    #define WR(T,...) { T t { __VA_ARGS__ }; const size_t n = t.stream_size(), cap = (n + 31) / 16 * 16; char* w = (char*) guard_alloc (cap); { ustl::ostream os (w, n); os << t; } for (size_t i = 0; i < n; ++i) b.push (w[i]); guard_free (w, cap); }
    #define RD(T,...) { T v { __VA_ARGS__ }; xread (v, b, exc, #T, how != 1); T c (v); c = v; ustl::string i1, i2; v.info (i1); c.info (i2); VC (i1 == i2, "use", #T " from damaged input and its copy describe themselves differently"); ustl::string s; ustl::ostringstream os (s); os << v; os.flush(); reread_x (v); }
    auto reread_x = [](auto& v) { const size_t n = v.stream_size(), cap = (n + 31) / 16 * 16; char* w = (char*) guard_alloc (cap); { ustl::ostream os (w, cap); os << v; } guard_free (w, cap); };
    const bool exc = R.chance (1, 2);
    switch (k) { case 0: WR(ustl::exception,) break; case 1: WR(ustl::runtime_error, "message %d") break; case 2: WR(ustl::system_error, "operation") break; default: WR(ustl::file_exception, "open", "/some/file"); }
    const unsigned how = damage (b);
    switch (k) { case 0: RD(ustl::exception,) break; case 1: RD(ustl::runtime_error, "x") break; case 2: RD(ustl::system_error, "x") break; default: RD(ustl::file_exception, "x", "y"); }
}
#endif
