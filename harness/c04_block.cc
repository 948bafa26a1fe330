// C04: memory blocks hold exactly what was put in them and never edit borrowed data.
#include "elems.h"
#include <fcntl.h>
#include <unistd.h>
using namespace vf;
using ustl::memblock; using ustl::memlink; using ustl::cmemlink;
namespace {
typedef Arr<char> MB;

// Foreign memory lent to the blocks of the current case
struct Foreign { char* p; size_t n; bool rw; char* copy; };
Arr<Foreign> lent;
char* lend (const MB& t, bool rw)
{
    Foreign f; f.n = t.n; f.rw = rw; f.p = ro_copy (t.p, t.n, rw);
    f.copy = (char*) arena (t.n + 1); memcpy (f.copy, t.p, t.n);
    lent.push (f);
    return f.p;
}
void check_lent (const char* op)
{
    for (size_t i = 0; i < lent.n; ++i)
	VC (!memcmp (lent[i].p, lent[i].copy, lent[i].n), "borrowed", "%s changed the foreign memory of %zu bytes: %s", op, lent[i].n, show (lent[i].p, lent[i].n));
}
bool writable (const char* p) { for (size_t i = 0; i < lent.n; ++i) if (p >= lent[i].p && p < lent[i].p + lent[i].n) return lent[i].rw; return false; }
void relend (const char* p) { for (size_t i = 0; i < lent.n; ++i) if (p >= lent[i].p && p <= lent[i].p + lent[i].n) memcpy (lent[i].copy, lent[i].p, lent[i].n); }
MB bytes (size_t mx) { MB t; size_t n = R.size (g_big ? g_big : mx); t.grow (n); for (size_t i = 0; i < n; ++i) t.push (R.next()); return t; }
const char* place (const MB& t) { if (R.chance (1, 4)) return ro_copy (t.p, t.n); char* a = (char*) arena (t.n + 1); memcpy (a, t.p, t.n); return a; }

struct BState {
    uint64_t mem [(sizeof(memblock) + 7) / 8]; memblock* b; MB m; size_t promised;	// capacity promised by reserve
    void check (const memblock& o, const MB& mm, const char* op) {
	ops();
	VC (o.size() == mm.n && o.readable_size() == mm.n && o.empty() == !mm.n, "size", "after %s size() is %zu, expected %zu", op, size_t(o.size()), mm.n);
	VC (!mm.n || !memcmp (o.data(), mm.p, mm.n), "content", "after %s: %s, expected %s", op, show (o.data(), o.size()), show (mm.p, mm.n));
	VC (o.begin() == o.data() && o.cdata() == o.data() && o.end() == o.data() + mm.n && o.iat (mm.n) == o.end() && o.writable_size() == mm.n, "iterators", "after %s", op);
	VC (o.is_linked() == !o.capacity(), "is_linked", "after %s", op);
	VC (o.is_linked() || o.capacity() >= o.size(), "capacity", "after %s capacity() %zu < size() %zu", op, size_t(o.capacity()), mm.n);
	VC (o.max_size() == (o.is_linked() ? mm.n : SIZE_MAX), "max_size", "after %s", op);
    }
    void check (const char* op) {
	check (*b, m, op);
	VC (b->capacity() >= promised, "capacity", "after %s capacity() is %zu, reserved was %zu", op, size_t(b->capacity()), promised);
	// the capacity beyond the size belongs to the block
	if (b->capacity() > m.n && R.chance (1, 3)) memset (b->begin() + m.n, 0xEE, b->capacity() - m.n);
	check_lent (op);
    }
    void drop (void) { b->deallocate(); m.clear(); promised = 0; VC (!b->size() && !b->cdata() && b->is_linked(), "deallocate", "size %zu", size_t(b->size())); }
    // linked blocks of nothing owned have a capacity of zero; anything owned keeps what it has
    void regained (size_t from) { for (size_t i = from; i < m.n; ++i) b->begin()[i] = m[i]; }	// new bytes are not specified
    void pick (size_t from, size_t to) { for (size_t i = from; i < to; ++i) m[i] = R.next(); }

    void run (void) {
	promised = 0;
	unsigned k = R.below (9);
	switch (k) {
	    case 0: b = new (mem) memblock; break;
	    case 1: { MB t = bytes (100); b = new (mem) memblock (place (t), t.n); m = t; break; }
	    case 2: { size_t n = R.size (100); b = new (mem) memblock (n); VC (b->size() == n, "size", "memblock(%zu) has size %zu", n, size_t(b->size())); m.resize (n, 0); pick (0, n); regained (0); break; }
	    case 3: { MB t = bytes (100); cmemlink l (lend (t, false), t.n); b = new (mem) memblock (l); m = t; break; }
	    case 4: { MB t = bytes (100); memlink l (lend (t, true), t.n); b = new (mem) memblock (static_cast<const memlink&>(l)); m = t; break; }
	    case 5: { MB t = bytes (100); memblock o (place (t), t.n); b = new (mem) memblock (static_cast<const memblock&>(o)); m = t; check (o, t, "being copied"); VC (!t.n || o.data() != b->data(), "shared", "the copy of a block shares its memory"); break; }
	    case 6: { MB t = bytes (100); memblock o; o.link (lend (t, false), t.n); b = new (mem) memblock (static_cast<const memblock&>(o)); m = t; check (o, t, "being copied"); VC (!t.n || o.data() != b->data(), "shared", "the copy of a linked block shares its memory"); break; }
	    default: { MB t = bytes (100); memblock o (place (t), t.n); b = new (mem) memblock (ustl::move (o)); m = t; check (o, MB(), "moved from"); o.resize (5); break; }
	}
	trace ("ctor%u[%zu]", k, m.n); check ("construction");
	unsigned steps = 3 + R.below (40);
	while (steps--) step();
	b->~memblock();
	check_lent ("destruction");
    }
    void step (void) {
	memblock& v = *b; const memblock& cv = v; size_t n = m.n, pos = R.pos (n), len = R.below (n - pos + 1); size_t mx = R.chance (1, 30) ? 5000 : R.chance (1, 6) ? 300 : 40; if (g_big) mx = g_big;
	unsigned k = R.below (30), f = 0; const char* op = "?"; const bool waslinked = v.is_linked();
	switch (k) {
	    case 0: case 1: { op = "assign"; f = R.below (9); MB t = bytes (mx);
		switch (f) {
		    case 0: v.assign (place (t), t.n); break;
		    case 1: { cmemlink l (place (t), t.n); v.assign (l); break; }
		    case 2: { cmemlink l (place (t), t.n); v = l; break; }
		    case 3: { memlink l (place (t), t.n); v = l; break; }
		    case 4: { memblock o (place (t), t.n); v = static_cast<const memblock&>(o); check (o, t, "operator= (argument)"); break; }
		    case 5: { memblock o; o.link (lend (t, false), t.n); v = static_cast<const memblock&>(o); check (o, t, "operator= (argument)"); break; }
		    case 6: { memblock o (place (t), t.n); v = ustl::move (o); promised = 0; check (o, m, "move assignment (source)"); break; }
		    case 7: t = m; v = cv; break;
		    default: t = m; v.assign (v.data(), v.size()); break;
		}
		m = t; break; }
	    case 2: case 3: { op = "reserve"; size_t c = R.size (mx); bool ex = R.next() & 1; v.reserve (c, ex); promised = c > promised ? c : promised; f = ex; if (v.is_linked()) { promised = 0; VC (!c && !n, "reserve", "reserve(%zu) of a linked block of %zu leaves it linked", c, n); } break; }
	    case 4: case 5: case 6: { op = "resize"; size_t c = R.chance (1, 3) ? pos : R.size (mx); f = R.below (3); if (f == 0) v.resize (c, true); else if (f == 1) v.resize (c, false); else v.resize (c);
		VC (v.size() == c, "size", "resize(%zu) gives size %zu", c, size_t(v.size())); m.resize (c, 0); if (c > n) { pick (n, c); regained (n); } break; }
	    case 7: case 8: case 9: case 10: { op = "insert"; size_t c = R.chance (1, 8) ? R.size (g_big ? g_big / 4 : mx) : R.below (9); f = c > n - pos;
		memblock::iterator r = v.insert (cv.iat (pos), c); VC (r == v.iat (pos), "returned-iterator", "insert at %zu returned offset %td", pos, r - v.begin());
		m.insert (pos, c, 0); VC (v.size() == m.n, "size", "insert of %zu at %zu of %zu gives size %zu", c, pos, n, size_t(v.size())); pick (pos, pos + c); for (size_t i = pos; i < pos + c; ++i) r[i - pos] = m[i]; break; }
	    case 11: case 12: case 13: { op = "erase"; memblock::iterator r = v.erase (cv.iat (pos), len); VC (r == v.iat (pos), "returned-iterator", "erase at %zu returned offset %td", pos, r - v.begin()); m.erase (pos, len); f = len == n; break; }
	    case 14: op = "clear"; v.clear(); m.clear(); break;
	    case 15: op = "shrink_to_fit"; v.shrink_to_fit(); promised = 0; if (!waslinked) VC (v.capacity() >= n && (n || !v.capacity() || v.data()), "shrink_to_fit", "capacity %zu of %zu", size_t(v.capacity()), n); break;
	    case 16: op = "deallocate"; drop(); break;
	    case 17: { op = "manage"; f = R.below (3); if (!v.is_linked()) drop(); else v.unlink();
		MB t = bytes (mx); if (!t.n) t.push ('m'); char* p = (char*) malloc (t.n); memcpy (p, t.p, t.n);
		if (f == 0) v.manage (p, t.n); else if (f == 1) { memlink l (p, t.n); v.manage (l); } else { memlink l; l.link (static_cast<void*>(p), t.n); v.manage (l); }
		m = t; promised = t.n; VC (v.data() == p && !v.is_linked(), "manage", "the block does not use the memory it was given"); break; }
	    case 18: case 19: case 20: case 21: { op = "link"; f = R.below (7); if (!v.is_linked()) drop();
		MB t = bytes (mx); const bool lrw = R.chance (1, 3); char* p = lend (t, lrw); const char* cp = p;
		switch (f) {
		    case 0: v.link (cp, t.n); break;
		    case 1: v.link (p, t.n); break;
		    case 2: { cmemlink l (cp, t.n); v.link (l); break; }
		    case 3: { memlink l (p, t.n); v.link (l); break; }
		    case 4: v.link (cp, cp + t.n); break;
		    case 5: v.link (p, p + t.n); break;
		    default: v.relink (cp, t.n); break;
		}
		m = t; promised = 0; VC (v.data() == p && v.is_linked(), "link", "the block is not linked to the memory"); break; }
	    case 22: op = "copy_link"; v.copy_link(); VC (!n || !v.is_linked(), "copy_link", "a block of %zu stays linked", n); break;
	    case 23: { op = "swap"; MB t = bytes (mx); memblock o; f = R.next() & 1; if (f) o.link (lend (t, false), t.n); else o.assign (place (t), t.n);
		switch (R.below (3)) { case 0: v.swap (o); break; case 1: o.swap (v); break; default: ustl::swap (v, o); }
		check (o, m, "swap (other)"); VC (o.is_linked() == waslinked && v.is_linked() == (f || !t.n), "swap", "ownership"); m = t; promised = 0; break; }
	    case 24: { op = "unlink"; f = waslinked; char* p = v.data(); v.unlink(); if (!waslinked) free (p); m.clear(); promised = 0; VC (!v.data() && v.is_linked(), "unlink", "pointer remains"); break; }
	    case 25: { op = "fill"; if (waslinked && !writable (v.data())) return; size_t es = 1 + R.below (6); size_t c = es ? len / es : 0; char pat [8]; for (unsigned i = 0; i < 8; ++i) pat[i] = R.next();
		v.fill (cv.iat (pos), pat, es, c); for (size_t i = 0; i < c * es; ++i) m[pos + i] = pat[i % es]; f = es; if (waslinked) relend (v.data()); break; }
	    case 26: { op = "read/write"; f = R.below (4);
		const size_t sz = v.stream_size(), e = (4 + n + 3) / 4 * 4; VC (sz == e, "stream_size", "%zu for %zu bytes", sz, n);
		char* st = (char*) guard_alloc (e); memset (st, 0x55, e);
		{ ustl::ostream os (st, e); cv.write (os); VC (os.pos() == e, "write", "%zu bytes of %zu written", size_t(os.pos()), e); }
		uint32_t wn; memcpy (&wn, st, 4); VC (wn == n && (!n || !memcmp (st + 4, m.p, n)), "write", "wrong bytes for %zu", n);
		{ ustl::istream is (st, e); MB t = bytes (50);
		  if (f == 0) { memblock o (place (t), t.n); o.read (is); check (o, m, "read"); }
		  else if (f == 1) { memblock o; o.link (lend (t, false), t.n); o.read (is); check (o, m, "read into a linked block"); VC (n == 0 || !o.is_linked(), "read", "still linked"); }
		  else if (f == 2) { char* w = (char*) arena (e + 64); memset (w, 3, e + 64); memlink l (w + 8, n + R.below (30)); l.read (is); VC (l.size() == n && (!n || !memcmp (w + 8, m.p, n)), "read", "memlink read"); for (size_t i = 0; i < 8; ++i) VC (w[i] == 3 && w[8 + n + i] == 3, "read", "memlink read wrote outside"); }
		  else { if (!n) break; char w [16]; memset (w, 3, 16); memlink l (w, R.below (n < 15 ? n : 15)); const size_t ls = l.size(); bool t2 = false; try { l.read (is); } catch (ustl::length_error&) { t2 = true; } VC (t2 && l.size() == ls, "read", "memlink read of %zu into %zu did not throw", n, ls); for (size_t i = 0; i < 16; ++i) VC (w[i] == 3, "read", "memlink read into too small memory wrote"); break; }
		  VC (is.pos() == e, "read", "position %zu of %zu", size_t(is.pos()), e); }
		if (n) { // into itself, from a shortened copy: reported and harmless
		    size_t cut = R.below (e - 3) ; ustl::istream is (st, cut); is.exceptions (0); memblock o (place (m), n); o.read (is); VC (cut >= 4 + n || is.fail(), "read", "%zu of %zu bytes read without failure", cut, e); }
		guard_free (st, e); break; }
	    case 27: { op = "text_write"; ustl::ostringstream os; cv.text_write (os); const ustl::string& s = os.str(); VC (s.size() == n && (!n || !memcmp (s.data(), m.p, n)), "text_write", "%zu bytes of %zu", size_t(s.size()), n); break; }
	    case 28: { op = "file"; char fn [300]; snprintf (fn, sizeof(fn), "%s/blk", g_scratch); f = R.below (3);
		if (R.chance (1, 2)) { memblock junk (3 * n + 1); memset (junk.begin(), 9, junk.size()); junk.write_file (fn); }
		if (f < 2) v.write_file (fn); else { cmemlink l (cv); l.write_file (fn, 0600); }
		{ int fd = open (fn, O_RDONLY); char* t = (char*) arena (n + 16); ssize_t g = ::read (fd, t, n + 16); close (fd); VC (g == ssize_t(n) && (!n || !memcmp (t, m.p, n)), "write_file", "the file has %zd bytes, the block %zu", g, n); }
		MB t = bytes (60); memblock o; if (f & 1) o.link (lend (t, false), t.n); else o.assign (place (t), t.n);
		o.read_file (fn); check (o, m, "read_file");
		if (R.chance (1, 2)) { v.read_file (fn); }
		if (R.chance (1, 4)) { bool th = false; try { o.read_file ("/nonexistent/file"); } catch (ustl::file_exception&) { th = true; } VC (th, "read_file", "no exception for a missing file"); check (o, m, "failed read_file"); }
		remove (fn); break; }
	    case 29: { op = "compare"; f = R.below (3); MB t (m); bool same = true; if (f == 1 && t.n) { t[R.below (t.n)] ^= 1 << R.below (8); same = false; } else if (f == 2) { t.push (0); same = false; }
		cmemlink l (place (t), t.n); VC ((cv == l) == same && (l == cv) == same, "compare", "operator== of %zu", n);
		if (waslinked) break;
		bool th = false; memlink x; try { x.link (static_cast<const void*>(nullptr), 5); } catch (ustl::bad_alloc&) { th = true; } VC (th && !x.size(), "link", "link to nullptr of 5 bytes");
		break; }
	}
	trace ("%s.%u", op, f); check (op);
	sig (hmix (hbytes (op, strlen (op)), hmix (f, hmix (waslinked, hmix (b->is_linked(), hmix (m.n > 64 ? 65 + (m.n > 1000) : m.n > 8 ? 9 : m.n, pos == 0 ? 0 : pos == n ? 1 : 2))))));
	if (want_sample()) sample ("%s form %u at %zu: size %zu to %zu, linked %d to %d", op, f, pos, n, m.n, waslinked, b->is_linked());
    }
};
VF_CASE (c04_big_memblock, 60, 600) { static const size_t sz [] = { 6000, 20000, 100000, 300000, 1500000, 3000000 }; g_big = sz [R.below (R.chance (1, 4) ? 6 : 4)]; { Arr<Foreign> none; lent.swap (none); } BState s; s.run(); { Arr<Foreign> none; lent.swap (none); } }
VF_CASE (c04_memblock, 6000, 30000) { { Arr<Foreign> none; lent.swap (none); } BState s; s.run(); { Arr<Foreign> none; lent.swap (none); } }

// links of memlink and cmemlink edit the linked storage within its bounds
void links (void)
{
    MB m = bytes (R.chance (1, 20) ? 3000 : 60); char* p = ro_copy (m.p, m.n, true); size_t base = 0;
    memlink l (p, m.n); const memlink& cl = l;
    unsigned steps = 1 + R.below (12);
    while (steps--) {
	size_t n = m.n, pos = R.pos (n), len = R.chance (1, 4) ? R.below (9) : R.below (n - pos + 1); if (len > n - pos) len = n - pos; unsigned k = R.below (8); const char* op = "?";
	switch (k) {
	    case 0: { op = "insert"; l.insert (cl.iat (pos), len); MB t (m); for (size_t i = pos; i + len < n; ++i) t[i + len] = m[i]; m = t; for (size_t i = pos; i < pos + len; ++i) m[i] = l.begin()[i]; break; }
	    case 1: { op = "erase"; l.erase (cl.iat (pos), len); MB t (m); for (size_t i = pos; i + len < n; ++i) t[i] = m[i + len]; m = t; for (size_t i = n - len; i < n; ++i) m[i] = l.begin()[i]; break; }
	    case 2: { op = "fill"; size_t es = R.below (9); size_t c = es ? len / es : R.below (3); char pat [8]; for (unsigned i = 0; i < 8; ++i) pat[i] = R.next(); if (es == 1 || !R.below (2) || c != 1) l.fill (cl.iat (pos), pat, es, c); else l.fill (cl.iat (pos), pat, es); for (size_t i = 0; i < c * es; ++i) m[pos + i] = pat[i % es]; break; }
	    case 3: op = "resize"; l.resize (pos); m.n = pos; break;
	    case 4: { op = "link part"; l.link (p + base + pos, len); base += pos; m.erase (0, pos); m.n = len; break; }
	    case 5: { op = "copies"; memlink a (l); cmemlink b (l); memlink c (b), d; d = l; memlink e; e = b; cmemlink g; g = l; memlink h; h.link (l); memlink i2; i2.link (l.begin(), l.end());
		VC (a == l && b == l && c == l && d == l && e == l && g == l && h == l && i2 == l && a.data() == l.data() && b.data() == l.data() && c.begin() == l.begin() && d.end() == l.end() && e.size() == n && g.size() == n && h.data() == l.data() && i2.data() == l.data() && i2.size() == n, "copies", "of a link to %zu", n); break; }
	    case 6: { op = "swap"; char q [4] = {1,2,3,4}; memlink o (q, 4); o.swap (l); VC (l.size() == 4 && l.data() == q && o.size() == n && o.data() == p + base, "swap", "of %zu", n); if (R.chance (1, 2)) l.swap (o); else ustl::swap (l, o); cmemlink x (q, 3), y (p + base, n); if (R.chance (1, 2)) x.swap (y); else ustl::swap (x, y); VC (y.size() == 3 && y.data() == q && x.data() == p + base && x.size() == n, "swap", "cmemlink"); x.unlink(); VC (!x.size() && !x.data() && x.empty(), "unlink", "size %zu", size_t(x.size())); break; }
	    default: { op = "write"; char* st = (char*) guard_alloc ((n + 7) / 4 * 4); { ustl::ostream os (st, (n + 7) / 4 * 4); os << l; } uint32_t w; memcpy (&w, st, 4); VC (w == n && (!n || !memcmp (st + 4, m.p, n)), "write", "%zu", n); guard_free (st, (n + 7) / 4 * 4); break; }
	}
	ops();
	VC (l.size() == m.n && l.data() == p + base && l.writable_size() == m.n && l.max_size() == m.n, "size", "after %s %zu, expected %zu", op, size_t(l.size()), m.n);
	VC (!m.n || !memcmp (l.data(), m.p, m.n), "content", "after %s: %s, expected %s", op, show (l.data(), m.n), show (m.p, m.n));
	sig (hmix (k, hmix (n > 64, hmix (pos == 0, hmix (len == 0, pos + len == n)))));
	if (!m.n) { m = bytes (60); p = ro_copy (m.p, m.n, true); base = 0; l.link (p, m.n); }
    }
}
VF_CASE (c04_memlink, 2000, 10000) { links(); }
VF_CASE (c04_big_memlink, 60, 600) { static const size_t sz [] = { 6000, 20000, 100000, 300000, 1500000, 3000000 }; g_big = sz [R.below (R.chance (1, 4) ? 6 : 4)]; links(); }

// vectors of plain elements linked to foreign memory
template <typename T> void vlink (void)
{
    typedef Elem<T> E; typedef ustl::vector<T> V;
    { Arr<Foreign> none; lent.swap (none); }
    Arr<T> src; size_t n0 = R.size (40); for (size_t i = 0; i < n0; ++i) src.push (E::mk (1 + R.below (200)));
    MB raw; raw.insert (0, (const char*) src.p, n0 * sizeof(T));
    const bool rw = R.chance (1, 3);
    T* p = (T*) lend (raw, rw); const T* cp = p;
    Arr<int> m; for (size_t i = 0; i < n0; ++i) m.push (E::val (src[i]));
    {
	V v; V keep; const V& cv = v;
	unsigned lf = R.below (6);
	switch (lf) {
	    case 0: v.link (cp, n0); break;
	    case 1: v.link (p, n0); break;
	    case 2: v.link (cp, cp + n0); break;
	    case 3: v.link (p, p + n0); break;
	    case 4: keep.link (cp, n0); v.link (keep); break;
	    default: keep.link (cp, n0); v.link (static_cast<const V&>(keep)); break;
	}
	VC (v.is_linked() && cv.begin() == cp && v.size() == n0, "link", "vector<%s> link form %u", E::name(), lf);
	unsigned steps = 1 + R.below (8);
	while (steps--) {
	    size_t n = m.n, pos = R.pos (n), len = R.below (n - pos + 1); int x = 1 + R.below (200); unsigned k = R.below (20); const char* op = "?"; const bool was = v.is_linked();
	    switch (k) {
		case 0: op = "push_back"; { T t (E::mk (x)); v.push_back (t); } m.push (x); break;
		case 1: op = "push_back own"; if (!n) continue; v.push_back (cv.at (R.below (1) + pos % n)); m.push (m[pos % n]); break;
		case 2: op = "pop_back"; if (!n) continue; v.pop_back(); m.pop(); break;
		case 3: op = "insert"; { T t (E::mk (x)); v.insert (cv.iat (pos), t); } m.insert (pos, 1, x); break;
		case 4: op = "insert n"; { T t (E::mk (x)); v.insert (cv.iat (pos), 5, t); } m.insert (pos, 5, x); break;
		case 5: { op = "insert range"; T t [3] = { E::mk (1), E::mk (2), E::mk (x) }; v.insert (cv.iat (pos), t, t + 3); int y [3] = { 1, 2, x }; m.insert (pos, y, 3); break; }
		case 6: op = "erase"; if (pos == n) continue; v.erase (cv.iat (pos)); m.erase (pos, 1); break;
		case 7: op = "erase range"; v.erase (cv.iat (pos), cv.iat (pos + len)); m.erase (pos, len); break;
		case 8: op = "resize down"; v.resize (pos); m.n = pos; break;
		case 9: op = "resize up"; { T t (E::mk (x)); v.resize (n + 4, t); } m.resize (n + 4, x); break;
		case 10: op = "reserve"; v.reserve (n + R.below (9)); break;
		case 11: op = "copy_link"; v.copy_link(); break;
		case 12: op = "emplace_back"; v.emplace_back (E::mk (x)); m.push (x); break;
		case 13: op = "emplace"; v.emplace (cv.iat (pos), E::mk (x)); m.insert (pos, 1, x); break;
		case 14: op = "clear"; v.clear(); m.clear(); break;
		case 15: { op = "assign"; T t [3] = { E::mk (1), E::mk (2), E::mk (x) }; v.assign (t, t + 3); m.clear(); m.push (1); m.push (2); m.push (x); break; }
		case 16: { op = "assign n"; if (was && rw && n > 3) continue; T t (E::mk (x)); v.assign (3, t); m.clear(); m.resize (3, x); break; }
		case 17: { op = "copy"; V c (v); VC (c == v && (!n || c.begin() != v.begin()), "copy", "vector<%s> of %zu", E::name(), n); c.resize (n + 1); break; }
		case 18: { op = "copy assign"; V c; c = cv; VC (c == v && (!n || c.cbegin() != v.cbegin()), "copy", "vector<%s> of %zu", E::name(), n); v = cv; break; }
		default: { op = "push_back rvalue"; v.push_back (E::mk (x)); m.push (x); break; }
	    }
	    trace ("%s", op); ops();
	    VC (v.size() == m.n, "vector-size", "vector<%s> linked: after %s size %zu, expected %zu", E::name(), op, size_t(v.size()), m.n);
	    for (size_t i = 0; i < m.n; ++i) VC (E::val (cv[i]) == m[i], "vector-content", "vector<%s> linked: after %s element %zu of %zu is %d, expected %d", E::name(), op, i, m.n, E::val (cv[i]), m[i]);
	    check_lent (op);
	    VC (!(m.n > n0) || !v.is_linked(), "vector-linked", "vector<%s> has grown to %zu and is still linked", E::name(), m.n);
	    sig (hmix (k, hmix (was, hmix (v.is_linked(), hmix (sizeof(T), hmix (pos == 0, n > 8))))));
	}
	if (keep.is_linked()) keep.unlink();
    }
    check_lent ("destruction"); { Arr<Foreign> none; lent.swap (none); }
}
VF_CASE (c04_vector, 6000, 30000)
{
    switch (R.below (6)) {
	case 0: vlink<uint8_t>(); break;
	case 1: vlink<uint16_t>(); break;
	case 2: vlink<int>(); break;
	case 3: vlink<double>(); break;
	case 4: vlink<P3>(); break;
	default: vlink<P40>(); break;
    }
    // managed memory is owned: changed in place and freed once
    if (R.chance (1, 4)) {
	ustl::vector<int> v; size_t n = 1 + R.below (20); int* p = (int*) malloc (n * sizeof(int)); for (size_t i = 0; i < n; ++i) p[i] = i;
	v.manage (p, n); VC (!v.is_linked() && v.size() == n && v.capacity() == n && v.begin() == p, "manage", "vector of %zu", n);
	if (R.chance (1, 2)) { v.push_back (-1); for (size_t i = 0; i < n; ++i) VC (v[i] == int(i), "manage", "element %zu", i); VC (v[n] == -1, "manage", "pushed"); }
	if (R.chance (1, 3)) v.deallocate();
	ops();
    }
    // a string over a foreign buffer
    MB t = bytes (40); if (t.n) {
	{ Arr<Foreign> none; lent.swap (none); } char* p = lend (t, R.next() & 1); ustl::string s; s.link (p, t.n);
	MB m (t); unsigned steps = 1 + R.below (5);
	while (steps--) {
	    size_t n = m.n, pos = R.pos (n), len = R.below (n - pos + 1); char c = R.next();
	    switch (R.below (9)) {
		case 0: s += c; m.push (c); break;
		case 1: s.insert (int(pos), 1, c); m.insert (pos, 1, c); break;
		case 2: s.erase (uoff_t(pos), len); m.erase (pos, len); break;
		case 3: s.replace (pos, len, "abc", 3); m.erase (pos, len); m.insert (pos, "abc", 3); break;
		case 4: s.resize (n + 3); m.resize (n + 3, 0); for (size_t i = n; i < n + 3; ++i) s[i] = 0; break;
		case 5: s.append ("xyz", 3); m.insert (n, "xyz", 3); break;
		case 6: s.reserve (n + 9); break;
		case 7: s.copy_link(); break;
		default: { ustl::string o (s); o += 'q'; break; }
	    }
	    ops(); VC (s.size() == m.n && (!m.n || !memcmp (s.cdata(), m.p, m.n)), "string", "%s, expected %s", show (s.cdata(), s.size()), show (m.p, m.n));
	    check_lent ("string edit");
	}
	{ Arr<Foreign> none; lent.swap (none); }
    }
}
}
