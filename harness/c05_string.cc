// C05: strings edit as ideal byte strings and always end in NUL.
#include "vf.h"
using namespace vf;
using ustl::string;
namespace {
typedef Arr<char> MS;

struct Str {
    string* s; MS m; uint64_t mem [(sizeof(string) + 7) / 8];
    char fill (void) { static const char al[] = "abcxyz\0\x80\xff 019%\n"; return R.chance (1, 3) ? char(R.next()) : al[R.below (sizeof(al) - 1)]; }
    // a random text; the copy in foreign memory ends at an inaccessible page now and then
    MS text (size_t mx, bool nonul = false) {
	MS t; size_t n = R.size (mx); t.grow (n);
	for (size_t i = 0; i < n; ++i) { char c = fill(); if (nonul && !c) c = 'n'; t.push (c); }
	return t;
    }
    const char* place (const MS& t, bool z) {
	MS u (t); if (z) u.push (0);
	if (R.chance (1, 4)) return ro_copy (u.p, u.n);
	char* a = (char*) arena (u.n + 1); memcpy (a, u.p, u.n); a[u.n] = 'X'; return a;
    }
    void check (const string& o, const MS& mm, const char* op) {
	ops();
	VC (o.size() == mm.n, "size", "after %s size() is %zu, the ideal string has %zu; %s vs %s", op, size_t(o.size()), mm.n, show (o.begin(), o.size()), show (mm.p, mm.n));
	VC (o.empty() == !mm.n, "empty", "after %s empty() at size %zu", op, mm.n);
	VC (!mm.n || !memcmp (o.begin(), mm.p, mm.n), "content", "after %s: %s, expected %s", op, show (o.begin(), o.size()), show (mm.p, mm.n));
	VC (o.c_str() == o.begin() && o.cdata() == o.begin() && o.end() == o.begin() + mm.n && o.cbegin() == o.begin() && o.cend() == o.end(), "iterators", "after %s", op);
	if (!o.is_linked()) {
	    VC (o.c_str()[mm.n] == 0, "terminator", "after %s the byte after the last of %zu is 0x%02x", op, mm.n, (unsigned char) o.c_str()[mm.n]);
	    VC (o.capacity() >= o.size(), "capacity", "after %s capacity() %zu < size() %zu", op, size_t(o.capacity()), size_t(o.size()));
	}
	if (mm.n) {
	    size_t k = R.below (mm.n);
	    VC (o.at (k) == mm[k] && o.begin()[k] == mm[k] && *o.iat (k) == mm[k] && o.front() == mm[0] && o.back() == mm[mm.n-1], "index", "after %s access to %zu of %zu", op, k, mm.n);
	}
	if (R.chance (1, 10)) {
	    size_t i = mm.n;
	    for (string::const_reverse_iterator r = o.rbegin(); r != o.rend(); ++r) { --i; VC (i < mm.n && *r == mm[i], "reverse", "at %zu", i); }
	    VC (i == 0, "reverse", "stopped at %zu", i); VC (o.crbegin() == o.rbegin() && o.crend() == o.rend() && o.cbegin() == o.begin() && o.cend() == o.end() && (o.is_linked() || o.max_size() >= mm.n), "iterators", "constant iterators");
	    VC (o.iat (mm.n + 5) == o.end() && o.iat (string::npos) == o.end(), "iterators", "iat beyond the end");
	}
    }
    void construct (void) {
	unsigned k = R.below (12); m.clear();
	switch (k) {
	    case 0: s = new (mem) string; break;
	    case 1: { MS t = text (80, true); s = new (mem) string (place (t, true)); m = t; break; }
	    case 2: { MS t = text (80); s = new (mem) string (place (t, false), t.n); m = t; break; }
	    case 3: { MS t = text (80); const char* p = place (t, false); s = new (mem) string (p, p + t.n); m = t; break; }
	    case 4: { size_t n = R.size (80); char c = fill(); s = new (mem) string (n, c); m.resize (n, c); break; }
	    case 5: { MS t = text (80); string o (place (t, false), t.n); s = new (mem) string (o); m = t; check (o, t, "being copied"); break; }
	    case 6: { MS t = text (80); string o (place (t, false), t.n); size_t a = R.below (t.n + 3), b = R.below (t.n + 3); if (R.chance (1, 3)) { b = t.n; s = new (mem) string (o, a); } else s = new (mem) string (o, a, b); for (size_t i = a; i < t.n && i < a + b; ++i) m.push (t[i]); break; }
	    case 7: { MS t = text (80); string o (place (t, false), t.n); s = new (mem) string (ustl::move (o)); m = t; check (o, MS(), "moved from"); VC (o.c_str() && !*o.c_str(), "moved-from", "c_str"); o += "usable"; break; }
	    case 8: { s = new (mem) string ({ 'l', 'i', '\0', 's', 't' }); const char* l = "li\0st"; m.insert (0, l, 5); break; }
	    case 9: { MS t = text (80); ustl::cmemlink l (place (t, false), t.n); s = new (mem) string (l); m = t; break; }
	    case 10: { MS t = text (80, true); string o (place (t, true)); s = new (mem) string (o); m = t; break; }
	    default: { s = new (mem) string ((const char*) nullptr); break; }
	}
	trace ("ctor%u[%zu]", k, m.n);
	check (*s, m, "construction");
    }
    void link (void) {	// the string becomes a link to read-only foreign memory
	MS t = text (80); bool z = R.chance (2, 3); if (z) for (size_t i = 0; i < t.n; ++i) if (!t[i]) t[i] = 'n';
	MS u (t); if (z) u.push (0);
	const char* p = ro_copy (u.p, u.n);
	string o; 
	switch (R.below (4)) { case 0: o.link (p, t.n); break; case 1: o.link (ustl::cmemlink (p, t.n)); break; case 2: o.link (p, p + t.n); break; default: o.relink (p, t.n); }
	s->swap (o); m = t;
    }
    void step (void) {
	string& v = *s; const string& cv = v; size_t n = m.n, pos = R.pos (n), len = R.below (n - pos + 1); unsigned k = R.below (34), f = 0;
	const char* op = "?"; size_t mx = R.chance (1, 20) ? 700 : 24; if (g_big && R.chance (1, 3)) mx = g_big; bool waslinked = v.is_linked();
	switch (k) {
	    case 0: case 1: { op = "assign"; MS t; f = R.below (14);
		switch (f) {
		    case 0: t = text (mx); v.assign (place (t, false), t.n); break;
		    case 1: t = text (mx, true); v.assign (place (t, true)); break;
		    case 2: { t = text (mx); string o (place (t, false), t.n); v.assign (o); check (o, t, "assign (argument)"); break; }
		    case 3: { MS w = text (mx); string o (place (w, false), w.n); size_t a = R.below (w.n + 2), b = R.below (w.n + 2); v.assign (o, a, b); for (size_t i = a; i < w.n && i < a + b; ++i) t.push (w[i]); break; }
		    case 4: { size_t c = R.size (mx); char x = fill(); v.assign (c, x); t.resize (c, x); break; }
		    case 5: { t = text (mx); const char* p = place (t, false); v.assign (p, p + t.n); break; }
		    case 6: { t = text (mx); string o (place (t, false), t.n); v = static_cast<const string&>(o); check (o, t, "operator= (argument)"); break; }
		    case 7: { char x = fill(); v = x; t.push (x); break; }
		    case 8: t = text (mx, true); v = place (t, true); break;
		    case 9: { v = { 'a', '\0', 'b' }; t.insert (0, "a\0b", 3); break; }
		    case 10: { t = text (mx); string o (place (t, false), t.n); v = ustl::move (o); break; }
		    case 11: { t = text (mx); string o (place (t, false), t.n); v.assign (ustl::move (o)); break; }
		    case 12: v.assign ((const char*) nullptr); break;
		    default: { t.insert (0, "q\0r", 3); v.assign ({ 'q', '\0', 'r' }); break; }
		}
		m = t; break; }
	    case 2: { op = "assign own part"; f = R.below (4); MS t; for (size_t i = 0; i < len; ++i) t.push (m[pos + i]);
		switch (f) { case 0: v.assign (cv.iat (pos), len); break; case 1: v.assign (cv.iat (pos), cv.iat (pos + len)); break; case 2: v.assign (cv, pos, len); break; default: v = cv; t = m; }
		m = t; break; }
	    case 3: case 4: case 5: { op = "append"; f = R.below (16); MS t;
		switch (f) {
		    case 0: t = text (mx); v.append (place (t, false), t.n); break;
		    case 1: t = text (mx, true); v.append (place (t, true)); break;
		    case 2: { t = text (mx); string o (place (t, false), t.n); v.append (o); check (o, t, "append (argument)"); break; }
		    case 3: { MS w = text (mx); string o (place (w, false), w.n); size_t a = R.below (w.n + 2), b = R.below (w.n + 2); v.append (o, a, b); for (size_t i = a; i < w.n && i < a + b; ++i) t.push (w[i]); break; }
		    case 4: { size_t c = R.size (mx); char x = fill(); v.append (c, x); t.resize (c, x); break; }
		    case 5: { t = text (mx); const char* p = place (t, false); v.append (p, p + t.n); break; }
		    case 6: { t = text (mx); string o (place (t, false), t.n); v += o; check (o, t, "operator+= (argument)"); break; }
		    case 7: { char x = fill(); v += x; t.push (x); break; }
		    case 8: t = text (mx, true); v += place (t, true); break;
		    case 9: { v += { 'a', '\0', 'b' }; t.insert (0, "a\0b", 3); break; }
		    case 10: { v.append ({ 'a', '\0', 'c' }); t.insert (0, "a\0c", 3); break; }
		    case 11: { unsigned char x = fill(); v += x; t.push (x); break; }
		    case 12: v.append ((const char*) nullptr); break;
		    case 13: { const char c [4] = { 'i', 'n', 't', 0 }; v.append (c); t.insert (0, c, 3); break; }
		    default: { char x = fill(); v.push_back (x); t.push (x); break; }
		}
		m.insert (n, t.p, t.n); break; }
	    case 6: { op = "append own part"; if (n > 800 + g_big) return; f = R.below (5); MS t; for (size_t i = 0; i < len; ++i) t.push (m[pos + i]);
		switch (f) { case 0: v.append (cv.iat (pos), len); break; case 1: v.append (cv.iat (pos), cv.iat (pos + len)); break; case 2: v.append (cv, pos, len); break; case 3: v += cv; t = m; break; default: v.append (cv); t = m; }
		m.insert (n, t.p, t.n); break; }
	    case 7: case 8: case 9: case 10: { op = "insert"; f = R.below (13); MS t; string::iterator r = nullptr; bool ret = false; size_t cnt = R.below (4); if (R.chance (1, 20)) cnt = R.below (60); if (mx > 900 && cnt > 2) cnt = 2;
		size_t at = R.chance (1, 10) ? n + R.below (3) : pos;
		switch (f) {
		    case 0: { char x = fill(); v.insert (at, cnt, x); t.resize (cnt, x); break; }
		    case 1: t = text (mx, true); v.insert (at, place (t, true)); break;
		    case 2: t = text (mx); v.insert (at, place (t, false), t.n); break;
		    case 3: { t = text (mx); string o (place (t, false), t.n); v.insert (at, o); break; }
		    case 4: { MS w = text (mx); string o (place (w, false), w.n); size_t a = R.below (w.n + 2), b = R.below (w.n + 2); v.insert (at, o, a, b); for (size_t i = a; i < w.n && i < a + b; ++i) t.push (w[i]); break; }
		    case 5: { char x = fill(); v.insert (int(at), cnt, x); t.resize (cnt, x); break; }
		    case 6: t = text (mx); v.insert (int(at), place (t, false), t.n); break;
		    case 7: { char x = fill(); ret = true; at = pos; r = v.insert (cv.iat (pos), cnt, x); t.resize (cnt, x); break; }
		    case 8: { char x = fill(); ret = true; at = pos; r = v.insert (cv.iat (pos), x); t.push (x); break; }
		    case 9: { MS w = text (mx, true); ret = true; at = pos; r = v.insert (cv.iat (pos), place (w, true), cnt); for (size_t i = 0; i < cnt; ++i) t.insert (t.n, w.p, w.n); break; }
		    case 10: { MS w = text (mx); const char* p = place (w, false); ret = true; at = pos; r = v.insert (cv.iat (pos), p, p + w.n, cnt); for (size_t i = 0; i < cnt; ++i) t.insert (t.n, w.p, w.n); break; }
		    case 11: { MS w = text (mx); const char* p = place (w, false); ret = true; at = pos; r = v.insert (cv.iat (pos), p, p + w.n); t = w; break; }
		    default: { ret = true; at = pos; r = v.insert (cv.iat (pos), { 'i', '\0', 'l' }); t.insert (0, "i\0l", 3); break; }
		}
		if (at > n) at = n;
		m.insert (at, t.p, t.n); pos = at;
		if (ret) VC (r == v.iat (pos), "returned-iterator", "insert form %u returned offset %td, expected %zu", f, r - v.begin(), pos);
		break; }
	    case 11: case 12: { op = "erase"; f = R.below (8); string::iterator r = nullptr; bool ret = false;
		switch (f) {
		    case 0: if (!n || pos == n) return; len = 1; ret = true; r = v.erase (cv.iat (pos)); break;
		    case 1: ret = true; r = v.erase (cv.iat (pos), len); break;
		    case 2: v.erase (pos, len); break;
		    case 3: if (R.chance (1, 2)) v.erase (pos); else v.erase (pos, string::npos); len = n - pos; break;
		    case 4: v.erase (int(pos), len); break;
		    case 5: ret = true; r = v.erase (cv.iat (pos), cv.iat (pos + len)); break;
		    case 6: ret = true; r = v.eraser (pos, pos + len); break;
		    default: if (R.chance (3, 4)) return; v.erase(); pos = 0; len = n; break;
		}
		m.erase (pos, len);
		if (ret) VC (r == v.iat (pos), "returned-iterator", "erase form %u returned offset %td, expected %zu", f, r - v.begin(), pos);
		break; }
	    case 13: case 14: case 15: case 16: { op = "replace"; f = R.below (14); MS t; size_t cnt = 1; const string::const_iterator b = cv.iat (pos), e = cv.iat (pos + len);
		bool same = R.chance (1, 3); if (same) mx = len;
		switch (f) {
		    case 0: { t = text (mx); const char* p = place (t, false); v.replace (b, e, p, p + t.n); break; }
		    case 1: { t = text (mx); const char* p = place (t, false); cnt = 1 + R.below (4); v.replace (b, e, p, p + t.n, cnt); break; }
		    case 2: { t = text (mx); string o (place (t, false), t.n); v.replace (b, e, o); check (o, t, "replace (argument)"); break; }
		    case 3: t = text (mx, true); v.replace (b, e, place (t, true)); break;
		    case 4: t = text (mx); v.replace (b, e, place (t, false), t.n); break;
		    case 5: { char x = fill(); cnt = R.below (20); if (same) cnt = len; if (!cnt && !len) return; v.replace (b, e, cnt, x); t.push (x); break; }
		    case 6: { t = text (mx); string o (place (t, false), t.n); v.replace (pos, len, o); break; }
		    case 7: { MS w = text (mx); string o (place (w, false), w.n); size_t a = R.below (w.n + 2), c = R.below (w.n + 2); v.replace (pos, len, o, a, c); for (size_t i = a; i < w.n && i < a + c; ++i) t.push (w[i]); break; }
		    case 8: t = text (mx); v.replace (pos, len, place (t, false), t.n); break;
		    case 9: t = text (mx, true); v.replace (pos, len, place (t, true)); break;
		    case 10: { char x = fill(); cnt = R.below (20); if (same) cnt = len; if (!cnt && !len) return; v.replace (pos, len, cnt, x); t.push (x); break; }
		    case 11: { v.replace (b, e, { 'r', '\0', 'l' }); t.insert (0, "r\0l", 3); break; }
		    case 12: { t = text (mx); if (t.n != len) { t.resize (len, 'z'); } const char* p = place (t, false); v.replace (b, e, p, p + t.n); break; }
		    default: v.replace (b, e, (const char*) nullptr); break;
		}
		m.erase (pos, len); if (t.n == 1 && cnt > 1) { char x = t[0]; t.resize (cnt, x); cnt = 1; } for (size_t i = 0; i < cnt; ++i) m.insert (pos, t.p, t.n);
		break; }
	    case 17: { op = "resize"; size_t nn = R.size (n + 30); v.resize (nn); if (nn > n) { VC (v.size() == nn, "size", "resize(%zu) gives %zu", nn, size_t(v.size())); m.resize (nn, 0); for (size_t i = n; i < nn; ++i) v.begin()[i] = m[i] = char ('a' + i % 26); } else m.resize (nn, 0); len = nn; break; }
	    case 18: { op = "resize(n,c)"; size_t nn = R.size (n + 30); char x = fill(); v.resize (nn, x); m.resize (nn, x); len = nn; break; }
	    case 19: { op = "clear"; if (R.chance (1, 2)) return; v.clear(); m.clear(); break; }
	    case 20: { op = "reserve"; size_t nn = R.size (n + 100); bool x = R.chance (1, 2); v.reserve (nn, x); VC (v.capacity() >= nn, "reserve", "capacity %zu after reserve(%zu)", size_t(v.capacity()), nn);
		if (nn > n && R.chance (1, 2)) { const char* d = v.begin(); while (m.n < nn) { v += 'p'; m.push ('p'); } VC (v.begin() == d, "reserve", "storage moved before the %zu reserved bytes were used", nn); }
		break; }
	    case 21: { op = "shrink_to_fit"; v.shrink_to_fit(); break; }
	    case 22: { op = "swap"; MS t = text (mx); string o (place (t, false), t.n); if (R.chance (1, 2)) v.swap (o); else ustl::swap (v, o); check (o, m, "swap (argument)"); m = t; break; }
	    case 23: { op = "pop_back"; if (!n) return; v.pop_back(); m.pop(); break; }
	    case 24: { op = "substr"; size_t a = R.below (n + 3), b = R.chance (1, 4) ? size_t(string::npos) : R.below (n + 3); MS t; for (size_t i = a; i < n && i - a < b; ++i) t.push (m[i]); string o (b == size_t(string::npos) && R.chance (1, 2) ? cv.substr (a) : cv.substr (a, b)); check (o, t, "substr (result)"); o += 'x'; break; }
	    case 25: { op = "operator+"; if (n > 800 + g_big) return; MS t = text (mx, true); const char* p = place (t, true); MS e; 
		switch (f = R.below (3)) {
		    case 0: { string o (p, t.n); string r (cv + o); e = m; e.insert (n, t.p, t.n); check (r, e, "operator+"); check (o, t, "operator+ (argument)"); break; }
		    case 1: { string r (cv + p); e = m; e.insert (n, t.p, t.n); check (r, e, "operator+ (C string)"); break; }
		    default: { string r (p + cv); e = t; e.insert (t.n, m.p, m.n); check (r, e, "C string + string"); break; }
		}
		break; }
	    case 26: { op = "format"; int rv = 0, ev = 0; MS t = text (R.chance (1, 6) ? 900 : mx > 900 ? mx : 40, true); const size_t rsz = 4096 + 2 * t.n; char* ref = (char*) arena (rsz); const char* p = place (t, true); int i = int (R.bits()); double d = R.range (-100000, 100000) / 7.0; f = R.below (6);
		switch (f) {
		    case 0: ev = snprintf (ref, rsz, "%s", p); rv = v.format ("%s", p); break;
		    case 1: ev = snprintf (ref, rsz, "%d:%5x:%-8u|", i, i, unsigned(i)); rv = v.format ("%d:%5x:%-8u|", i, i, unsigned(i)); break;
		    case 2: ev = snprintf (ref, rsz, "<%s>%.3f<%s>", p, d, p); rv = v.format ("<%s>%.3f<%s>", p, d, p); break;
		    case 3: ev = snprintf (ref, rsz, "%c%c%c", 'a', 0, 'b'); rv = v.format ("%c%c%c", 'a', 0, 'b'); break;
		    case 4: { int w = R.below (300); ev = snprintf (ref, rsz, "%*d%%", w, i); rv = v.format ("%*d%%", w, i); break; }
		    default: ev = snprintf (ref, rsz, "%.*s", int(t.n / 2), p); rv = v.format ("%.*s", int(t.n / 2), p); break;
		}
		VC (rv == ev, "format", "format returned %d, snprintf %d", rv, ev);
		m.clear(); m.insert (0, ref, ev); break; }
	    case 27: { op = "serialization"; size_t sz = cv.stream_size(); ustl::memblock b (sz + 8); memset (b.begin(), 0x77, sz + 8);
		ustl::ostream os (b); cv.write (os); VC (os.pos() == sz, "stream-size", "a string of %zu bytes wrote %zu bytes and announced %zu", n, size_t(os.pos()), sz);
		for (size_t i = 0; i < 8; ++i) VC (b.begin()[sz + i] == 0x77, "stream-size", "written beyond the announced size");
		ustl::istream is (b); string o; if (R.chance (1, 2)) o = "previous content"; o.read (is); VC (is.pos() == sz, "stream-size", "%zu bytes read of %zu", size_t(is.pos()), sz);
		check (o, m, "read from a stream"); if (R.chance (1, 2)) { v.swap (o); } break; }
	    case 28: { op = "link"; link(); waslinked = true; break; }
	    case 29: { op = "element assignment"; if (!n) return; if (v.is_linked()) v.copy_link(); char x = fill(); size_t i = R.below (n); switch (f = R.below (5)) { case 0: v.begin()[i] = x; break; case 1: v.at (i) = x; break; case 2: *v.iat (i) = x; break; case 3: i = 0; v.front() = x; break; default: i = n - 1; v.back() = x; } m[i] = x; break; }
	    case 30: { op = "copy out"; if (!n) return; size_t c = 1 + R.below (n + 4); const bool dfl = R.chance (1, 4); if (dfl) pos = 0; char* b = ro_copy (m.p, n, true); (void) b; char* o = (char*) arena (c + 16); memset (o, 0x33, c + 16);
		size_t want = n - pos < c ? n - pos : c; size_t got = dfl ? cv.copy (o, c) : cv.copy (o, c, pos);
		VC (got == want && (!want || !memcmp (o, m.p + pos, want)), "copy-out", "copy(p,%zu,%zu) of %zu bytes returned %zu", c, pos, n, got);
		for (size_t i = want; i < c + 16; ++i) VC (o[i] == 0x33, "copy-out", "copy wrote %zu bytes beyond", i - want);
		if (c >= 2) { memset (o, 0x33, c + 16); want = n - pos < c - 1 ? n - pos : c - 1; got = dfl ? cv.copyto (o, c) : cv.copyto (o, c, pos);
		    VC (got == want && (!want || !memcmp (o, m.p + pos, want)) && !o[want], "copy-out", "copyto(p,%zu,%zu) of %zu bytes returned %zu", c, pos, n, got);
		    for (size_t i = want + 1; i < c + 16; ++i) VC (o[i] == 0x33, "copy-out", "copyto wrote %zu bytes beyond", i - want); }
		break; }
	    case 31: { op = "copy and edit"; string o (cv); check (o, m, "copy construction"); o += "extra"; o.insert (o.begin(), 'q'); if (o.size() > 8) o.erase (3, 2); MS u (m); u.insert (u.n, "extra", 5); u.insert (0, "q", 1); if (u.n > 8) u.erase (3, 2); check (o, u, "editing a copy"); break; }
	    case 32: { op = "mutable traversal"; if (v.is_linked()) v.copy_link(); size_t i = 0; for (string::iterator it = v.begin(); it != v.end(); ++it, ++i) { VC (*it == m[i], "content", "at %zu", i); *it ^= 1; m[i] ^= 1; } VC (i == n, "iteration", "covers %zu of %zu", i, n); i = n; for (string::reverse_iterator it = v.rbegin(); it != v.rend(); ++it) { --i; VC (i < n && *it == m[i], "reverse", "at %zu", i); *it ^= 1; m[i] ^= 1; } VC (!i, "reverse", "stopped at %zu", i); break; }
	    default: { op = "deallocate"; if (R.chance (3, 4)) return; v.deallocate(); m.clear(); MS t = text (mx); v.assign (place (t, false), t.n); m = t; break; }
	}
	trace ("%s%s/%u@%zu+%zu/%zu", waslinked ? "linked." : "", op, f, pos, len, n);
	sig (hmix (hmix (k, f), hmix (hmix (n > 40 ? 40 + (n > 200) : n, waslinked), hmix (pos == 0 ? 0 : pos == n ? 1 : 2, len > 10 ? 11 : len))));
	check (v, m, op);
	if (m.n > 2500 + 3 * g_big) { v.erase (v.begin() + 100, v.end()); m.resize (100, 0); check (v, m, "shrinking erase"); }
    }
};
}
VF_CASE (c05_edit, 700, 8000)
{
    Str x; x.construct();
    if (want_sample()) sample ("starting from %s", show (x.m.p, x.m.n));
    for (int i = 0; i < 120; ++i) x.step();
    x.s->~string();
}
// Edits of links: one edit right after linking, so that every operation meets linked data
VF_CASE (c05_linked, 500, 5000)
{
    Str x; x.s = new (x.mem) string;
    for (int i = 0; i < 60; ++i) { x.link(); trace ("link[%zu]", x.m.n); x.check (*x.s, x.m, "link"); x.step(); }
    x.s->~string();
}

// The same on strings of thousands to millions of bytes
VF_CASE (c05_big, 40, 400)
{
    static const size_t sz [] = { 3000, 5000, 9000, 30000, 70000, 140000, 400000, 1200000 };
    g_big = sz [R.below (R.chance (1, 4) ? 8 : 5)];
    Str x; x.construct(); x.m = x.text (g_big); x.m.resize (g_big / 2 + R.below (g_big / 2), 'L'); x.s->assign (x.place (x.m, false), x.m.n); x.check (*x.s, x.m, "assignment of a long text");
    for (int i = 0, n = 10 + R.below (40); i < n; ++i) {
	x.step();
	if (x.m.n < g_big / 3) { MS t = x.text (8); t.resize (g_big / 2 + R.below (g_big / 2), char (R.next())); const size_t at = R.pos (x.m.n); x.s->insert (at, x.place (t, false), t.n); x.m.insert (at, t.p, t.n); x.check (*x.s, x.m, "growing"); }
    }
    x.s->~string();
}
