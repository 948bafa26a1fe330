// Text input against an independent left-to-right parser working on a
// terminated copy; the stream sees bytes that end at an inaccessible page.
#include "itext.h"
using namespace vf;
using namespace vf::itext;
static void parse (void) {
    Arr<char> b; P p; strcpy (p.del, " \t\n\r;:,.?"); p.flags = 0; p.pos = 0;
    text (b, p.del); p.n = b.n; p.t = ctext (b);
    char* t = ro_copy (b.p, b.n);
    ustl::string own; ustl::istringstream is;
    switch (R.below (4)) {
	case 0: is.link (t, b.n); break;
	case 1: { ustl::cmemlink l (t, b.n); is.link (l); } break;
	case 2: own.assign (b.p, b.n); is.str (own); break;
	default: is.relink (t, b.n);
    }
    for (unsigned i = 0, ns = 3 + R.below (40); i < ns; ++i) {
	const unsigned op = R.below (NOPS); const size_t p0 = p.pos;
	trace ("op %u at %zu of %zu: %s", op, p.pos, p.n, show (p.t + p.pos, p.n - p.pos < 16 ? p.n - p.pos : 16));
	step (is, p, op);
	ops();
	VC (is.pos() == p.pos && size_t (is.tellg()) == p.pos && is.remaining() == p.n - p.pos, "position", "operation %u at %zu leaves position %zu, expected %zu (text %s)", op, p0, size_t(is.pos()), p.pos, show (p.t + p0, p.n - p0 < 30 ? p.n - p0 : 30));
	if (p.pos < p.n && R.chance (1, 3)) is.clear();
	sig (hmix (op, hmix (p.pos - p0 > 20 ? 20 : p.pos - p0, hmix (p.pos == p.n, hmix (p.flags, hbytes (p.del, strlen (p.del)))))));
    }
    ustl::string whole (is.str()); VC (whole.size() == p.n && !memcmp (whole.data(), b.p, b.n), "str", "str() has %zu bytes of %zu", whole.size(), b.n);
    if (R.chance (1, 4)) { is.sync(); VC (!is.remaining(), "sync", "sync leaves %zu bytes", size_t(is.remaining())); }
    if (want_sample()) sample ("%zu characters starting %s", b.n, show (b.p, b.n < 40 ? b.n : 40));
}
VF_CASE(c15_parse, 5000, 120000) { parse(); }
// Words, quotes, numbers and runs of delimiters of hundreds to tens of thousands of characters
VF_CASE(c15_big, 200, 4000) { static const size_t sz [] = { 100, 300, 700, 5000, 20000, 70000 }; g_big = sz [R.below (R.chance (1, 3) ? 6 : 4)]; if (g_big == 20000 && R.chance (1, 2)) g_big = 70000; parse(); }
// a known list of values printed with separators comes back as the same list; construction forms
VF_CASE(c15_list, 800, 20000) {
    long v [40]; double d [40]; char t [4000]; size_t at = 0; const unsigned n = R.below (40), how = R.below (3); t[0] = 0;
    for (unsigned i = 0; i < n; ++i) {
	v[i] = R.chance (1, 2) ? R.range (-1000, 1000) : long (R.next() >> R.below (64)); d[i] = R.range (-99999, 99999) / 64.0;
	if (how == 0) at += sprintf (t + at, R.chance (1, 2) ? "%ld," : "%ld ; ", v[i]); else if (how == 1) at += sprintf (t + at, "%.17g\t", d[i]); else at += sprintf (t + at, "%ld,%.9f ", v[i], d[i]);
    }
    char* z = ro_copy (t, at + 1); ustl::cmemlink l (z, at);
    ustl::istringstream i1 (z), i2 (z, at), i3 (l); ustl::istringstream& is = *(R.chance (1, 3) ? &i1 : R.chance (1, 2) ? &i2 : &i3);
    VC (i1.size() == at && i2.size() == at && i3.size() == at && i1.good() && !i1.exceptions(), "construct", "istringstream over %zu bytes has %zu, %zu, %zu", at, size_t(i1.size()), size_t(i2.size()), size_t(i3.size()));
    for (unsigned i = 0; i < n; ++i) {
	if (how != 1) { long x = 0; is >> x; VC (x == v[i], "list", "value %u of %u is %ld, written %ld", i, n, x, v[i]); }
	if (how != 0) { double x = 0; is >> x; VC (x == d[i], "list", "value %u of %u is %g, written %g", i, n, x, d[i]); }
	ops();
    }
    sig (hmix (n, how));
}
// with exceptions on, running out throws, and nothing is read past the end
VF_CASE(c15_throwing, 800, 20000) {
    Arr<char> b; P p; strcpy (p.del, " \t\n\r;:,.?"); text (b, p.del);
    char* t = ro_copy (b.p, b.n); ustl::istringstream is (t, b.n); is.exceptions (B::allbadbits);
    for (unsigned i = 0; i < 60; ++i) {
	const size_t p0 = is.pos();
	try { switch (R.below (8)) {
	    case 0: { int v; is >> v; } break; case 1: { double v; is >> v; } break; case 2: { ustl::string s; is >> s; } break; case 3: { bool v; is >> v; } break;
	    case 4: { char c; is.get (c); } break; case 5: { ustl::string s; is.getline (s); } break; case 6: is.ignore (5); break; default: { wchar_t c; is >> c; } }
	} catch (ustl::stream_bounds_exception&) { VC (is.fail(), "throw", "thrown without failbit"); sig (i); }
	ops(); VC (is.pos() <= b.n && is.pos() >= p0, "position", "position %zu of %zu after %zu", size_t(is.pos()), b.n, p0);
    }
}
// conversions of strings to numbers
VF_CASE(c15_stoi, 1500, 40000) {
    Arr<char> b; const size_t k = R.below (3); for (size_t i = 0; i < k; ++i) b.push (" \t\n"[R.below (3)]); token (b); if (R.chance (1, 3)) token (b);
    for (size_t i = 0; i < b.n; ++i) if (b[i] == '(') b[i] = 'q';
    const char* t = ctext (b); ustl::string s; s.assign (t, b.n); static const int bs[] = { 10, 16, 8, 0, 2, 36, 7 }; const int base = bs[R.below (7)];
    char* e; size_t idx; 
    #define ST(f,g,T) do { T x = (T) g (t, &e, base); idx = 99; T y = ustl::f (s, &idx, base), w = ustl::f (s, nullptr, base); VC (x == y && x == w && idx == size_t (e - t), "stoi", #f "(%s, base %d) gave %lld at %zu, expected %lld at %zu", show (t, b.n), base, (long long) y, idx, (long long) x, size_t (e - t)); if (base == 10) VC (ustl::f (s) == x, "stoi", #f "(%s)", show (t, b.n)); ops(); } while (0)
    ST (stoi, strtol, int); ST (stol, strtol, long); ST (stoul, strtoul, unsigned long); ST (stoll, strtoll, long long); ST (stoull, strtoull, unsigned long long);
    #define SF(f,g,T) do { T x = g (t, &e); idx = 99; T y = ustl::f (s, &idx), w = ustl::f (s); VC (same (x, y) && same (x, w) && idx == size_t (e - t), "stod", #f "(%s) gave %g at %zu, expected %g at %zu", show (t, b.n), double (y), idx, double (x), size_t (e - t)); ops(); } while (0)
    SF (stod, strtod, double); SF (stof, strtof, float); SF (stold, strtold, long double);
    sig (hmix (base, hmix (e - t, b.n > 12 ? 12 : b.n)));
}
