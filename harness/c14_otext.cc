// Text output against an independent rendering of the same request with the C
// library, on growing and on fixed buffers.
#include "elems.h"
#include <wchar.h>
#include <math.h>
using namespace vf;
// Types of the user's own: printed by a table of names, and by their own members
namespace vfu {
enum Colour { red, green, blue, none = 77, minus = -3, far = 0x100, farther = 0x1000001 };
static const char* const c_names[] = { "red", "green", "a longer name for blue", "?" };
struct Point { int x; ustl::string n; unsigned nb; void text_write (ustl::ostringstream& os) const { os << '<' << x << "; " << n << '>'; } };
}
LOOKUP_TEXT_STREAMABLE (vfu::Colour, vfu::c_names, VectorSize(vfu::c_names))
namespace {
typedef ustl::ios_base B;
struct Fmt { unsigned flags, width, prec; char fill; };
struct M { Arr<char> b; size_t pos; Fmt f; };	// b: text written, pos: where the next goes
void put (M& m, const void* p, size_t n) { const char* c = (const char*) p; for (size_t i = 0; i < n; ++i, ++m.pos) { if (m.pos < m.b.n) m.b[m.pos] = c[i]; else m.b.push (c[i]); } }
void puts (M& m, const char* s) { put (m, s, strlen (s)); }
void putc (M& m, char c) { put (m, &c, 1); }

// Integer by hand: sign, base, prefix, padding
void pint (M& m, bool neg, unsigned long long mag, bool isSigned, unsigned bits)
{
    char d [80], pre [8]; unsigned n = 0, np = 0; const Fmt& f = m.f;
    unsigned base = (f.flags & B::hex) ? 16 : (f.flags & B::oct) ? 8 : 10;
    if (base != 10 && neg) { mag = 0 - mag; if (bits < 64) mag &= (1ull << bits) - 1; neg = false; }
    const bool up = base == 16 && (f.flags & B::uppercase);
    const unsigned long long v = mag;
    do { unsigned x = mag % base; d[n++] = x < 10 ? '0' + x : (up ? 'A' : 'a') + x - 10; mag /= base; } while (mag);
    if (neg) pre[np++] = '-';
    else if ((f.flags & B::showpos) && base == 10 && isSigned) pre[np++] = '+';
    if ((f.flags & B::showbase) && v) { if (base == 16) { pre[np++] = '0'; pre[np++] = up ? 'X' : 'x'; } else if (base == 8) d[n++] = '0'; }
    const unsigned len = n + np, pad = f.width > len ? f.width - len : 0;
    const bool left = f.flags & B::left, zero = f.fill == '0' && f.width && !left;
    if (!left && !zero) for (unsigned i = 0; i < pad; ++i) putc (m, ' ');
    put (m, pre, np);
    if (zero) for (unsigned i = 0; i < pad; ++i) putc (m, '0');
    while (n) putc (m, d[--n]);
    if (left) for (unsigned i = 0; i < pad; ++i) putc (m, ' ');
}
template <typename T> void pint (M& m, T v) { pint (m, v < 0, v < 0 ? 0 - (unsigned long long) v : (unsigned long long) v, T(-1) < T(0), sizeof(T) * 8); }
void pflt (M& m, long double v)
{
    static char d [6000]; const Fmt& f = m.f;
    int n = snprintf (d, sizeof(d), (f.flags & B::scientific) ? "%.*LE" : "%.*Lf", int (f.prec), v);
    const bool left = f.flags & B::left, zero = f.fill == '0' && f.width && !left && isfinite (v);
    const int pad = int (f.width) > n ? int (f.width) - n : 0;
    const char* s = d;
    if (!left && !zero) for (int i = 0; i < pad; ++i) putc (m, ' ');
    if (*s == '-') putc (m, *s++);
    if (zero) for (int i = 0; i < pad; ++i) putc (m, '0');
    puts (m, s);
    if (left) for (int i = 0; i < pad; ++i) putc (m, ' ');
}
void pwc (M& m, uint32_t v)
{
    if (v < 0x80) return putc (m, v);
    unsigned n = v < 0x800 ? 2 : v < 0x10000 ? 3 : v < 0x200000 ? 4 : v < 0x4000000 ? 5 : 6;
    char b [8]; for (unsigned i = n; i-- > 1;) { b[i] = 0x80 | (v & 0x3F); v >>= 6; }
    b[0] = (0xFF << (8 - n)) | v; put (m, b, n);
}
//--- rendering by type
void render (M& m, int v) { pint (m, v); }
void render (M& m, unsigned v) { pint (m, v); }
void render (M& m, long v) { pint (m, v); }
void render (M& m, unsigned long v) { pint (m, v); }
void render (M& m, long long v) { pint (m, v); }
void render (M& m, unsigned long long v) { pint (m, v); }
void render (M& m, short v) { pint (m, v); }
void render (M& m, unsigned short v) { pint (m, v); }
void render (M& m, float v) { pflt (m, v); }
void render (M& m, double v) { pflt (m, v); }
void render (M& m, long double v) { pflt (m, v); }
void render (M& m, char v) { putc (m, v); }
void render (M& m, signed char v) { putc (m, v); }
void render (M& m, unsigned char v) { putc (m, v); }
void render (M& m, wchar_t v) { pwc (m, v); }
void render (M& m, bool v) { puts (m, v ? "true" : "false"); }
void render (M& m, const ustl::string& s) { put (m, s.data(), s.size()); }
void render (M& m, const vfu::Colour& c) { puts (m, vfu::c_names [c < 0 || c > 2 ? 3 : int (c)]); }
void render (M& m, const vfu::Point& p) { putc (m, '<'); render (m, p.x); puts (m, "; "); render (m, p.n); putc (m, '>'); }
template <typename A, typename C> void render (M& m, const ustl::pair<A,C>& p) { putc (m, '('); render (m, p.first); putc (m, ','); render (m, p.second); putc (m, ')'); }
template <typename T> void relem (M& m, const T& v) { render (m, v); }
void relem (M& m, const unsigned char& v) { char b[8]; snprintf (b, sizeof(b), v >= 0x20 && v < 0x7F ? "'%c'" : "%d", v); puts (m, b); }
void relem (M& m, const signed char& v) { char b[8]; snprintf (b, sizeof(b), v >= 0x20 && v < 0x7F ? "'%c'" : "%d", v); puts (m, b); }
template <typename C> void rctr (M& m, const C& c) { putc (m, '('); bool first = true; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) { if (!first) putc (m, ','); first = false; relem (m, *i); } putc (m, ')'); }
template <typename T> void render (M& m, const ustl::vector<T>& c) { rctr (m, c); }
template <typename T> void render (M& m, const ustl::list<T>& c) { rctr (m, c); }
template <typename T> void render (M& m, const ustl::set<T>& c) { rctr (m, c); }
template <typename T> void render (M& m, const ustl::multiset<T>& c) { rctr (m, c); }
template <typename A, typename C> void render (M& m, const ustl::map<A,C>& c) { rctr (m, c); }
template <size_t N, typename T> void render (M& m, const ustl::tuple<N,T>& c) { rctr (m, c); }
template <typename T, size_t N> void render (M& m, const ustl::array<T,N>& c) { rctr (m, c); }
template <size_t X, size_t Y, typename T> void render (M& m, const ustl::matrix<X,Y,T>& c) { putc (m, '('); for (size_t y = 0; y < Y; ++y) { putc (m, '('); for (size_t x = 0; x < X; ++x) { if (x) putc (m, ','); render (m, c.begin()[y * X + x]); } putc (m, ')'); } putc (m, ')'); }
template <size_t N> void render (M& m, const ustl::bitset<N>& b) { for (size_t i = N; i--;) putc (m, b.test (i) ? '1' : '0'); }

ustl::string rstr (size_t mx, bool nul = true) { size_t n = g_big && mx > 20 && R.chance (1, 3) ? R.below (g_big) : R.size (mx); // sometimes with more capacity than size
    ustl::string s; s.resize (n); for (size_t i = 0; i < n; ++i) s[i] = nul || R.chance (1, 2) ? R.next() : 'a' + R.below (26); if (!nul) for (size_t i = 0; i < n; ++i) if (!s[i]) s[i] = '.'; if (R.chance (1, 3)) s.reserve (n + 1 + R.below (90)); return s; }
size_t cn (size_t n) { return g_big && R.chance (1, 3) ? R.below (g_big < 3000 ? g_big : 3000) : R.below (n); }	// elements of a container
double rdbl (void)
{
    switch (R.below (9)) {
	case 0: return 0; case 1: return -0.0; case 2: return R.range (-1000, 1000); case 3: return R.range (-1000000, 1000000) / 1024.0;
	case 4: return 1e300 * R.range (-9, 9); case 5: return 1e-300 * R.range (1, 9); case 6: return R.chance (1, 2) ? INFINITY : -INFINITY; case 7: return 0.5 + R.range (-5, 5);
	default: { double d; u64 x = R.next(); memcpy (&d, &x, sizeof(d)); return d == d ? d : 1.25; }
    }
}
void check (ustl::ostringstream& os, M& m, const char* op, bool fin)
{
    ops();
    VC (os.pos() == m.pos, "pos", "after %s position is %zu, expected %zu", op, size_t(os.pos()), m.pos);
    VC (os.good(), "state", "after %s state is %x", op, os.rdstate());
    VC (os.flags() == m.f.flags && os.width() == m.f.width && os.precision() == m.f.prec && os.fill() == m.f.fill, "flags", "after %s flags %x width %u precision %u fill %d, expected %x %u %u %d", op, os.flags(), os.width(), os.precision(), os.fill(), m.f.flags, m.f.width, m.f.prec, m.f.fill);
    VC (m.pos <= os.size(), "pos", "after %s position %zu is past the buffer of %zu", op, m.pos, size_t(os.size()));
    for (size_t i = 0; i < m.pos; ++i) VC (os.begin()[i] == m.b[i], "text", "after %s byte %zu of %zu is %s, expected %s", op, i, m.pos, show (os.begin() + i, m.pos - i < 24 ? m.pos - i : 24), show (m.b.p + i, m.pos - i < 24 ? m.pos - i : 24));
    if (!fin) return;
    const ustl::string& s = os.str();
    m.b.n = m.pos;
    VC (s.size() == m.pos && !memcmp (s.data(), m.b.p, m.pos), "str", "after %s str() has %zu bytes of %zu or differs", op, s.size(), m.pos);
    VC (!s.c_str()[m.pos], "str", "after %s str() is not terminated", op);
}
template <typename T> void w (ustl::ostringstream& os, M& m, const T& v) { os << v; render (m, v); }
vfu::Colour rcol (void) { static const vfu::Colour c[] = { vfu::red, vfu::green, vfu::blue, vfu::none, vfu::minus, vfu::far, vfu::farther }; return c[R.below (7)]; }
vfu::Point rpoint (void) { vfu::Point p; p.x = R.bits(); p.n = rstr (9); p.nb = 0; return p; }
#define NREND 62
void step (ustl::ostringstream& os, M& m, unsigned op)
{
    switch (op) {
	case 0: w (os, m, int (R.bits())); break;
	case 1: w (os, m, unsigned (R.bits())); break;
	case 2: w (os, m, long (R.bits())); break;
	case 3: w (os, m, (unsigned long) R.bits()); break;
	case 4: w (os, m, (long long) R.bits()); break;
	case 5: w (os, m, (unsigned long long) R.bits()); break;
	case 6: w (os, m, short (R.bits())); break;
	case 7: w (os, m, (unsigned short) R.bits()); break;
	case 8: w (os, m, int (R.range (-20, 20))); break;
	case 9: w (os, m, rdbl()); break;
	case 10: { float v = rdbl(); w (os, m, v); } break;
	case 11: { long double v = rdbl(); if (R.chance (1, 4) && isfinite (v)) v *= 1.0e20L; w (os, m, v); } break;
	case 12: w (os, m, char (R.next())); break;
	case 13: w (os, m, (unsigned char) R.next()); break;
	case 14: w (os, m, (signed char) R.next()); break;
	case 15: w (os, m, wchar_t (R.bits() & 0x7FFFFFFF)); break;
	case 16: w (os, m, bool (R.next() & 1)); break;
	case 17: { ustl::string s (rstr (80, false)); const char* p = s.c_str(); os << p; puts (m, p); } break;
	case 18: { ustl::string s (rstr (200)); if (R.chance (1, 3)) s.reserve (s.size() + R.below (90)); if (R.chance (1, 4)) { ustl::string t; t.link (s.data(), s.size()); w (os, m, t); } else w (os, m, s); } break;
	case 19: { const void* p = (const void*)(uintptr_t) R.bits(); os << p; pint (m, (unsigned long) p); } break;
	case 20: { int* p = (int*)(uintptr_t) R.bits(); os << p; pint (m, (unsigned long) p); } break;
	case 21: { unsigned char t [20]; size_t n = R.below (19); for (size_t i = 0; i < n; ++i) t[i] = 1 + R.below (255); t[n] = 0; if (R.chance (1, 2)) { os.iwrite ((const unsigned char*) t); } else { char* p = (char*) t; os << p; } puts (m, (char*) t); } break;
	case 22: os << ustl::endl; putc (m, '\n'); m.b.n = m.pos; break;
	case 23: if (R.chance (1, 2)) os << ustl::flush; else os.flush(); m.b.n = m.pos; break;
	case 24: if (R.chance (1, 4)) { os << ustl::ends; putc (m, 0); } else { char c = R.next(); os.put (c); putc (m, c); } break;
	case 25: { ustl::string s (rstr (R.chance (1, 10) ? 3000 : 60)); os.write (s.data(), s.size()); put (m, s.data(), s.size()); } break;
	case 26: { ustl::string s (rstr (60)); ustl::cmemlink l (s.data(), s.size()); if (R.chance (1, 2)) os.write (l); else os << l; put (m, s.data(), s.size()); } break;
	case 27: { ustl::string s (rstr (R.chance (1, 6) ? 1500 : 40, false)); int a = R.bits(); double d = R.range (-99999, 99999) / 8.0; char* t = (char*) arena (s.size() + 200); int n = sprintf (t, "<%d %s %08x %.3f%%>", a, s.c_str(), a, d); int r = os.format ("<%d %s %08x %.3f%%>", a, s.c_str(), a, d); VC (r == n, "format", "format returned %d for %d characters", r, n); put (m, t, n); } break;
	case 28: { int r = os.format ("%s", ""); VC (r == 0, "format", "format of nothing returned %d", r); } break;
	// ranges
	case 29: { ustl::vector<int> v; for (size_t i = cn (8); i--;) v.push_back (R.bits()); w (os, m, v); } break;
	case 30: { ustl::vector<unsigned char> v; for (size_t i = cn (8); i--;) v.push_back (R.next()); w (os, m, v); } break;
	case 31: { ustl::vector<signed char> v; for (size_t i = cn (8); i--;) v.push_back (R.next()); w (os, m, v); } break;
	case 32: { ustl::vector<ustl::string> v; for (size_t i = cn (5); i--;) v.push_back (rstr (9)); w (os, m, v); } break;
	case 33: { ustl::vector<ustl::vector<int> > v; for (size_t i = R.below (4); i--;) { ustl::vector<int> t; for (size_t k = R.below (4); k--;) t.push_back (R.range (-9, 9)); v.push_back (t); } w (os, m, v); } break;
	case 34: { ustl::list<long> v; for (size_t i = cn (6); i--;) v.push_back (R.bits()); w (os, m, v); } break;
	case 35: { ustl::set<int> v; for (size_t i = cn (6); i--;) v.insert (R.range (-50, 50)); w (os, m, v); } break;
	case 36: { ustl::map<int,ustl::string> v; for (size_t i = R.below (4); i--;) v[R.range (-50, 50)] = rstr (6); w (os, m, v); } break;
	case 37: switch (R.below (5)) {
	    case 0: w (os, m, rcol()); break;
	    case 1: w (os, m, rpoint()); break;
	    case 2: { ustl::vector<vfu::Colour> v; for (size_t n = cn (6); n--;) v.push_back (rcol()); w (os, m, v); } break;
	    case 3: { ustl::list<vfu::Point> v; for (size_t n = R.below (5); n--;) v.push_back (rpoint()); w (os, m, v); } break;
	    default: w (os, m, ustl::pair<int,ustl::string> (R.bits(), rstr (9))); } break;
	case 38: w (os, m, ustl::pair<bool,double> (R.next() & 1, rdbl())); break;
	case 39: { ustl::tuple<3,int> t; for (int i = 0; i < 3; ++i) t[i] = R.bits(); w (os, m, t); } break;
	case 40: { ustl::array<float,4> t; for (int i = 0; i < 4; ++i) t[i] = R.range (-999, 999) / 4.0; w (os, m, t); } break;
	case 41: { ustl::matrix<3,2,int> t; for (int i = 0; i < 6; ++i) t.begin()[i] = R.range (-99, 99); w (os, m, t); } break;
	case 42: { ustl::bitset<32> b; for (int i = 0; i < 32; ++i) b.set (i, R.next() & 1); w (os, m, b); } break;
	case 43: { os << ustl::ratio<6,-8>(); puts (m, "-3/4"); } break;
	case 44: { ustl::chrono::milliseconds d (R.range (-5000, 5000)); os << d; render (m, long (d.count())); puts (m, "_ms"); } break;
	case 45: { ustl::chrono::hrtime_t t; t.tv_sec = R.below (100000); t.tv_nsec = R.below (1000000000); char b [64]; sprintf (b, "%ld.%09ld", long (t.tv_sec), long (t.tv_nsec)); t.text_write (os); puts (m, b); } break;
	case 46: { char b [30]; for (char& c : b) c = R.next(); ustl::istream is (b, 30); size_t k = R.below (31); is.skip (k); is.text_write (os); put (m, b + k, 30 - k); } break;
	case 47: { char b [30]; for (char& c : b) c = R.next(); ustl::ostream o2 (b, 30); size_t k = R.below (31); o2.skip (k); o2.text_write (os); put (m, b, k); } break;
	case 48: { ustl::memblock b (size_t (cn (30))); for (char& c : b) c = R.next(); os << b; put (m, b.data(), b.size()); } break;
	case 49: { ustl::vector<float> v; for (size_t i = cn (5); i--;) v.push_back (R.range (-99, 99) / 8.0); w (os, m, v); } break;
	// manipulators
	case 50: os << ustl::ios::hex; m.f.flags = (m.f.flags & ~B::basefield) | B::hex; break;
	case 51: os << ustl::ios::oct; m.f.flags = (m.f.flags & ~B::basefield) | B::oct; break;
	case 52: os << ustl::ios::dec; m.f.flags = (m.f.flags & ~B::basefield) | B::dec; break;
	case 53: if (R.chance (1, 2)) { os << ustl::ios::scientific; m.f.flags = (m.f.flags & ~B::floatfield) | B::scientific; } else { os << ustl::ios::fixed; m.f.flags = (m.f.flags & ~B::floatfield) | B::fixed; } break;
	case 54: { unsigned x = R.chance (1, 2) ? R.below (16) : R.chance (1, 2) ? 0 : R.chance (1, 6) ? (R.chance (1, 2) ? 9990 + R.below (20) : R.chance (1, 3) ? 65535 - R.below (3) : 990 + R.below (30)) : R.below (130); switch (R.below (4)) { case 0: os << ustl::setw (x); break; case 1: os << ustl::ios::width (x); break; case 2: os.width (x); break; default: os.set_width (x); } m.f.width = x; } break;
	case 55: { unsigned x = R.chance (1, 2) ? R.below (8) : R.chance (1, 8) ? 255 - R.below (160) : R.below (50); switch (R.below (3)) { case 0: os << ustl::setprecision (x); break; case 1: os.precision (x); break; default: os.set_precision (x); } m.f.prec = x; } break;
	case 56: { char c = R.chance (1, 2) ? '0' : ' '; if (R.chance (1, 2)) os << ustl::setfill (c); else os.fill (c); m.f.fill = c; } break;
	case 57: { static const unsigned each[] = { B::boolalpha, B::showbase, B::showpoint, B::showpos, B::skipws, B::unitbuf, B::uppercase, B::dec, B::oct, B::hex, B::fixed, B::scientific, B::left, B::right, B::internal }; unsigned seen = 0; for (unsigned f : each) { VC (f && !(seen & f), "flags", "flag %x is not a bit of its own", f); seen |= f; } static const unsigned fl[] = { B::showbase, B::showpos, B::uppercase, B::left, B::showbase|B::showpos, B::uppercase|B::left, B::right, B::hex, B::oct }; unsigned f = fl[R.below (9)], o = m.f.flags, r = o;
	    switch (R.below (5)) { case 0: r = os.setf (f); m.f.flags |= f; break; case 1: os << ustl::setiosflags (f); m.f.flags |= f; break; case 2: r = os.unsetf (f); m.f.flags &= ~f; break; case 3: os << ustl::resetiosflags (f); m.f.flags &= ~f; break; default: r = os.flags (f); m.f.flags = f; }
	    VC (r == o, "flags", "changing flags returned %x, they were %x", r, o); } break;
	case 58: { unsigned b = R.chance (1, 3) ? 16 : R.chance (1, 2) ? 8 : 10; os << ustl::ios::base (b); m.f.flags = (m.f.flags & ~B::basefield) | (b == 16 ? B::hex : b == 8 ? B::oct : B::dec); } break;
	case 59: { unsigned f = R.chance (1, 2) ? B::left : B::right; os << B::fmtflags_bits (f); m.f.flags = (m.f.flags & ~B::adjustfield) | f; } break;
	case 60: os.flags (0); m.f.flags = 0; if (R.chance (1, 2)) { os.width (0); m.f.width = 0; os.fill (0); m.f.fill = 0; } break;
	case 61: { unsigned f = R.chance (1, 2) ? B::hex : B::oct; os.setf (B::fmtflags (f), B::basefield); m.f.flags = (m.f.flags & ~B::basefield) | f; } break;
    }
}
void run (ustl::ostringstream& os, M& m, unsigned ns)
{
    for (unsigned i = 0; i < ns; ++i) {
	const unsigned op = R.chance (1, 4) ? 50 + R.below (12) : R.below (NREND);
	char what [48]; snprintf (what, sizeof(what), "write %u", op); trace ("%s at %zu flags %x width %u precision %u fill %d", what, m.pos, m.f.flags, m.f.width, m.f.prec, m.f.fill);
	const size_t p0 = m.pos, rem = os.remaining();
	step (os, m, op);
	check (os, m, what, R.chance (1, 12));
	sig (hmix (op, hmix (m.f.flags, hmix (m.f.width > 9 ? 10 : m.f.width > 0, hmix (m.f.fill, hmix (m.pos - p0 > rem, hmix (m.pos - p0 == rem, m.f.prec > 9)))))));
	if (R.chance (1, 25) && m.pos) { const size_t t = R.below (m.pos + 1); os.seekp (t); m.pos = t; check (os, m, "seekp", false); }
	if (R.chance (1, 60)) { ustl::string s (rstr (60)); os.str (s); m.b.clear(); m.pos = 0; put (m, s.data(), s.size()); check (os, m, "str(s)", false); }
    }
    check (os, m, "the end", true);
}
M mm (void) { M m; m.pos = 0; m.f.flags = 0; m.f.width = 0; m.f.prec = 2; m.f.fill = 0; return m; }
}
static void growing (void) {
    M m = mm();
    switch (R.below (3)) {
	case 0: { ustl::ostringstream os; run (os, m, 2 + R.below (30)); } break;
	case 1: if (R.chance (1, 2)) { ustl::ostringstream os ("some literal"); run (os, m, 2 + R.below (20)); } else { ustl::string s (rstr (100)); ustl::ostringstream os (s); run (os, m, 2 + R.below (20)); } break;
	default: { ustl::ostringstream os; os.str (rstr (70)); m.pos = os.pos(); for (size_t i = 0; i < m.pos; ++i) m.b.push (os.begin()[i]); run (os, m, 2 + R.below (20)); }
    }
    if (want_sample()) sample ("%zu characters of text, ends %s", m.pos, show (m.b.p + (m.pos > 20 ? m.pos - 20 : 0), m.pos > 20 ? 20 : m.pos));
}
VF_CASE(c14_growing, 6000, 120000) { growing(); }
VF_CASE(c14_big, 120, 2400) { static const size_t sz [] = { 300, 1500, 5000, 70000, 200000 }; g_big = sz [R.below (R.chance (1, 3) ? 5 : 3)]; growing(); }
// fixed buffers: never written past, text that fits stays in place, the whole text is kept
VF_CASE(c14_fixed, 4000, 80000) {
    const size_t n = R.size (120); char* b = (char*) guard_alloc (n ? n : 1); memset (b, 0x5A, n ? n : 1);
    M m = mm();
    if (R.chance (1, 2)) { ustl::ostringstream os (b, n); if (R.chance (1, 3)) os.exceptions (B::allbadbits); run (os, m, 1 + R.below (12)); }
    else { ustl::ostringstream os; if (R.chance (1, 2)) os.link (b, n); else { ustl::memlink l (b, n); os.link (l); } run (os, m, 1 + R.below (12)); }
    guard_free (b, n ? n : 1);
}
// with an error pending nothing grows: the text is cut at the end of the buffer and the failure stays visible
VF_CASE(c14_failed, 1000, 20000) {
    const size_t n = R.size (60); char* b = (char*) guard_alloc (n ? n : 1); memset (b, 0x5A, n ? n : 1);
    {
	ustl::ostringstream os (b, n); os.setstate (B::failbit); M m = mm();
	for (unsigned i = 0, ns = 1 + R.below (8); i < ns; ++i) {
	    ustl::string s (rstr (30));
	    if (m.pos <= n && R.chance (1, 3)) {	// formatted text needs room for its terminator, which is not part of the text
		const size_t p0 = os.pos(), k = strlen (s.c_str()), room = n - p0; const int r = os.format ("%s", s.c_str()), g = os.pos() - p0;
		VC (r == int (k) && os.fail() && os.begin() == b, "fixed", "format of %zu characters returned %d, state %x", k, r, os.rdstate());
		VC (g >= 0 && (k < room ? size_t (g) == k : size_t (g) <= k && p0 + g <= n), "fixed", "format of %zu characters over %zu bytes moved by %d", k, room, g);
		put (m, s.data(), g); for (size_t q = 0; q < m.pos; ++q) VC (b[q] == m.b[q], "fixed", "byte %zu of %zu is %02x after %zu bytes of formatted text", q, n, (unsigned char) b[q], m.pos);
		ops(); memset (b + m.pos, 0x5A, n - m.pos); if (k >= room) break; continue;
	    }
	    os << s; put (m, s.data(), s.size());
	    const size_t e = m.pos < n ? m.pos : n;
	    VC (os.pos() == e && os.fail() && os.begin() == b, "fixed", "stream with failbit over %zu bytes is at %zu after %zu bytes of text, state %x", n, size_t(os.pos()), m.pos, os.rdstate());
	    for (size_t k = 0; k < n; ++k) VC (b[k] == (k < e ? m.b[k] : 0x5A), "fixed", "byte %zu of %zu is %02x after %zu bytes of text", k, n, (unsigned char) b[k], m.pos);
	    ops();
	}
	sig (hmix (m.pos > n, n < 4));
    }
    guard_free (b, n ? n : 1);
}
// conversions of numbers to strings
VF_CASE(c14_to_string, 2000, 20000) {
    char t [6000]; ustl::string s;
    const u64 v = R.bits();
    #define TS(T,f,x) do { T a_ = (T) x; sprintf (t, f, a_); s = ustl::to_string (a_); VC (s.size() == strlen (t) && !memcmp (s.data(), t, s.size()) && !s.c_str()[s.size()], "to_string", "to_string(" #T ") gave %s for %s", show (s.data(), s.size()), t); ops(); } while (0)
    TS (int, "%d", v); TS (unsigned, "%u", v); TS (long, "%ld", v); TS (unsigned long, "%lu", v); TS (long long, "%lld", v); TS (unsigned long long, "%llu", v);
    const double d = rdbl(); TS (double, "%f", d); TS (float, "%f", d); TS (long double, "%Lf", d); TS (int, "%d", R.range (-2000, 2000));
    sig (hmix (strlen (t), v & 1));
}
