// An independent left-to-right text parser and the operations that are compared with it.
#pragma once
#include "elems.h"
#include <ctype.h>
#include <math.h>
namespace vf { namespace itext {
typedef ustl::ios_base B;
struct P {	// the model: text, cursor, delimiters
    const char* t; size_t n, pos; char del [16]; unsigned flags;
    bool isdel (char c) const { if (!c) return true; for (const char* d = del; *d; ++d) if (*d == c) return true; return false; }
    bool skipdel (void) { while (pos < n && isdel (t[pos])) ++pos; return pos < n; }
    int base (void) const { return (flags & B::hex) ? 16 : (flags & B::oct) ? 8 : 0; }
    // number at the cursor: consumed length, values
    size_t integer (long& v) { v = 0; if (!skipdel()) return 0; char* e; v = strtol (t + pos, &e, base()); size_t k = e - (t + pos); pos += k; return k; }
    size_t real (double& v) { v = 0; if (!skipdel()) return 0; char* e; v = strtod (t + pos, &e); size_t k = e - (t + pos); pos += k; return k; }
    char chr (void) { return skipdel() ? t[pos++] : 0; }
    bool boolean (void) {
	char c = chr();
	if (c == '1') return true;
	const char* w = c == 't' ? "rue" : c == 'f' ? "alse" : "";
	for (; *w && pos < n && t[pos] == *w; ++w) ++pos;
	return c == 't';
    }
    void word (Arr<char>& w) {
	w.clear();
	if (!skipdel()) return;
	char q = 0;
	if (t[pos] == '"' || t[pos] == '\'') q = t[pos++];
	bool first = !q;	// the first character of an unquoted word is never a terminator
	while (pos < n) {
	    char c = t[pos++];
	    if (!q && !first && isdel (c)) return;
	    first = false;
	    if (q && c == q) return;
	    if (c == '\\' && pos < n && !(!q && isdel (t[pos]))) {
		c = t[pos++];
		const char* f = "tnrbE", *r = "\t\n\r\b\033";
		for (unsigned i = 0; i < 5; ++i) if (f[i] == c) { c = r[i]; break; }
	    }
	    w.push (c);
	}
    }
};
inline const char* ctext (Arr<char>& b) { b.push (0); --b.n; return b.p; }
inline void app (Arr<char>& b, const char* s) { while (*s) b.push (*s++); }
inline void token (Arr<char>& b)
{
    char s [400]; const size_t lw = g_big && R.chance (1, 6) ? R.below (g_big) : 0;
    switch (R.below (16)) {
	case 0: if (lw) { if (R.chance (1, 3)) b.push ('-'); b.resize (b.n + lw % 700, '0'); } sprintf (s, "%ld", long (lw ? R.bits() >> 1 : R.bits())); app (b, s); if (lw && R.chance (1, 2)) { b.push ('.'); for (size_t i = lw % 300; i--;) b.push ('0' + R.below (10)); } break;
	case 1: sprintf (s, "%d", int (R.range (-300, 300))); app (b, s); break;
	case 2: sprintf (s, R.chance (1, 2) ? "0x%lx" : "%lX", (unsigned long) R.bits()); app (b, s); break;
	case 3: sprintf (s, R.chance (1, 2) ? "0%lo" : "%lo", (unsigned long) R.bits()); app (b, s); break;
	case 4: sprintf (s, R.chance (1, 2) ? "%g" : R.chance (1, 2) ? "%+.3f" : "%.17e", R.range (-100000, 100000) / 1024.0 * (R.chance (1, 6) ? 1e30 : 1)); app (b, s); break;
	case 5: { static const char* w[] = { "true", "false", "t", "f", "1", "0", "tru", "fals", "truest", "falsehood", "trfalse", "maybe" }; app (b, w[R.below (12)]); } break;
	case 6: case 7: { size_t n = 1 + R.below (R.chance (1, 20) ? 60 : 9); if (lw) n = lw; for (size_t i = 0; i < n; ++i) b.push ('a' + R.below (26)); } break;
	case 8: { char q = R.chance (1, 2) ? '"' : '\''; b.push (q); size_t n = lw ? lw : R.below (14); for (size_t i = 0; i < n; ++i) { static const char c[] = "ab \t\n;:,.?\"'xyz\\"; b.push (c[R.below (sizeof(c) - 1)]); } if (!R.chance (1, 6)) b.push (q); } break;
	case 9: { static const char e[] = "tnrbE\"'\\xq ;"; size_t n = 1 + R.below (5); if (R.chance (1, 2)) b.push ('"'); for (size_t i = 0; i < n; ++i) { b.push ('\\'); b.push (e[R.below (12)]); if (R.chance (1, 3)) b.push ('k'); } if (R.chance (1, 2)) b.push ('"'); } break;
	case 10: { uint32_t w = R.chance (1, 2) ? 0x80 + R.below (0x780) : 0x800 + R.below (0xF800); if (w < 0x800) { b.push (0xC0 | w >> 6); b.push (0x80 | (w & 63)); } else { b.push (0xE0 | w >> 12); b.push (0x80 | (w >> 6 & 63)); b.push (0x80 | (w & 63)); } } break;
	case 11: { static const char* w[] = { "0x", "-", "+", "--5", "1e", "1e+", "+-3", "0x1p-3", "inf", "-nan", "08", "0b1", ".5", "-.25", "5.", "1.2.3", "0xg", "99999999999999999999", "-99999999999999999999", "1e999", "2147483648", "-2147483649", "4294967295" }; app (b, w[R.below (23)]); } break;
	case 12: b.push (R.next()); break;
	case 13: b.push ('\n'); break;
	case 14: { size_t n = lw ? lw : R.below (6); for (size_t i = 0; i < n; ++i) b.push (" \t\n;"[R.below (4)]); } break;
	default: b.push (0); break;
    }
}
inline void text (Arr<char>& b, char* del)
{
    size_t n = R.chance (1, 15) ? R.below (200) : R.below (24);
    for (size_t i = 0; i < n; ++i) { token (b); size_t d = R.chance (1, 4) ? R.below (4) : 1; size_t l = strlen (del); while (d--) b.push (l && R.chance (5, 6) ? del[R.below (l)] : ' '); }
    if (b.n && R.chance (1, 2)) { size_t k = 1 + R.below (3); b.n -= k < b.n ? k : b.n; }
    if (R.chance (1, 12)) { b.clear(); for (size_t i = R.below (80); i--;) b.push (R.next()); }
}
inline bool same (double a, double b) { return a == b || (a != a && b != b); }
template <typename T, typename S> void num (S& is, P& p, const char* nm)
{
    long e; const bool had = p.integer (e), in = e >= (long) ustl::numeric_limits<T>::min() && (T(-1) > T(0) && sizeof(T) == 8 ? e >= 0 : e <= (long) ustl::numeric_limits<T>::max()) && e != 0x7FFFFFFFFFFFFFFFl && e != -0x7FFFFFFFFFFFFFFFl - 1;
    T v = 77; is >> v;
    if (!had) VC (v == T(0), "number", "%s from no digits is %ld", nm, long (v));
    else if (in) VC (v == T(e), "number", "%s parsed as %ld, expected %ld", nm, long (v), e);
}
template <typename T, typename S> void flt (S& is, P& p, const char* nm)
{
    double e; p.real (e);
    T v = 77; is >> v; VC (same (double (v), double (T (e))), "number", "%s parsed as %.17g, expected %.17g", nm, double (v), e);
}
struct Ctext { char c; bool b; char d; void text_read (ustl::istringstream& is) { is >> c >> b >> d; } };	// a type of the user's own
enum { NOPS = 40 };
template <typename S> void step (S& is, P& p, unsigned op)
{
    const size_t n = p.n, p0 = p.pos, rem = n - p.pos;
    switch (op) {
	case 0: case 1: num<int,S> (is, p, "int"); break;
	case 2: num<long,S> (is, p, "long"); break;
	case 3: num<unsigned,S> (is, p, "unsigned"); break;
	case 4: num<short,S> (is, p, "short"); break;
	case 5: num<unsigned short,S> (is, p, "unsigned short"); break;
	case 6: num<long long,S> (is, p, "long long"); break;
	case 7: num<unsigned long,S> (is, p, "unsigned long"); break;
	case 8: num<unsigned long long,S> (is, p, "unsigned long long"); break;
	case 9: case 10: flt<double,S> (is, p, "double"); break;
	case 11: flt<float,S> (is, p, "float"); break;
	case 12: if (R.chance (1, 3)) { Ctext e = { p.chr(), false, 'Z' }, v = { 'Z', true, 'Z' }; e.b = p.boolean(); e.d = p.chr(); is >> v; VC (v.c == e.c && v.b == e.b && v.d == e.d, "object", "object of %02x %d %02x, expected %02x %d %02x", v.c, v.b, v.d, e.c, e.b, e.d); }
	    else flt<long double,S> (is, p, "long double");
	    break;
	case 13: { char v = 'Z', e = p.chr(); is >> v; VC (v == e, "char", "char %02x, expected %02x", v, e); } break;
	case 14: { unsigned char v = 'Z', e = p.chr(); is >> v; VC (v == e, "char", "unsigned char %02x, expected %02x", v, e); } break;
	case 15: { signed char v = 'Z', e = p.chr(); is >> v; VC (v == e, "char", "signed char %02x, expected %02x", v, e); } break;
	case 16: case 17: { bool e = p.boolean(), v = !e; is >> v; VC (v == e, "bool", "bool %d, expected %d", v, e); } break;
	case 18: if (p.skipdel()) {	// wide character, when a whole one is there
	    unsigned char c = p.t[p.pos]; unsigned len = c < 0x80 ? 1 : c < 0xC0 ? 0 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 0; uint32_t e = len == 1 ? c : len == 2 ? c & 0x1F : c & 0xF;
	    bool ok = len && p.pos + len <= n; for (unsigned i = 1; ok && i < len; ++i) { unsigned char x = p.t[p.pos + i]; ok = (x & 0xC0) == 0x80; e = e << 6 | (x & 0x3F); }
	    if (ok) { wchar_t v = 77; is >> v; p.pos += len; VC (uint32_t (v) == e, "wchar", "wide character %x, expected %x", unsigned (v), e); }
	    else if (len && p.pos + len > n) { wchar_t v = 77; is >> v; VC (is.fail(), "wchar", "cut off wide character not reported"); }
	    else is.seekg (p.pos);
	} else { wchar_t v = 77; is >> v; VC (!v, "wchar", "wide character at the end is %x", unsigned (v)); } break;
	case 19: case 20: case 21: { Arr<char> e; p.word (e); ustl::string v ("old"); is >> v; VC (v.size() == e.n && !memcmp (v.data(), e.p, e.n), "word", "word %s, expected %s", show (v.data(), v.size()), show (e.p, e.n)); } break;
	case 22: { char c = 'Z'; is.get (c); VC (rem ? c == p.t[p0] && is.gcount() == 1 : c == 'Z' && !is.gcount(), "get", "get(c) gave %02x count %u", c, unsigned (is.gcount())); if (rem) ++p.pos; } break;
	case 23: { int c = is.get(); if (rem) ++p.pos; VC (char (c) == (rem ? p.t[p0] : char (EOF)), "get", "get() gave %02x", c); } break;
	case 24: { char c = is.peek(); VC (!rem || c == p.t[p0], "peek", "peek gave %02x", c); } break;
	case 25: case 26: case 27: case 28: {	// up to a delimiter, into a string or a buffer, with or without consuming it
	    char d = R.chance (1, 2) ? '\n' : R.chance (1, 2) ? ' ' : rem ? p.t[p0 + R.below (rem)] : 'x';
	    size_t k = 0; while (k < rem && p.t[p0 + k] != d) ++k;
	    const bool line = op >= 27; 
	    if (op & 1) {
		ustl::string s ("before");
		if (line) { if (d == '\n' && R.chance (1, 2)) { if (R.chance (1, 2)) is.getline (s); else ustl::getline (is, s); } else if (R.chance (1, 3)) ustl::getline (is, s, d); else is.getline (s, d); }
		else if (d == '\n' && R.chance (1, 2)) is.get (s); else is.get (s, d);
		VC (s.size() == k && !memcmp (s.data(), p.t + p0, k), "line", "%s into a string gave %zu characters, expected %zu", line ? "getline" : "get", s.size(), k);
	    } else {
		const size_t bn = g_big && R.chance (2, 3) ? 64 + g_big : 64; char* buf = (char*) arena (bn); size_t sz = 1 + (bn > 64 && R.chance (1, 2) ? bn - 15 - R.below (60) : R.below (bn - 14)); memset (buf, 'Z', bn);
		if (k > sz - 1) k = sz - 1;
		const bool dfl = d == '\n' && R.chance (1, 2); if (line) { if (dfl) is.getline (buf, sz); else is.getline (buf, sz, d); } else if (dfl) is.get (buf, sz); else is.get (buf, sz, d);
		VC (!memcmp (buf, p.t + p0, k) && !buf[k], "line", "%s into %zu characters gave %s", line ? "getline" : "get", sz, show (buf, k + 1));
		for (size_t i = k + 1; i < bn; ++i) VC (buf[i] == 'Z', "outside", "%s into %zu characters wrote at %zu", line ? "getline" : "get", sz, i);
	    }
	    p.pos += k; size_t g = k;
	    if (line && p.pos < n && p.t[p.pos] == d) { ++p.pos; ++g; }
	    VC (is.gcount() == g, "gcount", "gcount %u after %zu characters", unsigned (is.gcount()), g);
	} break;
	case 29: case 30: { size_t k = g_big && R.chance (1, 3) ? R.below (g_big) : R.below (12); char d = R.chance (1, 2) ? '\n' : rem ? p.t[p0 + R.below (rem)] : 'q'; const bool def = R.chance (1, 3); if (def) d = 0;
	    size_t g = 0; while (g < k && g < rem) if (p.t[p0 + g++] == d) break;
	    if (def) is.ignore (k); else is.ignore (k, d);
	    p.pos += g; VC (is.gcount() == g, "ignore", "ignore(%zu) reports %u characters, expected %zu", k, unsigned (is.gcount()), g); } break;
	case 31: case 32: { const size_t bn = g_big && R.chance (1, 3) ? 64 + g_big : 64; char* buf = (char*) arena (bn); memset (buf, 'Z', bn); size_t k = R.below (bn - 14), e = k < rem ? k : rem; if (op == 31) is.read (buf, k); else { ustl::memlink l (buf, k); is.read (l); }
	    VC (is.gcount() == e && !memcmp (buf, p.t + p0, e) && buf[e] == 'Z', "read", "read of %zu with %zu there counts %u", k, rem, unsigned (is.gcount())); p.pos += e; } break;
	case 33: { const size_t bn = g_big && R.chance (1, 3) ? 64 + g_big : 64; char* buf = (char*) arena (bn); memset (buf, 'Z', bn); size_t k = R.below (bn - 14), e = k < rem ? k : rem; size_t r = is.readsome (buf, k); VC (r == e && !memcmp (buf, p.t + p0, e) && buf[e] == 'Z', "read", "readsome of %zu with %zu there returned %zu", k, rem, r); p.pos += e; } break;
	case 34: if (is.pos()) { is.unget(); --p.pos; } break;
	case 35: { size_t t = R.below (n + 1); is.seekg (t); p.pos = t; } break;
	case 36: { i64 d = R.range (-i64 (p.pos < 9 ? p.pos : 9), i64 (rem < 9 ? rem : 9)); is.seekg (d, B::cur); p.pos += d; } break;
	case 37: { static const unsigned f[] = { B::hex, B::oct, B::dec }; unsigned x = f[R.below (3)]; if (R.chance (1, 2)) is.setf (x, B::basefield); else is.iread (B::fmtflags_bits (x)); p.flags = x; VC ((is.flags() & B::basefield) == x, "flags", "flags %x after setting %x", is.flags(), x); } break;
	case 38: { is.flags (0); p.flags = 0; } break;
	case 39: { static const char* d[] = { " \t\n\r;:,.?", " ", ",", "\n", "", "|;", " \t\n", "abcdefghijklmn" }; const char* x = d[R.below (8)]; is.set_delimiters (x); strcpy (p.del, x); } break;
    }
}
}}
