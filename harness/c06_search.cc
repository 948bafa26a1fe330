// C06: string searches and comparisons against naive definitions.
#include "vf.h"
using namespace vf;
using ustl::string;
namespace {
typedef Arr<char> MS;
const size_t NPOS = string::npos;
char letter (int al) { static const char A[4][4] = { { 'a', 'a', 'a', 'b' }, { 'a', 'b', 'a', 'c' }, { 0, 'a', '\x80', '\xff' }, { 'x', '\x7f', '\x81', '\0' } }; return al < 4 ? A[al][R.below (4)] : char (R.next()); }
MS text (size_t mx, int al) { MS t; size_t n = R.size (mx); for (size_t i = 0; i < n; ++i) t.push (letter (al)); return t; }
// A string with this text: owned, linked to foreign memory that ends at an inaccessible page, or a copy of such
struct Holder {
    string s;
    Holder (const MS& t) {
	switch (R.below (4)) {
	    case 0: { s.link (ro_copy (t.p, t.n), t.n); break; }
	    case 1: { s.assign (t.p, t.n); s.reserve (t.n + R.below (40)); break; }
	    default: s.assign (t.p, t.n); break;
	}
    }
};
bool in (const MS& s, char c) { for (size_t i = 0; i < s.n; ++i) if (s[i] == c) return true; return false; }
size_t r_find (const MS& t, const MS& p, size_t pos) { if (p.n) for (size_t i = pos; i + p.n <= t.n; ++i) { size_t k = 0; while (k < p.n && t[i+k] == p[k]) ++k; if (k == p.n) return i; } return NPOS; }
size_t r_rfind (const MS& t, const MS& p, size_t pos) { size_t e = pos < t.n ? pos : t.n; if (p.n) for (size_t i = e + 1; i-- > 0;) { if (i + p.n > e) continue; size_t k = 0; while (k < p.n && t[i+k] == p[k]) ++k; if (k == p.n) return i; } return NPOS; }
size_t r_findc (const MS& t, char c, size_t pos) { for (size_t i = pos; i < t.n; ++i) if (t[i] == c) return i; return NPOS; }
size_t r_rfindc (const MS& t, char c, size_t pos) { for (size_t i = t.n; i-- > 0;) if (i <= pos && t[i] == c) return i; return NPOS; }
size_t r_first (const MS& t, const MS& s, size_t pos, bool want) { for (size_t i = pos; i < t.n; ++i) if (in (s, t[i]) == want) return i; return NPOS; }
size_t r_last (const MS& t, const MS& s, size_t pos, bool want) { for (size_t i = t.n; i-- > 0;) if (i <= pos && in (s, t[i]) == want) return i; return NPOS; }
#define EQ(expr, ref, what) do { ops(); size_t a_ = (expr), b_ = (ref); VC (a_ == b_, "search", what " of %s in %s from %zu gives %zu, defined is %zu", show (p.p, p.n), show (t.p, t.n), pos, a_, b_); sig (hmix (hmix (b_ == NPOS ? 99 : b_ < 20 ? b_ : 20, __LINE__), hmix (t.n < 30 ? t.n : 30, p.n < 10 ? p.n : 10))); } while (0)
void search (const string& s, const MS& t, const string& q, const MS& p, char c, size_t pos)
{
    MS C; C.push (c); const unsigned char u = c;
    char* pz = (char*) arena (p.n + 1); memcpy (pz, p.p, p.n); pz[p.n] = 0; bool hasnul = in (p, 0);
    const char* pp = R.chance (1, 8) ? ro_copy (p.p, p.n) : pz;
    EQ (s.find (q, pos), r_find (t, p, pos), "find");
    EQ (s.find (pp, pos, p.n), r_find (t, p, pos), "find (p,pos,n)");
    if (!hasnul) EQ (s.find (pz, pos), r_find (t, p, pos), "find (C string)");
    EQ (s.rfind (q, pos), r_rfind (t, p, pos), "rfind");
    EQ (s.rfind (pp, pos, p.n), r_rfind (t, p, pos), "rfind (p,pos,n)");
    if (!hasnul) EQ (s.rfind (pz, pos), r_rfind (t, p, pos), "rfind (C string)");
    EQ (s.find_first_of (q, pos), r_first (t, p, pos, true), "find_first_of");
    EQ (s.find_first_of (pp, pos, p.n), r_first (t, p, pos, true), "find_first_of (p,pos,n)");
    EQ (s.find_first_not_of (q, pos), r_first (t, p, pos, false), "find_first_not_of");
    EQ (s.find_first_not_of (pp, pos, p.n), r_first (t, p, pos, false), "find_first_not_of (p,pos,n)");
    EQ (s.find_last_of (q, pos), r_last (t, p, pos, true), "find_last_of");
    EQ (s.find_last_of (pp, pos, p.n), r_last (t, p, pos, true), "find_last_of (p,pos,n)");
    EQ (s.find_last_not_of (q, pos), r_last (t, p, pos, false), "find_last_not_of");
    EQ (s.find_last_not_of (pp, pos, p.n), r_last (t, p, pos, false), "find_last_not_of (p,pos,n)");
    const MS& pc (p); { const MS& p (C); (void) pc;
    EQ (s.find (c, pos), r_findc (t, c, pos), "find (char)"); EQ (s.find (u, pos), r_findc (t, c, pos), "find (unsigned char)");
    EQ (s.rfind (c, pos), r_rfindc (t, c, pos), "rfind (char)"); EQ (s.rfind (u, pos), r_rfindc (t, c, pos), "rfind (unsigned char)");
    EQ (s.find_first_of (c, pos), r_findc (t, c, pos), "find_first_of (char)"); EQ (s.find_first_of (u, pos), r_findc (t, c, pos), "find_first_of (unsigned char)");
    EQ (s.find_first_not_of (c, pos), r_first (t, C, pos, false), "find_first_not_of (char)"); EQ (s.find_first_not_of (u, pos), r_first (t, C, pos, false), "find_first_not_of (unsigned char)");
    EQ (s.find_last_of (c, pos), r_rfindc (t, c, pos), "find_last_of (char)"); EQ (s.find_last_of (u, pos), r_rfindc (t, c, pos), "find_last_of (unsigned char)");
    EQ (s.find_last_not_of (c, pos), r_last (t, C, pos, false), "find_last_not_of (char)"); EQ (s.find_last_not_of (u, pos), r_last (t, C, pos, false), "find_last_not_of (unsigned char)"); }
    if (pos == 0) {
	EQ (s.find (q), r_find (t, p, 0), "find default"); EQ (s.find_first_of (q), r_first (t, p, 0, true), "find_first_of default"); EQ (s.find_first_not_of (q), r_first (t, p, 0, false), "find_first_not_of default");
	EQ (s.rfind (q), r_rfind (t, p, NPOS), "rfind default"); EQ (s.find_last_of (q), r_last (t, p, NPOS, true), "find_last_of default"); EQ (s.find_last_not_of (q), r_last (t, p, NPOS, false), "find_last_not_of default");
	EQ (s.find (c), r_findc (t, c, 0), "find (char) default"); EQ (s.rfind (c), r_rfindc (t, c, NPOS), "rfind (char) default");
	EQ (s.find_first_of (c), r_findc (t, c, 0), "find_first_of (char) default"); EQ (s.find_last_of (c), r_rfindc (t, c, NPOS), "find_last_of (char) default"); EQ (s.find (u), r_findc (t, c, 0), "find (unsigned char) default"); EQ (s.rfind (u), r_rfindc (t, c, NPOS), "rfind (unsigned char) default"); EQ (s.find_first_of (u), r_findc (t, c, 0), "find_first_of (unsigned char) default"); EQ (s.find_last_of (u), r_rfindc (t, c, NPOS), "find_last_of (unsigned char) default");
	{ MS C1; C1.push (char (c)); EQ (s.find_first_not_of (c), r_first (t, C1, 0, false), "find_first_not_of (char) default"); EQ (s.find_last_not_of (c), r_last (t, C1, NPOS, false), "find_last_not_of (char) default"); EQ (s.find_first_not_of (u), r_first (t, C1, 0, false), "find_first_not_of (unsigned char) default"); EQ (s.find_last_not_of (u), r_last (t, C1, NPOS, false), "find_last_not_of (unsigned char) default"); }
    }
}
int sgn (int x) { return (x > 0) - (x < 0); }
int r_cmp (const char* a, size_t n, const char* b, size_t m) { for (size_t i = 0; i < n && i < m; ++i) if ((unsigned char) a[i] != (unsigned char) b[i]) return (unsigned char) a[i] < (unsigned char) b[i] ? -1 : 1; return (n > m) - (n < m); }
size_t cl (size_t x, size_t n) { return x < n ? x : n; }
#define CMP(expr, ref, what) do { ops(); int a_ = sgn (expr), b_ = (ref); VC (a_ == b_, "compare", what ": %s with %s gives sign %d, defined is %d (part %zu+%zu, %zu+%zu)", show (x.p, x.n), show (y.p, y.n), a_, b_, p1, l1, p2, l2); sig (hmix (__LINE__, hmix (b_ + 1, hmix (x.n < 12 ? x.n : 12, y.n < 12 ? y.n : 12)))); } while (0)
#define REL(expr, ref) do { ops(); bool a_ = (expr), b_ = (ref); VC (a_ == b_, "relational", #expr " gives %d for a=%s b=%s", a_, show (x.p, x.n), show (y.p, y.n)); sig (hmix (__LINE__, b_)); } while (0)
void compare (const MS& x, const MS& y)
{
    Holder hx (x), hy (y); const string &a (hx.s), &b (hy.s);
    const int c = r_cmp (x.p, x.n, y.p, y.n); const size_t p1 = R.below (x.n + 2), l1 = R.below (x.n + 2), p2 = R.below (y.n + 2), l2 = R.below (y.n + 2);
    const size_t b1 = cl (p1, x.n), e1 = cl (p1 + l1, x.n), b2 = cl (p2, y.n), e2 = cl (p2 + l2, y.n);
    CMP (a.compare (b), c, "compare"); CMP (b.compare (a), -c, "compare swapped");
    CMP (a.compare (p1, l1, b), r_cmp (x.p + b1, e1 - b1, y.p, y.n), "compare (pos,len,s)");
    CMP (a.compare (p1, l1, b, p2, l2), r_cmp (x.p + b1, e1 - b1, y.p + b2, e2 - b2), "compare (pos,len,s,pos,len)");
    CMP (a.compare (p1, l1, b.begin(), y.n), r_cmp (x.p + b1, e1 - b1, y.p, y.n), "compare (pos,len,ptr,len)");
    CMP (string::compare (a.begin(), a.end(), b.begin(), b.end()), c, "compare (iterators)");
    REL (a == b, c == 0); REL (a != b, c != 0); REL (a < b, c < 0); REL (a > b, c > 0); REL (a <= b, c <= 0); REL (a >= b, c >= 0);
    if (!in (y, 0)) {
	MS z (y); z.push (0); const char* q = R.chance (1, 8) ? ro_copy (z.p, z.n) : z.p;
	CMP (a.compare (q), c, "compare (C string)"); CMP (a.compare (p1, l1, q), r_cmp (x.p + b1, e1 - b1, y.p, y.n), "compare (pos,len,C string)");
	REL (a == q, c == 0); REL (a != q, c != 0); REL (a < q, c < 0); REL (a > q, c > 0);
	REL (q == a, c == 0); REL (q != a, c != 0); REL (q < a, c > 0); REL (q > a, c < 0); REL (a <= q, c <= 0); REL (a >= q, c >= 0); REL (q <= a, c >= 0); REL (q >= a, c <= 0);
    }
    char ch = x.n && R.chance (1, 2) ? x[0] : letter (2); unsigned char uc = ch; int cc = r_cmp (x.p, x.n, &ch, 1);
    REL (a == ch, cc == 0); REL (a != ch, cc != 0); REL (a < ch, cc < 0); REL (a == uc, cc == 0); REL (a != uc, cc != 0); REL (a < uc, cc < 0);
    if (c == 0) { ops(); VC (string::hash (a.begin(), a.end()) == string::hash (b.begin(), b.end()) && ustl::hash_value (a.begin(), a.end()) == ustl::hash_value (b.begin(), b.end()), "hash", "equal strings %s have different hashes", show (x.p, x.n)); string hs (x.p, x.n); VC (memchr (x.p, 0, x.n) || (ustl::hash_value (hs.c_str()) == string::hash (a.begin(), a.end())), "hash", "of the C string %s", show (x.p, x.n)); }
}
}
VF_CASE (c06_exhaustive, 300, 2500)	// every offset of short texts over small alphabets
{
    int al = R.below (4);
    MS t = text (14, al), p;
    if (t.n && R.chance (1, 2)) { size_t a = R.below (t.n), b = a + R.below (t.n - a + 1); p.insert (0, t.p + a, b - a); if (p.n && R.chance (1, 4)) p[R.below (p.n)] = letter (al); } else p = text (5, al);
    Holder ht (t), hp (p);
    if (want_sample()) sample ("every offset of %s for %s", show (t.p, t.n), show (p.p, p.n));
    for (size_t pos = 0; pos <= t.n + 2; ++pos) search (ht.s, t, hp.s, p, letter (al), pos);
    search (ht.s, t, hp.s, p, letter (al), NPOS);
    VC (ht.s.size() == t.n && !memcmp (ht.s.begin(), t.p, t.n), "modified", "a search changed the text");
}
VF_CASE (c06_long, 200, 2000)
{
    int al = R.below (5);
    MS t = text (900, al), p;
    if (t.n && R.chance (3, 4)) { size_t a = R.below (t.n), b = a + R.below (cl (t.n - a, 40) + 1); p.insert (0, t.p + a, b - a); if (p.n && R.chance (1, 4)) p[R.below (p.n)] = letter (al); } else p = text (12, al);
    if (R.chance (1, 6)) { p = t; if (R.chance (1, 2)) p.push ('a'); }
    Holder ht (t), hp (p);
    for (int i = 0; i < 4; ++i) search (ht.s, t, hp.s, p, letter (al), R.below (t.n + 3));
    search (ht.s, t, hp.s, p, letter (al), NPOS); search (ht.s, t, hp.s, p, letter (al), t.n);
}
// Texts of up to hundreds of thousands of characters
VF_CASE (c06_big, 40, 400)
{
    static const size_t sz [] = { 2000, 5000, 9000, 40000, 70000, 140000, 300000 };
    const size_t n = sz [R.below (R.chance (1, 3) ? 7 : 4)] + R.below (300); const int al = R.below (5); const bool rare = R.chance (1, 2);
    MS t, p; t.grow (n); const char f = letter (al); for (size_t i = 0; i < n; ++i) t.push (rare ? f : letter (al)); if (rare) for (size_t k = R.below (6); k--;) t[R.pos (n - 1)] = letter (al);
    const size_t pm = 20000000 / n; size_t a = R.pos (n - 1), l = R.chance (1, 3) ? R.below (pm) : R.below (40); if (l > n - a) l = n - a;
    p.insert (0, t.p + a, l); if (p.n && R.chance (1, 4)) p[R.pos (p.n - 1)] = letter (al);
    if (R.chance (1, 6)) { p = t; if (R.chance (1, 2)) p.push ('a'); }
    Holder ht (t), hp (p); trace ("%zu in %zu, alphabet %d%s", p.n, t.n, al, rare ? ", rare letters" : "");
    for (int i = 0; i < 3; ++i) search (ht.s, t, hp.s, p, letter (al), R.pos (n));
    search (ht.s, t, hp.s, p, letter (al), NPOS); search (ht.s, t, hp.s, p, letter (al), R.chance (1, 2) ? 0 : n);
    MS y (t); if (R.chance (2, 3)) y[R.pos (n - 1)] = letter (al); if (R.chance (1, 4)) y.push (letter (al)); if (R.chance (1, 4)) y.pop();
    compare (t, y);
    VC (ht.s.size() == t.n && !memcmp (ht.s.begin(), t.p, t.n), "modified", "a search changed the text");
}
VF_CASE (c06_compare, 300, 3000)
{
    for (int i = 0; i < 30; ++i) {
	int al = R.below (5); MS x = text (R.chance (1, 8) ? 700 : 12, al), y;
	if (R.chance (1, 2)) { y = x; if (y.n && R.chance (1, 2)) y[R.below (y.n)] = letter (al); if (R.chance (1, 4)) y.push (letter (al)); if (y.n && R.chance (1, 4)) y.pop(); }
	else y = text (12, al);
	compare (x, y);
    }
}
