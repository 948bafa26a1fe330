// C25: iterator adaptors stand for the loops they replace.
#include "vf.h"
using namespace vf;
using namespace ustl;
namespace {
//--- values: an int, a byte or a text, known by number ----------------------------------
template <typename T> struct Val { static T of (unsigned v) { return T (v); } static bool is (const T& t, unsigned v) { return t == T (v); } static const char* nm (void) { return sizeof(T) == 1 ? "byte" : "int"; } };
template <> struct Val<string> {
    static string of (unsigned v) { char b [60]; snprintf (b, 60, "value %u%s", v, v % 3 ? " of some length, enough to need memory" : ""); string r; r.assign (b, strlen (b)); return r; }
    static bool is (const string& t, unsigned v) { return t == of (v); }
    static const char* nm (void) { return "string"; }
};
typedef Arr<unsigned> Nums;
Nums nums (size_t n, unsigned span) { Nums r; for (size_t i = 0; i < n; ++i) r.push (R.below (span)); return r; }
template <typename C> void load (C& c, const Nums& v) { typedef typename C::value_type T; c.clear(); for (size_t i = 0; i < v.n; ++i) c.push_back (Val<T>::of (v[i])); }
template <typename C> void holds (const C& c, const Nums& v, const char* what)
{
    typedef typename C::value_type T; ops();
    VC (c.size() == v.n, "size", "%s: %zu elements instead of %zu", what, size_t (c.size()), v.n);
    for (size_t i = 0; i < v.n; ++i) VC (Val<T>::is (c.begin()[i], v[i]), "element", "%s: element %zu of %zu is not %u", what, i, v.n, v[i]);
}
//--- a walk of an adaptor, position by position -------------------------------------------
struct Where { const void* base; size_t n, sz; const size_t* ix; int how; };	// how: 0 forward, 1 reverse, 2 by index
const void* addr (const Where& w, size_t k) { const size_t i = w.how == 1 ? w.n - 1 - k : w.how == 2 ? w.ix[k] : k; return (const char*) w.base + i * w.sz; }
template <typename T> const void* ad (const T& v) { return &v; }
template <typename T> const void* adp (T* const& v) { return v; }	// what index_iterate gives
struct ByRef { template <typename I> static const void* at (const I& i) { return ad (*i); } template <typename I> static const void* sub (const I& i, size_t k) { return ad (i[k]); } template <typename I> static const void* arrow (const I& i) { return i.operator->(); } };
struct ByMove { template <typename I> static const void* at (const I& i) { return ad (*i); } template <typename I> static const void* sub (const I& i, size_t k) { return ad (i[k]); } template <typename I> static const void* arrow (const I& i) { return at (i); } };
struct ByVal { template <typename I> static const void* at (const I& i) { return adp (*i); } template <typename I> static const void* sub (const I& i, size_t k) { return adp (i[k]); } template <typename I> static const void* arrow (const I& i) { return at (i); } };
template <typename A, typename I> [[gnu::noinline]] void walk (const char* nm, I first, const Where& w)
{
    I it (first), mark (first); size_t k = 0, mk = 0; const size_t n = w.n;
    const unsigned steps = 12 + R.below (30);
    for (unsigned s = 0; s < steps; ++s) {
	const unsigned op = R.below (12); size_t d; int l = -1;
	switch (op) {
	    case 0: if (k < n) { I& r = ++it; ++k; VC (&r == &it, "result", "%s: ++ does not return the iterator", nm); } break;
	    case 1: if (k) { I& r = --it; --k; VC (&r == &it, "result", "%s: -- does not return the iterator", nm); } break;
	    case 2: if (k < n) { I o (it++); VC (A::at (o) == addr (w, k), "post", "%s: it++ at %zu of %zu", nm, k, n); ++k; } break;
	    case 3: if (k) { I o (it--); if (k < n) VC (A::at (o) == addr (w, k), "post", "%s: it-- at %zu of %zu", nm, k, n); --k; } break;
	    case 4: d = R.below (n - k + 1); { I& r = (it += d); VC (&r == &it, "result", "%s: += does not return the iterator", nm); } k += d; l = d; break;
	    case 5: d = R.below (k + 1); { I& r = (it -= d); VC (&r == &it, "result", "%s: -= does not return the iterator", nm); } k -= d; l = d; break;
	    case 6: d = R.below (n - k + 1); { const I c (it); I r (c + d); it = r; } k += d; l = d; break;
	    case 7: d = R.below (k + 1); { const I c (it); I r (c - d); it = r; } k -= d; l = d; break;
	    case 8: mark = it; mk = k; break;
	    case 9: { I t (it); it = mark; mark = t; size_t x = k; k = mk; mk = x; break; }
	    case 10: if (k < n) { d = R.below (n - k); VC (A::sub (it, d) == addr (w, k + d), "subscript", "%s: it[%zu] at %zu of %zu", nm, d, k, n); l = d; } break;
	    case 11: { I t; t = it; it = t; break; }
	}
	ops();
	if (k < n) { VC (A::at (it) == addr (w, k), "position", "%s: after operation %u by %d it is not at %zu of %zu", nm, op, l, k, n); VC (A::arrow (it) == addr (w, k), "arrow", "%s: -> after operation %u by %d at %zu of %zu", nm, op, l, k, n); }
	const I& a = it; const I& b = mark; const i64 df = i64 (k) - i64 (mk);
	VC ((a == b) == (df == 0) && (a != b) == (df != 0), "equal", "%s: positions %zu and %zu", nm, k, mk);
	VC ((a < b) == (df < 0) && (a > b) == (df > 0) && (a <= b) == (df <= 0) && (a >= b) == (df >= 0), "less", "%s: positions %zu and %zu", nm, k, mk);
	VC (a - b == df && distance (b, a) == df && distance (a, b) == -df, "difference", "%s: positions %zu and %zu give %td", nm, k, mk, ptrdiff_t (a - b));
	VC (a - first == i64 (k), "difference", "%s: position %zu is %td from the first", nm, k, ptrdiff_t (a - first));
	VC (abs_distance (a, b) == size_t (df < 0 ? -df : df), "difference", "%s: abs_distance of %zu and %zu", nm, k, mk);
	sig (hmix (hbytes (nm, strlen (nm)), op * 100 + (k == 0) * 10 + (k == n) * 20 + (n < 2 ? n : 2) + (df < 0 ? 40 : df ? 60 : 0)));
    }
}
template <typename T> [[gnu::noinline]] void walks (void)
{
    const size_t n = R.chance (1, 80) ? 300 + R.below (sizeof(T) > 8 ? 700 : 70000) : R.chance (1, 5) ? R.below (3) : R.below (30); vector<T> v; load (v, nums (n, 200)); const vector<T>& cv = v; typedef T* P; typedef const T* CP;
    size_t ix [80]; size_t xn = n ? R.below (60) : 0; for (size_t i = 0; i < xn; ++i) ix[i] = R.below (n);
    const Where f = { v.begin(), n, sizeof(T), ix, 0 }, r = { v.begin(), n, sizeof(T), ix, 1 }, x = { v.begin(), xn, sizeof(T), ix, 2 };
    trace ("%zu elements of %s, %zu indexes", n, Val<T>::nm(), xn);
    switch (R.below (12)) {
	case 0: walk<ByRef> ("rbegin()", v.rbegin(), r); break;
	case 1: walk<ByRef> ("const rbegin()", cv.rbegin(), r); break;
	case 2: walk<ByRef> ("make_reverse_iterator", make_reverse_iterator (v.end()), r); break;
	case 3: walk<ByRef> ("reverse of reverse", reverse_iterator<reverse_iterator<P>> (v.rend()), f); break;
	case 4: walk<ByRef> ("move_iterator", make_move_iterator (v.begin()), f); break;
	case 5: walk<ByRef> ("move of reverse", make_move_iterator (v.rbegin()), r); break;
	case 6: walk<ByVal> ("index_iterator", index_iterator (v.begin(), (const size_t*) ix), x); break;
	case 7: walk<ByVal> ("const index_iterator", index_iterator (cv.begin(), (size_t*) ix), x); break;
	case 8: { for (size_t i = 0; i < xn / 2; ++i) { size_t t = ix[i]; ix[i] = ix[xn-1-i]; ix[xn-1-i] = t; } reverse_iterator<const size_t*> b (ix + xn); size_t iy [80]; for (size_t i = 0; i < xn; ++i) iy[i] = ix[xn-1-i]; Where y = x; y.ix = iy; walk<ByVal> ("index over reverse", index_iterator (v.begin(), b), y); break; }
	case 9: walk<ByRef> ("crbegin()", v.crbegin(), r); break;
	case 10: walk<ByRef> ("ustl::rbegin", ustl::rbegin (v), r); break;
	case 11: walk<ByMove> ("reverse of move", reverse_iterator<move_iterator<P>> (make_move_iterator (v.end())), r); break;
    }
    // ends and bases
    VC (v.rend() - v.rbegin() == ptrdiff_t (n) && cv.rend() - cv.rbegin() == ptrdiff_t (n) && v.crend() - v.crbegin() == ptrdiff_t (n), "ends", "reverse range of %zu", n);
    VC (v.rbegin().base() == v.end() && v.rend().base() == v.begin() && cv.crend().base() == cv.begin() && make_move_iterator (v.end()).base() == v.end() && index_iterator (v.begin(), (size_t*) ix + xn).base() == ix + xn, "base", "base of adaptors over %zu", n);
    VC (ustl::rend (v) == v.rend() && ustl::crbegin (v) == cv.rbegin() && ustl::crend (v) == cv.rend() && ustl::rbegin (cv) == cv.rbegin() && ustl::rend (cv) == cv.rend(), "ends", "ustl::rend and the like");
    VC (ustl::begin (v) == v.begin() && ustl::end (v) == v.end() && ustl::begin (cv) == cv.begin() && ustl::end (cv) == cv.end() && ustl::cbegin (v) == cv.begin() && ustl::cend (v) == cv.end(), "ends", "ustl::begin and the like");
    VC (ustl::size (v) == n && ustl::empty (v) == !n && ustl::data (v) == v.data() && ustl::data (cv) == cv.data(), "size", "ustl::size of %zu", n);
    { reverse_iterator<P> dr; move_iterator<P> dm; VC (dr.base() == nullptr && dm.base() == nullptr && dr == reverse_iterator<P>(), "default", "default made adaptors"); }
    // writing through
    if (n) { size_t k = R.below (n); unsigned nv = 900 + R.below (50); switch (R.below (4)) {
	case 0: *(v.rbegin() + k) = Val<T>::of (nv); k = n - 1 - k; break; case 1: v.rbegin()[k] = Val<T>::of (nv); k = n - 1 - k; break;
	case 2: { reverse_iterator<P> i (v.rend()); i -= n - k; *i = Val<T>::of (nv); k = n - 1 - k; break; } case 3: { size_t xx[1] = { k }; **index_iterator (v.begin(), (size_t*) xx) = Val<T>::of (nv); break; } }
	VC (Val<T>::is (v[k], nv), "write", "written element %zu of %zu", k, n); }
    // visiting
    { size_t i = n; foreach (P, p, v) VC (p == &v[n - i--], "foreach", "visits the wrong element"); VC (!i, "foreach", "%zu not visited", i); i = n; eachfor (typename vector<T>::reverse_iterator, p, v) VC (&*p == &v[--i], "eachfor", "visits the wrong element"); VC (!i, "eachfor", "%zu not visited", i); }
}
void arrays (void)
{
    int a [7] = { 1, 2, 3, 4, 5, 6, 7 }; char c [3] = { 1, 2, 3 }; const int ca [2] = { 3, 4 };
    VC (ustl::begin (a) == a && ustl::end (a) == a + 7 && ustl::size (a) == 7 && ustl::data (a) == a && VectorEnd (a) == a + 7 && VectorSize (a) == 7, "array", "range of int[7]");
    VC (ustl::begin (c) == c && ustl::end (c) == c + 3 && ustl::size (c) == 3 && VectorSize (c) == 3, "array", "range of char[3]");
    VC (ustl::begin (ca) == ca && ustl::end (ca) == ca + 2 && ustl::cbegin (a) == a && ustl::cend (a) == a + 7 && ustl::size (ca) == 2 && ustl::data (ca) == ca, "array", "range of const int[2]");
    int s = 0; foreach (int*, i, a) s = s * 10 + *i; VC (s == 1234567, "foreach", "over an array gives %d", s);
    VC (size_of_elements (5, a) == 20 && size_of_elements (3, c) == 3, "array", "size_of_elements");
    char* p = c; const i64 o = R.range (0, 3); void* vp = c; const void* cp = c; ops (4);
    VC (advance_ptr (p, o) == c + o && advance_ptr ((void*) c, o) == c + o && advance_ptr ((const void*) c, o) == c + o && advance_ptr (a, o) == a + o, "advance", "advance_ptr by %d", int (o));
    VC (advance (p, o) == c + o && p == c + o && advance (vp, o) == c + o && vp == c + o && advance (cp, o) == c + o && cp == c + o, "advance", "advance by %d", int (o));
    VC (advance (p, -o) == c && p == c && advance (vp, -o) == c, "advance", "advance by %d", int (-o));
    int* q = a + R.below (8); int* r = a + R.below (8); const int* cr = r; const void *cv = q, *cw = r;
    VC (distance (q, r) == r - q && distance (q, cr) == r - q && distance (cr, q) == q - r && abs_distance (q, r) == size_t (q > r ? q - r : r - q), "distance", "of int pointers");
    VC (distance (cv, cw) == (r - q) * 4 && distance ((void*) q, (void*) r) == (r - q) * 4 && distance ((void*) q, cw) == (r - q) * 4 && distance (cv, (void*) r) == (r - q) * 4, "distance", "of void pointers");
    VC (abs_distance (5, 9) == 4 && abs_distance (9, 5) == 4, "distance", "of numbers"); sig (hmix (777, (q - a) * 8 + (r - a)));
    // ibyi, unconst
    vector<int> v (R.below (9) + 1); vector<string> t (v.size()); const vector<int>& cvv = v; const vector<string>& ct = t; const size_t k = R.below (v.size() + 1);
    VC ((ibyi (v.begin() + k, v, t) == t.begin() + k), "ibyi", "at %zu", k);
    VC ((ibyi (cvv.begin() + k, cvv, ct) == ct.begin() + k), "ibyi", "at %zu", k);
    VC ((ibyi (cvv.begin() + k, cvv, t) == t.begin() + k) && (ibyi (v.begin() + k, v, ct) == ct.begin() + k), "ibyi", "at %zu", k);
    VC (unconst (cvv.begin() + k, v) == v.begin() + k, "unconst", "at %zu", k);
    // index containers
    vector<size_t> x; for (size_t i = R.below (20); i--;) x.push_back (R.below (v.size())); vector<vector<int>::iterator> ic (R.below (5)); indexv_to_iteratorv (v.begin(), x, ic);
    VC (ic.size() == x.size(), "indexv", "%zu iterators of %zu indexes", size_t (ic.size()), size_t (x.size())); for (size_t i = 0; i < x.size(); ++i) VC (ic[i] == v.begin() + x[i], "indexv", "iterator %zu", i);
}
//--- algorithms through adaptors ---------------------------------------------------------------
unsigned s_lim; template <typename T> struct Below { bool operator() (const T& v) const { return v < Val<T>::of (s_lim); } };
template <typename T> struct Gather { vector<T>* o; void operator() (const T& v) const { o->push_back (v); } };
template <typename T> struct Same { T operator() (const T& a, const T& b) const { return a < b ? b : a; } T operator() (const T& a) const { return a; } };
unsigned vless (const string*, unsigned a, unsigned b) { return Val<string>::of (a) < Val<string>::of (b); }
template <typename T> bool mless (unsigned a, unsigned b) { return Val<T>::of (a) < Val<T>::of (b); }
template <typename T> [[gnu::noinline]] void algos (void)
{
    const size_t n = R.chance (1, 80) ? R.below (600) : R.below (40); const unsigned span = R.chance (1, 2) ? 6 : 100; Nums a = nums (n, span), b = nums (n, span); vector<T> v, w; load (v, a); load (w, b); const vector<T>& cv = v; const vector<T>& cw = w;
    const unsigned k = R.below (26), pick = R.below (span); const T pv (Val<T>::of (pick)); s_lim = R.below (span); const size_t m = R.below (n + 1);
    trace ("algorithm %u over %zu of %s, value %u, middle %zu", k, n, Val<T>::nm(), pick, m); sig (hmix (hbytes (Val<T>::nm(), 3), k * 1000 + (n < 3 ? n : 3) * 100 + (m == 0) + (m == n) * 2 + (span == 6) * 4));
    Nums e; size_t i;
    switch (k) {
	case 0: { auto r = copy (cv.rbegin(), cv.rend(), w.begin()); for (i = 0; i < n; ++i) e.push (a[n-1-i]); holds (w, e, "copy of a reverse range"); VC (r == w.end(), "result", "copy"); break; }
	case 1: { auto r = copy (cv.begin(), cv.begin() + m, w.rbegin()); e = b; for (i = 0; i < m; ++i) e[n-1-i] = a[i]; holds (w, e, "copy to a reverse range"); VC (r == w.rbegin() + m, "result", "copy"); break; }
	case 2: { auto r = copy_n (cv.rbegin() + m, n - m, w.rbegin() + m); e = b; for (i = m; i < n; ++i) e[n-1-i] = a[n-1-i]; holds (w, e, "copy_n of a reverse range"); VC (r == w.rend(), "result", "copy_n"); break; }
	case 3: { auto r = find (v.rbegin(), v.rend(), pv); for (i = n; i && a[i-1] != pick; --i) ; VC (r.base() == v.begin() + i, "result", "find of %u in reverse found %td instead of %zu", pick, r.base() - v.begin(), i); break; }
	case 4: { auto r = find_if (cv.rbegin(), cv.rend(), Below<T>()); for (i = n; i && !mless<T> (a[i-1], s_lim); --i) ; VC (r.base() == v.begin() + i, "result", "find_if in reverse"); break; }
	case 5: { size_t c = 0; for (i = 0; i < n; ++i) c += a[i] == pick; VC (size_t (count (v.rbegin(), v.rend(), pv)) == c, "result", "count in reverse"); c = 0; for (i = 0; i < n; ++i) c += mless<T> (a[i], s_lim); VC (size_t (count_if (cv.rbegin(), cv.rend(), Below<T>())) == c, "result", "count_if in reverse"); break; }
	case 6: { for (i = 0; i < n; ++i) e.push (a[n-1-i]); load (w, e); if (n && R.chance (1, 2)) { i = R.below (n); w[i] = Val<T>::of (span + 5); load (w, a); if (i != ~size_t(0)) w[i] = Val<T>::of (span + 5); VC (!equal (cv.rbegin(), cv.rend(), cw.rbegin()), "result", "equal in reverse with a difference at %zu", i); } else { load (w, a); VC (equal (cv.rbegin(), cv.rend(), cw.rbegin()), "result", "equal in reverse"); }; break; }
	case 7: { vector<T> o; Gather<T> g = { &o }; for_each (v.rbegin() + m, v.rend(), g); for (i = n - m; i--;) e.push (a[i]); holds (o, e, "for_each in reverse"); break; }
	case 8: { auto r = transform (v.rbegin(), v.rend(), w.begin(), Same<T>()); for (i = n; i--;) e.push (a[i]); holds (w, e, "transform of a reverse range"); VC (r == w.end(), "result", "transform"); break; }
	case 9: { transform (v.rbegin(), v.rend(), w.begin(), w.begin(), Same<T>()); for (i = 0; i < n; ++i) e.push (mless<T> (a[n-1-i], b[i]) ? b[i] : a[n-1-i]); holds (w, e, "binary transform with a reverse range"); break; }
	case 10: { fill (v.rbegin(), v.rbegin() + m, pv); e = a; for (i = 0; i < m; ++i) e[n-1-i] = pick; holds (v, e, "fill in reverse"); break; }
	case 11: { replace (v.rbegin() + m, v.rend(), pv, Val<T>::of (span + 3)); e = a; for (i = 0; i < n - m; ++i) if (e[i] == pick) e[i] = span + 3; holds (v, e, "replace in reverse"); break; }
	case 12: { auto r = max_element (cv.rbegin(), cv.rend()); if (n) { size_t bst = n - 1; for (i = n; i--;) if (mless<T> (a[bst], a[i])) bst = i; VC (Val<T>::is (*r, a[bst]), "result", "max_element in reverse"); } break; }
	case 13: { // sorted downward when seen in reverse
	    for (i = 1; i < n; ++i) for (size_t j = i; j && mless<T> (a[j-1], a[j]); --j) { unsigned t = a[j]; a[j] = a[j-1]; a[j-1] = t; } load (v, a);
	    auto r = lower_bound (v.rbegin(), v.rend(), pv); for (i = 0; i < n && mless<T> (a[n-1-i], pick); ++i) ; VC (r - v.rbegin() == ptrdiff_t (i), "result", "lower_bound in reverse gives %td instead of %zu", r - v.rbegin(), i);
	    auto u = upper_bound (v.rbegin(), v.rend(), pv); for (; i < n && !mless<T> (pick, a[n-1-i]); ++i) ; VC (u - v.rbegin() == ptrdiff_t (i), "result", "upper_bound in reverse gives %td instead of %zu", u - v.rbegin(), i);
	    break; }
	case 14: { auto r = remove_if (v.rbegin(), v.rend(), Below<T>()); for (i = n; i--;) if (!mless<T> (a[i], s_lim)) e.push (a[i]); VC (r - v.rbegin() == ptrdiff_t (e.n), "result", "remove_if in reverse"); for (i = 0; i < e.n; ++i) VC (Val<T>::is (v[n-1-i], e[i]), "element", "remove_if in reverse, element %zu", i); break; }
	case 15: { auto r = unique (v.rbegin(), v.rend()); for (i = n; i--;) if (!e.n || e[e.n-1] != a[i]) e.push (a[i]); VC (r - v.rbegin() == ptrdiff_t (e.n), "result", "unique in reverse"); for (i = 0; i < e.n; ++i) VC (Val<T>::is (v[n-1-i], e[i]), "element", "unique in reverse, element %zu", i); break; }
	case 16: { reverse (v.rbegin(), v.rbegin() + m); e = a; for (i = 0; i < m; ++i) e[n-1-i] = a[n-m+i]; holds (v, e, "reverse of a reverse range"); break; }
	case 17: { auto r = mismatch (cv.rbegin(), cv.rend(), cw.rbegin()); for (i = 0; i < n && a[n-1-i] == b[n-1-i]; ++i) ; VC (r.first - cv.rbegin() == ptrdiff_t (i) && r.second - cw.rbegin() == ptrdiff_t (i), "result", "mismatch in reverse"); break; }
	case 18: { swap_ranges (v.rbegin(), v.rbegin() + m, w.rbegin()); Nums f = b; e = a; for (i = 0; i < m; ++i) { e[n-1-i] = b[n-1-i]; f[n-1-i] = a[n-1-i]; } if (m) { holds (v, e, "swap_ranges"); holds (w, f, "swap_ranges"); } break; }
	case 19: { // moved from
	    auto r = copy (make_move_iterator (v.begin()), make_move_iterator (v.begin() + m), w.begin()); e = b; for (i = 0; i < m; ++i) e[i] = a[i]; holds (w, e, "moving copy"); VC (r == w.begin() + m, "result", "moving copy"); for (i = m; i < n; ++i) VC (Val<T>::is (v[i], a[i]), "element", "moving copy changed element %zu", i); break; }
	case 20: { vector<T> o; for (auto p = make_move_iterator (v.rbegin()); p != make_move_iterator (v.rend()); ++p) o.push_back (*p); for (i = n; i--;) e.push (a[i]); holds (o, e, "moved in reverse"); break; }
	case 21: { if (!n) break; size_t x [60]; size_t xn = R.below (60); for (i = 0; i < xn; ++i) x[i] = R.below (n); vector<T> o; for (auto p = index_iterator (cv.begin(), (const size_t*) x); p < index_iterator (cv.begin(), (const size_t*) x + xn); ++p) { o.push_back (**p); e.push (a[x[p.base()-x]]); } holds (o, e, "by index"); vector<const T*> q (xn); copy (index_iterator (cv.begin(), (const size_t*) x), index_iterator (cv.begin(), (const size_t*) x + xn), q.begin()); for (i = 0; i < xn; ++i) VC (q[i] == &v[x[i]], "element", "copied index %zu", i); break; }
	case 22: { auto r = adjacent_find (cv.rbegin(), cv.rend()); for (i = 0; i + 1 < n && a[n-1-i] != a[n-2-i]; ++i) ; if (i + 1 >= n) i = n; VC (r - cv.rbegin() == ptrdiff_t (i), "result", "adjacent_find in reverse"); break; }
	case 23: { auto r = replace_copy_if (cv.rbegin(), cv.rend(), w.begin(), Below<T>(), pv); for (i = n; i--;) e.push (mless<T> (a[i], s_lim) ? pick : a[i]); holds (w, e, "replace_copy_if"); VC (r == w.end(), "result", "replace_copy_if"); break; }
	case 24: { if (!n) break; i = R.below (n); const size_t j = R.below (n); iter_swap (v.rbegin() + i, v.rbegin() + j); e = a; const unsigned t = e[n-1-i]; e[n-1-i] = e[n-1-j]; e[n-1-j] = t; holds (v, e, "iter_swap"); break; }
	case 25: { copy_backward (cv.rbegin(), cv.rbegin() + m, w.rbegin() + m); e = b; for (i = 0; i < m; ++i) e[n-1-i] = a[n-1-i]; holds (w, e, "copy_backward of reverse ranges"); break; }
    }
    ops();
}
//--- algorithms over a reversed range, against the same algorithm done by hand on the mirrored values ---
template <typename T> Nums sorted (Nums a) { for (size_t i = 1; i < a.n; ++i) for (size_t j = i; j && mless<T> (a[j], a[j-1]); --j) { unsigned t = a[j]; a[j] = a[j-1]; a[j-1] = t; } return a; }
Nums mirror (const Nums& a) { Nums r; for (size_t i = a.n; i--;) r.push (a[i]); return r; }
template <typename T> bool lexless (const Nums& a, const Nums& b) { size_t i = 0; for (; i < a.n && i < b.n; ++i) { if (mless<T> (a[i], b[i])) return true; if (mless<T> (b[i], a[i])) return false; } return i == a.n && i < b.n; }
template <typename T> [[gnu::noinline]] void mirrored (void)
{
    typedef reverse_iterator<T*> RI; const size_t n = R.below (R.chance (1, 3) ? 6 : 30), q = R.below (R.chance (1, 3) ? 4 : 30); const unsigned span = R.chance (1, 2) ? 4 : 60; const unsigned k = R.below (25), pick = R.below (span); const size_t m = R.below (n + 1);
    Nums a = nums (n, span), b = nums (q, span), e; const T pv (Val<T>::of (pick)); s_lim = R.below (span); size_t i, j; const Below<T> pr = Below<T>();
    if (k == 3 || k == 6 || (k >= 8 && k <= 12)) { a = sorted<T> (a); b = sorted<T> (b); }
    if (k == 4) { Nums x, y; for (i = 0; i < m; ++i) x.push (a[i]); for (; i < n; ++i) y.push (a[i]); x = sorted<T> (x); y = sorted<T> (y); for (i = 0; i < n; ++i) a[i] = i < m ? x[i] : y[i-m]; }
    vector<T> v, w, o (n + q); load (v, mirror (a)); load (w, mirror (b)); const vector<T>& cv = v; const vector<T>& cw = w; RI f (v.rbegin()), l (v.rend());
    trace ("algorithm %u over %zu and %zu of %s seen in reverse, value %u, middle %zu", k, n, q, Val<T>::nm(), pick, m); sig (hmix (hbytes (Val<T>::nm(), 3), 50000 + k * 1000 + (n < 3 ? n : 3) * 100 + (m == 0) + (m == n) * 2 + (span == 4) * 4 + (q < 3 ? q : 3) * 10));
    switch (k) {
	case 0: rotate (f, f + m, l); for (i = 0; i < n; ++i) e.push (a[(i+m)%n]); holds (v, mirror (e), "rotate in reverse"); break;
	case 1: { auto r = rotate_copy (cv.rbegin(), cv.rbegin() + m, cv.rend(), o.begin()); for (i = 0; i < n; ++i) e.push (a[(i+m)%n]); VC (r == o.begin() + n, "result", "rotate_copy"); for (i = 0; i < n; ++i) VC (Val<T>::is (o[i], e[i]), "element", "rotate_copy in reverse, element %zu", i); break; }
	case 2: { auto r = reverse_copy (cv.rbegin(), cv.rend(), o.begin()); VC (r == o.begin() + n, "result", "reverse_copy"); for (i = 0; i < n; ++i) VC (Val<T>::is (o[i], a[n-1-i]), "element", "reverse_copy in reverse, element %zu", i); break; }
	case 3: case 8: case 9: case 10: case 11: { // merge, union, intersection, difference, symmetric difference
	    for (i = j = 0; i < n || j < q;) { const bool ta = j == q || (i < n && mless<T> (a[i], b[j])), tb = i == n || (j < q && mless<T> (b[j], a[i]));
		if (ta) { if (k != 9) e.push (a[i]); ++i; } else if (tb) { if (k == 3 || k == 8 || k == 11) e.push (b[j]); ++j; } else if (k == 3) { e.push (a[i++]); } else { if (k == 8 || k == 9) e.push (a[i]); ++i; ++j; } }
	    const auto fa = cv.rbegin(), la = cv.rend(), fb = cw.rbegin(), lb = cw.rend(); RI t (o.rbegin()), r (t);
	    switch (k) { case 3: r = merge (fa, la, fb, lb, t); break; case 8: r = set_union (fa, la, fb, lb, t); break; case 9: r = set_intersection (fa, la, fb, lb, t); break; case 10: r = set_difference (fa, la, fb, lb, t); break; case 11: r = set_symmetric_difference (fa, la, fb, lb, t); break; }
	    VC (r - t == ptrdiff_t (e.n), "result", "set operation %u gives %td elements instead of %zu", k, ptrdiff_t (r - t), e.n); for (i = 0; i < e.n; ++i) VC (Val<T>::is (t[i], e[i]), "element", "set operation %u in reverse, element %zu", k, i); break; }
	case 4: inplace_merge (f, f + m, l); holds (v, mirror (sorted<T> (a)), "inplace_merge in reverse"); break;
	case 5: { auto r = R.chance (1, 2) ? remove_copy (cv.rbegin(), cv.rend(), o.rbegin(), pv) : RI (remove_copy (f, l, o.rbegin(), pv)); for (i = 0; i < n; ++i) if (a[i] != pick) e.push (a[i]); VC (r - o.rbegin() == ptrdiff_t (e.n), "result", "remove_copy in reverse"); for (i = 0; i < e.n; ++i) VC (Val<T>::is (o.rbegin()[i], e[i]), "element", "remove_copy in reverse, element %zu", i); break; }
	case 6: { for (i = 0; i < n && mless<T> (a[i], pick); ++i) ; for (j = i; j < n && a[j] == pick; ++j) ; VC (binary_search (f, l, pv) == (j > i), "result", "binary_search in reverse"); auto r = equal_range (cv.rbegin(), cv.rend(), pv); VC (r.first - cv.rbegin() == ptrdiff_t (i) && r.second - cv.rbegin() == ptrdiff_t (j), "result", "equal_range in reverse gives %td and %td instead of %zu and %zu", ptrdiff_t (r.first - cv.rbegin()), ptrdiff_t (r.second - cv.rbegin()), i, j); VC (is_sorted (f, l), "result", "is_sorted in reverse"); break; }
	case 7: { auto r = stable_partition (f, l, pr); for (i = 0; i < n; ++i) if (mless<T> (a[i], s_lim)) e.push (a[i]); const size_t p = e.n; for (i = 0; i < n; ++i) if (!mless<T> (a[i], s_lim)) e.push (a[i]); VC (r - f == ptrdiff_t (p), "result", "stable_partition in reverse"); holds (v, mirror (e), "stable_partition in reverse"); break; }
	case 12: { for (i = j = 0; i < q && j < n;) { if (mless<T> (a[j], b[i])) ++j; else if (mless<T> (b[i], a[j])) break; else { ++i; ++j; } } VC (includes (cv.rbegin(), cv.rend(), cw.rbegin(), cw.rend()) == (i == q), "result", "includes in reverse"); break; }
	case 13: { Nums p; const size_t at = R.below (n + 1), pn = R.chance (1, 4) ? 1 + R.below (3) : n - at < 3 ? n - at : 1 + R.below (3); if (!pn) break; for (i = 0; i < pn; ++i) p.push (at + pn <= n && !R.chance (1, 12) ? a[at+i] : R.below (span)); vector<T> ptv; load (ptv, mirror (p)); const vector<T>& pt = ptv;
	    size_t fw = n, bw = n; for (i = 0; i + pn <= n; ++i) { for (j = 0; j < pn && a[i+j] == p[j]; ++j) ; if (j == pn) { if (fw == n) fw = i; bw = i; } }
	    VC (search (cv.rbegin(), cv.rend(), pt.rbegin(), pt.rend()) - cv.rbegin() == ptrdiff_t (fw), "result", "search in reverse does not find %zu", fw); VC (find_end (cv.rbegin(), cv.rend(), pt.rbegin(), pt.rend()) - cv.rbegin() == ptrdiff_t (bw), "result", "find_end in reverse does not find %zu", bw); break; }
	case 14: { const size_t c = 1 + R.below (3); size_t fw = n; for (i = 0; i + c <= n && fw == n; ++i) { for (j = 0; j < c && a[i+j] == pick; ++j) ; if (j == c) fw = i; } VC (search_n (f, l, c, pv) - f == ptrdiff_t (fw), "result", "search_n in reverse does not find %zu", fw); break; }
	case 15: { for (i = 0; i < n; ++i) { for (j = 0; j < q && a[i] != b[j]; ++j) ; if (j < q) break; } VC (find_first_of (cv.rbegin(), cv.rend(), cw.rbegin(), cw.rend()) - cv.rbegin() == ptrdiff_t (i), "result", "find_first_of in reverse does not find %zu", i); break; }
	case 16: { if (R.chance (1, 2)) { b = a; if (n && R.chance (2, 3)) b[R.below (n)] = R.below (span); load (w, mirror (b)); } VC (lexicographical_compare (cv.rbegin(), cv.rend(), cw.rbegin(), cw.rend()) == lexless<T> (a, b), "result", "lexicographical_compare in reverse"); break; }
	case 17: { if (n > 9) break; const bool nx = R.chance (1, 2); const bool r = nx ? next_permutation (f, l) : prev_permutation (f, l); e = a; // by hand
	    bool more = false; for (i = n; i-- > 1;) if (nx ? mless<T> (e[i-1], e[i]) : mless<T> (e[i], e[i-1])) { for (j = n - 1; !(nx ? mless<T> (e[i-1], e[j]) : mless<T> (e[j], e[i-1])); --j) ; unsigned t = e[i-1]; e[i-1] = e[j]; e[j] = t; more = true; break; }
	    if (!more) i = 0; for (j = n; i < --j && j < n; ++i) { unsigned t = e[i]; e[i] = e[j]; e[j] = t; } VC (r == more, "result", "%s_permutation in reverse", nx ? "next" : "prev"); holds (v, mirror (e), "permutation in reverse"); break; }
	case 18: { if (!n) break; i = j = 0; for (size_t x = 1; x < n; ++x) { if (mless<T> (a[x], a[i])) i = x; if (!mless<T> (a[x], a[j])) j = x; } VC (min_element (f, l) - f == ptrdiff_t (i), "result", "min_element in reverse"); auto r = minmax_element (cv.rbegin(), cv.rend()); VC (r.first - cv.rbegin() == ptrdiff_t (i) && Val<T>::is (*r.second, a[j]), "result", "minmax_element in reverse"); break; }
	case 19: stable_sort (f, l); holds (v, mirror (sorted<T> (a)), "stable_sort in reverse"); break;
	case 20: { make_heap (f, l); VC (is_heap (f, l), "result", "make_heap in reverse"); for (i = 1; i < n; ++i) VC (!(f[(i-1)/2] < f[i]), "element", "make_heap in reverse, element %zu over its parent", i); sort_heap (f, l); holds (v, mirror (sorted<T> (a)), "sort_heap in reverse"); break; }
	case 21: { for (i = 0; i <= n; ++i) { push_heap (f, f + i); for (j = 1; j < i; ++j) VC (!(f[(j-1)/2] < f[j]), "element", "push_heap in reverse, element %zu over its parent", j); } for (i = n; i > 1; --i) { pop_heap (f, f + i); VC (is_heap (f, f + i - 1), "result", "pop_heap in reverse"); for (j = 0; j + 1 < i; ++j) VC (!(f[i-1] < f[j]), "element", "pop_heap in reverse left element %zu", j); } holds (v, mirror (sorted<T> (a)), "popped heap"); break; }
	case 22: { size_t c = 0; struct Up { size_t* c; T operator() (void) { return Val<T>::of (++*c); } } g = { &c }; if (R.chance (1, 2)) { generate (f, f + m, g); } else { auto r = generate_n (f, m, g); VC (r == f + m, "result", "generate_n in reverse"); } VC (c == m, "result", "generate called %zu times for %zu", c, m); e = a; for (i = 0; i < m; ++i) e[i] = i + 1; holds (v, mirror (e), "generate in reverse"); break; }
	case 23: { auto r = fill_n (f + (n - m), m, pv); VC (r == l, "result", "fill_n in reverse"); e = a; for (i = n - m; i < n; ++i) e[i] = pick; holds (v, mirror (e), "fill_n in reverse"); break; }
	case 24: { auto r = partition (f, l, pr); for (i = 0; i < n; ++i) VC (((f + i) < r) == pr (f[i]), "element", "partition in reverse, element %zu", i); load (w, sorted<T> (a)); stable_sort (v.begin(), v.end()); holds (v, sorted<T> (a), "partitioned"); break; }
    }
    ops();
}
template <> [[gnu::noinline]] inline void mirrored<double> (void)
{
    // numbers: sums from the far end, counting up
    const size_t n = R.below (40), m = R.below (n + 1); i64 a [40]; vector<i64> v, o (n); for (size_t i = 0; i < n; ++i) v.push_back (a[i] = R.range (-1000, 1000)); const vector<i64>& cv = v; size_t i; trace ("sums over %zu in reverse, %zu", n, m);
    i64 s = 5, p = 0; for (i = 0; i < n; ++i) { s += a[i]; p += a[i] * a[n-1-i]; }
    VC (accumulate (cv.rbegin(), cv.rend(), i64 (5)) == s, "result", "accumulate in reverse"); VC (inner_product (cv.rbegin(), cv.rend(), cv.begin(), i64 (0)) == p, "result", "inner_product in reverse");
    partial_sum (cv.rbegin(), cv.rend(), o.rbegin()); s = 0; for (i = n; i--;) { s += a[i]; VC (o[i] == s, "element", "partial_sum in reverse, element %zu", i); }
    if (n) adjacent_difference (cv.rbegin(), cv.rend(), o.rbegin()); for (i = n; i--;) VC (o[i] == (i + 1 == n ? a[i] : a[i] - a[i+1]), "element", "adjacent_difference in reverse, element %zu", i);
    iota (v.rbegin(), v.rbegin() + m, i64 (7)); for (i = 0; i < n; ++i) VC (v[n-1-i] == (i < m ? 7 + i64 (i) : a[n-1-i]), "element", "iota in reverse, element %zu", i);
    ops (5); sig (hmix (60000, n * 64 + m));
}
//--- inserters ----------------------------------------------------------------------------------
template <typename C> [[gnu::noinline]] void ins_at (const char* nm)
{
    typedef typename C::value_type T; Nums a = nums (R.below (12), 200), b = nums (R.below (15), 200), e = a; C c; load (c, a); const size_t at = R.below (a.n + 1); vector<T> s; load (s, b);
    trace ("inserter into %s of %zu at %zu, %zu values", nm, a.n, at, b.n); sig (hmix (hbytes (nm, strlen (nm)), (a.n < 2 ? a.n : 2) * 100 + (at == 0) * 10 + (at == a.n) * 20 + (b.n < 2 ? b.n : 2)));
    for (size_t i = 0; i < b.n; ++i) e.insert (at + i, 1, b[i]);
    switch (R.below (4)) {
	case 0: copy (s.begin(), s.end(), inserter (c, c.begin() + at)); break;
	case 1: { insert_iterator<C> p (c, c.begin() + at); for (size_t i = 0; i < b.n; ++i) { insert_iterator<C>& r = (p = s[i]); VC (&r == &p, "result", "assignment of an inserter"); ++p; } break; }
	case 2: { insert_iterator<C> p (inserter (c, c.begin() + at)); for (size_t i = 0; i < b.n; ++i) *p++ = s[i]; break; }
	case 3: { s_lim = R.below (200); e = a; size_t j = at; for (size_t i = 0; i < b.n; ++i) if (!mless<T> (b[i], s_lim)) e.insert (j++, 1, b[i]); remove_copy_if (s.begin(), s.end(), inserter (c, c.begin() + at), Below<T>()); break; }
    }
    holds (c, e, nm);
}
template <typename C> [[gnu::noinline]] void ins_back (const char* nm)
{
    typedef typename C::value_type T; Nums a = nums (R.below (12), 200), b = nums (R.below (15), 200), e = a; C c; load (c, a); vector<T> s; load (s, b);
    trace ("back_inserter into %s of %zu, %zu values", nm, a.n, b.n); sig (hmix (hbytes (nm, strlen (nm)) + 1, (a.n < 2 ? a.n : 2) * 100 + (b.n < 2 ? b.n : 2)));
    for (size_t i = 0; i < b.n; ++i) e.push (b[i]);
    switch (R.below (6)) {
	case 0: copy (s.begin(), s.end(), back_inserter (c)); break;
	case 1: { back_insert_iterator<C> p (c); for (size_t i = 0; i < b.n; ++i) { back_insert_iterator<C>& r = (p = s[i]); VC (&r == &p, "result", "assignment of an inserter"); p++; } break; }
	case 2: { auto p = back_inserter (c); for (size_t i = 0; i < b.n; ++i) *p++ = s[i]; break; }
	case 3: { copy (s.rbegin(), s.rend(), back_inserter (c)); e = a; for (size_t i = b.n; i--;) e.push (b[i]); break; }
	case 4: { merge (s.begin(), s.begin(), s.begin(), s.end(), back_inserter (c)); break; }
	case 5: { s_lim = R.below (200); copy_if (s.begin(), s.end(), back_inserter (c), Below<T>()); e = a; for (size_t i = 0; i < b.n; ++i) if (mless<T> (b[i], s_lim)) e.push (b[i]); break; }
    }
    holds (c, e, nm);
}
template <typename C> [[gnu::noinline]] void ins_front (const char* nm)
{
    typedef typename C::value_type T; Nums a = nums (R.below (12), 200), b = nums (R.below (15), 200), e = a; C c; load (c, a); vector<T> s; load (s, b);
    trace ("front_inserter into %s of %zu, %zu values", nm, a.n, b.n); sig (hmix (hbytes (nm, strlen (nm)) + 2, (a.n < 2 ? a.n : 2) * 100 + (b.n < 2 ? b.n : 2)));
    for (size_t i = 0; i < b.n; ++i) e.insert (0, 1, b[i]);
    switch (R.below (3)) {
	case 0: copy (s.begin(), s.end(), front_inserter (c)); break;
	case 1: { front_insert_iterator<C> p (c); for (size_t i = 0; i < b.n; ++i) { front_insert_iterator<C>& r = (p = s[i]); VC (&r == &p, "result", "assignment of an inserter"); ++p; } break; }
	case 2: { auto p = front_inserter (c); for (size_t i = 0; i < b.n; ++i) *p++ = s[i]; break; }
    }
    holds (c, e, nm);
}
template <typename C, bool Multi> [[gnu::noinline]] void ins_set (const char* nm)
{
    typedef typename C::value_type T; Nums a = nums (R.below (12), 40), b = nums (R.below (15), 40), e; C c; for (size_t i = 0; i < a.n; ++i) c.insert (Val<T>::of (a[i])); vector<T> s; load (s, b);
    trace ("inserter into %s of %zu, %zu values", nm, a.n, b.n); sig (hmix (hbytes (nm, strlen (nm)) + 3, a.n * 16 + b.n));
    for (size_t i = 0; i < a.n + b.n; ++i) { unsigned x = i < a.n ? a[i] : b[i-a.n]; size_t j = 0; while (j < e.n && mless<T> (e[j], x)) ++j; if (Multi || j == e.n || e[j] != x) e.insert (j, 1, x); }
    switch (R.below (2)) { case 0: copy (s.begin(), s.end(), inserter (c, c.begin() + R.below (c.size() + 1))); break; case 1: copy (s.rbegin(), s.rend(), back_inserter (c)); break; }
    holds (c, e, nm);
}
//--- streams -------------------------------------------------------------------------------------
template <typename T> T num (void) { return T (R.bits()); }
template <> double num<double> (void) { return double (i64 (R.bits() % 100000)) / 8; }
template <typename T> [[gnu::noinline]] void bin_stream (const char* nm)
{
    const size_t n = R.below (30), extra = R.below (2) * R.below (sizeof(T)); T v [40]; for (size_t i = 0; i < 40; ++i) v[i] = num<T>();
    const size_t bytes = n * sizeof(T) + extra; char* b = (char*) arena (bytes + 64); b = (char*) ((uintptr_t (b) + 15) / 16 * 16); memset (b, 0x5A, bytes + 16);
    trace ("%zu of %s, %zu bytes more", n, nm, extra); sig (hmix (hbytes (nm, strlen (nm)) + 4, (n < 3 ? n : 3) * 10 + extra));
    ostream os (b, bytes);
    if (R.chance (1, 2)) copy (v + 0, v + n, ostream_iterator<T> (os)); else { ostream_iterator<T> o (os), z (o); for (size_t i = 0; i < n; ++i) { VC (o == z && !(o < z), "ostream", "positions of two on one stream"); if (i % 2) *o++ = v[i]; else { *o = v[i]; ++o; } } }
    VC (os.pos() == n * sizeof(T) && !memcmp (b, v, os.pos()), "ostream", "%zu of %s written as %zu bytes or differently", n, nm, size_t (os.pos()));
    if (n > 2) { ostream p (b, bytes); ostream_iterator<T> o (p), q (os); size_t k = R.below (n - 1); o += k * sizeof(T); VC (p.pos() == k * sizeof(T) && o < q && !(q < o) && !(o == q), "ostream", "+= %zu", k); *o = v[30]; v[k] = v[30]; VC (!memcmp (b, v, n * sizeof(T)), "ostream", "+= and write at %zu", k); }
    { istream is (b, bytes); is.exceptions (0); Arr<T> g; for (istream_iterator<T> i (is); !(i == istream_iterator<T>()); ++i) g.push (*i); VC (g.n == n && !memcmp (g.p, v, n * sizeof(T)), "istream", "%zu of %s read as %zu or differently", n, nm, g.n); if (!n) return; }
    { istream is (b, n * sizeof(T)); is.exceptions (0); vector<T> g; copy (istream_iterator<T> (is), istream_iterator<T>(), back_inserter (g)); VC (g.size() == n && !memcmp (g.begin(), v, n * sizeof(T)), "istream", "%zu of %s copied as %zu or differently", n, nm, size_t (g.size())); }
    // moving about
    istream is (b, n * sizeof(T)), is2 (b, n * sizeof(T)); is.exceptions (0); is2.exceptions (0); istream_iterator<T> i (is), j (is2); size_t k = 0, m = 0;
    for (unsigned s = 0; s < 20; ++s) {
	size_t d; const unsigned op = R.below (10);
	switch (op) {
	    case 0: if (k + 1 < n) { ++i; ++k; } break;
	    case 1: if (k) { --i; --k; } break;
	    case 2: if (k + 1 < n) { istream_iterator<T> o (i++); VC (*o == v[k], "istream", "i++ at %zu", k); ++k; } break;
	    case 3: if (k) { istream_iterator<T> o (i--); VC (*o == v[k], "istream", "i-- at %zu", k); --k; } break;
	    case 4: d = R.below (n - k); i += d; k += d; break;
	    case 5: d = R.below (k + 1); i -= d; k -= d; break;
	    case 6: if (m + 1 < n) { ++j; ++m; } break;
	    case 7: if (m) { j -= m; m = 0; } break;
	    case 8: d = R.below (k + 1); { istream_iterator<T> o (i - d); VC (*o == v[k-d], "istream", "i-%zu at %zu", d, k); i = o; k -= d; } break;
	    case 9: { istream_iterator<T> c (i), z; z = c; VC (*c == v[k] && *z == v[k] && z == i, "istream", "copies at %zu", k); break; }
	}
	ops(); const i64 df = i64 (k) - i64 (m);
	VC (*i == v[k] && *i == v[k] && *j == v[m], "istream", "value of %s at %zu of %zu after operation %u", nm, k, n, op);
	VC ((i == j) == !df && (i != j) == (df != 0) && (i < j) == (df < 0) && (i > j) == (df > 0) && i - j == df && j - i == -df, "istream", "positions %zu and %zu of %s", k, m, nm);
	VC (is.pos() == (k + 1) * sizeof(T), "istream", "stream is at %zu after reading element %zu of %s", size_t (is.pos()), k, nm);
    }
    i += n - k; VC (i == istream_iterator<T>() && !(j == istream_iterator<T>()) && j < i && !(i < j), "istream", "at the end"); ++i; VC (i == istream_iterator<T>(), "istream", "past the end");
}
template <typename T> [[gnu::noinline]] void text_stream (const char* nm)
{
    const size_t n = R.below (20); T v [20]; for (size_t i = 0; i < n; ++i) v[i] = T (R.range (-1000, 1000)); const char* delim = R.chance (1, 2) ? " " : ", ";
    trace ("%zu of %s as text", n, nm); sig (hmix (hbytes (nm, strlen (nm)) + 5, (n < 5 ? n : 5)));
    ostringstream os, pl; { ostream_iterator<T,ostringstream> o (os); for (size_t i = 0; i < n; ++i) { *o++ = v[i]; os << delim; pl << v[i] << delim; } }
    VC (os.str() == pl.str(), "text", "written as '%s' instead of '%s'", os.str().c_str(), pl.str().c_str());
    { ostringstream c, l; copy (v + 0, v + n, ostream_iterator<T,ostringstream> (c)); for (size_t i = 0; i < n; ++i) l << v[i]; VC (c.str() == l.str(), "text", "copied as '%s' instead of '%s'", c.str().c_str(), l.str().c_str()); }
    if (R.chance (1, 2)) os << " ";
    string t (os.str()); Arr<T> want, got; { istringstream is (t); T x = T(); for (;;) { is >> x; if (!is) break; want.push (x); } }
    { istringstream is (t); istream_iterator<T,istringstream> e; for (istream_iterator<T,istringstream> i (is); i != e; ++i) got.push (*i); }
    ops (n); VC (want == got, "text", "%zu of %s read from '%s' as %zu by the iterator and %zu by the loop", n, nm, t.c_str(), got.n, want.n);
    VC (got.n >= (n ? n - 1 : 0), "text", "%zu of %zu %s read", got.n, n, nm); for (size_t i = 0; i < got.n && i < n; ++i) VC (got[i] == v[i], "text", "%s %zu of %zu", nm, i, n);
}
void utf_stream (void)
{
    const size_t n = R.below (20); wchar_t w [21]; size_t bytes = 0; for (size_t i = 0; i < n; ++i) { w[i] = wchar_t (R.below (size_t (1) << (R.below (5) * 5 + 7))) | 1; bytes += Utf8Bytes (w[i]); }
    trace ("%zu characters, %zu bytes", n, bytes); sig (hmix (8000, bytes / 4 * 32 + n)); if (!n) return;
    char* b = (char*) arena (bytes + 16); string plain; for (size_t i = 0; i < n; ++i) plain += w[i];
    ostream os (b, bytes); copy (w + 0, w + n, utf8out (os)); VC (os.pos() == bytes && plain.size() == bytes && !memcmp (b, plain.c_str(), bytes), "utf8", "%zu characters written as %zu bytes instead of %zu, or differently", n, size_t (os.pos()), bytes);
    istream is (b, bytes); utf8istream_iterator i = utf8in (is); for (size_t k = 0; k < n; ++k) { VC (*i == w[k], "utf8", "character %zu of %zu is %x instead of %x", k, n, unsigned (*i), unsigned (w[k])); if (k + 1 < n) ++i; } ops (n);
}
} // namespace
VF_CASE (c25_walk, 4000, 80000) { switch (R.below (3)) { case 0: walks<int>(); break; case 1: walks<uint8_t>(); break; case 2: walks<string>(); break; } }
VF_CASE (c25_arrays, 600, 6000) { arrays(); }
VF_CASE (c25_mirrored, 8000, 160000) { switch (R.below (4)) { case 0: mirrored<int>(); break; case 1: mirrored<uint8_t>(); break; case 2: mirrored<string>(); break; case 3: mirrored<double>(); break; } }
VF_CASE (c25_algos, 6000, 120000) { switch (R.below (3)) { case 0: algos<int>(); break; case 1: algos<uint8_t>(); break; case 2: algos<string>(); break; } }
VF_CASE (c25_inserters, 4000, 80000) {
    switch (R.below (14)) {
	case 0: ins_at<vector<int>> ("vector<int>"); break; case 1: ins_at<vector<string>> ("vector<string>"); break; case 2: ins_at<list<int>> ("list<int>"); break; case 3: ins_at<deque<string>> ("deque<string>"); break;
	case 4: ins_back<vector<int>> ("vector<int>"); break; case 5: ins_back<vector<string>> ("vector<string>"); break; case 6: ins_back<list<string>> ("list<string>"); break; case 7: ins_back<deque<uint8_t>> ("deque<byte>"); break;
	case 8: ins_front<list<int>> ("list<int>"); break; case 9: ins_front<deque<string>> ("deque<string>"); break; case 10: ins_front<list<string>> ("list<string>"); break;
	case 11: ins_set<set<int>,false> ("set<int>"); break; case 12: ins_set<multiset<string>,true> ("multiset<string>"); break; case 13: ins_set<set<string>,false> ("set<string>"); break;
    }
}
VF_CASE (c25_streams, 4000, 80000) {
    switch (R.below (10)) {
	case 0: bin_stream<int> ("int"); break; case 1: bin_stream<uint8_t> ("byte"); break; case 2: bin_stream<double> ("double"); break; case 3: bin_stream<u64> ("u64"); break; case 4: bin_stream<int16_t> ("int16"); break;
	case 5: text_stream<int> ("int"); break; case 6: text_stream<long> ("long"); break; case 7: text_stream<double> ("double"); break; case 8: text_stream<short> ("short"); break; case 9: utf_stream(); break;
    }
}
