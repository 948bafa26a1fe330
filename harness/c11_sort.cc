// C11: sorted ranges, heaps, set operations and permutations.
#include "ranges.h"
using namespace vf;
using ustl::vector;
namespace {
typedef Arr<int> M;
enum { MODES = 5 };
template <typename T> bool lt (int a, int b, int mode)
{
    switch (mode) { case 0: return RawOrd<T>::lt (a, b); case 1: return RawOrd<T>::lt (b, a); case 2: return a / 40 < b / 40; case 3: return b / 16 < a / 16; default: return a % 7 < b % 7; }
}
template <typename T> struct Cmp {	// a comparison with state
    int mode; unsigned* calls;
    bool operator() (const T& a, const T& b) const {
	int x = Elem<T>::val (a), y = Elem<T>::val (b); if (calls) ++*calls;
	if (x >= RZ || x < 0 || y >= RZ || y < 0) note_fail ("comparison", "a comparison was given (%d,%d), not both in the ranges", x, y);
	return lt<T> (x, y, mode);
    }
};
struct Key { int v; };
template <typename T> struct CmpKey { int mode; bool operator() (const T& a, const Key& b) const { return lt<T> (Elem<T>::val (a), b.v, mode); } bool operator() (const Key& a, const T& b) const { return lt<T> (a.v, Elem<T>::val (b), mode); } };
// reference: insertion sort, stable
template <typename T> void rsort (M& m, size_t f, size_t l, int mode) { for (size_t i = f + 1; i < l; ++i) { int v = m[i]; size_t j = i; for (; j > f && lt<T> (v, m[j-1], mode); --j) m[j] = m[j-1]; m[j] = v; } }
M gen (size_t n, int range)
{
    M m; unsigned shape = R.below (8); int v0 = 1 + int (R.below (range));
    for (size_t i = 0; i < n; ++i) m.push (shape == 0 ? v0 : 1 + int (R.below (range)));
    if (shape >= 1 && shape <= 4) { for (size_t i = 1; i < n; ++i) { int v = m[i]; size_t j = i; for (; j > 0 && v < m[j-1]; --j) m[j] = m[j-1]; m[j] = v; } }	// sorted
    if (shape == 2) for (size_t i = 0; i < n / 2; ++i) { int t = m[i]; m[i] = m[n-1-i]; m[n-1-i] = t; }	// reversed
    if (shape == 3 && n) m[R.below (n)] = 1 + int (R.below (range));
    if (shape == 4 && n) { size_t c = R.below (n); M r; for (size_t i = 0; i < n; ++i) r.push (m[(i + c) % n]); m = r; }
    return m;
}
template <typename T> void perm_of (Ar<T>& a, const M& src, const char* op)
{
    static int cnt [256]; memset (cnt, 0, sizeof(cnt));
    for (size_t i = 0; i < src.n; ++i) ++cnt[src[i]];
    for (size_t i = 0; i < src.n; ++i) { int v = a.at (i); VC (v > 0 && v < RZ && --cnt[v] >= 0, "permutation", "%s<%s> of %zu elements is not a permutation of the input: element %zu is %d", op, Elem<T>::name(), src.n, i, v); }
}
int range_of (void) { static const int r [] = { 1, 2, 5, 60, 199 }; return r[R.below (5)]; }

template <typename T> void sorts (void)
{
    typedef Elem<T> E; const size_t n = R.chance (1, 30) ? R.below (300) : rlen(); const M src (gen (n, range_of())); Ar<T> a (src); const int mode = R.below (MODES); const bool dflt = R.chance (1, 3); const int md = dflt ? 0 : mode; unsigned calls = 0; Cmp<T> c = { mode, &calls };
    M srt (src); rsort<T> (srt, 0, n, md); T *b = a.b(), *e = a.e(); const char* nm = ""; const unsigned op = R.below (8); trace ("sort op %u n %zu mode %d", op, n, md);
#define ORDERED(f, l) for (size_t q_ = (f); q_ + 1 < (l); ++q_) VC (!lt<T> (a.at (q_ + 1), a.at (q_), md), "order", "%s<%s> of %zu: elements %zu and %zu (%d, %d) are out of order (comparison %d)", nm, E::name(), n, q_, q_ + 1, a.at (q_), a.at (q_ + 1), md)
    switch (op) {
	case 0: case 1: nm = "sort"; if (dflt) ustl::sort (b, e); else ustl::sort (b, e, c); perm_of (a, src, nm); ORDERED (0, n); a.resync (0); VC (dflt || calls || n < 2, "calls", "sort did not use the comparison"); break;
	case 2: case 3: nm = "stable_sort"; if (dflt) ustl::stable_sort (b, e); else ustl::stable_sort (b, e, c); a.m = srt; break;
	case 4: { nm = "partial_sort"; size_t k = R.pos (n); if (dflt) ustl::partial_sort (b, b + k, e); else ustl::partial_sort (b, b + k, e, c); perm_of (a, src, nm); ORDERED (0, k); for (size_t i = k; k && i < n; ++i) VC (!lt<T> (a.at (i), a.at (k-1), md), "order", "partial_sort<%s> to %zu of %zu: element %zu belongs before the middle", E::name(), k, n, i); a.resync (0); break; }
	case 5: { nm = "nth_element"; if (!n) break; size_t k = R.below (n); if (dflt) ustl::nth_element (b, b + k, e); else ustl::nth_element (b, b + k, e, c); perm_of (a, src, nm);
	    VC (!lt<T> (a.at (k), srt[k], md) && !lt<T> (srt[k], a.at (k), md), "order", "nth_element<%s> %zu of %zu is %d, expected %d", E::name(), k, n, a.at (k), srt[k]); for (size_t i = 0; i < n; ++i) VC (i < k ? !lt<T> (a.at (k), a.at (i), md) : !lt<T> (a.at (i), a.at (k), md), "order", "nth_element<%s>: element %zu is on the wrong side of %zu", E::name(), i, k); a.resync (0); break; }
	case 6: { nm = "partial_sort_copy"; size_t k = R.below (n + 4), w = k < n ? k : n; Ar<T> o (k, 8); T* r = dflt ? ustl::partial_sort_copy (a.cb(), a.ce(), o.b(), o.e()) : ustl::partial_sort_copy (a.cb(), a.ce(), o.b(), o.e(), c);
	    VC (r == o.b() + w, "end", "partial_sort_copy<%s> of %zu into %zu returns %td", E::name(), n, k, r - o.b()); for (size_t i = 0; i < w; ++i) { int v = o.at (i); VC (!lt<T> (v, srt[i], md) && !lt<T> (srt[i], v, md), "order", "partial_sort_copy<%s> of %zu into %zu: element %zu is %d, expected one like %d", E::name(), n, k, i, v, srt[i]);
	      size_t have = 0, used = 0; for (size_t j = 0; j < n; ++j) have += src[j] == v; for (size_t j = 0; j < w; ++j) used += o.at (j) == v; VC (used <= have, "permutation", "partial_sort_copy duplicated %d", v); o.m[i] = v; } o.check (nm); break; }
	default: { nm = "is_sorted"; bool w = true; for (size_t i = 0; i + 1 < n; ++i) w &= !lt<T> (src[i+1], src[i], md); bool g = dflt ? ustl::is_sorted (a.cb(), a.ce()) : ustl::is_sorted (b, e, c); VC (g == w, "is_sorted", "is_sorted<%s> of %zu elements is %d", E::name(), n, g); break; }
    }
    a.check (nm); sig (hmix (op, hmix (md, hmix (n > 40 ? 40 : n, n && srt[0] == srt[n-1])))); if (want_sample()) sample ("%s<%s> of %zu elements, comparison %d, %u calls", nm, E::name(), n, md, calls);
    // the container forms
    if (R.chance (1, 4)) {
	vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back (E::mk (src[i])); const unsigned k = R.below (4); ops();
	if (k == 0) ustl::sort (v); else if (k == 1) ustl::sort (v, c); else if (k == 2) ustl::stable_sort (v); else ustl::stable_sort (v, c);
	const int m2 = k % 2 ? mode : 0; M s2 (src); rsort<T> (s2, 0, n, m2); VC (v.size() == n, "size", "sort of a container");
	for (size_t i = 0; i < n; ++i) { int x = E::val (v[i]); VC (k >= 2 ? x == s2[i] : !lt<T> (x, s2[i], m2) && !lt<T> (s2[i], x, m2), "order", "%ssort of a container of %zu %s: element %zu is %d, expected %d", k >= 2 ? "stable_" : "", n, E::name(), i, x, s2[i]); }
	if (k < 2) { static int cnt [256]; memset (cnt, 0, sizeof(cnt)); for (size_t i = 0; i < n; ++i) { ++cnt[src[i]]; --cnt[E::val (v[i])]; } for (size_t i = 0; i < 256; ++i) VC (!cnt[i], "permutation", "sort of a container"); }
    }
}
template <typename T> void queries (void)
{
    typedef Elem<T> E; const size_t n = rlen(); M src (gen (n, range_of())); const int mode = R.below (MODES); const bool dflt = R.chance (1, 2); const int md = dflt ? 0 : mode; Cmp<T> c = { mode, nullptr }; CmpKey<T> ck = { mode };
    rsort<T> (src, 0, n, md); Ar<T> a (src); T *b = a.b(), *e = a.e(); const T *cb = a.cb(), *ce = a.ce();
    for (unsigned q = 0; q < 3; ++q) {
	const int x = n && R.chance (1, 2) ? src[R.below (n)] : 1 + int (R.below (199)); T t (E::mk (x)); const Key kx = { x }; size_t lb = 0, ub; while (lb < n && lt<T> (src[lb], x, md)) ++lb; ub = lb; while (ub < n && !lt<T> (x, src[ub], md)) ++ub;
#define AT(what, expr, base, w) do { ops(); ptrdiff_t p_ = (expr) - (base); VC (p_ == ptrdiff_t(w), what, what "<%s>(%d) in %zu elements (comparison %d) is at %td, expected %zu", E::name(), x, n, md, p_, size_t(w)); } while (0)
	if (dflt) {
	    AT ("lower_bound", ustl::lower_bound (b, e, t), b, lb); AT ("lower_bound", ustl::lower_bound (cb, ce, t), cb, lb); AT ("upper_bound", ustl::upper_bound (b, e, t), b, ub); AT ("upper_bound", ustl::upper_bound (cb, ce, t), cb, ub);
	    auto r = ustl::equal_range (cb, ce, t); AT ("equal_range", r.first, cb, lb); AT ("equal_range", r.second, cb, ub); VC (ustl::binary_search (cb, ce, t) == (lb < ub) && ustl::binary_search (b, e, t) == (lb < ub), "binary_search", "binary_search<%s>(%d) is not %d", E::name(), x, lb < ub);
	    vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back (E::mk (src[i])); const vector<T>& cv = v;
	    AT ("lower_bound", ustl::lower_bound (v, t), v.begin(), lb); AT ("lower_bound", ustl::lower_bound (cv, t), cv.begin(), lb); AT ("upper_bound", ustl::upper_bound (v, t), v.begin(), ub); AT ("upper_bound", ustl::upper_bound (cv, t), cv.begin(), ub);
	    auto s = ustl::equal_range (cv, t); AT ("equal_range", s.first, cv.begin(), lb); AT ("equal_range", s.second, cv.begin(), ub); auto s2 = ustl::equal_range (v, t); AT ("equal_range", s2.first, v.begin(), lb); AT ("equal_range", s2.second, v.begin(), ub); VC (ustl::binary_search (cv, t) == (lb < ub) && ustl::binary_search (v, t) == (lb < ub), "binary_search", "binary_search of a container");
	} else {
	    AT ("lower_bound", ustl::lower_bound (b, e, t, c), b, lb); AT ("lower_bound", ustl::lower_bound (cb, ce, kx, ck), cb, lb); AT ("upper_bound", ustl::upper_bound (b, e, t, c), b, ub); AT ("upper_bound", ustl::upper_bound (cb, ce, kx, ck), cb, ub);
	    auto r = ustl::equal_range (cb, ce, t, c); AT ("equal_range", r.first, cb, lb); AT ("equal_range", r.second, cb, ub); auto r2 = ustl::equal_range (b, e, kx, ck); AT ("equal_range", r2.first, b, lb); AT ("equal_range", r2.second, b, ub);
	    VC (ustl::binary_search (cb, ce, t, c) == (lb < ub) && ustl::binary_search (b, e, kx, ck) == (lb < ub), "binary_search", "binary_search<%s>(%d) with comparison %d is not %d", E::name(), x, md, lb < ub);
	}
	sig (hmix (100 + md, hmix (n > 30 ? 30 : n, hmix (lb == 0, hmix (ub == n, ub - lb > 3 ? 3 : ub - lb)))));
    }
    a.check ("searching a sorted range");
}
template <typename T> void sets (void)
{
    typedef Elem<T> E; const int mode = R.below (MODES); const bool dflt = R.chance (1, 2); const int md = dflt ? 0 : mode; Cmp<T> c = { mode, nullptr }; const int rg = range_of(); M x (gen (rlen(), rg)), y (gen (rlen(), rg)); if (R.chance (1, 4) && x.n) { y.clear(); for (size_t i = 0; i < x.n; ++i) if (R.chance (2, 3)) y.push (x[i]); }
    rsort<T> (x, 0, x.n, md); rsort<T> (y, 0, y.n, md); Ar<T> a (x), b (y); M w; const unsigned op = R.below (7); const char* nm = ""; trace ("set op %u of %zu and %zu, comparison %d", op, x.n, y.n, md);
    // equivalence classes side by side
    size_t i = 0, j = 0; bool inc = true;
    while (i < x.n || j < y.n) {
	int v = i >= x.n ? y[j] : j >= y.n ? x[i] : lt<T> (y[j], x[i], md) ? y[j] : x[i];
	size_t p = i, q = j; while (p < x.n && !lt<T> (v, x[p], md)) ++p; while (q < y.n && !lt<T> (v, y[q], md)) ++q;
	const size_t na = p - i, nb = q - j, mn = na < nb ? na : nb; if (nb > na) inc = false;
	switch (op) {
	    case 0: w.insert (w.n, x.p + i, na); w.insert (w.n, y.p + j, nb); break;
	    case 1: w.insert (w.n, x.p + i, na); if (nb > na) w.insert (w.n, y.p + j + na, nb - na); break;
	    case 2: w.insert (w.n, x.p + i, mn); break;
	    case 3: if (na > nb) w.insert (w.n, x.p + i + nb, na - nb); break;
	    case 4: if (na > nb) w.insert (w.n, x.p + i + nb, na - nb); if (nb > na) w.insert (w.n, y.p + j + na, nb - na); break;
	}
	i = p; j = q;
    }
    if (op == 5) { nm = "includes"; bool g = dflt ? ustl::includes (a.cb(), a.ce(), b.cb(), b.ce()) : ustl::includes (a.b(), a.e(), b.b(), b.e(), c); VC (g == inc, "includes", "includes<%s> of %zu and %zu elements (comparison %d) is %d", E::name(), x.n, y.n, md, g); }
    else if (op == 6) { nm = "inplace_merge"; M z (x); z.insert (z.n, y.p, y.n); M s (z); rsort<T> (s, 0, s.n, 0); M x0 (x), y0 (y); rsort<T> (x0, 0, x0.n, 0); rsort<T> (y0, 0, y0.n, 0); M z0 (x0); z0.insert (z0.n, y0.p, y0.n); Ar<T> o (z0); ustl::inplace_merge (o.b(), o.b() + x0.n, o.e()); o.m = s; o.check (nm); }
    else {
	if (op == 0 && !dflt) return;	// merge has no form with a comparison
	Ar<T> o (w.n, 9); T* r = o.b(); const T *ab = a.cb(), *ae = a.ce(), *bb = b.cb(), *be = b.ce();
	switch (op) {
	    case 0: nm = "merge"; r = ustl::merge (ab, ae, bb, be, r); break;
	    case 1: nm = "set_union"; r = dflt ? ustl::set_union (ab, ae, bb, be, r) : ustl::set_union (ab, ae, bb, be, r, c); break;
	    case 2: nm = "set_intersection"; r = dflt ? ustl::set_intersection (ab, ae, bb, be, r) : ustl::set_intersection (ab, ae, bb, be, r, c); break;
	    case 3: nm = "set_difference"; r = dflt ? ustl::set_difference (ab, ae, bb, be, r) : ustl::set_difference (ab, ae, bb, be, r, c); break;
	    default: nm = "set_symmetric_difference"; r = dflt ? ustl::set_symmetric_difference (ab, ae, bb, be, r) : ustl::set_symmetric_difference (ab, ae, bb, be, r, c); break;
	}
	o.m = w; o.check (nm); VC (r == o.e(), "end", "%s<%s> of %zu and %zu elements returns %td, expected %zu", nm, E::name(), x.n, y.n, r - o.b(), w.n);
    }
    a.check (nm); b.check (nm); sig (hmix (200 + op, hmix (md, hmix (x.n > 12 ? 12 : x.n, hmix (y.n > 12 ? 12 : y.n, w.n == 0)))));
}
// elements of which merge and inplace_merge must keep the order: ordered by key only
struct Tagged { int key, tag; bool operator< (const Tagged& o) const { return key < o.key; } };
void stable_merges (void)
{
    size_t n = rlen(), m = rlen(); Arr<Tagged> x, y; const int rg = 1 + R.below (6); Tagged t; t.key = 0; for (size_t i = 0; i < n; ++i) { t.tag = i; x.push (t); if (R.chance (1, rg)) ++t.key; } t.key = 0; for (size_t i = 0; i < m; ++i) { t.tag = 1000 + i; y.push (t); if (R.chance (1, rg)) ++t.key; }
    Tagged* o = (Tagged*) malloc ((n + m + 1) * sizeof(Tagged)); Tagged* p = (Tagged*) malloc ((n + m + 1) * sizeof(Tagged)); for (size_t i = 0; i < n; ++i) p[i] = x[i]; for (size_t i = 0; i < m; ++i) p[n+i] = y[i];
    o[n+m].key = o[n+m].tag = p[n+m].key = p[n+m].tag = -5;
    VC (ustl::merge (x.begin(), x.end(), y.begin(), y.end(), o) == o + n + m, "end", "merge"); ustl::inplace_merge (p, p + n, p + n + m);
    size_t i = 0, j = 0; for (size_t k = 0; k < n + m; ++k) { const Tagged& w = (j >= m || (i < n && !(y[j].key < x[i].key))) ? x[i++] : y[j++]; ops(); VC (o[k].key == w.key && o[k].tag == w.tag, "stability", "merge of %zu and %zu: element %zu is (%d,%d), expected (%d,%d)", n, m, k, o[k].key, o[k].tag, w.key, w.tag); VC (p[k].key == w.key && p[k].tag == w.tag, "stability", "inplace_merge of %zu and %zu: element %zu is (%d,%d), expected (%d,%d)", n, m, k, p[k].key, p[k].tag, w.key, w.tag); }
    VC (o[n+m].tag == -5 && p[n+m].tag == -5, "outside", "merge wrote past the end");
    for (size_t k = 0; k < n + m; ++k) p[k].key = R.below (rg + 1), p[k].tag = k; for (size_t k = 0; k < n + m; ++k) o[k] = p[k]; ustl::stable_sort (p, p + n + m); for (size_t k = 0; k + 1 < n + m; ++k) { ops(); VC (p[k].key < p[k+1].key || (p[k].key == p[k+1].key && p[k].tag < p[k+1].tag), "stability", "stable_sort of %zu: (%d,%d) before (%d,%d)", n + m, p[k].key, p[k].tag, p[k+1].key, p[k+1].tag); }
    free (o); free (p); sig (hmix (300, hmix (n > 20 ? 20 : n, m > 20 ? 20 : m)));
}
template <typename T> void heaps (void)
{
    typedef Elem<T> E; const size_t n = rlen(); M src (gen (n, range_of())); const int mode = R.below (MODES); const bool dflt = R.chance (1, 3); const int md = dflt ? 0 : mode; Cmp<T> c = { mode, nullptr }; Ar<T> a (src); T *b = a.b(), *e = a.e(); const char* nm; size_t i;
    auto heapness = [&](size_t l) { for (size_t k = 1; k < l; ++k) if (lt<T> (a.at ((k-1)/2), a.at (k), md)) return false; return true; };
    bool w = heapness (n); VC ((dflt ? ustl::is_heap (b, e) : ustl::is_heap (b, e, c)) == w, "is_heap", "is_heap<%s> of %zu elements is not %d", E::name(), n, w);
    const unsigned op = R.below (3); trace ("heap op %u n %zu mode %d", op, n, md);
    if (op == 0) { nm = "push_heap"; for (i = 0; i < n; ++i) { if (dflt) ustl::push_heap (b, b + i + 1); else ustl::push_heap (b, b + i + 1, c); VC (heapness (i + 1), "heap", "push_heap<%s> number %zu (comparison %d) leaves no heap", E::name(), i + 1, md); ops(); } perm_of (a, src, nm); a.resync (0); a.check (nm); }
    else { nm = "make_heap"; if (dflt) ustl::make_heap (b, e); else ustl::make_heap (b, e, c); VC (heapness (n), "heap", "make_heap<%s> of %zu (comparison %d) leaves no heap", E::name(), n, md); perm_of (a, src, nm); a.resync (0); a.check (nm); }
    VC (dflt ? ustl::is_heap (a.cb(), a.ce()) : ustl::is_heap (a.cb(), a.ce(), c), "is_heap", "is_heap<%s> of a heap is false", E::name());
    M srt (src); rsort<T> (srt, 0, n, md);
    if (R.chance (1, 2)) { nm = "sort_heap"; if (dflt) ustl::sort_heap (b, e); else ustl::sort_heap (b, e, c); }
    else { nm = "pop_heap"; for (i = n; i > 0; --i) { if (dflt) ustl::pop_heap (b, b + i); else ustl::pop_heap (b, b + i, c); VC (heapness (i - 1), "heap", "pop_heap<%s> of %zu (comparison %d) leaves no heap", E::name(), i, md); int v = a.at (i - 1); VC (!lt<T> (v, srt[i-1], md) && !lt<T> (srt[i-1], v, md), "order", "pop_heap<%s> moved %d to the end, expected one like %d", E::name(), v, srt[i-1]); ops(); } }
    perm_of (a, src, nm); ORDERED (0, n); a.resync (0); a.check (nm); sig (hmix (400 + op, hmix (md, n > 30 ? 30 : n)));
}
template <typename T> void perms (void)
{
    typedef Elem<T> E; const int mode = R.below (2); const bool dflt = R.chance (1, 2); const int md = dflt ? 0 : mode; Cmp<T> c = { mode, nullptr }; const bool back = R.chance (1, 2); size_t n = R.chance (1, 10) ? 7 + R.below (6) : R.below (6); M m; int rg = R.chance (1, 2) ? 8 : 3; for (size_t i = 0; i < n; ++i) m.push (1 + R.below (rg)); M srt (m); rsort<T> (srt, 0, n, md);
    const bool all = n < 6; if (all) { m = srt; if (back) for (size_t i = 0; i < n; ++i) m[i] = srt[n-1-i]; }
    Ar<T> a (m); u64 want = 1; if (all) { for (size_t i = 2; i <= n; ++i) want *= i; for (size_t i = 0; i < n;) { size_t j = i; u64 f = 1; while (j < n && srt[j] == srt[i]) { ++j; f *= j - i; } want /= f; i = j; } }
    trace ("permutations of %zu, back %d, comparison %d", n, back, md);
    u64 k = 0, lim = all ? want + 2 : 30;
    for (; k < lim; ++k) {
	// reference step
	M r (m); bool more = false; size_t i = n;
	auto L = [&](int p, int q) { return back ? lt<T> (q, p, md) : lt<T> (p, q, md); };
	for (i = n; i-- > 1;) if (L (r[i-1], r[i])) { size_t j = n - 1; while (!L (r[i-1], r[j])) --j; int t = r[i-1]; r[i-1] = r[j]; r[j] = t; for (size_t p = i, q = n - 1; p < q; ++p, --q) { t = r[p]; r[p] = r[q]; r[q] = t; } more = true; break; }
	if (!more) for (size_t p = 0, q = n; p + 1 < q; ++p) { --q; int t = r[p]; r[p] = r[q]; r[q] = t; }
	bool g = back ? (dflt ? ustl::prev_permutation (a.b(), a.e()) : ustl::prev_permutation (a.b(), a.e(), c)) : (dflt ? ustl::next_permutation (a.b(), a.e()) : ustl::next_permutation (a.b(), a.e(), c));
	VC (g == more, "permutation-end", "%s_permutation<%s> of %zu elements, step %llu, returns %d", back ? "prev" : "next", E::name(), n, (unsigned long long) k, g);
	a.m = r; a.check (back ? "prev_permutation" : "next_permutation"); m = r; if (!more) { ++k; break; }
    }
    if (all) VC (k == want, "permutation-count", "%zu elements have %llu permutations, %llu seen", n, (unsigned long long) want, (unsigned long long) k);
    sig (hmix (500 + back, hmix (md, hmix (n, k > 50 ? 50 : k))));
}
template <typename T> void all (void) { for (unsigned r = 0; r < 6; ++r) { sorts<T>(); sorts<T>(); queries<T>(); sets<T>(); sets<T>(); heaps<T>(); if (r < 2) perms<T>(); } }
} // namespace
VF_CASE (c11_u8, 400, 2000) { all<uint8_t>(); }
VF_CASE (c11_u16, 400, 2000) { all<uint16_t>(); }
VF_CASE (c11_int, 800, 4000) { all<int>(); }
VF_CASE (c11_u64, 300, 1500) { all<uint64_t>(); }
VF_CASE (c11_p3, 300, 1500) { all<P3>(); }
VF_CASE (c11_p40, 200, 1000) { all<P40>(); }
VF_CASE (c11_double, 200, 1000) { all<double>(); }
VF_CASE (c11_string, 200, 1000) { all<ustl::string>(); }
// Ranges of thousands of elements
template <typename T> void big (void) { g_big = 300 + R.below (R.chance (1, 2) ? 2000 : 6000); switch (R.below (6)) { case 0: case 1: sorts<T>(); break; case 2: queries<T>(); break; case 3: sets<T>(); break; case 4: stable_merges(); break; default: heaps<T>(); } }
VF_CASE (c11_big_u8, 40, 300) { big<uint8_t>(); }
VF_CASE (c11_big_int, 80, 600) { big<int>(); }
VF_CASE (c11_big_u64, 40, 300) { big<uint64_t>(); }
VF_CASE (c11_big_p3, 40, 300) { big<P3>(); }
VF_CASE (c11_stable, 1500, 6000) { stable_merges(); }
