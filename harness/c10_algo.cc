// C10: non-sorting algorithms against their definitions.
#include "ranges.h"
using namespace vf;
using ustl::vector;
namespace {
template <typename T> struct Pr1 { int k; unsigned* calls; bool operator() (const T& v) const { int x = Elem<T>::val (v); if (x >= RZ || x < 0) note_fail ("predicate", "a predicate was given %d, which is not in the range", x); ++*calls; return x % k == 0; } };
template <typename T> struct Pr2 { bool operator() (const T& a, const T& b) const { int x = Elem<T>::val (a), y = Elem<T>::val (b); if (x >= RZ || x < 0 || y >= RZ || y < 0) note_fail ("predicate", "a binary predicate was given (%d,%d), not both in the ranges", x, y); return x / 2 == y / 2; } };
template <typename T> struct Ord2 { bool operator() (const T& a, const T& b) const { int x = Elem<T>::val (a), y = Elem<T>::val (b); if (x >= RZ || x < 0 || y >= RZ || y < 0) note_fail ("predicate", "a comparison was given (%d,%d), not both in the ranges", x, y); return x / 2 < y / 2; } };
typedef Arr<int> M;
M sub (const M& m, size_t a, size_t b) { M r; r.insert (0, m.p + a, b - a); return r; }
bool eqv (int a, int b, bool pred) { return pred ? a / 2 == b / 2 : a == b; }
size_t firstseq (const M& h, const M& n, bool pred, bool last)
{
    size_t r = h.n; if (n.n > h.n) return r;
    for (size_t i = 0; i + n.n <= h.n; ++i) {
	size_t j = 0; while (j < n.n && eqv (h[i+j], n[j], pred)) ++j;
	if (j == n.n) { r = i; if (!last) break; }
    }
    return r;
}
#define POS(expr, base, want, key) do { ops(); ptrdiff_t p_ = (expr) - (base); VC (p_ == ptrdiff_t(want), key, key "<%s>: position %td, expected %zu in %zu elements", E::name(), p_, size_t(want), a.n); } while (0)

template <typename T> void finds (void)
{
    typedef Elem<T> E; typedef RawOrd<T> O; unsigned cs = 0; Ar<T> a (rlen(), 2 + R.below (7)); const size_t n = a.n; const int x = 1 + R.below (8); T tx (E::mk (x));
    const int k = 2 + R.below (3); Pr1<T> p = { k, &cs }; const T *cb = a.cb(), *ce = a.ce(); T *b = a.b(), *e = a.e();
    size_t i = 0; while (i < n && a.m[i] != x) ++i; POS (ustl::find (b, e, tx), b, i, "find"); POS (ustl::find (cb, ce, tx), cb, i, "find");
    for (i = 0; i < n && a.m[i] % k; ++i) {} POS (ustl::find_if (b, e, p), b, i, "find_if"); POS (ustl::find_if (cb, ce, p), cb, i, "find_if");
    for (i = 0; i + 1 < n && a.m[i] != a.m[i+1]; ++i) {} if (i + 1 >= n) i = n; POS (ustl::adjacent_find (b, e), b, i, "adjacent_find"); POS (ustl::adjacent_find (cb, ce), cb, i, "adjacent_find");
    for (i = 0; i + 1 < n && a.m[i] / 2 != a.m[i+1] / 2; ++i) {} if (i + 1 >= n) i = n; POS (ustl::adjacent_find (b, e, Pr2<T>()), b, i, "adjacent_find/pred");
    size_t c = 0; for (i = 0; i < n; ++i) c += a.m[i] == x; VC (ustl::count (b, e, tx) == c && ustl::count (cb, ce, tx) == c, "count", "count<%s> is %zu, expected %zu", E::name(), size_t(ustl::count (b, e, tx)), c);
    for (c = i = 0; i < n; ++i) c += a.m[i] % k == 0; cs = 0; VC (ustl::count_if (b, e, p) == c, "count_if", "count_if<%s>, expected %zu", E::name(), c); VC (cs == n, "calls", "count_if called its predicate %u times for %zu elements", cs, n);
    // search and find_end
    { M nm; size_t nl = R.below (5); if (n && R.chance (2, 3)) { size_t s = R.below (n), l = R.below (n - s + 1); if (l > 6) l = 6; nm = sub (a.m, s, s + l); if (l && R.chance (1, 4)) nm[R.below (l)] = 1 + R.below (8); } else for (size_t j = 0; j < nl; ++j) nm.push (1 + R.below (3));
      Ar<T> q (nm); size_t f = firstseq (a.m, nm, false, false), g = firstseq (a.m, nm, true, false), l = firstseq (a.m, nm, false, true), h = firstseq (a.m, nm, true, true);
      if (!nm.n) { f = g = 0; l = h = n; }
      POS (ustl::search (b, e, q.b(), q.e()), b, f, "search"); POS (ustl::search (cb, ce, q.cb(), q.ce()), cb, f, "search"); POS (ustl::search (b, e, q.b(), q.e(), Pr2<T>()), b, g, "search/pred");
      { POS (ustl::find_end (b, e, q.b(), q.e()), b, l, "find_end"); POS (ustl::find_end (cb, ce, q.cb(), q.ce()), cb, l, "find_end"); POS (ustl::find_end (b, e, q.b(), q.e(), Pr2<T>()), b, h, "find_end/pred"); }
      size_t ff = n, fg = n; for (i = n; i-- > 0;) for (size_t j = 0; j < nm.n; ++j) { if (a.m[i] == nm[j]) ff = i; if (a.m[i] / 2 == nm[j] / 2) fg = i; }
      POS (ustl::find_first_of (b, e, q.b(), q.e()), b, ff, "find_first_of"); POS (ustl::find_first_of (cb, ce, q.cb(), q.ce(), Pr2<T>()), cb, fg, "find_first_of/pred");
      q.check ("searching"); sig (hmix (f < n, hmix (l == f, hmix (n > 20 ? 20 : n, nm.n)))); }
    { size_t cnt = R.below (5); M nm, nh; size_t f = n, g = n;
      for (i = n; i-- > 0;) { size_t j = 0; while (j < cnt && i + j < n && a.m[i+j] == x) ++j; if (j == cnt) f = i; for (j = 0; j < cnt && i + j < n && a.m[i+j] / 2 == x / 2;) ++j; if (j == cnt) g = i; }
      POS (ustl::search_n (b, e, cnt, tx), b, f, "search_n"); POS (ustl::search_n (cb, ce, cnt, tx, Pr2<T>()), cb, g, "search_n/pred"); }
    // mismatch, equal, lexicographical_compare
    { M om = a.m; for (unsigned j = R.below (3); j > 0 && n; --j) om[R.below (n)] = 1 + R.below (8); size_t extra = R.below (3); for (size_t j = 0; j < extra; ++j) om.push (1 + R.below (8));
      Ar<T> o (om); for (i = 0; i < n && a.m[i] == om[i]; ++i) {} size_t g = 0; while (g < n && a.m[g] / 2 == om[g] / 2) ++g;
      auto mm = ustl::mismatch (cb, ce, o.cb()); VC (mm.first == cb + i && mm.second == o.cb() + i, "mismatch", "mismatch<%s> is at %td,%td, expected %zu", E::name(), mm.first - cb, mm.second - o.cb(), i);
      auto mp = ustl::mismatch (b, e, o.b(), Pr2<T>()); VC (mp.first == b + g && mp.second == o.b() + g, "mismatch/pred", "mismatch<%s> is at %td,%td, expected %zu", E::name(), mp.first - b, mp.second - o.b(), g);
      VC (ustl::equal (b, e, o.b()) == (i == n), "equal", "equal<%s> of %zu with first difference at %zu", E::name(), n, i); VC (ustl::equal (cb, ce, o.cb(), Pr2<T>()) == (g == n), "equal/pred", "equal<%s>", E::name());
      size_t ln = R.below (om.n + 1); if (R.chance (1, 3)) ln = om.n; bool lt = false, dec = false, lp = false, dp = false;
      for (i = 0; i < n && i < ln && !dec; ++i) { if (O::lt (a.m[i], om[i])) lt = dec = true; else if (O::lt (om[i], a.m[i])) dec = true; } if (!dec) lt = n < ln;
      for (i = 0; i < n && i < ln && !dp; ++i) { if (a.m[i] / 2 < om[i] / 2) lp = dp = true; else if (a.m[i] / 2 > om[i] / 2) dp = true; } if (!dp) lp = n < ln;
      VC (ustl::lexicographical_compare (cb, ce, o.cb(), o.cb() + ln) == lt, "lexicographical_compare", "lexicographical_compare<%s> of %zu and %zu elements is not %d", E::name(), n, ln, lt);
      VC (ustl::lexicographical_compare (b, e, o.b(), o.b() + ln, Ord2<T>()) == lp, "lexicographical_compare/pred", "lexicographical_compare<%s> of %zu and %zu elements is not %d", E::name(), n, ln, lp);
      sig (hmix (77, hmix (lt, hmix (dec, hmix (n < ln, n > ln))))); }
    // extremes: the first of the smallest, the first of the largest; minmax gives the last of the largest
    { size_t mx = n, mn = n, mxp = n, mnp = n, lm = n, lmp = n; for (i = 0; i < n; ++i) { if (mx == n || O::lt (a.m[mx], a.m[i])) mx = i; if (mn == n || O::lt (a.m[i], a.m[mn])) mn = i; if (lm == n || !O::lt (a.m[i], a.m[lm])) lm = i;
	if (mxp == n || a.m[mxp] / 2 < a.m[i] / 2) mxp = i; if (mnp == n || a.m[i] / 2 < a.m[mnp] / 2) mnp = i; if (lmp == n || a.m[i] / 2 >= a.m[lmp] / 2) lmp = i; }
      POS (ustl::max_element (b, e), b, mx, "max_element"); POS (ustl::min_element (b, e), b, mn, "min_element"); POS (ustl::max_element (cb, ce, Ord2<T>()), cb, mxp, "max_element/pred"); POS (ustl::min_element (cb, ce, Ord2<T>()), cb, mnp, "min_element/pred");
      auto mm = ustl::minmax_element (cb, ce); POS (mm.first, cb, mn, "minmax_element"); POS (mm.second, cb, lm, "minmax_element"); auto mp = ustl::minmax_element (b, e, Ord2<T>()); POS (mp.first, b, mnp, "minmax_element/pred"); POS (mp.second, b, lmp, "minmax_element/pred"); }
    { int lo = 1 + R.below (5), hi = lo + R.below (5); if (O::lt (hi, lo)) { int t = lo; lo = hi; hi = t; } T tl (E::mk (lo)), th (E::mk (hi)); int w = O::lt (x, lo) ? lo : O::lt (hi, x) ? hi : x;
      VC (E::val (ustl::clamp (tx, tl, th)) == w, "clamp", "clamp<%s>(%d,%d,%d) is not %d", E::name(), x, lo, hi, w); if (lo <= hi) { w = x / 2 < lo / 2 ? lo : hi / 2 < x / 2 ? hi : x; VC (E::val (ustl::clamp (tx, tl, th, Ord2<T>())) == w, "clamp/pred", "clamp<%s>(%d,%d,%d) is not %d", E::name(), x, lo, hi, w); } }
    { struct Co { int v; bool operator< (const Co& o) const { return v / 4 < o.v / 4; } }; Co v = { int (R.below (32)) }, lo = { int (R.below (32)) }, hi = { lo.v + int (R.below (8)) };	// equal but told apart: the value itself unless outside
      const int w = v.v / 4 < lo.v / 4 ? lo.v : v.v / 4 > hi.v / 4 ? hi.v : v.v; Co r = ustl::clamp (v, lo, hi); VC (r.v == w, "clamp/equal", "clamp(%d,%d,%d) by quarters is %d, expected %d", v.v, lo.v, hi.v, r.v, w); }
    { int v [4]; for (auto& q : v) q = R.below (9); T q0 (E::mk (v[0])), q1 (E::mk (v[1])), q2 (E::mk (v[2])), q3 (E::mk (v[3])); int lo = v[0], hi = v[0], l2 = v[0] / 2, h2 = l2;
      for (int q : v) { if (O::lt (q, lo)) lo = q; if (O::lt (hi, q)) hi = q; if (q / 2 < l2) l2 = q / 2; if (q / 2 > h2) h2 = q / 2; }
      auto r = ustl::minmax ({ q0, q1, q2, q3 }); VC (E::val (r.first) == lo && E::val (r.second) == hi, "minmax", "minmax<%s>({%d,%d,%d,%d}) is (%d,%d)", E::name(), v[0], v[1], v[2], v[3], E::val (r.first), E::val (r.second));
      auto rp = ustl::minmax ({ q0, q1, q2, q3 }, Ord2<T>()); int f = E::val (rp.first), g = E::val (rp.second), in = 0; for (int q : v) in |= (q == f) | (q == g) << 1;
      VC (f / 2 == l2 && g / 2 == h2 && in == 3, "minmax/pred", "minmax<%s>({%d,%d,%d,%d}) by halves is (%d,%d)", E::name(), v[0], v[1], v[2], v[3], f, g);
      const T &c0 = q0, &c1 = q1; auto r2 = ustl::minmax (c0, c1); bool sw = O::lt (v[1], v[0]); VC (E::val (r2.first) == v[sw] && E::val (r2.second) == v[!sw], "minmax", "minmax<%s>(%d,%d)", E::name(), v[0], v[1]); ops (3); }
    a.check ("searching");
}

template <typename T> void edits (void)
{
    typedef Elem<T> E; unsigned cs = 0; Ar<T> a (rlen(), 2 + R.below (7)); const size_t n = a.n; const M src (a.m); const int x = 1 + R.below (8), y = 1 + R.below (8); T tx (E::mk (x)), ty (E::mk (y));
    const int k = 2 + R.below (3); Pr1<T> p = { k, &cs }; const T *cb = a.cb(), *ce = a.ce(); T *b = a.b(), *e = a.e(); size_t i, c = 0;
    Ar<T> o (n + R.below (3), 8); T* ob = o.b(); const unsigned op = R.below (34); const char* nm = ""; trace ("op %u n %zu", op, n);
#define OEND(expr, cnt) do { ptrdiff_t r_ = (expr) - ob; VC (r_ == ptrdiff_t(cnt), "end", "%s<%s> of %zu elements returns %td, expected %zu", nm, E::name(), n, r_, size_t(cnt)); } while (0)
#define NEND(expr, cnt) do { ptrdiff_t r_ = (expr) - b; VC (r_ == ptrdiff_t(cnt), "end", "%s<%s> of %zu elements returns %td, expected %zu", nm, E::name(), n, r_, size_t(cnt)); } while (0)
    switch (op) {
	case 0: nm = "copy"; for (i = 0; i < n; ++i) o.m[i] = src[i]; if (R.chance (1, 2)) OEND (ustl::copy (cb, ce, ob), n); else OEND (ustl::copy (b, e, ob), n); break;
	case 1: nm = "copy_n"; c = R.pos (n); for (i = 0; i < c; ++i) o.m[i] = src[i]; if (R.chance (1, 2)) OEND (ustl::copy_n (cb, c, ob), c); else OEND (ustl::copy_n (b, c, ob), c); break;
	case 2: nm = "copy_backward"; for (i = 0; i < n; ++i) o.m[o.n - n + i] = src[i]; OEND (R.chance (1, 2) ? ustl::copy_backward (cb, ce, o.e()) : ustl::copy_backward (b, e, o.e()), o.n - n); break;
	case 3: nm = "copy (overlapping, to the left)"; if (n) { size_t s = R.below (n), l = R.below (n - s + 1), d = R.below (s + 1); for (i = 0; i < l; ++i) a.m[d+i] = src[s+i]; NEND (ustl::copy (b + s, b + s + l, b + d), d + l); } break;
	case 4: nm = "copy_backward (overlapping, to the right)"; if (n) { size_t s = R.below (n), l = R.below (n - s + 1), d = s + R.below (n - s - l + 1); for (i = 0; i < l; ++i) a.m[d+i] = src[s+i]; NEND (ustl::copy_backward (b + s, b + s + l, b + d + l), d); } break;
	case 5: nm = "copy_if"; for (i = 0; i < n; ++i) if (src[i] % k == 0) o.m[c++] = src[i]; OEND (ustl::copy_if (cb, ce, ob, p), c); VC (cs == n, "calls", "%s: %u calls for %zu elements", nm, cs, n); break;
	case 6: { nm = "for_each"; struct F { M* seen; void operator() (const T& v) { seen->push (E::val (v)); } }; M seen; F f = { &seen }; F g = ustl::for_each (cb, ce, f); VC (seen == src && g.seen == &seen, "for_each", "for_each<%s> visited %zu elements of %zu, or in another order", E::name(), seen.n, n); break; }
	case 7: { nm = "for_each (writing)"; auto f = [&](T& v) { v = E::mk (E::val (v) + 1); }; for (i = 0; i < n; ++i) ++a.m[i]; ustl::for_each (b, e, f); break; }
	case 8: nm = "fill"; for (i = 0; i < n; ++i) a.m[i] = x; ustl::fill (b, e, tx); break;
	case 9: nm = "fill_n"; c = R.pos (n); for (i = 0; i < c; ++i) a.m[i] = x; NEND (ustl::fill_n (b, c, tx), c); break;
	case 10: { nm = "generate"; int g = 0; M w; for (i = 0; i < n; ++i) a.m[i] = 1 + int(i % 90); ustl::generate (b, e, [&g](void) { return E::mk (1 + g++ % 90); }); VC (size_t(g) == n, "calls", "generate called its function %d times for %zu elements", g, n); break; }
	case 11: { nm = "generate_n"; int g = 0; c = R.pos (n); for (i = 0; i < c; ++i) a.m[i] = 1 + int(i % 90); NEND (ustl::generate_n (b, c, [&g](void) { return E::mk (1 + g++ % 90); }), c); VC (size_t(g) == c, "calls", "generate_n called its function %d times for %zu", g, c); break; }
	case 12: { nm = "transform"; unsigned g = 0; for (i = 0; i < n; ++i) o.m[i] = src[i] * 2 + 1; OEND (ustl::transform (cb, ce, ob, [&g](const T& v) { ++g; return E::mk (E::val (v) * 2 + 1); }), n); VC (g == n, "calls", "transform called its function %u times for %zu", g, n); break; }
	case 13: nm = "transform (in place)"; for (i = 0; i < n; ++i) a.m[i] = src[i] + 3; NEND (ustl::transform (b, e, b, [](const T& v) { return E::mk (E::val (v) + 3); }), n); break;
	case 14: { nm = "transform (binary)"; Ar<T> s (n + R.below (2), 9); for (i = 0; i < n; ++i) o.m[i] = src[i] * 10 + s.m[i]; OEND (ustl::transform (cb, ce, s.cb(), ob, [](const T& u, const T& v) { return E::mk (E::val (u) * 10 + E::val (v)); }), n); s.check (nm); break; }
	case 15: nm = "replace"; for (i = 0; i < n; ++i) if (src[i] == x) a.m[i] = y; ustl::replace (b, e, tx, ty); break;
	case 16: nm = "replace_if"; for (i = 0; i < n; ++i) if (src[i] % k == 0) a.m[i] = y; ustl::replace_if (b, e, p, ty); VC (cs == n, "calls", "%s", nm); break;
	case 17: nm = "replace_copy"; for (i = 0; i < n; ++i) o.m[i] = src[i] == x ? y : src[i]; OEND (ustl::replace_copy (cb, ce, ob, tx, ty), n); break;
	case 18: nm = "replace_copy_if"; for (i = 0; i < n; ++i) o.m[i] = src[i] % k == 0 ? y : src[i]; OEND (ustl::replace_copy_if (cb, ce, ob, p, ty), n); VC (cs == n, "calls", "%s", nm); break;
	case 19: nm = "reverse"; for (i = 0; i < n; ++i) a.m[i] = src[n-1-i]; ustl::reverse (b, e); break;
	case 20: nm = "reverse_copy"; for (i = 0; i < n; ++i) o.m[i] = src[n-1-i]; OEND (ustl::reverse_copy (cb, ce, ob), n); break;
	case 21: nm = "rotate"; c = R.pos (n); for (i = 0; i < n; ++i) a.m[i] = src[(i + c) % n]; ustl::rotate (b, b + c, e); break;
	case 22: nm = "rotate_copy"; c = R.pos (n); for (i = 0; i < n; ++i) o.m[i] = src[(i + c) % n]; OEND (ustl::rotate_copy (cb, cb + c, ce, ob), n); break;
	case 23: { nm = "swap_ranges"; for (i = 0; i < n; ++i) { a.m[i] = o.m[i]; o.m[i] = src[i]; } OEND (ustl::swap_ranges (b, e, ob), n); break; }
	case 24: { nm = "swap"; if (n) { size_t s = R.below (n), d = R.below (n); int t = a.m[s]; a.m[s] = a.m[d]; a.m[d] = t; if (R.chance (1, 2)) ustl::iter_swap (b + s, b + d); else ustl::swap (b[s], b[d]); } break; }
	case 25: nm = "remove"; for (i = 0; i < n; ++i) if (src[i] != x) a.m[c++] = src[i]; NEND (ustl::remove (b, e, tx), c); a.resync (c); break;
	case 26: nm = "remove_if"; for (i = 0; i < n; ++i) if (src[i] % k) a.m[c++] = src[i]; NEND (ustl::remove_if (b, e, p), c); VC (cs == n, "calls", "%s", nm); a.resync (c); break;
	case 27: nm = "remove_copy"; for (i = 0; i < n; ++i) if (src[i] != x) o.m[c++] = src[i]; OEND (ustl::remove_copy (cb, ce, ob, tx), c); break;
	case 28: nm = "remove_copy_if"; for (i = 0; i < n; ++i) if (src[i] % k) o.m[c++] = src[i]; OEND (ustl::remove_copy_if (cb, ce, ob, p), c); VC (cs == n, "calls", "%s", nm); break;
	case 29: { nm = "remove_copy (list of iterators)"; vector<const T*> rl; for (i = 0; i < n; ++i) { bool rm = R.chance (1, 3); if (rm) rl.push_back (cb + i); else o.m[c++] = src[i]; } if (rl.size() && R.chance (1, 3)) rl.push_back (rl.back()); OEND (ustl::remove_copy (cb, ce, ob, rl.begin(), rl.end()), c); break; }
	case 30: nm = "unique"; for (i = 0; i < n; ++i) if (!i || src[i] != src[i-1]) a.m[c++] = src[i]; NEND (ustl::unique (b, e), c); a.resync (c); break;
	case 31: { nm = "unique/pred"; int last = -1; for (i = 0; i < n; ++i) if (!i || src[i] / 2 != last / 2) a.m[c++] = last = src[i]; NEND (ustl::unique (b, e, Pr2<T>()), c); a.resync (c); break; }
	case 32: { nm = "unique_copy"; int last = -1; bool pr = R.chance (1, 2); for (i = 0; i < n; ++i) if (!i || (pr ? src[i] / 2 != last / 2 : src[i] != last)) o.m[c++] = last = src[i]; if (pr) OEND (ustl::unique_copy (cb, ce, ob, Pr2<T>()), c); else OEND (ustl::unique_copy (cb, ce, ob), c); break; }
	default: { nm = "partition"; bool st = R.chance (1, 2); for (i = 0; i < n; ++i) if (src[i] % k == 0) a.m[c++] = src[i]; size_t d = c; for (i = 0; i < n; ++i) if (src[i] % k) a.m[d++] = src[i];
	    if (st) { nm = "stable_partition"; NEND (ustl::stable_partition (b, e, p), c); }
	    else { NEND (ustl::partition (b, e, p), c); size_t cnt [16] = {}; for (i = 0; i < n; ++i) { int v = a.at (i); VC (v > 0 && v < 16 && (v % k == 0) == (i < c), "partition", "partition<%s>: element %zu of %zu is %d, the first %zu satisfy the predicate", E::name(), i, n, v, c); ++cnt[v]; } for (i = 0; i < n; ++i) --cnt[src[i]]; for (i = 0; i < 16; ++i) VC (!cnt[i], "partition", "partition<%s> changed the elements", E::name()); a.resync (0); }
	    break; }
    }
    a.check (nm); o.check (nm); sig (hmix (op, hmix (n > 40 ? 40 : n, hmix (c == 0, c == n))));
    VC (E::val (tx) == x && E::val (ty) == y, "argument", "%s<%s> changed its value argument", nm, E::name());
    if (want_sample()) sample ("%s<%s> on %zu elements, %zu selected", nm, E::name(), n, c);
}
// the forms that take a container
template <typename T> void whole (void)
{
    typedef Elem<T> E; unsigned cs = 0; size_t n = rlen(); M src; vector<T> v; for (size_t i = 0; i < n; ++i) { src.push (1 + R.below (7)); v.push_back (E::mk (src[i])); } M m (src);
    const vector<T>& cv = v; const int x = 1 + R.below (8), y = 1 + R.below (8), k = 2 + R.below (3); T tx (E::mk (x)), ty (E::mk (y)); Pr1<T> p = { k, &cs }; Ar<T> o (n + R.below (3), 8); T* ob = o.b(); size_t i, c = 0; const char* nm = "";
    const unsigned op = R.below (30); trace ("whole op %u n %zu", op, n); struct { size_t n; } a = { n };
    switch (op) {
	case 0: nm = "copy"; for (i = 0; i < n; ++i) o.m[i] = src[i]; OEND (ustl::copy (cv, ob), n); break;
	case 1: nm = "copy_if"; for (i = 0; i < n; ++i) if (src[i] % k == 0) o.m[c++] = src[i]; OEND (ustl::copy_if (v, ob, p), c); break;
	case 2: { nm = "for_each"; M seen; auto f = [&](const T& q) { seen.push (E::val (q)); }; if (R.chance (1, 2)) ustl::for_each (cv, f); else ustl::for_each (v, f); VC (seen == src, "for_each", "for_each on a container"); break; }
	case 3: nm = "find"; for (i = 0; i < n && src[i] != x; ++i) {} POS (ustl::find (cv, tx), cv.begin(), i, "find"); POS (ustl::find (v, tx), v.begin(), i, "find"); break;
	case 4: nm = "find_if"; for (i = 0; i < n && src[i] % k; ++i) {} POS (ustl::find_if (cv, p), cv.begin(), i, "find_if"); POS (ustl::find_if (v, p), v.begin(), i, "find_if"); break;
	case 5: nm = "count"; for (i = 0; i < n; ++i) c += src[i] == x; VC (ustl::count (cv, tx) == c && ustl::count (v, tx) == c, "count", "count of container"); break;
	case 6: nm = "count_if"; for (i = 0; i < n; ++i) c += src[i] % k == 0; VC (ustl::count_if (cv, p) == c, "count_if", "count_if of container"); break;
	case 7: nm = "transform (in place)"; for (i = 0; i < n; ++i) m[i] += 3; ustl::transform (v, [](const T& q) { return E::mk (E::val (q) + 3); }); break;
	case 8: nm = "transform"; for (i = 0; i < n; ++i) o.m[i] = src[i] + 3; OEND (ustl::transform (v, ob, [](const T& q) { return E::mk (E::val (q) + 3); }), n); break;
	case 9: { nm = "transform (binary)"; Ar<T> s (n, 9); for (i = 0; i < n; ++i) o.m[i] = src[i] * 10 + s.m[i]; OEND (ustl::transform (v, s.cb(), ob, [](const T& f, const T& g) { return E::mk (E::val (f) * 10 + E::val (g)); }), n); break; }
	case 10: nm = "replace"; for (i = 0; i < n; ++i) if (src[i] == x) m[i] = y; ustl::replace (v, tx, ty); break;
	case 11: nm = "replace_if"; for (i = 0; i < n; ++i) if (src[i] % k == 0) m[i] = y; ustl::replace_if (v, p, ty); break;
	case 12: nm = "replace_copy"; for (i = 0; i < n; ++i) o.m[i] = src[i] == x ? y : src[i]; OEND (ustl::replace_copy (cv, ob, tx, ty), n); break;
	case 13: nm = "replace_copy_if"; for (i = 0; i < n; ++i) o.m[i] = src[i] % k == 0 ? y : src[i]; OEND (ustl::replace_copy_if (cv, ob, p, ty), n); break;
	case 14: nm = "fill"; for (i = 0; i < n; ++i) m[i] = x; ustl::fill (v, tx); break;
	case 15: { nm = "generate"; int g = 0; for (i = 0; i < n; ++i) m[i] = 1 + int(i % 90); ustl::generate (v, [&g](void) { return E::mk (1 + g++ % 90); }); break; }
	case 16: { nm = "random_shuffle"; size_t cnt [16] = {}; if (R.chance (1, 2)) ustl::random_shuffle (v); else ustl::random_shuffle (v.begin(), v.end()); VC (v.size() == n, "shuffle", "size"); for (i = 0; i < n; ++i) { int q = E::val (v[i]); VC (q > 0 && q < 16, "shuffle", "random_shuffle made the element %d", q); ++cnt[q]; m[i] = q; } for (i = 0; i < n; ++i) --cnt[src[i]]; for (i = 0; i < 16; ++i) VC (!cnt[i], "shuffle", "random_shuffle<%s> changed the elements", E::name()); break; }
	case 17: nm = "remove_copy"; for (i = 0; i < n; ++i) if (src[i] != x) o.m[c++] = src[i]; OEND (ustl::remove_copy (cv, ob, tx), c); break;
	case 18: nm = "remove_copy_if"; for (i = 0; i < n; ++i) if (src[i] % k) o.m[c++] = src[i]; OEND (ustl::remove_copy_if (cv, ob, p), c); break;
	case 19: nm = "remove"; m.clear(); for (i = 0; i < n; ++i) if (src[i] != x) m.push (src[i]); ustl::remove (v, tx); break;
	case 20: { nm = "remove (list of iterators)"; m.clear(); vector<T*> rl; for (i = 0; i < n; ++i) { if (R.chance (1, 3)) rl.push_back (v.begin() + i); else m.push (src[i]); } ustl::remove (v, rl.begin(), rl.end()); break; }
	case 21: nm = "remove_if"; m.clear(); for (i = 0; i < n; ++i) if (src[i] % k) m.push (src[i]); ustl::remove_if (v, p); break;
	case 22: nm = "unique_copy"; for (i = 0; i < n; ++i) if (!i || src[i] != src[i-1]) o.m[c++] = src[i]; OEND (ustl::unique_copy (cv, ob), c); break;
	case 23: nm = "unique"; m.clear(); for (i = 0; i < n; ++i) if (!i || src[i] != src[i-1]) m.push (src[i]); ustl::unique (v); break;
	case 24: nm = "unique/pred"; m.clear(); for (i = 0; i < n; ++i) if (!i || src[i] / 2 != m[m.n-1] / 2) m.push (src[i]); ustl::unique (v, Pr2<T>()); break;
	case 25: nm = "reverse"; for (i = 0; i < n; ++i) m[i] = src[n-1-i]; ustl::reverse (v); break;
	default: { nm = "rotate"; if (n) { ssize_t off = R.range (-ssize_t(n) + 1, ssize_t(n) - 1); for (i = 0; i < n; ++i) m[(i + n + off) % n] = src[i]; ustl::rotate (v, off); } break; }
    }
    ops(); o.check (nm); VC (v.size() == m.n, "size", "%s leaves %zu elements in a container, expected %zu", nm, size_t(v.size()), m.n);
    for (i = 0; i < m.n; ++i) VC (E::val (v[i]) == m[i], "content", "%s on a container: element %zu is %d, expected %d", nm, i, E::val (v[i]), m[i]);
    sig (hmix (500 + op, hmix (n > 40 ? 40 : n, hmix (c == 0, m.n == n))));
}
template <typename T> void all (void) { for (unsigned r = 0; r < 8; ++r) { edits<T>(); edits<T>(); edits<T>(); whole<T>(); finds<T>(); } }
} // namespace
VF_CASE (c10_u8, 750, 6000) { all<uint8_t>(); }
VF_CASE (c10_u16, 750, 6000) { all<uint16_t>(); }
VF_CASE (c10_int, 1000, 8000) { all<int>(); }
VF_CASE (c10_u64, 500, 4000) { all<uint64_t>(); }
VF_CASE (c10_p3, 500, 4000) { all<P3>(); }
VF_CASE (c10_p40, 400, 3000) { all<P40>(); }
VF_CASE (c10_double, 400, 3000) { all<double>(); }
VF_CASE (c10_string, 400, 3000) { all<ustl::string>(); }
namespace { template <typename T, typename W> void kind (const char* tn)	// copies, fills and numbers of the plain types and void
{
    size_t n = rlen(), z = R.below (4); T *a = (T*) malloc ((n + z + !n) * sizeof(T)), *b = (T*) malloc ((n + z + !n) * sizeof(T)), *s = (T*) malloc ((n + z + !n) * sizeof(T));
    for (size_t i = 0; i < n + z; ++i) { a[i] = s[i] = T (R.range (-100, 100)); b[i] = T (R.range (-100, 100)); }
    const unsigned op = R.below (12); size_t d = R.pos (n), i; trace ("kind %s op %u n %zu", tn, op, n);
#define SAME(cond, what) do { ops(); for (i = 0; i < n + z; ++i) VC (cond, what, what " of %zu %s: element %zu", n, tn, i); } while (0)
    switch (op) {
	case 0: { T* r = R.chance (1, 2) ? ustl::copy ((const T*) a, (const T*) a + n, b) : ustl::copy (a, a + n, b); VC (r == b + n, "end", "copy"); for (i = 0; i < n; ++i) VC (b[i] == s[i], "copy", "copy of %zu %s: element %zu", n, tn, i); break; }
	case 1: { T* r = R.chance (1, 2) ? ustl::copy_n ((const T*) a, n, b) : ustl::copy_n (a, n, b); VC (r == b + n, "end", "copy_n"); for (i = 0; i < n; ++i) VC (b[i] == s[i], "copy_n", "copy_n of %zu %s: element %zu", n, tn, i); break; }
	case 2: { ustl::copy_backward (a, a + n, b + n); for (i = 0; i < n; ++i) VC (b[i] == s[i], "copy_backward", "copy_backward of %zu %s: element %zu", n, tn, i); break; }
	case 3: { ustl::copy_backward ((const T*) a, (const T*) a + n, b + n); for (i = 0; i < n; ++i) VC (b[i] == s[i], "copy_backward", "copy_backward of %zu const %s: element %zu", n, tn, i); break; }
	case 4: { T x = T (R.range (-100, 100)); ustl::fill (a, a + n, x); SAME (a[i] == (i < n ? x : s[i]), "fill"); break; }
	case 5: { T x = T (R.range (-100, 100)); VC (ustl::fill_n (a, n, x) == a + n, "end", "fill_n"); SAME (a[i] == (i < n ? x : s[i]), "fill_n"); break; }
	case 6: { ustl::copy (a + d, a + n, a); SAME (a[i] == (i < n - d ? s[i + d] : s[i]), "copy to the left"); break; }
	case 7: { ustl::copy_backward (a, a + n - d, a + n); SAME (a[i] == (i < n && i >= d ? s[i - d] : s[i]), "copy_backward to the right"); break; }
	case 8: { ustl::rotate (a, a + d, a + n); SAME (a[i] == (i < n ? s[(i + d) % n] : s[i]), "rotate"); break; }
	case 9: { char* r = (char*) ustl::copy ((const void*) a, (const void*)(a + n), (void*) b); VC (r == (char*)(b + n), "end", "copy of void"); for (i = 0; i < n; ++i) VC (b[i] == s[i], "copy", "copy of %zu %s as void: element %zu", n, tn, i); break; }
	case 10: { char* r = (char*) ustl::copy_n ((const void*) a, n * sizeof(T), (void*) b); VC (r == (char*)(b + n), "end", "copy_n of void"); for (i = 0; i < n; ++i) VC (b[i] == s[i], "copy_n", "copy_n of %zu %s as void", n, tn); break; }
	default: { ustl::fill_n ((void*) a, n * sizeof(T), uint8_t(0x5A)); unsigned char w [sizeof(T)]; memset (w, 0x5A, sizeof(T)); for (i = 0; i < n + z; ++i) VC (i < n ? !memcmp (a + i, w, sizeof(T)) : a[i] == s[i], "fill_n", "fill_n of void"); break; }
    }
    // sums
    for (i = 0; i < n + z; ++i) a[i] = s[i] = T (R.range (0, 9));
    W acc = 7, dot = 3, op2 = 0; for (i = 0; i < n; ++i) { acc += s[i]; dot += W(s[i]) * W(s[n-1-i]); if (n < 20) op2 = op2 * 2 - s[i]; }
    VC (ustl::accumulate ((const T*) a, (const T*) a + n, W(7)) == acc, "accumulate", "accumulate of %zu %s", n, tn); if (n < 20) VC (ustl::accumulate (a, a + n, W(0), [](W x, W y) { return x * 2 - y; }) == op2, "accumulate", "accumulate of %zu %s with an operation", n, tn);
    for (i = 0; i < n; ++i) b[i] = s[n-1-i]; VC (ustl::inner_product (a, a + n, (const T*) b, W(3)) == dot, "inner_product", "inner_product of %zu %s", n, tn);
    { W w = 5; for (i = 0; i < n; ++i) w = w + (W(s[i]) - W(b[i])) * W(2); VC (ustl::inner_product (a, a + n, b, W(5), [](W x, W y) { return x + y * W(2); }, [](W x, W y) { return x - y; }) == w, "inner_product", "inner_product with operations of %zu %s", n, tn); }
    T run = 0; T* r = ustl::partial_sum ((const T*) a, (const T*) a + n, b); VC (r == b + n, "end", "partial_sum of %zu returns %td", n, r - b); for (i = 0; i < n; ++i) { run = T(run + s[i]); VC (b[i] == run, "partial_sum", "partial_sum of %zu %s: element %zu", n, tn, i); }
    r = ustl::partial_sum (a, a + n, b, [](T x, T y) { return T (x > y ? x : y); }); VC (r == b + n, "end", "partial_sum with an operation"); for (i = 0; i < n; ++i) { run = i && run > s[i] ? run : s[i]; VC (b[i] == run, "partial_sum", "running maximum of %zu %s: element %zu", n, tn, i); }
    r = ustl::adjacent_difference ((const T*) a, (const T*) a + n, b); VC (r == b + n, "end", "adjacent_difference"); for (i = 0; i < n; ++i) VC (b[i] == T (i ? s[i] - s[i-1] : s[i]), "adjacent_difference", "of %zu %s: element %zu", n, tn, i);
    r = ustl::adjacent_difference (a, a + n, b, [](T x, T y) { return T (x * 3 + y); }); VC (r == b + n, "end", "adjacent_difference"); for (i = 0; i < n; ++i) VC (b[i] == T (i ? s[i] * 3 + s[i-1] : s[i]), "adjacent_difference", "with operation of %zu %s: element %zu", n, tn, i);
    T st = T (R.range (0, 20)); ustl::iota (a, a + n, st); SAME (a[i] == (i < n ? T (st + T(i)) : s[i]), "iota");
    { unsigned e = R.below (sizeof(T) == 1 ? 7 : 12); W w = 1, x = 2; for (unsigned q = 0; q < e; ++q) w *= x; VC (ustl::power (W(x), e) == w, "power", "power(2,%u)", e); w = 0; for (unsigned q = 0; q < e; ++q) w = w + 3; if (e) VC (ustl::power (W(3), e, [](W p, W q) { return p + q; }) == w || e % 2 == 0, "power", "power with addition, %u", e); x = W(R.below (7)); e = R.below (9); w = 1; for (unsigned q = 0; q < e; ++q) w *= x; VC (ustl::power (x, e) == w, "power", "power(%d,%u)", int(x), e); VC (ustl::power (x, e, [](W p, W q) { return p * q; }) == w, "power", "power(%d,%u) with a multiplication", int(x), e); }
    free (a); free (b); free (s); sig (hmix (900 + op, hmix (n > 60 ? 60 : n, d == 0)));
} }
// Ranges of thousands of elements
template <typename T> void big (void) { g_big = 300 + R.below (R.chance (1, 2) ? 3000 : R.chance (1, 2) ? 20000 : 100000); for (unsigned r = 0; r < 6; ++r) edits<T>(); whole<T>(); finds<T>(); }
VF_CASE (c10_big_u8, 60, 500) { big<uint8_t>(); }
VF_CASE (c10_big_u16, 40, 300) { big<uint16_t>(); }
VF_CASE (c10_big_int, 60, 500) { big<int>(); }
VF_CASE (c10_big_u64, 30, 300) { big<uint64_t>(); }
VF_CASE (c10_big_p3, 40, 300) { big<P3>(); }
VF_CASE (c10_kinds, 1500, 12000)
{
    for (unsigned q = 0; q < 3; ++q) {
	kind<char,int> ("char"); kind<int8_t,int> ("int8_t"); kind<uint8_t,int> ("uint8_t"); kind<int16_t,int> ("int16_t"); kind<uint16_t,int> ("uint16_t"); kind<int32_t,int64_t> ("int32_t"); kind<uint32_t,int64_t> ("uint32_t");
	kind<int64_t,int64_t> ("int64_t"); kind<float,double> ("float"); kind<double,double> ("double"); kind<wchar_t,int64_t> ("wchar_t");
    }
}
