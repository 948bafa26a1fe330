// Random histories on set, multiset, map and multimap against sorted models.
#pragma once
#include "seq.h"
#include <ustl/umultimap.h>
#include <ustl/umultiset.h>
namespace vf {

// Orderings: the comparison of the container and the same order on model ints
template <typename T> struct OrdLess { typedef ustl::less<T> Comp; static bool lt (int a, int b) { return a < b; } static const char* name (void) { return "less"; } };
template <typename T> struct OrdStr { typedef ustl::less<T> Comp; static bool lt (int a, int b) { return Elem<ustl::string>::lt (a, b); } static const char* name (void) { return "less"; } };
template <typename T> struct OrdGreater { typedef ustl::greater<T> Comp; static bool lt (int a, int b) { return a > b; } static const char* name (void) { return "greater"; } };
// Equivalence classes of several unequal values
template <typename T> struct OrdClass { struct Comp { bool operator() (const T& a, const T& b) const { return Elem<T>::val (a) / 4 < Elem<T>::val (b) / 4; } }; static bool lt (int a, int b) { return a / 4 < b / 4; } static const char* name (void) { return "class"; } };

template <typename Ord> struct SModel {
    Arr<int> k, v;	// keys and mapped values, sorted
    size_t lb (int x) const { if (k.n > 500) return part ([&](int e) { return Ord::lt (e, x); }); size_t i = 0; while (i < k.n && Ord::lt (k[i], x)) ++i; return i; }
    size_t ub (int x) const { if (k.n > 500) return part ([&](int e) { return !Ord::lt (x, e); }); size_t i = 0; while (i < k.n && !Ord::lt (x, k[i])) ++i; return i; }
    template <typename P> size_t part (P p) const { size_t a = 0, b = k.n; while (a < b) { size_t m = (a + b) / 2; if (p (k[m])) a = m + 1; else b = m; } return a; }
    bool has (int x) const { return lb (x) != ub (x); }
    bool ins1 (int x, int y) { if (has (x)) return false; size_t p = lb (x); k.insert (p, 1, x); v.insert (p, 1, y); return true; }
    size_t insm (int x, int y) { size_t p = ub (x); k.insert (p, 1, x); v.insert (p, 1, y); return p; }
    void erase (size_t p, size_t n) { k.erase (p, n); v.erase (p, n); }
    void clear (void) { k.clear(); v.clear(); }
};

inline int akey (int range) { return 1 + int (R.below (range)); }

//--- set and multiset ------------------------------------------------------
template <typename CT, typename Ord, bool Multi> struct SetTest {
    typedef typename CT::value_type T; typedef Elem<T> E; typedef SModel<Ord> M;
    typedef typename CT::iterator It; typedef typename CT::const_iterator CIt;
    static void check (const CT& c, const M& m, const char* op) {
	ops();
	VC (c.size() == m.k.n && c.empty() == !m.k.n, "size", "%s/%s: after %s size %zu, model %zu", E::name(), Ord::name(), op, size_t(c.size()), m.k.n);
	size_t i = 0;
	for (CIt it = c.begin(); it != c.end(); ++it, ++i) VC (i < m.k.n && E::val (*it) == m.k[i], "content", "%s/%s: after %s element %zu is %d, model %d", E::name(), Ord::name(), op, i, E::val (*it), i < m.k.n ? m.k[i] : -1);
	VC (i == m.k.n, "content", "iteration");
	if (R.chance (1, 6)) {
	    i = 0; for (CIt it = c.cbegin(); it != c.cend(); ++it, ++i) VC (i < m.k.n && E::val (*it) == m.k[i], "content", "cbegin");
	    i = m.k.n; for (typename CT::const_reverse_iterator it = c.rbegin(); it != c.rend(); ++it) { --i; VC (i < m.k.n && E::val (*it) == m.k[i], "content", "reverse"); }
	    VC (!i, "content", "reverse");
	}
    }
    static void queries (CT& c, const M& m, int range) {
	const CT& cc = c;
	for (unsigned q = 0; q < 4; ++q) {
	    int x = int (R.below (range + 2)); if (!x) x = 1; T t (E::mk (x));
	    size_t lb = m.lb (x), ub = m.ub (x), f = lb == ub ? m.k.n : lb;
	    VC (cc.find (t) == cc.begin() + f && c.find (t) == c.begin() + f, "find", "%s/%s: find(%d) gives %td, model %zu of %zu", E::name(), Ord::name(), x, cc.find (t) - cc.begin(), f, m.k.n);
	    VC (cc.lower_bound (t) == cc.begin() + lb && c.lower_bound (t) == c.begin() + lb, "lower_bound", "lower_bound(%d) gives %td, model %zu", x, cc.lower_bound (t) - cc.begin(), lb);
	    VC (cc.upper_bound (t) == cc.begin() + ub && c.upper_bound (t) == c.begin() + ub, "upper_bound", "upper_bound(%d) gives %td, model %zu", x, cc.upper_bound (t) - cc.begin(), ub);
	    VC (cc.equal_range (t).first == cc.begin() + lb && cc.equal_range (t).second == cc.begin() + ub && c.equal_range (t).first == c.begin() + lb && c.equal_range (t).second == c.begin() + ub, "equal_range", "equal_range(%d)", x);
	    VC (cc.count (t) == ub - lb, "count", "count(%d) gives %zu, model %zu", x, size_t (cc.count (t)), ub - lb);
	    int y = akey (range); T u (E::mk (y));
	    VC (cc.key_comp() (t, u) == Ord::lt (x, y) && cc.value_comp() (t, u) == Ord::lt (x, y), "comp", "key_comp");
	    ops (6);
	}
    }
    static void mins (M& m, int x) { if (Multi) m.insm (x, 0); else m.ins1 (x, 0); }
    // Return value of single insertion
    static void ret (CT& c, const M& m, int x, const ustl::pair<It,bool>& r, bool had) {
	VC (r.second == !had, "insert-result", "insert(%d) reports %d", x, r.second);
	VC (r.first == c.begin() + m.lb (x), "insert-result", "insert(%d) returned offset %td, model %zu", x, r.first - c.begin(), m.lb (x));
    }
    static void ret (CT& c, const M& m, int x, It r, bool) {
	size_t want = Multi ? m.ub (x) - 1 : m.lb (x);
	VC (r == c.begin() + want, "insert-result", "insert(%d) returned offset %td, model %zu", x, r - c.begin(), want);
    }
    static void rnd (CT& o, M& om, size_t n, int range) { for (size_t i = 0; i < n; ++i) { int x = akey (range); T t (E::mk (x)); o.insert (t); mins (om, x); } }
    static void rawarr (ustl::vector<T>& o, Arr<int>& om, size_t n, int range) { for (size_t i = 0; i < n; ++i) { int x = akey (range); o.push_back (E::mk (x)); om.push (x); } }
    static void eraseval (CT& c, M& m, int x) { erval (c, m, x, ustl::integral_constant<bool,Multi>()); }
    static void erval (CT& c, M& m, int x, ustl::false_type) { const T t (E::mk (x)); c.erase (t); if (m.has (x)) m.erase (m.lb (x), 1); }
    static void erval (CT& c, M& m, int x, ustl::true_type) { const T t (E::mk (x)); size_t n = c.erase (t); size_t lb = m.lb (x), ub = m.ub (x); VC (n == ub - lb, "erase-result", "erase(%d) returned %zu, model %zu", x, n, ub - lb); m.erase (lb, ub - lb); }
    static void run (void) {
	int range = R.chance (1, 3) ? 12 : R.chance (1, 2) ? 60 : 1000;
	if (g_big) { range = R.chance (1, 2) ? int (g_big) * 2 : int (g_big) * 20; if (range >= E::MOD) range = E::MOD - 1; }
	M m; CT* c;
	switch (R.below (4)) {
	    case 0: { ustl::vector<T> a; Arr<int> am; rawarr (a, am, R.size (40), range); c = new CT (a.begin(), a.end()); for (size_t i = 0; i < am.n; ++i) mins (m, am[i]); break; }
	    case 1: { int x = akey (range), y = akey (range), z = akey (range); c = new CT ({ E::mk (x), E::mk (y), E::mk (z) }); mins (m, x); mins (m, y); mins (m, z); break; }
	    case 2: { CT o; rnd (o, m, R.size (30), range); c = new CT (static_cast<const CT&>(o)); break; }
	    default: c = new CT; break;
	}
	try { go (*c, m, range); } catch (...) { delete c; throw; }
	delete c;
    }
    static void go (CT& c, M& m, int range) {
	check (c, m, "construction");
	for (size_t s = 0, N = g_big ? 12 + R.below (40) : 40 + R.below (80); s < N; ++s) {
	    if (m.k.n < g_big / 2) { ustl::vector<T> a; Arr<int> am; rawarr (a, am, g_big, range); const ustl::vector<T>& ca = a; c.insert (ca.begin(), ca.end()); for (size_t i = 0; i < am.n; ++i) mins (m, am[i]); check (c, m, "insert(long range)"); }
	    unsigned k = R.below (24); const char* op = "?"; size_t n0 = m.k.n;
	    int x = akey (range); bool had = m.has (x);
	    switch (k) {
		case 0: case 1: case 2: { op = "insert"; const T t (E::mk (x)); mins (m, x); auto r = c.insert (t); ret (c, m, x, r, had); break; }
		case 3: case 4: { op = "insert(&&)"; mins (m, x); auto r = c.insert (E::mk (x)); ret (c, m, x, r, had); break; }
		case 5: { op = "insert(hint)"; const T t (E::mk (x)); mins (m, x); It r = c.insert (static_cast<const CT&>(c).begin() + R.below (n0 + 1), t); ret (c, m, x, r, had); break; }
		case 6: { op = "insert(hint,&&)"; mins (m, x); It r = c.insert (static_cast<const CT&>(c).begin() + R.below (n0 + 1), E::mk (x)); ret (c, m, x, r, had); break; }
		case 7: { op = "insert(range)"; ustl::vector<T> a; Arr<int> am; rawarr (a, am, R.size (30), range); const ustl::vector<T>& ca = a; c.insert (ca.begin(), ca.end()); for (size_t i = 0; i < am.n; ++i) mins (m, am[i]); break; }
		case 8: { op = "insert(list)"; int y = akey (range); c.insert ({ E::mk (x), E::mk (y) }); mins (m, x); mins (m, y); break; }
		case 9: { op = "emplace"; mins (m, x); auto r = c.emplace (E::mk (x)); ret (c, m, x, r, had); break; }
		case 10: { op = "emplace_hint"; mins (m, x); It r = c.emplace_hint (static_cast<const CT&>(c).begin(), E::mk (x)); ret (c, m, x, r, had); break; }
		case 11: { op = "emplace_back"; mins (m, x); auto r = c.emplace_back (E::mk (x)); ret (c, m, x, r, had); break; }
		case 12: { op = "push_back"; const T t (E::mk (x)); c.push_back (t); mins (m, x); break; }
		case 13: case 14: case 15: { op = "erase(value)"; if (n0 && R.chance (2, 3)) x = m.k[R.below (n0)]; eraseval (c, m, x); break; }
		case 16: { op = "erase(it)"; if (!n0) continue; size_t p = R.below (n0); It r = c.erase (c.begin() + p); m.erase (p, 1); VC (r == c.begin() + p, "erase-result", "erase returned %td, model %zu", r - c.begin(), p); break; }
		case 17: { op = "erase(range)"; size_t a = R.below (n0 + 1), b = a + R.below (n0 - a + 1); It r = c.erase (c.begin() + a, c.begin() + b); m.erase (a, b - a); VC (r == c.begin() + a, "erase-result", "erase(range)"); break; }
		case 18: { op = "assign(range)"; if (R.chance (2, 3)) continue; ustl::vector<T> a; Arr<int> am; rawarr (a, am, R.size (50), range); const ustl::vector<T>& ca = a; c.assign (ca.begin(), ca.end()); m.clear(); for (size_t i = 0; i < am.n; ++i) mins (m, am[i]); break; }
		case 19: { op = "operator="; if (R.chance (1, 2)) continue; CT o; M om; rnd (o, om, R.size (40), range); c = static_cast<const CT&>(o); m = om; check (o, om, "being assigned from"); break; }
		case 20: { op = "operator=(&&)"; if (R.chance (1, 2)) continue; CT o; M om; rnd (o, om, R.size (40), range); c = ustl::move (o); m = om; break; }
		case 21: { op = "swap"; if (R.chance (1, 2)) continue; CT o; M om; rnd (o, om, R.size (40), range); c.swap (o); check (o, m, "swap (argument)"); m = om; break; }
		case 22: { op = "move construction"; CT o (ustl::move (c)); check (o, m, op); check (c, M(), "being moved from"); CT p (static_cast<const CT&>(o)); check (p, m, "copy construction"); VC (p == o && o == p && !(p != o), "equality", "a copy compares unequal"); if (m.k.n) { p.erase (p.begin() + R.below (m.k.n)); VC (!(p == o) && !(o == p), "equality", "containers of different size compare equal"); } c.swap (o); break; }
		default: { op = "clear"; if (R.chance (9, 10)) continue; c.clear(); m.clear(); break; }
	    }
	    trace ("%s(%d)", op, x);
	    check (c, m, op);
	    seq_after (Tag<T>(), c.size());
	    sig (hmix (hmix (k, had), n0 > 30 ? 31 : n0));
	    if (R.chance (1, 2)) queries (c, m, range);
	}
    }
};

//--- map and multimap -------------------------------------------------------
template <typename CT, typename Ord, bool Multi> struct MapTest {
    typedef typename CT::value_type T; typedef typename CT::key_type K; typedef typename CT::data_type V; typedef Elem<K> EK; typedef Elem<V> EV; typedef SModel<Ord> M;
    typedef typename CT::iterator It; typedef typename CT::const_iterator CIt;
    static T mk (int x, int y) { return T (EK::mk (x), EV::mk (y)); }
    static void check (const CT& c, const M& m, const char* op) {
	ops();
	VC (c.size() == m.k.n && c.empty() == !m.k.n, "size", "map %s/%s: after %s size %zu, model %zu", EK::name(), Ord::name(), op, size_t(c.size()), m.k.n);
	size_t i = 0;
	for (CIt it = c.begin(); it != c.end(); ++it, ++i) VC (i < m.k.n && EK::val (it->first) == m.k[i] && EV::val (it->second) == m.v[i], "content", "map %s/%s: after %s element %zu is (%d,%d), model (%d,%d)", EK::name(), Ord::name(), op, i, EK::val (it->first), EV::val (it->second), i < m.k.n ? m.k[i] : -1, i < m.k.n ? m.v[i] : -1);
	VC (i == m.k.n, "content", "iteration");
    }
    static void mins (M& m, int x, int y) { if (Multi) m.insm (x, y); else m.ins1 (x, y); }
    static void ret (CT& c, const M& m, int x, const ustl::pair<It,bool>& r, bool had) {
	VC (r.second == !had, "insert-result", "insert(%d) reports %d", x, r.second);
	VC (r.first == c.begin() + m.lb (x), "insert-result", "insert(%d) returned offset %td, model %zu", x, r.first - c.begin(), m.lb (x));
    }
    static void ret (CT& c, const M& m, int x, It r, bool) {
	size_t want = Multi ? m.ub (x) - 1 : m.lb (x);
	VC (r == c.begin() + want, "insert-result", "insert(%d) returned offset %td, model %zu", x, r - c.begin(), want);
    }
    static void rnd (CT& o, M& om, size_t n, int range) { for (size_t i = 0; i < n; ++i) { int x = akey (range), y = 1 + R.below (50); const T t (mk (x, y)); o.insert (t); mins (om, x, y); } }
    static void rawarr (ustl::vector<T>& o, Arr<int>& om, Arr<int>& ov, size_t n, int range) { for (size_t i = 0; i < n; ++i) { int x = akey (range), y = 1 + R.below (50); o.push_back (mk (x, y)); om.push (x); ov.push (y); } }
    static void queries (CT& c, const M& m, int range) {
	const CT& cc = c;
	for (unsigned q = 0; q < 3; ++q) {
	    int x = int (R.below (range + 2)); if (!x) x = 1; K t (EK::mk (x));
	    size_t lb = m.lb (x), ub = m.ub (x), f = lb == ub ? m.k.n : lb;
	    VC (cc.find (t) == cc.begin() + f && c.find (t) == c.begin() + f, "find", "map find(%d) gives %td, model %zu of %zu", x, cc.find (t) - cc.begin(), f, m.k.n);
	    VC (cc.lower_bound (t) == cc.begin() + lb && c.lower_bound (t) == c.begin() + lb, "lower_bound", "map lower_bound(%d)", x);
	    VC (cc.upper_bound (t) == cc.begin() + ub && c.upper_bound (t) == c.begin() + ub, "upper_bound", "map upper_bound(%d)", x);
	    VC (cc.equal_range (t).first == cc.begin() + lb && cc.equal_range (t).second == cc.begin() + ub && c.equal_range (t).first == c.begin() + lb && c.equal_range (t).second == c.begin() + ub, "equal_range", "map equal_range(%d)", x);
	    VC (cc.count (t) == ub - lb, "count", "map count(%d) gives %zu, model %zu", x, size_t (cc.count (t)), ub - lb);
	    int y = akey (range); K u (EK::mk (y));
	    VC (cc.key_comp() (t, u) == Ord::lt (x, y), "comp", "key_comp");
	    const T tp (mk (x, 5)), up (mk (y, 3));
	    VC (cc.value_comp() (tp, up) == Ord::lt (x, y), "comp", "value_comp");
	    ops (6);
	    more (c, m, x, ustl::integral_constant<bool,Multi>());
	}
    }
    static void more (CT&, const M&, int, ustl::true_type) {}
    static void more (CT& c, const M& m, int x, ustl::false_type) {
	const CT& cc = c; K t (EK::mk (x));
	if (m.has (x)) { int w = m.v[m.lb (x)]; VC (EV::val (cc.at (t)) == w && EV::val (c.at (t)) == w && EV::val (cc[t]) == w && EV::val (c[t]) == w, "at", "map at(%d)", x); }
	int y = 1 + R.below (50); V d (EV::mk (y)); size_t f = 0; while (f < m.v.n && m.v[f] != y) ++f;
	VC (cc.find_data (d) == cc.begin() + f && c.find_data (d) == c.begin() + f, "find_data", "find_data(%d) gives %td, model %zu", y, cc.find_data (d) - cc.begin(), f);
	size_t a = R.below (m.v.n + 1), b = a + R.below (m.v.n - a + 1);
	if (m.v.n) { for (f = a; f < b && m.v[f] != y; ++f) {} VC (cc.find_data (d, cc.begin() + a, cc.begin() + b) == cc.begin() + f && c.find_data (d, c.begin() + a, c.begin() + b) == c.begin() + f, "find_data", "find_data in [%zu,%zu)", a, b); }
	if (m.v.n) { for (f = a; f < m.v.n && m.v[f] != y; ++f) {} VC (cc.find_data (d, cc.begin() + a) == cc.begin() + f && c.find_data (d, c.begin() + a) == c.begin() + f, "find_data", "find_data from %zu", a); }
    }
    static void index (CT& c, M& m, int x, int y, ustl::false_type) {
	const K t (EK::mk (x)); bool had = m.has (x);
	V& r = c[t];
	VC (EV::val (r) == (had ? m.v[m.lb (x)] : 0), "index", "map[%d] is %d", x, EV::val (r));
	m.ins1 (x, 0); r = EV::mk (y); m.v[m.lb (x)] = y;
    }
    static void index (CT& c, M& m, int x, int y, ustl::true_type) { const T t (mk (x, y)); c.insert (t); m.insm (x, y); }
    static void hint (CT& c, M& m, int x, int y, ustl::false_type) { const T t (mk (x, y)); bool had = m.has (x); m.ins1 (x, y); It r = c.insert (static_cast<const CT&>(c).begin(), t); ret (c, m, x, r, had); }
    static void hint (CT& c, M& m, int x, int y, ustl::true_type) { m.insm (x, y); It r = c.insert (static_cast<const CT&>(c).begin(), mk (x, y)); ret (c, m, x, r, false); }
    static void run (void) {
	int range = R.chance (1, 3) ? 12 : R.chance (1, 2) ? 60 : 1000;
	if (g_big) { range = R.chance (1, 2) ? int (g_big) * 2 : int (g_big) * 20; if (range >= EK::MOD) range = EK::MOD - 1; }
	M m; CT* c;
	switch (R.below (4)) {
	    case 0: { ustl::vector<T> a; Arr<int> am, av; rawarr (a, am, av, R.size (40), range); c = new CT (a.begin(), a.end()); for (size_t i = 0; i < am.n; ++i) mins (m, am[i], av[i]); break; }
	    case 1: { int x = akey (range), y = akey (range); c = new CT ({ mk (x, 7), mk (y, 8) }); mins (m, x, 7); mins (m, y, 8); break; }
	    case 2: { CT o; rnd (o, m, R.size (30), range); c = new CT (static_cast<const CT&>(o)); break; }
	    default: c = new CT; break;
	}
	try { go (*c, m, range); } catch (...) { delete c; throw; }
	delete c;
    }
    static void go (CT& c, M& m, int range) {
	check (c, m, "construction");
	for (size_t s = 0, N = g_big ? 12 + R.below (40) : 40 + R.below (80); s < N; ++s) {
	    if (m.k.n < g_big / 2) { ustl::vector<T> a; Arr<int> am, av; rawarr (a, am, av, g_big, range); const ustl::vector<T>& ca = a; c.insert (ca.begin(), ca.end()); for (size_t i = 0; i < am.n; ++i) mins (m, am[i], av[i]); check (c, m, "insert(long range)"); }
	    unsigned k = R.below (24); const char* op = "?"; size_t n0 = m.k.n;
	    int x = akey (range), y = 1 + R.below (50); bool had = m.has (x);
	    switch (k) {
		case 0: case 1: { op = "insert"; const T t (mk (x, y)); mins (m, x, y); auto r = c.insert (t); ret (c, m, x, r, had); break; }
		case 2: case 3: { op = "insert(&&)"; mins (m, x, y); auto r = c.insert (mk (x, y)); ret (c, m, x, r, had); break; }
		case 4: { op = "insert(hint)"; hint (c, m, x, y, ustl::integral_constant<bool,Multi>()); break; }
		case 5: { op = "insert(hint,&&)"; mins (m, x, y); It r = c.insert (static_cast<const CT&>(c).begin() + R.below (n0 + 1), mk (x, y)); ret (c, m, x, r, had); break; }
		case 6: { op = "insert(range)"; ustl::vector<T> a; Arr<int> am, av; rawarr (a, am, av, R.size (30), range); const ustl::vector<T>& ca = a; c.insert (ca.begin(), ca.end()); for (size_t i = 0; i < am.n; ++i) mins (m, am[i], av[i]); break; }
		case 7: { op = "insert(list)"; int z = akey (range); c.insert ({ mk (x, y), mk (z, y) }); mins (m, x, y); mins (m, z, y); break; }
		case 8: { op = "emplace"; mins (m, x, y); auto r = c.emplace (EK::mk (x), EV::mk (y)); ret (c, m, x, r, had); break; }
		case 9: { op = "emplace_hint"; mins (m, x, y); It r = c.emplace_hint (static_cast<const CT&>(c).begin(), EK::mk (x), EV::mk (y)); ret (c, m, x, r, had); break; }
		case 10: { op = "emplace_back"; mins (m, x, y); auto r = c.emplace_back (EK::mk (x), EV::mk (y)); ret (c, m, x, r, had); break; }
		case 11: { op = "push_back"; const T t (mk (x, y)); c.push_back (t); mins (m, x, y); break; }
		case 12: case 13: case 14: { op = "operator[]"; index (c, m, x, y, ustl::integral_constant<bool,Multi>()); break; }
		case 15: case 16: { op = "erase(key)"; if (n0 && R.chance (2, 3)) x = m.k[R.below (n0)]; const K t (EK::mk (x)); c.erase (t); m.erase (m.lb (x), m.ub (x) - m.lb (x)); break; }
		case 17: { op = "erase(it)"; if (!n0) continue; size_t p = R.below (n0); It r = c.erase (c.begin() + p); m.erase (p, 1); VC (r == c.begin() + p, "erase-result", "erase returned %td, model %zu", r - c.begin(), p); break; }
		case 18: { op = "erase(range)"; size_t a = R.below (n0 + 1), b = a + R.below (n0 - a + 1); It r = c.erase (c.begin() + a, c.begin() + b); m.erase (a, b - a); VC (r == c.begin() + a, "erase-result", "erase(range)"); break; }
		case 19: { op = "assign(range)"; if (R.chance (2, 3)) continue; ustl::vector<T> a; Arr<int> am, av; rawarr (a, am, av, R.size (50), range); const ustl::vector<T>& ca = a; c.assign (ca.begin(), ca.end()); m.clear(); for (size_t i = 0; i < am.n; ++i) mins (m, am[i], av[i]); break; }
		case 20: { op = "operator="; if (R.chance (1, 2)) continue; CT o; M om; rnd (o, om, R.size (40), range); c = static_cast<const CT&>(o); m = om; check (o, om, "being assigned from"); break; }
		case 21: { op = "operator=(&&)/swap"; if (R.chance (1, 2)) continue; CT o; M om; rnd (o, om, R.size (40), range); if (R.chance (1, 2)) c = ustl::move (o); else { c.swap (o); check (o, m, "swap (argument)"); } m = om; break; }
		case 22: { op = "move construction"; CT o (ustl::move (c)); check (o, m, op); check (c, M(), "being moved from"); CT p (static_cast<const CT&>(o)); check (p, m, "copy construction"); VC (p == o && o == p && !(p != o), "equality", "a copy compares unequal"); if (m.k.n) { p.erase (p.begin() + R.below (m.k.n)); VC (!(p == o) && !(o == p), "equality", "containers of different size compare equal"); } c.swap (o); break; }
		default: { op = "clear"; if (R.chance (9, 10)) continue; c.clear(); m.clear(); break; }
	    }
	    trace ("%s(%d,%d)", op, x, y);
	    check (c, m, op);
	    seq_after (Tag<T>(), c.size());
	    sig (hmix (hmix (k, had), n0 > 30 ? 31 : n0));
	    if (R.chance (1, 2)) queries (c, m, range);
	}
    }
};
}
