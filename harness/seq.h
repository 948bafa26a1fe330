// Random histories on vector, list and deque against an ideal sequence.
#pragma once
#include "elems.h"
namespace vf {

// Called after each operation with the number of elements the container has
template <typename T> inline void seq_after (const Tag<T>&, size_t) {}

typedef Arr<int> Model;

template <typename CT> struct Seq {
    typedef typename CT::value_type T;
    typedef Elem<T> E;
    CT* c; Model m; int fresh;
    char buf [sizeof(CT) + 16];
    Seq (void) : c (nullptr), fresh (1) {}
    int nv (void) { int v = R.chance (1, 3) ? 1 + int(R.below (6)) : ++fresh; return v % E::MOD ? v % E::MOD : 1; }

    void check (const CT& o, const Model& mm, const char* op) {
	ops();
	VC (o.size() == mm.n, "size", "%s<%s>: after %s size() is %zu, the ideal sequence has %zu", kind(), E::name(), op, size_t(o.size()), mm.n);
	VC (o.empty() == (mm.n == 0), "empty", "%s<%s>: after %s empty() is wrong at size %zu", kind(), E::name(), op, mm.n);
	VC (o.capacity() >= o.size() || o.is_linked(), "capacity", "%s<%s>: after %s capacity %zu < size %zu", kind(), E::name(), op, size_t(o.capacity()), size_t(o.size()));
	size_t i = 0;
	for (typename CT::const_iterator it = o.begin(); it != o.end(); ++it, ++i) {
	    VC (i < mm.n, "content", "too long");
	    VC (E::val (*it) == mm[i], "content", "%s<%s>: after %s element %zu of %zu is %d, expected %d", kind(), E::name(), op, i, mm.n, E::val (*it), mm[i]);
	}
	VC (i == mm.n, "iteration", "%s<%s>: after %s iteration covers %zu of %zu elements", kind(), E::name(), op, i, mm.n);
	if (mm.n) {
	    VC (E::val (o.front()) == mm[0] && E::val (o.back()) == mm[mm.n-1], "front-back", "%s<%s>: after %s front %d back %d, expected %d %d", kind(), E::name(), op, E::val (o.front()), E::val (o.back()), mm[0], mm[mm.n-1]);
	    size_t k = R.below (mm.n);
	    VC (E::val (o[k]) == mm[k] && E::val (o.at (k)) == mm[k] && E::val (*o.iat (k)) == mm[k] && E::val (o.data()[k]) == mm[k] && E::val (o.cdata()[k]) == mm[k], "index", "%s<%s>: after %s access to element %zu of %zu", kind(), E::name(), op, k, mm.n);
	}
	if (R.chance (1, 8)) {
	    i = mm.n;
	    for (typename CT::const_reverse_iterator it = o.rbegin(); it != o.rend(); ++it) { --i; VC (i < mm.n && E::val (*it) == mm[i], "reverse", "%s<%s>: after %s reverse iteration at %zu", kind(), E::name(), op, i); }
	    VC (i == 0, "reverse", "reverse iteration stopped at %zu", i);
	    i = mm.n;
	    for (typename CT::const_reverse_iterator it = o.crbegin(); it != o.crend(); ++it) { --i; VC (i < mm.n && E::val (*it) == mm[i], "reverse", "%s<%s>: after %s crbegin iteration at %zu", kind(), E::name(), op, i); }
	    VC (i == 0, "reverse", "crend");
	    i = 0;
	    for (typename CT::const_iterator it = o.cbegin(); it != o.cend(); ++it, ++i) VC (i < mm.n && E::val (*it) == mm[i], "iteration", "cbegin");
	}
    }
    void checkmut (CT& o, const Model& mm) {
	size_t i = 0;
	for (typename CT::iterator it = o.begin(); it != o.end(); ++it, ++i) VC (i < mm.n && E::val (*it) == mm[i], "content", "mutable iteration at %zu", i);
	VC (i == mm.n, "iteration", "mutable iteration covers %zu of %zu", i, mm.n);
	if (!mm.n) return;
	i = mm.n;
	for (typename CT::reverse_iterator it = o.rbegin(); it != o.rend(); ++it) { --i; VC (i < mm.n && E::val (*it) == mm[i], "reverse", "mutable reverse iteration at %zu", i); }
	VC (i == 0, "reverse", "stopped at %zu", i);
	size_t k = R.below (mm.n);
	VC (E::val (o[k]) == mm[k] && E::val (o.at (k)) == mm[k] && E::val (*o.iat (k)) == mm[k] && E::val (o.data()[k]) == mm[k] && E::val (o.front()) == mm[0] && E::val (o.back()) == mm[mm.n-1], "index", "mutable access %zu of %zu", k, mm.n);
    }
    const char* kind (void) { return name; }
    const char* name;
    void after (void) { seq_after (Tag<T>(), c->size()); }
    // A separate container of random content, with its model
    void other (CT& o, Model& om, size_t mx) {
	size_t n = R.size (mx);
	for (size_t i = 0; i < n; ++i) { int v = nv(); o.push_back (E::mk (v)); om.push (v); }
    }
    void construct (void) {
	void* p = buf + (16 - size_t(buf) % 16) % 16;
	m.clear();
	unsigned k = R.below (7);
	size_t n = R.size (70);
	switch (k) {
	    case 0: c = new (p) CT; break;
	    case 1: c = new (p) CT (n); m.resize (n, 0); break;
	    case 2: { int v = nv(); T t (E::mk (v)); c = new (p) CT (n, t); m.resize (n, v); break; }
	    case 3: { CT o; Model om; other (o, om, 70); c = new (p) CT (static_cast<const CT&>(o)); m = om; check (o, om, "being copied"); break; }
	    case 4: { CT o; Model om; other (o, om, 70); c = new (p) CT (ustl::move (o)); m = om; check (o, Model(), "being moved from"); break; }
	    case 5: { CT o; Model om; other (o, om, 70); size_t a = R.below (om.n + 1), b = a + R.below (om.n - a + 1); c = new (p) CT (o.iat (a), o.iat (b)); m.insert (0, om.p + a, b - a); break; }
	    default: { int a = nv(), b = nv(), d = nv(); c = new (p) CT ({ E::mk (a), E::mk (b), E::mk (d) }); m.push (a); m.push (b); m.push (d); break; }
	}
	trace ("ctor%u n=%zu", k, m.n);
	sig (hmix (1000 + k, m.n));
	check (*c, m, "construction");
    }
    void step (size_t maxn) {
	CT& v = *c; size_t n = m.n; const char* op = "?";
	unsigned k = R.below (28);
	size_t cap0 = v.capacity();
	size_t pos = R.chance (1, 4) ? 0 : R.chance (1, 3) ? n : R.pos (n);
	size_t cnt = R.size (R.chance (1, 30) ? maxn : 20);
	if (n > maxn && k < 14) k = 19;
	switch (k) {
	    case 0: case 1: { op = "push_back(const&)"; int x = nv(); const T t (E::mk (x)); v.push_back (t); VC (E::val (t) == x, "argument", "push_back changed its argument"); m.push (x); break; }
	    case 2: { if (R.chance (1, 6)) { op = "push_back()"; v.push_back(); m.push (0); break; } op = "push_back(&&)"; int x = nv(); v.push_back (E::mk (x)); m.push (x); break; }
	    case 3: { op = "emplace_back"; int x = nv(); v.emplace_back (E::mk (x)); m.push (x); break; }
	    case 4: { op = "insert(1)"; int x = nv(); const T t (E::mk (x)); typename CT::iterator r = v.insert (v.iat (pos), t); m.insert (pos, 1, x); VC (r == v.iat (pos), "returned-iterator", "insert returned offset %td, expected %zu", r - v.begin(), pos); break; }
	    case 5: { op = "insert(&&)"; int x = nv(); typename CT::iterator r = v.insert (v.iat (pos), E::mk (x)); m.insert (pos, 1, x); VC (r == v.iat (pos), "returned-iterator", "insert(&&) returned offset %td, expected %zu", r - v.begin(), pos); break; }
	    case 6: { op = "emplace"; int x = nv(); typename CT::iterator r = v.emplace (v.iat (pos), E::mk (x)); m.insert (pos, 1, x); VC (r == v.iat (pos), "returned-iterator", "emplace returned offset %td, expected %zu", r - v.begin(), pos); break; }
	    case 7: case 8: { op = "insert(n)"; int x = nv(); const T t (E::mk (x)); typename CT::iterator r = v.insert (v.iat (pos), cnt, t); m.insert (pos, cnt, x); VC (r == v.iat (pos), "returned-iterator", "insert(n) returned offset %td, expected %zu", r - v.begin(), pos); break; }
	    case 9: case 10: { op = "insert(range)"; CT o; Model om; other (o, om, cnt); size_t a = R.below (om.n + 1), b = a + R.below (om.n - a + 1); typename CT::iterator r = v.insert (v.iat (pos), static_cast<const CT&>(o).iat (a), static_cast<const CT&>(o).iat (b)); m.insert (pos, om.p + a, b - a); VC (r == v.iat (pos), "returned-iterator", "insert(range) returned offset %td, expected %zu", r - v.begin(), pos); cnt = b - a; break; }
	    case 11: { op = "insert(list)"; int a = nv(), b = nv(); typename CT::iterator r = v.insert (v.iat (pos), { E::mk (a), E::mk (b) }); int x[2] = { a, b }; m.insert (pos, x, 2); VC (r == v.iat (pos), "returned-iterator", "insert(list) returned offset %td", r - v.begin()); break; }
	    case 12: { op = "resize(n)"; size_t nn = R.size (n + 40); cnt = nn; v.resize (nn); m.resize (nn, 0); break; }
	    case 13: { op = "resize(n,v)"; size_t nn = R.size (n + 40); cnt = nn; int x = nv(); T t (E::mk (x)); v.resize (nn, t); m.resize (nn, x); break; }
	    case 14: { op = "reserve"; size_t nn = R.size (n + 200); v.reserve (nn, R.chance (1, 2)); VC (v.capacity() >= nn, "reserve", "capacity %zu after reserve(%zu)", size_t(v.capacity()), nn);
		const T* d = v.data(); size_t cap = v.capacity(); (void) cap;
		if (nn > n && R.chance (1, 2)) { T t (E::mk (5)); while (v.size() < nn) { v.push_back (t); m.push (5); } VC (nn <= n || v.data() == d, "reserve", "storage moved before the %zu reserved elements were used", nn); op = "push_back into reserved space"; }
		break; }
	    case 15: { op = "erase(1)"; if (!n) return; pos = R.below (n); typename CT::iterator r = v.erase (v.iat (pos)); m.erase (pos, 1); VC (r == v.iat (pos), "returned-iterator", "erase returned offset %td, expected %zu", r - v.begin(), pos); break; }
	    case 16: { op = "erase(n)"; cnt = R.below (n - pos + 1); typename CT::iterator r = v.erase (v.iat (pos), cnt); m.erase (pos, cnt); VC (r == v.iat (pos), "returned-iterator", "erase(n) returned offset %td, expected %zu", r - v.begin(), pos); break; }
	    case 17: { op = "erase(range)"; cnt = R.below (n - pos + 1); typename CT::iterator r = v.erase (v.iat (pos), v.iat (pos + cnt)); m.erase (pos, cnt); VC (r == v.iat (pos), "returned-iterator", "erase(range) returned offset %td, expected %zu", r - v.begin(), pos); break; }
	    case 18: { op = "pop_back"; if (!n) return; v.pop_back(); m.pop(); break; }
	    case 19: { if (n < maxn && R.chance (2, 3)) return; op = "clear"; v.clear(); m.clear(); break; }
	    case 20: { op = "shrink_to_fit"; v.shrink_to_fit(); break; }
	    case 21: { if (R.chance (2, 3)) return; op = "deallocate"; v.deallocate(); m.clear(); break; }
	    case 22: { op = "assign(n,v)"; cnt = R.size (50); int x = nv(); T t (E::mk (x)); v.assign (cnt, t); m.clear(); m.resize (cnt, x); break; }
	    case 23: { op = "assign(range)"; CT o; Model om; other (o, om, 60); size_t a = R.below (om.n + 1), b = a + R.below (om.n - a + 1); v.assign (o.iat (a), o.iat (b)); m.clear(); m.insert (0, om.p + a, b - a); break; }
	    case 24: { CT o; Model om; other (o, om, 60);
		switch (R.below (4)) {
		    case 0: op = "operator="; v = static_cast<const CT&>(o); m = om; check (o, om, "being assigned from"); break;
		    case 1: op = "operator=(&&)"; v = ustl::move (o); m = om; break;
		    case 2: op = "swap"; v.swap (o); m.swap (om); check (o, om, "swap (argument)"); break;
		    default: op = "std swap"; ustl::swap (v, o); m.swap (om); check (o, om, "ustl::swap (argument)"); break;
		} break; }
	    case 25: { op = "push_back(own element)"; if (!n) return; size_t i = R.below (n); v.push_back (static_cast<const CT&>(v)[i]); m.push (m[i]); break; }
	    case 26: { op = "element assignment"; if (!n) return; int x = nv(); size_t i = R.below (n); switch (R.below (5)) { case 0: v[i] = E::mk (x); break; case 1: v.at (i) = E::mk (x); break; case 2: *v.iat (i) = E::mk (x); break; case 3: i = 0; v.front() = E::mk (x); break; default: i = n - 1; v.back() = E::mk (x); } m[i] = x; break; }
	    default: { op = "self assignment"; const CT& cv (v); v = cv; break; }
	}
	trace ("%s@%zu*%zu", op, pos, cnt);
	after();
	sig (hmix (hmix (k, n > 40 ? 40 + (n > 200) : n), hmix (pos == 0 ? 0 : pos == n ? 1 : 2, hmix (cnt > 20 ? 21 : cnt, v.capacity() != cap0))));
	check (v, m, op);
	if (R.chance (1, 8)) checkmut (v, m);
    }
    void run (const char* nm, size_t steps) {
	name = nm;
	size_t maxn = R.chance (1, 12) ? 3000 : 200;
	construct();
	for (size_t i = 0; i < steps; ++i) step (maxn);
	c->~CT();
    }
};

// A few operations on a container of very many elements
template <typename CT> void seq_big (const char* nm, size_t limit)
{
    Seq<CT> s; typedef Elem<typename CT::value_type> E; s.name = nm; s.construct();
    const size_t N = R.chance (1, 3) ? 1000 + R.below (5000) : R.chance (1, 2) ? 5000 + R.below (30000) : R.chance (1, 2) ? 66000 + R.below (80000) : 130000 + R.below (150000), n0 = N < limit ? N : limit / 2 + R.below (limit / 2);
    for (unsigned i = 0, steps = 10 + R.below (14); i < steps; ++i) {
	if (s.m.n < n0 / 2) {	// refill
	    CT o; Model om; for (size_t k = s.m.n; k < n0; ++k) { const int v = 1 + R.below (E::MOD > 200 ? 200 : E::MOD - 1); o.push_back (E::mk (v)); om.push (v); }
	    const size_t pos = R.below (s.m.n + 1); s.c->insert (s.c->iat (pos), static_cast<const CT&>(o).begin(), static_cast<const CT&>(o).end()); s.m.insert (pos, om.p, om.n);
	    s.after(); s.check (*s.c, s.m, "insert(long range)"); trace ("filled to %zu", s.m.n);
	}
	s.step (2 * limit);
    }
    sig (hmix (77, s.m.n / 3000));
    if (want_sample()) sample ("operations on %s of up to %zu elements", nm, n0);
    s.c->~CT();
}

template <typename CT> void eqtest (void)
{
    typedef typename CT::value_type T; typedef Elem<T> E;
    for (int i = 0; i < 40; ++i) {
	CT a, b; Model x, y; size_t n = R.size (20);
	for (size_t k = 0; k < n; ++k) { int v = 1 + R.below (3); a.push_back (E::mk (v)); x.push (v); b.push_back (E::mk (v)); y.push (v); }
	if (R.chance (1, 2) && n) { size_t k = R.below (n); int v = 1 + R.below (4); b[k] = E::mk (v); y[k] = v; }
	if (R.chance (1, 4)) { b.push_back (E::mk (2)); y.push (2); }
	if (R.chance (1, 8) && b.size()) { b.pop_back(); y.pop(); }
	VC ((a == b) == (x == y), "equality", "operator== of %zu and %zu elements gives %d", x.n, y.n, a == b);
	VC ((a != b) == !(x == y), "equality", "operator!= of %zu and %zu elements gives %d", x.n, y.n, a != b);
	ops(); sig (hmix (n, x == y));
    }
}

struct Odd { bool operator() (int v) const { return v & 1; } };
template <typename T> struct OddT { bool operator() (const T& v) const { return Elem<T>::val (v) & 1; } };

template <typename CT> void listops (void)
{
    typedef typename CT::value_type T; typedef Elem<T> E;
    CT v; Model m; Seq<CT> S; S.name = "list";
    for (size_t it = 0, N = 40 + R.below (60); it < N; ++it) {
	unsigned k = R.below (14); const char* op = "?"; size_t n = m.n;
	int x = 1 + R.below (9);
	switch (k) {
	    case 0: { op = "push_front"; const T t (E::mk (x)); v.push_front (t); m.insert (0, 1, x); break; }
	    case 1: { op = "push_front(&&)"; v.push_front (E::mk (x)); m.insert (0, 1, x); break; }
	    case 2: { op = "emplace_front"; v.emplace_front (E::mk (x)); m.insert (0, 1, x); break; }
	    case 3: { op = "pop_front"; if (!n) continue; v.pop_front(); m.erase (0, 1); break; }
	    case 4: { op = "remove"; if (R.chance (1, 2)) continue; T t (E::mk (x)); v.remove (t); for (size_t i = m.n; i--;) if (m[i] == x) m.erase (i, 1); break; }
	    case 5: { op = "remove_if"; if (R.chance (2, 3)) continue; v.remove_if (OddT<T>()); for (size_t i = m.n; i--;) if (m[i] & 1) m.erase (i, 1); break; }
	    case 6: { op = "reverse"; v.reverse(); for (size_t i = 0; i < m.n / 2; ++i) { int t = m[i]; m[i] = m[m.n-1-i]; m[m.n-1-i] = t; } break; }
	    case 7: { op = "unique"; v.unique(); Model r; for (size_t i = 0; i < m.n; ++i) if (!i || m[i] != m[i-1]) r.push (m[i]); m = r; break; }
	    case 8: { op = "sort"; v.sort(); Model r; for (size_t i = 0; i < m.n; ++i) { size_t j = r.n; T a (E::mk (m[i])); while (j && a < E::mk (r[j-1])) --j; r.insert (j, 1, m[i]); } m = r; break; }
	    case 9: { op = "splice(all)"; CT o; Model om; size_t c = R.size (20); for (size_t i = 0; i < c; ++i) { int y = 1 + R.below (9); o.push_back (E::mk (y)); om.push (y); } size_t p = R.pos (n); v.splice (v.iat (p), o); m.insert (p, om.p, om.n); S.check (o, Model(), "being spliced from"); break; }
	    case 10: { op = "splice(range)"; CT o; Model om; size_t c = 1 + R.size (20); for (size_t i = 0; i < c; ++i) { int y = 1 + R.below (9); o.push_back (E::mk (y)); om.push (y); } size_t p = R.pos (n), a = R.below (c + 1), b = a + R.below (c - a + 1); if (R.below (4)) v.splice (v.iat (p), o, o.iat (a), o.iat (b)); else { op = "splice(first)"; b = c; v.splice (v.iat (p), o, o.iat (a)); } m.insert (p, om.p + a, b - a); om.erase (a, b - a); S.check (o, om, "being spliced from"); break; }
	    case 11: { op = "merge"; CT o; Model om; size_t c = R.size (20); for (size_t i = 0; i < c; ++i) { int y = 1 + R.below (9); o.push_back (E::mk (y)); } v.sort(); o.sort();
		for (size_t i = 0; i < c; ++i) om.push (E::val (o[i]));
		v.merge (o); S.check (o, om, "being merged from");
		for (size_t i = 0; i < c; ++i) m.push (om[i]);
		Model r; for (size_t i = 0; i < m.n; ++i) { size_t j = r.n; T a (E::mk (m[i])); while (j && a < E::mk (r[j-1])) --j; r.insert (j, 1, m[i]); }
		m = r; break; }
	    case 12: { op = "const front"; if (!n) continue; const CT& cv = v; VC (E::val (cv.front()) == m[0] && E::val (v.front()) == m[0], "front-back", "front"); break; }
	    default: { op = "push_back"; v.push_back (E::mk (x)); m.push (x); break; }
	}
	if (m.n > 150) { v.erase (v.begin(), v.iat (100)); m.erase (0, 100); }
	trace ("%s", op);
	sig (hmix (k, n > 60 ? 61 : n));
	S.check (v, m, op);
	seq_after (Tag<T>(), v.size());
    }
}


}
