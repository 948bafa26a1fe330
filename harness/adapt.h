// Random histories on queue, stack and priority_queue.
#pragma once
#include "assoc.h"
namespace vf {

template <typename T, typename CT> void queue_run (void)
{
    typedef Elem<T> E; typedef ustl::queue<T,CT> Q;
    Q* q; Arr<int> m;	// front is m[0]
    int fresh = 1;
    if (R.chance (1, 3)) { CT c; for (size_t i = 0, n = R.size (20); i < n; ++i) { c.push_back (E::mk (++fresh)); m.push (fresh); } if (R.chance (1, 2)) q = new Q (static_cast<const CT&>(c)); else q = new Q (ustl::move (c)); }
    else q = new Q;
    auto check = [&] (const Q& x, const Arr<int>& mm, const char* op) {
	ops();
	VC (x.size() == mm.n && x.empty() == !mm.n, "size", "queue<%s>: after %s size %zu, ideal %zu", E::name(), op, size_t (x.size()), mm.n);
	if (mm.n) VC (E::val (x.front()) == mm[0] && E::val (x.back()) == mm[mm.n-1], "order", "queue<%s>: after %s front %d back %d, ideal %d %d", E::name(), op, E::val (x.front()), E::val (x.back()), mm[0], mm[mm.n-1]);
    };
    auto drain = [&] (Q& x, Arr<int> mm, const char* op) { while (mm.n) { check (x, mm, op); x.pop(); mm.erase (0, 1); } check (x, mm, op); };
    try {
	check (*q, m, "construction");
	unsigned bias = R.below (3);
	for (size_t s = 0, N = 60 + R.below (200); s < N; ++s) {
	    const char* op = "?"; int x = R.chance (1, 3) ? 1 + int (R.below (4)) : ++fresh; x %= E::MOD; if (!x) x = 1;
	    unsigned k = R.below (18); size_t n0 = m.n;
	    switch (k) {
		case 0: case 1: case 2: { push: op = "push"; const T t (E::mk (x)); q->push (t); m.push (x); break; }
		case 3: { op = "emplace"; q->emplace (E::mk (x)); m.push (x); break; }
		case 4: case 5: case 6: case 7: case 8: case 9: { if (k >= 8 && bias == 0) goto push; op = "pop"; if (!m.n) continue; for (size_t z = g_big && R.chance (1, 3) ? R.below (g_big) : 0;;) { q->pop(); m.erase (0, 1); if (!z-- || !m.n) break; check (*q, m, "popping many"); } break; }
		case 10: { op = "element assignment"; if (!m.n) continue; q->front() = E::mk (x); m[0] = x; if (R.chance (1, 2)) { q->back() = E::mk (x); m[m.n-1] = x; } break; }
		case 11: { op = "copy"; Q c (static_cast<const Q&>(*q)); check (c, m, "copy construction"); VC (c == *q, "equality", "a copy differs"); drain (c, m, "popping a copy"); break; }
		case 12: { op = "copy assignment"; Q c; for (int i = 0; i < 5; ++i) c.push (E::mk (i + 1)); c.pop(); c = static_cast<const Q&>(*q); drain (c, m, "popping an assigned copy"); break; }
		case 13: { op = "move"; Q c (ustl::move (*q)); check (c, m, "move construction"); check (*q, Arr<int>(), "being moved from"); *q = ustl::move (c); break; }
		case 14: { op = "swap"; Q c; Arr<int> cm; for (int i = 0; i < 9; ++i) { c.push (E::mk (i + 1)); cm.push (i + 1); } c.pop(); c.pop(); cm.erase (0, 2); if (R.chance (1, 2)) q->swap (c); else ustl::swap (*q, c); check (c, m, "swap (argument)"); if (R.chance (1, 2)) { m.swap (cm); } else q->swap (c); break; }
		case 15: { op = "equality"; Q c; for (int i = 0; i < int(R.below (4)); ++i) { c.push (E::mk (7)); } while (!c.empty()) c.pop(); for (size_t i = 0; i < m.n; ++i) c.push (E::mk (m[i])); VC (c == *q && *q == c, "equality", "queues of equal content compare unequal"); VC (!(c < *q), "less", "queue < queue of equal content"); c.push (E::mk (x)); VC (!(c == *q), "equality", "queues of unequal size compare equal"); if (m.n) { c.pop(); bool same = true; for (size_t i = 0; i < m.n; ++i) same = same && (i + 1 < m.n ? m[i+1] : x) == m[i]; VC ((c == *q) == same, "equality", "queue comparison of shifted content"); } break; }
		case 16: { op = "long run"; if (R.chance (3, 4) || (g_big && m.n > 3 * g_big)) continue; for (size_t i = 0, z = g_big ? g_big : 100; i < z; ++i) { ++fresh; int y = fresh % E::MOD; if (!y) y = 1; q->push (E::mk (y)); m.push (y); } break; }
		default: { op = "drain"; if (R.chance (7, 8)) continue; while (m.n) { check (*q, m, op); q->pop(); m.erase (0, 1); } break; }
	    }
	    trace ("%s(%d)", op, x);
	    check (*q, m, op); seq_after (Tag<T>(), size_t(-1));
	    sig (hmix (k, n0 > 60 ? 61 : n0));
	}
	drain (*q, m, "final drain");
    } catch (...) { delete q; throw; }
    delete q;
}

template <typename T, typename CT> void stack_run (void)
{
    typedef Elem<T> E; typedef ustl::stack<T,CT> Q;
    Q* q; Arr<int> m; int fresh = 1;
    if (R.chance (1, 3)) { CT c; for (size_t i = 0, n = R.size (20); i < n; ++i) { c.push_back (E::mk (++fresh)); m.push (fresh); } if (R.chance (1, 2)) q = new Q (static_cast<const CT&>(c)); else q = new Q (ustl::move (c)); }
    else q = new Q;
    auto check = [&] (const Q& x, const Arr<int>& mm, const char* op) {
	ops();
	VC (x.size() == mm.n && x.empty() == !mm.n, "size", "stack<%s>: after %s size %zu, ideal %zu", E::name(), op, size_t (x.size()), mm.n);
	if (mm.n) VC (E::val (x.top()) == mm[mm.n-1], "order", "stack<%s>: after %s top %d, ideal %d", E::name(), op, E::val (x.top()), mm[mm.n-1]);
    };
    auto drain = [&] (Q& x, Arr<int> mm, const char* op) { while (mm.n) { check (x, mm, op); x.pop(); mm.pop(); } check (x, mm, op); };
    try {
	check (*q, m, "construction");
	for (size_t s = 0, N = 60 + R.below (100); s < N; ++s) {
	    const char* op = "?"; int x = R.chance (1, 3) ? 1 + int (R.below (4)) : ++fresh; x %= E::MOD; if (!x) x = 1;
	    unsigned k = R.below (14); size_t n0 = m.n;
	    switch (k) {
		case 0: case 1: case 2: { op = "push"; const T t (E::mk (x)); q->push (t); m.push (x); break; }
		case 3: { op = "emplace"; q->emplace (E::mk (x)); m.push (x); break; }
		case 4: case 5: case 6: { op = "pop"; if (!m.n) continue; q->pop(); m.pop(); break; }
		case 7: { op = "element assignment"; if (!m.n) continue; q->top() = E::mk (x); m[m.n-1] = x; break; }
		case 8: { op = "copy"; Q c (static_cast<const Q&>(*q)); drain (c, m, "popping a copy"); break; }
		case 9: { op = "copy assignment"; Q c; for (int i = 0; i < 5; ++i) c.push (E::mk (i + 1)); c = static_cast<const Q&>(*q); drain (c, m, "popping an assigned copy"); break; }
		case 10: { op = "move"; Q c (ustl::move (*q)); check (c, m, "move construction"); check (*q, Arr<int>(), "being moved from"); *q = ustl::move (c); break; }
		case 11: { op = "swap"; Q c; Arr<int> cm; for (int i = 0; i < 4; ++i) { c.push (E::mk (i + 1)); cm.push (i + 1); } if (R.chance (1, 2)) q->swap (c); else ustl::swap (*q, c); check (c, m, "swap (argument)"); drain (c, m, "popping after swap"); m.swap (cm); break; }
		case 12: { op = "equality"; Q c; for (int i = 0; i < int(R.below (4)); ++i) { c.push (E::mk (7)); } while (!c.empty()) c.pop(); for (size_t i = 0; i < m.n; ++i) c.push (E::mk (m[i])); VC (c == *q && *q == c && !(c != *q), "equality", "stacks of equal content compare unequal"); VC (!(c < *q) && !(*q < c), "less", "stack < stack of equal content");
		    c.push (E::mk (x)); VC (!(c == *q) && !(*q == c) && *q < c && !(c < *q), "equality", "stacks of unequal size compare equal"); c.pop(); if (m.n) { c.pop(); c.push (E::mk (x)); VC ((c == *q) == (m[m.n-1] == x), "equality", "comparison of stacks that differ on top"); VC (!(c < *q), "less", "stack < stack of equal size"); } drain (*q, m, "comparison"); for (size_t i = 0; i < m.n; ++i) q->push (E::mk (m[i])); break; }
		default: { op = "own top"; if (!m.n) continue; if (g_big && m.n < 3 * g_big) for (size_t i = 0; i < g_big; ++i) { const int y = 1 + int (i % (E::MOD - 1)); q->push (E::mk (y)); m.push (y); } q->push (static_cast<const Q&>(*q).top()); m.push (m[m.n-1]); break; }
	    }
	    trace ("%s(%d)", op, x);
	    check (*q, m, op); seq_after (Tag<T>(), q->size());
	    sig (hmix (k, n0 > 60 ? 61 : n0));
	}
	drain (*q, m, "final drain");
    } catch (...) { delete q; throw; }
    delete q;
}

template <typename T, typename CT, typename Ord> void pq_run (void)
{
    typedef Elem<T> E; typedef ustl::priority_queue<T,CT,typename Ord::Comp> Q; typedef typename Ord::Comp Comp;
    Q* q; Arr<int> m; int range = R.chance (1, 2) ? 20 : 100000; if (range >= E::MOD) range = E::MOD - 1;
    CT c0; const CT& cc0 = c0;
    if (R.chance (1, 2)) for (size_t i = 0, n = R.size (40); i < n; ++i) { int x = akey (range); c0.push_back (E::mk (x)); m.push (x); }
    switch (R.below (5)) {
	case 0: q = new Q (Comp(), cc0); break;
	case 1: q = new Q (cc0.begin(), cc0.end()); break;
	case 2: q = new Q (Comp(), ustl::move (c0)); break;
	case 3: { CT c1; for (int i = 0; i < 5; ++i) { int x = akey (range); c1.push_back (E::mk (x)); m.push (x); } q = new Q (cc0.begin(), cc0.end(), Comp(), ustl::move (c1)); break; }
	default: m.clear(); q = new Q; break;
    }
    auto check = [&] (const Q& x, const Arr<int>& mm, const char* op) {
	ops();
	VC (x.size() == mm.n && x.empty() == !mm.n, "size", "priority_queue: after %s size %zu, ideal %zu", op, size_t (x.size()), mm.n);
	if (mm.n) {
	    int t = E::val (x.top()); bool in = false;
	    for (size_t i = 0; i < mm.n; ++i) { VC (!Ord::lt (t, mm[i]), "top", "priority_queue/%s: after %s top is %d of %zu elements, but %d is above it", Ord::name(), op, t, mm.n, mm[i]); if (mm[i] == t) in = true; }
	    VC (in, "top", "priority_queue: after %s top %d is not an element", op, t);
	}
    };
    auto popm = [&] (Arr<int>& mm, int t) { for (size_t i = 0; i < mm.n; ++i) if (mm[i] == t) { mm.erase (i, 1); return; } };
    auto drain = [&] (Q& x, Arr<int> mm, const char* op) { while (mm.n) { check (x, mm, op); int t = E::val (x.top()); x.pop(); popm (mm, t); } check (x, mm, op); };
    try {
	check (*q, m, "construction");
	for (size_t s = 0, N = 60 + R.below (100); s < N; ++s) {
	    const char* op = "?"; int x = akey (range); unsigned k = R.below (13); size_t n0 = m.n;
	    switch (k) {
		case 0: case 1: case 2: case 3: { op = "push"; const T t (E::mk (x)); q->push (t); m.push (x); break; }
		case 4: { op = "emplace"; q->emplace (E::mk (x)); m.push (x); break; }
		case 5: case 6: case 7: { op = "pop"; if (!m.n) continue; int t = E::val (q->top()); q->pop(); popm (m, t); break; }
		case 8: { op = "copy"; Q c (static_cast<const Q&>(*q)); drain (c, m, "popping a copy"); break; }
		case 9: { op = "copy assignment"; Q c; c.push (E::mk (x)); c = static_cast<const Q&>(*q); drain (c, m, "popping an assigned copy"); break; }
		case 10: { op = "move"; Q c (ustl::move (*q)); check (c, m, "move construction"); check (*q, Arr<int>(), "being moved from"); *q = ustl::move (c); break; }
		case 11: { op = "swap"; Q c; Arr<int> cm; for (int i = 0; i < 4; ++i) { int y = akey (range); c.push (E::mk (y)); cm.push (y); } if (R.chance (1, 2)) q->swap (c); else ustl::swap (*q, c); drain (c, m, "popping after swap"); m.swap (cm); break; }
		default: { op = "many"; if (R.chance (3, 4) || (g_big && m.n > 2 * g_big)) continue; for (size_t i = 0, z = g_big ? g_big : 40; i < z; ++i) { int y = akey (range); q->push (E::mk (y)); m.push (y); } break; }
	    }
	    trace ("%s(%d)", op, x);
	    check (*q, m, op); seq_after (Tag<T>(), size_t(-1));
	    sig (hmix (k, n0 > 60 ? 61 : n0));
	}
	drain (*q, m, "final drain");
    } catch (...) { delete q; throw; }
    delete q;
}
}
