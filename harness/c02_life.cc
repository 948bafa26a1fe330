// C02: containers construct, relocate and destroy every element exactly once.
#define TRACK_DEFINE
#include "tracked.h"
namespace vf {
typedef ustl::pair<int,Tracked> ITPair; typedef ustl::pair<Tracked,Tracked> TTPair;
// Objects alive right after an operation: those of the container, and no other
static void live_is (size_t n, size_t per) {
    if (n != size_t(-1) && Track::live != int64_t (n * per)) fail ("live-count", "%lld elements are alive besides the container's own %zu", (long long)(Track::live - int64_t (n * per)), n * per);
}
inline void seq_after (const Tag<Tracked>&, size_t n) { live_is (n, 1); }
inline void seq_after (const Tag<ITPair>&, size_t n) { live_is (n, 1); }
inline void seq_after (const Tag<TTPair>&, size_t n) { live_is (n, 2); }
}
#include "adapt.h"
using namespace vf;
typedef Tracked TR;
// Algorithms on a vector of tracked elements keep the multiset of live objects
static void algos (void)
{
    ustl::vector<TR> v; Arr<int> m;
    for (size_t s = 0, N = 30 + R.below (40); s < N; ++s) {
	unsigned k = R.below (18); size_t n = v.size(), a = R.pos (n), b = a + R.below (n - a + 1); int x = 1 + R.below (12);
	trace ("%u@%zu,%zu", k, a, b);
	switch (k) {
	    case 0: case 1: case 2: for (size_t i = 0, c = R.size (20); i < c; ++i) v.push_back (TR (1 + R.below (12))); break;
	    case 3: ustl::sort (v); break;
	    case 4: ustl::stable_sort (v); break;
	    case 5: ustl::reverse (v.begin() + a, v.begin() + b); break;
	    case 6: ustl::rotate (v.begin() + a, v.begin() + a + R.below (b - a + 1), v.begin() + b); break;
	    case 7: ustl::remove (v, TR (x)); break;
	    case 8: ustl::unique (v); break;
	    case 9: ustl::make_heap (v.begin(), v.end()); break;
	    case 10: ustl::make_heap (v.begin(), v.end()); ustl::sort_heap (v.begin(), v.end()); break;
	    case 11: ustl::random_shuffle (v); break;
	    case 12: { TR t (x); ustl::fill (v.begin() + a, v.begin() + b, t); break; }
	    case 13: { ustl::vector<TR> w (v.begin() + a, v.begin() + b); ustl::copy (w.begin(), w.end(), v.begin()); ustl::copy_backward (w.begin(), w.end(), v.end()); break; }
	    case 14: if (n) ustl::iter_swap (v.begin() + R.below (n), v.begin() + R.below (n)); break;
	    case 15: ustl::partition (v.begin(), v.end(), OddT<TR>()); break;
	    case 16: ustl::next_permutation (v.begin(), v.end()); break;
	    default: { ustl::sort (v.begin(), v.begin() + a); ustl::sort (v.begin() + a, v.end()); ustl::inplace_merge (v.begin(), v.begin() + a, v.end()); break; }
	}
	seq_after (Tag<TR>(), v.size());
	for (size_t i = 0; i < v.size(); ++i) Elem<TR>::val (v[i]);
	if (v.size() > 150) { v.erase (v.begin(), v.begin() + 100); seq_after (Tag<TR>(), v.size()); }
	sig (hmix (k, n > 40 ? 41 : n));
    }
}
// Raw storage functions
static void raw (void)
{
    enum { N = 24 }; uint64_t buf [N * sizeof(TR) / 8 + 1], buf2 [N * sizeof(TR) / 8 + 1];
    TR *p = (TR*) buf, *q = (TR*) buf2;
    for (int it = 0; it < 60; ++it) {
	memset (buf, 0xA5, sizeof(buf)); memset (buf2, 0xA5, sizeof(buf2));
	size_t n = R.below (N + 1); unsigned k = R.below (10), d = R.below (4);
	switch (k) {
	    case 0: if (n % 2) ustl::uninitialized_default_construct (p, p + n); else if (n % 4) ustl::construct (p, p + n); else for (size_t i = 0; i < n; ++i) ustl::construct (p + i); break;
	    case 1: ustl::uninitialized_default_construct_n (p, n); break;
	    case 2: ustl::uninitialized_value_construct (p, p + n); break;
	    case 3: ustl::uninitialized_value_construct_n (p, n); break;
	    case 4: { TR t (3); ustl::uninitialized_fill (p, p + n, t); break; }
	    case 5: { TR t (3); TR* e = ustl::uninitialized_fill_n (p, n, t); VC (e == p + n, "result", "uninitialized_fill_n returned %td of %zu", e - p, n); break; }
	    case 6: { for (size_t i = 0; i < n; ++i) new (q + i) TR (i + 1); TR* e = ustl::uninitialized_copy (q, q + n, p); VC (e == p + n, "result", "uninitialized_copy returned %td of %zu", e - p, n); break; }
	    case 7: { for (size_t i = 0; i < n; ++i) new (q + i) TR (i + 1); TR* e = ustl::uninitialized_copy_n (q, n, p); VC (e == p + n, "result", "uninitialized_copy_n returned %td of %zu", e - p, n); break; }
	    case 8: { for (size_t i = 0; i < n; ++i) new (q + i) TR (i + 1); TR* e = ustl::uninitialized_move (q, q + n, p); VC (e == p + n, "result", "uninitialized_move returned %td of %zu", e - p, n); break; }
	    default: { for (size_t i = 0; i < n; ++i) new (q + i) TR (i + 1); TR* e = ustl::uninitialized_move_n (q, n, p); VC (e == p + n, "result", "uninitialized_move_n returned %td of %zu", e - p, n); break; }
	}
	bool two = k >= 6;
	VC (Track::live == int64_t (two ? 2 * n : n), "live-count", "raw construction %u of %zu elements left %lld alive", k, n, (long long) Track::live);
	for (size_t i = 0; i < n; ++i) { int want = k < 4 ? 0 : k < 6 ? 3 : int (i + 1); VC (Elem<TR>::val (p[i]) == want, "content", "raw construction %u: element %zu is %d", k, i, p[i].v); }
	if (two) for (size_t i = 0; i < n; ++i) VC (Elem<TR>::val (q[i]) == (k < 8 ? int (i + 1) : -5), "content", "raw construction %u: source %zu is %d", k, i, q[i].v);
	for (size_t i = n * sizeof(TR); i < sizeof(buf); ++i) VC (((uint8_t*) buf)[i] == 0xA5, "overrun", "raw construction %u wrote byte %zu", k, i);
	if (two) ustl::destroy (q, q + n);
	switch (d) { case 0: ustl::destroy (p, p + n); break; case 1: ustl::destroy_n (p, n); break; case 2: for (size_t i = 0; i < n; ++i) ustl::destroy_at (p + i); break; default: for (size_t i = 0; i < n; ++i) ustl::destroy (p + i); }
	VC (Track::live == 0, "live-count", "destroy %u of %zu elements left %lld alive", d, n, (long long) Track::live);
	sig (hmix (k * 8 + d, n));
    }
}
#define LIFE(nm,q,t,...) VF_CASE (c02_##nm, q, t) { Track::reset(); __VA_ARGS__; ops (Track::events); VC (Track::live == 0, "never-destroyed", "%lld of %u elements made were never destroyed", (long long) Track::live, Track::next - 1); if (want_sample()) sample ("%u elements made, %llu lifecycle events, none alive at the end", Track::next - 1, (unsigned long long) Track::events); Track::events = 0; }
LIFE (vector, 300, 8000, { Seq<ustl::vector<TR> > s; s.run ("vector", 60 + R.below (120)); })
LIFE (list, 200, 5000, { Seq<ustl::list<TR> > s; s.run ("list", 60 + R.below (120)); })
LIFE (listops, 200, 5000, listops<ustl::list<TR> >())
LIFE (set, 100, 2500, SetTest<ustl::set<TR,OrdLess<TR>::Comp>,OrdLess<TR>,false>::run())
LIFE (multiset, 100, 2500, SetTest<ustl::multiset<TR,OrdClass<TR>::Comp>,OrdClass<TR>,true>::run())
LIFE (map, 100, 2500, MapTest<ustl::map<int,TR,OrdLess<int>::Comp>,OrdLess<int>,false>::run())
LIFE (map2, 60, 2500, MapTest<ustl::map<TR,TR,OrdGreater<TR>::Comp>,OrdGreater<TR>,false>::run())
LIFE (multimap, 60, 2500, MapTest<ustl::multimap<TR,TR,OrdClass<TR>::Comp>,OrdClass<TR>,true>::run())
LIFE (queue, 100, 2500, queue_run<TR,ustl::vector<TR> >())
LIFE (stack, 100, 2500, stack_run<TR,ustl::list<TR> >())
LIFE (pq, 100, 2500, pq_run<TR,ustl::vector<TR>,OrdLess<TR> >())
LIFE (algos, 300, 8000, algos())
LIFE (raw, 100, 2500, raw())
