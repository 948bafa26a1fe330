// Arrays with red zones for the algorithm modules. Elements are E::mk(v); red
// zone values are far from any value used inside, so that a predicate that
// sees one notices.
#pragma once
#include "elems.h"
namespace vf {
enum { RZ = 200 };	// values RZ.. are red zone values
template <typename T> struct RawOrd { static bool lt (int a, int b) { return a < b; } };
template <> struct RawOrd<ustl::string> { static bool lt (int a, int b) { return Elem<ustl::string>::lt (a, b); } };

template <typename T> struct Ar {
    typedef Elem<T> E;
    T* blk; size_t pre, n, post; Arr<int> m; bool nul;	// m models the n elements; an empty range may be that of a vector without storage
    Ar (const Ar&) = delete; void operator= (const Ar&) = delete;
    explicit Ar (size_t cnt, int range = 4) { init (cnt); for (size_t i = 0; i < n; ++i) m[i] = 1 + int (R.below (range)); build(); }
    explicit Ar (const Arr<int>& v) { init (v.n); m = v; build(); }
    void init (size_t cnt) { n = cnt; pre = R.below (4); post = R.below (4); m.resize (cnt, 1); blk = nullptr; nul = !n && R.chance (1, 2); }
    void build (void) {
	const size_t tot = pre + n + post;
	blk = (T*) malloc (tot ? tot * sizeof(T) : 1);
	for (size_t i = 0; i < tot; ++i) new (blk + i) T (E::mk (i < pre ? RZ + int(i) : i < pre + n ? m[i - pre] : RZ + 10 + int(i - pre - n)));
    }
    ~Ar (void) { for (size_t i = 0; i < pre + n + post; ++i) blk[i].~T(); free (blk); }
    T* b (void) { return nul ? nullptr : blk + pre; }
    T* e (void) { return nul ? nullptr : blk + pre + n; }
    const T* cb (void) const { return nul ? nullptr : blk + pre; }
    const T* ce (void) const { return nul ? nullptr : blk + pre + n; }
    int at (size_t i) const { return E::val (blk[pre + i]); }
    // whole block against the model; elements from 'unspec' to the end may have any value
    void check (const char* op, size_t unspec = ~size_t(0)) {
	ops();
	for (size_t i = 0; i < pre; ++i) VC (E::val (blk[i]) == RZ + int(i), "outside", "%s<%s>: %s of %zu wrote element %zd before the range", "array", E::name(), op, n, ssize_t(pre) - ssize_t(i));
	for (size_t i = 0; i < post; ++i) VC (E::val (blk[pre+n+i]) == RZ + 10 + int(i), "outside", "array<%s>: %s of %zu wrote element %zu past the end of the range", E::name(), op, n, i);
	for (size_t i = 0; i < n && i < unspec; ++i) VC (at (i) == m[i], "content", "array<%s>: after %s element %zu of %zu is %d, expected %d", E::name(), op, i, n, at (i), m[i]);
    }
    // for operations that leave elements from 'from' on with valid but unspecified values
    void resync (size_t from) { for (size_t i = from; i < n; ++i) m[i] = at (i); }
};
inline size_t rlen (void) { if (g_big) return R.chance (1, 3) ? R.below (g_big) : g_big / 2 + R.below (g_big / 2); return R.chance (1, 40) ? R.below (400) : R.chance (1, 5) ? R.below (3) : R.below (24); }
}
