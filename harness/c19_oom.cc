// Allocation failure. Each operation is run once undisturbed, then again from
// the same state with its first, second, ... allocation failing.
#define TRACK_DEFINE
#include "tracked.h"
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
using namespace vf;
using namespace ustl;
namespace {

typedef Arr<u64> Dump;
struct Injected { unsigned points, threw, survived; };
bool s_sticky = false;		// from the point of failure on, all allocations fail

int open_fds (void) { int n = 0; for (int i = 3; i < 64; ++i) if (fcntl (i, F_GETFD) >= 0) ++n; return n; }

// Sub supplies: Sub(), void setup(), void op(), void dump (Dump&) (checks validity too), bool strong(), void after() (further use)
template <typename Sub> __attribute__((noinline)) void inject (Sub proto, const char* what)
{
    u64 rng = R.s;
    Dump before, expect, got;
    u64 rng_after;
    int fds = open_fds();
    {	// the undisturbed run
	Sub s (proto);
	s.setup(); s.dump (before);
	s.op(); s.dump (expect);
	rng_after = R.s;
	s.after();
    }
    Injected in = {0,0,0};
    HeapStats h0 = heap_stats();
    u64 after_seed = rng_after;
    for (unsigned k = 0; k < 400; ++k) {
	R.s = rng;
	bool threw = false, inj; const char* kind = "";
	{
	    Sub s (proto);
	    s.setup();
	    u64 r2 = R.s;
	    heap_fail_sticky (s_sticky);
	    heap_fail_at (k);
	    try { s.op(); }
	    catch (std::bad_alloc& e) { inj = heap_failed(); heap_fail_at (-1); threw = true; if (!dynamic_cast<ustl::exception*> (&e) && 0) kind = "foreign"; if (!inj) fail ("spurious", "%s: bad_alloc although no allocation failed", what); }
	    catch (ustl::exception& e) { heap_fail_at (-1); string i; e.info (i); fail ("wrong-exception", "%s: allocation %u of it fails and it throws %s (%s)", what, k, e.what(), i.c_str()); }
	    if (!threw) { inj = heap_failed(); heap_fail_at (-1); }
	    if (inj) { ++in.points; if (threw) ++in.threw; else ++in.survived; }
	    s.dump (got);
	    ops();
	    if (!threw) VC (got == expect, "wrong-result", "%s: with allocation %u failing it reports success, but the result is not the normal one", what, k);
	    else if (s.strong()) VC (got == before, "changed", "%s: allocation %u failed, it threw bad_alloc, and its object was changed (%zu items, were %zu)", what, k, got.n, before.n);
	    heap_check();
	    if (threw && s.strong()) {	// succeeds once memory is back
		R.s = r2;
		s.op(); s.dump (got);
		VC (got == expect, "retry", "%s: retried after a failed allocation, and the result is not the normal one", what);
	    }
	    R.s = after_seed;
	    s.after();
	    if (!inj) k = 1000000;
	}
	HeapStats h1 = heap_stats();
	VC (h1.blocks == h0.blocks, "leak-on-failure", "%s: allocation %u failed (%s); %lld blocks leaked", what, k > 400 ? 0 : k, threw ? "threw" : "survived", (long long)(h1.blocks - h0.blocks));
	VC (open_fds() == fds, "descriptor-leak", "%s: a failed allocation leaves a file open", what);
	VC (Track::live == 0, "elements-left", "%s: %lld elements live on after their container", what, (long long) Track::live);
	sig (hmix (hbytes (what, strlen (what)), hmix (k > 400 ? 99 : k, threw)));
    }
    R.s = rng_after;
    trace ("%s: %u points, %u threw", what, in.points, in.threw);
    if (want_sample()) sample ("%s%s: %u allocations failed in turn; %u threw bad_alloc, %u survived with the normal result", what, s_sticky ? " (and all later ones)" : "", in.points, in.threw, in.survived);
}

void put (Dump& d, const void* p, size_t n) { d.push (n); for (size_t i = 0; i < n; ++i) d.push (((const uint8_t*) p)[i]); }
void rnd (char* b, size_t n, bool text = false) { for (size_t i = 0; i < n; ++i) b[i] = text ? 'a' + R.below (26) : char (R.next()); }

//--- raw blocks ---------------------------------------------------------------
struct BlockSub {
    memblock b; unsigned kind, opk; size_t n0, at, cnt; char src [5000]; char* foreign; const char* file;
    BlockSub (void) : kind (0), opk (0), foreign (nullptr), file (nullptr) {}
    BlockSub (const BlockSub& p) : kind (p.kind), opk (p.opk), foreign (nullptr), file (p.file) {}
    void setup (void) {
	n0 = R.size (300); rnd (src, sizeof(src));
	char t [300]; rnd (t, sizeof(t));
	switch (kind) {
	    case 0: b.assign (t, n0); break;
	    case 1: foreign = ro_copy (t, n0); b.link (foreign, n0); break;
	    case 2: { if (!n0) n0 = 1; void* m = malloc (n0); memcpy (m, t, n0); b.manage (m, n0); } break;
	    case 3: n0 = 0; break;
	    case 4: b.reserve (R.below (3000)); b.assign (t, n0); break;
	}
	at = n0 ? R.below (n0 + 1) : 0; cnt = R.size (2000);
    }
    void op (void) {
	switch (opk) {
	    case 0: b.assign (src, cnt); break;
	    case 1: b.resize (n0 + cnt); if (cnt) memset (b.begin() + n0, 1, cnt); break;
	    case 2: b.reserve (n0 + cnt); break;
	    case 3: { memblock::iterator i = b.insert (b.begin() + at, cnt); memset (i, 2, cnt); } break;
	    case 4: b.copy_link(); break;
	    case 5: if (!b.is_linked()) b.shrink_to_fit(); break;
	    case 6: b.erase (b.begin() + at, n0 - at ? R.below (n0 - at) : 0); break;
	    case 7: { memblock c (src, cnt); b = c; } break;
	    case 8: { memblock c (b); c.resize (n0 + 1); c.swap (b); b.resize (n0); } break;
	    case 9: { memlink m (src, cnt); b = m; } break;
	    case 10: { cmemlink m (src, cnt); memblock c (m); b.assign (m); } break;
	    case 11: { char buf [2100]; memset (buf, 0, sizeof(buf)); uint32_t n = cnt < 2000 ? cnt : 2000; memcpy (buf, &n, 4); memcpy (buf + 4, src, n); istream is (buf, 4 + Align (n, 4u)); b.read (is); } break;
	    case 12: b.read_file (file); break;
	    case 13: b.reserve (n0 + cnt, true); break;
	    case 14: { memblock c (cnt); c.swap (b); b.resize (0); } break;
	    case 15: b.resize (n0 + cnt, false); if (cnt) memset (b.begin() + n0, 1, cnt); break;
	}
    }
    bool strong (void) { return opk != 11 && opk != 14 && opk != 8; }
    void dump (Dump& d) { d.clear(); VC (b.is_linked() || b.capacity() >= b.size(), "invalid", "capacity %zu below size %zu", size_t (b.capacity()), size_t (b.size())); put (d, b.cdata(), b.size()); }
    void after (void) { char t [40]; rnd (t, 40); b.assign (t, 40); b.insert (b.begin() + 3, 5); VC (b.size() == 45 && !memcmp (b.begin(), t, 3) && !memcmp (b.begin() + 8, t + 3, 37), "unusable", "the block does not work after a failed allocation"); }
};

//--- strings -------------------------------------------------------------------
struct StrSub {
    string s; unsigned kind, opk; size_t n0, at, cnt; char src [3000]; wchar_t ws [60]; const char* file;
    StrSub (void) : kind (0), opk (0), file (nullptr) {}
    StrSub (const StrSub& p) : kind (p.kind), opk (p.opk), file (p.file) {}
    void setup (void) {
	n0 = R.size (300); char t [301]; rnd (t, 300, true); t[n0] = 0; rnd (src, sizeof(src), true);
	switch (kind) {
	    case 0: s.assign (t, n0); break;
	    case 1: { char* f = ro_copy (t, n0 + 1); s.link (f, n0); } break;
	    case 2: n0 = 0; break;
	    case 3: s.reserve (R.below (3000)); s.assign (t, n0); break;
	}
	at = R.below (n0 + 1); cnt = R.size (2000); if (cnt >= 2990) cnt = 2000;
	src[cnt] = 0;
	for (int i = 0; i < 60; ++i) ws[i] = 1 + R.below (R.chance (1,2) ? 100 : 70000); ws[R.below (60)] = 0; ws[59] = 0;
    }
    void op (void) {
	switch (opk) {
	    case 0: s.assign (src, cnt); break;
	    case 1: s = (const char*) src; break;
	    case 2: s.append (src, cnt); break;
	    case 3: s += (const char*) src; break;
	    case 4: s.append (cnt, 'q'); break;
	    case 5: s += 'z'; break;
	    case 6: s.push_back ('y'); break;
	    case 7: s.insert (s.iat (at), src, cnt); break;
	    case 8: s.insert (string::pos_type (at), cnt, 'w'); break;
	    case 9: s.insert (s.iat (at), src, src + (cnt % 50), 1 + cnt % 7); break;
	    case 10: s.append (ws); break;
	    case 11: s += wchar_t (0x1234); break;
	    case 12: { string t (src, cnt); s = t; } break;
	    case 13: { string t (src, cnt); s += t; } break;
	    case 14: s.reserve (n0 + cnt); break;
	    case 15: s.assign (cnt, 'k'); break;
	    case 16: s.assign (ws); break;
	    case 17: s = wchar_t (0x4E2D) ? (const wchar_t*) ws : ws; break;
	    case 18: s.assign (cnt % 500, wchar_t (0x20AC)); break;
	    case 19: s.insert (string::pos_type (0), 3 + cnt % 30, wchar_t (0x20AC)); break;
	    case 20: s = 'c'; break;
	    case 21: s.append ({'a','b','c'}); break;
	    // the rest are not single edits
	    case 22: s.replace (s.iat (at), s.end(), src, src + cnt); break;
	    case 23: s.replace (s.begin(), s.iat (at), cnt, 'r'); break;
	    case 24: { string t = s + string (src, cnt); s.swap (t); } break;
	    case 25: { string t = s.substr (at / 2, cnt); string u ("head"); u += t; s = u; } break;
	    case 26: s.format ("%s|%d|%s", src, int (cnt), src + cnt / 2); break;
	    case 27: s.resize (n0 + cnt, 'f'); break;
	    case 28: s.erase (s.iat (at), (n0 - at) / 2); break;
	    case 29: { vector<uint8_t> buf (cnt + 16); ostream os (buf.begin(), buf.size()); string t (src, cnt); os << t; istream is (buf.begin(), os.pos()); is >> s; } break;
	    case 30: { istringstream is (src, cnt); is >> s; } break;
	    case 31: { istringstream is (src, cnt); getline (is, s, 'x'); } break;
	    case 32: { string t (s); string u (t, 0, 5); string v (5, 'x'); s = u + "mid" + v; } break;
	    case 33: s.copy_link(); break;
	    case 34: if (!s.is_linked()) s.shrink_to_fit(); break;
	    case 35: s = to_string (int (cnt * 7919)); break;
	    case 36: { string t (1, 'q'); t += src; s = t.substr (0, t.find_first_of ('z')); } break;
	    case 37: s.read_file (file); break;
	}
    }
    enum { NOPS = 38 };
    bool strong (void) { return opk < 22; }
    void dump (Dump& d) {
	d.clear();
	VC (s.is_linked() || s.capacity() >= s.size(), "invalid", "capacity below size");
	if (!s.is_linked()) { VC (s.c_str() && !s.c_str()[s.size()], "unterminated", "operation %u state %u: a string of %zu bytes is not NUL-terminated (capacity %zu)", opk, kind, size_t (s.size()), size_t (s.capacity())); }
	put (d, s.data(), s.size());
    }
    void after (void) { s = "abc"; s += "def"; s.insert (string::pos_type (1), 2, 'x'); VC (s == "axxbcdef" && !s.c_str()[8], "unusable", "the string does not work after a failed allocation"); }
};

//--- sequences ----------------------------------------------------------------
template <typename C, typename T> struct SeqSub {
    C c; unsigned kind, opk; size_t n0, at, cnt; int v;
    SeqSub (void) : kind (0), opk (0) {}
    SeqSub (const SeqSub& p) : kind (p.kind), opk (p.opk) {}
    void setup (void) {
	n0 = R.size (60); for (size_t i = 0; i < n0; ++i) c.push_back (Elem<T>::mk (1 + R.below (200)));
	if (kind == 1) c.shrink_to_fit(); else if (kind == 2) c.reserve (n0 + R.below (60));
	at = R.below (n0 + 1); cnt = R.size (90); v = 1 + R.below (200);
    }
    void op (void) {
	T e (Elem<T>::mk (v));
	switch (opk) {
	    case 0: c.push_back (e); break;
	    case 1: c.emplace_back (e); break;
	    case 2: c.insert (c.begin() + at, e); break;
	    case 3: c.insert (c.begin() + at, cnt, e); break;
	    case 4: { T a [3] = { Elem<T>::mk (v), Elem<T>::mk (2), Elem<T>::mk (3) }; c.insert (c.begin() + at, a, a + 3); } break;
	    case 5: c.reserve (n0 + cnt); break;
	    case 6: c.push_back (Elem<T>::mk (v)); break;
	    case 7: c.emplace (c.begin() + at, e); break;
	    case 8: c.insert (c.begin() + at, {e, e}); break;
	    // not single
	    case 9: c.resize (n0 + cnt); break;
	    case 10: c.resize (cnt, e); break;
	    case 11: c.assign (cnt, e); break;
	    case 12: { C d (cnt, e); c = d; } break;
	    case 13: { C d (c); d.push_back (e); c.swap (d); } break;
	    case 14: { C d; for (size_t i = 0; i < cnt; ++i) d.push_back (Elem<T>::mk (1 + i % 200)); c = move (d); } break;
	    case 15: c.shrink_to_fit(); break;
	    case 16: c.erase (c.begin() + at, n0 - at); break;
	    case 17: { C d (c.begin(), c.begin() + at); c.assign (d.begin(), d.end()); } break;
	    case 18: { C d ({e, e, e}); c.insert (c.begin(), d.begin(), d.end()); } break;
	    case 19: { C d (cnt); c.swap (d); } break;
	}
    }
    enum { NOPS = 20 };
    bool strong (void) { return opk < 9; }
    void dump (Dump& d) { d.clear(); d.push (c.size()); VC (c.capacity() >= c.size(), "invalid", "capacity below size"); for (size_t i = 0; i < c.size(); ++i) { int x = Elem<T>::val (c[i]); VC (x >= 0 && x <= 200, "damaged-element", "operation %u: element %zu of %zu has value %d, which nobody stored", opk, i, size_t (c.size()), x); d.push (x); } }
    void after (void) { c.push_back (Elem<T>::mk (7)); c.insert (c.begin(), Elem<T>::mk (9)); VC (c.size() >= 2 && Elem<T>::val (c[0]) == 9 && Elem<T>::val (c[c.size()-1]) == 7, "unusable", "the container does not work after a failed allocation"); c.erase (c.begin()); }
};
template <typename T> struct ListSub {
    list<T> c, o; unsigned kind, opk; size_t n0;
    ListSub (void) : kind (0), opk (0) {}
    ListSub (const ListSub& p) : kind (p.kind), opk (p.opk) {}
    void setup (void) {
	n0 = R.size (40); int v = 1, w = 2;
	for (size_t i = 0; i < n0; ++i) { c.push_back (Elem<T>::mk (v)); v += R.below (4); }
	for (size_t i = R.size (40); i; --i) { o.push_back (Elem<T>::mk (w)); w += R.below (4); }
	if (kind == 1) { c.shrink_to_fit(); o.shrink_to_fit(); }
    }
    void op (void) {
	switch (opk) {
	    case 0: c.push_front (Elem<T>::mk (77)); break;
	    case 1: c.emplace_front (Elem<T>::mk (78)); break;
	    case 2: c.splice (c.begin() + n0 / 2, o); break;
	    case 3: c.merge (o); break;
	    case 4: c.unique(); c.sort(); c.reverse(); break;
	    case 5: c.insert (c.end(), o.begin(), o.end()); break;
	}
    }
    bool strong (void) { return opk != 4; }
    void dump (Dump& d) { d.clear(); d.push (c.size()); for (auto& e : c) d.push (Elem<T>::val (e)); d.push (o.size()); for (auto& e : o) d.push (Elem<T>::val (e)); }
    void after (void) { c.push_front (Elem<T>::mk (5)); c.pop_back(); }
};

//--- ordered ---------------------------------------------------------------------
template <typename C> struct SetSub {
    C c; unsigned opk; int v; size_t cnt;
    SetSub (void) : opk (0) {}
    SetSub (const SetSub& p) : opk (p.opk) {}
    void setup (void) { for (size_t i = R.size (40); i; --i) c.insert (int (R.below (60))); v = R.below (70); cnt = R.size (40); if (R.chance (1,2)) c.shrink_to_fit(); }
    void op (void) {
	int a [40]; for (size_t i = 0; i < 40; ++i) a[i] = (v * 7 + i * 13) % 80;
	switch (opk) {
	    case 0: c.insert (v); break;
	    case 1: c.push_back (v); break;
	    case 2: c.insert (c.begin(), v); break;
	    case 3: c.emplace (v); break;
	    case 4: c.insert (a, a + cnt % 40); break;
	    case 5: { C d (a, a + cnt % 40); c = d; } break;
	    case 6: { C d (c); d.insert (v); c.swap (d); } break;
	    case 7: c.erase (v); break;
	    case 8: { C d; d.insert (3); d.insert (1); d.insert (2); c.swap (d); } break;
	}
    }
    enum { NOPS = 9 };
    bool strong (void) { return opk < 4; }
    void dump (Dump& d) { d.clear(); d.push (c.size()); int last = -1; for (auto& e : c) { VC (e >= last, "unsorted", "not sorted after a failed allocation"); last = e; d.push (e); } }
    void after (void) { c.insert (33); bool f = false; for (auto& e : c) f = f || e == 33; VC (f, "unusable", "the set does not work after a failed allocation"); }
};
template <typename C, bool Multi> struct MapOps { static void index (C& c, int k, int v) { c[k] = v; } };
template <typename C> struct MapOps<C,true> { static void index (C& c, int k, int v) { c.insert (make_pair (k, v)); } };
template <typename C, bool Multi> struct MapSub {
    C c; unsigned opk; int v; size_t cnt;
    MapSub (void) : opk (0) {}
    MapSub (const MapSub& p) : opk (p.opk) {}
    void setup (void) { for (size_t i = R.size (40); i; --i) c.insert (make_pair (int (R.below (60)), int (R.below (1000)))); v = R.below (70); cnt = R.size (40); if (R.chance (1,2)) c.shrink_to_fit(); }
    void op (void) {
	pair<int,int> a [40]; for (size_t i = 0; i < 40; ++i) a[i] = make_pair (int ((v * 7 + i * 13) % 80), int (i));
	switch (opk) {
	    case 0: c.insert (make_pair (v, 5)); break;
	    case 1: MapOps<C,Multi>::index (c, v, 6); break;
	    case 2: c.emplace (v, 8); break;
	    case 3: c.push_back (make_pair (v, 9)); break;
	    case 4: c.insert (a, a + cnt % 40); break;
	    case 5: { C d (a, a + cnt % 40); c = d; } break;
	    case 6: { C d (c); MapOps<C,Multi>::index (d, v, 6); c.swap (d); } break;
	    case 7: c.erase (v); break;
	}
    }
    enum { NOPS = 8 };
    bool strong (void) { return opk < 4; }
    void dump (Dump& d) { d.clear(); d.push (c.size()); int last = -1; for (auto& e : c) { VC (e.first >= last, "unsorted", "not sorted after a failed allocation"); last = e.first; d.push (e.first * 100000 + e.second); } }
    void after (void) { c.insert (make_pair (33, 1)); VC (c.find (33) != c.end(), "unusable", "the map does not work after a failed allocation"); }
};

//--- adaptors ------------------------------------------------------------------------
template <typename T> struct AdaptSub {
    queue<T> q; stack<T> s; priority_queue<T> p; unsigned opk;
    AdaptSub (void) : opk (0) {}
    AdaptSub (const AdaptSub& a) : opk (a.opk) {}
    void setup (void) { for (size_t i = R.size (40); i; --i) { T e (Elem<T>::mk (1 + R.below (100))); q.push (e); s.push (e); p.push (e); if (R.chance (1,4)) { q.pop(); s.pop(); p.pop(); } } }
    void op (void) {
	T e (Elem<T>::mk (55));
	switch (opk) {
	    case 0: q.push (e); break;
	    case 1: s.push (e); break;
	    case 2: p.push (e); break;
	    case 3: q.emplace (e); break;
	    case 4: s.emplace (e); break;
	    case 5: p.emplace (e); break;
	    case 6: { queue<T> a (q); a.push (e); q = a; } break;
	    case 7: { stack<T> a (s); a.push (e); s = a; } break;
	}
    }
    bool strong (void) { return opk < 6; }
    void dump (Dump& d) {
	d.clear(); queue<T> a (q); stack<T> b (s); priority_queue<T> c; 
	d.push (a.size()); while (!a.empty()) { d.push (Elem<T>::val (a.front())); a.pop(); }
	d.push (b.size()); while (!b.empty()) { d.push (Elem<T>::val (b.top())); b.pop(); }
	c.swap (p); priority_queue<T> back; int last = 1 << 30;
	d.push (c.size()); while (!c.empty()) { int v = Elem<T>::val (c.top()); VC (v <= last, "heap-order", "heap order lost"); last = v; d.push (v); back.push (c.top()); c.pop(); }
	p.swap (back);
    }
    void after (void) { q.push (Elem<T>::mk (3)); s.push (Elem<T>::mk (4)); p.push (Elem<T>::mk (5)); VC (Elem<T>::val (q.back()) == 3 && Elem<T>::val (s.top()) == 4 && p.size(), "unusable", "adaptor does not work"); }
};

//--- text streams -----------------------------------------------------------------------
struct TextSub {
    ostringstream os; unsigned opk; size_t cnt; char src [3000]; size_t pre;
    TextSub (void) : opk (0) {}
    TextSub (const TextSub& p) : opk (p.opk) {}
    void setup (void) { rnd (src, sizeof(src), true); cnt = R.size (2500); src[cnt] = 0; for (size_t i = R.below (40); i; --i) os << int (R.below (1000)) << ','; pre = os.pos(); }
    void op (void) {
	switch (opk) {
	    case 0: os << (const char*) src; break;
	    case 1: for (int i = 0; i < 60; ++i) os << i * 1001 << ' '; break;
	    case 2: os.width (cnt % 70); os << 42; break;
	    case 3: for (int i = 0; i < 30; ++i) os << 1.25 * i; break;
	    case 4: os.write (src, cnt); break;
	    case 5: os.format ("%s+%d", src, 5); break;
	    case 6: { string s (src, cnt); os << s << endl; } break;
	    case 7: { vector<int> v (cnt % 200); os << v; } break;
	    case 8: os << true << 'c' << wchar_t (0x20AC) << false; break;
	    case 9: os.put ('x'); break;
	}
    }
    enum { NOPS = 10 };
    bool strong (void) { return false; }
    void dump (Dump& d) {
	d.clear(); size_t n = os.pos();
	put (d, os.str().data(), n < os.str().size() ? n : os.str().size()); d.push (os.str().size() == n);
    }
    void after (void) {
	VC (size_t (os.pos()) >= pre, "lost-output", "text written before the failure is gone");
	os.clear(); os.width (0); size_t p = os.pos(); os << "tail" << 7;
	VC (os.str().size() == p + 5 && !memcmp (os.str().data() + p, "tail7", 5), "unusable", "the stream does not work after a failed allocation: %s", show (os.str().data(), os.str().size()));
    }
};
struct FileSub {
    unsigned opk; size_t cnt; char src [9000]; char name [400]; u64 out; 
    FileSub (void) : opk (0), out (0) {}
    FileSub (const FileSub& p) : opk (p.opk), out (0) { strcpy (name, p.name); }
    void setup (void) { rnd (src, sizeof(src), true); cnt = R.size (8000); unlink (name); if (opk >= 3) { int fd = open (name, O_WRONLY|O_CREAT|O_TRUNC, 0600); if (fd < 0 || write (fd, src, cnt) != ssize_t (cnt)) _exit (96); close (fd); } }
    void op (void) {
	switch (opk) {
	    case 0: { ofstream f (name, ios::out|ios::trunc); f.write (src, cnt); f << 1234; f.flush(); } break;
	    case 1: { fstream f (name, ios::out|ios::trunc); f.write (src, cnt); f.close(); } break;
	    case 2: { ofstream f (name, ios::out|ios::trunc); for (size_t i = 0; i < 300; ++i) f << int (i) << endl; f.close(); } break;
	    case 3: { ifstream f (name); string w; f >> w; out = hbytes (w.data(), w.size()); } break;
	    case 4: { fstream f (name, ios::in); char b [100]; out = f.read (b, cnt < 100 ? cnt : 100); out = hmix (out, f.size()); } break;
	    case 5: { ifstream f (name, ios::in); char b [3000]; f.read (b, cnt < 3000 ? cnt : 3000); out = hbytes (b, cnt < 3000 ? cnt : 3000); } break;
	}
    }
    bool strong (void) { return false; }
    void dump (Dump& d) { d.clear(); d.push (out); if (opk < 3) { char b [20000]; int fd = open (name, O_RDONLY); ssize_t n = fd < 0 ? 0 : read (fd, b, sizeof(b)); if (fd >= 0) close (fd); put (d, b, n); } }
    void after (void) { unlink (name); ofstream f (name, ios::out|ios::trunc); f << "ok"; f.close(); memblock m; m.read_file (name); VC (m.size() == 2 && !memcmp (m.begin(), "ok", 2), "unusable", "files do not work"); unlink (name); }
};

//--- exceptions about something else ---------------------------------------------------------
struct ExcSub {
    unsigned opk; Dump res; char name [400];
    ExcSub (void) : opk (0) {}
    ExcSub (const ExcSub& p) : opk (p.opk) { strcpy (name, p.name); }
    void setup (void) { res.clear(); }
    void op (void) {
	switch (opk) {
	    case 0: try { throw file_exception ("open", "a/file"); } catch (file_exception& e) { put (res, e.Operation(), strlen (e.Operation())); } break;
	    case 1: try { throw runtime_error ("message"); } catch (runtime_error& e) { string s; e.info (s); res.push (2); } break;	// the message itself may be lost
	    case 2: try { fstream f; f.exceptions (fstream::allbadbits); f.open ("/nonexistent/file", ios::in); } catch (file_exception& e) { put (res, e.Operation(), strlen (e.Operation())); } break;
	    case 3: { bad_alloc e (5); string s; e.info (s); put (res, e.what(), strlen (e.what())); VC (s.empty() || s == "failed to allocate 5 bytes", "info-partial", "info gave %s", s.c_str()); } break;
	    case 4: try { char b [4] = {0}; istream is (b, 2); is.exceptions (ios::allbadbits); int v; is >> v; res.push (is.good()); } catch (stream_bounds_exception& e) { put (res, e.Operation(), strlen (e.Operation())); } break;
	    case 5: { file_exception e ("read", "f"); file_exception c (e); string s; c.info (s); put (res, c.Operation(), 4); } break;
	    case 6: { logic_error e ("why"); ostringstream os; e.text_write (os); res.push (1); } break;
	}
    }
    bool strong (void) { return false; }
    void dump (Dump& d) { d = res; }
    void after (void) { string s; runtime_error ("fine").info (s); VC (s.find ("fine") != string::npos, "unusable", "exception text after a failed allocation: %s", s.c_str()); }
};

void sticky (void) { s_sticky = R.chance (1,3); }
template <typename S> void go (unsigned kinds, unsigned nops, const char* nm)
{
    sticky(); Track::reset();
    S p; p.kind = R.below (kinds); p.opk = R.below (nops);
    char b [60]; snprintf (b, sizeof(b), "%s state %u operation %u", nm, p.kind, p.opk);
    inject (p, b);
}
template <typename S> void go1 (unsigned nops, const char* nm)
{
    sticky(); Track::reset();
    S p; p.opk = R.below (nops);
    char b [60]; snprintf (b, sizeof(b), "%s operation %u", nm, p.opk);
    inject (p, b);
}
void make_file (char* name, const char* nm)
{
    snprintf (name, 390, "%s/%s", g_scratch, nm);
    int fd = open (name, O_WRONLY|O_CREAT|O_TRUNC, 0600); size_t n = 1 + R.size (3000); char b [3001]; rnd (b, n, true);
    if (fd < 0 || write (fd, b, n) != ssize_t (n)) _exit (96);
    close (fd);
}
// Requests no allocator can satisfy
void huge_run (void)
{
    size_t n = (size_t(1) << 41) + R.below (size_t(1) << 45);
    memblock m; char t [20]; rnd (t, 20); m.assign (t, 20); string s ("some text"); s.copy_link(); vector<int> v (5, 42); vector<uint64_t> w;
    unsigned threw = 0;
    try { m.reserve (n); } catch (bad_alloc&) { ++threw; }
    try { m.resize (n); } catch (bad_alloc&) { ++threw; }
    try { s.resize (n); } catch (bad_alloc&) { ++threw; }
    try { s.append (n, 'x'); } catch (bad_alloc&) { ++threw; }
    try { s.reserve (n); } catch (std::bad_alloc&) { ++threw; }
    try { v.resize (n); } catch (exception&) { ++threw; }
    try { v.reserve (n); } catch (ustl::exception&) { ++threw; }
    try { w.insert (w.begin(), n, 7); } catch (bad_alloc&) { ++threw; }
    try { void* p = tmalloc (n); nfree (p); } catch (bad_alloc&) { ++threw; }
    VC (threw == 9, "not-reported", "only %u of 9 impossible requests were reported", threw);
    VC (m.size() == 20 && !memcmp (m.begin(), t, 20) && s == "some text" && v.size() == 5 && v[4] == 42 && w.empty(), "changed", "an impossible request changed its object");
    void* p = tmalloc (100); memset (p, 1, 100); nfree (p); nfree (nullptr);
    try { m.reserve (n); } catch (bad_alloc& e) { string i; e.info (i); VC (i.find ("allocate") != string::npos || i.size(), "no-info", "bad_alloc has no text"); }
    ops (9); sig (threw);
}
} // namespace

VF_CASE (c19_block, 700, 9000) { sticky(); BlockSub p; p.kind = R.below (5); p.opk = R.below (16); char f [400] = ""; if (p.opk == 12) { make_file (f, "c19b"); } p.file = f; char b [60]; snprintf (b, 60, "memblock state %u operation %u", p.kind, p.opk); Track::reset(); inject (p, b); if (*f) unlink (f); }
VF_CASE (c19_string, 1200, 15000) { sticky(); StrSub p; p.kind = R.below (4); p.opk = R.below (StrSub::NOPS); char f [400] = ""; if (p.opk == 37) { make_file (f, "c19s"); } p.file = f; char b [60]; snprintf (b, 60, "string state %u operation %u", p.kind, p.opk); Track::reset(); inject (p, b); if (*f) unlink (f); }
VF_CASE (c19_vector, 800, 9000) { switch (R.below (4)) { case 0: go<SeqSub<vector<int>,int> > (3, 20, "vector<int>"); break; case 1: go<SeqSub<vector<P3>,P3> > (3, 20, "vector<P3>"); break; case 2: go<SeqSub<vector<Tracked>,Tracked> > (3, 20, "vector<Tracked>"); break; case 3: go<SeqSub<list<uint64_t>,uint64_t> > (3, 20, "list<u64>"); break; } }
VF_CASE (c19_list, 200, 2500) { if (R.chance (1,2)) go<ListSub<int> > (2, 6, "list<int>"); else go<ListSub<Tracked> > (2, 6, "list<Tracked>"); }
VF_CASE (c19_assoc, 500, 6000) { switch (R.below (4)) { case 0: go1<SetSub<set<int> > > (9, "set"); break; case 1: go1<SetSub<multiset<int> > > (4, "multiset"); break; case 2: go1<MapSub<map<int,int>,false> > (8, "map"); break; case 3: go1<MapSub<multimap<int,int>,true> > (8, "multimap"); break; } }
VF_CASE (c19_adaptor, 250, 3000) { if (R.chance (1,2)) go1<AdaptSub<int> > (8, "adaptor<int>"); else go1<AdaptSub<Tracked> > (8, "adaptor<Tracked>"); }
VF_CASE (c19_text, 500, 6000) { go1<TextSub> (TextSub::NOPS, "ostringstream"); }
VF_CASE (c19_file, 120, 1500) { sticky(); Track::reset(); FileSub p; p.opk = R.below (6); snprintf (p.name, 390, "%s/c19f", g_scratch); char b [60]; snprintf (b, 60, "file operation %u", p.opk); inject (p, b); unlink (p.name); }
VF_CASE (c19_exception, 120, 1500) { sticky(); Track::reset(); ExcSub p; p.opk = R.below (7); char b [60]; snprintf (b, 60, "exception operation %u", p.opk); inject (p, b); }
VF_CASE (c19_huge, 50, 500) { huge_run(); }
