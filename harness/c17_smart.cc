// C17: smart pointers and scope guards release every object once and not early.
#include "vf.h"
using namespace vf;
namespace {

enum { MAXOBJ = 4096, UNBORN = 0, ALIVE = 1, DEAD = 2 };
uint8_t g_state [MAXOBJ];
unsigned g_nextid = 0, g_nalive = 0;
struct Dead { unsigned id; };
void objreset (void) { memset (g_state, 0, sizeof(g_state)); g_nextid = 0; g_nalive = 0; }

struct Obj {
    unsigned id; uint32_t magic; int a; char pad [13];
    Obj (void) : a (0) { born(); }
    explicit Obj (int v) : a (v) { born(); }
    Obj (int v, int w) : a (v * 1000 + w) { born(); }
    Obj (const Obj& o) : a (o.a) { born(); note_fail ("obj-copied", "a smart pointer copied its object"); }
    void born (void) { id = g_nextid < MAXOBJ ? g_nextid++ : 0; g_state[id] = ALIVE; magic = 0xA11CE000 + id; ++g_nalive; memset (pad, id, sizeof(pad)); }
    ~Obj (void) {
	if (magic != 0xA11CE000 + id || id >= MAXOBJ || g_state[id] != ALIVE) { note_fail ("double-destroy", "object destroyed that is not alive (id %u)", id); return; }
	g_state[id] = DEAD; magic = 0xDEAD0000; --g_nalive;
    }
};
struct Node {	// owns another object of its kind
    unsigned id; uint32_t magic;
    ustl::unique_ptr<Node> unext;
    ustl::shared_ptr<Node> snext;
    Node (void) { id = g_nextid < MAXOBJ ? g_nextid++ : 0; g_state[id] = ALIVE; magic = 0xA11CE000 + id; ++g_nalive; }
    ~Node (void) {
	if (magic != 0xA11CE000 + id || id >= MAXOBJ || g_state[id] != ALIVE) { note_fail ("double-destroy", "node destroyed that is not alive (id %u)", id); return; }
	g_state[id] = DEAD; magic = 0xDEAD0000; --g_nalive;
    }
};

//--- exclusive pointers -------------------------------------------------------
struct Own { Obj* p; unsigned id, n; };	// model: first object and how many
struct AutoK {
    typedef ustl::auto_ptr<Obj> P; enum { ARRAY = 0, AUTO = 1 };
    static Obj* mk (int v, unsigned) { return new Obj (v); }
    static void del (Obj* p) { delete p; }
    static P* mvctor (P& v) { return new P (v); }
    static void mvassign (P& a, P& b) { a = b; }
    static void reset0 (P& a) { a.reset (nullptr); }
    static void swapm (P& a, P& b) { Obj* t = a.release(); if (&a != &b) { a.reset (b.release()); b.reset (t); } else a.reset (t); }
    static P* maker (int v, unsigned) { return new P (new Obj (v)); }
    static bool truth (const P& p) { return p.get() != nullptr; }
    static bool ne (const P& a, Obj* p) { return !(a == p); }
    static bool nep (const P& a, const P& b) { return !(a == b); }
    static Obj& at (const P& p, unsigned) { return *p; }
    static Obj& deref (const P& p) { return *p; }
    static int arrow (const P& p) { return p->a; }
};
ustl::unique_ptr<Obj> pass_through (ustl::unique_ptr<Obj> p) { return p; }
struct UniqK {
    typedef ustl::unique_ptr<Obj> P; enum { ARRAY = 0, AUTO = 0 };
    static Obj* mk (int v, unsigned) { return new Obj (v); }
    static void del (Obj* p) { delete p; }
    static P* mvctor (P& v) { return R.chance (1,2) ? new P (ustl::move (v)) : new P (pass_through (ustl::move (v))); }
    static void mvassign (P& a, P& b) { a = ustl::move (b); }
    static void reset0 (P& a) { if (R.chance (1,2)) a.reset(); else a = nullptr; }
    static void swapm (P& a, P& b) { if (R.chance (1,2)) a.swap (b); else ustl::swap (a, b); }
    static P* maker (int v, unsigned) { return v % 2 ? new P (ustl::make_unique<Obj>(v)) : new P (ustl::make_unique<Obj>(v / 1000, v % 1000)); }
    static bool truth (const P& p) { return p ? true : false; }
    static bool ne (const P& a, Obj* p) { return a != p; }
    static bool nep (const P& a, const P& b) { return a != b; }
    static Obj& at (const P& p, unsigned i) { return p[i]; }
    static Obj& deref (const P& p) { return *p; }
    static int arrow (const P& p) { return p->a; }
};
struct ArrK {
    typedef ustl::unique_ptr<Obj[]> P; enum { ARRAY = 1, AUTO = 0 };
    static Obj* mk (int, unsigned n) { return new Obj [n]; }
    static void del (Obj* p) { delete [] p; }
    static P* mvctor (P& v) { return new P (ustl::move (v)); }
    static void mvassign (P& a, P& b) { a = ustl::move (b); }
    static void reset0 (P& a) { if (R.chance (1,2)) a.reset (nullptr); else a = nullptr; }
    static void swapm (P& a, P& b) { if (R.chance (1,2)) a.swap (b); else ustl::swap (a, b); }
    static P* maker (int, unsigned n) { return new P (ustl::make_unique<Obj[]>(n)); }
    static bool truth (const P& p) { return p ? true : false; }
    static bool ne (const P& a, Obj* p) { return a != p; }
    static bool nep (const P& a, const P& b) { return a != b; }
    static Obj& at (const P& p, unsigned i) { return p[i]; }
    static Obj& deref (const P& p) { return *p; }
    static int arrow (const P& p) { return p->a; }
};

template <typename K> void excl_run (void)
{
    typedef typename K::P P;
    objreset();
    enum { N = 5 };
    P* s [N]; Own m [N];
    Arr<Own> bag;
    const Own none = { nullptr, 0, 0 };
    for (unsigned i = 0; i < N; ++i) { s[i] = new P; m[i] = none; }
    unsigned steps = 20 + R.below (60);
    for (unsigned st = 0; st < steps && g_nextid < MAXOBJ - 40; ++st) {
	unsigned i = R.below (N), j = R.below (N), op = R.below (14), n = K::ARRAY ? 1 + R.below (5) : 1;
	int v = R.range (1, 500000), ck = 0;
	if (K::ARRAY) v = 0;
	unsigned before = g_nextid;
	Own fresh = none; bool hasa = false;
	// a raw pointer to hand over: from the bag of released ones, or new
	if (op == 1 || op == 4 || op == 5) {
	    if (bag.n && R.chance (1,2)) { size_t k = R.below (bag.n); fresh = bag.p[k]; bag.erase (k, 1); }
	    else { Obj* p = K::mk (v, n); fresh.p = p; fresh.id = before; fresh.n = n; hasa = true; }
	}
	trace ("%u:%u,%u ", op, i, j);
	switch (op) {
	    case 0: delete s[i]; s[i] = new P; m[i] = none; break;
	    case 1: delete s[i]; s[i] = new P (fresh.p); m[i] = fresh; ck = hasa; break;
	    case 2: if (i == j) break; delete s[i]; s[i] = K::mvctor (*s[j]); m[i] = m[j]; m[j] = none; break;
	    case 3: case 11: K::mvassign (*s[i], *s[j]); if (i != j) { m[i] = m[j]; m[j] = none; } break;
	    case 4: s[i]->reset (fresh.p); m[i] = fresh; ck = hasa; break;
	    case 5: *s[i] = fresh.p; m[i] = fresh; ck = hasa; break;
	    case 6: K::reset0 (*s[i]); m[i] = none; break;
	    case 7: { Obj* p = s[i]->release(); VC (p == m[i].p, "release", "release returned another pointer"); if (p) bag.push (m[i]); m[i] = none; } break;
	    case 8: K::swapm (*s[i], *s[j]); { Own t = m[i]; m[i] = m[j]; m[j] = t; } break;
	    case 9: delete s[i]; s[i] = K::maker (v, n); m[i].p = s[i]->get(); m[i].id = before; m[i].n = n; ck = 1; break;
	    case 10: if (K::AUTO) s[i]->reset (m[i].p); else if (!m[i].p) s[i]->reset (nullptr); break;	// reset to the same pointer
	    case 12: if (bag.n) { size_t k = R.below (bag.n); K::del (bag.p[k].p); bag.erase (k, 1); } break;
	    case 13: { P& r (*s[i]); K::mvassign (r, *s[i]); } break;
	}
	ops();
	if (ck && !K::ARRAY) VC (m[i].p->a == v, "value", "the object was not constructed with the arguments");
	// compare
	unsigned want = 0; uint8_t owned [MAXOBJ]; memset (owned, 0, sizeof(owned));
	for (unsigned k = 0; k < N; ++k) for (unsigned q = 0; q < m[k].n; ++q) { owned[m[k].id + q] = 1; ++want; }
	for (size_t k = 0; k < bag.n; ++k) for (unsigned q = 0; q < bag.p[k].n; ++q) { owned[bag.p[k].id + q] = 1; ++want; }
	for (unsigned k = 0; k < g_nextid; ++k) {
	    VC (!owned[k] || g_state[k] == ALIVE, "early-destroy", "after operation %u object %u was destroyed while owned", op, k);
	    VC (owned[k] || g_state[k] != ALIVE, "not-destroyed", "after operation %u object %u lives without an owner", op, k);
	}
	VC (want == g_nalive, "count", "%u objects live, %u owned", g_nalive, want);
	for (unsigned k = 0; k < N; ++k) {
	    const P& p (*s[k]);
	    VC (p.get() == m[k].p, "get", "after operation %u pointer %u holds another object", op, k);
	    VC (K::truth (p) == (m[k].p != nullptr), "truth", "truth value");
	    VC (p == m[k].p && !K::ne (p, m[k].p), "eq", "comparison with own pointer");
	    if (m[k].p) {
		VC (&K::deref (p) == m[k].p && K::arrow (p) == m[k].p->a, "deref", "dereference");
		for (unsigned q = 0; q < m[k].n; ++q) VC (&K::at (p, q) == m[k].p + q && K::at (p, q).id == m[k].id + q, "index", "element %u", q);
		VC (!(p == (Obj*) nullptr) && K::ne (p, nullptr), "eq", "comparison with null");
	    }
	    for (unsigned q = 0; q < N; ++q) {
		const P& o (*s[q]);
		VC ((p == o) == (m[k].p == m[q].p) && K::nep (p, o) == (m[k].p != m[q].p), "eq", "comparison of pointers");
		VC ((p < o) == (m[k].p < m[q].p), "less", "ordering of pointers");
	    }
	}
	sig (hmix (op * 64 + K::ARRAY * 32 + K::AUTO * 16 + (i == j) * 8, (m[i].p != nullptr) * 2 + (m[j].p != nullptr) + 4 * (bag.n > 0)));
    }
    for (unsigned i = 0; i < N; ++i) delete s[i];
    for (size_t k = 0; k < bag.n; ++k) K::del (bag.p[k].p);
    VC (!g_nalive, "left-over", "%u objects live at the end", g_nalive);
    if (want_sample()) sample ("%u operations over 5 pointers, %u objects", steps, g_nextid);
}

//--- chains of exclusive pointers
void chain_run (void)
{
    objreset();
    {
	ustl::unique_ptr<Node> head;
	Arr<unsigned> l;	// ids, head first
	unsigned steps = 10 + R.below (60);
	for (unsigned st = 0; st < steps; ++st) {
	    unsigned op = R.below (6);
	    switch (op) {
		case 0: case 1: case 2: { ustl::unique_ptr<Node> n (new Node); n->unext = ustl::move (head); head = ustl::move (n); l.insert (0, 1, head->id); } break;
		case 3: if (head) { head = ustl::move (head->unext); l.erase (0, 1); } break;	// the source lives in the object to delete
		case 4: { size_t k = R.below (l.n + 1); ustl::unique_ptr<Node>* p = &head; for (size_t i = 0; i < k; ++i) p = &(*p)->unext; p->reset(); l.n = k; } break;
		case 5: if (l.n >= 2) { size_t k = 1 + R.below (l.n - 1); ustl::unique_ptr<Node>* p = &head; for (size_t i = 0; i < k; ++i) p = &(*p)->unext; *p = ustl::move ((*p)->unext); l.erase (k, 1); } break;
	    }
	    ops();
	    const ustl::unique_ptr<Node>* p = &head;
	    for (size_t i = 0; i < l.n; ++i, p = &(*p)->unext) VC (*p && (*p)->id == l.p[i] && g_state[l.p[i]] == ALIVE, "chain", "element %zu of the chain after operation %u", i, op);
	    VC (!*p, "chain", "chain is too long");
	    VC (g_nalive == l.n, "chain-count", "%u objects live, %zu expected after operation %u", g_nalive, l.n, op);
	    sig (hmix (7000 + op, l.n < 3 ? l.n : 3));
	}
    }
    VC (!g_nalive, "left-over", "%u objects live at the end", g_nalive);
}

//--- shared pointers ------------------------------------------------------------
struct Grp { Obj* p; unsigned id; unsigned n; bool live; };
void shared_run (void)
{
    typedef ustl::shared_ptr<Obj> P;
    objreset();
    enum { N = 6 };
    P* s [N]; int m [N];	// index of group, or -1
    static Arr<Grp> g; { Arr<Grp> e; g.swap (e); }
    ustl::vector<P> v; static Arr<int> mv; { Arr<int> e; mv.swap (e); }
    for (unsigned i = 0; i < N; ++i) { s[i] = new P; m[i] = -1; }
    unsigned steps = 20 + R.below (80);
    for (unsigned st = 0; st < steps && g_nextid < MAXOBJ - 10; ++st) {
	unsigned i = R.below (N), j = R.below (N), op = R.below (19);
	int val = R.range (1, 500000), isnew = -1;
	trace ("%u:%u,%u ", op, i, j);
	switch (op) {
	    case 0: delete s[i]; s[i] = new P; m[i] = -1; break;
	    case 1: delete s[i]; s[i] = new P (new Obj (val)); isnew = i; break;
	    case 2: case 3: if (i != j) { delete s[i]; s[i] = new P (*s[j]); m[i] = m[j]; } break;
	    case 4: case 5: *s[i] = *s[j]; m[i] = m[j]; break;
	    case 6: if (i != j) { delete s[i]; s[i] = new P (ustl::move (*s[j])); m[i] = m[j]; m[j] = -1; } break;
	    // the other pointer takes over the object let go, and lets it go with its next operation
	    case 7: { *s[i] = ustl::move (*s[j]); int t = m[i]; m[i] = m[j]; m[j] = t; } break;
	    case 8: s[i]->reset (new Obj (val)); isnew = i; break;
	    case 9: *s[i] = new Obj (val); isnew = i; break;
	    case 10: s[i]->reset(); m[i] = -1; break;
	    case 11: *s[i] = nullptr; m[i] = -1; break;
	    case 12: { if (R.chance (1,2)) s[i]->swap (*s[j]); else ustl::swap (*s[i], *s[j]); int t = m[i]; m[i] = m[j]; m[j] = t; } break;
	    case 13: delete s[i]; s[i] = new P (ustl::make_shared<Obj>(val)); isnew = i; break;
	    case 14: *s[i] = *s[i]; break;
	    case 15: v.push_back (*s[i]); mv.push (m[i]); break;
	    case 16: if (mv.n) { size_t k = R.below (mv.n); v.erase (v.begin() + k); mv.erase (k, 1); } break;
	    case 17: if (mv.n) { size_t k = R.below (mv.n); if (R.chance (1,2)) { *s[i] = v[k]; m[i] = mv.p[k]; } else { v[k] = *s[i]; mv.p[k] = m[i]; } } break;
	    case 18: if (mv.n) { if (R.chance (1,3)) { v.clear(); mv.n = 0; } else { ustl::vector<P> c (v); c.insert (c.begin(), v[0]); v.resize (1); mv.n = 1; c.swap (v); { Arr<int> t; t.push (mv.p[0]); mv.swap (t); }
		// v now holds what c held: rebuild the model from it
		Arr<int> t; for (size_t k = 0; k < v.size(); ++k) { int q = -1; for (size_t z = 0; z < g.n; ++z) if (v[k].get() && g.p[z].live && v[k].get() == g.p[z].p) q = z; t.push (q); } mv.swap (t); } } break;
	}
	if (isnew >= 0) {
	    Obj* p = s[isnew]->get();
	    VC (p && p->a == val, "value", "the pointer does not hold the new object");
	    Grp n = { p, g_nextid - 1, 0, true }; g.push (n); m[isnew] = g.n - 1;
	}
	ops();
	for (size_t k = 0; k < g.n; ++k) g.p[k].n = 0;
	for (unsigned k = 0; k < N; ++k) if (m[k] >= 0) ++g.p[m[k]].n;
	for (size_t k = 0; k < mv.n; ++k) if (mv.p[k] >= 0) ++g.p[mv.p[k]].n;
	unsigned live = 0;
	for (size_t k = 0; k < g.n; ++k) {
	    Grp& q (g.p[k]);
	    if (q.n) { VC (g_state[q.id] == ALIVE, "early-destroy", "after operation %u object %u was destroyed while it had %u owners", op, q.id, q.n); ++live; }
	    else { VC (g_state[q.id] == DEAD, "not-destroyed", "after operation %u object %u lives without an owner", op, q.id); q.live = false; }
	}
	VC (live == g_nalive, "count", "%u objects live, %u owned", g_nalive, live);
	for (unsigned k = 0; k < N; ++k) {
	    const P& p (*s[k]); Obj* w = m[k] < 0 ? nullptr : g.p[m[k]].p; unsigned n = m[k] < 0 ? 0 : g.p[m[k]].n;
	    VC (p.get() == w, "get", "after operation %u pointer %u holds another object", op, k);
	    VC (p.use_count() == n, "use-count", "after operation %u use_count of pointer %u is %zu, owners %u", op, k, size_t (p.use_count()), n);
	    VC (p.unique() == (n == 1), "unique", "unique of pointer %u with %u owners", k, n);
	    VC ((p ? true : false) == (w != nullptr), "truth", "truth value");
	    VC (p == w && !(p != w), "eq", "comparison with own pointer");
	    if (w) VC (&*p == w && p->id == w->id && &p[0] == w, "deref", "dereference");
	    for (unsigned q = 0; q < N; ++q) {
		Obj* o = m[q] < 0 ? nullptr : g.p[m[q]].p;
		VC ((p == *s[q]) == (w == o), "eq", "comparison of pointers");
		VC ((p < *s[q]) == (w < o), "less", "ordering of pointers");
	    }
	}
	VC (v.size() == mv.n, "vector", "size of the vector of pointers");
	for (size_t k = 0; k < mv.n; ++k) VC (v[k].get() == (mv.p[k] < 0 ? nullptr : g.p[mv.p[k]].p) && v[k].use_count() == (mv.p[k] < 0 ? 0 : g.p[mv.p[k]].n), "vector", "element %zu of the vector of pointers", k);
	sig (hmix (8000 + op * 4 + (i == j), m[i] < 0 ? 0 : g.p[m[i]].n < 4 ? g.p[m[i]].n : 4));
    }
    for (unsigned i = 0; i < N; ++i) delete s[i];
    v.clear();
    VC (!g_nalive, "left-over", "%u objects live at the end", g_nalive);
    if (want_sample()) sample ("%u operations over 6 pointers and a vector of them, %u objects", steps, g_nextid);
}

//--- shared pointers inside shared objects: an acyclic graph
void graph_run (void)
{
    typedef ustl::shared_ptr<Node> P;
    objreset();
    {
	enum { N = 5 };
	P s [N]; int m [N]; int nx [MAXOBJ];
	for (unsigned i = 0; i < N; ++i) m[i] = -1;
	unsigned steps = 20 + R.below (80);
	for (unsigned st = 0; st < steps; ++st) {
	    unsigned i = R.below (N), j = R.below (N), op = R.below (8);
	    switch (op) {
		case 0: case 1: s[i] = new Node; m[i] = s[i]->id; nx[m[i]] = -1; break;
		case 2: s[i] = s[j]; m[i] = m[j]; break;
		case 3: case 4: if (m[i] >= 0 && (m[j] < m[i])) { s[i]->snext = s[j]; nx[m[i]] = m[j]; } break;
		case 5: if (m[i] >= 0) { s[i] = s[i]->snext; m[i] = nx[m[i]]; } break;	// the source lives in the object to let go
		case 6: s[i].reset(); m[i] = -1; break;
		case 7: if (m[i] >= 0) { P n (new Node); nx[n->id] = m[i]; n->snext = s[i]; m[i] = n->id; s[i] = n; } break;
	    }
	    ops();
	    unsigned cnt [MAXOBJ]; bool live [MAXOBJ]; unsigned nl = 0;
	    for (unsigned k = 0; k < g_nextid; ++k) { cnt[k] = 0; live[k] = false; }
	    for (unsigned k = 0; k < N; ++k) if (m[k] >= 0) { ++cnt[m[k]]; live[m[k]] = true; }
	    for (unsigned k = g_nextid; k--;) if (live[k]) { ++nl; if (nx[k] >= 0) { ++cnt[nx[k]]; live[nx[k]] = true; } }
	    for (unsigned k = 0; k < g_nextid; ++k) VC ((g_state[k] == ALIVE) == live[k], live[k] ? "early-destroy" : "not-destroyed", "after operation %u on a graph, node %u is %s", op, k, live[k] ? "destroyed while owned" : "alive without an owner");
	    VC (nl == g_nalive, "count", "%u nodes live, %u owned", g_nalive, nl);
	    for (unsigned k = 0; k < N; ++k) {
		VC (m[k] < 0 ? !s[k] : s[k] && int (s[k]->id) == m[k], "get", "pointer %u after operation %u", k, op);
		VC (s[k].use_count() == (m[k] < 0 ? 0 : cnt[m[k]]), "use-count", "use_count of pointer %u after operation %u", k, op);
	    }
	    sig (hmix (9000 + op, (m[i] < 0 ? 0 : cnt[m[i]] < 4 ? cnt[m[i]] : 4) + 8 * (nl < 4 ? nl : 4)));
	}
    }
    VC (!g_nalive, "left-over", "%u nodes live at the end", g_nalive);
}

//--- objects whose destructor uses the pointer that lets them go
struct Reent; static unsigned g_rmade, g_rgone, g_rtwice; static Reent* g_rlive [64];
template <typename P> struct ReentCfg { static P* p; static unsigned act; };
template <typename P> P* ReentCfg<P>::p; template <typename P> unsigned ReentCfg<P>::act;
static void (*g_ract) (Reent*);
struct Reent { unsigned a; Reent (void) : a (g_rmade) { g_rlive[g_rmade++ % 64] = this; }
    ~Reent (void) { bool f = false; for (unsigned i = 0; i < 64; ++i) if (g_rlive[i] == this) { g_rlive[i] = nullptr; f = true; } ++g_rgone; if (!f) { ++g_rtwice; return; } if (g_rgone < 60 && g_ract) g_ract (this); } };
template <typename P> void reent_act (Reent* self)
{
    typedef ReentCfg<P> C; if (!C::p) return;
    if (C::p->get() == self) { note_fail ("early-destroy", "an object is being destroyed while the pointer let go still hands it out"); return; }
    switch (C::act) {
	case 0: break;
	case 1: C::p->reset(); break;
	case 2: { unsigned t = C::act; C::act = 0; C::p->reset (new Reent); C::act = t; } break;
	case 3: { P other; C::p->swap (other); } break;
    }
}
template <typename P> void reent_run (unsigned how, unsigned act, bool shared)
{
    typedef ReentCfg<P> C; g_rmade = g_rgone = g_rtwice = 0; for (unsigned i = 0; i < 64; ++i) g_rlive[i] = nullptr;
    bool want = how == 1 || how == 3 || how == 5, self = false;
    {
	P p, q; g_ract = &reent_act<P>; C::p = &p; C::act = 0;
	p.reset (new Reent); C::act = act; 
	switch (how) {
	    case 0: p.reset(); break;
	    case 1: p.reset (new Reent); break;
	    case 2: p = nullptr; break;
	    case 3: p = new Reent; break;
	    case 4: p = P(); if (shared) self = true; break;
	    case 5: { P n (new Reent); p = ustl::move (n); } break;
	}
	ops();
	const unsigned live = g_rmade - g_rgone;
	VC (!g_rtwice, "double-destroy", "pointer assigned in the destructor of the object it lets go (operation %u, action %u): %u objects destroyed twice", how, act, g_rtwice);
	if (!self) {
	    if (act == 0) VC (bool (p.get()) == want && live == want, "get", "after operation %u the pointer holds %p and %u objects live", how, (void*) p.get(), live);
	    VC (live == (p.get() ? 1u : 0u), "count", "operation %u, action %u: %u objects live, pointer holds %p", how, act, live, (void*) p.get());
	}
	C::act = 0; C::p = nullptr;
    }
    g_ract = nullptr;
    VC (!g_rtwice && g_rmade == g_rgone, "left-over", "operation %u, action %u: %u objects made, %u destroyed, %u twice", how, act, g_rmade, g_rgone, g_rtwice);
    sig (hmix (13000 + how * 8 + act, shared));
}

//--- guards -----------------------------------------------------------------------
static Arr<int> g_log;	// actions run, in order
struct Act { int id; void operator() (void) const { g_log.push (id); } };
struct Del { int tag; void operator() (int& r) const { g_log.push (tag * 100000 + r); } void operator() (const int& r) const { g_log.push (tag * 100000 + r); } void operator() (Obj* p) const { g_log.push (tag * 100000 + p->a); delete p; } };
typedef ustl::scope_exit<Act> Guard;
typedef ustl::unique_resource<int,Del> Res;
struct Thrown { int v; };
static void check_log (const Arr<int>& want, const char* what)
{
    VC (g_log.n == want.n, "guard-count", "%s: %zu actions ran, %zu expected", what, g_log.n, want.n);
    for (size_t i = 0; i < want.n; ++i) VC (g_log.p[i] == want.p[i], "guard-action", "%s: action %zu was %d, expected %d", what, i, g_log.p[i], want.p[i]);
}
void nest (unsigned depth, Arr<int>& want, int base)
{
    // expected: actions of inner scopes first, dismissed ones not at all
    if (!depth) { if (R.chance (1,2)) throw Thrown { base }; return; }
    auto a = ustl::make_scope_exit (Act { base + 1 });
    auto b = ustl::make_scope_exit (Act { base + 2 });
    bool da = R.chance (1,4), db = R.chance (1,4), moved = R.chance (1,3), late = R.chance (1,4);
    if (da && !late) a.release();
    if (db) b.release();
    struct After { Arr<int>& w; int base; bool da, db; ~After (void) { if (!db) w.push (base + 2); if (!da) w.push (base + 1); } } af = { want, base, da, db };
    if (moved) {
	auto c = ustl::move (b);
	struct Inner { bool& db; Arr<int>& w; int base; ~Inner (void) { if (!db) w.push (base + 2); db = true; } } in = { af.db, want, base };
	if (R.chance (1,3)) b.release();	// dismissing the moved-from guard changes nothing
	nest (depth - 1, want, base + 10);
    } else
	nest (depth - 1, want, base + 10);
    if (da && late) a.release();
    else if (late && R.chance (1,2)) { a.release(); a.release(); af.da = true; }
}
void guard_nest (void)
{
    { Arr<int> e; g_log.swap (e); }
    Arr<int> want; bool threw = false;
    unsigned depth = 1 + R.below (6);
    try { nest (depth, want, 0); } catch (Thrown& t) { threw = true; VC (t.v == int (depth * 10), "exception", "another exception arrived"); }
    ops();
    // a dismissal planned for after the inner scope does not happen when that throws: those actions do run
    if (!threw) check_log (want, "nested scopes");
    else {
	// compare as multisets without the late ones: every action at most once, and all expected ones present
	for (size_t i = 0; i < g_log.n; ++i) for (size_t j = i + 1; j < g_log.n; ++j) VC (g_log.p[i] != g_log.p[j], "guard-count", "action %d ran twice", g_log.p[i]);
	for (size_t i = 0; i < want.n; ++i) { bool f = false; for (size_t j = 0; j < g_log.n; ++j) f |= g_log.p[j] == want.p[i]; VC (f, "guard-action", "action %d did not run when the scope was left by an exception", want.p[i]); }
    }
    sig (hmix (10000 + depth * 2 + threw, g_log.n));
    if (want_sample()) sample ("%u nested scopes with 2 guards each, %zu actions ran%s", depth, g_log.n, threw ? ", left by an exception" : "");
}

void guard_history (void)
{
    { Arr<int> e; g_log.swap (e); }
    static Arr<int> want; { Arr<int> e; want.swap (e); }
    enum { N = 4 };
    Guard* s [N]; int id [N]; bool on [N];
    Res* r [N]; int rv [N], rt [N]; bool ro [N];
    for (unsigned i = 0; i < N; ++i) { s[i] = nullptr; r[i] = nullptr; on[i] = ro[i] = false; id[i] = rv[i] = rt[i] = 0; }
    int next = 1;
    unsigned steps = 10 + R.below (50);
    for (unsigned st = 0; st < steps; ++st) {
	unsigned i = R.below (N), j = R.below (N), op = R.below (13);
	trace ("%u:%u,%u ", op, i, j);
	#define ENDG(k) if (s[k]) { delete s[k]; s[k] = nullptr; if (on[k]) want.push (id[k]); on[k] = false; }
	#define ENDR(k) if (r[k]) { delete r[k]; r[k] = nullptr; if (ro[k]) want.push (rt[k] * 100000 + rv[k]); ro[k] = false; }
	switch (op) {
	    case 0: ENDG (i); id[i] = next++; s[i] = new Guard (Act { id[i] }); on[i] = true; break;
	    case 1: ENDG (i); break;
	    case 2: if (s[i]) { s[i]->release(); on[i] = false; } break;
	    case 3: if (i != j && s[j]) { ENDG (i); s[i] = new Guard (ustl::move (*s[j])); id[i] = id[j]; on[i] = on[j]; on[j] = false; } break;
	    case 4: case 5: { ENDR (i); rv[i] = next++; rt[i] = 1 + R.below (9);
		unsigned how = R.below (4); ro[i] = true;
		if (how == 0) r[i] = new Res (int (rv[i]), Del { rt[i] });
		else if (how == 1) { ro[i] = R.chance (1,2); r[i] = new Res (int (rv[i]), Del { rt[i] }, ro[i]); }
		else if (how == 2) r[i] = new Res (ustl::make_unique_resource (int (rv[i]), Del { rt[i] }));
		else { int inv = R.chance (1,2) ? rv[i] : -1; ro[i] = inv != rv[i]; r[i] = new Res (ustl::make_unique_resource_checked (int (rv[i]), inv, Del { rt[i] })); }
		} break;
	    case 6: ENDR (i); break;
	    case 7: if (r[i]) { int v = r[i]->release(); VC (v == rv[i], "resource-get", "release returned %d, resource %d", v, rv[i]); ro[i] = false; } break;
	    case 8: if (r[i]) { r[i]->reset(); if (ro[i]) want.push (rt[i] * 100000 + rv[i]); ro[i] = false; } break;
	    case 9: if (r[i]) { if (ro[i]) want.push (rt[i] * 100000 + rv[i]); rv[i] = next++; r[i]->reset (int (rv[i])); ro[i] = true; } break;
	    case 10: if (i != j && r[j]) { ENDR (i); r[i] = new Res (ustl::move (*r[j])); rv[i] = rv[j]; rt[i] = rt[j]; ro[i] = ro[j]; ro[j] = false; } break;
	    case 11: if (i != j && r[i] && r[j]) { if (ro[i]) want.push (rt[i] * 100000 + rv[i]); *r[i] = ustl::move (*r[j]); rv[i] = rv[j]; rt[i] = rt[j]; ro[i] = ro[j]; ro[j] = false; } break;
	    case 12: { Obj* p = new Obj (next++ % 1000 + 1); int a = p->a, t = 1 + R.below (9); objreset(); g_nalive = 1; g_state[p->id] = ALIVE;
		bool rel = R.chance (1,3);
		{ ustl::unique_resource<Obj*,Del> q (static_cast<Obj*&&>(p), Del { t }); VC (q.get()->a == a && q->a == a && (*q).a == a && ((Obj* const&) q)->a == a, "resource-get", "pointer resource"); if (rel) p = q.release(); }
		if (rel) delete p; else want.push (t * 100000 + a);
		VC (!g_nalive, "resource-leak", "object not deleted"); } break;
	}
	ops();
	check_log (want, "history");
	for (unsigned k = 0; k < N; ++k) if (r[k] && ro[k]) VC (r[k]->get() == rv[k] && int (*r[k]) == rv[k] && r[k]->get_deleter().tag == rt[k], "resource-get", "resource %u", k);
	sig (hmix (11000 + op * 2 + (i == j), on[i] * 8 + on[j] * 4 + ro[i] * 2 + ro[j]));
    }
    for (unsigned i = 0; i < N; ++i) { ENDG (i); ENDR (i); }
    check_log (want, "end");
}
} // namespace
VF_CASE (c17_auto, 900, 15000) { excl_run<AutoK>(); }
VF_CASE (c17_unique, 1200, 20000) { excl_run<UniqK>(); }
VF_CASE (c17_unique_array, 1200, 20000) { excl_run<ArrK>(); }
VF_CASE (c17_chain, 900, 15000) { chain_run(); }
VF_CASE (c17_shared, 1800, 30000) { shared_run(); }
// More owners of one object than fit in 8 or 16 bits
VF_CASE (c17_many, 8, 100)
{
    objreset(); typedef ustl::shared_ptr<Obj> P; static const size_t sz [] = { 200, 254, 1000, 32700, 65530, 140000 };
    { const size_t n = sz [R.below (6)] + R.below (12); P a (new Obj (7)), b (new Obj (8)); ustl::vector<P> v; size_t na = 1, nb = 1; Arr<char> m;
    for (size_t i = 0; i < n; ++i) { const bool x = !R.chance (1, 9); v.push_back (x ? a : b); ++(x ? na : nb); m.push (x); }
    for (unsigned s = 0; s < 30; ++s) {
	VC (a.use_count() == na && b.use_count() == nb && a.unique() == (na == 1) && g_nalive == 2, "use-count", "%zu and %zu owners, use_count %zu and %zu, %u objects", na, nb, size_t (a.use_count()), size_t (b.use_count()), g_nalive); ops();
	switch (R.below (6)) {
	    case 0: if (m.n) { const size_t k = R.pos (m.n - 1); if (m[k]) { v[k] = b; m[k] = 0; --na; ++nb; } else { v[k].reset(); v[k] = a; m[k] = 1; --nb; ++na; } } break;
	    case 1: { ustl::vector<P> c (v); size_t ca = 0; for (size_t i = 0; i < m.n; ++i) ca += m[i]; VC (a.use_count() == na + ca && b.use_count() == nb + m.n - ca, "use-count", "copying a vector of %zu", m.n); c.swap (v); break; }
	    case 2: { const size_t d = R.below (m.n / 3 + 1), at = R.pos (m.n - d); for (size_t i = 0; i < d; ++i) --(m[at+i] ? na : nb); m.erase (at, d); v.erase (v.begin() + at, v.begin() + at + d); break; }
	    case 3: { const size_t c = R.below (300), at = R.pos (m.n); v.insert (v.begin() + at, c, a); m.insert (at, c, 1); na += c; break; }
	    case 4: { P t (ustl::move (a)); VC (t.use_count() == na && !a, "use-count", "moved"); a.swap (t); break; }
	    default: { const size_t l = m.n / 2; for (size_t i = l; i < m.n; ++i) --(m[i] ? na : nb); v.resize (l); m.erase (l, m.n - l); break; }
	}
	sig (hmix (9100 + (na > 255) + (na > 65535), s));
    }
    size_t na2 = 0; for (size_t i = 0; i < m.n; ++i) { na2 += m[i]; VC (v[i].get() == (m[i] ? a.get() : b.get()), "get", "element %zu", i); } VC (na == na2 + 1, "use-count", "model"); }
    VC (!g_nalive, "not-destroyed", "%u objects live without an owner", g_nalive);
}
VF_CASE (c17_graph, 1200, 20000) { graph_run(); }
VF_CASE (c17_reentrant, 48, 480) { unsigned k = g_case_idx % 48; if (k < 24) reent_run<ustl::shared_ptr<Reent> > (k / 4, k % 4, true); else reent_run<ustl::unique_ptr<Reent> > ((k - 24) / 4, k % 4, false); }
VF_CASE (c17_guard_nest, 1800, 25000) { guard_nest(); }
VF_CASE (c17_guard_history, 1800, 25000) { guard_history(); }
