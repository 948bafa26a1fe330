// Concurrency. Threads only record what they saw; the main thread judges.
#include "vf.h"
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
using namespace vf;
using namespace ustl;
namespace {

enum { MAXT = 4, CACHE = 64 };
inline void relax (unsigned n) { for (volatile unsigned i = 0; i < n; ++i) {} }

//--- a barrier of the harness's own
struct Barrier {
    int n, waiting, phase;
    void init (int k) { n = k; waiting = 0; phase = 0; }
    void wait (void) {
	int ph = __atomic_load_n (&phase, __ATOMIC_ACQUIRE);
	if (__atomic_add_fetch (&waiting, 1, __ATOMIC_ACQ_REL) == n) {
	    __atomic_store_n (&waiting, 0, __ATOMIC_RELAXED);
	    __atomic_add_fetch (&phase, 1, __ATOMIC_ACQ_REL);
	} else for (unsigned k = 0; __atomic_load_n (&phase, __ATOMIC_ACQUIRE) == ph; ++k)
	    if (k > 2000) sched_yield();
    }
};

template <typename F> struct Job { F* f; int t; };
template <typename F> void* job_entry (void* p) { Job<F>* j = (Job<F>*) p; (*j->f)(j->t); return nullptr; }
template <typename F> void run_threads (int n, F f)
{
    pthread_t th [MAXT]; Job<F> j [MAXT];
    for (int i = 0; i < n; ++i) {
	j[i].f = &f; j[i].t = i;
	if (pthread_create (&th[i], nullptr, &job_entry<F>, &j[i])) { fprintf (stderr, "vf: no threads\n"); _exit (96); }
    }
    for (int i = 0; i < n; ++i) pthread_join (th[i], nullptr);
}

// glibc keeps freed thread stacks and their control blocks: make that state steady before leaks are counted
struct Warm { Warm (void) { run_threads (MAXT, [](int){}); } };
Warm s_warm;
inline void warm (void) {}

//--- operations on one atomic variable ------------------------------------
enum Kind {
    LOAD, CONV, STORE, ASSIGN, XCHG, CASW1, CASW2, CASS2,
    FADD, FSUB, FAND, FOR, FXOR, ADDF, SUBF, ANDF, ORF, XORF,
    POSTINC, POSTDEC, PREINC, PREDEC, PLUSEQ, MINUSEQ, ANDEQ, OREQ, XOREQ, NKINDS
};
const char* const c_names [NKINDS] = {
    "load", "operator T", "store", "operator=", "exchange", "compare_exchange_weak", "compare_exchange_weak(2)", "compare_exchange_strong",
    "fetch_add", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor", "add_fetch", "sub_fetch", "and_fetch", "or_fetch", "xor_fetch",
    "post++", "post--", "++pre", "--pre", "+=", "-=", "&=", "|=", "^="
};
template <typename T> struct Op { uint8_t kind, ord; uint16_t delay; T a, b; T res, exp; bool ok; u64 t0, t1; };

const memory_order c_rmw[] = { memory_order_relaxed, memory_order_consume, memory_order_acquire, memory_order_release, memory_order_acq_rel, memory_order_seq_cst };
const memory_order c_ld[] = { memory_order_relaxed, memory_order_consume, memory_order_acquire, memory_order_seq_cst };
const memory_order c_st[] = { memory_order_relaxed, memory_order_release, memory_order_seq_cst };

// ord 0: the default argument; otherwise a spelled order
#define RMW(call)	switch (o.ord) { case 0: o.res = v.call (o.a); break; case 1: o.res = v.call (o.a, memory_order_relaxed); break; case 2: o.res = v.call (o.a, memory_order_acquire); break; case 3: o.res = v.call (o.a, memory_order_release); break; case 4: o.res = v.call (o.a, memory_order_acq_rel); break; case 5: o.res = v.call (o.a, memory_order_consume); break; default: o.res = v.call (o.a, memory_order_seq_cst); break; } break
template <typename T> inline void exec (atomic<T>& v, Op<T>& o)
{
    switch (o.kind) {
	case LOAD: switch (o.ord) { case 0: o.res = v.load(); break; case 1: o.res = v.load (memory_order_relaxed); break; case 2: o.res = v.load (memory_order_acquire); break; case 3: o.res = v.load (memory_order_consume); break; default: o.res = v.load (memory_order_seq_cst); break; } break;
	case CONV: o.res = v; break;
	case STORE: switch (o.ord) { case 0: v.store (o.a); break; case 1: v.store (o.a, memory_order_relaxed); break; case 2: case 3: v.store (o.a, memory_order_release); break; default: v.store (o.a, memory_order_seq_cst); break; } break;
	case ASSIGN: { atomic<T>& r = (v = o.a); o.ok = &r == &v; } break;
	case XCHG: RMW (exchange);
	case CASW1: o.exp = o.b; switch (o.ord) { case 0: case 3: case 4: case 5: o.ok = v.compare_exchange_weak (o.exp, o.a); break; case 1: o.ok = v.compare_exchange_weak (o.exp, o.a, memory_order_relaxed); break; case 2: o.ok = v.compare_exchange_weak (o.exp, o.a, memory_order_acquire); break; default: o.ok = v.compare_exchange_weak (o.exp, o.a, memory_order_seq_cst); break; } break;
	case CASW2: o.exp = o.b; switch (o.ord) { case 0: o.ok = v.compare_exchange_weak (o.exp, o.a, memory_order_seq_cst, memory_order_seq_cst); break; case 1: o.ok = v.compare_exchange_weak (o.exp, o.a, memory_order_relaxed, memory_order_relaxed); break; case 2: o.ok = v.compare_exchange_weak (o.exp, o.a, memory_order_acquire, memory_order_relaxed); break; case 3: o.ok = v.compare_exchange_weak (o.exp, o.a, memory_order_release, memory_order_relaxed); break; default: o.ok = v.compare_exchange_weak (o.exp, o.a, memory_order_acq_rel, memory_order_acquire); break; } break;
	case CASS2: o.exp = o.b; switch (o.ord) { case 0: o.ok = v.compare_exchange_strong (o.exp, o.a, memory_order_seq_cst, memory_order_seq_cst); break; case 1: o.ok = v.compare_exchange_strong (o.exp, o.a, memory_order_relaxed, memory_order_relaxed); break; case 2: o.ok = v.compare_exchange_strong (o.exp, o.a, memory_order_acquire, memory_order_relaxed); break; case 3: o.ok = v.compare_exchange_strong (o.exp, o.a, memory_order_release, memory_order_relaxed); break; default: o.ok = v.compare_exchange_strong (o.exp, o.a, memory_order_acq_rel, memory_order_acquire); break; } break;
	case FADD: RMW (fetch_add);
	case FSUB: RMW (fetch_sub);
	case FAND: RMW (fetch_and);
	case FOR: RMW (fetch_or);
	case FXOR: RMW (fetch_xor);
	case ADDF: RMW (add_fetch);
	case SUBF: RMW (sub_fetch);
	case ANDF: RMW (and_fetch);
	case ORF: RMW (or_fetch);
	case XORF: RMW (xor_fetch);
	case POSTINC: o.res = v++; break;
	case POSTDEC: o.res = v--; break;
	case PREINC: o.res = ++v; break;
	case PREDEC: o.res = --v; break;
	case PLUSEQ: o.res = (v += o.a); break;
	case MINUSEQ: o.res = (v -= o.a); break;
	case ANDEQ: o.res = (v &= o.a); break;
	case OREQ: o.res = (v |= o.a); break;
	case XOREQ: o.res = (v ^= o.a); break;
    }
}

// What the operation does to state s if it takes effect now; false if its recorded result contradicts that
template <typename T> bool model (const Op<T>& o, T s, T& n)
{
    typedef u64 U;
    T r = s; bool old = true;
    n = s;
    switch (o.kind) {
	case LOAD: case CONV: return o.res == s;
	case STORE: n = o.a; return true;
	case ASSIGN: n = o.a; return o.ok;
	case XCHG: n = o.a; return o.res == s;
	case CASW1: case CASW2: case CASS2:
	    if (o.ok) { n = o.a; return s == o.b && o.exp == o.b; }
	    return o.exp == s && (s != o.b || o.kind != CASS2);	// the weak forms may fail spuriously
	case FADD: n = T (U (s) + U (o.a)); break;
	case FSUB: n = T (U (s) - U (o.a)); break;
	case FAND: n = T (U (s) & U (o.a)); break;
	case FOR: n = T (U (s) | U (o.a)); break;
	case FXOR: n = T (U (s) ^ U (o.a)); break;
	case ADDF: case PLUSEQ: n = T (U (s) + U (o.a)); old = false; break;
	case SUBF: case MINUSEQ: n = T (U (s) - U (o.a)); old = false; break;
	case ANDF: case ANDEQ: n = T (U (s) & U (o.a)); old = false; break;
	case ORF: case OREQ: n = T (U (s) | U (o.a)); old = false; break;
	case XORF: case XOREQ: n = T (U (s) ^ U (o.a)); old = false; break;
	case POSTINC: n = T (U (s) + 1); break;
	case POSTDEC: n = T (U (s) - 1); break;
	case PREINC: n = T (U (s) + 1); old = false; break;
	case PREDEC: n = T (U (s) - 1); old = false; break;
    }
    return o.res == (old ? r : n);
}

//--- linearizability of one burst ------------------------------------------
enum { MAXOPS = 8 };
template <typename T> struct Lin {
    const Op<T>* op [MAXT]; int cnt [MAXT], nt; bool timed; T final;
    enum { TABLE = 1 << 12 };
    u64 seen [TABLE]; unsigned nseen; u64 steps;
    bool visited (u64 h) {
	if (!h) h = 1;
	unsigned i = h % TABLE;
	while (seen[i]) { if (seen[i] == h) return true; i = (i + 1) % TABLE; }
	if (nseen < TABLE/2) { seen[i] = h; ++nseen; }
	return false;
    }
    bool search (int* pos, T s) {
	bool all = true;
	for (int t = 0; t < nt; ++t) if (pos[t] < cnt[t]) all = false;
	if (all) return s == final;
	u64 h = u64 (s);
	for (int t = 0; t < nt; ++t) h = hmix (h, pos[t] + 7);
	if (visited (h)) return false;
	if (++steps > 2000000) return true;	// undecided counts as held
	for (int t = 0; t < nt; ++t) {
	    if (pos[t] >= cnt[t]) continue;
	    const Op<T>& o = op[t][pos[t]];
	    if (timed) {	// something that had returned before this began must come first
		bool late = false;
		for (int u = 0; u < nt && !late; ++u)
		    if (u != t && pos[u] < cnt[u] && op[u][pos[u]].t1 < o.t0) late = true;
		if (late) continue;
	    }
	    T n;
	    if (!model (o, s, n)) continue;
	    ++pos[t];
	    bool r = search (pos, n);
	    --pos[t];
	    if (r) return true;
	}
	return false;
    }
    bool check (T init) {
	memset (seen, 0, sizeof(seen)); nseen = 0; steps = 0;
	int pos [MAXT] = {0};
	return search (pos, init);
    }
};

template <typename T> const char* describe (const Lin<T>& l, T init)
{
    static char b [3000]; int o = snprintf (b, 100, "initially %lld; ", (long long) init);
    for (int t = 0; t < l.nt; ++t) {
	o += snprintf (b + o, 40, "thread %d:", t);
	for (int i = 0; i < l.cnt[t] && o < 2600; ++i) {
	    const Op<T>& p = l.op[t][i];
	    if (p.kind >= CASW1 && p.kind <= CASS2) o += snprintf (b + o, 160, " %s(%lld,%lld)=%d saw %lld", c_names[p.kind], (long long) p.b, (long long) p.a, p.ok, (long long) p.exp);
	    else o += snprintf (b + o, 160, " %s(%lld)=%lld", c_names[p.kind], (long long) p.a, (long long) p.res);
	    if (l.timed) o += snprintf (b + o, 60, "@%llu-%llu", (unsigned long long) p.t0, (unsigned long long) p.t1);
	}
	o += snprintf (b + o, 4, "; ");
    }
    snprintf (b + o, 60, "finally %lld", (long long) l.final);
    return b;
}

template <typename T> void gen_op (Op<T>& o, unsigned mix, T lo)
{
    memset (&o, 0, sizeof(o));
    o.kind = mix == 0 ? R.below (NKINDS) : mix == 1 ? (R.chance (1,2) ? CASW1 + R.below (3) : R.below (NKINDS)) : mix == 2 ? FADD + R.below (NKINDS - FADD) : (R.chance (2,3) ? POSTINC + R.below (6) : R.below (5));
    o.ord = R.below (7);
    o.delay = R.chance (1,3) ? R.below (60) : 0;
    o.a = T (lo + T (R.below (R.chance (1,2) ? 4 : 200)));
    o.b = T (lo + T (R.below (4)));
    if ((o.kind == FADD || o.kind == FSUB || o.kind == ADDF || o.kind == SUBF) && R.chance (1,2)) o.a = 1 + R.below (3);
}

template <typename T> __attribute__((noinline)) void lin_run (unsigned bursts)
{
    warm();
    struct alignas (CACHE) Var { char pre [CACHE - sizeof(T)]; atomic<T> v; T post [8]; };
    static Var var; static Op<T> ops_ [MAXT][MAXOPS]; static Barrier bar; static Lin<T> lin; static u64 clk; static bool stop;
    int nt = 2 + R.below (MAXT - 1); bool timed = R.chance (1,2);
    unsigned mix = R.below (4); T lo = R.chance (1,2) ? 0 : T (R.bits());
    int per = nt == 4 ? 5 : nt == 3 ? 6 : 8;
    bar.init (nt + 1); stop = false;
    u64 dist = 0; unsigned b = 0; char err [3200] = ""; bool lock = true;
    memset (var.pre, 0x3D, sizeof(var.pre)); memset (var.post, 0x3D, sizeof(var.post));
    VC (var.v.is_lock_free(), "atomic-lock-free", "an atomic of %zu bytes is not lock free", sizeof(T));
    pthread_t th [MAXT];
    struct L { static void body (int t, bool timed, int per) {
	(void) per;
	for (;;) {
	    bar.wait();
	    if (stop) return;
	    Op<T>* o = ops_[t];
	    for (int i = 0; i < lin.cnt[t]; ++i) {
		if (o[i].delay) relax (o[i].delay);
		if (timed) o[i].t0 = __atomic_fetch_add (&clk, 1, __ATOMIC_SEQ_CST);
		exec (var.v, o[i]);
		if (timed) o[i].t1 = __atomic_fetch_add (&clk, 1, __ATOMIC_SEQ_CST);
	    }
	    bar.wait();
	}
    } };
    auto f = [&](int t) { L::body (t, timed, per); };
    typedef decltype(f) F;
    Job<F> j [MAXT];
    for (int i = 0; i < nt; ++i) { j[i].f = &f; j[i].t = i; if (pthread_create (&th[i], nullptr, &job_entry<F>, &j[i])) _exit (96); }
    for (; b < bursts && !*err; ++b) {
	lin.nt = nt; lin.timed = timed;
	for (int t = 0; t < nt; ++t) { lin.cnt[t] = 1 + R.below (per); lin.op[t] = ops_[t]; for (int i = 0; i < lin.cnt[t]; ++i) gen_op (ops_[t][i], mix, lo); }
	T init = lo + T (R.below (4));
	clk = 0;
	if (b & 1) var.v.store (init); else var.v = init;
	bar.wait();	// go
	bar.wait();	// done
	lin.final = var.v.load();
	if (!lin.check (init)) snprintf (err, sizeof(err), "%s", describe (lin, init));
	for (size_t i = 0; i < sizeof(var.pre); ++i) if (var.pre[i] != 0x3D) snprintf (err, sizeof(err), "a byte before the variable of %zu bytes changed", sizeof(T));
	T z; memset (&z, 0x3D, sizeof(z));
	for (size_t i = 0; i < 8; ++i) if (var.post[i] != z) snprintf (err, sizeof(err), "a byte after the variable of %zu bytes changed", sizeof(T));
	for (int t = 0; t < nt; ++t) for (int i = 0; i < lin.cnt[t]; ++i) {
	    ops();
	    // was it interfered with: distance of its observation from what running alone would have shown
	    const Op<T>& o = ops_[t][i];
	    sig (hmix (hmix (o.kind, o.ord), hmix (sizeof(T), hmix (nt, (i ? 2 : 0) | o.ok))));
	    dist = hmix (dist, u64 (o.res) ^ o.ok);
	}
	if (b < 40) sig (hmix (dist, 99));	// outcome of a whole burst
	dist = 0;
    }
    stop = true; bar.wait();
    for (int i = 0; i < nt; ++i) pthread_join (th[i], nullptr);
    (void) lock;
    VC (!*err, timed ? "not-linearizable" : "not-sequential", "no order of the operations explains what was seen: %s", err);
    if (want_sample()) sample ("%u bursts of %d threads on an atomic of %zu bytes, each explained by an order; last: %s", bursts, nt, sizeof(T), describe (lin, T(0)));
}

//--- every operation alone, on all kinds of values ---------------------------
template <typename T> __attribute__((noinline)) void solo_run (void)
{
    T s = T (R.bits());
    atomic<T> v (s);
    VC (v.load() == s, "atomic-init", "constructed from %lld, holds %lld", (long long) s, (long long) v.load());
    for (int i = 0; i < 60; ++i) {
	Op<T> o; memset (&o, 0, sizeof(o));
	o.kind = R.below (NKINDS); o.ord = R.below (7); o.a = T (R.bits()); o.b = R.chance (1,2) ? s : T (R.bits());
	if (R.chance (1,4)) o.b = T (u64 (s) ^ (u64 (1) << R.below (sizeof(T) * 8)));
	exec (v, o);
	T n; bool ok = model (o, s, n); T now = v.load();
	ops();
	VC (ok && now == n, "atomic-result", "%s(%lld, %lld) on %lld: returned %lld/%d, saw %lld, left %lld", c_names[o.kind], (long long) o.a, (long long) o.b, (long long) s, (long long) o.res, o.ok, (long long) o.exp, (long long) now);
	if (o.kind == CASW1 || o.kind == CASW2) VC (o.ok == (o.b == s), "atomic-cas", "%s expecting %lld on %lld gave %d when undisturbed", c_names[o.kind], (long long) o.b, (long long) s, o.ok);
	s = n;
	sig (hmix (o.kind, hmix (o.ord, hmix (sizeof(T), o.ok))));
    }
    VC (kill_dependency (s) == s, "kill-dependency", "kill_dependency changed the value");
}
enum Color { RED, GREEN, BLUE };
struct PtrSolo { static void run (void) {
    int a [4] = {1,2,3,4};
    atomic<int*> p (&a[0]); int* e = &a[1];
    VC (p.load() == a && !p.compare_exchange_strong (e, &a[2], memory_order_seq_cst, memory_order_seq_cst) && e == a, "atomic-ptr", "pointer compare-exchange");
    VC (p.compare_exchange_weak (e, &a[2]) && p == &a[2], "atomic-ptr", "pointer compare-exchange");
    VC (p.exchange (&a[3]) == &a[2] && *p == 4, "atomic-ptr", "pointer exchange");
    p = nullptr; VC (!p, "atomic-ptr", "pointer store");
    atomic<bool> b (false); bool f = true;
    VC (!b.exchange (true) && b && !(b.compare_exchange_weak (f = false, false)) && f && b.compare_exchange_weak (f, false) && !b.load(), "atomic-bool", "bool operations");
    b = true; VC (b, "atomic-bool", "bool store");
    atomic<Color> c (GREEN); Color ce = RED;
    VC (!c.compare_exchange_weak (ce, BLUE) && ce == GREEN && c.exchange (BLUE) == GREEN && c == BLUE, "atomic-enum", "enum operations");
    atomic_flag fl ATOMIC_FLAG_INIT;
    VC (!fl.test_and_set() && fl.test_and_set() && fl.test_and_set (memory_order_relaxed), "atomic-flag", "test_and_set");
    fl.clear(); VC (!fl.test_and_set (memory_order_acquire), "atomic-flag", "clear"); fl.clear (memory_order_release); VC (!fl.test_and_set (memory_order_acq_rel), "atomic-flag", "clear release");
    fl.clear (memory_order_relaxed); VC (!fl.test_and_set (memory_order_release), "atomic-flag", "clear relaxed");
    atomic_flag ft (true); VC (ft.test_and_set(), "atomic-flag", "constructed set");
    int m = 0; VC (TestAndSet (&m) && m == 1 && !TestAndSet (&m) && m == 1, "test-and-set", "TestAndSet");
    m = int (R.bits()); bool was = !m; VC (TestAndSet (&m) == was && m == 1, "test-and-set", "TestAndSet of an arbitrary value");
    ops (20); sig (was);
} };

//--- conservation under a storm ------------------------------------------------
template <typename T> __attribute__((noinline)) void conserve_run (unsigned per)
{
    warm();
    int nt = 2 + R.below (MAXT - 1); int what = R.below (10);
    struct alignas (CACHE) V { atomic<T> v; };
    static V c; static T got [MAXT][4096]; static u64 sum [MAXT]; static unsigned wins [MAXT]; static Barrier bar;
    T init = T (R.bits());
    if (what == 2) init = 0;
    if (what == 3) init = T (~u64 (0));
    if (what == 4) init = T (~u64 (0));
    c.v = init; bar.init (nt);
    unsigned n = per > 4096 ? 4096 : per; u64 seeds = R.next();
    if (sizeof(T) == 1 && (what == 0 || what == 9)) n = 255 / nt; else if (sizeof(T) == 2 && (what == 0 || what == 9)) n = n * nt > 65535 ? 65535 / nt : n;
    run_threads (nt, [&](int t) {
	Rng r (seeds + t); u64 s = 0; T mine = T (1000 + t); unsigned w = 0;
	bar.wait();
	for (unsigned i = 0; i < n; ++i) {
	    if (r.chance (1, 16)) relax (r.below (100));
	    switch (what) {
		case 0: switch (i % 5) { case 0: got[t][i] = c.v.fetch_add (1); break; case 1: got[t][i] = c.v++; break; case 2: got[t][i] = T (++c.v - 1); break; case 3: got[t][i] = T (c.v.add_fetch (1, memory_order_relaxed) - 1); break; case 4: got[t][i] = T ((c.v += 1) - 1); break; } break;
		case 1: { T d = T (r.next()); s += u64 (d); switch (i % 6) { case 0: c.v += d; break; case 1: c.v -= T (0 - u64 (d)); break; case 2: c.v.fetch_sub (T (0 - u64 (d))); break; case 3: c.v.fetch_add (d, memory_order_relaxed); break; case 4: c.v.sub_fetch (T (0 - u64 (d))); break; case 5: c.v.add_fetch (d); break; } } break;
		case 2: { T bit = T (u64 (1) << ((t + nt * (i % (sizeof(T) * 8 / nt))))); T o; switch (i % 4) { case 0: c.v |= bit; o = bit; break; case 1: o = c.v.fetch_or (bit) | bit; break; case 2: o = c.v.or_fetch (bit); break; default: o = T (c.v.fetch_xor (bit)) ^ bit; if (!(o & bit)) o = c.v.xor_fetch (bit); break; } if (!(o & bit)) ++s; if (!(c.v.load() & bit)) ++s; } break;
		case 3: { T bit = T (u64 (1) << ((t + nt * (i % (sizeof(T) * 8 / nt))))); T o; switch (i % 3) { case 0: c.v &= T (~bit); o = 0; break; case 1: o = T (c.v.fetch_and (T (~bit)) & ~bit); break; default: o = c.v.and_fetch (T (~bit)); break; } if (o & bit) ++s; if (c.v.load() & bit) ++s; c.v |= bit; } break;
		case 4: { T d = T (r.next()); s ^= u64 (d); switch (i % 3) { case 0: c.v ^= d; break; case 1: c.v.fetch_xor (d); break; default: c.v.xor_fetch (d); break; } } break;
		case 5: mine = c.v.exchange (mine); break;
		case 6: { T e = c.v.load (memory_order_relaxed); while (!c.v.compare_exchange_weak (e, T (u64 (e) + 3))) {} ++w; } break;
		case 7: { T e = c.v.load(); if (c.v.compare_exchange_strong (e, T (u64 (e) + 5), memory_order_acq_rel, memory_order_acquire)) ++w; } break;
		case 8: { T e = T (r.next()); while (!c.v.compare_exchange_weak (e, T (u64 (e) + 1), memory_order_release, memory_order_relaxed)) {} ++w; } break;
		case 9: switch (i % 4) { case 0: got[t][i] = c.v.fetch_sub (1); break; case 1: got[t][i] = c.v--; break; case 2: got[t][i] = T (--c.v + 1); break; case 3: got[t][i] = T ((c.v -= 1) + 1); break; } break;
	    }
	}
	sum[t] = what == 5 ? u64 (mine) : s; wins[t] = w;
    });
    T fin = c.v; ops (u64 (n) * nt); sig (hmix (what, hmix (nt, sizeof(T))));
    u64 tot = 0, x = 0, w = 0;
    for (int t = 0; t < nt; ++t) { tot += sum[t]; x ^= sum[t]; w += wins[t]; }
    switch (what) {
	case 0: case 9: {
	    u64 d = what == 0 ? u64 (fin) - u64 (init) : u64 (init) - u64 (fin);
	    VC (T (d) == T (u64 (n) * nt), "lost-update", "%u steps by %d threads moved the counter of %zu bytes by %llu", n, nt, sizeof(T), (unsigned long long) T (d));
	    Arr<uint8_t> hit; hit.resize (n * nt, 0);
	    for (int t = 0; t < nt; ++t) for (unsigned i = 0; i < n; ++i) {
		u64 k = (what == 0 ? u64 (got[t][i]) - u64 (init) : u64 (init) - u64 (got[t][i])) & (~u64 (0) >> (64 - 8 * sizeof(T)));
		VC (k < n * nt && !hit[k], "result-twice", "step %u of thread %d returned place %llu, %s", i, t, (unsigned long long) k, k < n * nt ? "which another step also returned" : "which no step has");
		hit[k] = 1;
	    }
	} break;
	case 1: VC (T (u64 (init) + tot) == fin, "lost-update", "the sum of concurrent additions on %zu bytes is off by %lld", sizeof(T), (long long)(u64 (fin) - u64 (init) - tot)); break;
	case 2: case 3: VC (!tot, "lost-bit", "a bit set or cleared by its only writer was found otherwise %llu times", (unsigned long long) tot); break;
	case 4: VC (T (u64 (init) ^ x) == fin, "lost-update", "concurrent xors lost an update"); break;
	case 5: {
	    u64 want = u64 (init) , have = u64 (fin);
	    for (int t = 0; t < nt; ++t) { want += hmix (0, u64 (T (1000 + t))); have += hmix (0, sum[t]); }
	    want += hmix (0, u64 (init)) - u64 (init); have += hmix (0, u64 (fin)) - u64 (fin);
	    VC (want == have, "token-lost", "values handed around by exchange were lost or duplicated");
	} break;
	case 6: VC (T (u64 (init) + 3 * w) == fin, "lost-update", "%llu successful compare-exchanges of +3 moved the value by %lld", (unsigned long long) w, (long long)(u64 (fin) - u64 (init))); break;
	case 7: VC (T (u64 (init) + 5 * w) == fin && w, "lost-update", "%llu successful compare-exchanges of +5 moved the value by %lld", (unsigned long long) w, (long long)(u64 (fin) - u64 (init))); break;
	case 8: VC (T (u64 (init) + w) == fin, "lost-update", "%llu successful compare-exchanges of +1 moved the value by %lld", (unsigned long long) w, (long long)(u64 (fin) - u64 (init))); break;
    }
    if (want_sample()) sample ("kind %d: %d threads x %u operations on %zu bytes from %lld to %lld, conserved", what, nt, n, sizeof(T), (long long) init, (long long) fin);
}

//--- message passing: release and acquire really publish ------------------------
// ThreadSanitizer sees a race on the payload if either side does not synchronise
struct Payload { u64 a, b; char pad [CACHE - 16]; };
void mp_run (unsigned rounds)
{
    warm();
    static atomic<uint32_t> f; static Payload pay [256]; static u64 bad; static atomic_flag fl; static atomic<bool> fb; static atomic<Payload*> fp;
    int rel = R.below (25), acq = R.below (19); u64 salt = R.next();
    rounds = rounds > 255 ? 255 : rounds;
    if (rel >= 23) acq = 0;
    if (acq == 17 || acq == 18) rel = 1;
    f = 0; bad = 0;
    for (unsigned i = 0; i < 256; ++i) pay[i].a = pay[i].b = 0;
    run_threads (2, [&](int t) {
	if (!t) {
	    for (unsigned i = 1; i <= rounds; ++i) {
		pay[i].a = i * salt; pay[i].b = ~(i * salt);
		uint32_t e = i - 1;
		switch (rel) {
		    case 0: f = i; break;
		    case 1: f.store (i, memory_order_release); break;
		    case 2: f.store (i); break;
		    case 3: f.exchange (i, memory_order_release); break;
		    case 4: f.exchange (i); break;
		    case 5: f.fetch_add (1, memory_order_release); break;
		    case 6: ++f; break;
		    case 7: f++; break;
		    case 8: f += 1; break;
		    case 9: f.fetch_xor ((i - 1) ^ i, memory_order_acq_rel); break;
		    case 10: f ^= (i - 1) ^ i; break;
		    case 11: f.compare_exchange_strong (e, i, memory_order_release, memory_order_relaxed); break;
		    case 12: while (!f.compare_exchange_weak (e, i)) e = i - 1; break;
		    case 13: while (!f.compare_exchange_weak (e, i, memory_order_acq_rel, memory_order_acquire)) e = i - 1; break;
		    case 14: f.fetch_sub (uint32_t (-1), memory_order_release); break;
		    case 15: f.sub_fetch (uint32_t (-1), memory_order_release); break;
		    case 16: f.add_fetch (1, memory_order_release); break;
		    case 17: f.fetch_or (i, memory_order_release); if (f.load (memory_order_relaxed) != i) f.fetch_and (i, memory_order_release); break;
		    case 18: f.or_fetch (i, memory_order_acq_rel); if (f.load (memory_order_relaxed) != i) f.and_fetch (i, memory_order_acq_rel); break;
		    case 19: f |= i; f &= i; break;
		    case 20: f.xor_fetch ((i - 1) ^ i, memory_order_release); break;
		    case 21: f -= uint32_t (-1); break;
		    case 22: e = i + 5; f.compare_exchange_strong (e, i + 1, memory_order_acq_rel, memory_order_relaxed); f.fetch_add (1, memory_order_seq_cst); break;
		    case 23: f.exchange (i, memory_order_acq_rel); break;
		    default: f.store (i, memory_order_seq_cst); break;
		}
	    }
	} else {
	    uint32_t have = 0;
	    for (unsigned k = 0; have < rounds; ++k) {
		uint32_t e = 0xFFFFFFFF;
		switch (acq) {
		    case 0: have = f; break;
		    case 1: have = f.load (memory_order_acquire); break;
		    case 2: have = f.load(); break;
		    case 3: have = f.fetch_add (0, memory_order_acquire); break;
		    case 4: have = f.fetch_or (0, memory_order_acquire); break;
		    case 5: have = f.add_fetch (0, memory_order_acquire); break;
		    case 6: have = f.or_fetch (0, memory_order_acq_rel); break;
		    case 7: have = f.and_fetch (~0u, memory_order_acquire); break;
		    case 8: have = f.fetch_and (~0u); break;
		    case 9: have = f.fetch_xor (0, memory_order_acquire); break;
		    case 10: have = f.xor_fetch (0); break;
		    case 11: have = f.sub_fetch (0, memory_order_acquire); break;
		    case 12: have = (f += 0); break;
		    case 13: have = (f -= 0); break;
		    case 14: have = (f |= 0); break;
		    case 15: f.compare_exchange_weak (e, 0, memory_order_acq_rel, memory_order_acquire); have = e; break;
		    case 16: f.compare_exchange_strong (e, 0, memory_order_acquire, memory_order_acquire); have = e; break;
		    case 17: f.compare_exchange_weak (e, 0, memory_order_acquire); have = e; break;
		    default: f.compare_exchange_weak (e, 0); have = e; break;
		}
		// the or/and publishers pass through intermediate values
		uint32_t upto = (rel >= 17 && rel <= 19) ? 0 : have <= rounds ? have : 0;
		if (rel == 22) upto = have <= rounds ? have : 0;
		if (have == rounds || upto)
		    for (uint32_t i = have == rounds ? rounds : upto; i && i + 3 > upto; --i)
			if (pay[i].a != i * salt || pay[i].b != ~(i * salt)) ++bad;
		if (k > 200) sched_yield();
	    }
	}
    });
    ops (rounds); sig (hmix (rel, acq));
    VC (!bad, "not-published", "%llu payloads were not visible after the flag that publishes them (publisher %d, reader %d)", (unsigned long long) bad, rel, acq);
    VC (f.load() == rounds, "atomic-final", "the flag ends at %u, not %u", f.load(), rounds);
}

//--- store buffering: the default order is sequentially consistent -----------------
void sb_run (unsigned rounds)
{
    warm();
    struct alignas (CACHE) V { atomic<int> v; };
    static V x, y; static int r1, r2; static Barrier bar; static u64 both; static unsigned counts [4];
    int kind = R.below (6); bar.init (2); both = 0; memset (counts, 0, sizeof(counts));
    u64 seeds = R.next();
    run_threads (2, [&](int t) {
	Rng r (seeds + t);
	V& mine = t ? y : x; V& other = t ? x : y; int& res = t ? r2 : r1;
	for (unsigned i = 0; i < rounds; ++i) {
	    if (!t) { x.v.store (0, memory_order_relaxed); y.v.store (0, memory_order_relaxed); }
	    bar.wait();
	    relax (r.below (12));
	    switch (kind) {
		case 0: mine.v = 1; res = other.v; break;
		case 1: mine.v.store (1); res = other.v.load(); break;
		case 2: mine.v.store (1, memory_order_seq_cst); res = other.v.load (memory_order_seq_cst); break;
		case 3: mine.v.store (1, memory_order_relaxed); atomic_thread_fence (memory_order_seq_cst); res = other.v.load (memory_order_relaxed); break;
		case 4: mine.v.exchange (1); res = other.v.load(); break;
		case 5: mine.v.fetch_add (1); res = other.v; break;
	    }
	    bar.wait();
	    if (!t) { if (!r1 && !r2) ++both; ++counts[r1 * 2 + r2]; }
	}
    });
    ops (rounds * 2);
    for (int i = 0; i < 4; ++i) if (counts[i]) sig (hmix (kind, i + 100));
    VC (!both, "store-buffering", "%llu of %u rounds both threads missed the other's sequentially consistent store (kind %d)", (unsigned long long) both, rounds, kind);
    if (want_sample()) sample ("store buffering kind %d: outcomes 00:%u 01:%u 10:%u 11:%u", kind, counts[0], counts[1], counts[2], counts[3]);
}

//--- locks ------------------------------------------------------------------------
struct Guarded { u64 a, b, c; int holder; u64 entries; };
template <typename Lock, typename Unlock> void lock_storm (const char* name, unsigned n, Lock lock, Unlock unlock)
{
    warm();
    static Guarded g; static u64 bad [MAXT]; static Barrier bar;
    int nt = 2 + R.below (MAXT - 1); u64 seeds = R.next(); memset (&g, 0, sizeof(g)); g.holder = -1; bar.init (nt);
    run_threads (nt, [&](int t) {
	Rng r (seeds + t); u64 bd = 0;
	bar.wait();
	for (unsigned i = 0; i < n; ++i) {
	    lock();
	    if (g.holder != -1 || g.a != g.b || g.b != g.c) ++bd;
	    g.holder = t;
	    u64 v = g.a + 1; if (r.chance (1, 8)) relax (r.below (60));
	    g.a = v; if (r.chance (1, 8)) relax (r.below (40)); g.b = v; g.c = v; ++g.entries;
	    if (g.holder != t) ++bd;
	    g.holder = -1;
	    unlock();
	    if (r.chance (1, 4)) relax (r.below (60));
	}
	bad[t] = bd;
    });
    u64 b = 0; for (int t = 0; t < nt; ++t) b += bad[t];
    ops (u64 (n) * nt); sig (hmix (nt, hbytes (name, strlen (name))));
    VC (!b, "two-holders", "%s: %llu times a holder saw another inside the section or its writes half done", name, (unsigned long long) b);
    VC (g.a == u64 (n) * nt && g.entries == g.a && g.b == g.a && g.c == g.a, "two-holders", "%s: %u sections by %d threads counted %llu", name, n, nt, (unsigned long long) g.a);
}
atomic_flag s_fl; atomic<int> s_ai; atomic<bool> s_ab; int s_ts;
void spin (unsigned& k) { if (++k > 100) sched_yield(); }
void lock_run (unsigned n)
{
    switch (R.below (
#if VF_VARIANT_tsan
	5	// the sanitizer does not see the inline assembly of TestAndSet
#else
	6
#endif
    )) {
	case 0: s_fl.clear(); lock_storm ("atomic_flag", n, []{ unsigned k = 0; while (s_fl.test_and_set()) spin (k); }, []{ s_fl.clear(); }); break;
	case 1: s_fl.clear(); lock_storm ("atomic_flag acquire/release", n, []{ unsigned k = 0; while (s_fl.test_and_set (memory_order_acquire)) spin (k); }, []{ s_fl.clear (memory_order_release); }); break;
	case 2: s_ai = 0; lock_storm ("compare_exchange_weak", n, []{ unsigned k = 0; int e = 0; while (!s_ai.compare_exchange_weak (e, 1, memory_order_acquire, memory_order_relaxed)) { spin (k); e = 0; } }, []{ s_ai.store (0, memory_order_release); }); break;
	case 3: s_ab = false; lock_storm ("exchange", n, []{ unsigned k = 0; while (s_ab.exchange (true, memory_order_acquire)) spin (k); }, []{ s_ab = false; }); break;
	case 4: s_ai = 0; lock_storm ("compare_exchange_strong", n, []{ unsigned k = 0; int e = 0; while (!s_ai.compare_exchange_strong (e, 1, memory_order_seq_cst, memory_order_seq_cst)) { spin (k); e = 0; } }, []{ --s_ai; }); break;
	case 5: s_ts = 0; lock_storm ("TestAndSet", n, []{ unsigned k = 0; while (!TestAndSet (&s_ts)) spin (k); }, []{ __atomic_store_n (&s_ts, 0, __ATOMIC_RELEASE); }); break;
    }
}

//--- shared_ptr ---------------------------------------------------------------------
struct Shared {
    uint32_t magic; u64 slot [MAXT]; int nt; u64 fill [4];
    static int births, deaths, bad;
    Shared (int n = 0) : magic (0xA11CE), nt (n) { for (int i = 0; i < MAXT; ++i) slot[i] = 0; for (int i = 0; i < 4; ++i) fill[i] = i; __atomic_add_fetch (&births, 1, __ATOMIC_RELAXED); }
    ~Shared (void) {
	if (magic != 0xA11CE) __atomic_add_fetch (&bad, 1, __ATOMIC_RELAXED);
	u64 s = 0; for (int i = 0; i < MAXT; ++i) s += slot[i];	// a race here means someone could still be using the object
	for (int i = 0; i < 4; ++i) if (fill[i] != u64 (i)) __atomic_add_fetch (&bad, 1, __ATOMIC_RELAXED);
	magic = 0xDEAD + (s & 0); __atomic_add_fetch (&deaths, 1, __ATOMIC_RELAXED);
    }
};
int Shared::births = 0, Shared::deaths = 0, Shared::bad = 0;

void shared_run (unsigned rounds)
{
    warm();
    typedef shared_ptr<Shared> sp;
    static Barrier bar; static u64 bad [MAXT]; static char why [MAXT][100];
    int nt = 2 + R.below (MAXT - 1); enum { NOBJ = 3 };
    bool keep = R.chance (1,2); u64 seeds = R.next(); u64 opc = 0;
    for (unsigned q = 0; q < rounds; ++q) {
	Shared::births = Shared::deaths = Shared::bad = 0; bar.init (nt);
	sp master [NOBJ], given [MAXT][NOBJ];
	for (int o = 0; o < NOBJ; ++o) { master[o] = o ? sp (new Shared (nt)) : make_shared<Shared> (nt); for (int t = 0; t < nt; ++t) given[t][o] = master[o]; }
	for (int o = 0; o < NOBJ; ++o) VC (master[o].use_count() == size_t (nt + 1), "shared-count", "%d copies, use_count() %zu", nt + 1, master[o].use_count());
	if (!keep) for (int o = 0; o < NOBJ; ++o) master[o].reset();
	unsigned n = 4 + R.below (30); opc += n * nt;
	run_threads (nt, [&](int t) {
	    Rng r (hmix (seeds + q, t)); bad[t] = 0; why[t][0] = 0;
	    sp loc [5]; int what [5] = {-1,-1,-1,-1,-1};
	    bar.wait();
	    for (unsigned i = 0; i < n; ++i) {
		int o = r.below (NOBJ), l = r.below (5), m = r.below (5);
		switch (r.below (9)) {
		    case 0: loc[l] = given[t][o]; what[l] = o; break;
		    case 1: { sp c (given[t][o]); loc[l].swap (c); what[l] = o; } break;
		    case 2: loc[l].reset(); what[l] = -1; break;
		    case 3: if (l != m) { loc[l] = loc[m]; what[l] = what[m]; } break;
		    case 4: { sp c (move (loc[l])); loc[l].reset(); loc[l] = move (c); } break;
		    case 5: { sp c (loc[l]); sp d (c), e; e = d; d.reset(); c = e; if (e.get() != loc[l].get()) { ++bad[t]; strcpy (why[t], "a copy points elsewhere"); } } break;
		    case 6: if (loc[l]) { loc[l]->slot[t] += i; if (loc[l]->magic != 0xA11CE || (*loc[l]).nt != nt) { ++bad[t]; strcpy (why[t], "an object died while a copy was held"); } } break;
		    case 7: { size_t have = 1, c = given[t][o].use_count(); for (int k = 0; k < 5; ++k) if (what[k] == o) ++have; if (c < have) { ++bad[t]; snprintf (why[t], 100, "%zu copies held by one thread, use_count() %zu", have, c); } if (keep && given[t][o].unique()) { ++bad[t]; strcpy (why[t], "unique() while others hold copies"); } } break;
		    case 8: if (what[l] >= 0 && loc[l].get() != given[t][what[l]].get()) { ++bad[t]; strcpy (why[t], "a copy points elsewhere"); } break;
		}
	    }
	    for (int o = 0; o < NOBJ; ++o) { given[t][o]->slot[t] += 1; if (r.chance (1,2)) relax (r.below (50)); given[t][o].reset(); }
	});
	u64 b = 0; const char* w = ""; for (int t = 0; t < nt; ++t) { b += bad[t]; if (bad[t]) w = why[t]; }
	VC (!b, "shared-use", "%s", w);
	VC (!Shared::bad, "shared-twice", "an object was damaged or destroyed twice");
	if (keep) {
	    for (int o = 0; o < NOBJ; ++o) VC (master[o].unique() && master[o].use_count() == 1 && master[o]->magic == 0xA11CE, "shared-count", "after the threads finished use_count() is %zu, not 1", master[o].use_count());
	    VC (!Shared::deaths, "shared-early", "%d objects died while the main thread held them", Shared::deaths);
	    for (int o = 0; o < NOBJ; ++o) master[o].reset();
	}
	VC (Shared::deaths == NOBJ && Shared::births == NOBJ, "shared-deaths", "%d objects made, %d destroyed when the last copy went", Shared::births, Shared::deaths);
    }
    ops (opc); sig (hmix (nt, keep)); sig (hmix (opc, 5));
    if (want_sample()) sample ("%u rounds of %d objects shared by %d threads, %llu operations; every object destroyed once", rounds, NOBJ, nt, (unsigned long long) opc);
}

//--- separate objects in separate threads --------------------------------------------
struct LocalEx : public exception { LocalEx (void) noexcept : exception() {} };
u64 private_work (u64 seed, const char* dir, int t)
{
    Rng r (seed); u64 h = 0;
    for (int k = 0; k < 6; ++k) switch (r.below (9)) {
	case 0: { string s; for (int i = 0; i < 40; ++i) { s += char ('a' + r.below (26)); if (r.chance (1,5)) s.insert (string::pos_type (r.below (s.size())), "xy"); } s.replace (s.begin(), s.begin() + 3, "zz"); h = hmix (h, hbytes (s.data(), s.size())); h = hmix (h, string::hash (s.begin(), s.end()) ^ s.find ('x') ^ s.rfind ("zz")); string u; u.format ("%s-%d", s.c_str(), int (r.below (1000))); h = hmix (h, hbytes (u.data(), u.size())); } break;
	case 1: { vector<int> v; for (int i = 0; i < 60; ++i) v.insert (v.begin() + r.below (v.size() + 1), int (r.below (1000))); sort (v); v.erase (v.begin() + 3, v.begin() + 9); for (auto x : v) h = hmix (h, x); h = hmix (h, v.size()); rotate (v.begin(), v.begin() + 11, v.end()); for (auto x : v) h = hmix (h, x); } break;
	case 2: { map<string,int> m; for (int i = 0; i < 30; ++i) { char b[20]; snprintf (b, 20, "k%d", int (r.below (40))); string kb; kb.assign (b); m[kb] += i; } for (auto& p : m) h = hmix (h, hbytes (p.first.data(), p.first.size()) ^ p.second); set<int> st; for (int i = 0; i < 30; ++i) st.insert (r.below (50)); for (auto x : st) h = hmix (h, x); } break;
	case 3: { ostringstream os; for (int i = 0; i < 20; ++i) { os.width (r.below (6)); os << int (r.below (100000)) << ' '; os.width (0); if (i & 1) os.setf (ios::hex, ios::basefield); else os.setf (ios::dec, ios::basefield); } os << 1.5 << true; os.flush(); h = hmix (h, hbytes (os.str().data(), os.str().size())); istringstream is (os.str()); string w; for (int i = 0; i < 5; ++i) { is >> w; h = hmix (h, hbytes (w.data(), w.size())); } } break;
	case 4: { memblock mb (200); fill_n (mb.begin(), 200, char (r.next())); for (int i = 0; i < 8; ++i) { memblock::iterator p = mb.insert (mb.begin() + r.below (mb.size()), 7); fill_n (p, 7, char (i)); mb.erase (mb.begin() + r.below (100), 5); } h = hmix (h, hbytes (mb.begin(), mb.size())); } break;
	case 5: try { char b[64]; istream is (b, 2); if (r.chance (1,2)) { int v; is >> v; if (!is.good()) h = hmix (h, 77); } errno = 1 + r.below (30); throw file_exception ("write", r.chance (1,2) ? "some/file.txt" : "other"); } catch (exception& e) { string s; e.info (s); h = hmix (h, hbytes (s.data(), s.size())); LocalEx le; le.info (s); h = hmix (h, s.size()); } break;
	case 6: { tuple<4,float> a, b; for (int i = 0; i < 4; ++i) { a[i] = float (int (r.below (100))); b[i] = float (1 + r.below (9)); } a += b; a *= b; for (int i = 0; i < 4; ++i) h = hmix (h, u64 (a[i])); tuple<8,uint8_t> c, d; for (int i = 0; i < 8; ++i) { c[i] = r.next(); d[i] = r.next(); } c += d; simd::reset_mmx(); for (int i = 0; i < 8; ++i) h = hmix (h, c[i]); bitset<96> bs; for (int i = 0; i < 20; ++i) bs.flip (r.below (96)); h = hmix (h, bs.count()); } break;
	case 7: { vector<uint32_t> v (64 + r.below (64)); for (auto& x : v) x = r.next(); vector<uint8_t> buf (stream_size_of (v) + 16); ostream os (buf.begin(), buf.size()); os << v; h = hmix (h, hbytes (buf.begin(), os.pos())); istream is (buf.begin(), os.pos()); vector<uint32_t> w; is >> w; h = hmix (h, w == v); make_heap (w.begin(), w.end()); sort_heap (w.begin(), w.end()); h = hmix (h, hbytes (w.begin(), w.size() * 4)); } break;
	case 8: { char fn [300]; snprintf (fn, 300, "%s/c18-%d", dir, t); string s; for (int i = 0; i < 50; ++i) s += char ('A' + r.below (26)); { ofstream f (fn, ios::out|ios::trunc); f << s << "\nline " << int (r.below (99)) << endl; } string back; ifstream f2 (fn); string w; f2 >> w; h = hmix (h, hbytes (w.data(), w.size())); memblock mb; mb.read_file (fn); h = hmix (h, hbytes (mb.begin(), mb.size())); unlink (fn); } break;
    }
    return h;
}
void private_run (void)
{
    warm();
    int nt = 2 + R.below (MAXT - 1); static Barrier bar; bar.init (nt); static u64 got [MAXT][8]; u64 want [MAXT][8]; u64 s0 = R.next(); enum { N = 4 };
    static bool threw [MAXT];
    for (int t = 0; t < nt; ++t) { threw[t] = false; for (int i = 0; i < N; ++i) want[t][i] = private_work (hmix (s0 + i, t), g_scratch, t); }
    run_threads (nt, [&](int t) { bar.wait(); try { for (int i = 0; i < N; ++i) got[t][i] = private_work (hmix (s0 + i, t), g_scratch, t); } catch (...) { threw[t] = true; } });
    for (int t = 0; t < nt; ++t) { VC (!threw[t], "interference", "a thread with objects of its own got an exception"); for (int i = 0; i < N; ++i) { ops (6); VC (got[t][i] == want[t][i], "interference", "thread %d of %d working on its own objects got a different result than alone", t, nt); sig (hmix (t, want[t][i] % 64)); } }
}
} // namespace

VF_CASE (c18_lin8, 10, 100) { if (R.chance (1,2)) lin_run<uint8_t> (250); else lin_run<int8_t> (250); }
VF_CASE (c18_lin16, 10, 100) { if (R.chance (1,2)) lin_run<uint16_t> (250); else lin_run<int16_t> (250); }
VF_CASE (c18_lin32, 24, 240) { if (R.chance (1,2)) lin_run<uint32_t> (250); else lin_run<int32_t> (250); }
VF_CASE (c18_lin64, 16, 160) { if (R.chance (1,2)) lin_run<uint64_t> (250); else lin_run<int64_t> (250); }
VF_CASE (c18_solo, 200, 4000) { switch (R.below (6)) { case 0: solo_run<uint8_t>(); break; case 1: solo_run<int16_t>(); break; case 2: solo_run<int32_t>(); break; case 3: solo_run<uint64_t>(); break; case 4: solo_run<uint32_t>(); break; case 5: solo_run<int8_t>(); break; } PtrSolo::run(); }
VF_CASE (c18_conserve, 80, 1000) { switch (R.below (5)) { case 0: conserve_run<uint8_t> (2000); break; case 1: conserve_run<uint16_t> (2000); break; case 2: conserve_run<int32_t> (4000); break; case 3: conserve_run<uint64_t> (4000); break; case 4: conserve_run<uint32_t> (4000); break; } }
VF_CASE (c18_publish, 200, 3000) { mp_run (100); }
VF_CASE (c18_storebuf, 24, 300) { sb_run (4000); }
VF_CASE (c18_lock, 40, 500) { lock_run (1500); }
VF_CASE (c18_shared, 40, 500) { shared_run (25); }
VF_CASE (c18_private, 60, 800) { private_run(); }
