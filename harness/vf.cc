#include "vf.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <execinfo.h>

namespace vf {

Rng R;
bool g_thorough = false;
u64 g_seed = 1;
const char* g_case_name = "";
unsigned g_case_idx = 0;
size_t g_big = 0;
const char* g_scratch = "/tmp";
static Case* s_cases = nullptr;
static u64 s_ops = 0, s_evals = 0, s_fails = 0;
static unsigned s_casefails = 0;
static bool s_leakok = false;
static int s_samplesleft = 0;
static char s_samples [8192];
static size_t s_samplesn = 0;

static char* s_cur = nullptr;	// shared page describing the current case

Reg::Reg (const char* n, void (*f)(void), unsigned q, unsigned t, unsigned fl)
{
    c.name = n; c.fn = f; c.quick = q; c.thorough = t; c.flags = fl; c.next = nullptr;
    Case** pp = &s_cases;
    while (*pp) pp = &(*pp)->next;
    *pp = &c;
}

//--- trace
static char s_trace [1 << 16];
static size_t s_tracen = 0;
void trace (const char* fmt, ...)
{
    if (s_tracen > sizeof(s_trace) - 512) {	// keep the last half
	memmove (s_trace, s_trace + sizeof(s_trace)/2, s_tracen - sizeof(s_trace)/2);
	s_tracen -= sizeof(s_trace)/2;
    }
    va_list a; va_start (a, fmt);
    int n = vsnprintf (s_trace + s_tracen, 400, fmt, a);
    va_end (a);
    if (n > 399) n = 399;
    if (n > 0) s_tracen += n;
    s_trace[s_tracen++] = ';';
    s_trace[s_tracen++] = ' ';
    s_trace[s_tracen] = 0;
}

static void vfail (const char* key, const char* fmt, va_list a)
{
    static char buf [4096];
    vsnprintf (buf, sizeof(buf), fmt, a);
    for (char* c = buf; *c; ++c) if (*c == '\n') *c = ' ';
    size_t off = s_tracen > 1500 ? s_tracen - 1500 : 0;
    printf ("\nVFFAIL key=%s case=%s#%u seed=%llu :: %s :: trace: %s%s\n", key, g_case_name, g_case_idx, (unsigned long long) g_seed, buf, off ? "..." : "", s_trace + off);
    fflush (stdout);
    ++s_fails;
    ++s_casefails;
    if (s_fails > 40) { printf ("VFTOOMANY\n"); fflush (stdout); _exit (3); }
}
void fail (const char* key, const char* fmt, ...)
{
    va_list a; va_start (a, fmt); vfail (key, fmt, a); va_end (a);
    throw Failure();
}
void note_fail (const char* key, const char* fmt, ...)
{
    va_list a; va_start (a, fmt); vfail (key, fmt, a); va_end (a);
}

//--- coverage
void ops (u64 n) { __atomic_add_fetch (&s_ops, n, __ATOMIC_RELAXED); }
static u64* s_set = nullptr; static size_t s_setcap = 0, s_setn = 0;
static void* rawmap (size_t n) { void* p = mmap (nullptr, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { fprintf (stderr, "vf: out of memory\n"); _exit (96); } return p; }
static void setins (u64 h) {
    size_t i = h & (s_setcap - 1);
    while (s_set[i] && s_set[i] != h) i = (i + 1) & (s_setcap - 1);
    if (!s_set[i]) { s_set[i] = h; ++s_setn; }
}
void sig (u64 h)
{
    h = hmix (h, hbytes (g_case_name, strlen (g_case_name)));
    if (!h) h = 1;
    if (s_setn >= 400000) return;	// enough
    if (!s_set) { s_setcap = 4096; s_set = (u64*) rawmap (s_setcap * 8); }
    if (s_setn * 2 > s_setcap) {
	u64* o = s_set; size_t oc = s_setcap;
	s_setcap *= 2; s_setn = 0; s_set = (u64*) rawmap (s_setcap * 8);
	for (size_t i = 0; i < oc; ++i) if (o[i]) setins (o[i]);
	munmap (o, oc * 8);
    }
    setins (h);
}
bool want_sample (void) { return s_samplesleft > 0; }
void sample (const char* fmt, ...)
{
    if (s_samplesleft <= 0) return;
    --s_samplesleft;
    char b [600];
    va_list a; va_start (a, fmt); vsnprintf (b, sizeof(b), fmt, a); va_end (a);
    for (char* c = b; *c; ++c) if (*c == '\n' || *c == '\t') *c = ' ';
    int n = snprintf (s_samples + s_samplesn, sizeof(s_samples) - s_samplesn, "VFSAMPLE %s#%u: %s\n", g_case_name, g_case_idx, b);
    if (n > 0 && s_samplesn + n < sizeof(s_samples)) s_samplesn += n; else s_samples[s_samplesn] = 0;
}

//--- arena
static char* s_ar = nullptr; static size_t s_arn = 0, s_arcap = 0;
struct Big { void* p; size_t n; }; static Big s_big [4096]; static size_t s_nbig = 0;
void* arena (size_t n)
{
    n = (n + 15) & ~size_t(15);
    if (!s_ar) { s_arcap = size_t(256) << 20; s_ar = (char*) mmap (nullptr, s_arcap, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); }
    if (n > (1u << 20)) {
	if (s_nbig >= 4096) { fprintf (stderr, "vf: arena\n"); _exit (96); }
	void* p = rawmap (n);
	s_big[s_nbig].p = p; s_big[s_nbig].n = n; ++s_nbig;
	return p;
    }
    if (s_arn + n > s_arcap) { fprintf (stderr, "vf: arena exhausted\n"); _exit (96); }
    void* p = s_ar + s_arn; s_arn += n;
    return p;
}
static void arena_reset (void)
{
    while (s_nbig) { --s_nbig; munmap (s_big[s_nbig].p, s_big[s_nbig].n); }
    if (s_arn > (size_t(8) << 20)) madvise (s_ar, s_arn, MADV_DONTNEED);
    s_arn = 0;
}

const char* show (const void* vp, size_t n)
{
    static char bufs [6][700]; static int bi = 0;
    char* b = bufs[bi++ % 6]; size_t o = 0;
    const unsigned char* p = (const unsigned char*) vp;
    o += snprintf (b, 40, "[%zu]\"", n);
    for (size_t i = 0; i < n && o < 600; ++i)
	o += (p[i] >= 32 && p[i] < 127 && p[i] != '"' && p[i] != '\\') ? snprintf (b + o, 8, "%c", p[i]) : snprintf (b + o, 8, "\\x%02x", p[i]);
    snprintf (b + o, 8, "\"%s", o >= 600 ? "..." : "");
    return b;
}

//--- guarded blocks, available in every variant
void* guard_alloc (size_t n)
{
    size_t pg = 4096, sz = (n + pg - 1) / pg * pg;
    if (!sz) sz = pg;
    char* p = (char*) mmap (nullptr, sz + 2*pg, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (p == (char*) MAP_FAILED) { fprintf (stderr, "vf: guard_alloc\n"); _exit (96); }
    mprotect (p + pg, sz, PROT_READ|PROT_WRITE);
    memset (p + pg, 0x5C, sz - n);
    return p + pg + sz - n;
}
void guard_free (void* vp, size_t n)
{
    size_t pg = 4096, sz = (n + pg - 1) / pg * pg;
    if (!sz) sz = pg;
    char* p = (char*) vp - (sz - n) - pg;
    for (size_t i = 0; i < sz - n; ++i)
	if (p[pg + i] != 0x5C) { munmap (p, sz + 2*pg); fail ("underwrite", "byte %zd before a buffer of %zu bytes was overwritten", (ssize_t)(sz - n - i), n); }
    munmap (p, sz + 2*pg);
}

struct RoBlk { void* p; size_t n; }; static RoBlk s_ro [8192]; static size_t s_nro = 0;
char* ro_copy (const void* vp, size_t n, bool rw)
{
    size_t pg = 4096, sz = (n + pg - 1) / pg * pg;
    if (!sz) sz = pg;
    if (s_nro >= 8192) { char* a = (char*) arena (n + 1); memcpy (a, vp, n); return a; }
    char* p = (char*) mmap (nullptr, sz + pg, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    if (p == (char*) MAP_FAILED) { fprintf (stderr, "vf: ro_copy\n"); _exit (96); }
    if (n) memcpy (p + sz - n, vp, n);
    mprotect (p + sz, pg, PROT_NONE);
    if (!rw) mprotect (p, sz, PROT_READ);
    s_ro[s_nro].p = p; s_ro[s_nro].n = sz + pg; ++s_nro;
    return p + sz - n;
}
static void ro_reset (void) { while (s_nro) { --s_nro; munmap (s_ro[s_nro].p, s_ro[s_nro].n); } }

void heap_allow_leak (void) { s_leakok = true; }

#if !VF_HEAP
bool g_has_heap = false;
HeapStats heap_stats (void) { HeapStats s = {0,0,0,0,0,0}; return s; }
void heap_peak_reset (void) {}
void heap_check (void) {}
void heap_fail_at (i64) {}
void heap_fail_min (size_t) {}
void heap_fail_sticky (bool) {}
bool heap_failed (void) { return false; }
#endif

static void on_hang (int sg)
{
    char b [256];
    int n = snprintf (b, sizeof(b), "\nVFHANG case=%s#%u seed=%llu :: %s limit of one case exceeded\n", g_case_name, g_case_idx, (unsigned long long) g_seed, sg == SIGALRM ? "wall time" : "processor time");
    if (write (1, b, n) < 0) {}
    _exit (97);
}
static void set_limits (unsigned cpu, unsigned wall)
{
    struct itimerval t; memset (&t, 0, sizeof(t));
    t.it_value.tv_sec = cpu; setitimer (ITIMER_PROF, &t, nullptr);
    alarm (wall);
}

static double cpu_now (void) { struct timespec t; clock_gettime (CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double s_slow = 0; static char s_slowname [160] = "none";	// the slowest case

static bool run_case (Case* c, unsigned idx)
{
    g_big = 0;
    g_case_name = c->name; g_case_idx = idx;
    s_tracen = 0; s_trace[0] = 0; s_leakok = false; s_casefails = 0;
    if (s_cur) { snprintf (s_cur, 256, "%s#%u", c->name, idx); }
    R = Rng (hmix (hmix (g_seed, hbytes (c->name, strlen (c->name))), idx));
    ++s_evals;
    HeapStats h0 = heap_stats();
    bool ok = true;
    set_limits (40, 240);
    const double t0 = cpu_now();
    try {
	c->fn();
    } catch (Failure&) { ok = false;
#ifndef VF_NO_USTL
    } catch (ustl::exception& e) {
	ok = false;
	ustl::string s; e.info (s);
	note_fail ("unexpected-exception", "%s: %s", e.what(), s.c_str());
#endif
    } catch (...) { ok = false; note_fail ("unexpected-exception", "unknown exception"); }
    if (s_casefails) ok = false;
    set_limits (0, 0);
    { const double t = cpu_now() - t0; if (t > s_slow) { s_slow = t; snprintf (s_slowname, sizeof(s_slowname), "%s#%u", c->name, idx); } }
    heap_fail_at (-1);
    if (g_has_heap) {
	heap_check();
	HeapStats h1 = heap_stats();
	if (ok && !s_leakok && !(c->flags & NOLEAKCHECK) && h1.blocks != h0.blocks) {
	    ok = false;
	    note_fail ("leak", "%lld heap blocks (%lld bytes) are still allocated after every object was destroyed", (long long)(h1.blocks - h0.blocks), (long long)(h1.bytes - h0.bytes));
	}
    }
    arena_reset();
    ro_reset();
    return ok;
}

} // namespace vf
using namespace vf;

int main (int argc, char** argv)
{
    static char outbuf [1 << 16];
    setvbuf (stdout, outbuf, _IOFBF, sizeof(outbuf));
    const char *only = nullptr, *sigfile = nullptr; unsigned shard = 0, nshards = 1; double scale = 1; long budget = 0;
    for (int i = 1; i < argc; ++i) {
	const char* a = argv[i]; const char* v = i + 1 < argc ? argv[i+1] : "";
	if (!strcmp (a, "--seed")) { g_seed = strtoull (v, nullptr, 0); ++i; }
	else if (!strcmp (a, "--tier")) { g_thorough = !strcmp (v, "thorough"); ++i; }
	else if (!strcmp (a, "--only")) { only = v; ++i; }
	else if (!strcmp (a, "--shard")) { sscanf (v, "%u/%u", &shard, &nshards); ++i; }
	else if (!strcmp (a, "--scale")) { scale = strtod (v, nullptr); ++i; }
	else if (!strcmp (a, "--budget")) { budget = strtol (v, nullptr, 10); ++i; }
	else if (!strcmp (a, "--sigs")) { sigfile = v; ++i; }
	else if (!strcmp (a, "--scratch")) { g_scratch = v; ++i; }
	else if (!strcmp (a, "--cur")) {
	    int fd = open (v, O_RDWR|O_CREAT, 0644);
	    if (fd >= 0 && !ftruncate (fd, 4096)) { void* p = mmap (nullptr, 4096, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) s_cur = (char*) p; close (fd); }
	    ++i;
	} else if (!strcmp (a, "--list")) { for (Case* c = s_cases; c; c = c->next) printf ("%s %u %u\n", c->name, c->quick, c->thorough); return 0; }
	else { fprintf (stderr, "vf: bad argument %s\n", a); return 96; }
    }
#if !__SANITIZE_ADDRESS__ && !__SANITIZE_THREAD__
    struct rlimit rl = { rlim_t(6) << 30, rlim_t(6) << 30 };
    setrlimit (RLIMIT_AS, &rl);
#endif
    signal (SIGPROF, on_hang); signal (SIGALRM, on_hang); signal (SIGPIPE, SIG_IGN);
    // Prime lazily allocated state of libc, so that leak accounting is exact
    { void* bt [8]; int n = backtrace (bt, 8); char** s = backtrace_symbols (bt, n); free (s); char t[64]; snprintf (t, 64, "%.3f %Lf", 1.5, (long double)1.5); }
#ifndef VF_NO_USTL
    for (int i = 0; i < 2; ++i) { try { throw ustl::bad_alloc (1); } catch (ustl::exception& e) { ustl::string s; e.info (s); } }
#endif
    unsigned ran = 0;
    char onlyname [128] = ""; long onlyidx = -1;
    if (only) { snprintf (onlyname, sizeof(onlyname), "%s", only); char* h = strchr (onlyname, '#'); if (h) { onlyidx = strtol (h+1, nullptr, 10); *h = 0; } }
    unsigned left = 0; struct timespec ts0, ts1; clock_gettime (CLOCK_MONOTONIC, &ts0);
    const unsigned Passes = only ? 1 : 8;	// a part of every group in each pass, so that little time still reaches all of them
    for (unsigned pass = 0; pass < Passes; ++pass)
    for (Case* c = s_cases; c; c = c->next) {
	if (only && strcmp (onlyname, c->name)) continue;
	unsigned n = g_thorough ? c->thorough : c->quick;
	if (!(c->flags & SERIAL)) { double d = n * scale; unsigned m = (unsigned) d; n = (n && !m) ? 1 : m; }
	const unsigned i0 = uint64_t (n) * pass / Passes, i1 = uint64_t (n) * (pass + 1) / Passes;
	s_samplesleft = shard == 0 && !i0 && i1 ? 1 : 0;
	if (onlyidx >= 0) { s_samplesleft = 1; run_case (c, onlyidx); ++ran; continue; }
	for (unsigned i = i0; i < i1; ++i) {
	    if (i % nshards != shard) continue;
	    if (budget && clock_gettime (CLOCK_MONOTONIC, &ts1) == 0 && ts1.tv_sec - ts0.tv_sec > budget) { ++left; continue; }
	    run_case (c, i); ++ran;
	}
    }
    fputs (s_samples, stdout);
    printf ("VFSLOW %.3f %s\n", s_slow, s_slowname);
    printf ("VFDONE ran=%u evals=%llu ops=%llu sigs=%zu fails=%llu left=%u\n", ran, (unsigned long long) s_evals, (unsigned long long) s_ops, s_setn, (unsigned long long) s_fails, left);
    fflush (stdout);
    if (sigfile) { int fd = open (sigfile, O_WRONLY|O_CREAT|O_TRUNC, 0644); if (fd >= 0) { for (size_t i = 0; i < s_setcap; ++i) if (s_set[i] && write (fd, s_set + i, 8) < 0) break; close (fd); } }
    _exit (s_fails ? 3 : 0);
}

#if __SANITIZE_ADDRESS__
extern "C" const char* __asan_default_options (void) { return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1:hard_rss_limit_mb=4000:abort_on_error=0:strict_string_checks=0:handle_abort=1:print_cmdline=0:detect_container_overflow=0:alloc_dealloc_mismatch=0"; }
extern "C" const char* __ubsan_default_options (void) { return "print_stacktrace=1:halt_on_error=1:exitcode=99"; }
#endif
#if __SANITIZE_THREAD__
extern "C" const char* __tsan_default_options (void) { return "exitcode=99:halt_on_error=1:report_signal_unsafe=0"; }
#endif
