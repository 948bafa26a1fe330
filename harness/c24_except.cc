// C24: exceptions describe their failure, copy, print and round-trip.
#include "vf.h"
#include <execinfo.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace vf;
extern "C" char* __cxa_demangle (const char*, char*, size_t*, int*);
namespace vf24 {	// not anonymous: its symbols are to be seen in the backtraces
using namespace ustl;

struct Warm { Warm (void) { strerror (99999); void* a[4]; ::backtrace (a, 4); } } s_warm;	// libc allocates on first use
//--- text of the specification ------------------------------------------------
struct Text { char* p; Text (void) : p (nullptr) {} };
char* dup (const char* s, size_t n) { char* p = (char*) arena (n + 1); memcpy (p, s, n); p[n] = 0; return p; }
char* dup (const char* s) { return dup (s, strlen (s)); }
[[gnu::format(printf,1,2)]] char* fmt (const char* f, ...)
{
    va_list a; va_start (a, f); int n = vsnprintf (nullptr, 0, f, a); va_end (a);
    char* p = (char*) arena (n + 1);
    va_start (a, f); vsnprintf (p, n + 1, f, a); va_end (a);
    return p;
}
size_t lenclass (size_t n) { return n < 2 ? n : n < 16 ? 2 : n < 255 ? 3 : n < 258 ? 4 : n < 4095 ? 5 : n < 4098 ? 6 : 7; }
char* text (size_t mx)
{
    static const char* const words [] = { "open", "%s", "%n%n", "100%", "no such thing", "\xD0\xB4\xD0\xB0", "a: b", "\n", "\\", "'", "/dev/null", "%1$s", "%%", " ", "\t" };
    size_t n;
    switch (R.below (10)) {
	case 0: n = 0; break; case 1: n = 1; break;
	case 2: n = 254 + R.below (5); break; case 3: n = 4094 + R.below (4); break; case 4: n = R.below (6000); break;
	default: n = R.below (40); break;
    }
    if (n > mx) n = R.below (mx + 1);
    char* p = (char*) arena (n + 16); size_t i = 0;
    while (i < n) {
	if (R.chance (1, 6)) { const char* w = words [R.below (15)]; size_t l = strlen (w); if (l > n - i) l = n - i; memcpy (p + i, w, l); i += l; }
	else p[i++] = "abcdefghijklmnopqrstuvwxyz_/.0123456789 "[R.below (39)];
    }
    p[n] = 0;
    return p;
}
// what a name that may be a mangled type name is to be shown as; long ones may be cut short
const char* pretty (const char* t)
{
#if !(HAVE_CXXABI_H && WANT_NAME_DEMANGLING)
    return t;	// not configured
#endif
    int f; char* d = __cxa_demangle (t, nullptr, nullptr, &f);
    const char* r = d ? dup (d) : t; free (d);
    return r;
}
char* type_name (void)
{
    static const char* const names [] = { "i", "j", "m", "d", "Pc", "PKc", "b", "St4pair", "N4ustl6stringE", "N4ustl6vectorIiEE", "N4ustl3mapINS_6stringEiEE", "ustl::string", "byte", "binary data", "/some/file.bin", "ustl::CBacktrace", "Q", "N4ustl6vectorINS_6vectorINS_6vectorINS_3mapINS_6stringES1_EEEEEEE" };
    switch (R.below (6)) {
	case 0: return text (6000);
	case 1: { // deep template instances, of long names
	    size_t d = R.below (30) + 1; char* p = (char*) arena (d * 40 + 40); char* q = p;
	    for (size_t i = 0; i < d; ++i) q += sprintf (q, "N4ustl%zu%.*sI", R.below (1) + 7, 7, "abcdefg");
	    *q++ = 'i'; for (size_t i = 0; i < d; ++i) { *q++ = 'E'; *q++ = 'E'; } *q = 0;
	    return p; }
	default: return dup (names [R.below (18)]);
    }
}
struct Spec {
    char *op, *arg, *file, *type; int err; u64 off, need, have, bytes;
    Spec (void) : op (text (300)), arg (text (6000)), file (text (6000)), type (type_name()), err (0), off (R.bits()), need (R.bits()), have (R.bits()), bytes (R.bits())
    { if (R.chance (1, 3)) op = text (6000); if (R.chance (1, 16)) *file = 0; err = R.chance (1, 4) ? int (R.range (-3, 300)) : int (R.below (134)); }
};
// Memory of the caller, gone as soon as the exception is made
struct Gone {
    char* p; size_t n;
    explicit Gone (const char* s) : n (strlen (s) + 1) { p = (char*) malloc (n); memcpy (p, s, n); }
    ~Gone (void) { memset (p, '#', n - 1); free (p); }
    operator const char* (void) const { return p; }
};

//--- making and expecting each type -----------------------------------------------
enum { K_exc, K_cast, K_typeid, K_alloc, K_em, K_logic, K_domain, K_invalid, K_length, K_range, K_runtime, K_rangee, K_over, K_under, K_sys, K_sysc, K_syss, K_sysi, K_sysis, K_file, K_bounds, K_N };
template <typename T> struct Tag {};
template <unsigned K> struct Of;
#define OF(k,T,nm,fm)	template <> struct Of<k> { typedef T E; static const char* nm_ (void) { return nm; } enum { fmt_ = fm }; static T* make (void* p, const Spec& s); };
OF(K_exc,ustl::exception,"error",0) OF(K_cast,ustl::bad_cast,"bad cast",0) OF(K_typeid,ustl::bad_typeid,"bad typeid",0) OF(K_alloc,ustl::bad_alloc,"memory allocation failed",1)
OF(K_em,error_message,"error",2) OF(K_logic,logic_error,"logic error",2) OF(K_domain,domain_error,"domain error",2) OF(K_invalid,invalid_argument,"invalid argument",2)
OF(K_length,length_error,"length error",2) OF(K_range,out_of_range,"out of range",2) OF(K_runtime,runtime_error,"runtime error",2) OF(K_rangee,range_error,"range error",2)
OF(K_over,overflow_error,"overflow error",2) OF(K_under,underflow_error,"underflow error",2) OF(K_sys,system_error,"system error",3) OF(K_sysc,system_error,"system error",3)
OF(K_syss,system_error,"system error",3) OF(K_sysi,system_error,"system error",3) OF(K_sysis,system_error,"system error",3) OF(K_file,file_exception,"file error",13) OF(K_bounds,stream_bounds_exception,"stream bounds exception",14)
Of<K_exc>::E* Of<K_exc>::make (void* p, const Spec&) { return new (p) E; }
Of<K_cast>::E* Of<K_cast>::make (void* p, const Spec&) { return new (p) E; }
Of<K_typeid>::E* Of<K_typeid>::make (void* p, const Spec&) { return new (p) E; }
Of<K_alloc>::E* Of<K_alloc>::make (void* p, const Spec& s) { return new (p) E (s.bytes); }
#define MK(k) Of<k>::E* Of<k>::make (void* p, const Spec& s) { Gone g (s.arg); return new (p) E (g); }
MK(K_em) MK(K_logic) MK(K_domain) MK(K_invalid) MK(K_length) MK(K_range) MK(K_runtime) MK(K_rangee) MK(K_over) MK(K_under)
Of<K_sys>::E* Of<K_sys>::make (void* p, const Spec& s) { Gone g (s.op); errno = s.err; return new (p) E (g); }
Of<K_sysc>::E* Of<K_sysc>::make (void* p, const Spec& s) { Gone g (s.op); errno = 77; return new (p) E (error_code (s.err, system_category()), (const char*) g); }
Of<K_syss>::E* Of<K_syss>::make (void* p, const Spec& s) { Gone g (s.op); errno = 77; string o; o.assign (g, strlen (g)); return new (p) E (error_code (s.err, system_category()), o); }
Of<K_sysi>::E* Of<K_sysi>::make (void* p, const Spec& s) { Gone g (s.op); errno = 77; return new (p) E (s.err, generic_category(), (const char*) g); }
Of<K_sysis>::E* Of<K_sysis>::make (void* p, const Spec& s) { Gone g (s.op); errno = 77; string o; o.assign (g, strlen (g)); return new (p) E (s.err, system_category(), o); }
Of<K_file>::E* Of<K_file>::make (void* p, const Spec& s) { Gone g (s.op), f (s.file); errno = s.err; return *s.file || s.bytes & 1 ? new (p) E (g, f) : new (p) E (g, nullptr); }
Of<K_bounds>::E* Of<K_bounds>::make (void* p, const Spec& s) { Gone g (s.op), t (s.type); errno = s.err; return new (p) E (g, t, s.off, s.need, s.have); }

const char* want_file (const Spec& s) { return strlen (s.file) < PATH_MAX ? s.file : dup (s.file, PATH_MAX - 1); }
// Texts a bounds exception may show: names over 255 characters can not be demangled or shown whole
struct Want { Arr<const char*> t; };
bool same_type_text (const char* got, size_t gn, const Spec& s, const char* rest)
{
    const size_t rn = strlen (rest);
    if (gn < rn || memcmp (got + gn - rn, rest, rn)) return false;
    const size_t tn = gn - rn; const char* pt = pretty (s.type); const size_t pn = strlen (pt), mn = strlen (s.type);
    if (mn <= 255 && pn <= 255) return tn == pn && !memcmp (got, pt, pn);
    return (tn >= 200 && tn <= pn && !memcmp (got, pt, tn)) || (tn >= 200 && tn <= mn && !memcmp (got, s.type, tn));
}
const char* str (string& s) { return s.c_str(); }
#define TXT(got,want,key,...) do { const char* g_ = (got); const char* w_ = (want); ops(); if (strcmp (g_, w_)) fail (key, __VA_ARGS__); } while (0)

void check_text (const char* nm, const string& got, const Spec& s, unsigned kind, const char* fm, const char* how)
{
    const char* w = nullptr; const char* em = strerror (s.err);
    ops();
    VC (got.size() == strlen (got.c_str()), "info", "%s: %s text has %zu characters with a NUL at %zu", nm, how, size_t (got.size()), strlen (got.c_str()));
    switch (kind) {
	case 0: w = fm ? fmt (fm, nm) : nm; break;
	case 1: w = fmt (fm ? fm : "failed to allocate %zu bytes", size_t (s.bytes)); break;
	case 2: w = fmt (fm ? fm : "%s: %s", nm, s.arg); break;
	case 3: w = fmt (fm ? fm : "%s: %s", s.op, em); break;
	case 13: w = fmt (fm ? fm : "%s %s: %s", s.op, want_file (s), em); break;
	case 14: {
	    const char* rest = fm ? fmt (fm + 2, s.op, size_t (s.off), size_t (s.need), size_t (s.have)) : fmt (" stream %s: @0x%zX: need %zu bytes, have %zu", s.op, size_t (s.off), size_t (s.need), size_t (s.have));
	    VC (same_type_text (got.c_str(), got.size(), s, rest), "info", "%s: %s text of type '%.80s' op '%.80s' at %zX need %zu have %zu is '%.200s'", nm, how, s.type, s.op, size_t (s.off), size_t (s.need), size_t (s.have), got.c_str());
	    return; }
    }
    VC (got.size() == strlen (w) && !memcmp (got.c_str(), w, got.size()), "info", "%s: %s text is '%.200s' (%zu), should be '%.200s' (%zu)", nm, how, got.c_str(), size_t (got.size()), w, strlen (w));
}
// through the base class, as a handler has it
[[gnu::noinline]] void check_base (const ustl::exception& e, const char* nm, unsigned kind, unsigned ff, const Spec& s)
{
    static const char* const fmts [15] = { "<%s>", "%zu bytes!", "[%2$s] %1$s", "(%s|%s)", 0, 0, 0, 0, 0, 0, 0, 0, 0, "%3$s;%2$s;%1$s", "%s/%s/%zx/%zu/%zu" };
    TXT (e.what(), kind == 2 ? s.arg : nm, "what", "what() of %s is '%.100s'", nm, e.what());
    VC (e.format() == ff, "format", "%s has format %u", nm, e.format());
    string m;
    switch (R.below (4)) { case 0: break; case 1: m = "old text that is there"; break; case 2: m.relink ("linked", 6); break; default: m.resize (R.below (5000)); break; }
    e.info (m); check_text (nm, m, s, kind, nullptr, "default");
    e.info (m, fmts [kind]); check_text (nm, m, s, kind, fmts [kind], "formatted");
    char pre[8] = "<"; ostringstream os; os << pre; e.text_write (os); os << ">"; const string& o = os.str();
    VC (o.size() >= 2 && o[0] == '<' && o[o.size()-1] == '>', "text_write", "%s wrote '%.100s'", nm, o.c_str());
    string mid; mid.assign (o.c_str() + 1, o.size() - 2); check_text (nm, mid, s, kind, nullptr, "text_write");
    ostringstream o2; o2 << e; check_text (nm, o2.str(), s, kind, nullptr, "<<");
}
void own (const ustl::exception&, const char*, const Spec&) {}
void own (const error_message& e, const char* nm, const Spec&) { TXT (e.name(), nm, "name", "name() of %s is %s", nm, e.name()); }
void own (const system_error& e, const char* nm, const Spec& s)
{
    TXT (e.Operation(), s.op, "operation", "%s has operation '%.100s' instead of '%.100s'", nm, e.Operation(), s.op);
    TXT (e.name(), s.op, "operation", "%s has name '%.100s' instead of '%.100s'", nm, e.name(), s.op);
    VC (e.Errno() == s.err, "errno", "%s has errno %d instead of %d", nm, e.Errno(), s.err);
    VC (e.code().value() == s.err && e.code() == error_code (s.err, system_category()), "errno", "%s has code %d instead of %d", nm, e.code().value(), s.err);
}
void own (const file_exception& e, const char* nm, const Spec& s) { own (static_cast<const system_error&> (e), nm, s); TXT (e.Filename(), want_file (s), "filename", "%s has file name '%.100s' instead of '%.100s'", nm, e.Filename(), s.file); }
void own (const stream_bounds_exception& e, const char* nm, const Spec& s)
{
    own (static_cast<const system_error&> (e), nm, s);
    TXT (e.TypeName(), s.type, "typename", "%s has type '%.100s' instead of '%.100s'", nm, e.TypeName(), s.type);
    VC (e.Offset() == s.off && e.Expected() == s.need && e.Remaining() == s.have, "bounds", "%s has %zu %zu %zu instead of %zu %zu %zu", nm, e.Offset(), e.Expected(), e.Remaining(), size_t (s.off), size_t (s.need), size_t (s.have));
}
template <unsigned K> struct Kind { enum { v = Of<K>::fmt_ }; };
template <unsigned K> [[gnu::noinline]] void check (const typename Of<K>::E& e, const Spec& s)
{
    const ustl::exception& b = e;
    check_base (b, Of<K>::nm_(), Of<K>::fmt_, Of<K>::fmt_, s);
    own (e, Of<K>::nm_(), s);
}
string bttext (const CBacktrace& b) { ostringstream os; b.text_write (os); return os.str(); }
const char* keep (const string& s) { return dup (s.c_str(), s.size()); }

template <unsigned K> struct Dyn {	// an exception in memory of its own that can be taken away
    typedef typename Of<K>::E E; void* m; E* e;
    explicit Dyn (const Spec& s) : m (malloc (sizeof(E))), e (Of<K>::make (m, s)) {}
    explicit Dyn (const E& o) : m (malloc (sizeof(E))), e (new (m) E (o)) {}
    void gone (void) { if (!m) return; e->~E(); memset (m, 0xDB, sizeof(E)); free (m); m = nullptr; e = nullptr; }
    ~Dyn (void) { gone(); }
};
// Writes e into exactly as much memory as it says it needs
template <typename E> char* put (const E& e, size_t& n, const char* nm)
{
    n = e.stream_size();
    VC (n % 8 == 0 || true, "size", "-");
    char* a = (char*) arena (n + 16); a = (char*) ((uintptr_t (a) + 7) / 8 * 8);
    const size_t cap = (n + 7) / 8 * 8; char* b = (char*) guard_alloc (cap);
    memset (b, 0xAA, cap);
    { ostream os (b, n); os << e; VC (os.good() && os.pos() == n, "size", "%s wrote %zu bytes, says %zu", nm, size_t (os.pos()), n); }
    memcpy (a, b, n); guard_free (b, cap);
    return a;
}
template <typename E> void get (E& e, const char* p, size_t n, const char* nm)
{
    const size_t cap = (n + 7) / 8 * 8; char* b = (char*) guard_alloc (cap); memcpy (b, p, n);
    { istream is (b, n); is >> e; VC (is.good() && !is.remaining(), "read", "%s read %zu of %zu bytes, state %x", nm, size_t (is.pos()), n, is.rdstate()); }
    memset (b, 0xDB, cap); guard_free (b, cap);
}
template <unsigned K> [[gnu::noinline]] void life (void)
{
    typedef typename Of<K>::E E; const char* nm = Of<K>::nm_();
    Spec a, b; Dyn<K> x (a), y (b);
    trace ("%s: op '%.60s' (%zu) arg %zu file %zu type '%.60s' (%zu) errno %d %zu/%zu/%zu bytes %zu", nm, a.op, strlen (a.op), strlen (a.arg), strlen (a.file), a.type, strlen (a.type), a.err, size_t (a.off), size_t (a.need), size_t (a.have), size_t (a.bytes));
    sig (hmix (K, hmix (lenclass (strlen (a.op)), hmix (lenclass (strlen (a.arg)), hmix (lenclass (strlen (a.file)), lenclass (strlen (a.type)))))));
    check<K> (*x.e, a); check<K> (*y.e, b);
    const char* bx = keep (bttext (x.e->backtrace())); const char* by = keep (bttext (y.e->backtrace()));
    // copies
    Dyn<K> c (*x.e), d (b);
    check<K> (*c.e, a); check<K> (*x.e, a);
    *d.e = *x.e; check<K> (*d.e, a);
    TXT (keep (bttext (c.e->backtrace())), bx, "copy-backtrace", "%s: copied backtrace differs:\n%s\n%s", nm, keep (bttext (c.e->backtrace())), bx);
    TXT (keep (bttext (d.e->backtrace())), bx, "copy-backtrace", "%s: assigned backtrace differs:\n%s\n%s", nm, keep (bttext (d.e->backtrace())), bx);
    E& self = *d.e; *d.e = self; check<K> (*d.e, a);
    TXT (keep (bttext (d.e->backtrace())), bx, "self-assign", "%s: backtrace changed by self assignment", nm);
    // round trip
    size_t n; char* w = put (*x.e, n, nm);
    uint32_t f, sz; memcpy (&f, w, 4); memcpy (&sz, w + 4, 4);
    VC (f == Of<K>::fmt_ && sz == n - 8, "chunk", "%s writes a chunk of format %u and size %u for %zu bytes", nm, f, sz, n);
    Dyn<K> r (b); get (*r.e, w, n, nm);
    check<K> (*r.e, a); TXT (keep (bttext (r.e->backtrace())), bx, "read-backtrace", "%s: backtrace read differs:\n%s\n%s", nm, keep (bttext (r.e->backtrace())), bx);
    size_t n2; char* w2 = put (*r.e, n2, nm); VC (n2 == n && !memcmp (w, w2, n), "rewrite", "%s: written, read and written is %zu bytes instead of %zu or differs", nm, n2, n);
    { size_t n3; char* w3 = put (*c.e, n3, nm); VC (n3 == n && !memcmp (w, w3, n), "rewrite", "%s: copied and written is %zu bytes instead of %zu or differs", nm, n3, n);
      w3 = put (*d.e, n3, nm); VC (n3 == n && !memcmp (w, w3, n), "rewrite", "%s: assigned and written is %zu bytes instead of %zu or differs", nm, n3, n); }
    // independence
    switch (R.below (3)) {
	case 0: x.gone(); break;
	case 1: *x.e = *y.e; check<K> (*x.e, b); TXT (keep (bttext (x.e->backtrace())), by, "copy-backtrace", "%s: assigned backtrace differs", nm); break;
	case 2: { size_t m; char* v = put (*y.e, m, nm); get (*x.e, v, m, nm); check<K> (*x.e, b); break; }
    }
    check<K> (*c.e, a); check<K> (*d.e, a); check<K> (*r.e, a);
    TXT (keep (bttext (c.e->backtrace())), bx, "copy-backtrace", "%s: backtrace of a copy changed", nm);
    TXT (keep (bttext (d.e->backtrace())), bx, "copy-backtrace", "%s: backtrace of a copy changed", nm);
    TXT (keep (bttext (r.e->backtrace())), bx, "copy-backtrace", "%s: backtrace of a copy changed", nm);
    c.gone(); check<K> (*d.e, a); d.gone(); check<K> (*r.e, a); check<K> (*y.e, b);
}
// thrown through frames whose locals are gone when it is caught, caught by a base
template <unsigned K> [[gnu::noinline]] void toss (const Spec& s, unsigned depth)
{
    char local [64]; memset (local, 'L', sizeof(local)); asm volatile ("" : : "r"(local) : "memory");
    if (depth) { toss<K> (s, depth - 1); asm volatile (""); return; }
    alignas(16) static char m [sizeof(typename Of<K>::E)];
    typename Of<K>::E* e = Of<K>::make (m, s);
    struct D { typename Of<K>::E* e; ~D (void) { typedef typename Of<K>::E E; e->~E(); memset ((void*) e, 0xDB, sizeof(E)); } } d = { e };
    throw *e;
}
template <unsigned K> [[gnu::noinline]] void thrown (void)
{
    typedef typename Of<K>::E E; Spec s; unsigned depth = R.below (80); bool rethrow = R.chance (1, 2), got = false;
    trace ("throw %s at depth %u", Of<K>::nm_(), depth);
    try {
	try { toss<K> (s, depth); }
	catch (ustl::exception& e) { if (!rethrow) { check_base (e, Of<K>::nm_(), Of<K>::fmt_, Of<K>::fmt_, s); got = true; } else throw; }
    } catch (E& e) { check<K> (e, s); got = true; }
    VC (got, "throw", "%s was not caught", Of<K>::nm_());
    sig (hmix (1000 + K, depth / 20));
}
typedef void (*fn_t)(void);
#define ROW(f) static const fn_t f##s [K_N] = { f<0>, f<1>, f<2>, f<3>, f<4>, f<5>, f<6>, f<7>, f<8>, f<9>, f<10>, f<11>, f<12>, f<13>, f<14>, f<15>, f<16>, f<17>, f<18>, f<19>, f<20> };
ROW(life) ROW(thrown)

//--- backtraces -------------------------------------------------------------------------
// what backtrace and backtrace_symbols of libc give for the same frames
struct Ref { void* a [80]; int n; };
struct BtDone { CBacktrace* b; Ref r; };
[[gnu::noinline]] void here (BtDone& o) { Ref& r = o.r; r.n = ::backtrace (r.a, 80); o.b = new (o.b) CBacktrace; asm volatile ("" : : "r"(&o) : "memory"); }
template <unsigned N> struct a_rather_long_template_name_that_makes_the_symbols_of_this_frame_exceed_what_fits {};
typedef void (*desc_t)(unsigned, u64, BtDone&);
void step (unsigned d, u64 r, BtDone& o);
[[gnu::noinline]] void plain (unsigned d, u64 r, BtDone& o) { step (d, r, o); asm volatile (""); }
template <typename T, typename U> [[gnu::noinline]] void mid (unsigned d, u64 r, BtDone& o) { step (d, r, o); asm volatile (""); }
typedef a_rather_long_template_name_that_makes_the_symbols_of_this_frame_exceed_what_fits<1> L1;
typedef a_rather_long_template_name_that_makes_the_symbols_of_this_frame_exceed_what_fits<2> L2;
template <unsigned N> struct another_template_that_has_a_long_name_so_that_the_mangled_form_can_not_refer_back_to_the_first {};
template <unsigned N> struct yet_one_more_of_these_templates_with_the_sole_purpose_of_having_a_long_name_of_its_own_for_this {};
typedef another_template_that_has_a_long_name_so_that_the_mangled_form_can_not_refer_back_to_the_first<3> L3;
typedef yet_one_more_of_these_templates_with_the_sole_purpose_of_having_a_long_name_of_its_own_for_this<4> L4;
template <typename A, typename B, typename C, typename D> struct four {};
template <typename T> [[gnu::noinline]] void longone (unsigned d, u64 r, BtDone& o, T* = nullptr) { step (d, r, o); asm volatile (""); }
[[gnu::noinline]] void s_local (unsigned d, u64 r, BtDone& o) __attribute__((visibility("hidden")));
void s_local (unsigned d, u64 r, BtDone& o) { step (d, r, o); asm volatile (""); }
void step (unsigned d, u64 r, BtDone& o)
{
    if (!d) { here (o); asm volatile (""); return; }
    switch (r % 8) {
	case 0: case 1: plain (d - 1, mix (r), o); break;
	case 2: mid<string,vector<int>> (d - 1, mix (r), o); break;
	case 3: longone<L1> (d - 1, mix (r), o); break;
	case 4: longone<four<L1,L2,vector<L1>,four<L2,L1,L2,string>>> (d - 1, mix (r), o); break;
	case 6: longone<four<L1,L3,L4,L2>> (d - 1, mix (r), o); break;
	case 7: longone<four<L1,L3,L2,int>> (d - 1, mix (r), o); break;
	case 5: s_local (d - 1, mix (r), o); break;
    }
    asm volatile ("");
}
const char* ref_symbol (const char* s, bool& cut)	// name in "file(name+0x1) [0x2]", readable
{
    const char* b = strchr (s, '('); b = b ? b + 1 : s;
    const char* e = strchr (b, '+'); if (!e) e = s + strlen (s);
    char* m = dup (b, e - b); const char* p = pretty (m);
    cut = strlen (m) >= 250 || strlen (p) >= 250;
    return p;
}
void check_bt (const char* what, const char* got, const Ref& r)
{
    struct L { void* a; const char* s; size_t n; }; Arr<L> l; l.n = 0;
    for (const char *p = got, *e; *p; p = e + 1) {
	e = strchr (p, '\n'); VC (e, "backtrace", "%s: last line is not terminated: %.100s", what, p);
	char* q; void* a = (void*) strtoull (p, &q, 16);
	VC (q > p && q[0] == ' ' && q[1] == ' ', "backtrace", "%s: line '%.100s' has no address", what, p);
	L x = { a, q + 2, size_t (e - q - 2) }; l.push (x); ops();
    }
    // r was taken in the caller of the constructor: after the innermost few, the frames are the same
    size_t i0 = ~size_t(0), j0 = 0;
    for (size_t sum = 0; sum < 8 && i0 == ~size_t(0); ++sum) for (size_t i = 0; i <= sum && i0 == ~size_t(0); ++i) {
	size_t j = sum - i, k = 0; if (i > 4 || j > 4 || l.n < i || size_t (r.n) - j < l.n - i) continue;
	while (k < l.n - i && l[i+k].a == r.a[j+k]) ++k;
	if (k && k == l.n - i) { i0 = i; j0 = j; }
    }
    VC (i0 < 5, "backtrace", "%s: the %zu frames are not those of the caller: %p %p %p instead of %p %p %p", what, l.n, l.n > 1 ? l[1].a : 0, l.n > 2 ? l[2].a : 0, l.n > 3 ? l[3].a : 0, r.a[1], r.a[2], r.a[3]);
    char** sy = backtrace_symbols (r.a, r.n);
    for (size_t i = i0, j = j0; i < l.n; ++i, ++j) {
	VC (j < size_t (r.n), "backtrace", "%s: more frames than there are", what);
	VC (l[i].a == r.a[j], "backtrace", "%s: frame %zu is %p instead of %p", what, i, l[i].a, r.a[j]);
	bool cut; const char* w = ref_symbol (sy[j], cut); const size_t wl = strlen (w);
	if (!cut) VC (l[i].n == wl && !memcmp (l[i].s, w, wl), "backtrace", "%s: frame %zu is shown as '%.*s' instead of '%s'", what, i, int (l[i].n), l[i].s, w);
	else VC (l[i].n >= 200 && l[i].n <= 256, "backtrace", "%s: frame %zu of a long name is shown as '%.*s'", what, i, int (l[i].n), l[i].s);
    }
    free (sy);
    const size_t want = size_t (r.n) - j0 + i0 < 64 ? size_t (r.n) - j0 + i0 : 64;
    VC (l.n == want, "backtrace", "%s: %zu frames instead of %zu", what, l.n, want);
}
void bt_run (void)
{
    alignas(16) char m [sizeof(CBacktrace)]; BtDone o; o.b = (CBacktrace*) m;
    const unsigned depth = R.chance (1, 4) ? R.below (120) : R.below (25); const u64 r = R.next();
    trace ("backtrace at depth %u of path %llx", depth, (unsigned long long) r);
    step (depth, r, o);
    CBacktrace& b = *o.b; const char* t = keep (bttext (b));
    check_bt ("made", t, o.r);
    sig (hmix (depth, r % 6));
    size_t n; char* w = put (b, n, "CBacktrace");
    CBacktrace c (b), d; TXT (keep (bttext (c)), t, "copy-backtrace", "copy of a backtrace differs");
    d = b; TXT (keep (bttext (d)), t, "copy-backtrace", "assigned backtrace differs");
    CBacktrace& sf = d; d = sf; TXT (keep (bttext (d)), t, "self-assign", "backtrace differs after self assignment");
    CBacktrace e; get (e, w, n, "CBacktrace"); TXT (keep (bttext (e)), t, "read-backtrace", "backtrace read differs:\n%s\n%s", keep (bttext (e)), t);
    get (e, w, n, "CBacktrace"); size_t n2; char* w2 = put (e, n2, "CBacktrace"); VC (n == n2 && !memcmp (w, w2, n), "rewrite", "backtrace read and written again differs");
    w2 = put (c, n2, "CBacktrace"); VC (n == n2 && !memcmp (w, w2, n), "rewrite", "backtrace copied and written differs");
    w2 = put (d, n2, "CBacktrace"); VC (n == n2 && !memcmp (w, w2, n), "rewrite", "backtrace assigned and written differs");
    VC (n % 8 == 0, "size", "backtrace has stream size %zu", n);
    const CBacktrace* rr = &(d = c); VC (rr == &d, "assign", "assignment does not return the object");
    b.~CBacktrace(); memset (m, 0xDB, sizeof(m));
    TXT (keep (bttext (c)), t, "copy-backtrace", "copy changed with the original"); TXT (keep (bttext (d)), t, "copy-backtrace", "assigned changed with the original"); TXT (keep (bttext (e)), t, "copy-backtrace", "read one changed");
    ostringstream os; os << "["; os << c; os << "]"; TXT (os.str().c_str(), fmt ("[%s]", t), "text", "<< of a backtrace is %.100s", os.str().c_str());
}

//--- real failures --------------------------------------------------------------------
void expect_file (const file_exception& e, const char* op, const char* file, int err)
{
    ops();
    VC (!strcmp (e.Operation(), op) && !strcmp (e.Filename(), file) && e.Errno() == err, "cause", "%s of %s failing with %d (%s) gave %s of %s with %d", op, file, err, strerror (err), e.Operation(), e.Filename(), e.Errno());
    string s; e.info (s); const char* w = fmt ("%s %s: %s", op, file, strerror (err)); TXT (s.c_str(), w, "cause", "text '%s' instead of '%s'", s.c_str(), w);
    sig (hmix (2000 + err, hbytes (op, strlen (op))));
}
void expect_bounds (const stream_bounds_exception& e, const char* op, const char* type, u64 off, u64 need, u64 have)
{
    ops();
    string s; e.info (s); const char* w = fmt ("%s stream %s: @0x%llX: need %llu bytes, have %llu", type, op, (unsigned long long) off, (unsigned long long) need, (unsigned long long) have);
    TXT (s.c_str(), w, "cause", "text '%s' instead of '%s'", s.c_str(), w);
    VC (!strcmp (e.Operation(), op) && e.Offset() == off && e.Expected() == need && e.Remaining() == have, "cause", "fields %s %zu %zu %zu instead of %s %zu %zu %zu", e.Operation(), e.Offset(), e.Expected(), e.Remaining(), op, size_t (off), size_t (need), size_t (have));
    sig (hmix (3000, hmix (hbytes (w, strlen (type)), need > have ? need - have < 16 : 99)));
}
#define FILE_FAIL(op,file,err,...) do { bool th_ = false; try { __VA_ARGS__; } catch (file_exception& e) { th_ = true; expect_file (e, op, file, err); } VC (th_, "cause", "%s of %s does not fail", op, file); } while (0)
struct Cwd { int fd; char d [200]; Cwd (void) { snprintf (d, sizeof(d), "%s/c24_%u", g_scratch, unsigned (getpid())); mkdir (d, 0755); } char* at (const char* n) { return fmt ("%s/%s", d, n); } };
void file_run (void)
{
    Cwd c; char* longp; { char b [5000]; size_t n = 4100 + R.below (800); memset (b, 'x', n); b[n] = 0; longp = fmt ("%s/%s", c.d, b); }
    char nmb [80]; { size_t n = R.below (60) + 1; for (size_t i = 0; i < n; ++i) nmb[i] = "abcXYZ%_-., "[R.below (12)]; nmb[n] = 0; if (!strcmp (nmb, ".") || !strcmp (nmb, "..")) strcpy (nmb, "f"); }
    char* f = c.at (nmb); unlink (f);
    const unsigned k = R.below (18); trace ("file failure %u of %s", k, f);
    switch (k) {
	case 0: { fstream o; o.exceptions (fstream::allbadbits); errno = EPERM; FILE_FAIL ("open", f, ENOENT, o.open (f, ios_base::in)); break; }
	case 1: { fstream o; o.exceptions (fstream::allbadbits); FILE_FAIL ("open", c.d, EISDIR, o.open (c.d, ios_base::in | ios_base::out)); break; }
	case 2: { fstream o; o.exceptions (fstream::allbadbits); char* p = fmt ("%s/x", f); close (creat (f, 0644)); FILE_FAIL ("open", p, ENOTDIR, o.open (p, ios_base::in)); break; }
	case 3: { bool th = false; try { fstream o; o.exceptions (fstream::allbadbits); o.open (longp, ios_base::in); } catch (file_exception& e) { th = true; VC (e.Errno() == ENAMETOOLONG && strlen (e.Filename()) == PATH_MAX - 1 && !memcmp (e.Filename(), longp, PATH_MAX - 1), "cause", "overlong name gives %d, a name of %zu", e.Errno(), strlen (e.Filename())); string s; e.info (s); VC (!strcmp (s.c_str(), fmt ("open %.*s: %s", PATH_MAX - 1, longp, strerror (ENAMETOOLONG))), "cause", "overlong name gives %.100s", s.c_str()); } VC (th, "cause", "opened"); break; }
	case 4: FILE_FAIL ("read", f, EBADF, { fstream o (f, ios_base::out); o.exceptions (fstream::allbadbits); char b [8]; o.read (b, 8); }); break;
	case 5: close (creat (f, 0644)); FILE_FAIL ("write", f, EBADF, { fstream o (f, ios_base::in); o.exceptions (fstream::allbadbits); o.write ("abcd", 4); }); break;
	case 6: { int p [2]; if (pipe (p)) break; FILE_FAIL ("seek", "apipe", ESPIPE, { fstream o; o.attach (p[0], "apipe"); o.exceptions (fstream::allbadbits); o.seek (5); }); close (p[1]); break; }
	case 7: { close (creat (f, 0644)); FILE_FAIL ("close", f, EBADF, { fstream o (f, ios_base::in); o.exceptions (fstream::allbadbits); close (o.fd()); o.close(); }); break; }
	case 8: { close (creat (f, 0644)); const int spare = ::dup (2); if (spare < 0) break; FILE_FAIL ("stat", f, EBADF, { fstream o (f, ios_base::in); int fd = o.fd(); dup2 (fd, spare); close (fd); struct stat st; try { o.stat (st); } catch (...) { dup2 (spare, fd); close (spare); throw; } }); break; }
	case 9: { int p [2]; if (pipe (p)) break; FILE_FAIL ("sync", "pipe x", EINVAL, { fstream o; o.attach (p[1], "pipe x"); o.exceptions (fstream::allbadbits); o.sync(); }); close (p[0]); break; }
	case 10: FILE_FAIL ("ioctl name", f, ENOTTY, { fstream o (f, ios_base::out); o.exceptions (fstream::allbadbits); Gone g ("ioctl name"); o.ioctl (g, 0x5401, 0L); }); break;
	case 11: FILE_FAIL ("a fcntl", f, EINVAL, { fstream o (f, ios_base::out); o.exceptions (fstream::allbadbits); Gone g ("a fcntl"); o.fcntl (g, 123456, 0L); }); break;
	case 12: FILE_FAIL ("mmap", f, EACCES, { fstream o (f, ios_base::out); o.exceptions (fstream::allbadbits); o.mmap (100, 0); }); break;
	case 13: FILE_FAIL ("write", "/dev/full", ENOSPC, { ofstream o ("/dev/full", ios_base::out); o.exceptions (ios_base::allbadbits); o << "text that does not fit"; try { o.flush(); } catch (...) { throw; } }); break;
	case 14: { // end of file, and the stream is gone when it is caught
	    { int fd = creat (f, 0644); if (write (fd, "abcdef", 6) != 6) break; close (fd); } const unsigned rd = R.below (6) + 1; bool th = false;
	    try { fstream o (f, ios_base::in); o.exceptions (fstream::allbadbits); char b [64]; o.read (b, rd); o.read (b, 40); } catch (stream_bounds_exception& e) { th = true; VC (!strcmp (e.TypeName(), f), "cause", "bounds exception of file %s names %s", f, e.TypeName()); expect_bounds (e, "read", f, 6, 40 - (6 - rd), 0); }
	    VC (th, "cause", "reading %s past the end throws nothing", f);
	    break; }
	case 16: FILE_FAIL ("munmap", f, EINVAL, { fstream o (f, ios_base::out); o.exceptions (fstream::allbadbits); memlink l ((void*) 4097, 100); o.munmap (l); }); break;
	case 17: FILE_FAIL ("msync", f, EINVAL, { fstream o (f, ios_base::out); o.exceptions (fstream::allbadbits); memlink l ((void*) 4097, 100); o.msync (l); }); break;
	case 15: { bool th = false; try { string s; s.read_file (f); } catch (file_exception& e) { th = true; expect_file (e, "open", f, ENOENT); } VC (th, "cause", "read_file of a missing file"); break; }
    }
    unlink (f); rmdir (c.d);
}
template <typename T> void rd (istream& is) { T v; is >> v; }
template <typename T> void wr (ostream& os) { T v = T(); os << v; }
void stream_run (void)
{
    const size_t n = R.below (60); char* b = (char*) guard_alloc (64); memset (b, 'a', 64);	// b+64-n is the end at the guard
    const size_t al = n / 8 * 8, pos = R.below (al / 8 + 1) * 8; const bool out = R.chance (1, 2);
    istream is (b + 64 - 64, n); ostream os (b, n); is.exceptions (ios_base::allbadbits); os.exceptions (ios_base::allbadbits);
    is.skip (pos); os.skip (pos); const size_t have = n - pos;
    const unsigned k = R.below (12); const u64 big = have + 1 + R.bits() % (u64 (1) << 40);
    bool th = false; const char* op = out ? "write" : "read"; const char* type = "?"; u64 need = 0, off = pos, h = have; bool doit = true;
    trace ("%s %u at %zu of %zu", op, k, pos, n);
    try {
	#define NUM(T) type = pretty (typeid(T).name()); need = sizeof(T); if (have >= need) { doit = false; break; } if (out) wr<T> (os); else rd<T> (is); break;
	switch (k) {
	    case 0: NUM(int) case 1: NUM(double) case 2: NUM(uint16_t) case 3: NUM(u64)
	    case 4: { char buf [80]; type = "binary data"; need = have + 1 + R.below (16); if (out) os.write (buf, need); else is.read (buf, need); break; }
	    case 5: type = "anything %s"; need = big; if (out) os.verify_remaining ("write", type, need); else is.verify_remaining ("read", type, need); break;
	    case 6: if (out) { op = "seekp"; type = "byte"; off = n + 1 + R.below (50); need = pos; h = n; swap (off, need); os.seek (need); } else { op = "seekg"; type = "byte"; need = n + 1 + R.below (50); h = n; is.seek (need); } break;
	    case 7: { if (out) { type = "ustl::string"; string s (R.below (20) + size_t (have), 'x'); need = s.stream_size(); os << s; break; } if (!have) { doit = false; break; } type = "ustl::string"; unsigned char l = 60 + R.below (60); memset (b, l, 64); is >> *(char*) arena (8); off = pos; is.seek (pos); string s; off = pos + 1; need = l; h = have - 1; is >> s; break; }
	    case 8: { if (out) { string s (size_t (have), 'y'); type = "binary data"; need = have + 1; os.write_strz (s.c_str()); break; } type = "string"; need = have + 1; string s; is.read_strz (s); break; }
	    case 9: if (have < 1 || out) { doit = false; break; } type = "byte"; need = have + 1 + R.below (9); { char buf [80]; is.readsome (buf, need); } break;
	    case 10: if (out || !pos) { doit = false; break; } op = "seekg"; type = "byte"; need = (n / 8 + 2) * 8 + R.below (50); h = n; is.seekg (need); break;
	    case 11: if (out) { doit = false; break; } op = "seekg"; type = "byte"; need = pos + have + 1 + R.below (9); h = n; is.skip (have + (need - pos - have)); doit = false; th = true; break;
	}
    } catch (stream_bounds_exception& e) { th = true; if (doit) expect_bounds (e, op, type, off, need, h); }
    VC (th || !doit, "cause", "%s of %s at %zu of %zu throws nothing", op, type, pos, n);
    guard_free (b, 64);
}
void alloc_run (void)
{
    static const char* const nm [] = { "memblock", "vector<int>", "string", "cmemlink" };
    size_t n = (size_t (1) << (46 + R.below (16))) + R.below (100000); const unsigned k = R.below (3); bool th = false; string s;
    trace ("%s of %zu", nm[k], n);
    try { switch (k) { case 0: { memblock b; b.resize (n); break; } case 1: { vector<int> v; v.reserve (n /= 4); break; } case 2: { string t; t.resize (n); break; } } }
    catch (std::bad_alloc& e) {
	th = true; dynamic_cast<ustl::exception&> (static_cast<ustl::exception&> (e)).info (s); unsigned long long v = 0; int l = 0;
	const size_t w = k == 1 ? n * 4 : n;
	VC (sscanf (s.c_str(), "failed to allocate %llu bytes%n", &v, &l) == 1 && size_t (l) == s.size() && v >= w && v <= w * 2 + 4096, "cause", "allocating %zu bytes fails with '%s'", w, s.c_str());
    }
    VC (th, "cause", "%s of %zu made", nm[k], n); sig (hmix (4000 + k, 64 - __builtin_clzll (n)));
}

//--- error codes -----------------------------------------------------------------------
struct EC { errc e; int v; };
#define EE(a,b) { errc::a, b }
static const EC s_errc [] = {
    EE(address_family_not_supported,EAFNOSUPPORT), EE(address_in_use,EADDRINUSE), EE(address_not_available,EADDRNOTAVAIL), EE(already_connected,EISCONN), EE(argument_list_too_long,E2BIG), EE(argument_out_of_domain,EDOM), EE(bad_address,EFAULT),
    EE(bad_file_descriptor,EBADF), EE(bad_message,EBADMSG), EE(broken_pipe,EPIPE), EE(connection_aborted,ECONNABORTED), EE(connection_already_in_progress,EALREADY), EE(connection_refused,ECONNREFUSED), EE(connection_reset,ECONNRESET), EE(cross_device_link,EXDEV),
    EE(destination_address_required,EDESTADDRREQ), EE(device_or_resource_busy,EBUSY), EE(directory_not_empty,ENOTEMPTY), EE(executable_format_error,ENOEXEC), EE(file_exists,EEXIST), EE(file_too_large,EFBIG), EE(filename_too_long,ENAMETOOLONG), EE(function_not_supported,ENOSYS),
    EE(host_unreachable,EHOSTUNREACH), EE(identifier_removed,EIDRM), EE(illegal_byte_sequence,EILSEQ), EE(inappropriate_io_control_operation,ENOTTY), EE(interrupted,EINTR), EE(invalid_argument,EINVAL), EE(invalid_seek,ESPIPE), EE(io_error,EIO), EE(is_a_directory,EISDIR),
    EE(message_size,EMSGSIZE), EE(network_down,ENETDOWN), EE(network_reset,ENETRESET), EE(network_unreachable,ENETUNREACH), EE(no_buffer_space,ENOBUFS), EE(no_child_process,ECHILD), EE(no_link,ENOLINK), EE(no_lock_available,ENOLCK), EE(no_message_available,ENODATA), EE(no_message,ENOMSG),
    EE(no_protocol_option,ENOPROTOOPT), EE(no_space_on_device,ENOSPC), EE(no_stream_resources,ENOSR), EE(no_such_device_or_address,ENXIO), EE(no_such_device,ENODEV), EE(no_such_file_or_directory,ENOENT), EE(no_such_process,ESRCH), EE(not_a_directory,ENOTDIR), EE(not_a_socket,ENOTSOCK),
    EE(not_a_stream,ENOSTR), EE(not_connected,ENOTCONN), EE(not_enough_memory,ENOMEM), EE(operation_canceled,ECANCELED), EE(operation_in_progress,EINPROGRESS), EE(operation_not_permitted,EPERM), EE(operation_not_supported,EOPNOTSUPP),
    EE(operation_would_block,EWOULDBLOCK), EE(owner_dead,EOWNERDEAD), EE(permission_denied,EACCES), EE(protocol_error,EPROTO), EE(protocol_not_supported,EPROTONOSUPPORT), EE(read_only_file_system,EROFS), EE(resource_deadlock_would_occur,EDEADLK), EE(resource_unavailable_try_again,EAGAIN),
    EE(result_out_of_range,ERANGE), EE(state_not_recoverable,ENOTRECOVERABLE), EE(stream_timeout,ETIME), EE(text_file_busy,ETXTBSY), EE(timed_out,ETIMEDOUT), EE(too_many_files_open_in_system,ENFILE), EE(too_many_files_open,EMFILE), EE(too_many_links,EMLINK), EE(too_many_symbolic_link_levels,ELOOP),
    EE(value_too_large,EOVERFLOW), EE(wrong_protocol_type,EPROTOTYPE) };
const char* msg (int e) { return dup (strerror (e)); }
template <typename C> void code_is (const char* nm, const C& c, int v)
{
    ops();
    VC (c.value() == v, "code", "%s is %d instead of %d", nm, c.value(), v);
    VC (bool (c) == (v != 0), "code", "%s %d as bool is %d", nm, v, bool (c));
    TXT (dup (c.message()), msg (v), "message", "%s %d says '%s'", nm, v, c.message());
    VC (c.category() == system_category() && !(c.category() != generic_category()), "category", "%s %d", nm, v);
    TXT (c.category().name(), "system", "category", "category is called %s", c.category().name());
}
int code (void) { switch (R.below (4)) { case 0: return 0; case 1: return int (R.range (-5, 5)); case 2: return int (R.bits()); default: return int (R.below (134)); } }
void code_run (void)
{
    const EC& t = s_errc [R.below (sizeof(s_errc) / sizeof(s_errc[0]))]; const int a = code(), b = R.chance (1, 2) ? a : code();
    trace ("codes %d %d, errc %d", a, b, t.v); sig (hmix (5000 + t.v, a == b ? 1 : a == 0 ? 2 : 3));
    VC (int (t.e) == t.v, "errc", "errc is %d instead of %d", int (t.e), t.v);
    error_code c0, c1 (a, system_category()), c2 (b, generic_category()), ce (t.e), cm (make_error_code (t.e)), ca;
    error_condition d0, d1 (a, system_category()), d2 (b, generic_category()), de (t.e), dm (make_error_condition (t.e)), da;
    code_is ("default error_code", c0, 0); code_is ("error_code", c1, a); code_is ("error_code of errc", ce, t.v); code_is ("made error_code", cm, t.v);
    code_is ("default error_condition", d0, 0); code_is ("error_condition", d1, a); code_is ("error_condition of errc", de, t.v); code_is ("made error_condition", dm, t.v);
    VC ((c1 == c2) == (a == b), "equal", "error_codes %d and %d", a, b); VC ((d1 == d2) == (a == b), "equal", "error_conditions %d and %d", a, b);
    VC ((c1 == d2) == (a == b) && (d2 == c1) == (a == b) && (c2 == d1) == (a == b), "equal", "code and condition %d and %d", a, b);
    VC (system_category().equivalent (a, d2) == (a == b) && system_category().equivalent (c1, b) == (a == b), "equivalent", "%d and %d", a, b);
    code_is ("default_error_condition", c1.default_error_condition(), a); code_is ("default_error_condition", system_category().default_error_condition (b), b); VC (c1 == c1.default_error_condition(), "equal", "%d to its default condition", a);
    TXT (dup (system_category().message (a)), msg (a), "message", "%d says %s", a, system_category().message (a));
    ca = t.e; code_is ("assigned errc", ca, t.v); da = t.e; code_is ("assigned errc condition", da, t.v);
    ca = c1; code_is ("assigned code", ca, a); da = d1; code_is ("assigned condition", da, a);
    ca.assign (b, system_category()); code_is ("assign", ca, b); da.assign (b, generic_category()); code_is ("assign condition", da, b);
    VC (c1.value() == a && d1.value() == a, "independent", "copy changes the original");
    ca.clear(); code_is ("cleared", ca, 0); da.clear(); code_is ("cleared condition", da, 0); VC (ca == c0 && da == d0, "equal", "cleared to default");
    VC (is_error_code_enum<errc>::value && is_error_condition_enum<errc>::value && !is_error_code_enum<int>::value && !is_error_condition_enum<int>::value, "enum", "is_error_code_enum");
    system_error e (ce, "op"); VC (e.code() == ce && e.Errno() == t.v, "code", "system_error of %d has %d", t.v, e.code().value());
}
// demangling into a buffer
void dm_run (void)
{
    const char* t = type_name(); const size_t m = strlen (t), cap = m + 1 + R.below (300); char* b = (char*) guard_alloc (cap); memcpy (b, t, m + 1); memset (b + m + 1, 0x55, cap - m - 1);
    size_t sz = 12345; const bool ask = R.chance (1, 2); const char* p = pretty (t); size_t pn = strlen (p); if (pn > cap - 1) pn = cap - 1;
    trace ("demangle '%.100s' (%zu) in %zu", t, m, cap); sig (hmix (6000 + lenclass (m), hmix (lenclass (pn), cap - m < 10)));
    const char* r = ask ? demangle_type_name (b, cap, &sz) : demangle_type_name (b, cap); ops();
    VC (r == b && strlen (b) == pn && !memcmp (b, p, pn) && (!ask || sz == pn), "demangle", "'%.100s' in %zu bytes gives '%.100s' (%zu)", t, cap, b, sz);
    guard_free (b, cap);
}
// backtraces read from elsewhere show every frame on a line of its own, with as many symbols as came along
void __attribute__((noinline)) tr_run (void)
{
    const uint32_t n = R.below (R.chance (1, 4) ? 65 : 6), k = R.below (n + 3); char* sy = (char*) arena (n * 80 + 400); uint32_t sn = 0; void* a [65]; size_t at [70];
    for (uint32_t i = 0; i < k; ++i) { at[i] = sn; const unsigned l = R.below (R.chance (1, 6) ? 70 : 8); for (unsigned j = 0; j < l; ++j) sy[sn++] = "abcXYZ:_<>(), "[R.below (14)]; sy[sn++] = '\n'; }
    at[k] = sn; char* want = (char*) arena (n * 100 + 600); size_t wn = 0;
    for (uint32_t i = 0; i < n; ++i) { a[i] = (void*)(R.next() >> (16 + R.below (40))); if (!a[i]) a[i] = (void*) 1; wn += sprintf (want + wn, "%16p  ", a[i]); if (i < k) { memcpy (want + wn, sy + at[i], at[i+1] - at[i]); wn += at[i+1] - at[i]; } else want[wn++] = '\n'; }
    const size_t so = (8 + sn + 7) / 8 * 8, total = so + n * 8; char* w = (char*) guard_alloc (total); memset (w, 0, total); memcpy (w, &n, 4); memcpy (w + 4, &sn, 4); memcpy (w + 8, sy, sn); memcpy (w + so, a, n * 8);
    trace ("backtrace of %u frames with %u symbols", n, k); sig (hmix (8000 + lenclass (n), hmix (lenclass (k), k < n ? 0 : k == n ? 1 : 2)));
    CBacktrace b; { istream is (w, total); is >> b; VC (is.pos() == total, "backtrace-read", "of %u frames stops at %zu of %zu", n, size_t(is.pos()), total); } ops();
    ostringstream o; b.text_write (o); const string& r = o.str();
    VC (r.size() == wn && !memcmp (r.data(), want, wn), "backtrace-lines", "%u frames with %u symbols are shown as %s instead of %s", n, k, show (r.data(), r.size()), show (want, wn));
    CBacktrace c (b), d; d = c; VC (d.stream_size() == total, "backtrace-size", "stream size %zu of %zu", size_t(d.stream_size()), total);
    char* w2 = (char*) guard_alloc (total); memset (w2, 0, total); { ostream os (w2, total); os << d; VC (os.pos() == total, "backtrace-write", "%zu of %zu", size_t(os.pos()), total); } VC (!memcmp (w, w2, total), "backtrace-write", "the bytes differ"); guard_free (w2, total); guard_free (w, total);
}
// Type descriptions: one per type, equal only to itself, ordered, found through a base reference
struct TiBase { virtual ~TiBase (void) {} }; struct TiA : TiBase {}; struct TiB : TiBase {}; struct TiC : TiA {};
template <typename T> struct TiT : TiBase { T v; };
namespace { struct TiL : TiB {}; template <typename T> struct TiM {}; }	// types of this file alone
typedef const std::type_info* ti_t;
template <typename T> ti_t ti_of (void) { return &typeid(T); }
void __attribute__((noinline)) ti_run (void)
{
    TiA a; TiB b; TiC c; TiT<int> ti; TiT<ustl::string> ts; TiL tl; const TiBase *pl = &tl, *pa = &a, *pb = &b, *pc = &c, *pi = &ti, *ps = &ts; ustl::runtime_error re ("x"); ustl::logic_error le ("y"); const ustl::exception &xr = re, &xl = le;
    const struct { ti_t t; const char* n; int id; } k [] = {
	{ ti_of<int>(), "i", 0 }, { ti_of<unsigned>(), "j", 1 }, { ti_of<const int>(), "i", 0 }, { ti_of<int&>(), "i", 0 }, { ti_of<int*>(), "Pi", 2 }, { ti_of<const int*>(), "PKi", 3 }, { ti_of<double>(), "d", 4 }, { ti_of<void>(), "v", 5 },
	{ ti_of<ustl::string>(), "N4ustl6stringE", 6 }, { ti_of<ustl::runtime_error>(), "N4ustl13runtime_errorE", 7 }, { &typeid(xr), "N4ustl13runtime_errorE", 7 }, { ti_of<ustl::logic_error>(), "N4ustl11logic_errorE", 8 }, { &typeid(xl), "N4ustl11logic_errorE", 8 },
	{ ti_of<TiBase>(), "N4vf246TiBaseE", 9 }, { ti_of<TiA>(), "N4vf243TiAE", 10 }, { &typeid(*pa), "N4vf243TiAE", 10 }, { &typeid(*pb), "N4vf243TiBE", 11 }, { ti_of<TiC>(), "N4vf243TiCE", 12 }, { &typeid(*pc), "N4vf243TiCE", 12 },
	{ &typeid(*pi), "N4vf243TiTIiEE", 13 }, { &typeid(*ps), "N4vf243TiTIN4ustl6stringEEE", 14 }, { ti_of<int(int)>(), "FiiE", 15 }, { ti_of<ustl::vector<int> >(), "N4ustl6vectorIiEE", 16 }, { ti_of<int[7]>(), "A7_i", 17 },
	{ ti_of<TiL>(), "N4vf2412_GLOBAL__N_13TiLE", 18 }, { &typeid(*pl), "N4vf2412_GLOBAL__N_13TiLE", 18 }, { ti_of<TiM<ustl::string> >(), "N4vf2412_GLOBAL__N_13TiMIN4ustl6stringEEE", 19 }, { ti_of<TiM<TiL> >(), "N4vf2412_GLOBAL__N_13TiMINS0_3TiLEEE", 20 } };
    const unsigned N = sizeof(k) / sizeof(k[0]), x = R.below (N), y = R.chance (1, 4) ? x : R.below (N), z = R.below (N); const std::type_info &p = *k[x].t, &q = *k[y].t, &r = *k[z].t; const bool same = k[x].id == k[y].id; sig (hmix (7000 + x, y)); ops (5);
    VC (!strcmp (p.name(), k[x].n), "type/name", "type is called %s instead of %s", p.name(), k[x].n);
    VC ((p == q) == same && (p != q) == !same, "type/equal", "types %s and %s: == %d, != %d", k[x].n, k[y].n, p == q, p != q);
    VC (same ? !p.before (q) && !q.before (p) : p.before (q) != q.before (p), "type/before", "types %s and %s: before %d, after %d", k[x].n, k[y].n, p.before (q), q.before (p));
    VC (!(p.before (q) && q.before (r)) || p.before (r), "type/before", "types %s, %s, %s are not in order", k[x].n, k[y].n, k[z].n);
    VC ((dynamic_cast<const TiA*>(pc) == &c) && !dynamic_cast<const TiB*>(pc) && dynamic_cast<const TiC*>(pc) == &c && !dynamic_cast<const TiC*>(pa) && dynamic_cast<const ustl::runtime_error*>(&xr) == &re && !dynamic_cast<const ustl::logic_error*>(&xr), "type/cast", "dynamic_cast");
}
} // namespace vf24
VF_CASE (c24_types, 600, 6000) { vf24::ti_run(); }
VF_CASE (c24_traces, 500, 10000) { vf24::tr_run(); }
VF_CASE (c24_life, 1200, 20000) { vf24::lifes [g_case_idx % vf24::K_N](); }
VF_CASE (c24_thrown, 300, 6000) { vf24::throwns [g_case_idx % vf24::K_N](); }
VF_CASE (c24_backtrace, 400, 8000) { vf24::bt_run(); }
#ifndef VF_VARIANT_val	// valgrind objects to the deliberately bad arguments
VF_CASE (c24_files, 500, 6000) { vf24::file_run(); }
#endif
VF_CASE (c24_streams, 1500, 30000) { vf24::stream_run(); }
VF_CASE (c24_alloc, 60, 600) { if (g_has_heap) vf24::alloc_run(); }
VF_CASE (c24_codes, 1500, 20000) { vf24::code_run(); }
VF_CASE (c24_demangle, 1000, 20000) { vf24::dm_run(); }
