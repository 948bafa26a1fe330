// C23: ratios, durations, time points and high-resolution times.
#include "vf.h"
#include <time.h>
using namespace vf;
using namespace ustl;
using namespace ustl::chrono;
namespace {
typedef __int128 w;
w wabs (w v) { return v < 0 ? -v : v; }
w wgcd (w a, w b) { a = wabs (a); b = wabs (b); while (b) { w t = a % b; a = b; b = t; } return a; }
#define LL(v) (long long)(v)

//--- ratios, for a fixed set of generated values -------------------------------------
constexpr u64 cmix (u64 x) { x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
constexpr i64 rn (unsigned i)	// numerators of various sizes and signs, including 0
    { return i % 13 == 0 ? 0 : (i % 3 ? 1 : -1) * i64 (cmix (i * 7 + 1) % (i % 4 == 0 ? 12 : i % 4 == 1 ? 720 : 1000000)) ; }
constexpr i64 rd (unsigned i)
    { return (i % 5 ? 1 : -1) * (1 + i64 (cmix (i * 11 + 5) % (i % 4 == 0 ? 12 : i % 4 == 2 ? 720 : 1000000))); }
struct Row { i64 n1, d1, n2, d2, num, den, an, ad, sn, sd, mn, md, qn, qd; bool hasq, eq, ne, lt, le, gt, ge; };
enum { NROW = 240 };
Row rows [NROW];
template <typename A, typename B, bool Nz> struct Quot { static void get (Row& r) { r.hasq = true; r.qn = ratio_divide<A,B>::num; r.qd = ratio_divide<A,B>::den; } };
template <typename A, typename B> struct Quot<A,B,false> { static void get (Row& r) { r.hasq = false; } };
template <unsigned I> struct Fill {
    static void fill (void) {
	typedef ratio<rn(I),rd(I)> A; typedef ratio<rn(I*3+1),rd(I*5+2)> B0;
	typedef typename conditional<I % 9 == 4, ratio<rn(I)*3,rd(I)*3>, B0>::type B;	// some are equal
	Row& r = rows[I]; r.n1 = rn(I); r.d1 = rd(I); r.n2 = I % 9 == 4 ? rn(I)*3 : rn(I*3+1); r.d2 = I % 9 == 4 ? rd(I)*3 : rd(I*5+2);
	r.num = A::num; r.den = A::den;
	r.an = ratio_add<A,B>::num; r.ad = ratio_add<A,B>::den; r.sn = ratio_subtract<A,B>::num; r.sd = ratio_subtract<A,B>::den;
	r.mn = ratio_multiply<A,B>::num; r.md = ratio_multiply<A,B>::den; Quot<A,B,(B::num != 0)>::get (r);
	r.eq = ratio_equal<A,B>::value; r.ne = ratio_not_equal<A,B>::value; r.lt = ratio_less<A,B>::value; r.le = ratio_less_equal<A,B>::value; r.gt = ratio_greater<A,B>::value; r.ge = ratio_greater_equal<A,B>::value;
	Fill<I-1>::fill();
    }
};
template <> struct Fill<0> { static void fill (void) { rows[0] = rows[1]; } };
void red (const char* what, i64 num, i64 den, w n, w d, const Row& r)
{
    if (d < 0) { n = -n; d = -d; } w g = wgcd (n, d); n /= g; d /= g; ops();
    VC (num == n && den == d, "ratio", "%s of %ld/%ld and %ld/%ld is %ld/%ld, expected %lld/%lld", what, r.n1, r.d1, r.n2, r.d2, num, den, LL(n), LL(d));
}
template <typename R> void si (const char* name, w n, w d) { ops(); VC (R::num == n && R::den == d && R::type::num == n, "ratio", "%s is %ld/%ld", name, long (R::num), long (R::den)); ostringstream os; os << R(); os.flush(); char want [64]; snprintf (want, sizeof(want), "%lld/%lld", LL(n), LL(d)); string s (os.str()); VC (!strcmp (s.c_str(), want), "text", "%s is written as %s, expected %s", name, s.c_str(), want); }
VF_CASE (c23_ratio, NROW, NROW)
{
    if (!rows[1].d1) Fill<NROW-1>::fill();
    unsigned i = g_case_idx % NROW; const Row& r = rows[i];
    red ("reduced ratio", r.num, r.den, r.n1, r.d1, r);
    red ("sum", r.an, r.ad, w(r.n1) * r.d2 + w(r.n2) * r.d1, w(r.d1) * r.d2, r);
    red ("difference", r.sn, r.sd, w(r.n1) * r.d2 - w(r.n2) * r.d1, w(r.d1) * r.d2, r);
    red ("product", r.mn, r.md, w(r.n1) * r.n2, w(r.d1) * r.d2, r);
    if (r.hasq) red ("quotient", r.qn, r.qd, w(r.n1) * r.d2, w(r.d1) * r.n2, r);
    w a = w(r.n1) * r.d2, b = w(r.n2) * r.d1; if ((r.d1 < 0) != (r.d2 < 0)) { a = -a; b = -b; }
    VC (r.eq == (a == b) && r.ne == (a != b) && r.lt == (a < b) && r.le == (a <= b) && r.gt == (a > b) && r.ge == (a >= b), "ratio", "comparisons of %ld/%ld and %ld/%ld: == %d != %d < %d <= %d > %d >= %d", r.n1, r.d1, r.n2, r.d2, r.eq, r.ne, r.lt, r.le, r.gt, r.ge);
    sig (hmix (1, i));
    if (i == 1) {
	si<exa> ("exa", 1000000000000000000, 1); si<peta> ("peta", 1000000000000000, 1); si<tera> ("tera", 1000000000000, 1); si<giga> ("giga", 1000000000, 1); si<mega> ("mega", 1000000, 1); si<kilo> ("kilo", 1000, 1);
	si<hecto> ("hecto", 100, 1); si<deca> ("deca", 10, 1); si<deci> ("deci", 1, 10); si<centi> ("centi", 1, 100); si<milli> ("milli", 1, 1000); si<micro> ("micro", 1, 1000000); si<nano> ("nano", 1, 1000000000);
	si<pico> ("pico", 1, 1000000000000); si<femto> ("femto", 1, 1000000000000000); si<atto> ("atto", 1, 1000000000000000000);
    }
}

//--- durations --------------------------------------------------------------------------
template <typename R> struct RI { static constexpr bool fl = false; static constexpr w mx = 0x7FFFFFFFFFFFFFFF; };
template <> struct RI<int32_t> { static constexpr bool fl = false; static constexpr w mx = 0x7FFFFFFF; };
template <> struct RI<uint32_t> { static constexpr bool fl = false; static constexpr w mx = 0xFFFFFFFF; };
template <> struct RI<int16_t> { static constexpr bool fl = false; static constexpr w mx = 0x7FFF; };
template <> struct RI<float> { static constexpr bool fl = true; static constexpr w mx = 1 << 24; };
template <> struct RI<double> { static constexpr bool fl = true; static constexpr w mx = w(1) << 53; };
w count (w mx) { w v = R.bits() & 0x7FFFFFFFFFFFFFFF; return v > mx ? v % (mx + 1) : v; }
// exact value num/den of one From count in To counts
template <typename From, typename To> struct Cv { static constexpr w n = w(From::period::num) * To::period::den, d = w(From::period::den) * To::period::num; };

struct Unit { bool fl; w mx; unsigned sz; long n, d; };
template <typename D> Unit unit (void) { Unit u = { RI<typename D::rep>::fl, RI<typename D::rep>::mx, sizeof(typename D::rep), long (D::period::num), long (D::period::den) }; return u; }
// a count of from that fits, and so does what it converts to; -1 if there is none
[[gnu::noinline]] w convgen (const Unit& f, const Unit& t, w n, w d)
{
    w lim = f.mx; if (lim > ((w(1) << 62) / n)) lim = (w(1) << 62) / n;	// the scaled count fits
    if (!t.fl && t.mx < (w(1) << 62) / n * n && lim > t.mx * d / n) lim = t.mx * d / n;
    w c = count (lim); if (R.chance (1, 3) && d <= lim) { c = c / d * d + w(R.below (3)) - 1; if (c < 0 || c > lim) c = d; }	// near a whole number of units
    return c;
}
[[gnu::noinline]] void convcheck (const Unit& f, const Unit& t, w n, w d, w c, w got, long double gotf, w tp)
{
    w want = c * n / d; ops();
    if (t.fl) {
	long double ex = (long double) c * n / d, e = t.sz == 4 ? 1e-6L : 1e-14L;
	VC (gotf >= ex * (1 - e) && gotf <= ex * (1 + e), "duration_cast", "%lld x %ld/%ld s is %Lg x %ld/%ld s, expected %Lg", LL(c), f.n, f.d, gotf, t.n, t.d, ex);
    } else if (f.fl) {
	w lo = want - (want >> (f.sz == 4 ? 22 : 50)) - 1, hi = want + (want >> (f.sz == 4 ? 22 : 50)) + 1; bool exact = n == 1 && d == 1;
	VC (exact ? got == want : got >= lo && got <= hi, "duration_cast", "%lld x %ld/%ld s (floating) is %lld x %ld/%ld s, expected %lld", LL(c), f.n, f.d, LL(got), t.n, t.d, LL(want));
    } else
	VC (got == want, "duration_cast", "%lld x %ld/%ld s is %lld x %ld/%ld s, expected %lld", LL(c), f.n, f.d, LL(got), t.n, t.d, LL(want));
    VC (tp == got, "time_point_cast", "%lld x %ld/%ld s", LL(c), f.n, f.d);	// time points convert like durations
    sig (hmix (hmix (u64 (n), u64 (d)), (c == 0) + 2 * (want == 0) + 4 * (c * n % d == 0) + 8 * (c > 1000) + 16 * f.fl + 32 * t.fl + 64 * f.sz + 1024 * t.sz));
}
template <typename From, typename To> [[gnu::noinline]] void conv (void)
{
    w n = Cv<From,To>::n, d = Cv<From,To>::d, g = wgcd (n, d); n /= g; d /= g;
    Unit fu = unit<From>(), tu = unit<To>(); w c = convgen (fu, tu, n, d);
    const From f ((typename From::rep) c); if (w(f.count()) != c) return;	// not exact in a float
    To t = duration_cast<To> (f); time_point<system_clock,From> tp (f);
    convcheck (fu, tu, n, d, c, w(t.count()), t.count(), w(time_point_cast<To> (tp).time_since_epoch().count()));
}
typedef duration<intmax_t,ratio<3,2>> odd32; typedef duration<intmax_t,ratio<5,7>> odd57; typedef duration<intmax_t,deci> decis; typedef duration<intmax_t,ratio<1,3>> thirds;
#define PERIODS(X) X(nanoseconds) X(microseconds) X(milliseconds) X(decis) X(thirds) X(odd57) X(odd32) X(seconds) X(minutes) X(hours) X(days) X(weeks) X(months) X(years) X(centuries) X(millenia)
// pairs whose ratio does not fit do not compile
constexpr w cgcd (w a, w b) { return b ? cgcd (b, a % b) : a; }
template <typename F, typename T> struct Fits { static constexpr w g = cgcd (Cv<F,T>::n, Cv<F,T>::d); enum { v = Cv<F,T>::n / g < (w(1) << 62) && Cv<F,T>::d / g < (w(1) << 62) }; };
template <typename F, typename T, bool = Fits<F,T>::v> struct Maybe { static void run (void) { conv<F,T>(); } };
template <typename F, typename T> struct Maybe<F,T,false> { static void run (void) {} };
template <typename From> [[gnu::noinline]] void convall (void)
{
#define X(T) Maybe<From,T>::run();
    PERIODS(X)
#undef X
}
VF_CASE (c23_convert, 1200, 12000)
{
#define X(T) convall<T>();
    PERIODS(X)
#undef X
    if (want_sample()) sample ("conversions between 16 units");
}
template <typename P1, typename P2> [[gnu::noinline]] void convreps (void)
{
    conv<duration<intmax_t,P1>,duration<int32_t,P2>>(); conv<duration<int32_t,P1>,duration<intmax_t,P2>>(); conv<duration<uint32_t,P1>,duration<int32_t,P2>>(); conv<duration<int32_t,P1>,duration<uint32_t,P2>>();
    conv<duration<double,P1>,duration<intmax_t,P2>>(); conv<duration<intmax_t,P1>,duration<double,P2>>(); conv<duration<double,P1>,duration<double,P2>>(); conv<duration<float,P1>,duration<intmax_t,P2>>(); conv<duration<intmax_t,P1>,duration<float,P2>>();
    conv<duration<int16_t,P1>,duration<intmax_t,P2>>(); conv<duration<intmax_t,P1>,duration<int16_t,P2>>(); conv<duration<int16_t,P1>,duration<int16_t,P2>>(); conv<duration<double,P1>,duration<float,P2>>(); conv<duration<float,P1>,duration<double,P2>>();
}
VF_CASE (c23_convert_reps, 1500, 15000)
{
    convreps<milli,ratio<1>>(); convreps<ratio<1>,milli>(); convreps<nano,milli>(); convreps<ratio<60>,ratio<3600>>(); convreps<ratio<3600>,ratio<60>>(); convreps<ratio<1,3>,ratio<5,7>>(); convreps<ratio<1>,ratio<1>>(); convreps<ratio<86400>,ratio<1>>();
    // fractions survive on the way to a finer unit
    i64 q = R.below (1 << 20); duration<double> d (double (q) / 8); VC (duration_cast<milliseconds> (d).count() == q * 125, "duration_cast", "%ld/8 s is %ld ms", q, long (duration_cast<milliseconds> (d).count())); VC (duration_cast<seconds> (d).count() == q / 8, "duration_cast", "%ld/8 s is %ld s", q, long (duration_cast<seconds> (d).count()));
    ops (2);
}
//--- arithmetic histories -----------------------------------------------------------------
template <typename D> [[gnu::noinline]] void arith (void)
{
    typedef typename D::rep Rp; w mx = RI<Rp>::mx;
    w m = count (mx / 4); D d ((Rp) m); unsigned n = 1 + R.below (12);
    for (unsigned i = 0; i < n; ++i) {
	w o = count (mx / 4); D e ((Rp) o); unsigned k = R.below (19); w was = m; Rp sc = Rp (1 + R.below (20)); bool okay = true;
	switch (k) {
	    case 0: if ((okay = m + o <= mx)) { D r = d + e; VC (w(d.count()) == m && w(e.count()) == o, "operands", "+ changed an operand"); d = r; m += o; } break;
	    case 1: if ((okay = m >= o)) { d = d - e; m -= o; } break;
	    case 2: if ((okay = m + o <= mx)) { D& r = (d += e); VC (&r == &d, "return", "+="); m += o; } break;
	    case 3: if ((okay = m >= o)) { D& r = (d -= e); VC (&r == &d, "return", "-="); m -= o; } break;
	    case 4: if ((okay = m < mx)) { D r = ++d; ++m; VC (w(r.count()) == m, "return", "++d"); } break;
	    case 5: if ((okay = m < mx)) { D r = d++; VC (w(r.count()) == m, "return", "d++"); ++m; } break;
	    case 6: if ((okay = m > 0)) { D r = --d; --m; VC (w(r.count()) == m, "return", "--d"); } break;
	    case 7: if ((okay = m > 0)) { D r = d--; VC (w(r.count()) == m, "return", "d--"); --m; } break;
	    case 8: if ((okay = m * w(sc) <= mx)) { D& r = (d *= sc); VC (&r == &d, "return", "*="); m *= w(sc); } break;
	    case 9: { D& r = (d /= sc); VC (&r == &d, "return", "/="); m /= w(sc); break; }
	    case 10: { D& r = (d %= sc); VC (&r == &d, "return", "%%="); m %= w(sc); break; }
	    case 11: if ((okay = o > 0)) { d %= e; m %= o; } break;
	    case 12: d = +d; break;
	    case 13: { D z = D::zero(); D r = z - (-d); VC (w(r.count()) == m, "value", "negation"); break; }
	    case 14: { D c (d); D a; a = d; VC (c == d && a == d && !(c < d), "value", "copies"); break; }
	    case 15: if (R.chance (1, 2)) e = d, o = m; VC ((d == e) == (m == o) && (d != e) == (m != o) && (d < e) == (m < o) && (d > e) == (m > o) && (d <= e) == (m <= o) && (d >= e) == (m >= o), "comparison", "of %lld and %lld", LL(m), LL(o)); break;
	    case 16: VC (D::zero().count() == 0 && w(D::max().count()) == mx && w(D::min().count()) == (Rp(-1) < Rp(0) ? -mx - 1 : 0), "limits", "of a duration"); break;
	    case 17: { memblock b (64); ostream os (b); os << d; istream is (b.cdata(), os.pos()); D r; is >> r; VC (r == d && os.pos() == stream_size_of (d) && os.pos() == sizeof(Rp), "binary", "round trip of %lld", LL(m)); break; }
	    default: { typedef time_point<system_clock,D> TP; TP t (d); VC (w((t - TP (e)).count()) == m - o || m < o, "value", "difference of time points"); if (m + o <= mx) { TP u = t + e; VC (w(u.time_since_epoch().count()) == m + o, "value", "time_point +"); t += e; VC (t == u, "value", "time_point +="); t -= e; VC (w(t.time_since_epoch().count()) == m, "value", "time_point -="); u = u - e; VC (u == t && w(u.time_since_epoch().count()) == m, "value", "time_point -"); }
		TP v (e); VC ((t < v) == (m < o) && (t == v) == (m == o) && (t != v) == (m != o) && (t >= v) == (m >= o), "comparison", "of time points"); VC (TP::zero().time_since_epoch().count() == 0 && TP::max().time_since_epoch() == D::max() && TP::min().time_since_epoch() == D::min() && TP().time_since_epoch().count() == TP().time_since_epoch().count(), "limits", "of a time point"); break; }
	}
	ops (okay);
	VC (w(d.count()) == m, "value", "operation %u with %lld (factor %lld) on %lld gave %lld, expected %lld", k, LL(o), LL(sc), LL(was), LL(d.count()), LL(m));
	if (okay) sig (hmix (sizeof(Rp) * 4 + (Rp(-1) < Rp(0)), k * 4096 + (was == 0) + 2 * (o == 0) + 4 * (was > 1000000) + 8 * (o > 1000000) + 16 * (was == o)));
    }
}
// Comparison and arithmetic across units, whichever of them comes first; the coarser one is M of the finer ones.
template <typename C, typename F> [[gnu::noinline]] void mixed (void)
{
    const w M = (w(C::period::num) * F::period::den) / (w(C::period::den) * F::period::num); const bool dual = is_convertible<typename F::rep,typename C::rep>::value; (void) dual;
    w lim = RI<typename F::rep>::mx / M / 4; if (lim > RI<typename C::rep>::mx / 4) lim = RI<typename C::rep>::mx / 4; w a = count (lim > 3 ? lim - 2 : 2), b = a * M + R.range (-2, 2) * (R.chance (1, 2) ? 1 : M); if (b < 0) b = 0;
    const C c ((typename C::rep) a); const F f ((typename F::rep) b); if (w(f.count()) != b || w(c.count()) != a) return;
    VC ((c == f) == (a * M == b) && (f == c) == (a * M == b), "comparison", "%lld coarse == %lld fine (factor %lld)", LL(a), LL(b), LL(M));
    VC ((c < f) == (a * M < b) && (f < c) == (b < a * M), "comparison", "%lld coarse < %lld fine (factor %lld)", LL(a), LL(b), LL(M));
    VC (w(c.count()) == a && w(f.count()) == b, "operands", "comparison changed an operand");
    F g (f); g += c; VC (w(g.count()) == b + a * M, "value", "fine += coarse"); g -= c; VC (w(g.count()) == b, "value", "fine -= coarse"); VC (w((f + c).count()) == b + a * M, "value", "fine + coarse");
    time_point<system_clock,C> tc (c); time_point<system_clock,F> tf (f); VC ((tf == tc) == (a * M == b) && (tf < tc) == (b < a * M), "comparison", "of time points of %lld coarse and %lld fine", LL(a), LL(b));
    ops (6); sig (hmix (sizeof(typename C::rep) * 16 + sizeof(typename F::rep), hmix (M, (a * M == b) + 2 * (a * M < b) + 4 * (a == 0))));
}
struct ZoneInit { ZoneInit (void) { time_t t = 0; ctime (&t); } } s_zone;	// libc keeps the time zone it reads once
template <typename D> void suffix (const char* sf)
{
    i64 v = R.bits() >> 1; D d (v); ostringstream os; os << d; os.flush(); string s (os.str()); char want [64]; snprintf (want, sizeof(want), "%ld%s", v, sf);
    VC (!strcmp (s.c_str(), want), "text", "a duration is written as %s, expected %s", s.c_str(), want); ops();
}
VF_CASE (c23_duration, 6000, 60000)
{
    mixed<seconds,milliseconds>(); mixed<hours,minutes>(); mixed<minutes,seconds>(); mixed<days,nanoseconds>(); mixed<weeks,days>(); mixed<duration<intmax_t,ratio<3,2>>,duration<intmax_t,ratio<1,2>>>(); mixed<duration<int32_t,ratio<60>>,duration<int32_t>>(); mixed<seconds,seconds>(); mixed<duration<int16_t>,milliseconds>(); mixed<millenia,centuries>();
    arith<seconds>(); arith<duration<int32_t,milli>>(); arith<duration<uint32_t,ratio<1,3>>>(); arith<duration<int16_t,ratio<60>>>();
    // lossless conversions are implicit and comparisons use them
    i64 h = R.below (100000), x = R.below (3); minutes m = hours (h); seconds s = m; milliseconds ms = s; nanoseconds ns = minutes (x);
    VC (m.count() == h * 60 && s.count() == h * 3600 && ms.count() == h * 3600000 && ns.count() == x * 60000000000, "implicit", "conversion of %ld hours", h);
    seconds t (h * 3600 + x); VC ((t == m) == (x == 0) && (t < m) == false && (seconds (h * 3600 - x) < m) == (x > 0), "comparison", "of seconds and minutes at %ld hours", h);
    t += minutes (x); VC (t.count() == h * 3600 + x + 60 * x, "value", "seconds += minutes"); t -= minutes (x); VC (t.count() == h * 3600 + x, "value", "seconds -= minutes"); VC ((t + minutes (2)).count() == h * 3600 + x + 120, "value", "seconds + minutes");
    const time_point<system_clock,seconds> tps ((seconds (h))); time_point<system_clock,milliseconds> tp (tps); VC (tp.time_since_epoch().count() == h * 1000, "implicit", "conversion of a time point"); VC ((tp - time_point<system_clock,seconds> (seconds (x))).count() == (h - x) * 1000, "value", "difference of time points"); VC ((tp == time_point<system_clock,seconds> (seconds (x))) == (h == x), "comparison", "of time points");
    suffix<nanoseconds> ("_ns"); suffix<microseconds> ("_us"); suffix<milliseconds> ("_ms"); suffix<seconds> ("_s"); suffix<minutes> ("_min"); suffix<hours> ("_hours"); suffix<days> ("_days"); suffix<weeks> ("_weeks"); suffix<months> ("_months"); suffix<years> ("_years"); suffix<centuries> ("_centuries"); suffix<millenia> ("_millenia");
    suffix<duration<intmax_t,ratio<1,3>>> ("");
    { memblock b (64); ostream os (b); time_point<system_clock,milliseconds> r, u (milliseconds (i64 (R.bits() >> 1))); os << u; VC (os.pos() == stream_size_of (u) && os.pos() == 8, "binary", "size of a time point"); istream is (b.cdata(), os.pos()); is >> r; VC (r == u && is.pos() == 8, "binary", "round trip of a time point"); ostringstream o; o << u << '.'; o.flush(); char want [64]; snprintf (want, sizeof(want), "%ld_ms.", long (u.time_since_epoch().count())); VC (!strcmp (string (o.str()).c_str(), want), "text", "of a time point, expected %s", want); }
    { const time_t tt = R.chance (1, 20) ? INT64_MAX - R.below (9) : R.chance (1, 20) ? time_t (67767976233500000) + time_t (R.below (100000000)) : time_t (R.bits() % 4102444800u); const system_clock::time_point tp (system_clock::from_time_t (tt)); ostringstream o; o << '<' << tp << '>'; o.flush(); char c [64], want [80]; const char* w1 = ctime (&tt); if (w1) { snprintf (c, sizeof(c), "%s", w1); c[strlen (c) - 1] = 0; } snprintf (want, sizeof(want), "<%s>", w1 ? c : ""); char alt [80] = ""; struct tm tmv; if (!w1 && localtime_r (&tt, &tmv)) strftime (alt, sizeof(alt), "<%a %b %e %H:%M:%S %Y>", &tmv);	/* a year that ctime can not print */ VC (!strcmp (string (o.str()).c_str(), want) || (*alt && !strcmp (string (o.str()).c_str(), alt)), "text", "of a system time, expected %s", want); ops (2); sig (hmix (98, (w1 != nullptr) * 64 + (w1 ? strlen (want) : 0))); }
    duration<double> dd (double (x) / 4); dd += duration<double> (0.5); dd *= 4; VC (dd.count() == x + 2, "value", "floating duration"); dd /= 8; --dd; ++dd; VC (dd.count() == double (x + 2) / 8 && -dd < dd, "value", "floating duration");
    VC (system_clock::to_time_t (system_clock::from_time_t (h * 1000 + x)) == h * 1000 + x, "value", "time_t conversion");
}

//--- high resolution times -----------------------------------------------------------------
const i64 NS = 1000000000;
typedef duration<hrtime_t,nano> hrdur;
void hrcheck (const hrtime_t& t, w ns, const char* op)
{
    ops();
    VC (t.tv_nsec >= 0 && t.tv_nsec < NS && w(t.tv_sec) * NS + t.tv_nsec == ns, "value", "%s gave %ld s %ld ns, expected %lld s %lld ns", op, long (t.tv_sec), long (t.tv_nsec), LL(ns / NS), LL(ns % NS));
}
w hrns (w maxsec) { w s = count (maxsec), n = R.chance (1, 4) ? NS - 1 - R.below (3) : R.chance (1, 4) ? R.below (3) : R.below (NS); return s * NS + n; }
hrtime_t mk (w ns) { return hrtime_t (time_t (ns / NS), long (ns % NS)); }
template <typename To> [[gnu::noinline]] void hrcast (w ns)
{
    w n = To::period::den, d = w(To::period::num) * NS; w g = wgcd (n, d); n /= g; d /= g; w sn = To::period::den, sd = To::period::num;
    if (ns / NS * sn > (w(1) << 61)) return;
    w want = ns * n / d; (void) sd; if (want > RI<typename To::rep>::mx) return;
    To t = duration_cast<To> (hrdur (mk (ns))); ops();
    if (RI<typename To::rep>::fl) { long double ex = (long double) ns * n / d; VC (t.count() >= ex * (1 - 1e-6L) && t.count() <= ex * (1 + 1e-6L), "duration_cast", "a high-resolution time of %lld ns is %Lg x %ld/%ld s", LL(ns), (long double) t.count(), long (To::period::num), long (To::period::den)); }
    else VC (w(t.count()) == want, "duration_cast", "a high-resolution time of %lld s %lld ns is %lld x %ld/%ld s, expected %lld", LL(ns / NS), LL(ns % NS), LL(t.count()), long (To::period::num), long (To::period::den), LL(want));
}
VF_CASE (c23_hrtime, 12000, 120000)
{
    const w MS = w(1) << 61; w m = hrns (R.chance (1, 2) ? 100 : R.chance (1, 2) ? 4000000000 : w(1) << 55); hrtime_t t (mk (m)); hrcheck (t, m, "construction");
    unsigned n = 1 + R.below (12);
    for (unsigned i = 0; i < n; ++i) {
	w o = hrns (R.chance (1, 2) ? 100 : R.chance (1, 2) ? 4000000000 : w(1) << 55); hrtime_t e (mk (o)); w sc = 1 + (R.chance (1, 2) ? R.below (20) : R.bits() % 4000000000u); unsigned k = R.below (14); w was = m; char op [120];
	snprintf (op, sizeof(op), "operation %u on %lld.%09lld with %lld.%09lld or %lld", k, LL(m / NS), LL(m % NS), LL(o / NS), LL(o % NS), LL(sc));
	switch (k) {
	    case 0: if (m / NS + o / NS < MS) { t += e; m += o; } break;
	    case 1: if (m >= o) { t -= e; m -= o; } break;
	    case 2: if (m / NS + o / NS < MS) { hrtime_t r = t + e; hrcheck (t, m, "+ on its operand"); t = r; m += o; } break;
	    case 3: if (m >= o) { hrtime_t r = t - e; hrcheck (t, m, "- on its operand"); t = r; m -= o; } break;
	    case 4: hrcheck (++t, ++m, op); break;
	    case 5: hrcheck (t++, m++, op); break;
	    case 6: if (m) hrcheck (--t, --m, op); break;
	    case 7: if (m) hrcheck (t--, m--, op); break;
	    case 8: if (m / NS * sc < MS) { t *= intmax_t (sc); m *= sc; } break;
	    case 9: if (m / NS * sc < MS) { t = t * intmax_t (sc); m *= sc; } break;
	    case 10: t /= intmax_t (sc); m /= sc; break;
	    case 11: t = t / intmax_t (sc); m /= sc; break;
	    case 12: if (R.chance (1, 3)) { o = m + w(R.below (3)); e = mk (o); } VC ((t == e) == (m == o) && (t < e) == (m < o) && (t != e) == (m != o) && (t > e) == (m > o) && (t <= e) == (m <= o) && (t >= e) == (m >= o), "comparison", "%s", op); break;
	    default: { memblock b (64); ostream os (b); t.write (os); istream is (b.cdata(), os.pos()); hrtime_t r; r.read (is); VC (r == t && os.pos() == t.stream_size(), "binary", "round trip"); t = +r; break; }
	}
	hrcheck (t, m, op);
	sig (hmix (7, k * 4096 + (was % NS == 0) + 2 * (was % NS == NS - 1) + 4 * (o % NS > was % NS) + 8 * (was / NS > 1000) + 16 * (sc > 20) + 32 * (was % NS + o % NS >= NS)));
	if (m / NS > (w(1) << 58)) { m = hrns (1000); t = mk (m); }
    }
    // conversions
    w c = hrns (R.chance (1, 2) ? 100 : 9000000000); intmax_t ic = intmax_t (c);
    hrcheck (hrtime_t (ic), c, "construction from nanoseconds"); VC (intmax_t (mk (c)) == ic, "value", "conversion of %ld ns to an integer gave %ld", long (ic), long (intmax_t (mk (c))));
    double f = double (mk (c)), fe = double (c) / NS; VC (f >= fe * (1 - 1e-12) && f <= fe * (1 + 1e-12), "value", "conversion of %ld ns to double gave %g", long (ic), f); float f1 = float (mk (c)); VC (f1 >= fe * (1 - 1e-6) && f1 <= fe * (1 + 1e-6), "value", "conversion of %ld ns to float gave %g", long (ic), f1);
    i64 q = R.below (1 << 22); hrcheck (hrtime_t (double (q) / 512), w(q) * NS / 512, "construction from a double"); hrcheck (hrtime_t (float (q) / 4), w(q) * NS / 4, "construction from a float");
    hrcheck (mk (c).operator- ().operator- (), c, "double negation");
    VC (hrdur::zero().count() == hrtime_t() && hrdur::max().count().tv_sec == INT64_MAX && hrdur::max().count().tv_nsec == NS - 1 && !(hrdur::max() < hrdur (mk (c))), "limits", "of a high-resolution duration"); { const hrtime_t bc (mk (c)); const hrtime_t bd (+bc); hrcheck (bd, c, "unary plus"); }
    hrcheck (hrtime_t (static_cast<const timespec&> (mk (c))), c, "construction from timespec"); hrcheck (hrtime_t(), 0, "default construction");
    w h = hrns (R.chance (1, 2) ? 1000 : 100000000000);
    hrcast<nanoseconds> (h); hrcast<microseconds> (h); hrcast<milliseconds> (h); hrcast<seconds> (h); hrcast<minutes> (h); hrcast<hours> (h); hrcast<days> (h); hrcast<years> (h); hrcast<decis> (h); hrcast<duration<double>> (h); hrcast<duration<double,milli>> (h); hrcast<duration<int32_t>> (h); hrcast<duration<int32_t,ratio<3600>>> (h);
    i64 v = R.bits() % 9000000000; hrcheck (duration_cast<hrdur> (seconds (v)).count(), w(v) * NS, "conversion from seconds"); hrcheck (duration_cast<hrdur> (milliseconds (v)).count(), w(v) * 1000000, "conversion from milliseconds"); hrcheck (duration_cast<hrdur> (nanoseconds (v)).count(), v, "conversion from nanoseconds"); hrcheck (duration_cast<hrdur> (minutes (v)).count(), w(v) * 60 * NS, "conversion from minutes");
    hrcheck (duration_cast<hrdur> (duration<double> (double (q) / 64)).count(), w(q) * NS / 64, "conversion from floating seconds");
    hrdur a (mk (h)), b (mk (c)); a += b; hrcheck (a.count(), h + c, "duration +="); hrcheck ((a - b).count(), h, "duration -"); VC ((a < b) == false || h == 0, "comparison", "of high-resolution durations");
    ostringstream os; mk (c).text_write (os); os.flush(); string s (os.str()); char want [64]; snprintf (want, sizeof(want), "%lld.%09lld", LL(c / NS), LL(c % NS)); VC (!strcmp (s.c_str(), want), "text", "%s, expected %s", s.c_str(), want);
}
// The clocks follow the system's
VF_CASE (c23_clock, 200, 1000, SERIAL)
{
    timespec a, b; clock_gettime (CLOCK_REALTIME, &a); auto hr = high_resolution_clock::now(); auto ms = system_clock_ms::now(); auto us = system_clock_us::now(); auto ns = system_clock_ns::now(); clock_gettime (CLOCK_REALTIME, &b);
    w lo = w(a.tv_sec) * NS + a.tv_nsec, hi = w(b.tv_sec) * NS + b.tv_nsec, h = w(hr.time_since_epoch().count().tv_sec) * NS + hr.time_since_epoch().count().tv_nsec;
    if (hi >= lo) {	// unless someone set the clock
	VC (h >= lo && h <= hi, "clock", "high_resolution_clock"); VC (ms.time_since_epoch().count() >= lo / 1000000 && ms.time_since_epoch().count() <= hi / 1000000, "clock", "system_clock_ms"); VC (us.time_since_epoch().count() >= lo / 1000 && us.time_since_epoch().count() <= hi / 1000, "clock", "system_clock_us"); VC (ns.time_since_epoch().count() >= lo && ns.time_since_epoch().count() <= hi, "clock", "system_clock_ns");
    }
    auto s1 = steady_clock::now(), s2 = steady_clock::now(); VC (s1 <= s2, "clock", "steady_clock went back"); clock_gettime (CLOCK_MONOTONIC, &b); VC (s2.time_since_epoch().count() <= w(b.tv_sec) * NS + b.tv_nsec, "clock", "steady_clock is ahead");
    time_t t0 = time (nullptr); auto sc = system_clock::now(); time_t t1 = time (nullptr); if (t1 >= t0) VC (system_clock::to_time_t (sc) >= t0 && system_clock::to_time_t (sc) <= t1, "clock", "system_clock");
    ops (6); sig (11);
}
} // namespace
