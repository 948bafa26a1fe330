// C23: number and bit utilities equal their mathematical definition.
#include "vf.h"
using namespace vf;
using namespace ustl;
namespace {
typedef __int128 w;
template <typename T> struct Lim;	// from the compiler, not from the library
#define LIM(T,lo,hi)	template <> struct Lim<T> { static constexpr w mn = lo, mx = hi; static const char* name (void) { return #T; } };
LIM(char,-128,127) LIM(signed char,-128,127) LIM(unsigned char,0,255) LIM(short,-32768,32767) LIM(unsigned short,0,65535)
LIM(int,-w(1)-0x7FFFFFFF,0x7FFFFFFF) LIM(unsigned,0,0xFFFFFFFFu) LIM(long,-w(1)-0x7FFFFFFFFFFFFFFF,0x7FFFFFFFFFFFFFFF) LIM(unsigned long,0,0xFFFFFFFFFFFFFFFFu)
LIM(long long,-w(1)-0x7FFFFFFFFFFFFFFF,0x7FFFFFFFFFFFFFFF) LIM(unsigned long long,0,0xFFFFFFFFFFFFFFFFu) LIM(wchar_t,-w(1)-0x7FFFFFFF,0x7FFFFFFF)
#define INTS(X)	X(char) X(signed char) X(unsigned char) X(short) X(unsigned short) X(int) X(unsigned) X(long) X(unsigned long) X(long long) X(unsigned long long) X(wchar_t)
#define UINTS(X) X(uint8_t) X(uint16_t) X(uint32_t) X(uint64_t)

// hides a value from the optimiser
template <typename T> inline T opq (T v) { asm volatile ("" : "+m"(v)); return v; }
template <typename T> T any (void)
{
    u64 b = R.bits(); w v;
    switch (R.below (8)) {
	case 0: v = Lim<T>::mx - w(b & 3); break;
	case 1: v = Lim<T>::mn + w(b & 3); break;
	case 2: v = w(b & 15) - 8; break;
	default: v = w(T(b)); break;
    }
    if (v < Lim<T>::mn) v = Lim<T>::mn;
    return opq (T (v));
}
template <typename T> bool fits (w v) { return v >= Lim<T>::mn && v <= Lim<T>::mx; }
w wabs (w v) { return v < 0 ? -v : v; }
w wgcd (w a, w b) { a = wabs (a); b = wabs (b); while (b) { w t = a % b; a = b; b = t; } return a; }
int cls (w v) { int c = 0; w a = wabs (v); while (a) { ++c; a >>= 1; } return v < 0 ? -c : c; }
#define EQ(got,want,...) do { w vf_g = w (got), vf_w = w (want); ops(); VC (vf_g == vf_w, "value", __VA_ARGS__); } while (0)
#define LL(v) (long long)(v)

template <typename T> struct IsWc { enum { v = 0 }; };
template <> struct IsWc<wchar_t> { enum { v = 1 }; };
template <typename T, bool Wide = (sizeof(T) >= sizeof(int) && !IsWc<T>::v)> struct Gcd { static void run (T, T) {} };	// narrower types do not compile
template <typename T> struct Gcd<T,true> { static void run (T c, T d) {
    const char* tn = Lim<T>::name();
    EQ (gcd (c, d), wgcd (c, d), "gcd<%s>(%lld,%lld) = %lld", tn, LL(c), LL(d), LL(gcd (c, d)));
    if (w(c) >= 0 && w(d) >= 0 && cls (c) + cls (d) < 120) { w l = w(c) && w(d) ? w(c) / wgcd (c, d) * w(d) : 0; if (fits<T> (l)) EQ (lcm (c, d), l, "lcm<%s>(%lld,%lld) = %lld", tn, LL(c), LL(d), LL(lcm (c, d))); }
} };
// Each group of checks is a function of its own, so that the compiler judges it alone
template <typename T> [[gnu::noinline]] void ints_sign (T a, T b)
{
    const char* tn = Lim<T>::name();
    if (w(a) != Lim<T>::mn || Lim<T>::mn == 0) EQ (absv (a), wabs (a), "absv<%s>(%lld) = %lld", tn, LL(a), LL(absv (a)));
    EQ (sign (a), (w(a) > 0) - (w(a) < 0), "sign<%s>(%lld) = %lld", tn, LL(a), LL(sign (a)));
    EQ (is_negative (a), w(a) < 0, "is_negative<%s>(%lld) = %d", tn, LL(a), is_negative (a));
    EQ (ustl::min (a, b), w(a) < w(b) ? a : b, "min<%s>(%lld,%lld) = %lld", tn, LL(a), LL(b), LL(ustl::min (a, b)));
    EQ (ustl::max (a, b), w(a) > w(b) ? a : b, "max<%s>(%lld,%lld) = %lld", tn, LL(a), LL(b), LL(ustl::max (a, b)));
    sig (hmix (hbytes (tn, strlen (tn)), cls (a) * 200 + cls (b)));
}
template <typename T> [[gnu::noinline]] void ints_gcd (T a, T b)
{
    const char* tn = Lim<T>::name();
    // gcd, lcm
    T c = a, d = b; if (R.chance (1, 2)) { T m = T (R.below (100) + 1); w x = w(a) % 1000 * m, y = w(b) % 1000 * m; if (fits<T> (x) && fits<T> (y)) c = T(x), d = T(y); }
    if (!(w(c) == Lim<T>::mn && Lim<T>::mn) && !(w(d) == Lim<T>::mn && Lim<T>::mn)) {
	Gcd<T>::run (c, d);
    }
}
template <typename T> [[gnu::noinline]] void ints_align (T a, T b)
{
    const char* tn = Lim<T>::name();
    // Align
    if (w(a) >= 0) {
	size_t g = R.chance (1, 2) ? size_t(1) << R.below (sizeof(T) == 1 ? 6 : 12) : R.below (sizeof(T) == 1 ? 60 : 5000) + 1; g = opq (g);
	EQ (AlignDown (a, g), w(a) / w(g) * w(g), "AlignDown<%s>(%lld,%zu) = %lld", tn, LL(a), g, LL(AlignDown (a, g)));
	w up = (w(a) + w(g) - 1) / w(g) * w(g);
	if (fits<T> (up) && w(a) + w(g) - 1 <= Lim<unsigned long>::mx) EQ (Align (a, g), up, "Align<%s>(%lld,%zu) = %lld", tn, LL(a), g, LL(Align (a, g)));
	EQ (AlignDown (a), w(a) / 8 * 8, "AlignDown<%s>(%lld) = %lld", tn, LL(a), LL(AlignDown (a)));
	w u8 = (w(a) + 7) / 8 * 8; if (fits<T> (u8) && w(a) + 7 <= Lim<unsigned long>::mx) EQ (Align (a), u8, "Align<%s>(%lld) = %lld", tn, LL(a), LL(Align (a)));
	sig (hmix (hbytes (tn, strlen (tn)) + 1, cls (a) * 64 + cls (g)));
    }
}
template <typename T> [[gnu::noinline]] void ints_div (T a, T b)
{
    const char* tn = Lim<T>::name();
    // DivRU rounds away from zero
    T n2 = any<T>(); if (R.chance (1, 2)) n2 = T (R.below (60) + 1);
    if (w(n2) > 0) {
	w q = w(a) >= 0 ? (w(a) + w(n2) - 1) / w(n2) : (w(a) - w(n2) + 1) / w(n2), s = w(a) >= 0 ? w(a) + w(n2) - 1 : w(a) - w(n2) + 1;
	if (fits<T> (s)) { EQ (DivRU (a, n2), q, "DivRU<%s>(%lld,%lld) = %lld", tn, LL(a), LL(n2), LL(DivRU (a, n2))); sig (hmix (hbytes (tn, strlen (tn)) + 2, cls (a) * 200 + cls (n2))); }
    }
}
template <typename T> [[gnu::noinline]] void ints_limits (T a, T b)
{
    const char* tn = Lim<T>::name();
    // limits
    EQ (numeric_limits<T>::min(), Lim<T>::mn, "numeric_limits<%s>::min()", tn);
    EQ (numeric_limits<T>::max(), Lim<T>::mx, "numeric_limits<%s>::max()", tn);
    EQ (numeric_limits<T>::lowest(), Lim<T>::mn, "numeric_limits<%s>::lowest()", tn);
    EQ (numeric_limits<T>::is_signed, Lim<T>::mn < 0, "numeric_limits<%s>::is_signed", tn);
    EQ (numeric_limits<T>::is_specialized && numeric_limits<T>::is_integer && numeric_limits<T>::is_exact && numeric_limits<T>::is_bounded, true, "numeric_limits<%s> of an integer", tn);
    EQ (BitsInType (T), 8 * sizeof(T), "BitsInType(%s)", tn);
    T ex = a, old = exchange (ex, b); EQ (old == a && ex == b, true, "exchange<%s>", tn);
    ustl::swap (ex, old); EQ (old == b && ex == a, true, "swap<%s>", tn);
}
template <typename T> void ints (void)
{
    T a = any<T>(), b = any<T>();
    ints_sign<T> (a, b); ints_gcd<T> (a, b); ints_align<T> (a, b); ints_div<T> (a, b); ints_limits<T> (a, b);
}
VF_CASE (c23_ints, 4000, 40000)
{
    for (unsigned i = 0; i < 4; ++i) {
#define X(T) ints<T>();
	INTS (X)
#undef X
    }
    if (want_sample()) sample ("absv, sign, min, max, gcd, lcm, Align, DivRU of 12 integer types");
}
// mixed types whose values compare as numbers
VF_CASE (c23_mixed, 3000, 20000)
{
    long a = any<int>(); int b = any<int>(); short s = any<short>();
    EQ (ustl::min (a, b), a < b ? a : b, "min(long,int)"); EQ (ustl::max (a, b), a > b ? a : b, "max(long,int)");
    EQ (ustl::min (a, s), a < s ? a : s, "min(long,short)"); EQ (ustl::max (b, s), b > s ? b : s, "max(int,short)");
    uint64_t u = any<uint64_t>(); uint16_t v = any<uint16_t>();
    EQ (ustl::min (u, v), u < v ? u : v, "min(uint64,uint16)"); EQ (ustl::max (u, v), u > v ? u : v, "max(uint64,uint16)");
    double x = double (any<int>()) / 8, y = double (any<int>()) / 16;
    VC (ustl::min (x, y) == (x < y ? x : y) && ustl::max (x, y) == (x < y ? y : x), "value", "min/max(%g,%g)", x, y);
    VC (absv (x) == (x < 0 ? -x : x) && sign (x) == (x > 0) - (x < 0), "value", "absv/sign(%g)", x);
    float f = x; long double l = x; VC (absv (f) == (f < 0 ? -f : f) && absv (l) == (l < 0 ? -l : l) && sign (f) == (f > 0) - (f < 0) && sign (l) == (l > 0) - (l < 0), "value", "absv/sign(%g)", x);
    // a constant array indexed with a limit
    static int arr [7] = { 3, 1, 4, 1, 5, 9, 2 }; size_t i = R.below (20); VC (&VectorElement (arr, i) == &arr[i < 7 ? i : 6], "value", "VectorElement(7,%zu)", i);
    uint32_t n1 = any<uint32_t>(); uint8_t n2 = R.below (255) + 1; if (u64(n1) + n2 - 1 <= 0xFFFFFFFFu) EQ (DivRU (n1, n2), (u64(n1) + n2 - 1) / n2, "DivRU(%u,%u)", n1, n2);
    i64 m1 = any<int>(); int m2 = R.below (1000) + 1; EQ (DivRU (m1, m2), m1 >= 0 ? (m1 + m2 - 1) / m2 : -((-m1 + m2 - 1) / m2), "DivRU(%ld,%d) = %ld", m1, m2, DivRU (m1, m2));
    ops (10); sig (hmix (cls (a) * 200 + cls (b), cls (u) * 64 + cls (v)));
}

//--- bits -------------------------------------------------------------------------
template <typename T> [[gnu::noinline]] void bits (void)
{
    const unsigned B = sizeof(T) * 8; T v = opq (T (R.bits())); size_t n = opq (R.below (B));
    T l = 0, r = 0; for (unsigned i = 0; i < B; ++i) if (v >> i & 1) { l |= T (T(1) << (i + n) % B); r |= T (T(1) << (i + B - n) % B); }
    EQ (Rol (v, n), l, "Rol<%u>(%llx,%zu) = %llx", B, LL(v), n, LL(Rol (v, n)));
    EQ (Ror (v, n), r, "Ror<%u>(%llx,%zu) = %llx", B, LL(v), n, LL(Ror (v, n)));
    T s = 0; for (unsigned i = 0; i < B / 8; ++i) s |= T (T (v >> i * 8 & 0xFF) << (B - 8 - i * 8));
    EQ (bswap (v), s, "bswap<%u>(%llx) = %llx", B, LL(v), LL(bswap (v)));
    uint8_t le [8], be [8]; for (unsigned i = 0; i < B / 8; ++i) { le[i] = v >> i * 8; be[B / 8 - 1 - i] = v >> i * 8; }
    T x; memcpy (&x, le, sizeof(T)); EQ (le_to_native (x), v, "le_to_native<%u>(%llx)", B, LL(v)); EQ (native_to_le (v), x, "native_to_le<%u>(%llx)", B, LL(v));
    memcpy (&x, be, sizeof(T)); EQ (be_to_native (x), v, "be_to_native<%u>(%llx)", B, LL(v)); EQ (native_to_be (v), x, "native_to_be<%u>(%llx)", B, LL(v));
    unsigned m = 1 + R.below (B); T bm = 0; for (unsigned i = 0; i < m; ++i) bm |= T (T(1) << i);
    EQ (BitMask (T, m), bm, "BitMask(uint%u_t,%u)", B, m);
    sig (hmix (B, cls (v) * 64 + n));
}
template <typename T, typename U> [[gnu::noinline]] void sbswap (void)
{
    T v = opq (T (R.bits())); U u = v, s = 0; for (unsigned i = 0; i < sizeof(U); ++i) s |= U (U (u >> i * 8 & 0xFF) << (sizeof(U) - 1 - i) * 8);
    EQ (bswap (v), T(s), "bswap<int%zu>(%lld) = %lld", sizeof(T) * 8, LL(v), LL(bswap (v)));
    EQ (native_to_be (v), T(s), "native_to_be<int%zu>(%lld)", sizeof(T) * 8, LL(v)); EQ (native_to_le (v), v, "native_to_le<int%zu>(%lld)", sizeof(T) * 8, LL(v));
    EQ (be_to_native (T(s)), v, "be_to_native<int%zu>(%lld)", sizeof(T) * 8, LL(v)); EQ (le_to_native (v), v, "le_to_native<int%zu>(%lld)", sizeof(T) * 8, LL(v));
}
template <typename S, typename G> [[gnu::noinline]] void pack (void)
{
    S v = opq (S (R.bits())); G g = G (R.next()); pack_type (v, g);
    G want = 0; for (unsigned i = 0; i < sizeof(G) / sizeof(S); ++i) memcpy ((char*) &want + i * sizeof(S), &v, sizeof(S));
    EQ (g, want, "pack_type<%zu,%zu>(%llx) = %llx", sizeof(S), sizeof(G), LL(v), LL(g));
    sig (hmix (sizeof(S) * 16 + sizeof(G), cls (v)));
}
unsigned long top (u64 v, u64 none) { if (!v) return none; unsigned i = 0; while (v >>= 1) ++i; return i; }
VF_CASE (c23_bits, 6000, 60000)
{
    for (unsigned i = 0; i < 4; ++i) {
#define X(T) bits<T>();
	UINTS (X)
#undef X
	sbswap<int8_t,uint8_t>(); sbswap<int16_t,uint16_t>(); sbswap<int32_t,uint32_t>(); sbswap<int64_t,uint64_t>();
	pack<uint8_t,uint8_t>(); pack<uint8_t,uint16_t>(); pack<uint8_t,uint32_t>(); pack<uint8_t,uint64_t>(); pack<uint16_t,uint16_t>(); pack<uint16_t,uint32_t>(); pack<uint16_t,uint64_t>(); pack<uint32_t,uint32_t>(); pack<uint32_t,uint64_t>(); pack<uint64_t,uint64_t>();
	uint32_t a = opq (uint32_t (R.bits())); uint64_t b = opq (R.bits()); size_t none = R.below (1000);
	EQ (FirstBit (a, none), top (a, none), "FirstBit(%x,%zu) = %zu", a, none, size_t(FirstBit (a, none)));
	EQ (FirstBit (b, none), top (b, none), "FirstBit(%lx,%zu) = %zu", b, none, size_t(FirstBit (b, none)));
	unsigned pa = 0, pb = 0; for (unsigned j = 0; j < 64; ++j) { pa += j < 32 && (a >> j & 1); pb += b >> j & 1; }
	EQ (popcount (a), pa, "popcount(%x) = %zu", a, size_t(popcount (a))); EQ (popcount (b), pb, "popcount(%lx) = %zu", b, size_t(popcount (b)));
	uint32_t n = a; if (n < 2) n += 2; if (n > 0x80000000u) n >>= 1; n = opq (n);
	u64 p2 = 1; while (p2 < n) p2 *= 2;
	EQ (NextPow2 (n), p2, "NextPow2(%u) = %u", n, NextPow2 (n));
	EQ (bswap_8 (a), uint8_t(a), "bswap_8"); EQ (bswap_16 (a), uint16_t((a & 0xFF) << 8 | (a >> 8 & 0xFF)), "bswap_16(%x)", a);
	EQ (bswap_32 (a), a >> 24 | (a >> 8 & 0xFF00) | (a << 8 & 0xFF0000) | a << 24, "bswap_32(%x)", a);
	u64 sw = 0; for (unsigned j = 0; j < 8; ++j) sw = sw << 8 | (b >> j * 8 & 0xFF); EQ (bswap_64 (b), sw, "bswap_64(%lx)", b);
	sig (hmix (cls (a), cls (b) * 32 + pb));
    }
}
// The same with constant arguments, which take other paths
VF_CASE (c23_constants, 4, 8)
{
#define FB(v)	EQ (FirstBit (uint32_t(v), 77), top (uint32_t(v), 77), "FirstBit(" #v ")"); EQ (FirstBit (uint64_t(v), 77), top (uint64_t(v), 77), "FirstBit(uint64 " #v ")"); \
    EQ (FirstBit (uint64_t(v) << 31, 77), top (uint64_t(v) << 31, 77), "FirstBit(uint64 " #v "<<31)");
    FB(0) FB(1) FB(2) FB(3) FB(4) FB(7) FB(8) FB(255) FB(256) FB(65535) FB(65536) FB(0x7FFFFFFF) FB(0x80000000) FB(0xFFFFFFFF)
#define NP(v,r) EQ (NextPow2 (v), r, "NextPow2(" #v ")");
    NP(2,2) NP(3,4) NP(4,4) NP(5,8) NP(255,256) NP(256,256) NP(257,512) NP(0x7FFFFFFF,0x80000000u) NP(0x80000000u,0x80000000u) NP(0x40000001,0x80000000u)
    static_assert (gcd (36, 60) == 12 && lcm (4, 6) == 12 && absv (-3) == 3 && sign (-3) == -1 && Align (13, 4) == 16 && AlignDown (13, 4) == 12, "constant expressions");
    static_assert (ustl::min (3, 4) == 3 && ustl::max (3, 4) == 4 && bswap (uint16_t (0x1234)) == 0x3412 && DivRU (7, 2) == 4, "constant expressions");
    static_assert (Rol (uint8_t (0x81), 1) == 0x103 || uint8_t (Rol (uint8_t (0x81), 1)) == 3, "constant expressions");
    VC ((numeric_limits<float>::max() == __FLT_MAX__) && numeric_limits<float>::min() == __FLT_MIN__ && numeric_limits<float>::lowest() == -__FLT_MAX__ && numeric_limits<float>::epsilon() == __FLT_EPSILON__, "limits", "float");
    VC ((numeric_limits<double>::max() == __DBL_MAX__) && numeric_limits<double>::min() == __DBL_MIN__ && numeric_limits<double>::lowest() == -__DBL_MAX__ && numeric_limits<double>::epsilon() == __DBL_EPSILON__, "limits", "double");
    VC ((numeric_limits<long double>::max() == __LDBL_MAX__) && numeric_limits<long double>::min() == __LDBL_MIN__ && numeric_limits<long double>::lowest() == -__LDBL_MAX__ && numeric_limits<long double>::epsilon() == __LDBL_EPSILON__, "limits", "long double");
    VC (numeric_limits<float>::infinity() > __FLT_MAX__ && numeric_limits<double>::infinity() > __DBL_MAX__ && numeric_limits<long double>::infinity() > __LDBL_MAX__, "limits", "infinity");
    float qf = numeric_limits<float>::quiet_NaN(); double qd = numeric_limits<double>::quiet_NaN(); VC (qf != qf && qd != qd, "limits", "quiet_NaN");
    VC (numeric_limits<float>::is_signed && !numeric_limits<float>::is_integer && numeric_limits<double>::is_signed && !numeric_limits<double>::is_integer && !numeric_limits<bool>::is_signed && !numeric_limits<bool>::min() && numeric_limits<bool>::max(), "limits", "flags");
    VC (numeric_limits<float>::digits == __FLT_MANT_DIG__ && numeric_limits<double>::digits == __DBL_MANT_DIG__ && numeric_limits<float>::digits10 == __FLT_DIG__ && numeric_limits<double>::digits10 == __DBL_DIG__, "limits", "digits");
    VC (numeric_limits<float>::max_exponent == __FLT_MAX_EXP__ && numeric_limits<double>::min_exponent == __DBL_MIN_EXP__ && numeric_limits<double>::max_exponent10 == __DBL_MAX_10_EXP__ && numeric_limits<float>::min_exponent10 == __FLT_MIN_10_EXP__, "limits", "exponents");
#define ILIM(t) VC (!numeric_limits<t>::has_infinity && !numeric_limits<t>::has_quiet_NaN && !numeric_limits<t>::has_signaling_NaN && !numeric_limits<t>::is_iec559 && !numeric_limits<t>::infinity() && !numeric_limits<t>::quiet_NaN() && !numeric_limits<t>::epsilon() && !numeric_limits<t>::min_exponent && !numeric_limits<t>::max_exponent && numeric_limits<t>::radix == 2, "limits", #t);
    ILIM(bool) ILIM(char) ILIM(signed char) ILIM(unsigned char) ILIM(short) ILIM(unsigned short) ILIM(int) ILIM(unsigned) ILIM(long) ILIM(unsigned long) ILIM(long long) ILIM(unsigned long long)
#define FLIM(t) VC (numeric_limits<t>::has_infinity && numeric_limits<t>::has_quiet_NaN && numeric_limits<t>::is_iec559 && numeric_limits<t>::is_specialized && numeric_limits<t>::is_bounded && !numeric_limits<t>::is_exact && !numeric_limits<t>::is_modulo && numeric_limits<t>::radix == 2 && numeric_limits<t>::round_error() == 0.5, "limits", #t);
    FLIM(float) FLIM(double) FLIM(long double)
    VC (!numeric_limits<int*>::min() && uintptr_t (numeric_limits<int*>::max()) == UINTPTR_MAX && !numeric_limits<int*>::is_signed, "limits", "pointer");
    VC (!(numeric_limits<double>::quiet_NaN() == numeric_limits<double>::quiet_NaN()) && !(numeric_limits<double>::signaling_NaN() < 0) && numeric_limits<double>::has_denorm == denorm_present, "limits", "double");
    VC (numeric_limits<float>::denorm_min() == __FLT_DENORM_MIN__ && numeric_limits<double>::denorm_min() == __DBL_DENORM_MIN__, "limits", "denormals");
    ops (30); sig (9);
}

//--- pointers ------------------------------------------------------------------------
struct NoAddr { int v; NoAddr* operator& (void) { return nullptr; } const NoAddr* operator& (void) const { return nullptr; } };
struct Ord { int v; bool operator== (const Ord& o) const { return v == o.v; } bool operator< (const Ord& o) const { return v < o.v; } };
unsigned g_deleted = 0;
struct Del { ~Del (void) { ++g_deleted; } };
template <typename T> [[gnu::noinline]] void ptrs (void)
{
    static T a [300]; i64 i = R.below (300), j = R.below (300); T* p = a + i; T* q = a + j; const T* cp = p;
    EQ (distance (p, q), j - i, "distance of %ld and %ld", i, j); EQ (distance (cp, (const T*) q), j - i, "distance"); EQ (abs_distance (p, q), j > i ? j - i : i - j, "abs_distance of %ld and %ld", i, j);
    VC (advance_ptr (p, j - i) == q && advance_ptr (cp, j - i) == q, "value", "advance_ptr by %ld", j - i);
    T* m = p; T* r = advance (m, j - i); VC (r == q && m == q, "value", "advance by %ld", j - i);
    VC (pointer_cast<char> (p) == (char*) p && pointer_cast<char> (cp) == (const char*) p, "value", "pointer_cast");
    i64 bi = (char*) p - (char*) a, bj = (char*) q - (char*) a; void* vp = p; const void* cvp = p; void* vq = q; const void* cvq = q;
    EQ (distance (vp, vq), bj - bi, "distance of void*"); EQ (distance (cvp, cvq), bj - bi, "distance of const void*"); EQ (distance (vp, cvq), bj - bi, "distance of void*, const void*"); EQ (distance (cvp, vq), bj - bi, "distance of const void*, void*");
    EQ (abs_distance (vp, cvq), bj > bi ? bj - bi : bi - bj, "abs_distance of void*");
    VC (advance_ptr (vp, bj - bi) == vq && advance_ptr (cvp, bj - bi) == cvq, "value", "advance_ptr of void*");
    void* mv = vp; const void* mcv = cvp; VC (advance (mv, bj - bi) == vq && mv == vq && advance (mcv, bj - bi) == cvq && mcv == cvq, "value", "advance of void*");
    sig (hmix (sizeof(T) * 1000 + 77, (i < j) + 2 * (i > j)));
}
VF_CASE (c23_pointers, 1500, 8000)
{
    ptrs<char>(); ptrs<int>(); ptrs<double>(); ptrs<NoAddr>();
    NoAddr n; n.v = 5; VC (addressof (n) == (NoAddr*) (void*) &n.v, "value", "addressof");
    const NoAddr cn = {3}; VC (addressof (cn) == (const NoAddr*) (const void*) &cn.v, "value", "addressof const");
    Ord a = { int (R.below (3)) }, b = { int (R.below (3)) };
    VC ((a != b) == (a.v != b.v) && (a > b) == (a.v > b.v) && (a <= b) == (a.v <= b.v) && (a >= b) == (a.v >= b.v), "value", "derived comparisons of %d and %d", a.v, b.v);
    g_deleted = 0; Del* d = new Del; Delete (d); VC (!d && g_deleted == 1, "value", "Delete"); size_t k = R.below (20); d = new Del [k]; DeleteVector (d); VC (!d && g_deleted == 1 + k, "value", "DeleteVector");
    VC (!NullPointer<int>(), "value", "NullPointer");
    uint32_t u = any<uint32_t>(); float f = noalias_cast<float> (u); VC (!memcmp (&f, &u, 4), "value", "noalias_cast<float>(%x)", u);
    uint64_t v = any<uint64_t>(); double g = noalias_cast<double> (v); VC (!memcmp (&g, &v, 8), "value", "noalias_cast<double>(%lx)", v);
    float ff = 0; ff = noalias (ff, &u); VC (!memcmp (&ff, &u, 4), "value", "noalias<float>(%x)", u);
    int lock = R.below (3); int was = lock; bool ts = TestAndSet (&lock); VC (ts == !was && lock == 1, "value", "TestAndSet of %d gave %d and left %d", was, ts, lock);
    ops (12);
}
} // namespace
