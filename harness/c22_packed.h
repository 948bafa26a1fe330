// C22: tuple, array, matrix and packed operations compute elementwise like scalar code.
#pragma once
#include "vf.h"
#include "cpu.h"
#include <math.h>
#include <float.h>
using namespace vf;
namespace {
typedef __int128 wide;
template <typename T> struct Ty { enum { flt = 0, sgn = T(-1) < T(0) }; static wide lo (void) { return sgn ? -(wide(1) << (sizeof(T)*8-1)) : 0; } static wide hi (void) { return (wide(1) << (sizeof(T)*8 - sgn)) - 1; } };
template <> struct Ty<float> { enum { flt = 1, sgn = 1 }; static wide lo (void) { return 0; } static wide hi (void) { return 0; } };
template <> struct Ty<double> { enum { flt = 1, sgn = 1 }; static wide lo (void) { return 0; } static wide hi (void) { return 0; } };
template <typename T> const char* tname (void) { return "?"; }
#define NM(t) template <> const char* tname<t> (void) { return #t; }
NM(int8_t) NM(uint8_t) NM(int16_t) NM(uint16_t) NM(int32_t) NM(uint32_t) NM(int64_t) NM(uint64_t) NM(float) NM(double)

enum Kind { ANY, SUM, PROD, DIVISOR, SMALL, NONNEG, SHIFT, POS };
// An element value that the scalar operation is defined for.
template <typename T> __attribute__((noinline)) T val (Kind k)
{
    if (Ty<T>::flt) {
	double v;
	switch (R.below (6)) {
	    case 0: v = double (R.range (-20, 20)); break;
	    case 1: v = double (R.range (-100000, 100000)) / 8; break;
	    case 2: v = double (i64 (R.next()) >> 11) / (1ull << 30); break;
	    case 3: v = double (i64 (R.next()) >> 11) * (k == ANY || k == SUM ? 1e10 : 1e-3); break;
	    case 4: v = 0; break;
	    default: v = double (R.range (-3000, 3000)) / 7; break;
	}
	if ((k == DIVISOR || k == POS) && v == 0) v = 3;
	if ((k == NONNEG || k == POS) && v < 0) v = -v;
	if (k == SMALL) v = double (R.range (-100, 100)) / 4;
	return T (v);
    }
    wide lo = Ty<T>::lo(), hi = Ty<T>::hi(), v;
    if (sizeof(T) >= 4 && Ty<T>::sgn) {	// results must fit: the scalar operation would be undefined
	if (k == SUM) { lo /= 2; hi /= 2; }
	if (k == PROD) { lo = sizeof(T) == 4 ? -46000 : -3000000000ll; hi = -lo; }
    }
    if (k == SMALL) { lo = Ty<T>::sgn ? -11 : 0; hi = 11; }
    if (k == NONNEG || k == POS) lo = 0;
    switch (R.below (5)) {
	case 0: v = lo + R.below (3); break;
	case 1: v = hi - R.below (3); break;
	case 2: v = wide (R.below (20)) - (Ty<T>::sgn ? 10 : 0); break;
	default: v = lo + wide (R.next()) % (hi - lo + 1); break;
    }
    if (v < lo) v = lo; if (v > hi) v = hi;
    if (k == SHIFT) v = R.below (sizeof(T) * 8 - (Ty<T>::sgn ? 1 : 0));
    if (k == DIVISOR && (v == 0 || v == -1)) v = 2;
    if (k == POS && v <= 0) v = 1;
    return T (v);
}
template <typename T> bool same (T a, T b) { return a == b || (a != a && b != b); }
template <typename T> bool near_ (T a, T b) { double d = double (a) - double (b), m = fabs (double (b)); if (d < 0) d = -d; return a == b || d <= (m < 1e-30 ? 1e-30 : m) * (sizeof(T) == 4 ? 1e-6 : 1e-14); }
template <typename T> T sat (T a, T b, bool sub)
{
    if (Ty<T>::flt) return sub ? T (a - b) : T (a + b);
    wide r = sub ? wide (a) - wide (b) : wide (a) + wide (b);
    return r < Ty<T>::lo() ? T (Ty<T>::lo()) : r > Ty<T>::hi() ? T (Ty<T>::hi()) : T (r);
}
template <typename T> T avg (T a, T b)
{
    if (Ty<T>::flt) return T ((a + b) / 2);
    wide s = wide (a) + wide (b) + 1;
    wide q = s / 2; if (s < 0 && s % 2) --q;
    return T (q);
}

// A container at any alignment its elements allow, between canaries.
template <typename C> struct Box {
    char* mem; C* c; size_t off;
    typedef typename C::value_type T;
    Box (void) { mem = (char*) arena (sizeof(C) + 160); off = 32 + R.below (32 / alignof (C)) * alignof (C); memset (mem, 0x6B, sizeof(C) + 160); while (size_t (mem + off) % alignof (C)) ++off; c = new (mem + off) C; }
    void check (const char* op) const { for (size_t i = 0; i < off; ++i) VC (mem[i] == 0x6B, "red-zone", "%s wrote before its operand", op); for (size_t i = off + sizeof(C); i < sizeof(C) + 160; ++i) VC (mem[i] == 0x6B, "red-zone", "%s wrote behind its operand", op); }
};

template <typename C, typename T, size_t N> struct Ops {
    Box<C> a, b, r;
    T va [N], vb [N], vr [N];
    char what [80];
    const char* kind;
    __attribute__((noinline)) void load (Kind ka, Kind kb) {
	for (size_t i = 0; i < N; ++i) { va[i] = val<T>(ka); vb[i] = val<T>(kb); vr[i] = val<T>(SMALL); (*a.c)[i] = va[i]; (*b.c)[i] = vb[i]; (*r.c)[i] = vr[i]; }
    }
    __attribute__((noinline)) void begin (const char* op) { snprintf (what, sizeof(what), "%s on %s<%zu,%s>", op, kind, N, tname<T>()); }
    // compares all three
    __attribute__((noinline)) void end (bool approx = false) {
	ops();
	cpu_check (what);
	a.check (what); b.check (what); r.check (what);
	for (size_t i = 0; i < N; ++i) {
	    #define SH(x) (double)(x)
	    VC (approx ? near_ ((*r.c)[i], vr[i]) : same ((*r.c)[i], vr[i]), "value", "%s: element %zu of the result is %.9g, expected %.9g (from %.9g and %.9g)", what, i, SH((*r.c)[i]), SH(vr[i]), SH(va[i]), SH(vb[i]));
	    VC (same ((*a.c)[i], va[i]) && same ((*b.c)[i], vb[i]), "operand", "%s: element %zu of an operand changed", what, i);
	}
	sig (hbytes (what, strlen (what)));
    }
};

#define BIN(opname, expr, KA, KB, ...) { o.load (KA, KB); o.begin (opname); const C &A (*o.a.c), &B (*o.b.c); C& Q (*o.r.c); (void) A; (void) B; for (size_t i = 0; i < N; ++i) { const T x = o.va[i], y = o.vb[i]; (void) x; (void) y; o.vr[i] = T (expr); } __VA_ARGS__; o.end(); }

// Operators shared by tuple and array
template <typename C, typename T, size_t N> void operators (const char* kind)
{
    static Ops<C,T,N>* po; Ops<C,T,N> oo; oo.kind = kind; po = &oo; Ops<C,T,N>& o (*po);
    unsigned op = R.below (24);
    switch (op) {
	case 0: BIN ("+", x + y, SUM, SUM, (Q = A + B)); break;
	case 1: BIN ("-", x - y, SUM, SUM, (Q = A - B)); break;
	case 2: BIN ("*", x * y, PROD, PROD, (Q = A * B)); break;
	case 3: BIN ("/", x / y, ANY, DIVISOR, (Q = A / B)); break;
	case 4: BIN ("+=", x + y, SUM, SUM, (Q = A, Q += B)); break;
	case 5: BIN ("-=", x - y, SUM, SUM, (Q = A, Q -= B)); break;
	case 6: BIN ("*=", x * y, PROD, PROD, (Q = A, Q *= B)); break;
	case 7: BIN ("/=", x / y, ANY, DIVISOR, (Q = A, Q /= B)); break;
	case 8: { T s = val<T>(SUM); BIN ("+ scalar", x + s, SUM, ANY, (Q = A + s)); } break;
	case 9: { T s = val<T>(SUM); BIN ("- scalar", x - s, SUM, ANY, (Q = A - s)); } break;
	case 10: { T s = val<T>(PROD); BIN ("* scalar", x * s, PROD, ANY, (Q = A * s)); } break;
	case 11: { T s = val<T>(DIVISOR); BIN ("/ scalar", x / s, ANY, ANY, (Q = A / s)); } break;
	case 12: { T s = val<T>(SUM); BIN ("+= scalar", x + s, SUM, ANY, (Q = A, Q += s)); } break;
	case 13: { T s = val<T>(SUM); BIN ("-= scalar", x - s, SUM, ANY, (Q = A, Q -= s)); } break;
	case 14: { T s = val<T>(PROD); BIN ("*= scalar", x * s, PROD, ANY, (Q = A, Q *= s)); } break;
	case 15: { T s = val<T>(DIVISOR); BIN ("/= scalar", x / s, ANY, ANY, (Q = A, Q /= s)); } break;
	case 16: BIN ("copy", x, ANY, ANY, { C t (A); Q = t; }); break;
	case 17: BIN ("= itself", x, ANY, ANY, { Q = A; C& q2 (Q); Q = q2; }); break;
	case 18: { o.load (ANY, ANY); o.begin ("swap"); C t (*o.a.c); t.swap (*o.r.c); for (size_t i = 0; i < N; ++i) { T x = o.vr[i]; VC (same (t[i], x), "value", "%s: element %zu", o.what, i); o.vr[i] = o.va[i]; } o.end(); } break;
	case 19: { o.load (ANY, ANY); o.begin ("comparison");
	    size_t k = R.below (N + 1); for (size_t i = 0; i < k; ++i) { o.vb[i] = o.va[i]; (*o.b.c)[i] = o.va[i]; }	// equal up to k
	    bool eq = true, lt = false, done = false;
	    for (size_t i = 0; i < N; ++i) { if (!done && o.va[i] < o.vb[i]) { lt = true; done = true; } else if (o.vb[i] < o.va[i]) done = true; eq &= o.va[i] == o.vb[i]; }
	    VC ((*o.a.c == *o.b.c) == eq, "equal", "%s: == is wrong", o.what); VC ((*o.a.c < *o.b.c) == lt, "less", "%s: < is wrong (equal up to %zu)", o.what, k);
	    VC (*o.a.c == *o.a.c && !(*o.a.c < *o.a.c), "equal", "%s: with itself", o.what);
	    o.end(); } break;
	case 20: { o.load (ANY, ANY); o.begin ("access"); const C& A (*o.a.c); VC (A.size() == N && A.max_size() == N && !A.empty() && A.end() - A.begin() == ptrdiff_t (N) && o.r.c->end() - o.r.c->begin() == ptrdiff_t (N), "size", "%s", o.what);
	    for (size_t i = 0; i < N; ++i) { VC (same (A.at (i), o.va[i]) && same (A.begin()[i], o.va[i]), "access", "%s: element %zu", o.what, i); T v = val<T>(ANY); if (i % 2) o.r.c->at (i) = v; else o.r.c->begin()[i] = v; o.vr[i] = v; } o.end(); } break;
	case 21: BIN ("+= itself", x + x, SUM, ANY, (Q = A, Q += Q)); break;
	case 22: BIN ("-= itself", x - x, ANY, ANY, (Q = A, Q -= Q)); break;
	case 23: BIN ("*= itself", x * x, PROD, ANY, (Q = A, Q *= Q)); break;
    }
}

template <typename T, size_t N> void array_run (void)
{
    typedef ustl::array<T,N> C;
    for (unsigned i = 0; i < 12; ++i) operators<C,T,N> ("array");
    Ops<C,T,N> o; o.kind = "array";
    T s = val<T>(SMALL), d = val<T>(SUM); std::initializer_list<T> il = { s, T(3), d, s, T(1), T(7), d, T(2), s, T(4), d, s, T(1), T(7), d, T(2), s }; const T* l = il.begin();
    if (N <= il.size()) switch (R.below (9)) {
	case 0: BIN ("+ list", x + l[i], SUM, ANY, (Q = A + il)); break;
	case 1: BIN ("- list", x - l[i], SUM, ANY, (Q = A - il)); break;
	case 2: { T p = val<T>(SMALL); std::initializer_list<T> il = { p, T(3), p, p, T(1), T(7), p, T(2), p, T(4), p, p, T(1), T(7), p, T(2), p }; const T* l = il.begin(); BIN ("* list", x * l[i], SMALL, ANY, (Q = A * il)); } break;
	case 3: d = val<T>(DIVISOR); { std::initializer_list<T> il = { d, T(3), d, d, T(1), T(7), d, T(2), d, T(4), d, d, T(1), T(7), d, T(2), d }; const T* l = il.begin(); BIN ("/ list", x / l[i], SMALL, ANY, (Q = A / il)); } break;
	case 4: BIN ("+= list", x + l[i], SUM, ANY, (Q = A, Q += il)); break;
	case 5: BIN ("-= list", x - l[i], SUM, ANY, (Q = A, Q -= il)); break;
	case 6: { T p = val<T>(SMALL); std::initializer_list<T> il = { p, T(3), p, p, T(1), T(7), p, T(2), p, T(4), p, p, T(1), T(7), p, T(2), p }; const T* l = il.begin(); BIN ("*= list", x * l[i], SMALL, ANY, (Q = A, Q *= il)); } break;
	case 7: d = val<T>(DIVISOR); { std::initializer_list<T> il = { d, T(3), d, d, T(1), T(7), d, T(2), d, T(4), d, d, T(1), T(7), d, T(2), d }; const T* l = il.begin(); BIN ("/= list", x / l[i], SMALL, ANY, (Q = A, Q /= il)); } break;
	case 8: { T v = val<T>(ANY); BIN ("fill", v, ANY, ANY, Q.fill (v)); } break;
    }
}

template <typename T, size_t N, typename T2> void convert (Ops<ustl::tuple<N,T>,T,N>& o)
{
    ustl::tuple<N,T2> s; T2 v [N];
    for (size_t i = 0; i < N; ++i) v[i] = s[i] = T2 (val<int8_t>(NONNEG)) + (Ty<T2>::flt && Ty<T>::flt ? T2 (0.25) : T2 (0));
    typedef ustl::tuple<N,T> C;
    #define CK for (size_t i = 0; i < N; ++i) VC (s[i] == v[i], "operand", "%s changed its source", o.what)
    switch (R.below (6)) {
	case 0: BIN ("converting =", v[i], ANY, ANY, (Q = s)); CK; break;
	case 1: BIN ("converting constructor", v[i], ANY, ANY, { C q (s); Q = q; }); CK; break;
	case 2: BIN ("+= of other type", x + v[i], SMALL, ANY, (Q = A, Q += s)); CK; break;
	case 3: BIN ("- of other type", x - v[i], SMALL, ANY, (Q = A - s)); CK; break;
	case 4: BIN ("* of other type", x * v[i], SMALL, ANY, (Q = A * s)); CK; break;
	case 5: { for (size_t i = 0; i < N; ++i) { s[i] = v[i] = v[i] == T2(0) ? T2(3) : v[i]; } BIN ("/= of other type", x / v[i], SMALL, ANY, (Q = A, Q /= s)); CK; } break;
    }
}

template <typename T, size_t N, bool INT> struct Bitwise { static void run (Ops<ustl::tuple<N,T>,T,N>& o) {
    typedef ustl::tuple<N,T> C;
    switch (R.below (11)) {
	case 0: BIN ("pand", x & y, ANY, ANY, (Q = B, ustl::simd::pand (A, Q))); break;
	case 1: BIN ("por", x | y, ANY, ANY, (Q = B, ustl::simd::por (A, Q))); break;
	case 2: BIN ("pxor", x ^ y, ANY, ANY, (Q = B, ustl::simd::pxor (A, Q))); break;
	case 3: BIN ("pshl", 0, SMALL, SHIFT, { C P (A); for (size_t i = 0; i < N; ++i) { if (P[i] < T(0)) { P[i] = 1; } } C S (B); for (size_t i = 0; i < N; ++i) { if (sizeof(T) >= 4 && Ty<T>::sgn) S[i] = S[i] % 20; o.vr[i] = T (P[i] << S[i]); } Q = P; ustl::simd::pshl (S, Q); }); break;
	case 4: BIN ("pshr", x >> y, ANY, SHIFT, (Q = A, ustl::simd::pshr (B, Q))); break;
	case 5: BIN ("pand3", x & y, ANY, ANY, (ustl::simd::pand (A, B, Q))); break;
	case 6: BIN ("por3", x | y, ANY, ANY, (ustl::simd::por (A, B, Q))); break;
	case 7: BIN ("pxor3", x ^ y, ANY, ANY, (ustl::simd::pxor (A, B, Q))); break;
	case 8: BIN ("pshr3", x >> y, ANY, SHIFT, (ustl::simd::pshr (A, B, Q))); break;
	case 9: BIN ("pshl3", 0, POS, SHIFT, { C P (A), S (B); for (size_t i = 0; i < N; ++i) { if (sizeof(T) >= 4 && Ty<T>::sgn) { P[i] = P[i] % 128; S[i] = S[i] % 20; } o.vr[i] = T (P[i] << S[i]); } ustl::simd::pshl (P, S, Q); }); break;
	case 10: BIN ("pxor itself", 0, ANY, ANY, (Q = A, ustl::simd::pxor (Q, Q))); break;
    } } };
template <typename T, size_t N> struct Bitwise<T,N,false> { static void run (Ops<ustl::tuple<N,T>,T,N>& o) {	// numeric functions
    typedef ustl::tuple<N,T> C; namespace S = ustl::simd;
    bool ap = true;
    #define UN(nm, expr, K, stmt) { o.load (K, ANY); o.begin (nm); for (size_t i = 0; i < N; ++i) { const T x = o.va[i]; o.vr[i] = T (expr); } { C& Q (*o.r.c); Q = *o.a.c; stmt; } o.end (ap); }
    switch (R.below (12)) {
	case 0: UN ("psqrt", sqrt (x), NONNEG, S::psqrt (Q)); break;
	case 1: UN ("precip", 1 / x, POS, S::precip (Q)); break;
	case 2: UN ("precipsqrt", 1 / sqrt (x), POS, S::precipsqrt (Q)); break;
	case 3: UN ("psin", sin (x), SMALL, S::psin (Q)); break;
	case 4: UN ("pcos", cos (x), SMALL, S::pcos (Q)); break;
	case 5: UN ("ptan", tan (x), SMALL, S::ptan (Q)); break;
	case 6: UN ("ssqrt", sqrt (x), NONNEG, for (size_t i = 0; i < N; ++i) Q[i] = S::ssqrt (Q[i])); break;
	case 7: UN ("srecip", 1 / x, POS, for (size_t i = 0; i < N; ++i) Q[i] = S::srecip (Q[i])); break;
	case 8: UN ("srecipsqrt", 1 / sqrt (x), POS, for (size_t i = 0; i < N; ++i) Q[i] = S::srecipsqrt (Q[i])); break;
	case 9: UN ("ssin", sin (x), SMALL, for (size_t i = 0; i < N; ++i) Q[i] = S::ssin (Q[i])); break;
	case 10: UN ("scos", cos (x), SMALL, for (size_t i = 0; i < N; ++i) Q[i] = S::scos (Q[i])); break;
	case 11: UN ("stan", tan (x), SMALL, for (size_t i = 0; i < N; ++i) Q[i] = S::stan (Q[i])); break;
    } } };

template <typename T, size_t N> void packed (Ops<ustl::tuple<N,T>,T,N>& o)
{
    typedef ustl::tuple<N,T> C; namespace S = ustl::simd;
    const char keep = 0; (void) keep;
    #define P2(fn, expr, KA, KB) { if (R.chance (1,2)) BIN (#fn, expr, KA, KB, (Q = A, S::fn (B, Q))) else BIN (#fn "3", expr, KA, KB, (S::fn (A, B, Q))) }
    switch (R.below (13)) {
	case 0: P2 (padd, x + y, SUM, SUM); break;
	case 1: P2 (psub, x - y, SUM, SUM); break;
	case 2: P2 (pmul, x * y, PROD, PROD); break;
	case 3: P2 (pdiv, x / y, ANY, DIVISOR); break;
	case 4: P2 (pmin, (y < x ? y : x), ANY, ANY); break;
	case 5: P2 (pmax, (x < y ? y : x), ANY, ANY); break;
	case 6: P2 (pavg, (avg<T> (x, y)), ANY, ANY); break;
	case 7: P2 (psubs, (sat<T> (x, y, true)), ANY, ANY); break;
	case 8: BIN ("padds3", (sat<T> (x, y, false)), ANY, ANY, (S::padds (A, B, Q))); break;
	case 9: BIN ("packop padds", (sat<T> (x, y, false)), ANY, ANY, (Q = A, S::packop (B, Q, S::fpadds<T>()))); break;
	case 10: BIN ("passign", x, ANY, ANY, (S::passign (A, Q))); break;
	case 11: BIN ("ipassign", x, ANY, ANY, { T* u = (T*) ro_copy (o.va, sizeof(o.va)); S::ipassign (u, Q); }); break;
	case 12: BIN ("pavg itself", x, ANY, ANY, (Q = A, S::pavg (Q, Q))); break;
    }
}

template <typename S_, typename D, size_t N> void rounding (void)
{
    ustl::tuple<N,S_> s; Box<ustl::tuple<N,D> > d; S_ v [N];
    for (size_t i = 0; i < N; ++i) {
	double x = 0;
	switch (R.below (5)) {
	    case 0: x = double (R.range (-1000, 1000)) / 2; break;	// ties
	    case 1: x = double (R.range (-40000, 40000)) / 7; break;
	    case 2: x = double (i64 (R.next()) >> (Ty<D>::flt || sizeof(D) == 8 ? 12 : 33)); break;
	    case 3: x = double (R.range (0x7FFFFF00, 0xFFFFFF00)); break;
	    case 4: x = double (R.range (-3, 3)) / 4; break;
	}
	if (!Ty<D>::sgn && x < 0) x = -x;
	if (!Ty<D>::flt && sizeof(D) == 4 && Ty<D>::sgn && fabs (x) > 2147483000.0) x /= 4;
	if (!Ty<D>::flt && sizeof(D) == 2) x = fmod (x, 30000);
	if (!Ty<S_>::flt && sizeof(S_) == 4 && Ty<S_>::sgn && fabs (x) > 2147483000.0) x /= 4;
	if (!Ty<S_>::flt && !Ty<S_>::sgn && x < 0) x = -x;
	s[i] = v[i] = S_ (x);
    }
    bool cast = R.chance (1,3), one = !cast && R.chance (1,4);
    char what [80]; snprintf (what, sizeof(what), "%s %s -> %s [%zu]", cast ? "pconvert" : "pround", tname<S_>(), tname<D>(), N);
    if (cast) ustl::simd::pconvert (s, *d.c, ustl::simd::fcast<S_,D>());
    else if (one) for (size_t i = 0; i < N; ++i) { ustl::simd::fround<S_,D> f; (*d.c)[i] = f (s[i]); }
    else ustl::simd::pround (s, *d.c);
    cpu_check (what); d.check (what); ops();
    for (size_t i = 0; i < N; ++i) {
	D e = cast ? D (v[i]) : Ty<S_>::flt ? D (rintl ((long double) v[i])) : D (v[i]);
	VC ((*d.c)[i] == e, cast ? "convert" : "round", "%s: %.12g became %.12g, expected %.12g", what, double (v[i]), double ((*d.c)[i]), double (e));
	VC (s[i] == v[i], "operand", "%s changed its source", what);
	if (!cast && Ty<S_>::flt && fabs (double (v[i])) < 2147483000.0) VC (ustl::simd::sround (s[i]) == int32_t (rintl (v[i])), "sround", "sround (%.12g) is %d", double (v[i]), ustl::simd::sround (s[i]));
    }
    sig (hbytes (what, strlen (what)) + one);
}

template <typename T, size_t N> struct Ctor { static void run (Ops<ustl::tuple<N,T>,T,N>& o) {
    typedef ustl::tuple<N,T> C;
    T p = val<T>(ANY), q = val<T>(ANY), r = val<T>(ANY), t = val<T>(ANY);
    switch (R.below (12)) {
	case 0: BIN ("default constructor", 0, ANY, ANY, { Box<C> z; z.check ("constructor"); Q = *z.c; }); break;
	case 1: BIN ("constructor of one value", p, ANY, ANY, { C z (p); Q = z; }); break;
	case 2: if (N >= 2) BIN ("constructor of two values", (i == 0 ? p : q), ANY, ANY, { C z (p, q); Q = z; }) break;
	case 3: if (N >= 3) BIN ("constructor of three values", (i == 0 ? p : i == 1 ? q : r), ANY, ANY, { C z (p, q, r); Q = z; }) break;
	case 4: if (N >= 4) BIN ("constructor of four values", (i == 0 ? p : i == 1 ? q : i == 2 ? r : t), ANY, ANY, { C z (p, q, r, t); Q = z; }) break;
	case 5: BIN ("constructor from memory", x, ANY, ANY, { const T* u = (const T*) ro_copy (o.va, sizeof(o.va)); C z (u); Q = z; }); break;
	case 6: { std::initializer_list<T> il = { p, q, r }; const T* l = il.begin(); BIN ("= short list", (i < 3 ? l[i] : T(0)), ANY, ANY, (Q = il)); } break;
	case 7: { std::initializer_list<T> il = { p, q, r, t, p, q, r, t, p, q, r, t, p, q, r, t, p, q, r }; const T* l = il.begin(); BIN ("constructor of list", l[i], ANY, ANY, { C z (il); Q = z; }); } break;
	case 8: { std::initializer_list<T> il = { val<T>(SUM), T(3) }; const T* l = il.begin(); BIN ("+= list", (i < 2 ? T (x + l[i]) : x), SUM, ANY, (Q = A, Q += il)); } break;
	case 9: { std::initializer_list<T> il = { val<T>(SUM), T(3), T(1) }; const T* l = il.begin(); BIN ("-= list", (i < 3 ? T (x - l[i]) : x), SUM, ANY, (Q = A, Q -= il)); } break;
	case 10: { std::initializer_list<T> il = { val<T>(PROD), T(3), T(1) }; const T* l = il.begin(); BIN ("*= list", (i < 3 ? T (x * l[i]) : x), PROD, ANY, (Q = A, Q *= il)); } break;
	case 11: { std::initializer_list<T> il = { val<T>(DIVISOR), T(3), T(1) }; const T* l = il.begin(); BIN ("/= list", (i < 3 ? T (x / l[i]) : x), ANY, ANY, (Q = A, Q /= il)); } break;
    } } };

template <typename T, size_t N> void tuple_run (void)
{
    typedef ustl::tuple<N,T> C;
    for (unsigned i = 0; i < 6; ++i) operators<C,T,N> ("tuple");
    Ops<C,T,N> o; o.kind = "tuple";
    for (unsigned i = 0; i < 5; ++i) { packed<T,N> (o); Bitwise<T,N,!Ty<T>::flt>::run (o); Ctor<T,N>::run (o); }
    switch (R.below (7)) {
	case 0: convert<T,N,int8_t> (o); break;
	case 1: convert<T,N,uint16_t> (o); break;
	case 2: convert<T,N,int32_t> (o); break;
	case 3: convert<T,N,float> (o); break;
	case 4: convert<T,N,double> (o); break;
	case 5: convert<T,N,uint64_t> (o); break;
	case 6: convert<T,N,int16_t> (o); break;
    }
    if (want_sample()) sample ("tuple<%zu,%s>: operators, packed operations, constructors, conversions at random alignment", N, tname<T>());
}
template <size_t N> void rounding_run (void)
{
    switch (R.below (11)) {
	case 0: rounding<float,int32_t,N>(); break;
	case 1: rounding<double,int32_t,N>(); break;
	case 2: rounding<float,uint32_t,N>(); break;
	case 3: rounding<double,int64_t,N>(); break;
	case 4: rounding<double,float,N>(); break;
	case 5: rounding<int32_t,float,N>(); break;
	case 6: rounding<int32_t,double,N>(); break;
	case 7: rounding<float,int16_t,N>(); break;
	case 8: rounding<float,int64_t,N>(); break;
	case 9: rounding<float,double,N>(); break;
	case 10: rounding<uint32_t,double,N>(); break;
    }
}

//--- matrices -----------------------------------------------------------------
template <size_t NX, size_t NY, typename T> struct Mat {
    typedef ustl::matrix<NX,NY,T> M;
    Box<M> b; T v [NY][NX];
    Mat (void) { gen(); }
    void gen (void) { for (size_t y = 0; y < NY; ++y) for (size_t x = 0; x < NX; ++x) b.c->begin()[y * NX + x] = v[y][x] = val<T>(SMALL); }
    void check (const char* what) { cpu_check (what); b.check (what); for (size_t y = 0; y < NY; ++y) for (size_t x = 0; x < NX; ++x) VC (same ((*b.c)[y][x], v[y][x]), "matrix", "%s on matrix<%zu,%zu,%s>: [%zu][%zu] is %.9g, expected %.9g", what, NX, NY, tname<T>(), y, x, double ((*b.c)[y][x]), double (v[y][x])); ops(); }
};
template <size_t N, typename T> void square (void)
{
    typedef ustl::matrix<N,N,T> M;
    Mat<N,N,T> a, b, r;
    float keep = 1.0f; asm volatile ("" : "+x"(keep));
    ustl::load_identity (*a.b.c);
    float one = 1.0f; asm volatile ("" : "+x"(one));
    VC (one == 1.0f && keep == 1.0f, "identity", "load_identity damaged a constant");
    for (size_t y = 0; y < N; ++y) for (size_t x = 0; x < N; ++x) a.v[y][x] = T (x == y);
    a.check ("load_identity");
    { M p (*b.b.c * *a.b.c), q (*a.b.c * *b.b.c); VC (p == *b.b.c && q == *b.b.c, "identity", "multiplication of matrix<%zu,%zu,%s> by the identity", N, N, tname<T>()); }
    ustl::transpose (*r.b.c);
    for (size_t y = 0; y < N; ++y) for (size_t x = 0; x < y; ++x) { T t = r.v[y][x]; r.v[y][x] = r.v[x][y]; r.v[x][y] = t; }
    r.check ("transpose");
    { M p (*b.b.c), q (*r.b.c); ustl::transpose (p); ustl::transpose (q); M z (*b.b.c * *r.b.c); ustl::transpose (z); VC (z == q * p, "transpose", "transposed product"); b.check ("copy"); }
}
template <size_t NX, size_t NY, typename T> void matrix_run (void)
{
    typedef ustl::matrix<NX,NY,T> M;
    Mat<NX,NY,T> a, b; Mat<NY,NX,T> c; Mat<NY,NY,T> p;
    const M& A (*a.b.c);
    VC (A.rows() == NY && A.columns() == NX && A.size() == NX * NY, "matrix", "dimensions");
    size_t ry = R.below (NY), cx = R.below (NX);
    { ustl::tuple<NX,T> t (A.row (ry)); for (size_t x = 0; x < NX; ++x) VC (t[x] == a.v[ry][x], "matrix", "row %zu of matrix<%zu,%zu,%s>", ry, NX, NY, tname<T>()); }
    { ustl::tuple<NY,T> t (A.column (cx)); for (size_t y = 0; y < NY; ++y) VC (t[y] == a.v[y][cx], "matrix", "column %zu of matrix<%zu,%zu,%s>", cx, NX, NY, tname<T>()); }
    for (size_t y = 0; y < NY; ++y) VC (A.at (y) == A.begin() + y * NX && A[y][cx] == a.v[y][cx], "matrix", "at");
    // product
    for (size_t y = 0; y < NY; ++y) for (size_t x = 0; x < NY; ++x) { T s (0); for (size_t k = 0; k < NX; ++k) s = T (s + a.v[y][k] * c.v[k][x]); p.v[y][x] = s; }
    *p.b.c = A * *c.b.c;
    p.check ("product"); a.check ("product operand"); c.check ("product operand");
    // transformation
    { Box<ustl::tuple<NY,T> > t; Box<ustl::tuple<NX,T> > q; T w [NY]; for (size_t y = 0; y < NY; ++y) (*t.c)[y] = w[y] = val<T>(SMALL);
      *q.c = *t.c * A; cpu_check ("transformation"); t.check ("transformation"); q.check ("transformation");
      for (size_t x = 0; x < NX; ++x) { T s (0); for (size_t y = 0; y < NY; ++y) s = T (s + w[y] * a.v[y][x]); VC ((*q.c)[x] == s, "transform", "tuple * matrix<%zu,%zu,%s>: [%zu] is %.9g, expected %.9g", NX, NY, tname<T>(), x, double ((*q.c)[x]), double (s)); }
      for (size_t y = 0; y < NY; ++y) VC ((*t.c)[y] == w[y], "operand", "transformation changed its operand"); a.check ("transformation operand"); }
    // a non-finite element reaches exactly the results it takes part in
    if (Ty<T>::flt) {
	static const double odd [] = { HUGE_VAL, -HUGE_VAL, NAN, DBL_MAX, -0.0 };
	Mat<NX,NY,T> n; Mat<NY,NX,T> o; 
	for (unsigned i = 0, k = 1 + R.below (2); i < k; ++i) {
	    const T q = T (odd[R.below (5)]);
	    if (R.chance (1, 2)) { size_t y = R.below (NY), x = R.below (NX); n.v[y][x] = q; (*n.b.c)[y][x] = q; } else { size_t y = R.below (NX), x = R.below (NY); o.v[y][x] = q; (*o.b.c)[y][x] = q; }
	}
	for (size_t y = 0; y < NY; ++y) for (size_t x = 0; x < NY; ++x) { T s (0); for (size_t k = 0; k < NX; ++k) s = T (s + n.v[y][k] * o.v[k][x]); p.v[y][x] = s; }
	*p.b.c = *n.b.c * *o.b.c; p.check ("product with a non-finite element"); n.check ("operand"); o.check ("operand");
	Box<ustl::tuple<NY,T> > t; Box<ustl::tuple<NX,T> > r; T w [NY]; for (size_t y = 0; y < NY; ++y) (*t.c)[y] = w[y] = R.chance (1, 4) ? T (odd[R.below (5)]) : val<T>(SMALL);
	*r.c = *t.c * *n.b.c; cpu_check ("transformation");
	for (size_t x = 0; x < NX; ++x) { T s (0); for (size_t y = 0; y < NY; ++y) s = T (s + w[y] * n.v[y][x]); VC (same ((*r.c)[x], s), "transform", "tuple * matrix<%zu,%zu,%s> with a non-finite element: [%zu] is %.9g, expected %.9g", NX, NY, tname<T>(), x, double ((*r.c)[x]), double (s)); }
    }
    // elementwise
    T s = val<T>(SMALL); unsigned op = R.below (14); T d = val<T>(SMALL); if (d == T(0)) d = T(3);
    #define EW(e) for (size_t y = 0; y < NY; ++y) for (size_t x = 0; x < NX; ++x) { T u = a.v[y][x], o = b.v[y][x]; (void) o; b.v[y][x] = T (e); }
    M& B (*b.b.c);
    switch (op) {
	case 0: EW (u + s) B = A + s; break;
	case 1: EW (u - s) B = A - s; break;
	case 2: EW (u * s) B = A * s; break;
	case 3: EW (u / d) B = A / d; break;
	case 4: EW (o + s) B += s; break;
	case 5: EW (o - s) B -= s; break;
	case 6: EW (o * s) B *= s; break;
	case 7: EW (o / d) B /= d; break;
	case 8: EW (o + u) B += A; break;
	case 9: EW (o - u) B -= A; break;
	case 10: EW (u) B = A; VC (B == A, "matrix", "=="); break;
	case 11: EW (u) { M m (A); B = m; } break;
	case 12: { EW (u) ustl::matrix<NX,NY,double> m (A); B = m; } break;
	case 13: { EW (T (0)) M m; B = m; } break;
    }
    b.check (op < 10 ? "arithmetic" : "copy"); a.check ("operand");
    sig (hmix (NX * 100 + NY * 10 + op, hbytes (tname<T>(), strlen (tname<T>()))));
    if (want_sample()) sample ("matrix<%zu,%zu,%s>: product, transformation, rows, columns, operation %u", NX, NY, tname<T>(), op);
}
} // namespace
#define C22_TUPLE(T, N) VF_CASE (c22_tuple_##T##_##N, 30, 400) { tuple_run<T,N>(); }
#define C22_ARRAY(T, N) VF_CASE (c22_array_##T##_##N, 20, 250) { array_run<T,N>(); }
