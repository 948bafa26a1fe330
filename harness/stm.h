// Random serializable values: Gen<T>::mk fills an object, eq compares two.
// 'al' is the alignment at which a value may be written.
#pragma once
#include "elems.h"
// Types a user makes serializable: written as they are, through another type, or member by member
namespace vfu {
struct Raw { int16_t a; uint8_t b, c; uint32_t d; bool operator== (const Raw& o) const { return a == o.a && b == o.b && c == o.c && d == o.d; } };
enum Cast { CastZero, CastMany = 200 };
struct Obj { ustl::string s; uint32_t n; ustl::vector<uint16_t> v; Obj (void) : s(), n (0), v() {}
    void read (ustl::istream& is) { is >> s; is.align (4); is >> n >> v; is.align (2); }
    void write (ustl::ostream& os) const { os << s; os.align (4); os << n << v; os.align (2); }
    size_t stream_size (void) const { return ustl::Align (ustl::stream_size_of (s), 4) + sizeof(n) + ustl::stream_size_of (v); } };
}
INTEGRAL_STREAMABLE(vfu::Raw)
CAST_STREAMABLE(vfu::Cast, uint8_t)
namespace vf {
template <typename T> struct Gen;
inline size_t glen (void) { if (g_big) { size_t b = g_big; g_big = 0; return b; } return R.chance (1, 60) ? R.below (300) : R.chance (1, 4) ? R.below (2) : R.below (9); }
#define VF_GEN_INT(T)	template <> struct Gen<T> { enum { al = sizeof(T) }; static void mk (T& v) { v = (T) R.bits(); } static bool eq (const T& a, const T& b) { return a == b; } static const char* name (void) { return #T; } };
VF_GEN_INT(char) VF_GEN_INT(int8_t) VF_GEN_INT(uint8_t) VF_GEN_INT(int16_t) VF_GEN_INT(uint16_t) VF_GEN_INT(int32_t) VF_GEN_INT(uint32_t) VF_GEN_INT(wchar_t)
VF_GEN_INT(long) VF_GEN_INT(unsigned long) VF_GEN_INT(long long) VF_GEN_INT(unsigned long long)
template <> struct Gen<bool> { enum { al = 1 }; static void mk (bool& v) { v = R.next() & 1; } static bool eq (bool a, bool b) { return a == b; } static const char* name (void) { return "bool"; } };
template <typename F> struct GenF { enum { al = sizeof(F) };
    static void mk (F& v) { switch (R.below (6)) { case 0: v = 0; break; case 1: v = F (i64 (R.bits())); break; case 2: v = F (1) / F (1 + R.below (1000)); break; default: v = F (R.range (-100000, 100000)) / 16; } }
    static bool eq (F a, F b) { return a == b; } };
template <> struct Gen<float> : GenF<float> { static const char* name (void) { return "float"; } };
template <> struct Gen<double> : GenF<double> { static const char* name (void) { return "double"; } };
template <> struct Gen<ustl::string> { enum { al = 1 };
    static void mk (ustl::string& s) {
	size_t n = R.chance (1, 40) ? 120 + R.below (20) : R.chance (1, 200) ? 2040 + R.below (20) : R.chance (1, 400) ? 65530 + R.below (12) : glen();
	s.resize (n);
	for (size_t i = 0; i < n; ++i) s[i] = R.next();
    }
    static bool eq (const ustl::string& a, const ustl::string& b) { return a.size() == b.size() && (!a.size() || !memcmp (a.data(), b.data(), a.size())); }
    static const char* name (void) { return "string"; } };
template <> struct Gen<ustl::memblock> { enum { al = 4 };
    static void mk (ustl::memblock& s) { s.resize (glen() * (1 + R.below (4))); for (size_t i = 0; i < s.size(); ++i) s.begin()[i] = R.next(); }
    static bool eq (const ustl::memblock& a, const ustl::memblock& b) { return a.size() == b.size() && (!a.size() || !memcmp (a.data(), b.data(), a.size())); }
    static const char* name (void) { return "memblock"; } };
template <> struct Gen<vfu::Raw> { enum { al = 4 };
    static void mk (vfu::Raw& v) { v.a = R.next(); v.b = R.next(); v.c = R.next(); v.d = R.next(); }
    static bool eq (const vfu::Raw& a, const vfu::Raw& b) { return a == b; } static const char* name (void) { return "raw struct"; } };
template <> struct Gen<vfu::Cast> { enum { al = 1 };
    static void mk (vfu::Cast& v) { v = vfu::Cast (R.below (256)); } static bool eq (vfu::Cast a, vfu::Cast b) { return a == b; } static const char* name (void) { return "cast enum"; } };
template <typename C> struct GenSeq { typedef typename C::value_type V; enum { al = int(Gen<V>::al) > 4 ? int(Gen<V>::al) : 4 };
    static void mk (C& c) { c.clear(); size_t n = glen(); for (size_t i = 0; i < n; ++i) { V v = V(); Gen<V>::mk (v); c.push_back (v); } }
    static bool eq (const C& a, const C& b) { if (a.size() != b.size()) return false; typename C::const_iterator i = a.begin(), j = b.begin(); for (; i != a.end(); ++i, ++j) if (!Gen<V>::eq (*i, *j)) return false; return j == b.end(); }
    static const char* name (void) { static char n [64]; snprintf (n, sizeof(n), "vector<%s>", Gen<V>::name()); return n; } };
template <typename T> struct Gen<ustl::vector<T> > : GenSeq<ustl::vector<T> > {};
template <typename T> struct Gen<ustl::list<T> > : GenSeq<ustl::list<T> > { static const char* name (void) { static char n [64]; snprintf (n, sizeof(n), "list<%s>", Gen<T>::name()); return n; } };
template <typename C> struct GenSet : GenSeq<C> { typedef typename C::value_type V;
    static void mk (C& c) { c.clear(); size_t n = glen(); if (n > 10000) n = 10000; for (size_t i = 0; i < n; ++i) { V v = V(); Gen<V>::mk (v); c.insert (v); } }
    static const char* name (void) { static char n [64]; snprintf (n, sizeof(n), "set<%s>", Gen<V>::name()); return n; } };
template <typename T> struct Gen<ustl::set<T> > : GenSet<ustl::set<T> > {};
template <typename T> struct Gen<ustl::multiset<T> > : GenSet<ustl::multiset<T> > {};
template <typename A, typename B> struct Gen<ustl::pair<A,B> > { enum { al = 4 };
    static void mk (ustl::pair<A,B>& p) { Gen<A>::mk (p.first); Gen<B>::mk (p.second); }
    static bool eq (const ustl::pair<A,B>& a, const ustl::pair<A,B>& b) { return Gen<A>::eq (a.first, b.first) && Gen<B>::eq (a.second, b.second); }
    static const char* name (void) { static char n [96]; snprintf (n, sizeof(n), "pair<%s,%s>", Gen<A>::name(), Gen<B>::name()); return n; } };
template <typename A, typename B> struct Gen<ustl::map<A,B> > : GenSet<ustl::map<A,B> > { static const char* name (void) { static char n [96]; snprintf (n, sizeof(n), "map<%s,%s>", Gen<A>::name(), Gen<B>::name()); return n; } };
template <typename A, typename B> struct Gen<ustl::multimap<A,B> > : GenSet<ustl::multimap<A,B> > { static const char* name (void) { static char n [96]; snprintf (n, sizeof(n), "multimap<%s,%s>", Gen<A>::name(), Gen<B>::name()); return n; } };
template <typename C> struct GenFix { typedef typename C::value_type V; enum { al = Gen<V>::al };
    static void mk (C& c) { for (size_t i = 0; i < c.size(); ++i) Gen<V>::mk (c.begin()[i]); }
    static bool eq (const C& a, const C& b) { for (size_t i = 0; i < a.size(); ++i) if (!Gen<V>::eq (a.begin()[i], b.begin()[i])) return false; return true; } };
template <size_t N, typename T> struct Gen<ustl::tuple<N,T> > : GenFix<ustl::tuple<N,T> > { static const char* name (void) { static char n [64]; snprintf (n, sizeof(n), "tuple<%zu,%s>", N, Gen<T>::name()); return n; } };
template <typename T, size_t N> struct Gen<ustl::array<T,N> > : GenFix<ustl::array<T,N> > { static const char* name (void) { static char n [64]; snprintf (n, sizeof(n), "array<%s,%zu>", Gen<T>::name(), N); return n; } };
template <size_t X, size_t Y, typename T> struct Gen<ustl::matrix<X,Y,T> > : GenFix<ustl::matrix<X,Y,T> > { static const char* name (void) { static char n [64]; snprintf (n, sizeof(n), "matrix<%zu,%zu,%s>", X, Y, Gen<T>::name()); return n; } };
template <size_t N> struct Gen<ustl::bitset<N> > { enum { al = 4 };
    static void mk (ustl::bitset<N>& b) { for (size_t i = 0; i < N; ++i) b.set (i, R.next() & 1); }
    static bool eq (const ustl::bitset<N>& a, const ustl::bitset<N>& b) { for (size_t i = 0; i < N; ++i) if (a.test (i) != b.test (i)) return false; return true; }
    static const char* name (void) { static char n [32]; snprintf (n, sizeof(n), "bitset<%zu>", N); return n; } };
template <> struct Gen<ustl::chrono::hrtime_t> { enum { al = 8 };
    static void mk (ustl::chrono::hrtime_t& v) { v.tv_sec = R.bits() >> 1; v.tv_nsec = R.below (1000000000); }
    static bool eq (const ustl::chrono::hrtime_t& a, const ustl::chrono::hrtime_t& b) { return a.tv_sec == b.tv_sec && a.tv_nsec == b.tv_nsec; }
    static const char* name (void) { return "hrtime_t"; } };
template <typename Rp, typename P> struct Gen<ustl::chrono::duration<Rp,P> > { typedef ustl::chrono::duration<Rp,P> D; enum { al = sizeof(Rp) };
    static void mk (D& v) { Rp r = Rp(); Gen<Rp>::mk (r); v = D (r); }
    static bool eq (const D& a, const D& b) { return a.count() == b.count(); }
    static const char* name (void) { return "duration"; } };

template <> struct Gen<vfu::Obj> { enum { al = 4 };
    static void mk (vfu::Obj& v) { Gen<ustl::string>::mk (v.s); v.n = R.next(); Gen<ustl::vector<uint16_t> >::mk (v.v); }
    static bool eq (const vfu::Obj& a, const vfu::Obj& b) { return Gen<ustl::string>::eq (a.s, b.s) && a.n == b.n && Gen<ustl::vector<uint16_t> >::eq (a.v, b.v); } static const char* name (void) { return "object"; } };
// Calls f.template run<T>() for the i-th type; T_COUNT types
#define VF_STM_TYPES(X)	\
  X(char) X(int8_t) X(uint8_t) X(int16_t) X(uint16_t) X(int32_t) X(uint32_t) X(wchar_t) X(long) X(unsigned long) X(long long) X(unsigned long long) X(bool) X(float) X(double) \
  X(ustl::string) X(ustl::string) X(ustl::memblock) X(ustl::memblock) X(ustl::vector<uint8_t>) X(ustl::vector<uint16_t>) X(ustl::vector<int32_t>) X(ustl::vector<uint64_t>) X(ustl::vector<double>) X(ustl::vector<bool>) X(ustl::vector<float>) \
  X(ustl::vector<ustl::string>) X(ustl::vector<ustl::memblock>) X(ustl::vector<ustl::vector<uint8_t> >) X(ustl::vector<ustl::vector<int> >) X(ustl::vector<ustl::vector<ustl::string> >) X(ustl::list<uint16_t>) X(ustl::list<ustl::string>) \
  X(ustl::set<int>) X(ustl::set<ustl::string>) X(ustl::multiset<uint16_t>) X(ustl::vector<wchar_t>) \
  X(vfu::Raw) X(vfu::Cast) X(vfu::Obj) X(ustl::vector<vfu::Raw>) X(ustl::vector<vfu::Cast>) X(VUO) X(PUO) \
  X(PII) X(PIS) X(PSI) X(PUV) X(PCH) X(PSS) X(MIS) X(MSV) X(MII) X(MMI) X(MSS) X(VPS) X(VPI) \
  X(T3I) X(T5H) X(T7C) X(T4F) X(A5H) X(A3S) X(A2V) X(VT3) X(VA4) X(M22) X(M43) X(M44) X(ustl::bitset<1>) X(ustl::bitset<32>) X(ustl::bitset<40>) X(ustl::bitset<128>) X(VB) X(PTB) X(TD2) X(ustl::chrono::hrtime_t) X(ustl::chrono::seconds) X(DI)
typedef ustl::vector<vfu::Obj> VUO; typedef ustl::pair<int,vfu::Obj> PUO; typedef ustl::pair<int,int> PII; typedef ustl::pair<int,ustl::string> PIS; typedef ustl::pair<ustl::string,int> PSI; typedef ustl::pair<uint8_t,ustl::vector<uint16_t> > PUV; typedef ustl::pair<uint8_t,uint16_t> PCH; typedef ustl::pair<ustl::string,ustl::string> PSS;
typedef ustl::map<int,ustl::string> MIS; typedef ustl::map<ustl::string,ustl::vector<int> > MSV; typedef ustl::map<int,int> MII; typedef ustl::multimap<uint8_t,int> MMI; typedef ustl::map<ustl::string,ustl::string> MSS; typedef ustl::vector<PSS> VPS; typedef ustl::vector<PII> VPI;
typedef ustl::tuple<3,int> T3I; typedef ustl::tuple<5,uint16_t> T5H; typedef ustl::tuple<7,uint8_t> T7C; typedef ustl::tuple<4,float> T4F; typedef ustl::tuple<2,double> TD2; typedef ustl::array<uint16_t,5> A5H; typedef ustl::array<ustl::string,3> A3S; typedef ustl::array<ustl::vector<int>,2> A2V; typedef ustl::vector<T3I> VT3; typedef ustl::vector<ustl::array<uint8_t,4> > VA4;
typedef ustl::matrix<2,2,int> M22; typedef ustl::matrix<4,3,float> M43; typedef ustl::matrix<4,4,float> M44; typedef ustl::vector<ustl::bitset<64> > VB; typedef ustl::pair<T3I,ustl::bitset<32> > PTB; typedef ustl::chrono::duration<int32_t,ustl::ratio<1,1> > DI;
}
