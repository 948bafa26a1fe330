// C22: pairs, and limits of tuples.
#include "vf.h"
#include "elems.h"
using namespace vf; using ustl::pair; using ustl::string; using ustl::make_pair;
namespace {
const char* str (unsigned i) { static const char* s[] = { "", "a", "b", "a longer string than the others", "ab" }; return s[i]; }
template <typename A> struct Mk { static A mk (unsigned i) { static const long v[] = { 0, 1, -1, 100, 77 }; return A (v[i % 5]); } };
template <> struct Mk<string> { static string mk (unsigned i) { return string (str (i % 5)); } };
template <typename A, typename B> void pairs (void)
{
    typedef pair<A,B> P; unsigned ia = R.below (4), ib = R.below (4), ic = R.below (4), id = R.below (4);
    const A a (Mk<A>::mk (ia)), c (Mk<A>::mk (ic)); const B b (Mk<B>::mk (ib)), d (Mk<B>::mk (id));
    #define IS(q,x,y,what) VC ((q).first == (x) && (q).second == (y), "pair", what)
    P p (a, b), q (c, d), z; IS (p, a, b, "construction"); IS (q, c, d, "construction"); { const A a0 = A(); const B b0 = B(); IS (z, a0, b0, "default construction"); }
    const bool lt = a < c || (!(c < a) && b < d), eq = a == c && b == d;
    VC ((p == q) == eq && (q == p) == eq, "pair", "== of (%u,%u) and (%u,%u)", ia, ib, ic, id);
    VC ((p != q) == !eq, "pair", "!= of (%u,%u) and (%u,%u)", ia, ib, ic, id);
    VC ((p < q) == lt, "pair", "< of (%u,%u) and (%u,%u)", ia, ib, ic, id);
    VC ((p > q) == (!lt && !eq) && (p <= q) == (lt || eq) && (p >= q) == !lt, "pair", "order of (%u,%u) and (%u,%u)", ia, ib, ic, id);
    z = p; IS (z, a, b, "assignment"); IS (p, a, b, "assigned from");
    P y (q); IS (y, c, d, "copy"); IS (q, c, d, "copied from");
    y.swap (z); IS (y, a, b, "swap"); IS (z, c, d, "swap of the other");
    z.swap (P (a, d)); IS (z, a, d, "swap with a temporary");
    { P s (p), t (q); swap (s, t); IS (s, c, d, "swap function"); IS (t, a, b, "swap function"); }
    P m (ustl::move (z)); IS (m, a, d, "move"); P n (c, b); n = ustl::move (m); IS (n, a, d, "move assignment");
    IS (make_pair (A (a), B (d)), a, d, "make_pair of temporaries"); IS ((ustl::make_pair<A,B> (a, d)), a, d, "make_pair");
    { A ma (a); B mb (b); P t (ma, mb); IS (t, a, b, "construction from variables"); VC (ma == a && mb == b, "pair", "construction took from a variable"); }
    { ustl::select1st<P> f; ustl::select2nd<P> s; P t (p); const P& ct = t; VC (f (ct) == a && s (ct) == b && &f (ct) == &t.first && &s (ct) == &t.second, "pair", "select1st or select2nd"); f (t) = c; s (t) = d; IS (t, c, d, "through select1st and select2nd"); }
    ops (12); sig (hmix (sizeof(P), ia * 64 + ib * 16 + ic * 4 + id));
}
template <typename A, typename B, typename C, typename D> void conversions (void)
{
    unsigned ia = R.below (5), ib = R.below (5); const A a (Mk<A>::mk (ia)); const B b (Mk<B>::mk (ib)); const pair<A,B> p (a, b);
    pair<C,D> q (p); VC (q.first == C (a) && q.second == D (b), "pair", "converting construction"); VC (p.first == a && p.second == b, "pair", "conversion changed its source");
    pair<C,D> r; r = p; VC (r.first == C (a) && r.second == D (b), "pair", "converting assignment"); VC (p.first == a && p.second == b, "pair", "converting assignment changed its source");
    pair<C,D> s (pair<A,B> (a, b)); VC (s == q, "pair", "converting move construction"); pair<C,D> t; t = pair<A,B> (a, b); VC (t == q, "pair", "converting move assignment");
    pair<A,B> v (a, b); pair<C,D> u (v); VC (u == q && v.first == a && v.second == b, "pair", "conversion of a variable"); u = v; VC (u == q && v.first == a && v.second == b, "pair", "assignment of a variable");
    ops (6); sig (hmix (sizeof(p) * 64 + sizeof(q), ia * 8 + ib));
}
template <size_t N, typename T> void limits (void)
{
    typedef ustl::tuple<N,T> Tp; typedef ustl::numeric_limits<Tp> L; typedef ustl::numeric_limits<T> V; Tp a (L::min()), b (L::max());
    for (size_t i = 0; i < N; ++i) VC (a[i] == V::min() && b[i] == V::max(), "limits", "of a tuple of %zu, element %zu", N, i);
    VC (L::is_signed == V::is_signed && L::is_integer == V::is_integer && L::is_integral == V::is_integral, "limits", "flags of a tuple"); ops(); sig (N * 16 + sizeof(T));
}
}
VF_CASE (c22_pair, 1500, 20000)
{
    pairs<int,int>(); pairs<uint8_t,double>(); pairs<string,int>(); pairs<int,string>(); pairs<string,string>(); pairs<long,char>();
    conversions<int,short,long,int>(); conversions<string,int,string,long>(); conversions<uint8_t,string,int,string>(); conversions<int,int,double,float>();
    limits<2,int>(); limits<3,uint8_t>(); limits<4,float>(); limits<5,int16_t>(); limits<1,double>();
    typedef ustl::vector<int> V; V v (10); unsigned i = R.below (11), j = i + R.below (11 - i);
    pair<V::const_iterator,V::const_iterator> ci (v.begin() + i, v.begin() + j); pair<V::iterator,V::iterator> it (unconst (ci, v)); VC (it.first == v.begin() + i && it.second == v.begin() + j, "pair", "unconst"); ops();
}
