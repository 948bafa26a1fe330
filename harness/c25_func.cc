// C25: functors and functor adaptors stand for the expressions they name.
#include "vf.h"
using namespace vf;
using namespace ustl;
namespace {
template <typename T> T any (void) { return T (R.range (-20, 20)); }
template <> unsigned any<unsigned> (void) { return unsigned (R.bits()); }
template <> u64 any<u64> (void) { return R.chance (1, 2) ? R.bits() : R.below (20); }
template <> double any<double> (void) { return double (R.range (-4000, 4000)) / 8; }
template <> string any<string> (void) { char b [60]; snprintf (b, 60, "text %u%s", unsigned (R.below (6)), R.chance (1, 2) ? " long enough to be kept in memory of its own" : ""); string r; r.assign (b, strlen (b)); return r; }
template <typename T> void seen (const char* nm, int how) { sig (hmix (hbytes (nm, strlen (nm)), how)); ops(); }
template <typename T> [[gnu::noinline]] void order (const char* nm)
{
    const T a = any<T>(), b = R.chance (1, 3) ? a : any<T>(); const bool lt = a < b, gt = b < a, eq = a == b; seen<T> (nm, lt + 2 * gt);
    VC (equal_to<T>()(a, b) == eq && not_equal_to<T>()(a, b) == !eq, "equal_to", "of %s", nm);
    VC (less<T>()(a, b) == lt && greater<T>()(a, b) == gt && less_equal<T>()(a, b) == !gt && greater_equal<T>()(a, b) == !lt, "less", "of %s", nm);
    VC (compare<T>()(a, b) == (lt ? -1 : gt ? 1 : 0) && compare<T>()(b, a) == (gt ? -1 : lt ? 1 : 0), "compare", "of %s gives %d", nm, compare<T>()(a, b));
    VC (identity<T>()(a) == a, "identity", "of %s", nm);
    VC ((&project1st<T,int>()(a, 5) == &a) && (&project2nd<int,T>()(5, b) == &b) && (project1st<T,T>()(a, b) == a) && (project2nd<T,T>()(a, b) == b), "project", "of %s", nm);
    const int na = any<int>(); const T ka (a); VC ((&project1st<int,T>()(na, a) == &na) && (&project2nd<T,int>()(ka, na) == &na), "project", "of int and %s", nm);
    // bound, negated, through pointers and composed
    VC (bind1st (less<T>(), a)(b) == lt && bind2nd (less<T>(), b)(a) == lt && bind1st (less<T>(), b)(a) == gt && bind2nd (greater<T>(), a)(b) == lt, "bind", "less of %s", nm);
    VC ((bind1st (project1st<T,int>(), a)(3) == a) && (bind2nd (project2nd<int,T>(), b)(3) == b) && (bind1st (project2nd<T,int>(), a)(3) == 3) && (bind2nd (project1st<int,T>(), b)(4) == 4), "bind", "projection of %s", nm);
    VC (unary_negator (bind2nd (less<T>(), b))(a) == !lt && unary_negator (unary_negator (bind1st (equal_to<T>(), b)))(a) == eq, "negate", "of %s", nm);
    const T* pa = &a; const T* pb = &b; T ma (a), mb (b); T* qa = &ma; T* qb = &mb; (void) pa; (void) pb;
    VC (dereference (less<T>())(qa, qb) == lt && dereference (less<T>())(qb, qa) == gt && dereference (bind2nd (less<T>(), b))(qa) == lt && dereference (equal_to<T>())(qa, qa), "dereference", "of %s", nm);
}
template <typename T> [[gnu::noinline]] void arith (const char* nm)
{
    const T a = any<T>(), b = any<T>(), c = any<T>(); seen<T> (nm, 10 + (b == T (0)));
    VC (plus<T>()(a, b) == T (a + b) && minus<T>()(a, b) == T (a - b) && multiplies<T>()(a, b) == T (a * b) && negate<T>()(a) == T (-a), "arithmetic", "of %s", nm);
    if (b != T (0)) VC (divides<T>()(a, b) == T (a / b), "arithmetic", "division of %s", nm);
    VC (bool (logical_and<T>()(a, b)) == (a != T (0) && b != T (0)) && bool (logical_or<T>()(a, b)) == (a != T (0) || b != T (0)) && logical_not<T>()(a) == T (a == T (0)) && logical_and<T>()(T (3), T (4)) == T (1) && logical_or<T>()(T (0), T (4)) == T (1), "logical", "of %s", nm);
    VC (bind1st (minus<T>(), a)(b) == T (a - b) && bind2nd (minus<T>(), a)(b) == T (b - a), "bind", "minus of %s", nm);
    VC (compose1 (negate<T>(), bind2nd (minus<T>(), c))(a) == T (-T (a - c)) && compose1 (bind2nd (minus<T>(), c), negate<T>())(a) == T (T (-a) - c), "compose1", "of %s", nm);
    VC (compose2 (minus<T>(), bind2nd (plus<T>(), b), bind2nd (minus<T>(), c))(a) == T (T (a + b) - T (a - c)), "compose2", "of %s", nm);
    VC (compose2 (logical_and<T>(), bind2nd (plus<T>(), b), identity<T>())(a) == T (T (a + b) != T (0) && a != T (0)), "compose2", "of %s", nm);
    VC (compose2 (less<T>(), identity<T>(), negate<T>())(a) == (a < T (-a)), "compose2", "less of %s", nm);
}
template <typename T> [[gnu::noinline]] void bits (const char* nm)
{
    const T a = any<T>(), b = any<T>(); seen<T> (nm, 20);
    VC (bitwise_or<T>()(a, b) == T (a | b) && bitwise_and<T>()(a, b) == T (a & b) && bitwise_xor<T>()(a, b) == T (a ^ b) && bitwise_not<T>()(a) == T (~a), "bitwise", "of %s", nm);
    if (b != T (0)) VC (modulus<T>()(a, b) == T (a % b), "arithmetic", "remainder of %s", nm);
    VC (compose2 (bitwise_xor<T>(), bind1st (bitwise_and<T>(), b), bitwise_not<T>())(a) == T (T (a & b) ^ T (~a)), "compose2", "bits of %s", nm);
}
//--- functions and members -----------------------------------------------------------------
unsigned s_calls; int s_last [2];
int twice (int v) { ++s_calls; s_last[0] = v; return v * 2; }
int mix (int a, unsigned b) { ++s_calls; s_last[0] = a; s_last[1] = int (b); return a * 1000 - int (b); }
size_t len (const string& s) { ++s_calls; return s.size(); }
bool odd (int v) { ++s_calls; return v % 2; }
void put (int v) { ++s_calls; s_last[0] = v; }
struct Obj {
    int a; string b; unsigned char c; mutable int called; int changed;
    Obj (int av, const string& bv, unsigned char cv) : a(av), b(bv), c(cv), called(0), changed(0) {}
    Obj (void) : a(0), b(), c(0), called(0), changed(0) {}
    int get (void) const { ++called; return a; }
    int bump (void) { ++changed; return ++a; }
    string name (void) const { ++called; return b; }
    void touch (void) { ++changed; }
    int add (int v) { ++changed; return a += v; }
    int with (int v) const { ++called; return a * 100 + v; }
    bool below (int v) const { ++called; return v < a; }
    void take (const string& s) { ++changed; b = s; }
    size_t both (const string& s) const { ++called; return b.size() + s.size(); }
    bool operator== (const Obj& o) const { return a == o.a && b == o.b && c == o.c; }
};
Obj obj (void) { return Obj (any<int>(), any<string>(), R.below (5)); }
struct Sum { typedef int result_type; int* t; int operator() (int v) const { return *t += v; } };
struct AddTo { typedef int result_type; int operator() (int& v) const { return v += 7; } };
struct Exch { typedef void result_type; void operator() (string& a, string& b) const { swap (a, b); } };
struct CPred : public unary_function<const int,bool> { bool operator() (const int& v) const { return v > 3; } };
struct CPred2 : public binary_function<const string,const string,bool> { bool operator() (const string& a, const string& b) const { return a.size() < b.size(); } };
void functions (void)
{
    const int v = any<int>(); const unsigned u = R.below (900); s_calls = 0; seen<int> ("functions", v > 0); string s = any<string>();
    VC (ptr_fun (twice)(v) == v * 2 && s_calls == 1 && s_last[0] == v, "ptr_fun", "of one argument"); s_calls = 0;
    VC (ptr_fun (mix)(v, u) == v * 1000 - int (u) && s_calls == 1, "ptr_fun", "of two arguments"); s_calls = 0;
    VC (bind1st (ptr_fun (mix), v)(u) == v * 1000 - int (u) && s_calls == 1 && s_last[0] == v && s_last[1] == int (u), "bind", "of a function, first"); s_calls = 0;
    VC (bind2nd (ptr_fun (mix), u)(v) == v * 1000 - int (u) && s_calls == 1 && s_last[0] == v && s_last[1] == int (u), "bind", "of a function, second"); s_calls = 0;
    VC (ptr_fun (len)(s) == s.size() && s_calls == 1, "ptr_fun", "by reference"); s_calls = 0;
    VC (unary_negator (ptr_fun (odd))(v) == !(v % 2) && s_calls == 1, "negate", "of a function"); s_calls = 0;
    VC (compose1 (ptr_fun (twice), bind2nd (ptr_fun (mix), u))(v) == (v * 1000 - int (u)) * 2 && s_calls == 2, "compose1", "of functions"); s_calls = 0;
    ptr_fun (put)(v); VC (s_calls == 1 && s_last[0] == v, "ptr_fun", "returning nothing");
    int i = v; const int ci = v; (void) ci; VC (dereference (ptr_fun (twice))(&i) == v * 2 && dereference (CPred())(&ci) == (v > 3), "dereference", "one argument");
    const string t = any<string>(), w = any<string>(); VC (dereference (CPred2())(&t, &w) == (t.size() < w.size()), "dereference", "two constant arguments");
}
void members (void)
{
    Obj o = obj(), p = obj(); const Obj o0 (o), p0 (p); const Obj& co = o; const int v = any<int>(); const string s = any<string>(); seen<int> ("members", (o.a < p.a) + 2 * (o.b < p.b));
    VC (mem_fun (&Obj::get)(&o) == o0.a && mem_fun (&Obj::get)(&co) == o0.a && mem_fun_ref (&Obj::get)(co) == o0.a && o.called == 3, "mem_fun", "constant");
    VC (mem_fun (&Obj::bump)(&o) == o0.a + 1 && mem_fun_ref (&Obj::bump)(o) == o0.a + 2 && o.a == o0.a + 2 && o.changed == 2, "mem_fun", "changing"); o = o0;
    VC (mem_fun_ref (&Obj::name)(co) == o.b && mem_fun (&Obj::name)(&p) == p.b, "mem_fun", "returning a string"); o = o0; p = p0;
    mem_fun (&Obj::touch)(&o); mem_fun_ref (&Obj::touch)(o); VC (o.changed == 2 && o == o0, "mem_fun", "returning nothing"); o = o0;
    VC (mem_fun (&o, &Obj::add)(v) == o0.a + v && o.a == o0.a + v && o.changed == 1, "mem_fun", "of an object"); o = o0;
    VC (mem_fun (&co, &Obj::with)(v) == o.a * 100 + v && o.called == 1 && o == o0, "mem_fun", "of a constant object"); o = o0;
    mem_fun (&o, &Obj::take)(s); VC (o.b == s && o.a == o0.a, "mem_fun", "given a string"); o = o0;
    VC (mem_fun (&co, &Obj::both)(s) == o.b.size() + s.size(), "mem_fun", "of a constant object given a string"); o = o0;
    // variables
    int t = 0; Sum sum = { &t }; VC (mem_var1 (&Obj::a, sum)(o) == o.a && t == o.a && mem_var1 (&Obj::a, sum)(p) == o.a + p.a && const_mem_var1 ((const int Obj::*) &Obj::a, sum)(co) == o.a * 2 + p.a && t == o.a * 2 + p.a, "mem_var", "one");
    VC (mem_var1 (&Obj::a, AddTo())(o) == o0.a + 7 && o.a == o0.a + 7 && o.b == o0.b && o.c == o0.c, "mem_var", "changing one"); o = o0;
    mem_var2 (&Obj::b, Exch())(o, p); VC (o.b == p0.b && p.b == o0.b && o.a == o0.a && p.c == p0.c, "mem_var", "changing two"); o = o0; p = p0;
    VC (mem_var2 (&Obj::a, minus<int>())(o, p) == o.a - p.a && (const_mem_var2 ((const int Obj::*) &Obj::a, minus<int>())(co, p0) == o.a - p.a), "mem_var", "two");
    VC (mem_var_equal_to ((const int Obj::*) &Obj::a)(o, p) == (o.a == p.a) && mem_var_less ((const int Obj::*) &Obj::a)(o, p) == (o.a < p.a) && mem_var_less ((const string Obj::*) &Obj::b)(o, p) == (o.b < p.b) && mem_var_equal_to ((const string Obj::*) &Obj::b)(o, p) == (o.b == p.b), "mem_var", "compared");
    VC (mem_var_equal_to ((const int Obj::*) &Obj::a, v)(o) == (o.a == v) && mem_var_less ((const int Obj::*) &Obj::a, v)(o) == (o.a < v) && mem_var_less ((const string Obj::*) &Obj::b, s)(o) == (o.b < s) && mem_var_equal_to ((const string Obj::*) &Obj::b, s)(o) == (o.b == s), "mem_var", "compared to a value");
    VC (mem_var_equal_to ((const string Obj::*) &Obj::b, o.b)(o) && !mem_var_less ((const int Obj::*) &Obj::a, o.a)(o), "mem_var", "compared to itself");
    VC (mem_var_less ((const unsigned char Obj::*) &Obj::c)(o, p) == (o.c < p.c), "mem_var", "bytes compared");
}
//--- in algorithms: against the loop, elements and number of calls ------------------------------
template <typename C> void same (const C& c, const C& e, const char* what) { ops(); VC (c.size() == e.size(), "algorithm", "%s: %zu elements instead of %zu", what, size_t (c.size()), size_t (e.size())); for (size_t i = 0; i < e.size(); ++i) VC (c.begin()[i] == e.begin()[i], "algorithm", "%s: element %zu of %zu", what, i, size_t (e.size())); }
void inalgo (void)
{
    const size_t n = R.below (30); vector<int> v, w, e, r; vector<string> s, se; vector<Obj> o, oe; for (size_t i = 0; i < n; ++i) { v.push_back (any<int>()); w.push_back (any<int>()); s.push_back (any<string>()); o.push_back (obj()); }
    const int k = any<int>(); const string ks = any<string>(); const unsigned op = R.below (22); trace ("algorithm %u over %zu with %d", op, n, k); sig (hmix (9000, op * 8 + (n < 4 ? n : 4))); size_t i, c = 0; e = v; oe = o;
    switch (op) {
	case 0: r.resize (n); transform (v.begin(), v.end(), r.begin(), bind2nd (minus<int>(), k)); for (i = 0; i < n; ++i) e[i] = v[i] - k; same (r, e, "transform bind2nd"); break;
	case 1: r.resize (n); transform (v.begin(), v.end(), w.begin(), r.begin(), minus<int>()); for (i = 0; i < n; ++i) e[i] = v[i] - w[i]; same (r, e, "transform minus"); break;
	case 2: r.resize (n); transform (v.begin(), v.end(), r.begin(), compose1 (negate<int>(), bind1st (multiplies<int>(), k))); for (i = 0; i < n; ++i) e[i] = -(k * v[i]); same (r, e, "transform compose1"); break;
	case 3: { auto p = find_if (v.begin(), v.end(), bind2nd (greater<int>(), k)); for (i = 0; i < n && v[i] <= k; ++i) ; VC (p == v.begin() + i, "algorithm", "find_if bind2nd greater"); break; }
	case 4: { auto p = find_if (v.begin(), v.end(), unary_negator (bind1st (greater<int>(), k))); for (i = 0; i < n && k > v[i]; ++i) ; VC (p == v.begin() + i, "algorithm", "find_if negator"); break; }
	case 5: for (i = 0; i < n; ++i) c += o[i].a == k; VC (size_t (count_if (o.begin(), o.end(), mem_var_equal_to ((const int Obj::*) &Obj::a, k))) == c, "algorithm", "count_if mem_var_equal_to"); break;
	case 6: { auto p = find_if (o.begin(), o.end(), mem_var_equal_to ((const string Obj::*) &Obj::b, ks)); for (i = 0; i < n && !(o[i].b == ks); ++i) ; VC (p == o.begin() + i, "algorithm", "find_if of a string member"); break; }
	case 7: sort (o.begin(), o.end(), mem_var_less ((const int Obj::*) &Obj::a)); for (i = 1; i < n; ++i) VC (!(o[i].a < o[i-1].a), "algorithm", "sort by member"); for (i = 0; i < n; ++i) { size_t a = 0, b = 0; for (size_t j = 0; j < n; ++j) { a += o[j] == oe[i]; b += oe[j] == oe[i]; } VC (a == b, "algorithm", "sort by member lost objects"); } break;
	case 8: { sort (v.begin(), v.end()); auto p = lower_bound (v.begin(), v.end(), k, less<int>()); for (i = 0; i < n && v[i] < k; ++i) ; VC (p == v.begin() + i, "algorithm", "lower_bound less"); break; }
	case 9: { sort (v.begin(), v.end(), greater<int>()); auto p = lower_bound (v.begin(), v.end(), k, greater<int>()); for (i = 0; i < n && v[i] > k; ++i) ; VC (p == v.begin() + i, "algorithm", "lower_bound greater"); break; }
	case 10: r.resize (n); transform (o.begin(), o.end(), r.begin(), mem_fun_ref (&Obj::get)); for (i = 0; i < n; ++i) { e[i] = o[i].a; VC (o[i].called == 1, "algorithm", "member called %d times", o[i].called); } same (r, e, "transform mem_fun_ref"); break;
	case 11: { vector<Obj*> q; for (i = 0; i < n; ++i) q.push_back (&o[i]); for_each (q.begin(), q.end(), mem_fun (&Obj::touch)); for (i = 0; i < n; ++i) VC (o[i].changed == 1 && o[i] == oe[i], "algorithm", "for_each mem_fun"); break; }
	case 12: { Obj h; for_each (v.begin(), v.end(), mem_fun (&h, &Obj::add)); int t = 0; for (i = 0; i < n; ++i) t += v[i]; VC (h.a == t && h.changed == int (n), "algorithm", "for_each of an object's function"); break; }
	case 13: { const Obj h (k, string(), 0); for (i = 0; i < n; ++i) c += v[i] < k; VC (size_t (count_if (v.begin(), v.end(), mem_fun (&h, &Obj::below))) == c && h.called == int (n), "algorithm", "count_if of an object's function"); break; }
	case 14: for_each (o.begin(), o.end(), mem_var1 (&Obj::a, AddTo())); for (i = 0; i < n; ++i) VC (o[i].a == oe[i].a + 7 && o[i].b == oe[i].b, "algorithm", "for_each mem_var1"); break;
	case 15: { vector<int*> q; for (i = 0; i < n; ++i) q.push_back (&v[i]); sort (q.begin(), q.end(), dereference (less<int>())); sort (e.begin(), e.end()); for (i = 0; i < n; ++i) VC (*q[i] == e[i], "algorithm", "sort of pointers"); break; }
	case 16: s_calls = 0; r.resize (n); transform (v.begin(), v.end(), r.begin(), ptr_fun (twice)); for (i = 0; i < n; ++i) e[i] = v[i] * 2; same (r, e, "transform ptr_fun"); VC (s_calls == n, "algorithm", "function called %u times for %zu", s_calls, n); break;
	case 17: { int t = 3; for (i = 0; i < n; ++i) t = t - v[i]; VC (accumulate (v.begin(), v.end(), 3, minus<int>()) == t, "algorithm", "accumulate minus"); t = 5; for (i = 0; i < n; ++i) t += v[i] * w[i]; VC (inner_product (v.begin(), v.end(), w.begin(), 5) == t && inner_product (v.begin(), v.end(), w.begin(), 5, plus<int>(), multiplies<int>()) == t, "algorithm", "inner_product"); break; }
	case 18: for (i = 0; i < n; ++i) if (!(s[i] < ks)) se.push_back (s[i]); remove_if (s, bind2nd (less<string>(), ks)); same (s, se, "remove_if"); break;
	case 19: replace_if (v.begin(), v.end(), bind2nd (less_equal<int>(), k), 99); for (i = 0; i < n; ++i) e[i] = e[i] <= k ? 99 : e[i]; same (v, e, "replace_if"); break;
	case 20: { auto p = adjacent_find (v.begin(), v.end(), greater<int>()); for (i = 0; i + 1 < n && !(v[i] > v[i+1]); ++i) ; if (i + 1 >= n) i = n; VC (p == v.begin() + i, "algorithm", "adjacent_find greater"); break; }
	case 21: { bool q = n == w.size(); for (i = 0; i < n; ++i) q = q && !(w[i] < v[i]); VC (equal (v.begin(), v.end(), w.begin(), less_equal<int>()) == q && equal (v.begin(), v.end(), v.begin(), greater_equal<int>()), "algorithm", "equal less_equal"); break; }
    }
}
} // namespace
VF_CASE (c25_functors, 4000, 60000) {
    switch (R.below (14)) {
	case 0: order<int> ("int"); break; case 1: order<uint8_t> ("byte"); break; case 2: order<double> ("double"); break; case 3: order<string> ("string"); break; case 4: order<u64> ("u64"); break;
	case 5: arith<int> ("int"); break; case 6: arith<unsigned> ("unsigned"); break; case 7: arith<double> ("double"); break; case 8: arith<int16_t> ("int16"); break; case 9: arith<u64> ("u64"); break;
	case 10: bits<int> ("int"); break; case 11: bits<uint8_t> ("byte"); break; case 12: bits<u64> ("u64"); break; case 13: bits<unsigned> ("unsigned"); break;
    }
}
VF_CASE (c25_members, 3000, 40000) { if (R.chance (1, 3)) functions(); else members(); }
VF_CASE (c25_inalgo, 4000, 60000) { inalgo(); }
