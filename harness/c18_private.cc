// Separate objects in separate threads, and one object read by many: everything the library does, done by several threads
// at once, must give each the result it would get alone.
#include "vf.h"
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <math.h>
#include <errno.h>
#include <time.h>
using namespace vf;
using namespace ustl;
namespace vf18 {
enum { MAXT = 4 };
struct Bar {
    int n, waiting, phase;
    void init (int k) { n = k; waiting = 0; phase = 0; }
    void wait (void) {
	int ph = __atomic_load_n (&phase, __ATOMIC_ACQUIRE);
	if (__atomic_add_fetch (&waiting, 1, __ATOMIC_ACQ_REL) == n) { __atomic_store_n (&waiting, 0, __ATOMIC_RELAXED); __atomic_add_fetch (&phase, 1, __ATOMIC_ACQ_REL); }
	else for (unsigned k = 0; __atomic_load_n (&phase, __ATOMIC_ACQUIRE) == ph; ++k) if (k > 2000) sched_yield();
    }
};
struct Ctx { Rng r; const char* dir; int t; u64 h; char pad [64]; };
inline void hs (Ctx& c, const string& s) { c.h = hmix (c.h, hbytes (s.data(), s.size())); }
inline void hn (Ctx& c, u64 v) { c.h = hmix (c.h, v); }
inline void hp (Ctx& c, const void* p, size_t n) { c.h = hmix (c.h, hbytes ((const char*) p, n)); }
template <typename C> inline void hv (Ctx& c, const C& v) { for (auto i = v.begin(); i != v.end(); ++i) c.h = hmix (c.h, u64 (*i)); c.h = hmix (c.h, v.size()); }
string word (Ctx& c, size_t mx = 24) { string s; s.resize (c.r.below (mx + 1)); for (size_t i = 0; i < s.size(); ++i) s[i] = 'a' + c.r.below (26); return s; }
vector<int> ints (Ctx& c, size_t mx = 60, int range = 40) { vector<int> v (c.r.below (mx + 1)); for (auto& x : v) x = c.r.below (range); return v; }
int known (unsigned e) { return e == 41 || e == 58 ? 5 : int (e); }	// the text for an unknown one is kept by the C library
#define JOB(name) __attribute__((noinline)) void name (Ctx& c)

JOB (j_string)
{
    string s (word (c)), t (word (c, 9)), u (s); s += t; s += 'q'; s = s + "lit" + t; s.insert (s.begin() + c.r.below (s.size() + 1), 3, 'i'); s.insert (s.begin(), "front", 1); s.append (t); s.append (4, 'z'); s.replace (s.begin(), s.begin() + 2, "RE"); s.erase (s.begin() + 1);
    s.erase (string::pos_type (0), 2); s.push_back ('P'); s.pop_back(); hs (c, s); hs (c, string (s, 1, 7)); hn (c, s < t); hn (c, s == u); hn (c, s > "mm"); hn (c, s.compare (t) + 5); u.swap (s); hs (c, u); s.assign (u, 0, 5); hs (c, s); s = t; hs (c, s); s.clear(); hn (c, s.empty());
    u.format ("%s:%d:%5.2f:%lx", t.c_str(), int (c.r.below (1000)), c.r.below (1000) / 8.0, long (c.r.next())); hs (c, u); char b [32]; hn (c, u.copy (b, 20)); hn (c, string::hash (u.begin(), u.end())); u.resize (3); hs (c, u); u.shrink_to_fit(); hs (c, u);
    string l ("linked"); l += t; hs (c, l); hn (c, string ("12").size()); hn (c, stoi (string ("123"))); hn (c, u64 (stol (string ("-77")))); hn (c, u64 (stod (string ("1.5")) * 8)); hs (c, to_string (int (c.r.below (9999)))); hs (c, to_string (c.r.below (9999) / 4.0));
}
JOB (j_find)
{
    string s; for (int i = 0; i < 60; ++i) s += char ('a' + c.r.below (3)); string n; for (int i = 1 + c.r.below (3); i > 0; --i) n += char ('a' + c.r.below (3)); const size_t p = c.r.below (60);
    hn (c, s.find (n)); hn (c, s.find (n, p)); hn (c, s.rfind (n)); hn (c, s.rfind (n, p)); hn (c, s.find ('b', p)); hn (c, s.rfind ('c', p)); hn (c, s.find_first_of (n)); hn (c, s.find_first_of (n, p)); hn (c, s.find_first_not_of (n)); hn (c, s.find_first_not_of (n, p)); hn (c, s.find_last_of (n)); hn (c, s.find_last_of (n, p)); hn (c, s.find_last_not_of (n)); hn (c, s.find_last_not_of (n, p));
}
JOB (j_utf8)
{
    string s; wchar_t w [12]; for (auto& x : w) { static const unsigned m [] = { 0x7F, 0x7FF, 0xFFFF, 0x10FFFF }; x = 1 + c.r.below (m [c.r.below (4)]); } for (auto x : w) s += x; s.push_back (w[1]); s.insert (string::pos_type (0), 1, w[3]); s.insert (string::pos_type (0), 2, w[4]); s.insert (string::pos_type (0), w, w + 5, 2); hs (c, s);
    hn (c, s.length()); for (auto i = s.utf8_begin(); i < s.utf8_end(); ++i) hn (c, *i); hn (c, distance (s.begin(), s.wiat (4))); hn (c, s.at (s.size() - 1)); wchar_t x [80]; const size_t n = utf8in (s.end()) - utf8in (s.begin()); hn (c, n); if (n < 80) hn (c, copy (s.utf8_begin(), s.utf8_end(), x) - x); hp (c, x, 0);
    char o [16]; hn (c, utf8out (o).base() == o); auto ou = utf8out (o); *ou++ = w[0]; *ou++ = w[1]; hp (c, o, ou.base() - o); hn (c, Utf8Bytes (w[0]) * 10 + Utf8SequenceBytes (o[0]));
}
JOB (j_format)
{
    ostringstream os; for (int i = 0; i < 14; ++i) {
	os.width (c.r.below (9)); os.precision (c.r.below (7)); os.fill (c.r.below (2) ? '0' : ' '); static const unsigned bf [] = { ios::dec, ios::hex, ios::oct }; os.setf (bf [c.r.below (3)], ios::basefield); if (c.r.below (2)) os.setf (ios::showbase); else os.unsetf (ios::showbase); if (c.r.below (2)) os.setf (ios::left, ios::adjustfield); else os.setf (ios::right, ios::adjustfield);
	os.setf (c.r.below (2) ? ios::fixed : ios::scientific, ios::floatfield);
	switch (c.r.below (12)) { case 0: os << int (c.r.next()); break; case 1: os << c.r.below (100000) / 32.0; break; case 2: os << long (c.r.next()); break; case 3: os << wchar_t (1 + c.r.below (0xFFFF)); break; case 4: os << float (c.r.below (99)) / 4; break; case 5: os << true; break; case 6: os << uint16_t (c.r.next()) << 'c'; break; case 7: os << word (c); break; case 8: os << "text"; break; case 9: os.format ("<%d %s %g>", int (c.r.below (99)), "arg", c.r.below (99) / 3.0); break; case 10: os << (long double) (c.r.below (1000)) / 16; break; default: os << (unsigned long long) c.r.next() << endl; } os << ' '; }
    os.flush(); hs (c, os.str());
}
JOB (j_textctr)
{
    ostringstream os; os << ints (c, 9) << ' '; list<string> ls; for (int i = c.r.below (4); i > 0; --i) ls.push_back (word (c)); os << ls << ' '; set<int> st; map<int,string> mp; for (int i = c.r.below (5); i > 0; --i) { st.insert (c.r.below (50)); mp[c.r.below (50)] = word (c, 5); } os << st << mp << ' ';
    vector<uint8_t> b (c.r.below (9)); for (auto& x : b) x = c.r.next(); vector<int8_t> sb (c.r.below (9)); for (auto& x : sb) x = c.r.next(); os << b << sb; tuple<3,int> t; for (int i = 0; i < 3; ++i) t[i] = c.r.below (99); os << t; matrix<2,3,int> m; for (int y = 0; y < 3; ++y) for (int x = 0; x < 2; ++x) m[y][x] = c.r.below (9); os << m;
    bitset<64> bs (c.r.next()); os << bs << pair<int,bool> (c.r.below (9), true); array<int,3> a; for (auto& x : a) x = c.r.below (77); os << a; memblock mb (4); fill_n (mb.begin(), 4, 'm'); os << mb; os << chrono::milliseconds (c.r.below (5000)) << chrono::hours (3); os.flush(); hs (c, os.str());
    const string bt (bs.to_string()); istringstream is (bt); bitset<64> b2; is >> b2; hn (c, b2 == bs);
}
JOB (j_parse)
{
    ostringstream os; for (int i = 0; i < 8; ++i) { switch (c.r.below (7)) { case 0: os << int (c.r.next()); break; case 1: os.format ("%.6g", c.r.below (100000) / 7.0); break; case 2: os << "true"; break; case 3: os << word (c) << "w"; break; case 4: os << wchar_t (0x100 + c.r.below (0x700)); break; case 5: os << '-' << c.r.below (1000); break; default: os.format ("%llu", (unsigned long long) c.r.next()); } os << (c.r.below (3) ? ' ' : '\n'); } os.flush(); const string s (os.str()); hs (c, s);
    { istringstream is (s); is.exceptions (0); string w; for (int i = 0; i < 9; ++i) { w.clear(); is >> w; hs (c, w); } } { istringstream is (s); is.exceptions (0); for (int i = 0; i < 4; ++i) { int v = 0; double d = 0; is >> v >> d; hn (c, v); hn (c, u64 (d)); } }
    { istringstream is (s); is.exceptions (0); bool b = false; float f = 0; long l = 0; long long ll = 0; char ch = 0; unsigned short us = 0; is >> b >> f >> l >> ch >> ll >> us; hn (c, b); hn (c, u64 (f)); hn (c, l); hn (c, ch); hn (c, ll); hn (c, us); } { istringstream is (s); is.exceptions (0); string l; for (int i = 0; i < 3; ++i) { getline (is, l); hs (c, l); } char b [40]; memset (b, 0, sizeof(b)); is.getline (b, 30); hp (c, b, 30); memset (b, 0, sizeof(b)); is.get (b, 12, 'x'); hp (c, b, 12); hn (c, is.peek()); hn (c, is.get()); is.ignore (3); hn (c, is.pos()); }
    { istringstream is ("1;2;3;0x1F;077;-9;4.25e2;6"); is.set_delimiters (";"); is.exceptions (0); for (int i = 0; i < 6; ++i) { int v = 0; is >> v; hn (c, v); } double d = 0; is >> d; hn (c, u64 (d)); }
}
JOB (j_binary)
{
    vector<int> v (ints (c)); list<string> l; for (int i = c.r.below (5); i > 0; --i) l.push_back (word (c)); map<string,int> m; for (int i = c.r.below (6); i > 0; --i) m[word (c, 4)] = i; string s (word (c, 200)), s2; s.resize (c.r.below (400)); for (auto& x : s) x = c.r.next(); memblock mb (c.r.below (40)); for (auto i = mb.begin(); i < mb.end(); ++i) *i = c.r.next();
    tuple<5,int16_t> t; for (int i = 0; i < 5; ++i) t[i] = c.r.next(); bitset<128> bs; for (int i = 0; i < 20; ++i) bs.flip (c.r.below (128)); unsigned long lg = c.r.next(), lg2 = 0; pair<int,string> p (c.r.below (9), word (c)), p2;
    size_t n = stream_size_of (v) + stream_size_of (l) + stream_size_of (m) + stream_size_of (s) + stream_size_of (mb) + stream_size_of (t) + stream_size_of (bs) + stream_size_of (p) + 200; memblock buf (n); fill_n (buf.begin(), n, 0); ostream os (buf); os << v; os.align(); os << l; os.align(); os << m; os.align(); os << s; os.align(); os << mb; os.align(); os << t; os.align(); os << bs; os.align (4); os << long4grain (lg); os.align(); os << p << ios::align(); const size_t e = os.pos(); hp (c, buf.begin(), e);
    vector<int> v2; list<string> l2; map<string,int> m2; memblock mb2; tuple<5,int16_t> t2; bitset<128> b2; istream is (buf.begin(), e); is >> v2; is.align(); is >> l2; is.align(); is >> m2; is.align(); is >> s2; is.align(); is >> mb2; is.align(); is >> t2; is.align(); is >> b2; is.align (4); is >> long4grain (lg2); is.align(); is >> p2; hn (c, v2 == v); hn (c, l2 == l); hn (c, m2 == m); hn (c, s2 == s); hn (c, mb2 == mb); hn (c, t2 == t); hn (c, b2 == bs); hn (c, lg2 == lg); hn (c, p2 == p);
    const size_t k = c.r.below (e); try { istream ts (buf.begin(), k & ~size_t (3)); vector<int> x; list<string> y; map<string,int> z; ts >> x; ts.align(); ts >> y; ts.align(); ts >> z; hn (c, x.size()); hn (c, z.size()); } catch (stream_bounds_exception& e) { string i; e.info (i); hs (c, i); }
}
template <typename E> __attribute__((noinline)) void thrown (Ctx& c, const E& e)
{
    string i; e.info (i); hs (c, i); E f (e); string j; f.info (j); hn (c, i == j); hs (c, string (e.what())); ostringstream os; os << e; os.flush(); hs (c, os.str()); memblock b (stream_size_of (e) + 8); ostream o (b); o << e; hn (c, o.pos() == stream_size_of (e)); string k; { E g (e); istream is (b.begin(), o.pos()); is >> g; g.info (k); } hn (c, i == k); f = e; f.info (j); hs (c, j);
    ostringstream bo; bo << e.backtrace(); bo.flush(); hn (c, bo.str().size() > 20); CBacktrace q (e.backtrace()), z; z = q; ostringstream b2, b3; b2 << q; b2.flush(); b3 << z; b3.flush(); hn (c, b2.str() == bo.str() && b3.str() == bo.str());
}
JOB (j_except)
{
    const string w (word (c)); const int n = c.r.below (1000); errno = 1 + n % 30;
    try { switch (c.r.below (7)) { case 0: throw file_exception ("read", w.c_str()); case 1: throw stream_bounds_exception ("write", c.r.below (2) ? "N4ustl6stringE" : "i", n, n + 5, 4); case 2: throw runtime_error (w); case 3: throw system_error (error_code (1 + n % 30, system_category()), w); case 4: throw std::bad_alloc (n); case 5: throw out_of_range (w); default: throw exception(); } }
    catch (file_exception& e) { thrown (c, e); } catch (stream_bounds_exception& e) { thrown (c, e); } catch (system_error& e) { thrown (c, e); } catch (runtime_error& e) { thrown (c, e); } catch (out_of_range& e) { thrown (c, e); } catch (std::bad_alloc& e) { thrown (c, e); } catch (exception& e) { thrown (c, e); }
    for (int i = 0; i < 3; ++i) { const error_code ec (known (c.r.below (134)), system_category()); hs (c, string (ec.message())); hs (c, string (ec.category().name())); hn (c, ec == ec.default_error_condition()); } char nm [80]; static const char* const t [] = { "N4ustl6vectorIiEE", "i", "N4ustl3mapINS_6stringEiEE", "notaname", "PKc" }; strcpy (nm, t [c.r.below (5)]); size_t sz = 0; hs (c, string (demangle_type_name (nm, sizeof(nm), &sz))); hn (c, sz);
    try { fstream f ("/nonexistent-vf/x", fstream::in); hn (c, f.is_open()); } catch (file_exception& e) { string i; e.info (i); hs (c, i); }
}
struct Odd { bool operator() (int x) const { return x & 1; } }; struct Half { bool operator() (int a, int b) const { return a / 2 < b / 2; } }; struct SameHalf { bool operator() (int a, int b) const { return a / 2 == b / 2; } }; struct Gen { int k; int operator() (void) { return k += 3; } };
int twice (int x) { return x * 2; }
JOB (j_algo)
{
    const vector<int> v (ints (c)); const vector<int> q (ints (c, 3, 40)); vector<int> w (v), o (200); const int x = c.r.below (40); typedef vector<int>::const_iterator CI; const CI b = v.begin(), e = v.end();
    hn (c, find (b, e, x) - b); hn (c, find_if (b, e, Odd()) - b); hn (c, adjacent_find (b, e) - b); hn (c, adjacent_find (b, e, SameHalf()) - b); hn (c, count (b, e, x)); hn (c, count_if (b, e, Odd())); hn (c, search (b, e, q.begin(), q.end()) - b); hn (c, search (b, e, q.begin(), q.end(), SameHalf()) - b); hn (c, search_n (b, e, 2, x) - b); hn (c, search_n (b, e, 2, x, SameHalf()) - b); if (q.size() <= v.size()) hn (c, find_end (b, e, q.begin(), q.end()) - b); hn (c, find_first_of (b, e, q.begin(), q.end()) - b);
    hn (c, lexicographical_compare (b, e, q.begin(), q.end())); hn (c, max_element (b, e) - b); hn (c, min_element (b, e) - b); hn (c, accumulate (b, e, 0)); hn (c, inner_product (b, e, b, 0)); hn (c, for_each (b, e, Odd()) (3)); hn (c, equal (b, e, CI (w.begin()))); hn (c, mismatch (b, e, CI (w.begin())).first - b);
    hn (c, transform (b, e, o.begin(), twice) - o.begin()); hp (c, o.begin(), v.size() * 4); hn (c, transform (b, e, b, o.begin(), plus<int>()) - o.begin()); hp (c, o.begin(), v.size() * 4); hn (c, copy_if (b, e, o.begin(), Odd()) - o.begin()); hp (c, o.begin(), 20); hn (c, remove_copy (b, e, o.begin(), x) - o.begin()); hn (c, unique_copy (b, e, o.begin()) - o.begin()); hn (c, reverse_copy (b, e, o.begin()) - o.begin()); hp (c, o.begin(), v.size() * 4); if (v.size()) hn (c, rotate_copy (b, b + v.size() / 3, e, o.begin()) - o.begin()); hp (c, o.begin(), v.size() * 4); hn (c, replace_copy (b, e, o.begin(), x, 99) - o.begin()); hp (c, o.begin(), v.size() * 4); hn (c, partial_sum (b, e, o.begin()) - o.begin()); hp (c, o.begin(), v.size() * 4); hn (c, adjacent_difference (b, e, o.begin()) - o.begin()); hp (c, o.begin(), v.size() * 4);
    reverse (w.begin(), w.end()); hv (c, w); replace (w.begin(), w.end(), x, 3); hv (c, w); if (w.size() > 2) rotate (w.begin(), w.begin() + 2, w.end()); hv (c, w); w.erase (unique (w.begin(), w.end()), w.end()); hv (c, w); w.erase (remove_if (w.begin(), w.end(), Odd()), w.end()); hv (c, w); w = v; hn (c, stable_partition (w.begin(), w.end(), Odd()) - w.begin()); hv (c, w); w = v; hn (c, partition (w.begin(), w.end(), Odd()) - w.begin()); next_permutation (w.begin(), w.end()); hv (c, w); prev_permutation (w.begin(), w.end()); hv (c, w); Gen g = { x }; generate (w.begin(), w.end(), g); hv (c, w); fill (w, 5); hv (c, w); iota (w.begin(), w.end(), x); hv (c, w);
    u64 s = 0, s2 = 0; for (auto y : v) s += y * y; w = v; random_shuffle (w); for (auto y : w) s2 += y * y; hn (c, s == s2);
}
JOB (j_sort)
{
    vector<int> v (ints (c)), a (ints (c)), o (300); sort (v); sort (a.begin(), a.end(), less<int>()); hv (c, v); hv (c, a); const int x = c.r.below (40); hn (c, lower_bound (v.begin(), v.end(), x) - v.begin()); hn (c, upper_bound (v.begin(), v.end(), x) - v.begin()); hn (c, binary_search (v.begin(), v.end(), x)); hn (c, equal_range (v.begin(), v.end(), x).second - v.begin()); hn (c, lower_bound (v.begin(), v.end(), x, Half()) - v.begin());
    hn (c, merge (v.begin(), v.end(), a.begin(), a.end(), o.begin()) - o.begin()); hp (c, o.begin(), (v.size() + a.size()) * 4); hn (c, set_union (v.begin(), v.end(), a.begin(), a.end(), o.begin()) - o.begin()); hn (c, set_intersection (v.begin(), v.end(), a.begin(), a.end(), o.begin()) - o.begin()); hn (c, set_difference (v.begin(), v.end(), a.begin(), a.end(), o.begin()) - o.begin()); hn (c, set_symmetric_difference (v.begin(), v.end(), a.begin(), a.end(), o.begin()) - o.begin()); hn (c, includes (v.begin(), v.end(), a.begin(), a.end()));
    vector<int> m (v); m.insert (m.end(), a.begin(), a.end()); inplace_merge (m.begin(), m.begin() + v.size(), m.end()); hv (c, m); vector<int> h (ints (c)); make_heap (h.begin(), h.end()); hv (c, h); h.push_back (x); push_heap (h.begin(), h.end()); hv (c, h); pop_heap (h.begin(), h.end()); hv (c, h); h.pop_back(); sort_heap (h.begin(), h.end()); hv (c, h); vector<int> k (ints (c)); sort (k.begin(), k.end(), greater<int>()); hv (c, k); vector<string> ws; for (int i = 0; i < 8; ++i) ws.push_back (word (c, 5)); sort (ws); for (auto& w : ws) hs (c, w); stable_sort (k.begin(), k.end()); hv (c, k); if (k.size() > 3) { partial_sort (k.begin(), k.begin() + 2, k.end()); nth_element (k.begin(), k.begin() + 2, k.end()); hn (c, k[2]); }
}
JOB (j_seq)
{
    list<int> l, l2; for (int i = 0; i < 20; ++i) { l.push_back (c.r.below (30)); l.push_front (c.r.below (30)); l2.push_back (i); } auto mid = l.begin() + 5; l.splice (mid, l2, l2.begin(), l2.begin() + 4); l.remove (7); l.reverse(); l.sort(); l.unique(); hv (c, l); l.pop_front(); l.pop_back(); hv (c, l); deque<int> d; for (int i = 0; i < 15; ++i) { d.push_front (i); d.push_back (c.r.below (9)); } d.pop_front(); d.insert (d.begin() + 3, 77); d.erase (d.begin()); hv (c, d);
    queue<int> q; stack<int> s; priority_queue<int> p; for (int i = 0; i < 12; ++i) { const int x = c.r.below (99); q.push (x); s.push (x); p.push (x); } for (int i = 0; i < 12; ++i) { hn (c, q.front()); q.pop(); hn (c, s.top()); s.pop(); hn (c, p.top()); p.pop(); }
    vector<string> v; for (int i = 0; i < 9; ++i) v.push_back (word (c)); v.insert (v.begin() + 2, 3, string ("ins")); v.erase (v.begin(), v.begin() + 2); v.emplace (v.begin() + 1, "emp"); v.resize (14); v.reserve (40); vector<string> w (v); w.swap (v); v.assign (w.begin(), w.begin() + 4); for (auto& x : v) hs (c, x); vector<int> n (ints (c)); n.insert (n.begin(), n.size(), 4); hv (c, n); n.shrink_to_fit(); hv (c, n);
}
JOB (j_assoc)
{
    set<int> s; multiset<int> ms; map<string,int> m; multimap<int,int> mm; for (int i = 0; i < 25; ++i) { const int x = c.r.below (30); s.insert (x); ms.insert (x); m[word (c, 3)] += x; mm.insert (make_pair (int (x), int (i))); } hv (c, s); hv (c, ms); for (auto& p : m) { hs (c, p.first); hn (c, p.second); } for (auto& p : mm) hn (c, p.first * 100 + p.second); const int x = c.r.below (30); hn (c, s.count (x)); hn (c, ms.count (x)); hn (c, s.find (x) - s.begin()); hn (c, s.lower_bound (x) - s.begin()); hn (c, mm.lower_bound (x) - mm.begin()); hn (c, mm.upper_bound (x) - mm.begin()); hn (c, mm.count (x)); s.erase (x); ms.erase (x); m.erase (string ("a")); mm.erase (x); hv (c, s); hv (c, ms); hn (c, m.size() * 100 + mm.size()); set<int> t (s); hn (c, t == s); map<string,int> m2 (m); hn (c, m2 == m); m2.clear(); hn (c, m2.empty());
}
struct Cnt { int* n; int v; Cnt (int* p, int x) : n (p), v (x) { ++*n; } ~Cnt (void) { --*n; } };
JOB (j_ptr)
{
    int n = 0; { unique_ptr<Cnt> u (new Cnt (&n, 3)); unique_ptr<Cnt> w (move (u)); hn (c, n + w->v + !u.get()); w.reset (new Cnt (&n, 4)); hn (c, n); shared_ptr<Cnt> a (new Cnt (&n, 5)), b (a), d; d = b; hn (c, a.use_count() + n); a.reset(); hn (c, b->v + d.use_count()); d.swap (a); hn (c, n); auto ms = make_shared<Cnt> (&n, 8); hn (c, ms->v + ms.unique()); auto mu = make_unique<Cnt> (&n, 9); hn (c, mu->v); auto_ptr<Cnt> ap (new Cnt (&n, 1)); auto_ptr<Cnt> ap2 (ap); hn (c, !ap.get() + n); int g = 0; { auto ge = make_scope_exit ([&]{ g = 7; }); } hn (c, g); } hn (c, n == 0);
    memblock raw (10 * sizeof(string)); string* p = (string*) raw.begin(); uninitialized_fill_n (p, 10, string ("fill")); for (int i = 0; i < 10; ++i) hs (c, p[i]); destroy (p, p + 10); string src [3] = { word (c), word (c), "c" }; uninitialized_copy (src, src + 3, p); hs (c, p[1]); destroy (p, p + 3);
    cmemlink cl (raw.begin(), 16); cmemlink cm (cl); hn (c, cl == cm); hn (c, cm.size()); memblock a, b; a.assign ("abcdef", 6); b = a; b.insert (b.begin() + 2, 3); fill_n (b.begin() + 2, 3, 'Q'); hp (c, b.begin(), b.size()); b.erase (b.begin(), 2); hp (c, b.begin(), b.size()); a.swap (b); hp (c, a.begin(), a.size()); memlink ml (a); ml.fill (ml.begin(), "xy", 2, 2); hp (c, a.begin(), a.size()); memblock lk; lk.link ("const", 5); lk.resize (9); hp (c, lk.begin(), 5); a.shrink_to_fit(); a.reserve (100); hn (c, a.size());
}
template <size_t N, typename T> __attribute__((noinline)) void packed (Ctx& c)
{
    tuple<N,T> a, b, d; for (size_t i = 0; i < N; ++i) { a[i] = T (c.r.below (100)); b[i] = T (1 + c.r.below (100)); } d = a; d += b; hv (c, d); d -= b; hv (c, d); d = a + b; hv (c, d); d = a - b; d *= T (2); hv (c, d); d = a; d /= T (2); hv (c, d); simd::passign (a, d); simd::padd (b, d); hv (c, d); simd::psub (b, d); hv (c, d); simd::pmin (b, d); hv (c, d); simd::pmax (b, d); hv (c, d); simd::reset_mmx(); hn (c, a == d); hn (c, a < b); a.swap (b); hv (c, a); reverse (a); hv (c, a);
}
JOB (j_packed) { packed<2,float> (c); packed<4,float> (c); packed<8,uint8_t> (c); packed<4,uint16_t> (c); packed<2,uint32_t> (c); packed<4,int32_t> (c); packed<16,uint8_t> (c); packed<3,int> (c); packed<2,int> (c); packed<4,int16_t> (c); packed<8,int8_t> (c); }
JOB (j_matrix)
{
    matrix<4,4,float> a, b; for (int i = 0; i < 16; ++i) { a.begin()[i] = float (int (c.r.below (9))); b.begin()[i] = float (int (c.r.below (9))); } tuple<4,float> t; for (int i = 0; i < 4; ++i) t[i] = float (c.r.below (9)); matrix<4,4,float> p = a * b; simd::reset_mmx(); for (int i = 0; i < 16; ++i) hn (c, u64 (p.begin()[i])); tuple<4,float> r = t * a; simd::reset_mmx(); for (int i = 0; i < 4; ++i) hn (c, u64 (r[i])); load_identity (b); for (int i = 0; i < 16; ++i) hn (c, u64 (b.begin()[i])); matrix<3,2,int> m; matrix<2,3,int> k; for (int i = 0; i < 6; ++i) { m.begin()[i] = c.r.below (9); k.begin()[i] = c.r.below (9); } auto x = m * k; for (auto i = x.begin(); i < x.end(); ++i) hn (c, *i); auto tr = t; tr += t; hn (c, u64 (tr[1])); auto col = a.column (1); hn (c, u64 (col[2]));
}
JOB (j_numbers)
{
    for (int i = 0; i < 6; ++i) { const uint32_t x = c.r.next(); const u64 y = c.r.next(); hn (c, FirstBit (x, 99)); hn (c, FirstBit (uint64_t (y), 99)); hn (c, NextPow2 (2 + (x & 0xFFFFFF))); hn (c, bswap (x)); hn (c, bswap (uint64_t (y))); hn (c, bswap (uint16_t (x))); hn (c, Rol (x, 1 + x % 30)); hn (c, Ror (uint64_t (y), 1 + x % 60)); hn (c, gcd (int (x % 10000 + 1), int (y % 10000 + 1))); hn (c, lcm (int (x % 100 + 1), int (y % 100 + 1))); hn (c, Align (x & 0xFFFFFF, 8)); hn (c, AlignDown (x, 16)); hn (c, DivRU (int (x & 0xFFFF), 7)); hn (c, absv (int (x >> 1))); hn (c, sign (int (x))); hn (c, le_to_native (x)); hn (c, be_to_native (x)); hn (c, min (x, uint32_t (y))); hn (c, clamp (int (x % 100), 10, 50)); }
    using namespace chrono; hn (c, duration_cast<seconds> (milliseconds (c.r.below (100000))).count()); hn (c, (seconds (3) + seconds (c.r.below (60))).count()); ostringstream os; os << microseconds (c.r.below (1000)) << ' ' << system_clock::time_point (system_clock::duration (86400L * c.r.below (20000))); os.flush(); hs (c, os.str()); auto t0 = steady_clock::now(), t1 = steady_clock::now(); hn (c, t0 <= t1); hn (c, power (int (c.r.below (5)), 4));
    bitset<96> b, d; for (int i = 0; i < 30; ++i) { b.flip (c.r.below (96)); d.set (c.r.below (96)); } hn (c, b.count()); hn (c, (b & d).count()); hn (c, (b | d).count()); hn (c, (b ^ d).any()); hs (c, b.to_string()); b.flip(); hn (c, b.none()); b.reset(); hn (c, b.none());
}
JOB (j_raw)
{
    static const size_t sz [] = { 3, 17, 64, 129, 700, 3000 }; const size_t n = sz [c.r.below (6)], o = c.r.below (16), p = c.r.below (16); memblock a (n + 40), b (n + 40); for (auto i = a.begin(); i < a.end(); ++i) *i = c.r.next(); fill_n (b.begin(), b.size(), 0); copy_n (a.begin() + o, n, b.begin() + p); hp (c, b.begin(), b.size()); copy (a.begin(), a.begin() + n, b.begin() + 1); hp (c, b.begin(), b.size()); copy_backward (b.begin(), b.begin() + n, b.begin() + n + 9); hp (c, b.begin(), b.size()); fill_n (b.begin() + o, n, char (p)); hp (c, b.begin(), b.size());
    uint16_t* h = (uint16_t*) a.begin(); fill_n (h, n / 2, uint16_t (c.r.next())); uint32_t* w = (uint32_t*) b.begin(); fill_n (w, n / 4, uint32_t (c.r.next())); hp (c, a.begin(), a.size()); hp (c, b.begin(), b.size()); for (auto i = a.begin(); i < a.end(); ++i) *i = c.r.next(); rotate (a.begin() + o, a.begin() + o + n / 3, a.begin() + o + n); hp (c, a.begin(), a.size()); swap_ranges (a.begin(), a.begin() + n, b.begin()); hp (c, b.begin(), b.size()); copy_n (w, n / 4, (uint32_t*) a.begin()); hp (c, a.begin(), a.size());
}
JOB (j_file)
{
    char fn [300]; snprintf (fn, 300, "%s/c18p-%d", c.dir, c.t); const string s (word (c, 300)); { ofstream f (fn, ios::out|ios::trunc); f << s << '\n' << int (c.r.below (9999)) << ' ' << 2.5 << endl; } { ifstream f (fn); f.exceptions (0); string l; getline (f, l); hs (c, l); int n = 0; f >> n; hn (c, n); }
    { fstream f (fn, fstream::in | fstream::out); char b [64]; memset (b, 0, 64); hn (c, f.size()); hn (c, f.readsome (b, 60)); hp (c, b, 60); f.seek (2); f.write ("##", 2); hn (c, f.pos()); f.sync(); f.seek (0); memset (b, 0, 64); f.read (b, min (size_t (5), size_t (f.size()))); hp (c, b, 8); memlink m (f.mmap (min (f.size(), off_t (4096)))); hp (c, m.begin(), m.size()); f.munmap (m); f.close(); }
    memblock mb; mb.read_file (fn); hp (c, mb.begin(), mb.size()); mb.write_file (fn); string t; t.read_file (fn); hs (c, t); unlink (fn); try { memblock z; z.read_file (fn); hn (c, 1); } catch (file_exception& e) { hn (c, 2); }
}
struct Mf { int k; int get (void) const { return k; } int add (int x) const { return k + x; } };
JOB (j_iter)
{
    vector<int> v (ints (c)), w, x; list<int> l; copy (v.rbegin(), v.rend(), back_inserter (w)); hv (c, w); copy (v.begin(), v.end(), front_inserter (l)); hv (c, l); copy (v.begin(), v.end(), inserter (x, x.begin())); hv (c, x); memblock b (stream_size_of (v) + 8); ostream os (b); copy (v.begin(), v.end(), ostream_iterator<int> (os)); istream is (b.begin(), os.pos()); is.exceptions (0); w.clear(); if (v.size()) copy_n (istream_iterator<int> (is), v.size(), back_inserter (w)); hn (c, w == v); vector<size_t> ix; for (size_t i = 0; i < v.size(); i += 2) ix.push_back (i); auto ir = index_iterator (v.begin(), ix.begin()); for (size_t i = 0; i < ix.size(); ++i, ++ir) hn (c, **ir);
    hn (c, count_if (v.begin(), v.end(), bind2nd (less<int>(), 20))); hn (c, count_if (v.begin(), v.end(), unary_negator (bind1st (greater<int>(), 20)))); hn (c, count_if (v.begin(), v.end(), compose1 (bind2nd (equal_to<int>(), 4), bind2nd (modulus<int>(), 9)))); hn (c, ptr_fun (&twice) (21)); vector<Mf> m (4); for (auto& q : m) q.k = c.r.below (99); vector<int> o (4); transform (m.begin(), m.end(), o.begin(), mem_fun_ref (&Mf::get)); hv (c, o); hn (c, logical_and<bool>() (1, 0)); hn (c, negate<int>() (-4));
    multimap<int,int> mm; for (int i = 0; i < 9; ++i) mm.insert (make_pair (int (c.r.below (4)), int (i))); hn (c, mm.equal_range (2).second - mm.equal_range (2).first);
}
typedef void (*job_t)(Ctx&);
struct JobDef { const char* name; job_t f; };
const JobDef c_jobs [] = { {"string",j_string}, {"find",j_find}, {"utf8",j_utf8}, {"format",j_format}, {"textctr",j_textctr}, {"parse",j_parse}, {"binary",j_binary}, {"except",j_except}, {"algo",j_algo}, {"sort",j_sort}, {"seq",j_seq}, {"assoc",j_assoc}, {"ptr",j_ptr}, {"packed",j_packed}, {"matrix",j_matrix}, {"numbers",j_numbers}, {"raw",j_raw}, {"file",j_file}, {"iter",j_iter} };
enum { NJ = sizeof(c_jobs) / sizeof(c_jobs[0]) };

u64 do_job (unsigned j, u64 seed, const char* dir, int t) { Ctx c = { Rng (seed), dir, t, j, {0} }; try { c_jobs[j].f (c); } catch (exception& e) { c.h = hmix (c.h, 0xBAD); } return c.h; }
struct Arg { int t; const char* dir; const unsigned* job; const u64* seed; u64* got; unsigned n; Bar* bar; };
void* body (void* p) { Arg& a = *(Arg*) p; for (unsigned i = 0; i < a.n; ++i) { if (!(i & 3)) a.bar->wait(); a.got[i] = do_job (a.job[i], a.seed[i], a.dir, a.t); } return nullptr; }
void together (void)
{
    enum { N = 24 }; static Bar bar; static u64 seed [MAXT][N], got [MAXT][N], want [MAXT][N]; static unsigned job [MAXT][N]; const int nt = 2 + R.below (MAXT - 1); const bool same = R.chance (3, 4); const unsigned j0 = g_case_idx % NJ; bar.init (nt); pthread_t th [MAXT]; static Arg a [MAXT];
    for (int t = 0; t < nt; ++t) for (int i = 0; i < N; ++i) { job[t][i] = same ? j0 : R.below (NJ); seed[t][i] = R.next(); want[t][i] = do_job (job[t][i], seed[t][i], g_scratch, t); got[t][i] = 0; }
    for (int t = 0; t < nt; ++t) { a[t] = { t, g_scratch, job[t], seed[t], got[t], N, &bar }; if (pthread_create (&th[t], nullptr, body, &a[t])) { fprintf (stderr, "vf: no threads\n"); _exit (96); } }
    for (int t = 0; t < nt; ++t) pthread_join (th[t], nullptr);
    for (int t = 0; t < nt; ++t) for (int i = 0; i < N; ++i) { ops(); VC (got[t][i] == want[t][i], "interference", "work on %s by thread %d of %d on objects of its own gave a different result than alone", c_jobs[job[t][i]].name, t, nt); sig (hmix (job[t][i] * 8 + nt, want[t][i] % 16)); }
    if (want_sample()) sample ("%d threads did %d pieces of work each on objects of their own (%s), same results as alone", nt, N, same ? c_jobs[j0].name : "mixed");
}

//--- one object, read by all -----------------------------------------------
struct Shared {
    string s, link, empty; vector<int> v; vector<string> vs; list<int> l; deque<int> d; set<int> st; multiset<int> ms; map<string,int> m; multimap<int,string> mm; bitset<96> b; tuple<4,float> t; matrix<3,3,int> mx; pair<string,int> p; memblock mb; cmemlink cm; shared_ptr<string> sp; unique_ptr<string> up; file_exception fe; stream_bounds_exception se; runtime_error re; error_code ec; array<int,5> ar; queue<int> q; priority_queue<int> pq; ostringstream os; CBacktrace bt;
    Shared (Ctx& c) : s (word (c, 60)), link ("a linked text, not owned"), v (ints (c)), p (word (c), 4), sp (new string (word (c))), up (new string (word (c))), fe ((errno = 13, "op"), "some/file"), se ("read", "N4ustl6stringE", 4, 8, 2), re (word (c)), ec (known (c.r.below (100)), system_category()) {
	
	for (int i = 0; i < 12; ++i) { vs.push_back (word (c)); const int x = c.r.below (20); l.push_back (x); d.push_back (x); st.insert (x); ms.insert (x); m[word (c, 2)] = x; mm.insert (make_pair (int (x), word (c))); b.flip (c.r.below (96)); q.push (x); pq.push (x); } fill (t, 2.5f); load_identity (mx); fill (ar, 7); mb.assign (s.data(), s.size()); cm.link (s.data(), s.size()); os << "out " << 5; os.flush(); }
};
__attribute__((noinline)) void read_all (Ctx& c, const Shared& o)
{
    const string *ss [] = { &o.s, &o.link, &o.empty, o.sp.get(), o.up.get(), &o.p.first };
    for (auto s : ss) { hs (c, *s); hn (c, strlen (s->c_str())); hn (c, s->length()); hn (c, s->find ('e')); hn (c, s->find ("in")); hn (c, s->rfind ("t")); hn (c, s->find_first_of ("xyz")); hn (c, s->find_last_not_of ("abc")); hn (c, s->empty()); hn (c, s->capacity() >= s->size()); hn (c, *s == o.s); hn (c, s->compare (o.link) + 3); hs (c, s->substr (0, 5)); string k (*s); k += 'x'; hs (c, k); hn (c, string::hash (s->begin(), s->end())); hn (c, stream_size_of (*s)); for (auto u = s->utf8_begin(); u < s->utf8_end(); ++u) hn (c, *u); if (s->size()) { hn (c, s->at (0)); hn (c, s->back()); } }
    hv (c, o.v); hv (c, o.l); hv (c, o.d); hv (c, o.st); hv (c, o.ms); for (auto& s : o.vs) hs (c, s); for (auto& p : o.m) { hs (c, p.first); hn (c, p.second); } for (auto& p : o.mm) { hn (c, p.first); hs (c, p.second); } { vector<string> k (o.vs); hn (c, k == o.vs); map<string,int> n (o.m); hn (c, n == o.m); list<int> x (o.l); hn (c, x == o.l); set<int> y (o.st); hn (c, y.size()); } hn (c, o.st.find (3) == o.st.end()); hn (c, o.ms.count (4)); hn (c, o.m.find (string ("ab")) - o.m.begin()); hn (c, o.m.lower_bound (string ("k")) - o.m.begin()); hn (c, o.mm.equal_range (5).first - o.mm.begin()); hn (c, o.st.lower_bound (6) - o.st.begin()); hn (c, binary_search (o.st.begin(), o.st.end(), 9)); hn (c, o.q.front()); hn (c, o.q.size()); hn (c, o.pq.top());
    hn (c, o.b.count()); hn (c, o.b.any()); hs (c, o.b.to_string()); hn (c, o.b.test (5)); hn (c, u64 (o.t[2] * 4)); hn (c, o.mx[1][1]); hv (c, o.ar); hp (c, o.mb.begin(), o.mb.size()); hp (c, o.cm.begin(), o.cm.size()); hn (c, o.mb == o.cm); memblock mb (o.mb); hn (c, mb == o.mb); { shared_ptr<string> sp (o.sp); hs (c, *sp); }
    string i; o.fe.info (i); hs (c, i); o.se.info (i); hs (c, i); o.re.info (i); hs (c, i); hs (c, string (o.fe.what())); hs (c, string (o.ec.message())); hn (c, o.ec == error_code (5, generic_category())); { file_exception f (o.fe); f.info (i); hs (c, i); } ostringstream os; os << o.v << o.m << o.b << o.t << o.mx << o.p << o.fe << o.l << o.st << o.bt; os.flush(); hs (c, os.str()); memblock buf (stream_size_of (o.v) + stream_size_of (o.m) + stream_size_of (o.s) + stream_size_of (o.fe) + 100); ostream bo (buf); bo << o.v; bo.align(); bo << o.m; bo.align(); bo << o.s; bo.align(); bo << o.fe; hn (c, bo.pos()); hp (c, buf.begin(), 40); istringstream is (o.s); string w; is.exceptions (0); is >> w; hs (c, w);
}
struct RArg { const Shared* s; u64 seed, got; unsigned n; Bar* bar; };
void* rbody (void* p) { RArg& a = *(RArg*) p; a.bar->wait(); for (unsigned i = 0; i < a.n; ++i) { Ctx c = { Rng (a.seed), "", 0, 1, {0} }; read_all (c, *a.s); if (i && c.h != a.got) { a.got = 0; break; } a.got = c.h; } return nullptr; }
void readers (void)
{
    static Bar bar; const int nt = 2 + R.below (MAXT - 1); bar.init (nt); pthread_t th [MAXT]; static RArg a [MAXT]; Ctx c = { Rng (R.next()), "", 0, 0, {0} }, w = { Rng (1), "", 0, 1, {0} }; const u64 seed = R.next(); Rng r0 (seed);
    Shared* o = new Shared (c); Shared* twin; { Rng r (R.next()); (void) r; twin = o; }
    // the threads read it before anybody has, so that nothing is computed beforehand
    for (int t = 0; t < nt; ++t) { a[t] = { o, seed, 0, 6, &bar }; if (pthread_create (&th[t], nullptr, rbody, &a[t])) { fprintf (stderr, "vf: no threads\n"); _exit (96); } }
    for (int t = 0; t < nt; ++t) pthread_join (th[t], nullptr);
    read_all (w, *twin); for (int t = 0; t < nt; ++t) { ops (100); VC (a[t].got == w.h, "readers", "thread %d of %d reading a shared object saw something else than a single reader", t, nt); } sig (hmix (nt, w.h % 128)); delete o;
}
struct Warm { Warm (void) { time_t z = 0; char zb [64]; ctime_r (&z, zb); pthread_t t [MAXT]; for (auto& x : t) pthread_create (&x, nullptr, [](void*) -> void* { return nullptr; }, nullptr); for (auto& x : t) pthread_join (x, nullptr); } } s_warm;
} // namespace vf18
VF_CASE (c18_together, 190, 1900) { vf18::together(); }
VF_CASE (c18_readers, 60, 600) { vf18::readers(); }
