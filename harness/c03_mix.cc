// C03: a world of objects of every kind feeding each other. No model: what is judged is memory, by the monitors around the process,
// and every byte visible through the public interface is fed to a decision, so that uninitialised ones show.
#include "vf.h"
using namespace vf;
using namespace ustl;
namespace {
u64 s_h;
void see (const void* p, size_t n) { s_h = hbytes (p, n, s_h); if ((s_h & 0xffff) == 1) ops(); }
void see (u64 v) { see (&v, sizeof(v)); }
string text (void) { string r; const size_t n = R.size (90); for (size_t i = 0; i < n; ++i) r += char (R.chance (1, 9) ? R.below (256) : "abc 0123,.-"[R.below (11)]); return r; }
struct Big { int a [5]; string s; shared_ptr<string> p; Big (void) : s(), p() { memset (a, 0, sizeof(a)); } Big (int v, const string& t) : s (t), p() { for (int i = 0; i < 5; ++i) a[i] = v + i; } bool operator< (const Big& o) const { return a[0] < o.a[0]; } bool operator== (const Big& o) const { return a[0] == o.a[0] && s == o.s; } };
struct World {
    string s [4]; vector<int> vi [3]; vector<string> vs [3]; vector<vector<string>> vv; vector<Big> vb; list<string> ls; deque<int> di; deque<string> ds;
    set<string> ss; multiset<int> mi; map<string,int> m; map<int,string> im; multimap<int,string> mm; memblock mb [3]; shared_ptr<string> sp [4]; unique_ptr<vector<int>> up; unique_ptr<Big> ub;
    queue<string> q; stack<string> st; priority_queue<int> pq; ostringstream os; bitset<96> bs; tuple<5,int> tp; matrix<3,3,float> mx;
    World (void) { fill (tp, 0); load_identity (mx); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) mx[i][j] = i * 3 + j; }
    void look (void) const {
	for (auto& x : s) { see (x.c_str(), x.size() + 1); see (x.length()); }
	for (auto& x : vi) see (x.begin(), x.size() * sizeof(int));
	for (auto& x : vs) for (auto& y : x) see (y.c_str(), y.size() + 1);
	for (auto& x : vv) for (auto& y : x) see (y.c_str(), y.size() + 1);
	for (auto& x : vb) { see (x.a, sizeof(x.a)); see (x.s.c_str(), x.s.size() + 1); if (x.p) see (x.p->c_str(), x.p->size()); }
	for (auto& x : ls) see (x.c_str(), x.size() + 1); see (di.begin(), di.size() * sizeof(int)); for (auto& x : ds) see (x.c_str(), x.size() + 1);
	for (auto& x : ss) see (x.c_str(), x.size() + 1); see (mi.begin(), mi.size() * sizeof(int)); for (auto& x : m) { see (x.first.c_str(), x.first.size() + 1); see (x.second); } for (auto& x : im) { see (x.first); see (x.second.c_str(), x.second.size() + 1); } for (auto& x : mm) { see (x.first); see (x.second.c_str(), x.second.size() + 1); }
	for (auto& x : mb) see (x.data(), x.size()); for (auto& x : sp) { if (x) see (x->c_str(), x->size() + 1); see (x.use_count()); } if (up) see (up->begin(), up->size() * sizeof(int)); if (ub) see (ub->s.c_str(), ub->s.size() + 1);
	if (!q.empty()) { see (q.front().c_str(), q.front().size() + 1); see (q.back().c_str(), q.back().size() + 1); } if (!st.empty()) see (st.top().c_str(), st.top().size() + 1); if (!pq.empty()) see (pq.top());
	see (bs.to_value()); see (tp.begin(), sizeof(int) * 5); see (mx.begin(), sizeof(float) * 9);
    }
};
const string& anys (World& w)	// a text kept somewhere in the world
{
    static const string none ("nothing");
    switch (R.below (12)) {
	case 0: case 1: return w.s[R.below (4)]; case 2: { auto& v = w.vs[R.below (3)]; if (v.size()) return v[R.below (v.size())]; break; } case 3: if (w.ls.size()) return w.ls[R.below (w.ls.size())]; break;
	case 4: if (w.ss.size()) return w.ss.begin()[R.below (w.ss.size())]; break; case 5: if (w.m.size()) return w.m.begin()[R.below (w.m.size())].first; break; case 6: if (w.mm.size()) return w.mm.begin()[R.below (w.mm.size())].second; break;
	case 7: { auto& p = w.sp[R.below (4)]; if (p) return *p; break; } case 8: if (!w.q.empty()) return w.q.front(); break; case 9: if (!w.st.empty()) return w.st.top(); break; case 10: if (w.vb.size()) return w.vb[R.below (w.vb.size())].s; break; case 11: if (w.ds.size()) return w.ds.back(); break;
    }
    return none;
}
[[gnu::noinline]] void step1 (World& w, unsigned op)
{
    string& s = w.s[R.below (4)]; vector<int>& vi = w.vi[R.below (3)]; vector<string>& vs = w.vs[R.below (3)]; const string t (anys (w));
    switch (op) {
	case 0: s = text(); break;
	case 1: s = anys (w); break;
	case 2: s.append (t); if (s.size() > 2000) s.clear(); break;
	case 3: s.insert (s.begin() + R.below (s.size() + 1), t.begin(), t.end()); if (s.size() > 2000) s.resize (11); break;
	case 4: s.erase (s.begin() + R.below (s.size() / 2 + 1), R.below (s.size() / 2 + 1)); break;
	case 5: s.replace (s.begin(), s.begin() + R.below (s.size() + 1), t.begin(), t.end()); break;
	case 6: { const size_t o = s.size(); s.resize (R.size (300)); for (size_t i = o; i < s.size(); ++i) s.begin()[i] = 'r'; break; }
	case 7: { string u (s, R.below (s.size() + 1)); s.swap (u); break; }
	case 8: s = s + t; if (s.size() > 2000) s.clear(); break;
	case 9: vi.push_back (R.below (99)); break;
	case 10: vi.insert (vi.begin() + R.below (vi.size() + 1), R.below (20), 7); break;
	case 11: if (vi.size()) vi.erase (vi.begin() + R.below (vi.size())); break;
	case 12: vi.clear(); vi.resize (R.size (80)); break;
	case 13: vi = w.vi[R.below (3)]; break;
	case 14: sort (vi.begin(), vi.end()); vi.erase (unique (vi.begin(), vi.end()), vi.end()); break;
	case 15: vs.push_back (anys (w)); break;
	case 16: vs.insert (vs.begin() + R.below (vs.size() + 1), R.below (5), t); break;
	case 17: if (vs.size()) vs.erase (vs.begin() + R.below (vs.size())); break;
	case 18: vs.resize (R.below (12)); break;
	case 19: vs = w.vs[R.below (3)]; break;
	case 20: sort (vs.begin(), vs.end()); break;
	case 21: vs.assign (R.below (6), t); break;
	case 22: vs.swap (w.vs[R.below (3)]); break;
	case 23: w.vv.push_back (vs); if (w.vv.size() > 6) w.vv.erase (w.vv.begin(), 3); break;
	case 24: if (w.vv.size()) { vs = w.vv[R.below (w.vv.size())]; w.vv.pop_back(); } break;
	case 25: rotate (w.vv.begin(), w.vv.begin() + R.below (w.vv.size() + 1), w.vv.end()); break;
	case 26: w.vb.emplace_back (int (R.below (50)), t); if (R.chance (1, 2)) w.vb.back().p = w.sp[R.below (4)]; if (w.vb.size() > 20) w.vb.erase (w.vb.begin() + 3, 9); break;
	case 27: w.vb.insert (w.vb.begin() + R.below (w.vb.size() + 1), Big (3, t)); break;
	case 28: sort (w.vb.begin(), w.vb.end()); break;
	case 29: { vector<Big> c (w.vb); w.vb.clear(); w.vb = c; break; }
	case 30: w.vb.shrink_to_fit(); vs.shrink_to_fit(); vi.reserve (R.below (200)); vi.shrink_to_fit(); break;
	case 31: reverse (w.vb.begin(), w.vb.end()); rotate (vs.begin(), vs.begin() + R.below (vs.size() + 1), vs.end()); break;
	case 32: vs.erase (remove_if (vs.begin(), vs.end(), bind2nd (less<string>(), t)), vs.end()); break;
	case 33: { vector<string> mv (move (vs)); vs = move (mv); break; }
	case 34: s = string (t.begin(), t.size()); break;
	case 35: s.deallocate(); s.link (t.c_str(), t.size()); s.copy_link(); break;
    }
}
[[gnu::noinline]] void step2 (World& w, unsigned op)
{
    const string t (anys (w)); const int k = R.below (40); vector<string>& vs = w.vs[R.below (3)];
    switch (op) {
	case 0: w.ls.push_back (t); if (w.ls.size() > 40) w.ls.clear(); break;
	case 1: w.ls.push_front (t); break;
	case 2: if (w.ls.size()) w.ls.pop_front(); break;
	case 3: { list<string> o; o.push_back (t); o.push_back (anys (w)); w.ls.splice (w.ls.begin() + R.below (w.ls.size() + 1), o); see (o.size()); break; }
	case 4: w.ls.sort(); w.ls.unique(); break;
	case 5: w.ls.reverse(); w.ls.remove (t); break;
	case 6: w.di.push_front (k); w.di.push_back (k + 1); break;
	case 7: if (w.di.size()) { w.di.pop_back(); if (w.di.size()) w.di.pop_front(); } break;
	case 8: w.ds.push_back (t); w.ds.push_front (t); if (w.ds.size() > 20) w.ds.erase (w.ds.begin(), 15); break;
	case 9: w.ss.insert (t); if (w.ss.size() > 30) w.ss.clear(); break;
	case 10: w.ss.erase (t); break;
	case 11: { auto i = w.ss.find (t); if (i != w.ss.end()) w.ss.erase (i); break; }
	case 12: { set<string> c (w.ss); w.ss.clear(); w.ss.insert (c.begin(), c.end()); break; }
	case 13: w.mi.insert (k); w.mi.insert (k); if (w.mi.size() > 60) w.mi.erase (w.mi.begin(), w.mi.begin() + 30); break;
	case 14: w.mi.erase (k); see (w.mi.count (k)); break;
	case 15: w.m[t] = k; if (w.m.size() > 30) w.m.clear(); break;
	case 16: w.m.erase (t); break;
	case 17: { auto i = w.m.find (t); if (i != w.m.end()) { see (i->second); w.m.erase (i); } break; }
	case 18: w.im[k] = t; w.im[k+1].append (t); if (w.im[k+1].size() > 1000) w.im.erase (k + 1); break;
	case 19: w.im.insert (make_pair (k, t)); w.im.erase (k + 3); break;
	case 20: w.mm.insert (make_pair (k, t)); w.mm.insert (make_pair (k, anys (w))); if (w.mm.size() > 30) w.mm.erase (k); break;
	case 21: { auto r = w.mm.equal_range (k); w.mm.erase (r.first, r.second); break; }
	case 22: { map<int,string> c (w.im); c.swap (w.im); map<int,string> d (move (c)); w.im = d; break; }
	case 23: w.q.push (t); w.q.push (anys (w)); if (w.q.size() > 40) while (w.q.size() > 3) w.q.pop(); break;
	case 24: if (!w.q.empty()) { w.s[0] = w.q.front(); w.q.pop(); } break;
	case 25: { queue<string> c (w.q); w.q = c; break; }
	case 26: w.st.push (t); if (w.st.size() > 30) while (!w.st.empty()) w.st.pop(); break;
	case 27: if (!w.st.empty()) { w.s[1] = w.st.top(); w.st.pop(); } break;
	case 28: w.pq.push (k); if (w.pq.size() > 30) while (w.pq.size() > 5) w.pq.pop(); break;
	case 29: w.sp[R.below (4)] = make_shared<string> (t); break;
	case 30: w.sp[R.below (4)] = w.sp[R.below (4)]; break;
	case 31: w.sp[R.below (4)].reset(); break;
	case 32: { auto& p = w.sp[R.below (4)]; if (p) p->append (t.begin(), min (t.size(), size_t (20))); if (p && p->size() > 500) p.reset(); break; }
	case 33: w.up.reset (new vector<int> (w.vi[R.below (3)])); break;
	case 34: if (w.up) { w.vi[0].swap (*w.up); w.up.reset(); } break;
	case 35: { unique_ptr<Big> b (new Big (k, t)); w.ub = move (b); if (R.chance (1, 3)) delete w.ub.release(); break; }
    }
    (void) vs;
}
[[gnu::noinline]] void step3 (World& w, unsigned op)
{
    const string t (anys (w)); memblock& b = w.mb[R.below (3)]; memblock& c = w.mb[R.below (3)]; string& s = w.s[R.below (4)]; vector<int>& vi = w.vi[R.below (3)];
    switch (op) {
	case 0: b.assign (t.data(), t.size()); break;
	case 1: if (&b != &c) b = c; break;
	case 2: { const size_t o = b.size(); b.resize (R.size (500)); for (size_t i = o; i < b.size(); ++i) b.begin()[i] = i; break; }
	case 3: { const size_t at = R.below (b.size() + 1), n = R.below (40); b.insert (b.begin() + at, n); for (size_t i = 0; i < n; ++i) b.begin()[at+i] = 1; if (b.size() > 3000) b.resize (10); break; }
	case 4: { const size_t at = R.below (b.size() + 1); b.erase (b.begin() + at, R.below (b.size() - at + 1)); break; }
	case 5: b.swap (c); break;
	case 6: { if (&b != &c && c.size()) { cmemlink l (c); see (l.data(), l.size()); memblock d; d.link (c); d.copy_link(); see (d.data(), d.size()); b.assign (d.begin(), d.size()); } break; }
	case 7: s.assign ((const char*) b.data(), min (b.size(), size_t (600))); break;
	case 8: b.reserve (R.below (300)); b.shrink_to_fit(); break;
	case 9: { memblock d (move (b)); b = move (d); break; }
	case 10: { memblock d (stream_size_of (s) + stream_size_of (vi) + stream_size_of (t) + 16); fill_n (d.begin(), d.size(), 0); ostream os (d); os << s; os.align(); os << vi; os.align(); os << t; b.assign (d.begin(), os.pos()); string s2; vector<int> v2; string t2; istream is (d.begin(), os.pos()); is >> s2; is.align(); is >> v2; is.align(); is >> t2; see (s2.c_str(), s2.size()); see (v2.begin(), v2.size() * 4); break; }
	case 11: { memblock d (stream_size_of (w.m) + stream_size_of (w.vs[0]) + 16); ostream os (d); os << w.vs[0]; os.align (8); const auto mp = os.pos(); if (os.remaining() >= stream_size_of (w.m)) os << w.m; istream is (d.begin(), os.pos()); vector<string> v; is >> v; w.vs[1] = move (v); if (os.pos() > mp) { is.align (8); map<string,int> mm; is >> mm; w.m.swap (mm); } break; }
	case 12: if (b.size() > 3) { istream is (b.begin(), b.size()); is.exceptions (0); uint8_t x = 0; uint16_t y = 0; is >> x; is.skip (1); see (x); if (is.remaining() > 2 && is.aligned (2)) { is >> y; see (y); } } break;
	case 13: w.os << R.range (-99999, 99999) << ' ' << t; if (w.os.pos() > 1500) w.os.str (string()); break;
	case 14: w.os.width (R.below (12)); w.os << ios::hex << R.below (5000) << ios::dec << double (R.below (1000)) / 7 << endl; break;
	case 15: s = w.os.str(); if (s.size() > 2000) s.clear(); break;
	case 16: { istringstream is (t); is.exceptions (0); int x = 0; string u; float f = 0; is >> u; see (u.c_str(), u.size()); is >> x; see (x); is >> f; getline (is, u); see (u.c_str(), u.size()); break; }
	case 17: s.format ("%d and %s with %g", int (R.below (9999)), t.c_str(), 0.5); if (s.size() > 2000) s.clear(); break;
	case 18: see (s.find (t)); see (s.rfind (t)); see (s.find_first_of (t)); see (s.find_last_not_of (t)); see (s.compare (t)); break;
	case 19: { string u; for (auto i = t.utf8_begin(); i < t.utf8_end(); ++i) see (wchar_t (*i)); u += wchar_t (R.below (70000) + 1); u.append (3, 'x'); s.assign (u); break; }
	case 20: { w.bs.set (R.below (96)); w.bs.reset (R.below (96)); bitset<96> x (w.bs); x = ~x; x ^= w.bs; see (x.to_value()); w.bs = x; w.bs.flip (R.below (96)); w.bs &= ~x; break; }
	case 21: { tuple<5,int> a (w.tp); for (size_t i = 0; i < 5; ++i) a[i] = R.below (9); w.tp += a; w.tp -= a * 2; if (w.tp[0] > 10000 || w.tp[0] < -10000) fill (w.tp, 1); break; }
	case 22: { matrix<3,3,float> m (w.mx), id; load_identity (id); m = m * id; w.mx = m; break; }
	case 23: try { istream is (b.begin(), min (b.size(), size_t (3))); uint32_t x; is >> x; } catch (stream_bounds_exception& e) { s.clear(); e.info (s); exception c2 (e); see (s.c_str(), s.size()); } break;
	case 24: try { throw error_message (t.c_str()); } catch (exception& e) { s = e.what(); string u; e.info (u); see (u.c_str(), u.size()); } break;
	case 25: try { throw file_exception ("open", "/nonexistent/of/this/world"); } catch (libc_exception& e) { libc_exception f (e); string u; f.info (u); see (u.size() > 0); } break;
	case 26: { CBacktrace bt; CBacktrace b2 (bt); ostringstream o; o << b2; see (o.pos() > 0); break; }
	case 27: { foreach (vector<int>::iterator, i, vi) *i %= 100; partial_sum (vi.begin(), vi.end(), vi.begin()); stable_sort (vi.begin(), vi.end()); foreach (vector<int>::iterator, i, vi) *i %= 1000; break; }
	case 28: { w.mi.insert (vi.begin(), vi.end()); vector<int> o; set_union (w.mi.begin(), w.mi.end(), vi.begin(), vi.end(), back_inserter (o)); vi.swap (o); if (vi.size() > 150) vi.resize (9); if (w.mi.size() > 100) w.mi.clear(); break; }
	case 29: { make_heap (vi.begin(), vi.end()); if (vi.size()) { pop_heap (vi.begin(), vi.end()); vi.pop_back(); } break; }
	case 30: { string u (t); s.deallocate(); s.link (u); s.unlink(); s = u; s.deallocate(); s.link (t.begin(), t.end()); s.push_back ('!'); break; }
	case 31: { char* p = (char*) malloc (40); memset (p, 7, 40); b.deallocate(); b.manage (p, 40); b.resize (30); break; }
	case 32: { const size_t n = vi.size(); vector<int> l; l.link (vi); see (l.begin(), l.size() * 4); l.push_back (3); see (l.begin(), l.size() * 4); VC (vi.size() == n, "size", "linked vector"); break; }
    }
}
} // namespace
VF_CASE (c03_world, 1500, 20000)
{
    World* w = new World; s_h = 0;
    const unsigned n = 10 + R.below (60);
    for (unsigned i = 0; i < n; ++i) {
	const unsigned g = R.below (3), op = R.below (36); trace ("%u.%u ", g, op);
	if (g == 0) step1 (*w, op); else if (g == 1) step2 (*w, op); else step3 (*w, op);
	ops(); sig (hmix (g * 100 + op, w->s[0].size() % 4));
	if (R.chance (1, 4)) w->look();
    }
    w->look(); 
    delete w;
}
