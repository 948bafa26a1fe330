// C21: bitset behaves as an array of independent bits.
#include "vf.h"
using namespace vf;
namespace {
struct Bits { size_t n; uint8_t b [1600]; };

template <size_t N> struct Box { uint32_t pre [4]; ustl::bitset<N> s; uint32_t post [4];
    Box (void) : s (uint32_t (0)) { mark(); }
    void mark (void) { for (int i = 0; i < 4; ++i) pre[i] = post[i] = 0x5AA5C33C; }
    void check (const char* op) { for (int i = 0; i < 4; ++i) VC (pre[i] == 0x5AA5C33C && post[i] == 0x5AA5C33C, "neighbour", "%s changed memory beside bitset<%zu>", op, N); }
};

template <size_t N> void check (const ustl::bitset<N>& s, const Bits& m, const char* op)
{
    for (size_t i = 0; i < N; ++i) {
	bool w = m.b[i];
	VC (s.test (i) == w, "bit", "bitset<%zu> after %s: bit %zu is %d, expected %d", N, op, i, s.test (i), w);
    }
    size_t i = R.below (N);
    VC (s[i] == bool (m.b[i]) && s.at (i) == m.b[i], "access", "bitset<%zu>: [] or at of bit %zu", N, i);
    VC (s.size() == N && s.capacity() >= N && s.capacity() % 32 == 0 && s.capacity() < N + 32, "size", "size of bitset<%zu>", N);
    // words
    size_t nw = 0; uint32_t first = 0;
    for (const uint32_t* p = s.begin(); p != s.end(); ++p, ++nw)
	for (size_t k = 0; k < 32 && nw * 32 + k < N; ++k) VC (((*p >> k) & 1) == m.b[nw * 32 + k], "words", "bitset<%zu> word %zu bit %zu", N, nw, k);
    VC (nw == (N + 31) / 32, "words", "bitset<%zu> has %zu words", N, nw);
    for (size_t k = 0; k < 32 && k < N; ++k) first |= uint32_t (m.b[k]) << k;
    uint32_t msk = N >= 32 ? ~0u : (1u << N % 32) - 1;
    VC ((s.to_value() & msk) == first, "to_value", "bitset<%zu> to_value", N);
    // string
    ustl::string t (s.to_string());
    VC (t.size() == N, "to_string", "bitset<%zu> to_string has %zu characters", N, size_t (t.size()));
    for (size_t k = 0; k < N; ++k) VC (t[N - 1 - k] == (m.b[k] ? '1' : '0'), "to_string", "bitset<%zu> to_string, bit %zu", N, k);
    // range
    size_t a = R.below (N), l = a | 31; if (l > N - 1) l = N - 1;
    if (a < l) { size_t z = a + 1 + R.below (l - a); uint32_t w = 0; for (size_t k = a; k < z; ++k) w |= uint32_t (m.b[k]) << (k - a); VC (s.at (a, z) == w, "at-range", "bitset<%zu> at(%zu,%zu) is %x, expected %x", N, a, z, s.at (a, z), w); }
    if (N % 32 == 0) {
	size_t c = 0; for (size_t k = 0; k < N; ++k) c += m.b[k];
	VC (s.any() == (c != 0) && s.none() == (c == 0), "any", "bitset<%zu> any or none with %zu bits set", N, c);
	VC (s.count() == c, "count", "bitset<%zu> count is %zu, expected %zu", N, size_t (s.count()), c);
    }
}

template <size_t N> void run (void)
{
    typedef ustl::bitset<N> B;
    static Bits m [3];
    Box<N>* bx [3];
    for (int i = 0; i < 3; ++i) { bx[i] = new Box<N>; memset (m[i].b, 0, sizeof(m[i].b)); m[i].n = N; }
    unsigned steps = 6 + R.below (30);
    for (unsigned st = 0; st < steps; ++st) {
	unsigned x = R.below (3), y = R.below (3), z = R.below (3), op = R.below (25);
	B &s (bx[x]->s); const B &t (bx[y]->s), &u (bx[z]->s); Bits& b (m[x]);
	size_t i = R.chance (1,4) ? N - 1 : R.chance (1,4) ? R.below ((N + 31) / 32) * 32 : R.below (N); bool v = R.next() & 1;
	char op_s [40]; snprintf (op_s, sizeof(op_s), "operation %u at %zu", op, i);
	trace ("%u(%u,%u,%u)@%zu ", op, x, y, z, i);
	Bits r = b;
	switch (op) {
	    case 0: s.set (i); r.b[i] = 1; break;
	    case 1: s.set (i, v); r.b[i] = v; break;
	    case 2: s.reset (i); r.b[i] = 0; break;
	    case 3: s.flip (i); r.b[i] ^= 1; break;
	    case 4: s.set(); memset (r.b, 1, N); break;
	    case 5: if (v) s.reset(); else s.clear(); memset (r.b, 0, N); break;
	    case 6: s.flip(); for (size_t k = 0; k < N; ++k) r.b[k] ^= 1; break;
	    case 7: { B c (~t); s = c; for (size_t k = 0; k < N; ++k) r.b[k] = !m[y].b[k]; } break;
	    case 8: s = t & u; for (size_t k = 0; k < N; ++k) r.b[k] = m[y].b[k] & m[z].b[k]; break;
	    case 9: s = t | u; for (size_t k = 0; k < N; ++k) r.b[k] = m[y].b[k] | m[z].b[k]; break;
	    case 10: s = t ^ u; for (size_t k = 0; k < N; ++k) r.b[k] = m[y].b[k] ^ m[z].b[k]; break;
	    case 11: { const B& q (s &= t); VC (&q == &s, "return", "&= returns another object"); for (size_t k = 0; k < N; ++k) r.b[k] &= m[y].b[k]; } break;
	    case 12: { const B& q (s |= t); VC (&q == &s, "return", "|= returns another object"); for (size_t k = 0; k < N; ++k) r.b[k] |= m[y].b[k]; } break;
	    case 13: { const B& q (s ^= t); VC (&q == &s, "return", "^= returns another object"); for (size_t k = 0; k < N; ++k) r.b[k] ^= m[y].b[k]; } break;
	    case 24: { B c; for (size_t k = 0; k < N; ++k) VC (!c.test (k), "bit", "bit %zu of a default bitset<%zu>", k, N); s = c; memset (r.b, 0, N); } break;
	    case 14: { uint32_t w = uint32_t (R.bits()); if (v) s = w; else { B c (w); s = c; } for (size_t k = 0; k < N; ++k) r.b[k] = k < 32 ? (w >> k) & 1 : 0; } break;
	    case 15: case 16: {	// from a string of another length
		size_t n = R.chance (1,3) ? N : R.below (2 * N + 3); char* c = (char*) arena (n + 1); for (size_t k = 0; k < n; ++k) c[k] = R.chance (1,2) ? '1' : '0';
		ustl::string str (c, n); B q (str); if (v) s = q; else { s.~B(); new (&s) B (str); }
		for (size_t k = 0; k < N; ++k) r.b[k] = k < n ? c[n - 1 - k] == '1' : 0; } break;
	    case 17: case 18: {	// a range within one word
		size_t l = i | 31; if (l > N - 1) l = N - 1;
		if (i < l) { size_t e = i + 1 + R.below (l - i); uint32_t w = uint32_t (R.next()) & (~0u >> (32 - (e - i))); s.set (i, e, w); for (size_t k = i; k < e; ++k) r.b[k] = (w >> (k - i)) & 1; } } break;
	    case 19: s = t; r = m[y]; break;
	    case 20: { bx[x]->s.~B(); new (&bx[x]->s) B (B (t)); if (x != y) r = m[y]; } break;
	    case 21: {	// binary round trip
		VC (s.stream_size() == (N + 31) / 32 * 4, "stream", "stream_size");
		ustl::memblock mb (ustl::stream_size_of (t)); ustl::ostream os (mb); os << t; VC (os.pos() == mb.size(), "stream", "wrote %zu bytes of %zu", size_t (os.pos()), size_t (mb.size()));
		for (size_t k = 0; k < N; ++k) VC (((((const uint8_t*) mb.cdata())[k / 8] >> k % 8) & 1) == m[y].b[k], "stream", "bit %zu in the stream", k);
		ustl::istream is (mb); is >> s; VC (is.remaining() == 0, "stream", "%zu bytes left", size_t (is.remaining())); r = m[y]; } break;
	    case 22: { // text round trip
		ustl::string str; { ustl::ostringstream os; os << t; str = os.str(); }
		VC (str == t.to_string(), "text", "text output differs from to_string");
		str += " # end"; ustl::istringstream is (str); is >> s; r = m[y]; char c = 0; is >> c; VC (c == '#', "text", "reading a bitset<%zu> left the stream elsewhere", N); } break;
	    case 23: { bool e = true; for (size_t k = 0; k < N; ++k) e &= m[x].b[k] == m[y].b[k];
		if (N % 32 == 0) VC ((s == t) == e, "equal", "bitset<%zu> == gives %d", N, s == t);
		B c (s); VC (c == s, "equal", "a copy is not equal"); } break;
	}
	m[x] = r;
	ops();
	for (int k = 0; k < 3; ++k) { bx[k]->check (op_s); if (k == int (x) || st % 4 == 0) check (bx[k]->s, m[k], op_s); }
	sig (hmix (N * 100 + op, (i % 32 == 0) + 2 * (i % 32 == 31) + 4 * (i / 32 < 3 ? i / 32 : 3) + 16 * v + 32 * (x == y)));
    }
    if (want_sample()) sample ("bitset<%zu>, %u operations over 3 sets", N, steps);
    for (int i = 0; i < 3; ++i) delete bx[i];
}
} // namespace
#define C(N,q,t) VF_CASE (c21_bitset_##N, q, t) { run<N>(); }
C(1,240,3600) C(2,160,2400) C(7,240,3600) C(8,160,2400) C(16,160,2400) C(31,320,4800) C(32,320,4800) C(33,320,4800) C(40,160,2400) C(63,320,4800) C(64,320,4800) C(65,320,4800)
C(96,240,3600) C(100,240,3600) C(127,240,3600) C(128,240,3600) C(129,240,3600) C(256,160,2400) C(257,160,2400) C(500,120,1800) C(512,120,1800) C(1000,80,1200) C(1024,80,1200) C(1537,40,600)
