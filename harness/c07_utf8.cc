// C07: UTF-8 against an independent codec.
#include "vf.h"
using namespace vf;
using ustl::string;
namespace {
typedef Arr<unsigned> CP; typedef Arr<char> MS;
size_t ref_len (unsigned v) { return v < 0x80 ? 1 : v < 0x800 ? 2 : v < 0x10000 ? 3 : v < 0x200000 ? 4 : v < 0x4000000 ? 5 : 6; }
size_t ref_enc (unsigned v, unsigned char* b)
{
    size_t n = ref_len (v);
    if (n == 1) { b[0] = v; return 1; }
    static const unsigned char lead [7] = { 0, 0, 0xC0, 0xE0, 0xF0, 0xF8, 0xFC };
    for (size_t i = n - 1; i > 0; --i) { b[i] = 0x80 + v % 64; v /= 64; }
    b[0] = lead[n] + v;
    return n;
}
unsigned gen (bool nul)
{
    static const unsigned edge [] = { 0, 1, 0x7E, 0x7F, 0x80, 0x81, 0xFF, 0x7FE, 0x7FF, 0x800, 0x801, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x10001, 0x10FFFF, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFE, 0x7FFFFFFF };
    unsigned v;
    switch (R.below (6)) { case 0: v = edge[R.below (sizeof(edge)/sizeof(edge[0]))]; break; case 1: v = R.below (0x80); break; case 2: v = R.below (0x3000); break; default: v = unsigned (R.next() & 0x7FFFFFFF) >> R.below (31); }
    return !v && !nul ? 1 : v;
}
void enc (MS& m, unsigned v) { unsigned char b [8]; size_t n = ref_enc (v, b); m.insert (m.n, (char*) b, n); }
MS encode (const CP& c) { MS m; for (size_t i = 0; i < c.n; ++i) enc (m, c[i]); return m; }
CP chars (size_t mx, bool nul) { CP c; size_t n = R.size (mx); for (size_t i = 0; i < n; ++i) c.push (gen (nul)); return c; }

void one (unsigned v)
{
    unsigned char rb [8]; const size_t n = ref_enc (v, rb); ops();
    VC (ustl::Utf8Bytes (wchar_t(v)) == n, "size", "Utf8Bytes(0x%x) is %zu, canonical is %zu", v, ustl::Utf8Bytes (wchar_t(v)), n);
    VC (ustl::Utf8SequenceBytes (rb[0]) == n && ustl::Utf8SequenceBytes (char(rb[0])) == n, "sequence-size", "Utf8SequenceBytes(0x%02x) is %zu, expected %zu", rb[0], ustl::Utf8SequenceBytes (rb[0]), n);
    char b [16]; memset (b, 0x5A, sizeof(b));
    ustl::utf8out_iterator<char*> o = ustl::utf8out (b + 2); *o = v; ++o;
    VC (o.base() == b + 2 + n && !memcmp (b + 2, rb, n) && b[1] == 0x5A && b[2+n] == 0x5A, "encode", "0x%x is encoded as %s, expected %s", v, show (b + 2, o.base() - (b + 2)), show (rb, n));
    b[2+n] = 0;
    ustl::utf8in_iterator<const char*> i = ustl::utf8in ((const char*) b + 2);
    VC (unsigned(*i) == v, "decode", "0x%x is decoded as 0x%x", v, unsigned(*i));
    VC (i.base() == b + 2, "base", "base() of 0x%x is at offset %td", v, i.base() - (b + 2));
    ++i; VC (i == ustl::utf8in ((const char*) b + 2 + n), "advance", "after 0x%x the iterator is not after its %zu bytes", v, n);
    const unsigned char* ub = (const unsigned char*) b + 2; ustl::utf8in_iterator<const unsigned char*> j = ustl::utf8in (ub);
    VC (unsigned(*j) == v, "decode", "0x%x is decoded as 0x%x from unsigned bytes", v, unsigned(*j));
    ustl::utf8in_iterator<const char*,uint32_t> w ((const char*) b + 2);
    VC (*w == v, "decode", "0x%x is decoded as 0x%x into 32 bits", v, *w);
    sig (hmix (n, v < 0x900 ? v : v >> 8));
}
void content (const string& s, const CP& c, const char* op)
{
    MS m = encode (c); ops();
    VC (s.size() == m.n && (!m.n || !memcmp (s.begin(), m.p, m.n)), "content", "after %s: %s, expected %s", op, show (s.begin(), s.size()), show (m.p, m.n));
    VC (s.is_linked() || !s.c_str()[m.n], "terminator", "after %s", op);
    VC (s.length() == c.n, "length", "after %s length() is %zu of %zu characters in %s", op, size_t(s.length()), c.n, show (m.p, m.n));
    size_t off = 0, k = 0;
    for (string::utf8_iterator i = s.utf8_begin(); i < s.utf8_end(); ++i, ++k) {
	VC (k < c.n && unsigned(*i) == c[k], "iteration", "after %s character %zu is 0x%x, expected 0x%x", op, k, unsigned(*i), k < c.n ? c[k] : 0);
	VC (i.base() == s.begin() + off, "base", "character %zu starts at %td, expected %zu", k, i.base() - s.begin(), off);
	VC (s.wiat (k) == s.begin() + off, "wiat", "wiat(%zu) is at %td, expected %zu", k, s.wiat (k) - s.begin(), off);
	VC (i - s.utf8_begin() == ptrdiff_t(k), "distance", "character %zu is at distance %td", k, i - s.utf8_begin());
	off += ref_len (c[k]);
    }
    VC (k == c.n && off == m.n, "iteration", "after %s iteration covers %zu of %zu characters", op, k, c.n);
    VC (s.wiat (c.n) == s.end(), "wiat", "wiat(%zu) is at %td, expected the end %zu", c.n, s.wiat (c.n) - s.begin(), m.n);
    VC (s.utf8_end() - s.utf8_begin() == ptrdiff_t(c.n) && s.utf8_end() == s.utf8_end(), "distance", "distance of the ends is %td of %zu", s.utf8_end() - s.utf8_begin(), c.n);
}
}
VF_CASE (c07_values, 64, 1024)
{
    if (g_case_idx < 32) for (unsigned v = g_case_idx; v < 0x10000; v += 32) one (v);
    for (unsigned k = 7; k < 31; ++k) for (int d = -3; d <= 3; ++d) one ((1u << k) + d);
    for (int i = 0; i < 4000; ++i) one (gen (true));
    one (0x7FFFFFFF); one (0x7FFFFFFE);
    if (want_sample()) sample ("0x7FFFFFFF and every 32nd value below 0x10000");
}
VF_CASE (c07_strings, 400, 4000)
{
    string s; CP m; const char* op = "construction";
    for (int it = 0; it < 25; ++it) {
	unsigned k = R.below (15); size_t ci = R.pos (m.n), cnt = R.below (4); CP c = chars (8, false); wchar_t w [16]; for (size_t i = 0; i < c.n; ++i) w[i] = c[i]; w[c.n] = 0;
	CP pre; for (size_t i = 0; i < ci; ++i) pre.push (m[i]); size_t bi = encode (pre).n; wchar_t x = gen (k < 6);
	switch (k) {
	    case 0: op = "append(n,wchar)"; s.append (cnt, x); m.resize (m.n + cnt, x); break;
	    case 1: op = "push_back(wchar)"; s.push_back (x); m.push (x); break;
	    case 2: op = "+= wchar"; s += x; m.push (x); break;
	    case 3: case 4: op = "insert(pos,n,wchar)"; s.insert (bi, cnt, x); m.insert (ci, cnt, x); break;
	    case 5: op = "assign(n,wchar)"; if (R.chance (2, 3)) continue; s.assign (cnt, x); m.clear(); m.resize (cnt, x); break;
	    case 6: op = "append(wide range)"; s.append (w, w + c.n); m.insert (m.n, c.p, c.n); break;
	    case 7: op = "append(wide)"; s.append ((const wchar_t*) w); m.insert (m.n, c.p, c.n); break;
	    case 8: op = "+= wide"; s += (const wchar_t*) w; m.insert (m.n, c.p, c.n); break;
	    case 9: op = "assign(wide range)"; if (R.chance (1, 2)) continue; s.assign (w, w + c.n); m = c; break;
	    case 10: op = "assign(wide)"; if (R.chance (1, 2)) continue; s.assign ((const wchar_t*) w); m = c; break;
	    case 11: op = "= wide"; if (R.chance (1, 2)) continue; s = (const wchar_t*) w; m = c; break;
	    case 12: case 13: op = "insert(pos,wide range)"; s.insert (bi, w, w + c.n); m.insert (ci, c.p, c.n); break;
	    default: op = "insert(pos,wide range,n)"; s.insert (bi, w, w + c.n, cnt); for (size_t i = 0; i < cnt; ++i) m.insert (ci, c.p, c.n); break;
	}
	VC (ustl::Utf8Bytes (w, w + c.n) == encode (c).n, "size", "Utf8Bytes of %zu characters is %zu", c.n, ustl::Utf8Bytes (w, w + c.n));
	trace ("%s@%zu", op, ci); sig (hmix (k, hmix (ci == 0 ? 0 : ci == m.n ? 1 : 2, c.n)));
	content (s, m, op);
	if (m.n > 60) { size_t d = m.n - 20; s.erase (s.begin(), s.wiat (d)); m.erase (0, d); content (s, m, "erasing characters"); }
    }
}
// Concatenations of arbitrary characters through every kind of iterator
VF_CASE (c07_sequences, 300, 3000)
{
    CP c = chars (60, true); MS m = encode (c); ops (8);
    // decode from the string
    string s (m.p, m.n); content (s, c, "assignment of encoded bytes");
    ustl::vector<wchar_t> v; ustl::copy (s.utf8_begin(), s.utf8_end(), ustl::back_inserter (v));
    VC (v.size() == c.n, "count", "%zu characters decoded of %zu", size_t(v.size()), c.n);
    for (size_t i = 0; i < c.n; ++i) VC (unsigned(v[i]) == c[i], "decode", "character %zu is 0x%x, expected 0x%x", i, unsigned(v[i]), c[i]);
    // through pointers
    { char* o = (char*) arena (m.n + 1); memset (o, 0x5A, m.n + 1); ustl::utf8out_iterator<char*> oi (o), was (oi); size_t at = 0;
      for (size_t i = 0; i < c.n; ++i) { const bool pf = R.chance (1, 2); if (pf) *oi++ = v[i]; else { *oi = v[i]; ++oi; } at += ustl::Utf8Bytes (wchar_t (c[i])); VC (oi.base() == o + at && was < oi && !(oi < was) && !(oi == was), "base", "writing 0x%x left the output at %td of %zu", c[i], oi.base() - o, at); was = oi; VC (was == oi, "base", "assigned output iterator"); }
      VC (at == m.n && !memcmp (o, m.p, m.n) && (unsigned char) o[m.n] == 0x5A, "encode", "written through a pointer: %s, expected %s", show (o, m.n), show (m.p, m.n)); }
    if (c.n) { string::utf8_iterator f = s.utf8_begin(), l = s.utf8_begin(); l += R.below (c.n); f = l; VC (f == l && unsigned(*f) == unsigned(*l) && f.base() == l.base(), "decode", "assigned iterator"); }
    // encode into a string
    string t; ustl::copy (v, ustl::utf8out (ustl::back_inserter (t))); content (t, c, "writing through an inserter");
    // through binary streams
    ustl::memblock b (m.n + 1); ustl::ostream os (b); ustl::copy (v, ustl::utf8out (os));
    VC (os.pos() == m.n && (!m.n || !memcmp (b.begin(), m.p, m.n)), "stream", "written to a stream: %s, expected %s", show (b.begin(), os.pos()), show (m.p, m.n));
    b.begin()[m.n] = 0;
    if (c.n) {
	ustl::istream is (b); ustl::utf8istream_iterator ui = ustl::utf8in (is);
	for (size_t i = 0; i < c.n; ++i, ++ui) VC (unsigned(*ui) == c[i], "stream", "character %zu read from a stream is 0x%x, expected 0x%x", i, unsigned(*ui), c[i]);
    }
    // text streams
    { ustl::ostringstream ts; for (size_t i = 0; i < c.n; ++i) ts << wchar_t (c[i]); content (ts.str(), c, "writing wide characters to a text stream"); }
    // iterator arithmetic
    if (c.n) {
	size_t a = R.below (c.n); string::utf8_iterator i = s.utf8_begin(); i += a; VC (unsigned(*i) == c[a], "advance", "+= %zu", a);
	string::utf8_iterator j = s.utf8_begin() + a; VC (j == i && !(j < i) && unsigned(*j) == c[a], "advance", "+ %zu", a);
	string::utf8_iterator o = j++; VC (o == i && unsigned(*o) == c[a] && i < j, "advance", "postfix");
	ustl::vector<char> vb; for (size_t k = 0; k < m.n; ++k) vb.push_back (m[k]); vb.push_back (0);
	ustl::utf8in_iterator<ustl::vector<char>::const_iterator> vi (vb.begin()); for (size_t k = 0; k < c.n; ++k, ++vi) VC (unsigned(*vi) == c[k], "decode", "from a vector at %zu", k);
    }
    sig (hmix (c.n, m.n));
}
// Thousands of characters
VF_CASE (c07_big, 40, 400)
{
    static const size_t sz [] = { 500, 2000, 5000, 20000, 70000, 140000 };
    const size_t mx = sz [R.below (R.chance (1, 3) ? 6 : 4)];
    string s; CP m; const char* op = "construction";
    for (int it = 0, N = 4 + R.below (8); it < N; ++it) {
	const unsigned k = R.below (10); const size_t n = R.chance (1, 3) ? R.below (6) : R.chance (1, 3) ? mx / 2 + R.below (mx) : R.below (mx), ci = R.pos (m.n), cnt = n < 40 ? R.below (900) : R.below (3);
	CP c; c.grow (n + 1); const bool wide = R.chance (1, 2); for (size_t i = 0; i < n; ++i) c.push (wide ? gen (false) : 1 + R.below (0x7F)); wchar_t* w = (wchar_t*) arena ((n + 1) * sizeof(wchar_t)); for (size_t i = 0; i < n; ++i) w[i] = c[i]; w[n] = 0;
	CP pre; for (size_t i = 0; i < ci; ++i) pre.push (m[i]); const size_t bi = encode (pre).n; const wchar_t x = gen (k < 4);
	switch (k) {
	    case 0: op = "append(n,wchar)"; s.append (n, x); m.resize (m.n + n, x); break;
	    case 1: op = "insert(pos,n,wchar)"; s.insert (bi, n, x); m.insert (ci, n, x); break;
	    case 2: op = "assign(n,wchar)"; s.assign (n, x); m.clear(); m.resize (n, x); break;
	    case 3: op = "push_back(wchar)"; for (size_t i = 0; i < (n < 200 ? n : 200); ++i) { s.push_back (x); m.push (x); } break;
	    case 4: op = "append(wide range)"; s.append (w, w + n); m.insert (m.n, c.p, n); break;
	    case 5: op = "+= wide"; s += (const wchar_t*) w; m.insert (m.n, c.p, n); break;
	    case 6: op = "= wide"; s = (const wchar_t*) w; m = c; break;
	    case 7: case 8: op = "insert(pos,wide range)"; s.insert (bi, w, w + n); m.insert (ci, c.p, n); break;
	    default: { op = "insert(pos,wide range,n)"; s.insert (bi, w, w + n, cnt); CP r; r.grow (n * cnt + 1); for (size_t i = 0; i < cnt; ++i) for (size_t j = 0; j < n; ++j) r.push (c[j]); m.insert (ci, r.p, r.n); break; }
	}
	trace ("%s@%zu/%zu (%zu x %zu); ", op, ci, m.n, n, cnt); ops();
	VC (ustl::Utf8Bytes (w, w + n) == encode (c).n, "size", "Utf8Bytes of %zu characters is %zu", n, ustl::Utf8Bytes (w, w + n));
	MS b = encode (m);
	VC (s.size() == b.n && (!b.n || !memcmp (s.begin(), b.p, b.n)), "content", "after %s: %zu bytes, expected %zu, or different ones", op, size_t(s.size()), b.n);
	VC (!s.c_str()[b.n], "terminator", "after %s", op);
	VC (s.length() == m.n, "length", "after %s length() is %zu of %zu characters", op, size_t(s.length()), m.n);
	size_t off = 0, j = 0; const size_t q1 = R.pos (m.n), q2 = R.pos (m.n);
	for (string::utf8_iterator i = s.utf8_begin(); i < s.utf8_end(); ++i, ++j) {
	    VC (j < m.n && unsigned(*i) == m[j] && i.base() == s.begin() + off, "iteration", "after %s character %zu is 0x%x at %td, expected 0x%x at %zu", op, j, unsigned(*i), i.base() - s.begin(), j < m.n ? m[j] : 0, off);
	    if (j == q1 || j == q2) { VC (s.wiat (j) == s.begin() + off, "wiat", "wiat(%zu) is at %td, expected %zu", j, s.wiat (j) - s.begin(), off); VC (i - s.utf8_begin() == ptrdiff_t(j), "distance", "character %zu is at distance %td", j, i - s.utf8_begin()); string::utf8_iterator z = s.utf8_begin(); z += j; VC (z == i, "advance", "+= %zu", j); }
	    off += ref_len (m[j]);
	}
	VC (j == m.n && off == b.n && s.wiat (m.n) == s.end() && s.utf8_end() - s.utf8_begin() == ptrdiff_t(m.n), "iteration", "after %s iteration covers %zu of %zu characters", op, j, m.n);
	sig (hmix (k, hmix (ci == 0 ? 0 : ci == m.n ? 1 : 2, hmix (n > 255 ? n > 65535 ? 3 : 2 : n > 5, wide))));
	if (m.n > 2 * mx) { const size_t d = m.n - mx / 4; s.erase (s.begin(), s.wiat (d)); m.erase (0, d); }
    }
    ustl::vector<wchar_t> v; ustl::copy (s.utf8_begin(), s.utf8_end(), ustl::back_inserter (v)); VC (v.size() == m.n, "count", "%zu characters decoded of %zu", size_t(v.size()), m.n); for (size_t i = 0; i < m.n; ++i) VC (unsigned(v[i]) == m[i], "decode", "character %zu is 0x%x, expected 0x%x", i, unsigned(v[i]), m[i]);
    if (m.n > 4000) { m.n = 4000; v.resize (4000); }	// appending one at a time copies the whole every time
    string t; ustl::copy (v, ustl::utf8out (ustl::back_inserter (t))); MS b = encode (m); VC (t.size() == b.n && (!b.n || !memcmp (t.begin(), b.p, b.n)), "encode", "written through an inserter: %zu bytes of %zu or others", size_t(t.size()), b.n);
    { ustl::ostringstream ts; for (size_t i = 0; i < m.n; ++i) ts << wchar_t (m[i]); ts.flush(); VC (ts.str().size() == b.n && (!b.n || !memcmp (ts.str().begin(), b.p, b.n)), "stream", "written to a text stream: %zu bytes of %zu or others", size_t(ts.str().size()), b.n); }
}
