// Binary streams: serialization round trips at the announced size, and memory
// stream positions and bytes against a byte array with a cursor.
#include "stm.h"
using namespace vf;
namespace {
//--- sequences of objects -----------------------------------------------------
struct Obj { virtual size_t al (void) = 0; virtual size_t size (void) = 0; virtual void write (ustl::ostream& os) = 0; virtual void read (ustl::istream& is) = 0; virtual const char* name (void) = 0; virtual ~Obj (void) {} };
template <typename T> struct ObjT : Obj {
    T v, r; bool dirty;
    ObjT (void) : v(), r() { Gen<T>::mk (v); dirty = R.chance (1, 2); if (dirty) Gen<T>::mk (r); }
    size_t al (void) override { return Gen<T>::al; }
    size_t size (void) override { const T& cv = v; return ustl::stream_size_of (cv); }
    void write (ustl::ostream& os) override { const T& cv = v; os << cv; }
    void read (ustl::istream& is) override {
	is >> r;
	VC (Gen<T>::eq (v, r), "roundtrip", "%s read back differs from what was written%s", name(), dirty ? " (read over a previous value)" : "");
	const T& cr = r;
	VC (ustl::stream_size_of (cr) == size(), "size", "%s read back announces %zu bytes, the original %zu", name(), size_t(ustl::stream_size_of (cr)), size());
    }
    const char* name (void) override { return Gen<T>::name(); }
};
Obj* mkobj (unsigned k) {
    unsigned i = 0;
    #define X(...)	if (i++ == k) return new ObjT<__VA_ARGS__>;
    VF_STM_TYPES(X)
    #undef X
    return nullptr;
}
enum { NTYPES = 0
    #define X(...)	+ 1
    VF_STM_TYPES(X)
    #undef X
};
size_t al_up (size_t v, size_t g) { return (v + g - 1) / g * g; }
}

static void objects (void)
{
    size_t big = g_big; g_big = 0;
    const unsigned n = 1 + R.below (R.chance (1, 10) ? 20 : 5);
    Obj* o [20]; size_t at [20], sz [20]; unsigned kind [20]; size_t pos = R.chance (1, 4) ? R.below (9) : 0;
    const size_t start = pos;
    for (unsigned i = 0; i < n; ++i) {
	kind[i] = R.below (NTYPES);
	if (big) { g_big = big; big = 0; }	// one object of very many elements
	o[i] = mkobj (kind[i]); g_big = 0;
	pos = al_up (pos, o[i]->al());
	at[i] = pos; sz[i] = o[i]->size();
	pos += sz[i];
	trace ("%s at %zu size %zu", o[i]->name(), at[i], sz[i]);
	sig (hmix (kind[i], hmix (at[i] % 8, hmix (sz[i] > 4 ? 2 + (sz[i] > 300) : sz[i] > 0, i == 0))));
    }
    const size_t total = pos, cap = al_up (total, 16) + 16;
    char* b = (char*) guard_alloc (cap);
    memset (b, 0xA5, cap);
    {
	ustl::ostream os (b, total);
	if (start) os << ustl::ios::skip (start);
	for (unsigned i = 0; i < n; ++i) {
	    const bool dfl = o[i]->al() == alignof(void*) && R.chance (1, 2); if (R.chance (1, 2)) { if (dfl) os.align(); else os.align (o[i]->al()); } else if (dfl) os << ustl::ios::align(); else os << ustl::ios::align (o[i]->al());
	    VC (os.pos() == at[i], "align", "position %zu after aligning for %s to %zu, expected %zu", size_t(os.pos()), o[i]->name(), o[i]->al(), at[i]);
	    o[i]->write (os);
	    VC (os.pos() == at[i] + sz[i], "size", "writing %s at %zu advanced the position to %zu, its stream_size is %zu", o[i]->name(), at[i], size_t(os.pos()), sz[i]);
	    VC (os.remaining() == total - os.pos() && os.good(), "state", "remaining %zu of %zu after writing %s, state %x", size_t(os.remaining()), total - size_t(os.pos()), o[i]->name(), os.rdstate());
	    ops (2);
	}
	for (size_t i = 0; i < start; ++i) VC ((unsigned char) b[i] == 0xA5, "outside", "skipped byte %zu was written", i);
    }
    for (size_t i = total; i < cap; ++i) VC ((unsigned char) b[i] == 0xA5, "outside", "byte %zu past the end of the %zu byte stream was written", i - total, total);
    for (int pass = 0; pass < 1; ++pass) {
	ustl::istream is (b, total);
	if (start) is >> ustl::ios::skip (start);
	for (unsigned i = 0; i < n; ++i) {
	    const bool dfl = o[i]->al() == alignof(void*) && R.chance (1, 2); if (R.chance (1, 2)) { if (dfl) is.align(); else is.align (o[i]->al()); } else if (dfl) is >> ustl::ios::align(); else is >> ustl::ios::align (o[i]->al());
	    VC (is.pos() == at[i], "align", "reading position %zu after aligning for %s to %zu, expected %zu", size_t(is.pos()), o[i]->name(), o[i]->al(), at[i]);
	    o[i]->read (is);
	    VC (is.pos() == at[i] + sz[i], "consume", "reading %s at %zu moved the position to %zu, it was written in %zu bytes", o[i]->name(), at[i], size_t(is.pos()), sz[i]);
	    VC (is.remaining() == total - is.pos() && is.good(), "state", "remaining %zu after reading %s, state %x", size_t(is.remaining()), o[i]->name(), is.rdstate());
	    ops (2);
	}
    }
    if (want_sample()) sample ("%u objects, first %s, %zu bytes from offset %zu", n, o[0]->name(), total, start);
    for (unsigned i = 0; i < n; ++i) delete o[i];
    guard_free (b, cap);
}

VF_CASE(c12_objects, 3000, 60000) { objects(); }
VF_CASE(c12_big_objects, 200, 3000) { static const size_t sz [] = { 500, 2060, 5000, 20000, 66000, 140000 }; g_big = sz [R.below (R.chance (1, 3) ? 6 : 4)] + R.below (200); objects(); }

//--- output stream operations ----------------------------------------------------
namespace {
struct OM { Arr<unsigned char> b; size_t pos; };
void ocheck (ustl::ostream& os, OM& m, const char* op) {
    ops();
    VC (os.pos() == m.pos && size_t (os.tellp()) == m.pos, "opos", "ostream: after %s position is %zu, expected %zu", op, size_t(os.pos()), m.pos);
    VC (os.size() == m.b.n && os.remaining() == m.b.n - m.pos, "orem", "ostream: after %s size %zu remaining %zu, expected %zu, %zu", op, size_t(os.size()), size_t(os.remaining()), m.b.n, m.b.n - m.pos);
    const ustl::ostream& cos = os; VC (cos.ipos() == os.begin() + m.pos && cos.end() == os.end() && cos.begin() == os.begin() && os.overflow (m.pos % 7) == m.b.n - m.pos, "oipos", "ostream: after %s the constant view or overflow differs", op);
    VC (os.ipos() == os.begin() + m.pos && os.end() == os.begin() + m.b.n && os.stream_size() == m.pos, "oipos", "ostream: after %s ipos is at %zd", op, os.ipos() - os.begin());
    for (unsigned g = 1; g <= 16; g *= 2) VC (os.aligned (g) == (m.pos % g == 0) && os.align_size (g) == al_up (m.pos, g) - m.pos, "oaligned", "ostream: aligned(%u) or align_size at %zu", g, m.pos); VC (os.aligned() == (m.pos % alignof(void*) == 0) && os.align_size() == al_up (m.pos, alignof(void*)) - m.pos, "oaligned", "ostream: aligned() or align_size() at %zu", m.pos);
    for (size_t i = 0; i < m.b.n; ++i) VC ((unsigned char) os.begin()[i] == m.b[i], "obytes", "ostream: after %s byte %zu of %zu is %02x, expected %02x", op, i, m.b.n, (unsigned char) os.begin()[i], m.b[i]);
}
}
VF_CASE(c12_ostream, 2500, 60000) {
    const size_t n = al_up (R.size (90), 8), cap = n + 16;	// length below may be unaligned
    size_t len = n; if (n && R.chance (1, 2)) len -= R.below (8);
    char* b = (char*) guard_alloc (cap); memset (b, 0xA5, cap);
    OM m; m.pos = 0; for (size_t i = 0; i < len; ++i) m.b.push (0xA5);
    ustl::ostream os; VC (!os.pos() && !os.remaining() && !os.size() && os.good(), "default", "default ostream");
    switch (R.below (5)) {
	case 0: os.link (b, len); break;
	case 1: os.link (b, b + len); break;
	case 3: { char other [16]; ustl::memlink ml (b, len); os.link (other, sizeof(other)); os.skip (5); os.relink (ml); } break;
	case 2: { ustl::memlink ml (b, len); os.link (ml); } break;
	default: os.relink (b, len);
    }
    const bool exc = R.chance (1, 2);
    if (!exc) os.exceptions (0);
    unsigned char tmp [128];
    for (unsigned step = 0, ns = 4 + R.below (30); step < ns; ++step) {
	const unsigned op = R.below (19); const size_t k = R.size (R.chance (1, 8) ? 120 : 20); bool over = false; char what [64];
	for (size_t i = 0; i < k; ++i) tmp[i] = R.next();
	const size_t rem = m.b.n - m.pos; const unsigned st0 = os.rdstate();
	snprintf (what, sizeof(what), "op %u with %zu", op, k); trace ("%s at %zu of %zu", what, m.pos, m.b.n);
	#define PUT(p,c)	do { for (size_t i_ = 0; i_ < size_t(c); ++i_) m.b[m.pos + i_] = ((const unsigned char*)(p))[i_]; m.pos += (c); } while (0)
	try { switch (op) {
	    case 0: case 1: over = k > rem; os.write (tmp, k); if (!over) PUT (tmp, k); break;
	    case 2: { over = k > rem; ustl::cmemlink l (tmp, k); os.write (l); if (!over) PUT (tmp, k); } break;
	    case 3: over = k > rem; os.skip (k); if (!over) m.pos += k; break;
	    case 4: over = k > m.b.n; os.seek (k); if (!over) m.pos = k; break;
	    case 5: over = k > m.b.n; os.seekp (k); if (!over) m.pos = k; break;
	    case 6: { i64 d = R.range (-i64 (m.pos), i64 (rem)); os.seekp (d, ustl::ios_base::cur); m.pos += d; } break;
	    case 7: os.seekp (0, ustl::ios_base::end); m.pos = m.b.n; break;
	    case 8: { size_t t = R.below (m.b.n + 1); os.iseek (os.begin() + t); m.pos = t; } break;
	    case 9: { size_t g = size_t (1) << R.below (7); const size_t at = uintptr_t (os.ipos()), pad = al_up (at, g) - at; over = pad > rem; if (g == alignof(void*)) os.align(); else os.align (g); if (!over) { memset (tmp, 0, sizeof(tmp)); PUT (tmp, pad); } } break;
	    case 10: { char s [130]; for (size_t i = 0; i < k; ++i) s[i] = 1 + R.below (255); s[k] = 0; over = k + 1 > rem; os.write_strz (s); if (!over) PUT (s, k + 1); } break;
	    case 11: { ustl::ostream o2 (tmp, k); o2.skip (k); over = k > rem; o2.write (os); if (!over) PUT (tmp, k); } break;
	    case 12: { ustl::istream i2 (tmp, k); size_t sk = R.below (k + 1); i2.skip (sk); over = k - sk > rem; os.read (i2); if (!over) { PUT (tmp + sk, k - sk); VC (i2.pos() == k, "oread", "ostream::read left the source at %zu of %zu", size_t(i2.pos()), k); } } break;
	    case 13: { ustl::istream i2 (tmp, k); size_t sk = R.below (k + 1); i2.skip (sk); over = k - sk > rem; i2.write (os); if (!over) PUT (tmp + sk, k - sk); } break;
	    case 14: if (m.pos < m.b.n) {	// open a hole before the position
		size_t w = R.below (m.pos + 1), c = R.below (rem + 1);
		os.insert (os.begin() + w, c);
		for (size_t i = m.b.n; i-- > w + c;) m.b[i] = m.b[i - c];
		m.pos += c;
		memset (os.begin() + w, 0x5A, c); for (size_t i = 0; i < c; ++i) m.b[w + i] = 0x5A;	// hole contents are not specified
	    } break;
	    case 15: if (m.pos) {
		size_t w = R.below (m.pos + 1), c = R.below (m.pos - w + 1);
		os.erase (os.begin() + w, c);
		for (size_t i = w; i + c < m.b.n; ++i) m.b[i] = m.b[i + c];
		m.pos -= c;
		memset (os.end() - c, 0x5A, c); for (size_t i = m.b.n - c; i < m.b.n; ++i) m.b[i] = 0x5A;
	    } break;
	    case 17: if (R.chance (1, 2)) { over = rem < 1; os << ustl::endl; if (!over) PUT ("\n", 1); } else if (R.chance (1, 2)) os << ustl::flush; else { over = rem < 1; os << ustl::ends; if (!over) PUT ("", 1); } break;
	    case 18: if (m.pos % 4 == 0) {	// long values on a 4-byte grain
		unsigned long v = R.bits(); const unsigned long cv = v; const char* ptr = (const char*) v; over = rem < 8;
		VC (stream_size_of (ustl::long4grain (v)) == 8 && stream_align_of (ustl::long4grain (v)) == 4, "size", "long4grain is %zu bytes aligned to %zu", size_t (stream_size_of (ustl::long4grain (v))), size_t (stream_align_of (ustl::long4grain (v))));
		switch (R.below (3)) { case 0: os << ustl::long4grain (v); break; case 1: os << ustl::long4grain (cv); break; default: os << ustl::ptr4grain (ptr); } if (!over) PUT (&cv, 8);
		VC (v == cv, "operands", "long4grain changed its value");
	    } break;
	    case 16: {	// primitives
		uint8_t c = R.next(); uint16_t h = R.next(); uint32_t w = R.next();
		if (R.chance (1, 3)) { over = rem < 1; os << c; if (!over) PUT (&c, 1); }
		else if (m.pos % 4 == 0) { over = rem < 4; os << w; if (!over) PUT (&w, 4); }
		else if (m.pos % 2 == 0) { over = rem < 2; os << h; if (!over) PUT (&h, 2); }
	    } break;
	} VC (!over || !exc, "othrow", "ostream: %s past the end (%zu remain) did not throw", what, rem);
	  } catch (ustl::stream_bounds_exception& e) { VC (over && exc, "othrow", "ostream: %s threw '%s' with %zu remaining, exceptions %s", what, e.what(), rem, exc ? "on" : "off"); }
	if (over) VC (os.fail(), "ofail", "ostream: %s past the end did not set failbit", what);
	else VC (os.rdstate() == st0, "ofail", "ostream: %s within bounds changed the state from %x to %x", what, st0, os.rdstate());
	if (R.chance (1, 2)) os.clear();
	ocheck (os, m, what);
	if (R.chance (1, 20)) { ustl::ostream o2; o2.swap (os); VC (os.pos() == 0 && os.size() == 0 && o2.pos() == m.pos, "oswap", "ostream::swap"); os.swap (o2); ocheck (os, m, "swap"); }
	sig (hmix (op, hmix (over, hmix (exc, hmix (m.pos % 8, hmix (rem == 0, k > 8 ? 2 : k))))));
    }
    os.unlink(); VC (os.pos() == 0 && os.size() == 0 && os.remaining() == 0, "ounlink", "ostream::unlink leaves position %zu", size_t(os.pos()));
    for (size_t i = len; i < cap; ++i) VC ((unsigned char) b[i] == 0xA5, "outside", "byte %zu past the end of the %zu byte stream was written", i - len, len);
    guard_free (b, cap);
}

//--- input stream operations -------------------------------------------------------
VF_CASE(c12_istream, 2500, 60000) {
    const size_t n = R.size (100);
    Arr<unsigned char> m; for (size_t i = 0; i < n; ++i) m.push (R.chance (1, 8) ? 0 : R.next());
    char* b = ro_copy (m.p, n); size_t pos = 0;
    ustl::istream is; VC (!is.pos() && !is.remaining() && !is.size() && is.good(), "default", "default istream");
    switch (R.below (6)) {
	case 0: is.link (b, n); break;
	case 1: is.link (b, b + n); break;
	case 2: { ustl::cmemlink l (b, n); is.link (l); } break;
	case 3: is.relink (b, n); break;
	case 4: { ustl::cmemlink l (b, n); is.relink (l); } break;
	default: { ustl::istream t (b, n); is.swap (t); }
    }
    const bool exc = R.chance (1, 2);
    if (!exc) is.exceptions (0);
    for (unsigned step = 0, ns = 4 + R.below (30); step < ns; ++step) {
	const unsigned op = R.below (19); const size_t k = R.size (R.chance (1, 8) ? 120 : 20), rem = n - pos; bool over = false; char what [64]; unsigned char tmp [140];
	memset (tmp, 0xC3, sizeof(tmp)); const unsigned st0 = is.rdstate(); const size_t pos0 = pos;
	snprintf (what, sizeof(what), "op %u with %zu", op, k); trace ("%s at %zu of %zu", what, pos, n);
	#define GOT(q_,c)	do { VC (!memcmp ((q_), m.p + pos0, (c)), "ibytes", "istream: %s read wrong bytes at %zu", what, pos0); VC (((const unsigned char*)(q_))[c] == 0xC3, "outside", "istream: %s wrote past the %zu bytes asked", what, size_t(c)); } while (0)
	try { switch (op) {
	    case 0: case 1: over = k > rem; is.read (tmp, k); if (!over) { pos += k; GOT (tmp, k); } break;
	    case 2: { over = k > rem; ustl::memlink l (tmp, k); ((ustl::istream&) is).read (l); if (!over) { pos += k; GOT (tmp, k); } } break;
	    case 3: over = k > rem; is.skip (k); if (!over) pos += k; break;
	    case 4: over = k > n; is.seek (k); if (!over) pos = k; break;
	    case 5: over = k > n; is.seekg (k); if (!over) pos = k; break;
	    case 6: { i64 d = R.range (-i64 (pos), i64 (rem)); is.seekg (d, ustl::ios_base::cur); pos += d; } break;
	    case 7: is.seekg (0, ustl::ios_base::end); pos = n; break;
	    case 8: { size_t t = R.below (n + 1); is.iseek (is.begin() + t); pos = t; } break;
	    case 9: { size_t g = size_t (1) << R.below (7); over = al_up (pos, g) > n; if (g == alignof(void*)) is.align(); else is.align (g); if (!over) pos = al_up (pos, g); } break;
	    case 10: if (pos) { is.ungetc(); --pos; } break;
	    case 11: case 12: {
		ustl::string s ("previous"); size_t z = pos; while (z < n && m[z]) ++z;
		over = z == n; is.read_strz (s);
		if (!over) { VC (s.size() == z - pos && !memcmp (s.data(), m.p + pos, z - pos), "strz", "read_strz gave %zu bytes, expected %zu", s.size(), z - pos); pos = z + 1; }
	    } break;
	    case 13: if (k <= rem || !exc) { size_t r = is.readsome (tmp, k), e = k < rem ? k : rem; VC (r == e, "readsome", "readsome(%zu) with %zu remaining returned %zu", k, rem, r); over = k > rem; pos += e; GOT (tmp, e); } break;
	    case 14: { uint8_t c = 0xC3; over = rem < 1; is >> c; if (!over) { pos += 1; VC (c == m[pos0], "ibytes", "u8 read %02x at %zu", c, pos0); } } break;
	    case 15: if (pos % 2 == 0) { uint16_t c = 0xC3C3; over = rem < 2; is >> c; if (!over) { pos += 2; GOT (((char*) memcpy (tmp, &c, 2)), 2); } } break;
	    case 16: if (pos % 4 == 0) { int32_t c = 0; over = rem < 4; is >> c; if (!over) { pos += 4; GOT (((char*) memcpy (tmp, &c, 4)), 4); } } break;
	    case 18: if (pos % 4 == 0) { over = rem < 8; unsigned long v = 0xC3C3; char* ptr = nullptr; const bool w = R.chance (1, 2); if (w) is >> ustl::long4grain (v); else { is >> ustl::ptr4grain (ptr); v = (unsigned long) ptr; } if (!over) { pos += 8; VC (!memcmp (&v, m.p + pos0, 8), "ibytes", "%s read %lx at %zu", w ? "long4grain" : "ptr4grain", v, pos0); } } break;
	    case 17: { char ob [160]; memset (ob, 0xA5, sizeof(ob)); ustl::ostream os (ob, 150); is.write (os); VC (os.pos() == rem && !memcmp (ob, m.p + pos, rem) && (unsigned char) ob[rem] == 0xA5, "iwrite", "istream::write sent %zu bytes of %zu", size_t(os.pos()), rem);
		ustl::istream is2 (os); VC (is2.size() == rem && is2.pos() == 0 && is2.begin() == ob, "fromos", "istream of an ostream has %zu bytes of %zu", size_t(is2.size()), rem); } break;
	} VC (!over || !exc, "ithrow", "istream: %s past the end (%zu remain) did not throw", what, rem);
	  } catch (ustl::stream_bounds_exception& e) { VC (over && exc, "ithrow", "istream: %s threw '%s' with %zu remaining", what, e.what(), rem); }
	if (over) VC (is.fail(), "ifail", "istream: %s past the end did not set failbit", what);
	else VC (is.rdstate() == st0, "ifail", "istream: %s within bounds changed the state from %x to %x", what, st0, is.rdstate());
	if (R.chance (1, 2)) is.clear();
	ops();
	VC (is.pos() == pos && size_t (is.tellg()) == pos, "ipos", "istream: after %s position is %zu, expected %zu", what, size_t(is.pos()), pos);
	VC (is.size() == n && is.remaining() == n - pos && is.stream_size() == n - pos && is.ipos() == is.begin() + pos, "irem", "istream: after %s remaining %zu, expected %zu", what, size_t(is.remaining()), n - pos);
	for (unsigned g = 1; g <= 16; g *= 2) VC (is.aligned (g) == (pos % g == 0) && is.align_size (g) == al_up (pos, g) - pos, "ialigned", "istream: aligned(%u) or align_size at %zu", g, pos); VC (is.aligned() == (pos % alignof(void*) == 0) && is.align_size() == al_up (pos, alignof(void*)) - pos, "ialigned", "istream: aligned() or align_size() at %zu", pos);
	sig (hmix (op + 100, hmix (over, hmix (exc, hmix (pos % 8, hmix (rem == 0, k > 8 ? 2 : k))))));
    }
    is.unlink(); VC (is.pos() == 0 && is.size() == 0, "iunlink", "istream::unlink leaves position %zu", size_t(is.pos()));
}

//--- typed iteration over a stream ----------------------------------------------------
namespace {
template <typename T> void iters (void) {
    const size_t n = R.below (20), sz = sizeof(T);
    Arr<T> m; for (size_t i = 0; i < n; ++i) { T v; Gen<T>::mk (v); m.push (v); }
    char* b = (char*) guard_alloc (n * sz + 16); memset (b, 0xA5, n * sz + 16);
    ustl::ostream os (b, n * sz);
    ustl::ostream_iterator<T> oi (os);
    for (size_t i = 0; i < n; ++i) { *oi = m[i]; ++oi; }
    VC (os.pos() == n * sz && !memcmp (b, m.p, n * sz), "ositer", "ostream_iterator<%s> wrote %zu bytes of %zu", Gen<T>::name(), size_t(os.pos()), n * sz);
    for (size_t i = n * sz; i < n * sz + 16; ++i) VC ((unsigned char) b[i] == 0xA5, "outside", "ostream_iterator wrote past the end");
    ustl::istream is (b, n * sz); is.exceptions (0);
    ustl::istream_iterator<T> ii (is), ee; size_t i = 0;
    for (; i < n + 1 && !(ii == ee); ++i, ++ii) { VC (i < n && Gen<T>::eq (*ii, m[i]), "isiter", "istream_iterator<%s> element %zu of %zu", Gen<T>::name(), i, n); ops(); }
    VC (i == n, "isiter", "istream_iterator<%s> gave %zu elements of %zu", Gen<T>::name(), i, n);
    sig (hmix (sz, n));
    guard_free (b, n * sz + 16);
}
}
VF_CASE(c12_iterators, 300, 3000) { switch (R.below (5)) { case 0: iters<uint8_t>(); break; case 1: iters<uint16_t>(); break; case 2: iters<int32_t>(); break; case 3: iters<unsigned long>(); break; default: iters<char>(); } }

// borrowed blocks: memlink reads into linked storage and refuses more than fits
VF_CASE(c12_links, 400, 6000) {
    const size_t n = R.below (40), room = R.below (50); unsigned char src [40], *dst = (unsigned char*) guard_alloc (64);
    for (size_t i = 0; i < n; ++i) src[i] = R.next();
    memset (dst, 0xA5, 64);
    const size_t tot = al_up (n + 4, 4); char* b = (char*) guard_alloc (al_up (tot, 16));
    { ustl::cmemlink l (src, n); VC (l.stream_size() == tot, "size", "cmemlink of %zu announces %zu", n, size_t(l.stream_size())); ustl::ostream os (b, tot); os << l; VC (os.pos() == tot, "size", "cmemlink of %zu took %zu bytes", n, size_t(os.pos())); }
    ustl::memlink d (dst, room); ustl::istream is (b, tot);
    try { is >> d; VC (n <= room, "lenerr", "memlink of %zu read %zu bytes", room, n); VC (d.size() == n && !memcmp (dst, src, n) && is.pos() == tot, "roundtrip", "memlink read %zu of %zu", size_t(d.size()), n); }
    catch (ustl::length_error&) { VC (n > room, "lenerr", "memlink of %zu refused %zu bytes", room, n); }
    for (size_t i = n <= room ? n : 0; i < 64; ++i) VC (dst[i] == 0xA5, "outside", "memlink::read wrote byte %zu of %zu", i, room);
    ops (2); sig (hmix (n <= room, hmix (n % 4, n == 0)));
    guard_free (b, al_up (tot, 16)); guard_free (dst, 64);
}
