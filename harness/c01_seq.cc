// C01: vector, list and deque behave as an ideal sequence.
#include "seq.h"
using namespace vf;

#define SEQCASE(nm,CT,q,t) VF_CASE (c01_##nm, q, t) { Seq<CT > s; s.run (#CT, 60 + R.below (120)); if (want_sample()) sample ("random history on %s of %zu elements at the end", #CT, s.m.n); }
typedef ustl::string string;
SEQCASE (vector_u8, ustl::vector<uint8_t>, 260, 6000)
SEQCASE (vector_u16, ustl::vector<uint16_t>, 160, 4000)
SEQCASE (vector_int, ustl::vector<int>, 260, 6000)
SEQCASE (vector_u64, ustl::vector<uint64_t>, 160, 4000)
SEQCASE (vector_double, ustl::vector<double>, 120, 3000)
SEQCASE (vector_P3, ustl::vector<P3>, 160, 4000)
SEQCASE (vector_P40, ustl::vector<P40>, 120, 3000)
SEQCASE (vector_string, ustl::vector<ustl::string>, 240, 5000)
SEQCASE (list_int, ustl::list<int>, 160, 4000)
SEQCASE (list_string, ustl::list<ustl::string>, 160, 4000)
SEQCASE (deque_u16, ustl::deque<uint16_t>, 160, 4000)
#define BIGCASE(nm,CT,lim) VF_CASE (c01_big_##nm, 16, 200) { seq_big<CT > (#CT, lim); }
BIGCASE (u8, ustl::vector<uint8_t>, 300000)
BIGCASE (u16, ustl::deque<uint16_t>, 200000)
BIGCASE (int, ustl::vector<int>, 150000)
BIGCASE (P3, ustl::list<P3>, 100000)
BIGCASE (P40, ustl::vector<P40>, 40000)
BIGCASE (string, ustl::vector<ustl::string>, 8000)
VF_CASE (c01_listops_int, 300, 8000) { listops<ustl::list<int> >(); }
VF_CASE (c01_listops_string, 200, 5000) { listops<ustl::list<ustl::string> >(); }
VF_CASE (c01_dequeops_P3, 160, 4000) { listops<ustl::deque<P3> >(); }
VF_CASE (c01_equality, 40, 800) { eqtest<ustl::vector<int> >(); eqtest<ustl::vector<uint8_t> >(); eqtest<ustl::list<P3> >(); eqtest<ustl::vector<string> >(); eqtest<ustl::list<string> >(); eqtest<ustl::vector<double> >(); eqtest<ustl::deque<P40> >(); }
// Elements that are equivalent for < but distinguishable: those of the list merged into come first
namespace {
template <size_t PAD> struct Keyed { unsigned short key, id; uint8_t pad [PAD]; };
template <size_t PAD> inline bool operator< (const Keyed<PAD>& a, const Keyed<PAD>& b) { return a.key < b.key; }
template <size_t PAD> inline bool operator== (const Keyed<PAD>& a, const Keyed<PAD>& b) { return a.key == b.key && a.id == b.id; }
template <size_t PAD> void keyed_merge (void)
{
    typedef Keyed<PAD> K; typedef ustl::list<K> L;
    const size_t na = R.size (60), nb = R.size (60); const unsigned spread = 1 + R.below (R.chance (1, 2) ? 4 : 40);
    Arr<K> ma, mb, w; L a, b; unsigned id = 0;
    for (unsigned k = 0; k < 2; ++k) {
	Arr<K>& m (k ? mb : ma); const size_t n = k ? nb : na;
	Arr<unsigned> key; for (size_t i = 0; i < n; ++i) { unsigned x = R.below (spread); size_t j = key.n; while (j && key[j-1] > x) --j; key.insert (j, 1, x); }
	for (size_t i = 0; i < n; ++i) { K x; memset (&x, 0, sizeof(x)); x.key = key[i]; x.id = id++; for (size_t p = 0; p < PAD; ++p) x.pad[p] = mix (x.id + p); m.push (x); (k ? b : a).push_back (x); }
    }
    size_t i = 0, j = 0;
    while (i < ma.n || j < mb.n) if (j == mb.n || (i < ma.n && !(mb[j] < ma[i]))) w.push (ma[i++]); else w.push (mb[j++]);
    a.merge (b); ops();
    VC (a.size() == w.n, "size", "merge of lists of %zu and %zu elements gives %zu", na, nb, size_t(a.size()));
    for (i = 0; i < w.n; ++i) VC (a[i] == w[i] && !memcmp (a[i].pad, w[i].pad, PAD), "merge-order", "merge of lists of %zu and %zu elements: element %zu has key %u and is number %u, expected key %u, number %u", na, nb, i, a[i].key, a[i].id, w[i].key, w[i].id);
    sig (hmix (na > 9 ? 10 : na, hmix (nb > 9 ? 10 : nb, spread)));
}
}
VF_CASE (c01_keyed_merge, 300, 6000) { if (R.chance (1, 2)) keyed_merge<1>(); else keyed_merge<20>(); }
