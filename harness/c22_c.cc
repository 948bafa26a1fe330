// C22: floating point.
#include "c22_packed.h"
C22_TUPLE (float, 1)
C22_TUPLE (float, 2)
C22_TUPLE (float, 4)
C22_TUPLE (float, 5)
C22_TUPLE (float, 16)
C22_TUPLE (double, 2)
C22_TUPLE (double, 3)
C22_TUPLE (double, 4)
C22_ARRAY (float, 4)
C22_ARRAY (double, 3)
// bit patterns of floats through the packed logical operations
VF_CASE (c22_float_bits, 500, 5000) {
    ustl::tuple<4,float> a, b; uint32_t x [4], y [4], e [4];
    for (int i = 0; i < 4; ++i) { x[i] = uint32_t (R.bits()); y[i] = uint32_t (R.bits()); memcpy (&a[i], &x[i], 4); memcpy (&b[i], &y[i], 4); }
    unsigned op = R.below (3);
    if (op == 0) ustl::simd::pand (a, b); else if (op == 1) ustl::simd::por (a, b); else ustl::simd::pxor (a, b);
    memcpy (e, b.begin(), 16); ops(); cpu_check ("packed logic on floats");
    for (int i = 0; i < 4; ++i) VC (e[i] == (op == 0 ? x[i] & y[i] : op == 1 ? x[i] | y[i] : x[i] ^ y[i]), "float-bits", "packed logic %u on tuple<4,float>, element %d", op, i);
    sig (hmix (77, op));
}
