// C22: conversions and matrices.
#include "c22_packed.h"
VF_CASE (c22_round, 2000, 25000) { for (int i = 0; i < 4; ++i) switch (R.below (5)) { case 0: rounding_run<1>(); break; case 1: rounding_run<2>(); break; case 2: rounding_run<3>(); break; case 3: rounding_run<4>(); break; case 4: rounding_run<8>(); break; } }
VF_CASE (c22_matrix_float, 1250, 15000) { switch (R.below (6)) { case 0: case 1: case 2: matrix_run<4,4,float>(); square<4,float>(); break; case 3: matrix_run<3,4,float>(); break; case 4: matrix_run<4,2,float>(); break; case 5: matrix_run<2,2,float>(); square<3,float>(); square<2,float>(); break; } }
VF_CASE (c22_matrix_int, 1000, 15000) { switch (R.below (6)) { case 0: matrix_run<4,4,int32_t>(); square<4,int32_t>(); break; case 1: matrix_run<3,5,int32_t>(); break; case 2: matrix_run<2,3,int64_t>(); square<5,int32_t>(); break; case 3: matrix_run<4,4,uint32_t>(); square<4,uint32_t>(); break; case 4: matrix_run<1,6,int32_t>(); square<1,int32_t>(); break; case 5: matrix_run<2,8,int16_t>(); square<2,uint16_t>(); break; } }
VF_CASE (c22_matrix_double, 500, 7500) { switch (R.below (3)) { case 0: matrix_run<4,4,double>(); square<4,double>(); break; case 1: matrix_run<3,3,double>(); square<3,double>(); break; case 2: matrix_run<1,2,double>(); square<2,double>(); break; } }
