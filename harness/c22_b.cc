// C22: words.
#include "c22_packed.h"
C22_TUPLE (int32_t, 2)
C22_TUPLE (int32_t, 4)
C22_TUPLE (int32_t, 7)
C22_TUPLE (int32_t, 16)
C22_TUPLE (uint32_t, 2)
C22_TUPLE (uint32_t, 4)
C22_TUPLE (uint32_t, 3)
C22_TUPLE (uint32_t, 16)
C22_TUPLE (int64_t, 1)
C22_TUPLE (int64_t, 2)
C22_TUPLE (uint64_t, 3)
C22_TUPLE (uint64_t, 4)
C22_ARRAY (int32_t, 4)
C22_ARRAY (uint32_t, 17)
C22_ARRAY (int64_t, 1)
C22_ARRAY (uint64_t, 8)
