// C22: bytes and shorts.
#include "c22_packed.h"
C22_TUPLE (int8_t, 1)
C22_TUPLE (int8_t, 3)
C22_TUPLE (int8_t, 8)
C22_TUPLE (uint8_t, 2)
C22_TUPLE (uint8_t, 8)
C22_TUPLE (uint8_t, 7)
C22_TUPLE (int16_t, 2)
C22_TUPLE (int16_t, 3)
C22_TUPLE (int16_t, 4)
C22_TUPLE (uint16_t, 2)
C22_TUPLE (uint16_t, 4)
C22_TUPLE (uint16_t, 5)
C22_ARRAY (int8_t, 5)
C22_ARRAY (uint8_t, 16)
C22_ARRAY (uint16_t, 4)
C22_ARRAY (int16_t, 3)
