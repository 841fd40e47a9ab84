/* Part of a stand-in for asdcplib */

#ifndef VERIF_SHIM_KM_PLATFORM_H
#define VERIF_SHIM_KM_PLATFORM_H

#include <cstdint>

typedef unsigned char byte_t;
typedef int8_t i8_t;
typedef uint8_t ui8_t;
typedef int16_t i16_t;
typedef uint16_t ui16_t;
typedef int32_t i32_t;
typedef uint32_t ui32_t;
typedef int64_t i64_t;
typedef uint64_t ui64_t;

#endif
