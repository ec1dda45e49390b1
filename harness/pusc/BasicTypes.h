/* Stand-in for the header generated from common/BasicTypes.asn1: PUSC-UINT16, 16 bits, big endian */
#ifndef PUSC_BASIC_TYPES_H
#define PUSC_BASIC_TYPES_H
#include "asn1crt_encoding_acn.h"
typedef asn1SccUint TPUSC_UINT16;
#define TPUSC_UINT16_REQUIRED_BYTES_FOR_ACN_ENCODING 2
flag TPUSC_UINT16_ACN_Encode(const TPUSC_UINT16 *v, BitStream *s, int *err, flag check);
flag TPUSC_UINT16_ACN_Decode(TPUSC_UINT16 *v, BitStream *s, int *err);
#endif
