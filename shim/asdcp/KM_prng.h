/* Part of a stand-in for asdcplib */

#ifndef VERIF_SHIM_KM_PRNG_H
#define VERIF_SHIM_KM_PRNG_H

#include "KM_util.h"

namespace Kumu {

/** A generator whose output follows from the last seed that it was given (see shim_seed) */
class FortunaRNG
{
public:
	byte_t const* FillRandom(byte_t* buf, ui32_t len);
	void Reset();
};

void shim_seed(ui64_t seed);

}

#endif
