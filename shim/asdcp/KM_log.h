/* Part of a stand-in for asdcplib */

#ifndef VERIF_SHIM_KM_LOG_H
#define VERIF_SHIM_KM_LOG_H

#include "KM_error.h"

namespace Kumu {

int const LOG_ALLOW_ALL = 0xff;
int const LOG_ALLOW_NONE = 0;

class ILogSink
{
public:
	void SetFilterFlag(int) {}
	void UnsetFilterFlag(int) {}
};

inline ILogSink& DefaultLogSink()
{
	static ILogSink s;
	return s;
}

}

#endif
