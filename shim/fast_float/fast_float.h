/* The fast_float that is installed here knows only about floating point; libdcp needs a later one, which reads integers
 * too (as std::from_chars does).
 */

#ifndef VERIF_SHIM_FAST_FLOAT_H
#define VERIF_SHIM_FAST_FLOAT_H

#include_next <fast_float/fast_float.h>
#include <limits>
#include <system_error>
#include <type_traits>

namespace fast_float {

template <class T>
from_chars_result
shim_from_chars(char const* first, char const* last, T& value)
{
	from_chars_result answer;
	answer.ptr = first;
	answer.ec = std::errc::invalid_argument;

	char const* p = first;
	bool const negative = std::is_signed<T>::value && p != last && *p == '-';
	if (negative) {
		++p;
	}

	char const* const start = p;
	bool over = false;
	unsigned __int128 n = 0;
	for (; p != last && *p >= '0' && *p <= '9'; ++p) {
		n = n * 10 + (*p - '0');
		if (n > static_cast<unsigned __int128>(std::numeric_limits<T>::max()) + (negative ? 1 : 0)) {
			over = true;
			n = 0;
		}
	}

	if (p == start) {
		return answer;
	}

	answer.ptr = p;
	if (over) {
		answer.ec = std::errc::result_out_of_range;
		return answer;
	}
	answer.ec = std::errc();
	value = negative ? static_cast<T>(-static_cast<__int128>(n)) : static_cast<T>(n);
	return answer;
}

#define SHIM_FROM_CHARS(T) inline from_chars_result from_chars(char const* f, char const* l, T& v) { return shim_from_chars(f, l, v); }
SHIM_FROM_CHARS(char)
SHIM_FROM_CHARS(signed char)
SHIM_FROM_CHARS(unsigned char)
SHIM_FROM_CHARS(short)
SHIM_FROM_CHARS(unsigned short)
SHIM_FROM_CHARS(int)
SHIM_FROM_CHARS(unsigned int)
SHIM_FROM_CHARS(long)
SHIM_FROM_CHARS(unsigned long)
SHIM_FROM_CHARS(long long)
SHIM_FROM_CHARS(unsigned long long)
#undef SHIM_FROM_CHARS

}

#endif
