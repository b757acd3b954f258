// Shared by all harnesses
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "pbt.hpp"
#include <sstream>
#include <iomanip>
#include <functional>
#include <theoretica.h>

using pbt::ld;
typedef theoretica::real real;

static const ld PIl = 3.14159265358979323846264338327950288L;

// Run f with errno cleared, leaving in `err` the value it had afterwards
template<typename F> auto with_errno(int& err, F f) -> decltype(f()) {
	errno = 0;
	auto r = f();
	err = errno;
	errno = 0;
	return r;
}

inline std::string errno_name(int e) {
	switch (e) { case 0: return "0"; case EDOM: return "EDOM"; case ERANGE: return "ERANGE"; case EINVAL: return "EINVAL"; }
	return std::to_string(e);
}
#endif
