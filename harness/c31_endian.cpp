// C31: the byte order is found in each documented way; the standard headers come first, then the macros of the other ways go.
#include <array>
#include <string>
#include <sstream>
#include <locale>
#include <algorithm>
#include <cstdint>
#include <cassert>
#include <iomanip>
#include <functional>
#include <limits>
#include <type_traits>
#include <iterator>
#include <cstring>
#if __cplusplus >= 201703L
#include <string_view>
#endif
#include <tuple>
#include <iostream>
constexpr bool little = __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__;
#ifdef HOW_GLIBC
#undef __BYTE_ORDER__
#endif
#ifdef HOW_MACROS
#undef __BYTE_ORDER__
#undef __GLIBC__
#undef _LITTLE_ENDIAN
#undef _BIG_ENDIAN
#if LITTLE
#define _LITTLE_ENDIAN
#else
#define _BIG_ENDIAN
#endif
#endif
#ifdef HOW_ARCH
#undef __BYTE_ORDER__
#undef __GLIBC__
#undef _LITTLE_ENDIAN
#undef _BIG_ENDIAN
#endif
#ifndef PLAIN
#include <ipaddress/ipaddress.hpp>
static_assert(ipaddress::is_little_endian() == little, "byte order");
#endif
