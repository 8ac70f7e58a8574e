// Included first everywhere: container bounds are checked, but not std::polar of an undefined modulus.
#pragma once
#include <cmath>
#include <complex>
#undef __glibcxx_assert
namespace std { [[noreturn]] void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept; }
#define __glibcxx_assert(cond) \
    do { if (__builtin_expect(!bool(cond), false)) std::__glibcxx_assert_fail(__FILE__, __LINE__, __PRETTY_FUNCTION__, #cond); } while (false)
