// consteval variants: everything the library needs from the standard library is included first, then the library is
// compiled so that it believes it is being constant-evaluated, which puts those code paths under symbolic execution
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <climits>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <optional>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#if __cplusplus >= 202002L
#include <bit>
#include <concepts>
#endif
#define __builtin_is_constant_evaluated() true
#define is_constant_evaluated is_constant_evaluated_replaced
namespace std { constexpr bool is_constant_evaluated_replaced() noexcept { return true; } }
