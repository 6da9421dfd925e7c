// libstdc++'s checked mode has no range check for C++20 iterators without a C++17 category; declare one before it.
#pragma once
#include <bits/stl_iterator_base_types.h>
namespace __gnu_debug {
template<class It> constexpr bool __valid_range_aux(It, It, std::output_iterator_tag) { return true; }
}
