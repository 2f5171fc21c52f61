// included before everything else when compiling for the executor: the members of std::string are instantiated in the
// module instead of being left to libstdc++.so
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
