// Force-included before everything else.  The repository's test build hides
// __has_include from the library so that its own Optional is used; the harness
// does the same unless STD_OPT is defined (see C25).
#ifndef VERIF_PRELUDE_HPP
#define VERIF_PRELUDE_HPP
#include <algorithm>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <forward_list>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#ifndef STD_OPT
#undef __has_include
#endif
#endif
