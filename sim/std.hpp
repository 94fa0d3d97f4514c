#pragma once
// Included before every translation unit: whether a ptl header names each standard header it uses is not what
// these checks are about (the repository's own tests include plenty of them first as well).
#include <algorithm>
#include <array>
#include <bitset>
#include <cassert>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iosfwd>
#include <iostream>
#include <iterator>
#include <limits>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <atomic>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
