#include "vec.hpp"
static sim::RegisterWorld r{sim::VecWorld<int>::kind("vec<int>")};
