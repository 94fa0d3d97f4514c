#include "vec.hpp"
static sim::RegisterWorld r{sim::VecWorld<sim::BasicTracked<5, false, 44>>::kind("vec<big>")};
