#include "vec.hpp"
static sim::RegisterWorld r{sim::VecWorld<sim::Tracked>::kind("vec<tracked>")};
