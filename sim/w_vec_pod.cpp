#include "vec.hpp"
static sim::RegisterWorld r{sim::VecWorld<sim::Pod>::kind("vec<pod>")};
