#include "vec.hpp"
static sim::RegisterWorld r{sim::VecWorld<unsigned char>::kind("vec<byte>")};
