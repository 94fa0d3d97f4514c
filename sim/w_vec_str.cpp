#include "core.hpp"
#include <iostream>
#include <ptl/string.hpp>
#define SIM_WITH_STRING
#include "vec.hpp"
static sim::RegisterWorld r{sim::VecWorld<ptl::string>::kind("vec<string>")};
