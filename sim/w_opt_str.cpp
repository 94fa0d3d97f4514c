#include "core.hpp"
#include <iostream>
#include <ptl/string.hpp>
#define SIM_WITH_STRING
#include "opt.hpp"
static sim::RegisterWorld r{sim::OptWorld<ptl::string>::kind("opt<string>")};
