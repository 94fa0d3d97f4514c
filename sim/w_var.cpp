#include "core.hpp"
#include <iostream>
#include <ptl/string.hpp>
#define SIM_WITH_STRING
#include "var.hpp"
using namespace sim;
static RegisterWorld r{VarWorld<std::index_sequence<0, 1, 2, 3, 4, 5>, Soft, int, ListTracked<3>, BasicTracked<2, false, 28>, ptl::string, FromSoft>::kind("var<6>")};
static RegisterWorld r2{VarWorld<std::index_sequence<0, 1>, FromSoft, Soft>::kind("var<2>")};
