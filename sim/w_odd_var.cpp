#include "odd.hpp"
#include "var.hpp"
using namespace sim;
static RegisterWorld r1{VarWorld<std::index_sequence<0, 1, 2, 3>, Nest<4>, Amp<5>, Soft, int>::kind("odd:var<nest,amp>")}, r2{VarWorld<std::index_sequence<0, 1>, Wide<6, 64>, Soft>::kind("odd:var<wide>")}, r4{VarWorld<std::index_sequence<0, 1>, Eager<7>, int>::kind("odd:var<eager>")};
static RegisterWorld r3{VarWorld<std::index_sequence<0, 1>, ptl::optional<int>, Soft>::kind("odd:var<opt>")};
