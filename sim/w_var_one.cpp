// A variant with a single alternative; on its own, so that it can be built where converting between several alternatives cannot.
#include "var.hpp"
using namespace sim;
static RegisterWorld r1{VarWorld<std::index_sequence<0>, ListTracked<3>>::kind("var<1>")};
