#include "odd.hpp"
#include "opt.hpp"
using namespace sim;
static RegisterWorld r1{OptWorld<Nest<4>>::kind("odd:opt<nest>")}, r2{OptWorld<Amp<5>>::kind("odd:opt<amp>")}, r3{OptWorld<Wide<6, 64>>::kind("odd:opt<wide>")}, r6{OptWorld<Eager<7>>::kind("odd:opt<eager>")};
static RegisterWorld r4{OptWorld<ptl::optional<Soft>>::kind("odd:opt<opt>")}, r5{OptWorld<ptl::vector<int>>::kind("odd:opt<vec>")};
