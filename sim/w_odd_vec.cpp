#include "odd.hpp"
#include "vec.hpp"
using namespace sim;
static RegisterWorld r1{VecWorld<Nest<4>>::kind("odd:vec<nest>")}, r2{VecWorld<Amp<5>>::kind("odd:vec<amp>")}, r3{VecWorld<Wide<6, 64>>::kind("odd:vec<wide>")}, r6{VecWorld<Eager<7>>::kind("odd:vec<eager>")};
static RegisterWorld r4{VecWorld<ptl::optional<Soft>>::kind("odd:vec<opt>")}, r5{VecWorld<ptl::vector<int>>::kind("odd:vec<vec>")};
