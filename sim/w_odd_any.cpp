#include "odd.hpp"
#include "tup.hpp"
#include "arr.hpp"
using namespace sim;
static RegisterWorld r1{ArrWorld<Eager<7>, 3>::kind("odd:arr<eager>")}, r2{ArrWorld<Eager<7>, 1>::kind("odd:arr<eager,1>")}, r3{TupWorld<Eager<7>>::kind("odd:tup<eager>")}, r4{TupWorld<Eager<7>, int>::kind("odd:tup<eager,int>")};
