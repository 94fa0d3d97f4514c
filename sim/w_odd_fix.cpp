#include "odd.hpp"
#include "tup.hpp"
#include "arr.hpp"
using namespace sim;
static RegisterWorld r1{TupWorld<Nest<4>, int, Amp<5>>::kind("odd:tup<nest,int,amp>")}, r2{TupWorld<unsigned char, Wide<6, 64>>::kind("odd:tup<byte,wide>")}, r3{TupWorld<ptl::optional<int>, Soft>::kind("odd:tup<opt,soft>")};
static RegisterWorld r4{ArrWorld<Nest<4>, 3>::kind("odd:arr<nest>")}, r5{ArrWorld<Amp<5>, 3>::kind("odd:arr<amp>")}, r6{ArrWorld<Wide<6, 64>, 3>::kind("odd:arr<wide>")}, r7{ArrWorld<ptl::optional<Soft>, 3>::kind("odd:arr<opt>")};
