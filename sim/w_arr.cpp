#include "core.hpp"
#include <iostream>
#include <ptl/string.hpp>
#define SIM_WITH_STRING
#include "arr.hpp"
using namespace sim;
static RegisterWorld r0{ArrWorld<Soft, 0>::kind("arr<soft,0>")}, r1{ArrWorld<Soft, 1>::kind("arr<soft,1>")}, r2{ArrWorld<Soft, 2>::kind("arr<soft,2>")}, r3{ArrWorld<Soft, 3>::kind("arr<soft,3>")}, r7{ArrWorld<Soft, 7>::kind("arr<soft,7>")};
static RegisterWorld rs{ArrWorld<ptl::string, 3>::kind("arr<string,3>")}, rb{ArrWorld<unsigned char, 40>::kind("arr<byte,40>")};
