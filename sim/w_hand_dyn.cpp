#include "core.hpp"
#include <iostream>
#include <ptl/string.hpp>
#include <ptl/vector.hpp>
#define SIM_WITH_STRING
#define SIM_HAND_VECTOR
#include "hand.hpp"
using namespace sim;
static RegisterWorld r0{HandWorld<ptl::vector<int>>::kind("hand:vector<int>")}, r1{HandWorld<ptl::vector<Tracked>>::kind("hand:vector<tracked>")}, r2{HandWorld<ptl::vector<ptl::string>>::kind("hand:vector<string>")}, r3{HandWorld<ptl::string>::kind("hand:string")}, r4{HandWorld<ptl::string>::kind("hand:string2")};
static RegisterWorld r5{HandWorld<ptl::vector<unsigned char>>::kind("hand:vector<byte>")}, r6{HandWorld<ptl::vector<Pod>>::kind("hand:vector<pod>")};
