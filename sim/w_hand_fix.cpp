#include "core.hpp"
#include <iostream>
#include <ptl/string.hpp>
#include <ptl/optional.hpp>
#include <ptl/variant.hpp>
#include <ptl/array.hpp>
#include <ptl/tuple.hpp>
#include <ptl/bitset.hpp>
#define SIM_WITH_STRING
#define SIM_HAND_FIXED
#include "hand.hpp"
using namespace sim;
static RegisterWorld o0{HandWorld<ptl::optional<Soft>>::kind("hand:optional<soft>")}, o1{HandWorld<ptl::optional<ptl::string>>::kind("hand:optional<string>")};
static RegisterWorld v0{HandWorld<ptl::variant<int, Soft, ptl::string>>::kind("hand:variant")};
static RegisterWorld a0{HandWorld<ptl::array<Soft, 3>>::kind("hand:array<soft,3>")}, a1{HandWorld<ptl::array<ptl::string, 2>>::kind("hand:array<string,2>")}, a2{HandWorld<ptl::array<int, 0>>::kind("hand:array<int,0>")};
static RegisterWorld t0{HandWorld<ptl::tuple<Soft, int, ptl::string>>::kind("hand:tuple")};
static RegisterWorld b0{HandWorld<ptl::bitset<1>>::kind("hand:bitset<1>")}, b1{HandWorld<ptl::bitset<9>>::kind("hand:bitset<9>")}, b2{HandWorld<ptl::bitset<64>>::kind("hand:bitset<64>")}, b3{HandWorld<ptl::bitset<70>>::kind("hand:bitset<70>")};
static RegisterWorld o3{HandWorld<ptl::optional<Tracked>>::kind("hand:optional<hostile>")}; static RegisterWorld o2{HandWorld<ptl::optional<int>>::kind("hand:optional<int>")}, a3{HandWorld<ptl::array<unsigned char, 33>>::kind("hand:array<byte,33>")}, a4{HandWorld<ptl::array<Soft, 1>>::kind("hand:array<soft,1>")};
static RegisterWorld v1{HandWorld<ptl::variant<Soft>>::kind("hand:variant<1>")}, v2{HandWorld<ptl::variant<BasicTracked<1, false, 8>, int, BasicTracked<2, false, 28>, unsigned char, Soft, ptl::string>>::kind("hand:variant<6>")};
