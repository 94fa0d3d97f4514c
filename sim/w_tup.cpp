#include "core.hpp"
#include <iostream>
#include <ptl/string.hpp>
#define SIM_WITH_STRING
#include "tup.hpp"
using namespace sim;
static RegisterWorld r1{TupWorld<Soft, unsigned char, Soft, int>::kind("tup<soft,byte,soft,int>")};
static RegisterWorld r2{TupWorld<ptl::string, Soft>::kind("tup<string,soft>")};
static RegisterWorld r3{TupWorld<Soft>::kind("tup<soft>")}, r4{TupWorld<ptl::string>::kind("tup<string>")};
static RegisterWorld r5{TupWorld<Soft, unsigned char, Soft, int, unsigned char, Soft, int, int, unsigned char, Soft>::kind("tup<ten>")};
