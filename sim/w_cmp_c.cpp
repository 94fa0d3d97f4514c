#include "cmp.hpp"
namespace sim {
	SIM_CMP(r1, "array<int,1>", ptl::array<int, 1>);
	SIM_CMP(r2, "array<signed char,5>", ptl::array<signed char, 5>);
	SIM_CMP(r3, "array<string,2>", ptl::array<ptl::string, 2>);
	SIM_CMP(r4, "array<double,3>", ptl::array<double, 3>);
	SIM_CMP(r5, "array<padded,3>", ptl::array<Padded, 3>);
	SIM_CMP(r6, "array<object,2>", ptl::array<Soft, 2>);
	SIM_CMP(r7, "tuple<int,string>", ptl::tuple<int, ptl::string>);
	SIM_CMP(r8, "tuple<fold,signed char,double,object>", ptl::tuple<Fold, signed char, double, Soft>);
}
