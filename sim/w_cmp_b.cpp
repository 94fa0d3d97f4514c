#include "cmp.hpp"
namespace sim {
	SIM_CMP(r1, "vector<int>", ptl::vector<int>);
	SIM_CMP(r2, "vector<unsigned char>", ptl::vector<unsigned char>);
	SIM_CMP(r3, "vector<signed char>", ptl::vector<signed char>);
	SIM_CMP(r4, "vector<string>", ptl::vector<ptl::string>);
	SIM_CMP(r5, "vector<object>", ptl::vector<Soft>);
	SIM_CMP(r6, "vector<padded>", ptl::vector<Padded>);
	SIM_CMP(r7, "vector<optional<int>>", ptl::vector<ptl::optional<int>>);
}
