#include "cmp.hpp"
namespace sim {
	SIM_CMP(r1, "bitset<1>", ptl::bitset<1>);
	SIM_CMP(r2, "bitset<8>", ptl::bitset<8>);
	SIM_CMP(r3, "bitset<11>", ptl::bitset<11>);
	SIM_CMP(r4, "bitset<70>", ptl::bitset<70>);
}
