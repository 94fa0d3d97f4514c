#include "bits.hpp"
namespace sim {
	#define SIM_BITS(n) static RegisterWorld r##n{Bits<n>::kind("bits<" #n ">")}
	SIM_BITS(14);
	SIM_BITS(22);
	SIM_BITS(300);
	static RegisterWorld rb12{Bits<12, BoolTag>::kind("bits<12,bool>")}, rb40{Bits<40, OddTag>::kind("bits<40,tag>")};
}
