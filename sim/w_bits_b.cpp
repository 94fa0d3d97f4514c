#include "bits.hpp"
namespace sim {
	#define SIM_BITS(n) static RegisterWorld r##n{Bits<n>::kind("bits<" #n ">")}
	SIM_BITS(9);
	SIM_BITS(11);
	SIM_BITS(16);
	SIM_BITS(31);
	SIM_BITS(63);
}
