#include "bits.hpp"
namespace sim {
	#define SIM_BITS(n) static RegisterWorld r##n{Bits<n>::kind("bits<" #n ">")}
	SIM_BITS(3);
	SIM_BITS(1);
	SIM_BITS(5);
	SIM_BITS(7);
	SIM_BITS(8);
}
