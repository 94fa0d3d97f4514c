#include "bits.hpp"
namespace sim {
	#define SIM_BITS(n) static RegisterWorld r##n{Bits<n>::kind("bits<" #n ">")}
	SIM_BITS(64);
	SIM_BITS(65);
	SIM_BITS(130);
}
