#include "bits.hpp"
namespace sim { static RegisterWorld r0{Bits<0>::kind("bits<0>")}; }
