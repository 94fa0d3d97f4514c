#include "bits.hpp"
namespace sim { static RegisterWorld r2100{Bits<2100>::kind("bits<2100>")}; } // more bytes than a byte can count
