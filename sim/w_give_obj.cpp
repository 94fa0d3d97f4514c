#include "give.hpp"
namespace sim { static RegisterWorld r0{GiveWorld<Soft>::kind("give:object")}; }
