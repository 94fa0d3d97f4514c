#include "give.hpp"
namespace sim { static RegisterWorld r0{GiveWorld<ptl::string>::kind("give:string")}; }
