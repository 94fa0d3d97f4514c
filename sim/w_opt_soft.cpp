#include "opt.hpp"
static sim::RegisterWorld r{sim::OptWorld<sim::Soft>::kind("opt<soft>")};
static sim::RegisterWorld r2{sim::OptWorld<int>::kind("opt<int>")};
