#pragma once
#include "core.hpp"
namespace sim { constexpr u32 cross_bit{1u << 30}; void * heap_alloc(std::size_t, u32, bool, std::size_t); void heap_free(void *, u32, std::size_t); }
