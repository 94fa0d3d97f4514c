// Simulated threads: real pthreads of which exactly one runs at a time; every switch is decided by the plan, at the granularity of single memory accesses.
#pragma once
#include "core.hpp"
#include <functional>

namespace sim::thr {
	constexpr u32 max_tasks{3};
	struct Range { std::uintptr_t lo, hi; };
	struct Phase {
		Ctx * c;
		u32 n;                                              // tasks
		std::function<void(u32)> body;                      // what task t does
		bool concurrent;                                    // false: count accesses only
		std::vector<std::pair<u64, u32>> switches;          // (access number, target task), ascending
		u32 first{0};
		std::function<std::string(std::uintptr_t)> describe;
		u64 points{0}, switched{0}, hots{0};                // out; hot: a point at an atomic, a lock or a static of the module
		std::vector<std::pair<u64, u32>> hot_switches{};    // as switches, counting hot points only
	};
	void run(Phase &);
	void set_module(const std::vector<Range> & writable);   // statics of the module under test: restored before every phase
	void reset_phase(Ctx &);                                // drop the heap, restore the statics
	int current();                                          // running task, -1 outside
	void step_begin(u32 step);                              // for reports
}
