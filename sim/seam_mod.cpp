// Heap seam of the module build: every module has its own heap; blocks carry guard zones, are filled with garbage, and are poisoned and kept until the end of the run after release.
#include "core.hpp"
#include "modhost.hpp"

namespace sim {
	namespace {
		constexpr std::size_t guard{32}; constexpr unsigned char guard_byte{0xc3}, dead_byte{0xdd};
		struct Dead { unsigned char * p; std::size_t n; }; std::vector<Dead> dead; std::size_t live_bytes{0};
		bool filled(const unsigned char * p, std::size_t n, unsigned char b) { for(std::size_t i{0}; i < n; ++i) if(p[i] != b) return false; return true; }
	}
	void * heap_alloc(std::size_t n, u32 kind, bool, std::size_t) {
		Ctx & c{*cur};
		if(n > memory_limit || live_bytes + n > memory_limit * 2) { c.refused_big = true; return nullptr; }
		if(c.point(F_ALLOC)) { if(kind & cross_bit) SIM_PROBE(cross_module_fault); return nullptr; }
		auto p{static_cast<unsigned char *>(std::malloc(n + 2 * guard))}; if(!p) return nullptr;
		std::memset(p, guard_byte, guard); std::memset(p + guard, static_cast<int>(mix(c.gseed, ++c.gcount) & 0xff), n); std::memset(p + guard + n, guard_byte, guard);
		c.heap.insert(reinterpret_cast<std::uintptr_t>(p + guard), Block{n, kind & ~cross_bit, c.step_no}); live_bytes += n;
		return p + guard;
	}
	void heap_free(void * q, u32 kind, std::size_t hint) {
		Ctx * c{cur}; if(!c || !q) return;
		auto e{c->heap.find(reinterpret_cast<std::uintptr_t>(q))};
		if(!e) { violate(MEMORY, "module %u released a block that is not live (released twice, or never obtained)", kind / 16); return; }
		const Block b{e->v}; auto p{static_cast<unsigned char *>(q) - guard};
		c->heap.erase(reinterpret_cast<std::uintptr_t>(q)); live_bytes -= b.size;
		if(b.kind / 16 != kind / 16) violate(OWNER, "block of %zu bytes obtained by module %u (in step %u) was released to the heap of module %u", b.size, b.kind / 16, b.step, kind / 16);
		else if(b.kind != kind) violate(MEMORY, "block obtained with %s released with %s", block_kind_name[b.kind % 16], block_kind_name[kind % 16]);
		else if(hint && hint != b.size) violate(MEMORY, "block of %zu bytes released as %zu bytes", b.size, hint);
		if(!filled(p, guard, guard_byte) || !filled(p + guard + b.size, guard, guard_byte)) violate(MEMORY, "bytes around a block of %zu bytes were overwritten", b.size);
		std::memset(p, dead_byte, b.size + 2 * guard); dead.push_back({p, b.size + 2 * guard});
	}
	void end_of_run_leak_check(Ctx & c) {
		if(c.heap.n) {
			std::size_t size{0}; u32 step{~0u}, mod{0};
			for(std::size_t i{0}; i < c.heap.cap; ++i) if(c.heap.t[i].k && c.heap.t[i].v.step < step) { step = c.heap.t[i].v.step; size = c.heap.t[i].v.size; mod = c.heap.t[i].v.kind / 16; }
			violate(MEMORY, "%zu block(s) never released (first: %zu bytes obtained by module %u in step %u)", c.heap.n, size, mod, step);
		}
		for(const auto & d : dead) if(!filled(d.p, d.n, dead_byte)) { violate(MEMORY, "a released block was written to"); break; }
	}
	void reset_heap() { live_bytes = 0; for(const auto & d : dead) std::free(d.p); dead.clear(); }
}
