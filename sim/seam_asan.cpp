// Allocator seam of the address-sanitised build: malloc family by --wrap, operator new/delete by replacement.
#include "core.hpp"
#include <sanitizer/asan_interface.h>

extern "C" {
	void * __real_malloc(std::size_t); void * __real_calloc(std::size_t, std::size_t); void * __real_realloc(void *, std::size_t); void __real_free(void *);
	void * __real_aligned_alloc(std::size_t, std::size_t); int __real_posix_memalign(void **, std::size_t, std::size_t);
	void __asan_set_error_report_callback(void (*)(const char *));
	const char * __asan_default_options() { return "detect_leaks=0:exitcode=43:handle_abort=0:handle_segv=1:allocator_may_return_null=1:max_allocation_size_mb=512:quarantine_size_mb=16:detect_odr_violation=0:malloc_fill_byte=0:abort_on_error=0:print_summary=0:symbolize=0:fast_unwind_on_malloc=1:malloc_context_size=1"; }
	const char * __ubsan_default_options() { return "halt_on_error=1:exitcode=43:print_stacktrace=0"; }
}

namespace sim {
	void asan_report(const char *);
	namespace { struct Install { Install() { __asan_set_error_report_callback(asan_report); } } install; std::size_t live_bytes{0}; }

	void * heap_alloc(std::size_t n, u32 kind, bool zero, std::size_t align) {
		Ctx & c{*cur};
		if(c.armed) c.asked += n;
		if(n > memory_limit || live_bytes + n > memory_limit * 2) { c.refused_big = true; return nullptr; }
		if(c.point(F_ALLOC)) return nullptr;
		// a block is aligned as much as the request guarantees and no more
		void * p{nullptr}; u32 shift{0};
		if(align) { if(__real_posix_memalign(&p, std::max(align, sizeof(void *)), n)) p = nullptr; }
		else if((p = __real_malloc(n + 16))) {
			if(reinterpret_cast<std::uintptr_t>(p) % 32 == 0) { shift = 16; __asan_poison_memory_region(p, 16); p = static_cast<char *>(p) + 16; }
			else __asan_poison_memory_region(static_cast<char *>(p) + n, 16);
		}
		if(!p) return nullptr;
		if(zero) std::memset(p, 0, n);
		else { const u64 g{mix(c.gseed, ++c.gcount)}; std::memset(p, static_cast<int>(g & 0xff), n); }
		{ Off off{c}; c.heap.insert(reinterpret_cast<std::uintptr_t>(p), Block{n, kind, c.step_no, shift}); }
		live_bytes += n;
		return p;
	}
	// a block of unknown origin: outside every run, or from an earlier one
	static void release(void * p) { char n[8]; void * at{nullptr}; std::size_t size{0}; const char * const where{__asan_locate_address(p, n, sizeof n, &at, &size)}; __real_free(where && at && std::strcmp(where, "heap") == 0 && static_cast<char *>(at) + 16 == p ? at : p); }
	void heap_free(void * p, u32 kind, std::size_t hint) {
		if(!p) return;
		Ctx * c{cur};
		if(c) {
			if(auto e{c->heap.find(reinterpret_cast<std::uintptr_t>(p))}) {
				const Block b{e->v};
				c->heap.erase(reinterpret_cast<std::uintptr_t>(p)); live_bytes -= b.size;
				if(b.kind != kind) violate(MEMORY, "block obtained with %s released with %s", block_kind_name[b.kind], block_kind_name[kind]);
				else if(hint && hint != b.size) violate(MEMORY, "block of %zu bytes released as %zu bytes", b.size, hint);
				__real_free(static_cast<char *>(p) - b.shift); return;
			} else if(c->track) { violate(MEMORY, "released a block that is not live (double release or foreign pointer) with %s", block_kind_name[kind]); return; }
		}
		release(p);
	}
	void end_of_run_leak_check(Ctx & c) {
		if(c.heap.n) {
			std::size_t n{c.heap.n}, size{0}; u32 step{~0u};
			for(std::size_t i{0}; i < c.heap.cap; ++i) if(c.heap.t[i].k && c.heap.t[i].v.step < step) { step = c.heap.t[i].v.step; size = c.heap.t[i].v.size; }
			violate(MEMORY, "%zu block(s) never released (first: %zu bytes obtained in step %u)", n, size, step);
		}
	}
	void reset_heap() { live_bytes = 0; }
}

using namespace sim;
static void * wrap_alloc(std::size_t n, u32 kind) { return cur && cur->track ? heap_alloc(n, kind, false) : __real_malloc(n); }

extern "C" {
	void * __wrap_malloc(std::size_t n) { return wrap_alloc(n, B_MALLOC); }
	void * __wrap_calloc(std::size_t a, std::size_t b) { if(!(cur && cur->track)) return __real_calloc(a, b); if(b && a > static_cast<std::size_t>(-1) / b) { cur->refused_big = true; return nullptr; } return heap_alloc(a * b, B_MALLOC, true); }
	void __wrap_free(void * p) { if(!p) return; if(cur) heap_free(p, B_MALLOC, 0); else release(p); }
	void * __wrap_realloc(void * p, std::size_t n) {
		if(!(cur && cur->track)) return __real_realloc(p, n);
		void * q{heap_alloc(n, B_MALLOC, false)}; if(!q) return nullptr;
		if(p) { auto e{cur->heap.find(reinterpret_cast<std::uintptr_t>(p))}; if(e) std::memcpy(q, p, std::min(n, e->v.size)); heap_free(p, B_MALLOC, 0); }
		return q;
	}
	void * __wrap_aligned_alloc(std::size_t a, std::size_t n) { return cur && cur->track ? heap_alloc(n, B_MALLOC, false, a) : __real_aligned_alloc(a, n); }
	int __wrap_posix_memalign(void ** p, std::size_t a, std::size_t n) { if(!(cur && cur->track)) return __real_posix_memalign(p, a, n); *p = heap_alloc(n, B_MALLOC, false, a); return *p ? 0 : 12; }
}

static void * do_new(std::size_t n, u32 kind, std::size_t align = 0) {
	if(n == 0) n = 1;
	void * p{cur && cur->track ? heap_alloc(n, kind, false, align) : align ? __real_aligned_alloc(align, (n + align - 1) / align * align) : __real_malloc(n)};
	if(!p) throw std::bad_alloc{};
	return p;
}
static void * do_new_nt(std::size_t n, u32 kind) noexcept { if(n == 0) n = 1; return cur && cur->track ? heap_alloc(n, kind, false) : __real_malloc(n); }
static void do_del(void * p, u32 kind, std::size_t hint) noexcept { if(!p) return; if(cur) heap_free(p, kind, hint); else release(p); }
void * operator new(std::size_t n) { return do_new(n, B_NEW); }
void * operator new[](std::size_t n) { return do_new(n, B_NEWARR); }
void * operator new(std::size_t n, const std::nothrow_t &) noexcept { return do_new_nt(n, B_NEW); }
void * operator new[](std::size_t n, const std::nothrow_t &) noexcept { return do_new_nt(n, B_NEWARR); }
void * operator new(std::size_t n, std::align_val_t a) { return do_new(n, B_ALIGNED_NEW, static_cast<std::size_t>(a)); }
void * operator new[](std::size_t n, std::align_val_t a) { return do_new(n, B_ALIGNED_NEW, static_cast<std::size_t>(a)); }
void operator delete(void * p) noexcept { do_del(p, B_NEW, 0); }
void operator delete[](void * p) noexcept { do_del(p, B_NEWARR, 0); }
void operator delete(void * p, std::size_t n) noexcept { do_del(p, B_NEW, n); }
void operator delete[](void * p, std::size_t n) noexcept { do_del(p, B_NEWARR, n); }
void operator delete(void * p, const std::nothrow_t &) noexcept { do_del(p, B_NEW, 0); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { do_del(p, B_NEWARR, 0); }
void operator delete(void * p, std::align_val_t) noexcept { do_del(p, B_ALIGNED_NEW, 0); }
void operator delete[](void * p, std::align_val_t) noexcept { do_del(p, B_ALIGNED_NEW, 0); }
void operator delete(void * p, std::size_t, std::align_val_t) noexcept { do_del(p, B_ALIGNED_NEW, 0); }
void operator delete[](void * p, std::size_t, std::align_val_t) noexcept { do_del(p, B_ALIGNED_NEW, 0); }
