// Thread seam: compiler instrumentation (-fsanitize=thread callbacks, implemented here), local statics, mutexes, heap.
#include "thr.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <errno.h>
#include <time.h>

namespace sim {
	// ---- heap ----
	namespace {
		struct Dead { unsigned char * p; }; std::vector<Dead> dead; std::size_t live_bytes{0};
	}
	namespace thr { namespace { void touch(std::uintptr_t p, std::size_t n, bool write, bool preemptible); void alloc_point(); } }
	void * heap_alloc(std::size_t n, u32 kind, bool, std::size_t) {
		Ctx & c{*cur};
		thr::alloc_point();
		if(n > memory_limit || live_bytes + n > memory_limit * 2) { c.refused_big = true; return nullptr; }
		if(c.point(F_ALLOC)) return nullptr;
		auto p{static_cast<unsigned char *>(std::malloc(n + 32))}; if(!p) return nullptr;
		std::memset(p, 0x5a, n + 32); c.heap.insert(reinterpret_cast<std::uintptr_t>(p + 16), Block{n, kind, c.step_no}); live_bytes += n;
		return p + 16;
	}
	void heap_free(void * q, u32, std::size_t) {
		Ctx * c{cur}; if(!c || !q) return;
		auto e{c->heap.find(reinterpret_cast<std::uintptr_t>(q))};
		if(!e) { violate(MEMORY, "a block was released that is not live"); return; }
		const Block b{e->v};
		thr::touch(reinterpret_cast<std::uintptr_t>(q), b.size, true, true);
		c->heap.erase(reinterpret_cast<std::uintptr_t>(q)); live_bytes -= b.size;
		std::memset(q, 0xdd, b.size); dead.push_back({static_cast<unsigned char *>(q) - 16});
	}
	void end_of_run_leak_check(Ctx &) {}
	void reset_heap() {
		live_bytes = 0; for(const auto & d : dead) std::free(d.p); dead.clear();
		if(Ctx * c{cur}) { for(std::size_t i{0}; i < c->heap.cap; ++i) if(c->heap.t[i].k) std::free(reinterpret_cast<void *>(c->heap.t[i].k - 16)); c->heap.clear(); }
	}
}

namespace sim::thr {
	namespace {
		struct FaultState { int fk; u32 fat; u32 cnt[NFK]; bool fired[NFK]; bool armed, track, refused_big, counts; u32 fault_id, step_no; const char * opname; };
		void save(const Ctx & c, FaultState & f) { f.fk = c.fk; f.fat = c.fat; std::memcpy(f.cnt, c.cnt, sizeof f.cnt); std::memcpy(f.fired, c.fired, sizeof f.fired); f.armed = c.armed; f.track = c.track; f.refused_big = c.refused_big; f.counts = c.counts; f.fault_id = c.fault_id; f.step_no = c.step_no; f.opname = c.opname; }
		void load(Ctx & c, const FaultState & f) { c.fk = f.fk; c.fat = f.fat; std::memcpy(c.cnt, f.cnt, sizeof f.cnt); std::memcpy(c.fired, f.fired, sizeof f.fired); c.armed = f.armed; c.track = f.track; c.refused_big = f.refused_big; c.counts = f.counts; c.fault_id = f.fault_id; c.step_no = f.step_no; c.opname = f.opname; if(c.st) c.st->cur_step = f.step_no; }

		constexpr std::size_t stack_size{512 * 1024};
		struct Task { u32 id; sem_t go; pthread_t th; bool done, waiting; std::uintptr_t lo, hi; FaultState fs; u32 spin, step; char * stack{nullptr}; u64 own; };
		Task task[max_tasks]; Phase * ph{nullptr}; u32 running{0}; sem_t main_go; bool sems{false}; std::size_t next_switch{0}, next_hot{0};
		thread_local Task * me{nullptr};
		u32 vc[max_tasks][max_tasks], seen_by_loads[max_tasks][max_tasks], at_fence[max_tasks][max_tasks];
		AddrMap<u32> sync_ids{1 << 6}; std::vector<std::array<u32, max_tasks>> sync_vc;
		struct Mutex { int owner; u32 readers; }; AddrMap<Mutex> mutexes{1 << 6};

		// ---- who touched which byte ----
		struct Seen { u8 r, w, ar, aw; u32 rc, wc, arc, awc, rs, ws, as; }; // plain reads and writes, atomic reads and writes: bytes, clock, step
		struct Word { std::uintptr_t k; u32 gen; Seen t[max_tasks]; };
		constexpr std::size_t nwords{1 << 15}; Word * words{nullptr}; u32 gen{0}; std::size_t used{0};
		Word * word(std::uintptr_t k) {
			for(std::size_t i{AddrMap<u32>::h(k * 8) & (nwords - 1)};; i = (i + 1) & (nwords - 1)) {
				Word & w{words[i]};
				if(w.gen != gen) { if(used > nwords / 2) return nullptr; ++used; w.gen = gen; w.k = k; std::memset(w.t, 0, sizeof w.t); return &w; }
				if(w.k == k) return &w;
			}
		}

		void wait(sem_t * s) {
			timespec t; clock_gettime(CLOCK_REALTIME, &t); t.tv_sec += 30;
			for(;;) { if(sem_timedwait(s, &t) == 0) return; if(errno == ETIMEDOUT) { violate(HANG, "the threads block each other"); _Exit(42); } }
		}
		void hand_over(Task & to) { // the caller stops running
			load(*ph->c, to.fs); running = to.id; to.spin = 0; sem_post(&to.go);
		}
		void switch_to(u32 t) {
			Task & self{*me}; if(t == self.id) return;
			if(ph->c->trace) ph->c->note("    thread %u is preempted at its access %llu, thread %u runs", self.id + 1, static_cast<unsigned long long>(self.own), t + 1);
			++ph->switched; if(ph->concurrent && ph->c->st) ++ph->c->st->faults_fired[F_PREEMPT]; ph->c->log(0x5317c000 + self.id * 16 + t); ph->c->log(self.own);
			save(*ph->c, self.fs); hand_over(task[t]); wait(&self.go);
		}
		int other(u32 from) { for(u32 i{1}; i <= ph->n; ++i) { const u32 t{(from + i) % ph->n}; if(t != me->id && !task[t].done && !task[t].waiting) return static_cast<int>(t); } return -1; }
		void take_due(const std::vector<std::pair<u64, u32>> & list, std::size_t & next, u64 now) {
			while(next < list.size() && list[next].first <= now) {
				const u32 want{list[next++].second % ph->n};
				if(want != me->id && !task[want].done && !task[want].waiting) switch_to(want);
				else if(const int t{other(want)}; t >= 0) switch_to(static_cast<u32>(t));
			}
		}
		void point(bool hot = false) {
			++me->own; const u64 now{++ph->points}; if(hot) ++ph->hots;
			if(!ph->concurrent) return;
			if(hot) take_due(ph->hot_switches, next_hot, ph->hots);
			take_due(ph->switches, next_switch, now);
		}
		bool is_static(std::uintptr_t p);
		void yield_now() { if(const int t{other(me->id)}; t >= 0) switch_to(static_cast<u32>(t)); }
		void alloc_point() { if(me) point(); }
		void sync_point() { if(me) point(true); }
		const char * kind(bool w) { return w ? "write" : "read"; }
		void look(std::uintptr_t p, std::size_t n, bool write, bool atomic) { // reports a conflict that nothing orders, and remembers the access
			Task * const t{me}; if(!ph->concurrent || (p >= t->lo && p < t->hi)) return;
			const u32 * const order{vc[t->id]}; const u32 now{order[t->id]};
			for(std::uintptr_t a{p}, e{p + n}; a < e;) {
				const std::uintptr_t k{a / 8}; const std::uintptr_t stop{std::min((k + 1) * 8, e)};
				const u8 m{static_cast<u8>(((1u << (stop - a)) - 1) << (a % 8))};
				if(Word * const w{word(k)}) {
					bool shared{false};
					for(u32 u{0}; u < ph->n; ++u) if(u != t->id) {
						const Seen & s{w->t[u]}; if(s.r | s.w | s.ar | s.aw) shared = true;
						const bool pw{(s.w & m) && s.wc > order[u]}, pr{write && (s.r & m) && s.rc > order[u]}, aw{!atomic && (s.aw & m) && s.awc > order[u]}, ar{!atomic && write && (s.ar & m) && s.arc > order[u]};
						if(pw || pr || aw || ar) violate(RACE, "unsynchronised %s%s by thread %u (step %u) and %s%s by thread %u (step %u) of the same memory: %s", pw || pr ? "" : "atomic ", pw || aw ? "write" : "read", u + 1, pw ? s.ws : pr ? s.rs : s.as, atomic ? "atomic " : "", kind(write), t->id + 1, t->step, ph->describe(a).c_str());
					}
					if(shared) SIM_PROBE(shared_line);
					Seen & s{w->t[t->id]};
					const auto note{[&](u8 & bytes, u32 & clock, u32 & step) { if(clock != now) { bytes = 0; clock = now; } bytes |= m; step = t->step; }};
					if(atomic) { if(write) note(s.aw, s.awc, s.as); else note(s.ar, s.arc, s.as); } else if(write) note(s.w, s.wc, s.ws); else note(s.r, s.rc, s.rs);
				}
				a = stop;
			}
		}
		void touch(std::uintptr_t p, std::size_t n, bool write, bool preemptible) {
			Task * const t{me}; if(!t || !n || (p >= t->lo && p < t->hi)) return;
			if(preemptible) point(is_static(p));
			look(p, n, write, false);
		}
		std::array<u32, max_tasks> & sync_of(std::uintptr_t p) { if(auto e{sync_ids.find(p)}) return sync_vc[e->v]; sync_ids.insert(p, static_cast<u32>(sync_vc.size())); sync_vc.push_back({}); return sync_vc.back(); }
		void join(u32 * to, const u32 * from) { for(u32 u{0}; u < max_tasks; ++u) to[u] = std::max(to[u], from[u]); }
		void acquire(std::uintptr_t p) { if(me) join(vc[me->id], sync_of(p).data()); }
		void release(std::uintptr_t p) { if(!me) return; join(sync_of(p).data(), vc[me->id]); ++vc[me->id][me->id]; }
		bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
		bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
		void atomic_point() { if(!me) return; point(true); if(++me->spin > 64) { me->spin = 0; yield_now(); } }
		void atomic_load(std::uintptr_t p, std::size_t n, int mo) { // no preemption from here to the operation itself
			if(!me) return;
			join(seen_by_loads[me->id], sync_of(p).data()); if(acq(mo)) acquire(p);
			look(p, n, false, true);
		}
		void atomic_store(std::uintptr_t p, std::size_t n, int mo) {
			if(!me) return;
			look(p, n, true, true);
			if(rel(mo)) release(p); else join(sync_of(p).data(), at_fence[me->id]);
		}
		void fence(int mo) {
			if(!me) return;
			point(true);
			if(acq(mo)) join(vc[me->id], seen_by_loads[me->id]);
			if(mo == __ATOMIC_SEQ_CST) { acquire(1); release(1); }
			if(rel(mo)) { std::memcpy(at_fence[me->id], vc[me->id], sizeof vc[0]); ++vc[me->id][me->id]; }
		}
		// waits until f() holds
		template<typename F> void block_until(F f) {
			while(!f()) {
				if(!me) { violate(HANG, "waits for itself"); _Exit(42); }
				const int t{other(me->id)};
				if(t < 0) { violate(HANG, "the threads block each other"); _Exit(42); }
				switch_to(static_cast<u32>(t));
			}
		}
		void * thread_main(void * p) {
			Task & self{*static_cast<Task *>(p)};
			wait(&self.go);
			cur = ph->c; me = &self;
			try { ph->body(self.id); } catch(...) { violate(CRASH, "an exception left the task"); _Exit(42); }
			self.done = true;
			int t{other(self.id)}; ++ph->switched;
			save(*ph->c, self.fs);
			if(t >= 0) hand_over(task[t]); else sem_post(&main_go);
			wait(&self.go);      // thread exit (destructors of thread-local objects) happens one thread at a time
			return nullptr;
		}
		std::vector<Range> statics; std::vector<std::vector<char>> pristine;
		bool is_static(std::uintptr_t p) { for(const auto & r : statics) if(p >= r.lo && p < r.hi) return true; return false; }
	}

	int current() { return me ? static_cast<int>(me->id) : -1; }
	void step_begin(u32 step) { if(me) me->step = step; }
	void set_module(const std::vector<Range> & w) { statics = w; pristine.clear(); for(const auto & r : w) pristine.emplace_back(reinterpret_cast<const char *>(r.lo), reinterpret_cast<const char *>(r.hi)); }
	void reset_phase(Ctx & c) {
		for(std::size_t i{0}; i < statics.size(); ++i) std::memcpy(reinterpret_cast<void *>(statics[i].lo), pristine[i].data(), pristine[i].size());
		Ctx * const o{cur}; cur = &c; reset_heap(); cur = o;
	}
	void run(Phase & p) {
		if(!sems) { sems = true; sem_init(&main_go, 0, 0); for(auto & t : task) { sem_init(&t.go, 0, 0); t.stack = static_cast<char *>(mmap(nullptr, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); } words = static_cast<Word *>(mmap(nullptr, nwords * sizeof(Word), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); }
		ph = &p; p.points = p.switched = p.hots = 0; next_switch = next_hot = 0; ++gen; used = 0; sync_ids.clear(); sync_vc.clear(); mutexes.clear();
		for(u32 i{0}; i < max_tasks; ++i) for(u32 k{0}; k < max_tasks; ++k) vc[i][k] = i == k, seen_by_loads[i][k] = at_fence[i][k] = 0;
		FaultState f; save(*p.c, f); f.armed = f.track = false; f.fk = 0;
		for(u32 i{0}; i < p.n; ++i) {
			Task & t{task[i]}; t.id = i; t.done = t.waiting = false; t.fs = f; t.spin = 0; t.step = 0; t.own = 0; t.lo = reinterpret_cast<std::uintptr_t>(t.stack); t.hi = t.lo + stack_size;
			pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, t.stack, stack_size);
			if(pthread_create(&t.th, &a, thread_main, &t) != 0) { std::fprintf(stderr, "pthread_create failed\n"); _Exit(7); }
			pthread_attr_destroy(&a);
		}
		hand_over(task[p.first % p.n]); wait(&main_go);
		next_switch = p.switches.size(); next_hot = p.hot_switches.size();
		for(u32 i{0}; i < p.n; ++i) { running = i; sem_post(&task[i].go); pthread_join(task[i].th, nullptr); }
		load(*p.c, f); ph = nullptr;
	}
}

using namespace sim;
using namespace sim::thr;
#define API extern "C" __attribute__((visibility("default")))
static std::uintptr_t u(const volatile void * p) { return reinterpret_cast<std::uintptr_t>(const_cast<const void *>(p)); }
// ---- called by the uninstrumented glue of the module ----
API void ptl_thr_read(const void * p, std::size_t n) { touch(u(p), n, false, true); }
API void ptl_thr_write(void * p, std::size_t n) { touch(u(p), n, true, true); }
API void ptl_thr_acquire(void * p) { acquire(u(p)); }
API void ptl_thr_release(void * p) { release(u(p)); }
API void ptl_thr_yield() { if(me) yield_now(); }
API int ptl_thr_guard_acquire(unsigned char * g) { sync_point(); block_until([&] { return g[0] || !g[1]; }); if(g[0]) { acquire(u(g)); return 0; } acquire(u(g)); g[1] = 1; return 1; }
API void ptl_thr_guard_release(unsigned char * g, int done) { release(u(g)); g[1] = 0; if(done) g[0] = 1; }
static Mutex & mutex_of(void * m) { auto e{mutexes.find(u(m))}; if(!e) { mutexes.insert(u(m), Mutex{-1, 0}); e = mutexes.find(u(m)); } return e->v; }
// mode: 0 exclusive, 1 shared
API int ptl_thr_lock(void * m, int mode, int try_only) {
	if(!me) return 0;
	sync_point();
	const auto free{[&] { const Mutex & x{mutex_of(m)}; return x.owner < 0 && (mode || !x.readers); }};
	if(try_only && !free()) return EBUSY;
	block_until(free);
	Mutex & x{mutex_of(m)}; if(mode) ++x.readers; else x.owner = static_cast<int>(me->id);
	acquire(u(m)); return 0;
}
API int ptl_thr_unlock(void * m) { if(!me) return 0; Mutex & x{mutex_of(m)}; release(u(m)); if(x.owner >= 0) x.owner = -1; else if(x.readers) --x.readers; sync_point(); return 0; }

// ---- compiler instrumentation ----
#define RW(n) \
	API void __tsan_read##n(void * p) { touch(u(p), n, false, true); } \
	API void __tsan_write##n(void * p) { touch(u(p), n, true, true); } \
	API void __tsan_unaligned_read##n(void * p) { touch(u(p), n, false, true); } \
	API void __tsan_unaligned_write##n(void * p) { touch(u(p), n, true, true); } \
	API void __tsan_volatile_read##n(void * p) { touch(u(p), n, false, true); } \
	API void __tsan_volatile_write##n(void * p) { touch(u(p), n, true, true); } \
	API void __tsan_unaligned_volatile_read##n(void * p) { touch(u(p), n, false, true); } \
	API void __tsan_unaligned_volatile_write##n(void * p) { touch(u(p), n, true, true); } \
	API void __tsan_read_write##n(void * p) { touch(u(p), n, false, true); touch(u(p), n, true, true); } \
	API void __tsan_unaligned_read_write##n(void * p) { touch(u(p), n, false, true); touch(u(p), n, true, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
API void __tsan_read_range(void * p, unsigned long n) { touch(u(p), n, false, true); }
API void __tsan_write_range(void * p, unsigned long n) { touch(u(p), n, true, true); }
API void __tsan_vptr_read(void ** p) { touch(u(p), 8, false, true); }
API void __tsan_vptr_update(void ** p, void * v) { if(*p != v) touch(u(p), 8, true, true); else touch(u(p), 8, false, true); }
API void __tsan_func_entry(void *) {}
API void __tsan_func_exit() {}
API void __tsan_init() {}
API void __tsan_ignore_thread_begin() {}
API void __tsan_ignore_thread_end() {}
API void * __tsan_memcpy(void * d, const void * s, unsigned long n) { touch(u(s), n, false, true); touch(u(d), n, true, true); return std::memcpy(d, s, n); }
API void * __tsan_memmove(void * d, const void * s, unsigned long n) { touch(u(s), n, false, true); touch(u(d), n, true, true); return std::memmove(d, s, n); }
API void * __tsan_memset(void * d, int v, unsigned long n) { touch(u(d), n, true, true); return std::memset(d, v, n); }
#define ATOMIC_RMW(n, T, name, builtin) API T __tsan_atomic##n##_##name(volatile T * a, T v, int mo) { atomic_point(); atomic_load(u(a), sizeof(T), mo); atomic_store(u(a), sizeof(T), mo); return builtin(a, v, __ATOMIC_SEQ_CST); }
#define ATOMIC(n, T) \
	API T __tsan_atomic##n##_load(const volatile T * a, int mo) { atomic_point(); atomic_load(u(a), sizeof(T), mo); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	API void __tsan_atomic##n##_store(volatile T * a, T v, int mo) { atomic_point(); atomic_store(u(a), sizeof(T), mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	ATOMIC_RMW(n, T, exchange, __atomic_exchange_n) ATOMIC_RMW(n, T, fetch_add, __atomic_fetch_add) ATOMIC_RMW(n, T, fetch_sub, __atomic_fetch_sub) ATOMIC_RMW(n, T, fetch_and, __atomic_fetch_and) \
	ATOMIC_RMW(n, T, fetch_or, __atomic_fetch_or) ATOMIC_RMW(n, T, fetch_xor, __atomic_fetch_xor) ATOMIC_RMW(n, T, fetch_nand, __atomic_fetch_nand) \
	static bool cas##n(volatile T * a, T * e, T v, int mo, int fmo) { atomic_point(); if(__atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) { atomic_load(u(a), sizeof(T), mo); atomic_store(u(a), sizeof(T), mo); return true; } atomic_load(u(a), sizeof(T), fmo); return false; } \
	API int __tsan_atomic##n##_compare_exchange_strong(volatile T * a, T * e, T v, int mo, int fmo) { return cas##n(a, e, v, mo, fmo); } \
	API int __tsan_atomic##n##_compare_exchange_weak(volatile T * a, T * e, T v, int mo, int fmo) { return cas##n(a, e, v, mo, fmo); } \
	API T __tsan_atomic##n##_compare_exchange_val(volatile T * a, T e, T v, int mo, int fmo) { cas##n(a, &e, v, mo, fmo); return e; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned) ATOMIC(64, unsigned long)
API void __tsan_atomic_thread_fence(int mo) { fence(mo); }
API void __tsan_atomic_signal_fence(int) {}
