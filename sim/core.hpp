// Deterministic simulation core: plans, fault points, violation reporting, registries.
// Everything random is decided when a plan is generated from (seed, run); executing a plan draws nothing.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstddef>
#include <new>
#include <limits>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include <utility>
#include <iterator>
#include <algorithm>
#include <stdexcept>
#include <functional>
#include <type_traits>
#include <initializer_list>
#include <optional>
#include <variant>
#include <ostream>
#include <istream>

namespace sim {
	using u8 = std::uint8_t; using u16 = std::uint16_t; using u32 = std::uint32_t; using u64 = std::uint64_t; using i64 = std::int64_t;

	inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
	struct Rng {
		u64 s;
		explicit Rng(u64 seed) : s{seed} {}
		u64 next() { u64 z{s += 0x9e3779b97f4a7c15ull}; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
		u32 u() { return static_cast<u32>(next() >> 32); }
		u32 below(u32 n) { return n ? static_cast<u32>((next() >> 32) % n) : 0; }
		bool chance(u32 num, u32 den) { return below(den) < num; }
	};

	// ---- violation classes ----
	enum Cls : int { VALUE, ATOMIC, LIFETIME, MEMORY, CRASH, TERMINATE, HANG, PROMISE, NOFAIL, FORM, STREAM, DISPATCH, VIEW, ABI, OWNER, RACE, INTERFERE, WORK, ALIGN, SOURCE, NCLS };
	inline const char * const cls_name[]{"value","atomicity","lifetime","memory-ledger","crash","terminate","hang","capacity-promise","must-not-fail","malformed","stream","dispatch","view","abi","foreign-heap","race","interference","work","alignment","source"};
	constexpr u32 bit(Cls c) { return 1u << c; }

	// ---- fault kinds ----
	enum Fk : int { F_NONE, F_ALLOC, F_OOM, F_ELEM, F_ITER, F_CALL, F_STREAM, F_PREEMPT, NFK };
	inline const char * const fk_name[]{"none","alloc-kth","memory-exhausted","element-throws","iterator-throws","callee-throws","stream-fault","preemption"};

	struct Step { u32 op{0}; u32 fk{0}; u32 fat{0}; u32 a[6]{}; u32 task{0}; };
	struct Plan {
		u32 kind{0};          // which world
		u32 cfg[8]{};         // swarm configuration of the run
		u64 gseed{0};         // garbage pattern
		std::vector<Step> steps;
		std::vector<std::pair<u32,u32>> preempts; // (memory accesses until switch, target) - thread worlds only
		u64 before[4]{};       // seed, first run, stride, end: runs executed earlier in the same process (only when the failure needs them)
	};

	// thrown by instrumented user code
	struct Fault { int kind; u32 id; };

	// ---- open-addressing map keyed by address ----
	template<typename V>
	struct AddrMap {
		struct E { std::uintptr_t k{0}; V v{}; };
		E * t; std::size_t cap, n{0};
		explicit AddrMap(std::size_t c) : t{static_cast<E *>(std::calloc(c, sizeof(E)))}, cap{c} {}
		static std::size_t h(std::uintptr_t k) { k ^= k >> 17; return static_cast<std::size_t>(k * 0x9e3779b97f4a7c15ull >> 20); }
		E * find(std::uintptr_t k) { for(std::size_t i{h(k) & (cap - 1)};; i = (i + 1) & (cap - 1)) { if(t[i].k == k) return &t[i]; if(!t[i].k) return nullptr; } }
		bool insert(std::uintptr_t k, V v) {
			if(n * 2 > cap) grow();
			for(std::size_t i{h(k) & (cap - 1)};; i = (i + 1) & (cap - 1)) { if(t[i].k == k) return false; if(!t[i].k) { t[i].k = k; t[i].v = v; ++n; return true; } }
		}
		bool erase(std::uintptr_t k) {
			E * e{find(k)}; if(!e) return false;
			std::size_t i{static_cast<std::size_t>(e - t)}, j{i};
			for(;;) {
				j = (j + 1) & (cap - 1);
				if(!t[j].k) break;
				const std::size_t w{h(t[j].k) & (cap - 1)};
				if((i <= j) ? (i < w && w <= j) : (i < w || w <= j)) continue;
				t[i] = t[j]; i = j;
			}
			t[i].k = 0; --n; return true;
		}
		void grow() { E * o{t}; const std::size_t oc{cap}; cap *= 2; n = 0; t = static_cast<E *>(std::calloc(cap, sizeof(E))); for(std::size_t i{0}; i < oc; ++i) if(o[i].k) insert(o[i].k, o[i].v); std::free(o); }
		void clear() { if(n) { std::memset(static_cast<void *>(t), 0, cap * sizeof(E)); n = 0; } }
	};

	struct Block { std::size_t size; u32 kind; u32 step; u32 shift{0}; };
	enum BlockKind : u32 { B_MALLOC = 1, B_NEW = 2, B_NEWARR = 3, B_ALIGNED_NEW = 4 };
	inline const char * const block_kind_name[]{"?","malloc/calloc","new","new[]","aligned new"};

	constexpr std::size_t memory_limit{std::size_t{1} << 24}; // the simulated machine refuses larger blocks

	// ---- shared statistics (lives in a shared mapping, one per worker) ----
	#define SIM_PROBES(X) \
		X(grow) X(in_place) X(grow_refused) X(elem_throw_mid) X(iter_throw_mid) X(self_arg_grow) X(self_arg_in_place) X(self_move) X(self_swap) X(empty_erase) X(over_max) \
		X(op_under_oom) X(sso_to_heap) X(heap_to_sso) X(moved_from_use) X(swap_mixed_storage) X(full_capacity_op) X(promise_checked) \
		X(alt_change_failed) X(alt_same_assign) X(payload_throw_engaged) X(payload_throw_empty) X(bad_access) \
		X(agg_throw_ctor) X(agg_throw_assign) X(agg_throw_fill) \
		X(src_no_putback) X(src_eof_mid) X(src_throws) X(src_chunk1) X(sink_short) X(sink_throws) X(ws_skipped) \
		X(reentrant_call) X(rebind_in_call) X(target_changed) X(callee_threw) X(visitor_changed_value) X(nested_visit) X(dangling_avoided) X(view_sees_write) \
		X(cross_module_free) X(cross_module_grow) X(cross_module_fault) X(context_switch) X(conflict_free_run) X(shared_line)
	enum Probe : int {
		#define X(n) P_##n,
		SIM_PROBES(X)
		#undef X
		NPROBES
	};
	inline const char * const probe_name[]{
		#define X(n) #n,
		SIM_PROBES(X)
		#undef X
	};
	struct Stats {
		u64 runs_done_index, runs, steps, faults_configured[NFK], faults_fired[NFK], outcome_ok, outcome_failed, foreign_aborts, nontrivial, sim_events;
		u64 probe[NPROBES];
		u64 foreign[NCLS], known[16];
		// progress / verdict
		volatile u64 cur_run; volatile u32 cur_step; volatile u32 cur_op;
		volatile int violated; int cls; u64 vrun; u32 vstep; u32 vop; char detail[512]; u64 vhash;
		volatile u64 last_hash; volatile u32 last_nontrivial; volatile u32 last_faults;
		volatile int done;
		u8 cover[1 << 16];
	};

	bool op_counts(const char * name);            // does an anomaly in this call count for the property?
	struct Ctx;
	extern thread_local Ctx * cur;
	struct Ctx {
		u32 mask{0};           // violation classes that count for the property being decided
		bool armed{false};     // inside the code under test: fault points count
		bool track{false};     // allocations go to the ledger
		bool trace{false};
		bool counts{true};     // anomalies in the current call count for the property
		u32 step_no{0};
		int fk{0}; u32 fat{0};
		u32 cnt[NFK]{};        // fault points met in this step, by kind
		bool fired[NFK]{};
		bool refused_big{false};
		u32 fault_id{0};
		u32 run_fired{0};
		u64 hash{0};
		u64 gseed{0}, gcount{0};
		i64 live_elems{0};
		u32 elem_ops{0};
		u64 asked{0};          // bytes requested from the heap by the code under test in this run
		AddrMap<u32> live{1 << 13};
		AddrMap<Block> heap{1 << 12};
		Stats * st{nullptr};
		const char * opname{""};
		std::string tracebuf;

		void begin_run(const Plan & p) {
			armed = track = false; counts = true; step_no = 0; hash = mix(0x5eed, p.kind); gseed = p.gseed; gcount = 0; live_elems = 0; run_fired = 0; elem_ops = 0; asked = 0;
			live.clear(); heap.clear(); fk = 0; fault_id = 0;
		}
		void rename(const char * name) { opname = name; counts = op_counts(name); }
		void begin_step(const Step & s, u32 no, const char * name) {
			step_no = no; fk = static_cast<int>(s.fk); fat = s.fat; rename(name); refused_big = false;
			std::memset(cnt, 0, sizeof cnt); std::memset(fired, 0, sizeof fired);
			if(st) { st->cur_step = no; st->cur_op = s.op; ++st->steps; if(s.fk) ++st->faults_configured[s.fk]; }
			log(s.op * 131 + s.fk);
		}
		void log(u64 v) { hash = mix(hash, v); }
		void note(const char * fmt, ...) __attribute__((format(printf, 2, 3)));
		bool any_fired() const { for(int i{1}; i < NFK; ++i) if(fired[i]) return true; return false; }
		// a fault point of the given kind; true = fail now
		bool point(int kind) {
			if(!armed) return false;
			const u32 c{++cnt[kind]};
			bool hit{false};
			if(kind == F_ALLOC) hit = (fk == F_ALLOC && c == fat) || (fk == F_OOM && c >= std::max(fat, u32{1}));
			else hit = fk == kind && c == fat;
			if(hit) { const int k{kind == F_ALLOC ? fk : kind}; fired[k] = true; ++run_fired; fault_id = step_no * 1000 + c; if(st) ++st->faults_fired[k]; }
			return hit;
		}
		u8 garbage() { return static_cast<u8>(mix(gseed, ++gcount)); }
	};



	[[gnu::format(printf, 2, 3)]]
	void violate(Cls c, const char * fmt, ...);   // counts for this property: records and ends the process; otherwise it is only counted
	[[noreturn]] void abandon_run();              // ends the current run after an anomaly that leaves model and object out of step
	struct Abandon {};
	void probe(Probe p);                          // "rare condition was hit"
	#define SIM_PROBE(name) ::sim::probe(::sim::P_##name)

	// RAII scopes; the compiler takes malloc and free for functions that do not look at these flags
	inline void settle() { asm volatile("" ::: "memory"); }
	struct Arm { Ctx & c; bool a, t; explicit Arm(Ctx & c) : c{c}, a{c.armed}, t{c.track} { c.armed = true; c.track = true; settle(); } ~Arm() { settle(); c.armed = a; c.track = t; settle(); } };
	struct Track { Ctx & c; bool a, t; explicit Track(Ctx & c) : c{c}, a{c.armed}, t{c.track} { c.armed = false; c.track = true; settle(); } ~Track() { settle(); c.armed = a; c.track = t; settle(); } };
	struct Off { Ctx & c; bool a, t; explicit Off(Ctx & c) : c{c}, a{c.armed}, t{c.track} { c.armed = false; c.track = false; settle(); } ~Off() { settle(); c.armed = a; c.track = t; settle(); } };

	enum class Out { ok, fault, alloc, length, range, bad_optional, bad_variant, other };
	inline const char * const out_name[]{"ok","injected-exception","bad_alloc","length_error","out_of_range","bad_optional_access","bad_variant_access","other-exception"};

	struct Result { Out out; int fkind{0}; u32 fid{0}; bool ok() const { return out == Out::ok; } };

	// run code of the library with fault points armed
	template<typename F>
	Result sut(Ctx & c, F && f) {
		Result r{Out::ok};
		const bool a{c.armed}, t{c.track};
		try {
			Arm arm{c};
			f();
		} catch(const Fault & e) { r = {Out::fault, e.kind, e.id};
		} catch(const std::bad_optional_access &) { r = {Out::bad_optional};
		} catch(const std::bad_variant_access &) { r = {Out::bad_variant};
		} catch(const std::bad_alloc &) { r = {Out::alloc};
		} catch(const std::length_error &) { r = {Out::length};
		} catch(const std::out_of_range &) { r = {Out::range};
		} catch(...) { r = {Out::other}; }
		c.armed = a; c.track = t;
		c.log(static_cast<u64>(r.out));
		if(c.st) ++(r.ok() ? c.st->outcome_ok : c.st->outcome_failed);
		if(c.trace) c.note("    -> %s", out_name[static_cast<int>(r.out)]);
		return r;
	}

	// is this outcome a legal failure report? limit = the request itself exceeds what the machine can give
	inline bool legal_failure(Ctx & c, const Result & r, bool over_limit) {
		switch(r.out) {
			case Out::ok: return true;
			case Out::fault: if(c.fired[r.fkind] && r.fid == c.fault_id) return true; break;
			case Out::alloc: if(c.fired[F_ALLOC] || c.fired[F_OOM] || c.refused_big || over_limit) return true; break;
			case Out::length: if(over_limit) return true; break;
			default: break;
		}
		return false;
	}

	// a documented refusal; building the exception's message may itself run out of memory
	inline bool refused_with(Ctx & c, const Result & r, Out want) { return r.out == want || (r.out == Out::alloc && (c.fired[F_ALLOC] || c.fired[F_OOM])); }

	// ---- worlds ----
	struct OpInfo { const char * name; u32 weight; };
	struct World {
		virtual ~World() {}
		virtual void step(Ctx &, const Step &) =0;
		virtual void finish(Ctx &) =0;
		virtual u32 abs_state() const { return 0; }   // coarse abstraction of the state, for coverage only
	};
	struct Mode;
	struct WorldKind {
		const char * name;
		const OpInfo * ops; u32 nops;
		u32 faults;                  // fault kinds that make sense
		World * (*make)(Ctx &, const Plan &);
		void (*run)(Ctx &, const Plan &){nullptr};                        // worlds that schedule their steps themselves
		void (*gen)(Rng &, Plan &, const Mode &){nullptr};                // extra generation (tasks, preemptions)
	};
	std::vector<WorldKind> & world_kinds();
	struct RegisterWorld { explicit RegisterWorld(const WorldKind & k) { world_kinds().push_back(k); } };

	// property configuration: what is generated and what counts
	struct Mode {
		const char * id;
		u32 mask;                    // classes that count
		const char * kinds;          // comma separated name prefixes of the worlds used
		u32 fault_pct;               // share of steps with a fault (upper end of swarm choice)
		u32 faults;                  // enabled fault kinds
		u32 flags;
		u64 quick_runs, thorough_runs;
		const char * focus;          // comma separated op-name prefixes preferred by the generator (may be empty)
		const char * only;           // comma separated op-name prefixes the generator is restricted to (empty: all)
		const char * count{""};      // comma separated op-name prefixes in which an anomaly counts (empty: all)
	};

	enum ModeFlag : u32 { M_PROMISE = 1, M_HUGE = 2, M_ALIAS = 4, M_OOM_BURST = 8, M_TRANSFER = 16 };
	extern const Mode modes[];
	extern const int nmodes;
	extern u32 mode_flags;           // flags of the mode being executed (part of every plan: cfg[7])

	void end_of_run_leak_check(Ctx &);
	void reset_heap();

	// seam used by the allocator wrappers
	void * heap_alloc(std::size_t n, u32 kind, bool zero, std::size_t align = 0); // nullptr = refused
	void heap_free(void * p, u32 kind, std::size_t size_hint);

	template<typename T>
	void dirty(Ctx & c, T * p) { auto b{reinterpret_cast<unsigned char *>(p)}; const u8 g{static_cast<u8>(mix(c.gseed, 77) | 1)}; for(std::size_t i{0}; i < sizeof(T); ++i) b[i] = static_cast<u8>(g + i * 37); }
}
