// Worlds "thr:own" (threads act on distinct, adjacent objects) and "thr:shared" (threads read the same objects, or write different elements of one).
// Every task is first executed alone; then all tasks run under a seeded schedule and must observe the same.
#include "thr.hpp"
#include "modapi.hpp"
#include <dlfcn.h>
#include <link.h>
#include <unistd.h>

namespace sim {
	using namespace modapi;
	void * heap_alloc(std::size_t, u32, bool, std::size_t); void heap_free(void *, u32, std::size_t);
	namespace {
		const Api * api{nullptr}; thr::Range image{0, 0};
		void * host_alloc(int, std::size_t n, int k) { return heap_alloc(n, static_cast<u32>(k), false, 0); }
		void host_free(int, void * p, int k, std::size_t n) { heap_free(p, static_cast<u32>(k), n); }
		std::size_t host_size(void * p) { const auto e{cur->heap.find(reinterpret_cast<std::uintptr_t>(p))}; return e ? e->v.size : 0; }
		const Host host{&host_alloc, &host_free, &host_size};
		struct Found { const char * base; std::vector<thr::Range> writable; };
		int on_object(dl_phdr_info * i, std::size_t, void * p) {
			Found & f{*static_cast<Found *>(p)};
			if(reinterpret_cast<const char *>(i->dlpi_addr) != f.base) return 0;
			thr::Range relro{0, 0};
			for(int k{0}; k < i->dlpi_phnum; ++k) { const auto & h{i->dlpi_phdr[k]}; if(h.p_type == PT_GNU_RELRO) { const std::uintptr_t page{4096}; relro = {(i->dlpi_addr + h.p_vaddr) / page * page, (i->dlpi_addr + h.p_vaddr + h.p_memsz) / page * page}; } }
			for(int k{0}; k < i->dlpi_phnum; ++k) {
				const auto & h{i->dlpi_phdr[k]}; if(h.p_type != PT_LOAD) continue;
				thr::Range r{i->dlpi_addr + h.p_vaddr, i->dlpi_addr + h.p_vaddr + h.p_memsz};
				if(!image.lo) image = r; image.lo = std::min(image.lo, r.lo); image.hi = std::max(image.hi, r.hi);
				if(!(h.p_flags & PF_W)) continue;
				if(r.lo < relro.hi && r.hi > relro.lo) r.lo = std::max(r.lo, relro.hi);
				if(r.lo < r.hi) f.writable.push_back(r);
			}
			return 1;
		}
		struct Load { Load() {
			char dir[512]; const ssize_t n{readlink("/proc/self/exe", dir, sizeof dir - 1)}; dir[n > 0 ? n : 0] = 0; char * s{std::strrchr(dir, '/')}; if(s) *s = 0;
			const std::string f{std::string{dir} + "/tasks.so"}; void * h{dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL)};
			if(!h) { std::fprintf(stderr, "%s\n", dlerror()); _exit(7); }
			api = reinterpret_cast<const Api * (*)()>(dlsym(h, "ptl_sim_module"))(); api->init(&host, 1);
			if(api->ntypes != ntypes) _exit(7);
			link_map * m{nullptr}; dlinfo(h, RTLD_DI_LINKMAP, &m); Found fo{reinterpret_cast<const char *>(m->l_addr), {}}; dl_iterate_phdr(on_object, &fo); thr::set_module(fo.writable);
		} } load_now;

		constexpr u32 NO{3}; // objects per task (the last one is the spare slot)
		using Obs = std::vector<u64>;
		struct Referents { char chars[37]; int ints[9]; Rec rec; };
		enum Op : u32 { REBUILD, CTOR_COPY, CTOR_MOVE, ASSIGN_COPY, ASSIGN_MOVE, SWAP_, CHANGE, MORE_, PEEK_, COMPARE_, READ_, NOPS };
		const OpInfo op_list[]{{"rebuild",7},{"ctor_copy",7},{"ctor_move",6},{"assign_copy",8},{"assign_move",7},{"swap",7},{"change",16},{"more",12},{"peek",12},{"compare",4},{"read",4}};
		enum SOp : u32 { S_PEEK, S_COMPARE, S_READ, S_COPY, S_OWN, S_CHANGE, S_MORE, S_NOPS };
		const OpInfo shared_list[]{{"peek",30},{"compare",6},{"read",6},{"copy_from",10},{"own_element",14},{"setup_change",10},{"setup_more",8}};

		Result call(Ctx & c, int ti, void * o, Call & k) {
			int code{OK};
			Result r{sut(c, [&] { code = api->types[ti].run(o, k); })};
			switch(code) { case OK: break; case NO_MEMORY: r.out = Out::alloc; break; case TOO_LONG: r.out = Out::length; break; case OUT_OF_RANGE: r.out = Out::range; break; default: r.out = Out::other; }
			return r;
		}
		void observe(Obs & o, int ti, const void * obj) { int out[300]; const int n{api->types[ti].read(obj, out, 300)}; o.push_back(static_cast<u64>(n)); for(int i{0}; i < n && i < 300; ++i) o.push_back(static_cast<u64>(out[i])); }
		std::vector<int> contents(int ti, const void * obj) { int out[300]; const int n{api->types[ti].read(obj, out, 300)}; return n < 0 ? std::vector<int>{-99} : std::vector<int>(out, out + std::min(n, 300)); }

		// a set of objects of one type with the things references refer to
		struct Kit {
			int ti{0}; unsigned char * slot[4]{}; u32 n{0}; char * chars{nullptr}; int * ints{nullptr}; Rec * rec{nullptr}; int next{1}; bool live[4]{};
			int fresh() { next = next % 97 + 1; return next % 8 ? next : 0; }
			const Desc & d() const { return descs[ti]; }
			void referents(u32 salt) { for(u32 i{0}; i < 37; ++i) chars[i] = static_cast<char>(1 + (i * 5 + salt * 11) % 120); for(int i{0}; i < 9; ++i) ints[i] = fresh(); std::memset(static_cast<void *>(rec), 0, sizeof *rec); const int v{fresh()}; rec->tag = static_cast<char>(v); rec->half = static_cast<short>(v * 3); rec->v = v; }
			// fills a call that constructs an object
			void describe(Call & c, int * vals, u32 a, u32 b) {
				u32 n_{0};
				switch(d().fam) {
					case VEC: n_ = a % 4 == 0 ? 0 : b % 15; for(u32 i{0}; i < n_; ++i) vals[i] = fresh(); break;
					case STR: { n_ = a % 5 == 0 ? 0 : a % 5 == 1 ? 19 + b % 6 : b % 60; const int x{fresh()}; for(u32 i{0}; i < n_; ++i) vals[i] = 1 + (x * 7 + static_cast<int>(i)) % 120; break; }
					case OPT: if(a % 3) vals[n_++] = fresh(); break;
					case VAR: vals[n_++] = static_cast<int>(a % d().n); vals[n_++] = fresh(); break;
					case ARR: case TUP: for(; n_ < d().n; ++n_) vals[n_] = fresh(); break;
					case BITS: for(; n_ < d().n; ++n_) vals[n_] = static_cast<int>(mix(a, n_) & 1); break;
					case SREF: c.at = chars + a % 18; n_ = b % 20; break;
					case AREF: case CREF: c.at = ints + a % 4; n_ = b % 6; break;
					case OREF: c.at = a % 4 ? ints + a % 9 : nullptr; break;
					case VREF: c.alt = a % 3; c.at = c.alt == 1 ? static_cast<void *>(rec) : ints + b % 9; break;
					case FREF: c.alt = a % 3; break;
				}
				c.op = CONSTRUCT; c.vals = vals; c.n = n_; c.a = a / 4; c.b = b; c.v = 0;
			}
			void build(u32 i, u32 a, u32 b) { Call k{}; int vals[128]; describe(k, vals, a, b); if(api->types[ti].run(slot[i], k) != OK) { std::fprintf(stderr, "setup failed\n"); _exit(7); } live[i] = true; }
			void destroy(u32 i) { if(live[i]) api->types[ti].destroy(slot[i]); live[i] = false; }
		};
		struct Arena {
			alignas(64) unsigned char b[1 << 13]; std::size_t n{0}; struct Tag { std::size_t end; u32 owner, slot; }; std::vector<Tag> tags;
			void reset() { std::memset(b, 0x5a, sizeof b); n = 0; tags.clear(); }
			void * take(std::size_t size, std::size_t align, u32 owner, u32 slot) { n = (n + align - 1) / align * align; void * p{b + n}; n += size; tags.push_back({n, owner, slot}); return p; }
			std::string describe(std::uintptr_t p, Ctx & c) const {
				char t[160]; const auto lo{reinterpret_cast<std::uintptr_t>(b)};
				if(p >= lo && p < lo + n) { for(const auto & g : tags) if(p - lo < g.end) { if(g.slot < 90) std::snprintf(t, sizeof t, "inside object %u of thread %u", g.slot, g.owner + 1); else std::snprintf(t, sizeof t, "inside the values referred to by thread %u", g.owner + 1); return t; } }
				if(p >= image.lo && p < image.hi) return "static data of the library";
				for(std::size_t i{0}; i < c.heap.cap; ++i) if(c.heap.t[i].k && p >= c.heap.t[i].k && p < c.heap.t[i].k + c.heap.t[i].v.size) { std::snprintf(t, sizeof t, "byte %zu of a heap block of %zu bytes", static_cast<std::size_t>(p - c.heap.t[i].k), c.heap.t[i].v.size); return t; }
				return "other memory (released, thread-local or stack)";
			}
		};
		Arena & arena() { static Arena a; return a; }

		// preemptions of a concurrent run: by access number, and (every other one, if the isolated runs met any) by number among the accesses to statics, atomics and locks
		struct Cuts { std::vector<std::pair<u64, u32>> all, hot; };
		Cuts positions(const Plan & p, u64 total, u64 hots) {
			if(cur->st) cur->st->faults_configured[F_PREEMPT] += p.preempts.size();
			Cuts r; for(const auto & q : p.preempts) if(hots && q.first / 8 % 4) r.hot.push_back({1 + q.first / 32 % hots, q.second}); else r.all.push_back({1 + q.first % (total ? total : 1), q.second});
			const auto by{[](const auto & a, const auto & b) { return a.first < b.first; }}; std::stable_sort(r.all.begin(), r.all.end(), by); std::stable_sort(r.hot.begin(), r.hot.end(), by); return r;
		}
		struct Mark { u32 step; std::size_t at; };
		void compare_logs(const Plan & p, u32 t, const Obs & alone, const Obs & got, const std::vector<Mark> & marks, const OpInfo * ops, const char * type) {
			if(alone == got) return;
			std::size_t i{0}; while(i < alone.size() && i < got.size() && alone[i] == got[i]) ++i;
			u32 step{0}; for(const auto & m : marks) if(m.at <= i) step = m.step;
			violate(INTERFERE, "thread %u observed something else than alone (step %u, %s on %s): %llu instead of %llu", t + 1, step, step && step <= p.steps.size() ? ops[p.steps[step - 1].op].name : "?", type, i < got.size() ? static_cast<unsigned long long>(got[i]) : 0, i < alone.size() ? static_cast<unsigned long long>(alone[i]) : 0);
		}
		void cover(Ctx & c, u32 world, u32 ti, u32 op, bool switched, bool fault) { u64 h{mix(mix(mix(world, ti), op), static_cast<u64>(switched) * 2 + fault)}; if(c.st) { ++c.st->sim_events; c.st->cover[(h >> 3) & 0xffff] |= static_cast<u8>(1u << (h & 7)); } }

		void say(Ctx & c, bool alone, u32 t, u32 no, const char * op, const char * type, const Step & s) { if(c.trace) c.note("%s thread %u step %u: %s on %s%s%s", alone ? "alone:" : "concurrent:", t + 1, no, op, type, s.fk ? ", fault " : "", s.fk ? fk_name[s.fk] : ""); }
		// ---- distinct objects ----
		void own_task(Ctx & c, const Plan & p, u32 t, Kit & k, Obs & o, std::vector<Mark> * marks) {
			u32 no{0};
			for(const auto & s : p.steps) {
				++no; const u32 op{s.op % NOPS}; const u32 T{2 + p.cfg[0] % 2}; if(s.task % T != t) continue;
				c.begin_step(s, no, op_list[op].name); c.counts = true; thr::step_begin(no); say(c, marks, t, no, op_list[op].name, k.d().name, s);
				if(marks) marks->push_back({no, o.size()});
				const u32 i{s.a[0] % 2}, j{1 - i};
				Call q{}; int vals[128]; q.a = s.a[4]; q.b = s.a[5]; q.v = k.fresh(); q.other = k.slot[j]; Result r{Out::ok};
				const auto replace{[&] { r = call(c, k.ti, k.slot[2], q); if(r.ok()) { api->types[k.ti].destroy(k.slot[i]); std::swap(k.slot[i], k.slot[2]); } }};
				switch(op) {
					case REBUILD: k.describe(q, vals, s.a[4], s.a[5]); replace(); break;
					case CTOR_COPY: q.op = COPY_CTOR; replace(); break;
					case CTOR_MOVE: q.op = MOVE_CTOR; replace(); break;
					case ASSIGN_COPY: q.op = COPY_ASSIGN; if(s.a[1] % 8 == 0) q.other = k.slot[i]; r = call(c, k.ti, k.slot[i], q); break;
					case ASSIGN_MOVE: q.op = MOVE_ASSIGN; r = call(c, k.ti, k.slot[i], q); break;
					case SWAP_: q.op = SWAP; r = call(c, k.ti, k.slot[i], q); break;
					case CHANGE: q.op = MUTATE; q.alt = q.a % 3; r = call(c, k.ti, k.slot[i], q); break;
					case MORE_: q.op = MORE; r = call(c, k.ti, k.slot[i], q); break;
					case PEEK_: q.op = PEEK; r = call(c, k.ti, k.slot[i], q); break;
					case COMPARE_: q.op = COMPARE; r = call(c, k.ti, k.slot[i], q); break;
					default: break;
				}
				c.fk = 0;
				o.push_back(static_cast<u64>(r.out)); if(op == PEEK_ || op == COMPARE_) { o.push_back(static_cast<u64>(q.out[0])); o.push_back(static_cast<u64>(q.out[1])); }
				{ Track tr{c}; observe(o, k.ti, k.slot[i]); if(op != PEEK_) observe(o, k.ti, k.slot[j]); }
			}
		}
		void setup_own(const Plan & p, u32 T, Kit * kits, u32 only) {
			Arena & a{arena()}; a.reset();
			for(u32 t{0}; t < T; ++t) { kits[t] = Kit{}; kits[t].ti = static_cast<int>(p.cfg[1] % 3 ? p.cfg[2] % ntypes : p.cfg[2 + t] % ntypes); }
			for(u32 i{0}; i < NO; ++i) for(u32 t{0}; t < T; ++t) kits[t].slot[i] = static_cast<unsigned char *>(a.take(api->types[kits[t].ti].size, api->types[kits[t].ti].align, t, i));
			for(u32 t{0}; t < T; ++t) kits[t].chars = static_cast<char *>(a.take(37, 1, t, 90));
			for(u32 t{0}; t < T; ++t) { kits[t].ints = static_cast<int *>(a.take(36, 4, t, 90)); }
			for(u32 t{0}; t < T; ++t) kits[t].rec = static_cast<Rec *>(a.take(sizeof(Rec), alignof(Rec), t, 90));
			for(u32 t{0}; t < T; ++t) { kits[t].referents(t); if(only == ~0u || only == t) for(u32 i{0}; i < 2; ++i) kits[t].build(i, p.cfg[5] + i * 7 + t, p.cfg[6] / 8 + i * 3 + t); }
		}
		void run_own(Ctx & c, const Plan & p) {
			const u32 T{2 + p.cfg[0] % 2}; Kit kits[3]; Obs alone[3], got[3]; std::vector<Mark> marks[3]; u64 total{0}, hots{0};
			for(u32 t{0}; t < T; ++t) {
				thr::reset_phase(c); c.counts = false; setup_own(p, T, kits, t);
				thr::Phase ph{&c, 1, [&](u32) { own_task(c, p, t, kits[t], alone[t], &marks[t]); }, false, {}, 0, {}}; thr::run(ph); total += ph.points; hots += ph.hots;
				for(u32 i{0}; i < 2; ++i) { kits[t].live[i] = true; kits[t].destroy(i); }
			}
			thr::reset_phase(c); c.counts = true; setup_own(p, T, kits, ~0u);
			const Cuts cuts{positions(p, total, hots)}; thr::Phase ph{&c, T, [&](u32 t) { own_task(c, p, t, kits[t], got[t], nullptr); }, true, cuts.all, p.cfg[0] / 8 % T, [&](std::uintptr_t a) { return arena().describe(a, c); }}; ph.hot_switches = cuts.hot;
			thr::run(ph);
			c.log(ph.switched); c.rename("end-of-run"); if(ph.switched > T) { SIM_PROBE(context_switch); ++c.elem_ops; }
			for(u32 t{0}; t < T; ++t) { for(u64 x : got[t]) c.log(x); compare_logs(p, t, alone[t], got[t], marks[t], op_list, descs[kits[t].ti].name); }
			SIM_PROBE(conflict_free_run);
			for(u32 t{0}; t < T; ++t) { for(u32 i{0}; i < 2; ++i) kits[t].destroy(i); for(const auto & s : p.steps) if(s.task % T == t) cover(c, 1, static_cast<u32>(kits[t].ti), s.op, ph.switched > T, s.fk != 0); }
			thr::reset_phase(c);
		}
		void gen_own(Rng & r, Plan & p, const Mode &) {
			for(auto & s : p.steps) s.task = r.below(6);
			// every other run is "hot": the threads do mostly the same thing, so that brief windows in it meet
			if(p.steps.size() > 1 && r.chance(1, 2)) {
				const Step h{p.steps[r.below(static_cast<u32>(p.steps.size()))]}; const u32 same{r.below(3)};
				for(auto & s : p.steps) if(r.chance(3, 4)) { s.op = h.op; s.a[4] = h.a[4]; if(same == 0) s.a[5] = h.a[5]; if(same != 2) s.a[0] = h.a[0]; }
				if(p.steps.size() > 14 && r.chance(2, 3)) p.steps.resize(6 + r.below(8));
			}
			const u32 n{r.chance(1, 6) ? 0 : r.chance(1, 2) ? 1 + r.below(3) : 2 + r.below(14)}; for(u32 i{0}; i < n; ++i) p.preempts.push_back({r.u(), r.below(3)});
		}

		// ---- shared objects ----
		void shared_task(Ctx & c, const Plan & p, u32 t, u32 T, Kit & sh, unsigned char * spare, Obs & o, std::vector<Mark> * marks, bool own) {
			u32 no{0}; int fresh{static_cast<int>(t) * 30 + 1};
			for(const auto & s : p.steps) {
				++no; u32 op{s.op % S_NOPS}; if(op >= S_CHANGE || s.task % T != t) continue;
				c.begin_step(s, no, shared_list[op].name); c.counts = true; thr::step_begin(no); say(c, marks, t, no, own ? "own_element" : shared_list[op].name, sh.d().name, s);
				if(marks) marks->push_back({no, o.size()});
				u32 i{s.a[0] % 2}, j{s.a[1] % 4 == 0 ? i : 1 - i};
				Call q{}; q.a = s.a[4]; q.b = s.a[5]; q.v = fresh = fresh % 97 + 1; q.other = sh.slot[j]; Result r{Out::ok};
				if(own) { q.op = OWN; q.n = t; q.alt = T; i = 0; r = call(c, sh.ti, sh.slot[0], q); }
				else switch(op) {
					case S_PEEK: case S_OWN: q.op = PEEK; r = call(c, sh.ti, sh.slot[i], q); break;
					case S_COMPARE: q.op = COMPARE; r = call(c, sh.ti, sh.slot[i], q); break;
					case S_COPY: q.op = COPY_CTOR; q.other = sh.slot[i]; r = call(c, sh.ti, spare, q); if(r.ok()) { c.fk = 0; Track tr{c}; observe(o, sh.ti, spare); api->types[sh.ti].destroy(spare); } break;
					default: { Track tr{c}; observe(o, sh.ti, sh.slot[i]); }
				}
				c.fk = 0;
				o.push_back(static_cast<u64>(r.out)); if(op != S_COPY && op != S_READ) { o.push_back(static_cast<u64>(q.out[0])); o.push_back(static_cast<u64>(q.out[1])); }
			}
		}
		void setup_shared(const Plan & p, u32 T, Kit & sh, unsigned char ** spare) {
			Arena & a{arena()}; a.reset(); sh = Kit{}; sh.ti = static_cast<int>(p.cfg[2] % ntypes); const Type & ty{api->types[sh.ti]};
			for(u32 i{0}; i < 2; ++i) sh.slot[i] = static_cast<unsigned char *>(a.take(ty.size, ty.align, 9, i));
			for(u32 t{0}; t < T; ++t) spare[t] = static_cast<unsigned char *>(a.take(ty.size, ty.align, t, 50));
			sh.chars = static_cast<char *>(a.take(37, 1, 9, 90)); sh.ints = static_cast<int *>(a.take(36, 4, 9, 90)); sh.rec = static_cast<Rec *>(a.take(sizeof(Rec), alignof(Rec), 9, 90)); sh.referents(1);
			for(u32 i{0}; i < 2; ++i) sh.build(i, p.cfg[5] + i * 7, p.cfg[6] / 8 + i * 3);
			for(const auto & s : p.steps) if(const u32 op{s.op % S_NOPS}; op >= S_CHANGE) { Call q{}; q.a = s.a[4]; q.b = s.a[5]; q.v = sh.fresh(); q.alt = q.a % 3; const u32 i{s.a[0] % 2}; q.other = sh.slot[1 - i]; q.op = op == S_CHANGE ? MUTATE : MORE; ty.run(sh.slot[i], q); }
		}
		void run_shared(Ctx & c, const Plan & p) {
			const u32 T{2 + p.cfg[0] % 2}; const bool own{p.cfg[1] % 3 == 0}; Kit sh; unsigned char * spare[3]; Obs alone[3], got[3]; std::vector<Mark> marks[3]; u64 total{0}, hots{0}; std::vector<int> before[2], after[3];
			for(u32 t{0}; t < T; ++t) {
				thr::reset_phase(c); c.counts = false; setup_shared(p, T, sh, spare);
				if(t == 0) for(u32 i{0}; i < 2; ++i) before[i] = contents(sh.ti, sh.slot[i]);
				thr::Phase ph{&c, 1, [&](u32) { shared_task(c, p, t, T, sh, spare[t], alone[t], &marks[t], own); }, false, {}, 0, {}}; thr::run(ph); total += ph.points; hots += ph.hots;
				after[t] = contents(sh.ti, sh.slot[0]); for(u32 i{0}; i < 2; ++i) sh.destroy(i);
			}
			thr::reset_phase(c); c.counts = true; setup_shared(p, T, sh, spare);
			const Cuts cuts{positions(p, total, hots)}; thr::Phase ph{&c, T, [&](u32 t) { shared_task(c, p, t, T, sh, spare[t], got[t], nullptr, own); }, true, cuts.all, p.cfg[0] / 8 % T, [&](std::uintptr_t a) { return arena().describe(a, c); }}; ph.hot_switches = cuts.hot;
			thr::run(ph);
			c.log(ph.switched); c.rename("end-of-run"); if(ph.switched > T) { SIM_PROBE(context_switch); ++c.elem_ops; }
			const char * name{descs[sh.ti].name};
			for(u32 t{0}; t < T; ++t) { for(u64 x : got[t]) c.log(x); compare_logs(p, t, alone[t], got[t], marks[t], shared_list, name); }
			for(u32 i{0}; i < 2; ++i) {
				const auto now{contents(sh.ti, sh.slot[i])};
				if(!own || i == 1) { if(!own && now != before[i]) violate(INTERFERE, "read-only use changed shared object %u (%s)", i, name); continue; }
				for(std::size_t k{0}; k < now.size(); ++k) { const auto & e{after[k % T]}; if(now.size() != e.size() || now[k] != e[k]) { violate(INTERFERE, "element %zu of %s is %d, its only writer (thread %zu) left %d", k, name, now[k], k % T + 1, k < e.size() ? e[k] : -1); break; } }
			}
			SIM_PROBE(conflict_free_run);
			for(u32 i{0}; i < 2; ++i) sh.destroy(i);
			for(const auto & s : p.steps) cover(c, own ? 3 : 2, static_cast<u32>(sh.ti), s.op, ph.switched > T, s.fk != 0);
			thr::reset_phase(c);
		}
		void gen_shared(Rng & r, Plan & p, const Mode & m) { gen_own(r, p, m); }
		World * no_world(Ctx &, const Plan &) { return nullptr; }
		RegisterWorld r1{WorldKind{"thr:own", op_list, NOPS, (1u << F_ALLOC) | (1u << F_OOM), no_world, run_own, gen_own}};
		RegisterWorld r2{WorldKind{"thr:shared", shared_list, S_NOPS, (1u << F_ALLOC) | (1u << F_OOM), no_world, run_shared, gen_shared}};
	}
}
