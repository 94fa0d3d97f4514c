// Worlds "mod:<type>": objects of one type acted upon by modules that were built separately, against a plain model; every module must read every object the same way.
#include "core.hpp"
#include "modapi.hpp"
#include "modhost.hpp"
#include <dlfcn.h>
#include <unistd.h>

namespace sim {
	using namespace modapi;
	namespace {
		constexpr int NM{4}; const char * const mod_file[NM]{"mod_gcc.so", "mod_clang.so", "mod_debug.so", "mod_pinned.so"};
		const Api * api[NM]{};
		int acting{0}; // module whose code runs
		void * host_alloc(int m, std::size_t n, int k) { return heap_alloc(n, static_cast<u32>(m * 16 + k), false, 0); }
		void host_free(int m, void * p, int k, std::size_t n) { if(m != acting) SIM_PROBE(cross_module_free); heap_free(p, static_cast<u32>(m * 16 + k), n); }
		std::size_t host_size(void * p) { const auto e{cur->heap.find(reinterpret_cast<std::uintptr_t>(p))}; return e ? e->v.size : 0; }
		const Host host{&host_alloc, &host_free, &host_size};
		void load() {
			if(api[0]) return;
			char dir[512]; const ssize_t n{readlink("/proc/self/exe", dir, sizeof dir - 1)}; dir[n > 0 ? n : 0] = 0; char * s{std::strrchr(dir, '/')}; if(s) *s = 0;
			for(int m{0}; m < NM; ++m) {
				const std::string f{std::string{dir} + "/" + mod_file[m]}; void * h{dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL)};
				if(!h) { std::fprintf(stderr, "%s\n", dlerror()); _exit(7); }
				api[m] = reinterpret_cast<const Api * (*)()>(dlsym(h, "ptl_sim_module"))(); api[m]->init(&host, m);
				if(api[m]->ntypes != ntypes) { std::fprintf(stderr, "module %s has another type list\n", f.c_str()); _exit(7); }
			}
		}
		struct Load { Load() { load(); } } load_now;
	}
	using Vals = std::vector<int>;

	template<int TI>
	struct ModWorld final : World {
		static constexpr u32 NS{3}, zone{64}; static constexpr int limit{2000}; static constexpr Desc D{descs[TI]};
		static constexpr bool is_ref{D.fam >= SREF};
		std::size_t size{0}; unsigned char * buf[NS]{}; Vals mo[NS]; struct Ref { const void * at{nullptr}; u32 n{0}, alt{0}; int mod{0}; } ref[NS]; int maker[NS]{}; int next_val{1};
		char chars[40]; int ints[10]; Rec rec;
		enum Op : u32 { REBUILD, CTOR_COPY, CTOR_MOVE, ASSIGN_COPY, ASSIGN_MOVE, SWAP_, CHANGE, CHANGE2, COMPARE_, OWNER_WRITE, SELF_COPY, INSPECT, CHANGE3, NOPS };
		static const OpInfo * ops() { static const OpInfo o[]{{"rebuild",8},{"ctor_copy",6},{"ctor_move",7},{"assign_copy",9},{"assign_move",9},{"swap",9},{"change",16},{"change_more",10},{"compare",3},{"owner_write",D.fam >= SREF ? 8u : 0u},{"self_copy_assign",2},{"inspect",9},{"change_third",is_ref ? 0u : 6u}}; static_assert(sizeof o / sizeof *o == NOPS); return o; }
		int fresh() { next_val = next_val % 97 + 1; return next_val % 8 ? next_val : 0; }
		const Type & ty(int m) const { return api[m]->types[TI]; }
		unsigned char * object(u32 i) const { return buf[i] + zone; }
		unsigned char * raw(Ctx & c) { auto p{static_cast<unsigned char *>(std::malloc(size + 2 * zone))}; std::memset(p, 0xa5, size + 2 * zone); std::memset(p + zone, static_cast<int>(mix(c.gseed, 3) & 0xff), size); return p; }
		static std::string text(const Vals & v) { std::string s; for(std::size_t i{0}; i < v.size() && i < 24; ++i) { if(i) s += ' '; s += std::to_string(v[i]); } return "(" + std::to_string(v.size()) + ": " + s + ")"; }
		// what a reference must show now
		Vals shown(u32 i) const {
			const Ref & r{ref[i]};
			switch(D.fam) {
				case SREF: { const char * p{static_cast<const char *>(r.at)}; return Vals(p, p + r.n); }
				case AREF: case CREF: { const int * p{static_cast<const int *>(r.at)}; return Vals(p, p + r.n); }
				case OREF: return r.at ? Vals{*static_cast<const int *>(r.at)} : Vals{};
				case VREF: return {static_cast<int>(r.alt), r.alt == 1 ? static_cast<const Rec *>(r.at)->v : *static_cast<const int *>(r.at)};
				case FREF: return {target_result(r.mod, r.alt, 1), target_result(r.mod, r.alt, 10)};
				default: return mo[i];
			}
		}
		// new contents for a rebuilt object
		void describe(Call & c, Vals & v, Ref & r, u32 a, u32 b, int m) {
			switch(D.fam) {
				case VEC: for(u32 i{0}, n{a % 4 == 0 ? 0 : a % 41 == 1 ? b % 150 : b % 15}; i < n; ++i) v.push_back(fresh()); break;
				case STR: { const u32 n{a % 5 == 0 ? 0 : a % 5 == 1 ? 19 + b % 6 : a % 41 == 2 ? b % 300 : b % 60}; const int x{fresh()}; for(u32 i{0}; i < n; ++i) v.push_back(b % 3 == 0 && (static_cast<u32>(x) + i) % 5 == 0 ? 0 : static_cast<signed char>(x * 7 + static_cast<int>(i))); break; }
				case OPT: if(a % 3) v.push_back(fresh()); break;
				case VAR: v = {static_cast<int>(a % D.n), fresh()}; break;
				case ARR: case TUP: for(u32 i{0}; i < D.n; ++i) v.push_back(fresh()); break;
				case BITS: for(u32 i{0}; i < D.n; ++i) v.push_back(static_cast<int>(mix(a, i) & 1)); break;
				case SREF: { const u32 o{a % 20}; r = {chars + o, b % 20, 0, m}; break; }
				case AREF: case CREF: { const u32 o{a % 5}; r = {ints + o, b % 6, 0, m}; break; }
				case OREF: r = {a % 4 ? ints + a % 10 : nullptr, 0, 0, m}; break;
				case VREF: r.alt = a % 3; r.at = r.alt == 1 ? static_cast<const void *>(&rec) : ints + b % 10; r.mod = m; break;
				case FREF: r = {nullptr, 0, a % 3, m}; break;
			}
			c.vals = v.data(); c.n = is_ref ? r.n : static_cast<unsigned>(v.size()); c.at = r.at; c.alt = r.alt; c.a = a / 4; c.b = b;
		}
		explicit ModWorld(Ctx & c, const Plan & p) {
			for(std::size_t i{0}; i < sizeof chars; ++i) chars[i] = static_cast<char>(i % 9 == 4 ? 0 : i * 7); for(int i{0}; i < 10; ++i) ints[i] = fresh(); set_rec(fresh());
			size = ty(0).size;
			for(int m{1}; m < NM; ++m) if(ty(m).size != ty(0).size || ty(m).align != ty(0).align) { violate(ABI, "%s has size %zu alignment %zu in module %s, size %zu alignment %zu in module %s", D.name, ty(0).size, ty(0).align, mod_file[0], ty(m).size, ty(m).align, mod_file[m]); abandon_run(); }
			for(u32 i{0}; i < NS; ++i) { buf[i] = raw(c); Call k{}; k.op = CONSTRUCT; Vals v; maker[i] = static_cast<int>(p.cfg[i] / 256 % NM); describe(k, v, ref[i], p.cfg[i], p.cfg[i] / 16, maker[i]); Track t{c}; acting = maker[i]; ty(maker[i]).run(object(i), k); mo[i] = v; }
		}
		void set_rec(int v) { std::memset(&rec, 0, sizeof rec); rec.tag = static_cast<char>(v); rec.half = static_cast<short>(v * 3); rec.v = v; }
		u32 abs_state() const override { u32 r{0}; for(u32 i{0}; i < NS; ++i) r = (r * 4 + static_cast<u32>(maker[i])) * 4 + static_cast<u32>(mo[i].empty() ? 0 : mo[i].size() < 8 ? 1 : mo[i].size() < 24 ? 2 : 3); return r; }
		bool read(Ctx & c, u32 i, int m, Vals & v) { int out[limit]; acting = m; int n; { Track t{c}; n = ty(m).read(object(i), out, limit); } if(n < 0) return false; v.assign(out, out + std::min(n, limit)); return true; }
		void check(Ctx & c) {
			for(u32 i{0}; i < NS; ++i) {
				for(u32 k{0}; k < zone; ++k) if(buf[i][k] != 0xa5 || buf[i][zone + size + k] != 0xa5) { violate(ABI, "%s wrote outside object %u (of %zu bytes)", c.opname, i, size); abandon_run(); }
				const Vals w{shown(i)}; for(int x : w) c.log(static_cast<u64>(x)); c.log(w.size());
				for(int m{0}; m < NM; ++m) { Vals v; if(!read(c, i, m, v)) { violate(ABI, "module %s finds object %u malformed (after %s)", mod_file[m], i, c.opname); abandon_run(); } if(v != w) { violate(ABI, "module %s reads object %u as %s, expected %s (after %s)", mod_file[m], i, text(v).c_str(), text(w).c_str(), c.opname); abandon_run(); } }
			}
			for(int i{0}; i < 10; ++i) c.log(static_cast<u64>(ints[i]));
		}
		Result call(Ctx & c, int m, u32 i, Call & k, unsigned char * at = nullptr) {
			acting = m; int code{OK}; if(maker[i] != m) ++c.elem_ops;
			Result r{sut(c, [&] { code = ty(m).run(at ? at : object(i), k); })};
			switch(code) { case OK: break; case NO_MEMORY: r.out = Out::alloc; break; case TOO_LONG: r.out = Out::length; break; case OUT_OF_RANGE: r.out = Out::range; break; default: r.out = Out::other; }
			if(!r.ok() && !legal_failure(c, r, false)) { violate(ABI, "%s by module %s reported %s although nothing failed", c.opname, mod_file[m], out_name[static_cast<int>(r.out)]); abandon_run(); }
			return r;
		}
		void kill(Ctx & c, u32 i, int m) { acting = m; { Track t{c}; ty(m).destroy(object(i)); } std::memset(buf[i], 0xdd, size + 2 * zone); std::free(buf[i]); buf[i] = nullptr; }
		// contents after a failure or in a moved-from object: whatever it is now, provided that all modules agree
		void settle(Ctx & c, u32 i) { if constexpr(!is_ref) { Vals v; if(!read(c, i, 3, v)) { violate(ABI, "module %s finds object %u malformed (after %s)", mod_file[3], i, c.opname); abandon_run(); } mo[i] = v; } }
		void after(u32 i, const Call & k, const Vals & om) {
			Vals & m{mo[i]}; const auto pos{m.begin() + (m.empty() ? 0 : k.b % (m.size() + 1))}; const int v{k.v};
			switch(D.fam) {
				case VEC: switch(k.a % vec_ops) { case 0: case 1: m.push_back(v); break; case 2: m.insert(pos, v); break; case 3: m.resize(k.b % 20, D.fill); break; case 4: m.resize(k.b % 25, v); break; case 5: m.clear(); break; case 6: case 7: break; case 8: if(!m.empty()) m.pop_back(); break; case 9: m.insert(pos, k.b % 5, v); break; case 10: if(!m.empty()) m.erase(m.begin() + k.b % m.size()); break; case 11: m.insert(pos, om.begin(), om.end()); break; case 12: m = Vals{om}; } break;
				case STR: switch(k.a % str_ops) { case 0: case 1: m.push_back(v); break; case 2: m.insert(pos, v); break; case 3: m.resize(k.b % 50, v); break; case 4: m.insert(m.end(), k.b % 30, v); break; case 5: m.clear(); break; case 6: case 7: break; case 8: if(!m.empty()) m.pop_back(); break; case 9: m.insert(pos, k.b % 30, v); break; case 10: if(!m.empty()) m.erase(m.begin() + k.b % m.size()); break; case 11: m.insert(m.end(), om.begin(), om.end()); break; case 12: m.assign(k.b % 40, v); break; case 13: m.erase(m.begin(), m.begin() + static_cast<std::ptrdiff_t>(std::min<std::size_t>(k.b % 30, m.size()))); } break;
				case OPT: switch(k.a % opt_ops) { case 0: case 1: case 2: m.assign(1, v); break; case 3: m.clear(); break; case 4: if(!m.empty()) m[0] = v; } break;
				case VAR: if(k.a % var_ops == 3) m[1] = v; else m = {static_cast<int>(k.b % D.n), v}; break;
				case ARR: switch(k.a % arr_ops) { case 0: m.assign(D.n, v); break; case 1: m[k.b % D.n] = v; break; default: m[k.b % D.n] = om[k.b % D.n]; } break;
				case TUP: m[k.b % 3] = k.a % tup_ops ? om[k.b % 3] : v; break;
				case BITS: switch(k.a % bit_ops) { case 0: m.assign(D.n, 1); break; case 1: for(int & x : m) x = !x; break; case 2: m[k.b % D.n] = !m[k.b % D.n]; break; case 3: for(u32 n{0}; n < D.n; ++n) m[n] |= om[n]; break; default: { const u32 d{k.b % 4}; m.insert(m.begin(), d, 0); m.resize(D.n); } } break;
				case SREF: { Ref & r{ref[i]}; const u32 n{r.n ? k.b % (r.n + 1) : 0}; if(k.a % 2) r.at = static_cast<const char *>(r.at) + n; r.n -= n; break; }
				case AREF: if(ref[i].n) const_cast<int *>(static_cast<const int *>(ref[i].at))[k.b % ref[i].n] = v; break;
				case CREF: if(ref[i].n) ref[i].n = k.b % (ref[i].n + 1); break;
				case OREF: if(ref[i].at) *const_cast<int *>(static_cast<const int *>(ref[i].at)) = v; break;
				case VREF: if(ref[i].alt == 0) *const_cast<int *>(static_cast<const int *>(ref[i].at)) = v; else if(ref[i].alt == 1) set_rec(v); break;
				case FREF: break;
			}
		}
		void step(Ctx & c, const Step & s) override { step_impl(c, s); check(c); }
		void step_impl(Ctx & c, const Step & s) {
			if constexpr(D.fam == VEC || D.fam == STR) for(u32 n{0}; n < NS; ++n) if(mo[n].size() > limit / 4) { Call k{}; k.op = CONSTRUCT; acting = maker[n]; { Track t{c}; unsigned char * q{raw(c)}; if(ty(maker[n]).run(q + zone, k) == OK) { kill(c, n, maker[n]); buf[n] = q; mo[n].clear(); } else std::free(q); } } // keep the objects readable in one go
			const u32 i{s.a[0] % NS}; u32 j{s.a[1] % NS}; if(i == j) j = (j + 1) % NS; const int m{static_cast<int>(s.a[2] % NM)}, m2{static_cast<int>(s.a[3] % NM)};
			Call k{}; k.other = object(j); k.a = s.a[4]; k.b = s.a[5]; k.v = fresh();
			if(c.trace) c.note("    %s: x%u by %s, x%u, values %u %u %d", D.name, i, mod_file[m], j, k.a, k.b, k.v);
			Result r{Out::ok};
			const auto replace{[&](bool moving) { // a new object built by m replaces object i, which m2 destroys
				unsigned char * q{raw(c)}; const u32 other{maker[j] != m}; r = call(c, m, i, k, q + zone);
				if(r.ok()) { kill(c, i, m2); buf[i] = q; maker[i] = m; if(other && moving) maker[i] = maker[j]; return true; } std::free(q); return false; }};
			switch(s.op) {
				case REBUILD: { k.op = CONSTRUCT; Vals v; Ref f; describe(k, v, f, s.a[4], s.a[5], m); if(replace(false)) { mo[i] = v; ref[i] = f; } return; }
				case CTOR_COPY: k.op = COPY_CTOR; if(replace(false)) { mo[i] = Vals{mo[j]}; ref[i] = Ref{ref[j]}; } return;
				case CTOR_MOVE: { k.op = MOVE_CTOR; const Vals v{mo[j]}; if(replace(true)) { mo[i] = v; ref[i] = Ref{ref[j]}; settle(c, j); SIM_PROBE(moved_from_use); } return; }
				case ASSIGN_COPY: k.op = COPY_ASSIGN; r = call(c, m, i, k); if(r.ok()) { mo[i] = Vals{mo[j]}; ref[i] = Ref{ref[j]}; maker[i] = m; } else settle(c, i); return;
				case ASSIGN_MOVE: { k.op = MOVE_ASSIGN; const Vals v{mo[j]}; r = call(c, m, i, k); if(r.ok()) { mo[i] = v; ref[i] = Ref{ref[j]}; maker[i] = maker[j]; settle(c, j); } else { settle(c, i); settle(c, j); } return; }
				case SWAP_: k.op = SWAP; r = call(c, m, i, k); if(r.ok()) { std::swap(mo[i], mo[j]); std::swap(ref[i], ref[j]); std::swap(maker[i], maker[j]); } else { settle(c, i); settle(c, j); } return;
				case CHANGE: case CHANGE2: { k.op = MUTATE; const Vals om{mo[j]}; if(D.fam == FREF) k.alt = k.a % 3; const bool cross{maker[i] != m}; r = call(c, m, i, k);
					if(r.ok()) { if(cross) SIM_PROBE(cross_module_grow); if(D.fam == FREF) ref[i] = {nullptr, 0, k.alt, m}; else after(i, k, om); } else settle(c, i); return; }
				case COMPARE_: { k.op = COMPARE; r = call(c, m, i, k); if(r.ok() && k.out[0] >= 0) { const bool eq{shown(i) == shown(j)}; if(k.out[0] != eq || k.out[1] == eq) violate(ABI, "module %s compares %s with %s as %s", mod_file[m], text(shown(i)).c_str(), text(shown(j)).c_str(), k.out[0] ? "equal" : "different"); } return; }
				case OWNER_WRITE: { const int v{k.v}; switch(k.a % 3) { case 0: chars[k.b % sizeof chars] = static_cast<char>(v % 8 == 0 ? 0 : v * 3); break; case 1: ints[k.b % 10] = v; break; default: set_rec(v); } return; }
				case INSPECT: { // the pinned release reads the same two objects the same way
					if((D.fam == STR && k.a % 20 == 16) || (D.fam == BITS && k.a % 10 == 4) || (D.fam == SREF && k.a % 10 == 8)) ++k.a; // hash values are not part of the contract
					k.op = PEEK; Call p{k}; int code; { acting = 3; Track t{c}; code = ty(3).run(object(i), p); } r = call(c, m, i, k);
					if(r.ok() && (code != OK || k.out[0] != p.out[0] || k.out[1] != p.out[1])) violate(ABI, "module %s inspects x%u differently from the pinned release (kind %u)", mod_file[m], i, k.a);
					return; }
				case CHANGE3: { // the pinned release makes the same change to copies
					k.op = MORE; unsigned char * q[2]{raw(c), raw(c)}; Call p{k}; p.other = q[1] + zone; int code; Vals w[2]; bool good{true};
					{ acting = 3; Track t{c}; Call cc{}; cc.op = COPY_CTOR; cc.other = object(i); ty(3).run(q[0] + zone, cc); cc.other = object(j); ty(3).run(q[1] + zone, cc); code = ty(3).run(q[0] + zone, p);
					  for(int n{0}; n < 2; ++n) { int out[limit]; const int l{ty(3).read(q[n] + zone, out, limit)}; if(l < 0) good = false; else w[n].assign(out, out + std::min(l, limit)); ty(3).destroy(q[n] + zone); std::free(q[n]); } }
					r = call(c, m, i, k); if(!r.ok() || code != OK || !good) { settle(c, i); settle(c, j); } else { mo[i] = w[0]; mo[j] = w[1]; }
					return; }
				case SELF_COPY: k.op = COPY_ASSIGN; k.other = object(i); r = call(c, m, i, k); if(!r.ok()) settle(c, i); return;
			}
		}
		void finish(Ctx & c) override { for(u32 i{0}; i < NS; ++i) kill(c, i, static_cast<int>((static_cast<u32>(maker[i]) + 1 + i) % NM)); }
		static World * make(Ctx & c, const Plan & p) { return new ModWorld(c, p); }
	};
	template<typename> struct Reg;
	template<int... Is> struct Reg<std::integer_sequence<int, Is...>> {
		Reg() { static std::string names[]{(std::string{"mod:"} + descs[Is].name)...}; (world_kinds().push_back(WorldKind{names[Is].c_str(), ModWorld<Is>::ops(), ModWorld<Is>::NOPS, (1u << F_ALLOC) | (1u << F_OOM), &ModWorld<Is>::make}), ...); }
	};
	static Reg<std::make_integer_sequence<int, ntypes>> reg;
}
