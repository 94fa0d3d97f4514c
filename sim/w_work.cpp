// Worlds "work:<type>": what a call costs, in simulated units (blocks requested, bytes requested, element operations), against what it was asked to do.
// The bounds are several times what any sensible implementation needs; a failed call is repeated until memory and elements recover.
#include "core.hpp"
#include <iostream>
#include <sstream>
#include <cmath>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#define SIM_WITH_STRING
#include "elems.hpp"
#include <ptl/vector.hpp>
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/tuple.hpp>
#include <ptl/bitset.hpp>
#include <ptl/function_ref.hpp>

namespace sim {
	// what one call (or burst of calls) used
	struct Meter {
		Ctx & c; u32 blocks0, elems0, fired0; u64 asked0;
		explicit Meter(Ctx & c) : c{c}, blocks0{c.cnt[F_ALLOC]}, elems0{c.elem_ops}, fired0{c.run_fired}, asked0{c.asked} {}
		u32 blocks() const { return c.cnt[F_ALLOC] - blocks0; }
		u32 elems() const { return c.elem_ops - elems0; }
		u64 asked() const { return c.asked - asked0; }
		u32 failures() const { return c.run_fired - fired0; }
		void at_most(const char * what, std::size_t size, std::size_t n, double b, double e, double bytes) const {
			const double k{1.0 + failures()}; // every injected failure may cost another attempt
			static const bool show{std::getenv("SIM_WORK") != nullptr};
			if(show) { Off off{c}; FILE * f{std::fopen("/tmp/work.txt", "a")}; std::fprintf(f, "%s %s %.3f %.3f %.3f\n", c.opname, what, b ? blocks() / (b * k) : blocks() ? 99 : 0, e ? elems() / (e * k) : elems() ? 99 : 0, bytes ? static_cast<double>(asked()) / (bytes * k) : 0); std::fclose(f); }
			if(blocks() > b * k) violate(WORK, "%s%s requested %u blocks, expected at most %.0f (size %zu, argument %zu)", c.opname, what, blocks(), b * k, size, n);
			if(elems() > e * k) violate(WORK, "%s%s took %u element operations, expected at most %.0f (size %zu, argument %zu)", c.opname, what, elems(), e * k, size, n);
			if(static_cast<double>(asked()) > bytes * k) violate(WORK, "%s%s requested %llu bytes, expected at most %.0f (size %zu, argument %zu)", c.opname, what, static_cast<unsigned long long>(asked()), bytes * k, size, n);
		}
	};

	template<typename E>
	struct WorkVec final : World {
		using V = ptl::vector<E>; using L = El<E>;
		static constexpr u32 NS{2};
		Slot<V> sl[NS];
		enum Op : u32 { PUSH_BURST, RANGE_BURST, COUNT_BURST, INPUT, INSERT, INSERT_RANGE, ERASE, POP_BURST, CLEAR, ASSIGN, ASSIGN_COUNT, RESIZE, RESERVE, SHRINK, COPY, COPY_ASSIGN, MOVE, MOVE_ASSIGN, SWAP, ACCESS, COMPARE, RELEASE, MIXED_BURST, NOPS };
		static const OpInfo * ops() { static const OpInfo o[]{{"push_burst",10},{"range_burst",6},{"count_burst",5},{"append_input",4},{"insert",6},{"insert_range",5},{"erase",6},{"pop_burst",3},{"clear",2},{"assign",5},{"assign_count",4},{"resize",5},{"reserve",4},{"shrink",3},{"copy",3},{"copy_assign",4},{"move",3},{"move_assign",3},{"swap",3},{"access",4},{"compare",3},{"release",3},{"mixed_burst",5}}; static_assert(sizeof o / sizeof *o == NOPS); return o; }
		WorkVec(Ctx & c, const Plan & p) { for(u32 i{0}; i < NS; ++i) { sl[i].p = Slot<V>::raw(c); Track t{c}; new(static_cast<void *>(sl[i].p)) V; const u32 n{p.cfg[i] % 3 ? p.cfg[i] % 40 : p.cfg[i] % 300}; for(u32 k{0}; k < n; ++k) sl[i]->push_back(L::make(static_cast<int>(k))); } }
		u32 abs_state() const override { u32 r{0}; for(auto & s : sl) { const auto n{s->size()}, cap{s->capacity()}; u32 lg{0}; while((std::size_t{1} << lg) < n) ++lg; r = r * 64 + lg * 4 + (n == cap ? 0 : n * 2 < cap ? 1 : 2); } return r; }
		static double bytes(std::size_t n) { return static_cast<double>(sizeof(E)) * (6.0 * static_cast<double>(n) + 96); }
		static double grow_blocks(std::size_t from, std::size_t to) { return 3 * std::log2((static_cast<double>(to) + 8) / (static_cast<double>(from) + 8)) + 4; }
		static std::ptrdiff_t D(std::size_t k) { return static_cast<std::ptrdiff_t>(k); }
		template<typename F> bool again(Ctx & c, F && f) { for(int i{0}; i < 3; ++i) { const u32 before{c.run_fired}; const auto r{sut(c, f)}; if(r.ok()) return true; if(c.run_fired == before && !c.refused_big) { violate(WORK, "%s gave %s although nothing failed any more", c.opname, out_name[static_cast<int>(r.out)]); abandon_run(); } if(c.fk == F_OOM) c.fk = 0; } return false; }
		void step(Ctx & c, const Step & s) override {
			Off off{c};
			const u32 i{s.a[0] % NS}; V & v{*sl[i]}; V & w{*sl[1 - i]};
			if(v.size() > 6000) { sut(c, [&] { V t; t.swap(v); }); return; }
			const std::size_t size{v.size()}, cap{v.capacity()}, other{w.size()}, pos{s.a[2] % (size + 1)};
			const std::size_t n{s.a[3] % 4 == 0 ? s.a[3] % 700 : s.a[3] % 3 == 0 ? s.a[3] % 60 : s.a[3] % 12};
			std::vector<E> src; struct Free { std::vector<E> & v; ~Free() { Off o{*cur}; std::vector<E>{}.swap(v); } } fr{src};
			const auto source{[&](std::size_t k) { src.reserve(k); for(std::size_t q{0}; q < k; ++q) { Track t{c}; E e(L::make(static_cast<int>(q))); Off o2{c}; src.push_back(std::move(e)); } }};
			if(c.trace) c.note("    v%u size=%zu cap=%zu pos=%zu n=%zu", i, size, cap, pos, n);
			const double S{static_cast<double>(size)}, N{static_cast<double>(n)}, T{static_cast<double>(size - pos)};
			switch(s.op) {
				case PUSH_BURST: case MIXED_BURST: {
					source(1); Meter all{c}; std::size_t top{size};
					for(std::size_t k{0}; k < n; ++k) {
						Meter one{c}; const std::size_t sz{v.size()}; const bool fits{sz < v.capacity()};
						if(s.op == MIXED_BURST && sz && k % 3 == 2) { again(c, [&] { v.pop_back(); }); one.at_most(" (pop)", sz, 1, 0, 16, 0); continue; }
						if(!again(c, [&] { switch((s.a[4] + k) % 4) { case 0: v.push_back(static_cast<const E &>(src[0])); break; case 1: v.emplace_back(static_cast<const E &>(src[0])); break; case 2: v.emplace(v.end(), static_cast<const E &>(src[0])); break; default: v.insert(v.end(), static_cast<const E &>(src[0])); } })) break;
						top = std::max(top, v.size());
						if(fits) one.at_most(" within the capacity", sz, 1, 0, 32, 0); else one.at_most(" growing", sz, 1, 1, 8 * static_cast<double>(sz) + 32, bytes(sz + 1));
					}
					all.at_most(" (all of it)", size, n, grow_blocks(size, top), 48 * static_cast<double>(n + 1) + 24 * static_cast<double>(size), 4 * bytes(top)); return; }
				case RANGE_BURST: case COUNT_BURST: {
					const std::size_t k{1 + s.a[4] % 7}; source(k); Meter all{c}; std::size_t done{0};
					for(std::size_t q{0}; q < n; q += k) {
						Meter one{c}; const std::size_t sz{v.size()}; const bool fits{k <= v.capacity() - sz};
						if(!again(c, [&] { if(s.op == COUNT_BURST) v.insert(v.end(), k, static_cast<const E &>(src[0])); else if(s.a[5] % 2) v.insert(v.end(), src.data(), src.data() + k); else v.insert(v.end(), FwdIt<E>{src.data()}, FwdIt<E>{src.data() + k}); })) break;
						done += k; const double K{static_cast<double>(k)};
						if(fits) one.at_most(" within the capacity", sz, k, 0, 32 * K + 16, 0); else one.at_most(" growing", sz, k, 1, 8 * static_cast<double>(sz) + 32 * K + 16, bytes(sz + k));
					}
					all.at_most(" (all of it)", size, done, grow_blocks(size, size + done), 64 * static_cast<double>(done + 1) + 24 * static_cast<double>(size), 4 * bytes(size + done)); return; }
				case INPUT: { source(n); Meter m{c}; const std::size_t before{v.size()}; bool ok{false}; for(int q{0}; q < 3 && !ok; ++q) { const E * cu{src.data()}; const auto r{sut(c, [&] { v.insert(v.begin() + D(pos), InIt<E>{&cu, src.data() + n}, InIt<E>{}); })}; ok = r.ok(); if(c.fk == F_OOM) c.fk = 0; }
					if(ok) m.at_most("", before, n, grow_blocks(0, n) + 2, 32 * (S + N) + 32, 4 * bytes(size + n)); return; }
				case INSERT: case INSERT_RANGE: { const std::size_t k{s.op == INSERT ? 1 : n}; const double K{static_cast<double>(k)}; source(k); const bool fits{k <= cap - size}; Meter m{c};
					if(again(c, [&] { if(s.op == INSERT) { if(s.a[5] % 2) v.insert(v.begin() + D(pos), static_cast<const E &>(src[0])); else v.emplace(v.begin() + D(pos), static_cast<const E &>(src[0])); } else v.insert(v.begin() + D(pos), src.data(), src.data() + k); })) { if(fits) m.at_most(" within the capacity", size, k, 0, 32 * (T + K) + 32, 0); else m.at_most(" growing", size, k, 1, 8 * S + 32 * K + 32, bytes(size + k)); } return; }
				case ERASE: { const std::size_t k{s.a[3] % (size - pos + 1)}; Meter m{c}; if(again(c, [&] { if(k == 1) v.erase(v.begin() + D(pos)); else v.erase(v.begin() + D(pos), v.begin() + D(pos + k)); })) m.at_most("", size, k, 0, k ? 12 * T + 16 : 16, 0); return; }
				case POP_BURST: for(std::size_t k{0}; k < n && v.size(); ++k) { Meter m{c}; again(c, [&] { v.pop_back(); }); m.at_most("", v.size(), 1, 0, 16, 0); } return;
				case CLEAR: { Meter m{c}; again(c, [&] { v.clear(); }); m.at_most("", size, 0, 0, 8 * S + 8, 0); return; }
				case ASSIGN: { source(n); Meter m{c}; if(again(c, [&] { if(s.a[5] % 2) v.assign(src.data(), src.data() + n); else v.assign(FwdIt<E>{src.data()}, FwdIt<E>{src.data() + n}); })) m.at_most("", size, n, 1, 32 * (S + N) + 16, bytes(n)); return; }
				case ASSIGN_COUNT: { source(1); Meter m{c}; if(again(c, [&] { v.assign(n, static_cast<const E &>(src[0])); })) m.at_most("", size, n, 1, 32 * (S + N) + 16, bytes(n)); return; }
				case RESIZE: { const std::size_t k{s.a[3] % (2 * size + 20)}; source(1); Meter m{c}; const double d{k > size ? static_cast<double>(k - size) : static_cast<double>(size - k)}; if(again(c, [&] { if(s.a[5] % 2) v.resize(k); else v.resize(k, static_cast<const E &>(src[0])); })) { if(k <= cap) m.at_most(" within the capacity", size, k, 0, 24 * d + 16, 0); else m.at_most(" growing", size, k, 1, 24 * d + 8 * S + 16, bytes(k)); } return; }
				case RESERVE: { const std::size_t k{cap + s.a[3] % 100}; Meter m{c}; if(again(c, [&] { v.reserve(k); })) m.at_most("", size, k, k > cap ? 1 : 0, k > cap ? 8 * S + 16 : 0, bytes(k)); return; }
				case SHRINK: { Meter m{c}; if(again(c, [&] { v.shrink_to_fit(); })) m.at_most("", size, 0, 1, 8 * S + 16, bytes(size)); return; }
				case COPY: { Meter m{c}; Slot<V> t; if(again(c, [&] { V x(static_cast<const V &>(v)); })) m.at_most("", size, 0, 1, 16 * S + 16, bytes(size)); return; }
				case COPY_ASSIGN: { Meter m{c}; if(again(c, [&] { w = static_cast<const V &>(v); })) m.at_most("", other, size, 1, 32 * (S + static_cast<double>(other)) + 16, bytes(size)); return; }
				case MOVE: { Meter m{c}; again(c, [&] { V x(std::move(v)); V y(std::move(x)); w.swap(y); }); m.at_most("", size, other, 0, 8 * static_cast<double>(other) + 8, 0); return; }
				case MOVE_ASSIGN: { Meter m{c}; again(c, [&] { w = std::move(v); }); m.at_most("", other, size, 0, 8 * static_cast<double>(other) + 8, 0); return; }
				case SWAP: { Meter m{c}; again(c, [&] { v.swap(w); swap(v, w); }); m.at_most("", size, other, 0, 8, 0); return; }
				case ACCESS: { Meter m{c}; std::size_t x{0}; again(c, [&] { const V & k{v}; x += k.size() + k.capacity() + k.empty() + static_cast<std::size_t>(k.end() - k.begin()); if(size) { x += reinterpret_cast<std::uintptr_t>(&k.front()) + reinterpret_cast<std::uintptr_t>(&v.back()) + reinterpret_cast<std::uintptr_t>(&v[size / 2]) + reinterpret_cast<std::uintptr_t>(&k.at(size - 1)); } }); m.at_most("", size, 0, 0, 0, 0); (void)x; return; }
				case COMPARE: { Meter m{c}; const double M{static_cast<double>(std::min(size, other))}; again(c, [&] { const V & a{v}, & b{w}; bool x{a == b}; x ^= a != b; x ^= a < b; x ^= a > b; x ^= a <= b; x ^= a >= b; (void)x; }); m.at_most("", size, other, 0, 48 * M + 48, 0); return; }
				default: { Meter m{c}; again(c, [&] { V t(std::move(v)); }); m.at_most("", size, 0, 0, 8 * S + 8, 0); return; }
			}
		}
		void finish(Ctx & c) override { for(auto & x : sl) x.destroy(c); }
		static World * make(Ctx & c, const Plan & p) { return new WorkVec(c, p); }
		static WorldKind kind(const char * name) { return WorldKind{name, ops(), NOPS, (1u << F_ALLOC) | (1u << F_OOM) | (1u << F_ELEM) | (1u << F_ITER), &make}; }
	};

	struct WorkStr final : World {
		using T = ptl::string;
		Slot<T> sl[2]; static std::size_t small() { static const std::size_t n{T{}.capacity()}; return n; }
		enum Op : u32 { PUSH_BURST, APPEND_BURST, INSERT, REPLACE, ERASE, POP, CLEAR, ASSIGN, RESIZE, RESERVE, SHRINK, COPY, COPY_ASSIGN, MOVE_ASSIGN, SWAP, ACCESS, COMPARE, SUBSTR, CONCAT, INPUT, NOPS };
		static const OpInfo * ops() { static const OpInfo o[]{{"push_burst",8},{"append_burst",6},{"insert",6},{"replace",6},{"erase",5},{"pop",3},{"clear",3},{"assign",5},{"resize",5},{"reserve",3},{"shrink",4},{"copy",4},{"copy_assign",4},{"move_assign",4},{"swap",4},{"access",4},{"compare",3},{"substr",4},{"concat",4},{"input",3}}; static_assert(sizeof o / sizeof *o == NOPS); return o; }
		WorkStr(Ctx & c, const Plan & p) { for(u32 i{0}; i < 2; ++i) { sl[i].p = Slot<T>::raw(c); Track t{c}; new(static_cast<void *>(sl[i].p)) T(p.cfg[i] % 3 ? p.cfg[i] % 24 : p.cfg[i] % 200, 'a'); } }
		u32 abs_state() const override { u32 r{0}; for(auto & s : sl) { const auto n{s->size()}; r = r * 16 + (n == 0 ? 0u : n < 22 ? 1u : n == 22 ? 2u : n < 50 ? 3u : 4u) + (s->capacity() > small() ? 8u : 0u); } return r; }
		static double bytes(std::size_t n) { return 6.0 * static_cast<double>(n) + 256; }
		template<typename F> bool again(Ctx & c, F && f) { for(int i{0}; i < 3; ++i) { const u32 before{c.run_fired}; const auto r{sut(c, f)}; if(r.ok()) return true; if(c.run_fired == before) { violate(WORK, "%s gave %s although nothing failed any more", c.opname, out_name[static_cast<int>(r.out)]); abandon_run(); } if(c.fk == F_OOM) c.fk = 0; } return false; }
		void step(Ctx & c, const Step & s) override {
			Off off{c};
			const u32 i{s.a[0] % 2}; T & v{*sl[i]}; T & w{*sl[1 - i]};
			if(v.size() > 4000) { sut(c, [&] { T t; t.swap(v); }); return; }
			const std::size_t size{v.size()}, cap{v.capacity()}, pos{s.a[2] % (size + 1)}, n{s.a[3] % 5 == 0 ? s.a[3] % 400 : s.a[3] % 26};
			const std::string text(n, 'x'); const std::string_view x{text};
			if(c.trace) c.note("    s%u size=%zu cap=%zu pos=%zu n=%zu", i, size, cap, pos, n);
			// short results need no memory, anything else at most one block
			const auto one{[&](const Meter & m, std::size_t arg, std::size_t result) { if(result <= small()) m.at_most(" with a short result", size, arg, 0, 0, 0); else if(result <= cap) m.at_most(" within the capacity", size, arg, 1, 0, bytes(result)); else m.at_most("", size, arg, 2, 0, 2 * bytes(result)); }};
			switch(s.op) {
				case PUSH_BURST: { Meter all{c}; std::size_t top{size}; for(std::size_t k{0}; k < n; ++k) { Meter m{c}; const bool fits{v.size() < v.capacity()}; if(!again(c, [&] { if(s.a[4] % 2) v.push_back('y'); else v += 'y'; })) break; top = v.size(); m.at_most(fits ? " within the capacity" : " growing", top - 1, 1, fits ? 0 : 1, 0, fits ? 0 : bytes(top)); } all.at_most(" (all of it)", size, n, static_cast<double>(n) / 8 + 2, 0, 1e18); return; }
				case APPEND_BURST: for(std::size_t k{0}; k < 1 + s.a[4] % 6; ++k) { Meter m{c}; const std::size_t sz{v.size()}; const bool fits{n <= v.capacity() - sz}; if(!again(c, [&] { switch(s.a[5] % 4) { case 0: v.append(x); break; case 1: v += x; break; case 2: v.append(n, 'y'); break; default: v.append(x.data(), x.data() + n); } })) return; if(fits) m.at_most(" within the capacity", sz, n, 0, 0, 0); else m.at_most(" growing", sz, n, 1, 0, bytes(sz + n)); } return;
				case INSERT: { Meter m{c}; if(again(c, [&] { switch(s.a[5] % 4) { case 0: v.insert(v.begin() + static_cast<std::ptrdiff_t>(pos), x); break; case 1: v.insert(v.begin() + static_cast<std::ptrdiff_t>(pos), n, 'y'); break; case 2: v.insert(v.begin() + static_cast<std::ptrdiff_t>(pos), x.data(), x.data() + n); break; default: v.insert(v.begin() + static_cast<std::ptrdiff_t>(pos), 'z'); } })) one(m, n, v.size()); return; }
				case REPLACE: { const std::size_t k{s.a[4] % (size - pos + 1)}; Meter m{c}; if(again(c, [&] { const auto f{v.begin() + static_cast<std::ptrdiff_t>(pos)}, l{f + static_cast<std::ptrdiff_t>(k)}; if(s.a[5] % 2) v.replace(f, l, x); else v.replace(f, l, n, 'y'); })) one(m, n, std::max(size, v.size())); return; }
				case ERASE: { const std::size_t k{s.a[4] % (size - pos + 1)}; Meter m{c}; if(again(c, [&] { v.erase(v.begin() + static_cast<std::ptrdiff_t>(pos), v.begin() + static_cast<std::ptrdiff_t>(pos + k)); })) m.at_most("", size, k, 0, 0, 0); return; }
				case POP: if(size) { Meter m{c}; again(c, [&] { v.pop_back(); }); m.at_most("", size, 1, 0, 0, 0); } return;
				case CLEAR: { Meter m{c}; again(c, [&] { v.clear(); }); m.at_most("", size, 0, 0, 0, 0); return; }
				case ASSIGN: { Meter m{c}; if(again(c, [&] { switch(s.a[5] % 4) { case 0: v = x; break; case 1: v.assign(x); break; case 2: v.assign(n, 'y'); break; default: v.assign(x.data(), x.data() + n); } })) one(m, n, n); return; }
				case RESIZE: { const std::size_t k{s.a[3] % (2 * size + 30)}; Meter m{c}; if(again(c, [&] { if(s.a[5] % 2) v.resize(k); else v.resize(k, 'y'); })) { if(k <= cap) m.at_most(" within the capacity", size, k, 0, 0, 0); else m.at_most(" growing", size, k, 1, 0, bytes(k)); } return; }
				case RESERVE: { const std::size_t k{s.a[3] % 100}; Meter m{c}; if(again(c, [&] { v.reserve(k); })) m.at_most("", size, k, k > cap ? 1 : 0, 0, k > cap ? bytes(k) : 0); return; }
				case SHRINK: { Meter m{c}; again(c, [&] { v.shrink_to_fit(); }); m.at_most("", size, 0, size > small() ? 1 : 0, 0, bytes(size)); return; }
				case COPY: { Meter m{c}; if(again(c, [&] { T t(static_cast<const T &>(v)); })) one(m, 0, size); return; }
				case COPY_ASSIGN: { Meter m{c}; if(again(c, [&] { w = static_cast<const T &>(v); })) one(m, 0, size); return; }
				case MOVE_ASSIGN: { Meter m{c}; again(c, [&] { T t(std::move(v)); w = std::move(t); }); m.at_most("", size, 0, 0, 0, 0); return; }
				case SWAP: { Meter m{c}; again(c, [&] { v.swap(w); swap(w, v); v.swap(w); }); m.at_most("", size, 0, 0, 0, 0); return; }
				case ACCESS: { Meter m{c}; std::size_t q{0}; again(c, [&] { const T & k{v}; q += k.size() + k.capacity() + k.empty() + static_cast<std::size_t>(*k.c_str()) + static_cast<std::string_view>(k).size() + static_cast<std::size_t>(k.end() - k.begin()) + std::hash<T>{}(k); const ptl::string_ref r{k}; q += r.size() + static_cast<std::string_view>(r).size(); if(size) q += static_cast<std::size_t>(k.front() + v.back() + v[size / 2] + k.at(0)); }); m.at_most("", size, 0, 0, 0, 0); return; }
				case COMPARE: { Meter m{c}; bool q{false}; again(c, [&] { const T & a{v}, & b{w}; q ^= a == b; q ^= a != b; q ^= a < b; q ^= a > b; q ^= a <= b; q ^= a >= b; q ^= a == x; q ^= x < b; q ^= ptl::string_ref{a} == ptl::string_ref{b}; }); m.at_most("", size, 0, 0, 0, 0); return; }
				case SUBSTR: { const std::size_t k{s.a[4] % (size - pos + 1)}; Meter m{c}; if(again(c, [&] { const T q{static_cast<const T &>(v).substr(pos, k)}; (void)q; })) m.at_most(k <= small() ? " with a short result" : "", size, k, k <= small() ? 0 : 2, 0, k <= small() ? 0 : 2 * bytes(k)); return; }
				case CONCAT: { Meter m{c}; if(again(c, [&] { const T t{s.a[5] % 2 ? static_cast<const T &>(v) + x : x + static_cast<const T &>(v)}; })) { const std::size_t r{size + n}; m.at_most(r <= small() ? " with a short result" : "", size, n, r <= small() ? 0 : 4, 0, r <= small() ? 0 : 4 * bytes(r)); } return; }
				default: { Meter m{c}; bool ok{false}; for(int q{0}; q < 3 && !ok; ++q) { const char * cu{text.data()}; ok = sut(c, [&] { v.append(InIt<char>{&cu, text.data() + n}, InIt<char>{}); }).ok(); if(c.fk == F_OOM) c.fk = 0; } if(ok) m.at_most("", size, n, v.size() <= small() ? 0 : static_cast<double>(n) / 8 + 3, 0, 1e18); return; }
			}
		}
		void finish(Ctx & c) override { for(auto & x : sl) x.destroy(c); }
		static World * make(Ctx & c, const Plan & p) { return new WorkStr(c, p); }
	};

	// types that keep their values inside: no call requests memory, and the element operations do not depend on the history
	struct WorkFixed final : World {
		using A = BasicTracked<1, false>; using B = BasicTracked<2, false, 20>;
		using O = ptl::optional<A>; using W = ptl::variant<A, int, B>; using R = ptl::array<A, 6>; using U = ptl::tuple<A, int, B>; using S = ptl::bitset<70>;
		static u32 idx(const W & x) { return x.template holds<A>() ? 0u : x.template holds<int>() ? 1u : 2u; }
		Slot<O> o[2]; Slot<W> w[2]; Slot<R> r[2]; Slot<U> u[2]; Slot<S> b[2];
		enum Op : u32 { OPT_SET, OPT_EMPLACE, OPT_RESET, OPT_COPY, OPT_MOVE, OPT_SWAP, OPT_READ, VAR_SET, VAR_EMPLACE, VAR_COPY, VAR_MOVE, VAR_SWAP, VAR_VISIT, VAR_READ, ARR_FILL, ARR_COPY, ARR_SWAP, ARR_READ, TUP_COPY, TUP_SWAP, TUP_READ, BITS_OP, BITS_SHIFT, BITS_OUT, CALL, NOPS };
		static const OpInfo * ops() { static const OpInfo x[]{{"optional_set",5},{"optional_emplace",4},{"optional_reset",3},{"optional_copy",5},{"optional_move",4},{"optional_swap",4},{"optional_read",4},{"variant_set",5},{"variant_emplace",5},{"variant_copy",5},{"variant_move",4},{"variant_swap",4},{"variant_visit",4},{"variant_read",4},{"array_fill",3},{"array_copy",3},{"array_swap",3},{"array_read",3},{"tuple_copy",3},{"tuple_swap",3},{"tuple_read",3},{"bitset_op",5},{"bitset_shift",5},{"bitset_out",2},{"call",5}}; static_assert(sizeof x / sizeof *x == NOPS); return x; }
		template<typename T> static void init(Ctx & c, Slot<T> (&s)[2]) { for(auto & x : s) { x.p = Slot<T>::raw(c); Track t{c}; new(static_cast<void *>(x.p)) T{}; } }
		WorkFixed(Ctx & c, const Plan &) { init(c, o); init(c, w); init(c, r); for(auto & x : u) { x.p = Slot<U>::raw(c); Track t{c}; new(static_cast<void *>(x.p)) U(A(1), 2, B(3)); } init(c, b); }
		u32 abs_state() const override { return static_cast<u32>(static_cast<bool>(*o[0])) + 2 * static_cast<bool>(*o[1]) + 4 * idx(*w[0]) + 16 * idx(*w[1]) + 64 * static_cast<u32>(b[0]->count() / 8); }
		void step(Ctx & c, const Step & s) override {
			Off off{c};
			const u32 i{s.a[0] % 2}, j{1 - i}; const std::size_t huge{s.a[3] % 3 ? s.a[3] % 80 : s.a[3] % 2 ? std::numeric_limits<std::size_t>::max() - s.a[3] % 5 : std::size_t{s.a[3]} * 1000003u};
			std::ostringstream os; A * a{nullptr}; B * bb{nullptr}; { Track t{c}; a = new A(1); bb = new B(2); }
			double lim{64}; Result q{Out::ok};
			{ Meter m{c};
			q = sut(c, [&] {
				switch(s.op) {
					case OPT_SET: *o[i] = static_cast<const A &>(*a); break;
					case OPT_EMPLACE: o[i]->emplace(7); break;
					case OPT_RESET: o[i]->reset(); break;
					case OPT_COPY: { *o[i] = static_cast<const O &>(*o[j]); const O t(static_cast<const O &>(*o[i])); break; }
					case OPT_MOVE: { O t(std::move(*o[i])); *o[i] = std::move(t); break; }
					case OPT_SWAP: o[0]->swap(*o[1]); break;
					case OPT_READ: { const ptl::optional_ref<A> x{*o[i]}; bool y{static_cast<bool>(x)}; y ^= *o[0] == *o[1]; y ^= *o[0] < *o[1]; (void)y; if(*o[i]) { (void)o[i]->value(); (void)**o[i]; } break; }
					case VAR_SET: switch(s.a[2] % 3) { case 0: *w[i] = static_cast<const A &>(*a); break; case 1: *w[i] = 5; break; default: *w[i] = static_cast<const B &>(*bb); } break;
					case VAR_EMPLACE: switch(s.a[2] % 3) { case 0: w[i]->template emplace<A>(3); break; case 1: w[i]->template emplace<int>(3); break; default: w[i]->template emplace<B>(3); } break;
					case VAR_COPY: { *w[i] = static_cast<const W &>(*w[j]); const W t(static_cast<const W &>(*w[i])); break; }
					case VAR_MOVE: { W t(std::move(*w[i])); *w[i] = std::move(t); break; }
					case VAR_SWAP: w[0]->swap(*w[1]); break;
					case VAR_VISIT: { int n{0}; w[i]->visit([&](const auto &) { ++n; }); int z{4}; ptl::variant_ref<A, int, B> x{z}; x.visit([&](auto &) { ++n; }); break; }
					case VAR_READ: { bool y{*w[0] == *w[1]}; y ^= *w[0] < *w[1]; y ^= w[i]->template holds<int>(); (void)y; break; }
					case ARR_FILL: r[i]->fill(static_cast<const A &>(*a)); break;
					case ARR_COPY: { *r[i] = static_cast<const R &>(*r[j]); const R t(static_cast<const R &>(*r[i])); break; }
					case ARR_SWAP: r[0]->swap(*r[1]); break;
					case ARR_READ: { bool y{*r[0] == *r[1]}; y ^= *r[0] < *r[1]; ptl::array_ref<A> x{*r[i]}; y ^= x.size() == 6; (void)y; (void)r[i]->at(s.a[2] % 6); break; }
					case TUP_COPY: { *u[i] = static_cast<const U &>(*u[j]); const U t(static_cast<const U &>(*u[i])); break; }
					case TUP_SWAP: u[0]->swap(*u[1]); break;
					case TUP_READ: { bool y{*u[0] == *u[1]}; y ^= *u[0] < *u[1]; (void)y; break; }
					case BITS_OP: { S & x{*b[i]}; x.flip(s.a[2] % 70); x ^= *b[j]; x |= ~x; x &= *b[j]; (void)x.count(); (void)std::hash<S>{}(x); (void)x.all(); x.set(s.a[2] % 70); break; }
					case BITS_SHIFT: { S & x{*b[i]}; if(s.a[2] % 2) x <<= huge; else x >>= huge; x.set(3); break; }
					case BITS_OUT: { Off o2{c}; os << *b[i]; break; }
					default: { int n{0}; auto f{[&](int k) { n += k; return n; }}; ptl::function_ref<int(int)> g{f}, h{g}; h = g; (void)h(3); break; }
				}
			});
			lim = s.op >= ARR_FILL && s.op <= ARR_READ ? 160 : 64;
			if(q.ok()) m.at_most("", 0, 0, 0, lim, 0);
			else if(c.run_fired == m.fired0) violate(WORK, "%s gave %s although nothing failed", c.opname, out_name[static_cast<int>(q.out)]); }
			{ Track t{c}; delete a; delete bb; }
		}
		void finish(Ctx & c) override { for(u32 i{0}; i < 2; ++i) { o[i].destroy(c); w[i].destroy(c); r[i].destroy(c); u[i].destroy(c); b[i].destroy(c); } }
		static World * make(Ctx & c, const Plan & p) { return new WorkFixed(c, p); }
	};
	static RegisterWorld k1{WorkVec<Soft>::kind("work:vector<object>")};
	static RegisterWorld k2{WorkVec<int>::kind("work:vector<int>")};
	static RegisterWorld k3{WorkVec<BasicTracked<3, false, 60>>::kind("work:vector<large>")};
	static RegisterWorld k4{WorldKind{"work:string", WorkStr::ops(), WorkStr::NOPS, (1u << F_ALLOC) | (1u << F_OOM) | (1u << F_ITER), &WorkStr::make}};
	static RegisterWorld k5{WorldKind{"work:fixed", WorkFixed::ops(), WorkFixed::NOPS, (1u << F_ALLOC) | (1u << F_OOM) | (1u << F_ELEM), &WorkFixed::make}};
}
