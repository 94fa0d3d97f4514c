// World: several ptl::vector<E> objects, compared after every call with plain sequences.
#pragma once
#include "elems.hpp"
#include <ptl/vector.hpp>

namespace sim {
	template<typename E>
	struct VecWorld final : World {
		using V = ptl::vector<E>; using L = El<E>;
		using Vals = std::vector<int>;
		static constexpr u32 NS{3};
		Slot<V> sl[NS]; Vals mo[NS];
		int next_val{1}; u32 scale{1};

		enum Op : u32 { CTOR_DEFAULT, CTOR_COPY, CTOR_MOVE, CTOR_COUNT, CTOR_COUNT_VALUE, CTOR_ILIST, CTOR_FWD, CTOR_RND, CTOR_INPUT, CTOR_RANGE,
			COPY_ASSIGN, MOVE_ASSIGN, ASSIGN_ILIST_OP, ASSIGN_ILIST, ASSIGN_COUNT, ASSIGN_FWD, ASSIGN_RND, ASSIGN_INPUT, ASSIGN_RANGE,
			PUSH_COPY, PUSH_MOVE, EMPLACE_BACK, EMPLACE_BACK2, POP_BACK, INSERT_COPY, INSERT_MOVE, INSERT_COUNT, INSERT_FWD, INSERT_RND, INSERT_INPUT, INSERT_ILIST, INSERT_RANGE, EMPLACE, EMPLACE2,
			ERASE_ONE, ERASE_RANGE, CLEAR, RESIZE, RESIZE_VALUE, RESERVE, SHRINK, SWAP_MEMBER, SWAP_FRIEND, AT, AT_WRITE, INDEX_WRITE, ITER_WRITE, COMPARE, WALK,
			SELF_PUSH, SELF_PUSH_MOVE, SELF_EMPLACE_BACK, SELF_INSERT, SELF_INSERT_COUNT, SELF_INSERT_RANGE, SELF_EMPLACE, SELF_INSERT_MOVE, SELF_ASSIGN_RANGE, SELF_ASSIGN_COUNT, SELF_RESIZE,
			HUGE_CTOR, HUGE_CTOR_VALUE, HUGE_RESIZE, HUGE_RESIZE_VALUE, HUGE_RESERVE, HUGE_ASSIGN_COUNT, HUGE_INSERT_COUNT, HUGE_ASSIGN_RANGE, HUGE_INSERT_RANGE, HUGE_CTOR_RANGE, NOPS };
		static const OpInfo * ops() {
			static const OpInfo o[]{{"ctor_default",2},{"ctor_copy",4},{"ctor_move",3},{"ctor_count",3},{"ctor_count_value",3},{"ctor_ilist",3},{"ctor_fwd",3},{"ctor_rnd",2},{"ctor_input",3},{"ctor_range",2},
				{"copy_assign",6},{"move_assign",5},{"assign_ilist_op",2},{"assign_ilist",2},{"assign_count",5},{"assign_fwd",5},{"assign_rnd",4},{"assign_input",4},{"assign_range",4},
				{"push_copy",8},{"push_move",8},{"emplace_back",8},{"emplace_back2",4},{"pop_back",5},{"insert_copy",7},{"insert_move",7},{"insert_count",8},{"insert_fwd",8},{"insert_rnd",5},{"insert_input",6},{"insert_ilist",5},{"insert_range",4},{"emplace",6},{"emplace2",3},
				{"erase_one",6},{"erase_range",7},{"clear",2},{"resize",6},{"resize_value",6},{"reserve",6},{"shrink_to_fit",5},{"swap_member",3},{"swap_friend",3},{"at",3},{"at_write",2},{"index_write",2},{"iter_write",2},{"compare",3},{"walk",3},
				{"self_push",4},{"self_push_move",2},{"self_emplace_back",4},{"self_insert",4},{"self_insert_count",4},{"self_insert_range",4},{"self_emplace",4},{"self_insert_move",2},{"self_assign_range",4},{"self_assign_count",4},{"self_resize",4},
				{"huge_ctor",1},{"huge_ctor_value",1},{"huge_resize",1},{"huge_resize_value",1},{"huge_reserve",1},{"huge_assign_count",1},{"huge_insert_count",1},{"huge_assign_range",1},{"huge_insert_range",1},{"huge_ctor_range",1}};
			static_assert(sizeof o / sizeof *o == NOPS);
			return o;
		}

		explicit VecWorld(Ctx & c, const Plan & p) : scale{p.cfg[5] % 23 == 1 ? 12 : p.cfg[5] % 67 == 2 ? 150u : sizeof(E) == 1 && p.cfg[5] % 71 == 3 ? 6000u : 1u} {
			for(u32 i{0}; i < NS; ++i) {
				sl[i].p = Slot<V>::raw(c);
				Track t{c};
				new(static_cast<void *>(sl[i].p)) V;
				const u32 n{scale > 1000 ? 60000 + p.cfg[i] % 70000 : p.cfg[i] % 14 * scale};
				if(i && (p.cfg[i] % 3 || scale > 1000)) { for(u32 k{0}; k < n; ++k) { const int v{fresh()}; sl[i]->push_back(L::make(v)); mo[i].push_back(L::norm(v)); } }
			}
		}
		int fresh() { next_val = next_val % 200 + 1; return next_val % 8 ? next_val : 0; }
		u32 abs_state() const override { u32 r{0}; for(u32 i{0}; i < NS; ++i) { const auto n{mo[i].size()}; const auto cap{sl[i].p ? sl[i]->capacity() : 0}; r = r * 5 + (n == 0 ? cap == 0 ? 0u : 1u : n == cap ? 2u : n * 2 < cap ? 3u : 4u); } return r; }

		std::size_t count_near(u32 raw, std::size_t size, std::size_t cap) {
			const std::size_t room{cap > size ? cap - size : 0};
			switch(raw % 8) { case 0: return room; case 1: return room + 1; case 2: return room ? room - 1 : 0; case 3: return 0; case 4: return 1 + (raw / 8) % 3; default: return (raw / 8) % (20 * scale); }
		}
		std::size_t size_near(u32 raw, std::size_t size, std::size_t cap) {
			switch(raw % 9) { case 0: return cap; case 1: return cap + 1; case 2: return cap ? cap - 1 : 0; case 3: return size; case 4: return size + 1; case 5: return size ? size - 1 : 0; case 6: return 0; default: return (raw / 9) % (40 * scale); }
		}
		static std::size_t huge(u32 raw, std::size_t size) {
			const std::size_t top{std::numeric_limits<std::size_t>::max()}, mx{V::max_size()};
			switch(raw % 14) { case 0: return mx; case 1: return mx + 1; case 2: return top; case 3: return top - size; case 4: return top - size + (size ? 1 : 0); case 5: return top / 2; case 6: return top / 2 + 1; case 7: return mx - 1; case 8: return memory_limit + 1; case 9: return top / sizeof(E) + 1 > memory_limit ? top / sizeof(E) + 1 : top; case 10: return top / sizeof(E) + 2 > memory_limit ? top / sizeof(E) + 2 : top - 1; case 11: return mx - size; case 12: return mx / 2 + 1; default: return top - (raw >> 8) % 64; }
		}
		std::vector<E> mk(Ctx & c, std::size_t n, Vals & vals) { Off o{c}; std::vector<E> r; r.reserve(n); for(std::size_t i{0}; i < n; ++i) { const int v{fresh()}; { Track t{c}; E e(L::make(v)); Off o2{c}; r.push_back(std::move(e)); } vals.push_back(L::norm(v)); } return r; }
		struct Free { Ctx & c; std::vector<E> & v; ~Free() { Off o{c}; std::vector<E>{}.swap(v); } };

		// every vector equals its model
		void check(Ctx & c, bool failed) {
			std::size_t total{0};
			const Cls cls{failed ? ATOMIC : VALUE};
			for(u32 i{0}; i < NS; ++i) {
				const V & v{*sl[i]}; const auto & m{mo[i]};
				total += m.size();
				if(v.size() != m.size()) { violate(cls, "vector %u has %zu elements, expected %zu (after %s)", i, v.size(), m.size(), c.opname); abandon_run(); }
				if(v.capacity() < v.size()) { violate(FORM, "vector %u: capacity %zu below size %zu", i, v.capacity(), v.size()); abandon_run(); }
				if(v.empty() != m.empty() || static_cast<std::size_t>(v.end() - v.begin()) != m.size()) { violate(VALUE, "vector %u: empty()/iterators disagree with size %zu", i, m.size()); abandon_run(); }
				for(std::size_t k{0}; k < m.size(); ++k) { const int got{L::get(v.data()[k])}; c.log(static_cast<u64>(got)); if(got != m[k]) { violate(cls, "vector %u element %zu is %d, expected %d (after %s)", i, k, got, m[k], c.opname); abandon_run(); } }
			}
			if constexpr(L::counted) if(c.live_elems != static_cast<i64>(total)) { violate(LIFETIME, "%lld elements are alive, the vectors hold %zu (after %s)", static_cast<long long>(c.live_elems), total, c.opname); c.live_elems = static_cast<i64>(total); }
		}
		static Vals read(const V & v) { Vals r; for(std::size_t i{0}; i < v.size(); ++i) r.push_back(L::get(v.data()[i])); return r; }

		void step(Ctx & c, const Step & s) override {
			Step t{s}; if(sl[s.a[0] % NS]->size() > (scale > 1000 ? 300000u : 30000u)) { t.op = CLEAR; c.rename("clear"); } // keeps doubling histories affordable
			const bool failed{step_impl(c, t)};
			check(c, failed);
		}
		// outcome handling shared by all mutating calls; returns true if the call failed
		bool outcome(Ctx & c, const Result & r, bool over_limit, bool nofail) {
			if(r.ok()) return false;
			if(!legal_failure(c, r, over_limit)) { violate(VALUE, "%s reported %s although nothing failed", c.opname, out_name[static_cast<int>(r.out)]); }
			if(nofail) violate(NOFAIL, "%s failed (%s) although it needs no memory", c.opname, out_name[static_cast<int>(r.out)]);
			if(r.out == Out::alloc) SIM_PROBE(grow_refused); else if(r.out == Out::fault) { if(r.fkind == F_ELEM && c.cnt[F_ELEM] > 1) SIM_PROBE(elem_throw_mid); if(r.fkind == F_ITER) SIM_PROBE(iter_throw_mid); }
			return true;
		}

		bool step_impl(Ctx & c, const Step & s) {
			const u32 i{s.a[0] % NS}, j{s.a[1] % NS};
			Slot<V> & S{sl[i]}; V & v{*S}; Vals & m{mo[i]};
			const std::size_t size{v.size()}, cap{v.capacity()}; const E * const data0{v.data()};
			const std::size_t pos{(scale > 1000 && s.a[2] % 3 ? s.a[2] % 40 : s.a[2]) % (size + 1)}; const std::size_t idx{size ? s.a[2] % size : 0};
			const std::size_t n{count_near(s.a[3], size, cap)};
			const u32 aux{s.a[4]};
			Vals vals; std::vector<E> src; Free fr{c, src};
			if(c.trace) c.note("    v%u size=%zu cap=%zu  other=v%u pos=%zu n=%zu", i, size, cap, j, pos, n);
			if(s.fk == F_OOM) SIM_PROBE(op_under_oom);
			if(size == cap && size) SIM_PROBE(full_capacity_op);
			auto ins{[&](std::size_t at, const Vals & x) { m.insert(m.begin() + static_cast<std::ptrdiff_t>(at), x.begin(), x.end()); }};
			// capacity promise: result fits => no failure for lack of memory, nothing relocated
			auto promise{[&](const Result & r, std::size_t added) {
				if(added > cap - size || cap == 0) { if(r.ok() && added) SIM_PROBE(grow); return; }
				SIM_PROBE(promise_checked); SIM_PROBE(in_place);
				if((r.out == Out::alloc && !L::allocates) || r.out == Out::length) violate(PROMISE, "%s failed with %s although size %zu + %zu fits the capacity %zu", c.opname, out_name[static_cast<int>(r.out)], size, added, cap);
				if(r.ok() && (sl[i]->data() != data0 || sl[i]->capacity() < cap)) violate(PROMISE, "%s relocated the elements or gave up capacity (%zu -> %zu) although size %zu + %zu fits", c.opname, cap, sl[i]->capacity(), size, added);
			}};
			auto stays{[&] { if(sl[i]->data() != data0 || sl[i]->capacity() < cap) violate(PROMISE, "%s relocated the elements", c.opname); }};
			auto result_at{[&](const V & x, std::ptrdiff_t got, std::size_t want) { if(got != static_cast<std::ptrdiff_t>(want)) violate(VALUE, "%s returned position %td of vector of size %zu, expected %zu", c.opname, got, x.size(), want); }};
			const auto cpos{[&] { return static_cast<const V &>(v).begin() + static_cast<std::ptrdiff_t>(pos); }};
			Result r{Out::ok};
			switch(s.op) {
				case CTOR_DEFAULT: r = S.build(c, [&](void * q) { new(q) V; }); if(!outcome(c, r, false, true)) m.clear(); return !r.ok();
				case CTOR_COPY: r = S.build(c, [&](void * q) { copy_into(q, *sl[j], s.a[5]); }); if(!outcome(c, r, false, false)) { const Vals t{mo[j]}; m = t; } return !r.ok();
				case CTOR_MOVE: { const Vals t{mo[j]}; if(i == j) { Slot<V> tmp; r = tmp.build(c, [&](void * q) { new(q) V(std::move(v)); }); if(!outcome(c, r, false, true)) { S.destroy(c); S.p = tmp.p; } return !r.ok(); }
					r = S.build(c, [&](void * q) { new(q) V(std::move(*sl[j])); }); if(!outcome(c, r, false, true)) { m = t; mo[j] = read(*sl[j]); SIM_PROBE(moved_from_use); } return !r.ok(); }
				case CTOR_COUNT: { const std::size_t k{s.a[3] % 26}; r = S.build(c, [&](void * q) { new(q) V(k); }); if(!outcome(c, r, false, false)) m.assign(k, L::get(E{})); return !r.ok(); }
				case CTOR_COUNT_VALUE: { const std::size_t k{s.a[3] % 26}; src = mk(c, 1, vals); r = S.build(c, [&](void * q) { new(q) V(k, static_cast<const E &>(src[0])); }); if(!outcome(c, r, false, false)) m.assign(k, vals[0]); return !r.ok(); }
				case CTOR_ILIST: src = mk(c, 3, vals); r = S.build(c, [&](void * q) { if(aux % 3 == 0) new(q) V{src[0], src[1], src[2]}; else if(aux % 3 == 1) { vals.resize(1); new(q) V{src[0]}; } else { vals.clear(); new(q) V(std::initializer_list<E>{}); } }); if(!outcome(c, r, false, false)) m = vals; return !r.ok();
				case CTOR_FWD: src = mk(c, s.a[3] % 26, vals); r = S.build(c, [&](void * q) { new(q) V(FwdIt<E>{src.data()}, FwdIt<E>{src.data() + src.size()}); }); if(!outcome(c, r, false, false)) m = vals; return !r.ok();
				case CTOR_RND: src = mk(c, s.a[3] % 26, vals); r = S.build(c, [&](void * q) { new(q) V(RndIt<E>{src.data()}, RndIt<E>{src.data() + src.size()}); }); if(!outcome(c, r, false, false)) m = vals; return !r.ok();
				case CTOR_INPUT: { src = mk(c, s.a[3] % 26, vals); const E * cu{src.data()}; r = S.build(c, [&](void * q) { new(q) V(InIt<E>{&cu, src.data() + src.size()}, InIt<E>{}); }); if(!outcome(c, r, false, false)) m = vals; return !r.ok(); }
				case CTOR_RANGE: { const V & o{*sl[j]}; const Vals t{mo[j]}; const std::size_t a{o.size() ? s.a[2] % o.size() : 0}, b{a + s.a[3] % (o.size() - a + 1)};
					r = S.build(c, [&](void * q) { new(q) V(o.begin() + static_cast<std::ptrdiff_t>(a), o.begin() + static_cast<std::ptrdiff_t>(b)); });
					if(!outcome(c, r, false, false)) m.assign(t.begin() + static_cast<std::ptrdiff_t>(a), t.begin() + static_cast<std::ptrdiff_t>(b)); return !r.ok(); }
				case COPY_ASSIGN: if(i == j) c.rename("self_copy_assign"); r = sut(c, [&] { V & x{copy_onto(v, *sl[j], s.a[5])}; if(&x != &v) violate(VALUE, "copy assignment returned another object"); }); if(!outcome(c, r, false, false)) { const Vals t{mo[j]}; m = t; } return !r.ok();
				case MOVE_ASSIGN: { if(i == j) SIM_PROBE(self_move); r = sut(c, [&] { V & x{v = std::move(*sl[j])}; if(&x != &v) violate(VALUE, "move assignment returned another object"); });
					if(!outcome(c, r, false, true) && i != j) { m = mo[j]; mo[j] = read(*sl[j]); SIM_PROBE(moved_from_use); } return !r.ok(); }
				case ASSIGN_ILIST_OP: src = mk(c, 3, vals); r = sut(c, [&] { if(aux % 4 == 0) { vals.clear(); v = std::initializer_list<E>{}; } else v = {src[0], src[1], src[2]}; }); if(!outcome(c, r, false, false)) m = vals; return !r.ok();
				case ASSIGN_ILIST: src = mk(c, 2, vals); r = sut(c, [&] { v.assign({src[0], src[1]}); }); if(!outcome(c, r, false, false)) m = vals; return !r.ok();
				case ASSIGN_COUNT: { src = mk(c, 1, vals); const std::size_t k{aux % 2 ? n : size_near(s.a[3], size, cap)}; r = sut(c, [&] { v.assign(k, static_cast<const E &>(src[0])); }); if(!outcome(c, r, false, false)) m.assign(k, vals[0]); return !r.ok(); }
				case ASSIGN_FWD: src = mk(c, aux % 2 ? n : size_near(s.a[3], size, cap), vals); r = sut(c, [&] { v.assign(FwdIt<E>{src.data()}, FwdIt<E>{src.data() + src.size()}); }); if(!outcome(c, r, false, false)) m = vals; return !r.ok();
				case ASSIGN_RND: src = mk(c, aux % 2 ? n : size_near(s.a[3], size, cap), vals); r = sut(c, [&] { v.assign(RndIt<E>{src.data()}, RndIt<E>{src.data() + src.size()}); }); if(!outcome(c, r, false, false)) m = vals; return !r.ok();
				case ASSIGN_INPUT: { src = mk(c, aux % 2 ? n : size_near(s.a[3], size, cap), vals); const E * cu{src.data()}; r = sut(c, [&] { v.assign(InIt<E>{&cu, src.data() + src.size()}, InIt<E>{}); }); if(!outcome(c, r, false, false)) m = vals; return !r.ok(); }
				case ASSIGN_RANGE: { if(i == j) return false; const V & o{*sl[j]}; const Vals & t{mo[j]}; const std::size_t a{o.size() ? s.a[2] % o.size() : 0}, b{a + s.a[3] % (o.size() - a + 1)};
					r = sut(c, [&] { v.assign(o.begin() + static_cast<std::ptrdiff_t>(a), o.begin() + static_cast<std::ptrdiff_t>(b)); }); if(!outcome(c, r, false, false)) m.assign(t.begin() + static_cast<std::ptrdiff_t>(a), t.begin() + static_cast<std::ptrdiff_t>(b)); return !r.ok(); }
				case PUSH_COPY: src = mk(c, 1, vals); r = sut(c, [&] { E & x{v.push_back(static_cast<const E &>(src[0]))}; result_at(v, std::addressof(x) - v.data(), size); }); promise(r, 1); if(!outcome(c, r, false, false)) m.push_back(vals[0]); return !r.ok();
				case PUSH_MOVE: src = mk(c, 1, vals); r = sut(c, [&] { E & x{v.push_back(std::move(src[0]))}; result_at(v, std::addressof(x) - v.data(), size); }); promise(r, 1); if(!outcome(c, r, false, false)) m.push_back(vals[0]); return !r.ok();
				case EMPLACE_BACK: src = mk(c, 1, vals); r = sut(c, [&] { E & x{lend(src[0], s.a[5], [&](auto & e) -> E & { return v.emplace_back(e); })}; result_at(v, std::addressof(x) - v.data(), size); }); promise(r, 1); if(!outcome(c, r, false, false)) m.push_back(vals[0]); return !r.ok();
				case EMPLACE_BACK2: if constexpr(std::is_constructible_v<E, int, int> && !std::is_arithmetic_v<E> && !L::allocates) { const int a{fresh()}, b{fresh()}; r = sut(c, [&] { E & x{v.emplace_back(a, b)}; result_at(v, std::addressof(x) - v.data(), size); }); promise(r, 1); if(!outcome(c, r, false, false)) m.push_back(a + b); return !r.ok(); }
					else { r = sut(c, [&] { v.emplace_back(); }); promise(r, 1); if(!outcome(c, r, false, false)) m.push_back(L::get(E{})); return !r.ok(); }
				case POP_BACK: if(!size) return false; r = sut(c, [&] { v.pop_back(); }); if(!outcome(c, r, false, true)) m.pop_back(); stays(); return !r.ok();
				case INSERT_COPY: src = mk(c, 1, vals); r = sut(c, [&] { auto it{v.insert(cpos(), static_cast<const E &>(src[0]))}; result_at(v, it - v.begin(), pos); }); promise(r, 1); if(!outcome(c, r, false, false)) ins(pos, vals); return !r.ok();
				case INSERT_MOVE: src = mk(c, 1, vals); r = sut(c, [&] { auto it{v.insert(cpos(), std::move(src[0]))}; result_at(v, it - v.begin(), pos); }); promise(r, 1); if(!outcome(c, r, false, false)) ins(pos, vals); return !r.ok();
				case INSERT_COUNT: src = mk(c, 1, vals); r = sut(c, [&] { auto it{v.insert(cpos(), n, static_cast<const E &>(src[0]))}; result_at(v, it - v.begin(), pos); }); promise(r, n); if(!outcome(c, r, false, false)) ins(pos, Vals(n, vals[0])); return !r.ok();
				case INSERT_FWD: src = mk(c, n, vals); r = sut(c, [&] { auto it{v.insert(cpos(), FwdIt<E>{src.data()}, FwdIt<E>{src.data() + n})}; result_at(v, it - v.begin(), pos); }); promise(r, n); if(!outcome(c, r, false, false)) ins(pos, vals); return !r.ok();
				case INSERT_RND: src = mk(c, n, vals); r = sut(c, [&] { auto it{v.insert(cpos(), RndIt<E>{src.data()}, RndIt<E>{src.data() + n})}; result_at(v, it - v.begin(), pos); }); promise(r, n); if(!outcome(c, r, false, false)) ins(pos, vals); return !r.ok();
				case INSERT_INPUT: { src = mk(c, n, vals); const E * cu{src.data()}; r = sut(c, [&] { auto it{v.insert(cpos(), InIt<E>{&cu, src.data() + n}, InIt<E>{})}; result_at(v, it - v.begin(), pos); }); if(!outcome(c, r, false, false)) ins(pos, vals); return !r.ok(); }
				case INSERT_ILIST: { src = mk(c, 3, vals); bool copied{false}; r = sut(c, [&] { if(aux % 3 == 0) { vals.clear(); copied = true; auto it{v.insert(cpos(), std::initializer_list<E>{})}; result_at(v, it - v.begin(), pos); } else { std::initializer_list<E> il{src[0], src[1], src[2]}; copied = true; auto it{v.insert(cpos(), il)}; result_at(v, it - v.begin(), pos); } }); if(copied) promise(r, vals.size()); if(!outcome(c, r, false, false)) ins(pos, vals); return !r.ok(); }
				case INSERT_RANGE: { if(i == j) return false; const V & o{*sl[j]}; const Vals & t{mo[j]}; const std::size_t a{o.size() ? s.a[3] % o.size() : 0}, b{a + aux % (o.size() - a + 1)};
					r = sut(c, [&] { auto it{v.insert(cpos(), o.begin() + static_cast<std::ptrdiff_t>(a), o.begin() + static_cast<std::ptrdiff_t>(b))}; result_at(v, it - v.begin(), pos); }); promise(r, b - a); if(!outcome(c, r, false, false)) ins(pos, Vals(t.begin() + static_cast<std::ptrdiff_t>(a), t.begin() + static_cast<std::ptrdiff_t>(b))); return !r.ok(); }
				case EMPLACE: src = mk(c, 1, vals); r = sut(c, [&] { auto it{lend(src[0], s.a[5], [&](auto & e) { return v.emplace(cpos(), e); })}; result_at(v, it - v.begin(), pos); }); promise(r, 1); if(!outcome(c, r, false, false)) ins(pos, vals); return !r.ok();
				case EMPLACE2: if constexpr(std::is_constructible_v<E, int, int> && !std::is_arithmetic_v<E> && !L::allocates) { const int a{fresh()}, b{fresh()}; r = sut(c, [&] { auto it{v.emplace(cpos(), a, b)}; result_at(v, it - v.begin(), pos); }); promise(r, 1); if(!outcome(c, r, false, false)) ins(pos, {a + b}); return !r.ok(); }
					else { r = sut(c, [&] { v.emplace(cpos()); }); promise(r, 1); if(!outcome(c, r, false, false)) ins(pos, {L::get(E{})}); return !r.ok(); }
				case ERASE_ONE: if(!size) return false; r = sut(c, [&] { auto it{v.erase(static_cast<const V &>(v).begin() + static_cast<std::ptrdiff_t>(idx))}; result_at(v, it - v.begin(), idx); }); if(!outcome(c, r, false, true)) m.erase(m.begin() + static_cast<std::ptrdiff_t>(idx)); stays(); return !r.ok();
				case ERASE_RANGE: { const std::size_t k{aux % 3 == 0 ? 0 : scale > 1000 && aux % 3 == 1 ? size - pos : s.a[3] % (size - pos + 1)}; if(!k) SIM_PROBE(empty_erase); r = sut(c, [&] { auto it{v.erase(cpos(), cpos() + static_cast<std::ptrdiff_t>(k))}; result_at(v, it - v.begin(), pos); }); if(!outcome(c, r, false, true)) m.erase(m.begin() + static_cast<std::ptrdiff_t>(pos), m.begin() + static_cast<std::ptrdiff_t>(pos + k)); stays(); return !r.ok(); }
				case CLEAR: r = sut(c, [&] { v.clear(); }); if(!outcome(c, r, false, true)) m.clear(); stays(); return !r.ok();
				case RESIZE: { const std::size_t k{size_near(s.a[3], size, cap)}; r = sut(c, [&] { v.resize(k); }); if(k >= size) promise(r, k - size); else { outcome_shrink(c, r); stays(); } if(!outcome(c, r, false, false)) m.resize(k, L::get(E{})); return !r.ok(); }
				case RESIZE_VALUE: { const std::size_t k{size_near(s.a[3], size, cap)}; src = mk(c, 1, vals); r = sut(c, [&] { v.resize(k, static_cast<const E &>(src[0])); }); if(k >= size) promise(r, k - size); else { outcome_shrink(c, r); stays(); } if(!outcome(c, r, false, false)) m.resize(k, vals[0]); return !r.ok(); }
				case RESERVE: { const std::size_t k{size_near(s.a[3], size, cap) + aux % 8}; r = sut(c, [&] { v.reserve(k); }); outcome(c, r, false, false); if(r.ok() && (v.capacity() < k || v.capacity() < cap)) violate(PROMISE, "reserve(%zu) succeeded, capacity is %zu", k, v.capacity()); if(k <= cap) { if(!r.ok()) violate(PROMISE, "reserve(%zu) failed although the capacity is %zu", k, cap); stays(); } return !r.ok(); }
				case SHRINK: r = sut(c, [&] { v.shrink_to_fit(); }); outcome(c, r, false, true); return !r.ok();
				case SWAP_MEMBER: case SWAP_FRIEND: if(i == j) SIM_PROBE(self_swap); r = sut(c, [&] { if(s.op == SWAP_MEMBER) v.swap(*sl[j]); else { using std::swap; swap(v, *sl[j]); } }); if(!outcome(c, r, false, true) && i != j) std::swap(mo[i], mo[j]); return !r.ok();
				case AT: case AT_WRITE: { const std::size_t k{aux % 4 == 0 ? size + s.a[3] % 3 : aux % 9 == 1 ? std::numeric_limits<std::size_t>::max() - s.a[3] % 3 : idx}; int got{0}; const E * where{nullptr};
					r = sut(c, [&] { if(s.op == AT) { const E & x{static_cast<const V &>(v).at(k)}; where = std::addressof(x); got = L::get(x); } else { E & x{v.at(k)}; where = std::addressof(x); got = L::get(x); } });
					if(k < size) { outcome(c, r, false, true); if(r.ok() && (got != m[k] || where != v.data() + k)) violate(VALUE, "at(%zu) gave %d, expected %d", k, got, m[k]); } else if(!refused_with(c, r, Out::range)) violate(VALUE, "at(%zu) on %zu elements gave %s, expected out_of_range", k, size, out_name[static_cast<int>(r.out)]);
					return !r.ok(); }
				case INDEX_WRITE: if(!size) return false; { const int x{fresh()}; src = mk(c, 1, vals); (void)x; r = sut(c, [&] { switch(aux % 4) { case 0: v[idx] = static_cast<const E &>(src[0]); break; case 1: v.front() = static_cast<const E &>(src[0]); break; case 2: v.back() = static_cast<const E &>(src[0]); break; default: v.data()[idx] = static_cast<const E &>(src[0]); } });
					if(!outcome(c, r, false, false)) m[aux % 4 == 1 ? 0 : aux % 4 == 2 ? size - 1 : idx] = vals[0]; return !r.ok(); }
				case ITER_WRITE: if(!size) return false; src = mk(c, 1, vals); r = sut(c, [&] { if(aux % 2) *(v.begin() + static_cast<std::ptrdiff_t>(idx)) = static_cast<const E &>(src[0]); else *(v.rbegin() + static_cast<std::ptrdiff_t>(idx)) = static_cast<const E &>(src[0]); }); if(!outcome(c, r, false, false)) m[aux % 2 ? idx : size - 1 - idx] = vals[0]; return !r.ok();
				case COMPARE: { const V & a{v}, & b{*sl[j]}; int eq{-1}, ne{-1}, lt{-1}, gt{-1}, le{-1}, ge{-1}; r = sut(c, [&] { eq = a == b; ne = a != b; if constexpr(!std::is_same_v<E, Pod> || true) { lt = a < b; gt = a > b; le = a <= b; ge = a >= b; } });
					outcome(c, r, false, true); if(r.ok() && eq != (mo[i] == mo[j])) violate(VALUE, "comparison disagrees with the contents"); if(r.ok() && (ne == eq || le == gt || ge == lt || lt + gt + eq != 1)) violate(VALUE, "comparison operators contradict each other"); return !r.ok(); }
				case WALK: { const V & x{v}; Vals f, b; const char * bad{nullptr}; if(r = sut(c, [&] { bad = iter_all(v, aux % (size + 1), s.a[3] % (size + 1)); }); r.ok() && bad) violate(VALUE, "iterators: %s is wrong", bad); r = sut(c, [&] { Off o{c}; for(auto it{x.begin()}; it != x.end(); ++it) f.push_back(L::get(*it)); for(auto it{x.rbegin()}; it != x.rend(); ++it) b.push_back(L::get(*it)); if(x.cbegin() != x.begin() || x.cend() != x.end() || x.crbegin() != x.rbegin() || x.crend() != x.rend()) violate(VALUE, "const iterators disagree"); });
					std::reverse(b.begin(), b.end()); if(f != m || b != m) violate(VALUE, "iteration disagrees with the contents"); if(size && (L::get(x.front()) != m.front() || L::get(x.back()) != m.back() || L::get(x[idx]) != m[idx])) violate(VALUE, "front/back/index disagree with the contents"); return false; }
				// arguments that live inside the vector itself
				case SELF_PUSH: if(!size) return false; self_probe(size, cap, 1); r = sut(c, [&] { E & x{v.push_back(static_cast<const E &>(v[idx]))}; result_at(v, std::addressof(x) - v.data(), size); }); promise(r, 1); if(!outcome(c, r, false, false)) m.push_back(m[idx]); return !r.ok();
				case SELF_EMPLACE_BACK: if(!size) return false; self_probe(size, cap, 1); r = sut(c, [&] { v.emplace_back(static_cast<const E &>(v[idx])); }); promise(r, 1); if(!outcome(c, r, false, false)) m.push_back(m[idx]); return !r.ok();
				case SELF_PUSH_MOVE: case SELF_INSERT_MOVE: { if(!size) return false; self_probe(size, cap, 1); const std::size_t k{s.a[3] % size}, p{s.op == SELF_PUSH_MOVE ? size : pos};
					r = sut(c, [&] { if(s.op == SELF_PUSH_MOVE) v.push_back(std::move(v[k])); else v.insert(cpos(), std::move(v[k])); });
					if(!outcome(c, r, false, false)) { const int x{m[k]}; if(v.size() != size + 1) return false; m.insert(m.begin() + static_cast<std::ptrdiff_t>(p), x); const std::size_t old{k < p ? k : k + 1}; m[old] = L::get(v.data()[old]); /* the source is moved from: any value */
						// give the moved-from element a definite value again
						Track o{c}; const int f{fresh()}; v.data()[old] = L::make(f); m[old] = L::norm(f); } return !r.ok(); }
				case SELF_INSERT: { if(!size) return false; self_probe(size, cap, 1); const std::size_t k{s.a[3] % size}; r = sut(c, [&] { auto it{v.insert(cpos(), static_cast<const E &>(v[k]))}; result_at(v, it - v.begin(), pos); }); promise(r, 1); if(!outcome(c, r, false, false)) ins(pos, {m[k]}); return !r.ok(); }
				case SELF_EMPLACE: { if(!size) return false; self_probe(size, cap, 1); const std::size_t k{s.a[3] % size}; r = sut(c, [&] { auto it{v.emplace(cpos(), static_cast<const E &>(v[k]))}; result_at(v, it - v.begin(), pos); }); promise(r, 1); if(!outcome(c, r, false, false)) ins(pos, {m[k]}); return !r.ok(); }
				case SELF_INSERT_COUNT: { if(!size) return false; const std::size_t k{aux % size}; self_probe(size, cap, n); r = sut(c, [&] { auto it{v.insert(cpos(), n, static_cast<const E &>(v[k]))}; result_at(v, it - v.begin(), pos); }); promise(r, n); if(!outcome(c, r, false, false)) ins(pos, Vals(n, m[k])); return !r.ok(); }
				case SELF_INSERT_RANGE: { const std::size_t a{s.a[3] % (size + 1)}, b{a + aux % (size - a + 1)}; self_probe(size, cap, b - a); const Vals t(m.begin() + static_cast<std::ptrdiff_t>(a), m.begin() + static_cast<std::ptrdiff_t>(b));
					r = sut(c, [&] { const V & x{v}; auto it{s.a[5] % 3 == 0 ? v.insert(cpos(), x.begin() + static_cast<std::ptrdiff_t>(a), x.begin() + static_cast<std::ptrdiff_t>(b)) : s.a[5] % 3 == 1 ? v.insert(cpos(), x.data() + a, x.data() + b) : v.insert(cpos(), FwdIt<E>{x.data() + a}, FwdIt<E>{x.data() + b})}; result_at(v, it - v.begin(), pos); }); promise(r, b - a); if(!outcome(c, r, false, false)) ins(pos, t); return !r.ok(); }
				case SELF_ASSIGN_RANGE: { const std::size_t a{s.a[3] % (size + 1)}, b{a + aux % (size - a + 1)}; self_probe(size, cap, b - a); const Vals t(m.begin() + static_cast<std::ptrdiff_t>(a), m.begin() + static_cast<std::ptrdiff_t>(b));
					r = sut(c, [&] { const V & x{v}; if(s.a[5] % 3 == 0) v.assign(x.begin() + static_cast<std::ptrdiff_t>(a), x.begin() + static_cast<std::ptrdiff_t>(b)); else if(s.a[5] % 3 == 1) v.assign(x.data() + a, x.data() + b); else v.assign(FwdIt<E>{x.data() + a}, FwdIt<E>{x.data() + b}); }); if(!outcome(c, r, false, false)) m = t; return !r.ok(); }
				case SELF_ASSIGN_COUNT: { if(!size) return false; const std::size_t k{size_near(s.a[3], size, cap)}; self_probe(size, cap, k); const int x{m[idx]}; r = sut(c, [&] { v.assign(k, static_cast<const E &>(v[idx])); }); if(!outcome(c, r, false, false)) m.assign(k, x); return !r.ok(); }
				case SELF_RESIZE: { if(!size) return false; const std::size_t k{size_near(s.a[3], size, cap)}; self_probe(size, cap, k > size ? k - size : 0); const int x{m[idx]}; r = sut(c, [&] { v.resize(k, static_cast<const E &>(v[idx])); }); if(k >= size) promise(r, k - size); if(!outcome(c, r, false, false)) m.resize(k, x); return !r.ok(); }
				default: break;
			}
			// requests no machine can satisfy
			if(!(mode_flags & M_HUGE)) return false;
			SIM_PROBE(over_max);
			const std::size_t h{huge(s.a[3], size)}; src = mk(c, 1, vals);
			const bool ranged{s.op == HUGE_ASSIGN_RANGE || s.op == HUGE_INSERT_RANGE || s.op == HUGE_CTOR_RANGE};
			const std::size_t hr{ranged ? std::min(h, static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max())) : h};
			if(c.trace) c.note("    request %zu", hr);
			const CountIt<E> first{src.data(), 0}, last{src.data(), static_cast<std::ptrdiff_t>(hr)};
			Slot<V> tmp;
			switch(s.op) {
				case HUGE_CTOR: r = tmp.build(c, [&](void * q) { new(q) V(h); }); break;
				case HUGE_CTOR_VALUE: r = tmp.build(c, [&](void * q) { new(q) V(h, static_cast<const E &>(src[0])); }); break;
				case HUGE_RESIZE: r = sut(c, [&] { v.resize(h); }); break;
				case HUGE_RESIZE_VALUE: r = sut(c, [&] { v.resize(h, static_cast<const E &>(src[0])); }); break;
				case HUGE_RESERVE: r = sut(c, [&] { v.reserve(h); }); break;
				case HUGE_ASSIGN_COUNT: r = sut(c, [&] { v.assign(h, static_cast<const E &>(src[0])); }); break;
				case HUGE_INSERT_COUNT: r = sut(c, [&] { v.insert(cpos(), h, static_cast<const E &>(src[0])); }); break;
				case HUGE_ASSIGN_RANGE: r = sut(c, [&] { v.assign(first, last); }); break;
				case HUGE_INSERT_RANGE: r = sut(c, [&] { v.insert(cpos(), first, last); }); break;
				default: r = tmp.build(c, [&](void * q) { new(q) V(first, last); }); break;
			}
			tmp.destroy(c);
			if(r.ok()) { violate(VALUE, "%s of %zu elements reported success", c.opname, hr); violate(FORM, "%s of %zu elements reported success", c.opname, hr); abandon_run(); }
			outcome(c, r, true, false);
			return true;
		}
		void outcome_shrink(Ctx & c, const Result & r) { if(r.out == Out::alloc || r.out == Out::length) violate(NOFAIL, "%s to a smaller size failed (%s)", c.opname, out_name[static_cast<int>(r.out)]); }
		static void self_probe(std::size_t size, std::size_t cap, std::size_t n) { if(size + n > cap) SIM_PROBE(self_arg_grow); else SIM_PROBE(self_arg_in_place); }

		void finish(Ctx & c) override {
			for(auto & x : sl) x.destroy(c);
			if constexpr(L::counted) if(c.live_elems) violate(LIFETIME, "%lld elements alive after all vectors were destroyed", static_cast<long long>(c.live_elems));
		}
		static World * make(Ctx & c, const Plan & p) { return new VecWorld(c, p); }
		static WorldKind kind(const char * name) { return WorldKind{name, ops(), NOPS, (1u << F_ALLOC) | (1u << F_OOM) | (1u << F_ELEM) | (1u << F_ITER), &make}; }
	};
}
