// World: several ptl::variant<Ts...> objects against {alternative, value}. Only the alternatives in Picks are used by name; the others are still part of every dispatch.
#pragma once
#include "elems.hpp"
#include <ptl/variant.hpp>

namespace sim {
	template<typename Picks, typename... Ts> struct VarWorld;
	template<std::size_t... Ps, typename... Ts>
	struct VarWorld<std::index_sequence<Ps...>, Ts...> final : World {
		using V = ptl::variant<Ts...>;
		template<std::size_t I> using A = std::tuple_element_t<I, std::tuple<Ts...>>;
		static constexpr u32 NS{4}, NP{sizeof...(Ps)};
		struct M { u32 alt{0}; int v{0}; };
		Slot<V> sl[NS]; M mo[NS]; int next_val{1};
		enum Op : u32 { CTOR_DEFAULT, CTOR_COPY, CTOR_MOVE, CTOR_VALUE, CTOR_VALUE_MOVE, CTOR_IN_PLACE_INDEX, CTOR_IN_PLACE_TYPE, CTOR_IN_PLACE0, COPY_ASSIGN, MOVE_ASSIGN, ASSIGN_VALUE, ASSIGN_VALUE_MOVE,
			EMPLACE_COPY, EMPLACE_INT, EMPLACE_INDEX, EMPLACE0, EMPLACE_MOVE, SWAP_MEMBER, SWAP_FRIEND, GET, GET_RV, GET_CONST, GET_CONST_RV, GET_IF, VISIT, VISIT_RV, WRITE, COMPARE,
			SELF_ASSIGN_VALUE, SELF_ASSIGN_MOVE, SELF_EMPLACE, SELF_EMPLACE_MOVE, SELF_EMPLACE_OTHER, NOPS };
		static const OpInfo * ops() {
			static const OpInfo o[]{{"ctor_default",2},{"ctor_copy",6},{"ctor_move",5},{"ctor_value",6},{"ctor_value_move",4},{"ctor_in_place_index",4},{"ctor_in_place_type",4},{"ctor_in_place0",3},{"copy_assign",9},{"move_assign",8},{"assign_value",9},{"assign_value_move",6},
				{"emplace_copy",7},{"emplace_int",8},{"emplace_index",5},{"emplace0",4},{"emplace_move",4},{"swap_member",7},{"swap_friend",5},{"get",3},{"get_rv",2},{"get_const",3},{"get_const_rv",2},{"get_if",3},{"visit",4},{"visit_rv",2},{"write",4},{"compare",4},
				{"self_assign_value",4},{"self_assign_move",3},{"self_emplace",4},{"self_emplace_move",3},{"self_emplace_other",4}};
			static_assert(sizeof o / sizeof *o == NOPS); return o;
		}
		template<typename F> static void pick(u32 k, F && f) { u32 n{0}; ((n++ == k ? (static_cast<void>(f(std::integral_constant<std::size_t, Ps>{})), 0) : 0), ...); }
		template<std::size_t I> static constexpr u32 rank() { u32 n{0}, r{~0u}; ((Ps == I ? (r = n++) : n++), ...); return r; }
		int fresh() { next_val = next_val % 200 + 1; return next_val % 8 ? next_val : 0; }
		explicit VarWorld(Ctx & c, const Plan & p) {
			for(u32 i{0}; i < NS; ++i) { sl[i].p = Slot<V>::raw(c); Track t{c}; const u32 a{p.cfg[i] % NP}; const int v{fresh()}; pick(a, [&](auto ic) { using T = A<ic.value>; new(static_cast<void *>(sl[i].p)) V(El<T>::make(v)); mo[i] = {a, El<T>::norm(v)}; }); }
		}
		u32 abs_state() const override { u32 r{0}; for(auto & m : mo) r = r * NP + m.alt; return r; }
		template<std::size_t I> static bool counted() { return El<A<I>>::counted; }
		static M read(const V & v) { M m{~0u, 0}; u32 n{0}; (([&] { if(v.template holds<A<Ps>>()) m = {n, El<A<Ps>>::get(*v.template get_if<A<Ps>>())}; ++n; }()), ...); return m; }
		void check(Ctx & c, bool failed) {
			const Cls cls{failed ? ATOMIC : VALUE}; i64 total{0};
			for(u32 i{0}; i < NS; ++i) {
				const V & v{*sl[i]}; const M & m{mo[i]}; u32 n{0};
				(([&] {
					using T = A<Ps>; const bool h{v.template holds<T>()}, p{v.template get_if<T>() != nullptr};
					if(h != p) violate(VALUE, "holds and get_if of variant %u disagree (after %s)", i, c.opname);
					if(h != (n == m.alt)) { violate(cls, "variant %u %s alternative %zu, expected rank %u (after %s)", i, h ? "holds" : "does not hold", Ps, m.alt, c.opname); abandon_run(); }
					if(h) { if constexpr(El<T>::counted) ++total; const int g{El<T>::get(*v.template get_if<T>())}; c.log(static_cast<u64>(g)); if(g != m.v) { violate(cls, "variant %u holds %d, expected %d (after %s)", i, g, m.v, c.opname); abandon_run(); } }
					++n;
				}()), ...);
				c.log(m.alt);
			}
			if(c.live_elems != total) { violate(LIFETIME, "%lld alternatives alive, %lld held (after %s)", static_cast<long long>(c.live_elems), static_cast<long long>(total), c.opname); c.live_elems = total; }
		}
		bool outcome(Ctx & c, const Result & r, bool nofail, bool change) {
			if(r.ok()) return false;
			if(!legal_failure(c, r, false)) violate(VALUE, "%s reported %s although nothing failed", c.opname, out_name[static_cast<int>(r.out)]);
			if(nofail) violate(NOFAIL, "%s failed (%s) although it cannot fail", c.opname, out_name[static_cast<int>(r.out)]);
			if(change) SIM_PROBE(alt_change_failed);
			return true;
		}
		void step(Ctx & c, const Step & s) override { const bool f{step_impl(c, s)}; check(c, f); }
		template<typename T> struct Arg { Ctx & c; T * e; Arg(Ctx & c, int v) : c{c} { Track t{c}; e = Slot<T>::raw(c); new(static_cast<void *>(e)) T(El<T>::make(v)); } ~Arg() { { Track t{c}; e->~T(); } Slot<T>::drop(c, e); } T & operator*() { return *e; } };
		bool step_impl(Ctx & c, const Step & s) {
			const u32 i{s.a[0] % NS}, j{s.a[1] % NS}, k{s.a[2] % NP}; Slot<V> & S{sl[i]}; V & o{*S}; const V & co{o}; V & p{*sl[j]}; const V & cp{p}; M & m{mo[i]};
			const bool chg{m.alt != k};
			if(c.trace) c.note("    v%u (alternative rank %u) other=v%u (%u) target rank %u", i, m.alt, j, mo[j].alt, k);
			const auto me{[&](V & r) { if(&r != &o) violate(VALUE, "%s returned another object", c.opname); }};
			const auto inside{[&](const auto & r) { if(static_cast<const void *>(std::addressof(r)) != static_cast<const void *>(&o)) violate(VALUE, "%s returned a reference to something else", c.opname); }};
			Result r{Out::ok}; const int x{fresh()};
			// run f<T>(argument) on alternative k
			const auto with{[&](bool nofail, auto && f) { pick(k, [&](auto ic) { using T = A<ic.value>; Arg<T> a{c, x}; r = f(ic, *a); if(!outcome(c, r, nofail, chg)) m = {k, El<T>::norm(x)}; }); }};
			switch(s.op) {
				case CTOR_DEFAULT: r = S.build(c, [&](void * q) { new(q) V; }); if(!outcome(c, r, false, m.alt != 0)) m = {rank<0>(), El<A<0>>::get(A<0>{})}; return !r.ok();
				case CTOR_COPY: r = S.build(c, [&](void * q) { copy_into(q, p, s.a[5]); }); if(!outcome(c, r, false, m.alt != mo[j].alt)) m = M{mo[j]}; return !r.ok();
				case CTOR_MOVE: { const M t{mo[j]}; if(i == j) { Slot<V> tmp; r = tmp.build(c, [&](void * q) { new(q) V(std::move(p)); }); if(!outcome(c, r, true, false)) { S.destroy(c); S.p = tmp.p; m = t; } return !r.ok(); }
					r = S.build(c, [&](void * q) { new(q) V(std::move(p)); }); if(!outcome(c, r, true, false)) { m = t; moved_from(c, j, p); } return !r.ok(); }
				case CTOR_VALUE: with(false, [&](auto ic, auto & a) { using T = A<ic.value>; return S.build(c, [&](void * q) { lend(a, s.a[5], [&](auto & e) { new(q) V(e); }); }); }); return !r.ok();
				case CTOR_VALUE_MOVE: with(true, [&](auto, auto & a) { return S.build(c, [&](void * q) { new(q) V(std::move(a)); }); }); return !r.ok();
				case CTOR_IN_PLACE_INDEX: with(false, [&](auto ic, auto & a) { using T = A<ic.value>; return S.build(c, [&](void * q) { lend(a, s.a[5], [&](auto & e) { new(q) V(std::in_place_index<ic.value>, e); }); }); }); return !r.ok();
				case CTOR_IN_PLACE_TYPE: with(false, [&](auto ic, auto & a) { using T = A<ic.value>; return S.build(c, [&](void * q) { if constexpr(El<T>::counted || std::is_same_v<T, int>) new(q) V(std::in_place_type<T>, x); else new(q) V(std::in_place_type<T>, static_cast<const T &>(a)); }); }); return !r.ok();
				case CTOR_IN_PLACE0: pick(k, [&](auto ic) { using T = A<ic.value>; r = S.build(c, [&](void * q) { new(q) V(std::in_place_index<ic.value>); }); if(!outcome(c, r, false, chg)) m = {k, El<T>::get(T{})}; }); return !r.ok();
				case COPY_ASSIGN: if(i == j) c.rename("self_copy_assign"); r = sut(c, [&] { me(copy_onto(o, p, s.a[5])); }); if(!outcome(c, r, false, m.alt != mo[j].alt)) { if(m.alt == mo[j].alt) SIM_PROBE(alt_same_assign); m = M{mo[j]}; } return !r.ok();
				case MOVE_ASSIGN: { const M t{mo[j]}; if(i == j) SIM_PROBE(self_move); r = sut(c, [&] { me(o = std::move(p)); }); if(!outcome(c, r, true, false)) { m = t; if(i != j) moved_from(c, j, p); } return !r.ok(); }
				case ASSIGN_VALUE: with(false, [&](auto ic, auto & a) { using T = A<ic.value>; return sut(c, [&] { lend(a, s.a[5], [&](auto & e) { me(o = e); }); }); }); return !r.ok();
				case ASSIGN_VALUE_MOVE: with(true, [&](auto, auto & a) { return sut(c, [&] { me(o = std::move(a)); }); }); return !r.ok();
				case EMPLACE_COPY: with(false, [&](auto ic, auto & a) { using T = A<ic.value>; return sut(c, [&] { T & e{lend(a, s.a[5], [&](auto & y) -> T & { return o.template emplace<T>(y); })}; inside(e); }); }); return !r.ok();
				case EMPLACE_INT: with(false, [&](auto ic, auto & a) { using T = A<ic.value>; return sut(c, [&] { if constexpr(El<T>::counted || std::is_same_v<T, int>) inside(o.template emplace<T>(x)); else inside(o.template emplace<T>(static_cast<const T &>(a))); }); }); return !r.ok();
				case EMPLACE_INDEX: with(false, [&](auto ic, auto & a) { using T = A<ic.value>; return sut(c, [&] { inside(lend(a, s.a[5], [&](auto & y) -> T & { return o.template emplace<ic.value>(y); })); }); }); return !r.ok();
				case EMPLACE0: pick(k, [&](auto ic) { using T = A<ic.value>; r = sut(c, [&] { inside(o.template emplace<T>()); }); if(!outcome(c, r, false, chg)) m = {k, El<T>::get(T{})}; }); return !r.ok();
				case EMPLACE_MOVE: with(true, [&](auto ic, auto & a) { using T = A<ic.value>; return sut(c, [&] { inside(o.template emplace<T>(std::move(a))); }); }); return !r.ok();
				case SWAP_MEMBER: case SWAP_FRIEND: if(i == j) SIM_PROBE(self_swap); r = sut(c, [&] { if(s.op == SWAP_MEMBER) o.swap(p); else { using std::swap; swap(o, p); } }); if(!outcome(c, r, true, false) && i != j) std::swap(m, mo[j]); return !r.ok();
				case GET: case GET_RV: case GET_CONST: case GET_CONST_RV: { int g{0};
					pick(k, [&](auto ic) { using T = A<ic.value>; r = sut(c, [&] { switch(s.op) { case GET: { T & e{o.template get<T>()}; inside(e); g = El<T>::get(e); break; } case GET_RV: { T && e{std::move(o).template get<T>()}; inside(e); g = El<T>::get(e); break; } case GET_CONST: { const T & e{co.template get<T>()}; inside(e); g = El<T>::get(e); break; } default: { const T && e{std::move(co).template get<T>()}; inside(e); g = El<T>::get(e); } } }); });
					if(!chg) { outcome(c, r, true, false); if(r.ok() && g != m.v) violate(VALUE, "get gave %d, expected %d", g, m.v); } else { SIM_PROBE(bad_access); if(r.out != Out::bad_variant) violate(VALUE, "get of another alternative gave %s, expected bad_variant_access", out_name[static_cast<int>(r.out)]); } return !r.ok(); }
				case GET_IF: pick(k, [&](auto ic) { using T = A<ic.value>; T * q{nullptr}; const T * cq{nullptr}; bool h{false}; r = sut(c, [&] { q = o.template get_if<T>(); cq = co.template get_if<T>(); h = co.template holds<T>(); }); outcome(c, r, true, false);
					if(r.ok() && (h == chg || (q != nullptr) == chg || q != cq || (q && static_cast<void *>(q) != static_cast<void *>(&o)))) violate(VALUE, "get_if/holds of rank %u is wrong while rank %u is held", k, m.alt); }); return !r.ok();
				case VISIT: case VISIT_RV: { int g{0}, calls{0}; std::size_t sz{0}; const auto f{[&](auto && e) -> int { ++calls; using T = std::decay_t<decltype(e)>; sz = sizeof(T); g = El<T>::get(e); return 5; }}; int ret{0};
					r = sut(c, [&] { if(s.op == VISIT) ret = aux(s) ? co.visit(f) : o.visit(f); else ret = aux(s) ? std::move(co).visit(f) : std::move(o).visit(f); }); outcome(c, r, true, false); std::size_t want{0}; pick(m.alt, [&](auto ic) { want = sizeof(A<ic.value>); });
					if(r.ok() && (calls != 1 || ret != 5 || g != m.v || sz != want)) violate(VALUE, "visit called %d visitors, got %d of size %zu, expected %d of size %zu", calls, g, sz, m.v, want); return !r.ok(); }
				case WRITE: pick(m.alt, [&](auto ic) { using T = A<ic.value>; Arg<T> a{c, x}; r = sut(c, [&] { switch(s.a[3] % 3) { case 0: o.template get<T>() = static_cast<const T &>(*a); break; case 1: *o.template get_if<T>() = static_cast<const T &>(*a); break; default: o.visit([&](auto & e) { using U = std::decay_t<decltype(e)>; if constexpr(std::is_same_v<U, T>) e = static_cast<const T &>(*a); }); } }); if(!outcome(c, r, false, false)) m.v = El<T>::norm(x); }); return !r.ok();
				case COMPARE: { int e[6]{}; r = sut(c, [&] { e[0] = co == cp; e[1] = co != cp; e[2] = co < cp; e[3] = co > cp; e[4] = co <= cp; e[5] = co >= cp; }); outcome(c, r, true, false); const M & n{mo[j]};
					if(r.ok() && (e[0] != (m.alt == n.alt && m.v == n.v) || e[1] == e[0] || e[2] + e[3] + e[0] != 1 || e[4] == e[3] || e[5] == e[2] || (m.alt < n.alt && !e[2]) || (m.alt > n.alt && !e[3]))) violate(VALUE, "comparison disagrees with the contents"); return !r.ok(); }
				case SELF_ASSIGN_VALUE: pick(m.alt, [&](auto ic) { using T = A<ic.value>; r = sut(c, [&] { me(o = co.template get<T>()); }); outcome(c, r, false, false); }); return !r.ok();
				case SELF_ASSIGN_MOVE: pick(m.alt, [&](auto ic) { using T = A<ic.value>; r = sut(c, [&] { me(o = std::move(o.template get<T>())); }); outcome(c, r, true, false); }); return !r.ok();
				case SELF_EMPLACE: pick(m.alt, [&](auto ic) { using T = A<ic.value>; r = sut(c, [&] { inside(o.template emplace<T>(co.template get<T>())); }); outcome(c, r, false, false); }); return !r.ok();
				case SELF_EMPLACE_MOVE: pick(m.alt, [&](auto ic) { using T = A<ic.value>; r = sut(c, [&] { inside(o.template emplace<T>(std::move(o.template get<T>()))); }); outcome(c, r, true, false); }); return !r.ok();
				case SELF_EMPLACE_OTHER: pick(m.alt, [&](auto ic) { using T = A<ic.value>; pick(k, [&](auto kc) { using U = A<kc.value>; if constexpr(!std::is_same_v<T, U> && std::is_class_v<T> && std::is_constructible_v<U, const T &>) {
					const int v{m.v}; r = sut(c, [&] { inside(o.template emplace<U>(co.template get<T>())); }); if(!outcome(c, r, false, true)) m = {k, v}; } else if constexpr(std::is_same_v<T, int> && El<U>::counted) { const int v{m.v}; r = sut(c, [&] { inside(o.template emplace<U>(co.template get<int>())); }); if(!outcome(c, r, false, true)) m = {k, v}; } }); }); return !r.ok();
				default: return false;
			}
		}
		static bool aux(const Step & s) { return s.a[3] % 2; }
		void moved_from(Ctx & c, u32 j, const V & p) { SIM_PROBE(moved_from_use); const M t{read(p)}; if(t.alt != mo[j].alt) violate(VALUE, "a moved-from variant changed its alternative (after %s)", c.opname); mo[j] = t; if(t.alt == ~0u) abandon_run(); }
		void finish(Ctx & c) override { for(auto & x : sl) x.destroy(c); if(c.live_elems) violate(LIFETIME, "%lld alternatives alive after all variants were destroyed", static_cast<long long>(c.live_elems)); }
		static World * make(Ctx & c, const Plan & p) { return new VarWorld(c, p); }
		static WorldKind kind(const char * name) { return WorldKind{name, ops(), NOPS, (1u << F_ALLOC) | (1u << F_OOM) | (1u << F_ELEM), &make}; }
	};
}
