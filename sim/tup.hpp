// World: several ptl::tuple objects of mixed element types against element values.
#pragma once
#include "elems.hpp"
#include <ptl/tuple.hpp>

namespace sim {
	template<typename... Ts>
	struct TupWorld final : World {
		using T = ptl::tuple<Ts...>; static constexpr std::size_t N{sizeof...(Ts)}; static constexpr u32 NS{3};
		template<std::size_t I> using A = std::tuple_element_t<I, std::tuple<Ts...>>;
		using Seq = std::make_index_sequence<N>;
		struct M { int v[N]{}; };
		Slot<T> sl[NS]; M mo[NS]; int next_val{1};
		enum Op : u32 { CTOR_VALUES, CTOR_VALUES_MOVE, CTOR_COPY, CTOR_MOVE, COPY_ASSIGN, MOVE_ASSIGN, SWAP_MEMBER, SWAP_FRIEND, GET, WRITE, COMPARE, NOPS };
		static const OpInfo * ops() { static const OpInfo o[]{{"ctor_values",6},{"ctor_values_move",4},{"ctor_copy",6},{"ctor_move",5},{"copy_assign",9},{"move_assign",7},{"swap_member",6},{"swap_friend",5},{"get",5},{"write",6},{"compare",5}}; static_assert(sizeof o / sizeof *o == NOPS); return o; }
		int fresh() { next_val = next_val % 200 + 1; return next_val % 8 ? next_val : 0; }
		struct Args { // owned argument objects
			Ctx & c; std::tuple<Ts *...> e;
			template<std::size_t... I> void make(M & m, TupWorld & w, std::index_sequence<I...>) { ((m.v[I] = w.fresh(), std::get<I>(e) = Slot<A<I>>::raw(c), new(static_cast<void *>(std::get<I>(e))) A<I>(El<A<I>>::make(m.v[I])), m.v[I] = El<A<I>>::norm(m.v[I])), ...); }
			template<std::size_t... I> void drop(std::index_sequence<I...>) { (([&] { { Track t{c}; auto q{std::get<I>(e)}; using X = A<I>; q->~X(); } Slot<A<I>>::drop(c, std::get<I>(e)); }()), ...); }
			Args(Ctx & c, TupWorld & w, M & m) : c{c} { Track t{c}; make(m, w, Seq{}); }
			~Args() { drop(Seq{}); }
		};
		template<std::size_t... I> static void place(void * q, Args & a, u32 how, std::index_sequence<I...>) { if(how == 0) new(q) T(std::move(*std::get<I>(a.e))...); else if(how == 1) new(q) T(*std::get<I>(a.e)...); else new(q) T(static_cast<const Ts &>(*std::get<I>(a.e))...); }
		template<std::size_t... I> static M read(const T & t, std::index_sequence<I...>) { M m; ((m.v[I] = El<A<I>>::get(t.template get<I>())), ...); return m; }
		template<typename F, std::size_t... I> static void pick(std::size_t k, F && f, std::index_sequence<I...>) { ((I == k ? (static_cast<void>(f(std::integral_constant<std::size_t, I>{})), 0) : 0), ...); }
		explicit TupWorld(Ctx & c, const Plan &) { for(u32 i{0}; i < NS; ++i) { sl[i].p = Slot<T>::raw(c); Args a{c, *this, mo[i]}; Track t{c}; place(sl[i].p, a, 2, Seq{}); } }
		static constexpr std::size_t counted{((El<Ts>::counted ? 1 : 0) + ...)};
		u32 abs_state() const override { u32 r{0}; for(std::size_t k{0}; k < N; ++k) r = r * 2 + (mo[0].v[k] == mo[1].v[k]); return r; }
		void check(Ctx & c) {
			for(u32 i{0}; i < NS; ++i) { const M g{read(*sl[i], Seq{})}; for(std::size_t k{0}; k < N; ++k) { c.log(static_cast<u64>(g.v[k])); if(g.v[k] != mo[i].v[k]) { violate(VALUE, "element %zu of tuple %u is %d, expected %d (after %s)", k, i, g.v[k], mo[i].v[k], c.opname); abandon_run(); } } }
			if(c.live_elems != static_cast<i64>(NS * counted)) { violate(LIFETIME, "%lld elements alive, expected %zu (after %s)", static_cast<long long>(c.live_elems), NS * counted, c.opname); c.live_elems = NS * counted; }
		}
		bool outcome(Ctx & c, const Result & r, bool nofail) {
			if(r.ok()) return false;
			if(!legal_failure(c, r, false)) violate(VALUE, "%s reported %s although nothing failed", c.opname, out_name[static_cast<int>(r.out)]);
			if(nofail) violate(NOFAIL, "%s failed (%s) although it cannot fail", c.opname, out_name[static_cast<int>(r.out)]);
			return true;
		}
		void step(Ctx & c, const Step & s) override { step_impl(c, s); check(c); }
		void step_impl(Ctx & c, const Step & s) {
			const u32 i{s.a[0] % NS}, j{s.a[1] % NS}; Slot<T> & S{sl[i]}; T & o{*S}; const T & co{o}; T & p{*sl[j]}; const T & cp{p}; M & m{mo[i]}; Result r{Out::ok}; const std::size_t k{s.a[2] % N};
			if(c.trace) c.note("    t%u other=t%u", i, j);
			switch(s.op) {
				case CTOR_VALUES: case CTOR_VALUES_MOVE: { M t; Args a{c, *this, t}; r = S.build(c, [&](void * q) { place(q, a, s.op == CTOR_VALUES_MOVE ? 0 : 1 + s.a[5] % 2, Seq{}); }); if(!outcome(c, r, s.op == CTOR_VALUES_MOVE)) m = t; else SIM_PROBE(agg_throw_ctor); return; }
				case CTOR_COPY: r = S.build(c, [&](void * q) { copy_into(q, p, s.a[5]); }); if(!outcome(c, r, false)) m = M{mo[j]}; else SIM_PROBE(agg_throw_ctor); return;
				case CTOR_MOVE: { const M t{mo[j]}; if(i == j) { Slot<T> tmp; r = tmp.build(c, [&](void * q) { new(q) T(std::move(p)); }); if(!outcome(c, r, true)) { S.destroy(c); S.p = tmp.p; m = t; } return; } r = S.build(c, [&](void * q) { new(q) T(std::move(p)); }); if(!outcome(c, r, true)) { m = t; mo[j] = read(p, Seq{}); SIM_PROBE(moved_from_use); } return; }
				case COPY_ASSIGN: r = sut(c, [&] { if(&copy_onto(o, p, s.a[5]) != &o) violate(VALUE, "assignment returned another object"); });
					if(!outcome(c, r, false)) m = M{mo[j]};
					else { SIM_PROBE(agg_throw_assign); const M g{read(co, Seq{})}; for(std::size_t x{0}; x < N; ++x) if(g.v[x] != m.v[x] && g.v[x] != mo[j].v[x]) violate(ATOMIC, "after a failed assignment element %zu is %d: neither old %d nor new %d", x, g.v[x], m.v[x], mo[j].v[x]); m = g; } return;
				case MOVE_ASSIGN: { if(i == j) return; const M t{mo[j]}; r = sut(c, [&] { o = std::move(p); }); if(!outcome(c, r, true)) { m = t; mo[j] = read(p, Seq{}); SIM_PROBE(moved_from_use); } return; }
				case SWAP_MEMBER: case SWAP_FRIEND: if(i == j) SIM_PROBE(self_swap); r = sut(c, [&] { if(s.op == SWAP_MEMBER) o.swap(p); else { using std::swap; swap(o, p); } }); if(!outcome(c, r, true) && i != j) std::swap(m, mo[j]); return;
				case GET: pick(k, [&](auto ic) { using L = El<A<ic.value>>; int g[4]{}; bool same{true}; r = sut(c, [&] { auto & x{o.template get<ic.value>()}; const auto & y{co.template get<ic.value>()}; auto && z{std::move(o).template get<ic.value>()}; const auto && w{std::move(co).template get<ic.value>()}; same = std::addressof(x) == std::addressof(y) && std::addressof(x) == std::addressof(z) && std::addressof(x) == std::addressof(w); g[0] = L::get(x); g[1] = L::get(y); g[2] = L::get(z); g[3] = L::get(w); }); outcome(c, r, true); for(int v : g) if(r.ok() && (v != m.v[k] || !same)) violate(VALUE, "get<%zu> gave %d, expected %d", k, v, m.v[k]); }, Seq{}); return;
				case WRITE: pick(k, [&](auto ic) { using X = A<ic.value>; const int x{fresh()}; X * a{Slot<X>::raw(c)}; { Track t{c}; new(static_cast<void *>(a)) X(El<X>::make(x)); } r = sut(c, [&] { o.template get<ic.value>() = static_cast<const X &>(*a); }); { Track t{c}; a->~X(); } Slot<X>::drop(c, a); if(!outcome(c, r, false)) m.v[k] = El<X>::norm(x); }, Seq{}); return;
				case COMPARE: { int e[6]{}; r = sut(c, [&] { e[0] = co == cp; e[1] = co != cp; e[2] = co < cp; e[3] = co > cp; e[4] = co <= cp; e[5] = co >= cp; }); outcome(c, r, true); const bool eq{std::equal(m.v, m.v + N, mo[j].v)}; if(r.ok() && (e[0] != eq || e[1] == eq || e[4] == e[3] || e[5] == e[2] || e[0] + e[2] + e[3] != 1)) violate(VALUE, "comparison disagrees with the contents"); return; }
			}
		}
		void finish(Ctx & c) override { for(auto & x : sl) x.destroy(c); if(c.live_elems) violate(LIFETIME, "%lld elements alive after all tuples were destroyed", static_cast<long long>(c.live_elems)); }
		static World * make(Ctx & c, const Plan & p) { return new TupWorld(c, p); }
		static WorldKind kind(const char * name) { return WorldKind{name, ops(), NOPS, (1u << F_ALLOC) | (1u << F_OOM) | (1u << F_ELEM), &make}; }
	};
}
