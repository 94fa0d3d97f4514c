// World: several ptl::array<E, N> objects against plain arrays of values.
#pragma once
#include "elems.hpp"
#include <ptl/array.hpp>

namespace sim {
	template<typename E, std::size_t N>
	struct ArrWorld final : World {
		using A = ptl::array<E, N>; using L = El<E>;
		static constexpr u32 NS{3};
		struct M { int v[N + 1]{}; };
		Slot<A> sl[NS]; M mo[NS]; int next_val{1};
		enum Op : u32 { CTOR_DEFAULT, CTOR_VALUES, CTOR_VALUES_MOVE, CTOR_PARTIAL, CTOR_COPY, CTOR_MOVE, COPY_ASSIGN, MOVE_ASSIGN, FILL, SELF_FILL, SWAP_MEMBER, SWAP_FRIEND, AT, ACCESS, WRITE, ITERATE, GET, COMPARE, NOPS };
		static const OpInfo * ops() {
			static const OpInfo o[]{{"ctor_default",3},{"ctor_values",5},{"ctor_values_move",3},{"ctor_partial",4},{"ctor_copy",6},{"ctor_move",5},{"copy_assign",9},{"move_assign",7},{"fill",8},{"self_fill",5},{"swap_member",6},{"swap_friend",5},{"at",4},{"access",3},{"write",6},{"iterate",4},{"get",3},{"compare",4}};
			static_assert(sizeof o / sizeof *o == NOPS); return o;
		}
		int fresh() { next_val = next_val % 200 + 1; return next_val % 8 ? next_val : 0; }
		static int zero() { return L::get(E{}); }
		explicit ArrWorld(Ctx & c, const Plan & p) { for(u32 i{0}; i < NS; ++i) { sl[i].p = Slot<A>::raw(c); { Track t{c}; new(static_cast<void *>(sl[i].p)) A(); for(std::size_t k{0}; k < N; ++k) { const int v{fresh() * static_cast<int>(p.cfg[i] % 2)}; if(v || !L::allocates) (*sl[i])[k] = L::make(v); mo[i].v[k] = v || !L::allocates ? L::norm(v) : zero(); } } } }
		u32 abs_state() const override { u32 r{0}; for(std::size_t k{0}; k < N; ++k) r = r * 2 + (mo[0].v[k] == mo[1].v[k]); return r; }
		void check(Ctx & c) {
			for(u32 i{0}; i < NS; ++i) { const A & a{*sl[i]};
				if(a.size() != N || a.empty() != (N == 0)) violate(VALUE, "size of array %u is wrong", i);
				for(std::size_t k{0}; k < N; ++k) { const int g{L::get(a.data()[k])}; c.log(static_cast<u64>(g)); if(g != mo[i].v[k]) { violate(VALUE, "element %zu of array %u is %d, expected %d (after %s)", k, i, g, mo[i].v[k], c.opname); abandon_run(); } } }
			if constexpr(L::counted) if(c.live_elems != static_cast<i64>(NS * N)) { violate(LIFETIME, "%lld elements alive, expected %zu (after %s)", static_cast<long long>(c.live_elems), NS * N, c.opname); c.live_elems = NS * N; }
		}
		// a failed element-wise update: every element old or new
		void partial(Ctx & c, u32 i, const M & want, bool allow_moved = false) {
			SIM_PROBE(agg_throw_assign); const A & a{*sl[i]};
			for(std::size_t k{0}; k < N; ++k) { const int g{L::get(a.data()[k])}; if(g != mo[i].v[k] && g != want.v[k]) { violate(ATOMIC, "after a failed %s element %zu is %d: neither its old value %d nor the new value %d", c.opname, k, g, mo[i].v[k], want.v[k]); } mo[i].v[k] = g; }
			(void)allow_moved;
		}
		bool outcome(Ctx & c, const Result & r, bool nofail) {
			if(r.ok()) return false;
			if(!legal_failure(c, r, false)) violate(VALUE, "%s reported %s although nothing failed", c.opname, out_name[static_cast<int>(r.out)]);
			if(nofail) violate(NOFAIL, "%s failed (%s) although it cannot fail", c.opname, out_name[static_cast<int>(r.out)]);
			return true;
		}
		struct Arg { Ctx & c; E * e; Arg(Ctx & c, int v) : c{c} { Track t{c}; e = Slot<E>::raw(c); new(static_cast<void *>(e)) E(L::make(v)); } ~Arg() { { Track t{c}; e->~E(); } Slot<E>::drop(c, e); } E & operator*() { return *e; } };
		struct Args { Ctx & c; E * e[N + 1]; Args(Ctx & c, ArrWorld & w, M & m) : c{c} { Track t{c}; for(std::size_t k{0}; k < N; ++k) { const int v{w.fresh()}; m.v[k] = L::norm(v); e[k] = Slot<E>::raw(c); new(static_cast<void *>(e[k])) E(L::make(v)); } } ~Args() { for(std::size_t k{0}; k < N; ++k) { { Track t{c}; e[k]->~E(); } Slot<E>::drop(c, e[k]); } } };
		static void reread(M & m, const A & a) { for(std::size_t k{0}; k < N; ++k) m.v[k] = L::get(a.data()[k]); }
		template<std::size_t... I> static void place(void * q, Args & a, std::index_sequence<I...>, u32 how) { if(how == 0) new(q) A(std::move(*a.e[I])...); else if(how == 1) { if constexpr(std::is_constructible_v<A, std::enable_if_t<(I < N), E> &...>) new(q) A(*a.e[I]...); else { violate(VALUE, "an array cannot be made from variables"); new(q) A(static_cast<const E &>(*a.e[I])...); } } else new(q) A(static_cast<const E &>(*a.e[I])...); (void)a; (void)how; }
		template<typename T, std::size_t... I> static bool getall(T && a, std::index_sequence<I...>) { using std::get; bool ok{true}; ((ok &= static_cast<const void *>(&reinterpret_cast<const char &>(get<I>(a))) == static_cast<const void *>(a.data() + I)), ...); return ok; }
		void step(Ctx & c, const Step & s) override { step_impl(c, s); check(c); }
		void step_impl(Ctx & c, const Step & s) {
			const u32 i{s.a[0] % NS}, j{s.a[1] % NS}; Slot<A> & S{sl[i]}; A & o{*S}; const A & co{o}; A & p{*sl[j]}; const A & cp{p}; M & m{mo[i]}; Result r{Out::ok};
			if(c.trace) c.note("    a%u other=a%u", i, j);
			const auto me{[&](A & r) { if(&r != &o) violate(VALUE, "%s returned another object", c.opname); }};
			const std::size_t k{N ? s.a[2] % N : 0};
			switch(s.op) {
				case CTOR_DEFAULT: r = S.build(c, [&](void * q) { new(q) A(); }); if(!outcome(c, r, false)) for(std::size_t x{0}; x < N; ++x) m.v[x] = zero(); else SIM_PROBE(agg_throw_ctor); return;
				case CTOR_VALUES: case CTOR_VALUES_MOVE: case CTOR_PARTIAL: { M t; Args a{c, *this, t}; const bool part{s.op == CTOR_PARTIAL};
					r = S.build(c, [&](void * q) { if(part) place(q, a, std::make_index_sequence<N / 2>{}, 1 + s.a[5] % 2); else place(q, a, std::make_index_sequence<N>{}, s.op == CTOR_VALUES_MOVE ? 0 : 1 + s.a[5] % 2); });
					if(part) for(std::size_t x{N / 2}; x < N; ++x) t.v[x] = zero();
					if(!outcome(c, r, s.op == CTOR_VALUES_MOVE)) m = t; else SIM_PROBE(agg_throw_ctor); return; }
				case CTOR_COPY: r = S.build(c, [&](void * q) { copy_into(q, p, s.a[5]); }); if(!outcome(c, r, false)) m = M{mo[j]}; else SIM_PROBE(agg_throw_ctor); return;
				case CTOR_MOVE: { const M t{mo[j]}; if(i == j) { Slot<A> tmp; r = tmp.build(c, [&](void * q) { new(q) A(std::move(p)); }); if(!outcome(c, r, true)) { S.destroy(c); S.p = tmp.p; m = t; } return; } r = S.build(c, [&](void * q) { new(q) A(std::move(p)); }); if(!outcome(c, r, true)) { m = t; reread(mo[j], p); SIM_PROBE(moved_from_use); } return; }
				case COPY_ASSIGN: r = sut(c, [&] { me(copy_onto(o, p, s.a[5])); }); if(!outcome(c, r, false)) m = M{mo[j]}; else partial(c, i, mo[j]); return;
				case MOVE_ASSIGN: { if(i == j) return; const M t{mo[j]}; r = sut(c, [&] { me(o = std::move(p)); }); if(!outcome(c, r, true)) { m = t; reread(mo[j], p); SIM_PROBE(moved_from_use); } return; }
				case FILL: { const int x{fresh()}; Arg a{c, x}; M t; for(std::size_t n{0}; n < N; ++n) t.v[n] = L::norm(x); r = sut(c, [&] { o.fill(static_cast<const E &>(*a)); }); if(!outcome(c, r, N == 0)) m = t; else { SIM_PROBE(agg_throw_fill); partial(c, i, t); } return; }
				case SELF_FILL: { if(!N) return; M t; for(std::size_t n{0}; n < N; ++n) t.v[n] = m.v[k]; r = sut(c, [&] { o.fill(co[k]); }); if(!outcome(c, r, false)) m = t; else { SIM_PROBE(agg_throw_fill); partial(c, i, t); } return; }
				case SWAP_MEMBER: case SWAP_FRIEND: if(i == j) SIM_PROBE(self_swap); r = sut(c, [&] { if(s.op == SWAP_MEMBER) o.swap(p); else { using std::swap; swap(o, p); } }); if(!outcome(c, r, true) && i != j) std::swap(m, mo[j]); return;
				case AT: { const std::size_t x{s.a[3] % 3 == 0 ? N + s.a[2] % 3 : s.a[3] % 17 == 1 ? ~std::size_t{0} - s.a[2] % 3 : k}; int g{0}; const E * w{nullptr}; r = sut(c, [&] { if(s.a[4] % 2) { E & e{o.at(x)}; w = std::addressof(e); g = L::get(e); } else { const E & e{co.at(x)}; w = std::addressof(e); g = L::get(e); } });
					if(x < N) { outcome(c, r, true); if(r.ok() && (g != m.v[x] || w != o.data() + x)) violate(VALUE, "at(%zu) gave %d, expected %d", x, g, m.v[x]); } else { SIM_PROBE(bad_access); if(!refused_with(c, r, Out::range)) violate(VALUE, "at(%zu) beyond the end gave %s", x, out_name[static_cast<int>(r.out)]); } return; }
				case ACCESS: if(!N) { if(o.begin() != o.end() || co.cbegin() != co.cend() || o.rbegin() != o.rend()) violate(VALUE, "an array without elements has a non-empty range"); return; } { bool ok{true}; r = sut(c, [&] { ok = std::addressof(o.front()) == o.data() && std::addressof(co.front()) == o.data() && std::addressof(o.back()) == o.data() + N - 1 && std::addressof(co.back()) == o.data() + N - 1 && std::addressof(o[k]) == o.data() + k && std::addressof(co[k]) == co.data() + k && co.max_size() == N; }); outcome(c, r, true); if(r.ok() && !ok) violate(VALUE, "element access designates the wrong element"); } return;
				case WRITE: if(!N) return; { const int x{fresh()}; Arg a{c, x}; r = sut(c, [&] { const E & v{*a}; switch(s.a[3] % 5) { case 0: o[k] = v; break; case 1: o.at(k) = v; break; case 2: o.begin()[static_cast<std::ptrdiff_t>(k)] = v; break; case 3: o.rbegin()[static_cast<std::ptrdiff_t>(N - 1 - k)] = v; break; default: o.data()[k] = v; } }); if(!outcome(c, r, false)) m.v[k] = L::norm(x); } return;
				case ITERATE: { bool ok{true}; const char * bad{nullptr}; if(r = sut(c, [&] { bad = iter_all(o, s.a[2] % (N + 1), s.a[3] % (N + 1)); }); r.ok() && bad) violate(VALUE, "iterators: %s is wrong", bad); r = sut(c, [&] { std::size_t n{0}; for(const auto & e : co) { ok &= n < N && std::addressof(e) == o.data() + n && L::get(e) == m.v[n]; ++n; } ok &= n == N; for(auto it{o.rbegin()}; it != o.rend(); ++it) { ok &= n > 0 && std::addressof(*it) == o.data() + n - 1; --n; } ok &= n == 0; ok &= static_cast<std::size_t>(co.cend() - co.cbegin()) == N && static_cast<std::size_t>(co.crend() - co.crbegin()) == N; }); outcome(c, r, true); if(r.ok() && !ok) violate(VALUE, "iteration does not meet every element once, in order"); } return;
				case GET: { bool ok{true}; r = sut(c, [&] { ok = getall(o, std::make_index_sequence<N>{}) && getall(co, std::make_index_sequence<N>{}); }); outcome(c, r, true); if(r.ok() && !ok) violate(VALUE, "get designates the wrong element"); } return;
				case COMPARE: { int e[6]{}; r = sut(c, [&] { e[0] = co == cp; e[1] = co != cp; e[2] = co < cp; e[3] = co > cp; e[4] = co <= cp; e[5] = co >= cp; }); outcome(c, r, true); const M & n{mo[j]}; const bool eq{std::equal(m.v, m.v + N, n.v)}, lt{std::lexicographical_compare(m.v, m.v + N, n.v, n.v + N)};
					if(r.ok() && (e[0] != eq || e[1] == eq || e[4] == e[3] || e[5] == e[2] || e[0] + e[2] + e[3] != 1 || (!L::allocates && e[2] != lt))) violate(VALUE, "comparison disagrees with the contents"); return; }
			}
		}
		void finish(Ctx & c) override { for(auto & x : sl) x.destroy(c); if constexpr(L::counted) if(c.live_elems) violate(LIFETIME, "%lld elements alive after all arrays were destroyed", static_cast<long long>(c.live_elems)); }
		static World * make(Ctx & c, const Plan & p) { return new ArrWorld(c, p); }
		static WorldKind kind(const char * name) { return WorldKind{name, ops(), NOPS, (1u << F_ALLOC) | (1u << F_OOM) | (1u << F_ELEM), &make}; }
	};
}
