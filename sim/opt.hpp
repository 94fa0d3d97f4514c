// World: several ptl::optional<E> objects against {engaged, value}.
#pragma once
#include "elems.hpp"
#include <ptl/optional.hpp>

namespace sim {
	template<typename E>
	struct OptWorld final : World {
		using O = ptl::optional<E>; using L = El<E>;
		static constexpr u32 NS{4};
		struct M { bool on{false}; int v{0}; };
		Slot<O> sl[NS]; M mo[NS]; int next_val{1};
		enum Op : u32 { CTOR_DEFAULT, CTOR_NULL, CTOR_COPY, CTOR_MOVE, CTOR_VALUE, CTOR_VALUE_MOVE, CTOR_IN_PLACE0, CTOR_IN_PLACE1, CTOR_IN_PLACE2, ASSIGN_NULL, COPY_ASSIGN, MOVE_ASSIGN, ASSIGN_VALUE, ASSIGN_VALUE_MOVE,
			EMPLACE0, EMPLACE1, EMPLACE2, EMPLACE_MOVE, RESET, SWAP_MEMBER, SWAP_FRIEND, VALUE_, VALUE_RV, VALUE_CONST, VALUE_CONST_RV, DEREF, VALUE_OR, VALUE_OR_RV, WRITE, COMPARE, COMPARE_NULL, COMPARE_VALUE,
			SELF_ASSIGN_VALUE, SELF_ASSIGN_MOVE, SELF_EMPLACE, SELF_EMPLACE_MOVE, NOPS };
		static const OpInfo * ops() {
			static const OpInfo o[]{{"ctor_default",2},{"ctor_null",2},{"ctor_copy",6},{"ctor_move",5},{"ctor_value",6},{"ctor_value_move",4},{"ctor_in_place0",3},{"ctor_in_place1",5},{"ctor_in_place2",3},{"assign_null",4},{"copy_assign",9},{"move_assign",8},{"assign_value",9},{"assign_value_move",6},
				{"emplace0",3},{"emplace1",8},{"emplace2",4},{"emplace_move",4},{"reset",4},{"swap_member",6},{"swap_friend",5},{"value",3},{"value_rv",2},{"value_const",3},{"value_const_rv",2},{"deref",3},{"value_or",3},{"value_or_rv",2},{"write",4},{"compare",4},{"compare_null",2},{"compare_value",3},
				{"self_assign_value",4},{"self_assign_move",3},{"self_emplace",4},{"self_emplace_move",3}};
			static_assert(sizeof o / sizeof *o == NOPS); return o;
		}
		int fresh() { next_val = next_val % 200 + 1; return next_val % 8 ? next_val : 0; }
		explicit OptWorld(Ctx & c, const Plan & p) { for(u32 i{0}; i < NS; ++i) { sl[i].p = Slot<O>::raw(c); Track t{c}; new(static_cast<void *>(sl[i].p)) O; if(p.cfg[i] % 2) { const int v{fresh()}; *sl[i] = L::make(v); mo[i] = {true, L::norm(v)}; } } }
		u32 abs_state() const override { u32 r{0}; for(auto & m : mo) r = r * 2 + m.on; return r; }
		void check(Ctx & c, bool failed) {
			const Cls cls{failed ? ATOMIC : VALUE}; i64 total{0};
			for(u32 i{0}; i < NS; ++i) {
				const O & o{*sl[i]}; total += mo[i].on;
				if(o.has_value() != mo[i].on || static_cast<bool>(o) != mo[i].on) { violate(cls, "optional %u is %s, expected %s (after %s)", i, o.has_value() ? "engaged" : "empty", mo[i].on ? "engaged" : "empty", c.opname); abandon_run(); }
				if(mo[i].on) { const int g{L::get(*o)}; c.log(static_cast<u64>(g)); if(g != mo[i].v) { violate(cls, "optional %u holds %d, expected %d (after %s)", i, g, mo[i].v, c.opname); abandon_run(); } } else c.log(0xe);
			}
			if constexpr(L::counted) if(c.live_elems != total) { violate(LIFETIME, "%lld payloads alive, %lld optionals engaged (after %s)", static_cast<long long>(c.live_elems), static_cast<long long>(total), c.opname); c.live_elems = total; }
		}
		static M read(const O & o) { return o.has_value() ? M{true, L::get(*o)} : M{}; }
		bool outcome(Ctx & c, const Result & r, bool nofail, bool engaged) {
			if(r.ok()) return false;
			if(!legal_failure(c, r, false)) violate(VALUE, "%s reported %s although nothing failed", c.opname, out_name[static_cast<int>(r.out)]);
			if(nofail) violate(NOFAIL, "%s failed (%s) although it cannot fail", c.opname, out_name[static_cast<int>(r.out)]);
			if(engaged) SIM_PROBE(payload_throw_engaged); else SIM_PROBE(payload_throw_empty);
			return true;
		}
		void step(Ctx & c, const Step & s) override { const bool f{step_impl(c, s)}; check(c, f); }
		bool step_impl(Ctx & c, const Step & s) {
			const u32 i{s.a[0] % NS}, j{s.a[1] % NS}; Slot<O> & S{sl[i]}; O & o{*S}; const O & co{o}; O & p{*sl[j]}; const O & cp{p}; M & m{mo[i]};
			const bool was{m.on}; const u32 aux{s.a[2]};
			if(c.trace) c.note("    o%u (%s) other=o%u (%s)", i, was ? "engaged" : "empty", j, mo[j].on ? "engaged" : "empty");
			struct Arg { Ctx & c; E * e; Arg(Ctx & c, int v) : c{c} { Track t{c}; e = Slot<E>::raw(c); new(static_cast<void *>(e)) E(L::make(v)); } ~Arg() { { Track t{c}; e->~E(); } Slot<E>::drop(c, e); } E & operator*() { return *e; } };
			const auto me{[&](O & r) { if(&r != &o) violate(VALUE, "%s returned another object", c.opname); }};
			const auto inside{[&](const E & r) { if(static_cast<const void *>(std::addressof(r)) < static_cast<const void *>(&o) || static_cast<const void *>(std::addressof(r)) >= static_cast<const void *>(&o + 1)) violate(VALUE, "%s returned a reference outside the optional", c.opname); }};
			Result r{Out::ok}; const int x{fresh()}; const M set{true, L::norm(x)};
			switch(s.op) {
				case CTOR_DEFAULT: r = S.build(c, [&](void * q) { new(q) O; }); if(!outcome(c, r, true, was)) m = {}; return !r.ok();
				case CTOR_NULL: r = S.build(c, [&](void * q) { new(q) O(std::nullopt); }); if(!outcome(c, r, true, was)) m = {}; return !r.ok();
				case CTOR_COPY: r = S.build(c, [&](void * q) { copy_into(q, p, s.a[5]); }); if(!outcome(c, r, false, was)) m = M{mo[j]}; return !r.ok();
				case CTOR_MOVE: { const M t{mo[j]}; if(i == j) { Slot<O> tmp; r = tmp.build(c, [&](void * q) { new(q) O(std::move(p)); }); if(!outcome(c, r, true, was)) { S.destroy(c); S.p = tmp.p; m = t; } return !r.ok(); }
					r = S.build(c, [&](void * q) { new(q) O(std::move(p)); }); if(!outcome(c, r, true, was)) { m = t; mo[j] = read(p); SIM_PROBE(moved_from_use); } return !r.ok(); }
				case CTOR_VALUE: { Arg a{c, x}; r = S.build(c, [&](void * q) { lend(*a, s.a[5], [&](auto & e) { new(q) O(e); }); }); if(!outcome(c, r, false, was)) m = set; return !r.ok(); }
				case CTOR_VALUE_MOVE: { Arg a{c, x}; r = S.build(c, [&](void * q) { new(q) O(std::move(*a)); }); if(!outcome(c, r, true, was)) m = set; return !r.ok(); }
				case CTOR_IN_PLACE0: r = S.build(c, [&](void * q) { new(q) O(std::in_place); }); if(!outcome(c, r, false, was)) m = {true, L::get(E{})}; return !r.ok();
				case CTOR_IN_PLACE1: { Arg a{c, x}; r = S.build(c, [&](void * q) { lend(*a, s.a[5], [&](auto & e) { new(q) O(std::in_place, e); }); }); if(!outcome(c, r, false, was)) m = set; return !r.ok(); }
				case CTOR_IN_PLACE2: if constexpr(std::is_constructible_v<E, int, int> && !L::allocates) { r = S.build(c, [&](void * q) { new(q) O(std::in_place, x, 5); }); if(!outcome(c, r, false, was)) m = {true, x + 5}; } return !r.ok();
				case ASSIGN_NULL: r = sut(c, [&] { me(o = std::nullopt); }); if(!outcome(c, r, true, was)) m = {}; return !r.ok();
				case COPY_ASSIGN: if(i == j) c.rename("self_copy_assign"); r = sut(c, [&] { me(copy_onto(o, p, s.a[5])); }); if(!outcome(c, r, false, was)) m = M{mo[j]}; return !r.ok();
				case MOVE_ASSIGN: { const M t{mo[j]}; if(i == j) SIM_PROBE(self_move); r = sut(c, [&] { me(o = std::move(p)); }); if(!outcome(c, r, true, was)) { m = t; if(i != j) { mo[j] = read(p); SIM_PROBE(moved_from_use); } } return !r.ok(); }
				case ASSIGN_VALUE: { Arg a{c, x}; r = sut(c, [&] { lend(*a, s.a[5], [&](auto & e) { me(o = e); }); }); if(!outcome(c, r, false, was)) m = set; return !r.ok(); }
				case ASSIGN_VALUE_MOVE: { Arg a{c, x}; r = sut(c, [&] { me(o = std::move(*a)); }); if(!outcome(c, r, true, was)) m = set; return !r.ok(); }
				case EMPLACE0: r = sut(c, [&] { inside(o.emplace()); }); if(!outcome(c, r, false, was)) m = {true, L::get(E{})}; return !r.ok();
				case EMPLACE1: { Arg a{c, x}; r = sut(c, [&] { lend(*a, s.a[5], [&](auto & e) { inside(o.emplace(e)); }); }); if(!outcome(c, r, false, was)) m = set; return !r.ok(); }
				case EMPLACE2: if constexpr(std::is_constructible_v<E, int, int> && !L::allocates) { r = sut(c, [&] { inside(o.emplace(x, 7)); }); if(!outcome(c, r, false, was)) m = {true, x + 7}; } return !r.ok();
				case EMPLACE_MOVE: { Arg a{c, x}; r = sut(c, [&] { inside(o.emplace(std::move(*a))); }); if(!outcome(c, r, false, was)) m = set; return !r.ok(); }
				case RESET: r = sut(c, [&] { o.reset(); }); if(!outcome(c, r, true, was)) m = {}; return !r.ok();
				case SWAP_MEMBER: case SWAP_FRIEND: if(i == j) SIM_PROBE(self_swap); r = sut(c, [&] { if(s.op == SWAP_MEMBER) o.swap(p); else { using std::swap; swap(o, p); } }); if(!outcome(c, r, true, was) && i != j) std::swap(m, mo[j]); return !r.ok();
				case VALUE_: case VALUE_RV: case VALUE_CONST: case VALUE_CONST_RV: { int g{0};
					r = sut(c, [&] { switch(s.op) { case VALUE_: { E & e{o.value()}; inside(e); g = L::get(e); break; } case VALUE_RV: { E && e{std::move(o).value()}; inside(e); g = L::get(e); break; } case VALUE_CONST: { const E & e{co.value()}; inside(e); g = L::get(e); break; } default: { const E && e{std::move(co).value()}; inside(e); g = L::get(e); } } });
					if(was) { outcome(c, r, true, was); if(r.ok() && g != m.v) violate(VALUE, "value() gave %d, expected %d", g, m.v); } else { SIM_PROBE(bad_access); if(r.out != Out::bad_optional) violate(VALUE, "value() of an empty optional gave %s, expected bad_optional_access", out_name[static_cast<int>(r.out)]); } return !r.ok(); }
				case DEREF: if(!was) return false; { int g[6]{}; r = sut(c, [&] { g[0] = L::get(*o); g[1] = L::get(*co); g[2] = L::get(*o.operator->()); g[3] = L::get(*co.operator->()); { E && e{*std::move(o)}; inside(e); g[4] = L::get(e); } { const E && e{*std::move(co)}; inside(e); g[5] = L::get(e); } }); outcome(c, r, true, was); for(int k : g) if(r.ok() && k != m.v) violate(VALUE, "access gave %d, expected %d", k, m.v); } return !r.ok();
				case VALUE_OR: { Arg a{c, x}; int g{0}; r = sut(c, [&] { g = L::get(co.value_or(static_cast<const E &>(*a))); }); if(!outcome(c, r, false, was) && g != (was ? m.v : L::norm(x))) violate(VALUE, "value_or gave %d", g); return !r.ok(); }
				case VALUE_OR_RV: { Arg a{c, x}; int g{0}; r = sut(c, [&] { g = L::get(std::move(o).value_or(std::move(*a))); }); if(!outcome(c, r, true, was)) { if(g != (was ? m.v : L::norm(x))) violate(VALUE, "value_or gave %d", g); m = read(o); if(m.on != was) violate(VALUE, "value_or changed the engaged state"); } return !r.ok(); }
				case WRITE: if(!was) return false; { Arg a{c, x}; r = sut(c, [&] { switch(aux % 3) { case 0: *o = static_cast<const E &>(*a); break; case 1: o.value() = static_cast<const E &>(*a); break; default: *o.operator->() = static_cast<const E &>(*a); } }); if(!outcome(c, r, false, was)) m = set; } return !r.ok();
				case COMPARE: { int e[6]{}; r = sut(c, [&] { e[0] = co == cp; e[1] = co != cp; e[2] = co < cp; e[3] = co > cp; e[4] = co <= cp; e[5] = co >= cp; }); outcome(c, r, true, was); const M & n{mo[j]};
					if(r.ok() && (e[0] != (m.on == n.on && (!m.on || m.v == n.v)) || e[1] == e[0] || e[2] + e[3] + e[0] != 1 || e[4] == e[3] || e[5] == e[2] || (!m.on && n.on && !e[2]))) violate(VALUE, "comparison disagrees with the contents"); return !r.ok(); }
				case COMPARE_NULL: { int e[12]{}; r = sut(c, [&] { e[0] = co == std::nullopt; e[1] = co != std::nullopt; e[2] = co < std::nullopt; e[3] = co > std::nullopt; e[4] = co <= std::nullopt; e[5] = co >= std::nullopt; e[6] = std::nullopt == co; e[7] = std::nullopt != co; e[8] = std::nullopt > co; e[9] = std::nullopt < co; e[10] = std::nullopt >= co; e[11] = std::nullopt <= co; });
					const int w[]{!was, was, 0, was, !was, 1}; for(int k{0}; k < 12; ++k) if(r.ok() && e[k] != w[k % 6]) { violate(VALUE, "comparison %d with nullopt is wrong", k); break; } return !r.ok(); }
				case COMPARE_VALUE: { Arg a{c, aux % 2 && was && m.v > 0 && !L::allocates ? m.v : x}; const int y{aux % 2 && was && m.v > 0 && !L::allocates ? m.v : L::norm(x)}; const E & ce{*a}; int e[12]{}; r = sut(c, [&] { e[0] = co == ce; e[1] = co != ce; e[2] = co < ce; e[3] = co > ce; e[4] = co <= ce; e[5] = co >= ce; e[6] = ce == co; e[7] = ce != co; e[8] = ce > co; e[9] = ce < co; e[10] = ce >= co; e[11] = ce <= co; });
					const bool eq{was && m.v == y}; bool bad{e[0] != eq || e[1] == eq || e[2] == e[5] || e[3] == e[4] || (eq && (e[2] || e[3])) || (!was && !e[2]) || (was && !eq && e[2] == e[3])}; if constexpr(!L::allocates) bad |= was && e[2] != (m.v < y); for(int k{0}; k < 6; ++k) bad |= e[k] != e[k + 6];
					if(r.ok() && bad) violate(VALUE, "comparison with a value is wrong"); outcome(c, r, true, was); return !r.ok(); }
				case SELF_ASSIGN_VALUE: if(!was) return false; r = sut(c, [&] { me(o = *co); }); outcome(c, r, false, was); return !r.ok();
				case SELF_ASSIGN_MOVE: if(!was) return false; r = sut(c, [&] { me(o = std::move(*o)); }); outcome(c, r, true, was); if(L::allocates && r.ok()) { m = read(o); if(!m.on) violate(VALUE, "self move emptied the optional"); } return !r.ok();
				case SELF_EMPLACE: if(!was) return false; r = sut(c, [&] { inside(o.emplace(*co)); }); outcome(c, r, false, was); return !r.ok();
				case SELF_EMPLACE_MOVE: if(!was) return false; r = sut(c, [&] { inside(o.emplace(std::move(*o))); }); outcome(c, r, false, was); return !r.ok();
				default: return false;
			}
		}
		void finish(Ctx & c) override { for(auto & x : sl) x.destroy(c); if constexpr(L::counted) if(c.live_elems) violate(LIFETIME, "%lld payloads alive after all optionals were destroyed", static_cast<long long>(c.live_elems)); }
		static World * make(Ctx & c, const Plan & p) { return new OptWorld(c, p); }
		static WorldKind kind(const char * name) { return WorldKind{name, ops(), NOPS, (1u << F_ALLOC) | (1u << F_OOM) | (1u << F_ELEM), &make}; }
	};
}
