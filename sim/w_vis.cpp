// World: visitation of ptl::variant and ptl::variant_ref; visitors modify, replace, nest and throw according to the plan.
#include "elems.hpp"
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>

namespace sim {
	using A0 = Soft; using A1 = int; using A2 = ListTracked<3>; using A3 = BasicTracked<2, false, 28>;
	using V = ptl::variant<A0, A1, A2, A3>;
	using VR = ptl::variant_ref<A0, A1, const A0, A3>;
	enum Cat { LV, CLV, RV, CRV, BYVAL };
	static const char * const cat_name[]{"lvalue","const lvalue","rvalue","const rvalue","value"};
	template<typename T> constexpr u32 alt_of() { if constexpr(std::is_same_v<T, A0>) return 0; else if constexpr(std::is_same_v<T, A1>) return 1; else if constexpr(std::is_same_v<T, A2>) return 2; else return 3; }

	struct VisWorld final : World {
		static constexpr u32 NV{3}, NR{3}, NO{2};
		static VisWorld * self;
		struct M { u32 alt; int v; };
		Slot<V> sv[NV]; M mv[NV]; Slot<VR> sr[NR]; u32 ralt[NR], robj[NR];
		Slot<A0> o0[NO]; Slot<A1> o1[NO]; Slot<A3> o3[NO]; int mo[4][NO]; // owners (alternative 2 of the reference is const A0: refers to o0)
		struct Frame { bool ref; u32 idx; u32 alt; Cat cat; const void * addr; int value; u32 calls; bool threw; int result; };
		std::vector<Frame> stack; u32 script{0}, ncall{0}; int slots[4]{}; int next_val{1};
		int fresh() { next_val = next_val % 200 + 1; return next_val % 8 ? next_val : 0; }
		enum Op : u32 { VISIT_FUNCTOR, VISIT_LAMBDA, VISIT_SET, VISIT_FALLBACK, VISIT_REFERENCE, VISIT_VOID, VISIT_MOVE_ONLY, VISIT_BY_VALUE, SET_VALUE, COPY, MOVE, SWAP,
			REF_BIND, REF_COPY, REF_ASSIGN, REF_VISIT_FUNCTOR, REF_VISIT_SET, REF_VISIT_LAMBDA, REF_VISIT_REFERENCE, REF_VISIT_BY_VALUE, REF_GET, OWNER_WRITE, NOPS };
		static const OpInfo * ops() { static const OpInfo o[]{{"visit_functor",10},{"visit_lambda",8},{"visit_set",10},{"visit_fallback",5},{"visit_reference",6},{"visit_void",4},{"visit_move_only",4},{"visit_by_value",5},{"set_value",10},{"copy",4},{"move",4},{"swap",3},
			{"ref_bind",8},{"ref_copy",4},{"ref_assign",4},{"ref_visit_functor",8},{"ref_visit_set",8},{"ref_visit_lambda",5},{"ref_visit_reference",5},{"ref_visit_by_value",4},{"ref_get",6},{"owner_write",5}}; static_assert(sizeof o / sizeof *o == NOPS); return o; }
		u32 abs_state() const override { u32 r{0}; for(auto & m : mv) r = r * 4 + m.alt; for(u32 a : ralt) r = r * 4 + a; return r; }

		const void * owner(u32 alt, u32 k) const { switch(alt) { case 0: case 2: return o0[k].p; case 1: return o1[k].p; default: return o3[k].p; } }
		int & owner_value(u32 alt, u32 k) { return mo[alt == 2 ? 0 : alt][k]; }
		int frame_value(const Frame & f) { return f.ref ? owner_value(f.alt, robj[f.idx]) : mv[f.idx].v; }

		// common body of all visitors; returns the result of the visitor
		template<typename E>
		int enter(u32 alt, Cat cat, E & e, bool by_value = false) {
			Ctx & c{*cur}; Off off{c};
			if(stack.empty()) { violate(DISPATCH, "a visitor was called although nothing was visited"); abandon_run(); }
			using T = std::remove_const_t<E>;
			const int val{El<T>::get(e)};
			{ Frame & f{stack.back()}; ++f.calls;
				if(f.calls != 1) violate(DISPATCH, "the visitor was called %u times for one visit", f.calls);
				if(f.alt != alt) violate(DISPATCH, "the visitor for alternative %u was called, alternative %u is held", alt, f.alt);
				if(f.cat != cat) violate(DISPATCH, "the visitor received a %s, expected a %s", cat_name[cat], cat_name[f.cat]);
				if(!by_value && static_cast<const void *>(&e) != f.addr) violate(DISPATCH, "the visitor received an object other than the one held");
				if(val != f.value) violate(DISPATCH, "the visitor received %d, expected %d", val, f.value);
				f.result = static_cast<int>(alt) * 1000 + val; }
			const std::size_t depth{stack.size()}; const u64 h{mix(mix(script, ncall++), 3)};
			const bool isref{stack.back().ref}; const u32 idx{stack.back().idx}; const u32 obj{isref ? robj[idx] : 0};
			bool gone{false};
			switch(h % 8) {
				case 2: case 3: if constexpr(!std::is_const_v<E>) if(!by_value) { const int x{fresh()}; T nv(El<T>::make(x)); { Arm a{c}; e = static_cast<const T &>(nv); } SIM_PROBE(visitor_changed_value); if(isref) mo[alt == 2 ? 0 : alt][obj] = El<T>::norm(x); else mv[idx].v = El<T>::norm(x); } break;
				case 4: if constexpr(!std::is_const_v<E>) if(cat == RV) { Arm a{c}; T taken{std::move(e)}; mv[idx].v = El<T>::get(e); } break;
				case 5: if(depth < 4) { SIM_PROBE(nested_visit); if((h >> 8) % 2) visit_functor(c, (h >> 12) % NV, static_cast<Cat>((h >> 16) % 2)); else ref_visit_functor(c, (h >> 12) % NR); } break;
				case 6: if constexpr(!std::is_const_v<E>) if(!isref && cat == LV) { SIM_PROBE(visitor_changed_value); const int x{fresh()}; gone = true; V & v{*sv[idx]}; { Arm a{c}; switch((h >> 8) % 4) { case 0: v.emplace<A0>(x); break; case 1: v = x; break; case 2: { A2 t(x); v = std::move(t); break; } default: v.emplace<A3>(x); } } mv[idx] = {static_cast<u32>((h >> 8) % 4), x}; } break;
				default: break;
			}
			(void)gone; Frame & f{stack[depth - 1]};
			bool hit; { Arm a{c}; hit = c.point(F_CALL); } if(hit) { SIM_PROBE(callee_threw); f.threw = true; throw Fault{F_CALL, c.fault_id}; }
			c.log(static_cast<u64>(f.result)); slots[alt] = f.result;
			return f.result;
		}
		// visitors
		struct Functor { // taken by reference: cannot be copied
			VisWorld & w; Functor(VisWorld & w) : w{w} {} Functor(const Functor &) =delete; int calls{0};
			template<typename T> int operator()(T & e) { ++calls; return w.enter(alt(e), std::is_const_v<T> ? CLV : LV, e); }
			template<typename T, typename = std::enable_if_t<!std::is_lvalue_reference_v<T>>> int operator()(T && e) { ++calls; return w.enter(alt(e), std::is_const_v<T> ? CRV : RV, e); }
			template<typename T> static u32 alt(T &) { return alt_of<std::remove_const_t<T>>(); }
		};
		// alternative index as seen by a visitor of a reference: const A0 is alternative 2
		struct RefFunctor { VisWorld & w; RefFunctor(VisWorld & w) : w{w} {} RefFunctor(const RefFunctor &) =delete; int calls{0};
			int operator()(A0 & e) { ++calls; return w.enter(0, LV, e); } int operator()(A1 & e) { ++calls; return w.enter(1, LV, e); } int operator()(const A0 & e) { ++calls; return w.enter(2, CLV, e); } int operator()(A3 & e) { ++calls; return w.enter(3, LV, e); } };
		template<typename F>
		int guarded(Ctx & c, Frame f, F && call) {
			stack.push_back(f); const std::size_t depth{stack.size()}; int got{0};
			try { Arm a{c}; got = call(); } catch(const Fault & e) { stack.resize(depth - 1); if(!c.fired[e.kind] || e.id != c.fault_id) violate(DISPATCH, "a visit threw something that was not injected"); throw; }
			const Frame g{stack[depth - 1]}; stack.resize(depth - 1);
			if(g.calls != 1) violate(DISPATCH, "one visit called %u visitors", g.calls);
			if(g.threw) violate(DISPATCH, "the visitor threw but the visit returned normally");
			if(got != g.result) violate(DISPATCH, "the visit returned %d, the visitor returned %d", got, g.result);
			return got;
		}
		const void * held(u32 i) const { return sv[i].p; }
		Frame frame(u32 i, Cat cat) { return {false, i, mv[i].alt, cat, held(i), mv[i].v, 0, false, 0}; }
		Frame rframe(u32 i, bool by_value = false) { return {true, i, by_value && ralt[i] == 2 ? 0u : ralt[i], by_value ? BYVAL : ralt[i] == 2 ? CLV : LV, owner(ralt[i], robj[i]), owner_value(ralt[i], robj[i]), 0, false, 0}; }
		template<typename... Fs> static decltype(auto) by_cat(V & v, Cat cat, Fs &&... f) { const V & cv{v}; switch(cat) { case LV: return v.visit(std::forward<Fs>(f)...); case CLV: return cv.visit(std::forward<Fs>(f)...); case RV: return std::move(v).visit(std::forward<Fs>(f)...); default: return std::move(cv).visit(std::forward<Fs>(f)...); } }
		int visit_functor(Ctx & c, u32 i, Cat cat) { Functor f{*this}; const int r{guarded(c, frame(i, cat), [&] { return by_cat(*sv[i], cat, f); })}; if(f.calls != 1) violate(DISPATCH, "the visitor passed by reference was copied"); return r; }
		int ref_visit_functor(Ctx & c, u32 i) { RefFunctor f{*this}; const VR & r{*sr[i]}; const int x{guarded(c, rframe(i), [&] { return r.visit(f); })}; if(f.calls != 1) violate(DISPATCH, "the visitor passed by reference was copied"); return x; }

		explicit VisWorld(Ctx & c, const Plan & p) {
			self = this; Track t{c};
			for(u32 k{0}; k < NO; ++k) { o0[k].p = Slot<A0>::raw(c); o1[k].p = Slot<A1>::raw(c); o3[k].p = Slot<A3>::raw(c); new(o0[k].p) A0(mo[0][k] = fresh()); new(o1[k].p) A1(mo[1][k] = fresh()); new(o3[k].p) A3(mo[3][k] = fresh()); }
			for(u32 i{0}; i < NV; ++i) { sv[i].p = Slot<V>::raw(c); const int x{fresh()}; switch(p.cfg[i] % 4) { case 0: new(sv[i].p) V(A0(x)); break; case 1: new(sv[i].p) V(x); break; case 2: new(sv[i].p) V(A2(x)); break; default: new(sv[i].p) V(A3(x)); } mv[i] = {p.cfg[i] % 4, x}; }
			for(u32 i{0}; i < NR; ++i) { sr[i].p = Slot<VR>::raw(c); ralt[i] = p.cfg[3 + i] % 4; robj[i] = 0; place(sr[i].p, ralt[i], 0); }
		}
		void place(void * q, u32 alt, u32 k) { switch(alt) { case 0: new(q) VR(*o0[k]); break; case 1: new(q) VR(*o1[k]); break; case 2: new(q) VR(static_cast<const A0 &>(*o0[k])); break; default: new(q) VR(*o3[k]); } }
		~VisWorld() override { self = nullptr; }
		void check(Ctx & c) {
			i64 live{2 * NO};
			for(u32 i{0}; i < NV; ++i) { const V & v{*sv[i]}; const M & m{mv[i]}; const bool h[]{v.holds<A0>(), v.holds<A1>(), v.holds<A2>(), v.holds<A3>()}; live += m.alt != 1;
				for(u32 k{0}; k < 4; ++k) if(h[k] != (k == m.alt)) { violate(DISPATCH, "variant %u does not hold alternative %u as the visitor left it (after %s)", i, m.alt, c.opname); abandon_run(); }
				const int g{m.alt == 0 ? El<A0>::get(v.get<A0>()) : m.alt == 1 ? v.get<A1>() : m.alt == 2 ? El<A2>::get(v.get<A2>()) : El<A3>::get(v.get<A3>())}; c.log(static_cast<u64>(g)); if(g != m.v) { violate(DISPATCH, "variant %u holds %d, expected %d (after %s)", i, g, m.v, c.opname); abandon_run(); } }
			for(u32 i{0}; i < NR; ++i) { const VR & r{*sr[i]}; const void * q{r.holds<A0>() ? static_cast<const void *>(r.get_if<A0>()) : r.holds<A1>() ? static_cast<const void *>(r.get_if<A1>()) : r.holds<const A0>() ? static_cast<const void *>(r.get_if<const A0>()) : static_cast<const void *>(r.get_if<A3>())}; if(q != owner(ralt[i], robj[i])) violate(DISPATCH, "reference %u does not designate what it was bound to (after %s)", i, c.opname); }
			for(u32 k{0}; k < NO; ++k) if(El<A0>::get(*o0[k]) != mo[0][k] || *o1[k] != mo[1][k] || El<A3>::get(*o3[k]) != mo[3][k]) { violate(DISPATCH, "an owner's value changed unexpectedly (after %s)", c.opname); abandon_run(); }
			if(c.live_elems != live) { violate(LIFETIME, "%lld objects alive, expected %lld (after %s)", static_cast<long long>(c.live_elems), static_cast<long long>(live), c.opname); c.live_elems = live; }
		}
		void step(Ctx & c, const Step & s) override {
			Off off{c}; stack.clear(); script = s.a[3]; ncall = 0; Result r{Out::ok}; self = this; next_val = static_cast<int>(mix(s.a[2], c.step_no) % 200);
			const u32 i{s.a[0] % NV}, j{s.a[1] % NV}; const Cat cat{static_cast<Cat>(s.a[2] % 4)}; V & v{*sv[i]}; const u32 k{s.a[1] % NO}, alt{s.a[2] % 4};
			VisWorld * const w{this};
			const auto run{[&](auto && f) { r = sut(c, [&] { Off o{c}; f(); }); }};
			if(c.trace) c.note("    v%u holds alternative %u, %s; ref%u -> alternative %u", i, mv[i].alt, cat_name[cat], i, ralt[i]);
			switch(s.op) {
				case VISIT_FUNCTOR: run([&] { visit_functor(c, i, cat); }); break;
				case VISIT_LAMBDA: run([&] { guarded(c, frame(i, cat), [&] { return by_cat(v, cat, [w](auto && e) { using T = decltype(e); using U = std::remove_reference_t<T>; return w->enter(alt_of<std::remove_const_t<U>>(), std::is_lvalue_reference_v<T> ? (std::is_const_v<U> ? CLV : LV) : (std::is_const_v<U> ? CRV : RV), e); }); }); }); break;
				case VISIT_SET: run([&] { guarded(c, frame(i, cat), [&] { const V & cv{v}; switch(cat) {
					#define SET(Q, CAT) visit([w](A0 Q e) { return w->enter(0, CAT, e); }, [w](A1 Q e) { return w->enter(1, CAT, e); }, [w](A2 Q e) { return w->enter(2, CAT, e); }, [w](A3 Q e) { return w->enter(3, CAT, e); })
					case LV: return v.SET(&, LV); case CLV: return cv.SET(const &, CLV); case RV: return std::move(v).SET(&&, RV); default: return std::move(cv).SET(const &&, CRV);
					#undef SET
				} }); }); break;
				case VISIT_FALLBACK: run([&] { guarded(c, frame(i, LV), [&] { return v.visit([w](A3 & e) { return w->enter(3, LV, e); }, [w](auto & e) { return w->enter(alt_of<std::decay_t<decltype(e)>>(), LV, e); }); }); }); break;
				case VISIT_REFERENCE: run([&] { guarded(c, frame(i, LV), [&] { int & x{v.visit([w](auto & e) -> int & { w->enter(alt_of<std::decay_t<decltype(e)>>(), LV, e); return w->slots[alt_of<std::decay_t<decltype(e)>>()]; })}; const u32 a{stack.back().alt}; if(&x != &slots[a]) { violate(DISPATCH, "a reference result designates another object"); return slots[a]; } return x; }); }); break;
				case VISIT_VOID: run([&] { guarded(c, frame(i, CLV), [&] { const V & cv{v}; cv.visit([w](const auto & e) { w->enter(alt_of<std::decay_t<decltype(e)>>(), CLV, e); }); return stack.back().result; }); }); break;
				case VISIT_MOVE_ONLY: run([&] { guarded(c, frame(i, LV), [&] { auto q{v.visit([w](auto & e) { const int x{w->enter(alt_of<std::decay_t<decltype(e)>>(), LV, e)}; Off o{*cur}; return std::make_unique<int>(x); })}; Off o{c}; const int x{q ? *q : -1}; q.reset(); return x; }); }); break;
				case VISIT_BY_VALUE: run([&] { guarded(c, frame(i, BYVAL), [&] { const V & cv{v}; return cv.visit([w](A0 e) { return w->enter(0, BYVAL, e, true); }, [w](A1 e) { return w->enter(1, BYVAL, e, true); }, [w](A2 e) { return w->enter(2, BYVAL, e, true); }, [w](A3 e) { return w->enter(3, BYVAL, e, true); }); }); }); break;
				case SET_VALUE: { const int x{fresh()}; r = sut(c, [&] { switch(alt) { case 0: v.emplace<A0>(x); break; case 1: v = x; break; case 2: v = A2(x); break; default: v.emplace<A3>(x); } }); if(r.ok()) mv[i] = {alt, x}; break; }
				case COPY: r = sut(c, [&] { v = static_cast<const V &>(*sv[j]); }); if(r.ok()) mv[i] = M{mv[j]}; break;
				case MOVE: if(i == j) break; r = sut(c, [&] { v = std::move(*sv[j]); }); if(r.ok()) { mv[i] = mv[j]; if(mv[j].alt != 1) mv[j].v = moved_value; } break;
				case SWAP: r = sut(c, [&] { v.swap(*sv[j]); }); if(r.ok()) std::swap(mv[i], mv[j]); break;
				case REF_BIND: r = sr[i].build(c, [&](void * q) { place(q, alt, k); }); if(r.ok()) { ralt[i] = alt; robj[i] = k; } break;
				case REF_COPY: r = sr[i].build(c, [&](void * q) { if(s.a[4] % 2) new(q) VR(*sr[j]); else new(q) VR(static_cast<const VR &>(*sr[j])); }); if(r.ok()) { ralt[i] = ralt[j]; robj[i] = robj[j]; } break;
				case REF_ASSIGN: r = sut(c, [&] { if(&(*sr[i] = *sr[j]) != &*sr[i]) violate(DISPATCH, "assignment returned another object"); }); if(r.ok()) { ralt[i] = ralt[j]; robj[i] = robj[j]; } break;
				case REF_VISIT_FUNCTOR: run([&] { ref_visit_functor(c, i); }); break;
				case REF_VISIT_SET: run([&] { guarded(c, rframe(i), [&] { return sr[i]->visit([w](A0 & e) { return w->enter(0, LV, e); }, [w](A1 & e) { return w->enter(1, LV, e); }, [w](const A0 & e) { return w->enter(2, CLV, e); }, [w](A3 & e) { return w->enter(3, LV, e); }); }); }); break;
				case REF_VISIT_LAMBDA: run([&] { guarded(c, rframe(i), [&] { const VR & x{*sr[i]}; return x.visit([w](auto & e) { using T = std::remove_reference_t<decltype(e)>; return w->enter(std::is_const_v<T> ? 2u : alt_of<std::remove_const_t<T>>(), std::is_const_v<T> ? CLV : LV, e); }); }); }); break;
				case REF_VISIT_REFERENCE: run([&] { guarded(c, rframe(i), [&] { int & x{sr[i]->visit([w](auto & e) -> int & { using T = std::remove_reference_t<decltype(e)>; const u32 a{std::is_const_v<T> ? 2u : alt_of<std::remove_const_t<T>>()}; w->enter(a, std::is_const_v<T> ? CLV : LV, e); return w->slots[a]; })}; const u32 a{stack.back().alt}; if(&x != &slots[a]) { violate(DISPATCH, "a reference result designates another object"); return slots[a]; } return x; }); }); break;
				case REF_VISIT_BY_VALUE: run([&] { guarded(c, rframe(i, true), [&] { return sr[i]->visit([w](A0 e) { return w->enter(0, BYVAL, e, true); }, [w](A1 e) { return w->enter(1, BYVAL, e, true); }, [w](A3 e) { return w->enter(3, BYVAL, e, true); }); }); }); break;
				case REF_GET: { const VR & x{*sr[i]}; const void * q{nullptr}; const void * z{nullptr}; r = sut(c, [&] { switch(alt) { case 0: z = x.get_if<A0>(); q = &x.get<A0>(); break; case 1: z = x.get_if<A1>(); q = &x.get<A1>(); break; case 2: z = x.get_if<const A0>(); q = &x.get<const A0>(); break; default: z = x.get_if<A3>(); q = &x.get<A3>(); } });
					if(alt == ralt[i]) { if(!r.ok() || q != owner(alt, robj[i]) || z != q) violate(DISPATCH, "get of the referenced alternative does not designate the object"); } else { SIM_PROBE(bad_access); if(r.out != Out::bad_variant || z) violate(DISPATCH, "get of another alternative gave %s", out_name[static_cast<int>(r.out)]); r = {Out::ok}; } break; }
				case OWNER_WRITE: { const int x{fresh()}; switch(alt) { case 1: *o1[k] = x; mo[1][k] = x; break; case 3: *o3[k] = A3(x); mo[3][k] = x; break; default: *o0[k] = A0(x); mo[0][k] = x; } break; }
			}
			if(!r.ok() && (r.out != Out::fault || !legal_failure(c, r, false))) violate(DISPATCH, "%s ended with %s although nothing was injected", c.opname, out_name[static_cast<int>(r.out)]);
			stack.clear(); check(c);
		}
		void finish(Ctx & c) override { for(auto & x : sv) x.destroy(c); for(auto & x : sr) x.destroy(c); for(u32 k{0}; k < NO; ++k) { o0[k].destroy(c); o1[k].destroy(c); o3[k].destroy(c); } if(c.live_elems) violate(LIFETIME, "%lld objects alive at the end", static_cast<long long>(c.live_elems)); }
		static World * make(Ctx & c, const Plan & p) { Off off{c}; return new VisWorld(c, p); }
	};
	VisWorld * VisWorld::self{nullptr};
	static RegisterWorld r{WorldKind{"vis", VisWorld::ops(), VisWorld::NOPS, (1u << F_CALL) | (1u << F_ELEM), &VisWorld::make}};
}
