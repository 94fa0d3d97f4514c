#pragma once
// World: ptl::function_ref of several signatures over functors and functions; targets re-enter, rebind, copy and throw according to the plan.
#include "elems.hpp"
#include <ptl/function_ref.hpp>

namespace sim {
	struct CallBase : World {
		static constexpr u32 NS{3}, NT{6}; static CallBase * self;
		struct Frame { int target; int arg; int payload; u32 calls; bool threw; int result; };
		std::vector<Frame> stack; int bound[NS]{-1, -1, -1}; int own[NT]{}; int res[NT]{}; u32 script{0}, ncall{0}; u32 cur_ref{0};
		virtual void rebind_to(u32 ref, int target) =0;
		virtual int invoke(Ctx & c, u32 ref, int arg, bool through_copy) =0;
		virtual int state_of(int target) const =0;
		virtual void set_state(int target, int v) =0;
		virtual const void * object(int target) const =0;
		virtual bool may_throw() const =0;
		// body of every target
		int enter(int id, const void * obj, int arg, int payload, bool can_throw) {
			Ctx & c{*cur}; Off off{c};
			if(stack.empty()) { violate(DISPATCH, "target %d was called although nothing was calling", id); abandon_now(); }
			{ Frame & f{stack.back()};
				++f.calls;
				if(f.target != id) { violate(DISPATCH, "target %d was called, expected target %d", id, f.target); }
				if(f.calls != 1) violate(DISPATCH, "target %d was called %u times for one call", id, f.calls);
				if(f.arg != arg || f.payload != payload) violate(DISPATCH, "target %d received (%d, %d), expected (%d, %d)", id, arg, payload, f.arg, f.payload);
				if(obj != object(id)) violate(DISPATCH, "target %d was called on another object", id);
			}
			const std::size_t depth{stack.size()};
			const u64 h{mix(mix(script, ncall++), 7)}; const u32 ref{cur_ref};
			switch(h % 8) {
				case 2: set_state(id, state_of(id) + 1); SIM_PROBE(target_changed); break;
				case 3: SIM_PROBE(rebind_in_call); rebind_to(ref, static_cast<int>((h >> 8) % NT)); break;
				case 4: case 5: if(depth < 5) { SIM_PROBE(reentrant_call); const u32 r{h % 16 < 8 ? ref : static_cast<u32>((h >> 16) % NS)};
					if((h >> 20) % 3 == 0) { try { invoke(c, r, arg + 1, (h >> 24) % 2); } catch(const Fault & e) { if(!c.fired[e.kind] || e.id != c.fault_id) violate(DISPATCH, "a nested call threw something that was not injected"); } }
					else if(can_throw) invoke(c, r, arg + 1, (h >> 24) % 2);
					cur_ref = ref; } break;
				default: break;
			}
			Frame & f{stack[depth - 1]};
			if(can_throw) { bool hit; { Arm a{c}; hit = c.point(F_CALL); } if(hit) { SIM_PROBE(callee_threw); f.threw = true; throw Fault{F_CALL, c.fault_id}; } }
			f.result = id * 1000 + (state_of(id) % 50) * 10 + arg % 10; res[id] = f.result; c.log(static_cast<u64>(f.result));
			return f.result;
		}
		[[noreturn]] static void abandon_now() { abandon_run(); }
		static bool excused(Ctx & c, const Frame & f) { return f.threw || c.fired[F_ELEM] || c.fired[F_CALL]; }
	};
	inline CallBase * CallBase::self{nullptr};

	// a signature type provides callables whose bodies call enter(id, object, arg, payload)

	template<typename F>
	struct CallWorld final : CallBase {
		using R = ptl::function_ref<typename F::Sig>;
		typename F::template C<0, 1> t0; const typename F::template C<1, 100> t1; typename F::template M<2> t2; typename F::template C<3, 3> t3; int s4{4}, s5{5}, s1{1};
		Slot<R> sl[NS];
		enum Op : u32 { BIND_CTOR, BIND_ASSIGN, COPY_CTOR, COPY_ASSIGN, SELF_ASSIGN, DROP_SOURCE, CALL, CALL_COPY, CALL_AFTER_CHANGE, SWAP, NOPS };
		static const OpInfo * ops() { static const OpInfo o[]{{"bind_ctor",6},{"bind_assign",7},{"copy_ctor",4},{"copy_assign",5},{"self_assign",2},{"drop_source",3},{"call",20},{"call_copy",7},{"call_after_change",6},{"swap",3}}; static_assert(sizeof o / sizeof *o == NOPS); return o; }
		bool may_throw() const override { return F::can_throw; }
		const void * object(int t) const override { switch(t) { case 0: return &t0; case 1: return &t1; case 2: return &t2; case 3: return &t3; default: return nullptr; } }
		int state_of(int t) const override { switch(t) { case 0: return t0.own; case 1: return s1; case 2: return t2.own; case 3: return t3.own; case 4: return s4; default: return s5; } }
		void set_state(int t, int v) override { switch(t) { case 0: t0.own = v; break; case 1: s1 = v; break; case 2: t2.own = v; break; case 3: t3.own = v; break; case 4: s4 = v; break; default: s5 = v; } }
		void make_ref(void * q, int t) { switch(t) { case 0: new(q) R(t0); break; case 1: new(q) R(t1); break; case 2: new(q) R(t2); break; case 3: new(q) R(t3); break; case 4: new(q) R(&F::template fun<4>); break; default: new(q) R(F::template fun<5>); } }
		void rebind_to(u32 ref, int t) override { R & r{*sl[ref]}; switch(t) { case 0: r = R{t0}; break; case 1: r = R{t1}; break; case 2: { R tmp{t2}; r = tmp; break; } case 3: { const R tmp{t3}; r = tmp; break; } case 4: r = &F::template fun<4>; break; default: r = R{F::template fun<5>}; } bound[ref] = t; }
		int invoke(Ctx & c, u32 ref, int arg, bool through_copy) override {
			const int pv{arg * 7 + 1}; Soft payload(pv); const u32 outer{cur_ref}; cur_ref = ref;
			stack.push_back({bound[ref], arg, pv, 0, false, 0}); const std::size_t depth{stack.size()};
			int got{0}; bool threw{false};
			try {
				if(through_copy) { const R tmp{*sl[ref]}; Arm a{c}; got = F::call(tmp, arg, payload, *this); }
				else if(arg % 2) { const R & r{*sl[ref]}; Arm a{c}; got = F::call(r, arg, payload, *this); }
				else { R & r{*sl[ref]}; Arm a{c}; got = F::call(r, arg, payload, *this); }
			} catch(const Fault & e) {
				threw = true; const Frame f{stack[depth - 1]}; stack.resize(depth - 1); cur_ref = outer;
				if(!c.fired[e.kind] || e.id != c.fault_id) violate(DISPATCH, "a call threw something that was not injected");
				throw;
			}
			const Frame f{stack[depth - 1]}; stack.resize(depth - 1); cur_ref = outer;
			if(f.calls != 1) violate(DISPATCH, "one call reached its target %u times", f.calls);
			if(f.threw) violate(DISPATCH, "the target threw but the call returned normally");
			if(got != f.result) violate(DISPATCH, "the call returned %d, the target returned %d", got, f.result);
			(void)threw; return got;
		}
		explicit CallWorld(Ctx & c, const Plan & p) { self = this; for(u32 i{0}; i < NS; ++i) { sl[i].p = Slot<R>::raw(c); bound[i] = static_cast<int>(p.cfg[i] % NT); make_ref(sl[i].p, bound[i]); } }
		~CallWorld() override { self = nullptr; }
		u32 abs_state() const override { u32 r{0}; for(int b : bound) r = r * 7 + static_cast<u32>(b); return r; }
		void step(Ctx & c, const Step & s) override {
			Off off{c}; self = this; stack.clear(); script = s.a[3]; ncall = 0;
			const u32 i{s.a[0] % NS}, j{s.a[1] % NS}; const int t{static_cast<int>(s.a[2] % NT)}; Result r{Out::ok};
			if(c.trace) c.note("    ref%u -> target %d", i, bound[i]);
			switch(s.op) {
				case BIND_CTOR: r = sl[i].build(c, [&](void * q) { make_ref(q, t); }); if(r.ok()) bound[i] = t; break;
				case BIND_ASSIGN: r = sut(c, [&] { rebind_to(i, t); }); break;
				case COPY_CTOR: r = sl[i].build(c, [&](void * q) { if(s.a[4] % 2) new(q) R(*sl[j]); else new(q) R(static_cast<const R &>(*sl[j])); }); if(r.ok()) bound[i] = bound[j]; break;
				case COPY_ASSIGN: r = sut(c, [&] { if(&(*sl[i] = *sl[j]) != &*sl[i]) violate(DISPATCH, "assignment returned another object"); }); if(r.ok()) bound[i] = bound[j]; break;
				case SELF_ASSIGN: r = sut(c, [&] { R & x{*sl[i]}; x = x; }); break;
				case DROP_SOURCE: if(i == j) break; r = sl[i].build(c, [&](void * q) { new(q) R(*sl[j]); }); bound[i] = bound[j]; { R * q{Slot<R>::raw(c)}; make_ref(q, t); sl[j].destroy(c); sl[j].p = q; bound[j] = t; } break;
				case CALL_AFTER_CHANGE: set_state(bound[i], state_of(bound[i]) + 3); SIM_PROBE(target_changed); [[fallthrough]];
				case CALL: case CALL_COPY: { const i64 live{c.live_elems}; r = sut(c, [&] { Off o{c}; invoke(c, i, static_cast<int>(s.a[4] % 100), s.op == CALL_COPY); }); if(c.live_elems != live) { violate(LIFETIME, "%lld argument objects remain after a call", static_cast<long long>(c.live_elems - live)); c.live_elems = live; } break; }
				case SWAP: r = sut(c, [&] { std::swap(*sl[i], *sl[j]); }); if(r.ok()) std::swap(bound[i], bound[j]); break;
			}
			if(!r.ok() && (r.out != Out::fault || !legal_failure(c, r, false))) violate(DISPATCH, "%s ended with %s although nothing was injected", c.opname, out_name[static_cast<int>(r.out)]);
			// every reference still reaches what it is bound to
			stack.clear(); const auto fk{c.fk}; c.fk = 0; script = 0; for(u32 k{0}; k < NS; ++k) { ncall = 0; script = 0; while(mix(mix(script, 0), 7) % 8 != 0) ++script; invoke(c, k, static_cast<int>(k), false); } c.fk = fk;
		}
		void finish(Ctx & c) override { for(auto & x : sl) x.destroy(c); if(c.live_elems) violate(LIFETIME, "%lld argument objects alive at the end", static_cast<long long>(c.live_elems)); }
		static World * make(Ctx & c, const Plan & p) { Off off{c}; return new CallWorld(c, p); }
		static WorldKind kind(const char * name) { return WorldKind{name, ops(), NOPS, F::can_throw ? (1u << F_CALL) | (1u << F_ELEM) : 1u << F_CALL, &make}; }
	};
}
