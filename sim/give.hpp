// Worlds "give:<element>": values are given up (rvalues) or only lent (lvalues) to every operation that stores one, and are read out of containers that are given up; memory may run out and copies may throw at any point.
#pragma once
#include "core.hpp"
#include <ptl/string.hpp>
#define SIM_WITH_STRING
#include "elems.hpp"
#include <ptl/vector.hpp>
#include <ptl/array.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/variant.hpp>
#include <ptl/tuple.hpp>

namespace sim {
	// built from one value, or from a value and a number, given up or lent
	template<typename E>
	struct GiveBox {
		E e; int n;
		GiveBox() : e{}, n{0} {}
		GiveBox(E && x) noexcept : e(std::move(x)), n{0} {}
		GiveBox(const E & x) : e(x), n{0} {}
		GiveBox(E && x, int n) noexcept : e(std::move(x)), n{n} {}
		GiveBox(const E & x, int n) : e(x), n{n} {}
		friend bool operator==(const GiveBox & a, const GiveBox & b) noexcept { return a.e == b.e; }
		friend bool operator!=(const GiveBox & a, const GiveBox & b) noexcept { return !(a == b); }
		friend bool operator<(const GiveBox & a, const GiveBox & b) noexcept { return a.e < b.e; }
		friend bool operator>(const GiveBox & a, const GiveBox & b) noexcept { return b < a; }
		friend bool operator<=(const GiveBox & a, const GiveBox & b) noexcept { return !(b < a); }
		friend bool operator>=(const GiveBox & a, const GiveBox & b) noexcept { return !(a < b); }
		friend void swap(GiveBox & a, GiveBox & b) noexcept { using std::swap; swap(a.e, b.e); swap(a.n, b.n); }
	};
	// single pass source that gives its elements up
	template<typename E>
	struct GiveIt {
		using iterator_category = std::input_iterator_tag; using value_type = E; using difference_type = std::ptrdiff_t; using pointer = E *; using reference = E &&;
		E ** p{nullptr}; E * e{nullptr};
		reference operator*() const { return std::move(**p); }
		GiveIt & operator++() { ++*p; return *this; }
		struct Kept { E * q; reference operator*() const { return std::move(*q); } };
		Kept operator++(int) { const Kept k{*p}; ++*this; return k; }
		bool done() const { return !p || *p == e; }
		friend bool operator==(const GiveIt & a, const GiveIt & b) { return a.done() == b.done(); }
		friend bool operator!=(const GiveIt & a, const GiveIt & b) { return !(a == b); }
	};

	template<typename E>
	struct GiveWorld final : World {
		using L = El<E>; using Box = GiveBox<E>;
		using V = ptl::vector<E>; using VB = ptl::vector<Box>; using O = ptl::optional<E>; using OB = ptl::optional<Box>; using W = ptl::variant<int, E, unsigned char>; using WB = ptl::variant<Box, unsigned char, int>; using T = ptl::tuple<E, int>; using TB = ptl::tuple<int, Box>; using A = ptl::array<E, 3>; using R = ptl::optional_ref<E>;
		static constexpr int given{std::numeric_limits<int>::min()}; // model: handed over, the value is up to the element type
		static constexpr u32 NX{3};
		Slot<E> x[NX]; int mx[NX]{};
		Slot<V> v; Slot<VB> vb; std::vector<int> mv, mvb;
		Slot<O> o; Slot<OB> ob; bool on{false}, bon{false}; int mo{0}, mob{0};
		Slot<W> w; Slot<WB> wb; bool won{false}, wbon{false}; int mw{0}, mwb{0};
		Slot<T> t; Slot<TB> tb; int mt{0}, mtb{0};
		Slot<A> a; int ma[3]{};
		int next_val{1};
		enum Op : u32 { FRESH, PUSH, EMPLACE_BACK, EMPLACE, INSERT, BOX_BACK, BOX_BACK2, BOX_EMPLACE, RANGE_INSERT, RANGE_ASSIGN, RANGE_CTOR, INPUT_CTOR, INPUT_INSERT, INPUT_ASSIGN, RESERVE, SHRINK, ERASE, POP, CLEAR,
			OPT_CTOR, OPT_ASSIGN, OPT_EMPLACE, OPT_IN_PLACE, OPT_BOX_CTOR, OPT_BOX_EMPLACE, OPT_BOX_EMPLACE2, OPT_BOX_ASSIGN, OPT_RESET, VALUE_OR, VALUE_OR_GIVEN, REF_VALUE_OR,
			VAR_CTOR, VAR_ASSIGN, VAR_EMPLACE_T, VAR_EMPLACE_I, VAR_IN_PLACE_T, VAR_IN_PLACE_I, VAR_BOX_T, VAR_BOX_I, VAR_BOX_CTOR_T, VAR_BOX_CTOR_I, VAR_OTHER, TUP_CTOR, TUP_BOX, ARR_CTOR,
			TAKE_DEREF, TAKE_VALUE, TAKE_BOX, TAKE_GET, TAKE_VISIT, TAKE_TUPLE, TAKE_ARRAY, NOPS };
		static const OpInfo * ops() {
			static const OpInfo i[]{{"fresh",12},{"push_back",8},{"emplace_back",8},{"emplace",6},{"insert",8},{"box_emplace_back",4},{"box_emplace_back2",4},{"box_emplace",4},{"range_insert",5},{"range_assign",3},{"range_ctor",2},{"input_ctor",2},{"input_insert",3},{"input_assign",2},{"reserve",3},{"shrink",4},{"erase",6},{"pop",3},{"clear",2},
				{"opt_ctor",5},{"opt_assign",7},{"opt_emplace",7},{"opt_in_place",5},{"opt_box_ctor",4},{"opt_box_emplace",4},{"opt_box_emplace2",4},{"opt_box_assign",4},{"opt_reset",3},{"value_or",5},{"value_or_given",5},{"ref_value_or",5},
				{"var_ctor",5},{"var_assign",6},{"var_emplace_type",5},{"var_emplace_index",5},{"var_in_place_type",4},{"var_in_place_index",4},{"var_box_emplace_type",4},{"var_box_emplace_index",4},{"var_box_in_place_type",3},{"var_box_in_place_index",3},{"var_other",3},{"tup_ctor",5},{"tup_box",4},{"arr_ctor",4},
				{"take_deref",5},{"take_value",5},{"take_box",3},{"take_get",5},{"take_visit",5},{"take_tuple",4},{"take_array",4}};
			static_assert(sizeof i / sizeof *i == NOPS); return i;
		}
		int fresh() { next_val = next_val % 200 + 1; return next_val; }
		template<typename S, typename F> static void begin(Ctx & c, S & s, F && f) { s.p = std::remove_reference_t<S>::raw(c); Track tr{c}; f(static_cast<void *>(s.p)); }
		GiveWorld(Ctx & c, const Plan & p) {
			for(u32 i{0}; i < NX; ++i) begin(c, x[i], [&](void * q) { new(q) E(L::make(mx[i] = fresh())); });
			begin(c, v, [](void * q) { new(q) V(); }); begin(c, vb, [](void * q) { new(q) VB(); }); begin(c, o, [](void * q) { new(q) O(); }); begin(c, ob, [](void * q) { new(q) OB(); });
			begin(c, w, [](void * q) { new(q) W(); }); begin(c, t, [&](void * q) { new(q) T(L::make(mt = fresh()), 1); });
			begin(c, wb, [&](void * q) { new(q) WB(std::in_place_index<2>, 4); }); begin(c, tb, [&](void * q) { new(q) TB(1, Box(L::make(mtb = fresh()))); });
			begin(c, a, [&](void * q) { for(int & m : ma) m = fresh(); new(q) A{L::make(ma[0]), L::make(ma[1]), L::make(ma[2])}; });
			Track tr{c}; for(u32 i{0}; i < p.cfg[0] % 12; ++i) { mv.push_back(fresh()); v->push_back(L::make(mv.back())); } for(u32 i{0}; i < p.cfg[1] % 12; ++i) { mvb.push_back(fresh()); vb->push_back(Box(L::make(mvb.back()))); }
			if(p.cfg[2] % 2) { on = true; o->emplace(L::make(mo = fresh())); } if(p.cfg[3] % 2) { won = true; *w = L::make(mw = fresh()); }
		}
		u32 abs_state() const override { const auto n{mv.size()}, k{v->capacity()}; return (n == 0 ? 0u : n == k ? 1u : n * 2 < k ? 2u : 3u) + 4 * on + 8 * won + 16 * bon + 32 * wbon + 64 * (mvb.size() == vb->capacity()); }
		struct Ref { E * e; int * m; };
		// every element of the world with its model; the shape of the objects has been checked before
		std::vector<Ref> all() {
			std::vector<Ref> r; for(u32 i{0}; i < NX; ++i) r.push_back({x[i].p, &mx[i]}); for(std::size_t i{0}; i < mv.size(); ++i) r.push_back({v->data() + i, &mv[i]}); for(std::size_t i{0}; i < mvb.size(); ++i) r.push_back({&vb->data()[i].e, &mvb[i]});
			if(on) r.push_back({&**o, &mo}); if(bon) r.push_back({&(**ob).e, &mob}); if(won) r.push_back({w->template get_if<E>(), &mw}); if(wbon) r.push_back({&wb->template get_if<Box>()->e, &mwb});
			r.push_back({&t->template get<0>(), &mt}); r.push_back({&tb->template get<1>().e, &mtb}); for(std::size_t i{0}; i < 3; ++i) r.push_back({a->data() + i, &ma[i]});
			return r;
		}
		void check(Ctx & c, bool failed) {
			const Cls cls{failed ? ATOMIC : VALUE};
			if(v->size() != mv.size() || vb->size() != mvb.size() || o->has_value() != on || ob->has_value() != bon || w->template holds<E>() != won || wb->template holds<Box>() != wbon) { violate(cls, "an object has another size or state than expected (after %s)", c.opname); abandon_run(); }
			const auto r{all()};
			for(const Ref & e : r) {
				const int g{L::get(*e.e)}; c.log(static_cast<u64>(g));
				if(*e.m == given) { if(!L::allocates && g != moved_value) { violate(VALUE, "a value that was given up is still %d at its old place, it was duplicated (after %s)", g, c.opname); abandon_run(); } *e.m = g; continue; }
				if(g != *e.m) { violate(cls, "element %d of the world is %d, expected %d (after %s)", static_cast<int>(&e - r.data()), g, *e.m, c.opname); abandon_run(); }
			}
			if constexpr(L::counted) if(c.live_elems != static_cast<i64>(r.size())) { violate(LIFETIME, "%lld elements alive, expected %zu (after %s)", static_cast<long long>(c.live_elems), r.size(), c.opname); c.live_elems = static_cast<i64>(r.size()); }
		}
		static const void * heap_of(const E & e) { if constexpr(L::allocates) return e.size() > 30 ? static_cast<const void *>(e.data()) : nullptr; else return nullptr; }
		bool outcome(Ctx & c, const Result & r, bool nofail) {
			if(r.ok()) return false;
			if(!legal_failure(c, r, false)) violate(VALUE, "%s reported %s although nothing failed", c.opname, out_name[static_cast<int>(r.out)]);
			if(nofail) violate(NOFAIL, "%s failed (%s) although the value is handed over", c.opname, out_name[static_cast<int>(r.out)]);
			return true;
		}
		// nothing may have been copied, and nothing may have been allocated unless a container had to grow
		void frugal(Ctx & c, bool grows) {
			if(c.cnt[F_ELEM]) violate(VALUE, "%s copied or created an element instead of handing over the one it was given", c.opname);
			if(!grows && c.cnt[F_ALLOC]) violate(VALUE, "%s needed memory instead of handing over what it was given", c.opname);
		}
		enum How : u32 { GIVE, LEND, LEND_CONST };
		// f stores the value it is called with; on success upd enters it into the model and returns where it is now
		template<typename F, typename U>
		bool give(Ctx & c, const Step & s, const Ref & src, bool grows, F && f, U && upd) {
			const u32 how{s.a[5] % 4 == 1 ? LEND : s.a[5] % 4 == 2 ? LEND_CONST : GIVE}; const int val{*src.m}; const void * const buf{how == GIVE ? heap_of(*src.e) : nullptr}; E * const e{src.e};
			if(c.trace) c.note("    the value %d is %s", val, how == GIVE ? "given up" : how == LEND ? "lent" : "lent as const");
			const Result r{sut(c, [&] { switch(how) { case GIVE: f(std::move(*e)); break; case LEND: f(*e); break; default: f(static_cast<const E &>(*e)); } })};
			if(how == GIVE) frugal(c, grows);
			if(outcome(c, r, how == GIVE && !grows)) return true;
			if(how == GIVE) *src.m = given;
			const E * const d{upd(val)};
			if(buf && d && heap_of(*d) != buf) violate(VALUE, "%s duplicated the characters of a string it was given", c.opname);
			return false;
		}
		template<typename S, typename F> static void remake(Ctx & c, S & slot, F && f) { // inside sut: replaces the object by one built from an argument that may live in the old one
			auto * const q{[&] { Off off{c}; return std::remove_reference_t<S>::raw(c); }()};
			try { f(static_cast<void *>(q)); } catch(...) { Off off{c}; std::remove_reference_t<S>::drop(c, q); throw; }
			auto * const old{slot.p}; slot.p = q; using X = std::remove_pointer_t<decltype(old)>; { Track tr{c}; old->~X(); } std::remove_reference_t<S>::drop(c, old);
		}
		// f constructs an element at the address given from a container that is given up; from is the element it reads
		template<typename F>
		bool take(Ctx & c, const Step & s, const Ref & from, F && f) {
			const u32 k{s.a[0] % NX}; const int val{*from.m}; const void * const buf{heap_of(*from.e)};
			const Result r{x[k].build(c, [&](void * q) { f(q); })};
			frugal(c, false); if(outcome(c, r, true)) return true;
			*from.m = given; mx[k] = val; if(buf && heap_of(*x[k]) != buf) violate(VALUE, "%s duplicated the characters of a string", c.opname);
			return false;
		}
		void step(Ctx & c, const Step & s) override { Off off{c}; const bool f{impl(c, s)}; check(c, f); }
		bool impl(Ctx & c, const Step & s) {
			const auto every{all()}; const Ref src{s.a[1] % 3 ? every[s.a[0] % NX] : every[s.a[2] % every.size()]};
			const std::size_t n{mv.size()}, nb{mvb.size()}, at{s.a[3] % (n + 1)}, atb{s.a[3] % (nb + 1)}; const bool grows{n == v->capacity()}, growsb{nb == vb->capacity()}; const u32 many{s.a[4] % 4}; const int num{static_cast<int>(s.a[4] % 100)};
			const auto pos{[&] { return v->begin() + static_cast<std::ptrdiff_t>(at); }}; const auto posb{[&] { return vb->begin() + static_cast<std::ptrdiff_t>(atb); }};
			const auto into{[&](std::size_t i) { return [this, i](int val) -> const E * { mv.insert(mv.begin() + static_cast<std::ptrdiff_t>(i), val); return v->data() + i; }; }};
			const auto intob{[&](std::size_t i, int k) { return [this, i, k](int val) -> const E * { mvb.insert(mvb.begin() + static_cast<std::ptrdiff_t>(i), val); if(vb->data()[i].n != k) violate(VALUE, "the second argument was not passed on"); return &vb->data()[i].e; }; }};
			const auto intoo{[&](int val) -> const E * { on = true; mo = val; return o->has_value() ? &**o : nullptr; }}; const auto intoob{[&](int k) { return [this, k](int val) -> const E * { bon = true; mob = val; if(ob->has_value() && (**ob).n != k) violate(VALUE, "the second argument was not passed on"); return ob->has_value() ? &(**ob).e : nullptr; }; }};
			const auto intow{[&](int val) -> const E * { won = true; mw = val; return w->template get_if<E>(); }}; const auto intowb{[&](int k) { return [this, k](int val) -> const E * { wbon = true; mwb = val; const Box * const b{wb->template get_if<Box>()}; if(b && b->n != k) violate(VALUE, "the second argument was not passed on"); return b ? &b->e : nullptr; }; }};
			Result r{Out::ok};
			#define SIM_FWD std::forward<decltype(e)>(e)
			switch(s.op) {
				case FRESH: { const int y{fresh()}; if(s.a[1] % 4 == 0) { Slot<E> & S{x[s.a[0] % NX]}; { Track tr{c}; *S = L::make(y); } mx[s.a[0] % NX] = y; } else { Track tr{c}; *src.e = L::make(y); *src.m = y; } return false; }
				case PUSH: return give(c, s, src, grows, [&](auto && e) { v->push_back(SIM_FWD); }, into(n));
				case EMPLACE_BACK: return give(c, s, src, grows, [&](auto && e) { v->emplace_back(SIM_FWD); }, into(n));
				case EMPLACE: return give(c, s, src, grows, [&](auto && e) { v->emplace(pos(), SIM_FWD); }, into(at));
				case INSERT: return give(c, s, src, grows, [&](auto && e) { v->insert(pos(), SIM_FWD); }, into(at));
				case BOX_BACK: return give(c, s, src, growsb, [&](auto && e) { vb->emplace_back(SIM_FWD); }, intob(nb, 0));
				case BOX_BACK2: return give(c, s, src, growsb, [&](auto && e) { vb->emplace_back(SIM_FWD, num); }, intob(nb, num));
				case BOX_EMPLACE: return give(c, s, src, growsb, [&](auto && e) { vb->emplace(posb(), SIM_FWD, num); }, intob(atb, num));
				case RANGE_INSERT: case RANGE_ASSIGN: case RANGE_CTOR: case INPUT_CTOR: case INPUT_INSERT: case INPUT_ASSIGN: {
					const bool input{s.op >= INPUT_CTOR}; bool g{input || s.op == RANGE_CTOR || n + many > v->capacity()}; if(s.op == RANGE_ASSIGN) g = many > v->capacity() - n; if(!input && many == 0) g = false;
					E * b{a->data()}; E * const z{b + many}; const void * buf[3]{}; for(u32 i{0}; i < many; ++i) buf[i] = heap_of(b[i]);
					const auto mb{std::make_move_iterator(b)}, me{std::make_move_iterator(z)}; const GiveIt<E> ib{&b, z}, ie{};
					r = sut(c, [&] { switch(s.op) { case RANGE_INSERT: v->insert(pos(), mb, me); break; case RANGE_ASSIGN: v->assign(mb, me); break; case RANGE_CTOR: remake(c, v, [&](void * q) { new(q) V(mb, me); }); break; case INPUT_CTOR: remake(c, v, [&](void * q) { new(q) V(ib, ie); }); break; case INPUT_INSERT: v->insert(pos(), ib, ie); break; default: v->assign(ib, ie); } });
					frugal(c, g); const bool f{outcome(c, r, !g)};
					if(f) { if(input) for(u32 i{0}; i < many; ++i) ma[i] = L::get((*a)[i]); return true; }
					const bool ins{s.op == RANGE_INSERT || s.op == INPUT_INSERT}; if(!ins) mv.clear(); const std::size_t first{ins ? at : 0}; mv.insert(mv.begin() + static_cast<std::ptrdiff_t>(first), ma, ma + many); for(u32 i{0}; i < many; ++i) { ma[i] = given; if(buf[i] && v->size() > first + i && heap_of(v->data()[first + i]) != buf[i]) violate(VALUE, "%s duplicated the characters of a string", c.opname); }
					return false; }
				case RESERVE: { const std::size_t to{n + s.a[4] % 24}; const bool g{to > v->capacity()}; r = sut(c, [&] { v->reserve(to); }); frugal(c, g); return outcome(c, r, !g); }
				case SHRINK: r = sut(c, [&] { v->shrink_to_fit(); }); frugal(c, true); return outcome(c, r, true);
				case ERASE: { const std::size_t k{std::min<std::size_t>(many, n - std::min(at, n))}; r = sut(c, [&] { if(k == 1) v->erase(pos()); else v->erase(pos(), pos() + static_cast<std::ptrdiff_t>(k)); }); frugal(c, false); if(outcome(c, r, true)) return true; mv.erase(mv.begin() + static_cast<std::ptrdiff_t>(at), mv.begin() + static_cast<std::ptrdiff_t>(at + k)); return false; }
				case POP: if(n == 0) return false; r = sut(c, [&] { v->pop_back(); }); frugal(c, false); if(outcome(c, r, true)) return true; mv.pop_back(); return false;
				case CLEAR: r = sut(c, [&] { if(num % 2) v->clear(); else vb->clear(); }); frugal(c, false); if(outcome(c, r, true)) return true; (num % 2 ? mv : mvb).clear(); return false;
				case OPT_CTOR: return give(c, s, src, false, [&](auto && e) { remake(c, o, [&](void * q) { new(q) O(SIM_FWD); }); }, intoo);
				case OPT_ASSIGN: if(on && src.m == &mo) return false; return give(c, s, src, false, [&](auto && e) { *o = SIM_FWD; }, intoo);
				case OPT_EMPLACE: return give(c, s, src, false, [&](auto && e) { o->emplace(SIM_FWD); }, intoo);
				case OPT_IN_PLACE: return give(c, s, src, false, [&](auto && e) { remake(c, o, [&](void * q) { new(q) O(std::in_place, SIM_FWD); }); }, intoo);
				case OPT_BOX_CTOR: return give(c, s, src, false, [&](auto && e) { remake(c, ob, [&](void * q) { if(num) new(q) OB(std::in_place, SIM_FWD, num); else new(q) OB(std::in_place, SIM_FWD); }); }, intoob(num));
				case OPT_BOX_EMPLACE: return give(c, s, src, false, [&](auto && e) { ob->emplace(SIM_FWD); }, intoob(0));
				case OPT_BOX_EMPLACE2: return give(c, s, src, false, [&](auto && e) { ob->emplace(SIM_FWD, num); }, intoob(num));
				case OPT_BOX_ASSIGN: return give(c, s, src, false, [&](auto && e) { *ob = Box(SIM_FWD, num); }, intoob(num));
				case OPT_RESET: r = sut(c, [&] { if(num % 2) o->reset(); else *ob = std::nullopt; }); frugal(c, false); if(outcome(c, r, true)) return true; (num % 2 ? on : bon) = false; return false;
				case VALUE_OR: case VALUE_OR_GIVEN: case REF_VALUE_OR: { // the result goes to x[k]; the fallback is src, the container is only lent in VALUE_OR and REF_VALUE_OR
					const u32 k{s.a[3] % NX}; const bool has{s.op == REF_VALUE_OR ? num % 2 != 0 : on}, own{s.op != VALUE_OR_GIVEN}, gv{s.a[5] % 3 != 0}; if(on && src.m == &mo) return false; if(src.m == &mx[k]) return false;
					const Ref other{every[s.a[3] % every.size()]}; if(other.m == src.m || other.m == &mx[k]) return false; E * const e{src.e}; R ref{}; if(has && s.op == REF_VALUE_OR) ref = R{*other.e};
					const O & co{*o}; const void * const buf{has ? own ? nullptr : heap_of(**o) : gv ? heap_of(*e) : nullptr};
					r = x[k].build(c, [&](void * q) { switch(s.op) { case VALUE_OR: if(gv) new(q) E(co.value_or(std::move(*e))); else new(q) E(co.value_or(*e)); break; case VALUE_OR_GIVEN: if(gv) new(q) E(std::move(*o).value_or(std::move(*e))); else new(q) E(std::move(*o).value_or(*e)); break; default: if(gv) new(q) E(ref.value_or(std::move(*e))); else new(q) E(ref.value_or(*e)); } });
					const bool free_{has ? !own : gv}; if(free_) frugal(c, false); if(outcome(c, r, free_)) return true;
					mx[k] = has ? s.op == REF_VALUE_OR ? *other.m : mo : *src.m; if(has && !own) mo = given; if(!has && gv) *src.m = given; if(buf && heap_of(*x[k]) != buf) violate(VALUE, "%s duplicated the characters of a string", c.opname); return false; }
				case VAR_CTOR: return give(c, s, src, false, [&](auto && e) { remake(c, w, [&](void * q) { new(q) W(SIM_FWD); }); }, intow);
				case VAR_ASSIGN: return give(c, s, src, false, [&](auto && e) { *w = SIM_FWD; }, intow);
				case VAR_EMPLACE_T: return give(c, s, src, false, [&](auto && e) { w->template emplace<E>(SIM_FWD); }, intow);
				case VAR_EMPLACE_I: return give(c, s, src, false, [&](auto && e) { w->template emplace<1>(SIM_FWD); }, intow);
				case VAR_IN_PLACE_T: return give(c, s, src, false, [&](auto && e) { remake(c, w, [&](void * q) { new(q) W(std::in_place_type<E>, SIM_FWD); }); }, intow);
				case VAR_IN_PLACE_I: return give(c, s, src, false, [&](auto && e) { remake(c, w, [&](void * q) { new(q) W(std::in_place_index<1>, SIM_FWD); }); }, intow);
				case VAR_BOX_T: return give(c, s, src, false, [&](auto && e) { if(num) wb->template emplace<Box>(SIM_FWD, num); else wb->template emplace<Box>(SIM_FWD); }, intowb(num));
				case VAR_BOX_I: return give(c, s, src, false, [&](auto && e) { if(num) wb->template emplace<0>(SIM_FWD, num); else wb->template emplace<0>(SIM_FWD); }, intowb(num));
				case VAR_BOX_CTOR_T: return give(c, s, src, false, [&](auto && e) { remake(c, wb, [&](void * q) { new(q) WB(std::in_place_type<Box>, SIM_FWD, num); }); }, intowb(num));
				case VAR_BOX_CTOR_I: return give(c, s, src, false, [&](auto && e) { remake(c, wb, [&](void * q) { new(q) WB(std::in_place_index<0>, SIM_FWD, num); }); }, intowb(num));
				case VAR_OTHER: r = sut(c, [&] { if(num % 2) *w = num; else *wb = num; }); frugal(c, false); if(outcome(c, r, true)) return true; (num % 2 ? won : wbon) = false; return false;
				case TUP_CTOR: return give(c, s, src, false, [&](auto && e) { remake(c, t, [&](void * q) { new(q) T(SIM_FWD, 5); }); }, [&](int val) -> const E * { mt = val; return &t->template get<0>(); });
				case TUP_BOX: return give(c, s, src, false, [&](auto && e) { remake(c, tb, [&](void * q) { new(q) TB(5, SIM_FWD); }); }, [&](int val) -> const E * { mtb = val; return &tb->template get<1>().e; });
				case ARR_CTOR: { const void * buf[3]; const int was[3]{mx[0], mx[1], mx[2]}; for(int i{0}; i < 3; ++i) buf[i] = heap_of(*x[i]); const bool lend{s.a[5] % 3 == 0};
					r = sut(c, [&] { remake(c, a, [&](void * q) { if(lend) new(q) A{static_cast<const E &>(*x[0]), static_cast<const E &>(*x[1]), static_cast<const E &>(*x[2])}; else new(q) A{std::move(*x[0]), std::move(*x[1]), std::move(*x[2])}; }); });
					if(!lend) frugal(c, false); if(outcome(c, r, !lend)) return true; for(int i{0}; i < 3; ++i) { ma[i] = was[i]; if(!lend) mx[i] = given; if(!lend && buf[i] && heap_of((*a)[static_cast<std::size_t>(i)]) != buf[i]) violate(VALUE, "%s duplicated the characters of a string", c.opname); } return false; }
				case TAKE_DEREF: if(!on) return false; return take(c, s, {&**o, &mo}, [&](void * q) { new(q) E(*std::move(*o)); });
				case TAKE_VALUE: if(!on) return false; return take(c, s, {&**o, &mo}, [&](void * q) { new(q) E(std::move(*o).value()); });
				case TAKE_BOX: if(num % 2) { if(!bon) return false; return take(c, s, {&(**ob).e, &mob}, [&](void * q) { new(q) E((*std::move(*ob)).e); }); } if(!wbon) return false; return take(c, s, {&wb->template get_if<Box>()->e, &mwb}, [&](void * q) { new(q) E(std::move(*wb).template get<Box>().e); });
				case TAKE_GET: if(!won) return false; return take(c, s, {w->template get_if<E>(), &mw}, [&](void * q) { new(q) E(std::move(*w).template get<E>()); });
				case TAKE_VISIT: if(!won) return false; return take(c, s, {w->template get_if<E>(), &mw}, [&](void * q) { std::move(*w).visit([&](auto && e) { if constexpr(std::is_same_v<std::decay_t<decltype(e)>, E>) new(q) E(SIM_FWD); }); });
				case TAKE_TUPLE: return take(c, s, {&t->template get<0>(), &mt}, [&](void * q) { new(q) E(std::move(*t).template get<0>()); });
				case TAKE_ARRAY: { const std::size_t i{s.a[4] % 3}; return take(c, s, {a->data() + i, &ma[i]}, [&](void * q) { using std::get; if(i == 0) new(q) E(get<0>(std::move(*a))); else if(i == 1) new(q) E(get<1>(std::move(*a))); else new(q) E(get<2>(std::move(*a))); }); }
			}
			#undef SIM_FWD
			return false;
		}
		void finish(Ctx & c) override { v.destroy(c); vb.destroy(c); o.destroy(c); ob.destroy(c); w.destroy(c); wb.destroy(c); t.destroy(c); tb.destroy(c); a.destroy(c); for(auto & e : x) e.destroy(c); if(c.live_elems) violate(LIFETIME, "%lld elements alive after all objects were destroyed", static_cast<long long>(c.live_elems)); }
		static World * make(Ctx & c, const Plan & p) { return new GiveWorld(c, p); }
		static WorldKind kind(const char * name) { return WorldKind{name, ops(), NOPS, (1u << F_ALLOC) | (1u << F_OOM) | (1u << F_ELEM), &make}; }
	};
}
