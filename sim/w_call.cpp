// World: ptl::function_ref over signatures that need nothing but copyable arguments.
#include "call.hpp"

namespace sim {
	struct ByValue { using Sig = int(int, Soft); static constexpr bool is_const{false}, can_throw{true};
		#define BODY(ID, OBJ) { return CallBase::self->enter(ID, OBJ, a, s.val("received"), true); }
		template<int I, int P> struct C { int own{I}; unsigned char pad[P]{}; int operator()(int a, Soft s) const BODY(I, this) };
		template<int I> struct M { int own{I}; int operator()(int a, Soft s) BODY(I, this) int operator()(int a, Soft s) const BODY(I + 100, this) }; // the other overload must not be chosen
		template<int I> static int fun(int a, Soft s) BODY(I, nullptr)
		#undef BODY
		template<typename R> static int call(R & r, int a, Soft & s, CallBase &) { return r(a, s); } };
	struct ByConstRef { using Sig = int(int, const Soft &) const; static constexpr bool is_const{true}, can_throw{true};
		#define BODY(ID, OBJ) { return CallBase::self->enter(ID, OBJ, a, s.val("received"), true); }
		template<int I, int P> struct C { int own{I}; unsigned char pad[P]{}; int operator()(int a, const Soft & s) const BODY(I, this) int operator()(int a, const Soft & s) BODY(I + 100, this) }; // a const signature calls as const
		template<int I> using M = C<I, 8>;
		template<int I> static int fun(int a, const Soft & s) BODY(I, nullptr)
		#undef BODY
		template<typename R> static int call(R & r, int a, Soft & s, CallBase &) { return r(a, s); } };
	struct RefResult { using Sig = const int & (int, Soft &); static constexpr bool is_const{false}, can_throw{true};
		#define BODY(ID, OBJ) { const int v{s.val("received")}; CallBase::self->enter(ID, OBJ, a, v, true); return CallBase::self->res[ID]; }
		template<int I, int P> struct C { int own{I}; unsigned char pad[P]{}; const int & operator()(int a, Soft & s) const BODY(I, this) };
		template<int I> struct M { int own{I}; const int & operator()(int a, Soft & s) BODY(I, this) };
		template<int I> static const int & fun(int a, Soft & s) BODY(I, nullptr)
		#undef BODY
		template<typename R> static int call(R & r, int a, Soft & s, CallBase & w) { const int t{w.stack.back().target}; const int & x{r(a, s)}; if(&x != &w.res[t]) { violate(DISPATCH, "a reference result designates another object than the one the target returned"); return w.res[t]; } return x; } };
	// an argument passed by value: what the caller gave up must arrive as it is, not as a duplicate of it
	struct Parcel { int v; bool duplicate{false};
		explicit Parcel(int v) noexcept : v{v} {}
		Parcel(const Parcel & o) noexcept : v{o.v}, duplicate{true} {}
		Parcel(Parcel && o) noexcept : v{std::exchange(o.v, -1)}, duplicate{o.duplicate} {} };
	struct HandOver { using Sig = int(Parcel, int) const; static constexpr bool is_const{true}, can_throw{true};
		#define BODY(ID, OBJ) { if(s.duplicate) violate(DISPATCH, "an argument given up by the caller was duplicated on its way to the target"); return CallBase::self->enter(ID, OBJ, a, s.v, true); }
		template<int I, int P> struct C { int own{I}; unsigned char pad[P]{}; int operator()(Parcel s, int a) const BODY(I, this) };
		template<int I> using M = C<I, 8>;
		template<int I> static int fun(Parcel s, int a) BODY(I, nullptr)
		#undef BODY
		template<typename R> static int call(R & r, int a, Soft & s, CallBase &) { return r(Parcel{s.v}, a); } };
	struct HandVoid { using Sig = void(Parcel, int) const; static constexpr bool is_const{true}, can_throw{true};
		#define BODY(ID, OBJ) { if(s.duplicate) violate(DISPATCH, "an argument given up by the caller was duplicated on its way to the target"); CallBase::self->enter(ID, OBJ, a, s.v, true); }
		template<int I, int P> struct C { int own{I}; unsigned char pad[P]{}; void operator()(Parcel s, int a) const BODY(I, this) };
		template<int I> using M = C<I, 8>;
		template<int I> static void fun(Parcel s, int a) BODY(I, nullptr)
		#undef BODY
		template<typename R> static int call(R & r, int a, Soft & s, CallBase & w) { r(Parcel{s.v}, a); return w.stack.back().result; } };
	static RegisterWorld r0{CallWorld<ByValue>::kind("call<value>")}, r1{CallWorld<ByConstRef>::kind("call<const>")}, r2{CallWorld<RefResult>::kind("call<ref-result>")}, r3{CallWorld<HandOver>::kind("call<hand-over>")}, r4{CallWorld<HandVoid>::kind("call<hand-over-void>")};
}
