// World: ptl::function_ref over signatures with rvalue and move-only arguments and results.
#include "call.hpp"
#include <memory>

namespace sim {
	struct NoThrow { using Sig = void(int, Soft &&) noexcept; static constexpr bool is_const{false}, can_throw{false};
		#define BODY(ID, OBJ) { CallBase::self->enter(ID, OBJ, a, s.val("received"), false); Soft sink{std::move(s)}; }
		template<int I, int P> struct C { int own{I}; unsigned char pad[P]{}; void operator()(int a, Soft && s) const noexcept BODY(I, this) };
		template<int I> struct M { int own{I}; void operator()(int a, Soft && s) noexcept BODY(I, this) };
		template<int I> static void fun(int a, Soft && s) noexcept BODY(I, nullptr)
		#undef BODY
		template<typename R> static int call(R & r, int a, Soft & s, CallBase & w) { r(a, std::move(s)); if(s.val("looked at") != moved_value) violate(DISPATCH, "an rvalue argument did not reach the target"); return w.stack.back().result; } };
	struct MoveOnly { using Sig = std::unique_ptr<int>(int, std::unique_ptr<int>) const noexcept; static constexpr bool is_const{true}, can_throw{false};
		#define BODY(ID, OBJ) { Off off{*cur}; if(!s) { violate(DISPATCH, "a move-only argument was lost"); s.reset(new int{0}); } *s = CallBase::self->enter(ID, OBJ, a, *s, false); return s; }
		template<int I, int P> struct C { int own{I}; unsigned char pad[P]{}; std::unique_ptr<int> operator()(int a, std::unique_ptr<int> s) const noexcept BODY(I, this) };
		template<int I> using M = C<I, 8>;
		template<int I> static std::unique_ptr<int> fun(int a, std::unique_ptr<int> s) noexcept BODY(I, nullptr)
		#undef BODY
		template<typename R> static int call(R & r, int a, Soft & s, CallBase &) { std::unique_ptr<int> p; { Off off{*cur}; p.reset(new int{s.v}); } const int * raw{p.get()}; auto q{r(a, std::move(p))}; Off off{*cur}; if(q.get() != raw || p) violate(DISPATCH, "a move-only argument or result was replaced"); const int v{q ? *q : 0}; q.reset(); return v; } };

	static RegisterWorld r0{CallWorld<NoThrow>::kind("call<noexcept>")}, r1{CallWorld<MoveOnly>::kind("call<move-only>")};
}
