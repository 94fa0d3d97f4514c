// More alternatives than a signed char or a 4-bit index can count; only four of them carry lifetimes, the others fill the type list.
#include "elems.hpp"
namespace sim {
	template<std::size_t I> struct Filler {
		int v; explicit Filler(int x) : v{x} {}
		friend bool operator==(Filler a, Filler b) noexcept { return a.v == b.v; } friend bool operator!=(Filler a, Filler b) noexcept { return a.v != b.v; }
		friend bool operator<(Filler a, Filler b) noexcept { return a.v < b.v; } friend bool operator>(Filler a, Filler b) noexcept { return a.v > b.v; }
		friend bool operator<=(Filler a, Filler b) noexcept { return a.v <= b.v; } friend bool operator>=(Filler a, Filler b) noexcept { return a.v >= b.v; }
	};
	template<std::size_t I> struct El<Filler<I>> { static Filler<I> make(int v) { return Filler<I>(v); } static int get(Filler<I> e) { return e.v; } static int norm(int v) { return v; } static constexpr bool counted{false}, allocates{false}; };
}
#include "var.hpp"
using namespace sim;
template<std::size_t I> using Alt = std::conditional_t<I == 0 || I == 16 || I == 127 || I == 129, BasicTracked<100 + static_cast<int>(I), false, 4 + 4 * (static_cast<int>(I) % 5)>, Filler<I>>;
template<typename> struct Many;
template<std::size_t... Is> struct Many<std::index_sequence<Is...>> { using type = VarWorld<std::index_sequence<0, 16, 127, 129>, Alt<Is>...>; };
static RegisterWorld r{Many<std::make_index_sequence<130>>::type::kind("var<130>")};
