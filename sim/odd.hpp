// Element types that are admissible but treacherous: constructors for lists of their own kind, an overloaded address-of operator, extended alignment, other containers of the library.
#pragma once
#include "elems.hpp"
#include <ptl/optional.hpp>
#include <ptl/vector.hpp>

namespace sim {
	template<typename E> E quietly(int x) noexcept { Ctx & c{*cur}; const bool a{c.armed}; c.armed = false; E r(x); c.armed = a; return r; }

	// a type that also has a constructor for lists of its own kind, as documents and trees have: copying or moving one must not make a list of it
	template<int Tag>
	struct Nest {
		static constexpr int wrapped{-6666};
		BasicTracked<Tag, false, 16> t;
		Nest() {}
		explicit Nest(int x) : t(x) {}
		Nest(std::initializer_list<Nest> l) noexcept : t(quietly<BasicTracked<Tag, false, 16>>(l.size() ? wrapped : 0)) {}
		Nest(const Nest &) =default;
		Nest(Nest &&) noexcept =default;
		auto operator=(const Nest &) -> Nest & =default;
		auto operator=(Nest &&) noexcept -> Nest & =default;
		friend void swap(Nest & a, Nest & b) noexcept { swap(a.t, b.t); }
		friend bool operator==(const Nest & a, const Nest & b) noexcept { return a.t == b.t; }
		friend bool operator!=(const Nest & a, const Nest & b) noexcept { return !(a == b); }
		friend bool operator<(const Nest & a, const Nest & b) noexcept { return a.t < b.t; }
		friend bool operator>(const Nest & a, const Nest & b) noexcept { return b < a; }
		friend bool operator<=(const Nest & a, const Nest & b) noexcept { return !(b < a); }
		friend bool operator>=(const Nest & a, const Nest & b) noexcept { return !(a < b); }
	};

	// unary & designates something that never holds an object
	template<int Tag>
	struct Amp : BasicTracked<Tag, false, 24> {
		using Base = BasicTracked<Tag, false, 24>; using Base::Base;
		Amp() {}
		static Amp * decoy() noexcept { alignas(16) static unsigned char raw[sizeof(Base)]; return reinterpret_cast<Amp *>(raw); }
		Amp * operator&() noexcept { return decoy(); }
		const Amp * operator&() const noexcept { return decoy(); }
	};

	// can be made from anything at all, as values that hold anything can: taking over one of its own kind must not make one holding one
	template<int Tag>
	struct Eager : BasicTracked<Tag, false, 12> {
		using Base = BasicTracked<Tag, false, 12>; static constexpr int wrapped{-6666};
		Eager() {}
		explicit Eager(int x) : Base(x) {}
		Eager(int a, int b) : Base(a, b) {}
		Eager(const Eager &) =default;
		Eager(Eager &&) noexcept =default;
		template<typename X, typename = std::enable_if_t<!std::is_same_v<std::decay_t<X>, Eager> && !std::is_same_v<std::decay_t<X>, int>>> Eager(X &&) noexcept : Base(quietly<Base>(wrapped)) {}
		auto operator=(const Eager &) -> Eager & =default;
		auto operator=(Eager &&) noexcept -> Eager & =default;
	};

	// must sit at a multiple of its alignment
	template<int Tag, std::size_t Align>
	struct alignas(Align) Wide : BasicTracked<Tag, false, 8> {
		using Base = BasicTracked<Tag, false, 8>;
		void where(const char * what) const { auto p{reinterpret_cast<std::uintptr_t>(this)}; asm volatile("" : "+r"(p)); if(p % Align) violate(ALIGN, "%s an element that needs an address divisible by %zu at one that is %zu beyond", what, Align, static_cast<std::size_t>(p % Align)); }
		Wide() { where("constructed"); }
		Wide(int x) : Base(x) { where("constructed"); }
		Wide(int a, int b) : Base(a, b) { where("constructed"); }
		Wide(const Wide & o) : Base(o) { where("copied"); }
		Wide(Wide && o) noexcept : Base(std::move(o)) { where("moved"); }
		auto operator=(const Wide & o) -> Wide & { where("assigned"); Base::operator=(o); return *this; }
		auto operator=(Wide && o) noexcept -> Wide & { where("assigned"); Base::operator=(std::move(o)); return *this; }
	};

	template<int T> struct El<Nest<T>> { using E = Nest<T>; static E make(int v) { return E(v); } static int get(const E & e) { return e.t.val("looked at"); } static int norm(int v) { return v; } static constexpr bool counted{true}, allocates{false}; };
	template<int T> struct El<Amp<T>> { using E = Amp<T>; static E make(int v) { return E(v); } static int get(const E & e) { return e.val("looked at"); } static int norm(int v) { return v; } static constexpr bool counted{true}, allocates{false}; };
	template<int T> struct El<Eager<T>> { using E = Eager<T>; static E make(int v) { return E(v); } static int get(const E & e) { return e.val("looked at"); } static int norm(int v) { return v; } static constexpr bool counted{true}, allocates{false}; };
	template<int T, std::size_t A> struct El<Wide<T, A>> { using E = Wide<T, A>; static E make(int v) { return E(v); } static int get(const E & e) { e.where("looked at"); return e.val("looked at"); } static int norm(int v) { return v; } static constexpr bool counted{true}, allocates{false}; };
	// containers in containers; an empty inner optional is a value of its own
	template<typename X> struct El<ptl::optional<X>> { using E = ptl::optional<X>; static constexpr int none{-9999};
		static E make(int v) { if(v % 4 == 3) return E{}; return E(El<X>::make(v)); } static int get(const E & e) { return e.has_value() ? El<X>::get(*e) : none; } static int norm(int v) { return v % 4 == 3 ? none : El<X>::norm(v); } static constexpr bool counted{false}, allocates{false}; };
	template<typename X> struct El<ptl::vector<X>> { using E = ptl::vector<X>; static constexpr int none{-9999};
		static E make(int v) { E e; for(int i{v % 4}; i > 0; --i) e.push_back(El<X>::make(v + i - 1)); return e; }
		static int get(const E & e) { if(e.empty()) return none; const int f{El<X>::get(e[0])}; for(std::size_t i{0}; i < e.size(); ++i) if(El<X>::get(e[i]) != f + static_cast<int>(e.size() - 1 - i) - static_cast<int>(e.size() - 1)) return dead_value; return f - static_cast<int>(e.size() - 1); }
		static int norm(int v) { return v % 4 ? v : none; } static constexpr bool counted{false}, allocates{true}; };
}
