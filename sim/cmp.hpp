// Worlds "cmp:<type>": objects that reach their contents by different histories (including failed calls) are compared, ordered and hashed against the contents alone.
#pragma once
#include "core.hpp"
#include <iostream>
#include <array>
#include <tuple>
#include <climits>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#define SIM_WITH_STRING
#include "elems.hpp"
#include <ptl/vector.hpp>
#include <ptl/array.hpp>
#include <ptl/optional.hpp>
#include <ptl/variant.hpp>
#include <ptl/tuple.hpp>
#include <ptl/bitset.hpp>

namespace sim {
	// user types whose equality is not equality of bytes
	struct Padded { signed char a; signed char junk[3]; int b; }; // junk: bytes that are no part of the value, like padding, but decided by the simulator
	inline bool operator==(const Padded & x, const Padded & y) noexcept { return x.a == y.a && x.b == y.b; }
	inline bool operator!=(const Padded & x, const Padded & y) noexcept { return !(x == y); }
	inline bool operator<(const Padded & x, const Padded & y) noexcept { return x.a != y.a ? x.a < y.a : x.b < y.b; }
	inline bool operator>(const Padded & x, const Padded & y) noexcept { return y < x; }
	inline bool operator<=(const Padded & x, const Padded & y) noexcept { return !(y < x); }
	inline bool operator>=(const Padded & x, const Padded & y) noexcept { return !(x < y); }
	struct Fold { int v; }; // compares without its lowest bit, in descending order
	inline bool operator==(const Fold & x, const Fold & y) noexcept { return x.v / 2 == y.v / 2; }
	inline bool operator!=(const Fold & x, const Fold & y) noexcept { return !(x == y); }
	inline bool operator<(const Fold & x, const Fold & y) noexcept { return x.v / 2 > y.v / 2; }
	inline bool operator>(const Fold & x, const Fold & y) noexcept { return y < x; }
	inline bool operator<=(const Fold & x, const Fold & y) noexcept { return !(y < x); }
	inline bool operator>=(const Fold & x, const Fold & y) noexcept { return !(x < y); }

	template<typename T> struct Val;
	template<typename T, int... Xs>
	struct Scalar {
		using m = T;
		static T make(const m & x, u32) { return x; }
		static m get(const T & x) { return x; }
		static m gen(Rng & r) { static const int xs[]{Xs...}; return static_cast<T>(xs[r.below(sizeof...(Xs))]); }
		static m tweak(const m & x, Rng & r) { m y{x}; for(int i{0}; i < 8 && y == x; ++i) y = gen(r); return y; }
		static void to(T & t, const m & x, u32) { t = x; }
	};
	template<> struct Val<int> : Scalar<int, 0, 1, 2, -1, 255, 256, INT_MAX, INT_MIN> {};
	template<> struct Val<unsigned char> : Scalar<unsigned char, 0, 1, 127, 128, 255> {};
	template<> struct Val<signed char> : Scalar<signed char, 0, 1, 127, -128, -1> {};
	template<> struct Val<bool> : Scalar<bool, 0, 1> {};
	template<> struct Val<double> : Scalar<double, 0, 1, -1, 0> { static m gen(Rng & r) { static const double xs[]{0.0, -0.0, 1.0, -1.0, 0.5}; return xs[r.below(5)]; } static m tweak(const m &, Rng & r) { return gen(r); } };
	template<> struct Val<Padded> { using m = Padded; static Padded make(const m & x, u32 r) { return Padded{x.a, {static_cast<signed char>(r), static_cast<signed char>(r >> 8), static_cast<signed char>(r >> 3)}, x.b}; } static m get(const Padded & x) { return Padded{x.a, {}, x.b}; } static m gen(Rng & r) { return Padded{static_cast<signed char>(r.below(3) - 1), {}, static_cast<int>(r.below(3)) - 1}; } static m tweak(const m & x, Rng & r) { return r.chance(1, 2) ? Padded{x.a, {}, x.b + 1} : Padded{static_cast<signed char>(-x.a), {}, x.b}; } static void to(Padded & t, const m & x, u32) { t.a = x.a; t.b = x.b; } };
	template<> struct Val<Fold> { using m = Fold; static Fold make(const m & x, u32) { return x; } static m get(const Fold & x) { return x; } static m gen(Rng & r) { return Fold{static_cast<int>(r.below(6))}; } static m tweak(const m & x, Rng & r) { return Fold{r.chance(1, 2) ? x.v ^ 1 : x.v + 2}; } static void to(Fold & t, const m & x, u32) { t = x; } };
	template<> struct Val<Soft> { using m = int; static Soft make(const m & x, u32) { return Soft(x); } static m get(const Soft & s) { return s.val("looked at"); } static m gen(Rng & r) { return static_cast<int>(r.below(4)); } static m tweak(const m & x, Rng & r) { return x + (r.chance(1, 2) ? 1 : -1); } static void to(Soft & t, const m & x, u32) { const Soft y(x); t = y; } };

	template<typename Seq> Seq gen_seq(Rng & r, std::size_t long_len) {
		using E = typename Seq::value_type; (void)sizeof(E);
		Seq s; const std::size_t n{r.chance(1, 8) ? long_len + r.below(4) : r.chance(1, 4) ? 0 : r.below(6)}; s.resize(n); return s;
	}
	template<> struct Val<ptl::string> {
		using T = ptl::string; using m = std::string;
		static char ch(Rng & r) { return r.chance(2, 3) ? 'a' : "ab\0\200\377"[r.below(5)]; }
		static m gen(Rng & r) { static const u32 ns[]{0, 0, 1, 1, 2, 3, 5, 21, 22, 23, 24, 25, 40, 70, 300}; m s(ns[r.below(15)], 'a'); for(auto & x : s) x = r.chance(1, 3) ? ch(r) : 'a'; return s; }
		static m tweak(const m & x, Rng & r) { m s{x}; switch(r.below(5)) { case 0: s += ch(r); break; case 1: if(!s.empty()) s.pop_back(); break; case 2: if(!s.empty()) s[r.below(static_cast<u32>(s.size()))] ^= static_cast<char>(1u << r.below(8)); break; case 3: if(!s.empty()) s.back() = static_cast<char>(s.back() ^ 0x80); break; default: s += std::string(r.below(40), '\0'); } return s; }
		static m get(const T & t) { m s; for(char x : t) s += x; return s; }
		static std::string_view sv(const m & x) { return x; }
		static T make(const m & x, u32 route) {
			switch(route % 6) {
				case 0: return T{sv(x)};
				case 1: { T t; for(char y : x) t.push_back(y); return t; }
				case 2: { T t; t.reserve(x.size() + 30 + route % 7); t.append(sv(x)); return t; }
				case 3: { T t(x.size() + 25, 'z'); t.replace(t.begin(), t.end(), sv(x)); return t; }
				case 4: { T t; t.append(sv(x).substr(x.size() / 2)); t.insert(t.begin(), sv(x).substr(0, x.size() / 2)); return t; }
				default: { T t{sv(x)}; t.append(std::size_t{1 + route % 40}, 'q'); t.erase(t.begin() + static_cast<std::ptrdiff_t>(x.size()), t.end()); return t; }
			}
		}
		static void to(T & t, const m & x, u32 route) {
			switch(route % 9) {
				case 0: t = sv(x); break;
				case 1: t.clear(); t.append(sv(x)); break;
				case 2: t.replace(t.begin(), t.end(), sv(x)); break;
				case 3: { T q{make(x, route / 9)}; t.swap(q); break; }
				case 4: t = make(x, route / 9); break;
				case 5: { const T q{make(x, route / 9)}; t = q; break; }
				case 6: t.resize(x.size(), 'w'); for(std::size_t i{0}; i < x.size(); ++i) t[i] = x[i]; break;
				case 7: t.assign(x.begin(), x.end()); t.shrink_to_fit(); break;
				default: { T q{std::move(t)}; t.append(sv(x)); break; }
			}
		}
		static void churn(T & t, Rng & r) {
			switch(r.below(10)) { case 0: t.reserve(t.size() + r.below(60)); break; case 1: t.shrink_to_fit(); break; case 2: t.clear(); break; case 3: t.resize(r.below(50), ch(r)); break; case 4: t.push_back(ch(r)); break; case 5: if(!t.empty()) t.pop_back(); break; case 6: t.append(std::size_t{r.below(30)}, ch(r)); break; case 7: if(!t.empty()) t.erase(t.begin() + r.below(static_cast<u32>(t.size()))); break; case 8: { T q{std::move(t)}; t = std::move(q); break; } default: { T q{std::move(t)}; } }
		}
		template<typename F> static void mixed(const T & a, const m & am, const T & b, const m & bm, F && expect) {
			const std::string_view v{bm}; expect("string and view", am.compare(bm), a == v, a != v, a < v, a > v, a <= v, a >= v); expect("view and string", bm.compare(am), v == a, v != a, v < a, v > a, v <= a, v >= a);
			if(bm.find('\0') == m::npos) { const char * const p{bm.c_str()}; expect("string and characters", am.compare(bm), a == p, a != p, a < p, a > p, a <= p, a >= p); expect("characters and string", bm.compare(am), p == a, p != a, p < a, p > a, p <= a, p >= a); }
			(void)b;
		}
		static constexpr bool hashed{true};
	};
	// a string reference to its own buffer, somewhere inside other characters
	struct RefBox {
		char * buf{nullptr}; ptl::string_ref r;
		static char * copy(std::string_view s, std::size_t pad) { Off o{*cur}; char * b{static_cast<char *>(std::malloc(s.size() + pad + 1))}; std::memset(b, 'b', s.size() + pad); b[s.size() + pad] = 0; std::memcpy(b + pad / 2, s.data(), s.size()); return b; }
		explicit RefBox(std::string_view s, std::size_t pad = 0) : buf{copy(s, pad)}, r{buf + pad / 2, s.size()} {}
		RefBox(const RefBox & o) : buf{copy({o.r.data(), o.r.size()}, 3)}, r{buf + 1, o.r.size()} {}
		RefBox & operator=(const RefBox & o) { char * b{copy({o.r.data(), o.r.size()}, 0)}; drop(); buf = b; r = ptl::string_ref{b, o.r.size()}; return *this; }
		void drop() { Off o{*cur}; std::free(buf); }
		~RefBox() { drop(); }
		friend bool operator==(const RefBox & a, const RefBox & b) { return a.r == b.r; }
		friend bool operator!=(const RefBox & a, const RefBox & b) { return a.r != b.r; }
		friend bool operator<(const RefBox & a, const RefBox & b) { return a.r < b.r; }
		friend bool operator>(const RefBox & a, const RefBox & b) { return a.r > b.r; }
		friend bool operator<=(const RefBox & a, const RefBox & b) { return a.r <= b.r; }
		friend bool operator>=(const RefBox & a, const RefBox & b) { return a.r >= b.r; }
	};
}
template<> struct std::hash<sim::RefBox> { std::size_t operator()(const sim::RefBox & b) const { return std::hash<ptl::string_ref>{}(b.r); } };
namespace sim {
	template<> struct Val<RefBox> {
		using T = RefBox; using m = std::string; using S = Val<ptl::string>;
		static m gen(Rng & r) { return S::gen(r); }
		static m tweak(const m & x, Rng & r) { return S::tweak(x, r); }
		static m get(const T & t) { return m(t.r.data(), t.r.size()); }
		static T make(const m & x, u32 route) { return T{std::string_view{x}, route % 5}; }
		static void to(T & t, const m & x, u32 route) { const T q{make(x, route)}; t = q; }
		static void churn(T & t, Rng & r) { if(t.r.size()) { const std::size_t n{r.below(static_cast<u32>(t.r.size()))}; switch(r.below(4)) { case 0: t.r.remove_prefix(n); break; case 1: t.r.remove_suffix(n); break; case 2: t.r = t.r.substr(n); break; default: t.r = ptl::string_ref{t.buf}; if(t.r.size() > 0) t.r = ptl::string_ref{t.buf, 1}; } } else { t.r = ptl::string_ref{}; } }
		static constexpr bool hashed{true};
	};
	template<typename E> struct Val<ptl::vector<E>> {
		using T = ptl::vector<E>; using V = Val<E>; using m = std::vector<typename V::m>;
		static m gen(Rng & r) { static const u32 ns[]{0, 0, 1, 1, 2, 3, 4, 7, 8, 9, 40, 90}; m s(ns[r.below(r.chance(1, 8) ? 12 : 9)]); for(auto && x : s) x = V::gen(r); return s; }
		static m tweak(const m & x, Rng & r) { m s{x}; switch(r.below(4)) { case 0: s.push_back(V::gen(r)); break; case 1: if(!s.empty()) s.pop_back(); break; default: if(!s.empty()) { const u32 k{r.chance(1, 2) ? static_cast<u32>(s.size()) - 1 : r.below(static_cast<u32>(s.size()))}; s[k] = V::tweak(s[k], r); } } return s; }
		static m get(const T & t) { m s; for(const auto & x : t) s.push_back(V::get(x)); return s; }
		static T make(const m & x, u32 route) {
			T t;
			switch(route % 5) {
				case 0: for(const auto & y : x) t.push_back(V::make(y, route)); break;
				case 1: t.reserve(x.size() + route % 9); for(const auto & y : x) t.emplace_back(V::make(y, route / 5)); break;
				case 2: for(std::size_t i{x.size()}; i != 0; --i) t.insert(t.begin(), V::make(x[i - 1], route)); break;
				case 3: if(!x.empty()) { t.assign(x.size() + 2, V::make(x[0], route)); t.pop_back(); for(std::size_t i{0}; i < x.size(); ++i) V::to(t[i], x[i], route); t.erase(t.begin() + static_cast<std::ptrdiff_t>(x.size()), t.end()); } break;
				default: for(const auto & y : x) { t.push_back(V::make(y, route)); t.shrink_to_fit(); } break;
			}
			return t;
		}
		static void to(T & t, const m & x, u32 route) {
			switch(route % 6) {
				case 0: t = make(x, route / 6); break;
				case 1: { const T q{make(x, route / 6)}; t = q; break; }
				case 2: { T q{make(x, route / 6)}; t.swap(q); break; }
				case 3: t.clear(); for(const auto & y : x) t.push_back(V::make(y, route)); break;
				case 4: { const T q{make(x, route / 6)}; t.assign(q.begin(), q.end()); break; }
				default: { T q{std::move(t)}; for(const auto & y : x) t.push_back(V::make(y, route)); break; }
			}
		}
		static void churn(T & t, Rng & r) {
			switch(r.below(8)) { case 0: t.reserve(t.size() + r.below(30)); break; case 1: t.shrink_to_fit(); break; case 2: t.clear(); break; case 3: if(!t.empty()) t.pop_back(); break; case 4: if(!t.empty()) t.push_back(t[0]); break; case 5: if(!t.empty()) t.erase(t.begin() + r.below(static_cast<u32>(t.size()))); break; case 6: { T q{std::move(t)}; t = std::move(q); break; } default: { T q{std::move(t)}; } }
		}
		static constexpr bool hashed{false};
	};
	template<typename E, std::size_t N> struct Val<ptl::array<E, N>> {
		using T = ptl::array<E, N>; using V = Val<E>; using m = std::array<typename V::m, N>;
		static m gen(Rng & r) { m s{}; for(auto & x : s) x = V::gen(r); return s; }
		static m tweak(const m & x, Rng & r) { m s{x}; if constexpr(N != 0) { const u32 k{r.below(N)}; s[k] = V::tweak(s[k], r); } return s; }
		static m get(const T & t) { m s{}; std::size_t i{0}; for(const auto & x : t) s[i++] = V::get(x); return s; }
		template<std::size_t... I> static T build(const m & x, u32 route, std::index_sequence<I...>) { return T{V::make(x[I], route)...}; }
		static T make(const m & x, u32 route) { if(route % 3 == 0) { T t{}; for(std::size_t i{0}; i < N; ++i) V::to(t[i], x[i], route / 3); return t; } return build(x, route / 3, std::make_index_sequence<N>{}); }
		static void to(T & t, const m & x, u32 route) { switch(route % 4) { case 0: t = make(x, route / 4); break; case 1: { const T q{make(x, route / 4)}; t = q; break; } case 2: { T q{make(x, route / 4)}; t.swap(q); break; } default: for(std::size_t i{0}; i < N; ++i) V::to(t[i], x[i], route / 4); } }
		static void churn(T & t, Rng & r) { if constexpr(N != 0) { switch(r.below(3)) { case 0: { const auto e{V::make(V::gen(r), 0)}; t.fill(e); break; } case 1: { T q{std::move(t)}; t = std::move(q); break; } default: { T q{std::move(t)}; } } } }
		static constexpr bool hashed{false};
	};
	template<typename E> struct Val<ptl::optional<E>> {
		using T = ptl::optional<E>; using V = Val<E>; using m = std::optional<typename V::m>;
		static m gen(Rng & r) { if(r.chance(1, 3)) return std::nullopt; return V::gen(r); }
		static m tweak(const m & x, Rng & r) { if(r.chance(1, 4)) return x ? m{} : m{V::gen(r)}; return x ? m{V::tweak(*x, r)} : m{V::gen(r)}; }
		static m get(const T & t) { if(!t) return std::nullopt; return V::get(*t); }
		static T make(const m & x, u32 route) { if(!x) { if(route % 3 == 0) return T{}; if(route % 3 == 1) return T{std::nullopt}; const typename V::m zero{}; T t{V::make(zero, route / 3)}; t.reset(); return t; } if(route % 3 == 0) return T{V::make(*x, route / 3)}; T t; if(route % 3 == 1) t.emplace(V::make(*x, route / 3)); else { const E e{V::make(*x, route / 3)}; t = e; } return t; }
		static void to(T & t, const m & x, u32 route) { switch(route % 5) { case 0: t = make(x, route / 5); break; case 1: { const T q{make(x, route / 5)}; t = q; break; } case 2: { T q{make(x, route / 5)}; t.swap(q); break; } case 3: if(!x) t.reset(); else t.emplace(V::make(*x, route / 5)); break; default: if(!x) t = std::nullopt; else if(t) V::to(*t, *x, route / 5); else t = V::make(*x, route / 5); } }
		static void churn(T & t, Rng & r) { switch(r.below(4)) { case 0: t.reset(); break; case 1: { T q{std::move(t)}; t = std::move(q); break; } case 2: t.emplace(V::make(V::gen(r), 0)); break; default: { T q{std::move(t)}; } } }
		template<typename F> static void mixed(const T & a, const m & am, const T & b, const m & bm, F && expect) {
			const auto n{std::nullopt}; const int w{am ? 1 : 0};
			expect("optional and nullopt", w, a == n, a != n, a < n, a > n, a <= n, a >= n); expect("nullopt and optional", -w, n == a, n != a, n < a, n > a, n <= a, n >= a);
			if(bm && b) { const E & v{*b}; const auto & y{*bm}; const int k{!am ? -1 : *am < y ? -1 : y < *am ? 1 : 0}; expect("optional and value", k, a == v, a != v, a < v, a > v, a <= v, a >= v); expect("value and optional", -k, v == a, v != a, v < a, v > a, v <= a, v >= a); }
		}
		static constexpr bool hashed{false};
	};
	template<typename... Ts> struct Val<ptl::tuple<Ts...>> {
		using T = ptl::tuple<Ts...>; using m = std::tuple<typename Val<Ts>::m...>; using Seq = std::index_sequence_for<Ts...>; static constexpr std::size_t N{sizeof...(Ts)};
		template<std::size_t I> using A = std::tuple_element_t<I, std::tuple<Ts...>>;
		template<std::size_t... I> static m gen_(Rng & r, std::index_sequence<I...>) { return m{Val<A<I>>::gen(r)...}; }
		static m gen(Rng & r) { return gen_(r, Seq{}); }
		template<std::size_t... I> static void tweak_(m & x, Rng & r, u32 k, std::index_sequence<I...>) { ((I == k ? (std::get<I>(x) = Val<A<I>>::tweak(std::get<I>(x), r), 0) : 0), ...); }
		static m tweak(const m & x, Rng & r) { m y{x}; tweak_(y, r, r.below(N), Seq{}); return y; }
		template<std::size_t... I> static m get_(const T & t, std::index_sequence<I...>) { return m{Val<A<I>>::get(t.template get<I>())...}; }
		static m get(const T & t) { return get_(t, Seq{}); }
		template<std::size_t... I> static T make_(const m & x, u32 route, std::index_sequence<I...>) { return T{Val<A<I>>::make(std::get<I>(x), route)...}; }
		static T make(const m & x, u32 route) { return make_(x, route, Seq{}); }
		template<std::size_t... I> static void each(T & t, const m & x, u32 route, std::index_sequence<I...>) { (Val<A<I>>::to(t.template get<I>(), std::get<I>(x), route), ...); }
		static void to(T & t, const m & x, u32 route) { switch(route % 4) { case 0: t = make(x, route / 4); break; case 1: { const T q{make(x, route / 4)}; t = q; break; } case 2: { T q{make(x, route / 4)}; t.swap(q); break; } default: each(t, x, route / 4, Seq{}); } }
		static void churn(T & t, Rng & r) { if(r.chance(1, 2)) { T q{std::move(t)}; t = std::move(q); } else { T q{std::move(t)}; } }
		static constexpr bool hashed{false};
	};
	template<typename... Ts> struct Val<ptl::variant<Ts...>> {
		using T = ptl::variant<Ts...>; using m = std::variant<typename Val<Ts>::m...>; static constexpr std::size_t N{sizeof...(Ts)};
		template<std::size_t I> using A = std::tuple_element_t<I, std::tuple<Ts...>>;
		template<std::size_t I = 0, typename F> static auto pick(std::size_t k, F && f) -> decltype(f(std::integral_constant<std::size_t, 0>{})) { if constexpr(I + 1 < N) if(k != I) return pick<I + 1>(k, f); return f(std::integral_constant<std::size_t, I>{}); }
		static std::size_t held(const T & t) { std::size_t k{0}; while(k + 1 < N && !pick(k, [&](auto i) { return t.template holds<A<i.value>>(); })) ++k; return k; }
		static m gen_at(std::size_t k, Rng & r) { return pick(k, [&](auto i) { return m{std::in_place_index<i.value>, Val<A<i.value>>::gen(r)}; }); }
		static m gen(Rng & r) { return gen_at(r.below(N), r); }
		static m tweak(const m & x, Rng & r) { if(r.chance(1, 3)) return gen_at((x.index() + 1) % N, r); return pick(x.index(), [&](auto i) { return m{std::in_place_index<i.value>, Val<A<i.value>>::tweak(std::get<i.value>(x), r)}; }); }
		static m get(const T & t) { return pick(held(t), [&](auto i) { return m{std::in_place_index<i.value>, Val<A<i.value>>::get(t.template get<A<i.value>>())}; }); }
		static T make(const m & x, u32 route) { return pick(x.index(), [&](auto i) { if(route % 2) { T t; t.template emplace<i.value>(Val<A<i.value>>::make(std::get<i.value>(x), route / 2)); return t; } return T{Val<A<i.value>>::make(std::get<i.value>(x), route / 2)}; }); }
		static void to(T & t, const m & x, u32 route) { switch(route % 5) { case 0: t = make(x, route / 5); break; case 1: { const T q{make(x, route / 5)}; t = q; break; } case 2: { T q{make(x, route / 5)}; t.swap(q); break; } case 3: pick(x.index(), [&](auto i) { if(held(t) == i.value) Val<A<i.value>>::to(t.template get<A<i.value>>(), std::get<i.value>(x), route / 5); else t = Val<A<i.value>>::make(std::get<i.value>(x), route / 5); return 0; }); break; default: pick(x.index(), [&](auto i) { t.template emplace<A<i.value>>(Val<A<i.value>>::make(std::get<i.value>(x), route / 5)); return 0; }); } }
		static void churn(T & t, Rng & r) { if(r.chance(1, 2)) { T q{std::move(t)}; t = std::move(q); } else { T q{std::move(t)}; } }
		static constexpr bool hashed{false};
	};

	template<std::size_t N> struct Val<ptl::bitset<N>> {
		using T = ptl::bitset<N>; using m = std::array<bool, N>;
		static m gen(Rng & r) { m s{}; const u32 d{r.below(5)}; for(auto & x : s) x = r.below(4) < d; return s; }
		static m tweak(const m & x, Rng & r) { m s{x}; if constexpr(N != 0) { const u32 k{r.chance(1, 3) ? static_cast<u32>(N) - 1 : r.chance(1, 3) ? 0 : r.below(N)}; s[k] = !s[k]; } return s; }
		static m get(const T & t) { m s{}; for(std::size_t k{0}; k < N; ++k) s[k] = t[k]; return s; }
		static T make(const m & x, u32 route) {
			T t;
			switch(route % 5) {
				case 0: for(std::size_t k{0}; k < N; ++k) t.set(k, x[k]); break;
				case 1: t.set(); for(std::size_t k{0}; k < N; ++k) if(!x[k]) t.reset(k); break;
				case 2: for(std::size_t k{N}; k != 0; --k) { t <<= 1; if constexpr(N != 0) t[0] = x[k - 1]; } break;
				case 3: for(std::size_t k{0}; k < N; ++k) { t >>= 1; if constexpr(N != 0) t.set(N - 1, x[k]); } break;
				default: for(std::size_t k{0}; k < N; ++k) if(!x[k]) t.flip(k); t = ~t; break;
			}
			return t;
		}
		static void to(T & t, const m & x, u32 route) { switch(route % 6) { case 0: t = make(x, route / 6); break; case 1: { T q{make(x, route / 6)}; t.swap(q); break; } case 2: t &= make(x, route / 6); t |= make(x, route / 6 + 1); break; case 3: { const T q{make(x, route / 6)}; t ^= q; t ^= (t ^ q); break; } case 4: t.flip(); for(std::size_t k{0}; k < N; ++k) if(t[k] != x[k]) t.flip(k); break; default: for(std::size_t k{0}; k < N; ++k) t[k] = x[k]; } }
		static void churn(T & t, Rng & r) { switch(r.below(7)) { case 0: t.set(); break; case 1: t.reset(); break; case 2: t.flip(); break; case 3: t <<= r.below(N + 3); break; case 4: t >>= r.below(N + 3); break; case 5: t = ~t; break; default: t = T{static_cast<std::size_t>(r.next())}; } }
		static constexpr bool hashed{true};
	};

	template<typename T, typename = void> struct is_ordered : std::false_type {};
	template<typename T> struct is_ordered<T, std::void_t<decltype(std::declval<const T &>() < std::declval<const T &>())>> : std::true_type {};
	template<typename T, typename = void> struct has_mixed : std::false_type {};
	template<typename T> struct has_mixed<T, std::void_t<decltype(Val<T>::mixed(std::declval<const T &>(), std::declval<const typename Val<T>::m &>(), std::declval<const T &>(), std::declval<const typename Val<T>::m &>(), std::declval<void (&)(const char *, int, bool, bool, bool, bool, bool, bool)>()))>> : std::true_type {};

	template<typename T>
	struct CmpWorld final : World {
		using V = Val<T>; using M = typename V::m; static constexpr u32 NS{3};
		Slot<T> sl[NS]; M mo[NS];
		enum Op : u32 { BUILD, TO, CLONE, TWEAK, CHURN, COPY, MOVE, SWAP, COMPARE, COMPARE_FRESH, COMPARE_TWEAK, HASH, MIXED, NOPS };
		static const OpInfo * ops() { static const OpInfo o[]{{"build",6},{"to",6},{"clone",10},{"tweak",7},{"churn",8},{"copy",3},{"move",4},{"swap",3},{"compare",14},{"compare_fresh",8},{"compare_tweak",8},{"hash",V::hashed ? 8u : 0u},{"mixed",has_mixed<T>::value ? 10u : 0u}}; static_assert(sizeof o / sizeof *o == NOPS); return o; }
		CmpWorld(Ctx & c, const Plan & p) { for(u32 i{0}; i < NS; ++i) { Rng r{p.cfg[i]}; mo[i] = V::gen(r); sl[i].p = Slot<T>::raw(c); { Track t{c}; new(static_cast<void *>(sl[i].p)) T(V::make(mo[i], p.cfg[i + 3])); } sync(i); } }
		void sync(u32 i) { Ctx & c{*cur}; Off o{c}; mo[i] = V::get(*sl[i]); }
		u32 abs_state() const override { u32 r{0}; for(u32 i{0}; i < NS; ++i) r = r * 9 + order(mo[i], mo[(i + 1) % NS]) + 1; return r; }
		static int order(const M & a, const M & b) { return a < b ? -1 : b < a ? 1 : 0; }
		void judge(Ctx & c, const char * what, int want, bool eq, bool ne, bool lt, bool gt, bool le, bool ge) {
			c.log(static_cast<u64>(want + 2));
			if(eq != (want == 0) || ne != (want != 0) || lt != (want < 0) || gt != (want > 0) || le != (want <= 0) || ge != (want >= 0)) violate(VALUE, "%s: == %d, != %d, < %d, > %d, <= %d, >= %d, but the contents are %s", what, eq, ne, lt, gt, le, ge, want == 0 ? "equal" : want < 0 ? "in ascending order" : "in descending order");
		}
		void compare(Ctx & c, const T & a, const M & am, const T & b, const M & bm, const char * what) {
			bool x[12]{}; const Result r{sut(c, [&] { x[0] = a == b; x[1] = a != b; x[6] = b == a; x[7] = b != a; if constexpr(is_ordered<T>::value) { x[2] = a < b; x[3] = a > b; x[4] = a <= b; x[5] = a >= b; x[8] = b < a; x[9] = b > a; x[10] = b <= a; x[11] = b >= a; } })};
			if(!r.ok()) { violate(VALUE, "a comparison failed (%s)", out_name[static_cast<int>(r.out)]); return; }
			const int w{order(am, bm)}; if constexpr(!is_ordered<T>::value) { x[2] = x[9] = w < 0; x[3] = x[8] = w > 0; x[4] = x[11] = w <= 0; x[5] = x[10] = w >= 0; } judge(c, what, w, x[0], x[1], x[2], x[3], x[4], x[5]); judge(c, what, -w, x[6], x[7], x[8], x[9], x[10], x[11]);
			if constexpr(V::hashed) if(w == 0) { std::size_t h{0}, k{0}; const Result q{sut(c, [&] { h = std::hash<T>{}(a); k = std::hash<T>{}(b); })}; if(!q.ok() || h != k) violate(VALUE, "%s: equal values have different hashes", what); }
		}
		void step(Ctx & c, const Step & s) override { Off off{c}; impl(c, s); }
		void impl(Ctx & c, const Step & s) {
			const u32 i{s.a[0] % NS}, j{s.a[1] % NS}, route{s.a[3]}; T & t{*sl[i]}; Rng g{mix(s.a[2], s.a[4])}; Result r{Out::ok};
			if(c.trace) c.note("    object %u, other %u, route %u", i, j, route);
			const auto to{[&](const M & x) { if(s.a[5] % 3 == 0) r = sl[i].build(c, [&](void * q) { new(q) T(V::make(x, route)); }); else r = sut(c, [&] { V::to(t, x, route); }); sync(i); }};
			switch(s.op) {
				case BUILD: { const M x{V::gen(g)}; r = sl[i].build(c, [&](void * q) { new(q) T(V::make(x, route)); }); sync(i); return; }
				case TO: { const M x{V::gen(g)}; to(x); return; }
				case CLONE: { const M x{mo[j]}; to(x); if(s.a[5] % 2) compare(c, *sl[i], mo[i], *sl[j], mo[j], "an object and one brought to the same contents"); return; }
				case TWEAK: { const M x{V::tweak(mo[j], g)}; to(x); if(s.a[5] % 2) compare(c, *sl[i], mo[i], *sl[j], mo[j], "an object and one with one difference"); return; }
				case CHURN: r = sut(c, [&] { V::churn(t, g); }); sync(i); return;
				case COPY: if(i != j) { r = sl[i].build(c, [&](void * q) { new(q) T(static_cast<const T &>(*sl[j])); }); sync(i); sync(j); compare(c, *sl[i], mo[i], *sl[j], mo[j], "copy and original"); } return;
				case MOVE: if(i != j) { r = sut(c, [&] { t = std::move(*sl[j]); }); sync(i); sync(j); compare(c, *sl[i], mo[i], *sl[j], mo[j], "after a move"); } return;
				case SWAP: { using std::swap; r = sut(c, [&] { swap(t, *sl[j]); }); sync(i); sync(j); compare(c, *sl[i], mo[i], *sl[j], mo[j], "after a swap"); return; }
				case COMPARE: compare(c, t, mo[i], *sl[j], mo[j], "two objects"); compare(c, t, mo[i], t, mo[i], "an object and itself"); return;
				case COMPARE_FRESH: case COMPARE_TWEAK: { M x{s.op == COMPARE_FRESH ? mo[i] : V::tweak(mo[i], g)}; T * const q{Slot<T>::raw(c)}; { Track tr{c}; new(static_cast<void *>(q)) T(V::make(x, route)); } x = V::get(*q); compare(c, t, mo[i], *q, x, s.op == COMPARE_FRESH ? "an object and a fresh one" : "an object and a fresh one with one difference"); { Track tr{c}; q->~T(); } Slot<T>::drop(c, q); return; }
				case HASH: if constexpr(V::hashed) { std::size_t h[3]{}; r = sut(c, [&] { for(u32 k{0}; k < NS; ++k) h[k] = std::hash<T>{}(*sl[k]); }); for(u32 k{0}; k < NS; ++k) if(order(mo[k], mo[i]) == 0 && h[k] != h[i]) violate(VALUE, "equal values have different hashes"); if(!r.ok()) violate(VALUE, "hashing failed (%s)", out_name[static_cast<int>(r.out)]); } return;
				case MIXED: if constexpr(has_mixed<T>::value) { Track tr{c}; V::mixed(t, mo[i], *sl[j], mo[j], [&](const char * what, int w, bool eq, bool ne, bool lt, bool gt, bool le, bool ge) { Off o{c}; judge(c, what, w < 0 ? -1 : w > 0, eq, ne, lt, gt, le, ge); }); } return;
			}
		}
		void finish(Ctx & c) override { for(auto & x : sl) x.destroy(c); }
		static World * make(Ctx & c, const Plan & p) { return new CmpWorld(c, p); }
		static WorldKind kind(const char * name) { return WorldKind{name, ops(), NOPS, (1u << F_ALLOC) | (1u << F_OOM) | (1u << F_ELEM), &make}; }
	};
	#define SIM_CMP(id, name, ...) static RegisterWorld id{CmpWorld<__VA_ARGS__>::kind("cmp:" name)}
}
