// Read-only operations of every type (peek), operations that touch a single element only (own), and further changes (more); included by mod.cpp after its per-type adapters.
#include <ostream>
#include <streambuf>
namespace {
	struct Dig { unsigned long long h{1469598103934665603ull}; void add(long long v) { h ^= static_cast<unsigned long long>(v); h *= 1099511628211ull; h ^= h >> 29; } void out(Call & c) const { c.out[0] = static_cast<int>(h & 0x7fffffff); c.out[1] = static_cast<int>(h >> 33); } };
	struct Sink final : std::streambuf { char b[4200]; std::size_t n{0}; int_type overflow(int_type ch) override { if(n < sizeof b) b[n++] = static_cast<char>(ch); return 1; } std::streamsize xsputn(const char * s, std::streamsize k) override { for(std::streamsize i{0}; i < k && n < sizeof b; ++i) b[n++] = s[i]; return k; } };
	template<typename X> void write(Dig & d, const X & x) { Sink s; std::ostream os(&s); os << x; d.add(static_cast<long long>(s.n)); for(std::size_t i{0}; i < s.n; ++i) d.add(s.b[i]); d.add(os.good()); }
	template<typename E> constexpr bool ordered{true};
	template<> constexpr bool ordered<Rec>{false};
	template<typename E> constexpr bool has_order{true};
	template<typename X> void order(Dig & d, const X & a, const X & b) { d.add((a == b) + 2 * (a != b) + 4 * (a < b) + 8 * (a <= b) + 16 * (a > b) + 32 * (a >= b)); }
	template<typename X> void refused(Dig & d, X && x) { try { x(); d.add(1); } catch(const std::out_of_range &) { d.add(2); } catch(const std::bad_optional_access &) { d.add(3); } catch(const std::bad_variant_access &) { d.add(4); } }
	// a source that can be read once only
	template<typename E> struct Once { using iterator_category = std::input_iterator_tag; using value_type = E; using difference_type = std::ptrdiff_t; using pointer = const E *; using reference = const E &; const E * p; reference operator*() const { return *p; } pointer operator->() const { return p; } Once & operator++() { ++p; return *this; } Once operator++(int) { Once t{*this}; ++p; return t; } friend bool operator==(const Once & a, const Once & b) { return a.p == b.p; } friend bool operator!=(const Once & a, const Once & b) { return a.p != b.p; } };
	template<typename T> auto once(const T & t) { return Once<std::decay_t<decltype(*t.data())>>{t.data()}; }
	template<typename T> auto once_end(const T & t) { return Once<std::decay_t<decltype(*t.data())>>{t.data() + t.size()}; }
	// positions as numbers
	template<typename L, typename B> void walk(Dig & d, B b, B e, unsigned how) {
		B i{}; i = b; while(i < e) d.add(L::get(*i++)); while(i > b) { i--; d.add(L::get(*i)); }
		const auto n{e - b}; d.add(n); if(!n) { d.add((b == e) + 2 * (b != e) + 4 * (b <= e) + 8 * (b >= e)); return; }
		const auto k{static_cast<std::ptrdiff_t>(how % static_cast<unsigned>(n))}; d.add(L::get(*(k + b))); d.add(L::get(*(e - (k + 1)))); d.add(L::get(b[k])); const B m{b + k}; d.add((m < e) + 2 * (m <= b) + 4 * (m >= b) + 8 * (b > m) + 16 * (m == b) + 32 * (m != e)); d.add(m.operator->() == std::addressof(*m)); d.add(m - b); d.add(m - e);
	}
	// contiguous containers
	template<typename L, typename T> void scan(Dig & d, const T & t, unsigned how) {
		d.add(static_cast<long long>(t.size())); d.add(t.empty());
		switch(how % 7) {
			case 0: for(const auto & e : t) d.add(L::get(e)); break;
			case 1: for(auto i{t.rbegin()}; i != t.rend(); ++i) d.add(L::get(*i)); break;
			case 2: for(std::size_t i{0}; i < t.size(); ++i) d.add(L::get(t[i])); break;
			case 3: if(!t.empty()) { d.add(L::get(t.front())); d.add(L::get(t.back())); d.add(L::get(t.data()[t.size() / 2])); } break;
			case 4: refused(d, [&] { d.add(L::get(t.at(how / 7 % (t.size() + 2)))); }); break;
			case 5: walk<L>(d, t.begin(), t.end(), how / 7); break;
			default: for(auto i{t.cend()}; i != t.cbegin();) d.add(L::get(*--i)); for(auto i{t.crbegin()}; i != t.crend(); i += 1) d.add(L::get(*i)); d.add(t.end() - t.begin()); break;
		}
	}
	template<typename T> struct Peek;
	template<typename E> struct Peek<ptl::vector<E>> {
		using T = ptl::vector<E>; using L = El<E>; static constexpr unsigned n{17};
		static void peek(Dig & d, const T & t, const T & o, Call & c) {
			switch(c.a % n) {
				case 0: case 1: case 2: case 3: case 4: case 5: scan<L>(d, t, c.a % n + c.b * 6); break;
				case 6: case 7: if constexpr(ordered<E>) { order(d, t, o); order(d, t, t); } break;
				case 8: { T u{t}; scan<L>(d, u, 0); if(!u.empty()) u.pop_back(); u.clear(); break; }
				case 9: { T u; for(unsigned i{0}; i < c.b % 4; ++i) u.push_back(L::make(c.v)); u = t; scan<L>(d, u, 1); break; }
				case 10: { T u(t.begin(), t.end()); u.insert(u.begin(), o.begin(), o.end()); scan<L>(d, u, 2); break; }
				case 11: { ptl::array_ref<const E> r{t}; scan<L>(d, r, c.b); if(!r.empty()) scan<L>(d, r.first(r.size() / 2), 0); break; }
				case 12: { T u; u.assign(t.data(), t.data() + t.size()); T w{std::move(u)}; scan<L>(d, w, 0); break; }
				case 14: { T u(once(t), once_end(t)); scan<L>(d, u, 0); u.assign(once(o), once_end(o)); scan<L>(d, u, 2); break; } case 15: { T u; u.insert(u.begin(), once(t), once_end(t)); u.insert(u.begin() + static_cast<std::ptrdiff_t>(u.size() / 2), once(o), once_end(o)); scan<L>(d, u, 0); break; } case 16: { T u({L::make(c.v), L::make(c.v + 1)}); u.assign({L::make(c.v + 2), L::make(c.v), L::make(c.v)}); scan<L>(d, u, 0); walk<L>(d, u.begin(), u.end(), c.b); typename T::const_iterator w{u.begin()}; d.add(u.cend() - w); for(auto i{u.rbegin()}; i != u.rend(); ++i) d.add(L::get(*i)); break; }
				default: d.add(t.capacity() >= t.size()); d.add(static_cast<long long>(T::max_size() != 0)); if(!t.empty()) { const E e{t[c.b % t.size()]}; d.add(L::get(e)); T u; u.push_back(t[c.b % t.size()]); scan<L>(d, u, 0); } break;
			}
		}
		static void own(Dig & d, T & t, Call & c, std::size_t part, std::size_t parts) {
			d.add(static_cast<long long>(t.size())); if(t.size() <= part) return;
			const std::size_t i{part + c.b % ((t.size() - part + parts - 1) / parts) * parts};
			switch(c.a % 8) { case 6: if(i == 0) t.front() = L::make(c.v); else (i + 1 == t.size() ? t.back() : t[i]) = L::make(c.v); break; case 7: t.rbegin()[static_cast<std::ptrdiff_t>(t.size() - 1 - i)] = L::make(c.v); break; case 0: t[i] = L::make(c.v); break; case 1: t.at(i) = L::make(c.v); break; case 2: t.begin()[static_cast<std::ptrdiff_t>(i)] = L::make(c.v); break; case 3: t.data()[i] = L::make(c.v); break; case 4: { auto it{t.end()}; it -= static_cast<std::ptrdiff_t>(t.size() - i); *it = L::make(c.v); break; } default: { E e{L::make(c.v)}; using std::swap; swap(t[i], e); } }
			d.add(L::get(t[i]));
		}
		static void more(T & t, T & o, Call & c) {
			const auto pos{t.cbegin() + (t.empty() ? 0 : static_cast<std::ptrdiff_t>(c.b % (t.size() + 1)))};
			switch(c.a % 10) {
				case 0: t = {L::make(c.v), L::make(c.v + 1)}; break; case 1: t.insert(pos, {L::make(c.v), L::make(c.v + 1), L::make(c.v + 2)}); break; case 2: { const E e{L::make(c.v)}; t.assign(c.b % 14, e); break; } case 3: t.erase(pos, t.cend()); break; case 4: t.emplace(pos, L::make(c.v)); break;
				case 5: { T u(c.b % 9); t.swap(u); break; } case 6: { const E e{L::make(c.v)}; t = T(c.b % 12, e); break; } case 7: t = std::move(o); o.clear(); break; case 8: { T u{std::move(t)}; t = u; break; } default: if(t.size() < 40) t.insert(pos, t.size() ? t[0] : L::make(c.v)); break;
			}
		}
	};
	template<typename T> void chars(Dig & d, const T & t) { d.add(static_cast<long long>(t.size())); for(char ch : t) d.add(ch); }
	template<> struct Peek<ptl::string> {
		using T = ptl::string; using L = El<char>; static constexpr unsigned n{25};
		static void peek(Dig & d, const T & t, const T & o, Call & c) {
			const std::size_t k{t.empty() ? 0 : c.b % (t.size() + 1)};
			switch(c.a % n) {
				case 0: case 1: case 2: case 3: case 4: case 5: scan<L>(d, t, c.a % n + c.b * 6); break;
				case 6: order(d, t, o); order(d, t, t); break;
				case 7: { const std::string_view v{t}, w{o}; chars(d, v); d.add((t == w) + 2 * (t < w) + 4 * (w < t) + 8 * (v != o) + 16 * (v >= t)); break; }
				case 8: { T u{t}; chars(d, u); u += static_cast<char>('a' + c.v % 20); chars(d, u); break; } case 9: { T u; u = t; chars(d, u); break; } case 10: chars(d, t + o); break; case 11: { const char ch{static_cast<char>('a' + c.v % 20)}; chars(d, t + ch); chars(d, ch + t); } break;
				case 12: chars(d, t.substr(k)); break; case 13: chars(d, t.substr(k / 2, k - k / 2)); break; case 14: { const char * s{t.c_str()}; std::size_t i{0}; while(s[i]) d.add(s[i++]); d.add(static_cast<long long>(i)); break; }
				case 15: write(d, t); break; case 16: d.add(static_cast<long long>(std::hash<T>{}(t))); break; case 17: { const std::string_view v{t}; const ptl::string_ref r{v}; chars(d, r); order(d, r, ptl::string_ref{static_cast<std::string_view>(o)}); break; }
				case 19: { const std::string_view v{t}; chars(d, v + o); chars(d, t + std::string_view{o}); d.add((v <= o) + 2 * (v > o) + 4 * (v == o) + 8 * (v != t) + 16 * (v < o) + 32 * (v >= o)); d.add((t <= std::string_view{o}) + 2 * (t > std::string_view{o}) + 4 * (t == std::string_view{o}) + 8 * (t < std::string_view{o}) + 16 * (t >= std::string_view{o})); break; } case 20: { T u(once(t), once_end(t)); u.append(once(o), once_end(o)); chars(d, u); u.assign(once(t), once_end(t)); chars(d, u); break; } case 21: { T u; u.insert(u.begin(), once(t), once_end(t)); chars(d, u); u.replace(u.begin(), u.begin() + static_cast<std::ptrdiff_t>(u.size() / 2), once(o), once_end(o)); chars(d, u); break; }
				case 22: { const char ch{static_cast<char>(c.v)}; T u{ch, 'p', ch}; u += {'q', ch}; u.insert(u.begin() + 1, ch); u.replace(u.begin(), u.begin() + 2, {'r', ch, 's'}); chars(d, u); u.front() = 'f'; u.back() = 'l'; chars(d, u); walk<L>(d, u.begin(), u.end(), c.b); for(auto i{u.rbegin()}; i != u.rend(); ++i) d.add(*i); using namespace ptl::literals; chars(d, "some\0literal"_s); break; } case 23: { T u{t}; const std::size_t m{k / 2}; chars(d, std::move(u).substr(m, (u.size() - m) / 2)); T w{o}; w.resize(c.b % 40); chars(d, w); break; }
				case 18: { T u{o}; u.append(t); u.insert(u.begin(), t); chars(d, u); break; } default: { T u(t.begin(), t.end()); u.replace(u.begin(), u.end(), o); chars(d, u); d.add(t.capacity() >= t.size()); break; }
			}
		}
		static void own(Dig & d, T & t, Call & c, std::size_t part, std::size_t parts) {
			d.add(static_cast<long long>(t.size())); if(t.size() <= part) return; const std::size_t i{part + c.b % ((t.size() - part + parts - 1) / parts) * parts}; const char ch{static_cast<char>(c.v)};
			switch(c.a % 6) { case 5: if(i == 0) t.front() = ch; else (i + 1 == t.size() ? t.back() : t[i]) = ch; break; case 0: t[i] = ch; break; case 1: t.at(i) = ch; break; case 2: t.begin()[static_cast<std::ptrdiff_t>(i)] = ch; break; case 3: t.data()[i] = ch; break; default: t.rbegin()[static_cast<std::ptrdiff_t>(t.size() - 1 - i)] = ch; }
			d.add(t[i]);
		}
		static void more(T & t, T & o, Call & c) {
			const auto pos{t.cbegin() + (t.empty() ? 0 : static_cast<std::ptrdiff_t>(c.b % (t.size() + 1)))}; const char ch{static_cast<char>(c.v)};
			switch(c.a % 14) {
				case 0: t = {ch, 'a', 'b'}; break; case 1: t.insert(pos, {ch, 'z'}); break; case 2: t += std::string_view{"0123456789abcdefghijklmn", c.b % 24}; break; case 3: t.erase(pos, t.cend()); break; case 4: t.replace(pos, t.cend(), c.b % 26, ch); break; case 5: t.replace(t.cbegin(), pos, o); break; case 6: t = t + o; if(t.size() > 90) t.clear(); break;
				case 7: t = std::move(o); o.clear(); break; case 8: { T u{std::move(t)}; t = u; break; } case 9: t.append({ch, ch}); break; case 10: t.assign(o.begin(), o.end()); break; case 11: { T u(c.b % 40, ch); u.swap(t); break; } case 12: t += t; if(t.size() > 90) { t.clear(); t.shrink_to_fit(); } break; default: t = o.substr(o.size() / 2); break;
			}
		}
	};
	template<typename E> struct Peek<ptl::optional<E>> {
		using T = ptl::optional<E>; using L = El<E>; static constexpr unsigned n{12};
		static void peek(Dig & d, const T & t, const T & o, Call & c) {
			d.add(t.has_value());
			switch(c.a % n) {
				case 0: if(t) d.add(L::get(*t)); break; case 1: refused(d, [&] { d.add(L::get(t.value())); }); break; case 2: d.add(L::get(t.value_or(L::make(c.v)))); break; case 3: order(d, t, o); order(d, t, t); break;
				case 4: d.add((t == std::nullopt) + 2 * (t != std::nullopt) + 4 * (std::nullopt < t) + 8 * (t <= std::nullopt) + 16 * (t < std::nullopt) + 32 * (t > std::nullopt) + 64 * (t >= std::nullopt) + 128 * (std::nullopt == t) + 256 * (std::nullopt != t) + 512 * (std::nullopt <= t) + 1024 * (std::nullopt > t) + 2048 * (std::nullopt >= t)); break; case 5: { const E e{L::make(c.v)}; d.add((t == e) + 2 * (t < e) + 4 * (e < t) + 8 * (e != t) + 16 * (t != e) + 32 * (t <= e) + 64 * (t > e) + 128 * (t >= e) + 256 * (e == t) + 512 * (e <= t) + 1024 * (e > t) + 2048 * (e >= t)); break; }
				case 8: { T u{t}; refused(d, [&] { d.add(L::get(u.value())); }); refused(d, [&] { E e{std::move(u).value()}; d.add(L::get(e)); }); d.add(u.has_value()); break; } case 9: { T u{t}; const E e{std::move(u).value_or(L::make(c.v))}; d.add(L::get(e)); refused(d, [&] { const E e{static_cast<const T &&>(t).value()}; d.add(L::get(e)); }); break; } case 10: { T u{t}; if(u) { d.add(L::get(*u.operator->())); const E e{*static_cast<const T &&>(u)}; d.add(L::get(e)); E g{*std::move(u)}; d.add(L::get(g)); } break; }
				case 6: { T u{t}; if(u) d.add(L::get(*u)); u.reset(); break; } case 7: { const E e{L::make(c.v)}; T u{e}; if(u) d.add(L::get(*u)); u = t; if(u) d.add(L::get(*u)); break; } default: { ptl::optional_ref<const E> r{t}; if(r) d.add(L::get(*r)); if(t) d.add(L::get(*t.operator->())); break; }
			}
		}
		static void own(Dig & d, T & t, Call &, std::size_t, std::size_t) { d.add(t.has_value()); if(t) d.add(L::get(*t)); }
		static void more(T & t, T & o, Call & c) { switch(c.a % 4) { case 0: t = std::nullopt; break; case 1: t = T{L::make(c.v)}; break; case 2: if(t) { E e{std::move(*t)}; t = std::move(e); } break; default: t.swap(o); t.swap(t); } }
	};
	template<typename... Ts> struct Peek<ptl::variant<Ts...>> {
		using T = ptl::variant<Ts...>; static constexpr unsigned n{11};
		static void peek(Dig & d, const T & t, const T & o, Call & c) {
			switch(c.a % n) {
				case 0: (d.add(t.template holds<Ts>()), ...); break; case 1: ((t.template get_if<Ts>() ? d.add(El<Ts>::get(*t.template get_if<Ts>())) : d.add(-7)), ...); break; case 2: (refused(d, [&] { d.add(El<Ts>::get(t.template get<Ts>())); }), ...); break;
				case 6: { T u{t}; (refused(d, [&] { Ts e{std::move(u).template get<Ts>()}; d.add(El<Ts>::get(e)); }), ...); (refused(d, [&] { Ts e{static_cast<const T &&>(t).template get<Ts>()}; d.add(El<Ts>::get(e)); }), ...); break; } case 7: { T u{t}; std::move(u).visit([&](auto && x) { auto y{std::forward<decltype(x)>(x)}; d.add(El<decltype(y)>::get(y)); }); static_cast<const T &&>(t).visit([&](const auto && x) { d.add(El<std::decay_t<decltype(x)>>::get(x)); }); break; } case 8: { T u; u = o; using H = std::decay_t<decltype(u.template emplace<0>())>; u.template emplace<0>(El<H>::make(c.v)); d.add(El<H>::get(u.template get<H>())); u = t; (d.add(u.template holds<Ts>()), ...); break; } case 9: { T u{t}; (refused(d, [&] { d.add(El<Ts>::get(u.template get<Ts>())); }), ...); break; }
				case 3: t.visit([&](const auto & x) { d.add(El<std::decay_t<decltype(x)>>::get(x)); }); break; case 4: { T u{t}; u.visit([&](const auto & x) { d.add(El<std::decay_t<decltype(x)>>::get(x)); }); break; } case 5: { T u{o}; u = t; u.visit([&](auto & x) { d.add(El<std::decay_t<decltype(x)>>::get(x)); }); break; }
				default: if constexpr(((ordered<Ts>) && ...)) { order(d, t, o); order(d, t, t); } else t.visit([&](const Ts & x) { d.add(El<std::decay_t<Ts>>::get(x)); }...); break;
			}
		}
		static void own(Dig & d, T & t, Call &, std::size_t, std::size_t) { (d.add(t.template holds<Ts>()), ...); }
		static void more(T & t, T & o, Call & c) { switch(c.a % 3) { case 0: { T u{std::move(t)}; t = u; break; } case 1: { T u{o}; u.swap(t); break; } default: t.visit([](auto & x) { auto y{x}; using std::swap; swap(x, y); }); } }
	};
	template<typename E, std::size_t N> struct Peek<ptl::array<E, N>> {
		using T = ptl::array<E, N>; using L = El<E>; static constexpr unsigned n{13};
		static void peek(Dig & d, const T & t, const T & o, Call & c) { switch(c.a % n) { case 6: case 7: order(d, t, o); order(d, t, t); break; case 11: { using std::get; T u{t}; d.add(L::get(get<0>(t))); d.add(L::get(get<N - 1>(u))); d.add(L::get(get<0>(static_cast<const T &&>(t)))); E e{get<N - 1>(std::move(u))}; d.add(L::get(e)); d.add(static_cast<long long>(T::max_size())); break; } case 12: { T u{t}; walk<L>(d, u.begin(), u.end(), c.b); for(auto i{u.rbegin()}; i != u.rend(); ++i) d.add(L::get(*i)); typename T::const_iterator w{u.begin()}; d.add(u.cend() - w); break; } case 8: { T u{t}; scan<L>(d, u, 0); break; } case 9: { T u{o}; u = t; scan<L>(d, u, 1); break; } case 10: { ptl::array_ref<const E> r{t}; scan<L>(d, r, c.b); break; } default: scan<L>(d, t, c.a % n + c.b * 6); } }
		static void own(Dig & d, T & t, Call & c, std::size_t part, std::size_t parts) {
			if(N <= part) return; const std::size_t i{part + c.b % ((N - part + parts - 1) / parts) * parts};
			switch(c.a % 6) { case 4: if(i == 0) t.front() = L::make(c.v); else (i + 1 == N ? t.back() : t[i]) = L::make(c.v); break; case 5: t.rbegin()[static_cast<std::ptrdiff_t>(N - 1 - i)] = L::make(c.v); break; case 0: t[i] = L::make(c.v); break; case 1: t.at(i) = L::make(c.v); break; case 2: t.begin()[static_cast<std::ptrdiff_t>(i)] = L::make(c.v); break; default: t.data()[i] = L::make(c.v); }
			d.add(L::get(t[i]));
		}
		static void more(T & t, T & o, Call & c) { switch(c.a % 3) { case 0: t.swap(o); break; case 1: { T u{std::move(t)}; t = u; break; } default: { const E e{L::make(c.v)}; t.fill(e); o = t; } } }
	};
	template<> struct Peek<Tup> {
		using T = Tup; static constexpr unsigned n{5};
		static void peek(Dig & d, const T & t, const T & o, Call & c) { switch(c.a % n) { case 0: d.add(t.get<0>()); d.add(t.get<1>()); d.add(El<ptl::string>::get(t.get<2>())); break; case 1: order(d, t, o); order(d, t, t); break; case 3: { T u{static_cast<const T &>(t)}; ptl::string e{std::move(u).get<2>()}; d.add(El<ptl::string>::get(e)); d.add(static_cast<const T &&>(t).get<1>()); d.add(El<ptl::string>::get(static_cast<const T &&>(t).get<2>())); break; } case 2: { T u{static_cast<const T &>(t)}; d.add(u.get<1>()); d.add(El<ptl::string>::get(u.get<2>())); break; } default: { T u{static_cast<const T &>(o)}; u = t; d.add(u.get<0>()); d.add(El<ptl::string>::get(u.get<2>())); } } }
		static void own(Dig & d, T & t, Call & c, std::size_t part, std::size_t) { switch(part) { case 0: t.get<0>() = El<char>::make(c.v); d.add(t.get<0>()); break; case 1: t.get<1>() = c.v; d.add(t.get<1>()); break; case 2: t.get<2>() = El<ptl::string>::make(c.v); d.add(El<ptl::string>::get(t.get<2>())); } }
		static void more(T & t, T & o, Call & c) { if(c.a % 2) t.swap(o); else t = T(El<char>::make(c.v), c.v, El<ptl::string>::make(c.v)); }
	};
	template<std::size_t N> struct Peek<ptl::bitset<N>> {
		using T = ptl::bitset<N>; static constexpr unsigned n{13};
		static void bits(Dig & d, const T & t) { for(std::size_t i{0}; i < N; ++i) d.add(t[i]); }
		static void peek(Dig & d, const T & t, const T & o, Call & c) {
			switch(c.a % n) {
				case 0: bits(d, t); break; case 1: refused(d, [&] { d.add(t.test(c.b % (N + 2))); }); refused(d, [&] { d.add(t.at(c.b / 7 % (N + 2))); }); break; case 2: d.add(static_cast<long long>(t.count())); d.add(t.all() + 2 * t.any() + 4 * t.none()); break; case 3: d.add((t == o) + 2 * (t != o) + 4 * (t == t)); break;
				case 9: { const unsigned long long raw{c.b * 0x9e3779b97f4a7c15ull}; T u{static_cast<std::size_t>(raw)}; bits(d, u); d.add(T::empty() + 2 * (T::max_size() == N) + 4 * (T::size() == N)); refused(d, [&] { u.set(c.b % (N + 2)); }); refused(d, [&] { u.reset(c.b / 3 % (N + 2)); }); refused(d, [&] { u.flip(c.b / 5 % (N + 2)); }); refused(d, [&] { u.set(c.b / 7 % (N + 2), c.v % 2); }); bits(d, u); break; }
				case 10: { T u{t}; T w{o}; auto a{u[c.b % N]}; auto b{w[c.b / 3 % N]}; d.add(~a); d.add(static_cast<bool>(b)); a.flip(); a = b; swap(a, b); b = c.v % 2; refused(d, [&] { u.at(c.b / 5 % (N + 2)) = c.v % 2; }); bits(d, u); bits(d, w); d.add(~a); break; }
				case 11: { char t_[N]; for(std::size_t i{0}; i < N; ++i) t_[i] = t[N - 1 - i] ? '1' : '0'; struct In final : std::streambuf { In(char * p, std::size_t n) { setg(p, p, p + n); } } in{t_, N}; std::istream is(&in); T u{o}; is >> u; bits(d, u); d.add(is.good() + 2 * is.eof()); break; }
				case 4: d.add(static_cast<long long>(std::hash<T>{}(t))); break; case 5: write(d, t); break; case 6: bits(d, ~t); bits(d, t & o); bits(d, t | o); bits(d, t ^ o); break; case 7: bits(d, t << c.b % 20); bits(d, t >> c.b % 20); break; case 8: { T u{t}; u.flip(); bits(d, u); break; } default: { T u; u = t; u ^= t; u |= t; bits(d, u); using std::get; d.add(get<0>(t)); d.add(get<N - 1>(t)); } 
			}
		}
		static void own(Dig & d, T & t, Call &, std::size_t, std::size_t) { d.add(static_cast<long long>(t.count())); }
		static void more(T & t, T & o, Call & c) { switch(c.a % 9) { case 7: t.reset(c.b % N); break; case 8: t.flip(c.b % N); if(c.v % 2) t.set(); break; case 0: t.reset(); break; case 1: t.set(c.b % N, c.v % 2); break; case 2: t &= o; break; case 3: t ^= o; break; case 4: t >>= c.b % 5; break; case 5: t[c.b % N] = c.v % 3 == 0; t[c.b / 5 % N].flip(); break; default: t.swap(o); } }
	};
	template<> struct Peek<ptl::string_ref> {
		using T = ptl::string_ref; static constexpr unsigned n{13};
		static void peek(Dig & d, const T & t, const T & o, Call & c) { const std::size_t k{c.b % (t.size() + 1)}; switch(c.a % n) { case 6: order(d, t, o); break; case 7: write(d, t); break; case 10: walk<El<char>>(d, t.begin(), t.end(), c.b); d.add(T::max_size() > t.size()); break; case 11: { T u; d.add(u.empty()); u = t.substr(k / 2, k - k / 2); chars(d, u); break; } case 12: { using namespace ptl::literals; const T u{"0123456789" + c.b % 11}; chars(d, u); chars(d, "a\0b"_sr); order(d, t, u); break; } case 8: d.add(static_cast<long long>(std::hash<T>{}(t))); chars(d, t.substr(k)); break; case 9: { T u{t}; u.remove_prefix(k); chars(d, u); chars(d, std::string_view{t}); break; } default: scan<El<char>>(d, t, c.a % n + c.b * 6); } }
		static void own(Dig & d, T & t, Call &, std::size_t, std::size_t) { chars(d, t); }
		static void more(T & t, T & o, Call & c) { switch(c.a % 3) { case 0: t = o; break; case 1: std::swap(t, o); break; default: if(!t.empty()) t = t.substr(1); } }
	};
	template<typename E> struct Peek<ptl::array_ref<E>> {
		using T = ptl::array_ref<E>; using L = El<int>; static constexpr unsigned n{11};
		static void peek(Dig & d, const T & t, const T &, Call & c) { const std::size_t k{c.b % (t.size() + 1)}; switch(c.a % n) { case 6: scan<L>(d, t.first(k), c.b); break; case 9: { T u; d.add(u.empty()); u = t.subrange(k / 2, k - k / 2); scan<L>(d, u, c.b); break; } case 10: { T u{t}; walk<L>(d, u.begin(), u.end(), c.b); for(auto i{u.rbegin()}; i != u.rend(); ++i) d.add(L::get(*i)); typename T::const_iterator w{u.begin()}; d.add(u.cend() - w); break; } case 7: scan<L>(d, t.last(k), c.b); scan<L>(d, t.subrange(k), 0); break; case 8: { T u{t}; scan<L>(d, u, 0); break; } default: scan<L>(d, t, c.a % n + c.b * 6); } }
		static void own(Dig & d, T & t, Call & c, std::size_t part, std::size_t parts) { d.add(static_cast<long long>(t.size())); if constexpr(!std::is_const_v<E>) { if(t.size() <= part) return; const std::size_t i{part + c.b % ((t.size() - part + parts - 1) / parts) * parts}; if(c.a % 2) t[i] = c.v; else t.at(i) = c.v; d.add(t[i]); } }
		static void more(T & t, T & o, Call & c) { switch(c.a % 2) { case 0: t = o; break; default: std::swap(t, o); } }
	};
	template<> struct Peek<ptl::optional_ref<int>> {
		using T = ptl::optional_ref<int>; static constexpr unsigned n{6};
		static void peek(Dig & d, const T & t, const T &, Call & c) { d.add(t.has_value()); switch(c.a % n) { case 0: if(t) d.add(*t); break; case 1: refused(d, [&] { d.add(t.value()); }); break; case 2: d.add(t.value_or(c.v)); break; case 4: { const T u{std::nullopt}; d.add(u.has_value()); refused(d, [&] { d.add(u.value()); }); break; } case 3: if(t) d.add(*t.operator->()); break; default: { T u{t}; if(u) d.add(*u); } } }
		static void own(Dig & d, T & t, Call &, std::size_t, std::size_t) { d.add(t.has_value()); }
		static void more(T & t, T & o, Call & c) { switch(c.a % 2) { case 0: t = o; break; default: std::swap(t, o); } }
	};
	template<> struct Peek<ptl::variant_ref<int, Rec, const int>> {
		using T = ptl::variant_ref<int, Rec, const int>; static constexpr unsigned n{6};
		static void peek(Dig & d, const T & t, const T &, Call & c) {
			switch(c.a % n) { case 0: d.add(t.holds<int>() + 2 * t.holds<Rec>() + 4 * t.holds<const int>()); break; case 1: refused(d, [&] { d.add(t.get<int>()); }); refused(d, [&] { d.add(t.get<Rec>().v); }); refused(d, [&] { d.add(t.get<const int>()); }); break; case 2: t.visit([&](const auto & x) { d.add(El<std::decay_t<decltype(x)>>::get(x)); }); break; case 3: t.visit([&](int & x) { d.add(x); }, [&](Rec & x) { d.add(x.v); }, [&](const int & x) { d.add(x * 3LL); }); break; case 4: { int v{c.v}; const int w{c.v + 1}; Rec q{El<Rec>::make(c.v)}; T u{v}; d.add(u.get<int>()); u = T{w}; d.add(u.get<const int>()); u = T{q}; d.add(u.get<Rec>().v); u = T{std::move(v)}; d.add(u.get<const int>()); u = t; u.visit([&](const auto & x) { d.add(El<std::decay_t<decltype(x)>>::get(x)); }); break; } default: { T u{t}; u.visit([&](const auto & x) { d.add(El<std::decay_t<decltype(x)>>::get(x)); }); } }
		}
		static void own(Dig & d, T & t, Call &, std::size_t, std::size_t) { d.add(t.holds<int>()); }
		static void more(T & t, T & o, Call &) { t = o; }
	};
	template<> struct Peek<ptl::function_ref<int(int)>> {
		using T = ptl::function_ref<int(int)>; static constexpr unsigned n{4};
		static void peek(Dig & d, const T & t, const T &, Call & c) { if(c.a % n == 1) { T u{t}; d.add(u(c.v)); } if(c.a % n == 2) { int sum{0}; auto f{[&](int x) { sum += x; }}; ptl::function_ref<void(int)> u{f}; u(c.v); u(c.v); d.add(sum); } if(c.a % n == 3) { auto f{[&](int x) noexcept { return x * 2 + c.v; }}; ptl::function_ref<int(int) const noexcept> u{f}; const auto w{u}; d.add(w(c.v)); } d.add(t(c.v)); d.add(t(c.v + 1)); }
		static void own(Dig & d, T & t, Call & c, std::size_t, std::size_t) { d.add(t(c.v)); }
		static void more(T & t, T & o, Call &) { t = o; }
	};
}
