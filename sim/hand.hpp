// Worlds for moves and swaps: several objects of one type, handed over in every combination of storage states, under exhausted memory.
#pragma once
#include "elems.hpp"

namespace sim {
	using Vals = std::vector<int>;
	template<typename T> struct Create { static void at(void * q) { new(q) T(); } };
	template<typename T> struct H;   // how to make, read and use a T; every content is a sequence of ints
	inline u32 hand_scale{1};        // of the current run: how long sequences get

	template<typename T>
	struct HandWorld final : World {
		static constexpr u32 NS{4};
		Slot<T> sl[NS]; Vals mo[NS]; bool moved[NS]{}; int next_val{1};
		enum Op : u32 { SET, FRESH, RESHAPE, MOVE_CTOR, MOVE_ASSIGN, MOVE_CHAIN, SELF_MOVE, SWAP_MEMBER, SWAP_FRIEND, SWAP_STD, SELF_SWAP, SWAP_INNER, USE, USE2, DESTROY_MOVED, NOPS };
		static const OpInfo * ops() {
			static const OpInfo o[]{{"set",10},{"fresh",5},{"reshape",6},{"move_ctor",9},{"move_assign",14},{"move_chain",3},{"self_move",4},{"swap_member",10},{"swap_friend",7},{"swap_std",6},{"self_swap",4},{"swap_inner",3},{"use_again",14},{"use_more",8},{"move_then_destroy",3}};
			static_assert(sizeof o / sizeof *o == NOPS); return o;
		}
		int fresh() { next_val = next_val % 200 + 1; return next_val % 8 ? next_val : 0; }
		Vals contents(u32 a, u32 b) { Vals v; H<T>::gen(v, a, b, [&] { return fresh(); }); return v; }
		explicit HandWorld(Ctx & c, const Plan & p) { hand_scale = p.cfg[5] % 23 == 1 ? 12 : p.cfg[5] % 89 == 2 ? 120 : 1; for(u32 i{0}; i < NS; ++i) { sl[i].p = Slot<T>::raw(c); mo[i] = contents(p.cfg[i], p.cfg[i] / 16); Track t{c}; Create<T>::at(static_cast<void *>(sl[i].p)); H<T>::put(*sl[i], mo[i]); } }
		u32 abs_state() const override { u32 r{0}; for(u32 i{0}; i < 2; ++i) r = r * 32 + (sl[i].p ? H<T>::state(*sl[i].p, mo[i]) : 0) * 2 + moved[i]; return r; }
		Vals buf; // reused: a history is read many times
		const Vals & read(Ctx & c, u32 i) { Vals & v{buf}; v.clear(); const bool ok{H<T>::read(*sl[i], v)}; if(!ok) { violate(FORM, "object %u is malformed (after %s)", i, c.opname); abandon_run(); } return v; }
		static std::string text(const Vals & v) { std::string s; for(std::size_t i{0}; i < v.size() && i < 24; ++i) { if(i) s += ' '; s += std::to_string(v[i]); } return "(" + std::to_string(v.size()) + ": " + s + ")"; }
		void check(Ctx & c, bool failed) {
			i64 total{0};
			for(u32 i{0}; i < NS; ++i) {
				const Vals & v{read(c, i)}; for(int x : v) c.log(static_cast<u64>(x)); c.log(v.size());
				if(v != mo[i]) { violate(failed ? ATOMIC : VALUE, "object %u is %s, expected %s (after %s)", i, text(v).c_str(), text(mo[i]).c_str(), c.opname); abandon_run(); }
				total += H<T>::elems(v);
			}
			if(c.live_elems != total) { violate(LIFETIME, "%lld elements alive, %lld held (after %s)", static_cast<long long>(c.live_elems), static_cast<long long>(total), c.opname); c.live_elems = total; }
		}
		// moves and swaps: no failure, no memory, no element copied
		void nofail(Ctx & c, const Result & r) {
			if(!r.ok()) { violate(NOFAIL, "%s failed (%s)", c.opname, out_name[static_cast<int>(r.out)]); abandon_run(); }
			if(c.cnt[F_ALLOC]) violate(NOFAIL, "%s asked for memory", c.opname);
			if(c.cnt[F_ELEM]) violate(NOFAIL, "%s created or copied an element where it should hand it over", c.opname);
		}
		void became_moved(Ctx & c, u32 j) { mo[j] = read(c, j); moved[j] = true; SIM_PROBE(moved_from_use); if(c.trace) c.note("    moved-from object %u is %s", j, text(mo[j]).c_str()); }
		void step(Ctx & c, const Step & s) override { Off off{c}; const bool f{step_impl(c, s)}; check(c, f); }
		bool step_impl(Ctx & c, const Step & s) {
			const u32 i{s.a[0] % NS}; u32 j{s.a[1] % NS}; if(i == j) j = (j + 1) % NS;
			T & o{*sl[i]}; T & p{*sl[j]}; Result r{Out::ok};
			if(c.trace) c.note("    x%u %s other x%u %s", i, text(mo[i]).c_str(), j, text(mo[j]).c_str());
			const bool mixed{H<T>::state(o, mo[i]) != H<T>::state(p, mo[j])};
			const auto me{[&](T & q) { if(&q != &o) violate(VALUE, "%s returned another object", c.opname); }};
			switch(s.op) {
				case SET: mo[i] = contents(s.a[2], s.a[3]); { Track t{c}; H<T>::put(o, mo[i]); } return false;
				case FRESH: { const Vals v{contents(s.a[2], s.a[3])}; c.fk = 0; sl[i].build(c, [&](void * q) { Create<T>::at(q); }); { Track t{c}; H<T>::put(*sl[i], v); } mo[i] = v; moved[i] = false; return false; }
				case RESHAPE: { Track t{c}; H<T>::reshape(o, s.a[2], s.a[3]); return false; }
				case MOVE_CTOR: { const Vals v{mo[j]}; r = sl[i].build(c, [&](void * q) { new(q) T(std::move(p)); }); nofail(c, r); mo[i] = v; moved[i] = false; became_moved(c, j); return false; }
				case MOVE_ASSIGN: { const Vals v{mo[j]}; r = sut(c, [&] { me(o = std::move(p)); }); nofail(c, r); mo[i] = v; if(mixed) SIM_PROBE(swap_mixed_storage); became_moved(c, j); return false; }
				case MOVE_CHAIN: { const Vals v{mo[i]}, w{mo[j]}; r = sut(c, [&] { T t(std::move(o)); me(o = std::move(p)); p = std::move(t); }); nofail(c, r); mo[i] = w; mo[j] = v; return false; }
				case SELF_MOVE: SIM_PROBE(self_move); r = sut(c, [&] { T & q{o}; me(o = std::move(q)); }); nofail(c, r); return false;
				case SWAP_MEMBER: r = sut(c, [&] { o.swap(p); }); nofail(c, r); std::swap(mo[i], mo[j]); if(mixed) SIM_PROBE(swap_mixed_storage); return false;
				case SWAP_FRIEND: r = sut(c, [&] { swap(o, p); }); nofail(c, r); std::swap(mo[i], mo[j]); if(mixed) SIM_PROBE(swap_mixed_storage); return false;
				case SWAP_STD: r = sut(c, [&] { std::swap(o, p); }); nofail(c, r); std::swap(mo[i], mo[j]); return false;
				case SELF_SWAP: SIM_PROBE(self_swap); r = sut(c, [&] { T & q{o}; switch(s.a[2] % 3) { case 0: o.swap(q); break; case 1: swap(o, q); break; default: std::swap(o, q); } }); nofail(c, r); return false;
				case SWAP_INNER: { if(!H<T>::inner) return false; const u32 k{mo[i].empty() ? 0 : s.a[2] % static_cast<u32>(mo[i].size())}, l{mo[j].empty() ? 0 : s.a[3] % static_cast<u32>(mo[j].size())}; const bool same{s.a[4] % 3 == 0}; if(mo[i].empty() || (!same && mo[j].empty())) return false; const u32 l2{same ? s.a[3] % static_cast<u32>(mo[i].size()) : l};
					r = sut(c, [&] { H<T>::swap_inner(o, k, same ? o : p, l2, s.a[5]); }); nofail(c, r); std::swap(mo[i][k], same ? mo[i][l2] : mo[j][l2]); return false; }
				case USE: case USE2: {
					u32 k{i}; for(u32 n{0}; n < NS && !moved[k]; ++n) k = (k + 1) % NS;
					if(!moved[k]) { k = i; c.rename("plain_use"); }
					const u32 l{(k + 1 + s.a[1] % (NS - 1)) % NS}, a{H<T>::amount(*sl[k], s.a[2], s.a[3])}; const int v{fresh()}; Vals want{mo[k]}; H<T>::after(want, mo[l], s.a[2], a, v);
					if(want.size() > 20000) { mo[k].clear(); Track t{c}; H<T>::put(*sl[k], mo[k]); return false; }
					if(c.trace) c.note("    use %u on x%u, other x%u, wants %s", s.a[2] % H<T>::uses, k, l, text(want).c_str());
					T & t{*sl[k]}; const T & other{*sl[l]};
					r = sut(c, [&] { H<T>::use(t, other, s.a[2], a, v); });
					if(r.ok()) { mo[k] = want; return false; }
					if(!legal_failure(c, r, false)) { violate(VALUE, "use of a moved-from object reported %s although nothing failed", out_name[static_cast<int>(r.out)]); }
					if(!H<T>::strong) mo[k] = read(c, k);
					return true; }
				case DESTROY_MOVED: { const Vals v{mo[j]}; T * q{Slot<T>::raw(c)}; T * old{sl[j].p};
					r = sut(c, [&] { new(static_cast<void *>(q)) T(std::move(*old)); }); nofail(c, r); sl[j].destroy(c); sl[j].p = q; mo[j] = v; moved[j] = false; return false; }
			}
			return false;
		}
		void finish(Ctx & c) override { for(auto & x : sl) x.destroy(c); if(c.live_elems) violate(LIFETIME, "%lld elements alive after all objects were destroyed", static_cast<long long>(c.live_elems)); }
		static World * make(Ctx & c, const Plan & p) { return new HandWorld(c, p); }
		static WorldKind kind(const char * name) { return WorldKind{name, ops(), NOPS, (1u << F_ALLOC) | (1u << F_OOM) | (1u << F_ELEM), &make}; }
	};

	#ifdef SIM_HAND_VECTOR
	template<typename E> struct H<ptl::vector<E>> {
		using T = ptl::vector<E>; using L = El<E>;
		static constexpr bool strong{true}, inner{true}; static constexpr u32 uses{14};
		static u32 amount(const T & t, u32 op, u32 a) { return op % uses == 13 ? static_cast<u32>(std::min<std::size_t>(t.capacity() - t.size(), 3000)) : a; } // everything that still fits
		template<typename F> static void gen(Vals & v, u32 a, u32 b, F && f) { const u32 n{a % 5 == 0 ? 0 : b % (18 * hand_scale)}; for(u32 i{0}; i < n; ++i) v.push_back(L::norm(f())); }
		static void put(T & t, const Vals & v) { t.clear(); for(int x : v) t.push_back(L::make(x)); }
		static void reshape(T & t, u32 a, u32 b) { if(a % 3 == 0) t.shrink_to_fit(); else t.reserve(b % (40 * hand_scale)); }
		static u32 state(const T & t, const Vals & m) { const auto n{m.size()}, c{t.capacity()}; return n == 0 ? (c == 0 ? 0u : 1u) : n == c ? 2u : n * 2 < c ? 3u : 4u; }
		static bool read(const T & t, Vals & v) {
			if(t.capacity() < t.size() || t.empty() != (t.size() == 0) || t.size() > 100000 || static_cast<std::size_t>(t.end() - t.begin()) != t.size() || (t.capacity() && !t.data())) return false;
			for(std::size_t i{0}; i < t.size(); ++i) v.push_back(L::get(t.data()[i])); return true;
		}
		static i64 elems(const Vals & v) { return L::counted ? static_cast<i64>(v.size()) : 0; }
		static void after(Vals & m, const Vals & om, u32 op, u32 a, int v) {
			const auto pos{m.begin() + (m.empty() ? 0 : a % (m.size() + 1))};
			switch(op % uses) {
				case 0: case 1: m.push_back(L::norm(v)); break; case 2: m.insert(pos, L::norm(v)); break; case 3: m.resize(a % 20, fill()); break; case 4: m = Vals{om}; break;
				case 5: m.clear(); break; case 6: break; case 7: break; case 8: if(!m.empty()) m.pop_back(); break; case 9: m.insert(pos, a % 5, L::norm(v)); break; case 10: if(!m.empty()) m.erase(m.begin() + a % m.size()); break;
				case 11: m.insert(pos, om.begin(), om.end()); break; case 12: m.assign(a % 9, L::norm(v)); break; case 13: m.insert(m.end(), a, L::norm(v)); break;
			}
		}
		static int fill() { return L::get(E{}); }
		static void use(T & t, const T & other, u32 op, u32 a, int v) {
			const auto pos{t.begin() + (t.empty() ? 0 : static_cast<std::ptrdiff_t>(a % (t.size() + 1)))};
			switch(op % uses) {
				case 0: t.push_back(L::make(v)); break; case 1: { const E e{L::make(v)}; t.emplace_back(e); break; } case 2: { const E e{L::make(v)}; t.insert(pos, e); break; } case 3: t.resize(a % 20); break; case 4: t = other; break;
				case 5: t.clear(); break; case 6: t.reserve(a % 30); break; case 7: t.shrink_to_fit(); break; case 8: if(!t.empty()) t.pop_back(); break; case 9: { const E e{L::make(v)}; t.insert(pos, a % 5, e); break; } case 10: if(!t.empty()) t.erase(t.begin() + static_cast<std::ptrdiff_t>(a % t.size())); break;
				case 11: t.insert(pos, other.begin(), other.end()); break; case 12: { const E e{L::make(v)}; t.assign(a % 9, e); break; } case 13: { const E e{L::make(v)}; t.insert(t.end(), a, e); break; }
			}
		}
		static void swap_inner(T & a, u32 k, T & b, u32 l, u32) { using std::swap; swap(a[k], b[l]); }
	};
	#endif
	#ifdef SIM_WITH_STRING
	template<> struct H<ptl::string> {
		using T = ptl::string;
		static constexpr bool strong{true}, inner{true}; static constexpr u32 uses{14};
		static u32 amount(const T & t, u32 op, u32 a) { return op % uses == 13 ? static_cast<u32>(std::min<std::size_t>(t.capacity() - t.size(), 3000)) : a; }
		template<typename F> static void gen(Vals & v, u32 a, u32 b, F && f) { const u32 n{a % 6 == 0 ? 0 : a % 6 == 1 ? 18 + b % 6 : a % 6 == 2 ? b % (90 * hand_scale) : b % 26}; const int x{f()}; for(u32 i{0}; i < n; ++i) v.push_back(b % 3 == 0 && (x + i) % 5 == 0 ? 0 : static_cast<int>((static_cast<u32>(x) * 7 + i) % 256)); } // zeros and characters beyond 127 included
		static std::string str(const Vals & v) { std::string s; for(int x : v) s.push_back(static_cast<char>(x)); return s; }
		static void put(T & t, const Vals & v) { t.clear(); for(int x : v) t.push_back(static_cast<char>(x)); }
		static void reshape(T & t, u32 a, u32 b) { if(a % 3 == 0) t.shrink_to_fit(); else t.reserve(b % (70 * hand_scale)); }
		static u32 state(const T & t, const Vals & m) { const auto n{m.size()}, c{t.capacity()}; return (c > 24 ? 4u : 0u) + (n == 0 ? 0u : n == c ? 1u : n < 24 ? 2u : 3u); }
		static bool read(const T & t, Vals & v) {
			if(t.size() > t.capacity() || t.size() > 100000 || t.empty() != (t.size() == 0) || t.data() != t.c_str() || static_cast<std::size_t>(t.end() - t.begin()) != t.size() || t.c_str()[t.size()] != '\0') return false;
			for(std::size_t i{0}; i < t.size(); ++i) v.push_back(static_cast<unsigned char>(t.data()[i])); return true;
		}
		static i64 elems(const Vals &) { return 0; }
		static void after(Vals & m, const Vals & om, u32 op, u32 a, int v) {
			const int ch{(v * 7 + 4) % 256}; const auto pos{m.begin() + (m.empty() ? 0 : a % (m.size() + 1))};
			switch(op % uses) {
				case 0: case 1: m.push_back(ch); break; case 2: m.insert(pos, ch); break; case 3: m.resize(a % 50, ch); break; case 4: m = Vals{om}; break; case 5: m.clear(); break; case 6: case 7: break; case 8: if(!m.empty()) m.pop_back(); break;
				case 9: m.insert(pos, a % 30, ch); break; case 10: if(!m.empty()) m.erase(m.begin() + a % m.size()); break; case 11: m.insert(m.end(), om.begin(), om.end()); break; case 12: m.assign(a % 40, ch); break; case 13: m.insert(m.end(), a, ch); break;
			}
		}
		static void use(T & t, const T & other, u32 op, u32 a, int v) {
			const char ch{static_cast<char>((v * 7 + 4) % 256)}; const auto pos{t.begin() + (t.empty() ? 0 : static_cast<std::ptrdiff_t>(a % (t.size() + 1)))};
			switch(op % uses) {
				case 0: t.push_back(ch); break; case 1: t += ch; break; case 2: t.insert(pos, 1, ch); break; case 3: t.resize(a % 50, ch); break; case 4: t = other; break; case 5: t.clear(); break; case 6: t.reserve(a % 60); break; case 7: t.shrink_to_fit(); break; case 8: if(!t.empty()) t.pop_back(); break;
				case 9: t.insert(pos, a % 30, ch); break; case 10: if(!t.empty()) t.erase(t.begin() + static_cast<std::ptrdiff_t>(a % t.size())); break; case 11: t.append(other); break; case 12: t.assign(a % 40, ch); break; case 13: t.append(a, ch); break;
			}
		}
		static void swap_inner(T & a, u32 k, T & b, u32 l, u32) { std::swap(a[k], b[l]); }
	};
	#endif
	#ifdef SIM_HAND_FIXED
	template<typename E> struct H<ptl::optional<E>> {
		using T = ptl::optional<E>; using L = El<E>;
		static constexpr bool strong{false}, inner{false}; static constexpr u32 uses{5};
		template<typename F> static void gen(Vals & v, u32 a, u32, F && f) { if(a % 3) v.push_back(L::norm(f())); }
		static void put(T & t, const Vals & v) { if(v.empty()) t.reset(); else t.emplace(L::make(v[0])); }
		static void reshape(T &, u32, u32) {} static u32 amount(const T &, u32, u32 a) { return a; }
		static u32 state(const T & t, const Vals &) { return static_cast<bool>(t); }
		static bool read(const T & t, Vals & v) { if(t) v.push_back(L::get(*t)); return true; }
		static i64 elems(const Vals & v) { return L::counted ? static_cast<i64>(v.size()) : 0; }
		static void after(Vals & m, const Vals & om, u32 op, u32, int v) { switch(op % uses) { case 0: case 1: case 2: m.assign(1, L::norm(v)); break; case 3: m.clear(); break; case 4: m = Vals{om}; break; } }
		static void use(T & t, const T & other, u32 op, u32, int v) { switch(op % uses) { case 0: t.emplace(L::make(v)); break; case 1: { const E e{L::make(v)}; t = e; break; } case 2: t = L::make(v); break; case 3: t.reset(); break; case 4: t = other; break; } }
		static void swap_inner(T &, u32, T &, u32, u32) {}
	};
	template<typename... Ts> struct H<ptl::variant<Ts...>> {
		using T = ptl::variant<Ts...>; template<std::size_t I> using A = std::tuple_element_t<I, std::tuple<Ts...>>;
		static constexpr bool strong{true}, inner{false}; static constexpr u32 uses{4};
		template<typename F> static void pick(int k, F && f) { int n{0}; ((n++ == k ? (static_cast<void>(f(static_cast<Ts *>(nullptr))), 0) : 0), ...); }
		template<typename F> static void gen(Vals & v, u32 a, u32, F && f) { const int x{f()}; v.push_back(static_cast<int>(a % sizeof...(Ts))); pick(v[0], [&](auto p) { v.push_back(El<std::remove_pointer_t<decltype(p)>>::norm(x)); }); }
		static void put(T & t, const Vals & v) { pick(v[0], [&](auto p) { using E = std::remove_pointer_t<decltype(p)>; t = El<E>::make(v[1]); }); }
		static void reshape(T &, u32, u32) {} static u32 amount(const T &, u32, u32 a) { return a; }
		static u32 state(const T &, const Vals & m) { return static_cast<u32>(m[0]); }
		static bool read(const T & t, Vals & v) { int n{0}, found{0}; ((t.template holds<Ts>() ? (v.push_back(n), v.push_back(El<Ts>::get(*t.template get_if<Ts>())), ++found) : 0, ++n), ...); return found == 1; }
		static i64 elems(const Vals & v) { i64 r{0}; pick(v[0], [&](auto p) { r = El<std::remove_pointer_t<decltype(p)>>::counted; }); return r; }
		static void after(Vals & m, const Vals & om, u32 op, u32 a, int v) { if(op % uses == 3) { m = Vals{om}; return; } const int k{static_cast<int>(a % sizeof...(Ts))}; pick(k, [&](auto p) { m = {k, El<std::remove_pointer_t<decltype(p)>>::norm(v)}; }); }
		static void use(T & t, const T & other, u32 op, u32 a, int v) {
			if(op % uses == 3) { t = other; return; }
			pick(static_cast<int>(a % sizeof...(Ts)), [&](auto p) { using E = std::remove_pointer_t<decltype(p)>; switch(op % uses) { case 0: { const E e{El<E>::make(v)}; t = e; break; } case 1: t = El<E>::make(v); break; default: t.template emplace<E>(El<E>::make(v)); } });
		}
		static void swap_inner(T &, u32, T &, u32, u32) {}
	};
	template<typename E, std::size_t N> struct H<ptl::array<E, N>> {
		using T = ptl::array<E, N>; using L = El<E>;
		static constexpr bool strong{false}, inner{N != 0}; static constexpr u32 uses{3};
		template<typename F> static void gen(Vals & v, u32, u32, F && f) { for(std::size_t i{0}; i < N; ++i) v.push_back(L::norm(f())); }
		static void put(T & t, const Vals & v) { for(std::size_t i{0}; i < N; ++i) t[i] = L::make(v[i]); }
		static void reshape(T &, u32, u32) {} static u32 amount(const T &, u32, u32 a) { return a; }
		static u32 state(const T &, const Vals & m) { return m.empty() ? 0 : static_cast<u32>(m[0]) % 4; }
		static bool read(const T & t, Vals & v) { for(std::size_t i{0}; i < N; ++i) v.push_back(L::get(t.data()[i])); return t.size() == N; }
		static i64 elems(const Vals & v) { return L::counted ? static_cast<i64>(v.size()) : 0; }
		static void after(Vals & m, const Vals & om, u32 op, u32 a, int v) { switch(op % uses) { case 0: m.assign(N, L::norm(v)); break; case 1: if(N) m[a % std::max<std::size_t>(N, 1)] = L::norm(v); break; default: m = Vals{om}; } }
		static void use(T & t, const T & other, u32 op, u32 a, int v) { switch(op % uses) { case 0: { const E e{L::make(v)}; t.fill(e); break; } case 1: if constexpr(N != 0) { const E e{L::make(v)}; t[a % N] = e; } break; default: t = other; } }
		static void swap_inner(T & a, u32 k, T & b, u32 l, u32) { using std::swap; if constexpr(N != 0) swap(a[k], b[l]); }
	};
	template<> struct Create<ptl::tuple<Soft, int, ptl::string>> { static void at(void * q) { new(q) ptl::tuple<Soft, int, ptl::string>(Soft(0), 0, ptl::string()); } };
	template<> struct H<ptl::tuple<Soft, int, ptl::string>> {
		using T = ptl::tuple<Soft, int, ptl::string>;
		static constexpr bool strong{false}, inner{false}; static constexpr u32 uses{2};
		template<typename F> static void gen(Vals & v, u32, u32, F && f) { for(int i{0}; i < 3; ++i) v.push_back(f()); }
		static void put(T & t, const Vals & v) { t.get<0>() = Soft(v[0]); t.get<1>() = v[1]; t.get<2>() = El<ptl::string>::make(v[2]); }
		static void reshape(T &, u32, u32) {} static u32 amount(const T &, u32, u32 a) { return a; }
		static u32 state(const T &, const Vals & m) { return static_cast<u32>(m[2]) % 2; }
		static bool read(const T & t, Vals & v) { v = {t.get<0>().val("looked at"), t.get<1>(), El<ptl::string>::get(t.get<2>())}; return true; }
		static i64 elems(const Vals &) { return 1; }
		static void after(Vals & m, const Vals & om, u32 op, u32 a, int v) { if(op % uses) m = Vals{om}; else m[a % 3] = v; }
		static void use(T & t, const T & other, u32 op, u32 a, int v) { if(op % uses) { t = other; return; } switch(a % 3) { case 0: t.get<0>() = Soft(v); break; case 1: t.get<1>() = v; break; default: t.get<2>() = El<ptl::string>::make(v); } }
		static void swap_inner(T &, u32, T &, u32, u32) {}
	};
	template<std::size_t N> struct H<ptl::bitset<N>> {
		using T = ptl::bitset<N>;
		static constexpr bool strong{true}, inner{true}; static constexpr u32 uses{5};
		template<typename F> static void gen(Vals & v, u32 a, u32 b, F && f) { const u64 x{mix(static_cast<u64>(f()), b)}; for(std::size_t i{0}; i < N; ++i) v.push_back(a % 5 == 0 ? 0 : a % 5 == 1 ? 1 : static_cast<int>((x >> (i % 61)) & 1)); }
		static void put(T & t, const Vals & v) { for(std::size_t i{0}; i < N; ++i) t.set(i, v[i] != 0); }
		static void reshape(T &, u32, u32) {} static u32 amount(const T &, u32, u32 a) { return a; }
		static u32 state(const T & t, const Vals &) { return t.none() ? 0 : t.all() ? 1 : 2; }
		static bool read(const T & t, Vals & v) { std::size_t n{0}; for(std::size_t i{0}; i < N; ++i) { v.push_back(t[i]); n += static_cast<std::size_t>(v.back()); } return t.count() == n && t.any() == (n != 0) && t.none() == (n == 0) && t.all() == (n == N); }
		static i64 elems(const Vals &) { return 0; }
		static void after(Vals & m, const Vals & om, u32 op, u32 a, int) { switch(op % uses) { case 0: m.assign(N, 1); break; case 1: m.assign(N, 0); break; case 2: for(int & x : m) x = !x; break; case 3: m[a % N] = !m[a % N]; break; default: m = Vals{om}; } }
		static void use(T & t, const T & other, u32 op, u32 a, int) { switch(op % uses) { case 0: t.set(); break; case 1: t.reset(); break; case 2: t.flip(); break; case 3: t.flip(a % N); break; default: t = other; } }
		static void swap_inner(T & a, u32 k, T & b, u32 l, u32 how) { if(how % 2) { auto x{a[k]}; auto y{b[l]}; x.swap(y); } else swap(a[k], b[l]); }
	};
	#endif
}
