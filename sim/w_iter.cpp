// Worlds "iter:<type>": iterators taken for walks over two containers while the containers change, fail to grow, and hand their contents over.
#include "core.hpp"
#include <iostream>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#define SIM_WITH_STRING
#include "elems.hpp"
#include <ptl/vector.hpp>
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>

namespace sim {
	template<typename C> struct How;                     // how the world handles one kind of container
	template<typename E> struct How<ptl::vector<E>> { using C = ptl::vector<E>; static constexpr bool grows{true}, follows{true}, writes{true}; static void make(void * q, std::size_t n, u32) { auto c{new(q) C}; for(std::size_t i{0}; i < n; ++i) c->push_back(El<E>::make(static_cast<int>(i))); } static E val(int v) { return El<E>::make(v); } static void drop(C &) {} };
	template<> struct How<ptl::string> { using C = ptl::string; static constexpr bool grows{true}, follows{false}, writes{true}; static void make(void * q, std::size_t n, u32 x) { auto c{new(q) C(n * (1 + x % 3), 'a')}; (void)c; } static char val(int v) { return static_cast<char>(v); } static void drop(C &) {} };
	template<typename E, std::size_t N> struct How<ptl::array<E, N>> { using C = ptl::array<E, N>; static constexpr bool grows{false}, follows{false}, writes{true}; static void make(void * q, std::size_t, u32) { new(q) C{}; } static E val(int v) { return El<E>::make(v); } static void drop(C &) {} };
	template<typename E> struct How<ptl::array_ref<E>> { using C = ptl::array_ref<E>; using P = std::remove_const_t<E>; static constexpr bool grows{false}, follows{false}, writes{!std::is_const_v<E>}; static void make(void * q, std::size_t n, u32) { Off o{*cur}; P * const b{static_cast<P *>(std::malloc(n * sizeof(P) + 1))}; for(std::size_t i{0}; i < n; ++i) b[i] = static_cast<P>(i); new(q) C(b, n); } static P val(int v) { return static_cast<P>(v); } static void drop(C & c) { Off o{*cur}; std::free(const_cast<P *>(c.data())); } };
	template<> struct How<ptl::string_ref> { using C = ptl::string_ref; static constexpr bool grows{false}, follows{false}, writes{false}; static void make(void * q, std::size_t n, u32) { Off o{*cur}; char * const b{static_cast<char *>(std::malloc(n + 1))}; std::memset(b, 'a', n + 1); new(q) C(b, n); } static void drop(C & c) { Off o{*cur}; std::free(const_cast<char *>(c.data())); } };

	template<typename C>
	struct IterWorld final : World {
		using H = How<C>; using It = typename C::iterator; using CIt = typename C::const_iterator; using RIt = typename C::reverse_iterator; using CRIt = typename C::const_reverse_iterator;
		static constexpr u32 NI{3};
		struct At { u32 o; std::size_t k; };
		Slot<C> own[2]; It it[NI]; CIt cit[NI]; RIt rit; CRIt crit; At mi[NI]{}, mc[NI]{}, mr{}, mcr{};  // reverse: k is the index of base()
		enum Op : u32 { BIND, BIND_CONST, BIND_REV, INC, DEC, POSTINC, POSTDEC, ADD, SUB, PLUS, MINUS, INDEX, DEREF, ARROW, WRITE, DIFF, ORDER, CONVERT, COPY, REVERSE, ALGO, OWNER_WRITE, OWNER_PUSH, OWNER_POP, OWNER_INSERT, OWNER_ERASE, OWNER_RESERVE, OWNER_SHRINK, OWNER_CLEAR, OWNER_SWAP, OWNER_MOVE, FAIL_GROW, NOPS };
		static const OpInfo * ops() { static const OpInfo o[]{{"bind",5},{"bind_const",5},{"bind_reverse",4},{"increment",6},{"decrement",6},{"post_increment",4},{"post_decrement",4},{"add",6},{"subtract",6},{"plus",5},{"minus",5},{"index",5},{"dereference",4},{"arrow",3},{"write",4},{"difference",6},{"order",6},{"convert",4},{"copy",4},{"reverse",6},{"algorithms",4},{"owner_write",3},{"owner_push",5},{"owner_pop",4},{"owner_insert",3},{"owner_erase",3},{"owner_reserve",3},{"owner_shrink",2},{"owner_clear",1},{"owner_swap",3},{"owner_move",2},{"fail_grow",5}}; static_assert(sizeof o / sizeof *o == NOPS); return o; }
		IterWorld(Ctx & c, const Plan & p) {
			for(u32 o{0}; o < 2; ++o) { own[o].p = Slot<C>::raw(c); Track t{c}; static const u32 ns[]{0, 1, 2, 3, 7, 8, 24, 100}; H::make(own[o].p, ns[p.cfg[o] % 8], p.cfg[2]); if constexpr(H::grows) if(p.cfg[3] % 2) own[o]->reserve(own[o]->size() + p.cfg[3] % 30); }
			for(u32 o{0}; o < 2; ++o) rebind_all(o);
		}
		u32 abs_state() const override { const auto q{[&](const At & a) { const std::size_t n{own[a.o]->size()}; return (a.k == 0 ? 0u : a.k == n ? 1u : a.k + 1 == n ? 2u : 3u) + 4 * a.o; }}; return q(mi[0]) + 8 * q(mi[1]) + 64 * q(mc[0]) + 512 * q(mr); }
		std::size_t n(u32 o) const { return own[o]->size(); }
		It begin(u32 o) const { return own[o]->begin(); }
		static std::ptrdiff_t D(std::size_t k) { return static_cast<std::ptrdiff_t>(k); }
		It pos(u32 o, std::size_t k) const { return own[o]->begin() + D(k); }
		const void * addr(const At & a) const { return own[a.o]->data() + a.k; }
		template<typename X> static const void * where(const X & x) { return static_cast<const void *>(std::addressof(*x)); }
		// iterators whose element went away (or may have moved) are taken anew
		template<typename F> void rebind_if(F && gone) {
			for(u32 i{0}; i < NI; ++i) { if(gone(mi[i])) { mi[i].k = 0; it[i] = begin(mi[i].o); } if(gone(mc[i])) { mc[i].k = 0; cit[i] = static_cast<const C &>(*own[mc[i].o]).begin(); } }
			if(gone(mr)) { mr.k = n(mr.o); rit = own[mr.o]->rbegin(); } if(gone(mcr)) { mcr.k = n(mcr.o); crit = own[mcr.o]->crbegin(); }
		}
		void rebind_all(u32 o) { rebind_if([&](const At & a) { return a.o == o; }); }
		void rebind_from(u32 o, std::size_t k) { rebind_if([&](const At & a) { return a.o == o && a.k >= k; }); }
		void check(Ctx & c) {
			const auto test{[&](const char * what, u32 i, std::ptrdiff_t d, const void * w, bool deref, const At & a) { c.log(static_cast<u64>(d)); if(d != D(a.k) || (deref && w != addr(a))) { violate(VIEW, "%s %u is at %td of container %u, expected %zu%s (after %s)", what, i, d, a.o, a.k, d == D(a.k) ? " and designates something else" : "", c.opname); abandon_run(); } }};
			for(u32 i{0}; i < NI; ++i) {
				const bool e{mi[i].k == n(mi[i].o)}, ce{mc[i].k == n(mc[i].o)};
				test("iterator", i, it[i] - begin(mi[i].o), e ? nullptr : where(it[i]), !e, mi[i]);
				test("const iterator", i, cit[i] - static_cast<const C &>(*own[mc[i].o]).begin(), ce ? nullptr : where(cit[i]), !ce, mc[i]);
				if((it[i] == own[mi[i].o]->end()) != e || (cit[i] != own[mc[i].o]->cend()) == ce) { violate(VIEW, "an iterator disagrees with end() (after %s)", c.opname); abandon_run(); }
			}
			test("reverse iterator base", 0, rit.base() - begin(mr.o), mr.k ? nullptr : nullptr, false, mr);
			if(mr.k) { At a{mr.o, mr.k - 1}; if(where(rit) != addr(a)) { violate(VIEW, "a reverse iterator designates something else (after %s)", c.opname); abandon_run(); } }
			test("const reverse iterator base", 0, crit.base() - static_cast<const C &>(*own[mcr.o]).begin(), nullptr, false, mcr);
		}
		void step(Ctx & c, const Step & s) override { Off off{c}; impl(c, s); check(c); }
		void impl(Ctx & c, const Step & s) {
			const u32 i{s.a[0] % NI}, j{s.a[1] % NI}, o{s.a[2] % 2}; const bool konst{s.a[3] % 2 != 0}; Result r{Out::ok};
			It & x{it[i]}; CIt & y{cit[i]}; At & mx{mi[i]}; At & my{mc[i]}; At & m{konst ? my : mx}; const std::size_t size{n(m.o)}, k{s.a[4] % (size + 1)}; const std::ptrdiff_t d{D(k) - D(m.k)};
			if(c.trace) c.note("    %siterator %u at %zu of %u, target %zu, size %zu", konst ? "const " : "", i, m.k, m.o, k, size);
			const auto both{[&](auto && f) { r = sut(c, [&] { if(konst) f(y); else f(x); }); }};
			const auto must{[&](bool ok, const char * what) { if(!ok) violate(VIEW, "%s is wrong", what); }};
			switch(s.op) {
				case BIND: { const std::size_t q{s.a[4] % (n(o) + 1)}; r = sut(c, [&] { switch(s.a[5] % 3) { case 0: x = own[o]->begin() + D(q); break; case 1: x = own[o]->end() - D(n(o) - q); break; default: x = D(q) + own[o]->begin(); } }); mx = {o, q}; return; }
				case BIND_CONST: { const std::size_t q{s.a[4] % (n(o) + 1)}; const C & cc{*own[o]}; r = sut(c, [&] { switch(s.a[5] % 4) { case 0: y = cc.begin() + D(q); break; case 1: y = cc.end() - D(n(o) - q); break; case 2: y = cc.cbegin() + D(q); break; default: y = own[o]->cend() - D(n(o) - q); } }); my = {o, q}; return; }
				case BIND_REV: { const std::size_t q{s.a[4] % (n(o) + 1)}; const C & cc{*own[o]}; r = sut(c, [&] { if(konst) crit = s.a[5] % 2 ? cc.rbegin() + D(n(o) - q) : cc.crend() - D(q); else rit = s.a[5] % 2 ? own[o]->rbegin() + D(n(o) - q) : own[o]->rend() - D(q); }); (konst ? mcr : mr) = {o, q}; return; }
				case INC: if(m.k < size) { both([&](auto & t) { auto & u{++t}; must(&u == &t, "the result of ++it"); }); ++m.k; } return;
				case DEC: if(m.k) { both([&](auto & t) { auto & u{--t}; must(&u == &t, "the result of --it"); }); --m.k; } return;
				case POSTINC: if(m.k < size) { both([&](auto & t) { const auto u{t}; const auto v{t++}; must(v == u && t - v == 1, "the result of it++"); }); ++m.k; } return;
				case POSTDEC: if(m.k) { both([&](auto & t) { const auto u{t}; const auto v{t--}; must(v == u && v - t == 1, "the result of it--"); }); --m.k; } return;
				case ADD: both([&](auto & t) { auto & u{t += d}; must(&u == &t, "the result of +="); }); m.k = k; return;
				case SUB: both([&](auto & t) { auto & u{t -= -d}; must(&u == &t, "the result of -="); }); m.k = k; return;
				case PLUS: both([&](auto & t) { const auto u{t + d}, v{d + t}; must(u == v && u - t == d, "it + n"); t = u; }); m.k = k; return;
				case MINUS: both([&](auto & t) { const auto u{t - (-d)}; must(t - u == -d, "it - n"); t = u; }); m.k = k; return;
				case INDEX: if(k < size) { const void * w{nullptr}; both([&](auto & t) { w = std::addressof(t[d]); }); const At a{m.o, k}; must(w == addr(a), "it[n]"); } return;
				case DEREF: if(m.k < size) { const void * w{nullptr}; both([&](auto & t) { w = std::addressof(*t); }); must(w == addr(m), "*it"); } return;
				case ARROW: if(m.k < size) { const void * w{nullptr}; both([&](auto & t) { w = t.operator->(); }); must(w == addr(m), "it->"); } return;
				case WRITE: if constexpr(H::writes) if(mx.k < n(mx.o)) { bool ok{false}; r = sut(c, [&] { const auto v{H::val(static_cast<int>(s.a[5] % 100))}; *x = v; ok = own[mx.o]->data()[mx.k] == v; }); if(r.ok()) must(ok, "writing through an iterator"); } return;
				case DIFF: if(mx.o == mi[j].o) { std::ptrdiff_t e{0}; r = sut(c, [&] { e = x - it[j]; }); must(e == D(mx.k) - D(mi[j].k), "it - it"); } if(my.o == mc[j].o) { std::ptrdiff_t e{0}; r = sut(c, [&] { e = y - cit[j]; }); must(e == D(my.k) - D(mc[j].k), "const it - it"); } if(mx.o == mc[j].o) { std::ptrdiff_t e{0}; r = sut(c, [&] { const CIt z{x}; e = z - cit[j]; }); must(e == D(mx.k) - D(mc[j].k), "converted it - it"); } return;
				case ORDER: { const auto ord{[&](const auto & p, const At & a, const auto & q, const At & b) { if(a.o != b.o) return; bool e[6]{}; r = sut(c, [&] { e[0] = p == q; e[1] = p != q; e[2] = p < q; e[3] = p > q; e[4] = p <= q; e[5] = p >= q; }); must(e[0] == (a.k == b.k) && e[1] == (a.k != b.k) && e[2] == (a.k < b.k) && e[3] == (a.k > b.k) && e[4] == (a.k <= b.k) && e[5] == (a.k >= b.k), "the order of iterators"); }}; ord(x, mx, it[j], mi[j]); ord(y, my, cit[j], mc[j]); const CIt z{x}; ord(z, mx, cit[j], mc[j]); return; }
				case CONVERT: r = sut(c, [&] { CIt z{it[j]}; y = z; if(s.a[5] % 2) y = it[j]; }); my = mi[j]; return;
				case COPY: if(konst) { r = sut(c, [&] { CIt z{cit[j]}; y = z; }); my = At{mc[j]}; } else { r = sut(c, [&] { It z{it[j]}; It w; w = z; x = std::move(w); }); mx = At{mi[j]}; } return;
				case REVERSE: { At & q{konst ? mcr : mr}; const std::size_t qs{n(q.o)}; const std::size_t to{s.a[5] % (qs + 1)}; const std::ptrdiff_t e{D(q.k) - D(to)}; const auto rev{[&](auto && f) { r = sut(c, [&] { if(konst) f(crit); else f(rit); }); }};
					switch(s.a[1] % 5) { case 0: if(q.k) { rev([&](auto & t) { ++t; }); --q.k; } return; case 1: if(q.k < qs) { rev([&](auto & t) { --t; }); ++q.k; } return; case 2: rev([&](auto & t) { t += e; }); q.k = to; return; case 3: { const void * w{nullptr}; if(to < qs) { rev([&](auto & t) { w = std::addressof(t[D(q.k) - D(to) - 1]); }); const At a{q.o, to}; must(w == addr(a), "reverse it[n]"); } return; } default: { std::ptrdiff_t g{0}, h{0}; rev([&](auto & t) { if constexpr(std::is_same_v<std::decay_t<decltype(t)>, RIt>) { g = t - own[q.o]->rbegin(); h = own[q.o]->rend() - t; } else { const C & cc{*own[q.o]}; g = t - cc.rbegin(); h = cc.crend() - t; } }); must(g == D(qs) - D(q.k) && h == D(q.k), "reverse difference"); return; } } }
				case ALGO: both([&](auto & t) { auto u{t}; std::advance(u, d); must(std::distance(t, u) == d && std::next(t, d) == u && std::prev(u, d) == t, "advance/distance/next/prev"); }); return;
				case OWNER_WRITE: if constexpr(H::writes) if(n(o)) { r = sut(c, [&] { (*own[o])[s.a[4] % n(o)] = H::val(static_cast<int>(s.a[5] % 100)); }); } return;
				default: if constexpr(H::grows) owner(c, s, o); else if constexpr(H::writes && !std::is_same_v<C, ptl::string_ref>) if(s.op == OWNER_SWAP) swap_owned(c, o); return;
			}
		}
		// arrays exchange their elements: iterators stay with the array; references to arrays exchange nothing here
		void swap_owned(Ctx & c, u32 o) { if constexpr(std::is_class_v<C>) { if constexpr(requires_swap<C>(0)) sut(c, [&] { own[o]->swap(*own[1 - o]); }); } }
		template<typename X> static constexpr bool requires_swap(int) { return is_array<X>::value; }
		template<typename X> struct is_array : std::false_type {};
		template<typename E, std::size_t N> struct is_array<ptl::array<E, N>> : std::true_type {};
		template<typename Dummy = void>
		void owner(Ctx & c, const Step & s, u32 o) {
			C & v{*own[o]}; const std::size_t size{v.size()}, cap{v.capacity()}; Result r{Out::ok}; const auto p0{v.data()};
			// where nothing was relocated only the elements from the first changed one on are new
			const auto settle{[&](std::size_t from) { if(!r.ok()) { if(!legal_failure(c, r, true)) violate(VIEW, "%s gave %s", c.opname, out_name[static_cast<int>(r.out)]); if(v.data() == p0) return; violate(VIEW, "%s failed but moved the elements", c.opname); } if(cap != v.capacity() || from == 0) rebind_all(o); else rebind_from(o, from); }};
			switch(s.op) {
				case OWNER_PUSH: r = sut(c, [&] { v.push_back(H::val(static_cast<int>(s.a[5] % 100))); }); if(r.ok() && size < cap && v.data() != p0) violate(VIEW, "push_back within the capacity moved the elements"); settle(size); if(r.ok() && size == 0) rebind_all(o); return;
				case OWNER_POP: if(size) { r = sut(c, [&] { v.pop_back(); }); if(v.data() != p0) violate(VIEW, "pop_back moved the elements"); rebind_from(o, size - 1); } return;
				case OWNER_INSERT: { const std::size_t at{s.a[4] % (size + 1)}; std::ptrdiff_t g{-1}; r = sut(c, [&] { const auto q{v.insert(v.begin() + D(at), H::val(static_cast<int>(s.a[5] % 100)))}; g = q - v.begin(); }); if(r.ok() && g != D(at)) violate(VIEW, "insert returned position %td, expected %zu", g, at); if(r.ok() && size < cap && v.data() != p0) violate(VIEW, "insert within the capacity moved the elements before it"); settle(at); if(r.ok() && at == 0) rebind_all(o); return; }
				case OWNER_ERASE: if(size) { const std::size_t at{s.a[4] % size}; std::ptrdiff_t g{-1}; r = sut(c, [&] { const auto q{v.erase(v.begin() + D(at))}; g = q - v.begin(); }); if(g != D(at)) violate(VIEW, "erase returned position %td, expected %zu", g, at); if(v.data() != p0) violate(VIEW, "erase moved the elements"); rebind_from(o, at); if(at == 0) rebind_all(o); } return;
				case OWNER_RESERVE: { const std::size_t want{s.a[4] % 60}; r = sut(c, [&] { v.reserve(want); }); if(r.ok() && want <= cap && v.data() != p0) violate(VIEW, "reserve below the capacity moved the elements"); settle(v.data() == p0 ? size + 1 : 0); return; }
				case OWNER_SHRINK: r = sut(c, [&] { v.shrink_to_fit(); }); if(v.data() != p0 || v.capacity() != cap) rebind_all(o); return;
				case OWNER_CLEAR: r = sut(c, [&] { v.clear(); }); rebind_all(o); return;
				case OWNER_SWAP: r = sut(c, [&] { if(s.a[5] % 2) v.swap(*own[1 - o]); else swap(v, *own[1 - o]); });
					if constexpr(H::follows) { const auto f{[](At & a) { a.o = 1 - a.o; }}; for(u32 i{0}; i < NI; ++i) { f(mi[i]); f(mc[i]); } f(mr); f(mcr); if(n(0) == 0) rebind_all(0); if(n(1) == 0) rebind_all(1); } else { rebind_all(0); rebind_all(1); } return;
				case OWNER_MOVE:
					if constexpr(H::follows) { // iterators of the source now belong to the target, those of the target are gone
						for(u32 i{0}; i < NI; ++i) { if(mi[i].o == o) { mi[i] = {1 - o, 0}; it[i] = begin(1 - o); } if(mc[i].o == o) { mc[i] = {1 - o, 0}; cit[i] = begin(1 - o); } }
						if(mr.o == o) { mr = {1 - o, n(1 - o)}; rit = own[1 - o]->rbegin(); } if(mcr.o == o) { mcr = {1 - o, n(1 - o)}; crit = own[1 - o]->crbegin(); }
						r = sut(c, [&] { v = std::move(*own[1 - o]); });
						for(u32 i{0}; i < NI; ++i) mi[i].o = mc[i].o = o; mr.o = mcr.o = o;
					} else { r = sut(c, [&] { v = std::move(*own[1 - o]); }); rebind_all(0); rebind_all(1); } return;
				case FAIL_GROW: { // more than there is memory for
					const auto fk{c.fk}; const auto fat{c.fat}; c.fk = F_OOM; c.fat = 1; const std::size_t want{cap + 1 + s.a[4] % 50};
					switch(s.a[5] % 4) { case 0: r = sut(c, [&] { v.reserve(want); }); break; case 1: r = sut(c, [&] { v.resize(want); }); break; case 2: r = sut(c, [&] { v.insert(v.begin() + D(s.a[3] % (size + 1)), want - size, H::val(1)); }); break; default: r = sut(c, [&] { v.insert(v.begin() + D(s.a[3] % (size + 1)), static_cast<const C &>(v).data(), static_cast<const C &>(v).data() + size); }); if(r.ok()) { rebind_all(o); c.fk = fk; c.fat = fat; return; } break; }
					c.fk = fk; c.fat = fat; if(r.ok()) rebind_all(o); else { SIM_PROBE(grow_refused); if(v.data() != p0 || v.size() != size) violate(VIEW, "%s failed but moved the elements", c.opname); } return; }
				default: return;
			}
		}
		void finish(Ctx & c) override { for(auto & x : own) { H::drop(*x); x.destroy(c); } }
		static World * make(Ctx & c, const Plan & p) { return new IterWorld(c, p); }
		static WorldKind kind(const char * name) { return WorldKind{name, ops(), NOPS, (1u << F_ALLOC) | (1u << F_OOM) | (1u << F_ELEM), &make}; }
	};
	#define SIM_ITER(id, name, ...) static RegisterWorld id{IterWorld<__VA_ARGS__>::kind("iter:" name)}
	SIM_ITER(i1, "vector<int>", ptl::vector<int>);
	SIM_ITER(i2, "vector<object>", ptl::vector<Soft>);
	SIM_ITER(i3, "string", ptl::string);
	SIM_ITER(i4, "array<int,1>", ptl::array<int, 1>);
	SIM_ITER(i5, "array<string,6>", ptl::array<ptl::string, 6>);
	SIM_ITER(i6, "array_ref<int>", ptl::array_ref<int>);
	SIM_ITER(i7, "array_ref<const short>", ptl::array_ref<const short>);
	SIM_ITER(i8, "string_ref", ptl::string_ref);
}
