// Worlds "src:<container>": every operation that is fed by a pair of iterators, over instrumented single-pass and multi-pass sources that can fail, run dry, make up their values or look at the container they feed.
#include "core.hpp"
#include <iostream>
#include <ptl/string.hpp>
#define SIM_WITH_STRING
#include "elems.hpp"
#include <ptl/vector.hpp>

namespace sim {
	template<> struct El<char> { static char make(int v) { return static_cast<char>(v); } static int get(const char & e) { return static_cast<unsigned char>(e); } static int norm(int v) { return static_cast<unsigned char>(v); } static constexpr bool counted{false}, allocates{false}; };

	// one range handed to one call: what has been read of it, and whether anything was done to it that its kind does not allow
	template<typename E>
	struct Tape {
		static constexpr u32 longest{160};
		const E * data{nullptr}; std::ptrdiff_t n{0}, pos{0}; bool single{false}; u8 reads[longest]{}; u32 advances{0}; char bad[120]{};
		const void * own{nullptr}; const E * (*item)(const void *, std::ptrdiff_t){nullptr}; bool (*intact)(const void *, std::ptrdiff_t){nullptr}; const void * fed{nullptr};
		void wrong(const char * what, std::ptrdiff_t i) { if(!*bad) std::snprintf(bad, sizeof bad, "%s (position %td of %td)", what, i, n); }
		void event(const char * what, std::ptrdiff_t i) { Ctx & c{*cur}; if(c.armed && c.any_fired()) wrong(what, i); }
		const E & read(std::ptrdiff_t i) {
			Ctx & c{*cur};
			event("an element was read although the call had already failed", i);
			if(i < 0 || i >= n) { wrong("an element outside the range was read", i); if(n == 0) throw_fault(c, F_ITER); i = n - 1; }
			if(c.point(F_ITER)) throw_fault(c, F_ITER);
			if(reads[i] && c.armed) wrong("an element was read twice", i);
			if(single) for(std::ptrdiff_t k{0}; k < i; ++k) if(!reads[k]) wrong("an element was skipped", k);
			if(reads[i] < 9) ++reads[i];
			if(fed && intact) { Off off{c}; if(!intact(fed, i)) wrong("the container did not show its old elements while the source was read", i); }
			return own ? *item(own, i) : data[i];
		}
		void advance() {
			Ctx & c{*cur};
			event("the source was advanced although the call had already failed", pos);
			if(pos >= n) { wrong("the source was advanced past its end", pos); throw_fault(c, F_ITER); }
			if(c.point(F_ITER)) throw_fault(c, F_ITER);
			++pos; ++advances;
		}
		void form(std::ptrdiff_t i) { if(i < 0 || i > n) wrong("a position outside the range was formed", i); }
	};
	template<typename E, bool Value>
	struct Once {
		using iterator_category = std::input_iterator_tag; using value_type = E; using difference_type = std::ptrdiff_t; using pointer = const E *; using reference = std::conditional_t<Value, E, const E &>;
		Tape<E> * t{nullptr};
		struct Kept { Tape<E> * t; std::ptrdiff_t i; reference operator*() const { return t->read(i); } };
		reference operator*() const { return t->read(t->pos); }
		pointer operator->() const { return std::addressof(t->read(t->pos)); }
		Once & operator++() { t->advance(); return *this; }
		Kept operator++(int) { const Kept k{t, t->pos}; t->advance(); return k; }
		bool done() const { return !t || t->pos == t->n; }
		friend bool operator==(const Once & a, const Once & b) { return a.done() == b.done(); }
		friend bool operator!=(const Once & a, const Once & b) { return !(a == b); }
	};
	template<typename E, typename Cat, bool Value>
	struct Many {
		using iterator_category = Cat; using value_type = E; using difference_type = std::ptrdiff_t; using pointer = const E *; using reference = std::conditional_t<Value, E, const E &>;
		Tape<E> * t{nullptr}; std::ptrdiff_t i{0};
		Many & to(std::ptrdiff_t x) { t->form(i = x); return *this; }
		reference operator*() const { return t->read(i); }
		pointer operator->() const { return std::addressof(t->read(i)); }
		reference operator[](difference_type n) const { return t->read(i + n); }
		Many & operator++() { return to(i + 1); }
		Many operator++(int) { auto k{*this}; ++*this; return k; }
		Many & operator--() { return to(i - 1); }
		Many operator--(int) { auto k{*this}; --*this; return k; }
		Many & operator+=(difference_type n) { return to(i + n); }
		Many & operator-=(difference_type n) { return to(i - n); }
		friend Many operator+(Many a, difference_type n) { return a += n; }
		friend Many operator+(difference_type n, Many a) { return a += n; }
		friend Many operator-(Many a, difference_type n) { return a -= n; }
		friend difference_type operator-(const Many & a, const Many & b) { return a.i - b.i; }
		friend bool operator==(const Many & a, const Many & b) { return a.i == b.i; }
		friend bool operator!=(const Many & a, const Many & b) { return a.i != b.i; }
		friend bool operator<(const Many & a, const Many & b) { return a.i < b.i; }
		friend bool operator>(const Many & a, const Many & b) { return a.i > b.i; }
		friend bool operator<=(const Many & a, const Many & b) { return a.i <= b.i; }
		friend bool operator>=(const Many & a, const Many & b) { return a.i >= b.i; }
	};

	template<typename C>
	struct SrcWorld final : World {
		using E = typename C::value_type; using L = El<E>; using T = Tape<E>;
		static constexpr bool text{std::is_same_v<C, ptl::string>};
		static constexpr u32 NS{2};
		Slot<C> sl[NS]; std::vector<int> mo[NS]; int next_val{1};
		enum Op : u32 { CTOR, ASSIGN, INSERT, APPEND, REPLACE, PUSH, POP, RESERVE, SHRINK, CLEAR, SWAP, NOPS };
		static const OpInfo * ops() { static const OpInfo i[]{{"ctor",8},{"assign",14},{"insert",20},{text ? "append" : "insert_at_end",14},{text ? "replace" : "insert_at_begin",14},{"push_back",6},{"pop_back",3},{"reserve",6},{"shrink_to_fit",3},{"clear",2},{"swap",2}}; static_assert(sizeof i / sizeof *i == NOPS); return i; }
		int fresh() { next_val = next_val % 250 + 1; return next_val; }
		SrcWorld(Ctx & c, const Plan & p) {
			for(u32 i{0}; i < NS; ++i) { sl[i].p = Slot<C>::raw(c); Track t{c}; new(static_cast<void *>(sl[i].p)) C; for(u32 k{0}; k < p.cfg[i] % 30; ++k) { mo[i].push_back(L::norm(fresh())); sl[i]->push_back(L::make(mo[i].back())); } }
		}
		u32 abs_state() const override { u32 r{0}; for(u32 i{0}; i < NS; ++i) { const auto n{mo[i].size()}, k{sl[i]->capacity()}; r = r * 5 + (n == 0 ? 0u : n == k ? 1u : n * 2 < k ? 2u : k < 30 ? 3u : 4u); } return r; }
		struct Fed { const C * c; const std::vector<int> * m; };
		static const E * item(const void * p, std::ptrdiff_t i) { const C & v{*static_cast<const C *>(p)}; return v.data() + static_cast<std::size_t>(i) % v.size(); }
		static bool intact(const void * p, std::ptrdiff_t i) {
			const Fed & f{*static_cast<const Fed *>(p)}; const std::size_t n{f.m->size()}; if(f.c->size() < n) return false;
			const auto same{[&](std::size_t k) { return L::get(f.c->data()[k]) == (*f.m)[k]; }};
			if(i == 0) { for(std::size_t k{0}; k < n; ++k) if(!same(k)) return false; } else if(n) return same(static_cast<std::size_t>(i) % n) && same(n - 1);
			return true;
		}
		void check(Ctx & c, bool failed) {
			for(u32 i{0}; i < NS; ++i) {
				const C & v{*sl[i]}; const auto & m{mo[i]}; c.log(v.size());
				bool ok{v.size() == m.size()}; for(std::size_t k{0}; ok && k < m.size(); ++k) { const int g{L::get(v[k])}; c.log(static_cast<u64>(g)); ok = g == m[k]; }
				if(!ok) { violate(failed ? ATOMIC : VALUE, "container %u does not hold the %zu elements expected (after %s)", i, m.size(), c.opname); abandon_run(); }
			}
		}
		void step(Ctx & c, const Step & s) override { Off off{c}; const bool f{impl(c, s)}; check(c, f); }
		template<typename F> static Result feed(Ctx & c, T & t, u32 kind, F && call) {
			t.single = kind < 2;
			switch(kind) {
				case 0: return sut(c, [&] { call(Once<E, false>{&t}, Once<E, false>{}); });
				case 1: return sut(c, [&] { call(Once<E, true>{&t}, Once<E, true>{}); });
				case 2: return sut(c, [&] { using I = Many<E, std::forward_iterator_tag, false>; call(I{&t, 0}, I{&t, t.n}); });
				case 3: return sut(c, [&] { using I = Many<E, std::bidirectional_iterator_tag, false>; call(I{&t, 0}, I{&t, t.n}); });
				case 4: return sut(c, [&] { using I = Many<E, std::random_access_iterator_tag, false>; call(I{&t, 0}, I{&t, t.n}); });
				case 5: return sut(c, [&] { using I = Many<E, std::random_access_iterator_tag, true>; call(I{&t, 0}, I{&t, t.n}); });
				default: return sut(c, [&] { using I = Many<E, std::forward_iterator_tag, true>; call(I{&t, 0}, I{&t, t.n}); });
			}
		}
		bool impl(Ctx & c, const Step & s) {
			const u32 i{s.a[0] % NS}, kind{s.a[1] % 7}; C & v{*sl[i]}; auto & m{mo[i]}; const std::size_t size{m.size()}, room{v.capacity() - size};
			const auto at{[&](std::size_t k) { return static_cast<std::ptrdiff_t>(k); }};
			Result r{Out::ok};
			if(s.op >= PUSH) {
				switch(s.op) {
					case PUSH: { if(size > 60) return false; const int x{fresh()}; r = sut(c, [&] { v.push_back(L::make(x)); }); if(r.ok()) m.push_back(L::norm(x)); break; }
					case POP: if(!size) return false; r = sut(c, [&] { v.pop_back(); }); m.pop_back(); break;
					case RESERVE: r = sut(c, [&] { v.reserve(s.a[2] % 90); }); break;
					case SHRINK: r = sut(c, [&] { v.shrink_to_fit(); }); break;
					case CLEAR: r = sut(c, [&] { v.clear(); }); m.clear(); break;
					default: r = sut(c, [&] { v.swap(*sl[1 - i]); }); std::swap(m, mo[1 - i]);
				}
				if(!r.ok() && !legal_failure(c, r, false)) violate(VALUE, "%s reported %s although nothing failed", c.opname, out_name[static_cast<int>(r.out)]);
				return !r.ok();
			}
			std::size_t n; switch(s.a[2] % 8) { case 0: n = room; break; case 1: n = room + 1; break; case 2: n = room ? room - 1 : 0; break; case 3: n = 0; break; case 4: n = 1; break; case 5: n = s.a[2] / 8 % 5; break; default: n = s.a[2] / 8 % 40; }
			if(n > 100 || size + n > 140) n = s.a[2] / 8 % 4;
			// the elements: the harness' own, or made up from those of a container
			const u32 from{s.a[5] % 6}; const C * own{from == 0 ? &v : from == 1 ? sl[1 - i].p : nullptr}; if(own && !own->size()) own = nullptr;
			std::vector<E> data; std::vector<int> vals; struct Free { Ctx & c; std::vector<E> & d; ~Free() { Off o{c}; std::vector<E>{}.swap(d); } } free_{c, data};
			if(own) { const auto & w{from == 0 ? m : mo[1 - i]}; for(std::size_t k{0}; k < n; ++k) vals.push_back(w[k % w.size()]); }
			else { Off o{c}; data.reserve(n); for(std::size_t k{0}; k < n; ++k) { const int x{fresh()}; vals.push_back(L::norm(x)); { Track tr{c}; E e(L::make(x)); Off o2{c}; data.push_back(std::move(e)); } } }
			T t; t.data = data.data(); t.n = at(n); t.own = own; t.item = item;
			const Fed fed{&v, &m}; if(s.op != CTOR) { t.fed = &fed; t.intact = intact; }
			const std::size_t pos{s.a[3] % (size + 1)}, cut{s.a[4] % (size - pos + 1)};
			if(c.trace) c.note("    container %u size=%zu room=%zu source kind %u of %zu%s pos=%zu cut=%zu", i, size, room, kind, n, own ? own == &v ? " from itself" : " from the other container" : "", pos, cut);
			static const char * const name[]{"single pass", "single pass by value", "forward", "bidirectional", "random access", "random access by value", "forward by value"};
			if(s.op == CTOR) {
				C * q{Slot<C>::raw(c)}; r = feed(c, t, kind, [&](auto f, auto l) { new(static_cast<void *>(q)) C(f, l); });
				if(r.ok()) { sl[i].destroy(c); sl[i].p = q; } else Slot<C>::drop(c, q);
			} else r = feed(c, t, kind, [&](auto f, auto l) {
				const C & k{v};
				switch(s.op) {
					case ASSIGN: v.assign(f, l); break;
					case INSERT: { const auto it{v.insert(k.begin() + at(pos), f, l)}; if(it - v.begin() != at(pos)) { Off o{c}; violate(VALUE, "insert returned position %td, expected %zu", it - v.begin(), pos); } break; }
					case APPEND: if constexpr(text) v.append(f, l); else v.insert(k.end(), f, l); break;
					default: if constexpr(text) v.replace(k.begin() + at(pos), k.begin() + at(pos + cut), f, l); else v.insert(k.begin(), f, l);
				}
			});
			if(*t.bad) violate(SOURCE, "%s from a %s source: %s", c.opname, name[kind], t.bad);
			if(r.ok()) {
				for(std::size_t k{0}; k < n; ++k) if(t.reads[k] != 1) { violate(SOURCE, "%s from a %s source read element %zu of %zu %u times", c.opname, name[kind], k, n, t.reads[k]); break; }
				if(t.single && t.advances != n) violate(SOURCE, "%s from a %s source advanced it %u times for %zu elements", c.opname, name[kind], t.advances, n);
			} else if(!legal_failure(c, r, false)) violate(VALUE, "%s reported %s although nothing failed", c.opname, out_name[static_cast<int>(r.out)]);
			for(std::size_t k{0}; k < data.size(); ++k) if(L::get(data[k]) != vals[k]) { violate(SOURCE, "%s changed element %zu of its source", c.opname, k); break; }
			if(!r.ok()) return true;
			switch(s.op) {
				case CTOR: case ASSIGN: m = vals; break;
				case INSERT: m.insert(m.begin() + at(pos), vals.begin(), vals.end()); break;
				case APPEND: m.insert(m.end(), vals.begin(), vals.end()); break;
				default: if constexpr(text) { m.erase(m.begin() + at(pos), m.begin() + at(pos + cut)); m.insert(m.begin() + at(pos), vals.begin(), vals.end()); } else m.insert(m.begin(), vals.begin(), vals.end());
			}
			return false;
		}
		void finish(Ctx & c) override { Off off{c}; for(auto & x : sl) x.destroy(c); }
		static WorldKind kind(const char * name) { return {name, ops(), NOPS, (1u << F_ALLOC) | (1u << F_OOM) | (L::counted ? 1u << F_ELEM : 0u) | (1u << F_ITER), [](Ctx & c, const Plan & p) -> World * { return new SrcWorld(c, p); }}; }
	};
	static RegisterWorld r0{SrcWorld<ptl::string>::kind("src:string")}, r1{SrcWorld<ptl::vector<int>>::kind("src:vector<int>")}, r2{SrcWorld<ptl::vector<Tracked>>::kind("src:vector<object>")}, r3{SrcWorld<ptl::vector<ptl::string>>::kind("src:vector<string>")};
}
