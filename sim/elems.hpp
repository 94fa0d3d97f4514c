// Instrumented user types: elements that can throw at chosen points and whose lifetimes are ledgered, source iterators that can throw.
#pragma once
#include "core.hpp"

namespace sim {
	// copying has to work alike from a constant, from a variable and from a constant about to expire
	template<typename T> void copy_into(void * q, T & from, u32 how) { switch(how % 3) { case 0: new(q) T(static_cast<const T &>(from)); return; case 1: new(q) T(from); return; default: new(q) T(static_cast<const T &&>(from)); } }
	template<typename T> T & copy_onto(T & to, T & from, u32 how) { switch(how % 3) { case 0: return to = static_cast<const T &>(from); case 1: return to = from; default: return to = static_cast<const T &&>(from); } }
	// handing over a value: as a constant or as a variable
	template<typename E, typename F> decltype(auto) lend(E & e, u32 how, F && f) { if(how % 2) return f(e); return f(static_cast<const E &>(e)); }

	constexpr int moved_value{-7777}, dead_value{-8888};
	[[noreturn]] inline void throw_fault(Ctx & c, int kind) { Off off{c}; throw Fault{kind, c.fault_id}; }

	// element whose copies can fail and whose lifetime is ledgered; Tag varies the type, Hostile makes self-move destructive (as the standard allows), Pad varies the size
	template<int Tag, bool Hostile, int Pad = 4>
	struct BasicTracked {
		int v;
		unsigned char pad[Pad]; // derived from v: shows torn or overlapping values
		void set(int x) { v = x; for(int i{0}; i < Pad; ++i) pad[i] = static_cast<unsigned char>(x + i); }
		bool intact() const { for(int i{0}; i < Pad; ++i) if(pad[i] != static_cast<unsigned char>(v + i)) return false; return true; }
		static void reg(BasicTracked * p) { Ctx & c{*cur}; Off off{c}; ++c.elem_ops; ++c.live_elems; c.log(1); if(!c.live.insert(reinterpret_cast<std::uintptr_t>(p), Tag + 1)) violate(LIFETIME, "an element was constructed where one is still alive"); }
		static void unreg(BasicTracked * p) { Ctx & c{*cur}; Off off{c}; ++c.elem_ops; --c.live_elems; c.log(2); auto e{c.live.find(reinterpret_cast<std::uintptr_t>(p))}; if(!e) { ++c.live_elems; violate(LIFETIME, "an element was destroyed that is not alive (destroyed twice or never constructed)"); } else { if(e->v != Tag + 1) violate(LIFETIME, "an element was destroyed as a different type than it was constructed"); c.live.erase(reinterpret_cast<std::uintptr_t>(p)); } }
		bool live(const char * what) const { Ctx & c{*cur}; ++c.elem_ops; auto e{c.live.find(reinterpret_cast<std::uintptr_t>(this))}; if(!e || e->v != Tag + 1) { violate(LIFETIME, "%s an element that is not alive", what); return false; } return true; }
		int val(const char * what) const { return live(what) ? intact() ? v : dead_value : dead_value; }
		static void may_throw() { Ctx & c{*cur}; if(c.point(F_ELEM)) throw_fault(c, F_ELEM); }
	public:
		BasicTracked() { may_throw(); set(0); reg(this); }
		BasicTracked(int v_) { may_throw(); set(v_); reg(this); }
		BasicTracked(int a, int b) { may_throw(); set(a + b); reg(this); }
		BasicTracked(const BasicTracked & o) { const int x{o.val("copied from")}; may_throw(); set(x); reg(this); }
		BasicTracked(BasicTracked && o) noexcept { const int x{o.val("moved from")}; set(x); o.set(moved_value); reg(this); }
		auto operator=(const BasicTracked & o) -> BasicTracked & { live("assigned to"); const int x{o.val("assigned from")}; may_throw(); set(x); cur->log(3); return *this; }
		auto operator=(BasicTracked && o) noexcept -> BasicTracked & {
			live("move-assigned to"); const int x{o.val("move-assigned from")}; cur->log(4);
			if(this == &o) { if(Hostile) set(moved_value); return *this; }
			set(x); o.set(moved_value); return *this;
		}
		~BasicTracked() { unreg(this); v = dead_value; }
		friend void swap(BasicTracked & a, BasicTracked & b) noexcept { const int x{a.val("swapped")}, y{b.val("swapped")}; cur->log(5); a.set(y); b.set(x); }
		friend bool operator==(const BasicTracked & a, const BasicTracked & b) noexcept { return a.val("compared") == b.val("compared"); }
		friend bool operator!=(const BasicTracked & a, const BasicTracked & b) noexcept { return !(a == b); }
		friend bool operator<(const BasicTracked & a, const BasicTracked & b) noexcept { return a.val("compared") < b.val("compared"); }
		friend bool operator>(const BasicTracked & a, const BasicTracked & b) noexcept { return b < a; }
		friend bool operator<=(const BasicTracked & a, const BasicTracked & b) noexcept { return !(b < a); }
		friend bool operator>=(const BasicTracked & a, const BasicTracked & b) noexcept { return !(a < b); }
	};
	using Tracked = BasicTracked<0, true>;   // self-move destroys the value
	using Soft = BasicTracked<1, false>;
	// as above, but conversion from int never fails while construction from a braced list prefers an initializer_list that can
	template<int Tag>
	struct ListTracked {
		BasicTracked<Tag, false, 12> t;
		static BasicTracked<Tag, false, 12> quiet(int x) noexcept { Ctx & c{*cur}; const bool a{c.armed}; c.armed = false; BasicTracked<Tag, false, 12> r(x); c.armed = a; return r; }
		ListTracked() noexcept : t{quiet(0)} {}
		ListTracked(int x) noexcept : t{quiet(x)} {}
		ListTracked(std::initializer_list<int> l) : t(l.size() ? *l.begin() : 0) {}
		friend bool operator==(const ListTracked & a, const ListTracked & b) noexcept { return a.t == b.t; }
		friend bool operator!=(const ListTracked & a, const ListTracked & b) noexcept { return !(a == b); }
		friend bool operator<(const ListTracked & a, const ListTracked & b) noexcept { return a.t < b.t; }
		friend bool operator>(const ListTracked & a, const ListTracked & b) noexcept { return b < a; }
		friend bool operator<=(const ListTracked & a, const ListTracked & b) noexcept { return !(b < a); }
		friend bool operator>=(const ListTracked & a, const ListTracked & b) noexcept { return !(a < b); }
	};

	// construction, including from another payload by reference, never fails
	struct FromSoft {
		BasicTracked<9, false, 20> t;
		static BasicTracked<9, false, 20> quiet(int x) noexcept { Ctx & c{*cur}; const bool a{c.armed}; c.armed = false; BasicTracked<9, false, 20> r(x); c.armed = a; return r; }
		FromSoft() noexcept : t{quiet(0)} {}
		FromSoft(int x) noexcept : t{quiet(x)} {}
		FromSoft(const Soft & s) noexcept : t{quiet(s.val("converted from"))} {}
		FromSoft(const FromSoft & o) noexcept : t{quiet(o.t.val("copied from"))} {}
		FromSoft(FromSoft && o) noexcept =default;
		auto operator=(const FromSoft & o) noexcept -> FromSoft & { t = quiet(o.t.val("assigned from")); return *this; }
		auto operator=(FromSoft && o) noexcept -> FromSoft & =default;
		friend bool operator==(const FromSoft & a, const FromSoft & b) noexcept { return a.t == b.t; }
		friend bool operator!=(const FromSoft & a, const FromSoft & b) noexcept { return a.t != b.t; }
		friend bool operator<(const FromSoft & a, const FromSoft & b) noexcept { return a.t < b.t; }
		friend bool operator>(const FromSoft & a, const FromSoft & b) noexcept { return a.t > b.t; }
		friend bool operator<=(const FromSoft & a, const FromSoft & b) noexcept { return a.t <= b.t; }
		friend bool operator>=(const FromSoft & a, const FromSoft & b) noexcept { return a.t >= b.t; }
	};

	struct Pod {
		char tag; short half; int v;
		Pod() = default;
		Pod(int x) : tag{static_cast<char>(x)}, half{static_cast<short>(x * 3)}, v{x} {}
		Pod(int a, int b) : Pod(a + b) {}
		friend bool operator==(const Pod & a, const Pod & b) noexcept { return a.v == b.v; }
		friend bool operator<(const Pod & a, const Pod & b) noexcept { return a.v < b.v; }
	};

	// value <-> element
	template<typename E> struct El;
	template<int T, bool H, int P> struct El<BasicTracked<T, H, P>> { using E = BasicTracked<T, H, P>; static E make(int v) { return E(v); } static int get(const E & e) { return e.val("looked at"); } static int norm(int v) { return v; } static constexpr bool counted{true}, allocates{false}; };
	template<int T> struct El<ListTracked<T>> { using E = ListTracked<T>; static E make(int v) { return E(v); } static int get(const E & e) { return e.t.val("looked at"); } static int norm(int v) { return v; } static constexpr bool counted{true}, allocates{false}; };
	template<> struct El<FromSoft> { static FromSoft make(int v) { return FromSoft(v); } static int get(const FromSoft & e) { return e.t.val("looked at"); } static int norm(int v) { return v; } static constexpr bool counted{true}, allocates{false}; };
	template<> struct El<int> { static int make(int v) { return v; } static int get(const int & e) { return e; } static int norm(int v) { return v; } static constexpr bool counted{false}, allocates{false}; };
	template<> struct El<unsigned char> { static unsigned char make(int v) { return static_cast<unsigned char>(v); } static int get(const unsigned char & e) { return e; } static int norm(int v) { return static_cast<unsigned char>(v); } static constexpr bool counted{false}, allocates{false}; };
	template<> struct El<Pod> { static Pod make(int v) { return Pod(v); } static int get(const Pod & e) { return e.tag == static_cast<char>(e.v) && e.half == static_cast<short>(e.v * 3) ? e.v : dead_value; } static int norm(int v) { return v; } static constexpr bool counted{false}, allocates{false}; };

	// elements that own memory: every other value needs a heap block
	#ifdef SIM_WITH_STRING
	template<> struct El<ptl::string> {
		static ptl::string make(int v) { std::string t{std::to_string(v)}; if(v % 2) t.insert(0, 40, '0'); return ptl::string{std::string_view{t}}; }
		static int get(const ptl::string & s) { int v{0}; for(char ch : s) { if(ch < '0' || ch > '9') return dead_value; v = v * 10 + (ch - '0'); } return s.empty() ? -1 : v; }
		static int norm(int v) { return v; }
		static constexpr bool counted{false}, allocates{true};
	};
	#endif

	// source iterators over harness-owned elements; dereferencing can throw
	template<typename E>
	struct FwdIt {
		using iterator_category = std::forward_iterator_tag; using value_type = E; using difference_type = std::ptrdiff_t; using pointer = const E *; using reference = const E &;
		const E * p{nullptr};
		reference operator*() const { Ctx & c{*cur}; if(c.point(F_ITER)) throw_fault(c, F_ITER); return *p; }
		pointer operator->() const { return p; }
		FwdIt & operator++() { ++p; return *this; }  // does not throw: libstdc++'s own uninitialized_copy leaks one element when an increment throws
		FwdIt operator++(int) { auto t{*this}; ++*this; return t; }
		friend bool operator==(const FwdIt & a, const FwdIt & b) { return a.p == b.p; }
		friend bool operator!=(const FwdIt & a, const FwdIt & b) { return a.p != b.p; }
	};
	// bidirectional / random access source that can throw on read
	template<typename E>
	struct RndIt {
		using iterator_category = std::random_access_iterator_tag; using value_type = E; using difference_type = std::ptrdiff_t; using pointer = const E *; using reference = const E &;
		const E * p{nullptr};
		reference operator*() const { Ctx & c{*cur}; if(c.point(F_ITER)) throw_fault(c, F_ITER); return *p; }
		reference operator[](difference_type n) const { return *(*this + n); }
		RndIt & operator++() { ++p; return *this; }
		RndIt operator++(int) { auto t{*this}; ++p; return t; }
		RndIt & operator--() { --p; return *this; }
		RndIt operator--(int) { auto t{*this}; --p; return t; }
		RndIt & operator+=(difference_type n) { p += n; return *this; }
		RndIt & operator-=(difference_type n) { p -= n; return *this; }
		friend RndIt operator+(RndIt a, difference_type n) { a.p += n; return a; }
		friend RndIt operator+(difference_type n, RndIt a) { a.p += n; return a; }
		friend RndIt operator-(RndIt a, difference_type n) { a.p -= n; return a; }
		friend difference_type operator-(const RndIt & a, const RndIt & b) { return a.p - b.p; }
		friend bool operator==(const RndIt & a, const RndIt & b) { return a.p == b.p; }
		friend bool operator!=(const RndIt & a, const RndIt & b) { return a.p != b.p; }
		friend bool operator<(const RndIt & a, const RndIt & b) { return a.p < b.p; }
		friend bool operator>(const RndIt & a, const RndIt & b) { return a.p > b.p; }
		friend bool operator<=(const RndIt & a, const RndIt & b) { return a.p <= b.p; }
		friend bool operator>=(const RndIt & a, const RndIt & b) { return a.p >= b.p; }
	};
	// single pass: all copies share one cursor, so reading the range twice consumes it
	template<typename E>
	struct InIt {
		using iterator_category = std::input_iterator_tag; using value_type = E; using difference_type = std::ptrdiff_t; using pointer = const E *; using reference = const E &;
		const E ** p{nullptr}; const E * e{nullptr};
		reference operator*() const { Ctx & c{*cur}; if(c.point(F_ITER)) throw_fault(c, F_ITER); return **p; }
		pointer operator->() const { return *p; }
		struct Kept { const E * q; reference operator*() const { Ctx & c{*cur}; if(c.point(F_ITER)) throw_fault(c, F_ITER); return *q; } };
		InIt & operator++() { Ctx & c{*cur}; if(c.point(F_ITER)) throw_fault(c, F_ITER); ++*p; return *this; }
		Kept operator++(int) { const Kept k{*p}; ++*this; return k; }
		bool done() const { return !p || *p == e; }
		friend bool operator==(const InIt & a, const InIt & b) { return a.done() == b.done(); }
		friend bool operator!=(const InIt & a, const InIt & b) { return !(a == b); }
	};
	// random access source of any claimed length, without backing storage
	template<typename E>
	struct CountIt {
		using iterator_category = std::random_access_iterator_tag; using value_type = E; using difference_type = std::ptrdiff_t; using pointer = const E *; using reference = const E &;
		const E * one{nullptr}; difference_type n{0};
		reference operator*() const { return *one; }
		reference operator[](difference_type) const { return *one; }
		CountIt & operator++() { ++n; return *this; }
		CountIt operator++(int) { auto t{*this}; ++n; return t; }
		CountIt & operator--() { --n; return *this; }
		CountIt operator--(int) { auto t{*this}; --n; return t; }
		CountIt & operator+=(difference_type k) { n += k; return *this; }
		CountIt & operator-=(difference_type k) { n -= k; return *this; }
		friend CountIt operator+(CountIt a, difference_type k) { a.n += k; return a; }
		friend CountIt operator+(difference_type k, CountIt a) { a.n += k; return a; }
		friend CountIt operator-(CountIt a, difference_type k) { a.n -= k; return a; }
		friend difference_type operator-(const CountIt & a, const CountIt & b) { return a.n - b.n; }
		friend bool operator==(const CountIt & a, const CountIt & b) { return a.n == b.n; }
		friend bool operator!=(const CountIt & a, const CountIt & b) { return a.n != b.n; }
		friend bool operator<(const CountIt & a, const CountIt & b) { return a.n < b.n; }
		friend bool operator>(const CountIt & a, const CountIt & b) { return a.n > b.n; }
		friend bool operator<=(const CountIt & a, const CountIt & b) { return a.n <= b.n; }
		friend bool operator>=(const CountIt & a, const CountIt & b) { return a.n >= b.n; }
	};

	// object storage: exactly sizeof(T) heap bytes (so overruns of the object are seen), pre-filled with garbage
	template<typename T>
	struct Slot {
		T * p{nullptr};
		static T * raw(Ctx & c) { Off off{c}; void * p{nullptr}; if constexpr(alignof(T) > alignof(std::max_align_t)) { if(posix_memalign(&p, alignof(T), sizeof(T))) std::abort(); } else p = std::malloc(sizeof(T)); T * q{static_cast<T *>(p)}; dirty(c, q); return q; }
		static void drop(Ctx & c, T * q) { Off off{c}; std::memset(static_cast<void *>(q), 0xdd, sizeof(T)); std::free(q); }
		// construct through f (placement); on success the new object replaces the old one
		template<typename F>
		Result build(Ctx & c, F && f) {
			T * q{raw(c)};
			const Result r{sut(c, [&] { f(static_cast<void *>(q)); })};
			if(r.ok()) { destroy(c); p = q; } else drop(c, q);
			return r;
		}
		void destroy(Ctx & c) { if(!p) return; { Arm t{c}; const auto fk{c.fk}; c.fk = fk == F_OOM ? F_OOM : 0; p->~T(); c.fk = fk; } drop(c, p); p = nullptr; }
		T & operator*() const { return *p; }
		T * operator->() const { return p; }
	};
	// every operation of a container's iterators, by the address it designates; a and b are positions (0..size)
	template<typename It, typename P>
	const char * iter_ops(It first, It last, P base, std::size_t size, std::size_t a, std::size_t b) {
		const auto D{[](std::size_t n) { return static_cast<std::ptrdiff_t>(n); }};
		const std::ptrdiff_t n{D(size)}, x{D(a)}, y{D(b)};
		const auto addr{[](auto && r) { return static_cast<const void *>(std::addressof(r)); }};
		const auto want{[&](std::ptrdiff_t k) { return static_cast<const void *>(base + k); }};
		const It p{first + x}, q{y + first};
		if(last - first != n || first - last != -n) return "end - begin";
		if(p - q != x - y || q - p != y - x || p - first != x || last - q != n - y) return "difference";
		if((p == q) != (x == y) || (p != q) != (x != y) || (p < q) != (x < y) || (p > q) != (x > y) || (p <= q) != (x <= y) || (p >= q) != (x >= y)) return "comparison";
		if(x < n) { if(addr(*p) != want(x) || addr(first[x]) != want(x) || addr(p[0]) != want(x) || static_cast<const void *>(p.operator->()) != want(x)) return "dereference"; if(addr(p[y < n ? y - x : 0]) != want(y < n ? y : x)) return "index"; }
		{ It t{p}; It & u{t += y - x}; if(addr(u) != addr(t) || t != q || t - first != y) return "+="; It & w{t -= y - x}; if(addr(w) != addr(t) || t != p) return "-="; if(p + (y - x) != q || (y - x) + p != q || q - (y - x) != p) return "+ or -"; }
		if(x < n) { It t{p}; It & u{++t}; if(addr(u) != addr(t) || t - first != x + 1) return "++it"; It w{--t}; if(t != p || w != p) return "--it"; It k{t++}; if(k != p || t - p != 1) return "it++"; k = t--; if(k - p != 1 || t != p) return "it--"; It & z{--++t}; if(addr(z) != addr(t)) return "--it"; }
		return nullptr;
	}
	template<typename C>
	const char * iter_all(C & c, std::size_t a, std::size_t b) {
		const C & cc{c}; const std::size_t n{cc.size()}; const auto base{cc.data()}; const char * e;
		if((e = iter_ops(c.begin(), c.end(), base, n, a, b)) || (e = iter_ops(cc.begin(), cc.end(), base, n, a, b)) || (e = iter_ops(cc.cbegin(), cc.cend(), base, n, a, b))) return e;
		typename C::const_iterator k{c.begin()}; if(k != cc.begin() || cc.begin() != k || k - cc.cbegin() != 0) return "conversion to const";
		k = c.begin() + static_cast<std::ptrdiff_t>(a); if(k != cc.begin() + static_cast<std::ptrdiff_t>(a)) return "conversion to const";
		typename C::iterator m{}; m = c.end(); if(m != c.end() || m - c.begin() != static_cast<std::ptrdiff_t>(n)) return "assignment";
		if(typename C::iterator{} != typename C::iterator{} || typename C::const_iterator{} != typename C::const_iterator{}) return "default construction";
		const auto addr{[](auto && r) { return static_cast<const void *>(std::addressof(r)); }}; const auto rb{c.rbegin()}; const auto crb{cc.rbegin()}, crb2{cc.crbegin()}; const auto d{static_cast<std::ptrdiff_t>(n)};
		if(c.rend() - rb != d || cc.rend() - crb != d || cc.crend() - crb2 != d) return "rend - rbegin";
		if(a < n) { const void * w{base + (n - 1 - a)}; const auto x{static_cast<std::ptrdiff_t>(a)}; if(addr(*(rb + x)) != w || addr(crb[x]) != w || addr(*(crb2 + x)) != w) return "reverse order"; }
		return nullptr;
	}
}
