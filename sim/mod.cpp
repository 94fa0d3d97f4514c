// One module: every operation on the library's types, compiled with this module's compiler, options and copy of the headers, allocating from this module's heap.
#include <cstdlib>
#include <cstring>
#include <climits>
#include <new>
#include <iostream>
#include <functional>
#include <iterator>
#include <algorithm>
#include <memory>
#include <numeric>
#include <string_view>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/function_ref.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/vector.hpp>
#include "modapi.hpp"
using namespace modapi;

// ---- this module's heap ----
static const Host * host; static int self_id;
enum { K_MALLOC = 1, K_NEW, K_NEWARR, K_ALIGNED };
extern "C" {
	void * __real_malloc(std::size_t); void __real_free(void *);
	void * __wrap_malloc(std::size_t n) { return host->alloc(self_id, n, K_MALLOC); }
	void * __wrap_calloc(std::size_t a, std::size_t b) { if(b && a > static_cast<std::size_t>(-1) / b) return nullptr; void * p{host->alloc(self_id, a * b, K_MALLOC)}; if(p) std::memset(p, 0, a * b); return p; }
	void * __wrap_realloc(void * p, std::size_t n) { void * q{host->alloc(self_id, n, K_MALLOC)}; if(q && p) { const std::size_t o{host->size(p)}; std::memcpy(q, p, o < n ? o : n); host->free(self_id, p, K_MALLOC, 0); } return q; }
	void __wrap_free(void * p) { if(p) host->free(self_id, p, K_MALLOC, 0); }
	void * __wrap_aligned_alloc(std::size_t, std::size_t n) { return host->alloc(self_id, n, K_MALLOC); }
	int __wrap_posix_memalign(void ** p, std::size_t, std::size_t n) { *p = host->alloc(self_id, n, K_MALLOC); return *p ? 0 : 12; }
}
static void * obtain(std::size_t n, int k) { void * p{host->alloc(self_id, n ? n : 1, k)}; if(!p) throw std::bad_alloc{}; return p; }
static void put(void * p, int k, std::size_t n) noexcept { if(p) host->free(self_id, p, k, n); }
void * operator new(std::size_t n) { return obtain(n, K_NEW); }
void * operator new[](std::size_t n) { return obtain(n, K_NEWARR); }
void * operator new(std::size_t n, const std::nothrow_t &) noexcept { return host->alloc(self_id, n ? n : 1, K_NEW); }
void * operator new[](std::size_t n, const std::nothrow_t &) noexcept { return host->alloc(self_id, n ? n : 1, K_NEWARR); }
void * operator new(std::size_t n, std::align_val_t) { return obtain(n, K_ALIGNED); }
void * operator new[](std::size_t n, std::align_val_t) { return obtain(n, K_ALIGNED); }
void operator delete(void * p) noexcept { put(p, K_NEW, 0); }
void operator delete[](void * p) noexcept { put(p, K_NEWARR, 0); }
void operator delete(void * p, std::size_t n) noexcept { put(p, K_NEW, n); }
void operator delete[](void * p, std::size_t n) noexcept { put(p, K_NEWARR, n); }
void operator delete(void * p, std::align_val_t) noexcept { put(p, K_ALIGNED, 0); }
void operator delete[](void * p, std::align_val_t) noexcept { put(p, K_ALIGNED, 0); }
void operator delete(void * p, std::size_t n, std::align_val_t) noexcept { put(p, K_ALIGNED, n); }
void operator delete[](void * p, std::size_t n, std::align_val_t) noexcept { put(p, K_ALIGNED, n); }

namespace {
	// ---- int <-> element ----
	constexpr int bad{-99999};
	template<typename E> struct El;
	template<> struct El<int> { static int make(int v) { return v; } static int get(int v) { return v; } };
	template<> struct El<char> { static char make(int v) { return static_cast<char>(v % 100); } static int get(char v) { return v; } };
	template<> struct El<double> { static double make(int v) { return v + 0.5; } static int get(double v) { return static_cast<int>(v - 0.5); } };
	template<> struct El<Rec> { static Rec make(int v) { Rec r; std::memset(&r, 0, sizeof r); r.tag = static_cast<char>(v); r.half = static_cast<short>(v * 3); r.v = v; return r; } static int get(const Rec & r) { return r.tag == static_cast<char>(r.v) && r.half == static_cast<short>(r.v * 3) ? r.v : bad; } };
	template<> struct El<ptl::string> {
		static ptl::string make(int v) { char b[64]; int n{0}; if(v % 2) for(; n < 40; ++n) b[n] = '0'; b[n++] = static_cast<char>('0' + v / 100 % 10); b[n++] = static_cast<char>('0' + v / 10 % 10); b[n++] = static_cast<char>('0' + v % 10); return ptl::string{std::string_view{b, static_cast<std::size_t>(n)}}; }
		static int get(const ptl::string & s) { int v{0}; for(char ch : s) { if(ch < '0' || ch > '9') return bad; v = v * 10 + (ch - '0'); } return s.c_str()[s.size()] ? bad : s.empty() ? -1 : v; }
	};
	template<> struct El<ptl::vector<int>> {
		static ptl::vector<int> make(int v) { ptl::vector<int> r; for(int i{0}; i < 1 + v % 4; ++i) r.push_back(v); return r; }
		static int get(const ptl::vector<int> & r) { if(r.empty()) return -1; const int v{r[0]}; if(static_cast<int>(r.size()) != 1 + v % 4) return bad; for(int x : r) if(x != v) return bad; return v; }
	};
	static int out_put(int * out, int max, int & n, int v) { if(n < max) out[n] = v; ++n; return v; }

	// ---- per family: construct from contents, change, read ----
	template<typename T> struct F;
	template<typename E> struct F<ptl::vector<E>> {
		using T = ptl::vector<E>; using L = El<E>;
		static void construct(void * q, const Call & c) { T t; for(unsigned i{0}; i < c.n; ++i) t.push_back(L::make(c.vals[i])); if(c.a % 3 == 0) t.reserve(c.b % 40); new(q) T(std::move(t)); }
		static void mutate(T & t, const T & o, Call & c) {
			const auto pos{t.begin() + (t.empty() ? 0 : static_cast<std::ptrdiff_t>(c.b % (t.size() + 1)))};
			switch(c.a % vec_ops) {
				case 0: t.push_back(L::make(c.v)); break; case 1: { const E e{L::make(c.v)}; t.emplace_back(e); break; } case 2: { const E e{L::make(c.v)}; t.insert(pos, e); break; } case 3: t.resize(c.b % 20); break; case 4: { const E e{L::make(c.v)}; t.resize(c.b % 25, e); break; }
				case 5: t.clear(); break; case 6: t.reserve(c.b % 50); break; case 7: t.shrink_to_fit(); break; case 8: if(!t.empty()) t.pop_back(); break; case 9: { const E e{L::make(c.v)}; t.insert(pos, c.b % 5, e); break; } case 10: if(!t.empty()) t.erase(t.begin() + static_cast<std::ptrdiff_t>(c.b % t.size())); break;
				case 11: t.insert(pos, o.begin(), o.end()); break; case 12: t.assign(o.begin(), o.end()); break;
			}
		}
		static int read(const T & t, int * out, int max) { int n{0}; if(t.capacity() < t.size() || t.size() > 4000) return -1; for(const E & e : t) out_put(out, max, n, L::get(e)); return n; }
	};
	template<> struct F<ptl::string> {
		using T = ptl::string;
		static void construct(void * q, const Call & c) { T t; for(unsigned i{0}; i < c.n; ++i) t.push_back(static_cast<char>(c.vals[i])); if(c.a % 3 == 0) t.reserve(c.b % 70); new(q) T(std::move(t)); }
		static void mutate(T & t, const T & o, Call & c) {
			const char ch{static_cast<char>(c.v)}; const auto pos{t.begin() + (t.empty() ? 0 : static_cast<std::ptrdiff_t>(c.b % (t.size() + 1)))};
			switch(c.a % str_ops) {
				case 0: t.push_back(ch); break; case 1: t += ch; break; case 2: t.insert(pos, 1, ch); break; case 3: t.resize(c.b % 50, ch); break; case 4: t.append(c.b % 30, ch); break; case 5: t.clear(); break; case 6: t.reserve(c.b % 60); break; case 7: t.shrink_to_fit(); break; case 8: if(!t.empty()) t.pop_back(); break;
				case 9: t.insert(pos, c.b % 30, ch); break; case 10: if(!t.empty()) t.erase(t.begin() + static_cast<std::ptrdiff_t>(c.b % t.size())); break; case 11: t.append(o); break; case 12: t.assign(c.b % 40, ch); break; case 13: { const std::size_t n{c.b % 30}; t = std::move(t).substr(n < t.size() ? n : t.size()); break; }
			}
		}
		static int read(const T & t, int * out, int max) { int n{0}; if(t.size() > t.capacity() || t.size() > 4000 || t.c_str()[t.size()]) return -1; for(char ch : t) out_put(out, max, n, ch); return n; }
	};
	template<typename E> struct F<ptl::optional<E>> {
		using T = ptl::optional<E>; using L = El<E>;
		static void construct(void * q, const Call & c) { if(c.n) { if(c.a % 2) new(q) T(L::make(c.vals[0])); else new(q) T(std::in_place, L::make(c.vals[0])); } else if(c.a % 2) new(q) T(); else new(q) T(std::nullopt); }
		static void mutate(T & t, const T &, Call & c) { switch(c.a % opt_ops) { case 0: t.emplace(L::make(c.v)); break; case 1: { const E e{L::make(c.v)}; t = e; break; } case 2: t = L::make(c.v); break; case 3: t.reset(); break; case 4: if(t) *t = L::make(c.v); break; } }
		static int read(const T & t, int * out, int max) { int n{0}; if(t) out_put(out, max, n, L::get(*t)); return n; }
	};
	template<typename... Ts> struct F<ptl::variant<Ts...>> {
		using T = ptl::variant<Ts...>;
		template<typename G> static void pick(int k, G && g) { int n{0}; ((n++ == k ? (static_cast<void>(g(static_cast<Ts *>(nullptr))), 0) : 0), ...); }
		static void construct(void * q, const Call & c) { pick(c.vals[0], [&](auto p) { using E = std::remove_pointer_t<decltype(p)>; if(c.a % 2) new(q) T(El<E>::make(c.vals[1])); else new(q) T(std::in_place_type<E>, El<E>::make(c.vals[1])); }); }
		static void mutate(T & t, const T &, Call & c) { pick(static_cast<int>(c.b % sizeof...(Ts)), [&](auto p) { using E = std::remove_pointer_t<decltype(p)>; switch(c.a % var_ops) { case 0: { const E e{El<E>::make(c.v)}; t = e; break; } case 1: t = El<E>::make(c.v); break; case 2: t.template emplace<E>(El<E>::make(c.v)); break; default: t.visit([&](auto & x) { using X = std::decay_t<decltype(x)>; x = El<X>::make(c.v); }); } }); }
		static int read(const T & t, int * out, int max) { int n{0}, k{0}, f{0}; ((t.template holds<Ts>() ? (out_put(out, max, n, k), out_put(out, max, n, El<Ts>::get(*t.template get_if<Ts>())), ++f) : 0, ++k), ...); return f == 1 ? n : -1; }
	};
	template<typename E, std::size_t N> struct F<ptl::array<E, N>> {
		using T = ptl::array<E, N>; using L = El<E>;
		static void construct(void * q, const Call & c) { T * t{new(q) T()}; try { for(std::size_t i{0}; i < N; ++i) (*t)[i] = L::make(c.vals[i]); } catch(...) { t->~T(); throw; } }
		static void mutate(T & t, const T & o, Call & c) { switch(c.a % arr_ops) { case 0: { const E e{L::make(c.v)}; t.fill(e); break; } case 1: { E e{L::make(c.v)}; t[c.b % N] = std::move(e); break; } default: t[c.b % N] = o[c.b % N]; } }
		static int read(const T & t, int * out, int max) { int n{0}; for(const E & e : t) out_put(out, max, n, L::get(e)); return n; }
	};
	using Tup = ptl::tuple<char, int, ptl::string>;
	template<> struct F<Tup> {
		using T = Tup;
		static void construct(void * q, const Call & c) { new(q) T(El<char>::make(c.vals[0]), c.vals[1], El<ptl::string>::make(c.vals[2])); }
		static void mutate(T & t, const T & o, Call & c) { const bool from{c.a % tup_ops != 0}; switch(c.b % 3) { case 0: t.get<0>() = from ? o.get<0>() : El<char>::make(c.v); break; case 1: t.get<1>() = from ? o.get<1>() : c.v; break; default: if(from) t.get<2>() = o.get<2>(); else t.get<2>() = El<ptl::string>::make(c.v); } }
		static int read(const T & t, int * out, int max) { int n{0}; out_put(out, max, n, t.get<0>()); out_put(out, max, n, t.get<1>()); out_put(out, max, n, El<ptl::string>::get(t.get<2>())); return n; }
	};
	template<std::size_t N> struct F<ptl::bitset<N>> {
		using T = ptl::bitset<N>;
		static void construct(void * q, const Call & c) { T * t{new(q) T()}; for(std::size_t i{0}; i < N; ++i) t->set(i, c.vals[i] != 0); }
		static void mutate(T & t, const T & o, Call & c) { switch(c.a % bit_ops) { case 0: t.set(); break; case 1: t.flip(); break; case 2: t.flip(c.b % N); break; case 3: t |= o; break; default: t <<= c.b % 4; } }
		static int read(const T & t, int * out, int max) { int n{0}; std::size_t k{0}; for(std::size_t i{0}; i < N; ++i) k += static_cast<std::size_t>(out_put(out, max, n, t[i])); return t.count() == k && t.any() == (k != 0) && t.all() == (k == N) ? n : -1; }
	};
	template<> struct F<ptl::string_ref> {
		using T = ptl::string_ref;
		static void construct(void * q, const Call & c) { new(q) T(static_cast<const char *>(c.at), c.n); }
		static void mutate(T & t, const T &, Call & c) { if(c.a % 2) { const std::size_t k{t.empty() ? 0 : c.b % (t.size() + 1)}; t.remove_prefix(k); } else { const std::size_t k{t.empty() ? 0 : c.b % (t.size() + 1)}; t.remove_suffix(k); } }
		static int read(const T & t, int * out, int max) { int n{0}; for(char ch : t) out_put(out, max, n, ch); return n == static_cast<int>(t.size()) ? n : -1; }
	};
	template<typename E> struct F<ptl::array_ref<E>> {
		using T = ptl::array_ref<E>;
		static void construct(void * q, const Call & c) { auto p{static_cast<int *>(const_cast<void *>(c.at))}; if(c.a % 2) new(q) T(p, c.n); else new(q) T(p, p + c.n); }
		static void mutate(T & t, const T &, Call & c) { if constexpr(std::is_const_v<E>) { if(!t.empty()) t = t.first(c.b % (t.size() + 1)); } else if(!t.empty()) t[c.b % t.size()] = c.v; }
		static int read(const T & t, int * out, int max) { int n{0}; for(int x : t) out_put(out, max, n, x); return n == static_cast<int>(t.size()) ? n : -1; }
	};
	template<> struct F<ptl::optional_ref<int>> {
		using T = ptl::optional_ref<int>;
		static void construct(void * q, const Call & c) { if(c.at) new(q) T(*static_cast<int *>(const_cast<void *>(c.at))); else new(q) T(); }
		static void mutate(T & t, const T &, Call & c) { if(t) *t = c.v; }
		static int read(const T & t, int * out, int max) { int n{0}; if(t.has_value()) out_put(out, max, n, *t); return n; }
	};
	template<> struct F<ptl::variant_ref<int, Rec, const int>> {
		using T = ptl::variant_ref<int, Rec, const int>;
		static void construct(void * q, const Call & c) { void * p{const_cast<void *>(c.at)}; switch(c.alt) { case 0: new(q) T(*static_cast<int *>(p)); break; case 1: new(q) T(*static_cast<Rec *>(p)); break; default: new(q) T(*static_cast<const int *>(p)); } }
		static void mutate(T & t, const T &, Call & c) { if(auto p{t.get_if<int>()}) *p = c.v; else if(auto r{t.get_if<Rec>()}) *r = El<Rec>::make(c.v); }
		static int read(const T & t, int * out, int max) { int n{0}; const bool h[]{t.holds<int>(), t.holds<Rec>(), t.holds<const int>()}; if(h[0] + h[1] + h[2] != 1) return -1; out_put(out, max, n, h[0] ? 0 : h[1] ? 1 : 2); int v{bad}; t.visit([&](const auto & x) { v = El<std::decay_t<decltype(x)>>::get(x); }); out_put(out, max, n, v); return n; }
	};
	int free_target(int x) { return target_result(self_id, 0, x); }
	struct Target { int operator()(int x) { return target_result(self_id, 1, x); } } target_object;
	struct ConstTarget { int operator()(int x) const { return target_result(self_id, 2, x); } } const const_target_object;
	template<> struct F<ptl::function_ref<int(int)>> {
		using T = ptl::function_ref<int(int)>;
		static void construct(void * q, const Call & c) { switch(c.alt) { case 0: new(q) T(&free_target); break; case 1: new(q) T(target_object); break; default: new(q) T(const_target_object); } }
		static void mutate(T & t, const T &, Call & c) { switch(c.alt) { case 0: t = T(&free_target); break; case 1: t = T(target_object); break; default: t = T(const_target_object); } }
		static int read(const T & t, int * out, int max) { int n{0}; T u{t}; out_put(out, max, n, u(1)); out_put(out, max, n, u(10)); return n; }
	};
}
#include "peek.hpp"
namespace {
	template<typename T> constexpr bool comparable{true};
	template<> constexpr bool comparable<ptl::function_ref<int(int)>>{false};
	template<> constexpr bool comparable<ptl::optional_ref<int>>{false};
	template<> constexpr bool comparable<ptl::vector<Rec>>{false};
	template<> constexpr bool comparable<ptl::variant<int, ptl::string, Rec, ptl::vector<int>>>{false};
	template<> constexpr bool comparable<ptl::variant_ref<int, Rec, const int>>{false};
	template<typename E> constexpr bool comparable<ptl::array_ref<E>>{false};

	template<typename T>
	int run(void * q, Call & c) {
		try {
			T & o{*static_cast<T *>(c.other)}; T & t{*static_cast<T *>(q)};
			switch(c.op) {
				case CONSTRUCT: F<T>::construct(q, c); break;
				case COPY_CTOR: new(q) T(static_cast<const T &>(o)); break;
				case MOVE_CTOR: new(q) T(std::move(o)); break;
				case COPY_ASSIGN: t = static_cast<const T &>(o); break;
				case MOVE_ASSIGN: t = std::move(o); break;
				case SWAP: { using std::swap; swap(t, o); break; }
				case MUTATE: F<T>::mutate(t, o, c); break;
				case COMPARE: if constexpr(comparable<T>) { const T & a{t}; const T & b{o}; c.out[0] = a == b; c.out[1] = a != b; } else c.out[0] = -1; break;
				case PEEK: { Dig d; Peek<T>::peek(d, t, o, c); d.out(c); break; }
				case OWN: { Dig d; Peek<T>::own(d, t, c, c.n, c.alt); d.out(c); break; }
				case MORE: Peek<T>::more(t, o, c); break;
				default: return OTHER;
			}
			return OK;
		} catch(const std::bad_alloc &) { return NO_MEMORY; } catch(const std::length_error &) { return TOO_LONG; } catch(const std::out_of_range &) { return OUT_OF_RANGE; } catch(...) { return OTHER; }
	}
	template<typename T> constexpr Type type(int i) { return Type{descs[i].name, sizeof(T), alignof(T), &run<T>, [](const void * q, int * out, int max) { return F<T>::read(*static_cast<const T *>(q), out, max); }, [](void * q) { static_cast<T *>(q)->~T(); }}; }
	const Type types[]{
		type<ptl::vector<int>>(0), type<ptl::vector<Rec>>(1), type<ptl::vector<ptl::string>>(2), type<ptl::vector<ptl::vector<int>>>(3), type<ptl::string>(4),
		type<ptl::optional<int>>(5), type<ptl::optional<ptl::string>>(6), type<ptl::optional<ptl::vector<int>>>(7), type<ptl::optional<char>>(8), type<ptl::variant<int, ptl::string, Rec, ptl::vector<int>>>(9), type<ptl::variant<char, double>>(10),
		type<ptl::array<int, 3>>(11), type<ptl::array<ptl::string, 2>>(12), type<Tup>(13), type<ptl::bitset<13>>(14), type<ptl::bitset<70>>(15),
		type<ptl::string_ref>(16), type<ptl::array_ref<int>>(17), type<ptl::array_ref<const int>>(18), type<ptl::optional_ref<int>>(19), type<ptl::variant_ref<int, Rec, const int>>(20), type<ptl::function_ref<int(int)>>(21),
	};
	static_assert(sizeof types / sizeof *types == ntypes);
	const Api api{ntypes, types, [](const Host * h, int id) { host = h; self_id = id; }};
}
extern "C" __attribute__((visibility("default"))) const Api * ptl_sim_module() { return &api; }
