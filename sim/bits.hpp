// Worlds "bits<N>": three bitsets taken through histories of every operation, refused indices and failing sources, compared after each call with a sequence of single bits.
#pragma once
#include "core.hpp"
#include "elems.hpp"
#include <istream>
#include <ostream>
#include <streambuf>
#include <ptl/bitset.hpp>

namespace sim { struct OddTag; struct BoolTag; }
template<> constexpr bool ptl::enable_bitset_operator_bool<sim::BoolTag>{true};

namespace sim {
	// characters from the plan, delivered one by one or in one block; fails at the k-th request when the step says so
	struct BitSource final : std::streambuf {
		std::string text; Ctx & c; bool block;
		BitSource(Ctx & c, std::string t, bool block) : text{std::move(t)}, c{c}, block{block} {}
		std::size_t at{0};
		int_type underflow() override { ++c.elem_ops;
			if(gptr() < egptr()) return traits_type::to_int_type(*gptr());
			if(c.point(F_STREAM)) throw_fault(c, F_STREAM);
			if(at >= text.size()) return traits_type::eof();
			const std::size_t e{block ? text.size() : at + 1};
			setg(text.data() + at, text.data() + at, text.data() + e); at = e;
			return traits_type::to_int_type(*gptr());
		}
	};
	struct BitSink final : std::streambuf {
		std::string text; Ctx & c; explicit BitSink(Ctx & c) : c{c} { text.reserve(400); }
		int_type overflow(int_type ch) override { ++c.elem_ops; if(c.point(F_STREAM)) throw_fault(c, F_STREAM); if(!traits_type::eq_int_type(ch, traits_type::eof())) text += traits_type::to_char_type(ch); return 1; }
	};

	template<std::size_t N, typename Tag = ptl::bitset_default_tag>
	struct Bits final : World {
		using B = ptl::bitset<N, Tag>; using M = std::vector<bool>;
		static constexpr u32 NS{3};
		Slot<B> sl[NS]; M mo[NS];
		enum Op : u32 { CTOR_DEFAULT, CTOR_VALUE, CTOR_COPY, ASSIGN, SET_ALL, RESET_ALL, FLIP_ALL, SET, SET_VALUE, RESET, FLIP, INDEX_WRITE, INDEX_FLIP, INDEX_COPY, INDEX_SWAP, AND, OR, XOR, AND2, OR2, XOR2, NOT, SHL, SHR, SHL2, SHR2, SWAP_MEMBER, SWAP_FRIEND, QUERY, TEST, COMPARE, COMPARE_ONE, HASH, GET, REFUSED, EXTRACT, INSERT, SELF, ROUNDTRIP, NOPS };
		static const OpInfo * ops() {
			static const OpInfo o[]{{"ctor_default",2},{"ctor_value",6},{"ctor_copy",4},{"assign",4},{"set_all",4},{"reset_all",2},{"flip_all",5},{"set",5},{"set_value",5},{"reset",5},{"flip",5},{"index_write",4},{"index_flip",3},{"index_copy",3},{"index_swap",3},{"and",3},{"or",3},{"xor",3},{"and_of",3},{"or_of",3},{"xor_of",3},{"not",4},{"shl",7},{"shr",7},{"shl_of",4},{"shr_of",4},{"swap_member",2},{"swap_friend",2},{"query",5},{"test",4},{"compare",4},{"compare_one",5},{"hash",4},{"get",2},{"refused",6},{"extract",6},{"insert",3},{"self",4},{"round_trip",3}};
			static_assert(sizeof o / sizeof *o == NOPS); return o;
		}
		explicit Bits(Ctx & c, const Plan & p) {
			for(u32 i{0}; i < NS; ++i) { sl[i].p = Slot<B>::raw(c); new(static_cast<void *>(sl[i].p)) B(); mo[i].assign(N, false); const u32 density{p.cfg[i] % 5}; for(std::size_t k{0}; k < N; ++k) if((mix(p.cfg[3], k * 3 + i) & 3) < density) { sl[i]->set(k); mo[i][k] = true; } }
		}
		static u32 popcount(const M & m) { u32 n{0}; for(bool b : m) n += b; return n; }
		u32 abs_state() const override { u32 r{0}; for(u32 i{0}; i < NS; ++i) { const u32 n{popcount(mo[i])}; r = r * 8 + (n == 0 ? 0 : n == N ? 1 : n * 2 < N ? 2 : 3) + (N && mo[i][N ? N - 1 : 0] ? 4 : 0); } return r; }
		static bool bit_of(const B & b, std::size_t k) { return b[k]; }
		// the same bits set one at a time in a fresh object
		static B plain(const M & m) { B b; for(std::size_t k{0}; k < N; ++k) if(m[k]) b.set(k); return b; }
		void check(Ctx & c) {
			for(u32 i{0}; i < NS; ++i) {
				const B & b{*sl[i]};
				for(std::size_t k{0}; k < N; ++k) { const bool g{bit_of(b, k)}; c.log(g); if(g != mo[i][k]) { violate(VALUE, "bit %zu of bitset %u is %d, expected %d (after %s)", k, i, g, !g, c.opname); abandon_run(); } }
				const u32 n{popcount(mo[i])};
				if(b.count() != n) { violate(VALUE, "bitset %u counts %zu set bits, %u of its %zu bits are set (after %s)", i, b.count(), n, N, c.opname); abandon_run(); }
				if(b.any() != (n != 0) || b.none() != (n == 0) || b.all() != (n == N)) { violate(VALUE, "any/none/all are %d/%d/%d with %u of %zu bits set (after %s)", b.any(), b.none(), b.all(), n, N, c.opname); abandon_run(); }
				if(b.size() != N || b.max_size() != N || b.empty() != (N == 0)) violate(VALUE, "the size of the bitset is wrong");
				const B q{plain(mo[i])};
				if(!(b == q) || b != q || !(q == b) || q != b || std::hash<B>{}(b) != std::hash<B>{}(q)) { violate(VALUE, "bitset %u differs from a fresh one with the same bits (after %s)", i, c.opname); abandon_run(); }
				if constexpr(std::is_same_v<Tag, BoolTag>) if(static_cast<bool>(b) != (n != 0) || !b != (n == 0)) violate(VALUE, "conversion to bool is wrong with %u bits set", n);
			}
		}
		static std::size_t amount(u32 raw, u32 x) { switch(raw % 16) { case 0: return 0; case 1: return 1; case 2: return N; case 3: return N + 1; case 4: return N ? N - 1 : 0; case 5: return 8 * (x % 5); case 6: return 7; case 7: return 256 + x % 9; case 8: return ~std::size_t{0} - x % 3; case 9: return (std::size_t{1} << 32) + x % 5; case 10: return (std::size_t{1} << 63) + x % 5; case 11: return 1024 + x % (N + 1); default: return x % (N + 3); } }
		static std::size_t bad_index(u32 raw, u32 x) { switch(raw % 6) { case 0: return N; case 1: return N + 1 + x % 9; case 2: return ~std::size_t{0} - x % 9; case 3: return (std::size_t{1} << 32) + x % (N + 1); case 4: return (N + 7) / 8 * 8 + x % 8; default: return (std::size_t{1} << (3 + x % 60)) + N; } }
		static M shifted(const M & m, std::size_t d, bool left) { M t(N, false); for(std::size_t k{0}; k < N; ++k) if(left) { if(k >= d) t[k] = m[k - d]; } else if(d < N && k < N - d) t[k] = m[k + d]; return t; }
		template<std::size_t... I> static bool all_get(const B & b, const M & m, std::index_sequence<I...>) { using std::get; return ((get<I>(b) == m[I]) && ...); }
		u32 steps{0};
		void step(Ctx & c, const Step & s) override { Off off{c}; if(N >= 1000 && ++steps > 8) return; impl(c, s); if(N < 1000 || steps % 2 == 0) check(c); } // large ones take a few steps only
		void impl(Ctx & c, const Step & s) {
			const u32 i{s.a[0] % NS}, j{s.a[1] % NS}, k{s.a[2] % NS}; Slot<B> & S{sl[i]}; B & b{*S}; const B & cb{b}, & o{*sl[j]}, & p{*sl[k]}; M & m{mo[i]};
			const std::size_t n{N ? s.a[3] % (N ? N : 1) : 0}, n2{N ? s.a[4] % (N ? N : 1) : 0}, da{amount(s.a[3], s.a[4])}, d{N >= 1000 && da < N ? da % 40 : da}; const bool v{s.a[5] % 2 != 0}; Result r{Out::ok}; Out want{Out::ok};
			if(c.trace) c.note("    b%u b%u b%u bits %zu %zu amount %zu value %d", i, j, k, n, n2, d, v);
			const auto ret{[&](const B & x) { if(&x != &b) violate(VALUE, "%s returned another object", c.opname); }};
			switch(s.op) {
				case CTOR_DEFAULT: r = S.build(c, [&](void * q) { if(v) new(q) B(); else new(q) B{}; }); m.assign(N, false); break;
				case CTOR_VALUE: { std::size_t x{s.a[3] % 3 == 0 ? ~std::size_t{0} >> (s.a[4] % 64) : s.a[3] % 3 == 1 ? static_cast<std::size_t>(mix(s.a[3], s.a[4])) : std::size_t{1} << (s.a[4] % 64)}; r = S.build(c, [&](void * q) { new(q) B(x); }); for(std::size_t y{0}; y < N; ++y) m[y] = y < 64 && (x >> y) & 1; break; }
				case CTOR_COPY: { const M t{mo[j]}; r = S.build(c, [&](void * q) { if(v) new(q) B(o); else new(q) B(std::move(*sl[j])); }); m = t; break; }
				case ASSIGN: { const M t{mo[j]}; r = sut(c, [&] { if(v) ret(b = o); else ret(b = std::move(*sl[j])); }); m = t; break; }
				case SET_ALL: r = sut(c, [&] { ret(b.set()); }); m.assign(N, true); break;
				case RESET_ALL: r = sut(c, [&] { ret(b.reset()); }); m.assign(N, false); break;
				case FLIP_ALL: r = sut(c, [&] { ret(b.flip()); }); m.flip(); break;
				case SET: if(N) { r = sut(c, [&] { ret(b.set(n)); }); m[n] = true; } break;
				case SET_VALUE: if(N) { r = sut(c, [&] { ret(b.set(n, v)); }); m[n] = v; } break;
				case RESET: if(N) { r = sut(c, [&] { ret(b.reset(n)); }); m[n] = false; } break;
				case FLIP: if(N) { r = sut(c, [&] { ret(b.flip(n)); }); m[n] = !m[n]; } break;
				case INDEX_WRITE: if(N) { r = sut(c, [&] { if(s.a[4] % 2) b[n] = v; else b.at(n) = v; }); m[n] = v; } break;
				case INDEX_FLIP: if(N) { bool x{false}; r = sut(c, [&] { x = ~b[n]; b[n].flip(); }); if(x == m[n]) violate(VALUE, "the complement of bit %zu is wrong", n); m[n] = !m[n]; } break;
				case INDEX_COPY: if(N) { r = sut(c, [&] { b[n] = (*sl[j])[n2]; }); const bool x{mo[j][n2]}; m[n] = x; } break;
				case INDEX_SWAP: if(N) { r = sut(c, [&] { swap(b[n], (*sl[j])[n2]); }); const bool x{mo[j][n2]}; mo[j][n2] = m[n]; m[n] = x; if(i == j && n == n2) m[n] = x; } break;
				case AND: { r = sut(c, [&] { ret(b &= o); }); const M t{mo[j]}; for(std::size_t x{0}; x < N; ++x) m[x] = m[x] && t[x]; break; }
				case OR: { r = sut(c, [&] { ret(b |= o); }); const M t{mo[j]}; for(std::size_t x{0}; x < N; ++x) m[x] = m[x] || t[x]; break; }
				case XOR: { r = sut(c, [&] { ret(b ^= o); }); const M t{mo[j]}; for(std::size_t x{0}; x < N; ++x) m[x] = m[x] != t[x]; break; }
				case AND2: { r = S.build(c, [&](void * q) { new(q) B(o & p); }); const M t{mo[j]}, u{mo[k]}; for(std::size_t x{0}; x < N; ++x) m[x] = t[x] && u[x]; break; }
				case OR2: { r = S.build(c, [&](void * q) { new(q) B(o | p); }); const M t{mo[j]}, u{mo[k]}; for(std::size_t x{0}; x < N; ++x) m[x] = t[x] || u[x]; break; }
				case XOR2: { r = sut(c, [&] { b = o ^ p; }); const M t{mo[j]}, u{mo[k]}; for(std::size_t x{0}; x < N; ++x) m[x] = t[x] != u[x]; break; }
				case NOT: { const M t{mo[j]}; r = S.build(c, [&](void * q) { if(v) new(q) B(~o); else new(q) B(~~~o); }); m = t; m.flip(); break; }
				case SHL: r = sut(c, [&] { ret(b <<= d); }); m = shifted(m, d, true); break;
				case SHR: r = sut(c, [&] { ret(b >>= d); }); m = shifted(m, d, false); break;
				case SHL2: { const M t{shifted(mo[j], d, true)}; r = S.build(c, [&](void * q) { new(q) B(o << d); }); m = t; break; }
				case SHR2: { const M t{shifted(mo[j], d, false)}; r = S.build(c, [&](void * q) { new(q) B(o >> d); }); m = t; break; }
				case SWAP_MEMBER: r = sut(c, [&] { b.swap(*sl[j]); }); if(i != j) std::swap(m, mo[j]); break;
				case SWAP_FRIEND: r = sut(c, [&] { using std::swap; swap(b, *sl[j]); }); if(i != j) std::swap(m, mo[j]); break;
				case QUERY: { std::size_t x[5]{}; r = sut(c, [&] { x[0] = cb.count(); x[1] = cb.all(); x[2] = cb.any(); x[3] = cb.none(); x[4] = B::size(); }); const u32 y{popcount(m)}; if(x[0] != y || x[1] != (y == N) || x[2] != (y != 0) || x[3] != (y == 0) || x[4] != N) violate(VALUE, "count/all/any/none are %zu/%zu/%zu/%zu with %u of %zu bits set", x[0], x[1], x[2], x[3], y, N); break; }
				case TEST: if(N) { bool x[4]{}; r = sut(c, [&] { x[0] = cb.test(n); x[1] = cb.at(n); x[2] = cb[n]; x[3] = b.at(n); }); for(bool y : x) if(y != m[n]) violate(VALUE, "bit %zu reads as %d", n, y); } break;
				case COMPARE: { bool e{false}, ne{false}; r = sut(c, [&] { e = cb == o; ne = cb != o; }); if(e != (m == mo[j]) || ne == e) violate(VALUE, "comparison gave == %d, != %d", e, ne); break; }
				case COMPARE_ONE: if(N) { M t{m}; t[n] = !t[n]; const B q{plain(t)}; bool e{true}, ne{false}; r = sut(c, [&] { e = cb == q || q == cb; ne = cb != q && q != cb; }); if(e || !ne) violate(VALUE, "bitsets that differ in bit %zu compare equal", n); } break;
				case HASH: { std::size_t x{0}, y{0}; r = sut(c, [&] { x = std::hash<B>{}(cb); y = std::hash<B>{}(o); }); if(m == mo[j] && x != y) violate(VALUE, "equal bitsets have different hashes"); break; }
				case GET: if constexpr(N != 0) { bool ok{true}; r = sut(c, [&] { ok = all_get(cb, m, std::make_index_sequence<(N < 70 ? N : 70)>{}); }); if(!ok || std::tuple_size<B>::value != N) violate(VALUE, "get disagrees with the bits"); } break;
				case REFUSED: { const std::size_t x{bad_index(s.a[3], s.a[4])}; if(x < N) break; want = Out::range; ++c.elem_ops; SIM_PROBE(bad_access);
					r = sut(c, [&] { switch(s.a[5] % 8) { case 0: b.set(x); break; case 1: b.set(x, false); break; case 2: b.reset(x); break; case 3: b.flip(x); break; case 4: static_cast<void>(cb.test(x)); break; case 5: static_cast<void>(cb.at(x)); break; case 6: if constexpr(N != 0) b.at(x) = true; else b.set(x, true); break; default: b.set(x, true); } }); break; }
				case EXTRACT: { // what is read is decided elsewhere: here the digits read and the old value are the only possibilities, and nothing else becomes visible
					std::string t; Rng g{mix(s.a[3], s.a[4])}; const u32 len{N >= 1000 ? g.below(40) : g.chance(1, 3) ? static_cast<u32>(N) : g.below(static_cast<u32>(N) + 12)}; for(u32 x{0}; x < len; ++x) t += static_cast<char>('0' + g.below(2)); if(g.chance(1, 4)) t += "2 x"[g.below(3)];
					M got; u32 taken{0}; { BitSource src{c, t, v}; std::istream is{&src}; if(s.a[5] % 3 == 0) is.exceptions(std::ios::badbit); r = sut(c, [&] { is >> b; }); got.assign(N, false); for(std::size_t x{0}; x < N; ++x) got[x] = bit_of(b, x); }
					if(r.out == Out::other || (r.out == Out::fault && r.fid == c.fault_id)) r = Result{Out::ok};
					bool ok{got == m}; std::size_t digits{0}; while(digits < t.size() && digits < N && (t[digits] == '0' || t[digits] == '1')) ++digits;
					for(std::size_t y{1}; !ok && y <= digits; ++y) { M w(N, false); for(std::size_t x{0}; x < y; ++x) w[y - 1 - x] = t[x] == '1'; ok = w == got; } (void)taken;
					if(!ok) violate(VALUE, "after extraction the bitset holds neither its old value nor the digits read"); m = got; break; }
				case INSERT: { std::string t; bool good{false}; { BitSink snk{c}; std::ostream os{&snk}; r = sut(c, [&] { os << cb; }); t = snk.text; good = os.good(); } if(good) { std::string w; for(std::size_t x{N}; x != 0; --x) w += m[x - 1] ? '1' : '0'; if(t != w) violate(VALUE, "written as %s, expected %s", t.c_str(), w.c_str()); } break; }
				case SELF: switch(s.a[4] % 8) {
					case 0: r = sut(c, [&] { ret(b &= b); }); break;
					case 1: r = sut(c, [&] { ret(b |= b); }); break;
					case 2: r = sut(c, [&] { ret(b ^= b); }); m.assign(N, false); break;
					case 3: r = sut(c, [&] { B & x{b}; b = x; }); break;
					case 4: r = sut(c, [&] { b.swap(b); }); break;
					case 5: r = sut(c, [&] { b = ~b; }); m.flip(); break;
					case 6: r = sut(c, [&] { b = b << d; }); m = shifted(m, d, true); break;
					default: r = sut(c, [&] { b = (b & o) | (b & ~o); }); break; } break;
				case ROUNDTRIP: { const u32 y{popcount(m)}; std::size_t x{0}; r = sut(c, [&] { B q{cb}; q.flip(); x = q.count() + (q & cb).count() * 1000 + ((q | cb).all() ? 0 : 500000) + ((q ^ cb) == B{}.set() ? 0 : 700000); }); if(x != N - y) violate(VALUE, "a bitset and its complement do not add up: %zu", x); break; }
			}
			if(want == Out::ok ? !r.ok() : !refused_with(c, r, want)) violate(VALUE, "%s gave %s, expected %s", c.opname, out_name[static_cast<int>(r.out)], out_name[static_cast<int>(want)]);
		}
		void finish(Ctx & c) override { for(auto & x : sl) x.destroy(c); }
		static World * make(Ctx & c, const Plan & p) { return new Bits(c, p); }
		static WorldKind kind(const char * name) { return WorldKind{name, ops(), NOPS, (1u << F_ALLOC) | (1u << F_OOM) | (1u << F_STREAM), &make}; }
	};
}
