// Worlds "view_bits<N>": references to single bits of two bitsets, used while the bitsets themselves change.
#include "core.hpp"
#include "elems.hpp"
#include <istream>
#include <ostream>
#include <ptl/bitset.hpp>

namespace sim {
	template<std::size_t N>
	struct BitView final : World {
		using B = ptl::bitset<N>; using R = typename B::reference;
		static constexpr u32 NR{3};
		Slot<B> b[2]; bool m[2][N]{}; Slot<R> ref[NR]; struct At { u32 o, k; } at[NR]{};
		enum Op : u32 { BIND, BIND_AT, BIND_COPY, READ, READ_NOT, WRITE, WRITE_REF, FLIP, SWAP_MEMBER, SWAP_FRIEND, CHAIN, OWNER_SET, OWNER_ALL, OWNER_ASSIGN, OWNER_SWAP, OWNER_SHIFT, OUT_OF_RANGE, NOPS };
		static const OpInfo * ops() { static const OpInfo o[]{{"bind",8},{"bind_at",4},{"bind_copy",4},{"read",6},{"read_not",3},{"write",7},{"write_ref",7},{"flip",5},{"swap_member",4},{"swap_friend",4},{"chain",3},{"owner_set",6},{"owner_all",4},{"owner_assign",3},{"owner_swap",3},{"owner_shift",2},{"out_of_range",2}}; static_assert(sizeof o / sizeof *o == NOPS); return o; }
		explicit BitView(Ctx & c, const Plan & p) {
			for(u32 o{0}; o < 2; ++o) { b[o].p = Slot<B>::raw(c); new(static_cast<void *>(b[o].p)) B(); for(std::size_t k{0}; k < N; ++k) { m[o][k] = (mix(p.cfg[o], k) & 3) < p.cfg[2] % 4; if(m[o][k]) b[o]->set(k); } }
			for(u32 i{0}; i < NR; ++i) { ref[i].p = Slot<R>::raw(c); new(static_cast<void *>(ref[i].p)) R((*b[0])[0]); }
		}
		u32 abs_state() const override { u32 r{0}; for(u32 i{0}; i < NR; ++i) r = r * 8 + at[i].o * 4 + (at[i].k == 0 ? 0 : at[i].k == N - 1 ? 1 : at[i].k % 8 == 0 ? 2 : 3); return r; }
		void check(Ctx & c) {
			for(u32 o{0}; o < 2; ++o) for(std::size_t k{0}; k < N; ++k) { const bool g{static_cast<const B &>(*b[o])[k]}; c.log(g); if(g != m[o][k]) { violate(VIEW, "bit %zu of bitset %u is %d, expected %d (after %s)", k, o, g, m[o][k], c.opname); abandon_run(); } }
			for(u32 i{0}; i < NR; ++i) { const R & r{*ref[i]}; const bool g{r}; if(g != m[at[i].o][at[i].k]) { violate(VIEW, "reference %u shows %d, bit %u of bitset %u is %d (after %s)", i, g, at[i].k, at[i].o, m[at[i].o][at[i].k], c.opname); abandon_run(); } }
		}
		bool & bitof(u32 i) { return m[at[i].o][at[i].k]; }
		void step(Ctx & c, const Step & s) override {
			const u32 i{s.a[0] % NR}, j{s.a[1] % NR}, o{s.a[2] % 2}, k{s.a[3] % static_cast<u32>(N)}; const bool v{s.a[4] % 2 != 0}; Result r{Out::ok}; R & x{*ref[i]}; R & y{*ref[j]}; Out want{Out::ok};
			if(c.trace) c.note("    r%u=%u[%u] r%u=%u[%u] owner %u bit %u value %d", i, at[i].o, at[i].k, j, at[j].o, at[j].k, o, k, v);
			switch(s.op) {
				case BIND: r = ref[i].build(c, [&](void * q) { new(q) R((*b[o])[k]); }); at[i] = {o, k}; break;
				case BIND_AT: r = ref[i].build(c, [&](void * q) { new(q) R(b[o]->at(k)); }); at[i] = {o, k}; break;
				case BIND_COPY: if(i != j) { r = ref[i].build(c, [&](void * q) { new(q) R(static_cast<const R &>(y)); }); at[i] = At{at[j]}; } break;
				case READ: { bool g{false}; r = sut(c, [&] { g = v ? static_cast<bool>(x) : static_cast<bool>((*b[at[i].o])[at[i].k]); }); if(g != bitof(i)) violate(VIEW, "reading a bit through a reference gave %d", g); break; }
				case READ_NOT: { bool g{false}; r = sut(c, [&] { g = ~x; }); if(g == bitof(i)) violate(VIEW, "the complement of a bit read through a reference is %d", g); break; }
				case WRITE: r = sut(c, [&] { if(&(x = v) != &x) violate(VIEW, "assignment returned another reference"); }); bitof(i) = v; break;
				case WRITE_REF: { const bool w{bitof(j)}; r = sut(c, [&] { if(&(x = static_cast<const R &>(y)) != &x) violate(VIEW, "assignment returned another reference"); }); bitof(i) = w; break; }
				case FLIP: r = sut(c, [&] { if(&x.flip() != &x) violate(VIEW, "flip returned another reference"); }); bitof(i) = !bitof(i); break;
				case SWAP_MEMBER: r = sut(c, [&] { x.swap(y); }); std::swap(bitof(i), bitof(j)); break;
				case SWAP_FRIEND: r = sut(c, [&] { if(v) swap(x, y); else swap((*b[at[i].o])[at[i].k], (*b[at[j].o])[at[j].k]); }); std::swap(bitof(i), bitof(j)); break;
				case CHAIN: { const bool w{bitof(j)}; r = sut(c, [&] { (*b[o])[k] = (*b[at[i].o])[at[i].k] = static_cast<const R &>(y); }); bitof(i) = w; m[o][k] = w; break; }
				case OWNER_SET: r = sut(c, [&] { if(v) b[o]->set(k); else b[o]->reset(k); }); m[o][k] = v; break;
				case OWNER_ALL: r = sut(c, [&] { switch(s.a[4] % 3) { case 0: b[o]->set(); break; case 1: b[o]->reset(); break; default: b[o]->flip(); } }); for(auto & e : m[o]) e = s.a[4] % 3 == 0 ? true : s.a[4] % 3 == 1 ? false : !e; break;
				case OWNER_ASSIGN: r = sut(c, [&] { *b[o] = *b[1 - o]; }); for(std::size_t n{0}; n < N; ++n) m[o][n] = m[1 - o][n]; break;
				case OWNER_SWAP: r = sut(c, [&] { b[o]->swap(*b[1 - o]); }); for(std::size_t n{0}; n < N; ++n) std::swap(m[0][n], m[1][n]); break;
				case OWNER_SHIFT: { bool t[N]{}; const std::size_t d{s.a[5] % 3}; for(std::size_t n{0}; n < N; ++n) { if(v) { if(n >= d) t[n] = m[o][n - d]; } else if(n + d < N) t[n] = m[o][n + d]; } r = sut(c, [&] { if(v) *b[o] <<= d; else *b[o] >>= d; }); for(std::size_t n{0}; n < N; ++n) m[o][n] = t[n]; break; }
				case OUT_OF_RANGE: { const std::size_t n{v ? N + s.a[5] % 9 : ~std::size_t{0} - s.a[5] % 3}; want = Out::range; r = sut(c, [&] { if(s.a[3] % 2) { R q{b[o]->at(n)}; (void)q; } else static_cast<void>(static_cast<const B &>(*b[o]).at(n)); }); SIM_PROBE(bad_access); break; }
			}
			if(want == Out::ok ? !r.ok() : !refused_with(c, r, want)) violate(VIEW, "%s gave %s, expected %s", c.opname, out_name[static_cast<int>(r.out)], out_name[static_cast<int>(want)]);
			check(c);
		}
		void finish(Ctx & c) override { for(auto & x : ref) x.destroy(c); for(auto & x : b) x.destroy(c); }
		static World * make(Ctx & c, const Plan & p) { return new BitView(c, p); }
		static WorldKind kind(const char * name) { return WorldKind{name, ops(), NOPS, (1u << F_ALLOC) | (1u << F_OOM), &make}; }
	};
	static RegisterWorld r1{BitView<1>::kind("view_bits<1>")}, r9{BitView<9>::kind("view_bits<9>")}, r70{BitView<70>::kind("view_bits<70>")};
}
