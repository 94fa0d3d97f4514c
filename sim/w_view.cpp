// World: string_ref over owners in stable storage, against (owner, range); the other references are in view.hpp
#include "elems.hpp"
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#define VIEW_E Soft
#define VIEW_NAME "view"
#include "view.hpp"

namespace sim {
namespace {
	// ---------- characters ----------
	struct StrView final : World {
		using R = ptl::string_ref; using sv = std::string_view;
		static constexpr u32 NR{4}, NB{4};
		struct M { u32 owner{0}; std::size_t off{0}, len{0}; bool null{true}; };
		Slot<R> sl[NR]; M mo[NR];
		Slot<ptl::string> s1, s2; char * buf{nullptr}; static constexpr std::size_t BUF{19};
		const char * lit; std::size_t litlen; u32 salt;
		enum Op : u32 { CTOR_DEFAULT, CTOR_PTR_LEN, CTOR_VIEW, CTOR_CSTR, CTOR_LITERAL, CTOR_COPY, ASSIGN, ASSIGN_VIEW, SUBSTR1, SUBSTR2, REMOVE_PREFIX, REMOVE_SUFFIX, OWNER_WRITE, OWNER_SHUFFLE, OWNER_INPLACE, READ, AT, WALK, COMPARE, HASH, TO_VIEW, SELF_ASSIGN, NOPS };
		static const OpInfo * ops() { static const OpInfo o[]{{"ctor_default",2},{"ctor_ptr_len",6},{"ctor_view",6},{"ctor_cstr",3},{"ctor_literal",3},{"ctor_copy",4},{"assign",5},{"assign_view",4},{"substr1",5},{"substr2",6},{"remove_prefix",5},{"remove_suffix",5},{"owner_write",8},{"owner_shuffle",4},{"owner_inplace",6},{"read",4},{"at",5},{"walk",4},{"compare",5},{"hash",2},{"to_view",3},{"self_assign",1}}; static_assert(sizeof o / sizeof *o == NOPS); return o; }
		explicit StrView(Ctx & c, const Plan & p) : salt{p.cfg[3]} {
			using namespace ptl::literals;
			Track t{c};
			s1.p = Slot<ptl::string>::raw(c); new(static_cast<void *>(s1.p)) ptl::string(p.cfg[0] % 20 + 3, 'a'); for(std::size_t k{0}; k < s1->size(); ++k) (*s1)[k] = ch(k);
			s2.p = Slot<ptl::string>::raw(c); new(static_cast<void *>(s2.p)) ptl::string((p.cfg[1] % 40 + 30) * (p.cfg[2] % 8 == 0 ? 13 : 1), 'b'); s2->reserve(s2->size() + 20); for(std::size_t k{0}; k < s2->size(); ++k) (*s2)[k] = ch(k * 3);
			{ Off o{c}; buf = static_cast<char *>(std::malloc(BUF)); for(std::size_t k{0}; k < BUF; ++k) buf[k] = ch(k * 5); }
			const auto l{"lit\0eral\xff"_sr}; lit = l.data(); litlen = l.size(); if(litlen != 9) violate(VIEW, "a literal of 9 characters gave a reference to %zu", litlen);
			for(auto & x : sl) { x.p = Slot<R>::raw(c); new(static_cast<void *>(x.p)) R; }
		}
		char ch(std::size_t k) const { static const char pool[]{'a', 'b', '\0', 'z', '\x7f', '\x80', '\xff', 'a'}; return pool[(k * 7 + salt) % 8]; }
		const char * base(u32 o) const { return o == 0 ? s1->data() : o == 1 ? s2->data() : o == 2 ? buf : lit; }
		std::size_t size(u32 o) const { return o == 0 ? s1->size() : o == 1 ? s2->size() : o == 2 ? BUF : litlen; }
		char * mut(u32 o) { return o == 0 ? s1->data() : o == 1 ? s2->data() : buf; }
		sv want(const M & m) const { return m.null ? sv{} : sv{base(m.owner) + m.off, m.len}; }
		u32 abs_state() const override { u32 r{0}; for(const auto & m : mo) r = r * 6 + (m.null ? 0 : m.owner + 1 + (m.len == 0)); return r; }
		void check(Ctx & c) {
			for(u32 i{0}; i < NR; ++i) { const R & r{*sl[i]}; const sv w{want(mo[i])};
				if(r.data() != w.data() || r.size() != w.size() || r.empty() != w.empty()) { violate(VIEW, "reference %u designates %zu characters at offset %td, expected %zu at %zu (after %s)", i, r.size(), mo[i].null ? 0 : r.data() - base(mo[i].owner), w.size(), mo[i].off, c.opname); abandon_run(); }
				c.log(std::hash<sv>{}(w)); }
		}
		void step(Ctx & c, const Step & s) override {
			const u32 i{s.a[0] % NR}, j{s.a[1] % NR}; Slot<R> & S{sl[i]}; R & v{*S}; const R & cv{v}; const R & o{*sl[j]}; M & m{mo[i]}; Result r{Out::ok};
			const u32 ow{s.a[2] % NB}; const std::size_t off{s.a[3] % (size(ow) + 1)}, len{s.a[4] % (size(ow) - off + 1)};
			const std::size_t cut{s.a[3] % (mo[j].len + 1)}, cut2{s.a[4] % (mo[j].len - cut + 1)};
			const std::size_t n{m.len}; const std::size_t k{n ? s.a[3] % n : 0};
			switch(s.op) {
				case CTOR_DEFAULT: r = S.build(c, [&](void * q) { new(q) R; }); if(r.ok()) m = {}; break;
				case CTOR_PTR_LEN: r = S.build(c, [&](void * q) { new(q) R(base(ow) + off, len); }); if(r.ok()) m = {ow, off, len, false}; break;
				case CTOR_VIEW: r = S.build(c, [&](void * q) { if(s.a[5] % 2 && ow < 2) new(q) R(static_cast<sv>(ow ? *s2 : *s1)); else new(q) R(sv{base(ow) + off, len}); }); if(r.ok()) m = s.a[5] % 2 && ow < 2 ? M{ow, 0, size(ow), false} : M{ow, off, len, false}; break;
				case CTOR_CSTR: { const u32 w{ow % 2}; r = S.build(c, [&](void * q) { new(q) R(base(w) + (off < size(w) ? off : 0)); }); const std::size_t f{off < size(w) ? off : 0}; if(r.ok()) m = {w, f, std::strlen(base(w) + f), false}; break; }
				case CTOR_LITERAL: { using namespace ptl::literals; const char * p{nullptr}; std::size_t z[4]{}; r = sut(c, [&] { const auto a{"x\0y"_sr}; p = a.data(); z[0] = a.size(); z[1] = ""_sr.size(); z[2] = "abc"_sr.size(); z[3] = "\0"_sr.size(); }); if(r.ok() && (z[0] != 3 || z[1] != 0 || z[2] != 3 || z[3] != 1 || std::memcmp(p, "x\0y", 3))) violate(VIEW, "a literal does not designate all its characters"); break; }
				case CTOR_COPY: r = S.build(c, [&](void * q) { new(q) R(o); }); if(r.ok()) m = M{mo[j]}; break;
				case ASSIGN: r = sut(c, [&] { v = o; }); if(r.ok()) m = M{mo[j]}; break;
				case ASSIGN_VIEW: r = sut(c, [&] { v = sv{base(ow) + off, len}; }); if(r.ok()) m = {ow, off, len, false}; break;
				case SUBSTR1: { r = sut(c, [&] { v = o.substr(cut); }); const M t{mo[j]}; if(r.ok()) m = {t.owner, t.off + cut, t.len - cut, t.null}; break; }
				case SUBSTR2: { r = sut(c, [&] { v = o.substr(cut, cut2); }); const M t{mo[j]}; if(r.ok()) m = {t.owner, t.off + cut, cut2, t.null}; break; }
				case REMOVE_PREFIX: { const std::size_t x{s.a[3] % (n + 1)}; r = sut(c, [&] { v.remove_prefix(x); }); if(r.ok()) { m.off += x; m.len -= x; } break; }
				case REMOVE_SUFFIX: { const std::size_t x{s.a[3] % (n + 1)}; r = sut(c, [&] { v.remove_suffix(x); }); if(r.ok()) m.len -= x; break; }
				case OWNER_WRITE: { const u32 w{ow % 3}; if(off < size(w)) { mut(w)[off] = ch(s.a[4]); SIM_PROBE(view_sees_write); } break; }
				case OWNER_SHUFFLE: { const u32 w{ow % 3}; std::reverse(mut(w), mut(w) + size(w)); SIM_PROBE(view_sees_write); break; }
				case OWNER_INPLACE: { // the owner changes its contents without moving them
					Off of{c}; const std::size_t z{s2->size()}; const char * const d{s2->data()}; const std::size_t at{s.a[3] % z}; const std::string before(d, z);
					{ Track t{c}; s2->erase(s2->begin() + static_cast<std::ptrdiff_t>(at)); s2->insert(s2->begin() + static_cast<std::ptrdiff_t>(s.a[4] % z), ch(s.a[5])); }
					if(s2->data() != d || s2->size() != z) abandon_run(); SIM_PROBE(view_sees_write); break; }
				case READ: if(!n) break; { bool ok{true}; const sv w{want(m)}; r = sut(c, [&] { ok = &cv[k] == w.data() + k && &cv.front() == w.data() && &cv.back() == w.data() + n - 1 && cv[k] == w[k]; }); if(r.ok() && !ok) violate(VIEW, "access through reference %u designates another character", i); } break;
				case AT: { const std::size_t x{s.a[4] % 3 == 0 ? n + s.a[5] % 3 : s.a[4] % 7 == 1 ? ~std::size_t{0} - s.a[5] % 3 : k}; const char * w{nullptr}; r = sut(c, [&] { w = &cv.at(x); }); if(x < n) { if(r.ok() && w != want(m).data() + x) violate(VIEW, "at(%zu) designates another character", x); } else { SIM_PROBE(bad_access); if(!refused_with(c, r, Out::range)) violate(VIEW, "at(%zu) of %zu characters gave %s", x, n, out_name[static_cast<int>(r.out)]); r = {Out::ok}; } break; }
				case WALK: { const sv w{want(m)}; bool ok{true}; const char * bad{nullptr}; if(r = sut(c, [&] { bad = iter_all(v, s.a[3] % (n + 1), s.a[4] % (n + 1)); }); r.ok() && bad) violate(VIEW, "iterators: %s is wrong", bad); r = sut(c, [&] { std::size_t x{0}; for(const char & e : cv) { ok &= x < n && &e == w.data() + x; ++x; } ok &= x == n; for(auto it{cv.rbegin()}; it != cv.rend(); ++it) { ok &= x && &*it == w.data() + x - 1; --x; } ok &= x == 0 && static_cast<std::size_t>(cv.cend() - cv.cbegin()) == n && static_cast<std::size_t>(cv.crend() - cv.crbegin()) == n; }); if(r.ok() && !ok) violate(VIEW, "iteration does not meet every character once"); break; }
				case COMPARE: if(s.a[5] % 3 == 0) { // against a copy of the same characters elsewhere, in which at most one differs
					std::string copy{want(m)}; if(n && s.a[5] % 2) copy[k] = ch(s.a[4]); if(s.a[4] % 5 == 0) copy.resize(n - (n ? s.a[3] % 2 : 0)); const R b{copy.data(), copy.size()}; int x[5]{};
					r = sut(c, [&] { x[0] = cv == b; x[1] = b != cv; x[2] = cv < b; x[3] = b <= cv; x[4] = std::hash<R>{}(cv) == std::hash<R>{}(b); });
					const sv a{want(m)}; if(r.ok() && (x[0] != (a == sv{copy}) || x[1] != (a != sv{copy}) || x[2] != (a < sv{copy}) || x[3] != (sv{copy} <= a) || (x[0] && !x[4]))) violate(VALUE, "comparison of %zu characters with a copy disagrees with the characters", n); break; }
					else { int x[6]{}; r = sut(c, [&] { x[0] = cv == o; x[1] = cv != o; x[2] = cv < o; x[3] = cv > o; x[4] = cv <= o; x[5] = cv >= o; }); const sv a{want(m)}, b{want(mo[j])}; const int w[]{a == b, a != b, a < b, a > b, a <= b, a >= b}; for(int q{0}; q < 6; ++q) if(r.ok() && x[q] != w[q]) { violate(VALUE, "comparison %d disagrees with the characters", q); break; } break; }
				case HASH: { std::size_t h{0}; r = sut(c, [&] { h = std::hash<R>{}(cv); }); if(r.ok() && h != std::hash<sv>{}(want(m))) violate(VALUE, "hash disagrees with the characters"); break; }
				case TO_VIEW: { sv x; r = sut(c, [&] { x = cv; }); if(r.ok() && (x.data() != want(m).data() || x.size() != n)) violate(VIEW, "conversion to a view designates other characters"); break; }
				default: r = sut(c, [&] { v = cv; }); break;
			}
			if(!r.ok()) violate(VALUE, "%s failed with %s", c.opname, out_name[static_cast<int>(r.out)]);
			check(c);
		}
		void finish(Ctx & c) override { for(auto & x : sl) x.destroy(c); s1.destroy(c); s2.destroy(c); Off o{c}; std::free(buf); }
		static World * make(Ctx & c, const Plan & p) { return new StrView(c, p); }
	};
	static RegisterWorld r1{WorldKind{"view_string", StrView::ops(), StrView::NOPS, VIEWFAULTS, &StrView::make}};
}
}
