// World: several ptl::string objects, compared after every call with plain character sequences.
#include "elems.hpp"
#include <iostream>
#include <ptl/string.hpp>

namespace sim {
	namespace {
	struct StrWorld final : World {
		using S = ptl::string; using M = std::string; using sv = std::string_view;
		static constexpr u32 NS{3};
		Slot<S> sl[NS]; M mo[NS];
		u32 ctr{1}, scale{1};

		enum Op : u32 { CTOR_DEFAULT, CTOR_COPY, CTOR_MOVE, CTOR_SV, CTOR_COUNT, CTOR_ILIST, CTOR_FWD, CTOR_RND, CTOR_INPUT, CTOR_LITERAL, CTOR_RANGE,
			COPY_ASSIGN, MOVE_ASSIGN, OPASSIGN_SV, OPASSIGN_ILIST, ASSIGN_SV, ASSIGN_ILIST, ASSIGN_COUNT, ASSIGN_FWD, ASSIGN_RND, ASSIGN_INPUT,
			ADD_SV, ADD_ILIST, ADD_CHAR, ADD_STR, PLUS_SV_S, PLUS_S_SV, PLUS_C_S, PLUS_S_C, PLUS_S_S,
			APPEND_SV, APPEND_ILIST, APPEND_COUNT, APPEND_FWD, APPEND_RND, APPEND_INPUT, PUSH_BACK, POP_BACK,
			INSERT_SV, INSERT_ILIST, INSERT_CHAR, INSERT_COUNT, INSERT_FWD, INSERT_RND, INSERT_INPUT,
			REPLACE_SV, REPLACE_ILIST, REPLACE_COUNT, REPLACE_FWD, REPLACE_RND, REPLACE_INPUT,
			ERASE_ONE, ERASE_RANGE, CLEAR, RESIZE, RESIZE_CH, RESERVE, SHRINK, SWAP_MEMBER, SWAP_FRIEND, AT, AT_WRITE, INDEX_WRITE, ITER_WRITE,
			SUBSTR1, SUBSTR2, SUBSTR1_RV, SUBSTR2_RV, COMPARE, WALK, HASH,
			SELF_ADD, SELF_APPEND, SELF_APPEND_SV, SELF_OPASSIGN_SV, SELF_ASSIGN, SELF_INSERT, SELF_INSERT_SV, SELF_REPLACE, SELF_REPLACE_SV, SELF_CHAR,
			HUGE_CTOR, HUGE_CTOR_RANGE, HUGE_RESIZE, HUGE_RESERVE, HUGE_ASSIGN, HUGE_APPEND, HUGE_INSERT, HUGE_REPLACE, HUGE_ASSIGN_RANGE, HUGE_APPEND_RANGE, HUGE_INSERT_RANGE, HUGE_REPLACE_RANGE, NOPS };
		static const OpInfo * ops() {
			static const OpInfo o[]{{"ctor_default",2},{"ctor_copy",4},{"ctor_move",3},{"ctor_sv",4},{"ctor_count",3},{"ctor_ilist",2},{"ctor_fwd",3},{"ctor_rnd",2},{"ctor_input",3},{"ctor_literal",3},{"ctor_range",2},
				{"copy_assign",6},{"move_assign",5},{"opassign_sv",4},{"opassign_ilist",2},{"assign_sv",4},{"assign_ilist",3},{"assign_count",5},{"assign_fwd",5},{"assign_rnd",3},{"assign_input",4},
				{"add_sv",5},{"add_ilist",3},{"add_char",6},{"add_str",5},{"plus_sv_s",3},{"plus_s_sv",3},{"plus_c_s",3},{"plus_s_c",3},{"plus_s_s",3},
				{"append_sv",5},{"append_ilist",4},{"append_count",6},{"append_fwd",6},{"append_rnd",4},{"append_input",4},{"push_back",10},{"pop_back",5},
				{"insert_sv",5},{"insert_ilist",4},{"insert_char",5},{"insert_count",6},{"insert_fwd",6},{"insert_rnd",4},{"insert_input",4},
				{"replace_sv",6},{"replace_ilist",4},{"replace_count",6},{"replace_fwd",6},{"replace_rnd",4},{"replace_input",4},
				{"erase_one",5},{"erase_range",6},{"clear",2},{"resize",5},{"resize_ch",5},{"reserve",6},{"shrink_to_fit",5},{"swap_member",4},{"swap_friend",3},{"at",3},{"at_write",2},{"index_write",2},{"iter_write",2},
				{"substr1",3},{"substr2",3},{"substr1_rv",3},{"substr2_rv",3},{"compare",3},{"walk",3},{"hash",1},
				{"self_add",4},{"self_append",4},{"self_append_sv",4},{"self_opassign_sv",4},{"self_assign",4},{"self_insert",4},{"self_insert_sv",4},{"self_replace",5},{"self_replace_sv",5},{"self_char",4},
				{"huge_ctor",1},{"huge_ctor_range",1},{"huge_resize",1},{"huge_reserve",1},{"huge_assign",1},{"huge_append",1},{"huge_insert",1},{"huge_replace",1},{"huge_assign_range",1},{"huge_append_range",1},{"huge_insert_range",1},{"huge_replace_range",1}};
			static_assert(sizeof o / sizeof *o == NOPS);
			return o;
		}
		explicit StrWorld(Ctx & c, const Plan & p) : scale{p.cfg[6] % 23 == 1 ? 10 : p.cfg[6] % 67 == 2 ? 300u : p.cfg[6] % 599 == 3 ? 1500u : 1u} {
			for(u32 i{0}; i < NS; ++i) {
				sl[i].p = Slot<S>::raw(c);
				Track t{c};
				new(static_cast<void *>(sl[i].p)) S;
				const u32 k{p.cfg[i] % 5}, n{p.cfg[i + 3] % 90 * scale};
				const u32 len{k == 0 ? 0 : k == 1 ? 20 + n % 5 : k == 2 ? 45 + n % 6 : n};
				for(u32 x{0}; x < len; ++x) { const char ch{chr(p.cfg[i] + x)}; sl[i]->push_back(ch); Off o{c}; mo[i].push_back(ch); }
				if(p.cfg[i + 3] % 7 == 0) sl[i]->reserve(len + n);
			}
		}
		static char chr(u32 raw) { return raw % 11 == 0 ? '\0' : raw % 13 == 0 ? static_cast<char>(0xff) : static_cast<char>(33 + raw % 90); }
		M text(Ctx & c, std::size_t n) { Off o{c}; M r; for(std::size_t i{0}; i < n; ++i) r.push_back(chr(ctr++ * 7 + static_cast<u32>(i))); return r; }
		u32 abs_state() const override { u32 r{0}; for(u32 i{0}; i < NS; ++i) { const auto n{mo[i].size()}; const auto cap{sl[i].p ? sl[i]->capacity() : 0}; r = r * 7 + (cap < 30 ? n == 0 ? 0u : n == cap ? 1u : 2u : n == 0 ? 3u : n == cap ? 4u : n <= 22 ? 5u : 6u); } return r; }
		std::size_t count_near(u32 raw, std::size_t size, std::size_t cap) { const std::size_t room{cap - size}; switch(raw % 9) { case 0: return room; case 1: return room + 1; case 2: return room ? room - 1 : 0; case 3: return 0; case 4: case 5: return 1 + (raw / 9) % 4; default: return (raw / 9) % (70 * scale); } }
		std::size_t size_near(u32 raw, std::size_t size, std::size_t cap) { switch(raw % 11) { case 0: return cap; case 1: return cap + 1; case 2: return cap - 1; case 3: return size; case 4: return size + 1; case 5: return size ? size - 1 : 0; case 6: return 22; case 7: return 23; default: return (raw / 11) % (110 * scale); } }
		static std::size_t huge(u32 raw, std::size_t size) {
			const std::size_t top{std::numeric_limits<std::size_t>::max()}, mx{S::max_size()};
			switch(raw % 15) { case 0: return mx; case 1: return mx + 1; case 2: return top; case 3: return top - size; case 4: return top - size + (size ? 1 : 0); case 5: return top / 2; case 6: return top / 2 + 2; case 7: return mx - 1; case 8: return memory_limit + 100; case 9: return top - 22; case 10: return top - 23; case 11: return top - 24; case 12: return mx - size; case 13: return mx - size + 1; default: return top - (raw >> 8) % 100; }
		}
		void check(Ctx & c, bool failed) {
			const Cls cls{failed ? ATOMIC : VALUE};
			for(u32 i{0}; i < NS; ++i) {
				const S & s{*sl[i]}; const M & m{mo[i]};
				if(s.size() > s.capacity()) { violate(FORM, "string %u: size %zu exceeds capacity %zu (after %s)", i, s.size(), s.capacity(), c.opname); abandon_run(); }
				if(s.data()[s.size()] != 0) { violate(FORM, "string %u of size %zu is not terminated (after %s)", i, s.size(), c.opname); }
				if(s.c_str() != s.data() || s.empty() != (s.size() == 0) || static_cast<std::size_t>(s.end() - s.begin()) != s.size() || (!s.empty() && (static_cast<sv>(s).data() != s.data() || static_cast<sv>(s).size() != s.size())) || (s.size() && &*s.begin() != s.data())) violate(FORM, "string %u: c_str/data/iterators/view disagree (after %s)", i, c.opname);
				if(s.size() != m.size()) { violate(cls, "string %u has %zu characters, expected %zu (after %s)", i, s.size(), m.size(), c.opname); abandon_run(); }
				for(std::size_t k{0}; k < m.size(); ++k) if(s.data()[k] != m[k]) { violate(cls, "string %u character %zu is 0x%02x, expected 0x%02x (after %s)", i, k, static_cast<unsigned char>(s.data()[k]), static_cast<unsigned char>(m[k]), c.opname); abandon_run(); }
				c.log(mix(s.size(), s.capacity())); for(char ch : m) c.log(static_cast<u8>(ch));
			}
		}
		static M read(const S & s) { M r; for(std::size_t i{0}; i < s.size(); ++i) r.push_back(s.data()[i]); return r; }
		void step(Ctx & c, const Step & s) override { Step t{s}; if(sl[s.a[0] % NS]->size() > (scale > 1000 ? 170000u : 60000u)) { t.op = CLEAR; c.rename("clear"); } const bool f{step_impl(c, t)}; check(c, f); }
		bool outcome(Ctx & c, const Result & r, bool over_limit, bool nofail) {
			if(r.ok()) return false;
			if(!legal_failure(c, r, over_limit)) violate(VALUE, "%s reported %s although nothing failed", c.opname, out_name[static_cast<int>(r.out)]);
			if(nofail) violate(NOFAIL, "%s failed (%s) although it needs no memory", c.opname, out_name[static_cast<int>(r.out)]);
			if(r.out == Out::alloc) SIM_PROBE(grow_refused); else if(r.out == Out::fault && r.fkind == F_ITER) SIM_PROBE(iter_throw_mid);
			return true;
		}
		template<typename T> struct Src { const char * b; const char * e; };
		bool step_impl(Ctx & c, const Step & s) {
			const u32 i{s.a[0] % NS}, j{s.a[1] % NS};
			Slot<S> & X{sl[i]}; S & v{*X}; M & m{mo[i]}; const S & cv{v}; const S & o{*sl[j]};
			const std::size_t size{v.size()}, cap{v.capacity()}; const char * const data0{v.data()};
			const std::size_t pos{(scale > 1000 && s.a[2] % 2 ? s.a[2] % 50 : s.a[2]) % (size + 1)}, idx{size ? s.a[2] % size : 0}, n{count_near(s.a[3], size, cap)};
			const std::size_t last{scale > 1000 && s.a[5] % 3 == 0 ? size : pos + s.a[5] % (size - pos + 1)};
			const u32 aux{s.a[4]}; const char ch{chr(s.a[4])};
			if(c.trace) c.note("    s%u size=%zu cap=%zu other=s%u pos=%zu..%zu n=%zu", i, size, cap, j, pos, last, n);
			if(s.fk == F_OOM) SIM_PROBE(op_under_oom);
			if(size == cap) SIM_PROBE(full_capacity_op);
			const auto promise{[&](const Result & r, std::size_t added) {
				if(added > cap - size) { if(r.ok()) { SIM_PROBE(grow); if(cap < 30) SIM_PROBE(sso_to_heap); } return; }
				SIM_PROBE(promise_checked); SIM_PROBE(in_place);
				if(r.out == Out::alloc || r.out == Out::length) violate(PROMISE, "%s failed with %s although size %zu + %zu fits the capacity %zu", c.opname, out_name[static_cast<int>(r.out)], size, added, cap);
				if(r.ok() && (sl[i]->data() != data0 || sl[i]->capacity() < cap)) violate(PROMISE, "%s relocated the characters or gave up capacity (%zu -> %zu) although size %zu + %zu fits", c.opname, cap, sl[i]->capacity(), size, added);
			}};
			const auto stays{[&] { if(sl[i]->data() != data0 || sl[i]->capacity() < cap) violate(PROMISE, "%s relocated the characters", c.opname); }};
			const auto at{[&](std::ptrdiff_t got, std::size_t want) { if(got != static_cast<std::ptrdiff_t>(want)) violate(VALUE, "%s returned position %td, expected %zu", c.opname, got, want); }};
			const auto me{[&](S & r) { if(&r != &v) violate(VALUE, "%s returned another object", c.opname); }};
			const auto cb{[&](std::size_t k) { return cv.begin() + static_cast<std::ptrdiff_t>(k); }};
			M src; Result r{Out::ok};
			struct Free { Ctx & c; M & m; ~Free() { Off of{c}; M{}.swap(m); } } fr{c, src};
			const auto fwd{[&](bool end) { return FwdIt<char>{src.data() + (end ? src.size() : 0)}; }};
			const auto rnd{[&](bool end) { return RndIt<char>{src.data() + (end ? src.size() : 0)}; }};
			const char * cu{nullptr}; const auto inp{[&](bool end) { if(!cu) cu = src.data(); return end ? InIt<char>{} : InIt<char>{&cu, src.data() + src.size()}; }};
			std::initializer_list<char> il0{}, il1{'q'}, il3{'x', '\0', 'z'}, il24{'a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','r','s','t','u','v','w','x'};
			const std::initializer_list<char> il = aux % 4 == 0 ? il0 : aux % 4 == 1 ? il1 : aux % 4 == 2 ? il3 : il24;
			switch(s.op) {
				case CTOR_DEFAULT: r = X.build(c, [&](void * q) { new(q) S; }); if(!outcome(c, r, false, true)) m.clear(); return !r.ok();
				case CTOR_COPY: r = X.build(c, [&](void * q) { copy_into(q, *sl[j], s.a[5]); }); if(!outcome(c, r, false, false)) { const M t{mo[j]}; m = t; } return !r.ok();
				case CTOR_MOVE: { if(i == j) { Slot<S> tmp; r = tmp.build(c, [&](void * q) { new(q) S(std::move(v)); }); if(!outcome(c, r, false, true)) { X.destroy(c); X.p = tmp.p; } return !r.ok(); }
					r = X.build(c, [&](void * q) { new(q) S(std::move(*sl[j])); }); if(!outcome(c, r, false, true)) { m = mo[j]; mo[j] = read(o); SIM_PROBE(moved_from_use); } return !r.ok(); }
				case CTOR_SV: src = text(c, size_near(s.a[3], size, cap)); r = X.build(c, [&](void * q) { new(q) S(sv{src}); }); if(!outcome(c, r, false, false)) m = src; return !r.ok();
				case CTOR_COUNT: { const auto k{size_near(s.a[3], size, cap)}; r = X.build(c, [&](void * q) { new(q) S(k, ch); }); if(!outcome(c, r, false, false)) m.assign(k, ch); return !r.ok(); }
				case CTOR_ILIST: r = X.build(c, [&](void * q) { new(q) S(il); }); if(!outcome(c, r, false, false)) m.assign(il); return !r.ok();
				case CTOR_FWD: src = text(c, size_near(s.a[3], size, cap)); r = X.build(c, [&](void * q) { new(q) S(fwd(false), fwd(true)); }); if(!outcome(c, r, false, false)) m = src; return !r.ok();
				case CTOR_RND: src = text(c, size_near(s.a[3], size, cap)); r = X.build(c, [&](void * q) { new(q) S(rnd(false), rnd(true)); }); if(!outcome(c, r, false, false)) m = src; return !r.ok();
				case CTOR_INPUT: src = text(c, size_near(s.a[3], size, cap)); r = X.build(c, [&](void * q) { new(q) S(inp(false), inp(true)); }); if(!outcome(c, r, false, false)) m = src; return !r.ok();
				case CTOR_LITERAL: { using namespace ptl::literals; const char * t{""}; std::size_t tn{0};
					r = X.build(c, [&](void * q) { switch(aux % 5) { case 0: new(q) S(""_s); break; case 1: t = "ab\0cd"; tn = 5; new(q) S("ab\0cd"_s); break; case 2: t = "just-twenty-two-chars!"; tn = 22; new(q) S("just-twenty-two-chars!"_s); break; case 3: t = "exactly-twenty-three-c!"; tn = 23; new(q) S("exactly-twenty-three-c!"_s); break; default: t = "a literal that is clearly longer than the short buffer of a string"; tn = std::strlen(t); new(q) S("a literal that is clearly longer than the short buffer of a string"_s); } });
					if(!outcome(c, r, false, false)) m.assign(t, tn); return !r.ok(); }
				case CTOR_RANGE: { const M t{mo[j]}; const std::size_t a{s.a[2] % (t.size() + 1)}, b{a + s.a[3] % (t.size() - a + 1)}; r = X.build(c, [&](void * q) { new(q) S(o.begin() + static_cast<std::ptrdiff_t>(a), o.begin() + static_cast<std::ptrdiff_t>(b)); }); if(!outcome(c, r, false, false)) m = t.substr(a, b - a); return !r.ok(); }
				case COPY_ASSIGN: if(i == j) c.rename("self_copy_assign"); r = sut(c, [&] { me(copy_onto(v, *sl[j], s.a[5])); }); if(!outcome(c, r, false, false)) { const M t{mo[j]}; m = t; } return !r.ok();
				case MOVE_ASSIGN: if(i == j) SIM_PROBE(self_move); r = sut(c, [&] { me(v = std::move(*sl[j])); }); if(!outcome(c, r, false, true) && i != j) { m = mo[j]; mo[j] = read(o); SIM_PROBE(moved_from_use); } return !r.ok();
				case OPASSIGN_SV: src = text(c, aux % 2 ? n : size_near(s.a[3], size, cap)); r = sut(c, [&] { me(v = sv{src}); }); if(!outcome(c, r, false, false)) m = src; return !r.ok();
				case OPASSIGN_ILIST: r = sut(c, [&] { me(v = il); }); if(!outcome(c, r, false, false)) m.assign(il); return !r.ok();
				case ASSIGN_SV: src = text(c, aux % 2 ? n : size_near(s.a[3], size, cap)); r = sut(c, [&] { v.assign(sv{src}); }); if(!outcome(c, r, false, false)) m = src; return !r.ok();
				case ASSIGN_ILIST: r = sut(c, [&] { v.assign(il); }); if(!outcome(c, r, false, false)) m.assign(il); return !r.ok();
				case ASSIGN_COUNT: { const auto k{size_near(s.a[3], size, cap)}; r = sut(c, [&] { v.assign(k, ch); }); if(!outcome(c, r, false, false)) m.assign(k, ch); return !r.ok(); }
				case ASSIGN_FWD: src = text(c, aux % 2 ? n : size_near(s.a[3], size, cap)); r = sut(c, [&] { v.assign(fwd(false), fwd(true)); }); if(!outcome(c, r, false, false)) m = src; return !r.ok();
				case ASSIGN_RND: src = text(c, aux % 2 ? n : size_near(s.a[3], size, cap)); r = sut(c, [&] { v.assign(rnd(false), rnd(true)); }); if(!outcome(c, r, false, false)) m = src; return !r.ok();
				case ASSIGN_INPUT: src = text(c, aux % 2 ? n : size_near(s.a[3], size, cap)); r = sut(c, [&] { v.assign(inp(false), inp(true)); }); if(!outcome(c, r, false, false)) m = src; return !r.ok();
				case ADD_SV: src = text(c, n); r = sut(c, [&] { me(v += sv{src}); }); promise(r, n); if(!outcome(c, r, false, false)) m += src; return !r.ok();
				case ADD_ILIST: r = sut(c, [&] { me(v += il); }); promise(r, il.size()); if(!outcome(c, r, false, false)) m += il; return !r.ok();
				case ADD_CHAR: r = sut(c, [&] { me(v += ch); }); promise(r, 1); if(!outcome(c, r, false, false)) m += ch; return !r.ok();
				case ADD_STR: { if(i == j) c.rename("self_add"); const M t{mo[j]}; r = sut(c, [&] { me(v += o); }); promise(r, t.size()); if(!outcome(c, r, false, false)) m += t; return !r.ok(); }
				case PLUS_SV_S: { src = text(c, aux % 50); const M t{mo[j]}; r = X.build(c, [&](void * q) { new(q) S(sv{src} + o); }); if(!outcome(c, r, false, false)) m = src + t; return !r.ok(); }
				case PLUS_S_SV: { src = text(c, aux % 50); const M t{mo[j]}; r = X.build(c, [&](void * q) { new(q) S(o + sv{src}); }); if(!outcome(c, r, false, false)) m = t + src; return !r.ok(); }
				case PLUS_C_S: { const M t{mo[j]}; r = X.build(c, [&](void * q) { new(q) S(ch + o); }); if(!outcome(c, r, false, false)) m = ch + t; return !r.ok(); }
				case PLUS_S_C: { const M t{mo[j]}; r = X.build(c, [&](void * q) { new(q) S(o + ch); }); if(!outcome(c, r, false, false)) m = t + ch; return !r.ok(); }
				case PLUS_S_S: { const u32 k{aux % NS}; const M t{mo[j] + mo[k]}; r = X.build(c, [&](void * q) { new(q) S(o + static_cast<const S &>(*sl[k])); }); if(!outcome(c, r, false, false)) m = t; return !r.ok(); }
				case APPEND_SV: src = text(c, n); r = sut(c, [&] { v.append(sv{src}); }); promise(r, n); if(!outcome(c, r, false, false)) m += src; return !r.ok();
				case APPEND_ILIST: r = sut(c, [&] { v.append(il); }); promise(r, il.size()); if(!outcome(c, r, false, false)) m += il; return !r.ok();
				case APPEND_COUNT: r = sut(c, [&] { v.append(n, ch); }); promise(r, n); if(!outcome(c, r, false, false)) m.append(n, ch); return !r.ok();
				case APPEND_FWD: src = text(c, n); r = sut(c, [&] { v.append(fwd(false), fwd(true)); }); promise(r, n); if(!outcome(c, r, false, false)) m += src; return !r.ok();
				case APPEND_RND: src = text(c, n); r = sut(c, [&] { v.append(rnd(false), rnd(true)); }); promise(r, n); if(!outcome(c, r, false, false)) m += src; return !r.ok();
				case APPEND_INPUT: src = text(c, n); r = sut(c, [&] { v.append(inp(false), inp(true)); }); if(!outcome(c, r, false, false)) m += src; return !r.ok();
				case PUSH_BACK: { const u32 reps{1 + aux % 3}; for(u32 k{0}; k < reps; ++k) { const std::size_t z{sl[i]->size()}; r = sut(c, [&] { char & x{v.push_back(ch)}; at(&x - v.data(), z); }); if(k == 0) promise(r, 1); if(!outcome(c, r, false, false)) m.push_back(ch); else return true; } return false; }
				case POP_BACK: if(!size) return false; r = sut(c, [&] { v.pop_back(); }); if(!outcome(c, r, false, true)) m.pop_back(); stays(); return !r.ok();
				case INSERT_SV: src = text(c, n); r = sut(c, [&] { auto it{v.insert(cb(pos), sv{src})}; at(it - v.begin(), pos); }); promise(r, n); if(!outcome(c, r, false, false)) m.insert(pos, src); return !r.ok();
				case INSERT_ILIST: r = sut(c, [&] { auto it{v.insert(cb(pos), il)}; at(it - v.begin(), pos); }); promise(r, il.size()); if(!outcome(c, r, false, false)) m.insert(pos, M{il}); return !r.ok();
				case INSERT_CHAR: r = sut(c, [&] { auto it{v.insert(cb(pos), ch)}; at(it - v.begin(), pos); }); promise(r, 1); if(!outcome(c, r, false, false)) m.insert(pos, 1, ch); return !r.ok();
				case INSERT_COUNT: r = sut(c, [&] { auto it{v.insert(cb(pos), n, ch)}; at(it - v.begin(), pos); }); promise(r, n); if(!outcome(c, r, false, false)) m.insert(pos, n, ch); return !r.ok();
				case INSERT_FWD: src = text(c, n); r = sut(c, [&] { auto it{v.insert(cb(pos), fwd(false), fwd(true))}; at(it - v.begin(), pos); }); promise(r, n); if(!outcome(c, r, false, false)) m.insert(pos, src); return !r.ok();
				case INSERT_RND: src = text(c, n); r = sut(c, [&] { auto it{v.insert(cb(pos), rnd(false), rnd(true))}; at(it - v.begin(), pos); }); promise(r, n); if(!outcome(c, r, false, false)) m.insert(pos, src); return !r.ok();
				case INSERT_INPUT: src = text(c, n); r = sut(c, [&] { auto it{v.insert(cb(pos), inp(false), inp(true))}; at(it - v.begin(), pos); }); if(!outcome(c, r, false, false)) m.insert(pos, src); return !r.ok();
				case REPLACE_SV: src = text(c, n); r = sut(c, [&] { me(v.replace(cb(pos), cb(last), sv{src})); }); if(!outcome(c, r, false, false)) m.replace(pos, last - pos, src); return !r.ok();
				case REPLACE_ILIST: r = sut(c, [&] { me(v.replace(cb(pos), cb(last), il)); }); if(!outcome(c, r, false, false)) m.replace(pos, last - pos, M{il}); return !r.ok();
				case REPLACE_COUNT: r = sut(c, [&] { me(v.replace(cb(pos), cb(last), n, ch)); }); if(!outcome(c, r, false, false)) m.replace(pos, last - pos, n, ch); return !r.ok();
				case REPLACE_FWD: src = text(c, n); r = sut(c, [&] { me(v.replace(cb(pos), cb(last), fwd(false), fwd(true))); }); if(!outcome(c, r, false, false)) m.replace(pos, last - pos, src); return !r.ok();
				case REPLACE_RND: src = text(c, n); r = sut(c, [&] { me(v.replace(cb(pos), cb(last), rnd(false), rnd(true))); }); if(!outcome(c, r, false, false)) m.replace(pos, last - pos, src); return !r.ok();
				case REPLACE_INPUT: src = text(c, n); r = sut(c, [&] { me(v.replace(cb(pos), cb(last), inp(false), inp(true))); }); if(!outcome(c, r, false, false)) m.replace(pos, last - pos, src); return !r.ok();
				case ERASE_ONE: if(!size) return false; r = sut(c, [&] { auto it{v.erase(cb(idx))}; at(it - v.begin(), idx); }); if(!outcome(c, r, false, true)) m.erase(idx, 1); stays(); return !r.ok();
				case ERASE_RANGE: if(last == pos) SIM_PROBE(empty_erase); r = sut(c, [&] { auto it{v.erase(cb(pos), cb(last))}; at(it - v.begin(), pos); }); if(!outcome(c, r, false, true)) m.erase(pos, last - pos); stays(); return !r.ok();
				case CLEAR: r = sut(c, [&] { v.clear(); }); if(!outcome(c, r, false, true)) m.clear(); stays(); return !r.ok();
				case RESIZE: case RESIZE_CH: { const auto k{size_near(s.a[3], size, cap)}; r = sut(c, [&] { if(s.op == RESIZE) v.resize(k); else v.resize(k, ch); });
					if(k >= size) promise(r, k - size); else { if(r.out == Out::alloc || r.out == Out::length) violate(NOFAIL, "%s to a smaller size failed", c.opname); stays(); }
					if(!outcome(c, r, false, false)) m.resize(k, s.op == RESIZE ? '\0' : ch); return !r.ok(); }
				case RESERVE: { const auto k{size_near(s.a[3], size, cap) + aux % 3 * 20}; r = sut(c, [&] { v.reserve(k); }); outcome(c, r, false, false); if(r.ok() && (v.capacity() < k || v.capacity() < cap)) violate(PROMISE, "reserve(%zu) succeeded, capacity is %zu", k, v.capacity()); if(k <= cap) { if(!r.ok()) violate(PROMISE, "reserve(%zu) failed although the capacity is %zu", k, cap); stays(); } return !r.ok(); }
				case SHRINK: r = sut(c, [&] { v.shrink_to_fit(); }); outcome(c, r, false, true); if(v.capacity() < cap) SIM_PROBE(heap_to_sso); return !r.ok();
				case SWAP_MEMBER: case SWAP_FRIEND: if(i == j) SIM_PROBE(self_swap); if((v.capacity() < 30) != (o.capacity() < 30)) SIM_PROBE(swap_mixed_storage); r = sut(c, [&] { if(s.op == SWAP_MEMBER) v.swap(*sl[j]); else { using std::swap; swap(v, *sl[j]); } }); if(!outcome(c, r, false, true) && i != j) std::swap(mo[i], mo[j]); return !r.ok();
				case AT: case AT_WRITE: { const std::size_t k{aux % 4 == 0 ? size + s.a[3] % 3 : aux % 9 == 1 ? std::numeric_limits<std::size_t>::max() - s.a[3] % 3 : idx}; char got{0}; const char * where{nullptr};
					r = sut(c, [&] { if(s.op == AT) { const char & x{cv.at(k)}; where = &x; got = x; } else { char & x{v.at(k)}; where = &x; got = x; x = ch; } });
					if(k < size) { outcome(c, r, false, true); if(r.ok() && (got != m[k] || where != v.data() + k)) violate(VALUE, "at(%zu) gave another character", k); if(r.ok() && s.op == AT_WRITE) m[k] = ch; } else if(!refused_with(c, r, Out::range)) violate(VALUE, "at(%zu) on %zu characters gave %s, expected out_of_range", k, size, out_name[static_cast<int>(r.out)]);
					return !r.ok(); }
				case INDEX_WRITE: if(!size) return false; r = sut(c, [&] { switch(aux % 4) { case 0: v[idx] = ch; break; case 1: v.front() = ch; break; case 2: v.back() = ch; break; default: v.data()[idx] = ch; } }); if(!outcome(c, r, false, true)) m[aux % 4 == 1 ? 0 : aux % 4 == 2 ? size - 1 : idx] = ch; return !r.ok();
				case ITER_WRITE: if(!size) return false; r = sut(c, [&] { if(aux % 2) *(v.begin() + static_cast<std::ptrdiff_t>(idx)) = ch; else *(v.rbegin() + static_cast<std::ptrdiff_t>(idx)) = ch; }); if(!outcome(c, r, false, true)) m[aux % 2 ? idx : size - 1 - idx] = ch; return !r.ok();
				case SUBSTR1: { const M t{mo[j]}; const auto k{s.a[2] % (t.size() + 1)}; r = X.build(c, [&](void * q) { new(q) S(o.substr(k)); }); if(!outcome(c, r, false, false)) m = t.substr(k); return !r.ok(); }
				case SUBSTR2: { const M t{mo[j]}; const auto k{s.a[2] % (t.size() + 1)}, z{s.a[3] % (t.size() - k + 1)}; r = X.build(c, [&](void * q) { new(q) S(o.substr(k, z)); }); if(!outcome(c, r, false, false)) m = t.substr(k, z); return !r.ok(); }
				case SUBSTR1_RV: { if(i == j) { const M t{m.substr(pos)}; r = sut(c, [&] { v = std::move(v).substr(pos); }); if(!outcome(c, r, false, true)) m = t; return !r.ok(); } const M t{mo[j]}; const auto k{s.a[2] % (t.size() + 1)}; r = X.build(c, [&](void * q) { new(q) S(std::move(*sl[j]).substr(k)); }); if(!outcome(c, r, false, true)) { m = t.substr(k); mo[j] = read(o); } return !r.ok(); }
				case SUBSTR2_RV: { if(i == j) { const M t{m.substr(pos, last - pos)}; r = sut(c, [&] { v = std::move(v).substr(pos, last - pos); }); if(!outcome(c, r, false, true)) m = t; return !r.ok(); } const M t{mo[j]}; const auto k{s.a[2] % (t.size() + 1)}, z{s.a[3] % (t.size() - k + 1)}; r = X.build(c, [&](void * q) { new(q) S(std::move(*sl[j]).substr(k, z)); }); if(!outcome(c, r, false, true)) { m = t.substr(k, z); mo[j] = read(o); } return !r.ok(); }
				case COMPARE: { int x[18]; const sv ov{mo[j]}; r = sut(c, [&] { x[0] = cv == o; x[1] = cv != o; x[2] = cv < o; x[3] = cv > o; x[4] = cv <= o; x[5] = cv >= o; x[6] = cv == ov; x[7] = cv != ov; x[8] = cv < ov; x[9] = cv > ov; x[10] = cv <= ov; x[11] = cv >= ov; x[12] = ov == cv; x[13] = ov != cv; x[14] = ov > cv; x[15] = ov < cv; x[16] = ov >= cv; x[17] = ov <= cv; });
					outcome(c, r, false, true); if(r.ok()) { const sv a{m}; const int w[]{a == ov, a != ov, a < ov, a > ov, a <= ov, a >= ov}; for(int k{0}; k < 18; ++k) if(x[k] != w[k % 6]) { violate(VALUE, "comparison %d disagrees with the contents", k); break; } } return !r.ok(); }
				case WALK: { M f, b; const char * bad{nullptr}; if(r = sut(c, [&] { bad = iter_all(v, pos, last); }); r.ok() && bad) violate(VALUE, "iterators: %s is wrong", bad); r = sut(c, [&] { Off of{c}; for(auto it{cv.begin()}; it != cv.end(); ++it) f.push_back(*it); for(auto it{cv.rbegin()}; it != cv.rend(); ++it) b.push_back(*it); if(cv.cbegin() != cv.begin() || cv.cend() != cv.end()) violate(FORM, "const iterators disagree"); }); std::reverse(b.begin(), b.end()); if(f != m || b != m) violate(FORM, "iteration disagrees with the contents"); if(size && (cv.front() != m.front() || cv.back() != m.back() || cv[idx] != m[idx])) violate(VALUE, "front/back/index disagree"); return false; }
				case HASH: { std::size_t h{0}; r = sut(c, [&] { h = std::hash<S>{}(cv); }); outcome(c, r, false, true); if(r.ok() && h != std::hash<sv>{}(sv{m})) violate(VALUE, "hash disagrees with the contents"); return !r.ok(); }
				// arguments that live inside the string itself
				case SELF_ADD: { probe_self(size, cap, size); const M t{m}; r = sut(c, [&] { if(aux % 2) me(v += cv); else me(v += static_cast<sv>(v)); }); promise(r, size); if(!outcome(c, r, false, false)) m += t; return !r.ok(); }
				case SELF_APPEND: case SELF_APPEND_SV: { const M t{m.substr(pos, last - pos)}; probe_self(size, cap, t.size()); r = sut(c, [&] { if(s.op == SELF_APPEND_SV) v.append(sv{v.data() + pos, last - pos}); else if(aux % 3 == 0) v.append(cb(pos), cb(last)); else if(aux % 3 == 1) v.append(v.data() + pos, v.data() + last); else v.append(FwdIt<char>{cv.data() + pos}, FwdIt<char>{cv.data() + last}); }); promise(r, t.size()); if(!outcome(c, r, false, false)) m += t; return !r.ok(); }
				case SELF_OPASSIGN_SV: { const M t{m.substr(pos, last - pos)}; probe_self(size, cap, t.size()); r = sut(c, [&] { me(v = sv{v.data() + pos, last - pos}); }); if(!outcome(c, r, false, false)) m = t; return !r.ok(); }
				case SELF_ASSIGN: { const M t{m.substr(pos, last - pos)}; probe_self(size, cap, t.size()); r = sut(c, [&] { if(aux % 4 == 0) v.assign(sv{v.data() + pos, last - pos}); else if(aux % 4 == 1) v.assign(cb(pos), cb(last)); else if(aux % 4 == 2) v.assign(v.data() + pos, v.data() + last); else v.assign(FwdIt<char>{cv.data() + pos}, FwdIt<char>{cv.data() + last}); }); if(!outcome(c, r, false, false)) m = t; return !r.ok(); }
				case SELF_INSERT: case SELF_INSERT_SV: { const std::size_t k{s.a[3] % (size + 1)}; const M t{m.substr(pos, last - pos)}; probe_self(size, cap, t.size()); r = sut(c, [&] { auto it{s.op == SELF_INSERT_SV ? v.insert(cb(k), sv{v.data() + pos, last - pos}) : aux % 3 == 0 ? v.insert(cb(k), cb(pos), cb(last)) : aux % 3 == 1 ? v.insert(cb(k), v.data() + pos, v.data() + last) : v.insert(cb(k), FwdIt<char>{cv.data() + pos}, FwdIt<char>{cv.data() + last})}; at(it - v.begin(), k); }); promise(r, t.size()); if(!outcome(c, r, false, false)) m.insert(k, t); return !r.ok(); }
				case SELF_REPLACE: case SELF_REPLACE_SV: { const std::size_t k{s.a[3] % (size + 1)}, z{s.a[1] % (size - k + 1)}; const M t{m.substr(pos, last - pos)}; probe_self(size, cap, t.size()); r = sut(c, [&] { if(s.op == SELF_REPLACE_SV) me(v.replace(cb(k), cb(k + z), sv{v.data() + pos, last - pos})); else if(aux % 3 == 0) me(v.replace(cb(k), cb(k + z), cb(pos), cb(last))); else if(aux % 3 == 1) me(v.replace(cb(k), cb(k + z), v.data() + pos, v.data() + last)); else me(v.replace(cb(k), cb(k + z), FwdIt<char>{cv.data() + pos}, FwdIt<char>{cv.data() + last})); }); if(!outcome(c, r, false, false)) m.replace(k, z, t); return !r.ok(); }
				case SELF_CHAR: { if(!size) return false; const char x{m[idx]}; probe_self(size, cap, n); std::size_t k{s.a[3] % (size + 1)}; switch(aux % 6) {
						case 0: r = sut(c, [&] { v.push_back(v[idx]); }); promise(r, 1); if(!outcome(c, r, false, false)) m.push_back(x); break;
						case 1: r = sut(c, [&] { v.append(n, v[idx]); }); promise(r, n); if(!outcome(c, r, false, false)) m.append(n, x); break;
						case 2: r = sut(c, [&] { v.insert(cb(k), n, v[idx]); }); promise(r, n); if(!outcome(c, r, false, false)) m.insert(k, n, x); break;
						case 3: r = sut(c, [&] { v.assign(n, v[idx]); }); if(!outcome(c, r, false, false)) m.assign(n, x); break;
						case 4: r = sut(c, [&] { v.resize(size + n, v[idx]); }); promise(r, n); if(!outcome(c, r, false, false)) m.resize(size + n, x); break;
						default: r = sut(c, [&] { v.replace(cb(pos), cb(last), n, v[idx]); }); if(!outcome(c, r, false, false)) m.replace(pos, last - pos, n, x); break; } return !r.ok(); }
				default: break;
			}
			if(!(mode_flags & M_HUGE)) return false;
			SIM_PROBE(over_max);
			const std::size_t h{huge(s.a[3], size)}; const std::size_t hr{std::min(h, static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max()))};
			if(c.trace) c.note("    request %zu (as a range %zu)", h, hr);
			const char one{'h'}; const CountIt<char> first{&one, 0}, end{&one, static_cast<std::ptrdiff_t>(hr)};
			Slot<S> tmp;
			switch(s.op) {
				case HUGE_CTOR: r = tmp.build(c, [&](void * q) { new(q) S(h, ch); }); break;
				case HUGE_CTOR_RANGE: r = tmp.build(c, [&](void * q) { new(q) S(first, end); }); break;
				case HUGE_RESIZE: r = sut(c, [&] { if(aux % 2) v.resize(h); else v.resize(h, ch); }); break;
				case HUGE_RESERVE: r = sut(c, [&] { v.reserve(h); }); break;
				case HUGE_ASSIGN: r = sut(c, [&] { v.assign(h, ch); }); break;
				case HUGE_APPEND: r = sut(c, [&] { v.append(h, ch); }); break;
				case HUGE_INSERT: r = sut(c, [&] { v.insert(cb(pos), h, ch); }); break;
				case HUGE_REPLACE: r = sut(c, [&] { v.replace(cb(pos), cb(last), h, ch); }); break;
				case HUGE_ASSIGN_RANGE: r = sut(c, [&] { v.assign(first, end); }); break;
				case HUGE_APPEND_RANGE: r = sut(c, [&] { v.append(first, end); }); break;
				case HUGE_INSERT_RANGE: r = sut(c, [&] { v.insert(cb(pos), first, end); }); break;
				default: r = sut(c, [&] { v.replace(cb(pos), cb(last), first, end); }); break;
			}
			tmp.destroy(c);
			if(r.ok()) { violate(VALUE, "%s of %zu characters reported success", c.opname, h); violate(FORM, "%s of %zu characters reported success", c.opname, h); abandon_run(); }
			outcome(c, r, true, false);
			return true;
		}
		static void probe_self(std::size_t size, std::size_t cap, std::size_t n) { if(size + n > cap) SIM_PROBE(self_arg_grow); else SIM_PROBE(self_arg_in_place); }
		void finish(Ctx & c) override { for(auto & x : sl) x.destroy(c); }
		static World * make(Ctx & c, const Plan & p) { return new StrWorld(c, p); }
	};
	RegisterWorld reg{WorldKind{"str", StrWorld::ops(), StrWorld::NOPS, (1u << F_ALLOC) | (1u << F_OOM) | (1u << F_ITER), &StrWorld::make}};
	}
}
