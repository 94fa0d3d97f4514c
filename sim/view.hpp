// Worlds: array_ref, optional_ref and variant_ref over owners in stable storage, against (owner, range). VIEW_E: the element type, VIEW_NAME: prefix of the worlds' names.
#pragma once
#include "elems.hpp"
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/vector.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/variant_ref.hpp>
#include <array>

namespace sim {
namespace {
	constexpr u32 VIEWFAULTS{(1u << F_ALLOC) | (1u << F_OOM) | (1u << F_ELEM)};
	// ---------- elements ----------
	struct ArrView final : World {
		using E = VIEW_E; using R = ptl::array_ref<E>; using C = ptl::array_ref<const E>;
		static constexpr u32 NR{3}, NO{5};
		struct M { u32 owner{0}; std::size_t off{0}, len{0}; bool null{true}; };
		Slot<R> mr[NR]; Slot<C> cr[NR]; M mm[NR], mc[NR];
		Slot<ptl::array<E, 5>> oa; Slot<ptl::vector<E>> ov; Slot<std::array<E, 3>> oc; Slot<std::vector<E>> os; Slot<std::array<E, 1>> oz;
		std::vector<int> val[NO]; int next_val{1};
		enum Op : u32 { BIND_RANGE, BIND_POINTERS, BIND_COUNT, BIND_DEFAULT, BIND_CONST_OWNER, BIND_CARRAY, COPY, ASSIGN, TO_CONST, ASSIGN_RANGE, FIRST, LAST, SUBRANGE1, SUBRANGE2, WRITE, WRITE_ITER, OWNER_WRITE, OWNER_REVERSE, OWNER_INPLACE, READ, AT, AT_CONST, WALK, NOPS };
		static const OpInfo * ops() { static const OpInfo o[]{{"bind_range",7},{"bind_pointers",4},{"bind_count",4},{"bind_default",1},{"bind_const_owner",4},{"bind_carray",3},{"copy",4},{"assign",4},{"to_const",4},{"assign_range",3},{"first",4},{"last",4},{"subrange1",4},{"subrange2",5},{"write",7},{"write_iter",5},{"owner_write",6},{"owner_reverse",3},{"owner_inplace",6},{"read",4},{"at",4},{"at_const",3},{"walk",4}}; static_assert(sizeof o / sizeof *o == NOPS); return o; }
		int fresh() { next_val = next_val % 200 + 1; return next_val % 8 ? next_val : 0; }
		template<typename T> void init(Ctx & c, Slot<T> & s) { s.p = Slot<T>::raw(c); Track t{c}; new(static_cast<void *>(s.p)) T(); }
		explicit ArrView(Ctx & c, const Plan & p) {
			init(c, oa); init(c, ov); init(c, oc); init(c, os); init(c, oz); const std::size_t n{p.cfg[0] % 6 + 1 + (p.cfg[2] % 16 == 0 ? p.cfg[1] % 300 : 0)};
			{ Track t{c}; ov->reserve(n + 3); for(std::size_t k{0}; k < n; ++k) ov->emplace_back(0); }
			{ Off o{c}; os->reserve(4); Track t{c}; for(int k{0}; k < 4; ++k) os->emplace_back(0); }
			for(u32 o{0}; o < NO; ++o) { val[o].resize(len(o)); for(std::size_t k{0}; k < len(o); ++k) { val[o][k] = fresh(); base(o)[k].set(val[o][k]); } }
			for(u32 i{0}; i < NR; ++i) { init(c, mr[i]); init(c, cr[i]); }
		}
		E * base(u32 o) { return o == 0 ? oa->data() : o == 1 ? ov->data() : o == 2 ? oc->data() : o == 3 ? os->data() : oz->data(); }
		std::size_t len(u32 o) { return o == 0 ? oa->size() : o == 1 ? ov->size() : o == 2 ? oc->size() : o == 3 ? os->size() : oz->size(); }
		u32 abs_state() const override { u32 r{0}; for(const auto & m : mm) r = r * 7 + (m.null ? 0 : m.owner + 1); for(const auto & m : mc) r = r * 3 + (m.null ? 0 : 1 + (m.len == 0)); return r; }
		template<typename X> void check_one(Ctx & c, const X & r, const M & m, const char * what, u32 i) {
			const E * const w{m.null ? nullptr : base(m.owner) + m.off};
			if(r.data() != w || r.size() != m.len || r.empty() != (m.len == 0)) { violate(VIEW, "%s reference %u designates %zu elements at offset %td, expected %zu at %zu (after %s)", what, i, r.size(), m.null ? 0 : r.data() - base(m.owner), m.len, m.off, c.opname); abandon_run(); }
			for(std::size_t k{0}; k < m.len; ++k) { const int g{r.data()[k].val("seen")}; c.log(static_cast<u64>(g)); if(g != val[m.owner][m.off + k]) { violate(VIEW, "%s reference %u shows %d at %zu, the owner holds %d (after %s)", what, i, g, k, val[m.owner][m.off + k], c.opname); abandon_run(); } }
		}
		void check(Ctx & c) {
			for(u32 o{0}; o < NO; ++o) for(std::size_t k{0}; k < val[o].size(); ++k) { const int g{base(o)[k].val("seen")}; if(g != val[o][k]) { violate(VIEW, "element %zu of owner %u is %d, expected %d (after %s)", k, o, g, val[o][k], c.opname); abandon_run(); } }
			for(u32 i{0}; i < NR; ++i) { check_one(c, *mr[i], mm[i], "mutable", i); check_one(c, *cr[i], mc[i], "constant", i); }
		}
		template<typename T> void from(void * q, u32 o) { switch(o) { case 0: new(q) T(*oa); break; case 1: new(q) T(*ov); break; case 2: new(q) T(*oc); break; case 3: new(q) T(*os); break; default: new(q) T(*oz); } }
		void from_const(void * q, u32 o) { switch(o) { case 0: new(q) C(std::as_const(*oa)); break; case 1: new(q) C(std::as_const(*ov)); break; case 2: new(q) C(std::as_const(*oc)); break; case 3: new(q) C(std::as_const(*os)); break; default: new(q) C(std::as_const(*oz)); } }
		template<typename X, typename Sl> Result narrow(Ctx & c, u32 op, Sl & S, const X & src, const M & from, M & to, std::size_t cut, std::size_t n) {
			M t{from}; Result r{Out::ok};
			switch(op) {
				case FIRST: r = S.build(c, [&](void * q) { new(q) X(src.first(cut)); }); t.len = cut; break;
				case LAST: r = S.build(c, [&](void * q) { new(q) X(src.last(cut)); }); t.off += t.len - cut; t.len = cut; break;
				case SUBRANGE1: r = S.build(c, [&](void * q) { new(q) X(src.subrange(cut)); }); t.off += cut; t.len -= cut; break;
				default: r = S.build(c, [&](void * q) { new(q) X(src.subrange(cut, n)); }); t.off += cut; t.len = n; }
			if(r.ok()) to = t; return r;
		}
		void step(Ctx & c, const Step & s) override {
			const u32 i{s.a[0] % NR}, j{s.a[1] % NR}, ow{s.a[2] % NO}; const bool k{(s.a[5] & 1) != 0}; Result r{Out::ok}; const u32 ops0{c.elem_ops}; bool touches{false};
			const std::size_t off{s.a[3] % (len(ow) + 1)}, n{s.a[4] % (len(ow) - off + 1)};
			R & v{*mr[i]}; const C & w{*cr[i]}; M & m{mm[i]}; M & d{mc[i]};
			const std::size_t cutm{s.a[3] % (mm[j].len + 1)}, cutc{s.a[3] % (mc[j].len + 1)};
			switch(s.op) {
				case BIND_RANGE: if(k) { r = mr[i].build(c, [&](void * q) { from<R>(q, ow); }); if(r.ok()) m = {ow, 0, len(ow), false}; } else { r = cr[i].build(c, [&](void * q) { from<C>(q, ow); }); if(r.ok()) d = {ow, 0, len(ow), false}; } break;
				case BIND_POINTERS: if(k) { r = mr[i].build(c, [&](void * q) { new(q) R(base(ow) + off, base(ow) + off + n); }); if(r.ok()) m = {ow, off, n, false}; } else { r = cr[i].build(c, [&](void * q) { new(q) C(base(ow) + off, base(ow) + off + n); }); if(r.ok()) d = {ow, off, n, false}; } break;
				case BIND_COUNT: if(k) { r = mr[i].build(c, [&](void * q) { new(q) R(base(ow) + off, n); }); if(r.ok()) m = {ow, off, n, false}; } else { r = cr[i].build(c, [&](void * q) { new(q) C(base(ow) + off, n); }); if(r.ok()) d = {ow, off, n, false}; } break;
				case BIND_DEFAULT: if(k) { r = mr[i].build(c, [&](void * q) { new(q) R; }); if(r.ok()) m = {}; } else { r = cr[i].build(c, [&](void * q) { new(q) C; }); if(r.ok()) d = {}; } break;
				case BIND_CONST_OWNER: r = cr[i].build(c, [&](void * q) { from_const(q, ow); }); if(r.ok()) d = {ow, 0, len(ow), false}; break;
				case BIND_CARRAY: { E (&raw)[3]{*reinterpret_cast<E (*)[3]>(oc->data())}; if(k) { r = mr[i].build(c, [&](void * q) { new(q) R(raw); }); if(r.ok()) m = {2, 0, 3, false}; } else { r = cr[i].build(c, [&](void * q) { new(q) C(std::as_const(raw)); }); if(r.ok()) d = {2, 0, 3, false}; } break; }
				case COPY: if(k) { r = mr[i].build(c, [&](void * q) { if(s.a[4] % 2) new(q) R(*mr[j]); else new(q) R(std::as_const(*mr[j])); }); if(r.ok()) m = M{mm[j]}; } else { r = cr[i].build(c, [&](void * q) { if(s.a[4] % 2) new(q) C(*cr[j]); else new(q) C(std::as_const(*cr[j])); }); if(r.ok()) d = M{mc[j]}; } break;
				case ASSIGN: if(k) { r = sut(c, [&] { v = *mr[j]; }); if(r.ok()) m = M{mm[j]}; } else { r = sut(c, [&] { *cr[i] = *cr[j]; }); if(r.ok()) d = M{mc[j]}; } break;
				case TO_CONST: r = sut(c, [&] { if(s.a[4] % 2) *cr[i] = *mr[j]; else *cr[i] = std::as_const(*mr[j]); }); if(r.ok()) d = mm[j]; break;
				case ASSIGN_RANGE: r = sut(c, [&] { if(k) v = *ov; else v = *oa; }); if(r.ok()) m = k ? M{1, 0, len(1), false} : M{0, 0, len(0), false}; break;
				case FIRST: case LAST: case SUBRANGE1: case SUBRANGE2: if(k) r = narrow(c, s.op, mr[i], *mr[j], M{mm[j]}, m, cutm, s.a[4] % (mm[j].len - cutm + 1)); else r = narrow(c, s.op, cr[i], *cr[j], M{mc[j]}, d, cutc, s.a[4] % (mc[j].len - cutc + 1)); break;
				case WRITE: case WRITE_ITER: { touches = true; if(!m.len) break; const int x{fresh()}; const std::size_t at{s.a[3] % m.len}; std::size_t z{at}; const R & cv{v};
					r = sut(c, [&] { E e(x); if(s.op == WRITE) switch(s.a[4] % 5) { case 0: cv[at] = e; break; case 1: v.at(at) = e; break; case 2: z = 0; cv.front() = e; break; case 3: z = m.len - 1; cv.back() = e; break; default: cv.data()[at] = e; } else if(s.a[4] % 2) v.begin()[static_cast<std::ptrdiff_t>(at)] = e; else { z = m.len - 1 - at; v.rbegin()[static_cast<std::ptrdiff_t>(at)] = e; } });
					if(r.ok()) { val[m.owner][m.off + z] = x; SIM_PROBE(view_sees_write); } break; }
				case OWNER_WRITE: touches = true; if(off < len(ow)) { const int x{fresh()}; base(ow)[off].set(x); val[ow][off] = x; SIM_PROBE(view_sees_write); } break;
				case OWNER_REVERSE: touches = true; { Off o{c}; std::reverse(base(ow), base(ow) + len(ow)); std::reverse(val[ow].begin(), val[ow].end()); } break;
				case OWNER_INPLACE: { touches = true; const std::size_t z{ov->size()}, a{s.a[3] % z}, b{s.a[4] % z}; const int x{fresh()}; const E * const p{ov->data()};
					{ Track t{c}; ov->erase(ov->begin() + static_cast<std::ptrdiff_t>(a)); if(s.a[5] % 2) ov->emplace(ov->begin() + static_cast<std::ptrdiff_t>(b), x); else { ov->emplace_back(x); } }
					{ Off o{c}; auto & l{val[1]}; l.erase(l.begin() + static_cast<std::ptrdiff_t>(a)); if(s.a[5] % 2) l.insert(l.begin() + static_cast<std::ptrdiff_t>(b), x); else l.push_back(x); }
					if(ov->data() != p || ov->size() != z) abandon_run(); SIM_PROBE(view_sees_write); break; }
				case READ: { const std::size_t at{d.len ? s.a[3] % d.len : 0}; if(!d.len) break; const E * const b{base(d.owner) + d.off}; bool ok{true}; r = sut(c, [&] { ok = std::addressof(w[at]) == b + at && std::addressof(w.front()) == b && std::addressof(w.back()) == b + d.len - 1; }); if(r.ok() && !ok) violate(VIEW, "access through a reference designates another element"); break; }
				case AT: case AT_CONST: { const M & x{s.op == AT ? m : d}; const std::size_t at{s.a[4] % 3 == 0 ? x.len + s.a[3] % 3 : s.a[4] % 7 == 1 ? ~std::size_t{0} - s.a[3] % 3 : x.len ? s.a[3] % x.len : 0}; const E * g{nullptr}; r = sut(c, [&] { if(s.op == AT) g = std::addressof(v.at(at)); else g = std::addressof(w.at(at)); });
					if(at < x.len) { if(r.ok() && g != base(x.owner) + x.off + at) violate(VIEW, "at(%zu) designates another element", at); } else { SIM_PROBE(bad_access); if(!refused_with(c, r, Out::range)) violate(VIEW, "at(%zu) of %zu elements gave %s", at, x.len, out_name[static_cast<int>(r.out)]); r = {Out::ok}; } break; }
				case WALK: { bool ok{true}; const auto walk{[&](auto & x, const M & g) { const E * const b{g.null ? nullptr : base(g.owner) + g.off}; std::size_t z{0}; for(auto & e : x) { ok &= z < g.len && std::addressof(e) == b + z; ++z; } ok &= z == g.len; for(auto it{x.rbegin()}; it != x.rend(); ++it) { ok &= z && std::addressof(*it) == b + z - 1; --z; } ok &= z == 0 && static_cast<std::size_t>(x.cend() - x.cbegin()) == g.len && static_cast<std::size_t>(x.crend() - x.crbegin()) == g.len; }}; const char * bad{nullptr}; r = sut(c, [&] { walk(v, m); walk(std::as_const(v), m); walk(*cr[i], d); walk(w, d); bad = iter_all(v, s.a[3] % (m.len + 1), s.a[4] % (m.len + 1)); if(!bad) bad = iter_all(*cr[i], s.a[3] % (d.len + 1), s.a[4] % (d.len + 1)); }); if(r.ok() && bad) violate(VIEW, "iterators: %s is wrong", bad); if(r.ok() && !ok) violate(VIEW, "iteration does not meet every element once"); break; }
			}
			if(!r.ok() && !(touches && legal_failure(c, r, false))) violate(VIEW, "%s failed with %s", c.opname, out_name[static_cast<int>(r.out)]);
			if(!touches && c.elem_ops != ops0) violate(VIEW, "%s touched the referenced elements", c.opname);
			check(c);
		}
		void finish(Ctx & c) override { for(auto & x : mr) x.destroy(c); for(auto & x : cr) x.destroy(c); oa.destroy(c); ov.destroy(c); oc.destroy(c); oz.destroy(c); { Off o{c}; os->~vector(); Slot<std::vector<E>>::drop(c, os.p); os.p = nullptr; } if(c.live_elems) violate(LIFETIME, "%lld elements alive at the end", static_cast<long long>(c.live_elems)); }
		static World * make(Ctx & c, const Plan & p) { return new ArrView(c, p); }
	};
	static RegisterWorld r2{WorldKind{VIEW_NAME "_array", ArrView::ops(), ArrView::NOPS, VIEWFAULTS, &ArrView::make}};

	// ---------- optional and alternative objects ----------
	struct ObjView final : World {
		using E = VIEW_E; using F = BasicTracked<2, false, 12>; using R = ptl::optional_ref<E>; using C = ptl::optional_ref<const E>; using V = ptl::variant_ref<E, F, const E, const int>;
		static constexpr u32 NR{3}, NO{6}; // owners: 0,1 plain objects; 2 ptl::optional; 3 std::optional; 4 pointer to 0 or null; 5 unique_ptr
		struct M { const E * at{nullptr}; };
		struct VM { u32 alt; const void * at; };
		Slot<R> mr[NR]; Slot<C> cr[NR]; Slot<V> vr[NR]; M mm[NR], mc[NR]; VM mv[NR];
		Slot<E> o0, o1; Slot<ptl::optional<E>> po; Slot<std::optional<E>> so; E * ptr{nullptr}; std::unique_ptr<E> uq; Slot<F> f; int number{5}; int next_val{1};
		std::vector<std::pair<const E *, int>> truth; int ftruth{0};
		enum Op : u32 { BIND, BIND_CONST, BIND_NULL, BIND_DEFAULT, COPY, ASSIGN, TO_CONST, ASSIGN_OBJECT, VALUE_, VALUE_CONST, VALUE_OR, VALUE_OR_CONVERT, WRITE, OWNER_WRITE, OWNER_ENGAGED_ASSIGN, STATE, VBIND, VCOPY, VASSIGN, VASSIGN_OBJECT, VGET, VWRITE, NOPS };
		static const OpInfo * ops() { static const OpInfo o[]{{"bind",8},{"bind_const",6},{"bind_null",2},{"bind_default",1},{"copy",5},{"assign",5},{"to_const",3},{"assign_object",3},{"value",5},{"value_const",4},{"value_or",4},{"value_or_convert",3},{"write",7},{"owner_write",6},{"owner_engaged_assign",4},{"state",3},{"variant_bind",7},{"variant_copy",5},{"variant_assign",5},{"variant_assign_object",4},{"variant_get",6},{"variant_write",5}}; static_assert(sizeof o / sizeof *o == NOPS); return o; }
		int fresh() { next_val = next_val % 200 + 1; return next_val % 8 ? next_val : 0; }
		int & val(const E * p) { for(auto & t : truth) if(t.first == p) return t.second; truth.emplace_back(p, 0); return truth.back().second; }
		explicit ObjView(Ctx & c, const Plan & p) {
			Track t{c}; o0.p = Slot<E>::raw(c); new(static_cast<void *>(o0.p)) E(fresh()); o1.p = Slot<E>::raw(c); new(static_cast<void *>(o1.p)) E(fresh()); f.p = Slot<F>::raw(c); new(static_cast<void *>(f.p)) F(ftruth = fresh());
			po.p = Slot<ptl::optional<E>>::raw(c); new(static_cast<void *>(po.p)) ptl::optional<E>; so.p = Slot<std::optional<E>>::raw(c); new(static_cast<void *>(so.p)) std::optional<E>;
			if(p.cfg[0] % 2) *po = E(fresh()); if(p.cfg[1] % 2) so->emplace(fresh()); if(p.cfg[2] % 2) ptr = o0.p; if(p.cfg[3] % 2) { Off o{c}; uq = std::make_unique<E>(fresh()); }
			Off o{c}; for(const E * e : {static_cast<const E *>(o0.p), static_cast<const E *>(o1.p), owner(2), owner(3), owner(5)}) if(e) val(e) = e->v;
			for(u32 i{0}; i < NR; ++i) { mr[i].p = Slot<R>::raw(c); new(static_cast<void *>(mr[i].p)) R; cr[i].p = Slot<C>::raw(c); new(static_cast<void *>(cr[i].p)) C; vr[i].p = Slot<V>::raw(c); new(static_cast<void *>(vr[i].p)) V(*o0); mv[i] = {0, o0.p}; }
		}
		const E * owner(u32 o) const { switch(o) { case 0: return o0.p; case 1: return o1.p; case 2: return *po ? std::addressof(**po) : nullptr; case 3: return *so ? std::addressof(**so) : nullptr; case 4: return ptr; default: return uq.get(); } }
		u32 abs_state() const override { u32 r{0}; for(const auto & m : mm) r = r * 3 + (m.at == nullptr ? 0 : m.at == o0.p ? 1 : 2); for(const auto & m : mv) r = r * 4 + m.alt; return r; }
		template<typename X> void bind(void * q, u32 o) { switch(o) { case 0: new(q) X(*o0); break; case 1: new(q) X(*o1); break; case 2: new(q) X(*po); break; case 3: new(q) X(*so); break; case 4: new(q) X(ptr); break; default: new(q) X(uq); } }
		void bind_const(void * q, u32 o) { switch(o) { case 0: new(q) C(std::as_const(*o0)); break; case 1: new(q) C(std::as_const(*o1)); break; case 2: new(q) C(std::as_const(*po)); break; case 3: new(q) C(std::as_const(*so)); break; case 4: { E * const & cp{ptr}; new(q) C(cp); break; } default: new(q) C(std::as_const(uq)); } }
		void check(Ctx & c) {
			for(auto & t : truth) { const int g{t.first->val("seen")}; c.log(static_cast<u64>(g)); if(g != t.second) { violate(VIEW, "a referenced object holds %d, expected %d (after %s)", g, t.second, c.opname); abandon_run(); } }
			if(const int g{f->val("seen")}; g != ftruth) { violate(VIEW, "a referenced object holds %d, expected %d (after %s)", g, ftruth, c.opname); abandon_run(); }
			for(u32 i{0}; i < NR; ++i) {
				if(mr[i]->has_value() != (mm[i].at != nullptr) || static_cast<bool>(*mr[i]) != (mm[i].at != nullptr) || (mm[i].at && (std::addressof(**mr[i]) != mm[i].at || mr[i]->operator->() != mm[i].at))) { violate(VIEW, "optional reference %u does not designate the object it was bound to (after %s)", i, c.opname); abandon_run(); }
				if(cr[i]->has_value() != (mc[i].at != nullptr) || static_cast<bool>(*cr[i]) != (mc[i].at != nullptr) || (mc[i].at && (std::addressof(**cr[i]) != mc[i].at || cr[i]->operator->() != mc[i].at))) { violate(VIEW, "constant optional reference %u does not designate the object it was bound to (after %s)", i, c.opname); abandon_run(); }
				const V & v{*vr[i]}; const bool h[]{v.holds<E>(), v.holds<F>(), v.holds<const E>(), v.holds<const int>()}; const void * p[]{v.get_if<E>(), v.get_if<F>(), v.get_if<const E>(), v.get_if<const int>()};
				for(u32 a{0}; a < 4; ++a) if(h[a] != (a == mv[i].alt) || p[a] != (a == mv[i].alt ? mv[i].at : nullptr)) { violate(VIEW, "variant reference %u does not designate the object it was bound to (after %s)", i, c.opname); abandon_run(); }
			}
		}
		VM vbind(void * q, u32 k) { switch(k % 6) { case 0: new(q) V(*o0); return {0, o0.p}; case 1: new(q) V(*o1); return {0, o1.p}; case 2: new(q) V(*f); return {1, f.p}; case 3: new(q) V(std::as_const(*o0)); return {2, o0.p}; case 4: new(q) V(std::as_const(*o1)); return {2, o1.p}; default: new(q) V(number); return {3, &number}; } }
		void step(Ctx & c, const Step & s) override {
			const u32 i{s.a[0] % NR}, j{s.a[1] % NR}, ow{s.a[2] % NO}; const bool k{(s.a[3] & 1) != 0}; Result r{Out::ok}; const u32 ops0{c.elem_ops}; bool touches{false}; const int x{fresh()};
			switch(s.op) {
				case BIND: if(k) { r = mr[i].build(c, [&](void * q) { bind<R>(q, ow); }); if(r.ok()) mm[i] = {owner(ow)}; } else { r = cr[i].build(c, [&](void * q) { bind<C>(q, ow); }); if(r.ok()) mc[i] = {owner(ow)}; } break;
				case BIND_CONST: r = cr[i].build(c, [&](void * q) { bind_const(q, ow); }); if(r.ok()) mc[i] = {owner(ow)}; break;
				case BIND_NULL: if(k) { r = mr[i].build(c, [&](void * q) { new(q) R(std::nullopt); }); if(r.ok()) mm[i] = {}; } else { r = sut(c, [&] { *mr[i] = std::nullopt; *cr[i] = std::nullopt; }); if(r.ok()) mm[i] = {}, mc[i] = {}; } break;
				case BIND_DEFAULT: r = mr[i].build(c, [&](void * q) { new(q) R; }); if(r.ok()) mm[i] = {}; break;
				case COPY: if(k) { r = mr[i].build(c, [&](void * q) { if(s.a[4] % 2) new(q) R(*mr[j]); else new(q) R(std::as_const(*mr[j])); }); if(r.ok()) mm[i] = M{mm[j]}; } else { r = cr[i].build(c, [&](void * q) { if(s.a[4] % 2) new(q) C(*cr[j]); else new(q) C(std::as_const(*cr[j])); }); if(r.ok()) mc[i] = M{mc[j]}; } break;
				case ASSIGN: if(k) { r = sut(c, [&] { *mr[i] = *mr[j]; }); if(r.ok()) mm[i] = M{mm[j]}; } else { r = sut(c, [&] { *cr[i] = *cr[j]; }); if(r.ok()) mc[i] = M{mc[j]}; } break;
				case TO_CONST: r = sut(c, [&] { *cr[i] = *mr[j]; }); if(r.ok()) mc[i] = mm[j]; break;
				case ASSIGN_OBJECT: r = sut(c, [&] { if(k) *mr[i] = *o1; else *mr[i] = *po; }); if(r.ok()) mm[i] = {owner(k ? 1 : 2)}; break;
				case VALUE_: case VALUE_CONST: { const E * g{nullptr}; r = sut(c, [&] { if(s.op == VALUE_) g = std::addressof(mr[i]->value()); else g = std::addressof(cr[i]->value()); }); const E * const w{s.op == VALUE_ ? mm[i].at : mc[i].at}; if(w) { if(r.ok() && g != w) violate(VIEW, "value() designates another object"); } else { SIM_PROBE(bad_access); if(r.out != Out::bad_optional) violate(VIEW, "value() of an empty reference gave %s", out_name[static_cast<int>(r.out)]); r = {Out::ok}; } break; }
				case VALUE_OR: case VALUE_OR_CONVERT: { touches = true; int g{0}; const E * const w{mm[i].at}; r = sut(c, [&] { if(s.op == VALUE_OR) { const E d(x); const E e(mr[i]->value_or(d)); g = e.v; } else { const E e(mr[i]->value_or(x)); g = e.v; } }); if(r.ok() && g != (w ? val(w) : x)) violate(VIEW, "value_or gave %d, expected %d", g, w ? val(w) : x); break; }
				case WRITE: { touches = true; const E * const w{mm[i].at}; if(!w) break; r = sut(c, [&] { const E e(x); switch(s.a[4] % 3) { case 0: **mr[i] = e; break; case 1: mr[i]->value() = e; break; default: *mr[i]->operator->() = e; } }); if(r.ok()) { val(w) = x; SIM_PROBE(view_sees_write); } break; }
				case OWNER_WRITE: { touches = true; const E * const w{owner(ow)}; if(w) { const_cast<E *>(w)->set(x); val(w) = x; SIM_PROBE(view_sees_write); } break; }
				case OWNER_ENGAGED_ASSIGN: { touches = true; if(!*po) break; const E * const w{std::addressof(**po)}; { r = sut(c, [&] { const E e(x); *po = e; }); } if(!*po || std::addressof(**po) != w) { abandon_run(); } if(r.ok()) val(w) = x; break; }
				case VBIND: { VM t{}; r = vr[i].build(c, [&](void * q) { t = vbind(q, s.a[4]); }); if(r.ok()) mv[i] = t; break; }
				case VCOPY: r = vr[i].build(c, [&](void * q) { if(k) new(q) V(*vr[j]); else new(q) V(std::as_const(*vr[j])); }); if(r.ok()) mv[i] = VM{mv[j]}; break;
				case VASSIGN: r = sut(c, [&] { if(&(*vr[i] = std::as_const(*vr[j])) != vr[i].p) violate(VIEW, "assignment returned another object"); }); if(r.ok()) mv[i] = VM{mv[j]}; break;
				case VASSIGN_OBJECT: { VM t{}; r = sut(c, [&] { switch(s.a[4] % 4) { case 0: *vr[i] = *o1; t = {0, o1.p}; break; case 1: *vr[i] = *f; t = {1, f.p}; break; case 2: *vr[i] = std::as_const(*o0); t = {2, o0.p}; break; default: *vr[i] = std::as_const(number); t = {3, &number}; } }); if(r.ok()) mv[i] = t; break; }
				case VGET: { const u32 a{s.a[4] % 4}; const void * g{nullptr}; const V & v{*vr[i]}; r = sut(c, [&] { switch(a) { case 0: g = std::addressof(v.get<E>()); break; case 1: g = std::addressof(v.get<F>()); break; case 2: g = std::addressof(v.get<const E>()); break; default: g = std::addressof(v.get<const int>()); } }); if(a == mv[i].alt) { if(r.ok() && g != mv[i].at) violate(VIEW, "get designates another object"); } else { SIM_PROBE(bad_access); if(r.out != Out::bad_variant) violate(VIEW, "get of another alternative gave %s", out_name[static_cast<int>(r.out)]); r = {Out::ok}; } break; }
				case VWRITE: { touches = true; const V & v{*vr[i]}; if(mv[i].alt > 1) break; r = sut(c, [&] { if(mv[i].alt == 0) { const E e(x); v.get<E>() = e; } else { const F e(x); *v.get_if<F>() = e; } }); if(r.ok()) { if(mv[i].alt == 0) val(static_cast<const E *>(mv[i].at)) = x; else ftruth = x; SIM_PROBE(view_sees_write); } break; }
				default: break;
			}
			if(!r.ok() && !(touches && legal_failure(c, r, false))) violate(VIEW, "%s failed with %s", c.opname, out_name[static_cast<int>(r.out)]);
			if(!touches && c.elem_ops != ops0) violate(VIEW, "%s touched a referenced object", c.opname);
			check(c);
		}
		void finish(Ctx & c) override { for(auto & x : mr) x.destroy(c); for(auto & x : cr) x.destroy(c); for(auto & x : vr) x.destroy(c); o0.destroy(c); o1.destroy(c); po.destroy(c); so.destroy(c); f.destroy(c); { Off o{c}; uq.reset(); } if(c.live_elems) violate(LIFETIME, "%lld objects alive at the end", static_cast<long long>(c.live_elems)); }
		static World * make(Ctx & c, const Plan & p) { return new ObjView(c, p); }
	};
	static RegisterWorld r3{WorldKind{VIEW_NAME "_object", ObjView::ops(), ObjView::NOPS, VIEWFAULTS, &ObjView::make}};
}
}
