// Worlds: bitset extraction from a simulated source ("in<N>"), and insertion of strings, string references and bitsets into a simulated sink ("out").
#include "core.hpp"
#include <bitset>
#include <iostream>
#include <ptl/bitset.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>

namespace sim {
	[[noreturn]] static void stream_fault(Ctx & c) { Off off{c}; throw Fault{F_STREAM, c.fault_id}; }
	static void mark_fired(Ctx & c) { c.fired[F_STREAM] = true; ++c.run_fired; c.fault_id = c.step_no * 1000 + 1; if(c.st) ++c.st->faults_fired[F_STREAM]; }

	// character source: chunk sizes, put-back support, pauses (a temporary end of data) and failure positions are all decided by the plan
	struct Source final : std::streambuf {
		std::string text; std::size_t at{0}; // at: position of egptr() in text
		u32 chunk{1}; bool putback{true}, unbuffered{false};
		std::size_t pause{~std::size_t{0}}, fail{~std::size_t{0}}; // absolute positions
		Ctx * c{nullptr}; bool hit{false}; u64 refills{0};
		std::size_t pos() const { return at - static_cast<std::size_t>(egptr() - gptr()); }
		bool ready() {
			++refills;
			const std::size_t p{pos()};
			if(p == fail) { hit = true; fail = ~std::size_t{0}; SIM_PROBE(src_throws); if(c) { mark_fired(*c); stream_fault(*c); } throw Fault{F_STREAM, 0}; }
			if(p == pause) { SIM_PROBE(src_eof_mid); return false; }
			return p < text.size();
		}
		std::size_t stop(std::size_t p) const { std::size_t e{std::min(text.size(), p + chunk)}; if(pause > p) e = std::min(e, pause); if(fail > p) e = std::min(e, fail); return e; }
		int_type underflow() override {
			if(gptr() < egptr()) return traits_type::to_int_type(*gptr());
			if(!ready()) return traits_type::eof();
			if(unbuffered) return traits_type::to_int_type(text[at]);
			const std::size_t p{pos()}, e{stop(p)}, b{putback ? 0 : p};
			if(!putback) SIM_PROBE(src_no_putback);
			if(chunk == 1) SIM_PROBE(src_chunk1);
			setg(text.data() + b, text.data() + p, text.data() + e); at = e;
			return traits_type::to_int_type(*gptr());
		}
		int_type uflow() override {
			if(!unbuffered) { const auto r{underflow()}; if(!traits_type::eq_int_type(r, traits_type::eof())) gbump(1); return r; }
			if(!ready()) return traits_type::eof();
			setg(nullptr, nullptr, nullptr);
			return traits_type::to_int_type(text[at++]);
		}
		int_type pbackfail(int_type ch) override {
			if(unbuffered && putback && at > 0) { --at; return traits_type::to_int_type(text[at]); }
			(void)ch; return traits_type::eof();
		}
		void rewind(std::size_t p) { setg(nullptr, nullptr, nullptr); at = p; }
		void drop_buffer() { rewind(pos()); }
	};

	template<std::size_t N>
	struct InWorld final : World {
		using B = ptl::bitset<N>;
		Source src, twin; std::istream is{&src}, ts{&twin}; B b[2]{}; std::string m[2]; // model: N digits, most significant first
		std::bitset<N> sb;
		enum Op : u32 { EXTRACT, EXTRACT_TWO, CLEAR, SKIPWS, MASK, GETC, PRESET, CHUNKS, PAUSE, RESUME, APPEND, NOPS };
		static const OpInfo * ops() { static const OpInfo o[]{{"extract",20},{"extract_two",6},{"clear",8},{"skipws",2},{"mask",2},{"getc",6},{"preset",4},{"chunks",4},{"pause",4},{"resume",3},{"append",5}}; static_assert(sizeof o / sizeof *o == NOPS); return o; }
		static std::string gen(Rng & r) {
			std::string t;
			for(u32 i{0}, n{1 + r.below(6)}; i < n; ++i) {
				if(r.chance(1, 3)) t += std::string(r.below(4), " \t\n"[r.below(3)]);
				const u32 len{r.chance(1, 4) ? r.below(4) : r.chance(1, 2) ? static_cast<u32>(N) + r.below(5) - std::min<u32>(2, static_cast<u32>(N)) : r.below(static_cast<u32>(N) + 10)};
				for(u32 k{0}; k < len; ++k) t += static_cast<char>('0' + r.below(2));
				if(r.chance(1, 4)) t += "2x\0\377/:,"[r.below(7)];
			}
			return t;
		}
		explicit InWorld(Ctx &, const Plan & p) {
			Rng r{p.cfg[0] % 100000}; src.text = gen(r); src.text.reserve(4096); m[0] = m[1] = std::string(N, '0');
			src.chunk = 1 + p.cfg[1] % 5; src.putback = p.cfg[2] % 2; src.unbuffered = p.cfg[3] % 4 == 0;
		}
		u32 abs_state() const override { return static_cast<u32>(is.rdstate()) * 8 + (src.putback ? 1u : 0u) + (src.unbuffered ? 2u : 0u) + ((is.flags() & std::ios::skipws) ? 4u : 0u); }
		static std::string digits(const B & x) { std::string r; for(std::size_t i{N}; i != 0; --i) r += x[i - 1] ? '1' : '0'; return r; }
		struct Want { std::ios::iostate state; std::size_t pos; std::string value; bool touched; };
		// reference: what the standard requires of an extraction
		Want expect(std::ios::iostate state, std::size_t p, const std::string & old, bool skip, std::size_t fail) const {
			Want w{state, p, old, false};
			if(state != std::ios::goodbit) { w.state |= std::ios::failbit; return w; }
			enum { DATA, END, THROW };
			const auto look{[&](std::size_t q) { return q == fail ? THROW : q == src.pause || q >= src.text.size() ? END : DATA; }};
			if(skip) for(;;) { const auto l{look(w.pos)}; if(l == THROW) { w.state |= std::ios::badbit | std::ios::failbit; return w; } if(l == END) { w.state |= std::ios::eofbit | std::ios::failbit; return w; } if(!std::strchr(" \t\n", src.text[w.pos]) || !src.text[w.pos]) break; ++w.pos; SIM_PROBE(ws_skipped); }
			std::string d;
			while(d.size() < N) { const auto l{look(w.pos)}; if(l == THROW) { w.state |= std::ios::badbit; break; } if(l == END) { w.state |= std::ios::eofbit; break; } const char ch{src.text[w.pos]}; if(ch != '0' && ch != '1') break; d += ch; ++w.pos; }
			if(d.empty()) { if(N) w.state |= std::ios::failbit; }
			else { w.value = std::string(N - d.size(), '0') + d; w.touched = true; }
			return w;
		}
		static std::string state_name(std::ios::iostate s) { std::string r; if(s & std::ios::eofbit) r += "eof "; if(s & std::ios::failbit) r += "fail "; if(s & std::ios::badbit) r += "bad "; return r.empty() ? "good" : r; }
		void check(Ctx & c) { for(int k{0}; k < 2; ++k) { const auto d{digits(b[k])}; for(char ch : d) c.log(static_cast<u64>(ch)); if(d != m[k]) { violate(STREAM, "bitset %d is %s, expected %s (after %s)", k, d.c_str(), m[k].c_str(), c.opname); m[k] = d; } } }
		void step(Ctx & c, const Step & s) override { Off off{c}; impl(c, s); check(c); }
		void impl(Ctx & c, const Step & s) {
			src.c = &c;
			switch(s.op) {
				case EXTRACT: case EXTRACT_TWO: {
					const u32 k{s.a[0] % 2}; const bool two{s.op == EXTRACT_TWO}; const std::size_t from{src.pos()}; const auto state{is.rdstate()}; const auto mask{is.exceptions()}; const bool skip{(is.flags() & std::ios::skipws) != 0};
					const std::size_t fail{s.fk == F_STREAM ? from + (s.fat - 1) : ~std::size_t{0}};
					const auto pf{src.fail}; src.fail = fail; (void)pf; src.drop_buffer(); src.hit = false;
					Want w{expect(state, from, m[k], skip, fail)}; Want w2{w};
					if(two) { // the second extraction starts where the first one stopped; a failure happens only once
						const bool used{(w.state & std::ios::badbit) && !(state & std::ios::badbit)};
						w2 = (w.state & mask) ? w : expect(w.state, w.pos, m[1 - k], skip, used ? ~std::size_t{0} : fail);
					}
					if(c.trace) c.note("    text at %zu: \"%.40s\" chunk %u%s%s state %s", from, src.text.c_str() + std::min(from, src.text.size()), src.chunk, src.putback ? "" : " no put-back", src.unbuffered ? " unbuffered" : "", state_name(state).c_str());
					const bool differential{!two && mask == std::ios::goodbit && src.putback};
					if(differential) { twin.text = src.text; twin.rewind(from); twin.chunk = src.chunk; twin.putback = true; twin.unbuffered = src.unbuffered; twin.pause = src.pause; twin.fail = fail; twin.c = nullptr; ts.exceptions(std::ios::goodbit); ts.clear(state); ts.flags(is.flags());
						for(std::size_t x{0}; x < N; ++x) sb[x] = m[k][N - 1 - x] == '1';
						ts >> sb; }
					Result r; { const bool tr{c.track}; r = sut(c, [&] { std::istream & q{two ? is >> b[k] >> b[1 - k] : is >> b[k]}; if(&q != &is) violate(STREAM, "extraction returned another stream"); }); c.track = tr; }
					src.drop_buffer();
					const auto got{is.rdstate()}; const std::size_t pos{src.pos()}; const Want & last{two ? w2 : w};
					const bool must_throw{(last.state & mask) != 0};
					if(!r.ok() != must_throw) violate(STREAM, "extraction %s although the stream's exception mask %s it", r.ok() ? "did not throw" : "threw", must_throw ? "requires" : "does not allow");
					if(r.out == Out::fault && !legal_failure(c, r, false)) violate(STREAM, "extraction threw something that was not injected");
					if(!r.ok() && r.out != Out::fault && r.out != Out::other) violate(STREAM, "extraction threw %s", out_name[static_cast<int>(r.out)]);
					if(mask == std::ios::goodbit ? got != last.state : (got & mask) != (last.state & mask) && !(got & mask & last.state)) violate(STREAM, "the stream state is %s, expected %s", state_name(got).c_str(), state_name(last.state).c_str());
					if(pos != last.pos) violate(STREAM, "%zu characters were consumed, expected %zu", pos - from, last.pos - from);
					// a failing source may leave the previous value or the digits read so far
					const auto settle{[&](u32 q, const Want & e) { const auto d{digits(b[q])}; const bool bad{(e.state & std::ios::badbit) != 0}; if(d != e.value && !(bad && d == m[q])) { violate(STREAM, "bitset holds %s, expected %s", d.c_str(), e.value.c_str()); } m[q] = d; }};
					settle(k, w); if(two) { if((w.state & mask) == 0) settle(1 - k, w2); }
					if(differential) {
						twin.drop_buffer();
						if(ts.rdstate() != w.state) violate(STREAM, "model disagrees with std::bitset about the state: %s vs %s", state_name(w.state).c_str(), state_name(ts.rdstate()).c_str());
						std::string sd; for(std::size_t x{N}; x != 0; --x) sd += sb[x - 1] ? '1' : '0';
						if(sd != w.value) violate(STREAM, "model disagrees with std::bitset about the value");
						if(twin.pos() != w.pos) violate(STREAM, "model disagrees with std::bitset about the position");
					}
					src.fail = ~std::size_t{0};
					if(mask != std::ios::goodbit) { const auto st{is.rdstate()}; is.exceptions(std::ios::goodbit); is.clear(st); }
					c.log(static_cast<u64>(got)); c.log(pos); return;
				}
				case CLEAR: is.clear(); return;
				case SKIPWS: if(s.a[1] % 3 == 0) { is.width(static_cast<std::streamsize>(s.a[2] % 9)); return; } /* extraction of bits does not depend on the width */ if(is.flags() & std::ios::skipws) is.unsetf(std::ios::skipws); else is.setf(std::ios::skipws); return;
				case MASK: { is.clear(); static const std::ios::iostate ms[]{std::ios::badbit, std::ios::failbit, std::ios::eofbit, std::ios::failbit | std::ios::badbit, std::ios::eofbit | std::ios::failbit | std::ios::badbit}; is.exceptions(ms[s.a[1] % 5]); return; }
				case GETC: { const auto ms{is.exceptions()}; is.exceptions(std::ios::goodbit); is.clear(); is.get(); is.clear(); is.exceptions(ms); src.drop_buffer(); return; }
				case PRESET: if constexpr(N != 0) { const u32 k{s.a[0] % 2}; for(std::size_t x{0}; x < N; ++x) { const bool v{(mix(s.a[1], x) & 1) != 0}; b[k].set(x, v); m[k][N - 1 - x] = v ? '1' : '0'; } } return;
				case CHUNKS: src.drop_buffer(); src.chunk = 1 + s.a[1] % 9; src.putback = s.a[2] % 2; src.unbuffered = s.a[3] % 3 == 0; return;
				case PAUSE: src.drop_buffer(); src.pause = src.pos() + s.a[1] % (N + 4); return;
				case RESUME: src.drop_buffer(); src.pause = ~std::size_t{0}; is.clear(); return;
				case APPEND: { if(src.text.size() > 3000) return; const auto p{src.pos()}; Rng r{s.a[1] % 100000}; src.text += gen(r); src.rewind(p); return; }
			}
		}
		void finish(Ctx &) override {}
		static World * make(Ctx & c, const Plan & p) { Off off{c}; return new InWorld(c, p); }
		static WorldKind kind(const char * name) { return WorldKind{name, ops(), NOPS, 1u << F_STREAM, &make}; }
	};

	// character sink: accepts `room` characters in all, through a buffer of any size or none, then refuses or throws
	struct Sink final : std::streambuf {
		std::string got; char buf[64]; u32 bufsize{0}; std::size_t room{~std::size_t{0}}; bool throws{false}, bulk{false}, at_fault{false}; Ctx * c{nullptr}; bool hit{false};
		void flush_buffer() { got.append(pbase(), pptr()); setp(nullptr, nullptr); }
		std::size_t left() const { return room - std::min(room, got.size()); }
		void refuse() { hit = true; if(at_fault && c) mark_fired(*c); if(throws) { SIM_PROBE(sink_throws); if(c) { if(!at_fault) c->fired[F_STREAM] = true, c->fault_id = c->step_no * 1000 + 1; stream_fault(*c); } } SIM_PROBE(sink_short); }
		int_type overflow(int_type ch) override {
			Off off{*cur}; flush_buffer();
			if(!left()) { refuse(); return traits_type::eof(); }
			if(bufsize) { const std::size_t n{std::min<std::size_t>(bufsize, left())}; setp(buf, buf + n); if(!traits_type::eq_int_type(ch, traits_type::eof())) { *pptr() = traits_type::to_char_type(ch); pbump(1); } }
			else if(!traits_type::eq_int_type(ch, traits_type::eof())) got += traits_type::to_char_type(ch);
			return traits_type::not_eof(ch);
		}
		std::streamsize xsputn(const char * s, std::streamsize n) override {
			if(!bulk) return std::streambuf::xsputn(s, n);
			Off off{*cur}; flush_buffer();
			const auto take{std::min<std::size_t>(static_cast<std::size_t>(n), left())}; got.append(s, take);
			if(take < static_cast<std::size_t>(n)) refuse();
			return static_cast<std::streamsize>(take);
		}
		int sync() override { Off off{*cur}; flush_buffer(); return 0; }
	};

	struct OutWorld final : World {
		Sink sink; std::ostream os{&sink}; std::string want; ptl::string str[3]; std::string ms[3];
		ptl::bitset<0> b0; ptl::bitset<1> b1; ptl::bitset<8> b8; ptl::bitset<13> b13; ptl::bitset<64> b64; ptl::bitset<70> b70;
		enum Op : u32 { PUT_STRING, PUT_REF, PUT_BITSET, PUT_SEVERAL, SET_STRING, SET_BITS, WIDTH, ADJUST, CLEAR, MASK, BUFFERING, ROOM, UNITBUF, ROUNDTRIP, NOPS };
		static const OpInfo * ops() { static const OpInfo o[]{{"put_string",10},{"put_ref",10},{"put_bitset",12},{"put_several",5},{"set_string",4},{"set_bits",4},{"width",4},{"adjust",3},{"clear",8},{"mask",2},{"buffering",5},{"room",5},{"unitbuf",2},{"roundtrip",4}}; static_assert(sizeof o / sizeof *o == NOPS); return o; }
		template<typename F> void with_bits(u32 k, F && f) { switch(k % 6) { case 0: f(b0); break; case 1: f(b1); break; case 2: f(b8); break; case 3: f(b13); break; case 4: f(b64); break; default: f(b70); } }
		template<std::size_t N> static std::string digits(const ptl::bitset<N> & x) { std::string r; for(std::size_t i{N}; i != 0; --i) r += x[i - 1] ? '1' : '0'; return r; }
		static std::string text(u32 seed) { Rng r{seed % 5000}; static const u32 lens[]{0, 1, 5, 20, 22, 23, 24, 31, 32, 33, 60, 130}; std::string t; for(u32 i{0}, n{lens[r.below(12)]}; i < n; ++i) t += r.chance(1, 8) ? "\0 \377\n%"[r.below(5)] : static_cast<char>('a' + r.below(26)); return t; }
		explicit OutWorld(Ctx &, const Plan & p) { for(u32 k{0}; k < 3; ++k) { ms[k] = text(p.cfg[k]); str[k] = std::string_view{ms[k]}; } buffering(p.cfg[3], p.cfg[4]); }
		void buffering(u32 a, u32 b) { sink.pubsync(); sink.bufsize = a % 3 == 0 ? 0 : 1 + a % 40; sink.bulk = b % 2; }
		u32 abs_state() const override { return static_cast<u32>(os.rdstate()) * 8 + (sink.bulk ? 1u : 0u) + (sink.bufsize ? 2u : 0u) + (os.width() ? 4u : 0u); }
		void step(Ctx & c, const Step & s) override { Off off{c}; impl(c, s); for(u32 k{0}; k < 3; ++k) if(static_cast<std::string_view>(str[k]) != ms[k]) violate(STREAM, "the written string %u changed", k); }
		// one insertion of text e (already padded)
		template<typename F> void put(Ctx & c, const Step & s, const std::string & e, F && f) {
			sink.pubsync(); sink.c = &c; sink.hit = false;
			const std::size_t before{sink.got.size()}; const auto state{os.rdstate()}; const auto mask{os.exceptions()};
			const auto room{sink.room}; const bool thr{sink.throws}; sink.at_fault = false;
			if(s.fk == F_STREAM && before + s.fat - 1 < sink.room) { sink.room = before + s.fat - 1; sink.throws = s.a[5] % 2; sink.at_fault = true; }
			const std::size_t space{sink.left()};
			const Result r{sut(c, [&] { std::ostream & q{f()}; if(&q != &os) violate(STREAM, "insertion returned another stream"); })};
			sink.pubsync(); const auto got{os.rdstate()};
			const std::string d{sink.got.substr(before)}; const bool good{state == std::ios::goodbit};
			const std::string w{good ? e.substr(0, std::min(e.size(), space)) : std::string{}}; const bool failed{good && e.size() > space};
			if(c.trace) c.note("    text of %zu, room for %zu, delivered %zu", e.size(), space, d.size());
			if(d != w) violate(STREAM, "delivered %zu characters that are not exactly the first %zu characters of the text", d.size(), w.size());
			if(failed && (got & (std::ios::badbit | std::ios::failbit)) == 0) violate(STREAM, "the sink failed after %zu of %zu characters and the stream does not report it", space, e.size());
			if(good && !failed && got != std::ios::goodbit) violate(STREAM, "the stream reports an error although everything was delivered");
			if(!good && (got & state) != state) violate(STREAM, "an insertion cleared the error state of the stream");
			if(r.out == Out::fault && !legal_failure(c, r, false)) violate(STREAM, "insertion threw something that was not injected");
			if(!r.ok() && (mask == std::ios::goodbit || !(got & mask))) violate(STREAM, "insertion threw although the stream's exception mask does not allow it");
			if(r.ok() && failed && (mask & std::ios::badbit)) violate(STREAM, "insertion did not throw although the stream's exception mask requires it");
			for(char ch : d) c.log(static_cast<u64>(ch)); c.log(static_cast<u64>(got));
			sink.room = room; sink.throws = thr; sink.at_fault = false; want = sink.got;
			if(mask != std::ios::goodbit) { const auto st{os.rdstate()}; os.exceptions(std::ios::goodbit); os.clear(st); }
			os.width(0);
			if(sink.got.size() > 20000) { const auto l{sink.left()}; sink.got.clear(); if(sink.room != ~std::size_t{0}) sink.room = l; }
		}
		std::string pad(std::string t) const { const auto w{static_cast<std::size_t>(os.width())}; if(t.size() >= w) return t; const std::string p(w - t.size(), os.fill()); return (os.flags() & std::ios::adjustfield) == std::ios::left ? t + p : p + t; }
		void impl(Ctx & c, const Step & s) {
			const u32 k{s.a[0] % 3};
			switch(s.op) {
				case PUT_STRING: put(c, s, pad(ms[k]), [&]() -> std::ostream & { return os << static_cast<const ptl::string &>(str[k]); }); return;
				case PUT_REF: { const std::size_t a{s.a[1] % (ms[k].size() + 1)}, n{s.a[2] % (ms[k].size() - a + 1)}; const ptl::string_ref r{std::string_view{ms[k]}.substr(a, n)}; put(c, s, pad(ms[k].substr(a, n)), [&]() -> std::ostream & { return os << r; }); return; }
				case PUT_BITSET: os.width(0); with_bits(s.a[1], [&](auto & b) { const auto before{b}; put(c, s, digits(b), [&]() -> std::ostream & { return os << static_cast<const std::decay_t<decltype(b)> &>(b); }); if(digits(before) != digits(b)) violate(STREAM, "insertion changed the bitset"); }); return;
				case PUT_SEVERAL: os.width(0); with_bits(s.a[1], [&](auto & b) { const ptl::string_ref r{std::string_view{ms[(k + 1) % 3]}}; if(os.exceptions() != std::ios::goodbit) return; put(c, s, ms[k] + digits(b) + ms[(k + 1) % 3], [&]() -> std::ostream & { return os << str[k] << b << r; }); }); return;
				case SET_STRING: ms[k] = text(s.a[1]); str[k] = std::string_view{ms[k]}; return;
				case SET_BITS: with_bits(s.a[1], [&](auto & b) { for(std::size_t x{0}; x < b.size(); ++x) b.set(x, (mix(s.a[2], x) & 1) != 0); }); return;
				case WIDTH: os.width(static_cast<std::streamsize>(s.a[1] % 5 == 0 ? s.a[2] % 200 : s.a[2] % 40)); return;
				case ADJUST: os.fill(" *0\xff"[s.a[1] % 4]); os.setf(s.a[2] % 3 == 0 ? std::ios::left : s.a[2] % 3 == 1 ? std::ios::right : std::ios::internal, std::ios::adjustfield); return;
				case CLEAR: os.clear(); if(s.a[1] % 2) sink.room = ~std::size_t{0}; return;
				case MASK: os.clear(); os.exceptions(s.a[1] % 2 ? std::ios::badbit : std::ios::badbit | std::ios::failbit); return;
				case BUFFERING: buffering(s.a[1], s.a[2]); return;
				case ROOM: sink.pubsync(); sink.room = sink.got.size() + s.a[1] % 50; sink.throws = s.a[2] % 2; return;
				case UNITBUF: if(os.flags() & std::ios::unitbuf) os.unsetf(std::ios::unitbuf); else os.setf(std::ios::unitbuf); return;
				case ROUNDTRIP: os.width(0); with_bits(1 + s.a[1] % 5, [&](auto & b) { if(os.rdstate() != std::ios::goodbit || os.exceptions() != std::ios::goodbit) return; const auto from{sink.got.size()}; put(c, s, digits(b), [&]() -> std::ostream & { return os << b; }); if(os.rdstate() != std::ios::goodbit) return;
					Source src; src.text = want.substr(std::min(from, want.size())); src.chunk = 1 + s.a[2] % 5; src.putback = s.a[3] % 2; std::istream is{&src}; std::decay_t<decltype(b)> back; is >> back; if(digits(back) != digits(b) || !is) violate(STREAM, "a bitset written and read back differs"); }); return;
			}
		}
		void finish(Ctx & c) override { Off off{c}; }
		static World * make(Ctx & c, const Plan & p) { Off off{c}; return new OutWorld(c, p); }
	};
	static RegisterWorld in0{InWorld<0>::kind("in<0>")}, in1{InWorld<1>::kind("in<1>")}, in7{InWorld<7>::kind("in<7>")}, in8{InWorld<8>::kind("in<8>")}, in9{InWorld<9>::kind("in<9>")}, in33{InWorld<33>::kind("in<33>")}, in64{InWorld<64>::kind("in<64>")}, in100{InWorld<100>::kind("in<100>")};
	static RegisterWorld o{WorldKind{"out", OutWorld::ops(), OutWorld::NOPS, 1u << F_STREAM, &OutWorld::make}};
}
