// Driver: seeded search, crash attribution, minimisation, replay gate, determinism self-test.
// The parent process never runs the code under test; every execution happens in a forked child.
#include "core.hpp"
#include <cerrno>
#include <cstdlib>
#include <csignal>
#include <exception>
#include <map>
#include <set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace sim {
	thread_local Ctx * cur{nullptr};
	u32 mode_flags{0};
	static Stats * g_st{nullptr};      // where the executing process reports
	static char * g_trace{nullptr};    // shared trace buffer (trace runs only)
	constexpr std::size_t trace_size{1 << 16};
	static u32 g_mask{0};
	static std::vector<std::string> g_count;

	std::vector<WorldKind> & world_kinds() { static std::vector<WorldKind> v; return v; }
	void Ctx::note(const char * fmt, ...) {
		if(!trace) return;
		Off off{*this};
		char b[512]; va_list ap; va_start(ap, fmt); std::vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
		if(g_trace) { const std::size_t n{std::strlen(g_trace)}; if(n + std::strlen(b) + 2 < trace_size) { std::strcat(g_trace + n, b); std::strcat(g_trace + n, "\n"); } }
	}

	[[noreturn]] static void die(int code) { _exit(code); }
	static bool matches(const std::vector<std::string> & pre, const char * name) { for(const auto & p : pre) if(std::strncmp(p.c_str(), name, p.size()) == 0) return true; return false; }
	bool op_counts(const char * name) { return g_count.empty() || matches(g_count, name); }

	// recorded defects (KNOWN_FINDINGS.txt): identified by the world and the class of the violation; they are counted, everything else still counts against the property
	struct Known { std::string world, cls; };
	static std::vector<Known> g_known; static const char * g_world{""};
	static bool known(Cls c) { for(std::size_t i{0}; i < g_known.size() && i < 16; ++i) if(g_known[i].world == g_world && g_known[i].cls == cls_name[c]) { if(g_st) ++g_st->known[i]; return true; } return false; }

	static void record(Cls c, const char * msg) {
		if(!g_st || g_st->violated) return;
		if(known(c)) { g_st->done = 3; return; }
		if(cur && !cur->counts) { g_st->done = 3; return; }   // the process is lost, but in a call that says nothing about the property
		g_st->cls = c; g_st->vrun = g_st->cur_run; g_st->vstep = g_st->cur_step; g_st->vop = g_st->cur_op; g_st->vhash = cur ? cur->hash : 0;
		std::snprintf(g_st->detail, sizeof g_st->detail, "%s", msg);
		__sync_synchronize();
		g_st->violated = 1;
	}

	void violate(Cls c, const char * fmt, ...) {
		Ctx * const c0{cur}; const bool a0{c0 && c0->armed}, t0{c0 && c0->track};
		if(cur) { cur->armed = false; cur->track = false; }
		char b[480]; va_list ap; va_start(ap, fmt); std::vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
		const bool k{(g_mask & bit(c)) && (!cur || cur->counts) && known(c)};
		if(cur && !k && c != ALIGN) cur->log(0xbad0000 + c);
		if(k) { if(cur && cur->trace) cur->note("    (known finding) %s: %s", cls_name[c], b); }
		else if((g_mask & bit(c)) && (!cur || cur->counts)) {
			if(cur && cur->trace) cur->note("    !! %s: %s", cls_name[c], b);
			record(c, b);
			die(42);
		}
		else { if(g_st) ++g_st->foreign[c]; if(cur && cur->trace) cur->note("    (outside this property) %s: %s", cls_name[c], b); }
		if(c0) { c0->armed = a0; c0->track = t0; }
	}
	void probe(Probe p) { if(g_st) ++g_st->probe[p]; }
	void abandon_run() { throw Abandon{}; }

	static void on_terminate() { if(g_mask & bit(TERMINATE)) record(TERMINATE, "the library ended the process (std::terminate)"); die(42); }
	static void on_abort(int) { record(TERMINATE, "the process was aborted"); die(42); }
	static void on_timer(int) { record(HANG, "no progress: the operation did not return within the simulated budget"); die(42); }
	static void on_fault(int sig) { char b[64]; std::snprintf(b, sizeof b, "signal %d", sig); record(CRASH, b); die(42); }

	static void arm_timer(int s) { itimerval t{}; t.it_value.tv_sec = s; setitimer(ITIMER_VIRTUAL, &t, nullptr); }

	static void child_setup(Stats * st, u32 mask, bool quiet) {
		g_st = st; g_mask = mask;
		std::set_terminate(on_terminate);
		std::signal(SIGABRT, on_abort); std::signal(SIGVTALRM, on_timer);
		for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP}) { struct sigaction a{}; a.sa_handler = on_fault; a.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &a, nullptr); }
		static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
		rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
		if(quiet) { const int fd{open("/dev/null", O_WRONLY)}; if(fd >= 0) { dup2(fd, 2); close(fd); } }
	}

	void asan_report(const char * text) {
		// first line that names the error
		char b[300]{}; const char * p{std::strstr(text, "ERROR: ")}; if(!p) p = std::strstr(text, "runtime error"); if(!p) p = text;
		std::size_t n{0}; while(p[n] && p[n] != '\n' && n < 90) { b[n] = p[n]; ++n; }
		if(char * at{std::strstr(b, " on ")}) *at = 0; // drop addresses
		if(char * at{std::strstr(b, "0x")}) *at = 0;
		record(CRASH, b);
	}

	void execute(Ctx & c, const Plan & p) {
		cur = &c;
		mode_flags = p.cfg[7];
		c.begin_run(p); reset_heap();
		const auto & k{world_kinds()[p.kind]}; g_world = k.name;
		arm_timer(4);
		World * w{nullptr};
		try {
			if(k.run) { k.run(c, p); }
			else {
				w = k.make(c, p);
				u32 n{0};
				for(const auto & s : p.steps) {
					const auto op{s.op % k.nops};
					c.begin_step(s, ++n, k.ops[op].name);
					if(c.trace) { c.note("step %u: %s%s%s", n, k.ops[op].name, s.fk ? "  fault=" : "", s.fk ? fk_name[s.fk] : ""); if(s.fk) c.note("    (at fault point %u)", s.fat); }
					Step t{s}; t.op = op;
					const u32 before{w->abs_state()};
					w->step(c, t);
					u64 h{mix(mix(p.kind * 977 + op, before), w->abs_state())}; for(int i{1}; i < NFK; ++i) h = mix(h, c.fired[i]);
					if(c.st) { ++c.st->sim_events; c.st->cover[(h >> 3) & 0xffff] |= static_cast<u8>(1u << (h & 7)); }
				}
				c.step_no = ++n; c.rename("end-of-run"); if(c.st) { c.st->cur_step = n; c.st->cur_op = ~0u; }
				c.fk = 0;
				w->finish(c);
				delete w; w = nullptr;
				if(c.live_elems) violate(LIFETIME, "%lld elements are alive at the end of the run", static_cast<long long>(c.live_elems));
				end_of_run_leak_check(c);
			}
		} catch(const Abandon &) { if(c.st) ++c.st->foreign_aborts; c.log(0xaba); /* objects may be broken: leave them */ }
		arm_timer(0);
		c.armed = c.track = false;
		cur = nullptr;
	}

	// ---------- generation ----------
	static std::vector<std::string> split_at(const char * s, char at) { std::vector<std::string> r; std::string t; for(; *s; ++s) { if(*s == at) { r.push_back(t); t.clear(); } else t += *s; } if(!t.empty()) r.push_back(t); return r; }
	static std::vector<std::string> split(const char * s) { return split_at(s, ','); }
	struct Gen {
		const Mode & m; std::vector<u32> kinds; std::vector<std::string> focus, only;
		explicit Gen(const Mode & m) : m{m}, focus{split(m.focus)}, only{split(m.only)} {
			std::map<std::string, u32> byname; const auto pre{split(m.kinds)};
			for(u32 i{0}; i < world_kinds().size(); ++i) if(matches(pre, world_kinds()[i].name)) byname[world_kinds()[i].name] = i;
			for(auto & [n, i] : byname) kinds.push_back(i);   // by name: independent of link order
		}
		Plan operator()(u64 seed, u64 run) const {
			Rng r{mix(mix(mix(0x51, seed), run), m.id[1] * 131 + m.id[2])}; r.next();
			Plan p; p.kind = kinds[run % kinds.size()];
			const auto & k{world_kinds()[p.kind]};
			for(int i{0}; i < 7; ++i) p.cfg[i] = r.u();
			p.cfg[7] = m.flags; p.gseed = r.next() % 1000;
			const u32 sel{r.below(10)};
			u32 n{sel < 2 ? 1 + r.below(6) : sel < 7 ? 6 + r.below(12) : 16 + r.below(30)};
			u32 enabled{0}; for(int f{1}; f < NFK; ++f) if((m.faults & k.faults & (1u << f)) && r.chance(3, 4)) enabled |= 1u << f;
			if(!enabled) enabled = m.faults & k.faults;
			static const u32 rates[]{0, 8, 20, 35, 50};
			u32 rate{rates[r.below(5)]}; if(rate > m.fault_pct) rate = m.fault_pct;
			std::vector<u32> w(k.nops); u64 total{0};
			for(u32 i{0}; i < k.nops; ++i) {
				static const u32 mul[]{0, 1, 1, 2, 4};
				w[i] = k.ops[i].weight * mul[r.below(5)];
				if(matches(focus, k.ops[i].name)) w[i] = w[i] * 4 + k.ops[i].weight;
				if(!only.empty() && !matches(only, k.ops[i].name)) w[i] = 0;
				total += w[i];
			}
			if(!total) for(u32 i{0}; i < k.nops; ++i) { if(only.empty() || matches(only, k.ops[i].name)) w[i] = k.ops[i].weight; total += w[i]; }
			u32 burst{0};
			for(u32 i{0}; i < n; ++i) {
				Step s; u64 x{r.next() % total}; u32 op{0}; while(x >= w[op]) x -= w[op++];
				s.op = op;
				for(auto & a : s.a) a = r.chance(1, 4) ? r.below(6) : r.u() >> 4;
				if(burst) { --burst; s.fk = F_OOM; s.fat = 1; }
				else if((m.flags & M_OOM_BURST) && (enabled & (1u << F_OOM)) && r.chance(1, 6)) { burst = 1 + r.below(10); s.fk = F_OOM; s.fat = 1; }
				else if(enabled && r.chance(rate, 100)) {
					std::vector<u32> ks; for(u32 f{1}; f < NFK; ++f) if(enabled & (1u << f)) ks.push_back(f);
					s.fk = ks[r.below(static_cast<u32>(ks.size()))];
					s.fat = r.chance(1, 2) ? 1 + r.below(2) : r.chance(1, 2) ? 1 + r.below(6) : r.chance(7, 8) ? 1 + r.below(24) : 1 + r.below(300);
				}
				p.steps.push_back(s);
			}
			if(k.gen) k.gen(r, p, m);
			return p;
		}
	};

	static const Gen * g_gen{nullptr};

	// ---------- plan <-> text ----------
	static std::string to_text(const Plan & p, const Mode & m) {
		char b[256]; std::string s{"ptl-sim-replay 1\n"};
		s += std::string{"property "} + m.id + "\nkind " + world_kinds()[p.kind].name + "\n";
		s += "cfg"; for(auto c : p.cfg) { std::snprintf(b, sizeof b, " %u", c); s += b; } std::snprintf(b, sizeof b, "\ngarbage %llu\n", static_cast<unsigned long long>(p.gseed)); s += b;
		for(const auto & t : p.steps) { std::snprintf(b, sizeof b, "step %u %u %u %u %u %u %u %u %u %u # %s\n", t.op, t.fk, t.fat, t.a[0], t.a[1], t.a[2], t.a[3], t.a[4], t.a[5], t.task, world_kinds()[p.kind].ops[t.op % world_kinds()[p.kind].nops].name); s += b; }
		if(p.before[3]) { std::snprintf(b, sizeof b, "before %llu %llu %llu %llu # runs generated from (seed, first, stride, end) come first in the same process\n", static_cast<unsigned long long>(p.before[0]), static_cast<unsigned long long>(p.before[1]), static_cast<unsigned long long>(p.before[2]), static_cast<unsigned long long>(p.before[3])); s += b; }
		for(const auto & q : p.preempts) { std::snprintf(b, sizeof b, "preempt %u %u\n", q.first, q.second); s += b; }
		return s;
	}
	struct Expect { int cls{-1}; u32 step{0}; u64 hash{0}; };
	static bool from_text(const char * path, Plan & p, std::string & prop, Expect & e) {
		FILE * f{std::fopen(path, "r")}; if(!f) return false;
		char l[512]; bool kindok{false};
		while(std::fgets(l, sizeof l, f)) {
			char n[64]; Step s; unsigned x, y; unsigned long long h, h2, h3, h4;
			if(std::sscanf(l, "property %63s", n) == 1) prop = n;
			else if(std::sscanf(l, "kind %63[^\n]", n) == 1) { for(u32 i{0}; i < world_kinds().size(); ++i) if(!std::strcmp(n, world_kinds()[i].name)) { p.kind = i; kindok = true; } }
			else if(!std::strncmp(l, "cfg", 3)) std::sscanf(l, "cfg %u %u %u %u %u %u %u %u", p.cfg, p.cfg + 1, p.cfg + 2, p.cfg + 3, p.cfg + 4, p.cfg + 5, p.cfg + 6, p.cfg + 7);
			else if(std::sscanf(l, "garbage %llu", &h) == 1) p.gseed = h;
			else if(std::sscanf(l, "step %u %u %u %u %u %u %u %u %u %u", &s.op, &s.fk, &s.fat, s.a, s.a + 1, s.a + 2, s.a + 3, s.a + 4, s.a + 5, &s.task) == 10) p.steps.push_back(s);
			else if(std::sscanf(l, "before %llu %llu %llu %llu", &h, &h2, &h3, &h4) == 4) { p.before[0] = h; p.before[1] = h2; p.before[2] = h3; p.before[3] = h4; }
			else if(std::sscanf(l, "preempt %u %u", &x, &y) == 2) p.preempts.push_back({x, y});
			else if(std::sscanf(l, "expect %d %u %llx", &e.cls, &e.step, &h) == 3) e.hash = h;
		}
		std::fclose(f); return kindok;
	}

	template<typename T> static T * shared(std::size_t n = 1) { void * p{mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)}; if(p == MAP_FAILED) { std::perror("mmap"); std::exit(2); } return static_cast<T *>(p); }
	static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9; }

	struct Verdict { bool violated{false}; int cls{0}; u32 step{0}, op{0}; u64 hash{0}; std::string detail; };
	static Verdict verdict_of(const Stats & s, int status) {
		Verdict v;
		if(s.violated) { v = {true, s.cls, s.vstep, s.vop, s.vhash, s.detail}; if(v.cls == CRASH || v.cls == HANG || v.cls == TERMINATE) v.hash = 0; }
		else if(!s.done) { /* nothing recorded */ char b[64]; std::snprintf(b, sizeof b, "process ended unexpectedly (status 0x%x)", static_cast<unsigned>(status)); v = {true, CRASH, s.cur_step, s.cur_op, 0, b}; }
		return v;
	}

	// run one plan in a child of its own
	static Stats * one_st{nullptr};
	static Verdict run_isolated(const Plan & p, u32 mask, bool trace, u64 * hash = nullptr) {
		if(!one_st) one_st = shared<Stats>();
		std::memset(static_cast<void *>(one_st), 0, sizeof *one_st);
		if(trace) { if(!g_trace) g_trace = shared<char>(trace_size); g_trace[0] = 0; }
		const pid_t pid{fork()};
		if(pid == 0) {
			child_setup(one_st, mask, true);
			Ctx c; c.st = one_st; c.mask = mask;
			if(p.before[3] && g_gen) for(u64 r{p.before[1]}; r < p.before[3]; r += p.before[2]) { one_st->cur_step = 0; one_st->cur_op = ~0u; const auto q{(*g_gen)(p.before[0], r)}; execute(c, q); }
			one_st->cur_step = 0; one_st->cur_op = ~0u;
			c.trace = trace;
			execute(c, p);
			one_st->last_hash = c.hash; one_st->done = 1;
			die(0);
		}
		int status{0}; while(waitpid(pid, &status, 0) < 0 && errno == EINTR);
		if(hash) *hash = one_st->last_hash;
		return verdict_of(*one_st, status);
	}

	static Plan minimise(const Plan & orig, const Verdict & want, u32 mask, double budget, u64 & execs) {
		Plan best{orig}; const double t0{now()};
		auto still{[&](const Plan & p) { if(now() - t0 > budget || execs > 6000) return false; ++execs; const auto v{run_isolated(p, mask, false)}; return v.violated && v.cls == want.cls; }};
		if(!world_kinds()[best.kind].run && want.step < best.steps.size()) { Plan t{best}; t.steps.resize(want.step); if(still(t)) best = t; }
		for(int round{0}; round < 4; ++round) {
			bool changed{false};
			for(std::size_t chunk{std::max<std::size_t>(1, best.steps.size() / 2)};; chunk /= 2) {
				for(std::size_t i{0}; i < best.steps.size();) {
					Plan t{best}; const auto e{std::min(t.steps.size(), i + chunk)};
					t.steps.erase(t.steps.begin() + static_cast<std::ptrdiff_t>(i), t.steps.begin() + static_cast<std::ptrdiff_t>(e));
					if(still(t)) { best = t; changed = true; } else i += chunk;
				}
				if(chunk <= 1) break;
			}
			for(std::size_t chunk{std::max<std::size_t>(1, best.preempts.size() / 2)}; !best.preempts.empty(); chunk /= 2) {
				for(std::size_t i{0}; i < best.preempts.size();) {
					Plan t{best}; const auto e{std::min(t.preempts.size(), i + chunk)};
					t.preempts.erase(t.preempts.begin() + static_cast<std::ptrdiff_t>(i), t.preempts.begin() + static_cast<std::ptrdiff_t>(e));
					if(still(t)) { best = t; changed = true; } else i += chunk;
				}
				if(chunk <= 1) break;
			}
			for(std::size_t i{0}; i < best.steps.size(); ++i) {
				if(best.steps[i].fk) { Plan t{best}; t.steps[i].fk = t.steps[i].fat = 0; if(still(t)) { best = t; changed = true; } }
				while(best.steps[i].fk && best.steps[i].fat > 1) { Plan t{best}; --t.steps[i].fat; if(still(t)) { best = t; changed = true; } else break; }
			}
			for(int i{0}; i < 7; ++i) for(u32 v : {0u, 1u, best.cfg[i] % 16}) { if(best.cfg[i] <= v) break; Plan t{best}; t.cfg[i] = v; if(still(t)) { best = t; changed = true; break; } }
			if(best.gseed) { Plan t{best}; t.gseed = 0; if(still(t)) best = t; }
			for(std::size_t i{0}; i < best.steps.size(); ++i) for(int a{0}; a < 6; ++a) {
				const u32 o{best.steps[i].a[a]};
				for(u32 v : {0u, 1u, 2u, o % 8, o % 64}) { if(o <= v) continue; Plan t{best}; t.steps[i].a[a] = v; if(still(t)) { best = t; changed = true; break; } }
			}
			if(!changed) break;
		}
		return best;
	}

	static std::string jesc(const std::string & s) { std::string r; for(char ch : s) { if(ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if(ch == '\n') r += "\\n"; else if(static_cast<unsigned char>(ch) < 32 || static_cast<unsigned char>(ch) > 126) r += '?'; else r += ch; } return r; }

	static std::string opname(const Plan & p, u32 op) { const auto & k{world_kinds()[p.kind]}; return op == ~0u ? "end-of-run" : op < k.nops ? k.ops[op].name : "?"; }

	static int run_main(int argc, char ** argv) {
		std::string prop, out, rdir{"."}, replay; u64 seed{1}, runs{0}; u64 digest{0}; double limit{1e9}; u32 workers{8}; bool thorough{false};
		for(int i{1}; i < argc; ++i) {
			const std::string a{argv[i]}; auto val{[&]() -> const char * { return i + 1 < argc ? argv[++i] : ""; }};
			if(a == "--prop") prop = val(); else if(a == "--seed") seed = std::strtoull(val(), nullptr, 10); else if(a == "--runs") runs = std::strtoull(val(), nullptr, 10);
			else if(a == "--time") limit = std::atof(val()); else if(a == "--workers") workers = static_cast<u32>(std::atoi(val())); else if(a == "--out") out = val();
			else if(a == "--replay-dir") rdir = val(); else if(a == "--replay") replay = val(); else if(a == "--thorough") thorough = true; else if(a == "--digest") digest = std::strtoull(val(), nullptr, 10);
			else if(a == "--list") { for(auto & k : world_kinds()) { std::printf("%s:", k.name); for(u32 j{0}; j < k.nops; ++j) std::printf(" %s", k.ops[j].name); std::printf("\n"); } return 0; }
		}
		if(const char * k{std::getenv("SIM_KNOWN")}) for(const auto & e : split_at(k, '\n')) { const auto at{e.rfind('=')}; if(at != std::string::npos) g_known.push_back({e.substr(0, at), e.substr(at + 1)}); }
		Plan rp; Expect ex;
		if(!replay.empty() && !from_text(replay.c_str(), rp, prop, ex)) { std::fprintf(stderr, "cannot read replay file %s\n", replay.c_str()); return 2; }
		const Mode * m{nullptr}; for(int i{0}; i < nmodes; ++i) if(prop == modes[i].id) m = &modes[i];
		if(!m) { std::fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
		const u32 mask{m->mask}; g_count = split(m->count);
		const Gen gen{*m}; g_gen = &gen;
		if(!replay.empty()) {
			const auto v{run_isolated(rp, mask, true)};
			std::fputs(g_trace, stdout);
			if(v.violated) std::printf("verdict %s step %u (%s) hash %016llx: %s\n", cls_name[v.cls], v.step, opname(rp, v.op).c_str(), static_cast<unsigned long long>(v.hash), v.detail.c_str());
			else std::printf("verdict none\n");
			if(ex.cls >= 0) { const bool same{v.violated && v.cls == ex.cls && v.step == ex.step && (v.hash == ex.hash || !ex.hash)}; std::printf("reproduced %s\n", same ? "yes" : "no"); return same ? 1 : v.violated ? 3 : 0; }
			return v.violated ? 1 : 0;
		}
		if(gen.kinds.empty()) { std::fprintf(stderr, "no worlds for %s in this build\n", prop.c_str()); return 2; }
		if(!runs) runs = thorough ? m->thorough_runs : m->quick_runs;
		if(digest) { // event hashes of the first runs, all in this one process
			Stats * st{shared<Stats>()}; child_setup(st, mask, true); Ctx c; c.st = st; c.mask = mask;
			u64 h{0}; for(u64 r{digest}; r-- > 0;) { st->cur_run = r; const auto p{gen(seed, r)}; execute(c, p); h ^= mix(r + 1, c.hash); }
			std::printf("%016llx\n", static_cast<unsigned long long>(h)); std::fflush(stdout); die(0);
		}
		// ---- search ----
		const double t0{now()};
		Stats * st{shared<Stats>(workers)};
		u64 * hashes{shared<u64>(runs)}; u8 * nontriv{shared<u8>(runs)};
		volatile u64 * min_viol{shared<u64>()}; *min_viol = runs;
		std::set<u64> skip; // runs whose violation did not reproduce
		bool found{false}; Plan vplan, mplan; Verdict vv; u64 vrun{0}; std::vector<std::string> unrepro; u64 execs{0}; bool timed_out{false};
		std::string rpath; Verdict mv; u64 from{0};
		for(int attempt{0}; attempt < 12 && !found; ++attempt) {
			*min_viol = runs;
			std::vector<pid_t> pids(workers);
			const auto spawn{[&](u32 w, u64 start) {
				st[w].done = 0; st[w].violated = 0;
				pids[w] = fork();
				if(pids[w] == 0) {
					child_setup(&st[w], mask, true);
					Ctx c; c.st = &st[w]; c.mask = mask;
					for(u64 r{start}; r < runs; r += workers) {
						if(r < from || skip.count(r)) continue;
						if(r > *min_viol) break;
						if((r / workers) % 16 == 0 && now() - t0 > limit) { st[w].done = 2; die(0); }
						st[w].cur_run = r; st[w].cur_step = 0; st[w].cur_op = ~0u;
						const auto p{gen(seed, r)};
						execute(c, p);
						hashes[r] = c.hash; nontriv[r] = static_cast<u8>(1 + (c.run_fired > 0 || c.elem_ops > 0));
						++st[w].runs; if(c.run_fired || c.elem_ops) ++st[w].nontrivial;
					}
					st[w].done = 1; die(0);
				}
			}};
			for(u32 w{0}; w < workers; ++w) spawn(w, w);
			std::vector<int> status(workers); u32 left{workers}, lost{0}; u64 lowest{runs}; u32 who{0}; bool any{false};
			while(left) {
				int s; const pid_t pid{wait(&s)}; if(pid < 0) break;
				for(u32 w{0}; w < workers; ++w) if(pids[w] == pid) {
					--left; status[w] = s;
					if(st[w].done == 3 && !st[w].violated && lost < 5000) { ++lost; hashes[st[w].cur_run] = 1; nontriv[st[w].cur_run] = 1; ++st[w].foreign_aborts; ++left; spawn(w, st[w].cur_run + workers); }
					else if(st[w].done == 2) timed_out = true;
					else if(st[w].violated || st[w].done != 1) {
						const u64 r{st[w].violated ? st[w].vrun : static_cast<u64>(st[w].cur_run)};
						if(!any || r < lowest) { lowest = r; who = w; any = true; }
						u64 c{*min_viol}; while(r < c && !__sync_bool_compare_and_swap(const_cast<u64 *>(min_viol), c, r)) c = *min_viol;
					}
				}
			}
			if(!any) break;
			vrun = lowest; vplan = gen(seed, vrun);
			const Verdict first{verdict_of(st[who], status[who])};
			// alone first; if it then does not fail, after the runs that came before it in its process (code under test that keeps state of its own)
			Verdict again; bool same{false}, loose{false};
			for(u64 back{0};; back = back ? back * 4 : 1) {
				const u64 mine{vrun / workers};
				if(back) { vplan.before[0] = seed; vplan.before[1] = back >= mine ? vrun % workers : vrun - back * workers; vplan.before[2] = workers; vplan.before[3] = vrun; if(!mine) break; }
				again = run_isolated(vplan, mask, false); const auto again2{run_isolated(vplan, mask, false)};
				same = again.violated && again2.violated && again.cls == again2.cls && again.step == again2.step;
				loose = again.hash != again2.hash;   // the event log depends on something the simulator does not decide (addresses); the verdict does not
				if(same || (back && back >= mine) || now() - t0 > limit + 60) break;
			}
			if(!same) { char b[700]; std::snprintf(b, sizeof b, "run %llu: %s (%s), alone: %s", static_cast<unsigned long long>(vrun), cls_name[first.cls], first.detail.c_str(), again.violated ? again.detail.c_str() : "none"); unrepro.push_back(b); skip.insert(vrun); from = vrun; continue; }
			vv = again;
			// minimise, then gate: twice in children, once in a fresh process
			for(int pass{0}; pass < 2 && !found; ++pass) {
				mplan = pass == 0 ? minimise(vplan, vv, mask, vv.cls == HANG ? 60.0 : 25.0, execs) : vplan;
				const auto a{run_isolated(mplan, mask, false)}, b{run_isolated(mplan, mask, true)};
				if(!(a.violated && b.violated && a.cls == b.cls && a.step == b.step)) continue;
				loose = loose || a.hash != b.hash;
				for(int strict{loose ? 0 : 1}; strict >= 0 && !found; --strict) {
					mv = a; if(!strict) mv.hash = 0;
					char buf[900]; std::snprintf(buf, sizeof buf, "%s/%s-seed%llu-run%llu.plan", rdir.c_str(), m->id, static_cast<unsigned long long>(seed), static_cast<unsigned long long>(vrun)); rpath = buf;
					FILE * f{std::fopen(rpath.c_str(), "w")}; if(!f) { std::perror("replay file"); return 2; }
					std::fputs(to_text(mplan, *m).c_str(), f);
					std::fprintf(f, "expect %d %u %016llx\n", mv.cls, mv.step, static_cast<unsigned long long>(mv.hash));
					std::fprintf(f, "# seed %llu run %llu; %s in %s: %s\n# steps %zu (of %zu), minimised with %llu executions\n", static_cast<unsigned long long>(seed), static_cast<unsigned long long>(vrun), cls_name[a.cls], opname(mplan, a.op).c_str(), a.detail.c_str(), mplan.steps.size(), vplan.steps.size(), static_cast<unsigned long long>(execs));
					for(const char * l{g_trace}; *l;) { const char * e{std::strchr(l, '\n')}; if(!e) break; std::fprintf(f, "# %.*s\n", static_cast<int>(e - l), l); l = e + 1; }
					std::fclose(f);
					bool all{true};
					for(int i{strict ? 0 : 3}; i >= 0 && all; --i) { // without the event log to compare, more repetitions
						const pid_t pid{fork()};
						if(pid == 0) { const int n{open("/dev/null", O_WRONLY)}; dup2(n, 1); dup2(n, 2); execl("/proc/self/exe", "sim", "--replay", rpath.c_str(), static_cast<char *>(nullptr)); die(9); }
						int s{0}; waitpid(pid, &s, 0);
						all = WIFEXITED(s) && WEXITSTATUS(s) == 1;
					}
					found = all;
				}
			}
			if(!found) { char b[700]; std::snprintf(b, sizeof b, "run %llu: %s (%s) did not pass the replay gate", static_cast<unsigned long long>(vrun), cls_name[vv.cls], vv.detail.c_str()); unrepro.push_back(b); skip.insert(vrun); from = vrun; }
		}
		const double wall{now() - t0};
		// ---- determinism self-test: same seeds in a fresh process, other worker count, reverse order ----
		std::string determinism{"skipped (violation found)"}; bool det_ok{true};
		if(!found && unrepro.empty()) {
			u64 n{std::min<u64>(runs, thorough ? 4000 : 400)}; while(n && !nontriv[n - 1]) --n;
			u64 h{0}; bool all{true}; for(u64 r{0}; r < n; ++r) { if(!nontriv[r]) all = false; h ^= mix(r + 1, hashes[r]); }
			if(n && all) {
				char nb[32], sb[32]; std::snprintf(nb, sizeof nb, "%llu", static_cast<unsigned long long>(n)); std::snprintf(sb, sizeof sb, "%llu", static_cast<unsigned long long>(seed));
				int pp[2]; if(pipe(pp)) return 2;
				const pid_t pid{fork()};
				if(pid == 0) { dup2(pp[1], 1); close(pp[0]); const int d{open("/dev/null", O_WRONLY)}; dup2(d, 2); execl("/proc/self/exe", "sim", "--prop", m->id, "--seed", sb, "--digest", nb, static_cast<char *>(nullptr)); die(9); }
				close(pp[1]); char b[64]{}; ssize_t got{0}, k; while(got < 60 && (k = read(pp[0], b + got, static_cast<std::size_t>(60 - got))) > 0) got += k; close(pp[0]);
				int s{0}; waitpid(pid, &s, 0);
				const bool ok{std::strtoull(b, nullptr, 16) == h && got > 8};
				det_ok = ok; char d[160]; std::snprintf(d, sizeof d, "%s: event logs of %llu runs compared between %u forked workers and one fresh process in reverse order", ok ? "identical" : "DIFFERENT", static_cast<unsigned long long>(n), workers); determinism = d;
			} else determinism = "skipped (too few runs)";
		}
		// ---- report ----
		Stats sum{}; u64 cov{0}; { std::vector<u8> cv(1 << 16);
			for(u32 w{0}; w < workers; ++w) {
				sum.runs += st[w].runs; sum.steps += st[w].steps; sum.outcome_ok += st[w].outcome_ok; sum.outcome_failed += st[w].outcome_failed; sum.foreign_aborts += st[w].foreign_aborts; sum.nontrivial += st[w].nontrivial; sum.sim_events += st[w].sim_events;
				for(int i{0}; i < NFK; ++i) { sum.faults_configured[i] += st[w].faults_configured[i]; sum.faults_fired[i] += st[w].faults_fired[i]; }
				for(int i{0}; i < NCLS; ++i) sum.foreign[i] += st[w].foreign[i];
				for(int i{0}; i < NPROBES; ++i) sum.probe[i] += st[w].probe[i];
				for(int i{0}; i < 16; ++i) sum.known[i] += st[w].known[i];
				for(std::size_t i{0}; i < cv.size(); ++i) cv[i] |= st[w].cover[i];
			}
			for(u8 b : cv) cov += static_cast<u64>(__builtin_popcount(b)); }
		std::vector<u64> hs; for(u64 r{0}; r < runs; ++r) if(nontriv[r] == 2) hs.push_back(hashes[r]);
		std::sort(hs.begin(), hs.end()); const u64 distinct{static_cast<u64>(std::unique(hs.begin(), hs.end()) - hs.begin())};
		std::string samples; if(!found) for(u64 r : {u64{3}, u64{17}, u64{40}}) { if(r >= runs) break; auto p{gen(seed, r)}; run_isolated(p, mask, true); if(!samples.empty()) samples += ","; char b[64]; std::snprintf(b, sizeof b, "run %llu world ", static_cast<unsigned long long>(r)); samples += "\"" + std::string{b} + world_kinds()[p.kind].name + ": " + jesc(std::string{g_trace}.substr(0, 2500)) + "\""; }
		else samples = "\"" + jesc(to_text(mplan, *m)) + "\"";
		std::string j{"{\n"}; auto kv{[&](const char * k, u64 v) { char b[128]; std::snprintf(b, sizeof b, "  \"%s\": %llu,\n", k, static_cast<unsigned long long>(v)); j += b; }};
		kv("runs", sum.runs); kv("planned_runs", runs); kv("steps", sum.steps); kv("simulated_events", sum.sim_events); kv("distinct_nontrivial", distinct); kv("nontrivial", sum.nontrivial); kv("abstract_transitions", cov); kv("calls_ok", sum.outcome_ok); kv("calls_failed", sum.outcome_failed); kv("runs_abandoned", sum.foreign_aborts); kv("timed_out", timed_out); kv("determinism_ok", det_ok);
		j += "  \"faults\": {"; bool firstf{true}; for(int i{1}; i < NFK; ++i) if(sum.faults_configured[i] || sum.faults_fired[i]) { char b[160]; std::snprintf(b, sizeof b, "%s\"%s\": {\"configured\": %llu, \"fired\": %llu}", firstf ? "" : ", ", fk_name[i], static_cast<unsigned long long>(sum.faults_configured[i]), static_cast<unsigned long long>(sum.faults_fired[i])); j += b; firstf = false; } j += "},\n";
		j += "  \"outside_property\": {"; firstf = true; for(int i{0}; i < NCLS; ++i) if(sum.foreign[i]) { char b[96]; std::snprintf(b, sizeof b, "%s\"%s\": %llu", firstf ? "" : ", ", cls_name[i], static_cast<unsigned long long>(sum.foreign[i])); j += b; firstf = false; } j += "},\n";
		j += "  \"probes\": {"; firstf = true; for(int i{0}; i < NPROBES; ++i) { char b[96]; std::snprintf(b, sizeof b, "%s\"%s\": %llu", firstf ? "" : ", ", probe_name[i], static_cast<unsigned long long>(sum.probe[i])); j += b; firstf = false; } j += "},\n";
		j += "  \"worlds\": ["; for(std::size_t i{0}; i < gen.kinds.size(); ++i) { j += (i ? ", \"" : "\"") + jesc(world_kinds()[gen.kinds[i]].name) + "\""; } j += "],\n";
		j += "  \"known\": ["; for(std::size_t i{0}; i < g_known.size() && i < 16; ++i) { char b[160]; std::snprintf(b, sizeof b, "%s%llu", i ? ", " : "", static_cast<unsigned long long>(sum.known[i])); j += b; } j += "],\n";
		j += "  \"samples\": [" + samples + "],\n  \"determinism\": \"" + jesc(determinism) + "\",\n";
		j += "  \"unreproducible\": ["; for(std::size_t i{0}; i < unrepro.size(); ++i) j += (i ? ", \"" : "\"") + jesc(unrepro[i]) + "\""; j += "],\n";
		if(found) { char b[200]; std::snprintf(b, sizeof b, "  \"violation\": {\"run\": %llu, \"class\": \"%s\", \"step\": %u, ", static_cast<unsigned long long>(vrun), cls_name[mv.cls], mv.step); j += b; j += "\"op\": \"" + jesc(opname(mplan, mv.op)) + "\", \"world\": \"" + jesc(world_kinds()[mplan.kind].name) + "\", \"detail\": \"" + jesc(mv.detail) + "\", \"replay\": \"" + jesc(rpath) + "\"},\n"; }
		{ char b[64]; std::snprintf(b, sizeof b, "  \"wall_s\": %.3f\n}\n", wall); j += b; }
		if(!out.empty()) { FILE * f{std::fopen(out.c_str(), "w")}; if(!f) return 2; std::fputs(j.c_str(), f); std::fclose(f); } else std::fputs(j.c_str(), stdout);
		if(found) return 1;
		if(!unrepro.empty() || !det_ok) { for(auto & u : unrepro) std::fprintf(stderr, "not reproducible: %s\n", u.c_str()); std::fprintf(stderr, "determinism: %s\n", determinism.c_str()); return 2; }
		return 0;
	}
}

int main(int argc, char ** argv) {
	// fixed addresses, where the sandbox allows it: one more thing that is the same in every execution
	if(!std::getenv("SIM_FIXED")) { setenv("SIM_FIXED", "1", 1); const int old{personality(0xffffffff)}; if(old >= 0 && !(old & ADDR_NO_RANDOMIZE) && personality(static_cast<unsigned long>(old) | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
	return sim::run_main(argc, argv);
}
