// P22: every message that is logged at the chosen level is delivered once, complete and in order, to the callback or (by
// the default logger) as a line of its own, also when several threads log at the same time.
#include "sched.hh"
#include "seam.hh"
#include <cstdarg>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <zenkit/Logger.hh>

using namespace sim;
using zenkit::Logger;
using zenkit::LogLevel;

namespace {
	struct Msg {
		int level;
		std::string name, text;
		int how; // the format that is used
		std::string s1, s2;
		int i1 = 0;
		double d1 = 0;
		int64_t clock = 0;
		int nested = -1; // what the callback logs while it is called (level)
	};
	struct Got {
		int level;
		std::string name, text;
	};
	enum Kind { CALLBACK, DEFAULT, NONE, OLD_CALLBACK, OLD_DEFAULT };
	struct Phase {
		Kind kind;
		int level;
		std::vector<std::vector<Msg>> msgs; // of each thread
	};

	char const* const NAMES[] = {"World", "ReadArchive.Ascii", "", "A", "100%", "x%sy", "DaedalusVm"};

	std::string words(Sim& s, size_t n) {
		static char const* const w[] = {"a", "vob", "%", "%s", "%n", "\xA7", "number", "=", "\t", "\\", "..."};
		std::string r;
		while (r.size() < n) r += w[s.below(11)], r += ' ';
		r.resize(n);
		return r;
	}
	Msg message(Sim& s) {
		Msg m;
		m.level = (int) s.below(5);
		m.name = NAMES[s.below(7)];
		m.how = (int) s.below(6);
		m.s1 = words(s, s.below(8) ? s.below(30) : s.below(8) ? s.below(300) : s.below(3) ? 900 + s.below(1100) : 3900 + s.below(2000));
		m.s2 = words(s, s.below(20));
		m.i1 = s.i32();
		m.d1 = (double) s.i32() / 64;
		char b[64];
		switch (m.how) {
		case 0: m.text = m.s1; break;
		case 1: m.text = "just text"; break;
		case 2: m.text = m.s1 + " = " + std::to_string(m.i1); break;
		case 3: snprintf(b, sizeof b, "%08x|%5.2f", (unsigned) m.i1, m.d1); m.text = m.s1 + m.s2 + b; break;
		case 4: m.text = m.s1 + m.s2 + m.s1; break;
		default: m.text = ""; break;
		}
		if (s.below(12) == 11) m.nested = (int) s.below(5);
		return m;
	}
	void vlog(LogLevel l, char const* name, char const* fmt, ...) {
		va_list ap;
		va_start(ap, fmt);
		Logger::logv(l, name, fmt, ap);
		va_end(ap);
	}
	void send(Msg const& m) {
		auto l = (LogLevel) m.level;
		auto* n = m.name.c_str();
		switch (m.how) {
		case 0: Logger::log(l, n, "%s", m.s1.c_str()); break;
		case 1: Logger::log(l, n, "just text"); break;
		case 2: vlog(l, n, "%s = %d", m.s1.c_str(), m.i1); break;
		case 3: Logger::log(l, n, "%s%s%08x|%5.2f", m.s1.c_str(), m.s2.c_str(), (unsigned) m.i1, m.d1); break;
		case 4: vlog(l, n, "%s%s%s", m.s1.c_str(), m.s2.c_str(), m.s1.c_str()); break;
		default: Logger::log(l, n, "%s", ""); break;
		}
	}
	/// Messages of more than 4000 characters may be cut short.
	bool same(std::string const& g, std::string const& w) { return g == w || (g.size() >= 4000 && g.size() < w.size() && w.compare(0, g.size(), g) == 0); }
	std::string plain(std::string const& t) { // without colors
		std::string r;
		for (size_t i = 0; i < t.size(); ++i) {
			if (t[i] == '\x1B' && i + 1 < t.size() && t[i + 1] == '[') {
				while (i < t.size() && t[i] != 'm') ++i;
				continue;
			}
			r.push_back(t[i]);
		}
		return r;
	}
	std::string line_of(Msg const& m) {
		static char const* const L[] = {"ERROR  ", "WARNING", "INFO   ", "DEBUG  ", "TRACE  "};
		time_t t = (time_t) m.clock;
		struct tm tm {};
		gmtime_r(&t, &tm);
		char b[64];
		snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d ", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
		return std::string(b) + "[ZenKit] (" + L[m.level] + ") › " + m.name + ": " + m.text;
	}
	/// Collects what is written to the standard error output.
	struct Capture {
		int old = -1, fd = -1;
		Capture() {
			fflush(stderr);
			old = dup(2);
			fd = memfd_create("log", 0);
			dup2(fd, 2);
		}
		std::string text() {
			fflush(stderr);
			off_t n = lseek(fd, 0, SEEK_END);
			std::string r((size_t) n, 0);
			size_t at = 0;
			while (at < r.size()) {
				auto k = pread(fd, r.data() + at, r.size() - at, (off_t) at);
				if (k <= 0) break;
				at += (size_t) k;
			}
			return r;
		}
		~Capture() {
			fflush(stderr);
			dup2(old, 2);
			close(old);
			close(fd);
		}
	};
	std::vector<std::vector<Got>>* got = nullptr; // of each thread
	std::vector<int>* pending_nested = nullptr;   // of each thread

	void take(LogLevel l, char const* n, char const* m) {
		auto t = (size_t) std::max(thread_id, 0);
		(*got)[t].push_back({(int) l, n, m});
		// a callback may log, too: both messages are as they were given
		if (int k = (*pending_nested)[t]; k >= 0) {
			(*pending_nested)[t] = -1;
			Logger::log((LogLevel) k, "Callback", "within %d", (int) l);
			(*got)[t].push_back({(int) l, n, std::string("again ") + m});
		}
	}
} // namespace

static void run(Sim& s) {
	sched::own_logger = true;
	static char const* const zones[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0"};
	set_env("TZ", zones[s.below(3)]);
	size_t nt = 1 + s.below(3), phases = 1 + s.below(3), total = 0;
	uint64_t switches = 0;
	for (size_t p = 0; p < phases; ++p) {
		Phase ph;
		ph.kind = (Kind) s.below(5);
		ph.level = (int) s.below(5);
		ph.msgs.resize(nt);
		for (auto& v : ph.msgs) {
			size_t n = s.below(8);
			int64_t clock = 1'700'000'000 + (int64_t) s.below(400'000'000);
			for (size_t i = 0; i < n; ++i) {
				v.push_back(message(s));
				v.back().clock = clock += (int64_t) (s.coin() ? 0 : s.below(100'000));
			}
		}
		std::vector<std::vector<Got>> g(nt);
		std::vector<int> pn(nt, -1);
		got = &g, pending_nested = &pn;
		Capture cap;
		switch (ph.kind) {
		case CALLBACK: Logger::set((LogLevel) ph.level, take); break;
		case DEFAULT: Logger::set_default((LogLevel) ph.level); break;
		case NONE: Logger::set((LogLevel) ph.level, {}); break;
		case OLD_CALLBACK:
			ph.level = 2;
			Logger::use_logger([](LogLevel l, std::string const& m) { (*got)[(size_t) std::max(thread_id, 0)].push_back({(int) l, "", m}); });
			break;
		case OLD_DEFAULT: ph.level = 2, Logger::use_default_logger(); break;
		}
		s.event("%s, level %d, %zu threads", ph.kind == CALLBACK ? "callback" : ph.kind == DEFAULT ? "default logger" : ph.kind == NONE ? "no logger" : ph.kind == OLD_CALLBACK ? "old callback" : "old default logger", ph.level, nt);
		std::vector<sched::Thread> ts(nt);
		for (size_t i = 0; i < nt; ++i) {
			ts[i].seed = i;
			ts[i].body = [&, i](Sim& me) {
				for (auto& m : ph.msgs[i]) {
					me.clock = m.clock;
					pn[i] = ph.kind == CALLBACK ? m.nested : -1;
					send(m);
					pn[i] = -1;
				}
			};
		}
		if (nt == 1 && s.coin()) sched::alone(ts[0], 0);
		else {
			sched::run(s, ts);
			switches += sched::stats.switches;
		}
		auto err = cap.text();
		if (s.coin()) Logger::set(LogLevel::ERROR, {}); // (or the next settings replace these)
		for (auto& t : ts)
			if (t.error) std::rethrow_exception(t.error);
		// what should have been delivered
		bool lines = ph.kind == DEFAULT || ph.kind == OLD_DEFAULT;
		std::vector<std::vector<Got>> want(nt);
		std::vector<std::vector<std::string>> wl(nt);
		for (size_t i = 0; i < nt; ++i)
			for (auto& m : ph.msgs[i]) {
				if (m.level > ph.level || ph.kind == NONE) continue;
				++total;
				if (lines) wl[i].push_back(line_of(m));
				else if (ph.kind == OLD_CALLBACK) want[i].push_back({m.level, "", m.name + ": " + m.text});
				else {
					want[i].push_back({m.level, m.name, m.text});
					if (m.nested >= 0) {
						if (m.nested <= ph.level) want[i].push_back({m.nested, "Callback", "within " + std::to_string(m.level)});
						want[i].push_back({m.level, m.name, "again " + m.text});
					}
				}
			}
		for (size_t i = 0; i < nt; ++i) {
			s.check(g[i].size() == want[i].size(), "count", "%zu messages of thread %zu were delivered, expected %zu", g[i].size(), i, want[i].size());
			for (size_t k = 0; k < want[i].size(); ++k)
				s.check(g[i][k].level == want[i][k].level && g[i][k].name == want[i][k].name && same(g[i][k].text, want[i][k].text), "message",
				        "message %zu of thread %zu is [%d] '%s': '%.300s' instead of [%d] '%s': '%.300s'", k, i, g[i][k].level, g[i][k].name.c_str(), g[i][k].text.c_str(), want[i][k].level, want[i][k].name.c_str(), want[i][k].text.c_str());
		}
		if (!lines) s.check(err.empty(), "output", "'%.200s' is written to the standard error output", err.c_str());
		else {
			s.check(err.empty() || err.back() == '\n', "line", "the last line has no end");
			std::vector<size_t> at(nt, 0);
			auto text = plain(err);
			for (size_t b = 0, e; b < text.size(); b = e + 1) {
				e = text.find('\n', b);
				auto l = text.substr(b, e - b);
				bool ok = false;
				for (size_t i = 0; i < nt && !ok; ++i)
					if (at[i] < wl[i].size() && same(l, wl[i][at[i]])) ++at[i], ok = true;
				s.check(ok, "line", "the line '%.300s' is none of the messages that are due (thread 0: '%.300s')", l.c_str(), at[0] < wl[0].size() ? wl[0][at[0]].c_str() : "-");
			}
			for (size_t i = 0; i < nt; ++i) s.check(at[i] == wl[i].size(), "line", "%zu lines of thread %zu are missing", wl[i].size() - at[i], i);
		}
		s.mix(fnv(err.data(), err.size()));
	}
	s.fault("preemption", switches);
	s.mix(switches);
	Logger::set(LogLevel::ERROR, {});
	if (total > 2) s.nontrivial();
	set_env("TZ", "UTC");
}

Harness sim::harness {
    .property = "P22",
    .run = run,
    .rule = "distinct history hashes (messages, schedule) of runs which delivered more than two messages",
    .components = "real: src/Logger.cc, src/Internal.hh (zk_gmtime), real threads of which the simulated scheduler lets one run at a time; simulated: thread scheduling (at every edge, load and store of ZenKit code), wall clock of each thread, standard error output",
    .quick_runs = 100000,
    .thorough_runs = 2000000,
    .quick_secs = 60,
    .thorough_secs = 400,
    .step_budget = 2'000'000'000,
    .isolate = true,
};
