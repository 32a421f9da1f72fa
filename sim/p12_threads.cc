// P12: threads that work on objects of their own do not influence each other. Whole runs of other properties are the
// bodies of simulated threads; each has to behave exactly as if it were alone.
#include "sched.hh"
#include "seam.hh"
#include <zenkit/vobs/VirtualObject.hh>

using namespace sim;
#define WORK(X) X(03, "volumes") X(04, "damaged volumes") X(05, "compressed volumes") X(06, "archives") X(07, "objects") X(08, "save-games") X(10, "damaged assets") X(11, "assets") X(14, "scripts") X(18, "worlds")
namespace sim::work {
#define X(n, t) void p##n(Sim&);
	WORK(X)
#undef X
}
static struct {
	char const* name;
	void (*run)(Sim&);
} const works[] = {
#define X(n, t) {t, work::p##n},
    WORK(X)
#undef X
};
static constexpr size_t N = sizeof works / sizeof *works;

static std::string text(std::exception_ptr e) {
	if (!e) return "";
	try {
		std::rethrow_exception(e);
	} catch (Violation const& v) {
		return v.tag + ": " + v.msg;
	} catch (std::exception const& x) {
		return std::string("exception: ") + x.what();
	} catch (...) {
		return "unknown exception";
	}
}

static void run(Sim& s) {
	set_env("USERNAME", nullptr);
	set_env("USER", "sim");
	static char const* const zones[] = {"UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0"};
	set_env("TZ", zones[s.below(3)]);
	zenkit::VirtualObject::enable_packed_save(true);
	std::vector<sched::Thread> ts(2 + s.below(2));
	std::vector<size_t> kind;
	bool same = s.below(3) != 0;
	for (auto& t : ts) {
		size_t k = same && !kind.empty() ? kind[0] : s.below(N);
		kind.push_back(k);
		t.body = works[k].run;
		t.seed = s.below(UINT64_MAX);
		s.event("thread %zu: %s (seed %llx)", kind.size() - 1, works[k].name, (unsigned long long) t.seed);
	}
	sched::run(s, ts);
	s.event("%llu switches at %llu points (%llu touch shared data), %llu waits", (unsigned long long) sched::stats.switches, (unsigned long long) sched::stats.points, (unsigned long long) sched::stats.hot, (unsigned long long) sched::stats.waits);
	s.fault("preemption", sched::stats.switches);
	s.mix(sched::stats.points);
	if (sched::stats.switches > 4) s.nontrivial();
	for (size_t i = 0; i < ts.size(); ++i) {
		sched::Thread a;
		a.body = ts[i].body;
		a.seed = ts[i].seed;
		sched::alone(a, (int) i);
		auto w = works[kind[i]].name;
		for (auto& [f, n] : a.sim->faults) s.fault(f.c_str(), n);
		s.mix(a.sim->hash);
		if (a.error) {
			s.reach("fails alone, too");
			continue;
		}
		s.check(!ts[i].error, "thread-fails", "%s in thread %zu fails while the other threads run: %s", w, i, text(ts[i].error).c_str());
		s.check(ts[i].sim->hash == a.sim->hash, "thread-differs", "%s in thread %zu have other results while the other threads run", w, i);
		for (size_t k = 0; k < std::max(a.log.size(), ts[i].log.size()); ++k) {
			auto x = k < ts[i].log.size() ? ts[i].log[k] : "(nothing)", y = k < a.log.size() ? a.log[k] : "(nothing)";
			s.check(x == y, "log-differs", "line %zu in the log of thread %zu (%s) is '%.200s' instead of '%.200s'", k, i, w, x.c_str(), y.c_str());
		}
		s.reach(w);
	}
	set_env("TZ", "UTC");
}

Harness sim::harness {
    .property = "P12",
    .run = run,
    .rule = "distinct history hashes (schedule, results of all threads) of runs with more than four preemptions",
    .components = "real: all of ZenKit, real threads of which the simulated scheduler lets one run at a time; simulated: thread scheduling (at every edge, load and store of ZenKit code), locks, wall clock of each thread, storage",
    .quick_runs = 100000,
    .thorough_runs = 4000000,
    .quick_secs = 90,
    .thorough_secs = 900,
    .step_budget = 2'000'000'000,
    .isolate = true,
};
