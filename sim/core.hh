// Deterministic simulation core: every nondeterministic decision of a run is drawn from one recorded
// choice sequence, so (seed) or (choice list) is exactly one execution.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <string_view>
#include <vector>

namespace sim {
	/// Thrown by Sim::fail; `tag` identifies the kind of violation (stable across shrinking).
	struct Violation {
		std::string tag, msg;
	};

	class Sim {
	public:
		// ---- choices -------------------------------------------------------------------------
		/// Uniform in [0, n). 0 is always the "simplest" value (shrinking drives choices towards 0).
		uint64_t below(uint64_t n);
		int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo) + 1); }
		/// True with probability num/den; shrinks to false.
		bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
		bool coin() { return below(2) == 1; }
		template <typename T>
		T const& pick(std::vector<T> const& v) { return v[below(v.size())]; }
		uint32_t u32();      // biased towards interesting values
		int32_t i32();       // biased towards interesting values
		float f32();         // finite floats incl. interesting ones
		std::string ident(size_t max_len); // [A-Z0-9_]+
		std::vector<std::byte> bytes(size_t n);

		// ---- history -------------------------------------------------------------------------
		void event(char const* fmt, ...) __attribute__((format(printf, 2, 3)));
		void fault(char const* kind);            // an injected fault that really took effect
		void fault(char const* kind, uint64_t n);
		void reach(char const* what);            // reachability counter (evidence)
		[[noreturn]] void fail(std::string tag, char const* fmt, ...) __attribute__((format(printf, 3, 4)));
		void check(bool ok, char const* tag, char const* fmt, ...) __attribute__((format(printf, 4, 5)));
		void mix(uint64_t v);                    // fold an observation into the history hash
		void mix(void const* p, size_t n);
		void nontrivial() { _nontrivial = true; }

		// ---- simulated time / steps ------------------------------------------------------------
		int64_t now() const { return clock; }
		int64_t clock = 1'700'000'000; // simulated wall clock, seconds
		uint64_t steps_used() const;
		void set_step_budget(uint64_t n); // from now on: at most n more executed edges of ZenKit code

		// ---- internals -------------------------------------------------------------------------
		void begin_random(uint64_t seed);
		void begin_replay(uint64_t const* c, size_t n);
		void set_record(uint64_t* buf, size_t cap, uint64_t* count);
		bool tracing = false;
		std::vector<std::string> trace;
		uint64_t hash = 0xcbf29ce484222325ULL;
		std::map<std::string, uint64_t> faults, reached;
		bool _nontrivial = false;
		uint64_t events = 0;

	private:
		uint64_t next();
		uint64_t s[4] {};
		uint64_t const* rep = nullptr;
		size_t rep_n = 0, pos = 0;
		uint64_t* rec = nullptr;
		size_t rec_cap = 0;
		uint64_t* rec_n = nullptr;
	};

	struct Harness {
		char const* property;
		/// One simulated run.
		void (*run)(Sim&);
		/// What `distinct_nontrivial` counts.
		char const* rule;
		/// Which parts ran real code, which a stub.
		char const* components;
		uint64_t quick_runs, thorough_runs;
		double quick_secs, thorough_secs; // wall caps
		uint64_t step_budget;             // edges of ZenKit code per run before it counts as non-terminating
		/// Directed scenarios that are always executed (e.g. one per known finding or regression).
		std::vector<std::function<void(Sim&)>> directed {};
		int max_workers = 8;
		/// Every run in a process of its own (simulated threads: the same addresses in every execution of a run).
		bool isolate = false;
	};
	extern Harness harness; // defined by each harness translation unit

	// ---- seams -------------------------------------------------------------------------------
	extern Sim* current;           // the running simulation in this process or nullptr
	extern uint64_t steps;         // executed edges (SanitizerCoverage)
	extern uint64_t step_limit;
	extern uint64_t alloc_cap;     // single allocations above this many bytes fail with std::bad_alloc
	extern uint64_t alloc_fail_at; // if non-zero: the n-th allocation from now fails
	extern uint64_t alloc_count;
	extern uint64_t live_blocks;
	std::string scratch_dir();     // per-process (and per simulated thread) scratch directory (removed at exit)
	void wipe_dir(std::string const& dir); // removes the contents of a directory below the scratch dir
	void on_edge_hook(void (*fn)());
	void out_of_steps(); // reports that the step budget is exhausted
	/// What simulated threads allocate lies in an arena at a fixed place and is never reused.
	void use_arena();
	extern uintptr_t const arena_base, arena_size;
	/// Index of the simulated thread that runs (see sched.hh), -1 outside of them.
	extern int thread_id;
	/// The environment, the logger and other settings of the process belong to all of its threads: simulated threads leave
	/// them alone.
	void set_env(char const* name, char const* value);
	void log_level(bool everything);
	inline void quiet_log() { log_level(false); }

	inline uint64_t fnv(void const* p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
		auto* b = static_cast<unsigned char const*>(p);
		for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ULL; }
		return h;
	}
	/// Runs something in a forked process; false: the process crashed or was terminated. Running for longer than
	/// `max_steps` is no failure.
	bool survives(std::function<void()> const& f, uint64_t max_steps);
	std::string hex(void const* p, size_t n, size_t max = 48);
} // namespace sim
