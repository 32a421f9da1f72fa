// Simulated threads: real threads of which exactly one runs at any time. ZenKit's code is compiled with a call at every
// edge, load and store; at each of them the seeded scheduler may pass control to another thread, and so it does where a
// lock is taken already. Every thread has its own simulation (choices, clock, faults, allocation limits).
#pragma once
#include "core.hh"
#include <exception>
#include <functional>
#include <memory>

namespace sim::sched {
	struct Thread {
		std::function<void(Sim&)> body;
		uint64_t seed = 0;
		std::unique_ptr<Sim> sim;          // set up by run() and alone()
		std::exception_ptr error;          // what left the body
		std::vector<std::string> log;      // what ZenKit logged meanwhile
		uint64_t points = 0;               // scheduling points passed
	};
	/// Runs all threads to the end under a schedule drawn from `s`.
	void run(Sim& s, std::vector<Thread>& t);
	/// Runs one thread alone (on the calling thread).
	void alone(Thread& t, int id);
	struct Stats {
		uint64_t points = 0, switches = 0, hot = 0, waits = 0;
	};
	extern Stats stats; // of the last run()
	extern bool own_logger; // the harness sets the logger itself; nothing is collected in Thread::log
} // namespace sim::sched
