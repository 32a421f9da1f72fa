// P14: scripts run on the Daedalus VM as the language defines it.
#include "vmrun.hh"

using namespace sim;
using namespace sim::vm;

static void run(Sim& s) {
	log_level(s.coin());
	int ia = IA::alive, tr = Trans::alive;
	{
		Gen gen(s, false);
		Plan plan;
		plan.flags = (uint8_t) (s.coin() ? 6 : s.below(4) << 1);
		plan.handler = (int) s.below(2);
		plan.def = s.below(6) ? 1 + (int) s.below(3) : 0;
		plan.trap_cb = s.coin();
		Lockstep l(s, gen.make(), plan);
		s.event("%zu symbols, %zu bytes of code, flags %d, handler %d, default external %d", l.p.syms.size(), l.p.code.size(), plan.flags, plan.handler, plan.def);
		size_t n = 1 + s.below(s.below(8) ? 12 : 60);
		bool deep = s.below(30) == 0;
		size_t exhausted = 0;
		bool in_step = true;
		size_t warm = s.below(4) ? 3 + s.below(4) : 0; // (instances)
		for (size_t i = 0; i < n + warm; ++i) {
			static int const first[] = {1, 3, 5};
			int r = l.op(deep && s.below(4) == 0, i < warm ? first[s.below(3)] : -1);
			in_step = r == 0;
			if (r == 1) {
				s.reach("run ended: the program runs for too long");
				break;
			}
			if (r == 2) {
				s.reach("run ended: outcome not defined");
				break;
			}
			if (l.ref.executed > 20) s.nontrivial();
			if (l.ref.deep) s.reach("call stack exhausted");
			if (l.ref.overflow) s.reach("stack exhausted");
			if ((l.ref.deep || l.ref.overflow) && ++exhausted == 3) break; // (expensive: every level reports the whole stack)
			l.ref.deep = l.ref.overflow = false;
		}
		if (s.below(60) == 0 && in_step && thread_id < 0) l.endure(); // (memory is counted for the whole process)
	}
	s.check(IA::alive == ia && Trans::alive == tr, "instances-leaked", "%d instances are still alive after the VM is gone", IA::alive - ia + Trans::alive - tr);
}

#ifndef SIM_AS_LIBRARY
Harness sim::harness {
    .property = "P14",
    .run = run,
    .rule = "distinct history hashes (results and instruction counts of all operations) of runs with an operation that executed more than 20 instructions",
    .components = "real: src/DaedalusVm.cc, src/DaedalusScript.cc, include/zenkit/DaedalusVm.hh, src/Stream.cc, src/Logger.cc; simulated: the host (externals, overrides, traps, handlers, instances); reference model: an interpreter written from the instruction set",
    .quick_runs = 200000,
    .thorough_runs = 4000000,
    .quick_secs = 60,
    .thorough_secs = 900,
    .step_budget = 400'000'000,
};
#endif
