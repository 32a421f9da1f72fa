// P15: scripts and hosts that fail leave a usable VM behind.
#include "damage.hh"
#include "vmrun.hh"

using namespace sim;
using namespace sim::vm;

static void run(Sim& s) {
	log_level(s.coin());
	int ia = IA::alive, tr = Trans::alive;
	{
		bool wild = s.coin();
		Gen gen(s, wild);
		auto p = gen.make();
		Plan plan;
		plan.flags = (uint8_t) (s.coin() ? 6 : s.below(4) << 1);
		plan.handler = (int) s.below(3);
		plan.def = (int) s.below(4);
		plan.trap_cb = s.coin();
		if (plan.handler == 2) {
			plan.strategy.resize(1 + s.below(6));
			bool jumps = s.below(3) == 0;
			for (auto& x : plan.strategy) x = (uint8_t) s.below(jumps ? 4 : 3);
			if (jumps) {
				plan.jumps.resize(1 + s.below(6));
				for (auto& x : plan.jumps) x = p.funcs.empty() || s.coin() ? (uint32_t) s.below(p.code.size() + 2) : (uint32_t) p.syms[p.funcs[s.below(p.funcs.size())].sym].address;
				s.fault("exception handler jumps");
			}
		}
		if (s.coin()) {
			plan.throws.resize(1 + s.below(s.coin() ? 4 : 30));
			for (auto& x : plan.throws) x = s.below(3) ? 0 : (uint8_t) (1 + s.below(3));
		}
		size_t hits = s.below(3) ? 0 : 1 + s.below(s.coin() ? 3 : 20);
		for (size_t i = 0; i < hits; ++i) {
			size_t at = s.below(p.code.size());
			switch (s.below(4)) {
			case 0: p.code[at] = (std::byte) s.below(256); break;
			case 1: p.code[at] ^= (std::byte) (1 << s.below(8)); break;
			case 2: { // the code of something else
				size_t n = 1 + s.below(12), from = s.below(p.code.size());
				for (size_t k = 0; k < n && at + k < p.code.size() && from + k < p.code.size(); ++k) p.code[at + k] = p.code[from + k];
				break;
			}
			default: {
				static uint8_t const ops[] = {ADD, DIV, MOVI, RSR, BL, BE, PUSHV, PUSHVI, MOVS, MOVVF, MOVF, MOVVI, B, BZ, GMOVI, PUSHVV, ADDMOVI, NOP};
				p.code[at] = (std::byte) ops[s.below(sizeof ops)];
				break;
			}
			}
		}
		if (hits && s.below(4) == 0) p.code.resize(1 + s.below(p.code.size()));
		if (hits) s.fault("damaged code", hits);
		bool oom = s.below(6) == 0;
		Lockstep l(s, p, plan);
		s.event("%zu symbols, %zu bytes of code (%zu times damaged%s), flags %d, handler %d, default external %d", l.p.syms.size(), l.p.code.size(), hits, wild ? ", wild" : "", plan.flags, plan.handler, plan.def);
		size_t n = 1 + s.below(s.below(8) ? 10 : 40);
		bool deep = s.below(30) == 0;
		size_t exhausted = 0;
		size_t warm = s.below(4) ? 2 + s.below(3) : 0;
		for (size_t i = 0; i < n + warm; ++i) {
			if (oom && !hits && !wild && i > warm && s.below(3) == 0) {
				// Without memory: no comparison, but the VM stays usable and intact. (It might run forever, so in another process.)
				uint64_t at = 1 + s.below(60), seed = s.below(1u << 30);
				s.event("allocation %llu of an operation fails", (unsigned long long) at);
				s.fault("failing allocation");
				s.check(survives([&] {
					        s.set_record(nullptr, 0, nullptr), s.begin_random(seed);
					        for (int k = 0; k < 4; ++k) {
						        l.unchecked = true, l.fail_at = k == 0 ? at : 0;
						        (void) l.op(false);
					        }
					        l.vm.reset(), l.unspecified = nullptr;
					        s.check(IA::alive == ia && Trans::alive == tr, "instances-leaked", "instances are lost");
				        }, 3'000'000), "crash", "the VM is not usable after an allocation failed");
				s.nontrivial();
				break;
			}
			static int const first[] = {1, 3, 5};
			int r = l.op(deep && s.below(4) == 0, i < warm ? first[s.below(3)] : -1);
			if (r == 1) {
				s.reach("run ended: the program runs for too long");
				break;
			}
			if (r == 2) {
				// Nothing is known about the outcome, but it has to be safe.
				s.reach("run ended: outcome not defined");
				if (s.below(4) == 0) {
					s.check(survives([&] { Res x; l.unspecified(x); }, 3'000'000), "crash", "the process does not survive the operation");
					s.reach("undefined outcome executed for safety");
				}
				break;
			}
			if (l.ref.executed > 20) s.nontrivial();
			if (l.ref.deep) s.reach("call stack exhausted");
			if (l.ref.overflow) s.reach("stack exhausted");
			if ((l.ref.deep || l.ref.overflow) && ++exhausted == 3) break; // (expensive: every level reports the whole stack)
			l.ref.deep = l.ref.overflow = false;
		}
	}
	s.check(IA::alive == ia && Trans::alive == tr, "instances-leaked", "%d instances are still alive after the VM is gone", IA::alive - ia + Trans::alive - tr);
}

#ifndef SIM_AS_LIBRARY
Harness sim::harness {
    .property = "P15",
    .run = run,
    .rule = "distinct history hashes (results and instruction counts of all operations) of runs with an operation that executed more than 20 instructions or a failing allocation",
    .components = "real: src/DaedalusVm.cc, src/DaedalusScript.cc, include/zenkit/DaedalusVm.hh, src/Stream.cc, src/Logger.cc; simulated: the host (failing externals, overrides, traps, exception handlers, instances), memory allocator; reference model: an interpreter written from the instruction set",
    .quick_runs = 200000,
    .thorough_runs = 4000000,
    .quick_secs = 60,
    .thorough_secs = 900,
    .step_budget = 400'000'000,
};
#endif
