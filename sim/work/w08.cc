// The runs of P08 as a workload for simulated threads.
#include "saves.hh"
#define SIM_AS_LIBRARY
namespace w08 {
#include "p08_saves.cc"
}
namespace sim::work {
	void p08(Sim& s) { w08::run(s); }
}
