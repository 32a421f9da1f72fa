// The runs of P14 as a workload for simulated threads.
#include "vmrun.hh"
#define SIM_AS_LIBRARY
namespace w14 {
#include "p14_vm.cc"
}
namespace sim::work {
	void p14(Sim& s) { w14::run(s); }
}
