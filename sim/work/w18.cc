// The runs of P18 as a workload for simulated threads.
#include "endpoints.hh"
#include "seam.hh"
#include "world.hh"
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>
#define SIM_AS_LIBRARY
namespace w18 {
#include "p18_world.cc"
}
namespace sim::work {
	void p18(Sim& s) { w18::run(s); }
}
