// The runs of P07 as a workload for simulated threads.
#include "endpoints.hh"
#include "objects.hh"
#include "seam.hh"
#include <deque>
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>
#define SIM_AS_LIBRARY
namespace w07 {
#include "p07_objects.cc"
}
namespace sim::work {
	void p07(Sim& s) { w07::run(s); }
}
