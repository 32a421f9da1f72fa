// The runs of P11 as a workload for simulated threads.
#include "assets.hh"
#include "endpoints.hh"
#include "seam.hh"
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>
#define SIM_AS_LIBRARY
namespace w11 {
#include "p11_assets.cc"
}
namespace sim::work {
	void p11(Sim& s) { w11::run(s); }
}
