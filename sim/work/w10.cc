// The runs of P10 as a workload for simulated threads.
#include "damage.hh"
#include "endpoints.hh"
#include "script.hh"
#include "seam.hh"
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>
#include <zenkit/ModelScript.hh>
#define SIM_AS_LIBRARY
namespace w10 {
#include "p10_asset_damage.cc"
}
namespace sim::work {
	void p10(Sim& s) { w10::run(s); }
}
