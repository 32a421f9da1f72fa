// The runs of P04 as a workload for simulated threads.
#include "core.hh"
#include "seam.hh"
#include "streams.hh"
#include "vfs_model.hh"
#include <zenkit/Logger.hh>
#include <unistd.h>
#define SIM_AS_LIBRARY
namespace w04 {
#include "p04_vdf_damage.cc"
}
namespace sim::work {
	void p04(Sim& s) { w04::run(s); }
}
