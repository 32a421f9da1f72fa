// The runs of P03 as a workload for simulated threads.
#include "core.hh"
#include "recwrite.hh"
#include "seam.hh"
#include "streams.hh"
#include "vfs_model.hh"
#include <zenkit/Logger.hh>
#include <fstream>
#include <unistd.h>
#define SIM_AS_LIBRARY
namespace w03 {
#include "p03_vdf.cc"
}
namespace sim::work {
	void p03(Sim& s) { w03::run(s); }
}
