// The runs of P05 as a workload for simulated threads.
#include "core.hh"
#include "recwrite.hh"
#include "seam.hh"
#include "streams.hh"
#include "vfs_model.hh"
#include <zenkit/Logger.hh>
#include <zlib.h>
#define SIM_AS_LIBRARY
namespace w05 {
#include "p05_zipped.cc"
}
namespace sim::work {
	void p05(Sim& s) { w05::run(s); }
}
