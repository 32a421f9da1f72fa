// The runs of P06 as a workload for simulated threads.
#include "core.hh"
#include "endpoints.hh"
#include "seam.hh"
#include <cmath>
#include <deque>
#include <optional>
#include <zenkit/Archive.hh>
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>
#define SIM_AS_LIBRARY
namespace w06 {
#include "p06_archive.cc"
}
namespace sim::work {
	void p06(Sim& s) { w06::run(s); }
}
