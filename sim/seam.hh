// Process-level seams: clock and file-system calls of ZenKit (and of the libstdc++ code it calls) are interposed here.
#pragma once
#include "core.hh"
#include <string>

namespace sim {
	enum class FsOp { OPEN, WRITE, READ, MMAP, FSTAT, MKDIR, UNLINK, RENAME, COPY, SYNC, TRUNCATE, CLOSE, LSEEK, OPENDIR };
	struct FsCall {
		FsOp op;
		char const* path; // may be nullptr
		int fd;
		size_t len;
		bool writable; // OPEN: opened for writing
	};
	struct FsAct {
		int err = 0;           // fail with this errno
		size_t limit = SIZE_MAX; // transfer at most that many bytes
	};
	/// Called for every interposed call made while it is set (by the simulated program only). nullptr: pass through.
	extern FsAct (*fs_hook)(FsCall const&);
	extern char const* fs_op_name(FsOp);

	/// Simulated clock: while a simulation is current, time(2)/clock_gettime(CLOCK_REALTIME) return it. Each query
	/// advances it by `clock_tick` seconds.
	extern int64_t clock_tick;
	extern uint64_t clock_queries;
	/// Called with the value handed out (per query), e.g. to remember which thread saw which time.
	extern void (*clock_hook)(int64_t);
	int open_fds(); // number of open descriptors of this process
} // namespace sim
