#include "seam.hh"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace sim {
	FsAct (*fs_hook)(FsCall const&) = nullptr;
	int64_t clock_tick = 0;
	uint64_t clock_queries = 0;
	void (*clock_hook)(int64_t) = nullptr;

	char const* fs_op_name(FsOp o) {
		static char const* n[] = {"open", "write", "read", "mmap", "fstat", "mkdir", "unlink", "rename", "copy", "sync", "truncate", "close", "lseek", "opendir"};
		return n[(int) o];
	}
	static thread_local bool in_hook = false;
	static bool ask(FsCall c, FsAct& a) {
		if (!fs_hook || in_hook) return false;
		in_hook = true;
		int e = errno;
		a = fs_hook(c);
		errno = e;
		in_hook = false;
		return true;
	}
	static int64_t sim_now() {
		auto* s = current;
		s->clock += clock_tick;
		++clock_queries;
		if (clock_hook) clock_hook(s->clock);
		return s->clock;
	}
	int open_fds() {
		int n = 0;
		for (int fd = 0; fd < 256; ++fd)
			if (syscall(SYS_fcntl, fd, F_GETFD) != -1) ++n;
		return n;
	}
} // namespace sim

using namespace sim;

extern "C" {
time_t time(time_t* out) {
	time_t t;
	if (current) t = (time_t) sim_now();
	else {
		struct timespec ts;
		syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
		t = ts.tv_sec;
	}
	if (out) *out = t;
	return t;
}

int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
	if (current && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
		ts->tv_sec = (time_t) sim_now();
		ts->tv_nsec = 0;
		return 0;
	}
	return (int) syscall(SYS_clock_gettime, id, ts);
}

int gettimeofday(struct timeval* tv, void* tz) noexcept {
	if (current) {
		tv->tv_sec = (time_t) sim_now();
		tv->tv_usec = 0;
		return 0;
	}
	return (int) syscall(SYS_gettimeofday, tv, tz);
}

static int do_open(int dir, char const* path, int flags, mode_t mode) {
	FsAct a;
	if (ask({FsOp::OPEN, path, -1, 0, (flags & O_ACCMODE) != O_RDONLY}, a) && a.err) {
		errno = a.err;
		return -1;
	}
	return (int) syscall(SYS_openat, dir, path, flags, mode);
}
int open(char const* path, int flags, ...) {
	mode_t m = 0;
	if (flags & (O_CREAT | O_TMPFILE)) {
		va_list ap;
		va_start(ap, flags);
		m = va_arg(ap, mode_t);
		va_end(ap);
	}
	return do_open(AT_FDCWD, path, flags, m);
}
int open64(char const* path, int flags, ...) {
	mode_t m = 0;
	if (flags & (O_CREAT | O_TMPFILE)) {
		va_list ap;
		va_start(ap, flags);
		m = va_arg(ap, mode_t);
		va_end(ap);
	}
	return do_open(AT_FDCWD, path, flags, m);
}

static FILE* do_fopen(char const* path, char const* mode, char const* sym) {
	FsAct a;
	bool wr = strpbrk(mode, "wa+") != nullptr;
	if (ask({FsOp::OPEN, path, -1, 0, wr}, a) && a.err) {
		errno = a.err;
		return nullptr;
	}
	auto* real = (FILE * (*) (char const*, char const*) ) dlsym(RTLD_NEXT, sym);
	return real(path, mode);
}
FILE* fopen(char const* path, char const* mode) { return do_fopen(path, mode, "fopen"); }
FILE* fopen64(char const* path, char const* mode) { return do_fopen(path, mode, "fopen64"); }

ssize_t write(int fd, void const* buf, size_t n) {
	FsAct a;
	if (fd > 2 && ask({FsOp::WRITE, nullptr, fd, n, true}, a)) {
		if (a.err) {
			errno = a.err;
			return -1;
		}
		if (n > a.limit) n = a.limit;
	}
	return syscall(SYS_write, fd, buf, n);
}
ssize_t writev(int fd, struct iovec const* iov, int cnt) {
	FsAct a;
	size_t n = 0;
	for (int i = 0; i < cnt; ++i) n += iov[i].iov_len;
	if (fd > 2 && ask({FsOp::WRITE, nullptr, fd, n, true}, a)) {
		if (a.err) {
			errno = a.err;
			return -1;
		}
		if (n > a.limit) { // short gather write
			size_t left = a.limit, done = 0;
			for (int i = 0; i < cnt && left; ++i) {
				size_t k = iov[i].iov_len < left ? iov[i].iov_len : left;
				ssize_t w = syscall(SYS_write, fd, iov[i].iov_base, k);
				if (w < 0) return done ? (ssize_t) done : -1;
				done += (size_t) w;
				left -= (size_t) w;
			}
			return (ssize_t) done;
		}
	}
	return syscall(SYS_writev, fd, iov, cnt);
}
ssize_t read(int fd, void* buf, size_t n) {
	FsAct a;
	if (fd > 2 && ask({FsOp::READ, nullptr, fd, n, false}, a)) {
		if (a.err) {
			errno = a.err;
			return -1;
		}
		if (n > a.limit) n = a.limit;
	}
	return syscall(SYS_read, fd, buf, n);
}
void* mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) noexcept {
	FsAct a;
	if (fd > 2 && ask({FsOp::MMAP, nullptr, fd, len, false}, a) && a.err) {
		errno = a.err;
		return MAP_FAILED;
	}
	return (void*) syscall(SYS_mmap, addr, len, prot, flags, fd, off);
}
int fstat(int fd, struct stat* st) noexcept {
	FsAct a;
	if (fd > 2 && ask({FsOp::FSTAT, nullptr, fd, 0, false}, a) && a.err) {
		errno = a.err;
		return -1;
	}
	return (int) syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
}
int fstat64(int fd, struct stat64* st) noexcept { return fstat(fd, (struct stat*) st); }
int mkdir(char const* path, mode_t m) noexcept {
	FsAct a;
	if (ask({FsOp::MKDIR, path, -1, 0, true}, a) && a.err) {
		errno = a.err;
		return -1;
	}
	return (int) syscall(SYS_mkdirat, AT_FDCWD, path, m);
}
int unlink(char const* path) noexcept {
	FsAct a;
	if (ask({FsOp::UNLINK, path, -1, 0, true}, a) && a.err) {
		errno = a.err;
		return -1;
	}
	return (int) syscall(SYS_unlinkat, AT_FDCWD, path, 0);
}
int unlinkat(int d, char const* path, int flags) noexcept {
	FsAct a;
	if (ask({FsOp::UNLINK, path, d, 0, true}, a) && a.err) {
		errno = a.err;
		return -1;
	}
	return (int) syscall(SYS_unlinkat, d, path, flags);
}
int rename(char const* from, char const* to) noexcept {
	FsAct a;
	if (ask({FsOp::RENAME, to, -1, 0, true}, a) && a.err) {
		errno = a.err;
		return -1;
	}
	return (int) syscall(SYS_renameat, AT_FDCWD, from, AT_FDCWD, to);
}
ssize_t sendfile(int out, int in, off_t* off, size_t n) noexcept {
	FsAct a;
	if (ask({FsOp::COPY, nullptr, out, n, true}, a)) {
		if (a.err) {
			errno = a.err;
			return -1;
		}
		if (n > a.limit) n = a.limit;
	}
	return syscall(SYS_sendfile, out, in, off, n);
}
ssize_t sendfile64(int out, int in, off64_t* off, size_t n) noexcept { return sendfile(out, in, (off_t*) off, n); }
ssize_t copy_file_range(int in, off64_t* ino, int out, off64_t* outo, size_t n, unsigned f) {
	FsAct a;
	if (ask({FsOp::COPY, nullptr, out, n, true}, a)) {
		if (a.err) {
			errno = a.err;
			return -1;
		}
		if (n > a.limit) n = a.limit;
	}
	return syscall(SYS_copy_file_range, in, ino, out, outo, n, f);
}
}
