#include "core.hh"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dirent.h>
#include <exception>
#include <fstream>
#include <new>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

#include <sanitizer/asan_interface.h>
#include <zenkit/Logger.hh>

namespace sim {
	Sim* current = nullptr;
	uint64_t steps = 0;
	uint64_t step_limit = UINT64_MAX;
	uint64_t alloc_cap = 256ull << 20;
	uint64_t alloc_fail_at = 0;
	uint64_t alloc_count = 0;
	uint64_t live_blocks = 0;
	int thread_id = -1;
	void set_env(char const* name, char const* value) {
		if (thread_id >= 0) return;
		if (value) setenv(name, value, 1);
		else unsetenv(name);
		tzset();
	}
	void log_level(bool everything) {
		if (thread_id >= 0) return;
		zenkit::Logger::set(everything ? zenkit::LogLevel::TRACE : zenkit::LogLevel::ERROR, [](zenkit::LogLevel, char const* n, char const* m) {
			static volatile size_t sink;
			sink = strlen(n) + strlen(m);
		});
	}

	// ------------------------------------------------------------------ shared result slots
	static constexpr size_t MAX_REC = 1u << 20;
	static constexpr int MAX_KINDS = 96;

	struct Counter {
		char name[48];
		uint64_t n;
	};

	struct Slot {
		volatile uint64_t cur;  // index of the run in progress
		volatile uint64_t done; // runs completed
		volatile int status;    // 0 running, 1 finished, 2 violation, 3 crash, 4 hang
		volatile uint64_t phase_heartbeat;
		char tag[256];
		char msg[3072];
		uint64_t hash;
		uint64_t total_steps, total_events, nontrivial;
		int64_t total_time;
		Counter faults[MAX_KINDS];
		Counter reached[MAX_KINDS];
		uint64_t nhash;
		uint64_t edges;
		char sample[2][4096];
		uint64_t nrec;
		// followed by hashes[] / choice record
	};

	static Slot* slot = nullptr;       // the slot this process reports into
	static uint64_t* slot_rec = nullptr;

	static void slot_text(char* dst, size_t cap, char const* src) {
		size_t n = strlen(src);
		if (n >= cap) n = cap - 1;
		memcpy(dst, src, n);
		dst[n] = 0;
	}

	// ------------------------------------------------------------------ coverage / step seam
	static uint32_t n_guards = 0;
	static uint8_t* edge_seen = nullptr;
	static uint64_t edges_hit = 0;
	static void (*edge_hook)() = nullptr;
	void on_edge_hook(void (*fn)()) { edge_hook = fn; }

	static void (*hang_dump)() = nullptr;
	static bool hang_is_fine = false;
	void out_of_steps() {
		if (hang_is_fine) _exit(0);
		step_limit = UINT64_MAX;
		if (hang_dump) hang_dump();
		if (slot) {
			slot_text(slot->tag, sizeof slot->tag, "nontermination");
			slot_text(slot->msg, sizeof slot->msg, "step budget exhausted: the operation did not terminate within the bounded number of steps");
			slot->status = 4;
		}
		_exit(11);
	}
} // namespace sim

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
	if (start == stop || *start) return;
	for (uint32_t* x = start; x < stop; x++) *x = ++sim::n_guards;
}

extern "C" __attribute__((no_sanitize("address", "coverage"))) void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
	if (++sim::steps > sim::step_limit) sim::out_of_steps();
	if (sim::edge_seen && *guard && !sim::edge_seen[*guard]) {
		sim::edge_seen[*guard] = 1;
		++sim::edges_hit;
	}
	if (sim::edge_hook) sim::edge_hook();
}

// ---------------------------------------------------------------------- allocation seam
namespace sim {
	uintptr_t const arena_base = 0x200000000000, arena_size = 64ull << 30;
	static uintptr_t arena_at = 0;
	void use_arena() {
		if (arena_at) return;
		void* p = mmap((void*) arena_base, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
		if (p != (void*) arena_base) _exit(3);
		arena_at = arena_base;
	}
	__attribute__((no_sanitize("address"))) static void* arena_alloc(size_t n) {
		size_t len = (n + 15) / 16 * 16 + 32;
		if (arena_at + len > arena_base + arena_size) return nullptr;
		auto* h = (uint64_t*) arena_at;
		arena_at += len;
		h[0] = n;
		h[1] = 0x11FE11FE11FE11FE;
		char* p = (char*) h + 16;
		memset(p, 0xBE, n < 4096 ? n : 4096);
		__asan_poison_memory_region(h, 16);
		__asan_poison_memory_region(p + n, len - 16 - n);
		return p;
	}
	__attribute__((no_sanitize("address"))) static void arena_free(void* p) {
		auto& live = ((uint64_t*) p)[-1];
		if ((uintptr_t) p % 16 != 0 || live != 0x11FE11FE11FE11FE) free(p); // (reports the bad free)
		live = 0;
		__asan_poison_memory_region(p, (((uint64_t*) p)[-2] + 15) / 16 * 16);
	}
	static void* alloc(size_t n) {
		if (current) {
			if (n > alloc_cap) throw std::bad_alloc {};
			++alloc_count;
			if (alloc_fail_at != 0 && --alloc_fail_at == 0) {
				current->fault("alloc-failure");
				throw std::bad_alloc {};
			}
		}
		void* p = arena_at && thread_id >= 0 ? arena_alloc(n) : malloc(n ? n : 1);
		if (!p) throw std::bad_alloc {};
		++live_blocks;
		return p;
	}
	static void dealloc(void* p) {
		if (p) --live_blocks;
		if (arena_at && (uintptr_t) p - arena_base < arena_size) return arena_free(p);
		free(p);
	}
} // namespace sim
#ifndef SIM_NO_ALLOC_SEAM
void* operator new(size_t n) { return sim::alloc(n); }
void* operator new[](size_t n) { return sim::alloc(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept {
	try { return sim::alloc(n); } catch (...) { return nullptr; }
}
void* operator new[](size_t n, std::nothrow_t const&) noexcept {
	try { return sim::alloc(n); } catch (...) { return nullptr; }
}
void operator delete(void* p) noexcept { sim::dealloc(p); }
void operator delete[](void* p) noexcept { sim::dealloc(p); }
void operator delete(void* p, size_t) noexcept { sim::dealloc(p); }
void operator delete[](void* p, size_t) noexcept { sim::dealloc(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { sim::dealloc(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { sim::dealloc(p); }
#endif

extern "C" const char* __asan_default_options() {
	return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:handle_abort=1:handle_sigfpe=1:"
	       "detect_stack_use_after_return=0:quarantine_size_mb=8:symbolize=0:print_summary=1:"
	       "max_allocation_size_mb=2048:fast_unwind_on_malloc=1:malloc_context_size=8:"
	       "detect_odr_violation=0:strict_string_checks=0:allow_user_segv_handler=0";
}

namespace sim {
	static bool show_reports = false;
	static void asan_cb(char const* rep) {
		if (!slot) return;
		std::string r = rep;
		std::string kind = "memory-error";
		if (auto p = r.find("AddressSanitizer: "); p != std::string::npos) {
			auto e = r.find_first_of(" \n:", p + 18);
			kind = r.substr(p + 18, e == std::string::npos ? std::string::npos : e - p - 18);
		}
		slot_text(slot->tag, sizeof slot->tag, ("memory:" + kind).c_str());
		slot_text(slot->msg, sizeof slot->msg, r.substr(0, 900).c_str());
		slot->status = 3;
	}

	[[noreturn]] static void on_terminate() {
		std::string what = "std::terminate";
		if (auto p = std::current_exception()) {
			try {
				std::rethrow_exception(p);
			} catch (std::exception const& e) {
				int st;
				char* dn = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
				what = std::string("std::terminate after an exception escaped: ") + (dn ? dn : "?") + ": " + e.what();
			} catch (Violation const& v) {
				// A harness check inside a callback fired below a noexcept frame of the library.
				if (slot) {
					slot_text(slot->tag, sizeof slot->tag, v.tag.c_str());
					slot_text(slot->msg, sizeof slot->msg, v.msg.c_str());
					slot->status = 2;
				}
				_exit(10);
			} catch (...) {
			}
		}
		if (slot) {
			slot_text(slot->tag, sizeof slot->tag, "process-terminated");
			slot_text(slot->msg, sizeof slot->msg, what.c_str());
			slot->status = 3;
		}
		_exit(12);
	}

	// ------------------------------------------------------------------ Sim
	static uint64_t splitmix(uint64_t& x) {
		uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
		return z ^ (z >> 31);
	}
	void Sim::begin_random(uint64_t seed) {
		rep = nullptr;
		for (auto& v : s) v = splitmix(seed);
	}
	void Sim::begin_replay(uint64_t const* c, size_t n) {
		static uint64_t none = 0;
		rep = c ? c : &none;
		rep_n = n;
		pos = 0;
	}
	void Sim::set_record(uint64_t* buf, size_t cap, uint64_t* count) {
		rec = buf;
		rec_cap = cap;
		rec_n = count;
		if (rec_n) *rec_n = 0;
	}
	static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
	uint64_t Sim::next() {
		uint64_t const result = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
		s[2] ^= s[0];
		s[3] ^= s[1];
		s[1] ^= s[2];
		s[0] ^= s[3];
		s[2] ^= t;
		s[3] = rotl(s[3], 45);
		return result;
	}
	uint64_t Sim::below(uint64_t n) {
		if (n <= 1) n = 1;
		uint64_t v;
		if (rep) v = pos < rep_n ? rep[pos] % n : 0;
		else v = n == 1 ? 0 : next() % n;
		++pos;
		if (rec && *rec_n < rec_cap) rec[(*rec_n)++] = v;
		return v;
	}
	uint32_t Sim::u32() {
		switch (below(6)) {
		case 0: return (uint32_t) below(4);
		case 1: return (uint32_t) below(256);
		case 2: return (uint32_t) below(65536);
		case 3: return (uint32_t) below(1ull << 32);
		case 4: { static uint32_t const k[] = {0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 1000000000, 0xc4653600u /* -1000000000 */, 2147483646}; return k[below(16)]; }
		default: return (uint32_t) (0 - below(1000));
		}
	}
	int32_t Sim::i32() { return (int32_t) u32(); }
	float Sim::f32() {
		switch (below(5)) {
		case 0: return (float) (int) below(16);
		case 1: return (float) range(-100000, 100000) / 16.f;
		case 2: { static float const k[] = {0.f, -0.f, 1.f, -1.f, .5f, 1.1754944e-38f, 3.4028235e38f, -3.4028235e38f, 1e-7f, 123456.789f, 1e-45f}; return k[below(11)]; }
		case 3: return (float) range(-1000000, 1000000) / 1000003.f;
		default: {
			uint32_t b = (uint32_t) below(1ull << 32);
			if (((b >> 23) & 0xff) == 0xff) b &= ~(1u << 30);
			float f;
			memcpy(&f, &b, 4);
			return f;
		}
		}
	}
	std::string Sim::ident(size_t max_len) {
		static char const al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
		size_t n = 1 + below(max_len);
		std::string r(n, 'A');
		for (auto& c : r) c = al[below(37)];
		return r;
	}
	std::vector<std::byte> Sim::bytes(size_t n) {
		// A few choices expand into many bytes, so that traces stay short.
		std::vector<std::byte> v(n);
		uint64_t x = below(1ull << 32), mode = below(3);
		for (auto& b : v) {
			if (mode == 0) b = (std::byte) (x >> 3);
			else b = (std::byte) splitmix(x);
		}
		return v;
	}
	void Sim::mix(uint64_t v) { hash = fnv(&v, 8, hash); }
	void Sim::mix(void const* p, size_t n) { hash = fnv(p, n, hash); }
	void Sim::event(char const* fmt, ...) {
		char buf[600];
		va_list ap;
		va_start(ap, fmt);
		int n = vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		if (n > (int) sizeof buf - 1) n = sizeof buf - 1;
		hash = fnv(buf, (size_t) n, hash);
		++events;
		if (tracing && trace.size() < 4000) {
			uint64_t save = alloc_fail_at;
			alloc_fail_at = 0;
			trace.emplace_back(buf);
			alloc_fail_at = save;
		}
	}
	void Sim::fault(char const* kind) { fault(kind, 1); }
	void Sim::fault(char const* kind, uint64_t n) {
		uint64_t save = alloc_fail_at;
		alloc_fail_at = 0;
		faults[kind] += n;
		event("FAULT %s", kind);
		alloc_fail_at = save;
	}
	void Sim::reach(char const* what) {
		uint64_t save = alloc_fail_at;
		alloc_fail_at = 0;
		reached[what] += 1;
		alloc_fail_at = save;
	}
	void Sim::fail(std::string tag, char const* fmt, ...) {
		char buf[2900];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		event("VIOLATION %s: %s", tag.c_str(), buf);
		throw Violation {std::move(tag), buf};
	}
	void Sim::check(bool ok, char const* tag, char const* fmt, ...) {
		if (ok) return;
		char buf[2900];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		fail(tag, "%s", buf);
	}
	uint64_t Sim::steps_used() const { return steps; }
	void Sim::set_step_budget(uint64_t n) { step_limit = steps + n; }

	std::string hex(void const* p, size_t n, size_t max) {
		std::string r;
		auto* b = static_cast<unsigned char const*>(p);
		char t[4];
		for (size_t i = 0; i < n && i < max; ++i) {
			snprintf(t, sizeof t, "%02x", b[i]);
			r += t;
		}
		if (n > max) r += "...";
		return r;
	}

	// ------------------------------------------------------------------ scratch
	static std::string scratch_base;
	static pid_t scratch_owner = 0;
	static void rm_rf(std::string const& d) {
		if (DIR* dp = opendir(d.c_str())) {
			while (auto* e = readdir(dp)) {
				std::string n = e->d_name;
				if (n == "." || n == "..") continue;
				std::string p = d + "/" + n;
				struct stat st;
				if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_rf(p);
				else unlink(p.c_str());
			}
			closedir(dp);
		}
		rmdir(d.c_str());
	}
	std::string scratch_dir() {
		static pid_t mine = 0;
		static std::string dir;
		if (mine != getpid()) {
			mine = getpid();
			// The path must have the same shape in every process: it may take part in ZenKit's behaviour.
			char b[64];
			snprintf(b, sizeof b, "/w%010d", (int) mine);
			dir = scratch_base + b;
			mkdir(dir.c_str(), 0700);
		}
		if (thread_id < 0) return dir;
		auto t = dir + "/t" + std::to_string(thread_id);
		mkdir(t.c_str(), 0700);
		return t;
	}
	void wipe_dir(std::string const& d) {
		if (scratch_base.empty() || d.compare(0, scratch_base.size(), scratch_base) != 0 || d.find("..") != std::string::npos) abort();
		rm_rf(d);
		mkdir(d.c_str(), 0700);
	}

	// ------------------------------------------------------------------ one run
	static void bump(Counter* tab, std::string const& k, uint64_t n) {
		for (int i = 0; i < MAX_KINDS; ++i) {
			if (tab[i].name[0] == 0) slot_text(tab[i].name, sizeof tab[i].name, k.c_str());
			if (k.compare(0, sizeof tab[i].name - 1, tab[i].name) == 0) {
				tab[i].n += n;
				return;
			}
		}
	}

	/// Index: >= 0 random run, < 0 directed scenario -(i+1).
	static void exec_run(Sim& sm, int64_t index) {
		alloc_fail_at = 0;
		alloc_cap = 256ull << 20;
		steps = 0;
		step_limit = harness.step_budget;
		current = &sm;
		if (index < 0) harness.directed[(size_t) (-index - 1)](sm);
		else harness.run(sm);
		current = nullptr;
		step_limit = UINT64_MAX;
	}

	static void account(Sim& sm) {
		slot->total_steps += steps;
		slot->total_events += sm.events;
		slot->total_time += std::abs(sm.clock - 1'700'000'000);
		for (auto& [k, n] : sm.faults) bump(slot->faults, k, n);
		for (auto& [k, n] : sm.reached) bump(slot->reached, k, n);
	}

	static uint64_t run_seed(uint64_t base, int64_t index) {
		uint64_t x = base * 0x9e3779b97f4a7c15ULL + (uint64_t) index;
		for (char const* p = harness.property; *p; ++p) x = x * 1099511628211ULL + (unsigned char) *p;
		splitmix(x);
		return splitmix(x);
	}

	static void child_init() {
		edge_seen = (uint8_t*) mmap(nullptr, n_guards + 2, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		__asan_set_error_report_callback(asan_cb);
		std::set_terminate(on_terminate);
		if (!show_reports) {
			FILE* f = freopen("/dev/null", "w", stderr);
			(void) f;
		}
		struct rlimit rl {0, 0};
		setrlimit(RLIMIT_CORE, &rl);
	}

	static Slot* new_slot(size_t words, uint64_t** tail) {
		size_t sz = sizeof(Slot) + words * 8;
		void* p = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (p == MAP_FAILED) {
			perror("mmap");
			_exit(3);
		}
		*tail = (uint64_t*) ((char*) p + sizeof(Slot));
		return (Slot*) p;
	}

	bool survives(std::function<void()> const& f, uint64_t max_steps) {
		pid_t pid = fork();
		if (pid == 0) {
			slot = nullptr, hang_dump = nullptr, hang_is_fine = true;
			step_limit = steps + max_steps;
			alarm(60);
			try {
				f();
			} catch (Violation const&) {
				_exit(13);
			} catch (...) {
			}
			_exit(0);
		}
		int st = 0;
		while (pid > 0 && waitpid(pid, &st, 0) != pid) {}
		return pid > 0 && WIFEXITED(st) && WEXITSTATUS(st) == 0;
	}

	struct Outcome {
		int status = 0; // 1 ok, 2 violation, 3 crash, 4 hang
		std::string tag, msg;
		uint64_t hash = 0;
		std::vector<uint64_t> choices;
	};

	static Slot* one_slot = nullptr;
	static uint64_t* one_rec = nullptr;

	static Outcome run_isolated(int64_t index, uint64_t seed, std::vector<uint64_t> const* replay, double limit_s = 240) {
		if (!one_slot) one_slot = new_slot(MAX_REC, &one_rec);
		memset(one_slot, 0, sizeof(Slot));
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			slot = one_slot;
			slot_rec = one_rec;
			child_init();
			Sim sm;
			sm.set_record(one_rec, MAX_REC, &one_slot->nrec);
			if (replay) sm.begin_replay(replay->data(), replay->size());
			else sm.begin_random(seed);
			try {
				exec_run(sm, index);
				slot->hash = sm.hash;
				slot->status = 1;
			} catch (Violation const& v) {
				current = nullptr;
				slot_text(slot->tag, sizeof slot->tag, v.tag.c_str());
				slot_text(slot->msg, sizeof slot->msg, v.msg.c_str());
				slot->hash = sm.hash;
				slot->status = 2;
			}
			rm_rf(scratch_dir());
			_exit(0);
		}
		int st = 0;
		auto t0 = std::chrono::steady_clock::now();
		bool killed = false;
		for (;;) {
			pid_t r = waitpid(pid, &st, WNOHANG);
			if (r == pid) break;
			double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
			if (el > limit_s) {
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				killed = true;
				break;
			}
			usleep(el < 0.05 ? 200 : 3000);
		}
		Outcome o;
		o.status = one_slot->status;
		o.tag = one_slot->tag;
		o.msg = one_slot->msg;
		for (auto& ch : o.msg)
			if (((unsigned char) ch < 32 && ch != '\n') || (unsigned char) ch > 126) ch = '?';
		o.hash = one_slot->hash;
		if (killed) {
			o.status = 4;
			o.tag = "nontermination";
			o.msg = "wall clock limit for a single run exceeded";
		} else if (o.status == 0) {
			o.status = 3;
			o.tag = "process-died";
			o.msg = "the process running ZenKit died (wait status " + std::to_string(st) + ")";
		}
		o.choices.assign(one_rec, one_rec + one_slot->nrec);
		return o;
	}

	// ------------------------------------------------------------------ minimiser
	static std::vector<uint64_t> minimise(int64_t index, std::string const& tag, int status, std::vector<uint64_t> c,
	                                      double secs, uint64_t* tried) {
		auto t0 = std::chrono::steady_clock::now();
		auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs; };
		auto bad = [&](std::vector<uint64_t>& cand) {
			++*tried;
			auto o = run_isolated(index, 0, &cand, 60);
			if (o.status != status || o.tag != tag) return false;
			if (o.choices.size() < cand.size()) cand.resize(o.choices.size());
			return true;
		};
		bool progress = true;
		while (progress && left()) {
			progress = false;
			for (size_t sz = std::max<size_t>(1, c.size() / 2); left(); sz /= 2) { // delete chunks
				for (size_t i = c.size(); i > 0 && left();) {
					size_t b = i > sz ? i - sz : 0;
					std::vector<uint64_t> cand(c.begin(), c.begin() + (long) b);
					cand.insert(cand.end(), c.begin() + (long) std::min(i, c.size()), c.end());
					if (cand.size() < c.size() && bad(cand)) {
						c = cand;
						progress = true;
						i = std::min(b, c.size());
					} else i = b;
				}
				if (sz <= 1) break;
			}
			for (size_t sz = std::max<size_t>(1, c.size() / 2); left(); sz /= 2) { // zero chunks
				for (size_t i = 0; i < c.size() && left(); i += sz) {
					auto cand = c;
					bool ch = false;
					for (size_t k = i; k < std::min(c.size(), i + sz); ++k)
						if (cand[k]) cand[k] = 0, ch = true;
					if (ch && bad(cand)) c = cand, progress = true;
				}
				if (sz <= 1) break;
			}
			for (size_t i = 0; i < c.size() && left(); ++i) { // lower values
				uint64_t lo = 0, hi = c[i];
				while (lo + 1 < hi && left()) {
					uint64_t m = lo + (hi - lo) / 2;
					auto cand = c;
					cand[i] = m;
					if (bad(cand)) {
						c = cand;
						progress = true;
						if (i >= c.size()) break;
						hi = m;
					} else lo = m;
				}
				if (i < c.size() && c[i] == 2 && left()) {
					auto cand = c;
					cand[i] = 1;
					if (bad(cand)) c = cand, progress = true;
				}
			}
		}
		return c;
	}

	static std::string jstr(std::string_view s) {
		std::string r = "\"";
		for (unsigned char ch : s) {
			if (ch == '"' || ch == '\\') r += '\\', r += (char) ch;
			else if (ch == '\n') r += "\\n";
			else if (ch == '\t') r += "\\t";
			else if (ch < 32 || ch > 126) {
				char b[8];
				snprintf(b, sizeof b, "\\u%04x", ch);
				r += b;
			} else r += (char) ch;
		}
		return r + "\"";
	}

	// ------------------------------------------------------------------ replay files
	static bool load_replay(std::string const& path, int64_t& index, std::string& tag, int& status, std::vector<uint64_t>& c) {
		std::ifstream f(path);
		std::string line;
		bool ok = false;
		while (std::getline(f, line)) {
			std::istringstream is(line);
			std::string k;
			is >> k;
			if (k == "index") is >> index;
			else if (k == "status") is >> status;
			else if (k == "tag") {
				std::getline(is, tag);
				if (!tag.empty()) tag.erase(0, 1);
			} else if (k == "choices") {
				size_t n;
				is >> n;
				c.resize(n);
				for (auto& v : c) is >> v;
				ok = true;
			}
		}
		return ok;
	}

	/// Runs a replay with tracing in a forked child and returns the trace.
	static std::vector<std::string> trace_of(int64_t index, std::vector<uint64_t> const& c) {
		int fd[2];
		if (pipe(fd)) return {};
		if (!one_slot) one_slot = new_slot(MAX_REC, &one_rec);
		memset(one_slot, 0, sizeof(Slot));
		pid_t pid = fork();
		if (pid == 0) {
			close(fd[0]);
			slot = one_slot;
			child_init();
			// Live tracing: crash-safe, unbuffered.
			static int out;
			out = fd[1];
			struct TSim : Sim {};
			TSim sm;
			sm.tracing = true;
			sm.set_record(one_rec, MAX_REC, &one_slot->nrec);
			sm.begin_replay(c.data(), c.size());
			static Sim* smp;
			smp = &sm;
			auto dump = [] {
				std::string s;
				for (auto& l : smp->trace) s += l + "\n";
				size_t off = 0;
				while (off < s.size()) {
					auto w = write(out, s.data() + off, s.size() - off);
					if (w <= 0) break;
					off += (size_t) w;
				}
			};
			static auto dumpf = dump;
			hang_dump = [] { dumpf(); };
			__asan_set_death_callback([] { dumpf(); });
			__asan_set_error_report_callback(asan_cb);
			std::set_terminate([] { dumpf(); _exit(12); });
			try {
				exec_run(sm, index);
			} catch (Violation const&) {
				current = nullptr;
			}
			dump();
			rm_rf(scratch_dir());
			_exit(0);
		}
		close(fd[1]);
		std::string all;
		char b[4096];
		ssize_t n;
		while ((n = read(fd[0], b, sizeof b)) > 0) all.append(b, (size_t) n);
		close(fd[0]);
		int st;
		waitpid(pid, &st, 0);
		std::vector<std::string> r;
		std::istringstream is(all);
		std::string l;
		while (std::getline(is, l)) {
			for (auto& ch : l)
				if ((unsigned char) ch < 32 || (unsigned char) ch > 126) ch = '?';
			r.push_back(l);
		}
		return r;
	}

	struct Known {
		std::string tag, desc;
	};
	static std::vector<Known> load_known(std::string const& file) {
		// finding: property=P03 tag=<tag> :: description
		std::vector<Known> r;
		std::ifstream f(file);
		std::string line;
		std::string want = std::string("finding: property=") + harness.property + " tag=";
		while (std::getline(f, line)) {
			if (line.compare(0, want.size(), want) != 0) continue;
			auto rest = line.substr(want.size());
			auto p = rest.find(" :: ");
			if (p == std::string::npos) continue;
			r.push_back({rest.substr(0, p), rest.substr(p + 4)});
		}
		return r;
	}
} // namespace sim

using namespace sim;

static double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

int main(int argc, char** argv) {
	if (!getenv("SIM_NO_REEXEC")) {
		int p = personality(0xffffffff);
		if (p != -1 && !(p & ADDR_NO_RANDOMIZE)) {
			setenv("SIM_NO_REEXEC", "1", 1);
			if (personality((unsigned long) p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
		}
	}
	setenv("TZ", "UTC", 1);
	tzset();
	setenv("USER", "sim", 1);

	std::string tier = "quick", verif = ".", replay;
	uint64_t seed = 1, runs = 0;
	double secs = 0;
	int workers = 0;
	bool only_trace = false, no_min = false;
	int64_t single = INT64_MIN;
	if (char const* e = getenv("VERIF_SEED")) seed = strtoull(e, nullptr, 10);
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--tier") tier = val();
		else if (a == "--verif") verif = val();
		else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--runs") runs = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--secs") secs = atof(val().c_str());
		else if (a == "--workers") workers = atoi(val().c_str());
		else if (a == "--replay") replay = val();
		else if (a == "--single") single = atoll(val().c_str());
		else if (a == "--trace") only_trace = true;
		else if (a == "--no-min") no_min = true;
		else if (a == "--reports") show_reports = true;
	}
	bool thorough = tier == "thorough";
	if (!runs) runs = thorough ? harness.thorough_runs : harness.quick_runs;
	if (secs <= 0) secs = thorough ? harness.thorough_secs : harness.quick_secs;
	if (workers <= 0) {
		workers = (int) sysconf(_SC_NPROCESSORS_ONLN);
		if (workers > harness.max_workers) workers = harness.max_workers;
		if (workers < 1) workers = 1;
	}

	// scratch space: memory-backed where possible; removed on exit
	{
		char t[64];
		snprintf(t, sizeof t, "%s/zksim.XXXXXX", access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp");
		if (!mkdtemp(t)) {
			perror("mkdtemp");
			return 3;
		}
		scratch_base = t;
		scratch_owner = getpid();
		atexit([] { if (getpid() == scratch_owner) rm_rf(scratch_base); });
		signal(SIGTERM, [](int) { if (getpid() == scratch_owner) rm_rf(scratch_base); _exit(3); });
		signal(SIGPIPE, SIG_IGN);
	}

	// ---- replay mode --------------------------------------------------------------------------
	if (!replay.empty()) {
		int64_t index = 0;
		std::string tag;
		int status = 0;
		std::vector<uint64_t> c;
		if (!load_replay(replay, index, tag, status, c)) {
			fprintf(stderr, "cannot read replay file\n");
			return 3;
		}
		if (only_trace)
			for (auto& l : trace_of(index, c)) printf("%s\n", l.c_str());
		auto o = run_isolated(index, 0, &c);
		printf("REPLAY status=%d hash=%016llx tag=%s\n", o.status, (unsigned long long) o.hash, o.tag.c_str());
		if (o.status == 1) return 0;
		printf("%s\n", o.msg.c_str());
		return o.tag == tag && o.status == status ? 1 : 2;
	}
	if (single != INT64_MIN) { // developer mode
		auto o = run_isolated(single, run_seed(seed, single), nullptr);
		if (only_trace)
			for (auto& l : trace_of(single, o.choices)) printf("%s\n", l.c_str());
		printf("SINGLE status=%d hash=%016llx tag=%s msg=%s choices=%zu\n", o.status, (unsigned long long) o.hash, o.tag.c_str(),
		       o.msg.c_str(), o.choices.size());
		return 0;
	}

	double t0 = now_s();
	auto known = load_known(verif + "/known_findings.txt");
	std::map<std::string, uint64_t> known_hits;
	auto known_of = [&](std::string const& tag) -> Known const* {
		for (auto& k : known)
			if (k.tag == tag) return &k;
		return nullptr;
	};

	struct Failure {
		int64_t index;
		int status;
		std::string tag, msg;
	};
	std::vector<Failure> failures;

	// ---- directed scenarios -------------------------------------------------------------------
	uint64_t evaluations = 0, directed_done = 0;
	for (size_t i = 0; i < harness.directed.size(); ++i) {
		int64_t idx = -(int64_t) i - 1;
		auto o = run_isolated(idx, run_seed(seed, idx), nullptr);
		++evaluations;
		++directed_done;
		if (o.status != 1) {
			if (known_of(o.tag)) known_hits[o.tag]++;
			else {
				failures.push_back({idx, o.status, o.tag, o.msg});
				break;
			}
		}
	}

	// ---- determinism: the same seed in two fresh processes must give the same history -----------
	uint64_t det_pairs = 0, det_bad = 0;
	if (failures.empty())
		for (int64_t i = 0; i < (thorough ? 24 : 6); ++i) {
			auto a = run_isolated(i, run_seed(seed, i), nullptr);
			auto b = run_isolated(i, run_seed(seed, i), nullptr);
			auto c = run_isolated(i, 0, &a.choices);
			if (a.status != 1 || b.status != 1) break; // handled below as a failure
			++det_pairs;
			if (a.hash != b.hash || a.hash != c.hash || a.choices != b.choices) {
				++det_bad;
				fprintf(stderr, "nondeterministic run %lld: %016llx %016llx %016llx\n", (long long) i, (unsigned long long) a.hash,
				        (unsigned long long) b.hash, (unsigned long long) c.hash);
			}
		}

	// ---- seeded search ----------------------------------------------------------------------
	struct W {
		pid_t pid;
		Slot* s;
		uint64_t* tail;
		uint64_t next_start;
		uint64_t last_cur;
		double last_change;
		bool live;
	};
	std::vector<W> ws((size_t) workers);
	size_t cap = runs / (uint64_t) workers + 8;
	static Slot* rec_slot_dummy = nullptr;
	(void) rec_slot_dummy;
	double deadline = now_s() + secs;
	auto spawn = [&](size_t w) {
		auto& x = ws[w];
		fflush(stdout);
		x.pid = fork();
		if (x.pid == 0) {
			slot = x.s;
			child_init();
			std::unordered_set<uint64_t> seen;
			for (uint64_t i = x.next_start; i < runs; i += (uint64_t) workers) {
				if (now_s() > deadline) break;
				slot->cur = i;
				slot->phase_heartbeat++;
				Sim sm;
				bool want_sample = slot->done < 2 && w == 0;
				if (harness.isolate) {
					slot->hash = 0, slot->nrec = 0;
					pid_t pid = fork();
					if (pid > 0) {
						int st = 0;
						while (waitpid(pid, &st, 0) != pid) {}
						if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) _exit(10);
						edges_hit = 0;
						for (uint32_t g = 0; g <= n_guards; ++g) edges_hit += edge_seen[g];
						slot->edges = edges_hit;
						if (slot->nrec && slot->nhash < cap) {
							slot->nontrivial++;
							if (seen.insert(slot->hash).second) x.tail[slot->nhash++] = slot->hash;
						}
						continue;
					}
					prctl(PR_SET_PDEATHSIG, SIGKILL);
				}
				sm.tracing = want_sample;
				sm.begin_random(run_seed(seed, (int64_t) i));
				try {
					exec_run(sm, (int64_t) i);
				} catch (Violation const& v) {
					current = nullptr;
					slot_text(slot->tag, sizeof slot->tag, v.tag.c_str());
					slot_text(slot->msg, sizeof slot->msg, v.msg.c_str());
					slot->status = 2;
					account(sm);
					rm_rf(scratch_dir());
					_exit(10);
				}
				account(sm);
				if (!harness.isolate && sm._nontrivial && slot->nhash < cap) {
					slot->nontrivial++;
					if (seen.insert(sm.hash).second) x.tail[slot->nhash++] = sm.hash;
				}
				if (want_sample) {
					std::string s = "run " + std::to_string(i) + ": ";
					for (auto& l : sm.trace) {
						if (s.size() + l.size() > 1500) {
							s += "...";
							break;
						}
						s += l + "; ";
					}
					slot_text(slot->sample[slot->done], 4096, s.c_str());
				}
				slot->edges = edges_hit;
				slot->done++;
				if (harness.isolate) {
					slot->hash = sm.hash, slot->nrec = sm._nontrivial;
					rm_rf(scratch_dir());
					_exit(0);
				}
			}
			slot->status = 1;
			rm_rf(scratch_dir());
			_exit(0);
		}
		x.live = true;
		x.last_change = now_s();
		x.last_cur = UINT64_MAX;
	};
	uint64_t crashes_restarted = 0;
	if (failures.empty()) {
		for (size_t w = 0; w < ws.size(); ++w) {
			ws[w].s = new_slot(cap, &ws[w].tail);
			memset(ws[w].s, 0, sizeof(Slot));
			ws[w].next_start = w;
			spawn(w);
		}
		bool stop = false;
		for (;;) {
			bool any = false;
			for (size_t w = 0; w < ws.size(); ++w) {
				auto& x = ws[w];
				if (!x.live) continue;
				any = true;
				int st;
				pid_t r = waitpid(x.pid, &st, WNOHANG);
				bool stuck = false;
				if (r == 0) {
					uint64_t hb = x.s->phase_heartbeat;
					if (hb != x.last_cur) x.last_cur = hb, x.last_change = now_s();
					if (now_s() - x.last_change > 240) {
						kill(x.pid, SIGKILL);
						waitpid(x.pid, &st, 0);
						stuck = true;
					} else if (stop) {
						kill(x.pid, SIGKILL);
						waitpid(x.pid, &st, 0);
						x.live = false;
						continue;
					} else continue;
				}
				x.live = false;
				if (x.s->status == 1) continue;
				Failure f {(int64_t) x.s->cur, x.s->status, x.s->tag, x.s->msg};
				if (stuck) f.status = 4, f.tag = "nontermination", f.msg = "wall clock limit for a single run exceeded";
				else if (f.status == 0) f.status = 3, f.tag = "process-died", f.msg = "wait status " + std::to_string(st);
				if (known_of(f.tag)) {
					known_hits[f.tag]++;
					x.s->done++;
					x.next_start = (uint64_t) f.index + (uint64_t) workers;
					memset(x.s->tag, 0, sizeof x.s->tag);
					x.s->status = 0;
					++crashes_restarted;
					if (x.next_start < runs && now_s() < deadline) spawn(w);
					continue;
				}
				failures.push_back(f);
				stop = true;
			}
			if (!any) break;
			usleep(2000);
		}
	}

	// ---- collect --------------------------------------------------------------------------
	std::unordered_set<uint64_t> distinct;
	std::map<std::string, uint64_t> faults, reached;
	uint64_t total_steps = 0, total_events = 0, edges = 0;
	int64_t total_time = 0;
	std::vector<std::string> samples;
	for (auto& x : ws) {
		if (!x.s) continue;
		evaluations += x.s->done;
		total_steps += x.s->total_steps;
		total_events += x.s->total_events;
		total_time += x.s->total_time;
		edges = std::max<uint64_t>(edges, x.s->edges);
		for (uint64_t i = 0; i < x.s->nhash; ++i) distinct.insert(x.tail[i]);
		for (int i = 0; i < MAX_KINDS; ++i) {
			if (x.s->faults[i].name[0]) faults[x.s->faults[i].name] += x.s->faults[i].n;
			if (x.s->reached[i].name[0]) reached[x.s->reached[i].name] += x.s->reached[i].n;
		}
		for (int i = 0; i < 2; ++i)
			if (x.s->sample[i][0] && samples.size() < 2) samples.push_back(x.s->sample[i]);
	}
	double search_wall = now_s() - t0;

	// ---- failures: minimise, write replay, confirm in a fresh process ---------------------------
	int exit_code = 0;
	std::string replay_path;
	uint64_t shrink_tries = 0;
	if (!failures.empty()) {
		std::sort(failures.begin(), failures.end(), [](auto& a, auto& b) { return a.index < b.index; });
		bool reported = false;
		for (auto& f : failures) {
			auto o = run_isolated(f.index, run_seed(seed, f.index), nullptr);
			for (int k = 0; k < 3 && o.status == 1; ++k) o = run_isolated(f.index, run_seed(seed, f.index), nullptr);
			if (o.status == 1) {
				fprintf(stderr, "run %lld failed once (%s: %s) but not when repeated\n", (long long) f.index, f.tag.c_str(), f.msg.c_str());
				continue;
			}
			auto c = o.choices;
			if (!no_min) c = minimise(f.index, o.tag, o.status, c, thorough ? 120 : 45, &shrink_tries);
			auto tr = trace_of(f.index, c);
			auto fin = run_isolated(f.index, 0, &c);
			mkdir((verif + "/replays").c_str(), 0755);
			replay_path = verif + "/replays/" + harness.property + "-seed" + std::to_string(seed) + "-run" + std::to_string(f.index) + ".replay";
			std::ofstream out(replay_path);
			out << "property " << harness.property << "\nseed " << seed << "\nindex " << f.index << "\nstatus " << fin.status << "\ntag " << fin.tag << "\n";
			out << "choices " << c.size();
			for (auto v : c) out << ' ' << v;
			out << "\n# violation: " << jstr(fin.msg) << "\n# minimised trace (" << tr.size() << " events):\n";
			for (auto& l : tr) out << "#   " << l << "\n";
			out.close();
			// fresh process gate
			std::string cmd = "/proc/" + std::to_string(getpid()) + "/exe";
			char self[4096];
			ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
			self[n > 0 ? n : 0] = 0;
			cmd = std::string(self) + " --verif '" + verif + "' --replay '" + replay_path + "' >/dev/null 2>&1";
			unsetenv("SIM_NO_REEXEC");
			int rc = system(cmd.c_str());
			int rc2 = system(cmd.c_str());
			bool same = WIFEXITED(rc) && WEXITSTATUS(rc) == 1 && WIFEXITED(rc2) && WEXITSTATUS(rc2) == 1;
			if (!same) {
				fprintf(stderr, "replay did not reproduce (%s: %s)\n", fin.tag.c_str(), fin.msg.c_str());
				continue;
			}
			printf("%s: %s\n", fin.tag.c_str(), fin.msg.c_str());
			size_t shown = 0;
			for (auto& l : tr) {
				if (++shown > 60) break;
				printf("  | %s\n", l.c_str());
			}
			printf("VIOLATION property=%s replay=%s\n", harness.property, replay_path.c_str());
			reported = true;
			break;
		}
		exit_code = reported ? 1 : 2;
	}
	if (det_bad && exit_code == 0) exit_code = 2;
	for (auto& k : known) {
		if (known_hits[k.tag]) printf("KNOWN-FINDING: property=%s %s (tag %s, hit %llu times)\n", harness.property, k.desc.c_str(), k.tag.c_str(), (unsigned long long) known_hits[k.tag]);
		else fprintf(stderr, "note: listed finding %s was not reproduced on this run\n", k.tag.c_str());
	}

	// ---- evidence -----------------------------------------------------------------------------
	double wall = now_s() - t0;
	std::ostringstream ev;
	ev << "{\n \"property\": " << jstr(harness.property) << ",\n \"tier\": " << jstr(thorough ? "thorough" : "quick") << ",\n \"seed\": " << seed
	   << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
	ev << "  \"evaluations\": " << evaluations << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": " << jstr(harness.rule) << ",\n";
	ev << "  \"samples\": [";
	for (size_t i = 0; i < samples.size(); ++i) ev << (i ? ", " : "") << jstr(samples[i]);
	ev << "],\n";
	ev << "  \"components\": " << jstr(harness.components) << ",\n";
	ev << "  \"directed_scenarios\": " << directed_done << ",\n";
	ev << "  \"runs_per_hour\": " << (uint64_t) (search_wall > 0 ? (double) evaluations * 3600 / search_wall : 0) << ",\n";
	ev << "  \"executed_edges_of_zenkit_code\": " << total_steps << ",\n  \"distinct_edges_reached\": " << edges << ",\n  \"instrumented_edges\": " << n_guards << ",\n";
	ev << "  \"history_events\": " << total_events << ",\n  \"simulated_seconds\": " << total_time << ",\n";
	ev << "  \"determinism_rechecks\": " << det_pairs << ",\n  \"determinism_mismatches\": " << det_bad << ",\n  \"shrink_attempts\": " << shrink_tries << ",\n";
	ev << "  \"faults_injected\": {";
	bool first = true;
	for (auto& [k, n] : faults) ev << (first ? "" : ", ") << jstr(k) << ": " << n, first = false;
	ev << "},\n  \"reached\": {";
	first = true;
	for (auto& [k, n] : reached) ev << (first ? "" : ", ") << jstr(k) << ": " << n, first = false;
	ev << "},\n  \"known_findings_hit\": " << known_hits.size() << "\n },\n";
	ev << " \"assumptions\": [\"bounded seeded search: absence of a violation is evidence for the runs executed, not a proof\"],\n";
	ev << " \"wall_s\": " << wall << ",\n \"violations\": " << (exit_code == 1 ? 1 : 0) << "\n}\n";
	{
		mkdir((verif + "/evidence").c_str(), 0755);
		std::ofstream out(verif + "/evidence/" + harness.property + ".json");
		out << ev.str();
	}
	printf("%s tier=%s seed=%llu runs=%llu distinct=%zu edges=%llu/%u wall=%.1fs exit=%d\n", harness.property, thorough ? "thorough" : "quick",
	       (unsigned long long) seed, (unsigned long long) evaluations, distinct.size(), (unsigned long long) edges, n_guards, wall, exit_code);
	fflush(stdout);
	return exit_code;
}
