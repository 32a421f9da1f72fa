#include "sched.hh"
#include "seam.hh"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <zenkit/Logger.hh>

extern "C" char __data_start, _end;

namespace sim::sched {
	Stats stats;

	struct Ctx { // what belongs to a simulated thread
		Sim* sim = nullptr;
		uint64_t steps = 0, step_limit = UINT64_MAX, alloc_cap = 0, alloc_fail_at = 0, alloc_count = 0, live_blocks = 0;
		FsAct (*fs)(FsCall const&) = nullptr;
		int64_t tick = 0;
		void (*clk)(int64_t) = nullptr;
		int id = -1;
		void take() {
			sim = current, steps = sim::steps, step_limit = sim::step_limit, alloc_cap = sim::alloc_cap, alloc_fail_at = sim::alloc_fail_at;
			alloc_count = sim::alloc_count, live_blocks = sim::live_blocks, fs = fs_hook, tick = clock_tick, clk = clock_hook, id = thread_id;
		}
		void put() const {
			current = sim, sim::steps = steps, sim::step_limit = step_limit, sim::alloc_cap = alloc_cap, sim::alloc_fail_at = alloc_fail_at;
			sim::alloc_count = alloc_count, sim::live_blocks = live_blocks, fs_hook = fs, clock_tick = tick, clock_hook = clk, thread_id = id;
		}
	};
	struct T {
		Ctx ctx;
		sem_t go;
		pthread_t th;
		bool done = false;
		int me = -1;
		Thread* t = nullptr;
	};
	struct Sched {
		Sim* s = nullptr;
		std::vector<T> ts;
		sem_t all_done;
		int cur = -1;
		uint64_t left = 0;    // points until the next switch
		uint64_t scale = 1;   // typical number of points between switches
		unsigned hotness = 0; // chance of a switch at a point that touches shared data, of 8
		uint64_t budget = 0;  // switches left
	};
	static Sched* S = nullptr;
	static thread_local int me = -1;    // the simulated thread of this real thread
	static thread_local int nested = 0; // inside of the scheduler
	static bool forked = false;         // (only the forking thread goes on in a forked process)
	static std::vector<void*>* pending = nullptr; // initialisations in progress

	// ------------------------------------------------------------------ shared data
	/// Granules of memory stored to by simulated threads, and by whom. (Memory is not reused, so that this depends on what
	/// the threads do and not on where they do it.)
	struct Table {
		static constexpr size_t N = 1u << 20;
		uintptr_t key[N];
		uint8_t who[N];
		size_t used;
	};
	static Table* table = nullptr;
	static std::vector<std::pair<uintptr_t, uintptr_t>>* libs = nullptr; // writable data of shared libraries

	static inline bool is_global(uintptr_t a) { return a >= (uintptr_t) &__data_start && a < (uintptr_t) &_end; }
	static inline bool is_heap(uintptr_t a) { return a - arena_base < arena_size; }
	static inline size_t slot_of(uintptr_t k) { return (size_t) ((k * 0x9e3779b97f4a7c15ULL) >> 44); }
	static inline int stored_by(uintptr_t k) {
		for (size_t i = slot_of(k); table->key[i]; i = (i + 1) % Table::N)
			if (table->key[i] == k) return table->who[i];
		return -1;
	}
	static void store(uintptr_t k, int who) {
		size_t i = slot_of(k);
		while (table->key[i] && table->key[i] != k) i = (i + 1) % Table::N;
		if (!table->key[i]) {
			if (table->used >= Table::N / 2) return;
			++table->used;
			table->key[i] = k;
		}
		table->who[i] = (uint8_t) who;
	}

	// ------------------------------------------------------------------ switching
	[[gnu::noinline]] static void draw() {
		Sim& s = *S->s;
		if (S->budget == 0) S->left = 20'000 + s.below(200'000);
		else if (s.below(16) == 15) S->left = 1 + s.below(30'000);
		else S->left = 1 + s.below(S->scale);
	}

	[[gnu::noinline]] static void to(int n) {
		auto& a = S->ts[(size_t) S->cur];
		auto& b = S->ts[(size_t) n];
		bool done = a.done;
		++stats.switches;
		int e = errno;
		a.ctx.take();
		b.ctx.put();
		S->cur = n;
		sem_post(&b.go);
		if (!done)
			while (sem_wait(&a.go) != 0) {}
		errno = e;
	}

	static int other() {
		uint64_t n = 0;
		for (size_t i = 0; i < S->ts.size(); ++i) n += !S->ts[i].done && (int) i != S->cur;
		if (n == 0) return -1;
		uint64_t k = S->s->below(n);
		for (size_t i = 0; i < S->ts.size(); ++i)
			if (!S->ts[i].done && (int) i != S->cur && k-- == 0) return (int) i;
		return -1;
	}

	[[gnu::noinline]] static void sw() {
		++nested;
		if (S->budget) --S->budget;
		draw();
		int n = other();
		if (n >= 0) to(n);
		--nested;
	}

	static inline bool simulated() { return me >= 0 && S && !nested && !forked; }

	static inline void point() {
		if (!simulated()) return;
		++stats.points;
		++S->ts[(size_t) me].t->points;
		if (--S->left == 0) sw();
	}

	[[gnu::noinline]] static void hot_point() {
		++stats.hot;
		++nested;
		bool x = S->s->below(8) < S->hotness;
		--nested;
		if (x) sw();
	}

	static inline void access(void const* p, bool write) {
		if (!simulated()) return;
		++stats.points;
		++S->ts[(size_t) me].t->points;
		auto a = (uintptr_t) p;
		if (S->budget && S->hotness) {
			uintptr_t k = a >> 3;
			bool hot = false;
			if (is_global(a)) hot = write || stored_by(k) >= 0;
			else if (is_heap(a)) {
				int w = stored_by(k);
				hot = w >= 0 && w != me;
			} else
				for (auto& l : *libs)
					if (a >= l.first && a < l.second) hot = true;
			if (write && (is_global(a) || is_heap(a))) store(k, me);
			if (hot) return hot_point();
		}
		if (--S->left == 0) sw();
	}

	static void edge() { point(); }

	/// The thread cannot go on before another one did.
	static void wait_turn() {
		++stats.waits;
		if (++steps > step_limit) out_of_steps();
		++nested;
		int n = other();
		if (n >= 0) to(n);
		--nested;
	}

	// ------------------------------------------------------------------ threads
	static void* entry(void* p) {
		auto& t = *static_cast<T*>(p);
		while (sem_wait(&t.go) != 0) {}
		me = t.me;
		try {
			t.t->body(*t.t->sim);
		} catch (...) {
			t.t->error = std::current_exception();
		}
		nested = 1;
		t.done = true;
		int n = other();
		if (n >= 0) to(n);
		else {
			t.ctx.take();
			sem_post(&S->all_done);
		}
		me = -1;
		nested = 0;
		return nullptr;
	}

	static void logger(zenkit::LogLevel l, char const* name, char const* msg) {
		auto* t = S && me >= 0 ? S->ts[(size_t) me].t : nullptr;
		if (!t) return;
		++nested;
		Ctx c; // (what the simulation allocates is not limited)
		c.take();
		alloc_fail_at = 0, alloc_cap = UINT64_MAX;
		if (t->log.size() < 300) t->log.push_back(std::to_string((int) l) + " " + name + ": " + msg);
		c.put();
		--nested;
	}

	bool own_logger = false;

	static int lib_cb(dl_phdr_info* i, size_t, void*) {
		if (!i->dlpi_name || !*i->dlpi_name) return 0;
		uintptr_t ro0 = 0, ro1 = 0;
		for (int k = 0; k < i->dlpi_phnum; ++k)
			if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) ro0 = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, ro1 = ro0 + i->dlpi_phdr[k].p_memsz;
		for (int k = 0; k < i->dlpi_phnum; ++k) {
			auto& h = i->dlpi_phdr[k];
			if (h.p_type != PT_LOAD || !(h.p_flags & PF_W)) continue;
			uintptr_t a = i->dlpi_addr + h.p_vaddr, b = a + h.p_memsz;
			if (ro0 <= a && ro1 > a) a = std::min(b, ro1);
			if (a < b) libs->push_back({a, b});
		}
		return 0;
	}

	static void set_up(Thread& t) {
		static bool once = false;
		if (!once) {
			once = true;
			scratch_dir();
			use_arena();
			pthread_atfork(nullptr, nullptr, [] { forked = S != nullptr; });
			on_edge_hook(edge);
			table = (Table*) mmap(nullptr, sizeof(Table), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			libs = new std::vector<std::pair<uintptr_t, uintptr_t>>();
			pending = new std::vector<void*>();
			dl_iterate_phdr(lib_cb, nullptr);
			if (!own_logger) zenkit::Logger::set(zenkit::LogLevel::TRACE, logger);
		}
		t.sim = std::make_unique<Sim>();
		t.sim->begin_random(t.seed);
		t.error = nullptr;
		t.log.clear();
		t.points = 0;
	}

	static char* stack_of(size_t k) {
		static constexpr uintptr_t base = 0x300000000000;
		static constexpr size_t each = 128u << 20;
		static bool have[32];
		auto* p = (void*) (base + k * 2 * each);
		if (!have[k]) {
			have[k] = true;
			if (mmap(p, each, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != p) _exit(3);
		}
		return (char*) p;
	}

	static void go(Sched& sc, Thread* t, size_t n, int first_id) {
		sc.ts.resize(n);
		Ctx main;
		main.take();
		sem_init(&sc.all_done, 0, 0);
		for (size_t i = 0; i < n; ++i) {
			auto& x = sc.ts[i];
			x.t = &t[i];
			x.ctx = main;
			x.ctx.sim = t[i].sim.get();
			x.ctx.steps = 0;
			x.ctx.step_limit = harness.step_budget;
			x.ctx.alloc_count = x.ctx.live_blocks = 0;
			x.ctx.id = first_id + (int) i;
			x.me = (int) i;
			sem_init(&x.go, 0, 0);
			pthread_attr_t at;
			pthread_attr_init(&at);
			pthread_attr_setstack(&at, stack_of((size_t) x.ctx.id), 128u << 20);
			if (pthread_create(&x.th, &at, entry, &x) != 0) _exit(3);
			pthread_attr_destroy(&at);
		}
		S = &sc;
		sc.ts[(size_t) sc.cur].ctx.put();
		sem_post(&sc.ts[(size_t) sc.cur].go);
		while (sem_wait(&sc.all_done) != 0) {}
		for (auto& x : sc.ts) {
			pthread_join(x.th, nullptr);
			sem_destroy(&x.go);
			main.steps += x.ctx.steps;
			main.live_blocks += x.ctx.live_blocks;
		}
		sem_destroy(&sc.all_done);
		S = nullptr;
		main.step_limit = UINT64_MAX;
		main.put();
	}

	void run(Sim& s, std::vector<Thread>& t) {
		Sched sc;
		sc.s = &s;
		static uint64_t const scales[] = {20'000, 2000, 200, 20, 3};
		static uint64_t const budgets[] = {10, 100, 1000, 5000};
		sc.scale = scales[s.below(5)];
		sc.budget = budgets[s.below(4)];
		sc.hotness = (unsigned) s.below(5);
		stats = {};
		for (auto& x : t) set_up(x);
		S = &sc;
		draw();
		S = nullptr;
		if (s.coin()) sc.left += s.below(100'000);
		sc.cur = (int) s.below(t.size());
		go(sc, t.data(), t.size(), 0);
	}

	void alone(Thread& t, int id) {
		set_up(t);
		Sim none;
		none.begin_replay(nullptr, 0);
		Sched sc;
		sc.s = &none;
		sc.left = UINT64_MAX;
		sc.cur = 0;
		auto keep = stats;
		go(sc, &t, 1, id);
		stats = keep;
	}
} // namespace sim::sched

// ---------------------------------------------------------------------- points
using namespace sim::sched;
#define NOSAN __attribute__((no_sanitize("address", "coverage")))
extern "C" {
NOSAN void __sanitizer_cov_load1(uint8_t* p) { sim::sched::access(p, false); }
NOSAN void __sanitizer_cov_load2(uint16_t* p) { sim::sched::access(p, false); }
NOSAN void __sanitizer_cov_load4(uint32_t* p) { sim::sched::access(p, false); }
NOSAN void __sanitizer_cov_load8(uint64_t* p) { sim::sched::access(p, false); }
NOSAN void __sanitizer_cov_load16(__uint128_t* p) { sim::sched::access(p, false); }
NOSAN void __sanitizer_cov_store1(uint8_t* p) { sim::sched::access(p, true); }
NOSAN void __sanitizer_cov_store2(uint16_t* p) { sim::sched::access(p, true); }
NOSAN void __sanitizer_cov_store4(uint32_t* p) { sim::sched::access(p, true); }
NOSAN void __sanitizer_cov_store8(uint64_t* p) { sim::sched::access(p, true); }
NOSAN void __sanitizer_cov_store16(__uint128_t* p) { sim::sched::access(p, true); }

// ---------------------------------------------------------------------- locks: waiting is left to the scheduler
#define REAL(ret, name, ...)                                                                                                               \
	static ret (*real)(__VA_ARGS__) = nullptr;                                                                                             \
	if (!real) real = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, #name)
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
	REAL(int, pthread_mutex_lock, pthread_mutex_t*);
	if (!simulated()) return real(m);
	for (;;) {
		int r = pthread_mutex_trylock(m);
		if (r != EBUSY) return r;
		wait_turn();
	}
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
	REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
	if (!simulated()) return real(m);
	for (;;) {
		int r = pthread_rwlock_tryrdlock(m);
		if (r != EBUSY) return r;
		wait_turn();
	}
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
	REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
	if (!simulated()) return real(m);
	for (;;) {
		int r = pthread_rwlock_trywrlock(m);
		if (r != EBUSY) return r;
		wait_turn();
	}
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
	REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
	if (!simulated()) return real(c, m);
	pthread_mutex_unlock(m); // (a spurious wake-up: the caller checks its condition again)
	wait_turn();
	return pthread_mutex_lock(m);
}
// (a stream that is locked must not be used by another thread, which would wait inside of the C library)
void flockfile(FILE* f) noexcept {
	REAL(void, flockfile, FILE*);
	real(f);
	if (S && me >= 0) ++nested;
}
void funlockfile(FILE* f) noexcept {
	REAL(void, funlockfile, FILE*);
	real(f);
	if (S && me >= 0 && nested > 0) --nested;
}
// C library functions with state shared by all threads: control may pass to another thread right after the call
static void shared_state() {
	if (simulated() && S->budget) hot_point();
}
char* strtok(char* s, char const* d) noexcept {
	REAL(char*, strtok, char*, char const*);
	auto* r = real(s, d);
	shared_state();
	return r;
}
#define TIME_FN(name, ret, arg)                                                                                                            \
	ret* name(arg const* t) noexcept {                                                                                                     \
		REAL(ret*, name, arg const*);                                                                                                      \
		auto* r = real(t);                                                                                                                 \
		shared_state();                                                                                                                    \
		return r;                                                                                                                          \
	}
TIME_FN(localtime, struct tm, time_t)
TIME_FN(gmtime, struct tm, time_t)
TIME_FN(ctime, char, time_t)
TIME_FN(asctime, char, struct tm)
int rand() noexcept {
	REAL(int, rand, );
	auto r = real();
	shared_state();
	return r;
}
static bool is_pending(void* g) { return std::find(pending->begin(), pending->end(), g) != pending->end(); }
static void not_pending(void* g) {
	++nested;
	auto it = std::find(pending->begin(), pending->end(), g);
	if (it != pending->end()) pending->erase(it);
	--nested;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
	REAL(int, pthread_once, pthread_once_t*, void (*)());
	if (!simulated()) return real(o, f);
	while (is_pending(o)) wait_turn();
	pending->push_back(o);
	struct Rm {
		void* o;
		~Rm() { not_pending(o); }
	} rm {o};
	return real(o, f);
}
int __cxa_guard_acquire(long long* g) {
	REAL(int, __cxa_guard_acquire, long long*);
	if (!simulated()) return real(g);
	while (is_pending(g)) wait_turn();
	int r = real(g);
	if (r) pending->push_back(g);
	return r;
}
void __cxa_guard_release(long long* g) noexcept {
	REAL(void, __cxa_guard_release, long long*);
	real(g);
	if (simulated()) not_pending(g);
}
void __cxa_guard_abort(long long* g) noexcept {
	REAL(void, __cxa_guard_abort, long long*);
	real(g);
	if (simulated()) not_pending(g);
}
}
