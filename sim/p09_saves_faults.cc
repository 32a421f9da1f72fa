// P09: a save or load of a save-game that meets I/O faults reports them, leaves every other slot alone and can be repeated;
// the same for a process that dies at any point of a save.
#include "saves.hh"

using namespace sim;

static Sim* S;
static int64_t fail_in = -1;   // countdown of faultable calls
static int kind = 0;           // 0 one error, 1 errors from here on (disk full), 2 crash: everything from here on is refused
static int err = 0;
static size_t torn = 0;        // how much of the write in flight still reaches the disk
static uint64_t fired = 0, seen = 0, short_every = 0;
static bool reading = false;

static FsAct hook(FsCall const& c) {
	FsAct a;
	bool mut = c.op == FsOp::WRITE || c.op == FsOp::MKDIR || c.op == FsOp::UNLINK || c.op == FsOp::RENAME || c.op == FsOp::COPY || c.op == FsOp::TRUNCATE || (c.op == FsOp::OPEN && c.writable);
	bool in = (c.op == FsOp::OPEN && !c.writable) || c.op == FsOp::READ || c.op == FsOp::MMAP || c.op == FsOp::FSTAT;
	if (!(reading ? in : mut)) return a;
	++seen;
	if (fail_in > 0) {
		--fail_in;
		if (short_every && (c.op == FsOp::WRITE || c.op == FsOp::COPY || c.op == FsOp::READ) && seen % short_every == 0 && c.len > 1) {
			a.limit = 1 + c.len / 2;
			S->fault("short-transfer");
		}
		return a;
	}
	if (fail_in < 0) return a;
	if (kind == 0) fail_in = -1;
	++fired;
	if (fired == 1 && torn && (c.op == FsOp::WRITE || c.op == FsOp::COPY) && torn < c.len) {
		a.limit = torn; // partly stored, the rest fails
		if (kind == 0) fail_in = 0, kind = 3;
		return a;
	}
	if (kind == 3) fail_in = -1;
	a.err = err;
	static char const* const kn[] = {"io-error-", "disk-full-", "crash-", "torn-"};
	S->fault((std::string(kn[kind]) + fs_op_name(c.op)).c_str());
	return a;
}
struct Faults {
	Faults(Sim& s, bool rd) {
		S = &s;
		reading = rd;
		seen = fired = 0;
		fail_in = (int64_t) s.below(rd ? 12 : 30);
		if (!rd && s.coin()) fail_in = (int64_t) s.below(90);
		kind = rd ? (int) s.below(2) : (int) s.below(3);
		static int const e[] = {EIO, ENOSPC, EACCES, EMFILE, EROFS, EDQUOT};
		err = e[s.below(6)];
		torn = s.coin() ? s.below(200) : 0;
		short_every = s.below(3) ? 0 : 1 + s.below(3);
		fs_hook = hook;
	}
	~Faults() {
		fs_hook = nullptr;
		fail_in = -1;
	}
};

static void run(Sim& s) {
	fs_hook = nullptr;
	Saves sv(s);
	// a history without faults
	size_t n = s.below(4);
	auto save = [&](Game& g, size_t i, std::string const& name, std::shared_ptr<WorldRef> w) {
		auto want = sv.expected(g, i, name, w);
		g.g->save(sv.slots[i].dir, w->w, name);
		sv.slots[i] = want;
		g.cur = (int) i;
	};
	for (size_t k = 0; k < n; ++k) {
		auto& g = sv.games[s.below(sv.games.size())];
		size_t i = s.below(sv.slots.size());
		auto nm = sv.world_name();
		s.event("game %ld: save %s to slot %zu", &g - sv.games.data(), nm.c_str(), i);
		try {
			save(g, i, nm, sv.new_world(g.v2));
		} catch (std::exception const& e) { s.fail("save", "saving failed without any fault: %s", e.what()); }
		if (s.coin()) sv.fresh(g);
	}
	// The game in memory still belongs to the slot it was loaded from or saved to.
	auto belongs = [&](Game& g, char const* when, std::string const& except = "") {
		if (s.coin()) return;
		Slot none;
		auto& t = g.cur >= 0 ? sv.slots[g.cur] : none;
		if (g.cur >= 0 && (!t.exists || t.broken)) return;
		auto name = sv.world_name();
		if (name != except) sv.same_world(*g.g, t, name, when);
	};
	for (size_t round = 0, rounds = 1 + s.below(3); round < rounds; ++round) {
		auto& g = sv.games[s.below(sv.games.size())];
		size_t i = s.below(sv.slots.size());
		std::vector<Tree> before;
		for (auto& t : sv.slots) before.push_back(read_tree(t.dir));
		if (s.below(4) == 0) {
			// loading under faults
			bool ok = false;
			{
				Faults f(s, true);
				try {
					g.g->load(sv.slots[i].dir);
					ok = true;
				} catch (std::exception const&) {}
			}
			auto& t = sv.slots[i];
			s.event("game %ld: load slot %zu with %lu faults: %s", &g - sv.games.data(), i, (unsigned long) fired, ok ? "ok" : "refused");
			if (ok) {
				s.check(t.exists, "load", "a missing slot was loaded");
				if (!t.broken) sv.same_loaded(*g.g, t, "load under faults");
				g.meta = g.g->metadata;
				g.state = g.g->state;
				g.thumb = g.g->thumbnail;
				g.cur = (int) i;
			} else {
				s.check(!t.exists || t.broken || fired, "load", "loading failed without a fault");
				sv.same_memory(g, "after a failed load");
				belongs(g, "after a failed load");
				if (fired) s.nontrivial();
			}
			for (size_t k = 0; k < sv.slots.size(); ++k) s.check(read_tree(sv.slots[k].dir) == before[k], "load-writes", "loading changed slot %zu", k);
			continue;
		}
		auto nm = sv.world_name();
		auto w = sv.new_world(g.v2);
		bool ok = false;
		auto want = sv.expected(g, i, nm, w);
		bool crash;
		{
			Faults f(s, false);
			crash = kind == 2;
			try {
				g.g->save(sv.slots[i].dir, w->w, nm);
				ok = true;
			} catch (std::exception const&) {}
		}
		s.event("game %ld: save %s to slot %zu (current %d) with %lu faults%s: %s", &g - sv.games.data(), nm.c_str(), i, g.cur, (unsigned long) fired, crash ? ", crash" : "", ok ? "ok" : "refused");
		s.mix(fired);
		if (fired) s.nontrivial();
		s.check(ok || fired, "save", "saving failed without a fault");
		for (size_t k = 0; k < sv.slots.size(); ++k) {
			if (k == i) continue;
			s.check(read_tree(sv.slots[k].dir) == before[k], "other-slot", "saving to slot %zu changed slot %zu", i, k);
		}
		sv.same_memory(g, "after saving under faults");
		if (ok) {
			sv.slots[i] = want;
			sv.verify(i, "a save that was reported as done");
			g.cur = (int) i;
			continue;
		}
		s.reach("save failed");
		if (g.cur == (int) i) {
			// the other worlds of the slot are not written and have to stay
			auto after = read_tree(sv.slots[i].dir);
			for (auto& [f, c] : before[i])
				if (f != "SAVEINFO.SAV" && f != "SAVEDAT.SAV" && f != "SAVEHDR.SAV" && f != "THUMB.SAV" && f != nm + ".SAV")
					s.check(after.count(f) && after[f] == c, "other-world", "a failed save of %s damaged %s of the same slot", nm.c_str(), f.c_str());
		}
		sv.slots[i].broken = true;
		sv.slots[i].exists = true;
		if (crash) {
			// the process is gone; another one finds the slots
			s.reach("crashed while saving");
			g.g = std::make_unique<z::SaveGame>(g.v2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1);
			int src = -1;
			for (size_t k = 0; k < sv.slots.size(); ++k)
				if (sv.slots[k].exists && !sv.slots[k].broken && s.coin()) src = (int) k;
			g.cur = src;
			if (src >= 0) {
				try {
					g.g->load(sv.slots[src].dir);
				} catch (std::exception const& e) { s.fail("load-after-crash", "slot %d cannot be loaded after a crash: %s", src, e.what()); }
				sv.same_loaded(*g.g, sv.slots[src], "after a crash");
				g.meta = g.g->metadata;
				g.state = g.g->state;
				g.thumb = g.g->thumbnail;
			} else {
				g.g->metadata = g.meta;
				g.g->state = g.state;
				g.g->thumbnail = g.thumb;
			}
			// reading the remains must be safe, whatever it gives
			z::SaveGame x(g.v2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1);
			try {
				x.load(sv.slots[i].dir);
				auto ww = x.load_world(nm);
				if (ww) cut_world(*ww);
			} catch (std::exception const&) {}
		}
		else belongs(g, "after a failed save", g.cur == (int) i ? nm : "");
		// the same again, without faults
		bool used = false;
		for (auto& x : sv.games) used |= x.cur == (int) i;
		if (!used && s.below(4) == 0) {
			// or to another slot, and the incomplete one is given up
			size_t to = (i + 1 + s.below(sv.slots.size() - 1)) % sv.slots.size();
			s.event("game %ld: save %s to slot %zu instead", &g - sv.games.data(), nm.c_str(), to);
			auto other = sv.expected(g, to, nm, w);
			try {
				g.g->save(sv.slots[to].dir, w->w, nm);
			} catch (std::exception const& e) { s.fail("retry", "saving to another slot without faults failed: %s", e.what()); }
			sv.slots[to] = other;
			g.cur = (int) to;
			sv.verify(to, "after saving to another slot");
			wipe_dir(sv.slots[i].dir);
			rmdir(sv.slots[i].dir.c_str());
			auto dir = sv.slots[i].dir;
			auto v2 = sv.slots[i].v2;
			sv.slots[i] = Slot {.dir = dir, .v2 = v2};
			continue;
		}
		want = sv.expected(g, i, nm, w);
		try {
			g.g->save(sv.slots[i].dir, w->w, nm);
		} catch (std::exception const& e) { s.fail("retry", "saving again without faults failed: %s", e.what()); }
		sv.slots[i] = want;
		g.cur = (int) i;
		sv.verify(i, "after the retry");
	}
	for (size_t i = 0; i < sv.slots.size(); ++i) sv.verify(i, "at the end");
}

#ifndef SIM_AS_LIBRARY
Harness sim::harness {
    .property = "P09",
    .run = run,
    .rule = "distinct history hashes of runs in which at least one injected fault took effect",
    .components = "real: src/SaveGame.cc, src/World.cc, src/vobs/*.cc, src/Texture.cc, src/Archive.cc, src/archive/*.cc, src/Stream.cc, src/MmapPosix.cc, std::filesystem on a scratch directory; simulated: wall clock, failing and short file-system calls",
    .quick_runs = 200000,
    .thorough_runs = 2000000,
    .quick_secs = 90,
    .thorough_secs = 600,
    .step_budget = 200'000'000,
};
#endif
