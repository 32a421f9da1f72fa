// P08: histories of loading, saving and switching save-game slots refine a simple model of slots.
#include "saves.hh"

using namespace sim;

static void op_save(Sim& s, Saves& sv, Game& g) {
	size_t i = s.below(sv.slots.size());
	auto name = s.below(3) ? g.meta.world : sv.world_name();
	auto path = sv.spell(i, g.cur == (int) i);
	auto w = sv.new_world(g.v2);
	// Sometimes the saved world is one that was loaded before (it is compared with what it was loaded from).
	z::World* use = &w->w;
	std::shared_ptr<z::World> keep;
	if (sv.last_loaded && s.coin()) {
		keep = sv.last_loaded;
		use = keep.get();
		w = sv.last_ref;
		s.reach("saved a loaded world again");
	}
	s.event("game %ld: save %s to slot %zu as '%s'%s", &g - sv.games.data(), name.c_str(), i, path.c_str() + sv.root.size(), g.cur < 0 ? "" : g.cur == (int) i ? " (current)" : " (from another)");
	if (g.cur >= 0 && g.cur != (int) i && sv.slots[i].exists) s.reach("overwrote another slot");
	if (g.cur == (int) i) s.reach("saved to the current slot");
	auto want = sv.expected(g, i, name, w);
	try {
		g.g->save(path, *use, name);
	} catch (std::exception const& e) {
		s.fail("save", "saving failed without any fault: %s", e.what());
	}
	if (g.cur == (int) i && !sv.slots[i].exists) want.extra.clear(), want.worlds = {{name, w}};
	sv.slots[i] = want;
	g.cur = (int) i;
	sv.same_memory(g, "after saving");
}

static void op_load(Sim& s, Saves& sv, Game& g) {
	size_t i = s.below(sv.slots.size());
	auto& t = sv.slots[i];
	auto path = sv.spell(i, true);
	s.event("game %ld: load slot %zu as '%s'%s", &g - sv.games.data(), i, path.c_str() + sv.root.size(), !t.exists ? " (missing)" : t.broken ? " (broken)" : "");
	bool ok = false;
	try {
		g.g->load(path);
		ok = true;
	} catch (std::exception const& e) {
		s.event("refused");
	}
	if (t.exists && !t.broken) {
		s.check(ok, "load", "slot %zu cannot be loaded", i);
		sv.same_loaded(*g.g, t, "load");
		g.meta = g.g->metadata;
		g.state = g.g->state;
		g.thumb = g.g->thumbnail;
		g.cur = (int) i;
		return;
	}
	s.check(!ok, "load-broken", "loading a %s slot succeeded", t.exists ? "broken" : "missing");
	sv.same_memory(g, "after a failed load");
	s.reach("failed load left the game as it was");
}

static void op_break(Sim& s, Saves& sv, size_t i) {
	auto& t = sv.slots[i];
	if (!t.exists) return;
	switch (s.below(3)) {
	case 0:
		s.event("slot %zu is deleted", i);
		s.fault("slot-deleted");
		fs::remove_all(t.dir);
		t = Slot {t.dir, false, false, t.v2};
		break;
	case 1: {
		char const* f = s.coin() ? "SAVEDAT.SAV" : "SAVEINFO.SAV";
		s.event("slot %zu loses %s", i, f);
		s.fault("file-lost");
		fs::remove(t.dir + "/" + f);
		fs::remove(t.dir + "/" + (f[4] == 'D' ? "SaveDat.sav" : "saveinfo.sav"));
		t.broken = true;
		break;
	}
	default: {
		auto p = t.dir + "/SAVEDAT.SAV";
		if (!fs::exists(p)) return;
		auto n = fs::file_size(p);
		auto k = s.below(n);
		// everything is needed but the last line break
		if (k + 2 >= n) k = n / 2;
		s.event("SAVEDAT.SAV of slot %zu is cut to %lu bytes", i, (unsigned long) k);
		s.fault("file-truncated");
		fs::resize_file(p, k);
		t.broken = true;
		break;
	}
	}
}

static void run(Sim& s) {
	Saves sv(s);
	size_t n = 2 + s.below(10);
	size_t saves = 0;
	for (size_t k = 0; k < n; ++k) {
		s.clock += (int64_t) s.below(100000);
		auto& g = sv.games[s.below(sv.games.size())];
		switch (s.below(9)) {
		case 0:
		case 1:
		case 2:
			op_save(s, sv, g);
			++saves;
			break;
		case 3:
		case 4: op_load(s, sv, g); break;
		case 5: sv.fresh(g); break;
		case 6: {
			if (g.cur < 0) {
				s.check(g.g->load_world("WORLD") == nullptr, "phantom-world", "a new save-game has a world");
				break;
			}
			auto& t = sv.slots[g.cur];
			bool m = s.below(3) == 0;
			auto nm = m ? g.meta.world : sv.world_name();
			s.event("game %ld: load world %s", &g - sv.games.data(), nm.c_str());
			sv.same_world(*g.g, t, nm, "load_world", m);
			break;
		}
		case 7: {
			size_t i = s.below(sv.slots.size());
			auto& t = sv.slots[i];
			if (!t.exists || t.broken) break;
			if (s.coin()) {
				// files the library does not know are carried along
				auto nm = s.coin() ? "NOTE.TXT" : "sub/NOTE.TXT";
				auto c = "note" + std::to_string(s.below(1000));
				fs::create_directories(t.dir + "/sub");
				std::ofstream(t.dir + "/" + nm) << c;
				t.extra[nm] = c;
				s.event("slot %zu gets a foreign file", i);
			} else {
				char const* from[] = {"SAVEINFO.SAV", "SAVEDAT.SAV", "THUMB.SAV"};
				char const* to[] = {"saveinfo.sav", "SaveDat.sav", "thumb.SAV"};
				auto j = s.below(3);
				if (fs::exists(t.dir + "/" + from[j])) {
					fs::rename(t.dir + "/" + from[j], t.dir + "/" + to[j]);
					s.event("slot %zu: %s is renamed to %s", i, from[j], to[j]);
				}
			}
			break;
		}
		default:
			if (s.below(3) == 0) op_break(s, sv, s.below(sv.slots.size()));
			else sv.verify(s.below(sv.slots.size()), "check");
			break;
		}
	}
	for (size_t i = 0; i < sv.slots.size(); ++i) sv.verify(i, "at the end");
	if (saves > 1) s.nontrivial();
}

#ifndef SIM_AS_LIBRARY
Harness sim::harness {
    .property = "P08",
    .run = run,
    .rule = "distinct history hashes of runs with at least two saves",
    .components = "real: src/SaveGame.cc, src/World.cc, src/vobs/*.cc, src/Texture.cc, src/Archive.cc, src/archive/*.cc, src/Stream.cc, std::filesystem on a scratch directory; simulated: wall clock",
    .quick_runs = 400000,
    .thorough_runs = 2000000,
    .quick_secs = 90,
    .thorough_secs = 600,
    .step_budget = 200'000'000,
};
#endif
