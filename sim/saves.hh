// A model of save-game slots on disk and of the SaveGame objects using them.
#pragma once
#include "seam.hh"
#include "world.hh"
#include <filesystem>
#include <fstream>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>
#include <zenkit/SaveGame.hh>

namespace sim {
	namespace fs = std::filesystem;
	using Tree = std::map<std::string, std::string>; // relative path -> content
	inline Tree read_tree(std::string const& dir) {
		Tree t;
		std::error_code ec;
		if (!fs::is_directory(dir, ec)) return t;
		t["."] = "";
		for (auto& e : fs::recursive_directory_iterator(dir)) {
			auto rel = fs::relative(e.path(), dir).string();
			if (e.is_directory()) {
				t[rel + "/"] = "";
				continue;
			}
			std::ifstream in(e.path(), std::ios::binary);
			t[rel] = std::string(std::istreambuf_iterator<char>(in), {});
		}
		return t;
	}

	/// A world together with everything it refers to.
	struct WorldRef {
		z::World w;
		std::unique_ptr<ObjGen> g; // keeps weakly referenced objects
		ObjCfg c;
		~WorldRef() { cut_world(w); }
	};
	struct Slot {
		std::string dir;
		bool exists = false, broken = false, v2 = true;
		z::SaveMetadata meta {};
		z::SaveState state {};
		std::optional<z::Texture> thumb;
		std::string header;
		std::map<std::string, std::shared_ptr<WorldRef>> worlds;
		std::map<std::string, std::string> extra; // foreign files
	};
	struct Game {
		std::unique_ptr<z::SaveGame> g;
		bool v2 = true;
		int cur = -1;               // the slot it was loaded from or saved to
		bool stale = false;         // that slot has been changed by others
		z::SaveMetadata meta {};
		z::SaveState state {};
		std::optional<z::Texture> thumb;
		bool lossy = false; // holds data that went through a Gothic I state file
	};

	struct Saves {
		Sim& s;
		std::vector<Slot> slots;
		std::vector<Game> games;
		std::string root;
		explicit Saves(Sim& s) : s(s) {
			quiet_log();
			z::VirtualObject::enable_packed_save(true);
			alloc_cap = 256ull << 20;
			root = scratch_dir() + "/saves";
			mkdir(scratch_dir().c_str(), 0700);
			mkdir(root.c_str(), 0700);
			wipe_dir(root);
			bool v2 = s.coin();
			slots.resize(2 + s.below(2));
			for (size_t i = 0; i < slots.size(); ++i) {
				slots[i].dir = root + "/slot" + std::to_string(i);
				slots[i].v2 = v2;
			}
			games.resize(1 + s.below(2));
			for (auto& g : games) {
				g.v2 = v2;
				g.g = std::make_unique<z::SaveGame>(v2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1);
				fresh(g);
			}
		}
		~Saves() {
			if (last_loaded) cut_world(*last_loaded);
			for (auto& g : games) g.g.reset();
			wipe_dir(root);
		}
		ObjCfg ascii(bool v2) const {
			ObjCfg c;
			c.fmt = z::ArchiveFormat::ASCII;
			c.g2 = v2;
			c.save = true;
			return c;
		}
		/// New data in memory.
		void fresh(Game& g) {
			ObjGen gen(s, ascii(g.v2));
			gen.budget = 4;
			visit(gen, g.meta, g.meta);
			g.meta.world = world_name();
			gen_state(s, g.state, gen);
			g.thumb.reset();
			if (s.below(3)) g.thumb = gen_texture(s);
			g.g->metadata = g.meta;
			g.g->state = g.state;
			g.g->thumbnail = g.thumb;
			s.event("game %ld gets new data%s", &g - games.data(), g.thumb ? " with thumbnail" : "");
		}
		std::string world_name() {
			static char const* const n[] = {"WORLD", "OLDMINE", "FREEMINE", "NEWWORLD", "NEW.WORLD", "ADD ON.V2"};
			return n[s.below(6)];
		}
		std::shared_ptr<WorldRef> new_world(bool v2) {
			auto r = std::make_shared<WorldRef>();
			r->c.fmt = z::ArchiveFormat::BINARY;
			r->c.g2 = v2;
			r->c.save = true;
			r->g = std::make_unique<ObjGen>(s, r->c);
			r->g->budget = 1 + s.below(8);
			gen_world(s, r->w, *r->g, false, v2);
			return r;
		}
		/// Another spelling of a slot's path.
		std::string spell(size_t i, bool links) {
			auto& d = slots[i].dir;
			switch (s.below(8)) {
			case 1: return d + "/";
			case 2: return root + "/./slot" + std::to_string(i);
			case 3: return root + "//slot" + std::to_string(i);
			case 4: {
				auto link = root + "/link" + std::to_string(i);
				if (slots[i].exists && links) {
					if (access(link.c_str(), F_OK) != 0) {
						unlink(link.c_str());
						if (symlink(d.c_str(), link.c_str()) != 0) return d;
					}
					return link;
				}
				return d;
			}
			case 5: return root + "/../saves/slot" + std::to_string(i);
			default: return d;
			}
		}
		void same_memory(Game& g, char const* when) {
			ObjCfg c = ascii(true); // everything is compared
			c.fmt = z::ArchiveFormat::BINARY;
			ObjCmp k(s, c);
			k.where = {when, "metadata"};
			visit(k, g.meta, g.g->metadata);
			cmp_state(s, k, g.state, g.g->state);
			s.check(g.thumb.has_value() == g.g->thumbnail.has_value(), "memory", "%s: the thumbnail in memory changed", when);
			if (g.thumb) cmp_texture(s, when, *g.thumb, *g.g->thumbnail);
		}
		/// What a slot holds has to be what the model says.
		void same_loaded(z::SaveGame& g, Slot& t, char const* when) {
			ObjCmp k(s, ascii(t.v2));
			k.where = {when, "metadata"};
			visit(k, t.meta, g.metadata);
			cmp_state(s, k, t.state, g.state);
			s.check(t.thumb.has_value() == g.thumbnail.has_value(), "thumbnail", "%s: %s", when, t.thumb ? "the thumbnail is missing" : "there is a thumbnail although none was saved");
			if (t.thumb) cmp_texture(s, when, *t.thumb, *g.thumbnail);
		}
		void same_world(z::SaveGame& g, Slot& t, std::string const& name, char const* when, bool via_meta = false) {
			std::shared_ptr<z::World> w;
			try {
				switch (via_meta ? 3 : name.find('.') != name.npos ? 1 + s.below(2) : s.below(3)) { // (what follows the last dot is replaced)
				case 0: w = g.load_world(name); break;
				case 1: w = g.load_world(name + ".ZEN"); break;
				case 2: w = g.load_world(name + ".zen"); break;
				default: w = g.load_world(); break;
				}
			} catch (std::exception const& e) {
				s.fail("load-world", "%s: world %s cannot be loaded: %s", when, name.c_str(), e.what());
			}
			auto it = t.worlds.find(name);
			if (it == t.worlds.end()) {
				s.check(w == nullptr, "phantom-world", "%s: world %s was never saved but can be loaded", when, name.c_str());
				return;
			}
			s.check(w != nullptr, "lost-world", "%s: world %s is missing", when, name.c_str());
			ObjCmp k(s, it->second->c);
			k.weak_may_expire = true;
			cmp_world(s, k, it->second->w, *w);
			s.mix(k.compared);
			if (s.coin()) {
				if (last_loaded) cut_world(*last_loaded);
				last_loaded = w;
				last_ref = it->second;
			} else cut_world(*w);
		}
		std::shared_ptr<z::World> last_loaded;
		std::shared_ptr<WorldRef> last_ref;
		/// Loads a slot with a new object and compares everything.
		void verify(size_t i, char const* when) {
			auto& t = slots[i];
			if (!t.exists) {
				s.check(access(t.dir.c_str(), F_OK) != 0, "phantom-slot", "%s: slot %zu was never saved but exists", when, i);
				return;
			}
			if (t.broken) return;
			z::SaveGame g(t.v2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1);
			try {
				g.load(t.dir);
			} catch (std::exception const& e) {
				s.fail("load", "%s: slot %zu cannot be loaded: %s", when, i, e.what());
			}
			same_loaded(g, t, when);
			for (auto* n : {"WORLD", "OLDMINE", "FREEMINE", "NEWWORLD", "NEW.WORLD", "ADD ON.V2"}) {
				same_world(g, t, n, when);
			}
			for (auto& [n, c] : t.extra) {
				std::ifstream in(t.dir + "/" + n, std::ios::binary);
				std::string got(std::istreambuf_iterator<char>(in), {});
				s.check(got == c, "extra-file", "%s: file %s of slot %zu is lost or changed", when, n.c_str(), i);
			}
			std::ifstream in(t.dir + "/SAVEHDR.SAV", std::ios::binary);
			std::string got(std::istreambuf_iterator<char>(in), {});
			s.check(got == t.header, "header", "%s: SAVEHDR.SAV of slot %zu holds '%s', expected '%s'", when, i, got.c_str(), t.header.c_str());
		}
		/// The slot as it has to be after saving.
		Slot expected(Game& g, size_t i, std::string const& name, std::shared_ptr<WorldRef> w) {
			Slot n;
			n.dir = slots[i].dir;
			n.v2 = g.v2;
			n.exists = true;
			if (g.cur >= 0 && slots[g.cur].exists) {
				n.worlds = slots[g.cur].worlds;
				n.extra = slots[g.cur].extra;
			} else if (g.cur == (int) i) {
				n.worlds.clear();
			}
			n.meta = g.meta;
			n.state = g.state;
			n.thumb = g.thumb;
			n.worlds[name] = w;
			n.header = name + ".ZEN\n";
			return n;
		}
	};
} // namespace sim
