// P07: object graphs saved to an archive are loaded as equal graphs: every class, game version, archive format, packed or
// not, save-game or not, with sharing and back references.
#include "endpoints.hh"
#include "objects.hh"
#include "seam.hh"
#include <deque>
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>

using namespace sim;

static char const* const FN[] = {"BINARY", "BIN_SAFE", "ASCII"};
static z::ArchiveFormat const FV[] = {z::ArchiveFormat::BINARY, z::ArchiveFormat::BINSAFE, z::ArchiveFormat::ASCII};

static std::shared_ptr<z::Object> root(Sim& s, ObjGen& g) {
	if (s.below(3)) return g.vob();
	static constexpr int N = 0
#define X(T) +1
	    SIM_OTHER_TYPES(X)
#undef X
	    ;
	int k = (int) s.below(N), j = 0;
#define X(T)                                                                                                                               \
	if (k == j++) return g.fresh<z::T>();
	SIM_OTHER_TYPES(X)
#undef X
	return nullptr;
}

struct Doc {
	ObjCfg c;
	std::unique_ptr<ObjGen> g;
	std::vector<std::shared_ptr<z::Object>> roots;
	std::unique_ptr<Sink> sink;
	std::unique_ptr<z::WriteArchive> w;
	size_t at = 0;
	std::vector<std::byte> data;
};

/// A setting of the whole process.
static bool set_pack(bool v) {
	if (thread_id < 0) z::VirtualObject::enable_packed_save(v);
	return v || thread_id >= 0;
}

static std::vector<std::byte> save_all(Sim& s, ObjCfg c, std::vector<std::shared_ptr<z::Object>> const& roots) {
	set_pack(c.pack);
	Sink sink(s);
	{
		auto w = c.save ? z::WriteArchive::to_save(sink.get(), c.fmt) : z::WriteArchive::to(sink.get(), c.fmt);
		for (auto& r : roots) w->write_object(r, c.g2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1);
		w->write_header();
	}
	return sink.finish();
}

static void load_compare(Sim& s, Doc& d, std::vector<std::byte> const& data, ObjCfg out, bool again) {
	Source src(s, data);
	std::unique_ptr<z::ReadArchive> r;
	std::vector<std::shared_ptr<z::Object>> got;
	auto ver = d.c.g2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1;
	try {
		r = z::ReadArchive::from(src.get());
		for (size_t i = 0; i < d.roots.size(); ++i) got.push_back(r->read_object(ver));
	} catch (std::exception const& e) {
		s.fail("load-failed", "object %zu of %zu cannot be loaded back: %s", got.size(), d.roots.size(), e.what());
	}
	ObjCmp cmp(s, out);
	for (size_t i = 0; i < got.size(); ++i) {
		cmp.where = {"root" + std::to_string(i) + "(class " + std::to_string((int) d.roots[i]->get_object_type()) + ")"};
		cmp.obj("self", d.roots[i].get(), got[i].get());
	}
	s.mix(cmp.compared);
	if (cmp.compared > 3) s.nontrivial();
	if (again) {
		// what was loaded can be saved in any other form and is still the same
		ObjCfg c2 = d.c;
		c2.fmt = FV[s.below(3)];
		c2.pack = s.coin() || thread_id >= 0;
		if (s.below(3) == 0) c2.save = false;
		if (c2.save) c2.pack = d.c.pack; // (the event manager and physics state exist only in packed save-games)
		ObjCfg cc = c2;
		cc.save = d.c.save && c2.save;
		cc.pack = d.c.pack && c2.pack;
		if (d.c.fmt == z::ArchiveFormat::ASCII) cc.fmt = z::ArchiveFormat::ASCII; // digits are lost already
		s.event("save the loaded objects again as %s%s%s", FN[c2.fmt == FV[0] ? 0 : c2.fmt == FV[1] ? 1 : 2], c2.save ? " save-game" : "", c2.pack ? " packed" : "");
		auto data2 = save_all(s, c2, got);
		if (c2.save && !d.c.save) return;
		if (c2.pack || !c2.save || !d.c.pack) load_compare(s, d, data2, cc, false);
	}
}

/// Storage whose addresses are used again at once, as allocators do.
struct Pool {
	std::vector<std::unique_ptr<char[]>> all;
	std::vector<char*> free;
	size_t size;
	char* get() {
		if (free.empty()) {
			all.push_back(std::make_unique<char[]>(size));
			return all.back().get();
		}
		auto* p = free.back();
		free.pop_back();
		return p;
	}
};

/// Objects that live only while they are written: the archive still has each of them, and each as itself.
template <typename T>
static void temporaries(Sim& s, Doc& d) {
	static_assert(std::is_copy_constructible_v<T>);
	size_t n = 2 + s.below(5);
	s.event("%zu temporary objects (class %d), %s", n, (int) T::TYPE, FN[d.c.fmt == FV[0] ? 0 : d.c.fmt == FV[1] ? 1 : 2]);
	Pool pool {{}, {}, sizeof(T)};
	auto ver = d.c.g2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1;
	set_pack(d.c.pack);
	Sink sink(s);
	{
		auto w = d.c.save ? z::WriteArchive::to_save(sink.get(), d.c.fmt) : z::WriteArchive::to(sink.get(), d.c.fmt);
		for (size_t i = 0; i < n; ++i) {
			if (i && s.below(4) == 0) d.roots.push_back(d.roots[s.below(i)]);
			else d.roots.push_back(d.g->fresh<T>());
			auto* mem = pool.get();
			std::shared_ptr<T> tmp(new (mem) T(*static_cast<T*>(d.roots.back().get())), [&pool](T* p) {
				p->~T();
				pool.free.push_back(reinterpret_cast<char*>(p));
			});
			w->write_object("%", tmp, ver);
		}
		w->write_header();
	}
	s.reach("temporary-objects");
	auto data = sink.finish();
	Source src(s, data);
	auto r = z::ReadArchive::from(src.get());
	for (size_t i = 0; i < n; ++i) {
		std::shared_ptr<z::Object> got;
		try {
			got = r->read_object(ver);
		} catch (std::exception const& e) {
			s.fail("load-failed", "temporary object %zu cannot be loaded back: %s", i, e.what());
		}
		ObjCmp cmp(s, d.c);
		cmp.weak_may_expire = true;
		cmp.where = {"temporary" + std::to_string(i)};
		cmp.obj("self", d.roots[i].get(), got.get());
	}
	set_pack(true);
}

static void run(Sim& s) {
	quiet_log();
	alloc_cap = 256ull << 20;
	if (s.below(12) == 11) {
		Doc d;
		d.c.fmt = FV[s.below(3)];
		d.c.g2 = s.coin();
		d.c.save = s.coin();
		d.c.pack = s.coin() || thread_id >= 0;
		d.g = std::make_unique<ObjGen>(s, d.c);
		d.g->budget = 1;
		switch (s.below(4)) {
		case 0: temporaries<z::VItem>(s, d); break;
		case 1: temporaries<z::VisualDecal>(s, d); break;
		case 2: temporaries<z::VTriggerList>(s, d); break;
		default: temporaries<z::VSound>(s, d); break;
		}
		return;
	}
	std::deque<Doc> docs(1 + s.below(2));
	bool pack = s.below(4) != 0 || thread_id >= 0;
	for (auto& d : docs) {
		d.c.fmt = FV[s.below(3)];
		d.c.g2 = s.coin();
		d.c.save = s.coin();
		d.c.pack = pack;
		d.g = std::make_unique<ObjGen>(s, d.c);
		d.g->budget = 1 + s.below(12);
		size_t n = 1 + s.below(4);
		for (size_t i = 0; i < n; ++i) {
			if (i && s.below(5) == 0) d.roots.push_back(d.g->all[s.below(d.g->all.size())]);
			else d.roots.push_back(root(s, *d.g));
		}
	}
	set_pack(pack);
	std::vector<size_t> open;
	for (size_t i = 0; i < docs.size(); ++i) open.push_back(i);
	while (!open.empty()) {
		size_t k = s.below(open.size());
		auto& d = docs[open[k]];
		if (!d.w) {
			d.sink = std::make_unique<Sink>(s);
			d.w = d.c.save ? z::WriteArchive::to_save(d.sink->get(), d.c.fmt) : z::WriteArchive::to(d.sink->get(), d.c.fmt);
			s.event("doc %zu: %s %s%s%s, %zu roots, %zu objects", open[k], FN[d.c.fmt == FV[0] ? 0 : d.c.fmt == FV[1] ? 1 : 2], d.c.g2 ? "G2" : "G1", d.c.save ? " save-game" : "", d.c.pack ? " packed" : "", d.roots.size(), d.g->all.size());
		}
		if (d.at < d.roots.size()) {
			d.w->write_object("%", d.roots[d.at], d.c.g2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1);
			++d.at;
		} else {
			d.w->write_header();
			d.w.reset();
			d.data = d.sink->finish();
			s.mix(d.data.size());
			open.erase(open.begin() + (long) k);
		}
	}
	for (auto& d : docs) {
		load_compare(s, d, d.data, d.c, s.below(3) == 0);
	}
	set_pack(true);
}

#ifndef SIM_AS_LIBRARY
Harness sim::harness {
    .property = "P07",
    .run = run,
    .rule = "distinct history hashes of runs that compared more than three loaded objects",
    .components = "real: src/vobs/*.cc, src/world/WayNet.cc, src/Material.cc, src/CutsceneLibrary.cc, src/Archive.cc, src/archive/*.cc, src/Stream.cc; simulated: wall clock, stream storage (chunked transfers)",
    .quick_runs = 300000,
    .thorough_runs = 5000000,
    .quick_secs = 75,
    .thorough_secs = 600,
    .step_budget = 100'000'000,
};
#endif
