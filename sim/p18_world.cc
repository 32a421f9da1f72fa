// P18: worlds (mesh, BSP tree, object tree, way net and save-game parts) saved and loaded again are equal.
#include "endpoints.hh"
#include "seam.hh"
#include "world.hh"
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>

using namespace sim;
static z::ArchiveFormat const FV[] = {z::ArchiveFormat::BINARY, z::ArchiveFormat::BINSAFE, z::ArchiveFormat::ASCII};
static char const* const FN[] = {"BINARY", "BIN_SAFE", "ASCII"};

/// A saved Gothic 1 mesh with wide vertex indices.
static std::vector<std::byte> widen(std::vector<std::byte> const& in) {
	std::vector<std::byte> out;
	auto put = [&](void const* p, size_t n) { out.insert(out.end(), (std::byte const*) p, (std::byte const*) p + n); };
	for (size_t at = 0; at + 6 <= in.size();) {
		uint16_t type;
		uint32_t len;
		memcpy(&type, &in[at], 2);
		memcpy(&len, &in[at + 2], 4);
		auto* p = in.data() + at + 6;
		if (type != 0xB050) put(&in[at], 6 + len);
		else {
			size_t head = out.size(), i = 4;
			put(&in[at], 6);
			put(p, 4);
			while (i < len) {
				size_t n = (size_t) p[i + 24];
				put(p + i, 25), i += 25;
				for (; n > 0; --n) {
					uint32_t v = 0;
					memcpy(&v, p + i, 2);
					put(&v, 4), put(p + i + 2, 4), i += 6;
				}
			}
			uint32_t now = (uint32_t) (out.size() - head - 6);
			memcpy(&out[head + 2], &now, 4);
		}
		at += 6 + len;
	}
	return out;
}

/// The same world with its sections in another order, as other tools write it.
static void save_shuffled(Sim& s, z::World& w, z::WriteArchive& a, z::GameVersion ver, bool xzen) {
	a.write_object_begin("%", "oCWorld:zCWorld", w.get_version_identifier(ver));
	std::vector<int> todo {0, 1, 2};
	if (s.coin()) todo.push_back(3);
	while (!todo.empty()) {
		size_t k = s.below(todo.size());
		int what = todo[k];
		todo.erase(todo.begin() + (long) k);
		switch (what) {
		case 0: {
			a.write_object_begin("MeshAndBsp", "", 0);
			auto* raw = a.get_stream();
			raw->write_uint(ver == z::GameVersion::GOTHIC_1 ? 0x2090000 : 0x4090000);
			raw->write_uint(0);
			if (xzen) {
				std::vector<std::byte> m;
				auto to = z::Write::to(&m);
				w.world_mesh.save(to.get(), ver);
				m = widen(m);
				raw->write(m.data(), m.size());
				s.reach("wide indices");
			} else w.world_mesh.save(raw, ver);
			w.world_bsp_tree.save(raw, ver);
			break;
		}
		case 1:
			a.write_object_begin("VobTree", "", 0);
			a.write_int("childs0", (int32_t) w.world_vobs.size());
			for (auto& r : w.world_vobs) save_vob_tree(a, ver, r);
			break;
		case 2:
			a.write_object_begin("WayNet", "", 0);
			a.write_object(w.way_net, ver);
			break;
		default: // something nobody knows
			a.write_object_begin("Extension", "", 0);
			if (s.coin()) a.write_int("x", 1);
			if (s.coin()) a.write_object_begin("MeshAndBsp", "", 0), a.write_object_end();
			break;
		}
		a.write_object_end();
		s.event("section %d", what);
	}
	a.write_object_begin("EndMarker", "", 0);
	a.write_object_end();
	a.write_object_end();
	s.reach("sections-in-another-order");
}

/// The mesh section tells how long it is: the end of the object lies there.
static void check_section(Sim& s, std::vector<std::byte> const& data, size_t prefix, z::ArchiveFormat f) {
	static char const name[] = "MeshAndBsp";
	auto it = std::search(data.begin() + (long) prefix, data.end(), (std::byte const*) name, (std::byte const*) name + 10);
	s.check(it != data.end(), "section", "no mesh section in the file");
	auto* p = (unsigned char const*) data.data();
	size_t at = (size_t) (it - data.begin()) + 10;
	if (f == z::ArchiveFormat::BINARY) at += 1 + strlen((char const*) p + at + 1) + 1;
	else at += strlen(" % 0 0]") + (f == z::ArchiveFormat::ASCII);
	uint32_t size;
	s.check(at + 8 <= data.size(), "section", "the mesh section is cut");
	memcpy(&size, p + at + 4, 4);
	at += 8 + (size_t) size;
	s.check(at <= data.size(), "section", "the mesh section has a size of %u, the file ends before", size);
	if (f == z::ArchiveFormat::BINARY) {
		size_t obj = (size_t) (it - data.begin()) - 10;
		uint32_t len;
		memcpy(&len, p + obj, 4);
		s.check(obj + len == at, "section", "the mesh section ends at %zu, its object at %zu", at, obj + len);
	} else {
		static char const a[] = "\t[]\n", b[] = "\x01\x02\0[]";
		auto* want = f == z::ArchiveFormat::ASCII ? a : b;
		size_t n = f == z::ArchiveFormat::ASCII ? 4 : 5;
		s.check(at + n <= data.size() && !memcmp(p + at, want, n), "section", "the mesh section has a size of %u, but its object does not end there", size);
	}
}

static std::vector<std::byte> save(Sim& s, z::World& w, ObjCfg c, size_t& prefix) {
	auto ver = c.g2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1;
	Sink sink(s);
	prefix = 0;
	if (s.below(4) == 3) {
		auto pre = s.bytes(1 + s.below(40));
		sink.get()->write(pre.data(), pre.size());
		prefix = pre.size();
	}
	bool shuffled = !c.save && s.below(4) == 3;
	// Written by XZEN: the vertex indices of Gothic 1 meshes are wide.
	bool xzen = thread_id < 0 && shuffled && !c.g2 && s.below(4) == 3;
	set_env("USER", xzen ? "XZEN" : s.below(8) ? "root" : "XZENA");
	{
		auto a = c.save ? z::WriteArchive::to_save(sink.get(), c.fmt) : z::WriteArchive::to(sink.get(), c.fmt);
		if (shuffled) save_shuffled(s, w, *a, ver, xzen);
		else a->write_object("%", &w, ver);
		a->write_header();
	}
	auto data = sink.finish();
	if (!shuffled && !c.save) check_section(s, data, prefix, c.fmt);
	return data;
}

static void run(Sim& s) {
	quiet_log();
	alloc_cap = 256ull << 20;
	z::VirtualObject::enable_packed_save(true);
	ObjCfg c;
	int f = (int) s.below(3);
	c.fmt = FV[f];
	c.g2 = s.coin();
	c.save = s.below(3) == 0;
	auto ver = c.g2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1;
	ObjGen g(s, c);
	g.budget = 1 + s.below(14);
	z::World a;
	gen_world(s, a, g, !c.save, c.g2);
	if (!c.save && thread_id < 0 && s.below(500) == 499) enlarge(s, a, c.g2), s.reach("large world");
	s.event("%s world, %s%s: %zu roots, %zu objects, %zu polygons, %zu nodes", c.g2 ? "G2" : "G1", FN[f], c.save ? " save-game" : "", a.world_vobs.size(), g.all.size(), a.world_mesh.geometry.size(), a.world_bsp_tree.nodes.size());
	size_t prefix = 0;
	auto data = save(s, a, c, prefix);
	s.mix(data.size());
	auto b = std::make_shared<z::World>();
	bool expired = false;
	for (int round = 0; round < 2; ++round) {
		Source src(s, data);
		src.get()->seek((ssize_t) prefix, z::Whence::BEG);
		int how = (int) s.below(c.save ? 2 : 3);
		std::unique_ptr<z::ReadArchive> r;
		try {
			if (how == 0) {
				r = z::ReadArchive::from(src.get());
				b = r->read_object<z::World>(ver);
				if (!b) s.fail("load-failed", "no world in the archive");
			} else {
				b = std::make_shared<z::World>();
				if (how == 1) b->load(src.get(), ver);
				else {
					auto v = b->load(src.get());
					s.check(v == ver, "version", "the detected game version is wrong");
				}
			}
		} catch (std::exception const& e) {
			s.fail("load-failed", "the world cannot be loaded back (way %d): %s", how, e.what());
		}
		ObjCmp cmp(s, c);
		expired |= how != 0; // (objects that only weak references knew are gone with the archive)
		cmp.weak_may_expire = expired;
		cmp_world(s, cmp, a, *b);
		s.mix(cmp.compared);
		if (!c.save) {
			cmp_bsp(s, a.world_bsp_tree, b->world_bsp_tree, c.g2);
			cmp_mesh(s, a.world_mesh, b->world_mesh, c.g2, &b->world_bsp_tree.leaf_polygons);
		}
		if (cmp.compared > 2 || a.world_mesh.geometry.size() > 2) s.nontrivial();
		if (round || s.coin()) break;
		// save what was loaded
		data = save(s, *b, c, prefix);
		cut_world(*b);
	}
	cut_world(*b);
	cut_world(a);
}

#ifndef SIM_AS_LIBRARY
Harness sim::harness {
    .property = "P18",
    .run = run,
    .rule = "distinct history hashes of runs that compared more than two objects or polygons",
    .components = "real: src/World.cc, src/Mesh.cc, src/world/*.cc, src/vobs/*.cc, src/Texture.cc, src/Material.cc, src/Archive.cc, src/archive/*.cc, src/Stream.cc; simulated: wall clock, stream storage (chunked transfers)",
    .quick_runs = 200000,
    .thorough_runs = 4000000,
    .quick_secs = 75,
    .thorough_secs = 600,
    .step_budget = 100'000'000,
};
#endif
