// P03: a VFS saved as a volume and mounted again is the same tree; a volume whose writing was cut short at any point (or
// ran out of space) is refused or shows only intact files.
#include "core.hh"
#include "recwrite.hh"
#include "seam.hh"
#include "streams.hh"
#include "vfs_model.hh"
#include <zenkit/Logger.hh>

#include <fstream>
#include <unistd.h>

using namespace sim;
using vm::Node;

/// Every visible file must be a file of the model with the model's content.
static void only_intact(Sim& s, zenkit::VfsNode const& real, Node const& model, std::string const& at) {
	for (auto& k : real.children()) {
		auto* m = model.child(k.name());
		std::string p = at + "/" + hex(k.name().data(), k.name().size(), 24);
		s.check(m != nullptr, "torn-garbage-node", "an incompletely written volume was mounted and shows a node that never existed: %s", p.c_str());
		bool f = k.type() == zenkit::VfsNodeType::FILE;
		s.check(f == m->file, "torn-garbage-node", "an incompletely written volume was mounted with a wrong node kind: %s", p.c_str());
		if (f) {
			auto r = k.open_read();
			auto d = vm::slurp(*r);
			s.check(d == m->data, "torn-garbage-content", "an incompletely written volume was mounted and %s has wrong content (%zu bytes, want %zu)", p.c_str(), d.size(),
			        m->data.size());
		} else only_intact(s, k, *m, p);
	}
}

static Node gen(Sim& s) {
	Node root;
	root.name = "/";
	root.time = -1;
	size_t k = s.below(7);
	if (s.below(10) == 0) k = 20 + s.below(60);
	for (size_t i = 0; i < k; ++i) {
		auto nm = vm::gen_name(s, true);
		if (!root.child(nm)) root.put(vm::gen_tree(s, nm, (int) s.below(7), s.clock - 100, s.clock + 100, true, true));
	}
	return root;
}

static std::vector<std::byte> save_through(Sim& s, zenkit::Vfs const& vfs, zenkit::GameVersion ver, time_t t, char const** kind) {
	switch (s.below(5)) {
	case 0: {
		*kind = "vector";
		std::vector<std::byte> v;
		auto w = zenkit::Write::to(&v);
		vfs.save(w.get(), ver, t);
		return v;
	}
	case 1: {
		*kind = "FILE*";
		Device d;
		d.policy(s);
		FILE* f = open_cookie(&d, "w", s.coin());
		{
			auto w = zenkit::Write::to(f);
			vfs.save(w.get(), ver, t);
		}
		fclose(f);
		return d.data;
	}
	case 2: {
		*kind = "ostream";
		Device d;
		d.policy(s);
		OutBuf b(&d);
		std::ostream os(&b);
		auto w = zenkit::Write::to(&os);
		vfs.save(w.get(), ver, t);
		os.flush();
		return d.data;
	}
	case 3: {
		*kind = "path";
		std::string p = scratch_dir() + "/out.vdf";
		{
			auto w = zenkit::Write::to(std::filesystem::path(p));
			vfs.save(w.get(), ver, t);
		}
		std::ifstream in(p, std::ios::binary);
		std::vector<std::byte> v;
		char c;
		std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
		(void) c;
		for (char x : all) v.push_back((std::byte) x);
		unlink(p.c_str());
		return v;
	}
	default: {
		*kind = "device";
		RecWrite w(s);
		w.keep_log = false;
		vfs.save(&w, ver, t);
		return w.data;
	}
	}
}

static void mount_into(Sim& s, zenkit::Vfs& v, std::vector<std::byte> const& img) {
	switch (s.below(3)) {
	case 0: {
		auto r = zenkit::Read::from(&img);
		v.mount_disk(r.get());
		break;
	}
	case 1: {
		std::string p = scratch_dir() + "/in.vdf";
		FILE* f = fopen(p.c_str(), "wb");
		if (!img.empty()) fwrite(img.data(), 1, img.size(), f);
		fclose(f);
		v.mount_disk(std::filesystem::path(p));
		break;
	}
	default: {
		Device d;
		d.data = img;
		d.policy(s);
		InBuf b(&d, 1 + s.below(5000));
		std::istream is(&b);
		auto r = zenkit::Read::from(&is);
		v.mount_disk(r.get());
		break;
	}
	}
}

static void run(Sim& s) {
	quiet_log();
	static char const* zones[] = {"UTC0", "IND-5:30", "PST8", "CET-1CEST,M3.5.0,M10.5.0/3"};
	set_env("TZ", zones[s.below(4)]);
	if (s.coin()) s.clock -= 10'000'000;
	s.clock += (int64_t) s.below(100000);
	auto model = gen(s);
	s.event("tree %s", vm::describe(model).c_str());
	zenkit::Vfs vfs;
	for (auto& [k, v] : model.kids) vfs.mount(vm::to_node(v, true), "/");
	auto ver = s.coin() ? zenkit::GameVersion::GOTHIC_2 : zenkit::GameVersion::GOTHIC_1;
	time_t t = s.coin() ? 0 : (time_t) (s.clock - (int64_t) s.below(1'000'000));
	int64_t want_time = (t ? (int64_t) t : s.clock) & ~1ll;
	Node expect = vm::stamped(model, want_time);

	if (s.below(2) == 0) {
		char const* kind = "";
		auto img = save_through(s, vfs, ver, t, &kind);
		s.event("save via %s: %zu bytes", kind, img.size());
		s.reach(kind);
		// header facts a reader of the format relies on
		s.check(img.size() >= 296, "image-size", "volume of %zu bytes", img.size());
		zenkit::Vfs back;
		try {
			mount_into(s, back, img);
		} catch (std::exception const& e) {
			s.fail("mount-own-volume", "a freshly saved volume was refused: %s", e.what());
		}
		vm::compare(s, back.root(), expect, "/", 0);
		// a second generation is the same tree again (restart: only the image survives)
		char const* kind2 = "";
		auto img2 = save_through(s, back, ver, t ? t : (time_t) want_time, &kind2);
		zenkit::Vfs third;
		mount_into(s, third, img2);
		vm::compare(s, third.root(), expect, "/", 0);
		s.check(img2 == img, "resave", "saving a mounted volume again gives a different volume (%zu vs %zu bytes)", img2.size(), img.size());
	} else {
		RecWrite w(s);
		bool full = s.below(3) == 0;
		if (full) w.cap = s.below(2000);
		vfs.save(&w, ver, t);
		for (int k = 0; k < 3; ++k) {
			std::vector<std::byte> img;
			if (full && k == 0) {
				img = w.data;
				s.event("full disk at %zu", w.cap);
			} else {
				// bias to the final writes, where the header and the catalog go
				size_t n = s.coin() ? s.below(w.log.size() + 1) : w.log.size() - s.below(std::min<size_t>(w.log.size(), 14) + 1);
				size_t torn = n < w.log.size() && s.coin() ? s.below(w.log[n].second.size() + 1) : 0;
				img = w.crash(n, torn);
				s.fault(torn ? "torn-write" : "crash");
				s.event("crash after %zu of %zu writes +%zu", n, w.log.size(), torn);
			}
			zenkit::Vfs back;
			try {
				mount_into(s, back, img);
				s.reach("torn-volume-accepted");
			} catch (zenkit::VfsBrokenDiskError const&) {
				s.reach("torn-volume-refused");
				continue;
			} catch (std::exception const& e) {
				s.fail("torn-error-kind", "mounting a torn volume failed with an unexpected error: %s", e.what());
			}
			only_intact(s, back.root(), expect, "");
		}
	}
	if (expect.count() > 1) s.nontrivial();
	set_env("TZ", "UTC");
}

#ifndef SIM_AS_LIBRARY
Harness sim::harness {
    .property = "P03",
    .run = run,
    .rule = "distinct history hashes (tree, sink kind, crash points) of runs whose tree has at least one stored node",
    .components = "real: Vfs.cc, Stream.cc, MmapPosix.cc; simulated: output device (crash after any prefix of its writes, torn and refused writes), input chunking, clock, time zone",
    .quick_runs = 160000,
    .thorough_runs = 2000000,
    .quick_secs = 75,
    .thorough_secs = 600,
    .step_budget = 100'000'000,
};
#endif
