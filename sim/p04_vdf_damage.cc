// P04: mounting a damaged volume ends with an error or an accessible tree: it terminates, stays inside the volume, leaves
// files that the damage does not touch intact, and the VFS stays usable.
#include "core.hh"
#include "seam.hh"
#include "streams.hh"
#include "vfs_model.hh"
#include <zenkit/Logger.hh>

#include <unistd.h>

using namespace sim;
using vm::Node;

static uint32_t get32(std::vector<std::byte> const& v, size_t p) {
	uint32_t x = 0;
	if (p + 4 <= v.size()) memcpy(&x, v.data() + p, 4);
	return x;
}
static void put32(std::vector<std::byte>& v, size_t p, uint32_t x) {
	if (p + 4 <= v.size()) memcpy(v.data() + p, &x, 4);
}

/// Reads everything that is visible. Returns the number of nodes.
static size_t walk(Sim& s, zenkit::VfsNode const& n, std::vector<std::byte> const& img, Node const* good, int depth) {
	size_t c = 0;
	for (auto& k : n.children()) {
		++c;
		auto* g = good ? good->child(k.name()) : nullptr;
		if (k.type() == zenkit::VfsNodeType::FILE) {
			auto r = k.open_read();
			s.check(r != nullptr, "open", "open_read returned null");
			auto d = vm::slurp(*r);
			if (g && g->file && g->data == d) continue; // a file mounted before
			s.check(d.empty() || memmem(img.data(), img.size(), d.data(), d.size()) != nullptr, "outside-volume",
			        "a file of %zu bytes is visible whose content does not lie inside the volume of %zu bytes", d.size(), img.size());
		} else c += walk(s, k, img, g && !g->file ? g : nullptr, depth + 1);
	}
	return c;
}

static void run(Sim& s) {
	quiet_log();
	Node root;
	root.name = "/";
	size_t k = 1 + s.below(6);
	for (size_t i = 0; i < k; ++i) {
		auto nm = vm::gen_name(s, true);
		if (!root.child(nm)) root.put(vm::gen_tree(s, nm, (int) s.below(5), 1000, 2000, true, false));
	}
	auto img = vm::build_vdf(root, vm::dos_time(2020, 5, 6, 7, 8, 10), (int) s.below(3), s.below(4) == 0);
	uint32_t entries = get32(img, 272);
	size_t data_start = 296 + 80ull * entries;

	// A VFS that already holds something.
	zenkit::Vfs vfs;
	Node before;
	before.name = "/";
	if (s.coin()) {
		Node f = vm::gen_tree(s, "KEEP.ME", 0, 5000, 5000, false, false);
		before.put(f);
		vfs.mount(vm::to_node(f, true), "/");
	}

	bool data_only = false, trunc_only = false;
	size_t cut = img.size();
	auto orig = img;
	std::vector<std::pair<size_t, size_t>> touched; // [from, to)
	switch (s.below(4)) {
	case 0: // damage limited to file contents
		data_only = true;
		if (img.size() > data_start)
			for (size_t i = 0, n = 1 + s.below(4); i < n; ++i) {
				size_t p = data_start + s.below(img.size() - data_start);
				img[p] ^= (std::byte) (1u << s.below(8));
				s.fault("bit-flip(content)");
				s.event("flip %zu", p);
			}
		break;
	case 1: // truncation
		trunc_only = true;
		cut = s.coin() ? s.below(img.size() + 1) : std::min(img.size(), data_start - std::min<size_t>(data_start, 200) + s.below(400));
		img.resize(cut);
		s.fault("truncation");
		s.event("truncate %zu (catalog ends at %zu)", cut, data_start);
		break;
	default: {
		size_t n = 1 + s.below(4);
		for (size_t i = 0; i < n; ++i) {
			switch (s.below(7)) {
			case 0: { // a field of a catalog entry
				if (!entries) break;
				size_t e = 296 + 80 * s.below(entries) + 64 + 4 * s.below(3);
				static uint32_t const vals[] = {0, 1, 2, 0xffffffff, 0x80000000, 0x40000000, 0xC0000000, 0x7fffffff, 0x0fffffff, 0x03333333, 0xfffffff0};
				uint32_t v = s.coin() ? vals[s.below(11)] : s.u32();
				put32(img, e, v);
				s.event("entry field @%zu=%x", e, v);
				s.fault("catalog-field");
				break;
			}
			case 1: { // a directory that refers to (another) block, e.g. an ancestor
				if (!entries) break;
				size_t e = 296 + 80 * s.below(entries) + 64;
				uint32_t v = (uint32_t) s.below(entries + 2);
				put32(img, e, v);
				put32(img, e + 8, get32(img, e + 8) | 0x80000000u);
				s.event("dir link @%zu=%u", e, v);
				s.fault("catalog-cycle");
				break;
			}
			case 2: { // header field
				size_t e = 272 + 4 * s.below(6);
				uint32_t v = s.coin() ? (uint32_t) s.below(img.size() + 100) : s.u32();
				put32(img, e, v);
				s.event("header @%zu=%x", e, v);
				s.fault("header-field");
				break;
			}
			case 3: { // missing end marker
				if (!entries) break;
				size_t e = 296 + 80 * s.below(entries) + 72;
				put32(img, e, get32(img, e) & ~0x40000000u);
				s.event("no end marker @%zu", e);
				s.fault("lost-end-marker");
				break;
			}
			case 4: { // a sector that was never written
				size_t sec = 64u << s.below(4);
				size_t p = s.below(img.size()) / sec * sec;
				std::byte fill = s.coin() ? std::byte {0} : std::byte {0xff};
				for (size_t j = p; j < std::min(img.size(), p + sec); ++j) img[j] = fill;
				s.event("lost sector %zu+%zu", p, sec);
				s.fault("lost-sector");
				break;
			}
			case 5: { // bit flips anywhere
				size_t lim = s.coin() ? std::min(img.size(), data_start) : img.size();
				size_t p = s.below(lim);
				img[p] ^= (std::byte) (1u << s.below(8));
				s.event("flip %zu", p);
				s.fault("bit-flip");
				break;
			}
			case 6:
				img.resize(s.below(img.size() + 1));
				if (img.empty()) img.resize(1);
				s.event("truncate %zu", img.size());
				s.fault("truncation");
				break;
			}
		}
	}
	}

	s.set_step_budget(3'000'000);
	bool ok = false;
	try {
		auto ow = (zenkit::VfsOverwriteBehavior) s.below(4);
		switch (s.below(3)) {
		case 0: {
			auto r = zenkit::Read::from(&img);
			vfs.mount_disk(r.get(), ow);
			break;
		}
		case 1: {
			std::string p = scratch_dir() + "/in.vdf";
			FILE* f = fopen(p.c_str(), "wb");
			if (!img.empty()) fwrite(img.data(), 1, img.size(), f);
			fclose(f);
			vfs.mount_disk(std::filesystem::path(p), ow);
			break;
		}
		default: {
			Device d;
			d.data = img;
			d.policy(s);
			if (s.below(3) == 0) data_only = trunc_only = false, d.fail_read_at = (int64_t) s.below(6), d.fail_sticky = s.coin();
			InBuf b(&d, 1 + s.below(5000));
			std::istream is(&b);
			auto r = zenkit::Read::from(&is);
			vfs.mount_disk(r.get(), ow);
			s.check(!d.failed, "read-error-hidden", "the volume could not be read completely but was mounted without an error");
			break;
		}
		}
		ok = true;
		s.reach("accepted");
	} catch (zenkit::Error const&) {
		s.reach("refused");
	} catch (std::exception const& e) {
		s.fail("error-kind", "mounting a damaged volume let an unexpected exception escape: %s", e.what());
	}
	size_t n;
	if (img.size() != orig.size() || !ok) {
		// the volume may have been partially mounted
	}
	n = walk(s, vfs.root(), img, &before, 0);
	s.mix(n);
	if (data_only) {
		s.check(ok, "refused-intact-catalog", "a volume with intact header and catalog was refused");
		for (auto& [kk, v] : root.kids) {
			if (!v.has_file()) continue;
			// same tree; contents as stored
			std::function<void(Node const&, std::string)> go = [&](Node const& m, std::string p) {
				if (!m.has_file()) return;
				auto* r = vfs.resolve(p);
				if (before.child(m.name) && p == "/" + m.name) return;
				s.check(r != nullptr, "lost-node", "%s is missing although header and catalog are intact", p.c_str());
				if (m.file) {
					auto rd = r->open_read();
					auto d = vm::slurp(*rd);
					s.check(d.size() == m.data.size(), "content-size", "%s: %zu bytes, want %zu", p.c_str(), d.size(), m.data.size());
					size_t diff = 0;
					for (size_t i = 0; i < d.size(); ++i) diff += d[i] != m.data[i];
					s.check(diff <= 4, "content", "%s differs in %zu bytes, at most 4 were damaged", p.c_str(), diff);
				} else
					for (auto& [q, x] : m.kids) go(x, p + "/" + x.name);
			};
			go(v, "/" + v.name);
		}
	}
	if (trunc_only && ok && cut >= data_start) {
		// files that lie completely before the cut are intact, others are not shown
		std::function<void(Node const&, zenkit::VfsNode const*, std::string)> go = [&](Node const& m, zenkit::VfsNode const* r, std::string p) {
			for (auto& [q, x] : m.kids) {
				if (!x.has_file()) continue;
				if (m.name == "/" && before.child(x.name)) continue;
				auto* c = r->child(x.name);
				if (x.file) {
					if (!c) continue;
					auto rd = c->open_read();
					s.check(vm::slurp(*rd) == x.data, "content", "%s/%s of a truncated volume has wrong content", p.c_str(), x.name.c_str());
				} else {
					s.check(c != nullptr, "lost-node", "%s/%s is missing although the catalog is intact", p.c_str(), x.name.c_str());
					go(x, c, p + "/" + x.name);
				}
			}
		};
		go(root, &vfs.root(), "");
		// exact: the expected set by offsets
		for (size_t e = 0; e < entries; ++e) {
			size_t at = 296 + 80 * e;
			uint32_t ty = get32(orig, at + 72);
			if (ty & 0x80000000u) continue;
			uint64_t end = (uint64_t) get32(orig, at + 64) + get32(orig, at + 68);
			std::string nm((char const*) orig.data() + at, 64);
			nm = std::string(vm::rtrim(nm));
			if (end <= cut) s.check(vfs.find(nm) != nullptr, "lost-node", "%s lies completely inside the truncated volume but is missing", nm.c_str());
		}
	}
	if (trunc_only && cut < 296) s.check(!ok, "accepted-without-header", "a volume cut to %zu bytes was accepted", cut);
	// what was there before stays readable
	for (auto& [kk, v] : before.kids) {
		auto* r = vfs.resolve(v.name);
		if (!r || r->type() != zenkit::VfsNodeType::FILE) {
			bool named = false;
			for (size_t e = 0; e + 80 <= img.size(); ++e)
				if (memcmp(img.data() + e, "KEEP.ME", 7) == 0) named = true;
			s.check(named, "lost-existing", "mounting a damaged volume removed an unrelated file");
			continue;
		}
		auto rd = r->open_read();
		s.check(vm::slurp(*rd) == v.data, "lost-existing", "mounting a damaged volume changed an unrelated file");
	}
	// and the VFS still works
	Node f2;
	f2.name = "AFTER.TXT";
	f2.file = true;
	f2.data = s.bytes(20);
	Node r2;
	r2.name = "/";
	r2.put(f2);
	auto good = vm::build_vdf(r2, vm::dos_time(2030, 1, 1, 0, 0, 0), 1);
	auto rr = zenkit::Read::from(&good);
	vfs.mount_disk(rr.get(), zenkit::VfsOverwriteBehavior::ALL);
	auto* fn = vfs.resolve("after.txt");
	s.check(fn && fn->type() == zenkit::VfsNodeType::FILE && vm::slurp(*fn->open_read()) == f2.data, "unusable-after", "a good volume mounted after a damaged one is not visible");
	s.nontrivial();
}

#ifndef SIM_AS_LIBRARY
Harness sim::harness {
    .property = "P04",
    .run = run,
    .rule = "distinct history hashes (damage, outcome, number of visible nodes)",
    .components = "real: Vfs.cc, Stream.cc, MmapPosix.cc under AddressSanitizer; simulated: the stored volume (bit flips, lost sectors, truncation, forged links) and its transfer",
    .quick_runs = 400000,
    .thorough_runs = 4000000,
    .quick_secs = 75,
    .thorough_secs = 600,
    .step_budget = 50'000'000,
};
#endif
