// P05: files of compressed volumes: random access equals the plain bytes, under any block size, interleaved readers,
// failing transfers and damaged blocks; compressed save -> mount round trip.
#include "core.hh"
#include "recwrite.hh"
#include "seam.hh"
#include "streams.hh"
#include "vfs_model.hh"
#include <zenkit/Logger.hh>
#include <zlib.h>

using namespace sim;
using vm::Node;
using zenkit::Whence;

struct Block {
	size_t hdr, off, len; // position of the block header, the payload and its length
};
static std::vector<std::byte> zip(Sim& s, std::vector<std::byte> const& d, uint32_t bs, std::vector<Block>& blocks) {
	vm::Image im;
	uint32_t n = (uint32_t) ((d.size() + bs - 1) / bs);
	im.u32((uint32_t) d.size());
	im.u32(bs);
	im.u32(n);
	int level = (int) s.below(10);
	for (uint32_t i = 0; i < n; ++i) {
		size_t o = (size_t) i * bs, l = std::min<size_t>(bs, d.size() - o);
		uLongf cl = compressBound(l);
		std::vector<std::byte> c(cl);
		compress2((Bytef*) c.data(), &cl, (Bytef const*) d.data() + o, l, level);
		size_t hdr = im.bytes.size();
		im.u32((uint32_t) l);
		im.u32((uint32_t) cl);
		im.u32(bs);
		blocks.push_back({hdr, im.bytes.size(), cl});
		im.bytes.insert(im.bytes.end(), c.begin(), c.begin() + (long) cl);
	}
	return std::move(im.bytes);
}

static std::vector<std::byte> content(Sim& s, size_t max) {
	size_t n = 1 + (s.below(4) ? s.below(300) : s.below(max));
	auto v = s.bytes(n);
	if (s.coin())
		for (size_t i = 0; i < n; ++i) v[i] = (std::byte) ((unsigned) v[i] & 3); // compressible
	return v;
}

/// A Read device whose transfers the simulation can fail.
class DevRead final : public zenkit::Read {
public:
	explicit DevRead(std::shared_ptr<Device> d) : d(std::move(d)) {}
	size_t read(void* buf, size_t len) noexcept override {
		size_t done = 0;
		while (done < len) {
			ssize_t r = d->read((char*) buf + done, len - done);
			if (r <= 0) break;
			done += (size_t) r;
		}
		return done;
	}
	void seek(ssize_t off, Whence w) noexcept override {
		// like the built-in memory stream: positions outside of the data are ignored
		ssize_t b = w == Whence::BEG ? 0 : w == Whence::CUR ? (ssize_t) d->pos : (ssize_t) d->data.size();
		if (b + off < 0 || b + off > (ssize_t) d->data.size()) return;
		d->pos = (size_t) (b + off);
	}
	[[nodiscard]] size_t tell() const noexcept override { return d->pos; }
	[[nodiscard]] bool eof() const noexcept override { return d->pos >= d->data.size(); }
	std::shared_ptr<Device> d;
};

static void stream_run(Sim& s) {
	static uint32_t const sizes[] = {8192, 1, 2, 7, 16, 64, 255, 256, 1000, 4096};
	uint32_t bs = sizes[s.below(10)];
	auto d = content(s, bs < 16 ? 200 : 40000);
	std::vector<Block> blocks;
	auto z = zip(s, d, bs, blocks);
	// trailing bytes: the stream ends inside the volume
	auto tail = s.bytes(s.below(50));
	z.insert(z.end(), tail.begin(), tail.end());
	s.event("stream len=%zu block=%u", d.size(), bs);

	int mode = (int) s.below(3); // 0 intact, 1 transient read errors, 2 damage
	bool payload_only = true;
	std::vector<bool> bad(blocks.size(), false);
	if (mode == 2) {
		size_t n = 1 + s.below(3);
		for (size_t i = 0; i < n; ++i) {
			switch (s.below(6)) {
			case 5: { // the last block holds less (or more) than its header says
				size_t b = blocks.size() - 1, o = b * bs, l = d.size() - o;
				auto part = std::vector<std::byte>(d.begin() + (long) o, d.end());
				part.resize(s.coin() ? s.below(l) : l + s.below(20), std::byte {7});
				uLongf cl = compressBound(part.size());
				std::vector<std::byte> c(cl);
				compress2((Bytef*) c.data(), &cl, (Bytef const*) part.data(), part.size(), 6);
				z.resize(blocks[b].off);
				z.insert(z.end(), c.begin(), c.begin() + (long) cl);
				blocks[b].len = cl;
				auto cl32 = (uint32_t) cl;
				memcpy(z.data() + blocks[b].hdr + 4, &cl32, 4);
				bad[b] = true;
				s.fault("forged-block");
				s.event("block %zu holds %zu instead of %zu bytes", b, part.size(), l);
				break;
			}
			case 0:
			case 1: { // inside the payload of a block
				size_t b = s.below(blocks.size());
				size_t p = blocks[b].off + s.below(blocks[b].len);
				z[p] ^= (std::byte) (1u << s.below(8));
				bad[b] = true;
				s.fault("bit-flip(block)");
				s.event("damage block %zu", b);
				break;
			}
			case 2: { // lost sector inside the payload
				size_t b = s.below(blocks.size());
				size_t p = blocks[b].off + s.below(blocks[b].len), e = std::min(blocks[b].off + blocks[b].len, p + 64);
				for (size_t q = p; q < e; ++q) z[q] = std::byte {0};
				bad[b] = true;
				s.fault("lost-sector(block)");
				s.event("blank in block %zu", b);
				break;
			}
			case 3: { // header fields
				size_t p = s.coin() ? 4 * s.below(3) : blocks[s.below(blocks.size())].hdr + 4 * s.below(3);
				uint32_t v = s.u32();
				memcpy(z.data() + p, &v, 4);
				payload_only = false;
				s.fault("header-field");
				s.event("header @%zu=%x", p, v);
				break;
			}
			default:
				z.resize(1 + s.below(z.size()));
				z.resize(std::max<size_t>(z.size(), 1));
				payload_only = false;
				s.fault("truncation");
				s.event("truncate %zu", z.size());
				i = n;
				break;
			}
		}
	}

	// Adler-32 does not catch every alteration: what zlib still accepts is that block's content, everything else is bad.
	if (mode == 2 && payload_only)
		for (size_t b = 0; b < blocks.size(); ++b) {
			if (!bad[b]) continue;
			size_t o = b * bs, l = std::min<size_t>(bs, d.size() - o);
			std::vector<std::byte> out(l);
			uLongf ol = l;
			if (uncompress((Bytef*) out.data(), &ol, (Bytef const*) z.data() + blocks[b].off, blocks[b].len) == Z_OK && ol == l) {
				bad[b] = false;
				std::copy(out.begin(), out.end(), d.begin() + (long) o);
				s.reach("undetectable-damage");
			}
		}

	struct Cl {
		std::shared_ptr<Device> dev;
		std::unique_ptr<zenkit::Read> r;
		size_t pos = 0;
	};
	std::vector<Cl> cs;
	size_t n = 1 + s.below(3);
	for (size_t i = 0; i < n; ++i) {
		Cl c;
		c.dev = std::make_shared<Device>();
		c.dev->data = z;
		c.dev->policy(s);
		s.set_step_budget(20'000'000);
		c.r = zenkit::Read::from_zipped(std::make_unique<DevRead>(c.dev));
		if (mode != 2 || payload_only) s.check(c.r != nullptr, "refused", "an intact compressed file (length %zu, block size %u) was refused", d.size(), bs);
		if (!c.r) {
			s.reach("refused");
			s.nontrivial();
			return;
		}
		cs.push_back(std::move(c));
	}
	size_t ops = 3 + s.below(30);
	for (size_t i = 0; i < ops; ++i) {
		auto& c = cs[s.below(n)];
		s.set_step_budget(20'000'000);
		if (mode == 1 && s.below(4) == 0) {
			c.dev->reads = 0;
			c.dev->fail_read_at = (int64_t) s.below(3);
		} else c.dev->fail_read_at = -1;
		c.dev->failed = false;
		switch (s.below(4)) {
		case 0: {
			size_t to = s.below(5) ? s.below(d.size() + 1) : d.size();
			int w = (int) s.below(3);
			if (payload_only) {
				ssize_t off = w == 0 ? (ssize_t) to : w == 1 ? (ssize_t) to - (ssize_t) c.pos : (ssize_t) to - (ssize_t) d.size();
				c.r->seek(off, (Whence) w);
				c.pos = to;
				s.event("seek %zu/%d", to, w);
				s.check(c.r->tell() == to, "cursor", "seek to %zu: cursor %zu", to, c.r->tell());
			} else c.r->seek((ssize_t) s.i32(), (Whence) w);
			break;
		}
		case 1:
			if (payload_only) s.check(c.r->eof() == (c.pos >= d.size()), "eof", "eof() at %zu of %zu is %d", c.pos, d.size(), c.r->eof());
			break;
		default: {
			size_t k = s.below(3) ? s.below(3 * bs + 20) : s.below(d.size() + 100);
			if (k > 100000) k = 100000;
			std::vector<std::byte> buf(k + 1, std::byte {0xA5});
			size_t got = c.r->read(buf.data(), k);
			s.event("read(%zu)@%zu=%zu", k, c.pos, got);
			s.check(got <= k, "read-count", "read(%zu) returned %zu", k, got);
			s.check(buf[k] == std::byte {0xA5}, "read-overrun", "read(%zu) wrote behind the buffer", k);
			if (!payload_only) break;
			size_t want = std::min(k, d.size() - c.pos);
			// the first byte that a damaged block or failed transfer makes unavailable
			size_t limit = want;
			if (mode == 2)
				for (size_t b = 0; b < bad.size(); ++b)
					if (bad[b] && (b + 1) * bs > c.pos && b * bs < c.pos + want) limit = std::min(limit, b * bs > c.pos ? b * bs - c.pos : 0);
			s.check(got <= want, "read-count", "read(%zu) at %zu of %zu returned %zu", k, c.pos, d.size(), got);
			s.check(memcmp(buf.data(), d.data() + c.pos, got) == 0, "wrong-data", "read(%zu) at %zu of %zu returned wrong bytes", k, c.pos, d.size());
			if (mode == 1 && c.dev->failed) s.reach("failed-transfer");
			else if (mode == 2) s.check(got >= limit, "lost-data", "read(%zu) at %zu returned %zu bytes although %zu bytes before the damaged block are intact", k, c.pos, got, limit);
			else s.check(got == want, "read-count", "read(%zu) at %zu of %zu returned %zu", k, c.pos, d.size(), got);
			c.pos += got;
			s.check(c.r->tell() == c.pos, "cursor", "cursor %zu after reading, want %zu", c.r->tell(), c.pos);
			break;
		}
		}
	}
	s.nontrivial();
}

/// Nodes which are assigned to each other are copies.
static void assigned(Sim& s, zenkit::VfsNode const& root) {
	std::vector<zenkit::VfsNode const*> files;
	std::function<void(zenkit::VfsNode const&)> walk = [&](zenkit::VfsNode const& n) {
		for (auto& c : n.children())
			if (c.type() == zenkit::VfsNodeType::FILE) files.push_back(&c);
			else walk(c);
	};
	walk(root);
	if (files.empty()) return;
	auto all = [](zenkit::VfsNode const& n) {
		auto r = n.open_read();
		r->seek(0, Whence::END);
		std::vector<std::byte> b(r->tell());
		r->seek(0, Whence::BEG);
		b.resize(r->read(b.data(), b.size()));
		return b;
	};
	zenkit::VfsNode var = *files[s.below(files.size())];
	for (size_t i = s.below(4); i; --i) {
		auto* from = files[s.below(files.size())];
		var = *from;
		s.check(var.name() == from->name() && all(var) == all(*from), "assigned-node", "the copy of %s differs from it", from->name().c_str());
	}
}

static void volume_run(Sim& s) {
	Node root;
	root.name = "/";
	size_t k = 1 + s.below(6);
	for (size_t i = 0; i < k; ++i) {
		auto nm = vm::gen_name(s, true);
		if (!root.child(nm)) root.put(vm::gen_tree(s, nm, (int) s.below(4), s.clock, s.clock, true, true));
	}
	// Audio files are stored as they are; keep them from looking like a compressed stream.
	std::function<void(Node&)> riff = [&](Node& n) {
		for (auto& [q, v] : n.kids) {
			if (v.file && v.data.size() >= 12) memcpy(v.data.data(), "RIFFxxxxWAVE", 12);
			if (!v.file) riff(v);
		}
	};
	riff(root);
	zenkit::Vfs vfs;
	for (auto& [q, v] : root.kids) vfs.mount(vm::to_node(v, true), "/");
	RecWrite w(s);
	auto ver = s.coin() ? zenkit::GameVersion::GOTHIC_2 : zenkit::GameVersion::GOTHIC_1;
	vfs.save_compressed(&w, ver, (time_t) s.clock);
	s.event("volume %s -> %zu", vm::describe(root).c_str(), w.data.size());
	Node expect = vm::stamped(root, s.clock & ~1ll);
	if (s.coin()) {
		zenkit::Vfs back;
		auto r = zenkit::Read::from(&w.data);
		try {
			back.mount_disk(r.get());
		} catch (std::exception const& e) {
			s.fail("mount-own-volume", "a freshly saved compressed volume was refused: %s", e.what());
		}
		vm::compare(s, back.root(), expect, "/", 0);
		assigned(s, back.root());
		// compressed -> plain -> same tree
		RecWrite w2(s);
		w2.keep_log = false;
		if (s.coin()) back.save(&w2, ver, (time_t) s.clock);
		else back.save_compressed(&w2, ver, (time_t) s.clock);
		zenkit::Vfs third;
		auto r2 = zenkit::Read::from(&w2.data);
		third.mount_disk(r2.get());
		vm::compare(s, third.root(), expect, "/", 0);
	} else { // crash while writing: refused or safe to read
		size_t n = w.log.size() - s.below(std::min<size_t>(w.log.size(), 14) + 1);
		auto img = w.crash(n, 0);
		if (s.coin() && !img.empty()) {
			img = w.data;
			for (int q = 0; q < 3; ++q) {
				size_t p = s.below(img.size());
				img[p] ^= (std::byte) (1u << s.below(8));
			}
			s.fault("bit-flip");
		} else s.fault("crash");
		s.set_step_budget(20'000'000);
		zenkit::Vfs back;
		auto r = zenkit::Read::from(&img);
		try {
			back.mount_disk(r.get());
		} catch (zenkit::Error const&) {
			s.reach("torn-volume-refused");
			return;
		}
		std::function<void(zenkit::VfsNode const&)> walk = [&](zenkit::VfsNode const& nd) {
			for (auto& c : nd.children()) {
				if (c.type() == zenkit::VfsNodeType::FILE) {
					auto rd = c.open_read();
					s.check(rd != nullptr, "open", "open_read returned null");
					rd->seek(0, Whence::END);
					size_t len = rd->tell();
					rd->seek(0, Whence::BEG);
					std::vector<std::byte> buf(std::min<size_t>(len, 1 << 20));
					(void) rd->read(buf.data(), buf.size());
				} else walk(c);
			}
		};
		walk(back.root());
	}
	s.nontrivial();
}

static void run(Sim& s) {
	quiet_log();
	alloc_cap = 64ull << 20;
	if (s.below(3)) stream_run(s);
	else volume_run(s);
}

#ifndef SIM_AS_LIBRARY
Harness sim::harness {
    .property = "P05",
    .run = run,
    .rule = "distinct history hashes of runs that opened or mounted something",
    .components = "real: Stream.cc ReadZipped, Vfs.cc; stub: miniz replaced by zlib behind the same three functions; simulated: the device below the compressed stream (chunking, transient EIO, damaged blocks, truncation), crash while saving, allocations above 64 MB fail",
    .quick_runs = 120000,
    .thorough_runs = 2000000,
    .quick_secs = 75,
    .thorough_secs = 600,
    .step_budget = 100'000'000,
};
#endif
