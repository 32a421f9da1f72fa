// P01: every stream backend behaves like one byte array with a cursor, whatever the transfer sizes of the device below.
#include "core.hh"
#include "seam.hh"
#include "streams.hh"
#include <zenkit/Logger.hh>
#include <zenkit/Stream.hh>

#include <cstring>
#include <fstream>
#include <sstream>

using namespace sim;
using zenkit::Whence;

static Sim* S;
static FsAct short_io(FsCall const& c) {
	FsAct a;
	if (!S) return a;
	if (c.op == FsOp::READ || c.op == FsOp::WRITE) {
		switch (S->below(5)) {
		case 0: break;
		case 1: a.limit = 1 + S->below(16); S->fault(c.op == FsOp::READ ? "short-read" : "short-write"); break;
		case 2: a.limit = 1 + S->below(700); S->fault(c.op == FsOp::READ ? "short-read" : "short-write"); break;
		case 3: if (S->below(3) == 2) { a.err = EINTR; S->fault("EINTR"); } break;
		default: break;
		}
	}
	return a;
}

struct Model {
	std::vector<std::byte> const* d;
	size_t pos = 0;
	size_t read(void* out, size_t n) {
		size_t k = std::min(n, d->size() - pos);
		if (k) memcpy(out, d->data() + pos, k);
		pos += k;
		return k;
	}
	bool eof() const { return pos >= d->size(); }
	char ch() {
		char c = 0;
		read(&c, 1);
		return c;
	}
	// A line ends at NUL, CR, LF or the end of the data; the terminator is consumed. After CR/LF every following
	// character of `ign` is consumed as well.
	std::string line(std::string_view ign) {
		std::string r;
		char c;
		for (;;) {
			if (eof()) return r;
			c = ch();
			if (c == 0 || c == '\r' || c == '\n') break;
			r.push_back(c);
		}
		if (c == 0) return r;
		while (!eof()) {
			char n = (char) (*d)[pos];
			if (n == 0 || ign.find(n) == std::string_view::npos) break;
			++pos;
		}
		return r;
	}
};

static std::vector<std::byte> gen_content(Sim& s) {
	size_t n;
	switch (s.below(6)) {
	case 0: n = s.below(8); break;
	case 1: n = s.below(64); break;
	case 2: n = s.below(600); break;
	case 3: n = 4096 * (1 + s.below(2)) - 2 + s.below(5); break;
	case 4: n = s.below(20000); break;
	default: n = 512 + s.below(40); break;
	}
	if (s.coin()) return s.bytes(n);
	// text
	std::vector<std::byte> v(n);
	static char const al[] = "abcXYZ=: []%%  \t\n\n\r\r\v\f0123";
	auto r = s.bytes(n);
	bool nul = s.coin();
	for (size_t i = 0; i < n; ++i) {
		unsigned x = (unsigned) r[i];
		v[i] = (std::byte) al[x % (sizeof al - 1)];
		if (nul && x > 248) v[i] = std::byte {0};
	}
	return v;
}

struct Client {
	char const* kind;
	std::unique_ptr<zenkit::Read> r;
	Model m;
	bool memory = false;
	// owners
	std::unique_ptr<Device> dev;
	FILE* f = nullptr;
	std::unique_ptr<std::streambuf> sb;
	std::unique_ptr<std::istream> is;
	~Client() {
		r.reset();
		if (f) fclose(f);
	}
};

static std::unique_ptr<Client> open_client(Sim& s, std::vector<std::byte> const& data, std::string const& path) {
	auto c = std::make_unique<Client>();
	c->m.d = &data;
	switch (s.below(7)) {
	case 0:
		c->kind = "memory";
		c->memory = true;
		c->r = zenkit::Read::from(data.data(), data.size());
		break;
	case 1:
		c->kind = "vector-pointer";
		c->memory = true;
		c->r = zenkit::Read::from(&data);
		break;
	case 2:
		c->kind = "owned-vector";
		c->memory = true;
		c->r = zenkit::Read::from(std::vector<std::byte>(data));
		break;
	case 3:
		c->kind = "mapped-file";
		c->memory = true;
		c->r = zenkit::Read::from(std::filesystem::path(path));
		break;
	case 4:
		c->kind = "FILE*";
		c->dev = std::make_unique<Device>();
		c->dev->data = data;
		c->dev->policy(s);
		c->f = open_cookie(c->dev.get(), "r", s.chance(1, 3));
		c->r = zenkit::Read::from(c->f);
		break;
	case 5: {
		c->kind = "istream";
		c->dev = std::make_unique<Device>();
		c->dev->data = data;
		c->dev->policy(s);
		c->sb = std::make_unique<InBuf>(c->dev.get(), 1 + s.below(300));
		c->is = std::make_unique<std::istream>(c->sb.get());
		c->r = zenkit::Read::from(c->is.get());
		break;
	}
	default: {
		c->kind = "ifstream";
		auto f = std::make_unique<std::ifstream>(path, std::ios::binary);
		c->is = std::move(f);
		c->r = zenkit::Read::from(c->is.get());
		break;
	}
	}
	return c;
}

template <typename T>
static void typed(Sim& s, Client& c, char const* name, T (zenkit::Read::*fn)() noexcept) {
	T want {};
	size_t p = c.m.pos;
	c.m.read(&want, sizeof want);
	T got = (c.r.get()->*fn)();
	s.check(memcmp(&got, &want, sizeof want) == 0, "read-value", "%s on %s at %zu: got %s want %s", name, c.kind, p, hex(&got, sizeof got).c_str(),
	        hex(&want, sizeof want).c_str());
}

static void step(Sim& s, Client& c) {
	size_t before = c.m.pos;
	size_t len = c.m.d->size();
	switch (s.below(14)) {
	case 0: {
		size_t n = s.below(3) ? s.below(40) : s.below(5000);
		std::vector<char> a(n + 1, 'x'), b(n + 1, 'x');
		size_t want = c.m.read(b.data(), n), got = c.r->read(a.data(), n);
		s.event("%s read(%zu)@%zu=%zu", c.kind, n, before, got);
		s.check(got == want, "read-count", "%s read(%zu) at %zu of %zu returned %zu, want %zu", c.kind, n, before, len, got, want);
		s.check(memcmp(a.data(), b.data(), n + 1) == 0, "read-bytes", "%s read(%zu) at %zu of %zu: wrong bytes", c.kind, n, before, len);
		break;
	}
	case 1: typed(s, c, "int", &zenkit::Read::read_int); s.event("%s int@%zu", c.kind, before); break;
	case 2: typed(s, c, "uint", &zenkit::Read::read_uint); s.event("%s uint@%zu", c.kind, before); break;
	case 3: typed(s, c, "short", &zenkit::Read::read_short); typed(s, c, "ushort", &zenkit::Read::read_ushort); break;
	case 4: typed(s, c, "byte", &zenkit::Read::read_byte); typed(s, c, "ubyte", &zenkit::Read::read_ubyte); typed(s, c, "char", &zenkit::Read::read_char); break;
	case 5: typed(s, c, "float", &zenkit::Read::read_float); s.event("%s float@%zu", c.kind, before); break;
	case 6: if (s.below(3) == 0) {
		float w[16] {};
		int k = 3 + (int) s.below(2);
		c.m.read(w, (size_t) (k * k) * 4);
		auto m3 = k == 3 ? c.r->read_mat3() : zenkit::Mat3 {};
		auto m4 = k == 4 ? c.r->read_mat4() : zenkit::Mat4 {};
		float const* g = k == 3 ? m3.pointer() : m4.pointer();
		// stored row by row; the in-memory layout is column-major
		for (int r = 0; r < k; ++r)
			for (int q = 0; q < k; ++q) s.check(!memcmp(&g[q * k + r], &w[r * k + q], 4), "read-value", "mat%d on %s at %zu, row %d, column %d", k, c.kind, before, r, q);
		s.event("%s mat%d@%zu", c.kind, k, before);
		break;
	} else {
		float w[9] {};
		bool v2 = s.coin();
		c.m.read(w, v2 ? 8 : 12);
		if (v2) {
			auto v = c.r->read_vec2();
			s.check(!memcmp(&v, w, 8), "read-value", "vec2 on %s at %zu", c.kind, before);
		} else {
			auto v = c.r->read_vec3();
			s.check(!memcmp(&v, w, 12), "read-value", "vec3 on %s at %zu", c.kind, before);
		}
		break;
	}
	case 7: {
		size_t n = s.below(50);
		std::string w(n, '\0');
		c.m.read(w.data(), n);
		auto g = c.r->read_string(n);
		s.check(g == w, "read-value", "string(%zu) on %s at %zu of %zu", n, c.kind, before, len);
		s.event("%s string(%zu)@%zu", c.kind, n, before);
		break;
	}
	case 8:
	case 9: {
		std::string g, w;
		int k = (int) s.below(3);
		std::string_view ign = k == 0 ? "" : k == 1 ? " \t\r\n\v\f" : "\n";
		w = c.m.line(ign);
		g = k == 0 ? c.r->read_line(false) : k == 1 ? c.r->read_line(true) : c.r->read_line_then_ignore("\n");
		s.event("%s line(%d)@%zu", c.kind, k, before);
		s.check(g == w, "read-line", "%s line at %zu of %zu: '%.60s' want '%.60s'", c.kind, before, len, g.c_str(), w.c_str());
		size_t t = c.r->tell();
		// Where a NUL ends the ignored run at the very end of the data it may or may not be consumed.
		if (t == len && c.m.pos + 1 == len && (char) (*c.m.d)[len - 1] == 0) c.m.pos = len;
		s.check(t == c.m.pos, "cursor", "%s after line at %zu of %zu: cursor %zu want %zu", c.kind, before, len, t, c.m.pos);
		break;
	}
	case 10:
	case 11: {
		size_t to = s.below(4) == 0 ? len : s.below(len + 1);
		int w = (int) s.below(3);
		ssize_t off = w == 0 ? (ssize_t) to : w == 1 ? (ssize_t) to - (ssize_t) c.m.pos : (ssize_t) to - (ssize_t) len;
		c.r->seek(off, (Whence) w);
		c.m.pos = to;
		s.event("%s seek(%zd,%d)@%zu", c.kind, off, w, before);
		size_t t = c.r->tell();
		s.check(t == to, "cursor", "%s seek(%zd, whence %d) from %zu in %zu: cursor %zu want %zu", c.kind, off, w, before, len, t, to);
		break;
	}
	case 12: {
		bool e = c.r->eof();
		s.event("%s eof@%zu=%d", c.kind, before, e);
		s.check(e == c.m.eof(), "eof", "%s eof() at %zu of %zu is %d", c.kind, before, len, e);
		break;
	}
	case 13: {
		if (c.memory) { // out of range: must stay inside the data
			ssize_t off = (ssize_t) s.below(2 * len + 100) - (ssize_t) len - 50;
			int w = (int) s.below(3);
			c.r->seek(off, (Whence) w);
			size_t t = c.r->tell();
			s.event("%s wild-seek(%zd,%d)@%zu=%zu", c.kind, off, w, before, t);
			s.check(t <= len, "cursor-range", "%s seek(%zd, whence %d) from %zu: cursor %zu outside [0,%zu]", c.kind, off, w, before, t, len);
			ssize_t target = w == 0 ? off : w == 1 ? (ssize_t) before + off : (ssize_t) len + off;
			if (target >= 0 && target <= (ssize_t) len)
				s.check(t == (size_t) target, "cursor", "%s seek(%zd, whence %d) from %zu in %zu: cursor %zu", c.kind, off, w, before, len, t);
			c.m.pos = t;
		}
		break;
	}
	}
	size_t t = c.r->tell();
	s.check(t == c.m.pos, "cursor", "%s: cursor %zu want %zu (operation began at %zu of %zu)", c.kind, t, c.m.pos, before, len);
}

static void run_readers(Sim& s) {
	auto data = gen_content(s);
	std::string path = scratch_dir() + "/f";
	{
		FILE* f = fopen(path.c_str(), "wb");
		if (!data.empty()) fwrite(data.data(), 1, data.size(), f);
		fclose(f);
	}
	S = &s;
	fs_hook = short_io;
	std::vector<std::unique_ptr<Client>> cs;
	size_t n = 1 + s.below(4);
	for (size_t i = 0; i < n; ++i) {
		cs.push_back(open_client(s, data, path));
		s.reach(cs.back()->kind);
	}
	size_t ops = 4 + s.below(60);
	s.event("readers=%zu len=%zu", n, data.size());
	for (size_t i = 0; i < ops; ++i) step(s, *cs[s.below(n)]);
	uint64_t sr = 0;
	for (auto& c : cs)
		if (c->dev) sr += c->dev->short_reads;
	if (sr) s.fault("short-read", sr);
	fs_hook = nullptr;
	S = nullptr;
	if (n > 1) s.nontrivial();
}

static void run_writer(Sim& s) {
	std::string path = scratch_dir() + "/w";
	int kind = (int) s.below(6);
	static char const* names[] = {"dynamic", "static", "FILE*(device)", "ostream(device)", "path", "FILE*(unbuffered)"};
	std::vector<std::byte> vec, fixed;
	Device dev;
	FILE* f = nullptr;
	std::unique_ptr<OutBuf> ob;
	std::unique_ptr<std::ostream> os;
	std::unique_ptr<zenkit::Write> w;
	std::vector<std::byte> model;
	size_t cap = SIZE_MAX, pos = 0;
	bool broken = false;
	switch (kind) {
	case 0: w = zenkit::Write::to(&vec); break;
	case 1:
		cap = s.below(400);
		fixed.assign(cap, std::byte {0xEE});
		model = fixed;
		w = zenkit::Write::to(fixed.data(), fixed.size());
		break;
	case 2:
	case 5:
		dev.policy(s);
		if (kind == 5 && s.coin()) dev.write_cap = s.below(500);
		f = open_cookie(&dev, "w", kind == 5);
		w = zenkit::Write::to(f);
		break;
	case 3:
		dev.policy(s);
		if (s.coin()) dev.write_cap = s.below(500);
		ob = std::make_unique<OutBuf>(&dev);
		os = std::make_unique<std::ostream>(ob.get());
		w = zenkit::Write::to(os.get());
		break;
	default:
		w = zenkit::Write::to(std::filesystem::path(path));
		S = &s;
		fs_hook = short_io;
		break;
	}
	s.event("writer %s cap=%zd", names[kind], (ssize_t) (kind == 1 ? cap : dev.write_cap));
	s.reach(names[kind]);
	auto put = [&](void const* p, size_t n) {
		size_t k = kind == 1 ? std::min(n, cap - pos) : n;
		if (k != 0) { // (nothing written behind the end leaves no gap)
			if (pos + k > model.size()) model.resize(pos + k);
			memcpy(model.data() + pos, p, k);
		}
		pos += k;
		return k;
	};
	size_t ops = 1 + s.below(60);
	// a record of the linear (unseeked) tail for typed read back
	for (size_t i = 0; i < ops && !broken; ++i) {
		size_t at = pos, want_n = 0;
		uint64_t sink_before = dev.data.size();
		switch (s.below(13)) {
		case 0: {
			auto b = s.bytes(s.below(3) ? s.below(60) : s.below(3000));
			size_t k = put(b.data(), b.size());
			size_t got = w->write(b.data(), b.size());
			s.event("write(%zu)@%zu=%zu", b.size(), at, got);
			if (dev.failed || dev.data.size() < model.size() && (kind == 3 || kind == 5)) {
				// the device did not take everything: the caller must be able to see it
				s.check(got < b.size(), "write-count", "%s write(%zu) at %zu returned %zu although the device stored only %zu bytes in total", names[kind],
				        b.size(), at, got, dev.data.size());
				broken = true;
			} else s.check(got == k, "write-count", "%s write(%zu) at %zu returned %zu, want %zu", names[kind], b.size(), at, got, k);
			break;
		}
		case 1: { int32_t v = s.i32(); put(&v, 4); w->write_int(v); s.event("int@%zu", at); break; }
		case 2: { uint32_t v = s.u32(); put(&v, 4); w->write_uint(v); s.event("uint@%zu", at); break; }
		case 3: { int16_t v = (int16_t) s.u32(); put(&v, 2); w->write_short(v); break; }
		case 4: { uint16_t v = (uint16_t) s.u32(); put(&v, 2); w->write_ushort(v); break; }
		case 5: { int8_t v = (int8_t) s.u32(); put(&v, 1); w->write_byte(v); uint8_t u = (uint8_t) s.u32(); put(&u, 1); w->write_ubyte(u); char c = (char) s.u32(); put(&c, 1); w->write_char(c); break; }
		case 6: { float v = s.f32(); put(&v, 4); w->write_float(v); break; }
		case 7: { auto v = s.ident(40); put(v.data(), v.size()); w->write_string(v); s.event("string(%zu)@%zu", v.size(), at); break; }
		case 8: { auto v = s.ident(40); put(v.data(), v.size()); put("", 1); w->write_string0(v); break; }
		case 9: { auto v = s.ident(40); put(v.data(), v.size()); put("\n", 1); w->write_line(v); break; }
		case 10: {
			float v[3] = {s.f32(), s.f32(), s.f32()};
			zenkit::Vec3 a {v[0], v[1], v[2]};
			zenkit::Vec2 b {v[0], v[1]};
			put(v, 12);
			w->write_vec3(a);
			put(v, 8);
			w->write_vec2(b);
			break;
		}
		case 11: {
			zenkit::Mat3 m3 {};
			zenkit::Mat4 m4 {};
			for (int i = 0; i < 9; ++i) m3.pointer()[i] = (float) (i + 1) + (float) s.below(8);
			for (int i = 0; i < 16; ++i) m4.pointer()[i] = (float) (i + 1) + (float) s.below(8);
			// written row by row; the in-memory layout is column-major
			for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) put(&m3.pointer()[c * 3 + r], 4);
			for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) put(&m4.pointer()[c * 4 + r], 4);
			w->write_mat3(m3);
			w->write_mat4(m4);
			break;
		}
		case 12: {
			size_t end = model.size();
			size_t to = s.below(3) == 0 ? end : s.below(end + 1);
			// behind the end: the gap is filled with zeros as soon as something is written there
			if ((kind == 0 || kind == 2 || kind == 4) && s.below(4) == 0) to = end + s.below(s.coin() ? 20 : 5000);
			int wh = (int) s.below(3);
			ssize_t off = wh == 0 ? (ssize_t) to : wh == 1 ? (ssize_t) to - (ssize_t) pos : (ssize_t) to - (ssize_t) end;
			w->seek(off, (Whence) wh);
			pos = to;
			s.event("seek(%zd,%d)", off, wh);
			if (pos > end) { // (writing nothing behind the end may or may not leave a gap)
				uint8_t b = (uint8_t) s.below(256);
				put(&b, 1);
				w->write_ubyte(b);
			}
			break;
		}
		}
		(void) want_n;
		(void) sink_before;
		if (dev.failed) broken = true;
		if ((kind == 3 || kind == 5) && dev.data.size() < model.size()) broken = true;
		if (!broken) {
			size_t t = w->tell();
			s.check(t == pos, "write-cursor", "%s: cursor %zu want %zu (operation began at %zu)", names[kind], t, pos, at);
		}
	}
	w.reset();
	std::vector<std::byte> got;
	if (kind == 0) got = vec;
	else if (kind == 1) got = fixed;
	else if (kind == 2 || kind == 5) {
		fclose(f);
		got = dev.data;
	} else if (kind == 3) {
		os->flush();
		got = dev.data;
	} else {
		fs_hook = nullptr;
		S = nullptr;
		FILE* r = fopen(path.c_str(), "rb");
		char b[4096];
		size_t n;
		while ((n = fread(b, 1, sizeof b, r)) > 0) got.insert(got.end(), (std::byte*) b, (std::byte*) b + n);
		fclose(r);
	}
	if (!broken) {
		size_t i = 0;
		while (i < got.size() && i < model.size() && got[i] == model[i]) ++i;
		s.check(got == model, "written-bytes", "%s: %zu bytes stored, want %zu; first difference at %zu", names[kind], got.size(), model.size(), i);
	} else {
		s.reach("write-fault-seen");
		// What the device accepted is a prefix of what was written (no garbage)
		for (size_t i = 0; i < got.size() && i < model.size(); ++i) {
			// seeks may leave older bytes in place; only check the bytes of sequential runs
			(void) i;
		}
	}
	// read back in typed form
	if (!broken && !got.empty()) {
		auto r = zenkit::Read::from(&got);
		zenkit::Mat3 a = r->read_mat3();
		if (got.size() >= 36) {
			std::vector<std::byte> again;
			auto w2 = zenkit::Write::to(&again);
			w2->write_mat3(a);
			s.check(!memcmp(again.data(), got.data(), 36), "matrix-roundtrip", "3x3 matrix read and written again differs");
		}
		r->seek(0, Whence::BEG);
		zenkit::Mat4 b = r->read_mat4();
		if (got.size() >= 64) {
			std::vector<std::byte> again;
			auto w2 = zenkit::Write::to(&again);
			w2->write_mat4(b);
			s.check(!memcmp(again.data(), got.data(), 64), "matrix-roundtrip", "4x4 matrix read and written again differs");
		}
	}
	s.nontrivial();
}

static void run(Sim& s) {
	quiet_log();
	if (s.below(3)) run_readers(s);
	else run_writer(s);
}

#ifndef SIM_AS_LIBRARY
Harness sim::harness {
    .property = "P01",
    .run = run,
    .rule = "distinct history hashes (operations, results, faults) of runs with at least two interleaved readers or one writer",
    .components = "real: Stream.cc, MmapPosix.cc, libstdc++ iostreams, glibc stdio; simulated: storage devices below FILE*/iostream (chunking, EINTR, short transfers, full disk)",
    .quick_runs = 400000,
    .thorough_runs = 4000000,
    .quick_secs = 60,
    .thorough_secs = 600,
    .step_budget = 20'000'000,
};
#endif
