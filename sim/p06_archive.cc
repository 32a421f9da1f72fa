// P06: what is written to an archive (any format, any stream, at any time of day, several archives at once) is read back:
// values, nesting, references, header; probing and skipping do not lose the position.
#include "core.hh"
#include "endpoints.hh"
#include "seam.hh"
#include <cmath>
#include <deque>
#include <optional>
#include <zenkit/Archive.hh>
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>

using namespace sim;
using zenkit::ArchiveFormat;

enum T { STRING, INT, FLOAT, BYTE, WORD, ENUM, BOOL, COLOR, VEC3, VEC2, BBOX, MAT3, RAW, RAWFLOAT, NTYPES };
static char const* const TN[] = {"string", "int", "float", "byte", "word", "enum", "bool", "color", "vec3", "vec2", "bbox", "mat3", "raw", "rawFloat"};

struct Item {
	enum K { ENTRY, BEGIN, END, REF, HEADER } k;
	T t {};
	std::string name, cls, str;
	int64_t i = 0;
	float f[10] {};
	int nf = 0;
	std::vector<std::byte> raw;
	uint16_t version = 0;
	bool anonymous = false; // BEGIN: written with an empty class name
	uint32_t index = 0;
	size_t match = 0; // BEGIN: position of its END
};

static std::string name(Sim& s) {
	static char const* const common[] = {"pack", "presetName", "bbox3DWS", "trafoOSToWSRot", "a", "visual", "%", "numChildren", "Visual", "visualAniModeStrengthOfTheWholeTree", "visualAniModeStrengthOfTheWholeTree2"};
	if (s.below(3)) return common[s.below(s.below(4) == 3 ? 11 : 8)];
	return s.ident(s.below(20) ? 12 : 100);
}
static std::string text(Sim& s, ArchiveFormat f) {
	static char const* const nasty[] = {"", "[]", "[a b 0 1]", "x=y", "int:5", "string:", " ", "  lead", "trail  ", "a b c", "[", "\xA7", "\xC4\xD6\xDC\xDF", "\t", "%s%n", "="};
	if (s.below(3) == 0) return nasty[s.below(16)];
	size_t n = s.below(8) ? s.below(40) : s.below(3000);
	std::string r;
	for (size_t i = 0; i < n; ++i) {
		char c = (char) (1 + s.below(255));
		if (f == ArchiveFormat::BINSAFE) {
			if (s.below(50) == 0) c = 0;
		} else if (c == '\n' || c == '\r') c = ' ';
		r.push_back(c);
	}
	return r;
}

static void gen_items(Sim& s, ArchiveFormat f, std::vector<Item>& out, int depth, size_t& budget, uint32_t& next, bool large = false) {
	size_t n = large && depth == 0 ? ~size_t {0} : s.below(8);
	for (size_t q = 0; q < n && budget; ++q) {
		--budget;
		unsigned k = (unsigned) s.below(20);
		if (k < 4 && depth < 5) {
			Item b {Item::BEGIN};
			b.name = name(s);
			static char const* const cls[] = {"zCVob", "oCItem:zCVob", "%", "oCNpcTalent", "Weird:Class", "zCCSBlock"};
			b.cls = s.below(5) ? cls[s.below(6)] : s.ident(s.below(3) ? 20 : 120);
			if (s.below(30) == 0) b.cls = "%", b.anonymous = true;
			if (s.below(25) == 0) b.anonymous = false, b.name = std::string(127 - s.below(4), 'n'), b.cls = std::string(127 - s.below(4), 'C');
			b.version = (uint16_t) s.u32();
			b.index = b.cls == "%" ? 0 : next++;
			size_t at = out.size();
			out.push_back(b);
			gen_items(s, f, out, depth + 1, budget, next, large);
			out[at].match = out.size();
			Item e {Item::END};
			out.push_back(e);
		} else if (k == 4 && next) {
			Item r {Item::REF};
			r.name = name(s);
			r.index = (uint32_t) s.below(next);
			if (s.below(10) == 0) r.index = (uint32_t) s.below(1u << 31);
			out.push_back(r);
		} else if (k == 5 && (!large || s.below(200) == 0)) {
			out.push_back(Item {Item::HEADER});
		} else {
			Item e {Item::ENTRY};
			e.t = (T) s.below(NTYPES);
			e.name = name(s);
			switch (e.t) {
			case STRING: e.str = text(s, f); break;
			case INT: e.i = s.i32(); break;
			case BYTE: e.i = (uint8_t) s.u32(); break;
			case WORD: e.i = (uint16_t) s.u32(); break;
			case ENUM: e.i = f == ArchiveFormat::BINARY ? (uint8_t) s.u32() : s.u32(); break;
			case BOOL: e.i = s.coin(); break;
			case COLOR: e.i = s.u32(); break;
			case FLOAT: e.nf = 1; break;
			case VEC3: e.nf = 3; break;
			case VEC2: e.nf = 2; break;
			case BBOX: e.nf = 6; break;
			case MAT3: e.nf = 9; break;
			case RAWFLOAT: e.nf = f == ArchiveFormat::BINARY ? (s.coin() ? 2 : 6) : (int) (2 + s.below(9)); break;
			case RAW: e.raw = s.bytes(s.below(10) ? s.below(60) : s.below(20) ? s.below(2000) : 65535); break;
			default: break;
			}
			for (int j = 0; j < e.nf; ++j) e.f[j] = s.f32();
			out.push_back(e);
		}
	}
}

static void write_item(zenkit::WriteArchive& w, Item const& it, Sim& s) {
	// names are handed over as views into a larger buffer (no terminator behind them)
	std::string nb = it.name + "#junk", cb = it.cls + "#junk";
	std::string_view nm {nb.data(), it.name.size()}, cl {cb.data(), it.anonymous ? 0 : it.cls.size()};
	switch (it.k) {
	case Item::BEGIN: {
		uint32_t ix = w.write_object_begin(nm, cl, it.version);
		s.check(ix == it.index, "object-index", "write_object_begin returned index %u, the %u-th object", ix, it.index);
		break;
	}
	case Item::END: w.write_object_end(); break;
	case Item::REF: w.write_ref(nm, it.index); break;
	case Item::HEADER: w.write_header(); break;
	case Item::ENTRY:
		switch (it.t) {
		case STRING: w.write_string(nm, it.str); break;
		case INT: w.write_int(nm, (int32_t) it.i); break;
		case FLOAT: w.write_float(nm, it.f[0]); break;
		case BYTE: w.write_byte(nm, (uint8_t) it.i); break;
		case WORD: w.write_word(nm, (uint16_t) it.i); break;
		case ENUM: w.write_enum(nm, (uint32_t) it.i); break;
		case BOOL: w.write_bool(nm, it.i != 0); break;
		case COLOR: w.write_color(nm, zenkit::Color((uint8_t) it.i, (uint8_t) (it.i >> 8), (uint8_t) (it.i >> 16), (uint8_t) (it.i >> 24))); break;
		case VEC3: w.write_vec3(nm, {it.f[0], it.f[1], it.f[2]}); break;
		case VEC2: w.write_vec2(nm, {it.f[0], it.f[1]}); break;
		case BBOX: {
			zenkit::AxisAlignedBoundingBox b;
			b.min = {it.f[0], it.f[1], it.f[2]};
			b.max = {it.f[3], it.f[4], it.f[5]};
			w.write_bbox(nm, b);
			break;
		}
		case MAT3: {
			zenkit::Mat3 m {};
			for (int i = 0; i < 9; ++i) m[i / 3][i % 3] = it.f[i];
			w.write_mat3x3(nm, m);
			break;
		}
		case RAW: w.write_raw(nm, it.raw); break;
		case RAWFLOAT: w.write_raw_float(nm, it.f, (uint16_t) it.nf); break;
		default: break;
		}
	}
}

static void same(Sim& s, ArchiveFormat fmt, T t, float got, float want) {
	uint32_t a, b;
	memcpy(&a, &got, 4);
	memcpy(&b, &want, 4);
	if (a == b) return;
	if (fmt == ArchiveFormat::ASCII && t != MAT3) { // decimal text with six digits behind the point
		double tol = 5.1e-7 + std::fabs((double) want) * 1e-6;
		if (std::fabs((double) got - (double) want) <= tol) return;
	}
	s.fail("value", "%s: read %.9g, wrote %.9g", TN[t], (double) got, (double) want);
}

static void read_entry(Sim& s, ArchiveFormat fmt, zenkit::ReadArchive& r, Item const& it) {
	auto ints = [&](int64_t got, int64_t want) { s.check(got == want, "value", "%s '%s': read %lld, wrote %lld", TN[it.t], it.name.c_str(), (long long) got, (long long) want); };
	switch (it.t) {
	case STRING: {
		auto g = r.read_string();
		s.check(g == it.str, "value", "string: read %s (%zu), wrote %s (%zu)", hex(g.data(), g.size()).c_str(), g.size(), hex(it.str.data(), it.str.size()).c_str(), it.str.size());
		break;
	}
	case INT: ints(r.read_int(), (int32_t) it.i); break;
	case FLOAT: same(s, fmt, FLOAT, r.read_float(), it.f[0]); break;
	case BYTE: ints(r.read_byte(), it.i); break;
	case WORD: ints(r.read_word(), it.i); break;
	case ENUM: ints(r.read_enum(), (uint32_t) it.i); break;
	case BOOL: ints(r.read_bool(), it.i); break;
	case COLOR: {
		auto c = r.read_color();
		ints((int64_t) c.r | (int64_t) c.g << 8 | (int64_t) c.b << 16 | (int64_t) c.a << 24, (uint32_t) it.i);
		break;
	}
	case VEC3: {
		auto v = r.read_vec3();
		float g[] = {v.x, v.y, v.z};
		for (int i = 0; i < 3; ++i) same(s, fmt, it.t, g[i], it.f[i]);
		break;
	}
	case RAWFLOAT:
		if (it.nf >= 6 && (fmt == ArchiveFormat::BINARY || s.coin())) goto bbox;
		[[fallthrough]];
	case VEC2: {
		auto v = r.read_vec2();
		same(s, fmt, it.t, v.x, it.f[0]);
		same(s, fmt, it.t, v.y, it.f[1]);
		break;
	}
	bbox:
	case BBOX: {
		auto b = r.read_bbox();
		float g[] = {b.min.x, b.min.y, b.min.z, b.max.x, b.max.y, b.max.z};
		for (int i = 0; i < 6; ++i) same(s, fmt, it.t, g[i], it.f[i]);
		break;
	}
	case MAT3: {
		auto m = r.read_mat3x3();
		for (int i = 0; i < 9; ++i) same(s, fmt, it.t, m[i / 3][i % 3], it.f[i]);
		break;
	}
	case RAW: {
		size_t k = it.raw.size();
		if (fmt != ArchiveFormat::BINARY && s.below(4) == 0) k = s.below(k + 1);
		auto rd = r.read_raw(k);
		std::vector<std::byte> g(k);
		s.check(rd->read(g.data(), k) == k && std::equal(g.begin(), g.end(), it.raw.begin()), "value", "raw: %zu bytes read back differ", k);
		break;
	}
	default: break;
	}
}

/// Reads an entry of another type than the one that is there.
static bool read_wrong(Sim& s, zenkit::ReadArchive& r, Item const& it, ArchiveFormat fmt) {
	auto cls = [&](T t) -> int {
		if (t == VEC2 || t == BBOX || t == RAWFLOAT) return 100;
		if (t == MAT3 || t == RAW) return 101;
		if (fmt == ArchiveFormat::ASCII && (t == INT || t == BYTE || t == WORD)) return 102;
		return t;
	};
	T t = (T) s.below(NTYPES);
	if (cls(t) == cls(it.t)) return false;
	s.event("read %s where %s is", TN[t], TN[it.t]);
	try {
		switch (t) {
		case STRING: (void) r.read_string(); break;
		case INT: (void) r.read_int(); break;
		case FLOAT: (void) r.read_float(); break;
		case BYTE: (void) r.read_byte(); break;
		case WORD: (void) r.read_word(); break;
		case ENUM: (void) r.read_enum(); break;
		case BOOL: (void) r.read_bool(); break;
		case COLOR: (void) r.read_color(); break;
		case VEC3: (void) r.read_vec3(); break;
		case VEC2:
		case RAWFLOAT: (void) r.read_vec2(); break;
		case BBOX: (void) r.read_bbox(); break;
		case MAT3: (void) r.read_mat3x3(); break;
		case RAW: (void) r.read_raw(0); break;
		default: break;
		}
	} catch (zenkit::ParserError const&) {
		s.reach("type-mismatch-reported");
		return true;
	}
	s.fail("type-mismatch", "reading a %s entry as %s was not reported", TN[it.t], TN[t]);
}

struct Doc {
	ArchiveFormat fmt;
	bool save = false;
	std::vector<Item> items;
	uint32_t objects = 0;
	std::unique_ptr<Sink> sink;
	std::unique_ptr<zenkit::WriteArchive> w;
	size_t at = 0, prefix = 0;
	std::string user, date;
	std::vector<std::byte> data;
};

/// Decodes the file without the library: the header, the object count and the name and type of every entry are there.
static void check_file(Sim& s, Doc& d) {
	auto const* p = (unsigned char const*) d.data.data() + d.prefix;
	size_t n = d.data.size() - d.prefix, at = 0;
	auto need = [&](size_t k) { s.check(k <= n - at, "file", "the file ends at %zu, in the middle of an item", n); };
	auto line = [&] {
		auto* e = (unsigned char const*) memchr(p + at, '\n', n - at);
		s.check(e != nullptr, "file", "the file ends at %zu, in the middle of a line", n);
		std::string r((char const*) p + at, (size_t) (e - p) - at);
		at = (size_t) (e - p) + 1;
		return r;
	};
	auto expect = [&](std::string const& want) {
		auto got = line();
		s.check(got == want, "file", "the file has the line '%s' instead of '%s'", got.c_str(), want.c_str());
	};
	auto u16 = [&] { need(2); at += 2; return (unsigned) (p[at - 2] | p[at - 1] << 8); };
	auto u32 = [&] { unsigned lo = u16(); return lo | u16() << 16; };
	expect("ZenGin Archive");
	expect("ver 1");
	expect(d.fmt == ArchiveFormat::BINSAFE ? "zCArchiverBinSafe" : "zCArchiverGeneric");
	expect(d.fmt == ArchiveFormat::BINSAFE ? "BIN_SAFE" : d.fmt == ArchiveFormat::BINARY ? "BINARY" : "ASCII");
	expect(d.save ? "saveGame 1" : "saveGame 0");
	expect("date " + d.date);
	expect("user " + d.user);
	expect("END");
	std::vector<std::string> keys;
	if (d.fmt == ArchiveFormat::BINSAFE) {
		s.check(u32() == 2, "file", "BIN_SAFE version is not 2");
		unsigned cnt = u32();
		s.check(cnt == d.objects, "file-count", "the header counts %u objects, %u were written", cnt, d.objects);
		size_t table = u32();
		s.check(table >= d.prefix && table - d.prefix <= n, "file", "the key table lies outside the file");
		size_t body = at;
		at = table - d.prefix;
		unsigned nk = u32();
		for (unsigned i = 0; i < nk; ++i) {
			unsigned len = u16(), ix = u16(), hash = u32();
			need(len);
			std::string key((char const*) p + at, len);
			at += len;
			if (ix >= keys.size()) keys.resize(ix + 1);
			keys[ix] = key;
			unsigned h = 0;
			for (unsigned char c : key) h = h * 33 + c;
			s.check(hash == h % 97, "file-key", "key '%s' has hash %u, not %u", key.c_str(), hash, h % 97);
		}
		at = body;
	} else {
		auto l = line();
		unsigned cnt = 0;
		s.check(sscanf(l.c_str(), "objects %u", &cnt) == 1 && cnt == d.objects, "file-count", "the header says '%s', %u objects were written", l.c_str(), d.objects);
		expect("END");
		expect("");
		if (d.fmt == ArchiveFormat::BINARY) return;
	}
	static char const* const AT[] = {"string", "int", "float", "int", "int", "enum", "bool", "color", "vec3", "rawFloat", "rawFloat", "raw", "raw", "rawFloat"};
	static unsigned const BT[] = {1, 2, 3, 4, 5, 17, 6, 8, 7, 16, 16, 9, 9, 16};
	for (auto& it : d.items) {
		if (it.k == Item::HEADER) continue;
		if (d.fmt == ArchiveFormat::ASCII) {
			auto l = line();
			l.erase(0, l.find_first_not_of('\t'));
			if (it.k == Item::ENTRY) {
				auto pre = it.name + "=" + AT[it.t] + ":";
				s.check(l.compare(0, pre.size(), pre) == 0, "file-name", "the file has '%s' where '%s' should be", l.substr(0, 200).c_str(), pre.c_str());
			} else if (it.k == Item::REF) line();
			continue;
		}
		need(1);
		unsigned t = p[at++];
		if (it.k != Item::ENTRY) {
			s.check(t == 1, "file", "an object bracket is stored as type %u", t);
			unsigned len = u16();
			need(len), at += len;
			if (it.k == Item::REF) {
				need(1), ++at;
				len = u16();
				need(len), at += len;
			}
			continue;
		}
		s.check(t == 18, "file", "an entry is introduced by %u", t);
		unsigned ix = u32();
		s.check(ix < keys.size() && keys[ix] == it.name, "file-name", "entry '%s' is stored as '%s'", it.name.c_str(), ix < keys.size() ? keys[ix].c_str() : "?");
		need(1);
		t = p[at++];
		s.check(t == BT[it.t], "file-type", "%s entry '%s' is stored as type %u", TN[it.t], it.name.c_str(), t);
		size_t len = t == 4 ? 1 : t == 5 ? 2 : t == 7 ? 12 : t == 1 || t == 9 || t == 16 ? u16() : 4;
		need(len), at += len;
	}
}

static void read_back(Sim& s, Doc& d) {
	Source src(s, d.data);
	auto* rd = src.get();
	rd->seek((ssize_t) d.prefix, zenkit::Whence::BEG);
	s.event("read %s archive through %s", d.fmt == ArchiveFormat::ASCII ? "ASCII" : d.fmt == ArchiveFormat::BINARY ? "BINARY" : "BIN_SAFE", src.kind());
	auto r = zenkit::ReadArchive::from(rd);
	auto& h = r->get_header();
	s.check(h.format == d.fmt, "header", "archive format read back as %d", (int) h.format);
	s.check(r->is_save_game() == d.save, "header", "save-game flag read back as %d", r->is_save_game());
	s.check(h.user == d.user, "header", "user read back as '%s', want '%s'", h.user.c_str(), d.user.c_str());
	s.check(h.date == d.date, "header", "date read back as '%s', want '%s'", h.date.c_str(), d.date.c_str());
	bool self = d.fmt != ArchiveFormat::BINARY; // formats that can tell entries from objects
	unsigned probe = (unsigned) s.below(3);
	for (size_t i = 0; i < d.items.size(); ++i) {
		auto& it = d.items[i];
		if (it.k == Item::HEADER) continue;
		if (probe && s.below(6) == 0) {
			zenkit::ArchiveObject o;
			size_t p = rd->tell();
			if (self && it.k != Item::BEGIN && it.k != Item::REF) {
				s.check(!r->read_object_begin(o), "probe", "read_object_begin succeeded in front of %s", it.k == Item::END ? "an object end" : TN[it.t]);
				s.check(rd->tell() == p, "probe-moved", "a failed read_object_begin moved the position %zu -> %zu", p, rd->tell());
			}
			// (an empty raw entry takes no space in a BINARY archive)
			if (it.k != Item::END && (self || it.k != Item::ENTRY || it.t != RAW || !it.raw.empty())) {
				s.check(!r->read_object_end(), "probe", "read_object_end succeeded in front of something else");
				s.check(rd->tell() == p, "probe-moved", "a failed read_object_end moved the position %zu -> %zu", p, rd->tell());
			}
		}
		switch (it.k) {
		case Item::ENTRY:
			if (self && s.below(60) == 0 && read_wrong(s, *r, it, d.fmt)) return;
			read_entry(s, d.fmt, *r, it);
			break;
		case Item::REF:
		case Item::BEGIN: {
			if (it.k == Item::BEGIN && s.below(8) == 0) {
				s.event("skip object %s", it.name.c_str());
				r->skip_object(false);
				i = it.match;
				s.reach("skip-next");
				break;
			}
			zenkit::ArchiveObject o;
			s.check(r->read_object_begin(o), "object", "no object found where '%s' (%s) was written", it.name.c_str(), it.cls.c_str());
			std::string cls = it.k == Item::REF ? "\xA7" : it.cls;
			s.check((o.class_name == cls || (it.anonymous && o.class_name.empty())) && o.object_name == it.name && o.version == (it.k == Item::REF ? 0 : it.version) && o.index == it.index, "object",
			        "object read back as [%s %s %u %u], wrote [%s %s %u %u]", o.object_name.c_str(), o.class_name.c_str(), o.version, o.index, it.name.c_str(), cls.c_str(), it.version, it.index);
			if (it.k == Item::REF) s.check(r->read_object_end(), "object", "a reference does not end where it should");
			break;
		}
		case Item::END:
			s.check(r->read_object_end(), "object", "the object does not end where it was ended");
			break;
		default: break;
		}
		// leave the current object early
		if (it.k != Item::END && s.below(25) == 0) {
			// find the enclosing object
			size_t e = i + 1;
			int lvl = 1;
			if (it.k == Item::BEGIN && i == it.match) lvl = 1;
			while (e < d.items.size() && lvl) {
				if (d.items[e].k == Item::BEGIN) ++lvl;
				if (d.items[e].k == Item::END) --lvl;
				++e;
			}
			if (lvl == 0) {
				s.event("skip rest of object");
				r->skip_object(true);
				i = e - 1;
				s.reach("skip-current");
			}
		}
	}
}

/// The lines with the date and the user are optional, other programs leave them out.
static void strip(Sim& s, Doc& d) {
	auto cut = [&](std::string const& line) {
		auto b = d.data.begin() + (long) d.prefix;
		auto it = std::search(b, d.data.end(), (std::byte const*) line.data(), (std::byte const*) line.data() + line.size());
		if (it == d.data.end()) return;
		if (d.fmt == ArchiveFormat::BINSAFE) {
			static char const end[] = "\nEND\n";
			auto e = std::search(it, d.data.end(), (std::byte const*) end, (std::byte const*) end + 5) + 5 + 8;
			uint32_t v;
			memcpy(&v, &*e, 4);
			v -= (uint32_t) line.size();
			memcpy(&*e, &v, 4);
		}
		d.data.erase(it, it + (long) line.size());
	};
	int what = 1 + (int) s.below(3);
	if (what & 1) cut("date " + d.date + "\n"), d.date.clear();
	if (what & 2) cut("user " + d.user + "\n"), d.user.clear();
	s.event("header lines left out: %d", what);
	s.reach("short header");
}

static void run(Sim& s) {
	quiet_log();
	alloc_cap = 256ull << 20;
	char const* tz = set_zone(s);
	s.clock = 1'700'000'000 + (int64_t) s.below(400'000'000);
	if (s.coin()) s.clock = s.clock / 86400 * 86400 - 1; // just before midnight
	std::string user;
	set_env("USERNAME", nullptr);
	switch (s.below(6)) {
	case 0: set_env("USER", nullptr); user = "Anonymous"; break;
	case 1: set_env("USER", nullptr); set_env("USERNAME", "Winnie"); user = "Winnie"; break;
	case 2: user = ""; set_env("USER", ""); break;
	case 3: user = "Max Mustermann"; set_env("USER", user.c_str()); break;
	default: user = "u"; set_env("USER", "u"); break;
	}
	if (thread_id >= 0) user = "sim";
	s.event("tz=%s user='%s'", tz, user.c_str());

	std::deque<Doc> docs(1 + s.below(3));
	for (auto& d : docs) {
		static ArchiveFormat const F[] = {ArchiveFormat::ASCII, ArchiveFormat::BINARY, ArchiveFormat::BINSAFE};
		d.fmt = F[s.below(3)];
		d.save = s.coin();
		size_t budget = 1 + s.below(60);
		bool large = s.below(600) == 599;
		if (large) budget = s.below(40) != 39 ? 100 + s.below(4000) : 80'000 + s.below(40'000), s.reach(budget > 10'000 ? "huge-archive" : "large-archive");
		if (thread_id < 0 && s.below(600) == 599) {
			// objects of more than a megabyte
			uint8_t x = (uint8_t) s.u32();
			size_t blobs = d.fmt == ArchiveFormat::ASCII ? 2 : 16 + s.below(20);
			for (int i = 0; i < 2; ++i) d.items.push_back({Item::BEGIN}), d.items.back().name = name(s), d.items.back().cls = "zCVob", d.items.back().index = d.objects++;
			for (size_t i = 0; i < blobs; ++i) {
				d.items.push_back({Item::ENTRY});
				d.items.back().t = RAW, d.items.back().name = "blob", d.items.back().raw.resize(65535 - i);
				for (auto& c : d.items.back().raw) c = (std::byte) (x = (uint8_t) (x * 5 + 17));
			}
			for (int i = 0; i < 2; ++i) d.items[1 - i].match = d.items.size(), d.items.push_back({Item::END});
			s.reach("heavy object");
		}
		gen_items(s, d.fmt, d.items, 0, budget, d.objects, large);
	}
	// writing, interleaved, while the clock moves
	std::vector<size_t> open;
	for (size_t i = 0; i < docs.size(); ++i) open.push_back(i);
	bool jumps = s.coin();
	while (!open.empty()) {
		size_t k = s.below(open.size());
		auto& d = docs[open[k]];
		if (!d.w) {
			d.sink = std::make_unique<Sink>(s);
			if (s.below(4) == 0) {
				auto pre = s.bytes(1 + s.below(40));
				d.sink->get()->write(pre.data(), pre.size());
				d.prefix = pre.size();
			}
			time_t t = (time_t) s.clock;
			struct tm tm {};
			localtime_r(&t, &tm);
			char b[64];
			snprintf(b, sizeof b, "%d.%d.%d %02d:%02d:%02d", tm.tm_mday, tm.tm_mon + 1, tm.tm_year + 1900, tm.tm_hour, tm.tm_min, tm.tm_sec);
			d.date = b;
			d.user = user;
			d.w = d.save ? zenkit::WriteArchive::to_save(d.sink->get(), d.fmt) : zenkit::WriteArchive::to(d.sink->get(), d.fmt);
			s.event("doc %zu: open %s on %s at %s", open[k], d.fmt == ArchiveFormat::ASCII ? "ASCII" : d.fmt == ArchiveFormat::BINARY ? "BINARY" : "BIN_SAFE", d.sink->kind(), b);
		}
		size_t n = 1 + s.below(20);
		if (d.items.size() > 1000) n *= d.items.size() / 50;
		for (size_t q = 0; q < n && d.at < d.items.size(); ++q) write_item(*d.w, d.items[d.at++], s);
		if (jumps && s.below(3) == 0) {
			int64_t j = s.coin() ? 1 : (int64_t) s.below(40 * 86400);
			if (s.below(6) == 0) j = -j;
			s.clock += j;
			s.fault("clock-jump");
			s.event("clock %+lld", (long long) j);
		}
		if (d.at == d.items.size()) {
			d.w->write_header();
			d.w.reset();
			d.data = d.sink->finish();
			s.event("doc %zu: closed, %zu items, %zu bytes", open[k], d.items.size(), d.data.size());
			s.mix(d.data.size());
			open.erase(open.begin() + (long) k);
		}
	}
	size_t reads = 0;
	for (auto& d : docs) {
		check_file(s, d);
		if (s.below(10) == 0) strip(s, d);
		for (size_t q = 1 + s.below(2); q; --q) {
			try {
				read_back(s, d);
			} catch (std::exception const& e) {
				s.fail("read-failed", "reading back an archive failed: %s", e.what());
			}
		}
		reads += d.items.size();
	}
	if (reads > 2) s.nontrivial();
	set_env("TZ", "UTC");
}

#ifndef SIM_AS_LIBRARY
Harness sim::harness {
    .property = "P06",
    .run = run,
    .rule = "distinct history hashes of runs with more than two archived items",
    .components = "real: src/Archive.cc, src/archive/*.cc, src/Stream.cc; simulated: wall clock (jumps while archives are open), time zone, user environment, stream storage (chunked transfers)",
    .quick_runs = 300000,
    .thorough_runs = 3000000,
    .quick_secs = 75,
    .thorough_secs = 600,
    .step_budget = 100'000'000,
};
#endif
