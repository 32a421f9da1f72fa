// P11: assets saved and loaded again are equal; the formats ZenKit only loads are read as documented.
#include "assets.hh"
#include "endpoints.hh"
#include "seam.hh"
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>

using namespace sim;

/// Something that can be put into a stream and has to be found there again.
struct Item {
	std::string name;
	std::function<void(z::Write*)> save;
	std::function<void(z::Read*)> load_and_compare;
	bool to_the_end = false; // the loader reads until the end of the input
};

template <typename T>
static Item item(std::string name, std::shared_ptr<T> a, std::function<void(T const&, z::Write*)> save, std::function<void(T const&, T const&)> cmp, Sim& s) {
	return {std::move(name), [a, save](z::Write* w) { save(*a, w); }, [a, cmp, &s](z::Read* r) {
		        auto b = std::make_shared<T>();
		        b->load(r);
		        cmp(*a, *b);
	        }};
}
template <typename T, typename C>
static std::function<void(z::Read*)> loader(std::shared_ptr<T> a, C cmp) {
	return [a, cmp](z::Read* r) {
		T b;
		b.load(r);
		cmp(*a, b);
	};
}
static void put(z::Write* w, std::vector<std::byte> const& d) { w->write(d.data(), d.size()); }

/// Reference decoder of one pixel of a block-compressed level.
static void ref_dxt(int fmt, uint8_t const* d, uint32_t w, uint32_t x, uint32_t y, int out[4]) {
	uint8_t const* b = d + ((size_t) (y / 4) * ((w + 3) / 4) + x / 4) * (fmt == 1 ? 8 : 16);
	uint8_t const* c = fmt == 1 ? b : b + 8;
	int k = (int) ((y % 4) * 4 + x % 4), v0 = c[0] | c[1] << 8, v1 = c[2] | c[3] << 8, sel = c[4 + k / 4] >> k % 4 * 2 & 3;
	auto comp = [](int v, int i) { return i == 0 ? (v >> 11) * 255 / 31 : i == 1 ? (v >> 5 & 63) * 255 / 63 : (v & 31) * 255 / 31; };
	for (int i = 0; i < 3; ++i) {
		int p = comp(v0, i), q = comp(v1, i);
		if (sel == 0) out[i] = p;
		else if (sel == 1) out[i] = q;
		else if (fmt == 1 && v0 <= v1) out[i] = sel == 2 ? (p + q) / 2 : 0;
		else out[i] = sel == 2 ? (2 * p + q) / 3 : (p + 2 * q) / 3;
	}
	if (fmt == 1) out[3] = v0 <= v1 && sel == 3 ? 0 : 255;
	else if (fmt == 3) out[3] = (b[k / 2] >> (k % 2) * 4 & 15) * 17;
	else {
		uint64_t bits = 0;
		for (int i = 0; i < 6; ++i) bits |= (uint64_t) b[2 + i] << i * 8;
		int a = b[0], e = b[1], n = (int) (bits >> k * 3 & 7);
		if (n < 2) out[3] = n ? e : a;
		else if (a > e) out[3] = ((8 - n) * a + (n - 1) * e) / 7;
		else out[3] = n == 6 ? 0 : n == 7 ? 255 : ((6 - n) * a + (n - 1) * e) / 5;
	}
}
static void check_rgba(Sim& s, z::Texture const& t) {
	using F = z::TextureFormat;
	for (uint32_t l = 0; l < t.mipmaps(); ++l) {
		auto& d = t.data(l);
		uint32_t w = std::max(1u, t.width() >> l), h = std::max(1u, t.height() >> l);
		s.check(t.mipmap_width(l) == w && t.mipmap_height(l) == h, "mipmap", "level %u is %ux%u, expected %ux%u", l, t.mipmap_width(l), t.mipmap_height(l), w, h);
		std::vector<uint8_t> px;
		try {
			px = t.as_rgba8(l);
		} catch (z::ParserError const&) {
			s.check(t.format() == F::A1R5G5B5 || t.format() == F::DXT2 || t.format() == F::DXT4, "rgba", "format %d cannot be converted", (int) t.format());
			continue;
		}
		s.check(px.size() == (size_t) w * h * 4, "rgba", "%zu bytes for %ux%u pixels", px.size(), w, h);
		int at[4] = {0, 1, 2, 3}, bpp = 4;
		switch (t.format()) {
		case F::B8G8R8A8: at[0] = 2, at[2] = 0; break;
		case F::R8G8B8A8: break;
		case F::A8B8G8R8: at[0] = 3, at[1] = 2, at[2] = 1, at[3] = 0; break;
		case F::A8R8G8B8: at[0] = 1, at[1] = 2, at[2] = 3, at[3] = 0; break;
		case F::B8G8R8: at[0] = 2, at[2] = 0, at[3] = -1, bpp = 3; break;
		case F::R8G8B8: at[3] = -1, bpp = 3; break;
		case F::P8:
			for (uint32_t i = 0; i < w * h; ++i) {
				auto& p = t.palette()[d[i]];
				s.check(px[i * 4] == p.r && px[i * 4 + 1] == p.g && px[i * 4 + 2] == p.b && px[i * 4 + 3] == p.a, "rgba", "paletted pixel %u is wrong", i);
			}
			continue;
		case F::R5G6B5:
		case F::A4R4G4B4:
		case F::DXT1:
		case F::DXT3:
		case F::DXT5:
			// sizes that are no multiple of four have fewer blocks stored than pixels need
			if (t.format() >= F::DXT1 && d.size() < (size_t) ((w + 3) / 4) * ((h + 3) / 4) * (t.format() == F::DXT1 ? 8 : 16)) continue;
			// few bits per channel: how they are extended to 8 is not specified exactly
			for (uint32_t i = 0; i < w * h; ++i) {
				int ref[4], v = 0;
				if (t.format() == F::R5G6B5 || t.format() == F::A4R4G4B4) v = d[i * 2] | d[i * 2 + 1] << 8;
				if (t.format() == F::R5G6B5) ref[0] = (v >> 11) * 255 / 31, ref[1] = (v >> 5 & 63) * 255 / 63, ref[2] = (v & 31) * 255 / 31, ref[3] = 255;
				else if (t.format() == F::A4R4G4B4) ref[0] = (v >> 8 & 15) * 17, ref[1] = (v >> 4 & 15) * 17, ref[2] = (v & 15) * 17, ref[3] = (v >> 12) * 17;
				else ref_dxt(t.format() == F::DXT1 ? 1 : t.format() == F::DXT3 ? 3 : 5, d.data(), w, i % w, i / w, ref);
				for (int c = 0; c < 4; ++c) s.check(std::abs(px[i * 4 + c] - ref[c]) <= 4, "rgba", "format %d: component %d of pixel %u is %d instead of %d", (int) t.format(), c, i, px[i * 4 + c], ref[c]);
			}
			continue;
		default: continue;
		}
		for (uint32_t i = 0; i < w * h; ++i)
			for (int c = 0; c < 4; ++c) s.check(px[i * 4 + c] == (at[c] < 0 ? 255 : d[i * bpp + at[c]]), "rgba", "format %d: component %d of pixel %u is wrong", (int) t.format(), c, i);
	}
}

/// A texture as DDS file: the header describes the format, size and levels; the levels follow from the largest to the smallest.
static void check_dds(Sim& s, z::Texture const& t) {
	auto d = z::to_dds(t);
	auto u32 = [&](size_t at) {
		uint32_t v = 0;
		if (at + 4 <= d.size()) memcpy(&v, d.data() + at, 4);
		return v;
	};
	s.check(d.size() >= 128 && memcmp(d.data(), "DDS ", 4) == 0 && u32(4) == 124 && u32(76) == 32, "dds-header", "no DDS header");
	s.check(u32(12) == t.height() && u32(16) == t.width() && (u32(8) & 0x1007) == 0x1007 && (u32(108) & 0x1000), "dds-size", "the DDS file is %ux%u instead of %ux%u", u32(16), u32(12), t.width(), t.height());
	bool levels = t.mipmaps() > 1;
	s.check(!!(u32(8) & 0x20000) == levels && (!levels || u32(28) == t.mipmaps()) && (u32(108) & 0x400008) == (levels ? 0x400008u : 0u), "dds-levels", "the DDS file has %u levels instead of %u", u32(28), t.mipmaps());
	uint32_t f = (uint32_t) t.format();
	uint32_t first = tex_level_size(f, t.width(), 1, 0);
	if (f >= 10) {
		char cc[5] = {'D', 'X', 'T', (char) ('1' + f - 10), 0};
		s.check(u32(80) == 4 && memcmp(d.data() + 84, cc, 4) == 0, "dds-format", "the DDS file of a texture in format %s says otherwise", cc);
		s.check((u32(8) & 0x80008) == 0x80000 && u32(20) == t.data(0).size(), "dds-pitch", "wrong size of the first level: %u", u32(20));
	} else {
		s.check((u32(8) & 0x80008) == 8 && u32(20) == first, "dds-pitch", "the pitch is %u instead of %u", u32(20), first);
		// bits, red, green, blue, alpha
		static uint32_t const masks[9][5] = {{32, 0xFF00, 0xFF0000, 0xFF000000, 0xFF}, {32, 0xFF000000, 0xFF0000, 0xFF00, 0xFF}, {32, 0xFF, 0xFF00, 0xFF0000, 0xFF000000}, {32, 0xFF0000, 0xFF00, 0xFF, 0xFF000000}, {24, 0xFF, 0xFF00, 0xFF0000, 0}, {24, 0xFF0000, 0xFF00, 0xFF, 0}, {16, 0xF00, 0xF0, 0xF, 0xF000}, {16, 0x7C00, 0x3E0, 0x1F, 0x8000}, {16, 0xF800, 0x7E0, 0x1F, 0}};
		if (f == 9) s.check(u32(80) == 0x20, "dds-format", "the DDS file is not indexed");
		else {
			s.check(u32(80) == (masks[f][4] ? 0x41u : 0x40u), "dds-format", "format %u: wrong flags %#x", f, u32(80));
			for (size_t i = 0; i < 5; ++i) s.check(u32(88 + i * 4) == masks[f][i], "dds-format", "format %u: value %zu is %#x instead of %#x", f, i, u32(88 + i * 4), masks[f][i]);
		}
	}
	size_t at = 128;
	if (f == 9)
		for (int i = 0; i < 256; ++i, at += 4) {
			auto& c = t.palette()[i];
			uint8_t want[4] = {c.b, c.g, c.r, c.a};
			s.check(d.size() >= at + 4 && memcmp(d.data() + at, want, 4) == 0, "dds-palette", "entry %d of the palette is wrong", i);
		}
	for (uint32_t l = 0; l < t.mipmaps(); ++l) {
		auto& x = t.data(l);
		s.check(d.size() >= at + x.size() && memcmp(d.data() + at, x.data(), x.size()) == 0, "dds-data", "level %u is not as stored", l);
		at += x.size();
	}
	s.check(at == d.size(), "dds-data", "%zu bytes follow the last level", d.size() - at);
}

/// A texture of one color looks (almost) the same after it was stored with few bits per channel.
static void check_narrow(Sim& s) {
	using F = z::TextureFormat;
	uint32_t w = 1u << s.below(6), h = 1u << s.below(6);
	F const outs[] = {F::R5G6B5, F::DXT1, F::DXT3, F::DXT5};
	F out = outs[s.below(4)];
	uint8_t c[4];
	for (auto& x : c) x = (uint8_t) s.below(256);
	if (out == F::R5G6B5 || out == F::DXT1) c[3] = 255;
	z::TextureBuilder b(w, h);
	std::vector<uint8_t> u;
	for (uint32_t i = 0; i < w * h * 4; ++i) u.push_back(c[i % 4]);
	b.add_mipmap(u, F::R8G8B8A8);
	auto t = b.build(out);
	s.check(t.data(0).size() == tex_level_size((uint32_t) out, w, h, 0), "build", "%ux%u pixels in format %d have %zu bytes", w, h, (int) out, t.data(0).size());
	check_rgba(s, t);
	auto px = t.as_rgba8(0);
	for (size_t i = 0; i < px.size(); ++i) {
		bool transparent = i % 4 != 3 && c[3] < 16;
		s.check(transparent || std::abs(px[i] - c[i % 4]) <= 17, "build", "component %zu of a pixel changed from %d to %d in format %d", i % 4, c[i % 4], px[i], (int) out);
	}
}
/// Every level is given in a format of its own; levels of a wrong size are refused.
static void check_mixed(Sim& s) {
	using F = z::TextureFormat;
	uint32_t w = 1u << s.below(5), h = 1u << s.below(5), n = 1 + (uint32_t) s.below(5);
	F const all[] = {F::B8G8R8A8, F::R8G8B8A8, F::A8B8G8R8, F::A8R8G8B8, F::B8G8R8, F::R8G8B8};
	int const at[6][4] = {{2, 1, 0, 3}, {0, 1, 2, 3}, {3, 2, 1, 0}, {1, 2, 3, 0}, {2, 1, 0, -1}, {0, 1, 2, -1}};
	z::TextureBuilder b(w, h);
	std::vector<std::vector<uint8_t>> want;
	for (uint32_t l = 0; l < n; ++l) {
		size_t k = s.below(6), px = (size_t) std::max(1u, w >> l) * std::max(1u, h >> l), bpp = k < 4 ? 4 : 3;
		auto d = s.bytes(px * bpp);
		std::vector<uint8_t> u((uint8_t*) d.data(), (uint8_t*) d.data() + d.size()), e;
		if (s.below(4) == 0) {
			auto bad = u;
			bad.resize(s.coin() ? u.size() + 1 + s.below(9) : s.below(u.size()));
			bool refused = false;
			try {
				b.add_mipmap(bad, all[k]);
			} catch (z::Error const&) {
				refused = true;
			}
			s.check(refused, "build", "%zu bytes are accepted for a level of %zu", bad.size(), u.size());
		}
		b.add_mipmap(u, all[k]);
		for (size_t i = 0; i < px; ++i)
			for (int c = 0; c < 4; ++c) e.push_back(at[k][c] < 0 ? 255 : u[i * bpp + (size_t) at[k][c]]);
		want.push_back(e);
	}
	auto t = b.build(all[s.below(4)]);
	s.check(t.mipmaps() == n, "build", "%u levels instead of %u", t.mipmaps(), n);
	for (uint32_t l = 0; l < n; ++l) s.check(t.as_rgba8(l) == want[l], "build", "level %u of a texture built from levels of several formats is not the one given", l);
}
static void check_bbox(Sim& s) {
	z::OrientedBoundingBox b;
	auto v = [&](float lo, float hi) { return lo + (hi - lo) * (float) s.below(1001) / 1000.f; };
	auto v3 = [&](float lo, float hi) { return z::Vec3 {v(lo, hi), v(lo, hi), v(lo, hi)}; };
	b.center = v3(-1000, 1000);
	for (auto& a : b.axes) a = v3(-1, 1);
	b.half_width = v3(0, 500);
	auto box = b.as_bbox();
	for (int i = 0; i < 3; ++i) {
		double e = std::abs((double) (&b.axes[0].x)[i] * b.half_width.x) + std::abs((double) (&b.axes[1].x)[i] * b.half_width.y) + std::abs((double) (&b.axes[2].x)[i] * b.half_width.z);
		double c = (&b.center.x)[i], lo = (&box.min.x)[i], hi = (&box.max.x)[i];
		s.check(std::abs(lo - (c - e)) < 0.01 && std::abs(hi - (c + e)) < 0.01, "bbox", "the axis-aligned box spans %g to %g instead of %g to %g", lo, hi, c - e, c + e);
	}
}

static Item gen_built_texture(Sim& s) {
	if (s.below(4) == 0) check_narrow(s);
	if (s.below(4) == 0) check_mixed(s);
	if (s.below(4) == 0) check_bbox(s);
	uint32_t w = 1u << s.below(6), h = 1u << s.below(6), n = 1 + (uint32_t) s.below(7);
	uint32_t in = (uint32_t) s.below(9), out = s.below(3) ? (uint32_t) s.below(6) : in; // in: neither paletted nor compressed
	if (in == 7) in = 0; // A1R5G5B5 cannot be converted
	if (out >= 6) out = in;
	z::TextureBuilder b(w, h);
	std::vector<std::vector<uint8_t>> levels;
	for (uint32_t l = 0; l < n; ++l) {
		auto d = s.bytes(tex_level_size(in, w, h, l));
		std::vector<uint8_t> u((uint8_t*) d.data(), (uint8_t*) d.data() + d.size());
		levels.push_back(u);
		b.add_mipmap(u, (z::TextureFormat) in);
	}
	auto t = std::make_shared<z::Texture>(b.build((z::TextureFormat) out));
	s.event("built texture %ux%u, %u levels, format %u from %u", w, h, n, out, in);
	s.check(t->mipmaps() == n && t->width() == w && t->height() == h && t->format() == (z::TextureFormat) out, "build", "header of the built texture is wrong");
	for (uint32_t l = 0; l < n; ++l) {
		s.check(t->data(l).size() == tex_level_size(out, w, h, l), "build", "level %u of the built texture has %zu bytes", l, t->data(l).size());
		if (in == out) s.check(t->data(l) == levels[l], "build", "level %u of the built texture is not the one given", l);
		else if (in < 6 && out < 6) {
			// all 8 bits are kept, so that both look alike (apart from the alpha channel)
			z::TextureBuilder one(std::max(1u, w >> l), std::max(1u, h >> l));
			one.add_mipmap(levels[l], (z::TextureFormat) in);
			auto p = one.build((z::TextureFormat) in).as_rgba8(0), q = t->as_rgba8(l);
			if (in >= 4 || out >= 4)
				for (size_t i = 3; i < p.size(); i += 4) p[i] = q[i] = 0;
			s.check(p == q, "build", "level %u: pixels changed when converting from format %u to %u", l, in, out);
		}
	}
	return item<z::Texture>("built texture", t, [](auto& a, auto* w) { a.save(w); }, [&s](auto& a, auto& b) { cmp_texture(s, "texture", a, b); }, s);
}

static Item gen_item(Sim& s, ObjGen& g, bool g2) {
	auto ver = g2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1;
	switch (huge_list < 0 ? (int) s.below(12) : huge_list == 1 ? 0 : huge_list == 13 ? 6 : huge_list == 14 ? 11 : huge_list == 15 ? 10 : 4 + (int) s.below(3)) {
	case 0: {
		auto a = std::make_shared<z::Font>();
		gen_font(s, *a);
		return item<z::Font>("font", a, [](auto& a, auto* w) { a.save(w); }, [&s](auto& a, auto& b) { cmp_font(s, a, b); }, s);
	}
	case 1: {
		auto file = gen_texture_file(s);
		auto a = std::make_shared<z::Texture>();
		auto fr = z::Read::from(&file);
		a->load(fr.get());
		std::vector<std::byte> again;
		auto fw = z::Write::to(&again);
		a->save(fw.get());
		s.check(again == file, "texture-file", "a texture file of %zu bytes is not the same after it was loaded and saved", file.size());
		check_rgba(s, *a);
		check_dds(s, *a);
		return item<z::Texture>("texture", a, [](auto& a, auto* w) { a.save(w); }, [&s](auto& a, auto& b) { cmp_texture(s, "texture", a, b); }, s);
	}
	case 2: return gen_built_texture(s);
	case 3: {
		auto a = std::make_shared<z::ModelHierarchy>();
		gen_hierarchy(s, *a);
		if (s.coin()) return {"encoded hierarchy", [d = enc_hierarchy(s, *a).d](z::Write* w) { put(w, d); }, loader(a, [&s](auto& a, auto& b) { cmp_hierarchy(s, a, b); })};
		return item<z::ModelHierarchy>("hierarchy", a, [](auto& a, auto* w) { a.save(w); }, [&s](auto& a, auto& b) { cmp_hierarchy(s, a, b); }, s);
	}
	case 4: {
		auto a = std::make_shared<z::MultiResolutionMesh>();
		gen_mrm(s, g, *a);
		return item<z::MultiResolutionMesh>("multi-resolution mesh", a, [ver](auto& a, auto* w) { a.save(w, ver); }, [&s, g2](auto& a, auto& b) { cmp_mrm(s, g2, a, b); }, s);
	}
	case 5: {
		auto a = std::make_shared<z::MultiResolutionMesh>();
		gen_mrm(s, g, *a);
		auto e = enc_mrm(s, *a, g2, material_archive(*a, g2));
		return item<z::MultiResolutionMesh>("encoded multi-resolution mesh", a, [e](auto&, auto* w) {
			Enc r;
			r.chunk(0xB100, e);
			r.chunk(0xB1FF, {});
			put(w, r.d);
		}, [&s, g2](auto& a, auto& b) { cmp_mrm(s, g2, a, b); }, s);
	}
	case 6: {
		auto a = std::make_shared<z::SoftSkinMesh>();
		gen_softskin(s, g, *a);
		if (s.coin()) return {"encoded soft-skin mesh", [d = enc_softskin(s, *a, g2).d](z::Write* w) { put(w, d); }, loader(a, [&s, g2](auto& a, auto& b) { cmp_softskin(s, g2, a, b); })};
		return item<z::SoftSkinMesh>("soft-skin mesh", a, [ver](auto& a, auto* w) { a.save(w, ver); }, [&s, g2](auto& a, auto& b) { cmp_softskin(s, g2, a, b); }, s);
	}
	case 7: {
		auto a = std::make_shared<z::ModelMesh>();
		gen_modelmesh(s, g, *a);
		if (s.coin()) return {"encoded model mesh", [d = enc_modelmesh(s, *a, g2).d](z::Write* w) { put(w, d); }, loader(a, [&s, g2](auto& a, auto& b) { cmp_modelmesh(s, g2, a, b); })};
		return item<z::ModelMesh>("model mesh", a, [ver](auto& a, auto* w) { a.save(w, ver); }, [&s, g2](auto& a, auto& b) { cmp_modelmesh(s, g2, a, b); }, s);
	}
	case 8: {
		auto a = std::make_shared<z::Model>();
		gen_hierarchy(s, a->hierarchy);
		gen_modelmesh(s, g, a->mesh);
		return item<z::Model>("model", a, [ver](auto& a, auto* w) { a.save(w, ver); }, [&s, g2](auto& a, auto& b) {
			cmp_hierarchy(s, a.hierarchy, b.hierarchy);
			cmp_modelmesh(s, g2, a.mesh, b.mesh);
		}, s);
	}
	case 9: {
		auto a = std::make_shared<z::Mesh>();
		gen_mesh(s, *a, g, g2);
		return {"mesh", [a, ver](z::Write* w) { a->save(w, ver); }, [a, g2, &s](z::Read* r) {
			        z::Mesh b;
			        b.load(r, false);
			        cmp_mesh(s, *a, b, g2, nullptr);
		        }};
	}
	case 10: {
		auto f = std::make_shared<AniFile>();
		gen_animation(s, *f);
		return {"animation", [f](z::Write* w) { put(w, f->file); }, [f, &s](z::Read* r) {
			        z::ModelAnimation b;
			        b.load(r);
			        cmp_animation(s, *f, b);
		        }, true};
	}
	default: {
		auto a = std::make_shared<z::MorphMesh>();
		gen_morph(s, g, *a);
		auto d = enc_morph(s, *a, g2);
		return {"morph mesh", [d](z::Write* w) { put(w, d); }, [a, g2, &s](z::Read* r) {
			        z::MorphMesh b;
			        b.load(r);
			        cmp_morph(s, g2, *a, b);
		        }, true};
	}
	}
}

static void run(Sim& s) {
	quiet_log();
	alloc_cap = 256ull << 20;
	ObjCfg c;
	c.g2 = s.coin();
	c.fmt = z::ArchiveFormat::BINARY;
	ObjGen g(s, c);
	std::vector<Item> items;
	huge_list = thread_id < 0 && s.below(120) == 119 ? 1 + (int) s.below(15) : -1;
	size_t n = 1 + s.below(3);
	for (size_t i = 0; i < n; ++i) {
		items.push_back(gen_item(s, g, c.g2));
		s.event("%s (%s)", items.back().name.c_str(), c.g2 ? "G2" : "G1");
		if (items.back().to_the_end) break;
	}
	huge_list = -1;
	// all of them into one stream, which does not have to start with the first one
	Sink sink(s);
	size_t lead = s.coin() ? s.below(40) : 0;
	std::vector<size_t> begin, end;
	for (size_t i = 0; i < lead; ++i) sink.get()->write_ubyte(0xEE);
	for (auto& i : items) {
		begin.push_back(sink.get()->tell());
		i.save(sink.get());
		end.push_back(sink.get()->tell());
	}
	auto data = sink.finish();
	s.check(data.size() == end.back(), "size", "%zu bytes stored, %zu written", data.size(), end.back());
	s.mix(data.data(), data.size());
	if (data.size() > 300) s.nontrivial();
	Source src(s, data);
	src.get()->seek((ssize_t) lead, z::Whence::BEG);
	for (size_t i = 0; i < items.size(); ++i) {
		bool again = s.below(4) == 0;
		for (int k = 0; k < (again ? 2 : 1); ++k) {
			if (k) src.get()->seek((ssize_t) begin[i], z::Whence::BEG);
			try {
				items[i].load_and_compare(src.get());
			} catch (std::exception const& e) {
				s.fail("load-failed", "%s cannot be loaded from a %s: %s", items[i].name.c_str(), src.kind(), e.what());
			}
			s.check(src.get()->tell() == end[i], "position", "%s: the loader stopped at %zu, the data ends at %zu", items[i].name.c_str(), src.get()->tell(), end[i]);
		}
	}
}

#ifndef SIM_AS_LIBRARY
Harness sim::harness {
    .property = "P11",
    .run = run,
    .rule = "distinct history hashes (all stored bytes) of runs that stored more than 300 bytes",
    .components = "real: src/Font.cc, src/Texture.cc, src/Model*.cc, src/MorphMesh.cc, src/MultiResolutionMesh.cc, src/SoftSkinMesh.cc, src/Mesh.cc, src/Material.cc, src/Date.cc, src/Boxes.cc, src/Archive.cc, src/archive/ArchiveBinary.cc, src/Stream.cc; simulated: wall clock, stream storage (chunked transfers); stub: encoders of animations, morph meshes and (in part) proto meshes",
    .quick_runs = 200000,
    .thorough_runs = 4000000,
    .quick_secs = 60,
    .thorough_secs = 600,
    .step_budget = 100'000'000,
};
#endif
