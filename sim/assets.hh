// Random assets, their comparison, and independent encoders of the formats ZenKit can only load.
#pragma once
#include "world.hh"
#include <zenkit/Texture.hh>
#include <zenkit/addon/texcvt.hh>
#include <zenkit/Font.hh>
#include <zenkit/Model.hh>
#include <zenkit/ModelAnimation.hh>
#include <zenkit/ModelHierarchy.hh>
#include <zenkit/ModelMesh.hh>
#include <zenkit/MorphMesh.hh>
#include <zenkit/MultiResolutionMesh.hh>
#include <zenkit/SoftSkinMesh.hh>
#include <cmath>

namespace sim {
	// ---- generators ------------------------------------------------------------------------------
	/// A line of text as the chunked formats store it.
	inline std::string gen_line(Sim& s, bool may_be_empty = true) {
		if (may_be_empty && s.below(4) == 0) return "";
		auto r = s.ident(12);
		if (s.below(4) == 0) r += " \\x." + s.ident(4);
		if (s.below(8) == 0) r += (char) (128 + s.below(128));
		return r;
	}
	/// One list of this run may have more elements than 16 bits can count (its number).
	inline thread_local int huge_list = -1;
	inline size_t gen_count(Sim& s, size_t usual, size_t rare, int id = 0) {
		if (id && huge_list == id) return huge_list = -1, s.reach("huge list"), 65530 + s.below(100);
		return s.below(16) == 0 ? s.below(rare) : s.below(usual);
	}
	template <typename T, typename F>
	void gen_list(Sim& s, std::vector<T>& v, size_t usual, size_t rare, F f, int id = 0) {
		v.resize(gen_count(s, usual, rare, id));
		for (auto& x : v) f(x);
	}
	inline void gen_material(ObjGen& g, z::Material& m) {
		visit(g, m, m);
		if (m.name.empty()) m.name = "M";
	}
	inline void gen_submesh(Sim& s, ObjGen& g, z::SubMesh& m) {
		gen_material(g, m.mat);
		auto u16 = [&] { return (uint16_t) s.u32(); };
		gen_list(s, m.triangles, 5, 300, [&](auto& t) { for (auto& x : t.wedges) x = u16(); }, 4);
		gen_list(s, m.wedges, 5, 100, [&](auto& w) { w = {gen_vec3(s), {s.f32(), s.f32()}, u16()}; }, 5);
		gen_list(s, m.colors, 4, 100, [&](auto& c) { c = s.f32(); }, 6);
		gen_list(s, m.triangle_plane_indices, 4, 300, [&](auto& c) { c = u16(); }, 7);
		gen_list(s, m.triangle_planes, 4, 100, [&](auto& p) { p = {s.f32(), gen_vec3(s)}; }, 8);
		gen_list(s, m.triangle_edges, 4, 300, [&](auto& t) { for (auto& x : t.edges) x = u16(); }, 9);
		gen_list(s, m.edges, 4, 300, [&](auto& t) { for (auto& x : t.edges) x = u16(); }, 10);
		gen_list(s, m.edge_scores, 4, 100, [&](auto& c) { c = s.f32(); }, 11);
		gen_list(s, m.wedge_map, 4, 300, [&](auto& c) { c = u16(); }, 12);
	}
	inline void gen_mrm(Sim& s, ObjGen& g, z::MultiResolutionMesh& m) {
		gen_list(s, m.positions, 6, 300, [&](auto& v) { v = gen_vec3(s); }, 2);
		gen_list(s, m.normals, 4, 100, [&](auto& v) { v = gen_vec3(s); }, 3);
		m.sub_meshes.resize(s.below(40) == 0 ? s.below(256) : s.below(4));
		for (auto& x : m.sub_meshes) {
			gen_submesh(s, g, x);
			m.materials.push_back(x.mat);
			if (m.sub_meshes.size() > 20) x.triangles.resize(std::min<size_t>(2, x.triangles.size()));
		}
		m.alpha_test = (uint8_t) s.below(2);
		m.bbox = {gen_vec3(s), gen_vec3(s)};
		gen_obb(s, m.obbox, 2);
	}
	inline void gen_softskin(Sim& s, ObjGen& g, z::SoftSkinMesh& m) {
		gen_mrm(s, g, m.mesh);
		m.weights.resize(m.mesh.positions.size()); // (one list per vertex)
		for (auto& w : m.weights) gen_list(s, w, 3, 8, [&](auto& e) { e = {s.f32(), gen_vec3(s), (uint8_t) s.below(256)}; });
		gen_list(s, m.wedge_normals, 4, 100, [&](auto& n) { n = {gen_vec3(s), s.u32()}; }, 13);
		gen_list(s, m.nodes, 4, s.below(20) ? 40 : 99, [&](auto& n) { n = s.i32(); });
		if (s.below(100) == 99) m.nodes.resize(250 + s.below(100), 7);
		m.bboxes.resize(m.nodes.size()); // (one box per node)
		for (auto& b : m.bboxes) gen_obb(s, b, 1);
	}
	inline void gen_modelmesh(Sim& s, ObjGen& g, z::ModelMesh& m) {
		size_t n = s.below(4);
		for (size_t i = 0; i < n; ++i) gen_mrm(s, g, m.attachments["BIP01 " + s.ident(8) + std::to_string(i)]);
		m.meshes.resize(s.below(3));
		for (auto& x : m.meshes) gen_softskin(s, g, x);
		if (n && s.below(200) == 199) {
			for (size_t i = 250 + s.below(20); i--;) m.attachments["N" + std::to_string(i)];
		}
		m.checksum = s.u32();
	}
	inline void gen_hierarchy(Sim& s, z::ModelHierarchy& h) {
		gen_list(s, h.nodes, 5, 80, [&](auto& n) {
			n.name = gen_line(s);
			n.parent_index = (int16_t) s.i32();
			for (int i = 0; i < 16; ++i) n.transform.pointer()[i] = s.f32();
		});
		if (!h.nodes.empty() && s.below(50) == 49) h.nodes.resize(250 + s.below(400), h.nodes.front());
		h.bbox = {gen_vec3(s), gen_vec3(s)};
		h.collision_bbox = {gen_vec3(s), gen_vec3(s)};
		h.root_translation = gen_vec3(s);
		h.checksum = s.u32();
		h.source_date = gen_date(s);
		h.source_path = gen_line(s);
	}
	inline void gen_font(Sim& s, z::Font& f) {
		f.name = gen_line(s);
		f.height = s.u32();
		gen_list(s, f.glyphs, 6, 300, [&](auto& g) {
			g.width = (uint8_t) s.below(256);
			g.uv[0] = {s.f32(), s.f32()};
			g.uv[1] = {s.f32(), s.f32()};
		}, 1);
	}
	inline void gen_morph(Sim& s, ObjGen& g, z::MorphMesh& m) {
		m.name = gen_line(s);
		gen_mrm(s, g, m.mesh);
		m.morph_positions.resize(m.mesh.positions.size());
		for (auto& p : m.morph_positions) p = gen_vec3(s);
		gen_list(s, m.sources, 3, 8, [&](auto& x) {
			x.file_date = gen_date(s);
			x.file_name = gen_line(s);
		});
		gen_list(s, m.animations, 3, 8, [&](auto& a) {
			a.name = gen_line(s);
			a.layer = s.i32();
			a.blend_in = s.f32();
			a.blend_out = s.f32();
			a.duration = s.f32();
			a.speed = s.f32();
			a.flags = (uint8_t) s.below(256);
			a.frame_count = (uint32_t) s.below(5);
			gen_list(s, a.vertices, 4, 100, [&](auto& v) { v = s.u32(); }, 14);
			a.samples.resize(a.frame_count * a.vertices.size());
			for (auto& v : a.samples) v = gen_vec3(s);
		});
	}

	// ---- comparison ------------------------------------------------------------------------------
	template <typename T, typename F>
	void cmp_list(Sim& s, char const* what, std::vector<T> const& a, std::vector<T> const& b, F eq) {
		s.check(a.size() == b.size(), "count", "%s: %zu loaded, %zu expected", what, b.size(), a.size());
		for (size_t i = 0; i < a.size(); ++i) s.check(eq(a[i], b[i]), "element", "%s: element %zu of %zu differs", what, i, a.size());
	}
	inline bool same_u16x3(uint16_t const* a, uint16_t const* b, int n) { return memcmp(a, b, 2 * n) == 0; }
	inline void cmp_material(Sim& s, bool g2, z::Material const& a, z::Material const& b) {
		ObjCfg mc;
		mc.g2 = g2;
		mc.fmt = z::ArchiveFormat::BINARY;
		ObjCmp c(s, mc);
		c.where = {"material"};
		visit(c, const_cast<z::Material&>(a), const_cast<z::Material&>(b));
	}
	inline void cmp_mrm(Sim& s, bool g2, z::MultiResolutionMesh const& a, z::MultiResolutionMesh const& b) {
		auto v3 = [](z::Vec3 const& x, z::Vec3 const& y) { return bits_eq(x, y); };
		auto fl = [](float x, float y) { return bits_eq(x, y); };
		auto u = [](auto x, auto y) { return x == y; };
		cmp_list(s, "positions", a.positions, b.positions, v3);
		cmp_list(s, "normals", a.normals, b.normals, v3);
		s.check(a.sub_meshes.size() == b.sub_meshes.size(), "count", "%zu sub-meshes, expected %zu", b.sub_meshes.size(), a.sub_meshes.size());
		s.check(a.sub_meshes.size() == b.materials.size(), "count", "%zu materials, expected %zu", b.materials.size(), a.sub_meshes.size());
		for (size_t i = 0; i < a.sub_meshes.size(); ++i) {
			auto &x = a.sub_meshes[i], &y = b.sub_meshes[i];
			cmp_material(s, g2, x.mat, y.mat);
			cmp_material(s, g2, x.mat, b.materials[i]);
			cmp_list(s, "triangles", x.triangles, y.triangles, [](auto& p, auto& q) { return same_u16x3(p.wedges, q.wedges, 3); });
			cmp_list(s, "wedges", x.wedges, y.wedges, [](auto& p, auto& q) { return bits_eq(p.normal, q.normal) && bits_eq(p.texture, q.texture) && p.index == q.index; });
			cmp_list(s, "colors", x.colors, y.colors, fl);
			cmp_list(s, "plane indices", x.triangle_plane_indices, y.triangle_plane_indices, u);
			cmp_list(s, "planes", x.triangle_planes, y.triangle_planes, [](auto& p, auto& q) { return bits_eq(p.distance, q.distance) && bits_eq(p.normal, q.normal); });
			cmp_list(s, "triangle edges", x.triangle_edges, y.triangle_edges, [](auto& p, auto& q) { return same_u16x3(p.edges, q.edges, 3); });
			cmp_list(s, "edges", x.edges, y.edges, [](auto& p, auto& q) { return same_u16x3(p.edges, q.edges, 2); });
			cmp_list(s, "edge scores", x.edge_scores, y.edge_scores, fl);
			cmp_list(s, "wedge map", x.wedge_map, y.wedge_map, u);
		}
		if (g2) s.check(a.alpha_test == b.alpha_test, "alpha-test", "alpha test flag %d, expected %d", b.alpha_test, a.alpha_test);
		s.check(bits_eq(a.bbox, b.bbox), "bbox", "the bounding box differs");
		cmp_obb(s, a.obbox, b.obbox);
	}
	inline void cmp_softskin(Sim& s, bool g2, z::SoftSkinMesh const& a, z::SoftSkinMesh const& b) {
		cmp_mrm(s, g2, a.mesh, b.mesh);
		s.check(a.weights.size() == b.weights.size(), "count", "%zu weight lists, expected %zu", b.weights.size(), a.weights.size());
		for (size_t i = 0; i < a.weights.size(); ++i)
			cmp_list(s, "weights", a.weights[i], b.weights[i], [](auto& p, auto& q) { return bits_eq(p.weight, q.weight) && bits_eq(p.position, q.position) && p.node_index == q.node_index; });
		cmp_list(s, "wedge normals", a.wedge_normals, b.wedge_normals, [](auto& p, auto& q) { return bits_eq(p.normal, q.normal) && p.index == q.index; });
		cmp_list(s, "nodes", a.nodes, b.nodes, [](auto p, auto q) { return p == q; });
		s.check(a.bboxes.size() == b.bboxes.size(), "count", "%zu node boxes, expected %zu", b.bboxes.size(), a.bboxes.size());
		for (size_t i = 0; i < a.bboxes.size(); ++i) cmp_obb(s, a.bboxes[i], b.bboxes[i]);
	}
	inline void cmp_modelmesh(Sim& s, bool g2, z::ModelMesh const& a, z::ModelMesh const& b) {
		s.check(a.attachments.size() == b.attachments.size(), "count", "%zu attachments, expected %zu", b.attachments.size(), a.attachments.size());
		for (auto& [k, v] : a.attachments) {
			auto it = b.attachments.find(k);
			s.check(it != b.attachments.end(), "attachment", "attachment %s is missing", k.c_str());
			cmp_mrm(s, g2, v, it->second);
		}
		s.check(a.meshes.size() == b.meshes.size(), "count", "%zu skins, expected %zu", b.meshes.size(), a.meshes.size());
		for (size_t i = 0; i < a.meshes.size(); ++i) cmp_softskin(s, g2, a.meshes[i], b.meshes[i]);
		s.check(a.checksum == b.checksum, "checksum", "model mesh checksum differs");
	}
	inline void cmp_hierarchy(Sim& s, z::ModelHierarchy const& a, z::ModelHierarchy const& b) {
		cmp_list(s, "hierarchy nodes", a.nodes, b.nodes, [](auto& p, auto& q) {
			bool ok = p.name == q.name && p.parent_index == q.parent_index;
			for (int i = 0; i < 16; ++i) ok = ok && bits_eq(p.transform.pointer()[i], q.transform.pointer()[i]);
			return ok;
		});
		s.check(bits_eq(a.bbox, b.bbox) && bits_eq(a.collision_bbox, b.collision_bbox), "bbox", "a bounding box of the hierarchy differs");
		s.check(bits_eq(a.root_translation, b.root_translation), "root", "the root translation differs");
		s.check(a.checksum == b.checksum, "checksum", "the hierarchy checksum differs");
		cmp_date(s, a.source_date, b.source_date);
		s.check(a.source_path == b.source_path, "source", "the source path differs");
	}
	inline void cmp_font(Sim& s, z::Font const& a, z::Font const& b) {
		s.check(a.name == b.name && a.height == b.height, "font", "font name or height differs");
		cmp_list(s, "glyphs", a.glyphs, b.glyphs, [](auto& p, auto& q) { return p.width == q.width && bits_eq(p.uv[0], q.uv[0]) && bits_eq(p.uv[1], q.uv[1]); });
	}
	inline void cmp_morph(Sim& s, bool g2, z::MorphMesh const& a, z::MorphMesh const& b) {
		s.check(a.name == b.name, "morph", "the name of the morph mesh differs");
		cmp_mrm(s, g2, a.mesh, b.mesh);
		cmp_list(s, "morph positions", a.morph_positions, b.morph_positions, [](auto& x, auto& y) { return bits_eq(x, y); });
		cmp_list(s, "sources", a.sources, b.sources, [&](auto& x, auto& y) {
			cmp_date(s, x.file_date, y.file_date);
			return x.file_name == y.file_name;
		});
		s.check(a.animations.size() == b.animations.size(), "count", "%zu morph animations, expected %zu", b.animations.size(), a.animations.size());
		for (size_t i = 0; i < a.animations.size(); ++i) {
			auto &x = a.animations[i], &y = b.animations[i];
			s.check(x.name == y.name && x.layer == y.layer && bits_eq(x.blend_in, y.blend_in) && bits_eq(x.blend_out, y.blend_out) && bits_eq(x.duration, y.duration) && bits_eq(x.speed, y.speed) && x.flags == y.flags && x.frame_count == y.frame_count, "morph", "morph animation %zu differs", i);
			cmp_list(s, "morph vertices", x.vertices, y.vertices, [](auto p, auto q) { return p == q; });
			cmp_list(s, "morph samples", x.samples, y.samples, [](auto& p, auto& q) { return bits_eq(p, q); });
		}
	}

	// ---- independent encoders ----------------------------------------------------------------------
	struct Enc {
		std::vector<std::byte> d;
		void raw(void const* p, size_t n) { auto* b = (std::byte const*) p; d.insert(d.end(), b, b + n); }
		template <typename T> void put(T v) { raw(&v, sizeof v); }
		void u8(uint32_t v) { put((uint8_t) v); }
		void u16(uint32_t v) { put((uint16_t) v); }
		void u32(uint64_t v) { put((uint32_t) v); }
		void f(float v) { put(v); }
		void v2(z::Vec2 const& v) { f(v.x), f(v.y); }
		void v3(z::Vec3 const& v) { f(v.x), f(v.y), f(v.z); }
		void line(std::string const& s) { raw(s.data(), s.size()), u8('\n'); }
		void box(z::AxisAlignedBoundingBox const& b) { v3(b.min), v3(b.max); }
		void date(z::Date const& x) { u32(x.year), u16(x.month), u16(x.day), u16(x.hour), u16(x.minute), u16(x.second), u16(0xAAAA); }
		void obb(z::OrientedBoundingBox const& b) {
			v3(b.center);
			for (auto& a : b.axes) v3(a);
			v3(b.half_width);
			u16((uint32_t) b.children.size());
			for (auto& c : b.children) obb(c);
		}
		void append(Enc const& e) { raw(e.d.data(), e.d.size()); }
		void chunk(uint16_t type, Enc const& e) { u16(type), u32(e.d.size()), append(e); }
	};
	/// A proto mesh section, the parts of its data block in a random order and with gaps.
	inline Enc enc_mrm(Sim& s, z::MultiResolutionMesh const& m, bool g2, std::vector<std::byte> const& material_archive) {
		Enc data, dir;
		struct Part { uint32_t off = 0, n = 0; Enc e; };
		std::vector<Part> parts(2 + 10 * m.sub_meshes.size());
		for (auto& v : m.positions) parts[0].e.v3(v);
		parts[0].n = (uint32_t) m.positions.size();
		for (auto& v : m.normals) parts[1].e.v3(v);
		parts[1].n = (uint32_t) m.normals.size();
		Part* p = &parts[2];
		for (auto& x : m.sub_meshes) {
			auto add = [&](auto const& list, auto put) {
				p->n = (uint32_t) list.size();
				for (auto& y : list) put(p->e, y);
				++p;
			};
			add(x.triangles, [](Enc& e, auto& t) { for (auto w : t.wedges) e.u16(w); });
			add(x.wedges, [](Enc& e, auto& w) { e.v3(w.normal), e.v2(w.texture), e.u16(w.index), e.u16(0xCCCC); });
			add(x.colors, [](Enc& e, auto& c) { e.f(c); });
			add(x.triangle_plane_indices, [](Enc& e, auto& c) { e.u16(c); });
			add(x.triangle_planes, [](Enc& e, auto& c) { e.f(c.distance), e.v3(c.normal); });
			add(x.wedge_map, [](Enc& e, auto& c) { e.u16(c); });
			add(std::vector<int> {}, [](Enc&, auto&) {}); // vertex updates
			add(x.triangle_edges, [](Enc& e, auto& t) { for (auto w : t.edges) e.u16(w); });
			add(x.edges, [](Enc& e, auto& t) { for (auto w : t.edges) e.u16(w); });
			add(x.edge_scores, [](Enc& e, auto& c) { e.f(c); });
		}
		size_t first = s.below(parts.size()), step = s.coin() ? 1 : parts.size() - 1;
		for (size_t i = 0; i < parts.size(); ++i) {
			auto& q = parts[(first + i * step) % parts.size()];
			if (s.below(8) == 0) data.u32(0xDEADBEEF);
			q.off = (uint32_t) data.d.size();
			data.append(q.e);
		}
		Enc r;
		r.u16(g2 ? (s.coin() ? 0x905 : 0x805) : 0x305);
		r.u32(data.d.size());
		r.append(data);
		r.u8((uint32_t) m.sub_meshes.size());
		for (auto& q : parts) r.u32(q.off), r.u32(q.n);
		r.raw(material_archive.data(), material_archive.size());
		if (g2) r.u8(m.alpha_test ? s.coin() ? 1 : 1 + (uint32_t) s.below(255) : 0);
		r.box(m.bbox);
		r.obb(m.obbox);
		for (int i = 0; i < 16; ++i) r.u8(0x11 * (uint32_t) i);
		return r;
	}
	inline std::vector<std::byte> material_archive(z::MultiResolutionMesh const& m, bool g2) {
		std::vector<std::byte> v;
		auto w = z::Write::to(&v);
		auto a = z::WriteArchive::to(w.get(), z::ArchiveFormat::BINARY);
		for (auto& x : m.sub_meshes) {
			a->write_string("", x.mat.name);
			a->write_object("%", &x.mat, g2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1);
		}
		a->write_header();
		return v;
	}
	/// Chunks of unknown types are skipped, and so is what follows the contents of a known chunk.
	inline void stray(Sim& s, Enc& r) {
		if (s.below(3)) return;
		Enc junk;
		auto b = s.bytes(s.below(20));
		junk.raw(b.data(), b.size());
		uint16_t const types[] = {0x7777, 0xB123, 0, 0xFFFF, 0xD001, 0xE1FF};
		r.chunk(types[s.below(6)], junk);
	}
	inline void rest(Sim& s, Enc& r) {
		if (s.below(6) == 0) {
			auto b = s.bytes(1 + s.below(9));
			r.raw(b.data(), b.size());
		}
	}
	/// The same as it is found in the files of the games.
	inline Enc enc_softskin(Sim& s, z::SoftSkinMesh const& m, bool g2) {
		Enc hd, proto = enc_mrm(s, m.mesh, g2, material_archive(m.mesh, g2)), we, no, r;
		hd.u32(4);
		for (auto& l : m.weights) {
			we.u32(l.size());
			for (auto& e : l) we.f(e.weight), we.v3(e.position), we.u8(e.node_index);
		}
		rest(s, we);
		no.u32(we.d.size());
		no.append(we);
		no.u32(m.wedge_normals.size());
		for (auto& n : m.wedge_normals) no.v3(n.normal), no.u32(n.index);
		no.u16((uint32_t) m.nodes.size());
		for (auto n : m.nodes) no.u32((uint32_t) n);
		for (auto& b : m.bboxes) no.obb(b);
		rest(s, hd), rest(s, proto), rest(s, no);
		r.chunk(0xE100, hd);
		stray(s, r);
		r.chunk(0xB100, proto);
		stray(s, r);
		r.chunk(0xB1FF, no);
		stray(s, r);
		r.chunk(0xE110, {});
		return r;
	}
	inline Enc enc_modelmesh(Sim& s, z::ModelMesh const& m, bool g2) {
		Enc hd, src, names, r;
		hd.u32(0x04030506);
		src.date(gen_date(s)), src.line(gen_line(s));
		auto skins = [&] {
			// the length does not cover the meshes
			Enc e;
			e.u32(m.checksum), e.u16((uint32_t) m.meshes.size());
			r.chunk(0xD030, e);
			for (auto& x : m.meshes) r.append(enc_softskin(s, x, g2));
			stray(s, r);
		};
		rest(s, hd), rest(s, src);
		r.chunk(0xD000, hd);
		if (s.coin()) r.chunk(0xD010, src);
		bool first = s.coin();
		if (first) skins();
		std::vector<std::string> order;
		for (auto& [k, v] : m.attachments) order.push_back(k);
		std::sort(order.begin(), order.end());
		if (order.size() > 1) std::rotate(order.begin(), order.begin() + (ssize_t) s.below(order.size()), order.end());
		names.u16((uint32_t) order.size());
		for (auto& k : order) names.line(k);
		r.chunk(0xD020, names);
		stray(s, r);
		for (auto& k : order) {
			auto p = enc_mrm(s, m.attachments.at(k), g2, material_archive(m.attachments.at(k), g2));
			rest(s, p);
			r.chunk(0xB100, p);
			stray(s, r);
		}
		if (!first) skins();
		r.chunk(0xD040, {});
		return r;
	}
	inline Enc enc_hierarchy(Sim& s, z::ModelHierarchy const& h) {
		Enc a, b, r;
		a.u32(3), a.u16((uint32_t) h.nodes.size());
		for (auto& n : h.nodes) {
			a.line(n.name), a.u16((uint16_t) n.parent_index);
			for (int row = 0; row < 4; ++row) // (stored row by row)
				for (int col = 0; col < 4; ++col) a.f(n.transform.columns[col].pointer()[row]);
		}
		a.box(h.bbox), a.box(h.collision_bbox), a.v3(h.root_translation), a.u32(h.checksum);
		b.date(h.source_date), b.line(h.source_path);
		rest(s, a), rest(s, b);
		bool first = s.coin();
		if (first) r.chunk(0xD110, b);
		r.chunk(0xD100, a);
		stray(s, r);
		if (!first) r.chunk(0xD110, b);
		stray(s, r);
		r.chunk(0xD120, {});
		return r;
	}
	inline std::vector<std::byte> enc_morph(Sim& s, z::MorphMesh const& m, bool g2) {
		Enc src, hd, proto = enc_mrm(s, m.mesh, g2, material_archive(m.mesh, g2)), mo, an, r;
		src.u16((uint32_t) m.sources.size());
		for (auto& x : m.sources) src.date(x.file_date), src.line(x.file_name);
		hd.u32(0x0001), hd.line(m.name);
		for (auto& p : m.morph_positions) mo.v3(p);
		an.u16((uint32_t) m.animations.size());
		for (auto& a : m.animations) {
			an.line(a.name);
			an.f(a.blend_in), an.f(a.blend_out), an.f(a.duration);
			an.u32((uint32_t) a.layer);
			an.f(a.speed), an.u8(a.flags);
			an.u32(a.vertices.size()), an.u32(a.frame_count);
			for (auto v : a.vertices) an.u32(v);
			for (auto& v : a.samples) an.v3(v);
		}
		r.chunk(0xE020, hd);
		r.chunk(0xE010, src);
		stray(s, r);
		r.chunk(0xB100, proto);
		r.chunk(0xB1FF, mo);
		r.chunk(0xE030, an);
		return r.d;
	}
	/// An animation: the packed samples are what the file holds.
	struct AniFile {
		z::ModelAnimation a;
		std::vector<std::array<uint16_t, 6>> packed;
		std::vector<std::byte> file;
	};
	inline void gen_animation(Sim& s, AniFile& f) {
		auto& a = f.a;
		a.name = gen_line(s);
		a.next = gen_line(s);
		a.layer = s.u32();
		a.frame_count = (uint32_t) s.below(5);
		a.node_count = (uint32_t) s.below(5);
		if (huge_list == 15) huge_list = -1, (s.coin() ? a.frame_count : a.node_count) = 65530 + (uint32_t) s.below(20);
		a.fps = s.f32();
		a.fps_source = s.f32();
		a.sample_position_min = (float) s.range(-1000, 1000) / 8;
		a.sample_position_scale = (float) s.below(1000) / 4096;
		a.bbox = {gen_vec3(s), gen_vec3(s)};
		a.checksum = s.u32();
		a.source_path = gen_line(s);
		a.source_script = gen_line(s);
		a.source_date = gen_date(s);
		gen_list(s, a.events, 3, 8, [&](auto& e) {
			e.type = (z::AnimationEventType) s.below(7);
			e.frame = s.u32();
			e.tag = gen_line(s);
			for (auto& c : e.content) c = gen_line(s);
			for (auto& v : e.values) v = s.f32();
			e.probability = s.f32();
		});
		a.node_indices.resize(a.node_count);
		for (auto& i : a.node_indices) i = s.u32();
		f.packed.resize(a.node_count * a.frame_count);
		for (auto& p : f.packed)
			for (auto& x : p) x = (uint16_t) s.u32();
		Enc src, hd, ev, sm, r;
		src.date(a.source_date), src.line(a.source_path), src.line(a.source_script);
		hd.u16(0xc), hd.line(a.name), hd.u32(a.layer), hd.u32(a.frame_count), hd.u32(a.node_count);
		hd.f(a.fps), hd.f(a.fps_source), hd.f(a.sample_position_min), hd.f(a.sample_position_scale);
		hd.box(a.bbox), hd.line(a.next);
		ev.u32(a.events.size());
		for (auto& e : a.events) {
			ev.u32((uint32_t) e.type), ev.u32(e.frame), ev.line(e.tag);
			for (auto& c : e.content) ev.line(c);
			for (auto v : e.values) ev.f(v);
			ev.f(e.probability);
		}
		sm.u32(a.checksum);
		for (auto i : a.node_indices) sm.u32(i);
		for (auto& p : f.packed)
			for (auto x : p) sm.u16(x);
		rest(s, src), rest(s, hd), rest(s, ev), rest(s, sm);
		r.chunk(0xa000, {});
		r.chunk(0xa020, hd);
		stray(s, r);
		if (s.coin()) r.chunk(0xa010, src), r.chunk(0xa030, ev);
		else r.chunk(0xa030, ev), r.chunk(0xa010, src);
		r.chunk(0xa090, sm);
		f.file = r.d;
	}
	inline void cmp_animation(Sim& s, AniFile const& f, z::ModelAnimation const& b) {
		auto& a = f.a;
		s.check(a.name == b.name && a.next == b.next && a.layer == b.layer && a.frame_count == b.frame_count && a.node_count == b.node_count && bits_eq(a.fps, b.fps) && bits_eq(a.fps_source, b.fps_source) && bits_eq(a.sample_position_min, b.sample_position_min) && bits_eq(a.sample_position_scale, b.sample_position_scale) && bits_eq(a.bbox, b.bbox) && a.checksum == b.checksum, "animation", "the animation header differs");
		s.check(a.source_path == b.source_path && a.source_script == b.source_script, "animation", "the animation source differs");
		cmp_date(s, a.source_date, b.source_date);
		cmp_list(s, "node indices", a.node_indices, b.node_indices, [](auto p, auto q) { return p == q; });
		cmp_list(s, "animation events", a.events, b.events, [](auto& p, auto& q) {
			bool ok = p.type == q.type && p.frame == q.frame && p.tag == q.tag && bits_eq(p.probability, q.probability);
			for (int i = 0; i < 4; ++i) ok = ok && p.content[i] == q.content[i] && bits_eq(p.values[i], q.values[i]);
			return ok;
		});
		s.check(b.samples.size() == f.packed.size(), "count", "%zu samples, expected %zu", b.samples.size(), f.packed.size());
		auto near = [](double x, double y) { return std::fabs(x - y) <= 2e-3 * std::max(1.0, std::fabs(x)); };
		for (size_t i = 0; i < b.samples.size(); ++i) {
			auto& p = f.packed[i];
			auto& q = b.samples[i];
			double c[3], len = 0;
			for (int k = 0; k < 3; ++k) c[k] = ((double) p[k] - 32767) * 2.1 / 65535, len += c[k] * c[k];
			double w = len > 1 ? 0 : std::sqrt(1 - len);
			if (len > 1)
				for (auto& x : c) x /= std::sqrt(len);
			s.check(near(c[0], q.rotation.x) && near(c[1], q.rotation.y) && near(c[2], q.rotation.z) && std::fabs(w * w - (double) q.rotation.w * q.rotation.w) < 1e-4 && q.rotation.w >= 0, "sample", "rotation of sample %zu is (%g %g %g %g), expected (%g %g %g %g)", i, q.rotation.x, q.rotation.y, q.rotation.z, q.rotation.w, c[0], c[1], c[2], w);
			float const* o = &q.position.x;
			for (int k = 0; k < 3; ++k) {
				double e = (double) p[3 + k] * a.sample_position_scale + a.sample_position_min;
				s.check(near(e, o[k]), "sample", "position of sample %zu: %g, expected %g", i, o[k], e);
			}
		}
	}
} // namespace sim
