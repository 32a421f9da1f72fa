// Random textures, meshes, BSP trees, worlds and save-game states, and their comparison.
#pragma once
#include "objects.hh"
#include <algorithm>
#include <zenkit/Mesh.hh>
#include <zenkit/Texture.hh>
#include <zenkit/world/BspTree.hh>

namespace sim {
	// ---- textures --------------------------------------------------------------------------------
	inline uint32_t tex_level_size(uint32_t fmt, uint32_t w, uint32_t h, uint32_t level) {
		w = std::max(1u, w >> level);
		h = std::max(1u, h >> level);
		switch (fmt) {
		case 0: case 1: case 2: case 3: return w * h * 4;
		case 4: case 5: return w * h * 3;
		case 6: case 7: case 8: return w * h * 2;
		case 9: return w * h;
		case 10: return std::max(1u, w / 4) * std::max(1u, h / 4) * 8;
		default: return std::max(1u, w / 4) * std::max(1u, h / 4) * 16;
		}
	}
	/// A texture file of any format.
	inline std::vector<std::byte> gen_texture_file(Sim& s) {
		std::vector<std::byte> r;
		auto put = [&](void const* p, size_t n) {
			auto* b = (std::byte const*) p;
			r.insert(r.end(), b, b + n);
		};
		auto u32 = [&](uint32_t v) { put(&v, 4); };
		uint32_t fmt = (uint32_t) s.below(15), w = 1u << s.below(5), h = 1u << s.below(5), n = 1 + (uint32_t) s.below(3);
		if (s.below(8) == 0) w = 1 + (uint32_t) s.below(20), h = 1 + (uint32_t) s.below(20);
		while (n > 1 && ((w >> (n - 1)) == 0 || (h >> (n - 1)) == 0)) --n;
		put("ZTEX", 4);
		u32(0);
		u32(fmt);
		u32(w);
		u32(h);
		u32(n);
		u32(s.u32());
		u32(s.u32());
		u32(s.u32());
		if (fmt == 9) {
			auto p = s.bytes(1024);
			put(p.data(), p.size());
		}
		for (int l = (int) n - 1; l >= 0; --l) {
			auto p = s.bytes(tex_level_size(fmt, w, h, (uint32_t) l));
			put(p.data(), p.size());
		}
		return r;
	}
	inline z::Texture gen_texture(Sim& s) {
		auto f = gen_texture_file(s);
		auto r = z::Read::from(&f);
		z::Texture t;
		t.load(r.get());
		return t;
	}
	inline void cmp_texture(Sim& s, char const* what, z::Texture const& a, z::Texture const& b) {
#define Q(m) s.check((uint32_t) a.m() == (uint32_t) b.m(), "texture", "%s: texture %s: loaded %u, saved %u", what, #m, (uint32_t) b.m(), (uint32_t) a.m())
		Q(format);
		Q(width);
		Q(height);
		Q(ref_width);
		Q(ref_height);
		Q(mipmaps);
		Q(average_color);
#undef Q
		if (a.format() == z::TextureFormat::P8) s.check(memcmp(a.palette(), b.palette(), 1024) == 0, "texture", "%s: palette differs", what);
		for (uint32_t l = 0; l < a.mipmaps(); ++l) s.check(a.data(l) == b.data(l), "texture", "%s: pixels of level %u differ", what, l);
	}

	// ---- meshes and trees ------------------------------------------------------------------------
	inline z::Vec3 gen_vec3(Sim& s) { return {s.f32(), s.f32(), s.f32()}; }
	inline bool bits_eq(float a, float b) {
		uint32_t x, y;
		memcpy(&x, &a, 4);
		memcpy(&y, &b, 4);
		return x == y;
	}
	inline bool bits_eq(z::Vec3 const& a, z::Vec3 const& b) { return bits_eq(a.x, b.x) && bits_eq(a.y, b.y) && bits_eq(a.z, b.z); }
	inline bool bits_eq(z::Vec2 const& a, z::Vec2 const& b) { return bits_eq(a.x, b.x) && bits_eq(a.y, b.y); }
	inline bool bits_eq(z::AxisAlignedBoundingBox const& a, z::AxisAlignedBoundingBox const& b) { return bits_eq(a.min, b.min) && bits_eq(a.max, b.max); }

	inline void gen_obb(Sim& s, z::OrientedBoundingBox& b, int depth) {
		b.center = gen_vec3(s);
		for (auto& x : b.axes) x = gen_vec3(s);
		b.half_width = gen_vec3(s);
		if (depth) b.children.resize(s.below(3));
		for (auto& c : b.children) gen_obb(s, c, depth - 1);
	}
	inline void cmp_obb(Sim& s, z::OrientedBoundingBox const& a, z::OrientedBoundingBox const& b) {
		bool ok = bits_eq(a.center, b.center) && bits_eq(a.half_width, b.half_width) && a.children.size() == b.children.size();
		for (int i = 0; i < 3; ++i) ok = ok && bits_eq(a.axes[i], b.axes[i]);
		s.check(ok, "obb", "an oriented bounding box differs (%zu children, saved %zu)", b.children.size(), a.children.size());
		for (size_t i = 0; i < a.children.size(); ++i) cmp_obb(s, a.children[i], b.children[i]);
	}
	inline z::Date gen_date(Sim& s) {
		z::Date d {};
		d.year = s.u32();
		d.month = (uint16_t) s.u32();
		d.day = (uint16_t) s.u32();
		d.hour = (uint16_t) s.u32();
		d.minute = (uint16_t) s.u32();
		d.second = (uint16_t) s.u32();
		return d;
	}
	inline void cmp_date(Sim& s, z::Date const& a, z::Date const& b) {
		s.check(a.year == b.year && a.month == b.month && a.day == b.day && a.hour == b.hour && a.minute == b.minute && a.second == b.second, "date", "the date differs: loaded %u-%u-%u %u:%u:%u, saved %u-%u-%u %u:%u:%u", b.year, b.month, b.day, b.hour, b.minute, b.second, a.year, a.month, a.day, a.hour, a.minute, a.second);
	}

	inline void gen_bsp(Sim& s, z::BspTree& t, bool) {
		t.mode = (z::BspTreeType) s.below(2);
		t.polygon_indices.resize(s.below(12));
		for (auto& i : t.polygon_indices) i = s.below(4) ? (uint32_t) s.below(10) : s.u32();
		auto set = [&](z::BspNode& n) {
			n.bbox.min = gen_vec3(s);
			n.bbox.max = gen_vec3(s);
			n.polygon_count = (uint32_t) s.below(t.polygon_indices.size() + 1);
			n.polygon_index = (uint32_t) s.below(t.polygon_indices.size() - n.polygon_count + 1);
		};
		size_t budget = s.below(12);
		auto grow = [&](auto& self, int parent, int depth) -> int {
			int me = (int) t.nodes.size();
			t.nodes.emplace_back();
			set(t.nodes[me]);
			t.nodes[me].parent_index = parent;
			t.nodes[me].plane = {};
			bool f = budget && depth < 6 && s.below(3), b = budget && depth < 6 && s.below(3);
			if (f || b) {
				t.nodes[me].plane = {s.f32(), s.f32(), s.f32(), s.f32()};
				t.nodes[me].lod = (uint8_t) s.u32();
				if (f) {
					--budget;
					int k = self(self, me, depth + 1);
					t.nodes[me].front_index = k;
				}
				if (b) {
					if (budget) --budget;
					int k = self(self, me, depth + 1);
					t.nodes[me].back_index = k;
				}
			} else t.leaf_node_indices.push_back((uint64_t) me);
			return me;
		};
		if (s.below(8)) grow(grow, -1, 0);
		for (auto l : t.leaf_node_indices)
			for (uint32_t i = 0; i < t.nodes[l].polygon_count; ++i) t.leaf_polygons.push_back(t.polygon_indices[t.nodes[l].polygon_index + i]);
		std::sort(t.leaf_polygons.begin(), t.leaf_polygons.end());
		if (s.below(3)) {
			t.light_points.resize(t.leaf_node_indices.size());
			for (auto& p : t.light_points) p = gen_vec3(s);
		}
		t.sectors.resize(s.below(3));
		for (auto& x : t.sectors) {
			x.name = s.ident(12);
			x.node_indices.resize(s.below(4) ? s.below(4) : s.below(40)); // a count that is white space as text must not be skipped
			for (auto& i : x.node_indices) i = s.u32();
			x.portal_polygon_indices.resize(s.below(4));
			for (auto& i : x.portal_polygon_indices) i = s.u32();
		}
		t.portal_polygon_indices.resize(s.below(4));
		for (auto& i : t.portal_polygon_indices) i = s.u32();
	}
	inline void cmp_bsp(Sim& s, z::BspTree const& a, z::BspTree const& b, bool g2) {
		s.check(a.mode == b.mode, "bsp", "tree mode differs");
		s.check(a.polygon_indices == b.polygon_indices, "bsp", "polygon indices differ");
		s.check(a.leaf_polygons == b.leaf_polygons, "bsp", "leaf polygons differ");
		s.check(a.portal_polygon_indices == b.portal_polygon_indices, "bsp", "portal polygons differ");
		s.check(a.leaf_node_indices == b.leaf_node_indices, "bsp", "leaf nodes differ: %zu, saved %zu", b.leaf_node_indices.size(), a.leaf_node_indices.size());
		s.check(a.light_points.size() == b.light_points.size(), "bsp", "%zu light points, saved %zu", b.light_points.size(), a.light_points.size());
		for (size_t i = 0; i < a.light_points.size(); ++i) s.check(bits_eq(a.light_points[i], b.light_points[i]), "bsp", "light point %zu differs", i);
		s.check(a.sectors.size() == b.sectors.size(), "bsp", "%zu sectors, saved %zu", b.sectors.size(), a.sectors.size());
		for (size_t i = 0; i < a.sectors.size(); ++i)
			s.check(a.sectors[i].name == b.sectors[i].name && a.sectors[i].node_indices == b.sectors[i].node_indices && a.sectors[i].portal_polygon_indices == b.sectors[i].portal_polygon_indices, "bsp", "sector %zu differs", i);
		s.check(a.nodes.size() == b.nodes.size(), "bsp", "%zu nodes, saved %zu", b.nodes.size(), a.nodes.size());
		for (size_t i = 0; i < a.nodes.size(); ++i) {
			auto &x = a.nodes[i], &y = b.nodes[i];
			bool ok = bits_eq(x.bbox, y.bbox) && x.polygon_index == y.polygon_index && x.polygon_count == y.polygon_count && x.front_index == y.front_index && x.back_index == y.back_index && x.parent_index == y.parent_index;
			if (!x.is_leaf()) {
				ok = ok && bits_eq(x.plane.x, y.plane.x) && bits_eq(x.plane.y, y.plane.y) && bits_eq(x.plane.z, y.plane.z) && bits_eq(x.plane.w, y.plane.w);
				if (!g2) ok = ok && x.lod == y.lod;
			}
			s.check(ok, "bsp", "node %zu differs (front %d back %d parent %d, saved %d %d %d)", i, y.front_index, y.back_index, y.parent_index, x.front_index, x.back_index, x.parent_index);
		}
	}

	inline void gen_mesh(Sim& s, z::Mesh& m, ObjGen& g, bool g2) {
		m.date = gen_date(s);
		m.name = s.ident(16);
		m.bbox.min = gen_vec3(s);
		m.bbox.max = gen_vec3(s);
		gen_obb(s, m.obb, 2);
		m.materials.resize(s.below(4));
		for (auto& x : m.materials) {
			visit(g, x, x);
			if (x.name.empty()) x.name = "M";
		}
		m.vertices.resize(s.below(10));
		for (auto& v : m.vertices) v = gen_vec3(s);
		m.features.resize(s.below(10));
		for (auto& f : m.features) {
			f.texture = {s.f32(), s.f32()};
			f.light = s.u32();
			f.normal = gen_vec3(s);
		}
		std::vector<std::shared_ptr<z::Texture>> tex;
		size_t n = s.below(4);
		for (size_t i = 0; i < n; ++i) {
			if (tex.empty() || s.coin()) tex.push_back(std::make_shared<z::Texture>(gen_texture(s)));
			z::LightMap l;
			l.image = tex[s.below(tex.size())];
			l.normals[0] = gen_vec3(s);
			l.normals[1] = gen_vec3(s);
			l.origin = gen_vec3(s);
			m.lightmaps.push_back(l);
		}
		m.geometry.resize(s.below(10));
		for (auto& p : m.geometry) {
			p.material = (uint16_t) s.u32();
			p.lightmap = (int16_t) s.i32();
			p.plane_distance = s.f32();
			p.plane_normal = gen_vec3(s);
			p.flags.is_portal = s.below(4) ? 0 : (uint8_t) s.below(4);
			p.flags.is_occluder = s.coin();
			p.flags.is_sector = s.coin();
			p.flags.should_relight = s.coin();
			p.flags.is_outdoor = s.below(4) == 3;
			p.flags.is_ghost_occluder = s.below(4) == 3;
			p.flags.is_dynamically_lit = s.coin();
			p.flags.is_lod = s.coin();
			p.flags.normal_axis = (uint8_t) s.below(4);
			p.flags.sector_index = (int16_t) s.i32();
			p.index_count = s.below(12) ? s.below(7) : s.below(256);
			p.index_offset = m.polygon_vertex_indices.size();
			for (size_t i = 0; i < p.index_count; ++i) {
				uint32_t v = s.u32();
				m.polygon_vertex_indices.push_back(g2 ? v : v & 0xFFFF);
				m.polygon_feature_indices.push_back(s.u32());
			}
		}
	}
	/// Makes a world as large as those of the games: more nodes, vertices, polygons and lightmaps than 16 bits count.
	inline void enlarge(Sim& s, z::World& w, bool g2) {
		uint64_t x = s.u32() | 1;
		auto rnd = [&](uint64_t n) { return (uint32_t) (((x = x * 6364136223846793005ull + 1442695040888963407ull) >> 33) % n); };
		auto fl = [&] { return (float) rnd(1 << 20) / 64; };
		auto v3 = [&] { return z::Vec3 {fl(), fl(), fl()}; };
		auto& m = w.world_mesh;
		int what = (int) s.below(4);
		if (what == 0) {
			auto& t = w.world_bsp_tree;
			t = {};
			t.polygon_indices.resize(rnd(70000));
			for (auto& i : t.polygon_indices) i = rnd(100000);
			auto grow = [&](auto& self, int parent, int depth) -> int {
				int me = (int) t.nodes.size();
				auto& n = t.nodes.emplace_back();
				n.bbox.min = v3(), n.bbox.max = v3();
				n.polygon_count = rnd(std::min<size_t>(3, t.polygon_indices.size() + 1));
				n.polygon_index = rnd(t.polygon_indices.size() - n.polygon_count + 1);
				n.parent_index = parent;
				n.plane = {};
				if (depth < 16) {
					n.plane = {fl(), fl(), fl(), fl()};
					n.lod = (uint8_t) rnd(256);
					int k = self(self, me, depth + 1);
					t.nodes[me].front_index = k;
					k = self(self, me, depth + 1);
					t.nodes[me].back_index = k;
				} else {
					t.leaf_node_indices.push_back((uint64_t) me);
					for (uint32_t i = 0; i < n.polygon_count; ++i) t.leaf_polygons.push_back(t.polygon_indices[n.polygon_index + i]);
				}
				return me;
			};
			grow(grow, -1, 0);
			std::sort(t.leaf_polygons.begin(), t.leaf_polygons.end());
		} else if (what == 1) {
			m.vertices.resize(66000 + rnd(1000));
			for (auto& v : m.vertices) v = v3();
			m.features.resize(66000 + rnd(1000));
			for (auto& f : m.features) f = {{fl(), fl()}, (uint32_t) rnd(1 << 30), v3()};
		} else if (what == 2) {
			m.geometry.resize(66000 + rnd(1000));
			m.polygon_vertex_indices.clear(), m.polygon_feature_indices.clear();
			for (auto& p : m.geometry) {
				p = {};
				p.material = (uint16_t) rnd(70000), p.lightmap = (int16_t) rnd(70000), p.plane_distance = fl(), p.plane_normal = v3();
				p.flags.is_occluder = rnd(2), p.flags.sector_index = (int16_t) rnd(70000);
				p.index_count = rnd(5);
				p.index_offset = m.polygon_vertex_indices.size();
				for (size_t i = 0; i < p.index_count; ++i) m.polygon_vertex_indices.push_back(rnd(g2 ? 1 << 20 : 1 << 16)), m.polygon_feature_indices.push_back(rnd(1 << 20));
			}
			auto& t = w.world_bsp_tree;
			t = {};
			t.polygon_indices.resize(1000);
			for (auto& i : t.polygon_indices) i = rnd(66000);
			t.nodes.resize(1), t.nodes[0].polygon_count = 1000, t.leaf_node_indices = {0};
			t.nodes[0].plane = {};
			t.nodes[0].parent_index = -1;
			t.leaf_polygons = t.polygon_indices;
			std::sort(t.leaf_polygons.begin(), t.leaf_polygons.end());
		} else {
			std::vector<std::byte> f(36 + 16);
			uint32_t h[9] = {0, 0, 0, 2, 2, 1, 2, 2, 0};
			memcpy(h, "ZTEX", 4);
			size_t n = 257 + rnd(100);
			std::vector<std::shared_ptr<z::Texture>> tex;
			m.lightmaps.clear();
			for (size_t i = 0; i < n; ++i) {
				h[8] = (uint32_t) i;
				memcpy(f.data(), h, 36);
				for (size_t k = 36; k < f.size(); ++k) f[k] = (std::byte) rnd(256);
				auto r = z::Read::from(&f);
				tex.push_back(std::make_shared<z::Texture>());
				tex.back()->load(r.get());
				m.lightmaps.push_back({tex[rnd(4) ? i : rnd(i + 1)], {v3(), v3()}, v3()});
			}
		}
	}
	/// What the polygon list has to hold: a fan of triangles of every solid polygon some leaf refers to.
	inline z::PolygonList triangles(z::Mesh const& m, std::vector<uint32_t> const& leafs) {
		z::PolygonList r;
		std::set<uint32_t> in(leafs.begin(), leafs.end());
		for (uint32_t i = 0; i < m.geometry.size(); ++i) {
			auto& p = m.geometry[i];
			if (!in.count(i) || p.flags.is_portal || p.flags.is_ghost_occluder || p.flags.is_outdoor) continue;
			for (size_t k = 2; k < p.index_count; ++k) {
				for (size_t o : {(size_t) 0, k - 1, k}) {
					r.vertex_indices.push_back(m.polygon_vertex_indices[p.index_offset + o]);
					r.feature_indices.push_back(m.polygon_feature_indices[p.index_offset + o]);
				}
				r.material_indices.push_back(p.material);
				r.lightmap_indices.push_back(p.lightmap);
				r.flags.push_back(p.flags);
			}
		}
		return r;
	}
	inline void cmp_mesh(Sim& s, z::Mesh& a, z::Mesh& b, bool g2, std::vector<uint32_t> const* leafs) {
		cmp_date(s, a.date, b.date);
		s.check(a.name == b.name, "mesh", "mesh name differs");
		s.check(bits_eq(a.bbox, b.bbox), "mesh", "mesh bbox differs");
		cmp_obb(s, a.obb, b.obb);
		s.check(a.materials.size() == b.materials.size(), "mesh", "%zu materials, saved %zu", b.materials.size(), a.materials.size());
		ObjCfg mc;
		mc.g2 = g2;
		mc.fmt = z::ArchiveFormat::BINARY;
		for (size_t i = 0; i < a.materials.size(); ++i) {
			ObjCmp c(s, mc);
			c.where = {"material" + std::to_string(i)};
			visit(c, a.materials[i], b.materials[i]);
		}
		s.check(a.vertices.size() == b.vertices.size(), "mesh", "%zu vertices, saved %zu", b.vertices.size(), a.vertices.size());
		for (size_t i = 0; i < a.vertices.size(); ++i) s.check(bits_eq(a.vertices[i], b.vertices[i]), "mesh", "vertex %zu differs", i);
		s.check(a.features.size() == b.features.size(), "mesh", "%zu features, saved %zu", b.features.size(), a.features.size());
		for (size_t i = 0; i < a.features.size(); ++i)
			s.check(bits_eq(a.features[i].texture, b.features[i].texture) && a.features[i].light == b.features[i].light && bits_eq(a.features[i].normal, b.features[i].normal), "mesh", "feature %zu differs", i);
		s.check(a.lightmaps.size() == b.lightmaps.size(), "mesh", "%zu lightmaps, saved %zu", b.lightmaps.size(), a.lightmaps.size());
		for (size_t i = 0; i < a.lightmaps.size(); ++i) {
			auto &x = a.lightmaps[i], &y = b.lightmaps[i];
			s.check(bits_eq(x.origin, y.origin) && bits_eq(x.normals[0], y.normals[0]) && bits_eq(x.normals[1], y.normals[1]) && y.image, "mesh", "lightmap %zu differs", i);
			cmp_texture(s, "lightmap", *x.image, *y.image);
			for (size_t j = 0; j < i; ++j) s.check((a.lightmaps[j].image == x.image) == (b.lightmaps[j].image == y.image), "mesh", "lightmaps %zu and %zu share their image differently", j, i);
		}
		s.check(a.geometry.size() == b.geometry.size(), "mesh", "%zu polygons, saved %zu", b.geometry.size(), a.geometry.size());
		for (size_t i = 0; i < a.geometry.size(); ++i) {
			auto &x = a.geometry[i], &y = b.geometry[i];
			auto &f = x.flags, &h = y.flags;
			bool fl = f.is_portal == h.is_portal && f.is_occluder == h.is_occluder && f.is_sector == h.is_sector && f.is_outdoor == h.is_outdoor && f.is_ghost_occluder == h.is_ghost_occluder && f.sector_index == h.sector_index;
			if (g2) fl = fl && f.should_relight == h.should_relight && f.is_dynamically_lit == h.is_dynamically_lit;
			else fl = fl && f.is_lod == h.is_lod && f.normal_axis == h.normal_axis;
			s.check(fl, "mesh", "flags of polygon %zu differ", i);
			s.check(x.material == y.material && x.lightmap == y.lightmap && bits_eq(x.plane_distance, y.plane_distance) && bits_eq(x.plane_normal, y.plane_normal) && x.index_count == y.index_count && x.index_offset == y.index_offset, "mesh", "polygon %zu differs (%zu indices at %zu, saved %zu at %zu)", i, y.index_count, y.index_offset, x.index_count, x.index_offset);
		}
		s.check(a.polygon_vertex_indices == b.polygon_vertex_indices, "mesh", "vertex indices differ");
		s.check(a.polygon_feature_indices == b.polygon_feature_indices, "mesh", "feature indices differ");
		if (leafs) {
			auto t = triangles(b, *leafs);
			auto& p = b.polygons;
			bool ok = t.vertex_indices == p.vertex_indices && t.feature_indices == p.feature_indices && t.material_indices == p.material_indices && t.lightmap_indices == p.lightmap_indices && t.flags.size() == p.flags.size();
			for (size_t i = 0; ok && i < t.flags.size(); ++i) ok = t.flags[i] == p.flags[i];
			s.check(ok, "triangles", "the triangle list (%zu) is not the fan of the solid leaf polygons (%zu)", p.vertex_indices.size() / 3, t.vertex_indices.size() / 3);
		}
	}

	// ---- worlds ----------------------------------------------------------------------------------
	inline void gen_world(Sim& s, z::World& w, ObjGen& g, bool mesh, bool g2) {
		if (mesh) {
			gen_bsp(s, w.world_bsp_tree, g2);
			gen_mesh(s, w.world_mesh, g, g2);
		}
		size_t n = s.below(4);
		auto grow = [&](auto& self, std::vector<std::shared_ptr<z::VirtualObject>>& out, size_t n, int depth) -> void {
			for (size_t i = 0; i < n; ++i) {
				auto v = g.vob();
				out.push_back(v);
				if (depth < 3 && g.budget && s.below(3) == 0) self(self, v->children, 1 + s.below(3), depth + 1);
			}
		};
		grow(grow, w.world_vobs, n, 0);
		if (s.below(4)) w.way_net = g.fresh<z::WayNet>();
		if (s.coin()) w.player = g.fresh<z::CutscenePlayer>();
		if (s.coin()) w.sky_controller = g.fresh<z::SkyController>();
		n = s.below(3);
		for (size_t i = 0; i < n; ++i) {
			auto r = s.below(3) ? nullptr : g.reuse<z::VNpc>();
			w.npcs.push_back(r ? r : g.fresh<z::VNpc>());
		}
		n = s.below(3);
		for (size_t i = 0; i < n; ++i) {
			z::SpawnLocation l {};
			if (!w.npcs.empty() && s.coin()) l.npc = w.npcs[s.below(w.npcs.size())];
			else if (s.coin()) l.npc = g.fresh<z::VNpc>();
			l.position = gen_vec3(s);
			l.timer = s.f32();
			w.npc_spawns.push_back(l);
		}
		w.npc_spawn_enabled = s.coin();
		w.npc_spawn_flags = s.i32();
	}
	inline void cmp_world(Sim& s, ObjCmp& c, z::World& a, z::World& b) {
		auto tree = [&](auto& self, std::vector<std::shared_ptr<z::VirtualObject>>& x, std::vector<std::shared_ptr<z::VirtualObject>>& y, std::string const& at) -> void {
			s.check(x.size() == y.size(), "vob-tree", "%s has %zu objects, saved %zu", at.c_str(), y.size(), x.size());
			for (size_t i = 0; i < x.size(); ++i) {
				auto p = at + "/" + std::to_string(i);
				c.where = {p};
				c.obj("vob", x[i].get(), y[i].get());
				self(self, x[i]->children, y[i]->children, p);
			}
		};
		tree(tree, a.world_vobs, b.world_vobs, "tree");
		c.where = {"world"};
		c.o("way_net", a.way_net, b.way_net);
		if (c.c.save) {
			c.o("player", a.player, b.player);
			c.o("sky_controller", a.sky_controller, b.sky_controller);
			s.check(a.npcs.size() == b.npcs.size(), "npcs", "%zu NPCs, saved %zu", b.npcs.size(), a.npcs.size());
			for (size_t i = 0; i < a.npcs.size(); ++i) c.o("npc", a.npcs[i], b.npcs[i]);
			s.check(a.npc_spawns.size() == b.npc_spawns.size(), "spawns", "%zu spawns, saved %zu", b.npc_spawns.size(), a.npc_spawns.size());
			for (size_t i = 0; i < a.npc_spawns.size(); ++i) {
				c.o("spawn.npc", a.npc_spawns[i].npc, b.npc_spawns[i].npc);
				c.f("spawn.position", a.npc_spawns[i].position, b.npc_spawns[i].position);
				c.f("spawn.timer", a.npc_spawns[i].timer, b.npc_spawns[i].timer);
			}
			c.f("npc_spawn_enabled", a.npc_spawn_enabled, b.npc_spawn_enabled);
			if (c.c.g2) c.same("npc_spawn_flags", a.npc_spawn_flags, b.npc_spawn_flags);
		}
	}
	/// Children and fields may refer to each other strongly: cut the tree so that nothing leaks.
	inline void cut_world(z::World& w) {
		auto cut = [&](auto& self, std::vector<std::shared_ptr<z::VirtualObject>>& v) -> void {
			auto k = std::move(v);
			v.clear();
			for (auto& x : k) self(self, x->children);
		};
		cut(cut, w.world_vobs);
	}

	// ---- save-game state -------------------------------------------------------------------------
	inline void gen_state(Sim& s, z::SaveState& t, ObjGen& g) {
		size_t many = s.below(40) ? 5 : s.below(5); // (one of the lists is long)
		auto count = [&](size_t k, size_t usual) { return k == many ? s.below(700) : s.below(usual); };
		t.day = s.i32();
		t.hour = s.i32();
		t.minute = s.i32();
		t.missions.resize(count(0, 3));
		for (auto& m : t.missions) {
			m.name = g.text();
			m.id = s.i32();
			m.available = s.coin();
			m.status_index = s.i32();
		}
		t.cutscene_manager = s.below(4) ? g.fresh<z::CutsceneManager>() : nullptr;
		t.infos.resize(count(1, 4));
		for (auto& i : t.infos) {
			i.name = g.text();
			i.told = s.coin();
		}
		t.symbols.resize(count(2, 4));
		for (auto& y : t.symbols) {
			y.name = g.text();
			y.values.resize(many == 3 && s.below(3) == 0 ? s.below(700) : s.below(4));
			for (auto& v : y.values) v = s.i32();
		}
		t.log.resize(count(4, 3));
		for (auto& l : t.log) {
			l.description = g.text();
			l.section = (z::SaveTopicSection) s.below(2);
			l.status = (z::SaveTopicStatus) s.below(5);
			l.entries.resize(many == 3 && s.below(3) == 0 ? s.below(400) : s.below(4));
			for (auto& e : l.entries) e = g.text();
		}
		auto b = s.bytes(42 * 42);
		memcpy(t.guild_attitudes, b.data(), b.size());
	}
	inline void cmp_state(Sim& s, ObjCmp& c, z::SaveState& a, z::SaveState& b) {
		c.where = {"state"};
		c.f("day", a.day, b.day);
		c.f("hour", a.hour, b.hour);
		c.f("minute", a.minute, b.minute);
		c.vec("missions", a.missions, b.missions, 0, [&](auto& x, auto& y) {
			c.f("mission.name", x.name, y.name);
			c.f("mission.id", x.id, y.id);
			c.f("mission.available", x.available, y.available);
			c.f("mission.status_index", x.status_index, y.status_index);
		});
		c.o("cutscene_manager", a.cutscene_manager, b.cutscene_manager);
		c.vec("infos", a.infos, b.infos, 0, [&](auto& x, auto& y) {
			c.f("info.name", x.name, y.name);
			c.f("info.told", x.told, y.told);
		});
		c.vec("symbols", a.symbols, b.symbols, 0, [&](auto& x, auto& y) {
			c.f("symbol.name", x.name, y.name);
			auto want = x.values;
			if (!c.c.g2) want.resize(1); // one value each
			c.vec("symbol.values", want, y.values, 0, [&](auto& p, auto& q) { c.f("symbol.value", p, q); });
		});
		c.vec("log", a.log, b.log, 0, [&](auto& x, auto& y) {
			c.f("log.description", x.description, y.description);
			c.same("log.section", (int64_t) x.section, (int64_t) y.section);
			c.same("log.status", (int64_t) x.status, (int64_t) y.status);
			c.vec("log.entries", x.entries, y.entries, 0, [&](auto& p, auto& q) { c.f("log.entry", p, q); });
		});
		s.check(memcmp(a.guild_attitudes, b.guild_attitudes, sizeof a.guild_attitudes) == 0, "guilds", "guild attitudes differ");
	}
} // namespace sim
