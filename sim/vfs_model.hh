// Reference model of the virtual file system: a tree keyed by ASCII-case-insensitive names.
#pragma once
#include "core.hh"
#include <zenkit/Stream.hh>
#include <zenkit/Vfs.hh>

#include <cstring>
#include <map>
#include <memory>
#include <string>

namespace vm {
	inline std::string fold(std::string_view s) {
		std::string r(s);
		for (auto& c : r)
			if (c >= 'A' && c <= 'Z') c = (char) (c - 'A' + 'a');
		return r;
	}
	inline std::string_view rtrim(std::string_view s) {
		while (!s.empty() && (s.back() == ' ' || (s.back() >= '\t' && s.back() <= '\r'))) s.remove_suffix(1);
		return s;
	}

	struct Node {
		std::string name;
		int64_t time = -1;
		bool any_time = false; // time not specified by the documentation (e.g. directory created by mkdir at a jumping clock)
		bool file = false;
		std::vector<std::byte> data;
		std::map<std::string, Node> kids; // by folded name

		Node* child(std::string_view n) {
			auto it = kids.find(fold(rtrim(n)));
			return it == kids.end() ? nullptr : &it->second;
		}
		Node const* child(std::string_view n) const { return const_cast<Node*>(this)->child(n); }
		void put(Node n) {
			auto k = fold(n.name);
			kids.erase(k);
			kids.emplace(std::move(k), std::move(n));
		}
		size_t count() const {
			size_t c = 1;
			for (auto& [k, v] : kids) c += v.count();
			return c;
		}
		bool has_file() const {
			if (file) return true;
			for (auto& [k, v] : kids)
				if (v.has_file()) return true;
			return false;
		}
	};

	inline std::vector<std::string> split(std::string_view p) {
		std::vector<std::string> r;
		size_t i = 0;
		while (i < p.size()) {
			size_t e = p.find('/', i);
			if (e == std::string_view::npos) e = p.size();
			if (e > i) r.emplace_back(p.substr(i, e - i));
			i = e + 1;
		}
		return r;
	}
	inline Node* resolve(Node& root, std::string_view p) {
		Node* c = &root;
		for (auto& part : split(p)) {
			if (c->file) return nullptr;
			c = c->child(part);
			if (!c) return nullptr;
		}
		return c;
	}

	using zenkit::VfsOverwriteBehavior;
	inline bool replaces(VfsOverwriteBehavior o, int64_t existing, int64_t incoming) {
		switch (o) {
		case VfsOverwriteBehavior::NONE: return false;
		case VfsOverwriteBehavior::ALL: return true;
		case VfsOverwriteBehavior::NEWER: return existing > incoming;
		case VfsOverwriteBehavior::OLDER: return existing < incoming;
		}
		return false;
	}
	inline void mount(Node& dest, Node const& src, VfsOverwriteBehavior o) {
		Node* ex = dest.child(src.name);
		if (!ex) {
			dest.put(src);
			return;
		}
		if (ex->file || src.file) {
			if (replaces(o, ex->time, src.time)) dest.put(src);
			return;
		}
		for (auto& [k, v] : src.kids) mount(*ex, v, o);
	}

	inline std::vector<std::byte> slurp(zenkit::Read& r) {
		r.seek(0, zenkit::Whence::END);
		size_t n = r.tell();
		r.seek(0, zenkit::Whence::BEG);
		std::vector<std::byte> v(n);
		size_t k = r.read(v.data(), n);
		v.resize(k);
		return v;
	}

	/// Compares a real tree with the model. `time_gran` < 0: times are not compared.
	inline void compare(sim::Sim& s, zenkit::VfsNode const& real, Node const& model, std::string const& at, int64_t time_gran, bool contents = true) {
		bool is_file = real.type() == zenkit::VfsNodeType::FILE;
		s.check(is_file == model.file, "node-kind", "%s: real %s, model %s", at.c_str(), is_file ? "file" : "directory", model.file ? "file" : "directory");
		if (at != "/" && at != "") {
			s.check(real.name() == model.name, "node-name", "%s: real name '%s', model '%s'", at.c_str(), real.name().c_str(), model.name.c_str());
			if (time_gran >= 0 && !model.any_time) {
				int64_t d = (int64_t) real.time() - model.time;
				s.check(d <= time_gran && d >= -time_gran, "node-time", "%s: real time %lld, model %lld", at.c_str(), (long long) real.time(), (long long) model.time);
			}
		}
		if (is_file) {
			if (contents) {
				auto r = real.open_read();
				s.check(r != nullptr, "open", "%s: open_read returned null", at.c_str());
				auto got = slurp(*r);
				s.check(got == model.data, "file-content", "%s: %zu bytes, model has %zu bytes; contents differ", at.c_str(), got.size(), model.data.size());
			}
			return;
		}
		size_t n = 0;
		for (auto& k : real.children()) {
			++n;
			auto* m = model.child(k.name());
			s.check(m != nullptr, "extra-node", "%s/%s exists but should not", at.c_str(), k.name().c_str());
			compare(s, k, *m, at + "/" + k.name(), time_gran, contents);
		}
		if (n != model.kids.size()) {
			for (auto& [k, v] : model.kids)
				s.check(real.child(v.name) != nullptr, "missing-node", "%s/%s is missing", at.c_str(), v.name.c_str());
			s.fail("duplicate-node", "%s: %zu children, model has %zu", at.c_str(), n, model.kids.size());
		}
	}

	/// Builds a real node tree (with owned or borrowed file data) from a model tree.
	inline zenkit::VfsNode to_node(Node const& m, bool own) {
		if (m.file) {
			std::byte const* mem = m.data.data();
			if (own) {
				auto* p = new std::byte[m.data.size()];
				if (!m.data.empty()) memcpy(p, m.data.data(), m.data.size());
				mem = p;
			}
			return zenkit::VfsNode::file(m.name, zenkit::VfsFileDescriptor {mem, m.data.size(), own}, m.time);
		}
		auto n = zenkit::VfsNode::directory(m.name, m.time);
		for (auto& [k, v] : m.kids) n.create(to_node(v, own));
		return n;
	}

	inline std::string gen_name(sim::Sim& s, bool wide) {
		static std::vector<std::string> const pool {"A", "a", "B", "FOO.TEX", "foo.tex", "Foo.Tex", "b b", "_x", "WORLD.ZEN", "[x]", "C", "c.wav", "D.OGG", "zz", "Z", "a.b.c", "M1", "m2", " lead"};
		switch (s.below(wide ? 5 : 4)) {
		case 0:
		case 1:
		case 2: return s.pick(pool);
		case 3: return s.ident(6);
		default: {
			auto n = s.ident(64);
			while (n.size() < 60 + s.below(5)) n += 'Q';
			if (n.size() > 64) n.resize(64);
			if (s.coin() && n.size() > 1) n[0] = (char) 0xE4;
			return n;
		}
		}
	}
	inline Node gen_tree(sim::Sim& s, std::string name, int depth, int64_t t0, int64_t t1, bool wide, bool big) {
		Node n;
		n.name = std::move(name);
		n.time = s.range(t0, t1);
		if (depth == 0 || s.below(2)) {
			n.file = true;
			size_t len = s.below(4) ? s.below(40) : s.below(big ? 40000 : 3000);
			n.data = s.bytes(len);
			return n;
		}
		size_t k = s.below(5);
		for (size_t i = 0; i < k; ++i) {
			auto nm = gen_name(s, wide);
			if (n.child(nm)) continue;
			n.put(gen_tree(s, nm, depth - 1, t0, t1, wide, big));
		}
		return n;
	}
	inline void describe(Node const& n, std::string& out) {
		if (out.size() > 400) return;
		if (n.file) {
			out += n.name + "(" + std::to_string(n.data.size()) + "@" + std::to_string(n.time % 1000) + ")";
			return;
		}
		out += n.name + "{";
		for (auto& [k, v] : n.kids) describe(v, out), out += ",";
		out += "}";
	}
	inline std::string describe(Node const& n) {
		std::string s;
		describe(n, s);
		return s;
	}

	/// Independent VDF writer (from the format documentation): header, catalog in breadth-first blocks, file data.
	struct Image {
		std::vector<std::byte> bytes;
		void u32(uint32_t v) {
			for (int i = 0; i < 4; ++i) bytes.push_back((std::byte) (v >> (8 * i)));
		}
		void u32_at(size_t p, uint32_t v) {
			for (int i = 0; i < 4; ++i) bytes[p + i] = (std::byte) (v >> (8 * i));
		}
		void str(std::string_view v) {
			for (char c : v) bytes.push_back((std::byte) c);
		}
	};
	inline uint32_t dos_time(int y, int mo, int d, int h, int mi, int se) {
		return (uint32_t) ((y - 1980) << 25 | mo << 21 | d << 16 | h << 11 | mi << 5 | se / 2);
	}
	/// Directories without any file below are left out (the format cannot store them).
	inline std::vector<std::byte> build_vdf(Node const& root, uint32_t dos, int sig, bool zero_catalog_offset = false) {
		static char const* sigs[] = {"PSVDSC_V2.00\r\n\r\n", "PSVDSC_V2.00\n\r\n\r", "PSVDSC_V2.00\x1A\x1A\x1A\x1A"};
		struct Ent {
			Node const* n;
			bool last;
			uint32_t first = 0;
		};
		std::vector<Ent> ents;
		uint32_t files = 0;
		std::function<void(Node const&)> lay = [&](Node const& d) {
			size_t b = ents.size();
			for (auto& [k, v] : d.kids)
				if (v.has_file()) ents.push_back({&v, false});
			size_t e = ents.size();
			if (e > b) ents[e - 1].last = true;
			for (size_t i = b; i < e; ++i)
				if (!ents[i].n->file) {
					ents[i].first = (uint32_t) ents.size();
					lay(*ents[i].n);
				} else ++files;
		};
		lay(root);
		Image im;
		std::string c = "sim";
		c.resize(256, '\x1A');
		im.str(c);
		im.str(std::string_view(sigs[sig], 16));
		im.u32((uint32_t) ents.size());
		im.u32(files);
		im.u32(dos);
		im.u32(0);
		im.u32(zero_catalog_offset ? 0 : 296);
		im.u32(0x50);
		uint32_t off = 296 + 80 * (uint32_t) ents.size();
		for (auto& e : ents) {
			std::string n = e.n->name;
			// (names are padded with white space of any kind)
			n.resize(64, "    \t\r\n\v\f"[(n.size() + dos / 7) % 9]);
			im.str(n);
			if (e.n->file) {
				im.u32(off);
				im.u32((uint32_t) e.n->data.size());
				im.u32(e.last ? 0x40000000u : 0u);
				off += (uint32_t) e.n->data.size();
			} else {
				im.u32(e.first);
				im.u32(0);
				im.u32(0x80000000u | (e.last ? 0x40000000u : 0u));
			}
			im.u32(0);
		}
		for (auto& e : ents)
			if (e.n->file) im.bytes.insert(im.bytes.end(), e.n->data.begin(), e.n->data.end());
		im.u32_at(256 + 16 + 12, (uint32_t) im.bytes.size());
		return std::move(im.bytes);
	}
	/// What mounting such an image adds: only nodes with files below, all with the volume's time.
	inline Node stamped(Node const& n, int64_t t) {
		Node r = n;
		r.kids.clear();
		r.time = t;
		for (auto& [k, v] : n.kids)
			if (v.has_file()) r.put(stamped(v, t));
		return r;
	}
} // namespace vm
