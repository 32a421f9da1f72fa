// P19: loading damaged archives (objects, worlds, save-game slots, cutscene libraries) is memory-safe, ends, reports errors as
// exceptions and never yields an object where another class belongs.
#include "damage.hh"
#include "endpoints.hh"
#include "saves.hh"
#include "seam.hh"
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>

using namespace sim;

static z::ArchiveFormat const FV[] = {z::ArchiveFormat::BINARY, z::ArchiveFormat::BINSAFE, z::ArchiveFormat::ASCII};
static char const* const FN[] = {"BINARY", "BIN_SAFE", "ASCII"};

/// Reads every field of an object graph and checks the class of every object in it.
struct Touch {
	Sim& s;
	std::set<z::Object const*> seen;
	uint64_t sum = 0;
	explicit Touch(Sim& s) : s(s) {}
	bool gen() const { return false; }
	bool g2() const { return true; }
	bool save() const { return true; }
	bool pack() const { return true; }
	bool packed() const { return true; }
	void raw(void const* p, size_t n) {
		for (size_t i = 0; i < n; ++i) sum += ((uint8_t const*) p)[i];
	}
	void f(char const*, std::string& a, std::string&) { raw(a.data(), a.size()); }
	void plain(char const*, std::string& a, std::string&) { raw(a.data(), a.size()); }
	template <typename T>
	    requires std::is_trivially_copyable_v<T>
	void f(char const*, T& a, T&, bool = false) { raw(&a, sizeof a); }
	template <typename A, typename B>
	void same(char const*, A const& a, B const&) { sum += (uint64_t) a; }
	void i(char const*, int32_t& a, int32_t&, int, int) { sum += (uint64_t) a; }
	template <typename E>
	void e(char const*, E& a, E&, int) { raw(&a, sizeof a); }
	template <typename T, typename Fn>
	void vec(char const*, std::vector<T>& a, std::vector<T>&, int, Fn fn) {
		for (auto& x : a) fn(x, x);
	}
	void obj(z::Object* a) {
		if (!a || !seen.insert(a).second || seen.size() > 20000) return;
		visit_any(*this, *a, *a);
		if (auto* v = dynamic_cast<z::VirtualObject*>(a))
			for (auto& c : v->children) o("child", c, c);
	}
	template <typename T>
	void is(char const* n, T* p) {
		if (!p) return;
		auto* a = (z::Object*) p;
		if (!dynamic_cast<T*>(a)) s.fail("wrong-class", "%s is an object of class %d, which does not belong there", n, (int) a->get_object_type());
		obj(a);
	}
	template <typename T>
	void o(char const* n, std::shared_ptr<T>& a, std::shared_ptr<T>&) { is(n, a.get()); }
	template <typename T>
	void w(char const* n, std::weak_ptr<T>& a, std::weak_ptr<T>&) { is(n, a.lock().get()); }
	void visual(z::VirtualObject& a, z::VirtualObject&) {
		is("visual", a.visual.get());
		if (a.visual) raw(a.visual->name.data(), a.visual->name.size());
	}
	void body(z::VirtualObject& a, z::VirtualObject&) {
		if (a.rigid_body) visit(*this, *a.rigid_body, *a.rigid_body);
	}
	void block(z::CutsceneBlock& a, z::CutsceneBlock&) {
		if (a.block.index()) o("block", std::get<1>(a.block), std::get<1>(a.block));
		else o("block", std::get<0>(a.block), std::get<0>(a.block));
		auto m = a.get_message();
		is("message", m.get());
	}
	void library(z::CutsceneLibrary& a, z::CutsceneLibrary&) {
		for (auto& p : a.blocks) {
			o("block", p, p);
			auto q = a.block_by_name(p->name);
			s.check(q != nullptr && q->name == p->name, "block-by-name", "a loaded block is not found");
		}
	}
	void waynet(z::WayNet& a, z::WayNet&) {
		for (auto& p : a.points) o("point", p, p);
		for (auto& [l, r] : a.edges) o("left", l, l), o("right", r, r);
	}
	void world(z::World& w) {
		for (auto& v : w.world_vobs) o("vob", v, v);
		o("way net", w.way_net, w.way_net);
		o("player", w.player, w.player);
		o("sky", w.sky_controller, w.sky_controller);
		for (auto& n : w.npcs) o("npc", n, n);
		for (auto& n : w.npc_spawns) o("spawn", n.npc, n.npc);
		for (auto& p : w.world_mesh.geometry) sum += p.material;
		for (auto& n : w.world_bsp_tree.nodes) sum += n.polygon_index;
	}
};

/// Children that contain themselves cannot be walked through (nor saved); the format allows to say so.
static bool circular(std::vector<std::shared_ptr<z::VirtualObject>> const& v, std::set<z::Object const*>& path, size_t& n) {
	for (auto& x : v) {
		if (++n > 20000 || !path.insert(x.get()).second) return true;
		if (circular(x->children, path, n)) return true;
		path.erase(x.get());
	}
	return false;
}
static bool circular(std::vector<std::shared_ptr<z::VirtualObject>> const& v) {
	std::set<z::Object const*> path;
	size_t n = 0;
	return circular(v, path, n);
}

static void free_memory() { alloc_fail_at = 0, alloc_cap = 1ull << 30; }

template <typename Fn>
static std::string attempt(Sim& s, char const* what, Fn fn) {
	std::string out;
	try {
		fn();
		out = "loaded";
	} catch (z::Error const& e) {
		free_memory();
		out = std::string("rejected: ") + e.what();
	} catch (std::bad_alloc const&) {
		free_memory();
		out = "out of memory";
	} catch (std::length_error const&) {
		free_memory();
		out = "out of memory (length)";
	} catch (Violation const&) {
		throw;
	} catch (std::exception const& e) {
		free_memory();
		s.fail("exception", "%s: an undocumented exception escapes: %s", what, e.what());
	} catch (...) {
		s.fail("exception", "%s: something that is no exception was thrown", what);
	}
	free_memory();
	return out;
}

static void resave(ObjCfg c, std::function<void(z::WriteArchive&, z::GameVersion)> const& fn) {
	for (auto f : FV) {
		std::vector<std::byte> d;
		auto w = z::Write::to(&d);
		auto a = c.save ? z::WriteArchive::to_save(w.get(), f) : z::WriteArchive::to(w.get(), f);
		fn(*a, c.g2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1);
		a->write_header();
	}
}

/// The heading of an object in an archive.
struct Head {
	size_t cls, cls_n;      ///< The class.
	size_t idx, idx_n;      ///< The index (text, or 4 bytes).
	size_t len = 0;         ///< The length of the heading (0 if there is none).
	uint32_t index = 0;
};
static std::vector<Head> headings(std::string const& t, z::ArchiveFormat f) {
	std::vector<Head> r;
	if (f == z::ArchiveFormat::BINARY) {
		for (size_t p = 11; p < t.size(); ++p) {
			bool cls = t.compare(p, 2, "zC") == 0 || t.compare(p, 2, "oC") == 0 || t[p] == '\xA7' || t[p] == '%';
			if (!cls || t[p - 1] != 0) continue;
			size_t e = t.find('\0', p);
			if (e == std::string::npos) break;
			size_t q = p - 1;
			while (q > 10 && isgraph((uint8_t) t[q - 1])) --q;
			if (q < 11 || q == p - 1) continue;
			Head h {p, e - p, q - 4, 4};
			memcpy(&h.index, t.data() + h.idx, 4);
			r.push_back(h);
		}
		return r;
	}
	for (size_t p = t.find('['); p != std::string::npos; p = t.find('[', p + 1)) {
		size_t e = t.find(']', p), a = t.find(' ', p);
		if (e == std::string::npos || a == std::string::npos || a > e) continue;
		size_t b = t.find(' ', a + 1);
		if (b == std::string::npos || b > e) continue;
		size_t c = t.find(' ', b + 1);
		if (c == std::string::npos || c > e) continue;
		Head h {a + 1, b - a - 1, c + 1, e - c - 1};
		if (f == z::ArchiveFormat::BINSAFE && p >= 2) h.len = p - 2;
		h.index = (uint32_t) atoi(t.c_str() + c + 1);
		r.push_back(h);
	}
	return r;
}
/// Lets an object be another one: of another class, a reference to an object of the archive (even one that contains it), or none.
static bool impersonate(Sim& s, std::string& t, z::ArchiveFormat f) {
	auto hs = headings(t, f);
	if (hs.empty()) return false;
	auto h = hs[s.below(hs.size())];
	auto const& o = hs[s.below(hs.size())];
	std::string cls, idx;
	int how = (int) s.below(4);
	uint32_t index = how == 0 ? h.index : o.index;
	if (how == 0) cls = t.substr(o.cls, o.cls_n); // another class
	else if (how == 1) cls = t.substr(h.cls, h.cls_n); // the same index
	else cls = "\xA7";
	idx = f == z::ArchiveFormat::BINARY ? std::string((char const*) &index, 4) : std::to_string(index);
	long d = (long) cls.size() - (long) h.cls_n + (long) idx.size() - (long) h.idx_n;
	if (h.idx > h.cls) t.replace(h.idx, h.idx_n, idx), t.replace(h.cls, h.cls_n, cls);
	else t.replace(h.cls, h.cls_n, cls), t.replace(h.idx, h.idx_n, idx);
	if (h.len) {
		uint16_t n;
		memcpy(&n, t.data() + h.len, 2);
		n = (uint16_t) (n + d);
		memcpy(t.data() + h.len, &n, 2);
	}
	if (f == z::ArchiveFormat::BINARY && d != 0 && h.idx >= 6) { // the objects around it keep their sizes, but it gets the right one
		uint32_t n;
		memcpy(&n, t.data() + h.idx - 6, 4);
		n = (uint32_t) (n + d);
		memcpy(t.data() + h.idx - 6, &n, 4);
		if (s.coin()) { // fill it up instead
			memcpy(&n, t.data() + h.idx - 6, 4);
			n = (uint32_t) (n - d);
			memcpy(t.data() + h.idx - 6, &n, 4);
			if (d < 0) t.insert(h.cls + cls.size() + 1, (size_t) -d, '\0');
		}
	}
	s.fault("object-replaced");
	s.event("object %u: class %zu bytes, index %u", h.index, cls.size(), index);
	return true;
}

/// Some of the words of an archive decide more than others: names of classes, counts and sizes.
static void forge(Sim& s, std::vector<std::byte>& d, std::vector<std::byte> const& other, z::ArchiveFormat f) {
	std::string t((char const*) d.data(), d.size()), o((char const*) other.data(), other.size());
	auto words = [](std::string const& x, std::initializer_list<char const*> keys) {
		std::vector<std::pair<size_t, size_t>> r;
		for (auto* k : keys)
			for (size_t p = x.find(k); p != std::string::npos; p = x.find(k, p + 1)) {
				size_t e = p;
				while (e < x.size() && (isalnum((uint8_t) x[e]) || x[e] == ':' || x[e] == '_')) ++e;
				r.push_back({p, e - p});
			}
		return r;
	};
	switch (s.below(5)) {
	case 3:
	case 4:
		if (!impersonate(s, t, f)) return;
		break;
	case 0: { // the name of another class
		auto a = words(t, {"zC", "oC", "\xA7"}), b = words(o, {"zC", "oC", "\xA7"});
		if (a.empty() || b.empty()) return;
		auto [p, n] = a[s.below(a.size())];
		auto [q, m] = b[s.below(b.size())];
		t.replace(p, std::max<size_t>(n, 1), o.substr(q, std::max<size_t>(m, 1)));
		s.fault("class-replaced");
		s.event("another class at %zu", p);
		break;
	}
	case 1: { // a reference to some object
		auto a = words(t, {"zC", "oC"});
		if (a.empty()) return;
		auto [p, n] = a[s.below(a.size())];
		t.replace(p, n, "\xA7");
		s.fault("made-a-reference");
		s.event("reference at %zu", p);
		break;
	}
	default: { // other numbers
		std::vector<size_t> at;
		for (size_t i = 0; i < t.size(); ++i)
			if (isdigit((uint8_t) t[i]) && (i == 0 || !isalnum((uint8_t) t[i - 1]))) at.push_back(i);
		if (at.empty()) return;
		size_t p = at[s.below(at.size())], e = p;
		while (e < t.size() && isdigit((uint8_t) t[e])) ++e;
		static char const* const v[] = {"0", "1", "2", "3", "-1", "255", "65536", "2147483647", "-2147483648", "4294967295", "99999999999999999999", "1e9", "nan"};
		auto* x = v[s.below(13)];
		t.replace(p, e - p, x);
		s.fault("number-replaced");
		s.event("%s at %zu", x, p);
		break;
	}
	}
	d.assign((std::byte const*) t.data(), (std::byte const*) t.data() + t.size());
}

struct Doc {
	ObjCfg c;
	std::vector<std::byte> data;
	size_t roots = 0;
	z::GameVersion ver() const { return c.g2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1; }
};

static Doc make_objects(Sim& s) {
	Doc d;
	int f = (int) s.below(3);
	d.c.fmt = FV[f];
	d.c.g2 = s.coin();
	d.c.save = s.coin();
	ObjGen g(s, d.c);
	g.budget = 1 + s.below(10);
	std::vector<std::byte> out;
	auto w = z::Write::to(&out);
	auto a = d.c.save ? z::WriteArchive::to_save(w.get(), d.c.fmt) : z::WriteArchive::to(w.get(), d.c.fmt);
	d.roots = 1 + s.below(4);
	for (size_t i = 0; i < d.roots; ++i) {
		std::shared_ptr<z::Object> r;
		if (s.coin()) r = g.vob();
		else {
			static constexpr int N = 0
#define X(T) +1
			    SIM_OTHER_TYPES(X)
#undef X
			    ;
			int k = (int) s.below(N), j = 0;
#define X(T)                                                                                                                               \
	if (k == j++) r = g.fresh<z::T>();
			SIM_OTHER_TYPES(X)
#undef X
		}
		a->write_object("%", r, d.ver());
	}
	a->write_header();
	a.reset();
	d.data = out;
	s.event("%zu objects, %s%s%s, %zu bytes", d.roots, FN[f], d.c.g2 ? " G2" : " G1", d.c.save ? " save-game" : "", out.size());
	return d;
}
static void load_objects(Sim& s, Doc const& d, z::Read* r, bool use) {
	std::vector<std::shared_ptr<z::Object>> got;
	auto a = z::ReadArchive::from(r);
	for (size_t i = 0; i < d.roots; ++i) got.push_back(a->read_object(d.ver()));
	free_memory();
	Touch t(s);
	for (auto& o : got) {
		t.obj(o.get());
		if (auto* w = dynamic_cast<z::World*>(o.get())) t.world(*w), use = false;
	}
	s.mix(t.seen.size());
	if (!use) return;
	bool tree = true;
	for (auto* o : t.seen)
		if (auto* v = dynamic_cast<z::VirtualObject const*>(o)) tree &= !circular(v->children);
	if (tree) resave(d.c, [&](z::WriteArchive& w, z::GameVersion v) {
		for (auto& o : got)
			if (o) w.write_object("%", o, v);
	});
}

static Doc make_world(Sim& s) {
	Doc d;
	int f = (int) s.below(3);
	d.c.fmt = FV[f];
	d.c.g2 = s.coin();
	d.c.save = s.below(3) == 0;
	ObjGen g(s, d.c);
	g.budget = 1 + s.below(12);
	z::World w;
	gen_world(s, w, g, !d.c.save, d.c.g2);
	auto out = z::Write::to(&d.data);
	auto a = d.c.save ? z::WriteArchive::to_save(out.get(), d.c.fmt) : z::WriteArchive::to(out.get(), d.c.fmt);
	a->write_object("%", &w, d.ver());
	a->write_header();
	a.reset();
	cut_world(w);
	s.event("%s world, %s%s, %zu bytes", d.c.g2 ? "G2" : "G1", FN[f], d.c.save ? " save-game" : "", d.data.size());
	return d;
}
static void load_world(Sim& s, Doc const& d, z::Read* r, bool use) {
	std::shared_ptr<z::World> w;
	std::unique_ptr<z::ReadArchive> a;
	switch (s.below(d.c.save ? 2 : 3)) {
	case 0:
		a = z::ReadArchive::from(r);
		w = a->read_object<z::World>(d.ver());
		if (!w) throw z::ParserError {"harness", "no world"};
		break;
	case 1:
		w = std::make_shared<z::World>();
		w->load(r, d.ver());
		break;
	default:
		w = std::make_shared<z::World>();
		(void) w->load(r);
		break;
	}
	free_memory();
	Touch t(s);
	t.world(*w);
	s.mix(t.seen.size());
	if (circular(w->world_vobs)) return;
	if (use) resave(d.c, [&](z::WriteArchive& x, z::GameVersion v) { x.write_object("%", w.get(), v); });
	cut_world(*w);
}

static Doc make_state(Sim& s) {
	Doc d;
	int f = (int) s.below(3);
	d.c.fmt = FV[f];
	d.c.g2 = s.coin();
	d.c.save = true;
	ObjGen g(s, d.c);
	g.budget = 4;
	z::SaveState t {};
	gen_state(s, t, g);
	auto out = z::Write::to(&d.data);
	auto a = z::WriteArchive::to_save(out.get(), d.c.fmt);
	t.save(*a, d.ver());
	a->write_header();
	a.reset();
	s.event("%s save state, %s, %zu bytes", d.c.g2 ? "G2" : "G1", FN[f], d.data.size());
	return d;
}
static void load_state(Sim& s, Doc const& d, z::Read* r, bool use) {
	z::SaveState t {};
	auto a = z::ReadArchive::from(r);
	t.load(*a, d.ver());
	free_memory();
	Touch x(s);
	x.o("cutscene manager", t.cutscene_manager, t.cutscene_manager);
	if (use) resave(d.c, [&](z::WriteArchive& w, z::GameVersion v) { t.save(w, v); });
}

struct Kind {
	char const* name;
	Doc (*make)(Sim&);
	void (*load)(Sim&, Doc const&, z::Read*, bool);
};
static Kind const KINDS[] = {{"objects", make_objects, load_objects}, {"world", make_world, load_world}, {"save state", make_state, load_state}};

static void archives(Sim& s) {
	auto& k = KINDS[s.below(4) % 3];
	auto d = k.make(s);
	auto bad = d.data;
	bool harm = s.below(12) != 0;
	int mode = (int) s.below(4);
	if (harm && mode < 3) {
		if (s.coin()) damage(s, bad);
		else
			for (size_t n = 1 + s.below(3); n > 0; --n) forge(s, bad, d.data, d.c.fmt);
	}
	std::string out;
	{
		FaultySource src(s, bad, harm && mode == 1);
		bool use = s.coin();
		alloc_cap = 4ull << 20;
		if (harm && mode >= 2) {
			alloc_fail_at = 1 + s.below(s.coin() ? 30 : 1000);
			s.event("allocation %llu fails", (unsigned long long) alloc_fail_at);
		}
		out = attempt(s, k.name, [&] { k.load(s, d, src.get(), use); });
	}
	s.event("%s", out.c_str());
	s.mix(out.data(), out.size());
	s.reach(out == "loaded" ? "damaged data loaded" : out.substr(0, 8) == "rejected" ? "damaged data rejected" : "out of memory");
	if (harm) s.nontrivial();
	else s.check(out == "loaded", "intact-rejected", "intact %s: %s", k.name, out.c_str());
	// Loading intact data still works.
	auto r = z::Read::from(d.data.data(), d.data.size());
	auto o3 = attempt(s, k.name, [&] { k.load(s, d, r.get(), false); });
	s.check(o3 == "loaded", "intact-rejected", "intact %s does not load afterwards: %s", k.name, o3.c_str());
}

/// A slot with damaged files.
static void slots(Sim& s) {
	Saves sv(s);
	auto& g = sv.games[0];
	auto nm = sv.world_name();
	auto w = sv.new_world(g.v2);
	auto want = sv.expected(g, 0, nm, w);
	g.meta.world = g.g->metadata.world = nm;
	want.meta = g.meta;
	g.g->save(sv.slots[0].dir, w->w, nm);
	sv.slots[0] = want;
	g.cur = 0;
	size_t n = 1 + s.below(3);
	std::string names[] = {"SAVEINFO.SAV", "SAVEDAT.SAV", "THUMB.SAV", nm + ".SAV"};
	for (size_t i = 0; i < n; ++i) {
		auto n4 = s.below(4);
		auto file = sv.slots[0].dir + "/" + names[n4];
		std::vector<std::byte> d;
		{
			std::ifstream in(file, std::ios::binary);
			std::string c(std::istreambuf_iterator<char>(in), {});
			d.assign((std::byte const*) c.data(), (std::byte const*) c.data() + c.size());
		}
		s.event("damage %s", file.c_str() + sv.root.size());
		if (s.coin()) damage(s, d);
		else forge(s, d, d, n4 == 3 ? z::ArchiveFormat::BINARY : z::ArchiveFormat::ASCII);
		std::ofstream(file, std::ios::binary).write((char const*) d.data(), (std::streamsize) d.size());
	}
	z::SaveGame x(g.v2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1);
	// Failing allocations end the process inside of std::filesystem::directory_iterator of libstdc++, hence none while listing the slot.
	bool oom = s.below(4) == 0;
	alloc_cap = 4ull << 20;
	auto out = attempt(s, "slot", [&] { x.load(sv.slots[0].dir); });
	s.event("%s", out.c_str());
	s.mix(out.data(), out.size());
	if (out == "loaded") {
		Touch t(s);
		t.o("cutscene manager", x.state.cutscene_manager, x.state.cutscene_manager);
		alloc_cap = 4ull << 20;
		if (oom) alloc_fail_at = 1 + s.below(300);
		auto o2 = attempt(s, "world of the slot", [&] {
			auto y = s.coin() ? x.load_world() : x.load_world(nm);
			free_memory();
			if (!y) return;
			t.world(*y);
			if (!circular(y->world_vobs)) cut_world(*y);
		});
		s.event("world: %s", o2.c_str());
		s.mix(o2.data(), o2.size());
	}
	s.nontrivial();
	sv.same_memory(g, "after reading a damaged slot");
	// The slot can be written again.
	try {
		g.g->save(sv.slots[0].dir, w->w, nm);
	} catch (std::exception const& e) { s.fail("save", "saving over a damaged slot failed: %s", e.what()); }
	sv.verify(0, "after saving again");
}

static void run(Sim& s) {
	z::VirtualObject::enable_packed_save(s.coin());
	if (s.below(6) == 0) slots(s);
	else {
		log_level(s.coin());
		archives(s);
	}
	free_memory();
	z::VirtualObject::enable_packed_save(true);
}

#ifndef SIM_AS_LIBRARY
Harness sim::harness {
    .property = "P19",
    .run = run,
    .rule = "distinct history hashes (kind, damage, outcome) of runs with damaged data, failing transfers or failing allocations",
    .components = "real: src/Archive.cc, src/archive/*.cc, src/vobs/*.cc, src/world/*.cc, src/World.cc, src/Mesh.cc, src/SaveGame.cc, src/CutsceneLibrary.cc, src/Material.cc, src/Texture.cc, src/Stream.cc, std::filesystem on a scratch directory; simulated: stream storage, memory allocator (limit of 4 MiB per block, failing allocations)",
    .quick_runs = 300000,
    .thorough_runs = 6000000,
    .quick_secs = 60,
    .thorough_secs = 900,
    .step_budget = 800'000'000,
};
#endif
