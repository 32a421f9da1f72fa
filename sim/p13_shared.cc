// P13: one object read by several threads at the same time: lookups, opening files, copying nodes, converting and saving
// give every thread what it would get alone, and leave the object as it is.
#include "assets.hh"
#include "endpoints.hh"
#include "objects.hh"
#include "sched.hh"
#include "seam.hh"
#include "vfs_model.hh"
#include "world.hh"
#include <deque>
#include <functional>
#include <sanitizer/asan_interface.h>
#include <zenkit/CutsceneLibrary.hh>
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>

#define SIM_AS_LIBRARY
namespace w11 {
#include "p11_assets.cc"
}
namespace w07 {
#include "p07_objects.cc"
}
#undef SIM_AS_LIBRARY
using namespace sim;
namespace zk = zenkit;

struct Op {
	char const* name;
	std::function<void(Sim&)> use;
};
struct Shared {
	std::vector<Op> ops;
	std::vector<std::byte const*> owned; // buffers the Vfs has to release
	std::shared_ptr<void> keep;          // what the operations refer to
	std::vector<std::shared_ptr<void>> more;
};

/// Operations that keep something until the end of the thread.
static thread_local std::vector<zk::VfsNode>* kept = nullptr;

static void pick(Sim& s, vm::Node const& d, std::string const& at, std::vector<std::pair<std::string, vm::Node const*>>& all) {
	for (auto& [k, n] : d.kids) {
		all.push_back({at + "/" + n.name, &n});
		pick(s, n, at + "/" + n.name, all);
	}
}

static void make_vfs(Sim& s, Shared& sh) {
	struct V {
		zk::Vfs vfs;
		vm::Node model;
		std::vector<std::pair<std::string, vm::Node const*>> all;
	};
	auto v = std::make_shared<V>();
	v->model.name = "/";
	v->model.time = -1;
	size_t k = 1 + s.below(5);
	std::function<zk::VfsNode(vm::Node const&)> node = [&](vm::Node const& m) -> zk::VfsNode {
		if (m.file) {
			auto* p = new std::byte[m.data.size()];
			std::copy(m.data.begin(), m.data.end(), p);
			sh.owned.push_back(p);
			return zk::VfsNode::file(m.name, zk::VfsFileDescriptor {p, m.data.size(), true}, m.time);
		}
		auto n = zk::VfsNode::directory(m.name, m.time);
		for (auto& [_, c] : m.kids) n.create(node(c));
		return n;
	};
	bool disk = s.below(3) == 0;
	for (size_t i = 0; i < k; ++i) {
		auto nm = vm::gen_name(s, true);
		if (v->model.child(nm)) continue;
		v->model.put(vm::gen_tree(s, nm, (int) s.below(4), s.clock - 1000, s.clock, true, false));
	}
	for (auto& [_, c] : v->model.kids) v->vfs.mount(node(c), "/", zk::VfsOverwriteBehavior::ALL);
	if (disk) {
		vm::Node d;
		d.name = "/";
		d.time = -1;
		auto nm = vm::gen_name(s, true);
		if (!v->model.child(nm)) {
			d.put(vm::gen_tree(s, nm, (int) s.below(3), s.clock - 1000, s.clock, true, false));
			// (only what a volume can hold)
			std::function<bool(vm::Node const&)> ok = [&](vm::Node const& n) {
				if (n.file) return true;
				if (n.kids.empty()) return false;
				for (auto& [_, c] : n.kids)
					if (!ok(c)) return false;
				return true;
			};
			if (ok(d)) {
				auto img = std::make_shared<std::vector<std::byte>>(vm::build_vdf(d, vm::dos_time(2020, 2, 3, 4, 5, 6), 0));
				sh.more.push_back(img);
				auto r = zk::Read::from(img->data(), img->size());
				v->vfs.mount_disk(r.get(), zk::VfsOverwriteBehavior::ALL);
				tm t {};
				t.tm_year = 120, t.tm_mon = 1, t.tm_mday = 3, t.tm_hour = 4, t.tm_min = 5, t.tm_sec = 6, t.tm_isdst = -1;
				auto st = vm::stamped(d, (int64_t) mktime(&t));
				for (auto& [_, c] : st.kids) vm::mount(v->model, c, zk::VfsOverwriteBehavior::ALL);
			}
		}
	}
	std::erase_if(sh.owned, [](auto* p) { return __asan_address_is_poisoned((void const*) p); }); // (empty or replaced by the volume)
	pick(s, v->model, "", v->all);
	sh.keep = v;
	vm::compare(s, v->vfs.root(), v->model, "", 1);
	auto* p = v.get();
	auto file = [p](Sim& q) -> std::pair<std::string, vm::Node const*> {
		for (int i = 0; i < 8; ++i) {
			auto& x = p->all[q.below(p->all.size())];
			if (x.second->file) return x;
		}
		return {"", nullptr};
	};
	if (v->all.empty()) return;
	auto open = [p, file](Sim& q) {
		auto [path, m] = file(q);
		if (!m) return;
		auto const& c = p->vfs;
		auto* n = q.coin() ? c.resolve(path) : c.find(m->name);
		q.check(n != nullptr, "not-found", "%s is not found", path.c_str());
		if (n->type() != zk::VfsNodeType::FILE) return; // (a directory of that name)
		auto r = n->open_read();
		auto d = vm::slurp(*r);
		if (n == c.resolve(path)) q.check(d == m->data, "content", "%s has %zu bytes which differ from the %zu stored", path.c_str(), d.size(), m->data.size());
		q.mix(d.data(), d.size());
	};
	sh.ops.push_back({"open a file", open});
	sh.ops.push_back({"open a file", open});
	sh.ops.push_back({"copy a node", [p](Sim& q) {
		auto& x = p->all[q.below(p->all.size())];
		auto* n = const_cast<zk::Vfs const&>(p->vfs).resolve(x.first);
		q.check(n != nullptr, "not-found", "%s is not found", x.first.c_str());
		zk::VfsNode copy = *n;
		if (q.coin()) {
			auto again = copy;
			copy = again;
		}
		if (copy.type() == zk::VfsNodeType::FILE) {
			auto r = copy.open_read();
			auto d = vm::slurp(*r);
			q.check(d == x.second->data, "content", "a copy of %s has other content", x.first.c_str());
		} else vm::compare(q, copy, *x.second, x.first, 1);
		if (q.coin() && kept->size() < 5) kept->push_back(std::move(copy));
	}});
	sh.ops.push_back({"mount a copy elsewhere", [p](Sim& q) {
		auto& x = p->all[q.below(p->all.size())];
		auto* n = const_cast<zk::Vfs const&>(p->vfs).resolve(x.first);
		q.check(n != nullptr, "not-found", "%s is not found", x.first.c_str());
		zk::Vfs mine;
		mine.mount(*n, "/", zk::VfsOverwriteBehavior::ALL);
		auto* m = mine.resolve(x.second->name);
		q.check(m != nullptr, "not-found", "%s is not found after mounting a copy", x.first.c_str());
		if (x.second->file) {
			auto r = m->open_read();
			q.check(vm::slurp(*r) == x.second->data, "content", "a mounted copy of %s has other content", x.first.c_str());
		} else vm::compare(q, *m, *x.second, x.first, 1);
	}});
	sh.ops.push_back({"compare the tree", [p](Sim& q) { vm::compare(q, const_cast<zk::Vfs const&>(p->vfs).root(), p->model, "", 1); }});
	sh.ops.push_back({"save as a volume", [p](Sim& q) {
		std::vector<std::byte> out;
		auto w = zk::Write::to(&out);
		p->vfs.save(w.get(), q.coin() ? zk::GameVersion::GOTHIC_1 : zk::GameVersion::GOTHIC_2, (time_t) q.clock);
		zk::Vfs mine;
		auto in = zk::Read::from(out.data(), out.size());
		mine.mount_disk(in.get(), zk::VfsOverwriteBehavior::ALL);
		for (auto& [path, m] : p->all) {
			if (!m->file) continue;
			auto* n = mine.resolve(path);
			q.check(n != nullptr, "not-found", "%s is not found in the saved volume", path.c_str());
			auto r = n->open_read();
			q.check(vm::slurp(*r) == m->data, "content", "%s has other content in the saved volume", path.c_str());
		}
		q.mix(out.data(), out.size());
	}});
}

static void make_objects(Sim& s, Shared& sh) {
	struct O {
		ObjCfg c;
		std::unique_ptr<ObjGen> g;
		std::vector<std::shared_ptr<zk::Object>> roots;
	};
	auto o = std::make_shared<O>();
	o->c.g2 = s.coin();
	o->c.save = s.coin();
	o->c.fmt = zk::ArchiveFormat::BINARY;
	o->c.pack = true;
	o->g = std::make_unique<ObjGen>(s, o->c);
	o->g->budget = 1 + s.below(10);
	size_t n = 1 + s.below(3);
	for (size_t i = 0; i < n; ++i) o->roots.push_back(w07::root(s, *o->g));
	sh.keep = o;
	auto* p = o.get();
	sh.ops.push_back({"save objects", [p](Sim& q) {
		auto c = p->c;
		c.fmt = w07::FV[q.below(3)];
		auto ver = c.g2 ? zk::GameVersion::GOTHIC_2 : zk::GameVersion::GOTHIC_1;
		auto data = w07::save_all(q, c, p->roots);
		q.mix(data.data(), data.size());
		Source src(q, data);
		auto r = zk::ReadArchive::from(src.get());
		ObjCmp cmp(q, c);
		std::vector<std::shared_ptr<zk::Object>> got;
		for (size_t i = 0; i < p->roots.size(); ++i) got.push_back(r->read_object(ver));
		for (size_t i = 0; i < got.size(); ++i) {
			cmp.where = {"root" + std::to_string(i)};
			cmp.obj("self", p->roots[i].get(), got[i].get());
		}
	}});
	sh.ops.push_back({"copy references", [p](Sim& q) {
		auto copy = p->roots;
		for (auto& r : copy) q.mix((uint64_t) r->get_object_type());
	}});
}

static void make_assets(Sim& s, Shared& sh) {
	struct A {
		ObjCfg c;
		std::unique_ptr<ObjGen> g;
		std::vector<w11::Item> items;
		std::vector<std::vector<std::byte>> stored;
		std::vector<zk::Texture> tex;
	};
	auto a = std::make_shared<A>();
	a->c.g2 = s.coin();
	a->c.fmt = zk::ArchiveFormat::BINARY;
	a->g = std::make_unique<ObjGen>(s, a->c);
	size_t n = 1 + s.below(3);
	for (size_t i = 0; i < n; ++i) {
		a->items.push_back(w11::gen_item(s, *a->g, a->c.g2));
		std::vector<std::byte> d;
		auto w = zk::Write::to(&d);
		a->items.back().save(w.get());
		a->stored.push_back(std::move(d));
	}
	a->tex.push_back(gen_texture(s));
	sh.keep = a;
	auto* p = a.get();
	sh.ops.push_back({"save an asset", [p](Sim& q) {
		auto k = q.below(p->items.size());
		Sink sink(q);
		p->items[k].save(sink.get());
		auto d = sink.finish();
		if (p->items[k].name.find("esh") == std::string::npos && p->items[k].name != "model") q.check(d == p->stored[k], "saved-differs", "%s is saved differently", p->items[k].name.c_str());
		Source src(q, d);
		p->items[k].load_and_compare(src.get());
	}});
	sh.ops.push_back({"load the same bytes", [p](Sim& q) {
		auto k = q.below(p->items.size());
		auto r = zk::Read::from(p->stored[k].data(), p->stored[k].size());
		p->items[k].load_and_compare(r.get());
	}});
	sh.ops.push_back({"convert a texture", [p](Sim& q) { w11::check_rgba(q, p->tex[0]); }});
}

static void make_world(Sim& s, Shared& sh) {
	struct W {
		ObjCfg c;
		std::unique_ptr<ObjGen> g;
		zk::World w;
		~W() { cut_world(w); }
	};
	auto o = std::make_shared<W>();
	o->c.g2 = s.coin();
	o->c.fmt = zk::ArchiveFormat::BINARY;
	o->g = std::make_unique<ObjGen>(s, o->c);
	o->g->budget = 1 + s.below(6);
	gen_world(s, o->w, *o->g, true, o->c.g2);
	sh.keep = o;
	auto* p = o.get();
	sh.ops.push_back({"save a world", [p](Sim& q) {
		auto c = p->c;
		c.fmt = w07::FV[q.below(3)];
		auto ver = c.g2 ? zk::GameVersion::GOTHIC_2 : zk::GameVersion::GOTHIC_1;
		Sink sink(q);
		{
			auto a = zk::WriteArchive::to(sink.get(), c.fmt);
			a->write_object("%", &p->w, ver);
			a->write_header();
		}
		auto data = sink.finish();
		Source src(q, data);
		auto b = std::make_shared<zk::World>();
		b->load(src.get(), ver);
		ObjCmp cmp(q, c);
		cmp.weak_may_expire = true;
		cmp_world(q, cmp, p->w, *b);
		cut_world(*b);
		q.mix(data.size());
	}});
}

static void make_library(Sim& s, Shared& sh) {
	auto l = std::make_shared<zk::CutsceneLibrary>();
	size_t n = 1 + s.below(12);
	std::set<std::string> names;
	while (names.size() < n) names.insert(s.ident(8) + std::to_string(names.size()));
	for (auto& x : names) {
		auto b = std::make_shared<zk::CutsceneBlock>();
		b->name = x;
		l->blocks.push_back(b);
	}
	sh.keep = l;
	std::vector<std::string> v(names.begin(), names.end());
	auto* p = l.get();
	sh.ops.push_back({"find a block", [p, v](Sim& q) {
		auto& x = v[q.below(v.size())];
		auto b = const_cast<zk::CutsceneLibrary const*>(p)->block_by_name(x);
		q.check(b && b->name == x, "block", "block %s is not found", x.c_str());
		q.check(!p->block_by_name("?"), "block", "a block that does not exist is found");
	}});
}

static std::string text(std::exception_ptr e) {
	try {
		std::rethrow_exception(e);
	} catch (Violation const& v) {
		return v.tag + ": " + v.msg;
	} catch (std::exception const& x) {
		return std::string("exception: ") + x.what();
	} catch (...) {
		return "unknown exception";
	}
}

static void run(Sim& s) {
	set_env("USERNAME", nullptr);
	set_env("USER", "sim");
	set_env("TZ", "CET-1CEST,M3.5.0,M10.5.0/3");
	zenkit::VirtualObject::enable_packed_save(true);
	std::unique_ptr<Shared> sh;
	int kind = (int) s.below(8);
	static char const* const names[] = {"file system", "file system", "file system", "objects", "assets", "assets", "world", "cutscene library"};
	sched::Thread setup;
	setup.seed = s.below(UINT64_MAX);
	setup.body = [&](Sim& q) {
		sh = std::make_unique<Shared>();
		switch (kind) {
		case 0:
		case 1:
		case 2: make_vfs(q, *sh); break;
		case 3: make_objects(q, *sh); break;
		case 4:
		case 5: make_assets(q, *sh); break;
		case 6: make_world(q, *sh); break;
		default: make_library(q, *sh); break;
		}
	};
	sched::alone(setup, 8);
	s.event("%s (seed %llx)", names[kind], (unsigned long long) setup.seed);
	if (setup.error) s.fail("set-up", "%s", text(setup.error).c_str());
	std::vector<sched::Thread> ts(2 + s.below(2));
	for (size_t i = 0; i < ts.size(); ++i) {
		size_t n = 1 + s.below(6);
		std::vector<size_t> plan;
		for (size_t k = 0; k < n && !sh->ops.empty(); ++k) {
			plan.push_back(s.below(sh->ops.size()));
			s.event("thread %zu: %s", i, sh->ops[plan.back()].name);
		}
		ts[i].seed = s.below(UINT64_MAX);
		ts[i].body = [&sh, plan](Sim& q) {
			std::vector<zk::VfsNode> k;
			kept = &k;
			for (auto p : plan) sh->ops[p].use(q);
			kept = nullptr;
		};
	}
	sched::run(s, ts);
	s.event("%llu switches at %llu points (%llu touch shared data), %llu waits", (unsigned long long) sched::stats.switches, (unsigned long long) sched::stats.points, (unsigned long long) sched::stats.hot, (unsigned long long) sched::stats.waits);
	s.fault("preemption", sched::stats.switches);
	s.mix(sched::stats.points);
	if (sched::stats.switches > 4) s.nontrivial();
	for (size_t i = 0; i < ts.size(); ++i)
		if (ts[i].error) s.fail("thread-fails", "thread %zu: %s", i, text(ts[i].error).c_str());
	s.reach(names[kind]);
	// afterwards everything is as before, and goes away with its owner
	for (size_t i = 0; i < ts.size(); ++i) {
		sched::Thread a;
		a.seed = ts[i].seed;
		a.body = ts[i].body;
		sched::alone(a, (int) i);
		if (a.error) s.fail("damaged", "afterwards: %s", text(a.error).c_str());
		s.check(a.sim->hash == ts[i].sim->hash, "thread-differs", "thread %zu had other results than alone", i);
		s.mix(a.sim->hash);
	}
	sched::Thread end;
	end.body = [&](Sim& q) {
		auto owned = sh->owned;
		for (auto* p : owned) q.check(!__asan_address_is_poisoned((void const*) p), "released", "the content of a file was released while the file exists");
		sh.reset();
		for (auto* p : owned) q.check(__asan_address_is_poisoned((void const*) p), "leak", "the content of a file is still there after the last reference is gone");
	};
	sched::alone(end, 9);
	if (end.error) s.fail("ownership", "%s", text(end.error).c_str());
}

Harness sim::harness {
    .property = "P13",
    .run = run,
    .rule = "distinct history hashes (schedule, results of all threads) of runs with more than four preemptions",
    .components = "real: src/Vfs.cc, src/Stream.cc, src/Texture.cc, src/CutsceneLibrary.cc, all savers and loaders, real threads of which the simulated scheduler lets one run at a time; simulated: thread scheduling (at every edge, load and store of ZenKit code), locks, wall clock",
    .quick_runs = 100000,
    .thorough_runs = 4000000,
    .quick_secs = 75,
    .thorough_secs = 900,
    .step_budget = 2'000'000'000,
    .isolate = true,
};
