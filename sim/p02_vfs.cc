// P02: histories of VFS operations (mkdir, mount, host and disk mounts under every overwrite policy, removal, lookup)
// refine a small tree model, under a simulated clock that jumps and several time zones, with failing host calls.
#include "core.hh"
#include "seam.hh"
#include "vfs_model.hh"
#include <zenkit/Logger.hh>

#include <fcntl.h>
#include <utility>
#include <sys/stat.h>
#include <unistd.h>

using namespace sim;
using vm::Node;
using zenkit::VfsOverwriteBehavior;

static Sim* S;
static int64_t fail_in = -1;
static int fail_errno = 0;
static int fail_fired = 0;
static FsAct host_fault(FsCall const& c) {
	FsAct a;
	if (c.op == FsOp::OPEN || c.op == FsOp::FSTAT || c.op == FsOp::MMAP) {
		if (fail_in >= 0 && fail_in-- == 0) {
			a.err = fail_errno;
			++fail_fired;
			S->fault(c.op == FsOp::OPEN ? "open-failure" : c.op == FsOp::FSTAT ? "fstat-failure" : "mmap-failure");
		}
	}
	return a;
}

static std::string gen_path(Sim& s, Node& root) {
	std::string p;
	if (s.below(4) == 0) p = "/";
	Node* c = &root;
	size_t n = 1 + s.below(4);
	for (size_t i = 0; i < n; ++i) {
		if (i) p += s.below(6) ? "/" : "//";
		std::string nm;
		if (c && !c->file && !c->kids.empty() && s.below(4)) {
			auto it = c->kids.begin();
			std::advance(it, (long) s.below(c->kids.size()));
			nm = it->second.name;
			if (s.coin())
				for (auto& ch : nm) ch = s.coin() ? (char) toupper(ch) : (char) tolower(ch);
			c = &it->second;
		} else {
			nm = vm::gen_name(s, false);
			c = c && !c->file ? c->child(nm) : nullptr;
		}
		p += nm;
		if (s.below(12) == 0) p += "  ";
	}
	if (s.below(8) == 0) p += "/";
	return p;
}

static void host_tree(Node const& n, std::string const& dir) {
	for (auto& [k, v] : n.kids) {
		std::string p = dir + "/" + v.name;
		if (v.file) {
			FILE* f = fopen(p.c_str(), "wb");
			if (!v.data.empty()) fwrite(v.data.data(), 1, v.data.size(), f);
			fclose(f);
		} else {
			mkdir(p.c_str(), 0700);
			host_tree(v, p);
		}
		struct timespec ts[2] = {{v.time, 0}, {v.time, 500000000}};
		utimensat(AT_FDCWD, p.c_str(), ts, 0);
	}
}
/// Empty host files may or may not be mounted (memory mapping cannot represent them): keep them out of the tree.
static void no_empty(Node& n) {
	for (auto& [k, v] : n.kids) {
		if (v.file && v.data.empty()) v.data.assign(1, std::byte {7});
		if (!v.file) no_empty(v);
	}
}

static Node snapshot(zenkit::VfsNode const& r) {
	Node n;
	n.name = r.name();
	n.time = r.time();
	n.file = r.type() == zenkit::VfsNodeType::FILE;
	if (!n.file)
		for (auto& k : r.children()) n.put(snapshot(k));
	return n;
}

static void run(Sim& s) {
	S = &s;
	quiet_log();
	static char const* zones[] = {"UTC0", "IND-5:30", "PST8", "XXX-14", "YYY11", "CET-1CEST,M3.5.0,M10.5.0/3"};
	char const* tz = zones[s.below(6)];
	set_env("TZ", tz);
	fail_in = -1;
	std::string base = scratch_dir() + "/h";
	wipe_dir(base);

	auto vfs = std::make_unique<zenkit::Vfs>();
	Node model;
	model.name = "/";
	model.time = -1;
	// Source trees whose memory is borrowed by the mounted nodes.
	std::vector<std::unique_ptr<Node>> borrowed;
	if (s.coin()) s.clock -= 10'000'000; // summer time in the last zone
	static int64_t const spans[] = {5000, 2, 1, 0};
	int64_t span = spans[s.below(4)], t0 = s.clock - span, t1 = s.clock + span;
	size_t ops = 2 + s.below(14);
	int host_n = 0;
	s.event("tz=%s", tz);
	for (size_t i = 0; i < ops; ++i) {
		auto ow = (VfsOverwriteBehavior) s.below(4);
		static char const* own[] = {"NONE", "ALL", "NEWER", "OLDER"};
		switch (s.below(12)) {
		case 0: { // mkdir
			auto p = gen_path(s, model);
			int64_t now = s.clock;
			// model: walk, creating
			Node* c = &model;
			bool conflict = false;
			for (auto& part0 : vm::split(p)) {
				std::string part(vm::rtrim(part0));
				if (part.size() != part0.size() && !c->child(part)) {
					conflict = true; // a new directory with trailing blanks: not specified, skip
					break;
				}
				Node* k = c->child(part);
				if (k && k->file) {
					conflict = true;
					break;
				}
				if (!k) {
					Node n;
					n.name = part;
					n.time = now;
					c->put(n);
					k = c->child(part);
				}
				c = k;
			}
			// replay the model walk's decision about blanks on the real thing only when it is specified
			bool unspecified = false;
			{
				for (auto& part0 : vm::split(p))
					if (vm::rtrim(part0).size() != part0.size()) unspecified = true;
			}
			if (unspecified) {
				// make the real system follow the (partial) model walk through trimmed names
				std::string q;
				for (auto& part0 : vm::split(p)) {
					std::string part(vm::rtrim(part0));
					std::string q2 = q + "/" + part;
					Node* k = vm::resolve(model, q2);
					if (!k || k->file) break;
					q = q2;
				}
				if (!q.empty()) vfs->mkdir(q);
				s.event("mkdir %s", q.c_str());
				break;
			}
			s.event("mkdir %s", p.c_str());
			try {
				auto& n = vfs->mkdir(p);
				s.check(!conflict, "mkdir-over-file", "mkdir(%s) succeeded although a part of the path is a file", p.c_str());
				s.check(&n == vfs->resolve(p) || vm::split(p).empty(), "mkdir-result", "mkdir(%s) did not return the directory at that path", p.c_str());
			} catch (zenkit::VfsFileExistsError const&) {
				s.check(conflict, "mkdir-error", "mkdir(%s) reported an existing file", p.c_str());
				s.reach("mkdir-conflict");
			}
			break;
		}
		case 1: // clock
			switch (s.below(3)) {
			case 0: s.clock += (int64_t) s.below(3); break;
			case 1: s.clock += (int64_t) s.below(100000); break;
			default: s.clock -= (int64_t) s.below(100000); s.fault("clock-jump-back"); break;
			}
			s.event("clock %lld", (long long) s.clock);
			break;
		case 2:
		case 3:
		case 4: { // mount a node tree
			auto name = vm::gen_name(s, true);
			if (!model.kids.empty() && s.coin()) {
				auto it = model.kids.begin();
				std::advance(it, (long) s.below(model.kids.size()));
				name = it->second.name;
				if (s.coin())
					for (auto& ch : name) ch = s.coin() ? (char) toupper(ch) : (char) tolower(ch);
			}
			auto src = std::make_unique<Node>(vm::gen_tree(s, name, (int) s.below(4), t0, t1, true, false));
			if (s.below(3) == 0) src->time = s.below(2) ? t0 : t1;
			std::string parent = s.below(3) ? "/" : gen_path(s, model);
			bool own_data = s.coin();
			Node* d = vm::resolve(model, parent);
			s.event("mount %s at %s %s", vm::describe(*src).c_str(), parent.c_str(), own[(int) ow]);
			{
				auto node = vm::to_node(*src, own_data);
				try {
					if (s.coin()) vfs->mount(node, parent, ow); // copies the tree: both must stay valid
					else vfs->mount(std::move(node), parent, ow);
					s.check(d && !d->file, "mount-target", "mount at %s succeeded although it is %s", parent.c_str(), d ? "a file" : "missing");
				} catch (zenkit::VfsNotFoundError const&) {
					s.check(!d, "mount-error", "mount at %s: reported as missing", parent.c_str());
					s.reach("mount-missing-parent");
				} catch (zenkit::VfsFileExistsError const&) {
					s.check(d && d->file, "mount-error", "mount at %s: reported as file", parent.c_str());
					s.reach("mount-on-file");
				}
			}
			if (d && !d->file) {
				auto* ex = d->child(src->name);
				if (ex) s.reach(ex->file || src->file ? "mount-conflict" : "mount-merge");
				vm::mount(*d, *src, ow);
			}
			if (!own_data) borrowed.push_back(std::move(src));
			break;
		}
		case 5: { // remove
			auto p = gen_path(s, model);
			if (s.below(3) == 0 && !model.kids.empty()) p = model.kids.begin()->second.name;
			if (!p.empty() && p.back() == '/') p.pop_back();
			auto parts = vm::split(p);
			bool want = false;
			if (!parts.empty() && !p.empty() && p.back() != '/') {
				std::string par;
				for (size_t k = 0; k + 1 < parts.size(); ++k) par += "/" + parts[k];
				Node* d = vm::resolve(model, par);
				if (d && !d->file && d->child(parts.back())) {
					want = true;
					d->kids.erase(vm::fold(vm::rtrim(parts.back())));
				}
			}
			bool got = vfs->remove(p);
			s.event("remove %s=%d", p.c_str(), got);
			s.check(got == want, "remove-result", "remove(%s) returned %d, want %d", p.c_str(), got, want);
			break;
		}
		case 6: { // lookups
			for (int k = 0; k < 4; ++k) {
				auto p = gen_path(s, model);
				auto* m = vm::resolve(model, p);
				auto* r = std::as_const(*vfs).resolve(p);
				s.event("resolve %s=%d", p.c_str(), r != nullptr);
				s.check((m != nullptr) == (r != nullptr), "resolve", "resolve(%s): real %s, model %s", p.c_str(), r ? "found" : "missing", m ? "found" : "missing");
				if (m && m != &model) vm::compare(s, *r, *m, p, 0, false);
			}
			auto nm = vm::gen_name(s, true);
			if (s.coin())
				for (auto& ch : nm) ch = (char) tolower(ch);
			bool want = false;
			std::function<void(Node const&)> walk = [&](Node const& n) {
				if (n.child(nm)) want = true;
				for (auto& [k, v] : n.kids)
					if (!v.file) walk(v);
			};
			walk(model);
			auto* f = vfs->find(nm);
			s.event("find %s=%d", nm.c_str(), f != nullptr);
			s.check((f != nullptr) == want, "find", "find(%s): real %s, model %s", nm.c_str(), f ? "found" : "missing", want ? "exists" : "does not exist");
			if (f) s.check(vm::fold(f->name()) == vm::fold(vm::rtrim(nm)), "find", "find(%s) returned '%s'", nm.c_str(), f->name().c_str());
			break;
		}
		case 7:
		case 8: { // disk mount
			Node src = vm::gen_tree(s, "root", 0, t0, t1, true, false);
			src.file = false;
			src.kids.clear();
			src.data.clear();
			size_t k = 1 + s.below(4);
			for (size_t j = 0; j < k; ++j) {
				auto nm = vm::gen_name(s, true);
				if (!src.child(nm)) src.put(vm::gen_tree(s, nm, (int) s.below(4), t0, t1, true, false));
			}
			int64_t ts = s.range(t0, t1) & ~1ll;
			time_t tt = (time_t) ts;
			struct tm lt;
			localtime_r(&tt, &lt);
			// an hour that the clock skips or repeats has no unique local time
			bool has = src.has_file();
			auto img = vm::build_vdf(src, vm::dos_time(lt.tm_year + 1900, lt.tm_mon + 1, lt.tm_mday, lt.tm_hour, lt.tm_min, lt.tm_sec), (int) s.below(3), s.below(4) == 0);
			s.event("disk %s t=%lld %s", vm::describe(src).c_str(), (long long) ts, own[(int) ow]);
			if (!has) break;
			if (s.coin()) {
				auto r = zenkit::Read::from(&img);
				vfs->mount_disk(r.get(), ow);
			} else {
				std::string p = base + "/d" + std::to_string(host_n++) + ".vdf";
				FILE* f = fopen(p.c_str(), "wb");
				fwrite(img.data(), 1, img.size(), f);
				fclose(f);
				vfs->mount_disk(std::filesystem::path(p), ow);
				if (s.coin()) unlink(p.c_str()); // the mapping keeps the data alive
			}
			std::fill(img.begin(), img.end(), std::byte {0xDD}); // the source buffer must not be referenced any more
			Node st = vm::stamped(src, ts);
			for (auto& [kk, v] : st.kids) vm::mount(model, v, ow);
			s.reach("disk-mounted");
			break;
		}
		case 9: { // host mount
			std::string hp = base + "/t" + std::to_string(host_n++);
			mkdir(hp.c_str(), 0700);
			Node src;
			src.name = "t";
			size_t k = s.below(5);
			for (size_t j = 0; j < k; ++j) {
				auto nm = vm::gen_name(s, true);
				if (!src.child(nm)) src.put(vm::gen_tree(s, nm, (int) s.below(3), t0, t1, true, false));
			}
			no_empty(src);
			host_tree(src, hp);
			std::string parent = s.below(3) ? "/" : gen_path(s, model);
			Node* d = vm::resolve(model, parent);
			bool single = false;
			if (s.below(4) == 0)
				for (auto& [kk, v] : src.kids)
					if (v.file) {
						hp += "/" + v.name;
						Node only = v;
						src.kids.clear();
						src.put(only);
						single = true;
						break;
					}
			bool inject = s.below(3) == 0;
			Node before;
			if (inject) {
				before = snapshot(vfs->root());
				fail_in = (int64_t) s.below(2 + src.count() * 2);
				static int const errs[] = {EIO, EMFILE, EACCES, ENOMEM};
				fail_errno = errs[s.below(4)];
				fail_fired = 0;
				fs_hook = host_fault;
			}
			s.event("host %s at %s %s%s", vm::describe(src).c_str(), parent.c_str(), own[(int) ow], single ? " single" : "");
			int fds = open_fds();
			bool threw = false;
			try {
				vfs->mount_host(hp, parent, ow);
			} catch (zenkit::VfsNotFoundError const&) {
				threw = true;
				fs_hook = nullptr;
				s.check(!d, "host-error", "mount_host at %s reported a missing target", parent.c_str());
			} catch (zenkit::VfsFileExistsError const&) {
				threw = true;
				fs_hook = nullptr;
				s.check(d && d->file, "host-error", "mount_host at %s reported a file as target", parent.c_str());
			} catch (std::exception const& e) {
				threw = true;
				fs_hook = nullptr;
				s.check(inject && fail_fired, "host-error", "mount_host failed without a fault: %s", e.what());
				s.reach("host-mount-failed");
			}
			fs_hook = nullptr;
			fail_in = -1;
			s.check(open_fds() == fds, "fd-leak", "mount_host left %d descriptors open", open_fds() - fds);
			if (threw) {
				if (inject) vm::compare(s, vfs->root(), before, "/", 0, false); // nothing may have been mounted
			} else {
				s.check((d && !d->file) || src.kids.empty(), "host-error", "mount_host at %s succeeded although the target is not a directory", parent.c_str());
				s.check(!(inject && fail_fired), "host-fault-hidden", "a host call failed during mount_host but no error was reported");
				if (d && !d->file)
					for (auto& [kk, v] : src.kids) vm::mount(*d, v, ow);
			}
			break;
		}
		case 10: { // node copies: reference counted file data stays valid for every copy
			Node a = vm::gen_tree(s, "n1", 0, t0, t1, false, false), b = vm::gen_tree(s, "n2", 0, t0, t1, false, false);
			auto x = std::make_unique<zenkit::VfsNode>(vm::to_node(a, true));
			auto y = std::make_unique<zenkit::VfsNode>(*x);
			auto z = std::make_unique<zenkit::VfsNode>(vm::to_node(b, true));
			s.event("copies");
			if (s.coin()) {
				*z = *y; // z now holds a's data
				if (s.coin()) y.reset();
				vm::compare(s, *z, a, "copy", 0);
			}
			x.reset();
			if (y) vm::compare(s, *y, a, "copy", 0);
			if (s.coin()) {
				vfs->mount(*z, "/", VfsOverwriteBehavior::ALL);
				Node m = snapshot(*z);
				m.data = vm::slurp(*z->open_read());
				vm::mount(model, m, VfsOverwriteBehavior::ALL);
			}
			break;
		}
		case 11: // full check
			vm::compare(s, vfs->root(), model, "/", 0);
			break;
		}
		if (s.below(3) == 0) vm::compare(s, vfs->root(), model, "/", 0);
	}
	vm::compare(s, vfs->root(), model, "/", 0);
	s.mix(model.count());
	if (model.count() > 3) s.nontrivial();
	vfs.reset();
	set_env("TZ", "UTC");
	S = nullptr;
}

#ifndef SIM_AS_LIBRARY
Harness sim::harness {
    .property = "P02",
    .run = run,
    .rule = "distinct history hashes of runs that end with more than two mounted nodes",
    .components = "real: Vfs.cc, Stream.cc, MmapPosix.cc, std::filesystem on a scratch directory; simulated: wall clock, time zone, host open/fstat/mmap failures",
    .quick_runs = 400000,
    .thorough_runs = 3000000,
    .quick_secs = 75,
    .thorough_secs = 600,
    .step_budget = 50'000'000,
};
#endif
