// P10: loading damaged assets and scripts is memory-safe, ends, and reports errors as exceptions.
#include "damage.hh"
#include "endpoints.hh"
#include "script.hh"
#include "seam.hh"
#include <zenkit/Error.hh>
#include <zenkit/Logger.hh>
#include <zenkit/ModelScript.hh>

using namespace sim;

static thread_local bool the_g2 = false;
struct Kind {
	char const* name;
	std::function<std::vector<std::byte>(Sim&, ObjGen&, bool g2)> make;
	/// Loads; `use` exercises what was loaded.
	std::function<void(Sim&, z::Read*, bool use)> load;
};
template <typename T>
static std::vector<std::byte> bytes_of(T const& a, z::GameVersion v) {
	std::vector<std::byte> d;
	auto w = z::Write::to(&d);
	if constexpr (requires { a.save(w.get(), v); }) a.save(w.get(), v);
	else a.save(w.get());
	return d;
}
template <typename T>
static void resave(T const& a, bool g2) {
	alloc_fail_at = 0; // (only loading runs out of memory)
	alloc_cap = 1ull << 30;
	(void) bytes_of(a, g2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1);
	alloc_cap = 4ull << 20;
}
template <typename T>
static Kind simple(char const* name, std::function<void(Sim&, ObjGen&, T&)> gen) {
	return {name, [gen](Sim& s, ObjGen& g, bool g2) {
		        T a {};
		        gen(s, g, a);
		        return bytes_of(a, g2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1);
	        },
	        [](Sim&, z::Read* r, bool use) {
		        T b {};
		        b.load(r);
		        if (use) resave(b, true), resave(b, false);
	        }};
}

static std::vector<Kind> const& kinds() {
	static std::vector<Kind> const k = {
	    simple<z::Font>("font", [](Sim& s, ObjGen&, auto& a) { gen_font(s, a); }),
	    {"texture", [](Sim& s, ObjGen&, bool) { return gen_texture_file(s); },
	     [](Sim&, z::Read* r, bool use) {
		     z::Texture t;
		     t.load(r);
		     if (!use) return;
		     for (uint32_t l = 0; l < t.mipmaps(); ++l) {
			     (void) t.data(l);
			     try {
				     (void) t.as_rgba8(l);
			     } catch (std::exception const&) {}
		     }
		     resave(t, true);
	     }},
	    simple<z::ModelHierarchy>("hierarchy", [](Sim& s, ObjGen&, auto& a) { gen_hierarchy(s, a); }),
	    simple<z::MultiResolutionMesh>("multi-resolution mesh", [](Sim& s, ObjGen& g, auto& a) { gen_mrm(s, g, a); }),
	    simple<z::SoftSkinMesh>("soft-skin mesh", [](Sim& s, ObjGen& g, auto& a) { gen_softskin(s, g, a); }),
	    simple<z::ModelMesh>("model mesh", [](Sim& s, ObjGen& g, auto& a) { gen_modelmesh(s, g, a); }),
	    simple<z::Model>("model", [](Sim& s, ObjGen& g, auto& a) { gen_hierarchy(s, a.hierarchy), gen_modelmesh(s, g, a.mesh); }),
	    {"encoded model mesh", [](Sim& s, ObjGen& g, bool g2) {
		     z::ModelMesh a;
		     gen_modelmesh(s, g, a);
		     return enc_modelmesh(s, a, g2).d;
	     },
	     [](Sim&, z::Read* r, bool use) {
		     z::ModelMesh b;
		     b.load(r);
		     if (use) resave(b, true), resave(b, false);
	     }},
	    {"mesh", [](Sim& s, ObjGen& g, bool g2) {
		     z::Mesh a;
		     gen_mesh(s, a, g, g2);
		     return bytes_of(a, g2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1);
	     },
	     [](Sim& s, z::Read* r, bool use) {
		     z::Mesh b;
		     if (s.coin()) b.load(r, false);
		     else b.load(r, {0, 1, 5, 0xFFFFFFFF}, false);
		     if (use) resave(b, true), resave(b, false);
	     }},
	    {"bsp tree", [](Sim& s, ObjGen&, bool g2) {
		     z::BspTree t;
		     gen_bsp(s, t, g2);
		     return bytes_of(t, g2 ? z::GameVersion::GOTHIC_2 : z::GameVersion::GOTHIC_1);
	     },
	     [](Sim& s, z::Read* r, bool use) {
		     z::BspTree t;
		     (void) s;
		     t.load(r, the_g2 ? 0x4090000 : 0x2090000);
		     if (use) resave(t, true), resave(t, false);
	     }},
	    {"animation", [](Sim& s, ObjGen&, bool) {
		     AniFile f;
		     gen_animation(s, f);
		     return f.file;
	     },
	     [](Sim&, z::Read* r, bool) { z::ModelAnimation a; a.load(r); }},
	    {"morph mesh", [](Sim& s, ObjGen& g, bool g2) {
		     z::MorphMesh a;
		     gen_morph(s, g, a);
		     return enc_morph(s, a, g2);
	     },
	     [](Sim&, z::Read* r, bool) { z::MorphMesh a; a.load(r); }},
	    {"binary model script", [](Sim& s, ObjGen&, bool) { return gen_msb(s); }, [](Sim&, z::Read* r, bool) { z::ModelScript a; a.load(r); }},
	    {"model script", [](Sim& s, ObjGen&, bool) { return gen_mds(s); }, [](Sim&, z::Read* r, bool) { z::ModelScript a; a.load(r); }},
	    {"compiled script", [](Sim& s, ObjGen&, bool) {
		     auto syms = gen_symbols(s);
		     return enc_script(syms, s.bytes(s.below(200)));
	     },
	     [](Sim& s, z::Read* r, bool use) {
		     z::DaedalusScript a;
		     a.load(r);
		     if (!use) return;
		     size_t n = a.symbols().size();
		     for (uint32_t i = 0; i <= n && i < 100; ++i) {
			     auto* y = a.find_symbol_by_index(i);
			     if (!y) continue;
			     (void) a.find_symbol_by_name(y->name());
			     (void) a.find_symbol_by_address(y->address());
			     for (auto& p : a.find_parameters_for_function(y)) (void) p.name().size();
			     for (auto& p : a.find_locals_for_function(y)) (void) p.name().size();
			     (void) a.find_class_members(*y);
			     a.enumerate_instances_by_class_name(y->name(), [](z::DaedalusSymbol&) {});
			     for (uint16_t k : {(uint16_t) 0, (uint16_t) (y->count() - 1), (uint16_t) y->count()}) {
				     try { (void) y->get_int(k); } catch (z::DaedalusScriptError const&) {}
				     try { (void) y->get_float(k); } catch (z::DaedalusScriptError const&) {}
				     try { (void) y->get_string(k).size(); } catch (z::DaedalusScriptError const&) {}
				     try { (void) y->get_instance(); } catch (z::DaedalusScriptError const&) {}
			     }
		     }
		     for (int i = 0; i < 8; ++i) (void) a.instruction_at(s.below(4) ? (uint32_t) s.below(210) : s.u32());
		     (void) a.size();
	     }},
	};
	return k;
}

static void attempt(Sim& s, Kind const& k, z::Read* r, bool use, std::string& outcome) {
	try {
		k.load(s, r, use);
		alloc_fail_at = 0;
		outcome = "loaded";
	} catch (z::Error const& e) {
		alloc_fail_at = 0;
		outcome = std::string("rejected: ") + e.what();
	} catch (std::bad_alloc const&) {
		alloc_fail_at = 0;
		outcome = "out of memory";
	} catch (std::length_error const&) {
		alloc_fail_at = 0;
		outcome = "out of memory (length)";
	} catch (Violation const&) {
		throw;
	} catch (std::exception const& e) {
		alloc_fail_at = 0;
		s.fail("exception", "%s: an undocumented exception escapes: %s", k.name, e.what());
	} catch (...) {
		s.fail("exception", "%s: something that is no exception was thrown", k.name);
	}
}

static void run(Sim& s) {
	log_level(s.coin());
	auto& k = kinds()[s.below(kinds().size())];
	ObjCfg c;
	the_g2 = c.g2 = s.coin();
	c.fmt = z::ArchiveFormat::BINARY;
	ObjGen g(s, c);
	auto good = k.make(s, g, c.g2);
	auto bad = good;
	bool harm = s.below(10) != 0;
	s.event("%s, %zu bytes", k.name, good.size());
	alloc_cap = 4ull << 20; // the memory limit
	int mode = (int) s.below(4);
	if (harm && mode < 3) damage(s, bad);
	std::string out;
	{
		FaultySource src(s, bad, harm && mode == 1);
		uint64_t before = live_blocks;
		if (harm && mode >= 2) {
			alloc_fail_at = 1 + s.below(s.coin() ? 20 : 300);
			s.event("allocation %llu fails", (unsigned long long) alloc_fail_at);
		}
		attempt(s, k, src.get(), s.coin(), out);
		alloc_fail_at = 0;
		(void) before;
		s.event("%s", out.c_str());
	}
	s.mix(out.data(), out.size());
	s.reach(out == "loaded" ? "damaged data loaded" : out.substr(0, 8) == "rejected" ? "damaged data rejected" : "out of memory");
	if (harm) s.nontrivial();
	else s.check(out == "loaded", "intact-rejected", "intact %s does not load: %s", k.name, out.c_str());
	// The same damage twice more: nothing may be lost.
	uint64_t blocks[3] {};
	for (int i = 0; i < 3; ++i) {
		auto r = z::Read::from(bad.data(), bad.size());
		std::string o2;
		attempt(s, k, r.get(), false, o2);
		r.reset();
		o2 = {};
		o2.shrink_to_fit();
		blocks[i] = live_blocks;
	}
	s.check(blocks[1] == blocks[2], "leak", "%s: %lld blocks are lost by loading the damaged data", k.name, (long long) (blocks[2] - blocks[1]));
	// Loading intact data still works.
	auto r = z::Read::from(good.data(), good.size());
	std::string o3;
	attempt(s, k, r.get(), false, o3);
	s.check(o3 == "loaded", "intact-rejected", "intact %s does not load afterwards: %s", k.name, o3.c_str());
}

#ifndef SIM_AS_LIBRARY
Harness sim::harness {
    .property = "P10",
    .run = run,
    .rule = "distinct history hashes (kind, damage, outcome) of runs with damaged data, failing transfers or failing allocations",
    .components = "real: src/Font.cc, src/Texture.cc, src/Model*.cc, src/MorphMesh.cc, src/MultiResolutionMesh.cc, src/SoftSkinMesh.cc, src/Mesh.cc, src/world/BspTree.cc, src/DaedalusScript.cc, src/Material.cc, src/Archive.cc, src/archive/ArchiveBinary.cc, src/Stream.cc, src/Logger.cc; simulated: stream storage, memory allocator (limit of 4 MiB per block, failing allocations); stub: encoders of script, animation and morph mesh files",
    .quick_runs = 300000,
    .thorough_runs = 6000000,
    .quick_secs = 75,
    .thorough_secs = 900,
    .step_budget = 800'000'000,
};
#endif
