// P21: the bundled script classes give the host every member of the games' classes.
#include "vm.hh"
#include <zenkit/addon/daedalus.hh>

using namespace sim;
using namespace sim::vm;

namespace {
	template <typename X>
	struct ElemOf {
		using type = X;
		static constexpr uint32_t n = 1;
		static void* at(X& x, uint32_t) { return &x; }
	};
	template <typename X, size_t N>
	struct ElemOf<X[N]> {
		using type = X;
		static constexpr uint32_t n = N;
		static void* at(X (&x)[N], uint32_t i) { return &x[i]; }
	};
	struct Member {
		char const* name;
		int type;
		bool func;
		uint32_t n;
		void* (*at)(z::DaedalusInstance*, uint32_t);
		int group;
	};
	struct Class {
		char const* name;
		std::vector<Member> members;
		std::shared_ptr<z::DaedalusInstance> (*init)(z::DaedalusVm&, z::DaedalusSymbol*);
		int groups = 0;
	};
	template <typename T>
	int type_of() {
		return std::is_same_v<T, std::string> ? T_STRING : std::is_same_v<T, float> ? T_FLOAT : T_INT;
	}
	std::vector<Class> const& classes() {
		static std::vector<Class> const all = [] {
			std::vector<Class> r;
#define C(T, N) r.push_back({N, {}, [](z::DaedalusVm& v, z::DaedalusSymbol* y) -> std::shared_ptr<z::DaedalusInstance> { return v.init_instance<z::T>(y); }});
#define M(T, N, F, FN, G)                                                                                                          \
	r.back().members.push_back({N, type_of<ElemOf<decltype(z::T::F)>::type>(), FN, ElemOf<decltype(z::T::F)>::n,                    \
	                            [](z::DaedalusInstance* o, uint32_t i) { return ElemOf<decltype(z::T::F)>::at(static_cast<z::T*>(o)->F, i); }, G});
#define E(T)
#include "script_classes.inc"
#undef C
#undef M
#undef E
			for (auto& c : r)
				for (auto& m : c.members) c.groups = std::max(c.groups, m.group + 1);
			return r;
		}();
		return all;
	}

	struct Value {
		int32_t i = 0;
		float f = 0;
		std::string s;
	};
	struct Slot { // a member of the script
		uint32_t cls, member, sym, count;
	};
	struct Inst {
		uint32_t cls, sym;
		std::shared_ptr<z::DaedalusInstance> obj;
		std::map<std::pair<uint32_t, uint32_t>, Value> model; // (member of the class, element); anything else has its default value
		std::vector<std::tuple<Slot, uint32_t, Value>> init;
		size_t last_choice = 0;
		std::vector<std::pair<std::string, int32_t>> choices;
	};
	struct Access {
		Slot slot;
		uint32_t inst, elem, sym;
		bool set;
		Value v;
	};

	struct Run {
		Sim& s;
		std::vector<SymDef> syms;
		std::vector<Slot> slots;
		std::vector<std::vector<uint32_t>> by_class; // slots
		std::vector<Inst> insts;
		std::vector<Access> accesses;
		std::vector<uint32_t> funcs;
		Enc code;
		std::vector<std::pair<size_t, uint32_t>> fix;
		std::unique_ptr<z::DaedalusVm> vm;
		std::string broken; // the exception a mismatch has to cause

		explicit Run(Sim& sm) : s(sm) {}

		uint32_t add(std::string name, int type, uint32_t flags, uint32_t count, int32_t parent = -1) {
			SymDef d;
			d.name = std::move(name), d.type = type, d.flags = flags, d.count = count, d.parent = parent;
			syms.push_back(d);
			return (uint32_t) syms.size() - 1;
		}
		void op(uint8_t o) { code.u8(o); }
		void op(uint8_t o, uint32_t a) { code.u8(o), code.u32(a); }
		static int type(Slot const& t) { return classes()[t.cls].members[t.member].type; }
		bool func(Slot const& t) const { return syms[t.sym].type == T_FUNC; }

		Value value(Slot const& t) {
			Value v;
			if (func(t)) v.i = (int32_t) s.pick(funcs);
			else if (type(t) == T_INT) v.i = s.i32();
			else if (type(t) == T_FLOAT) v.f = s.f32();
			else v.s = s.below(6) ? s.ident(30) : "";
			return v;
		}
		void push_value(Slot const& t, Value const& v) {
			if (func(t) || type(t) == T_INT) return op(PUSHI, (uint32_t) v.i);
			auto y = add((s.coin() ? "\xFF" : "K") + std::to_string(syms.size()), type(t), F_CONST, 1);
			if (type(t) == T_FLOAT) syms[y].floats = {v.f};
			else syms[y].strings = {v.s};
			op(PUSHV, y);
		}
		void ref(Slot const& t, uint32_t e) {
			if (e == 0 && s.below(6)) op(PUSHV, t.sym);
			else op(PUSHVV, t.sym), code.u8((uint8_t) e);
		}
		void mov(Slot const& t) { op(func(t) ? MOVVF : type(t) == T_FLOAT ? MOVF : type(t) == T_STRING ? MOVS : MOVI); }
		uint32_t elem(Slot const& t) { return s.coin() ? 0 : s.coin() ? t.count - 1 : (uint32_t) s.below(t.count); }

		void make() {
			auto& all = classes();
			size_t lead = s.below(4);
			for (size_t i = 0; i < lead; ++i) add("G" + std::to_string(i), T_INT, 0, 1);
			uint32_t nf = 1 + (uint32_t) s.below(4);
			for (uint32_t i = 0; i < nf; ++i) {
				funcs.push_back(add("F" + std::to_string(i), T_FUNC, F_CONST, 0));
				syms.back().address = (int32_t) code.d.size();
				op(RSR);
			}
			by_class.resize(all.size());
			size_t many = s.below(4) ? 1 + s.below(3) : all.size();
			size_t first = s.below(all.size());
			int game = (int) s.below(4); // G1, G2, the add-on, any mix
			for (size_t k = 0; k < std::min(many, all.size()); ++k) {
				uint32_t c = (uint32_t) ((first + k) % all.size());
				auto cy = add(all[c].name, T_CLASS, 0, 0);
				std::vector<bool> on((size_t) all[c].groups, false);
				for (size_t g = 0; g < on.size(); ++g) on[g] = g == 0 ? all[c].members[0].group == 0 : game == 3 || all[c].groups > 10 ? s.coin() : (int) g <= game;
				for (uint32_t m = 0; m < all[c].members.size(); ++m) {
					auto& d = all[c].members[m];
					if (!on[(size_t) d.group]) continue;
					uint32_t n = d.n == 1 || s.below(4) ? d.n : 1 + (uint32_t) s.below(d.n);
					auto y = add(std::string(all[c].name) + "." + d.name, d.func && s.below(8) ? T_FUNC : d.type, F_MEMBER, n, (int32_t) cy);
					syms[y].vary = s.coin() ? (uint32_t) s.below(4000) : 0; // (the offset in the game's memory)
					by_class[c].push_back((uint32_t) slots.size());
					slots.push_back({c, m, y, n});
					++syms[cy].count;
				}
				if (s.below(3) == 0) add(std::string(all[c].name) + ".EXTRA", T_INT, F_MEMBER, 1, (int32_t) cy); // (a member the host does not know)
				size_t ni = by_class[c].empty() ? 0 : 1 + s.below(2);
				for (size_t i = 0; i < ni; ++i) {
					Inst in;
					in.cls = c;
					in.sym = add("I" + std::to_string(syms.size()), T_INST, F_CONST, 1, (int32_t) cy);
					insts.push_back(std::move(in));
				}
			}
			if (s.below(12) == 0) spoil();
			for (auto& in : insts) {
				syms[in.sym].address = (int32_t) code.d.size();
				size_t n = s.below(4) ? s.below(8) : by_class[in.cls].size();
				for (size_t i = 0; i < n; ++i) {
					auto& t = slots[by_class[in.cls][n == by_class[in.cls].size() ? i : s.below(by_class[in.cls].size())]];
					auto e = elem(t);
					auto v = value(t);
					push_value(t, v), ref(t, e), mov(t);
					in.init.emplace_back(t, e, v);
				}
				op(RSR);
			}
			size_t na = insts.empty() ? 0 : s.below(12);
			for (size_t i = 0; i < na; ++i) {
				Access a;
				a.inst = (uint32_t) s.below(insts.size());
				a.slot = slots[s.pick(by_class[insts[a.inst].cls])];
				a.elem = elem(a.slot);
				a.set = s.coin();
				int rt = func(a.slot) ? T_INT : type(a.slot);
				a.sym = add("A" + std::to_string(i), T_FUNC, F_CONST | (a.set ? 0 : F_RETURN), 0);
				syms[a.sym].vary = a.set ? 0 : (uint32_t) rt;
				syms[a.sym].address = (int32_t) code.d.size();
				if (a.set) {
					a.v = value(a.slot);
					push_value(a.slot, a.v), op(GMOVI, insts[a.inst].sym), ref(a.slot, a.elem), mov(a.slot);
				} else op(GMOVI, insts[a.inst].sym), ref(a.slot, a.elem);
				op(RSR);
				accesses.push_back(a);
			}
		}
		/// A script which does not fit.
		void spoil() {
			if (slots.empty()) return;
			auto& t = slots[s.below(slots.size())];
			auto& d = classes()[t.cls].members[t.member];
			auto& y = syms[t.sym];
			switch (s.below(4)) {
			case 0:
				if (d.group != 0) return;
				y.name = std::string(classes()[t.cls].name) + ".RENAMED";
				broken = "DaedalusSymbolNotFound";
				break;
			case 1:
				y.type = y.type == T_STRING ? T_INT : y.type == T_FLOAT ? (s.coin() ? T_INT : T_STRING) : (s.coin() ? T_FLOAT : T_STRING);
				broken = "DaedalusInvalidRegistrationDataType";
				break;
			case 2:
				y.count = d.n + 1 + (uint32_t) s.below(20);
				broken = "DaedalusMemberRegistrationError";
				break;
			default:
				y.flags = 0;
				broken = "DaedalusMemberRegistrationError";
				break;
			}
		}

		void compare(Inst& in, char const* when) {
			auto& c = classes()[in.cls];
			for (uint32_t m = 0; m < c.members.size(); ++m)
				for (uint32_t e = 0; e < c.members[m].n; ++e) {
					auto it = in.model.find({m, e});
					static Value const none;
					auto& want = it == in.model.end() ? none : it->second;
					void* p = c.members[m].at(in.obj.get(), e);
					switch (c.members[m].type) {
					case T_INT: {
						int32_t got;
						memcpy(&got, p, 4);
						s.check(got == want.i, "field", "%s.%s[%u] is %d %s, expected %d", c.name, c.members[m].name, e, got, when, want.i);
						break;
					}
					case T_FLOAT: {
						float got;
						memcpy(&got, p, 4);
						s.check(memcmp(&got, &want.f, 4) == 0, "field", "%s.%s[%u] is %g %s, expected %g", c.name, c.members[m].name, e, got, when, want.f);
						break;
					}
					default: {
						auto& got = *(std::string*) p;
						s.check(got == want.s, "field", "%s.%s[%u] is '%s' %s, expected '%s'", c.name, c.members[m].name, e, got.c_str(), when, want.s.c_str());
						break;
					}
					}
				}
			if (auto* info = dynamic_cast<z::IInfo*>(in.obj.get())) {
				bool same = info->choices.size() == in.choices.size();
				for (size_t i = 0; same && i < in.choices.size(); ++i) same = info->choices[i].text == in.choices[i].first && info->choices[i].function == in.choices[i].second;
				s.check(same, "choices", "the choices are not as expected %s", when);
			}
		}
		void put(Inst& in, Slot const& t, uint32_t e, Value const& v) { in.model[{t.member, e}] = v; }
		void init(Inst& in, char const* when) {
			in.obj = classes()[in.cls].init(*vm, vm->find_symbol_by_index(in.sym));
			in.model.clear(), in.choices.clear();
			for (auto& [t, e, v] : in.init) put(in, t, e, v);
			compare(in, when);
		}
		void register_all() {
			if (s.below(10) == 0) {
				alloc_count = 0, alloc_fail_at = 1 + s.below(40);
				bool failed = false;
				try {
					z::register_all_script_classes(*vm);
				} catch (std::bad_alloc const&) {
					failed = true;
				} catch (z::DaedalusScriptError const&) {
				}
				alloc_fail_at = 0;
				if (failed) s.fault("an allocation fails while classes are registered");
			}
			std::string got;
			try {
				z::register_all_script_classes(*vm);
			} catch (z::DaedalusSymbolNotFound const&) {
				got = "DaedalusSymbolNotFound";
			} catch (z::DaedalusInvalidRegistrationDataType const&) {
				got = "DaedalusInvalidRegistrationDataType";
			} catch (z::DaedalusMemberRegistrationError const&) {
				got = "DaedalusMemberRegistrationError";
			}
			s.check(got == broken, "registration", "registering the classes gives '%s', expected '%s'", got.c_str(), broken.c_str());
		}

		void run() {
			make();
			z::DaedalusScript scr;
			auto data = enc_script(syms, code.d);
			auto r = z::Read::from(data.data(), data.size());
			scr.load(r.get());
			vm = std::make_unique<z::DaedalusVm>(std::move(scr), (uint8_t) (s.coin() ? z::DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS : 0));
			register_all();
			if (!broken.empty()) {
				s.reach("a script which does not fit the classes is refused");
				return;
			}
			for (auto& in : insts) init(in, "after its initialisation");
			size_t n = insts.empty() ? 0 : 1 + s.below(20);
			for (size_t k = 0; k < n; ++k) {
				auto& in = insts[s.below(insts.size())];
				auto& t = slots[s.pick(by_class[in.cls])];
				auto& d = classes()[t.cls].members[t.member];
				switch (s.below(7)) {
				case 0: {
					s.event("initialise %s again", syms[in.sym].name.c_str());
					init(in, "after another initialisation");
					break;
				}
				case 1: {
					auto e = (uint32_t) s.below(d.n);
					auto v = value(t);
					s.event("the host sets %s[%u]", d.name, e);
					void* p = d.at(in.obj.get(), e);
					if (d.type == T_INT) memcpy(p, &v.i, 4);
					else if (d.type == T_FLOAT) memcpy(p, &v.f, 4);
					else *(std::string*) p = v.s;
					put(in, t, e, v);
					if (e >= t.count) break;
					// (the script sees it)
					auto* y = vm->find_symbol_by_index(t.sym);
					bool ok = d.type == T_INT ? y->get_int((uint16_t) e, in.obj.get()) == v.i : d.type == T_STRING ? y->get_string((uint16_t) e, in.obj.get()) == v.s : [&] {
						float g = y->get_float((uint16_t) e, in.obj.get());
						return memcmp(&g, &v.f, 4) == 0;
					}();
					s.check(ok, "symbol-get", "the symbol %s[%u] does not have the value the host has set", y->name().c_str(), e);
					break;
				}
				case 2: {
					auto e = elem(t);
					auto v = value(t);
					auto* y = vm->find_symbol_by_index(t.sym);
					s.event("set %s[%u]", y->name().c_str(), e);
					if (d.type == T_INT) y->set_int(v.i, (uint16_t) e, in.obj.get());
					else if (d.type == T_FLOAT) y->set_float(v.f, (uint16_t) e, in.obj.get());
					else y->set_string(v.s, (uint16_t) e, in.obj.get());
					put(in, t, e, v);
					break;
				}
				case 3:
				case 4:
				case 5: {
					if (accesses.empty()) break;
					auto& a = accesses[s.below(accesses.size())];
					auto& ai = insts[a.inst];
					auto& ad = classes()[a.slot.cls].members[a.slot.member];
					auto* y = vm->find_symbol_by_index(a.sym);
					s.event("the script %s %s[%u]", a.set ? "sets" : "reads", ad.name, a.elem);
					auto it = ai.model.find({a.slot.member, a.elem});
					Value want = it == ai.model.end() ? Value {} : it->second;
					if (a.set) {
						vm->call_function(y);
						put(ai, a.slot, a.elem, a.v);
						compare(ai, "after a script has set a member");
					} else if (type(a.slot) == T_STRING) {
						auto g = vm->call_function<std::string>(y);
						s.check(g == want.s, "script-get", "the script reads '%s' from %s, expected '%s'", g.c_str(), ad.name, want.s.c_str());
					} else if (type(a.slot) == T_FLOAT) {
						auto g = vm->call_function<float>(y);
						s.check(memcmp(&g, &want.f, 4) == 0, "script-get", "the script reads %g from %s, expected %g", g, ad.name, want.f);
					} else {
						auto g = vm->call_function<int32_t>(y);
						s.check(g == want.i, "script-get", "the script reads %d from %s, expected %d", g, ad.name, want.i);
					}
					s.nontrivial();
					break;
				}
				default: {
					auto* info = dynamic_cast<z::IInfo*>(in.obj.get());
					if (!info) {
						if (s.coin()) register_all(); // (again)
						break;
					}
					if (in.choices.empty() || s.below(3)) {
						std::pair<std::string, int32_t> ch {s.ident(8), s.i32()};
						z::IInfoChoice c;
						c.text = ch.first, c.function = ch.second;
						info->add_choice(c);
						in.choices.insert(in.choices.begin(), ch);
					} else {
						size_t at = s.below(in.choices.size());
						info->remove_choice(at);
						in.choices.erase(in.choices.begin() + (ptrdiff_t) at);
					}
					s.reach("the choices of a dialogue change");
					break;
				}
				}
			}
			for (auto& in : insts) compare(in, "in the end");
			s.mix(insts.size()), s.mix(code.d.data(), code.d.size());
		}
	};
} // namespace

static void run(Sim& s) {
	log_level(s.below(8) == 0);
	Run r(s);
	r.run();
}

#ifndef SIM_AS_LIBRARY
Harness sim::harness {
    .property = "P21",
    .run = run,
    .rule = "distinct history hashes (scripts and operations) of runs in which a script accessed a member after its instance was initialised",
    .components = "real: src/addon/daedalus.cc, include/zenkit/addon/daedalus.hh, src/DaedalusVm.cc, src/DaedalusScript.cc, src/Stream.cc, src/Logger.cc; simulated: the scripts, the host and failing allocations",
    .quick_runs = 60000,
    .thorough_runs = 2000000,
    .quick_secs = 60,
    .thorough_secs = 600,
    .step_budget = 400'000'000,
};
#endif
