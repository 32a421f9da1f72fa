// Runs programs on the real Daedalus VM and on the reference interpreter in lockstep.
#pragma once
#include <sanitizer/allocator_interface.h>
#include "seam.hh"
#include "vm.hh"

namespace sim::vm {
	struct HostErr {
		int n;
	};
	/// A result of an operation: an error or a value.
	struct Res {
		int err = -1;
		int type = T_VOID;
		int32_t i = 0;
		float f = 0;
		std::string s;
		intptr_t inst = 0; // identity (0: none)
		bool operator==(Res const& o) const {
			return err == o.err && type == o.type && i == o.i && memcmp(&f, &o.f, 4) == 0 && s == o.s && inst == o.inst;
		}
		std::string str() const {
			if (err >= 0) return kind_name(err);
			switch (type) {
			case T_INT: return std::to_string(i);
			case T_FUNC: return "function " + std::to_string(i);
			case T_FLOAT: return std::to_string(f);
			case T_STRING: return "'" + s + "'";
			case T_INST: return "instance #" + std::to_string((long) inst);
			default: return "done";
			}
		}
	};
	struct Arg {
		int type;
		int32_t i = 0;
		float f = 0;
		std::string s;
		int inst = -1; // symbol whose instance is passed, -1: none, -2: a new one without type
	};
	enum RetKind { R_IGNORE, R_VOID, R_INT, R_FLOAT, R_STRING, R_INST, R_FUNC };

	class Lockstep {
	public:
		Sim& s;
		Program p;
		Plan plan;
		Ref ref;
		std::unique_ptr<z::DaedalusVm> vm;
		std::vector<std::string> log;
		size_t host_calls = 0, handler_calls = 0;
		intptr_t next_id = 1;
		std::map<intptr_t, z::DaedalusInstance const*> adopted;

		Lockstep(Sim& sm, Program pr, Plan pl) : s(sm), p(std::move(pr)), plan(std::move(pl)), ref(p, plan) {
			z::DaedalusScript scr;
			auto data = enc_script(p.syms, p.code);
			auto r = z::Read::from(&data);
			scr.load(r.get());
			compare_loaded(scr);
			vm = std::make_unique<z::DaedalusVm>(std::move(scr), plan.flags);
			std::pair<char const*, z::DaedalusSymbol*> const globals[] = {{"SELF", vm->global_self()}, {"OTHER", vm->global_other()}, {"VICTIM", vm->global_victim()}, {"HERO", vm->global_hero()}, {"ITEM", vm->global_item()}};
			for (auto& [n, y] : globals) s.check(y == vm->find_symbol_by_name(n), "globals", "the global variable %s is not the symbol of that name", n);
			s.check(vm->symbols().size() == p.syms.size() + 1, "symbols", "the VM has %zu symbols instead of %zu and its own", vm->symbols().size(), p.syms.size());
			setup();
		}

		z::DaedalusSymbol* sym(uint32_t i) { return vm->find_symbol_by_index(i); }

		/// What the script contains is what has been stored.
		void compare_loaded(z::DaedalusScript& scr) {
			s.check(scr.size() == p.code.size(), "code-size", "%u bytes of code, %zu stored", scr.size(), p.code.size());
			s.check(scr.symbols().size() == p.syms.size(), "symbols", "%zu symbols, %zu stored", scr.symbols().size(), p.syms.size());
			for (uint32_t i = 0; i < p.syms.size(); ++i) {
				auto& d = p.syms[i];
				auto* y = scr.find_symbol_by_index(i);
				std::string name = ref.y[i].d.name;
				bool ok = y->name() == name && y->index() == i && (int) y->type() == d.type && y->count() == d.count && y->parent() == (uint32_t) d.parent && y->is_const() == !!(d.flags & F_CONST) &&
				    y->is_member() == !!(d.flags & F_MEMBER) && y->is_external() == !!(d.flags & F_EXTERNAL) && y->has_return() == !!(d.flags & F_RETURN) && y->is_generated() == (name[0] == '$');
				if (d.flags & F_RETURN) ok = ok && (uint32_t) y->rtype() == d.vary;
				if (d.type >= T_CLASS && !(d.flags & F_MEMBER) && !(d.type == T_FUNC && !(d.flags & F_CONST))) ok = ok && y->address() == (uint32_t) d.address;
				ok = ok && y->file_index() == d.file && y->line_start() == d.line && y->line_count() == d.lines && y->char_start() == d.chr && y->char_count() == d.chrs;
				if (d.flags & F_MEMBER) ok = ok && y->offset_as_member() == d.vary;
				else if (d.type == T_CLASS) ok = ok && y->class_size() == d.vary;
				else
					for (uint32_t k = 0; k < d.count; ++k) {
						if (d.type == T_STRING) ok = ok && y->get_string(k) == ref.y[i].d.strings[k];
						if (d.type == T_INT) ok = ok && y->get_int(k) == d.ints[k];
						if (d.type == T_FLOAT) ok = ok && bits_eq(y->get_float(k), d.floats[k]);
					}
				s.check(ok, "symbol", "symbol %u (%s) differs from what has been stored", i, d.name.c_str());
				s.check(scr.find_symbol_by_name(name) == y, "by-name", "symbol %s is not found by its name", name.c_str());
			}
			auto lower = [](std::string n) {
				for (auto& c : n) c = (char) tolower(c);
				return n;
			};
			s.check(scr.find_symbol_by_index((uint32_t) p.syms.size()) == nullptr && scr.find_symbol_by_name("NO SUCH NAME") == nullptr, "no-symbol", "a symbol is found that does not exist");
			for (uint32_t i = 0; i < p.syms.size(); ++i) {
				if (s.below(8)) continue;
				auto* y = scr.find_symbol_by_index(i);
				s.check(scr.find_symbol_by_name(lower(y->name())) == y, "by-name", "symbol %s is not found by its name in lower case", y->name().c_str());
				if (p.syms[i].type == T_FUNC && (p.syms[i].flags & F_CONST)) {
					auto ps = scr.find_parameters_for_function(y);
					auto ls = scr.find_locals_for_function(y);
					auto want = ref.locals(i);
					s.check(ps.size() == p.syms[i].count && (ps.empty() || ps.front().index() == i + 1), "parameters", "wrong parameters of %s", y->name().c_str());
					s.check(ls.size() == want.size() && (ls.empty() || ls.front().index() == want.front()), "locals", "wrong local variables of %s: %zu, expected %zu", y->name().c_str(), ls.size(), want.size());
				}
			}
			for (auto cls : {p.cls_a, p.cls_b, p.cls_u}) {
				if (!p.protos.empty()) break; // (which instances belong to a prototype of a prototype is not specified)
				std::vector<uint32_t> got, want;
				scr.enumerate_instances_by_class_name(s.coin() ? lower(p.syms[cls].name) : p.syms[cls].name, [&](z::DaedalusSymbol& y) { got.push_back(y.index()); });
				for (auto i : p.insts)
					if ((uint32_t) p.syms[i].parent == cls || (cls == p.cls_a && (uint32_t) p.syms[i].parent == p.proto)) want.push_back(i);
				s.check(got == want, "instances-of-class", "%zu instances of %s are found, expected %zu", got.size(), p.syms[cls].name.c_str(), want.size());
			}
			for (size_t at = 0; at < p.code.size() && s.below(60); ++at) { // (also inside of instructions)
				auto in = scr.instruction_at((uint32_t) at);
				uint8_t o = (uint8_t) p.code[at];
				uint32_t size = 1, v = 0;
				switch (o) {
				case BL: case BZ: case B: case PUSHI: case BE: case PUSHV: case PUSHVI: case GMOVI: size = 5; break;
				case PUSHVV: size = 6; break;
				default: break;
				}
				if (at + size > p.code.size()) continue;
				if (size > 1) memcpy(&v, p.code.data() + at + 1, 4);
				bool adr = o == BL || o == BZ || o == B, imm = o == PUSHI;
				s.check((uint8_t) in.op == o && in.size == size && (size == 1 || (adr ? in.address : imm ? (uint32_t) in.immediate : in.symbol) == v) && (size != 6 || in.index == (uint8_t) p.code[at + 5]), "instruction",
				        "the instruction at %zu is decoded wrongly", at);
			}
			for (auto& [a, i] : ref.by_addr) s.check(scr.find_symbol_by_address(a) == scr.find_symbol_by_index(i), "by-address", "the symbol at %u is not found", a);
		}

		// -- the host
		void throw_if() {
			size_t k = host_calls++;
			int t = plan.throws.empty() ? 0 : plan.throws[k % plan.throws.size()];
			if (!t) return;
			s.fault(t == 1 ? "an external fails with a script error" : "an external fails with another exception");
			if (t == 1) throw z::DaedalusVmException {"the host fails"};
			if (t == 2) throw std::runtime_error("the host fails");
			throw HostErr {3};
		}
		std::shared_ptr<IA> make_ia() {
			auto r = std::make_shared<IA>();
			r->user_ptr = (void*) next_id++;
			return r;
		}
		void init(uint32_t y) { vm->init_instance(make_ia(), sym(y)); }
		void setup() {
			auto& v = *vm;
			v.register_member("C_A.I", &IA::i), v.register_member("C_A.ARR", &IA::arr), v.register_member("C_A.F", &IA::f), v.register_member("C_A.FA", &IA::fa);
			v.register_member("C_A.S", &IA::s), v.register_member("C_A.SA", &IA::sa), v.register_member("C_A.FN", &IA::fn);
			v.register_as_opaque("C_B");
			z::DaedalusVm* m = &v;
			if (s.below(4) == 0) bad_registrations();
			v.register_external("X_ADD", [this](int32_t a, int32_t b) { throw_if(); return addi(a, b); });
			v.register_external("X_CAT", [this](std::string_view a, std::string_view b) { throw_if(); return cat(a, b); });
			v.register_external("X_I2S", [this](int32_t a) { throw_if(); return std::to_string(a); });
			v.register_external("X_FM", [this](float a, int32_t b) { throw_if(); return fm(a, b); });
			v.register_external("X_INST", [this](std::shared_ptr<IA> a) { throw_if(); return a ? a->i : -1; });
			v.register_external("X_RAW", [this](IA* a) { throw_if(); return a ? a->i : -1; });
			v.register_external("X_ANY", [this](std::shared_ptr<z::DaedalusInstance> a) { throw_if(); return a ? (int32_t) a->symbol_index() : -2; });
			v.register_external("X_NEW", [this, m](int32_t k) -> std::shared_ptr<z::DaedalusInstance> {
				throw_if();
				switch ((uint32_t) k % 4) {
				case 0: return nullptr;
				case 1: return make_ia();
				case 2: {
					auto t = std::make_shared<Trans>();
					t->user_ptr = (void*) next_id++;
					return t;
				}
				default: return m->find_symbol_by_index(p.insts[0])->get_instance();
				}
			});
			v.register_external("X_FN", [this](z::DaedalusFunction f) { throw_if(); return f.value ? (int32_t) f.value->index() : -1; });
			v.register_external("X_SYM", [this](z::DaedalusSymbol* y) { throw_if(); return (int32_t) y->index(); });
			v.register_external("X_CB", [this, m](std::string_view a, int32_t k, std::string_view b) {
				throw_if();
				auto c = ref.callbacks();
				auto* rec = m->find_symbol_by_index(p.rec);
				if (rec->get_int() > 0 && !c.empty()) {
					rec->set_int(rec->get_int() - 1);
					m->call_function(m->find_symbol_by_index(c[(uint32_t) k % c.size()]));
				}
				return cat(a, b);
			});
			v.register_external("X_INIT", [this, m](int32_t k, std::string_view b) {
				throw_if();
				auto* rec = m->find_symbol_by_index(p.rec);
				if (rec->get_int() > 0) {
					rec->set_int(rec->get_int() - 1);
					init(p.insts[(uint32_t) k % 2]);
				}
				return cat(b, "");
			});
			v.register_external("X_VOID", [this, m](int32_t a, float b, std::string_view c) {
				if (a & 1) m->unsafe_set_gi(m->find_symbol_by_index(p.insts[0])->get_instance()); // (for the duration of the call)
				throw_if();
				uint32_t fb;
				memcpy(&fb, &b, 4);
				log.push_back("void " + std::to_string(a) + " " + std::to_string(fb) + " " + std::string(c));
			});
			v.override_function("O_ADD", [this](int32_t a, int32_t b) { throw_if(); return addi(b, a); });
			v.override_function("O_STR", [this](std::string_view a) { throw_if(); return cat(a, a); });
			v.override_function("O_NAKED", [this](z::DaedalusVm& x) {
				std::string b = x.pop_string();
				int32_t a = x.pop_int();
				auto gi = x.unsafe_get_gi();
				if (a & 1) x.unsafe_set_gi(x.find_symbol_by_index(p.insts[0])->get_instance());
				throw_if();
				x.unsafe_set_gi(gi);
				x.push_int(naked(a, b));
				return z::DaedalusNakedCall {};
			});
			switch (plan.def) {
			case 1: v.register_default_external([this](std::string_view n) { log.push_back("default " + std::string(n)), throw_if(); }); break;
			case 2: v.register_default_external([this](z::DaedalusSymbol const& y) { log.push_back("default " + y.name()), throw_if(); }); break;
			case 3:
				v.register_default_external_custom([this](z::DaedalusVm& x, z::DaedalusSymbol& y) {
					log.push_back("custom " + y.name());
					throw_if();
					if (!y.has_return()) return;
					switch ((int) y.rtype()) {
					case T_FLOAT: return x.push_float(0);
					case T_INT:
					case T_FUNC: return x.push_int(0);
					case T_STRING: return x.push_string("");
					case T_INST: return x.push_instance(nullptr);
					default: return;
					}
				});
				break;
			default: break;
			}
			if (plan.handler == 1) v.register_exception_handler(z::lenient_vm_exception_handler);
			if (plan.handler == 2)
				v.register_exception_handler([this](z::DaedalusVm& v, z::DaedalusScriptError const& e, z::DaedalusInstruction const& in) {
					int what = plan.strategy.empty() ? 2 : plan.strategy[handler_calls++ % plan.strategy.size()];
					log.push_back(std::string("handler ") + kind_name(kind(e)) + " " + std::to_string((int) in.op));
					if (what == 3) v.unsafe_jump(plan.target(handler_calls, v.pc())), what = 0;
					return (z::DaedalusVmExceptionStrategy) what;
				});
			if (plan.trap_cb)
				v.register_access_trap([this, m](z::DaedalusSymbol& y) {
					log.push_back("trap " + y.name());
					if (y.type() == z::DaedalusDataType::INT) m->push_int(77);
					else if (y.type() == z::DaedalusDataType::STRING) m->push_string("trapped");
					else m->push_reference(&y, 0);
				});
			for (uint32_t i = 0; i < p.syms.size(); ++i)
				if (s.below(12) == 0) sym(i)->set_access_trap_enable(ref.y[i].trap = true);
			bool all = s.coin();
			for (auto& f : p.funcs)
				if (!f.external && !f.overridden && (all || s.coin())) sym(f.sym)->set_local_variables_enable(ref.y[f.sym].locals = true);
		}
		/// Registrations that do not match the script are rejected and change nothing.
		void bad_registrations() {
			auto& v = *vm;
			auto rejects = [&](char const* what, auto f) {
				try {
					f();
				} catch (z::DaedalusScriptError const&) {
					return;
				}
				s.fail("registration", "%s is accepted", what);
			};
			rejects("an external with too few parameters", [&] { v.register_external("X_ADD", [](int32_t) { return 1; }); });
			rejects("an external with too many parameters", [&] { v.register_external("X_ADD", [](int32_t, int32_t, int32_t) { return 1; }); });
			rejects("an external with a wrong parameter", [&] { v.register_external("X_ADD", [](int32_t, float) { return 1; }); });
			rejects("an external with a string for an int", [&] { v.register_external("X_ADD", [](std::string_view, int32_t) { return 1; }); });
			rejects("an external with an instance for a string", [&] { v.register_external("X_CAT", [](std::string_view, std::shared_ptr<IA>) { return std::string {}; }); });
			rejects("an external with an int for an instance", [&] { v.register_external("X_INST", [](int32_t) { return 1; }); });
			rejects("an external with a wrong result", [&] { v.register_external("X_ADD", [](int32_t, int32_t) { return 1.f; }); });
			rejects("an external with a string as result of an int", [&] { v.register_external("X_ADD", [](int32_t, int32_t) { return std::string {}; }); });
			rejects("an external without result", [&] { v.register_external("X_ADD", [](int32_t, int32_t) {}); });
			rejects("an external with a result", [&] { v.register_external("X_VOID", [](int32_t, float, std::string_view) { return 1; }); });
			rejects("a script function as an external", [&] { v.register_external("FN0", [] {}); });
			v.register_external("NO_SUCH_EXTERNAL", [] {});
			rejects("an override of nothing", [&] { v.override_function("NO_SUCH_FUNCTION", [] {}); });
			rejects("an override of an external", [&] { v.override_function("X_ADD", [](int32_t, int32_t) { return 1; }); });
			rejects("an override with a wrong parameter", [&] { v.override_function("O_ADD", [](int32_t, std::string_view) { return 1; }); });
			rejects("an override with a wrong result", [&] { v.override_function("O_ADD", [](int32_t, int32_t) { return std::string {}; }); });
			rejects("a member with a wrong type", [&] { v.register_member("C_A.I", &IA::f); });
			rejects("a member with a wrong type", [&] { v.register_member("C_A.S", &IA::i); });
			rejects("a member with too few elements", [&] { v.register_member("C_A.ARR", &IA::i); });
			rejects("a member of nothing", [&] { v.register_member("C_A.NONE", &IA::i); });
			rejects("a variable as a member", [&] { v.register_member("REC", &IA::i); });
		}
		static int kind(z::DaedalusScriptError const& e) {
			if (dynamic_cast<z::DaedalusVmException const*>(&e)) return K_VM;
			if (dynamic_cast<z::DaedalusIllegalTypeAccess const*>(&e)) return K_TYPE;
			if (dynamic_cast<z::DaedalusIllegalIndexAccess const*>(&e)) return K_INDEX;
			if (dynamic_cast<z::DaedalusIllegalConstAccess const*>(&e)) return K_CONST;
			if (dynamic_cast<z::DaedalusNoContextError const*>(&e)) return K_NOCTX;
			if (dynamic_cast<z::DaedalusUnboundMemberAccess const*>(&e)) return K_UNBOUND;
			if (dynamic_cast<z::DaedalusIllegalContextType const*>(&e)) return K_CTXTYPE;
			if (dynamic_cast<z::DaedalusIllegalExternalParameter const*>(&e)) return K_EXTPARAM;
			return K_COUNT;
		}
		static std::string strip(std::string m) { return m.substr(0, 200); }

		// -- an operation on both
		template <typename F>
		Res on_model(F f) {
			Res r;
			try {
				f(r);
			} catch (MErr const& e) {
				r = {};
				r.err = e.kind;
			}
			return r;
		}
		template <typename F>
		Res on_real(F f) {
			Res r;
			try {
				f(r);
			} catch (z::DaedalusScriptError const& e) {
				r = {};
				r.err = kind(e);
			} catch (HostErr const&) {
				r = {};
				r.err = K_HOST;
			} catch (std::runtime_error const& e) {
				if (strcmp(e.what(), "the host fails") != 0) throw;
				r = {};
				r.err = K_HOST;
			}
			return r;
		}
		/// 0: done and compared, 1: too long, 2: unspecified
		template <typename M, typename R>
		int both(char const* what, M m, R r) {
			if (unchecked) {
				unchecked = false;
				s.event("%s (not compared)", what);
				Res b;
				struct Disarm {
					~Disarm() { alloc_fail_at = 0; }
				} disarm;
				try {
					alloc_fail_at = fail_at;
					r(b);
				} catch (Violation const&) {
					throw;
				} catch (std::bad_alloc const&) {
					s.reach("operation failed: out of memory");
				} catch (z::DaedalusScriptError const&) {
				} catch (std::runtime_error const&) {
				} catch (HostErr const&) {
				}
				return 3;
			}
			Res a;
			ref.executed = 0;
			ref.log.clear(), log.clear();
			try {
				a = on_model(m);
			} catch (TooLong const&) {
				return 1;
			} catch (Unspecified const&) {
				unspecified = r;
				return 2;
			}
			s.event("%s: %s (%llu instructions, %zu entries in the log)", what, a.str().c_str(), (unsigned long long) ref.executed, ref.log.size());
			if (s.tracing)
				for (size_t i = 0; i < ref.log.size() && i < 60; ++i) s.event("   %s", ref.log[i].c_str());
			Res b = on_real(r);
			s.mix(ref.executed), s.mix((uint64_t) (a.err + 1)), s.mix((uint64_t) a.i), s.mix(a.s.data(), a.s.size());
			for (size_t i = 0; i < log.size() && i < ref.log.size(); ++i)
				s.check(log[i] == ref.log[i], "log", "%s: entry %zu seen by the host is '%s', expected '%s'", what, i, log[i].c_str(), ref.log[i].c_str());
			if (log.size() != ref.log.size()) s.fail("log", "%s: %zu entries seen by the host, expected %zu, next '%s'", what, log.size(), ref.log.size(),
			        log.size() > ref.log.size() ? log[ref.log.size()].c_str() : ref.log[log.size()].c_str());
			s.check(a == b, "result", "%s: the result is %s, expected %s", what, b.str().c_str(), a.str().c_str());
			if (a.err >= 0) s.reach(kind_name(a.err));
			compare();
			return 0;
		}
		std::function<void(Res&)> unspecified;
		uint64_t fail_at = 0;   // (then) the allocation that fails
		bool unchecked = false; // the next operation is executed on the real VM only

		intptr_t identity(std::shared_ptr<z::DaedalusInstance> const& i, P const& m) {
			if (!i) return 0;
			if (!i->user_ptr && m && m->type == I_OPAQUE) { // made by the VM
				auto [it, fresh] = adopted.try_emplace(m->id, i.get());
				if (fresh) i->user_ptr = (void*) m->id;
			}
			return (intptr_t) i->user_ptr;
		}
		void compare() {
			std::set<MI*> seen;
			auto same = [&](std::shared_ptr<z::DaedalusInstance> const& b, P const& a, char const* where) {
				intptr_t id = identity(b, a);
				s.check(id == (a ? a->id : 0), "instance", "%s refers to instance #%ld, expected #%ld", where, (long) id, a ? (long) a->id : 0);
				if (!a || !seen.insert(a.get()).second) return;
				compare_members(*b, *a, where);
			};
			for (uint32_t i = 0; i < p.syms.size(); ++i) {
				auto& a = ref.y[i];
				if (ref.mem(i)) continue;
				auto* b = sym(i);
				char const* n = a.d.name.c_str();
				switch (a.d.type) {
				case T_INT:
				case T_FUNC:
					if (a.d.type == T_FUNC && ref.cst(i)) break;
					for (uint32_t k = 0; k < a.d.count; ++k) s.check(b->get_int((uint16_t) k) == a.d.ints[k], "int", "%s[%u] is %d, expected %d", n, k, b->get_int((uint16_t) k), a.d.ints[k]);
					break;
				case T_FLOAT:
					for (uint32_t k = 0; k < a.d.count; ++k) {
						float f = b->get_float((uint16_t) k);
						s.check(memcmp(&f, &a.d.floats[k], 4) == 0, "float", "%s[%u] is %g, expected %g", n, k, f, a.d.floats[k]);
					}
					break;
				case T_STRING:
					for (uint32_t k = 0; k < a.d.count; ++k)
						s.check(b->get_string((uint16_t) k) == a.d.strings[k], "string", "%s[%u] is '%s', expected '%s'", n, k, b->get_string((uint16_t) k).c_str(), a.d.strings[k].c_str());
					break;
				case T_INST: same(b->get_instance(), a.inst, n); break;
				default: break;
				}
			}
			same(vm->unsafe_get_gi(), ref.gi, "the current instance");
			s.check(vm->pc() == ref.pc, "pc", "the program counter is %u, expected %u", vm->pc(), ref.pc);
			bool empty = false;
			try {
				(void) vm->top_is_reference();
			} catch (z::DaedalusVmException const&) {
				empty = true;
			}
			s.check(empty == ref.st.empty(), "stack", "the stack is %sempty, expected %zu values", empty ? "" : "not ", ref.st.size());
			s.check(next_id == ref.next_id, "instances", "%ld instances were created, expected %ld", (long) next_id - 1, (long) ref.next_id - 1);
		}
		template <typename Map, typename K>
		static auto at(Map const& m, K k) {
			auto it = m.find(k);
			return it == m.end() ? typename Map::mapped_type {} : it->second;
		}
		static bool feq(float a, float b) { return memcmp(&a, &b, 4) == 0; }
		void compare_members(z::DaedalusInstance const& b, MI const& a, char const* w) {
			s.check(b.symbol_index() == a.sym, "symbol-of-instance", "%s: the instance belongs to symbol %d, expected %d", w, (int) b.symbol_index(), (int) a.sym);
			if (auto* x = dynamic_cast<IA const*>(&b)) {
				s.check(a.type == I_A || a.type == I_NONE, "type", "%s: the instance has type %d", w, a.type);
				s.check((b.instance_type() != nullptr) == (a.type == I_A), "type", "%s: the instance is of another type than expected", w);
				bool ok = x->i == at(a.ints, std::pair {p.a_i, 0u}) && x->fn == at(a.ints, std::pair {p.a_fn, 0u}) && feq(x->f, at(a.floats, std::pair {p.a_f, 0u})) && x->s == at(a.strings, std::pair {p.a_s, 0u});
				for (uint32_t k = 0; k < 3; ++k) ok = ok && x->arr[k] == at(a.ints, std::pair {p.a_arr, k});
				for (uint32_t k = 0; k < 2; ++k) ok = ok && feq(x->fa[k], at(a.floats, std::pair {p.a_fa, k})) && x->sa[k] == at(a.strings, std::pair {p.a_sa, k});
				s.check(ok, "members", "%s: members of instance #%ld are wrong (i %d expected %d, s '%s' expected '%s')", w, (long) a.id, x->i, at(a.ints, std::pair {p.a_i, 0u}), x->s.c_str(), at(a.strings, std::pair {p.a_s, 0u}).c_str());
			} else if (auto* t = dynamic_cast<Trans const*>(&b)) {
				s.check(a.type == I_TRANS, "type", "%s: not a transient instance", w);
				for (auto& [k, v] : a.ints) s.check(at(t->ints, std::pair {k.first, (uint16_t) k.second}) == v, "members", "%s: member %u[%u] of a transient instance is wrong", w, k.first, k.second);
				for (auto& [k, v] : a.floats) s.check(feq(at(t->floats, std::pair {k.first, (uint16_t) k.second}), v), "members", "%s: member %u[%u] of a transient instance is wrong", w, k.first, k.second);
				for (auto& [k, v] : a.strings) s.check(at(t->strings, std::pair {k.first, (uint16_t) k.second}) == v, "members", "%s: member %u[%u] of a transient instance is wrong", w, k.first, k.second);
			} else {
				s.check(a.type == I_OPAQUE, "type", "%s: an opaque instance, but type %d expected", w, a.type);
				for (auto m : p.b_members)
					for (uint32_t k = 0; k < p.syms[m].count; ++k) {
						bool ok = true;
						std::pair<uint32_t, uint32_t> key {m, k};
						switch (p.syms[m].type) {
						case T_FLOAT: ok = feq(sym(m)->get_float((uint16_t) k, &b), at(a.floats, key)); break;
						case T_STRING: ok = sym(m)->get_string((uint16_t) k, &b) == at(a.strings, key); break;
						default: ok = sym(m)->get_int((uint16_t) k, &b) == at(a.ints, key); break;
						}
						s.check(ok, "members", "%s: member %s[%u] of an opaque instance is wrong", w, p.syms[m].name.c_str(), k);
					}
			}
		}

		// -- operations
		Arg gen_arg(int t) {
			Arg a {t};
			switch (t) {
			case T_INT: a.i = s.i32(); break;
			case T_FUNC: a.i = s.below(4) ? (int32_t) s.pick(p.funcs).sym : s.i32(); break;
			case T_FLOAT: a.f = s.f32(); break;
			case T_STRING: a.s = s.ident(40); break;
			default: a.inst = s.below(5) == 0 ? -2 : s.below(4) == 0 ? -1 : (int) (s.coin() ? s.pick(p.insts) : s.pick(p.ivars)); break;
			}
			return a;
		}
		/// Only instances of type IA (or none) can be handed over with their type.
		std::shared_ptr<IA> real_inst(Arg const& a) {
			if (a.inst == -1) return nullptr;
			if (a.inst == -2) return make_ia();
			return std::dynamic_pointer_cast<IA>(sym((uint32_t) a.inst)->get_instance());
		}
		P model_inst(Arg const& a) {
			if (a.inst == -1) return nullptr;
			if (a.inst == -2) {
				auto n = std::make_shared<MI>();
				n->id = ref.next_id++;
				return n;
			}
			auto r = ref.y[(uint32_t) a.inst].inst;
			return r && (r->type == I_A || r->type == I_NONE) ? r : nullptr;
		}
		void model_call(uint32_t y, std::vector<Arg> const& args, std::vector<P> const& insts, RetKind rk, Res& r) {
			auto& d = ref.y[y].d;
			if (d.type != T_FUNC) Ref::err(K_VM);
			if (args.size() != ref.nparams(y)) Ref::err(K_VM);
			int rt = d.flags & F_RETURN ? (int) d.vary : T_VOID;
			bool ok = true;
			switch (rk) {
			case R_IGNORE: break;
			case R_VOID: ok = rt == T_VOID; break;
			case R_INT:
			case R_FUNC: ok = rt == T_INT || rt == T_FUNC; break;
			case R_FLOAT: ok = rt == T_FLOAT; break;
			case R_STRING: ok = rt == T_STRING; break;
			case R_INST: ok = rt == T_INST; break;
			}
			if (!ok) Ref::err(K_VM);
			size_t sp = ref.st.size();
			try {
				for (size_t i = 0; i < args.size(); ++i) {
					int t = ref.y[y + 1 + i].d.type;
					auto& a = args[i];
					switch (a.type) {
					case T_INT:
					case T_FUNC:
						if (t != T_INT && t != T_FUNC) Ref::err(K_EXTPARAM);
						ref.push_i(a.i);
						break;
					case T_FLOAT:
						if (t != T_FLOAT) Ref::err(K_EXTPARAM);
						ref.push_f(a.f);
						break;
					case T_STRING:
						if (t != T_STRING) Ref::err(K_EXTPARAM);
						ref.push_s(a.s);
						break;
					default:
						if (t != T_INST) Ref::err(K_EXTPARAM);
						ref.push_inst(insts[i]);
						break;
					}
				}
			} catch (MErr const&) {
				ref.st.resize(sp);
				throw;
			}
			ref.call(y);
			switch (rk) {
			case R_IGNORE:
				if (d.flags & F_RETURN) {
					if (ref.st.empty()) throw Unspecified {};
					ref.st.pop_back();
				}
				break;
			case R_VOID: break;
			case R_INT: r.type = T_INT, r.i = ref.pop_i(); break;
			case R_FUNC: r.type = T_FUNC, r.i = (int32_t) ref.pop_fn(); break;
			case R_FLOAT: r.type = T_FLOAT, r.f = ref.pop_f(); break;
			case R_STRING: r.type = T_STRING, r.s = ref.pop_s(); break;
			case R_INST: {
				auto x = ref.checked(ref.pop_inst());
				r.type = T_INST, r.inst = x ? x->id : 0;
				break;
			}
			}
		}
		template <typename... A>
		void real_call_r(z::DaedalusSymbol* y, RetKind rk, Res& r, A... a) {
			switch (rk) {
			case R_IGNORE: vm->call_function(y, a...); break;
			case R_VOID: vm->call_function<void>(y, a...); break;
			case R_INT: r.type = T_INT, r.i = vm->call_function<int32_t>(y, a...); break;
			case R_FLOAT: r.type = T_FLOAT, r.f = vm->call_function<float>(y, a...); break;
			case R_STRING: r.type = T_STRING, r.s = vm->call_function<std::string>(y, a...); break;
			case R_FUNC: {
				auto f = vm->call_function<z::DaedalusFunction>(y, a...);
				r.type = T_FUNC, r.i = f.value ? (int32_t) f.value->index() : -1;
				break;
			}
			case R_INST: {
				auto x = vm->call_function<std::shared_ptr<IA>>(y, a...);
				r.type = T_INST, r.inst = x ? (intptr_t) x->user_ptr : 0;
				break;
			}
			}
		}
		void real_call(uint32_t yi, std::vector<Arg> const& a, std::vector<std::shared_ptr<IA>> const& in, RetKind rk, Res& r) {
			auto* y = sym(yi);
			std::string sig;
			for (auto& x : a) sig += x.type == T_INT || x.type == T_FUNC ? 'i' : x.type == T_FLOAT ? 'f' : x.type == T_STRING ? 's' : 'o';
			auto sv = [&](size_t i) { return std::string_view {a[i].s}; };
			if (sig == "") real_call_r(y, rk, r);
			else if (sig == "i") real_call_r(y, rk, r, a[0].i);
			else if (sig == "ii") real_call_r(y, rk, r, a[0].i, a[1].i);
			else if (sig == "fs") real_call_r(y, rk, r, a[0].f, sv(1));
			else if (sig == "o") real_call_r(y, rk, r, in[0]);
			else real_call_r(y, rk, r, sv(0), a[1].i, a[2].i);
		}
		int op_call(uint32_t y, std::vector<int> const& types, RetKind rk) {
			std::vector<Arg> args;
			for (int t : types) args.push_back(gen_arg(t));
			// (identities are given in the same order in both executions)
			std::vector<P> mi;
			std::vector<std::shared_ptr<IA>> ri;
			for (auto& a : args) mi.push_back(a.type == T_INST ? model_inst(a) : nullptr), ri.push_back(a.type == T_INST ? real_inst(a) : nullptr);
			std::string what = "call " + p.syms[y].name;
			return both(what.c_str(), [this, y, args, mi, rk](Res& r) { model_call(y, args, mi, rk, r); }, [this, y, args, ri, rk](Res& r) { real_call(y, args, ri, rk, r); });
		}
		static RetKind ret_kind(int t) { return t == T_INT ? R_INT : t == T_FLOAT ? R_FLOAT : t == T_STRING ? R_STRING : t == T_INST ? R_INST : t == T_FUNC ? R_FUNC : R_VOID; }
		void limits(bool deep) {
			int32_t rec = (int32_t) s.below(8), fuel = (int32_t) s.below(4);
			if (deep) {
				if (s.coin()) rec = (int32_t) s.below(4000);
				else fuel = (int32_t) s.below(3000);
			}
			for (auto [y, v] : {std::pair {p.rec, rec}, std::pair {p.fuel, fuel}}) ref.y[y].d.ints[0] = v, sym(y)->set_int(v);
		}
		/// The last operation of a run: the same call over and over again, which must not use up memory.
		void endure() {
			std::vector<Func const*> v;
			for (auto& f : p.funcs)
				if (!f.external && !f.overridden && f.params.empty()) v.push_back(&f);
			auto& f = *v[s.below(v.size())];
			int32_t rec = (int32_t) s.below(3);
			bool ignore = s.coin();
			s.event("call %s again and again", p.syms[f.sym].name.c_str());
			size_t early = 0, instructions = 0;
			for (size_t i = 0; i < 2600; ++i) {
				for (auto [y, v] : {std::pair {p.rec, rec}, std::pair {p.fuel, 0}}) ref.y[y].d.ints[0] = v, sym(y)->set_int(v);
				auto rk = ignore ? R_IGNORE : ret_kind(f.ret);
				ref.executed = 0, ref.log.clear(), log.clear();
				try {
					Res a = on_model([&](Res& r) { model_call(f.sym, {}, {}, rk, r); });
					Res b = on_real([&](Res& r) { real_call(f.sym, {}, {}, rk, r); });
					s.check(a == b, "result", "call %zu: the result is %s, expected %s", i, b.str().c_str(), a.str().c_str());
					s.check(log == ref.log, "log", "call %zu: %zu entries seen by the host differ from the %zu expected", i, log.size(), ref.log.size());
				} catch (TooLong const&) {
					return;
				} catch (Unspecified const&) {
					return;
				}
				if ((instructions += ref.executed + 1) > 500'000) return;
				if (i == 400) early = __sanitizer_get_current_allocated_bytes();
			}
			size_t late = __sanitizer_get_current_allocated_bytes();
			s.check(late < early + 50'000, "memory", "2200 equal calls have used up %zu bytes of memory", late - early);
			s.reach("endurance");
		}
		int op(bool deep, int only = -1) {
			limits(deep);
			static std::vector<std::vector<int>> const sig = {{}, {T_INT}, {T_INT, T_INT}, {T_FLOAT, T_STRING}, {T_INST}, {T_STRING, T_INT, T_INT}, {T_FUNC}};
			switch (only >= 0 ? (uint64_t) only : s.below(16)) {
			case 0: // any function, any types
				return op_call(s.below(6) ? s.pick(p.funcs).sym : (uint32_t) s.below(p.syms.size()), sig[s.below(sig.size())], (RetKind) s.below(7));
			case 1:
			case 2: {
				uint32_t y = s.below(8) == 0 ? (s.coin() ? s.pick(p.ivars) : (uint32_t) s.below(p.syms.size())) : s.pick(p.insts);
				auto id = ref.next_id++;
				auto obj = make_ia();
				bool alloc = s.below(4) == 0;
				std::string what = (alloc ? "allocate " : "init ") + p.syms[y].name;
				return both(what.c_str(),
				            [this, y, id, alloc](Res& r) {
					            auto m = std::make_shared<MI>();
					            m->id = id;
					            if (ref.y[y].d.type != T_INST) Ref::err(K_VM);
					            if (alloc) m->type = I_A, ref.allocate(y, m);
					            else ref.init(y, I_A, m);
					            r.type = T_INST, r.inst = id;
				            },
				            [this, y, obj, alloc](Res& r) {
					            if (alloc) vm->allocate_instance(obj, sym(y));
					            else vm->init_instance(obj, sym(y));
					            r.type = T_INST, r.inst = (intptr_t) obj->user_ptr;
				            });
			}
			case 3: {
				uint32_t y = s.below(4) == 0 ? s.pick(p.insts) : p.insts[2];
				std::string what = "init opaque " + p.syms[y].name;
				auto made = std::make_shared<P>();
				return both(what.c_str(),
				            [this, y, made](Res& r) {
					            auto m = ref.init(y, I_OPAQUE);
					            *made = m;
					            r.type = T_INST, r.inst = m->id;
				            },
				            [this, y, made](Res& r) {
					            if (y == p.insts[2]) ++next_id;
					            auto i = vm->init_opaque_instance(sym(y));
					            r.type = T_INST, r.inst = identity(i, *made);
				            });
			}
			case 4: {
				uint32_t y = (uint32_t) s.below(p.syms.size());
				auto k = (uint16_t) s.below(s.below(4) ? std::max(1u, p.syms[y].count) : 400);
				int what = (int) s.below(6);
				auto g = s.coin() ? s.pick(p.insts) : s.pick(p.ivars);
				P mc = s.coin() ? ref.y[g].inst : nullptr;
				auto rc = mc ? sym(g)->get_instance() : nullptr;
				int32_t iv = s.i32();
				float fv = s.f32();
				std::string sv = s.ident(20);
				if (y == p.rec || y == p.fuel) return 0;
				std::string name = "access " + p.syms[y].name + "[" + std::to_string(k) + "] (" + std::to_string(what) + ")";
				return both(name.c_str(),
				            [=, this](Res& r) {
					            switch (what) {
					            case 0: r.type = T_INT, r.i = ref.sym_get_int(y, k, mc); break;
					            case 1: r.type = T_FLOAT, r.f = ref.sym_get_float(y, k, mc); break;
					            case 2: r.type = T_STRING, r.s = ref.sym_get_string(y, k, mc); break;
					            case 3: ref.sym_set_int(y, k, mc, iv); break;
					            case 4: (ref.access(y, k, mc, {T_FLOAT}) ? mc->floats[{y, k}] : ref.y[y].d.floats[k]) = fv; break;
					            default: (ref.access(y, k, mc, {T_STRING}) ? mc->strings[{y, k}] : ref.y[y].d.strings[k]) = sv; break;
					            }
				            },
				            [=, this](Res& r) {
					            switch (what) {
					            case 0: r.type = T_INT, r.i = sym(y)->get_int(k, rc.get()); break;
					            case 1: r.type = T_FLOAT, r.f = sym(y)->get_float(k, rc.get()); break;
					            case 2: r.type = T_STRING, r.s = sym(y)->get_string(k, rc.get()); break;
					            case 3: sym(y)->set_int(iv, k, rc.get()); break;
					            case 4: sym(y)->set_float(fv, k, rc.get()); break;
					            default: sym(y)->set_string(sv, k, rc.get()); break;
					            }
				            });
			}
			case 5: {
				auto from = s.coin() ? s.pick(p.insts) : s.pick(p.ivars);
				auto to = s.pick(p.ivars);
				bool none = s.below(4) == 0, gi = s.coin();
				std::string what = (gi ? "set the current instance to " : "set " + p.syms[to].name + " to ") + (none ? std::string("none") : p.syms[from].name);
				return both(what.c_str(),
				            [=, this](Res&) { (gi ? ref.gi : ref.y[to].inst) = none ? nullptr : ref.y[from].inst; },
				            [=, this](Res&) {
					            auto i = none ? nullptr : sym(from)->get_instance();
					            if (gi) vm->unsafe_set_gi(i);
					            else sym(to)->set_instance(i);
				            });
			}
			default: {
				std::vector<Func const*> v;
				for (auto& f : p.funcs)
					if (!f.external && !f.overridden) v.push_back(&f);
				auto& f = *v[s.below(v.size())];
				return op_call(f.sym, f.params, s.below(5) ? ret_kind(f.ret) : R_IGNORE);
			}
			}
		}
	};
} // namespace sim::vm
