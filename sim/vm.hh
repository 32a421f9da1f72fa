// Daedalus programs, a reference interpreter for them, and a simulated host (externals, handlers, instances).
#pragma once
#include "script.hh"
#include <zenkit/DaedalusVm.hh>
#include <zenkit/Logger.hh>
#include <zenkit/Stream.hh>

#include <memory>
#include <set>

namespace sim::vm {
	namespace z = zenkit;

	// ---- host classes ------------------------------------------------------------------------------
	struct IA : z::DaedalusInstance {
		int32_t i = 0;
		int32_t arr[3] {};
		float f = 0;
		float fa[2] {};
		std::string s;
		std::string sa[2];
		int32_t fn = 0;
		static inline thread_local int alive = 0;
		IA() { ++alive; }
		~IA() override { --alive; }
	};
	struct Trans : z::DaedalusTransientInstance {
		std::map<std::pair<uint32_t, uint16_t>, int32_t> ints;
		std::map<std::pair<uint32_t, uint16_t>, float> floats;
		mutable std::map<std::pair<uint32_t, uint16_t>, std::string> strings;
		static inline thread_local int alive = 0;
		Trans() { ++alive; }
		~Trans() override { --alive; }

	protected:
		void set_int(z::DaedalusSymbol const& y, uint16_t i, int32_t v) override { ints[{y.index(), i}] = v; }
		int32_t get_int(z::DaedalusSymbol const& y, uint16_t i) const override {
			auto it = ints.find({y.index(), i});
			return it == ints.end() ? 0 : it->second;
		}
		void set_float(z::DaedalusSymbol const& y, uint16_t i, float v) override { floats[{y.index(), i}] = v; }
		float get_float(z::DaedalusSymbol const& y, uint16_t i) const override {
			auto it = floats.find({y.index(), i});
			return it == floats.end() ? 0 : it->second;
		}
		void set_string(z::DaedalusSymbol const& y, uint16_t i, std::string_view v) override { strings[{y.index(), i}] = v; }
		std::string const& get_string(z::DaedalusSymbol const& y, uint16_t i) const override { return strings[{y.index(), i}]; }
	};
	enum InstType { I_NONE, I_A, I_OPAQUE, I_TRANS };

	// ---- opcodes -----------------------------------------------------------------------------------
	enum Op : uint8_t {
		ADD = 0, SUB = 1, MUL = 2, DIV = 3, MOD = 4, OR = 5, ANDB = 6, LT = 7, GT = 8, MOVI = 9, ORR = 11, AND = 12, LSL = 13, LSR = 14, LTE = 15, EQ = 16, NEQ = 17, GTE = 18,
		ADDMOVI = 19, SUBMOVI = 20, MULMOVI = 21, DIVMOVI = 22, PLUS = 30, NEGATE = 31, NOT = 32, CMPL = 33, NOP = 45, RSR = 60, BL = 61, BE = 62, PUSHI = 64, PUSHV = 65,
		PUSHVI = 67, MOVS = 70, MOVSS = 71, MOVVF = 72, MOVF = 73, MOVVI = 74, B = 75, BZ = 76, GMOVI = 80, PUSHVV = 245
	};

	// ---- program -----------------------------------------------------------------------------------
	enum Ext { X_ADD, X_CAT, X_I2S, X_FM, X_INST, X_RAW, X_ANY, X_NEW, X_FN, X_SYM, X_CB, X_INIT, X_VOID, X_UNREG_I, X_UNREG_S, X_UNREG_V, X_UNREG_O, X_UNREG_F, X_COUNT };
	enum Ovr { O_ADD, O_STR, O_NAKED, O_COUNT };
	struct Func {
		uint32_t sym;
		std::vector<int> params;
		int ret; // T_VOID: none
		bool external = false, overridden = false, callback = false;
		int id = 0;
	};
	struct Program {
		std::vector<SymDef> syms;
		std::vector<std::byte> code;
		std::vector<Func> funcs;
		uint32_t cls_a, cls_b, cls_u, a_i, a_arr, a_f, a_fa, a_s, a_sa, a_fn, a_unb, u_x;
		std::vector<uint32_t> b_members;
		std::vector<uint32_t> ints, floats, strings, fvars, ivars, insts; // globals
		uint32_t rec, fuel, proto;
		std::vector<uint32_t> protos; // (empty ones)
		std::vector<uint32_t> members_of_a() const { return {a_i, a_arr, a_f, a_fa, a_s, a_sa, a_fn}; }
	};

	class Gen {
	public:
		Gen(Sim& sm, bool wild) : s(sm), wild(wild) {}
		Program make() {
			symbols();
			bodies();
			for (auto [at, sym] : fix) {
				uint32_t a = (uint32_t) p.syms[sym].address;
				memcpy(c.d.data() + at, &a, 4);
			}
			p.code = c.d;
			return p;
		}

	private:
		Sim& s;
		bool wild;
		Program p;
		Enc c;
		std::vector<std::pair<size_t, uint32_t>> fix;
		size_t budget = 0;
		std::vector<uint32_t> l_ints, l_floats, l_strings, l_insts, l_fvars;
		size_t cur = 0;

		std::string text() {
			static char const* const piece[] = {"\\n", "\\t", "\\", "\\x", " ", "\t", "n", "t", "\xFC", "a"};
			std::string r;
			for (size_t n = s.below(8); n; --n) r += piece[s.below(std::size(piece))];
			return r;
		}
		uint32_t add(std::string name, int type, uint32_t flags, uint32_t count, uint32_t parent = (uint32_t) -1) {
			SymDef d;
			d.name = std::move(name), d.type = type, d.flags = flags, d.count = count, d.parent = (int32_t) parent;
			if (type == T_STRING)
				for (uint32_t i = 0; i < count; ++i) d.strings.push_back(s.below(4) ? s.ident(30) : text());
			if (type == T_STRING && (flags & F_CONST) && s.below(3) == 0) d.stray = (uint32_t) s.below(5);
			if (type == T_INT)
				for (uint32_t i = 0; i < count; ++i) d.ints.push_back(s.i32());
			if (type == T_FLOAT)
				for (uint32_t i = 0; i < count; ++i) d.floats.push_back(s.f32());
			if (type != T_FUNC) d.vary = s.coin() ? (uint32_t) s.below(40) : s.u32();
			d.file = s.u32() & 0x7FFFF, d.line = s.u32() & 0x7FFFF, d.lines = s.u32() & 0x7FFFF, d.chr = s.u32() & 0xFFFFFF, d.chrs = s.u32() & 0xFFFFFF;
			p.syms.push_back(d);
			return (uint32_t) p.syms.size() - 1;
		}
		void func(std::string name, std::vector<int> params, int ret, bool ext, int id, size_t locals) {
			Func f {(uint32_t) p.syms.size(), params, ret, ext};
			f.id = id;
			auto y = add(name, T_FUNC, F_CONST | (ret != T_VOID ? F_RETURN : 0) | (ext ? F_EXTERNAL : 0), (uint32_t) params.size());
			p.syms[y].vary = (uint32_t) ret;
			for (size_t i = 0; i < params.size(); ++i) add(name + ".P" + std::to_string(i), params[i], 0, 1, params[i] == T_INST ? p.cls_a : (uint32_t) -1);
			for (size_t i = 0; i < locals; ++i) {
				static int const t[] = {T_INT, T_INT, T_FLOAT, T_STRING, T_INST, T_FUNC};
				int ty = t[s.below(6)];
				add(name + ".L" + std::to_string(i), ty, 0, ty == T_INST || ty == T_FUNC ? 1 : 1 + (uint32_t) s.below(3), ty == T_INST ? p.cls_a : (uint32_t) -1);
			}
			p.funcs.push_back(f);
		}
		void symbols() {
			auto member = [&](char const* n, int t, uint32_t cnt, uint32_t cls) { return add(n, t, F_MEMBER, cnt, cls); };
			if (s.coin()) p.ints.push_back(add("G_FIRST", T_INT, 0, 1));
			p.cls_a = add("C_A", T_CLASS, 0, 8);
			p.a_i = member("C_A.I", T_INT, 1, p.cls_a), p.a_arr = member("C_A.ARR", T_INT, 3, p.cls_a), p.a_f = member("C_A.F", T_FLOAT, 1, p.cls_a);
			p.a_fa = member("C_A.FA", T_FLOAT, 2, p.cls_a), p.a_s = member("C_A.S", T_STRING, 1, p.cls_a), p.a_sa = member("C_A.SA", T_STRING, 2, p.cls_a);
			p.a_fn = member("C_A.FN", T_FUNC, 1, p.cls_a), p.a_unb = member("C_A.UNB", T_INT, 1, p.cls_a);
			size_t nb = s.below(6);
			p.cls_b = add("C_B", T_CLASS, 0, (uint32_t) nb);
			for (size_t i = 0; i < nb; ++i) {
				static int const t[] = {T_INT, T_STRING, T_FLOAT, T_STRING, T_FUNC};
				p.b_members.push_back(add("C_B.M" + std::to_string(i), t[s.below(5)], F_MEMBER, 1 + (uint32_t) s.below(s.below(4) ? 3 : 12), p.cls_b));
			}
			p.cls_u = add("C_U", T_CLASS, 0, 1);
			p.u_x = member("C_U.X", T_INT, 1, p.cls_u);
			p.rec = add("REC", T_INT, 0, 1), p.fuel = add("FUEL", T_INT, 0, 1);
			size_t n = 1 + s.below(4);
			for (size_t i = 0; i < n; ++i) p.ints.push_back(add("GI" + std::to_string(i), T_INT, 0, s.below(8) == 0 ? (uint32_t) s.below(300) : 1 + (uint32_t) s.below(4)));
			p.ints.push_back(add("CI", T_INT, F_CONST, 1 + (uint32_t) s.below(3)));
			n = 1 + s.below(2);
			for (size_t i = 0; i < n; ++i) p.floats.push_back(add("GF" + std::to_string(i), T_FLOAT, 0, 1 + (uint32_t) s.below(3)));
			p.floats.push_back(add("CF", T_FLOAT, F_CONST, 1));
			n = 1 + s.below(3);
			for (size_t i = 0; i < n; ++i) p.strings.push_back(add("GS" + std::to_string(i), T_STRING, 0, 1 + (uint32_t) s.below(3)));
			p.strings.push_back(add("\xFF" "10001", T_STRING, F_CONST, 1));
			if (s.coin()) p.strings.push_back(add("CS", T_STRING, F_CONST, 2 + (uint32_t) s.below(3)));
			p.fvars.push_back(add("VF0", T_FUNC, 0, 1)), p.fvars.push_back(add("VF1", T_FUNC, 0, 1 + (uint32_t) s.below(2)));
			for (char const* i : {"SELF", "OTHER", s.below(3) ? "VA" : s.coin() ? "ITEM" : s.coin() ? "HERO" : "VICTIM"}) p.ivars.push_back(add(i, T_INST, 0, 1, p.cls_a));
			if (s.coin()) p.ivars.push_back(add("VB", T_INST, 0, 1, p.cls_b));
			// (prototypes may derive from others)
			auto chain = [&](char const* name, uint32_t cls) {
				for (size_t n = s.below(3) ? 0 : 1 + s.below(4); n; --n) p.protos.push_back(cls = add(name + std::to_string(n), T_PROTO, F_CONST, 0, cls));
				return cls;
			};
			p.proto = add("AP", T_PROTO, F_CONST, 0, chain("AQ", p.cls_a));
			p.insts.push_back(add("A1", T_INST, F_CONST, 0, p.cls_a));
			p.insts.push_back(add("A2", T_INST, F_CONST, 0, p.proto));
			uint32_t b = chain("BQ", p.cls_b);
			p.insts.push_back(add("B1", T_INST, F_CONST, 0, b));
			p.insts.push_back(add("U1", T_INST, F_CONST, 0, p.cls_u));

			func("X_ADD", {T_INT, T_INT}, T_INT, true, X_ADD, 0);
			func("X_CAT", {T_STRING, T_STRING}, T_STRING, true, X_CAT, 0);
			func("X_I2S", {T_INT}, T_STRING, true, X_I2S, 0);
			func("X_FM", {T_FLOAT, T_INT}, T_FLOAT, true, X_FM, 0);
			func("X_INST", {T_INST}, T_INT, true, X_INST, 0);
			func("X_RAW", {T_INST}, T_INT, true, X_RAW, 0);
			func("X_ANY", {T_INST}, T_INT, true, X_ANY, 0);
			func("X_NEW", {T_INT}, T_INST, true, X_NEW, 0);
			func("X_FN", {T_FUNC}, T_INT, true, X_FN, 0);
			func("X_SYM", {T_INST}, T_INT, true, X_SYM, 0);
			func("X_CB", {T_STRING, T_INT, T_STRING}, T_STRING, true, X_CB, 0);
			func("X_INIT", {T_INT, T_STRING}, T_STRING, true, X_INIT, 0);
			func("X_VOID", {T_INT, T_FLOAT, T_STRING}, T_VOID, true, X_VOID, 0);
			func("X_UNREG_I", {T_INST, T_FUNC, T_STRING}, T_INT, true, X_UNREG_I, 0);
			func("X_UNREG_S", {T_INT, T_FLOAT}, T_STRING, true, X_UNREG_S, 0);
			func("X_UNREG_V", {T_INST}, T_VOID, true, X_UNREG_V, 0);
			func("X_UNREG_O", {T_STRING}, T_INST, true, X_UNREG_O, 0);
			func("X_UNREG_F", {}, T_FLOAT, true, X_UNREG_F, 0);
			// (one signature per position: calls from the host are typed)
			size_t nf = 2 + s.below(6);
			static std::vector<std::vector<int>> const sig = {{}, {T_INT}, {T_INT, T_INT}, {T_FLOAT, T_STRING}, {T_INST}, {T_STRING, T_INT, T_INT}, {T_FUNC}};
			for (size_t i = 0; i < nf; ++i) {
				static int const t[] = {T_VOID, T_INT, T_FLOAT, T_STRING, T_INST, T_FUNC};
				// (the name of a function may start with the name of the one before it)
				std::string name = "FN" + std::to_string(i);
				if (i > 0 && s.below(3) == 0) name = p.syms[p.funcs.back().sym].name + (s.coin() ? "_X" : "1");
				func(name, i == 0 ? sig[0] : sig[s.below(sig.size())], t[s.below(6)], false, -1, s.below(4));
				p.funcs.back().callback = p.funcs.back().params.empty();
			}
			func("O_ADD", {T_INT, T_INT}, T_INT, false, O_ADD, 0), p.funcs.back().overridden = true;
			func("O_STR", {T_STRING}, T_STRING, false, O_STR, 0), p.funcs.back().overridden = true;
			func("O_NAKED", {T_INT, T_STRING}, T_INT, false, O_NAKED, 0), p.funcs.back().overridden = true;
		}
		void op(uint8_t o) { c.u8(o); }
		void op(uint8_t o, uint32_t v) { c.u8(o), c.u32(v); }
		void ref(uint32_t y, uint32_t n) {
			if (n > 1 ? s.below(4) != 0 : s.below(8) == 0) c.u8(PUSHVV), c.u32(y), c.u8((uint8_t) (wild && s.below(8) == 0 ? s.below(256) : s.below(std::min(n, 256u)))); // (element)
			else op(PUSHV, y);
		}
		uint32_t inst_sym() {
			auto& v = s.below(3) ? p.insts : l_insts.empty() || s.coin() ? p.ivars : l_insts;
			return s.pick(v);
		}
		/// A variable of a type, possibly a member of an instance (which then is set as the current one).
		void var(int type) {
			if (s.below(3) == 0) {
				if (s.below(6)) op(GMOVI, inst_sym()); // (or whatever is the current one)
				uint32_t y = type == T_INT ? (s.below(12) == 0 ? (s.coin() ? p.a_unb : p.u_x) : s.coin() ? p.a_i : p.a_arr) : type == T_FLOAT ? (s.coin() ? p.a_f : p.a_fa) : type == T_STRING ? (s.coin() ? p.a_s : p.a_sa) : p.a_fn;
				if (s.below(4) == 0)
					for (auto m : p.b_members)
						if (p.syms[m].type == type && s.coin()) y = m;
				return ref(y, p.syms[y].count);
			}
			auto& l = type == T_INT ? l_ints : type == T_FLOAT ? l_floats : type == T_STRING ? l_strings : l_fvars;
			auto& g = type == T_INT ? p.ints : type == T_FLOAT ? p.floats : type == T_STRING ? p.strings : p.fvars;
			uint32_t y = !l.empty() && s.coin() ? s.pick(l) : s.pick(g);
			ref(y, p.syms[y].count);
		}
		void call(Func const& f, int depth) {
			for (int t : f.params) expr(t, depth - 1);
			if (wild && s.below(16) == 0 && !f.params.empty()) { /* an argument too few or too many */
				if (s.coin()) op(PUSHI, s.u32());
			}
			if (f.external) op(BE, f.sym);
			else {
				op(BL);
				fix.push_back({c.d.size(), f.sym});
				c.u32(0);
			}
		}
		Func const* callee(int ret) {
			std::vector<Func const*> v;
			for (size_t i = 0; i < p.funcs.size(); ++i)
				if (p.funcs[i].ret == ret && (p.funcs[i].external || p.funcs[i].overridden || i > cur)) v.push_back(&p.funcs[i]);
			return v.empty() ? nullptr : v[s.below(v.size())];
		}
		void expr(int type, int depth) {
			if (budget) --budget;
			if (depth > 0 && budget && s.below(3) == 0)
				if (auto* f = callee(type)) return call(*f, depth);
			if (wild && s.below(40) == 0) type = (int) s.below(8);
			switch (type) {
			case T_INT:
				switch (depth > 0 && budget ? s.below(6) : s.below(2)) {
				case 0: return op(PUSHI, s.u32());
				case 1: return var(T_INT);
				case 2:
				case 3:
				case 4: {
					static uint8_t const ops[] = {ADD, SUB, MUL, DIV, MOD, OR, ANDB, LT, GT, ORR, AND, LTE, EQ, NEQ, GTE};
					expr(T_INT, depth - 1), expr(T_INT, depth - 1);
					return op(ops[s.below(sizeof ops)]);
				}
				default: {
					if (s.below(3) == 0) {
						op(PUSHI, (uint32_t) s.below(32));
						expr(T_INT, depth - 1);
						return op(s.coin() ? LSL : LSR);
					}
					static uint8_t const ops[] = {PLUS, NEGATE, NOT, CMPL};
					expr(T_INT, depth - 1);
					return op(ops[s.below(4)]);
				}
				}
			case T_FLOAT: {
				if (s.coin()) return var(T_FLOAT);
				float f = s.f32();
				uint32_t u;
				memcpy(&u, &f, 4);
				return op(PUSHI, u);
			}
			case T_STRING: return var(T_STRING);
			case T_INST: return op(PUSHVI, inst_sym());
			case T_FUNC: return s.below(3) ? op(PUSHI, s.below(5) ? s.pick(p.funcs).sym : s.pick(p.fvars)) : var(T_FUNC);
			default: return op(PUSHI, s.u32());
			}
		}
		void stmt(int depth) {
			if (budget) --budget;
			if (wild && s.below(10) == 0) {
				switch (s.below(4)) {
				case 0: return op((uint8_t) s.below(256));
				case 1: {
					static uint8_t const ops[] = {MOVI, MOVF, MOVS, MOVVI, MOVVF, ADDMOVI, DIVMOVI, ADD, DIV, NOT, MOVSS, BZ};
					return op(ops[s.below(sizeof ops)]);
				}
				case 2: {
					static uint8_t const ops[] = {PUSHV, PUSHVI, GMOVI, BE, BL, B};
					return op(ops[s.below(6)], s.coin() ? (uint32_t) s.below(p.syms.size() + 3) : s.u32());
				}
				default: return op(PUSHI, s.u32());
				}
			}
			switch (s.below(12)) {
			case 0:
			case 1: {
				static uint8_t const ops[] = {MOVI, MOVI, ADDMOVI, SUBMOVI, MULMOVI, DIVMOVI};
				expr(T_INT, depth);
				var(T_INT);
				// (a reference keeps the instance it was made with)
				if (s.below(12) == 11) op(GMOVI, inst_sym());
				return op(ops[s.below(6)]);
			}
			case 2: return expr(T_FLOAT, depth), var(T_FLOAT), op(MOVF);
			case 3:
			case 4: return expr(T_STRING, depth), var(T_STRING), op(MOVS);
			case 5: return expr(T_INST, depth), op(PUSHVI, s.pick(l_insts.empty() || s.coin() ? p.ivars : l_insts)), op(MOVVI);
			case 6: return expr(T_FUNC, depth), var(T_FUNC), op(MOVVF);
			case 7: {
				expr(T_INT, depth);
				size_t z = jump(BZ);
				block(depth - 1);
				if (s.coin()) {
					size_t e = jump(B);
					land(z);
					block(depth - 1);
					land(e);
				} else land(z);
				return;
			}
			case 8: {
				uint32_t top = (uint32_t) c.d.size();
				op(PUSHV, p.fuel);
				size_t z = jump(BZ);
				block(depth - 1);
				op(PUSHI, 1), op(PUSHV, p.fuel), op(SUBMOVI);
				op(B, top);
				return land(z);
			}
			case 9: { // recursion
				op(PUSHV, p.rec);
				size_t z = jump(BZ);
				op(PUSHI, 1), op(PUSHV, p.rec), op(SUBMOVI);
				std::vector<size_t> v;
				for (size_t i = 0; i <= cur && i < p.funcs.size(); ++i)
					if (!p.funcs[i].external && !p.funcs[i].overridden) v.push_back(i);
				if (!v.empty()) call(p.funcs[s.coin() ? v.back() : v[s.below(v.size())]], 0);
				return land(z);
			}
			default: {
				static int const t[] = {T_VOID, T_VOID, T_INT, T_STRING, T_FLOAT, T_INST};
				if (auto* f = callee(t[s.below(6)])) call(*f, depth);
				else op(NOP);
				return;
			}
			}
		}
		size_t jump(uint8_t o) {
			op(o, 0);
			return c.d.size() - 4;
		}
		void land(size_t at) {
			uint32_t here = (uint32_t) c.d.size();
			memcpy(c.d.data() + at, &here, 4);
		}
		void block(int depth) {
			size_t n = depth > 0 && budget ? s.below(4) : budget ? s.below(2) : 0;
			for (size_t i = 0; i < n; ++i) stmt(depth);
		}
		static uint8_t mov(int t) { return t == T_FLOAT ? MOVF : t == T_STRING ? MOVS : t == T_INST ? MOVVI : t == T_FUNC ? MOVVF : MOVI; }
		void bodies() {
			if (s.coin()) op(RSR); // (not every function starts at 0)
			// initialisers
			auto init = [&](uint32_t y, uint32_t base, bool members) {
				p.syms[y].address = (int32_t) c.d.size();
				cur = p.funcs.size();
				budget = 12;
				if (base != (uint32_t) -1) op(BL, (uint32_t) p.syms[base].address);
				if (members) {
					size_t n = s.below(4);
					for (size_t i = 0; i < n; ++i) switch (s.below(4)) {
						case 3: stmt(1); break;
						case 0: expr(T_INT, 1), op(PUSHV, p.a_i), op(MOVI); break;
						case 1: expr(T_STRING, 1), op(PUSHV, p.a_s), op(MOVS); break;
						default: expr(T_FLOAT, 0), op(PUSHV, p.a_f), op(MOVF); break;
						}
				} else if (!p.b_members.empty()) {
					size_t n = s.below(3);
					for (size_t i = 0; i < n; ++i) {
						auto m = s.pick(p.b_members);
						expr(p.syms[m].type, 1), ref(m, p.syms[m].count), op(mov(p.syms[m].type));
					}
				}
				block(1);
				op(RSR);
			};
			for (auto y : p.protos) p.syms[y].address = (int32_t) c.d.size(), op(RSR);
			init(p.proto, (uint32_t) -1, true);
			init(p.insts[0], (uint32_t) -1, true), init(p.insts[1], p.proto, true), init(p.insts[2], (uint32_t) -1, false), init(p.insts[3], (uint32_t) -1, true);
			for (size_t i = 0; i < p.funcs.size(); ++i) {
				auto& f = p.funcs[i];
				if (f.external) continue;
				cur = i;
				budget = 60;
				l_ints = l_floats = l_strings = l_insts = l_fvars = {};
				for (uint32_t y = f.sym + 1; y < p.syms.size() && p.syms[y].name.rfind(p.syms[f.sym].name + ".", 0) == 0; ++y) {
					auto& d = p.syms[y];
					(d.type == T_INT ? l_ints : d.type == T_FLOAT ? l_floats : d.type == T_STRING ? l_strings : d.type == T_INST ? l_insts : l_fvars).push_back(y);
				}
				p.syms[f.sym].address = (int32_t) c.d.size();
				for (size_t k = f.params.size(); k-- > 0;) op(f.params[k] == T_INST ? PUSHVI : PUSHV, f.sym + 1 + (uint32_t) k), op(mov(f.params[k]));
				size_t n = s.below(6);
				for (size_t k = 0; k < n; ++k) stmt(3);
				if (f.ret != T_VOID && s.below(10) != 0) expr(f.ret, 2);
				if (s.below(wild ? 10 : 40) != 0 || i + 1 != p.funcs.size()) op(RSR);
			}
		}
	};

	// ---- the reference interpreter ---------------------------------------------------------------------
	enum Kind { K_VM, K_TYPE, K_INDEX, K_CONST, K_NOCTX, K_UNBOUND, K_CTXTYPE, K_EXTPARAM, K_HOST, K_COUNT };
	inline char const* kind_name(int k) {
		static char const* const n[] = {"vm exception", "illegal type", "illegal index", "illegal const", "no context", "unbound member", "illegal context type", "illegal parameter", "exception of the host", "another script error"};
		return k < 0 ? "nothing" : n[k];
	}
	struct MErr {
		int kind;
		bool script() const { return kind != K_HOST; }
	};
	struct TooLong {};    // the program runs longer than the bound: the run is discarded
	struct Unspecified {}; // the outcome is not specified: only safety is checked

	struct MI {
		intptr_t id;
		int type = I_NONE;
		uint32_t sym = (uint32_t) -1;
		std::map<std::pair<uint32_t, uint32_t>, int32_t> ints;
		std::map<std::pair<uint32_t, uint32_t>, float> floats;
		std::map<std::pair<uint32_t, uint32_t>, std::string> strings;
	};
	using P = std::shared_ptr<MI>;
	struct MS {
		SymDef d;
		P inst;
		int reg = I_NONE; // members and classes
		bool trap = false, locals = false;
	};
	enum FrameKind { FR_INT, FR_FLOAT, FR_REF, FR_TMP, FR_INST };
	struct Frame {
		FrameKind k = FR_INT;
		int32_t i = 0;
		float f = 0;
		uint32_t sym = 0, idx = 0;
		std::string str;
		P ctx, inst;
	};
	struct Call {
		uint32_t sym, pc, sp;
		P ctx;
	};
	/// What the host does; both executions follow the same schedule.
	struct Plan {
		std::vector<uint8_t> throws;   // per entry of an external: 0 no, 1 script error, 2 foreign exception
		std::vector<uint8_t> strategy; // per call of the exception handler: continue, return, fail, or jump and continue
		std::vector<uint32_t> jumps;   // targets of the latter
		int handler = 0;               // 0 none, 1 lenient, 2 by `strategy`
		int def = 0;                   // default external: 0 none, 1 by name, 2 by symbol, 3 custom
		bool trap_cb = false;
		uint8_t flags = 0;             // execution flags
		uint32_t target(size_t call, uint32_t pc) const {
			uint32_t t = jumps[call % jumps.size()];
			return t == pc ? t + 1 : t;
		}
	};
	enum { ALLOW_NULL = 2, IGNORE_CONST = 4 };

	inline std::string cat(std::string_view a, std::string_view b) {
		std::string r = std::string(a) + "|" + std::string(b);
		if (r.size() > 60) r = r.substr(0, 20) + r.substr(r.size() - 20);
		return r;
	}
	inline float fm(float a, int32_t b) { return (a == a && a < 1e30f && a > -1e30f ? a : 1.f) * 0.5f + (float) (b % 1000); }
	inline int32_t naked(int32_t a, std::string_view b) { return (int32_t) ((uint32_t) a + b.size()); }
	inline int32_t addi(int32_t a, int32_t b) { return (int32_t) ((uint32_t) a * 31u + (uint32_t) b); }

	class Ref {
	public:
		Program const& p;
		Plan const& plan;
		std::vector<MS> y;
		std::map<uint32_t, uint32_t> by_addr;
		std::vector<Frame> st;
		std::vector<Call> calls;
		P gi;
		uint32_t pc = 0;
		uint64_t executed = 0, limit = 20000;
		size_t host_calls = 0, handler_calls = 0;
		intptr_t next_id = 1;
		std::vector<std::string> log;
		bool deep = false, overflow = false;

		Ref(Program const& pr, Plan const& pl) : p(pr), plan(pl) {
			for (auto& d : p.syms) {
				MS m;
				m.d = d;
				if (d.flags & F_MEMBER) m.d.ints = {}, m.d.floats = {}, m.d.strings = {};
				else {
					m.d.ints.resize(std::max(1u, d.count)), m.d.floats.resize(d.count), m.d.strings.resize(d.count);
					for (auto& v : m.d.strings)
						for (size_t i = 0; i + 1 < v.size(); ++i)
							if (v[i] == '\\' && (v[i + 1] == 'n' || v[i + 1] == 't')) v[i] = v[i + 1] == 'n' ? '\n' : '\t', v.erase(i + 1, 1);
				}
				if (!m.d.name.empty() && m.d.name[0] == '\xFF') m.d.name[0] = '$';
				y.push_back(m);
			}
			for (uint32_t i = 0; i < y.size(); ++i)
				if (is(i, T_PROTO) || is(i, T_INST) || (is(i, T_FUNC) && cst(i) && !mem(i))) by_addr[(uint32_t) y[i].d.address] = i;
			y[p.cls_a].reg = I_A, y[p.cls_b].reg = I_OPAQUE;
			for (auto m : p.members_of_a()) y[m].reg = I_A;
			for (auto m : p.b_members) y[m].reg = I_OPAQUE;
		}
		bool is(uint32_t i, int t) const { return y[i].d.type == t; }
		bool cst(uint32_t i) const { return y[i].d.flags & F_CONST; }
		bool mem(uint32_t i) const { return y[i].d.flags & F_MEMBER; }
		bool ret(uint32_t i) const { return y[i].d.flags & F_RETURN; }
		static constexpr size_t CAP = 2048;

		// -- values
		[[noreturn]] static void err(int k) { throw MErr {k}; }
		void room() {
			if (st.size() >= CAP) overflow = true, err(K_VM);
		}
		void push_i(int32_t v) { room(), st.push_back({FR_INT, v}); }
		void push_f(float v) { room(), st.push_back({FR_FLOAT, 0, v}); }
		void push_s(std::string v) { room(), st.push_back({FR_TMP, 0, 0, 0, 0, std::move(v), gi}); }
		void push_inst(P v) { room(), st.push_back({FR_INST, 0, 0, 0, 0, {}, nullptr, v}); }
		void push_ref(uint32_t s, uint32_t i) { room(), st.push_back({FR_REF, 0, 0, s, i, {}, gi}); }
		Frame take() {
			Frame f = std::move(st.back());
			st.pop_back();
			return f;
		}
		/// Checks an access; true: a member of `ctx`
		bool access(uint32_t s, uint32_t idx, P const& ctx, std::initializer_list<int> types) {
			bool ok = false;
			for (int t : types) ok |= y[s].d.type == t;
			if (!ok) err(K_TYPE);
			if (y[s].d.count <= idx) err(K_INDEX);
			if (!mem(s)) {
				if (is(s, T_FUNC) && cst(s)) err(K_TYPE);
				return false;
			}
			if (!ctx) err(K_NOCTX);
			if (ctx->type == I_TRANS && ctx->sym == (uint32_t) -1) return true;
			if (y[s].reg == I_NONE) err(K_UNBOUND);
			if (y[s].reg != ctx->type) err(K_CTXTYPE);
			return true;
		}
		int32_t sym_get_int(uint32_t s, uint32_t idx, P const& c) { return access(s, idx, c, {T_INT, T_FUNC}) ? c->ints[{s, idx}] : y[s].d.ints[idx]; }
		float sym_get_float(uint32_t s, uint32_t idx, P const& c) { return access(s, idx, c, {T_FLOAT}) ? c->floats[{s, idx}] : y[s].d.floats[idx]; }
		std::string sym_get_string(uint32_t s, uint32_t idx, P const& c) { return access(s, idx, c, {T_STRING}) ? c->strings[{s, idx}] : y[s].d.strings[idx]; }
		void sym_set_int(uint32_t s, uint32_t idx, P const& c, int32_t v) { (access(s, idx, c, {T_INT, T_FUNC}) ? c->ints[{s, idx}] : y[s].d.ints[idx]) = v; }
		P& sym_inst(uint32_t s) {
			if (!is(s, T_INST) || mem(s)) err(K_TYPE);
			return y[s].inst;
		}
		bool null_access(uint32_t s, P const& c) {
			if (!mem(s) || c) return false;
			if (!(plan.flags & ALLOW_NULL)) err(K_NOCTX);
			return true;
		}
		int32_t pop_i() {
			if (st.empty()) return 0;
			Frame f = take();
			if (f.k == FR_TMP) err(K_TYPE);
			if (f.k == FR_REF) return null_access(f.sym, f.ctx) ? 0 : sym_get_int(f.sym, f.idx, f.ctx);
			if (f.k == FR_INT) return f.i;
			err(K_VM);
		}
		float pop_f() {
			if (st.empty()) return 0;
			Frame f = take();
			if (f.k == FR_TMP) err(K_TYPE);
			if (f.k == FR_REF) return null_access(f.sym, f.ctx) ? 0 : sym_get_float(f.sym, f.idx, f.ctx);
			if (f.k == FR_FLOAT) return f.f;
			if (f.k == FR_INT) {
				float r;
				memcpy(&r, &f.i, 4);
				return r;
			}
			err(K_VM);
		}
		Frame pop_ref() {
			if (st.empty()) err(K_VM);
			Frame f = take();
			if (f.k != FR_REF && f.k != FR_TMP) err(K_VM);
			return f;
		}
		P pop_inst() {
			if (st.empty()) err(K_VM);
			Frame f = take();
			if (f.k == FR_TMP) err(K_TYPE);
			if (f.k == FR_REF) return sym_inst(f.sym);
			if (f.k == FR_INST) return f.inst;
			err(K_VM);
		}
		std::string pop_s() {
			Frame f = pop_ref();
			if (f.k == FR_TMP) return f.str;
			return null_access(f.sym, f.ctx) ? "" : sym_get_string(f.sym, f.idx, f.ctx);
		}
		uint32_t pop_fn() { // -1: none
			uint32_t i = (uint32_t) pop_i();
			size_t hops = y.size() + 1; // (the VM adds a symbol)
			while (i < y.size() && is(i, T_FUNC) && !cst(i)) {
				if (hops-- == 0) return (uint32_t) -1;
				i = (uint32_t) sym_get_int(i, 0, nullptr);
			}
			if (i == y.size()) return (uint32_t) -1; // temporary strings: no function
			return i < y.size() && is(i, T_FUNC) ? i : (uint32_t) -1;
		}
		void put_default(int t) {
			switch (t) {
			case T_FLOAT: return push_f(0);
			case T_INT:
			case T_FUNC: return push_i(0);
			case T_STRING: return push_s("");
			case T_INST: return push_inst(nullptr);
			default: return;
			}
		}

		// -- calls
		size_t nparams(uint32_t s) const {
			size_t all = y.size() + 1, first = std::min<size_t>(s + 1, all);
			return std::min<size_t>(y[s].d.count, all - first);
		}
		std::vector<uint32_t> locals(uint32_t s) const {
			std::vector<uint32_t> r;
			std::string pre = y[s].d.name + ".";
			for (size_t i = s + 1 + y[s].d.count; i < y.size() && y[i].d.name.rfind(pre, 0) == 0; ++i) r.push_back((uint32_t) i);
			return r;
		}
		bool active(uint32_t s) const {
			for (auto& c : calls)
				if (c.sym == s) return true;
			return false;
		}
		void push_call(uint32_t s) {
			if (calls.size() >= 2048) deep = true, err(K_VM);
			if (y[s].locals && active(s)) {
				size_t n = nparams(s), size = 0;
				auto l = locals(s);
				for (auto v : l) size += is(v, T_INST) ? 1 : y[v].d.count;
				if (st.size() + size > CAP) overflow = true, err(K_VM);
				if (st.size() < n) err(K_VM);
				std::vector<Frame> args(st.end() - (long) n, st.end()), save;
				st.resize(st.size() - n);
				auto g = gi;
				for (auto v : l) {
					if (is(v, T_INST)) push_inst(sym_inst(v));
					for (uint32_t i = 0; i < y[v].d.count; ++i) {
						if (is(v, T_FLOAT)) push_f(sym_get_float(v, i, nullptr));
						if (is(v, T_INT) || is(v, T_FUNC)) push_i(sym_get_int(v, i, nullptr));
						if (is(v, T_STRING)) push_s(sym_get_string(v, i, nullptr));
					}
				}
				for (auto& a : args) st.push_back(std::move(a));
			}
			size_t n = std::min(nparams(s), st.size());
			calls.push_back({s, pc, (uint32_t) (st.size() - n), gi});
		}
		void pop_locals(uint32_t s) {
			int k = 0;
			for (auto& c : calls) k += c.sym == s;
			if (k <= 1) return;
			auto l = locals(s);
			for (size_t j = l.size(); j-- > 0;) {
				auto v = l[j];
				if (is(v, T_INST)) {
					sym_inst(v) = pop_inst();
					continue;
				}
				for (uint32_t i = y[v].d.count; i-- > 0;) {
					if (is(v, T_FLOAT)) y[v].d.floats[i] = pop_f();
					if (is(v, T_INT) || is(v, T_FUNC)) y[v].d.ints[i] = pop_i();
					if (is(v, T_STRING)) y[v].d.strings[i] = pop_s();
				}
			}
		}
		void pop_call() {
			Call c = calls.back();
			if (st.size() < c.sp) throw Unspecified {};
			Frame r;
			if (ret(c.sym)) {
				if (st.size() == c.sp) put_default((int) y[c.sym].d.vary);
				if (st.size() > c.sp) r = take(), st.resize(c.sp), st.push_back(std::move(r));
			} else st.resize(c.sp);
			if (y[c.sym].locals) {
				// the return value stays on top
				bool v = ret(c.sym) && st.size() > c.sp;
				if (ret(c.sym) && !v) throw Unspecified {};
				if (v) r = take();
				pop_locals(c.sym);
				if (v) st.push_back(std::move(r));
			}
			pc = c.pc, gi = c.ctx;
			calls.pop_back();
		}
		void unwind(size_t depth) {
			while (calls.size() > depth) {
				Call c = calls.back();
				if (st.size() < c.sp) throw Unspecified {};
				st.resize(c.sp);
				if (y[c.sym].locals) pop_locals(c.sym);
				pc = c.pc, gi = c.ctx;
				calls.pop_back();
			}
		}
		void jump(uint32_t a) {
			if (a >= p.code.size()) err(K_VM);
			pc = a;
		}
		void call(uint32_t s) {
			size_t d = calls.size();
			push_call(s);
			try {
				jump((uint32_t) y[s].d.address);
				while (exec()) {}
				pop_call();
			} catch (MErr const&) {
				unwind(d);
				throw;
			}
		}
		template <typename F>
		void guarded(uint32_t s, F f) {
			size_t d = calls.size(), sp = st.size() - std::min(st.size(), nparams(s));
			auto pc0 = pc;
			auto gi0 = gi;
			try {
				f();
			} catch (MErr const&) {
				unwind(d);
				if (st.size() < sp) throw Unspecified {};
				st.resize(sp);
				pc = pc0, gi = gi0;
				if (ret(s)) try {
						put_default((int) y[s].d.vary);
					} catch (MErr const&) {}
				throw;
			}
		}
		Func const* func_of(uint32_t s) const {
			for (auto& f : p.funcs)
				if (f.sym == s) return &f;
			return nullptr;
		}
		bool exec() {
			if (++executed > limit) throw TooLong {};
			if (pc >= p.code.size()) err(K_VM);
			auto at = [&](size_t o, size_t n) {
				uint32_t v = 0;
				if (pc + o + n <= p.code.size()) memcpy(&v, p.code.data() + pc + o, n);
				else throw Unspecified {}; // cut off
				return v;
			};
			uint8_t o = (uint8_t) p.code[pc];
			uint32_t arg = 0, size = 1;
			uint8_t ix = 0;
			switch (o) {
			case BL: case BZ: case B: case PUSHI: case BE: case PUSHV: case PUSHVI: case GMOVI: arg = at(1, 4), size = 5; break;
			case PUSHVV: arg = at(1, 4), ix = (uint8_t) at(5, 1), size = 6; break;
			default: break;
			}
			try {
				auto bin = [&](auto f) {
					int32_t a = pop_i(), b = pop_i();
					push_i(f(a, b));
				};
				auto u = [](int32_t v) { return (uint32_t) v; };
				auto symbol = [&] {
					if (arg == y.size()) throw Unspecified {}; // the VM's own symbol
					if (arg >= y.size()) err(K_VM);
					return arg;
				};
				auto rmw = [&](auto f, bool div) {
					Frame r = pop_ref();
					int32_t v = pop_i();
					if (div && v == 0) err(K_VM);
					if (r.k == FR_TMP) err(K_TYPE);
					if (cst(r.sym) && !(plan.flags & IGNORE_CONST)) err(K_CONST);
					if (mem(r.sym) && !r.ctx && (plan.flags & ALLOW_NULL)) return;
					sym_set_int(r.sym, r.idx, r.ctx, f(sym_get_int(r.sym, r.idx, r.ctx), v));
				};
				/// false: nothing to be written
				auto target = [&](Frame const& r) {
					if (r.k == FR_TMP) return true;
					if (cst(r.sym) && !(plan.flags & IGNORE_CONST)) err(K_CONST);
					return !(mem(r.sym) && !r.ctx && (plan.flags & ALLOW_NULL));
				};
				switch (o) {
				case ADD: bin([&](auto a, auto b) { return (int32_t) (u(a) + u(b)); }); break;
				case SUB: bin([&](auto a, auto b) { return (int32_t) (u(a) - u(b)); }); break;
				case MUL: bin([&](auto a, auto b) { return (int32_t) (u(a) * u(b)); }); break;
				case DIV:
				case MOD: {
					int64_t a = pop_i(), b = pop_i();
					if (b == 0) err(K_VM);
					push_i((int32_t) (o == DIV ? a / b : a % b));
					break;
				}
				case OR: bin([](auto a, auto b) { return a | b; }); break;
				case ANDB: bin([](auto a, auto b) { return a & b; }); break;
				case LT: bin([](auto a, auto b) { return (int32_t) (a < b); }); break;
				case GT: bin([](auto a, auto b) { return (int32_t) (a > b); }); break;
				case LTE: bin([](auto a, auto b) { return (int32_t) (a <= b); }); break;
				case GTE: bin([](auto a, auto b) { return (int32_t) (a >= b); }); break;
				case EQ: bin([](auto a, auto b) { return (int32_t) (a == b); }); break;
				case NEQ: bin([](auto a, auto b) { return (int32_t) (a != b); }); break;
				case ORR: bin([](auto a, auto b) { return (int32_t) (a || b); }); break;
				case AND: bin([](auto a, auto b) { return (int32_t) (a && b); }); break;
				case LSL:
				case LSR:
					bin([&](auto a, auto b) {
						if (b < 0 || b > 31) throw Unspecified {};
						return o == LSL ? (int32_t) (u(a) << b) : a >> b;
					});
					break;
				case PLUS: push_i(pop_i()); break;
				case NEGATE: push_i((int32_t) (0 - u(pop_i()))); break;
				case NOT: push_i(!pop_i()); break;
				case CMPL: push_i(~pop_i()); break;
				case RSR: return false;
				case BL: {
					auto it = by_addr.find(arg);
					if (it == by_addr.end()) err(K_VM);
					uint32_t s = it->second;
					auto* f = func_of(s);
					guarded(s, [&] {
						if (f && f->overridden) over(*f);
						else call(s);
					});
					break;
				}
				case BE: {
					uint32_t s = symbol();
					auto* f = func_of(s);
					guarded(s, [&] {
						if (!f || !f->external || f->id >= X_UNREG_I) {
							if (plan.def == 0) err(K_VM);
							if (plan.def == 3) {
								log.push_back("custom " + y[s].d.name);
								throw_if();
								if (ret(s)) put_default((int) y[s].d.vary); // (the custom handler of this host leaves the arguments)
								return;
							}
							size_t n = std::min(nparams(s), st.size());
							st.resize(st.size() - n);
							if (ret(s)) put_default((int) y[s].d.vary);
							log.push_back("default " + y[s].d.name);
							throw_if();
							return;
						}
						push_call(s);
						ext(*f);
						pop_call();
					});
					break;
				}
				case PUSHI: push_i((int32_t) arg); break;
				case PUSHV:
				case PUSHVI: {
					uint32_t s = symbol();
					if (y[s].trap && plan.trap_cb) {
						log.push_back("trap " + y[s].d.name);
						if (is(s, T_INT)) push_i(77);
						else if (is(s, T_STRING)) push_s("trapped");
						else push_ref(s, 0);
					} else push_ref(s, 0);
					break;
				}
				case PUSHVV: push_ref(symbol(), ix); break;
				case MOVI:
				case MOVVF: {
					Frame r = pop_ref();
					int32_t v = pop_i();
					if (!target(r)) break;
					if (r.k == FR_TMP) err(K_TYPE);
					sym_set_int(r.sym, r.idx, r.ctx, v);
					break;
				}
				case MOVF: {
					Frame r = pop_ref();
					float v = pop_f();
					if (!target(r)) break;
					if (r.k == FR_TMP) err(K_TYPE);
					(access(r.sym, r.idx, r.ctx, {T_FLOAT}) ? r.ctx->floats[{r.sym, r.idx}] : y[r.sym].d.floats[r.idx]) = v;
					break;
				}
				case MOVS: {
					Frame r = pop_ref();
					std::string v = pop_s();
					if (!target(r) || r.k == FR_TMP) break;
					(access(r.sym, r.idx, r.ctx, {T_STRING}) ? r.ctx->strings[{r.sym, r.idx}] : y[r.sym].d.strings[r.idx]) = v;
					break;
				}
				case MOVSS: err(K_VM);
				case ADDMOVI: rmw([&](auto a, auto b) { return (int32_t) (u(a) + u(b)); }, false); break;
				case SUBMOVI: rmw([&](auto a, auto b) { return (int32_t) (u(a) - u(b)); }, false); break;
				case MULMOVI: rmw([&](auto a, auto b) { return (int32_t) (u(a) * u(b)); }, false); break;
				case DIVMOVI: rmw([&](auto a, auto b) { return (int32_t) ((int64_t) a / b); }, true); break;
				case MOVVI: {
					Frame r = pop_ref();
					P v = pop_inst();
					if (r.k == FR_TMP) err(K_TYPE);
					sym_inst(r.sym) = v;
					break;
				}
				case B: jump(arg); return true;
				case BZ:
					if (pop_i() == 0) {
						jump(arg);
						return true;
					}
					break;
				case GMOVI: gi = sym_inst(symbol()); break;
				default: break;
				}
				pc += size;
			} catch (MErr const& e) {
				if (!e.script()) throw;
				auto before = pc;
				if (!plan.handler) throw;
				int what = 0;
				if (plan.handler == 1) {
					switch (o) {
					case ADD: case SUB: case MUL: case DIV: case MOD: case OR: case ANDB: case LT: case GT: case ORR: case AND: case LSL: case LSR: case LTE: case EQ: case NEQ: case GTE:
					case PLUS: case NEGATE: case NOT: case CMPL: case PUSHI: case PUSHV: case PUSHVI: case PUSHVV: push_i(0); break;
					default: break;
					}
				} else {
					what = plan.strategy.empty() ? 2 : plan.strategy[handler_calls++ % plan.strategy.size()];
					log.push_back(std::string("handler ") + kind_name(e.kind) + " " + std::to_string(o));
				}
				if (what == 2) throw;
				if (what == 1) return false;
				if (what == 3) jump(plan.target(handler_calls, pc));
				if (pc == before) pc += size;
			}
			return true;
		}

		// -- the host
		void throw_if() {
			size_t k = host_calls++;
			int t = plan.throws.empty() ? 0 : plan.throws[k % plan.throws.size()];
			if (t == 1) err(K_VM);
			if (t >= 2) err(K_HOST);
		}
		P checked(P r) { // an argument of type IA
			if (r && r->type != I_A) err(K_VM);
			return r;
		}
		std::vector<uint32_t> callbacks() const {
			std::vector<uint32_t> r;
			for (auto& f : p.funcs)
				if (f.callback) r.push_back(f.sym);
			return r;
		}
		void host_call(uint32_t s) { // call_function<IgnoreReturnValue>
			call(s);
			if (ret(s)) {
				if (st.empty()) throw Unspecified {};
				st.pop_back();
			}
		}
		P allocate(uint32_t s, P inst) {
			uint32_t c = s;
			size_t n = y.size() + 2;
			do c = (uint32_t) y[c].d.parent;
			while (c < y.size() && !is(c, T_CLASS) && n-- > 0);
			if (c >= y.size() || !is(c, T_CLASS)) err(K_VM);
			if (y[c].reg != inst->type) err(K_VM);
			inst->sym = s;
			y[s].inst = inst;
			return inst;
		}
		P init(uint32_t s, int type, P inst = nullptr) {
			uint32_t c = s;
			if (type == I_OPAQUE) { // (checked before there is an instance)
				while (c < y.size() && !is(c, T_CLASS)) c = (uint32_t) y[c].d.parent;
				if (c >= y.size() || y[c].reg != I_OPAQUE) err(K_VM);
			}
			if (!inst) inst = std::make_shared<MI>(), inst->id = next_id++;
			inst->type = type;
			allocate(s, inst);
			auto g = gi;
			uint32_t self = p.ivars[0];
			P old = y[self].inst;
			gi = y[self].inst = inst;
			try {
				call(s);
			} catch (MErr const&) {
				gi = g, y[self].inst = old;
				throw;
			}
			gi = g, y[self].inst = old;
			return inst;
		}
		void ext(Func const& f) {
			switch (f.id) {
			case X_ADD: { auto b = pop_i(), a = pop_i(); throw_if(); return push_i(addi(a, b)); }
			case X_CAT: { auto b = pop_s(), a = pop_s(); throw_if(); return push_s(cat(a, b)); }
			case X_I2S: { auto a = pop_i(); throw_if(); return push_s(std::to_string(a)); }
			case X_FM: { auto b = pop_i(); auto a = pop_f(); throw_if(); return push_f(fm(a, b)); }
			case X_INST:
			case X_RAW: { auto r = checked(pop_inst()); throw_if(); return push_i(r ? r->ints[{p.a_i, 0}] : -1); }
			case X_ANY: { auto r = pop_inst(); throw_if(); return push_i(r ? (int32_t) r->sym : -2); }
			case X_NEW: {
				auto k = pop_i();
				throw_if();
				switch ((uint32_t) k % 4) {
				case 0: return push_inst(nullptr);
				case 1: { auto n = std::make_shared<MI>(); n->id = next_id++; return push_inst(n); }
				case 2: { auto n = std::make_shared<MI>(); n->id = next_id++, n->type = I_TRANS; return push_inst(n); }
				default: return push_inst(y[p.insts[0]].inst);
				}
			}
			case X_FN: { auto i = pop_fn(); throw_if(); return push_i((int32_t) i); }
			case X_SYM: {
				Frame r = pop_ref();
				throw_if();
				if (r.k == FR_TMP) throw Unspecified {};
				return push_i((int32_t) r.sym);
			}
			case X_CB: {
				auto b = pop_s();
				auto k = pop_i();
				auto a = pop_s();
				throw_if();
				auto v = callbacks();
				// bounded like recursion
				if (y[p.rec].d.ints[0] > 0 && !v.empty()) --y[p.rec].d.ints[0], host_call(v[(uint32_t) k % v.size()]);
				return push_s(cat(a, b));
			}
			case X_INIT: {
				auto b = pop_s();
				auto k = pop_i();
				throw_if();
				if (y[p.rec].d.ints[0] > 0) --y[p.rec].d.ints[0], init(p.insts[(uint32_t) k % 2], I_A);
				return push_s(cat(b, ""));
			}
			case X_VOID: {
				auto c = pop_s();
				auto b = pop_f();
				auto a = pop_i();
				throw_if();
				uint32_t fb;
				memcpy(&fb, &b, 4);
				log.push_back("void " + std::to_string(a) + " " + std::to_string(fb) + " " + c);
				return;
			}
			default: throw Unspecified {};
			}
		}
		void over(Func const& f) {
			switch (f.id) {
			case O_ADD: {
				push_call(f.sym);
				auto b = pop_i(), a = pop_i();
				throw_if();
				push_i(addi(b, a));
				return pop_call();
			}
			case O_STR: {
				push_call(f.sym);
				auto a = pop_s();
				throw_if();
				push_s(cat(a, a));
				return pop_call();
			}
			default: {
				auto b = pop_s();
				auto a = pop_i();
				throw_if();
				return push_i(naked(a, b));
			}
			}
		}
	};
} // namespace sim::vm
