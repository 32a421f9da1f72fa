// Encoder of compiled Daedalus scripts (symbol table and code), independent of ZenKit.
#pragma once
#include "assets.hh"
#include <zenkit/DaedalusScript.hh>

namespace sim {
	enum { T_VOID, T_FLOAT, T_INT, T_STRING, T_CLASS, T_FUNC, T_PROTO, T_INST };
	enum { F_CONST = 1, F_RETURN = 2, F_MEMBER = 4, F_EXTERNAL = 8, F_MERGED = 16 };
	struct SymDef {
		std::string name;
		bool named = true;
		int type = T_INT;
		uint32_t flags = 0, count = 1;
		uint32_t vary = 0; // member offset, class size or return type
		std::vector<int32_t> ints;
		std::vector<float> floats;
		std::vector<std::string> strings;
		uint32_t stray = 0; // white space behind the value of a constant string (some compilers leave it there)
		int32_t address = -1, parent = -1;
		uint32_t file = 0, line = 0, lines = 0, chr = 0, chrs = 0;
	};
	inline void enc_symbol(Enc& e, SymDef const& d) {
		e.u32(d.named);
		if (d.named) e.line(d.name);
		e.u32(d.vary);
		e.u32((d.count & 0xFFF) | (uint32_t) d.type << 12 | d.flags << 16);
		e.u32(d.file), e.u32(d.line), e.u32(d.lines), e.u32(d.chr), e.u32(d.chrs);
		if (!(d.flags & F_MEMBER)) {
			switch (d.type) {
			case T_FLOAT:
				for (uint32_t i = 0; i < d.count; ++i) e.f(i < d.floats.size() ? d.floats[i] : 0.f);
				break;
			case T_INT:
				for (uint32_t i = 0; i < d.count; ++i) e.u32(i < d.ints.size() ? (uint32_t) d.ints[i] : 0);
				break;
			case T_STRING:
				for (uint32_t i = 0; i < d.count; ++i) e.line(i < d.strings.size() ? d.strings[i] : "");
				for (uint32_t i = 0; i < d.stray; ++i) e.u8(" \n\t\r"[(i + d.count) % 4]);
				break;
			case T_CLASS:
			case T_FUNC:
			case T_PROTO:
			case T_INST: e.u32((uint32_t) d.address); break;
			default: break;
			}
		}
		e.u32((uint32_t) d.parent);
	}
	inline std::vector<std::byte> enc_script(std::vector<SymDef> const& syms, std::vector<std::byte> const& code) {
		Enc e;
		e.u8(0x32);
		e.u32(syms.size());
		for (size_t i = 0; i < syms.size(); ++i) e.u32(i);
		for (auto& d : syms) enc_symbol(e, d);
		e.u32(code.size());
		e.raw(code.data(), code.size());
		return e.d;
	}
	/// Symbols without meaning: only the encoding matters.
	inline std::vector<SymDef> gen_symbols(Sim& s) {
		std::vector<SymDef> r(gen_count(s, 8, 60));
		for (size_t i = 0; i < r.size(); ++i) {
			auto& d = r[i];
			d.named = s.below(8) != 0;
			d.name = (s.below(6) ? "" : "\xFF") + s.ident(10) + (s.below(4) ? "" : "." + s.ident(5));
			d.type = (int) s.below(8);
			d.flags = (uint32_t) s.below(64);
			d.count = (uint32_t) gen_count(s, 4, 60);
			d.vary = s.u32();
			for (uint32_t k = 0; k < d.count; ++k) {
				d.ints.push_back(s.i32());
				d.floats.push_back(s.f32());
				d.strings.push_back(gen_line(s));
			}
			d.address = s.below(4) ? (int32_t) s.below(200) : s.i32();
			d.parent = s.below(3) ? (int32_t) s.below(r.size() + 1) - 1 : s.i32();
			// (the parent of a constant string is none; otherwise the reader looks for a line break inside of the string)
			if (d.type == T_STRING && !(d.flags & F_MEMBER) && (d.flags & F_CONST)) d.parent = -1;
			d.file = s.u32() & 0x7FFFF, d.line = s.u32() & 0x7FFFF, d.lines = s.u32() & 0x7FFFF;
			d.chr = s.u32() & 0xFFFFFF, d.chrs = s.u32() & 0xFFFFFF;
		}
		return r;
	}

	// ---- model scripts ---------------------------------------------------------------------------
	inline std::vector<std::byte> gen_msb(Sim& s) {
		Enc r;
		static char const* const events[] = {"DEF_CREATE_ITEM", "DEF_INSERT_ITEM", "DEF_FIGHTMODE", "DEF_SWAPMESH", "DEF_HIT_LIMB", "DEF_HIT_DIR", "DEF_DRAWSOUND", "DEF_PAR_FRAME", "DEF_WINDOW", "DEF_DROP_TORCH", "NONSENSE"};
		auto ch = [&](uint16_t t, auto f) {
			Enc e;
			f(e);
			r.chunk(t, e);
		};
		ch(0xF000, [&](Enc& e) { e.u32(1), e.line(gen_line(s)); });
		ch(0xF100, [&](Enc& e) { e.date(gen_date(s)), e.line(gen_line(s)); });
		ch(0xF200, [&](Enc& e) { e.line(gen_line(s)); });
		ch(0xF300, [&](Enc& e) { e.u32(s.below(2)), e.line(gen_line(s)); });
		size_t n = s.below(4);
		for (size_t i = 0; i < n; ++i) ch(0xF400, [&](Enc& e) { e.line(gen_line(s, false)); });
		n = 1 + s.below(3);
		for (size_t i = 0; i < n; ++i) {
			ch(0xF520, [&](Enc& e) {
				e.line(gen_line(s)), e.u32(s.u32()), e.line(gen_line(s)), e.f(s.f32()), e.f(s.f32());
				e.line("M.RE"), e.line(gen_line(s)), e.line(s.coin() ? "R" : "F"), e.u32(s.u32()), e.u32(s.u32());
				e.f(25), e.f(0), e.f(1);
			});
			ch(0xF5A0, [&](Enc& e) { e.u32(1); });
			size_t k = s.below(6);
			for (size_t j = 0; j < k; ++j)
				switch (s.below(7)) {
				case 0: ch(0xF5A1, [&](Enc& e) { e.u32(s.u32()), e.line(gen_line(s)), e.f(1000), e.u32(s.below(2)); }); break;
				case 1: ch(0xF5A2, [&](Enc& e) { e.u32(s.u32()), e.line(gen_line(s)), e.f(1000), e.u32(s.below(2)); }); break;
				case 2:
					ch(0xF5A3, [&](Enc& e) {
						e.u32(s.u32()), e.line(events[s.below(11)]);
						e.line(s.coin() ? "1 2 3" : s.coin() ? "5 x" : gen_line(s, false)), e.line(gen_line(s, false));
					});
					break;
				case 3: ch(0xF5A4, [&](Enc& e) { e.u32(s.u32()), e.u32(s.u32()), e.line(gen_line(s)), e.line(gen_line(s)), e.u32(1); }); break;
				case 4: ch(0xF5A5, [&](Enc& e) { e.u32(s.u32()), e.u32(s.u32()); }); break;
				case 5: ch(0xF5A9, [&](Enc& e) { e.u32(s.u32()), e.line(gen_line(s)), e.line(gen_line(s)), e.f(0), e.f(0); }); break;
				default: ch(0xF5AA, [&](Enc& e) { for (int q = 0; q < 5; ++q) e.u32(s.u32()); }); break;
				}
		}
		ch(0xF530, [&](Enc& e) { e.line(gen_line(s)), e.u32(1), e.line(gen_line(s)), e.f(0), e.f(0), e.line("M."), e.line(gen_line(s)), e.line("F"); });
		ch(0xF540, [&](Enc& e) { e.line(gen_line(s)), e.line(gen_line(s)), e.f(0), e.f(0); });
		ch(0xF570, [&](Enc& e) { e.line(gen_line(s)), e.u32(1), e.line(gen_line(s)), e.f(0), e.f(0), e.line("M."), e.line(gen_line(s)), e.u32(3); });
		ch(0xF580, [&](Enc& e) { e.line(gen_line(s)); });
		ch(0xF590, [&](Enc& e) { e.u32(0), e.line("DEF_HIT_LIMB"), e.line(gen_line(s)); });
		ch(0xFFFF, [&](Enc&) {});
		return r.d;
	}
	inline std::vector<std::byte> gen_mds(Sim& s) {
		std::string t;
		auto str = [&] { return "\"" + s.ident(8) + "\""; };
		auto num = [&] { return std::to_string(s.range(-5, 300)); };
		auto flt = [&] { return s.coin() ? num() : num() + "." + std::to_string(s.below(100)); };
		auto sp = [&](std::string const& x) { t += x + (s.below(5) ? " " : s.coin() ? "\t" : "\n"); };
		sp("Model"), sp("("), sp(str()), sp(")"), sp("{");
		if (s.coin()) sp("meshAndTree"), sp("("), sp(str()), sp("DONT_USE_MESH"), sp(")");
		size_t n = s.below(3);
		for (size_t i = 0; i < n; ++i) t += "registerMesh (" + str() + ")\n";
		t += "aniEnum {\n";
		n = s.below(6);
		for (size_t i = 0; i < n; ++i) switch (s.below(7)) {
			case 0:
			case 1: {
				t += "ani (" + str() + " 1 " + str() + " " + flt() + " " + flt() + " M.R. " + str() + " " + (s.coin() ? "F" : "R") + " " + num() + " " + num();
				if (s.coin()) t += " FPS:" + flt();
				if (s.coin()) t += " CVS:" + flt();
				t += ")\n";
				if (s.coin()) {
					t += "{\n";
					size_t k = s.below(5);
					for (size_t j = 0; j < k; ++j) switch (s.below(7)) {
						case 0: t += "*eventTag (" + num() + " \"DEF_WINDOW\" \"1 2 3\")\n"; break;
						case 1: t += "*eventTag (0 \"DEF_CREATE_ITEM\" " + str() + " " + str() + " ATTACH)\n"; break;
						case 2: t += "*eventSFX (" + num() + " " + str() + " R:" + num() + " EMPTY_SLOT)\n"; break;
						case 3: t += "*eventPFX (" + num() + " " + num() + " " + str() + " " + str() + " ATTACH)\n"; break;
						case 4: t += "*eventPFXStop (" + num() + " " + num() + ")\n"; break;
						case 5: t += "*eventMMStartAni (" + num() + " " + str() + " " + str() + ")\n"; break;
						default: t += "*eventCamTremor (1 2 3 4 5)\n"; break;
						}
					t += "}\n";
				}
				break;
			}
			case 2: t += "aniAlias (" + str() + " 1 " + str() + " 0.1 0.2 .... " + str() + " R)\n"; break;
			case 3: t += "aniBlend (" + str() + " " + str() + " 0.1 0.2)\n"; break;
			case 4: t += "aniComb (" + str() + " 1 " + str() + " 0.1 0.2 M... " + str() + " 3)" + (s.coin() ? "{ *eventSFX (1 \"A\") }" : "") + "\n"; break;
			case 5: t += "aniDisable (" + str() + ")\n"; break;
			default: t += "// " + s.ident(20) + "\n"; break;
			}
		t += "}\n}\n";
		auto* b = (std::byte const*) t.data();
		return {b, b + t.size()};
	}
} // namespace sim
