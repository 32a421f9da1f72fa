// P20: model scripts, as text or binary, load exactly the statements they contain.
#include "endpoints.hh"
#include "seam.hh"
#include <cmath>
#include <zenkit/Error.hh>
#include <zenkit/ModelScript.hh>

using namespace sim;
namespace z = zenkit;

struct Bin {
	std::vector<std::byte> d;
	void raw(void const* p, size_t n) { d.insert(d.end(), (std::byte const*) p, (std::byte const*) p + n); }
	void u16(uint16_t v) { raw(&v, 2); }
	void u32(uint32_t v) { raw(&v, 4); }
	void f(float v) { raw(&v, 4); }
	void s(std::string const& v, char end) { raw(v.data(), v.size()), raw(&end, 1); }
	void chunk(uint16_t t, Bin const& b) { u16(t), u32((uint32_t) b.d.size()), raw(b.d.data(), b.d.size()); }
};

struct Gen {
	Sim& s;
	z::ModelScript m;         ///< What loading has to give.
	std::string text;
	Bin bin;
	bool binary;
	int line_end;             ///< 0: LF, 1: CRLF
	bool tidy;                ///< No strange spellings.
	bool at_line_start = true;
	std::vector<size_t> ends; ///< Ends of the statements.
	size_t count = 0;

	explicit Gen(Sim& s) : s(s) { binary = s.below(3) == 0, line_end = (int) s.below(2), tidy = s.below(3) == 0; }

	// ---- values ----------------------------------------------------------------------------
	std::string name() {
		static char const ab[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.- (){}:;/*'+[]!\xE4";
		size_t n = s.below(8) == 0 ? s.below(3) : 1 + s.below(s.below(10) == 0 ? 60 : 12);
		std::string r;
		for (size_t i = 0; i < n; ++i) {
			size_t lim = tidy || s.below(6) ? 62 : sizeof ab - 1;
			r += ab[s.below(lim)];
		}
		while (!r.empty() && r[0] == ' ') r.erase(0, 1);
		return r;
	}
	int32_t num() {
		switch (s.below(4)) {
		case 0: return (int32_t) s.below(10);
		case 1: return (int32_t) s.below(1000);
		case 2: return -(int32_t) s.below(100);
		default: return s.i32();
		}
	}
	/// A number as text and the value it stands for.
	std::string real(float& v) {
		char b[64];
		if (s.coin()) snprintf(b, sizeof b, "%d", (int) s.range(-9, 1000));
		else snprintf(b, sizeof b, "%s%u.%0*u", s.below(4) ? "" : "-", (unsigned) s.below(3000), (int) (1 + s.below(4)), (unsigned) s.below(10));
		v = strtof(b, nullptr);
		return b;
	}
	z::AnimationFlags flags(std::string& t) {
		static char const l[] = "MREFIP";
		t.clear();
		unsigned v = 0;
		for (int i = 0; i < 6; ++i)
			if (s.coin()) t += l[i], v |= 1u << i;
			else if (s.below(3) == 0) t += '.';
		if (t.empty()) t = ".";
		if (s.below(4) == 0 && t.size() > 1) std::swap(t[0], t[s.below(t.size())]);
		return (z::AnimationFlags) v;
	}

	// ---- text ------------------------------------------------------------------------------
	void nl() { text += line_end ? "\r\n" : "\n"; }
	void gap() {
		switch (tidy ? 0 : s.below(12)) {
		case 0: text += ' '; break;
		case 1: text += "\t "; break;
		case 2: nl(); break;
		case 3:
			text += s.below(3) ? " // " : " / ";
			text += s.below(4) ? name() : std::string("\"}{ ani (");
			nl();
			break;
		case 4: text += " ( "; break;
		case 5: text += ")  "; break;
		case 6: text += " ; "; break;
		default: text += ' '; break;
		}
	}
	void kw(std::string k) {
		if (!tidy)
			switch (s.below(4)) {
			case 0: for (auto& c : k) c = (char) toupper(c); break;
			case 1: for (auto& c : k) c = (char) tolower(c); break;
			default: break;
			}
		text += k;
	}
	void str(std::string const& v) { gap(), text += '"', text += v, text += '"'; }
	/// The last string of a line may lack its end.
	void last_str(std::string& v) {
		gap();
		text += '"';
		if (tidy || s.below(3)) {
			text += v + "\"";
			return;
		}
		while (!v.empty() && v.back() == ' ') v.pop_back();
		text += v;
		if (s.coin() || (!v.empty() && v.back() == ')')) text += ')';
		if (s.below(3) == 0) text += " \t";
		nl();
		s.reach("string without its end");
	}
	void integer(int32_t v) { gap(), text += std::to_string(v); }
	void number(float& v) { gap(), text += real(v); }
	void number(std::string const& t) { gap(), text += t; }
	void open() { text += s.coin() || tidy ? "(" : " "; }
	void close() { text += s.coin() || tidy ? ")" : " "; }
	void done() {
		ends.push_back(binary ? bin.d.size() : text.size());
		++count;
	}

	// ---- statements ------------------------------------------------------------------------
	char z0() { return s.below(4) ? '\n' : '\0'; }
	void chunk(uint16_t t, Bin b) {
		if (!tidy && s.below(12) == 0) b.u32(s.u32()); // more than is known
		bin.chunk(t, b);
		if (!tidy && s.below(12) == 0) {
			Bin x;
			auto y = s.bytes(s.below(20));
			x.raw(y.data(), y.size());
			static uint16_t const ts[] = {0xF510, 0xF550, 0xF560, 0xF5A6, 0xF5A7, 0xF5AF, 0xF200, 0xF500};
			bin.chunk(ts[s.below(8)], x);
		}
	}
	void tag(z::MdsAnimation& a) {
		static struct { char const* n; z::MdsEventType t; int args; } const T[] = {
		    {"DEF_CREATE_ITEM", z::MdsEventType::ITEM_CREATE, 2}, {"DEF_INSERT_ITEM", z::MdsEventType::ITEM_INSERT, 1}, {"DEF_REMOVE_ITEM", z::MdsEventType::ITEM_REMOVE, 0}, {"DEF_DESTROY_ITEM", z::MdsEventType::ITEM_DESTROY, 0},
		    {"DEF_PLACE_ITEM", z::MdsEventType::ITEM_PLACE, 0}, {"DEF_EXCHANGE_ITEM", z::MdsEventType::ITEM_EXCHANGE, 2}, {"DEF_FIGHTMODE", z::MdsEventType::SET_FIGHT_MODE, 3}, {"DEF_PLACE_MUNITION", z::MdsEventType::MUNITION_PLACE, 1},
		    {"DEF_REMOVE_MUNITION", z::MdsEventType::MUNITION_REMOVE, 0}, {"DEF_DRAWSOUND", z::MdsEventType::SOUND_DRAW, 0}, {"DEF_UNDRAWSOUND", z::MdsEventType::SOUND_UNDRAW, 0}, {"DEF_SWAPMESH", z::MdsEventType::MESH_SWAP, 4},
		    {"DEF_DRAWTORCH", z::MdsEventType::TORCH_DRAW, 0}, {"DEF_INV_TORCH", z::MdsEventType::TORCH_INVENTORY, 0}, {"DEF_DROP_TORCH", z::MdsEventType::TORCH_DROP, 0}, {"DEF_HIT_LIMB", z::MdsEventType::HIT_LIMB, 1},
		    {"HIT_LIMB", z::MdsEventType::HIT_LIMB, 1}, {"DEF_HIT_DIR", z::MdsEventType::HIT_DIRECTION, 0}, {"DEF_DAM_MULTIPLY", z::MdsEventType::DAMAGE_MULTIPLIER, 5}, {"DEF_PAR_FRAME", z::MdsEventType::PARRY_FRAME, 5},
		    {"DEF_OPT_FRAME", z::MdsEventType::OPTIMAL_FRAME, 5}, {"DEF_HIT_END", z::MdsEventType::HIT_END, 5}, {"DEF_WINDOW", z::MdsEventType::COMBO_WINDOW, 5}, {"DEF_SOMETHING", z::MdsEventType::UNKNOWN, 0}, {"DEF_DIR", z::MdsEventType::HIT_DIRECTION, 0}};
		auto& t = T[s.below(25)];
		z::MdsEventTag e {};
		e.type = t.t;
		std::vector<std::string> args;
		switch (t.args) {
		case 1: args = {e.slot = name()}; break;
		case 2: args = {e.slot = name(), e.item = name()}; break;
		case 3: {
			static struct { char const* n; z::MdsFightMode m; } const M[] = {{"FIST", z::MdsFightMode::FIST}, {"1H", z::MdsFightMode::SINGLE_HANDED}, {"1h", z::MdsFightMode::SINGLE_HANDED}, {"2H", z::MdsFightMode::DUAL_HANDED}, {"2h", z::MdsFightMode::DUAL_HANDED}, {"BOW", z::MdsFightMode::BOW}, {"CBOW", z::MdsFightMode::CROSSBOW}, {"MAG", z::MdsFightMode::MAGIC}, {"", z::MdsFightMode::NONE}};
			auto& x = M[s.below(9)];
			e.fight_mode = x.m;
			args = {x.n};
			break;
		}
		case 4: args = {e.slot = name(), e.slot2 = name()}; break;
		case 5: {
			std::string l;
			for (size_t n = s.below(6); n > 0; --n) {
				e.frames.push_back(num());
				l += (l.empty() ? "" : "  ") + std::to_string(e.frames.back());
			}
			args = {l};
			break;
		}
		default:
			// (only the binary form keeps the slot of these)
			if (!s.coin()) break;
			args = {name()};
			switch (t.t) {
			case z::MdsEventType::HIT_DIRECTION: case z::MdsEventType::SOUND_DRAW: case z::MdsEventType::SOUND_UNDRAW: case z::MdsEventType::MUNITION_REMOVE:
			case z::MdsEventType::ITEM_DESTROY: case z::MdsEventType::TORCH_INVENTORY: case z::MdsEventType::ITEM_REMOVE:
				if (binary) e.slot = args[0];
				break;
			default: break;
			}
			break;
		}
		if ((t.args == 2 || t.args == 4) && !binary && s.below(6) == 0) args.pop_back(), e.item.clear(), e.slot2.clear();
		if ((t.args == 1 || t.args == 3 || t.args == 5) && !binary && s.below(8) == 0) args.push_back(name()); // ignored
		e.frame = s.below(4) == 0 && !binary ? 0 : num();
		if (binary) {
			Bin b;
			b.u32((uint32_t) e.frame);
			b.s(t.n, z0());
			for (auto& x : args) b.s(x, z0());
			// (a string that starts with blanks is not distinguished from the blanks in front of it)
			chunk(0xF5A3, b);
		} else {
			kw("*eventTag"), open();
			if (e.frame != 0 || s.coin()) integer(e.frame);
			str(t.n);
			for (auto& x : args) str(x);
			if ((e.attached = s.below(3) == 0)) gap(), kw("ATTACH");
			close();
		}
		a.events.push_back(e);
	}
	void event(z::MdsAnimation& a) {
		int32_t fr = num();
		switch (s.below(8)) {
		case 0:
		case 1: {
			bool ground = s.coin();
			z::MdsSoundEffect e {};
			e.frame = fr;
			e.name = name();
			if (binary) {
				Bin b;
				(void) real(e.range);
				e.empty_slot = s.coin();
				b.u32((uint32_t) fr), b.s(e.name, z0()), b.f(e.range), b.u32(e.empty_slot ? 1 + s.below(3) * 100 : 0);
				chunk(ground ? 0xF5A2 : 0xF5A1, b);
			} else {
				kw(ground ? "*eventSFXGrnd" : "*eventSFX"), open(), integer(fr), str(e.name);
				if (s.coin()) {
					gap(), kw("R"), text += ":";
					if (s.below(4) == 0) text += ' ';
					text += real(e.range);
				}
				if (s.coin()) {
					gap(), kw(s.below(3) ? "EMPTY_SLOT" : "EMTPY_SLOT");
					e.empty_slot = true;
				}
				close();
			}
			if (ground) a.sfx_ground.push_back({e.frame, e.name, e.range, e.empty_slot});
			else a.sfx.push_back(e);
			break;
		}
		case 2: {
			z::MdsParticleEffect e {};
			e.frame = fr, e.index = s.coin() || binary ? num() : 0, e.name = name(), e.position = name(), e.attached = s.coin();
			if (binary) {
				Bin b;
				b.u32((uint32_t) fr), b.u32((uint32_t) e.index), b.s(e.name, z0()), b.s(e.position, z0()), b.u32(e.attached);
				chunk(0xF5A4, b);
			} else {
				kw("*eventPFX"), open(), integer(fr);
				if (e.index != 0 || s.coin()) integer(e.index);
				str(e.name), str(e.position);
				if (e.attached) {
					if (s.below(4) == 0) str("ATTACH");
					else gap(), kw("ATTACH");
				}
				close();
			}
			a.pfx.push_back(e);
			break;
		}
		case 3: {
			z::MdsParticleEffectStop e {fr, num()};
			if (binary) {
				Bin b;
				b.u32((uint32_t) fr), b.u32((uint32_t) e.index);
				chunk(0xF5A5, b);
			} else kw("*eventPFXStop"), open(), integer(fr), integer(e.index), close();
			a.pfx_stop.push_back(e);
			break;
		}
		case 4: {
			z::MdsMorphAnimation e {fr, name(), s.coin() ? name() : ""};
			if (binary) {
				Bin b;
				b.u32((uint32_t) fr), b.s(e.animation, z0()), b.s(e.node, z0()), b.f(1), b.f(2);
				chunk(0xF5A9, b);
			} else {
				kw("*eventMMStartAni"), open(), integer(fr), str(e.animation);
				if (!e.node.empty() || s.coin()) str(e.node);
				close();
			}
			a.morph.push_back(e);
			break;
		}
		case 5: {
			z::MdsCameraTremor e {fr, num(), num(), num(), num()};
			if (binary) {
				Bin b;
				for (auto v : {fr, e.field1, e.field2, e.field3, e.field4}) b.u32((uint32_t) v);
				chunk(0xF5AA, b);
			} else {
				kw("*eventCamTremor"), open();
				for (auto v : {fr, e.field1, e.field2, e.field3, e.field4}) integer(v);
				close();
			}
			a.tremors.push_back(e);
			break;
		}
		default: tag(a); break;
		}
		if (!binary) nl();
	}
	void ani(bool last) {
		z::MdsAnimation a {};
		std::string fl;
		a.name = name(), a.layer = (uint32_t) std::abs(num() % 1000), a.next = name();
		std::string bi = real(a.blend_in), bo = real(a.blend_out);
		a.flags = flags(fl);
		a.model = name();
		a.direction = s.coin() ? z::AnimationDirection::BACKWARD : z::AnimationDirection::FORWARD;
		a.first_frame = num(), a.last_frame = num(), a.fps = 25, a.speed = 0, a.collision_volume_scale = 1;
		std::string ft, cv;
		if (s.coin() || binary) ft = real(a.fps);
		if (s.coin() || binary) cv = real(a.collision_volume_scale);
		size_t n = s.below(3) ? s.below(5) : 0;
		if (binary) {
			Bin b;
			(void) real(a.speed);
			b.s(a.name, z0()), b.u32(a.layer), b.s(a.next, z0()), b.f(a.blend_in), b.f(a.blend_out), b.s(fl, z0()), b.s(a.model, z0());
			b.s(a.direction == z::AnimationDirection::BACKWARD ? "R" : "F", z0());
			b.u32((uint32_t) a.first_frame), b.u32((uint32_t) a.last_frame), b.f(a.fps), b.f(a.speed), b.f(a.collision_volume_scale);
			chunk(0xF520, b);
			if (n) {
				Bin e;
				e.u32(1);
				chunk(0xF5A0, e);
				for (size_t i = 0; i < n; ++i) event(a);
				bin.chunk(0xF5AF, {});
			}
		} else {
			kw("ani"), open(), str(a.name), integer((int32_t) a.layer), str(a.next), number(bi), number(bo), gap(), text += fl;
			if (!tidy && s.below(6) == 0) text += ":";
			str(a.model), gap(), kw(a.direction == z::AnimationDirection::BACKWARD ? "R" : "F"), integer(a.first_frame), integer(a.last_frame);
			if (!ft.empty()) gap(), kw("FPS"), text += ":" + ft;
			if (!cv.empty()) gap(), kw("CVS"), text += ":" + cv;
			close();
			bool open_brace = n && (last || tidy || s.below(4)), end_brace = open_brace && (last || tidy || s.below(6));
			if (!n && s.below(6) == 0) open_brace = end_brace = true;
			if (open_brace) gap(), text += "{";
			nl();
			for (size_t i = 0; i < n; ++i) event(a);
			if (end_brace) text += "}";
			if (n && !(open_brace && end_brace)) s.reach("events without braces");
		}
		m.animations.push_back(a);
	}
	/// Statements below aniEnum.
	void statement(bool last) {
		switch (s.below(8)) {
		case 0: {
			z::MdsAnimationBlend b {};
			b.name = name(), b.next = name();
			if (binary) {
				Bin x;
				(void) real(b.blend_in), (void) real(b.blend_out);
				x.s(b.name, z0()), x.s(b.next, z0()), x.f(b.blend_in), x.f(b.blend_out);
				chunk(0xF540, x);
			} else {
				kw("aniBlend"), open(), str(b.name);
				if (s.below(3) == 0) integer(num());
				str(b.next);
				size_t k = s.below(3);
				if (k > 0) number(b.blend_in);
				if (k > 1) number(b.blend_out);
				if (!tidy && s.below(5) == 0) gap(), text += "M.";
				close();
				ignored();
			}
			m.blends.push_back(b);
			break;
		}
		case 1: {
			z::MdsAnimationAlias a {};
			std::string fl;
			a.name = name(), a.layer = (uint32_t) std::abs(num() % 1000), a.next = name();
			std::string bi = real(a.blend_in), bo = real(a.blend_out);
			a.flags = flags(fl), a.alias = name();
			int dir = (int) s.below(3);
			a.direction = dir == 2 ? z::AnimationDirection::BACKWARD : z::AnimationDirection::FORWARD;
			if (binary) {
				Bin b;
				b.s(a.name, z0()), b.u32(a.layer), b.s(a.next, z0()), b.f(a.blend_in), b.f(a.blend_out), b.s(fl, z0()), b.s(a.alias, z0()), b.s(dir == 2 ? "R" : dir ? "F" : "", z0());
				chunk(0xF530, b);
			} else {
				kw("aniAlias"), open(), str(a.name), integer((int32_t) a.layer), str(a.next), number(bi), number(bo), gap(), text += fl, str(a.alias);
				if (dir) gap(), kw(dir == 2 ? "R" : "F");
				close();
			}
			m.aliases.push_back(a);
			break;
		}
		case 2: {
			z::MdsAnimationCombine c {};
			std::string fl;
			c.name = name(), c.layer = (uint32_t) std::abs(num() % 1000), c.next = name();
			std::string bi = real(c.blend_in), bo = real(c.blend_out);
			c.flags = flags(fl), c.model = name(), c.last_frame = num();
			if (binary) {
				Bin b;
				b.s(c.name, z0()), b.u32(c.layer), b.s(c.next, z0()), b.f(c.blend_in), b.f(c.blend_out), b.s(fl, z0()), b.s(c.model, z0()), b.u32((uint32_t) c.last_frame);
				chunk(0xF570, b);
			} else {
				kw("aniComb"), open(), str(c.name), integer((int32_t) c.layer), str(c.next), number(bi), number(bo), gap(), text += fl, str(c.model), integer(c.last_frame), close();
				ignored();
			}
			m.combinations.push_back(c);
			break;
		}
		case 3: {
			auto n = name();
			if (binary) {
				Bin b;
				b.s(n, z0());
				chunk(0xF580, b);
			} else kw("aniDisable"), open(), last_str(n), close();
			m.disabled_animations.push_back(n);
			break;
		}
		case 4: {
			auto n = name();
			if (binary) {
				Bin b;
				b.u32(0), b.s("DEF_HIT_LIMB", z0()), b.s(n, z0());
				chunk(0xF590, b);
			} else kw("modelTag"), open(), str("DEF_HIT_LIMB"), last_str(n), close();
			m.model_tags.push_back({n});
			break;
		}
		default: ani(last); break;
		}
		if (!binary) {
			nl();
			if (!tidy && s.below(10) == 0) { // statements that are not known are left out
				text += s.coin() ? "aniSync(\"A\" \"B\")" : "aniMaxFps 25";
				nl();
				s.reach("unknown statement");
			}
		}
		done();
	}
	/// Events that are left out.
	void ignored() {
		if (s.below(4)) return;
		gap(), text += "{", nl();
		z::MdsAnimation x;
		for (size_t n = s.below(3); n > 0; --n) event(x);
		if (!tidy && s.below(4) == 0) text += " % , 12 = \"}\" ";
		text += "}";
	}
	void top() {
		if (s.coin()) {
			z::MdsSkeleton k {name(), s.coin()};
			if (binary) {
				Bin b;
				b.u32(k.disable_mesh), b.s(k.name, z0());
				chunk(0xF300, b);
			} else {
				kw("meshAndTree"), open();
				if (k.disable_mesh) str(k.name), gap(), kw("DONT_USE_MESH");
				else last_str(k.name);
				close(), nl();
			}
			m.skeleton = k;
		} else {
			auto n = name();
			if (binary) {
				Bin b;
				b.s(n, z0());
				chunk(0xF400, b);
			} else kw("registerMesh"), open(), last_str(n), close(), nl();
			m.meshes.push_back(n);
		}
		done();
	}
	void all() {
		if (binary) {
			Bin b;
			if (s.below(8) == 0) {
				Bin mm;
				mm.u32(s.u32());
				bin.chunk(0xD000, mm);
			}
			b.u32(1), b.s("PATH.MDS", z0());
			bin.chunk(0xF000, b);
			if (s.coin()) {
				Bin d;
				for (int i = 0; i < 4; ++i) d.u32(s.u32());
				d.s("SRC.MDS", z0());
				bin.chunk(0xF100, d);
			}
		} else {
			if (!tidy && s.below(4) == 0) text += "// a comment\n";
			kw("Model"), open(), str(name()), close(), gap(), text += "{", nl();
		}
		size_t blocks = 1 + s.below(3);
		for (size_t k = 0; k < blocks; ++k) {
			for (size_t n = s.below(4); n > 0; --n) top();
			if (!binary) kw("aniEnum"), gap(), text += "{", nl();
			for (size_t n = s.below(7), i = 0; i < n; ++i) statement(i + 1 == n);
			if (!binary) text += "}", nl();
		}
		if (s.coin())
			for (size_t n = s.below(3); n > 0; --n) top();
		if (binary) {
			if (s.coin()) bin.chunk(0xFFFF, {});
			return;
		}
		if (tidy || s.below(6)) text += "}";
		if (s.coin()) nl();
		if (s.below(8) == 0) text += "// the end";
	}
};

/// Compares two scripts; gives how many elements differ and the first difference.
struct Cmp {
	std::string first;
	size_t bad = 0;
	void no(std::string what) {
		if (!bad++) first = what;
	}
	template <typename T, typename Fn>
	void list(char const* n, std::vector<T> const& a, std::vector<T> const& b, Fn same) {
		for (size_t i = 0; i < std::min(a.size(), b.size()); ++i)
			if (auto w = same(a[i], b[i])) no(std::string(n) + " " + std::to_string(i) + ": " + w);
	}
#define F(x) if (!(a.x == b.x)) return #x;
	static char const* tag(z::MdsEventTag const& a, z::MdsEventTag const& b) {
		F(frame) F(type)
		switch (a.type) {
		case z::MdsEventType::ITEM_CREATE: case z::MdsEventType::ITEM_EXCHANGE: case z::MdsEventType::ITEM_INSERT: case z::MdsEventType::MUNITION_PLACE: case z::MdsEventType::MESH_SWAP: case z::MdsEventType::HIT_LIMB: F(slot) break;
		default: if (!a.slot.empty()) F(slot) break;
		}
		F(slot2) F(item) F(frames) F(fight_mode) F(attached)
		return nullptr;
	}
	static char const* ani(z::MdsAnimation const& a, z::MdsAnimation const& b, bool part) {
		F(name) F(layer) F(next) F(blend_in) F(blend_out) F(flags) F(model) F(direction) F(first_frame) F(last_frame) F(fps) F(speed) F(collision_volume_scale)
		if (!part) { F(events.size()) F(pfx.size()) F(pfx_stop.size()) F(sfx.size()) F(sfx_ground.size()) F(morph.size()) F(tremors.size()) }
		auto each = [](auto const& x, auto const& y, auto same) -> char const* {
			for (size_t i = 0; i < std::min(x.size(), y.size()); ++i)
				if (auto r = same(x[i], y[i])) return r;
			return nullptr;
		};
		if (auto r = each(a.events, b.events, tag)) return r;
		if (auto r = each(a.pfx, b.pfx, [](auto& a, auto& b) -> char const* { F(frame) F(index) F(name) F(position) F(attached) return nullptr; })) return r;
		if (auto r = each(a.pfx_stop, b.pfx_stop, [](auto& a, auto& b) -> char const* { F(frame) F(index) return nullptr; })) return r;
		if (auto r = each(a.sfx, b.sfx, [](auto& a, auto& b) -> char const* { F(frame) F(name) F(range) F(empty_slot) return nullptr; })) return r;
		if (auto r = each(a.sfx_ground, b.sfx_ground, [](auto& a, auto& b) -> char const* { F(frame) F(name) F(range) F(empty_slot) return nullptr; })) return r;
		if (auto r = each(a.morph, b.morph, [](auto& a, auto& b) -> char const* { F(frame) F(animation) F(node) return nullptr; })) return r;
		if (auto r = each(a.tremors, b.tremors, [](auto& a, auto& b) -> char const* { F(frame) F(field1) F(field2) F(field3) F(field4) return nullptr; })) return r;
		return nullptr;
	}
	void all(z::ModelScript const& a, z::ModelScript const& b, bool part) {
		if (!part || !b.skeleton.name.empty()) {
			auto sk = [](auto& a, auto& b) -> char const* { F(name) F(disable_mesh) return nullptr; };
			if (!part) if (auto r = sk(a.skeleton, b.skeleton)) no(std::string("skeleton: ") + r);
		}
		list("mesh", a.meshes, b.meshes, [](auto& a, auto& b) -> char const* { return a == b ? nullptr : "name"; });
		list("disabled animation", a.disabled_animations, b.disabled_animations, [](auto& a, auto& b) -> char const* { return a == b ? nullptr : "name"; });
		list("tag", a.model_tags, b.model_tags, [](auto& a, auto& b) -> char const* { F(bone) return nullptr; });
		list("combination", a.combinations, b.combinations, [](auto& a, auto& b) -> char const* { F(name) F(layer) F(next) F(blend_in) F(blend_out) F(flags) F(model) F(last_frame) return nullptr; });
		list("blend", a.blends, b.blends, [](auto& a, auto& b) -> char const* { F(name) F(next) F(blend_in) F(blend_out) return nullptr; });
		list("alias", a.aliases, b.aliases, [](auto& a, auto& b) -> char const* { F(name) F(layer) F(next) F(blend_in) F(blend_out) F(flags) F(alias) F(direction) return nullptr; });
		size_t n = 0;
		list("animation", a.animations, b.animations, [&](auto& x, auto& y) { return ani(x, y, part && ++n == b.animations.size()); });
	}
#undef F
	static std::string sizes(z::ModelScript const& m) {
		char b[200];
		snprintf(b, sizeof b, "%zu meshes, %zu disabled, %zu tags, %zu combinations, %zu blends, %zu aliases, %zu animations", m.meshes.size(), m.disabled_animations.size(), m.model_tags.size(), m.combinations.size(), m.blends.size(), m.aliases.size(), m.animations.size());
		return b;
	}
};

static size_t total(z::ModelScript const& m) { return m.meshes.size() + m.disabled_animations.size() + m.model_tags.size() + m.combinations.size() + m.blends.size() + m.aliases.size() + m.animations.size(); }

static void run(Sim& s) {
	log_level(s.below(8) == 0);
	Gen g(s);
	g.all();
	std::vector<std::byte> d = g.bin.d;
	if (!g.binary) d.assign((std::byte const*) g.text.data(), (std::byte const*) g.text.data() + g.text.size());
	if (s.tracing && !g.binary) s.event("%s", g.text.c_str());
	else s.event("%s script, %zu statements, %zu bytes", g.binary ? "binary" : "text", g.count, d.size());
	s.mix(d.data(), d.size());
	size_t lead = s.below(3) == 0 ? 1 + s.below(20) : 0;
	std::vector<std::byte> file(lead, std::byte {'x'});
	file.insert(file.end(), d.begin(), d.end());
	bool full = !d.empty();
	if (full) {
		Source src(s, file);
		z::ModelScript m;
		src.get()->seek((ssize_t) lead, z::Whence::BEG);
		try {
			m.load(src.get());
		} catch (std::exception const& e) { s.fail("load-failed", "an intact script from a %s: %s", src.kind(), e.what()); }
		s.check(Cmp::sizes(g.m) == Cmp::sizes(m), "statements", "the script has %s, loaded were %s", Cmp::sizes(g.m).c_str(), Cmp::sizes(m).c_str());
		Cmp c;
		c.all(g.m, m, false);
		if (c.bad && s.tracing) for (auto& a : g.m.animations) for (auto& e : a.events) s.event("tag %d [%s] [%s]", (int) e.type, e.slot.c_str(), e.item.c_str());
		if (c.bad && s.tracing) for (auto& a : m.animations) for (auto& e : a.events) s.event("tag %d [%s] [%s]", (int) e.type, e.slot.c_str(), e.item.c_str());
		s.check(c.bad == 0, "content", "%s differs", c.first.c_str());
		if (g.count > 2) s.nontrivial();
	}
	// The writer of the file was interrupted.
	for (size_t k = s.below(3); k > 0 && file.size() > lead + 2; --k) {
		size_t cut = lead + 2 + s.below(file.size() - lead - 2);
		std::vector<std::byte> part(file.begin(), file.begin() + (long) cut);
		s.fault("torn-file");
		s.event("cut off at %zu", cut);
		Source src(s, part);
		z::ModelScript m;
		src.get()->seek((ssize_t) lead, z::Whence::BEG);
		bool ok = true;
		try {
			m.load(src.get());
		} catch (z::Error const&) {
			ok = false;
		} catch (std::exception const& e) { s.fail("exception", "a script that is cut off: %s", e.what()); }
		s.reach(ok ? "script cut off, loaded" : "script cut off, rejected");
		size_t before = 0;
		while (before < g.ends.size() && g.ends[before] + lead <= cut) ++before;
		// Statements in front of the cut are there (skeletons are not counted), at most one more which is incomplete.
		size_t sk = g.count - total(g.m);
		s.check(total(m) + sk >= before || !ok, "lost", "%zu statements in front of the cut, %s loaded", before, Cmp::sizes(m).c_str());
		s.check(total(m) <= before + 1, "invented", "%zu statements in front of the cut, %s loaded", before, Cmp::sizes(m).c_str());
		Cmp c;
		c.all(g.m, m, true);
		s.check(c.bad <= 1, "content", "cut off: %s differs, and %zu more", c.first.c_str(), c.bad - 1);
	}
}

#ifndef SIM_AS_LIBRARY
Harness sim::harness {
    .property = "P20",
    .run = run,
    .rule = "distinct history hashes (all bytes of the script) of scripts with more than two statements",
    .components = "real: src/ModelScript.cc, src/ModelScriptDsl.cc, src/Stream.cc; simulated: stream storage (chunked transfers, files cut off); stub: writers of text and binary scripts",
    .quick_runs = 400000,
    .thorough_runs = 8000000,
    .quick_secs = 45,
    .thorough_secs = 600,
    .step_budget = 50'000'000,
};
#endif
