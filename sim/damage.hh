// Damage to stored data and to the resources a loader uses.
#pragma once
#include "core.hh"
#include "streams.hh"
#include <zenkit/Stream.hh>

namespace sim {
	/// Damages `d` as storage and careless writers do.
	inline void damage(Sim& s, std::vector<std::byte>& d) {
		size_t n = 1 + s.below(3);
		static uint32_t const nasty[] = {0, 1, 2, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0x40000000, 0x3FFFFFFF, 0x00FFFFFF};
		for (size_t i = 0; i < n && !d.empty(); ++i) {
			size_t at = s.below(d.size());
			switch (s.below(8)) {
			case 0:
				s.fault("truncated");
				s.event("truncate to %zu of %zu", at, d.size());
				d.resize(at);
				break;
			case 1: {
				size_t k = 1 + s.below(8);
				for (size_t j = 0; j < k; ++j) d[s.below(d.size())] ^= (std::byte) (1u << s.below(8));
				s.fault("bits-flipped", k);
				s.event("flip %zu bits", k);
				break;
			}
			case 2:
			case 3: {
				uint32_t v = s.below(4) ? nasty[s.below(16)] : (uint32_t) d.size() + (uint32_t) s.below(9) - 4;
				size_t w = (size_t) 1 << s.below(3);
				if (s.coin() && d.size() > 64) at = s.below(64); // headers decide most
				w = std::min(w, d.size() - at);
				memcpy(d.data() + at, &v, w);
				s.fault("value-overwritten");
				s.event("put %u (%zu bytes) at %zu", v, w, at);
				break;
			}
			case 4: {
				size_t k = std::min(d.size() - at, 1 + s.below(64));
				std::fill_n(d.begin() + (long) at, k, s.coin() ? std::byte {0} : std::byte {0xFF});
				s.fault("blank-block");
				s.event("blank %zu bytes at %zu", k, at);
				break;
			}
			case 5: {
				size_t k = std::min(d.size() - at, 1 + s.below(32));
				d.erase(d.begin() + (long) at, d.begin() + (long) (at + k));
				s.fault("bytes-lost");
				s.event("lose %zu bytes at %zu", k, at);
				break;
			}
			case 6: {
				size_t k = std::min(d.size() - at, 1 + s.below(64));
				std::vector<std::byte> c(d.begin() + (long) at, d.begin() + (long) (at + k));
				size_t to = s.below(d.size());
				d.insert(d.begin() + (long) to, c.begin(), c.end());
				s.fault("bytes-duplicated");
				s.event("duplicate %zu bytes from %zu to %zu", k, at, to);
				break;
			}
			default: {
				// text: punctuation and digits
				static char const t[] = "\"\n{}[]:0-9% =\r\t\\/*";
				size_t k = 1 + s.below(4);
				for (size_t j = 0; j < k; ++j) d[s.below(d.size())] = (std::byte) t[s.below(sizeof t - 1)];
				s.fault("characters-changed", k);
				s.event("change %zu characters", k);
				break;
			}
			}
		}
	}
	/// A source over possibly failing storage.
	class FaultySource {
	public:
		FaultySource(Sim& s, std::vector<std::byte> const& d, bool faults) {
			dev.data = d;
			dev.policy(s);
			if (faults && s.below(4) == 0) {
				if (s.coin()) dev.fail_read_at = (int64_t) s.below(20), dev.fail_sticky = s.coin();
				else if (!d.empty()) dev.eof_at = (int64_t) s.below(d.size());
			}
			switch (s.below(3)) {
			case 0:
				f = open_cookie(&dev, "r", s.coin());
				r = zenkit::Read::from(f);
				break;
			case 1:
				buf = std::make_unique<InBuf>(&dev, 1 + s.below(64));
				is = std::make_unique<std::istream>(buf.get());
				r = zenkit::Read::from(is.get());
				break;
			default:
				dev.data.shrink_to_fit();
				r = zenkit::Read::from(dev.data.data(), dev.data.size());
				break;
			}
		}
		~FaultySource() {
			r.reset();
			if (f) fclose(f);
		}
		FaultySource(FaultySource const&) = delete;
		zenkit::Read* get() { return r.get(); }
		bool failed() const { return dev.failed; }

	private:
		Device dev;
		FILE* f = nullptr;
		std::unique_ptr<InBuf> buf;
		std::unique_ptr<std::istream> is;
		std::unique_ptr<zenkit::Read> r;
	};
} // namespace sim
