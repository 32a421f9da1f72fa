// A simulated disk file behind zenkit::Write: records every write so that any crash point can be reconstructed, and can
// refuse bytes (full disk, I/O error).
#pragma once
#include "core.hh"
#include <cstring>
#include <zenkit/Stream.hh>

namespace sim {
	class RecWrite final : public zenkit::Write {
	public:
		explicit RecWrite(Sim& s) : s(s) {}
		size_t write(void const* buf, size_t len) noexcept override {
			size_t k = pos < cap ? std::min(len, cap - pos) : 0;
			if (k < len) {
				refused = true;
				s.fault("full-disk(ENOSPC)");
			}
			if (pos + k > data.size()) data.resize(pos + k);
			if (k) memcpy(data.data() + pos, buf, k);
			if (keep_log) log.push_back({pos, std::vector<std::byte>((std::byte const*) buf, (std::byte const*) buf + k)});
			pos += k;
			return k;
		}
		void seek(ssize_t off, zenkit::Whence w) noexcept override {
			ssize_t b = w == zenkit::Whence::BEG ? 0 : w == zenkit::Whence::CUR ? (ssize_t) pos : (ssize_t) data.size();
			if (b + off >= 0) pos = (size_t) (b + off);
		}
		[[nodiscard]] size_t tell() const noexcept override { return pos; }

		/// The durable content after a crash that kept the first `n` writes and `torn` bytes of the next one.
		[[nodiscard]] std::vector<std::byte> crash(size_t n, size_t torn) const {
			std::vector<std::byte> d;
			auto apply = [&](std::pair<size_t, std::vector<std::byte>> const& e, size_t k) {
				if (!k) return;
				if (e.first + k > d.size()) d.resize(e.first + k);
				memcpy(d.data() + e.first, e.second.data(), k);
			};
			for (size_t i = 0; i < n && i < log.size(); ++i) apply(log[i], log[i].second.size());
			if (n < log.size()) apply(log[n], std::min(torn, log[n].second.size()));
			return d;
		}

		Sim& s;
		std::vector<std::byte> data;
		std::vector<std::pair<size_t, std::vector<std::byte>>> log;
		bool keep_log = true, refused = false;
		size_t cap = SIZE_MAX;

	private:
		size_t pos = 0;
	};
} // namespace sim
