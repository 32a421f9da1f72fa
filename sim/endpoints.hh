// Randomly chosen ZenKit stream back ends over simulated storage: whatever is written or read must not depend on the kind.
#pragma once
#include "core.hh"
#include "recwrite.hh"
#include "streams.hh"
#include <fstream>
#include <zenkit/Stream.hh>

namespace sim {
	/// An output of a random kind.
	class Sink {
	public:
		explicit Sink(Sim& s) {
			switch (s.below(5)) {
			case 0:
				_kind = "recorder";
				w = std::make_unique<RecWrite>(s);
				rec = (RecWrite*) w.get();
				rec->keep_log = false;
				break;
			case 1:
				_kind = "FILE*";
				dev.policy(s);
				f = open_cookie(&dev, "w", s.coin());
				w = zenkit::Write::to(f);
				break;
			case 2:
				_kind = "ostream";
				dev.policy(s);
				buf = std::make_unique<OutBuf>(&dev);
				os = std::make_unique<std::ostream>(buf.get());
				w = zenkit::Write::to(os.get());
				break;
			default:
				_kind = "vector";
				w = zenkit::Write::to(&vec);
				break;
			}
		}
		~Sink() { close(); }
		Sink(Sink const&) = delete;
		zenkit::Write* get() { return w.get(); }
		char const* kind() const { return _kind; }
		std::vector<std::byte> finish() {
			std::vector<std::byte> r;
			if (rec) r = rec->data;
			w.reset();
			close();
			if (!rec) r = buf || was_file ? dev.data : vec;
			return r;
		}

	private:
		void close() {
			if (os) os->flush();
			if (f) {
				fclose(f);
				f = nullptr;
				was_file = true;
			}
		}
		char const* _kind = "";
		std::unique_ptr<zenkit::Write> w;
		RecWrite* rec = nullptr;
		Device dev;
		FILE* f = nullptr;
		bool was_file = false;
		std::unique_ptr<OutBuf> buf;
		std::unique_ptr<std::ostream> os;
		std::vector<std::byte> vec;
	};

	/// An input of a random kind over the given bytes.
	class Source {
	public:
		Source(Sim& s, std::vector<std::byte> const& d) {
			switch (s.below(5)) {
			case 0:
				_kind = "FILE*";
				dev.data = d;
				dev.policy(s);
				f = open_cookie(&dev, "r", s.coin());
				r = zenkit::Read::from(f);
				break;
			case 1:
				_kind = "istream";
				dev.data = d;
				dev.policy(s);
				buf = std::make_unique<InBuf>(&dev, 1 + s.below(64));
				is = std::make_unique<std::istream>(buf.get());
				r = zenkit::Read::from(is.get());
				break;
			case 2:
				_kind = "owned vector";
				r = zenkit::Read::from(std::vector<std::byte>(d));
				break;
			default:
				_kind = "memory";
				dev.data = d;
				dev.data.shrink_to_fit();
				r = zenkit::Read::from(dev.data.data(), dev.data.size());
				break;
			}
		}
		~Source() {
			r.reset();
			if (f) fclose(f);
		}
		Source(Source const&) = delete;
		zenkit::Read* get() { return r.get(); }
		char const* kind() const { return _kind; }

	private:
		char const* _kind = "";
		Device dev;
		FILE* f = nullptr;
		std::unique_ptr<InBuf> buf;
		std::unique_ptr<std::istream> is;
		std::unique_ptr<zenkit::Read> r;
	};

	inline char const* set_zone(Sim& s) {
		static char const* const zones[] = {"UTC", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<+0545>-5:45", "<-11>11"};
		char const* z = zones[s.below(6)];
		set_env("TZ", z);
		return z;
	}
} // namespace sim
